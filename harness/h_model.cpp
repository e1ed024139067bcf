#include "vf.hpp"
#include "mlrl/common/model/body_conjunctive.cpp"
#include "mlrl/common/model/body_empty.cpp"
#include "mlrl/common/model/condition_list.cpp"
#include "mlrl/common/model/head_complete.cpp"
#include "mlrl/common/model/head_partial.cpp"
#include "mlrl/common/model/rule_list.cpp"

/* lets the vector of an object refer to n elements at base (libstdc++ layout) */
template<typename V, typename T>
static inline void vf_vec(V& v, T* base, uint32 n) {
    T** p = reinterpret_cast<T**>(&v);
    p[0] = base;
    p[1] = base + n;
    p[2] = base + n;
}

typedef RuleList::Rule VfRule;

extern "C" int32 h_rule_at(uint32 n, bool hasDefault, bool prec, uint32 used, uint32 maxRules, bool usedOnly, uint32 j,
                           uint32* count) {
    RuleList list(prec);
    VfRule* base = (VfRule*) calloc(n, sizeof(VfRule));
    vf_vec(list.ruleList_, base, n);
    if (hasDefault) list.addDefaultRule(std::unique_ptr<IHead>());
    list.setNumUsedRules(used);
    count[1] = list.getNumRules();
    count[2] = list.getNumUsedRules();
    RuleList::const_iterator it = usedOnly ? list.used_cbegin(maxRules) : list.cbegin(maxRules);
    RuleList::const_iterator end = usedOnly ? list.used_cend(maxRules) : list.cend(maxRules);
    count[0] = (uint32) (end - it);
    for (uint32 i = 0; i < j; i++) {
        it++;
    }
    const VfRule& rule = *it;
    int32 r = hasDefault && &rule == list.defaultRulePtr_.get() ? -1 : (int32) (&rule - base);
    VfRule* none = nullptr;
    vf_vec(list.ruleList_, none, 0);
    free(base);
    return r;
}

static inline void vf_set(Condition& c, uint32 f, uint8 cmp, float32 tf, int32 ti) {
    c.featureIndex = f;
    c.comparator = (Comparator) cmp;
    if (cmp < 2) {
        c.threshold = tf;
    } else {
        c.threshold = ti;
    }
}

static inline void vf_out(const ConjunctiveBody& b, uint32* cnt, uint32* i0, float32* t0, uint32* i1, float32* t1, uint32* i2,
                          int32* t2, uint32* i3, int32* t3, uint32* i4, int32* t4, uint32* i5, int32* t5) {
    cnt[0] = b.getNumNumericalLeq();
    cnt[1] = b.getNumNumericalGr();
    cnt[2] = b.getNumOrdinalLeq();
    cnt[3] = b.getNumOrdinalGr();
    cnt[4] = b.getNumNominalEq();
    cnt[5] = b.getNumNominalNeq();
    VF_COPY(i0, b.numerical_leq_indices_cbegin(), cnt[0]);
    VF_COPY(t0, b.numerical_leq_thresholds_cbegin(), cnt[0]);
    VF_COPY(i1, b.numerical_gr_indices_cbegin(), cnt[1]);
    VF_COPY(t1, b.numerical_gr_thresholds_cbegin(), cnt[1]);
    VF_COPY(i2, b.ordinal_leq_indices_cbegin(), cnt[2]);
    VF_COPY(t2, b.ordinal_leq_thresholds_cbegin(), cnt[2]);
    VF_COPY(i3, b.ordinal_gr_indices_cbegin(), cnt[3]);
    VF_COPY(t3, b.ordinal_gr_thresholds_cbegin(), cnt[3]);
    VF_COPY(i4, b.nominal_eq_indices_cbegin(), cnt[4]);
    VF_COPY(t4, b.nominal_eq_thresholds_cbegin(), cnt[4]);
    VF_COPY(i5, b.nominal_neq_indices_cbegin(), cnt[5]);
    VF_COPY(t5, b.nominal_neq_thresholds_cbegin(), cnt[5]);
}

#define OUT_PARAMS                                                                                                     \
    uint32 *cnt, uint32 *i0, float32 *t0, uint32 *i1, float32 *t1, uint32 *i2, int32 *t2, uint32 *i3, int32 *t3,        \
      uint32 *i4, int32 *t4, uint32 *i5, int32 *t5

/* the six counters of the list are given; the conditions lie in an array the list refers to */
extern "C" void h_create_body(uint32 n, Condition* cond, const uint32* num, OUT_PARAMS) {
    ConditionList list;
    vf_vec(list.vector_, cond, n);
    for (uint32 i = 0; i < 6; i++) list.numConditionsPerComparator_[i] = num[i];
    std::unique_ptr<ConjunctiveBody> body = list.createConjunctiveBody();
    vf_out(*body, cnt, i0, t0, i1, t1, i2, t2, i3, t3, i4, t4, i5, t5);
    Condition* none = nullptr;
    vf_vec(list.vector_, none, 0);
}

/* history of the list: n conditions added, the last nr removed, m further ones added; copied before the body is created */
extern "C" void h_list_history(uint32 n, const uint32* fi, const uint8* cmp, const float32* tf, const int32* ti, uint32 first,
                               uint32 nr, bool copy, OUT_PARAMS) {
    ConditionList list;
    Condition c;
    for (uint32 i = 0; i < n; i++) {
        if (i == first) {
            for (uint32 j = 0; j < nr; j++) list.removeLastCondition();
        }
        vf_set(c, fi[i], cmp[i], tf[i], ti[i]);
        list.addCondition(c);
    }
    ConditionList other(list);
    std::unique_ptr<ConjunctiveBody> body = copy ? other.createConjunctiveBody() : list.createConjunctiveBody();
    vf_out(*body, cnt, i0, t0, i1, t1, i2, t2, i3, t3, i4, t4, i5, t5);
    cnt[6] = copy ? other.getNumConditions() : list.getNumConditions();
}

/* removal of the last condition and copying, on counters */
extern "C" uint32 h_remove_last(Condition* cond, const uint32* num, uint32* cnt) {
    ConditionList list;
    Condition last;
    for (uint32 i = 0; i < 6; i++) {
        if (cond[0].comparator == i) last.comparator = (Comparator) i;
    }
    vf_vec(list.vector_, &last, 1);
    for (uint32 i = 0; i < 6; i++) list.numConditionsPerComparator_[i] = num[i];
    list.removeLastCondition();
    for (uint32 i = 0; i < 6; i++) cnt[i] = list.numConditionsPerComparator_[i];
    uint32 r = list.getNumConditions();
    Condition* none = nullptr;
    vf_vec(list.vector_, none, 0);
    return r;
}

/* heads: scores, indices and visiting */
extern "C" uint32 h_visit(uint32 n, bool hasDefault, bool prec, uint32 used, bool usedOnly, const uint8* partial, int32* seen) {
    RuleList list(prec);
    for (uint32 i = 0; i < n; i++) {
        std::unique_ptr<ConjunctiveBody> b = std::make_unique<ConjunctiveBody>(1, 0, 0, 0, 0, 0);
        b->numerical_leq_indices_begin()[0] = i;
        if (partial[i]) {
            std::unique_ptr<PartialHead> h = std::make_unique<PartialHead>(1);
            h->values_begin()[0] = i;
            h->indices_begin()[0] = i;
            list.addRule(std::move(b), std::move(h));
        } else {
            std::unique_ptr<CompleteHead> h = std::make_unique<CompleteHead>(1);
            h->values_begin()[0] = i;
            list.addRule(std::move(b), std::move(h));
        }
    }
    if (hasDefault) {
        std::unique_ptr<CompleteHead> h = std::make_unique<CompleteHead>(1);
        h->values_begin()[0] = -1;
        list.addDefaultRule(std::move(h));
    }
    list.setNumUsedRules(used);
    uint32 m = 0;
    auto eb = [&](const EmptyBody& b) {
        seen[4 * m] = -1;
        seen[4 * m + 1] = 0;
    };
    auto cb = [&](const ConjunctiveBody& b) {
        seen[4 * m] = (int32) b.numerical_leq_indices_cbegin()[0];
        seen[4 * m + 1] = 1;
    };
    auto ch = [&](const CompleteHead& h) {
        seen[4 * m + 2] = (int32) h.values_cbegin()[0];
        seen[4 * m + 3] = 0;
        m++;
    };
    auto ph = [&](const PartialHead& h) {
        seen[4 * m + 2] = (int32) h.values_cbegin()[0];
        seen[4 * m + 3] = 1;
        m++;
    };
    if (usedOnly) {
        list.visitUsed(eb, cb, ch, ph);
    } else {
        list.visit(eb, cb, ch, ph);
    }
    return m;
}
