/* rules whose bodies and heads are symbolic: RuleList::Rule::getBody/getHead are used through contracts that identify the
 * rule, its body covers the example iff vf_covered says so */
#pragma once
#include "vf_model.hpp"

#ifdef VF_NATIVE
static bool vf_covered(int32 id) { return false; }
static void vf_register(void* body, void* head, void* rules) {}
#else
extern "C" bool vf_covered(int32 id);
extern "C" void vf_register(void* body, void* head, void* rules);
#endif

struct VfBody final : public IBody {
        int32 id;
        mutable uint32 last;
        mutable uint32 stale;

        bool covers(View<const float32>::const_iterator begin, View<const float32>::const_iterator end) const override {
            return vf_covered(id);
        }

        bool covers(View<const uint32>::const_iterator indicesBegin, View<const uint32>::const_iterator indicesEnd,
                    View<const float32>::const_iterator valuesBegin, View<const float32>::const_iterator valuesEnd,
                    float32 sparseValue, View<float32>::iterator tmpArray1, View<uint32>::iterator tmpArray2,
                    uint32 n) const override {
            if (n <= last) stale = 1;
            last = n;
            return vf_covered(id);
        }

        void visit(EmptyBodyVisitor emptyBodyVisitor, ConjunctiveBodyVisitor conjunctiveBodyVisitor) const override {}
};

struct VfHead final : public IHead {
        int32 id;

        void visit(CompleteHeadVisitor completeHeadVisitor, PartialHeadVisitor partialHeadVisitor) const override {}
};

template<typename V, typename T>
static inline void vf_vec(V& v, T* base, uint32 n) {
    T** p = reinterpret_cast<T**>(&v);
    p[0] = base;
    p[1] = base + n;
    p[2] = base + n;
}

#define RULE_PARAMS uint32 n, const uint8 *cov, bool hasDefault, bool prec, uint32 used, uint32 maxRules, float64 *trace
#define RULES_INIT                                                                                                     \
    VfBody body;                                                                                                       \
    VfHead head;                                                                                                       \
    body.id = -2;                                                                                                      \
    head.id = -2;                                                                                                      \
    body.last = 0;                                                                                                     \
    body.stale = 0;                                                                                                    \
    RuleList list(prec);                                                                                               \
    RuleList::Rule* base = (RuleList::Rule*) calloc(n, sizeof(RuleList::Rule));                                        \
    vf_vec(list.ruleList_, base, n);                                                                                   \
    if (hasDefault) list.addDefaultRule(std::unique_ptr<IHead>());                                                     \
    list.setNumUsedRules(used);                                                                                        \
    vf_register(&body, &head, base)
#define RULES_EXIT                                                                                                     \
    RuleList::Rule* none = nullptr;                                                                                    \
    vf_vec(list.ruleList_, none, 0);                                                                                   \
    free(base)
