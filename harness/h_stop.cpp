#include "vf.hpp"
#include "mlrl/common/stopping/global_pruning_pre.cpp"
#include "mlrl/common/stopping/global_pruning_post.cpp"
#include "mlrl/common/stopping/stopping_criterion_list.cpp"
#include "mlrl/common/stopping/stopping_criterion_size.cpp"
#include "mlrl/common/stopping/stopping_criterion_time.cpp"
#include "mlrl/common/sampling/partition_single.cpp"
#include "mlrl/common/sampling/partition_bi.cpp"
#include "mlrl/common/iterator/iterator_index.cpp"
#include "mlrl/common/data/vector_bit.cpp"
#include "mlrl/seco/stopping/stopping_criterion_coverage.cpp"
#include "mlrl/common/rule_model_assemblage/rule_model_assemblage_sequential.cpp"

#define VF_SUBSET(W) \
    std::unique_ptr<IStatisticsSubset> createSubset(const CompleteIndexVector&, const W&) const override { return nullptr; } \
    std::unique_ptr<IStatisticsSubset> createSubset(const PartialIndexVector&, const W&) const override { return nullptr; }

/* statistics whose predictions are evaluated to given scores */
struct VfStatistics final : public seco::ICoverageStatistics {
        const float64* scores;
        float64 uncovered;
        VfStatistics(const float64* s) : scores(s), uncovered(0) {}
        uint32 getNumStatistics() const override { return 0; }
        uint32 getNumOutputs() const override { return 0; }
        std::unique_ptr<IStatisticsUpdate> createUpdate(const CompletePrediction&) override { return nullptr; }
        std::unique_ptr<IStatisticsUpdate> createUpdate(const PartialPrediction&) override { return nullptr; }
        float64 evaluatePrediction(uint32 i) const override { return scores[i]; }
        float64 getSumOfUncoveredWeights() const override { return uncovered; }
        VF_SUBSET(EqualWeightVector)
        VF_SUBSET(BitWeightVector)
        VF_SUBSET(DenseWeightVector<uint32>)
        VF_SUBSET(OutOfSampleWeightVector<EqualWeightVector>)
        VF_SUBSET(OutOfSampleWeightVector<BitWeightVector>)
        VF_SUBSET(OutOfSampleWeightVector<DenseWeightVector<uint32>>)
        std::unique_ptr<IWeightedStatistics> createWeightedStatistics(const EqualWeightVector&) const override { return nullptr; }
        std::unique_ptr<IWeightedStatistics> createWeightedStatistics(const BitWeightVector&) const override { return nullptr; }
        std::unique_ptr<IWeightedStatistics> createWeightedStatistics(const DenseWeightVector<uint32>&) const override { return nullptr; }
};

extern "C" float64 h_agg_min(uint32 n, const float64* x) {
    MinAggregationFunction f;
    return f.aggregate(x, x + n);
}

extern "C" float64 h_agg_max(uint32 n, const float64* x) {
    MaxAggregationFunction f;
    return f.aggregate(x, x + n);
}

extern "C" float64 h_agg_mean(uint32 n, const float64* x) {
    ArithmeticMeanAggregationFunction f;
    return f.aggregate(x, x + n);
}

extern "C" float64 h_eval_single(uint32 n, const float64* scores, bool holdout) {
    SinglePartition p(n);
    VfStatistics s(scores);
    return evaluate(p, holdout, s);
}

extern "C" float64 h_eval_bi(uint32 n, const float64* scores, uint32 nf, uint32 ns, const uint32* idx, bool holdout) {
    BiPartition p(nf, ns);
    VF_COPY(p.first_begin(), idx, nf);
    VF_COPY(p.second_begin(), idx + nf, ns);
    VfStatistics s(scores);
    return evaluate(p, holdout, s);
}

extern "C" bool h_ring(uint32 cap, float64* a, uint32 pos, bool full, float64 v, float64* oldest, uint32* state) {
    RingBuffer<float64> b(cap);
    VF_COPY(b.view.array, a, cap);
    b.pos_ = pos;
    b.full_ = full;
    std::pair<bool, float64> r = b.push(v);
    oldest[0] = r.second;
    VF_COPY(a, b.view.array, cap);
    state[0] = b.pos_;
    state[1] = b.isFull();
    state[2] = b.getNumElements();
    state[3] = b.cend() - b.cbegin();
    return r.first;
}

extern "C" uint32 h_size(uint32 maxRules, uint32 numRules) {
    SizeStoppingCriterion c(maxRules);
    VfStatistics s(nullptr);
    IStoppingCriterion::Result r = c.test(s, numRules);
    return r.stop | r.numUsedRules << 1;
}

/* a single step of post-pruning, for an arbitrary state */
extern "C" uint32 h_post_step(uint32 n, const float64* scores, uint32 minRules, uint32 interval, float64* best, uint32* bestRules, uint32 numRules, bool* stop) {
    SinglePartition p(n);
    PostPruning<const SinglePartition> c(p, false, minRules, interval);
    c.bestScore_ = best[0];
    c.bestNumRules_ = bestRules[0];
    VfStatistics s(scores);
    IStoppingCriterion::Result r = c.test(s, numRules);
    best[0] = c.bestScore_;
    bestRules[0] = c.bestNumRules_;
    stop[0] = r.stop;
    return r.numUsedRules;
}

#ifdef VF_NATIVE
static std::unique_ptr<IStoppingCriterionFactory> vf_factory(uint32 kind, const uint32* cfg, float64 improvement) {
    if (kind == 0) {
        SizeStoppingCriterionConfig c;
        c.setMaxRules(cfg[0]);
        return c.createStoppingCriterionFactory();
    } else if (kind == 1) {
        PostPruningConfig c;
        c.setMinRules(cfg[0]).setInterval(cfg[1]).setUseHoldoutSet(cfg[2]).setRemoveUnusedRules(cfg[3]);
        return c.createStoppingCriterionFactory();
    } else if (kind == 3) {
        seco::CoverageStoppingCriterionConfig c;
        c.setThreshold(improvement);
        return c.createStoppingCriterionFactory();
    }
    PrePruningConfig c;
    c.setMinRules(cfg[0]).setUpdateInterval(cfg[1]).setStopInterval(cfg[4]).setUseHoldoutSet(cfg[2]).setRemoveUnusedRules(cfg[3]);
    c.setNumPast(cfg[5]).setNumCurrent(cfg[6]).setMinImprovement(improvement);
    c.setAggregationFunction(cfg[7] == 0 ? AggregationFunction::MIN : cfg[7] == 1 ? AggregationFunction::MAX : AggregationFunction::ARITHMETIC_MEAN);
    return c.createStoppingCriterionFactory();
}

/* the first bytes of freshly allocated memory are filled with a pattern, so that missing initialisations have an effect */
static void vf_dirty() {
    void* p[64];
    for (int i = 0; i < 64; i++) {
        p[i] = std::malloc(8 + i * 8);
        std::memset(p[i], i % 2 ? 0x00 : 0xAA, 8 + i * 8);
    }
    for (int i = 0; i < 64; i++) std::free(p[i]);
}

/* consecutive tests of stopping criteria; kinds: bit mask of size (1), post-pruning (2), pre-pruning (4), coverage (8) */
extern "C" void h_tests(uint32 kinds, const uint32* cfg, float64 improvement, uint32 nf, uint32 ns, const uint32* idx, uint32 start, uint32 nt, const float64* scores, const float64* uncovered, uint32* stop, uint32* used) {
    vf_dirty();
    StoppingCriterionListFactory list;
    for (uint32 k = 0; k < 4; k++) {
        if (kinds >> k & 1) list.addStoppingCriterionFactory(vf_factory(k, cfg + 8 * k, improvement));
    }
    SinglePartition single(nf);
    BiPartition bi(nf, ns ? ns : 1);
    if (ns) {
        VF_COPY(bi.first_begin(), idx, nf);
        VF_COPY(bi.second_begin(), idx + nf, ns);
    }
    IPartition& p = ns ? (IPartition&) bi : (IPartition&) single;
    std::unique_ptr<IStoppingCriterion> c = p.createStoppingCriterion(list);
    for (uint32 t = 0; t < nt; t++) {
        VfStatistics s(scores + t * (nf + ns));
        s.uncovered = uncovered[t];
        IStoppingCriterion::Result r = c->test(s, start + t);
        stop[t] = r.stop;
        used[t] = r.numUsedRules;
    }
}

struct VfRun {
        uint32 rules, defaults, limit, used, switched, failed, sampledInstances, sampledOutputs;
        char dummy[64];
};

struct VfInduction final : public IRuleInduction {
        VfRun& r;
        VfInduction(VfRun& r) : r(r) {}
        void induceDefaultRule(IStatistics&, IModelBuilder&) const override { r.defaults += r.switched ? 100 : 1; }
        bool induceRule(IFeatureSpace&, const IIndexVector&, const IWeightVector&, IPartition&, IFeatureSampling&, IModelBuilder&) const override {
            if (r.sampledInstances != r.rules + 1 || r.sampledOutputs != r.rules + 1 || !r.switched || r.failed) r.failed = 99;
            if (r.rules == r.limit) {
                r.failed++;
                return false;
            }
            r.rules++;
            return true;
        }
};

struct VfInductionFactory final : public IRuleInductionFactory {
        VfRun& r;
        VfInductionFactory(VfRun& r) : r(r) {}
        std::unique_ptr<IRuleInduction> create() const override { return std::make_unique<VfInduction>(r); }
};

struct VfInstances final : public IInstanceSampling {
        VfRun& r;
        VfInstances(VfRun& r) : r(r) {}
        const IWeightVector& sample() override {
            r.sampledInstances++;
            return *reinterpret_cast<const IWeightVector*>(r.dummy);
        }
};

struct VfOutputs final : public IOutputSampling {
        VfRun& r;
        VfOutputs(VfRun& r) : r(r) {}
        const IIndexVector& sample() override {
            r.sampledOutputs++;
            return *reinterpret_cast<const IIndexVector*>(r.dummy);
        }
};

struct VfBuilder final : public IModelBuilder {
        VfRun& r;
        VfBuilder(VfRun& r) : r(r) {}
        void setDefaultRule(std::unique_ptr<IEvaluatedPrediction>&) override {}
        void addRule(std::unique_ptr<ConditionList>&, std::unique_ptr<IEvaluatedPrediction>&) override {}
        void setNumUsedRules(uint32 n) override { r.used = n; }
        std::unique_ptr<IRuleModel> buildModel() override { return nullptr; }
};

struct VfProvider final : public IStatisticsProvider {
        VfRun& r;
        VfStatistics& s;
        const float64* scores;
        uint32 n;
        VfProvider(VfRun& r, VfStatistics& s, const float64* scores, uint32 n) : r(r), s(s), scores(scores), n(n) {}
        IStatistics& get() const override {
            s.scores = scores + r.rules * n;
            return s;
        }
        void switchToRegularRuleEvaluation() override { r.switched++; }
        void switchToPruningRuleEvaluation() override { r.switched = 99; }
};

/* induces rules until a stopping criterion is met or no more rule can be found; scores are given for each number of rules */
extern "C" void h_assemble(uint32 kinds, const uint32* cfg, float64 improvement, uint32 nf, bool def, uint32 limit, uint32 nt, const float64* scores, uint32* out) {
    vf_dirty();
    VfRun r {0, 0, limit, 77, 0, 0, 0, 0};
    auto list = std::make_unique<StoppingCriterionListFactory>();
    for (uint32 k = 0; k < 3; k++) {
        if (kinds >> k & 1) list->addStoppingCriterionFactory(vf_factory(k, cfg + 8 * k, improvement));
    }
    SinglePartition p(nf);
    VfStatistics s(scores);
    VfInstances inst(r);
    VfOutputs outp(r);
    VfBuilder b(r);
    VfProvider prov(r, s, scores, nf);
    SequentialRuleModelAssemblageFactory f(std::make_unique<VfInductionFactory>(r), def);
    char dummy[64];
    f.create(std::move(list))->induceRules(p, outp, inst, *reinterpret_cast<IFeatureSampling*>(dummy), prov, *reinterpret_cast<IFeatureSpace*>(dummy), b);
    out[0] = r.rules;
    out[1] = r.used;
    out[2] = r.defaults;
    out[3] = r.failed;
    out[4] = r.switched;
}

/* the clock is replaced */
static int64_t vf_times[8];
static uint32 vf_now;

std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept {
    return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(vf_times[vf_now]));
}

extern "C" void h_time(uint32 limit, uint32 n, const int64_t* t, uint32* stop) {
    vf_now = 0;
    vf_times[0] = t[0];
    TimeStoppingCriterionConfig cfg;
    cfg.setTimeLimit(limit);
    SinglePartition p(1);
    std::unique_ptr<IStoppingCriterion> c = cfg.createStoppingCriterionFactory()->create(p);
    VfStatistics s(nullptr);
    for (uint32 i = 0; i < n; i++) {
        vf_times[0] = t[i];
        IStoppingCriterion::Result r = c->test(s, i);
        stop[i] = r.stop | r.numUsedRules << 1;
    }
}
#endif
