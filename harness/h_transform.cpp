#include "mlrl/common/prediction/probability_calibration_joint.hpp"
#include "vf_model.hpp"
#include "mlrl/common/indices/index_vector_complete.cpp"
#include "mlrl/common/indices/index_vector_partial.cpp"
#include "mlrl/common/iterator/iterator_index.cpp"
#include "mlrl/common/prediction/label_vector_set.cpp"
#include "mlrl/common/prediction/probability_calibration_no.cpp"
#include "mlrl/common/prediction/prediction_matrix_dense.cpp"
#include "mlrl/common/prediction/prediction_matrix_sparse_binary.cpp"
#include "mlrl/boosting/data/matrix_c_contiguous_numeric.cpp"
#include "mlrl/boosting/prediction/discretization_function_score.cpp"
#include "mlrl/boosting/prediction/discretization_function_probability.cpp"
#include "mlrl/boosting/prediction/probability_function_logistic.cpp"
#include "mlrl/boosting/prediction/probability_function_chain_rule.cpp"
#include "mlrl/boosting/prediction/transformation_binary_output_wise.cpp"
#include "mlrl/boosting/prediction/transformation_binary_example_wise.cpp"
#include "mlrl/boosting/prediction/transformation_binary_gfm.cpp"
#include "mlrl/boosting/prediction/transformation_probability_output_wise.cpp"
#include "mlrl/boosting/prediction/transformation_probability_marginalized.cpp"
#ifdef VF_NATIVE
    #include "mlrl/boosting/prediction/predictor_binary_output_wise.cpp"
    #define createBinaryTransformation createBinaryTransformationE
    #define createPredictor createPredictorE
    #define createSparsePredictor createSparsePredictorE
    #include "mlrl/boosting/prediction/predictor_binary_example_wise.cpp"
    #undef createBinaryTransformation
    #undef createPredictor
    #undef createSparsePredictor
    #define createPredictor createPredictorG
    #include "mlrl/boosting/prediction/predictor_binary_gfm.cpp"
    #undef createPredictor
    #include "mlrl/boosting/prediction/predictor_probability_output_wise.cpp"
    #include "mlrl/boosting/prediction/predictor_probability_marginalized.cpp"
#endif
#include "vf_labelvec.hpp"

using namespace boosting;

/* a calibration model that is recognisable */
struct VfCalibration final : public IMarginalProbabilityCalibrationModel, public IJointProbabilityCalibrationModel {
        float64 calibrateMarginalProbability(uint32 i, float64 p) const override {
            return i % 2 ? p * p : p;
        }

        float64 calibrateJointProbability(uint32 i, float64 p) const override {
            return i % 2 ? p * (2 - p) : p;
        }
};

extern "C" void h_discretize(uint32 n, const float64* scores, float64 threshold, uint8* out) {
    std::unique_ptr<INoProbabilityCalibrationModel> cal = createNoProbabilityCalibrationModel();
    OutputWiseBinaryTransformation t(ScoreDiscretizationFunctionFactory(threshold).create(*cal));
    t.apply(scores, scores + n, out, out + n);
}

extern "C" void h_probabilities(uint32 n, const float64* scores, float64* out) {
    std::unique_ptr<INoProbabilityCalibrationModel> cal = createNoProbabilityCalibrationModel();
    OutputWiseProbabilityTransformation t(LogisticFunctionFactory().create(*cal));
    t.apply(scores, scores + n, out, out + n);
}

#ifdef VF_NATIVE
/* number of labels that disagree with the sign of the scores */
struct VfDistance final : public IDistanceMeasure {
        float64 measureDistance(uint32 i, const LabelVector& v, View<float64>::const_iterator b, View<float64>::const_iterator e) const override {
            uint32 n = e - b, j = 0, d = 0;
            for (uint32 c = 0; c < n; c++) {
                bool rel = j < v.getNumElements() && v.cbegin()[j] == c;
                j += rel;
                d += rel != (b[c] > 0);
            }
            return d;
        }
};

struct VfDistanceFactory final : public IDistanceMeasureFactory {
        std::unique_ptr<IDistanceMeasure> createDistanceMeasure(const IMarginalProbabilityCalibrationModel&, const IJointProbabilityCalibrationModel&) const override {
            return std::make_unique<VfDistance>();
        }
};

static std::unique_ptr<ChainRuleFactory> vf_chain() {
    return std::make_unique<ChainRuleFactory>(std::make_unique<LogisticFunctionFactory>());
}

static uint32 vf_labels(BinarySparsePredictionMatrix& m, uint32 nr, uint32 no, uint8* out) {
    for (uint32 i = 0; i < nr * no; i++) out[i] = 0;
    uint32* ptr = m.getIndptr();
    uint32* idx = m.getIndices();
    uint32 bad = ptr[0] != 0;
    for (uint32 r = 0; r < nr; r++) {
        for (uint32 i = ptr[r]; i < ptr[r + 1]; i++) {
            if (idx[i] >= no || (i > ptr[r] && idx[i - 1] >= idx[i])) {
                bad = 1;
            } else {
                out[r * no + idx[i]] = 1;
            }
        }
    }
    return bad;
}

#define PREDICT_PARAMS                                                                                                 \
    MODEL_PARAMS, uint32 nr, const float32 *X, bool sparse, float32 sv, uint32 maxRules, uint32 step, uint32 nl,       \
      const uint8 *lv, const uint32 *freq, bool useCal
#define PREDICT_INIT                                                                                                   \
    RuleList list(prec);                                                                                               \
    vf_model(list, MODEL_ARGS);                                                                                        \
    std::unique_ptr<INoProbabilityCalibrationModel> cal = createNoProbabilityCalibrationModel();                       \
    VfCalibration own;                                                                                                 \
    const IMarginalProbabilityCalibrationModel* mc = useCal ? &own : nullptr;                                          \
    const IJointProbabilityCalibrationModel* jc = useCal ? &own : nullptr;                                             \
    std::unique_ptr<LabelVectorSet> set = vf_label_vectors(nl, no, lv, freq);                                          \
    VfCsr csr(X, nr, nf, sv);                                                                                          \
    CContiguousView<const float32> dense(X, nr, nf);                                                                   \
    CsrView<const float32> sp(csr.val.data(), csr.idx.data(), csr.ptr.data(), nr, nf, sv);                             \
    MultiThreadingSettings mt(1);

template<typename F, typename R>
static uint32 vf_run(const F& f, const CContiguousView<const float32>& dense, const CsrView<const float32>& sp, bool sparse, const RuleList& list,
                     const LabelVectorSet& set, const IMarginalProbabilityCalibrationModel& mc, const IJointProbabilityCalibrationModel& jc, uint32 no, uint32 maxRules, uint32 step, R read) {
    auto p = sparse ? f.create(sp, list, &set, mc, jc, no) : f.create(dense, list, &set, mc, jc, no);
    if (step == 0) return read(*p->predict(maxRules));
    auto ip = p->createIncrementalPredictor(maxRules);
    uint32 bad = 0;
    if (!ip->hasNext()) return read(*p->predict(maxRules));
    while (ip->hasNext()) bad |= read(ip->applyNext(step));
    return bad;
}

extern "C" uint32 h_predict_binary(PREDICT_PARAMS, uint32 how, bool sparseLabels, float64 threshold, uint8* out) {
    PREDICT_INIT;
    auto rd = [&](DensePredictionMatrix<uint8>& m) { VF_COPY(out, m.get(), nr * no); return (uint32) 0; };
    auto rs = [&](BinarySparsePredictionMatrix& m) { return vf_labels(m, nr, no, out); };
    auto go = [&](const auto& f, auto r) { return vf_run(f, dense, sp, sparse, list, *set, *cal, *cal, no, maxRules, step, r); };
    if (how < 2) {
        std::unique_ptr<IDiscretizationFunctionFactory> d;
        if (how == 0) d = std::make_unique<ScoreDiscretizationFunctionFactory>(threshold);
        else d = std::make_unique<ProbabilityDiscretizationFunctionFactory>(std::make_unique<LogisticFunctionFactory>());
        return sparseLabels ? go(OutputWiseSparseBinaryPredictorFactory(std::move(d), mc, mt), rs) : go(OutputWiseBinaryPredictorFactory(std::move(d), mc, mt), rd);
    }
    if (how < 4) {
        std::unique_ptr<IDistanceMeasureFactory> d;
        if (how == 2) d = std::make_unique<VfDistanceFactory>();
        else d = vf_chain();
        return sparseLabels ? go(ExampleWiseSparseBinaryPredictorFactory(std::move(d), mc, jc, mt), rs) : go(ExampleWiseBinaryPredictorFactory(std::move(d), mc, jc, mt), rd);
    }
    return sparseLabels ? go(GfmSparseBinaryPredictorFactory(vf_chain(), mc, jc, mt), rs) : go(GfmBinaryPredictorFactory(vf_chain(), mc, jc, mt), rd);
}

extern "C" uint32 h_predict_prob(PREDICT_PARAMS, uint32 how, float64* out) {
    PREDICT_INIT;
    auto rd = [&](DensePredictionMatrix<float64>& m) { VF_COPY(out, m.get(), nr * no); return (uint32) 0; };
    auto go = [&](const auto& f) { return vf_run(f, dense, sp, sparse, list, *set, *cal, *cal, no, maxRules, step, rd); };
    return how == 0 ? go(OutputWiseProbabilityPredictorFactory(std::make_unique<LogisticFunctionFactory>(), mc, mt)) : go(MarginalizedProbabilityPredictorFactory(vf_chain(), mc, jc, mt));
}
#endif
