#include "vf.hpp"
#include "mlrl/common/indices/index_vector_complete.cpp"
#include "mlrl/common/indices/index_vector_partial.cpp"
#include "mlrl/common/iterator/iterator_index.cpp"
#include "mlrl/common/prediction/label_vector_set.cpp"
#include "mlrl/common/prediction/probability_calibration_isotonic.cpp"
#include "mlrl/common/prediction/probability_calibration_no.cpp"
#include "mlrl/common/data/view_matrix_sparse_set.hpp"
#include "mlrl/common/data/matrix_sparse_set.hpp"
#include "mlrl/common/sampling/partition_bi.cpp"
#include "mlrl/common/sampling/partition_single.cpp"
#include "mlrl/boosting/prediction/probability_function_logistic.cpp"
#include "mlrl/boosting/prediction/probability_function_chain_rule.cpp"
#include "mlrl/boosting/prediction/probability_calibration_isotonic.cpp"

#include "vf_labelvec.hpp"

using namespace boosting;

template<typename F>
static void vf_scores(uint32 nr, uint32 no, float64* s, const uint8* has, bool sparseScores, F f) {
    if (sparseScores) {
        SparseSetMatrix<float64> m(nr, no);
        /* stored in reverse order: the rows of a sparse set are not sorted */
        for (uint32 r = 0; r < nr; r++) {
            for (uint32 c = no; c > 0; c--) {
                if (has[r * no + c - 1]) m.getView()[r].emplace(c - 1, 0.0).value = s[r * no + c - 1];
            }
        }
        f(m.getView());
    } else {
        CContiguousView<float64> v(s, nr, no);
        f(v);
    }
}

static uint32 vf_bins(IsotonicProbabilityCalibrationModel& model, uint32 cap, uint32* cnt, float64* outThr, float64* outProb) {
    uint32 bad = 0;
    for (uint32 i = 0; i < model.getNumBinLists(); i++) cnt[i] = 0;
    model.visit([&](uint32 list, float64 t, float64 p) {
        if (cnt[list] < cap) {
            outThr[list * cap + cnt[list]] = t;
            outProb[list * cap + cnt[list]] = p;
            cnt[list]++;
        } else {
            bad = 1;
        }
    });
    return bad;
}

/* the bins of the marginal calibration model before it is fit */
extern "C" uint32 h_marginal_bins(uint32 nr, uint32 no, const uint8* y, float64* s, const uint8* has, bool sparseLabels, bool sparseScores, uint32 m,
                                  const uint32* ex, uint32* cnt, float64* outThr, float64* outProb) {
    std::unique_ptr<INoProbabilityCalibrationModel> no_ = createNoProbabilityCalibrationModel();
    std::unique_ptr<IMarginalProbabilityFunction> f = LogisticFunctionFactory().create(*no_);
    IsotonicProbabilityCalibrationModel model(no);
    VfCsrLabels csr(y, nr, no);
    BinaryCsrView sl(csr.idx.data(), csr.ptr.data(), nr, no);
    CContiguousView<const uint8> dl(y, nr, no);
    vf_scores(nr, no, s, has, sparseScores, [&](auto& v) {
        if (sparseLabels) {
            extractThresholdsAndProbabilities(ex, m, no, model, sl, v, *f);
        } else {
            extractThresholdsAndProbabilities(ex, m, no, model, dl, v, *f);
        }
    });
    return vf_bins(model, m + 1, cnt, outThr, outProb);
}

/* the bins of the joint calibration model before it is fit */
extern "C" uint32 h_joint_bins(uint32 nr, uint32 no, const uint8* y, float64* s, const uint8* has, bool sparseLabels, bool sparseScores, uint32 m,
                               const uint32* ex, uint32 nl, const uint8* lv, uint32* cnt, float64* outThr, float64* outProb) {
    std::unique_ptr<INoProbabilityCalibrationModel> no_ = createNoProbabilityCalibrationModel();
    std::unique_ptr<IJointProbabilityFunction> f = ChainRuleFactory(std::make_unique<LogisticFunctionFactory>()).create(*no_, *no_);
    std::unique_ptr<LabelVectorSet> set = vf_label_vectors(nl, no, lv, nullptr);
    IsotonicProbabilityCalibrationModel model(nl);
    VfCsrLabels csr(y, nr, no);
    BinaryCsrView sl(csr.idx.data(), csr.ptr.data(), nr, no);
    CContiguousView<const uint8> dl(y, nr, no);
    vf_scores(nr, no, s, has, sparseScores, [&](auto& v) {
        if (sparseLabels) {
            extractThresholdsAndProbabilities(ex, m, model, sl, v, *f, *set);
        } else {
            extractThresholdsAndProbabilities(ex, m, model, dl, v, *f, *set);
        }
    });
    return vf_bins(model, m, cnt, outThr, outProb);
}
