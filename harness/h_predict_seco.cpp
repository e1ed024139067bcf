#include "mlrl/common/prediction/probability_calibration_joint.hpp"
#include "vf_model.hpp"
#include "mlrl/common/prediction/prediction_matrix_dense.cpp"
#include "mlrl/common/prediction/prediction_matrix_sparse_binary.cpp"
#include "mlrl/common/data/vector_bit.cpp"
#include "mlrl/common/iterator/iterator_index.cpp"
#include "mlrl/seco/prediction/predictor_binary_output_wise.cpp"

using namespace seco;

extern "C" uint32 h_predict_list(MODEL_PARAMS, uint32 nr, const float32* X, bool sparse, float32 sv, uint32 maxRules,
                                 bool sparseLabels, uint8* out) {
    RuleList list(prec);
    vf_model(list, MODEL_ARGS);
    VfNoCalibration cal;
    VfCsr csr(X, nr, nf, sv);
    CContiguousView<const float32> dense(X, nr, nf);
    CsrView<const float32> sp(csr.val.data(), csr.idx.data(), csr.ptr.data(), nr, nf, sv);
    if (sparseLabels) {
        OutputWiseSparseBinaryPredictorFactory f(MultiThreadingSettings(1));
        std::unique_ptr<ISparseBinaryPredictor> p = sparse ? f.create(sp, list, nullptr, cal, cal, no) : f.create(dense, list, nullptr, cal, cal, no);
        std::unique_ptr<BinarySparsePredictionMatrix> m = p->predict(maxRules);
        for (uint32 i = 0; i < nr * no; i++) out[i] = 0;
        uint32* ptr = m->getIndptr();
        uint32* idx = m->getIndices();
        uint32 bad = ptr[0] != 0;
        for (uint32 r = 0; r < nr; r++) {
            for (uint32 i = ptr[r]; i < ptr[r + 1]; i++) {
                if (idx[i] >= no || (i > ptr[r] && idx[i - 1] >= idx[i])) {
                    bad = 1;
                } else {
                    out[r * no + idx[i]] = 1;
                }
            }
        }
        return bad;
    }
    OutputWiseBinaryPredictorFactory f(MultiThreadingSettings(1));
    std::unique_ptr<IBinaryPredictor> p = sparse ? f.create(sp, list, nullptr, cal, cal, no) : f.create(dense, list, nullptr, cal, cal, no);
    std::unique_ptr<DensePredictionMatrix<uint8>> m = p->predict(maxRules);
    VF_COPY(out, m->get(), nr * no);
    return 0;
}

#include "vf_rules.hpp"

extern "C" void vf_bits(BitVector& bits);
#ifdef VF_NATIVE
extern "C" void vf_bits(BitVector&) {}
#endif

#define MASK_INIT                                                                                                      \
    BitVector bits(no, true);                                                                                          \
    vf_bits(bits);                                                                                                     \
    for (uint32 i = 0; i < no; i++) {                                                                                  \
        bits.set(i, mask[i] != 0);                                                                                     \
    }
#define MASK_EXIT                                                                                                      \
    for (uint32 i = 0; i < no; i++) {                                                                                  \
        mask[i] = bits[i];                                                                                             \
    }

extern "C" void h_list_complete(uint32 no, const float64* vals, uint8* out, uint8* mask) {
    CompleteHead head(no);
    VF_COPY(head.values_begin(), vals, no);
    MASK_INIT;
    applyHead(head, out, bits);
    MASK_EXIT;
}

extern "C" void h_list_partial(uint32 n, const uint32* ind, const float64* vals, uint32 no, uint8* out, uint8* mask) {
    PartialHead head(n);
    VF_COPY(head.values_begin(), vals, n);
    VF_COPY(head.indices_begin(), ind, n);
    MASK_INIT;
    applyHead(head, out, bits);
    MASK_EXIT;
}

#define PRED_PARAMS uint32 nr, uint32 no, uint8 *scores, uint32 pi, uint32 ei

extern "C" uint32 h_list_dense(RULE_PARAMS, PRED_PARAMS, uint32 nf, const float32* X) {
    CContiguousView<const float32> features(X, nr, nf);
    CContiguousView<uint8> predictions(scores, nr, no);
    RULES_INIT;
    predictForExampleInternally(features, list.used_cbegin(maxRules), list.used_cend(maxRules), predictions, ei, pi);
    RULES_EXIT;
    return 0;
}

extern "C" uint32 h_list_sparse(RULE_PARAMS, PRED_PARAMS, uint32 nf, const float32* val, const uint32* idx, const uint32* ptr, uint32 nv, float32 sv) {
    CsrView<const float32> features(val, (uint32*) idx, (uint32*) ptr, nr, nf, sv);
    CContiguousView<uint8> predictions(scores, nr, no);
    RULES_INIT;
    predictForExampleInternally(features, list.used_cbegin(maxRules), list.used_cend(maxRules), predictions, ei, pi);
    RULES_EXIT;
    return body.stale;
}

extern "C" uint32 h_list_dense_s(RULE_PARAMS, uint32 nr, uint32 no, uint32 ei, uint32 nf, const float32* X) {
    CContiguousView<const float32> features(X, nr, nf);
    std::vector<uint32> row;
    RULES_INIT;
    predictForExampleInternally(features, list.used_cbegin(maxRules), list.used_cend(maxRules), row, no, ei);
    RULES_EXIT;
    return 0;
}

extern "C" uint32 h_list_sparse_s(RULE_PARAMS, uint32 nr, uint32 no, uint32 ei, uint32 nf, const float32* val, const uint32* idx, const uint32* ptr, uint32 nv, float32 sv) {
    CsrView<const float32> features(val, (uint32*) idx, (uint32*) ptr, nr, nf, sv);
    std::vector<uint32> row;
    RULES_INIT;
    predictForExampleInternally(features, list.used_cbegin(maxRules), list.used_cend(maxRules), row, no, ei);
    RULES_EXIT;
    return body.stale;
}
