#include "vf.hpp"
#include "mlrl/common/indices/index_vector_complete.cpp"
#include "mlrl/common/indices/index_vector_partial.cpp"
#include "mlrl/common/iterator/iterator_index.cpp"
#ifdef VF_NATIVE
    #include "mlrl/common/prediction/label_vector_set.cpp"
#endif
#include "mlrl/common/input/label_vector.hpp"
#include "mlrl/boosting/losses/loss_decomposable_common.hpp"
#define updateGradientAndHessian updateGradientAndHessian1
#define evaluatePrediction evaluatePrediction1
#include "mlrl/boosting/losses/loss_decomposable_logistic.cpp"
#undef updateGradientAndHessian
#undef evaluatePrediction
#include "mlrl/boosting/losses/loss_decomposable_squared_error.cpp"
#define updateGradientAndHessian updateGradientAndHessian3
#define evaluatePrediction evaluatePrediction3
#include "mlrl/boosting/losses/loss_decomposable_squared_hinge.cpp"
#undef updateGradientAndHessian
#undef evaluatePrediction
#include "mlrl/boosting/prediction/probability_function_logistic.cpp"
#include "mlrl/boosting/prediction/probability_function_chain_rule.cpp"

using namespace boosting;

/* Stand-ins for the loss of a single output: the contracts treat them as unknown functions */
extern "C" __attribute__((noinline)) void vf_update(bool l, float64 s, float64& g, float64& h) {
    g = 3 * s + (l ? 1 : -2);
    h = s * s + (l ? 5 : 7);
}

extern "C" __attribute__((noinline)) float64 vf_eval(bool l, float64 s) {
    return s * 4 + (l ? 16 : -8);
}

extern "C" __attribute__((noinline)) void vf_update_r(float32 t, float64 s, float64& g, float64& h) {
    g = 3 * s + 2 * (float64) t;
    h = s * s + (float64) t;
}

extern "C" __attribute__((noinline)) float64 vf_eval_r(float32 t, float64 s) {
    return s * 4 + (float64) t;
}

/* loss of a single output, as provided by the factories of the library */
#define ONE                                                                                                            \
    uint8 l = label;                                                                                                   \
    CContiguousView<const uint8> lm(&l, 1, 1);                                                                         \
    CContiguousView<float64> sm(&score, 1, 1);                                                                         \
    Tuple<float64> t(0, 0);                                                                                            \
    CContiguousView<Tuple<float64>> st(&t, 1, 1);                                                                      \
    CompleteIndexVector ix(1)

#define ONE_LOSS(name, factory, create)                                                                                \
    extern "C" float64 h_##name(bool label, float64 score, float64* out) {                                             \
        ONE;                                                                                                           \
        auto lossPtr = factory().create();                                                                             \
        const IDecomposableClassificationLoss* loss = lossPtr.get();                                                   \
        loss->updateDecomposableStatistics(0, lm, sm, ix.cbegin(), ix.cend(), st);                                     \
        out[0] = t.first;                                                                                              \
        out[1] = t.second;                                                                                             \
        return loss->evaluate(0, lm, sm);                                                                              \
    }

ONE_LOSS(logistic, DecomposableLogisticLossFactory, createDecomposableClassificationLoss)
ONE_LOSS(squared_error, DecomposableSquaredErrorLossFactory, createDecomposableClassificationLoss)
ONE_LOSS(squared_hinge, DecomposableSquaredHingeLossFactory, createSparseDecomposableClassificationLoss)

extern "C" float64 h_squared_error_r(float32 truth, float64 score, float64* out) {
    CContiguousView<const float32> lm(&truth, 1, 1);
    CContiguousView<float64> sm(&score, 1, 1);
    Tuple<float64> t(0, 0);
    CContiguousView<Tuple<float64>> st(&t, 1, 1);
    CompleteIndexVector ix(1);
    auto loss = DecomposableSquaredErrorLossFactory().createDecomposableRegressionLoss();
    loss->updateDecomposableStatistics(0, lm, sm, ix.cbegin(), ix.cend(), st);
    out[0] = t.first;
    out[1] = t.second;
    return loss->evaluate(0, lm, sm);
}

/* all outputs of an example */
#define MAT uint32 nr, uint32 nc, uint32 row, float64 *scores
#define STATS Tuple<float64>* stats
#define DENSE const uint8* lab
#define CSR uint32 *lidx, uint32 *indptr, uint32 nl
#define PART const uint32 *ind, uint32 np
#define UPD(lm, b, e)                                                                                                  \
    CContiguousView<Tuple<float64>> sv(stats, nr, nc);                                                                 \
    loss.updateDecomposableStatistics(row, lm, CContiguousView<float64>(scores, nr, nc), b, e, sv)
#define CLS DecomposableClassificationLoss loss(&vf_update, &vf_eval)
#define REG DecomposableRegressionLoss loss(&vf_update_r, &vf_eval_r)
#define CIX CompleteIndexVector ix(nc)
#define LM_D CContiguousView<const uint8>(lab, nr, nc)
#define LM_S BinaryCsrView(lidx, indptr, nr, nc)
#define RM_D CContiguousView<const float32>(truth, nr, nc)
#define RM_S CsrView<const float32>(values, lidx, indptr, nr, nc)

extern "C" void h_cls_dense_complete(MAT, STATS, DENSE) {
    CLS;
    CIX;
    UPD(LM_D, ix.cbegin(), ix.cend());
}

extern "C" void h_cls_dense_partial(MAT, STATS, DENSE, PART) {
    CLS;
    UPD(LM_D, ind, ind + np);
}

extern "C" void h_cls_sparse_complete(MAT, STATS, CSR) {
    CLS;
    CIX;
    UPD(LM_S, ix.cbegin(), ix.cend());
}

extern "C" void h_cls_sparse_partial(MAT, STATS, CSR, PART) {
    CLS;
    UPD(LM_S, ind, ind + np);
}

extern "C" void h_reg_dense_complete(MAT, STATS, const float32* truth) {
    REG;
    CIX;
    UPD(RM_D, ix.cbegin(), ix.cend());
}

extern "C" void h_reg_dense_partial(MAT, STATS, const float32* truth, PART) {
    REG;
    UPD(RM_D, ind, ind + np);
}

extern "C" void h_reg_sparse_complete(MAT, STATS, const float32* values, CSR) {
    REG;
    CIX;
    UPD(RM_S, ix.cbegin(), ix.cend());
}

extern "C" void h_reg_sparse_partial(MAT, STATS, const float32* values, CSR, PART) {
    REG;
    UPD(RM_S, ind, ind + np);
}

extern "C" float64 h_cls_dense_eval(MAT, DENSE) {
    CLS;
    return loss.evaluate(row, LM_D, CContiguousView<float64>(scores, nr, nc));
}

extern "C" float64 h_cls_sparse_eval(MAT, CSR) {
    CLS;
    return loss.evaluate(row, LM_S, CContiguousView<float64>(scores, nr, nc));
}

extern "C" float64 h_reg_dense_eval(MAT, const float32* truth) {
    REG;
    return loss.evaluate(row, RM_D, CContiguousView<float64>(scores, nr, nc));
}

extern "C" float64 h_reg_sparse_eval(MAT, const float32* values, CSR) {
    REG;
    return loss.evaluate(row, RM_S, CContiguousView<float64>(scores, nr, nc));
}

extern "C" float64 h_distance(uint32 nc, const float64* scores, const uint32* maj, uint32 nm) {
    CLS;
    LabelVector v(nm);
    VF_COPY(v.begin(), maj, nm);
    return loss.measureDistance(0, v, scores, scores + nc);
}

#ifdef VF_NATIVE
/* sparse statistics: scores and previous statistics are inserted in the given order of the outputs */
static inline void vf_fill(SparseSetView<float64>& m, uint32 row, const float64* scores, const uint32* order, uint32 nc) {
    for (uint32 i = 0; i < nc; i++) {
        uint32 j = order[i];
        if (scores[j] != 0) {
            m[row].emplace(j).value = scores[j];
        }
    }
}

extern "C" float64 h_sparse_set(uint32 nr, uint32 nc, uint32 row, const float64* scores, Tuple<float64>* stats, const uint8* lab, const uint32* order, const uint32* ind, uint32 np, bool part, bool csr) {
    auto loss = DecomposableSquaredHingeLossFactory().createSparseDecomposableClassificationLoss();
    SparseSetView<float64> sm(nr, nc);
    vf_fill(sm, row, scores, order, nc);
    SparseSetView<Tuple<float64>> st(nr, nc);
    for (uint32 i = 0; i < nc; i++) {
        uint32 j = order[i];
        if (stats[row * nc + j].first != 0) {
            st[row].emplace(j).value = stats[row * nc + j];
        }
    }
    std::vector<uint32> lidx, indptr(nr + 1);
    for (uint32 r = 0; r < nr; r++) {
        indptr[r] = lidx.size();
        for (uint32 i = 0; i < nc; i++) {
            if (lab[r * nc + i]) {
                lidx.push_back(i);
            }
        }
    }
    indptr[nr] = lidx.size();
    lidx.push_back(0);
    CContiguousView<const uint8> dense(lab, nr, nc);
    BinaryCsrView sparse(lidx.data(), indptr.data(), nr, nc);
    CompleteIndexVector ix(nc);
    float64 res;
    if (csr) {
        part ? loss->updateDecomposableStatistics(row, sparse, sm, ind, ind + np, st) : loss->updateDecomposableStatistics(row, sparse, sm, ix.cbegin(), ix.cend(), st);
        res = static_cast<const ISparseEvaluationMeasure&>(*loss).evaluate(row, sparse, sm);
    } else {
        part ? loss->updateDecomposableStatistics(row, dense, sm, ind, ind + np, st) : loss->updateDecomposableStatistics(row, dense, sm, ix.cbegin(), ix.cend(), st);
        res = static_cast<const ISparseEvaluationMeasure&>(*loss).evaluate(row, dense, sm);
    }
    for (uint32 r = 0; r < nr; r++) {
        for (uint32 i = 0; i < nc; i++) {
            const IndexedValue<Tuple<float64>>* e = st[r][i];
            stats[r * nc + i] = e ? e->value : Tuple<float64>(0, 0);
        }
    }
    return res;
}
#endif
