#include "vf.hpp"
#include "mlrl/common/indices/index_vector_complete.cpp"
#include "mlrl/common/indices/index_vector_partial.cpp"
#include "mlrl/common/iterator/iterator_index.cpp"
#ifdef VF_NATIVE
    #include "mlrl/common/prediction/label_vector_set.cpp"
#endif
#include "mlrl/common/input/label_vector.hpp"
#include "mlrl/boosting/data/view_statistic_non_decomposable_dense.cpp"
#define updateGradientAndHessian updateGradientAndHessianL
#define updateDecomposableStatisticsInternally updateDecomposableL
#define updateNonDecomposableStatisticsInternally updateNonDecomposableL
#define evaluateInternally evaluateL
#include "mlrl/boosting/losses/loss_non_decomposable_logistic.cpp"
#undef updateGradientAndHessian
#undef updateDecomposableStatisticsInternally
#undef updateNonDecomposableStatisticsInternally
#undef evaluateInternally
#define updateDecomposableStatisticsInternally updateDecomposableE
#define updateNonDecomposableStatisticsInternally updateNonDecomposableE
#define evaluateInternally evaluateE
#include "mlrl/boosting/losses/loss_non_decomposable_squared_error.cpp"
#undef updateDecomposableStatisticsInternally
#undef updateNonDecomposableStatisticsInternally
#undef evaluateInternally
#include "mlrl/boosting/losses/loss_non_decomposable_squared_hinge.cpp"
#include "mlrl/boosting/prediction/probability_function_logistic.cpp"
#include "mlrl/boosting/prediction/probability_function_chain_rule.cpp"

using namespace boosting;

#define MAT uint32 nr, uint32 nc, uint32 row, float64 *scores
#define STATS Tuple<float64>* stats
#define DENSE const uint8* lab
#define CSR uint32 *lidx, uint32 *indptr, uint32 nl
#define LM_D CContiguousView<const uint8>(lab, nr, nc)
#define LM_S BinaryCsrView(lidx, indptr, nr, nc)
#define RM_D CContiguousView<const float32>(truth, nr, nc)
#define RM_S CsrView<const float32>(values, lidx, indptr, nr, nc)
#define SM CContiguousView<float64>(scores, nr, nc)
#define LOSS(f) auto loss = f().createNonDecomposableClassificationLoss()
#define RLOSS auto loss = NonDecomposableSquaredErrorLossFactory().createNonDecomposableRegressionLoss()
#define UPD(lm)                                                                                                        \
    CContiguousView<Tuple<float64>> sv(stats, nr, nc);                                                                 \
    if (part) {                                                                                                        \
        loss->updateDecomposableStatistics(row, lm, SM, ind, ind + np, sv);                                            \
    } else {                                                                                                           \
        CompleteIndexVector ix(nc);                                                                                    \
        loss->updateDecomposableStatistics(row, lm, SM, ix.cbegin(), ix.cend(), sv);                                   \
    }
#define NON(lm)                                                                                                        \
    DenseNonDecomposableStatisticView sv(nr, nc);                                                                      \
    for (uint32 r = 0; r < nr; r++) {                                                                                  \
        for (uint32 i = 0; i < nc; i++) sv.gradients_begin(r)[i] = grad[r * nc + i];                                   \
        for (uint32 i = 0; i < nc * (nc + 1) / 2; i++) sv.hessians_begin(r)[i] = 77;                                   \
    }                                                                                                                  \
    loss->updateNonDecomposableStatistics(row, lm, SM, sv);                                                            \
    for (uint32 r = 0; r < nr; r++) {                                                                                  \
        for (uint32 i = 0; i < nc; i++) grad[r * nc + i] = sv.gradients_begin(r)[i];                                   \
        for (uint32 i = 0; i < nc * (nc + 1) / 2; i++) hess[r * (nc * (nc + 1) / 2) + i] = sv.hessians_begin(r)[i];    \
    }                                                                                                                  \
    for (uint32 i = 0; i < nc; i++) diag[i] = sv.hessians_diagonal_cbegin(row)[i];

#define PART const uint32 *ind, uint32 np, bool part
#define OUT float64 *grad, float64 *hess, float64 *diag

#define CLS(nm, f)                                                                                                     \
    extern "C" void h_##nm##_dec_dense(MAT, STATS, DENSE, PART) {                                                      \
        LOSS(f);                                                                                                       \
        UPD(LM_D)                                                                                                      \
    }                                                                                                                  \
    extern "C" void h_##nm##_dec_sparse(MAT, STATS, CSR, PART) {                                                       \
        LOSS(f);                                                                                                       \
        UPD(LM_S)                                                                                                      \
    }                                                                                                                  \
    extern "C" void h_##nm##_non_dense(MAT, DENSE, OUT) {                                                              \
        LOSS(f);                                                                                                       \
        NON(LM_D)                                                                                                      \
    }                                                                                                                  \
    extern "C" void h_##nm##_non_sparse(MAT, CSR, OUT) {                                                               \
        LOSS(f);                                                                                                       \
        NON(LM_S)                                                                                                      \
    }                                                                                                                  \
    extern "C" float64 h_##nm##_eval_dense(MAT, DENSE) {                                                               \
        LOSS(f);                                                                                                       \
        return loss->evaluate(row, LM_D, SM);                                                                          \
    }                                                                                                                  \
    extern "C" float64 h_##nm##_eval_sparse(MAT, CSR) {                                                                \
        LOSS(f);                                                                                                       \
        return loss->evaluate(row, LM_S, SM);                                                                          \
    }                                                                                                                  \
    extern "C" float64 h_##nm##_dist(uint32 nc, const float64* scores, const uint32* lidx, uint32 nl) {                \
        LOSS(f);                                                                                                       \
        LabelVector v(nl);                                                                                             \
        VF_COPY(v.begin(), lidx, nl);                                                                                  \
        return loss->measureDistance(0, v, scores, scores + nc);                                                       \
    }

CLS(log, NonDecomposableLogisticLossFactory)
CLS(se, NonDecomposableSquaredErrorLossFactory)
CLS(sh, NonDecomposableSquaredHingeLossFactory)

extern "C" void h_reg_dec_dense(MAT, STATS, const float32* truth, PART) {
    RLOSS;
    UPD(RM_D)
}

extern "C" void h_reg_dec_sparse(MAT, STATS, const float32* values, CSR, PART) {
    RLOSS;
    UPD(RM_S)
}

extern "C" void h_reg_non_dense(MAT, const float32* truth, OUT) {
    RLOSS;
    NON(RM_D)
}

extern "C" void h_reg_non_sparse(MAT, const float32* values, CSR, OUT) {
    RLOSS;
    NON(RM_S)
}

extern "C" float64 h_reg_eval_dense(MAT, const float32* truth) {
    RLOSS;
    return loss->evaluate(row, RM_D, SM);
}

extern "C" float64 h_reg_eval_sparse(MAT, const float32* values, CSR) {
    RLOSS;
    return loss->evaluate(row, RM_S, SM);
}
