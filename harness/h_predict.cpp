#include "mlrl/common/prediction/probability_calibration_joint.hpp"
#include "vf_model.hpp"
#include "mlrl/common/prediction/prediction_matrix_dense.cpp"
#include "mlrl/boosting/prediction/predictor_score_output_wise.cpp"
#include "mlrl/boosting/data/matrix_c_contiguous_numeric.cpp"
#include "mlrl/common/indices/index_vector_complete.hpp"
#include "mlrl/common/iterator/iterator_index.cpp"

using namespace boosting;

/* predictions of all rules at once and, with the given step size, incrementally */
extern "C" uint32 h_predict_scores(MODEL_PARAMS, uint32 nr, const float32* X, bool sparse, float32 sv, uint32 maxRules,
                                   uint32 step, float64* out, float64* inc) {
    RuleList list(prec);
    vf_model(list, MODEL_ARGS);
    OutputWiseScorePredictorFactory f(MultiThreadingSettings(1));
    VfCsr csr(X, nr, nf, sv);
    CContiguousView<const float32> dense(X, nr, nf);
    CsrView<const float32> sp(csr.val.data(), csr.idx.data(), csr.ptr.data(), nr, nf, sv);
    std::unique_ptr<IScorePredictor> p = sparse ? f.create(sp, list, nullptr, no) : f.create(dense, list, nullptr, no);
    std::unique_ptr<DensePredictionMatrix<float64>> m = p->predict(maxRules);
    VF_COPY(out, m->get(), nr * no);
    std::unique_ptr<IIncrementalPredictor<DensePredictionMatrix<float64>>> ip = p->createIncrementalPredictor(maxRules);
    uint32 steps = 0;
    for (uint32 c = 0; c < nr * no; c++) inc[c] = 0;
    while (ip->hasNext()) {
        DensePredictionMatrix<float64>& im = ip->applyNext(step);
        VF_COPY(inc, im.get(), nr * no);
        steps++;
    }
    return steps;
}

extern "C" void h_apply_complete(uint32 n, const float64* vals, float64* scores) {
    CompleteHead head(n);
    VF_COPY(head.values_begin(), vals, n);
    applyHead(head, scores);
}

extern "C" void h_apply_partial(uint32 n, const uint32* ind, const float64* vals, uint32 no, float64* scores) {
    PartialHead head(n);
    VF_COPY(head.values_begin(), vals, n);
    VF_COPY(head.indices_begin(), ind, n);
    applyHead(head, scores);
}

#include "vf_rules.hpp"

extern "C" uint32 h_apply_rules_dense(RULE_PARAMS, uint32 nf, const float32* row, uint32 no, float64* scores) {
    RULES_INIT;
    applyRules(list.used_cbegin(maxRules), list.used_cend(maxRules), row, row + nf, scores);
    RULES_EXIT;
    return 0;
}

extern "C" uint32 h_apply_rules_sparse(RULE_PARAMS, uint32 nf, const uint32* idx, const float32* row, uint32 nd, float32 sv, uint32 no, float64* scores) {
    RULES_INIT;
    applyRules(list.used_cbegin(maxRules), list.used_cend(maxRules), nf, (uint32*) idx, (uint32*) idx + nd, (float32*) row, (float32*) row + nd, sv, scores);
    RULES_EXIT;
    return body.stale;
}

#define ROW_INIT                                                                                                       \
    NumericCContiguousMatrix<float64> mat(nr, nc);                                                                     \
    VF_COPY(mat.values_begin(0), m, nr * nc)
#define ROW_EXIT VF_COPY(m, mat.values_cbegin(0), nr * nc)

extern "C" void h_row_add_c(uint32 nr, uint32 nc, uint32 row, float64* m, const float64* vals) {
    ROW_INIT;
    mat.addToRowFromSubset(row, vals, vals + nc, IndexIterator(0), IndexIterator(nc));
    ROW_EXIT;
}

extern "C" void h_row_rem_c(uint32 nr, uint32 nc, uint32 row, float64* m, const float64* vals) {
    ROW_INIT;
    mat.removeFromRowFromSubset(row, vals, vals + nc, IndexIterator(0), IndexIterator(nc));
    ROW_EXIT;
}

extern "C" void h_row_add_p(uint32 nr, uint32 nc, uint32 row, float64* m, const float64* vals, const uint32* ind, uint32 np) {
    ROW_INIT;
    mat.addToRowFromSubset(row, vals, vals + np, ind, ind + np);
    ROW_EXIT;
}

extern "C" void h_row_rem_p(uint32 nr, uint32 nc, uint32 row, float64* m, const float64* vals, const uint32* ind, uint32 np) {
    ROW_INIT;
    mat.removeFromRowFromSubset(row, vals, vals + np, ind, ind + np);
    ROW_EXIT;
}
