#include "vf.hpp"
#include "mlrl/common/indices/index_vector_complete.cpp"
#include "mlrl/common/indices/index_vector_partial.cpp"
#include "mlrl/common/iterator/iterator_index.cpp"
#include "mlrl/boosting/data/vector_statistic_decomposable_dense.cpp"
#include "mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_complete.cpp"
#include "mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_single.cpp"
#include "mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_partial_fixed.cpp"
#include "mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_partial_dynamic.cpp"
#include "mlrl/common/rule_evaluation/score_vector_dense.cpp"
#ifdef VF_NATIVE
#include "mlrl/boosting/data/vector_statistic_decomposable_sparse.cpp"
#include "mlrl/boosting/data/vector_statistic_non_decomposable_dense.cpp"
#include "mlrl/boosting/data/view_statistic_non_decomposable_dense.cpp"
#include "mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_complete.cpp"
#include "mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_partial_fixed.cpp"
#include "mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_partial_dynamic.cpp"
#include "mlrl/boosting/util/lapack.cpp"
#include "mlrl/boosting/util/blas.cpp"
#include <cmath>
#include <vector>
#endif

using namespace boosting;
typedef Tuple<float64> T2;

extern "C" float64 h_score(float64 g, float64 h, float64 l1, float64 l2, float64 t, float64* q) {
    float64 s = calculateOutputWiseScore(g, h, l1, l2);
    q[0] = calculateOutputWiseQuality(s, g, h, l1, l2);
    return s;
}

extern "C" bool h_larger(float64 a, float64 b) {
    IndexedValue<float64> x, y;
    x.value = a;
    y.value = b;
    return CompareOutputWiseCriteria()(x, y);
}

extern "C" float64 h_quality(float64 s, float64 g, float64 h, float64 l1, float64 l2) {
    return calculateOutputWiseQuality(s, g, h, l1, l2);
}

#define STAT const T2 *s, uint32 n, float64 l1, float64 l2
#define PART const uint32 *ind
#define VEC                                                                                                            \
    DenseDecomposableStatisticVector vec(n);                                                                           \
    VF_COPY(vec.begin(), s, n)
#define PIX                                                                                                            \
    PartialIndexVector ix(n);                                                                                          \
    VF_COPY(ix.begin(), ind, n)
#define CIX CompleteIndexVector ix(n)
#define DONE(m)                                                                                                        \
    ev.calculateScores(vec);                                                                                           \
    VF_COPY(out, ev.scoreVector_.values_cbegin(), m);                                                                  \
    q[0] = ev.scoreVector_.quality;

extern "C" void h_complete(STAT, float64* out, float64* q) {
    VEC;
    CIX;
    DecomposableCompleteRuleEvaluation<DenseDecomposableStatisticVector, CompleteIndexVector> ev(ix, l1, l2);
    DONE(n)
}

extern "C" void h_complete_p(STAT, PART, float64* out, float64* q) {
    VEC;
    PIX;
    DecomposableCompleteRuleEvaluation<DenseDecomposableStatisticVector, PartialIndexVector> ev(ix, l1, l2);
    DONE(n)
}

extern "C" void h_single(STAT, float64* out, uint32* oi, float64* q) {
    VEC;
    CIX;
    DecomposableSingleOutputRuleEvaluation<DenseDecomposableStatisticVector, CompleteIndexVector> ev(ix, l1, l2);
    DONE(1)
    VF_COPY(oi, ev.scoreVector_.indices_cbegin(), 1);
}

extern "C" void h_single_p(STAT, PART, float64* out, uint32* oi, float64* q) {
    VEC;
    PIX;
    DecomposableSingleOutputRuleEvaluation<DenseDecomposableStatisticVector, PartialIndexVector> ev(ix, l1, l2);
    DONE(1)
    VF_COPY(oi, ev.scoreVector_.indices_cbegin(), 1);
}

extern "C" void h_fixed(STAT, uint32 np, float64* out, uint32* oi, float64* q) {
    VEC;
    CIX;
    DecomposableFixedPartialRuleEvaluation<DenseDecomposableStatisticVector, CompleteIndexVector> ev(ix, np, l1, l2);
    DONE(np)
    VF_COPY(oi, ev.scoreVector_.indices_cbegin(), np);
}

extern "C" uint32 h_dynamic(STAT, float32 threshold, float32 exponent, float64* out, uint32* oi, float64* q) {
    VEC;
    CIX;
    DecomposableDynamicPartialRuleEvaluation<DenseDecomposableStatisticVector, CompleteIndexVector> ev(ix, threshold, exponent, l1, l2);
    DONE(n)
    VF_COPY(oi, ev.scoreVector_.indices_cbegin(), n);
    return ev.scoreVector_.getNumElements();
}

#ifdef VF_NATIVE
#include "mlrl/common/rule_refinement/score_processor.hpp"
void ScoreProcessor::processScores(const DenseScoreVector<CompleteIndexVector>&) {}
void ScoreProcessor::processScores(const DenseScoreVector<PartialIndexVector>&) {}

/* LAPACK and BLAS functions (provided by SciPy in production) */
static void vf_dsysv(char* uplo, int* n, int* nrhs, double* a, int* lda, int* ipiv, double* b, int* ldb, double* work, int* lwork, int* info) {
    *info = 0;
    if (*lwork == -1) {
        *work = *n;
        return;
    }
    int m = *n;
    std::vector<double> M(m * m);
    for (int r = 0; r < m; r++) {
        for (int c = 0; c < m; c++) {
            M[r * m + c] = r <= c ? a[c * *lda + r] : a[r * *lda + c];
        }
    }
    for (int i = 0; i < m; i++) {
        int p = i;
        for (int r = i; r < m; r++) {
            if (std::abs(M[r * m + i]) > std::abs(M[p * m + i])) p = r;
        }
        if (M[p * m + i] == 0) {
            *info = i + 1;
            return;
        }
        for (int c = 0; c < m; c++) std::swap(M[i * m + c], M[p * m + c]);
        std::swap(b[i], b[p]);
        for (int r = i + 1; r < m; r++) {
            double f = M[r * m + i] / M[i * m + i];
            for (int c = i; c < m; c++) M[r * m + c] -= f * M[i * m + c];
            b[r] -= f * b[i];
        }
    }
    for (int i = m - 1; i >= 0; i--) {
        for (int c = i + 1; c < m; c++) b[i] -= M[i * m + c] * b[c];
        b[i] /= M[i * m + i];
        work[i] = 0;
        ipiv[i] = 0;
    }
}

static double vf_ddot(int* n, double* x, int* incx, double* y, int* incy) {
    double r = 0;
    for (int i = 0; i < *n; i++) r += x[i * *incx] * y[i * *incy];
    return r;
}

static void vf_dspmv(char* uplo, int* n, double* alpha, double* ap, double* x, int* incx, double* beta, double* y, int* incy) {
    for (int r = 0; r < *n; r++) {
        double v = 0;
        for (int c = 0; c < *n; c++) {
            int i = r < c ? r : c, j = r < c ? c : r;
            v += ap[j * (j + 1) / 2 + i] * x[c * *incx];
        }
        y[r * *incy] = *alpha * v + (*beta != 0 ? *beta * y[r * *incy] : 0);
    }
}

template<typename IV>
static uint32 read(const IScoreVector& sv, float64* out, uint32* oi, float64* q) {
    const auto& v = dynamic_cast<const DenseScoreVector<IV>&>(sv);
    for (uint32 i = 0; i < v.getNumElements(); i++) {
        out[i] = v.values_cbegin()[i];
        oi[i] = v.indices_cbegin()[i];
    }
    q[0] = v.quality;
    return v.getNumElements();
}

static uint32 read_any(const IScoreVector& sv, float64* out, uint32* oi, float64* q) {
    if (dynamic_cast<const DenseScoreVector<PartialIndexVector>*>(&sv)) return read<PartialIndexVector>(sv, out, oi, q);
    return read<CompleteIndexVector>(sv, out, oi, q);
}

template<typename F, typename V, typename I>
static uint32 run(const F& factory, V& vec, const V& other, const I& ix, float64* out, uint32* oi, float64* q) {
    auto ev = factory.create(vec, ix);
    V tmp(other);
    ev->calculateScores(tmp);  // evaluators are reused for many rules
    return read_any(ev->calculateScores(vec), out, oi, q);
}

/* kind: 0 complete, 1 single, 2 fixed, 3 dynamic; sub: index vector given by ind; the factories select the algorithm */
extern "C" uint32 h_dec_factory(uint32 kind, bool sub, bool sparse, STAT, PART, const T2* prev, float32 ratio, uint32 lo, uint32 hi, float32 threshold, float32 exponent, float64* out, uint32* oi, float64* q) {
    CIX;
    PartialIndexVector px(n);
    VF_COPY(px.begin(), ind, n);
    auto go = [&](auto& f, auto& vec, auto& other) { return sub ? run(f, vec, other, px, out, oi, q) : run(f, vec, other, ix, out, oi, q); };
    auto all = [&](auto& vec, auto& other) -> uint32 {
        if (kind == 1) {
            DecomposableSingleOutputRuleEvaluationFactory f(l1, l2);
            return go(f, vec, other);
        } else if (kind == 2) {
            DecomposableFixedPartialRuleEvaluationFactory f(ratio, lo, hi, l1, l2);
            return go(f, vec, other);
        } else {
            DecomposableDynamicPartialRuleEvaluationFactory f(threshold, exponent, l1, l2);
            return go(f, vec, other);
        }
    };
    if (sparse) {
        SparseSetView<T2> view(2, n);
        for (uint32 i = 0; i < n; i++) {
            view[0].emplace(i).value = s[i];
            view[1].emplace(i).value = prev[i];
        }
        SparseDecomposableStatisticVector vec(n, true), other(n, true);
        vec.add(view, 0);
        other.add(view, 1);
        return all(vec, other);
    }
    DenseDecomposableStatisticVector vec(n), other(n);
    VF_COPY(vec.begin(), s, n);
    VF_COPY(other.begin(), prev, n);
    if (kind == 0) {
        DecomposableCompleteRuleEvaluationFactory f(l1, l2);
        return go(f, vec, other);
    }
    return all(vec, other);
}

extern "C" uint32 h_nd_factory(uint32 kind, bool sub, uint32 n, const float64* g, const float64* h, uint32 t, float64 l1, float64 l2, PART, const float64* pg, float32 ratio, uint32 lo, uint32 hi, float32 threshold, float32 exponent, float64* out, uint32* oi, float64* q) {
    CIX;
    PartialIndexVector px(n);
    VF_COPY(px.begin(), ind, n);
    DenseNonDecomposableStatisticVector vec(n), other(n);
    VF_COPY(vec.gradients_begin(), g, n);
    VF_COPY(vec.hessians_begin(), h, t);
    VF_COPY(other.gradients_begin(), pg, n);
    VF_COPY(other.hessians_begin(), h, t);
    Blas blas(vf_ddot, vf_dspmv);
    Lapack lapack(vf_dsysv);
    auto go = [&](auto& f) { return sub ? run(f, vec, other, px, out, oi, q) : run(f, vec, other, ix, out, oi, q); };
    if (kind == 0) {
        NonDecomposableCompleteRuleEvaluationFactory f(l1, l2, blas, lapack);
        return go(f);
    } else if (kind == 2) {
        NonDecomposableFixedPartialRuleEvaluationFactory f(ratio, lo, hi, l1, l2, blas, lapack);
        return go(f);
    }
    NonDecomposableDynamicPartialRuleEvaluationFactory f(threshold, exponent, l1, l2, blas, lapack);
    return go(f);
}
#endif
