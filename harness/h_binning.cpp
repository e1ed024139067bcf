#include "h_score.cpp"
#include "mlrl/boosting/binning/label_binning_equal_width.cpp"
#ifdef VF_NATIVE
#include "mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_complete_binned.cpp"
#include "mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_partial_fixed_binned.cpp"
#include "mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_partial_dynamic_binned.cpp"
#include "mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_complete_binned.cpp"
#include "mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_partial_fixed_binned.cpp"
#include "mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_partial_dynamic_binned.cpp"
#include "mlrl/common/rule_evaluation/score_vector_binned_dense.cpp"
void ScoreProcessor::processScores(const DenseBinnedScoreVector<CompleteIndexVector>&) {}
void ScoreProcessor::processScores(const DenseBinnedScoreVector<PartialIndexVector>&) {}
#endif

extern "C" uint32 h_label_info(const float64* crit, uint32 n, float32 ratio, uint32 lo, uint32 hi, uint32* bins, float64* lim) {
    EqualWidthLabelBinning b(ratio, lo, hi);
    LabelInfo info = b.getLabelInfo(crit, n);
    bins[0] = info.numNegativeBins;
    bins[1] = info.numPositiveBins;
    lim[0] = info.minNegative;
    lim[1] = info.maxNegative;
    lim[2] = info.minPositive;
    lim[3] = info.maxPositive;
    return b.getMaxBins(n);
}

#ifdef VF_NATIVE
extern "C" uint32 h_create_bins(const float64* crit, uint32 n, float32 ratio, uint32 lo, uint32 hi, uint32* bin, uint32* calls, uint32* num) {
    EqualWidthLabelBinningFactory f(ratio, lo, hi);
    auto b = f.create();
    LabelInfo info = b->getLabelInfo(crit, n);
    num[0] = info.numNegativeBins;
    num[1] = info.numPositiveBins;
    num[2] = b->getMaxBins(n);
    b->createBins(info, crit, n, [=](uint32 i, uint32 l) { bin[l] = i; calls[l]++; }, [=](uint32 l) { bin[l] = 1000000; calls[l]++; });
    return 0;
}

template<typename IV>
static uint32 readb(const IScoreVector& sv, float64* out, uint32* oi, uint32* bins, float64* q) {
    const auto& v = dynamic_cast<const DenseBinnedScoreVector<IV>&>(sv);
    uint32 n = v.getNumElements();
    for (uint32 i = 0; i < n; i++) {
        out[i] = v.values_cbegin()[i];
        oi[i] = v.indices_cbegin()[i];
        bins[i] = v.bin_indices_cbegin()[i];
    }
    q[0] = v.quality;
    return n;
}

template<typename F, typename V, typename I>
static uint32 runb(const F& factory, V& vec, const V& other, const I& ix, float64* out, uint32* oi, uint32* bins, float64* q) {
    auto ev = factory.create(vec, ix);
    V tmp(other);
    ev->calculateScores(tmp);
    const IScoreVector& sv = ev->calculateScores(vec);
    if (dynamic_cast<const DenseBinnedScoreVector<PartialIndexVector>*>(&sv)) return readb<PartialIndexVector>(sv, out, oi, bins, q);
    return readb<CompleteIndexVector>(sv, out, oi, bins, q);
}

#define BIN float32 bratio, uint32 blo, uint32 bhi
#define BINF std::make_unique<EqualWidthLabelBinningFactory>(bratio, blo, bhi)
extern "C" uint32 h_dec_binned(uint32 kind, bool sub, bool sparse, STAT, PART, const T2* prev, float32 ratio, uint32 lo, uint32 hi, float32 threshold, float32 exponent, BIN, float64* out, uint32* oi, uint32* bins, float64* q) {
    CIX;
    PartialIndexVector px(n);
    VF_COPY(px.begin(), ind, n);
    auto go = [&](auto& f, auto& vec, auto& other) { return sub ? runb(f, vec, other, px, out, oi, bins, q) : runb(f, vec, other, ix, out, oi, bins, q); };
    auto all = [&](auto& vec, auto& other) -> uint32 {
        if (kind == 2) {
            DecomposableFixedPartialBinnedRuleEvaluationFactory f(ratio, lo, hi, l1, l2, BINF);
            return go(f, vec, other);
        }
        DecomposableDynamicPartialBinnedRuleEvaluationFactory f(threshold, exponent, l1, l2, BINF);
        return go(f, vec, other);
    };
    if (sparse) {
        SparseSetView<T2> view(2, n);
        for (uint32 i = 0; i < n; i++) {
            view[0].emplace(i).value = s[i];
            view[1].emplace(i).value = prev[i];
        }
        SparseDecomposableStatisticVector vec(n, true), other(n, true);
        vec.add(view, 0);
        other.add(view, 1);
        return all(vec, other);
    }
    DenseDecomposableStatisticVector vec(n), other(n);
    VF_COPY(vec.begin(), s, n);
    VF_COPY(other.begin(), prev, n);
    if (kind == 0) {
        DecomposableCompleteBinnedRuleEvaluationFactory f(l1, l2, BINF);
        return go(f, vec, other);
    }
    return all(vec, other);
}

extern "C" uint32 h_nd_binned(uint32 kind, bool sub, uint32 n, const float64* g, const float64* h, uint32 t, float64 l1, float64 l2, PART, const float64* pg, float32 ratio, uint32 lo, uint32 hi, float32 threshold, float32 exponent, BIN, float64* out, uint32* oi, uint32* bins, float64* q) {
    CIX;
    PartialIndexVector px(n);
    VF_COPY(px.begin(), ind, n);
    DenseNonDecomposableStatisticVector vec(n), other(n);
    VF_COPY(vec.gradients_begin(), g, n);
    VF_COPY(vec.hessians_begin(), h, t);
    VF_COPY(other.gradients_begin(), pg, n);
    VF_COPY(other.hessians_begin(), h, t);
    Blas blas(vf_ddot, vf_dspmv);
    Lapack lapack(vf_dsysv);
    auto go = [&](auto& f) { return sub ? runb(f, vec, other, px, out, oi, bins, q) : runb(f, vec, other, ix, out, oi, bins, q); };
    if (kind == 0) {
        NonDecomposableCompleteBinnedRuleEvaluationFactory f(l1, l2, BINF, blas, lapack);
        return go(f);
    } else if (kind == 2) {
        NonDecomposableFixedPartialBinnedRuleEvaluationFactory f(ratio, lo, hi, l1, l2, BINF, blas, lapack);
        return go(f);
    }
    NonDecomposableDynamicPartialBinnedRuleEvaluationFactory f(threshold, exponent, l1, l2, BINF, blas, lapack);
    return go(f);
}
#endif
