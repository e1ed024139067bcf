#include "vf.hpp"
#include "mlrl/common/data/vector_bit.cpp"
#include "mlrl/common/iterator/iterator_index.cpp"
#include "mlrl/common/random/rng.cpp"
#include "mlrl/common/sampling/partition_bi.cpp"
#include "mlrl/common/sampling/partition_single.cpp"
#include "mlrl/common/sampling/weight_vector_bit.cpp"
#include "mlrl/common/sampling/weight_vector_dense.cpp"
#include "mlrl/common/sampling/weight_vector_equal.cpp"
#include "mlrl/common/sampling/weight_vector_out_of_sample.cpp"
#include "mlrl/common/sampling/weight_sampling.hpp"
#define sampleInternally sampleInternally1
#include "mlrl/common/sampling/instance_sampling_without_replacement.cpp"
#undef sampleInternally
#define sampleInternally sampleInternally2
#include "mlrl/common/sampling/instance_sampling_with_replacement.cpp"
#undef sampleInternally
#define sampleInternally sampleInternally3
#include "mlrl/common/sampling/instance_sampling_no.cpp"
#undef sampleInternally

static inline uint32 vf_bits(const BitWeightVector& w, uint8* out, uint32 n) {
    for (uint32 i = 0; i < n; i++) {
        out[i] = w[i] ? 1 : 0;
    }
    return w.getNumNonZeroWeights();
}

static inline void vf_part(BiPartition& p, const uint32* idx, uint32 nf) {
    VF_COPY(p.first_begin(), idx, nf);
}

/* in native runs, an earlier sample leaves its traces in the weight vector */
#ifdef VF_NATIVE
    #define VF_AGAIN(x) x
#else
    #define VF_AGAIN(x)
#endif

extern "C" uint32 h_w_tracking(const uint32* total, uint32 nt, uint32 ns, uint8* out, uint32 n, uint32 seed) {
    RNG rng(seed);
    BitWeightVector w(n);
    sampleWeightsWithoutReplacementViaTrackingSelection<const uint32*>(w, total, nt, ns, rng);
    VF_AGAIN((sampleWeightsWithoutReplacementViaTrackingSelection<const uint32*>(w, total, nt, ns, rng)));
    return vf_bits(w, out, n);
}

extern "C" uint32 h_w_pool(const uint32* total, uint32 nt, uint32 ns, uint8* out, uint32 n, uint32 seed) {
    RNG rng(seed);
    BitWeightVector w(n);
    sampleWeightsWithoutReplacementViaPool<const uint32*>(w, total, nt, ns, rng);
    VF_AGAIN((sampleWeightsWithoutReplacementViaPool<const uint32*>(w, total, nt, ns, rng)));
    return vf_bits(w, out, n);
}

extern "C" uint32 h_w_any(const uint32* total, uint32 nt, uint32 ns, uint8* out, uint32 n, uint32 seed) {
    RNG rng(seed);
    BitWeightVector w(n);
    sampleWeightsWithoutReplacement<const uint32*>(w, total, nt, ns, rng);
    VF_AGAIN((sampleWeightsWithoutReplacement<const uint32*>(w, total, nt, ns, rng)));
    return vf_bits(w, out, n);
}

extern "C" uint32 h_w_range(uint32 nt, uint32 ns, uint8* out, uint32 seed) {
    RNG rng(seed);
    BitWeightVector w(nt);
    sampleWeightsWithoutReplacement<IndexIterator>(w, IndexIterator(), nt, ns, rng);
    VF_AGAIN((sampleWeightsWithoutReplacement<IndexIterator>(w, IndexIterator(), nt, ns, rng)));
    return vf_bits(w, out, nt);
}

extern "C" uint32 h_without_bi(const uint32* total, uint32 nt, uint32 n, float32 size, uint32 mn, uint32 mx, uint8* out, uint32 seed) {
    BiPartition p(nt, n - nt);
    vf_part(p, total, nt);
    InstanceSamplingWithoutReplacement<BiPartition> s(std::make_unique<RNG>(seed), p, size, mn, mx);
    s.sample();
    VF_AGAIN(s.sample());
    return vf_bits(s.weightVector_, out, n);
}

extern "C" uint32 h_without_single(uint32 nt, float32 size, uint32 mn, uint32 mx, uint8* out, uint32 seed) {
    SinglePartition p(nt);
    InstanceSamplingWithoutReplacement<const SinglePartition> s(std::make_unique<RNG>(seed), p, size, mn, mx);
    s.sample();
    VF_AGAIN(s.sample());
    return vf_bits(s.weightVector_, out, nt);
}

extern "C" uint32 h_with_bi(const uint32* total, uint32 nt, uint32 n, float32 size, uint32 mn, uint32 mx, uint32* out, uint32 seed) {
    BiPartition p(nt, n - nt);
    vf_part(p, total, nt);
    InstanceSamplingWithReplacement<BiPartition> s(std::make_unique<RNG>(seed), p, size, mn, mx);
    s.sample();
    VF_AGAIN(s.sample());
    VF_COPY(out, s.weightVector_.cbegin(), n);
    return s.weightVector_.getNumNonZeroWeights();
}

extern "C" uint32 h_with_single(uint32 nt, float32 size, uint32 mn, uint32 mx, uint32* out, uint32 seed) {
    SinglePartition p(nt);
    InstanceSamplingWithReplacement<const SinglePartition> s(std::make_unique<RNG>(seed), p, size, mn, mx);
    s.sample();
    VF_AGAIN(s.sample());
    VF_COPY(out, s.weightVector_.cbegin(), nt);
    return s.weightVector_.getNumNonZeroWeights();
}

extern "C" uint32 h_no_bi(const uint32* total, uint32 nt, uint32 n, uint8* out) {
    BiPartition p(nt, n - nt);
    vf_part(p, total, nt);
    NoInstanceSampling<BiPartition, BitWeightVector> s(p);
    s.sample();
    VF_AGAIN(s.sample());
    return vf_bits(s.weightVector_, out, n);
}

extern "C" uint32 h_no_single(uint32 nt, uint32 j, uint32* w, bool* zero) {
    SinglePartition p(nt);
    NoInstanceSampling<const SinglePartition, EqualWeightVector> s(p);
    s.sample();
    *w = s.weightVector_[j];
    *zero = s.weightVector_.hasZeroWeights();
    return s.weightVector_.getNumNonZeroWeights();
}

extern "C" bool h_has_zero_bit(uint32 n, uint32 k) {
    BitWeightVector w(n);
    w.setNumNonZeroWeights(k);
    return w.hasZeroWeights();
}

extern "C" bool h_has_zero_dense(uint32 n, uint32 k) {
    DenseWeightVector<uint32> w(n);
    w.setNumNonZeroWeights(k);
    return w.hasZeroWeights();
}

extern "C" bool h_out_of_sample_dense(const uint32* weights, uint32 n, uint32 j, uint32* len) {
    DenseWeightVector<uint32> w(n);
    VF_COPY(w.begin(), weights, n);
    OutOfSampleWeightVector<DenseWeightVector<uint32>> o(w);
    *len = o.getNumElements();
    return o[j];
}

extern "C" bool h_out_of_sample_bit(uint32 n, uint32 i, uint32 j, uint32* len) {
    BitWeightVector w(n);
    w.clear();
    w.set(i, true);
    OutOfSampleWeightVector<BitWeightVector> o(w);
    *len = o.getNumElements();
    return o[j];
}

extern "C" uint32 h_bounded_fraction(uint32 n, float32 fraction, uint32 minimum, uint32 maximum) {
    return util::calculateBoundedFraction(n, fraction, minimum, maximum);
}
