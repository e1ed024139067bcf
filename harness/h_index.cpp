#include "vf.hpp"
#include "mlrl/common/indices/index_vector_partial.cpp"
#include "mlrl/common/iterator/iterator_index.cpp"
#include "mlrl/common/random/rng.cpp"
#include "mlrl/common/sampling/index_sampling.hpp"

extern "C" void h_idx_tracking(const uint32* total, uint32 nt, uint32* out, uint32 ns, uint32 seed) {
    RNG rng(seed);
    sampleIndicesWithoutReplacementViaTrackingSelection<const uint32*>(out, ns, total, nt, rng);
}

extern "C" void h_idx_reservoir(const uint32* total, uint32 nt, uint32* out, uint32 ns, uint32 seed) {
    RNG rng(seed);
    sampleIndicesWithoutReplacementViaReservoirSampling<const uint32*>(out, ns, total, nt, rng);
}

extern "C" void h_idx_permutation(const uint32* total, uint32 nt, uint32* out, uint32 ns, uint32 seed) {
    RNG rng(seed);
    sampleIndicesWithoutReplacementViaRandomPermutation<const uint32*>(out, ns, total, nt, rng);
}

extern "C" void h_idx_any(uint32 nt, uint32* out, uint32 ns, uint32 seed) {
    RNG rng(seed);
    sampleIndicesWithoutReplacement<IndexIterator>(out, ns, IndexIterator(nt), nt, rng);
}

extern "C" void h_permutation(uint32* first, uint32 nf, uint32* second, uint32 nt, uint32 np, uint32 seed) {
    RNG rng(seed);
    randomPermutation<uint32*, uint32*>(first, second, nf, nt, np, rng);
}

/* the classes that sample outputs, features and training examples */
#include "vf_labels.hpp"
#include "mlrl/common/indices/index_vector_complete.cpp"
#include "mlrl/common/sampling/feature_sampling_predefined.cpp"
#include "mlrl/common/sampling/feature_sampling_no.cpp"
#include "mlrl/common/sampling/feature_sampling_without_replacement.cpp"
#include "mlrl/common/sampling/output_sampling_no.cpp"
#include "mlrl/common/sampling/output_sampling_round_robin.cpp"
#include "mlrl/common/sampling/output_sampling_without_replacement.cpp"

struct VfFeatureMatrix final : public IFeatureMatrix {
        uint32 numFeatures;

        VfFeatureMatrix(uint32 n) : numFeatures(n) {}

        bool isSparse() const override {
            return false;
        }

        uint32 getNumExamples() const override {
            return 1;
        }

        uint32 getNumFeatures() const override {
            return numFeatures;
        }
};

extern "C" void h_outputs(uint32 nt, uint32* out, uint32 ns, uint32 seed) {
    OutputSamplingWithoutReplacement s(std::make_unique<RNG>(seed), nt, ns);
    VF_COPY(s.indexVector_.begin(), out, ns);
    s.sample();
    VF_COPY(out, s.indexVector_.cbegin(), ns);
}

extern "C" uint32 h_round_robin(uint32 n, uint32 k, uint32* next) {
    RoundRobinOutputSampling s(n);
    s.nextIndex_ = k;
    s.sample();
    *next = s.nextIndex_;
    return s.indexVector_.cbegin()[0];
}

extern "C" void h_features(uint32 nt, uint32 retained, uint32* out, uint32 ns, uint32 seed) {
    FeatureSamplingWithoutReplacement s(std::make_shared<RNG>(seed), nt + retained, ns, retained);
    VF_COPY(s.indexVector_.begin() + retained, out + retained, ns);
    s.sample();
    VF_COPY(out, s.indexVector_.cbegin(), ns + retained);
}

static inline uint32 vf_read(const IIndexVector& v, uint32* out) {
    for (uint32 i = 0; i < v.getNumElements(); i++) {
        out[i] = v.getIndex(i);
    }
    return v.getNumElements();
}

/* whole configuration: kind 0 = none, 1 = round robin, 2 = without replacement; the result of the last of `rounds` samples */
extern "C" uint32 h_output_config(uint32 n, uint8 kind, float32 size, uint32 mn, uint32 mx, uint32 seed, uint32 rounds,
                                  uint32* out) {
    RNGConfig rng;
    rng.setRandomState(seed);
    ReadableProperty<RNGConfig> p([&]() -> RNGConfig& {
        return rng;
    });
    VfLabelMatrix m(7, n, 1);
    OutputSamplingWithoutReplacementConfig c(p);
    RoundRobinOutputSamplingConfig r;
    NoOutputSamplingConfig no;
    const IOutputSamplingConfig* config = &no;
    if (kind == 1) config = &r;
    if (kind == 2) {
        c.setSampleSize(size);
        c.setMinSamples(mn);
        c.setMaxSamples(mx);
        config = &c;
    }
    std::unique_ptr<IOutputSampling> s = config->createOutputSamplingFactory(m)->create();
    uint32 k = 0;
    for (uint32 i = 0; i < rounds; i++) {
        k = vf_read(s->sample(), out);
    }
    return k;
}

/* mode 0 = sample, 1 = resampling for a beam search, 2 = fixed sample for a beam search */
extern "C" uint32 h_feature_config(uint32 n, bool no, float32 size, uint32 mn, uint32 mx, uint32 retained, uint32 seed,
                                   uint32 rounds, uint8 mode, uint32* out, uint32* again) {
    RNGConfig rng;
    rng.setRandomState(seed);
    ReadableProperty<RNGConfig> p([&]() -> RNGConfig& {
        return rng;
    });
    VfFeatureMatrix m(n);
    FeatureSamplingWithoutReplacementConfig c(p);
    NoFeatureSamplingConfig nc;
    c.setSampleSize(size);
    c.setMinSamples(mn);
    c.setMaxSamples(mx);
    c.setNumRetained(retained);
    std::unique_ptr<IFeatureSampling> s = (no ? nc.createFeatureSamplingFactory(m) : c.createFeatureSamplingFactory(m))->create();
    std::unique_ptr<IFeatureSampling> b;
    if (mode > 0) b = s->createBeamSearchFeatureSampling(mode == 1);
    uint32 k = 0;
    for (uint32 i = 0; i < rounds; i++) {
        k = vf_read((b ? b : s)->sample(), out);
    }
    vf_read((b ? b : s)->sample(), again);
    return k;
}
