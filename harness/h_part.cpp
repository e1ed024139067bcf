#include "vf.hpp"
#include "vf_labels.hpp"
#include "mlrl/common/data/vector_bit.cpp"
#include "mlrl/common/data/view_matrix_csr_binary.hpp"
#include "mlrl/common/iterator/iterator_index.cpp"
#include "mlrl/common/random/rng.cpp"
#include "mlrl/common/sampling/partition_bi.cpp"
#include "mlrl/common/sampling/partition_single.cpp"
#include "mlrl/common/sampling/weight_vector_bit.cpp"
#include "mlrl/common/sampling/weight_vector_dense.cpp"
#include "mlrl/common/sampling/weight_vector_equal.cpp"
#include "mlrl/common/sampling/weight_vector_out_of_sample.cpp"
#include "mlrl/common/sampling/partition_sampling_bi_random.cpp"
#include "mlrl/common/sampling/partition_sampling_no.cpp"
#include "mlrl/common/sampling/stratified_sampling_example_wise.cpp"
#include "mlrl/common/sampling/stratified_sampling_output_wise.cpp"
#include "mlrl/common/sampling/partition_sampling_bi_stratified_example_wise.cpp"
#include "mlrl/common/sampling/partition_sampling_bi_stratified_output_wise.cpp"
#include "mlrl/common/sampling/instance_sampling_stratified_example_wise.cpp"
#include "mlrl/common/sampling/instance_sampling_stratified_output_wise.cpp"

/* random split into a training set and a holdout set */
extern "C" void h_random_split(uint32 nf, uint32 ns, uint32* first, uint32* second, uint32 seed) {
    RandomBiPartitionSampling s(std::make_unique<RNG>(seed), nf, ns);
    BiPartition& p = static_cast<BiPartition&>(s.partition());
    VF_COPY(first, p.first_cbegin(), nf);
    VF_COPY(second, p.second_cbegin(), ns);
}

extern "C" void h_bi_accessors(uint32 nf, uint32 ns, uint32* out) {
    BiPartition p(nf, ns);
    out[0] = p.getNumFirst();
    out[1] = p.getNumSecond();
    out[2] = p.getNumElements();
    out[3] = (uint32) (p.first_end() - p.first_begin());
    out[4] = (uint32) (p.second_end() - p.second_begin());
    out[5] = (uint32) (p.second_cbegin() - p.first_cbegin());
    out[6] = (uint32) (p.first_cend() - p.first_cbegin());
    out[7] = (uint32) (p.second_cend() - p.second_cbegin());
    out[8] = (uint32) (p.second_begin() - p.first_begin());
}

extern "C" uint32 h_random_int(uint32 seed, uint32 lo, uint32 hi, uint32* again) {
    RNG a(seed);
    RNG b(seed);
    *again = b.randomInt(lo, hi);
    return a.randomInt(lo, hi);
}

extern "C" void h_random_seq(uint32 seed, uint32 lo, uint32 hi, uint32* x, uint32* y, uint32 n) {
    RNGConfig c;
    c.setRandomState(seed);
    auto f = c.createRNGFactory();
    auto a = f->create();
    auto b = f->create();
    for (uint32 i = 0; i < n; i++) {
        x[i] = a->randomInt(lo, hi);
    }
    for (uint32 i = 0; i < n; i++) {
        y[i] = b->randomInt(lo, hi);
    }
}

#ifdef VF_NATIVE
struct VfLabels {
        std::vector<uint32> indices, indptr;
        CContiguousView<const uint8> dense;
        std::unique_ptr<BinaryCsrView> csr;

        VfLabels(const uint8* labels, uint32 n, uint32 m) : dense(labels, n, m) {
            indptr.push_back(0);
            for (uint32 i = 0; i < n; i++) {
                for (uint32 j = 0; j < m; j++) {
                    if (labels[i * m + j]) {
                        indices.push_back(j);
                    }
                }
                indptr.push_back(indices.size());
            }
            csr = std::make_unique<BinaryCsrView>(indices.data(), indptr.data(), n, m);
        }
};

/* the splits obtained through the public configuration classes */
extern "C" uint32 h_split_config(const uint8* labels, uint32 n, uint32 m, uint8 kind, bool sparse, float32 size, uint32 seed, bool sort, uint32* out, uint32* again) {
    RNGConfig rng;
    rng.setRandomState(seed);
    ReadableProperty<RNGConfig> p([&]() -> RNGConfig& {
        return rng;
    });
    VfLabels l(labels, n, m);
    RandomBiPartitionSamplingConfig r(p);
    ExampleWiseStratifiedBiPartitionSamplingConfig e(p);
    OutputWiseStratifiedBiPartitionSamplingConfig o(p);
    r.setHoldoutSetSize(size);
    e.setHoldoutSetSize(size);
    o.setHoldoutSetSize(size);
    std::unique_ptr<IClassificationPartitionSamplingFactory> f;
    if (kind == 0) {
        f = r.createClassificationPartitionSamplingFactory();
    } else if (kind == 1) {
        f = e.createClassificationPartitionSamplingFactory();
    } else {
        f = o.createClassificationPartitionSamplingFactory();
    }
    uint32 nf = 0;
    for (int t = 0; t < 2; t++) {
        auto s = sparse ? f->create(*l.csr) : f->create(l.dense);
        BiPartition& bp = static_cast<BiPartition&>(s->partition());
        if (sort) {
            bp.sortFirst();
            bp.sortSecond();
        }
        nf = bp.getNumFirst();
        uint32* dest = t == 0 ? out : again;
        for (uint32 i = 0; i < n; i++) {
            dest[i] = bp.first_cbegin()[i];
        }
    }
    return nf;
}

extern "C" uint32 h_split_regression(uint32 n, float32 size, uint32 seed, bool sparse, bool no, uint32* out) {
    RNGConfig rng;
    rng.setRandomState(seed);
    ReadableProperty<RNGConfig> p([&]() -> RNGConfig& {
        return rng;
    });
    RandomBiPartitionSamplingConfig r(p);
    NoPartitionSamplingConfig nc;
    r.setHoldoutSetSize(size);
    auto f = no ? nc.createRegressionPartitionSamplingFactory() : r.createRegressionPartitionSamplingFactory();
    std::vector<float32> values(n);
    std::vector<uint32> indptr(n + 1);
    CContiguousView<const float32> dense(values.data(), n, 1);
    CsrView<const float32> csr(values.data(), indptr.data(), indptr.data(), n, 1);
    auto s = sparse ? f->create(csr) : f->create(dense);
    if (no) {
        SinglePartition& sp = static_cast<SinglePartition&>(s->partition());
        for (uint32 i = 0; i < n; i++) {
            out[i] = sp.cbegin()[i];
        }
        return sp.getNumElements();
    }
    BiPartition& bp = static_cast<BiPartition&>(s->partition());
    for (uint32 i = 0; i < n; i++) {
        out[i] = bp.first_cbegin()[i];
    }
    return bp.getNumFirst();
}

/* stratified samples of a training set */
extern "C" uint32 h_strat_weights(const uint8* labels, uint32 n, uint32 m, uint8 kind, bool sparse, const uint32* total, uint32 nt, bool bi, float32 size, uint32 mn, uint32 mx,
                                  uint32 seed, uint32 rounds, uint8* out) {
    RNGConfig rng;
    rng.setRandomState(seed);
    ReadableProperty<RNGConfig> p([&]() -> RNGConfig& {
        return rng;
    });
    VfLabels l(labels, n, m);
    ExampleWiseStratifiedInstanceSamplingConfig e(p);
    OutputWiseStratifiedInstanceSamplingConfig o(p);
    e.setSampleSize(size).setMinSamples(mn).setMaxSamples(mx);
    o.setSampleSize(size).setMinSamples(mn).setMaxSamples(mx);
    std::unique_ptr<IClassificationInstanceSamplingFactory> f;
    if (kind == 0) {
        f = e.createClassificationInstanceSamplingFactory();
    } else {
        f = o.createClassificationInstanceSamplingFactory();
    }
    SinglePartition sp(n);
    BiPartition bp(nt, n - nt);
    std::vector<bool> in(n);
    for (uint32 i = 0; i < nt; i++) {
        bp.first_begin()[i] = total[i];
        in[total[i]] = true;
    }
    uint32 k = 0;
    for (uint32 i = 0; i < n; i++) {
        if (!in[i]) {
            bp.second_begin()[k++] = i;
        }
    }
    alignas(16) static char vf_unused[64];
    IStatistics* st = reinterpret_cast<IStatistics*>(vf_unused);
    auto s = bi ? (sparse ? f->create(*l.csr, bp, *st) : f->create(l.dense, bp, *st))
                : (sparse ? f->create(*l.csr, sp, *st) : f->create(l.dense, sp, *st));
    uint32 res = 0;
    for (uint32 r = 0; r < rounds; r++) {
        const BitWeightVector& w = static_cast<const BitWeightVector&>(s->sample());
        for (uint32 i = 0; i < n; i++) {
            out[i] = w[i] ? 1 : 0;
        }
        res = w.getNumNonZeroWeights();
    }
    return res;
}
#endif
