#include "vf.hpp"
#include "mlrl/common/rule_refinement/refinement.hpp"
#include "mlrl/common/rule_refinement/score_processor.hpp"
#include "mlrl/common/input/feature_vector_numerical.cpp"
#include "mlrl/common/input/feature_vector_nominal.cpp"
#include "mlrl/common/input/feature_vector_binned.cpp"
#include "mlrl/common/input/feature_vector_binary.hpp"
#include "mlrl/common/input/feature_vector_ordinal.hpp"
#include "mlrl/common/input/feature_based_search_numerical.hpp"
#include "mlrl/common/input/feature_based_search_nominal.hpp"
#include "mlrl/common/input/feature_based_search_binary.hpp"
#include "mlrl/common/input/feature_based_search_ordinal.hpp"
#include "mlrl/common/input/feature_based_search_binned.hpp"


struct VfScores final : public IScoreVector {
        float64 sum;
        void updatePrediction(IPrediction&) const override {}
        void processScores(ScoreProcessor&) const override {}
};

/* Statistics that identify the covered examples by the sum of arbitrary numbers, one per example. */
struct VfSubset final : public IResettableStatisticsSubset {
        const bool* w;
        const float64* h;
        float64 total;
        float64 sum;
        float64 acc;
        VfScores scores;

        VfSubset(const bool* w, const float64* h, float64 total) : w(w), h(h), total(total), sum(0), acc(0) {}

        bool hasNonZeroWeight(uint32 i) const override {
            return w[i];
        }

        void addToSubset(uint32 i) override {
            sum += h[i];
        }

        void resetSubset() override {
            acc += sum;
            sum = 0;
        }

        const IScoreVector& calculateScores() override {
            scores.sum = sum;
            return scores;
        }

        const IScoreVector& calculateScoresUncovered() override {
            scores.sum = total - sum;
            return scores;
        }

        const IScoreVector& calculateScoresAccumulated() override {
            scores.sum = acc;
            return scores;
        }

        const IScoreVector& calculateScoresUncoveredAccumulated() override {
            scores.sum = total - acc;
            return scores;
        }
};

/* Records the refinement that refers to a given range of elements, which either starts at the first element or ends at
 * the last one. */
template<typename T>
struct VfRecorder {
        bool gate;
        bool prefix;
        bool inverse;
        uint32 position;
        Comparator low;
        Comparator high;
        uint32* covered; /* number of covered examples, plus one */
        float64* sum;    /* sum of the numbers of the examples, the score has been calculated for */
        uint32* bound;   /* the other bound of the range */
        T* threshold;

        bool isImprovement(const IScoreVector&) const {
            return gate;
        }

        void pushRefinement(const Refinement& r, const IScoreVector& scoreVector) {
            bool isPrefix = (r.comparator == low) != r.inverse;

            if (isPrefix == prefix && r.inverse == inverse && (isPrefix ? r.end : r.start) == position
                && (r.comparator == low || r.comparator == high)) {
                *covered = r.numCovered + 1;
                *sum = static_cast<const VfScores&>(scoreVector).sum;
                *bound = isPrefix ? r.start : r.end;
                *threshold = *std::get_if<T>(&r.threshold);
            }
        }
};

#define VF_QUERIES(F) F(pre, true, false) F(pre_inv, true, true) F(suf, false, false) F(suf_inv, false, true)

#define VF_NUMERICAL(NAME, PREFIX, INVERSE) \
    extern "C" void h_numerical_##NAME(uint32 n, const IndexedValue<float32>* x, float32 sparseValue, bool sparse, uint32 first, uint32 m, const bool* w, const float64* h, float64 totalSum, uint32 total, uint32 minCoverage, bool gate, uint32 b, uint32* covered, float64* sum, uint32* bound, float32* threshold) { \
        NumericalFeatureVector v(const_cast<IndexedValue<float32>*>(x), n, sparseValue, sparse); \
        VfSubset s(w, h, totalSum); \
        VfRecorder<float32> c = {gate, PREFIX, INVERSE, b, NUMERICAL_LEQ, NUMERICAL_GR, covered, sum, bound, threshold}; \
        Refinement r; \
        searchForNumericalRefinementInternally(v, s, c, total, minCoverage, r); \
    }
VF_QUERIES(VF_NUMERICAL)

/* Records the refinement with a given comparator that refers to a given range of elements. */
struct VfExact {
        bool gate;
        uint32 start;
        uint32 end;
        bool inverse;
        Comparator cmp;
        uint32* covered;
        float64* sum;
        int32* threshold;

        bool isImprovement(const IScoreVector&) const {
            return gate;
        }

        void pushRefinement(const Refinement& r, const IScoreVector& scoreVector) {
            if (r.start == start && r.end == end && r.inverse == inverse && r.comparator == cmp) {
                *covered = r.numCovered + 1;
                *sum = static_cast<const VfScores&>(scoreVector).sum;
                *threshold = *std::get_if<int32>(&r.threshold);
            }
        }
};

#define VF_BINS uint32 nb, const uint32* indptr, uint32 n, const uint32* indices, uint32 m, const bool* w, const float64* h, float64 totalSum, uint32 total, uint32 minCoverage, bool gate
#define VF_NOMINAL(NAME, FN, START, END, INVERSE, CMP) \
    extern "C" void h_##NAME(VF_BINS, const int32* values, int32 majority, uint32 b, uint32* covered, float64* sum, int32* threshold) { \
        NominalFeatureVector v(const_cast<int32*>(values), const_cast<uint32*>(indices), const_cast<uint32*>(indptr), nb, n, majority); \
        VfSubset s(w, h, totalSum); \
        VfExact c = {gate, START, END, INVERSE, CMP, covered, sum, threshold}; \
        Refinement r; \
        FN(v, s, c, total, minCoverage, r); \
    }
VF_NOMINAL(nominal_eq, searchForNominalRefinementInternally, b, b + 1, false, NOMINAL_EQ)
VF_NOMINAL(nominal_neq, searchForNominalRefinementInternally, b, b + 1, true, NOMINAL_NEQ)
VF_NOMINAL(nominal_neq_majority, searchForNominalRefinementInternally, 0, nb, false, NOMINAL_NEQ)
VF_NOMINAL(nominal_eq_majority, searchForNominalRefinementInternally, 0, nb, true, NOMINAL_EQ)
VF_NOMINAL(binary_minority, searchForBinaryRefinementInternally, 0, 1, false, NOMINAL_EQ)
VF_NOMINAL(binary_majority, searchForBinaryRefinementInternally, 0, 1, true, NOMINAL_EQ)

#define VF_ORDINAL(NAME, PREFIX, INVERSE) \
    extern "C" void h_ordinal_##NAME(VF_BINS, const int32* values, int32 majority, uint32 first, uint32 b, uint32* covered, float64* sum, uint32* bound, int32* threshold) { \
        OrdinalFeatureVector v(const_cast<int32*>(values), const_cast<uint32*>(indices), const_cast<uint32*>(indptr), nb, n, majority); \
        VfSubset s(w, h, totalSum); \
        VfRecorder<int32> c = {gate, PREFIX, INVERSE, b, ORDINAL_LEQ, ORDINAL_GR, covered, sum, bound, threshold}; \
        Refinement r; \
        searchForOrdinalRefinementInternally(v, s, c, total, minCoverage, r); \
    }
VF_QUERIES(VF_ORDINAL)

#define VF_BINNED(NAME, PREFIX, INVERSE) \
    extern "C" void h_binned_##NAME(VF_BINS, const float32* thresholds, uint32 first, uint32 b, uint32* covered, float64* sum, uint32* bound, float32* threshold) { \
        BinnedFeatureVector v(const_cast<float32*>(thresholds), const_cast<uint32*>(indices), const_cast<uint32*>(indptr), nb, n, first); \
        VfSubset s(w, h, totalSum); \
        VfRecorder<float32> c = {gate, PREFIX, INVERSE, b, NUMERICAL_LEQ, NUMERICAL_GR, covered, sum, bound, threshold}; \
        Refinement r; \
        searchForBinnedRefinementInternally(v, s, c, total, minCoverage, r); \
    }
VF_QUERIES(VF_BINNED)
