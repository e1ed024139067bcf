/* builds rule models and feature matrices through their public interface */
#pragma once
#include "vf.hpp"
#include "mlrl/common/model/body_conjunctive.cpp"
#include "mlrl/common/model/body_empty.cpp"
#include "mlrl/common/model/head_complete.cpp"
#include "mlrl/common/model/head_partial.cpp"
#include "mlrl/common/model/rule_list.cpp"
#include <vector>

#define MODEL_PARAMS                                                                                                   \
    uint32 nf, uint32 no, uint32 n, const uint32 *kind, const uint32 *feat, const float32 *thr, const uint8 *part,     \
      const uint8 *mask, const float64 *vals, bool hasDefault, const float64 *def, bool prec, uint32 used
#define MODEL_ARGS nf, no, n, kind, feat, thr, part, mask, vals, hasDefault, def, prec, used

/* each rule has up to two conditions, kind 6 stands for none */
static inline void vf_model(RuleList& list, MODEL_PARAMS) {
    for (uint32 r = 0; r < n; r++) {
        uint32 cnt[7] = {};
        for (uint32 j = 2 * r; j < 2 * r + 2; j++) cnt[kind[j]]++;
        std::unique_ptr<IBody> body;
        if (cnt[6] == 2) {
            body = std::make_unique<EmptyBody>();
        } else {
            std::unique_ptr<ConjunctiveBody> b =
              std::make_unique<ConjunctiveBody>(cnt[0], cnt[1], cnt[2], cnt[3], cnt[4], cnt[5]);
            uint32 at[7] = {};
            for (uint32 j = 2 * r; j < 2 * r + 2; j++) {
                uint32 i = at[kind[j]]++;
                switch (kind[j]) {
                    case 0: b->numerical_leq_indices_begin()[i] = feat[j]; b->numerical_leq_thresholds_begin()[i] = thr[j]; break;
                    case 1: b->numerical_gr_indices_begin()[i] = feat[j]; b->numerical_gr_thresholds_begin()[i] = thr[j]; break;
                    case 2: b->ordinal_leq_indices_begin()[i] = feat[j]; b->ordinal_leq_thresholds_begin()[i] = (int32) thr[j]; break;
                    case 3: b->ordinal_gr_indices_begin()[i] = feat[j]; b->ordinal_gr_thresholds_begin()[i] = (int32) thr[j]; break;
                    case 4: b->nominal_eq_indices_begin()[i] = feat[j]; b->nominal_eq_thresholds_begin()[i] = (int32) thr[j]; break;
                    case 5: b->nominal_neq_indices_begin()[i] = feat[j]; b->nominal_neq_thresholds_begin()[i] = (int32) thr[j]; break;
                }
            }
            body = std::move(b);
        }
        std::unique_ptr<IHead> head;
        if (part[r]) {
            uint32 m = 0;
            for (uint32 c = 0; c < no; c++) m += mask[r * no + c] != 0;
            std::unique_ptr<PartialHead> h = std::make_unique<PartialHead>(m);
            m = 0;
            for (uint32 c = 0; c < no; c++) {
                if (mask[r * no + c]) {
                    h->indices_begin()[m] = c;
                    h->values_begin()[m++] = vals[r * no + c];
                }
            }
            head = std::move(h);
        } else {
            std::unique_ptr<CompleteHead> h = std::make_unique<CompleteHead>(no);
            for (uint32 c = 0; c < no; c++) h->values_begin()[c] = vals[r * no + c];
            head = std::move(h);
        }
        list.addRule(std::move(body), std::move(head));
    }
    if (hasDefault) {
        std::unique_ptr<CompleteHead> h = std::make_unique<CompleteHead>(no);
        for (uint32 c = 0; c < no; c++) h->values_begin()[c] = def[c];
        list.addDefaultRule(std::move(h));
    }
    list.setNumUsedRules(used);
}

struct VfCsr {
        std::vector<float32> val;
        std::vector<uint32> idx, ptr;

        VfCsr(const float32* X, uint32 nr, uint32 nf, float32 sv) {
            for (uint32 r = 0; r < nr; r++) {
                ptr.push_back((uint32) idx.size());
                for (uint32 c = 0; c < nf; c++) {
                    if (X[r * nf + c] != sv) {
                        idx.push_back(c);
                        val.push_back(X[r * nf + c]);
                    }
                }
            }
            ptr.push_back((uint32) idx.size());
            val.shrink_to_fit();
            idx.shrink_to_fit();
        }
};

struct VfNoCalibration : public IMarginalProbabilityCalibrationModel, public IJointProbabilityCalibrationModel {
        float64 calibrateMarginalProbability(uint32 i, float64 p) const override { return p; }
        float64 calibrateJointProbability(uint32 i, float64 p) const override { return p; }
};
