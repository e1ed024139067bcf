/* builds sparse label matrices and sets of label vectors */
#pragma once
#include "mlrl/common/prediction/label_vector_set.hpp"
#include <vector>

struct VfCsrLabels {
        std::vector<uint32> idx, ptr;

        VfCsrLabels(const uint8* y, uint32 nr, uint32 no) {
            ptr.push_back(0);
            for (uint32 r = 0; r < nr; r++) {
                for (uint32 c = 0; c < no; c++) {
                    if (y[r * no + c]) idx.push_back(c);
                }
                ptr.push_back((uint32) idx.size());
            }
            idx.push_back(77);
        }
};

static std::unique_ptr<LabelVectorSet> vf_label_vectors(uint32 nl, uint32 no, const uint8* lv, const uint32* freq) {
    std::unique_ptr<LabelVectorSet> s = std::make_unique<LabelVectorSet>();
    for (uint32 i = 0; i < nl; i++) {
        uint32 m = 0;
        for (uint32 c = 0; c < no; c++) m += lv[i * no + c] != 0;
        std::unique_ptr<LabelVector> v = std::make_unique<LabelVector>(m);
        m = 0;
        for (uint32 c = 0; c < no; c++) {
            if (lv[i * no + c]) v->begin()[m++] = c;
        }
        s->addLabelVector(std::move(v), freq ? freq[i] : 1);
    }
    return s;
}
