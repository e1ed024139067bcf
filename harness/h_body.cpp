#include "vf.hpp"
#include "mlrl/common/model/body_conjunctive.cpp"
#include "mlrl/common/model/body_empty.cpp"

static inline void vf_body(ConjunctiveBody& b, const uint32* i0, const float32* t0, const uint32* i1, const float32* t1,
                           const uint32* i2, const int32* t2, const uint32* i3, const int32* t3, const uint32* i4,
                           const int32* t4, const uint32* i5, const int32* t5) {
    VF_COPY(b.numerical_leq_indices_begin(), i0, b.getNumNumericalLeq());
    VF_COPY(b.numerical_leq_thresholds_begin(), t0, b.getNumNumericalLeq());
    VF_COPY(b.numerical_gr_indices_begin(), i1, b.getNumNumericalGr());
    VF_COPY(b.numerical_gr_thresholds_begin(), t1, b.getNumNumericalGr());
    VF_COPY(b.ordinal_leq_indices_begin(), i2, b.getNumOrdinalLeq());
    VF_COPY(b.ordinal_leq_thresholds_begin(), t2, b.getNumOrdinalLeq());
    VF_COPY(b.ordinal_gr_indices_begin(), i3, b.getNumOrdinalGr());
    VF_COPY(b.ordinal_gr_thresholds_begin(), t3, b.getNumOrdinalGr());
    VF_COPY(b.nominal_eq_indices_begin(), i4, b.getNumNominalEq());
    VF_COPY(b.nominal_eq_thresholds_begin(), t4, b.getNumNominalEq());
    VF_COPY(b.nominal_neq_indices_begin(), i5, b.getNumNominalNeq());
    VF_COPY(b.nominal_neq_thresholds_begin(), t5, b.getNumNominalNeq());
}

#define BODY_PARAMS                                                                                                    \
    uint32 n0, const uint32 *i0, const float32 *t0, uint32 n1, const uint32 *i1, const float32 *t1, uint32 n2,          \
      const uint32 *i2, const int32 *t2, uint32 n3, const uint32 *i3, const int32 *t3, uint32 n4, const uint32 *i4,     \
      const int32 *t4, uint32 n5, const uint32 *i5, const int32 *t5
#define BODY_INIT                                                                                                      \
    ConjunctiveBody body(n0, n1, n2, n3, n4, n5);                                                                      \
    vf_body(body, i0, t0, i1, t1, i2, t2, i3, t3, i4, t4, i5, t5)

extern "C" bool h_covers_dense(BODY_PARAMS, const float32* row, uint32 nf) {
    BODY_INIT;
    return body.covers(row, row + nf);
}

extern "C" bool h_covers_sparse(BODY_PARAMS, uint32* idx, float32* val, uint32 nd, float32 sparseValue, float32* tmp1,
                                uint32* tmp2, uint32 n, uint32 nf) {
    BODY_INIT;
    return body.covers(idx, idx + nd, val, val + nd, sparseValue, tmp1, tmp2, n);
}

extern "C" bool h_empty_dense(const float32* row, uint32 nf) {
    EmptyBody b;
    return b.covers(row, row + nf);
}

extern "C" bool h_empty_sparse(uint32* idx, float32* val, uint32 nd, float32 sparseValue, float32* tmp1, uint32* tmp2,
                               uint32 n, uint32 nf) {
    EmptyBody b;
    return b.covers(idx, idx + nd, val, val + nd, sparseValue, tmp1, tmp2, n);
}
