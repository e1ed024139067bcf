#include "vf.hpp"
#include "mlrl/common/indices/index_vector_complete.cpp"
#include "mlrl/common/indices/index_vector_partial.cpp"
#include "mlrl/common/iterator/iterator_index.cpp"
#include "mlrl/boosting/data/vector_statistic_decomposable_dense.cpp"
#include "mlrl/boosting/data/vector_statistic_decomposable_sparse.cpp"
#include "mlrl/boosting/data/vector_statistic_non_decomposable_dense.cpp"
#include "mlrl/boosting/data/view_statistic_non_decomposable_dense.cpp"

using namespace boosting;
typedef Tuple<float64> T2;

/* sums of decomposable statistics (dense) */
#define DD T2 *v, uint32 n, T2 *m, uint32 nr, uint32 nc, uint32 row
#define DD_VEC                                                                                                         \
    DenseDecomposableStatisticVector vec(n);                                                                           \
    VF_COPY(vec.begin(), v, n);                                                                                        \
    CContiguousView<T2> view(m, nr, nc)
#define DD_DONE VF_COPY(v, vec.cbegin(), n)
#define PART const uint32 *ind, uint32 np
#define PIX                                                                                                            \
    PartialIndexVector ix(np);                                                                                         \
    VF_COPY(ix.begin(), ind, np)
#define CIX CompleteIndexVector ix(nc)

#define OP(name, extra, pre, call)                                                                                     \
    extern "C" void h_dd_##name(DD extra) {                                                                            \
        DD_VEC;                                                                                                        \
        pre;                                                                                                           \
        vec.call;                                                                                                      \
        DD_DONE;                                                                                                       \
    }
#define W , float64 w
#define P , const uint32 *ind, uint32 np
#define WP , float64 w, const uint32 *ind, uint32 np

OP(add, , , add(view, row))
OP(add_w, W, , add(view, row, w))
OP(remove, , , remove(view, row))
OP(remove_w, W, , remove(view, row, w))
OP(subset_c, , CIX, addToSubset(view, row, ix))
OP(subset_c_w, W, CIX, addToSubset(view, row, ix, w))
OP(subset_p, P, PIX, addToSubset(view, row, ix))
OP(subset_p_w, WP, PIX, addToSubset(view, row, ix, w))

extern "C" void h_dd_vec(T2* v, uint32 n, const T2* o) {
    DenseDecomposableStatisticVector vec(n);
    VF_COPY(vec.begin(), v, n);
    DenseDecomposableStatisticVector other(n);
    VF_COPY(other.begin(), o, n);
    DenseDecomposableStatisticVector copy(other);
    vec.add(copy);
    DD_DONE;
}

extern "C" void h_dd_clear(T2* v, uint32 n) {
    DenseDecomposableStatisticVector vec(n);
    VF_COPY(vec.begin(), v, n);
    vec.clear();
    DD_DONE;
}

#define DIFF(first)                                                                                                    \
    DenseDecomposableStatisticVector vec(n), a(first), b(n);                                                           \
    VF_COPY(a.begin(), f, first);                                                                                      \
    VF_COPY(b.begin(), s, n);

extern "C" void h_dd_diff_c(T2* v, uint32 n, const T2* f, const T2* s) {
    DIFF(n)
    CompleteIndexVector ix(n);
    vec.difference(a, ix, b);
    DD_DONE;
}

extern "C" void h_dd_diff_p(T2* v, uint32 n, const T2* f, uint32 nf, const T2* s, PART) {
    DIFF(nf)
    PIX;
    vec.difference(a, ix, b);
    DD_DONE;
}

/* sums of non-decomposable statistics: gradients, Hessians (triangle) */
#define ND float64 *g, uint32 n, float64 *h, uint32 t, float64 *mg, float64 *mh, uint32 nr, uint32 nc, uint32 row
static inline void vf_view(DenseNonDecomposableStatisticView& view, const float64* mg, const float64* mh, uint32 nr, uint32 nc) {
    VF_COPY(view.gradients_begin(0), mg, nr * nc);
    VF_COPY(view.hessians_begin(0), mh, nr * util::triangularNumber(nc));
}
#define ND_VEC                                                                                                         \
    DenseNonDecomposableStatisticVector vec(n);                                                                        \
    VF_COPY(vec.gradients_begin(), g, n);                                                                              \
    VF_COPY(vec.hessians_begin(), h, t);                                                                               \
    DenseNonDecomposableStatisticView view(nr, nc);                                                                    \
    vf_view(view, mg, mh, nr, nc)
#define ND_DONE                                                                                                        \
    VF_COPY(g, vec.gradients_cbegin(), n);                                                                             \
    VF_COPY(h, vec.hessians_cbegin(), t)
#define NOP(name, extra, pre, call)                                                                                    \
    extern "C" void h_nd_##name(ND extra) {                                                                            \
        ND_VEC;                                                                                                        \
        pre;                                                                                                           \
        vec.call;                                                                                                      \
        ND_DONE;                                                                                                       \
    }

NOP(add, , , add(view, row))
NOP(add_w, W, , add(view, row, w))
NOP(remove, , , remove(view, row))
NOP(remove_w, W, , remove(view, row, w))
NOP(subset_c, , CIX, addToSubset(view, row, ix))
NOP(subset_c_w, W, CIX, addToSubset(view, row, ix, w))
NOP(subset_p, P, PIX, addToSubset(view, row, ix))
NOP(subset_p_w, WP, PIX, addToSubset(view, row, ix, w))

extern "C" void h_nd_vec(float64* g, uint32 n, float64* h, uint32 t, const float64* og, const float64* oh) {
    DenseNonDecomposableStatisticVector vec(n), other(n);
    VF_COPY(vec.gradients_begin(), g, n);
    VF_COPY(vec.hessians_begin(), h, t);
    VF_COPY(other.gradients_begin(), og, n);
    VF_COPY(other.hessians_begin(), oh, t);
    DenseNonDecomposableStatisticVector copy(other);
    vec.add(copy);
    ND_DONE;
}

extern "C" void h_nd_clear(float64* g, uint32 n, float64* h, uint32 t) {
    DenseNonDecomposableStatisticVector vec(n);
    VF_COPY(vec.gradients_begin(), g, n);
    VF_COPY(vec.hessians_begin(), h, t);
    vec.clear();
    ND_DONE;
}

#define NDIFF(first, ft)                                                                                               \
    DenseNonDecomposableStatisticVector vec(n), a(first), b(n);                                                        \
    VF_COPY(a.gradients_begin(), fg, first);                                                                           \
    VF_COPY(a.hessians_begin(), fh, ft);                                                                               \
    VF_COPY(b.gradients_begin(), sg, n);                                                                               \
    VF_COPY(b.hessians_begin(), sh, t);

extern "C" void h_nd_diff_c(float64* g, uint32 n, float64* h, uint32 t, const float64* fg, const float64* fh, const float64* sg, const float64* sh) {
    NDIFF(n, t)
    CompleteIndexVector ix(n);
    vec.difference(a, ix, b);
    ND_DONE;
}

extern "C" void h_nd_diff_p(float64* g, uint32 n, float64* h, uint32 t, const float64* fg, uint32 nf, const float64* fh, uint32 ft, const float64* sg, const float64* sh, PART) {
    NDIFF(nf, ft)
    PIX;
    vec.difference(a, ix, b);
    ND_DONE;
}

#ifdef VF_NATIVE
/* sparse statistics: a sequence of operations */
extern "C" void h_sparse(uint32 nr, uint32 nc, const T2* m, uint32 nops, const uint32* ops, const uint32* rows, const float64* ws, PART, T2* out, T2* outp, T2* outd) {
    SparseSetView<T2> view(nr, nc);
    for (uint32 r = 0; r < nr; r++) {
        for (uint32 i = nc; i > 0; i--) {
            if (m[r * nc + i - 1].first != 0) {
                view[r].emplace(i - 1).value = m[r * nc + i - 1];
            }
        }
    }
    SparseDecomposableStatisticVector full(nc, true), part(np, true), tmp(nc, true);
    PIX;
    CompleteIndexVector cx(nc);
    for (uint32 i = 0; i < nops; i++) {
        uint32 r = rows[i];
        float64 w = ws[i];
        switch (ops[i]) {
            case 0: full.add(view, r); part.addToSubset(view, r, ix); break;
            case 1: full.add(view, r, w); part.addToSubset(view, r, ix, w); break;
            case 2: full.remove(view, r); break;
            case 3: full.remove(view, r, w); break;
            case 4: full.addToSubset(view, r, cx); part.addToSubset(view, r, ix); break;
            case 5: full.addToSubset(view, r, cx, w); part.addToSubset(view, r, ix, w); break;
            case 6: tmp.clear(); tmp.add(view, r, w); full.add(tmp); break;
            default: full.clear(); part.clear(); break;
        }
    }
    SparseDecomposableStatisticVector copy(full);
    SparseDecomposableStatisticVector diff(np, true), dc(nc, true);
    diff.difference(copy, ix, part);
    tmp.clear();
    tmp.add(view, 0, 2.0);
    dc.difference(copy, cx, tmp);
    for (uint32 i = 0; i < nc; i++) {
        out[i] = full.cbegin()[i];
        out[nc + i] = dc.cbegin()[i];
    }
    uint32 i = 0;
    for (auto it = part.cbegin(); it != part.cend(); it++, i++) {
        outp[i] = *it;
        outd[i] = diff.cbegin()[i];
    }
}
#endif
