#include "vf.hpp"
#include "mlrl/common/indices/index_vector_complete.cpp"
#include "mlrl/common/indices/index_vector_partial.cpp"
#include "mlrl/common/iterator/iterator_index.cpp"
#include "mlrl/seco/data/matrix_coverage_dense.cpp"
#include "mlrl/seco/data/vector_confusion_matrix_dense.cpp"

using namespace seco;

/* cov: nr x nc coverage counts; maj: ascending indices of labels that are relevant by majority */
#define COV uint32 nr, uint32 nc, uint32 row, uint32 *cov, float64 sum, const uint32 *maj, uint32 nm
#define COV_INIT                                                                                                       \
    DenseCoverageMatrix m(nr, nc, sum);                                                                                \
    VF_COPY(m.values_begin(0), cov, nr* nc)
#define COV_DONE                                                                                                       \
    VF_COPY(cov, m.values_cbegin(0), nr* nc);                                                                          \
    return m.getSumOfUncoveredWeights()

extern "C" float64 h_inc_complete(COV, const float64* pred) {
    COV_INIT;
    CompleteIndexVector ix(nc);
    m.increaseCoverage(row, maj, maj + nm, pred, pred + nc, ix.cbegin(), ix.cend());
    COV_DONE;
}

extern "C" float64 h_dec_complete(COV, const float64* pred) {
    COV_INIT;
    CompleteIndexVector ix(nc);
    m.decreaseCoverage(row, maj, maj + nm, pred, pred + nc, ix.cbegin(), ix.cend());
    COV_DONE;
}

extern "C" float64 h_inc_partial(COV, const float64* pred, const uint32* ind, uint32 np) {
    COV_INIT;
    m.increaseCoverage(row, maj, maj + nm, pred, pred + np, ind, ind + np);
    COV_DONE;
}

extern "C" float64 h_dec_partial(COV, const float64* pred, const uint32* ind, uint32 np) {
    COV_INIT;
    m.decreaseCoverage(row, maj, maj + nm, pred, pred + np, ind, ind + np);
    COV_DONE;
}

/* confusion matrices: v has nv elements */
#define CONF                                                                                                           \
    uint32 nr, uint32 nc, uint32 row, const uint32 *cov, const uint32 *maj, uint32 nm, ConfusionMatrix *v, float64 weight
#define CONF_INIT(num)                                                                                                 \
    DenseCoverageMatrix m(nr, nc, 0);                                                                                  \
    VF_COPY(m.values_begin(0), cov, nr* nc);                                                                           \
    DenseConfusionMatrixVector c(num);                                                                                 \
    VF_COPY(c.begin(), v, num)
#define CONF_DONE(num) VF_COPY(v, c.cbegin(), num)

extern "C" void h_conf_add_dense(CONF, const uint8* lab) {
    CONF_INIT(nc);
    c.add(row, CContiguousView<const uint8>(lab, nr, nc), maj, maj + nm, m, weight);
    CONF_DONE(nc);
}

extern "C" void h_conf_remove_dense(CONF, const uint8* lab) {
    CONF_INIT(nc);
    c.remove(row, CContiguousView<const uint8>(lab, nr, nc), maj, maj + nm, m, weight);
    CONF_DONE(nc);
}

extern "C" void h_conf_subset_complete_dense(CONF, const uint8* lab) {
    CONF_INIT(nc);
    c.addToSubset(row, CContiguousView<const uint8>(lab, nr, nc), maj, maj + nm, m, CompleteIndexVector(nc), weight);
    CONF_DONE(nc);
}

extern "C" void h_conf_subset_partial_dense(CONF, const uint8* lab, const uint32* ind, uint32 np) {
    CONF_INIT(np);
    PartialIndexVector ix(np);
    VF_COPY(ix.begin(), ind, np);
    c.addToSubset(row, CContiguousView<const uint8>(lab, nr, nc), maj, maj + nm, m, ix, weight);
    CONF_DONE(np);
}

/* sparse label matrix: lidx[indptr[row]..indptr[row+1]) are the ascending indices of the relevant labels */
extern "C" void h_conf_add_sparse(CONF, uint32* lidx, uint32* indptr, uint32 nl) {
    CONF_INIT(nc);
    c.add(row, BinaryCsrView(lidx, indptr, nr, nc), maj, maj + nm, m, weight);
    CONF_DONE(nc);
}

extern "C" void h_conf_remove_sparse(CONF, uint32* lidx, uint32* indptr, uint32 nl) {
    CONF_INIT(nc);
    c.remove(row, BinaryCsrView(lidx, indptr, nr, nc), maj, maj + nm, m, weight);
    CONF_DONE(nc);
}

extern "C" void h_conf_subset_complete_sparse(CONF, uint32* lidx, uint32* indptr, uint32 nl) {
    CONF_INIT(nc);
    c.addToSubset(row, BinaryCsrView(lidx, indptr, nr, nc), maj, maj + nm, m, CompleteIndexVector(nc), weight);
    CONF_DONE(nc);
}

extern "C" void h_conf_subset_partial_sparse(CONF, uint32* lidx, uint32* indptr, uint32 nl, const uint32* ind, uint32 np) {
    CONF_INIT(np);
    PartialIndexVector ix(np);
    VF_COPY(ix.begin(), ind, np);
    c.addToSubset(row, BinaryCsrView(lidx, indptr, nr, nc), maj, maj + nm, m, ix, weight);
    CONF_DONE(np);
}

extern "C" void h_conf_sum(uint32 n, ConfusionMatrix* v, const ConfusionMatrix* w) {
    DenseConfusionMatrixVector a(n), b(n);
    VF_COPY(a.begin(), v, n);
    VF_COPY(b.begin(), w, n);
    DenseConfusionMatrixVector c(a);
    c.add(b.cbegin(), b.cend());
    VF_COPY(v, c.cbegin(), n);
}

extern "C" void h_conf_diff_complete(uint32 n, ConfusionMatrix* v, const ConfusionMatrix* a, const ConfusionMatrix* b) {
    DenseConfusionMatrixVector c(n);
    c.difference(a, a + n, CompleteIndexVector(n), b, b + n);
    VF_COPY(v, c.cbegin(), n);
}

extern "C" void h_conf_diff_partial(uint32 n, ConfusionMatrix* v, const ConfusionMatrix* a, const ConfusionMatrix* b,
                                    const uint32* ind, uint32 np) {
    DenseConfusionMatrixVector c(np);
    PartialIndexVector ix(np);
    VF_COPY(ix.begin(), ind, np);
    c.difference(a, a + n, ix, b, b + np);
    VF_COPY(v, c.cbegin(), np);
}

extern "C" void h_conf_clear(uint32 n, ConfusionMatrix* v) {
    DenseConfusionMatrixVector c(n);
    VF_COPY(c.begin(), v, n);
    c.clear();
    VF_COPY(v, c.cbegin(), n);
}
