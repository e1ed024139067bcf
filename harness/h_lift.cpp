#include "vf.hpp"
#include "vf_labels.hpp"
#define calculateLiftInternally calculateKlnLift
#include "mlrl/seco/lift_functions/lift_function_kln.cpp"
#undef calculateLiftInternally
#include "mlrl/seco/lift_functions/lift_function_no.cpp"
#include "mlrl/seco/lift_functions/lift_function_peak.cpp"

/* out[0]: lift of a head with n labels, out[1]: bound used for heads with at least m labels */
static inline void vf_lift(const seco::ILiftFunctionConfig& config, uint32 total, float32 cardinality, uint32 n, uint32 m,
                           float64* out) {
    VfLabelMatrix labels(1, total, cardinality);
    std::unique_ptr<seco::ILiftFunctionFactory> factory = config.createLiftFunctionFactory(labels);
    std::unique_ptr<seco::ILiftFunction> lift = factory->create();
    out[0] = lift->calculateLift(n);
    out[1] = lift->getMaxLift(m);
}

extern "C" void h_lift_peak(uint32 total, float32 cardinality, uint32 peak, float64 maxLift, float64 curvature, uint32 n,
                            uint32 m, float64* out) {
    seco::PeakLiftFunctionConfig config;
    config.setPeakLabel(peak);
    config.setMaxLift(maxLift);
    config.setCurvature(curvature);
    vf_lift(config, total, cardinality, n, m, out);
}

extern "C" void h_lift_kln(uint32 total, float32 cardinality, float64 k, uint32 n, uint32 m, float64* out) {
    seco::KlnLiftFunctionConfig config;
    config.setK(k);
    vf_lift(config, total, cardinality, n, m, out);
}

extern "C" void h_lift_no(uint32 total, float32 cardinality, uint32 n, uint32 m, float64* out) {
    seco::NoLiftFunctionConfig config;
    vf_lift(config, total, cardinality, n, m, out);
}
