#include "vf.hpp"
#include "mlrl/seco/heuristics/heuristic_accuracy.cpp"
#include "mlrl/seco/heuristics/heuristic_f_measure.cpp"
#include "mlrl/seco/heuristics/heuristic_laplace.cpp"
#include "mlrl/seco/heuristics/heuristic_m_estimate.cpp"
#include "mlrl/seco/heuristics/heuristic_precision.cpp"
#include "mlrl/seco/heuristics/heuristic_recall.cpp"
#include "mlrl/seco/heuristics/heuristic_wra.cpp"

#define CM                                                                                                             \
    float64 cin, float64 cip, float64 crn, float64 crp, float64 uin, float64 uip, float64 urn, float64 urp
#define EVAL(config) (config).createHeuristicFactory()->create()->evaluateConfusionMatrix(cin, cip, crn, crp, uin, uip, urn, urp)

extern "C" float64 h_accuracy(CM) {
    return EVAL(seco::AccuracyConfig());
}

extern "C" float64 h_precision(CM) {
    return EVAL(seco::PrecisionConfig());
}

extern "C" float64 h_recall(CM) {
    return EVAL(seco::RecallConfig());
}

extern "C" float64 h_laplace(CM) {
    return EVAL(seco::LaplaceConfig());
}

extern "C" float64 h_wra(CM) {
    return EVAL(seco::WraConfig());
}

extern "C" float64 h_f_measure(CM, float64 beta) {
    seco::FMeasureConfig config;
    config.setBeta(beta);
    return EVAL(config);
}

extern "C" float64 h_f_measure_inf(CM) {
    seco::FMeasureConfig config;
    config.setBeta(std::numeric_limits<float64>::infinity());
    return EVAL(config);
}

extern "C" float64 h_m_estimate(CM, float64 m) {
    seco::MEstimateConfig config;
    config.setM(m);
    return EVAL(config);
}

extern "C" float64 h_m_estimate_inf(CM) {
    seco::MEstimateConfig config;
    config.setM(std::numeric_limits<float64>::infinity());
    return EVAL(config);
}
