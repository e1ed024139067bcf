#include "vf.hpp"
#include "mlrl/common/prediction/probability_calibration_isotonic.cpp"

/* the memory layout of a std::vector */
struct VfVector {
        const void* begin;
        const void* end;
        const void* capacity;
};

extern "C" float64 h_calibrate(uint32 n, const Tuple<float64>* bins, float64 p) {
    VfVector v {bins, bins + n, bins + n};
    return calibrateProbability(reinterpret_cast<const std::vector<Tuple<float64>>&>(v), p);
}

extern "C" void h_calibrate_pair(uint32 n, const float64* thr, const float64* prob, float64 p, float64 q, bool joint, float64* out) {
    IsotonicProbabilityCalibrationModel m(2);
    for (uint32 i = 0; i < n; i++) m.addBin(1, thr[i], prob[i]);
    m.addBin(0, 1, 1);
    m.fit();
    out[0] = joint ? m.calibrateJointProbability(1, p) : m.calibrateMarginalProbability(1, p);
    out[1] = joint ? m.calibrateJointProbability(1, q) : m.calibrateMarginalProbability(1, q);
}

/* fits several lists of bins and reads the result back through the visitor */
extern "C" uint32 h_fit(uint32 n, const float64* thr, const float64* prob, float64* outThr, float64* outProb) {
    IsotonicProbabilityCalibrationModel m(2);
    m.addBin(0, 0.5, 0.25);
    for (uint32 i = 0; i < n; i++) m.addBin(1, thr[i], prob[i]);
    m.fit();
    uint32 cnt = 0, bad = m.getNumBinLists() != 2, first = 0;
    m.visit([&](uint32 list, float64 t, float64 p) {
        if (list == 0) {
            first++;
            bad |= t != 0.5 || p != 0.25;
        } else if (cnt < n) {
            outThr[cnt] = t;
            outProb[cnt++] = p;
        } else {
            bad = 1;
        }
    });
    return bad || first != 1 ? 99 : cnt;
}
