/* generated by tools/gencfg.py from the table of settings */
#include "vf.hpp"
#include <stdexcept>
#ifdef VF_G_B
#include "mlrl/boosting/rule_evaluation/regularization_manual.cpp"
#include "mlrl/boosting/rule_evaluation/head_type_partial_dynamic.cpp"
#include "mlrl/boosting/rule_evaluation/head_type_partial_fixed.cpp"
#include "mlrl/boosting/post_processing/shrinkage_constant.cpp"
#include "mlrl/boosting/binning/label_binning_equal_width.cpp"
using namespace boosting;
extern "C" void c_ManualRegularizationConfig_RegularizationWeight(float64 v, float64* out) {
    ManualRegularizationConfig c;
    c.setRegularizationWeight(v);
    *out = c.getRegularizationWeight();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_ManualRegularizationConfig_RegularizationWeight(float64 v, float64* out) {
    ManualRegularizationConfig c;
    float64 before = c.getRegularizationWeight();
    try {
        c.setRegularizationWeight(v);
    } catch (const std::invalid_argument&) {
        return c.getRegularizationWeight() == before ? 1 : 3;
    }
    *out = c.getRegularizationWeight();
    return 0;
}
#endif
extern "C" void c_DynamicPartialHeadConfig_Threshold(float32 v, float32* out) {
    DynamicPartialHeadConfig c(ReadableProperty<ILabelBinningConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    c.setThreshold(v);
    *out = c.getThreshold();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_DynamicPartialHeadConfig_Threshold(float32 v, float32* out) {
    DynamicPartialHeadConfig c(ReadableProperty<ILabelBinningConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    float32 before = c.getThreshold();
    try {
        c.setThreshold(v);
    } catch (const std::invalid_argument&) {
        return c.getThreshold() == before ? 1 : 3;
    }
    *out = c.getThreshold();
    return 0;
}
#endif
extern "C" void c_DynamicPartialHeadConfig_Exponent(float32 v, float32* out) {
    DynamicPartialHeadConfig c(ReadableProperty<ILabelBinningConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    c.setExponent(v);
    *out = c.getExponent();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_DynamicPartialHeadConfig_Exponent(float32 v, float32* out) {
    DynamicPartialHeadConfig c(ReadableProperty<ILabelBinningConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    float32 before = c.getExponent();
    try {
        c.setExponent(v);
    } catch (const std::invalid_argument&) {
        return c.getExponent() == before ? 1 : 3;
    }
    *out = c.getExponent();
    return 0;
}
#endif
extern "C" void c_FixedPartialHeadConfig_OutputRatio(float32 v, float32* out) {
    FixedPartialHeadConfig c(ReadableProperty<ILabelBinningConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    c.setOutputRatio(v);
    *out = c.getOutputRatio();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_FixedPartialHeadConfig_OutputRatio(float32 v, float32* out) {
    FixedPartialHeadConfig c(ReadableProperty<ILabelBinningConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    float32 before = c.getOutputRatio();
    try {
        c.setOutputRatio(v);
    } catch (const std::invalid_argument&) {
        return c.getOutputRatio() == before ? 1 : 3;
    }
    *out = c.getOutputRatio();
    return 0;
}
#endif
extern "C" void c_FixedPartialHeadConfig_MinOutputs(uint32 v, uint32* out) {
    FixedPartialHeadConfig c(ReadableProperty<ILabelBinningConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    c.setMinOutputs(v);
    *out = c.getMinOutputs();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_FixedPartialHeadConfig_MinOutputs(uint32 v, uint32* out) {
    FixedPartialHeadConfig c(ReadableProperty<ILabelBinningConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    uint32 before = c.getMinOutputs();
    try {
        c.setMinOutputs(v);
    } catch (const std::invalid_argument&) {
        return c.getMinOutputs() == before ? 1 : 3;
    }
    *out = c.getMinOutputs();
    return 0;
}
#endif
extern "C" void c_FixedPartialHeadConfig_MaxOutputs(uint32 v, uint32 m, uint32* out) {
    FixedPartialHeadConfig c(ReadableProperty<ILabelBinningConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    c.setMinOutputs(m);
    c.setMaxOutputs(v);
    *out = c.getMaxOutputs();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_FixedPartialHeadConfig_MaxOutputs(uint32 v, uint32 m, uint32* out) {
    FixedPartialHeadConfig c(ReadableProperty<ILabelBinningConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    c.setMinOutputs(m);
    uint32 before = c.getMaxOutputs();
    try {
        c.setMaxOutputs(v);
    } catch (const std::invalid_argument&) {
        return c.getMaxOutputs() == before ? 1 : 3;
    }
    *out = c.getMaxOutputs();
    return 0;
}
#endif
extern "C" void c_ConstantShrinkageConfig_Shrinkage(float64 v, float64* out) {
    ConstantShrinkageConfig c;
    c.setShrinkage(v);
    *out = c.getShrinkage();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_ConstantShrinkageConfig_Shrinkage(float64 v, float64* out) {
    ConstantShrinkageConfig c;
    float64 before = c.getShrinkage();
    try {
        c.setShrinkage(v);
    } catch (const std::invalid_argument&) {
        return c.getShrinkage() == before ? 1 : 3;
    }
    *out = c.getShrinkage();
    return 0;
}
#endif
extern "C" void c_EqualWidthLabelBinningConfig_BinRatio(float32 v, float32* out) {
    EqualWidthLabelBinningConfig c(ReadableProperty<IRegularizationConfig>(nullptr), ReadableProperty<IRegularizationConfig>(nullptr));
    c.setBinRatio(v);
    *out = c.getBinRatio();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_EqualWidthLabelBinningConfig_BinRatio(float32 v, float32* out) {
    EqualWidthLabelBinningConfig c(ReadableProperty<IRegularizationConfig>(nullptr), ReadableProperty<IRegularizationConfig>(nullptr));
    float32 before = c.getBinRatio();
    try {
        c.setBinRatio(v);
    } catch (const std::invalid_argument&) {
        return c.getBinRatio() == before ? 1 : 3;
    }
    *out = c.getBinRatio();
    return 0;
}
#endif
extern "C" void c_EqualWidthLabelBinningConfig_MinBins(uint32 v, uint32* out) {
    EqualWidthLabelBinningConfig c(ReadableProperty<IRegularizationConfig>(nullptr), ReadableProperty<IRegularizationConfig>(nullptr));
    c.setMinBins(v);
    *out = c.getMinBins();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_EqualWidthLabelBinningConfig_MinBins(uint32 v, uint32* out) {
    EqualWidthLabelBinningConfig c(ReadableProperty<IRegularizationConfig>(nullptr), ReadableProperty<IRegularizationConfig>(nullptr));
    uint32 before = c.getMinBins();
    try {
        c.setMinBins(v);
    } catch (const std::invalid_argument&) {
        return c.getMinBins() == before ? 1 : 3;
    }
    *out = c.getMinBins();
    return 0;
}
#endif
extern "C" void c_EqualWidthLabelBinningConfig_MaxBins(uint32 v, uint32 m, uint32* out) {
    EqualWidthLabelBinningConfig c(ReadableProperty<IRegularizationConfig>(nullptr), ReadableProperty<IRegularizationConfig>(nullptr));
    c.setMinBins(m);
    c.setMaxBins(v);
    *out = c.getMaxBins();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_EqualWidthLabelBinningConfig_MaxBins(uint32 v, uint32 m, uint32* out) {
    EqualWidthLabelBinningConfig c(ReadableProperty<IRegularizationConfig>(nullptr), ReadableProperty<IRegularizationConfig>(nullptr));
    c.setMinBins(m);
    uint32 before = c.getMaxBins();
    try {
        c.setMaxBins(v);
    } catch (const std::invalid_argument&) {
        return c.getMaxBins() == before ? 1 : 3;
    }
    *out = c.getMaxBins();
    return 0;
}
#endif
#endif
#ifdef VF_G_C
#include "mlrl/common/multi_threading/multi_threading_manual.cpp"
#include "mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp"
#include "mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp"
#include "mlrl/common/input/feature_binning_equal_width.cpp"
extern "C" void c_ManualMultiThreadingConfig_NumPreferredThreads(uint32 v, uint32* out) {
    ManualMultiThreadingConfig c;
    c.setNumPreferredThreads(v);
    *out = c.getNumPreferredThreads();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_ManualMultiThreadingConfig_NumPreferredThreads(uint32 v, uint32* out) {
    ManualMultiThreadingConfig c;
    uint32 before = c.getNumPreferredThreads();
    try {
        c.setNumPreferredThreads(v);
    } catch (const std::invalid_argument&) {
        return c.getNumPreferredThreads() == before ? 1 : 3;
    }
    *out = c.getNumPreferredThreads();
    return 0;
}
#endif
extern "C" void c_BeamSearchTopDownRuleInductionConfig_BeamWidth(uint32 v, uint32* out) {
    BeamSearchTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    c.setBeamWidth(v);
    *out = c.getBeamWidth();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_BeamSearchTopDownRuleInductionConfig_BeamWidth(uint32 v, uint32* out) {
    BeamSearchTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    uint32 before = c.getBeamWidth();
    try {
        c.setBeamWidth(v);
    } catch (const std::invalid_argument&) {
        return c.getBeamWidth() == before ? 1 : 3;
    }
    *out = c.getBeamWidth();
    return 0;
}
#endif
extern "C" void c_BeamSearchTopDownRuleInductionConfig_ResampleFeatures(bool v, bool* out) {
    BeamSearchTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    c.setResampleFeatures(v);
    *out = c.areFeaturesResampled();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_BeamSearchTopDownRuleInductionConfig_ResampleFeatures(bool v, bool* out) {
    BeamSearchTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    bool before = c.areFeaturesResampled();
    try {
        c.setResampleFeatures(v);
    } catch (const std::invalid_argument&) {
        return c.areFeaturesResampled() == before ? 1 : 3;
    }
    *out = c.areFeaturesResampled();
    return 0;
}
#endif
extern "C" void c_BeamSearchTopDownRuleInductionConfig_MinCoverage(uint32 v, uint32* out) {
    BeamSearchTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    c.setMinCoverage(v);
    *out = c.getMinCoverage();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_BeamSearchTopDownRuleInductionConfig_MinCoverage(uint32 v, uint32* out) {
    BeamSearchTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    uint32 before = c.getMinCoverage();
    try {
        c.setMinCoverage(v);
    } catch (const std::invalid_argument&) {
        return c.getMinCoverage() == before ? 1 : 3;
    }
    *out = c.getMinCoverage();
    return 0;
}
#endif
extern "C" void c_BeamSearchTopDownRuleInductionConfig_MinSupport(float32 v, float32* out) {
    BeamSearchTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    c.setMinSupport(v);
    *out = c.getMinSupport();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_BeamSearchTopDownRuleInductionConfig_MinSupport(float32 v, float32* out) {
    BeamSearchTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    float32 before = c.getMinSupport();
    try {
        c.setMinSupport(v);
    } catch (const std::invalid_argument&) {
        return c.getMinSupport() == before ? 1 : 3;
    }
    *out = c.getMinSupport();
    return 0;
}
#endif
extern "C" void c_BeamSearchTopDownRuleInductionConfig_MaxConditions(uint32 v, uint32* out) {
    BeamSearchTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    c.setMaxConditions(v);
    *out = c.getMaxConditions();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_BeamSearchTopDownRuleInductionConfig_MaxConditions(uint32 v, uint32* out) {
    BeamSearchTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    uint32 before = c.getMaxConditions();
    try {
        c.setMaxConditions(v);
    } catch (const std::invalid_argument&) {
        return c.getMaxConditions() == before ? 1 : 3;
    }
    *out = c.getMaxConditions();
    return 0;
}
#endif
extern "C" void c_BeamSearchTopDownRuleInductionConfig_MaxHeadRefinements(uint32 v, uint32* out) {
    BeamSearchTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    c.setMaxHeadRefinements(v);
    *out = c.getMaxHeadRefinements();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_BeamSearchTopDownRuleInductionConfig_MaxHeadRefinements(uint32 v, uint32* out) {
    BeamSearchTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    uint32 before = c.getMaxHeadRefinements();
    try {
        c.setMaxHeadRefinements(v);
    } catch (const std::invalid_argument&) {
        return c.getMaxHeadRefinements() == before ? 1 : 3;
    }
    *out = c.getMaxHeadRefinements();
    return 0;
}
#endif
extern "C" void c_BeamSearchTopDownRuleInductionConfig_RecalculatePredictions(bool v, bool* out) {
    BeamSearchTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    c.setRecalculatePredictions(v);
    *out = c.arePredictionsRecalculated();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_BeamSearchTopDownRuleInductionConfig_RecalculatePredictions(bool v, bool* out) {
    BeamSearchTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    bool before = c.arePredictionsRecalculated();
    try {
        c.setRecalculatePredictions(v);
    } catch (const std::invalid_argument&) {
        return c.arePredictionsRecalculated() == before ? 1 : 3;
    }
    *out = c.arePredictionsRecalculated();
    return 0;
}
#endif
extern "C" void c_GreedyTopDownRuleInductionConfig_MinCoverage(uint32 v, uint32* out) {
    GreedyTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    c.setMinCoverage(v);
    *out = c.getMinCoverage();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_GreedyTopDownRuleInductionConfig_MinCoverage(uint32 v, uint32* out) {
    GreedyTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    uint32 before = c.getMinCoverage();
    try {
        c.setMinCoverage(v);
    } catch (const std::invalid_argument&) {
        return c.getMinCoverage() == before ? 1 : 3;
    }
    *out = c.getMinCoverage();
    return 0;
}
#endif
extern "C" void c_GreedyTopDownRuleInductionConfig_MinSupport(float32 v, float32* out) {
    GreedyTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    c.setMinSupport(v);
    *out = c.getMinSupport();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_GreedyTopDownRuleInductionConfig_MinSupport(float32 v, float32* out) {
    GreedyTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    float32 before = c.getMinSupport();
    try {
        c.setMinSupport(v);
    } catch (const std::invalid_argument&) {
        return c.getMinSupport() == before ? 1 : 3;
    }
    *out = c.getMinSupport();
    return 0;
}
#endif
extern "C" void c_GreedyTopDownRuleInductionConfig_MaxConditions(uint32 v, uint32* out) {
    GreedyTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    c.setMaxConditions(v);
    *out = c.getMaxConditions();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_GreedyTopDownRuleInductionConfig_MaxConditions(uint32 v, uint32* out) {
    GreedyTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    uint32 before = c.getMaxConditions();
    try {
        c.setMaxConditions(v);
    } catch (const std::invalid_argument&) {
        return c.getMaxConditions() == before ? 1 : 3;
    }
    *out = c.getMaxConditions();
    return 0;
}
#endif
extern "C" void c_GreedyTopDownRuleInductionConfig_MaxHeadRefinements(uint32 v, uint32* out) {
    GreedyTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    c.setMaxHeadRefinements(v);
    *out = c.getMaxHeadRefinements();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_GreedyTopDownRuleInductionConfig_MaxHeadRefinements(uint32 v, uint32* out) {
    GreedyTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    uint32 before = c.getMaxHeadRefinements();
    try {
        c.setMaxHeadRefinements(v);
    } catch (const std::invalid_argument&) {
        return c.getMaxHeadRefinements() == before ? 1 : 3;
    }
    *out = c.getMaxHeadRefinements();
    return 0;
}
#endif
extern "C" void c_GreedyTopDownRuleInductionConfig_RecalculatePredictions(bool v, bool* out) {
    GreedyTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    c.setRecalculatePredictions(v);
    *out = c.arePredictionsRecalculated();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_GreedyTopDownRuleInductionConfig_RecalculatePredictions(bool v, bool* out) {
    GreedyTopDownRuleInductionConfig c(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr));
    bool before = c.arePredictionsRecalculated();
    try {
        c.setRecalculatePredictions(v);
    } catch (const std::invalid_argument&) {
        return c.arePredictionsRecalculated() == before ? 1 : 3;
    }
    *out = c.arePredictionsRecalculated();
    return 0;
}
#endif
extern "C" void c_EqualWidthFeatureBinningConfig_BinRatio(float32 v, float32* out) {
    EqualWidthFeatureBinningConfig c;
    c.setBinRatio(v);
    *out = c.getBinRatio();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_EqualWidthFeatureBinningConfig_BinRatio(float32 v, float32* out) {
    EqualWidthFeatureBinningConfig c;
    float32 before = c.getBinRatio();
    try {
        c.setBinRatio(v);
    } catch (const std::invalid_argument&) {
        return c.getBinRatio() == before ? 1 : 3;
    }
    *out = c.getBinRatio();
    return 0;
}
#endif
extern "C" void c_EqualWidthFeatureBinningConfig_MinBins(uint32 v, uint32* out) {
    EqualWidthFeatureBinningConfig c;
    c.setMinBins(v);
    *out = c.getMinBins();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_EqualWidthFeatureBinningConfig_MinBins(uint32 v, uint32* out) {
    EqualWidthFeatureBinningConfig c;
    uint32 before = c.getMinBins();
    try {
        c.setMinBins(v);
    } catch (const std::invalid_argument&) {
        return c.getMinBins() == before ? 1 : 3;
    }
    *out = c.getMinBins();
    return 0;
}
#endif
extern "C" void c_EqualWidthFeatureBinningConfig_MaxBins(uint32 v, uint32 m, uint32* out) {
    EqualWidthFeatureBinningConfig c;
    c.setMinBins(m);
    c.setMaxBins(v);
    *out = c.getMaxBins();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_EqualWidthFeatureBinningConfig_MaxBins(uint32 v, uint32 m, uint32* out) {
    EqualWidthFeatureBinningConfig c;
    c.setMinBins(m);
    uint32 before = c.getMaxBins();
    try {
        c.setMaxBins(v);
    } catch (const std::invalid_argument&) {
        return c.getMaxBins() == before ? 1 : 3;
    }
    *out = c.getMaxBins();
    return 0;
}
#endif
#endif
#ifdef VF_G_D
#include "mlrl/common/post_optimization/post_optimization_sequential.cpp"
#include "mlrl/common/stopping/global_pruning_post.cpp"
#include "mlrl/common/stopping/global_pruning_pre.cpp"
#include "mlrl/common/stopping/stopping_criterion_size.cpp"
#include "mlrl/common/stopping/stopping_criterion_time.cpp"
#include "mlrl/common/random/rng.cpp"
#include "mlrl/common/sampling/partition_sampling_bi_random.cpp"
extern "C" void c_SequentialPostOptimizationConfig_NumIterations(uint32 v, uint32* out) {
    SequentialPostOptimizationConfig c(ReadableProperty<IRuleInductionConfig>(nullptr));
    c.setNumIterations(v);
    *out = c.getNumIterations();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_SequentialPostOptimizationConfig_NumIterations(uint32 v, uint32* out) {
    SequentialPostOptimizationConfig c(ReadableProperty<IRuleInductionConfig>(nullptr));
    uint32 before = c.getNumIterations();
    try {
        c.setNumIterations(v);
    } catch (const std::invalid_argument&) {
        return c.getNumIterations() == before ? 1 : 3;
    }
    *out = c.getNumIterations();
    return 0;
}
#endif
extern "C" void c_SequentialPostOptimizationConfig_RefineHeads(bool v, bool* out) {
    SequentialPostOptimizationConfig c(ReadableProperty<IRuleInductionConfig>(nullptr));
    c.setRefineHeads(v);
    *out = c.areHeadsRefined();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_SequentialPostOptimizationConfig_RefineHeads(bool v, bool* out) {
    SequentialPostOptimizationConfig c(ReadableProperty<IRuleInductionConfig>(nullptr));
    bool before = c.areHeadsRefined();
    try {
        c.setRefineHeads(v);
    } catch (const std::invalid_argument&) {
        return c.areHeadsRefined() == before ? 1 : 3;
    }
    *out = c.areHeadsRefined();
    return 0;
}
#endif
extern "C" void c_SequentialPostOptimizationConfig_ResampleFeatures(bool v, bool* out) {
    SequentialPostOptimizationConfig c(ReadableProperty<IRuleInductionConfig>(nullptr));
    c.setResampleFeatures(v);
    *out = c.areFeaturesResampled();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_SequentialPostOptimizationConfig_ResampleFeatures(bool v, bool* out) {
    SequentialPostOptimizationConfig c(ReadableProperty<IRuleInductionConfig>(nullptr));
    bool before = c.areFeaturesResampled();
    try {
        c.setResampleFeatures(v);
    } catch (const std::invalid_argument&) {
        return c.areFeaturesResampled() == before ? 1 : 3;
    }
    *out = c.areFeaturesResampled();
    return 0;
}
#endif
extern "C" void c_PostPruningConfig_UseHoldoutSet(bool v, bool* out) {
    PostPruningConfig c;
    c.setUseHoldoutSet(v);
    *out = c.isHoldoutSetUsed();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_PostPruningConfig_UseHoldoutSet(bool v, bool* out) {
    PostPruningConfig c;
    bool before = c.isHoldoutSetUsed();
    try {
        c.setUseHoldoutSet(v);
    } catch (const std::invalid_argument&) {
        return c.isHoldoutSetUsed() == before ? 1 : 3;
    }
    *out = c.isHoldoutSetUsed();
    return 0;
}
#endif
extern "C" void c_PostPruningConfig_RemoveUnusedRules(bool v, bool* out) {
    PostPruningConfig c;
    c.setRemoveUnusedRules(v);
    *out = c.isRemoveUnusedRules();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_PostPruningConfig_RemoveUnusedRules(bool v, bool* out) {
    PostPruningConfig c;
    bool before = c.isRemoveUnusedRules();
    try {
        c.setRemoveUnusedRules(v);
    } catch (const std::invalid_argument&) {
        return c.isRemoveUnusedRules() == before ? 1 : 3;
    }
    *out = c.isRemoveUnusedRules();
    return 0;
}
#endif
extern "C" void c_PostPruningConfig_MinRules(uint32 v, uint32* out) {
    PostPruningConfig c;
    c.setMinRules(v);
    *out = c.getMinRules();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_PostPruningConfig_MinRules(uint32 v, uint32* out) {
    PostPruningConfig c;
    uint32 before = c.getMinRules();
    try {
        c.setMinRules(v);
    } catch (const std::invalid_argument&) {
        return c.getMinRules() == before ? 1 : 3;
    }
    *out = c.getMinRules();
    return 0;
}
#endif
extern "C" void c_PostPruningConfig_Interval(uint32 v, uint32* out) {
    PostPruningConfig c;
    c.setInterval(v);
    *out = c.getInterval();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_PostPruningConfig_Interval(uint32 v, uint32* out) {
    PostPruningConfig c;
    uint32 before = c.getInterval();
    try {
        c.setInterval(v);
    } catch (const std::invalid_argument&) {
        return c.getInterval() == before ? 1 : 3;
    }
    *out = c.getInterval();
    return 0;
}
#endif
extern "C" void c_PrePruningConfig_UseHoldoutSet(bool v, bool* out) {
    PrePruningConfig c;
    c.setUseHoldoutSet(v);
    *out = c.isHoldoutSetUsed();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_PrePruningConfig_UseHoldoutSet(bool v, bool* out) {
    PrePruningConfig c;
    bool before = c.isHoldoutSetUsed();
    try {
        c.setUseHoldoutSet(v);
    } catch (const std::invalid_argument&) {
        return c.isHoldoutSetUsed() == before ? 1 : 3;
    }
    *out = c.isHoldoutSetUsed();
    return 0;
}
#endif
extern "C" void c_PrePruningConfig_RemoveUnusedRules(bool v, bool* out) {
    PrePruningConfig c;
    c.setRemoveUnusedRules(v);
    *out = c.isRemoveUnusedRules();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_PrePruningConfig_RemoveUnusedRules(bool v, bool* out) {
    PrePruningConfig c;
    bool before = c.isRemoveUnusedRules();
    try {
        c.setRemoveUnusedRules(v);
    } catch (const std::invalid_argument&) {
        return c.isRemoveUnusedRules() == before ? 1 : 3;
    }
    *out = c.isRemoveUnusedRules();
    return 0;
}
#endif
extern "C" void c_PrePruningConfig_MinRules(uint32 v, uint32* out) {
    PrePruningConfig c;
    c.setMinRules(v);
    *out = c.getMinRules();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_PrePruningConfig_MinRules(uint32 v, uint32* out) {
    PrePruningConfig c;
    uint32 before = c.getMinRules();
    try {
        c.setMinRules(v);
    } catch (const std::invalid_argument&) {
        return c.getMinRules() == before ? 1 : 3;
    }
    *out = c.getMinRules();
    return 0;
}
#endif
extern "C" void c_PrePruningConfig_UpdateInterval(uint32 v, uint32* out) {
    PrePruningConfig c;
    c.setUpdateInterval(v);
    *out = c.getUpdateInterval();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_PrePruningConfig_UpdateInterval(uint32 v, uint32* out) {
    PrePruningConfig c;
    uint32 before = c.getUpdateInterval();
    try {
        c.setUpdateInterval(v);
    } catch (const std::invalid_argument&) {
        return c.getUpdateInterval() == before ? 1 : 3;
    }
    *out = c.getUpdateInterval();
    return 0;
}
#endif
extern "C" void c_PrePruningConfig_StopInterval(uint32 v, uint32 m, uint32* out) {
    PrePruningConfig c;
    c.setUpdateInterval(m);
    c.setStopInterval(v);
    *out = c.getStopInterval();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_PrePruningConfig_StopInterval(uint32 v, uint32 m, uint32* out) {
    PrePruningConfig c;
    c.setUpdateInterval(m);
    uint32 before = c.getStopInterval();
    try {
        c.setStopInterval(v);
    } catch (const std::invalid_argument&) {
        return c.getStopInterval() == before ? 1 : 3;
    }
    *out = c.getStopInterval();
    return 0;
}
#endif
extern "C" void c_PrePruningConfig_NumPast(uint32 v, uint32* out) {
    PrePruningConfig c;
    c.setNumPast(v);
    *out = c.getNumPast();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_PrePruningConfig_NumPast(uint32 v, uint32* out) {
    PrePruningConfig c;
    uint32 before = c.getNumPast();
    try {
        c.setNumPast(v);
    } catch (const std::invalid_argument&) {
        return c.getNumPast() == before ? 1 : 3;
    }
    *out = c.getNumPast();
    return 0;
}
#endif
extern "C" void c_PrePruningConfig_NumCurrent(uint32 v, uint32* out) {
    PrePruningConfig c;
    c.setNumCurrent(v);
    *out = c.getNumCurrent();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_PrePruningConfig_NumCurrent(uint32 v, uint32* out) {
    PrePruningConfig c;
    uint32 before = c.getNumCurrent();
    try {
        c.setNumCurrent(v);
    } catch (const std::invalid_argument&) {
        return c.getNumCurrent() == before ? 1 : 3;
    }
    *out = c.getNumCurrent();
    return 0;
}
#endif
extern "C" void c_PrePruningConfig_MinImprovement(float64 v, float64* out) {
    PrePruningConfig c;
    c.setMinImprovement(v);
    *out = c.getMinImprovement();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_PrePruningConfig_MinImprovement(float64 v, float64* out) {
    PrePruningConfig c;
    float64 before = c.getMinImprovement();
    try {
        c.setMinImprovement(v);
    } catch (const std::invalid_argument&) {
        return c.getMinImprovement() == before ? 1 : 3;
    }
    *out = c.getMinImprovement();
    return 0;
}
#endif
extern "C" void c_SizeStoppingCriterionConfig_MaxRules(uint32 v, uint32* out) {
    SizeStoppingCriterionConfig c;
    c.setMaxRules(v);
    *out = c.getMaxRules();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_SizeStoppingCriterionConfig_MaxRules(uint32 v, uint32* out) {
    SizeStoppingCriterionConfig c;
    uint32 before = c.getMaxRules();
    try {
        c.setMaxRules(v);
    } catch (const std::invalid_argument&) {
        return c.getMaxRules() == before ? 1 : 3;
    }
    *out = c.getMaxRules();
    return 0;
}
#endif
extern "C" void c_TimeStoppingCriterionConfig_TimeLimit(uint32 v, uint32* out) {
    TimeStoppingCriterionConfig c;
    c.setTimeLimit(v);
    *out = c.getTimeLimit();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_TimeStoppingCriterionConfig_TimeLimit(uint32 v, uint32* out) {
    TimeStoppingCriterionConfig c;
    uint32 before = c.getTimeLimit();
    try {
        c.setTimeLimit(v);
    } catch (const std::invalid_argument&) {
        return c.getTimeLimit() == before ? 1 : 3;
    }
    *out = c.getTimeLimit();
    return 0;
}
#endif
extern "C" void c_RNGConfig_RandomState(uint32 v, uint32* out) {
    RNGConfig c;
    c.setRandomState(v);
    *out = c.getRandomState();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_RNGConfig_RandomState(uint32 v, uint32* out) {
    RNGConfig c;
    uint32 before = c.getRandomState();
    try {
        c.setRandomState(v);
    } catch (const std::invalid_argument&) {
        return c.getRandomState() == before ? 1 : 3;
    }
    *out = c.getRandomState();
    return 0;
}
#endif
extern "C" void c_RandomBiPartitionSamplingConfig_HoldoutSetSize(float32 v, float32* out) {
    RandomBiPartitionSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setHoldoutSetSize(v);
    *out = c.getHoldoutSetSize();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_RandomBiPartitionSamplingConfig_HoldoutSetSize(float32 v, float32* out) {
    RandomBiPartitionSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    float32 before = c.getHoldoutSetSize();
    try {
        c.setHoldoutSetSize(v);
    } catch (const std::invalid_argument&) {
        return c.getHoldoutSetSize() == before ? 1 : 3;
    }
    *out = c.getHoldoutSetSize();
    return 0;
}
#endif
#endif
#ifdef VF_G_E
#include "mlrl/common/sampling/partition_sampling_bi_stratified_output_wise.cpp"
#include "mlrl/common/sampling/partition_sampling_bi_stratified_example_wise.cpp"
#include "mlrl/common/sampling/instance_sampling_stratified_output_wise.cpp"
#include "mlrl/common/sampling/instance_sampling_stratified_example_wise.cpp"
extern "C" void c_OutputWiseStratifiedBiPartitionSamplingConfig_HoldoutSetSize(float32 v, float32* out) {
    OutputWiseStratifiedBiPartitionSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setHoldoutSetSize(v);
    *out = c.getHoldoutSetSize();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_OutputWiseStratifiedBiPartitionSamplingConfig_HoldoutSetSize(float32 v, float32* out) {
    OutputWiseStratifiedBiPartitionSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    float32 before = c.getHoldoutSetSize();
    try {
        c.setHoldoutSetSize(v);
    } catch (const std::invalid_argument&) {
        return c.getHoldoutSetSize() == before ? 1 : 3;
    }
    *out = c.getHoldoutSetSize();
    return 0;
}
#endif
extern "C" void c_ExampleWiseStratifiedBiPartitionSamplingConfig_HoldoutSetSize(float32 v, float32* out) {
    ExampleWiseStratifiedBiPartitionSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setHoldoutSetSize(v);
    *out = c.getHoldoutSetSize();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_ExampleWiseStratifiedBiPartitionSamplingConfig_HoldoutSetSize(float32 v, float32* out) {
    ExampleWiseStratifiedBiPartitionSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    float32 before = c.getHoldoutSetSize();
    try {
        c.setHoldoutSetSize(v);
    } catch (const std::invalid_argument&) {
        return c.getHoldoutSetSize() == before ? 1 : 3;
    }
    *out = c.getHoldoutSetSize();
    return 0;
}
#endif
extern "C" void c_OutputWiseStratifiedInstanceSamplingConfig_SampleSize(float32 v, float32* out) {
    OutputWiseStratifiedInstanceSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setSampleSize(v);
    *out = c.getSampleSize();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_OutputWiseStratifiedInstanceSamplingConfig_SampleSize(float32 v, float32* out) {
    OutputWiseStratifiedInstanceSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    float32 before = c.getSampleSize();
    try {
        c.setSampleSize(v);
    } catch (const std::invalid_argument&) {
        return c.getSampleSize() == before ? 1 : 3;
    }
    *out = c.getSampleSize();
    return 0;
}
#endif
extern "C" void c_OutputWiseStratifiedInstanceSamplingConfig_MinSamples(uint32 v, uint32* out) {
    OutputWiseStratifiedInstanceSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(v);
    *out = c.getMinSamples();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_OutputWiseStratifiedInstanceSamplingConfig_MinSamples(uint32 v, uint32* out) {
    OutputWiseStratifiedInstanceSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    uint32 before = c.getMinSamples();
    try {
        c.setMinSamples(v);
    } catch (const std::invalid_argument&) {
        return c.getMinSamples() == before ? 1 : 3;
    }
    *out = c.getMinSamples();
    return 0;
}
#endif
extern "C" void c_OutputWiseStratifiedInstanceSamplingConfig_MaxSamples(uint32 v, uint32 m, uint32* out) {
    OutputWiseStratifiedInstanceSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(m);
    c.setMaxSamples(v);
    *out = c.getMaxSamples();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_OutputWiseStratifiedInstanceSamplingConfig_MaxSamples(uint32 v, uint32 m, uint32* out) {
    OutputWiseStratifiedInstanceSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(m);
    uint32 before = c.getMaxSamples();
    try {
        c.setMaxSamples(v);
    } catch (const std::invalid_argument&) {
        return c.getMaxSamples() == before ? 1 : 3;
    }
    *out = c.getMaxSamples();
    return 0;
}
#endif
extern "C" void c_ExampleWiseStratifiedInstanceSamplingConfig_SampleSize(float32 v, float32* out) {
    ExampleWiseStratifiedInstanceSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setSampleSize(v);
    *out = c.getSampleSize();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_ExampleWiseStratifiedInstanceSamplingConfig_SampleSize(float32 v, float32* out) {
    ExampleWiseStratifiedInstanceSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    float32 before = c.getSampleSize();
    try {
        c.setSampleSize(v);
    } catch (const std::invalid_argument&) {
        return c.getSampleSize() == before ? 1 : 3;
    }
    *out = c.getSampleSize();
    return 0;
}
#endif
extern "C" void c_ExampleWiseStratifiedInstanceSamplingConfig_MinSamples(uint32 v, uint32* out) {
    ExampleWiseStratifiedInstanceSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(v);
    *out = c.getMinSamples();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_ExampleWiseStratifiedInstanceSamplingConfig_MinSamples(uint32 v, uint32* out) {
    ExampleWiseStratifiedInstanceSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    uint32 before = c.getMinSamples();
    try {
        c.setMinSamples(v);
    } catch (const std::invalid_argument&) {
        return c.getMinSamples() == before ? 1 : 3;
    }
    *out = c.getMinSamples();
    return 0;
}
#endif
extern "C" void c_ExampleWiseStratifiedInstanceSamplingConfig_MaxSamples(uint32 v, uint32 m, uint32* out) {
    ExampleWiseStratifiedInstanceSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(m);
    c.setMaxSamples(v);
    *out = c.getMaxSamples();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_ExampleWiseStratifiedInstanceSamplingConfig_MaxSamples(uint32 v, uint32 m, uint32* out) {
    ExampleWiseStratifiedInstanceSamplingConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(m);
    uint32 before = c.getMaxSamples();
    try {
        c.setMaxSamples(v);
    } catch (const std::invalid_argument&) {
        return c.getMaxSamples() == before ? 1 : 3;
    }
    *out = c.getMaxSamples();
    return 0;
}
#endif
#endif
#ifdef VF_G_F
#include "mlrl/common/sampling/instance_sampling_without_replacement.cpp"
#include "mlrl/common/sampling/output_sampling_without_replacement.cpp"
extern "C" void c_InstanceSamplingWithoutReplacementConfig_SampleSize(float32 v, float32* out) {
    InstanceSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setSampleSize(v);
    *out = c.getSampleSize();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_InstanceSamplingWithoutReplacementConfig_SampleSize(float32 v, float32* out) {
    InstanceSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    float32 before = c.getSampleSize();
    try {
        c.setSampleSize(v);
    } catch (const std::invalid_argument&) {
        return c.getSampleSize() == before ? 1 : 3;
    }
    *out = c.getSampleSize();
    return 0;
}
#endif
extern "C" void c_InstanceSamplingWithoutReplacementConfig_MinSamples(uint32 v, uint32* out) {
    InstanceSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(v);
    *out = c.getMinSamples();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_InstanceSamplingWithoutReplacementConfig_MinSamples(uint32 v, uint32* out) {
    InstanceSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    uint32 before = c.getMinSamples();
    try {
        c.setMinSamples(v);
    } catch (const std::invalid_argument&) {
        return c.getMinSamples() == before ? 1 : 3;
    }
    *out = c.getMinSamples();
    return 0;
}
#endif
extern "C" void c_InstanceSamplingWithoutReplacementConfig_MaxSamples(uint32 v, uint32 m, uint32* out) {
    InstanceSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(m);
    c.setMaxSamples(v);
    *out = c.getMaxSamples();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_InstanceSamplingWithoutReplacementConfig_MaxSamples(uint32 v, uint32 m, uint32* out) {
    InstanceSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(m);
    uint32 before = c.getMaxSamples();
    try {
        c.setMaxSamples(v);
    } catch (const std::invalid_argument&) {
        return c.getMaxSamples() == before ? 1 : 3;
    }
    *out = c.getMaxSamples();
    return 0;
}
#endif
extern "C" void c_OutputSamplingWithoutReplacementConfig_SampleSize(float32 v, float32* out) {
    OutputSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setSampleSize(v);
    *out = c.getSampleSize();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_OutputSamplingWithoutReplacementConfig_SampleSize(float32 v, float32* out) {
    OutputSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    float32 before = c.getSampleSize();
    try {
        c.setSampleSize(v);
    } catch (const std::invalid_argument&) {
        return c.getSampleSize() == before ? 1 : 3;
    }
    *out = c.getSampleSize();
    return 0;
}
#endif
extern "C" void c_OutputSamplingWithoutReplacementConfig_MinSamples(uint32 v, uint32* out) {
    OutputSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(v);
    *out = c.getMinSamples();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_OutputSamplingWithoutReplacementConfig_MinSamples(uint32 v, uint32* out) {
    OutputSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    uint32 before = c.getMinSamples();
    try {
        c.setMinSamples(v);
    } catch (const std::invalid_argument&) {
        return c.getMinSamples() == before ? 1 : 3;
    }
    *out = c.getMinSamples();
    return 0;
}
#endif
extern "C" void c_OutputSamplingWithoutReplacementConfig_MaxSamples(uint32 v, uint32 m, uint32* out) {
    OutputSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(m);
    c.setMaxSamples(v);
    *out = c.getMaxSamples();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_OutputSamplingWithoutReplacementConfig_MaxSamples(uint32 v, uint32 m, uint32* out) {
    OutputSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(m);
    uint32 before = c.getMaxSamples();
    try {
        c.setMaxSamples(v);
    } catch (const std::invalid_argument&) {
        return c.getMaxSamples() == before ? 1 : 3;
    }
    *out = c.getMaxSamples();
    return 0;
}
#endif
#endif
#ifdef VF_G_G
#include "mlrl/common/input/feature_binning_equal_frequency.cpp"
#include "mlrl/common/sampling/instance_sampling_with_replacement.cpp"
#include "mlrl/common/sampling/feature_sampling_without_replacement.cpp"
extern "C" void c_EqualFrequencyFeatureBinningConfig_BinRatio(float32 v, float32* out) {
    EqualFrequencyFeatureBinningConfig c;
    c.setBinRatio(v);
    *out = c.getBinRatio();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_EqualFrequencyFeatureBinningConfig_BinRatio(float32 v, float32* out) {
    EqualFrequencyFeatureBinningConfig c;
    float32 before = c.getBinRatio();
    try {
        c.setBinRatio(v);
    } catch (const std::invalid_argument&) {
        return c.getBinRatio() == before ? 1 : 3;
    }
    *out = c.getBinRatio();
    return 0;
}
#endif
extern "C" void c_EqualFrequencyFeatureBinningConfig_MinBins(uint32 v, uint32* out) {
    EqualFrequencyFeatureBinningConfig c;
    c.setMinBins(v);
    *out = c.getMinBins();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_EqualFrequencyFeatureBinningConfig_MinBins(uint32 v, uint32* out) {
    EqualFrequencyFeatureBinningConfig c;
    uint32 before = c.getMinBins();
    try {
        c.setMinBins(v);
    } catch (const std::invalid_argument&) {
        return c.getMinBins() == before ? 1 : 3;
    }
    *out = c.getMinBins();
    return 0;
}
#endif
extern "C" void c_EqualFrequencyFeatureBinningConfig_MaxBins(uint32 v, uint32 m, uint32* out) {
    EqualFrequencyFeatureBinningConfig c;
    c.setMinBins(m);
    c.setMaxBins(v);
    *out = c.getMaxBins();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_EqualFrequencyFeatureBinningConfig_MaxBins(uint32 v, uint32 m, uint32* out) {
    EqualFrequencyFeatureBinningConfig c;
    c.setMinBins(m);
    uint32 before = c.getMaxBins();
    try {
        c.setMaxBins(v);
    } catch (const std::invalid_argument&) {
        return c.getMaxBins() == before ? 1 : 3;
    }
    *out = c.getMaxBins();
    return 0;
}
#endif
extern "C" void c_InstanceSamplingWithReplacementConfig_SampleSize(float32 v, float32* out) {
    InstanceSamplingWithReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setSampleSize(v);
    *out = c.getSampleSize();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_InstanceSamplingWithReplacementConfig_SampleSize(float32 v, float32* out) {
    InstanceSamplingWithReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    float32 before = c.getSampleSize();
    try {
        c.setSampleSize(v);
    } catch (const std::invalid_argument&) {
        return c.getSampleSize() == before ? 1 : 3;
    }
    *out = c.getSampleSize();
    return 0;
}
#endif
extern "C" void c_InstanceSamplingWithReplacementConfig_MinSamples(uint32 v, uint32* out) {
    InstanceSamplingWithReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(v);
    *out = c.getMinSamples();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_InstanceSamplingWithReplacementConfig_MinSamples(uint32 v, uint32* out) {
    InstanceSamplingWithReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    uint32 before = c.getMinSamples();
    try {
        c.setMinSamples(v);
    } catch (const std::invalid_argument&) {
        return c.getMinSamples() == before ? 1 : 3;
    }
    *out = c.getMinSamples();
    return 0;
}
#endif
extern "C" void c_InstanceSamplingWithReplacementConfig_MaxSamples(uint32 v, uint32 m, uint32* out) {
    InstanceSamplingWithReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(m);
    c.setMaxSamples(v);
    *out = c.getMaxSamples();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_InstanceSamplingWithReplacementConfig_MaxSamples(uint32 v, uint32 m, uint32* out) {
    InstanceSamplingWithReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(m);
    uint32 before = c.getMaxSamples();
    try {
        c.setMaxSamples(v);
    } catch (const std::invalid_argument&) {
        return c.getMaxSamples() == before ? 1 : 3;
    }
    *out = c.getMaxSamples();
    return 0;
}
#endif
extern "C" void c_FeatureSamplingWithoutReplacementConfig_SampleSize(float32 v, float32* out) {
    FeatureSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setSampleSize(v);
    *out = c.getSampleSize();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_FeatureSamplingWithoutReplacementConfig_SampleSize(float32 v, float32* out) {
    FeatureSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    float32 before = c.getSampleSize();
    try {
        c.setSampleSize(v);
    } catch (const std::invalid_argument&) {
        return c.getSampleSize() == before ? 1 : 3;
    }
    *out = c.getSampleSize();
    return 0;
}
#endif
extern "C" void c_FeatureSamplingWithoutReplacementConfig_MinSamples(uint32 v, uint32* out) {
    FeatureSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(v);
    *out = c.getMinSamples();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_FeatureSamplingWithoutReplacementConfig_MinSamples(uint32 v, uint32* out) {
    FeatureSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    uint32 before = c.getMinSamples();
    try {
        c.setMinSamples(v);
    } catch (const std::invalid_argument&) {
        return c.getMinSamples() == before ? 1 : 3;
    }
    *out = c.getMinSamples();
    return 0;
}
#endif
extern "C" void c_FeatureSamplingWithoutReplacementConfig_MaxSamples(uint32 v, uint32 m, uint32* out) {
    FeatureSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(m);
    c.setMaxSamples(v);
    *out = c.getMaxSamples();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_FeatureSamplingWithoutReplacementConfig_MaxSamples(uint32 v, uint32 m, uint32* out) {
    FeatureSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setMinSamples(m);
    uint32 before = c.getMaxSamples();
    try {
        c.setMaxSamples(v);
    } catch (const std::invalid_argument&) {
        return c.getMaxSamples() == before ? 1 : 3;
    }
    *out = c.getMaxSamples();
    return 0;
}
#endif
extern "C" void c_FeatureSamplingWithoutReplacementConfig_NumRetained(uint32 v, uint32* out) {
    FeatureSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    c.setNumRetained(v);
    *out = c.getNumRetained();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_FeatureSamplingWithoutReplacementConfig_NumRetained(uint32 v, uint32* out) {
    FeatureSamplingWithoutReplacementConfig c(ReadableProperty<RNGConfig>(nullptr));
    uint32 before = c.getNumRetained();
    try {
        c.setNumRetained(v);
    } catch (const std::invalid_argument&) {
        return c.getNumRetained() == before ? 1 : 3;
    }
    *out = c.getNumRetained();
    return 0;
}
#endif
#endif
#ifdef VF_G_P
#include "mlrl/common/prediction/probability_calibration_no.cpp"
#include "mlrl/boosting/prediction/predictor_binary_example_wise.cpp"
using namespace boosting;
extern "C" void c_ExampleWiseBinaryPredictorConfig_BasedOnProbabilities(bool v, bool* out) {
    ExampleWiseBinaryPredictorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    c.setBasedOnProbabilities(v);
    *out = c.isBasedOnProbabilities();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_ExampleWiseBinaryPredictorConfig_BasedOnProbabilities(bool v, bool* out) {
    ExampleWiseBinaryPredictorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    bool before = c.isBasedOnProbabilities();
    try {
        c.setBasedOnProbabilities(v);
    } catch (const std::invalid_argument&) {
        return c.isBasedOnProbabilities() == before ? 1 : 3;
    }
    *out = c.isBasedOnProbabilities();
    return 0;
}
#endif
extern "C" void c_ExampleWiseBinaryPredictorConfig_UseProbabilityCalibrationModel(bool v, bool* out) {
    ExampleWiseBinaryPredictorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    c.setUseProbabilityCalibrationModel(v);
    *out = c.isProbabilityCalibrationModelUsed();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_ExampleWiseBinaryPredictorConfig_UseProbabilityCalibrationModel(bool v, bool* out) {
    ExampleWiseBinaryPredictorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    bool before = c.isProbabilityCalibrationModelUsed();
    try {
        c.setUseProbabilityCalibrationModel(v);
    } catch (const std::invalid_argument&) {
        return c.isProbabilityCalibrationModelUsed() == before ? 1 : 3;
    }
    *out = c.isProbabilityCalibrationModelUsed();
    return 0;
}
#endif
#endif
#ifdef VF_G_Q
#include "mlrl/common/prediction/probability_calibration_no.cpp"
#include "mlrl/boosting/prediction/predictor_binary_output_wise.cpp"
using namespace boosting;
extern "C" void c_OutputWiseBinaryPredictorConfig_BasedOnProbabilities(bool v, bool* out) {
    OutputWiseBinaryPredictorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    c.setBasedOnProbabilities(v);
    *out = c.isBasedOnProbabilities();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_OutputWiseBinaryPredictorConfig_BasedOnProbabilities(bool v, bool* out) {
    OutputWiseBinaryPredictorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    bool before = c.isBasedOnProbabilities();
    try {
        c.setBasedOnProbabilities(v);
    } catch (const std::invalid_argument&) {
        return c.isBasedOnProbabilities() == before ? 1 : 3;
    }
    *out = c.isBasedOnProbabilities();
    return 0;
}
#endif
extern "C" void c_OutputWiseBinaryPredictorConfig_UseProbabilityCalibrationModel(bool v, bool* out) {
    OutputWiseBinaryPredictorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    c.setUseProbabilityCalibrationModel(v);
    *out = c.isProbabilityCalibrationModelUsed();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_OutputWiseBinaryPredictorConfig_UseProbabilityCalibrationModel(bool v, bool* out) {
    OutputWiseBinaryPredictorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    bool before = c.isProbabilityCalibrationModelUsed();
    try {
        c.setUseProbabilityCalibrationModel(v);
    } catch (const std::invalid_argument&) {
        return c.isProbabilityCalibrationModelUsed() == before ? 1 : 3;
    }
    *out = c.isProbabilityCalibrationModelUsed();
    return 0;
}
#endif
#endif
#ifdef VF_G_R
#include "mlrl/common/prediction/probability_calibration_no.cpp"
#include "mlrl/boosting/prediction/predictor_binary_gfm.cpp"
using namespace boosting;
extern "C" void c_GfmBinaryPredictorConfig_UseProbabilityCalibrationModel(bool v, bool* out) {
    GfmBinaryPredictorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    c.setUseProbabilityCalibrationModel(v);
    *out = c.isProbabilityCalibrationModelUsed();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_GfmBinaryPredictorConfig_UseProbabilityCalibrationModel(bool v, bool* out) {
    GfmBinaryPredictorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    bool before = c.isProbabilityCalibrationModelUsed();
    try {
        c.setUseProbabilityCalibrationModel(v);
    } catch (const std::invalid_argument&) {
        return c.isProbabilityCalibrationModelUsed() == before ? 1 : 3;
    }
    *out = c.isProbabilityCalibrationModelUsed();
    return 0;
}
#endif
#endif
#ifdef VF_G_S
#include "mlrl/seco/heuristics/heuristic_f_measure.cpp"
#include "mlrl/seco/heuristics/heuristic_m_estimate.cpp"
#include "mlrl/seco/lift_functions/lift_function_kln.cpp"
#include "mlrl/seco/lift_functions/lift_function_peak.cpp"
#include "mlrl/seco/stopping/stopping_criterion_coverage.cpp"
using namespace seco;
extern "C" void c_FMeasureConfig_Beta(float64 v, float64* out) {
    FMeasureConfig c;
    c.setBeta(v);
    *out = c.getBeta();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_FMeasureConfig_Beta(float64 v, float64* out) {
    FMeasureConfig c;
    float64 before = c.getBeta();
    try {
        c.setBeta(v);
    } catch (const std::invalid_argument&) {
        return c.getBeta() == before ? 1 : 3;
    }
    *out = c.getBeta();
    return 0;
}
#endif
extern "C" void c_MEstimateConfig_M(float64 v, float64* out) {
    MEstimateConfig c;
    c.setM(v);
    *out = c.getM();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_MEstimateConfig_M(float64 v, float64* out) {
    MEstimateConfig c;
    float64 before = c.getM();
    try {
        c.setM(v);
    } catch (const std::invalid_argument&) {
        return c.getM() == before ? 1 : 3;
    }
    *out = c.getM();
    return 0;
}
#endif
extern "C" void c_KlnLiftFunctionConfig_K(float64 v, float64* out) {
    KlnLiftFunctionConfig c;
    c.setK(v);
    *out = c.getK();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_KlnLiftFunctionConfig_K(float64 v, float64* out) {
    KlnLiftFunctionConfig c;
    float64 before = c.getK();
    try {
        c.setK(v);
    } catch (const std::invalid_argument&) {
        return c.getK() == before ? 1 : 3;
    }
    *out = c.getK();
    return 0;
}
#endif
extern "C" void c_PeakLiftFunctionConfig_PeakLabel(uint32 v, uint32* out) {
    PeakLiftFunctionConfig c;
    c.setPeakLabel(v);
    *out = c.getPeakLabel();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_PeakLiftFunctionConfig_PeakLabel(uint32 v, uint32* out) {
    PeakLiftFunctionConfig c;
    uint32 before = c.getPeakLabel();
    try {
        c.setPeakLabel(v);
    } catch (const std::invalid_argument&) {
        return c.getPeakLabel() == before ? 1 : 3;
    }
    *out = c.getPeakLabel();
    return 0;
}
#endif
extern "C" void c_PeakLiftFunctionConfig_MaxLift(float64 v, float64* out) {
    PeakLiftFunctionConfig c;
    c.setMaxLift(v);
    *out = c.getMaxLift();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_PeakLiftFunctionConfig_MaxLift(float64 v, float64* out) {
    PeakLiftFunctionConfig c;
    float64 before = c.getMaxLift();
    try {
        c.setMaxLift(v);
    } catch (const std::invalid_argument&) {
        return c.getMaxLift() == before ? 1 : 3;
    }
    *out = c.getMaxLift();
    return 0;
}
#endif
extern "C" void c_PeakLiftFunctionConfig_Curvature(float64 v, float64* out) {
    PeakLiftFunctionConfig c;
    c.setCurvature(v);
    *out = c.getCurvature();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_PeakLiftFunctionConfig_Curvature(float64 v, float64* out) {
    PeakLiftFunctionConfig c;
    float64 before = c.getCurvature();
    try {
        c.setCurvature(v);
    } catch (const std::invalid_argument&) {
        return c.getCurvature() == before ? 1 : 3;
    }
    *out = c.getCurvature();
    return 0;
}
#endif
extern "C" void c_CoverageStoppingCriterionConfig_Threshold(float64 v, float64* out) {
    CoverageStoppingCriterionConfig c;
    c.setThreshold(v);
    *out = c.getThreshold();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_CoverageStoppingCriterionConfig_Threshold(float64 v, float64* out) {
    CoverageStoppingCriterionConfig c;
    float64 before = c.getThreshold();
    try {
        c.setThreshold(v);
    } catch (const std::invalid_argument&) {
        return c.getThreshold() == before ? 1 : 3;
    }
    *out = c.getThreshold();
    return 0;
}
#endif
#endif
#ifdef VF_G_T
#include "mlrl/common/prediction/probability_calibration_no.cpp"
#include "mlrl/boosting/prediction/predictor_probability_marginalized.cpp"
using namespace boosting;
extern "C" void c_MarginalizedProbabilityPredictorConfig_UseProbabilityCalibrationModel(bool v, bool* out) {
    MarginalizedProbabilityPredictorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    c.setUseProbabilityCalibrationModel(v);
    *out = c.isProbabilityCalibrationModelUsed();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_MarginalizedProbabilityPredictorConfig_UseProbabilityCalibrationModel(bool v, bool* out) {
    MarginalizedProbabilityPredictorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    bool before = c.isProbabilityCalibrationModelUsed();
    try {
        c.setUseProbabilityCalibrationModel(v);
    } catch (const std::invalid_argument&) {
        return c.isProbabilityCalibrationModelUsed() == before ? 1 : 3;
    }
    *out = c.isProbabilityCalibrationModelUsed();
    return 0;
}
#endif
#endif
#ifdef VF_G_U
#include "mlrl/common/prediction/probability_calibration_no.cpp"
#include "mlrl/boosting/prediction/predictor_probability_output_wise.cpp"
using namespace boosting;
extern "C" void c_OutputWiseProbabilityPredictorConfig_UseProbabilityCalibrationModel(bool v, bool* out) {
    OutputWiseProbabilityPredictorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    c.setUseProbabilityCalibrationModel(v);
    *out = c.isProbabilityCalibrationModelUsed();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_OutputWiseProbabilityPredictorConfig_UseProbabilityCalibrationModel(bool v, bool* out) {
    OutputWiseProbabilityPredictorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr));
    bool before = c.isProbabilityCalibrationModelUsed();
    try {
        c.setUseProbabilityCalibrationModel(v);
    } catch (const std::invalid_argument&) {
        return c.isProbabilityCalibrationModelUsed() == before ? 1 : 3;
    }
    *out = c.isProbabilityCalibrationModelUsed();
    return 0;
}
#endif
#endif
#ifdef VF_G_V
#include "mlrl/boosting/prediction/probability_calibration_isotonic.cpp"
using namespace boosting;
extern "C" void c_IsotonicMarginalProbabilityCalibratorConfig_UseHoldoutSet(bool v, bool* out) {
    IsotonicMarginalProbabilityCalibratorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr));
    c.setUseHoldoutSet(v);
    *out = c.isHoldoutSetUsed();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_IsotonicMarginalProbabilityCalibratorConfig_UseHoldoutSet(bool v, bool* out) {
    IsotonicMarginalProbabilityCalibratorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr));
    bool before = c.isHoldoutSetUsed();
    try {
        c.setUseHoldoutSet(v);
    } catch (const std::invalid_argument&) {
        return c.isHoldoutSetUsed() == before ? 1 : 3;
    }
    *out = c.isHoldoutSetUsed();
    return 0;
}
#endif
extern "C" void c_IsotonicJointProbabilityCalibratorConfig_UseHoldoutSet(bool v, bool* out) {
    IsotonicJointProbabilityCalibratorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr));
    c.setUseHoldoutSet(v);
    *out = c.isHoldoutSetUsed();
}
#ifdef VF_NATIVE
extern "C" uint32 nc_IsotonicJointProbabilityCalibratorConfig_UseHoldoutSet(bool v, bool* out) {
    IsotonicJointProbabilityCalibratorConfig c(ReadableProperty<IClassificationLossConfig>(nullptr));
    bool before = c.isHoldoutSetUsed();
    try {
        c.setUseHoldoutSet(v);
    } catch (const std::invalid_argument&) {
        return c.isHoldoutSetUsed() == before ? 1 : 3;
    }
    *out = c.isHoldoutSetUsed();
    return 0;
}
#endif
#endif
