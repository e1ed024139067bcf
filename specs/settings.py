# (group, configuration, setting, type, admissible values, smallest value of the setting it depends on)
SETTINGS = [
    ('b', 'ManualRegularizationConfig', 'RegularizationWeight', 'f64', 'gt0', None),
    ('b', 'DynamicPartialHeadConfig', 'Threshold', 'f32', 'oi', None),
    ('b', 'DynamicPartialHeadConfig', 'Exponent', 'f32', 'ge1', None),
    ('b', 'FixedPartialHeadConfig', 'OutputRatio', 'f32', 'z_oi', None),
    ('b', 'FixedPartialHeadConfig', 'MinOutputs', 'u32', 'ge2', None),
    ('b', 'FixedPartialHeadConfig', 'MaxOutputs', 'u32', 'max', 2),
    ('b', 'ConstantShrinkageConfig', 'Shrinkage', 'f64', 'oi', None),
    ('b', 'EqualWidthLabelBinningConfig', 'BinRatio', 'f32', 'oi', None),
    ('b', 'EqualWidthLabelBinningConfig', 'MinBins', 'u32', 'ge1', None),
    ('b', 'EqualWidthLabelBinningConfig', 'MaxBins', 'u32', 'max', 1),
    ('c', 'ManualMultiThreadingConfig', 'NumPreferredThreads', 'u32', 'any', None),
    ('c', 'BeamSearchTopDownRuleInductionConfig', 'BeamWidth', 'u32', 'ge2', None),
    ('c', 'BeamSearchTopDownRuleInductionConfig', 'ResampleFeatures', 'bool', 'any', None),
    ('c', 'BeamSearchTopDownRuleInductionConfig', 'MinCoverage', 'u32', 'ge1', None),
    ('c', 'BeamSearchTopDownRuleInductionConfig', 'MinSupport', 'f32', 'z_oi', None),
    ('c', 'BeamSearchTopDownRuleInductionConfig', 'MaxConditions', 'u32', 'z_ge2', None),
    ('c', 'BeamSearchTopDownRuleInductionConfig', 'MaxHeadRefinements', 'u32', 'any', None),
    ('c', 'BeamSearchTopDownRuleInductionConfig', 'RecalculatePredictions', 'bool', 'any', None),
    ('c', 'GreedyTopDownRuleInductionConfig', 'MinCoverage', 'u32', 'ge1', None),
    ('c', 'GreedyTopDownRuleInductionConfig', 'MinSupport', 'f32', 'z_oi', None),
    ('c', 'GreedyTopDownRuleInductionConfig', 'MaxConditions', 'u32', 'any', None),
    ('c', 'GreedyTopDownRuleInductionConfig', 'MaxHeadRefinements', 'u32', 'any', None),
    ('c', 'GreedyTopDownRuleInductionConfig', 'RecalculatePredictions', 'bool', 'any', None),
    ('c', 'EqualWidthFeatureBinningConfig', 'BinRatio', 'f32', 'oi', None),
    ('c', 'EqualWidthFeatureBinningConfig', 'MinBins', 'u32', 'ge2', None),
    ('c', 'EqualWidthFeatureBinningConfig', 'MaxBins', 'u32', 'max', 2),
    ('d', 'SequentialPostOptimizationConfig', 'NumIterations', 'u32', 'ge1', None),
    ('d', 'SequentialPostOptimizationConfig', 'RefineHeads', 'bool', 'any', None),
    ('d', 'SequentialPostOptimizationConfig', 'ResampleFeatures', 'bool', 'any', None),
    ('d', 'PostPruningConfig', 'UseHoldoutSet', 'bool', 'any', None),
    ('d', 'PostPruningConfig', 'RemoveUnusedRules', 'bool', 'any', None),
    ('d', 'PostPruningConfig', 'MinRules', 'u32', 'ge1', None),
    ('d', 'PostPruningConfig', 'Interval', 'u32', 'ge1', None),
    ('d', 'PrePruningConfig', 'UseHoldoutSet', 'bool', 'any', None),
    ('d', 'PrePruningConfig', 'RemoveUnusedRules', 'bool', 'any', None),
    ('d', 'PrePruningConfig', 'MinRules', 'u32', 'ge1', None),
    ('d', 'PrePruningConfig', 'UpdateInterval', 'u32', 'ge1', None),
    ('d', 'PrePruningConfig', 'StopInterval', 'u32', 'mult', 1),
    ('d', 'PrePruningConfig', 'NumPast', 'u32', 'ge1', None),
    ('d', 'PrePruningConfig', 'NumCurrent', 'u32', 'ge1', None),
    ('d', 'PrePruningConfig', 'MinImprovement', 'f64', 'ci', None),
    ('d', 'SizeStoppingCriterionConfig', 'MaxRules', 'u32', 'ge1', None),
    ('d', 'TimeStoppingCriterionConfig', 'TimeLimit', 'u32', 'ge1', None),
    ('d', 'RNGConfig', 'RandomState', 'u32', 'ge1', None),
    ('d', 'RandomBiPartitionSamplingConfig', 'HoldoutSetSize', 'f32', 'oi', None),
    ('e', 'OutputWiseStratifiedBiPartitionSamplingConfig', 'HoldoutSetSize', 'f32', 'oi', None),
    ('e', 'ExampleWiseStratifiedBiPartitionSamplingConfig', 'HoldoutSetSize', 'f32', 'oi', None),
    ('e', 'OutputWiseStratifiedInstanceSamplingConfig', 'SampleSize', 'f32', 'oi', None),
    ('e', 'OutputWiseStratifiedInstanceSamplingConfig', 'MinSamples', 'u32', 'ge1', None),
    ('e', 'OutputWiseStratifiedInstanceSamplingConfig', 'MaxSamples', 'u32', 'max', 1),
    ('e', 'ExampleWiseStratifiedInstanceSamplingConfig', 'SampleSize', 'f32', 'oi', None),
    ('e', 'ExampleWiseStratifiedInstanceSamplingConfig', 'MinSamples', 'u32', 'ge1', None),
    ('e', 'ExampleWiseStratifiedInstanceSamplingConfig', 'MaxSamples', 'u32', 'max', 1),
    ('f', 'InstanceSamplingWithoutReplacementConfig', 'SampleSize', 'f32', 'oi', None),
    ('f', 'InstanceSamplingWithoutReplacementConfig', 'MinSamples', 'u32', 'ge1', None),
    ('f', 'InstanceSamplingWithoutReplacementConfig', 'MaxSamples', 'u32', 'max', 1),
    ('f', 'OutputSamplingWithoutReplacementConfig', 'SampleSize', 'f32', 'oi', None),
    ('f', 'OutputSamplingWithoutReplacementConfig', 'MinSamples', 'u32', 'ge1', None),
    ('f', 'OutputSamplingWithoutReplacementConfig', 'MaxSamples', 'u32', 'max', 1),
    ('g', 'EqualFrequencyFeatureBinningConfig', 'BinRatio', 'f32', 'oi', None),
    ('g', 'EqualFrequencyFeatureBinningConfig', 'MinBins', 'u32', 'ge2', None),
    ('g', 'EqualFrequencyFeatureBinningConfig', 'MaxBins', 'u32', 'max', 2),
    ('g', 'InstanceSamplingWithReplacementConfig', 'SampleSize', 'f32', 'oic', None),
    ('g', 'InstanceSamplingWithReplacementConfig', 'MinSamples', 'u32', 'ge1', None),
    ('g', 'InstanceSamplingWithReplacementConfig', 'MaxSamples', 'u32', 'max', 1),
    ('g', 'FeatureSamplingWithoutReplacementConfig', 'SampleSize', 'f32', 'coi', None),
    ('g', 'FeatureSamplingWithoutReplacementConfig', 'MinSamples', 'u32', 'ge1', None),
    ('g', 'FeatureSamplingWithoutReplacementConfig', 'MaxSamples', 'u32', 'max', 1),
    ('g', 'FeatureSamplingWithoutReplacementConfig', 'NumRetained', 'u32', 'any', None),
    ('p', 'ExampleWiseBinaryPredictorConfig', 'BasedOnProbabilities', 'bool', 'any', None),
    ('p', 'ExampleWiseBinaryPredictorConfig', 'UseProbabilityCalibrationModel', 'bool', 'any', None),
    ('q', 'OutputWiseBinaryPredictorConfig', 'BasedOnProbabilities', 'bool', 'any', None),
    ('q', 'OutputWiseBinaryPredictorConfig', 'UseProbabilityCalibrationModel', 'bool', 'any', None),
    ('r', 'GfmBinaryPredictorConfig', 'UseProbabilityCalibrationModel', 'bool', 'any', None),
    ('s', 'FMeasureConfig', 'Beta', 'f64', 'ge0', None),
    ('s', 'MEstimateConfig', 'M', 'f64', 'ge0', None),
    ('s', 'KlnLiftFunctionConfig', 'K', 'f64', 'gt0', None),
    ('s', 'PeakLiftFunctionConfig', 'PeakLabel', 'u32', 'any', None),
    ('s', 'PeakLiftFunctionConfig', 'MaxLift', 'f64', 'ge1', None),
    ('s', 'PeakLiftFunctionConfig', 'Curvature', 'f64', 'gt0', None),
    ('s', 'CoverageStoppingCriterionConfig', 'Threshold', 'f64', 'ge0', None),
    ('t', 'MarginalizedProbabilityPredictorConfig', 'UseProbabilityCalibrationModel', 'bool', 'any', None),
    ('u', 'OutputWiseProbabilityPredictorConfig', 'UseProbabilityCalibrationModel', 'bool', 'any', None),
    ('v', 'IsotonicMarginalProbabilityCalibratorConfig', 'UseHoldoutSet', 'bool', 'any', None),
    ('v', 'IsotonicJointProbabilityCalibratorConfig', 'UseHoldoutSet', 'bool', 'any', None),
]
