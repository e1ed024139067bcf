"""Generates harness/h_config.cpp and specs/settings.py from the table of settings"""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# name, group, config type, ctor, setter, getter, T, kind, prep
C=[]
def add(g, cls, ctor, files, *setters, ns=''):
    C.append((g, cls, ctor, files, setters, ns))
RNG='(ReadableProperty<RNGConfig>(nullptr))'
B='boosting/'; 
add('b','ManualRegularizationConfig','', ['boosting/rule_evaluation/regularization_manual.cpp'], ('RegularizationWeight','f64','gt0'))
add('b','DynamicPartialHeadConfig','(ReadableProperty<ILabelBinningConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr))',['boosting/rule_evaluation/head_type_partial_dynamic.cpp'],('Threshold','f32','oi'),('Exponent','f32','ge1'))
add('b','FixedPartialHeadConfig','(ReadableProperty<ILabelBinningConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr))',['boosting/rule_evaluation/head_type_partial_fixed.cpp'],('OutputRatio','f32','z_oi'),('MinOutputs','u32','ge2'),('MaxOutputs','u32','max','MinOutputs',2))
add('b','ConstantShrinkageConfig','',['boosting/post_processing/shrinkage_constant.cpp'],('Shrinkage','f64','oi'))
add('b','EqualWidthLabelBinningConfig','(ReadableProperty<IRegularizationConfig>(nullptr), ReadableProperty<IRegularizationConfig>(nullptr))',['boosting/binning/label_binning_equal_width.cpp'],('BinRatio','f32','oi'),('MinBins','u32','ge1'),('MaxBins','u32','max','MinBins',1))
add('c','ManualMultiThreadingConfig','',['common/multi_threading/multi_threading_manual.cpp'],('NumPreferredThreads','u32','any'))
IND='(RuleCompareFunction(nullptr, 0), ReadableProperty<IRuleRefinementConfig>(nullptr), ReadableProperty<IRulePruningConfig>(nullptr), ReadableProperty<IPostProcessorConfig>(nullptr))'
add('c','BeamSearchTopDownRuleInductionConfig',IND,['common/rule_induction/rule_induction_top_down_beam_search.cpp'],('BeamWidth','u32','ge2'),('ResampleFeatures','bool','any','','','areFeaturesResampled'),('MinCoverage','u32','ge1'),('MinSupport','f32','z_oi'),('MaxConditions','u32','z_ge2'),('MaxHeadRefinements','u32','any'),('RecalculatePredictions','bool','any','','','arePredictionsRecalculated'))
add('c','GreedyTopDownRuleInductionConfig',IND,['common/rule_induction/rule_induction_top_down_greedy.cpp'],('MinCoverage','u32','ge1'),('MinSupport','f32','z_oi'),('MaxConditions','u32','any'),('MaxHeadRefinements','u32','any'),('RecalculatePredictions','bool','any','','','arePredictionsRecalculated'))
for x in ('Frequency','Width'):
    add('c' if x=='Width' else 'g','Equal%sFeatureBinningConfig'%x,'',['common/input/feature_binning_equal_%s.cpp'%x.lower()],('BinRatio','f32','oi'),('MinBins','u32','ge2'),('MaxBins','u32','max','MinBins',2))
add('d','SequentialPostOptimizationConfig','(ReadableProperty<IRuleInductionConfig>(nullptr))',['common/post_optimization/post_optimization_sequential.cpp'],('NumIterations','u32','ge1'),('RefineHeads','bool','any','','','areHeadsRefined'),('ResampleFeatures','bool','any','','','areFeaturesResampled'))
add('d','PostPruningConfig','',['common/stopping/global_pruning_post.cpp'],('UseHoldoutSet','bool','any','','','isHoldoutSetUsed'),('RemoveUnusedRules','bool','any','','','isRemoveUnusedRules'),('MinRules','u32','ge1'),('Interval','u32','ge1'))
add('d','PrePruningConfig','',['common/stopping/global_pruning_pre.cpp'],('UseHoldoutSet','bool','any','','','isHoldoutSetUsed'),('RemoveUnusedRules','bool','any','','','isRemoveUnusedRules'),('MinRules','u32','ge1'),('UpdateInterval','u32','ge1'),('StopInterval','u32','mult','UpdateInterval',1),('NumPast','u32','ge1'),('NumCurrent','u32','ge1'),('MinImprovement','f64','ci'))
add('d','SizeStoppingCriterionConfig','',['common/stopping/stopping_criterion_size.cpp'],('MaxRules','u32','ge1'))
add('d','TimeStoppingCriterionConfig','',['common/stopping/stopping_criterion_time.cpp'],('TimeLimit','u32','ge1'))
add('d','RNGConfig','',['common/random/rng.cpp'],('RandomState','u32','ge1'))
for x,f in (('Random','random'),('OutputWiseStratified','stratified_output_wise'),('ExampleWiseStratified','stratified_example_wise')):
    add('e' if x!='Random' else 'd',x+'BiPartitionSamplingConfig',RNG,['common/sampling/partition_sampling_bi_%s.cpp'%f],('HoldoutSetSize','f32','oi'))
SM=lambda k: (('SampleSize','f32',k),('MinSamples','u32','ge1'),('MaxSamples','u32','max','MinSamples',1))
add('f','InstanceSamplingWithoutReplacementConfig',RNG,['common/sampling/instance_sampling_without_replacement.cpp'],*SM('oi'))
add('g','InstanceSamplingWithReplacementConfig',RNG,['common/sampling/instance_sampling_with_replacement.cpp'],*SM('oic'))
add('e','OutputWiseStratifiedInstanceSamplingConfig',RNG,['common/sampling/instance_sampling_stratified_output_wise.cpp'],*SM('oi'))
add('e','ExampleWiseStratifiedInstanceSamplingConfig',RNG,['common/sampling/instance_sampling_stratified_example_wise.cpp'],*SM('oi'))
add('f','OutputSamplingWithoutReplacementConfig',RNG,['common/sampling/output_sampling_without_replacement.cpp'],*SM('oi'))
add('g','FeatureSamplingWithoutReplacementConfig',RNG,['common/sampling/feature_sampling_without_replacement.cpp'],*SM('coi'),('NumRetained','u32','any'))
add('s','FMeasureConfig','',['seco/heuristics/heuristic_f_measure.cpp'],('Beta','f64','ge0'))
add('s','MEstimateConfig','',['seco/heuristics/heuristic_m_estimate.cpp'],('M','f64','ge0'))
add('s','KlnLiftFunctionConfig','',['seco/lift_functions/lift_function_kln.cpp'],('K','f64','gt0'))
add('s','PeakLiftFunctionConfig','',['seco/lift_functions/lift_function_peak.cpp'],('PeakLabel','u32','any'),('MaxLift','f64','ge1'),('Curvature','f64','gt0'))
add('s','CoverageStoppingCriterionConfig','',['seco/stopping/stopping_criterion_coverage.cpp'],('Threshold','f64','ge0'))
PC='(ReadableProperty<IClassificationLossConfig>(nullptr), ReadableProperty<IMultiThreadingConfig>(nullptr))'
PCM=('UseProbabilityCalibrationModel','bool','any','','','isProbabilityCalibrationModelUsed')
BP=('BasedOnProbabilities','bool','any','','','isBasedOnProbabilities')
add('p','ExampleWiseBinaryPredictorConfig',PC,['boosting/prediction/predictor_binary_example_wise.cpp'],BP,PCM)
add('q','OutputWiseBinaryPredictorConfig',PC,['boosting/prediction/predictor_binary_output_wise.cpp'],BP,PCM)
add('r','GfmBinaryPredictorConfig',PC,['boosting/prediction/predictor_binary_gfm.cpp'],PCM)
add('t','MarginalizedProbabilityPredictorConfig',PC,['boosting/prediction/predictor_probability_marginalized.cpp'],PCM)
add('u','OutputWiseProbabilityPredictorConfig',PC,['boosting/prediction/predictor_probability_output_wise.cpp'],PCM)
UH=('UseHoldoutSet','bool','any','','','isHoldoutSetUsed')
add('v','IsotonicMarginalProbabilityCalibratorConfig','(ReadableProperty<IClassificationLossConfig>(nullptr))',['boosting/prediction/probability_calibration_isotonic.cpp'],UH)
add('v','IsotonicJointProbabilityCalibratorConfig','(ReadableProperty<IClassificationLossConfig>(nullptr))',['boosting/prediction/probability_calibration_isotonic.cpp'],UH)
T={'u32':'uint32','f32':'float32','f64':'float64','bool':'bool'}
out=['/* generated by tools/gencfg.py from the table of settings */','#include "vf.hpp"','#include <stdexcept>']
spec=[]
groups=sorted(set(c[0] for c in C))
for g in groups:
    out.append('#ifdef VF_G_%s'%g.upper())
    fs=['common/prediction/probability_calibration_no.cpp'] if g in 'pqrtu' else []
    for c in C:
        if c[0]==g:
            for f in c[3]:
                if f not in fs: fs.append(f)
    out+=['#include "mlrl/%s"'%f for f in fs]
    out.append('using namespace boosting;' if g in 'bpqrtuv' else 'using namespace seco;' if g=='s' else '')
    for c in C:
        if c[0]!=g: continue
        _,cls,ctor,_,setters,_=c
        for s in setters:
            nm,t,k=s[:3]; prep=s[3] if len(s)>3 else ''; get=s[5] if len(s)>5 else 'get'+nm
            fn='c_%s_%s'%(cls,nm)
            dep=', uint32 m' if prep else ''
            p='    c.set%s(m);\n'%prep if prep else ''
            out.append('extern "C" void %s(%s v%s, %s* out) {\n    %s c%s;\n%s    c.set%s(v);\n    *out = c.%s();\n}'%(fn,T[t],dep,T[t],cls,ctor,p,nm,get))
            out.append('#ifdef VF_NATIVE\nextern "C" uint32 n%s(%s v%s, %s* out) {\n    %s c%s;\n%s    %s before = c.%s();\n    try {\n        c.set%s(v);\n    } catch (const std::invalid_argument&) {\n        return c.%s() == before ? 1 : 3;\n    }\n    *out = c.%s();\n    return 0;\n}\n#endif'%(fn,T[t],dep,T[t],cls,ctor,p,T[t],get,nm,get,get))
            spec.append((g,cls,nm,t,k,s[4] if prep else None))
    out.append('#endif')
open(V + '/harness/h_config.cpp','w').write('\n'.join(x for x in out if x)+'\n')
o=['# (group, configuration, setting, type, admissible values, smallest value of the setting it depends on)','SETTINGS = [']
o+=['    %r,'%(x,) for x in spec]+[']']
open(V + '/specs/settings.py','w').write('\n'.join(o)+'\n')
print(len(spec), groups)
