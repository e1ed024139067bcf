EX = 'Tests sample a few configurations and data sets, but the guarantee must hold for '
PROPS = [
    prop('P22', 'Configuration parameters accept exactly the admissible values and keep them',
         'Every setter of the configuration classes stores an admissible value, which is returned by the corresponding getter, and refuses an inadmissible one with an invalid_argument exception, leaving the setting unchanged. Admissible are ratios and sample sizes in (0, 1) (sample size with replacement '
         'in (0, 1], feature sample size in [0, 1), output ratio and minimum support may be 0), minima and counts of at least 1 (at least 2 for bins, partial outputs and the beam width), a maximum that is 0 or at least the minimum, a stop interval that is a positive multiple of '
         'the update interval, positive regularisation weights and curvatures, exponents and lifts of at least 1, shrinkage in (0, 1), and a minimum improvement in [0, 1].',
         'All values of all 85 settings.', EX + 'every value of every setting.',
         [C + 'include/mlrl/common/util/validation.hpp', C + 'src/mlrl/common/sampling/', C + 'src/mlrl/common/stopping/', B + 'src/mlrl/boosting/rule_evaluation/', S + 'src/mlrl/seco/heuristics/'],
         [('assertGreater, assertGreaterOrEqual, assertLess, assertLessOrEqual, assertMultiple', C + 'include/mlrl/common/util/validation.hpp')],
         note='All setters are proved over the reals and integers (not-a-number and values that are only approximately zero are excluded); error messages are not modelled. The state after an exception is bounded (boundary values).'),
    prop('P23', 'Stopping criteria and pruning select the documented number of rules',
         'The induction of rules stops as soon as a criterion demands it (size-based: maximum number of rules reached; time-based: time since the first test reaches the limit; coverage-based: sum of uncovered weights does not exceed the threshold; combined: any of them) or no rule can be found, and the number of used rules is the one given last by a criterion. '
         'Post-pruning uses the rules of the model with the smallest mean evaluation among those assessed at the configured interval from the minimum number of rules on. Pre-pruning assesses models at the update interval (on the holdout set iff configured and available), '
         'compares the aggregated (minimum, maximum, mean) past scores with the recent ones at the stop interval, and if the relative improvement falls below the minimum improvement, uses the best assessed model and stops, unless unused rules are to be kept.',
         'All sequences of scores, configurations, partitions of the examples and combinations of criteria.', EX + 'every sequence of scores and every combination of criteria.',
         [C + 'src/mlrl/common/stopping/', C + 'include/mlrl/common/data/ring_buffer.hpp', C + 'src/mlrl/common/rule_model_assemblage/rule_model_assemblage_sequential.cpp', S + 'src/mlrl/seco/stopping/stopping_criterion_coverage.cpp'],
         [('PrePruning::test', C + 'src/mlrl/common/stopping/global_pruning_pre.cpp'), ('PostPruning::test', C + 'src/mlrl/common/stopping/global_pruning_post.cpp'), ('induceRules', C + 'src/mlrl/common/rule_model_assemblage/rule_model_assemblage_sequential.cpp')],
         over=('inputs', 'histories'),
         note='Aggregation functions, the evaluation of models, the ring buffer, size-based stopping and each step of post-pruning are proved; sequences of tests of all criteria and the assemblage of models are bounded (up to 20 tests).'),
    prop('P20', 'The search for conditions assesses every candidate with exactly the examples it covers',
         'For every feature vector, the search for refinements assesses a condition (numerical <= and >, ordinal <= and >, nominal = and !=) for every pair of neighbouring distinct values, bins or nominal values that separates examples with non-zero weights and covers at least the minimum number of them, and no others. '
         'The scores a condition is assessed by are calculated from exactly the examples it covers (including those with the sparse or majority value, which are not stored), and if it is an improvement, it is recorded with their number, the range of elements it refers to and a threshold between the separated values.',
         'All feature vectors (values, sparse and majority values, bins), weights, minimum coverages and outcomes of the comparison.', EX + 'every feature vector and every weighting of the examples.',
         [C + 'src/mlrl/common/input/feature_based_search_' + x + '.hpp' for x in ('numerical', 'nominal', 'binary', 'ordinal', 'binned')],
         [('searchForNumericalRefinementInternally', C + 'src/mlrl/common/input/feature_based_search_numerical.hpp'), ('searchForOrdinalRefinementInternally', C + 'src/mlrl/common/input/feature_based_search_ordinal.hpp'), ('searchForBinnedRefinementInternally', C + 'src/mlrl/common/input/feature_based_search_binned.hpp')],
         note='The search on numerical, nominal and binary feature vectors is proved for an arbitrary candidate and an arbitrary comparator (which is a parameter of the harness: a statistics subset that sums an arbitrary number per example identifies the examples a score is calculated from); ordinal and binned feature vectors are bounded. Equal values that are separated by examples with zero weights only, and examples with missing values are not claimed; defects of the search that the stable tests pin are known findings.'),
]
