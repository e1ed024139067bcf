EX = 'The integration tests compare a few models on fixed data sets and unit tests sample a handful of vectors; neither settles '
PROPS = [
    prop('P01', 'A rule covers exactly the examples that satisfy all of its conditions',
         'A rule whose body is a conjunction covers an example if and only if every numerical, ordinal and nominal condition of the body is '
         'satisfied by the feature values of that example. The answer is the same no matter whether the feature values are given in dense or '
         'in sparse form.',
         'All conjunctive bodies, all feature vectors (dense, sparse with any sparse value and any number of non-zero elements).',
         EX + 'every combination of condition types, thresholds and sparsity patterns.',
         [C + 'src/mlrl/common/model/body_conjunctive.cpp', C + 'include/mlrl/common/model/body_conjunctive.hpp'],
         [('ConjunctiveBody::covers, dense and sparse', C + 'src/mlrl/common/model/body_conjunctive.cpp')],
         note='Proved for all inputs; scratch arrays of the sparse variant are assumed to be prepared as by the prediction loop.'),
    prop('P14', 'Rule evaluation heuristics follow their definitions and are always defined',
         'Each heuristic used to assess separate-and-conquer rules returns the value given by its published formula for the confusion matrix '
         'it is applied to. Where the formula is undefined (no covered or no positive weight), a finite value is returned, and the '
         'heuristic Accuracy values relevant and irrelevant labels alike.',
         'All confusion matrices with non-negative entries and all admissible parameter values.',
         EX + 'all confusion matrices, in particular degenerate ones.',
         [S + 'src/mlrl/seco/heuristics/', S + 'src/mlrl/seco/heuristics/heuristic_common.hpp'],
         [('evaluateConfusionMatrix of every heuristic', S + 'src/mlrl/seco/heuristics/')],
         note='Proved over the reals (machine rounding not modelled).'),
    prop('P15', 'Lift functions follow their definition and their bound is never exceeded',
         'For every number of labels, a lift function returns the lift given by its definition: no lift for a single label, growth up to and '
         'decrease after the peak, or a logarithmic or constant increase. The maximum lift reported for heads with at least a certain number of labels '
         'is never smaller than the lift of any such head.',
         'All numbers of labels, peaks, maximum lifts and curvatures that are admissible.',
         EX + 'all label counts and parameters; pruning by the maximum lift is only sound if the bound holds for all of them.',
         [S + 'src/mlrl/seco/lift_functions/'],
         [('calculateLift and getMaxLift of every lift function', S + 'src/mlrl/seco/lift_functions/')],
         note='Proved over the reals; powers and logarithms are axiomatised by monotonicity.'),
    prop('P16', 'Covering a rule updates label coverage and confusion matrices exactly',
         'Applying (or revoking) a separate-and-conquer rule changes the coverage of exactly those labels for which the prediction of the rule deviates from '
         'the default prediction, and the sum of uncovered weights is updated accordingly. Adding or removing an example changes exactly one element of the confusion matrix of each uncovered '
         'label by the weight of the example, identified by the true label and the predicted value, in dense and sparse form and for '
         'partial heads.',
         'All coverage matrices, label matrices (dense, sparse), majority label vectors, head index sets and weights.',
         EX + 'all matrices and index sets.',
         [S + 'src/mlrl/seco/data/matrix_coverage_dense.cpp', S + 'src/mlrl/seco/data/vector_confusion_matrix_dense.cpp'],
         [('DenseCoverageMatrix increaseCoverage / decreaseCoverage', S + 'src/mlrl/seco/data/matrix_coverage_dense.cpp'),
          ('DenseConfusionMatrixVector add, remove, addToSubset, difference', S + 'src/mlrl/seco/data/vector_confusion_matrix_dense.cpp')],
         note='Proved over the reals; std::lower_bound is assumed to meet its library contract.'),
    prop('P04', 'Models keep all rules and conditions, in order, and enumerate the used ones',
         'A rule list enumerates its rules in the order in which they were added, the default rule first or last depending on whether it takes precedence, '
         'restricted to the number of used rules if requested and to the maximum number of rules if given. A list of conditions, after any history of additions, removals and copies, '
         'yields a body that contains exactly the remaining conditions, each under its comparator, in the order of their addition, with their feature indices and thresholds.',
         'All numbers of rules, limits and positions; all lists of conditions and all histories of additions, removals and copies.',
         EX + 'all histories of additions and removals and all limits.',
         [C + 'src/mlrl/common/model/rule_list.cpp', C + 'src/mlrl/common/model/condition_list.cpp'],
         [('RuleList iterators and visit / visitUsed', C + 'src/mlrl/common/model/rule_list.cpp'),
          ('ConditionList addCondition, removeLastCondition, createConjunctiveBody', C + 'src/mlrl/common/model/condition_list.cpp')],
         note='Enumeration of rules, removal of conditions and creation of bodies are proved; visiting and histories (std::vector growth, std::function) are bounded.'),
]
