EX = 'Tests train on a few data sets and compare printed models; they do not settle '
L = B + 'src/mlrl/boosting/losses/'
R = B + 'src/mlrl/boosting/rule_evaluation/'
D = B + 'src/mlrl/boosting/data/'
PROPS = [
    prop('P10', 'Decomposable losses provide the derivatives of their loss function for exactly the requested outputs',
         'For every ground truth and predicted score, the gradient and Hessian of a decomposable loss are its first and second derivative (logistic loss log(1 + exp(-y*s)); squared error (s-y)^2 and squared hinge loss, '
         'whose derivatives are halved), without overflow for scores of large magnitude. Updating the statistics of an example changes the statistics of exactly the given outputs (all outputs or a subset) of this example, based on '
         'the ground truth and score of the same example and output, for dense and sparse ground truth alike. The evaluation of an example is the mean of the losses of its outputs. The distance between scores and a label vector is the '
         'mean loss for this label vector.',
         'All ground truths, scores, matrices, output subsets and examples.', EX + 'all scores, label matrices and subsets of outputs.',
         [L + 'loss_decomposable_logistic.cpp', L + 'loss_decomposable_squared_error.cpp', L + 'loss_decomposable_squared_hinge.cpp', L + 'loss_decomposable_common.hpp', L + 'loss_decomposable_sparse_common.hpp'],
         [('updateGradientAndHessian, evaluatePrediction', L), ('updateDecomposableStatistics, evaluate, measureDistance', L + 'loss_decomposable_common.hpp')],
         note='Proved over the reals (exp and log as functions with their algebraic laws; rounding is not modelled); sparse statistics are bounded; two known findings.'),
    prop('P27', 'Non-decomposable losses provide the derivatives of their loss function',
         'For every example, the gradients and Hessians of the non-decomposable losses are the first and second derivatives of the loss with respect to the scores of the example (logistic loss log(1 + sum_i exp(-y_i*s_i)); '
         'square root of the sum of squared errors; square root of the sum of squared hinge losses), for updates of all statistics, for updates of all or some decomposable statistics, and for dense and sparse ground truth alike. '
         'The evaluation of an example is its loss. Results are finite for scores of large magnitude.',
         'All label vectors and scores of up to 5 outputs (bounded), subsets of outputs.', EX + 'all scores and label vectors.',
         [L + 'loss_non_decomposable_logistic.cpp', L + 'loss_non_decomposable_squared_error.cpp', L + 'loss_non_decomposable_squared_hinge.cpp'],
         [('updateDecomposableStatistics, updateNonDecomposableStatistics, evaluate', L)],
         note='Bounded stand-ins where a contract is not proved (transcendental functions over whole rows); known findings for the squared error used for regression.'),
    prop('P11', 'Rules predict scores that minimise the regularised loss, and their quality is that minimum',
         'For decomposable losses, the score that a rule predicts for an output is the minimiser of g*s + h*s^2/2 + l1*|s| + l2*s^2/2 for the sums g and h of its gradients and Hessians (0 if h + l2 is 0), and its quality is the minimum, summed up '
         'over all predicted outputs. Complete heads predict for all outputs. Single-output heads predict for the output with the largest absolute score (the first one in case of a tie). Partial heads of fixed size predict for the '
         'outputs with the largest absolute scores, as many as configured. Dynamic partial heads predict for exactly those outputs i with (|s_i| - min)^e >= (1 - t) * (max - min)^e. If the outputs of a rule are given, it predicts for all of them. '
         'For non-decomposable losses, the scores solve (H + l2*I) s = -g, where g is shrunken towards 0 by l1, and the quality is g*s + s*H*s/2 + l1*|s| + l2*s^2/2.',
         'All gradients, Hessians, regularisation weights, numbers of outputs and head configurations.', EX + 'all statistics and configurations.',
         [R + 'rule_evaluation_decomposable_common.hpp', R + 'rule_evaluation_decomposable_complete.cpp', R + 'rule_evaluation_decomposable_single.cpp', R + 'rule_evaluation_decomposable_partial_fixed.cpp',
          R + 'rule_evaluation_decomposable_partial_dynamic.cpp', R + 'rule_evaluation_non_decomposable_common.hpp', R + 'rule_evaluation_non_decomposable_complete.cpp'],
         [('calculateOutputWiseScore, calculateOutputWiseQuality', R + 'rule_evaluation_decomposable_common.hpp'), ('calculateScores of all heads', R), ('copyCoefficients, calculateOverallQuality', R + 'rule_evaluation_non_decomposable_common.hpp')],
         note='Decomposable heads are proved over the reals (std::partial_sort through its contract); factories and non-decomposable heads are bounded (LAPACK replaced by Gaussian elimination); two known findings.'),
    prop('P12', 'Label binning groups labels by their expected score, and each bin gets its optimal score',
         'With label binning, labels whose expected score is negative and labels whose expected score is positive are grouped separately into bins of equal width between the smallest and largest score of their sign; the number of bins is the configured '
         'fraction of the number of these labels within the configured limits. Labels with expected score zero belong to no bin and are predicted 0. All labels in a bin are predicted the same score, the optimal one for the sums of their gradients and '
         'Hessians with regularisation weights multiplied by the number of labels in the bin; the quality is that of these scores. The number of bins never exceeds the number of bins memory is reserved for.',
         'All scores, numbers of labels, bin ratios and limits, head types.', EX + 'all scores and bin configurations.',
         [B + 'src/mlrl/boosting/binning/label_binning_equal_width.cpp', R + 'rule_evaluation_decomposable_binned_common.hpp', R + 'rule_evaluation_non_decomposable_binned_common.hpp'],
         [('getLabelInfo, createBins, getMaxBins', B + 'src/mlrl/boosting/binning/label_binning_equal_width.cpp'), ('aggregation of statistics', R)],
         note='getLabelInfo/getMaxBins are proved; createBins (std::function callbacks) and the evaluators are bounded; four known findings (partial heads).'),
    prop('P13', 'Sums of statistics are exactly the weighted sums of the statistics of the given examples and outputs',
         'Vectors of gradients and Hessians start at zero, and adding or removing the statistics of an example with a weight changes the sums for exactly the selected outputs (all outputs or a subset) by the weighted statistics of that example; removing undoes adding. The '
         'difference of two vectors, copies and clearing behave element-wise. For non-decomposable losses this includes the Hessians of all pairs of outputs. Sparse statistics count outputs without a stored gradient with Hessian 1 and gradient 0.',
         'All statistics, weights, output subsets and sequences of these operations.', EX + 'all weights, subsets and sequences of operations.',
         [D + 'vector_statistic_decomposable_dense.cpp', D + 'vector_statistic_non_decomposable_dense.cpp', D + 'vector_statistic_decomposable_sparse.cpp'],
         [('add, remove, addToSubset, difference, clear', D)],
         note='Dense vectors are proved over uninterpreted floating-point operations (bit-exact); subsets of pairs of outputs and sparse vectors are bounded.'),
]
