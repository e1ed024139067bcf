EX = 'Tests compare printed predictions of a few models for a few data sets; they do not settle '
PROPS = [
    prop('P02', 'Predicted scores are the sums of the heads of all covering rules',
         'For every model and example, the score predicted for an output is the sum of the scores that are predicted for it by those used rules of the model that cover the example, taken in the order of the model (default rule first '
         'or last, as configured); nothing else is added, and scores of other examples and outputs are not affected. Predictions are the same for dense and sparse feature matrices. Restricting the number of rules uses the first rules of the model and '
         'its default rule. Incremental predictions with any step size arrive at the same scores as a single prediction.',
         'All models, examples, feature matrices (dense, sparse), numbers of used rules and step sizes.', EX + 'every model, feature matrix and number of rules.',
         [B + 'src/mlrl/boosting/prediction/predictor_score_common.hpp', C + 'src/mlrl/common/model/rule_list.cpp'],
         [('applyHead, applyRule, applyRules', B + 'src/mlrl/boosting/prediction/predictor_score_common.hpp'), ('predictor', B + 'src/mlrl/boosting/prediction/predictor_score_output_wise.cpp')],
         note='Effect of a head, of an incremental row and of the whole list of rules are proved; whole predictions through factories, dispatchers and std::function visitors are bounded. Multiple threads are not covered.'),
    prop('P03', 'Separate-and-conquer models predict as decision lists',
         'For every rule list, example and label, the first used rule that covers the example and predicts for the label decides whether the label is relevant; labels no covering rule predicts for are irrelevant. This holds for dense and sparse feature matrices and for '
         'dense and sparse predictions alike. Rows of sparse predictions list the relevant labels once and in increasing order.',
         'All rule lists, examples, feature matrices and both kinds of label matrices.', EX + 'every rule list and feature matrix.',
         [S + 'src/mlrl/seco/prediction/predictor_binary_output_wise.cpp'],
         [('applyHead, predictForExampleInternally', S + 'src/mlrl/seco/prediction/predictor_binary_output_wise.cpp')],
         note='Effect of a head on dense predictions and the order in which heads are applied are proved; whole dense and sparse predictions are bounded.'),
    prop('P17', 'Isotonic calibration yields increasing probabilities and interpolates between them',
         'Fitting an isotonic calibration model averages the probabilities of equal thresholds, and then merges, from left to right, sequences of non-increasing probabilities into their mean, so that both the thresholds and probabilities of the '
         'model are strictly increasing and remain within the observed range. A probability is calibrated by interpolating linearly between the neighbouring thresholds, where 0 maps to 0 and 1 maps to 1 if they are not among the '
         'thresholds; the result is a number within [0, 1] and never decreases if the given probability increases. Models are fitted to one pair of a predicted probability and a ground truth per given example and label (or label vector), for dense and sparse labels and '
         'scores alike; examples without a score are represented by their mean ground truth at threshold 0 (0 if there are none). A label vector is the ground truth of an example iff the relevant labels of the example are exactly those of the vector.',
         'All sets of thresholds and probabilities, label and score matrices, subsets of examples.', EX + 'all score distributions, ties and degenerate models.',
         [C + 'src/mlrl/common/prediction/probability_calibration_isotonic.cpp', B + 'src/mlrl/boosting/prediction/probability_calibration_isotonic.cpp'],
         [('calibrateProbability, fit', C + 'src/mlrl/common/prediction/probability_calibration_isotonic.cpp'), ('extractThresholdsAndProbabilities', B + 'src/mlrl/boosting/prediction/probability_calibration_isotonic.cpp')],
         note='calibrateProbability is proved over the reals, including the binary search of the standard library; fitting and the extraction of thresholds are bounded; one known finding (joint models).'),
    prop('P18', 'Predicted labels and probabilities are the ones that the configured strategy derives from the scores',
         'Given the scores a model predicts for an example: output-wise predictors predict a label as relevant iff its score exceeds the threshold (or its calibrated probability exceeds 0.5). Example-wise predictors predict the known label vector with the '
         'smallest distance (or largest joint probability), the most frequent one in case of a tie. The GFM predictor predicts labels that maximise the expected F1-measure with respect to the joint probabilities of the known label vectors. '
         'Output-wise probabilities are the calibrated logistic transforms of the scores, joint probabilities are calibrated products of marginal probabilities and normalised to sum up to one, and marginalised probabilities are their sums over the label vectors that contain a label. '
         'All of this is the same for dense and sparse feature matrices, dense and sparse predictions, and for predictions at once or incrementally; rows of sparse predictions list each relevant label once and in increasing order.',
         'All models, examples, label vectors and calibration models.', EX + 'all scores, label vectors, ties and calibration models.',
         [B + 'src/mlrl/boosting/prediction/transformation_binary_gfm.cpp', B + 'src/mlrl/boosting/prediction/transformation_binary_example_wise.cpp', B + 'src/mlrl/boosting/prediction/transformation_binary_output_wise.cpp',
          B + 'src/mlrl/boosting/prediction/transformation_probability_marginalized.cpp', B + 'src/mlrl/boosting/prediction/probability_function_chain_rule.cpp', C + 'include/mlrl/common/prediction/predictor_common.hpp'],
         [('apply', B + 'src/mlrl/boosting/prediction/'), ('predict, applyNext', B + 'include/mlrl/boosting/prediction/predictor_binary_common.hpp')],
         note='Discretisation of scores is proved; whole predictions are bounded (up to 4 labels and label vectors, exhaustive search for the best F1-measure). Multiple threads are not covered.'),
]
