EX = 'Tests fix a handful of seeds and data sets; they do not settle '
SM = C + 'src/mlrl/common/sampling/'
PROPS = [
    prop('P05', 'Sampling without replacement selects distinct available elements, exactly as many as requested',
         'Whenever examples, features or outputs are sampled without replacement, exactly the requested number of elements is selected, no element is selected twice, and only '
         'elements that are available (members of the training set, existing features or outputs) are selected, no matter which of the internal methods (tracking, reservoir, permutation, pool) is chosen '
         'and which random numbers are drawn. Retained features are part of every sample, round-robin output sampling visits all outputs in turn, and if no sampling is used, all elements of the training set have '
         'weight 1. The reported number of non-zero weights is correct, including for samples drawn repeatedly.',
         'All numbers of available and requested elements, all sets of training examples, all sequences of random numbers.',
         EX + 'all sizes, subsets and random sequences.',
         [SM + 'index_sampling.hpp', C + 'include/mlrl/common/sampling/weight_sampling.hpp', SM + 'feature_sampling_without_replacement.cpp', SM + 'instance_sampling_without_replacement.cpp'],
         [('sampleIndicesWithoutReplacement*, randomPermutation', SM + 'index_sampling.hpp'), ('sampleWeightsWithoutReplacement*', C + 'include/mlrl/common/sampling/weight_sampling.hpp'),
          ('feature, output and instance sampling classes', SM)],
         note='Proved for all random sequences; std::unordered_set and BitWeightVector are used through their contracts; the configuration layer (std::function) is bounded.'),
    prop('P06', 'Sampling with replacement and stratified sampling yield correct weights',
         'If examples are sampled with replacement, the weights sum up to the requested number of samples, only examples in the training set get non-zero weights, and the reported number of non-zero weights '
         'equals the number of examples with non-zero weight. Stratified sampling selects from each stratum (examples with equal label vectors, or the strata formed label by label, rarest label first) the requested fraction, '
         'rounded up or down, selects only training examples and reports the number of selected examples. An example is out of sample if and only if its weight is zero.',
         'All training sets, sample sizes and random sequences; dense and sparse label matrices.',
         EX + 'all sizes, subsets and random sequences.',
         [SM + 'instance_sampling_with_replacement.cpp', SM + 'stratified_sampling_example_wise.cpp', SM + 'stratified_sampling_output_wise.cpp', SM + 'weight_vector_dense.cpp'],
         [('InstanceSamplingWithReplacement', SM + 'instance_sampling_with_replacement.cpp'), ('stratification', SM + 'stratified_sampling_output_wise.cpp'), ('weight vectors', SM + 'weight_vector_dense.cpp')],
         note='Sampling with replacement and weight vectors are proved; stratified sampling (hash maps, ordered sets) is bounded.'),
    prop('P07', 'Training set and holdout set partition the examples',
         'Splitting the examples into a training set and a holdout set assigns every example to exactly one of both sets. The holdout set contains the requested fraction of the examples, rounded down. '
         'Stratified splits divide each stratum in proportion to the remaining sizes of both sets, for dense and sparse label matrices alike. Sorting a set rearranges its elements into increasing order. '
         'Equal seeds result in equal splits; without a split, the training set contains all examples.',
         'All numbers of examples, fractions, label matrices and random sequences.',
         EX + 'all sizes, label matrices and random sequences.',
         [SM + 'partition_sampling_bi_random.cpp', SM + 'partition_bi.cpp', SM + 'stratified_sampling_example_wise.cpp', SM + 'stratified_sampling_output_wise.cpp'],
         [('RandomBiPartitionSampling::partition', SM + 'partition_sampling_bi_random.cpp'), ('sampleBiPartition', SM + 'stratified_sampling_example_wise.cpp')],
         note='The random split is proved; stratified splits, sorting and the configuration layer are bounded.'),
    prop('P08', 'Fractions of elements respect their bounds and random numbers their range',
         'The number of elements that corresponds to a fraction is that fraction rounded up, at least the given minimum (unless there are fewer elements), at most the given maximum (if one is given), and never more than '
         'the number of elements. A random number is always in the half-open range it was requested for and is determined by the random state alone; generators created with equal seeds yield equal sequences.',
         'All numbers of elements up to 2^24, fractions in (0, 1], minima and maxima; all random states, including zero, and all ranges.',
         EX + 'all fractions, bounds, states and ranges.',
         [C + 'include/mlrl/common/util/math.hpp', C + 'src/mlrl/common/random/rng.cpp'],
         [('calculateBoundedFraction', C + 'include/mlrl/common/util/math.hpp'), ('RNG::randomInt', C + 'src/mlrl/common/random/rng.cpp')],
         note='Proved with rounding modelled as a monotone function; sequences drawn through the configuration are bounded.'),
]
