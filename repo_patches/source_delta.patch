From 3d6aff46e993995f8e9fc91abb460edce62d1cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:39 +0000
Subject: [PATCH 01/16] fix: treat relevant and irrelevant labels equally in
 the heuristic "Accuracy"

---
 .../seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp b/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
index 14e7921..42eeb97 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
@@ -14,9 +14,9 @@ namespace seco {
             float64 evaluateConfusionMatrix(float64 cin, float64 cip, float64 crn, float64 crp, float64 uin,
                                             float64 uip, float64 urn, float64 urp) const override {
                 float64 numCoveredCorrect = cin + crp;
-                float64 numUncoveredCorrect = uin + uip;
+                float64 numUncoveredCorrect = uip + urn;
                 float64 numCorrect = numCoveredCorrect + numUncoveredCorrect;
-                float64 numTotal = numCorrect + cip + crn + urn + urp;
+                float64 numTotal = numCorrect + cip + crn + uin + urp;
                 return util::divideOrZero(numCorrect, numTotal);
             }
     };
-- 
2.43.0


From 011cccccb68db9113cde770847e310206949bf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:50 +0000
Subject: [PATCH 02/16] fix: let the lift function "Peak" decrease after its
 peak and bound the lift of larger heads

---
 .../src/mlrl/seco/lift_functions/lift_function_peak.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp b/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
index d1daa49..677c8d8 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
@@ -18,7 +18,7 @@ namespace seco {
                 normalization = ((float64) numLabels - 1) / ((float64) peakLabel - 1);
             } else {
                 normalization =
-                  ((float64) numLabels - (float64) totalLabels) / ((float64) totalLabels - (float64) peakLabel);
+                  ((float64) totalLabels - (float64) numLabels) / ((float64) totalLabels - (float64) peakLabel);
             }
 
             return 1 + pow(normalization, exponent) * (maxLift - 1);
@@ -100,10 +100,10 @@ namespace seco {
              */
             PeakLiftFunctionFactory(uint32 numLabels, uint32 peakLabel, float64 maxLift, float64 curvature)
                 : numLabels_(numLabels), peakLabel_(peakLabel), maxLift_(maxLift), curvature_(curvature),
-                  maxLiftsAfterPeak_(numLabels - peakLabel) {
-                for (uint32 i = 0; i < numLabels - peakLabel; i++) {
+                  maxLiftsAfterPeak_(numLabels - peakLabel + 1) {
+                for (uint32 i = 0; i <= numLabels - peakLabel; i++) {
                     maxLiftsAfterPeak_[i] =
-                      calculateLiftInternally(i + peakLabel, numLabels, peakLabel, maxLift, curvature);
+                      calculateLiftInternally(i + peakLabel, numLabels, peakLabel, maxLift, 1.0 / curvature);
                 }
             }
 
-- 
2.43.0


From 8e44c3dc4a1b838e8db00fc5c74696cdf62831bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:50 +0000
Subject: [PATCH 03/16] fix: copy the number of nominal-neq conditions when
 copying a condition list

---
 cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp b/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
index a016116..4a0af53 100644
--- a/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
@@ -7,7 +7,7 @@ ConditionList::ConditionList(const ConditionList& conditionList)
       numConditionsPerComparator_(
         {conditionList.numConditionsPerComparator_[0], conditionList.numConditionsPerComparator_[1],
          conditionList.numConditionsPerComparator_[2], conditionList.numConditionsPerComparator_[3],
-         conditionList.numConditionsPerComparator_[4], conditionList.numConditionsPerComparator_[4]}) {}
+         conditionList.numConditionsPerComparator_[4], conditionList.numConditionsPerComparator_[5]}) {}
 
 ConditionList::const_iterator ConditionList::cbegin() const {
     return vector_.cbegin();
-- 
2.43.0


From efbd9475e46fa5a519b0dd044a52713608868682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:50 +0000
Subject: [PATCH 04/16] fix: allocate one confusion matrix per label when
 creating a subset of the statistics

---
 .../seco/src/mlrl/seco/statistics/statistics_common.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp b/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
index be77d58..b8506c1 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
@@ -560,7 +560,7 @@ namespace seco {
       const BinarySparseArrayVector& majorityLabelVector, const RuleEvaluationFactory& ruleEvaluationFactory,
       const WeightVector& weights, const IndexVector& outputIndices) {
         std::unique_ptr<ConfusionMatrixVector> totalSumVectorPtr =
-          std::make_unique<ConfusionMatrixVector>(labelMatrix.numRows, true);
+          std::make_unique<ConfusionMatrixVector>(labelMatrix.numCols, true);
         return std::make_unique<StatisticsSubset<LabelMatrix, CoverageMatrix, ConfusionMatrixVector,
                                                  RuleEvaluationFactory, WeightVector, IndexVector>>(
           std::move(totalSumVectorPtr), labelMatrix, coverageMatrix, majorityLabelVector, ruleEvaluationFactory,
-- 
2.43.0


From 0d023ce50ca365941312469ec682238d0c69660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:50 +0000
Subject: [PATCH 05/16] fix: keep the averaged probability of the last
 threshold when fitting isotonic calibration models

---
 .../mlrl/common/prediction/probability_calibration_isotonic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
index 87542fe..a0414ca 100644
--- a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
@@ -29,7 +29,7 @@ static inline void sortByThresholdsAndEliminateDuplicates(ListOfLists<Tuple<floa
         }
     }
 
-    bins[n] = bins[numBins - 1];
+    bins[n] = previousBin;
     n++;
     bins.resize(n);
 }
-- 
2.43.0


From 76624a8369f957ebd1323511cc300f82d6b1a695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:38 +0000
Subject: [PATCH 06/16] fix: sample an admissible number of features if at most
 one feature is not retained

---
 .../common/sampling/feature_sampling_without_replacement.cpp  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
index f48d904..7fdc930 100644
--- a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
@@ -151,8 +151,10 @@ std::unique_ptr<IFeatureSamplingFactory> FeatureSamplingWithoutReplacementConfig
 
     if (sampleSize_ > 0) {
         numSamples = util::calculateBoundedFraction(numRemainingFeatures, sampleSize_, minSamples_, maxSamples_);
-    } else {
+    } else if (numRemainingFeatures > 1) {
         numSamples = static_cast<uint32>(log2(numRemainingFeatures - 1) + 1);
+    } else {
+        numSamples = numRemainingFeatures;
     }
 
     return std::make_unique<FeatureSamplingWithoutReplacementFactory>(rngConfig_.get().createRNGFactory(), numFeatures,
-- 
2.43.0


From 45671d8127ca504e69cab19732cdf966891d4879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:38 +0000
Subject: [PATCH 07/16] fix: let rows and columns of binary sparse matrices
 contain only their own indices

BinaryCsrView::operator[] and BinaryCscView::operator[] returned vectors of length numCols or
numRows, respectively, regardless of the number of indices in a row or column, i.e., elements of
subsequent rows or beyond the array were accessed.
---
 .../include/mlrl/common/data/view_matrix_csc_binary.hpp       | 4 ++--
 .../include/mlrl/common/data/view_matrix_csr_binary.hpp       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csc_binary.hpp b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csc_binary.hpp
index 505d297..59194f7 100644
--- a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csc_binary.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csc_binary.hpp
@@ -56,7 +56,7 @@ class MLRLCOMMON_API BinaryCscView : public BinarySparseMatrix {
          * @return          An object of type `const_column` that has been created
          */
         const_column operator[](uint32 column) const {
-            return Vector<const uint32>(indices_cbegin(column), Matrix::numRows);
+            return Vector<const uint32>(indices_cbegin(column), indices_cend(column) - indices_cbegin(column));
         }
 
         /**
@@ -66,7 +66,7 @@ class MLRLCOMMON_API BinaryCscView : public BinarySparseMatrix {
          * @return          An object of type `column` that has been created
          */
         column operator[](uint32 column) {
-            return Vector<uint32>(indices_begin(column), Matrix::numRows);
+            return Vector<uint32>(indices_begin(column), indices_end(column) - indices_begin(column));
         }
 
         /**
diff --git a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
index a624fe3..f17f087 100644
--- a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
@@ -56,7 +56,7 @@ class MLRLCOMMON_API BinaryCsrView : public BinarySparseMatrix {
          * @return      An object of type `const_row` that has been created
          */
         const_row operator[](uint32 row) const {
-            return Vector<const uint32>(indices_cbegin(row), Matrix::numCols);
+            return Vector<const uint32>(indices_cbegin(row), indices_cend(row) - indices_cbegin(row));
         }
 
         /**
@@ -66,7 +66,7 @@ class MLRLCOMMON_API BinaryCsrView : public BinarySparseMatrix {
          * @return      An object of type `row` that has been created
          */
         row operator[](uint32 row) {
-            return Vector<uint32>(indices_begin(row), Matrix::numCols);
+            return Vector<uint32>(indices_begin(row), indices_end(row) - indices_begin(row));
         }
 
         /**
-- 
2.43.0


From f1dcf4081e0ba315b8792bbfb08fb60c602baf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:49 +0000
Subject: [PATCH 08/16] fix: minimise the L1-regularised objective when
 calculating scores

The L1 weight was added to the score's magnitude for decomposable losses (wrong sign), and gradients whose magnitude does not exceed
the weight were not set to zero, i.e., the calculated scores did not minimise the regularised objective.
---
 .../rule_evaluation/rule_evaluation_decomposable_common.hpp   | 4 ++--
 .../rule_evaluation_non_decomposable_binned_common.hpp        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
index 8c93f25..678b366 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
@@ -20,7 +20,7 @@ namespace boosting {
         } else if (gradient < -l1RegularizationWeight) {
             return l1RegularizationWeight;
         } else {
-            return 0;
+            return -gradient;
         }
     }
 
@@ -37,7 +37,7 @@ namespace boosting {
     static inline constexpr float64 calculateOutputWiseScore(float64 gradient, float64 hessian,
                                                              float64 l1RegularizationWeight,
                                                              float64 l2RegularizationWeight) {
-        return util::divideOrZero(-gradient + getL1RegularizationWeight(gradient, l1RegularizationWeight),
+        return util::divideOrZero(-(gradient + getL1RegularizationWeight(gradient, l1RegularizationWeight)),
                                   hessian + l2RegularizationWeight);
     }
 
diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_binned_common.hpp b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_binned_common.hpp
index 68e7427..0a13aee 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_binned_common.hpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_binned_common.hpp
@@ -117,7 +117,7 @@ namespace boosting {
         for (uint32 i = 0; i < numPredictions; i++) {
             uint32 weight = weights[i];
             float64 gradient = ordinates[i];
-            ordinates[i] += (weight * getL1RegularizationWeight(gradient, l1RegularizationWeight));
+            ordinates[i] += getL1RegularizationWeight(gradient, weight * l1RegularizationWeight);
         }
     }
 
-- 
2.43.0


From a64086b1daaeffc8584161a6c6e478576fdece31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:49 +0000
Subject: [PATCH 09/16] fix: reserve enough label bins for positive and
 negative criteria

Up to calculateBoundedFraction(n) bins are used for positive and negative criteria each, but only one more than that was reserved in
total, resulting in writes beyond the end of the arrays if minBins or maxBins are set.
---
 .../src/mlrl/boosting/binning/label_binning_equal_width.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp b/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp
index c3e29f4..4b365f5 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp
@@ -38,7 +38,7 @@ namespace boosting {
                 : binRatio_(binRatio), minBins_(minBins), maxBins_(maxBins) {}
 
             uint32 getMaxBins(uint32 numLabels) const override {
-                return util::calculateBoundedFraction(numLabels, binRatio_, minBins_, maxBins_) + 1;
+                return util::calculateBoundedFraction(numLabels, binRatio_, minBins_, maxBins_) * 2;
             }
 
             LabelInfo getLabelInfo(View<float64>::const_iterator criteria, uint32 numCriteria) const override {
-- 
2.43.0


From 21a95e00e10c74881ca45cf02620820ad6ec5f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:49 +0000
Subject: [PATCH 10/16] fix: let IndexIterator's postfix decrement operator
 decrement the index

---
 .../common/src/mlrl/common/iterator/iterator_index.cpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/iterator/iterator_index.cpp b/cpp/subprojects/common/src/mlrl/common/iterator/iterator_index.cpp
index 3fa31f9..60777e5 100644
--- a/cpp/subprojects/common/src/mlrl/common/iterator/iterator_index.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/iterator/iterator_index.cpp
@@ -28,7 +28,7 @@ IndexIterator& IndexIterator::operator--() {
 }
 
 IndexIterator& IndexIterator::operator--(int n) {
-    index_++;
+    index_--;
     return *this;
 }
 
-- 
2.43.0


From 5e94458714e453cd1e3c87a673e333879e759525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:20 +0000
Subject: [PATCH 11/16] fix: avoid a division by zero when fitting the first
 bin of isotonic calibration models

---
 .../boosting/prediction/probability_calibration_isotonic.cpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/prediction/probability_calibration_isotonic.cpp b/cpp/subprojects/boosting/src/mlrl/boosting/prediction/probability_calibration_isotonic.cpp
index fa3fde7..453dc21 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/prediction/probability_calibration_isotonic.cpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/prediction/probability_calibration_isotonic.cpp
@@ -137,7 +137,8 @@ namespace boosting {
         for (uint32 i = 0; i < numLabels; i++) {
             IsotonicProbabilityCalibrationModel::row bins = calibrationModel[i];
             Tuple<float64>& firstBin = bins[0];
-            firstBin.second = (float64) numSparseRelevantPerLabel[i] / (float64) numSparsePerLabel[i];
+            firstBin.second =
+              util::divideOrZero((float64) numSparseRelevantPerLabel[i], (float64) numSparsePerLabel[i]);
         }
     }
 
-- 
2.43.0


From 2974fd5d0726da22dc7653fdf543e91eb0a0bb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:37 +0000
Subject: [PATCH 12/16] fix: use the first thread's prediction delegate if
 multi-threading is not supported

---
 .../include/mlrl/common/prediction/predictor_common.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
index c06a6cc..0b4e398 100644
--- a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
@@ -81,7 +81,7 @@ class PredictionDispatcher final {
 #if MULTI_THREADING_SUPPORT_ENABLED
                 uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 1;
+                uint32 threadIndex = 0;
 #endif
                 delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
             }
@@ -165,7 +165,7 @@ class BinarySparsePredictionDispatcher final {
 #if MULTI_THREADING_SUPPORT_ENABLED
                 uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 1;
+                uint32 threadIndex = 0;
 #endif
                 numDenseElements +=
                   delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
-- 
2.43.0


From 3fc61e396f8143a4f9a2a4540067230f4a5435e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:26 +0000
Subject: [PATCH 13/16] fix: initialise the member removeUnusedRules_ of
 PrePruningFactory

---
 .../common/src/mlrl/common/stopping/global_pruning_pre.cpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
index 67ac4cf..c803a22 100644
--- a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
@@ -173,8 +173,9 @@ class PrePruningFactory final : public IStoppingCriterionFactory {
                           bool useHoldoutSet, bool removeUnusedRules, uint32 minRules, uint32 updateInterval,
                           uint32 stopInterval, uint32 numPast, uint32 numCurrent, float64 minImprovement)
             : aggregationFunctionFactoryPtr_(std::move(aggregationFunctionFactoryPtr)), useHoldoutSet_(useHoldoutSet),
-              minRules_(minRules), updateInterval_(updateInterval), stopInterval_(stopInterval), numPast_(numPast),
-              numCurrent_(numCurrent), minImprovement_(minImprovement) {}
+              removeUnusedRules_(removeUnusedRules), minRules_(minRules), updateInterval_(updateInterval),
+              stopInterval_(stopInterval), numPast_(numPast), numCurrent_(numCurrent),
+              minImprovement_(minImprovement) {}
 
         std::unique_ptr<IStoppingCriterion> create(const SinglePartition& partition) const override {
             std::unique_ptr<IAggregationFunction> aggregationFunctionPtr = aggregationFunctionFactoryPtr_->create();
-- 
2.43.0


From 12826d916c6a98a20436c7a555f8417d497b9e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:26 +0000
Subject: [PATCH 14/16] fix: reject a stop interval of zero when configuring
 pre-pruning

---
 .../common/src/mlrl/common/stopping/global_pruning_pre.cpp       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
index c803a22..014aa06 100644
--- a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
@@ -248,6 +248,7 @@ uint32 PrePruningConfig::getStopInterval() const {
 }
 
 IPrePruningConfig& PrePruningConfig::setStopInterval(uint32 stopInterval) {
+    util::assertGreaterOrEqual<uint32>("stopInterval", stopInterval, 1);
     util::assertMultiple<uint32>("stopInterval", stopInterval, updateInterval_);
     stopInterval_ = stopInterval;
     return *this;
-- 
2.43.0


From 4bce04b979a597946f3cebc33e40081bbeea28bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:26 +0000
Subject: [PATCH 15/16] fix: use the sparse value as the previous value when
 searching for thresholds greater than it

---
 .../src/mlrl/common/input/feature_based_search_numerical.hpp     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_numerical.hpp b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_numerical.hpp
index 58b6f8f..4319a81 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_numerical.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_numerical.hpp
@@ -112,6 +112,7 @@ static inline void searchForNumericalRefinementInternally(const NumericalFeature
     float32 lastValueLessThanSparseValue = previousValue;
     int64 firstExampleWithSparseValueOrGreater = i;
     uint32 numCoveredLessThanSparseValue = numCovered;
+    previousValue = sparseValue;
     numCovered = 0;
 
     for (i = numFeatureValues - 1; i >= firstExampleWithSparseValueOrGreater; i--) {
-- 
2.43.0


From 827588ffee062bd085edae833f95c0c2e8f87fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:26 +0000
Subject: [PATCH 16/16] fix: do not use the threshold before the first bin if
 no bins precede the sparse bin

---
 .../src/mlrl/common/input/feature_based_search_binned.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp
index 27118ba..0e40e71 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp
@@ -146,7 +146,7 @@ static inline void searchForBinnedRefinementInternally(const BinnedFeatureVector
     // examples...
     uint32 numUncovered = numExamplesWithNonZeroWeights - numCovered;
 
-    if (numUncovered >= minCoverage) {
+    if (numCovered > 0 && numUncovered >= minCoverage) {
         // Determine the best prediction for examples covered by the condition...
         const IScoreVector& scoreVector = statisticsSubset.calculateScores();
 
-- 
2.43.0

