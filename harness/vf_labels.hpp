/* A label matrix that only knows its dimensions and its label cardinality (the lift functions ask for nothing else). */
#pragma once
#include "mlrl/common/input/label_matrix_row_wise.hpp"
#include "mlrl/common/prediction/probability_calibration_joint.hpp"
#include "mlrl/common/prediction/probability_calibration_marginal.hpp"
#include "mlrl/common/sampling/instance_sampling.hpp"
#include "mlrl/common/sampling/partition_sampling.hpp"
#include "mlrl/common/statistics/statistics_provider.hpp"

struct VfLabelMatrix final : public IRowWiseLabelMatrix {
        uint32 numExamples;
        uint32 numOutputs;
        float32 cardinality;

        VfLabelMatrix(uint32 n, uint32 m, float32 c) : numExamples(n), numOutputs(m), cardinality(c) {}

        bool isSparse() const override {
            return false;
        }

        uint32 getNumExamples() const override {
            return numExamples;
        }

        uint32 getNumOutputs() const override {
            return numOutputs;
        }

        float32 calculateLabelCardinality() const override {
            return cardinality;
        }

        std::unique_ptr<LabelVector> createLabelVector(uint32 row) const override {
            return nullptr;
        }

        std::unique_ptr<IInstanceSampling> createInstanceSampling(const IClassificationInstanceSamplingFactory& factory,
                                                                  const SinglePartition& partition,
                                                                  IStatistics& statistics) const override {
            return nullptr;
        }

        std::unique_ptr<IInstanceSampling> createInstanceSampling(const IClassificationInstanceSamplingFactory& factory,
                                                                  BiPartition& partition,
                                                                  IStatistics& statistics) const override {
            return nullptr;
        }

        std::unique_ptr<IPartitionSampling> createPartitionSampling(
          const IClassificationPartitionSamplingFactory& factory) const override {
            return nullptr;
        }

        std::unique_ptr<IStatisticsProvider> createStatisticsProvider(
          const IClassificationStatisticsProviderFactory& factory) const override {
            return nullptr;
        }

        std::unique_ptr<IMarginalProbabilityCalibrationModel> fitMarginalProbabilityCalibrationModel(
          const IMarginalProbabilityCalibrator& c, const SinglePartition& p, const IStatistics& s) const override {
            return nullptr;
        }

        std::unique_ptr<IMarginalProbabilityCalibrationModel> fitMarginalProbabilityCalibrationModel(
          const IMarginalProbabilityCalibrator& c, BiPartition& p, const IStatistics& s) const override {
            return nullptr;
        }

        std::unique_ptr<IJointProbabilityCalibrationModel> fitJointProbabilityCalibrationModel(
          const IJointProbabilityCalibrator& c, const SinglePartition& p, const IStatistics& s) const override {
            return nullptr;
        }

        std::unique_ptr<IJointProbabilityCalibrationModel> fitJointProbabilityCalibrationModel(
          const IJointProbabilityCalibrator& c, BiPartition& p, const IStatistics& s) const override {
            return nullptr;
        }
};
