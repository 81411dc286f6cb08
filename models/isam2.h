#pragma once
#include <gtsam/nonlinear/ISAM2.h>
#include <vector>
namespace isam2 {
struct Update { gtsam::NonlinearFactorGraph factors; gtsam::Values values; };
std::vector<Update>& updates();
std::vector<gtsam::Key>& marginalised();
std::vector<gtsam::Key>& asked();
gtsam::Values& estimate();
gtsam::Matrix& covariance();
}
