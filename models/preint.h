#pragma once
#include <gtsam/navigation/CombinedImuFactor.h>
#include <gtsam/navigation/NavState.h>
#include <functional>
#include <vector>
namespace preint {
// What the preintegration was asked for: 'm' a measurement for some time, 'r' a reset, 'p' a prediction.
struct Event { char kind; gtsam::imuBias::ConstantBias bias; Eigen::Vector3d acceleration, turning; double dt; Eigen::Vector3d position, velocity; Eigen::Matrix3d attitude; Eigen::Matrix3d accelerometer, gyroscope; };
std::vector<Event>& log();
std::vector<gtsam::NavState>& answers();  // predictions, in order (the last one is repeated)
std::function<gtsam::NavState(const Event&)>& answer();  // or decided by this
}
