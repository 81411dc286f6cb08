// Stand-in for the header generated from the message definition geometry_msgs/PoseWithCovariance.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <geometry_msgs/Pose.h>
namespace geometry_msgs {
struct PoseWithCovariance {
    geometry_msgs::Pose pose;
    boost::array<double, 36> covariance;
    PoseWithCovariance() { covariance.fill(double()); }
    typedef ros::pointer<PoseWithCovariance> Ptr;
    typedef ros::pointer<const PoseWithCovariance> ConstPtr;
};
typedef ros::pointer<PoseWithCovariance> PoseWithCovariancePtr;
typedef ros::pointer<const PoseWithCovariance> PoseWithCovarianceConstPtr;
}
