// Stand-in for the header generated from the message definition statistics_msgs/Covariance.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
namespace statistics_msgs {
struct Covariance {
    uint64_t dimensions = 0;
    std::vector<double> matrix;
    typedef ros::pointer<Covariance> Ptr;
    typedef ros::pointer<const Covariance> ConstPtr;
};
typedef ros::pointer<Covariance> CovariancePtr;
typedef ros::pointer<const Covariance> CovarianceConstPtr;
}
