// Stand-in for the header generated from the message definition statistics_msgs/CovarianceFloat32.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
namespace statistics_msgs {
struct CovarianceFloat32 {
    uint64_t dimensions = 0;
    std::vector<float> matrix;
    typedef ros::pointer<CovarianceFloat32> Ptr;
    typedef ros::pointer<const CovarianceFloat32> ConstPtr;
};
typedef ros::pointer<CovarianceFloat32> CovarianceFloat32Ptr;
typedef ros::pointer<const CovarianceFloat32> CovarianceFloat32ConstPtr;
}
