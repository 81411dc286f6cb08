// Stand-in for the header generated from the message definition statistics_msgs/CovarianceFloat32Stamped.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <statistics_msgs/CovarianceFloat32.h>
#include <std_msgs/Header.h>
namespace statistics_msgs {
struct CovarianceFloat32Stamped {
    std_msgs::Header header;
    statistics_msgs::CovarianceFloat32 covariance;
    typedef ros::pointer<CovarianceFloat32Stamped> Ptr;
    typedef ros::pointer<const CovarianceFloat32Stamped> ConstPtr;
};
typedef ros::pointer<CovarianceFloat32Stamped> CovarianceFloat32StampedPtr;
typedef ros::pointer<const CovarianceFloat32Stamped> CovarianceFloat32StampedConstPtr;
}
