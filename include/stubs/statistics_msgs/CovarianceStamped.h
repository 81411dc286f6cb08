// Stand-in for the header generated from the message definition statistics_msgs/CovarianceStamped.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <statistics_msgs/Covariance.h>
#include <std_msgs/Header.h>
namespace statistics_msgs {
struct CovarianceStamped {
    std_msgs::Header header;
    statistics_msgs::Covariance covariance;
    typedef ros::pointer<CovarianceStamped> Ptr;
    typedef ros::pointer<const CovarianceStamped> ConstPtr;
};
typedef ros::pointer<CovarianceStamped> CovarianceStampedPtr;
typedef ros::pointer<const CovarianceStamped> CovarianceStampedConstPtr;
}
