// Stand-in for the header generated from the message definition geometry_msgs/PoseWithCovarianceStamped.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <geometry_msgs/PoseWithCovariance.h>
#include <std_msgs/Header.h>
namespace geometry_msgs {
struct PoseWithCovarianceStamped {
    std_msgs::Header header;
    geometry_msgs::PoseWithCovariance pose;
    typedef ros::pointer<PoseWithCovarianceStamped> Ptr;
    typedef ros::pointer<const PoseWithCovarianceStamped> ConstPtr;
};
typedef ros::pointer<PoseWithCovarianceStamped> PoseWithCovarianceStampedPtr;
typedef ros::pointer<const PoseWithCovarianceStamped> PoseWithCovarianceStampedConstPtr;
}
