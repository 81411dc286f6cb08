// Stand-in for the header generated from the message definition nav_msgs/Odometry.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <geometry_msgs/PoseWithCovariance.h>
#include <geometry_msgs/TwistWithCovariance.h>
#include <std_msgs/Header.h>
namespace nav_msgs {
struct Odometry {
    std_msgs::Header header;
    std::string child_frame_id;
    geometry_msgs::PoseWithCovariance pose;
    geometry_msgs::TwistWithCovariance twist;
    typedef ros::pointer<Odometry> Ptr;
    typedef ros::pointer<const Odometry> ConstPtr;
};
typedef ros::pointer<Odometry> OdometryPtr;
typedef ros::pointer<const Odometry> OdometryConstPtr;
}
