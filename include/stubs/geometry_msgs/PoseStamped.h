// Stand-in for the header generated from the message definition geometry_msgs/PoseStamped.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <geometry_msgs/Pose.h>
#include <std_msgs/Header.h>
namespace geometry_msgs {
struct PoseStamped {
    std_msgs::Header header;
    geometry_msgs::Pose pose;
    typedef ros::pointer<PoseStamped> Ptr;
    typedef ros::pointer<const PoseStamped> ConstPtr;
};
typedef ros::pointer<PoseStamped> PoseStampedPtr;
typedef ros::pointer<const PoseStamped> PoseStampedConstPtr;
}
