// Stand-in for the header generated from the message definition nav_msgs/Path.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <geometry_msgs/PoseStamped.h>
#include <std_msgs/Header.h>
namespace nav_msgs {
struct Path {
    std_msgs::Header header;
    std::vector<geometry_msgs::PoseStamped> poses;
    typedef ros::pointer<Path> Ptr;
    typedef ros::pointer<const Path> ConstPtr;
};
typedef ros::pointer<Path> PathPtr;
typedef ros::pointer<const Path> PathConstPtr;
}
