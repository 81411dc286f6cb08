// Stand-in for the header generated from the message definition geometry_msgs/Pose.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <geometry_msgs/Point.h>
#include <geometry_msgs/Quaternion.h>
namespace geometry_msgs {
struct Pose {
    geometry_msgs::Point position;
    geometry_msgs::Quaternion orientation;
    typedef ros::pointer<Pose> Ptr;
    typedef ros::pointer<const Pose> ConstPtr;
};
typedef ros::pointer<Pose> PosePtr;
typedef ros::pointer<const Pose> PoseConstPtr;
}
