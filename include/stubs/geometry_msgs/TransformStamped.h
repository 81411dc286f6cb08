// Stand-in for the header generated from the message definition geometry_msgs/TransformStamped.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <geometry_msgs/Transform.h>
#include <std_msgs/Header.h>
namespace geometry_msgs {
struct TransformStamped {
    std_msgs::Header header;
    std::string child_frame_id;
    geometry_msgs::Transform transform;
    typedef ros::pointer<TransformStamped> Ptr;
    typedef ros::pointer<const TransformStamped> ConstPtr;
};
typedef ros::pointer<TransformStamped> TransformStampedPtr;
typedef ros::pointer<const TransformStamped> TransformStampedConstPtr;
}
