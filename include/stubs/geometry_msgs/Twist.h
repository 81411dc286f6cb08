// Stand-in for the header generated from the message definition geometry_msgs/Twist.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <geometry_msgs/Vector3.h>
namespace geometry_msgs {
struct Twist {
    geometry_msgs::Vector3 linear;
    geometry_msgs::Vector3 angular;
    typedef ros::pointer<Twist> Ptr;
    typedef ros::pointer<const Twist> ConstPtr;
};
typedef ros::pointer<Twist> TwistPtr;
typedef ros::pointer<const Twist> TwistConstPtr;
}
