// Stand-in for the header generated from the message definition geometry_msgs/TwistStamped.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <geometry_msgs/Twist.h>
#include <std_msgs/Header.h>
namespace geometry_msgs {
struct TwistStamped {
    std_msgs::Header header;
    geometry_msgs::Twist twist;
    typedef ros::pointer<TwistStamped> Ptr;
    typedef ros::pointer<const TwistStamped> ConstPtr;
};
typedef ros::pointer<TwistStamped> TwistStampedPtr;
typedef ros::pointer<const TwistStamped> TwistStampedConstPtr;
}
