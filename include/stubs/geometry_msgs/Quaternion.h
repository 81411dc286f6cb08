// Stand-in for the header generated from the message definition geometry_msgs/Quaternion.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
namespace geometry_msgs {
struct Quaternion {
    double x = 0;
    double y = 0;
    double z = 0;
    double w = 0;
    typedef ros::pointer<Quaternion> Ptr;
    typedef ros::pointer<const Quaternion> ConstPtr;
};
typedef ros::pointer<Quaternion> QuaternionPtr;
typedef ros::pointer<const Quaternion> QuaternionConstPtr;
}
