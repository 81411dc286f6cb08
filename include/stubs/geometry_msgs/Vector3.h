// Stand-in for the header generated from the message definition geometry_msgs/Vector3.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
namespace geometry_msgs {
struct Vector3 {
    double x = 0;
    double y = 0;
    double z = 0;
    typedef ros::pointer<Vector3> Ptr;
    typedef ros::pointer<const Vector3> ConstPtr;
};
typedef ros::pointer<Vector3> Vector3Ptr;
typedef ros::pointer<const Vector3> Vector3ConstPtr;
}
