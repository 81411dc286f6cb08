// Stand-in for the header generated from the message definition geometry_msgs/Transform.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <geometry_msgs/Quaternion.h>
#include <geometry_msgs/Vector3.h>
namespace geometry_msgs {
struct Transform {
    geometry_msgs::Vector3 translation;
    geometry_msgs::Quaternion rotation;
    typedef ros::pointer<Transform> Ptr;
    typedef ros::pointer<const Transform> ConstPtr;
};
typedef ros::pointer<Transform> TransformPtr;
typedef ros::pointer<const Transform> TransformConstPtr;
}
