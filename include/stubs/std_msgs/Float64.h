// Stand-in for the header generated from the message definition std_msgs/Float64.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
namespace std_msgs {
struct Float64 {
    double data = 0;
    typedef ros::pointer<Float64> Ptr;
    typedef ros::pointer<const Float64> ConstPtr;
};
typedef ros::pointer<Float64> Float64Ptr;
typedef ros::pointer<const Float64> Float64ConstPtr;
}
