// Stand-in for the header generated from the message definition std_msgs/MultiArrayDimension.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
namespace std_msgs {
struct MultiArrayDimension {
    std::string label;
    uint32_t size = 0;
    uint32_t stride = 0;
    typedef ros::pointer<MultiArrayDimension> Ptr;
    typedef ros::pointer<const MultiArrayDimension> ConstPtr;
};
typedef ros::pointer<MultiArrayDimension> MultiArrayDimensionPtr;
typedef ros::pointer<const MultiArrayDimension> MultiArrayDimensionConstPtr;
}
