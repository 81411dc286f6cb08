// Stand-in for the header generated from the message definition std_msgs/MultiArrayLayout.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <std_msgs/MultiArrayDimension.h>
namespace std_msgs {
struct MultiArrayLayout {
    std::vector<std_msgs::MultiArrayDimension> dim;
    uint32_t data_offset = 0;
    typedef ros::pointer<MultiArrayLayout> Ptr;
    typedef ros::pointer<const MultiArrayLayout> ConstPtr;
};
typedef ros::pointer<MultiArrayLayout> MultiArrayLayoutPtr;
typedef ros::pointer<const MultiArrayLayout> MultiArrayLayoutConstPtr;
}
