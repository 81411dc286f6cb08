// Stand-in for the header generated from the message definition std_msgs/Float64MultiArray.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <std_msgs/MultiArrayLayout.h>
namespace std_msgs {
struct Float64MultiArray {
    std_msgs::MultiArrayLayout layout;
    std::vector<double> data;
    typedef ros::pointer<Float64MultiArray> Ptr;
    typedef ros::pointer<const Float64MultiArray> ConstPtr;
};
typedef ros::pointer<Float64MultiArray> Float64MultiArrayPtr;
typedef ros::pointer<const Float64MultiArray> Float64MultiArrayConstPtr;
}
