// Stand-in for the header generated from the message definition std_msgs/String.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
namespace std_msgs {
struct String {
    std::string data;
    typedef ros::pointer<String> Ptr;
    typedef ros::pointer<const String> ConstPtr;
};
typedef ros::pointer<String> StringPtr;
typedef ros::pointer<const String> StringConstPtr;
}
