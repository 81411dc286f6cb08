// Stand-in for the header generated from the message definition std_msgs/Empty.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
namespace std_msgs {
struct Empty {
    typedef ros::pointer<Empty> Ptr;
    typedef ros::pointer<const Empty> ConstPtr;
};
typedef ros::pointer<Empty> EmptyPtr;
typedef ros::pointer<const Empty> EmptyConstPtr;
}
