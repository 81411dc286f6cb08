// Stand-in for the header generated from the message definition std_msgs/Int32.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
namespace std_msgs {
struct Int32 {
    int32_t data = 0;
    typedef ros::pointer<Int32> Ptr;
    typedef ros::pointer<const Int32> ConstPtr;
};
typedef ros::pointer<Int32> Int32Ptr;
typedef ros::pointer<const Int32> Int32ConstPtr;
}
