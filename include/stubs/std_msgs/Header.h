// Stand-in for the header generated from the message definition std_msgs/Header.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
namespace std_msgs {
struct Header {
    uint32_t seq = 0;
    ros::Time stamp;
    std::string frame_id;
    typedef ros::pointer<Header> Ptr;
    typedef ros::pointer<const Header> ConstPtr;
};
typedef ros::pointer<Header> HeaderPtr;
typedef ros::pointer<const Header> HeaderConstPtr;
}
