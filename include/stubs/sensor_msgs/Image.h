// Stand-in for the header generated from the message definition sensor_msgs/Image.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <std_msgs/Header.h>
namespace sensor_msgs {
struct Image {
    std_msgs::Header header;
    uint32_t height = 0;
    uint32_t width = 0;
    std::string encoding;
    uint8_t is_bigendian = 0;
    uint32_t step = 0;
    std::vector<uint8_t> data;
    typedef ros::pointer<Image> Ptr;
    typedef ros::pointer<const Image> ConstPtr;
};
typedef ros::pointer<Image> ImagePtr;
typedef ros::pointer<const Image> ImageConstPtr;
}
