// Stand-in for the header generated from the message definition sensor_msgs/PointCloud2.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <sensor_msgs/PointField.h>
#include <std_msgs/Header.h>
namespace sensor_msgs {
struct PointCloud2 {
    std_msgs::Header header;
    uint32_t height = 0;
    uint32_t width = 0;
    std::vector<sensor_msgs::PointField> fields;
    uint8_t is_bigendian = 0;
    uint32_t point_step = 0;
    uint32_t row_step = 0;
    std::vector<uint8_t> data;
    uint8_t is_dense = 0;
    typedef ros::pointer<PointCloud2> Ptr;
    typedef ros::pointer<const PointCloud2> ConstPtr;
};
typedef ros::pointer<PointCloud2> PointCloud2Ptr;
typedef ros::pointer<const PointCloud2> PointCloud2ConstPtr;
}
