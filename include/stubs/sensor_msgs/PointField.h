// Stand-in for the header generated from the message definition sensor_msgs/PointField.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
namespace sensor_msgs {
struct PointField {
    std::string name;
    uint32_t offset = 0;
    uint8_t datatype = 0;
    uint32_t count = 0;
    enum { INT8 = 1, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };
    typedef ros::pointer<PointField> Ptr;
    typedef ros::pointer<const PointField> ConstPtr;
};
typedef ros::pointer<PointField> PointFieldPtr;
typedef ros::pointer<const PointField> PointFieldConstPtr;
}
