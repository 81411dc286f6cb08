// Stand-in for the header generated from the message definition sensor_msgs/RegionOfInterest.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
namespace sensor_msgs {
struct RegionOfInterest {
    uint32_t x_offset = 0;
    uint32_t y_offset = 0;
    uint32_t height = 0;
    uint32_t width = 0;
    uint8_t do_rectify = 0;
    typedef ros::pointer<RegionOfInterest> Ptr;
    typedef ros::pointer<const RegionOfInterest> ConstPtr;
};
typedef ros::pointer<RegionOfInterest> RegionOfInterestPtr;
typedef ros::pointer<const RegionOfInterest> RegionOfInterestConstPtr;
}
