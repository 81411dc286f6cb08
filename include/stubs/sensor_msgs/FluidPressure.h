// Stand-in for the header generated from the message definition sensor_msgs/FluidPressure.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <std_msgs/Header.h>
namespace sensor_msgs {
struct FluidPressure {
    std_msgs::Header header;
    double fluid_pressure = 0;
    double variance = 0;
    typedef ros::pointer<FluidPressure> Ptr;
    typedef ros::pointer<const FluidPressure> ConstPtr;
};
typedef ros::pointer<FluidPressure> FluidPressurePtr;
typedef ros::pointer<const FluidPressure> FluidPressureConstPtr;
}
