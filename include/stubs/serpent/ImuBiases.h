// Stand-in for the header generated from the message definition serpent/ImuBiases.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <geometry_msgs/Vector3.h>
#include <std_msgs/Header.h>
namespace serpent {
struct ImuBiases {
    std_msgs::Header header;
    geometry_msgs::Vector3 accelerometer_bias;
    geometry_msgs::Vector3 gyroscope_bias;
    typedef ros::pointer<ImuBiases> Ptr;
    typedef ros::pointer<const ImuBiases> ConstPtr;
};
typedef ros::pointer<ImuBiases> ImuBiasesPtr;
typedef ros::pointer<const ImuBiases> ImuBiasesConstPtr;
}
