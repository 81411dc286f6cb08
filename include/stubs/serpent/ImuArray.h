// Stand-in for the header generated from the message definition serpent/ImuArray.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <sensor_msgs/Imu.h>
namespace serpent {
struct ImuArray {
    ros::Time start_timestamp;
    ros::Time end_timestamp;
    std::vector<sensor_msgs::Imu> measurements;
    typedef ros::pointer<ImuArray> Ptr;
    typedef ros::pointer<const ImuArray> ConstPtr;
};
typedef ros::pointer<ImuArray> ImuArrayPtr;
typedef ros::pointer<const ImuArray> ImuArrayConstPtr;
}
