// Stand-in for the header generated from the message definition sensor_msgs/Imu.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <geometry_msgs/Quaternion.h>
#include <geometry_msgs/Vector3.h>
#include <std_msgs/Header.h>
namespace sensor_msgs {
struct Imu {
    std_msgs::Header header;
    geometry_msgs::Quaternion orientation;
    boost::array<double, 9> orientation_covariance;
    geometry_msgs::Vector3 angular_velocity;
    boost::array<double, 9> angular_velocity_covariance;
    geometry_msgs::Vector3 linear_acceleration;
    boost::array<double, 9> linear_acceleration_covariance;
    Imu() { orientation_covariance.fill(double()); angular_velocity_covariance.fill(double()); linear_acceleration_covariance.fill(double()); }
    typedef ros::pointer<Imu> Ptr;
    typedef ros::pointer<const Imu> ConstPtr;
};
typedef ros::pointer<Imu> ImuPtr;
typedef ros::pointer<const Imu> ImuConstPtr;
}
