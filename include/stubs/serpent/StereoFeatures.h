// Stand-in for the header generated from the message definition serpent/StereoFeatures.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <sensor_msgs/CameraInfo.h>
#include <serpent/StereoFeature.h>
#include <std_msgs/Header.h>
namespace serpent {
struct StereoFeatures {
    std_msgs::Header header;
    std::vector<serpent::StereoFeature> features;
    sensor_msgs::CameraInfo left_info;
    sensor_msgs::CameraInfo right_info;
    typedef ros::pointer<StereoFeatures> Ptr;
    typedef ros::pointer<const StereoFeatures> ConstPtr;
};
typedef ros::pointer<StereoFeatures> StereoFeaturesPtr;
typedef ros::pointer<const StereoFeatures> StereoFeaturesConstPtr;
}
