// Stand-in for the header generated from the message definition sensor_msgs/CameraInfo.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <sensor_msgs/RegionOfInterest.h>
#include <std_msgs/Header.h>
namespace sensor_msgs {
struct CameraInfo {
    std_msgs::Header header;
    uint32_t height = 0;
    uint32_t width = 0;
    std::string distortion_model;
    std::vector<double> D;
    boost::array<double, 9> K;
    boost::array<double, 9> R;
    boost::array<double, 12> P;
    uint32_t binning_x = 0;
    uint32_t binning_y = 0;
    sensor_msgs::RegionOfInterest roi;
    CameraInfo() { K.fill(double()); R.fill(double()); P.fill(double()); }
    typedef ros::pointer<CameraInfo> Ptr;
    typedef ros::pointer<const CameraInfo> ConstPtr;
};
typedef ros::pointer<CameraInfo> CameraInfoPtr;
typedef ros::pointer<const CameraInfo> CameraInfoConstPtr;
}
