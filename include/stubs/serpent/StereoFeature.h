// Stand-in for the header generated from the message definition serpent/StereoFeature.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
namespace serpent {
struct StereoFeature {
    double left_x = 0;
    double left_y = 0;
    double right_x = 0;
    double right_y = 0;
    int64_t id = 0;
    typedef ros::pointer<StereoFeature> Ptr;
    typedef ros::pointer<const StereoFeature> ConstPtr;
};
typedef ros::pointer<StereoFeature> StereoFeaturePtr;
typedef ros::pointer<const StereoFeature> StereoFeatureConstPtr;
}
