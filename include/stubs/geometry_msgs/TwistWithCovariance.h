// Stand-in for the header generated from the message definition geometry_msgs/TwistWithCovariance.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <geometry_msgs/Twist.h>
namespace geometry_msgs {
struct TwistWithCovariance {
    geometry_msgs::Twist twist;
    boost::array<double, 36> covariance;
    TwistWithCovariance() { covariance.fill(double()); }
    typedef ros::pointer<TwistWithCovariance> Ptr;
    typedef ros::pointer<const TwistWithCovariance> ConstPtr;
};
typedef ros::pointer<TwistWithCovariance> TwistWithCovariancePtr;
typedef ros::pointer<const TwistWithCovariance> TwistWithCovarianceConstPtr;
}
