// Stand-in for the header generated from the message definition geometry_msgs/Point.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
namespace geometry_msgs {
struct Point {
    double x = 0;
    double y = 0;
    double z = 0;
    typedef ros::pointer<Point> Ptr;
    typedef ros::pointer<const Point> ConstPtr;
};
typedef ros::pointer<Point> PointPtr;
typedef ros::pointer<const Point> PointConstPtr;
}
