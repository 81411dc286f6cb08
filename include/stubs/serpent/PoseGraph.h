// Stand-in for the header generated from the message definition serpent/PoseGraph.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <sensor_msgs/PointCloud2.h>
namespace serpent {
struct PoseGraph {
    std::vector<sensor_msgs::PointCloud2> clouds;
    std::vector<geometry_msgs::PoseWithCovarianceStamped> poses;
    typedef ros::pointer<PoseGraph> Ptr;
    typedef ros::pointer<const PoseGraph> ConstPtr;
};
typedef ros::pointer<PoseGraph> PoseGraphPtr;
typedef ros::pointer<const PoseGraph> PoseGraphConstPtr;
}
