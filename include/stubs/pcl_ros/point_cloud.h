// Stand-in for pcl_ros/point_cloud.h: PCL clouds are published as they are.
#pragma once
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include <pcl_conversions/pcl_conversions.h>
