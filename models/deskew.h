#pragma once
#include <pcl/PCLPointCloud2.h>
#include <Eigen/Geometry>
#include <vector>
namespace deskewing { struct Call { Eigen::Isometry3d skew; double dt; std::uint64_t time; pcl::PCLPointCloud2 cloud; }; std::vector<Call>& calls(); }
