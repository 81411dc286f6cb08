// Deskewing as the environment: it records what it is asked for (also linked natively; the real one is decided by C02).
#include "deskew.h"
#include <pointcloud_tools/pclpointcloud2_utilities.hpp>
namespace deskewing { std::vector<Call>& calls() { static std::vector<Call>& v = *new std::vector<Call>(); return v; } }
namespace pct { void deskew(const Eigen::Isometry3d& skew, const double dt, const std::uint64_t time, const pcl::PCLPointCloud2& src, pcl::PCLPointCloud2& dest) { deskewing::calls().push_back({skew, dt, time, src}); dest = src; dest.header.stamp = time; } }
