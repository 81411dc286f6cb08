// Stand-in for pcl_conversions: stamps are nanoseconds in ROS and microseconds in PCL.
#pragma once
#include <pcl/PCLHeader.h>
#include <pcl/PCLPointCloud2.h>
#include <ros/time.h>
#include <sensor_msgs/PointCloud2.h>
#include <std_msgs/Header.h>
namespace pcl_conversions {
inline void fromPCL(const std::uint64_t& p, ros::Time& s) { s.fromNSec(p * 1000ull); }
inline void toPCL(const ros::Time& s, std::uint64_t& p) { p = s.toNSec() / 1000ull; }
inline ros::Time fromPCL(const std::uint64_t& p) { ros::Time s; fromPCL(p, s); return s; }
inline std::uint64_t toPCL(const ros::Time& s) { std::uint64_t p; toPCL(s, p); return p; }
inline void fromPCL(const pcl::PCLHeader& p, std_msgs::Header& h) { fromPCL(p.stamp, h.stamp); h.seq = p.seq; h.frame_id = p.frame_id; }
inline void toPCL(const std_msgs::Header& h, pcl::PCLHeader& p) { toPCL(h.stamp, p.stamp); p.seq = h.seq; p.frame_id = h.frame_id; }
inline std_msgs::Header fromPCL(const pcl::PCLHeader& p) { std_msgs::Header h; fromPCL(p, h); return h; }
inline pcl::PCLHeader toPCL(const std_msgs::Header& h) { pcl::PCLHeader p; toPCL(h, p); return p; }
inline void toPCL(const sensor_msgs::PointCloud2& m, pcl::PCLPointCloud2& c) {
    toPCL(m.header, c.header); c.height = m.height; c.width = m.width; c.fields.clear();
    for (const auto& f : m.fields) { pcl::PCLPointField g; g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count; c.fields.push_back(g); }
    c.is_bigendian = m.is_bigendian; c.point_step = m.point_step; c.row_step = m.row_step; c.is_dense = m.is_dense; c.data = m.data;
}
inline void fromPCL(const pcl::PCLPointCloud2& c, sensor_msgs::PointCloud2& m) {
    fromPCL(c.header, m.header); m.height = c.height; m.width = c.width; m.fields.clear();
    for (const auto& f : c.fields) { sensor_msgs::PointField g; g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count; m.fields.push_back(g); }
    m.is_bigendian = c.is_bigendian; m.point_step = c.point_step; m.row_step = c.row_step; m.is_dense = c.is_dense; m.data = c.data;
}
}
#ifdef SV_TO_ROS_MSG
#include <pcl/conversions.h>
namespace pcl { template<typename T> void toROSMsg(const PointCloud<T>& c, sensor_msgs::PointCloud2& m) { PCLPointCloud2 b; toPCLPointCloud2(c, b); pcl_conversions::fromPCL(b, m); } }
#endif
