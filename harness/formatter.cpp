// The point cloud formatter, run as a node: parameters in, messages in, messages out.
#include "sv.h"
#include "sv_eigen.h"
#include <serpent/front_end/lidar/pointcloud_formatter.hpp>
#include <pcl/PCLPointCloud2.h>
#include <cstring>
#include <string>
#include <vector>
typedef sensor_msgs::PointCloud2 Msg;
static std::string nm(const char* n, int a, int b = -1) { std::string s = n; for (int v : {a, b}) if (v >= 0) s += "_" + std::to_string(v); return s; }
static sensor_msgs::PointField field(const char* n, int off, int t) { sensor_msgs::PointField f; f.name = n; f.offset = off; f.datatype = t; f.count = 1; return f; }
template<typename T, typename V> static T rd(const V& d, std::size_t at) { T v; std::memcpy(&v, &d[at], sizeof(T)); return v; }
template<typename T> static void wr(Msg& m, std::size_t at, T v) { std::memcpy(&m.data[at], &v, sizeof(T)); }
// the frames every cloud is labelled with
static void frames(const char* lidar) {
    XmlRpc::XmlRpcValue v; v["body"]["frame_id"] = "body"; if (lidar) v["body"]["frames"]["lidar"]["frame_id"] = lidar; else v["body"]["frames"]["lidar"]["translation"]["x"] = 1.0;
    ros::world::set("body_frames", v);
}
static Msg message(std::vector<sensor_msgs::PointField> f, int step, int n) {
    Msg m; m.header.seq = 7; m.header.stamp = ros::Time(12, 345678000); m.header.frame_id = "sensor"; m.height = 1; m.width = n; m.fields = f; m.point_step = step; m.row_step = n * step; m.is_dense = 1; m.data.resize(n * step); return m;
}
// an Ouster record: x, y, z, t (ns), range (mm), intensity
static Msg ouster(int n, int tt = 6, int rt = 6) {
    Msg m = message({field("x", 0, 7), field("y", 4, 7), field("z", 8, 7), field("t", 16, tt), field("range", 20, rt), field("intensity", 24, 7)}, 32, n);
    for (int i = 0; i < n; ++i) {
        for (int k : {0, 4, 8, 24}) wr(m, 32 * i + k, sv_realf(nm("v", i, k).c_str(), -100, 100));
        wr(m, 32 * i + 16, sv_u32(nm("t", i).c_str(), 0, 200000000)); wr(m, 32 * i + 20, sv_u32(nm("range", i).c_str(), 0, 300000));
    }
    return m;
}
static bool layout(const Msg& m, const pcl::PCLPointCloud2& c, const char* frame) {
    return c.header.seq == m.header.seq && c.header.stamp == 12345678 && c.header.frame_id == frame && c.point_step == m.point_step && c.fields.size() == m.fields.size() && c.row_step == c.point_step * c.width && c.data.size() == c.row_step * c.height;
}
static serpent::PointcloudFormatter* node() { return new serpent::PointcloudFormatter(); }
static std::size_t out() { return ros::world::count<pcl::PCLPointCloud2>(); }
static const pcl::PCLPointCloud2& cloud(int i) { return ros::world::published<pcl::PCLPointCloud2>(i); }

extern "C" {
void format_ouster() {
    const int n = sv_choice("points", 3), named = sv_choice("frame id", 2), given = sv_choice("type given", 2); frames(named ? "os_lidar" : nullptr); if (given) ros::world::set("pointcloud_type", "OUSTER"); node(); const Msg m = ouster(n);
    sv_check(ros::world::send("input/pointcloud", m) == 1 && out() == 1, "every cloud is published once"); if (out() != 1) return; const auto& c = cloud(0);
    sv_check(layout(m, c, named ? "os_lidar" : "lidar") && c.width == (unsigned)n && c.height == 1, "formatted clouds keep their layout and get the frame of the lidar");
    for (int f = 0; f < 6; ++f) sv_check(c.fields[f].name == m.fields[f].name && c.fields[f].offset == m.fields[f].offset && c.fields[f].datatype == 7, "all fields are 32-bit reals");
    for (int i = 0; i < n; ++i) {
        for (int k : {0, 4, 8, 24}) sv_eq(rd<float>(c.data, 32 * i + k), rd<float>(m.data, 32 * i + k), "coordinates and intensities are kept");
        sv_eq(rd<float>(c.data, 32 * i + 16), rd<std::uint32_t>(m.data, 32 * i + 16) * 1e-9, "times are in seconds"); sv_eq(rd<float>(c.data, 32 * i + 20), rd<std::uint32_t>(m.data, 32 * i + 20) * 1e-3, "ranges are in metres");
    }
    sv_cover("format_ouster:end");
}
void format_ouster_refused() {  // clouds without 32-bit times and ranges
    frames("os_lidar"); node(); Msg m = ouster(1); const int which = sv_choice("field", 2), how = sv_choice("how", 3); auto& f = m.fields[3 + which]; if (how == 0) f.name = "other"; else f.datatype = how == 1 ? 4 : 8; bool threw = false;
    try { ros::world::send("input/pointcloud", m); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw && out() == 0, "clouds without 32-bit times and ranges are refused"); sv_cover("format_ouster_refused:end");
}
void format_custom() {
    const char* names[] = {"t", "time", "stamp"}; const int a = sv_choice("first", 3), b = sv_choice("second", 3), n = sv_choice("points", 2); if (a == b) return; frames("lidar0"); ros::world::set("pointcloud_type", "CUSTOM"); node();
    const int ta = 1 + sv_choice("type", 8); Msg m = message({field("x", 0, 7), field(names[a], 4, 7), field(names[b], 8, ta)}, 16, n); for (int i = 0; i < n; ++i) { wr(m, 16 * i, sv_realf(nm("x", i).c_str(), -9, 9)); wr(m, 16 * i + 4, sv_realf(nm("y", i).c_str(), -9, 9)); for (int k = 8; k < 16; ++k) m.data[16 * i + k] = sv_u8(nm("z", i, k).c_str(), 0, 255); }
    sv_check(ros::world::send("input/pointcloud", m) == 1 && out() == 1, "every cloud is published once"); if (out() != 1) return; const auto& c = cloud(0); const bool rename = a != 0 && b != 0;
    sv_check(layout(m, c, "lidar0") && c.width == (unsigned)n && c.height == 1, "formatted clouds keep their layout and get the frame of the lidar"); if (c.fields.size() != 3 || c.data.size() != m.data.size()) return;
    for (int f = 0; f < 3; ++f) sv_check(c.fields[f].name == (rename && m.fields[f].name == "time" ? "t" : m.fields[f].name) && c.fields[f].offset == m.fields[f].offset && c.fields[f].datatype == m.fields[f].datatype, "a time field is called t when no other is");
    for (int i = 0; i < n; ++i) { for (int k : {0, 4}) sv_eq(rd<float>(c.data, 16 * i + k), rd<float>(m.data, 16 * i + k), "values are kept"); for (int k = 8; k < 16; ++k) sv_check(c.data[16 * i + k] == m.data[16 * i + k], "values are kept"); }
    sv_cover("format_custom:end");
}
void format_time_filter() {
    const int n = sv_choice("points", 4), given = sv_choice("maximum given", 2), on = sv_choice("enabled", 2); const float max = given ? sv_realf("max", 0, 10) : 0.1f; frames("lidar0"); ros::world::set("pointcloud_type", "CUSTOM"); if (given) ros::world::set<float>("time_field_filter/max", max); ros::world::set<bool>("time_field_filter/enabled", on); node();
    Msg m = message({field("x", 0, 7), field("time", 4, 7)}, 12, n); std::vector<int> keep;
    for (int i = 0; i < n; ++i) { wr(m, 12 * i, sv_realf(nm("x", i).c_str(), -9, 9)); const float t = sv_realf(nm("t", i).c_str(), 0, 10); wr(m, 12 * i + 4, t); sv_assume(t - max > 1e-5 || t <= max); for (int k = 8; k < 12; ++k) m.data[12 * i + k] = sv_u8(nm("p", i, k).c_str(), 0, 255); if (!on || sv_split(t <= max)) keep.push_back(i); }
    sv_check(ros::world::send("input/pointcloud", m) == 1 && out() == 1, "every cloud is published once"); if (out() != 1) return; const auto& c = cloud(0);
    sv_check(layout(m, c, "lidar0") && c.width * c.height == keep.size(), "exactly the points up to the maximum time are kept"); if (c.data.size() != 12 * keep.size()) return;
    for (std::size_t j = 0; j < keep.size(); ++j) { for (int k : {0, 4}) sv_eq(rd<float>(c.data, 12 * j + k), rd<float>(m.data, 12 * keep[j] + k), "kept points are unchanged and in order"); for (int k = 8; k < 12; ++k) sv_check(c.data[12 * j + k] == m.data[12 * keep[j] + k], "kept points are unchanged and in order"); }
    sv_cover("format_time_filter:end");
}
void format_time_filter_ouster() {  // the maximum is in seconds
    const int n = 1 + sv_choice("points", 2); const float max = sv_realf("max", 0, 0.2); frames("lidar0"); ros::world::set<float>("time_field_filter/max", max); ros::world::set<bool>("time_field_filter/enabled", true); node(); const Msg m = ouster(n); std::vector<int> keep;
    for (int i = 0; i < n; ++i) { const double t = rd<std::uint32_t>(m.data, 32 * i + 16) * 1e-9; sv_assume(t - max > 1e-6 || max - t > 1e-6); if (sv_split(t <= max)) keep.push_back(i); }
    ros::world::send("input/pointcloud", m); sv_check(out() == 1, "every cloud is published once"); if (out() != 1) return; const auto& c = cloud(0);
    sv_check(layout(m, c, "lidar0") && c.width * c.height == keep.size(), "exactly the points up to the maximum time are kept"); if (c.data.size() != 32 * keep.size()) return;
    for (std::size_t j = 0; j < keep.size(); ++j) { for (int k : {0, 4, 8, 24}) sv_eq(rd<float>(c.data, 32 * j + k), rd<float>(m.data, 32 * keep[j] + k), "kept points are unchanged and in order"); sv_eq(rd<float>(c.data, 32 * j + 20), rd<std::uint32_t>(m.data, 32 * keep[j] + 20) * 1e-3, "ranges are in metres"); sv_eq(rd<float>(c.data, 32 * j + 16), rd<std::uint32_t>(m.data, 32 * keep[j] + 16) * 1e-9, "times are in seconds"); }
    sv_cover("format_time_filter_ouster:end");
}
void format_time_filter_refused() {
    frames("lidar0"); ros::world::set("pointcloud_type", "CUSTOM"); ros::world::set<bool>("time_field_filter/enabled", true); node(); const int t = 1 + sv_choice("type", 8), named = sv_choice("named", 3); const char* names[] = {"t", "time", "stamp"}; Msg m = message({field(names[named], 0, t)}, 8, 1); for (int k = 0; k < 8; ++k) m.data[k] = 0; bool threw = false;
    try { ros::world::send("input/pointcloud", m); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == (named == 2 || t != 7) && out() == (threw ? 0u : 1u), "filtering by time needs 32-bit real times"); sv_cover(threw ? "format_time_filter_refused:refused" : "format_time_filter_refused:accepted");
}
void format_first() {
    const int set = sv_choice("removal", 3), n = sv_choice("clouds", 4); frames("lidar0"); if (set) ros::world::set<bool>("first_pointcloud_removal/enabled", set == 2); node();
    for (int i = 0; i < n; ++i) { Msg m = ouster(0); m.header.seq = 10 + i; ros::world::send("input/pointcloud", m); }
    const int skip = set == 2 && n > 0 ? 1 : 0; sv_check((int)out() == n - skip, "at most the first cloud is dropped"); for (int i = 0; i < (int)out(); ++i) sv_check((int)cloud(i).header.seq == 10 + skip + i, "clouds are published in order"); sv_cover("format_first:end");
}
void sensor_names() {
    std::string s = sv_choice("name", 2) ? "OUSTER" : "CUSTOM"; const bool ouster = s == "OUSTER"; const int how = sv_choice("how", 4), at = sv_choice("at", 6); bool same = true; char c = (char)sv_u8("c", 1, 127);
    if (how == 1) { same = sv_split(c == s[at]); if (!same) s[at] = c; } else if (how == 2) { s += c; same = false; } else if (how == 3) { s.resize(at); same = false; }
    bool threw = false; try { const serpent::SensorType t = serpent::to_sensor_type(s); sv_check(t == (ouster ? serpent::SensorType::OUSTER : serpent::SensorType::CUSTOM), "sensor types have their names"); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == !same, "unknown sensor types are refused"); sv_cover(threw ? "sensor_names:refused" : "sensor_names:known");
}
}
