// The mapping node: which clouds it keeps, where it keeps them, and the local and global maps it makes of them.
#include "sv.h"
#include "sv_eigen.h"
#include <pcl/filters/voxel_grid.h>
#include <pointcloud_tools/point_types.hpp>
typedef PointNormalUnit Point; typedef pcl::PointCloud<Point> Cloud;
// Downsampling is the environment: it records its input and gives its first point.
struct Sampled { std::size_t points; float leaf; unsigned least; };
static std::vector<Sampled>& sampled() { static std::vector<Sampled>& v = *new std::vector<Sampled>(); return v; }
namespace pcl { template<> void VoxelGrid<Point>::applyFilter(Cloud& out) { sampled().push_back({input_->size(), leaf_size_[0], min_points_per_voxel_}); sv_check(leaf_size_[1] == leaf_size_[0] && leaf_size_[2] == leaf_size_[0], "voxels are cubes"); out.clear(); if (!input_->empty()) out.push_back((*input_)[0]); out.header = input_->header; } }
#include <serpent/mapping/mapping.hpp>
using Eigen::Isometry3d; using Eigen::Matrix3d; using Eigen::Quaterniond; using Eigen::Vector3d; typedef XmlRpc::XmlRpcValue Value; namespace world = ros::world; typedef serpent::Mapping<Point> Map;
static std::string id(const char* n, int i) { return std::string(n) + std::to_string(i); }
static const Quaterniond TURNS[] = {{1, 0, 0, 0}, {0.5, 0.5, 0.5, 0.5}, {0.5, -0.5, 0.5, 0.5}, {0, 1, 0, 0}, {0, 0, 1, 0}};
static Matrix3d turn(int i) { return sv::rotation_of(TURNS[i]); }
static Isometry3d iso(const Matrix3d& R, const Vector3d& t) { Isometry3d T = Isometry3d::Identity(); T.linear() = R; T.translation() = t; return T; }
static Isometry3d inv(const Isometry3d& T) { Isometry3d I = Isometry3d::Identity(); I.linear() = T.linear().transpose(); for (int i = 0; i < 3; ++i) { double s = 0; for (int k = 0; k < 3; ++k) s -= T.linear()(k, i) * T.translation()[k]; I.translation()[i] = s; } return I; }
static void put(Value& v, const Vector3d& t, const Quaterniond& q) { const char* n[] = {"x", "y", "z"}; for (int k = 0; k < 3; ++k) v["translation"][n[k]] = t[k]; auto& r = v["rotation"]; r["w"] = q.w(); r["x"] = q.x(); r["y"] = q.y(); r["z"] = q.z(); }
template<typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static ros::Time at(int k) { return ros::Time(100 + k / 2, k % 2 * 500000000); }
static Vector3d xyz(const Point& p) { return Vector3d(p.x, p.y, p.z); }
// The search for near poses is the environment too: any answer is possible.
struct Asked { Vector3d p; std::vector<Vector3d> poses; std::vector<int> got; };
struct Search : pcl::search::KdTree<PointAngleAxis> {
    typedef pcl::PointCloud<PointAngleAxis> Poses; std::vector<Asked> log; int rotate = 0;
    bool setInputCloud(const Poses::ConstPtr& cloud, const pcl::IndicesConstPtr& = pcl::IndicesConstPtr()) override { this->input_ = cloud; return true; }
    int nearestKSearch(const PointAngleAxis& p, int k, pcl::Indices& i, std::vector<float>& d) const override { Asked a; a.p = Vector3d(p.x, p.y, p.z); for (const auto& q : *this->input_) a.poses.push_back(Vector3d(q.x, q.y, q.z)); const int n = a.poses.size(); sv_check(k <= n && k >= 1, "no more poses are asked for than there are"); i.clear(); d.clear(); for (int j = 0; j < k; ++j) { i.push_back((rotate + j) % n); d.push_back(j); } a.got = i; const_cast<Search*>(this)->log.push_back(a); return k; }
};
struct Frame { int key; Isometry3d pose; int cloud; };
struct Node {
    Isometry3d lidar; Map& m; Search* search = nullptr; std::vector<Frame> frames; std::vector<Vector3d> points;
    static Map& make(Isometry3d& lidar) { lidar = iso(turn(1), sv::vector<3>("lidar", -2, 2)); Value v; auto& b = v["body"]; b["frame_id"] = std::string("body_id"); auto& f = b["frames"]; put(f["lidar"], lidar.translation(), TURNS[1]); f["lidar"]["frame_id"] = std::string("lidar_id"); world::set("body_frames", v); world::set("map_frame_id", "the_map"); return *new Map(); }
    explicit Node(bool nearby, int n, double distance, double angle, bool local, bool global) : m((world::set("mapping/frame_extraction_method", std::string(nearby ? "NEARBY" : "PAST")), world::set("mapping/frame_extraction_number", n), world::set("mapping/distance_threshold", distance), world::set("mapping/rotation_threshold", angle), world::set("mapping/voxel_grid_filter/enabled_local", local), world::set("mapping/voxel_grid_filter/enabled_global", global), world::set("mapping/voxel_grid_filter/leaf_size", 0.25), world::set("mapping/voxel_grid_filter/minimum_points_number_per_voxel", 3.0), make(lidar))) { if (nearby) { search = new Search(); m.nearby_search.reset(search); } }
    bool held() { return m.map_mutex.native_handle()->__data.__lock != 0; }
    Cloud cloud(int key, bool plain = false) { Cloud c; c.header.stamp = 100000000ull + key * 500000ull; c.header.frame_id = "lidar_id"; const Vector3d v = plain ? Vector3d(1 + key, 2, 3) : sv::vector<3>(id("c", key).c_str(), -8, 8); Point p{}; p.x = v[0]; p.y = v[1]; p.z = v[2]; p.normal_z = 1; p.ux = 1; p.curvature = key; c.push_back(p); if ((int)points.size() <= key) points.resize(key + 1); points[key] = v; return c; }
    void path(int key, const std::vector<int>& keys, const std::vector<Isometry3d>& body, const std::vector<int>& turns) { nav_msgs::Path p; p.header.stamp = at(key); for (std::size_t i = 0; i < keys.size(); ++i) { geometry_msgs::PoseStamped s; s.header.stamp = at(keys[i]); s.header.frame_id = "the_map"; const Vector3d t = body[i].translation(); s.pose.position.x = t[0]; s.pose.position.y = t[1]; s.pose.position.z = t[2]; const Quaterniond q = TURNS[turns[i]]; s.pose.orientation.w = q.w(); s.pose.orientation.x = q.x(); s.pose.orientation.y = q.y(); s.pose.orientation.z = q.z(); p.poses.push_back(s); } world::send("optimisation/path_changes", p); }
};
static void check_cloud(const Cloud& c, std::size_t i, const Isometry3d& T, const Vector3d& p, int key, const char* m) { sv_check(i < c.size(), m); if (i >= c.size()) return; const Vector3d q = T * p, x = T.linear() * Vector3d(1, 0, 0), z = T.linear() * Vector3d(0, 0, 1); for (int k = 0; k < 3; ++k) { sv_eq(xyz(c[i])[k], q[k], m); sv_eq(c[i].data_n[k], z[k], m); sv_eq(k == 0 ? c[i].ux : k == 1 ? c[i].uy : c[i].uz, x[k], m); } sv_eq(c[i].curvature, key, m); }
extern "C" {
// Every cloud gives a local map, in its lidar's frame, of the clouds kept so far, at their latest poses.
void mapping_local() {
    const bool nearby = sv_choice("nearby", 2); const int n = 1 + sv_choice("frames", 3); const double distance = sv_real("distance", 0.5, 2), angle = sv_real("angle", 0.1, 4); sv_assume(std::abs(angle - M_PI) > 1e-3); Node node(nearby, n, distance, angle, false, true); sv_check(world::count<Cloud>() == 0, "nothing is published at first");
    static const int KEYS[] = {0, 1, 3}; std::vector<int> keys, turns; for (int i = 0; i < 3; ++i) {
        keys.push_back(KEYS[i]); turns.push_back(i == 0 ? 0 : i == 1 ? sv_choice("turn", 2) * 3 : 3); const bool change = i == 2 && sv_choice("changed", 2); if (change) turns[1] = 4; std::vector<Isometry3d> body; for (int k = 0; k <= i; ++k) body.push_back(iso(turn(turns[k]), Vector3d(sv_real((id("x", i) + id("_", k)).c_str(), -8, 8), k, change ? 5 : 0))); if (i == 2 && !change) body[0] = node.frames[0].pose * inv(node.lidar);  // (this pose stays)
        for (int k = 0; k < i; ++k) for (auto& f : node.frames) if (f.key == KEYS[k]) f.pose = body[k] * node.lidar;
        const Isometry3d pose = body[i] * node.lidar; bool keep = node.frames.empty(); if (!keep) { const Isometry3d& last = node.frames.back().pose; const Vector3d d = pose.translation() - last.translation(); const double s = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]; sv_assume(std::abs(s - distance * distance) > 1e-3); double trace = 0; for (int k = 0; k < 3; ++k) trace += (last.linear().transpose() * pose.linear())(k, k); if (trace < 0 && sv_split(M_PI > angle)) keep = true; else keep = sv_split(s > distance * distance); }
        const std::size_t was = world::count<Cloud>(); if (node.search) node.search->rotate = sv_choice(id("rotate", i).c_str(), i + 1); const bool first = i == 1; const Cloud c = node.cloud(KEYS[i]); if (first) node.path(KEYS[i], keys, body, turns); world::send("normal_estimation/pointcloud", c); if (!first) node.path(KEYS[i], keys, body, turns); if (keep) node.frames.push_back({KEYS[i], pose, KEYS[i]});
        sv_check(!node.held(), "the map is left unlocked"); sv_check(node.m.map.size() == node.frames.size(), "a cloud is kept when it is the first, or far enough from the last one"); if (node.m.map.size() != node.frames.size()) return; sv_check(world::count<Cloud>() == was + 1 && world::topic<Cloud>(was) == "mapping/local_map" && sampled().empty(), "every cloud gives a local map"); if (world::count<Cloud>() != was + 1) return;
        const Cloud& o = world::published<Cloud>(was); sv_check(o.header.stamp == c.header.stamp && o.header.frame_id == "lidar_id", "a local map is in the frame of the lidar, at the time of its cloud"); const std::size_t f = node.frames.size(), due = f < (std::size_t)n ? f : n; sv_check(o.size() == due, "a local map has the clouds of so many frames"); if (o.size() != due) return; sv_tol(1e-3);
        if (nearby) { sv_check(node.search->log.size() == (std::size_t)i + 1, "the near poses are searched"); if (node.search->log.size() != (std::size_t)i + 1) return; const Asked& a = node.search->log.back(); sv_check(a.poses.size() == f, "all poses of the map are searched"); if (a.poses.size() != f) return; for (int k = 0; k < 3; ++k) { sv_eq(a.p[k], pose.translation()[k], "poses near the new one are searched"); for (std::size_t j = 0; j < f; ++j) sv_eq(a.poses[j][k], node.frames[j].pose.translation()[k], "the latest poses are searched"); } for (std::size_t j = 0; j < due; ++j) { const Frame& g = node.frames[a.got[j]]; check_cloud(o, j, inv(pose) * g.pose, node.points[g.key], g.key, "clouds are brought from their latest pose to the new one"); } }
        else for (std::size_t j = 0; j < due; ++j) { const Frame& g = node.frames[f - 1 - j]; check_cloud(o, j, inv(pose) * g.pose, node.points[g.key], g.key, "clouds are brought from their latest pose to the new one"); }
    }
    sv_cover(node.frames.size() == 3 ? "mapping_local:kept" : "mapping_local:dropped"); sv_cover(nearby ? "mapping_local:nearby" : "mapping_local:past");
}
// The global map has every kept cloud, in the frame of the map; the pose graph has them with their poses.
void mapping_global() {
    const bool nearby = sv_choice("nearby", 2), local = sv_choice("local", 2), global = sv_choice("global", 2); const int n = sv_choice("clouds", 4); Node node(nearby, 5, 0.5, 10, local, global); std::vector<int> keys, turns; std::vector<Isometry3d> body;
    for (int i = 0; i < n; ++i) { keys.push_back(i); turns.push_back(i); body.clear(); for (int k = 0; k <= i; ++k) body.push_back(iso(turn(turns[k]), Vector3d(2 * k, sv_real(id("y", 10 * i + k).c_str(), -8, 8), sv_real(id("z", 10 * i + k).c_str(), -8, 8)))); world::send("normal_estimation/pointcloud", node.cloud(i)); const Isometry3d a = i ? body[i] * node.lidar : body[0]; if (i) { const Vector3d d = a.translation() - (body[i - 1] * node.lidar).translation(); sv_assume(d[0] * d[0] + d[1] * d[1] + d[2] * d[2] > 1); } node.path(i, keys, body, turns); } for (int i = 0; i < n; ++i) node.frames.push_back({i, body[i] * node.lidar, i});
    sv_check((int)node.m.map.size() == n && (int)world::count<Cloud>() == n && sampled().size() == (local ? n : 0u), "every cloud gives a local map, downsampled if asked for"); if ((int)node.m.map.size() != n || (int)world::count<Cloud>() != n) return; for (int i = 0; i < n; ++i) sv_check((int)world::published<Cloud>(i).size() == (local ? 1 : i + 1), "the local map is downsampled if asked for"); for (const auto& s : sampled()) sv_check(s.leaf == 0.25f && s.least == 3, "downsampling has the leaf and least number of points it was given"); sampled().clear();
    std_srvs::Empty e; sv_check(world::call("publish_map", e.request, e.response) == 1 && !node.held(), "the global map is published on request"); sv_check((int)world::count<Cloud>() == n + 1 && world::topic<Cloud>(n) == "output/global_map", "the global map is published on request"); if ((int)world::count<Cloud>() != n + 1) return; const Cloud& o = world::published<Cloud>(n); sv_check(sampled().size() == (global ? 1u : 0u), "the global map is downsampled if asked for"); sv_check(n == 0 || o.header.frame_id == "the_map", "the global map is in the frame of the map"); if (global && n) sv_check(sampled().size() == 1 && sampled()[0].points == (std::size_t)n && sampled()[0].leaf == 0.25f && sampled()[0].least == 3, "the whole map is downsampled");
    sv_check((int)o.size() == (global && n ? 1 : n), "the global map has every kept cloud"); sv_tol(1e-3); for (std::size_t i = 0; i < o.size() && (int)i < n; ++i) check_cloud(o, i, node.frames[i].pose, node.points[i], i, "clouds are placed at their latest poses"); sv_cover(global ? "mapping_global:sampled" : "mapping_global:all");
}
void mapping_graph() {
    const bool nearby = sv_choice("nearby", 2); const int n = sv_choice("clouds", 4); Node node(nearby, 5, 0.5, 10, true, true); std::vector<int> keys, turns; std::vector<Isometry3d> body; for (int i = 0; i < n; ++i) { keys.push_back(i); turns.push_back(i); body.clear(); for (int k = 0; k <= i; ++k) body.push_back(iso(turn(turns[k]), Vector3d(20 * k, 10 * i + k, k))); if (i == n - 1) for (int k = 0; k <= i; ++k) body[k].translation()[2] = sv_real(id("z", k).c_str(), -1, 1); world::send("normal_estimation/pointcloud", node.cloud(i, true)); node.path(i, keys, body, turns); }
    std_srvs::Empty e; sv_check(world::call("publish_pose_graph", e.request, e.response) == 1 && !node.held() && world::count<serpent::PoseGraph>() == 1 && world::topic<serpent::PoseGraph>(0) == "output/pose_graph", "the pose graph is published on request"); if (world::count<serpent::PoseGraph>() != 1) return; const auto& g = world::published<serpent::PoseGraph>(0); sv_check((int)g.clouds.size() == n && (int)g.poses.size() == n, "the pose graph has every kept cloud and its pose"); if ((int)g.clouds.size() != n || (int)g.poses.size() != n) return; sv_tol(1e-6);
    for (int i = 0; i < n; ++i) { const auto& p = g.poses[i]; const Isometry3d T = body[i] * node.lidar; sv_check(p.header.stamp == at(i), "a pose has the time of its cloud"); const auto& t = p.pose.pose.position; const auto& q = p.pose.pose.orientation; sv_eq(t.x, T.translation()[0], "poses are those of the lidar in the map"); sv_eq(t.y, T.translation()[1], "poses are those of the lidar in the map"); sv_eq(t.z, T.translation()[2], "poses are those of the lidar in the map"); sv::eq(sv::rotation_of(Quaterniond(q.w, q.x, q.y, q.z)), Matrix3d(T.linear()), "poses are those of the lidar in the map"); const auto& c = g.clouds[i]; sv_check(c.header.stamp == at(i) && c.header.frame_id == "lidar_id" && c.width * c.height == 1, "clouds are those that were kept"); for (const auto& f : c.fields) if (f.name == "x" && c.data.size() >= f.offset + 4) { float x; std::memcpy(&x, &c.data[f.offset], 4); sv_check(x == 1 + i, "clouds are those that were kept"); } } sv_cover("mapping_graph:end");
}
void mapping_refused() {
    const int what = sv_choice("what", 5); static const char* METHODS[] = {"NEARBY", "PAST", "nearby", ""}; if (what == 0) { const int k = sv_choice("method", 4), n = sv_choice("number", 3) - 1; world::set("mapping/frame_extraction_method", std::string(METHODS[k])); world::set("mapping/frame_extraction_number", n); Isometry3d l; sv_check(throws([&] { Node::make(l); }) == (k > 1 || n < 1), "unknown methods and less than one frame are refused, others are not"); sv_cover("mapping_refused:parameters"); return; }
    Node node(what & 1, 2, 1, 1, false, false); world::send("normal_estimation/pointcloud", node.cloud(1)); std::vector<int> keys, turns; std::vector<Isometry3d> body; if (what > 2) { keys = {0, 2}; turns = {0, 0}; body = {iso(turn(0), Vector3d(0, 0, 0)), iso(turn(0), Vector3d(9, 0, 0))}; } sv_check(throws([&] { node.path(1, keys, body, turns); }), "a path without the pose of the cloud is refused"); sv_check(!node.held() && node.m.map.empty() && world::count<Cloud>() == 0, "a refused path leaves the map as it was"); sv_cover("mapping_refused:path");
}
}
