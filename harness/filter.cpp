// The point cloud filter, run as a node: parameters in, clouds in, clouds out.
#include "sv.h"
#include "sv_eigen.h"
#include <serpent/front_end/lidar/pointcloud_filter.hpp>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
typedef pcl::PCLPointCloud2 Cloud;
static const int STEP = 24;
static std::string nm(const char* n, int a, int b = -1) { std::string s = n; for (int v : {a, b}) if (v >= 0) s += "_" + std::to_string(v); return s; }
static pcl::PCLPointField field(const char* n, int off, int t) { pcl::PCLPointField f; f.name = n; f.offset = off; f.datatype = t; f.count = 1; return f; }
static float rd(const Cloud& c, int i, int off) { float v; std::memcpy(&v, &c.data[i * STEP + off], 4); return v; }
static Cloud cloud(int n, bool range = true, bool values = true) {
    Cloud c; c.header.stamp = 123456; c.header.frame_id = "lidar"; c.height = 1; c.width = n; c.is_dense = 1; c.is_bigendian = 0; c.fields = {field("x", 0, 7), field("y", 4, 7), field("z", 8, 7), field("intensity", 12, 7)}; if (range) c.fields.push_back(field("range", 16, 7)); c.point_step = STEP; c.row_step = n * STEP; c.data.resize(n * STEP);
    if (values) for (int i = 0; i < n; ++i) for (int k = 0; k < STEP; k += 4) { const float v = sv_realf(nm("v", i, k).c_str(), -20, 20); std::memcpy(&c.data[i * STEP + k], &v, 4); } return c;
}
static const char* STAGES[] = {"voxel_grid_filter", "body_filter", "range_filter", "statistical_outlier_removal", "random_sample_filter"};
static void enable(int mask) { for (int k = 0; k < 5; ++k) ros::world::set(std::string(STAGES[k]) + "/enabled", (mask >> k & 1) != 0); }
static void set(const char* p, const char* n, double v) { ros::world::set(std::string(p) + "/" + n, v); }
// exactly these points, unchanged and in order
static void kept(const Cloud& in, const std::vector<int>& k, const std::string& topic, const char* msg) {
    sv_check(ros::world::count<Cloud>() == 1 && ros::world::topic<Cloud>(0) == topic, "every cloud is published once on the output topic"); if (ros::world::count<Cloud>() != 1) return; const Cloud& o = ros::world::published<Cloud>(0);
    sv_check(o.header.stamp == in.header.stamp && o.header.frame_id == in.header.frame_id, "the filtered cloud keeps stamp and frame"); sv_check(o.width * o.height == k.size() && o.data.size() == k.size() * STEP && o.point_step == (unsigned)STEP, msg); if (o.data.size() != k.size() * STEP || o.point_step != (unsigned)STEP) return;
    sv_check(o.fields.size() == in.fields.size(), "all fields are kept"); for (std::size_t i = 0; i < k.size(); ++i) for (int b = 0; b < STEP; b += 4) sv_eq(rd(o, i, b), rd(in, k[i], b), "the remaining points are unchanged and in order");
}
extern "C" {
void filter_chain() {  // every set of enabled filters
    const int mask = 1 + sv_choice("enabled", 31); enable(mask); const bool named = sv_choice("topic", 2) != 0; const std::string input = named ? "some/points" : "input/pointcloud"; auto& F = named ? *new serpent::PointcloudFilter(input) : *new serpent::PointcloudFilter();
    const ros::Publisher* P[] = {&F.voxel_grid_pointcloud_publisher, &F.body_pointcloud_publisher, &F.range_pointcloud_publisher, &F.statistical_outlier_pointcloud_publisher, &F.random_sample_pointcloud_publisher}; const pcl::PCLBase<Cloud>* A[] = {&F.voxel_grid_filter, &F.body_filter, &F.range_filter, &F.sor_filter, &F.random_sample_filter};
    int n = 0; std::string from = input; sv_check(F.output_topic() != input, "the output is another topic");
    for (int k = 0; k < 5; ++k) {
        if (!(mask >> k & 1)) { sv_check(P[k]->getTopic().empty(), "disabled filters publish nothing"); continue; } const std::string to = P[k]->getTopic();
        sv_check(ros::world::subscribed<Cloud>(from) == 1, "every filter takes the output of the enabled filter before it"); sv_check(((mask >> k) == 1) == (to == F.output_topic()), "exactly the last enabled filter publishes the output"); sv_check(!to.empty() && to != from, "every filter has its own topic");
        const std::size_t before = ros::world::count<Cloud>(); const Cloud c = cloud(0); sv_check(!A[k]->input_, "filters get clouds in order"); sv_check(ros::world::send(from, c) == 1 && ros::world::count<Cloud>() == before + 1 && ros::world::topic<Cloud>(before) == to, "every filter publishes what it filtered"); sv_check(A[k]->input_ && A[k]->input_->header.frame_id == "lidar", "the filters are applied in the documented order"); from = to; ++n;
    }
    sv_check((int)ros::world::Bus<Cloud>::in().size() == n, "only enabled filters subscribe"); sv_cover("filter_chain:end");
}
void filter_body() {
    enable(2); const int n = 1 + sv_choice("points", 2); double lo[3], hi[3], t[3]; const char* x[] = {"x", "y", "z"}; for (int k = 0; k < 3; ++k) { set("body_filter/min", x[k], lo[k] = sv_real(nm("min", k).c_str(), -5, 5)); set("body_filter/max", x[k], hi[k] = sv_real(nm("max", k).c_str(), -5, 5)); set("body_filter/translation", x[k], t[k] = sv_real(nm("translation", k).c_str(), -5, 5)); }
    auto& F = *new serpent::PointcloudFilter(); const Cloud c = cloud(n); std::vector<int> k; bool removed = false;
    for (int i = 0; i < n; ++i) { bool in = true; for (int d = 0; d < 3; ++d) { const double p = rd(c, i, 4 * d) - t[d]; sv_assume(std::abs(p - lo[d]) > 1e-3); sv_assume(std::abs(p - hi[d]) > 1e-3); if (!(lo[d] < p && p < hi[d])) in = false; } if (sv_split(in)) removed = true; else k.push_back(i); }
    ros::world::send("input/pointcloud", c); kept(c, k, F.output_topic(), "exactly the points on the body are removed"); sv_cover(removed ? "filter_body:removed" : "filter_body:kept");
}
void filter_range() {
    enable(4); const int n = sv_choice("points", 4); const double lo = sv_real("min", -5, 20), hi = sv_real("max", -5, 20); set("range_filter", "min", lo); set("range_filter", "max", hi); auto& F = *new serpent::PointcloudFilter(); const Cloud c = cloud(n); std::vector<int> k;
    for (int i = 0; i < n; ++i) { const double r = rd(c, i, 16); sv_assume(std::abs(r - lo) > 1e-3); sv_assume(std::abs(r - hi) > 1e-3); if (sv_split(lo < r && r < hi)) k.push_back(i); }
    ros::world::send("input/pointcloud", c); if (n) kept(c, k, F.output_topic(), "exactly the points within the range limits remain"); else sv_check(ros::world::count<Cloud>() == 1 && ros::world::published<Cloud>(0).data.empty(), "no points remain of an empty cloud"); sv_cover((int)k.size() < n ? "filter_range:removed" : "filter_range:kept");
}
void filter_range_default() {
    enable(4); auto& F = *new serpent::PointcloudFilter(); const Cloud c = cloud(2); std::vector<int> k; for (int i = 0; i < 2; ++i) { const double r = rd(c, i, 16); sv_assume(std::abs(r) > 1e-3); if (sv_split(r > 0)) k.push_back(i); } ros::world::send("input/pointcloud", c); kept(c, k, F.output_topic(), "by default only points at no distance are removed"); sv_cover("filter_range_default:end");
}
void filter_parameters() {  // every parameter reaches its filter
    enable(31); float v[14]; for (int i = 0; i < 14; ++i) v[i] = sv_realf(nm("p", i).c_str(), 0.01f, 5); const char* x[] = {"x", "y", "z"}; const char* r[] = {"rx", "ry", "rz"}; const int k = 1 + sv_choice("mean_k", 20), size = sv_choice("sample_size", 50), seed = sv_choice("random_seed", 9); sv_tol(1e-5);
    for (int d = 0; d < 3; ++d) { set("body_filter/min", x[d], v[d]); set("body_filter/max", x[d], v[3 + d]); set("body_filter/translation", x[d], v[6 + d]); set("body_filter/rotation", r[d], v[9 + d]); }
    set("voxel_grid_filter", "leaf_size", v[12]); set("voxel_grid_filter", "minimum_points_number_per_voxel", 3); set("statistical_outlier_removal", "stddev_mul_thresh", v[13]); ros::world::set("statistical_outlier_removal/mean_k", k); ros::world::set("random_sample_filter/sample_size", size); ros::world::set("random_sample_filter/random_seed", seed);
    auto& F = *new serpent::PointcloudFilter();
    for (int d = 0; d < 3; ++d) { sv_eq(F.body_filter.getMin()[d], v[d], "body region minimum"); sv_eq(F.body_filter.getMax()[d], v[3 + d], "body region maximum"); sv_eq(F.body_filter.getTranslation()[d], v[6 + d], "body region translation"); sv_eq(F.body_filter.getRotation()[d], v[9 + d], "body region rotation"); sv_eq(F.voxel_grid_filter.getLeafSize()[d], v[12], "voxel size"); }
    sv_check(F.voxel_grid_filter.getMinimumPointsNumberPerVoxel() == 3, "points per voxel"); sv_check(F.voxel_grid_filter.getDownsampleAllData(), "all fields are kept"); sv_check(F.sor_filter.getMeanK() == k, "neighbours for outlier removal"); sv_eq(F.sor_filter.getStddevMulThresh(), v[13], "outlier threshold"); sv_check((int)F.random_sample_filter.getSample() == size && (int)F.random_sample_filter.getSeed() == seed, "random sample"); sv_check(!F.sor_filter.getNegative() && !F.random_sample_filter.getNegative() && !F.range_filter.getNegative(), "filters keep what they select"); sv_cover("filter_parameters:end");
}
void filter_refused() {
    const int w = sv_choice("which", 3); bool threw = false; if (w == 2) { enable(4); new serpent::PointcloudFilter(); try { ros::world::send("input/pointcloud", cloud(1, false)); } catch (const std::runtime_error&) { threw = true; } sv_check(threw && !ros::world::count<Cloud>(), "clouds without ranges are refused by the range filter"); sv_cover("filter_refused:range"); return; }
    enable(16); const int v = sv_choice("value", 5) - 2; ros::world::set(w ? "random_sample_filter/random_seed" : "random_sample_filter/sample_size", v); try { new serpent::PointcloudFilter(); } catch (const std::runtime_error&) { threw = true; } sv_check(threw == (v < 0), "negative sample sizes and seeds are refused"); sv_cover("filter_refused:sample");
}
}
