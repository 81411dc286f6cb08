// The front end node: what it publishes for every order of clouds, images, inertial measurements, pressures and optimised states.
#include "sv.h"
#include "sv_eigen.h"
#include <gtsam/inference/Symbol.h>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <serpent/ImuArray.h>
#include <serpent/ImuBiases.h>
#include <serpent/front_end/frontend.hpp>
#include "../models/deskew.h"
#include "../models/preint.h"
#include <cstring>
#include <functional>
using Eigen::Isometry3d; using Eigen::Matrix3d; using Eigen::Quaterniond; using Eigen::Vector3d; using gtsam::Pose3; using gtsam::imuBias::ConstantBias; using gtsam::Key; using gtsam::symbol_shorthand::B; using gtsam::symbol_shorthand::P; using gtsam::symbol_shorthand::S; using gtsam::symbol_shorthand::V; using gtsam::symbol_shorthand::X;
typedef XmlRpc::XmlRpcValue Value; typedef Eigen::Matrix<double, 6, 6> Matrix6;
namespace world = ros::world;
static std::string id(const char* n, int i) { return std::string(n) + std::to_string(i); }
// attitudes that are exact in floating point
static const Quaterniond TURNS[] = {{1, 0, 0, 0}, {0.5, 0.5, 0.5, 0.5}, {0.5, -0.5, 0.5, 0.5}, {0, 1, 0, 0}};
static Matrix3d turn(int i) { return sv::rotation_of(TURNS[i]); }
static Isometry3d iso(const Matrix3d& R, const Vector3d& t) { Isometry3d T = Isometry3d::Identity(); T.linear() = R; T.translation() = t; return T; }
static Isometry3d inv(const Isometry3d& T) { Isometry3d I = Isometry3d::Identity(); I.linear() = T.linear().transpose(); for (int i = 0; i < 3; ++i) { double s = 0; for (int k = 0; k < 3; ++k) s -= T.linear()(k, i) * T.translation()[k]; I.translation()[i] = s; } return I; }
static Pose3 pose(int i, const Vector3d& t) { return Pose3(gtsam::Rot3(turn(i)), t); }
static Isometry3d iso(const Pose3& p) { return iso(p.rotation().matrix(), p.translation()); }
static void put(Value& v, const Vector3d& t, const Quaterniond& q) { const char* n[] = {"x", "y", "z"}; for (int k = 0; k < 3; ++k) v["translation"][n[k]] = t[k]; auto& r = v["rotation"]; r["w"] = q.w(); r["x"] = q.x(); r["y"] = q.y(); r["z"] = q.z(); }
static void same(const Vector3d& a, const Vector3d& b, const char* m) { for (int i = 0; i < 3; ++i) sv_eq(a(i), b(i), m); }
static void same(const Pose3& a, const Isometry3d& b, const char* m) { same(Vector3d(a.translation()), b.translation(), m); sv::eq(Matrix3d(a.rotation().matrix()), Matrix3d(b.linear()), m); }
static void same(const Pose3& a, const Pose3& b, const char* m) { same(a, iso(b), m); }
template<typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static Vector3d xyz(const geometry_msgs::Vector3& v) { return Vector3d(v.x, v.y, v.z); }
static Vector3d xyz(const geometry_msgs::Point& v) { return Vector3d(v.x, v.y, v.z); }
static Quaterniond quat(const geometry_msgs::Quaternion& q) { return Quaterniond(q.w, q.x, q.y, q.z); }
static void write(geometry_msgs::Quaternion& m, const Quaterniond& q) { m.w = q.w(); m.x = q.x(); m.y = q.y(); m.z = q.z(); }
static void same(const Eigen::Isometry3d& a, const Isometry3d& b, const char* m) { same(Vector3d(a.translation()), Vector3d(b.translation()), m); sv::eq(Matrix3d(a.linear()), Matrix3d(b.linear()), m); }
// Times are in sixteenths of a second; an inertial measurement is taken at every odd one, a cloud at every fourth, which takes three.
static ros::Time at(int k) { return ros::Time(100 + (k + 16) / 16 - 1, (k + 16) % 16 * 62500000); }
static const int SWEEP = 3;
struct Sample { int t; Vector3d a, w; };
struct Node {
    Isometry3d lidar, imu, base; serpent::Frontend& f; std::deque<std::function<void()>> late; std::vector<Sample> samples; int sleeps = 0;
    static serpent::Frontend& make(Isometry3d& lidar, Isometry3d& imu, Isometry3d& base, bool has_base) {
        lidar = iso(turn(1), sv::vector<3>("lidar")); imu = iso(turn(2), sv::vector<3>("imu")); base = iso(turn(3), sv::vector<3>("base")); Value v; auto& b = v["body"]; b["frame_id"] = std::string("body_id"); auto& f = b["frames"]; put(f["lidar"], lidar.translation(), TURNS[1]); put(f["imu"], imu.translation(), TURNS[2]); if (has_base) { put(f["base_link"], base.translation(), TURNS[3]); f["base_link"]["frame_id"] = std::string("base_id"); } world::set("body_frames", v); world::set("map_frame_id", "the_map"); return *new serpent::Frontend();
    }
    explicit Node(bool has_base = true) : f(make(lidar, imu, base, has_base)) { world::on_sleep() = [this](const ros::Duration&) { ++sleeps; sv_check(!held(), "nothing is locked while waiting"); if (late.empty()) { sv_fail("nothing is awaited that was there"); ros::shutdown(); return; } const auto g = late.front(); late.pop_front(); g(); }; }
    static bool held(std::mutex& m) { return m.native_handle()->__data.__lock != 0; }
    bool held() { return held(f.imu_data_mutex) || held(f.preintegration_mutex) || held(f.stereo_data_mutex) || held(f.barometer_data_mutex); }
    void measure(int t, int q = 0, bool plain = false) {
        Sample s{t, plain ? Vector3d(0, 0, 9.81) : sv::vector<3>(id("a", t + 1).c_str()), plain ? Vector3d(0, 0, 0) : sv::vector<3>(id("w", t + 1).c_str())}; samples.push_back(s); sensor_msgs::Imu m; m.header.stamp = at(t); auto& a = m.linear_acceleration; a.x = s.a[0]; a.y = s.a[1]; a.z = s.a[2]; auto& w = m.angular_velocity; w.x = s.w[0]; w.y = s.w[1]; w.z = s.w[2]; write(m.orientation, TURNS[q]); for (int k = 0; k < 3; ++k) { m.linear_acceleration_covariance[4 * k] = 0.25; m.angular_velocity_covariance[4 * k] = 0.5; m.orientation_covariance[4 * k] = 1; }
        sv_check(world::send("input/imu", m) == 1, "the node listens to the inertial sensor"); sv_check(!held(), "nothing is left locked");
    }
    // what the back end sends after the optimisation of a state
    void optimised(int t, const Pose3& p, const Vector3d& v, const ConstantBias& b) {
        nav_msgs::Odometry o; o.header.stamp = at(t); o.header.frame_id = "the_map"; o.child_frame_id = "body_id"; const Vector3d x = p.translation(); o.pose.pose.position.x = x[0]; o.pose.pose.position.y = x[1]; o.pose.pose.position.z = x[2]; const auto q = p.rotation().toQuaternion(); write(o.pose.pose.orientation, q); o.twist.twist.linear.x = v[0]; o.twist.twist.linear.y = v[1]; o.twist.twist.linear.z = v[2]; world::send("optimisation/odometry", o);
        serpent::ImuBiases m; m.header.stamp = at(t); const Vector3d ba = b.accelerometer(), bg = b.gyroscope(); m.accelerometer_bias.x = ba[0]; m.accelerometer_bias.y = ba[1]; m.accelerometer_bias.z = ba[2]; m.gyroscope_bias.x = bg[0]; m.gyroscope_bias.y = bg[1]; m.gyroscope_bias.z = bg[2]; world::send("optimisation/imu_biases", m); sv_check(!held(), "nothing is left locked");
    }
    void image(int t, long extra = 0) { ros::Time s = at(t); s.nsec += extra; sensor_msgs::Image i; i.header.stamp = s; i.width = 7; i.header.frame_id = "left"; sensor_msgs::CameraInfo c; c.header.stamp = s; c.K[0] = 500; world::send("input/stereo/left/image", i); i.width = 8; i.header.frame_id = "right"; world::send("input/stereo/right/image", i); world::send("input/stereo/left/camera_info", c); c.K[0] = 501; world::send("input/stereo/right/camera_info", c); sv_check(!held(), "nothing is left locked"); }
};
static pcl::PCLPointCloud2 cloud(int t, int points = 2) { pcl::PCLPointCloud2 c; c.header.stamp = 100000000ull + (long)t * 62500; c.header.seq = t; c.height = 1; c.width = points; const char* n[] = {"x", "y", "z", "t"}; for (int i = 0; i < 4; ++i) { pcl::PCLPointField f; f.name = n[i]; f.offset = 4 * i; f.datatype = pcl::PCLPointField::FLOAT32; f.count = 1; c.fields.push_back(f); } c.point_step = 16; c.row_step = 16 * points; c.data.resize(16 * points); for (int i = 0; i < points; ++i) { const float v[4] = {float(i + t), 2, 3, SWEEP / 16.0f / (i + 1)}; std::memcpy(&c.data[16 * i], v, 16); } return c; }
struct Bit { int sample; double dt; };
static std::vector<Bit> between(const Node& n, int a, int b) { std::vector<Bit> r; for (std::size_t i = 0; i < n.samples.size(); ++i) { const int s = n.samples[i].t > a ? n.samples[i].t : a, last = i + 1 == n.samples.size() ? b : n.samples[i + 1].t, e = last < b ? last : b; if (s < e) r.push_back({(int)i, (e - s) / 16.0}); } return r; }
// checks the integration of the measurements from a to b, from an event of the log on
static std::size_t check_integrated(const Node& n, std::size_t at, int a, int b, const ConstantBias& bias) {
    const auto& l = preint::log(); for (const Bit& x : between(n, a, b)) { if (at >= l.size() || l[at].kind != 'm') { sv_fail("every measurement between two times is integrated once"); return at; } const auto& e = l[at++]; same(e.acceleration, n.samples[x.sample].a, "the measurements between two times are integrated in order"); same(e.turning, n.samples[x.sample].w, "the measurements between two times are integrated in order"); sv_eq(e.dt, x.dt, "a measurement is integrated for the time until the next"); same(e.bias.accelerometer(), bias.accelerometer(), "the latest biases are used"); same(e.bias.gyroscope(), bias.gyroscope(), "the latest biases are used"); for (int k = 0; k < 3; ++k) { sv_eq(e.accelerometer(k, k), 0.25, "the noise is that of the measurements"); sv_eq(e.gyroscope(k, k), 0.5, "the noise is that of the measurements"); } } return at;
}
static std::size_t check_predicted(std::size_t at, const Pose3& p, const Vector3d& v, const ConstantBias& bias) { const auto& l = preint::log(); if (at >= l.size() || l[at].kind != 'p') { sv_fail("a state is predicted from the integrated measurements"); return at; } const auto& e = l[at]; same(e.position, Vector3d(p.translation()), "a state is predicted from the one before"); sv::eq(e.attitude, Matrix3d(p.rotation().matrix()), "a state is predicted from the one before"); same(e.velocity, v, "a state is predicted from the one before"); same(e.bias.accelerometer(), bias.accelerometer(), "the latest biases are used"); same(e.bias.gyroscope(), bias.gyroscope(), "the latest biases are used"); return at + 1; }
static void check_deskewed(const Node& n, std::size_t i, int start, int state, const Pose3& a, const Pose3& b, bool translation, bool rotation) {
    sv_check(deskewing::calls().size() == i + 1 && world::count<pcl::PCLPointCloud2>() == i + 1, "a cloud is deskewed and published once the next one is there"); if (deskewing::calls().size() != i + 1 || world::count<pcl::PCLPointCloud2>() != i + 1) return; const auto& c = deskewing::calls()[i]; Isometry3d T = inv(n.lidar) * (inv(iso(a)) * iso(b)) * n.lidar; if (!translation) T.translation().setZero(); if (!rotation) T.linear() = turn(0); same(c.skew, T, "a cloud is deskewed with the motion of the lidar during its sweep"); sv_eq(c.dt, SWEEP / 16.0, "a sweep lasts until its last point");
    const std::uint64_t t = 100000000ull + (long)state * 62500; sv_check(c.time == t && c.cloud.header.stamp == 100000000ull + (long)start * 62500 && c.cloud.data == cloud(start).data, "the earlier cloud is deskewed to the time of the state"); const auto& o = world::published<pcl::PCLPointCloud2>(i); sv_check(o.header.stamp == t && o.data.size() == c.cloud.data.size() && world::topic<pcl::PCLPointCloud2>(i) == "frontend/deskewed_pointcloud", "the deskewed cloud is published");
}
static void set(const char* n, double v) { world::set(n, v); }
// what the cloud at start gives as state r, at s1 after the one at s0, whose optimised pose is w; a and e are the answers of the preintegration
static void check_sweep(const Node& n, std::size_t r, int s0, int s1, int start, int unseen, const Pose3& w, const Vector3d& wv, const ConstantBias& b, const Pose3& a, const Vector3d& av, const Pose3& e) {
    sv_check(world::count<serpent::ImuArray>() == r && world::topic<serpent::ImuArray>(r - 1) == "frontend/imu_s2s", "the measurements between two states are sent once"); if (world::count<serpent::ImuArray>() != r) return; const auto& m = world::published<serpent::ImuArray>(r - 1); sv_check(m.start_timestamp == at(s0) && m.end_timestamp == at(s1), "the states are at the first images of their sweeps, else at the clouds"); std::vector<int> due; for (std::size_t i = 0; i < n.samples.size(); ++i) { const int t = n.samples[i].t, next = i + 1 < n.samples.size() ? n.samples[i + 1].t : 99; if (t < s1 && next > s0 && t < unseen) due.push_back(i); } sv_check(m.measurements.size() == due.size(), "the measurements between two states, and the last one before, are sent"); if (m.measurements.size() != due.size()) return;
    for (std::size_t i = 0; i < due.size(); ++i) { const auto& x = m.measurements[i]; const Sample& s = n.samples[due[i]]; sv_check(x.header.stamp == at(s.t), "the measurements between two states, and the last one before, are sent"); same(xyz(x.linear_acceleration), s.a, "measurements are sent as they are"); same(xyz(x.angular_velocity), s.w, "measurements are sent as they are"); for (int k = 0; k < 3; ++k) { sv_eq(x.linear_acceleration_covariance[4 * k], 0.25, "measurements are sent as they are"); sv_eq(x.angular_velocity_covariance[4 * k], 0.5, "measurements are sent as they are"); } }
    std::size_t k = check_integrated(n, 0, s0, start, b); k = check_predicted(k, w, wv, b); if (k < preint::log().size() && preint::log()[k].kind == 'r') ++k; else sv_fail("the integration starts again at the cloud"); k = check_integrated(n, k, start, start + SWEEP, b); k = check_predicted(k, a, av, b); sv_check(k == preint::log().size(), "nothing else is integrated"); check_deskewed(n, r, start, s1, a, e, true, true);
}
extern "C" {
// The first two clouds give the first state, whose odometry is published, and the first deskewed cloud.
void frontend_initial() {
    const int stereo = sv_choice("stereo", 3), offset = stereo ? sv_choice("offset", 5) : 0, ned = sv_choice("ned", 2), q = sv_choice("attitude", 4), late = sv_choice("late", 2), flags = stereo ? 3 : sv_choice("deskew", 4); world::set("optimisation/factors/stereo", stereo != 0); world::set("stereo_tracking/only_graph_frames", stereo == 2); world::set("imu/reference_frame", std::string(ned ? "NED" : "NWU")); world::set("mdc/translation", (flags & 1) != 0); world::set("mdc/rotation", (flags & 2) != 0); world::set("optimisation/factors/barometer", false);
    const double sp = sv_real("sp", 0.01, 1), sr = sv_real("sr", 0.01, 1), sl = sv_real("sl", 0.01, 1); const Vector3d p = sv::vector<3>("p"), v = sv::vector<3>("v"); const char* xyz_[] = {"x", "y", "z"}; for (int k = 0; k < 3; ++k) { set((std::string("pose/position/") + xyz_[k]).c_str(), p[k]); set((std::string("velocity/linear/") + xyz_[k]).c_str(), v[k]); } set("prior_noise/position", sp); set("prior_noise/rotation", sr); set("prior_noise/linear_velocity", sl);
    // images: none before the second cloud (1), at the state (0, 2: between, 3: on a measurement) or with the second cloud (4)
    Node n; const int state = stereo && (offset == 2 || offset == 3) ? offset == 2 ? 2 : 1 : 0; const Pose3 w = pose(2, sv::vector<3>("wp")), e = pose(3, sv::vector<3>("ep")); const Vector3d wv = sv::vector<3>("wv"); const ConstantBias b(sv::vector<3>("ba"), sv::vector<3>("bg")); preint::answer() = [&](const preint::Event&) { return gtsam::NavState(e, Vector3d(1, 2, 3)); };
    world::send("formatter/formatted_pointcloud", cloud(0)); sv_check(world::count<nav_msgs::Odometry>() == 0 && deskewing::calls().empty(), "nothing is published for the first cloud alone"); n.measure(-1, q); const auto frames = [&] { if (!stereo) return; n.image(-4); if (offset == 0) n.image(0); if (state) n.image(state); n.image(4); };
    const auto optimise = [&] { sv_check(world::count<nav_msgs::Odometry>() == 1, "the first odometry is published before its optimisation is awaited"); n.optimised(state, w, wv, b); preint::log().clear(); }; int waits = 1; if (late) { if (stereo) { n.late.push_back(frames); ++waits; } n.late.push_back([&] { n.measure(1, q); }); ++waits; if (state == 2) { n.late.push_back([&] { n.measure(3, q); }); ++waits; } n.late.push_back(optimise); if (state != 2) { n.late.push_back([&] { n.measure(3, q); preint::log().clear(); }); ++waits; } } else { frames(); n.measure(1, q); n.measure(3, q); n.late.push_back(optimise); }
    sv_check(world::send("formatter/formatted_pointcloud", cloud(4)) == 1, "the node listens to the clouds"); sv_check(!n.held(), "nothing is left locked"); sv_check(n.sleeps == waits, "only what is missing is awaited"); if (n.sleeps != waits) return;
    const auto& o = world::published<nav_msgs::Odometry>(0); sv_check(world::topic<nav_msgs::Odometry>(0) == "frontend/initial_odometry" && o.header.stamp == at(state) && o.header.frame_id == "the_map" && o.child_frame_id == "body_id", "the first state is at the first image of the sweep, else at the cloud"); sv_tol(1e-9); same(xyz(o.pose.pose.position), p, "the first pose is that of the parameters"); same(xyz(o.twist.twist.linear), v, "the first velocity is that of the parameters"); Matrix3d down = Matrix3d::Identity(); down(1, 1) = down(2, 2) = -1; const Matrix3d R = (ned ? down : turn(0)) * turn(q) * n.imu.linear().transpose(); sv::eq(sv::rotation_of(quat(o.pose.pose.orientation)), R, "the first attitude is the body's, measured by the inertial sensor in its reference frame");
    const int before = state == 2 ? 1 : state == 1 ? 0 : 0; const double f = state == 2 ? 0.5 : state == 1 ? 1 : 0.5; same(xyz(o.twist.twist.angular), Vector3d(n.samples[before].w * (1 - f) + n.samples[before + 1].w * f), "the first angular velocity is interpolated"); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { sv_eq(o.pose.covariance[6 * i + j], i != j ? 0 : i < 3 ? sp * sp : sr * sr, "the first pose has the noise of the parameters"); sv_eq(o.twist.covariance[6 * i + j], i != j ? 0 : i < 3 ? sl * sl : 0.5, "the first velocity has the noise of the parameters"); }
    std::size_t k = check_integrated(n, 0, 0, SWEEP, b); k = check_predicted(k, w, wv, b); sv_check(k == preint::log().size(), "nothing else is integrated"); check_deskewed(n, 0, 0, state, w, e, flags & 1, flags & 2); sv_check(world::count<serpent::ImuArray>() == 0, "no measurements are sent before there are two states");
    if (stereo) { const bool at_state = offset == 0 || state; const std::size_t expected = stereo == 1 ? 2 + at_state : at_state; sv_check(world::count<sensor_msgs::Image>() == 2 * expected && world::count<sensor_msgs::CameraInfo>() == 2 * expected, "images are sent on as asked for"); if (stereo == 2 && at_state && world::count<sensor_msgs::Image>() == 2) { const auto& l = world::published<sensor_msgs::Image>(0); const auto& r = world::published<sensor_msgs::Image>(1); sv_check(l.header.stamp == at(state) && l.width == 7 && world::topic<sensor_msgs::Image>(0) == "stereo/left/image" && r.header.stamp == at(state) && r.width == 8 && world::topic<sensor_msgs::Image>(1) == "stereo/right/image", "the image of the state is sent on"); } }
    sv_cover(late ? "frontend_initial:late" : "frontend_initial:there"); if (stereo == 2) sv_cover("frontend_initial:graph frames");
}
// Every further cloud gives a state with the measurements since the one before, and a deskewed cloud.
void frontend_sweep() {
    const int stereo = sv_choice("stereo", 2), s0 = stereo ? sv_choice("s0", 3) : 0, s1 = stereo ? 4 + sv_choice("s1", 4) : 4, late = sv_choice("late", 2); world::set("optimisation/factors/stereo", stereo != 0); world::set("optimisation/factors/barometer", true); Node n; const Pose3 w = pose(2, sv::vector<3>("wp")), a = pose(3, sv::vector<3>("ap")), e = pose(1, sv::vector<3>("ep")); const Vector3d wv = sv::vector<3>("wv"), av = sv::vector<3>("av"); const ConstantBias b(sv::vector<3>("ba"), sv::vector<3>("bg")); int asked = 0; preint::answer() = [&](const preint::Event&) { return ++asked == 1 ? gtsam::NavState(a, av) : gtsam::NavState(e, Vector3d(1, 2, 3)); };
    if (stereo) { n.image(s0); n.image(s1); n.image(12); } world::send("formatter/formatted_pointcloud", cloud(0)); n.measure(-1); n.measure(1); n.measure(3); n.late.push_back([&] { n.optimised(s0, w, wv, b); }); world::send("formatter/formatted_pointcloud", cloud(4)); n.measure(5); int waits = 1; sv_check(n.sleeps == 1, "only what is missing is awaited");
    if (late) { n.late.push_back([&] { n.measure(7); asked = 0; preint::log().clear(); }); ++waits; } else n.measure(7); preint::log().clear(); asked = 0; world::send("formatter/formatted_pointcloud", cloud(8)); sv_check(!n.held(), "nothing is left locked"); sv_check(n.sleeps == waits, "only what is missing is awaited"); if (n.sleeps != waits) return;
    check_sweep(n, 1, s0, s1, 4, late ? 7 : 99, w, wv, b, a, av, e);
    // the pressures of both states are published as soon as they are known
    for (int i = 0; i < 3; ++i) { sensor_msgs::FluidPressure x; x.header.stamp = at(20 + i); x.fluid_pressure = 1000 + i; x.variance = 1; world::send("input/barometer", x); } sv_check(world::count<sensor_msgs::FluidPressure>() == 2 && world::published<sensor_msgs::FluidPressure>(0).header.stamp == at(s0) && world::published<sensor_msgs::FluidPressure>(1).header.stamp == at(s1), "every state gets a pressure"); sv_cover(late ? "frontend_sweep:late" : "frontend_sweep:there"); if (stereo) sv_cover("frontend_sweep:stereo");
}
// The third state follows from the second, with its optimised pose, velocity and biases.
void frontend_next() {
    const int stereo = sv_choice("stereo", 2), s0 = stereo ? 1 : 0, s1 = stereo ? 4 + sv_choice("s1", 3) : 4, s2 = stereo ? 8 + sv_choice("s2", 3) : 8, late = sv_choice("late", 3); world::set("optimisation/factors/stereo", stereo != 0); world::set("optimisation/factors/barometer", false); Node n; const Pose3 w = pose(2, sv::vector<3>("wp")), a = pose(3, sv::vector<3>("ap")), e = pose(1, sv::vector<3>("ep")); const Vector3d wv = sv::vector<3>("wv"), av = sv::vector<3>("av"); const ConstantBias b(sv::vector<3>("ba"), sv::vector<3>("bg")); int asked = 0; const auto clear = [&] { asked = 0; preint::log().clear(); }; preint::answer() = [&](const preint::Event&) { return ++asked == 1 ? gtsam::NavState(a, av) : gtsam::NavState(e, Vector3d(1, 2, 3)); };
    if (stereo) { n.image(s0); n.image(s1); n.image(s2); n.image(16); } world::send("formatter/formatted_pointcloud", cloud(0)); n.measure(-1); n.measure(1); n.measure(3); n.late.push_back([&] { n.optimised(s0, pose(0, Vector3d(1, 1, 1)), Vector3d(2, 2, 2), ConstantBias(Vector3d(3, 3, 3), Vector3d(4, 4, 4))); }); world::send("formatter/formatted_pointcloud", cloud(4)); n.measure(5); n.measure(7); world::send("formatter/formatted_pointcloud", cloud(8)); n.measure(9); if (late != 1) n.optimised(s1, w, wv, b); int waits = 1; sv_check(n.sleeps == 1, "only what is missing is awaited");
    if (late != 2) n.measure(11); if (late) { n.late.push_back([&] { if (late == 1) n.optimised(s1, w, wv, b); else n.measure(11); clear(); }); ++waits; } clear(); world::send("formatter/formatted_pointcloud", cloud(12)); sv_check(!n.held(), "nothing is left locked"); sv_check(n.sleeps == waits, "only what is missing is awaited"); if (n.sleeps != waits) return; check_sweep(n, 2, s1, s2, 8, late == 2 ? 11 : 99, w, wv, b, a, av, e); sv_cover(late == 1 ? "frontend_next:optimised late" : late ? "frontend_next:measured late" : "frontend_next:there");
}
// An optimised state is where the current state is integrated from, whose odometry is published with every measurement.
void frontend_imu() {
    world::set("optimisation/factors/stereo", false); world::set("optimisation/factors/barometer", false); const bool overwrite = sv_choice("overwrite", 2); const double sa = sv_real("sa", 0.01, 1), sg = sv_real("sg", 0.01, 1); world::set("imu/noise/overwrite", overwrite); set("imu/noise/accelerometer", sa); set("imu/noise/gyroscope", sg); Node n; const int state = sv_choice("state", 4); const Pose3 w = pose(2, sv::vector<3>("wp")), e[2] = {pose(3, sv::vector<3>("ep")), pose(1, sv::vector<3>("fp"))}; const Vector3d wv = sv::vector<3>("wv"), ev[2] = {sv::vector<3>("ev"), sv::vector<3>("fv")}; const ConstantBias b(sv::vector<3>("ba"), sv::vector<3>("bg")); int asked = 0; preint::answer() = [&](const preint::Event&) { const int i = asked++; return gtsam::NavState(e[i & 1], ev[i & 1]); };
    n.measure(-1); n.measure(1); n.measure(3); sv_check(world::count<nav_msgs::Odometry>() == 0 && preint::log().empty(), "there is no odometry before the first optimised state"); n.optimised(state, w, wv, b); const auto& l = preint::log(); std::size_t k = 0; int last = state; const auto check_m = [&](const Sample& s) { if (k >= l.size() || l[k].kind != 'm') { sv_fail("every measurement since the optimised state is integrated"); return; } const auto& x = l[k++]; same(x.acceleration, s.a, "every measurement since the optimised state is integrated"); same(x.turning, s.w, "every measurement since the optimised state is integrated"); sv_eq(x.dt, (s.t - last) / 16.0, "a measurement is integrated since the one before"); same(x.bias.accelerometer(), b.accelerometer(), "the optimised biases are used"); same(x.bias.gyroscope(), b.gyroscope(), "the optimised biases are used"); for (int d = 0; d < 3; ++d) { sv_eq(x.accelerometer(d, d), overwrite ? sa * sa : 0.25, "the noise is that of the measurements, or of the parameters"); sv_eq(x.gyroscope(d, d), overwrite ? sg * sg : 0.5, "the noise is that of the measurements, or of the parameters"); } last = s.t; };
    for (const Sample& s : n.samples) if (s.t > state) check_m(s); sv_check(k == l.size(), "nothing else is integrated"); sv_check(world::count<nav_msgs::Odometry>() == 0, "odometry is published with the measurements");
    for (int i = 0; i < 2; ++i) { n.measure(5 + 2 * i); check_m(n.samples.back()); k = check_predicted(k, w, wv, b); sv_check(k == l.size(), "nothing else is integrated"); sv_check((int)world::count<nav_msgs::Odometry>() == i + 1, "every measurement gives the current odometry"); if ((int)world::count<nav_msgs::Odometry>() != i + 1) return; const auto& o = world::published<nav_msgs::Odometry>(i); sv_check(world::topic<nav_msgs::Odometry>(i) == "output/odometry" && o.header.stamp == at(5 + 2 * i) && o.header.frame_id == "the_map" && o.child_frame_id == "body_id", "the current odometry is of the body in the map"); same(xyz(o.pose.pose.position), Vector3d(e[i].translation()), "the current pose is the predicted one"); sv::eq(sv::rotation_of(quat(o.pose.pose.orientation)), Matrix3d(e[i].rotation().matrix()), "the current pose is the predicted one"); same(xyz(o.twist.twist.linear), ev[i], "the current velocity is the predicted one"); same(xyz(o.twist.twist.angular), Vector3d(n.imu.linear() * (n.samples.back().w - b.gyroscope())), "the angular velocity is the measured one without its bias, in the body's frame"); }
    sv_check(world::count<geometry_msgs::TransformStamped>() == 1, "the optimised transform is broadcast"); if (world::count<geometry_msgs::TransformStamped>() == 1) { const auto& t = world::published<geometry_msgs::TransformStamped>(0); sv_check(t.header.stamp == at(state) && t.header.frame_id == "the_map" && t.child_frame_id == "base_id", "the transform of the base link in the map is broadcast"); const Isometry3d T = iso(w) * n.base; same(xyz(t.transform.translation), Vector3d(T.translation()), "the transform of the base link in the map is broadcast"); sv::eq(sv::rotation_of(quat(t.transform.rotation)), Matrix3d(T.linear()), "the transform of the base link in the map is broadcast"); }
    sv_check(world::count<geometry_msgs::PoseWithCovarianceStamped>() == 1 && world::topic<geometry_msgs::PoseWithCovarianceStamped>(0) == "output/pose" && world::published<geometry_msgs::PoseWithCovarianceStamped>(0).header.stamp == at(state) && world::published<geometry_msgs::PoseWithCovarianceStamped>(0).header.frame_id == "the_map", "the optimised pose is published"); sv_cover(overwrite ? "frontend_imu:overwrite" : "frontend_imu:measured");
}
// Every state gets the pressure interpolated from the measurements around it, or the first one there is.
void frontend_barometer() {
    world::set("optimisation/factors/stereo", false); const bool overwrite = sv_choice("overwrite", 2); const double sb = sv_real("sb", 0.01, 1); world::set("barometer/noise/overwrite", overwrite); set("barometer/noise/barometer", sb); Node n; struct P { int t; double p, v; }; std::vector<P> ps; std::vector<int> states; int tm = 0, ts = 0; std::size_t seen = 0; const auto check = [&] {
        sv_check(!n.held(), "nothing is left locked"); const std::size_t c = world::count<sensor_msgs::FluidPressure>(); sv_check(c >= seen && c <= seen + 1 && c <= states.size(), "every state gets one pressure"); if (c != seen + 1 || c > states.size()) return; const auto& m = world::published<sensor_msgs::FluidPressure>(seen); const int s = states[seen++]; sv_check(m.header.stamp == at(s) && m.header.frame_id == "baro" && world::topic<sensor_msgs::FluidPressure>(c - 1) == "frontend/barometer", "a pressure has the time of its state"); sv_tol(1e-6); if (ps[0].t > s) { sv_eq(m.fluid_pressure, ps[0].p, "without an earlier measurement the first one is used"); sv_eq(m.variance, ps[0].v, "without an earlier measurement the first one is used"); return; }
        std::size_t i = 0; while (i + 1 < ps.size() && ps[i + 1].t < s) ++i; sv_check(i + 1 < ps.size(), "a pressure is interpolated when a later one is there"); if (i + 1 >= ps.size()) return; const double f = double(s - ps[i].t) / (ps[i + 1].t - ps[i].t); sv_eq(m.fluid_pressure, ps[i].p * (1 - f) + ps[i + 1].p * f, "a pressure is interpolated between the measurements around its state"); sv_eq(m.variance, ps[i].v * (1 - f) + ps[i + 1].v * f, "a variance is interpolated between the measurements around its state"); };
    const auto measure = [&](int t) { const int i = ps.size(); P p{t, sv_real(id("p", i).c_str(), 60000, 120000), sv_real(id("v", i).c_str(), 0.01, 10)}; sensor_msgs::FluidPressure m; m.header.stamp = at(t); m.header.frame_id = "baro"; m.fluid_pressure = p.p; m.variance = p.v; if (overwrite) p.v = sb * sb; ps.push_back(p); sv_check(world::send("input/barometer", m) == 1, "the node listens to the barometer"); check(); };
    const auto state = [&](int t) { states.push_back(t); { std::lock_guard<std::mutex> g(n.f.barometer_data_mutex); n.f.barometer_timestamp_buffer.push_back(at(t)); n.f.barometer_try_publish(); } check(); };
    const int steps = sv_choice("steps", 4) + 2; for (int i = 0; i < steps; ++i) { if (sv_choice(id("state", i).c_str(), 2)) { ts += 2; state(ts); } else { tm += 1 + 2 * sv_choice(id("far", i).c_str(), 2); measure(tm); } } const std::size_t due = states.size(); for (std::size_t i = 0; i < due + 2; ++i) { tm = tm > ts ? tm + 1 : ts + 1; measure(tm); } sv_check(seen == due, "every state gets its pressure when a later measurement is there"); sv_cover(due ? "frontend_barometer:states" : "frontend_barometer:none");
}
// Images get the precision of clouds, with all else kept.
void frontend_stereo() {
    world::set("optimisation/factors/stereo", true); world::set("optimisation/factors/barometer", false); const bool only = sv_choice("only", 2); world::set("stereo_tracking/only_graph_frames", only); Node n; const int extra = sv_choice("extra", 4), t = sv_choice("t", 2); static const int NS[] = {0, 999, 1000, 123456}; n.image(t, NS[extra]); if (only) { sv_check(world::count<sensor_msgs::Image>() == 0 && world::count<sensor_msgs::CameraInfo>() == 0, "only images of states are sent on, if asked for"); sv_cover("frontend_stereo:only"); return; }
    sv_check(world::count<sensor_msgs::Image>() == 2 && world::count<sensor_msgs::CameraInfo>() == 2, "every image is sent on"); if (world::count<sensor_msgs::Image>() != 2 || world::count<sensor_msgs::CameraInfo>() != 2) return; ros::Time s = at(t); s.nsec += NS[extra] / 1000 * 1000; const char* topics[] = {"stereo/left/image", "stereo/right/image", "stereo/left/camera_info", "stereo/right/camera_info"}; for (int i = 0; i < 2; ++i) { const auto& m = world::published<sensor_msgs::Image>(i); sv_check(m.header.stamp == s && m.width == 7u + i && m.header.frame_id == (i ? "right" : "left") && world::topic<sensor_msgs::Image>(i) == topics[i], "images are sent on with a stamp of whole microseconds"); const auto& c = world::published<sensor_msgs::CameraInfo>(i); sv_check(c.header.stamp == s && world::topic<sensor_msgs::CameraInfo>(i) == topics[2 + i], "calibrations are sent on with a stamp of whole microseconds"); sv_eq(c.K[0], 500 + i, "calibrations are kept"); }
    sv_cover("frontend_stereo:all");
}
// When ROS stops while a cloud waits, nothing more is published and nothing is left locked.
void frontend_stopped() {
    const int who = sv_choice("who", 3), stops = 1 + sv_choice("stops", 2); world::set("optimisation/factors/stereo", who == 0); world::set("optimisation/factors/barometer", false); Node n; world::send("formatter/formatted_pointcloud", cloud(0)); n.measure(-1, 0, true); if (who == 2) n.measure(1, 0, true); int sleeps = 0; world::on_sleep() = [&](const ros::Duration&) { sv_check(!n.held(), "nothing is locked while waiting"); if (++sleeps == stops) ros::shutdown(); };
    world::send("formatter/formatted_pointcloud", cloud(4)); sv_check(sleeps == stops, "a cloud waits for what it needs"); sv_check(!n.held(), "nothing is left locked when ROS stops"); sv_check(world::count<nav_msgs::Odometry>() == (who == 2) && world::count<pcl::PCLPointCloud2>() == 0, "nothing more is published"); sv_cover("frontend_stopped:end");
}
void frontend_refused() {
    const int what = sv_choice("what", 6); const int m = sv_choice("mdc", 4); const double s = sv_choice("noise", 2) ? 0.0 : 0.5; const bool stereo = sv_choice("stereo", 2); world::set("optimisation/factors/stereo", stereo); world::set("mdc/translation", (m & 1) != 0); world::set("mdc/rotation", (m & 2) != 0); world::set("barometer/noise/overwrite", what == 1); set("barometer/noise/barometer", s); Node* n = nullptr; const bool threw = throws([&] { n = new Node(what != 0); }); sv_check(threw == (what == 0 || (stereo && m != 3) || (what == 1 && s == 0)), "a node without base link, with stereo but partial deskewing, or with a certain barometer is refused, others are not"); if (threw) { sv_cover("frontend_refused:node"); return; }
    if (what == 2) { sv_check(throws([&] { world::send("formatter/formatted_pointcloud", cloud(0, 0)); }), "empty clouds are refused"); sv_cover("frontend_refused:cloud"); }
}
}
