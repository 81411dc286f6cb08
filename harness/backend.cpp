// The back end node: every sensor message becomes the right factors and states, and the optimised result is published.
#include "sv.h"
#include "sv_eigen.h"
#include <gtsam/inference/Symbol.h>
#include <gtsam/navigation/BarometricFactor.h>
#include <gtsam/slam/BetweenFactor.h>
#include <gtsam/slam/PriorFactor.h>
#include <gtsam/slam/StereoFactor.h>
#include <serpent/ImuBiases.h>
#include <geometry_msgs/TransformStamped.h>
#include <serpent/back_end/optimisation.hpp>
#include "../models/isam2.h"
#include "../models/preint.h"
using Eigen::Isometry3d; using Eigen::Matrix3d; using Eigen::Quaterniond; using Eigen::Vector3d; using gtsam::Pose3; using gtsam::imuBias::ConstantBias; using gtsam::Key; using gtsam::symbol_shorthand::B; using gtsam::symbol_shorthand::P; using gtsam::symbol_shorthand::S; using gtsam::symbol_shorthand::V; using gtsam::symbol_shorthand::X;
typedef XmlRpc::XmlRpcValue Value; typedef Eigen::Matrix<double, 6, 6> Matrix6;
namespace world = ros::world;
static std::string id(const char* n, int i) { return std::string(n) + std::to_string(i); }
// attitudes that are exact in floating point
static const Quaterniond TURNS[] = {{1, 0, 0, 0}, {0.5, 0.5, 0.5, 0.5}, {0.5, -0.5, 0.5, 0.5}, {0, 1, 0, 0}};
static Matrix3d turn(int i) { return sv::rotation_of(TURNS[i]); }
static Isometry3d iso(const Matrix3d& R, const Vector3d& t) { Isometry3d T = Isometry3d::Identity(); T.linear() = R; T.translation() = t; return T; }
static Isometry3d inv(const Isometry3d& T) { Isometry3d I = Isometry3d::Identity(); I.linear() = T.linear().transpose(); for (int i = 0; i < 3; ++i) { double s = 0; for (int k = 0; k < 3; ++k) s -= T.linear()(k, i) * T.translation()[k]; I.translation()[i] = s; } return I; }
static Pose3 pose(int i, const Vector3d& t) { return Pose3(gtsam::Rot3(turn(i)), t); }
static Isometry3d iso(const Pose3& p) { return iso(p.rotation().matrix(), p.translation()); }
static void put(Value& v, const Vector3d& t, const Quaterniond& q) { const char* n[] = {"x", "y", "z"}; for (int k = 0; k < 3; ++k) v["translation"][n[k]] = t[k]; auto& r = v["rotation"]; r["w"] = q.w(); r["x"] = q.x(); r["y"] = q.y(); r["z"] = q.z(); }
static void same(const Vector3d& a, const Vector3d& b, const char* m) { for (int i = 0; i < 3; ++i) sv_eq(a(i), b(i), m); }
static void same(const Pose3& a, const Isometry3d& b, const char* m) { same(Vector3d(a.translation()), b.translation(), m); sv::eq(Matrix3d(a.rotation().matrix()), Matrix3d(b.linear()), m); }
static void same(const Pose3& a, const Pose3& b, const char* m) { same(a, iso(b), m); }
template<typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
template<typename F> static const F* as(const boost::shared_ptr<gtsam::NonlinearFactor>& f) { return dynamic_cast<const F*>(f.get()); }
static bool links(const gtsam::NonlinearFactor& f, std::initializer_list<Key> keys) { if (f.size() != keys.size()) return false; std::size_t i = 0; for (const Key k : keys) if (f.keys()[i++] != k) return false; return true; }
static Eigen::MatrixXd noise(const boost::shared_ptr<gtsam::NonlinearFactor>& f) { const auto* g = dynamic_cast<const gtsam::noiseModel::Gaussian*>(static_cast<const gtsam::NoiseModelFactor&>(*f).noiseModel_.get()); if (!g) { sv_fail("Gaussian noise"); return Eigen::MatrixXd::Identity(1, 1); } return g->covariance(); }
static Vector3d xyz(const geometry_msgs::Vector3& v) { return Vector3d(v.x, v.y, v.z); }
static Vector3d xyz(const geometry_msgs::Point& v) { return Vector3d(v.x, v.y, v.z); }
static Quaterniond quat(const geometry_msgs::Quaternion& q) { return Quaterniond(q.w, q.x, q.y, q.z); }
static void write(geometry_msgs::Quaternion& m, const Quaterniond& q) { m.w = q.w(); m.x = q.x(); m.y = q.y(); m.z = q.z(); }
// A covariance with a symbolic diagonal and one symbolic covariance of a rotation with a translation, in ROS order.
struct Cov { Matrix6 m; };
static Matrix6 covariance(const char* n) { Matrix6 c = Matrix6::Zero(); for (int i = 0; i < 6; ++i) c(i, i) = sv_real(id(n, i).c_str(), 0.01, 10); const double r = sv_real(id(n, 15).c_str(), -0.005, 0.005); c(1, 5) = c(5, 1) = r; return c; }
// one with known variances but one, whose validity is decided without many cases
static Matrix6 known_covariance(const char* n) { Matrix6 c = Matrix6::Zero(); for (int i = 0; i < 6; ++i) c(i, i) = 1 + 0.5 * i; c(2, 2) = sv_real(id(n, 2).c_str(), 0.01, 10); const double r = sv_real(id(n, 15).c_str(), -0.5, 0.5); c(1, 5) = c(5, 1) = r; return c; }
static Matrix6 swapped(const Matrix6& c) { Matrix6 r; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) r(i, j) = c((i + 3) % 6, (j + 3) % 6); return r; }
template<typename A> static void write(A& a, const Matrix6& c) { for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) a[6 * i + j] = c(i, j); }
static ros::Time at(int k) { return ros::Time(100 + k / 2, k % 2 * 500000000); }
enum { IMU = 1, REG = 2, STEREO = 4, BARO = 8 };
struct Node {
    serpent::Optimisation& o; Isometry3d lidar, imu, camera; int factors;
    static serpent::Optimisation& make(int factors, Isometry3d& lidar, Isometry3d& imu, Isometry3d& camera, bool robust) {
        lidar = iso(turn(1), sv::vector<3>("lidar")); imu = iso(turn(3), sv::vector<3>("imu")); camera = iso(turn(2), Vector3d(0.5, -0.25, 2));
        Value v; auto& b = v["body"]; b["frame_id"] = std::string("body_id"); auto& f = b["frames"]; put(f["lidar"], lidar.translation(), TURNS[1]); f["lidar"]["frame_id"] = std::string("lidar_id"); put(f["imu"], imu.translation(), TURNS[3]); put(f["stereo"], camera.translation(), TURNS[2]); world::set("body_frames", v);
        const char* n[] = {"imu", "registration", "stereo", "barometer"}; for (int i = 0; i < 4; ++i) world::set(std::string("optimisation/factors/") + n[i], (factors >> i & 1) != 0); world::set("map_frame_id", "the_map"); world::set("stereo_factors/robust/enabled", robust);
        return *new serpent::Optimisation();
    }
    explicit Node(int f, bool robust = false) : o(make(f, lidar, imu, camera, robust)), factors(f) {}
    bool held() { return o.graph_mutex.native_handle()->__data.__lock != 0; }
    serpent::ISAM2GraphManager& g() { return *o.gm; }
    // the estimates of the optimiser, for the states up to a key
    void estimate(int key, const Pose3* p, const Vector3d& v, const ConstantBias& b) { auto& e = isam2::estimate(); e.clear(); for (int i = 0; i <= key; ++i) { e.insert(X(i), p[i]); if (factors & IMU) { const bool last = i == key; e.insert(V(i), gtsam::Vector3(last ? v : Vector3d(50 + i, 60, 70))); e.insert(B(i), last ? b : ConstantBias(Vector3d(5, 6 + i, 7), Vector3d(8, 9, 10 + i))); } } isam2::covariance() = Eigen::MatrixXd::Identity(6, 6); }
};
static nav_msgs::Odometry odometry(const Vector3d& p, int q, const Vector3d& v, const Matrix6& pc, const Matrix6& vc) {
    nav_msgs::Odometry m; m.header.stamp = at(0); m.header.frame_id = "the_map"; m.child_frame_id = "body_id"; auto& x = m.pose.pose; x.position.x = p[0]; x.position.y = p[1]; x.position.z = p[2]; write(x.orientation, TURNS[q]); auto& l = m.twist.twist.linear; l.x = v[0]; l.y = v[1]; l.z = v[2]; write(m.pose.covariance, pc); write(m.twist.covariance, vc); return m;
}
static Matrix6 plain() { return Matrix6::Identity(); }
// the node after its first odometry, whose estimate is the given state
static Node& started(int factors, const Pose3& p, const Vector3d& v, const ConstantBias& b) { Node& n = *new Node(factors); n.estimate(0, &p, v, b); world::send("frontend/initial_odometry", odometry(Vector3d(0, 0, 0), 0, Vector3d(0, 0, 0), plain(), plain())); return n; }
// What is published after the optimisation of a key, whose stamps are at(0), at(1), ...
static void check_published(Node& n, std::size_t i, int key, const Pose3* p, const Vector3d& v, const ConstantBias& b, const Matrix6& cov) {
    sv_check(world::count<nav_msgs::Odometry>() == i + 1 && world::count<serpent::ImuBiases>() == i + 1 && world::count<nav_msgs::Path>() == 2 * i + 2, "every optimisation is published once"); if (world::count<nav_msgs::Odometry>() != i + 1 || world::count<serpent::ImuBiases>() != i + 1 || world::count<nav_msgs::Path>() != 2 * i + 2) return;
    const auto& o = world::published<nav_msgs::Odometry>(i); sv_check(o.header.stamp == at(key) && o.header.frame_id == "the_map" && o.child_frame_id == "body_id" && world::topic<nav_msgs::Odometry>(i) == "optimisation/odometry", "the optimised odometry is of the body in the map at the key's time");
    same(xyz(o.pose.pose.position), Vector3d(p[key].translation()), "the optimised pose is published"); sv::eq(sv::rotation_of(quat(o.pose.pose.orientation)), Matrix3d(p[key].rotation().matrix()), "the optimised pose is published"); same(xyz(o.twist.twist.linear), v, "the optimised velocity is published");
    if (!(n.factors & STEREO)) for (int r = 0; r < 6; ++r) for (int c = 0; c < 6; ++c) sv_eq(o.pose.covariance[6 * r + c], cov((r + 3) % 6, (c + 3) % 6), "the optimised pose's covariance is published, in ROS order");
    const auto& m = world::published<serpent::ImuBiases>(i); sv_check(m.header.stamp == at(key), "the biases are those at the key's time"); same(xyz(m.accelerometer_bias), b.accelerometer(), "the optimised biases are published"); same(xyz(m.gyroscope_bias), b.gyroscope(), "the optimised biases are published");
    const auto& path = world::published<nav_msgs::Path>(2 * i); sv_check(world::topic<nav_msgs::Path>(2 * i) == "output/path" && path.header.stamp == at(key) && path.header.frame_id == "the_map" && (int)path.poses.size() == key + 1, "the path has every pose up to the key"); if ((int)path.poses.size() != key + 1) return;
    for (int k = 0; k <= key; ++k) { sv_check(path.poses[k].header.stamp == at(k) && path.poses[k].header.frame_id == "body_id_" + std::to_string(k), "the poses of the path are at the times of their keys"); same(xyz(path.poses[k].pose.position), Vector3d(p[k].translation()), "the path is the optimised path"); sv::eq(sv::rotation_of(quat(path.poses[k].pose.orientation)), Matrix3d(p[k].rotation().matrix()), "the path is the optimised path"); }
    sv_check(world::topic<nav_msgs::Path>(2 * i + 1) == "optimisation/path_changes", "the changes of the path are published");
}
// inertial measurements from one state to the next
static sensor_msgs::Imu measurement(const char* name, int i, const ros::Time& t) {
    sensor_msgs::Imu m; m.header.stamp = t; const Vector3d a = sv::vector<3>((std::string(name) + "a" + std::to_string(i)).c_str()), w = sv::vector<3>((std::string(name) + "w" + std::to_string(i)).c_str()); m.linear_acceleration.x = a[0]; m.linear_acceleration.y = a[1]; m.linear_acceleration.z = a[2]; m.angular_velocity.x = w[0]; m.angular_velocity.y = w[1]; m.angular_velocity.z = w[2]; m.orientation.w = 1;
    for (int k = 0; k < 3; ++k) { m.linear_acceleration_covariance[4 * k] = sv_real((std::string(name) + "ca" + std::to_string(10 * i + k)).c_str(), 0.01, 10); m.angular_velocity_covariance[4 * k] = sv_real((std::string(name) + "cw" + std::to_string(10 * i + k)).c_str(), 0.01, 10); m.orientation_covariance[4 * k] = 1; } return m;
}
static serpent::ImuArray sweep(int key, const char* name) { serpent::ImuArray a; a.start_timestamp = at(key - 1); a.end_timestamp = at(key); a.measurements.push_back(measurement(name, 0, at(key - 1) - ros::Duration(0.25))); a.measurements.push_back(measurement(name, 1, at(key - 1) + ros::Duration(0.25))); return a; }
static sensor_msgs::Imu still(const ros::Time& t) { sensor_msgs::Imu m; m.header.stamp = t; m.linear_acceleration.z = 9.81; m.orientation.w = 1; for (int k = 0; k < 3; ++k) m.linear_acceleration_covariance[4 * k] = m.angular_velocity_covariance[4 * k] = m.orientation_covariance[4 * k] = 1; return m; }
static void drive(int key, const gtsam::NavState& answer) { preint::answers().clear(); preint::answers().push_back(answer); serpent::ImuArray a; a.start_timestamp = at(key - 1); a.end_timestamp = at(key); a.measurements.push_back(still(at(key - 1) - ros::Duration(0.25))); a.measurements.push_back(still(at(key - 1) + ros::Duration(0.25))); world::send("frontend/imu_s2s", a); }
static geometry_msgs::PoseWithCovarianceStamped registration(int key, const Vector3d& t, int q, const Matrix6& c) { geometry_msgs::PoseWithCovarianceStamped m; m.header.stamp = at(key); auto& p = m.pose.pose; p.position.x = t[0]; p.position.y = t[1]; p.position.z = t[2]; write(p.orientation, TURNS[q]); write(m.pose.covariance, c); return m; }
// the node at a state, where nothing moves
static Node& resting(int factors, int key) { static const Pose3 p[5]; Node& n = started(factors, p[0], Vector3d(0, 0, 0), ConstantBias()); for (int k = 1; k <= key; ++k) { n.estimate(k, p, Vector3d(0, 0, 0), ConstantBias()); drive(k, gtsam::NavState(Pose3(), Vector3d(0, 0, 0))); } return n; }
static sensor_msgs::FluidPressure pressure(const ros::Time& t, double p, double v) { sensor_msgs::FluidPressure m; m.header.stamp = t; m.fluid_pressure = p; m.variance = v; return m; }
static serpent::StereoFeature feature(int i, const char* n) { serpent::StereoFeature f; f.id = i; f.left_x = sv_real(id((std::string(n) + "lx").c_str(), i).c_str(), 300, 600); f.left_y = sv_real(id((std::string(n) + "ly").c_str(), i).c_str(), 100, 300); f.right_x = sv_real(id((std::string(n) + "rx").c_str(), i).c_str(), 10, 250); f.right_y = sv_real(id((std::string(n) + "ry").c_str(), i).c_str(), 100, 300); return f; }
static serpent::StereoFeatures features(const ros::Time& t, const char* n, int from, int to, const double* k) { serpent::StereoFeatures m; m.header.stamp = t; for (int i = from; i < to; ++i) m.features.push_back(feature(i, n)); m.left_info.K[0] = k[0]; m.left_info.K[1] = k[1]; m.left_info.K[2] = k[2]; m.left_info.K[4] = k[3]; m.left_info.K[5] = k[4]; m.right_info.P[0] = k[5]; m.right_info.P[3] = k[6]; return m; }
static void check_barometric(Node& n, int k, const sensor_msgs::FluidPressure* m, bool first, double prior, double bias) {
    const gtsam::NonlinearFactorGraph g = static_cast<const serpent::GraphManager&>(n.g()).factors(k, k); int seen[3] = {0, 0, 0};
    for (const auto& f : g) {
        if (const auto* a = as<gtsam::BarometricFactor>(f)) { ++seen[0]; if (!m) continue; sv_check(links(*f, {X(k), P(k)}), "a pressure constrains the state at its time"); sv_eq(a->measurementIn(), gtsam::BarometricFactor(0, 1, m->fluid_pressure * 1e-3, nullptr).measurementIn(), "a pressure in pascals is measured in kilopascals"); sv_eq(noise(f)(0, 0), m->variance, "a pressure has its variance"); }
        else if (const auto* a = as<gtsam::PriorFactor<double>>(f)) { ++seen[1]; if (!m) continue; sv_check(links(*f, {P(k)}), "the first height is a prior"); sv_eq(a->prior(), gtsam::BarometricFactor(0, 1, m->fluid_pressure * 1e-3, nullptr).measurementIn(), "the first height is the prior of the barometer's bias"); sv_eq(noise(f)(0, 0), prior * prior, "the prior of the barometer's bias has the noise of the parameters"); }
        else if (const auto* a = as<gtsam::BetweenFactor<double>>(f)) { ++seen[2]; sv_check(links(*f, {P(k - 1), P(k)}), "the barometer's bias is linked from each state to the next"); sv_eq(a->measured(), 0, "the barometer's bias is expected to be constant"); sv_eq(noise(f)(0, 0), bias * bias, "the barometer's bias has the noise of the parameters"); }
    }
    sv_check(seen[0] == (m != nullptr) && seen[1] == first && seen[2] == (k > 0), "a pressure has one factor, the first one a prior, every state after the first a link of the biases");
}
extern "C" {
// The first odometry becomes the first state with priors of its covariance, and is optimised at once.
void backend_initial() {
    const int factors = sv_choice("imu", 2) ? IMU | REG : REG; world::set("prior_noise/accelerometer_bias", 0.25); world::set("prior_noise/gyroscope_bias", 0.5); Node& n = *new Node(factors); const Vector3d p = sv::vector<3>("p"), v = sv::vector<3>("v"), ep = sv::vector<3>("ep"), ev = sv::vector<3>("ev"); const int q = sv_choice("attitude", 4); const Matrix6 pc = covariance("pc"), vc = covariance("vc"); const ConstantBias eb(sv::vector<3>("ea"), sv::vector<3>("eg"));
    const Pose3 e = pose(2, ep); n.estimate(0, &e, ev, eb); isam2::covariance() = sv::symmetric<6>("c"); const nav_msgs::Odometry m = odometry(p, q, v, pc, vc); sv_check(world::send("frontend/initial_odometry", m) == 1, "the node listens to the first odometry"); sv_check(!n.held(), "the graph is left unlocked");
    sv_check(isam2::updates().size() == 1, "the first state is optimised at once"); if (isam2::updates().size() != 1) return; const auto& u = isam2::updates()[0]; const bool imu = factors & IMU; sv_check(u.factors.size() == (imu ? 3u : 1u), "the first state has one prior per kind of state"); bool seen[3] = {false, false, false};
    for (const auto& f : u.factors) {
        if (const auto* a = as<gtsam::PriorFactor<Pose3>>(f)) { seen[0] = links(*f, {X(0)}); same(a->prior(), pose(q, p), "the prior pose is the odometry's"); sv::eq(noise(f), swapped(pc), "the prior pose has the odometry's covariance, rotation first"); }
        else if (const auto* a = as<gtsam::PriorFactor<gtsam::Velocity3>>(f)) { seen[1] = links(*f, {V(0)}); same(Vector3d(a->prior()), v, "the prior velocity is the odometry's"); sv::eq(noise(f), Eigen::MatrixXd(vc.topLeftCorner(3, 3)), "the prior velocity has the odometry's covariance"); }
        else if (const auto* a = as<gtsam::PriorFactor<ConstantBias>>(f)) { seen[2] = links(*f, {B(0)}); same(Vector3d(a->prior().accelerometer()), Vector3d(0, 0, 0), "no bias is expected"); same(Vector3d(a->prior().gyroscope()), Vector3d(0, 0, 0), "no bias is expected"); Matrix6 c = Matrix6::Zero(); for (int i = 0; i < 6; ++i) c(i, i) = i < 3 ? 0.0625 : 0.25; sv::eq(noise(f), c, "the prior biases have the noise of the parameters"); }
    }
    sv_check(seen[0] && seen[1] == imu && seen[2] == imu, "every kind of state has a prior"); if (u.values.exists(X(0))) same(u.values.at<Pose3>(X(0)), pose(q, p), "the first pose is the odometry's"); else sv_fail("the first pose is optimised");
    sv_check(world::count<geometry_msgs::TransformStamped>() == 1, "an initial transform is published"); if (world::count<geometry_msgs::TransformStamped>() != 1) return; const auto& t = world::published<geometry_msgs::TransformStamped>(0); sv_check(t.header.stamp == at(0) && t.header.frame_id == "the_map" && t.child_frame_id == "body_id", "the initial transform has the odometry's frames and stamp"); same(xyz(t.transform.translation), Vector3d(0, 0, 0), "the initial transform is the identity"); sv::eq(sv::rotation_of(quat(t.transform.rotation)), turn(0), "the initial transform is the identity");
    check_published(n, 0, 0, &e, imu ? ev : v, imu ? eb : ConstantBias(), isam2::covariance()); sv_cover(imu ? "backend_initial:imu" : "backend_initial:other");
}
// Inertial measurements between two states become the next state, the lidar's motion and, if enabled, a factor.
void backend_imu() {
    static const int KINDS[] = {IMU, IMU | REG, REG, IMU | BARO}; const int kind = sv_choice("factors", 4), factors = KINDS[kind], q = sv_choice("attitude", 4), r = sv_choice("turned", 2) ? 2 : 1; const bool imu = factors & IMU; const Pose3 e = pose(q, sv::vector<3>("p")), f[2] = {pose(1, sv::vector<3>("f")), pose(3, sv::vector<3>("g"))}; const Vector3d v = sv::vector<3>("v"), w = sv::vector<3>("w"), ew = sv::vector<3>("ew"); const ConstantBias b(sv::vector<3>("ba"), sv::vector<3>("bg")), eb(sv::vector<3>("ea"), sv::vector<3>("eg"));
    Node& n = started(factors, e, v, b); const Vector3d v0 = imu ? v : Vector3d(0, 0, 0); const ConstantBias b0 = imu ? b : ConstantBias(); const Pose3 next = pose(r, sv::vector<3>("t")); preint::answers() = {gtsam::NavState(next, w)}; const serpent::ImuArray a = sweep(1, "m"); n.estimate(1, f, ew, eb); const bool alone = factors == IMU || factors == (IMU | BARO); sv_check(world::send("frontend/imu_s2s", a) == 1, "the node listens to the inertial measurements"); sv_check(!n.held(), "the graph is left unlocked");
    const auto& l = preint::log(); sv_check(l.size() == 3 && l[0].kind == 'm' && l[1].kind == 'm' && l[2].kind == 'p', "the measurements are integrated, then the state is predicted"); if (l.size() != 3) return;
    for (int i = 0; i < 2; ++i) { same(l[i].acceleration, xyz(a.measurements[i].linear_acceleration), "every measurement is integrated"); same(l[i].turning, xyz(a.measurements[i].angular_velocity), "every measurement is integrated"); sv_eq(l[i].dt, 0.25, "measurements are integrated between the two states"); same(l[i].bias.accelerometer(), b0.accelerometer(), "the latest biases are used"); same(l[i].bias.gyroscope(), b0.gyroscope(), "the latest biases are used"); for (int x = 0; x < 3; ++x) { sv_eq(l[i].accelerometer(x, x), a.measurements[0].linear_acceleration_covariance[4 * x], "the noise is that of the measurements"); sv_eq(l[i].gyroscope(x, x), a.measurements[0].angular_velocity_covariance[4 * x], "the noise is that of the measurements"); } }
    same(l[2].position, Vector3d(e.translation()), "the next state is predicted from the latest"); sv::eq(l[2].attitude, turn(q), "the next state is predicted from the latest"); same(l[2].velocity, v0, "the next state is predicted from the latest"); same(l[2].bias.accelerometer(), b0.accelerometer(), "the latest biases are used"); same(l[2].bias.gyroscope(), b0.gyroscope(), "the latest biases are used");
    sv_check(n.g().key("imu") == 1 && n.g().timestamp(1) == at(1), "the next state is at the end of the measurements"); const auto& t = world::published<geometry_msgs::TransformStamped>(1); sv_check(world::count<geometry_msgs::TransformStamped>() == 2 && world::topic<geometry_msgs::TransformStamped>(1) == "optimisation/imu_transform", "the motion is published"); if (world::count<geometry_msgs::TransformStamped>() != 2) return;
    sv_check(t.header.stamp == at(1) && t.header.frame_id == "lidar_id_i-1" && t.child_frame_id == "lidar_id", "the motion is the lidar's at the time of the new state"); const Isometry3d T = inv(n.lidar) * (inv(iso(e)) * iso(next)) * n.lidar; same(xyz(t.transform.translation), T.translation(), "the motion of the lidar follows from that of the body"); sv::eq(sv::rotation_of(quat(t.transform.rotation)), Matrix3d(T.linear()), "the motion of the lidar follows from that of the body");
    sv_check(isam2::updates().size() == (alone ? 2u : 1u), "the graph is optimised when no other measurement is due"); if (!alone) { same(n.g().pose(1), next, "the next state is the predicted one"); same(Vector3d(n.g().velocity(1)), w, "the next state is the predicted one"); same(Vector3d(n.g().imu_bias(1).accelerometer()), b0.accelerometer(), "biases are kept"); same(Vector3d(n.g().imu_bias(1).gyroscope()), b0.gyroscope(), "biases are kept"); }
    const gtsam::NonlinearFactorGraph g = alone ? isam2::updates().back().factors : static_cast<const serpent::GraphManager&>(n.g()).factors(1, 1); sv_check(g.size() == (imu ? 1u : 0u), "one inertial factor per pair of states, if enabled"); if (g.size() == 1 && imu) { const auto* c = as<gtsam::CombinedImuFactor>(g[0]); if (!c || !links(*g[0], {X(0), V(0), X(1), V(1), B(0), B(1)})) sv_fail("the inertial factor links the two states"); else { sv_eq(c->preintegratedMeasurements().deltaTij(), 0.5, "the inertial factor has the integrated measurements"); same(c->preintegratedMeasurements().biasHat().accelerometer(), b0.accelerometer(), "the inertial factor has the integrated measurements"); } }
    if (alone && isam2::updates().size() == 2) { const auto& u = isam2::updates()[1].values; sv_check(u.exists(X(1)) && u.exists(V(1)) && u.exists(B(1)) && u.size() == 3, "the new state is optimised"); if (u.exists(X(1))) same(u.at<Pose3>(X(1)), next, "the next state is the predicted one"); check_published(n, 1, 1, f, ew, eb, Matrix6::Identity()); } sv_cover(alone ? "backend_imu:alone" : imu ? "backend_imu:waits" : "backend_imu:off");
}
// The third state follows from the optimised second one.
void backend_imu_next() {
    const int q = sv_choice("attitude", 4); const Pose3 e, f[2] = {pose(1, sv::vector<3>("f")), pose(q, sv::vector<3>("g"))}, h[3] = {f[0], f[1], pose(2, sv::vector<3>("h"))}, next = pose(3, sv::vector<3>("t")); const Vector3d ew = sv::vector<3>("ew"), w = sv::vector<3>("w"), hw = sv::vector<3>("hw"); const ConstantBias eb(sv::vector<3>("ea"), sv::vector<3>("eg")), hb(sv::vector<3>("ha"), sv::vector<3>("hg")); Node& n = started(IMU, e, Vector3d(4, 5, 6), ConstantBias(Vector3d(1, 1, 1), Vector3d(2, 2, 2))); n.estimate(1, f, ew, eb); drive(1, gtsam::NavState(pose(1, Vector3d(9, 9, 9)), Vector3d(8, 8, 8))); preint::log().clear(); preint::answers() = {gtsam::NavState(next, w)}; n.estimate(2, h, hw, hb); const serpent::ImuArray a = sweep(2, "m"); world::send("frontend/imu_s2s", a);
    const auto& l = preint::log(); sv_check(l.size() == 3 && l[0].kind == 'm' && l[1].kind == 'm' && l[2].kind == 'p', "the measurements are integrated, then the state is predicted"); if (l.size() != 3) return; for (int i = 0; i < 3; ++i) { same(l[i].bias.accelerometer(), eb.accelerometer(), "the latest biases are used"); same(l[i].bias.gyroscope(), eb.gyroscope(), "the latest biases are used"); if (i < 2) same(l[i].acceleration, xyz(a.measurements[i].linear_acceleration), "every measurement is integrated"); } same(l[2].position, Vector3d(f[1].translation()), "the next state is predicted from the latest"); sv::eq(l[2].attitude, turn(q), "the next state is predicted from the latest"); same(l[2].velocity, ew, "the next state is predicted from the latest");
    sv_check(isam2::updates().size() == 3, "the graph is optimised when no other measurement is due"); if (isam2::updates().size() != 3) return; const auto& u = isam2::updates()[2]; sv_check(u.values.size() == 3 && u.values.exists(X(2)) && u.values.exists(V(2)) && u.values.exists(B(2)), "the new state is optimised"); if (u.values.size() == 3 && u.values.exists(B(2)) && u.values.exists(V(2)) && u.values.exists(X(2))) { same(u.values.at<Pose3>(X(2)), next, "the next state is the predicted one"); same(Vector3d(u.values.at<gtsam::Vector3>(V(2))), w, "the next state is the predicted one"); const auto b = u.values.at<ConstantBias>(B(2)); same(b.accelerometer(), eb.accelerometer(), "biases are kept"); same(b.gyroscope(), eb.gyroscope(), "biases are kept"); }
    const auto* c = u.factors.size() == 1 ? as<gtsam::CombinedImuFactor>(u.factors[0]) : nullptr; if (!c || !links(*u.factors[0], {X(1), V(1), X(2), V(2), B(1), B(2)})) sv_fail("the inertial factor links the two states"); else { sv_eq(c->preintegratedMeasurements().deltaTij(), 0.5, "the inertial factor has the integrated measurements"); same(c->preintegratedMeasurements().biasHat().accelerometer(), eb.accelerometer(), "the inertial factor has the integrated measurements"); } check_published(n, 2, 2, h, hw, hb, Matrix6::Identity()); sv_cover("backend_imu_next:end");
}
void backend_imu_refused() { Node& n = started(IMU, pose(0, Vector3d(0, 0, 0)), Vector3d(0, 0, 0), ConstantBias()); preint::answers() = {gtsam::NavState(pose(1, sv::vector<3>("t")), Vector3d(0, 0, 0))}; serpent::ImuArray a = sweep(1, "m"); const int what = sv_choice("what", 3); if (what == 0) a.measurements.clear(); else if (what == 1) for (int k = 0; k < 3; ++k) a.measurements[0].linear_acceleration_covariance[4 * k] = 0; else a.measurements[0].header.stamp = at(0) + ros::Duration(0.1); sv_check(throws([&] { world::send("frontend/imu_s2s", a); }), "measurements that do not cover the interval, or without noise, are refused"); sv_check(n.g().key("imu") == 0 && isam2::updates().size() == 1, "refused measurements add no state"); sv_cover("backend_imu_refused:end"); }
// A registration links the two latest states with the transform and the covariance it was received with.
void backend_registration() {
    const bool imu = sv_choice("imu", 2); const int q = sv_choice("attitude", 4), r = sv_choice("turned", 4); const Pose3 e = pose(q, sv::vector<3>("p")), f[2] = {pose(3, sv::vector<3>("f")), pose(2, sv::vector<3>("g"))}; const Vector3d v = sv::vector<3>("v"), t = sv::vector<3>("t"); const ConstantBias b(sv::vector<3>("ba"), sv::vector<3>("bg")), b0 = imu ? b : ConstantBias(); Node& n = started(imu ? IMU | REG : REG, e, v, b); drive(1, gtsam::NavState(pose(1, sv::vector<3>("predicted")), sv::vector<3>("w")));
    n.estimate(1, f, v, b); const Matrix6 c = known_covariance("c"); sv_check(world::send("registration/transform", registration(1, t, r, c)) == 1, "the node listens to the registration"); sv_check(!n.held(), "the graph is left unlocked"); sv_check(isam2::updates().size() == 2, "the graph is optimised when all measurements are there"); if (isam2::updates().size() != 2) return; const auto& u = isam2::updates()[1];
    sv_check(u.factors.size() == (imu ? 2u : 1u), "one factor per registration"); int found = 0; for (const auto& x : u.factors) if (const auto* a = as<gtsam::BetweenFactor<Pose3>>(x)) { ++found; sv_check(links(*x, {X(0), X(1)}), "a registration links the two latest states"); same(a->measured(), pose(r, t), "a registration factor has the received transform"); sv::eq(noise(x), swapped(c), "a registration factor has the received covariance, rotation first"); } sv_check(found == 1, "one factor per registration");
    if (u.values.exists(X(1))) same(u.values.at<Pose3>(X(1)), iso(e) * iso(turn(r), t), "the new pose is the previous one and the registration"); else sv_fail("the new state is optimised"); const Vector3d moved = (Vector3d(f[1].translation()) - Vector3d(f[0].translation())) / 0.5; check_published(n, 1, 1, f, imu ? v : moved, b0, Matrix6::Identity()); if (!imu) same(Vector3d(n.g().velocity(1)), moved, "without inertial factors the velocity follows from the poses"); sv_cover(imu ? "backend_registration:imu" : "backend_registration:alone");
}
void backend_registration_refused() {
    Node& n = started(REG, pose(0, Vector3d(0, 0, 0)), Vector3d(0, 0, 0), ConstantBias()); drive(1, gtsam::NavState(pose(1, Vector3d(1, 2, 3)), Vector3d(0, 0, 0))); const Pose3 f[2] = {pose(0, Vector3d(0, 0, 0)), pose(0, Vector3d(0, 0, 0))}; n.estimate(1, f, Vector3d(0, 0, 0), ConstantBias()); Matrix6 c = plain(); bool valid = true; const int what = sv_choice("what", 4); int key = 1;
    if (what == 0) { key = sv_choice("key", 2) * 2; valid = false; } else if (what == 1) { const int i = sv_choice("which", 6); c(i, i) = sv_real("d", -2, 2); sv_assume(std::abs(c(i, i)) > 1e-3); valid = c(i, i) > 0; } else if (what == 2) { const int i = sv_choice("row", 6), j = sv_choice("column", 6); if (i == j) return; c(i, j) = sv_real("x", -0.5, 0.5); sv_assume(std::abs(c(i, j)) > 0.01); valid = false; } else { const double x = sv_real("y", -2, 2); sv_assume(std::abs(std::abs(x) - 1) > 1e-3); c(1, 5) = c(5, 1) = x; valid = std::abs(x) < 1; }
    const bool threw = throws([&] { world::send("registration/transform", registration(key, Vector3d(1, 0, 0), 0, c)); }); sv_check(threw == !valid, "a registration at another time or without a valid covariance is refused, others are not"); sv_check(!n.held(), "the graph is left unlocked"); sv_check(isam2::updates().size() == (threw ? 1u : 2u), "a refused registration is not optimised"); sv_cover(threw ? "backend_registration_refused:refused" : "backend_registration_refused:accepted");
}
// Pressures become factors of the states at their times, and every state up to them has a barometer bias.
void backend_barometer() {
    const double prior = 0.25, bias = 0.5; world::set("prior_noise/barometer_bias", prior); world::set("barometer/noise/barometer_bias", bias); const int first = sv_choice("first", 3), second = first + 1 + sv_choice("gap", 2), waits = sv_choice("waits", 3); const bool imu = sv_choice("imu", 2);
    Node& n = resting(imu ? IMU | BARO : IMU | REG | BARO, !imu ? 0 : waits == 0 ? second : waits == 1 ? first : 0); if (!imu && (first || waits || second > 1)) return; if (!imu) drive(1, gtsam::NavState());
    int k = imu ? waits == 0 ? second : waits == 1 ? first : 0 : 1, sleeps = 0; world::on_sleep() = [&](const ros::Duration&) { sv_check(!n.held(), "the graph is free while waiting"); if (++sleeps % 2) return; static const Pose3 rest[5]; ++k; n.estimate(k, rest, Vector3d(0, 0, 0), ConstantBias()); drive(k, gtsam::NavState()); };
    const sensor_msgs::FluidPressure a = pressure(at(first), sv_real("pa", 60000, 120000), sv_real("va", 0.01, 10)), b = pressure(at(second), sv_real("pb", 60000, 120000), sv_real("vb", 0.01, 10)); sv_check(world::send("frontend/barometer", a) == 1, "the node listens to the barometer"); sv_check(!n.held(), "the graph is left unlocked"); sv_check(n.g().key("barometer") == first + 1, "the next pressure is of a later state");
    world::send("frontend/barometer", b); sv_check(!n.held(), "the graph is left unlocked"); sv_check(n.g().key("barometer") == second + 1, "the next pressure is of a later state"); sv_check(n.g().key("imu") >= second && sleeps == 2 * (imu && waits ? second - (waits == 1 ? first : 0) : 0), "a pressure waits for the state at its time, and only for it");
    for (int i = 0; i <= second; ++i) { sv_eq(n.g().barometer_bias(i), gtsam::BarometricFactor(0, 1, a.fluid_pressure * 1e-3, nullptr).measurementIn(), "the first height is the barometer's bias until it is optimised"); const gtsam::NonlinearFactorGraph g = static_cast<const serpent::GraphManager&>(n.g()).factors(i, i); check_barometric(n, i, i == first ? &a : i == second ? &b : nullptr, i == first, prior, bias); }
    world::on_sleep() = nullptr; sv_cover(waits ? "backend_barometer:waits" : "backend_barometer:there");
}
void backend_barometer_refused() { Node& n = resting(IMU | BARO, 2); const int what = sv_choice("what", 3), k = sv_choice("key", 3); const double v = sv_real("variance", -1, 1); sv_assume(std::abs(v) > 1e-3); bool bad = true; ros::Time t = at(k); if (what == 0) t = at(k) - ros::Duration(0.25); else if (what == 1 && k == 1) t = ros::Time(100, 500000001); else bad = v <= 0; if (t != at(k)) sv_assume(v > 0); const bool threw = throws([&] { world::send("frontend/barometer", pressure(t, 101325, v)); }); sv_check(threw == bad, "a pressure at no state's time or without a positive variance is refused, others are not"); sv_cover(threw ? "backend_barometer_refused:refused" : "backend_barometer_refused:accepted"); }
// When ROS stops while a message waits, the message is dropped and the graph is left unlocked.
void backend_stopped() {
    static const Pose3 rest[2]; const int who = sv_choice("who", 3), stops = 1 + sv_choice("stops", 2); Node& n = resting(IMU | REG | STEREO | BARO, 1); double k[7] = {500, 0, 320, 510, 240, 500, -50}; int sleeps = 0; world::on_sleep() = [&](const ros::Duration&) { sv_check(!n.held(), "the graph is free while waiting"); if (++sleeps == stops) ros::shutdown(); };
    if (who == 1) { world::send("stereo/features", features(at(0), "a", 0, 1, k)); world::send("stereo/features", features(at(1), "b", 0, 1, k)); } const auto before = n.g().all_factors().size(); const int keys[3] = {n.g().key("imu"), n.g().key("stereo"), n.g().key("barometer")};
    if (who == 0) world::send("frontend/imu_s2s", sweep(2, "m")); else if (who == 1) world::send("stereo/features", features(at(2), "c", 0, 1, k)); else world::send("frontend/barometer", pressure(at(2), 101325, 1));
    sv_check(!n.held(), "the graph is left unlocked when ROS stops"); sv_check(sleeps == stops, "a message that must wait does"); sv_check(n.g().all_factors().size() == before && n.g().key("imu") == keys[0] && n.g().key("stereo") == keys[1] && !n.g().has_pose(2), "a message that is dropped leaves the graph alone"); if (who != 2) sv_check(n.g().key("barometer") == keys[2], "a message that is dropped leaves the graph alone"); world::on_sleep() = nullptr; sv_cover("backend_stopped:end");
}
// Features of a state's time become stereo factors of that state; others are skipped.
void backend_stereo() {
    const bool imu = sv_choice("imu", 2); const int way = sv_choice("way", 5); world::set("stereo_factors/noise/left_x", 0.5); world::set("stereo_factors/noise/right_x", 0.25); world::set("stereo_factors/noise/y", 2); const Pose3 f[2] = {pose(3, sv::vector<3>("f")), pose(2, sv::vector<3>("g"))}; Node& n = started(imu ? IMU | STEREO : STEREO, Pose3(), Vector3d(0, 0, 0), ConstantBias()); n.estimate(1, f, Vector3d(1, 2, 3), ConstantBias()); sv_check(n.g().key("stereo") == -1, "no features are expected before the first state");
    double k[7] = {sv_real("fx", 100, 1000), sv_real("skew", -1, 1), sv_real("cx", 100, 600), sv_real("fy", 100, 1000), sv_real("cy", 100, 600), sv_real("p", 100, 1000), -sv_real("pb", 10, 1000)}; const bool early = way != 1 && way != 3; serpent::StereoFeatures a = features(at(0), "a", 0, 2, k), b = features(at(1), "b", 1, 3, k); int sleeps = 0; const auto next = [&] { drive(1, gtsam::NavState(pose(1, Vector3d(1, 2, 3)), Vector3d(0, 0, 0))); };
    world::on_sleep() = [&](const ros::Duration&) { sv_check(!n.held(), "the graph is free while waiting"); if (++sleeps == 2) next(); };
    if (early) { sv_check(world::send("stereo/features", a) == 1, "the node listens to the features"); sv_check(!n.held() && isam2::updates().size() == 1 && n.g().key("stereo") == 0, "the first features are not optimised alone"); } if (way == 0) next();
    if (way == 2) { next(); serpent::StereoFeatures old = features(at(0) + ros::Duration(0.25), "o", 1, 3, k); world::send("stereo/features", old); sv_check(n.g().key("stereo") == 0 && isam2::updates().size() == 1 && !n.held(), "features before the next state are ignored"); } if (way == 3) { next(); serpent::StereoFeatures old = features(at(0) + ros::Duration(0.25), "o", 1, 3, k); world::send("stereo/features", old); sv_check(n.g().key("stereo") == 0 && isam2::updates().size() == 1 && !n.held(), "a state without features is skipped"); }
    world::send("stereo/features", b); sv_check(!n.held(), "the graph is left unlocked"); sv_check(n.g().key("stereo") == 1 && sleeps == (way == 1 || way == 4 ? 2 : 0), "features wait for the state at their time, and only for it"); sv_check(isam2::updates().size() == 2, "the graph is optimised when all measurements are there"); if (isam2::updates().size() != 2) return; world::on_sleep() = nullptr; typedef gtsam::GenericStereoFactor<Pose3, gtsam::Point3> Stereo; int found = 0;
    for (const auto& x : isam2::updates()[1].factors) if (const auto* s = as<Stereo>(x)) { ++found; const bool now = x->keys()[0] == X(1); sv_check(links(*x, {X(now), S(1)}), "a feature seen twice is linked to the states that saw it"); const auto& m = now ? b.features[0] : a.features[1]; sv_eq(s->measured().uL(), m.left_x, "a stereo factor has the feature's columns"); sv_eq(s->measured().uR(), m.right_x, "a stereo factor has the feature's columns"); sv_eq(s->measured().v(), (m.left_y + m.right_y) / 2, "a stereo factor has the feature's mean row"); sv::eq(noise(x), Eigen::MatrixXd(Vector3d(0.25, 0.0625, 4).asDiagonal()), "a stereo factor has the noise of the parameters"); if (s->body_P_sensor_) same(*s->body_P_sensor_, n.camera, "a stereo factor knows where the camera is"); else sv_fail("a stereo factor knows where the camera is");
        const auto& c = *s->calibration(); sv_eq(c.fx(), k[0], "the calibration is that of the left camera"); sv_eq(c.skew(), k[1], "the calibration is that of the left camera"); sv_eq(c.px(), k[2], "the calibration is that of the left camera"); sv_eq(c.fy(), k[3], "the calibration is that of the left camera"); sv_eq(c.py(), k[4], "the calibration is that of the left camera"); sv_eq(c.baseline() * k[5], -k[6], "the baseline is that of the right camera's projection"); }
    sv_check(found == (early ? 2 : 0), "features seen in two consecutive frames have a factor for each"); check_published(n, 1, 1, f, imu ? Vector3d(1, 2, 3) : Vector3d(0, 0, 0), ConstantBias(), Matrix6::Identity()); if (!imu) same(Vector3d(n.g().velocity(1)), Vector3d((Vector3d(f[1].translation()) - Vector3d(f[0].translation())) / 0.5), "without inertial factors the velocity follows from the poses"); sv_cover(early ? "backend_stereo:tracked" : "backend_stereo:skipped");
}
void backend_stereo_refused() { Node& n = resting(STEREO | IMU, 0); double k[7] = {500, 0, 320, 510, 240, 500, sv_real("p3", -100, 100)}; sv_assume(std::abs(k[6]) > 1e-3); const bool twice = sv_choice("twice", 2); serpent::StereoFeatures m = features(at(0), "a", 0, 2, k); if (twice) m.features[1].id = 0; const bool bad = k[6] > 0 || twice; const bool threw = throws([&] { world::send("stereo/features", m); }); sv_check(threw == bad, "features without a positive baseline or with a duplicate id are refused, others are not"); sv_cover(threw ? "backend_stereo_refused:refused" : "backend_stereo_refused:accepted"); }
// Features and landmarks are converted one by one.
void backend_conversions() {
    std::vector<serpent::StereoFeature> v; const int n = sv_choice("n", 4); int ids[3]; for (int i = 0; i < n; ++i) { v.push_back(feature(i, "f")); v[i].id = ids[i] = 3 * sv_choice(id("id", i).c_str(), 3) - 2; } bool twice = false; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) twice = twice || ids[i] == ids[j];
    std::map<int, gtsam::StereoPoint2> m; const bool threw = throws([&] { serpent::from_ros(v, m); }); sv_check(threw == twice, "features with the same id are refused, others are not"); if (threw) { sv_cover("backend_conversions:refused"); return; } sv_check((int)m.size() == n, "every feature is converted"); for (int i = 0; i < n; ++i) { const auto it = m.find(ids[i]); if (it == m.end()) { sv_fail("features keep their ids"); continue; } sv_eq(it->second.uL(), v[i].left_x, "features keep their columns"); sv_eq(it->second.uR(), v[i].right_x, "features keep their columns"); sv_eq(it->second.v(), (v[i].left_y + v[i].right_y) / 2, "features have the mean of their rows"); }
    sv_tol(1e-5); std::map<int, gtsam::Point3> p; std::vector<gtsam::Point3> q; for (int i = 0; i < n; ++i) { q.push_back(sv::vector<3>(id("q", i).c_str())); p.emplace(i, q.back()); } pcl::PointCloud<pcl::PointXYZ> a, b; serpent::to_pcl(p, a); serpent::to_pcl(q, b); sv_check((int)a.size() == n && (int)b.size() == n, "every landmark is a point"); for (int i = 0; i < n && i < (int)a.size() && i < (int)b.size(); ++i) for (int d = 0; d < 3; ++d) { sv_eq(a[i].data[d], q[i][d], "landmarks keep their positions"); sv_eq(b[i].data[d], q[i][d], "landmarks keep their positions"); } sv_cover("backend_conversions:end");
}
// The robust estimators are those of the parameters.
void backend_robust() {
    namespace e = gtsam::noiseModel::mEstimator; static const char* TYPE[] = {"cauchy", "dcs", "fair", "geman_mcclure", "huber", "l2_with_dead_zone", "null", "tukey", "welsch"}; static const char* K[] = {"k", "c", "c", "c", "k", "k", "", "c", "c"}; const int t = sv_choice("type", 9), scheme = sv_choice("scheme", 3); const double v = sv_real("v", 0.1, 10); world::set("stereo_factors/robust/type", std::string(TYPE[t]));
    for (int i = 0; i < 9; ++i) if (i != 6) { const std::string b = std::string("stereo_factors/robust/") + TYPE[i] + "/"; world::set(b + K[i], i == t ? v : 20.0 + i); world::set(b + "reweight_scheme", std::string(i != t ? "BLOCK" : scheme == 0 ? "BLOCK" : scheme == 1 ? "SCALAR" : "other")); }
    Node* n = nullptr; const bool threw = throws([&] { n = new Node(STEREO, true); }); sv_check(threw == (scheme == 2 && t != 6), "unknown schemes are refused, others are not"); if (threw) { sv_cover("backend_robust:refused"); return; } const auto* r = dynamic_cast<const gtsam::noiseModel::Robust*>(n->g().stereo_noise_model.get()); if (!r || !r->robust()) { sv_fail("stereo factors are robust"); return; } sv_check(!!dynamic_cast<const gtsam::noiseModel::Diagonal*>(r->noise().get()), "stereo factors keep their noise"); const e::Base* m = r->robust().get(); double x = v; bool right = true;
    switch (t) { case 0: { auto* p = dynamic_cast<const e::Cauchy*>(m); if (p) x = p->k_; right = p; break; } case 1: { auto* p = dynamic_cast<const e::DCS*>(m); if (p) x = p->c_; right = p; break; } case 2: { auto* p = dynamic_cast<const e::Fair*>(m); if (p) x = p->c_; right = p; break; } case 3: { auto* p = dynamic_cast<const e::GemanMcClure*>(m); if (p) x = p->c_; right = p; break; } case 4: { auto* p = dynamic_cast<const e::Huber*>(m); if (p) x = p->k_; right = p; break; } case 5: { auto* p = dynamic_cast<const e::L2WithDeadZone*>(m); if (p) x = p->k_; right = p; break; } case 6: right = dynamic_cast<const e::Null*>(m); break; case 7: { auto* p = dynamic_cast<const e::Tukey*>(m); if (p) x = p->c_; right = p; break; } default: { auto* p = dynamic_cast<const e::Welsch*>(m); if (p) x = p->c_; right = p; } }
    sv_check(right, "the robust estimator is that of the parameters"); sv_eq(x, v, "the robust estimator has its parameter"); if (t != 6) sv_check(m->reweight_ == (scheme ? e::Base::Scalar : e::Base::Block), "the robust estimator has its scheme"); sv_cover("backend_robust:end");
}
// The noise of the inertial measurements and the place of the sensor are those of the parameters.
void backend_parameters() {
    const double g = sv_real("g", 9, 10), i = sv_real("i", 0.01, 1), ib = sv_real("ib", 0.01, 1), a = sv_real("a", 0.01, 1), w = sv_real("w", 0.01, 1); world::set("gravity", g); world::set("imu/noise/integration", i); world::set("imu/noise/integration_bias", ib); world::set("imu/noise/accelerometer_bias", a); world::set("imu/noise/gyroscope_bias", w); const int window = sv_choice("window", 4) - 1, method = sv_choice("method", 3); world::set("optimisation/marginalisation/enabled", window != 2); world::set("optimisation/marginalisation/window_size", 10 * window); world::set("isam2/optimization", std::string(method == 0 ? "GaussNewton" : method == 1 ? "Dogleg" : "other"));
    Node* n = nullptr; const bool threw = throws([&] { n = new Node(IMU); }); sv_check(threw == (window < 0 || method == 2), "a negative window or an unknown method is refused, others are not"); if (threw) { sv_cover("backend_parameters:refused"); return; } const auto& p = *n->o.preintegration_params; same(Vector3d(p.n_gravity), Vector3d(0, 0, -g), "gravity is down"); sv::eq(Matrix3d(p.integrationCovariance), Matrix3d(Matrix3d::Identity() * (i * i)), "the integration noise is that of the parameters"); sv::eq(Matrix3d(p.biasAccCovariance), Matrix3d(Matrix3d::Identity() * (a * a)), "the accelerometer's bias has the noise of the parameters"); sv::eq(Matrix3d(p.biasOmegaCovariance), Matrix3d(Matrix3d::Identity() * (w * w)), "the gyroscope's bias has the noise of the parameters"); sv::eq(Matrix6(p.biasAccOmegaInt), Matrix6(Matrix6::Identity() * (ib * ib)), "the initial biases have the noise of the parameters");
    if (p.body_P_sensor) same(*p.body_P_sensor, n->imu, "the inertial sensor is where the parameters say"); else sv_fail("the inertial sensor is where the parameters say"); sv_check(n->g().marginalisation == (window != 2) && (window == 2 || (int)n->g().marginalisation_window_size == 10 * window), "marginalisation follows the parameters"); sv_cover("backend_parameters:end");
}
}
