// Time-series utilities and conversions of the optimiser's types (serpent/utils).
#include "sv.h"
#include "sv_eigen.h"
#include <ros/ros.h>
#include <serpent/utils/ros_conversion.hpp>
#include <serpent/utils/utilities.hpp>
#include <deque>
#include <stdexcept>
#include <vector>
using Eigen::Matrix3d; using Eigen::Quaterniond; using Eigen::Vector3d;
typedef std::deque<eigen_ros::Imu> Buffer;
// the optimiser's preintegration is the environment: it records what it is given and, as in GTSAM, refuses dt <= 0
struct Step { Vector3d acc, gyro; double dt; };
static std::vector<Step>& steps() { static std::vector<Step> v; return v; }
struct Preintegration : gtsam::PreintegratedCombinedMeasurements {
    void integrateMeasurement(const gtsam::Vector3& a, const gtsam::Vector3& w, const double dt) override { if (dt <= 0) throw std::runtime_error("PreintegratedCombinedMeasurements::integrateMeasurement: dt <=0"); steps().push_back({a, w, dt}); deltaTij_ += dt; }
};
static Preintegration& preintegration() { static Preintegration& p = *new Preintegration(); return p; }
static std::string nm(const char* n, int i) { return std::string(n) + std::to_string(i); }
static eigen_ros::Imu imu(int i, const ros::Time& t) { eigen_ros::Imu m; m.timestamp = t; m.linear_acceleration = sv::vector<3>(nm("a", i).c_str()); m.angular_velocity = sv::vector<3>(nm("w", i).c_str()); return m; }
static const ros::Time GRID[] = {{99, 990000000}, {99, 999999999}, {100, 0}, {100, 10000000}, {100, 20000000}, {100, 35000000}, {101, 500000000}};
static const double SECS[] = {-0.01, -1e-9, 0, 0.01, 0.02, 0.035, 1.5};
// every measurement acts from its stamp to the next one, within [start, end]
static void covers(const Buffer& b, const std::vector<double>& t, double s, double e) {
    std::size_t k = 0; const std::size_t n = b.size(); double total = 0;
    for (std::size_t i = 0; i < n; ++i) {
        const double lo = t[i] > s ? t[i] : s, hi = i + 1 < n && t[i + 1] < e ? t[i + 1] : e; if (!(lo < hi)) continue;
        sv_check(k < steps().size(), "every part of the interval is integrated"); if (k >= steps().size()) return; const Step& p = steps()[k++];
        sv::eq(p.acc, b[i].linear_acceleration, "each part of the interval uses the latest measurement"); sv::eq(p.gyro, b[i].angular_velocity, "each part of the interval uses the latest measurement"); sv_eq(p.dt, hi - lo, "each measurement acts until the next one"); total += p.dt;
    }
    sv_check(k == steps().size(), "nothing is integrated twice"); sv_eq(total, e - s, "the whole interval is integrated");
}
template<int N> static void integrate() {
    int g[N], prev = 0; Buffer b; std::vector<double> t; for (int i = 0; i < N; ++i) { g[i] = prev = prev + sv_choice(nm("gap", i).c_str(), 7 - prev); b.push_back(imu(i, GRID[g[i]])); t.push_back(SECS[g[i]]); }
    const int s = g[0] + sv_choice("start", 7 - g[0]), e = s + sv_choice("end", 7 - s); sv_tol(1e-7);
    serpent::integrate_imu(preintegration(), b, GRID[s], GRID[e]); if (s == e) { sv_check(steps().empty(), "nothing is integrated over an empty interval"); return; }
    covers(b, t, SECS[s], SECS[e]);
}
extern "C" {
void integrate_two() { integrate<2>(); sv_cover("integrate_two:end"); }
void integrate_three() { integrate<3>(); sv_cover("integrate_three:end"); }
void integrate_four() { integrate<4>(); sv_cover("integrate_four:end"); }
void integrate_refused() {
    const int n = sv_choice("measurements", 4), first = sv_choice("first", 6), s = sv_choice("start", 6), e = s + sv_choice("end", 7 - s); Buffer b; for (int i = 0; i < n; ++i) b.push_back(imu(i, GRID[first])); if (n) b.back().timestamp = GRID[6]; bool threw = false; sv_assume(n != 1 || first == 0);
    try { serpent::integrate_imu(preintegration(), b, GRID[s], GRID[e]); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == (s != e && (n < 2 || first > s)), "intervals that the measurements do not cover are refused"); if (threw) sv_check(steps().empty(), "refused intervals are not integrated"); sv_cover(threw ? "integrate_refused:refused" : "integrate_refused:accepted");
}
void delete_old() {
    const int n = sv_choice("measurements", 4); Buffer b; int g[4] = {0, 0, 0, 0}, prev = 0; for (int i = 0; i < n; ++i) { g[i] = prev = prev + sv_choice(nm("gap", i).c_str(), 5 - prev); b.push_back(imu(i, GRID[g[i]])); } const Buffer o = b; const int at = sv_choice("time", 6);
    serpent::delete_old_measurements(GRID[at], b); int first = 0; while (first < n && g[first] < at) ++first; sv_check((int)b.size() == n - first, "exactly the measurements before the time are removed"); if ((int)b.size() != n - first) return;
    for (int i = first; i < n; ++i) { sv_check(b[i - first].timestamp == o[i].timestamp, "the others are kept in order"); sv::eq(b[i - first].linear_acceleration, o[i].linear_acceleration, "the others are kept in order"); } sv_cover("delete_old:end");
}
void pressure() {
    const int i = sv_choice("first", 7), j = sv_choice("second", 7), k = sv_choice("at", 7); sensor_msgs::FluidPressure a, b; a.header.stamp = GRID[i]; b.header.stamp = GRID[j]; a.header.frame_id = "a"; b.header.frame_id = "b"; a.fluid_pressure = sv_real("pa", 0, 1e6); b.fluid_pressure = sv_real("pb", 0, 1e6); a.variance = sv_real("va", 0, 100); b.variance = sv_real("vb", 0, 100); bool threw = false; sensor_msgs::FluidPressure r; sv_tol(1e-5);
    try { r = serpent::interpolate_pressure(a, b, GRID[k]); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == !(i < j && i <= k && k <= j), "times outside the two measurements are refused"); if (threw) { sv_cover("pressure:refused"); return; }
    const double d = SECS[j] - SECS[i], u = SECS[k] - SECS[i], v = SECS[j] - SECS[k]; sv_check(r.header.stamp == GRID[k] && r.header.frame_id == "a", "the result is at the given time in the first frame"); sv_eq(r.fluid_pressure, (v / d) * a.fluid_pressure + (u / d) * b.fluid_pressure, "pressure is interpolated linearly"); sv_eq(r.variance, (v / d) * a.variance + (u / d) * b.variance, "variance is interpolated linearly"); sv_cover("pressure:end");
}
void scalar_interpolation() {
    const int i = sv_choice("first", 7), j = sv_choice("second", 7), k = sv_choice("at", 7); if (!(i < j && i <= k && k <= j)) return; const float a = sv_realf("a", -10, 10), b = sv_realf("b", -10, 10); sv_tol(1e-5); const float r = serpent::interpolate<float>(a, b, GRID[i], GRID[j], GRID[k]); const double d = SECS[j] - SECS[i], u = (SECS[k] - SECS[i]) / d; sv_eq(r, (1 - u) * a + u * b, "values are interpolated linearly"); sv_cover("scalar_interpolation:end");
}
void biases() {
    const Vector3d a = sv::vector<3>("a"), g = sv::vector<3>("g"); serpent::ImuBiases m; serpent::to_ros(m, gtsam::imuBias::ConstantBias(a, g), GRID[3], "imu"); sv_check(m.header.stamp == GRID[3] && m.header.frame_id == "imu", "stamp and frame"); const auto& x = m.accelerometer_bias; const auto& y = m.gyroscope_bias;
    sv::eq(Vector3d(x.x, x.y, x.z), a, "accelerometer bias"); sv::eq(Vector3d(y.x, y.y, y.z), g, "gyroscope bias"); gtsam::imuBias::ConstantBias back; serpent::from_ros(m, back); sv::eq(Vector3d(back.accelerometer()), a, "biases come back"); sv::eq(Vector3d(back.gyroscope()), g, "biases come back"); serpent::ImuBiases d; serpent::to_ros(d, back, GRID[1]); sv_check(d.header.frame_id.empty(), "no frame by default"); sv_cover("biases:end");
}
void arrays() {
    const int n = sv_choice("measurements", 3); Buffer b, back; for (int i = 0; i < n; ++i) b.push_back(imu(i, GRID[2 * i])); std::vector<sensor_msgs::Imu> m; serpent::to_ros(m, b); sv_check((int)m.size() == n, "one message per measurement"); serpent::from_ros(m, back); sv_check((int)back.size() == n, "one measurement per message"); if ((int)m.size() != n || (int)back.size() != n) return;
    for (int i = 0; i < n; ++i) { sv_check(m[i].header.stamp == GRID[2 * i] && back[i].timestamp == GRID[2 * i], "measurements stay in order"); const auto& a = m[i].linear_acceleration; sv::eq(Vector3d(a.x, a.y, a.z), b[i].linear_acceleration, "acceleration"); sv::eq(back[i].linear_acceleration, b[i].linear_acceleration, "acceleration comes back"); sv::eq(back[i].angular_velocity, b[i].angular_velocity, "angular velocity comes back"); } sv_cover("arrays:end");
}
void poses() {
    const Quaterniond q = sv::quaternion("q"); const Vector3d t = sv::vector<3>("t"); geometry_msgs::Pose m; m.position.x = t[0]; m.position.y = t[1]; m.position.z = t[2]; m.orientation.w = q.w(); m.orientation.x = q.x(); m.orientation.y = q.y(); m.orientation.z = q.z(); gtsam::Pose3 p; serpent::from_ros(m, p); sv::eq(Vector3d(p.translation()), t, "position"); sv::eq(Matrix3d(p.rotation().matrix()), sv::rotation_of(q), "orientation");
    geometry_msgs::Pose r; serpent::to_ros(r, p); sv::eq(Vector3d(r.position.x, r.position.y, r.position.z), t, "position comes back"); sv::eq(sv::rotation_of(Quaterniond(r.orientation.w, r.orientation.x, r.orientation.y, r.orientation.z)), sv::rotation_of(q), "orientation comes back"); sv_cover("poses:end");
}
void sleeping() {  // the condition is looked at with the mutex held, time passes with it released
    static std::mutex m; auto held = [] { return m.native_handle()->__data.__lock != 0; }; const bool already = sv_choice("already locked", 2) != 0, leave = sv_choice("leave locked", 2) != 0; const int until = sv_choice("condition ends after", 4), stops = sv_choice("ROS stops after", 5); static const double PERIODS[] = {0.001, 0.5, 2.25}; const double period = PERIODS[sv_choice("period", 3)]; static int looked, slept; looked = slept = 0; static double p; p = period;
    if (already) m.lock(); ros::world::running() = stops != 0; ros::world::on_sleep() = [held, stops](const ros::Duration& d) { sv_check(!held(), "the mutex is free while sleeping"); sv_tol(1e-6); sv_eq(d.toSec(), p, "each sleep lasts the period"); if (++slept >= stops) ros::world::running() = false; };
    const bool r = serpent::protected_sleep(m, period, already, leave, [held, until] { sv_check(held(), "the condition is read under the mutex"); return looked++ < until; });
    const int sleeps = until < stops ? until : stops; sv_check(slept == sleeps, "it sleeps exactly while the condition holds and ROS runs"); sv_check(r == (stops > sleeps), "it tells whether ROS still runs"); sv_check(held() == leave, "the mutex is left as asked for"); ros::world::on_sleep() = nullptr; sv_cover(r ? "sleeping:end" : "sleeping:stopped");
}
static bool spd(const Matrix3d& m) { const double a = m(0, 0), b = a * m(1, 1) - m(0, 1) * m(1, 0), c = m.determinant(); return a > 0 && b > 0 && c > 0; }
void noise() {  // the noise of the accelerometer and of the gyroscope
    Matrix3d a = Matrix3d::Zero(), g = Matrix3d::Zero(); for (int i = 0; i < 3; ++i) { a(i, i) = sv_real(nm("a", i).c_str(), -2, 2); g(i, i) = sv_real(nm("b", i).c_str(), -2, 2); sv_assume(std::abs(a(i, i)) > 1e-3); sv_assume(std::abs(g(i, i)) > 1e-3); }
    gtsam::PreintegrationParams p(Vector3d(0, 0, -9.81)); bool threw = false; try { serpent::update_preintegration_params(p, a, g); } catch (const std::runtime_error&) { threw = true; } sv_check(threw == !(spd(a) && spd(g)), "noise that is no covariance is refused"); if (threw) { sv_cover("noise:refused"); return; }
    sv::eq(Matrix3d(p.getAccelerometerCovariance()), a, "the accelerometer's noise is the accelerometer's"); sv::eq(Matrix3d(p.getGyroscopeCovariance()), g, "the gyroscope's noise is the gyroscope's"); sv_check(serpent::check_valid(p), "valid parameters are valid"); p.n_gravity = Vector3d(0, 0, 0); sv_check(!serpent::check_valid(p), "gravity is needed"); sv_cover("noise:end");
}
}
