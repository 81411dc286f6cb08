// serpent: the factor graph manager.
#include "sv_eigen.h"
#include <gtsam/slam/BetweenFactor.h>
#include <gtsam/slam/PriorFactor.h>
#include <gtsam/slam/StereoFactor.h>
#include <gtsam/navigation/BarometricFactor.h>
#include <gtsam/inference/Symbol.h>
#include <serpent/back_end/graph_manager.hpp>
#include "../models/isam2.h"
using Eigen::Vector3d; using gtsam::Pose3; using gtsam::imuBias::ConstantBias; using gtsam::Key; using gtsam::symbol_shorthand::B; using gtsam::symbol_shorthand::P; using gtsam::symbol_shorthand::S; using gtsam::symbol_shorthand::V; using gtsam::symbol_shorthand::X;
using Graph = gtsam::NonlinearFactorGraph; using serpent::GraphManager;
static std::string id(const char* n, int i) { return std::string(n) + std::to_string(i); }
static Pose3 pose(const std::string& n) { return Pose3(gtsam::Rot3(0, -1, 0, 1, 0, 0, 0, 0, 1), sv::vector<3>(n.c_str())); }
static ConstantBias bias(const std::string& n) { return ConstantBias(sv::vector<3>((n + "a").c_str()), sv::vector<3>((n + "g").c_str())); }
// Distinguishable noise models that are only ever passed on.
static gtsam::SharedNoiseModel noise(int i) { static char storage[16 * 16]; return gtsam::SharedNoiseModel(gtsam::SharedNoiseModel(), reinterpret_cast<gtsam::noiseModel::Base*>(storage + 16 * i)); }
static void same(const Pose3& a, const Pose3& b, const char* m) { for (int i = 0; i < 3; ++i) { sv_eq(a.translation()(i), b.translation()(i), m); for (int j = 0; j < 3; ++j) sv_eq(a.rotation().matrix()(i, j), b.rotation().matrix()(i, j), m); } }
static void same(const ConstantBias& a, const ConstantBias& b, const char* m) { for (int i = 0; i < 3; ++i) { sv_eq(a.accelerometer()(i), b.accelerometer()(i), m); sv_eq(a.gyroscope()(i), b.gyroscope()(i), m); } }
static void same(const Vector3d& a, const Vector3d& b, const char* m) { for (int i = 0; i < 3; ++i) sv_eq(a(i), b(i), m); }
template<typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
extern "C" {
// The latest state set for a key is the state returned for it, whatever is set for other keys; nothing else exists.
void graph_states() {
    GraphManager g; const int a = sv_i32("key 1", 0, 1000), b = sv_i32("key 2", 0, 1000), c = sv_i32("key 3", 0, 1000);
    Pose3 p[3]; Vector3d v[3]; ConstantBias o[3]; double h[3]; ros::Time t[3]; const int k[3] = {a, b, c};
    for (int i = 0; i < 2; ++i) {
        p[i] = pose(id("p", i)); v[i] = sv::vector<3>(id("v", i).c_str()); o[i] = bias(id("b", i)); h[i] = sv_real(id("h", i).c_str(), -10, 10); t[i] = ros::Time(sv_u32(id("s", i).c_str(), 0, 1000), sv_u32(id("n", i).c_str(), 0, 999999999));
        if (i == 0) { g.set_pose(k[i], p[i]); g.set_velocity(k[i], v[i]); } else g.set_navstate(k[i], gtsam::NavState(p[i], v[i]));
        g.set_imu_bias(k[i], o[i]); g.set_barometer_bias(k[i], h[i]); g.set_timestamp(k[i], t[i]);
    }
    const int i = c == b ? 1 : c == a ? 0 : -1;
    sv_check(g.has_pose(c) == (i >= 0), "a pose exists exactly for the keys it was set for");
    if (i < 0) { sv_check(throws([&] { g.pose(c); }) && throws([&] { g.velocity(c); }) && throws([&] { g.imu_bias(c); }) && throws([&] { g.barometer_bias(c); }) && throws([&] { g.timestamp(c); }) && throws([&] { g.state(c); }), "states that were never set are refused"); sv_cover("graph_states:unknown"); return; }
    same(g.pose(c), p[i], "pose kept"); same(g.velocity(c), v[i], "velocity kept"); same(g.imu_bias(c), o[i], "biases kept"); sv_eq(g.barometer_bias(c), h[i], "barometer bias kept"); sv_check(g.timestamp(c) == t[i], "stamp kept");
    const gtsam::NavState n = g.navstate(c); same(n.pose(), p[i], "pose kept"); same(n.velocity(), v[i], "velocity kept");
    const serpent::RobotState s = g.state(c); same(s.pose(), p[i], "pose kept"); same(s.velocity(), v[i], "velocity kept"); same(s.imu_bias(), o[i], "biases kept"); sv_eq(s.barometer_bias(), h[i], "barometer bias kept"); sv_check(s.timestamp() == t[i], "stamp kept"); same(s.navstate().pose(), p[i], "pose kept");
    sv_cover(i ? "graph_states:second" : "graph_states:first");
}

// Named keys count independently; states can be addressed by name and offset.
void graph_named() {
    GraphManager g; int k[3]; unsigned r[3]; const char* n[3] = {"imu", "stereo", "lidar"};
    for (int i = 0; i < 3; ++i) { k[i] = sv_i32(id("k", i).c_str(), 0, 1000); r[i] = sv_u32(id("priority", i).c_str(), 0, 5); }
    const int count = 1 + sv_choice("names", 3); for (int i = 0; i < count; ++i) g.set_named_key(n[i], k[i], r[i]);
    for (int i = count; i < 3; ++i) { sv_check(throws([&] { g.key(n[i]); }) && throws([&] { g.increment(n[i]); }) && throws([&] { g.priority(n[i]); }), "names that were never set are refused"); }
    if (count == 3) { const int again = sv_choice("again", 4); if (again < 3) { k[again] = sv_i32("k again", 0, 1000); r[again] = 3; g.set_named_key(n[again], k[again], r[again]); } }
    const int steps = sv_choice("steps", 3); for (int i = 0; i < steps; ++i) { g.increment(n[0]); ++k[0]; }
    const int offset = sv_i32("offset", -5, 5);
    for (int i = 0; i < count; ++i) { sv_check(g.key(n[i]) == k[i] && g.key(n[i], offset) == k[i] + offset, "named keys keep their value and the offset is added"); sv_check(g.priority(n[i]) == r[i], "priorities are kept"); }
    const unsigned limit = sv_u32("limit", 0, 6); bool any = false; int least = 0;
    for (int i = 0; i < count; ++i) if (r[i] <= limit) { if (!any || k[i] < least) least = k[i]; any = true; }
    if (any) sv_check(g.minimum_key(limit) == least, "the minimum key is the least of the keys of at least that priority"); else sv_check(throws([&] { g.minimum_key(limit); }), "no minimum without a key of that priority");
    int all = k[0]; for (int i = 1; i < count; ++i) if (k[i] < all) all = k[i]; sv_check(g.minimum_key() == all, "by default every named key counts");
    sv_cover(any ? "graph_named:minimum" : "graph_named:none");
}
void graph_by_name() {
    GraphManager g; const int k = sv_i32("key", 3, 1000), offset = sv_choice("offset", 5) - 2; g.set_named_key("n", k); const int j = k + offset;
    const Pose3 p = pose("p"), q = pose("q"); const Vector3d v = sv::vector<3>("v"), w = sv::vector<3>("w"); const ConstantBias o = bias("o"); const double h = sv_real("h", -10, 10); const ros::Time t(sv_u32("s", 0, 1000), 5);
    g.set_pose("n", p, offset); sv_check(g.has_pose(j) && g.has_pose("n", offset), "a pose set by name is there"); for (int i = k - 2; i <= k + 2; ++i) sv_check(g.has_pose(i) == (i == j), "only the named key is set"); if (offset) sv_check(!g.has_pose("n"), "only the named key is set");
    g.set_velocity("n", v, offset); g.set_imu_bias("n", o, offset); g.set_barometer_bias("n", h, offset); g.set_timestamp("n", t, offset);
    same(g.pose(j), p, "pose by name"); same(g.pose("n", offset), p, "pose by name"); same(g.velocity(j), v, "velocity by name"); same(g.velocity("n", offset), v, "velocity by name"); same(g.imu_bias(j), o, "biases by name"); same(g.imu_bias("n", offset), o, "biases by name"); sv_eq(g.barometer_bias(j), h, "barometer bias by name"); sv_eq(g.barometer_bias("n", offset), h, "barometer bias by name"); sv_check(g.timestamp(j) == t && g.timestamp("n", offset) == t, "stamp by name");
    g.set_navstate("n", gtsam::NavState(q, w), offset); same(g.navstate(j).pose(), q, "state by name"); same(g.navstate("n", offset).velocity(), w, "state by name"); const serpent::RobotState s = g.state("n", offset); same(s.pose(), q, "state by name"); same(s.velocity(), w, "state by name"); same(s.imu_bias(), o, "state by name"); sv_eq(s.barometer_bias(), h, "state by name"); sv_check(s.timestamp() == t, "state by name");
    sv_cover("graph_by_name:end");
}
void graph_time() {
    GraphManager g; const int d[5] = {0, 1, 499999999, 500000000, 999999999}; const int a = sv_choice("a", 5), b = sv_choice("b", 5), sa = sv_choice("sa", 3), sb = sv_choice("sb", 3);
    const ros::Time ta(sa + 1, d[a]), tb(sb + 1, d[b]); const int k1 = sv_i32("key 1", 0, 100), k2 = sv_i32("key 2", 0, 100); sv_assume(k1 != k2); g.set_timestamp(k1, ros::Time(77, 7)); g.set_timestamp(k1, ta); g.set_timestamp(k2, tb); g.set_named_key("a", k1 + 2); g.set_named_key("b", k2 + 1);
    sv_check(g.time_between(k1, k2) == tb - ta, "time between two keys is the second stamp less the first"); sv_check(g.time_between(k2, k1) == ta - tb, "time between two keys is the second stamp less the first"); sv_check(g.time_between("a", "b", -2, -1) == tb - ta, "time between two named keys"); sv_check(g.time_between("b", "a", -1, -2) == ta - tb, "time between two named keys");
    sv_check(g.timestamps().size() == 2 && g.timestamps().at(k1) == ta && g.timestamps().at(k2) == tb, "all stamps"); sv_check(throws([&] { g.time_between(k1, 101); }), "unknown stamps are refused");
    sv_cover("graph_time:end");
}
}
// What a factor says.
template<typename F> static const F* as(const boost::shared_ptr<gtsam::NonlinearFactor>& f) { return dynamic_cast<const F*>(f.get()); }
static bool links(const gtsam::NonlinearFactor& f, std::initializer_list<Key> keys) { if (f.size() != keys.size()) return false; std::size_t i = 0; for (const Key k : keys) if (f.keys()[i++] != k) return false; return true; }
static gtsam::noiseModel::Base* model(const gtsam::NonlinearFactor& f) { return static_cast<const gtsam::NoiseModelFactor&>(f).noiseModel_.get(); }
struct Made { int kind, key; Pose3 pose; ConstantBias bias; Vector3d v; double x; int noise; };
static void make(GraphManager& g, Made& m, int i) {
    m.noise = i;
    switch (m.kind) {
        case 0: m.pose = pose(id("p", i)); g.create_prior_pose_factor(m.key, m.pose, noise(i)); break;
        case 1: m.v = sv::vector<3>(id("v", i).c_str()); g.create_prior_velocity_factor(m.key, m.v, noise(i)); break;
        case 2: m.bias = bias(id("b", i)); g.create_prior_imu_bias_factor(m.key, m.bias, noise(i)); break;
        case 3: m.x = sv_real(id("h", i).c_str(), -10, 10); g.create_prior_barometer_bias_factor(m.key, m.x, noise(i)); break;
        case 4: m.pose = pose(id("t", i)); g.create_between_pose_factor(m.key, m.pose, noise(i)); break;
        case 5: g.create_barometric_bias_factor(m.key, noise(i)); break;
        case 6: m.x = sv_real(id("kPa", i).c_str(), 60, 120); { const double h = g.create_barometric_factor(m.key, m.x, noise(i)); sv_eq(h, gtsam::BarometricFactor(0, 1, m.x, noise(i)).measurementIn(), "the height of the pressure is returned"); } break;
    }
}
static void check_factor(const boost::shared_ptr<gtsam::NonlinearFactor>& f, const Made& m) {
    const Key k = m.key; sv_check(model(*f) == noise(m.noise).get(), "a factor has the noise it was created with");
    switch (m.kind) {
        case 0: { const auto* p = as<gtsam::PriorFactor<Pose3>>(f); if (!p || !links(*f, {X(k)})) { sv_fail("prior on the pose of its key"); return; } same(p->prior(), m.pose, "prior pose kept"); break; }
        case 1: { const auto* p = as<gtsam::PriorFactor<gtsam::Velocity3>>(f); if (!p || !links(*f, {V(k)})) { sv_fail("prior on the velocity of its key"); return; } same(Vector3d(p->prior()), m.v, "prior velocity kept"); break; }
        case 2: { const auto* p = as<gtsam::PriorFactor<ConstantBias>>(f); if (!p || !links(*f, {B(k)})) { sv_fail("prior on the biases of its key"); return; } same(p->prior(), m.bias, "prior biases kept"); break; }
        case 3: { const auto* p = as<gtsam::PriorFactor<double>>(f); if (!p || !links(*f, {P(k)})) { sv_fail("prior on the barometer bias of its key"); return; } sv_eq(p->prior(), m.x, "prior barometer bias kept"); break; }
        case 4: { const auto* p = as<gtsam::BetweenFactor<Pose3>>(f); if (!p || !links(*f, {X(k - 1), X(k)})) { sv_fail("a between factor links the previous pose to the new one"); return; } same(p->measured(), m.pose, "relative pose kept"); break; }
        case 5: { const auto* p = as<gtsam::BetweenFactor<double>>(f); if (!p || !links(*f, {P(k - 1), P(k)})) { sv_fail("a bias factor links the previous bias to the new one"); return; } sv_eq(p->measured(), 0, "no change of bias is expected"); break; }
        case 6: { const auto* p = as<gtsam::BarometricFactor>(f); if (!p || !links(*f, {X(k), P(k)})) { sv_fail("a barometric factor links the pose and the barometer bias of its key"); return; } sv_eq(p->measurementIn(), gtsam::BarometricFactor(0, 1, m.x, noise(0)).measurementIn(), "pressure kept"); break; }
    }
}
// A range of keys contains exactly the factors added at those keys, by ascending key and in the order they were added.
static void check_range(const Graph& f, const Made* m, int n, int first, int last) {
    std::size_t at = 0; for (int k = first; k <= last; ++k) for (int i = 0; i < n; ++i) if (m[i].key == k) { if (at >= f.size()) { sv_fail("every factor of the range is there"); return; } check_factor(f[at++], m[i]); }
    sv_check(at == f.size(), "no factor of another key is in the range");
}
extern "C" {
void graph_factors() {
    GraphManager g; Made m[3]; const int n = 1 + sv_choice("factors", 2); for (int i = 0; i < n; ++i) { m[i].kind = sv_choice(id("kind", i).c_str(), 7); m[i].key = sv_i32(id("key", i).c_str(), 1, 3); make(g, m[i], i); }
    const int first = sv_i32("first", 0, 3), last = sv_i32("last", -1, 5); sv_assume(last >= first - 1); check_range(static_cast<const GraphManager&>(g).factors(first, last), m, n, first, last);
    sv_cover("graph_factors:end");
}
void graph_factors_order() {
    GraphManager g; Made m[3]; for (int i = 0; i < 3; ++i) { m[i].kind = 3 + i; m[i].key = sv_i32(id("key", i).c_str(), 1, 3); make(g, m[i], i); }
    check_range(static_cast<const GraphManager&>(g).factors(0, 4), m, 3, 0, 4); check_range(g.all_factors(), m, 3, 0, 4);
    const int k = sv_i32("of", 1, 3); const Graph f = g.factors_for_key(P(k)); std::size_t at = 0; for (int j = 1; j <= 3; ++j) for (int i = 0; i < 3; ++i) if (m[i].key == j && ((i == 0 && j == k) || (i == 2 && (j == k || j - 1 == k)))) { if (at >= f.size()) { sv_fail("every factor of a variable is found"); return; } check_factor(f[at++], m[i]); } sv_check(at == f.size(), "only factors of the variable are found");
    sv_cover("graph_factors_order:end");
}
// Extracting the new factors hands out each factor once, up to the given key.
void graph_new_factors() {
    GraphManager g; Made m[3]; for (int i = 0; i < 2; ++i) { m[i].kind = 3 + 2 * i; m[i].key = sv_i32(id("key", i).c_str(), 1, 3); make(g, m[i], i); }
    const int upto = sv_i32("up to", 0, 4); check_range(g.extract_new_factors(upto), m, 2, 0, upto);
    m[2].kind = 4; m[2].key = sv_i32("key2", 1, 3); make(g, m[2], 2);
    Made rest[3]; int n = 0; for (int i = 0; i < 3; ++i) if (i == 2 || m[i].key > upto) rest[n++] = m[i];
    const int then = sv_i32("then", 0, 4); check_range(g.extract_new_factors(then), rest, n, 0, then);
    check_range(static_cast<const GraphManager&>(g).factors(0, 4), m, 3, 0, 4); sv_check(g.extract_new_factors(then).empty(), "no factor is handed out twice");
    sv_cover("graph_new_factors:end");
}
void graph_imu_factor() {
    GraphManager g; const int k = sv_i32("key", 1, 1000); gtsam::PreintegratedCombinedMeasurements m; m.preintMeasCov_.setIdentity(); for (int i = 0; i < 9; ++i) m.preintegrated_(i) = sv_real(id("m", i).c_str(), -10, 10); m.deltaTij_ = sv_real("dt", 0.1, 5);
    g.create_combined_imu_factor(k, m); const Graph f = static_cast<const GraphManager&>(g).factors(k, k); sv_check(f.size() == 1, "one factor for its key"); const auto* c = as<gtsam::CombinedImuFactor>(f[0]); if (!c || !links(*c, {X(k - 1), V(k - 1), X(k), V(k), B(k - 1), B(k)})) { sv_fail("an inertial factor links the previous state to the new one"); return; }
    for (int i = 0; i < 9; ++i) sv_eq(c->preintegratedMeasurements().preintegrated()(i), m.preintegrated_(i), "measurements kept"); sv_eq(c->preintegratedMeasurements().deltaTij(), m.deltaTij_, "interval kept");
    sv_cover("graph_imu_factor:end");
}
// A range of keys contains exactly the states of those keys.
void graph_values() {
    GraphManager g; int k[2]; Pose3 p[2]; double h[2]; for (int i = 0; i < 2; ++i) { k[i] = sv_i32(id("key", i).c_str(), 0, 2); p[i] = pose(id("p", i)); h[i] = sv_real(id("h", i).c_str(), -10, 10); }
    const int which = sv_choice("which", 4); ConstantBias o = bias("o"); Vector3d v = sv::vector<3>("v");
    g.set_pose(k[0], p[0]); g.set_pose(k[1], p[1]); if (which & 1) { g.set_barometer_bias(k[0], h[0]); g.set_imu_bias(k[1], o); } if (which & 2) { g.set_velocity(k[0], v); g.set_barometer_bias(k[1], h[1]); }
    const int first = sv_i32("first", 0, 2), last = sv_i32("last", 0, 4); sv_assume(last >= first - 1); const gtsam::Values r = g.values(first, last); const auto in = [&](int i) { return first <= k[i] && k[i] <= last; };
    std::size_t n = 0; const bool one = k[0] == k[1];
    if (in(0)) { sv_check(r.exists(X(k[0])), "states of the range are there"); same(r.at<Pose3>(X(k[0])), one ? p[1] : p[0], "state kept"); ++n; } if (in(1) && !one) { sv_check(r.exists(X(k[1])), "states of the range are there"); same(r.at<Pose3>(X(k[1])), p[1], "state kept"); ++n; }
    if ((which & 1) && in(0)) { sv_eq(r.at<double>(P(k[0])), one && (which & 2) ? h[1] : h[0], "state kept"); ++n; } if ((which & 1) && in(1)) { same(r.at<ConstantBias>(B(k[1])), o, "state kept"); ++n; } if ((which & 2) && in(0)) { same(Vector3d(r.at<gtsam::Velocity3>(V(k[0]))), v, "state kept"); ++n; } if ((which & 2) && in(1) && !((which & 1) && one)) { sv_eq(r.at<double>(P(k[1])), h[1], "state kept"); ++n; }
    sv_check(r.size() == n, "no state of another key is in the range"); sv_cover("graph_values:end");
}
// Extracting the new values hands out each value once, with its latest estimate.
void graph_new_values() {
    GraphManager g; const int a = sv_i32("key 1", 0, 2), b = sv_i32("key 2", 0, 2); const Pose3 p = pose("p"), q = pose("q"), r = pose("r"), s = pose("s"); const double h = sv_real("h", -10, 10);
    g.set_pose(a, p); g.set_pose(b, q); g.set_barometer_bias(b, h); const int upto = sv_i32("up to", 0, 3);
    const gtsam::Values e = g.extract_new_values(upto); std::size_t n = 0; if (a <= upto) { same(e.at<Pose3>(X(a)), a == b ? q : p, "new state kept"); ++n; } if (b <= upto) { same(e.at<Pose3>(X(b)), q, "new state kept"); sv_eq(e.at<double>(P(b)), h, "new state kept"); n += a == b ? 1 : 2; } sv_check(e.size() == n, "no other state is new");
    g.set_pose(a, r); const gtsam::Values f = g.extract_new_values(3); n = 0;
    if (a > upto) { same(f.at<Pose3>(X(a)), r, "the latest estimate is handed out"); ++n; } if (b > upto) { if (a != b) { same(f.at<Pose3>(X(b)), q, "new state kept"); ++n; } sv_eq(f.at<double>(P(b)), h, "new state kept"); ++n; } sv_check(f.size() == n, "no state is handed out twice"); sv_check(g.extract_new_values(3).empty(), "no state is handed out twice");
    same(g.pose(a), r, "the graph keeps its states"); if (a != b) same(g.pose(b), q, "the graph keeps its states"); sv_eq(g.barometer_bias(b), h, "the graph keeps its states");
    sv_cover("graph_new_values:end");
}
// Optimised values replace those of the graph and nothing else.
void graph_update() {
    GraphManager g; const Pose3 p = pose("p"), q = pose("q"); const Vector3d v = sv::vector<3>("v"), w = sv::vector<3>("w"); const int a = sv_i32("key 1", 0, 2), b = sv_i32("key 2", 0, 2); const bool extracted = sv_choice("extracted", 2);
    g.set_pose(a, p); g.set_velocity(a, v); g.set_pose(1, p); if (extracted) g.extract_new_values(0);
    gtsam::Values u; u.insert(X(b), q); if (sv_choice("velocity", 2)) u.insert(V(a), gtsam::Velocity3(w)); const bool known = b == a || b == 1;
    const bool threw = throws([&] { g.update_from_values(u); }); sv_check(threw == !known, "values the graph does not know are refused"); if (threw) { sv_check(!g.has_pose(b), "unknown values are not added"); sv_cover("graph_update:refused"); return; }
    same(g.pose(b), q, "the updated state is kept"); if (b != a) same(g.pose(a), p, "other states are not touched"); if (b != 1) same(g.pose(1), p, "other states are not touched"); same(g.velocity(a), u.exists(V(a)) ? w : v, "the updated state is kept");
    const gtsam::Values e = g.extract_new_values(3); sv_check(e.exists(X(b)) == !(extracted && b == 0), "an update makes nothing new"); if (e.exists(X(b))) same(e.at<Pose3>(X(b)), q, "new states have their latest estimate");
    sv_cover("graph_update:end");
}
}
// Stereo frames: key, pose, and the features seen with their ids.
struct Frame { int key; Pose3 pose; std::map<int, gtsam::StereoPoint2> features; };
static const double FX = 400, FY = 300, PX = 320, PY = 240, BASE = 0.25;
static gtsam::StereoPoint2 feature(const std::string& n) { const double r = sv_real((n + "r").c_str(), 0, 640), d = sv_real((n + "d").c_str(), 1, 100), v = sv_real((n + "v").c_str(), 0, 480); return gtsam::StereoPoint2(r + d, r, v); }
static Pose3 mount() { return Pose3(gtsam::Rot3(0, 0, 1, -1, 0, 0, 0, -1, 0), sv::vector<3>("m")); }
struct Stereo : serpent::ISAM2GraphManager { Pose3 m = mount(); Stereo() : serpent::ISAM2GraphManager(gtsam::ISAM2Params()) { set_body_to_stereo_left_cam_pose(m); set_stereo_calibration(gtsam::Cal3_S2Stereo(FX, FY, 0, PX, PY, BASE)); set_stereo_noise_model(noise(7)); } };
// The landmark seen by a feature from a body pose, in the world.
static Vector3d landmark(const Pose3& body, const Pose3& m, const gtsam::StereoPoint2& f) {
    const double z = FX * BASE / (f.uL() - f.uR()); const Vector3d c(z * (f.uL() - PX) / FX, z * (f.v() - PY) / FY, z); const Vector3d b = m.rotation().matrix() * c + m.translation(); return body.rotation().matrix() * b + body.translation();
}
static void same(const gtsam::StereoPoint2& a, const gtsam::StereoPoint2& b, const char* m) { sv_eq(a.uL(), b.uL(), m); sv_eq(a.uR(), b.uR(), m); sv_eq(a.v(), b.v(), m); }
using StereoFactor = gtsam::GenericStereoFactor<Pose3, gtsam::Point3>;
// Frames with any of the ids seen in each; keys rise but need not be consecutive.
static std::vector<Frame> see(GraphManager& g, int frames, int ids) {
    std::vector<Frame> f(frames); int key = sv_i32("first key", 0, 3);
    for (int i = 0; i < frames; ++i) {
        if (i) { const int gap = sv_i32(id("gap", i).c_str(), 1, 3); key += gap; } f[i].key = key; f[i].pose = pose(id("p", i)); g.set_pose(key, f[i].pose); for (int j = 0; j < ids; ++j) if (sv_choice((id("seen", i) + std::to_string(j)).c_str(), 2)) f[i].features.emplace(10 + 5 * j, feature(id("f", i) + std::to_string(j)));
        g.create_stereo_factors_and_values(key, f[i].features);
    }
    return f;
}
static bool sees(const std::vector<Frame>& f, int i, int j) { return i >= 0 && f[i].features.count(j); }
static void check_link(const Graph& g, const Stereo& s, int key, int j, const gtsam::StereoPoint2& seen) {
    int found = 0; for (const auto& f : g) { if (!links(*f, {X(key), S(j)})) continue; ++found; const auto* p = as<StereoFactor>(f); if (!p) { sv_fail("landmarks are linked by stereo factors"); return; } same(p->measured(), seen, "a stereo factor has the feature seen from its pose"); sv_check(p->calibration() == s.K, "a stereo factor has the stereo calibration"); sv_check(model(*f) == noise(7).get(), "a stereo factor has the stereo noise"); sv_check(!!p->body_P_sensor_, "a stereo factor knows where the camera is mounted"); if (p->body_P_sensor_) same(*p->body_P_sensor_, s.m, "a stereo factor knows where the camera is mounted"); }
    sv_check(found == 1, "a feature gives one factor between its pose and its landmark");
}
static void check_stereo(Stereo& s, const std::vector<Frame>& f, int ids) {
    std::map<int, Vector3d> all; std::map<int, int> first;
    for (int i = 0; i < (int)f.size(); ++i) {
        const Graph g = static_cast<const GraphManager&>(s).factors(f[i].key, f[i].key); std::size_t n = 0;
        for (int j = 0; j < ids; ++j) {
            const int k = 10 + 5 * j; if (!sees(f, i, k) || !sees(f, i - 1, k)) continue;
            if (!sees(f, i - 2, k)) { check_link(g, s, f[i - 1].key, k, f[i - 1].features.at(k)); first[k] = f[i].key; ++n; } check_link(g, s, f[i].key, k, f[i].features.at(k)); ++n; all[k] = landmark(f[i].pose, s.m, f[i].features.at(k));
        }
        sv_check(g.size() == n, "only tracked features give factors");
    }
    for (int j = 0; j < ids; ++j) { const int k = 10 + 5 * j; sv_check(s.has_stereo_landmark(k) == (all.count(k) > 0), "tracked features have landmarks"); if (all.count(k)) same(Vector3d(s.stereo_landmark(k)), all[k], "a landmark is where its last feature was seen"); }
    const auto m = s.stereo_landmarks(); sv_check(m.size() == all.size(), "all landmarks"); for (const auto& a : all) { const auto it = m.find(a.first); sv_check(it != m.end(), "all landmarks"); if (it != m.end()) same(Vector3d(it->second), a.second, "all landmarks"); }
    for (const auto& x : f) { std::size_t n = 0; const auto l = s.stereo_landmarks(x.key); for (const auto& a : first) if (a.second == x.key) { ++n; const auto it = l.find(a.first); sv_check(it != l.end(), "the landmarks of a key are those first tracked there"); if (it != l.end()) same(Vector3d(it->second), all[a.first], "the landmarks of a key are those first tracked there"); } sv_check(l.size() == n, "the landmarks of a key are those first tracked there"); }
    const int lo = sv_i32("lo", 0, 9), hi = sv_i32("hi", 0, 12); sv_assume(lo <= hi); const gtsam::Values v = s.values(lo, hi); std::size_t n = 0;
    for (const auto& x : f) if (lo <= x.key && x.key <= hi) { ++n; sv_check(v.exists(X(x.key)), "the poses of a range of keys"); }
    for (const auto& a : first) if (lo <= a.second && a.second <= hi) { ++n; sv_check(v.exists(S(a.first)), "the landmarks first tracked in a range of keys"); if (v.exists(S(a.first))) same(Vector3d(v.at<gtsam::Point3>(S(a.first))), all[a.first], "the landmarks first tracked in a range of keys"); }
    sv_check(v.size() == n, "nothing else is in a range of keys");
}
extern "C" {
void stereo_three() { Stereo& s = *new Stereo(); const std::vector<Frame> f = see(s, 3, 1); check_stereo(s, f, 1); sv_cover("stereo_three:end"); }
void stereo_ids() { Stereo& s = *new Stereo(); const std::vector<Frame> f = see(s, 2, 2); check_stereo(s, f, 2); sv_cover("stereo_ids:end"); }
// New landmarks and stereo factors are handed out once.
void stereo_new() {
    Stereo& s = *new Stereo(); const std::vector<Frame> f = see(s, 3, 2); std::map<int, int> first; for (int i = 1; i < 3; ++i) for (int k = 10; k <= 15; k += 5) if (sees(f, i, k) && sees(f, i - 1, k) && !sees(f, i - 2, k)) first[k] = f[i].key;
    const int upto = sv_i32("up to", 0, 9); const Graph g = s.extract_new_factors(upto), h = s.extract_new_factors(9); std::size_t a = 0, b = 0; for (const auto& x : f) (x.key <= upto ? a : b) += static_cast<const GraphManager&>(s).factors(x.key, x.key).size(); sv_check(g.size() == a && h.size() == b, "stereo factors are handed out once");
    const gtsam::Values v = s.extract_new_values(upto), w = s.extract_new_values(9); a = b = 0; for (const auto& x : f) { sv_check(v.exists(X(x.key)) == (x.key <= upto) && w.exists(X(x.key)) == (x.key > upto), "new poses are handed out once"); ++(x.key <= upto ? a : b); } for (const auto& x : first) { sv_check(v.exists(S(x.first)) == (x.second <= upto) && w.exists(S(x.first)) == (x.second > upto), "new landmarks are handed out once"); ++(x.second <= upto ? a : b); } sv_check(v.size() == a && w.size() == b, "nothing else is handed out");
    sv_cover("stereo_new:end");
}
void stereo_refused() {
    Stereo& s = *new Stereo(); const Pose3 p = pose("p"); s.set_pose(1, p); std::map<int, gtsam::StereoPoint2> a; a.emplace(3, feature("a")); s.create_stereo_factors_and_values(1, a); const int k = sv_i32("key", 1, 4);
    if (k > 2) s.set_pose(k, p); const bool threw = throws([&] { s.create_stereo_factors_and_values(k, a); }); sv_check(threw == (k <= 2), "a key with stereo features already, or without a pose, is refused"); if (!threw) { sv_cover("stereo_refused:ok"); return; }
    sv_check(static_cast<const GraphManager&>(s).factors(0, 5).empty() && !s.has_stereo_landmark(3), "a refused frame adds nothing"); sv_cover("stereo_refused:refused");
}
void stereo_camera() {
    Stereo& s = *new Stereo(); const int k = sv_i32("key", 0, 100); const Pose3 p = pose("p"); s.set_pose(k, p); s.set_named_key("n", k + 1); const gtsam::StereoCamera c = s.stereo_camera(k), d = s.stereo_camera("n", -1);
    const Eigen::Matrix3d R = p.rotation().matrix() * s.m.rotation().matrix(); const Vector3d t = p.rotation().matrix() * s.m.translation() + p.translation(); for (const auto* x : {&c, &d}) { sv::eq(x->pose().rotation().matrix(), R, "the camera is where it is mounted on the body"); same(Vector3d(x->pose().translation()), t, "the camera is where it is mounted on the body"); sv_eq(x->baseline(), BASE, "the camera's baseline"); }
    sv_check(s.stereo_calibration()->fx() == FX && s.stereo_calibration()->fy() == FY && s.stereo_calibration()->px() == PX && s.stereo_calibration()->py() == PY, "the calibration is kept"); sv_cover("stereo_camera:end");
}
// The optimiser is given every factor and value once, and its estimate replaces the graph's values.
void optimise_history() {
    serpent::ISAM2GraphManager& g = *new serpent::ISAM2GraphManager(gtsam::ISAM2Params()); const bool marginal = sv_choice("marginalise", 2); const int window = sv_i32("window", 0, 3); if (marginal || sv_choice("off", 2)) g.set_marginalisation(marginal, window);
    sv_check(g.opt_key() == -1 && g.marginalisation_key() == -1, "nothing is optimised or marginalised at first"); Made m[4]; int given = -1, gone = -1; std::size_t calls = 0, out = 0; const Pose3 p = pose("p"), q = pose("q");
    for (int k = 0; k < 4; ++k) {
        g.set_pose(k, p); m[k].kind = k ? 4 : 0; m[k].key = k; make(g, m[k], k); if (k < 3 && !sv_choice(id("optimise", k).c_str(), 2)) continue;
        int upto = k; if (k == 3) { upto = sv_i32("up to", 0, 4); sv_assume(upto >= given); } isam2::estimate().clear(); for (int i = 0; i <= upto && i <= k; ++i) isam2::estimate().insert(X(i), q);
        const gtsam::ISAM2Result r = g.optimise(upto); ++calls; sv_check(isam2::updates().size() == calls && r.cliques == calls, "optimising updates the optimiser once and returns its result"); if (isam2::updates().size() != calls) return; const isam2::Update& u = isam2::updates().back();
        Made fresh[4]; int n = 0; for (int i = 0; i <= k; ++i) if (i > given) fresh[n++] = m[i]; check_range(u.factors, fresh, n, 0, upto); std::size_t states = 0; for (int i = given + 1; i <= upto && i <= k; ++i) { ++states; sv_check(u.values.exists(X(i)), "new states are given to the optimiser"); if (u.values.exists(X(i))) same(u.values.at<Pose3>(X(i)), p, "new states are given to the optimiser"); } sv_check(u.values.size() == states, "states are given to the optimiser once"); given = upto;
        sv_check(g.opt_key() == upto, "the last optimised key is kept"); for (int i = 0; i <= k; ++i) same(g.pose(i), i <= upto ? q : p, "the estimate replaces the optimised states only");
        const int due = marginal ? upto - window : -1; if (due > gone) gone = due; sv_check(g.marginalisation_key() == gone, "the last marginalised key is kept"); std::vector<Key>& x = isam2::marginalised(); int last = gone < k ? gone : k; sv_check((int)x.size() == last + 1, "states that leave the window are marginalised once"); for (; out < x.size(); ++out) sv_check(x[out] == X(out), "states are marginalised in order");
    }
    if (marginal) sv_cover("optimise_history:marginal"); else sv_cover("optimise_history:end");
}
void optimise_marginalise() {
    serpent::ISAM2GraphManager& g = *new serpent::ISAM2GraphManager(gtsam::ISAM2Params()); const Pose3 p = pose("p"); const Vector3d v = sv::vector<3>("v"); for (int i = 0; i < 3; ++i) { g.set_pose(i, p); g.set_velocity(i, v); g.set_imu_bias(i, ConstantBias()); g.set_barometer_bias(i, 0); } isam2::estimate().insert(X(0), p); const int upto = sv_i32("up to", 0, 2); g.optimise(upto);
    const int key = sv_i32("key", 0, 3); const bool threw = throws([&] { g.marginalise(key); }); sv_check(threw == (key > upto), "only optimised states are marginalised"); if (threw) { sv_check(isam2::marginalised().empty() && g.marginalisation_key() == -1, "a refused request changes nothing"); sv_cover("optimise_marginalise:refused"); return; }
    const std::vector<Key>& x = isam2::marginalised(); sv_check((int)x.size() == 4 * (key + 1) && g.marginalisation_key() == key, "every state up to the key is marginalised"); for (int i = 0; i <= key; ++i) for (const Key k : {X(i), V(i), B(i), P(i)}) { int n = 0; for (const Key j : x) n += j == k; sv_check(n == 1, "every state up to the key is marginalised once"); }
    sv_cover("optimise_marginalise:end");
}
void optimise_covariances() {
    serpent::ISAM2GraphManager& g = *new serpent::ISAM2GraphManager(gtsam::ISAM2Params()); const int k = sv_i32("key", 0, 1000); const int which = sv_choice("which", 5); const int n = which == 0 || which == 1 ? 6 : which == 3 ? 1 : 3; isam2::covariance().resize(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) isam2::covariance()(i, j) = sv_real(id("c", 10 * i + j).c_str(), -10, 10);
    Eigen::MatrixXd r; Key of = 0; switch (which) { case 0: r = g.pose_covariance(k); of = X(k); break; case 1: r = g.imu_bias_covariance(k); of = B(k); break; case 2: r = g.velocity_covariance(k); of = V(k); break; case 3: r = g.barometer_bias_variance(k); of = P(k); break; default: r = g.covariance(S(k)); of = S(k); }
    sv_check(isam2::asked().size() == 1 && isam2::asked()[0] == of, "the marginal covariance of the variable is asked for"); sv::eq(r, isam2::covariance(), "the optimiser's covariance is returned"); sv_cover("optimise_covariances:end");
}
}
