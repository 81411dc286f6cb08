// Body frames: the tree of sensor frames read from the parameter server (eigen_ros/body_frames).
#include "sv.h"
#include "sv_eigen.h"
#include <eigen_ros/body_frames.hpp>
#include <eigen_ros/body_frames_tf.hpp>
#include <eigen_ros/geometry_msgs.hpp>
#include <algorithm>
#include <stdexcept>
using Eigen::Isometry3d; using Eigen::Matrix3d; using Eigen::Quaterniond; using Eigen::Vector3d;
typedef XmlRpc::XmlRpcValue Value;
static const Quaterniond TURNS[] = {{1, 0, 0, 0}, {0.8, 0.6, 0, 0}, {0.6, 0, -0.8, 0}, {0.28, 0, 0, 0.96}, {0.5, -0.5, 0.5, 0.5}, {0, 0.8, 0, 0.6}};
static Isometry3d pose(const Quaterniond& q, const Vector3d& t) { Isometry3d T = Isometry3d::Identity(); T.linear() = sv::rotation_of(q); T.translation() = t; return T; }
static void put(Value& v, const Vector3d& t) { const char* n[] = {"x", "y", "z"}; for (int k = 0; k < 3; ++k) v["translation"][n[k]] = t[k]; }
static void put(Value& v, const Quaterniond& q, double scale = 1) { auto& r = v["rotation"]; r["w"] = scale * q.w(); r["x"] = scale * q.x(); r["y"] = scale * q.y(); r["z"] = scale * q.z(); }
static void eq(const Isometry3d& a, const Isometry3d& b, const char* m) { sv::eq(a.matrix(), b.matrix(), m); }
// the inverse written out
static Isometry3d inv(const Isometry3d& T) { Isometry3d I = Isometry3d::Identity(); I.linear() = T.linear().transpose(); for (int i = 0; i < 3; ++i) { double s = 0; for (int k = 0; k < 3; ++k) s -= T.linear()(k, i) * T.translation()[k]; I.translation()[i] = s; } return I; }
static eigen_ros::BodyFrames* frames(const Value& v) { ros::world::set("body_frames", v); return new eigen_ros::BodyFrames(); }
static Isometry3d read(const geometry_msgs::Transform& m) { return pose(Quaterniond(m.rotation.w, m.rotation.x, m.rotation.y, m.rotation.z), Vector3d(m.translation.x, m.translation.y, m.translation.z)); }
static bool has(const std::vector<std::string>& v, const std::string& s) { return std::find(v.begin(), v.end(), s) != v.end(); }
static void answers(const Isometry3d& T, const Quaterniond& q) {
    tf2_ros::answer() = [T, q](const tf2_ros::Question&) { geometry_msgs::TransformStamped m; const Vector3d t = T.translation(); m.transform.translation.x = t[0]; m.transform.translation.y = t[1]; m.transform.translation.z = t[2]; m.transform.rotation.w = q.w(); m.transform.rotation.x = q.x(); m.transform.rotation.y = q.y(); m.transform.rotation.z = q.z(); return m; };
}
static bool asked(std::size_t i, const char* target, const char* source, const ros::Time& t, double timeout) {
    if (i >= tf2_ros::questions().size()) return false; const auto& q = tf2_ros::questions()[i]; return q.target == target && q.source == source && q.time == t && q.timeout > timeout - 1e-6 && q.timeout < timeout + 1e-6;
}
template<typename F> static bool refuses(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

extern "C" {
void frames_chain() {  // body - a - b - c, and d beside a
    const Quaterniond qa = sv::quaternion("qa"), qb = TURNS[sv_choice("turn", 6)], qc(0.6, 0, 0, 0.8), qd = TURNS[1]; const double s = 2;
    const Vector3d ta = sv::vector<3>("ta"), tb = sv::vector<3>("tb"), tc = sv::vector<3>("tc"), td = sv::vector<3>("td"); Value v; auto& f = v["base"]["frames"]; put(f["a"], ta); put(f["a"], qa, s);
    auto& b = f["a"]["frames"]["b"]; put(b, tb); put(b, qb, 0.5); put(b["frames"]["c"], tc); put(b["frames"]["c"], qc); put(f["d"], td); put(f["d"], qd, 3);
    const eigen_ros::BodyFrames* F = frames(v); const Isometry3d a = pose(qa, ta), ab = a * pose(qb, tb), abc = ab * pose(qc, tc), d = pose(qd, td); const char* n[] = {"base", "a", "b", "c", "d"}; const Isometry3d T[] = {Isometry3d::Identity(), a, ab, abc, d};
    for (int i = 0; i < 5; ++i) { eq(F->body_to_frame(n[i]), T[i], "a nested frame is posed relative to its parent"); eq(F->frame_to_body(n[i]), inv(T[i]), "frame to body is the inverse of body to frame"); }
    const int i = sv_choice("from", 5), j = sv_choice("to", 5); eq(F->frame_to_frame(n[i], n[j]), inv(T[i]) * T[j], "the transform between two frames goes through the body");
    sv_check(F->frames().size() == 5 && tf2_ros::questions().empty(), "static frames need no lookup"); sv_cover("frames_chain:end");
}
void frames_scaled() {  // rotations are normalised
    const Eigen::Vector4d c = sv::vector<4>("q", -2, 2); const double n2 = c.dot(c); sv_assume(n2 >= 0.01); const Quaterniond q(c[0], c[1], c[2], c[3]); Value v; put(v["base"]["frames"]["a"], q); const Isometry3d T = frames(v)->body_to_frame("a");
    Matrix3d N; const double w = c[0], x = c[1], y = c[2], z = c[3]; N << w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z;
    for (int i = 0; i < 3; ++i) { sv_eq(T.translation()[i], 0, "no translation"); for (int j = 0; j < 3; ++j) sv_eq(T.linear()(i, j) * n2, N(i, j), "rotations of any length are normalised"); }
    sv_cover("frames_scaled:end");
}
void frames_defaults() {  // components that are not given
    const int mask = sv_choice("translation", 9), rot = sv_choice("rotation", 17); Value v; auto& f = v["base"]["frames"]["a"]; const char* tn[] = {"x", "y", "z"}; const char* qn[] = {"w", "x", "y", "z"}; Vector3d t = Vector3d::Zero(); double q[4] = {1, 0, 0, 0};
    f["frame_id"] = "a_id"; if (mask < 8) { for (int k = 0; k < 3; ++k) if (mask >> k & 1) f["translation"][tn[k]] = t[k] = sv_real(tn[k], -10, 10); }
    if (rot < 16 && rot) { const double given[] = {0.8, 0.36, 0.48, -0.6}; for (int k = 0; k < 4; ++k) if (rot >> k & 1) f["rotation"][qn[k]] = q[k] = given[k]; }
    const double n2 = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]; const double n = std::sqrt(n2); eq(frames(v)->body_to_frame("a"), pose(Quaterniond(q[0] / n, q[1] / n, q[2] / n, q[3] / n), t), "missing translations are zero and missing rotations the identity"); sv_cover("frames_defaults:end");
}
void frames_names() {
    const int bid = sv_choice("body id", 2), aid = sv_choice("a id", 2), nal = sv_choice("aliases", 3); Value v; auto& f = v["base"]["frames"]; if (bid) v["base"]["frame_id"] = "base_link"; if (aid) f["a"]["frame_id"] = "a_link"; f["b"]["translation"]["x"] = 1.0; f["a"]["frames"]["c"]["frame_id"] = "c_link"; f["a"]["translation"]["y"] = 2.0;
    const char* al[] = {"a1", "a2"}; for (int i = 0; i < nal; ++i) f["a"]["aliases"][i] = al[i]; const eigen_ros::BodyFrames* F = frames(v); const std::string bi = bid ? "base_link" : "base", ai = aid ? "a_link" : "a";
    sv_check(F->body_frame() == "base" && F->body_frame_id() == bi && F->frame_id("base") == bi && F->frame_id("a") == ai && F->frame_id("b") == "b" && F->frame_id("c") == "c_link", "frame ids default to the frame's name");
    sv_check(F->frame(bi) == "base" && F->frame(ai) == "a" && F->frame("b") == "b" && F->frame("c_link") == "c", "frames are found by their ids"); for (int i = 0; i < nal; ++i) sv_check(F->frame(al[i]) == "a", "frames are found by their aliases");
    const auto l = F->aliases(ai); sv_check((int)l.size() == nal && F->aliases(bi).empty() && F->aliases("b").empty() && F->aliases("c_link").empty(), "aliases belong to their frame"); for (int i = 0; i < nal && i < (int)l.size(); ++i) sv_check(l[i] == al[i], "aliases belong to their frame");
    const auto all = F->frames(); sv_check(all.size() == 4 && has(all, "base") && has(all, "a") && has(all, "b") && has(all, "c"), "all frames are listed once"); for (const auto& n : all) sv_check(F->has_frame(n) && !F->is_dynamic(n) && !F->lookedup_tf(n), "listed frames exist");
    sv_check(!F->has_frame("d") && !F->has_frame("c_link") && !F->has_frame("a1") && refuses([&] { F->frame_id("d"); }) && refuses([&] { F->frame("d"); }) && refuses([&] { F->body_to_frame("d"); }) && refuses([&] { F->frame_to_body("d"); }) && refuses([&] { F->frame_to_frame("a", "d"); }) && refuses([&] { F->aliases("d"); }), "unknown frames are refused");
    eq(F->body_to_frame("c"), pose(Quaterniond(1, 0, 0, 0), Vector3d(0, 2, 0)), "a frame without a pose coincides with its parent"); sv_cover("frames_names:end");
}
void frames_lookup() {  // transforms found by a single lookup
    const Quaterniond q = sv::quaternion("q"), qb(0.6, 0, 0.8, 0), qc(0.8, 0, 0, 0.6); const Vector3d t = sv::vector<3>("t"), tb(1, 2, 3), tc = sv::vector<3>("c"); const int nested = sv_choice("nested", 2), timeout = sv_choice("timeout", 2); Value v; v["base"]["frame_id"] = "base_link"; auto& f = v["base"]["frames"]; auto& a = f["b"]; put(a, tb); put(a, qb); a["frame_id"] = "b_link";
    auto& l = nested ? a["frames"]["l"] : f["l"]; l["lookup_tf"] = true; l["frame_id"] = "l_link"; l["translation"]["x"] = 5.0; put(l["frames"]["c"], tc); put(l["frames"]["c"], qc); if (timeout) ros::world::set<double>("lookup_tf_timeout", 2.5); answers(pose(q, t), q); const eigen_ros::BodyFrames* F = frames(v);
    sv_check(tf2_ros::questions().size() == 1 && asked(0, nested ? "b_link" : "base_link", "l_link", ros::Time(0), timeout ? 2.5 : 1.0), "the transform is looked up once, from the parent to the frame"); const Isometry3d T = (nested ? pose(qb, tb) : Isometry3d::Identity()) * pose(q, t);
    eq(F->body_to_frame("l"), T, "a looked-up transform is relative to the parent"); eq(F->body_to_frame("c"), T * pose(qc, tc), "frames inside a looked-up frame follow it"); eq(F->frame_to_body("l"), inv(T), "frame to body is the inverse of body to frame"); sv_check(F->lookedup_tf("l") && !F->lookedup_tf("b") && !F->lookedup_tf("c") && !F->lookedup_tf("base") && !F->is_dynamic("l"), "only that frame was looked up"); sv_check(tf2_ros::questions().size() == 1, "nothing is looked up again"); sv_cover("frames_lookup:end");
}
void frames_dynamic() {
    const Quaterniond q = sv::quaternion("q"), qb(0.6, 0, 0.8, 0); const Vector3d t = sv::vector<3>("t"), tb = sv::vector<3>("b"); Value v; v["base"]["frame_id"] = "base_link"; auto& f = v["base"]["frames"]; put(f["b"], tb); put(f["b"], qb); auto& d = sv_choice("nested", 2) ? f["b"]["frames"]["d"] : f["d"]; d["dynamic"] = true; d["frame_id"] = "d_link"; f["e"]["dynamic"] = false; f["b"]["frame_id"] = "b_link";
    const eigen_ros::BodyFrames* F = frames(v); sv_check(F->is_dynamic("d") && !F->is_dynamic("b") && !F->is_dynamic("e") && !F->is_dynamic("base") && !F->lookedup_tf("d") && F->aliases("d_link").empty() && F->frame_id("d") == "d_link" && F->frame("d_link") == "d", "dynamic frames are marked"); sv_check(tf2_ros::questions().empty(), "dynamic frames are not looked up in advance");
    answers(pose(q, t), q); const ros::Time at(sv_u32("s", 1, 2000000000), sv_u32("n", 0, 999999999)); const Isometry3d T = pose(q, t), b = pose(qb, tb); const int what = sv_choice("what", 7);
    const Isometry3d R = what == 0 ? F->body_to_frame("d", at) : what == 1 ? F->frame_to_body("d", at) : what == 2 ? F->frame_to_frame("b", "d", at) : what == 3 ? F->frame_to_frame("d", "b", at) : what == 4 ? F->body_to_frame("b", at) : what == 5 ? F->frame_to_body("b", at) : F->frame_to_frame("e", "b", at);
    if (what < 4) { const char* target[] = {"base_link", "d_link", "b_link", "d_link"}; const char* source[] = {"d_link", "base_link", "d_link", "b_link"}; sv_check(tf2_ros::questions().size() == 1 && asked(0, target[what], source[what], at, 1.0), "dynamic transforms are looked up at the given time, from the first frame to the second"); eq(R, T, "the looked-up transform is returned"); }
    else { sv_check(tf2_ros::questions().empty(), "static transforms are not looked up"); eq(R, what == 5 ? inv(b) : b, "static transforms do not change"); }
    sv_cover("frames_dynamic:end");
}
void frames_refused() {
    const int k = sv_choice("case", 18); Value v; auto& f = v["base"]["frames"]; f["a"]["frame_id"] = "a_link"; bool ok = false; const char* bad[] = {"aliases", "lookup_tf", "translation", "rotation", "frames"};
    if (k == 0) ok = true; else if (k == 1) v = Value(); else if (k == 2) v = Value("base"); else if (k == 3) v["other"]["frame_id"] = "x"; else if (k == 4) v["base"] = Value("x");
    else if (k == 5) f["b"]["frame_id"] = "a_link"; else if (k == 6) f["a"]["frame_id"] = "base"; else if (k == 7) f["a"]["frames"]["base"]["frame_id"] = "x"; else if (k == 8) f["b"]["frames"]["a"]["frame_id"] = "x"; else if (k == 9) f["a"]["aliases"] = Value("a1"); else if (k == 10) f["a"]["aliases"][0] = 3;
    else if (k == 11) { f["a"]["aliases"][0] = "a1"; f["b"]["aliases"][0] = "a1"; } else if (k == 12) f["a"]["aliases"][0] = "a_link";
    else { const std::string b = bad[k - 13]; f["a"]["dynamic"] = true; if (b == "lookup_tf") f["a"][b] = true; else if (b == "aliases") f["a"][b][0] = "a1"; else if (b == "frames") f["a"][b]["b"]["frame_id"] = "b"; else f["a"][b]["x"] = 1.0; }
    bool threw = false; try { if (k == 1 && sv_choice("set", 2)) new eigen_ros::BodyFrames(); else frames(v); } catch (const std::exception&) { threw = true; }
    sv_check(threw == !ok, "contradictory frames are refused"); sv_cover(threw ? "frames_refused:refused" : "frames_refused:accepted");
}
void frames_tf() {  // static transforms published for others
    const Quaterniond qa = TURNS[1 + sv_choice("turn", 4)], qb(0.6, 0, 0.8, 0); const Vector3d ta = sv::vector<3>("ta"), tb = sv::vector<3>("tb"); const int nal = sv_choice("aliases", 3), looked = sv_choice("looked up", 2), dyn = sv_choice("dynamic", 2); Value v; v["base"]["frame_id"] = "base_link"; auto& f = v["base"]["frames"]; put(f["a"], ta); put(f["a"], qa); f["a"]["frame_id"] = "a_link"; put(f["a"]["frames"]["b"], tb); put(f["a"]["frames"]["b"], qb);
    const char* al[] = {"a1", "a2"}; for (int i = 0; i < nal; ++i) f["a"]["aliases"][i] = al[i]; if (looked) f["l"]["lookup_tf"] = true; if (dyn) f["m"]["dynamic"] = true; answers(pose(TURNS[2], Vector3d(1, 1, 1)), TURNS[2]); ros::world::set("body_frames", v); new eigen_ros::BodyFramesTf("~");
    typedef geometry_msgs::TransformStamped TS; const std::size_t n = ros::world::count<TS>(); sv_check((int)n == 2 + nal, "one static transform per static frame and alias"); const Isometry3d a = pose(qa, ta), ab = a * pose(qb, tb);
    int na = 0, nb = 0, seen[2] = {0, 0};
    for (std::size_t i = 0; i < n; ++i) {
        const TS& m = ros::world::published<TS>(i); const Isometry3d T = read(m.transform);
        if (m.child_frame_id == "a_link") { ++na; sv_check(m.header.frame_id == "base_link", "frames are published relative to the body"); eq(T, a, "static transforms are those from the body to the frame"); }
        else if (m.child_frame_id == "b") { ++nb; sv_check(m.header.frame_id == "base_link", "frames are published relative to the body"); eq(T, ab, "static transforms are those from the body to the frame"); }
        else { bool alias = false; for (int k = 0; k < nal; ++k) if (m.child_frame_id == al[k]) { alias = true; ++seen[k]; } sv_check(alias && m.header.frame_id == "a_link", "looked-up and dynamic frames are not published"); eq(T, Isometry3d::Identity(), "aliases coincide with their frame"); }
    }
    sv_check(na == 1 && nb == 1, "every static frame is published once"); for (int k = 0; k < nal; ++k) sv_check(seen[k] == 1, "every alias is published once");
    eigen_ros::lookup_transform::Request q; eigen_ros::lookup_transform::Response r; q.source_frame = "a"; q.target_frame = "b"; sv_check(ros::world::call("lookup_transform", q, r) == 1, "the transform service answers"); eq(read(r.transform), pose(qb, tb), "the service gives the transform from source to target"); sv_cover("frames_tf:end");
}
}
