// Conversions between messages and Eigen types, poses with covariance, inertial measurements (eigen_ros).
#include "sv.h"
#include "sv_eigen.h"
#include <eigen_ros/eigen_ros.hpp>
#include <eigen_ros/imu.hpp>
#include <eigen_ros/odometry.hpp>
#include <stdexcept>
using Eigen::Isometry3d; using Eigen::Matrix3d; using Eigen::Matrix4d; using Eigen::Quaterniond; using Eigen::Vector3d;
typedef Eigen::Matrix<double, 6, 6> M6;
namespace er = eigen_ros;
static ros::Time time_of(const char* n) { return ros::Time(sv_u32((std::string(n) + "s").c_str(), 0, 2000000000), sv_u32((std::string(n) + "n").c_str(), 0, 999999999)); }
static void eqt(const ros::Time& a, const ros::Time& b) { sv_check(a.sec == b.sec && a.nsec == b.nsec, "time stamp"); }
template <typename P> static P point(const char* n) { P p; const Vector3d v = sv::vector<3>(n); p.x = v(0); p.y = v(1); p.z = v(2); return p; }
static geometry_msgs::Quaternion quat(const char* n, bool unit) { geometry_msgs::Quaternion q; if (unit) { const Quaterniond u = sv::quaternion(n); q.w = u.w(); q.x = u.x(); q.y = u.y(); q.z = u.z(); } else { const Eigen::Vector4d v = sv::vector<4>(n, -1, 1); q.w = v(0); q.x = v(1); q.y = v(2); q.z = v(3); } return q; }
template <typename A> static void xyz(const A& a, const Vector3d& v, const char* m) { sv_eq(a.x, v(0), m); sv_eq(a.y, v(1), m); sv_eq(a.z, v(2), m); }
template <typename A> static void wxyz(const A& a, const Quaterniond& q, const char* m) { sv_eq(a.w, q.w(), m); sv_eq(a.x, q.x(), m); sv_eq(a.y, q.y(), m); sv_eq(a.z, q.z(), m); }
static Quaterniond any_quat(const char* n) { const Eigen::Vector4d v = sv::vector<4>(n, -1, 1); return Quaterniond(v(0), v(1), v(2), v(3)); }
// messages list position / linear entries first, the library rotation / angular entries first
template <typename Arr> static void cov6(const Arr& msg, const M6& c, const char* m) { for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) sv_eq(msg[6 * ((i + 3) % 6) + (j + 3) % 6], c(i, j), m); }
template <typename Arr> static void cov3(const Arr& msg, const Matrix3d& c, const char* m) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sv_eq(msg[3 * i + j], c(i, j), m); }
template <typename Arr> static void fill(Arr& a, const char* n) { for (std::size_t i = 0; i < a.size(); ++i) a[i] = sv_real(sv::idx(n, (int)i).c_str(), -10, 10); }
static er::Pose pose(const char* n) { const std::string s = n; return er::Pose(sv::vector<3>((s + "p").c_str()), any_quat((s + "q").c_str()), sv::matrix<6, 6>((s + "c").c_str())); }
static er::Twist twist(const char* n) { const std::string s = n; return er::Twist(sv::vector<3>((s + "l").c_str()), sv::vector<3>((s + "a").c_str()), sv::matrix<6, 6>((s + "c").c_str())); }
extern "C" {
void msg_vectors() {
    const Vector3d v = sv::vector<3>("v"); const Quaterniond q = any_quat("q"); Vector3d o; Quaterniond p;
    xyz(er::to_ros<geometry_msgs::Point>(v), v, "point to message"); xyz(er::to_ros<geometry_msgs::Vector3>(v), v, "vector to message"); wxyz(er::to_ros<geometry_msgs::Quaternion>(q), q, "quaternion to message");
    const geometry_msgs::Point a = point<geometry_msgs::Point>("a"); xyz(a, er::from_ros<Vector3d>(a), "point from message");
    const geometry_msgs::Vector3 b = point<geometry_msgs::Vector3>("b"); xyz(b, er::from_ros<Vector3d>(b), "vector from message");
    const geometry_msgs::Quaternion r = quat("r", false); wxyz(r, er::from_ros<Quaterniond>(r), "quaternion from message");
    sv_cover("msg_vectors:end");
}
void msg_pose() {
    const er::Pose p = pose("p"); const ros::Time t = time_of("t"); const er::PoseStamped ps(p, t);
    { geometry_msgs::Pose m; er::to_ros(m, p); xyz(m.position, p.position, "position"); wxyz(m.orientation, p.orientation, "orientation"); }
    { geometry_msgs::Transform m; er::to_ros(m, p); xyz(m.translation, p.position, "position"); wxyz(m.rotation, p.orientation, "orientation"); }
    { geometry_msgs::PoseStamped m; m.header.frame_id = "f"; er::to_ros(m, ps); xyz(m.pose.position, p.position, "position"); wxyz(m.pose.orientation, p.orientation, "orientation"); eqt(m.header.stamp, t); sv_check(m.header.frame_id == "f", "the frame is left alone"); }
    { geometry_msgs::TransformStamped m; er::to_ros(m, ps); xyz(m.transform.translation, p.position, "position"); wxyz(m.transform.rotation, p.orientation, "orientation"); eqt(m.header.stamp, t); }
    { geometry_msgs::PoseWithCovariance m; er::to_ros(m, p); xyz(m.pose.position, p.position, "position"); wxyz(m.pose.orientation, p.orientation, "orientation"); cov6(m.covariance, p.covariance, "pose covariance to message order"); }
    { geometry_msgs::PoseWithCovarianceStamped m; er::to_ros(m, ps); xyz(m.pose.pose.position, p.position, "position"); wxyz(m.pose.pose.orientation, p.orientation, "orientation"); cov6(m.pose.covariance, p.covariance, "pose covariance to message order"); eqt(m.header.stamp, t);
      er::PoseStamped b; er::from_ros(m, b); sv::eq(b.data.covariance, p.covariance, "covariance survives the round trip"); sv::eq(b.data.position, p.position, "position survives the round trip"); sv::eq(b.data.orientation.coeffs(), p.orientation.coeffs(), "orientation survives the round trip"); eqt(b.timestamp, t); }
    sv_cover("msg_pose:end");
}
void msg_pose_back() {
    const M6 keep = M6::Constant(7.0); const ros::Time t = time_of("t");
    { geometry_msgs::PoseWithCovarianceStamped m; m.header.stamp = t; m.pose.pose.position = point<geometry_msgs::Point>("p"); m.pose.pose.orientation = quat("q", false); fill(m.pose.covariance, "c"); const er::PoseStamped p = er::from_ros<er::PoseStamped>(m);
      xyz(m.pose.pose.position, p.data.position, "position"); wxyz(m.pose.pose.orientation, p.data.orientation, "orientation"); cov6(m.pose.covariance, p.data.covariance, "pose covariance from message order"); eqt(p.timestamp, t);
      const er::Pose n = er::from_ros<er::Pose>(m.pose); xyz(m.pose.pose.position, n.position, "position"); wxyz(m.pose.pose.orientation, n.orientation, "orientation"); cov6(m.pose.covariance, n.covariance, "pose covariance from message order"); }
    { geometry_msgs::PoseStamped m; m.header.stamp = t; m.pose.position = point<geometry_msgs::Point>("r"); m.pose.orientation = quat("s", false); er::PoseStamped p; p.data.covariance = keep; er::from_ros(m, p);
      xyz(m.pose.position, p.data.position, "position"); wxyz(m.pose.orientation, p.data.orientation, "orientation"); eqt(p.timestamp, t); sv::eq(p.data.covariance, keep, "covariance is left alone");
      er::Pose n; er::from_ros(m.pose, n); xyz(m.pose.position, n.position, "position"); wxyz(m.pose.orientation, n.orientation, "orientation"); }
    { geometry_msgs::TransformStamped m; m.header.stamp = t; m.transform.translation = point<geometry_msgs::Vector3>("u"); m.transform.rotation = quat("v", false); er::PoseStamped p; er::from_ros(m, p);
      xyz(m.transform.translation, p.data.position, "position"); wxyz(m.transform.rotation, p.data.orientation, "orientation"); eqt(p.timestamp, t); er::Pose n; er::from_ros(m.transform, n); xyz(m.transform.translation, n.position, "position"); wxyz(m.transform.rotation, n.orientation, "orientation"); }
    sv_cover("msg_pose_back:end");
}
void msg_matrix() {
    geometry_msgs::Pose m; m.position = point<geometry_msgs::Point>("p"); m.orientation = quat("q", true); geometry_msgs::Transform f; f.translation = point<geometry_msgs::Vector3>("t"); f.rotation = quat("r", true);
    const Matrix3d R = sv::rotation_of(er::from_ros<Quaterniond>(m.orientation)), S = sv::rotation_of(er::from_ros<Quaterniond>(f.rotation));
    Matrix4d a = Matrix4d::Constant(9), b = Matrix4d::Constant(9); er::from_ros(m, a); er::from_ros(f, b); Matrix4d ea = Matrix4d::Identity(), eb = Matrix4d::Identity(); ea.topLeftCorner<3, 3>() = R; ea(0, 3) = m.position.x; ea(1, 3) = m.position.y; ea(2, 3) = m.position.z; eb.topLeftCorner<3, 3>() = S; eb(0, 3) = f.translation.x; eb(1, 3) = f.translation.y; eb(2, 3) = f.translation.z;
    sv::eq(a, ea, "homogeneous matrix of a pose message"); sv::eq(b, eb, "homogeneous matrix of a transform message");
    Matrix3d c; er::from_ros(m.orientation, c); sv::eq(c, R, "rotation matrix of a quaternion message");
    Isometry3d g; er::from_ros(f, g); sv::eq(g.matrix(), eb, "isometry of a transform message");
    sv_cover("msg_matrix:end");
}
void msg_matrix_to() {
    const Matrix3d R = sv::rotation("q"); const Vector3d t = sv::vector<3>("t"); Matrix4d T = Matrix4d::Identity(); T.topLeftCorner<3, 3>() = R; T.topRightCorner<3, 1>() = t; Isometry3d I; I.matrix() = T; Quaterniond q;
    const int which = sv_choice("which", 4); if (which == 0) { geometry_msgs::Pose m; er::to_ros(m, T); xyz(m.position, t, "position of a matrix"); er::from_ros(m.orientation, q); }
    if (which == 1) { geometry_msgs::Transform m; er::to_ros(m, T); xyz(m.translation, t, "translation of a matrix"); er::from_ros(m.rotation, q); }
    if (which == 2) { geometry_msgs::Transform m; er::to_ros(m, I); xyz(m.translation, t, "translation of an isometry"); er::from_ros(m.rotation, q); }
    if (which == 3) { geometry_msgs::Quaternion m; er::to_ros(m, R); er::from_ros(m, q); }
    sv_eq(q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), 1.0, "the message holds a unit quaternion"); sv::eq(sv::rotation_of(q), R, "the message holds the rotation");
    sv_cover("msg_matrix_to:end");
}
void msg_twist() {
    const er::Twist w = twist("w"); geometry_msgs::TwistWithCovariance m; er::to_ros(m, w); xyz(m.twist.linear, w.linear, "linear velocity"); xyz(m.twist.angular, w.angular, "angular velocity"); cov6(m.covariance, w.covariance, "twist covariance to message order");
    geometry_msgs::TwistWithCovariance n; n.twist.linear = point<geometry_msgs::Vector3>("l"); n.twist.angular = point<geometry_msgs::Vector3>("a"); fill(n.covariance, "c"); const er::Twist b = er::from_ros<er::Twist>(n);
    xyz(n.twist.linear, b.linear, "linear velocity"); xyz(n.twist.angular, b.angular, "angular velocity"); cov6(n.covariance, b.covariance, "twist covariance from message order");
    const er::Twist o = er::from_ros<er::Twist>(n.twist); xyz(n.twist.linear, o.linear, "linear velocity"); xyz(n.twist.angular, o.angular, "angular velocity"); geometry_msgs::Twist p; er::to_ros(p, w); xyz(p.linear, w.linear, "linear velocity"); xyz(p.angular, w.angular, "angular velocity");
    sv::eq(w.angular_velocity_covariance(), w.covariance.topLeftCorner<3, 3>(), "angular block"); sv::eq(w.linear_velocity_covariance(), w.covariance.bottomRightCorner<3, 3>(), "linear block");
    const Matrix3d L = sv::matrix<3, 3>("L"), A = sv::matrix<3, 3>("A"); const er::Twist s(w.linear, w.angular, L, A); M6 e = M6::Zero(); e.topLeftCorner<3, 3>() = A; e.bottomRightCorner<3, 3>() = L; sv::eq(s.covariance, e, "twist covariance of two blocks");
    sv_cover("msg_twist:end");
}
void msg_odometry() {
    const er::Odometry o(pose("p"), twist("w"), time_of("t"), "map", "body"); nav_msgs::Odometry m; er::to_ros(m, o);
    eqt(m.header.stamp, o.timestamp); sv_check(m.header.frame_id == "map" && m.child_frame_id == "body", "frames of an odometry message"); xyz(m.pose.pose.position, o.pose.position, "position"); wxyz(m.pose.pose.orientation, o.pose.orientation, "orientation"); cov6(m.pose.covariance, o.pose.covariance, "pose covariance");
    xyz(m.twist.twist.linear, o.twist.linear, "linear velocity"); xyz(m.twist.twist.angular, o.twist.angular, "angular velocity"); cov6(m.twist.covariance, o.twist.covariance, "twist covariance");
    const er::Odometry b = er::from_ros<er::Odometry>(m); eqt(b.timestamp, o.timestamp); sv_check(b.frame == "map" && b.child_frame == "body", "frames"); sv::eq(b.pose.position, o.pose.position, "position"); sv::eq(b.pose.orientation.coeffs(), o.pose.orientation.coeffs(), "orientation"); sv::eq(b.pose.covariance, o.pose.covariance, "pose covariance"); sv::eq(b.twist.linear, o.twist.linear, "linear"); sv::eq(b.twist.angular, o.twist.angular, "angular"); sv::eq(b.twist.covariance, o.twist.covariance, "twist covariance");
    const er::PoseStamped p = o.pose_stamped(); const er::TwistStamped w = o.twist_stamped(); eqt(p.timestamp, o.timestamp); eqt(w.timestamp, o.timestamp); sv::eq(p.data.position, o.pose.position, "stamped pose"); sv::eq(w.data.linear, o.twist.linear, "stamped twist");
    sv_cover("msg_odometry:end");
}
void msg_imu() {
    const er::Imu i(any_quat("q"), sv::vector<3>("w"), sv::vector<3>("a"), sv::matrix<3, 3>("Q"), sv::matrix<3, 3>("W"), sv::matrix<3, 3>("A"), time_of("t"), "imu"); sensor_msgs::Imu m; er::to_ros(m, i);
    eqt(m.header.stamp, i.timestamp); sv_check(m.header.frame_id == "imu", "frame"); wxyz(m.orientation, i.orientation, "orientation"); xyz(m.angular_velocity, i.angular_velocity, "angular velocity"); xyz(m.linear_acceleration, i.linear_acceleration, "acceleration");
    cov3(m.orientation_covariance, i.orientation_covariance, "orientation covariance"); cov3(m.angular_velocity_covariance, i.angular_velocity_covariance, "angular velocity covariance"); cov3(m.linear_acceleration_covariance, i.linear_acceleration_covariance, "acceleration covariance");
    const er::Imu b = er::from_ros<er::Imu>(m); eqt(b.timestamp, i.timestamp); sv_check(b.frame == "imu", "frame"); sv::eq(b.orientation.coeffs(), i.orientation.coeffs(), "orientation"); sv::eq(b.angular_velocity, i.angular_velocity, "angular velocity"); sv::eq(b.linear_acceleration, i.linear_acceleration, "acceleration");
    sv::eq(b.orientation_covariance, i.orientation_covariance, "orientation covariance"); sv::eq(b.angular_velocity_covariance, i.angular_velocity_covariance, "angular velocity covariance"); sv::eq(b.linear_acceleration_covariance, i.linear_acceleration_covariance, "acceleration covariance");
    sv_cover("msg_imu:end");
}
void msg_covariance() {
    const int n = sv_choice("n", 4), stamped = sv_choice("stamped", 2); const ros::Time t = time_of("t"); Eigen::MatrixXd C(n, n), D(5, 5); Eigen::MatrixXf F(n, n), G(1, 4); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { C(i, j) = sv_real(sv::idx("c", i, j).c_str(), -10, 10); F(i, j) = sv_realf(sv::idx("f", i, j).c_str(), -10, 10); }
    statistics_msgs::CovarianceStamped m; statistics_msgs::CovarianceFloat32Stamped f; m.covariance.matrix.assign(7, 3.0); ros::Time u, v; std::string a, b;
    if (stamped) { er::to_ros(m, C, t, "map"); er::to_ros(f, F, t, "map"); eqt(m.header.stamp, t); eqt(f.header.stamp, t); sv_check(m.header.frame_id == "map" && f.header.frame_id == "map", "frame"); } else { er::to_ros(m.covariance, C); er::to_ros(f.covariance, F); }
    sv_check((int)m.covariance.dimensions == n && (int)m.covariance.matrix.size() == n * n && (int)f.covariance.dimensions == n && (int)f.covariance.matrix.size() == n * n, "dimensions");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { sv_eq(m.covariance.matrix[n * i + j], C(i, j), "row-major covariance message"); sv_eq(f.covariance.matrix[n * i + j], F(i, j), "row-major covariance message"); }
    if (stamped) { er::from_ros(m, D, u, a); er::from_ros(f, G, v, b); eqt(u, t); eqt(v, t); sv_check(a == "map" && b == "map", "frame"); } else { er::from_ros(m.covariance, D); er::from_ros(f.covariance, G); }
    sv::eq(D, C, "covariance survives the round trip"); sv::eq(G, F, "covariance survives the round trip"); sv_cover("msg_covariance:end");
}
void msg_covariance_reject() {
    const int r = sv_choice("r", 4), c = sv_choice("c", 4); bool threw = false, threwf = false; Eigen::MatrixXd C = Eigen::MatrixXd::Ones(r, c); Eigen::MatrixXf F = Eigen::MatrixXf::Ones(r, c); statistics_msgs::Covariance m; statistics_msgs::CovarianceFloat32 f;
    try { er::to_ros(m, C); } catch (const std::runtime_error&) { threw = true; } try { er::to_ros(f, F); } catch (const std::runtime_error&) { threwf = true; }
    sv_check(threw == (r != c) && threwf == (r != c), "exactly matrices that are not square are rejected");
    m.dimensions = f.dimensions = r; m.matrix.assign(c, 1.0); f.matrix.assign(c, 1.f); threw = threwf = false;
    try { er::from_ros(m, C); } catch (const std::runtime_error&) { threw = true; } try { er::from_ros(f, F); } catch (const std::runtime_error&) { threwf = true; }
    sv_check(threw == (c != r * r) && threwf == (c != r * r), "exactly messages whose size contradicts their dimensions are rejected"); sv_cover("msg_covariance_reject:end");
}
void msg_multiarray() {
    const Eigen::Matrix<double, 2, 3> A = sv::matrix<2, 3>("a"); std_msgs::Float64MultiArray m; er::to_ros(m, A); if (sv_choice("again", 2)) er::to_ros(m, A);
    sv_check(m.data.size() == 6 && m.layout.data_offset == 0 && m.layout.dim.size() == 2, "layout of an array message"); if (m.layout.dim.size() != 2) return; sv_check(m.layout.dim[0].size == 2 && m.layout.dim[0].stride == 6 && m.layout.dim[1].size == 3 && m.layout.dim[1].stride == 3, "layout of an array message");
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) sv_eq(m.data[3 * i + j], A(i, j), "row-major array message");
    Eigen::Matrix<double, 2, 3> B; er::from_ros(m, B); sv::eq(B, A, "matrix survives the round trip");
    std_msgs::Float64MultiArray p; const int off = sv_choice("offset", 3), pad = sv_choice("pad", 3), r = sv_choice("rows", 4), c = sv_choice("cols", 5), d = 1 + sv_choice("dims", 3); p.layout.dim.resize(d); p.layout.dim[0].size = r; if (d > 1) { p.layout.dim[1].size = c; p.layout.dim[1].stride = c + pad; } p.layout.data_offset = off; for (int i = 0; i < off + r * (c + pad); ++i) p.data.push_back(sv_real(sv::idx("d", i).c_str(), -10, 10));
    bool threw = false; try { er::from_ros(p, B); } catch (const std::runtime_error&) { threw = true; } sv_check(threw == !(d == 2 && r == 2 && c == 3), "exactly array messages of other dimensions are rejected");
    if (!threw) for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) sv_eq(B(i, j), p.data[off + i * (3 + pad) + j], "offset and stride of an array message are used");
    if (threw) sv_cover("msg_multiarray:reject"); else sv_cover("msg_multiarray:end");
}
void msg_arrays() {
    boost::array<double, 6> a; fill(a, "a"); Eigen::Matrix<double, 2, 3> M; er::from_ros(a, M); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) sv_eq(M(i, j), a[3 * i + j], "row-major array"); const Eigen::Matrix<double, 2, 3> N = sv::matrix<2, 3>("n"); boost::array<double, 6> b; er::to_ros(b, N); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) sv_eq(N(i, j), b[3 * i + j], "row-major array");
    const ros::Time t = time_of("t"); std_msgs::Header h; er::to_ros(h, t, "lidar"); eqt(h.stamp, t); sv_check(h.frame_id == "lidar", "header frame"); ros::Time u; std::string f; er::from_ros(h, u, f); eqt(u, t); sv_check(f == "lidar", "header frame");
    sv_cover("msg_arrays:end");
}
// ---- poses with covariance ----
static Quaterniond fixed_quat(int k) { return k == 0 ? Quaterniond(1, 0, 0, 0) : k == 1 ? Quaterniond(0, 1, 0, 0) : k == 2 ? Quaterniond(0, 0, 0, 1) : Quaterniond(0, 0, -1, 0); }
void pose_transform() {
    const bool flip = sv_choice("flip", 2); const Quaterniond s = sv::quaternion("q"), k = fixed_quat(sv_choice("k", 4)), q = flip ? k : s, r = flip ? s : k; const Vector3d p = sv::vector<3>("p", -4, 4), t = sv::vector<3>("t", -4, 4); const Matrix3d Q = sv::rotation_of(q), R = sv::rotation_of(r); Isometry3d T = Isometry3d::Identity(); T.linear() = R; T.translation() = t;
    const er::Pose a(p, q, M6::Identity()); const int how = sv_choice("how", 3); const ros::Time when(5, 6); const er::Pose b = how == 0 ? er::apply_transform(a, T) : how == 1 ? er::apply_transform(a, er::Pose(t, r, M6::Constant(3))) : er::apply_transform(er::PoseStamped(a, when), T).data;
    sv::eq(b.position, (Q * t + p).eval(), "position of a transformed pose"); sv::eq(sv::rotation_of(b.orientation), (Q * R).eval(), "orientation of a transformed pose");
    if (how == 2) eqt(er::apply_transform(er::PoseStamped(a, when), T).timestamp, when);
    sv_cover("pose_transform:end");
}
void pose_transform_covariance() {
    const Matrix3d R = sv::rotation("r"); const Vector3d t = sv::vector<3>("t", -4, 4); const M6 C = sv::symmetric<6>("C", -2, 2); Isometry3d T = Isometry3d::Identity(); T.linear() = R; T.translation() = t;
    const er::Pose b = er::apply_transform(er::Pose(Vector3d(1, 2, 3), Quaterniond(1, 0, 0, 0), C), T);
    // the adjoint of the inverse of the applied transform
    const Matrix3d Ri = R.transpose(); const Vector3d ti = -(Ri * t); Matrix3d S; S << 0, -ti(2), ti(1), ti(2), 0, -ti(0), -ti(1), ti(0), 0; M6 A = M6::Zero(); A.topLeftCorner<3, 3>() = Ri; A.bottomRightCorner<3, 3>() = Ri; A.bottomLeftCorner<3, 3>() = S * Ri;
    M6 e; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { double s = 0; for (int k = 0; k < 6; ++k) for (int l = 0; l < 6; ++l) s += A(i, k) * C(k, l) * A(j, l); e(i, j) = s; }
    sv::eq(b.covariance, e, "covariance of a transformed pose"); sv_cover("pose_transform_covariance:end");
}
void pose_build() {
    const Quaterniond q = sv::quaternion("q"); const Vector3d p = sv::vector<3>("p"); const M6 C = sv::matrix<6, 6>("C"); const Matrix3d P = sv::matrix<3, 3>("P"), O = sv::matrix<3, 3>("O");
    const er::Pose a(p, q, P, O); M6 e = M6::Zero(); e.topLeftCorner<3, 3>() = O; e.bottomRightCorner<3, 3>() = P; sv::eq(a.covariance, e, "orientation block first, position block last");
    const Isometry3d T = er::to_transform(er::Pose(p, q, C)); sv::eq(T.linear(), sv::rotation_of(q), "rotation of a pose"); sv::eq(T.translation(), p, "translation of a pose"); const er::Pose b(T, C); sv::eq(b.position, p, "pose of an isometry"); sv::eq(sv::rotation_of(b.orientation), sv::rotation_of(q), "pose of an isometry"); sv::eq(b.covariance, C, "covariance of a pose");
    const er::PoseStamped s(b, ros::Time(1, 2)); const er::Odometry o(a, er::Twist(p, p), ros::Time(9, 9), "a", "b"), n = er::apply_transform(o, er::PoseStamped(er::Pose(), ros::Time(3, 4))); eqt(n.timestamp, ros::Time(3, 4)); sv_check(n.frame == "a" && n.child_frame == "b", "frames are kept"); sv::eq(n.pose.position, p, "identity motion keeps the position"); sv::eq(n.twist.linear, p, "the twist is kept");
    sv_cover("pose_build:end");
}
// ---- inertial measurements ----
void imu_frame() {
    const Quaterniond o = sv::quaternion("o"), x = sv::quaternion("x"); const Vector3d w = sv::vector<3>("w"), a = sv::vector<3>("a"); const Matrix3d W = sv::symmetric<3>("W"), A = sv::symmetric<3>("A"), R = sv::rotation_of(x).transpose();
    er::Imu i(o, w, a, Matrix3d::Zero(), W, A, ros::Time(1, 2), "imu"); i.change_frame(x, x.conjugate());
    sv::eq(sv::rotation_of(i.orientation), (sv::rotation_of(o) * sv::rotation_of(x)).eval(), "orientation of the new frame"); sv::eq(i.angular_velocity, (R * w).eval(), "angular velocity in the new frame"); sv::eq(i.linear_acceleration, (R * a).eval(), "acceleration in the new frame");
    sv::eq(i.angular_velocity_covariance, (R * W * R.transpose()).eval(), "angular velocity covariance in the new frame"); sv::eq(i.linear_acceleration_covariance, (R * A * R.transpose()).eval(), "acceleration covariance in the new frame"); eqt(i.timestamp, ros::Time(1, 2)); sv_check(i.frame == "imu", "name and time are kept");
    sv_cover("imu_frame:end");
}
static er::Imu imu(const char* n, const ros::Time& t, const Quaterniond& q) { const std::string s = n; return er::Imu(q, sv::vector<3>((s + "w").c_str()), sv::vector<3>((s + "a").c_str()), sv::matrix<3, 3>((s + "Q").c_str()), sv::matrix<3, 3>((s + "W").c_str()), sv::matrix<3, 3>((s + "A").c_str()), t, s); }
void imu_interpolate_range() {
    // every pair of stamps, every time
    const ros::Time t1 = time_of("a"), t2 = time_of("b"), t = time_of("t"); if (sv_choice("late", 2)) sv_assume(t.sec > t2.sec || (t.sec == t2.sec && t.nsec > t2.nsec)); else sv_assume(t.sec < t1.sec || (t.sec == t1.sec && t.nsec < t1.nsec));
    const er::Imu a(Quaterniond(1, 0, 0, 0), Vector3d::Zero(), Vector3d::Zero(), Matrix3d::Zero(), Matrix3d::Zero(), Matrix3d::Zero(), t1), b(Quaterniond(1, 0, 0, 0), Vector3d::Zero(), Vector3d::Zero(), Matrix3d::Zero(), Matrix3d::Zero(), Matrix3d::Zero(), t2); bool threw = false;
    try { er::interpolate(a, b, t); } catch (const std::runtime_error&) { threw = true; } sv_check(threw, "a time outside the two measurements is rejected"); sv_cover("imu_interpolate_range:end");
}
void imu_interpolate() {
    static const uint32_t S[8][2] = {{1, 0}, {1, 1}, {1, 500000000}, {1, 999999999}, {2, 0}, {2, 250000000}, {3, 0}, {4, 999999999}}; const int i1 = sv_choice("t1", 8), i2 = sv_choice("t2", 8), i = sv_choice("t", 8); const ros::Time t1(S[i1][0], S[i1][1]), t2(S[i2][0], S[i2][1]), t(S[i][0], S[i][1]);
    const int who = sv_choice("unknown", 3); const er::Imu a = imu("i", t1, who != 1 ? Quaterniond(0, 0, 0, 0) : Quaterniond(0, 1, 0, 0)), b = imu("j", t2, who != 0 ? Quaterniond(0, 0, 0, 0) : Quaterniond(1, 0, 0, 0)); bool threw = false; er::Imu r; try { r = er::interpolate(a, b, t); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == (i < i1 || i > i2), "exactly times outside the two measurements are rejected"); if (threw) { sv_cover("imu_interpolate:reject"); return; }
    eqt(r.timestamp, t); if (i1 == i2) { sv::eq(r.angular_velocity, a.angular_velocity, "equal stamps"); sv::eq(r.linear_acceleration, a.linear_acceleration, "equal stamps"); return; } const int64_t N1 = (int64_t)S[i1][0] * 1000000000 + S[i1][1], k = (int64_t)S[i][0] * 1000000000 + S[i][1] - N1, m = (int64_t)S[i2][0] * 1000000000 + S[i2][1] - N1; const double f = (double)k / (double)m;
    for (int d = 0; d < 3; ++d) { sv_eq(r.angular_velocity(d), a.angular_velocity(d) * (1 - f) + b.angular_velocity(d) * f, "interpolated angular velocity"); sv_eq(r.linear_acceleration(d), a.linear_acceleration(d) * (1 - f) + b.linear_acceleration(d) * f, "interpolated acceleration"); }
    sv::eq(r.orientation.coeffs(), Eigen::Vector4d(0, 0, 0, 0), "an unknown orientation stays unknown"); if (2 * k == m) return;
    const er::Imu& c = 2 * k < m ? a : b; sv::eq(r.orientation_covariance, c.orientation_covariance, "covariances of the closer measurement"); sv::eq(r.angular_velocity_covariance, c.angular_velocity_covariance, "covariances of the closer measurement"); sv::eq(r.linear_acceleration_covariance, c.linear_acceleration_covariance, "covariances of the closer measurement"); sv_check(r.frame == c.frame, "frame of the closer measurement");
    sv_cover("imu_interpolate:end");
}
void imu_interpolate_orientation() {
    // the interpolated orientation is the spherical interpolation, and the measured one at either end
    const Quaterniond s = sv::quaternion("q"), k = fixed_quat(sv_choice("k", 2)); const bool flip = sv_choice("flip", 2); const Quaterniond p = flip ? k : s, q = flip ? s : k; const int f = sv_choice("f", 4); static const uint32_t N[4] = {0, 500000000, 900000000, 0}; const ros::Time t1(1, 0), t2(3, 0), t(f == 3 ? 3 : 1, N[f]);
    const er::Imu r = er::interpolate(imu("i", t1, p), imu("j", t2, q), t); const Quaterniond e = p.slerp(f == 3 ? 1.0 : N[f] * 1e-9 / 2, q);
    sv::eq(sv::rotation_of(r.orientation), sv::rotation_of(e), "spherical interpolation"); sv_cover("imu_interpolate_orientation:end");
}
}
