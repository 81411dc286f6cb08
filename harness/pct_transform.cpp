// pointcloud_tools / serpent: rigid transformation of whole clouds and per-cloud utilities.
#include "sv_eigen.h"
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include <pointcloud_tools/point_types.hpp>
#include <pointcloud_tools/pclpointcloud_transform.hpp>
#include <pointcloud_tools/pclpointcloud_utilities.hpp>
#include <serpent/front_end/lidar/transform_pointcloud.hpp>
#include <limits>

typedef pcl::PointCloud<PointNormalUnit> CU;
typedef pcl::PointCloud<PointNormalCovariance> CC;
struct In { float p[3], n[3], e[6], curv; };

static float in(const char* n, int i, int j) { return sv_realf((std::string(n) + std::to_string(i) + "_" + std::to_string(j)).c_str(), -8, 8); }
static Eigen::Matrix4f affine(double* M) {
    Eigen::Matrix4f T = Eigen::Matrix4f::Identity();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) { const float v = in("T", i, j); T(i, j) = v; M[i * 4 + j] = v; }
    return T;
}
static In fill(PointNormalUnit& q, int k) {
    In s;
    for (int i = 0; i < 3; ++i) { s.p[i] = in("p", k, i); s.n[i] = in("n", k, i); s.e[i] = in("u", k, i); }
    s.curv = in("c", k, 0);
    q.x = s.p[0]; q.y = s.p[1]; q.z = s.p[2]; q.normal_x = s.n[0]; q.normal_y = s.n[1]; q.normal_z = s.n[2]; q.ux = s.e[0]; q.uy = s.e[1]; q.uz = s.e[2]; q.curvature = s.curv;
    return s;
}
static In fill(PointNormalCovariance& q, int k) {
    In s;
    for (int i = 0; i < 3; ++i) { s.p[i] = in("p", k, i); s.n[i] = in("n", k, i); }
    for (int i = 0; i < 6; ++i) s.e[i] = in("e", k, i);
    s.curv = in("c", k, 0);
    q.x = s.p[0]; q.y = s.p[1]; q.z = s.p[2]; q.normal_x = s.n[0]; q.normal_y = s.n[1]; q.normal_z = s.n[2]; q.curvature = s.curv;
    q.covariance_xx = s.e[0]; q.covariance_xy = s.e[1]; q.covariance_xz = s.e[2]; q.covariance_yy = s.e[3]; q.covariance_yz = s.e[4]; q.covariance_zz = s.e[5];
    return s;
}
static double rot(const double* M, const float* v, int i) { return M[i * 4] * v[0] + M[i * 4 + 1] * v[1] + M[i * 4 + 2] * v[2]; }
template<typename P> static void common(const P& q, const In& s, const double* M) {
    const float* o = q.data;
    for (int i = 0; i < 3; ++i) sv_eq(o[i], rot(M, s.p, i) + M[i * 4 + 3], "points are rotated and translated");
    const float* n = q.data_n;
    for (int i = 0; i < 3; ++i) sv_eq(n[i], rot(M, s.n, i), "normals are rotated only");
    sv_eq(q.data[3], 1.0, "homogeneous coordinate"); sv_eq(q.data_n[3], 0.0, "normal padding");
}
static void moved(const PointNormalUnit& q, const In& s, const double* M) {
    common(q, s, M);
    for (int i = 0; i < 3; ++i) sv_eq(q.data_u[i], rot(M, s.e, i), "unit vectors are rotated only");
}
static void moved(const PointNormalCovariance& q, const In& s, const double* M) {
    common(q, s, M);
    const double C[3][3] = {{s.e[0], s.e[1], s.e[2]}, {s.e[1], s.e[3], s.e[4]}, {s.e[2], s.e[4], s.e[5]}}; double R[3][3];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double v = 0; for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) v += M[i * 4 + k] * C[k][l] * M[j * 4 + l]; R[i][j] = v; }
    const double g[6] = {R[0][0], R[0][1], R[0][2], R[1][1], R[1][2], R[2][2]};
    const float o[6] = {q.covariance_xx, q.covariance_xy, q.covariance_xz, q.covariance_yy, q.covariance_yz, q.covariance_zz};
    for (int i = 0; i < 6; ++i) sv_eq(o[i], g[i], "point covariances become R C R^T");
}
static void same(const PointNormalUnit& q, const In& s) {
    for (int i = 0; i < 3; ++i) { sv_eq(q.data_n[i], s.n[i], "non-finite points keep their fields"); sv_eq(q.data_u[i], s.e[i], "non-finite points keep their fields"); }
}
static void same(const PointNormalCovariance& q, const In& s) {
    for (int i = 0; i < 3; ++i) sv_eq(q.data_n[i], s.n[i], "non-finite points keep their fields");
    for (int i = 0; i < 6; ++i) sv_eq(q.covariance[i], s.e[i], "non-finite points keep their fields");
}
static void call(const CU& a, CU& b, const Eigen::Matrix4f& T, bool all) { pct::transform_pointcloud_with_normals_and_unit_vectors(a, b, T, all); }
static void call(const CC& a, CC& b, const Eigen::Matrix4f& T, bool all) { pct::transform_pointcloud_with_normals_and_covariances(a, b, T, all); }

template<typename P> static void meta(const pcl::PointCloud<P>& in, const pcl::PointCloud<P>& out) {
    sv_check(out.width == in.width && out.height == in.height && out.is_dense == in.is_dense && out.header.stamp == in.header.stamp && out.header.seq == in.header.seq, "cloud metadata is carried over");
    for (int i = 0; i < 4; ++i) sv_eq(out.sensor_origin_[i], in.sensor_origin_[i], "sensor origin is carried over");
    sv_eq(out.sensor_orientation_.w(), in.sensor_orientation_.w(), "sensor orientation is carried over");
}
// A point whose normal (or unit vector or covariance) is unusable is still a point: only its coordinates decide whether it moves.
template<typename P> static float* extra(P& q, int k);
template<> float* extra(PointNormalUnit& q, int k) { return k < 3 ? &q.data_n[k] : k < 6 ? &q.data_u[k - 3] : &q.curvature; }
template<> float* extra(PointNormalCovariance& q, int k) { return k < 3 ? &q.data_n[k] : k < 9 ? &q.covariance_xx + (k - 3) : &q.curvature; }
template<typename P> static void nonfinite_extra(int fields) {
    sv_tol(1e-3);
    double M[12]; const Eigen::Matrix4f T = affine(M); pcl::PointCloud<P> a, b; P q; In s = fill(q, 0);
    const int k = sv_choice("field", fields), kind = sv_choice("kind", 3), place = sv_choice("inplace", 2);
    *extra(q, k) = kind == 0 ? std::numeric_limits<float>::quiet_NaN() : kind == 1 ? std::numeric_limits<float>::infinity() : -std::numeric_limits<float>::infinity();
    a.points.push_back(q); a.width = a.height = 1; a.is_dense = sv_choice("dense", 2);
    call(a, place ? a : b, T, true); const pcl::PointCloud<P>& out = place ? a : b;
    for (int i = 0; i < 3; ++i) sv_eq(out.points[0].data[i], rot(M, s.p, i) + M[i * 4 + 3], "points are rotated and translated");
    if (k >= 3) for (int i = 0; i < 3; ++i) sv_eq(out.points[0].data_n[i], rot(M, s.n, i), "normals are rotated only");
}
template<typename P> static void transform_any(int n, bool inplace, bool all, bool dense, int bad) {
    sv_tol(1e-3);
    double M[12]; const Eigen::Matrix4f T = affine(M);
    pcl::PointCloud<P> a, b; In s[3];
    for (int i = 0; i < n; ++i) { P q; s[i] = fill(q, i); a.points.push_back(q); }
    a.width = n; a.height = 1; a.is_dense = dense; a.header.stamp = 123; a.header.seq = 7; a.sensor_origin_ = Eigen::Vector4f(1, 2, 3, 0); a.sensor_orientation_ = Eigen::Quaternionf(0.5f, 0.5f, 0.5f, 0.5f);
    if (bad >= 0) {
        const int c = sv_choice("coordinate", 3), k = sv_choice("kind", 3);
        a.points[bad].data[c] = k == 0 ? std::numeric_limits<float>::quiet_NaN() : k == 1 ? std::numeric_limits<float>::infinity() : -std::numeric_limits<float>::infinity();
    }
    if (!inplace) b.points.push_back(P());  // stale content of the output must not survive
    pcl::PointCloud<P>& out = inplace ? a : b;
    call(a, out, T, all);
    sv_check((int)out.points.size() == n, "every point has one image");
    if ((int)out.points.size() != n) return;
    for (int i = 0; i < n; ++i) {
        if (i == bad) { if (all) { same(out.points[i], s[i]); sv_check(!(std::isfinite(out.points[i].x) && std::isfinite(out.points[i].y) && std::isfinite(out.points[i].z)), "non-finite points stay non-finite"); } continue; }
        moved(out.points[i], s[i], M);
        if (all) sv_eq(out.points[i].curvature, s[i].curv, "other fields are copied");
    }
    if (!inplace) {
        meta(a, out);
        for (int i = 0; i < n; ++i) if (i != bad) for (int k = 0; k < 3; ++k) sv_eq(a.points[i].data[k], s[i].p[k], "the input cloud is not modified");
    }
}
extern "C" {
void unit_dense() { const int n = sv_choice("n", 3); const bool all = sv_choice("all", 2); transform_any<PointNormalUnit>(n, false, all, true, -1); sv_cover("unit_dense:end"); }
void unit_extra() { nonfinite_extra<PointNormalUnit>(7); sv_cover("unit_extra:end"); }
void cov_extra() { nonfinite_extra<PointNormalCovariance>(4); sv_cover("cov_extra:end"); }
void unit_inplace() { transform_any<PointNormalUnit>(2, true, true, sv_choice("dense", 2), -1); sv_cover("unit_inplace:end"); }
void unit_sparse() { const int bad = sv_choice("bad", 3) - 1; transform_any<PointNormalUnit>(2, sv_choice("inplace", 2), true, false, bad); sv_cover("unit_sparse:end"); }
void cov_dense() { const int n = sv_choice("n", 3); const bool all = sv_choice("all", 2); transform_any<PointNormalCovariance>(n, false, all, true, -1); sv_cover("cov_dense:end"); }
void cov_inplace() { transform_any<PointNormalCovariance>(2, true, true, sv_choice("dense", 2), -1); sv_cover("cov_inplace:end"); }
void cov_sparse() { const int bad = sv_choice("bad", 3) - 1; transform_any<PointNormalCovariance>(2, sv_choice("inplace", 2), true, false, bad); sv_cover("cov_sparse:end"); }
// overloads and the generic entry point
void overloads_unit() {
    sv_tol(1e-3);
    double M[12]; const Eigen::Matrix4f T = affine(M); const Eigen::Matrix4d Td = T.cast<double>();
    Eigen::Affine3f A; A.matrix() = T; Eigen::Isometry3d B; B.matrix() = Td;
    CU a, b; PointNormalUnit q; const In s = fill(q, 0); a.push_back(q);
    switch (sv_choice("overload", 6)) {
        case 0: pct::transform_pointcloud_with_normals_and_unit_vectors(a, b, Td); break;
        case 1: pct::transform_pointcloud_with_normals_and_unit_vectors(a, b, A); break;
        case 2: pct::transform_pointcloud_with_normals_and_unit_vectors(a, b, B); break;
        case 3: serpent::transform_pointcloud(a, b, T); break;
        case 4: serpent::transform_pointcloud(a, b, Td); break;
        default: serpent::transform_pointcloud(a, b, B); break;
    }
    sv_check(b.size() == 1, "every point has one image"); if (b.size() != 1) return;
    moved(b[0], s, M); sv_eq(b[0].curvature, s.curv, "other fields are copied");
    sv_cover("overloads_unit:end");
}
void overloads_cov() {
    sv_tol(1e-3);
    double M[12]; const Eigen::Matrix4f T = affine(M); const Eigen::Matrix4d Td = T.cast<double>();
    Eigen::Affine3f A; A.matrix() = T; Eigen::Isometry3d B; B.matrix() = Td;
    CC a, b; PointNormalCovariance q; const In s = fill(q, 0); a.push_back(q);
    switch (sv_choice("overload", 6)) {
        case 0: pct::transform_pointcloud_with_normals_and_covariances(a, b, Td); break;
        case 1: pct::transform_pointcloud_with_normals_and_covariances(a, b, A); break;
        case 2: pct::transform_pointcloud_with_normals_and_covariances(a, b, B); break;
        case 3: serpent::transform_pointcloud(a, b, T); break;
        case 4: serpent::transform_pointcloud(a, b, Td); break;
        default: serpent::transform_pointcloud(a, b, B); break;
    }
    sv_check(b.size() == 1, "every point has one image"); if (b.size() != 1) return;
    moved(b[0], s, M); sv_eq(b[0].curvature, s.curv, "other fields are copied");
    sv_cover("overloads_cov:end");
}
void generic_normals() {
    sv_tol(1e-3);
    double M[12]; const Eigen::Matrix4f T = affine(M); Eigen::Isometry3f B; B.matrix() = T;
    pcl::PointCloud<pcl::PointNormal> a, b; pcl::PointNormal q; In s;
    for (int i = 0; i < 3; ++i) { s.p[i] = in("p", 0, i); s.n[i] = in("n", 0, i); q.data[i] = s.p[i]; q.data_n[i] = s.n[i]; }
    a.push_back(q);
    if (sv_choice("overload", 2)) serpent::transform_pointcloud(a, b, T); else serpent::transform_pointcloud(a, b, B);
    sv_check(b.size() == 1, "every point has one image"); if (b.size() != 1) return;
    common(b[0], s, M);
    sv_cover("generic_normals:end");
}
// ---- utilities ----
static bool off(const In& s, float thr) {
    const double l2 = (double)s.n[0] * s.n[0] + (double)s.n[1] * s.n[1] + (double)s.n[2] * s.n[2];
    // | |n| - 1 | <= thr, written without a square root; keep away from the decision boundary
    const double hi = (1.0 + thr) * (1.0 + thr), lo = (1.0 - thr) * (1.0 - thr);
    sv_assume(l2 > hi + 1e-3 || (l2 < hi - 1e-3 && l2 > lo + 1e-3) || l2 < lo - 1e-3);
    return l2 > hi || l2 < lo;
}
void normals_one() {
    pcl::PointCloud<PointNormalUnit> c; const float thr = sv_realf("threshold", 0, 1); PointNormalUnit q; const In s = fill(q, 0); c.push_back(q);
    const bool bad = off(s, thr);
    sv_check(pct::check_normals(c, thr) == (bad ? 1 : 0), "number of normals whose length is off by more than the threshold");
    sv_cover("normals_one:end");
}
void normals_count() {
    // clouds whose normals lie along one axis each (length = |component|)
    const int n = sv_choice("n", 4); pcl::PointCloud<PointNormalUnit> c; int bad = 0; const float thr = 0.25f;
    for (int i = 0; i < n; ++i) {
        PointNormalUnit q; const float v = in("v", i, 0); q.normal_x = q.normal_y = q.normal_z = 0; q.data_n[i % 3] = v; c.push_back(q);
        const double a = v < 0 ? -(double)v : v; sv_assume(a > 1.251 || (a < 1.249 && a > 0.751) || a < 0.749); if (a > 1.25 || a < 0.75) ++bad;
    }
    sv_check(pct::check_normals(c, thr) == bad, "number of normals whose length is off by more than the threshold");
    sv_cover("normals_count:end");
}
void unit_extract() {
    const int n = sv_choice("n", 4); pcl::PointCloud<PointNormalUnit> c; In s[4];
    for (int i = 0; i < n; ++i) { PointNormalUnit q; s[i] = fill(q, i); c.push_back(q); }
    const Eigen::Matrix<float, 3, Eigen::Dynamic> u = pct::extract_unit_vectors(c);
    sv_check(u.rows() == 3 && u.cols() == n, "one column per point"); if (u.cols() != n) return;
    for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) sv_eq(u(k, i), s[i].e[k], "column i holds the unit vector of point i");
    sv_cover("unit_extract:end");
}
// ---- point types ----
void outer_product() {
    PointNormalUnit q; const In s = fill(q, 0); const Eigen::Matrix3f o = q.get_unit_outer_product();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sv_eq(o(i, j), (double)s.e[i] * s.e[j], "outer product of the unit vector");
    sv_cover("outer_product:end");
}
void covariance_roundtrip() {
    PointNormalCovariance q; const In s = fill(q, 0); const Eigen::Matrix3f c = q.getCovarianceMatrix();
    const int at[3][3] = {{0, 1, 2}, {1, 3, 4}, {2, 4, 5}};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sv_eq(c(i, j), s.e[at[i][j]], "symmetric matrix of the stored triangle");
    PointNormalCovariance r; r.setCovariance(c);
    for (int i = 0; i < 6; ++i) { sv_eq(r.covariance[i], s.e[i], "covariance stored and read back"); sv_eq(r.getCovarianceVector6fMap()(i), s.e[i], "vector view of the covariance"); }
    sv_cover("covariance_roundtrip:end");
}
void copy_points() {
    { PointNormalUnit q; const In s = fill(q, 0); const PointNormalUnit r(static_cast<const _PointNormalUnit&>(q));
      for (int i = 0; i < 3; ++i) { sv_eq(r.data[i], s.p[i], "position kept"); sv_eq(r.data_n[i], s.n[i], "normal kept"); sv_eq(r.data_u[i], s.e[i], "unit vector kept"); }
      sv_eq(r.curvature, s.curv, "curvature kept"); sv_eq(r.data[3], 1.0, "homogeneous coordinate"); }
    { PointNormalCovariance q; const In s = fill(q, 1); const PointNormalCovariance r(static_cast<const _PointNormalCovariance&>(q));
      for (int i = 0; i < 3; ++i) { sv_eq(r.data[i], s.p[i], "position kept"); sv_eq(r.data_n[i], s.n[i], "normal kept"); }
      for (int i = 0; i < 6; ++i) sv_eq(r.covariance[i], s.e[i], "covariance kept");
      sv_eq(r.curvature, s.curv, "curvature kept"); sv_eq(r.data[3], 1.0, "homogeneous coordinate"); }
    { PointUnit q; for (int i = 0; i < 3; ++i) { q.data[i] = in("a", 0, i); q.data_u[i] = in("b", 0, i); } const PointUnit r(static_cast<const _PointUnit&>(q));
      for (int i = 0; i < 3; ++i) { sv_eq(r.data[i], q.data[i], "position kept"); sv_eq(r.data_u[i], q.data_u[i], "unit vector kept"); } }
    { PointCovariance q; for (int i = 0; i < 3; ++i) q.data[i] = in("d", 0, i); for (int i = 0; i < 6; ++i) q.covariance[i] = in("f", 0, i); const PointCovariance r(static_cast<const _PointCovariance&>(q));
      for (int i = 0; i < 3; ++i) sv_eq(r.data[i], q.data[i], "position kept"); for (int i = 0; i < 6; ++i) sv_eq(r.covariance[i], q.covariance[i], "covariance kept"); }
    sv_cover("copy_points:end");
}
void angleaxis_pose() {
    // Pose points: rotation given as a quaternion, read back as a rotation matrix.
    sv_tol(1e-3);
    const Eigen::Quaterniond qd = sv::quaternion("q"); const Eigen::Vector3d td = sv::vector<3>("t");
    const double n2 = qd.x() * qd.x() + qd.y() * qd.y() + qd.z() * qd.z(); sv_assume(n2 >= 0.01 && n2 <= 0.999);
    const Eigen::Quaternionf q = qd.cast<float>(); const Eigen::Vector3f t = td.cast<float>();
    const PointAngleAxis p(t, q);
    for (int i = 0; i < 3; ++i) sv_eq(p.data[i], td(i), "position of the pose");
    const double n = std::sqrt(n2), aw = qd.w() < 0 ? -qd.w() : qd.w(), sgn = qd.w() < 0 ? -1.0 : 1.0; const double ang = 2.0 * std::atan2(n, aw);
    sv_eq(p.rx, sgn * ang * qd.x() / n, "rotation vector"); sv_eq(p.ry, sgn * ang * qd.y() / n, "rotation vector"); sv_eq(p.rz, sgn * ang * qd.z() / n, "rotation vector");
    const double a2 = (double)p.rx * p.rx + (double)p.ry * p.ry + (double)p.rz * p.rz; sv_eq((double)p.angle() * p.angle(), a2, "rotation angle is the length of the rotation vector");
    sv_cover("angleaxis_pose:end");
}
void angleaxis_back() {
    PointAngleAxis p; const double r0 = in("r", 0, 0), r1 = in("r", 0, 1), r2 = in("r", 0, 2); p.rx = r0; p.ry = r1; p.rz = r2;
    for (int i = 0; i < 3; ++i) p.data[i] = in("p", 0, i);
    const double a2 = r0 * r0 + r1 * r1 + r2 * r2; sv_assume(a2 >= 0.01);
    sv_tol(1e-3);
    const double a = std::sqrt(a2), s = std::sin(a), c = std::cos(a);
    Eigen::Matrix3d K, R; K << 0, -r2, r1, r2, 0, -r0, -r1, r0, 0; R = Eigen::Matrix3d::Identity() + (s / a) * K + ((1 - c) / a2) * (K * K);
    const Eigen::Isometry3f T = p.getIsometry(); const Eigen::Matrix3f G = p.getRotationMatrix();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { sv_eq(G(i, j), R(i, j), "rotation matrix of the stored rotation vector"); sv_eq(T.matrix()(i, j), R(i, j), "pose rotation"); }
    for (int i = 0; i < 3; ++i) sv_eq(T.matrix()(i, 3), p.data[i], "pose translation");
    sv_cover("angleaxis_back:end");
}
}
