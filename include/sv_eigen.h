// Symbolic Eigen objects.
#pragma once
#include "sv.h"
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <string>
namespace sv {
inline const char* nm(const std::string& s) { return s.c_str(); }
inline std::string idx(const char* n, int i) { return std::string(n) + std::to_string(i); }
inline std::string idx(const char* n, int i, int j) { return std::string(n) + std::to_string(i) + "_" + std::to_string(j); }
template<int R, int C> Eigen::Matrix<double, R, C> matrix(const char* n, double lo = -10, double hi = 10) {
    Eigen::Matrix<double, R, C> m;
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m(i, j) = sv_real(idx(n, i, j).c_str(), lo, hi);
    return m;
}
template<int N> Eigen::Matrix<double, N, 1> vector(const char* n, double lo = -10, double hi = 10) {
    Eigen::Matrix<double, N, 1> m;
    for (int i = 0; i < N; ++i) m(i) = sv_real(idx(n, i).c_str(), lo, hi);
    return m;
}
template<int N> Eigen::Matrix<double, N, N> symmetric(const char* n, double lo = -10, double hi = 10) {
    Eigen::Matrix<double, N, N> m;
    for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) m(i, j) = m(j, i) = sv_real(idx(n, i, j).c_str(), lo, hi);
    return m;
}
// Every unit quaternion with w >= 0 or any sign (full = true).
inline Eigen::Quaterniond quaternion(const char* n, bool full = true) {
    const double x = sv_real(idx(n, 1).c_str(), -1, 1), y = sv_real(idx(n, 2).c_str(), -1, 1), z = sv_real(idx(n, 3).c_str(), -1, 1);
    double w = sv_real(idx(n, 0).c_str(), full ? -1 : 0, 1);
    sv_square(w, 1.0 - x * x - y * y - z * z);
    if (!sv_symbolic()) { const double s = 1.0 - x * x - y * y - z * z; const double r = s > 0 ? std::sqrt(s) : 0; w = w < 0 ? -r : r; }
    return Eigen::Quaterniond(w, x, y, z);
}
// Rotation matrix of a unit quaternion, written out independently of Eigen.
inline Eigen::Matrix3d rotation_of(const Eigen::Quaterniond& q) {
    const double w = q.w(), x = q.x(), y = q.y(), z = q.z();
    Eigen::Matrix3d R;
    R << 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y);
    return R;
}
inline Eigen::Matrix3d rotation(const char* n) { return rotation_of(quaternion(n)); }
inline Eigen::Isometry3d isometry(const char* n, double lo = -10, double hi = 10) {
    Eigen::Isometry3d t = Eigen::Isometry3d::Identity();
    t.linear() = rotation((std::string(n) + "q").c_str());
    t.translation() = vector<3>((std::string(n) + "t").c_str(), lo, hi);
    return t;
}
template<typename A, typename B> void eq(const A& a, const B& b, const char* msg) {
    sv_check(a.rows() == b.rows() && a.cols() == b.cols(), msg);
    for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) sv_eq((double)a(i, j), (double)b(i, j), msg);
}
}
