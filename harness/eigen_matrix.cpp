// eigen_ext: covariance utilities, skew matrices, normalisation, interpolation, precomputed transforms.
#include "sv_eigen.h"
#include <eigen_ext/geometry.hpp>
#include <eigen_ext/covariance.hpp>
#include <eigen_ext/precomputed_transform_components.hpp>
#include <limits>

// ---- block swap ----
template<int N, typename M> static void reorder_any(const M& C) {
    const int b = sv_choice("boundary", N - 1) + 1;
    const M R = eigen_ext::reorder_covariance(C, (Eigen::Index)b);
    sv_check(R.rows() == N && R.cols() == N, "reordered covariance has the same size");
    // position p of the result shows element (p + b) mod N of the input
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) sv_eq(R(i, j), C((i + b) % N, (j + b) % N), "blocks are swapped");
    const M S = eigen_ext::reorder_covariance(R, (Eigen::Index)(N - b));
    sv::eq(S, C, "swapping back restores the matrix");
}
template<typename M> static bool reorder_throws(const M& C, long b) {
    try { (void)eigen_ext::reorder_covariance(C, (Eigen::Index)b); } catch (const std::runtime_error&) { return true; }
    return false;
}
template<int N> static Eigen::Matrix<double, N, N> fix() { return sv::matrix<N, N>("c"); }
template<int N> static Eigen::MatrixXd dyn() { Eigen::MatrixXd m(N, N); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m(i, j) = sv_real(sv::idx("c", i, j).c_str(), -10, 10); return m; }

// ---- positive definiteness by leading minors ----
static bool pd2(double a, double b, double d) { return a > 0 && a * d - b * b > 0; }
static double det3(const Eigen::Matrix3d& m) {
    return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
}

extern "C" {
void reorder_2() { reorder_any<2>(fix<2>()); sv_cover("reorder_2:end"); }
void reorder_3() { reorder_any<3>(fix<3>()); sv_cover("reorder_3:end"); }
void reorder_4() { reorder_any<4>(fix<4>()); sv_cover("reorder_4:end"); }
void reorder_6() { reorder_any<6>(fix<6>()); sv_cover("reorder_6:end"); }
void reorder_9() { reorder_any<9>(fix<9>()); sv_cover("reorder_9:end"); }
void reorder_dyn() { reorder_any<5>(dyn<5>()); sv_cover("reorder_dyn:end"); }
void reorder_reject() {
    const int k = sv_choice("boundary", 9);
    const Eigen::Matrix<double, 6, 6> C = fix<6>();
    const bool t = reorder_throws(C, k);
    sv_check(t == (k == 0 || k >= 6), "boundary accepted exactly when inside the matrix");
    if (t) sv_cover("reorder_reject:reject"); else sv_cover("reorder_reject:accept");
}
void reorder_nonsquare() {
    Eigen::MatrixXd m = Eigen::MatrixXd::Zero(3, 4);
    sv_check(reorder_throws(m, 1), "non-square matrices are rejected");
    sv_cover("reorder_nonsquare:end");
}

// ---- validity ----
void valid_2() {
    const double a = sv_real("a", -10, 10), b = sv_real("b", -10, 10), c = sv_real("c", -10, 10), d = sv_real("d", -10, 10);
    Eigen::Matrix2d m; m << a, b, c, d;
    const bool v = eigen_ext::is_valid_covariance(m);
    sv_check(v == (b == c && pd2(a, b, d)), "2x2 valid iff symmetric and positive definite");
    if (v) sv_cover("valid_2:valid"); else sv_cover("valid_2:invalid");
}
void valid_2_precision() {
    const double a = sv_real("a", -10, 10), b = sv_real("b", -10, 10), c = sv_real("c", -10, 10), d = sv_real("d", -10, 10), p = sv_real("p", 0, 1);
    Eigen::Matrix2d m; m << a, b, c, d;
    const bool v = eigen_ext::is_valid_covariance(m, p);
    const double gap = b > c ? b - c : c - b;
    // Either triangle may be taken as the matrix when they differ within the precision.
    if (gap > p) sv_check(!v, "asymmetry beyond the precision is rejected");
    else if (pd2(a, b, d) && pd2(a, c, d)) sv_check(v, "asymmetry within the precision is accepted");
    else if (!pd2(a, b, d) && !pd2(a, c, d)) sv_check(!v, "indefinite matrices are rejected at any precision");
    if (v) sv_cover("valid_2_precision:valid"); else sv_cover("valid_2_precision:invalid");
}
void valid_3_sym() {
    const Eigen::Matrix3d m = sv::symmetric<3>("c", -4, 4);
    const bool v = eigen_ext::is_valid_covariance(m);
    const bool pd = m(0, 0) > 0 && m(0, 0) * m(1, 1) - m(0, 1) * m(0, 1) > 0 && det3(m) > 0;
    sv_check(v == pd, "3x3 symmetric valid iff positive definite");
    if (v) sv_cover("valid_3_sym:valid"); else sv_cover("valid_3_sym:invalid");
}
void valid_3_asym() {
    Eigen::Matrix3d m = sv::matrix<3, 3>("c", -4, 4);
    const bool sym = m(0, 1) == m(1, 0) && m(0, 2) == m(2, 0) && m(1, 2) == m(2, 1);
    sv_assume(!sym);
    sv_check(!eigen_ext::is_valid_covariance(m), "asymmetric matrices are rejected");
    sv_cover("valid_3_asym:end");
}
void valid_6_block() {
    // Two coupled coordinates anywhere in a 6x6 matrix; the others are independent.
    const int i = sv_choice("i", 5), j = i + 1 + sv_choice("j", 5 - i);
    const double a = sv_real("a", -5, 5), b = sv_real("b", -5, 5), d = sv_real("d", -5, 5);
    Eigen::Matrix<double, 6, 6> m = Eigen::Matrix<double, 6, 6>::Identity();
    m(i, i) = a; m(j, j) = d; m(i, j) = b; m(j, i) = b;
    const bool v = eigen_ext::is_valid_covariance(m);
    sv_check(v == pd2(a, b, d), "6x6 valid iff positive definite");
    if (v) sv_cover("valid_6_block:valid"); else sv_cover("valid_6_block:invalid");
}
void valid_6_asym() {
    const int i = sv_choice("i", 5), j = i + 1 + sv_choice("j", 5 - i);
    const double e = sv_real("e", -1, 1); sv_assume(e != 0);
    Eigen::Matrix<double, 6, 6> m = 8.0 * Eigen::Matrix<double, 6, 6>::Identity();
    m(i, j) = e;
    sv_check(!eigen_ext::is_valid_covariance(m), "6x6 asymmetric matrices are rejected");
    m(i, j) = 0; m(j, i) = e;
    sv_check(!eigen_ext::is_valid_covariance(m), "6x6 asymmetric matrices are rejected");
    m(i, j) = e;
    sv_check(eigen_ext::is_valid_covariance(m), "6x6 diagonally dominant symmetric matrices are accepted");
    sv_cover("valid_6_asym:end");
}
void valid_nonfinite() {
    const int i = sv_choice("i", 6), j = sv_choice("j", 6), k = sv_choice("k", 3);
    Eigen::Matrix<double, 6, 6> m = 8.0 * Eigen::Matrix<double, 6, 6>::Identity();
    const double bad = k == 0 ? std::numeric_limits<double>::quiet_NaN() : k == 1 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
    m(i, j) = bad; m(j, i) = bad;
    sv_check(!eigen_ext::is_valid_covariance(m), "non-finite matrices are rejected");
    sv_cover("valid_nonfinite:end");
}
void valid_nonsquare() {
    Eigen::MatrixXd m = Eigen::MatrixXd::Zero(2, 3); m(0, 0) = m(1, 1) = 1;
    sv_check(!eigen_ext::is_valid_covariance(m), "non-square matrices are rejected");
    sv_cover("valid_nonsquare:end");
}

// ---- skew ----
void skew() {
    const Eigen::Vector3d v = sv::vector<3>("v"), u = sv::vector<3>("u");
    const Eigen::Matrix3d S = eigen_ext::skew_symmetric(v);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sv_eq(S(i, j), -S(j, i), "skew-symmetric");
    const double c0 = v(1) * u(2) - v(2) * u(1), c1 = v(2) * u(0) - v(0) * u(2), c2 = v(0) * u(1) - v(1) * u(0);
    const Eigen::Vector3d p = S * u;
    sv_eq(p(0), c0, "skew matrix product is the cross product"); sv_eq(p(1), c1, "skew matrix product is the cross product"); sv_eq(p(2), c2, "skew matrix product is the cross product");
    const Eigen::Vector3d w = eigen_ext::from_skew_symmetric(S);
    sv::eq(w, v, "vector recovered from its skew matrix");
    sv_cover("skew:end");
}
void skew_float() {
    Eigen::Vector3f v; v << sv_realf("v0", -8, 8), sv_realf("v1", -8, 8), sv_realf("v2", -8, 8);
    sv::eq(eigen_ext::from_skew_symmetric(eigen_ext::skew_symmetric(v)), v, "vector recovered from its skew matrix");
    sv_cover("skew_float:end");
}
void skew_reject() {
    // One entry of a skew matrix off by at least a quarter.
    const Eigen::Vector3d v = sv::vector<3>("v"); const int i = sv_choice("i", 3), j = sv_choice("j", 3); const double e = sv_real("e", -10, 10);
    sv_assume(e >= 0.25 || e <= -0.25);
    Eigen::Matrix3d S; S << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
    S(i, j) += e;
    bool threw = false;
    try { (void)eigen_ext::from_skew_symmetric(S); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw, "a matrix that is not skew-symmetric is rejected");
    sv_cover("skew_reject:end");
}

// ---- normalisation and polar coordinates ----
void normalise() {
    const Eigen::Vector3d v = sv::vector<3>("v", -100, 100); bool threw = false; Eigen::Vector3d u = Eigen::Vector3d::Zero(), u2 = u;
    try { u = eigen_ext::safe_normalise(v); u2 = eigen_ext::safe_normalise(v(0), v(1), v(2)); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == (v(0) == 0 && v(1) == 0 && v(2) == 0), "only the zero vector is rejected");
    if (threw) { sv_cover("normalise:reject"); return; }
    const double n = std::sqrt(v(0) * v(0) + v(1) * v(1) + v(2) * v(2));
    for (int i = 0; i < 3; ++i) { sv_eq(u(i) * n, v(i), "norm times unit vector is the vector"); sv_eq(u2(i), u(i), "both overloads agree"); }
    sv_eq(u(0) * u(0) + u(1) * u(1) + u(2) * u(2), 1.0, "unit length");
    sv_cover("normalise:end");
}
void normalise_2() {
    const Eigen::Vector2d v = sv::vector<2>("v", -100, 100); bool threw = false; Eigen::Vector2d u = Eigen::Vector2d::Zero();
    try { u = eigen_ext::safe_normalise(v); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == (v(0) == 0 && v(1) == 0), "only the zero vector is rejected");
    if (threw) { sv_cover("normalise_2:reject"); return; }
    const double n = std::sqrt(v(0) * v(0) + v(1) * v(1));
    for (int i = 0; i < 2; ++i) sv_eq(u(i) * n, v(i), "norm times unit vector is the vector");
    sv_cover("normalise_2:end");
}
void polar() {
    const double x = sv_real("x", -50, 50), y = sv_real("y", -50, 50), z = sv_real("z", -50, 50);
    bool threw = false; Eigen::Vector3d p = Eigen::Vector3d::Zero();
    try { p = eigen_ext::cartesian_to_polar<double>(x, y, z); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == (x == 0 && y == 0), "only points on the vertical axis are rejected");
    if (threw) { sv_cover("polar:reject"); return; }
    const double r = p(0);
    sv_check(r >= 0, "range is not negative");
    sv_eq(r * r, x * x + y * y + z * z, "range is the distance");
    const double az = y >= 0 ? p(1) : 2.0 * M_PI - p(1), rho = std::sqrt(x * x + y * y);  // measured from the x axis on the point's side
    sv_check(az >= 0 && az <= 3.14159266, "azimuth is on the point's side of the x axis");
    sv_eq(rho * std::cos(az), x, "azimuth gives x");
    sv_check(p(2) >= 0 && p(2) <= 3.14159266, "inclination in [0, pi]");
    sv_eq(r * std::cos(p(2)), z, "inclination gives z");
    sv_cover("polar:end");
}
void polar_vector() {
    const Eigen::Vector3d v = sv::vector<3>("v", -50, 50); sv_assume(v(0) != 0);
    sv::eq(eigen_ext::cartesian_to_polar<double>(v), eigen_ext::cartesian_to_polar<double>(v(0), v(1), v(2)), "both overloads agree");
    sv_cover("polar_vector:end");
}

// ---- interpolation ----
void interpolate() {
    const Eigen::Vector3d a = sv::vector<3>("a"), b = sv::vector<3>("b"); const double s = sv_real("s", -2, 3);
    const Eigen::Vector3d r = eigen_ext::linear_interpolate(a, b, s);
    for (int i = 0; i < 3; ++i) sv_eq(r(i), a(i) + s * (b(i) - a(i)), "affine in the interpolation factor");
    const Eigen::Vector3d e0 = eigen_ext::linear_interpolate(a, b, 0.0), e1 = eigen_ext::linear_interpolate(a, b, 1.0);
    sv::eq(e0, a, "factor 0 gives the first value"); sv::eq(e1, b, "factor 1 gives the second value");
    sv_cover("interpolate:end");
}
void interpolate_matrix() {
    const Eigen::Matrix<double, 6, 6> a = sv::matrix<6, 6>("a"), b = sv::matrix<6, 6>("b"); const double s = sv_real("s", -2, 3);
    const Eigen::Matrix<double, 6, 6> r = eigen_ext::linear_interpolate(a, b, s);
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) sv_eq(r(i, j), a(i, j) + s * (b(i, j) - a(i, j)), "affine in the interpolation factor");
    sv_cover("interpolate_matrix:end");
}
void interpolate_bounds() {
    const Eigen::Vector3d a = sv::vector<3>("a"), b = sv::vector<3>("b"); const double s = sv_real("s", 0, 1);
    const Eigen::Vector3d r = eigen_ext::linear_interpolate(a, b, s);
    for (int i = 0; i < 3; ++i) { const double lo = a(i) < b(i) ? a(i) : b(i), hi = a(i) < b(i) ? b(i) : a(i); sv_check(r(i) >= lo - 1e-9 && r(i) <= hi + 1e-9, "interpolation stays between the end points"); }
    sv_cover("interpolate_bounds:end");
}
void diagonals() {
    const Eigen::Matrix3d m = sv::matrix<3, 3>("m");
    const bool r = eigen_ext::non_zero_diagonals(m);
    sv_check(r == (m(0, 0) > 0 && m(1, 1) > 0 && m(2, 2) > 0), "diagonal test");
    if (r) sv_cover("diagonals:yes"); else sv_cover("diagonals:no");
}

// ---- precomputed transform components ----
void components_from_vector() {
    const Eigen::Vector3d r = sv::vector<3>("r", -3, 3), t = sv::vector<3>("t");
    const eigen_ext::PrecomputedTransformComponents<double> c(r, t);
    const double a2 = r(0) * r(0) + r(1) * r(1) + r(2) * r(2);
    sv_eq(c.a() * c.a(), a2, "angle is the length of the rotation vector");
    sv_check(c.a() >= 0, "angle is not negative");
    sv::eq(c.r(), r, "rotation vector kept"); sv::eq(c.t(), t, "translation kept");
    const double a = std::sqrt(a2);
    Eigen::Matrix3d K, R; K << 0, -r(2), r(1), r(2), 0, -r(0), -r(1), r(0), 0;
    const double s = a2 == 0 ? 0.0 : std::sin(a), co = a2 == 0 ? 1.0 : std::cos(a);
    sv_eq(c.sina(), s, "sine of the angle"); sv_eq(c.cosa(), co, "cosine of the angle");
    R.setIdentity();
    if (!(a2 == 0)) R = Eigen::Matrix3d::Identity() + (s / a) * K + ((1 - co) / a2) * (K * K);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { sv_eq(c.R()(i, j), R(i, j), "rotation matrix of the rotation vector"); sv_eq(c.T()(i, j), R(i, j), "rotation block of the transform"); }
    for (int i = 0; i < 3; ++i) { sv_eq(c.T()(i, 3), t(i), "translation column of the transform"); sv_eq(c.T()(3, i), 0.0, "last row"); }
    sv_eq(c.T()(3, 3), 1.0, "last row");
    if (a2 == 0) sv_cover("components_from_vector:zero"); else sv_cover("components_from_vector:end");
}
void components_from_matrix() {
    const Eigen::Quaterniond q = sv::quaternion("q"); const Eigen::Vector3d t = sv::vector<3>("t");
    const double n2 = q.x() * q.x() + q.y() * q.y() + q.z() * q.z();
    sv_assume(n2 >= 0.01 && n2 <= 0.9999);
    Eigen::Matrix4d T = Eigen::Matrix4d::Identity(); T.block<3, 3>(0, 0) = sv::rotation_of(q); T.block<3, 1>(0, 3) = t;
    const eigen_ext::PrecomputedTransformComponents<double> c(T);
    sv::eq(c.T(), T, "transform kept"); sv::eq(c.R(), T.block<3, 3>(0, 0).eval(), "rotation block"); sv::eq(c.t(), t, "translation column");
    const double n = std::sqrt(n2), aw = q.w() < 0 ? -q.w() : q.w(), sgn = q.w() < 0 ? -1.0 : 1.0;
    const double ang = 2.0 * std::atan2(n, aw);
    sv_eq(c.a(), ang, "rotation angle");
    sv_eq(c.r()(0), sgn * ang * q.x() / n, "rotation vector"); sv_eq(c.r()(1), sgn * ang * q.y() / n, "rotation vector"); sv_eq(c.r()(2), sgn * ang * q.z() / n, "rotation vector");
    sv_eq(c.sina(), std::sin(c.a()), "sine of the angle"); sv_eq(c.cosa(), std::cos(c.a()), "cosine of the angle");
    sv_cover("components_from_matrix:end");
}
}
