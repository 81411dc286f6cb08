// serpent: second derivatives of the registration cost, against an independently differentiated residual.
#include "sv_eigen.h"
#include <serpent/front_end/lidar/registration_covariance.hpp>
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Vector3d V3;
typedef eigen_ext::PrecomputedTransformComponents<double> TF;
typedef serpent::PointToPointIcpNonlinearModel<pcl::PointXYZ, pcl::PointXYZ> PPN;
typedef serpent::PointToPointIcpLinearisedModel<pcl::PointXYZ, pcl::PointXYZ> PPL;
typedef serpent::PointToPlaneIcpNonlinearModel<PointNormalUnit, PointNormalUnit> PLN;
typedef serpent::PointToPlaneIcpLinearisedModel<PointNormalUnit, PointNormalUnit> PLL;
namespace {
// Value, gradient and Hessian with respect to the rotation vector.
struct J {
    double v = 0, g[3] = {0, 0, 0}, h[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}};
    J() {}
    J(double c) : v(c) {}
};
J operator+(const J& a, const J& b) { J r; r.v = a.v + b.v; for (int i = 0; i < 3; ++i) { r.g[i] = a.g[i] + b.g[i]; for (int j = 0; j < 3; ++j) r.h[i][j] = a.h[i][j] + b.h[i][j]; } return r; }
J operator*(const J& a, const J& b) {
    J r; r.v = a.v * b.v;
    for (int i = 0; i < 3; ++i) { r.g[i] = a.v * b.g[i] + a.g[i] * b.v; for (int j = 0; j < 3; ++j) r.h[i][j] = a.v * b.h[i][j] + a.g[i] * b.g[j] + a.g[j] * b.g[i] + a.h[i][j] * b.v; }
    return r;
}
J chain(const J& a, double f, double f1, double f2) {
    J r; r.v = f;
    for (int i = 0; i < 3; ++i) { r.g[i] = f1 * a.g[i]; for (int j = 0; j < 3; ++j) r.h[i][j] = f1 * a.h[i][j] + f2 * a.g[i] * a.g[j]; }
    return r;
}
// Residual and its derivatives: e, de/dr, d2e/dr2 (t and z enter linearly), R = de/dp.
struct Res { double e[3]; J Rp[3]; J R[3][3]; };
void residual(Res& o, const V3& r, const V3& t, const V3& p, const V3& q, bool linear) {
    J x[3];
    for (int i = 0; i < 3; ++i) { x[i].v = r[i]; x[i].g[i] = 1; }
    J K[3][3];
    K[0][1] = J(-1) * x[2]; K[0][2] = x[1]; K[1][0] = x[2]; K[1][2] = J(-1) * x[0]; K[2][0] = J(-1) * x[1]; K[2][1] = x[0];
    if (linear) {
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o.R[i][j] = J(i == j) + K[i][j];
    } else {
        J n2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2];
        const double a = std::sqrt(n2.v), s = std::sin(a), c = std::cos(a);
        J A = chain(n2, a, 1 / (2 * a), -1 / (4 * a * n2.v));
        J S = chain(A, s / a, c / a - s / (a * a), -s / a - 2 * c / (a * a) + 2 * s / (a * a * a));
        J C = chain(A, (1 - c) / (a * a), s / (a * a) - 2 * (1 - c) / (a * a * a), c / (a * a) - 4 * s / (a * a * a) + 6 * (1 - c) / (a * a * a * a));
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
            J k2; for (int k = 0; k < 3; ++k) k2 = k2 + K[i][k] * K[k][j];
            o.R[i][j] = J(i == j) + S * K[i][j] + C * k2;
        }
    }
    for (int i = 0; i < 3; ++i) { o.Rp[i] = o.R[i][0] * J(p[0]) + o.R[i][1] * J(p[1]) + o.R[i][2] * J(p[2]); o.e[i] = o.Rp[i].v + t[i] - q[i]; }
}
// Metric W: identity (point to point) or n n^T (point to plane); half d2(e^T W e).
double x1(const Res& o, int i, int a) { return a < 3 ? o.Rp[i].g[a] : (i == a - 3); }
double z1(const Res& o, int i, int a) { return a < 3 ? o.R[i][a].v : -(i == a - 3); }
double x2(const Res& o, int i, int a, int b) { return a < 3 && b < 3 ? o.Rp[i].h[a][b] : 0; }
double xz2(const Res& o, int i, int a, int b) { return a < 3 && b < 3 ? o.R[i][b].g[a] : 0; }
double half_xx(const Res& o, const V3* n, int a, int b) {
    if (!n) { double s = 0; for (int i = 0; i < 3; ++i) s += x1(o, i, a) * x1(o, i, b) + o.e[i] * x2(o, i, a, b); return s; }
    double d = 0, da = 0, db = 0, dab = 0;
    for (int i = 0; i < 3; ++i) { d += (*n)[i] * o.e[i]; da += (*n)[i] * x1(o, i, a); db += (*n)[i] * x1(o, i, b); dab += (*n)[i] * x2(o, i, a, b); }
    return da * db + d * dab;
}
double half_xz(const Res& o, const V3* n, int a, int b) {
    if (!n) { double s = 0; for (int i = 0; i < 3; ++i) s += x1(o, i, a) * z1(o, i, b) + o.e[i] * xz2(o, i, a, b); return s; }
    double d = 0, da = 0, db = 0, dab = 0;
    for (int i = 0; i < 3; ++i) { d += (*n)[i] * o.e[i]; da += (*n)[i] * x1(o, i, a); db += (*n)[i] * z1(o, i, b); dab += (*n)[i] * xz2(o, i, a, b); }
    return da * db + d * dab;
}
struct In { V3 r, t, p, q, n; };
In inputs(bool linear) {
    In s; s.r = sv::vector<3>("r", -3, 3); s.t = sv::vector<3>("t"); s.p = sv::vector<3>("p"); s.q = sv::vector<3>("q"); s.n = sv::vector<3>("n", -1, 1);
    if (!linear) sv_assume(s.r[0] * s.r[0] + s.r[1] * s.r[1] + s.r[2] * s.r[2] >= 0.01);
    return s;
}
void xx(const M6& m, const In& s, bool plane, bool linear, const char* msg) {
    Res o; residual(o, s.r, s.t, s.p, s.q, linear);
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) sv_eq(m(i, j), half_xx(o, plane ? &s.n : nullptr, i, j), msg);
}
void xz(const M6& m, const In& s, bool plane, bool linear, const char* msg) {
    Res o; residual(o, s.r, s.t, s.p, s.q, linear);
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) sv_eq(m(i, j), half_xz(o, plane ? &s.n : nullptr, i, j), msg);
}
}
// process_correspondence hands the right coordinates to the derivatives
static pcl::PointXYZ xyz(const V3& v) { return pcl::PointXYZ((float)v[0], (float)v[1], (float)v[2]); }
static PointNormalUnit pnu(const V3& v, const V3& n) {
    PointNormalUnit a{}; a.x = v[0]; a.y = v[1]; a.z = v[2]; a.normal_x = n[0]; a.normal_y = n[1]; a.normal_z = n[2]; return a;
}
template<typename M> static void pp(const In& s, const TF& tf) {
    M6 a, b, c; sv_check(M::process_correspondence(xyz(s.p), xyz(s.q), tf, a, b), "correspondence used"); sv_check(M::process_correspondence(xyz(s.p), xyz(s.q), tf, c), "correspondence used");
    sv::eq(a, M::compute_half_d2F_dx2(tf, s.p, s.q), "Hessian of the correspondence"); sv::eq(c, M::compute_half_d2F_dx2(tf, s.p, s.q), "Hessian of the correspondence"); sv::eq(b, M::compute_half_d2F_dzdx(tf, s.p, s.q), "mixed derivative of the correspondence");
}
template<typename M> static void pl(const In& s, const TF& tf) {
    V3 other = sv::vector<3>("m", -1, 1); const PointNormalUnit P = pnu(s.p, other), Q = pnu(s.q, s.n);
    M6 a, b, c; sv_check(M::process_correspondence(P, Q, tf, a, b), "correspondence used"); sv_check(M::process_correspondence(P, Q, tf, c), "correspondence used");
    sv::eq(a, M::compute_half_d2F_dx2(tf, s.p, s.q, s.n), "Hessian of the correspondence"); sv::eq(c, M::compute_half_d2F_dx2(tf, s.p, s.q, s.n), "Hessian of the correspondence"); sv::eq(b, M::compute_half_d2F_dzdx(tf, s.p, s.q, s.n), "mixed derivative of the correspondence");
}
extern "C" {
void ppn_xx() { const In s = inputs(false); sv_tol(1e-4); const TF tf{s.r, s.t}; xx(PPN::compute_half_d2F_dx2(tf, s.p, s.q), s, false, false, "Hessian of the point-to-point cost"); sv_cover("ppn_xx:end"); }
void ppn_xz() { const In s = inputs(false); sv_tol(1e-4); const TF tf{s.r, s.t}; xz(PPN::compute_half_d2F_dzdx(tf, s.p, s.q), s, false, false, "mixed derivative of the point-to-point cost"); sv_cover("ppn_xz:end"); }
void pln_xx() { const In s = inputs(false); sv_tol(1e-4); const TF tf{s.r, s.t}; xx(PLN::compute_half_d2F_dx2(tf, s.p, s.q, s.n), s, true, false, "Hessian of the point-to-plane cost"); sv_cover("pln_xx:end"); }
void pln_xz() { const In s = inputs(false); sv_tol(1e-4); const TF tf{s.r, s.t}; xz(PLN::compute_half_d2F_dzdx(tf, s.p, s.q, s.n), s, true, false, "mixed derivative of the point-to-plane cost"); sv_cover("pln_xz:end"); }
void ppl() {
    const In s = inputs(true); const TF tf{s.r, s.t};
    In z = s; // the linearised Hessian is that of the quadratic cost, whose second derivative in x ignores the residual
    xx(PPL::compute_half_d2F_dx2(tf, s.p, s.q), z, false, true, "Hessian of the linearised point-to-point cost");
    xz(PPL::compute_half_d2F_dzdx(tf, s.p, s.q), s, false, true, "mixed derivative of the linearised point-to-point cost"); sv_cover("ppl:end");
}
void pll() {
    const In s = inputs(true); const TF tf{s.r, s.t};
    xx(PLL::compute_half_d2F_dx2(tf, s.p, s.q, s.n), s, true, true, "Hessian of the linearised point-to-plane cost");
    xz(PLL::compute_half_d2F_dzdx(tf, s.p, s.q, s.n), s, true, true, "mixed derivative of the linearised point-to-plane cost"); sv_cover("pll:end");
}
void process_pp() { const In s = inputs(false); sv_tol(1e-2); const TF tf{s.r, s.t}; if (sv_choice("model", 2)) pp<PPN>(s, tf); else pp<PPL>(s, tf); sv_cover("process_pp:end"); }
void process_pl() { const In s = inputs(false); sv_tol(1e-2); const TF tf{s.r, s.t}; if (sv_choice("model", 2)) pl<PLN>(s, tf); else pl<PLL>(s, tf); sv_cover("process_pl:end"); }
}
