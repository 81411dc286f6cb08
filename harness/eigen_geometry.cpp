// eigen_ext: rigid transforms, adjoints and covariance frame changes.
#include "sv_eigen.h"
#include <eigen_ext/geometry.hpp>
using Eigen::Isometry3d;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 6, 1> V6;

// Independent 4x4 homogeneous arithmetic.
static Eigen::Matrix4d hom(const Eigen::Matrix3d& R, const Eigen::Vector3d& t) {
    Eigen::Matrix4d T = Eigen::Matrix4d::Zero();
    for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) T(i, j) = R(i, j); T(i, 3) = t(i); }
    T(3, 3) = 1.0;
    return T;
}
static Eigen::Matrix3d hat(const Eigen::Vector3d& v) { Eigen::Matrix3d m; m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
// Adjoint of (R, t) on [angular, linear].
static M6 adjoint_of(const Eigen::Matrix3d& R, const Eigen::Vector3d& t) {
    M6 A = M6::Zero(); const Eigen::Matrix3d tR = hat(t) * R;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { A(i, j) = R(i, j); A(i + 3, j + 3) = R(i, j); A(i + 3, j) = tR(i, j); }
    return A;
}
static M6 mulT(const M6& A, const M6& C, const M6& B) {  // A C B^T
    M6 T, r;
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { double s = 0; for (int k = 0; k < 6; ++k) s += A(i, k) * C(k, j); T(i, j) = s; }
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { double s = 0; for (int k = 0; k < 6; ++k) s += T(i, k) * B(j, k); r(i, j) = s; }
    return r;
}

extern "C" {
// ---- relative poses ----
void relative_transform() {
    const Isometry3d A = sv::isometry("A"), B = sv::isometry("B");
    const Isometry3d R = eigen_ext::relative_transform(A, B);
    sv::eq((A.matrix() * R.matrix()).eval(), B.matrix(), "pose_1 composed with the relative transform gives pose_2");
    const Isometry3d S = eigen_ext::relative_transform(B, A);
    sv::eq((R.matrix() * S.matrix()).eval(), Eigen::Matrix4d::Identity(), "relative transforms in opposite directions are inverse");
    const Eigen::Matrix3d L = R.matrix().block<3, 3>(0, 0);
    sv::eq((L * L.transpose()).eval(), Eigen::Matrix3d::Identity(), "relative transform stays rigid");
    sv_cover("relative_transform:end");
}
void relative_transform_2d() {
    const double c = sv_real("c", -1, 1); double s = sv_real("s", -1, 1); sv_square(s, 1 - c * c);
    if (!sv_symbolic()) { const double q = 1 - c * c; s = s < 0 ? -std::sqrt(q > 0 ? q : 0) : std::sqrt(q > 0 ? q : 0); }
    Eigen::Transform<double, 2, Eigen::Isometry> A = Eigen::Transform<double, 2, Eigen::Isometry>::Identity(), B = A;
    A.linear() << c, -s, s, c; A.translation() = sv::vector<2>("at");
    B.linear() << 0, -1, 1, 0; B.translation() = sv::vector<2>("bt");
    const Eigen::Transform<double, 2, Eigen::Isometry> R = eigen_ext::relative_transform(A, B);
    sv::eq((A.matrix() * R.matrix()).eval(), B.matrix(), "2D: pose_1 composed with the relative transform gives pose_2");
    sv_cover("relative_transform_2d:end");
}
void frame_change() {
    const Isometry3d rel = sv::isometry("r"), B_A = sv::isometry("x");
    const Isometry3d C = eigen_ext::change_relative_transform_frame(rel, B_A);
    // T_B1_B2 * T_B_A == T_B_A * T_A1_A2
    sv::eq((C.matrix() * B_A.matrix()).eval(), (B_A.matrix() * rel.matrix()).eval(), "relative transform expressed in the other body frame");
    const Isometry3d back = eigen_ext::change_relative_transform_frame(C, eigen_ext::relative_transform(B_A, Isometry3d::Identity()));
    sv::eq(back.matrix(), rel.matrix(), "changing frame there and back is the identity");
    sv_cover("frame_change:end");
}
void frame_change_explicit() {
    const Isometry3d rel = sv::isometry("r"), B_A = sv::isometry("x");
    Isometry3d A_B = Isometry3d::Identity();
    const Eigen::Matrix3d Rt = B_A.linear().transpose();
    A_B.linear() = Rt; A_B.translation() = -(Rt * B_A.translation());
    const Isometry3d C1 = eigen_ext::change_relative_transform_frame(rel, B_A, A_B);
    const Isometry3d C2 = eigen_ext::change_relative_transform_frame(rel, B_A);
    sv::eq(C1.matrix(), C2.matrix(), "both overloads agree");
    sv_cover("frame_change_explicit:end");
}
void frame_change_compose() {
    const Isometry3d a = sv::isometry("a"), b = sv::isometry("b"), x = sv::isometry("x");
    const Isometry3d ca = eigen_ext::change_relative_transform_frame(a, x), cb = eigen_ext::change_relative_transform_frame(b, x);
    const Isometry3d ab(Eigen::Matrix4d(a.matrix() * b.matrix()));
    sv::eq(eigen_ext::change_relative_transform_frame(ab, x).matrix(), (ca.matrix() * cb.matrix()).eval(), "frame change distributes over composition");
    sv_cover("frame_change_compose:end");
}
void to_transform_quat() {
    const Eigen::Quaterniond q = sv::quaternion("q"); const Eigen::Vector3d t = sv::vector<3>("t");
    const Eigen::Matrix4d e = hom(sv::rotation_of(q), t);
    sv::eq(eigen_ext::to_transform(t, q).matrix(), e, "translation+quaternion to transform");
    sv::eq(eigen_ext::to_transform(Eigen::Translation<double, 3>(t), q).matrix(), e, "translation object+quaternion to transform");
    sv_cover("to_transform_quat:end");
}
void to_transform_matrix() {
    const Eigen::Matrix3d R = sv::rotation("q"); const Eigen::Vector3d t = sv::vector<3>("t");
    sv::eq(eigen_ext::to_transform(t, R).matrix(), hom(R, t), "translation+rotation matrix to transform");
    sv_cover("to_transform_matrix:end");
}
// ---- adjoint ----
void adjoint_value() {
    const Isometry3d T = sv::isometry("T");
    sv::eq(eigen_ext::transform_adjoint(T), adjoint_of(T.linear(), T.translation()), "adjoint blocks");
    sv_cover("adjoint_value:end");
}
void adjoint_homomorphism() {
    const Isometry3d A = sv::isometry("A"), B = sv::isometry("B");
    const Isometry3d AB(Eigen::Matrix4d(A.matrix() * B.matrix()));
    sv::eq(eigen_ext::transform_adjoint(AB), (eigen_ext::transform_adjoint(A) * eigen_ext::transform_adjoint(B)).eval(), "adjoint of a composition is the product of adjoints");
    sv_cover("adjoint_homomorphism:end");
}
void adjoint_twist() {
    const Isometry3d T = sv::isometry("T"); const V6 v = sv::vector<6>("v");
    const V6 r = eigen_ext::transform_adjoint(T) * v;
    // conj: T * [v]^ == [r]^ * T
    Eigen::Matrix4d vh = Eigen::Matrix4d::Zero(), rh = Eigen::Matrix4d::Zero();
    vh.block<3, 3>(0, 0) = hat(v.head<3>()); vh.block<3, 1>(0, 3) = v.tail<3>();
    rh.block<3, 3>(0, 0) = hat(r.head<3>()); rh.block<3, 1>(0, 3) = r.tail<3>();
    sv::eq((rh * T.matrix()).eval(), (T.matrix() * vh).eval(), "adjoint conjugates twists");
    sv_cover("adjoint_twist:end");
}
void twist_frame() {
    const Isometry3d T = sv::isometry("T"); const V6 v = sv::vector<6>("v");
    const V6 r = eigen_ext::change_twist_reference_frame(T, v);
    sv::eq(r, (adjoint_of(T.linear(), T.translation()) * v).eval(), "twist expressed in the other frame is the adjoint times the twist");
    sv_cover("twist_frame:end");
}
void covariance_frame() {
    const Isometry3d T = sv::isometry("T"); const M6 C = sv::symmetric<6>("C");
    const M6 A = adjoint_of(T.linear(), T.translation());
    const M6 r = eigen_ext::change_covariance_frame(C, T);
    const M6 e = mulT(A, C, A);
    sv::eq(r, e, "covariance in the new frame");
    sv::eq(r, r.transpose().eval(), "covariance stays symmetric");
    sv_cover("covariance_frame:end");
}
void covariance_frame_adjoint() {
    const M6 A = sv::matrix<6, 6>("A", -2, 2), C = sv::matrix<6, 6>("C", -2, 2);
    sv::eq(eigen_ext::change_covariance_frame(C, A), mulT(A, C, A), "covariance frame change with a given adjoint");
    sv_cover("covariance_frame_adjoint:end");
}
// ---- composition of covariances ----
void compose_value() {
    const Isometry3d T = sv::isometry("T", -4, 4); const M6 P = sv::symmetric<6>("P", -2, 2), Q = sv::symmetric<6>("Q", -2, 2), X = sv::matrix<6, 6>("X", -2, 2);
    const Eigen::Matrix3d Rt = T.linear().transpose(); const Eigen::Vector3d ti = -(Rt * T.translation());
    const M6 A = adjoint_of(Rt, ti);
    const M6 r = eigen_ext::compose_transform_covariance(P, Q, T, X);
    const M6 apa = mulT(A, P, A), xa = mulT(M6::Identity(), X, A);
    sv::eq(r, (apa + Q + xa + xa.transpose()).eval(), "composed covariance with cross covariance");
    sv_cover("compose_value:end");
}
void compose_nocross() {
    const Isometry3d T = sv::isometry("T", -4, 4); const M6 P = sv::symmetric<6>("P", -2, 2), Q = sv::symmetric<6>("Q", -2, 2);
    const Eigen::Matrix3d Rt = T.linear().transpose(); const Eigen::Vector3d ti = -(Rt * T.translation());
    const M6 A = adjoint_of(Rt, ti);
    const M6 r = eigen_ext::compose_transform_covariance(P, Q, T);
    sv::eq(r, (mulT(A, P, A) + Q).eval(), "composed covariance without cross covariance");
    sv::eq(r, r.transpose().eval(), "composed covariance is symmetric");
    sv_cover("compose_nocross:end");
}
void compose_associative() {
    const Isometry3d T1 = sv::isometry("S", -4, 4), T2 = sv::isometry("T", -4, 4);
    const Isometry3d T12(Eigen::Matrix4d(T1.matrix() * T2.matrix()));
    const M6 P = sv::symmetric<6>("P", -2, 2);
    M6 Q = M6::Zero(), S = M6::Zero();
    for (int i = 0; i < 6; ++i) { Q(i, i) = sv_real(sv::idx("Q", i).c_str(), 0, 2); S(i, i) = sv_real(sv::idx("S", i).c_str(), 0, 2); }
    const M6 l = eigen_ext::compose_transform_covariance(eigen_ext::compose_transform_covariance(P, Q, T1), S, T2);
    const M6 r = eigen_ext::compose_transform_covariance(P, eigen_ext::compose_transform_covariance(Q, S, T2), T12);
    for (int i = 0; i < 6; ++i) for (int j = i; j < 6; ++j) sv_eq(l(i, j), r(i, j), "composing step by step or in one step gives the same covariance");
    sv_cover("compose_associative:end");
}
void rotate_cov() {
    const Eigen::Matrix3d R = sv::rotation("q"), C = sv::matrix<3, 3>("C");
    const Eigen::Matrix3d r = eigen_ext::rotate_point_covariance(C, R);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double s = 0; for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) s += R(i, k) * C(k, l) * R(j, l); sv_eq(r(i, j), s, "rotated covariance is R C R^T"); }
    sv_cover("rotate_cov:end");
}
void rotate_cov_quat() {
    const Eigen::Quaterniond q = sv::quaternion("q"); const Eigen::Matrix3d R = sv::rotation_of(q), C = sv::symmetric<3>("C");
    const Eigen::Matrix3d r = eigen_ext::rotate_point_covariance(C, q);
    sv::eq(r, (R * C * R.transpose()).eval(), "rotated covariance (quaternion) is R C R^T");
    sv_eq(r.trace(), C.trace(), "trace is preserved");
    sv_cover("rotate_cov_quat:end");
}
// ---- rates ----
void rates() {
    const Isometry3d A = sv::isometry("A"); const Eigen::Vector3d t = sv::vector<3>("dt");
    const double dt = sv_real("time", -1, 5);
    Isometry3d D = Isometry3d::Identity(); D.translation() = t;
    const Isometry3d B(Eigen::Matrix4d(A.matrix() * D.matrix()));
    bool threw = false; V6 r = V6::Zero();
    try { r = eigen_ext::linear_rates(A, B, dt); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == !(dt > 0.0), "rates are rejected exactly when the time step is not positive");
    if (threw) { sv_cover("rates:reject"); return; }
    for (int i = 0; i < 3; ++i) sv_eq(r(i + 3) * dt, t(i), "linear rate times dt is the translation in the first pose's frame");
    for (int i = 0; i < 3; ++i) sv_eq(r(i), 0.0, "no rotation, no angular rate");
    sv_cover("rates:end");
}
void rates_angular() {
    // Rotation part: rate * dt is the rotation vector of the relative rotation.
    const Eigen::Quaterniond q = sv::quaternion("d"); const double dt = sv_real("time", 0.125, 5);
    const Isometry3d A = Isometry3d::Identity();
    Isometry3d B = Isometry3d::Identity(); B.linear() = sv::rotation_of(q);
    const Eigen::Vector3d t = sv::vector<3>("t"); B.translation() = t;
    const V6 r = eigen_ext::linear_rates(A, B, dt);
    const double n2 = q.x() * q.x() + q.y() * q.y() + q.z() * q.z();
    sv_assume(n2 >= 0.01 && n2 <= 0.9999);  // at exactly half a turn both axis signs are valid
    const Eigen::Vector3d phi(r(0) * dt, r(1) * dt, r(2) * dt), ax(q.x(), q.y(), q.z());
    const Eigen::Vector3d cr = phi.cross(ax);
    for (int i = 0; i < 3; ++i) sv_eq(cr(i), 0.0, "angular rate is along the rotation axis");
    const double n = std::sqrt(n2), aw = q.w() < 0 ? -q.w() : q.w();
    const double ang = 2.0 * std::atan2(n, aw);
    const double sgn = q.w() < 0 ? -1.0 : 1.0;
    for (int i = 0; i < 3; ++i) sv_eq(phi(i), sgn * ang * ax(i) / n, "angular rate times dt is the shortest rotation vector");
    for (int i = 0; i < 3; ++i) sv_eq(r(i + 3) * dt, t(i), "linear rate times dt is the translation");
    sv_cover("rates_angular:end");
}
}
