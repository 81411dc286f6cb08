// Bodies for out-of-line parts of GTSAM 4.2 that the code under test reaches; native replay uses the real library.
#include <gtsam/geometry/Pose3.h>
#include <gtsam/geometry/Rot3.h>
#include <gtsam/navigation/CombinedImuFactor.h>
namespace gtsam {
Rot3::Rot3() : rot_(Matrix3(Matrix3::Identity())) {}
Rot3::Rot3(double a, double b, double c, double d, double e, double f, double g, double h, double i) { Matrix3 R; R << a, b, c, d, e, f, g, h, i; rot_ = SO3(R); }
Matrix3 Rot3::matrix() const { return rot_.matrix(); }
Matrix3 Rot3::transpose() const { return rot_.matrix().transpose(); }
Rot3 Rot3::operator*(const Rot3& R2) const { Rot3 r; r.rot_ = SO3(Matrix3(rot_.matrix() * R2.rot_.matrix())); return r; }
Point3 Rot3::rotate(const Point3& p, OptionalJacobian<3, 3> H1, OptionalJacobian<3, 3> H2) const { if (H1 || H2) { if (H1) *H1 = rot_.matrix() * skewSymmetric(-p.x(), -p.y(), -p.z()); if (H2) *H2 = rot_.matrix(); } return rot_.matrix() * p; }
Point3 Rot3::unrotate(const Point3& p, OptionalJacobian<3, 3> H1, OptionalJacobian<3, 3> H2) const { const Point3 q(rot_.matrix().transpose() * p); if (H1) *H1 = skewSymmetric(q); if (H2) *H2 = rot_.matrix().transpose(); return q; }
Point3 Rot3::operator*(const Point3& p) const { return rotate(p); }
Point3 Rot3::r1() const { return Point3(rot_.matrix().col(0)); }
Point3 Rot3::r2() const { return Point3(rot_.matrix().col(1)); }
Point3 Rot3::r3() const { return Point3(rot_.matrix().col(2)); }
gtsam::Quaternion Rot3::toQuaternion() const { return gtsam::Quaternion(rot_.matrix()); }
Vector Rot3::quaternion() const { const gtsam::Quaternion q = toQuaternion(); Vector v(4); v(0) = q.w(); v(1) = q.x(); v(2) = q.y(); v(3) = q.z(); return v; }
Pose3::Pose3(const Pose2& p) : R_(), t_(0, 0, 0) { (void)p; __builtin_trap(); }
Pose3 Pose3::Create(const Rot3& R, const Point3& t, OptionalJacobian<6, 3> HR, OptionalJacobian<6, 3> Ht) { if (HR) *HR << I_3x3, Matrix3(Matrix3::Zero()); if (Ht) *Ht << Matrix3(Matrix3::Zero()), R.transpose(); return Pose3(R, t); }
Pose3 Pose3::inverse() const { const Rot3 Rt = R_.inverse(); return Pose3(Rt, Rt * Point3(-t_)); }
Point3 Pose3::transformFrom(const Point3& p, OptionalJacobian<3, 6>, OptionalJacobian<3, 3>) const { return R_.matrix() * p + t_; }
Point3 Pose3::transformTo(const Point3& p, OptionalJacobian<3, 6>, OptionalJacobian<3, 3>) const { return R_.matrix().transpose() * (p - t_); }
Matrix4 Pose3::matrix() const { Matrix4 m = Matrix4::Identity(); m.block<3, 3>(0, 0) = R_.matrix(); m.block<3, 1>(0, 3) = t_; return m; }
const Rot3& Pose3::rotation(OptionalJacobian<3, 6> H) const { if (H) *H << I_3x3, Matrix3(Matrix3::Zero()); return R_; }
const Point3& Pose3::translation(OptionalJacobian<3, 6> H) const { if (H) *H << Matrix3(Matrix3::Zero()), R_.matrix(); return t_; }
Rot3::Rot3(const gtsam::Quaternion& q) : rot_(Matrix3(q.toRotationMatrix())) {}
void PreintegratedCombinedMeasurements::integrateMeasurement(const Vector3&, const Vector3&, const double) { __builtin_trap(); }
void PreintegratedCombinedMeasurements::resetIntegration() {}
void TangentPreintegration::resetIntegration() { preintegrated_.setZero(); deltaTij_ = 0; }
}
