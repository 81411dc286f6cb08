// eigen_gtsam: conversions between Eigen and GTSAM geometry.
#include "sv_eigen.h"
#include <eigen_gtsam/eigen_gtsam.hpp>
using Eigen::Isometry3d;
extern "C" {
void pose_to_gtsam() {
    const Isometry3d T = sv::isometry("T"); gtsam::Pose3 p; eigen_gtsam::to_gtsam(T, p); const gtsam::Pose3 q = eigen_gtsam::to_gtsam<gtsam::Pose3>(T);
    for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) { sv_eq(p.rotation().matrix()(i, j), T.matrix()(i, j), "rotation kept"); sv_eq(q.rotation().matrix()(i, j), T.matrix()(i, j), "rotation kept"); } sv_eq(p.translation()(i), T.matrix()(i, 3), "translation kept"); sv_eq(q.translation()(i), T.matrix()(i, 3), "translation kept"); }
    sv_cover("pose_to_gtsam:end");
}
void pose_roundtrip() {
    const Isometry3d T = sv::isometry("T"); gtsam::Pose3 p; eigen_gtsam::to_gtsam(T, p); Isometry3d U; eigen_gtsam::to_eigen(p, U);
    sv::eq(U.matrix(), T.matrix(), "pose kept there and back"); sv::eq(eigen_gtsam::to_eigen<Isometry3d>(p).matrix(), T.matrix(), "pose kept there and back");
    sv_cover("pose_roundtrip:end");
}
void pose_to_eigen() {
    const Eigen::Matrix3d R = sv::rotation("q"); const Eigen::Vector3d t = sv::vector<3>("t"); const gtsam::Pose3 p{gtsam::Rot3{R}, t}; const Isometry3d U = eigen_gtsam::to_eigen<Isometry3d>(p);
    for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) sv_eq(U.matrix()(i, j), R(i, j), "rotation kept"); sv_eq(U.matrix()(i, 3), t(i), "translation kept"); sv_eq(U.matrix()(3, i), 0, "last row"); } sv_eq(U.matrix()(3, 3), 1, "last row");
    sv_cover("pose_to_eigen:end");
}
void rotation_roundtrip() {
    const Eigen::Matrix3d R = sv::rotation("q"); gtsam::Rot3 g; eigen_gtsam::to_gtsam(R, g); sv::eq(g.matrix(), R, "rotation kept");
    sv::eq(eigen_gtsam::to_gtsam<gtsam::Rot3>(R).matrix(), R, "rotation kept");
    Eigen::Matrix3d S; eigen_gtsam::to_eigen(g, S); sv::eq(S, R, "rotation kept there and back"); sv::eq(eigen_gtsam::to_eigen<Eigen::Matrix3d>(g), R, "rotation kept there and back");
    Eigen::Matrix4d M = Eigen::Matrix4d::Identity(); M.block<3, 3>(0, 0) = R; eigen_gtsam::to_gtsam(M.block<3, 3>(0, 0), g); sv::eq(g.matrix(), R, "rotation given as a block kept");
    sv_cover("rotation_roundtrip:end");
}
}
