EG = "eigen_ext/include/eigen_ext/geometry.hpp"
EM = "eigen_ext/include/eigen_ext/matrix.hpp"
PC = "eigen_ext/include/eigen_ext/precomputed_transform_components.hpp"
SK = "serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp"
SF = "serpent/src/front_end/stereo/match_filters.cpp"
SC = "serpent/src/front_end/stereo/stereo_cost_functions.cpp"
PT = "pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_transform.hpp"
PU = "pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_utilities.hpp"
RU = "pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp"
RC = "serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp"
SEQ = "serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp"

SEEDS = []


def S(**k):
    SEEDS.append(k)


S(id="C17-reverse-last-window", property="C17", kind="cv",
  needs="bidirectional matching where the better reverse window is the last one that fits the row",
  breaks="the reverse scan stops one window early, so a left keypoint is matched although the right window fits a different left window better",
  edits=[(SK, "(find_in_right && reverse_reference_image_top_left.x <= left_image.cols - window.width)", "(find_in_right && reverse_reference_image_top_left.x < left_image.cols - window.width)")],
  demo=r'''
#include <serpent/front_end/stereo/stereo_keypoint_matcher.hpp>
#include <cstdio>
using namespace serpent;
int main() {
    unsigned char l[5] = {0, 100, 0, 0, 120}, r[5] = {9, 125, 200, 200, 200};
    cv::Mat L(1, 5, CV_8U, l), R(1, 5, CV_8U, r);
    auto m = SADStereoKeyPointMatcher::create(cv::Size(1, 1), 0.5f, StereoKeyPointMatcher::MatchingFilter::BIDIRECTIONAL);
    double cost; bool matched = true;
    // Left pixel 1 is closest to right pixel 1 (cost 25), which fits left pixel 4 better (cost 5).
    m->keypoint_in_other_image(cv::KeyPoint(1.5f, 0.5f, 1.f), L, R, true, cost, matched);
    std::printf("matched %d cost %g\n", matched, cost);
    return matched ? 1 : 0;
}
''')

S(id="C17-subpixel-order", property="C17", kind="cv",
  needs="a candidate keypoint in the same pixel column as the reference keypoint but on the wrong side of it",
  breaks="the left/right order of keypoints is tested on whole pixels, so a right keypoint that lies to the right of the left one is accepted",
  edits=[(SK, "if (((find_in_right && search_image_keypoint.pt.x <= image_keypoint.pt.x) ||\n                        (!find_in_right && search_image_keypoint.pt.x >= image_keypoint.pt.x)) &&",
          "if (((find_in_right && search_image_top_left.x <= reference_image_top_left.x) ||\n                        (!find_in_right && search_image_top_left.x >= reference_image_top_left.x)) &&")],
  demo=r'''
#include <serpent/front_end/stereo/stereo_keypoint_matcher.hpp>
#include <cstdio>
using namespace serpent;
int main() {
    unsigned char l[3] = {1, 2, 3}, r[3] = {1, 2, 3};
    cv::Mat L(1, 3, CV_8U, l), R(1, 3, CV_8U, r);
    auto m = SADStereoKeyPointMatcher::create(cv::Size(1, 1), 0.5f, StereoKeyPointMatcher::MatchingFilter::UNIDIRECTIONAL);
    double cost;
    std::vector<cv::KeyPoint> c{cv::KeyPoint(1.75f, 0.5f, 1.f)};
    int i = m->keypoint_index_in_other_image(cv::KeyPoint(1.25f, 0.5f, 1.f), c, L, R, true, cost);
    std::printf("index %d\n", i);
    return i == -1 ? 0 : 1;
}
''')

S(id="C18-focal-then-baseline", property="C18", kind="cv",
  needs="set_fx followed later by set_baseline",
  breaks="the focal length given to set_fx is forgotten by the next set_baseline",
  edits=[(SF, "    fx = fx_;\n    fx_b = fx * baseline;", "    fx_b = fx_ * baseline;")],
  demo=r'''
#include <serpent/front_end/stereo/match_filters.hpp>
#include <cstdio>
using namespace serpent;
int main() {
    StereoDistanceFilter f(100.f, 1.f, 100.f, 50.f);
    f.set_fx(10.f);
    f.set_baseline(1.f);
    std::vector<cv::KeyPoint> l{cv::KeyPoint(2.f, 0.f, 1.f)}, r{cv::KeyPoint(1.f, 0.f, 1.f)};
    std::vector<cv::DMatch> m{cv::DMatch(0, 0, 0.f)};
    // distance = 10 * 1 / 1 = 10 is below the minimum of 50
    return f.filter(l, r, m).empty() ? 0 : 1;
}
''')

S(id="C16-ncc-window", property="C16", kind="cv",
  needs="the NCC overload with a precomputed energy and windows at different positions",
  breaks="the energy of the second window is taken at the position of the first",
  edits=[(SC, "window_sum_squares(image2, image2_top_left, window)", "window_sum_squares(image2, image1_top_left, window)")],
  demo=r'''
#include <serpent/front_end/stereo/stereo_cost_functions.hpp>
#include <opencv2/core.hpp>
#include <cmath>
#include <cstdio>
using namespace serpent;
int main() {
    unsigned char a[3] = {10, 20, 30}, b[3] = {5, 50, 7};
    cv::Mat A(1, 3, CV_8U, a), B(1, 3, CV_8U, b);
    double c = negative_normalised_cross_correlation(A, B, cv::Point2i(2, 0), cv::Point2i(1, 0), cv::Size(1, 1));
    std::printf("%g\n", c);
    return std::abs(c + 1.0) < 1e-9 ? 0 : 1;
}
''')

S(id="C11-nan-normal", property="C11", kind="pcl",
  needs="a non-dense cloud holding a point with finite coordinates and a NaN normal",
  breaks="such a point keeps its old position: only its normal was unusable",
  edits=[(PT, "!std::isfinite(cloud_in.points[i].z))\n                continue;\n            tf.se3(cloud_in[i].data, cloud_out[i].data);\n            tf.so3(cloud_in[i].data_n, cloud_out[i].data_n);\n            tf.so3(cloud_in[i].data_u",
          "!std::isfinite(cloud_in.points[i].z) || !std::isfinite(cloud_in.points[i].normal_x))\n                continue;\n            tf.se3(cloud_in[i].data, cloud_out[i].data);\n            tf.so3(cloud_in[i].data_n, cloud_out[i].data_n);\n            tf.so3(cloud_in[i].data_u")],
  demo=r'''
#include <pointcloud_tools/point_types.hpp>
#include <pointcloud_tools/pclpointcloud_transform.hpp>
#include <cmath>
int main() {
    pcl::PointCloud<PointNormalUnit> c, o;
    PointNormalUnit p;
    p.x = 1.f; p.y = 2.f; p.z = 3.f;
    p.normal_x = p.normal_y = p.normal_z = NAN;
    p.ux = 1.f;
    c.push_back(p);
    c.is_dense = false;
    Eigen::Matrix4f T = Eigen::Matrix4f::Identity();
    T(0, 3) = 10.f;
    pct::transform_pointcloud_with_normals_and_unit_vectors(c, o, T, true);
    return std::abs(o[0].x - 11.f) < 1e-5f ? 0 : 1;
}
''')

S(id="C11-covariance-inplace", property="C11", kind="pcl",
  needs="a non-dense cloud transformed by a transform whose rotation block is not symmetric, covariance variant",
  breaks="the covariance of points of non-dense clouds is rotated by the inverse rotation",
  edits=[(PT, "const Eigen::Matrix3f rotation = transform.template block<3, 3>(0, 0);", "const Eigen::Matrix3f rotation = transform.template block<3, 3>(0, 0).transpose();", 1)],
  demo=r'''
#include <pointcloud_tools/point_types.hpp>
#include <pointcloud_tools/pclpointcloud_transform.hpp>
#include <cmath>
int main() {
    pcl::PointCloud<PointNormalCovariance> c, o;
    PointNormalCovariance p;
    p.covariance_xx = 4.f; p.covariance_yy = 1.f; p.covariance_zz = 9.f;
    c.push_back(p);
    c.is_dense = false;
    Eigen::Matrix4f T = Eigen::Matrix4f::Identity();
    T.block<3, 3>(0, 0) = Eigen::AngleAxisf(2.0943951f, Eigen::Vector3f(1, 1, 1).normalized()).toRotationMatrix();  // x->y->z->x
    pct::transform_pointcloud_with_normals_and_covariances(c, o, T, true);
    return std::abs(o[0].covariance_yy - 4.f) < 1e-4f && std::abs(o[0].covariance_zz - 1.f) < 1e-4f ? 0 : 1;
}
''')

S(id="C05-one-sided-asymmetry", property="C05", kind="eig",
  needs="a matrix whose upper entry is smaller than its lower counterpart",
  breaks="asymmetry is only noticed in one direction",
  edits=[(EM, "if (std::abs(m(r, c) - m(c, r)) > precision) {", "if (m(r, c) - m(c, r) > precision) {")],
  demo=r'''
#include <eigen_ext/covariance.hpp>
int main() {
    Eigen::Matrix3d m = Eigen::Matrix3d::Identity() * 4.0, n = m;
    m(0, 2) = 0.5;
    n(2, 0) = 0.5;
    return eigen_ext::is_valid_covariance(m) || eigen_ext::is_valid_covariance(n);
}
''')

S(id="C09-half-turn", property="C09", kind="eig",
  needs="a rotation vector longer than pi",
  breaks="the stored sine is the positive root, wrong for angles between pi and 2 pi",
  edits=[(PC, "    sina_ = std::sin(a_);\n    cosa_ = std::cos(a_);\n    T_ <<", "    cosa_ = std::cos(a_);\n    sina_ = std::sqrt(std::max(static_cast<Scalar>(0), 1 - cosa_ * cosa_));\n    T_ <<")],
  demo=r'''
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <cmath>
#include <eigen_ext/precomputed_transform_components.hpp>
int main() {
    eigen_ext::PrecomputedTransformComponents<double> c(Eigen::Vector3d(4.0, 0.0, 0.0), Eigen::Vector3d(1, 2, 3));
    return std::abs(c.sina() - std::sin(4.0)) < 1e-9 ? 0 : 1;
}
''')

S(id="C03-cross-transposed", property="C03", kind="eig",
  needs="a cross covariance that is not symmetric together with a relative rotation or translation",
  breaks="the cross covariance enters transposed",
  edits=[(EG, "relative_cross_covariance * adj_transpose +\n           adj * relative_cross_covariance.transpose();", "relative_cross_covariance.transpose() * adj_transpose +\n           adj * relative_cross_covariance;")],
  demo=r'''
#include <eigen_ext/geometry.hpp>
#include <cstdio>
int main() {
    using M = Eigen::Matrix<double, 6, 6>;
    Eigen::Isometry3d T = Eigen::Translation3d(1, 2, 3) * Eigen::Quaterniond(Eigen::AngleAxisd(0.5, Eigen::Vector3d::UnitZ()));
    M P = M::Identity(), Q = M::Identity() * 2, C = M::Zero();
    C(0, 4) = 0.25;
    M A = eigen_ext::transform_adjoint(Eigen::Isometry3d(T.inverse()));
    M expect = A * P * A.transpose() + Q + C * A.transpose() + A * C.transpose();
    M got = eigen_ext::compose_transform_covariance<double, 3>(P, Q, T, C);
    return (expect - got).norm() < 1e-9 ? 0 : 1;
}
''')

S(id="C08-negative-dt", property="C08", kind="eig",
  needs="a negative time step",
  breaks="rates over a negative time step are returned instead of being refused",
  edits=[(EG, "if (dt <= 0.0) {", "if (dt == 0.0) {")],
  demo=r'''
#include <eigen_ext/geometry.hpp>
int main() {
    Eigen::Isometry3d a = Eigen::Isometry3d::Identity(), b(Eigen::Translation3d(1, 0, 0));
    try { eigen_ext::linear_rates(a, b, -1.0); } catch (const std::exception&) { return 0; }
    return 1;
}
''')

S(id="C07-azimuth-seam", property="C07", kind="eig",
  needs="a point with y exactly zero",
  breaks="the azimuth of a point on the positive x axis becomes a full turn instead of zero, leaving the documented range [0, 2 pi)",
  edits=[(EG, "const Scalar a = y >= 0.0 ? a_", "const Scalar a = y > 0.0 ? a_")],
  demo=r'''
#include <eigen_ext/geometry.hpp>
#include <cmath>
int main() { return std::abs(eigen_ext::cartesian_to_polar(2.0, 0.0, 1.0)[1]) < 1e-9 ? 0 : 1; }
''')

S(id="C13-one-sided-normals", property="C13", kind="pcl",
  needs="a normal that is too short rather than too long",
  breaks="short normals (including all-zero ones) are no longer counted",
  edits=[(PU, "if (std::abs(normal.norm() - static_cast<decltype(PointT::normal_x)>(1.0)) > threshold) {", "if (normal.norm() > static_cast<decltype(PointT::normal_x)>(1.0) + threshold) {")],
  demo=r'''
#include <pointcloud_tools/point_types.hpp>
#include <pointcloud_tools/pclpointcloud_utilities.hpp>
int main() {
    pcl::PointCloud<pcl::PointNormal> c;
    pcl::PointNormal p;
    p.normal_x = 0.5f;
    c.push_back(p);
    return pct::check_normals(c, 0.1f) == 1 ? 0 : 1;
}
''')

REG = r'''
#include <pointcloud_tools/point_types.hpp>
#include <pcl/registration/registration.h>
#include <cmath>
#include <cstdio>
template<typename P>
struct Reg : pcl::Registration<P, P, float> {
    void computeTransformation(typename pcl::Registration<P, P, float>::PointCloudSource&, const Eigen::Matrix4f&) override {}
    void set(const Eigen::Matrix4f& t) {
        this->final_transformation_ = t;
        this->initCompute();
        this->initComputeReciprocal();
        this->tree_reciprocal_->setInputCloud(this->getInputSource(), this->getIndices());
    }
};
'''

S(id="C25-reciprocal-distance", property="C25", kind="pcl",
  needs="reciprocal correspondences with a distance other than 0 or 1",
  breaks="the distance of a reciprocal correspondence is the squared distance",
  edits=[(RU, "correspondences->emplace_back(index[0], i, std::sqrt(sq_dist[0]));", "correspondences->emplace_back(index[0], i, sq_dist[0]);")],
  demo=REG + r'''
#include <pointcloud_tools/registration_utilities.hpp>
int main() {
    using C = pcl::PointCloud<pcl::PointXYZ>;
    C::Ptr s(new C), t(new C);
    s->emplace_back(0.f, 0.f, 0.f);
    t->emplace_back(3.f, 0.f, 0.f);
    Reg<pcl::PointXYZ> r;
    r.setInputSource(s);
    r.setInputTarget(t);
    r.setMaxCorrespondenceDistance(5.0);
    r.set(Eigen::Matrix4f::Identity());
    auto c = pct::compute_registration_correspondences(r, true);
    return c->size() == 1 && std::abs((*c)[0].distance - 3.f) < 1e-5f ? 0 : 1;
}
''')

S(id="C23-bias-scaled-twice", property="C23", kind="pcl",
  needs="range noise with a bias variance other than one",
  breaks="the independent range variance is multiplied by the bias variance",
  edits=[(RC, "    const Eigen::VectorXd diagonal = Sigma_z.diagonal();\n", ""),
         (RC, "    Sigma_z *= range_bias_variance;\n", "    Sigma_z *= range_bias_variance;\n    const Eigen::VectorXd diagonal = Sigma_z.diagonal();\n")],
  demo=REG + r'''
#include <serpent/front_end/lidar/registration_covariance.hpp>
using P = PointNormalUnit;
int main() {
    using C = pcl::PointCloud<P>;
    C::Ptr s(new C), t(new C);
    for (int i = 0; i < 6; ++i) {
        P p;
        p.x = 1.f + i % 3; p.y = 2.f - i * 0.5f; p.z = 0.3f * i * i;
        Eigen::Vector3f u = p.getVector3fMap().normalized();
        p.ux = u[0]; p.uy = u[1]; p.uz = u[2];
        p.normal_x = i % 3 == 0; p.normal_y = i % 3 == 1; p.normal_z = i % 3 == 2;
        s->push_back(p);
        t->push_back(p);
    }
    Reg<P> r;
    r.setInputSource(s);
    r.setInputTarget(t);
    r.setMaxCorrespondenceDistance(0.1);
    r.set(Eigen::Matrix4f::Identity());
    int n;
    using M = serpent::PointToPointIcpLinearisedModel<P, P>;
    Eigen::Matrix<double, 6, 6> z = serpent::censi_range_bias_covariance<M, float>(r, 0.5, 0.0, n);
    Eigen::Matrix<double, 6, 6> w = serpent::censi_range_bias_covariance<M, float>(r, 0.0, 0.5, n);
    std::printf("%d %g %g\n", n, z.norm(), w.norm());
    return n == 6 && z.norm() > 1e-6 ? 0 : 1;
}
''')

S(id="C19-right-principal", property="C19", kind="cv",
  needs="a principal point whose coordinates differ",
  breaks="the right column of the projection uses the vertical principal point",
  edits=[(SEQ, "{intrinsic(0, 2), intrinsic(0, 2), intrinsic(1, 2)}", "{intrinsic(0, 2), intrinsic(1, 2), intrinsic(1, 2)}")],
  extra="-isystem /usr/include/eigen3",
  demo=r'''
#include <serpent/front_end/stereo/stereo_equations.hpp>
#include <cmath>
int main() {
    Eigen::Matrix3d K;
    K << 100, 0, 30, 0, 110, 20, 0, 0, 1;
    Eigen::Vector3d p(1, 2, 5);
    Eigen::Vector3d s = serpent::stereo_project<double>(p, K, 0.5);
    return std::abs(s[1] - (30 + 100 * 0.5 / 5)) < 1e-9 ? 0 : 1;
}
''')


S(id="C21-sine-root", property="C21", kind="pcl",
  needs="a non-linear point-to-point registration whose rotation exceeds half a turn (a rotation vector longer than pi)",
  breaks="the sine of the angle is taken as the positive root, so the Hessian is wrong beyond pi",
  edits=[(RC, "    const double ca = tf.cosa();\n    const double sa = tf.sina();", "    const double ca = tf.cosa();\n    const double sa = std::sqrt(1 - ca * ca);", 0)],
  demo=r"""
#include <pointcloud_tools/point_types.hpp>
#include <serpent/front_end/lidar/registration_covariance.hpp>
#include <cstdio>
int main() {
    // The residual is linear in the translation: the rotation/translation block is the derivative of R p with respect to r.
    Eigen::Vector3d r(0.0, 0.0, 4.0), t(1, 2, 3), p(1, 0, 0), q(0.5, 0.25, 0.125);
    eigen_ext::PrecomputedTransformComponents<double> tf(r, t);
    serpent::PointToPointIcpNonlinearModel<pcl::PointXYZ, pcl::PointXYZ> m;
    Eigen::Matrix<double, 6, 6> H = m.compute_half_d2F_dx2(tf, p, q);
    // d(R p)/d rz = (-sin 4, cos 4, 0)
    std::printf("%g %g\n", H(2, 3), H(2, 4));
    return std::abs(H(2, 3) + std::sin(4.0)) < 1e-9 && std::abs(H(2, 4) - std::cos(4.0)) < 1e-9 ? 0 : 1;
}
""")

S(id="C21-source-normal", property="C21", kind="pcl",
  needs="least-squares covariance (the overload without mixed derivative) with source and target normals that differ",
  breaks="the Hessian-only overload of the linearised point-to-plane model uses the normal of the source point",
  edits=[(RC, "            Eigen::Vector3f{target_point.normal_x, target_point.normal_y, target_point.normal_z}.cast<double>();", "            Eigen::Vector3f{source_point.normal_x, source_point.normal_y, source_point.normal_z}.cast<double>();", 3)],
  demo=r"""
#include <pointcloud_tools/point_types.hpp>
#include <serpent/front_end/lidar/registration_covariance.hpp>
int main() {
    eigen_ext::PrecomputedTransformComponents<double> tf(Eigen::Vector3d(0.1, 0.2, 0.3), Eigen::Vector3d(1, 2, 3));
    pcl::PointNormal p, q;
    p.normal_x = 1.f;
    q.normal_z = 1.f;
    Eigen::Matrix<double, 6, 6> H;
    serpent::PointToPlaneIcpLinearisedModel<pcl::PointNormal, pcl::PointNormal>::process_correspondence(p, q, tf, H);
    return std::abs(H(5, 5) - 1) < 1e-9 && std::abs(H(3, 3)) < 1e-9 ? 0 : 1;
}
""")

S(id="C10-rotation-transposed", property="C10", kind="gtsam",
  needs="a rotation that is not its own inverse",
  breaks="the rotation handed back by the optimiser is the inverse rotation",
  edits=[("eigen_gtsam/src/geometry.cpp", "void to_eigen(const gtsam::Rot3& from, Eigen::Matrix3d& to) {\n    to = from.matrix();", "void to_eigen(const gtsam::Rot3& from, Eigen::Matrix3d& to) {\n    to = from.transpose();")],
  demo=r"""
#include <eigen_gtsam/geometry.hpp>
int main() {
    gtsam::Rot3 r = gtsam::Rot3::Rz(0.5);
    Eigen::Matrix3d m;
    eigen_gtsam::to_eigen(r, m);
    return (m - r.matrix()).norm() < 1e-12 ? 0 : 1;
}
""")

S(id="C24-voxel-unit-vectors", property="C24", kind="pcl", extra="serpent/src/front_end/lidar/registration_covariance.cpp",
  needs="least-squares covariance with a range-based point covariance",
  breaks="the least-squares method no longer reports that range noise needs unit vectors",
  edits=[("serpent/src/front_end/lidar/registration_covariance.cpp", "        case CovarianceEstimationMethod::CONSTANT:  // fallthrough\n            required_by_cov_method = false;\n            break;\n        case CovarianceEstimationMethod::CENSI:  // fallthrough\n        case CovarianceEstimationMethod::LLS:\n",
          "        case CovarianceEstimationMethod::CONSTANT:  // fallthrough\n        case CovarianceEstimationMethod::LLS:\n            required_by_cov_method = false;\n            break;\n        case CovarianceEstimationMethod::CENSI:\n")],
  demo=r"""
#include <pointcloud_tools/point_types.hpp>
#include <serpent/front_end/lidar/registration_covariance.hpp>
int main() { return serpent::requires_unit_vectors("LLS", "RANGE") ? 0 : 1; }
""")

S(id="C22-count-gate", property="C22", kind="pcl",
  needs="a registration from which some correspondences are dropped, leaving fewer correspondences than source points",
  breaks="the Censi covariance indexes source points by correspondence number instead of by the correspondence's query index",
  edits=[(RC, "source_cloud->at(correspondence.index_query);", "source_cloud->at(i);", 0)],
  demo=REG + r"""
#include <serpent/front_end/lidar/registration_covariance.hpp>
using P = pcl::PointXYZ;
int main() {
    using C = pcl::PointCloud<P>;
    auto run = [](bool with_outlier) {
        C::Ptr s(new C), t(new C);
        if (with_outlier)
            s->emplace_back(100.f, 100.f, 100.f);
        for (int i = 0; i < 6; ++i) {
            P p(1.f + i % 3, 2.f - i * 0.5f, 0.3f * i * i);
            s->push_back(p);
            p.x += 0.01f * i;
            t->push_back(p);
        }
        Reg<P> r;
        r.setInputSource(s);
        r.setInputTarget(t);
        r.setMaxCorrespondenceDistance(0.2);
        r.set(Eigen::Matrix4f::Identity());
        int n;
        using M = serpent::PointToPointIcpLinearisedModel<P, P>;
        return Eigen::Matrix<double, 6, 6>(serpent::censi_iid_covariance<M, float>(r, 0.5, n));
    };
    return (run(false) - run(true)).norm() < 1e-9 ? 0 : 1;
}
""")

S(id="C32-covariance-order", property="C32", kind="pcl",
  needs="a matrix with different xz and yy entries",
  breaks="TODO",
  edits=[], demo="")
SEEDS.pop()
