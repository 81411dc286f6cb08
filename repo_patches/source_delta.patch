From feb002934d30c348a363a01fd7596d3060652bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:25 +0000
Subject: [PATCH 01/37] fix: change_twist_reference_frame returns the adjoint
 applied to the twist

---
 eigen_ext/include/eigen_ext/geometry.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/geometry.hpp b/eigen_ext/include/eigen_ext/geometry.hpp
index 42ce308..c0a91b1 100644
--- a/eigen_ext/include/eigen_ext/geometry.hpp
+++ b/eigen_ext/include/eigen_ext/geometry.hpp
@@ -316,7 +316,9 @@ Eigen::Matrix<Scalar, 6, 6> transform_adjoint(const Eigen::Transform<Scalar, 3,
 
 template<typename Scalar>
 Eigen::Matrix<Scalar, 6, 1> change_twist_reference_frame(const Eigen::Transform<Scalar, 3, Eigen::Isometry>& transform,
-        const Eigen::Matrix<Scalar, 6, 1>& twist) {}
+        const Eigen::Matrix<Scalar, 6, 1>& twist) {
+    return transform_adjoint(transform) * twist;
+}
 
 }
 
-- 
2.43.0


From 4fa01bfe7dc1ecd58822043d62d311a51363a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:25 +0000
Subject: [PATCH 02/37] fix: cartesian_to_polar azimuth divides by the planar
 distance, not its square

---
 eigen_ext/include/eigen_ext/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/geometry.hpp b/eigen_ext/include/eigen_ext/geometry.hpp
index c0a91b1..e244c22 100644
--- a/eigen_ext/include/eigen_ext/geometry.hpp
+++ b/eigen_ext/include/eigen_ext/geometry.hpp
@@ -203,7 +203,7 @@ Eigen::Matrix<Scalar, 3, 1> cartesian_to_polar(const Scalar x, const Scalar y, c
     if (x2_plus_y2 == 0.0) {
         throw std::runtime_error("Failed to convert from cartesian to polar coordinates. x and y are zero.");
     }
-    const Scalar a_ = std::acos(x / x2_plus_y2);
+    const Scalar a_ = std::acos(x / std::sqrt(x2_plus_y2));
     const Scalar a = y >= 0.0 ? a_ : 2.0 * M_PI - a_;
     const Scalar e = std::acos(z / r);
     return Eigen::Matrix<Scalar, 3, 1>{r, a, e};
-- 
2.43.0


From 69d68cb8ebf42844e41c23cada51fa24a85f589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:25 +0000
Subject: [PATCH 03/37] fix: from_skew_symmetric rejects every matrix that is
 not skew-symmetric

---
 eigen_ext/include/eigen_ext/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/matrix.hpp b/eigen_ext/include/eigen_ext/matrix.hpp
index 87a27a9..6d12e53 100644
--- a/eigen_ext/include/eigen_ext/matrix.hpp
+++ b/eigen_ext/include/eigen_ext/matrix.hpp
@@ -81,7 +81,7 @@ Eigen::Matrix<Scalar, 3, 3> skew_symmetric(const Eigen::Matrix<Scalar, 3, 1>& v)
 
 template<typename Scalar>
 Eigen::Matrix<Scalar, 3, 1> from_skew_symmetric(const typename Eigen::Matrix<Scalar, 3, 3>& matrix) {
-    if (matrix.diagonal().maxCoeff() > 0.0) {
+    if (!matrix.isApprox(-matrix.transpose())) {
         std::stringstream ss;
         ss << "Matrix was not skew-symmetric, was:\n" << matrix;
         throw std::runtime_error(ss.str());
-- 
2.43.0


From 1e269203ebf3bb575126e0d201c747163e343910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:25 +0000
Subject: [PATCH 04/37] fix: reorder_covariance sizes its result for dynamic
 matrices

---
 eigen_ext/include/eigen_ext/covariance.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eigen_ext/include/eigen_ext/covariance.hpp b/eigen_ext/include/eigen_ext/covariance.hpp
index f9d4cbc..83f131d 100644
--- a/eigen_ext/include/eigen_ext/covariance.hpp
+++ b/eigen_ext/include/eigen_ext/covariance.hpp
@@ -68,6 +68,7 @@ Derived reorder_covariance(const Eigen::MatrixBase<Derived>& covariance, const E
         throw std::runtime_error("Reorder boundary outside of covariance matrix.");
     }
     Derived reordered_covariance;
+    reordered_covariance.resize(size, size);
     reordered_covariance << covariance.block(boundary, boundary, size - boundary, size - boundary),
             covariance.block(boundary, 0, size - boundary, boundary),
             covariance.block(0, boundary, boundary, size - boundary), covariance.block(0, 0, boundary, boundary);
-- 
2.43.0


From 7d8717faf16fa1d1c46e8d56be6b264d1164ea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:25 +0000
Subject: [PATCH 05/37] fix: PrecomputedTransformComponents of a zero rotation
 vector is the identity rotation, not NaN

---
 .../eigen_ext/precomputed_transform_components.hpp        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
index af9076e..bd528cf 100644
--- a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
+++ b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
@@ -48,8 +48,12 @@ PrecomputedTransformComponents<Scalar>::PrecomputedTransformComponents(const Eig
     : r_(r),
       t_(t) {
     a_ = r_.norm();
-    const Eigen::AngleAxis<Scalar> angleaxis{a_, r_ / a_};
-    R_ = angleaxis.toRotationMatrix();
+    if (a_ > static_cast<Scalar>(0)) {
+        const Eigen::AngleAxis<Scalar> angleaxis{a_, r_ / a_};
+        R_ = angleaxis.toRotationMatrix();
+    } else {
+        R_.setIdentity();
+    }
     sina_ = std::sin(a_);
     cosa_ = std::cos(a_);
     T_ << R_, t_, Eigen::Matrix<Scalar, 1, 3>::Zero(), static_cast<Scalar>(1);
-- 
2.43.0


From 89bcf739f5ad915045635e5680eca74758b36c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:37 +0000
Subject: [PATCH 06/37] fix: window sums start from zero instead of an
 uninitialised value

---
 serpent/src/front_end/stereo/window_functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/stereo/window_functions.cpp b/serpent/src/front_end/stereo/window_functions.cpp
index 14fc361..20d98cf 100644
--- a/serpent/src/front_end/stereo/window_functions.cpp
+++ b/serpent/src/front_end/stereo/window_functions.cpp
@@ -10,7 +10,7 @@ bool window_within_image(const cv::Mat& image, const cv::Point2i& top_left, cons
 }
 
 double window_sum(const cv::Mat& image, const cv::Point2i& top_left, const cv::Size& window) {
-    double sum;
+    double sum{0.0};
     for (int row = 0; row < window.height; ++row) {
         for (int col = 0; col < window.width; ++col) {
             sum += static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col));
@@ -24,7 +24,7 @@ double window_mean(const cv::Mat& image, const cv::Point2i& top_left, const cv::
 }
 
 double window_sum_squares(const cv::Mat& image, const cv::Point2i& top_left, const cv::Size& window) {
-    double squares;
+    double squares{0.0};
     for (int row = 0; row < window.height; ++row) {
         for (int col = 0; col < window.width; ++col) {
             squares += std::pow(static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col)), 2.0);
-- 
2.43.0


From 0951791df7bdbcdc7b3108606bbe9a586d417b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:37 +0000
Subject: [PATCH 07/37] fix: StereoDistanceFilter keeps the focal length and
 baseline it is constructed with

---
 serpent/src/front_end/stereo/match_filters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/stereo/match_filters.cpp b/serpent/src/front_end/stereo/match_filters.cpp
index 286dfe0..e0a740c 100644
--- a/serpent/src/front_end/stereo/match_filters.cpp
+++ b/serpent/src/front_end/stereo/match_filters.cpp
@@ -74,7 +74,7 @@ float StereoMatchFilter::vertical_pixel_threshold() const {
 
 StereoDistanceFilter::StereoDistanceFilter(
         const float fx, const float baseline, const float max_distance, const float min_distance)
-    : fx_b(fx * baseline), max_distance(max_distance), min_distance(min_distance) {}
+    : fx(fx), baseline(baseline), fx_b(fx * baseline), max_distance(max_distance), min_distance(min_distance) {}
 
 cv::Ptr<StereoDistanceFilter> StereoDistanceFilter::create(
         const float fx, const float baseline, const float max_distance, const float min_distance) {
-- 
2.43.0


From 6e00ff2b917d1ecdb3829d02a7c2c1e718556de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:37 +0000
Subject: [PATCH 08/37] fix: stereo_project divides by the depth of the point,
 not by a non-existent fourth coordinate

---
 .../include/serpent/front_end/stereo/stereo_equations-inl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp b/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
index 666eddf..3a3a338 100644
--- a/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
+++ b/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
@@ -21,13 +21,13 @@ Eigen::Matrix<Scalar, 3, 1> stereo_backproject(const Eigen::Matrix<Scalar, 3, 1>
 template<typename Scalar>
 Eigen::Matrix<Scalar, 3, 1> stereo_project(
         const Eigen::Matrix<Scalar, 3, 1>& point, const Eigen::Matrix<Scalar, 3, 3>& intrinsic, const Scalar baseline) {
-    if (point[3] <= 0.0) {
+    if (point[2] <= 0.0) {
         throw std::runtime_error("Point is on or behind the image plane - cannot project onto plane.");
     }
     return Eigen::Matrix<Scalar, 3, 1>{intrinsic(0, 2), intrinsic(0, 2), intrinsic(1, 2)} +
            Eigen::Matrix<Scalar, 3, 1>{
                    intrinsic(0, 0) * point[0], intrinsic(0, 0) * (point[0] - baseline), intrinsic(1, 1) * point[1]} /
-                   point[3];
+                   point[2];
 }
 
 }
-- 
2.43.0


From cc505f761ed7494d537335d186aa34933eccf286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:37 +0000
Subject: [PATCH 09/37] fix: the ratio test compares against the second-best
 candidate wherever it is encountered

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 65cece7..50742da 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -69,6 +69,8 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
             second_cost = cost;
             cost = window_cost;
             min_cost_top_left_x = search_image_top_left.x;
+        } else if (window_cost < second_cost) {
+            second_cost = window_cost;
         }
         search_image_top_left.x += increment;
     }
@@ -153,6 +155,8 @@ int StereoKeyPointMatcher::keypoint_index_in_other_image(const cv::KeyPoint& ima
                     second_cost = cost;
                     cost = window_cost;
                     min_cost_index = i;
+                } else if (window_cost < second_cost) {
+                    second_cost = window_cost;
                 }
             }
         }
-- 
2.43.0


From 7877ac1a488aed89fc3e62a148c777c99976548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:37 +0000
Subject: [PATCH 10/37] fix: a keypoint whose window leaves the image is
 reported as unmatched instead of leaving the result unset

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 50742da..6890b9b 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -49,6 +49,8 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
 
     // Validity check
     if (!window_within_image(reference_image, reference_image_top_left, window)) {
+        cost = std::numeric_limits<double>::max();
+        matched = false;
         return cv::KeyPoint{};
     }
 
-- 
2.43.0


From ba6bf057cad24fafa7bfde3de210f2d9e45d1ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:37 +0000
Subject: [PATCH 11/37] fix: the reverse search evaluates each window with its
 own mean or energy, not that of the original window

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 6890b9b..1b0b785 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -83,7 +83,9 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
         cv::Point2i reverse_reference_image_top_left = search_image_top_left;
         while ((!find_in_right && reverse_reference_image_top_left.x >= 0) ||
                 (find_in_right && reverse_reference_image_top_left.x <= left_image.cols - window.width)) {
-            const double window_cost = cost_function(
+            const MatchingCostFunction reverse_cost_function =
+                    generate_cost_function(reference_image, reverse_reference_image_top_left);
+            const double window_cost = reverse_cost_function(
                     reference_image, search_image, reverse_reference_image_top_left, search_image_top_left, window);
             if (reverse_reference_image_top_left.x != reference_image_top_left.x && window_cost < cost) {
                 matched = false;
-- 
2.43.0


From 17418e12e2a65c3beea012c335b3fb6ce2aad912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:52 +0000
Subject: [PATCH 12/37] fix: registration correspondences name source points by
 cloud index, not by position in the indices

---
 .../include/pointcloud_tools/impl/registration_utilities.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
index 9d69c02..a380697 100644
--- a/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
@@ -32,7 +32,8 @@ pcl::CorrespondencesPtr compute_registration_correspondences(
             }
         }
     } else {
-        const std::size_t source_size = registration.getIndices()->size();  // Use indices size
+        const auto source_indices = registration.getIndices();
+        const std::size_t source_size = source_indices->size();  // Use indices size
         const auto search = registration.getSearchMethodTarget();
         pcl::Indices index(1);
         std::vector<float> sq_dist(1);
@@ -41,7 +42,7 @@ pcl::CorrespondencesPtr compute_registration_correspondences(
             // Search for transformed point: p_{T} = T_{T}^{S} * p_{S}
             source_point.getVector4fMap() = transform * registration[i].getVector4fMap();  // Source point from indices
             if (search->nearestKSearch(source_point, 1, index, sq_dist) == 1 && sq_dist[0] <= max_sq_dist) {
-                correspondences->emplace_back(i, index[0], std::sqrt(sq_dist[0]));
+                correspondences->emplace_back((*source_indices)[i], index[0], std::sqrt(sq_dist[0]));
             }
         }
     }
-- 
2.43.0


From 1c812fcb9c7d064c92b5f379f43a9829d1897516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:33 +0000
Subject: [PATCH 13/37] fix: writing a matrix into a reused Float64MultiArray
 replaces its dimensions instead of appending to them

---
 eigen_ros/include/eigen_ros/std_msgs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eigen_ros/include/eigen_ros/std_msgs.hpp b/eigen_ros/include/eigen_ros/std_msgs.hpp
index d62221c..8e8b750 100644
--- a/eigen_ros/include/eigen_ros/std_msgs.hpp
+++ b/eigen_ros/include/eigen_ros/std_msgs.hpp
@@ -46,6 +46,7 @@ void to_ros(std_msgs::Float64MultiArray& msg, const Eigen::MatrixBase<Derived>&
         }
     }
     msg.layout.data_offset = 0;
+    msg.layout.dim.clear();
     std_msgs::MultiArrayDimension row_dim;
     row_dim.label = "rows";
     row_dim.size = rows;
-- 
2.43.0


From 8ddd71e70302d28909817686efeaeb78590c99d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:33 +0000
Subject: [PATCH 14/37] fix: tracker statistics are complete on the first frame
 and list only the current match ids

---
 .../front_end/stereo/stereo_feature_tracker.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
index 5a5cf07..8e761e4 100644
--- a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
+++ b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
@@ -101,10 +101,6 @@ StereoFeatureTracker::LRKeyPointMatches StereoFeatureTracker::process(const cv::
         LRF2FMatches f2f_matches;
         new_track_hypotheses = track_previous_keypoints(images, all_sof_keypoints, f2f_matches);
         ROS_DEBUG_STREAM("Tracked previous keypoints");
-        if (stats) {
-            stats->get().tracked_kp_count[0] = new_track_hypotheses.keypoints[0].size();
-            stats->get().tracked_kp_count[1] = new_track_hypotheses.keypoints[1].size();
-        }
         if (intermediate_images) {
             for (std::size_t lr = 0; lr < 2; ++lr) {
                 cv::drawMatches(previous_images[lr], previous_track_data.keypoints[lr], images[lr],
@@ -119,9 +115,12 @@ StereoFeatureTracker::LRKeyPointMatches StereoFeatureTracker::process(const cv::
             new_keypoints[lr] = remove_close_keypoints(new_keypoints[lr], new_track_hypotheses.keypoints[lr]);
             ROS_DEBUG_STREAM("Removed keypoints close to already tracked keypoints in the "
                              << (lr == 0 ? "left" : "right") << " frame");
-            if (stats) {
-                stats->get().filtered_extracted_kp_count[lr] = new_keypoints[lr].size();
-            }
+        }
+    }
+    if (stats) {
+        for (std::size_t lr = 0; lr < 2; ++lr) {
+            stats->get().tracked_kp_count[lr] = new_track_hypotheses.keypoints[lr].size();
+            stats->get().filtered_extracted_kp_count[lr] = new_keypoints[lr].size();
         }
     }
 
@@ -207,9 +206,7 @@ StereoFeatureTracker::LRKeyPointMatches StereoFeatureTracker::process(const cv::
     if (stats) {
         stats->get().max_match_id = next_match_id - 1;
         stats->get().total_match_count = previous_track_data.matches.size();
-        for (const int match_id : previous_track_data.match_ids) {
-            stats->get().match_ids.push_back(match_id);
-        }
+        stats->get().match_ids = previous_track_data.match_ids;
     }
 
     // Update the images
-- 
2.43.0


From bfe95e783c9b2d34cbe6b1733f3bcb2de798f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 15/37] fix: pclpointcloud2_utilities header compiles (no
 redefined default template arguments, matching polar_coordinates declaration)

---
 .../impl/pclpointcloud2_utilities.hpp         | 24 +++++++++----------
 .../pclpointcloud2_utilities.hpp              |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
index a82ea62..c12ec40 100644
--- a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
@@ -603,13 +603,13 @@ inline T max(const pcl::PCLPointCloud2& pointcloud, const std::string& field_nam
     return max<T>(pointcloud, get_field(pointcloud, field_name));
 }
 
-template<typename T = double>
+template<typename T>
 inline T mean(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field) {
     const double mean_ = static_cast<double>(sum<T>(pointcloud, field)) / static_cast<double>(size_points(pointcloud));
     return static_cast<T>(mean_);
 }
 
-template<typename T = double>
+template<typename T>
 inline T mean(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name) {
     return mean<T>(pointcloud, get_field(pointcloud, field_name));
 }
@@ -648,7 +648,7 @@ void scale_and_cast_field(pcl::PCLPointCloud2& pointcloud, const std::string& na
     return scale_and_cast_field<type>(pointcloud, name, scale);
 }
 
-template<typename T = float>
+template<typename T>
 Eigen::Matrix<T, 3, Eigen::Dynamic> polar_coordinates(const pcl::PCLPointCloud2& pointcloud) {
     auto get_x_field_data = create_get_field_data_function<T>(get_field(pointcloud, "x"));
     auto get_y_field_data = create_get_field_data_function<T>(get_field(pointcloud, "y"));
@@ -669,22 +669,22 @@ void set_field_data(pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& f
     return create_set_field_data_function<InT>(field)(pointcloud, i, value);
 }
 
-template<typename T = double>
+template<typename T>
 T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field, const double mean) {
     return static_cast<T>(std::sqrt(variance<double>(pointcloud, field, mean)));
 }
 
-template<typename T = double>
+template<typename T>
 inline T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field) {
     return standard_deviation<T>(pointcloud, field, mean<double>(pointcloud, field));
 }
 
-template<typename T = double>
+template<typename T>
 inline T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name, const double mean) {
     return standard_deviation<T>(pointcloud, get_field(pointcloud, field_name), mean);
 }
 
-template<typename T = double>
+template<typename T>
 inline T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name) {
     return standard_deviation<T>(pointcloud, get_field(pointcloud, field_name));
 }
@@ -705,7 +705,7 @@ inline T sum(const pcl::PCLPointCloud2& pointcloud, const std::string& field_nam
     return sum<T>(pointcloud, get_field(pointcloud, field_name));
 }
 
-template<typename T = float>
+template<typename T>
 Eigen::Matrix<T, 3, Eigen::Dynamic> unit_vectors(const pcl::PCLPointCloud2& pointcloud) {
     auto convert_x_field_data = create_get_field_data_function<T>(get_field(pointcloud, "x"));
     auto convert_y_field_data = create_get_field_data_function<T>(get_field(pointcloud, "y"));
@@ -720,7 +720,7 @@ Eigen::Matrix<T, 3, Eigen::Dynamic> unit_vectors(const pcl::PCLPointCloud2& poin
     return unit_vectors;
 }
 
-template<typename T = double>
+template<typename T>
 T variance(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field, const double mean) {
     double square_residuals_sum_{0.0};
     auto get_field_data = create_get_field_data_function<double>(field);
@@ -732,17 +732,17 @@ T variance(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& fiel
     return static_cast<T>(square_residuals_sum_);
 }
 
-template<typename T = double>
+template<typename T>
 inline T variance(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field) {
     return variance(pointcloud, field, mean<double>(pointcloud, field));
 }
 
-template<typename T = double>
+template<typename T>
 inline T variance(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name, const double mean) {
     return variance<T>(pointcloud, get_field(pointcloud, field_name), mean);
 }
 
-template<typename T = double>
+template<typename T>
 inline T variance(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name) {
     return variance<T>(pointcloud, get_field(pointcloud, field_name));
 }
diff --git a/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp
index 4d0875c..631e455 100644
--- a/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp
@@ -269,7 +269,7 @@ void resize(pcl::PCLPointCloud2& pointcloud, const std::uint32_t width, const st
 std::uint32_t row_step(const pcl::PCLPointCloud2& pointcloud);
 
 template<typename T = float>
-std::vector<Eigen::Matrix<T, 3, 1>> polar_coordinates(const pcl::PCLPointCloud2& pointcloud);
+Eigen::Matrix<T, 3, Eigen::Dynamic> polar_coordinates(const pcl::PCLPointCloud2& pointcloud);
 
 void scale_field(pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field, const double scale);
 
-- 
2.43.0


From 0522bf7dc650657131068701d3541adf606e1b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 16/37] fix: add_fields no longer writes past the new cloud
 when records end with padding

---
 pointcloud_tools/src/pclpointcloud2_utilities.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointcloud_tools/src/pclpointcloud2_utilities.cpp b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
index 68aa608..4c660e7 100644
--- a/pointcloud_tools/src/pclpointcloud2_utilities.cpp
+++ b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
@@ -4,6 +4,7 @@
 #include <pcl/common/io.h>
 #include <pcl_conversions/pcl_conversions.h>
 
+#include <algorithm>
 #include <eigen_ext/geometry.hpp>
 #include <sstream>
 
@@ -33,7 +34,7 @@ pcl::PCLPointCloud2 add_fields(const pcl::PCLPointCloud2& src, const std::vector
     dest.data.resize(size_bytes(dest));
     dest.is_dense = src.is_dense;
     for (std::size_t i = 0, j = 0; i < dest.data.size(); i += dest.point_step, j += src.point_step) {
-        std::memcpy(&dest.data[i], &src.data[j], src.point_step);
+        std::memcpy(&dest.data[i], &src.data[j], std::min(src.point_step, dest.point_step));
     }
     return dest;
 }
-- 
2.43.0


From 105e0d1cceb3ac0ce72f095636ddc70188dd408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 17/37] fix: deskewing to a time before the sweep no longer
 wraps around the unsigned stamp difference

---
 pointcloud_tools/src/pclpointcloud2_utilities.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointcloud_tools/src/pclpointcloud2_utilities.cpp b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
index 4c660e7..b378dd5 100644
--- a/pointcloud_tools/src/pclpointcloud2_utilities.cpp
+++ b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
@@ -130,7 +130,8 @@ void deskew(const Eigen::Isometry3d& skew, const double dt, const std::uint64_t
         const Eigen::Quaterniond skew_quaternion = Eigen::Quaterniond(skew.rotation());
 
         // Compute required quantities
-        const double new_time_seconds = static_cast<double>(new_time - src.header.stamp) / 1.0e6;  // us to s
+        const double new_time_seconds =
+                static_cast<double>(static_cast<std::int64_t>(new_time - src.header.stamp)) / 1.0e6;  // us to s
         const double new_time_fraction = new_time_seconds / dt;
         const Eigen::Vector3d new_time_translation = new_time_fraction * skew_translation;
         const Eigen::Quaterniond new_time_quaternion =
-- 
2.43.0


From 213f3db2230d138d8347f26736a01fe87c2f4b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:36 +0000
Subject: [PATCH 18/37] fix: rotation components missing from a body frame's
 configuration take their documented defaults

---
 eigen_ros/src/body_frames.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/eigen_ros/src/body_frames.cpp b/eigen_ros/src/body_frames.cpp
index 20d847e..46854f0 100644
--- a/eigen_ros/src/body_frames.cpp
+++ b/eigen_ros/src/body_frames.cpp
@@ -230,10 +230,18 @@ Eigen::Isometry3d BodyFrames::transform_from_node(const XmlRpc::XmlRpcValue& nod
         Eigen::Quaterniond rotation = Eigen::Quaterniond::Identity();
         if (node.hasMember("rotation")) {
             XmlRpc::XmlRpcValue rotation_node = node["rotation"];
-            rotation.w() = rotation_node["w"];
-            rotation.x() = rotation_node["x"];
-            rotation.y() = rotation_node["y"];
-            rotation.z() = rotation_node["z"];
+            if (rotation_node.hasMember("w")) {
+                rotation.w() = rotation_node["w"];
+            }
+            if (rotation_node.hasMember("x")) {
+                rotation.x() = rotation_node["x"];
+            }
+            if (rotation_node.hasMember("y")) {
+                rotation.y() = rotation_node["y"];
+            }
+            if (rotation_node.hasMember("z")) {
+                rotation.z() = rotation_node["z"];
+            }
         }
         rotation.normalize();
         transform = eigen_ext::to_transform(translation, rotation);
-- 
2.43.0


From 6c497cb1f4a52f88aa4cffde9a8e88277c7c36fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:36 +0000
Subject: [PATCH 19/37] fix: dynamic body frames are no longer looked up once
 and published as static transforms

---
 eigen_ros/src/body_frames_tf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eigen_ros/src/body_frames_tf.cpp b/eigen_ros/src/body_frames_tf.cpp
index 09fcddf..12aef58 100644
--- a/eigen_ros/src/body_frames_tf.cpp
+++ b/eigen_ros/src/body_frames_tf.cpp
@@ -12,7 +12,8 @@ BodyFramesTf::BodyFramesTf(const std::string& node_namespace)
     std::vector<geometry_msgs::TransformStamped> transforms;
     for (const std::string& frame : body_frames.frames()) {
         const std::string frame_id = body_frames.frame_id(frame);
-        if (frame_id != body_frames.body_frame_id() && !body_frames.lookedup_tf(frame)) {
+        if (frame_id != body_frames.body_frame_id() && !body_frames.lookedup_tf(frame) &&
+                !body_frames.is_dynamic(frame)) {
             geometry_msgs::TransformStamped transform;
             transform.header.stamp = ros::Time(0);
             transform.header.frame_id = body_frames.body_frame_id();
-- 
2.43.0


From 4a3f4ed280375f9d0acadb7d2ad86bd5283f65c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:17 +0000
Subject: [PATCH 20/37] fix: preintegration no longer integrates empty
 intervals, which GTSAM refuses, when measurements share a stamp or fall on
 the end

---
 serpent/src/utils/utilities.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/serpent/src/utils/utilities.cpp b/serpent/src/utils/utilities.cpp
index 896fa96..5c92e0a 100644
--- a/serpent/src/utils/utilities.cpp
+++ b/serpent/src/utils/utilities.cpp
@@ -35,13 +35,13 @@ void integrate_imu(gtsam::PreintegratedCombinedMeasurements& preint, const std::
 
     ros::Time integration_time = start;
     for (auto it = buffer.cbegin(); it != buffer.cend(); ++it) {
-        // Ignore imu messages past end
-        if (it->timestamp > end) {
+        // Ignore imu messages at or past end (there is nothing left to integrate)
+        if (it->timestamp >= end) {
             break;
         }
-        // If the next timestamp is after start time, we integrate
+        // If the next timestamp is after what has been integrated so far, we integrate
         auto next_it = std::next(it);
-        if (next_it == buffer.cend() || next_it->timestamp > start) {
+        if (next_it == buffer.cend() || next_it->timestamp > integration_time) {
             // Integrate from the current imu timestamp (integration_time_end) to the next imu timestamp. Account for
             // the cases where the last imu buffer message is before or after end.
             const ros::Time integration_time_end = (next_it == buffer.cend()) ? end : std::min(next_it->timestamp, end);
-- 
2.43.0


From b605a740cf133f15fbccced053e12ddda1972e8a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:05:14 +0000
Subject: [PATCH 21/37] fix: statistical outlier removal reads its parameters
 from the documented namespace

---
 serpent/src/front_end/lidar/pointcloud_filter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/lidar/pointcloud_filter.cpp b/serpent/src/front_end/lidar/pointcloud_filter.cpp
index c3b593a..045c821 100644
--- a/serpent/src/front_end/lidar/pointcloud_filter.cpp
+++ b/serpent/src/front_end/lidar/pointcloud_filter.cpp
@@ -70,8 +70,8 @@ PointcloudFilter::PointcloudFilter(std::string input_topic)
     // Statistical Outlier Removal filter
     output_topic = random_sample_enabled ? "filter/sor_filtered_pointcloud" : final_output_topic;
     if (sor_enabled) {
-        sor_filter.setMeanK(nh.param<int>("statistical_outlier_removal_filter/mean_k", 1));
-        sor_filter.setStddevMulThresh(nh.param<double>("statistical_outlier_removal_filter/stddev_mul_thresh", 0.0));
+        sor_filter.setMeanK(nh.param<int>("statistical_outlier_removal/mean_k", 1));
+        sor_filter.setStddevMulThresh(nh.param<double>("statistical_outlier_removal/stddev_mul_thresh", 0.0));
         statistical_outlier_pointcloud_publisher = nh.advertise<pcl::PCLPointCloud2>(output_topic, 1);
         statistical_outlier_pointcloud_subscriber = nh.subscribe<pcl::PCLPointCloud2>(
                 input_topic, 100, &PointcloudFilter::statistical_outlier_callback, this);
-- 
2.43.0


From 0b926753fbf90f1fb01ee2887acb6113c6d3272c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:05:14 +0000
Subject: [PATCH 22/37] fix: the body filter removes the points within the body
 region instead of keeping only those

---
 serpent/src/front_end/lidar/pointcloud_filter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serpent/src/front_end/lidar/pointcloud_filter.cpp b/serpent/src/front_end/lidar/pointcloud_filter.cpp
index 045c821..f400b66 100644
--- a/serpent/src/front_end/lidar/pointcloud_filter.cpp
+++ b/serpent/src/front_end/lidar/pointcloud_filter.cpp
@@ -41,6 +41,7 @@ PointcloudFilter::PointcloudFilter(std::string input_topic)
     output_topic = (random_sample_enabled || sor_enabled || range_filter_enabled) ? "filter/body_filtered_pointcloud"
                                                                                   : final_output_topic;
     if (body_filter_enabled) {
+        body_filter.setNegative(true);  // Remove the points within the body region
         body_filter.setMin(Eigen::Vector4f(nh.param<float>("body_filter/min/x", 0.f),
                 nh.param<float>("body_filter/min/y", 0.f), nh.param<float>("body_filter/min/z", 0.f), 1.f));
         body_filter.setMax(Eigen::Vector4f(nh.param<float>("body_filter/max/x", 0.f),
-- 
2.43.0


From ea482c3f5eeb05978477a99f6295584f473ccc46 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:13:57 +0000
Subject: [PATCH 23/37] fix: publish_info.hpp has an include guard of its own

---
 camera_tools/include/camera_tools/publish_info.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/camera_tools/include/camera_tools/publish_info.hpp b/camera_tools/include/camera_tools/publish_info.hpp
index d057a71..089306a 100644
--- a/camera_tools/include/camera_tools/publish_info.hpp
+++ b/camera_tools/include/camera_tools/publish_info.hpp
@@ -1,5 +1,5 @@
-#ifndef CAMERA_TOOLS_SPLIT_IMAGE_HPP
-#define CAMERA_TOOLS_SPLIT_IMAGE_HPP
+#ifndef CAMERA_TOOLS_PUBLISH_INFO_HPP
+#define CAMERA_TOOLS_PUBLISH_INFO_HPP
 
 #include <ros/ros.h>
 #include <sensor_msgs/CameraInfo.h>
-- 
2.43.0


From e788a0ea58c7bcf3c08712b7bc70e233d7c08422 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:13:57 +0000
Subject: [PATCH 24/37] fix: rotations by angles that are no multiple of 90
 degrees are refused instead of left uninitialised

---
 camera_tools/src/image_operations.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/camera_tools/src/image_operations.cpp b/camera_tools/src/image_operations.cpp
index 3eacaec..0348a7b 100644
--- a/camera_tools/src/image_operations.cpp
+++ b/camera_tools/src/image_operations.cpp
@@ -18,6 +18,8 @@ Rotate::Rotate(int degrees_clockwise) {
         option = cv::RotateFlags::ROTATE_180;
     } else if (degrees_clockwise == 270) {
         option = cv::RotateFlags::ROTATE_90_COUNTERCLOCKWISE;
+    } else {
+        throw std::runtime_error("Rotate degrees_clockwise must be a multiple of 90");
     }
 }
 
-- 
2.43.0


From 804616ab9df673e3a78090b165926f0e8043f43d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:13:57 +0000
Subject: [PATCH 25/37] fix: the type of an image's operations is checked
 before they are read as a struct

---
 camera_tools/src/split_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/camera_tools/src/split_image.cpp b/camera_tools/src/split_image.cpp
index 33fbef4..44cd65b 100644
--- a/camera_tools/src/split_image.cpp
+++ b/camera_tools/src/split_image.cpp
@@ -58,7 +58,7 @@ void ImageSplitter::parse_configuration() {
                 .camera_info = camera_info});
         if (image.hasMember("operations")) {
             XmlRpc::XmlRpcValue operations = image["operations"];
-            if (region.getType() != XmlRpc::XmlRpcValue::TypeStruct) {
+            if (operations.getType() != XmlRpc::XmlRpcValue::TypeStruct) {
                 throw std::runtime_error("operations for images[" + std::to_string(i) + "] was not a struct");
             }
             for (XmlRpc::XmlRpcValue::const_iterator it = operations.begin(); it != operations.end(); ++it) {
-- 
2.43.0


From 9595ac65d692a14452ddd2fc86b29408c9269a65 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:13:57 +0000
Subject: [PATCH 26/37] fix: the documented rotations by 0 degrees are accepted

---
 camera_tools/src/split_image.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/camera_tools/src/split_image.cpp b/camera_tools/src/split_image.cpp
index 44cd65b..e09550d 100644
--- a/camera_tools/src/split_image.cpp
+++ b/camera_tools/src/split_image.cpp
@@ -62,11 +62,12 @@ void ImageSplitter::parse_configuration() {
                 throw std::runtime_error("operations for images[" + std::to_string(i) + "] was not a struct");
             }
             for (XmlRpc::XmlRpcValue::const_iterator it = operations.begin(); it != operations.end(); ++it) {
-                if (it->first == "rotate_cw") {
-                    image_configs.back().operations.emplace_back(std::make_shared<Rotate>(it->second));
-                } else if (it->first == "rotate_acw") {
-                    image_configs.back().operations.emplace_back(
-                            std::make_shared<Rotate>((360 - (int)it->second) % 360));
+                if (it->first == "rotate_cw" || it->first == "rotate_acw") {
+                    const int degrees = it->second;
+                    const int degrees_clockwise = (it->first == "rotate_cw" ? degrees : 360 - degrees) % 360;
+                    if (degrees_clockwise != 0) {  // A rotation of 0 leaves the image as it is
+                        image_configs.back().operations.emplace_back(std::make_shared<Rotate>(degrees_clockwise));
+                    }
                 } else if (it->first == "flip") {
                     const std::string flip_direction = it->second;
                     if (flip_direction == "horiz") {
-- 
2.43.0


From 05ecc8615a479e3cb4ddfee02d0ac01c01437f7e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 27/37] fix: a range of values starting at a key without
 landmarks includes the landmarks of later keys

---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 5deb41e..9f62daa 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -467,7 +467,7 @@ gtsam::Values GraphManager::values(const int first, const int last) const {
     add_values(extracted_values, values_, V(first), V(last));
     add_values(extracted_values, values_, P(first), P(last));
     // Iterate over (ordered) map of stereo landmark ids
-    auto it = stereo_landmark_ids.find(first);
+    auto it = stereo_landmark_ids.lower_bound(first);
     while (it != stereo_landmark_ids.end() && it->first <= last) {
         for (const int id : it->second) {
             extracted_values.insert(S(id), values_.at(S(id)));
-- 
2.43.0


From 0b7b7ec51184f098c59e39260bb06a120f69bcd2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 28/37] fix: the first stereo factor of a feature links the
 frame it was seen in when keys are missed

---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 9f62daa..7b9e0f1 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -168,7 +168,7 @@ void GraphManager::create_stereo_factors_and_values(
                         features_im2->second.find(id) == features_im2->second.end()) {
                     // Previous state factor
                     auto stereo_factor = boost::make_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(
-                            features_im1->second.at(id), stereo_noise_model, X(key_ - 1), S(id), K,
+                            features_im1->second.at(id), stereo_noise_model, X(features_im1->first), S(id), K,
                             body_to_stereo_left_cam);
                     factors__.push_back(stereo_factor);
                     new_factors__.push_back(stereo_factor);
-- 
2.43.0


From c8e8e0af509b3d34b38bff3d8a4e429308cb5a38 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:09:22 +0000
Subject: [PATCH 29/37] fix: registrations with a valid covariance are accepted
 and invalid ones refused

---
 serpent/src/back_end/optimisation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index a834845..2617ad6 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -273,8 +273,9 @@ void Optimisation::add_registration_factor(const geometry_msgs::PoseWithCovarian
     const gtsam::Pose3 registration_pose_gtsam =
             gtsam::Pose3(gtsam::Rot3(registration_pose.data.orientation), registration_pose.data.position);
 
-    // Check if valid covariance matrix
-    if (eigen_ext::is_valid_covariance(registration_pose.data.covariance)) {
+    // Check if valid covariance matrix (its symmetry up to rounding errors)
+    if (!eigen_ext::is_valid_covariance(registration_pose.data.covariance,
+                1.0e-9 * registration_pose.data.covariance.cwiseAbs().maxCoeff())) {
         ROS_ERROR_STREAM("Registration covariance is invalid:\n" << registration_pose.data.covariance);
         throw std::runtime_error("Covariance matrix is not valid.");
     }
-- 
2.43.0


From b2952fac130acb7f1c885d6b4896f1ea9ad90307 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:09:47 +0000
Subject: [PATCH 30/37] fix: callbacks that stop waiting at shutdown release
 their lock

---
 serpent/src/back_end/optimisation.cpp | 3 +++
 serpent/src/front_end/frontend.cpp    | 1 +
 2 files changed, 4 insertions(+)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index 2617ad6..24726ff 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -346,6 +346,7 @@ void Optimisation::barometer_callback(const sensor_msgs::FluidPressure::ConstPtr
             }
             return !gm->has_pose("barometer") || gm->timestamp("barometer") < pressure->header.stamp;
         })) {
+        graph_mutex.unlock();
         return;
     };
     if (gm->timestamp("barometer") != pressure->header.stamp) {
@@ -404,6 +405,7 @@ void Optimisation::imu_s2s_callback(const serpent::ImuArray::ConstPtr& msg) {
                                                << ")  to catch up (key = " << gm->key("imu") << ", t = "
                                                << gm->timestamp("imu") << "). SERPENT may be running slow.");
     if (!protected_sleep(graph_mutex, 0.01, true, true, [this]() { return gm->opt_key() != gm->key("imu"); })) {
+        graph_mutex.unlock();
         return;
     };
 
@@ -725,6 +727,7 @@ void Optimisation::stereo_features_callback(const serpent::StereoFeatures::Const
         ROS_INFO_STREAM_COND(
                 !gm->has_pose("stereo", 1), "Waiting for pose at key " << gm->key("stereo", 1) << " to be set.");
         if (!protected_sleep(graph_mutex, 0.01, true, true, [this]() { return !gm->has_pose("stereo", 1); })) {
+            graph_mutex.unlock();
             return;
         };
 
diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 6de34bc..f358e49 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -358,6 +358,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
                     }
                     return stereo_buffer.empty();
                 })) {
+                stereo_data_mutex.unlock();
                 return;
             };
 
-- 
2.43.0


From 4ce6752c31646eda9f6c468124203aca148f547d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:09:47 +0000
Subject: [PATCH 31/37] fix: the motion during a sweep is converted from the
 body to the lidar frame, not the inverse

---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index f358e49..2a467c5 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -497,7 +497,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
                 eigen_gtsam::to_eigen<Eigen::Isometry3d>(previous_pointcloud_end_state.pose());
 
         // Transform skew_transform from body frame into lidar frame
-        skew_transform = eigen_ext::change_relative_transform_frame(skew_transform, body_frames.body_to_frame("lidar"));
+        skew_transform = eigen_ext::change_relative_transform_frame(skew_transform, body_frames.frame_to_body("lidar"));
 
         // Deskew configuration
         skew_transform = eigen_ext::to_transform(
-- 
2.43.0


From 036ffb6bd45cad043a13e99288f96be95bbb29e0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:09:48 +0000
Subject: [PATCH 32/37] fix: the gyroscope bias is subtracted from the measured
 angular velocity

---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 2a467c5..e845b19 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -236,7 +236,7 @@ void Frontend::imu_callback(const sensor_msgs::Imu::ConstPtr& msg) {
         ROS_WARN_ONCE("TODO FIX: angular velocity must be converted from IMU frame to body frame - is this even "
                       "possible? A rotation may be a good approximation.");
         const Eigen::Vector3d angular_velocity =
-                body_frames.body_to_frame("imu").rotation() * (imu.angular_velocity + imu_biases.gyroscope());
+                body_frames.body_to_frame("imu").rotation() * (imu.angular_velocity - imu_biases.gyroscope());
 
         // Publish current state as odometry output
         auto odometry = boost::make_shared<nav_msgs::Odometry>();
-- 
2.43.0


From 0b9f7467871c9e1fef6a88177bb3458bd5c2840f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:09:48 +0000
Subject: [PATCH 33/37] fix: a new state before any barometer measurement does
 not read an empty buffer

---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index e845b19..490389a 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -160,7 +160,7 @@ void Frontend::barometer_callback(const sensor_msgs::FluidPressure::ConstPtr& pr
 }
 
 void Frontend::barometer_try_publish() {
-    if (!barometer_timestamp_buffer.empty()) {
+    if (!barometer_timestamp_buffer.empty() && !barometer_buffer.empty()) {
         // Special case (first measurement) where barometer data might not preceded first state timestamp
         if (barometer_buffer.front()->header.stamp > barometer_timestamp_buffer.front()) {
             ROS_WARN_STREAM("No barometer measurement prior to new state timestamp. Approximating with measurement "
-- 
2.43.0


From 50a83f6963c10cd48c823f8d82ebe74b7bcc4b6a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:09:36 +0000
Subject: [PATCH 34/37] fix: the front end compiles with Eigen 3.4 (operands of
 the deskew rotation have one type)

---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 490389a..41a2d85 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -502,7 +502,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         // Deskew configuration
         skew_transform = eigen_ext::to_transform(
                 (deskew_translation ? skew_transform.translation() : Eigen::Vector3d{0.0, 0.0, 0.0}),
-                (deskew_rotation ? skew_transform.rotation() : Eigen::Matrix3d::Identity()));
+                (deskew_rotation ? skew_transform.rotation() : Eigen::Matrix3d{Eigen::Matrix3d::Identity()}));
 
         // Deskew pointcloud
         pcl::PCLPointCloud2::Ptr deskewed_pointcloud = boost::make_shared<pcl::PCLPointCloud2>();
-- 
2.43.0


From fa98ad8daa4257c123ade68f4813f54ae293e023 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:18:38 +0000
Subject: [PATCH 35/37] fix: poses of the map are corrected when past frames
 are extracted (there is no pose cloud then)

---
 serpent/include/serpent/mapping/mapping-inl.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/serpent/include/serpent/mapping/mapping-inl.hpp b/serpent/include/serpent/mapping/mapping-inl.hpp
index 7dd2213..5424024 100644
--- a/serpent/include/serpent/mapping/mapping-inl.hpp
+++ b/serpent/include/serpent/mapping/mapping-inl.hpp
@@ -295,8 +295,10 @@ void Mapping<PointT>::update_map(const eigen_ros::PoseStamped& frame_pose_stampe
     auto it = map.find(frame_pose_stamped.timestamp);
     if (it != map.end()) {
         it->second.pose = frame_pose_stamped;
-        pose_cloud->at(pose_cloud_indices.at(it->second.pose.timestamp)) = PointAngleAxis{
-                frame_pose_stamped.data.position.cast<float>(), frame_pose_stamped.data.orientation.cast<float>()};
+        if (pose_cloud) {
+            pose_cloud->at(pose_cloud_indices.at(it->second.pose.timestamp)) = PointAngleAxis{
+                    frame_pose_stamped.data.position.cast<float>(), frame_pose_stamped.data.orientation.cast<float>()};
+        }
     }
 }
 
-- 
2.43.0


From 7c01a5eed9296cb3820dcad5c2c49accaf325d38 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:18:38 +0000
Subject: [PATCH 36/37] fix: the option for the global map decides whether the
 global map is downsampled

---
 serpent/include/serpent/mapping/mapping-inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/include/serpent/mapping/mapping-inl.hpp b/serpent/include/serpent/mapping/mapping-inl.hpp
index 5424024..caf4709 100644
--- a/serpent/include/serpent/mapping/mapping-inl.hpp
+++ b/serpent/include/serpent/mapping/mapping-inl.hpp
@@ -273,7 +273,7 @@ bool Mapping<PointT>::publish_map_service_callback(std_srvs::Empty::Request&, st
     }
 
     // Filtering/Downsampling
-    PointCloudPtr filtered_pointcloud = voxel_grid_enabled_local ? filter_pointcloud(pointcloud) : pointcloud;
+    PointCloudPtr filtered_pointcloud = voxel_grid_enabled_global ? filter_pointcloud(pointcloud) : pointcloud;
 
     // Publish
     global_map_publisher.publish(filtered_pointcloud);
-- 
2.43.0


From 05a80717547cec87f1dde7af39dc51564741b6ed Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:35:41 +0000
Subject: [PATCH 37/37] fix: the scan-to-map callback releases its lock when
 ROS stops

---
 serpent/include/serpent/front_end/lidar/registration-inl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serpent/include/serpent/front_end/lidar/registration-inl.hpp b/serpent/include/serpent/front_end/lidar/registration-inl.hpp
index cae8cbf..fd24f76 100644
--- a/serpent/include/serpent/front_end/lidar/registration-inl.hpp
+++ b/serpent/include/serpent/front_end/lidar/registration-inl.hpp
@@ -319,6 +319,7 @@ void Registration<PointT>::s2m_callback(const PointCloudConstPtr& map) {
     // Wait for S2S transform and pointcloud
     if (!protected_sleep(s2s_mutex, 0.01, false, true,
                 [this]() { return s2s_registrations.empty() || s2m_pointclouds.empty(); })) {
+        s2s_mutex.unlock();
         return;
     };
 
-- 
2.43.0

