# executed by catalogue.py: p(id, title, statement, over, quantifier text, why tests cannot, files, mechanism)
R = ["inputs"]
p("C01", "Relative poses and frame changes obey rigid-transform algebra",
  "The relative pose between two poses, applied to the first, always gives the second. Re-expressing a motion of one rigidly attached frame in another frame gives the motion that this other frame makes, for every motion and every mounting, and re-expressing it back or through an intermediate frame is consistent. Building a pose from a rotation and a translation keeps both unchanged.",
  R, "every pair of poses, every mounting transform", "tests try a handful of poses; a wrong inverse, order of multiplication or translation term only shows for poses with both rotation and translation in general position",
  [EE + "geometry.hpp"], [("relative_transform, change_relative_transform_frame, to_transform", EE + "geometry.hpp")])
p("C02", "Adjoint, twist and covariance frame changes use the exact adjoint of the pose",
  "The adjoint of a pose is block triangular with the rotation on the diagonal and the skew of the translation times rotation below, and the adjoint of a product is the product of adjoints. A twist or a pose covariance moved to another frame is the adjoint applied to it (on both sides for covariances), and a point covariance rotated by R becomes R C R-transposed.",
  R, "every pose, twist and covariance", "tests check single numeric examples, mostly with one non-zero component, where transposed or swapped blocks give the same numbers",
  [EE + "geometry.hpp"], [("transform_adjoint, change_twist_reference_frame, change_covariance_frame", EE + "geometry.hpp"), ("rotate_point_covariance", EE + "geometry.hpp")])
p("C03", "Covariance of composed poses is exact first-order propagation",
  "The covariance of the composition of two uncertain poses is the first covariance carried into the second pose's frame by the adjoint of the inverse relative pose, plus the second covariance, plus both cross terms when the poses are correlated. Composing three poses gives the same covariance whichever pair is composed first.",
  R, "every pair and triple of poses and covariances, with and without cross-covariance", "the existing tests compare few numeric cases; a transposed cross term or a missing inverse agrees for symmetric or rotation-free examples",
  [EE + "geometry.hpp"], [("compose_transform_covariance", EE + "geometry.hpp")])
p("C04", "Reordering a covariance swaps its two blocks exactly and can be undone",
  "Reordering a square matrix at a boundary moves the leading block of variables behind the trailing one, keeping every variance and every cross term between the same two variables. Reordering again at the complementary boundary restores the original matrix. A boundary outside the matrix or a matrix that is not square is rejected.",
  R, "every matrix, every size and boundary within the bounds, fixed and run-time sizes", "tests use one 6x6 split in the middle, where wrong block offsets or sizes are invisible",
  [EE + "covariance.hpp"], [("reorder_covariance", EE + "covariance.hpp")])
p("C05", "A matrix is accepted as a covariance exactly when symmetric positive definite",
  "A square matrix is reported as a valid covariance if and only if it is positive definite and entries mirrored over the diagonal differ by no more than the requested precision. Matrices with a NaN or infinite entry anywhere and non-square matrices are never reported valid.",
  R, "every matrix within the bounds", "validity depends on relations between all entries; sampled matrices do not reach the boundary between definite and indefinite",
  [EE + "covariance.hpp"], [("is_valid_covariance", EE + "covariance.hpp")])
p("C06", "Skew-symmetric conversion is the cross product and rejects everything else",
  "The skew matrix of a vector times any vector is their cross product, and converting it back recovers the vector. A matrix that differs from a skew-symmetric one in any entry by more than rounding is rejected instead of silently converted.",
  R, "every vector and every perturbed entry", "tests cover a few vectors and one malformed matrix",
  [EE + "matrix.hpp"], [("skew_symmetric, from_skew_symmetric", EE + "matrix.hpp")])
p("C07", "Normalisation and polar conversion are exact and reject only degenerate input",
  "Normalising a vector gives the unit vector along it, and exactly the zero vector is rejected. Converting a point to polar coordinates gives its range, the azimuth in [0, 2 pi) and the inclination from which the point can be recovered, and exactly the points on the vertical axis are rejected.",
  R, "every vector", "tests sample a few generic points; errors appear on axes, in particular quadrants or at the origin",
  [EE + "matrix.hpp", EE + "geometry.hpp"], [("safe_normalise", EE + "matrix.hpp"), ("cartesian_to_polar", EE + "geometry.hpp")])
p("C08", "Interpolation, linear rates and diagonal tests are exact",
  "Linear interpolation returns the end values at factors 0 and 1, is affine in the factor and stays between the end values for factors in between. The constant body-frame angular and linear rates reported for two poses, multiplied by the time step, are the rotation vector and translation of the relative pose, and exactly non-positive time steps are rejected. The diagonal test accepts exactly the matrices whose diagonal entries are all positive.",
  R, "every vector, matrix, factor, pose and time step within the bounds", "tests use one or two factors and one time step; frame mix-ups only show for rotated poses",
  [EE + "matrix.hpp", EE + "geometry.hpp"], [("linear_interpolate", EE + "matrix.hpp"), ("linear_rates", EE + "geometry.hpp")])
p("C09", "Precomputed rotation components match the rotation they are built from",
  "The precomputed angle, sine, cosine, rotation vector, rotation matrix and homogeneous matrix of a transform all describe the same transform as the rotation vector and translation, or the homogeneous matrix, it was built from. This holds for every rotation including the zero rotation.",
  R, "every rotation vector and rotation matrix in the bounds, every translation", "twelve interdependent numbers are derived from each rotation; tests compare one instance",
  [EE + "precomputed_transform_components.hpp"], [("PrecomputedTransformComponents", EE + "precomputed_transform_components.hpp")])
p("C11", "Transforming a cloud moves every attribute consistently",
  "Transforming a point cloud rotates and translates every finite point, rotates (never translates) normals and unit vectors, and turns every point covariance into R C R-transposed. Every other field and the cloud metadata are preserved, points without finite coordinates keep their fields, and the result is the same in place, into another cloud, and through every overload.",
  R, "every cloud within the size bound, every affine transform", "field and path combinations (dense or not, in place or not, scalar types) multiply; tests run a few",
  ["pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_transform.hpp", "serpent/include/serpent/front_end/lidar/impl/transform_pointcloud.hpp"], [("transform_pointcloud_with_normals_and_unit_vectors / _covariances", "pointcloud_tools/include/pointcloud_tools"), ("transform_pointcloud", "serpent/include/serpent")])
p("C13", "Normal checking and unit-vector extraction treat every point",
  "Checking a cloud's normals reports exactly how many have a length that differs from one by more than the threshold. Extracting unit vectors yields one column per point, in cloud order, holding that point's unit vector.",
  R, "every cloud within the size bound, every threshold", "tests use clouds whose normals are all valid",
  ["pointcloud_tools/include/pointcloud_tools/pclpointcloud_utilities.hpp"], [("check_normals, extract_unit_vectors", "pointcloud_tools/include/pointcloud_tools")])
p("C32", "Point types store and return exactly the geometry they were given",
  "A point's unit-vector outer product, covariance matrix and rotation are computed from exactly its stored fields; setting a covariance or pose and reading it back returns the same value. Copying a point keeps all of its fields.",
  R, "every field value", "field unions make index slips silent; tests check few fields",
  ["pointcloud_tools/include/pointcloud_tools/point_types.hpp", "pointcloud_tools/src/point_types.cpp"], [("PointNormalUnit, PointNormalCovariance, PointAngleAxis", "pointcloud_tools/src/point_types.cpp")])
SF = "serpent/src/front_end/stereo/"
SI = "serpent/include/serpent/front_end/stereo/"
p("C16", "Matching costs and window statistics equal their definitions for every image",
  "Window sums, means and energies cover exactly the pixels of the window, and a window counts as inside an image exactly when all of its pixels are. The five matching costs (absolute, squared, zero-mean absolute, locally scaled absolute difference and negative normalised correlation) equal their mathematical definitions for every pair of windows. Images that are not 8-bit are rejected.",
  R, "every pixel value, window size and window position within the image sizes of the bounds", "no existing test reaches these functions; offsets and stale accumulators depend on position, stride and stack contents",
  [SF + "window_functions.cpp", SF + "stereo_cost_functions.cpp"], [("window functions", SF + "window_functions.cpp"), ("cost functions", SF + "stereo_cost_functions.cpp")])
p("C17", "Stereo keypoint matching returns the best admissible candidate, then filters",
  "A keypoint is matched to the candidate with the lowest cost among those on the correct side, within the vertical threshold and with their window inside the image, and the reported cost is that candidate's. With bidirectional matching a match is kept only if matching back finds nothing better; with the ratio test only if its cost is below the ratio times the second-best cost or it is the only candidate. Keypoints whose window leaves the image are unmatched, one result is given per keypoint, and bad configurations and image sizes are rejected.",
  R, "every cost assignment, keypoint position, threshold, ratio, direction and filter within the bounds", "no existing test reaches the matcher; the outcome depends on the order in which candidate costs appear",
  [SF + "stereo_keypoint_matcher.cpp", SI + "stereo_keypoint_matcher.hpp"], [("StereoKeyPointMatcher", SF + "stereo_keypoint_matcher.cpp")])
p("C18", "Match filters keep exactly the matches that satisfy their condition",
  "The descriptor-distance, stereo-geometry and stereo-depth filters return exactly the matches that satisfy their documented condition, unchanged and in order, together with their positions in the input, independently of earlier calls. Changing a threshold, focal length or baseline takes effect on the next call and leaves the other parameters as configured.",
  ["inputs", "histories"], "every match list, keypoint position, threshold and parameter update within the bounds", "no existing test reaches the filters; stale indices and parameters only show after a second call or a setter",
  [SF + "match_filters.cpp", SI + "match_filters.hpp"], [("DistanceMatchFilter, StereoMatchFilter, StereoDistanceFilter", SF + "match_filters.cpp")])
p("C19", "Stereo projection and backprojection are inverse and reject bad geometry",
  "Backprojecting a stereo measurement gives the point on both rays with depth focal length times baseline over disparity, and projecting a point in front of the camera gives its pinhole coordinates in both images. Either operation undoes the other; exactly zero disparity and exactly points on or behind the image plane are rejected.",
  R, "every measurement, point, calibration and baseline within the bounds", "no existing test reaches these templates, which are not even instantiated by the build",
  [SI + "stereo_equations-inl.hpp"], [("stereo_backproject, stereo_project", SI + "stereo_equations-inl.hpp")])
p("C10", "Poses and rotations survive conversion to and from the optimiser's types",
  "Converting a pose or rotation to the optimiser's representation keeps rotation and translation exactly, and converting back returns the original homogeneous matrix. Every form of the conversion functions gives the same result.",
  R, "every rotation and translation within the bounds", "the conversion package has no tests at all",
  ["eigen_gtsam/src/geometry.cpp", "eigen_gtsam/include/eigen_gtsam/geometry.hpp", "eigen_gtsam/include/eigen_gtsam/eigen_gtsam.hpp"], [("to_gtsam, to_eigen", "eigen_gtsam/src/geometry.cpp")])
LC = "serpent/include/serpent/front_end/lidar/registration_covariance"
LI = LC + "-inl.hpp"
p("C21", "Registration cost derivatives are the exact second derivatives of the residual",
  "For each of the four registration models, the matrices returned for a correspondence are half the second derivatives of its squared residual with respect to the transformation (rotation vector, then translation), and with respect to transformation and both points, for the nonlinear models at every non-zero rotation. Processing a correspondence evaluates them at the coordinates and the target normal of that correspondence.",
  R, "every rotation vector, translation, point pair and normal within the bounds", "4000 lines of generated formulas are tested at a single numeric instance; a slip in one term can vanish there",
  [LI], [("compute_half_d2F_dx2, compute_half_d2F_dzdx, process_correspondence", LI)])
p("C22", "Censi and least-squares covariances are assembled exactly from correspondences",
  "With equal point noise, the Censi covariance is the variance times the inverse of the summed Hessian, times the mixed derivatives times their transpose, times that inverse; the least-squares covariance is the variance times that inverse. Exactly the correspondences within range contribute, each with its own points at the final transformation, and their number is reported.",
  R, "every set of correspondences, Hessians and mixed derivatives within the bounds", "the assembly has no test; block offsets and repeated or skipped correspondences are invisible without an independent sum",
  [LI], [("censi_iid_covariance, lls_iid_covariance", LI)])
p("C23", "Range-noise covariances use the noise along each point's own line of sight",
  "The range covariance uses, for every matched point, noise of the given variance along that point's unit vector and none between points. The range-bias covariance adds the bias variance along all stacked unit vectors jointly, with the range variance on the diagonal. Models without unit vectors are refused.",
  R, "every set of correspondences, unit vectors, variances, Hessians and mixed derivatives within the bounds", "the noise model has no test and mixes source and target blocks of a sparse matrix",
  [LI], [("censi_range_covariance, censi_range_bias_covariance", LI)])
p("C24", "Covariance options are named consistently and state their needs",
  "Every covariance method, model and point-noise option converts to its name and back, and every other name or value is refused. Unit vectors are required exactly when the covariance is estimated (Censi or least squares) and the point noise is along the range.",
  R, "every option, every misspelling and every out-of-range value within the bounds", "no test covers the option parsing",
  ["serpent/src/front_end/lidar/registration_covariance.cpp"], [("to_string, to_*, requires_unit_vectors", "serpent/src/front_end/lidar/registration_covariance.cpp")])
p("C25", "Registration correspondences are the in-range nearest pairs after alignment",
  "The correspondences of a finished registration are found by searching, for every selected source point moved by the final transformation (or, reciprocally, every target point moved back), its nearest point on the other side. A pair is kept exactly when one was found within the maximum distance; it names both points by their position in their clouds and carries their distance.",
  R, "every cloud, selection, final transformation, distance limit and search answer within the bounds", "no test uses a selection of source points or a rotated transformation; indices then agree by accident",
  ["pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp"], [("compute_registration_correspondences", "pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp")])
SFT = "serpent/src/front_end/stereo/stereo_feature_tracker.cpp"
p("C20", "Stereo tracks keep their identity over frames and are never mixed up",
  "For every image pair the tracker returns the tracks of the previous frame that were followed in both images and still pass the stereo and distance filters, in order and with their identities, followed by the new matches below the cost threshold that pass the distance filter, made only from detections farther than the feature distance from every tracked point. New identities are consecutive and never reused. The statistics describe exactly these results.",
  ["histories"], "every answer of the detector, optical flow and stereo matcher over the frames within the bounds", "needs several frames in which some tracks are lost, filtered or too close to new detections; the tracker has no test",
  [SFT, "serpent/include/serpent/front_end/stereo/stereo_feature_tracker.hpp"], [("StereoFeatureTracker::process", SFT)])
ER = "eigen_ros/"
p("C30", "Messages and Eigen types convert without loss, in each side's block order",
  "Poses, twists, odometry, inertial measurements, headers, arrays and covariances written to a message and read back are unchanged, also when the message is reused. Messages store position or linear entries first and the library rotation or angular entries first, and covariances are permuted accordingly; matrices are stored by rows. Matrices that are not square and messages whose sizes contradict each other are rejected.",
  R, "every value of every field, every matrix size within the bounds", "the message conversions have no test in this build; a transposed or swapped block is invisible for symmetric or zero entries",
  [ER + "src/" + n for n in ("geometry_msgs.cpp", "nav_msgs.cpp", "sensor_msgs.cpp", "std_msgs.cpp", "statistics_msgs.cpp", "pose.cpp")] + [ER + "include/eigen_ros/std_msgs.hpp"], [("to_ros, from_ros", ER + "src/geometry_msgs.cpp"), ("apply_transform, Pose", ER + "src/pose.cpp")])
p("C27", "Inertial measurements change frame and interpolate consistently",
  "Changing the frame of an inertial measurement rotates its angular velocity and acceleration and their covariances into the new frame and composes the orientation with the mounting rotation. Interpolating two measurements is linear in angular velocity and acceleration and spherical in orientation, an unknown orientation stays unknown, covariances are those of the closer one, and times outside the two are rejected.",
  R, "every measurement, mounting rotation and the time stamps within the bounds", "no test in this build reaches it; direction and transpose errors need rotations in general position",
  [ER + "src/imu.cpp"], [("Imu::change_frame, interpolate", ER + "src/imu.cpp")])
PC = "pointcloud_tools/"
p("C12", "The point cloud formatter publishes every cloud in one agreed format",
  "Every cloud an Ouster sensor sends is published once with its times converted to seconds and its ranges to metres as 32-bit reals; for other sensors a time field is renamed to t when no field has that name. The published cloud carries the frame of the lidar. With the time filter on, exactly the points up to the maximum time remain, in order, and a cloud without a usable time field is refused. The first cloud is dropped only if configured. All other fields and bytes stay the same, and unknown sensor names are refused.",
  R, "every cloud content and parameter value within the bounds", "the node has no test; unit, type and layout mistakes corrupt values silently",
  ["serpent/src/front_end/lidar/pointcloud_formatter.cpp", "serpent/src/front_end/stereo/sensor_point_types.cpp"], [("PointcloudFormatter::format", "serpent/src/front_end/lidar/pointcloud_formatter.cpp")])
p("C14", "Reading, casting, adding and filtering raw cloud fields touches nothing else",
  "Reading a field of any type gives the stored value and writing changes exactly that field of that point. Casting a field keeps the value of every point (scaled once if asked) and is refused between types of different sizes, without changes. Adding fields keeps all existing values, never writes outside the records, and leaves the given cloud alone. Filtering keeps exactly the points up to the maximum, bytes unchanged and in order. Minima, maxima, sums, means, variances, unit vectors and polar coordinates are those of the values; unknown fields and types are refused.",
  R, "every content of the records, every field type, every threshold within the bounds", "these functions reinterpret raw bytes; a wrong offset or type corrupts neighbouring fields in ways fixed test clouds do not show",
  [PC + "src/pclpointcloud2_utilities.cpp", PC + "include/pointcloud_tools/pclpointcloud2_utilities.hpp", PC + "include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp"], [("cast_field, add_fields, filter_max, create_get_field_data_function", PC + "include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp")])
p("C15", "Deskewing moves each point to where it is seen at the new time",
  "Deskewing a sweep moves every point by the part of the sensor's motion between the point's own time and the new time, so that a static point is seen where the sensor at the new time sees it, for new times before, during or after the sweep. The new stamp is set, point times refer to it, and all other fields stay the same. Without motion points stay put, and sweeps without a duration, coordinates or time field are refused.",
  R, "every point, point time, new time, translation and rotation within the bounds", "no test of it runs in this build, and fixed examples rarely have motion in general position; direction and sign errors cancel for points at the start of the sweep",
  [PC + "src/pclpointcloud2_utilities.cpp", PC + "include/pointcloud_tools/pclpointcloud2_utilities.hpp"], [("deskew", PC + "src/pclpointcloud2_utilities.cpp")])
p("C26", "Body frames answer with the configured poses, names and transforms",
  "A frame of the configured tree is posed relative to its parent, with rotations normalised and missing parts taking their defaults; transforms between any two frames compose through the body and invert exactly. Every frame is found by name, identifier and aliases, which belong to it alone, and unknown frames are refused. Dynamic frames are looked up, with their stamp and timeout, at every request; frames posed by lookup are asked for once. Static frames are broadcast exactly as configured.",
  R, "every translation and rotation of the frames and every answer of the transform lookup within the bounds", "the classes have no test; wrong composition order or a missing inverse is invisible with identity or single-level trees",
  ["eigen_ros/src/body_frames.cpp", "eigen_ros/src/body_frames_tf.cpp", "eigen_ros/include/eigen_ros/body_frames.hpp"], [("BodyFrames", "eigen_ros/src/body_frames.cpp"), ("BodyFramesTf", "eigen_ros/src/body_frames_tf.cpp")])
UTL = "serpent/src/utils/utilities.cpp"
p("C28", "Inertial preintegration covers the whole interval exactly once",
  "Preintegration over an interval uses for each instant the latest measurement at that time, integrates every part of the interval exactly once, with positive durations only, whatever the stamps of the measurements, and is refused when they do not cover the interval. Deleting old measurements removes exactly those before the time. Pressures and values are interpolated linearly and times outside are refused. Biases, poses and buffers survive conversion; noise that is no covariance is refused; waiting releases the mutex while sleeping.",
  R, "every measurement value and every arrangement of measurement stamps, interval start and end on the grid within the bounds", "the failing arrangements (measurement exactly on a boundary, equal stamps) are rare and the utilities have no test",
  [UTL, "serpent/include/serpent/utils/utilities.hpp", "serpent/include/serpent/utils/utilities-inl.hpp", "serpent/src/utils/ros_conversion.cpp"], [("integrate_imu, interpolate_pressure, delete_old_measurements", UTL)])
PFF = "serpent/src/front_end/lidar/pointcloud_filter.cpp"
p("C29", "The enabled cloud filters run in order and remove what they are documented to",
  "For every choice of enabled filters, clouds pass through exactly these, each fed by the one before it, in the order voxel grid, body, range, outlier removal, random sample, and the last publishes the output topic. Each filter is set up with its own configured parameters. The body filter removes exactly the points within the body region, the range filter exactly those outside the range limits; the others stay unchanged and in order. Clouds without ranges and negative sample sizes or seeds are refused.",
  R, "every choice of filters, every parameter value and every coordinate and range of the points within the bounds", "32 configurations and regions in general position; the node has no test",
  [PFF, "serpent/include/serpent/front_end/lidar/pointcloud_filter.hpp", "serpent/config/filter_default.yaml"], [("PointcloudFilter", PFF)])
CT = "camera_tools/"
p("C33", "Split images and their camera information stay consistent",
  "Every image gives each configured region once, on its topics, with every pixel where the configured rotation and flip put it and with the stamp of the image and the frame of the region; its camera information has the size of that image, focal lengths in its axes and a principal point that follows the pixels to within one pixel. Rotations and flips obey their group laws. Meaningless operations and regions are refused, documented ones accepted. Published information is the configured one for every image; changing the frame changes nothing else.",
  R, "every pixel value, intrinsic and distortion value, every region and combination of operations within the bounds", "the tools have no test; swapped axes are invisible for square images and centred principal points",
  [CT + "src/image_operations.cpp", CT + "src/split_image.cpp", CT + "src/publish_info.cpp", CT + "src/change_frame_id.cpp"], [("ImageSplitter", CT + "src/split_image.cpp"), ("Rotate, Flip", CT + "src/image_operations.cpp")])
GMF = "serpent/src/back_end/graph_manager.cpp"
GMFILES = [GMF, "serpent/include/serpent/back_end/graph_manager.hpp", "serpent/include/serpent/back_end/graph_manager-inl.hpp"]
p("C34", "The factor graph returns exactly the states and factors put into it",
  "The latest pose, velocity, biases and stamp set for a key, directly or by name and offset, are returned for that key alone; unknown ones are refused. Named keys count independently and their minimum respects priorities. A factor links the variables it should (previous to new, or its own key), with its measurement and noise, and is found by its key and by its variables. A range of keys gives exactly what belongs to it; new values and factors are handed out once; updates change exactly the values given.",
  R, "every key, offset, priority, range and value within the bounds", "tests read back the values of a few consecutive keys; they do not see ranges that end between keys, repeated extraction, or factors whose variables are swapped",
  GMFILES, [("GraphManager", GMF)])
p("C35", "Stereo features become landmarks and factors exactly while they are tracked",
  "A feature seen in two successive stereo frames gives one factor per frame between the pose of that frame and the landmark, the first time also for the earlier frame, with its measurement, calibration, noise and camera mounting, also when keys are missed between frames; no other feature does. A landmark is where its latest feature was seen from the pose of its frame. Ranges and extraction give each landmark at the key where it was first tracked. A repeated key, or one without a pose, is refused.",
  R, "every pattern of seen features, every gap between the keys, every feature position, pose and mounting within the bounds", "no test creates stereo factors; errors need a feature that is lost, or a key that is missed",
  GMFILES, [("create_stereo_factors_and_values, stereo_landmarks, values", GMF)])
p("C36", "The optimiser receives every state and factor once and its estimate is kept",
  "Optimising up to a key gives the optimiser exactly the factors and states up to that key which it was not given before, returns its result, remembers the key and replaces exactly the estimated states. With marginalisation, every state that leaves the window is marginalised once, in order, and none before it was optimised; without it, none is. Covariances are those the optimiser has for the variable asked for.",
  R, "every history of four keys, every key optimised to, every window and value within the bounds", "tests optimise once at the end; the order of repeated optimisation and marginalisation is a history",
  GMFILES, [("ISAM2GraphManager", GMF)])
BKF = "serpent/src/back_end/optimisation.cpp"
p("C37", "The back end turns every message into the states and factors it stands for",
  "The first odometry gives priors of its pose, velocity and covariances (and zero biases) and is optimised at once. Inertial measurements between two states, with the latest biases and their noise, give the next state, the motion of the lidar and, if enabled, one factor. A registration links the two latest states with its transform and covariance; stereo features and pressures constrain the state of their time, wait for it, and skip states without data; the first pressure is the prior of the barometer's bias. The graph is optimised exactly when all enabled required sensors reached a state, and the optimised odometry, biases and path are published in ROS conventions. Data of other times, invalid covariances, calibrations or noise, and unknown settings are refused. When ROS stops, waiting callbacks release the graph.",
  R, "every message content, order of arrival, enabled sensor combination and parameter value within the bounds", "no test runs the node; errors need particular orders of messages, enabled factors, or the shutdown while one waits",
  [BKF, "serpent/include/serpent/back_end/optimisation.hpp", "serpent/src/utils/utilities.cpp", "eigen_ros/src/body_frames.cpp", GMF], [("Optimisation: callbacks, optimise, publish", BKF), ("from_ros, to_pcl, to_reweight_scheme", BKF)])
FEF = "serpent/src/front_end/frontend.cpp"
p("C38", "The front end turns every sequence of sensor data into states and clouds",
  "Once the next cloud is there, a cloud gets a state at its first image (at its own time without images). The first state has the pose and velocity of the parameters and the attitude the inertial sensor measured, in the body frame and in north-west-up; every further state sends on exactly the inertial measurements since the one before, and the last one before that. The cloud is deskewed to its state's time with the motion of the lidar over its sweep, integrated from the optimised state with the latest biases and noise, with translation and rotation as configured. Between states every measurement gives the current odometry, predicted from the latest optimised state, and the base link's transform is broadcast. Each state gets the pressure interpolated from the measurements around it. Images get the precision of clouds. What is missing is awaited, without holding a lock; nothing stays locked when ROS stops; empty clouds and contradictory settings are refused.",
  R, "every message content, order of arrival and parameter value within the bounds", "no test runs the node; errors need particular orders of clouds, images, measurements and optimised states, frames of general position, or the shutdown while a cloud waits",
  [FEF, "serpent/include/serpent/front_end/frontend.hpp", "serpent/src/utils/utilities.cpp", "eigen_ros/src/body_frames.cpp", "eigen_ros/src/imu.cpp"], [("Frontend: callbacks", FEF), ("interpolate_pressure, integrate_imu, update_preintegration_params", "serpent/src/utils/utilities.cpp")])
MPF = "serpent/include/serpent/mapping/mapping-inl.hpp"
p("C39", "The map holds every kept cloud at its latest pose",
  "A cloud whose optimised pose is known is kept in the map when it is the first, or its lidar's pose is further than the distance threshold or turned by more than the rotation threshold from that of the last kept one; every earlier pose that changed is corrected in the map, and in the poses searched for near ones. Each cloud gives a local map: the clouds of the given number of nearest or latest frames (as configured), moved from their latest poses into the frame of the new cloud's lidar, at its time. On request, the global map has every kept cloud at its latest pose in the map's frame, and the pose graph every kept cloud with its lidar's pose. Each of the two maps is downsampled exactly if its own option says so, with the configured leaf. Paths without the cloud's pose, unknown methods and empty numbers of frames are refused.",
  R, "every point, pose, correction, threshold and answer of the search within the bounds", "no test runs the node; errors need corrected poses, clouds that are not kept, general extrinsics or the two options set differently",
  [MPF, "serpent/include/serpent/mapping/mapping.hpp", "serpent/include/serpent/front_end/lidar/transform_pointcloud-inl.hpp"], [("Mapping, MapFrame", MPF)])
