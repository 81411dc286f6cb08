"""Which harnesses decide which property."""
import glob

CODE_RE = r"eigen_ext::|eigen_gtsam::|serpent::|pct::|eigen_ros::|camera_tools|imu_tools|deskew"

PCLI = ["-isystem", "/usr/include/pcl-1.14", "-DPCL_NO_PRECOMPILE"]
GROUPS = {
    "pcl": lambda R, V: PCLI + ["-I" + R + "/pointcloud_tools/include", "-I" + R + "/serpent/include", "-include", "/opt/vp/cmake/pcl_shared_ptr_compat.hpp", "-include", "functional", "-include", "stdexcept"],
    "gtsam": lambda R, V: ["-I" + R + "/eigen_gtsam/include"],
}
GROUPS["cv"] = lambda R, V: ["-isystem", "/usr/include/opencv4", "-I" + R + "/serpent/include", "-include", "functional", "-include", "stdexcept"]
GROUPS["rosstub"] = lambda R, V: ["-I" + V + "/include/stubs"]
CVLIBS = ["-lopencv_core", "-lopencv_features2d", "-lopencv_video"]
SS = "@REPO@/serpent/src/front_end/stereo/"
ST = {"file": "stereo.cpp", "groups": ["cv"], "models": ["opencv"], "sources": [SS + "window_functions.cpp", SS + "stereo_cost_functions.cpp", SS + "stereo_keypoint_matcher.cpp", SS + "match_filters.cpp"], "libs": CVLIBS}
PCLLIBS = ["-lpcl_common", "-lboost_system"]
PT = {"file": "pct_transform.cpp", "groups": ["pcl"], "sources": ["@REPO@/pointcloud_tools/src/point_types.cpp"], "libs": PCLLIBS}


def use(base, entries, **kw):
    return dict(base, entries=entries, **kw)



GLOBAL_ASSUMPTIONS = [
    "Real-arithmetic entries treat float/double operations as exact (rounding is outside the model; division by zero, square roots of negatives, NaN and infinity are modelled by path splits); IEEE-754 entries are bit-precise.",
    "Bodies of libstdc++/libm functions without IR are replaced by models (listed as modelled_functions); transcendental functions are uninterpreted apart from sin^2+cos^2=1, parity, ranges and inverse pairs.",
    "Identities are decided by Z3 after the executor's algebraic normalisation over Q; coefficients that differ by less than 1e-9 (rounding of decimal literals) count as equal.",
]

PROPERTIES = {}


def prop(pid, harnesses, bounds, assumptions=()):
    PROPERTIES[pid] = {"harnesses": harnesses, "bounds": bounds, "assumptions": list(assumptions)}


prop("C01", [{"file": "eigen_geometry.cpp", "entries": ["relative_transform", "relative_transform_2d", "frame_change", "frame_change_explicit", "frame_change_compose", "to_transform_quat", "to_transform_matrix"]}],
     "all unit quaternions and all translations with components in [-10,10]; no loops bounded (fixed-size 3-D / 2-D code)")
prop("C02", [{"file": "eigen_geometry.cpp", "entries": ["adjoint_value", "adjoint_homomorphism", "adjoint_twist", "twist_frame", "covariance_frame", "covariance_frame_adjoint", "rotate_cov", "rotate_cov_quat"]}],
     "all unit quaternions, translations/twists/covariance entries in [-10,10]")
prop("C03", [{"file": "eigen_geometry.cpp", "entries": ["compose_value", "compose_nocross", "compose_associative"]}],
     "all unit quaternions, translations in [-4,4], covariance entries in [-2,2]")
prop("C04", [{"file": "eigen_matrix.cpp", "entries": ["reorder_2", "reorder_3", "reorder_4", "reorder_6", "reorder_9", "reorder_dyn", "reorder_reject", "reorder_nonsquare"]}],
     "matrix sizes 2,3,4,6,9 (fixed) and 5 (run-time sized), every boundary 1..N-1, entries in [-10,10] (not necessarily symmetric); rejection for boundaries 0..8 of a 6x6")
prop("C05", [{"file": "eigen_matrix.cpp", "entries": ["valid_2", "valid_2_precision", {"name": "valid_3_sym", "opts": ["--noforksel", "--noforkabs"], "time": 400}, {"name": "valid_3_asym", "opts": ["--noforksel", "--noforkabs"], "time": 400}, "valid_6_block", "valid_6_asym", "valid_nonfinite", "valid_nonsquare"]}],
     "all 2x2 and all symmetric and asymmetric 3x3 matrices with bounded entries; 6x6 matrices with one coupled pair of coordinates (every pair); NaN/+-Inf in every position of a 6x6; exact arithmetic")
prop("C06", [{"file": "eigen_matrix.cpp", "entries": ["skew", "skew_float", "skew_reject"]}],
     "all vectors with components in [-10,10]; every single entry perturbed by 0.25..10")
prop("C07", [{"file": "eigen_matrix.cpp", "entries": ["normalise", "normalise_2", "polar", "polar_vector"]}],
     "all vectors with components in [-100,100] (normalisation, 2-D and 3-D) and [-50,50] (polar coordinates)")
prop("C08", [{"file": "eigen_matrix.cpp", "entries": ["interpolate", "interpolate_matrix", "interpolate_bounds", "diagonals"]},
             {"file": "eigen_geometry.cpp", "entries": ["rates", {"name": "rates_angular", "time": 400}]}],
     "all vectors/matrices with entries in [-10,10], factors in [-2,3]; rates: time steps in [-1,5], every relative rotation with 0.01 <= |vector part|^2 <= 0.9999 (first pose identity) and every pose with translation only")
prop("C09", [{"file": "eigen_matrix.cpp", "entries": ["components_from_vector", {"name": "components_from_matrix", "time": 400}]}],
     "all rotation vectors with components in [-3,3] including zero, all translations in [-10,10]; all rotation matrices of unit quaternions with 0.01 <= |vector part|^2 <= 0.9999")

prop("C11", [use(PT, ["unit_dense", "unit_inplace", "unit_sparse", "unit_extra", "cov_extra", "cov_dense", "cov_inplace", "cov_sparse", "overloads_unit", "overloads_cov", "generic_normals"])],
     "clouds of 0..2 points, every affine 3x4 matrix and every point/normal/unit-vector/covariance with components in [-8,8]; dense and non-dense clouds, one non-finite coordinate or one non-finite other field (NaN/+Inf/-Inf, every position); in place and into another cloud; both copy modes; all overloads")
prop("C13", [use(PT, ["normals_one", "normals_count", "unit_extract"])], "one point with any normal with components in [-8,8] and any threshold in [0,1]; clouds of 0..3 points with axis-aligned normals and threshold 0.25; clouds of 0..3 points for unit-vector extraction; values within 1e-3 of the decision boundary excluded")
prop("C32", [use(PT, ["outer_product", "covariance_roundtrip", "copy_points", {"name": "angleaxis_pose", "time": 400}, "angleaxis_back"])], "all field values in [-8,8]; pose rotations with 0.01 <= |quaternion vector part|^2 <= 0.999, rotation vectors of length >= 0.1")

NA_ = ["--noforkabs"]
prop("C16", [use(ST, ["window_values", "window_inside"] + [{"name": n, "opts": NA_} for n in ("cost_sad", "cost_ssd", "cost_zsad", "cost_lsad", "cost_ncc", "cost_given")] + ["cost_type"])], "all pixel values; images of 3x4 (window functions), 2x3 and 2x2 (costs) pixels with padded rows, every window size and position in them; window containment for images up to 2000x2000 and coordinates in [-5000,5000]")
prop("C18", [use(ST, ["filter_distance", "filter_distance_default", {"name": "filter_stereo", "opts": NA_}, {"name": "filter_stereo_distance", "opts": NA_}])], "up to 3 (descriptor distance) or 2 (stereo) matches over 2+2 keypoints, all coordinates in [-100,100], all thresholds; decision boundaries excluded by 1e-3")
prop("C19", [use(ST, ["backproject_project", "project_value", "project_float"])], "all coordinates in [-1000,1000], points in [-100,100], focal lengths in [1,1000], baselines in [0.01,10]")
prop("C17", [use(ST, [{"name": n, "opts": NA_} for n in ("scan_uni", "scan_window", "scan_ratio", "scan_both", "scan_both_window", "binding_sad", "binding_ssd", "binding_zsad", "binding_lsad", "binding_ncc", "index_uni", "index_subpixel", "index_uni_3", "index_ratio", "index_ratio_3", "indices_uni", "indices_both", "scan_many", "matcher_config", "matcher_sizes", "filter_names")])],
     "search logic for every cost table (one unconstrained cost in [-100,100] per window pair): rows of 3..5 pixels with windows 1x1, 3x1 and 3x3, every keypoint pixel and sub-pixel offset, up to 3 candidate keypoints (horizontal sub-pixel offsets: up to 1); cost binding of the five matchers for every 3-pixel row of 8-bit pixels; ratio test excluded where the second-best cost is below 0.1 or negative")
prop("C10", [{"file": "gtsam_conv.cpp", "groups": ["gtsam"], "models": ["gtsam"], "sources": ["@REPO@/eigen_gtsam/src/geometry.cpp"], "libs": ["-lgtsam", "-lboost_serialization"], "entries": ["pose_to_gtsam", "pose_roundtrip", "pose_to_eigen", "rotation_roundtrip"]}],
     "all rotations (unit quaternions) and all translations in [-10,10]")
ROS_ASSUME = ["ROS headers are replaced by stand-ins: message structures generated from the message definitions, ros::Time and ros::Duration with rostime's arithmetic, logging that does nothing"]
FM = {"file": "formatter.cpp", "groups": ["pcl", "rosstub"], "sources": ["@REPO@/serpent/src/front_end/lidar/pointcloud_formatter.cpp", "@REPO@/serpent/src/front_end/stereo/sensor_point_types.cpp", "@REPO@/pointcloud_tools/src/pclpointcloud2_utilities.cpp", "@REPO@/eigen_ros/src/body_frames.cpp"] + ["@REPO@/eigen_ros/src/%s.cpp" % f for f in ("geometry_msgs", "pose", "twist", "odometry", "nav_msgs", "sensor_msgs", "std_msgs", "statistics_msgs", "imu", "eigen_ros")], "libs": PCLLIBS, "flags": ["-I@REPO@/eigen_ros/include", "-DSV_STD_POINTERS", "-Wno-c++11-narrowing", "-fno-access-control"]}
prop("C12", [use(FM, ["format_ouster", "format_ouster_refused", "format_custom", "format_time_filter", "format_time_filter_ouster", "format_time_filter_refused", "format_first", "sensor_names"])], "clouds of 0..3 points (0..3 clouds per run), every value of every field (real coordinates, integer times to 0.2 s and ranges to 300 m, every padding byte), every type and name of the time field, every maximum time; sensor names with one character replaced, added or removed; values within 1e-5 of the time limit excluded", ROS_ASSUME)
CL = {"file": "cloud2.cpp", "groups": ["pcl", "rosstub"], "sources": ["@REPO@/pointcloud_tools/src/pclpointcloud2_utilities.cpp"], "libs": PCLLIBS, "flags": ["-DSV_STD_POINTERS", "-Wno-c++11-narrowing"]}
prop("C14", [use(CL, ['get_i8', 'get_u8', 'get_i16', 'get_u16', 'get_i32', 'get_u32', 'get_f32', 'get_f64', 'set_i8', 'set_u8', 'set_i16', 'set_u16', 'set_i32', 'set_u32', 'set_f32', 'set_f64', 'access_wrong_type', 'cast_int', 'cast_to_float', 'cast_to_double', 'cast_truncates', 'cast_scale', 'cast_scale_refused', 'scale', 'names', 'type_names', 'sizes', 'add_one', 'add_two', 'add_padded', 'add_first', 'add_unit', 'filter', 'extremes', 'moments', 'summary', 'normals', 'coordinates'])], "clouds of 0..3 records, a field of each of the eight types between two others with every padding byte symbolic, values to +-1000 (scaling: +-1000000), integer casts within both types' ranges; added fields of every type, 1..2 fields and counts", ROS_ASSUME)
prop("C15", [use(CL, ["deskew_translation", "deskew_rotation", "deskew_ends", "deskew_middle", "deskew_identity", "deskew_refused"])], "sweeps of 0..2 points with every coordinate in [-20,20], point times in [-5,5] s, sweep durations in [0.01,10] s, new times up to 3 s before or after; rotations: six turns at every time, every turn between the ends of the sweep, turns about an axis at its middle", ROS_ASSUME)
HS = {"file": "hessians.cpp", "groups": ["pcl"], "sources": ["@REPO@/pointcloud_tools/src/point_types.cpp"], "libs": PCLLIBS}
prop("C21", [use(HS, ["ppl", "pll", "process_pp", "process_pl"] + [{"name": n, "time": 600} for n in ("ppn_xx", "ppn_xz", "pln_xx", "pln_xz")])],
     "all rotation vectors with components in [-3,3] and length >= 0.1 (linearised models: every rotation vector including zero), translations and points in [-10,10], normals in [-1,1] (not necessarily unit)")
RG = {"file": "registration.cpp", "groups": ["pcl"], "models": ["pcl"], "sources": ["@REPO@/pointcloud_tools/src/point_types.cpp"], "libs": PCLLIBS + ["-lpcl_kdtree", "-lpcl_search", "-lpcl_filters", "-lpcl_features", "-llz4"]}
prop("C25", [use(RG, ["corr_forward", "corr_subset", "corr_double", "corr_reciprocal", "corr_reciprocal_restricted"])], "source and target clouds of 1..3 points with coordinates in [-8,8], every rigid final transformation, every maximum distance in [0.01,10], every answer of the nearest-neighbour search per query (none, any point, any squared distance in [0,100]; decision boundary excluded by 1e-4), full and partial source indices",
     ["the nearest-neighbour search (FLANN) is the environment: it is replaced by one that gives every possible answer and records its queries"])
prop("C22", [use(RG, [{"name": n, "opts": ["--noforkabs", "--noforksel"]} for n in ("iid_two", "iid_double", "lls_two", "lls_double")])], "up to 2 correspondences between 2 source and 2 target points (all matchings, including none or out of range), Hessians with entries in [1,10] on the diagonal and one coupled pair of coordinates (three positions) in [-0.5,0.5], every 6x6 mixed derivative with entries in [-10,10], variances in [0.001,4]", ["the covariance templates are instantiated with a model whose per-correspondence derivatives are unconstrained tables; the four real models are decided by C21"])
prop("C23", [use(RG, [{"name": n, "opts": ["--noforkabs", "--noforksel"], "time": 400} for n in ("range_one", "range_two", "bias_one", "bias_two", "range_other_points")])], "as C22, plus unit vectors with components in [-1,1] and bias variances in [0.001,4]", ["the covariance templates are instantiated with a model whose per-correspondence derivatives are unconstrained tables; the four real models are decided by C21"])
prop("C24", [{"file": "cov_names.cpp", "groups": ["pcl"], "sources": ["@REPO@/serpent/src/front_end/lidar/registration_covariance.cpp", "@REPO@/pointcloud_tools/src/point_types.cpp"], "libs": PCLLIBS, "entries": ["method_names", "model_names", "point_names", "out_of_range", "unit_vectors"]}],
     "every enumerator and its name; names with one character replaced by any other (5 positions), added or removed; enumeration values -100..100; every pair of methods")
TR = {"file": "tracker.cpp", "groups": ["cv", "rosstub"], "models": ["opencv"], "sources": [SS + "stereo_feature_tracker.cpp", SS + "window_functions.cpp", SS + "stereo_cost_functions.cpp", SS + "stereo_keypoint_matcher.cpp", SS + "match_filters.cpp"], "libs": CVLIBS + ["-lopencv_imgproc"]}
prop("C20", [use(TR, [{"name": n, "opts": NA_} for n in ("first_frame", "first_frame_distance", "track_one", "track_two", "track_distance", "track_distance_two", "track_new", "track_new_two", "track_ids", "track_loss", "roi_mask", "size_mismatch")])],
     "sequences of 1..3 frames with up to 2 tracks and up to 2 detections per image, every answer of the detector, optical flow and stereo matcher (positions in [-50,50], every status, index and cost), every threshold; regions of interest in 4x3 images; decision boundaries excluded by 1e-3..1e-2",
     ["the feature detector, the sparse optical flow and the stereo matching cost are the environment: stand-ins that give every possible answer and record their queries", "ros/ros.h is replaced by a stand-in whose logging macros do nothing"])
ER = {"file": "eigen_ros.cpp", "groups": ["rosstub"], "sources": ["@REPO@/eigen_ros/src/%s.cpp" % f for f in ("geometry_msgs", "pose", "twist", "odometry", "nav_msgs", "sensor_msgs", "std_msgs", "statistics_msgs", "imu", "eigen_ros")], "flags": ["-I@REPO@/eigen_ros/include", "-fno-access-control"]}
prop("C30", [use(ER, ["msg_vectors", "msg_pose", "msg_pose_back", "msg_matrix", "msg_matrix_to", "msg_twist", "msg_odometry", "msg_imu", "msg_covariance", "msg_covariance_reject", "msg_multiarray", "msg_arrays", "pose_transform", "pose_transform_covariance", "pose_build"])], "every field value (real numbers; stamps up to 2000000000 s), covariance messages up to 3x3 (with every contradicting size up to 3), 2x3 array messages with every offset, padding, size and number of dimensions up to 3, reused messages; transformed poses with one rotation symbolic and the other out of four half turns", ROS_ASSUME)
prop("C27", [use(ER, ["imu_frame", "imu_interpolate_range", "imu_interpolate", "imu_interpolate_orientation"])], "every measurement (real numbers) and mounting rotation; interpolation at all triples of eight stamps, rejection for every triple of stamps; orientations with one of the two out of two rotations and four interpolation times", ROS_ASSUME)
BF = {"file": "body_frames.cpp", "groups": ["rosstub"], "sources": ["@REPO@/eigen_ros/src/%s.cpp" % f for f in ("body_frames", "body_frames_tf", "geometry_msgs", "pose", "twist", "odometry", "nav_msgs", "sensor_msgs", "std_msgs", "statistics_msgs", "imu", "eigen_ros")], "flags": ["-I@REPO@/eigen_ros/include", "-fno-access-control"]}
prop("C26", [use(BF, ["frames_chain", "frames_scaled", "frames_defaults", "frames_names", "frames_lookup", "frames_dynamic", "frames_refused", "frames_tf"])], "trees of up to 5 frames, 3 deep, every translation, the outermost rotation symbolic and the next out of six, rotations of any length from 0.1 to 4; every subset of missing components, identifiers and up to 2 aliases; lookups with every answered translation and rotation", ROS_ASSUME)
UT = {"file": "utils.cpp", "groups": ["gtsam", "rosstub"], "models": ["gtsam"], "sources": ["@REPO@/serpent/src/utils/utilities.cpp", "@REPO@/serpent/src/utils/ros_conversion.cpp", "@REPO@/eigen_gtsam/src/geometry.cpp"] + ["@REPO@/eigen_ros/src/%s.cpp" % f for f in ("geometry_msgs", "pose", "twist", "odometry", "nav_msgs", "sensor_msgs", "std_msgs", "statistics_msgs", "imu", "eigen_ros")], "libs": ["-lgtsam", "-lboost_serialization"], "flags": ["-I@REPO@/eigen_ros/include", "-I@REPO@/serpent/include", "-fno-access-control"]}
prop("C28", [use(UT, ["integrate_two", "integrate_three", "integrate_four", "integrate_refused", "delete_old", "pressure", "scalar_interpolation", "biases", "arrays", "poses", "sleeping", "noise"])], "2..4 measurements (0..3 for refusals) with every value symbolic, every non-decreasing arrangement of their stamps, start and end on a grid of seven instants; pressures, values, biases and poses symbolic; up to 3 waits; diagonal noise of any sign", ROS_ASSUME)
PF = {"file": "filter.cpp", "groups": ["pcl", "rosstub"], "models": ["pcl", "pcl_filters"], "sources": ["@REPO@/serpent/src/front_end/lidar/pointcloud_filter.cpp", "@REPO@/pointcloud_tools/src/pclpointcloud2_utilities.cpp"], "libs": ["-lpcl_filters", "-lpcl_search", "-lpcl_kdtree", "-lpcl_octree"] + PCLLIBS, "flags": ["-I@REPO@/eigen_ros/include", "-DSV_STD_POINTERS", "-Wno-c++11-narrowing", "-fno-access-control"]}
prop("C29", [use(PF, ["filter_chain", "filter_body", "filter_range", "filter_range_default", "filter_parameters", "filter_refused"])], "all 31 choices of enabled filters, every parameter (regions within +-5 m, limits in [-5,20]), clouds of 0..3 points with every field in [-20,20]; values within 1e-3 of a boundary excluded", ROS_ASSUME)
CA = {"file": "camera.cpp", "groups": ["cv", "rosstub"], "models": ["opencv"], "sources": ["@REPO@/camera_tools/src/%s.cpp" % f for f in ("change_frame_id", "image_operations", "publish_info", "split_image")], "libs": CVLIBS, "flags": ["-I@REPO@/camera_tools/include", "-Wno-c++20-designator", "-Wno-c++11-narrowing"]}
prop("C33", [use(CA, ["split_one", "split_two", "split_refused", "split_outside", "operation_laws", "publish_info", "change_frame"])], "3x4 images of three encodings with every pixel value and padded rows, 5 regions, 26 combinations of operations with turns of 0..360 degrees, 2 regions on 2 images, angles from 0 to 270 by 15 degrees, every region position around a 2x3 image; intrinsics up to 4000, images to 4000x4000 for the laws", ROS_ASSUME)
GM = {"file": "graph.cpp", "groups": ["gtsam", "rosstub"], "models": ["gtsam", "gtsam_graph", "isam2"], "native_models": ["isam2"], "sources": ["@REPO@/serpent/src/back_end/graph_manager.cpp"], "libs": ["-lgtsam", "-ltbb", "-lboost_serialization"], "flags": ["-I@REPO@/serpent/include", "-fno-access-control"]}
prop("C34", [use(GM, ["graph_states","graph_named","graph_by_name","graph_time","graph_factors","graph_factors_order","graph_new_factors","graph_imu_factor","graph_values","graph_new_values","graph_update"])], "keys 0..1000 (states, names), 0..5 (ranges), up to 3 factors of 8 kinds, 2 keys with 4 kinds of states, all values within +-10", ROS_ASSUME)
prop("C35", [use(GM, ["stereo_three", "stereo_ids", "stereo_new", "stereo_refused", "stereo_camera"])], "3 frames with 1 feature or 2 frames with 2 features (extraction: 3 frames, 2 features), first key 0..3, gaps 1..3, disparities 1..100 in a 640x480 image, all positions of body and camera within +-10 for one turned attitude of each", ROS_ASSUME)
ISAM_ASSUME = ["the ISAM2 optimiser is the environment: replaced by a recorder whose estimates the harness chooses"]
prop("C36", [use(GM, ["optimise_history", "optimise_marginalise", "optimise_covariances"])], "4 keys with one state and factor each (marginalisation: 3 keys, 4 states), optimised after any of them and up to any key, windows 0..3", ROS_ASSUME + ISAM_ASSUME)
BE = {"file": "backend.cpp", "groups": ["gtsam", "rosstub"], "models": ["gtsam", "gtsam_graph", "isam2", "preint", "node"], "native_models": ["isam2", "preint"], "sources": ["@REPO@/serpent/src/back_end/optimisation.cpp", "@REPO@/serpent/src/back_end/graph_manager.cpp", "@REPO@/serpent/src/utils/utilities.cpp", "@REPO@/serpent/src/utils/ros_conversion.cpp", "@REPO@/eigen_gtsam/src/geometry.cpp", "@REPO@/eigen_ros/src/body_frames.cpp"] + ["@REPO@/eigen_ros/src/%s.cpp" % f for f in ("geometry_msgs", "pose", "twist", "odometry", "nav_msgs", "sensor_msgs", "std_msgs", "statistics_msgs", "imu", "eigen_ros")], "libs": ["-lgtsam", "-ltbb", "-lboost_serialization"] + PCLLIBS, "flags": PCLI + ["-I@REPO@/serpent/include", "-I@REPO@/eigen_ros/include", "-fno-access-control"]}
prop("C37", [use(BE, ["backend_initial", "backend_imu", "backend_imu_next", "backend_imu_refused", "backend_registration", "backend_registration_refused", "backend_barometer", "backend_barometer_refused", "backend_stopped", "backend_stereo", "backend_stereo_refused", "backend_conversions", "backend_robust", "backend_parameters"])], "2 to 4 states half a second apart, 2 inertial measurements per interval, 1 to 3 features, 2 pressures; every message field symbolic (attitudes from 4 exact ones, one variance and one covariance of a registration symbolic)", ROS_ASSUME + ISAM_ASSUME)
FE = {"file": "frontend.cpp", "groups": ["gtsam", "rosstub"], "models": ["gtsam", "gtsam_graph", "preint", "node", "deskew"], "native_models": ["preint", "deskew"], "sources": ["@REPO@/serpent/src/front_end/frontend.cpp", "@REPO@/pointcloud_tools/src/pclpointcloud2_utilities.cpp", "@REPO@/serpent/src/utils/utilities.cpp", "@REPO@/serpent/src/utils/ros_conversion.cpp", "@REPO@/eigen_gtsam/src/geometry.cpp", "@REPO@/eigen_ros/src/body_frames.cpp"] + ["@REPO@/eigen_ros/src/%s.cpp" % f for f in ("geometry_msgs", "pose", "twist", "odometry", "nav_msgs", "sensor_msgs", "std_msgs", "statistics_msgs", "imu", "eigen_ros")], "libs": ["-Wl,--allow-multiple-definition", "-lgtsam", "-ltbb", "-lboost_serialization"] + PCLLIBS, "flags": PCLI + ["-I@REPO@/serpent/include", "-I@REPO@/eigen_ros/include", "-I@REPO@/pointcloud_tools/include", "-include", "ros/bridge.h", "-include", "functional", "-include", "stdexcept", "-Wno-c++11-narrowing", "-fno-access-control"]}
prop("C38", [use(FE, ["frontend_initial", "frontend_sweep", "frontend_next", "frontend_imu", "frontend_barometer", "frontend_stereo", "frontend_stopped", "frontend_refused"])], "2 to 4 clouds 1/4 s apart with sweeps of 3/16 s, inertial measurements every 1/8 s, up to 3 images at 5 positions of a sweep, 4 placements of the first state, up to 5 pressures and states in any order; every measurement, bias, state, covariance and parameter symbolic (attitudes from 4 exact ones), stamps on a grid of 1/16 s", ROS_ASSUME + ["pct::deskew records its arguments (decided itself in C05), as does the preintegration of GTSAM"])
MP = {"file": "mapping.cpp", "groups": ["pcl", "rosstub"], "models": ["pcl"], "sources": ["@REPO@/pointcloud_tools/src/point_types.cpp", "@REPO@/eigen_ros/src/body_frames.cpp"] + ["@REPO@/eigen_ros/src/%s.cpp" % f for f in ("geometry_msgs", "pose", "twist", "odometry", "nav_msgs", "sensor_msgs", "std_msgs", "statistics_msgs", "imu", "eigen_ros")], "libs": RG["libs"], "flags": FM["flags"] + ["-DSV_TO_ROS_MSG"]}
prop("C39", [use(MP, ["mapping_local", "mapping_global", "mapping_graph", "mapping_refused"])], "up to 3 clouds of one point, kept or not, with every earlier pose corrected each time; points, extrinsics, one or two coordinates of each pose and the thresholds symbolic (attitudes from 5 exact ones, turns between frames of 0 or 180 degrees)", ROS_ASSUME + ["the search for near poses is the environment: any answer of the asked length", "the voxel grid of PCL is the environment: it records its input and gives its first point"])
