# oracle and remarks per property, used by catalogue.py to write DESIGN.md
NOTES = {
"C01": "Oracle: 4x4 matrix algebra written out in the harness from unit quaternions (independent of Eigen's quaternion code); composition laws for the frame change.",
"C02": "Oracle: the 6x6 adjoint written out block by block; homomorphism Ad(T1 T2) = Ad(T1) Ad(T2) and Ad T Ad T^-1 = I; A C A^T computed with plain loops.",
"C03": "Oracle: A P A^T + Q + C A^T + A C^T with A the adjoint of the inverse; associativity over three poses. Cross-covariances are unconstrained, not symmetric.",
"C04": "Oracle: index permutation, entry by entry; twice at complementary boundaries is the identity; rejection of every other boundary.",
"C05": "Oracle: Sylvester's criterion (leading principal minors) and entrywise symmetry; NaN/Inf placed at every position.",
"C06": "Oracle: cross product; every one of the nine entries perturbed.",
"C07": "Oracle: n * |v| = v, |n| = 1; r cos a sin e etc. recover the point; range of the azimuth.",
"C08": "Oracle: affine combination; rates * dt equal the rotation vector obtained from the quaternion by atan2 relations. Angle functions are uninterpreted with their algebraic relations.",
"C09": "Oracle: Rodrigues' formula in terms of the uninterpreted sine and cosine of the length, sine^2 + cosine^2 = 1. Counterexamples that depend on values of sine and cosine are made concrete by the native search.",
"C10": "Oracle: entrywise equality of rotation matrix and translation. GTSAM's out-of-line members have bodies in models/gtsam.cpp; replay uses the real library.",
"C11": "Oracle: M p + t, M n, M u, M C M^T with plain loops; all metadata; stale output content; NaN/Inf in each coordinate and in other fields. PCL's Transformer is executed (SSE intrinsics disabled).",
"C13": "Oracle: count of points with |‖n‖-1| > threshold.",
"C16": "Oracle: direct sums over the window. Pixels are symbolic reals in 0..255 placed in padded rows so that stride errors show; the type check is decided separately.",
"C17": "Oracle: specification of the search over an arbitrary cost table. A matcher subclass returns one unconstrained symbolic cost per pair of windows (the cost functions themselves are C16) and checks that a bound cost function is only used on the window it was made for; the five built-in matchers are decided on rows with one candidate.",
"C18": "Oracle: the filter condition written out; indices and order of kept matches; state of an earlier call must not leak; every combination of constructor arguments and setters in either order.",
"C19": "Oracle: pinhole equations; projection after backprojection is the identity and the reverse; rejected inputs.",
"C21": "Oracle: an independent residual (Rodrigues' formula with sine, cosine symbols) differentiated by forward-mode jets in the harness; all 36 + 36 entries of all four models. Identity by exact normalisation, some 1000-term polynomials.",
"C22": "Oracle: H X H = v M M^T (the inverse is avoided by multiplying with H), over every correspondence pattern, with unconstrained per-correspondence derivative tables.",
"C23": "Oracle: as C22 with the noise covariance written out from the unit vectors.",
"C24": "Oracle: table of names. Strings are concrete or have one symbolic character.",
"C25": "Oracle: list of query results the search gave. FLANN is replaced (the search object is a subclass): it gives every possible answer and records the queries, which must be the transformed points.",
"C32": "Oracle: field-by-field.",
"C20": "Oracle: a model of the tracker over lists of tracks (position, cost, identity). Detector, optical flow and matching cost are stand-ins that answer anything and check what they were asked (image, mask, points).",
"C27": "Oracle: rotation matrices and affine combinations written out; Eigen's slerp for the orientation. The orientation covariance of change_frame is left out (marked unverified upstream).",
"C30": "Oracle: field-by-field, covariance entry (i,j) at message entry ((i+3) mod 6, (j+3) mod 6). Message structures are generated from the .msg definitions by tools/gen_ros_stubs.py.",
"C12": "The node is built with stand-ins for ros::NodeHandle: parameters in, messages in, published clouds out. Oracle: bytes of the published records read directly, compared with the incoming records; kept points are decided by the harness.",
"C14": "Oracle: the harness reads the bytes of a record itself by type; all bytes around the field are symbolic, so any write outside it is seen. Found: the header did not compile, and add_fields wrote past the new cloud when records end with padding (both repaired).",
"C15": "Oracle: rotation by the written-out matrix of a quaternion and constant-velocity motion. At a general time the rotation is compared with the interpolated quaternion (uninterpreted slerp), at the ends and the middle of the sweep with the exact turn. Sweeps deskewed in place (source and destination the same object) are outside the claim. Found: a new time before the sweep wrapped around (repaired).",
"C26": "Oracle: poses composed from matrices written out by the harness; the parameter server and the transform lookup are stand-ins that record every question. Found: a rotation without w became a half turn instead of the documented default, and dynamic frames were looked up once and then broadcast as static (both repaired).",
"C28": "Oracle: for every measurement the overlap of [its stamp, next stamp] with the interval. GTSAM's preintegration is the environment: a subclass that records each step and, as GTSAM does, throws for dt <= 0. Stamps are every arrangement on a grid of seven instants (one nanosecond to 1.5 s apart, across a whole second), values are symbolic. The mutex is modelled with glibc's layout. Found: a measurement exactly at the end, or two with equal stamps inside the interval, made GTSAM throw (repaired).",
"C29": "Oracle: the region and limits evaluated by the harness on each symbolic point; the wiring is read from the recorded subscriptions and publications. PCL's crop box and pass-through are re-stated for the executor (replay uses the real ones); voxel grid, outlier removal and random sample are the environment, only their parameters and wiring are claimed, and so is the body region's rotation. No filter enabled is outside the claim: the nodes do not construct the filter then. Found: the body filter kept only the body, and outlier removal read its parameters from an undocumented name (both repaired).",
"C33": "Oracle: a picture tracked as the list of source pixels through each operation. ROS leaves the origin of pixel coordinates to the camera model and the code uses w - cx where pixel centres would give w - 1 - cx, hence 'to within one pixel'; D, R and P after operations are documented as invalid and not claimed. image_transport, cv_bridge and message_filters are stand-ins; cv::rotate and cv::flip are re-stated for the executor. Found: documented rotations by 0 were refused, other angles left the option uninitialised, the operations' type check looked at the region, and two headers shared an include guard (repaired).",
"C34": "The real GTSAM headers are executed (boost pointer maps, pool allocators, generic values, factors); models/gtsam_graph.cpp gives bodies for what the library holds, replay links the library. Keys are symbolic integers: every comparison in the maps is a solver decision. Noise models are tokens that are only passed on. A range whose last key is -1 is not claimed.",
"C35": "Oracle: for each frame and id the factors due, from the pattern of seen features alone; landmark positions by the pinhole equations and two rigid transforms. Keys rise, as they do in the front end. Found: the factor of the earlier frame was tied to the key before the current one even when that key had no stereo frame, and a range that starts at a key without landmarks lost all of them (both repaired). Not claimed: which key a landmark is marginalised with (the code files landmarks under their id).",
"C36": "ISAM2 is the environment: its update, estimate, marginalisation and covariance are replaced, in the executor and natively, by a recorder with answers chosen by the harness.",
"C37": "The node is run whole, from its constructor on, in a stand-in of ROS that delivers messages, keeps parameters and records what is published; the optimiser and the preintegration are recorders with answers chosen by the harness, so that the oracle is the list of factors, states and messages due. A callback that waits sleeps in a hook of the harness, which looks at the mutex, delivers the awaited message, or stops ROS. Found (repaired): registrations with a valid covariance were refused and invalid ones accepted; callbacks that stop waiting kept the graph locked. Not claimed: what is printed before a crash, the covariances of velocities (not published upstream), which estimate of the velocity is published when only stereo is enabled (the one before its update).",
"C38": "The node is run whole in the same stand-in of ROS; the deskewing and the preintegration record what they are asked (the deskewing itself is decided by the property of deskewing). The oracle integrates, for every pair of times, the overlap of each measurement with the interval, and composes the body frames itself. Sleeps are observed as for the back end. Found (repaired): the motion of the lidar was taken to its frame with the inverse extrinsics, the angular velocity kept the gyroscope's bias, a state before any pressure read an empty buffer, callbacks that stop waiting kept a lock, and the file did not compile with the Eigen installed here. Not claimed: which pose the topic output/pose carries (the body's although the base link's was computed; upstream left it open), covariances of the current odometry (not published), a state later than the end of its sweep (its inertial measurements are not awaited).",
"C39": "The node is run whole in the stand-in of ROS on a history of clouds and paths. The oracle keeps its own list of frames, decides by squared distances and traces, and moves the points itself; which poses the search answers is chosen freely, and what it was given is compared with the oracle's poses. Found (repaired): correcting a pose while past frames are extracted used a pose cloud that does not exist then, and the option of the local map decided on the downsampling of the global one. Not claimed: the frame name of the poses in the pose graph (the lidar's, upstream), and how good the near poses are (PCL's search; it compares positions only).",
}
