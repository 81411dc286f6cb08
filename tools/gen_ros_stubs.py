"""Writes the stand-ins for ROS headers (include/stubs): plain structs with the fields of the message definitions, and
ros::Time / ros::Duration with the arithmetic of roscpp's rostime. ROS 1 is not installed here."""
import os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "include", "stubs")
MSGS = {
    "std_msgs/Header": "uint32 seq; time stamp; string frame_id",
    "std_msgs/MultiArrayDimension": "string label; uint32 size; uint32 stride",
    "std_msgs/MultiArrayLayout": "std_msgs/MultiArrayDimension[] dim; uint32 data_offset",
    "std_msgs/Float64MultiArray": "std_msgs/MultiArrayLayout layout; float64[] data",
    "std_msgs/Empty": "", "std_msgs/Int32": "int32 data", "std_msgs/Float64": "float64 data", "std_msgs/String": "string data",
    "geometry_msgs/Point": "float64 x; float64 y; float64 z", "geometry_msgs/Vector3": "float64 x; float64 y; float64 z",
    "geometry_msgs/Quaternion": "float64 x; float64 y; float64 z; float64 w",
    "geometry_msgs/Pose": "geometry_msgs/Point position; geometry_msgs/Quaternion orientation",
    "geometry_msgs/PoseStamped": "std_msgs/Header header; geometry_msgs/Pose pose",
    "geometry_msgs/PoseWithCovariance": "geometry_msgs/Pose pose; float64[36] covariance",
    "geometry_msgs/PoseWithCovarianceStamped": "std_msgs/Header header; geometry_msgs/PoseWithCovariance pose",
    "geometry_msgs/Transform": "geometry_msgs/Vector3 translation; geometry_msgs/Quaternion rotation",
    "geometry_msgs/TransformStamped": "std_msgs/Header header; string child_frame_id; geometry_msgs/Transform transform",
    "geometry_msgs/Twist": "geometry_msgs/Vector3 linear; geometry_msgs/Vector3 angular",
    "geometry_msgs/TwistWithCovariance": "geometry_msgs/Twist twist; float64[36] covariance",
    "geometry_msgs/TwistStamped": "std_msgs/Header header; geometry_msgs/Twist twist",
    "nav_msgs/Odometry": "std_msgs/Header header; string child_frame_id; geometry_msgs/PoseWithCovariance pose; geometry_msgs/TwistWithCovariance twist",
    "nav_msgs/Path": "std_msgs/Header header; geometry_msgs/PoseStamped[] poses",
    "sensor_msgs/Imu": "std_msgs/Header header; geometry_msgs/Quaternion orientation; float64[9] orientation_covariance; geometry_msgs/Vector3 angular_velocity; float64[9] angular_velocity_covariance; geometry_msgs/Vector3 linear_acceleration; float64[9] linear_acceleration_covariance",
    "sensor_msgs/FluidPressure": "std_msgs/Header header; float64 fluid_pressure; float64 variance",
    "sensor_msgs/RegionOfInterest": "uint32 x_offset; uint32 y_offset; uint32 height; uint32 width; bool do_rectify",
    "sensor_msgs/CameraInfo": "std_msgs/Header header; uint32 height; uint32 width; string distortion_model; float64[] D; float64[9] K; float64[9] R; float64[12] P; uint32 binning_x; uint32 binning_y; sensor_msgs/RegionOfInterest roi",
    "sensor_msgs/Image": "std_msgs/Header header; uint32 height; uint32 width; string encoding; uint8 is_bigendian; uint32 step; uint8[] data",
    "sensor_msgs/PointField": "string name; uint32 offset; uint8 datatype; uint32 count",
    "sensor_msgs/PointCloud2": "std_msgs/Header header; uint32 height; uint32 width; sensor_msgs/PointField[] fields; bool is_bigendian; uint32 point_step; uint32 row_step; uint8[] data; bool is_dense",
}
# the repository's own messages are read from /repo when the harness is compiled for it: see REPO_MSGS
PRIM = {"float64": "double", "float32": "float", "string": "std::string", "time": "ros::Time", "duration": "ros::Duration", "bool": "uint8_t"}
ZERO = {"float64": " = 0", "float32": " = 0"}


def ctype(t):
    if t.endswith("[]"): return "std::vector<%s>" % ctype(t[:-2])
    if t.endswith("]"):
        b, n = t[:-1].split("["); return "boost::array<%s, %s>" % (ctype(b), n)
    if "/" in t: return t.replace("/", "::")
    return PRIM.get(t, t + "_t" if t.startswith(("int", "uint")) else t)


def header(name, spec, repo=False):
    fields = [f.split() for f in spec.split(";") if f.strip()]
    deps = sorted({t.split("[")[0] for t, _ in fields if "/" in t})
    pkg, cls = name.split("/")
    o = "// Stand-in for the header generated from the message definition %s.\n#pragma once\n#include <cstdint>\n#include <string>\n#include <vector>\n#include <boost/array.hpp>\n#include <ros/pointer.h>\n#include <ros/time.h>\n" % name
    o += "".join("#include <%s.h>\n" % d for d in deps)
    o += "namespace %s {\nstruct %s {\n" % (pkg, cls)
    init = []
    for t, n in fields:
        c = ctype(t)
        if "[" in t and not t.endswith("[]"): o += "    %s %s;\n" % (c, n); init.append("%s.fill(%s());" % (n, ctype(t.split("[")[0])))
        elif "/" in t or t in ("string", "time", "duration") or t.endswith("[]"): o += "    %s %s;\n" % (c, n)
        else: o += "    %s %s = 0;\n" % (c, n)
    if init: o += "    %s() { %s }\n" % (cls, " ".join(init))
    if name == "sensor_msgs/PointField": o += "    enum { INT8 = 1, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };\n"
    o += "    typedef ros::pointer<%s> Ptr;\n    typedef ros::pointer<const %s> ConstPtr;\n};\ntypedef ros::pointer<%s> %sPtr;\ntypedef ros::pointer<const %s> %sConstPtr;\n}\n" % (cls, cls, cls, cls, cls, cls)
    return o


def repo_msgs(repo, out):
    """headers for the repository's own message definitions"""
    import glob, re
    for pkg in ("serpent", "statistics_msgs"):
        for f in sorted(glob.glob(os.path.join(repo, pkg, "msg", "*.msg"))):
            fields = []
            for l in open(f):
                l = l.split("#")[0].strip()
                if not l or "=" in l: continue
                t, n = l.split()
                b = t.split("[")[0]; s = t[len(b):]
                if b == "Header": b = "std_msgs/Header"
                elif "/" not in b and b not in PRIM and not re.match(r"u?int\d+$", b): b = pkg + "/" + b
                fields.append("%s%s %s" % (b, s, n))
            name = pkg + "/" + os.path.basename(f)[:-4]
            os.makedirs(os.path.join(out, pkg), exist_ok=True)
            open(os.path.join(out, name + ".h"), "w").write(header(name, "; ".join(fields)))


if __name__ == "__main__":
    import sys
    for n, s in MSGS.items():
        p = os.path.join(D, n + ".h"); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(header(n, s))
    if len(sys.argv) > 1: repo_msgs(sys.argv[1], D)
