// Camera tools, run as nodes: parameters and images in, images and camera information out.
#include "sv.h"
#include <camera_tools/change_frame_id.hpp>
#include <camera_tools/image_operations.hpp>
#include <camera_tools/publish_info.hpp>
#include <camera_tools/split_image.hpp>
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>
typedef XmlRpc::XmlRpcValue Value;
typedef sensor_msgs::Image Image; typedef sensor_msgs::CameraInfo Info;
static std::string nm(const char* n, int a, int b = -1) { std::string s = n; for (int v : {a, b}) if (v >= 0) s += "_" + std::to_string(v); return s; }
static Image image(int h, int w, const std::string& enc, int pad) {
    Image m; m.header.stamp = ros::Time(12, 345678000); m.header.frame_id = "camera"; m.header.seq = 3; m.height = h; m.width = w; m.encoding = enc; m.is_bigendian = 0; const int n = enc == "bgr8" ? 3 : enc == "32FC1" ? 4 : 1; m.step = w * n + pad; m.data.resize(m.step * h); for (std::size_t i = 0; i < m.data.size(); ++i) m.data[i] = sv_u8(nm("byte", (int)i).c_str(), 0, 255); return m;
}
struct At { int r, c; };
// a picture, known by where its pixels come from, and the pixel at its principal point
struct Picture { int h, w; std::vector<At> from; double x, y, fx, fy; At at(int r, int c) const { return from[r * w + c]; } };
static Picture crop(int u, int v, int w, int h, double cx, double cy, double fx, double fy) { Picture p{h, w, {}, cx, cy, fx, fy}; for (int r = 0; r < h; ++r) for (int c = 0; c < w; ++c) p.from.push_back({v + r, u + c}); return p; }
static Picture turn(const Picture& p) {  // a quarter, clockwise
    Picture q{p.w, p.h, {}, p.h - 1 - p.y, p.x, p.fy, p.fx}; for (int r = 0; r < q.h; ++r) for (int c = 0; c < q.w; ++c) q.from.push_back(p.at(p.h - 1 - c, r)); return q;
}
static Picture mirror(const Picture& p, bool x, bool y) { Picture q{p.h, p.w, {}, x ? p.w - 1 - p.x : p.x, y ? p.h - 1 - p.y : p.y, p.fx, p.fy}; for (int r = 0; r < q.h; ++r) for (int c = 0; c < q.w; ++c) q.from.push_back(p.at(y ? p.h - 1 - r : r, x ? p.w - 1 - c : c)); return q; }
static Picture turns(Picture p, int n) { for (int i = 0; i < ((n % 4) + 4) % 4; ++i) p = turn(p); return p; }
static void shows(const Image& o, const Image& in, const Picture& p) {
    const int n = in.encoding == "bgr8" ? 3 : in.encoding == "32FC1" ? 4 : 1; sv_check((int)o.height == p.h && (int)o.width == p.w && o.encoding == in.encoding && (int)o.step >= p.w * n && o.data.size() >= o.step * (p.h - 1) + p.w * n, "the image has the size of the region after the operations"); if ((int)o.height != p.h || (int)o.width != p.w || (int)o.step < p.w * n) return;
    for (int r = 0; r < p.h; ++r) for (int c = 0; c < p.w; ++c) for (int b = 0; b < n; ++b) sv_check(o.data[r * o.step + c * n + b] == in.data[p.at(r, c).r * in.step + p.at(r, c).c * n + b], "every pixel is where the operations put it");
}
static void describes(const Info& i, const Picture& p) {
    sv_check((int)i.height == p.h && (int)i.width == p.w, "camera information has the size of the image"); sv_eq(i.K[0], p.fx, "focal lengths follow the operations"); sv_eq(i.K[4], p.fy, "focal lengths follow the operations"); sv_check(i.K[2] >= p.x - 1e-3 && i.K[2] <= p.x + 1.001, "the principal point follows the pixels (to one pixel)"); sv_check(i.K[5] >= p.y - 1e-3 && i.K[5] <= p.y + 1.001, "the principal point follows the pixels (to one pixel)"); sv_eq(i.K[8], 1, "K is homogeneous"); for (int k : {1, 3, 6, 7}) sv_eq(i.K[k], 0, "K has no skew");
}
static Value config(const char* name, int u, int v, int w, int h, int cx, int cy, double fx, double fy, const double* d) {
    Value c; c["topic"] = std::string(name) + "/image"; c["info_topic"] = std::string(name) + "/info"; c["frame_id"] = std::string(name) + "_frame"; c["region"]["u"] = u; c["region"]["v"] = v; c["region"]["w"] = w; c["region"]["h"] = h; c["distortion"]["model"] = "plumb_bob"; const char* n[] = {"k1", "k2", "t1", "t2", "k3"}; for (int k = 0; k < 5; ++k) c["distortion"][n[k]] = d[k];
    c["intrinsic"]["fx"] = fx; c["intrinsic"]["fy"] = fy; c["intrinsic"]["cx"] = cx; c["intrinsic"]["cy"] = cy; return c;
}
static const char* FLIPS[] = {"horiz", "vert", "both"};
static Picture operate(Value& c, Picture p) {  // none, one, or (as parameters are sorted by name) a flip and then a turn
    const int o = sv_choice("operations", 5); if (o == 0) return p; int f = -1; if (o == 1 || o == 4) { f = sv_choice("flip", 3); c["operations"]["flip"] = FLIPS[f]; p = mirror(p, f != 1, f != 0); }
    if (o >= 2) { const int k = sv_choice("quarters", 5); c["operations"][o == 3 ? "rotate_acw" : "rotate_cw"] = 90 * k; p = turns(p, o == 3 ? -k : k); } return p;
}
static Info named(const Info& i) { return i; }
extern "C" {
void split_one() {
    const int enc = sv_choice("encoding", 3); const char* E[] = {"mono8", "bgr8", "32FC1"}; const int R[][4] = {{0, 0, 4, 3}, {1, 0, 2, 3}, {1, 1, 3, 2}, {3, 2, 1, 1}, {0, 1, 4, 1}}; const int* r = R[sv_choice("region", 5)]; const Image in = image(3, 4, E[enc], enc == 0 ? 2 : 0);
    double d[5]; for (int k = 0; k < 5; ++k) d[k] = sv_real(nm("d", k).c_str(), -1, 1); const double fx = sv_real("fx", 1, 1000), fy = sv_real("fy", 1, 1000); const int cx = sv_choice("cx", 2), cy = sv_choice("cy", 2); Value v, c = config("left", r[0], r[1], r[2], r[3], cx, cy, fx, fy, d); const bool plain = !c.hasMember("operations"); const Picture p = operate(c, crop(r[0], r[1], r[2], r[3], cx, cy, fx, fy)); (void)plain; v[0] = c; ros::world::set("images", v);
    new camera_tools::ImageSplitter(); sv_check(ros::world::send("input/image", in) == 1 && ros::world::count<Image>() == 1 && ros::world::count<Info>() == 1, "every region is published with its camera information"); if (ros::world::count<Image>() != 1 || ros::world::count<Info>() != 1) return; const Image& o = ros::world::published<Image>(0); const Info i = named(ros::world::published<Info>(0));
    sv_check(ros::world::topic<Image>(0) == "left/image" && ros::world::topic<Info>(0) == "left/info", "regions are published on their topics"); sv_check(o.header.stamp == in.header.stamp && o.header.frame_id == "left_frame" && i.header.stamp == in.header.stamp && i.header.frame_id == "left_frame", "both carry the stamp of the image and the frame of the region"); shows(o, in, p); describes(i, p);
    sv_check(i.distortion_model == "plumb_bob" && i.D.size() == 5, "the distortion is the configured one"); if (i.D.size() == 5) for (int k = 0; k < 5; ++k) sv_eq(i.D[k], d[k], "the distortion is the configured one"); if (!c.hasMember("operations")) { const double P[] = {fx, 0, (double)cx, 0, 0, fy, (double)cy, 0, 0, 0, 1, 0}; for (int k = 0; k < 12; ++k) sv_eq(i.P[k], P[k], "the projection is that of the intrinsics"); }
    sv_cover("split_one:end");
}
void split_two() {  // regions do not affect each other, and every image is treated alike
    const double d[5] = {0.1, 0.2, 0.3, 0.4, 0.5}; Value v, a = config("a", 0, 0, 2, 2, 1, 1, 5, 6, d), b = config("b", 1, 0, 2, 2, 0, 1, 7, 8, d); Picture p = crop(0, 0, 2, 2, 1, 1, 5, 6), q = crop(1, 0, 2, 2, 0, 1, 7, 8); p = operate(a, p); b["operations"]["rotate_acw"] = 90; q = turns(q, -1); v[0] = a; v[1] = b; ros::world::set("images", v); new camera_tools::ImageSplitter();
    for (int k = 0; k < 2; ++k) { const Image in = image(2, 3, "mono8", 0); ros::world::send("input/image", in); sv_check((int)ros::world::count<Image>() == 2 * k + 2 && (int)ros::world::count<Info>() == 2 * k + 2, "every image gives every region once"); if ((int)ros::world::count<Image>() != 2 * k + 2) return; shows(ros::world::published<Image>(2 * k), in, p); describes(ros::world::published<Info>(2 * k), p); shows(ros::world::published<Image>(2 * k + 1), in, q); describes(ros::world::published<Info>(2 * k + 1), q); sv_check(ros::world::published<Image>(2 * k).header.frame_id == "a_frame" && ros::world::published<Info>(2 * k + 1).header.frame_id == "b_frame" && ros::world::topic<Image>(2 * k + 1) == "b/image", "regions keep their own topics and frames"); }
    sv_cover("split_two:end");
}
void split_refused() {
    const double d[5] = {0, 0, 0, 0, 0}; const int w = sv_choice("what", 8); Value v, c = config("a", 0, 0, 2, 2, 1, 1, 5, 6, d); bool valid = false, threw = false;
    if (w == 0) { const int deg = sv_choice("degrees", 73) * 15 - 540; valid = deg % 90 == 0; c["operations"][sv_choice("acw", 2) ? "rotate_acw" : "rotate_cw"] = deg; if (deg < 0 || deg > 270) return; } else if (w == 1) c["operations"]["flip"] = "sideways"; else if (w == 2) c["operations"]["shear"] = 1; else if (w == 3) c["operations"][0] = "flip"; else if (w == 4) c["region"] = Value("all"); else if (w == 5) c = Value("a"); else if (w == 6) c["region"]["u"] = "left";
    if (w == 7) ros::world::set("images", c); else { v[0] = c; ros::world::set("images", v); } try { new camera_tools::ImageSplitter(); } catch (const std::exception&) { threw = true; } sv_check(threw == !valid, "operations and regions that make no sense are refused, documented ones are not"); sv_cover(threw ? "split_refused:refused" : "split_refused:accepted");
}
void split_outside() {
    const int u = sv_choice("u", 4), v = sv_choice("v", 4), w = 1 + sv_choice("w", 3), h = 1 + sv_choice("h", 3); const double d[5] = {0, 0, 0, 0, 0}; Value c; c[0] = config("a", u, v, w, h, 0, 0, 1, 1, d); ros::world::set("images", c); new camera_tools::ImageSplitter(); bool threw = false; try { ros::world::send("input/image", image(2, 3, "mono8", 0)); } catch (const std::exception&) { threw = true; }
    sv_check(threw == !(u + w <= 3 && v + h <= 2), "regions outside the image are refused"); sv_check(ros::world::count<Image>() == (threw ? 0u : 1u), "regions outside the image are not published"); sv_cover(threw ? "split_outside:refused" : "split_outside:end");
}
void operation_laws() {
    Info i; i.height = sv_u32("height", 1, 4000); i.width = sv_u32("width", 1, 4000); for (int k = 0; k < 9; ++k) i.K[k] = sv_real(nm("K", k).c_str(), -4000, 4000); i.header.frame_id = "f"; for (int k = 0; k < 12; ++k) i.P[k] = sv_real(nm("P", k).c_str(), -10, 10); i.D = {sv_real("D", -1, 1)}; sv_tol(1e-9);
    camera_tools::Rotate cw(90), half(180), ccw(270), cw2(cv::ROTATE_90_CLOCKWISE), ccw2(cv::ROTATE_90_COUNTERCLOCKWISE), half2(cv::ROTATE_180); camera_tools::Flip fh(camera_tools::Flip::FLIP_HORIZ), fv(camera_tools::Flip::FLIP_VERT), fb(camera_tools::Flip::FLIP_BOTH); typedef camera_tools::ImageOperation Op;
    auto run = [&](std::vector<Op*> o) { Info x = i; for (Op* p : o) x = p->apply(x); return x; }; auto same = [&](const Info& a, const Info& b, const char* m) { sv_check(a.height == b.height && a.width == b.width && a.header.frame_id == b.header.frame_id, m); for (int k = 0; k < 9; ++k) sv_eq(a.K[k], b.K[k], m); };
    same(run({&cw, &cw, &cw, &cw}), i, "four quarter turns are none"); same(run({&cw, &ccw}), i, "turning back undoes a turn"); same(run({&cw, &cw}), run({&half}), "two quarters are a half turn"); same(run({&cw, &cw, &cw}), run({&ccw}), "three quarters are a quarter back"); same(run({&half, &half}), i, "two half turns are none");
    same(run({&fh, &fh}), i, "flips undo themselves"); same(run({&fv, &fv}), i, "flips undo themselves"); same(run({&fb, &fb}), i, "flips undo themselves"); same(run({&fh, &fv}), run({&fb}), "flipping both is flipping each"); same(run({&fb}), run({&half}), "flipping both is a half turn"); same(run({&fh, &cw}), run({&ccw, &fh}), "flips reverse turns"); same(run({&cw2}), run({&cw}), "turns by name"); same(run({&ccw2}), run({&ccw}), "turns by name"); same(run({&half2}), run({&half}), "turns by name");
    sv_cover("operation_laws:end");
}
void publish_info() {
    const char* k[] = {"K/fx", "K/cx", "K/fy", "K/cy", "P/fx", "P/cx", "P/fy", "P/cy", "P/baseline"}; const int mask = sv_choice("given", 4); double p[9]; for (int i = 0; i < 9; ++i) { p[i] = 0; if (mask >> (i & 1) & 1) ros::world::set(k[i], p[i] = sv_real(nm("p", i).c_str(), -1000, 1000)); } const int n = sv_choice("D", 3); std::vector<double> D; for (int i = 0; i < n; ++i) D.push_back(sv_real(nm("D", i).c_str(), -1, 1)); if (n) ros::world::set("distortion_coefficients", D); if (n) ros::world::set("distortion_model", "plumb_bob"); sv_tol(1e-6);
    new camera_tools::PublishInfo(); for (int f = 0; f < 2; ++f) {
        Image in = image(1 + f, 2, "mono8", 0); in.header.stamp.sec += f; ros::world::send("input/image", in); sv_check((int)ros::world::count<Info>() == f + 1, "every image gets its camera information"); if ((int)ros::world::count<Info>() != f + 1) return; const Info& o = ros::world::published<Info>(f); sv_check(ros::world::topic<Info>(f) == "output/camera_info" && o.header.stamp == in.header.stamp && o.header.frame_id == "camera" && o.height == in.height && o.width == in.width, "the information is that of the image"); sv_check(o.distortion_model == (n ? "plumb_bob" : "") && (int)o.D.size() == n, "the distortion is the configured one"); if ((int)o.D.size() == n) for (int i = 0; i < n; ++i) sv_eq(o.D[i], D[i], "the distortion is the configured one");
        const double K[] = {p[0], 0, p[1], 0, p[2], p[3], 0, 0, 1}, P[] = {p[4], 0, p[5], -p[4] * p[8], 0, p[6], p[7], 0, 0, 0, 1, 0}; for (int i = 0; i < 9; ++i) { sv_eq(o.K[i], K[i], "the intrinsics are the configured ones"); sv_eq(o.R[i], i % 4 == 0, "no rectifying rotation"); } for (int i = 0; i < 12; ++i) sv_eq(o.P[i], P[i], "the projection is the configured one");
    }
    sv_cover("publish_info:end");
}
void change_frame() {
    const bool given = sv_choice("given", 2) != 0; const int order = sv_choice("order", 4); if (given) ros::world::set("frame_id", "new_frame"); new camera_tools::ChangeFrameId(); const Image in = image(1, 2, "mono8", 0); Info i; i.header = in.header; i.header.frame_id = "other"; i.height = 1; i.width = 2; i.K[0] = sv_real("K", 0, 100); Info late = i; late.header.stamp.sec += 1;
    if (order == 0) { ros::world::send("input/image", in); sv_check(!ros::world::count<Image>(), "image and information go together"); ros::world::send("input/camera_info", i); } else if (order == 1) { ros::world::send("input/camera_info", i); ros::world::send("input/image", in); } else if (order == 2) { ros::world::send("input/image", in); ros::world::send("input/camera_info", late); sv_check(!ros::world::count<Image>() && !ros::world::count<Info>(), "only those with the same stamp go together"); sv_cover("change_frame:apart"); return; } else { ros::world::send("input/camera_info", late); ros::world::send("input/image", in); ros::world::send("input/camera_info", i); }
    sv_check(ros::world::count<Image>() == 1 && ros::world::count<Info>() == 1 && ros::world::topic<Image>(0) == "output/image" && ros::world::topic<Info>(0) == "output/camera_info", "image and information are published once"); if (ros::world::count<Image>() != 1 || ros::world::count<Info>() != 1) return; const Image& a = ros::world::published<Image>(0); const Info& b = ros::world::published<Info>(0);
    if (given) sv_check(a.header.frame_id == "new_frame" && b.header.frame_id == "new_frame", "both carry the new frame"); sv_check(a.header.frame_id == b.header.frame_id && a.header.stamp == in.header.stamp && b.header.stamp == in.header.stamp, "the stamp stays"); sv_check(a.data == in.data && a.height == 1 && a.width == 2 && a.step == in.step && a.encoding == "mono8" && b.height == 1 && b.width == 2, "nothing else changes"); sv_eq(b.K[0], i.K[0], "nothing else changes"); sv_cover("change_frame:end");
}
}
