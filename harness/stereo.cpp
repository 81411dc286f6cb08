// Stereo front end: window functions, matching costs, keypoint matcher, match filters, stereo geometry.
#include "sv.h"
#include "sv_eigen.h"
#include <opencv2/core.hpp>
#include <serpent/front_end/stereo/window_functions.hpp>
#include <serpent/front_end/stereo/stereo_cost_functions.hpp>
#include <serpent/front_end/stereo/stereo_keypoint_matcher.hpp>
#include <serpent/front_end/stereo/match_filters.hpp>
#include <serpent/front_end/stereo/stereo_equations.hpp>
#include <cmath>
#include <limits>
#include <string>
#include <vector>
using namespace serpent;
typedef StereoKeyPointMatcher::MatchingFilter Filter;

struct Img {
    int rows, cols; std::vector<unsigned char> px; cv::Mat mat;
    Img(const char* n, int r, int c, int hi = 255, int pad = 0) : rows(r), cols(c), px((c + pad) * r) {
        for (int i = 0; i < r; ++i) for (int j = 0; j < c + pad; ++j) px[i * (c + pad) + j] = j < c ? sv_u8(sv::idx(n, i, j).c_str(), 0, hi) : 77;
        mat = cv::Mat(r, c, CV_8U, px.data(), c + pad); stride = c + pad;
    }
    int stride; double at(int y, int x) const { return px[y * stride + x]; }
};
static double absd(double v) { return v < 0 ? -v : v; }
static double wsum(const Img& m, int x, int y, int w, int h) { double s = 0; for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) s += m.at(y + j, x + i); return s; }
static double wsq(const Img& m, int x, int y, int w, int h) { double s = 0; for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) s += m.at(y + j, x + i) * m.at(y + j, x + i); return s; }
// Independent specification of the five matching costs.
static double cost_spec(int kind, const Img& a, const Img& b, int ax, int ay, int bx, int by, int w, int h) {
    double s = 0; const double n = w * h;
    const double m1 = wsum(a, ax, ay, w, h) / n, m2 = wsum(b, bx, by, w, h) / n;
    for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) {
        const double p = a.at(ay + j, ax + i), q = b.at(by + j, bx + i);
        switch (kind) {
            case 0: s += absd(p - q); break;
            case 1: s += (p - q) * (p - q); break;
            case 2: s += absd((p - m1) - (q - m2)); break;
            case 3: s += absd(p - m1 / m2 * q); break;
            default: s += p * q;
        }
    }
    if (kind == 4) s = -s / std::sqrt(wsq(a, ax, ay, w, h) * wsq(b, bx, by, w, h));
    return s;
}
static void window_case(int* w, int* h, int* x, int* y, const char* n, int cols, int rows) {
    *x = sv_choice((std::string(n) + "x").c_str(), cols - *w + 1); *y = sv_choice((std::string(n) + "y").c_str(), rows - *h + 1);
}
static double code_cost(int kind, const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& s) {
    switch (kind) {
        case 0: return sum_of_absolute_differences(a, b, p, q, s);
        case 1: return sum_of_squared_differences(a, b, p, q, s);
        case 2: return zero_mean_sum_of_absolute_differences(a, b, p, q, s);
        case 3: return locally_scaled_sum_of_absolute_differences(a, b, p, q, s);
        default: return negative_normalised_cross_correlation(a, b, p, q, s);
    }
}
static void cost_value(int kind, int rows, int cols, int w, int h, int pad) {
    Img a("a", rows, cols, 255, pad), b("b", rows, cols, 255, pad); int ax, ay, bx, by;
    window_case(&w, &h, &ax, &ay, "a", cols, rows); window_case(&w, &h, &bx, &by, "b", cols, rows);
    if (kind == 3) sv_assume(wsum(b, bx, by, w, h) > 0);
    if (kind == 4) { sv_assume(wsum(a, ax, ay, w, h) > 0); sv_assume(wsum(b, bx, by, w, h) > 0); }
    sv_eq(code_cost(kind, a.mat, b.mat, {ax, ay}, {bx, by}, {w, h}), cost_spec(kind, a, b, ax, ay, bx, by, w, h), "matching cost of two windows");
}
static cv::Ptr<StereoKeyPointMatcher> matcher(int kind, const cv::Size& s, float v, Filter f, double r) {
    switch (kind) {
        case 0: return SADStereoKeyPointMatcher::create(s, v, f, r);
        case 1: return SSDStereoKeyPointMatcher::create(s, v, f, r);
        case 2: return ZeroMeanSADStereoKeyPointMatcher::create(s, v, f, r);
        case 3: return LocallyScaledSADStereoKeyPointMatcher::create(s, v, f, r);
        default: return NCCStereoKeyPointMatcher::create(s, v, f, r);
    }
}
extern "C" {
// ---- windows ----
void window_values() {
    Img a("a", 3, 4, 255, 1); int w = 1 + sv_choice("w", 4), h = 1 + sv_choice("h", 3), x, y; window_case(&w, &h, &x, &y, "", 4, 3);
    const double s = wsum(a, x, y, w, h);
    sv_eq(window_sum(a.mat, {x, y}, {w, h}), s, "sum of the window"); sv_eq(window_mean(a.mat, {x, y}, {w, h}) * (w * h), s, "mean of the window");
    sv_eq(window_sum_squares(a.mat, {x, y}, {w, h}), wsq(a, x, y, w, h), "sum of squares of the window");
    sv_cover("window_values:end");
}
void window_inside() {
    unsigned char px[1] = {0}; const int cols = sv_i32("cols", 1, 2000), rows = sv_i32("rows", 1, 2000), w = sv_i32("w", 0, 2000), h = sv_i32("h", 0, 2000), x = sv_i32("x", -5000, 5000), y = sv_i32("y", -5000, 5000);
    cv::Mat m; m.rows = rows; m.cols = cols; m.data = px;
    const bool in = x >= 0 && y >= 0 && x + w <= cols && y + h <= rows;
    sv_check(window_within_image(m, {x, y}, {w, h}) == in, "a window is inside exactly when all of its pixels are");
    m.data = nullptr; m.rows = m.cols = 0;
    if (in) sv_cover("window_inside:in"); else sv_cover("window_inside:out");
}
// ---- costs ----
void cost_sad() { cost_value(0, 2, 3, 1 + sv_choice("w", 3), 1 + sv_choice("h", 2), 1); sv_cover("cost_sad:end"); }
void cost_ssd() { cost_value(1, 2, 3, 1 + sv_choice("w", 3), 1 + sv_choice("h", 2), 1); sv_cover("cost_ssd:end"); }
void cost_zsad() { cost_value(2, 2, 3, 1 + sv_choice("w", 3), 1 + sv_choice("h", 2), 1); sv_cover("cost_zsad:end"); }
void cost_lsad() { cost_value(3, 2, 2, 1 + sv_choice("w", 2), 1 + sv_choice("h", 2), 1); sv_cover("cost_lsad:end"); }
void cost_ncc() { cost_value(4, 2, 2, 1 + sv_choice("w", 2), 1 + sv_choice("h", 2), 1); sv_cover("cost_ncc:end"); }
void cost_given() {
    // overloads that take the first window's statistic
    Img a("a", 1, 2), b("b", 1, 2); const double m = sv_real("m", 1, 255), m2 = (b.at(0, 0) + b.at(0, 1)) / 2; sv_assume(m2 > 0);
    const cv::Point2i o(0, 0); const cv::Size s(2, 1); double z = 0, l = 0, c = 0;
    for (int i = 0; i < 2; ++i) { z += absd((a.at(0, i) - m) - (b.at(0, i) - m2)); l += absd(a.at(0, i) - m / m2 * b.at(0, i)); c += a.at(0, i) * b.at(0, i); }
    switch (sv_choice("kind", 3)) {
        case 0: sv_eq(zero_mean_sum_of_absolute_differences(a.mat, b.mat, o, o, s, m), z, "zero-mean cost with a given mean"); break;
        case 1: sv_eq(locally_scaled_sum_of_absolute_differences(a.mat, b.mat, o, o, s, m), l, "locally scaled cost with a given mean"); break;
        default: sv_eq(negative_normalised_cross_correlation(a.mat, b.mat, o, o, s, m), -c / std::sqrt(m * wsq(b, 0, 0, 2, 1)), "correlation cost with given energy");
    }
    sv_cover("cost_given:end");
}
void cost_type() {
    // only 8-bit images are accepted
    Img a("a", 1, 1); float f[1] = {1.f}; cv::Mat g(1, 1, CV_32F, f); const int kind = sv_choice("kind", 5), which = sv_choice("which", 3); bool threw = false;
    try { code_cost(kind, which == 1 ? a.mat : g, which == 0 ? a.mat : g, {0, 0}, {0, 0}, {1, 1}); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw, "images that are not 8-bit are rejected"); sv_cover("cost_type:end");
}
// ---- stereo geometry ----
void backproject_project() {
    Eigen::Matrix3d K = Eigen::Matrix3d::Identity(); K(0, 0) = sv_real("fx", 1, 1000); K(1, 1) = sv_real("fy", 1, 1000); K(0, 2) = sv_real("cx", -1000, 1000); K(1, 2) = sv_real("cy", -1000, 1000); K(0, 1) = sv_real("skew", -1, 1);
    const double b = sv_real("b", 0.01, 10); const Eigen::Vector3d s = sv::vector<3>("s", -1000, 1000);
    bool threw = false; Eigen::Vector3d p = Eigen::Vector3d::Zero();
    try { p = stereo_backproject(s, K, b); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == (s(0) == s(1)), "exactly zero disparity is rejected"); if (threw) { sv_cover("backproject_project:reject"); return; }
    const double d = s(0) - s(1);
    sv_eq(p(2) * d, b * K(0, 0), "depth is focal length times baseline over disparity");
    sv_eq(p(0) * K(0, 0), p(2) * (s(0) - K(0, 2)), "x lies on the left ray"); sv_eq(p(1) * K(1, 1), p(2) * (s(2) - K(1, 2)), "y lies on the left ray");
    sv_cover("backproject_project:end");
}
void project_value() {
    Eigen::Matrix3d K = Eigen::Matrix3d::Identity(); K(0, 0) = sv_real("fx", 1, 1000); K(1, 1) = sv_real("fy", 1, 1000); K(0, 2) = sv_real("cx", -1000, 1000); K(1, 2) = sv_real("cy", -1000, 1000);
    const double b = sv_real("b", 0.01, 10); const Eigen::Vector3d p = sv::vector<3>("p", -100, 100);
    bool threw = false; Eigen::Vector3d s = Eigen::Vector3d::Zero();
    try { s = stereo_project(p, K, b); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == !(p(2) > 0), "exactly points on or behind the image plane are rejected"); if (threw) { sv_cover("project_value:reject"); return; }
    sv_eq((s(0) - K(0, 2)) * p(2), K(0, 0) * p(0), "left coordinate"); sv_eq((s(1) - K(0, 2)) * p(2), K(0, 0) * (p(0) - b), "right coordinate"); sv_eq((s(2) - K(1, 2)) * p(2), K(1, 1) * p(1), "vertical coordinate");
    const Eigen::Vector3d q = stereo_backproject(s, K, b);
    sv::eq(q, p, "backprojecting the projection gives the point");
    sv_cover("project_value:end");
}
void project_float() {
    sv_tol(1e-2);
    Eigen::Matrix3f K = Eigen::Matrix3f::Identity(); K(0, 0) = sv_realf("fx", 1, 100); K(1, 1) = sv_realf("fy", 1, 100); K(0, 2) = sv_realf("cx", -100, 100); K(1, 2) = sv_realf("cy", -100, 100);
    const float b = sv_realf("b", 0.125, 10); Eigen::Vector3f s; s << sv_realf("s0", -100, 100), sv_realf("s1", -100, 100), sv_realf("s2", -100, 100); sv_assume(s(0) - s(1) > 0.25f);
    sv::eq(stereo_project(stereo_backproject(s, K, b), K, b), s, "projecting the backprojection gives the coordinates");
    sv_cover("project_float:end");
}
// ---- match filters ----
static std::vector<cv::DMatch> make_matches(int n, int nq, int nt) {
    std::vector<cv::DMatch> m;
    for (int i = 0; i < n; ++i) m.emplace_back(sv_choice(sv::idx("q", i).c_str(), nq), sv_choice(sv::idx("t", i).c_str(), nt), sv_realf(sv::idx("d", i).c_str(), -100, 100));
    return m;
}
static std::vector<cv::KeyPoint> make_keypoints(const char* n, int k) {
    std::vector<cv::KeyPoint> v; for (int i = 0; i < k; ++i) v.emplace_back(sv_realf(sv::idx(n, i, 0).c_str(), -100, 100), sv_realf(sv::idx(n, i, 1).c_str(), -100, 100), 1.f); return v;
}
static void same_matches(const std::vector<cv::DMatch>& in, const std::vector<cv::DMatch>& out, const std::vector<std::size_t>& idx, const std::vector<bool>& keep) {
    std::size_t k = 0;
    for (std::size_t i = 0; i < in.size(); ++i) {
        if (!keep[i]) continue;
        sv_check(k < out.size() && k < idx.size(), "every match that satisfies the condition is kept"); if (!(k < out.size() && k < idx.size())) return;
        sv_check(idx[k] == i, "reported indices are the positions of the kept matches, in order");
        sv_check(out[k].queryIdx == in[i].queryIdx && out[k].trainIdx == in[i].trainIdx, "kept matches are unchanged"); sv_eq(out[k].distance, in[i].distance, "kept matches are unchanged"); ++k;
    }
    sv_check(out.size() == k && idx.size() == k, "every other match is removed");
}
void filter_distance() {
    const int n = sv_choice("n", 4); const float thr = sv_realf("threshold", -100, 100); const std::vector<cv::DMatch> m = make_matches(n, 1, 1);
    std::vector<bool> keep; for (int i = 0; i < n; ++i) keep.push_back(sv_split(m[i].distance <= thr));
    const cv::Ptr<DistanceMatchFilter> f = DistanceMatchFilter::create(thr); { std::vector<cv::DMatch> first(2, cv::DMatch(0, 0, -100.f)); f->filter(first); }  // state of an earlier call must not leak
    const std::vector<cv::DMatch> o = f->filter(m); same_matches(m, o, f->indices(), keep);
    std::vector<std::size_t> idx(3, 9); const std::vector<cv::DMatch> p = DistanceMatchFilter::filter(m, thr, idx); same_matches(m, p, idx, keep);
    sv_cover("filter_distance:end");
}
void filter_distance_default() {
    const float d = sv_realf("d", -1e9f, 1e9f); DistanceMatchFilter f; const std::vector<cv::DMatch> m(1, cv::DMatch(0, 0, d));
    sv_check(f.filter(m).size() == 1 && f.indices().size() == 1, "without a threshold every match is kept"); sv_cover("filter_distance_default:end");
}
void filter_stereo() {
    const int n = sv_choice("n", 3); const std::vector<cv::KeyPoint> q = make_keypoints("kq", 2), t = make_keypoints("kt", 2); const std::vector<cv::DMatch> m = make_matches(n, 2, 2);
    const float thr = sv_realf("threshold", 0, 50); std::vector<bool> keep;
    for (int i = 0; i < n; ++i) {
        const double lx = q[m[i].queryIdx].pt.x, ly = q[m[i].queryIdx].pt.y, rx = t[m[i].trainIdx].pt.x, ry = t[m[i].trainIdx].pt.y;
        sv_assume(absd(absd(ly - ry) - thr) > 1e-3); sv_assume(lx == rx || absd(lx - rx) > 1e-3);
        keep.push_back(sv_split(lx > rx && ly - ry <= thr && ry - ly <= thr));
    }
    const cv::Ptr<StereoMatchFilter> f = StereoMatchFilter::create(sv_choice("set", 2) ? 1.0f : thr); f->set_vertical_pixel_threshold(thr);
    sv_eq(f->vertical_pixel_threshold(), thr, "threshold is stored");
    same_matches(m, f->filter(q, t, m), f->indices(), keep);
    std::vector<std::size_t> idx(3, 9); same_matches(m, StereoMatchFilter::filter(q, t, m, thr, idx), idx, keep);
    sv_cover("filter_stereo:end");
}
void filter_stereo_distance() {
    const int n = sv_choice("n", 3); const std::vector<cv::KeyPoint> q = make_keypoints("kq", 2), t = make_keypoints("kt", 2); const std::vector<cv::DMatch> m = make_matches(n, 2, 2);
    const float fx = sv_realf("fx", 1, 100), b = sv_realf("b", 0.125f, 4), lo = sv_realf("lo", 0, 50), hi = sv_realf("hi", 0, 100); std::vector<bool> keep;
    for (int i = 0; i < n; ++i) {
        const double d = (double)q[m[i].queryIdx].pt.x - t[m[i].trainIdx].pt.x, fb = (double)fx * b;
        sv_assume(absd(d) > 1e-2 && absd(fb - lo * d) > 1e-1 && absd(fb - hi * d) > 1e-1);
        keep.push_back(sv_split(d > 0 && fb >= lo * d && fb <= hi * d));
    }
    const int how = sv_choice("how", 5);  // given to the constructor, or one or both of them set afterwards, in either order
    const cv::Ptr<StereoDistanceFilter> f = StereoDistanceFilter::create(how == 1 || how > 2 ? 7.f : fx, how >= 2 ? 3.f : b, hi, lo);
    if (how == 4) f->set_baseline(b); if (how == 1 || how > 2) f->set_fx(fx); if (how == 2 || how == 3) f->set_baseline(b);
    same_matches(m, f->filter(q, t, m), f->indices(), keep);
    sv_cover("filter_stereo_distance:end");
}
}
// ---- keypoint matcher ----
static Filter filter_of(int f) { return f == 0 ? Filter::UNIDIRECTIONAL : f == 1 ? Filter::BIDIRECTIONAL : Filter::RATIO_TEST; }
// A matcher with an arbitrary cost function: one unconstrained cost per pair of windows. The cost function handed out for a
// reference window carries that window's statistics, so it must only be used on that window.
struct TableMatcher : StereoKeyPointMatcher {
    double c[4][4];
    TableMatcher(const cv::Size& s, float v, Filter f, double r, int n) : StereoKeyPointMatcher(s, v, f, r) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) c[i][j] = sv_real(sv::idx("c", i, j).c_str(), -100, 100); }
    MatchingCostFunction generate_cost_function(const cv::Mat& im, const cv::Point2i& tl) const override {
        const unsigned char* bound = im.data; const cv::Point2i at = tl;
        return [this, bound, at](const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& s) {
            sv_check(bound == a.data && at.x == p.x && at.y == p.y, "a cost function is only applied to the window it was made for");
            sv_check(s.width == window.width && s.height == window.height && p.y == q.y, "windows of the configured size on the same row are compared");
            const bool in = p.x >= 0 && q.x >= 0 && p.x + s.width <= a.cols && q.x + s.width <= b.cols; sv_check(in, "windows stay inside the images");
            return in ? c[p.x][q.x] : 0.0;
        };
    }
};
// Scan along the row in the other image: W x H images, w x h window; C[reference][searched] are the costs.
static void scan(int W, int H, int w, int h, int filt) {
    Img L("l", H, W, 3), R("r", H, W, 3); const bool right = sv_choice("right", 2); const int n0 = W - w + 1;
    const int cx = sv_choice("cx", W + 2) - 1, cy = sv_choice("cy", H + 2) - 1; const float fx = sv_realf("fx", 0, 0.875f), fy = sv_realf("fy", 0, 0.875f), ang = sv_realf("angle", 0, 359);
    const double ratio = filt == 2 ? sv_real("ratio", 0.01, 0.99) : 0.5;
    const TableMatcher m({w, h}, 1.f, filter_of(filt), ratio, n0);
    const cv::KeyPoint kp(cx + fx, cy + fy, 3.f, ang, 0.5f, 2, 9);
    const int x0 = cx - (w - 1) / 2, y0 = cy - (h - 1) / 2; const bool inside = x0 >= 0 && y0 >= 0 && x0 + w <= W && y0 + h <= H;
    double c[8]; int n = 0, xs[8];
    if (inside) for (int x = x0; x >= 0 && x < n0; x += right ? -1 : 1) { xs[n] = x; c[n++] = m.c[x0][x]; }
    double cost = -700; bool matched = true;
    const cv::KeyPoint o = m.keypoint_in_other_image(kp, L.mat, R.mat, right, cost, matched);
    if (!inside) { sv_check(!matched, "a keypoint whose window leaves the image is not matched"); return; }
    const double px = (double)o.pt.x - w / 2.0; int k = -1;
    for (int i = 0; i < n; ++i) if (sv_split(px == xs[i])) { k = i; break; }
    sv_check(k >= 0, "the match is on the searched side of the keypoint, within the image"); if (k < 0) return;
    sv_eq(o.pt.y, y0 + h / 2.0, "the match is on the same row");
    sv_check(o.octave == 2 && o.class_id == 9, "other keypoint fields are kept"); sv_eq(o.size, 3, "other keypoint fields are kept"); sv_eq(o.angle, ang, "other keypoint fields are kept"); sv_eq(o.response, 0.5, "other keypoint fields are kept");
    sv_eq(cost, c[k], "reported cost is the cost of the match");
    for (int i = 0; i < n; ++i) sv_check(c[i] >= cost, "no other candidate has a lower cost");
    if (filt == 0) sv_check(matched, "the best candidate is accepted");
    if (filt == 2) {
        if (n == 1) { sv_check(matched, "a single candidate passes the ratio test"); return; }
        for (int i = 0; i < n; ++i) sv_assume(c[i] >= 0);
        double s = 1e300; for (int i = 0; i < n; ++i) if (i != k && sv_split(c[i] < s)) s = c[i];
        sv_assume(s > 0.1 && (c[k] > ratio * s + 1e-6 || c[k] < ratio * s - 1e-6));
        sv_check(matched == (c[k] < ratio * s), "accepted exactly when the best cost is below the ratio times the second best");
    }
    if (filt == 1) {
        bool better = false;
        for (int x = xs[k]; x >= 0 && x < n0; x += right ? 1 : -1) if (x != x0 && sv_split(m.c[x][xs[k]] < c[k])) better = true;
        sv_check(matched == !better, "accepted exactly when searching back finds no better window");
    }
}
// The built-in matchers use their own cost: a keypoint with a single candidate window.
static void binding(int kind) {
    Img L("l", 1, 3, 255), R("r", 1, 3, 255); const bool right = sv_choice("right", 2), given = sv_choice("given", 2);
    if (kind >= 3) sv_assume(wsum(L, 0, 0, 3, 1) > 0 && wsum(R, 0, 0, 3, 1) > 0);
    const cv::Ptr<StereoKeyPointMatcher> m = matcher(kind, {3, 1}, 1.f, Filter::UNIDIRECTIONAL, 0.5);
    const cv::KeyPoint k(1.5f, 0.5f, 1.f); double c = -7; bool ok = false;
    if (given) sv_check(m->keypoint_index_in_other_image(k, {k}, L.mat, R.mat, right, c) == 0, "the only candidate is the match");
    else { m->keypoint_in_other_image(k, L.mat, R.mat, right, c, ok); sv_check(ok, "the only candidate is the match"); }
    sv_eq(c, right ? cost_spec(kind, L, R, 0, 0, 0, 0, 3, 1) : cost_spec(kind, R, L, 0, 0, 0, 0, 3, 1), "the matcher uses the cost it is named after");
}
// Matching against given keypoints.
struct Kp { double x, y; int cx, cy; };
static std::vector<cv::KeyPoint> points(const char* n, int k, int W, Kp* s, bool rows, bool cols = false) {
    std::vector<cv::KeyPoint> v;
    for (int i = 0; i < k; ++i) { const int cx = sv_choice(sv::idx((std::string(n) + "x").c_str(), i).c_str(), W + 1); const float fy = rows ? sv_realf(sv::idx((std::string(n) + "y").c_str(), i).c_str(), 0, 0.875f) : 0.5f;
        const float fx = cols ? sv_realf(sv::idx((std::string(n) + "f").c_str(), i).c_str(), 0, 0.875f) : 0.5f;
        s[i] = {cx + (double)fx, (double)fy, cx, 0}; v.emplace_back(cx + fx, fy, 1.f); }
    return v;
}
// First best candidate among the eligible ones; c[i] is the cost against candidate i.
static int best_of(const double* c, int W, const Kp& k, const Kp* o, int n, bool right, double thr, double* best, double* second) {
    int b = -1; *best = *second = 1e300;
    if (k.cx >= W) return -1;
    for (int i = 0; i < n; ++i) {
        if (!sv_split(absd(o[i].y - k.y) <= thr) || o[i].cx >= W || sv_split(right ? o[i].x > k.x : o[i].x < k.x)) continue;
        if (sv_split(c[i] < *best)) { *second = *best; *best = c[i]; b = i; } else if (sv_split(c[i] < *second)) *second = c[i];
    }
    return b;
}
static void index_one(int W, int n, int filt, bool rows = true, bool cols = false) {
    Img L("l", 1, W, 3), R("r", 1, W, 3); const bool right = sv_choice("right", 2); Kp k[1], o[3];
    const std::vector<cv::KeyPoint> a = points("k", 1, W, k, rows, cols), b = points("o", n, W, o, rows, cols);
    const float thr = rows ? sv_realf("threshold", 0, 1) : 0.5f; const double ratio = filt == 2 ? sv_real("ratio", 0.01, 0.99) : 0.5;
    for (int i = 0; i < n; ++i) sv_assume(absd(absd(o[i].y - k[0].y) - thr) > 1e-3);
    if (cols) for (int i = 0; i < n; ++i) sv_assume(o[i].x == k[0].x || absd(o[i].x - k[0].x) > 1e-3);
    const TableMatcher m({1, 1}, thr, filter_of(filt), ratio, W); double c[3]; for (int i = 0; i < n; ++i) { c[i] = k[0].cx < W && o[i].cx < W ? m.c[k[0].cx][o[i].cx] : 0; if (filt == 2) sv_assume(c[i] >= 0); }
    double cost = -700; const int got = m.keypoint_index_in_other_image(a[0], b, L.mat, R.mat, right, cost);
    double best, second; const int e = best_of(c, W, k[0], o, n, right, thr, &best, &second);
    if (filt == 2 && e >= 0 && second < 1e299) { sv_assume(second > 0.1 && (best > ratio * second + 1e-6 || best < ratio * second - 1e-6)); sv_check(got == (best < ratio * second ? e : -1), "ratio test against the second-best candidate"); return; }
    sv_check(got == e, "index of the first best candidate on the right side, within the vertical threshold and with its window inside the image");
    if (got >= 0) sv_eq(cost, best, "reported cost is the cost of the match");
}
static void indices(int W, int n, bool both) {
    Img L("l", 1, W, 3), R("r", 1, W, 3); const bool right = sv_choice("right", 2); Kp l[3], r[3];
    const std::vector<cv::KeyPoint> a = points("k", n, W, l, false), b = points("o", n, W, r, false);
    struct Two : TableMatcher {  // costs of the two directions are independent
        double d[4][4]; Two(Filter f, int W) : TableMatcher({1, 1}, 1.f, f, 0.5, W) { for (int i = 0; i < W; ++i) for (int j = 0; j < W; ++j) d[i][j] = sv_real(sv::idx("d", i, j).c_str(), -100, 100); }
        const unsigned char* left = nullptr;
        MatchingCostFunction generate_cost_function(const cv::Mat& im, const cv::Point2i& tl) const override {
            const bool fromleft = im.data == left; const cv::Point2i at = tl; return [this, fromleft, at](const cv::Mat&, const cv::Mat&, const cv::Point2i& p, const cv::Point2i& q, const cv::Size&) { sv_check(p.x == at.x && p.y == at.y, "a cost function is only applied to the window it was made for"); return fromleft ? c[p.x][q.x] : d[p.x][q.x]; };
        }
    } m(both ? Filter::BIDIRECTIONAL : Filter::UNIDIRECTIONAL, W);
    m.left = L.mat.data; std::vector<double> costs(7, -700);
    const std::vector<int> got = m.keypoint_indices_in_other_image(a, b, L.mat, R.mat, right, costs);
    sv_check((int)got.size() == n && (int)costs.size() == n, "one result per keypoint"); if ((int)got.size() != n || (int)costs.size() != n) return;
    const Kp* mine = right ? l : r; const Kp* other = right ? r : l; double be, se, b2, s2, cc[3]; bool used[3] = {false, false, false};
    auto row = [&](const Kp& k, const Kp* o, bool fromleft) { for (int j = 0; j < n; ++j) cc[j] = k.cx < W && o[j].cx < W ? (fromleft ? m.c[k.cx][o[j].cx] : m.d[k.cx][o[j].cx]) : 0; };
    for (int i = 0; i < n; ++i) {
        row(mine[i], other, right); int e = best_of(cc, W, mine[i], other, n, right, 1, &be, &se);
        if (both && e >= 0) { row(other[e], mine, !right); if (best_of(cc, W, other[e], mine, n, !right, 1, &b2, &s2) != i) e = -1; }
        sv_check(got[i] == e, both ? "kept exactly when matching back returns the same keypoint" : "each keypoint is matched as if alone");
        if (e >= 0) sv_eq(costs[i], be, "cost of the match");
        if (both && got[i] >= 0 && got[i] < n) { sv_check(!used[got[i]], "no two keypoints share a match"); used[got[i]] = true; }
    }
}
extern "C" {
void scan_uni() { scan(4, 1, 1, 1, 0); sv_cover("scan_uni:end"); }
void scan_window() { scan(4, 3, 3, 3, 0); sv_cover("scan_window:end"); }
void scan_ratio() { scan(3, 1, 1, 1, 2); sv_cover("scan_ratio:end"); }
void scan_both() { scan(3, 1, 1, 1, 1); sv_cover("scan_both:end"); }
void scan_both_window() { scan(5, 1, 3, 1, 1); sv_cover("scan_both_window:end"); }
void binding_sad() { binding(0); sv_cover("binding_sad:end"); }
void binding_ssd() { binding(1); sv_cover("binding_ssd:end"); }
void binding_zsad() { binding(2); sv_cover("binding_zsad:end"); }
void binding_lsad() { binding(3); sv_cover("binding_lsad:end"); }
void binding_ncc() { binding(4); sv_cover("binding_ncc:end"); }
void index_uni() { index_one(2, sv_choice("n", 3), 0); sv_cover("index_uni:end"); }
void index_subpixel() { index_one(2, sv_choice("n", 2), 0, false, true); sv_cover("index_subpixel:end"); }
void index_uni_3() { index_one(2, 3, 0, false); sv_cover("index_uni_3:end"); }
void index_ratio() { index_one(2, 2, 2); sv_cover("index_ratio:end"); }
void index_ratio_3() { index_one(1, 3, 2, false); sv_cover("index_ratio_3:end"); }
void indices_uni() { indices(2, 2, false); sv_cover("indices_uni:end"); }
void indices_both() { indices(2, 2, true); sv_cover("indices_both:end"); }
void scan_many() {
    // several keypoints, one of them unmatched; sizes differ from stale outputs
    Img L("l", 1, 2, 255), R("r", 1, 2, 255); const cv::Ptr<StereoKeyPointMatcher> m = matcher(0, {1, 1}, 1.f, Filter::UNIDIRECTIONAL, 0.5);
    std::vector<cv::KeyPoint> k; k.emplace_back(0.5f, 0.5f, 1.f); k.emplace_back(5.5f, 0.5f, 1.f); k.emplace_back(1.5f, 0.5f, 1.f); std::vector<double> c(1, -7); std::vector<bool> ok(5, true);
    const std::vector<cv::KeyPoint> o = m->keypoints_in_other_image(k, L.mat, R.mat, true, c, ok);
    sv_check(o.size() == 3 && c.size() == 3 && ok.size() == 3, "one result per keypoint"); if (o.size() != 3 || c.size() != 3 || ok.size() != 3) return;
    sv_check(ok[0] && !ok[1] && ok[2], "exactly keypoints inside the image are matched");
    sv_eq(c[0], absd(L.at(0, 0) - R.at(0, 0)), "cost of the first keypoint"); const double u = absd(L.at(0, 1) - R.at(0, 1)), v = absd(L.at(0, 1) - R.at(0, 0)); sv_eq(c[2], u <= v ? u : v, "cost of the last keypoint");
    sv_cover("scan_many:end");
}
void matcher_config() {
    const int w = sv_i32("w", -3, 9), h = sv_i32("h", -3, 9); const double r = sv_real("ratio", -1, 2); bool threw = false;
    try { SADStereoKeyPointMatcher m({w, h}, 1.f, Filter::UNIDIRECTIONAL, r); } catch (const std::runtime_error&) { threw = true; }
    const bool odd = w > 0 && h > 0 && (w & 1) && (h & 1);
    sv_check(threw == !(odd && r > 0 && r < 1), "exactly odd positive windows and ratios in (0,1) are accepted");
    if (threw) sv_cover("matcher_config:rejected"); else sv_cover("matcher_config:accepted");
}
void matcher_sizes() {
    Img a("a", 1, 1), b("b", 1, 2); const cv::Ptr<StereoKeyPointMatcher> m = matcher(0, {1, 1}, 1.f, Filter::UNIDIRECTIONAL, 0.5); bool t1 = false, t2 = false; double c; bool ok; const cv::KeyPoint k(0.5f, 0.5f, 1.f);
    try { m->keypoint_in_other_image(k, a.mat, b.mat, true, c, ok); } catch (const std::runtime_error&) { t1 = true; }
    try { m->keypoint_index_in_other_image(k, {k}, b.mat, a.mat, true, c); } catch (const std::runtime_error&) { t2 = true; }
    sv_check(t1 && t2, "images of different size are rejected"); sv_cover("matcher_sizes:end");
}
void filter_names() {
    const int i = sv_choice("i", 3); const char* n[3] = {"UNIDIRECTIONAL", "BIDIRECTIONAL", "RATIO_TEST"};
    sv_check(to_matching_filter(n[i]) == filter_of(i), "names select their filter");
    char s[16]; const int l = 1 + sv_choice("l", 4), which = sv_choice("which", 3), len = (int)std::string(n[which]).size(); std::string t(n[which]);
    // every string that differs in one character, or is cut short, is refused
    if (l == 1) t.resize(len - 1); else { const int at = sv_choice("at", 4) * (len - 1) / 3; const unsigned char ch = sv_u8("c", 1, 127); sv_assume(ch != (unsigned char)t[at]); t[at] = (char)ch; }
    bool threw = false; try { to_matching_filter(t); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw, "unknown names are rejected"); sv_cover("filter_names:end");
}
}
