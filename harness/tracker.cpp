// Frame-to-frame stereo feature tracker. Its algorithms (detector, sparse optical flow, stereo matcher) are the
// environment: they give every possible answer and record what they were asked. The match filters are the real ones.
#include "sv.h"
#include "sv_eigen.h"
#include <serpent/front_end/stereo/stereo_feature_tracker.hpp>
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>
using namespace serpent;
typedef StereoFeatureTracker Tracker;
typedef std::vector<cv::KeyPoint> KPs;
static double absd(double v) { return v < 0 ? -v : v; }
static std::string nm(const char* n, int a, int b = -1, int c = -1) { std::string s = n; for (int v : {a, b, c}) if (v >= 0) s += "_" + std::to_string(v); return s; }
static cv::Point2f point(const std::string& n) { return cv::Point2f(sv_realf((n + "x").c_str(), -50, 50), sv_realf((n + "y").c_str(), -50, 50)); }
static bool same_image(const cv::Mat& a, const cv::Mat& b) { return a.data == b.data && a.rows == b.rows && a.cols == b.cols; }

struct Detector : cv::Feature2D {
    KPs next[2]; const cv::Mat* expect[2]; const cv::Rect* roi = nullptr; int call = 0;
    void detect(cv::InputArray image, KPs& keypoints, cv::InputArray mask = cv::noArray()) override {
        const cv::Mat& im = *(const cv::Mat*)image.getObj(); const int lr = call++ % 2;
        sv_check(same_image(im, *expect[lr]), "keypoints are detected in the left and then in the right image of the new pair");
        const cv::Mat& m = *(const cv::Mat*)mask.getObj();
        if (!roi) sv_check(m.data == nullptr || m.rows == 0, "without a region of interest nothing is masked");
        else {
            sv_check(m.rows == im.rows && m.cols == im.cols && m.type() == CV_8U, "the mask has the size of the image");
            if (m.rows == im.rows && m.cols == im.cols)
                for (int y = 0; y < m.rows; ++y) for (int x = 0; x < m.cols; ++x)
                    sv_check((m.at<unsigned char>(y, x) != 0) == (x >= roi->x && y >= roi->y && x < roi->x + roi->width && y < roi->y + roi->height), "the mask is non-zero exactly inside the region of interest");
        }
        keypoints = next[lr];
    }
};
struct Flow : cv::SparseOpticalFlow {
    std::vector<cv::Point2f> next[2]; std::vector<int> status[2]; const KPs* prev[2]; const cv::Mat* from[2]; const cv::Mat* to[2]; int calls[2] = {0, 0};
    void calc(cv::InputArray p, cv::InputArray n, cv::InputArray pts, cv::InputOutputArray out, cv::OutputArray st, cv::OutputArray = cv::noArray()) override {
        const cv::Mat &pi = *(const cv::Mat*)p.getObj(), &ni = *(const cv::Mat*)n.getObj(), &pp = *(const cv::Mat*)pts.getObj();
        int lr = -1; for (int i = 0; i < 2; ++i) if (same_image(pi, *from[i]) && same_image(ni, *to[i])) lr = i;
        sv_check(lr >= 0, "features are tracked from the previous image of a camera to its new image"); if (lr < 0) lr = 0;
        ++calls[lr]; const int k = (int)prev[lr]->size();
        sv_check((int)pp.total() == k, "exactly the tracked features are given to the optical flow");
        cv::Mat o(k, 1, CV_32FC2), s(k, 1, CV_8U);
        for (int i = 0; i < k; ++i) {
            if (i < (int)pp.total()) { sv_eq(pp.at<cv::Point2f>(i).x, (*prev[lr])[i].pt.x, "features are tracked from where they were"); sv_eq(pp.at<cv::Point2f>(i).y, (*prev[lr])[i].pt.y, "features are tracked from where they were"); }
            o.at<cv::Point2f>(i) = next[lr][i]; s.at<unsigned char>(i) = (unsigned char)status[lr][i];
        }
        *(cv::Mat*)out.getObj() = o; *(cv::Mat*)st.getObj() = s;
    }
};
struct Matcher : StereoKeyPointMatcher {
    Matcher() : StereoKeyPointMatcher(cv::Size(1, 1)) {}
    std::vector<int> index; std::vector<double> cost; const KPs* left; const KPs* right; const cv::Mat* image[2]; mutable int call = 0;
    int keypoint_index_in_other_image(const cv::KeyPoint& kp, const KPs& other, const cv::Mat& l, const cv::Mat& r, const bool find_in_right, double& c) const override {
        const int i = call++; sv_check(find_in_right && same_image(l, *image[0]) && same_image(r, *image[1]), "new left features are searched in the new right image");
        sv_check(i < (int)left->size(), "only features far from every tracked feature become new matches"); if (i >= (int)left->size()) { c = 1e6; return -1; }
        sv_check(other.size() == right->size(), "right candidates are the detections far from every tracked feature");
        sv_eq(kp.pt.x, (*left)[i].pt.x, "left candidates in order"); sv_eq(kp.pt.y, (*left)[i].pt.y, "left candidates in order");
        for (std::size_t j = 0; j < other.size() && j < right->size(); ++j) { sv_eq(other[j].pt.x, (*right)[j].pt.x, "right candidates in order"); sv_eq(other[j].pt.y, (*right)[j].pt.y, "right candidates in order"); }
        c = cost[i]; return index[i];
    }
    MatchingCostFunction generate_cost_function(const cv::Mat&, const cv::Point2i&) const override { return MatchingCostFunction(); }
};
// What the tracker must hold: one record per track
struct Track { cv::KeyPoint kp[2]; float distance; int id; };
struct World {
    unsigned char px[4][2][12]; cv::Mat im[4][2]; cv::Ptr<Detector> det; cv::Ptr<Flow> flow; cv::Ptr<Matcher> mat; cv::Ptr<Tracker> tracker;
    float near, vthr, fx, b, lo, hi; double cthr; bool dist; std::vector<Track> tracks; int frame = 0, next_id = 0; KPs prev[2], left, right; bool valid;  // valid: tracked features stay in admissible places, detections stay away from them
    World(bool dist_, const cv::Rect* roi = nullptr, bool late = false, bool valid_ = false) : dist(dist_), valid(valid_) {
        for (int f = 0; f < 4; ++f) for (int lr = 0; lr < 2; ++lr) { for (int i = 0; i < 12; ++i) px[f][lr][i] = 0; im[f][lr] = cv::Mat(3, 4, CV_8U, px[f][lr]); }
        near = valid ? 5.f : sv_realf("near", 0.25f, 20); vthr = valid ? 2.f : sv_realf("vertical", 0, 10); cthr = sv_real("cost_threshold", -100, 100);
        fx = 8; b = 0.5f; lo = sv_realf("lo", 0.125f, 4); hi = sv_realf("hi", 0.125f, 20);
        det = cv::makePtr<Detector>(); det->roi = roi; flow = cv::makePtr<Flow>(); mat = cv::makePtr<Matcher>();
        tracker = cv::makePtr<Tracker>(det, flow, StereoMatchFilter::create(vthr), mat, near, cthr, dist && !late ? StereoDistanceFilter::create(fx, b, hi, lo) : cv::Ptr<StereoDistanceFilter>(), roi ? *roi : cv::Rect());
        if (dist && late) tracker->set_stereo_distance_filter(StereoDistanceFilter::create(fx, b, hi, lo));
    }
    cv::KeyPoint keypoint(const std::string& n, int lr, int i) { const int u = 100 * frame + 10 * lr + i; return cv::KeyPoint(point(n), 3.f + u, 10.f + u, 0.5f + u, 2 + u, 7 + u); }
    bool in_range(const cv::KeyPoint& l, const cv::KeyPoint& r) {
        if (!dist) return true;
        const double d = (double)l.pt.x - r.pt.x, fb = (double)fx * b; sv_assume(absd(d) > 1e-2 && absd(fb - lo * d) > 1e-2 && absd(fb - hi * d) > 1e-2);
        return sv_split(d > 0 && fb >= lo * d && fb <= hi * d);
    }
    bool close(const cv::KeyPoint& a, const cv::KeyPoint& c) {
        const double x = (double)a.pt.x - c.pt.x, y = (double)a.pt.y - c.pt.y, q = x * x + y * y - (double)near * near; if (valid) { sv_assume(c.pt.x >= 30 && a.pt.x <= 20); return false; } sv_assume(absd(q) > 1e-2); return sv_split(q <= 0);
    }
    // one frame with nl + nr detections and freely chosen answers of every algorithm
    void step(int nl, int nr, const char* n, bool flow_free = true, bool match_free = true) {
        const std::string s = n; KPs d[2];
        for (int lr = 0; lr < 2; ++lr) { det->expect[lr] = &im[frame][lr]; for (int i = 0; i < (lr ? nr : nl); ++i) d[lr].push_back(keypoint(nm((s + (lr ? "r" : "l")).c_str(), i), lr, i)); det->next[lr] = d[lr]; }
        std::vector<Track> hyp;
        if (frame > 0) {
            for (int lr = 0; lr < 2; ++lr) {
                prev[lr].clear(); for (const Track& t : tracks) prev[lr].push_back(t.kp[lr]);
                flow->prev[lr] = &prev[lr]; flow->from[lr] = &im[frame - 1][lr]; flow->to[lr] = &im[frame][lr]; flow->next[lr].clear(); flow->status[lr].clear();
                for (std::size_t i = 0; i < tracks.size(); ++i) { flow->next[lr].push_back(point(nm((s + (lr ? "fr" : "fl")).c_str(), (int)i))); flow->status[lr].push_back(flow_free ? sv_choice(nm((s + (lr ? "sr" : "sl")).c_str(), (int)i).c_str(), 2) : 1); }
            }
            for (std::size_t i = 0; i < tracks.size(); ++i) {
                if (flow->status[0][i] != 1 || flow->status[1][i] != 1) continue;
                Track t = tracks[i]; t.kp[0].pt = flow->next[0][i]; t.kp[1].pt = flow->next[1][i]; hyp.push_back(t);
            }
            KPs k[2]; for (int lr = 0; lr < 2; ++lr) for (const cv::KeyPoint& c : d[lr]) { bool far = true; for (const Track& t : hyp) far = far && !close(t.kp[lr], c); if (far) k[lr].push_back(c); }
            left = k[0]; right = k[1];
        } else { left = d[0]; right = d[1]; }
        std::vector<Track> kept;
        for (const Track& t : hyp) {
            const double x = (double)t.kp[0].pt.x - t.kp[1].pt.x, y = (double)t.kp[0].pt.y - t.kp[1].pt.y; sv_assume(absd(absd(y) - vthr) > 1e-3 && absd(x) > 1e-3);
            if (valid) { sv_assume(x > 0 && y <= vthr && -y <= vthr); kept.push_back(t); continue; }
            if (sv_split(x > 0 && y <= vthr && -y <= vthr) && in_range(t.kp[0], t.kp[1])) kept.push_back(t);
        }
        const std::size_t tracked = kept.size();
        mat->left = &left; mat->right = &right; mat->index.clear(); mat->cost.clear(); mat->call = 0; mat->image[0] = &im[frame][0]; mat->image[1] = &im[frame][1];
        for (std::size_t i = 0; i < left.size(); ++i) {
            const int j = match_free ? sv_choice(nm((s + "m").c_str(), (int)i).c_str(), (int)right.size() + 1) - 1 : (i < right.size() ? (int)i : -1); const double c = sv_real(nm((s + "c").c_str(), (int)i).c_str(), -100, 100);
            sv_assume(absd(c - cthr) > 1e-3); if (!match_free) sv_assume(c < cthr);
            mat->index.push_back(j); mat->cost.push_back(c);
            if (j < 0 || !sv_split(c < cthr)) continue;
            if (in_range(left[i], right[j])) { Track t; t.kp[0] = left[i]; t.kp[1] = right[j]; t.distance = (float)c; t.id = next_id++; kept.push_back(t); }
        }
        Tracker::Statistics st; st.match_ids.assign(1, 99);
        const Tracker::LRKeyPointMatches r = tracker->process(im[frame][0], im[frame][1], std::ref(st));
        sv_check(mat->call == (int)left.size(), "every remaining left detection is searched in the right image, once"); sv_check(det->call == 2 * (frame + 1), "each image is searched for features once");
        const std::size_t n_ = kept.size();
        sv_check(r.matches.size() == n_ && r.match_ids.size() == n_ && r.keypoints[0].size() == n_ && r.keypoints[1].size() == n_, "exactly the tracks that were tracked in both images and pass the filters, then the new matches that pass them, are returned");
        if (r.matches.size() == n_ && r.match_ids.size() == n_ && r.keypoints[0].size() == n_ && r.keypoints[1].size() == n_)
            for (std::size_t i = 0; i < n_; ++i) {
                sv_check(r.match_ids[i] == kept[i].id, "a track keeps its identity and a new match gets the next unused one");
                sv_check(r.matches[i].queryIdx == (int)i && r.matches[i].trainIdx == (int)i, "match i joins left and right keypoint i"); sv_eq(r.matches[i].distance, kept[i].distance, "matching cost of a track");
                for (int lr = 0; lr < 2; ++lr) {
                    const cv::KeyPoint &a = r.keypoints[lr][i], &e = kept[i].kp[lr];
                    sv_eq(a.pt.x, e.pt.x, "position of a track"); sv_eq(a.pt.y, e.pt.y, "position of a track");
                    sv_eq(a.size, e.size, "keypoint size"); sv_eq(a.angle, e.angle, "keypoint angle"); sv_eq(a.response, e.response, "keypoint response"); sv_check(a.octave == e.octave && a.class_id == e.class_id, "keypoint octave and class");
                }
            }
        sv_check(tracker->frame_number() == frame && st.frame_number == frame, "frame number"); sv_check(st.max_match_id == next_id - 1, "largest identity given so far");
        sv_check(st.longest_tracked_match_id == (tracked ? kept[0].id : -1), "identity of the oldest track");
        sv_check(st.extracted_kp_count[0] == d[0].size() && st.extracted_kp_count[1] == d[1].size(), "number of detections");
        sv_check(st.tracked_kp_count[0] == hyp.size() && st.tracked_kp_count[1] == hyp.size(), "number of tracked keypoints"); sv_check(st.filtered_extracted_kp_count[0] == left.size() && st.filtered_extracted_kp_count[1] == right.size(), "number of detections left");
        sv_check(st.match_ids == r.match_ids, "the statistics list the identities of the current tracks");
        sv_check(st.tracked_match_count == tracked && st.new_match_count == n_ - tracked && st.total_match_count == n_, "track counts");
        tracks = kept; ++frame;
    }
};
extern "C" {
void first_frame() { World w(false); sv_check(w.tracker->frame_number() == -1, "no frame yet"); w.step(sv_choice("nl", 3), sv_choice("nr", 3), "a"); sv_cover("first_frame:end"); }
void first_frame_distance() { World w(true, nullptr, sv_choice("late", 2)); w.step(1 + sv_choice("nl", 2), 1, "a"); sv_cover("first_frame_distance:end"); }
void track_one() { World w(false); w.step(1, 1, "a", true, false); sv_assume(w.tracks.size() == 1); w.step(0, 0, "b"); w.step(0, 0, "c"); sv_cover("track_one:end"); }
void track_two() { World w(false); w.step(2, 2, "a", true, false); w.step(0, 0, "b"); if (w.tracks.size() == 1) sv_cover("track_two:one"); if (w.tracks.size() == 2) sv_cover("track_two:both"); }
void track_distance() { World w(true); w.step(1, 1, "a", true, false); w.step(0, 0, "b"); sv_cover("track_distance:end"); }
void track_distance_two() { World w(true); w.step(2, 2, "a", true, false); sv_assume(w.tracks.size() == 2); w.step(0, 0, "b", false); if (w.tracks.size() == 1 && w.tracks[0].id == 1) sv_cover("track_distance_two:second"); }
void track_new() { World w(false); w.step(1, 1, "a", true, false); w.step(1, 1, "b"); if (w.tracks.size() == 2) sv_cover("track_new:both"); sv_cover("track_new:end"); }
void track_new_two() { World w(false); w.step(1, 1, "a", true, false); w.step(2, 2, "b", false); sv_cover("track_new_two:end"); }
void track_ids() { World w(false, nullptr, false, true); w.step(2, 2, "a", true, false); w.step(1, 1, "b", true, false); w.step(1, 1, "c", false, false); if (w.tracks.size() == 2) sv_cover("track_ids:two"); if (w.tracks.size() == 4) sv_cover("track_ids:four"); sv_cover("track_ids:end"); }
void track_loss() { World w(false, nullptr, false, true); w.step(2, 2, "a", true, false); w.step(0, 0, "b", false); w.step(0, 0, "c"); w.step(1, 1, "d", false, false); sv_cover("track_loss:end"); }
void roi_mask() {
    const cv::Rect roi(sv_choice("x", 4), sv_choice("y", 3), 1 + sv_choice("w", 4), 1 + sv_choice("h", 3)); if (roi.x + roi.width > 4 || roi.y + roi.height > 3) return; 
    World w(false, &roi); w.step(0, 0, "a"); w.step(0, 0, "b");
    if (roi.y + roi.height < 3) { for (int lr = 0; lr < 2; ++lr) w.im[2][lr] = cv::Mat(2, 6, CV_8U, w.px[2][lr]); w.step(0, 0, "c"); }  // images of another size
    sv_cover("roi_mask:end");
}
void size_mismatch() {
    World w(false); unsigned char px[12] = {0}; const int r = 1 + sv_choice("rows", 6), c = 1 + sv_choice("cols", 6); if (r * c > 12) return; cv::Mat o(r, c, CV_8U, px); bool threw = false; w.det->expect[0] = &w.im[0][0]; w.det->expect[1] = &o;
    KPs none; w.mat->left = w.mat->right = &none; w.mat->image[0] = &w.im[0][0]; w.mat->image[1] = &o;
    try { w.tracker->process(w.im[0][0], o); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == (r != 3 || c != 4), "image pairs of different sizes are rejected"); sv_cover("size_mismatch:end");
}
}
