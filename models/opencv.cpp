// Bodies for the out-of-line parts of OpenCV that the code under test reaches (symbolic execution needs IR for them).
// Written against the real OpenCV headers; only 2-D matrices with owned or borrowed data. Native replay uses the real library.
#include <opencv2/core.hpp>
#include <opencv2/features2d.hpp>
#include <opencv2/video/tracking.hpp>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
namespace cv {
static void shape(Mat& m, int r, int c, int t, size_t step) {
    const size_t e = CV_ELEM_SIZE(t);
    m.flags = Mat::MAGIC_VAL | CV_MAT_TYPE(t) | Mat::CONTINUOUS_FLAG; m.dims = 2; m.rows = r; m.cols = c;
    m.step.buf[0] = step ? step : e * c; m.step.buf[1] = e;
    if (m.step.buf[0] != e * c && r > 1) m.flags &= ~Mat::CONTINUOUS_FLAG;
}
static void own(Mat& m) { const size_t n = m.step.buf[0] * m.rows; m.data = n ? (uchar*)::operator new(n) : nullptr; m.datastart = m.data; m.dataend = m.datalimit = m.data + n; }
Mat::Mat() noexcept : flags(MAGIC_VAL), dims(0), rows(0), cols(0), data(0), datastart(0), dataend(0), datalimit(0), allocator(0), u(0), size(&rows), step(0) {}
Mat::Mat(int r, int c, int t) : flags(MAGIC_VAL), dims(0), rows(0), cols(0), data(0), datastart(0), dataend(0), datalimit(0), allocator(0), u(0), size(&rows), step(0) { shape(*this, r, c, t, 0); own(*this); }
Mat::Mat(int r, int c, int t, void* d, size_t s) : flags(MAGIC_VAL), dims(0), rows(0), cols(0), data((uchar*)d), datastart((uchar*)d), dataend(0), datalimit(0), allocator(0), u(0), size(&rows), step(0) { shape(*this, r, c, t, s); dataend = datalimit = data + step.buf[0] * r; }
Mat::Mat(const Mat& m) : flags(m.flags), dims(m.dims), rows(m.rows), cols(m.cols), data(m.data), datastart(m.datastart), dataend(m.dataend), datalimit(m.datalimit), allocator(0), u(0), size(&rows), step(0) { step.buf[0] = m.step.buf[0]; step.buf[1] = m.step.buf[1]; }
Mat::Mat(Mat&& m) : Mat((const Mat&)m) {}
Mat& Mat::operator=(const Mat& m) { flags = m.flags; dims = m.dims; rows = m.rows; cols = m.cols; data = m.data; datastart = m.datastart; dataend = m.dataend; datalimit = m.datalimit; step.buf[0] = m.step.buf[0]; step.buf[1] = m.step.buf[1]; return *this; }
Mat& Mat::operator=(Mat&& m) { return *this = (const Mat&)m; }
Mat::~Mat() {}
bool Mat::empty() const { return data == 0 || rows == 0 || cols == 0 || dims == 0; }
size_t Mat::total() const { return (size_t)rows * cols; }
void KeyPoint::convert(const std::vector<KeyPoint>& k, std::vector<Point2f>& p, const std::vector<int>& idx) {
    if (idx.empty()) { p.resize(k.size()); for (size_t i = 0; i < k.size(); ++i) p[i] = k[i].pt; }
    else { p.resize(idx.size()); for (size_t i = 0; i < idx.size(); ++i) p[i] = k[idx[i]].pt; }
}
}
namespace cv {
Algorithm::Algorithm() {}
Algorithm::~Algorithm() {}
void Algorithm::save(const String&) const {}
String Algorithm::getDefaultName() const { return String(); }
Feature2D::~Feature2D() {}
void Feature2D::detect(InputArray, std::vector<KeyPoint>&, InputArray) {}
void Feature2D::detect(InputArrayOfArrays, std::vector<std::vector<KeyPoint>>&, InputArrayOfArrays) {}
void Feature2D::compute(InputArray, std::vector<KeyPoint>&, OutputArray) {}
void Feature2D::compute(InputArrayOfArrays, std::vector<std::vector<KeyPoint>>&, OutputArrayOfArrays) {}
void Feature2D::detectAndCompute(InputArray, InputArray, std::vector<KeyPoint>&, OutputArray, bool) {}
int Feature2D::descriptorSize() const { return 0; }
int Feature2D::descriptorType() const { return CV_32F; }
int Feature2D::defaultNorm() const { return 4; }
bool Feature2D::empty() const { return true; }
String Feature2D::getDefaultName() const { return String(); }
void Feature2D::write(FileStorage&) const {}
void Feature2D::read(const FileNode&) {}
Mat::Mat(const Mat& m, const Rect& r) : Mat(m) { if (r.x < 0 || r.y < 0 || r.width < 0 || r.height < 0 || r.x > m.cols - r.width || r.y > m.rows - r.height) throw std::runtime_error("cv::Mat: region outside the matrix"); data = m.data + (size_t)r.y * m.step.buf[0] + (size_t)r.x * m.step.buf[1]; rows = r.height; cols = r.width; if (cols < m.cols && rows > 1) flags &= ~CONTINUOUS_FLAG; }
// one element of a matrix, by its depth
static double elem(const Mat& m, int y, int x, int c = 0) {
    const uchar* p = m.data + y * m.step.buf[0] + x * m.step.buf[1] + c * CV_ELEM_SIZE1(m.flags);
    switch (CV_MAT_DEPTH(m.flags)) { case CV_8U: return *p; case CV_8S: return *(const schar*)p; case CV_16U: return *(const ushort*)p; case CV_16S: return *(const short*)p; case CV_32S: return *(const int*)p; case CV_32F: return *(const float*)p; default: return *(const double*)p; }
}
static void setelem(Mat& m, int y, int x, int c, double v) {
    uchar* p = m.data + y * m.step.buf[0] + x * m.step.buf[1] + c * CV_ELEM_SIZE1(m.flags);
    switch (CV_MAT_DEPTH(m.flags)) { case CV_8U: *p = (uchar)v; break; case CV_8S: *(schar*)p = (schar)v; break; case CV_16U: *(ushort*)p = (ushort)v; break; case CV_16S: *(short*)p = (short)v; break; case CV_32S: *(int*)p = (int)v; break; case CV_32F: *(float*)p = (float)v; break; default: *(double*)p = v; }
}
Mat& Mat::operator=(const Scalar& s) { for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) for (int c = 0; c < channels(); ++c) setelem(*this, y, x, c, s.val[c]); return *this; }
MatOp::MatOp() {}
MatOp::~MatOp() {}
struct SameOp : MatOp {  // an expression that is already evaluated (in e.a)
    bool elementWise(const MatExpr&) const override { return true; }
    void assign(const MatExpr& e, Mat& m, int = -1) const override { m = e.a; }
};
static SameOp same_op;
MatExpr Mat::zeros(int r, int c, int t) { Mat m(r, c, t); for (size_t i = 0; i < m.step.buf[0] * r; ++i) m.data[i] = 0; return MatExpr(&same_op, 0, m, Mat(), Mat(), 1, 1, Scalar()); }
MatExpr Mat::zeros(Size s, int t) { return zeros(s.height, s.width, t); }
Mat::Mat(int r, int c, int t, const Scalar& s) : Mat(r, c, t) { *this = s; }
Mat::Mat(Size z, int t) : Mat(z.height, z.width, t) {}
Mat::Mat(Size z, int t, const Scalar& s) : Mat(z.height, z.width, t) { *this = s; }
void Mat::create(int r, int c, int t) { if (data && dims == 2 && rows == r && cols == c && type() == t) return; *this = Mat(r, c, t); }
Mat Mat::clone() const { Mat m(rows, cols, type()); const size_t n = step.buf[1] * cols; for (int y = 0; y < rows; ++y) for (size_t i = 0; i < n; ++i) m.data[y * m.step.buf[0] + i] = data[y * step.buf[0] + i]; return m; }
bool MatSize::operator==(const MatSize& o) const noexcept { const int d = p[-1]; if (d != o.p[-1]) return false; if (d == 2) return p[0] == o.p[0] && p[1] == o.p[1]; return true; }
// arguments of the array functions
static Mat mat(const _InputArray& a) {
    switch (a.getFlags() & _InputArray::KIND_MASK) {
        case _InputArray::MAT: return *(const Mat*)a.getObj();
        case _InputArray::EXPR: return Mat(*(const MatExpr*)a.getObj());
        case _InputArray::MATX: return Mat(a.getSz().height, a.getSz().width, CV_MAT_TYPE(a.getFlags()), a.getObj(), 0);
        default: return Mat();
    }
}
InputOutputArray noArray() { static _InputOutputArray none; return none; }
static bool inside(const Mat& mask, int y, int x) { return mask.data == 0 || elem(mask, y, x) != 0; }
Mat& Mat::setTo(InputArray value, InputArray mask) {
    const Mat v = mat(value), k = mat(mask);
    for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) if (inside(k, y, x)) for (int c = 0; c < channels(); ++c) setelem(*this, y, x, c, v.rows * v.cols == 1 ? elem(v, 0, 0) : v.cols == 1 ? elem(v, c, 0) : elem(v, 0, c));
    return *this;
}
Scalar sum(InputArray a) { const Mat m = mat(a); Scalar s; for (int y = 0; y < m.rows; ++y) for (int x = 0; x < m.cols; ++x) for (int c = 0; c < m.channels() && c < 4; ++c) s.val[c] += elem(m, y, x, c); return s; }
Scalar mean(InputArray a, InputArray mask) {
    const Mat m = mat(a), k = mat(mask); Scalar s; int n = 0;
    for (int y = 0; y < m.rows; ++y) for (int x = 0; x < m.cols; ++x) if (inside(k, y, x)) { ++n; for (int c = 0; c < m.channels() && c < 4; ++c) s.val[c] += elem(m, y, x, c); }
    for (int c = 0; c < 4; ++c) s.val[c] = n ? s.val[c] / n : 0; return s;
}
int countNonZero(InputArray a) { const Mat m = mat(a); int n = 0; for (int y = 0; y < m.rows; ++y) for (int x = 0; x < m.cols; ++x) n += elem(m, y, x) != 0; return n; }
static double norm_of(const Mat& a, const Mat* b, int type, const Mat& k) {
    double r = 0;
    for (int y = 0; y < a.rows; ++y) for (int x = 0; x < a.cols; ++x) if (inside(k, y, x)) for (int c = 0; c < a.channels(); ++c) {
        const double d = elem(a, y, x, c) - (b ? elem(*b, y, x, c) : 0), q = d < 0 ? -d : d;
        if (type == NORM_L1) r += q; else if (type == NORM_INF) r = q > r ? q : r; else r += d * d;
    }
    return type == NORM_L2 ? std::sqrt(r) : r;
}
double norm(InputArray a, int type, InputArray mask) { return norm_of(mat(a), 0, type, mat(mask)); }
double norm(InputArray a, InputArray b, int type, InputArray mask) { const Mat m = mat(b); return norm_of(mat(a), &m, type, mat(mask)); }
double Mat::dot(InputArray b) const { const Mat m = mat(b); double r = 0; for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) for (int c = 0; c < channels(); ++c) r += elem(*this, y, x, c) * elem(m, y, x, c); return r; }
static Mat& out(const _InputArray& a) { return *(Mat*)a.getObj(); }
void Mat::copyTo(OutputArray o) const { Mat c = clone(); Mat& d = out(o); if (d.data && d.rows == rows && d.cols == cols && d.type() == type()) { for (int y = 0; y < rows; ++y) for (size_t i = 0; i < step.buf[1] * cols; ++i) d.data[y * d.step.buf[0] + i] = data[y * step.buf[0] + i]; } else d = c; }
void Mat::convertTo(OutputArray o, int t, double alpha, double beta) const { const int dt = t < 0 ? type() : CV_MAKETYPE(CV_MAT_DEPTH(t), channels()); Mat m(rows, cols, dt); for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) for (int c = 0; c < channels(); ++c) setelem(m, y, x, c, alpha * elem(*this, y, x, c) + beta); out(o) = m; }
MatExpr Mat::ones(int r, int c, int t) { Mat m(r, c, t); m = Scalar(1, 0, 0, 0); return MatExpr(&same_op, 0, m, Mat(), Mat(), 1, 1, Scalar()); }
MatExpr Mat::ones(Size s, int t) { return ones(s.height, s.width, t); }
void Mat::create(Size s, int t) { create(s.height, s.width, t); }
Mat::Mat(const Mat& m, const Range& r, const Range& c) : Mat(m, Rect(c.start < 0 ? 0 : c.start, r.start < 0 ? 0 : r.start, c.end > m.cols ? m.cols : c.end - c.start, r.end > m.rows ? m.rows : r.end - r.start)) {}
// an element of the result is the one at (y, x) = from(r, c)
template<typename F> static void permute(const Mat& m, Mat& d, int rows, int cols, F from) {
    Mat o(rows, cols, m.type()); const size_t n = m.step.buf[1];
    for (int r = 0; r < rows; ++r) for (int c = 0; c < cols; ++c) { const Point p = from(r, c); for (size_t b = 0; b < n; ++b) o.data[r * o.step.buf[0] + c * n + b] = m.data[p.y * m.step.buf[0] + p.x * n + b]; }
    d = o;
}
void rotate(InputArray a, OutputArray b, int code) {
    const Mat m = mat(a); const int R = m.rows, C = m.cols;
    if (code == ROTATE_90_CLOCKWISE) permute(m, out(b), C, R, [=](int r, int c) { return Point(r, R - 1 - c); });
    else if (code == ROTATE_180) permute(m, out(b), R, C, [=](int r, int c) { return Point(C - 1 - c, R - 1 - r); });
    else if (code == ROTATE_90_COUNTERCLOCKWISE) permute(m, out(b), C, R, [=](int r, int c) { return Point(C - 1 - r, c); });
}
void flip(InputArray a, OutputArray b, int code) { const Mat m = mat(a); const int R = m.rows, C = m.cols; permute(m, out(b), R, C, [=](int r, int c) { return Point(code != 0 ? C - 1 - c : c, code <= 0 ? R - 1 - r : r); }); }
}
