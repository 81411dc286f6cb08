// Clouds as raw byte records (pcl::PCLPointCloud2): field access, casts, added fields, filters, statistics, deskewing.
#include "sv.h"
#include "sv_eigen.h"
#include <pointcloud_tools/pclpointcloud2_utilities.hpp>
#include <cmath>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
typedef pcl::PCLPointCloud2 Cloud;
typedef pcl::PCLPointField Field;
typedef pcl::PCLPointField::PointFieldTypes Type;
static std::string nm(const char* n, int a, int b = -1) { std::string s = n; for (int v : {a, b}) if (v >= 0) s += "_" + std::to_string(v); return s; }
static int width_of(int t) { const int w[] = {0, 1, 1, 2, 2, 4, 4, 4, 8}; return w[t]; }
static double absd(double v) { return v < 0 ? -v : v; }
template<typename T> static T rd(const Cloud& c, std::size_t at) { T v; std::memcpy(&v, &c.data[at], sizeof(T)); return v; }
template<typename T> static void wr(Cloud& c, std::size_t at, T v) { std::memcpy(&c.data[at], &v, sizeof(T)); }
// the value of a field, read independently of the code under test
static double value(const Cloud& c, int t, std::size_t at) {
    switch (t) {
        case Field::INT8: return rd<std::int8_t>(c, at); case Field::UINT8: return rd<std::uint8_t>(c, at);
        case Field::INT16: return rd<std::int16_t>(c, at); case Field::UINT16: return rd<std::uint16_t>(c, at);
        case Field::INT32: return rd<std::int32_t>(c, at); case Field::UINT32: return rd<std::uint32_t>(c, at);
        case Field::FLOAT32: return rd<float>(c, at); default: return rd<double>(c, at);
    }
}
static void fresh(Cloud& c, int t, std::size_t at, const std::string& n, double lim) {
    const int l = (int)lim;
    switch (t) {
        case Field::INT8: wr(c, at, (std::int8_t)(sv_u8(n.c_str(), 0, 255))); break;
        case Field::UINT8: wr(c, at, sv_u8(n.c_str(), 0, 255)); break;
        case Field::INT16: wr(c, at, (std::int16_t)(sv_u16(n.c_str(), 0, 65535))); break;
        case Field::UINT16: wr(c, at, sv_u16(n.c_str(), 0, 65535)); break;
        case Field::INT32: wr(c, at, sv_i32(n.c_str(), -l, l)); break;
        case Field::UINT32: wr(c, at, sv_u32(n.c_str(), 0, l)); break;
        case Field::FLOAT32: wr(c, at, sv_realf(n.c_str(), -lim, lim)); break;
        default: wr(c, at, sv_real(n.c_str(), -lim, lim));
    }
}
static Field field(const char* n, int off, int t, int count = 1) { Field f; f.name = n; f.offset = off; f.datatype = t; f.count = count; return f; }
static Cloud cloud(std::vector<Field> fields, int step, int w, int h = 1) {
    Cloud c; c.header.seq = 3; c.header.stamp = 1000000; c.header.frame_id = "lidar"; c.fields = fields; c.point_step = step; c.width = w; c.height = h; c.row_step = step * w; c.is_bigendian = 0; c.is_dense = 1;
    c.data.resize(step * w * h); return c;
}
static bool same_layout(const Cloud& a, const Cloud& b, bool types = true) {
    bool ok = a.header.seq == b.header.seq && a.header.stamp == b.header.stamp && a.header.frame_id == b.header.frame_id && a.height == b.height && a.width == b.width && a.point_step == b.point_step && a.row_step == b.row_step && a.is_bigendian == b.is_bigendian && a.is_dense == b.is_dense && a.fields.size() == b.fields.size() && a.data.size() == b.data.size();
    for (std::size_t i = 0; ok && i < a.fields.size(); ++i) ok = a.fields[i].name == b.fields[i].name && a.fields[i].offset == b.fields[i].offset && (!types || a.fields[i].datatype == b.fields[i].datatype) && a.fields[i].count == b.fields[i].count;
    return ok;
}
// guard bytes and a typed field under test between two float fields; every byte is an input
struct World {
    Cloud c, orig; int t, n, at, step; std::vector<std::uint8_t> guard;
    World(int type, int w, int h, double lim) : t(type), n(w * h) {
        const int s = width_of(t); at = 8; step = 8 + s + 8;
        c = cloud({field("a", 0, Field::FLOAT32), field("v", at, t), field("b", at + s, Field::FLOAT32)}, step, w, h);
        for (int i = 0; i < n; ++i) {
            fresh(c, Field::FLOAT32, i * step, nm("a", i), 100); fresh(c, t, i * step + at, nm("v", i), lim); fresh(c, Field::FLOAT32, i * step + at + s, nm("b", i), 100);
            for (int k = 0; k < 4; ++k) { c.data[i * step + 4 + k] = sv_u8(nm("g", i, k).c_str(), 0, 255); c.data[i * step + at + s + 4 + k] = sv_u8(nm("h", i, k).c_str(), 0, 255); }
        }
        orig = c;
    }
    double v(int i) const { return value(orig, t, i * step + at); }
    void others(const Cloud& d, const char* msg, int skip = -1) {
        const int s = width_of(t);
        for (int i = 0; i < n; ++i) {
            sv_eq(rd<float>(d, i * step), rd<float>(orig, i * step), msg); sv_eq(rd<float>(d, i * step + at + s), rd<float>(orig, i * step + at + s), msg);
            for (int k = 0; k < 4; ++k) { sv_check(d.data[i * step + 4 + k] == orig.data[i * step + 4 + k], msg); sv_check(d.data[i * step + at + s + 4 + k] == orig.data[i * step + at + s + 4 + k], msg); }
            if (skip >= 0 && i != skip) sv_eq(value(d, t, i * step + at), value(orig, t, i * step + at), msg);
        }
    }
};
template<typename Out> static void get_as(World& w, const char* msg) {
    auto f = pct::create_get_field_data_function<Out>(w.c.fields[1]);
    for (int i = 0; i < w.n; ++i) { sv_eq((double)f(w.c, i), w.v(i), msg); sv_eq((double)pct::field_data<Out>(w.c, w.c.fields[1], i), w.v(i), msg); }
}
template<typename T> static void get_same() {
    World w(pcl::traits::asEnum<T>::value, 2, 1, 1000);
    get_as<T>(w, "a field read in its own type has the stored value"); get_as<double>(w, "a field read as double has the stored value");
    auto f = pct::create_get_field_data_function<T, T>(w.c.fields[1]); auto g = pct::create_get_field_data_function<double, T>(w.c.fields[1]);
    for (int i = 0; i < 2; ++i) { sv_eq((double)f(w.c, i), w.v(i), "typed access reads the stored value"); sv_eq(g(w.c, i), w.v(i), "typed access converts the stored value"); }
    w.others(w.c, "reading changes nothing", 9);
}
template<typename T> static void set_same() {
    World w(pcl::traits::asEnum<T>::value, 2, 1, 1000); const int k = sv_choice("point", 2), how = sv_choice("way", 3);
    const int x = sv_i32("x", std::is_unsigned<T>::value ? 0 : -100, 100);
    if (how == 0) pct::create_set_field_data_function<T, T>(w.c.fields[1])(w.c, k, (T)x);
    else if (how == 1) pct::create_set_field_data_function<double>(w.c.fields[1])(w.c, k, (double)x);
    else pct::set_field_data<T>(w.c, w.c.fields[1], k, (T)x);
    sv_eq(value(w.c, w.t, k * w.step + w.at), x, "the field of the point has the given value");
    w.others(w.c, "only that field of that point changes", k); sv_check(same_layout(w.c, w.orig), "the layout does not change");
}
template<std::uint8_t To> static bool casts(World& w) {
    bool threw = false; try { pct::cast_field<To>(w.c, "v"); } catch (const std::runtime_error&) { threw = true; }
    const bool ok = width_of(w.t) == width_of(To); sv_check(threw != ok, "casting is refused exactly between different sizes");
    sv_check(same_layout(w.c, w.orig, false), "the layout does not change"); w.others(w.c, "casting a field leaves everything else alone");
    sv_check(w.c.fields[0].datatype == Field::FLOAT32 && w.c.fields[2].datatype == Field::FLOAT32 && w.c.fields[1].datatype == (ok ? To : w.t), "exactly the cast field changes its type");
    return ok;
}
static void matches(World& w, int to, const char* msg) { for (int i = 0; i < w.n; ++i) sv_eq(value(w.c, to, i * w.step + w.at), w.v(i), msg); }

// deskewing: records x, y, intensity, z, t (with gaps); stamps in microseconds
static Cloud sweep(int n, int tt) {
    Cloud c = cloud({field("x", 0, 7), field("y", 4, 7), field("intensity", 8, 7), field("z", 16, 7), field("t", 24, tt)}, 32, n); c.header.stamp = 5000000000ull;
    for (int i = 0; i < n; ++i) for (int k : {0, 4, 8, 16}) fresh(c, 7, 32 * i + k, nm("v", i, k), 20);
    return c;
}
static Eigen::Vector3d point(const Cloud& c, int i) { return Eigen::Vector3d(rd<float>(c, 32 * i), rd<float>(c, 32 * i + 4), rd<float>(c, 32 * i + 16)); }
static void stamped(const Cloud& c, const Cloud& d, std::uint64_t time, int tt) {
    sv_check(d.header.stamp == time && d.header.seq == c.header.seq && d.header.frame_id == c.header.frame_id && d.width == c.width && d.height == c.height && d.point_step == c.point_step && d.row_step == c.row_step && d.data.size() == c.data.size() && d.fields.size() == c.fields.size() && d.is_dense == c.is_dense, "the deskewed cloud has the new stamp and the same layout");
    for (unsigned i = 0; i < c.width; ++i) sv_eq(rd<float>(d, 32 * i + 8), rd<float>(c, 32 * i + 8), "other fields are kept");
}
// R(q) v, written out
static Eigen::Vector3d turn(const Eigen::Quaterniond& q, const Eigen::Vector3d& v) {
    const double w = q.w(), x = q.x(), y = q.y(), z = q.z();
    return Eigen::Vector3d((1 - 2 * (y * y + z * z)) * v[0] + 2 * (x * y - w * z) * v[1] + 2 * (x * z + w * y) * v[2], 2 * (x * y + w * z) * v[0] + (1 - 2 * (x * x + z * z)) * v[1] + 2 * (y * z - w * x) * v[2], 2 * (x * z - w * y) * v[0] + 2 * (y * z + w * x) * v[1] + (1 - 2 * (x * x + y * y)) * v[2]);
}
static Eigen::Isometry3d motion(const Eigen::Quaterniond& q, const Eigen::Vector3d& t) { Eigen::Isometry3d T = Eigen::Isometry3d::Identity(); for (int k = 0; k < 3; ++k) { Eigen::Vector3d e = Eigen::Vector3d::Zero(); e[k] = 1; e = turn(q, e); for (int r = 0; r < 3; ++r) T.matrix()(r, k) = e[r]; T.matrix()(k, 3) = t[k]; } return T; }
static const Eigen::Quaterniond TURNS[] = {{0.8, 0.6, 0, 0}, {0.6, 0, -0.8, 0}, {0.8, 0, 0, -0.6}, {0.28, 0, 0.96, 0}, {0.28, -0.96, 0, 0}, {0.8, 0.36, 0.48, 0}};

extern "C" {
void get_i8() { get_same<std::int8_t>(); sv_cover("get_i8:end"); }
void get_u8() { get_same<std::uint8_t>(); sv_cover("get_u8:end"); }
void get_i16() { get_same<std::int16_t>(); sv_cover("get_i16:end"); }
void get_u16() { get_same<std::uint16_t>(); sv_cover("get_u16:end"); }
void get_i32() { get_same<std::int32_t>(); sv_cover("get_i32:end"); }
void get_u32() { get_same<std::uint32_t>(); sv_cover("get_u32:end"); }
void get_f32() { get_same<float>(); sv_cover("get_f32:end"); }
void get_f64() { get_same<double>(); sv_cover("get_f64:end"); }
void set_i8() { set_same<std::int8_t>(); sv_cover("set_i8:end"); }
void set_u8() { set_same<std::uint8_t>(); sv_cover("set_u8:end"); }
void set_i16() { set_same<std::int16_t>(); sv_cover("set_i16:end"); }
void set_u16() { set_same<std::uint16_t>(); sv_cover("set_u16:end"); }
void set_i32() { set_same<std::int32_t>(); sv_cover("set_i32:end"); }
void set_u32() { set_same<std::uint32_t>(); sv_cover("set_u32:end"); }
void set_f32() { set_same<float>(); sv_cover("set_f32:end"); }
void set_f64() { set_same<double>(); sv_cover("set_f64:end"); }
void access_wrong_type() {
    const int t = sv_i32("type", 0, 20); Cloud c = cloud({field("v", 0, t)}, 8, 1); int bad = 0, known = (t >= 1 && t <= 8) ? 1 : 0;
    try { pct::create_get_field_data_function<double>(c.fields[0]); } catch (const std::runtime_error&) { ++bad; }
    try { pct::create_set_field_data_function<double>(c.fields[0]); } catch (const std::runtime_error&) { ++bad; }
    sv_check(bad == (known ? 0 : 2), "exactly the unknown data types are refused"); bad = 0;
    try { pct::create_get_field_data_function<double, float>(c.fields[0]); } catch (const std::runtime_error&) { ++bad; }
    try { pct::create_set_field_data_function<double, std::int32_t>(c.fields[0]); } catch (const std::runtime_error&) { bad += 2; }
    try { pct::create_get_field_data_function<std::uint16_t, std::uint16_t>(c.fields[0]); } catch (const std::runtime_error&) { bad += 4; }
    try { pct::create_set_field_data_function<double, double>(c.fields[0]); } catch (const std::runtime_error&) { bad += 8; }
    sv_check(bad == (t != Field::FLOAT32 ? 1 : 0) + (t != Field::INT32 ? 2 : 0) + (t != Field::UINT16 ? 4 : 0) + (t != Field::FLOAT64 ? 8 : 0), "typed access refuses every other data type");
    sv_cover("access_wrong_type:end");
}
void cast_int() {  // within the integer types: values that both types can hold
    const int t = 1 + sv_choice("from", 6), to = 1 + sv_choice("to", 6); World w(t, 2, 1, 1000);
    for (int i = 0; i < 2; ++i) sv_assume(w.v(i) >= 0 && w.v(i) <= 127);
    const bool ok = to == 1 ? casts<1>(w) : to == 2 ? casts<2>(w) : to == 3 ? casts<3>(w) : to == 4 ? casts<4>(w) : to == 5 ? casts<5>(w) : casts<6>(w);
    if (ok) { matches(w, to, "every point keeps its value"); sv_cover("cast_int:cast"); } else { matches(w, t, "a refused cast changes nothing"); sv_cover("cast_int:refused"); }
}
void cast_to_float() {
    const int t = 1 + sv_choice("from", 8); World w(t, 2, 1, 1000); const bool ok = casts<Field::FLOAT32>(w);
    if (ok) { matches(w, Field::FLOAT32, "every point keeps its value"); sv_cover("cast_to_float:cast"); } else { matches(w, t, "a refused cast changes nothing"); sv_cover("cast_to_float:refused"); }
}
void cast_to_double() {
    const int t = 1 + sv_choice("from", 8); World w(t, 1, 2, 1000); const bool ok = casts<Field::FLOAT64>(w);
    if (ok) { matches(w, Field::FLOAT64, "every point keeps its value"); sv_cover("cast_to_double:same"); } else { matches(w, t, "a refused cast changes nothing"); sv_cover("cast_to_double:refused"); }
}
void cast_truncates() {
    World w(Field::FLOAT32, 2, 1, 1000); casts<Field::INT32>(w);
    for (int i = 0; i < 2; ++i) { const double d = rd<std::int32_t>(w.c, i * w.step + w.at), v = w.v(i); sv_check(v >= 0 ? d <= v && v < d + 1 : d >= v && v > d - 1, "real values are truncated towards zero"); }
    sv_cover("cast_truncates:end");
}
void cast_scale() {  // as for the Ouster time and range fields
    const int t = sv_choice("from", 2) ? Field::UINT32 : Field::INT32; World w(t, 2, 1, 1000000); const double s = sv_real("s", -2, 2);
    pct::cast_field_with_scale<Field::FLOAT32>(w.c, "v", s);
    sv_check(w.c.fields[1].datatype == Field::FLOAT32 && same_layout(w.c, w.orig, false), "the field has the new type"); w.others(w.c, "scaling a field leaves everything else alone");
    for (int i = 0; i < 2; ++i) sv_eq(rd<float>(w.c, i * w.step + w.at), w.v(i) * s, "every value is scaled once");
    sv_cover("cast_scale:end");
}
void cast_scale_refused() {
    const int t = 1 + sv_choice("from", 8); World w(t, 1, 1, 100); bool threw = false;
    try { pct::cast_field_with_scale<Field::FLOAT32>(w.c, "v", 2.0); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == (width_of(t) != 4), "casting is refused exactly between different sizes"); if (threw) matches(w, t, "a refused cast changes nothing");
    w.others(w.c, "casting a field leaves everything else alone"); sv_cover("cast_scale_refused:end");
}
void scale() {
    const int t = sv_choice("type", 2) ? Field::FLOAT64 : Field::FLOAT32; World w(t, 2, 1, 100); const double s = sv_real("s", -3, 3);
    if (sv_choice("way", 2)) pct::scale_field(w.c, "v", s); else pct::scale_field(w.c, w.c.fields[1], s);
    for (int i = 0; i < 2; ++i) sv_eq(value(w.c, t, i * w.step + w.at), w.v(i) * s, "every value is scaled once");
    w.others(w.c, "scaling a field leaves everything else alone"); sv_check(same_layout(w.c, w.orig), "the layout does not change"); sv_cover("scale:end");
}
void names() {
    Cloud c = cloud({field("a", 0, 7), field("b", 4, 7), field("c", 8, 7)}, 12, 1); const int k = sv_choice("name", 5); const char* n[] = {"a", "b", "c", "d", ""}; bool threw = false; const Cloud& cc = c;
    sv_check(pct::has_field(c, n[k]) == (k < 3), "a field exists exactly when one has its name");
    try { const Field& f = pct::get_field(cc, n[k]); sv_check(k < 3 && &f == &c.fields[k < 3 ? k : 0], "the field of that name is returned"); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == (k >= 3), "unknown fields are refused"); threw = false;
    try { Field& f = pct::get_field(c, n[k]); sv_check(k < 3 && &f == &c.fields[k < 3 ? k : 0], "the field of that name is returned"); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == (k >= 3), "unknown fields are refused"); threw = false;
    const Cloud before = c;
    try { pct::change_field_name(c, n[k], "time"); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == (k >= 3), "unknown fields cannot be renamed");
    for (int i = 0; i < 3; ++i) sv_check(c.fields[i].name == (i == k ? "time" : n[i]) && c.fields[i].offset == before.fields[i].offset && c.fields[i].datatype == 7, "exactly that field is renamed");
    sv_cover("names:end");
}
void type_names() {
    const int t = sv_i32("type", 0, 12); const char* n[] = {"", "INT8", "UINT8", "INT16", "UINT16", "INT32", "UINT32", "FLOAT32", "FLOAT64"}; int bad = 0;
    const bool known = t >= 1 && t <= 8; const int k = known ? (t == 1 ? 1 : t == 2 ? 2 : t == 3 ? 3 : t == 4 ? 4 : t == 5 ? 5 : t == 6 ? 6 : t == 7 ? 7 : 8) : 0;
    try { sv_check(pct::to_string((Type)t) == n[k] && pct::field_type_to_string((std::uint8_t)t) == n[k], "types are named as they are"); } catch (const std::runtime_error&) { ++bad; }
    int bits = 0;
    try { bits += pct::is_8bit((Type)t) ? 8 : 0; } catch (const std::runtime_error&) { ++bad; }
    try { bits += pct::is_16bit((Type)t) ? 16 : 0; } catch (const std::runtime_error&) { ++bad; }
    try { bits += pct::is_32bit((Type)t) ? 32 : 0; } catch (const std::runtime_error&) { ++bad; }
    try { bits += pct::is_64bit((Type)t) ? 64 : 0; } catch (const std::runtime_error&) { ++bad; }
    sv_check(bad == (known ? 0 : 5), "exactly the unknown types are refused"); if (known) sv_check(bits == 8 * width_of(k), "every type has one bit depth");
    if (known) { sv_check(pct::is_8bit((std::uint8_t)t) == (bits == 8) && pct::is_16bit((std::uint8_t)t) == (bits == 16) && pct::is_32bit((std::uint8_t)t) == (bits == 32) && pct::is_64bit((std::uint8_t)t) == (bits == 64), "every type has one bit depth");
        sv_check(pct::is_same_bit_depth<Field::INT8>(t) == (bits == 8) && pct::is_same_bit_depth<Field::UINT8>(t) == (bits == 8) && pct::is_same_bit_depth<Field::INT16>(t) == (bits == 16) && pct::is_same_bit_depth<Field::UINT16>(t) == (bits == 16) && pct::is_same_bit_depth<Field::INT32>(t) == (bits == 32) && pct::is_same_bit_depth<Field::UINT32>(t) == (bits == 32) && pct::is_same_bit_depth<Field::FLOAT32>(t) == (bits == 32) && pct::is_same_bit_depth<Field::FLOAT64>(t) == (bits == 64), "types are equal in size exactly when their bit depth is"); }
    sv_cover("type_names:end");
}
void sizes() {
    Cloud c = cloud({field("a", 0, 7)}, 12, 2); const int w = sv_choice("w", 4), h = sv_choice("h", 3);
    if (sv_choice("default", 2)) { pct::resize(c, w); sv_check(c.height == 1 && c.width == (unsigned)w, "one row by default"); } else { pct::resize(c, w, h); sv_check(c.height == (unsigned)h && c.width == (unsigned)w, "the size is as asked"); }
    sv_check(c.row_step == 12 * c.width && c.data.size() == 12 * c.width * c.height && pct::size_bytes(c) == c.data.size() && pct::size_points(c) == c.width * c.height && pct::row_step(c) == c.row_step && pct::empty(c) == (c.width * c.height == 0), "the sizes fit the number of points");
    const int t = sv_choice("type", 8) + 1, off = sv_i32("off", 0, 1000), count = sv_i32("count", 0, 100); sv_check(pct::point_step(field("x", off, t, count)) == (unsigned)(off + width_of(t) * count), "a record ends after its last field");
    sv_cover("sizes:end");
}
static void added(World& w, const Cloud& d, int k, int t, int count, const char* const* names) {
    const int first = w.at + width_of(w.t) + 4, s = width_of(t) * count, step = first + k * s;
    sv_check(d.fields.size() == (std::size_t)(3 + k), "the new fields follow the old ones"); if (d.fields.size() != (std::size_t)(3 + k)) return;
    for (int i = 0; i < 3; ++i) sv_check(d.fields[i].name == w.orig.fields[i].name && d.fields[i].offset == w.orig.fields[i].offset && d.fields[i].datatype == w.orig.fields[i].datatype && d.fields[i].count == 1, "the old fields stay where they were");
    for (int i = 0; i < k; ++i) sv_check(d.fields[3 + i].name == names[i] && d.fields[3 + i].offset >= (unsigned)(first + i * s) && d.fields[3 + i].datatype == t && d.fields[3 + i].count == (unsigned)count && (i == 0 || d.fields[3 + i].offset >= d.fields[2 + i].offset + s), "the new fields have the given names and type and overlap no other field");
    sv_check(d.point_step >= (unsigned)step && d.point_step >= d.fields[2 + k].offset + s && d.width == w.orig.width && d.height == w.orig.height && d.row_step == d.point_step * d.width && d.data.size() == d.row_step * d.height && d.is_dense == w.orig.is_dense && d.is_bigendian == w.orig.is_bigendian && d.header.stamp == w.orig.header.stamp && d.header.seq == w.orig.header.seq && d.header.frame_id == w.orig.header.frame_id, "the layout fits the fields");
    for (int i = 0; i < w.n; ++i) {
        sv_eq(rd<float>(d, i * d.point_step), rd<float>(w.orig, i * w.step), "existing values are kept"); sv_eq(value(d, w.t, i * d.point_step + w.at), w.v(i), "existing values are kept"); sv_eq(rd<float>(d, i * d.point_step + w.at + width_of(w.t)), rd<float>(w.orig, i * w.step + w.at + width_of(w.t)), "existing values are kept");
    }
}
void add_one() {
    const int t = 1 + sv_choice("type", 8), n = sv_choice("points", 3), count = 1 + sv_choice("count", 2); World w(Field::UINT16, n, 1, 100); const char* names[] = {"new"};
    const Cloud d = pct::add_field(w.c, "new", (Type)t, count); added(w, d, 1, t, count, names); w.others(w.c, "the given cloud does not change", 9); sv_cover("add_one:end");
}
void add_two() {
    const int t = sv_choice("type", 2) ? Field::FLOAT64 : Field::FLOAT32; World w(Field::UINT32, 1, 2, 100); const char* names[] = {"p", "q"};
    const Cloud d = pct::add_fields(w.c, {"p", "q"}, (Type)t, 1); added(w, d, 2, t, 1, names); sv_cover("add_two:end");
}
void add_padded() {  // records end with more padding than the new fields need
    Cloud c = cloud({field("x", 0, 7), field("y", 4, 7), field("z", 8, 7), field("intensity", 16, 7)}, 32, 2);
    for (int i = 0; i < 2; ++i) for (int k : {0, 4, 8, 16}) fresh(c, 7, 32 * i + k, nm("v", i, k), 100);
    const int t = 1 + sv_choice("type", 8); const Cloud d = pct::add_field(c, "new", (Type)t);
    sv_check(d.fields.size() == 5 && d.fields[4].name == "new" && d.fields[4].offset >= 20 && d.point_step >= d.fields[4].offset + width_of(t) && d.data.size() == 2 * d.point_step, "the layout fits the fields");
    for (int i = 0; i < 2; ++i) for (int k : {0, 4, 8, 16}) sv_eq(rd<float>(d, d.point_step * i + k), rd<float>(c, 32 * i + k), "existing values are kept");
    sv_cover("add_padded:end");
}
void add_first() {
    const int t = 1 + sv_choice("type", 8); const Cloud d = pct::add_fields(Cloud(), {"p", "q"}, (Type)t, 1);
    sv_check(d.fields.size() == 2 && d.fields[0].name == "p" && d.fields[1].name == "q" && d.fields[0].offset == 0 && d.fields[1].offset == (unsigned)width_of(t) && d.point_step == (unsigned)(2 * width_of(t)) && d.data.empty(), "fields can be added to a cloud without any");
    sv_cover("add_first:end");
}
void add_unit() {
    const int n = sv_choice("points", 3); Cloud c = cloud({field("x", 0, 7), field("y", 4, 7), field("z", 8, 7), field("w", 12, 7)}, 16, n); bool zero = false;
    for (int i = 0; i < n; ++i) { for (int k = 0; k < 4; ++k) fresh(c, 7, 16 * i + 4 * k, nm("v", i, k), 50); if (sv_split(rd<float>(c, 16 * i) == 0 && rd<float>(c, 16 * i + 4) == 0 && rd<float>(c, 16 * i + 8) == 0)) zero = true; }
    Cloud d; bool threw = false; try { d = pct::add_unit_vectors(c); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == zero, "points without a direction are refused"); if (threw) { sv_cover("add_unit:refused"); return; }
    sv_check(d.fields.size() == 7 && d.width == (unsigned)n, "three fields are added"); if (d.fields.size() != 7) return;
    const char* names[] = {"ux", "uy", "uz"}; for (int k = 0; k < 3; ++k) sv_check(d.fields[4 + k].name == names[k] && d.fields[4 + k].datatype == Field::FLOAT32, "unit vector fields are named ux, uy, uz");
    for (int i = 0; i < n; ++i) {
        double v[3], u[3]; for (int k = 0; k < 3; ++k) { v[k] = rd<float>(c, 16 * i + 4 * k); u[k] = rd<float>(d, d.point_step * i + d.fields[4 + k].offset); }
        const double r = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
        for (int k = 0; k < 3; ++k) sv_eq(r * u[k], v[k], "the unit vector points to the point");
        for (int k = 0; k < 4; ++k) sv_eq(rd<float>(d, d.point_step * i + 4 * k), rd<float>(c, 16 * i + 4 * k), "existing values are kept");
    }
    sv_cover("add_unit:end");
}
void filter() {
    const int n = sv_choice("points", 4); World w(sv_choice("type", 2) ? Field::FLOAT32 : Field::UINT32, n, 1, 100); const double m = sv_real("max", -100, 100); Cloud d; d.data.resize(sv_choice("reused", 2) * 5); std::vector<int> keep;
    if (sv_choice("way", 2)) pct::filter_max<double>(w.c, d, "v", m); else pct::filter_max<double>(w.c, d, w.c.fields[1], m);
    for (int i = 0; i < n; ++i) if (sv_split(w.v(i) <= m)) keep.push_back(i);
    sv_check(d.width * d.height == keep.size() && d.height == 1 && d.point_step == (unsigned)w.step && d.row_step == d.point_step * d.width && d.data.size() == d.row_step && d.fields.size() == 3 && d.header.stamp == w.orig.header.stamp && d.header.frame_id == w.orig.header.frame_id && d.header.seq == w.orig.header.seq, "exactly the points up to the maximum are kept");
    if (d.data.size() != keep.size() * w.step) return;
    for (std::size_t j = 0; j < keep.size(); ++j) {
        const int i = keep[j] * w.step, o = (int)j * w.step, s = width_of(w.t);
        sv_eq(rd<float>(d, o), rd<float>(w.orig, i), "kept points are unchanged and in order"); sv_eq(value(d, w.t, o + w.at), value(w.orig, w.t, i + w.at), "kept points are unchanged and in order"); sv_eq(rd<float>(d, o + w.at + s), rd<float>(w.orig, i + w.at + s), "kept points are unchanged and in order");
        for (int k = 0; k < 4; ++k) sv_check(d.data[o + 4 + k] == w.orig.data[i + 4 + k] && d.data[o + w.at + s + 4 + k] == w.orig.data[i + w.at + s + 4 + k], "kept points are unchanged and in order");
    }
    w.others(w.c, "the given cloud does not change", 9); sv_cover("filter:end");
}
void extremes() {
    const int n = sv_choice("points", 4); const int t = 1 + sv_choice("type", 8); World w(t, n, 1, 100); bool threw = false, threw2 = false; double lo = 0, hi = 0;
    try { lo = pct::min<double>(w.c, w.c.fields[1]); } catch (const std::runtime_error&) { threw = true; }
    try { hi = pct::max<double>(w.c, "v"); } catch (const std::runtime_error&) { threw2 = true; }
    sv_check(threw == (n == 0) && threw2 == (n == 0), "an empty cloud has no extremes"); if (n == 0) { sv_cover("extremes:empty"); return; }
    bool in_lo = false, in_hi = false; for (int i = 0; i < n; ++i) { sv_check(lo <= w.v(i) && w.v(i) <= hi, "no value lies outside the extremes"); in_lo = in_lo || lo == w.v(i); in_hi = in_hi || hi == w.v(i); }
    sv_check(in_lo && in_hi, "the extremes are values of the cloud"); sv_cover("extremes:end");
}
void moments() {
    const int n = 1 + sv_choice("points", 3), t = sv_choice("type", 2) ? Field::FLOAT32 : Field::INT16; World w(t, n, 1, 100); double s = 0, q = 0; for (int i = 0; i < n; ++i) s += w.v(i); const double m = s / n; for (int i = 0; i < n; ++i) q += (w.v(i) - m) * (w.v(i) - m); q /= n;
    sv_eq(pct::sum<double>(w.c, "v"), s, "sum"); sv_eq(pct::mean<double>(w.c, "v"), m, "mean"); sv_eq(pct::variance<double>(w.c, "v"), q, "variance about the mean"); sv_eq(pct::mean(w.c, w.c.fields[1]), m, "mean");
    const double o = sv_real("about", -10, 10); double qo = 0; for (int i = 0; i < n; ++i) qo += (w.v(i) - o) * (w.v(i) - o); sv_eq(pct::variance(w.c, w.c.fields[1], o), qo / n, "variance about a given value");
    const double sd = pct::standard_deviation<double>(w.c, "v"); sv_check(sd >= 0, "standard deviation"); sv_eq(sd * sd, q, "standard deviation is the root of the variance"); sv_cover("moments:end");
}
void summary() {
    Cloud c = cloud({field("a", 0, 7), field("b", 4, 4)}, 6, 2); for (int i = 0; i < 2; ++i) { fresh(c, 7, 6 * i, nm("a", i), 100); fresh(c, 4, 6 * i + 4, nm("b", i), 100); }
    const statistics_msgs::SummaryStatisticsArray s = pct::statistics(c); sv_check(s.statistics.size() == 2 && s.header.seq == 3 && s.header.frame_id == "lidar" && s.header.stamp.sec == 1 && s.header.stamp.nsec == 0, "one summary per field, with the header of the cloud");
    if (s.statistics.size() != 2) return;
    for (int f = 0; f < 2; ++f) {
        const double x = value(c, f ? 4 : 7, f ? 4 : 0), y = value(c, f ? 4 : 7, 6 + (f ? 4 : 0)); const auto& m = s.statistics[f];
        sv_check(m.label == (f ? "b" : "a") && m.count == 2, "label and count"); sv_eq(m.mean, (x + y) / 2, "mean"); sv_eq(m.variance, (x - y) * (x - y) / 4, "variance"); sv_check(m.min <= m.max && (m.min == x || m.min == y) && (m.max == x || m.max == y) && m.min <= x && m.min <= y && m.max >= x && m.max >= y, "extremes");
    }
    sv_cover("summary:end");
}
void normals() {
    const int n = sv_choice("points", 3); Cloud c = cloud({field("normal_x", 0, 7), field("normal_y", 4, 7), field("normal_z", 8, 7)}, 12, n); const float thr = sv_realf("thr", 0, 1); int bad = 0;
    for (int i = 0; i < n; ++i) { const int k = sv_choice(nm("axis", i).c_str(), 3); const float v = sv_realf(nm("n", i).c_str(), -4, 4); wr<float>(c, 12 * i + 4 * k, v); const double e = absd(absd(v) - 1); sv_assume(absd(e - thr) > 1e-3); if (sv_split(e > thr)) ++bad; }
    sv_check(pct::check_normals(c, thr) == bad, "exactly the normals whose length is off by more than the threshold count"); sv_cover("normals:end");
}
void coordinates() {
    const int n = sv_choice("points", 3); Cloud c = cloud({field("z", 0, 7), field("y", 4, 7), field("x", 8, 7)}, 12, n); const char* names[] = {"x", "y", "z"}; bool zero = false; (void)names;
    for (int i = 0; i < n; ++i) { for (int k = 0; k < 3; ++k) fresh(c, 7, 12 * i + 4 * k, nm("v", i, k), 50); sv_assume(rd<float>(c, 12 * i + 8) > 0.1); }
    const Eigen::Matrix<double, 3, Eigen::Dynamic> u = pct::unit_vectors<double>(c), p = pct::polar_coordinates<double>(c);
    sv_check(u.cols() == n && p.cols() == n && !zero, "one column per point"); if (u.cols() != n || p.cols() != n) return;
    for (int i = 0; i < n; ++i) {
        const double v[3] = {rd<float>(c, 12 * i + 8), rd<float>(c, 12 * i + 4), rd<float>(c, 12 * i)}, r = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
        for (int k = 0; k < 3; ++k) sv_eq(u(k, i) * r, v[k], "columns are the unit vectors of the points"); const Eigen::Vector3d q = eigen_ext::cartesian_to_polar<double>(v[0], v[1], v[2]); for (int k = 0; k < 3; ++k) sv_eq(p(k, i), q(k), "columns are the polar coordinates of the points");
    }
    sv_cover("coordinates:end");
}
void deskew_translation() {
    const int n = 1 + sv_choice("points", 2), tt = sv_choice("type", 2) ? 8 : 7; Cloud c = sweep(n, tt), d; const double dt = sv_real("dt", 0.01, 10); const int off = sv_i32("off", -3000000, 3000000);
    for (int i = 0; i < n; ++i) fresh(c, tt, 32 * i + 24, nm("t", i), 5);
    Eigen::Vector3d s(sv_real("sx", 1, 10), sv_real("sy", -10, 10), sv_real("sz", -10, 10)); if (sv_choice("negative", 2)) s = -s; const std::uint64_t time = c.header.stamp + (std::int64_t)off;
    pct::deskew(motion(Eigen::Quaterniond(1, 0, 0, 0), s), dt, time, c, d);
    stamped(c, d, time, tt);
    for (int i = 0; i < n; ++i) {
        const double t = value(c, tt, 32 * i + 24) - off / 1e6; const Eigen::Vector3d p = point(c, i), q = point(d, i); for (int k = 0; k < 3; ++k) sv_eq((q[k] - p[k]) * dt, t * s[k], "points move by the motion between their time and the new time");
        sv_eq(value(d, tt, 32 * i + 24), 0, "all points are at the new time");
    }
    sv_cover("deskew_translation:end");
}
void deskew_rotation() {
    Cloud c = sweep(1, 7), d; const double dt = sv_real("dt", 0.01, 10); const int off = sv_i32("off", -3000000, 3000000); fresh(c, 7, 24, "t", 5); const Eigen::Quaterniond turned = TURNS[sv_choice("turn", 6)];
    const Eigen::Vector3d s(sv_real("sx", -10, 10), sv_real("sy", -10, 10), sv_real("sz", -10, 10)); const std::uint64_t time = c.header.stamp + (std::int64_t)off;
    const Eigen::Isometry3d skew = motion(turned, s); const Eigen::Quaterniond q(skew.rotation());  // (same rounding as in the code, so that the angle is the same term)
    pct::deskew(skew, dt, time, c, d); stamped(c, d, time, 7); const double same = q.dot(turned); sv_check(same > 0.999999 || same < -0.999999, "the motion turns by the given rotation");
    const double fi = rd<float>(c, 24) / dt, fn = off / 1e6 / dt; const Eigen::Quaterniond qi = Eigen::Quaterniond::Identity().slerp(fi, q), qn = Eigen::Quaterniond::Identity().slerp(fn, q); sv_tol(1e-6);
    const Eigen::Vector3d in_start = turn(qi, point(c, 0)) + (fi - fn) * s; sv::eq(point(d, 0), turn(qn.conjugate(), in_start), "a point seen from the sensor at the new time is the same point in space");
    sv_eq(rd<float>(d, 24), 0, "all points are at the new time"); sv_cover("deskew_rotation:end");
}
void deskew_ends() {
    Cloud c = sweep(1, 7), d; const Eigen::Quaterniond q = sv::quaternion("q", false); const double v2 = q.x() * q.x() + q.y() * q.y() + q.z() * q.z(); sv_assume(q.w() > 0 && v2 >= 0.01 && v2 <= 0.9999); const int from = sv_choice("point at the end", 2), to = sv_choice("new time at the end", 2); const Eigen::Vector3d s(sv_real("sx", -10, 10), sv_real("sy", -10, 10), sv_real("sz", -10, 10));
    wr<float>(c, 24, from ? 0.5f : 0.f); const std::uint64_t time = c.header.stamp + (to ? 500000 : 0); pct::deskew(motion(q, s), 0.5, time, c, d); stamped(c, d, time, 7); const Eigen::Vector3d a = point(c, 0), b = point(d, 0);
    sv::eq(to ? Eigen::Vector3d(turn(q, b) + s) : b, from ? Eigen::Vector3d(turn(q, a) + s) : a, "points of one end of the sweep are moved to the other by the whole motion"); sv_cover("deskew_ends:end");
}
void deskew_middle() {  // half way through the sweep, half of the turn and half of the translation
    Cloud c = sweep(1, 7), d; const int from = sv_choice("point", 3), to = sv_choice("new time", 3), axis = sv_choice("axis", 3), sign = sv_choice("sign", 2); Eigen::Quaterniond q(0.28, 0, 0, 0), h(0.8, 0, 0, 0); q.vec()[axis] = sign ? -0.96 : 0.96; h.vec()[axis] = sign ? -0.6 : 0.6;
    const Eigen::Vector3d s(sv_real("sx", -10, 10), sv_real("sy", -10, 10), sv_real("sz", -10, 10)); wr<float>(c, 24, 0.25f * from); const std::uint64_t time = c.header.stamp + 250000 * to; sv_tol(1e-6);
    pct::deskew(motion(q, s), 0.5, time, c, d); stamped(c, d, time, 7); const Eigen::Quaterniond id(1, 0, 0, 0); const Eigen::Vector3d a = turn(from == 2 ? q : from == 1 ? h : id, point(c, 0)) + 0.5 * from * s, b = turn(to == 2 ? q : to == 1 ? h : id, point(d, 0)) + 0.5 * to * s;
    sv::eq(b, a, "half way through the sweep half of the motion has happened"); sv_cover("deskew_middle:end");
}
void deskew_identity() {
    const int n = sv_choice("points", 3); Cloud c = sweep(n, 7), d; for (int i = 0; i < n; ++i) fresh(c, 7, 32 * i + 24, nm("t", i), 5); const std::uint64_t time = c.header.stamp + (std::int64_t)sv_i32("off", -3000000, 3000000);
    pct::deskew(Eigen::Isometry3d::Identity(), sv_real("dt", -1, 1), time, c, d); stamped(c, d, time, 7); for (int i = 0; i < n; ++i) sv::eq(point(d, i), point(c, i), "without motion points stay where they are"); sv_cover("deskew_identity:end");
}
void deskew_refused() {
    Cloud c = sweep(1, 7), d; wr<float>(c, 24, 0.5f); const double dt = sv_real("dt", -1, 1); const int missing = sv_choice("missing", 5); const char* names[] = {"x", "y", "z", "t", "intensity"}; bool threw = false; pct::change_field_name(c, names[missing], "other"); const int turned = sv_choice("turned", 2);
    sv_assume(dt <= 0 || dt >= 0.01);
    try { pct::deskew(turned ? motion(TURNS[0], Eigen::Vector3d::Zero()) : motion(Eigen::Quaterniond(1, 0, 0, 0), Eigen::Vector3d(1, 0, 0)), dt, c.header.stamp + 1000, c, d); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw == (dt <= 0 || missing < 4), "sweeps without duration, coordinates or time are refused"); sv_cover(threw ? "deskew_refused:refused" : "deskew_refused:accepted");
}
}
