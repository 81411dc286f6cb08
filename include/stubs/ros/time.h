// Stand-in for ros/time.h and ros/duration.h with the arithmetic of roscpp's rostime.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <iostream>
#include <stdexcept>
namespace ros {
// (the same as dividing by a second, without a division for the usual case)
inline void splitSeconds(int64_t nsec, int64_t& s, int64_t& n) {
    s = 0; n = nsec;
    if (n >= 2000000000LL || n < -1000000000LL) { s = n / 1000000000LL; n = n % 1000000000LL; }
    if (n >= 1000000000LL) { n -= 1000000000LL; ++s; }
    if (n < 0) { n += 1000000000LL; --s; }
}
inline void normalizeSecNSecSigned(int64_t& sec, int64_t& nsec) {
    int64_t n, s; splitSeconds(nsec, s, n); s += sec;
    if (s < INT32_MIN || s > INT32_MAX) throw std::runtime_error("Duration is out of dual 32-bit range");
    sec = s; nsec = n;
}
inline void normalizeSecNSecUnsigned(int64_t& sec, int64_t& nsec) {
    int64_t n, s; splitSeconds(nsec, s, n); s += sec;
    if (s < 0 || s > (int64_t)UINT32_MAX) throw std::runtime_error("Time is out of dual 32-bit range");
    sec = s; nsec = n;
}
class Duration {
public:
    int32_t sec, nsec;
    Duration() : sec(0), nsec(0) {}
    Duration(int32_t s, int32_t n) { int64_t a = s, b = n; normalizeSecNSecSigned(a, b); sec = (int32_t)a; nsec = (int32_t)b; }
    explicit Duration(double t) { fromSec(t); }
    Duration& fromSec(double d) {
        if (!std::isfinite(d) || d <= -2147483649.0 || d >= 2147483648.0) throw std::runtime_error("Duration is out of dual 32-bit range");
        const int64_t s64 = (int64_t)d; sec = (int32_t)s64; nsec = (int32_t)std::round((d - (double)sec) * 1e9);
        int64_t a = sec, b = nsec; normalizeSecNSecSigned(a, b); sec = (int32_t)a; nsec = (int32_t)b; return *this;
    }
    double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
    int64_t toNSec() const { return static_cast<int64_t>(sec) * 1000000000LL + nsec; }
    Duration& fromNSec(int64_t t) { int64_t s = t / 1000000000LL, n = t % 1000000000LL; normalizeSecNSecSigned(s, n); sec = (int32_t)s; nsec = (int32_t)n; return *this; }
    bool isZero() const { return sec == 0 && nsec == 0; }
    Duration operator+(const Duration& r) const { Duration t; return t.fromNSec(toNSec() + r.toNSec()); }
    Duration operator-(const Duration& r) const { Duration t; return t.fromNSec(toNSec() - r.toNSec()); }
    Duration operator-() const { Duration t; return t.fromNSec(-toNSec()); }
    Duration operator*(double s) const { return Duration(toSec() * s); }
    Duration& operator+=(const Duration& r) { return *this = *this + r; }
    Duration& operator-=(const Duration& r) { return *this = *this - r; }
    bool operator==(const Duration& r) const { return sec == r.sec && nsec == r.nsec; }
    bool operator!=(const Duration& r) const { return !(*this == r); }
    bool operator<(const Duration& r) const { if (sec < r.sec) return true; if (sec == r.sec && nsec < r.nsec) return true; return false; }
    bool operator>(const Duration& r) const { return r < *this; }
    bool operator<=(const Duration& r) const { return !(r < *this); }
    bool operator>=(const Duration& r) const { return !(*this < r); }
    bool sleep() const;  // (calls what the harness has set)
};
class Time {
public:
    uint32_t sec, nsec;
    Time() : sec(0), nsec(0) {}
    Time(uint32_t s, uint32_t n) { int64_t a = s, b = n; normalizeSecNSecUnsigned(a, b); sec = (uint32_t)a; nsec = (uint32_t)b; }
    explicit Time(double t) { fromSec(t); }
    Time& fromSec(double t) {
        if (!(t >= 0) || t > 4294967295.0) throw std::runtime_error("Time is out of dual 32-bit range");
        sec = (uint32_t)std::floor(t); nsec = (uint32_t)std::round((t - sec) * 1e9); sec += nsec / 1000000000UL; nsec %= 1000000000UL; return *this;
    }
    double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
    uint64_t toNSec() const { return static_cast<uint64_t>(sec) * 1000000000ULL + nsec; }
    Time& fromNSec(uint64_t t) { sec = (uint32_t)(t / 1000000000ULL); nsec = (uint32_t)(t % 1000000000ULL); return *this; }
    bool isZero() const { return sec == 0 && nsec == 0; }
    bool is_zero() const { return isZero(); }
    Duration operator-(const Time& r) const { int64_t s = (int64_t)sec - r.sec, n = (int64_t)nsec - r.nsec; normalizeSecNSecSigned(s, n); Duration d; d.sec = (int32_t)s; d.nsec = (int32_t)n; return d; }
    Time operator+(const Duration& d) const { int64_t s = (int64_t)sec + d.sec, n = (int64_t)nsec + d.nsec; normalizeSecNSecUnsigned(s, n); Time t; t.sec = (uint32_t)s; t.nsec = (uint32_t)n; return t; }
    Time operator-(const Duration& d) const { return *this + (-d); }
    Time& operator+=(const Duration& d) { return *this = *this + d; }
    Time& operator-=(const Duration& d) { return *this = *this - d; }
    bool operator==(const Time& r) const { return sec == r.sec && nsec == r.nsec; }
    bool operator!=(const Time& r) const { return !(*this == r); }
    bool operator<(const Time& r) const { if (sec < r.sec) return true; if (sec == r.sec && nsec < r.nsec) return true; return false; }
    bool operator>(const Time& r) const { return r < *this; }
    bool operator<=(const Time& r) const { return !(r < *this); }
    bool operator>=(const Time& r) const { return !(*this < r); }
    static Time now();
};
inline std::ostream& operator<<(std::ostream& o, const Time& t) { return o << t.sec << "." << t.nsec; }
inline std::ostream& operator<<(std::ostream& o, const Duration& t) { return o << t.sec << "." << t.nsec; }
namespace world {
inline Time& clock() { static Time t; return t; }
inline std::function<void(const Duration&)>& on_sleep() { static std::function<void(const Duration&)> f; return f; }
}
inline Time Time::now() { return world::clock(); }
inline bool Duration::sleep() const { if (world::on_sleep()) world::on_sleep()(*this); return true; }
typedef Time WallTime; typedef Duration WallDuration;
}
