// Minimal offline stand-in for roscpp's time types (semantics of ros::Time as
// used by msf: sec/nsec pair, toSec, construction from double).
#pragma once
#include <cmath>
#include <cstdint>
#include <ostream>
namespace ros {
struct Duration {
  int32_t sec, nsec;
  Duration() : sec(0), nsec(0) {}
  explicit Duration(double t) { sec = (int32_t)std::floor(t); nsec = (int32_t)std::lround((t - sec) * 1e9); }
  Duration(int32_t s, int32_t n) : sec(s), nsec(n) {}
  double toSec() const { return sec + 1e-9 * nsec; }
  int64_t toNSec() const { return (int64_t)sec * 1000000000ll + nsec; }
  static Duration ns(int64_t n) { int64_t s = n / 1000000000ll; n -= s * 1000000000ll; if (n < 0) { n += 1000000000ll; s--; } return Duration((int32_t)s, (int32_t)n); }
  bool sleep() const { return true; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  Duration operator-() const { return ns(-toNSec()); }
  Duration operator+(const Duration& o) const { return ns(toNSec() + o.toNSec()); }
  Duration operator-(const Duration& o) const { return ns(toNSec() - o.toNSec()); }
  Duration operator*(double k) const { return Duration(toSec() * k); }
  bool operator<(const Duration& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Duration& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Duration& o) const { return toNSec() >= o.toNSec(); }
  bool operator==(const Duration& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Duration& o) const { return toNSec() != o.toNSec(); }
};
struct Time {
  uint32_t sec, nsec;
  Time() : sec(0), nsec(0) {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) { fromSec(t); }
  Time& fromSec(double t) {
    // Saturating: ROS throws for out-of-range values; harnesses only use valid stamps.
    if (!(t > 0)) { sec = nsec = 0; return *this; }
    double s = std::floor(t);
    if (s > 4294967294.0) s = 4294967294.0;
    sec = (uint32_t)s;
    double n = std::round((t - s) * 1e9);
    if (!(n >= 0)) n = 0;
    if (n >= 1e9) { sec += 1; n = 0; }
    nsec = (uint32_t)n;
    return *this;
  }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  static Time& fake() { static Time t(1000, 0); return t; }
  static Time now() { return fake(); }
  static void init() {}
  bool operator==(const Time& o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time& o) const { return !(*this == o); }
  bool operator<(const Time& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Time& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Time& o) const { return toNSec() >= o.toNSec(); }
  uint64_t toNSec() const { return (uint64_t)sec * 1000000000ull + nsec; }
  Duration operator-(const Time& o) const { return Duration::ns((int64_t)(toNSec() - o.toNSec())); }
  Time operator+(const Duration& d) const { uint64_t n = toNSec() + d.toNSec(); return Time((uint32_t)(n / 1000000000ull), (uint32_t)(n % 1000000000ull)); }
  Time operator-(const Duration& d) const { return *this + (-d); }
  Time& operator+=(const Duration& d) { return *this = *this + d; }
  Time& operator-=(const Duration& d) { return *this = *this - d; }
  bool isZero() const { return sec == 0 && nsec == 0; }
};
typedef Time WallTime;
typedef Duration WallDuration;
inline std::ostream& operator<<(std::ostream& o, const Time& t) { return o << t.toSec(); }
}  // namespace ros
