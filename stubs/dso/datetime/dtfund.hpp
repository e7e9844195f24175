// Stand-in for the missing ggdatetime library: exact integer calendar arithmetic.
#ifndef VS_DTFUND
#define VS_DTFUND
#include <cstdint>
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <string>
#include <iostream>
#include <stdexcept>
#include <vector>
#include <cmath>
#include <type_traits>
namespace dso {
constexpr double mjd0_jd = 2400000.5e0;
constexpr double j2000_mjd = 51544.5e0;
constexpr double j2000_jd = 2451545e0;
constexpr double sec_per_day = 86400e0;
constexpr double days_in_julian_cent = 36525e0;
template <int Tag> struct IntTag {
  typedef int underlying_type;
  int v;
  explicit constexpr IntTag(int i = 0) noexcept : v(i) {}
  constexpr int as_underlying_type() const noexcept { return v; }
  constexpr bool operator==(IntTag o) const noexcept { return v == o.v; }
  constexpr bool operator!=(IntTag o) const noexcept { return v != o.v; }
};
typedef IntTag<0> year;
typedef IntTag<1> month;
typedef IntTag<2> day_of_month;
typedef IntTag<3> day_of_year;
struct modified_julian_day {
  typedef long underlying_type;
  long v;
  explicit constexpr modified_julian_day(long i = 0) noexcept : v(i) {}
  constexpr long as_underlying_type() const noexcept { return v; }
  constexpr double to_julian_day() const noexcept { return (double)v + mjd0_jd; }
  constexpr bool operator==(modified_julian_day o) const noexcept { return v == o.v; }
  constexpr bool operator!=(modified_julian_day o) const noexcept { return v != o.v; }
  constexpr bool operator<(modified_julian_day o) const noexcept { return v < o.v; }
  constexpr bool operator<=(modified_julian_day o) const noexcept { return v <= o.v; }
  constexpr bool operator>(modified_julian_day o) const noexcept { return v > o.v; }
  constexpr bool operator>=(modified_julian_day o) const noexcept { return v >= o.v; }
  constexpr modified_julian_day operator+(modified_julian_day o) const noexcept { return modified_julian_day(v + o.v); }
  constexpr modified_julian_day operator-(modified_julian_day o) const noexcept { return modified_julian_day(v - o.v); }
  modified_julian_day &operator+=(modified_julian_day o) noexcept { v += o.v; return *this; }
  modified_julian_day &operator-=(modified_julian_day o) noexcept { v -= o.v; return *this; }
  modified_julian_day &operator++() noexcept { ++v; return *this; }
};
template <long F> struct SecType {
  typedef long underlying_type;
  static constexpr bool is_of_sec_type{true};
  static constexpr long max_in_day{86400L * F};
  template <typename T> static constexpr T sec_factor() noexcept { return static_cast<T>(F); }
  long v;
  explicit constexpr SecType(long i = 0) noexcept : v(i) {}
  template <long G, typename = std::enable_if_t<(F > G)>> constexpr SecType(SecType<G> o) noexcept : v(o.v * (F / G)) {}
  constexpr long as_underlying_type() const noexcept { return v; }
  constexpr double to_fractional_seconds() const noexcept { return (double)v / (double)F; }
  constexpr double fractional_days() const noexcept { return (double)v / (double)max_in_day; }
  constexpr bool operator==(SecType o) const noexcept { return v == o.v; }
  constexpr bool operator<(SecType o) const noexcept { return v < o.v; }
  constexpr bool operator>(SecType o) const noexcept { return v > o.v; }
  constexpr SecType operator+(SecType o) const noexcept { return SecType(v + o.v); }
  constexpr SecType operator-(SecType o) const noexcept { return SecType(v - o.v); }
};
typedef SecType<1> seconds;
typedef SecType<1000> milliseconds;
typedef SecType<1000000> microseconds;
typedef SecType<1000000000L> nanoseconds;
constexpr long vs_ymd2mjd(int y, int m, int d) {
  int a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3;
  return d + (153 * mm + 2) / 5 + 365L * yy + yy / 4 - yy / 100 + yy / 400 - 32045 - 2400001;
}
}
#endif
