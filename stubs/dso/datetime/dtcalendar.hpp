#ifndef VS_DTCAL
#define VS_DTCAL
#include "datetime/dtfund.hpp"
namespace dso {
struct ydoy_date { year __year; day_of_year __doy; };
inline modified_julian_day ydoy2mjd(int y, int doy) { return modified_julian_day(vs_ymd2mjd(y, 1, 1) + doy - 1); }
inline modified_julian_day ydoy2mjd(year y, day_of_year doy) { return ydoy2mjd(y.v, doy.v); }
inline ydoy_date mjd2ydoy(long mjd) {
  int y = 1858;
  while (vs_ymd2mjd(y + 1, 1, 1) <= mjd) ++y;
  ydoy_date r; r.__year = year(y); r.__doy = day_of_year((int)(mjd - vs_ymd2mjd(y, 1, 1) + 1));
  return r;
}
template <typename S> class datetime {
  long m_d{0}, m_s{0};
  void norm() noexcept { while (m_s >= S::max_in_day) { m_s -= S::max_in_day; ++m_d; } while (m_s < 0) { m_s += S::max_in_day; --m_d; } }
public:
  struct delta { long d, s; double as_mjd() const noexcept { return (double)d + (double)s / (double)S::max_in_day; } };
  constexpr datetime() noexcept : m_d(0), m_s(0) {}
  datetime(modified_julian_day d, S s) noexcept : m_d(d.v), m_s(s.v) { norm(); }
  datetime(int d, S s) noexcept : m_d(d), m_s(s.v) { norm(); }
  datetime(year y, month m, day_of_month d, S s = S(0)) : m_d(vs_ymd2mjd(y.v, m.v, d.v)), m_s(s.v) {
    if (m.v < 1 || m.v > 12 || d.v < 1 || d.v > 31) throw std::out_of_range("bad date");
    norm();
  }
  datetime(year y, day_of_year d, S s) : m_d(ydoy2mjd(y, d).v), m_s(s.v) { norm(); }
  static datetime min() noexcept { return datetime(modified_julian_day(-100000), S(0)); }
  static datetime max() noexcept { return datetime(modified_julian_day(10000000), S(0)); }
  modified_julian_day mjd() const noexcept { return modified_julian_day(m_d); }
  S sec() const noexcept { return S(m_s); }
  double as_mjd() const noexcept { return (double)m_d + (double)m_s / (double)S::max_in_day; }
  double as_jd() const noexcept { return as_mjd() + mjd0_jd; }
  double jcenturies_sinceJ2000() const noexcept { return (as_jd() - j2000_jd) / 36525e0; }
  ydoy_date as_ydoy() const noexcept { return mjd2ydoy(m_d); }
  void normalize() noexcept { norm(); }
  template <long F> void add_seconds(SecType<F> x) noexcept { S y(x); m_s += y.v; norm(); }
  S delta_sec(const datetime &o) const noexcept { return S((m_d - o.m_d) * S::max_in_day + (m_s - o.m_s)); }
  delta delta_date(const datetime &o) const noexcept { long t = delta_sec(o).v, d = t / S::max_in_day; return delta{d, t - d * S::max_in_day}; }
  template <typename T> datetime<T> cast_to() const noexcept {
    return datetime<T>(modified_julian_day(m_d), T((long)((m_s / S::template sec_factor<long>()) * T::template sec_factor<long>() + (m_s % S::template sec_factor<long>()) * T::template sec_factor<long>() / S::template sec_factor<long>())));
  }
  bool operator==(const datetime &o) const noexcept { return m_d == o.m_d && m_s == o.m_s; }
  bool operator!=(const datetime &o) const noexcept { return !(*this == o); }
  bool operator<(const datetime &o) const noexcept { return m_d < o.m_d || (m_d == o.m_d && m_s < o.m_s); }
  bool operator>(const datetime &o) const noexcept { return o < *this; }
  bool operator<=(const datetime &o) const noexcept { return !(o < *this); }
  bool operator>=(const datetime &o) const noexcept { return !(*this < o); }
};
enum class DateTimeDifferenceType { FractionalDays, FractionalSeconds };
template <DateTimeDifferenceType D, typename S> double date_diff(const datetime<S> &a, const datetime<S> &b) noexcept {
  return D == DateTimeDifferenceType::FractionalDays ? a.delta_sec(b).fractional_days() : a.delta_sec(b).to_fractional_seconds();
}
}
#endif
