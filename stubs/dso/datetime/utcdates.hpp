// Stand-in: UTC dates, leap seconds of 2012, 2015 and 2017 (dates from mid 2009 on).
#ifndef VS_UTCDATES
#define VS_UTCDATES
#include "datetime/datetime_read.hpp"
namespace dso {
inline int dat(modified_julian_day d) noexcept { return d.v < 56109 ? 34 : d.v < 57204 ? 35 : d.v < 57754 ? 36 : 37; }
inline double utc_strptime_ymd_hms(const char *str, modified_julian_day &mjd) {
  const datetime<nanoseconds> t = strptime_ymd_hms<nanoseconds>(str);
  mjd = t.mjd();
  return (double)t.sec().as_underlying_type() / (86400e0 * 1e9);
}
inline double utc2tai(modified_julian_day utc, double fday, modified_julian_day &tai) noexcept {
  double f = fday + dat(utc) / 86400e0;
  tai = utc;
  if (f >= 1e0) { f -= 1e0; ++tai; }
  return f;
}
template <typename S> double tai2utc(const datetime<S> &t, modified_julian_day &utc) noexcept {
  const int a = dat(t.mjd());
  const bool before = t.sec().as_underlying_type() < a * S::template sec_factor<long>(); // still the previous UTC day
  utc = t.mjd();
  if (before) utc -= modified_julian_day(1);
  const int l = dat(utc);
  const long s = t.sec().as_underlying_type() - l * S::template sec_factor<long>() + (before ? S::max_in_day : 0);
  return (double)s / (double)S::max_in_day;
}
inline int dat(double tai_mjd, int &extra) noexcept { extra = 0; return dat(modified_julian_day((long)tai_mjd)); }
}
#endif
