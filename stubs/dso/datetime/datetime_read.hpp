#ifndef VS_DTREAD
#define VS_DTREAD
#include "datetime/dtcalendar.hpp"
namespace dso {
// "YYYY MM DD HH MM SS[.fffffffff]" separated by any of " -/:T"; throws std::invalid_argument on anything else
inline long vs_rdint(const char *&s) {
  int k = 0;
  while (k < 4 && (*s == ' ' || *s == '-' || *s == '/' || *s == ':' || *s == 'T')) { ++s; ++k; }
  if (*s < '0' || *s > '9') throw std::invalid_argument("bad date");
  long v = 0;
  while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0');
  return v;
}
template <typename S> datetime<S> strptime_ymd_hms(const char *str, char **end = nullptr) {
  const char *s = str;
  long y = vs_rdint(s), m = vs_rdint(s), d = vs_rdint(s), h = vs_rdint(s), mi = vs_rdint(s), sc = vs_rdint(s), f = 0, sf = 1;
  if (*s == '.') { ++s; while (*s >= '0' && *s <= '9') { f = f * 10 + (*s++ - '0'); sf *= 10; } }
  const long F = S::template sec_factor<long>();
  f = sf <= F ? f * (F / sf) : f / (sf / F);
  if (end) *end = const_cast<char *>(s);
  return datetime<S>(year((int)y), month((int)m), day_of_month((int)d), S(((h * 60 + mi) * 60 + sc) * F + f));
}
}
#endif
