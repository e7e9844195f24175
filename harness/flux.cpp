// Space weather CSV file and the flux feed of NRLMSISE-00.
#define VS_FSTREAM_DISTINCT
#include "vs.h"
#include <cassert>
#include <cstring>
#include <cstdio>
#include <fstream>
#include <vector>
#include <charconv>
#include "eigen3/Eigen/Eigen"
#include "datetime/dtcalendar.hpp"
#include "var/celestrak.hpp"
#include "var_utils.hpp"
#include "atmosphere/nrlmsise00.hpp"
#include "var/celestrak_swdata.cpp"
#include "atmosphere/nrlmsise00_get_flux_data.cpp"
#include "atmosphere/nrlmsise00_params.cpp"
using namespace dso;
namespace msis = dso::nrlmsise00::detail;
extern "C" void vs_car2ell(const double *, double *l) { l[0] = l[1] = l[2] = 0; }
static char buf[1 << 13];
static int len;
static void put(const char *s) { while (*s) buf[len++] = *s++; }
static void num(long v) { char b[24]; int k = 0; do b[k++] = (char)('0' + v % 10); while (v /= 10); while (k) buf[len++] = b[--k]; }
static double tok(int w, int p, const char *n, double lo, double hi) { double v = vs_numtok(buf + len, w, p, 'f', n, lo, hi); len += w; return v; }
constexpr int ND = 8;
static int nd, gap;             // lines in the file; the line before which a day is missing (0: none)
static double obs[ND], c81[ND], av[ND];
static int ap[ND][8];
static long day0;
static long dayof(int i) { return day0 + i + (gap && i >= gap ? 1 : 0); }
static int rowof(long mjd) { for (int i = 0; i < nd; i++) if (dayof(i) == mjd) return i; return -1; }
static void date(long mjd) {
  int y = 2015;
  while (vs_ymd2mjd(y + 1, 1, 1) <= mjd) ++y;
  int m = 1;
  while (m < 12 && vs_ymd2mjd(y, m + 1, 1) <= mjd) ++m;
  int d = (int)(mjd - vs_ymd2mjd(y, m, 1) + 1);
  num(y); put("-"); put(m < 10 ? "0" : ""); num(m); put("-"); put(d < 10 ? "0" : ""); num(d);
}
// one record; style bit 0: empty CP, C9 and ISN columns, bit 1: no final newline
static void record(int i, int style, bool sym) {
  date(dayof(i));
  put(",2541,"); num(i + 1);
  for (int k = 0; k < 8; k++) { put(","); num(10 * ((i + k) % 8)); }
  put(","); num(130 + i);
  for (int k = 0; k < 8; k++) { ap[i][k] = (i * 37 + k * 11 + (k == 3) * 290) % 401; put(","); num(ap[i][k]); }
  put(",");
  if (sym) av[i] = tok(8, 4, "apavg", 100, 400); else { num(7 + i); av[i] = 7 + i; }
  put(style & 1 ? ",,," : ",0.3,1,12"); put(",");
  if (sym) obs[i] = tok(8, 4, "obs", 100, 400); else { num(70 + i); obs[i] = 70 + i; }
  put(",101.5,OBS,");
  if (sym) c81[i] = tok(8, 4, "c81", 100, 400); else { num(90 + i); c81[i] = 90 + i; }
  put(",102.5,103.5,104.5");
}
static const char *csv(int style, bool sym) {
  len = 0;
  put("DATE,BSRN,ND,KP1,KP2,KP3,KP4,KP5,KP6,KP7,KP8,KP_SUM,AP1,AP2,AP3,AP4,AP5,AP6,AP7,AP8,AP_AVG,CP,C9,ISN,F10.7_OBS,F10.7_ADJ,F10.7_DATA_TYPE,F10.7_OBS_CENTER81,F10.7_OBS_LAST81,F10.7_ADJ_CENTER81,F10.7_ADJ_LAST81\n");
  for (int i = 0; i < nd; i++) { record(i, style, sym); if (i < nd - 1 || !(style & 2)) put("\n"); }
  return vs_file("sw.csv", buf, len);
}
// 3-hour index `back` steps before index k of row r
static double idx(int r, int k, int back) { int s = 8 * r + k - back; return ap[s / 8][s % 8]; }
static void check(const msis::InParamsCore &in, int r, int k) {
  vs_close(in.f107A, c81[r], 1e-9, "81 day average of the flux centred on the day");
  vs_close(in.f107, obs[r - 1], 1e-9, "daily flux of the previous day");
  vs_close(in.ap, av[r], 1e-9, "daily magnetic index");
  vs_close(in.aparr.a[0], av[r], 1e-9, "daily magnetic index");
  for (int i = 0; i < 4; i++) vs_close(in.aparr.a[1 + i], idx(r, k, 3 * i / 3), 1e-12, "three-hourly index now, 3, 6 and 9 hours before");
  double s = 0, t = 0;
  for (int i = 0; i < 8; i++) { s += idx(r, k, 4 + i); t += idx(r, k, 12 + i); }
  vs_close(in.aparr.a[5], s / 8, 1e-12, "average of the eight indices from 12 to 33 hours before");
  vs_close(in.aparr.a[6], t / 8, 1e-12, "average of the eight indices from 36 to 57 hours before");
}
static bool have(long mjd) { for (long d = mjd - 3; d <= mjd; d++) if (rowof(d) < 0) return false; return true; }
// the feed at one epoch: every line and column, every time of day
HARNESS(h_values) {
  gap = 0; nd = 4 + vs_choice("lines", 3);
  day0 = vs_choice("start", 2) ? 58843 : 58905; // over new year and over February 29
  const char *fn = csv(vs_choice("style", 4), true);
  int r = 3 + vs_choice("day", 3);
  if (r >= nd) vs_stop();
  double sec = vs_double("sec", 0, 86400);
  vs_assume(sec < 86399.999);
  int k = vs_choice("interval", 8);
  vs_assume(sec >= k * 10800. + 0.001 && sec < (k + 1) * 10800. - 0.001);
  dso::nrlmsise00::InParams<msis::FluxDataFeedType::ST_CSV_SW> p(fn, modified_julian_day(dayof(r)), sec);
  vs_assert(p.params_.doy == (int)(dayof(r) - vs_ymd2mjd(p.params_.year, 1, 1) + 1), "day of year");
  vs_le(sec - 0.0011, p.params_.sec, 0, "seconds of day to the millisecond"); vs_le(p.params_.sec, sec + 1e-6, 0, "seconds of day to the millisecond");
  check(p.params_, r, k);
  vs_reach("end");
}
// a history of updates
HARNESS(h_history) {
  static const int files[6][3] = {{0, 0, 7}, {0, 2, 6}, {5, 1, 7}, {4, 3, 7}, {6, 2, 7}, {3, 0, 7}}; // missing day, style, lines
  int c = vs_choice("file", VS_THOROUGH ? 6 : 3);
  gap = files[c][0]; nd = files[c][2];
  day0 = c & 1 ? 58843 : 58905;
  const char *fn = csv(files[c][1], false);
  const int hrs[3] = {0, 10, 23};
  typedef dso::nrlmsise00::InParams<msis::FluxDataFeedType::ST_CSV_SW> Feed;
  long d = day0 + 3 + vs_choice("day", 5);
  int h = vs_choice("hour", 2) + 1;
  Feed *p = nullptr;
  bool thrown = false;
  try { p = new Feed(fn, modified_julian_day(d), hrs[h] * 3600.); } catch (std::exception &) { thrown = true; }
  vs_assert(thrown == !have(d), "the feed starts exactly when the day and the three before it are in the file");
  if (thrown) vs_stop();
  check(p->params_, rowof(d), hrs[h] / 3);
  int rd = rowof(d), rk = hrs[h] / 3;
  for (int u = 0; u < (VS_THOROUGH ? 3 : 2); u++) {
    long e = day0 + 2 + vs_choice("day", 7);
    int g = vs_choice("hour", 2);
    int st = p->update_params((int)e, hrs[g] * 3600.);
    vs_assert((st == 0) == have(e), "an update succeeds exactly when the day and the three before it are in the file");
    if (!st) { rd = rowof(e); rk = hrs[g] / 3; }
    check(p->params_, rd, rk);
  }
  delete p;
  vs_reach("end");
}
// malformed files
HARNESS(h_bad) {
  nd = 6; gap = 0; day0 = 58843;
  int kind = vs_choice("kind", 9);
  const char *fn = "/nonexistent/dir/sw.csv";
  csv(0, false);
  int start[7], n = 0; // offsets of the lines
  for (int i = 0; i < len; i++) if (buf[i] == '\n') start[n++] = i + 1;
  int r = 3; // the line of the day asked for, spoilt below
  char *l = buf + start[r];
  auto cut = [&](int commas) { char *c = l; while (commas) if (*c++ == ',') --commas; *c = 0; len = (int)(c - buf); };
  switch (kind) {
  case 1: buf[0] = 'X'; break;
  case 2: l[0] = 'x'; break;
  case 3: cut(3); break;
  case 4: cut(13); break;
  case 5: cut(24); break;
  case 6: len = start[r] + 4; break;
  case 7: len = start[r]; break;
  case 8: len = 200; break;
  }
  if (kind) fn = vs_file("bad.csv", buf, len);
  bool thrown = false;
  try { dso::nrlmsise00::InParams<msis::FluxDataFeedType::ST_CSV_SW> p(fn, modified_julian_day(day0 + r), 100.); } catch (std::exception &) { thrown = true; }
  vs_assert(thrown, "a missing, malformed or truncated file is an error");
  vs_reach("end");
}
