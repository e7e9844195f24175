// Earth orientation parameters: table, C04 file, interpolation.
#define VS_FSTREAM_DISTINCT
#include "vs.h"
#include <cassert>
#include <cstring>
#include <cstdio>
#include <fstream>
#include <charconv>
#include <utility>
#include "eop.hpp"
#include "iers/parse_c04.cpp"
#include "iers/eop_interpolate.cpp"
using namespace dso;
typedef EopLookUpTable T;
static double *col(T &t, int c, int i) { switch (c) { case 0: return t.mjd(i); case 1: return t.xp(i); case 2: return t.yp(i); case 3: return t.dut(i); case 4: return t.dx(i); case 5: return t.dy(i); case 6: return t.lod(i); default: return t.omega(i); } }
static const double *ccol(const T &t, int c, int i) { switch (c) { case 0: return t.mjd(i); case 1: return t.xp(i); case 2: return t.yp(i); case 3: return t.dut(i); case 4: return t.dx(i); case 5: return t.dy(i); case 6: return t.lod(i); default: return t.omega(i); } }
struct Vals { int n; double v[8][8]; };
static int salt;
static Vals fill(T &t, int n) {
  Vals v; v.n = n; ++salt;
  t.resize(n);
  for (int c = 0; c < 8; c++) for (int i = 0; i < n; i++) *col(t, c, i) = v.v[c][i] = c + 10 * i + 1000 * salt + vs_double("v", 0, 1);
  return v;
}
static void same(const T &t, const Vals &v, const char *l) {
  vs_assert(t.size() == v.n, "number of epochs");
  for (int c = 0; c < 8; c++) for (int i = 0; i < v.n; i++) vs_same(*ccol(t, c, i), v.v[c][i], l);
}
// histories of copies, moves and assignments
HARNESS(h_table) {
  salt = 0;
  long live = vs_heap_live();
  {
    static const int N[4] = {1, 3, 0, 4};
    int na = vs_choice("na", 3), nb = vs_choice("nb", 3), ca = vs_choice("ca", 2), op = vs_choice("op", 6);
    T a(ca ? 5 : N[na]), b(vs_choice("cb", 2) ? 2 : 4);
    Vals va = fill(a, N[na]), vb = fill(b, N[nb] + (nb == 2 ? 2 : 0));
    switch (op) {
    case 0: b = a; same(b, va, "an assigned table has the values of the other"); same(a, va, "the table copied from is unchanged"); va = fill(a, 3); break;
    case 1: { T c(a); same(c, va, "a copied table has the values of the other"); b = c; fill(c, 2); break; }
    case 2: { T c(std::move(a)); same(c, va, "a moved table has the values of the other"); b = c; same(b, va, "copy of a moved table"); va = fill(a, 2); T d(c); b = d; break; }
    case 3: b = std::move(a); same(b, va, "a moved table has the values of the other"); { T c(b); same(c, va, "copy of a moved table"); T d(3); d = b; same(d, va, "copy of a moved table"); } va = fill(a, N[nb]); break;
    case 4: { T &r = a; a = r; same(a, va, "assignment to itself"); a = std::move(r); same(a, va, "assignment to itself"); break; }
    case 5: { T c(std::move(a)); T d(std::move(c)); vb = fill(d, 4); T e(1); e = std::move(d); same(e, vb, "a moved table can be refilled"); a = e; va = vb; break; }
    }
    same(a, va, "values belong to the table they were stored in");
  }
  vs_assert(vs_heap_live() == live, "no memory leaked");
  vs_reach("end");
}

// C04 file
static char buf[1 << 12];
static int len;
static void put(const char *s) { while (*s) buf[len++] = *s++; }
static void num(long v) { char b[24]; int k = 0; do b[k++] = (char)('0' + v % 10); while (v /= 10); while (k) buf[len++] = b[--k]; }
static double tok(int w, int p, const char *n, double lo, double hi) { double v = vs_numtok(buf + len, w, p, 'f', n, lo, hi); len += w; return v; }
static double dval[8][6];
static void line(int i, long mjd, bool sym, bool nl) {
  int y = 2009;
  while (vs_ymd2mjd(y + 1, 1, 1) <= mjd) ++y;
  int m = 1;
  while (m < 12 && vs_ymd2mjd(y, m + 1, 1) <= mjd) ++m;
  int d = (int)(mjd - vs_ymd2mjd(y, m, 1) + 1);
  num(y); put(m < 10 ? "   " : "  "); num(m); put(d < 10 ? "   " : "  "); num(d); put("  "); num(mjd);
  static const char *nm[6] = {"x", "y", "ut", "lod", "dx", "dy"};
  for (int k = 0; k < 6; k++) {
    put(k < 3 ? "  " : " ");
    if (sym) dval[i][k] = tok(10, 6, nm[k], -0.9, 0.9);
    else { static const char *s[6] = {"-0.012700", "0.213000", "0.0326338", "0.0017230", "0.000100", "-0.000200"}; static const double q[6] = {-0.0127, 0.213, 0.0326338, 0.001723, 0.0001, -0.0002}; put(s[k]); dval[i][k] = q[k]; }
  }
  put("   0.030000   0.030000"); if (nl) put("\n");
}
static const char *HEAD = "# EARTH ORIENTATION PARAMETER\n\n  FORMAT(3(I4),I7,2(F11.6))\n  Date      MJD      x          y        UT1-UTC\n     (0h UTC)\n";
HARNESS(h_c04) {
  len = 0;
  const long M = vs_choice("leap", 3) == 0 ? 57751 : vs_choice("leap2", 2) ? 57201 : 58000;
  int nl = 6, first = vs_choice("first", 4), days = 1 + vs_choice("days", 3), cap = vs_choice("capacity", 2);
  put(HEAD);
  bool fnl = vs_choice("newline", 2);
  for (int i = 0; i < nl; i++) line(i, M + i, i < 2 || i > 3, i < nl - 1 || fnl);
  const char *fn = vs_file("c04.txt", buf, len);
  T t(cap ? 2 : 10);
  int st = parse_iers_C04(fn, modified_julian_day(M + first), modified_julian_day(M + first + days), t);
  vs_assert(st == 0, "a file with all the days is read");
  vs_assert(t.size() == days, "one epoch per day of the interval, the last excluded");
  for (int i = 0; i < days; i++) {
    long mjd = M + first + i;
    double tt = mjd + (dat(modified_julian_day(mjd)) + 32.184) / 86400.;
    vs_close(*t.mjd(i) - mjd, tt - mjd, 1e-10, "time tags are terrestrial time");
    for (int k = 0; k < 6; k++) { static const int order[6] = {1, 2, 3, 6, 4, 5}; vs_close(*col(t, order[k], i), dval[first + i][k], 1e-12, "values of the day"); }
  }
  vs_reach("end");
}
HARNESS(h_c04_bad) {
  len = 0;
  const long M = 58000;
  int kind = vs_choice("kind", 11);
  const char *fn = "/nonexistent/dir/c04.txt";
  put(HEAD);
  long from = M + 1, to = M + 4;
  int start[8];
  static const int order[11][6] = {{0, 1, 2, 3, 4, 5}, {0, 1, 2, 2, 3, 4}, {0, 1, 3, 4, 5, 6}, {1, 2, 0, 3, 4, 5}, {0, 1, 2, 2, 4, 5}, {0, 1, 2, 3, 4, 5}, {0, 1, 2, 3, 4, 5}, {0, 1, 2, 3, 4, 5}, {0, 1, 2, 3, 4, 5}, {0, 1, 2, 3, 4, 5}, {1, 2, 2, 2, 2, 2}};
  for (int i = 0; i < 6; i++) { start[i] = len; line(i, M + order[kind][i], false, true); }
  switch (kind) {
  case 3: from = M; break;                    // not in order
  case 5: buf[start[2] + 14] = 'x'; break;    // day unreadable
  case 6: buf[start[2] + 32] = 'x'; break;    // value unreadable
  case 7: len = start[2] + 8; break;          // cut short
  case 8: len = start[3] - 55; break;
  case 9: from = M + 4; to = M + 8; break;    // days after the end of the file
  }
  if (kind == 7 && vs_choice("newline", 2)) buf[len++] = '\n';
  if (kind) fn = vs_file("bad.txt", buf, len);
  T t(vs_choice("capacity", 2) ? 3 : 10);
  vs_assert(parse_iers_C04(fn, modified_julian_day(from), modified_julian_day(to), t) != 0, "a missing, malformed or incomplete file is an error");
  vs_reach("end");
}

// interpolation; the interpolation of a column and the tidal models are stand-ins
static double z[3], oc[4], gr[2], tlast;
int iers2010::rg_zont2(double t, double &dut, double &dlod, double &domega) noexcept { tlast = t; dut = z[0] * t; dlod = z[1] * t; domega = z[2] * t; return 0; }
int iers2010::interp::pmut1_oceans(double t, double &cx, double &cy, double &cdut, double &clod) noexcept { cx = oc[0] * t; cy = oc[1] * t; cdut = oc[2] * t; clod = oc[3] * t; return 0; }
int iers2010::interp::pm_gravi(double t, double &cx, double &cy) noexcept { cx = gr[0] * t; cy = gr[1] * t; return 0; }
static const double *badcol;
static int want;
int iers2010::interp::lagint(const double *x, const double *y, int n, double xint, double &yout, int &index, int order) noexcept {
  vs_assert(order == want, "order of the interpolation");
  if (xint < x[0] || xint > x[n - 1] || y == badcol) return 1;
  int i = 0;
  while (i < n - 2 && xint >= x[i + 1]) ++i;
  vs_assert(index < 0 || index == i, "the index hint belongs to the epoch");
  index = i;
  yout = y[i] + (y[i + 1] - y[i]) * ((xint - x[i]) / (x[i + 1] - x[i]));
  return 0;
}
static double lin(const double *x, const double *y, int n, double t) { int i = 0; while (i < n - 2 && t >= x[i + 1]) ++i; return y[i] + (y[i + 1] - y[i]) * ((t - x[i]) / (x[i + 1] - x[i])); }
HARNESS(h_interp) {
  salt = 0; badcol = nullptr;
  for (double &v : z) v = vs_double("z", -1, 1);
  for (double &v : oc) v = vs_double("oc", -1, 1);
  for (double &v : gr) v = vs_double("gr", -1, 1);
  const int n = 3;
  T t;
  Vals v = fill(t, n);
  for (int i = 0; i < n; i++) *t.mjd(i) = v.v[0][i] = 58000.0008 + i;
  bool reg = vs_choice("regularize", 2);
  if (reg) {
    t.regularize();
    for (int i = 0; i < n; i++) {
      double c = (v.v[0][i] - 51544.5) / 36525;
      v.v[3][i] = v.v[3][i] - z[0] * c; v.v[6][i] = v.v[6][i] - z[1] * c;
      vs_close(*t.dut(i), v.v[3][i], 1e-8, "zonal tides removed from UT1 of every day"); vs_close(*t.lod(i), v.v[6][i], 1e-8, "zonal tides removed from the length of every day");
    }
    for (int c = 0; c < 6; c++) if (c != 3) for (int i = 0; i < n; i++) vs_same(*col(t, c, i), v.v[c][i], "other columns unchanged");
  }
  want = vs_choice("order", 2) ? 5 : 3;
  double m = vs_double("epoch", 57999, 58003);
  vs_assume(m > 58000.0009 || m < 58000.0007); vs_assume(m > 58002.0009 || m < 58002.0007);
  bool in = m > 58000.0008 && m < 58002.0008;
  int bad = vs_choice("bad", 9);
  if (bad) { if (bad > 5 || !in) { if (bad > 6) vs_stop(); } if (bad <= 6) badcol = ccol(t, bad, 0); }
  bool plain = vs_choice("plain", 2);
  EopRecord r;
  int st = want == 5 && vs_choice("default", 2) ? (plain ? t.interpolate_lagrange(m, r) : t.interpolate(m, r)) : plain ? t.interpolate_lagrange(m, r, want) : t.interpolate(m, r, want);
  vs_assert((st == 0) == (in && !badcol), "epochs outside the table and failures are errors");
  if (st) vs_stop();
  double e[8], c = (m - 51544.5) / 36525;
  for (int k = 1; k < 7; k++) e[k] = lin(t.mjd(), ccol(t, k, 0), n, m);
  if (!plain) {
    e[1] += (oc[0] + gr[0]) * c; e[2] += (oc[1] + gr[1]) * c; e[3] += (z[0] + oc[2]) * c; e[6] += (z[1] + oc[3]) * c;
    vs_close(tlast, c, 1e-9, "tides at the epoch");
  }
  vs_close(r.mjd, m, 1e-12, "epoch");
  vs_close(r.xp, e[1], 1e-6, "pole x"); vs_close(r.yp, e[2], 1e-6, "pole y"); vs_close(r.dut, e[3], 1e-6, "UT1-UTC");
  vs_close(r.dx, e[4], 1e-6, "dX"); vs_close(r.dy, e[5], 1e-6, "dY"); vs_close(r.lod, e[6], 1e-6, "length of day");
  vs_reach("end");
}
