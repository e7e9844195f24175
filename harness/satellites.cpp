// Satellite mass / centre of gravity history and attitude quaternions.
#define VS_FSTREAM_DISTINCT
#include "vs.h"
#include <cerrno>
#include <cstring>
#include <cassert>
#include <cstdio>
#include <fstream>
#include <charconv>
#include "eigen3/Eigen/Eigen"
#include "datetime/dtcalendar.hpp"
#include "satellites/jason3.hpp"
#include "satellites/cryosat2.hpp"
#include "satellites/satellite_corrections.cpp"
#include "satellites/jason3_quaternions.cpp"
using namespace dso;
static char buf[1 << 12];
static int len;
static void put(const char *s) { while (*s) buf[len++] = *s++; }
static double tok(int w, int p, const char *n, double lo, double hi) { double v = vs_numtok(buf + len, w, p, 'f', n, lo, hi); len += w; return v; }
static void num(long v) { char b[24]; int k = 0; do b[k++] = (char)('0' + v % 10); while (v /= 10); while (k) buf[len++] = b[--k]; }
static const char *SP[3] = {" ", "  ", "    "};

HARNESS(h_mass) {
  len = 0;
  const long M0 = 59000;
  int n = vs_choice("n", VS_THOROUGH ? 4 : 3) + 1, st = vs_choice("style", VS_THOROUGH ? 18 : 4), lead = st & 1, sp = st / 2 % 3, comm = VS_THOROUGH ? st / 6 : (st + 1) % 3;
  if (comm) put("C  MASS AND CENTER OF GRAVITY HISTORY -1 2 3\n");
  double v[4][4], sec[4]; long day[4];
  for (int i = 0; i < n; i++) {
    day[i] = (i ? day[i - 1] : 0) + (i ? vs_choice("day", 2) : 0);
    if (lead) put(i & 1 ? " " : "   ");
    num(2400000 + M0 + day[i]); put(".5"); put(SP[sp]);
    sec[i] = tok(9, 3, "sec", 0, 86399.999);
    if (i) vs_assume(day[i] > day[i - 1] || sec[i] > sec[i - 1] + 0.01);
    for (int k = 0; k < 4; k++) { put(SP[sp]); v[i][k] = tok(9, 4, "v", -99, 99); }
    if (i < n - 1 || comm < 2) put(comm && i == 0 ? " \n//\nC\n" : "\n");
  }
  long td = vs_choice("tday", 3) - 0, ts = vs_choice("tsec", 3) * 43199L;
  double best[4] = {0, 0, 0, 0};
  for (int i = 0; i < n; i++) {
    double d = (td - day[i]) * 86400. + (ts - sec[i]);
    vs_assume(d > 0.01 || d < -0.01);
    if (d > 0) for (int k = 0; k < 4; k++) best[k] = v[i][k];
  }
  datetime<nanoseconds> t(modified_julian_day(M0 + td), nanoseconds(ts * 1000000000L));
  const char *fn = vs_file("mass.txt", buf, len);
  double m = -1;
  Eigen::Matrix<double, 3, 1> cog;
  if (vs_choice("sat", 2)) {
    vs_assert((SatelliteInfo<SATELLITE::Jason3>::mass_cog(t, fn, m, cog) == 0), "history is read");
    vs_close(m, 509.6 + best[0], 1e-9, "mass is the initial one plus the correction in force at the epoch");
    vs_close(cog(0), 1.0023 + best[1], 1e-9, "centre of gravity is the initial one plus the correction in force");
    vs_close(cog(1), best[2], 1e-9, "centre of gravity is the initial one plus the correction in force");
    vs_close(cog(2), -0.0021 + best[3], 1e-9, "centre of gravity is the initial one plus the correction in force");
  } else {
    vs_assert((SatelliteInfo<SATELLITE::Cryosat2>::mass_cog(t, fn, m, cog) == 0), "history is read");
    vs_close(m, 724.6 + best[0], 1e-9, "mass is the initial one plus the correction in force at the epoch");
    vs_close(cog(0), 1.6312 + best[1], 1e-9, "centre of gravity is the initial one plus the correction in force");
    vs_close(cog(1), 0.0112 + best[2], 1e-9, "centre of gravity is the initial one plus the correction in force");
    vs_close(cog(2), 0.0137 + best[3], 1e-9, "centre of gravity is the initial one plus the correction in force");
  }
  vs_reach("end");
}
// epochs that coincide with a record: it is not before them
HARNESS(h_mass_at) {
  len = 0;
  const long S[3] = {0, 43199, 86399};
  int a = vs_choice("record", 3), at = vs_choice("epoch", 3), day = vs_choice("day", 2), mid = vs_choice("earlier", 2);
  double u[4], v[4];
  if (mid) { put("2458990.5 "); num(S[2 - a]); put(".000"); for (double &x : u) { put(" "); x = tok(9, 4, "u", -99, 99); } put("\n"); }
  put("2459000.5 "); num(S[a]); put(".000");
  for (double &x : v) { put(" "); x = tok(9, 4, "v", -99, 99); }
  put("\n2459005.5 "); num(S[at]); put(".000 1.0 2.0 3.0 4.0\n");
  datetime<nanoseconds> t(modified_julian_day(59000 + day * 5), nanoseconds(S[at] * 1000000000L));
  double d[4] = {7, 7, 7, 7};
  vs_assert(get_satellite_corrections(vs_file("ma.txt", buf, len), t, d) == 0, "history is read");
  bool in = day || S[at] > S[a];
  for (int i = 0; i < 4; i++) vs_close(d[i], in ? v[i] : mid ? u[i] : 0, 1e-9, "a record counts for the epochs after it only");
  vs_reach("end");
}
HARNESS(h_mass_bad) {
  len = 0;
  datetime<nanoseconds> t(modified_julian_day(59010), nanoseconds(1));
  double d[4] = {7, 7, 7, 7};
  int k = vs_choice("kind", 5);
  const char *fn = "/nonexistent/dir/m.txt";
  put("2459000.5 10.0 1.0 2.0 3.0 4.0\n");
  switch (k) {
  case 1: put("2459001.5 10.0 1.0 x 3.0 4.0\n"); break;
  case 2: put("2459001.5 10.0 1.0 2.0\n"); break;
  case 3: put("24590y 10.0 1.0 2.0 3.0 4.0\n"); break;
  case 4: put("2459001.5\n"); break;
  }
  if (k) { put("2459002.5 10.0 1.0 2.0 3.0 4.0\n"); fn = vs_file("mb.txt", buf, len); }
  vs_assert(get_satellite_corrections(fn, t, d) != 0, "a missing file or malformed record is an error");
  vs_reach("end");
}
HARNESS(h_macro) {
  typedef MacroModel<SATELLITE::Jason3> M;
  int p = vs_choice("plate", M::NumPlates);
  const auto &c = M::mmcomponents[p];
  vs_assert(sizeof(M::mmcomponents) / sizeof(M::mmcomponents[0]) == (size_t)M::NumPlates, "number of plates");
  vs_assert(c.m_surf > 0, "area");
  vs_close(c.m_normal[0] * c.m_normal[0] + c.m_normal[1] * c.m_normal[1] + c.m_normal[2] * c.m_normal[2], 1, 1e-12, "unit normals");
  double s = 0, r = 0;
  for (int i = 0; i < 3; i++) { s += c.m_optical_properties[i]; r += c.m_infrared_properties[i]; }
  vs_le(s, 1.0015, 0, "optical fractions add up to one"); vs_le(0.9985, s, 0, "optical fractions add up to one");
  vs_le(r, 1.003, 0, "infrared fractions add up to one"); vs_le(0.997, r, 0, "infrared fractions add up to one");
  vs_reach("end");
}

// attitude: body quaternions at any epoch, the file read forward
static const int STEP[3][8] = {{0, 1, 2, 3, 4, 5, 6, 7}, {0, 30, 31, 32, 62, 63, 70, 71}, {0, 2, 14, 16, 17, 30, 31, 32}};
static int qstart[8];
static void two(int v) { buf[len++] = (char)('0' + v / 10); buf[len++] = (char)('0' + v % 10); }
static void qline(int i, int sec, double *q, int sy) {
  qstart[i] = len;
  put("2020/01/31 "); // 23:59:00 + sec, over the end of the month
  if (sec >= 60) { len -= 11; put("2020/02/01 00:00:"); two(sec - 60); } else { put("23:59:"); two(sec); }
  put(".500\t"); put("0123456789\t");
  for (int k = 0; k < 4; k++) {
    if (k) put("1234\t0123456789\t");
    int neg = k && ((i >> (k - 1)) & 1);
    if (!sy) { static const char *Q[8] = {"0.8500000", "0.0500000", "0.1100000", "0.1500000", "0.0000000", "-0.0500000", "-0.1700000", "-0.0100000"};
      static const double V[8] = {0.85, 0.05, 0.11, 0.15, 0, -0.05, -0.17, -0.01};
      int c = k ? neg * 4 + 1 + (i + k) % 3 : i % 3 ? 0 : 3; put(Q[c]); q[k] = V[c]; }
    else q[k] = neg ? tok(10, 7, "q", -0.9, -0.01) : tok(9, 7, "q", 0, 0.9);
    put("\t");
  }
  put("1234\n");
}
HARNESS(h_quat) {
  len = 0;
  int pat = vs_choice("pattern", 3), n = 6 + (pat == 1 ? 1 : 0) + VS_THOROUGH, comm = pat == 2;
  double q[8][4], t[8];
  for (int i = 0; i < n; i++) {
    if (comm && (i == 0 || i == 2 || i == 5)) put("# comment\n#\n");
    qline(i, STEP[pat][i], q[i], 0);
    modified_julian_day u, a;
    double f = utc_strptime_ymd_hms(buf + qstart[i], u);
    t[i] = utc2tai(u, f, a); t[i] += (double)a.as_underlying_type();
  }
  JasonQuaternionHunter h(vs_file("q.txt", buf, len));
  double prev = 0;
  for (int k = 0; k < (VS_THOROUGH ? 3 : 2); k++) {
    double s = vs_double("t", -5, STEP[pat][n - 1] + 5.), at = t[0] + s / 86400;
    for (int i = 0; i < n; i++) vs_assume(s < STEP[pat][i] - 1e-3 || s > STEP[pat][i] + 1e-3);
    Eigen::Quaterniond r(9, 9, 9, 9);
    int rc = h.get_at(at, r), i = -1;
    for (int j = 0; j < n; j++) if (s > STEP[pat][j]) i = j;
    if (i < 0 || i == n - 1) { vs_assert(rc != 0, "epochs outside the file are an error"); if (i > 0) break; continue; }
    if (rc) { vs_assert(k > 0 && s < prev, "every epoch of the file not before the last one asked for is found"); continue; }
    prev = prev > s ? prev : s;
    Eigen::Quaterniond a(q[i][0], q[i][1], q[i][2], q[i][3]), b(q[i + 1][0], q[i + 1][1], q[i + 1][2], q[i + 1][3]);
    double w = (at - t[i]) / (t[i + 1] - t[i]);
    Eigen::Quaterniond e = a.slerp(w, b);
    e.normalize();
    vs_close(r.w(), e.w(), 1e-5, "attitude is interpolated between the two records around the epoch");
    vs_close(r.x(), e.x(), 1e-5, "attitude is interpolated between the two records around the epoch");
    vs_close(r.y(), e.y(), 1e-5, "attitude is interpolated between the two records around the epoch");
    vs_close(r.z(), e.z(), 1e-5, "attitude is interpolated between the two records around the epoch");
  }
  vs_reach("end");
}
// epochs of the records themselves, in file order
HARNESS(h_quat_at) {
  len = 0;
  int pat = vs_choice("pattern", 3), n = 6;
  double q[8][4], t[8];
  for (int i = 0; i < n; i++) {
    qline(i, STEP[pat][i], q[i], 0);
    modified_julian_day u, a;
    double f = utc_strptime_ymd_hms(buf + qstart[i], u);
    t[i] = utc2tai(u, f, a); t[i] += (double)a.as_underlying_type();
  }
  JasonQuaternionHunter h(vs_file("qa.txt", buf, len));
  int i = vs_choice("first", n);
  while (i < n) {
    Eigen::Quaterniond r(9, 9, 9, 9);
    int rc = h.get_at(t[i], r);
    if (i == n - 1) { vs_assert(rc != 0, "an epoch no two records surround is an error"); break; }
    vs_assert(rc == 0, "the epoch of a record is inside the file");
    Eigen::Quaterniond a(q[i][0], q[i][1], q[i][2], q[i][3]), b(q[i + 1][0], q[i + 1][1], q[i + 1][2], q[i + 1][3]);
    Eigen::Quaterniond e = a.slerp(0e0, b);
    e.normalize();
    vs_close(r.w(), e.w(), 1e-6, "attitude at the epoch of a record is the recorded one");
    vs_close(r.x(), e.x(), 1e-6, "attitude at the epoch of a record is the recorded one");
    vs_close(r.y(), e.y(), 1e-6, "attitude at the epoch of a record is the recorded one");
    vs_close(r.z(), e.z(), 1e-6, "attitude at the epoch of a record is the recorded one");
    i += 1 + vs_choice("skip", 2);
  }
  vs_reach("end");
}
// every record as written, one by one or several at once
HARNESS(h_quat_read) {
  len = 0;
  double q[8][4];
  int pat = vs_choice("pattern", 3), n = 3, comm = vs_choice("comments", 2);
  for (int i = 0; i < n; i++) { if (comm && i != 1) put("# comment\n#\n"); qline(i, STEP[pat][i + 2], q[i], 1); }
  const char *fn = vs_file("qr.txt", buf, len);
  JasonBodyQuaternionFile f(fn);
  JasonBodyQuaternion r[3];
  if (vs_choice("one", 2)) for (int i = 0; i < n; i++) vs_assert(f.get_next(r[i]) == 0, "records are read");
  else vs_assert(f.get_next(r, n) == 0, "records are read");
  for (int i = 0; i < n; i++) {
    double ut = STEP[pat][i + 2] + 0.5 + 37;
    vs_close(r[i].tai_mjd, 58879 + (86340 + ut) / 86400, 1e-13, "epoch of the record in TAI");
    vs_same(r[i].quaternion.w(), q[i][0], "scalar part first, then the vector part");
    vs_same(r[i].quaternion.x(), q[i][1], "scalar part first, then the vector part");
    vs_same(r[i].quaternion.y(), q[i][2], "scalar part first, then the vector part");
    vs_same(r[i].quaternion.z(), q[i][3], "scalar part first, then the vector part");
  }
  vs_assert(f.get_next(r[0]) != 0, "end of file");
  vs_reach("end");
}
HARNESS(h_quat_bad) {
  len = 0;
  double q[8][4];
  int k = vs_choice("kind", 6), at = vs_choice("line", 3), m = 6;
  for (int i = 0; i < m; i++) {
    if (k == 5 && i == at) { // a line cut short
      qline(i, i, q[i], 0); len = qstart[i] + 30 + 20 * vs_choice("cut", 4); put("\n"); continue;
    }
    qline(i, i, q[i], 0);
    if (i != at) continue;
    int p = qstart[i];
    auto tab = [&](int n) { int j = p; while (n) if (buf[j++] == '\t') --n; return j; }; // after the n-th tab
    switch (k) {
    case 0: buf[p] = vs_char("c", "xX"); break;              // date
    case 1: buf[p + 35] = vs_char("c", "xX"); break;         // scalar part
    case 2: buf[tab(6) - 1] = ' '; break;         // separator after the first vector component
    case 3: buf[tab(5)] = 'x'; break;
    case 4: buf[tab(8)] = 'x'; break;
    }
  }
  const char *fn = vs_file("qb.txt", buf, len);
  JasonBodyQuaternionFile f(fn);
  JasonBodyQuaternion r[3];
  vs_assert(f.get_next(r, 3) != 0, "a malformed record is an error");
  JasonBodyQuaternionFile g(fn);
  int bad = 0;
  for (int i = 0; i <= at; i++) { vs_assert(!bad, "records before it are read"); bad = g.get_next(r[0]); }
  vs_assert(bad != 0, "a malformed record is an error");
  vs_reach("end");
}
