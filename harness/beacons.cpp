// Beacon tables and SINEX coordinates.
#define VS_FSTREAM_DISTINCT
#include "vs.h"
#include <cerrno>
#include <cstring>
#include <cstdio>
#include <vector>
#include <algorithm>
#include <fstream>
#include "eigen3/Eigen/Eigen"
#include "beacon_tbl/beacon_tbl.cpp"
using namespace dso;
typedef dso::datetime<dso::nanoseconds> T9;
static char buf[1 << 12];
static int len;
static void put(const char *s) { while (*s) buf[len++] = *s++; }
static double tok(int w, int p, const char *n, double lo, double hi) { double v = vs_numtok(buf + len, w, p, 'f', n, lo, hi); len += w; return v; }
static const char *DATE[6] = {"2008-02-28 12:00:00", "2008-02-29 00:00:00", "2008-02-29 23:59:59", "2008-03-01 00:00:00", "2016-12-31 00:00:30", "2017-01-01 00:00:00"};
static const long DAY[6] = {54524, 54525, 54525, 54526, 57753, 57754}, SEC[6] = {43200, 0, 86399, 0, 30, 0};
static const char *NAME[4] = {"DIOB", "ADEB", "DIOB", "TLSB"};

HARNESS(h_table) {
  len = 0;
  put("SITE FROM                TO                  HEIGHT\n");
  int n = vs_choice("n", VS_THOROUGH ? 4 : 3) + 1, a[4], b[4], style = vs_choice("style", 3);
  double h[4];
  for (int i = 0; i < n; i++) {
    a[i] = i == 0 || VS_THOROUGH ? vs_choice("from", 5) : (a[0] + i) % 5; b[i] = i ? vs_choice("to", 2) ? a[i] + 1 : 5 : a[i] + 1;
    put(NAME[i]); put(" "); put(DATE[a[i]]); put(style == 1 && i == 0 ? "T" : " "); put(DATE[b[i]]); put("  ");
    h[i] = tok(8, 3, "height", -100, 999);
    if (style < 2 || i < n - 1) put(style == 1 ? "   comment\n" : "\n");
    if (style == 1 ? i == n - 1 : style == 2 && i == 0) put("\n");
  }
  const char *fn = vs_file("tbl.txt", buf, len);
  static const long D[6] = {54523, 54524, 54525, 54526, 57753, 57754};
  T9 t(modified_julian_day(D[vs_choice("day", 6)]), nanoseconds(vs_long("ns", 0, 86400000000000L - 1)));
  errno = style == 1 ? 34 : 0;
  BeaconInformationTable tab(fn);
  auto v = tab.load_to_memmory(t);
  size_t k = 0;
  for (int i = 0; i < n; i++) {
    T9 f(modified_julian_day(DAY[a[i]]), nanoseconds(SEC[a[i]] * 1000000000L)), o(modified_julian_day(DAY[b[i]]), nanoseconds(SEC[b[i]] * 1000000000L));
    if (t < f || t >= o) continue;
    if (k >= v.size()) { ++k; continue; }
    vs_assert(!std::memcmp(v[k]._4charid, NAME[i], 4), "site code of the entry");
    vs_same(v[k]._height, h[i], "height of the entry");
    vs_assert(v[k].from == f && v[k].to == o, "validity interval of the entry");
    ++k;
  }
  vs_assert(k == v.size(), "exactly the entries valid at the epoch, in file order");
  vs_reach("end");
}
HARNESS(h_table_bad) {
  len = 0;
  put("header\n");
  int k = vs_choice("kind", 6), at = vs_choice("line", 2), bad = 0;
  for (int i = 0; i < 2; i++) {
    int p = len;
    put(NAME[i]); put(" 2008-02-28 12:00:00 2017-01-01 00:00:00  12.500\n");
    if (i != at) continue;
    switch (k) {
    case 1: buf[p + 5] = 'x'; break;
    case 2: buf[p + 27] = 'x'; break;
    case 3: std::memcpy(buf + p + 45, "       ", 7); break;
    case 4: std::memcpy(buf + p + 45, "abcdefg", 7); break;
    case 5: len = p + 10 + 12 * vs_choice("cut", 3); put("\n"); break;
    }
  }
  const char *fn = k ? vs_file("tb.txt", buf, len) : "/nonexistent/dir/t.txt";
  BeaconInformationTable tab(fn);
  try { tab.load_to_memmory(T9(modified_julian_day(55000), nanoseconds(5))); } catch (std::exception &) { bad = 1; }
  vs_assert(bad, "a missing file or malformed line is an error");
  vs_reach("end");
}
