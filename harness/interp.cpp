#include "vs.h"
#define main intrp_main
#include "var/intrp.cc"
#undef main
static const int NM = VS_THOROUGH ? 6 : 4;
struct Tab { double x[8], y[8]; int n; };
static void table(Tab &t, int lo) {
  t.n = vs_choice("n", NM - lo + 1) + lo;
  for (int i = 0; i < t.n; i++) {
    t.x[i] = vs_double("x", -1000, 1000);
    t.y[i] = vs_double("y", -1000, 1000);
    if (i) vs_assume(t.x[i] - t.x[i - 1] >= 1e-3);
  }
}
template <class I> static bool ends(const I &p, const Tab &t, double x, double &v) {
  int st = -1;
  v = p.value_at(x, st);
  if (x < t.x[0]) { vs_assert(st == 1, "below the table: status 1"); vs_same(v, t.y[0], "below the table: first value"); return true; }
  if (x >= t.x[t.n - 1] && t.n > 1) { vs_assert(st == 2, "at or after the end: status 2"); vs_same(v, t.y[t.n - 1], "at or after the end: last value"); return true; }
  vs_assert(st == 0, "inside: status 0");
  return false;
}
HARNESS(h_nearest) {
  Tab t; table(t, 2);
  double x = vs_double("q", -1100, 1100), v;
  NearestNeighborInterpolator p(t.x, t.y, t.n);
  if (!ends(p, t, x, v))
    for (int i = 1; i < t.n; i++)
      if (x >= t.x[i - 1] && x < t.x[i]) {
        double a = x - t.x[i - 1], b = t.x[i] - x;
        if (a < b) vs_same(v, t.y[i - 1], "nearest: left");
        if (b < a) vs_same(v, t.y[i], "nearest: right");
      }
  vs_obs_d("v", v);
  vs_reach("end");
}
HARNESS(h_linear) {
  Tab t; table(t, 2);
  double x = vs_double("q", -1100, 1100), v;
  LinearInterpolator p(t.x, t.y, t.n);
  if (!ends(p, t, x, v))
    for (int i = 1; i < t.n; i++)
      if (x >= t.x[i - 1] && x < t.x[i]) {
        double w = (x - t.x[i - 1]) / (t.x[i] - t.x[i - 1]);
        vs_close(v, (1 - w) * t.y[i - 1] + w * t.y[i], 1e-9, "convex combination of the bracketing values");
      }
  vs_obs_d("v", v);
  vs_reach("end");
}
// longer tables of unequal spacing
HARNESS(h_long) {
  const int N = 16;
  double X[N], Y[N];
  for (int i = 0; i < N; i++) { X[i] = i == 0 ? -7.5 : X[i - 1] + 0.25 * (1 + (i * 7) % 5); Y[i] = vs_double("y", -1000, 1000); }
  double x = vs_double("q", -10, 20), v;
  int kind = vs_choice("kind", 3), st = -1;
  NearestNeighborInterpolator p(X, Y, N);
  LinearInterpolator q(X, Y, N);
  QuadraticInterpolator s(X, Y, N);
  v = kind == 0 ? p.value_at(x, st) : kind == 1 ? q.value_at(x, st) : s.value_at(x, st);
  if (x < X[0]) { vs_assert(st == 1, "below the table: status 1"); vs_same(v, Y[0], "below the table: first value"); }
  else if (x >= X[N - 1]) { vs_assert(st == 2, "at or after the end: status 2"); vs_same(v, Y[N - 1], "at or after the end: last value"); }
  else {
    vs_assert(st == 0, "inside: status 0");
    int i = 1;
    while (x >= X[i]) ++i;
    double a = x - X[i - 1], b = X[i] - x;
    if (kind == 0 && a != b) vs_same(v, Y[a < b ? i - 1 : i], "nearest node");
    if (kind == 1) vs_close(v, (b * Y[i - 1] + a * Y[i]) / (X[i] - X[i - 1]), 1e-9, "convex combination of the bracketing values");
    double dl = i >= 2 ? x - X[i - 2] : 1e9, dr = i + 1 < N ? X[i + 1] - x : 1e9;
    if (kind == 2 && dl != dr) {
      int z = dl < dr ? i - 2 : i + 1;
      double d01 = (Y[i] - Y[i - 1]) / (X[i] - X[i - 1]), d12 = (Y[z] - Y[i]) / (X[z] - X[i]);
      vs_close(v, Y[i - 1] + a * (d01 + (x - X[i]) * (d12 - d01) / (X[z] - X[i - 1])), 1e-6, "parabola through the three nearest nodes");
    }
  }
  vs_obs_d("v", v);
  vs_reach("end");
}
// exact on every parabola, passes through the nodes
HARNESS(h_quad_exact) {
  Tab t; table(t, 3);
  double a = vs_double("a", -10, 10), b = vs_double("b", -10, 10), c = vs_double("c", -10, 10);
  for (int i = 0; i < t.n; i++) t.y[i] = (a * t.x[i] + b) * t.x[i] + c;
  double x = vs_double("q", -1000, 1000), v;
  vs_assume(x >= t.x[0] && x < t.x[t.n - 1]);
  QuadraticInterpolator p(t.x, t.y, t.n);
  if (!ends(p, t, x, v)) vs_close(v, (a * x + b) * x + c, 1e-4, "reproduces a parabola");
  vs_obs_d("v", v);
  vs_reach("end");
}
// uses the bracketing nodes and the nearer of the two outer neighbours
HARNESS(h_quad) {
  Tab t; table(t, 3);
  double x = vs_double("q", -1100, 1100), v;
  QuadraticInterpolator p(t.x, t.y, t.n);
  if (!ends(p, t, x, v))
    for (int i = 1; i < t.n; i++)
      if (x >= t.x[i - 1] && x < t.x[i]) {
        bool l = i >= 2, r = i + 1 < t.n;
        for (int k = 0; k < 2; k++) {
          int z = k ? i + 1 : i - 2;
          if (k ? !r : !l) continue;
          if (l && r) { double dl = x - t.x[i - 2], dr = t.x[i + 1] - x; if (k ? !(dr < dl) : !(dl < dr)) continue; }
          double x0 = t.x[i - 1], x1 = t.x[i], x2 = t.x[z];
          double d01 = (t.y[i] - t.y[i - 1]) / (x1 - x0), d12 = (t.y[z] - t.y[i]) / (x2 - x1);
          vs_close(v, t.y[i - 1] + (x - x0) * (d01 + (x - x1) * (d12 - d01) / (x2 - x0)), 1e-4, "parabola through the three nearest nodes");
        }
      }
  vs_obs_d("v", v);
  vs_reach("end");
}
