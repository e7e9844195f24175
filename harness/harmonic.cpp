// Storage, lifecycle and de-normalisation of spherical-harmonic coefficients.
#include "vs.h"
#include <utility>
#include <cmath>
#ifdef VAR_COPY
#include "var/icgem/src/harmonic_coeffs.hpp"
#include "var/icgem/src/harmonic_coeffs.cpp"
#else
#include "harmonic_coeffs.hpp"
#include "gravity/harmonic_coeffs.cpp"
#endif
using dso::HarmonicCoeffs;

static const int NMAX = VS_THOROUGH ? 10 : 8;

static void fill(HarmonicCoeffs &h, int n, double c[12][12], double s[12][12], const char *nm) {
  for (int i = 0; i <= n; i++)
    for (int j = 0; j <= i; j++) {
      c[i][j] = vs_double(nm, -10, 10);
      h.C(i, j) = c[i][j];
      if (j) { s[i][j] = vs_double(nm, -10, 10); h.S(i, j) = s[i][j]; }
    }
}
static void same(HarmonicCoeffs &h, int n, double c[12][12], double s[12][12], const char *lab) {
  const HarmonicCoeffs &k = h;
  for (int i = 0; i <= n; i++)
    for (int j = 0; j <= i; j++) {
      vs_same(h.C(i, j), c[i][j], lab);
      vs_same(k.C(i, j), c[i][j], lab);
      vs_same(h.C_row(i)[j], c[i][j], lab);
      vs_same(k.C_row(i)[j], c[i][j], lab);
      if (j) {
        vs_same(h.S(i, j), s[i][j], lab);
        vs_same(k.S(i, j), s[i][j], lab);
        vs_same(h.S_row(i)[j - 1], s[i][j], lab);
        vs_same(k.S_row(i)[j - 1], s[i][j], lab);
      }
    }
}

HARNESS(h_store) {
  int n = vs_choice("deg", NMAX) + 1;
  double c[12][12], s[12][12];
  HarmonicCoeffs h(n, 3.5, 2.5);
  vs_assert(h.degree() == n, "degree");
  vs_same(h.GM(), 3.5, "GM");
  vs_same(h.Re(), 2.5, "Re");
  vs_assert(h.normalized(), "normalized by default");
  fill(h, n, c, s, "k");
  same(h, n, c, s, "every coefficient keeps its own value");
  if (n >= 2) vs_same(h.J2(), -c[2][0], "J2");
  vs_obs_d("x", h.C(n, n));
  vs_reach("end");
}
// degrees of real models
HARNESS(h_store_high) {
  int n = vs_choice("deg", 2) ? 70 : 33;
  double a = vs_double("a", -10, 10);
  HarmonicCoeffs h(n, 3.5, 2.5), g(2, 1, 1);
  for (int i = n; i >= 0; i--)
    for (int j = 0; j <= i; j++) { h.C(i, j) = a + (i * 256 + 2 * j); if (j) h.S(i, j) = a + (i * 256 + 2 * j + 1); }
  const HarmonicCoeffs &k = h;
  for (int i = 0; i <= n; i++)
    for (int j = 0; j <= i; j++) {
      vs_same(k.C(i, j), a + (i * 256 + 2 * j), "every coefficient keeps its own value");
      vs_same(h.C_row(i)[j], a + (i * 256 + 2 * j), "rows");
      if (j) { vs_same(k.S(i, j), a + (i * 256 + 2 * j + 1), "every coefficient keeps its own value"); vs_same(h.S_row(i)[j - 1], a + (i * 256 + 2 * j + 1), "rows"); }
    }
  vs_reach("end");
}
HARNESS(h_denorm) {
  int n = vs_choice("deg", NMAX + 1);
  int m = vs_choice("ord", NMAX + 2) - 1;
  vs_assume(m <= n);
  double c[12][12], s[12][12];
  HarmonicCoeffs h(n, 1, 1);
  fill(h, n, c, s, "k");
  bool wasnorm = vs_choice("norm", 2);
  h.normalized() = wasnorm;
  int r = h.denormalize(m);
  vs_assert(r == 0, "denormalize succeeds");
  vs_assert(!h.normalized(), "flag says unnormalised");
  if (!wasnorm) {
    same(h, n, c, s, "unnormalised coefficients are left alone");
    vs_reach("noop");
    return;
  }
  int mm = m < 0 ? n : m;
  for (int i = 0; i <= n; i++)
    for (int j = 0; j <= i && j <= mm; j++) {
      // squared factor (n-m)!(2n+1)(2-d0m)/(n+m)!
      double f2 = (2 * i + 1) * (j ? 2.0 : 1.0);
      for (int q = i - j + 1; q <= i + j; q++) f2 /= q;
      double f = std::sqrt(f2);
      vs_close(h.C(i, j), c[i][j] * f, 1e-12, "C factor");
      if (j) vs_close(h.S(i, j), s[i][j] * f, 1e-12, "S factor");
      vs_obs_d("c", h.C(i, j));
    }
  // orders above the requested one keep their value
  for (int i = 0; i <= n; i++)
    for (int j = mm + 1; j <= i; j++) { vs_same(h.C(i, j), c[i][j], "higher orders untouched"); if (j) vs_same(h.S(i, j), s[i][j], "higher orders untouched"); }
  // a second call is a no-op
  double c0 = h.C(n, 0);
  vs_assert(h.denormalize() == 0, "second call succeeds");
  vs_same(h.C(n, 0), c0, "second call changes nothing");
  vs_reach("end");
}
HARNESS(h_denorm_bad) {
  int n = vs_choice("deg", NMAX + 1);
  int m = vs_int("ord", n + 1, 1000);
  double c[12][12], s[12][12];
  HarmonicCoeffs h(n, 1, 1);
  fill(h, n, c, s, "k");
  vs_assert(h.denormalize(m) != 0, "order above degree is refused");
  vs_assert(h.normalized(), "still normalised");
  same(h, n, c, s, "coefficients untouched");
  vs_reach("end");
}
// any sequence of resizes and moves: usable at the requested degree, no leak, no double free
HARNESS(h_life) {
  int live = vs_heap_live();
  {
    double c[12][12], s[12][12];
    int a = vs_choice("a", 4) + 1;
    HarmonicCoeffs h(a);
    int deg = a;
    int steps = VS_THOROUGH ? 3 : 2;
    for (int k = 0; k < steps; k++) {
      int op = vs_choice("op", 4);
      if (op == 0) {
        deg = 1 + vs_choice("to", 6) * (k ? 1 : 2);
        h.resize(deg);
        vs_assert(h.degree() == deg, "degree after resize");
        fill(h, deg, c, s, "k");
        same(h, deg, c, s, "usable after resize");
      } else if (op == 1) {
        fill(h, deg, c, s, "k");
        h.GM() = 7; h.Re() = 9; h.normalized() = false;
        HarmonicCoeffs g(std::move(h));
        vs_assert(g.degree() == deg && !g.normalized(), "moved attributes");
        vs_same(g.GM() * 16 + g.Re(), 7 * 16 + 9, "moved attributes");
        same(g, deg, c, s, "move construction carries the coefficients");
        h = std::move(g);
        vs_assert(h.degree() == deg && !h.normalized(), "moved attributes");
        same(h, deg, c, s, "move assignment carries the coefficients");
      } else if (op == 2) {
        int b = vs_choice("b", 3) + 1;
        HarmonicCoeffs g(b, 4, 5);
        fill(g, b, c, s, "k");
        g.normalized() = (b + k) & 1;
        h = std::move(g);
        vs_assert(h.normalized() == ((b + k) & 1), "moved attributes");
        deg = b;
        vs_assert(h.degree() == deg, "degree after move assignment");
        vs_same(h.GM() * 16 + h.Re(), 4 * 16 + 5, "moved attributes");
        same(h, deg, c, s, "move assignment over data");
      } else {
        HarmonicCoeffs e;
        int b = vs_choice("b", 3) + 1;
        e.resize(b);
        vs_assert(e.degree() == b, "degree after first resize");
        fill(e, b, c, s, "k");
        same(e, b, c, s, "usable after first resize");
      }
    }
    vs_reach("end");
  }
  vs_assert(vs_heap_live() == live, "all memory released");
}
// degrees of real models: the factors of sectoral terms span the range of double
HARNESS(h_denorm_high) {
  int n = vs_choice("deg", 2) ? 92 : 40;
  HarmonicCoeffs h(n, 1, 1);
  for (int i = 0; i <= n; i++)
    for (int j = 0; j <= i; j++) { h.C(i, j) = 0; if (j) h.S(i, j) = 0; }
  int rows[3] = {n, n - 5, n / 2};
  double c[3][6], s[3][6];
  for (int q = 0; q < 3; q++) {
    int ords[6] = {rows[q], rows[q] - 1, rows[q] - 2, rows[q] / 2, 1, 0};
    for (int k = 0; k < 6; k++) {
      c[q][k] = vs_double("c", -10, 10); s[q][k] = vs_double("s", -10, 10);
      h.C(rows[q], ords[k]) = c[q][k];
      if (ords[k]) h.S(rows[q], ords[k]) = s[q][k];
    }
  }
  vs_assert(h.denormalize() == 0, "denormalize succeeds");
  for (int q = 0; q < 3; q++) {
    int ords[6] = {rows[q], rows[q] - 1, rows[q] - 2, rows[q] / 2, 1, 0};
    for (int k = 0; k < 6; k++) {
      int i = rows[q], j = ords[k];
      double up = std::sqrt((2 * i + 1) * (j ? 2.0 : 1.0)), dn = 1, dn2 = 1;
      for (int p = i - j + 1; p <= i + j; p++) (p & 1 ? dn : dn2) *= std::sqrt(double(p));
      vs_close(h.C(i, j) / up * dn * dn2, c[q][k], 1e-9, "C factor");
      if (j) vs_close(h.S(i, j) / up * dn * dn2, s[q][k], 1e-9, "S factor");
      vs_obs_d("c", h.C(i, j) * dn * dn2);
    }
  }
  vs_reach("end");
}
