// Solid harmonics, gravitational acceleration and partials, third-body attraction.
#include "vs.h"
#include <cmath>
#include "egravity.hpp"
#include "gravity/harmonic_coeffs.cpp"
#include "gravity/lagrange_poly.cpp"
#include "gravity/gravity_acceleration.cpp"
#include "gravity/point_mass_acceleration.cpp"
using dso::Mat2D; using dso::MatrixStorageType;
typedef Mat2D<MatrixStorageType::Trapezoid> Trap;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 3, 3> M3;

// sum of c x^a y^b z^g r^-q
struct Poly {
  struct T { double c; int a, b, g, q; } t[256];
  int n = 0;
  void add(double c, int a, int b, int g, int q) {
    for (int i = 0; i < n; i++)
      if (t[i].a == a && t[i].b == b && t[i].g == g && t[i].q == q) { t[i].c += c; return; }
    t[n++] = {c, a, b, g, q};
  }
};
static double binom(int n, int k) { double r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
static double fct(int n) { double r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
// r^-(n+1) P_nm(z/r) cos(m lon) (re) or sin(m lon) (im)
static void harmonic(Poly &p, int n, int m, bool im) {
  for (int k = 0; 2 * k <= n - m; k++) {
    double ck = (k & 1 ? -1 : 1) * fct(2 * n - 2 * k) / (fct(k) * fct(n - k) * fct(n - 2 * k));
    for (int i = 0; i < n; i++) ck /= 2;
    for (int i = 0; i < m; i++) ck *= n - 2 * k - i; // m-th derivative of u^(n-2k)
    for (int j = 0; j <= m; j++) { // (x + iy)^m
      if (bool(j & 1) != im) continue;
      double s = ((j / 2) & 1) ? -1 : 1;
      p.add(ck * s * binom(m, j), m - j, j, n - m - 2 * k, 2 * n + 1 - 2 * k);
    }
  }
}
static void diff(const Poly &p, int w, Poly &d) {
  d.n = 0;
  for (int i = 0; i < p.n; i++) {
    const Poly::T &t = p.t[i];
    int e = w == 0 ? t.a : w == 1 ? t.b : t.g;
    if (e) d.add(t.c * e, t.a - (w == 0), t.b - (w == 1), t.g - (w == 2), t.q);
    if (t.q) d.add(-t.c * t.q, t.a + (w == 0), t.b + (w == 1), t.g + (w == 2), t.q + 2);
  }
}
static double pw(double x, int n) { double r = 1; for (int i = 0; i < n; i++) r *= x; return r; }
static double eval(const Poly &p, double x, double y, double z, double ir) {
  double s = 0;
  for (int i = 0; i < p.n; i++) s += p.t[i].c * pw(x, p.t[i].a) * pw(y, p.t[i].b) * pw(z, p.t[i].g) * pw(ir, p.t[i].q);
  return s;
}
static void pos(double &x, double &y, double &z, double &ir) {
  x = vs_double("x", -3, 3); y = vs_double("y", -3, 3); z = vs_double("z", -3, 3);
  vs_assume(x * x + y * y + z * z >= 1);
  ir = 1 / std::sqrt(x * x + y * y + z * z);
}
static const int LM = VS_THOROUGH ? 7 : 5;
HARNESS(h_solid) {
  int l = vs_choice("l", LM + 1), k = vs_choice("k", LM + 3);
  double x, y, z, ir, R = vs_double("R", 0.5, 2);
  pos(x, y, z, ir);
  Trap V(LM + 1, LM + 1), W(LM + 1, LM + 1);
  V.fill_with(0.25); W.fill_with(0.25);
  int rc = dso::lagrange_polynomials(x, y, z, R, l, k, V, W);
  vs_assert((rc != 0) == (k > l), "order above degree is refused");
  for (int n = 0; n <= LM; n++)
    for (int m = 0; m <= n; m++) {
      if (rc || n > l || m > k) { vs_same(V(n, m), 0.25, "entries outside the request are untouched"); vs_same(W(n, m), 0.25, "entries outside the request are untouched"); continue; }
      Poly a, b;
      harmonic(a, n, m, false);
      harmonic(b, n, m, true);
      vs_close(V(n, m), pw(R, n + 1) * eval(a, x, y, z, ir), 1e-5, "V is the solid harmonic");
      vs_close(W(n, m), pw(R, n + 1) * eval(b, x, y, z, ir), 1e-5, "W is the solid harmonic");
    }
  vs_reach("end");
}
// storage sized exactly for the request
HARNESS(h_solid_tight) {
  int l = vs_choice("l", LM + 1), k = vs_choice("k", LM + 1);
  vs_assume(k <= l);
  Trap V(l + 1, k + 1), W(l + 1, k + 1);
  vs_assert(dso::lagrange_polynomials(0.6, 0.8, 2.4, 1, l, k, V, W) == 0, "accepted");
  Poly a, b;
  harmonic(a, l, k, false); harmonic(b, l, k, true);
  vs_close(V(l, k), eval(a, 0.6, 0.8, 2.4, 1 / 2.6), 1e-9, "last entry");
  vs_close(W(l, k), eval(b, 0.6, 0.8, 2.4, 1 / 2.6), 1e-9, "last entry");
  vs_obs_d("v", V(l, k));
  vs_reach("end");
}
// degrees of real models: every harmonic at a few positions, scaled by its normalisation
HARNESS(h_solid_high) {
  static const int DH = VS_THOROUGH ? 50 : 30;
  static double V0[52][52], W0[52][52];
  int l = DH - vs_choice("l", 2), less = vs_choice("less", 3), k = less == 2 ? 1 : l - 7 * less;
  static const double ps[3][3] = {{0.375, 0.5, 1.5}, {-0.75, 1.0, 0.0}, {-0.125, -0.25, -1}};
  const double *q = ps[vs_choice("p", 3)];
  double x = q[0], y = q[1], z = q[2], r2 = x * x + y * y + z * z, t = vs_double("R", 0.9, 1);
  for (int m = 0; m <= k; m++) {
    if (m == 0) { V0[0][0] = 1 / std::sqrt(r2); W0[0][0] = 0; }
    else {
      V0[m][m] = (2 * m - 1) * (x * V0[m - 1][m - 1] - y * W0[m - 1][m - 1]) / r2;
      W0[m][m] = (2 * m - 1) * (x * W0[m - 1][m - 1] + y * V0[m - 1][m - 1]) / r2;
    }
    for (int n = m + 1; n <= l; n++) {
      double a = (2.0 * n - 1) / (n - m) * z / r2, b = (n + m - 1.0) / (n - m) / r2;
      V0[n][m] = a * V0[n - 1][m] - (n - 2 >= m ? b * V0[n - 2][m] : 0);
      W0[n][m] = a * W0[n - 1][m] - (n - 2 >= m ? b * W0[n - 2][m] : 0);
    }
  }
  Trap V(l + 1, k + 1), W(l + 1, k + 1);
  vs_assert(dso::lagrange_polynomials(x, y, z, t, l, k, V, W) == 0, "accepted");
  for (int n = 0; n <= l; n++) {
    double tn = pw(t, n + 1);
    for (int m = 0; m <= k && m <= n; m++) {
      double f = 1;
      for (int i = n - m + 1; i <= n + m; i++) f /= std::sqrt(double(i));
      vs_close(V(n, m) * f, tn * (V0[n][m] * f), 1e-9, "V of a high degree");
      vs_close(W(n, m) * f, tn * (W0[n][m] * f), 1e-9, "W of a high degree");
    }
  }
  vs_obs_d("v", V(l, k / 2) / V0[l][k / 2]);
  vs_reach("end");
}
#ifdef DEBUG
HARNESS(h_solid_row) {
  int l = vs_choice("l", LM) + 1, k = vs_choice("k", LM + 1);
  vs_assume(k <= l);
  double x, y, z, ir;
  pos(x, y, z, ir);
  Mat2D<MatrixStorageType::RowWise> V(LM + 2, LM + 2), W(LM + 2, LM + 2);
  vs_assert(dso::lagrange_polynomials(x, y, z, 1.5, l, k, V, W) == 0, "accepted");
  for (int n = 0; n <= l; n++)
    for (int m = 0; m <= n && m <= k; m++) {
      Poly a, b;
      harmonic(a, n, m, false);
      harmonic(b, n, m, true);
      vs_close(V(n, m), pw(1.5, n + 1) * eval(a, x, y, z, ir), 1e-5, "V");
      vs_close(W(n, m), pw(1.5, n + 1) * eval(b, x, y, z, ir), 1e-5, "W");
    }
  vs_reach("end");
}
#endif
static const int DM = VS_THOROUGH ? 4 : 3;
// one coefficient at a time, symbolic position
static void potential(Poly &U, int n, int m, bool s) { U.n = 0; harmonic(U, n, m, s); }
HARNESS(h_grav) {
  int deg = vs_choice("deg", DM + 1), ord = vs_choice("ord", DM + 1);
  vs_assume(ord <= deg);
  int n = vs_choice("n", DM + 1), m = vs_choice("m", DM + 1), s = vs_choice("s", 2);
  vs_assume(m <= n && n <= deg && !(s && m == 0));
  double x, y, z, ir, R = 1.25, GM = vs_double("GM", 0.5, 2), c = vs_double("c", -3, 3);
  pos(x, y, z, ir);
  dso::HarmonicCoeffs hc(DM + 1, GM, R);
  for (int i = 0; i <= DM; i++)
    for (int j = 0; j <= i; j++) { hc.C(i, j) = 0; if (j) hc.S(i, j) = 0; }
  if (s) hc.S(n, m) = c; else hc.C(n, m) = c;
  Poly U, g[3], h;
  potential(U, n, m, s);
  double sc = m > ord ? 0 : GM * pw(R, n) * c;
  Trap V(deg + 3, ord + 3), W(deg + 3, ord + 3);
  V3 p(x, y, z);
  M3 P;
  P.setConstant(7);
  V3 a = dso::grav_potential_accel(p, deg, ord, V, W, hc, P);
  Trap V2(deg + 2, ord + 2), W2(deg + 2, ord + 2);
  V3 b = dso::grav_potential_accel(p, deg, ord, V2, W2, hc);
  for (int i = 0; i < 3; i++) {
    diff(U, i, g[i]);
    double e = sc == 0 ? 0 : sc * eval(g[i], x, y, z, ir);
    vs_close(a(i), e, 1e-6, "acceleration is the gradient of the potential");
    vs_close(b(i), e, 1e-6, "acceleration (no partials) is the gradient of the potential");
  }
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      diff(g[i], j, h);
      vs_close(P(i, j), sc == 0 ? 0 : sc * eval(h, x, y, z, ir), 1e-6, "partials are the gravity gradient");
    }
  vs_obs_d("a", a(0));
  vs_reach("end");
}
// all coefficients at once, one position each
HARNESS(h_grav_sum) {
  int deg = DM + 1 + VS_THOROUGH, ord = deg - vs_choice("less", deg + 1);
  static const double ps[3][3] = {{0.6, 0.8, 2.4}, {-1.2, 1.6, 0.0}, {0.3, -0.4, -1.2}};
  const double *q = ps[vs_choice("p", 3)];
  double x = q[0], y = q[1], z = q[2], ir = 1 / std::sqrt(x * x + y * y + z * z);
  dso::HarmonicCoeffs hc(deg, 1.75, 1.5);
  Poly U, d, e;
  double g[3] = {}, h[3][3] = {};
  for (int i = 0; i <= deg; i++)
    for (int j = 0; j <= i; j++)
      for (int s = 0; s < (j ? 2 : 1); s++) {
        double c = vs_double("c", -2, 2);
        if (s) hc.S(i, j) = c; else hc.C(i, j) = c;
        if (j > ord) continue;
        potential(U, i, j, s);
        for (int k = 0; k < 3; k++) {
          diff(U, k, d);
          g[k] += c * 1.75 * pw(1.5, i) * eval(d, x, y, z, ir);
          for (int l = 0; l < 3; l++) { diff(d, l, e); h[k][l] += c * 1.75 * pw(1.5, i) * eval(e, x, y, z, ir); }
        }
      }
  Trap V(deg + 3, ord + 3), W(deg + 3, ord + 3);
  M3 P;
  V3 a = dso::grav_potential_accel(V3(x, y, z), deg, ord, V, W, hc, P);
  V3 b = dso::grav_potential_accel(deg, ord, V, W, hc);
  for (int i = 0; i < 3; i++) {
    vs_close(a(i), g[i], 1e-5, "acceleration of the sum");
    vs_close(b(i), g[i], 1e-5, "acceleration of the sum (no partials)");
    for (int j = 0; j < 3; j++) vs_close(P(i, j), h[i][j], 1e-5, "partials of the sum");
  }
  vs_obs_d("a", a(2));
  vs_reach("end");
}
// value, gradient and second derivatives of a function of position
struct Jet {
  double v, g[3], h[3][3];
};
static Jet jc(double v) { Jet r{}; r.v = v; return r; }
static Jet jx(int i, double v) { Jet r{}; r.v = v; r.g[i] = 1; return r; }
static Jet operator+(const Jet &a, const Jet &b) {
  Jet r;
  r.v = a.v + b.v;
  for (int i = 0; i < 3; i++) { r.g[i] = a.g[i] + b.g[i]; for (int j = 0; j < 3; j++) r.h[i][j] = a.h[i][j] + b.h[i][j]; }
  return r;
}
static Jet operator*(double k, const Jet &a) {
  Jet r;
  r.v = k * a.v;
  for (int i = 0; i < 3; i++) { r.g[i] = k * a.g[i]; for (int j = 0; j < 3; j++) r.h[i][j] = k * a.h[i][j]; }
  return r;
}
static Jet operator*(const Jet &a, const Jet &b) {
  Jet r;
  r.v = a.v * b.v;
  for (int i = 0; i < 3; i++) {
    r.g[i] = a.g[i] * b.v + a.v * b.g[i];
    for (int j = 0; j <= i; j++)
      r.h[i][j] = r.h[j][i] = a.h[i][j] * b.v + a.g[i] * b.g[j] + a.g[j] * b.g[i] + a.v * b.h[i][j];
  }
  return r;
}
static Jet jinv(const Jet &a) { // 1/a
  Jet r;
  double u = 1 / a.v;
  r.v = u;
  for (int i = 0; i < 3; i++) {
    r.g[i] = -a.g[i] * u * u;
    for (int j = 0; j < 3; j++) r.h[i][j] = -a.h[i][j] * u * u + 2 * a.g[i] * a.g[j] * u * u * u;
  }
  return r;
}
// degrees of real models: every coefficient of a fully populated model at a few positions
HARNESS(h_grav_high) {
  static const int DH = VS_THOROUGH ? 24 : 14;
  static Jet V0[26][26], W0[26][26];
  int deg = DH - vs_choice("deg", 2), less = vs_choice("less", 3), ord = less == 2 ? 1 : deg - 5 * less;
  static const double ps[3][4] = {{0.375, 0.5, 1.5, 1.625}, {-0.75, 1.0, 0.0, 1.25}, {-0.125, -0.25, -1, 0}};
  const double *q = ps[vs_choice("p", 3)];
  Jet x = jx(0, q[0]), y = jx(1, q[1]), z = jx(2, q[2]), r2 = x * x + y * y + z * z, i2 = jinv(r2);
  // 1/r: u(1/2) with u = r^-2, derivatives u^-1/2 / 2 and -u^-3/2 / 4
  Jet ir = jc(0);
  double s = std::sqrt(i2.v);
  ir.v = s;
  for (int i = 0; i < 3; i++) {
    ir.g[i] = i2.g[i] / (2 * s);
    for (int j = 0; j < 3; j++) ir.h[i][j] = i2.h[i][j] / (2 * s) - i2.g[i] * i2.g[j] / (4 * s * s * s);
  }
  for (int m = 0; m <= deg; m++) { // Legendre functions order by order, R = 1
    if (m == 0) { V0[0][0] = ir; W0[0][0] = jc(0); }
    else {
      double f = 2 * m - 1;
      V0[m][m] = f * (i2 * (x * V0[m - 1][m - 1] + -1.0 * (y * W0[m - 1][m - 1])));
      W0[m][m] = f * (i2 * (x * W0[m - 1][m - 1] + y * V0[m - 1][m - 1]));
    }
    for (int n = m + 1; n <= deg; n++) {
      double a = (2.0 * n - 1) / (n - m), b = -(n + m - 1.0) / (n - m);
      V0[n][m] = a * (i2 * (z * V0[n - 1][m]));
      W0[n][m] = a * (i2 * (z * W0[n - 1][m]));
      if (n - 2 >= m) { V0[n][m] = V0[n][m] + b * (i2 * V0[n - 2][m]); W0[n][m] = W0[n][m] + b * (i2 * W0[n - 2][m]); }
    }
  }
  dso::HarmonicCoeffs hc(deg, 1.75, 1);
  double g[3] = {}, h[3][3] = {};
  for (int n = 0; n <= deg; n++)
    for (int m = 0; m <= n; m++) {
      double f = 1;
      for (int i = n - m + 1; i <= n + m; i++) f /= std::sqrt(double(i));
      for (int w = 0; w < (m ? 2 : 1); w++) {
        double c = vs_double("c", -2, 2);
        if (w) hc.S(n, m) = c * f; else hc.C(n, m) = c * f;
        if (m > ord) continue;
        const Jet &J = w ? W0[n][m] : V0[n][m];
        for (int i = 0; i < 3; i++) {
          g[i] += c * (1.75 * f * J.g[i]);
          for (int j = 0; j < 3; j++) h[i][j] += c * (1.75 * f * J.h[i][j]);
        }
      }
    }
  Trap V(deg + 3, ord + 3), W(deg + 3, ord + 3), V2(deg + 2, ord + 2), W2(deg + 2, ord + 2);
  M3 P;
  V3 p(q[0], q[1], q[2]);
  V3 a = dso::grav_potential_accel(p, deg, ord, V, W, hc, P);
  V3 b = dso::grav_potential_accel(p, deg, ord, V2, W2, hc);
  for (int i = 0; i < 3; i++) {
    vs_close(a(i), g[i], 1e-6, "acceleration of a large model");
    vs_close(b(i), g[i], 1e-6, "acceleration of a large model (no partials)");
    for (int j = 0; j < 3; j++) vs_close(P(i, j), h[i][j], 1e-5, "partials of a large model");
  }
  vs_obs_d("a", a(2));
  vs_reach("end");
}
HARNESS(h_third) {
  double GM = vs_double("GM", 0.5, 2), s[3], r[3];
  for (int i = 0; i < 3; i++) { r[i] = vs_double("r", -3, 3); s[i] = vs_double("s", -9, 9); }
  double d[3] = {r[0] - s[0], r[1] - s[1], r[2] - s[2]};
  double d2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2], s2 = s[0] * s[0] + s[1] * s[1] + s[2] * s[2];
  vs_assume(d2 >= 0.5 && s2 >= 0.5);
  double dn = std::sqrt(d2), sn = std::sqrt(s2);
  M3 P;
  V3 R(r[0], r[1], r[2]), S(s[0], s[1], s[2]);
  V3 a = dso::point_mass_accel(GM, R, S), b = dso::point_mass_accel(GM, R, S, P);
  dso::Vector3 c = dso::point_mass_accel(dso::Vector3{{r[0], r[1], r[2]}}, dso::Vector3{{s[0], s[1], s[2]}}, GM);
  for (int i = 0; i < 3; i++) {
    double e = -GM * (d[i] / (dn * d2) + s[i] / (sn * s2));
    vs_close(a(i), e, 1e-9, "third-body acceleration");
    vs_close(b(i), e, 1e-9, "third-body acceleration (with partials)");
    vs_close(c(i), e, 1e-9, "third-body acceleration (Vector3)");
    for (int j = 0; j < 3; j++) vs_close(P(i, j), -GM * ((i == j) / (dn * d2) - 3 * d[i] * d[j] / (dn * d2 * d2)), 1e-9, "third-body partials");
  }
  vs_obs_d("a", a(1));
  vs_reach("end");
}
