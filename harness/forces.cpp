// Drag, solar radiation pressure, shadow functions.
#include "vs.h"
#include <cmath>
#include "astrodynamics.hpp"
#include "astrodynamics/drag.cpp"
#include "astrodynamics/solar_radiation.cpp"
#include "astrodynamics/occultation.cpp"
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 3, 3> M3;
static void vec(V3 &v, const char *n, double lo, double hi) { for (int i = 0; i < 3; i++) v(i) = vs_double(n, lo, hi); }
HARNESS(h_drag) {
  V3 r, v, g;
  vec(r, "r", -1e7, 1e7); vec(v, "v", -9e3, 9e3); vec(g, "g", -1, 1);
  double A = vs_double("A", 1, 20), CD = vs_double("CD", 1, 4), m = vs_double("m", 100, 2000), rho = vs_double("rho", 0.01, 2);
  double W = iers2010::OmegaEarth;
  double w[3] = {v(0) + W * r(1), v(1) - W * r(0), v(2)};
  double n2 = w[0] * w[0] + w[1] * w[1] + w[2] * w[2];
  vs_assume(n2 >= 1);
  double n = std::sqrt(n2), k = -0.5 * CD * A / m;
  M3 dr, dv;
  V3 dC;
  V3 a = dso::drag_accel(r, v, A, CD, m, rho), b = dso::drag_accel(r, v, A, CD, m, rho, g, dr, dv, dC);
  for (int i = 0; i < 3; i++) {
    vs_close(a(i) / 1e6, k * rho * n * w[i] / 1e6, 1e-6, "drag opposes the velocity relative to the atmosphere");
    vs_close(b(i) / 1e6, k * rho * n * w[i] / 1e6, 1e-6, "drag (with partials)");
    vs_close(dC(i) / 1e6, k / CD * rho * n * w[i] / 1e6, 1e-6, "partials w.r.t. the drag coefficient");
    for (int j = 0; j < 3; j++) {
      double e[3];
      for (int l = 0; l < 3; l++) e[l] = k * rho * (n * (i == l) + w[i] * w[l] / n);
      vs_close(dv(i, j) / 1e3, e[j] / 1e3, 1e-6, "partials w.r.t. the velocity");
      // w = v - omega x r: dw/dx = (0,-W,0), dw/dy = (W,0,0)
      double x = j == 0 ? -W * e[1] : j == 1 ? W * e[0] : 0;
      vs_close(dr(i, j) / 1e6, (k * n * w[i] * g(j) + x) / 1e6, 1e-6, "partials w.r.t. the position");
    }
  }
  vs_obs_d("a", a(0));
  vs_reach("end");
}
HARNESS(h_drag_rot) {
  V3 r, v;
  vec(r, "r", -10, 10); vec(v, "v", -9, 9);
  double t = vs_double("t", -3, 3), c = std::cos(t), s = std::sin(t);
  int ax = vs_choice("axis", 3);
  M3 R = M3::Zero();
  int i1 = (ax + 1) % 3, i2 = (ax + 2) % 3;
  R(ax, ax) = 1; R(i1, i1) = c; R(i1, i2) = s; R(i2, i1) = -s; R(i2, i2) = c;
  double x[3], y[3], W = iers2010::OmegaEarth;
  for (int i = 0; i < 3; i++) { x[i] = R(i, 0) * r(0) + R(i, 1) * r(1) + R(i, 2) * r(2); y[i] = R(i, 0) * v(0) + R(i, 1) * v(1) + R(i, 2) * v(2); }
  double w[3] = {y[0] + W * x[1], y[1] - W * x[0], y[2]}, n2 = w[0] * w[0] + w[1] * w[1] + w[2] * w[2];
  vs_assume(n2 >= 1);
  V3 a = dso::drag_accel(r, v, R, 2, 2.5, 4, 3);
  for (int i = 0; i < 3; i++) {
    double e = 0;
    for (int k = 0; k < 3; k++) e += R(k, i) * (-0.5 * 2.5 * 2 / 4 * 3) * std::sqrt(n2) * w[k];
    vs_close(a(i), e, 1e-6, "drag in the rotated frame");
  }
  vs_obs_d("a", a(1));
  vs_reach("end");
}
HARNESS(h_srp) {
  V3 r, s;
  vec(r, "r", -1e7, 1e7); vec(s, "s", -2e11, 2e11);
  double A = vs_double("A", 1, 20), C = vs_double("C", 0.5, 2), m = vs_double("m", 100, 2000);
  double d[3] = {r(0) - s(0), r(1) - s(1), r(2) - s(2)}, d2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2];
  vs_assume(d2 >= 1e20);
  // obligations scaled by D^3/AU^3 (D^5/AU^5 for the gradient)
  const double U = iers2010::AU;
  double D = std::sqrt(d2), w = D / U * (D / U) * (D / U), k = 4.56316e-6 * A / m, e[3] = {d[0] / U, d[1] / U, d[2] / U};
  M3 P;
  V3 dC, a = dso::solar_radiation_acceleration(r, s, A, m, C), b = dso::solar_radiation_acceleration(r, s, A, m, C, P, dC);
  for (int i = 0; i < 3; i++) {
    vs_close(a(i) * w * 1e6, C * k * e[i] * 1e6, 1e-6, "directed away from the Sun, inverse square");
    vs_close(b(i) * w * 1e6, C * k * e[i] * 1e6, 1e-6, "with partials");
    vs_close(dC(i) * w * 1e6, k * e[i] * 1e6, 1e-6, "partials w.r.t. the coefficient");
  }
  vs_obs_d("a", a(0) * 1e6);
  vs_reach("end");
}
// gradient: satellite at distance m*D from the Sun along integer directions of norm m
HARNESS(h_srp_grad) {
  static const double T[8][4] = {{1, 1, 0, 0}, {1, 0, 0, -1}, {5, 3, 4, 0}, {5, 0, -3, 4}, {3, -2, 1, 2}, {7, 2, 3, -6}, {9, -8, 4, -1}, {9, 4, 7, -4}};
  const double *u = T[vs_choice("dir", 8)], m = u[0];
  V3 r, s;
  vec(s, "s", -2e11, 2e11);
  double A = vs_double("A", 1, 20), C = vs_double("C", 0.5, 2), ms = vs_double("m", 100, 2000), D = vs_double("D", 1e10, 2e11), U = iers2010::AU;
  for (int i = 0; i < 3; i++) r(i) = s(i) + D * u[i + 1];
  M3 P;
  V3 dC, b = dso::solar_radiation_acceleration(r, s, A, ms, C, P, dC);
  double w = D * m / U, k = C * 4.56316e-6 * A / ms;
  for (int i = 0; i < 3; i++) {
    vs_close(b(i) * w * w * 1e6, k * u[i + 1] / m * 1e6, 1e-5, "inverse-square law along a ray");
    for (int j = 0; j < 3; j++) vs_close(P(i, j) * U * w * w * w * 1e6, k * ((i == j) - 3 * u[i + 1] * u[j + 1] / (m * m)) * 1e6, 1e-5, "partials w.r.t. the position");
  }
  vs_obs_d("a", b(0) * 1e6);
  vs_reach("end");
}
// satellite position: al along the Sun direction, ac >= 0 across it (integer orthogonal directions of norm m)
static void geo(dso::Vector3 &r, dso::Vector3 &s, double &al, double &ac) {
  static const double D[8][7] = {{1, 1, 0, 0, 0, 1, 0}, {5, 3, 4, 0, -4, 3, 0}, {5, 3, 4, 0, 0, 0, 5}, {5, 0, -3, 4, 5, 0, 0},
                                 {3, -2, 1, 2, 1, -2, 2}, {3, -2, 1, 2, 2, 2, 1}, {7, 2, 3, -6, -3, 6, 2}, {7, -3, -6, -2, 6, -2, -3}};
  const double *u = D[vs_choice("dir", 8)], m = u[0];
  double A = vs_double("along", -2e7, 2e7) / m, C = vs_double("across", 0, 2e7) / m, S = vs_double("sun", 1.3e11, 1.6e11) / m;
  al = A * m; ac = C * m;
  vs_assume(al * al + ac * ac >= 4e13);
  vs_assume(al > 1 || al < -1);
  r = dso::Vector3{{A * u[1] + C * u[4], A * u[2] + C * u[5], A * u[3] + C * u[6]}};
  s = dso::Vector3{{S * u[1], S * u[2], S * u[3]}};
}
static void cyl(int eig) {
  dso::Vector3 r, s;
  double al, ac, Re = iers2010::Re;
  geo(r, s, al, ac);
  double a = eig ? utest::montebruck_shadow(V3(r(0), r(1), r(2)), V3(s(0), s(1), s(2))) : utest::montebruck_shadow(r, s);
  if (al > 0) vs_same(a, 1, "in front of the terminator: lit");
  else if (ac > Re + 1) vs_same(a, 1, "outside the shadow cylinder: lit");
  else if (ac < Re - 1) vs_same(a, 0, "inside the shadow cylinder: dark");
  vs_obs_d("a", a);
}
HARNESS(h_shadow) { cyl(0);
  vs_reach("end");
}
HARNESS(h_shadow_eigen) { cyl(1);
  vs_reach("end");
}
HARNESS(h_shadow_cone) {
  dso::Vector3 r, s;
  double al, ac, Re = iers2010::Re, Rs = iers2010::Rs, AU = iers2010::AU;
  geo(r, s, al, ac);
  double a = utest::vallado_shadow(r, s);
  double sp = (Rs + Re) / AU, su = (Rs - Re) / AU, tp = sp / std::sqrt(1 - sp * sp), tu = su / std::sqrt(1 - su * su);
  double pen = tp * (Re / sp - al), umb = tu * (Re / su + al); // al < 0 behind the Earth
  if (al > 0) vs_same(a, 1, "in front: lit");
  else if (ac > pen + 10) vs_same(a, 1, "outside the penumbra: lit");
  else if (ac < umb - 10) vs_same(a, 0, "inside the umbra: dark");
  else if (ac > umb + 10 && ac < pen - 10) vs_same(a, 0.5, "between the cones: penumbra");
  vs_obs_d("a", a);
  vs_reach("end");
}
// ellipsoidal cylinder: the z axis is scaled by 1 + f of GRS80
HARNESS(h_shadow_ell) {
  dso::Vector3 r, s;
  double Re = iers2010::Re, fac = 1 + dso::ellipsoid_traits<dso::ellipsoid::grs80>::f;
  int z = vs_choice("sun", 2);
  double a = vs_double("along", -2e7, 2e7), b = vs_double("across", 0, 2e7), S = vs_double("S", 1.3e11, 1.6e11), c;
  vs_assume(a > 1 || a < -1);
  if (z) { r = dso::Vector3{{b * 0.6, b * 0.8, a}}; s = dso::Vector3{{0, 0, S}}; c = b; }
  else { r = dso::Vector3{{a * 3, a * 4, b}}; s = dso::Vector3{{S * 3, S * 4, 0}}; c = b * fac; }
  double l = utest::bernese_shadow1(r, s);
  if (a > 0) vs_same(l, 1, "in front: lit");
  else if (c > Re + 1) vs_same(l, 1, "outside: lit");
  else if (c < Re - 1) vs_same(l, 0, "inside: dark");
  vs_obs_d("l", l);
  vs_reach("end");
}
