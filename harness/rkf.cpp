// Runge-Kutta-Fehlberg 4(5): stages, error control and driver, for arbitrary derivative values.
#include "vs.h"
#include <cmath>
#include <cstdio>
#include <limits>
#include "eigen3/Eigen/Eigen"
#define private public
#include "var/ode_solvers/rkf45.hpp"
#undef private
#include "var/ode_solvers/rkf45_fehl.cpp"
#include "var/ode_solvers/rkf45_rkfs.cpp"
typedef Eigen::VectorXd V;
static const int MC = 24;
static int nc, N, maxc;
static double T[MC], Y[MC][2], K[MC][2];
static double FB;
static int flat = -1; // component with a nearly constant derivative, whose error is far below the tolerance
static bool ramp; // a constant derivative
static double small(int) { double f = vs_double("f0", -10, 10); if (f > FB || f < -FB) vs_stop(); return f; }
static void rhs(double x, const V &y, Eigen::Ref<V> yp, void *p) {
  if (nc >= maxc) vs_stop();
  vs_assert(p == &nc, "parameters are passed through");
  T[nc] = x;
  for (int i = 0; i < N; i++) { Y[nc][i] = y(i); yp(i) = K[nc][i] = ramp ? 0.5 : nc && flat == i ? K[0][i] + (nc == 3 ? 0.001 : 0) : nc == 0 && FB > 0 ? small(i) : vs_double("f", -10, 10); }
  nc++;
}
// Fehlberg's tableau
static const double C[6] = {0, 1 / 4., 3 / 8., 12 / 13., 1, 1 / 2.};
static const double A[6][5] = {{0}, {1 / 4.}, {3 / 32., 9 / 32.}, {1932 / 2197., -7200 / 2197., 7296 / 2197.}, {439 / 216., -8, 3680 / 513., -845 / 4104.},
                               {-8 / 27., 2, -3544 / 2565., 1859 / 4104., -11 / 40.}};
static const double B5[6] = {16 / 135., 0, 6656 / 12825., 28561 / 56430., -9 / 50., 2 / 55.};
static const double E[6] = {1 / 360., 0, -128 / 4275., -2197 / 75240., 1 / 50., 2 / 55.};
// the stages of one step from (t, y), first derivative k0, logged at call o; h by reference when unknown
static void stages(double t, const double *y, const double *k0, double h, int o, double *s, double *er) {
  for (int m = 1; m < 6; m++) {
    vs_close(T[o + m - 1], t + C[m] * h, 1e-9, "stage abscissa");
    for (int i = 0; i < N; i++) {
      double e = y[i] + h * A[m][0] * k0[i];
      for (int j = 1; j < m; j++) e += h * A[m][j] * K[o + j - 1][i];
      vs_close(Y[o + m - 1][i], e, 1e-8, "stage value");
    }
  }
  for (int i = 0; i < N; i++) {
    s[i] = y[i] + h * B5[0] * k0[i]; er[i] = h * E[0] * k0[i];
    for (int j = 1; j < 6; j++) { s[i] += h * B5[j] * K[o + j - 1][i]; er[i] += h * E[j] * K[o + j - 1][i]; }
    er[i] = std::abs(er[i]);
  }
}
HARNESS(h_fehl) {
  ramp = false;
  FB = 0; N = 1 + vs_choice("neqn", 2); nc = 0; maxc = 5;
  dso::RKF45 R(rhs, N, 1e-6, 1e-6, &nc);
  double t = vs_double("t", -100, 100), h = vs_double("h", -10, 10), y[2], k0[2], s[2], er[2];
  V a(N), b(N);
  for (int i = 0; i < N; i++) { a(i) = y[i] = vs_double("y", -10, 10); b(i) = R.yp(i) = k0[i] = vs_double("yp", -10, 10); }
  V r = R.fehl(t, h, a, b);
  vs_assert(nc == 5, "five evaluations");
  stages(t, y, k0, h, 0, s, er);
  for (int i = 0; i < N; i++) {
    vs_close(r(i), s[i], 1e-8, "fifth-order combination");
    double e = (-2090 * k0[i] + (21970 * R.F(i, 2) - 15048 * R.F(i, 3))) + (22528 * R.F(i, 1) - 27360 * R.F(i, 4));
    vs_close(std::abs(e * h) / 752400, er[i], 1e-8, "stages kept for the error estimate");
  }
  vs_obs_d("r", r(0));
  vs_reach("end");
}
static const double RE = 1e-3, AE = 1e-4;
// one call of solve from (t0, y) to t0 + D; the calls of the derivative are judged as they come
static double mt, mD, my[2], mk[2], mh, ms[2];
static int macc;
static void watch(double x, const V &y) {
  if (nc == 0) { vs_same(x, mt, "first evaluation at the start"); for (int i = 0; i < N; i++) vs_same(y(i), my[i], "first evaluation at the start"); }
  if (nc == 6) {
    double er[2];
    mh = mD;
    for (int i = 0; i < N; i++) mk[i] = K[0][i];
    stages(mt, my, mk, mh, 1, ms, er);
    bool acc = true, rej = false;
    for (int i = 0; i < N; i++) {
      double tol = RE * (std::abs(my[i]) + std::abs(ms[i])) / 2 + AE;
      if (er[i] > 0.9999 * tol) acc = false;
      if (er[i] > 1.0001 * tol) rej = true;
    }
    if (!acc && !rej) vs_stop();
    if (rej) {
      double h = 4 * (x - mt);
      vs_le(h * (mD > 0 ? 1 : -1), 0.95 * std::abs(mh), 1e-9, "rejected step: retried with a smaller one");
      vs_le(0.0999 * std::abs(mh), h * (mD > 0 ? 1 : -1), 1e-9, "rejected step: reduced at most tenfold");
      vs_stop();
    }
    macc = 1;
    vs_close(x, mt + mh, 1e-9, "accepted step: evaluation at its end");
    for (int i = 0; i < N; i++) vs_close(y(i), ms[i], 1e-8, "accepted step: solution advanced");
  }
  vs_assert(nc < 7, "the accepted step reached the output point");
}
static void rhsw(double x, const V &y, Eigen::Ref<V> yp, void *p) { watch(x, y); rhs(x, y, yp, p); }
static double dist() { static const double D[4] = {2, -0.25, 0.5, -2}; return D[vs_choice("D", N == 1 || VS_THOROUGH ? 4 : 2)]; }
static void drive() {
  nc = macc = 0; maxc = 8;
  dso::RKF45 R(rhsw, N, RE, AE, &nc);
  double t = mt = vs_double("t", -100, 100), tout;
  mD = dist(); tout = t + mD;
  V v(N);
  for (int i = 0; i < N; i++) v(i) = my[i] = N == 1 ? vs_double("y", -50, 50) : i ? vs_double("y", 300, 400) : -vs_double("y", 200, 300);
  // first derivatives small enough for the first step to span the interval
  FB = 1e30;
  for (int i = 0; i < N; i++) { double b = (RE * std::abs(my[i]) + AE) / std::pow(std::abs(mD), 5); if (b < FB) FB = b; }
  R.solve(t, tout, v);
  vs_assert(macc && R.flag() == 2, "completed");
  vs_same(t, tout, "completed: time is the output time");
  for (int i = 0; i < N; i++) vs_close(v(i), ms[i], 1e-8, "completed: solution is the accepted one");
  vs_obs_d("y", v(0));
}
HARNESS(h_drive) { N = 1; flat = -1; drive();
  vs_reach("end");
}
HARNESS(h_drive2) { N = 2; flat = vs_choice("flat", 2); drive();
  vs_reach("end");
}
// y' = c: exact whatever the step sizes; steps stay inside the interval and grow at most fivefold
static double cc, last, lasth, tend;
static void rhsc(double x, const V &, Eigen::Ref<V> yp, void *) {
  if (nc > 3 + 12 * (1 + VS_THOROUGH)) vs_stop();
  if (nc && nc % 6 == 1) { // first stage of a step
    double h = 4 * (x - last) * (tend > mt ? 1 : -1);
    if (nc > 1) vs_le(h, 5.0001 * lasth, 1e-9, "next step at most five times longer");
    vs_le(h, (tend - last) * (tend > mt ? 1 : -1), 1e-9, "never steps past the output point");
    if (nc == 1) vs_le(std::abs(cc) * h * h * h * h * h, (RE * std::abs(my[0]) + AE) * 1.0001, 1e-9, "first step no longer than the tolerance suggests");
    lasth = h;
  }
  if (nc % 6 == 0) last = x;
  nc++;
  yp(0) = cc;
}
HARNESS(h_const) {
  ramp = false;
  nc = 0; N = 1;
  dso::RKF45 R(rhsc, 1, RE, AE);
  double t = mt = vs_double("t", -100, 100), D = dist();
  tend = t + D;
  cc = vs_double("c", 0.01, 10) * (1 - 2 * vs_choice("sign", 2));
  V v(1);
  v(0) = my[0] = vs_double("y", 0.1, 50);
  R.solve(t, tend, v);
  vs_assert(R.flag() == 2, "completed");
  vs_same(t, tend, "completed: time is the output time");
  vs_close(v(0), my[0] + cc * D, 1e-8, "constant derivative: exact");
  vs_reach("end");
}
HARNESS(h_rkf_flags) {
  ramp = false;
  FB = 0; N = 1; nc = 0; maxc = 7;
  double re = vs_choice("re", 2) ? vs_double("relerr", -1, 1e-13) : 1e-3, ae = vs_choice("ae", 2) ? -1e-4 : 1e-4;
  double t = 1, tout = vs_choice("same", 2) ? 1 : 1.5;
  ramp = re == 1e-3 && ae > 0 && tout > 1;
  double y0 = ramp ? -0.75 : vs_double("y", -1, 1);
  dso::RKF45 R(rhs, N, re, ae, &nc);
  V v(1);
  v(0) = y0;
  R.solve(t, tout, v);
  if (re < 0 || ae < 0 || tout == 1) {
    vs_assert(R.flag() == 8 && nc == 0, "invalid input: flag 8, nothing evaluated");
    vs_same(v(0), y0, "invalid input: state unchanged"); vs_same(t, 1, "invalid input: time unchanged");
  } else if (re < 1e-12) {
    vs_assert(R.flag() == 3 && nc == 0, "tolerance too small: flag 3, nothing evaluated");
    vs_same(v(0), y0, "tolerance too small: state unchanged"); vs_same(t, 1, "tolerance too small: time unchanged");
    R.solve(t, tout, v);
    vs_assert(nc > 0, "tolerance too small: a second call proceeds");
  } else vs_assert(R.flag() == 2 && t == tout, "valid input");
  vs_reach("end");
}
