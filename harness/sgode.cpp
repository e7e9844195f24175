// Variable-order variable-step Adams integrator: both copies (var/ode_solvers and src/integrators).
#include "vs.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <limits>
#include "eigen3/Eigen/Eigen"
#ifdef SRC_COPY
#include "src/integrators/sgode.hpp"
#include "src/integrators/sgode_step.cpp"
#define umach umach_de
#define twou twou_de
#define fouru fouru_de
#include "src/integrators/sgode_de.cpp"
#include "src/integrators/sgode_intrp.cpp"
typedef dso::IntegrationParameters &Par;
static dso::IntegrationParameters IP;
#define NX noexcept
#define PARG &IP
static bool mine(dso::IntegrationParameters &p) { return &p == &IP; }
#else
#include "var/ode_solvers/sgode.hpp"
#include "var/ode_solvers/sgode_step.cpp"
#define umach umach_de
#define twou twou_de
#define fouru fouru_de
#include "var/ode_solvers/sgode_de.cpp"
#include "var/ode_solvers/sgode_intrp.cpp"
typedef void *Par;
static int IP;
#define NX
#define PARG &IP
static bool mine(void *p) { return p == &IP; }
#endif
typedef Eigen::VectorXd V;
static const int MK = 6;
// ---- one component, f(x) = sum c_i (x-x0)^i : exact references
static double c_[MK], x0_, y0_;
static int deg, nc, maxc;
static double lx[40], ly[40];
static double poly(double x) { double u = x - x0_, r = 0; for (int i = deg; i >= 0; i--) r = r * u + c_[i]; return r; }
static double integ(double x) { double u = x - x0_, r = 0; for (int i = deg; i >= 0; i--) r = (r + c_[i] / (i + 1)) * u; return y0_ + r; }
static void frec(double x, const V &y, Eigen::Ref<V> yp, Par p) NX {
  if (nc >= maxc) vs_stop();
  vs_assert(mine(p), "parameters are passed through");
  lx[nc] = x; ly[nc] = y(0); nc++;
  yp(0) = poly(x);
}
// modified divided differences of f at points xs[0] (newest), xs[1], ...: m[i] = prod psi_j * f[xs0..xsi]
static void mdd(const double *xs, int n, double *m) {
  double t[MK + 2];
  for (int i = 0; i < n; i++) t[i] = poly(xs[i]);
  double pr = 1;
  for (int i = 0; i < n; i++) {
    m[i] = t[0] * pr;
    for (int j = 0; j + i + 1 < n; j++) t[j] = (t[j] - t[j + 1]) / (xs[j] - xs[j + i + 1]);
    pr *= xs[0] - xs[i + 1 < n ? i + 1 : i];
  }
}
// g_1..g_n for a step h from xs[0] with past points xs
static void gees(const double *xs, double h, int n, double *g) {
  double c[MK + 3] = {1};
  int d = 0;
  for (int i = 0; i < n; i++) {
    g[i] = 0;
    for (int k = 0; k <= d; k++) g[i] += c[k] / (k + 1);
    if (i + 1 == n) break;
    double a = xs[0] - xs[i], b = h + a; // factor (s h + psi_i)/(h + psi_i)
    double e[MK + 3] = {};
    for (int k = 0; k <= d; k++) { e[k] += c[k] * a / b; e[k + 1] += c[k] * h / b; }
    d++;
    for (int k = 0; k <= d; k++) c[k] = e[k];
  }
}
static const double HIST[3][5] = {{1, 1, 1, 1, 1}, {1, 0.5, 2, 1, 0.25}, {0.5, 1, 0.25, 1, 2}};
// integrator at order K with consistent history at x0_; past points in xs
static void setup(dso::SGOde &S, int K, double *xs) {
  const double *H = HIST[K > 2 && !VS_THOROUGH ? 1 : vs_choice("hist", 3)];
  x0_ = vs_double("x", 1, 10);
  y0_ = vs_double("y", 1, 10);
  for (int i = 0; i <= deg; i++) c_[i] = vs_double("c", -4, 4);
  xs[0] = x0_;
  for (int i = 1; i <= K + 1; i++) xs[i] = xs[i - 1] - H[(i - 1) % 5];
  double m[MK + 2];
  mdd(xs, K + 1, m);
  S.Phi.setZero();
  for (int i = 0; i <= K; i++) S.Phi(0, i) = m[i];
  for (int i = 0; i < 13 * 7; i++) S.Arrays13[i] = 0;
  for (int i = 0; i < K; i++) S.psi(i) = xs[0] - xs[i + 1];
  S.x = x0_; S.yy()(0) = y0_; S.yp()(0) = poly(x0_); S.wt()(0) = 2;
  S.start = 0; S.k = S.kold = K; S.ns = 0; S.hold = 0;
}
// y + integral from xs[1] to xs[0] of the polynomial through f at xs[0..k]: corrector of order k
static double corr(double y, const double *xs, int k) {
  double t[MK + 2], c[MK + 3] = {1}, h = xs[0] - xs[1];
  for (int i = 0; i <= k; i++) t[i] = poly(xs[i]);
  for (int i = 0; i <= k; i++) { // Newton form, basis in u = x - xs[1]
    double q = 0;
    for (int j = i; j >= 0; j--) q = (q + c[j] / (j + 1)) * h;
    y += t[0] * q;
    double a = xs[i] - xs[1];
    for (int j = i + 1; j > 0; j--) c[j] = c[j - 1] - a * c[j];
    c[0] *= -a;
    for (int j = 0; i + j + 1 <= k; j++) t[j] = (t[j] - t[j + 1]) / (xs[j] - xs[j + i + 1]);
  }
  return y;
}
static void good(dso::SGOde &S, const double *xs, int K, double yw) {
  double m[MK + 2];
  if (S.kold == K) vs_close(S.yy()(0), yw + integ(xs[0]) - integ(xs[1]), 1e-7, "accepted step: exact for polynomials up to the order");
  else vs_close(S.yy()(0), corr(yw, xs, S.kold), 1e-7, "accepted step: Adams corrector of the order used");
  vs_close(S.yp()(0), poly(S.x), 1e-7, "accepted step: derivative at the corrected solution");
  mdd(xs, K + 1, m);
  for (int i = 0; i <= S.kold; i++) vs_close(S.Phi(0, i), m[i], 1e-6, "accepted step: divided differences of the new point");
}
// steps from a consistent state; f of degree K is integrated exactly whether or not steps are rejected on the way
static void run(int K, int steps, int rnd) { // rnd: 1 = either way of propagating roundoff
  deg = K; nc = 0; maxc = 3 + 2 * (steps - 1) + VS_THOROUGH;
  dso::SGOde S(frec, 1, 1e-3, 1e-3, PARG);
  double xs[MK + 8];
  setup(S, K, xs);
  if (rnd && vs_choice("roundoff", 2)) rnd = 0;
  S.nornd = !rnd; S.phase1 = 0;
  if (rnd) S.Phi(0, 14) = 0;
  double eps = steps > 1 ? 0.25 : vs_double("eps", 1e-3, 10);
  S.h = (K > 2 && !VS_THOROUGH) || vs_choice("h", 2) ? 1 : -0.5;
  if (S.h < 0) { for (int i = 1; i <= K + 1; i++) xs[i] = 2 * xs[0] - xs[i]; double m[MK + 2]; mdd(xs, K + 1, m); for (int i = 0; i <= K; i++) S.Phi(0, i) = m[i]; for (int i = 0; i < K; i++) S.psi(i) = xs[0] - xs[i + 1]; }
  int KK = K;
  for (int s = 0; s < steps; s++) {
    int crash = 0, n0 = nc;
    double h = S.h, e0 = eps, xa = S.x, yw = S.yy()(0);
    // local error estimate of the first attempt
    double g[MK + 3], del = 0;
    if (s == 0) {
      gees(xs, h, K + 1, g);
      del = c_[K];
      for (int i = 0; i < K; i++) del *= xa + h - xs[i];
    }
    S.step(eps, crash);
    vs_assert(!crash, "no crash for a sensible tolerance");
    vs_same(eps, e0, "tolerance unchanged");
    double used = S.x - xa;
    if (s == 0) {
      double err = std::abs(h * (g[K - 1] - g[K]) * del / 2);
      if (err <= 0.999 * eps) { vs_assert(nc == n0 + 2, "error estimate within tolerance: accepted at once"); vs_close(used, h, 1e-9, "accepted: full step"); }
      else if (err >= 1.001 * eps) { vs_assert(nc > n0 + 2, "error estimate above tolerance: rejected");  vs_close(lx[n0 + 1], xa + h / 2, 1e-9, "rejected: retried from the same point"); }
      else vs_stop();
    }
    int fails = nc - n0 - 2;
    vs_assert(fails >= 0, "a step evaluates the predicted and the corrected solution");
    if (fails <= 3) vs_close(used * (1 << fails), h, 1e-9, "each rejection halves the step");
    if (fails >= 3) vs_assert(S.kold == 1, "order one after three rejections");
    vs_assert(used * h > 0, "advances in the direction of the step");
    vs_le(std::abs(used), std::abs(h), 1e-9, "advances by at most the step");
    for (int i = KK + 6; i > 0; i--) if (i < MK + 8) xs[i] = xs[i - 1];
    xs[0] = S.x;
    vs_assert(S.kold >= 1 && S.kold <= KK, "order never raised within a step");
    good(S, xs, KK, yw);
    vs_assert(S.k >= 1 && S.k <= S.kold + 1 && S.k >= S.kold - 1, "order changes by at most one");
    vs_le(std::abs(S.h), 2 * std::abs(used), 1e-9, "next step at most doubled");
    vs_le(0.5 * std::abs(used), std::abs(S.h), 1e-9, "next step at least halved");
    vs_assert(S.h * h > 0, "direction kept");
    if (s + 1 < steps && (S.k != KK || !(S.h == used || S.h == 2 * used))) return; // later steps: same order, rational step
  }
  vs_obs_d("y", S.yy()(0));
}
HARNESS(h_step1) { run(1, 1, 0);
  vs_reach("end");
}
HARNESS(h_step2) { run(2, 1, 1);
  vs_reach("end");
}
HARNESS(h_step3) { run(3, 1, VS_THOROUGH);
  vs_reach("end");
}
HARNESS(h_steps) { run(1 + vs_choice("order", 2), 2 + VS_THOROUGH, 0);
  vs_reach("end");
}
// interpolation inside the last step: exact for the polynomial the history represents
HARNESS(h_intrp) {
  int K = 1 + vs_choice("order", 4); // order in use for the last step
  deg = K; nc = 0; maxc = 0;
  dso::SGOde S(frec, 1, 1e-3, 1e-3, PARG);
  double xs[MK + 8];
  setup(S, K, xs);
  double xo = vs_double("xout", -1, 1) + x0_;
  V y(1), d(1);
#ifdef SRC_COPY
  S.intrp(xo, y);
#else
  S.intrp(xo, y, S.ypout());
#endif
  vs_close(y(0), integ(xo), 1e-6, "interpolated solution");
  vs_close(S.ypout()(0), poly(xo), 1e-6, "interpolated derivative");
  vs_obs_d("y", y(0));
  vs_reach("end");
}
// ---- driver: y1' = c, y2' = y1 + b (x - x0), solved exactly at any order
static double ca, cb, xlim, xfrom, dir;
static int wild;
static void fsys(double x, const V &y, Eigen::Ref<V> yp, Par p) NX {
  if (nc >= maxc) vs_stop();
  vs_assert(mine(p), "parameters are passed through");
  if (!wild) vs_le(x * dir, xlim * dir, 1e-9, "no evaluation beyond an output point that must not be passed");
  vs_le(xfrom * dir, x * dir, 1e-9, "no evaluation behind the time the call starts from");
  nc++;
  yp(0) = ca; yp(1) = y(0) + cb * (x - x0_);
}
static void expect(double x, double a, double b, double *e) { double u = x - x0_; e[0] = a + ca * u; e[1] = b + a * u + (ca + cb) * u * u / 2; }
HARNESS(h_de) {
  nc = 0; maxc = 40;
  int stop = vs_choice("stop", 2); // 1: must not integrate past the output point
  static const double D[3] = {1, -1, 0.25};
  static const double F[4] = {0.5, 3, -1, 1};
  static const double Q[3][3] = {{1, 0.5, -1}, {-1, 1, 0.5}, {0, 1, 0}};
  const double *q = Q[vs_choice("shape", 3)];
  x0_ = vs_double("t", 1, 5);
  double sc = vs_double("scale", 0.5, 2), b = vs_double("y", -1, 1), d = D[vs_choice("D", 3)], t = x0_, e[2];
  double a = sc * q[0]; ca = sc * q[1]; cb = sc * q[2];
  dso::SGOde S(fsys, 2, 0, 100, PARG);
  wild = !stop; xfrom = t; xlim = t + d; dir = d > 0 ? 1 : -1;
  if (stop) S.iflag = -1;
  V y(2), o(2);
  y(0) = a; y(1) = b;
  vs_assert(S.de(t, xlim, y, o) == 0 && S.flag() == 2, "reaches the output point");
  vs_same(t, x0_ + d, "time is the output point");
  expect(t, a, b, e);
  for (int i = 0; i < 2; i++) vs_close(o(i), e[i], 1e-6, "solution at the output point");
  for (int n = 0; n < 1 + VS_THOROUGH; n++) {
    y = o;
    double g = F[vs_choice("next", 4)] * d;
    xfrom = t; xlim = t + g; dir = g > 0 ? 1 : -1;
    stop = vs_choice("stop", 2); wild = !stop;
    if (stop) S.iflag = -2;
    double tw = t;
    vs_assert(S.de(t, xlim, y, o) == 0 && S.flag() == 2, "continues to the next output point");
    vs_same(t, tw + g, "time is the next output point");
    expect(t, a, b, e);
    for (int i = 0; i < 2; i++) vs_close(o(i), e[i], 1e-6, "solution at the next output point");
  }
  vs_obs_d("y", o(1));
  vs_reach("end");
}
// error weights of each step: relative tolerance times magnitude plus absolute tolerance; output at the end
static dso::SGOde *SP;
static double wre, wae, w0, w1;
static void fwt(double x, const V &y, Eigen::Ref<V> yp, Par p) NX {
  if (nc == 0) {
    double eps = wre > wae ? wre : wae;
    vs_close(SP->wt()(0) * eps, wre * std::abs(w0) + wae, 1e-9, "error weights");
    vs_close(SP->wt()(1) * eps, wre * std::abs(w1) + wae, 1e-9, "error weights");
  }
  nc++;
  yp(0) = yp(1) = 0;
}
HARNESS(h_de_weights) {
  static const double T[4][2] = {{1e-3, 1e-2}, {1e-2, 1e-3}, {1e-3, 0}, {0, 1e-3}};
  int i = vs_choice("tol", 4);
  wre = T[i][0]; wae = T[i][1]; nc = 0;
  dso::SGOde S(fwt, 2, wre, wae, PARG); SP = &S;
  V y(2), o(2);
  y(0) = w0 = vs_double("y", 0.5, 10); y(1) = w1 = -vs_double("y", 0.5, 10);
  double t = 1;
  vs_assert(S.de(t, 2, y, o) == 0 && nc > 1, "constant solution integrated");
  vs_close(o(0), w0, 1e-9, "constant solution"); vs_close(o(1), w1, 1e-9, "constant solution");
  vs_reach("end");
}
// invalid calls: flag 6, nothing touched; impossible tolerance: flag 3, tolerance raised, next call proceeds
HARNESS(h_de_flags) {
  nc = 0; maxc = 20; wild = 1; dir = 1; xfrom = -1e9;
  x0_ = 1; ca = 0.5; cb = 0.25;
  int what = vs_choice("what", 6);
  double a = vs_double("y", 0.5, 2), t = 1, tout = what == 0 ? 1 : 2;
  double re = what == 1 ? -1e-3 : what == 2 ? 0 : what == 5 ? 1e-17 : 1e-2, ae = what == 3 ? vs_double("ae", -1, -1e-9) : what == 2 || what == 5 ? 0 : 1;
  dso::SGOde S(fsys, 2, re, ae, PARG);
  V y(2), o(2);
  y(0) = a; y(1) = 1; o(0) = o(1) = 7;
  if (what == 4) S.iflag = 2; // continuation from a time that is not where the last call ended
  int r = S.de(t, tout, y, o);
  if (what == 5) {
    vs_assert(r != 0 && S.flag() == 3, "tolerance too small: flag 3");
    vs_assert(S.relerr > 1e-17 && S.relerr < 1e-14, "tolerance too small: raised to what the arithmetic allows");
    vs_same(t, 1, "tolerance too small: time unchanged"); vs_close(o(0), a, 1e-12, "tolerance too small: state returned");
  } else {
    vs_assert(r != 0 && S.flag() == 6 && nc == 0, "invalid call: flag 6, nothing evaluated");
    vs_same(t, 1, "invalid call: time unchanged"); vs_same(o(0), 7, "invalid call: output untouched");
  }
  vs_reach("end");
}
