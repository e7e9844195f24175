// Filters: extended Kalman filter, parameter layout, models of the time argument.
#include "vs.h"
#include <cmath>
#include <cstring>
#include <utility>
#include <cstdio>
#include "eigen3/Eigen/Eigen"
#include "datetime/dtcalendar.hpp"
#include "filters/ekf.hpp"
#include "filters/filters.hpp"
#include "filters/models.hpp"
using namespace dso;
typedef dso::datetime<dso::nanoseconds> T9;
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;
static T9 at(long ns) { return T9(dso::modified_julian_day(58849), dso::nanoseconds(ns)); }

// one observation: gain, state and covariance for every prior
HARNESS(h_ekf_cov) {
  int n = vs_choice("n", VS_THOROUGH ? 3 : 2) + 1, hs = vs_choice("h", 3);
  static const double HH[3][3] = {{1, 0, 0}, {1, -2, 0.5}, {0.25, 1, 3}};
  static const double SG[3] = {1, 0.5, 3};
  M P(n, n); V x(n), H(n);
  for (int i = 0; i < n; i++) { x(i) = vs_double("x", -100, 100); H(i) = HH[hs][i]; for (int j = 0; j < i; j++) P(i, j) = P(j, i) = vs_double("Pij", -1, 1); P(i, i) = vs_double("Pii", 2, 10); }
  double z = vs_double("z", -100, 100), g = vs_double("g", -100, 100), sg = SG[vs_choice("sigma", 3)];
  ExtendedKalmanFilter<dso::nanoseconds> f(at(5), x, P);
  V PH = V::Zero(n); double s = sg * sg;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) PH(i) = PH(i) + P(i, j) * H(j);
  for (int i = 0; i < n; i++) s += H(i) * PH(i);
  f.observation_update(z, g, sg, H);
  vs_assert(f.time() == at(5), "an observation leaves the epoch");
  for (int i = 0; i < n; i++) {
    vs_close(f.K(i) * s, PH(i), 1e-9, "gain is P H / (s^2 + H'P H)");
    vs_close((f.state()(i) - x(i)) * s, PH(i) * (z - g), 1e-9, "state moves by gain times innovation");
    for (int j = 0; j < n; j++) {
      vs_close((P(i, j) - f.P(i, j)) * s, PH(i) * PH(j), 1e-9, "covariance loses what the observation tells");
      vs_close(f.P(i, j), f.P(j, i), 1e-9, "covariance stays symmetric");
    }
  }
  vs_reach("end");
}
// partials symbolic, prior concrete
HARNESS(h_ekf_h) {
  int n = 2, ps = vs_choice("p", 3);
  static const double PP[3][3] = {{4, 1, 2}, {1, 0, 1}, {9, -2, 0.5}};
  M P(n, n); V x(n), H(n);
  for (int i = 0; i < n; i++) { x(i) = vs_double("x", -10, 10); H(i) = vs_double("H", -3, 3); }
  P << PP[ps][0], PP[ps][1], PP[ps][1], PP[ps][2];
  double z = vs_double("z", -10, 10), g = 1.5, sg = vs_double("sigma", 0.5, 2);
  ExtendedKalmanFilter<dso::nanoseconds> f(at(5), x, P);
  V PH = V::Zero(n); double s = sg * sg;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) PH(i) = PH(i) + P(i, j) * H(j);
  for (int i = 0; i < n; i++) s += H(i) * PH(i);
  f.observation_update(z, g, sg, H);
  for (int i = 0; i < n; i++) {
    vs_close((f.state()(i) - x(i)) * s, PH(i) * (z - g), 1e-9, "state moves by gain times innovation");
    for (int j = 0; j < n; j++) vs_close((P(i, j) - f.P(i, j)) * s, PH(i) * PH(j), 1e-9, "covariance loses what the observation tells");
  }
  vs_reach("end");
}
// several observations in any order: the batch least-squares solution
HARNESS(h_ekf_seq) {
  const int n = 2, m = VS_THOROUGH ? 4 : 3;
  static const double HH[4][2] = {{1, 0}, {1, 2}, {-0.5, 1}, {3, 1}}, SG[4] = {1, 2, 0.5, 1};
  static const int OR[4][4] = {{0, 1, 2, 3}, {2, 1, 0, 3}, {1, 2, 0, 3}, {1, 1, 2, 0}};
  int o = vs_choice("order", 4), pr = vs_choice("prior", 2);
  V x(n), H(n); M P(n, n);
  x(0) = vs_double("x", -100, 100); x(1) = vs_double("x", -100, 100);
  if (pr) P << 4, 1, 1, 2; else P << 100, 0, 0, 0.25;
  double d = P(0, 0) * P(1, 1) - P(0, 1) * P(1, 0), a = P(1, 1) / d, b = -P(0, 1) / d, c = P(0, 0) / d;
  double r0 = a * x(0) + b * x(1), r1 = b * x(0) + c * x(1);
  ExtendedKalmanFilter<dso::nanoseconds> f(at(0), x, P);
  for (int k = 0; k < m; k++) {
    int q = OR[o][k];
    double z = vs_double("z", -100, 100);
    H(0) = HH[q][0]; H(1) = HH[q][1];
    f.observation_update(z, H(0) * f.x(0) + H(1) * f.x(1), SG[q], H);
    double w = 1 / (SG[q] * SG[q]);
    a += w * H(0) * H(0); b += w * H(0) * H(1); c += w * H(1) * H(1); r0 += w * H(0) * z; r1 += w * H(1) * z;
  }
  vs_close(a * f.x(0) + b * f.x(1), r0, 1e-9, "estimate is the least-squares one of prior and observations, in any order");
  vs_close(b * f.x(0) + c * f.x(1), r1, 1e-9, "estimate is the least-squares one of prior and observations, in any order");
  vs_close(a * f.P(0, 0) + b * f.P(1, 0), 1, 1e-9, "covariance is the inverse of the information");
  vs_close(a * f.P(0, 1) + b * f.P(1, 1), 0, 1e-9, "covariance is the inverse of the information");
  vs_close(b * f.P(0, 1) + c * f.P(1, 1), 1, 1e-9, "covariance is the inverse of the information");
  vs_reach("end");
}
HARNESS(h_ekf_time) {
  int n = vs_choice("n", VS_THOROUGH ? 3 : 2) + 1, noise = vs_choice("noise", 2), mode = vs_choice("mode", 2);
  M P(n, n), F(n, n), Q(n, n); V x(n), y(n);
  for (int i = 0; i < n; i++) {
    x(i) = vs_double("x", -100, 100); y(i) = vs_double("y", -100, 100);
    for (int j = 0; j < n; j++) { F(i, j) = vs_double("phi", -2, 2); Q(i, j) = vs_double("q", -1, 1); P(i, j) = mode ? vs_double("P", -3, 3) : (i == j) * (i + 1.5); }
  }
  ExtendedKalmanFilter<dso::nanoseconds> f(at(0), x, P);
  if (noise) f.time_update(at(77), y, F, Q); else f.time_update(at(77), y, F);
  vs_assert(f.time() == at(77), "epoch of the prediction");
  for (int i = 0; i < n; i++) {
    vs_same(f.state()(i), y(i), "state of the prediction");
    for (int j = 0; j < n; j++) {
      double w = noise ? Q(i, j) : 0;
      for (int k = 0; k < n; k++) for (int l = 0; l < n; l++) w += F(i, k) * P(k, l) * F(j, l);
      vs_close(f.P(i, j), w, 1e-9, "covariance is carried over by the transition matrix plus process noise");
    }
  }
  ExtendedKalmanFilter<dso::nanoseconds> g(n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vs_close(g.P(i, j), i == j, 0, "a new filter has unit covariance");
  for (int i = 0; i < n; i++) vs_close(g.state()(i), 0, 0, "a new filter has zero state");
  vs_reach("end");
}
// layout of the parameters
template <int Np, BeaconClockModel B> static void layout(int ns) {
  constexpr bool lin = B == BeaconClockModel::Linear;
  EkfFilter<Np, B> f(ns, at(0));
  int np = 6 + Np + ns * (lin ? 3 : 2);
  vs_assert((int)f.num_params() == np && f.estimates().rows() == np && f.P().rows() == np && f.P().cols() == np, "number of parameters");
  static int own[32];
  for (int i = 0; i < np; i++) own[i] = -1;
  for (int s = 0; s < ns; s++) {
    int t = f.tropo_index(s), r = f.rfoff_index(s);
    vs_assert(t >= 6 + Np && t < np && r >= 6 + Np && r + (lin ? 1 : 0) < np, "beacon parameters lie after the satellite's and inside the state");
    vs_assert(own[t] < 0 && own[r] < 0 && t != r && (!lin || (own[r + 1] < 0 && t != r + 1)), "every beacon parameter has its own place");
    own[t] = 3 * s; own[r] = 3 * s + 1; if (lin) own[r + 1] = 3 * s + 2;
  }
  if constexpr (Np >= 1) vs_assert(f.drag_coef_index() == 6, "drag coefficient follows the satellite state");
  // a priori values
  double a = vs_double("a", -5, 5), b = vs_double("b", -5, 5), c = vs_double("c", 1, 5), d = vs_double("d", 1, 5), e = vs_double("e", 1, 5), tr = vs_double("t", -5, 5);
  int one = vs_choice("beacon", ns + 1) - 1;
  f.set_tropo_apriori(tr, one);
  f.set_tropo_apriori_sigma(c, one);
  if constexpr (lin) { f.set_rfoff_apriori(a, b, one); f.set_rfoff_apriori_sigma(d, e, one); }
  else { f.set_rfoff_apriori(a, one); f.set_rfoff_apriori_sigma(d, one); }
  double dc = 0, dv = 1;
  if constexpr (Np >= 1) { dc = vs_double("cd", 1, 5); dv = vs_double("cds", 1, 5); f.set_drag_coef_apriori(dc); f.set_drag_coef_apriori_sigma(dv); }
  M x = f.estimates();
  for (int i = 0; i < np; i++) {
    double wx = 0, wp = 1;
    if (own[i] >= 0 && (one < 0 || own[i] / 3 == one)) { int k = own[i] % 3; wx = k == 0 ? tr : k == 1 ? a : b; wp = k == 0 ? c : k == 1 ? d : e; }
    if (Np >= 1 && i == 6) { wx = dc; wp = dv; }
    vs_same(x(i, 0), wx, "a priori values reach exactly the parameters asked for");
    for (int j = 0; j < np; j++) vs_same(f.P()(i, j), i == j ? wp : 0, "a priori variances reach exactly the parameters asked for");
  }
  // estimates
  for (int i = 0; i < np; i++) f._ekf._ekf.x(i) = vs_double("v", -5, 5);
  x = f.estimates();
  double dt = vs_int("dt", -7, 7);
  T9 tq = at(0); tq.add_seconds(dso::nanoseconds((long)dt * 1000000000L));
  const EkfFilter<Np, B> &cf = f;
  for (int s = 0; s < ns; s++) {
    vs_same(cf.tropo_estimate(s), x(f.tropo_index(s), 0), "delay estimate of a beacon");
    f.tropo_estimate(s) = 3; vs_same(cf.tropo_estimate(s), 3, "delay estimate of a beacon is set"); f.tropo_estimate(s) = x(f.tropo_index(s), 0);
    if constexpr (lin) vs_close(cf.rfoff_estimate(s, tq), x(f.rfoff_index(s), 0) + dt * x(f.rfoff_index(s) + 1, 0), 1e-9, "frequency offset estimate is offset plus rate times seconds since the reference");
    else vs_same(cf.rfoff_estimate(s), x(f.rfoff_index(s), 0), "frequency offset estimate");
  }
  if constexpr (lin) vs_close(f.deltat(tq), dt, 1e-9, "seconds since the reference");
  if constexpr (Np >= 1) vs_same(cf.drag_coef(), x(6, 0), "drag coefficient estimate");
}
HARNESS(h_layout) {
  int ns = vs_choice("ns", VS_THOROUGH ? 4 : 3) + 1, k = vs_choice("kind", 4);
  if (k == 0) layout<0, BeaconClockModel::Linear>(ns);
  else if (k == 1) layout<1, BeaconClockModel::Linear>(ns);
  else if (k == 2) layout<0, BeaconClockModel::None>(ns);
  else layout<2, BeaconClockModel::None>(ns);
  vs_reach("end");
}
// observation and time updates through the wrapper
template <BeaconClockModel B> static void wrap() {
  EkfFilter<0, B> f(0, at(0));
  ExtendedKalmanFilter<dso::nanoseconds> g(6);
  V H(6); for (int i = 0; i < 6; i++) { H(i) = i * 0.25 - 1; f._ekf._ekf.x(i) = g.x(i) = vs_double("x", -5, 5); }
  M F = M::Identity(6, 6); F(0, 3) = 2; V y = g.x * 2;
  f.time_update(at(9), y, F); g.time_update(at(9), y, F);
  double z = vs_double("z", -5, 5), q = vs_double("g", -5, 5);
  f.observation_update(z, q, 0.5, H); g.observation_update(z, q, 0.5, H);
  for (int i = 0; i < 6; i++) { vs_close(f.estimates()(i, 0), g.x(i), 1e-9, "updates reach the state"); for (int j = 0; j < 6; j++) vs_close(f.P()(i, j), g.P(i, j), 1e-9, "updates reach the covariance"); }
  vs_assert(f._ekf._ekf.time() == at(9), "updates reach the epoch");
}
HARNESS(h_wrap) {
  if (vs_choice("model", 2)) wrap<BeaconClockModel::Linear>(); else wrap<BeaconClockModel::None>();
  vs_reach("end");
}
// polynomial and linear models
template <class X> static X mk(double v) { if constexpr (std::is_arithmetic_v<X>) return (X)v; else return at((long)v * 1000000000L); }
template <class X> static void poly() {
  int n = vs_choice("order", VS_THOROUGH ? 5 : 4), op = vs_choice("op", 7);
  PolynomialModel<X> p(n);
  static const int XR[3] = {0, -7, 86390}, XQ[3] = {5, 86401, -100000};
  double c[5], xr, xq;
  if constexpr (std::is_arithmetic_v<X>) { xr = vs_double("xref", -9, 9); xq = vs_double("x", -9, 9); }
  else { xr = XR[vs_choice("xref", 3)]; xq = XQ[vs_choice("x", 3)]; }
  p.xref = mk<X>(xr);
  for (int i = 0; i <= n; i++) p.cf[i] = c[i] = vs_double("c", -10, 10);
  auto same = [&](const PolynomialModel<X> &q) {
    vs_assert(q.order() == n, "order");
    double h = 0; for (int i = n; i >= 0; i--) h = h * (xq - xr) + c[i];
    vs_close(q.value_at(mk<X>(xq)), h, 1e-5, "value of the polynomial about its reference");
  };
  same(p);
  vs_close(p.deltax(mk<X>(xq), mk<X>(xr)), xq - xr, 1e-9, "difference of the arguments");
  if (op == 0) { PolynomialModel<X> q(p); for (int i = 0; i <= n; i++) p.cf[i] = 7; same(q); }
  else if (op == 1) { PolynomialModel<X> q(2); q = p; for (int i = 0; i <= n; i++) p.cf[i] = 7; same(q); }
  else if (op == 2) { PolynomialModel<X> q(std::move(p)); same(q); }
  else if (op == 3) { PolynomialModel<X> q(1); q = std::move(p); same(q); }
  else if (op == 4) { PolynomialModel<X> q(3); PolynomialModel<X> r(std::move(p)); p = q; p = r; same(p); same(r); }
  else if (op == 5) { PolynomialModel<X> &q = p; p = q; same(p); }
  else { int m = vs_choice("new", 4); p.resize(m); vs_assert(p.order() == m, "resized order"); n = m; for (int i = 0; i <= n; i++) p.cf[i] = c[i] = vs_double("d", -10, 10); same(p); }
}
HARNESS(h_poly) {
  { if (vs_choice("type", 2)) poly<double>(); else poly<T9>(); }
  vs_assert(vs_heap_live() == 0, "all memory is released");
  vs_reach("end");
}
HARNESS(h_linear) {
  LinearModel<double> l; l.xref = vs_double("r", -10, 10);
  vs_close(l.value_at(3), 0, 0, "a new linear model is zero");
  l.a = vs_double("a", -10, 10); l.b = vs_double("b", -10, 10);
  double x = vs_double("x", -10, 10);
  vs_close(l.value_at(x), l.a + l.b * (x - l.xref), 1e-9, "value of the linear model");
  vs_assert(l.order() == 1, "order");
  vs_reach("end");
}
