// Orbital elements, perifocal frame, propagation, state partials. Kepler's equation is replaced by its contract.
#include "vs.h"
#define VS_NORM_ID
#include <cmath>
#include <cstdio>
#include "astrodynamics.hpp"
// contract of the solver: given (e, M) return E with E - e sin E = M
static double gE[4], ge;
static int gk;
double dso::kepler(double e, double M, int &status, double) noexcept {
  double E = gE[gk];
  vs_close(e, ge, 1e-9, "eccentricity passed to the solver");
  vs_close(M, E - e * std::sin(E), 1e-7, "mean anomaly passed to the solver");
  status = 0;
  return E;
}
#include "astrodynamics/perifocal.cpp"
#include "astrodynamics/state2kepler.cpp"
#include "astrodynamics/propagate_state.cpp"
#include "astrodynamics/state_partials.cpp"
#include "astrodynamics/pos2ra.cpp"
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;
struct El { double s, g, a, e, i, O, w, E, GM, f; double R[3][3]; };
static void angles(El &o, bool full) {
  // half angles, so that full and half angles share their sines and cosines
  if (full) { o.O = 2 * vs_double("hO", -3, 3); o.w = 2 * vs_double("hw", -3, 3); o.i = 2 * vs_double("hi", 0.05, 1.5); }
  else {
    static const double t[3][3] = {{0.7, 1.9, 1.2}, {-2.1, 4.0, 0.4}, {3.5, -1.0, 2.3}};
    const double *q = t[vs_choice("ang", 3)];
    o.O = q[0]; o.w = q[1]; o.i = q[2];
  }
  double cO = std::cos(o.O), sO = std::sin(o.O), cw = std::cos(o.w), sw = std::sin(o.w), ci = std::cos(o.i), si = std::sin(o.i);
  double R[3][3] = {{cO * cw - sO * sw * ci, -cO * sw - sO * cw * ci, sO * si}, {sO * cw + cO * sw * ci, -sO * sw + cO * cw * ci, -cO * si}, {sw * si, cw * si, ci}};
  for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) o.R[k][l] = R[k][l];
}
static dso::OrbitalElements elements(El &o, bool full, double n_dt) {
  angles(o, full);
  // e = sin(eps), sqrt(1-e^2) = cos(eps)
  double eps = full ? 0 : vs_double("eps", 0.05, 1.2);
  o.e = full ? vs_double("e", 0, 0.9) : std::sin(eps);
  o.E = vs_double("E", -3, 3);
  ge = o.e; gE[0] = o.E; gk = 0;
  // f = sqrt(1 - e^2)
  o.f = full ? std::sqrt((1 - o.e) * (1 + o.e)) : std::cos(eps);
  dso::OrbitalElements q;
  q.semimajor() = o.a; q.eccentricity() = o.e; q.inclination() = o.i; q.Omega() = o.O; q.omega() = o.w;
  q.mean_anomaly() = o.E - o.e * std::sin(o.E) - n_dt;
  return q;
}
static void state(const El &o, double Y[6]) {
  double cE = std::cos(o.E), sE = std::sin(o.E), n = o.g / o.s / (1 - o.e * cE);
  double p[3] = {o.a * (cE - o.e), o.a * o.f * sE, 0}, v[3] = {-n * sE, n * o.f * cE, 0};
  for (int k = 0; k < 3; k++) {
    Y[k] = o.R[k][0] * p[0] + o.R[k][1] * p[1];
    Y[k + 3] = o.R[k][0] * v[0] + o.R[k][1] * v[1];
  }
}
HARNESS(h_el2state) {
  El o;
  o.s = vs_double("s", 1, 2); o.g = vs_double("g", 0.5, 2); o.a = o.s * o.s; o.GM = o.g * o.g;
  double dt = vs_double("dt", -5, 5), nd = o.g / (o.a * o.s) * dt, Y[6];
  dso::OrbitalElements q = elements(o, true, nd);
  state(o, Y);
  int err = 5;
  V6 A = dso::elements2state(o.GM, dt, q, err);
  vs_assert(err == 0, "no error");
  V6 B = dso::propagate_state(o.GM, q, dt);
  dso::Vector3 r, v;
  vs_assert(dso::elements2state(q, dt, r, v, o.GM) == 0, "no error");
  V6 C = dso::perifocal2equatorial(q, dso::elements2perifocal(o.GM, q, dt));
  for (int k = 0; k < 6; k++) {
    vs_close(A(k), Y[k], 1e-6, "elements2state");
    vs_close(B(k), Y[k], 1e-6, "propagate_state");
    vs_close(k < 3 ? r(k) : v(k - 3), Y[k], 1e-6, "elements2state (Vector3)");
    vs_close(C(k), Y[k], 1e-6, "perifocal coordinates rotated to the equator");
  }
  vs_obs_d("x", A(0));
  vs_reach("end");
}
HARNESS(h_perifocal) {
  El o;
  o.s = vs_double("s", 1, 2); o.a = o.s * o.s; o.g = 1; o.GM = 1;
  dso::OrbitalElements q = elements(o, true, 0);
  dso::Mat3x3 T = dso::perifocal2equatorial_matrix(o.O, o.w, o.i);
  for (int k = 0; k < 3; k++)
    for (int l = 0; l < 3; l++) {
      vs_close(T(k, l), o.R[k][l], 1e-9, "rotation matrix");
      double d = 0;
      for (int m = 0; m < 3; m++) d += T(k, m) * T(l, m);
      vs_close(d, k == l, 1e-9, "orthogonal");
    }
  V6 P, D;
  for (int k = 0; k < 6; k++) P(k) = vs_double("p", -9, 9);
  V6 E = dso::perifocal2equatorial(q, P), B = dso::equatorial2perifocal(q, E);
  V6 F = dso::equatorial2perifocal(q, P), G = dso::perifocal2equatorial(q, F);
  for (int k = 0; k < 6; k++) {
    vs_close(B(k), P(k), 1e-6, "to the equator and back");
    vs_close(G(k), P(k), 1e-6, "to the perifocal frame and back");
  }
  V6 x = dso::elements2perifocal(1, q);
  double r = std::sqrt(x(0) * x(0) + x(1) * x(1)), v2 = x(3) * x(3) + x(4) * x(4);
  vs_same(x(2), 0, "in the plane"); vs_same(x(5), 0, "in the plane");
  vs_close(r * r, o.a * o.a * (1 - o.e * std::cos(o.E)) * (1 - o.e * std::cos(o.E)), 1e-6, "distance");
  vs_close(v2, 2 / (o.a * (1 - o.e * std::cos(o.E))) - 1 / o.a, 1e-6, "vis-viva");
  vs_obs_d("x", E(0));
  vs_reach("end");
}
// state -> elements: Keplerian states of any size, gravity parameter and anomaly for a set of shapes and orientations.
// p, q, f: e = q/p, sqrt(1-e^2) = f/p; P, Q: orthogonal vectors of norm m towards pericentre and along the motion there.
struct Orb { double s, g, E, p, q, f, m, P[3], Q[3], W[3], GM, r[3], v[3]; };
static void orbit(Orb &o) {
  static const double sh[5][3] = {{5, 3, 4}, {13, 5, 12}, {25, 24, 7}, {10001, 200, 9999}, {640001, 1600, 639999}};
  static const double or_[4][7] = {{3, 1, 2, 2, 2, 1, -2}, {7, 2, 3, -6, -3, 6, 2}, {9, -8, 4, -1, 4, 7, -4}, {3, -2, -2, 1, 1, -2, -2}};
  const double *t = sh[vs_choice("shape", 5)], *n = or_[vs_choice("orient", 4)];
  o.s = vs_double("s", 0.5, 2); o.g = vs_double("g", 0.5, 2); o.E = vs_double("E", -3, 3);
  vs_assume(o.E > 0.01 || o.E < -0.01);
  o.p = t[0]; o.q = t[1]; o.f = t[2]; o.m = n[0];
  for (int k = 0; k < 3; k++) { o.P[k] = n[1 + k]; o.Q[k] = n[4 + k]; }
  for (int k = 0; k < 3; k++) o.W[k] = o.P[(k + 1) % 3] * o.Q[(k + 2) % 3] - o.P[(k + 2) % 3] * o.Q[(k + 1) % 3];
  double c = std::cos(o.E), z = std::sin(o.E);
  for (int k = 0; k < 3; k++) {
    o.r[k] = o.s * o.s * (o.P[k] * (o.p * c - o.q) + o.Q[k] * o.f * z);
    o.v[k] = o.g / o.s * (o.Q[k] * o.f * c - o.P[k] * o.p * z) / (o.p - o.q * c);
  }
  o.GM = o.g * o.g * (o.m * o.m * o.m * o.p);
}
static void check_angles(const Orb &o, double e, double i, double O, double w) {
  double W = o.m * o.m, N = std::sqrt(o.W[0] * o.W[0] + o.W[1] * o.W[1]);
  vs_close(e, o.q / o.p, 1e-6, "eccentricity");
  vs_close(std::cos(i), o.W[2] / W, 1e-6, "inclination");
  vs_close(std::sin(i), N / W, 1e-6, "inclination");
  vs_close(std::cos(O), -o.W[1] / N, 1e-6, "node");
  vs_close(std::sin(O), o.W[0] / N, 1e-6, "node");
  vs_close(std::cos(w), (o.P[1] * o.W[0] - o.P[0] * o.W[1]) / N / o.m, 1e-6, "argument of pericentre");
  vs_close(std::sin(w), o.P[2] / o.m / (N / W), 1e-6, "argument of pericentre");
}
HARNESS(h_state2el) {
  Orb o;
  orbit(o);
  dso::OrbitalElements a;
  int vec = vs_choice("type", 2);
  if (vec) {
    int rc = dso::state2elements(dso::Vector3{{o.r[0], o.r[1], o.r[2]}}, dso::Vector3{{o.v[0], o.v[1], o.v[2]}}, a, o.GM);
    vs_assert(rc == 0, "no error");
  } else {
    V6 Y;
    for (int k = 0; k < 3; k++) { Y(k) = o.r[k]; Y(k + 3) = o.v[k]; }
    a = dso::state2elements(o.GM, Y);
  }
  check_angles(o, a.eccentricity(), a.inclination(), a.Omega(), a.omega());
  vs_close(a.semimajor() / (o.m * o.p), o.s * o.s, 1e-6, "semi-major axis");
  double M = o.E - o.q / o.p * std::sin(o.E);
  vs_close(std::cos(a.mean_anomaly()), std::cos(M), 1e-6, "mean anomaly");
  vs_close(std::sin(a.mean_anomaly()), std::sin(M), 1e-6, "mean anomaly");
  vs_obs_d("a", a.semimajor());
  vs_reach("end");
}
static void kep(int w) {
  Orb o;
  double s[6], k[6];
  orbit(o);
  for (int i = 0; i < 3; i++) { s[i] = o.r[i]; s[i + 3] = o.v[i]; }
  int rc = w == 0 ? dso::state2kepler(s, k, o.GM) : w == 1 ? dso::alternatives::state2kepler_vallado(s, k, o.GM) : dso::alternatives::state2kepler_montenbruck(s, k, o.GM);
  vs_assert(rc == 0, "no error");
  // |r x v| = s g f m^2
  vs_close(k[0] / (o.f * o.m * o.m), o.s * o.g, 1e-6, "angular momentum");
  check_angles(o, k[3], k[1], k[2], k[4]);
  double c = std::cos(o.E), z = std::sin(o.E);
  vs_close(std::cos(k[5]) * (1 - o.q / o.p * c), c - o.q / o.p, 1e-6, "true anomaly");
  vs_close(std::sin(k[5]) * (1 - o.q / o.p * c), o.f / o.p * z, 1e-6, "true anomaly");
  vs_obs_d("h", k[0]);
}
HARNESS(h_state2kep) { kep(0);
  vs_reach("end");
}
HARNESS(h_state2kep_v) { kep(1);
  vs_reach("end");
}
HARNESS(h_state2kep_m) { kep(2);
  vs_reach("end");
}
HARNESS(h_pos2ad) {
  static const double D[12][3] = {{3, 4, 5}, {-3, 4, 5}, {-4, -3, 5}, {4, -3, 5}, {1, 0, 1}, {0, 1, 1}, {-1, 0, 1}, {0, -1, 1}, {5, 12, 13}, {-24, 7, 25}, {-15, -8, 17}, {12, -35, 37}};
  const double *D_ = D[vs_choice("dir", 12)];
  double s = vs_double("s", 0.5, 3), z = vs_double("z", -30, 30), a, d;
  vs_assert(dso::pos2ad(dso::Vector3{{D_[0] * s, D_[1] * s, z}}, a, d) == 0, "no error");
  double r = std::sqrt(s * s * D_[2] * D_[2] + z * z);
  vs_close(r * std::sin(d), z, 1e-5, "declination");
  vs_close(r * std::cos(d), D_[2] * s, 1e-5, "declination");
  vs_close(std::cos(a), D_[0] / D_[2], 1e-5, "right ascension");
  vs_close(std::sin(a), D_[1] / D_[2], 1e-5, "right ascension quadrant");
  vs_obs_d("d", d);
  vs_reach("end");
}
// partials with respect to the elements at epoch: chain rule through Kepler's equation
HARNESS(h_partials) {
  El o;
  o.s = vs_double("s", 1, 1.7); o.g = vs_double("g", 0.7, 1.5); o.a = o.s * o.s; o.GM = o.g * o.g;
  double n = o.g / (o.a * o.s), dt = vs_double("dt", -4, 4);
  dso::OrbitalElements q = elements(o, false, n * dt);
  M6 D = dso::state_partials(o.GM, q, dt);
  double cE = std::cos(o.E), sE = std::sin(o.E), u = 1 - o.e * cE, na = n * o.a;
  // perifocal state and its derivatives with respect to E, e and a
  double p[4] = {o.a * (cE - o.e), o.a * o.f * sE, -na * sE / u, na * o.f * cE / u};
  double pE[4] = {-o.a * sE, o.a * o.f * cE, -na * (cE * u - sE * o.e * sE) / (u * u), na * o.f * (-sE * u - cE * o.e * sE) / (u * u)};
  double pe[4] = {-o.a, -o.a * o.e / o.f * sE, -na * sE * cE / (u * u), na * cE * (-o.e / o.f / u + o.f * cE / (u * u))};
  double pa[4] = {cE - o.e, o.f * sE, p[2] / (-2 * o.a), p[3] / (-2 * o.a)};
  double EM = 1 / u, Ee = sE / u, Ea = -1.5 * n / o.a * dt / u;
  double cO = std::cos(o.O), sO = std::sin(o.O), cw = std::cos(o.w), sw = std::sin(o.w), ci = std::cos(o.i), si = std::sin(o.i);
  double Ri[3][2] = {{sO * sw * si, sO * cw * si}, {-cO * sw * si, -cO * cw * si}, {sw * ci, cw * ci}};
  for (int k = 0; k < 6; k++) {
    int c = k % 3, b = k < 3 ? 0 : 2;
    const double *R = o.R[c];
    double RO[2] = {c == 0 ? -o.R[1][0] : c == 1 ? o.R[0][0] : 0, c == 0 ? -o.R[1][1] : c == 1 ? o.R[0][1] : 0};
    vs_close(D(k, 0), R[0] * (pa[b] + pE[b] * Ea) + R[1] * (pa[b + 1] + pE[b + 1] * Ea), 1e-5, "semi-major axis");
    vs_close(D(k, 1), R[0] * (pe[b] + pE[b] * Ee) + R[1] * (pe[b + 1] + pE[b + 1] * Ee), 1e-5, "eccentricity");
    vs_close(D(k, 2), Ri[c][0] * p[b] + Ri[c][1] * p[b + 1], 1e-5, "inclination");
    vs_close(D(k, 3), RO[0] * p[b] + RO[1] * p[b + 1], 1e-5, "node");
    vs_close(D(k, 4), R[1] * p[b] - R[0] * p[b + 1], 1e-5, "argument of pericentre");
    vs_close(D(k, 5), R[0] * pE[b] * EM + R[1] * pE[b + 1] * EM, 1e-5, "mean anomaly");
  }
  vs_obs_d("d", D(0, 0));
  vs_reach("end");
}
