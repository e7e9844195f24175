// State transition matrix of the two-body problem; the element conversion is replaced by its contract.
#include "vs.h"
#define VS_NORM_ID
#include <cmath>
#include "astrodynamics.hpp"
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;
static dso::OrbitalElements gel;
static double gE, gdt;
static int gn0, gn1;
static bool gy;
static M6 gA;
double dso::kepler(double, double, int &status, double) noexcept { status = 0; return gE; }
dso::OrbitalElements dso::state2elements(double, const Eigen::Matrix<double, 6, 1> &Y) noexcept {
  gy = true;
  for (int k = 0; k < 6; k++) gy = gy && Y(k) == k + 1;
  return gel;
}
namespace dso { Eigen::Matrix<double, 6, 6> real_partials(double GM, const OrbitalElements &ele, double dt) noexcept; }
// partials at epoch are the real ones, those at the target time an arbitrary full-rank matrix
Eigen::Matrix<double, 6, 6> dso::state_partials(double GM, const OrbitalElements &ele, double dt) noexcept {
  if (dt == 0) { ++gn0; return real_partials(GM, ele, 0); }
  ++gn1;
  vs_same(dt, gdt, "partials at the target time");
  return gA;
}
#include "astrodynamics/perifocal.cpp"
#include "astrodynamics/propagate_state.cpp"
#define state_partials real_partials
#include "astrodynamics/state_partials.cpp"
#undef state_partials
HARNESS(h_transition) {
  double e = std::sin(vs_double("eps", 0.05, 1.2)), s = vs_double("s", 1, 1.7), g = vs_double("g", 0.7, 1.5), a = s * s, GM = g * g;
  double E0 = vs_double("E0", -3, 3);
  int c = vs_choice("orient", 2);
  double x = 2 * vs_double("x", -3, 3);
  gel.semimajor() = a; gel.eccentricity() = e; gel.mean_anomaly() = 1;
  gel.Omega() = c == 0 ? x : 0; gel.omega() = c == 1 ? x : 0; gel.inclination() = 2 * (vs_choice("retro", 2) ? vs_double("hi", 0.87, 1.5) : vs_double("hi", 0.05, 0.7));
  gE = E0; gdt = 2;
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) gA(i, j) = 0;
  for (int i = 0; i < 6; i++) gA(i, (i + 1) % 6) = 1 + i % 2;
  gn0 = gn1 = 0;
  M6 S, A0 = dso::real_partials(GM, gel, 0);
  V6 Y;
  for (int k = 0; k < 6; k++) Y(k) = k + 1;
  V6 Z = dso::propagate_state(GM, Y, gdt, S), Z1 = dso::propagate_state(GM, gel, gdt);
  vs_assert(gy && gn0 >= 1 && gn1 >= 1, "elements of the given state, partials at both times");
  // S = dY/dA (dY0/dA)^-1, that is S (dY0/dA) = dY/dA
  for (int i = 0; i < 6; i++) {
    vs_same(Z(i), Z1(i), "propagated state");
    for (int j = 0; j < 6; j++) {
      double d = 0;
      for (int k = 0; k < 6; k++) d += S(i, k) * A0(k, j);
      vs_close(d, gA(i, j), 1e-6, "transition matrix maps epoch partials to current partials");
    }
  }
  vs_obs_d("s", S(0, 0));
  vs_reach("end");
}
