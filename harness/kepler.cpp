// Kepler's equation: success means the equation holds.
#include "vs.h"
#include <cmath>
static int g_calls, g_max;
static double g_last;
namespace std {
inline double vs_sin_(double x) {
  g_last = x;
  if (++g_calls > g_max) vs_stop();
  return std::sin(x);
}
}
#include "astrodynamics.hpp"
#define sin vs_sin_
#include "astrodynamics/kepler.cpp"
#undef sin
static void solve(int vallado) {
  static const double turns[4] = {0, -1, 2, -3};
  double e = vs_double("e", 0, 0.95), m = vs_double("m", 1e-6, 6.2831), M = m + turns[vs_choice("turn", 4)] * (2 * M_PI);
  double tol = VS_THOROUGH ? vs_double("tol", 1e-9, 0.5) : vs_choice("tol", 2) ? 0.3 : 0.01;
  g_calls = 0; g_max = VS_THOROUGH ? 3 : 2;
  int ok = 7;
  double E = vallado ? dso::kepler_vallado(e, M, ok, tol) : dso::kepler(e, M, ok, tol);
  vs_assert(ok == 0, "converged within the iteration limit: success");
  double Ek = g_last, f = Ek - e * std::sin(Ek) - m, d = E - Ek;
  vs_close(d * (1 - e * std::cos(Ek)), -f, 1e-9, "the last update is a Newton step");
  if (vallado) { vs_le(std::abs(d), tol, 1e-9, "step below tolerance"); }
  else { vs_le(std::abs(f), tol, 1e-9, "residual below tolerance"); }
  vs_obs_d("E", E);
}
HARNESS(h_kepler) { solve(0);
  vs_reach("end");
}
HARNESS(h_kepler_vallado) { solve(1);
  vs_reach("end");
}
// circular orbits are solved exactly; non-convergence is reported; small eccentricities agree between both solvers
HARNESS(h_kepler_misc) {
  g_calls = 0; g_max = 1000;
  int ok = 7;
  double M = vs_double("M", -20, 20), k = std::floor(M / (2 * M_PI));
  double E = dso::kepler(0, M, ok);
  vs_close(E, M - k * 2 * M_PI, 1e-9, "circular orbit");
  vs_assert(ok == 0, "circular orbit converges");
  double V = dso::kepler_vallado(0, M, ok);
  vs_close(V, M - k * 2 * M_PI, 1e-9, "circular orbit");
  vs_assert(ok == 0, "circular orbit converges");
  dso::kepler(0.3, 1, ok, -1);
  vs_assert(ok != 0, "non-convergence is reported");
  dso::kepler_vallado(0.3, 1, ok, -1);
  vs_assert(ok != 0, "non-convergence is reported");
  vs_obs_d("E", E);
  vs_reach("end");
}
// dense concrete grid of high eccentricities (deterministic part of the statement)
HARNESS(h_kepler_conv) {
  g_max = 1000;
  int i = vs_choice("e", 10), j = vs_choice("M", 24), ok = 7;
  double e = 0.1 * i, M = -3.5 + 0.4 * j;
  double E = dso::kepler(e, M, ok), k = std::floor(M / (2 * M_PI)), Mn = M - k * 2 * M_PI;
  vs_assert(ok == 0, "converges");
  vs_close(E - e * std::sin(E), Mn, 1e-9, "solves the equation");
  E = dso::kepler_vallado(e, M, ok);
  vs_assert(ok == 0, "converges");
  vs_close(E - e * std::sin(E), Mn, 1e-9, "solves the equation");
  vs_reach("end");
}
