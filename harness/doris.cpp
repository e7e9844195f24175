// DORIS observables: nominal frequencies, ionosphere, relativity, ground antennas.
#include "vs.h"
#include <cerrno>
#include <cstring>
#include <cassert>
#include <cstdio>
#include "doris_observation_equations.hpp"
#include "relativity/relativistic_clock_correction.cpp"
#include "doris/doris_system_info.cpp"
using namespace dso;
static double ell[3], ellx[3];
static int nell;
extern "C" void vs_car2ell(const double *xyz, double *llh) { ++nell; for (int i = 0; i < 3; i++) { ellx[i] = xyz[i]; llh[i] = ell[i]; } }

HARNESS(h_freq) {
  int k = vs_int("k", -60, 60);
  double s1 = -1, u2 = -1, f0 = 5e6, k2 = k;
  vs_assert(beacon_nominal_frequency(k, s1, u2) == 0, "frequencies for every shift factor");
  vs_close(s1, 543 * f0 * (0.75 + 87 * k2 / (5. * 67108864)), 1e-3, "2 GHz nominal frequency");
  vs_close(u2, 107 * f0 * (0.75 + 87 * k2 / (5. * 67108864)), 1e-3, "400 MHz nominal frequency");
  if (k == 0) { vs_close(s1, 2.03625e9, 1e-3, "unshifted frequency"); vs_close(u2, 401.25e6, 1e-3, "unshifted frequency"); }
  vs_reach("end");
}
// any distance and any (first order) ionosphere: the corrected 2 GHz phase is the geometric one
HARNESS(h_iono) {
  double rho = vs_double("rho", -5e6, 5e6), tec = vs_double("tec", -1e20, 1e20), c = 299792458., f1 = 2036.25e6, f2 = 401.25e6;
  double L1 = rho * f1 / c - tec / f1 * 1e-9, L2 = rho * f2 / c - tec / f2 * 1e-9;
  vs_close(L1 + carrier_iono_correction(L1, L2), rho * f1 / c, 1e-5, "the corrected phase is free of the ionosphere");
  double a = vs_double("a", -1e9, 1e9), b = vs_double("b", -1e9, 1e9), g = (f1 / f2);
  vs_close(carrier_iono_correction(a, b) * (g * g - 1), a - g * b, 1e-3, "first order ionospheric correction in 2 GHz cycles");
  vs_reach("end");
}
HARNESS(h_rel) {
  Eigen::Matrix<double, 3, 1> r, v;
  nell = 0;
  double s = vs_choice("scale", 2) ? 3e6 : 8e6;
  r << vs_double("x", 1, 2) * s, vs_double("y", -2, 2) * s, vs_double("z", -2, 2) * s;
  v << vs_double("vx", -8e3, 8e3), vs_double("vy", -8e3, 8e3), vs_double("vz", -8e3, 8e3);
  double gm = 3.986004418e14, c = 299792458., re = vs_double("re", 6e6, 7e6), j2 = vs_double("j2", 0, 2e-3);
  if (vs_choice("gm", 2)) gm = vs_double("gm", 1e14, 5e14);
  ell[0] = vs_double("lon", -3, 3); ell[1] = vs_double("lat", -1.5, 1.5); ell[2] = vs_double("h", -500, 9e5);
  double d = std::sqrt(r(0) * r(0) + r(1) * r(1) + r(2) * r(2)), v2 = v(0) * v(0) + v(1) * v(1) + v(2) * v(2);
  double a = relativistic_clock_correction(r, v, gm);
  vs_close(a, (gm / d + v2 / 2) / c, 1e-9, "potential of the central term plus half the velocity squared, over the speed of light");
  double b = relativistic_clock_correction(r, v, gm, j2, re);
  vs_assert(nell == 1, "latitude of the point");
  for (int i = 0; i < 3; i++) vs_same(ellx[i], r(i), "latitude of the point");
  double sp = std::sin(ell[1]);
  vs_close(b, (gm / d - gm * re * re * j2 * (3 * sp * sp - 1) / (2 * d * d * d) + v2 / 2) / c, 1e-9, "the oblateness adds the J2 term of the potential at the latitude of the point");
  vs_reach("end");
}
static BeaconStation beacon(char c) { BeaconStation b; std::memset(&b, 0, sizeof b); std::memcpy(b.m_station_id, "DIAZ", 4); b.m_station_id[3] = c; return b; }
HARNESS(h_pco) {
  char c = vs_char("c", "ABCDZac");
  BeaconStation b = beacon(c);
  int bad = 0; GroundAntennaType t = GroundAntennaType::Alcatel;
  try { t = b.type(); } catch (std::exception &) { bad = 1; }
  vs_assert(bad == !(c == 'A' || c == 'B' || c == 'C'), "unknown antenna letters are refused, the others accepted");
  if (bad) vs_stop();
  vs_assert(t == (c == 'A' ? GroundAntennaType::Alcatel : c == 'B' ? GroundAntennaType::Starec_B : GroundAntennaType::Starec_C), "antenna type");
  auto p = b.iono_free_phase_center();
  double f1 = 2.03625e9, f2 = 401.25e6, g = (f1 / f2) * (f1 / f2);
  double u1 = c == 'A' ? 0.510 : 0.487, u2 = c == 'A' ? 0.335 : 0;
  vs_close(p(0), 0, 0, "phase centre on the axis");
  vs_close(p(1), 0, 0, "phase centre on the axis");
  vs_close(p(2), u1 + (u1 - u2) / (g - 1), 1e-9, "ionosphere-free phase centre height");
  vs_reach("end");
}
static const double ALC[19] = {0, 2.05, 7.24, 9.21, 6.71, 8.14, 11.87, 12.48, 12.28, 13.67, 13.91, 13.01, 13.01, 11.87, 9.70, 7.94, 4.99, 0.41, -3.93};
static const double STA[19] = {0, 0.06, -0.32, -1.12, -2.87, -4.02, -3.44, -2.15, -1.73, -1.73, -0.08, 1.37, 2.20, 5.37, 7.02, 10.70, 13.86, 17.27, 22.37};
template <GroundAntennaType T, int F> static double pcv(double z, int &o) { return AntennaOffset<T, F>::pcv(z, o); }
static double pcv(int ant, int f, double z, int &o) {
  typedef GroundAntennaType G;
  switch (ant * 2 + f) {
  case 0: return pcv<G::Alcatel, 1>(z, o);
  case 1: return pcv<G::Alcatel, 2>(z, o);
  case 2: return pcv<G::Starec_B, 1>(z, o);
  case 3: return pcv<G::Starec_B, 2>(z, o);
  case 4: return pcv<G::Starec_C, 1>(z, o);
  default: return pcv<G::Starec_C, 2>(z, o);
  }
}
HARNESS(h_pcv) {
  const double q = 3.14159265358979323846 / 2;
  int ant = vs_choice("ant", 3), f = vs_choice("f", 2), kind = vs_choice("kind", 22), o = vs_choice("was", 2) * 5;
  double z, want = 0;
  const double *T = ant ? STA : ALC;
  if (kind < 18) {       // inside, between nodes
    double w = vs_double("w", 1e-9, 1 - 1e-9);
    z = (kind + w) * q / 18;
    want = T[kind] + w * (T[kind + 1] - T[kind]);
  } else if (kind == 18) { z = 0; want = T[0]; }
  else if (kind == 19) { z = DPI / 2; want = T[18]; }
  else if (kind == 20) z = vs_double("below", -1, -1e-9);
  else z = vs_double("above", q + 1e-9, 4);
  double p = pcv(ant, f, z, o);
  vs_assert((o != 0) == (kind > 19), "zenith angles outside 0 to 90 degrees are flagged, others are not");
  vs_close(p, kind > 19 || f ? 0 : want, 1e-6, "phase correction is the linear interpolation of the antenna's own table (zero if it has none)");
  typedef GroundAntennaType G;
  vs_assert((AntennaOffset<G::Alcatel, 1>::dup() == 510 && AntennaOffset<G::Alcatel, 2>::dup() == 335 && AntennaOffset<G::Starec_B, 1>::dup() == 487 && AntennaOffset<G::Starec_C, 1>::dup() == 487 && AntennaOffset<G::Starec_B, 2>::dup() == 0 && AntennaOffset<G::Starec_C, 2>::dup() == 0), "heights of the phase centres");
  vs_assert((AntennaOffset<G::Alcatel, 1>::deast() == 0 && AntennaOffset<G::Starec_C, 1>::dnorth() == 0), "phase centres on the axis");
  vs_reach("end");
}
