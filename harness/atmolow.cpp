// NRLMSISE-00 below 72.5 km and its public interface; the thermosphere part and the expansions are replaced by arbitrary values.
#define VS_FSTREAM_DISTINCT
#include <sstream>
#include <fstream>
#include <vector>
#include "vs.h"
#include <algorithm>
#include <cassert>
#include <cstdio>
#include "eigen3/Eigen/Eigen"
#include "geodesy/geodesy.hpp"
#include "var_utils.hpp"
#define class struct
#include "atmosphere/nrlmsise00.hpp"
#undef class
#include "atmosphere/nrlmsise_spline.cpp"
#include "atmosphere/nrlmsise00_splint.cpp"
#include "atmosphere/nrlmsise00_splini.cpp"
#include "atmosphere/nrlmsise00_data.cpp"
#include "atmosphere/nrlmsise00_densm.cpp"
#include "atmosphere/nrlmsise00_glatf.cpp"
#include "atmosphere/nrlmsise00_gtd7.cpp"
#include "atmosphere/nrlmsise00_gtd7d.cpp"
#include "msis_ref.hpp"
namespace msis = dso::nrlmsise00::detail;
extern "C" void vs_car2ell(const double *, double *l) { l[0] = l[1] = l[2] = 0; }
static double g[10], top[9], tt[2], t72, tg72, n28, gs, rr, galt;
double dso::Nrlmsise00::glob7s(const msis::InParamsCore *, double *p) noexcept { return g[(p - pma[0]) / 100]; }
double dso::Nrlmsise00::globe7(const msis::InParamsCore *, double *) noexcept { return 0; }
int dso::Nrlmsise00::gts7(const msis::InParamsCore *in, dso::nrlmsise00::OutParams *out, int) noexcept {
  double f = in->meters() ? 1e6 : 1;
  for (int i = 0; i < 9; i++) out->d[i] = top[i] * f;
  out->d[5] = top[5] * (in->meters() ? 1e3 : 1);
  out->t[0] = tt[0]; out->t[1] = tt[1];
  tn1[4] = t72; tgn1[1] = tg72; dm28 = n28;
  gs = gsurf; rr = re; galt = in->alt;
  return 0;
}
static void fill(msis::InParamsCore &in, bool sym) {
  in.year = 2020; in.doy = 100; in.sec = 0; in.glat = 45; in.glon = 0; in.lst = 0; in.f107 = in.f107A = 150; in.ap = 4;
  for (int i = 0; i < 10; i++) g[i] = sym ? vs_double("g", -0.125, 0.125) : 0.0625;
  static const double dd[9] = {5e8, 0, 1e15, 3e14, 1.5e13, 0, 0, 0, 0};
  for (int i = 0; i < 9; i++) top[i] = dd[i] ? dd[i] * vs_double("top", 0.5, 2) : i == 5 ? 7e-8 : vs_double("topz", 0, 2);
  tt[0] = 1000; tt[1] = vs_double("t72", 150, 250);
  t72 = tt[1]; tg72 = vs_double("tg", -4, 4);
  n28 = 1e15 * vs_double("n28", 0.5, 2);
}
static double sum(const double *d) { return 1.66e-24 * (4 * d[0] + 16 * d[1] + 28 * d[2] + 32 * d[3] + 40 * d[4] + d[6] + 14 * d[7]); }
// temperature: passes through the published nodes, continuous where the profiles meet
HARNESS(h_nodes) {
  dso::Nrlmsise00 m;
  dso::nrlmsise00::OutParams o;
  msis::InParamsCore in;
  fill(in, true);
  const double tn[8] = {t72, ref_pma[0][0] * ref_pavgm[0] / (1 - g[0]), ref_pma[1][0] * ref_pavgm[1] / (1 - g[1]), ref_pma[2][0] * ref_pavgm[2] / (1 - g[2]), ref_pma[3][0] * ref_pavgm[3] / (1 - g[3]),
                        ref_pma[4][0] * ref_pavgm[4] / (1 - g[4]), ref_pma[5][0] * ref_pavgm[5] / (1 - g[5]), ref_pma[6][0] * ref_pavgm[6] / (1 - g[6])};
  const double alt[8] = {72.5, 55, 45, 32.5, 20, 15, 10, 0};
  int k = vs_choice("node", 9);
  in.alt = k < 8 ? alt[k] : 32.5 - 1e-7;
  for (double &x : o.d) x = -1;
  vs_assert(m.gtd7(&in, &o) == 0, "the model evaluates");
  vs_close(1000 / o.t[1], 1000 / tn[k < 8 ? k : 3], k < 8 ? 1e-7 : 1e-4, "temperature passes through the nodes of the profile");
  vs_close(o.t[0], 1000, 1e-12, "exospheric temperature");
  vs_assert(galt == 72.5, "the thermosphere part is evaluated at its lower boundary");
  vs_reach("end");
}
// composition: continuous at 72.5 km, mixed below 62.5 km, mass density the sum of the species
HARNESS(h_mix) {
  dso::Nrlmsise00 m;
  dso::nrlmsise00::OutParams o;
  msis::InParamsCore in;
  fill(in, false);
  static const double alts[8] = {300, 72.5, 72.5 - 1e-9, 68, 62.5, 50, 32.5, 20};
  int k = vs_choice("alt", 8), met = vs_choice("meters", 2), eff = vs_choice("effective", 2);
  in.alt = alts[k];
  if (met) in.meters_on();
  double f = met ? 1e-6 : 1;
  for (double &x : o.d) x = -1;
  vs_assert((eff ? m.gtd7d(&in, &o) : m.gtd7(&in, &o)) == 0, "the model evaluates");
  vs_assert(galt == (in.alt > 72.5 ? in.alt : 72.5), "the thermosphere part is evaluated at the altitude, at its lower boundary below that");
  const double *d = o.d;
  if (k <= 1) for (int i = 0; i < 9; i++) if (i != 5) vs_close(d[i] * f / (top[i] > 10 ? top[i] : 1), top[i] > 10 ? 1 : top[i], 1e-9, "above 72.5 km the thermosphere values");
  if (k == 2) {
    vs_close(d[2] * f / top[2], 1, 1e-6, "nitrogen is continuous at 72.5 km");
    vs_close(d[0] * f / top[0], d[2] * f / top[2], 1e-6, "helium is continuous at 72.5 km");
    vs_close(d[3] * f / top[3], d[2] * f / top[2], 1e-6, "oxygen is continuous at 72.5 km");
    vs_close(d[4] * f / top[4], d[2] * f / top[2], 1e-6, "argon is continuous at 72.5 km");
  }
  if (k >= 4) {
    vs_close(d[0] / d[2], ref_pdm[0][1], 1e-12, "helium fully mixed below 62.5 km");
    vs_close(d[3] / d[2], ref_pdm[3][1], 1e-9, "oxygen fully mixed below 62.5 km");
    vs_close(d[4] / d[2], ref_pdm[4][1], 1e-9, "argon fully mixed below 62.5 km");
  }
  if (k >= 2) vs_assert(d[1] == 0 && d[6] == 0 && d[7] == 0 && d[8] == 0, "no atomic species below 72.5 km");
  if (eff) vs_close(d[5] * (met ? 1e-3 : 1) * 1e8, (sum(d) + 1.66e-24 * 16 * d[8]) * f * 1e8, 1e-5, "effective mass density is the sum over all species with anomalous oxygen");
  else if (k >= 2) vs_close(d[5] * (met ? 1e-3 : 1) * 1e8, sum(d) * f * 1e8, 1e-5, "mass density is the sum over the species");
  vs_reach("end");
}
// hydrostatic: the same mixing ratio column integrated to two altitudes
HARNESS(h_gravity) {
  dso::Nrlmsise00 m;
  dso::nrlmsise00::OutParams o;
  msis::InParamsCore in;
  fill(in, false);
  in.glat = vs_double("glat", -90, 90);
  in.alt = 400;
  int off = vs_choice("latitude_off", 2);
  if (off) in.set_switch(1, 0);
  m.gtd7(&in, &o);
  double c2 = off ? 0 : std::cos(2 * dso::deg2rad(in.glat)), ge = 980.665 * (1 - 0.0026373 * c2);
  vs_close(gs, ge, 1e-9, "gravity at the latitude, at 45 degrees with the latitude switch off");
  vs_close(rr, 2 * ge / (3.085462e-6 + 2.27e-9 * c2) * 1e-5, 1e-6, "effective radius at the latitude");
  vs_reach("end");
}

// N2 at an altitude: hydrostatic column of the mixed atmosphere from the top of each profile, 1/T a cubic spline in geopotential height
static double seg(const double *x, const double *y, const double *y2, int i, double t) {
  double h = x[i + 1] - x[i], A = (x[i + 1] - t) / h, B = (t - x[i]) / h;
  return A * y[i] + B * y[i + 1] + ((A * A * A - A) * y2[i] + (B * B * B - B) * y2[i + 1]) * h * h / 6;
}
static double column(double alt, const double *zn, const double *tn, int n, double s0, double s1, double xm, double &T) {
  double x[5], y[5], y2[5], u[5], L = (zn[n - 1] - zn[0]) * (rr + zn[0]) / (rr + zn[n - 1]);
  for (int i = 0; i < n; i++) { x[i] = (zn[i] - zn[0]) * (rr + zn[0]) / (rr + zn[i]) / L; y[i] = 1 / tn[i]; }
  double q = (rr + zn[n - 1]) / (rr + zn[0]);
  msis::spline(x, y, n, -s0 / (tn[0] * tn[0]) * L, -s1 / (tn[n - 1] * tn[n - 1]) * L * (q * q), y2, u);
  if (alt < zn[n - 1]) alt = zn[n - 1];
  double t = (alt - zn[0]) * (rr + zn[0]) / (rr + alt) / L, in = 0;
  int k = 0;
  while (k < n - 2 && alt < zn[k + 1]) ++k;
  for (int i = 0; i <= k; i++) { double e = i == k ? t : x[i + 1]; in += (e - x[i]) / 6 * (seg(x, y, y2, i, x[i]) + 4 * seg(x, y, y2, i, (x[i] + e) / 2) + seg(x, y, y2, i, e)); }
  T = 1 / seg(x, y, y2, k, t);
  double w = 1 + zn[0] / rr, gl = gs / (w * w);
  return std::exp(-xm * gl * L / (1.380648813 * 6.0221407818 * 100) * in) * tn[0] / T;
}
HARNESS(h_hydro) {
  dso::Nrlmsise00 m;
  dso::nrlmsise00::OutParams o;
  msis::InParamsCore in;
  fill(in, false);
  static const double alts[6] = {61, 50, 40, 32.5, 25, 3};
  int k = vs_choice("alt", 6);
  in.alt = alts[k];
  m.gtd7(&in, &o);
  static const double z2[4] = {72.5, 55, 45, 32.5}, z3[5] = {32.5, 20, 15, 10, 0};
  double T, p2 = ref_pma[2][0] * ref_pavgm[2], p6 = ref_pma[6][0] * ref_pavgm[6], c = 1 - g[0], d = 1 + g[0];
  double t2[4] = {t72, ref_pma[0][0] * ref_pavgm[0] / c, ref_pma[1][0] * ref_pavgm[1] / c, p2 / c}, t3[5] = {t2[3], ref_pma[3][0] * ref_pavgm[3] / c, ref_pma[4][0] * ref_pavgm[4] / c, ref_pma[5][0] * ref_pavgm[5] / c, p6 / c};
  double e2 = ref_pavgm[8] * ref_pma[9][0] * d * t2[3] * t2[3] / (p2 * p2), e3 = ref_pma[7][0] * ref_pavgm[7] * d * t3[4] * t3[4] / (p6 * p6);
  double r = n28 * column(in.alt, z2, t2, 4, tg72, e2, ref_pdm[2][4], T);
  if (in.alt <= 32.5) r = r * column(in.alt, z3, t3, 5, e2, e3, ref_pdm[2][4], T);
  vs_close(1000 / o.t[1], 1000 / T, 1e-7, "temperature profile");
  vs_close(o.d[2] / n28, r / n28, 1e-4, "hydrostatic density of the mixed atmosphere");
  vs_reach("end");
}
