// NRLMSISE-00 above 72.5 km; the expansions are replaced by arbitrary values.
#define VS_FSTREAM_DISTINCT
#include <sstream>
#include <fstream>
#include <vector>
#include "vs.h"
#include <algorithm>
#include <cassert>
#include <cstdio>
#include "eigen3/Eigen/Eigen"
#include "geodesy/geodesy.hpp"
#include "var_utils.hpp"
#define class struct
#include "atmosphere/nrlmsise00.hpp"
#undef class
#include "atmosphere/nrlmsise_spline.cpp"
#include "atmosphere/nrlmsise00_splint.cpp"
#include "atmosphere/nrlmsise00_splini.cpp"
#include "atmosphere/nrlmsise00_ccor.cpp"
#include "atmosphere/nrlmsise00_ccor2.cpp"
#include "atmosphere/nrlmsise00_dnet.cpp"
#include "atmosphere/nrlmsise00_data.cpp"
#include "atmosphere/nrlmsise00_densm.cpp"
#include "atmosphere/nrlmsise00_densu.cpp"
#include "atmosphere/nrlmsise00_glatf.cpp"
#include "atmosphere/nrlmsise00_gts7.cpp"
#include "atmosphere/nrlmsise00_gtd7.cpp"
#include "atmosphere/nrlmsise00_gtd7d.cpp"
#include "msis_ref.hpp"
namespace msis = dso::nrlmsise00::detail;
extern "C" void vs_car2ell(const double *, double *l) { l[0] = l[1] = l[2] = 0; }
static double ge[11], gs7[14];
double dso::Nrlmsise00::glob7s(const msis::InParamsCore *, double *p) noexcept { return p >= ptl[0] && p <= ptl[3] ? gs7[10 + (p - ptl[0]) / 100] : gs7[(p - pma[0]) / 100]; }
double dso::Nrlmsise00::globe7(const msis::InParamsCore *, double *p) noexcept { return p == pt ? ge[9] : p == ps ? ge[10] : ge[(p - pd[0]) / 150]; }

static const double R100 = 1.380648813 * 6.0221407818 * 100;
struct Thermo { // the published thermosphere, with the given expansions
  double re, g0, zn[5], tn[5], grad, tinf, tlb, s, zlb;
  double zeta(double z, double l) const { return (z - l) * (re + l) / (re + z); }
  double grav(double z) const { double w = 1 + z / re; return g0 / (w * w); }
  double T(double z) const { double t; prof(z, 1, 0, 0, &t); return t; }
  // density at z of a constituent of mass xm and density dlb at zlb (diffusive equilibrium with thermal diffusion alpha)
  double prof(double z, double dlb, double xm, double al, double *tz, double ti = 0, double tl = 0) const {
    if (!ti) { ti = tinf; tl = tlb; }
    double za = zn[0], zu = z > za ? z : za, zg2 = zeta(zu, zlb), ta = ti - (ti - tl) * std::exp(-s * zg2);
    *tz = ta;
    double x[5], y[5], y2[5], u[5], L = zeta(zn[4], za), t = 0;
    if (z < za) {
      double q = (re + zlb) / (re + za), p = (re + zn[4]) / (re + za), tt[5] = {ta, tn[1], tn[2], tn[3], tn[4]};
      for (int i = 0; i < 5; i++) { x[i] = zeta(zn[i], za) / L; y[i] = 1 / tt[i]; }
      msis::spline(x, y, 5, -((ti - ta) * s * (q * q)) / (ta * ta) * L, -grad / (tt[4] * tt[4]) * L * (p * p), y2, u);
      double zz = z > zn[4] ? z : zn[4];
      t = zeta(zz, za) / L;
      *tz = 1 / msis::splint(x, y, y2, 5, t);
    }
    if (xm == 0) return *tz;
    double ga = xm * grav(zlb) / (s * R100 * ti), e = std::exp(-s * ga * zg2), r = dlb * std::pow(tl / ta, 1 + al + ga) * (e > 50 ? 50 : e);
    if (z < za) {
      double ex = xm * grav(za) * L / R100 * msis::splini(x, y, y2, 5, t);
      r = r * std::pow(ta / *tz, 1 + al) * std::exp(-(ex > 50 ? 50 : ex));
    }
    return r;
  }
};
HARNESS(h_thermo) {
  dso::Nrlmsise00 m;
  dso::nrlmsise00::OutParams o;
  msis::InParamsCore in;
  static const double alts[12] = {1336, 717, 400, 310, 260, 245, 220, 180, 150, 120, 100, 80};
#ifdef VS_THOROUGH
  in.alt = alts[vs_choice("alt", 12)];
#else
  static const int q[6] = {0, 2, 4, 6, 8, 10};
  in.alt = alts[q[vs_choice("alt", 6)]];
#endif
  in.year = 2020; in.doy = 100; in.sec = 0; in.glat = 30; in.glon = 0; in.lst = 0; in.f107 = 150; in.ap = 4;
  in.f107A = vs_double("f107A", 80, 220);
  int k = vs_choice("profile", 2); // temperature profile; everything else is arbitrary
  for (double &v : ge) v = k ? 0.05 : -0.04;
  for (double &v : gs7) v = k ? 0.02 : -0.03;
  for (int i = 0; i < 9; i++) if (i != 3) ge[i] = vs_double("g", -0.125, 0.125);
  int met = vs_choice("meters", 2);
  if (met) in.meters_on();
  vs_assert(m.gtd7(&in, &o) == 0, "the model evaluates");
  Thermo t;
  const double al[9] = {-0.38, 0, 0, 0, 0.17, 0, -0.38, 0, 0}, dtr = 1.72142e-2;
  double c2 = std::cos(2 * dso::deg2rad(in.glat)), z = in.alt, tz, mm = ref_pdm[2][4];
  t.g0 = 980.665 * (1 - 0.0026373 * c2); t.re = 2 * t.g0 / (3.085462e-6 + 2.27e-9 * c2) * 1e-5;
  const double zz[5] = {ref_pdl[1][15], 110, 100, 90, 72.5};
  for (int i = 0; i < 5; i++) t.zn[i] = zz[i];
  t.zlb = ref_ptm[5];
  t.tinf = ref_ptm[0] * ref_pt[0] * (z > zz[0] ? 1 + ge[9] : 1);
  t.tlb = ref_ptm[1] * (1 + ge[3]) * ref_pd[3][0];
  t.s = ref_ptm[3] * ref_ps[0] * (1 + ge[10]) / (t.tinf - t.tlb);
  bool hi = z >= 300;
  const int ti[4] = {6, 2, 7, 4};
  for (int i = 0; i < 4; i++) t.tn[i + 1] = ref_ptm[ti[i]] * ref_ptl[i][0] / (hi ? 1 : 1 - gs7[10 + i]);
  t.grad = ref_ptm[8] * ref_pma[8][0] * (hi ? 1 : 1 + gs7[8]) * t.tn[4] * t.tn[4] / ((ref_ptm[4] * ref_ptl[3][0]) * (ref_ptm[4] * ref_ptl[3][0]));
  double zhf = ref_pdl[1][24] * (1 + ref_pdl[0][24] * std::sin(dso::deg2rad(in.glat)) * std::cos(dtr * (in.doy - ref_pt[13])));
  auto &pm = ref_pdm; auto &pl = ref_pdl;
  double d[9] = {0}, b28;
  { // N2
    double b = pm[2][0] * std::exp(ge[2]) * ref_pd[2][0], zh = pm[2][2] * zhf;
    d[2] = t.prof(z, b, 28, al[2], &tz);
    b28 = t.prof(zh, b, 28 - mm, al[2] - 1, &tz);
    double dd = d[2];
    if (z <= 160) d[2] = msis::dnet(dd, t.prof(z, b28, mm, al[2], &tz), pm[2][3] * pl[1][5], mm, 28);
  }
  double zhm = pm[2][3] * pl[1][5], vf = 1 + pl[0][23] * (in.f107A - 150);
  struct { int i, row, g; double mass, top; } sp[6] = {{0, 0, 0, 4, 200}, {1, 1, 1, 16, 300}, {3, 3, 4, 32, 250}, {4, 4, 5, 40, 240}, {6, 5, 6, 1, 320}, {7, 6, 7, 14, 450}};
  for (auto &q : sp) {
    const double *p = pm[q.row];
    double b = p[0] * std::exp(ge[q.g]) * ref_pd[q.g][0];
    double &x = d[q.i];
    x = t.prof(z, b, q.mass, al[q.i], &tz);
    if (z <= q.top) {
      double bm = t.prof(p[2], b, q.mass - mm, al[q.i] - 1, &tz), dm = t.prof(z, bm, mm, 0, &tz), dd = x;
      x = msis::dnet(dd, dm, zhm, mm, q.mass);
      switch (q.i) {
      case 0: x *= msis::ccor(z, std::log(b28 * p[1] / bm), p[5] * pl[1][1], p[4] * pl[1][0]); break;
      case 1: x *= msis::ccor2(z, p[1] * pl[1][16] * vf, p[5] * pl[1][3], p[4] * pl[1][2], p[5] * pl[1][4]); x *= msis::ccor(z, p[3] * pl[1][14], p[7] * pl[1][13], p[6] * pl[1][12]); break;
      case 3: x *= msis::ccor(z, std::log(b28 * p[1] / bm), p[5] * pl[1][7], p[4] * pl[1][6]); break;
      case 4: x *= msis::ccor(z, std::log(b28 * p[1] / bm), p[5] * pl[1][9], p[4] * pl[1][8]); break;
      case 6: x *= msis::ccor(z, std::log(b28 * p[1] * std::abs(pl[1][17]) / bm), p[5] * pl[1][11], p[4] * pl[1][10]); x *= msis::ccor(z, p[3] * pl[1][20], p[7] * pl[1][19], p[6] * pl[1][18]); break;
      case 7: x *= msis::ccor(z, std::log(b28 * p[1] * std::abs(pl[0][2]) / bm), p[5] * pl[0][1], p[4] * pl[0][0]); x *= msis::ccor(z, p[3] * pl[0][5], p[7] * pl[0][4], p[6] * pl[0][3]); break;
      }
    }
    if (q.i == 3) x *= msis::ccor2(z, p[3] * pl[1][23] * vf, p[7] * pl[1][22], p[6] * pl[1][21], p[7] * pl[0][22]);
  }
  { // anomalous oxygen
    const double *p = pm[7];
    double tho = p[9] * pl[0][6], dd = t.prof(z, p[0] * std::exp(ge[8]) * ref_pd[8][0], 16, al[8], &tz, tho, tho), sh = R100 * tho / (t.grav(p[4]) * 16);
    d[8] = dd * std::exp(-p[5] / sh * (std::exp(-(z - p[4]) / p[5]) - 1));
  }
  double f = met ? 1e-6 : 1;
  static const char *nm[9] = {"helium", "oxygen atoms", "nitrogen molecules", "oxygen molecules", "argon", "", "hydrogen", "nitrogen atoms", "anomalous oxygen"};
  for (int i = 0; i < 9; i++) if (i != 5) vs_close(o.d[i] * f / d[i], 1, 1e-6, nm[i]);
  vs_close(o.d[5] * (met ? 1e-3 : 1) / (1.66e-24 * (4 * d[0] + 16 * d[1] + 28 * d[2] + 32 * d[3] + 40 * d[4] + d[6] + 14 * d[7])), 1, 1e-6, "mass density is the sum over the species");
  vs_close(o.t[0] / t.tinf, 1, 1e-9, "exospheric temperature");
  vs_close(o.t[1] / t.T(z), 1, 1e-9, "temperature at altitude");
  vs_reach("end");
}
