// Atmosphere models: exponential table, NRLMSISE-00 building blocks.
#define VS_FSTREAM_DISTINCT
#include <sstream>
#include <fstream>
#include <vector>
#include "vs.h"
#include <algorithm>
#include <cassert>
#include <cstdio>
#include "eigen3/Eigen/Eigen"
#include "geodesy/geodesy.hpp"
#include "var_utils.hpp"
#define class struct
#include "atmosphere/nrlmsise00.hpp"
#undef class
#include "atmosphere/exponential_atmospheric_model.cpp"
#include "atmosphere/nrlmsise_spline.cpp"
#include "atmosphere/nrlmsise00_splint.cpp"
#include "atmosphere/nrlmsise00_splini.cpp"
#include "atmosphere/nrlmsise00_ccor.cpp"
#include "atmosphere/nrlmsise00_ccor2.cpp"
#include "atmosphere/nrlmsise00_dnet.cpp"
#include "atmosphere/nrlmsise00_data.cpp"
#include "atmosphere/nrlmsise00_globe7.cpp"
#include "atmosphere/nrlmsise00_glob7s.cpp"
#include "atmosphere/nrlmsise00_glatf.cpp"
#include "msis_ref.hpp"
namespace msis = dso::nrlmsise00::detail;
extern "C" void vs_car2ell(const double *, double *l) { l[0] = l[1] = l[2] = 0; }

// Vallado, Table 8-4
static const double lay[28][3] = {{0, 1.225, 7.249}, {25, 3.899e-2, 6.349}, {30, 1.774e-2, 6.682}, {40, 3.972e-3, 7.554}, {50, 1.057e-3, 8.382}, {60, 3.206e-4, 7.714}, {70, 8.770e-5, 6.549},
  {80, 1.905e-5, 5.799}, {90, 3.396e-6, 5.382}, {100, 5.297e-7, 5.877}, {110, 9.661e-8, 7.263}, {120, 2.438e-8, 9.473}, {130, 8.484e-9, 12.636}, {140, 3.845e-9, 16.149}, {150, 2.070e-9, 22.523},
  {180, 5.464e-10, 29.740}, {200, 2.789e-10, 37.105}, {250, 7.248e-11, 45.546}, {300, 2.418e-11, 53.628}, {350, 9.518e-12, 53.298}, {400, 3.725e-12, 58.515}, {450, 1.585e-12, 60.828},
  {500, 6.967e-13, 63.822}, {600, 1.454e-13, 71.835}, {700, 3.614e-14, 88.667}, {800, 1.170e-14, 124.64}, {900, 5.245e-15, 181.05}, {1000, 3.019e-15, 268.00}};
HARNESS(h_exp) {
  int i = vs_choice("layer", 28);
#ifdef VS_THOROUGH
  double top = 1500;
#else
  double top = 1050;
#endif
  double lo = lay[i][0], hi = i < 27 ? lay[i + 1][0] : top, h = vs_double("h", lo, hi);
  vs_assume(h < hi && h > 0);
  double d = dso::air_density_models::exponential::density(h);
  vs_assert(d > 0, "density is positive");
  vs_close(d / lay[i][1], std::exp(-(h - lo) / lay[i][2]), 1e-9, "density of the layer the altitude lies in");
  vs_reach("end");
}
HARNESS(h_cont) { // across a layer boundary
  int i = vs_choice("layer", 27);
  double b = lay[i + 1][0], h = vs_double("h", 0, 1e-3);
  vs_assume(h > 0);
  double lo = dso::air_density_models::exponential::density(b - h), hi = dso::air_density_models::exponential::density(b + h), at = dso::air_density_models::exponential::density(b);
  vs_assert(lo >= at * 0.998 && lo <= at * 1.002, "density is continuous from below a layer boundary");
  vs_assert(hi >= at * 0.999 && hi <= at, "density is continuous from above a layer boundary");
  vs_reach("end");
}

// cubic splines
#ifdef VS_THOROUGH
constexpr int NS = 5;
#else
constexpr int NS = 4;
#endif
static int setup(double *x, double *y, double &yp1, double &ypn) {
  int n = vs_choice("n", 2) ? NS : 3;
  static const double gaps[3][4] = {{1, 1, 1, 1}, {0.5, 1.25, 2, 0.25}, {2, 0.125, 1, 3}};
  int g = vs_choice("gaps", 3);
  x[0] = vs_choice("x0", 2) ? 0 : -1.5;
  for (int i = 1; i < n; i++) x[i] = x[i - 1] + gaps[g][i - 1];
  for (int i = 0; i < n; i++) y[i] = vs_double("y", -2, 2);
  yp1 = vs_choice("natural", 2) ? 1e30 : vs_double("yp1", -2, 2);
  ypn = vs_choice("naturaln", 2) ? 1e30 : vs_double("ypn", -2, 2);
  return n;
}
HARNESS(h_spline) {
  double x[5], y[5], y2[5], u[5], a, b;
  int n = setup(x, y, a, b);
  msis::spline(x, y, n, a, b, y2, u);
  for (int i = 1; i < n - 1; i++) {
    double hm = x[i] - x[i - 1], hp = x[i + 1] - x[i];
    vs_close(hm * y2[i - 1] + 2 * (hm + hp) * y2[i] + hp * y2[i + 1], 6 * ((y[i + 1] - y[i]) / hp - (y[i] - y[i - 1]) / hm), 1e-6, "the spline has a continuous slope at every interior node");
  }
  double h0 = x[1] - x[0], hn = x[n - 1] - x[n - 2];
  if (a > 1e29) vs_close(y2[0], 0, 1e-9, "natural start"); else vs_close((y[1] - y[0]) / h0 - h0 / 6 * (2 * y2[0] + y2[1]), a, 1e-6, "given slope at the first node");
  if (b > 1e29) vs_close(y2[n - 1], 0, 1e-9, "natural end"); else vs_close((y[n - 1] - y[n - 2]) / hn + hn / 6 * (y2[n - 2] + 2 * y2[n - 1]), b, 1e-6, "given slope at the last node");
  vs_reach("end");
}
static double seg(const double *x, const double *y, const double *y2, int i, double t) {
  double h = x[i + 1] - x[i], A = (x[i + 1] - t) / h, B = (t - x[i]) / h;
  return A * y[i] + B * y[i + 1] + ((A * A * A - A) * y2[i] + (B * B * B - B) * y2[i + 1]) * h * h / 6;
}
HARNESS(h_splint) {
  double x[5], y[5], y2[5], a, b;
  int n = setup(x, y, a, b);
  for (int i = 0; i < n; i++) y2[i] = vs_double("y2", -2, 2);
  int s = vs_choice("segment", 4);
  if (s >= n - 1) vs_stop();
  double t = vs_double("t", 0, 1) * (x[s + 1] - x[s]) + x[s];
  vs_close(msis::splint(x, y, y2, n, t), seg(x, y, y2, s, t), 1e-9, "value of the spline in the segment of the argument");
  for (int i = 0; i < n; i++) vs_close(msis::splint(x, y, y2, n, x[i]), y[i], 1e-9, "the spline passes through its nodes");
  double in = 0; // Simpson's rule is exact for a cubic
  for (int i = 0; i <= s; i++) { double e = i == s ? t : x[i + 1]; in += (e - x[i]) / 6 * (seg(x, y, y2, i, x[i]) + 4 * seg(x, y, y2, i, (x[i] + e) / 2) + seg(x, y, y2, i, e)); }
  vs_close(msis::splini(x, y, y2, n, t), in, 1e-8, "integral of the spline from its first node");
  vs_reach("end");
}
HARNESS(h_corr) {
  double z = vs_double("z", 0, 500), r = vs_double("r", -3, 3), zh = vs_double("zh", 50, 200);
  double h1 = vs_choice("h1", 2) ? 10 : 0.5, h2 = vs_choice("h2", 2) ? 10 : 25;
  double e1 = (z - zh) / h1, e2 = (z - zh) / h2;
  double c = msis::ccor(z, r, h1, zh), c2 = msis::ccor2(z, r, h1, zh, h2);
  // the transition is only computed within +-70 scale lengths; beyond it is complete to double precision
  if (e1 > 70) vs_close(c, 1, 1e-9, "no correction far above");
  else if (e1 < -70) vs_close(c, std::exp(r), 1e-6, "full correction far below");
  else vs_close(c, std::exp(r / (1 + std::exp(e1))), 1e-6, "chemistry correction");
  if (e1 > 70 || e2 > 70) vs_close(c2, 1, 1e-9, "no correction far above");
  else if (e1 < -70 && e2 < -70) vs_close(c2, std::exp(r), 1e-6, "full correction far below");
  else vs_close(c2, std::exp(r / (1 + 0.5 * (std::exp(e1) + std::exp(e2)))), 1e-6, "chemistry correction with two scales");
  vs_reach("end");
}
HARNESS(h_dnet) {
  double dd = vs_double("dd", 1e-2, 1e3), dm = vs_double("dm", 1e-2, 1e3), zhm = vs_double("zhm", 20, 100), xm = vs_choice("xm", 2) ? 28 : 4, xmm = 28.95;
  double a = zhm / (xmm - xm), d0 = dd, yl = a * std::log(dm / dd);
  double n = msis::dnet(dd, dm, zhm, xmm, xm);
  if (yl < -10) vs_close(n, d0, 1e-9, "diffusive density where it dominates");
  else if (yl > 10) vs_close(n, dm, 1e-9, "mixed density where it dominates");
  else vs_close(n / d0, std::pow(1 + std::exp(yl), 1 / a), 1e-6, "net density combines diffusive and mixed density");
  double z1 = 5, z2 = 7, o = 0;
  vs_close(msis::dnet(z1, o, zhm, xmm, xm), 5, 1e-12, "without mixed density the diffusive one");
  o = 0; vs_close(msis::dnet(o, z2, zhm, xmm, xm), 7, 1e-12, "without diffusive density the mixed one");
  vs_reach("end");
}

// NRLMSISE-00 expansions: an independent statement of the published G(L) functions, evaluated afresh on every call
struct Ref {
  double pl[4][9], cd14, cd18, cd32, cd39, dfa, apdf, apt, s1, c1, s2, c2, s3, c3;
  const double *sw, *sc;
  void legendre(double lat) {
    double x = std::sin(dso::deg2rad(lat)), s = std::cos(dso::deg2rad(lat));
    for (auto &r : pl) for (double &v : r) v = 0;
    double sm = 1, df = 1;
    for (int m = 0; m < 4; m++) { // P(m,m) = (2m-1)!! s^m, then upward in degree
      pl[m][m] = df * sm;
      pl[m][m + 1] = (2 * m + 1) * x * pl[m][m];
      for (int n = m + 2; n < 8; n++) pl[m][n] = ((2 * n - 1) * x * pl[m][n - 1] - (n + m - 1) * pl[m][n - 2]) / (n - m);
      sm = sm * s; df = df * (2 * m + 1);
    }
  }
  void common(const msis::InParamsCore &in, const double *p) {
    sw = in.sw.sw; sc = in.sw.swc;
    const double dr = 1.72142e-2, hr = 0.2618;
    cd14 = std::cos(dr * (in.doy - p[13])); cd18 = std::cos(2 * dr * (in.doy - p[17])); cd32 = std::cos(dr * (in.doy - p[31])); cd39 = std::cos(2 * dr * (in.doy - p[38]));
    s1 = std::sin(hr * in.lst); c1 = std::cos(hr * in.lst); s2 = std::sin(2 * hr * in.lst); c2 = std::cos(2 * hr * in.lst); s3 = std::sin(3 * hr * in.lst); c3 = std::cos(3 * hr * in.lst);
    dfa = in.f107A - 150;
    legendre(in.glat);
  }
  static double g0(double a, const double *p) { double k = std::abs(p[24]); return a - 4 + (p[25] - 1) * (a - 4 + (std::exp(-k * (a - 4)) - 1) / k); }
  double globe(const msis::InParamsCore &in, const double *p) {
    common(in, p);
    double t[14] = {0}, df = in.f107 - in.f107A;
    const double hr = 0.2618, sr = 7.2722e-5;
    bool arr = sw[8] < 0;
    t[0] = p[19] * df * (1 + p[59] * dfa) + p[20] * df * df + p[21] * dfa + p[29] * dfa * dfa;
    double f1 = 1 + (p[47] * dfa + p[19] * df + p[20] * df * df) * sc[0], f2 = 1 + (p[49] * dfa + p[19] * df + p[20] * df * df) * sc[0];
    t[1] = p[1] * pl[0][2] + p[2] * pl[0][4] + p[22] * pl[0][6] + p[14] * pl[0][2] * dfa * sc[0] + p[26] * pl[0][1];
    t[2] = p[18] * cd32;
    t[3] = (p[15] + p[16] * pl[0][2]) * cd18;
    t[4] = f1 * (p[9] * pl[0][1] + p[10] * pl[0][3]) * cd14;
    t[5] = p[37] * pl[0][1] * cd39;
    t[6] = f2 * ((p[3] * pl[1][1] + p[4] * pl[1][3] + p[27] * pl[1][5] + p[11] * pl[1][2] * cd14 * sc[4]) * c1 + (p[6] * pl[1][1] + p[7] * pl[1][3] + p[28] * pl[1][5] + p[12] * pl[1][2] * cd14 * sc[4]) * s1);
    t[7] = f2 * ((p[5] * pl[2][2] + p[41] * pl[2][4] + (p[23] * pl[2][3] + p[35] * pl[2][5]) * cd14 * sc[4]) * c2 + (p[8] * pl[2][2] + p[42] * pl[2][4] + (p[33] * pl[2][3] + p[36] * pl[2][5]) * cd14 * sc[4]) * s2);
    t[13] = f2 * ((p[39] * pl[3][3] + (p[93] * pl[3][4] + p[46] * pl[3][6]) * cd14 * sc[4]) * s3 + (p[40] * pl[3][3] + (p[94] * pl[3][4] + p[48] * pl[3][6]) * cd14 * sc[4]) * c3);
    if (!arr) {
      double a = in.ap - 4, k = p[43] < 0 ? 1e-5 : p[43];
      apdf = a + (p[44] - 1) * (a + (std::exp(-k * a) - 1) / k);
      t[8] = apdf * (p[32] + p[45] * pl[0][2] + p[34] * pl[0][4] + (p[100] * pl[0][1] + p[101] * pl[0][3] + p[102] * pl[0][5]) * cd14 * sc[4] +
                     (p[121] * pl[1][1] + p[122] * pl[1][3] + p[123] * pl[1][5]) * sc[6] * std::cos(hr * (in.lst - p[124])));
    } else if (p[51] != 0) {
      double ex = std::exp(-10800 * std::abs(p[51]) / (1 + p[138] * (45 - std::abs(in.glat))));
      if (ex > 0.99999) ex = 0.99999;
      double q[26]; q[24] = p[24] < 1e-4 ? 1e-4 : p[24]; q[25] = p[25];
      const double *ap = in.aparr.a;
      apt = (g0(ap[1], q) + g0(ap[2], q) * ex + g0(ap[3], q) * ex * ex + g0(ap[4], q) * std::pow(ex, 3.) + (g0(ap[5], q) * std::pow(ex, 4.) + g0(ap[6], q) * std::pow(ex, 12.)) * (1 - std::pow(ex, 8.)) / (1 - ex)) /
            (1 + (1 - std::pow(ex, 19.)) / (1 - ex) * std::pow(ex, 0.5));
      t[8] = apt * (p[50] + p[96] * pl[0][2] + p[54] * pl[0][4] + (p[125] * pl[0][1] + p[126] * pl[0][3] + p[127] * pl[0][5]) * cd14 * sc[4] +
                    (p[128] * pl[1][1] + p[129] * pl[1][3] + p[130] * pl[1][5]) * sc[6] * std::cos(hr * (in.lst - p[131])));
    }
    double gl = dso::deg2rad(in.glon), *P0 = pl[0], *P1 = pl[1], *P2 = pl[2];
    if (sw[9] != 0 && in.glon > -1000) {
      t[10] = (1 + p[80] * dfa * sc[0]) * ((p[64] * P1[2] + p[65] * P1[4] + p[66] * P1[6] + p[103] * P1[1] + p[104] * P1[3] + p[105] * P1[5] + sc[4] * (p[109] * P1[1] + p[110] * P1[3] + p[111] * P1[5]) * cd14) * std::cos(gl) +
                                           (p[90] * P1[2] + p[91] * P1[4] + p[92] * P1[6] + p[106] * P1[1] + p[107] * P1[3] + p[108] * P1[5] + sc[4] * (p[112] * P1[1] + p[113] * P1[3] + p[114] * P1[5]) * cd14) * std::sin(gl));
      t[11] = (1 + p[95] * P0[1]) * (1 + p[81] * dfa * sc[0]) * (1 + p[119] * P0[1] * sc[4] * cd14) * ((p[68] * P0[1] + p[69] * P0[3] + p[70] * P0[5]) * std::cos(sr * (in.sec - p[71]))) +
              sc[10] * (p[76] * P2[3] + p[77] * P2[5] + p[78] * P2[7]) * std::cos(sr * (in.sec - p[79]) + 2 * gl) * (1 + p[137] * dfa * sc[0]);
      if (!arr)
        t[12] = apdf * sc[10] * (1 + p[120] * P0[1]) * ((p[60] * P1[2] + p[61] * P1[4] + p[62] * P1[6]) * std::cos(dso::deg2rad(in.glon - p[63]))) +
                apdf * sc[10] * sc[4] * (p[115] * P1[1] + p[116] * P1[3] + p[117] * P1[5]) * cd14 * std::cos(dso::deg2rad(in.glon - p[118])) + apdf * sc[11] * (p[83] * P0[1] + p[84] * P0[3] + p[85] * P0[5]) * std::cos(sr * (in.sec - p[75]));
      else if (p[51] != 0)
        t[12] = apt * sc[10] * (1 + p[132] * P0[1]) * ((p[52] * P1[2] + p[98] * P1[4] + p[67] * P1[6]) * std::cos(dso::deg2rad(in.glon - p[97]))) +
                apt * sc[10] * sc[4] * (p[133] * P1[1] + p[134] * P1[3] + p[135] * P1[5]) * cd14 * std::cos(dso::deg2rad(in.glon - p[136])) + apt * sc[11] * (p[55] * P0[1] + p[56] * P0[3] + p[57] * P0[5]) * std::cos(sr * (in.sec - p[58]));
    }
    double r = p[30];
    for (int i = 0; i < 14; i++) r = r + std::abs(sw[i]) * t[i];
    return r;
  }
  double glob7s(const msis::InParamsCore &in, const double *p) { // after globe(): uses its apdf and apt
    double ap = apdf, at = apt;
    common(in, p);
    const double dr = 1.72142e-2;
    double t[14] = {0}, gl = dso::deg2rad(in.glon), *P0 = pl[0], *P1 = pl[1];
    t[0] = p[21] * dfa;
    t[1] = p[1] * P0[2] + p[2] * P0[4] + p[22] * P0[6] + p[26] * P0[1] + p[14] * P0[3] + p[59] * P0[5];
    t[2] = (p[18] + p[47] * P0[2] + p[29] * P0[4]) * cd32;
    t[3] = (p[15] + p[16] * P0[2] + p[30] * P0[4]) * cd18;
    t[4] = (p[9] * P0[1] + p[10] * P0[3] + p[20] * P0[5]) * cd14;
    t[5] = p[37] * P0[1] * cd39;
    t[6] = (p[3] * P1[1] + p[4] * P1[3] + p[11] * P1[2] * cd14 * sc[4]) * c1 + (p[6] * P1[1] + p[7] * P1[3] + p[12] * P1[2] * cd14 * sc[4]) * s1;
    t[7] = (p[5] * pl[2][2] + p[41] * pl[2][4] + (p[23] * pl[2][3] + p[35] * pl[2][5]) * cd14 * sc[4]) * c2 + (p[8] * pl[2][2] + p[42] * pl[2][4] + (p[33] * pl[2][3] + p[36] * pl[2][5]) * cd14 * sc[4]) * s2;
    t[13] = p[39] * pl[3][3] * s3 + p[40] * pl[3][3] * c3;
    t[8] = sw[8] < 0 ? p[50] * at + p[96] * P0[2] * at * sc[1] : ap * (p[32] + p[45] * P0[2] * sc[1]);
    if (sw[9] != 0 && sw[10] != 0 && in.glon > -1000)
      t[10] = (1 + P0[1] * (p[80] * sc[4] * std::cos(dr * (in.doy - p[81])) + p[85] * sc[5] * std::cos(2 * dr * (in.doy - p[86]))) + p[83] * sc[2] * std::cos(dr * (in.doy - p[84])) + p[87] * sc[3] * std::cos(2 * dr * (in.doy - p[88]))) *
              ((p[64] * P1[2] + p[65] * P1[4] + p[66] * P1[6] + p[74] * P1[1] + p[75] * P1[3] + p[76] * P1[5]) * std::cos(gl) + (p[90] * P1[2] + p[91] * P1[4] + p[92] * P1[6] + p[77] * P1[1] + p[78] * P1[3] + p[79] * P1[5]) * std::sin(gl));
    double r = 0;
    for (int i = 0; i < 14; i++) r = r + std::abs(sw[i]) * t[i];
    return r;
  }
};
static void inputs(msis::InParamsCore &in, int k) {
  static const int doys[3] = {172, 1, 366};
  in.year = 2020; in.doy = doys[vs_choice("doy", k ? 3 : 1)];
  in.sec = k ? vs_double("sec", 0, 86400) : 29000; in.alt = 400;
  in.glon = k ? vs_double("glon", -180, 360) : -70; in.f107A = k ? vs_double("f107A", 60, 300) : 150; in.f107 = k ? vs_double("f107", 60, 400) : 150; in.ap = k ? vs_double("ap", 0, 400) : 4;
  for (int i = 0; i < 7; i++) in.aparr.a[i] = k && i ? vs_double("apa", 0, 400) : 100;
}
static double *row(dso::Nrlmsise00 &m, int r) { return r == 0 ? m.pt : r == 1 ? m.ps : m.pd[r - 2]; }
static const double *rrow(int r) { return r == 0 ? ref_pt : r == 1 ? ref_ps : ref_pd[r - 2]; }
static const double *lrow(int r) { return r < 10 ? ref_pma[r] : ref_ptl[r - 10]; }
static double lats(double prev) { // the same latitude as before, or one that differs by more than a metre
  if (vs_choice("same_lat", 2)) return prev;
  double l = vs_double("glat", -90, 90);
  vs_assume(l > prev + 1e-5 || l < prev - 1e-5);
  return l;
}
// the second evaluation of a model object, after another object has been used at the same or another place and date
HARNESS(h_globe) {
  dso::Nrlmsise00 a, b;
  msis::InParamsCore i1, i2;
  inputs(i1, 0); inputs(i2, 1);
  i1.glat = 60; i1.lst = 16;
  int r = vs_choice("row", 11), q = r == 0 ? 3 : 0;
  i2.glat = lats(i1.glat);
  i2.lst = i1.lst;
  if (vs_choice("lst", 2)) { i2.lst = vs_double("lst", 0, 24); vs_assume(i2.lst > i1.lst + 1e-5 || i2.lst < i1.lst - 1e-5); }
  if (vs_choice("aparray", 2)) { i1.use_aparray(); i2.use_aparray(); }
  Ref f;
  bool same = vs_choice("same_object", 2);
  a.globe7(&i1, row(a, q));
  double v = same ? a.globe7(&i2, row(a, r)) : b.globe7(&i2, row(b, r));
  double w = f.globe(i2, rrow(r));
  vs_close(v, w, 1e-6, "expansion of the given inputs only, whatever was evaluated before");
  vs_reach("end");
}
HARNESS(h_glob7s) {
  dso::Nrlmsise00 a, b;
  msis::InParamsCore i1, i2;
  inputs(i1, 0); inputs(i2, 1);
  i1.glat = 60; i1.lst = 16;
  int r = vs_choice("row", 14);
  i2.glat = lats(i1.glat);
  i2.lst = vs_choice("lst", 2) ? 7 : i1.lst;
  if (vs_choice("aparray", 2)) { i1.use_aparray(); i2.use_aparray(); }
  Ref f;
  bool between = vs_choice("between", 2);
  a.globe7(&i1, a.pd[3]); a.glob7s(&i1, between ? r < 10 ? a.pma[r] : a.ptl[r - 10] : a.ptl[0]);
  b.globe7(&i2, b.pd[3]);
  if (between) b.glob7s(&i2, r == 10 ? b.pma[0] : b.ptl[0]);
  double v = b.glob7s(&i2, r < 10 ? b.pma[r] : b.ptl[r - 10]);
  f.globe(i2, ref_pd[3]);
  vs_close(v, f.glob7s(i2, lrow(r)), 1e-6, "lower atmosphere expansion of the given inputs only, whatever was evaluated before");
  vs_reach("end");
}

// one term of the expansions switched off
HARNESS(h_switch) {
  dso::Nrlmsise00 a;
  msis::InParamsCore in;
  inputs(in, 1);
  in.glat = vs_double("glat", -90, 90); in.lst = vs_double("lst", 0, 24);
  bool low = vs_choice("low", 2), arr = vs_choice("aparray", 2);
  if (arr) in.use_aparray();
  int off = vs_choice("off", 15);
  if (off < 14) { if (vs_choice("set", 2)) in.set_switch(off, 0); else in.sw.set_null(off); }
  Ref f;
  double v = a.globe7(&in, a.pd[4]), w = f.globe(in, ref_pd[4]);
  if (low) { v = a.glob7s(&in, a.pma[1]); w = f.glob7s(in, ref_pma[1]); }
  vs_close(v, w, 1e-6, "expansion with the terms that are switched on");
  vs_reach("end");
}
// the switch set after any sequence of operations
HARNESS(h_switches) {
  msis::InParamsCore in;
  double s[25], c[25];
  for (int i = 0; i < 25; i++) s[i] = c[i] = 1;
  for (int q = 0; q < 2 + VS_THOROUGH; q++) {
    int op = vs_choice("op", 8), k = 0;
    if (op > 2) { static const int at[4] = {0, 8, 11, 24}; k = at[vs_choice("k", 4)]; }
    if (op == 0) { in.set_switches_off(); for (int i = 0; i < 25; i++) s[i] = c[i] = 0; }
    if (op == 1) { in.set_switches_on(); for (int i = 0; i < 25; i++) s[i] = c[i] = 1; }
    if (op == 2) { in.use_aparray(); s[8] = -1; c[8] = 0; }
    if (op == 3) { in.sw.set_null(k); s[k] = c[k] = 0; }
    if (op == 4) { in.sw.set_on(k); s[k] = c[k] = 1; }
    if (op == 5) { in.set_switch(k, 0); s[k] = c[k] = 0; }
    if (op == 6) { in.set_switch(k, 1); s[k] = c[k] = 1; }
    if (op == 7) { in.set_switch(k, 2); s[k] = 0; c[k] = 1; }
  }
  for (int i = 0; i < 25; i++) {
    vs_same(in.sw.sw[i], s[i], "main effects switched as asked");
    vs_same(in.sw.swc[i], c[i], "cross terms switched as asked");
  }
  vs_reach("end");
}
// every coefficient of the model is the published one
static void entry(const double *p, const double *q, int n, const char *what) {
  double x = vs_double("factor", -1, 1); // of any term
  for (int i = 0; i < n; i++) vs_close(p[i] * x, q[i] * x, 1e-9, what);
}
HARNESS(h_rows) {
  dso::Nrlmsise00 m;
  int r = vs_choice("row", 25);
  if (r < 11) entry(row(m, r), rrow(r), 150, "published coefficient of temperature and densities");
  else entry(r < 21 ? m.pma[r - 11] : m.ptl[r - 21], lrow(r - 11), 100, "published coefficient of the lower atmosphere");
  vs_reach("end");
}
HARNESS(h_const) {
  dso::Nrlmsise00 m;
  int r = vs_choice("row", 12);
  if (r == 0) entry(m.ptm, ref_ptm, 10, "published temperature constants");
  else if (r == 1) entry(m.pavgm, ref_pavgm, 10, "published average temperatures");
  else if (r < 4) entry(m.pdl[r - 2], ref_pdl[r - 2], 25, "published turbopause and correction constants");
  else for (int i = 0; i < 10; i++) vs_close(m.pdm[r - 4][i] / (ref_pdm[r - 4][i] ? ref_pdm[r - 4][i] : 1), ref_pdm[r - 4][i] ? 1 : 0, 1e-9, "published density constants");
  vs_reach("end");
}
