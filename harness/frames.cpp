// Celestial/terrestrial frames, third bodies and SPICE kernels.
#define VS_FSTREAM_DISTINCT
#include "vs.h"
#include <cassert>
#include <cstring>
#include <cstdio>
#include <cmath>
#include "itrs2gcrs.cpp"
#include "sunmoon.cpp"
#include "planets/cspice_utils.cpp"
using namespace dso;
typedef Eigen::Matrix<double, 3, 3> M3;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 6, 1> V6;

// ---- rotations: Q and W are rotations about one axis with a symbolic angle
struct Rot { double m[3][3]; };
static Rot rot(int axis, double a) { // frame rotation
  Rot r; double c = std::cos(a), s = std::sin(a);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = i == j;
  int p = (axis + 1) % 3, q = (axis + 2) % 3;
  r.m[p][p] = c; r.m[q][q] = c; r.m[p][q] = s; r.m[q][p] = -s;
  return r;
}
static Rot mul(const Rot &a, const Rot &b) { Rot r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r.m[i][j] = 0; for (int k = 0; k < 3; k++) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
static M3 eig(const Rot &r) { M3 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = r.m[i][j]; return m; }
HARNESS(h_frames) {
  int ax = vs_choice("axis of the pole", 2), wx = vs_choice("axis of polar motion", 2);
  double era = vs_double("era", -7, 7), lod = vs_double("lod", -0.01, 0.01);
  Rot Q = rot(ax, vs_double("q", -1, 1)), W = rot(wx, vs_double("w", -1, 1)), S = rot(2, era), A = mul(W, mul(S, Q));
  Rot D; // d R3(era)/d era
  for (auto &r : D.m) for (double &v : r) v = 0;
  D.m[0][0] = D.m[1][1] = -std::sin(era); D.m[0][1] = std::cos(era); D.m[1][0] = -std::cos(era);
  Rot B = mul(W, mul(D, Q));
  const double om = 7.292115e-5 * (1e0 - lod / 86400e0), K = 1e-4;
  M3 q = eig(Q), w = eig(W);
  double y[6];
  for (int i = 0; i < 3; i++) y[i] = vs_double("r", -2, 2);
  for (int i = 3; i < 6; i++) y[i] = K * vs_double("v", -2, 2);
  V6 Y; Y << y[0], y[1], y[2], y[3], y[4], y[5];
  V3 R(Y.block<3, 1>(0, 0));
  int op = vs_choice("op", 4);
  if (op == 0) {
    V3 t = rcel2ter(R, q, era, w);
    for (int i = 0; i < 3; i++) vs_close(t(i), A.m[i][0] * y[0] + A.m[i][1] * y[1] + A.m[i][2] * y[2], 1e-9, "celestial to terrestrial position: W R3(ERA) Q");
  } else if (op == 1) {
    V3 t = rter2cel(R, q, era, w);
    for (int i = 0; i < 3; i++) vs_close(t(i), A.m[0][i] * y[0] + A.m[1][i] * y[1] + A.m[2][i] * y[2], 1e-9, "terrestrial to celestial position is the inverse");
  } else if (op == 2) {
    V6 t = ycel2ter(Y, q, era, lod, w);
    for (int i = 0; i < 3; i++) {
      double r = 0, v = 0;
      for (int k = 0; k < 3; k++) { r += A.m[i][k] * y[k]; v += A.m[i][k] * y[3 + k] + om * B.m[i][k] * y[k]; }
      vs_close(t(i), r, 1e-9, "position of a state"); vs_close(t(3 + i) / K, v / K, 1e-9, "velocity is the time derivative of the position in the rotating frame");
    }
  } else {
    V6 t = yter2cel(Y, q, era, lod, w);
    for (int i = 0; i < 3; i++) {
      double r = 0, v = 0;
      for (int k = 0; k < 3; k++) { r += A.m[k][i] * y[k]; v += A.m[k][i] * y[3 + k] + om * B.m[k][i] * y[k]; }
      vs_close(t(i), r, 1e-9, "position of a state"); vs_close(t(3 + i) / K, v / K, 1e-9, "velocity is the time derivative of the position in the celestial frame");
    }
  }
  vs_reach("end");
}

// ---- the rotation parameters of an epoch; models are stand-ins that check their arguments
static int eopFail;
static double eo[8], eMjd, tt0, ut0, px, py, ps, sp, xx, xy, xs;
static double near2(double d1, double d2) { return (d1 - 2400000.5) + d2; }
int EopLookUpTable::interpolate(double mjd, EopRecord &r, int order) const noexcept {
  eMjd = mjd;
  vs_assert(order == 5, "order of the interpolation");
  if (eopFail) return eopFail;
  r.mjd = mjd; r.xp = eo[0]; r.yp = eo[1]; r.dut = eo[2]; r.lod = eo[3]; r.dx = eo[4]; r.dy = eo[5]; r.omega = eo[6];
  return 0;
}
static void isTT(double a, double b, const char *l) { vs_close(near2(a, b) - 58000, tt0 - 58000, 1e-9, l); }
void iers2010::sofa::xy06(double a, double b, double &x, double &y) noexcept { isTT(a, b, "pole series at the terrestrial time"); x = xx; y = xy; }
double iers2010::sofa::s06(double a, double b, double x, double y) noexcept { isTT(a, b, "CIO locator at the terrestrial time"); vs_same(x, xx, "CIO locator of the model pole"); vs_same(y, xy, "CIO locator of the model pole"); return xs; }
double iers2010::sofa::era00(double a, double b) noexcept { vs_close(near2(a, b) - 58000, ut0 - 58000, 1e-9, "Earth rotation angle at UT1"); return 3 * (near2(a, b) - 58000); }
double iers2010::sofa::sp00(double a, double b) noexcept { isTT(a, b, "s' at the terrestrial time"); return sp; }
M3 iers2010::sofa::c2ixys_e(double x, double y, double s) noexcept { M3 m = M3::Zero(); m(0, 1) = x; m(1, 2) = y; m(2, 0) = s; return m; }
M3 iers2010::sofa::pom00_e(double x, double y, double s) noexcept { M3 m = M3::Zero(); m(1, 0) = x; m(2, 1) = y; m(0, 2) = s; return m; }
HARNESS(h_epoch) {
  eopFail = vs_choice("fail", 3) == 1 ? 1 : 0;
  static const char *nm[7] = {"xp", "yp", "dut", "lod", "dx", "dy", "omega"};
  for (int i = 0; i < 7; i++) eo[i] = vs_double(nm[i], -0.9, 0.9);
  xx = vs_double("X", -1e-3, 1e-3); xy = vs_double("Y", -1e-3, 1e-3); xs = vs_double("s", -1e-3, 1e-3); sp = vs_double("sp", -1e-3, 1e-3);
  static const int DAY[3] = {58000, 57754, 57204};
  int d = DAY[vs_choice("day", 3)], part = vs_choice("part of the day", 3);
  double sec = part == 0 ? vs_double("sec", 0, 60) : part == 1 ? vs_double("sec", 3600, 80000) : vs_double("sec", 86370, 86399.9999);
  double f = sec / 86400, mjd = d + f;
  tt0 = d + f + 32.184 / 86400;
  int leap = dat(modified_julian_day(d));
  if (d != 58000 && part == 0) {
    vs_assume(sec > leap + 1e-3 || sec < leap - 1 - 1e-3); // not within the leap second
    if (sec < leap) leap -= 1; // still the UTC day before
  }
  ut0 = d + f - leap / 86400. + eo[2] / 86400;
  EopLookUpTable t(2);
  M3 q, w; double era = 7, lod = 7;
  int st = gcrs2itrs(mjd, t, q, era, w, lod);
  vs_assert((st == 0) == !eopFail, "fails exactly when there are no Earth orientation parameters");
  if (eopFail) vs_stop();
  vs_close(eMjd - 58000, tt0 - 58000, 1e-9, "Earth orientation at the terrestrial time");
  vs_same(lod, eo[3], "length of day of the epoch");
  vs_close((era) / 3, ut0 - 58000, 1e-9, "Earth rotation angle at UT1");
  const double A = 3.14159265358979323846 / 648000;
  const double qe[3][3] = {{0, (xx + eo[4] * A) , 0}, {0, 0, (xy + eo[5] * A)}, {xs, 0, 0}}, we[3][3] = {{0, 0, sp}, {eo[0] * A, 0, 0}, {0, eo[1] * A, 0}};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    vs_close(q(i, j) * 1e3, qe[i][j] * 1e3, 1e-10, "celestial to intermediate matrix of the corrected pole"); vs_close(w(i, j) * 1e3, we[i][j] * 1e3, 1e-10, "polar motion matrix, angles in radians");
  }
  vs_reach("end");
}

// ---- third bodies
static double body[2][3], etWant;
SpiceDouble unitim_c(SpiceDouble e, const char *i, const char *o) { vs_assert(!std::strcmp(i, "JDTDT") && !std::strcmp(o, "ET"), "time systems"); return e - 2458000; }
void spkezp_c(SpiceInt t, SpiceDouble et, const char *ref, const char *ab, SpiceInt obs, SpiceDouble p[3], SpiceDouble *lt) {
  vs_assert(t == 10 || t == 301, "Sun and Moon"); vs_assert(obs == 399, "positions are geocentric"); vs_assert(!std::strcmp(ref, "J2000") && !std::strcmp(ab, "NONE"), "inertial frame");
  vs_close(et, etWant, 1e-8, "positions at the ephemeris time");
  for (int i = 0; i < 3; i++) p[i] = body[t == 301][i];
  *lt = 1;
}
static double um[3][3];
Eigen::Matrix<double, 3, 1> dso::point_mass_accel(double GM, const V3 &r, const V3 &s) noexcept { // stand-in: inverse square law per component
  V3 d; for (int i = 0; i < 3; i++) { double x = s(i) - r(i); d(i) = GM / (x * x); }
  return d;
}
Eigen::Matrix<double, 3, 1> dso::point_mass_accel(double GM, const V3 &r, const V3 &s, M3 &p) noexcept {
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) p(i, j) = i == j ? GM / ((s(i) - r(i)) * (s(i) - r(i)) * (s(i) - r(i))) : 0;
  return point_mass_accel(GM, r, s);
}
HARNESS(h_sunmoon) {
  int d = vs_choice("day", 2) ? 58000 : 59215;
  double f = vs_double("fraction", 0, 0.99999999), mjd = d + f;
  etWant = (d - 57999.5) + f + 32.184 / 86400;
  double r[3];
  const double km = 1e3;
  for (int i = 0; i < 3; i++) { r[i] = 1e6 * vs_double("r", -9, 9); body[0][i] = 1e8 * vs_double("sun", 0.5, 1.6) * (vs_choice("sign", 2) ? 1 : -1); body[1][i] = 1e5 * vs_double("moon", 1, 4); }
  double gs = 1.32712440018e11 * vs_double("gs", 0.9, 1.1), gm = 4902.8 * vs_double("gm", 0.9, 1.1);
  V3 R(r), as, am, ps; M3 P;
  SunMoon(mjd, R, gs, gm, as, am, ps, P);
  for (int i = 0; i < 3; i++) {
    double xs = body[0][i] * km - r[i], xm = body[1][i] * km - r[i];
    vs_close(ps(i) * 1e-9, body[0][i] * km * 1e-9, 1e-9, "position of the Sun in metres");
    vs_close(as(i) * xs * xs * 1e-20, gs * 1e9 * 1e-20, 1e-9, "acceleration by the Sun in metres per square second");
    vs_close(am(i) * xm * xm * 1e-12, gm * 1e9 * 1e-12, 1e-9, "acceleration by the Moon in metres per square second");
    for (int j = 0; j < 3; j++) vs_close(P(i, j) * xm * xm * xm * 1e-12, i == j ? gm * 1e9 * 1e-12 : 0, 1e-9, "partials of the Moon's acceleration");
  }
  vs_reach("end");
}

// ---- positions for a date
HARNESS(h_body_at) {
  int d = vs_choice("day", 2) ? 58000 : 59215;
  static const long NS[4] = {0, 1, 43200000000000L, 86399999999999L};
  long ns = NS[vs_choice("time", 4)];
  double r[3] = {0, 0, 0};
  bool moon = vs_choice("Moon", 2);
  for (int i = 0; i < 3; i++) for (int b = 0; b < 2; b++) body[b][i] = vs_double("x", -2e8, 2e8);
  dso::datetime<dso::nanoseconds> t{dso::modified_julian_day(d), dso::nanoseconds(ns)};
  etWant = (d - 57999.5) + (double)ns / 86400e9;
  vs_assert((moon ? moon_vector_cspice(t, r) : sun_vector_cspice(t, r)) == 0, "status");
  for (int i = 0; i < 3; i++) vs_same(r[i], body[moon][i], "position of the body asked for");
  vs_reach("end");
}

// ---- kernels: loaded exactly once
static const char *NAMES[4] = {"de421.bsp", "de421.bsp.old", "de421", "naif0012.tls"};
static int nload, ld[8], ldKind[8];
static int kindOf(const char *k) { return !std::strcmp(k, "text") ? 0 : !std::strcmp(k, "spk") ? 1 : !std::strcmp(k, "pck") ? 2 : 3; }
static int now;
void furnsh_c(const char *f) { int k = 3; for (int i = 0; i < 4; i++) if (!std::strcmp(f, NAMES[i])) k = i; ld[nload] = k; ldKind[nload] = now; ++nload; }
void ktotal_c(const char *k, SpiceInt *n) { vs_assert(kindOf(k) == now, "kernels of the kind asked for"); *n = 0; for (int i = 0; i < nload; i++) *n += ldKind[i] == now; }
void kdata_c(SpiceInt w, const char *k, SpiceInt fl, SpiceInt tl, SpiceInt sl, SpiceChar *file, SpiceChar *ft, SpiceChar *src, SpiceInt *h, SpiceBoolean *found) {
  vs_assert(kindOf(k) == now, "kernels of the kind asked for");
  int j = -1;
  for (int i = 0; i < nload; i++) if (ldKind[i] == now && w-- == 0) j = i;
  *found = j >= 0;
  if (j < 0) return; // as CSPICE: the outputs are not set
  vs_assert((int)std::strlen(NAMES[ld[j]]) < fl && tl > 0 && sl > 0, "buffer lengths");
  std::strcpy(file, NAMES[ld[j]]); ft[0] = src[0] = 0; *h = 0;
}
static double GM[2];
void bodvrd_c(const char *b, const char *i, SpiceInt m, SpiceInt *n, SpiceDouble *v) { vs_assert(!std::strcmp(i, "GM") && m == 1, "gravitational parameter"); *n = 1; *v = GM[!std::strcmp(b, "MOON")]; }
HARNESS(h_kernels) {
  nload = 0;
  bool have[3][4] = {};
  int nk = vs_choice("kind", 3);
  GM[0] = vs_double("gmsun", 1, 2); GM[1] = vs_double("gmmoon", 1, 2);
  for (int step = 0; step < 3; step++) {
    int kind = step == 1 ? (nk + vs_choice("other", 2)) % 3 : nk, name = vs_choice("name", 4);
    now = kind;
    int before = nload;
    int st;
    if (kind == 2 && vs_choice("gm", 2)) { double a = 0, b = 0; st = get_sun_moon_GM(NAMES[name], a, b); vs_same(a, GM[0], "Sun"); vs_same(b, GM[1], "Moon"); }
    else st = kind == 0 ? cspice::load_if_unloaded_lsk(NAMES[name]) : kind == 1 ? cspice::load_if_unloaded_spk(NAMES[name]) : cspice::load_if_unloaded_pck(NAMES[name]);
    vs_assert(st == 0, "status");
    if (have[kind][name]) vs_assert(nload == before, "a kernel that is loaded is not loaded again");
    else { vs_assert(nload == before + 1, "a kernel that is not loaded is loaded"); vs_assert(ld[before] == name, "the kernel asked for is loaded"); }
    have[kind][name] = true;
  }
  if (vs_choice("no kernel", 2)) { int before = nload; double a = 0, b = 0; vs_assert(get_sun_moon_GM(nullptr, a, b) == 0, "status"); vs_same(a, GM[0], "Sun"); vs_same(b, GM[1], "Moon"); vs_assert(nload == before, "without a name nothing is loaded"); }
  vs_reach("end");
}
