// The variational equations: composition of the force models (stand-ins with symbolic results).
#define VS_FSTREAM_DISTINCT
#include "vs.h"
#include <cassert>
#include <cstring>
#include <cstdio>
#include <cmath>
#include "datetime/utcdates.hpp"
#include "variational_equations.cpp"
#include "gravity/harmonic_coeffs.cpp"
using namespace dso;
typedef Eigen::Matrix<double, 3, 3> M3;
typedef Eigen::Matrix<double, 3, 1> V3;
static double near(const char *n) { return vs_double(n, -2, 2); }
static double U[3][3], era_, qa, r[3], v[3], mjd, secUT;
static long dayUT;
static const double R0 = 7e6, W0 = 7.292115e-5;
static M3 m33(const double m[3][3]) { M3 a; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) a(i, j) = m[i][j]; return a; }
static V3 vec(const double *x) { return V3(x[0], x[1], x[2]); }
static int failWhat;
static double sq, cq;
// rc2i: rotation about the second axis, rpom: quarter turn about the first
int dso::gcrs2itrs(double t, const EopLookUpTable &, M3 &rc2i, double &era, M3 &rpom, double &xlod) noexcept {
  vs_close(t - 58000, mjd - 58000, 1e-9, "frames at the epoch");
  rc2i << cq, 0, -sq, 0, 1, 0, sq, 0, cq;
  rpom << 1, 0, 0, 0, 0, 1, 0, -1, 0;
  era = era_; xlod = 0.001;
  return 0;
}
V3 dso::rcel2ter(const V3 x, const M3 &, const double e, const M3 &) noexcept { vs_same(e, era_, "rotation angle of the epoch"); return V3(U[0][0] * x(0) + U[0][1] * x(1) + U[0][2] * x(2), U[1][0] * x(0) + U[1][1] * x(1) + U[1][2] * x(2), U[2][0] * x(0) + U[2][1] * x(1) + U[2][2] * x(2)); }
V3 dso::rter2cel(const V3 x, const M3 &, const double e, const M3 &) noexcept { vs_same(e, era_, "rotation angle of the epoch"); return V3(U[0][0] * x(0) + U[1][0] * x(1) + U[2][0] * x(2), U[0][1] * x(0) + U[1][1] * x(1) + U[2][1] * x(2), U[0][2] * x(0) + U[1][2] * x(1) + U[2][2] * x(2)); }
// gravity
static double g[3], G[3][3], rt[3];
int dso::lagrange_polynomials(double px, double py, double pz, double Re, int n, int m, Mat2D<MatrixStorageType::Trapezoid> &V, Mat2D<MatrixStorageType::Trapezoid> &W) noexcept {
  vs_assert(n == 4 && m == 4 && V.rows() == 5 && W.rows() == 5 && Re == 6378136.3, "degree and order of the gravity model");
  const double p[3] = {px, py, pz};
  for (int i = 0; i < 3; i++) vs_close(p[i] / R0, rt[i] / R0, 1e-9, "gravity at the Earth-fixed position");
  return 0;
}
V3 dso::grav_potential_accel(int n, int m, double Re, double GM, const Mat2D<MatrixStorageType::Trapezoid> &, const Mat2D<MatrixStorageType::Trapezoid> &, const HarmonicCoeffs &, M3 &P) noexcept {
  vs_assert(n == 2 && m == 2 && Re == 6378136.3 && GM == 3.9860044e14, "gravity model");
  P = m33(G);
  return vec(g);
}
// third bodies
static double gm[2], sa[3], ma[3], T[3][3];
int dso::get_sun_moon_GM(const char *k, double &s, double &m) noexcept { vs_assert(!std::strcmp(k, "pck"), "kernel of the gravitational parameters"); s = gm[0]; m = gm[1]; return 0; }
void dso::SunMoon(double t, const V3 &x, double gs, double gmn, V3 &as, V3 &am, V3 &sp, M3 &P) noexcept {
  vs_close(t - 58000, mjd - 58000, 1e-9, "Sun and Moon at the epoch");
  vs_same(gs, gm[0], "gravitational parameter of the Sun"); vs_same(gmn, gm[1], "gravitational parameter of the Moon");
  for (int i = 0; i < 3; i++) vs_same(x(i), r[i], "Sun and Moon act at the inertial position");
  as = vec(sa); am = vec(ma); sp = V3::Zero(); P = m33(T);
}
// attitude
int JasonQuaternionHunter::get_at(double t, Eigen::Quaternion<double> &q) noexcept {
  vs_close(t - 58000, mjd - 58000, 1e-9, "attitude at the epoch");
  q = Eigen::Quaternion<double>(std::cos(qa), 0, 0, std::sin(qa));
  return 0;
}
// atmosphere: density is a quadratic function of the Earth-fixed position; the ellipsoidal coordinates are linear in it
static double k[5];
extern "C" void vs_car2ell(const double *x, double *l) { l[0] = x[0] * 1e-7; l[1] = x[1] * 1e-7; l[2] = x[2]; }
int nrlmsise00::detail::Nrlmsise00DataFeed::update(InParamsCore &p) noexcept {
  ydoy_date yd = mjd2ydoy(dayUT);
  vs_assert(p.year == yd.__year.v && p.doy == yd.__doy.v, "atmosphere on the day of the epoch (UTC)");
  vs_close(p.sec * 1e-3, secUT * 1e-3, 2e-6, "atmosphere at the time of day of the epoch (UTC)");
  p.f107 = 5;
  return 0;
}
static double rho(const double *x) { return k[0] + (k[1] * x[0] + k[2] * x[1] + k[3] * x[2] + k[4] * x[0] * (x[1] / R0) + k[4] * x[2] * (x[2] / R0)) / R0; }
int Nrlmsise00::gtd7d(const nrlmsise00::detail::InParamsCore *p, nrlmsise00::OutParams *o, int ms) noexcept {
  vs_assert(ms == 48, "all species");
  const double D = 3.14159265358979323846 / 180;
  double x[3] = {p->glon * D * 1e7, p->glat * D * 1e7, p->alt * 1e3}, lst = p->lst - (p->sec / 3600 + p->glon / 15);
  vs_close(lst, 0, 1e-9, "local solar time of the position");
  vs_assert(p->f107 == 5, "atmosphere with the space weather of the epoch");
  for (double &d : o->d) d = 0;
  o->d[5] = rho(x);
  return 0;
}
// drag
static double da[3], DR[3][3], DV[3][3], DC[3], cd, mass, area;
V3 dso::drag_accel(const V3 &x, const V3 &y, double A, double C, double m, double rh, const V3 &dr, M3 &ddr, M3 &ddv, V3 &ddc) noexcept {
  for (int i = 0; i < 3; i++) { vs_same(x(i), r[i], "drag at the inertial position"); vs_same(y(i), v[i], "drag with the inertial velocity"); }
  vs_same(C, cd, "drag coefficient"); vs_same(m, mass, "satellite mass");
  vs_close(A, area, 1e-9, "area of the plates facing the flow");
  vs_close(rh, rho(rt), 1e-9, "density at the Earth-fixed position");
  double e[3], d[3] = {(k[1] + k[4] * (rt[1] / R0)) / R0, (k[2] + k[4] * (rt[0] / R0)) / R0, (k[3] + 2 * k[4] * (rt[2] / R0)) / R0};
  for (int i = 0; i < 3; i++) { e[i] = U[0][i] * d[0] + U[1][i] * d[1] + U[2][i] * d[2]; vs_close(dr(i) * R0, e[i] * R0, 1e-6, "gradient of the density in the inertial frame"); }
  ddr = m33(DR); ddv = m33(DV); ddc = vec(DC);
  return vec(da);
}
static char qh_[sizeof(JasonQuaternionHunter)], fd_[sizeof(nrlmsise00::InParams<nrlmsise00::detail::FluxDataFeedType::ST_CSV_SW>)], ms_[sizeof(Nrlmsise00)];
static void common() {
  qa = 0; cq = 1; sq = 0; era_ = 0;
  static const double one[3] = {0.7, -0.4, 0.55};
  for (int i = 0; i < 3; i++) { r[i] = R0 * one[i]; v[i] = 7e3 * one[(i + 1) % 3]; g[i] = 9 - i; sa[i] = 0.1 * i; ma[i] = 0.2 * i; da[i] = 0.01 * i; DC[i] = 0.5 + i; for (int j = 0; j < 3; j++) { G[i][j] = 1 + i * j; T[i][j] = 0.1 * (i + j); DR[i][j] = 0.2 * i; DV[i][j] = 0.3 * j; } }
  for (int i = 0; i < 5; i++) k[i] = 0.1 + i;
  cd = 2; mass = 500; gm[0] = 2; gm[1] = 3;
  mjd = 58000.5; secUT = 43200 - 37; dayUT = 58000;
}
static void setU() {
  double c = std::cos(era_), s = std::sin(era_);
  // W R3(era) Q with W = quarter turn about x, Q about y
  double RQ[3][3] = {{c * cq, s, -c * sq}, {-s * cq, c, s * sq}, {sq, 0, cq}};
  for (int j = 0; j < 3; j++) { U[0][j] = RQ[0][j]; U[1][j] = RQ[2][j]; U[2][j] = -RQ[1][j]; }
  for (int i = 0; i < 3; i++) rt[i] = U[i][0] * r[0] + U[i][1] * r[1] + U[i][2] * r[2];
}
static const double ONEPLATE[1][4] = {{2.5, 1, 0, 0}};
static void setArea(const MacroModelComponent *p, int n) {
  double w[3] = {v[0] + W0 * r[1], v[1] - W0 * r[0], v[2]}, h = std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
  double c = std::cos(2 * qa), s = std::sin(2 * qa); // turn about z by 2 qa
  area = 0;
  for (int i = 0; i < n; i++) {
    const double *m = p[i].m_normal;
    double d = ((c * m[0] + s * m[1]) * w[0] + (c * m[1] - s * m[0]) * w[1] + m[2] * w[2]) / h;
    if (d > 0) area = area + p[i].m_surf * d;
  }
}
static void run(double t0, double ts, const MacroModelComponent *mm, int n, const double F[42]) {
  static double eopm[1];
  EopLookUpTable eop(2);
  HarmonicCoeffs hc(2);
  hc.Re() = 6378136.3; hc.GM() = 3.9860044e14;
  IntegrationParameters P(2, 2, eop, hc, "pck");
  vs_same(P.GMSun, gm[0], "gravitational parameter of the Sun");
  P.mjd_tai = t0; P.macromodel = mm; P.numMacroModelComponents = n;
  P.qhunt = reinterpret_cast<JasonQuaternionHunter *>(qh_);
  P.AtmDataFeed = reinterpret_cast<nrlmsise00::InParams<nrlmsise00::detail::FluxDataFeedType::ST_CSV_SW> *>(fd_);
  P.nrlmsise00 = reinterpret_cast<Nrlmsise00 *>(ms_);
  P.AtmDataFeed->params_.lst = 99; P.AtmDataFeed->params_.f107 = 0; P.AtmDataFeed->params_.sec = 0; P.AtmDataFeed->params_.doy = 0; P.AtmDataFeed->params_.year = 0;
  P.SatMass = &mass; P.drag_coef = &cd;
  Eigen::VectorXd y(48), yp(48);
  for (int i = 0; i < 3; i++) { y(i) = r[i]; y(3 + i) = v[i]; }
  for (int i = 0; i < 42; i++) y(6 + i) = F[i];
  for (int i = 0; i < 48; i++) yp(i) = -77;
  VariationalEquations(ts, y, yp, P);
  double A[3][3];
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    double a = 0;
    for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) a += U[p][i] * G[p][q] * U[q][j];
    A[i][j] = a + T[i][j] + DR[i][j];
  }
  for (int i = 0; i < 3; i++) {
    vs_same(yp(i), v[i], "derivative of the position is the velocity");
    vs_close(yp(3 + i), U[0][i] * g[0] + U[1][i] * g[1] + U[2][i] * g[2] + sa[i] + ma[i] + da[i], 1e-9, "acceleration is gravity, Sun, Moon and drag in the inertial frame");
    for (int c = 0; c < 7; c++) {
      const double *f = F + 6 * c;
      vs_same(yp(6 + 6 * c + i), f[3 + i], "position rows of the derivative of the transition matrix");
      double s = c == 6 ? DC[i] : 0;
      for (int q = 0; q < 3; q++) s += A[i][q] * f[q] + DV[i][q] * f[3 + q];
      vs_close(yp(6 + 6 * c + 3 + i), s, 1e-8, "velocity rows of the derivative of the transition matrix: partials of all accelerations, sensitivity to the drag coefficient");
    }
  }
}
static double PHI[42];
static MacroModelComponent plates[4];
static int setPlates(bool many) {
  static const double N[4][4] = {{2.5, 1, 0, 0}, {1.25, -1, 0, 0}, {0.75, 0, 0.6, 0.8}, {3, 0, -1, 0}};
  for (int i = 0; i < 4; i++) { plates[i].m_surf = N[i][0]; for (int j = 0; j < 3; j++) plates[i].m_normal[j] = N[i][1 + j]; }
  return many ? 4 : 1;
}
// linear structure: all symbolic results of the force models, two rotation angles
HARNESS(h_linear) {
  common();
  for (int i = 0; i < 42; i++) PHI[i] = near("phi");
  for (int i = 0; i < 3; i++) { g[i] = near("g"); sa[i] = near("sun"); ma[i] = near("moon"); da[i] = near("drag"); DC[i] = near("dragC"); for (int j = 0; j < 3; j++) { G[i][j] = j < i ? G[j][i] : near("G"); T[i][j] = near("T"); DR[i][j] = near("dragR"); DV[i][j] = near("dragV"); } }
  era_ = vs_double("era", -7, 7);
  double a = vs_double("q", -1, 1); cq = std::cos(a); sq = std::sin(a);
  setU();
  int n = setPlates(false);
  setArea(plates, n);
  run(58000, 43200, plates, n, PHI);
  vs_reach("end");
}
// where the models are evaluated
HARNESS(h_where) {
  common();
  for (int i = 0; i < 42; i++) PHI[i] = i % 7 == 0;
  for (int i = 0; i < 3; i++) r[i] = R0 * vs_double("r", -1, 1);
  for (double &x : k) x = vs_double("k", 0.5, 2);
  era_ = vs_choice("turn", 2) ? 0 : vs_double("era", -7, 7);
  if (vs_choice("tilt", 2)) { double a = vs_double("q", -1, 1); cq = std::cos(a); sq = std::sin(a); }
  cd = vs_double("cd", 1, 3); mass = vs_double("mass", 100, 900); gm[0] = near("gms"); gm[1] = near("gmm");
  setU();
  plates[0].m_surf = 0;
  setArea(plates, 0);
  run(58000, 43200, plates, 0, PHI);
  vs_reach("end");
}
// area facing the flow
HARNESS(h_area) {
  common();
  for (int i = 0; i < 42; i++) PHI[i] = i % 7 == 0;
  qa = vs_choice("attitude", 2) ? vs_double("qa", -3, 3) : 0;
  // velocity relative to the rotating air: any direction in a plane, any speed
  double a = vs_double("direction", -7, 7), H = vs_double("speed", 2e3, 1e4), t = vs_choice("inclined", 2) ? 0.75 : 0;
  v[0] = H * std::cos(a) - W0 * r[1]; v[1] = H * std::sin(a) + W0 * r[0]; v[2] = t * H;
  setU();
  int n = setPlates(qa == 0);
  setArea(plates, n);
  run(58000, 43200, plates, n, PHI);
  vs_reach("end");
}
// epochs: any time of day, also where UTC is still on the day before
HARNESS(h_time) {
  common();
  for (int i = 0; i < 42; i++) PHI[i] = i % 7 == 0;
  static const long D[3] = {58000, 58119, 57388};
  long d = D[vs_choice("day", 3)];
  int part = vs_choice("part", 4);
  double ts = part == 0 ? vs_double("sec", 0.5, 60) : part == 1 ? vs_double("sec", 100, 86399) : part == 2 ? vs_double("sec", 86401, 86460) : -vs_double("sec", 1, 80000);
  bool late = vs_choice("start", 2);
  double t0 = late ? d + 0.25 : d;
  mjd = t0 + ts / 86400;
  secUT = (late ? 21600 : 0) + ts - dat(modified_julian_day(d)); dayUT = d;
  if (secUT < 0) { secUT += 86400; --dayUT; }
  if (secUT >= 86400) { secUT -= 86400; ++dayUT; }
  vs_assume(secUT > 0.01 && secUT < 86399.99);
  setU();
  int n = setPlates(false);
  setArea(plates, n);
  run(t0, ts, plates, n, PHI);
  vs_reach("end");
}
