// Station coordinates of a SINEX file extrapolated to an epoch.
#include "vs.h"
#include <cassert>
#include <cstring>
#include <cstdio>
#include "ids/get_pdop_crd.cpp"
using namespace dso;
typedef dso::datetime<dso::microseconds> DT;
// the file: four sites, one solution each
static const char *CODE[4] = {"DIOB", "DIOA", "THUB", "ADHC"};
static bool listed[4];
static int bad, badWhich, perm, failSite, failEst;
static double sta[4][3], vel[4][3];
static int day[4];
static long EPO[4] = {56293, 55197, 51544, 57023}, SEC[4] = {30000, 43200, 86399, 1};
int Sinex::parse_block_site_id(std::vector<sinex::SiteId> &v, int n, char **ids) noexcept {
  v.clear();
  if (failSite) return 1;
  for (int s = 0; s < 4; s++) {
    bool want = false;
    for (int i = 0; i < n; i++) want = want || !std::strcmp(ids[i], CODE[s]); // codes are null terminated strings
    if (!want || !listed[s]) continue;
    sinex::SiteId id; std::memset(&id, 0, sizeof id); std::strcpy(id.m_site_code, CODE[s]);
    v.push_back(id);
  }
  return 0;
}
// bad: 0 fine, 1 velocity missing, 2 position missing, 3 units of a position, 4 units of a velocity
static void put(std::vector<sinex::SolutionEstimate> &v, int s, int c, bool isv) {
  sinex::SolutionEstimate e; std::memset((void *)&e, 0, sizeof e);
  std::strcpy(e.m_param_type, isv ? "VELX  " : "STAX  "); e.m_param_type[3] = 'X' + c;
  std::strcpy(e.m_site_code, CODE[s]); std::strcpy(e.m_units, isv ? "m/y " : "m   ");
  e.m_epoch = isv ? DT(modified_julian_day(40000), microseconds(0)) : DT(modified_julian_day(EPO[day[s]]), microseconds(SEC[day[s]] * 1000000L));
  e.m_estimate = isv ? vel[s][c] : sta[s][c]; e.m_std_deviation = 77;
  if (bad && s == badWhich && c == bad % 3) {
    if (bad == (isv ? 1 : 2)) { std::strcpy(e.m_param_type, "XPO   "); e.m_estimate = -5; } // something else instead
    if (bad == (isv ? 4 : 3)) std::strcpy(e.m_units, isv ? "mm/y" : "mm  ");
  }
  v.push_back(e);
}
static void other(std::vector<sinex::SolutionEstimate> &v, int s) { // another parameter of the site
  sinex::SolutionEstimate e; std::memset((void *)&e, 0, sizeof e);
  std::strcpy(e.m_param_type, s & 1 ? "TROTOT" : "STA   "); std::strcpy(e.m_site_code, CODE[s]); std::strcpy(e.m_units, s & 1 ? "m   " : "m/y ");
  e.m_epoch = DT(modified_julian_day(45000), microseconds(7)); e.m_estimate = 1234; v.push_back(e);
}
int Sinex::parse_block_solution_estimate(std::vector<sinex::SolutionEstimate> &v, const std::vector<sinex::SiteId> &sites) noexcept {
  v.clear();
  if (failEst) return 1;
  for (int q = 0; q < 4; q++) {
    int s = perm == 1 || perm == 2 ? 3 - q : q;
    bool want = false;
    for (const auto &i : sites) want = want || !std::strncmp(i.m_site_code, CODE[s], 4);
    if (!want) continue;
    if (perm == 3) other(v, s);
    for (int c = 0; c < 3; c++) put(v, s, perm == 2 ? 2 - c : c, perm == 1);
    for (int c = 0; c < 3; c++) put(v, s, c, perm != 1);
    if (perm == 3 && s & 1) other(v, s);
  }
  return 0;
}
static void setup() {
  bad = badWhich = perm = failSite = failEst = 0;
  for (int s = 0; s < 4; s++) {
    listed[s] = true; day[s] = s;
    for (int c = 0; c < 3; c++) { sta[s][c] = vs_double("sta", -7e6, 7e6); vel[s][c] = vs_double("vel", -0.2, 0.2); }
  }
}
static void check(const char *want[], int n, const DT &t, bool strict, bool viaVector) {
  std::vector<BeaconStation> st;
  char buf[4][5]; char *ids[4];
  BeaconCoordinates arr[5];
  std::vector<BeaconCoordinates> res;
  for (auto &a : arr) { std::memset(a.id, 0, 5); a.x = a.y = a.z = -7; }
  for (int i = 0; i < n; i++) {
    BeaconStation b; std::memset((void *)&b, 'q', sizeof b); std::memcpy(b.m_station_id, want[i], 4); st.push_back(b);
    std::strcpy(buf[i], want[i]); ids[i] = buf[i];
  }
  int got = -1, err;
  { // results of an earlier call must not survive
    BeaconCoordinates old; old.x = old.y = old.z = 1; res.push_back(old);
  }
  const BeaconCoordinates *out;
  long live = vs_heap_live();
  if (viaVector) { err = extrapolate_sinex_coordinates("f.snx", st, t, res, strict); got = res.size(); out = res.data(); }
  else { err = extrapolate_sinex_coordinates("f.snx", ids, n, t, arr, got, strict); out = arr; }
  bool fileBad = failSite || failEst, missing = false, broken = false;
  int exp[4], ne = 0;
  for (int i = 0; i < n; i++) {
    int s = -1;
    for (int k = 0; k < 4; k++) if (!std::strcmp(want[i], CODE[k]) && listed[k]) s = k;
    if (s < 0) missing = true;
    else if (bad && s == badWhich) broken = true;
    else exp[ne++] = s;
  }
  if (fileBad) { vs_assert(err != 0, "an unreadable file is an error"); vs_stop(); }
  if (strict && (missing || broken)) { vs_assert(err != 0, "a site without coordinates is an error when every site is asked for"); vs_stop(); }
  if (broken && err) vs_stop(); // unusable estimates may be an error or leave the site out
  vs_assert(err == 0, "sites that may be missing are no error");
  vs_assert(got == ne, "coordinates of exactly the sites in the file");
  for (int i = 0; i < ne; i++) {
    int s = exp[i];
    vs_assert(!std::strncmp(out[i].id, CODE[s], 4) && out[i].id[4] == 0, "sites in the order asked for, with their codes");
    double dt = ((double)t.mjd().as_underlying_type() + (double)t.sec().as_underlying_type() / 86400e6 - (double)EPO[day[s]] - (double)SEC[day[s]] / 86400.) / 365.25;
    const double p[3] = {out[i].x, out[i].y, out[i].z};
    for (int c = 0; c < 3; c++) vs_close(p[c], sta[s][c] + vel[s][c] * dt, 2e-8, "position at the epoch from position and velocity of the site");
  }
}
static DT epoch() {
  static const long D[3] = {58849, 50000, 57023}, S[3] = {30, 86399, 1};
  int k = vs_choice("epoch", 3);
  return DT(modified_julian_day(D[k]), microseconds(S[k] * 1000000L));
}
HARNESS(h_extrapolate) {
  setup();
  static const char *W[5][3] = {{"DIOB", "DIOA", "ADHC"}, {"ADHC", "THUB", "DIOA"}, {"THUB", 0, 0}, {"DIOA", "XXXX", "THUB"}, {"XXXX", "YYYY", "DIOB"}};
  int w = vs_choice("sites", 5);
  int un = vs_choice("not listed", 5);
  if (un) listed[un - 1] = false;
  perm = vs_choice("order in the file", 4);
  DT t = epoch();
  bool strict = vs_choice("strict", 2), vec = vs_choice("vector", 2);
  check(W[w], W[w][1] ? 3 : 1, t, strict, vec);
  vs_reach("end");
}
HARNESS(h_broken) {
  setup();
  static const char *W[3] = {"DIOA", "DIOB", "THUB"};
  int k = vs_choice("what", 6);
  if (k < 4) { bad = k + 1; badWhich = vs_choice("site", 3); } else if (k == 4) failSite = 1; else failEst = 1;
  if (vs_choice("not listed", 2)) listed[vs_choice("which", 3)] = false;
  perm = vs_choice("order in the file", 4);
  DT t = epoch();
  bool strict = vs_choice("strict", 2), vec = vs_choice("vector", 2);
  check(W, 3, t, strict, vec);
  vs_reach("end");
}
