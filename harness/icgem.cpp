// Reading of ICGEM gravity field models.
#ifdef MODEL
#define VS_FSTREAM_DISTINCT
#endif
#include "vs.h"
#include <cstring>
#include <string>
#include <fstream>
#include <cmath>
#ifdef VAR_COPY
#include "var/icgem/src/icgemio.hpp"
#include "var/icgem/src/harmonic_coeffs.cpp"
#include "var/icgem/src/icgemio_rdhead.cpp"
#include "var/icgem/src/icgemio_rddata.cpp"
#else
#include "icgemio.hpp"
#include "gravity/harmonic_coeffs.cpp"
#include "gravity/icgemio_rdhead.cpp"
#include "gravity/icgemio_rddata.cpp"
#endif
using dso::HarmonicCoeffs;
using dso::Icgem;

static char buf[8192];
static long len;
static void put(const char *s) { while (*s) buf[len++] = *s++; }
static void nl() { buf[len++] = '\n'; }
static void sp(int n) { while (n-- > 0) buf[len++] = ' '; }
static double tok(int w, int p, char f, const char *n, double lo, double hi) { double v = vs_numtok(buf + len, w, p, f, n, lo, hi); len += w; return v; }
static int dig(const char *n) { char c = vs_char(n, "0123456789"); buf[len++] = c; return c - '0'; }

static const char *NORMS[4] = {"fully_normalized", "unnormalized", "fully_normalize", "fully_normalized_x"};

static void num2(int v) { if (v > 9) buf[len++] = (char)('0' + v / 10); buf[len++] = (char)('0' + v % 10); }
struct Head { double gm, re; int deg; bool norm; };

static void header(Head &h, int maxdeg, int lead, int trail, int order, int normk, int extra, int digits) {
  put("generated by a model centre"); nl();
  put("some free text about the model"); nl();
  if (extra) nl();
  put("begin_of_head ============================"); nl();
  for (int q = 0; q < 6; q++) {
    int k = order == 0 ? q : order == 1 ? 5 - q : (q + 3) % 6;
    sp(lead);
    switch (k) {
    case 0: put("product_type"); sp(1 + lead); put("gravity_field"); break;
    case 1: put("modelname"); sp(4); put("EIGEN-6C4"); break;
    case 2: put("earth_gravity_constant"); sp(1 + lead); h.gm = tok(20, 10, 'E', "gm", 1e14, 9e14); break;
    case 3: put("radius"); sp(2); h.re = tok(16, 4, 'f', "re", 6000000, 7000000); break;
    case 4: put("max_degree"); sp(3);
      if (digits) { h.deg = 0; for (int i = 0; i < digits; i++) h.deg = 10 * h.deg + dig("dg"); vs_assume(h.deg > 0); }
      else { num2(maxdeg); h.deg = maxdeg; }
      break;
    case 5:
      if (normk == 4) { put("errors"); sp(2); put("calibrated"); h.norm = true; break; }
      put("norm"); sp(1 + lead); put(NORMS[normk]); h.norm = normk == 0; break;
    }
    sp(trail);
    nl();
  }
  if (extra) { put("errors    formal"); sp(trail); nl(); put("tide_system   zero_tide"); sp(trail); nl(); put("key  L  M  C  S  sigma"); nl(); }
  put("end_of_head =============================="); nl();
}

HARNESS(h_head) {
  len = 0;
  Head h;
  int lead = vs_choice("lead", 2) * 3;
  int trail = vs_choice("trail", 3);
  header(h, 4, lead, trail, vs_choice("order", 3), vs_choice("norm", 5), vs_choice("extra", 2), vs_choice("digits", 4) + 1);
  put("gfc    0    0   1.0  0.0"); nl();
  Icgem g(vs_file("model.gfc", buf, len));
  vs_assert(g.parse_header() == 0, "well-formed header is accepted");
  vs_same(g.gm(), h.gm, "gravity constant is the one in the file");
  vs_same(g.earth_radius(), h.re, "radius is the one in the file");
  vs_assert(g.degree() == h.deg, "degree is the one in the file");
#ifndef VAR_COPY
  vs_assert(g.is_normalized() == h.norm, "normalisation is the one in the file");
#endif
  vs_obs_d("gm", g.gm()); vs_obs_i("deg", g.degree());
  vs_reach("end");
}
HARNESS(h_head_bad) {
  len = 0;
  Icgem missing("/nonexistent/dir/file.gfc");
  vs_assert(missing.parse_header() != 0, "missing file is an error");
  int k = vs_choice("kind", 5);
  put("begin_of_head"); nl();
  put("product_type gravity_field"); nl();
  if (k == 0) put("earth_gravity_constant abc"); else put("earth_gravity_constant 3.986e14");
  nl();
  if (k == 1) put("radius none"); else put("radius 6378136.3");
  nl();
  if (k == 2) put("max_degree x"); else if (k == 4) put("max_degree 0"); else put("max_degree 2");
  nl();
  if (k != 3) { put("end_of_head"); nl(); }
  Icgem g(vs_file("bad.gfc", buf, len));
  vs_assert(g.parse_header() != 0, "malformed or unterminated header is refused");
  vs_reach("end");
}

// ---- data section ----
static const int LM = 3;
static double tc[14][14], ts[14][14];
static int style;
static void coef(int l, int m) {
  put("gfc "); sp(style == 0 ? 3 : 0); num2(l); sp(style == 0 ? 4 : 1); num2(m); sp(1);
  tc[l][m] = tok(20, 12, 'E', "C", -9, 9); sp(1);
  if (m) ts[l][m] = tok(20, 12, 'E', "S", -9, 9); else { ts[l][m] = 0; put("0.000000000000E+00"); }
  if (style == 1) put(" 1.2E-10 3.4E-10");
}
static void checkall(HarmonicCoeffs &hc, int l, int m, int miss1) {
  for (int i = 0; i <= l; i++)
    for (int j = 0; j <= i && j <= m; j++) {
      if (miss1 && i == 1) { vs_same(hc.C(i, j), 0, "missing degree-one terms are zero"); if (j) vs_same(hc.S(i, j), 0, "missing degree-one terms are zero"); continue; }
      vs_same(hc.C(i, j), tc[i][j], "C(l,m) is the value written for (l,m)");
      if (j) vs_same(hc.S(i, j), ts[i][j], "S(l,m) is the value written for (l,m)");
    }
}
// complete model of degree D, read to (l,m); rows in several orders; optional newline at the end
HARNESS(h_data) {
  len = 0;
  int D = VS_THOROUGH ? vs_choice("D", LM) + 1 : LM - vs_choice("D", 2);
  int l = vs_choice("l", D + 1), m = vs_choice("m", D + 1);
  vs_assume(m <= l);
  style = vs_choice("style", 2);
  int ord = vs_choice("ord", 3), endnl = vs_choice("nl", 2), noise = vs_choice("noise", 2);
  Head h;
  header(h, D, 0, 0, 0, 0, 0, 0);
  int n = 0, tot = (D + 1) * (D + 2) / 2;
  for (int q = 0; q < tot; q++) {
    // canonical / reverse / by order
    int want = ord == 1 ? tot - 1 - q : q, i = 0, j = 0, c = 0;
    if (ord < 2) { for (i = 0; i <= D; i++) { for (j = 0; j <= i; j++) { if (c == want) break; ++c; } if (j <= i) break; } }
    else { for (j = 0; j <= D; j++) { for (i = j; i <= D; i++) { if (c == want) break; ++c; } if (i <= D) break; } }
    if (noise && q == 1) { put("gfct   1    0  9.9E+00 0.0E+00 20050101"); nl(); put("trnd   2    0  8.8E+00 0.0E+00"); nl(); nl(); }
    coef(i, j); ++n;
    if (q + 1 < tot || endnl) nl();
  }
  Icgem g(vs_file("data.gfc", buf, len));
  vs_assert(g.parse_header() == 0, "header parsed");
  HarmonicCoeffs hc(D + vs_choice("cap", 2));
  vs_assert(g.parse_data(l, m, &hc) == 0, "complete model is read");
#ifndef VAR_COPY
  vs_same(hc.GM(), g.gm(), "GM handed to the coefficients");
  vs_same(hc.Re(), g.earth_radius(), "radius handed to the coefficients");
  vs_assert(hc.normalized() == g.is_normalized(), "normalisation handed to the coefficients");
#endif
  checkall(hc, l, m, 0);
  vs_obs_d("c", hc.C(l, m));
  vs_reach("end");
}
// a model of two-digit degrees, complete or with one line missing
HARNESS(h_large) {
  len = 0;
  static const int L[4] = {11, 10, 9, 4};
  int D = 11, l = L[vs_choice("l", 4)], mk = vs_choice("m", 4), m = mk == 0 ? l : mk == 1 ? l - 1 : mk == 2 ? 3 : 0;
  static const int LI[5] = {-1, 11, 10, 10, 9}, LJ[5] = {-1, 11, 9, 10, 0};
  int miss = vs_choice("missing", 5);
  style = vs_choice("style", 2);
  Head h;
  header(h, D, 0, 0, 0, 0, 0, 0);
  for (int i = 0; i <= D; i++) for (int j = 0; j <= i; j++) if (i != LI[miss] || j != LJ[miss]) {
    coef(i, j);
    if (style == 1 && i == 3 && j == 2) { for (int q = 0; q < 10; q++) put("  0.1234567890123456E-12"); sp(80); } // a line of some 400 characters
    nl();
  }
  Icgem g(vs_file("big.gfc", buf, len));
  vs_assert(g.parse_header() == 0 && g.degree() == D, "header parsed");
  HarmonicCoeffs hc(D);
  int r = g.parse_data(l, m, &hc);
  if (miss && LI[miss] <= l && LJ[miss] <= m) { vs_assert(r != 0, "missing coefficients are reported"); vs_reach("err"); return; }
  vs_assert(r == 0, "complete model is read");
  checkall(hc, l, m, 0);
  vs_reach("end");
}
// truncated file: never reported as success (except for the two nominally zero degree-one terms)
HARNESS(h_trunc) {
  len = 0; style = 0;
  int D = 2, l = vs_choice("l", D) + 1, m = l - vs_choice("below", l + 1);
  Head h;
  header(h, D, 0, 0, 0, 0, 0, 0);
  int drop = vs_choice("drop", 6);     // which coefficient is absent (0..5)
  int only = vs_choice("only", 2);     // drop just that one / that one and everything after it
  int also = only ? vs_choice("also", 7) : 6; // and a second one
  int twice = vs_choice("twice", 7);   // which of the others is written twice (6: none)
  int c = 0, dropped_needed = 0, dropped1 = 0;
  for (int i = 0; i <= D; i++) for (int j = 0; j <= i; j++, c++) {
    bool skip = only ? c == drop || c == also : c >= drop;
    if (skip) { if (i <= l && j <= m) { ++dropped_needed; if (i == 1) ++dropped1; } continue; }
    coef(i, j); nl();
    if (c == twice) { coef(i, j); nl(); }
  }
  Icgem g(vs_file("trunc.gfc", buf, len));
  vs_assert(g.parse_header() == 0, "header parsed");
  HarmonicCoeffs hc(D);
  int r = g.parse_data(l, m, &hc);
  bool no11 = only ? drop == 2 || also == 2 : drop <= 2;
  bool deg1 = dropped_needed && dropped_needed == dropped1 && dropped1 == (m < 1 ? 1 : 2); // C10 and C11 absent, nothing else
  if (m < 1 && !no11) deg1 = false; // C11 present, not asked for: either answer
  if (m < 1 && dropped_needed == 1 && dropped1 == 1 && !no11) vs_stop();
  if (dropped_needed == 0) { vs_assert(r == 0, "nothing needed is missing"); vs_reach("ok"); }
  else if (deg1) { vs_assert(r == 0, "absent degree-one terms are nominally zero"); vs_same(hc.C(1, 0), 0, "C10"); if (m >= 1) { vs_same(hc.C(1, 1), 0, "C11"); vs_same(hc.S(1, 1), 0, "S11"); } vs_reach("deg1"); }
  else { vs_assert(r != 0, "missing coefficients are reported"); vs_reach("err"); }
}
// EGM2008 style: degree one absent, everything else there
HARNESS(h_deg1) {
  len = 0; style = vs_choice("style", 2);
  int D = LM, l = vs_choice("l", D) + 1, m = l - vs_choice("below", l + 1);
  Head h;
  header(h, D, 0, 0, 0, 0, 0, 0);
  for (int i = 0; i <= D; i++) for (int j = 0; j <= i; j++) if (i != 1) { coef(i, j); nl(); }
  Icgem g(vs_file("egm.gfc", buf, len));
  vs_assert(g.parse_header() == 0, "header parsed");
  HarmonicCoeffs hc(D);
  if (vs_choice("used before", 2)) for (int i = 0; i <= D; i++) for (int j = 0; j <= i; j++) { hc.C(i, j) = 42; if (j) hc.S(i, j) = 43; }
  vs_assert(g.parse_data(l, m, &hc) == 0, "model without degree-one terms is read");
  checkall(hc, l, m, 1);
  vs_reach("end");
}
// one line with arbitrary degree/order digits (possibly negative, possibly order > degree) never
// touches memory outside the coefficients and never changes another coefficient
HARNESS(h_index) {
  len = 0; style = 0;
  int D = 2, l = D, m = vs_choice("m", D + 1);
  Head h;
  header(h, D, 0, 0, 0, 0, 0, 0);
  put("gfc ");
  int sl = vs_choice("neg_l", 2), sm = vs_choice("neg_m", 2);
  if (sl) buf[len++] = '-';
  int a = dig("l"); sp(2);
  if (sm) buf[len++] = '-';
  int b = dig("m"); sp(1);
  double C = tok(18, 10, 'E', "xC", -9, 9); sp(1);
  double S = tok(18, 10, 'E', "xS", -9, 9); nl();
  if (sl) a = -a;
  if (sm) b = -b;
  vs_assume(b != 0); // S(l,0) is zero in every model
  for (int i = 0; i <= D; i++) for (int j = 0; j <= i; j++) { coef(i, j); nl(); }
  Icgem g(vs_file("idx.gfc", buf, len));
  vs_assert(g.parse_header() == 0, "header parsed");
  HarmonicCoeffs hc(D);
  int r = g.parse_data(l, m, &hc);
  bool valid = a >= 0 && b >= 0 && b <= a;
  if (!valid) { vs_assert(r != 0, "impossible degree/order is refused"); vs_reach("invalid"); return; }
  if (a > l || b > m) {
    vs_assert(r == 0, "terms beyond the request are skipped");
    checkall(hc, l, m, 0);
    vs_reach("beyond");
  } else {
    // a duplicate: the line is inside the requested range and stays addressable
    vs_reach("inside");
  }
  (void)C; (void)S;
}
HARNESS(h_request) {
  len = 0; style = 0;
  Head h;
  header(h, 2, 0, 0, 0, 0, 0, 0);
  for (int i = 0; i <= 2; i++) for (int j = 0; j <= i; j++) { coef(i, j); nl(); }
  Icgem g(vs_file("req.gfc", buf, len));
  vs_assert(g.parse_header() == 0, "header parsed");
  int l = vs_int("l", 0, 20), m = vs_int("m", 0, 20), cap = vs_choice("cap", 3) + 1;
  vs_assume(l > 2 || m > l || cap < l);
  HarmonicCoeffs hc(cap);
  hc.C(0, 0) = 42;
  vs_assert(g.parse_data(l, m, &hc) != 0, "impossible request is refused");
  vs_same(hc.C(0, 0), 42, "refused request leaves the coefficients alone");
  vs_reach("end");
}

#ifdef MODEL
#include "gravity/parse_coefficients.cpp"
// the factor of the normalisation, from its definition
static double nfac(int n, int m) { double f = m ? 2 : 1; f *= 2 * n + 1; for (int i = n - m + 1; i <= n + m; i++) f /= i; return std::sqrt(f); }
HARNESS(h_model) {
  len = 0; style = 0;
  int D = 3, deg = vs_choice("degree", 5), ord = vs_choice("order", 5), den = vs_choice("denormalise", 2), kind = vs_choice("file", 6);
  bool deg1 = kind == 1;
  Head h;
  // 0 fine, 1 without degree one, 2 last coefficient missing, 3 header without degree, 4 no file, 5 not normalised
  if (kind == 3) { put("begin_of_head"); nl(); put("earth_gravity_constant 3.986e14"); nl(); put("radius 6378136.3"); nl(); put("max_degree x"); nl(); put("end_of_head"); nl(); }
  else header(h, D, 0, 0, 0, kind == 5 ? 1 : 0, 0, 0);
  for (int i = 0; i <= D; i++) for (int j = 0; j <= i; j++) if (!(deg1 && i == 1) && !(kind == 2 && i == D && j == 0)) { coef(i, j); nl(); }
  const char *fn = vs_file("m.gfc", buf, len);
  HarmonicCoeffs hc(vs_choice("before", 3) * 2 + 1);
  if (vs_choice("used before", 2)) { hc.normalized() = false; hc.GM() = 1; hc.Re() = 2; }
  int r = dso::parse_gravity_model(kind == 4 ? "/nonexistent/dir/m.gfc" : fn, deg, ord, hc, den);
  bool ok = kind != 3 && kind != 4 && deg <= D && ord <= deg && !(kind == 2 && deg == D);
  vs_assert((r == 0) == ok, "a model is loaded exactly when its file holds the degree and order asked for");
  if (!ok) { vs_reach("err"); return; }
  vs_assert(hc.degree() == deg, "the set has the degree asked for");
  vs_same(hc.GM(), h.gm, "gravitational constant of the model"); vs_same(hc.Re(), h.re, "radius of the model");
  vs_assert(hc.normalized() == (kind != 5 && !den), "normalisation state");
  for (int i = 0; i <= deg; i++) for (int j = 0; j <= i && j <= ord; j++) {
    double f = den && kind != 5 ? nfac(i, j) : 1, c = deg1 && i == 1 ? 0 : tc[i][j], s = deg1 && i == 1 ? 0 : ts[i][j];
    vs_close(hc.C(i, j), f * c, 1e-10, "coefficients of the model, without normalisation when asked for");
    if (j) vs_close(hc.S(i, j), f * s, 1e-10, "coefficients of the model, without normalisation when asked for");
  }
  vs_reach("end");
}
#endif
