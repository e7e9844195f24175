// Stand-alone helpers: Legendre functions, zenith delays.
#include "vs.h"
#include <cmath>
#include <cassert>
namespace ngpt { static const double DPI = 3.14159265358979323846; }
#include "var/legendre.cc"
#include "var/saastamoinen.cc"
// P(l,m) without normalisation and without Condon-Shortley phase, from Rodrigues' formula: coefficients of d^(l+m)/dx^(l+m) (x^2-1)^l / (2^l l!)
static double rodrigues(int l, int m, double x) {
  double c[2 * 12 + 1];
  for (double &v : c) v = 0;
  for (int k = 0; k <= l; k++) { double b = 1; for (int i = 0; i < k; i++) b = b * (l - i) / (i + 1); c[2 * k] = ((l - k) % 2 ? -b : b); }
  for (int i = 0; i < l; i++) for (double &v : c) v /= 2 * (i + 1);
  for (int d = 0; d < l + m; d++) { for (int k = 0; k < 24; k++) c[k] = c[k + 1] * (k + 1); c[24] = 0; }
  double s = 0;
  for (int k = l - m; k >= 0; k--) s = s * x + c[k];
  return s;
}
HARNESS(h_legendre) {
  const int L = VS_THOROUGH ? 8 : 6;
  int l = vs_choice("l", L + 1), m = vs_choice("m", L + 1);
  vs_assume(m <= l);
  double x = vs_double("x", -1, 1), f = 2 * l + 1;
  for (int i = l - m + 1; i <= l + m; i++) f /= i;
  double p = plegendre(l, m, x), r = rodrigues(l, m, x);
  // p = (-1)^m sqrt(f (1-x^2)^m / 4 pi) r, written with the sectoral function of order m
  double w = 1, fm = 2 * m + 1, df = 1;
  for (int i = 1; i <= m; i++) { w *= (1 - x) * (1 + x) * (2 * i - 1) / (2 * i); df *= 2 * i - 1; }
  for (int i = 1; i <= 2 * m; i++) fm /= i;
  double sec = std::sqrt((2 * m + 1) * w / (4 * ngpt::DPI));
  vs_close(p, (m % 2 ? -1 : 1) * sec * (r / df) * std::sqrt(f / fm), 1e-9, "renormalised associated Legendre function");
  vs_reach("end");
}
HARNESS(h_zenith) {
  double lat = vs_double("lat", -1.6, 1.6), H = vs_double("H", -500, 9000), P = vs_double("P", 200, 1100), e = vs_double("e", 0, 60), T = vs_double("T", 200, 330);
  double f = 1 - 0.00266 * std::cos(2 * lat) - 0.28e-6 * H;
  vs_close(saastamoinen_hz(lat, H, P) * f, 0.0022768 * P, 1e-9, "zenith hydrostatic delay");
  vs_close(saastamoinen_wet(e, T) * T, 0.0022768 * (1255 + 0.053 * T) * e, 1e-9, "zenith wet delay");
  vs_close(saastamoinen_hz(lat, H, P), saastamoinen_hz(-lat, H, P), 1e-12, "symmetric in latitude");
  vs_reach("end");
}
