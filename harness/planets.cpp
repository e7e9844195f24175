// Analytical series of the Sun and the Moon.
#define VS_FSTREAM_DISTINCT
#include "vs.h"
#include <cassert>
#include <cstring>
#include <cstdio>
#include <cmath>
#include "iers2010/iersc.hpp"
#define pi2 pi2_sun
#include "planets/sunpos.cpp"
#undef pi2
#define pi2 pi2_moon
#include "planets/moonpos.cpp"
#undef pi2
using namespace dso;
static const double PI = 3.14159265358979323846, DEG = PI / 180, AS = DEG / 3600, AU = 149597870.7;
static double s_(double d) { return std::sin(d * DEG); }
static double c_(double d) { return std::cos(d * DEG); }
// reference: angles in degrees, not reduced; ecliptic to equator with the obliquity
static void put(double *x, double r, double lon, double lat, double eps) {
  double a = c_(lat) * c_(lon), b = c_(lat) * s_(lon), c = s_(lat);
  x[0] = r * a; x[1] = r * (c_(eps) * b - s_(eps) * c); x[2] = r * (s_(eps) * b + c_(eps) * c);
}
static void cmp(const double *a, const double *b, double scale, const char *l) { for (int i = 0; i < 3; i++) vs_close(a[i] / scale, b[i] / scale, 1e-8, l); }
static const double EP[4] = {-0.5, 0, 0.2005, 0.35};
HARNESS(h_sun) {
  double t = EP[vs_choice("epoch", 4)] + vs_double("t", 0, 0.02), x[3] = {0, 0, 0}, e[3];
  int w = vs_choice("series", 3), st = 0;
  if (w == 0) {
    double M = 360 * (0.9931267 + 99.9973583 * t), lon = 360 * 0.7859444 + M + (6892 * s_(M) + 72 * s_(2 * M)) / 3600;
    st = sun_vector_montenbruck(t, x);
    put(e, 149.619e6 - 2.499e6 * c_(M) - 0.021e6 * c_(2 * M), lon, 0, 23.43929111);
    cmp(x, e, AU, "Sun, series of Montenbruck and Gill");
  } else if (w == 1) {
    double M = 357.5291092 + 35999.05034 * t, lon = 280.460 + 36000.771 * t + 1.914666471 * s_(M) + 0.019994643 * s_(2 * M);
    st = sun_vector_vallado(t, x);
    put(e, AU * (1.000140612 - 0.016708617 * c_(M) - 0.000139589 * c_(2 * M)), lon, 0, 23.439291 - 0.0130042 * t);
    cmp(x, e, AU, "Sun, series of Vallado");
  } else {
    double n = 36525 * t, M = 357.529 + 0.98560023 * n, lon = 280.459 + 0.98564736 * n + 1.915 * s_(M) + 0.02 * s_(2 * M);
    st = sun_vector_curtis(n, x);
    put(e, AU * (1.00014 - 0.01671 * c_(M) - 0.00014 * c_(2 * M)), lon, 0, 23.439 - 3.56e-7 * n);
    cmp(x, e, AU, "Sun, series of Curtis");
  }
  vs_assert(st == 0, "status");
  vs_reach("end");
}
static double fa[4], fat;
double iers2010::sofa::fal03(double t) noexcept { vs_same(t, fat, "arguments of the epoch"); return fa[0]; }
double iers2010::sofa::falp03(double t) noexcept { vs_same(t, fat, "arguments of the epoch"); return fa[1]; }
double iers2010::sofa::faf03(double t) noexcept { vs_same(t, fat, "arguments of the epoch"); return fa[2]; }
double iers2010::sofa::fad03(double t) noexcept { vs_same(t, fat, "arguments of the epoch"); return fa[3]; }
HARNESS(h_moon) {
  double t = fat = EP[vs_choice("epoch", 4)] + vs_double("t", 0, 0.001), x[3] = {0, 0, 0}, e[3];
  static const char *nm[4] = {"l", "lp", "F", "D"};
  for (int i = 0; i < 4; i++) fa[i] = vs_double(nm[i], -6, 6);
  double l = fa[0] / DEG, lp = fa[1] / DEG, F = fa[2] / DEG, D = fa[3] / DEG;
  double L0 = 360 * (0.606433 + 1336.851344 * t);
  double dl = 22640 * s_(l) + 769 * s_(2 * l) - 4586 * s_(l - 2 * D) + 2370 * s_(2 * D) - 668 * s_(lp) - 412 * s_(2 * F) - 212 * s_(2 * l - 2 * D) - 206 * s_(l + lp - 2 * D)
              + 192 * s_(l + 2 * D) - 165 * s_(lp - 2 * D) + 148 * s_(l - lp) - 125 * s_(D) - 110 * s_(l + lp) - 55 * s_(2 * F - 2 * D);
  double arg = F + (dl + 412 * s_(2 * F) + 541 * s_(lp)) / 3600;
  double lat = (18520 * s_(arg) - 526 * s_(F - 2 * D) + 44 * s_(l + F - 2 * D) - 31 * s_(F - l - 2 * D) - 25 * s_(F - 2 * l) - 23 * s_(lp + F - 2 * D) + 21 * s_(F - l) + 11 * s_(F - lp - 2 * D)) / 3600;
  double r = 385000 - 20905 * c_(l) - 3699 * c_(2 * D - l) - 2956 * c_(2 * D) - 570 * c_(2 * l) + 246 * c_(2 * l - 2 * D) - 205 * c_(lp - 2 * D) - 171 * c_(l + 2 * D) - 152 * c_(l + lp - 2 * D);
  vs_assert(moon_vector_approx(t, x) == 0, "status");
  put(e, r, L0 + dl / 3600, lat, 23.43929111);
  cmp(x, e, 4e5, "Moon, series of Montenbruck and Gill");
  vs_reach("end");
}
HARNESS(h_moon_vallado) {
  double t = EP[vs_choice("epoch", 4)] + vs_double("t", 0, 0.001), x[3] = {0, 0, 0}, e[3];
  double A = 134.9 + 477198.85 * t, B = 259.2 - 413335.38 * t, C = 235.7 + 890534.23 * t, D = 269.9 + 954397.70 * t;
  double lon = 218.32 + 481267.8813 * t + 6.29 * s_(A) - 1.27 * s_(B) + 0.66 * s_(C) + 0.21 * s_(D) - 0.19 * s_(357.5 + 35999.05 * t) - 0.11 * s_(186.6 + 966404.05 * t);
  double lat = 5.13 * s_(93.3 + 483202.03 * t) + 0.28 * s_(228.2 + 960400.87 * t) - 0.28 * s_(318.3 + 6003.18 * t) - 0.17 * s_(217.6 - 407332.20 * t);
  double par = 0.9508 + 0.0518 * c_(A) + 0.0095 * c_(B) + 0.0078 * c_(C) + 0.0028 * c_(D);
  vs_assert(moon_vector_vallado(t, x) == 0, "status");
  put(e, 6378.1366 / s_(par), lon, lat, 23.439291 - 0.0130042 * t - 1.64e-7 * t * t + 5.04e-7 * t * t * t);
  cmp(x, e, 4e5, "Moon, series of Vallado");
  vs_reach("end");
}
// calendar dates
HARNESS(h_dates) {
  static const long D[3] = {33282, 51544, 59000}; static const long S[3] = {0, 43200, 86399};
  long d = D[vs_choice("day", 3)], sec = S[vs_choice("second", 3)];
  dso::datetime<dso::nanoseconds> t(dso::modified_julian_day(d), dso::nanoseconds(sec * 1000000000L));
  double n = (double)(d - 51544) + (double)(sec - 43200) / 86400, x[3], y[3];
  fat = n / 36525;
  for (int i = 0; i < 4; i++) fa[i] = 0.3 * i;
  int w = vs_choice("series", 5), a, b;
  switch (w) {
  case 0: fat = t.jcenturies_sinceJ2000(); a = moon_vector_approx(t, x); b = moon_vector_approx(fat, y); break;
  case 1: a = moon_vector_vallado(t, x); b = moon_vector_vallado(n / 36525, y); break;
  case 2: a = sun_vector_montenbruck(t, x); b = sun_vector_montenbruck(n / 36525, y); break;
  case 3: a = sun_vector_vallado(t, x); b = sun_vector_vallado(n / 36525, y); break;
  default: a = sun_vector_curtis(t, x); b = sun_vector_curtis(n, y);
  }
  vs_assert(a == 0 && b == 0, "status");
  vs_close(fat, n / 36525, 1e-11, "centuries since J2000");
  for (int i = 0; i < 3; i++) vs_close(x[i] / AU, y[i] / AU, 1e-8, "position at the date");
  vs_reach("end");
}
