#ifndef VS_STUB_GCEM
#define VS_STUB_GCEM
namespace gcem {
// series for small arguments (all uses are below 0.01)
constexpr double asin(double x) { double t = x, s = x; for (int k = 1; k < 30; k++) { t *= x * x * (2 * k - 1) / (2. * k); s += t / (2 * k + 1); } return s; }
constexpr double sin(double x) { double t = x, s = x; for (int k = 1; k < 30; k++) { t *= -x * x / (2. * k * (2 * k + 1)); s += t; } return s; }
constexpr double cos(double x) { double t = 1, s = 1; for (int k = 1; k < 30; k++) { t *= -x * x / (2. * k * (2 * k - 1)); s += t; } return s; }
constexpr double tan(double x) { return sin(x) / cos(x); }
constexpr double max(double a, double b) { return a < b ? b : a; }
} // namespace gcem
#endif
