// Stand-in for geodesy/units.hpp (dependency not installed here).
#ifndef VS_STUB_UNITS
#define VS_STUB_UNITS
#include <cmath>
namespace dso {
#ifndef VS_DPI
#define VS_DPI
constexpr double DPI = 3.141592653589793238462643;
constexpr double D2PI = 6.283185307179586476925287;
#endif
enum class AngleUnit : char { Radians, Degrees };
template <typename T = double> constexpr T deg2rad(T d) { return d * (T)(DPI / 180e0); }
template <typename T = double> constexpr T rad2deg(T r) { return r * (T)(180e0 / DPI); }
template <typename T = double> constexpr T arcsec2rad(T a) { return a * (T)(DPI / 648000e0); }
template <typename T, AngleUnit U> T norm_angle(T a) {
  const T full = U == AngleUnit::Radians ? D2PI : 360e0;
#ifdef VS_NORM_ID
  return a; // an angle modulo a full turn
#else
  T r = std::fmod(a, full);
  return r < 0 ? r + full : r;
#endif
}
} // namespace dso
#endif
