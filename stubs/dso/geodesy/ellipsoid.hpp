#ifndef VS_STUB_ELLIPSOID
#define VS_STUB_ELLIPSOID
namespace dso {
enum class ellipsoid : char { grs80, wgs84 };
template <ellipsoid E> struct ellipsoid_traits { static constexpr double a = 6378137e0, f = 1e0 / 298.257222101e0; };
template <ellipsoid E> constexpr double mean_earth_radius() { return ellipsoid_traits<E>::a * (1 - ellipsoid_traits<E>::f / 3); }
} // namespace dso
#endif
