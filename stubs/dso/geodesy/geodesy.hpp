// Stand-in for geodesy/geodesy.hpp: the harness provides the ellipsoidal coordinates.
#ifndef VS_STUB_GEODESY
#define VS_STUB_GEODESY
#include "eigen3/Eigen/Eigen"
#include "geodesy/ellipsoid.hpp"
#include "geodesy/units.hpp"
extern "C" void vs_car2ell(const double *xyz, double *llh); // longitude, latitude, height
namespace dso {
template <ellipsoid E> Eigen::Matrix<double, 3, 1> car2ell(const Eigen::Matrix<double, 3, 1> &x) noexcept {
  Eigen::Matrix<double, 3, 1> r;
  vs_car2ell(x.data(), r.data());
  return r;
}
}
#endif
