// Stand-in for iers2010/iau.hpp: the harness provides the models.
#ifndef VS_STUB_IAU
#define VS_STUB_IAU
#include <cmath>
#include "iers2010/iersc.hpp"
#include "eigen3/Eigen/Eigen"
namespace iers2010 {
namespace sofa {
void xy06(double d1, double d2, double &x, double &y) noexcept;
double s06(double d1, double d2, double x, double y) noexcept;
double era00(double d1, double d2) noexcept;
double sp00(double d1, double d2) noexcept;
Eigen::Matrix<double, 3, 3> c2ixys_e(double x, double y, double s) noexcept;
Eigen::Matrix<double, 3, 3> pom00_e(double xp, double yp, double sp) noexcept;
double fal03(double t) noexcept;
double falp03(double t) noexcept;
double faf03(double t) noexcept;
double fad03(double t) noexcept;
}
}
#endif
