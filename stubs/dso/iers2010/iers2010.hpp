// Stand-in for iers2010/iers2010.hpp: the harness provides the models.
#ifndef VS_STUB_IERS2010
#define VS_STUB_IERS2010
#include <cmath>
#include "iers2010/iersc.hpp"
namespace iers2010 {
int rg_zont2(double t, double &dut, double &dlod, double &domega) noexcept;
namespace interp {
int lagint(const double *x, const double *y, int n, double xint, double &yout, int &index, int order = 3) noexcept;
int pmut1_oceans(double t, double &cx, double &cy, double &cdut, double &clod) noexcept;
int pm_gravi(double t, double &cx, double &cy) noexcept;
}
}
#endif
