#include "vs.h"
#include <cstdint>
#include <cstdio>
#include <limits>
#ifdef VS_SYMBOLIC
// the benchmark's random source is not part of what is checked
#define _GLIBCXX_RANDOM 1
#define _GLIBCXX_CHRONO 1
#define _GLIBCXX_IOSTREAM 1
#include <string>
namespace std {
struct random_device { unsigned operator()() { return 1; } };
struct mt19937 { mt19937(unsigned) {} };
template <class T = int> struct uniform_int_distribution { uniform_int_distribution(T, T) {} template <class G> T operator()(G &) { return 0; } };
template <class T = double> struct uniform_real_distribution { uniform_real_distribution(T, T) {} template <class G> T operator()(G &) { return 0; } };
namespace chrono {
struct microseconds { long count() { return 0; } };
struct high_resolution_clock { static int now() { return 0; } };
template <class T> T duration_cast(int) { return T(); }
}
struct VsOut { template <class T> VsOut &operator<<(T) { return *this; } };
inline VsOut cout;
}
#endif
#define main packed_main
#include "var/compound_measurement.cc"
#undef main
HARNESS(h_packed) {
  Flag f;
  vs_assert(!f.get_flag1() && !f.get_flag2() && !f.get_missing(), "new flag is zero");
  int e[3] = {0, 0, 0};
  for (int i = 0; i < 4 + 2 * VS_THOROUGH; i++) {
    int k = vs_choice("k", 3), v = vs_int("v", 0, 255);
    e[k] = v;
    if (k == 0) f.set_flag1(v);
    if (k == 1) f.set_flag2(v);
    if (k == 2) f.set_missing(v);
    vs_assert(f.get_flag1() == e[0], "flag1");
    vs_assert(f.get_flag2() == e[1], "flag2");
    vs_assert(f.get_missing() == e[2], "missing");
  }
  vs_obs_i("f", (long)f.flag_);
  vs_reach("end");
}
// the three representations of a measurement agree
HARNESS(h_variants) {
  int f1 = vs_int("f1", 0, 127), f2 = vs_int("f2", 0, 127), miss = vs_choice("miss", 2);
  double v = vs_double("v", -1e6, 1e6);
  vs_assume(v < -1 || v > 1);
  Measurement1 a;
  a.val_ = v; a.missing_ = miss; a.flagm1_ = f1; a.flagm2_ = f2;
  Measurement2 b;
  b.val_ = miss ? MISSING : v; b.flagm1_ = f1; b.flagm2_ = f2;
  Measurement3 c;
  c.val_ = v; c.flag_.set_flag2(f2); c.flag_.set_missing(miss); c.flag_.set_flag1(f1);
  double e = miss ? -999.99 : f1 > 16 ? v + 1e3 : f2 < 16 ? v - 1e-3 : v / 1e3;
  vs_close(foo1(a), e, 1e-9, "struct variant");
  vs_close(foo1(b), e, 1e-9, "sentinel variant");
  vs_close(foo1(c), e, 1e-9, "packed variant");
  vs_obs_d("e", foo1(c));
  vs_reach("end");
}
