// Sp3 event flags, packed measurement flags, tabular interpolators (programs under var/).
#include "vs.h"
#include <cstdint>
#define main flags_main
#include "var/flags.cc"
#undef main
static const int NEV = 12;
HARNESS(h_sp3) {
  Sp3Flag f;
  unsigned on = 0;
  vs_assert(f.is_clean(), "new flag is clean");
  for (int i = 0; i < 3 + VS_THOROUGH; i++) {
    int op = vs_choice("op", 3), k = op == 2 ? 0 : vs_int("k", 0, NEV - 1);
    if (op == 0) { f.set(Sp3Event(k)); on |= 1u << k; }
    if (op == 1) { f.clear(Sp3Event(k)); on &= ~(1u << k); }
    if (op == 2) { f.reset(); on = 0; }
  }
  int j = vs_int("j", 0, NEV - 1);
  vs_assert(f.is_set(Sp3Event(j)) == bool(on >> j & 1), "exactly the events set last are on");
  vs_assert(f.is_clean() == !on, "clean iff nothing is on");
  vs_reach("end");
}
// any bit pattern: operations on one event leave the others alone
HARNESS(h_sp3_any) {
  Sp3Flag f;
  int b = vs_int("bits", 0, 4095), k = vs_int("k", 0, NEV - 1);
  f.bits_ = b;
  vs_assert(f.is_set(Sp3Event(k)) == bool((b >> k) & 1), "is_set");
  Sp3Flag g = f, h = f;
  g.set(Sp3Event(k));
  h.clear(Sp3Event(k));
  int j = vs_int("j", 0, NEV - 1);
  if (j == k) { vs_assert(g.is_set(Sp3Event(j)), "set"); vs_assert(!h.is_set(Sp3Event(j)), "clear"); }
  else {
    vs_assert(g.is_set(Sp3Event(j)) == f.is_set(Sp3Event(j)), "set leaves other events");
    vs_assert(h.is_set(Sp3Event(j)) == f.is_set(Sp3Event(j)), "clear leaves other events");
  }
  vs_assert(f.is_clean() == (b == 0), "clean");
  vs_reach("end");
}
HARNESS(h_sp3_or) {
  int a = vs_int("a", 0, NEV - 1), b = vs_int("b", 0, NEV - 1), n = vs_choice("n", 2), c = n ? vs_int("c", 0, NEV - 1) : a;
  Sp3Flag f;
  if (n) f.set(Sp3Event(a) | Sp3Event(b) | Sp3Event(c));
  else f.set(Sp3Event(a) | Sp3Event(b));
  int i = vs_int("i", 0, NEV - 1);
  vs_assert(f.is_set(Sp3Event(i)) == (i == a || i == b || i == c), "exactly the combined events are on");
  vs_obs_i("bits", f.bits_);
  vs_reach("end");
}
