// Harness API: symbolic inputs, assumptions, obligations. Implemented by engine/models.py when the
// harness is executed symbolically and by rt/vs_rt.cpp when it runs natively.
#ifndef VS_H
#define VS_H
#include <cstddef>
extern "C" {
int vs_int(const char *name, int lo, int hi);
long vs_long(const char *name, long lo, long hi);
double vs_double(const char *name, double lo, double hi);
char vs_char(const char *name, const char *set);
int vs_choice(const char *name, int n);
double vs_numtok(char *dst, int width, int prec, char fmt, const char *name, double lo, double hi);
void vs_assume(int c);
void vs_stop(); // drops the run, also from within noexcept code
void vs_assert(int c, const char *label);
void vs_close(double a, double b, double tol, const char *label);
void vs_le(double a, double b, double tol, const char *label);
void vs_same(double a, double b, const char *label);
void vs_reach(const char *label);
void vs_obs_d(const char *label, double v);
void vs_obs_i(const char *label, long v);
int vs_heap_live();
int vs_concretize(int v);
int vs_isnan(double v);
#ifndef VS_SYMBOLIC
const char *vs_file(const char *name, const char *buf, long len);
const char *vs_tmp(const char *name);
#endif
}
#ifndef VS_TIER
#define VS_TIER 1
#endif
#define VS_THOROUGH (VS_TIER > 1)
#define HARNESS(n) extern "C" void n()
#ifdef VS_SYMBOLIC
#include <string>
template class std::basic_string<char>;
struct VsFile { const char *name; const char *buf; long len; };
inline VsFile vs_ftab[16];
inline int vs_nf = 0;
inline int vs_feq(const char *a, const char *b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
inline const char *vs_file(const char *name, const char *buf, long len) {
  for (int i = 0; i < vs_nf; i++) if (vs_feq(vs_ftab[i].name, name)) { vs_ftab[i].buf = buf; vs_ftab[i].len = len; return name; }
  vs_ftab[vs_nf].name = name; vs_ftab[vs_nf].buf = buf; vs_ftab[vs_nf].len = len; ++vs_nf; return name;
}
inline const VsFile *vs_ffind(const char *name) {
  for (int i = 0; i < vs_nf; i++) if (vs_feq(vs_ftab[i].name, name)) return &vs_ftab[i];
  return nullptr;
}
inline const char *vs_tmp(const char *name) { return name; }
#define vs_stop() vs_assume(0)
#endif
#endif
