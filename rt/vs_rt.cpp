// Native runtime of the harness API: replay of a counterexample, witness search, dumps for the
// validation of the symbolic executor.
#include "vs.h"
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <new>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>

struct VsStop {};
#include <setjmp.h>
static sigjmp_buf stopbuf;
static const int MAXI = 20000;
struct In { char name[48]; char kind; double d; long i; };
static In *rec, *base;
static int nrec, nbase;
struct Ob { char lab[48]; char kind; double d; long i; };
static Ob *obs;
static int nobs;
static int mode; // 0 replay 1 search 2 dump
static uint64_t rs;
static int live_n;
static char tmpd[64];
static const char *cur_fail;
static int usebase;
static volatile int dying;

static uint64_t rnd() {
  uint64_t z = (rs += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static double rnd01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

static void dump_inputs(FILE *f) {
  for (int k = 0; k < nrec; k++)
    if (rec[k].kind == 'd') fprintf(f, "IN %s d %a\n", rec[k].name, rec[k].d);
    else fprintf(f, "IN %s i %ld\n", rec[k].name, rec[k].i);
}
static void cleanup() {
  if (!tmpd[0]) return;
  DIR *d = opendir(tmpd);
  if (d) {
    while (dirent *e = readdir(d)) {
      if (e->d_name[0] == '.') continue;
      char p[400];
      snprintf(p, sizeof p, "%s/%s", tmpd, e->d_name);
      unlink(p);
    }
    closedir(d);
    rmdir(tmpd);
  }
  tmpd[0] = 0;
}
static void fail(const char *label) {
  if (dying) return;
  dying = 1;
  fflush(stdout);
  printf("FAIL %s\n", label);
  dump_inputs(stdout);
  printf("END\n");
  fflush(stdout);
  cleanup();
  _exit(1);
}
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void on_death() { fail("memsafe"); }
static void on_abort(int) { fail("abort"); }
static void on_alarm(int) { fail("termination"); }

static In *push(const char *name) {
  if (nrec >= MAXI) { fprintf(stderr, "too many inputs\n"); _exit(3); }
  In *r = &rec[nrec++];
  snprintf(r->name, sizeof r->name, "%s", name);
  for (char *c = r->name; *c; c++) if (*c == ' ') *c = '_';
  return r;
}
static const In *want(char kind) {
  int k = nrec; // position of the input being created
  if ((mode == 0 || usebase) && k < nbase && base[k].kind == kind) {
    if (mode == 0) return &base[k];
    if (rnd() % 100 < 70) return &base[k];
  }
  return nullptr;
}
static long gen_i(long lo, long hi) {
  uint64_t n = (uint64_t)hi - (uint64_t)lo + 1;
  int r = rnd() % 10;
  if (r == 0) return lo;
  if (r == 1) return hi;
  if (n == 0) return (long)rnd();
  if (r == 2 && lo <= 0 && hi >= 0) return 0;
  if (n > 4096 && r < 6) { // small magnitudes
    long s = (long)(rnd() % 64);
    if (lo >= 0) return lo + s;
    long v = s - 32;
    return v < lo ? lo : (v > hi ? hi : v);
  }
  return lo + (long)(rnd() % n);
}
extern "C" {
int vs_int(const char *name, int lo, int hi) { return (int)vs_long(name, lo, hi); }
long vs_long(const char *name, long lo, long hi) {
  const In *w = want('i');
  long v = w ? w->i : (mode == 0 ? lo : gen_i(lo, hi));
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  In *r = push(name); r->kind = 'i'; r->i = v;
  return v;
}
int vs_choice(const char *name, int n) { return vs_int(name, 0, n - 1); }
int vs_concretize(int v) { return v; }
int vs_isnan(double v) { return std::isnan(v); }
double vs_double(const char *name, double lo, double hi) {
  const In *w = want('d');
  double v;
  if (w) v = w->d;
  else if (mode == 0) v = lo + (hi - lo) * 0.37;
  else {
    int r = mode == 2 ? 5 : rnd() % 12;
    if (r == 0) v = lo;
    else if (r == 1) v = hi;
    else if (r == 2 && lo <= 0 && hi >= 0) v = 0;
    else if (r == 3) { v = std::floor(lo + (hi - lo) * rnd01()); }
    else v = lo + (hi - lo) * rnd01();
  }
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  In *r = push(name); r->kind = 'd'; r->d = v;
  return v;
}
char vs_char(const char *name, const char *set) {
  const In *w = want('i');
  unsigned char c;
  if (w && strchr(set, (int)w->i)) c = (unsigned char)w->i;
  else if (mode == 0) c = (unsigned char)set[0];
  else c = (unsigned char)set[rnd() % strlen(set)];
  In *r = push(name); r->kind = 'i'; r->i = c;
  return (char)c;
}
double vs_numtok(char *dst, int width, int prec, char fmt, const char *name, double lo, double hi) {
  double v = vs_double(name, lo, hi);
  char b[128];
  if (fmt == 'f' || fmt == 'F') snprintf(b, sizeof b, "%*.*f", width, prec, v);
  else snprintf(b, sizeof b, "%*.*E", width, prec, v);
  if ((int)strlen(b) != width) { fprintf(stderr, "numtok does not fit: %s\n", b); _exit(3); }
  double r = strtod(b, nullptr);
  if (fmt == 'D' || fmt == 'd') for (char *p = b; *p; ++p) if (*p == 'E') *p = 'D';
  memcpy(dst, b, width);
  rec[nrec - 1].d = r;
  return r;
}
void vs_stop() { siglongjmp(stopbuf, 1); }
void vs_assume(int c) { if (!c) throw VsStop(); }
void vs_assert(int c, const char *l) { if (!c) fail(l); }
void vs_close(double a, double b, double tol, const char *l) { if (!(std::fabs(a - b) <= tol) && !(a == b)) { printf("NOTE %s: %.17g vs %.17g\n", l, a, b); fail(l); } }
void vs_le(double a, double b, double tol, const char *l) { if (!(a <= b + tol)) { printf("NOTE %s: %.17g <= %.17g\n", l, a, b); fail(l); } }
void vs_same(double a, double b, const char *l) { if (!(a == b)) { printf("NOTE %s: %.17g vs %.17g\n", l, a, b); fail(l); } }
void vs_reach(const char *) {}
static void ob(const char *l, char k, double d, long i) {
  if (nobs >= MAXI) return;
  Ob *o = &obs[nobs++];
  snprintf(o->lab, sizeof o->lab, "%s", l);
  o->kind = k; o->d = d; o->i = i;
}
void vs_obs_d(const char *l, double v) { ob(l, 'd', v, 0); }
void vs_obs_i(const char *l, long v) { ob(l, 'i', 0, v); }
int vs_heap_live() { return live_n; }
const char *vs_tmp(const char *name) {
  static char p[16][300];
  static int k;
  char *q = p[k++ & 15];
  if (!tmpd[0]) { strcpy(tmpd, "/tmp/vsrtXXXXXX"); if (!mkdtemp(tmpd)) _exit(3); }
  snprintf(q, 300, "%s/%s", tmpd, name);
  return q;
}
const char *vs_file(const char *name, const char *buf, long len) {
  const char *q = vs_tmp(name);
  FILE *f = fopen(q, "wb");
  if (!f) _exit(3);
  fwrite(buf, 1, len, f);
  fclose(f);
  return q;
}
}

// counting, poisoning heap
static void *cnew(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  memset(p, 0xCB, n);
  return p;
}
#if !defined(VS_NO_NEW)
// [tag][size] header distinguishes new from new[]
struct Hd { uint64_t tag; uint64_t pad; };
static void *hnew(size_t n, uint64_t tag) {
  if (n > (1u << 30)) throw std::bad_alloc();
  char *p = (char *)cnew(n + sizeof(Hd));
  ((Hd *)p)->tag = tag;
  ++live_n;
  return p + sizeof(Hd);
}
static void hdel(void *p, uint64_t tag) {
  if (!p) return;
  Hd *h = (Hd *)((char *)p - sizeof(Hd));
  if (h->tag != tag) fail("memsafe");
  h->tag = 0;
  --live_n;
  free(h);
}
void *operator new(size_t n) { return hnew(n, 0x11); }
void *operator new[](size_t n) { return hnew(n, 0x22); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return hnew(n, 0x11); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return hnew(n, 0x22); }
void operator delete(void *p) noexcept { hdel(p, 0x11); }
void operator delete[](void *p) noexcept { hdel(p, 0x22); }
void operator delete(void *p, size_t) noexcept { hdel(p, 0x11); }
void operator delete[](void *p, size_t) noexcept { hdel(p, 0x22); }
#endif

static void load(const char *fn) {
  FILE *f = fopen(fn, "r");
  if (!f) { fprintf(stderr, "cannot open %s\n", fn); exit(3); }
  char ln[512], nm[200], k;
  char val[200];
  while (fgets(ln, sizeof ln, f))
    if (sscanf(ln, "IN %199s %c %199s", nm, &k, val) == 3 && nbase < MAXI) {
      In *r = &base[nbase++];
      snprintf(r->name, sizeof r->name, "%s", nm);
      r->kind = k;
      if (k == 'd') r->d = strtod(val, nullptr); else r->i = strtol(val, nullptr, 10);
    }
  fclose(f);
}
int main(int argc, char **argv) {
  if (argc < 3) return 3;
  rec = (In *)malloc(sizeof(In) * MAXI); base = (In *)malloc(sizeof(In) * MAXI); obs = (Ob *)malloc(sizeof(Ob) * MAXI);
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 3; }
  __sanitizer_set_death_callback(on_death);
  signal(SIGABRT, on_abort);
  signal(SIGALRM, on_alarm);
  long n = 1, seed = 1;
  double tmax = 1e9;
  if (!strcmp(argv[2], "replay")) { mode = 0; load(argv[3]); }
  else if (!strcmp(argv[2], "search")) { mode = 1; n = atol(argv[3]); seed = atol(argv[4]); tmax = atof(argv[5]); if (argc > 6) { load(argv[6]); usebase = 1; } }
  else if (!strcmp(argv[2], "dump")) { mode = 2; n = atol(argv[3]); seed = atol(argv[4]); tmax = 20; }
  else return 3;
  rs = seed * 7919 + 13;
  time_t t0 = time(nullptr);
  long done = 0, tries = 0;
  while (done < n && tries < n * 200 + 1000) {
    if ((tries & 63) == 0 && difftime(time(nullptr), t0) > tmax) break;
    ++tries;
    nrec = 0; nobs = 0; cur_fail = nullptr;
    volatile bool ok = true;
    alarm(mode == 0 ? 20 : 5);
    long live0 = live_n;
    if (sigsetjmp(stopbuf, 0)) { ok = false; live_n = live0; }
    else try { fn(); } catch (VsStop &) { ok = false; } catch (...) { fail("uncaught"); }
    alarm(0);
    if (mode == 0) break;
    if (mode == 1) { ++done; continue; }
    if (ok) {
      ++done;
      printf("RUN\n");
      dump_inputs(stdout);
      for (int k = 0; k < nobs; k++)
        if (obs[k].kind == 'd') printf("OB %s d %a\n", obs[k].lab, obs[k].d);
        else printf("OB %s i %ld\n", obs[k].lab, obs[k].i);
      printf("END\n");
    }
  }
  fflush(stdout);
  printf("PASS %ld\n", done);
  fflush(stdout);
  cleanup();
  _exit(0);
}
