// http_get over a modelled libcurl and a modelled one-directory file world with fault injection.
#include "vs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <string>
#include <memory>
#include <utility>
#include <system_error>
#include <type_traits>
#include <curl/curl.h>
struct Node { char name[24]; int kind; char data[24]; int len; };
struct Stream { int node; int err; int buf; };
static Node W[3];
static int NN;
static Stream S[4];
static int nopen, nclosed, ninit, nclean, nperf, canopen, room, flushfail, initfail, srv, nchunk, clen[3], total, open_done;
static char body[24];
static int streq(const char *a, const char *b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
static int node(const char *n) { for (int i = 0; i < NN; i++) if (streq(W[i].name, n)) return i; return -1; }
static int mk(const char *n) { int k = node(n); if (k >= 0) return k; k = NN++; int i = 0; for (; n[i]; i++) W[k].name[i] = n[i]; W[k].name[i] = 0; W[k].kind = 0; W[k].len = 0; return k; }
int vsw_kind(const char *n) { int k = node(n); return k < 0 ? 0 : W[k].kind; }
long vsw_size(const char *n) { int k = node(n); return k < 0 ? -1 : W[k].len; }
int vsw_remove(const char *n) { int k = node(n); if (k < 0 || !W[k].kind) return -1; W[k].kind = 0; W[k].len = 0; return 0; }
int vsw_rename(const char *a, const char *b) {
  int k = node(a);
  if (k < 0 || !W[k].kind) return -1;
  int l = mk(b);
  if (W[l].kind == 2) return -1;
  W[l].kind = W[k].kind; W[l].len = W[k].len;
  for (int i = 0; i < W[k].len; i++) W[l].data[i] = W[k].data[i];
  W[k].kind = 0;
  return 0;
}
static FILE *vsw_fopen(const char *n, const char *mode) {
  if (mode[0] == 'r') return vsw_kind(n) == 1 ? (FILE *)&(S[nopen] = Stream{node(n), 0, 0}, S[nopen++]) : nullptr;
  if (!canopen || vsw_kind(n) == 2 || nopen >= 4) return nullptr;
  int k = mk(n);
  if (mode[0] == 'w' || !W[k].kind) W[k].len = 0;
  W[k].kind = 1;
  S[nopen] = Stream{k, 0, 0};
  open_done = 1;
  return (FILE *)&S[nopen++];
}
static size_t vsw_fwrite(const void *p, size_t sz, size_t n, FILE *f) {
  Stream *s = (Stream *)f;
  size_t i = 0;
  for (; i < n; i++) {
    if (W[s->node].len + (int)sz > room) { if (!flushfail) { s->err = 1; break; } s->buf = 1; }
    for (size_t k = 0; k < sz; k++) { W[s->node].data[W[s->node].len < 23 ? W[s->node].len : 23] = ((const char *)p)[i * sz + k]; W[s->node].len++; }
  }
  return i;
}
static int vsw_fflush(FILE *f) { Stream *s = (Stream *)f; if (s->buf) { s->err = 1; W[s->node].len = room < W[s->node].len ? room : W[s->node].len; return EOF; } return 0; }
static int vsw_fclose(FILE *f) { nclosed++; return vsw_fflush(f); }
static int vsw_ferror(FILE *f) { return ((Stream *)f)->err; }
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup() {}
static VsCurl H;
CURL *curl_easy_init() { if (initfail) return nullptr; ninit++; H = VsCurl{nullptr, nullptr, nullptr, 0, 1}; return &H; }
void curl_easy_cleanup(CURL *h) { if (h) { nclean++; h->live = 0; } }
static const char *URL = "http://host/f";
CURLcode curl_easy_perform(CURL *h) {
  if (!h || !h->url || !h->live) return CURLE_BAD_FUNCTION_ARGUMENT;
  nperf++;
  vs_assert(streq(h->url, URL), "the requested address is the one given");
  if (srv == 1) return CURLE_COULDNT_CONNECT;
  if (srv == 2 && h->failon) return CURLE_HTTP_RETURNED_ERROR;
  int o = 0;
  for (int i = 0; i < nchunk; i++) {
    if (srv == 3 && i == nchunk - 1) return CURLE_PARTIAL_FILE;
    size_t w = h->cb ? h->cb(body + o, 1, clen[i], h->wd) : vsw_fwrite(body + o, 1, clen[i], (FILE *)h->wd);
    if (w != (size_t)clen[i]) return CURLE_WRITE_ERROR;
    o += clen[i];
  }
  return srv == 3 ? CURLE_PARTIAL_FILE : CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL *, CURLINFO, long *v) { *v = srv == 2 ? 404 : 200; return CURLE_OK; }
static int vsw_access(const char *n, int) { return vsw_kind(n) ? 0 : -1; }
static int vsw_stat(const char *n, struct stat *st) {
  int k = vsw_kind(n);
  if (!k) return -1;
  st->st_mode = k == 1 ? S_IFREG | 0644 : S_IFDIR | 0755;
  st->st_size = vsw_size(n);
  return 0;
}
namespace std {
struct vsw_ifstream {
  bool ok;
  explicit vsw_ifstream(const char *n, int = 0) : ok(vsw_kind(n) == 1) {}
  explicit vsw_ifstream(const string &n, int = 0) : ok(vsw_kind(n.c_str()) == 1) {}
  bool good() const { return ok; }
  bool is_open() const { return ok; }
  bool fail() const { return !ok; }
  void close() {}
  explicit operator bool() const { return ok; }
  bool operator!() const { return !ok; }
};
}
namespace std { using ::vsw_fopen; using ::vsw_fwrite; using ::vsw_fclose; using ::vsw_fflush; using ::vsw_ferror; using ::vsw_remove; using ::vsw_rename; namespace filesystem { using ::vsw_remove; using ::vsw_rename; } }
#define fopen vsw_fopen
#define fwrite vsw_fwrite
#define fclose vsw_fclose
#define fflush vsw_fflush
#define ferror vsw_ferror
#define remove vsw_remove
#define unlink vsw_remove
#define rename vsw_rename
#define access vsw_access
#define stat(a, b) vsw_stat(a, b)
#define ifstream vsw_ifstream
#include "src/web/http_get.cpp"
#undef stat
#undef ifstream
static const char *L = "out.dat";
static int scene(bool force) {
  NN = 0; nopen = nclosed = ninit = nclean = nperf = open_done = 0;
  int k = mk(L);
  W[k].kind = vs_choice("local", 3);
  W[k].len = W[k].kind == 1 ? vs_int("oldlen", 0, 3) : 0;
  for (int i = 0; i < 3; i++) W[k].data[i] = 'o';
  canopen = vs_choice("open", 2);
  initfail = vs_choice("init", 8) == 7;
  srv = vs_choice("server", 4);
  flushfail = vs_choice("flush", 2);
  nchunk = vs_choice("chunks", 3 + VS_THOROUGH);
  total = 0;
  for (int i = 0; i < nchunk; i++) { clen[i] = vs_int("len", 1, 3); total += clen[i]; }
  for (int i = 0; i < 9; i++) body[i] = (char)vs_int("byte", 0, 255);
  room = vs_int("room", 0, 10);
  int old = W[k].kind, oldlen = W[k].len;
  int st = force ? dso::http_get(URL, L, true) : dso::http_get(URL, L);
  vs_assert(nopen == nclosed, "every stream is closed");
  vs_assert(ninit == nclean, "the session is released");
  if (!force && old == 1) {
    vs_assert(st < 0, "existing file, no force: reported as not downloaded");
    vs_assert(nperf == 0 && W[k].kind == 1 && W[k].len == oldlen, "existing file, no force: file untouched, nothing requested");
    for (int i = 0; i < oldlen; i++) vs_assert(W[k].data[i] == 'o', "existing file, no force: content untouched");
    return st;
  }
  vs_assert(st >= 0, "negative only for an existing file");
  if (canopen && old != 2 && !initfail && srv == 0 && total <= room) vs_assert(st == 0, "a transfer without faults succeeds");
  if (st == 0) {
    vs_assert(srv == 0, "success only if the server delivered the file");
    vs_assert(W[k].kind == 1 && W[k].len == total && total <= room, "success: the whole body is in the file");
    for (int i = 0; i < total; i++) vs_assert(W[k].data[i] == body[i], "success: bytes as received");
  } else if (open_done) vs_assert(W[k].kind == 0, "failure: no partial file is left");
  else vs_assert(W[k].kind == old && W[k].len == oldlen, "failure before opening: the file is as it was");
  for (int i = 0; i < NN; i++) if (i != k) vs_assert(W[i].kind == 0, "no other file is left behind");
  return st;
}
HARNESS(h_get) {
  int st = scene(false);
  vs_obs_i("status", st);
  if (!st) vs_reach("stored");
  if (st > 0) vs_reach("failed");
  if (st < 0) vs_reach("kept");
  vs_reach("end");
}
HARNESS(h_get_force) {
  int st = scene(true);
  vs_obs_i("status", st);
  if (!st) vs_reach("stored");
  if (st > 0) vs_reach("failed");
  vs_reach("end");
}
