// Configuration look-up over a model of yaml-cpp: a tree of maps and scalars with the library's documented failures.
#define VS_FSTREAM_DISTINCT
#include <fstream>
#include <string>
#include <cstring>
#include <cstdio>
#include <stdexcept>
#include "vs.h"
#define VS_YAML
struct Tree { int kind; const char *key[3]; Tree *kid[3]; int n; int i; double d; const char *s; }; // kind: 0 null, 1 map, 2 integer, 3 real, 4 text
namespace YAML {
struct Exception : std::runtime_error { Exception() : std::runtime_error("yaml") {} };
struct InvalidNode : Exception {};
struct BadSubscript : Exception {};
struct BadConversion : Exception {};
struct Node {
  const Tree *t;
  explicit Node(const Tree *p) : t(p) {}
  Node operator[](const std::string &k) const {
    if (!t) throw InvalidNode();
    if (t->kind == 0) return Node(nullptr);
    if (t->kind != 1) throw BadSubscript();
    const char *c = k.c_str();
    for (int i = 0; i < t->n; i++) {
      const char *a = t->key[i], *b = c;
      while (*a && *a == *b) ++a, ++b;
      if (*a == *b) return Node(t->kid[i]);
    }
    return Node(nullptr);
  }
  bool IsDefined() const { return t; }
  bool IsNull() const { return t && t->kind == 0; }
  bool IsMap() const { return t && t->kind == 1; }
  bool IsScalar() const { return t && t->kind > 1; }
  explicit operator bool() const { return t; }
  bool operator!() const { return !t; }
  template <typename T> T as() const { T v; get(v); return v; }
  void get(int &v) const { if (!t) throw InvalidNode(); if (t->kind != 2) throw BadConversion(); v = t->i; }
  void get(double &v) const { if (!t) throw InvalidNode(); if (t->kind != 2 && t->kind != 3) throw BadConversion(); v = t->d; }
  void get(std::string &v) const { if (!t) throw InvalidNode(); if (t->kind < 2) throw BadConversion(); v = t->s; }
};
inline Node LoadFile(const std::string &) { throw BadSubscript(); }
}
#include "var_utils.hpp"
#include "var/yaml_utils.cpp"

static Tree leaf[3][4], mid[3][3], top[3], root;
static char txt[3][8];
static void plant(bool deep) {
  // values: an integer, a real, a text, a null; one map is empty, one entry of the root is a scalar
  for (int i = 0; i < 3; i++) {
    leaf[i][0] = Tree{2, {}, {}, 0, vs_int("i", -1000, 1000), vs_double("x", -1000, 1000), "7"};
    leaf[i][1] = Tree{3, {}, {}, 0, 0, vs_double("d", -1e6, 1e6), "2.5"};
    for (int k = 0; k < 5; k++) txt[i][k] = vs_char("c", "ab/");
    txt[i][5] = 0;
    leaf[i][2] = Tree{4, {}, {}, 0, 0, 0, txt[i]};
    leaf[i][3] = Tree{0, {}, {}, 0, 0, 0, ""};
  }
  for (int i = 0; i < 3; i++) {
    mid[i][0] = Tree{1, {"a", "b", "ab"}, {&leaf[i][0], &leaf[(i + 1) % 3][1], &leaf[(i + 2) % 3][2]}, 3, 0, 0, ""};
    mid[i][1] = Tree{1, {"b", "c", "a"}, {&leaf[i][1], &leaf[(i + 1) % 3][3], &leaf[(i + 1) % 3][2]}, 3, 0, 0, ""};
    mid[i][2] = leaf[i][2];
  }
  if (deep) for (int i = 0; i < 3; i++) top[i] = Tree{1, {"a", "b", "c"}, {&mid[i][0], &mid[i][1], &mid[i][2]}, i < 2 ? 3 : 0, 0, 0, ""};
  else for (int i = 0; i < 3; i++) top[i] = mid[0][i];
  root = Tree{1, {"b", "a", "ab"}, {&top[0], &top[1], &top[2]}, 3, 0, 0, ""};
}
static void name(char *k) { k[0] = vs_char("key", "abc"); k[1] = vs_choice("two", 2) ? 'b' : 0; k[2] = 0; }
static const Tree *walk(const Tree *t, const char *k) {
  if (t && t->kind == 1) for (int i = 0; i < t->n; i++) if (!std::strcmp(t->key[i], k)) return t->kid[i];
  return nullptr;
}
template <typename F2, typename F3> static void ask(bool deep, int type, const Tree *w, const char *k1, const char *k2, const char *k3, F2 f2, F3 f3) {
  YAML::Node n(&root);
  if (type == 0) {
    int v = -77777, rc = deep ? f3(n, k1, k2, k3, v) : f2(n, k1, k2, v);
    vs_assert((rc == 0) == (w && w->kind == 2), "an integer is found exactly when the path leads to one");
    if (!rc) vs_assert(v == w->i, "integer at the path");
  } else if (type == 1) {
    double v = -77777; int rc = deep ? f3(n, k1, k2, k3, v) : f2(n, k1, k2, v);
    vs_assert((rc == 0) == (w && (w->kind == 2 || w->kind == 3)), "a number is found exactly when the path leads to one");
    if (!rc) vs_close(v, w->d, 1e-9, "number at the path");
  } else {
    char buf[16];
    for (char &c : buf) c = '#';
    int rc = deep ? f3(n, k1, k2, k3, (char *)buf) : f2(n, k1, k2, (char *)buf);
    vs_assert((rc == 0) == (w && w->kind > 1), "a text is found exactly when the path leads to a value");
    if (!rc) {
      int l = std::strlen(w->s);
      for (int i = 0; i <= l; i++) vs_assert(buf[i] == w->s[i], "text at the path, terminated");
      for (int i = l + 1; i < 16; i++) vs_assert(buf[i] == '#', "nothing behind the text is touched");
    }
  }
}
HARNESS(h_lookup) {
  bool deep = vs_choice("deep", 2);
  plant(deep);
  char k1[3], k2[3], k3[3];
  name(k1); name(k2);
  if (deep) name(k3);
  const Tree *w = walk(walk(&root, k1), k2);
  if (deep) w = walk(w, k3);
  ask(deep, vs_choice("type", 3), w, k1, k2, k3,
      [](const YAML::Node &n, const char *a, const char *b, auto &&v) { if constexpr (std::is_pointer_v<std::decay_t<decltype(v)>>) return dso::get_yaml_value_depth2(n, a, b, static_cast<char *>(v)); else return dso::get_yaml_value_depth2(n, a, b, v); },
      [](const YAML::Node &n, const char *a, const char *b, const char *c, auto &&v) { if constexpr (std::is_pointer_v<std::decay_t<decltype(v)>>) return dso::get_yaml_value_depth3(n, a, b, c, static_cast<char *>(v)); else return dso::get_yaml_value_depth3(n, a, b, c, v); });
  vs_reach("end");
}
