// Mat2D, EnumBitset, factorial tables.
#include "vs.h"
#include <utility>
#include "cmat2d.hpp"
#include "enum_bitset.hpp"
#include "factorial.hpp"
using dso::Mat2D; using dso::MatrixStorageType;
static const int RM = VS_THOROUGH ? 5 : 4;

template <MatrixStorageType S> static bool inside(int i, int j) { return S != MatrixStorageType::Trapezoid || j <= i; }
template <MatrixStorageType S> static void fill(Mat2D<S> &m, double v[6][6], const char *nm) {
  for (int i = 0; i < m.rows(); i++)
    for (int j = 0; j < m.cols(); j++)
      if (inside<S>(i, j)) { v[i][j] = vs_double(nm, -9, 9); m(i, j) = v[i][j]; }
}
template <MatrixStorageType S> static void same(const Mat2D<S> &m, int r, int c, double v[6][6], const char *lab) {
  vs_assert(m.rows() == r && m.cols() == c, "dimensions");
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      if (inside<S>(i, j)) vs_same(m(i, j), v[i][j], lab);
}
template <MatrixStorageType S> static void index_() {
  int r = vs_choice("r", RM) + 1, c = vs_choice("c", RM) + 1;
  Mat2D<S> m(r, c);
  double v[6][6];
  fill(m, v, "v");
  same(m, r, c, v, "element keeps its value");
  const Mat2D<S> &k = m;
  int cnt = 0;
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      if (inside<S>(i, j)) {
        ++cnt;
        if (S == MatrixStorageType::ColumnWise) { vs_same(m.slice(j)[i], v[i][j], "slice"); vs_same(k.slice(j)[i], v[i][j], "slice"); }
        else { vs_same(m.slice(i)[j], v[i][j], "slice"); vs_same(k.slice(i)[j], v[i][j], "slice"); }
        if (S == MatrixStorageType::Trapezoid && r == c) vs_same(m(j, i), v[i][j], "mirrored element of a triangular matrix");
      }
  vs_assert(m.num_elements() == cnt, "number of elements");
  double f = vs_double("f", -5, 5);
  m.fill_with(f);
  for (int i = 0; i < cnt; i++) vs_same(k.data()[i], f, "fill");
  vs_obs_i("n", cnt);
  vs_obs_d("d", m(r - 1, 0));
}
HARNESS(h_mat_index) {
  switch (vs_choice("kind", 3)) {
  case 0: index_<MatrixStorageType::RowWise>(); break;
  case 1: index_<MatrixStorageType::ColumnWise>(); break;
  default: index_<MatrixStorageType::Trapezoid>();
  }
  vs_reach("end");
}
// sizes of real models: distinct values in every element
template <MatrixStorageType S> static void big_() {
  static const int sz[4][2] = {{40, 40}, {41, 17}, {17, 41}, {1, 70}};
  int k = vs_choice("size", 4), r = sz[k][0], c = sz[k][1];
  Mat2D<S> m(r, c);
  double a = vs_double("a", -9, 9);
  for (int j = 0; j < c; j++)
    for (int i = 0; i < r; i++)
      if (inside<S>(i, j)) m(i, j) = a + (i * 128 + j);
  Mat2D<S> b(m), d(2, 2);
  d = m;
  const Mat2D<S> &q = m;
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      if (inside<S>(i, j)) {
        double e = a + (i * 128 + j);
        vs_same(m(i, j), e, "element keeps its value");
        vs_same(b(i, j), e, "copied element");
        vs_same(d(i, j), e, "assigned element");
        vs_same(S == MatrixStorageType::ColumnWise ? q.slice(j)[i] : q.slice(i)[j], e, "slice");
        if (S == MatrixStorageType::Trapezoid && r == c) vs_same(m(j, i), e, "mirrored element of a triangular matrix");
      }
  m.fill_with(a);
  for (int i = 0; i < m.num_elements(); i++) vs_same(q.data()[i], a, "fill");
}
HARNESS(h_mat_big) {
  switch (vs_choice("kind", 3)) {
  case 0: big_<MatrixStorageType::RowWise>(); break;
  case 1: big_<MatrixStorageType::ColumnWise>(); break;
  default: big_<MatrixStorageType::Trapezoid>();
  }
  vs_reach("end");
}
template <MatrixStorageType S> static void life_() {
  int live = vs_heap_live();
  {
    double va[6][6], vb[6][6];
    int ra = vs_choice("ra", 3) + 1, ca = vs_choice("ca", 3) + 1, rb = vs_choice("rb", 3) + 1, cb = vs_choice("cb", 3) + 1;
    Mat2D<S> a(ra, ca), b(rb, cb);
    fill(a, va, "a");
    fill(b, vb, "b");
    switch (vs_choice("op", 7)) {
    case 0: { Mat2D<S> c(a); same(c, ra, ca, va, "copy equals source"); a(0, 0) = 77; vs_same(c(0, 0), va[0][0], "copy is independent"); break; }
    case 1: b = a; same(b, ra, ca, va, "assignment equals source"); same(a, ra, ca, va, "source unchanged"); b(0, 0) = 77; vs_same(a(0, 0), va[0][0], "copy is independent"); break;
    case 2: { Mat2D<S> c(std::move(a)); same(c, ra, ca, va, "moved-to equals source"); break; }
    case 3: b = std::move(a); same(b, ra, ca, va, "moved-to equals source"); break;
    case 4: { Mat2D<S> c(std::move(a)); a = b; same(a, rb, cb, vb, "moved-from can be assigned"); same(c, ra, ca, va, "moved-to keeps its values"); break; }
    case 5: { Mat2D<S> &r = a; a = r; same(a, ra, ca, va, "self assignment"); break; }
    default: { Mat2D<S> c(std::move(a)); a = std::move(b); same(a, rb, cb, vb, "moved-from can be move assigned"); Mat2D<S> d(a); same(d, rb, cb, vb, "copy after move"); }
    }
  }
  vs_assert(vs_heap_live() == live, "all memory released");
}
HARNESS(h_mat_life) {
  switch (vs_choice("kind", 3)) {
  case 0: life_<MatrixStorageType::RowWise>(); break;
  case 1: life_<MatrixStorageType::ColumnWise>(); break;
  default: life_<MatrixStorageType::Trapezoid>();
  }
  vs_reach("end");
}
enum class Fl : unsigned char { a = 1 };
enum class Fi : unsigned { a = 1 };
enum class Fd { a = 1 };                 // underlying type int
enum class Fw : unsigned long { a = 1 };
// flags are powers of two chosen by the solver; on = the set expected
template <class F, int N> static void bits_(const int *pos = nullptr) {
  typedef unsigned long ul;
  auto flag = [pos](int k) { return F(typename std::underlying_type<F>::type(ul(1) << (pos ? pos[k] : k))); };
  auto any = [pos](const char *nm) { return pos ? vs_choice(nm, N) : vs_int(nm, 0, N - 1); };
  unsigned on = 0;
  dso::EnumBitset<F> x;
  vs_assert(x.is_clean(), "new flag is clean");
  int start = vs_choice("start", 3);
  if (start == 1) { int k = any("k0"); x = dso::EnumBitset<F>(flag(k)); on = 1u << k; }
  if (start == 2) { int k = any("k0"), l = any("l0"); x = dso::EnumBitset<F>({flag(k), flag(l)}); on = 1u << k | 1u << l; }
  for (int i = 0; i < (pos ? 2 : 3 + VS_THOROUGH); i++) {
    int op = vs_choice("op", 3), k = op == 2 ? 0 : any("k");
    if (op == 0) { x.set(flag(k)); on |= 1u << k; }
    if (op == 1) { x.clear(flag(k)); on &= ~(1u << k); }
    if (op == 2) { x.clear(); on = 0; }
  }
  int j = any("j");
  vs_assert(x.check(flag(j)) == bool(on >> j & 1), "exactly the flags set last are on");
  vs_assert(x.is_clean() == !on, "clean iff nothing is on");
  dso::EnumBitset<F> y(x), z;
  vs_assert(x == y && !(x != y), "equality is set equality");
  for (int i = N - 1; i >= 0; i--) if (on >> i & 1) z.set(flag(i));
  vs_assert(x == z && !(x != z), "equality does not depend on the order of operations");
  if (on >> j & 1) y.clear(flag(j)); else y.set(flag(j));
  vs_assert(x != y && !(x == y), "different sets differ");
}
HARNESS(h_bitset) {
  if (vs_choice("type", 2)) bits_<Fl, 8>(); else bits_<Fi, 8 + 22 * VS_THOROUGH>();
  vs_reach("end");
}
// flags at both ends of the underlying type
HARNESS(h_bitset_wide) {
  static const int pd[4] = {0, 7, 8, 31}, pw[5] = {0, 31, 32, 33, 63};
  if (vs_choice("type", 2)) bits_<Fd, 4>(pd); else bits_<Fw, 5>(pw);
  vs_reach("end");
}
HARNESS(h_fact) {
  static const dso::FactorialLookUpTable<unsigned long, 20> T;
  static const dso::FactorialLookUpTable<double, 30> D;
  const int K = VS_THOROUGH ? 30 : 20;
  int n = vs_int("n", 0, K), m = vs_int("m", 0, K);
  double f = 1, r = 1;
  unsigned long u = 1;
  for (int i = 2; i <= n; i++) { f *= i; u *= i; }
  if (n <= 20) vs_assert(T.factorial(n) == u, "integer factorial");
  vs_close(D.factorial(n) / f, 1, 1e-12, "floating factorial");
  for (int i = n; i > m; i--) r *= i;
  for (int i = m; i > n; i--) r /= i;
  vs_close(dso::factorialRatio<double>(n, m) / r, 1, 1e-12, "n!/m!");
  vs_obs_d("r", dso::factorialRatio<double>(n, m));
  vs_close(dso::factorialRatio<double, 7, 3>(), 840, 1e-9, "7!/3!");
  vs_close(dso::factorialRatio<double, 4, 6>(), 1 / 30., 1e-12, "4!/6!");
  vs_close(dso::factorialRatio<double, 5, 5>(), 1, 1e-12, "5!/5!");
  vs_reach("end");
}
