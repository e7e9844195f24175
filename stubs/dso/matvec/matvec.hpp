// Stand-in for the matvec dependency (not installed here): plain 3-vectors and row-major 3x3 matrices.
#ifndef VS_STUB_MATVEC
#define VS_STUB_MATVEC
#include <cmath>
#include <utility>
namespace dso {
struct Vector3 {
  double data[3];
  static Vector3 to_vec3(const double *p) { return Vector3{{p[0], p[1], p[2]}}; }
  double &x() { return data[0]; }
  double &y() { return data[1]; }
  double &z() { return data[2]; }
  double x() const { return data[0]; }
  double y() const { return data[1]; }
  double z() const { return data[2]; }
  double &operator()(int i) { return data[i]; }
  double operator()(int i) const { return data[i]; }
  double norm_squared() const { return data[0] * data[0] + data[1] * data[1] + data[2] * data[2]; }
  double squared_norm() const { return norm_squared(); }
  double norm() const { return std::sqrt(norm_squared()); }
  double dot_product(const Vector3 &b) const { return data[0] * b.data[0] + data[1] * b.data[1] + data[2] * b.data[2]; }
  Vector3 cross_product(const Vector3 &b) const {
    return Vector3{{data[1] * b.data[2] - data[2] * b.data[1], data[2] * b.data[0] - data[0] * b.data[2], data[0] * b.data[1] - data[1] * b.data[0]}};
  }
  Vector3 normalize() const { double n = norm(); return Vector3{{data[0] / n, data[1] / n, data[2] / n}}; }
  Vector3 &operator/=(double s) { for (double &d : data) d /= s; return *this; }
  Vector3 &operator*=(double s) { for (double &d : data) d *= s; return *this; }
  Vector3 &operator+=(const Vector3 &b) { for (int i = 0; i < 3; i++) data[i] += b.data[i]; return *this; }
  Vector3 &operator-=(const Vector3 &b) { for (int i = 0; i < 3; i++) data[i] -= b.data[i]; return *this; }
};
inline Vector3 operator+(const Vector3 &a, const Vector3 &b) { return Vector3{{a.data[0] + b.data[0], a.data[1] + b.data[1], a.data[2] + b.data[2]}}; }
inline Vector3 operator-(const Vector3 &a, const Vector3 &b) { return Vector3{{a.data[0] - b.data[0], a.data[1] - b.data[1], a.data[2] - b.data[2]}}; }
inline Vector3 operator-(const Vector3 &a) { return Vector3{{-a.data[0], -a.data[1], -a.data[2]}}; }
inline Vector3 operator*(double s, const Vector3 &a) { return Vector3{{s * a.data[0], s * a.data[1], s * a.data[2]}}; }
inline Vector3 operator*(const Vector3 &a, double s) { return s * a; }
inline Vector3 operator/(const Vector3 &a, double s) { return Vector3{{a.data[0] / s, a.data[1] / s, a.data[2] / s}}; }
struct Mat3x3 {
  double data[9]; // row major
  double &operator()(int i, int j) { return data[3 * i + j]; }
  double operator()(int i, int j) const { return data[3 * i + j]; }
  Mat3x3 &transpose_inplace() { std::swap(data[1], data[3]); std::swap(data[2], data[6]); std::swap(data[5], data[7]); return *this; }
  static Mat3x3 RotZ(double a) { double c = std::cos(a), s = std::sin(a); return Mat3x3{{c, s, 0, -s, c, 0, 0, 0, 1}}; }
};
inline Vector3 operator*(const Mat3x3 &m, const Vector3 &v) {
  Vector3 r;
  for (int i = 0; i < 3; i++) r.data[i] = m(i, 0) * v.data[0] + m(i, 1) * v.data[1] + m(i, 2) * v.data[2];
  return r;
}
inline Mat3x3 operator*(const Mat3x3 &a, const Mat3x3 &b) {
  Mat3x3 r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r(i, j) = a(i, 0) * b(0, j) + a(i, 1) * b(1, j) + a(i, 2) * b(2, j);
  return r;
}
} // namespace dso
#endif
