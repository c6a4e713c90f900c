// Small linear algebra in extended precision, as the reference model.
#pragma once

#include <array>
#include <cmath>
#include <ostream>

#include "pbt.hpp"

namespace ref {

using Real = long double;
constexpr Real π = 3.14159265358979323846264338327950288L;

struct Vec {
  std::array<Real, 3> v{};
  Real& operator[](int i) { return v[i]; }
  Real operator[](int i) const { return v[i]; }
};
inline Vec operator+(Vec const& a, Vec const& b) {
  return {a[0] + b[0], a[1] + b[1], a[2] + b[2]};
}
inline Vec operator-(Vec const& a, Vec const& b) {
  return {a[0] - b[0], a[1] - b[1], a[2] - b[2]};
}
inline Vec operator-(Vec const& a) { return {-a[0], -a[1], -a[2]}; }
inline Vec operator*(Real k, Vec const& a) {
  return {k * a[0], k * a[1], k * a[2]};
}
inline Real Dot(Vec const& a, Vec const& b) {
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
inline Vec Cross(Vec const& a, Vec const& b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
          a[0] * b[1] - a[1] * b[0]};
}
inline Real Norm(Vec const& a) { return std::sqrt(Dot(a, a)); }
inline Vec Unit(Vec const& a) { return (1 / Norm(a)) * a; }
inline std::ostream& operator<<(std::ostream& o, Vec const& a) {
  return o << "{" << a[0] << ", " << a[1] << ", " << a[2] << "}";
}

struct Mat {
  std::array<std::array<Real, 3>, 3> m{};
  Real& operator()(int i, int j) { return m[i][j]; }
  Real operator()(int i, int j) const { return m[i][j]; }
  static Mat Diagonal(Real a, Real b, Real c) {
    Mat r;
    r(0, 0) = a;
    r(1, 1) = b;
    r(2, 2) = c;
    return r;
  }
  static Mat Identity() { return Diagonal(1, 1, 1); }
  static Mat Rows(Vec const& a, Vec const& b, Vec const& c) {
    Mat r;
    r.m = {a.v, b.v, c.v};
    return r;
  }
};
inline Vec operator*(Mat const& a, Vec const& b) {
  Vec r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r[i] += a(i, j) * b[j];
  return r;
}
inline Mat operator*(Mat const& a, Mat const& b) {
  Mat r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      for (int k = 0; k < 3; ++k) r(i, j) += a(i, k) * b(k, j);
  return r;
}
inline Mat operator*(Real k, Mat const& a) {
  Mat r = a;
  for (auto& row : r.m)
    for (auto& x : row) x *= k;
  return r;
}
inline Mat operator+(Mat const& a, Mat const& b) {
  Mat r = a;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r(i, j) += b(i, j);
  return r;
}
inline Mat Transpose(Mat const& a) {
  Mat r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r(i, j) = a(j, i);
  return r;
}
inline Vec Row(Mat const& a, int i) { return {a(i, 0), a(i, 1), a(i, 2)}; }
inline Real Det(Mat const& a) {
  return Dot(Row(a, 0), Cross(Row(a, 1), Row(a, 2)));
}
inline Real Frobenius(Mat const& a) {
  Real s = 0;
  for (auto const& row : a.m)
    for (auto const x : row) s += x * x;
  return std::sqrt(s);
}
// Active rotation.
inline Mat Rodrigues(Real const angle, Vec const& axis) {
  Vec const u = Unit(axis);
  Real const c = std::cos(angle);
  Real const s = std::sin(angle);
  Mat r;
  for (int j = 0; j < 3; ++j) {
    Vec e;
    e[j] = 1;
    Vec const w = c * e + s * Cross(u, e) + ((1 - c) * Dot(u, e)) * u;
    for (int i = 0; i < 3; ++i) r(i, j) = w[i];
  }
  return r;
}
inline Vec Axis(int i) {
  Vec e;
  e[i] = 1;
  return e;
}
inline std::ostream& operator<<(std::ostream& o, Mat const& a) {
  return o << "[" << Row(a, 0) << " " << Row(a, 1) << " " << Row(a, 2) << "]";
}

// A direction, often special.
inline Vec Direction(pbt::Src& s) {
  Vec d;
  switch (s.below(6)) {
    case 0:
      d[s.below(3)] = s.coin() ? -1 : 1;
      return d;
    case 1:
      for (int i = 0; i < 3; ++i) d[i] = static_cast<Real>(s.range(-2, 2));
      break;
    case 2: {
      // Close to an axis.
      int const k = s.below(3);
      for (int i = 0; i < 3; ++i) d[i] = i == k ? 1 : s.slog(1e-12, 1e-1);
      break;
    }
    default:
      for (int i = 0; i < 3; ++i) d[i] = s.sym(1);
      break;
  }
  if (Dot(d, d) < 1e-60L) {
    d[0] = 1;
  }
  return Unit(d);
}

// An angle, often special, in [-limit, limit].
inline double SomeAngle(pbt::Src& s, double limit) {
  double a;
  switch (s.below(5)) {
    case 0:
      a = static_cast<double>(s.range(-8, 8)) * static_cast<double>(π) / 4;
      break;
    case 1:
      a = s.slog(1e-12, 1);
      break;
    case 2:
      a = (s.coin() ? 1 : -1) * (static_cast<double>(π) - s.log(1e-12, 1));
      break;
    default:
      a = s.sym(limit);
      break;
  }
  return std::max(-limit, std::min(limit, a));
}

}  // namespace ref
