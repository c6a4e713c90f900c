// Exact and high-precision arithmetic used as an oracle (not Principia's).
#pragma once

#include <array>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/multiprecision/gmp.hpp>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <utility>

namespace exact {

using Z = boost::multiprecision::mpz_int;
using Q = boost::multiprecision::mpq_rational;

inline Q Pow2(int const e) {
  Z one = 1;
  if (e >= 0) return Q(Z(one << e));
  return Q(one, Z(one << -e));
}

inline Q Exact(double const x) {
  if (x == 0) return Q(0);
  int e;
  double const m = std::frexp(x, &e);
  std::int64_t const i = static_cast<std::int64_t>(std::ldexp(m, 53));
  return Q(Z(i)) * Pow2(e - 53);
}

inline Q Abs(Q const& x) { return x < 0 ? Q(-x) : x; }

// The neighbours, as rationals, without overflow.
inline Q ExactUp(double const r) {
  double const n = std::nextafter(r, std::numeric_limits<double>::infinity());
  return std::isinf(n) ? Pow2(1024) : Exact(n);
}
inline Q ExactDown(double const r) { return -ExactUp(-r); }

// Whether `r` is the rounding to nearest, ties to even, of a number known to be
// in [lo, hi].
inline bool IsNearest(double const r, Q const& lo, Q const& hi) {
  if (std::isnan(r)) return false;
  if (std::isinf(r)) {
    Q const limit = (Exact(std::numeric_limits<double>::max()) + Pow2(1024)) / 2;
    return r > 0 ? lo >= limit : hi <= -limit;
  }
  Q const x = Exact(r);
  Q const up = (x + ExactUp(r)) / 2;
  Q const down = (x + ExactDown(r)) / 2;
  if (lo < down || hi > up) return false;
  std::uint64_t bits;
  std::memcpy(&bits, &r, 8);
  bool const even = (bits & 1) == 0;
  if (lo == hi && !even && (lo == down || lo == up)) return false;
  return true;
}
inline bool IsNearest(double const r, Q const& x) { return IsNearest(r, x, x); }

// The nearest double, for differences and messages.
inline double ToDouble(Q const& x) {
  return static_cast<double>(x);
}

// π·2^bits, truncated (Machin).
inline Z PiFixed(int const bits) {
  auto const arctan_inverse = [](int const n, int const bits) {
    Z const one = Z(1) << bits;
    Z term = one / n;
    Z sum = term;
    for (int k = 1; term != 0; ++k) {
      term /= n * n;
      Z const t = term / (2 * k + 1);
      if (k % 2 == 1) sum -= t; else sum += t;
    }
    return sum;
  };
  int const b = bits + 32;
  Z const pi = 4 * (4 * arctan_inverse(5, b) - arctan_inverse(239, b));
  return pi >> 32;
}

// The reduction of x modulo π/2: x = q π/2 + y, with |y| ≤ π/4; y has an
// absolute error below 2^-300 and, if q = 0, is exact.
struct Reduced {
  Q y;
  int quadrant;
  Z q;
};
inline Reduced Reduce(double const x) {
  static int const bits = 1500;
  static Z const pi = PiFixed(bits);
  static Q const half_pi = Q(pi, Z(Z(1) << (bits + 1)));
  Q const e = Exact(x);
  if (Abs(e) < half_pi / 2) return {e, 0, 0};
  // q = round(e / half_pi).
  Q const t = e / half_pi + Q(1, 2);
  Z num = boost::multiprecision::numerator(t);
  Z den = boost::multiprecision::denominator(t);
  Z q = num / den;
  if (num < 0 && q * den != num) q -= 1;
  Q const y = e - Q(q) * half_pi;
  Z m = q % 4;
  if (m < 0) m += 4;
  return {y, static_cast<int>(m), q};
}

// sin and cos of y, |y| ≤ 1, as intervals.  sin is relative.
inline std::pair<Q, Q> SinCosSmall(Q const& y, bool const cosine) {
  // Fixed point with 400 bits of the series in y².
  int const bits = 400;
  Q const y2q = y * y;
  Z const y2 = Z(boost::multiprecision::numerator(y2q) << bits) /
               boost::multiprecision::denominator(y2q);
  Z term = Z(1) << bits;
  Z sum = term;
  for (int k = 1; term != 0 && k < 200; ++k) {
    term = (term * y2) >> bits;
    term /= cosine ? (2 * k - 1) * (2 * k) : (2 * k) * (2 * k + 1);
    if (k % 2 == 1) sum -= term; else sum += term;
  }
  Z const one = Z(1) << bits;
  Z const error = Z(1) << 40;
  Q lo(Z(sum - error), one);
  Q hi(Z(sum + error), one);
  if (!cosine) {
    lo *= y;
    hi *= y;
    if (y < 0) std::swap(lo, hi);
  }
  return {lo, hi};
}

inline std::pair<Q, Q> Sin(double const x) {
  auto const r = Reduce(x);
  auto result = SinCosSmall(r.y, r.quadrant % 2 == 1);
  if (r.quadrant >= 2) {
    result = {-result.second, -result.first};
  }
  return result;
}
inline std::pair<Q, Q> Cos(double const x) {
  auto const r = Reduce(x);
  auto result = SinCosSmall(r.y, r.quadrant % 2 == 0);
  if (r.quadrant == 1 || r.quadrant == 2) {
    result = {-result.second, -result.first};
  }
  return result;
}

}  // namespace exact
