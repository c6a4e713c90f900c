// P05 (floating-point primitives) and P06 (elementary functions), against exact
// rational arithmetic.

extern "C" __float128 sinq(__float128);
extern "C" __float128 cosq(__float128);

#include <cfloat>
#include <cmath>
#include <limits>
#include <vector>

#include "exact.hpp"
#include "functions/multiprecision.hpp"
#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "numerics/angle_reduction.hpp"
#include "numerics/cbrt.hpp"
#include "numerics/combinatorics.hpp"
#include "numerics/double_precision.hpp"
#include "numerics/elementary_functions.hpp"
#include "numerics/fma.hpp"
#include "numerics/log_b.hpp"
#include "numerics/next.hpp"
#include "numerics/scale_b.hpp"
#include "numerics/sin_cos.hpp"
#include "numerics/ulp_distance.hpp"
#include "quantities/si.hpp"
#include "fatal.hpp"
#include "pbt.hpp"

namespace principia {
namespace numerics {

using namespace principia::base::_multiprecision;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::geometry::_grassmann;
using namespace principia::numerics::_angle_reduction;
using namespace principia::numerics::_combinatorics;
using namespace principia::numerics::_double_precision;
using principia::numerics::_elementary_functions::Pow;
using namespace principia::base::_algebra;
using namespace principia::numerics::_fma;
using namespace principia::numerics::_log_b;
using namespace principia::numerics::_scale_b;
using namespace principia::numerics::_ulp_distance;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using exact::Abs;
using exact::Exact;
using exact::ExactDown;
using exact::ExactUp;
using exact::IsNearest;
using exact::Pow2;
using exact::Q;
using exact::Z;
using pbt::Ctx;
using pbt::Src;

namespace {

bool Same(double const x, double const y) {
  return (std::isnan(x) && std::isnan(y)) ||
         (x == y && std::signbit(x) == std::signbit(y));
}

double Any(Src& s) {
  switch (s.below(24)) {
    case 0: return std::numeric_limits<double>::infinity();
    case 1: return -std::numeric_limits<double>::infinity();
    case 2: return std::numeric_limits<double>::quiet_NaN();
    case 3: return -0.0;
    case 4: return s.coin() ? DBL_MAX : -DBL_MAX;
    default: {
      double const x = s.shaped();
      return s.coin() ? x : -x;
    }
  }
}

double Signed(Src& s, int const emin, int const emax) {
  double const x = std::abs(s.shaped(emin, emax));
  return s.coin() ? x : -x;
}

std::string Hex(double const x) {
  char b[64];
  std::snprintf(b, sizeof b, "%a", x);
  return b;
}

// -------------------------------------------------------------- primitives.

void Next(Src& s, Ctx& c) {
  double const x = Any(s);
  c.note() << Hex(x);
  c.nontrivial(std::isfinite(x) && x != 0);
  double const inf = std::numeric_limits<double>::infinity();
  double up = std::nextafter(x, inf);
  double down = std::nextafter(x, -inf);
  // IEEE 754:2008, 5.3.1.
  REQUIRE(Same(_next::NextUp(x), up), "up: " << Hex(_next::NextUp(x)));
  REQUIRE(Same(_next::NextDown(x), down), "down: " << Hex(_next::NextDown(x)));
  if (std::isfinite(x) && std::isfinite(up)) {
    REQUIRE(_next::NextDown(_next::NextUp(x)) == x);
    REQUIRE(ULPDistance(x, up) == 1);
  }
  float const f = static_cast<float>(x);
  REQUIRE((std::isnan(f) && std::isnan(_next::NextUp(f))) ||
              _next::NextUp(f) ==
                  std::nextafter(f, std::numeric_limits<float>::infinity()),
          "float");
  REQUIRE((std::isnan(f) && std::isnan(_next::NextDown(f))) ||
              _next::NextDown(f) ==
                  std::nextafter(f, -std::numeric_limits<float>::infinity()),
          "float");
  Length const l = x * Metre;
  REQUIRE(Same(_elementary_functions::NextUp(l) / Metre, up));
  REQUIRE(Same(_elementary_functions::NextDown(l) / Metre, down));
}

void Log(Src& s, Ctx& c) {
  double const x = Any(s);
  c.note() << Hex(x);
  c.nontrivial(std::isfinite(x) && x != 0);
  REQUIRE(Same(LogB(x), std::logb(x)), LogB(x));
  float const f = static_cast<float>(x);
  REQUIRE(Same(LogB(f), std::logb(f)), "float");
}

void Scale2(Src& s, Ctx& c) {
  double const x = Any(s);
  std::int64_t n = 0;
  switch (s.below(3)) {
    case 0: n = s.range(-60, 60); break;
    case 1: n = s.range(-2200, 2200); break;
    case 2:
      if (std::isfinite(x) && x != 0) {
        // Near the ends of the range of the result.
        n = (s.coin() ? -1074 : 1023) - std::ilogb(x) + s.range(-54, 54);
      }
      break;
  }
  c.note() << Hex(x) << " * 2^" << n;
  c.nontrivial(std::isfinite(x) && x != 0 && n != 0);
  double const expected = std::scalbn(x, n);
  REQUIRE(Same(ScaleB(x, static_cast<int>(n)), expected),
          Hex(ScaleB(x, static_cast<int>(n))) << " not " << Hex(expected));
  REQUIRE(Same(ScaleB(x, n), expected));
  float const f = static_cast<float>(x);
  if (!std::isnan(f)) {
    int const m = n / 8;
    REQUIRE(Same(ScaleB(f, m), std::scalbn(f, m)), "float");
  }
}

std::int64_t Ordinal(double const x) {
  std::int64_t b;
  std::memcpy(&b, &x, 8);
  return b & INT64_MAX;
}

void Ulps(Src& s, Ctx& c) {
  double x = Any(s);
  double y = Any(s);
  if (std::isnan(x)) x = 1;
  if (std::isnan(y)) y = -1;
  std::int64_t const n = s.below(100);
  bool const near = s.coin();
  if (near && std::isfinite(x)) {
    y = x;
    for (std::int64_t i = 0; i < n; ++i) y = _next::NextUp(y);
  }
  c.note() << Hex(x) << " " << Hex(y);
  c.nontrivial(x != y);
  __int128 const a = std::signbit(x) ? -static_cast<__int128>(Ordinal(x))
                                     : Ordinal(x);
  __int128 const b = std::signbit(y) ? -static_cast<__int128>(Ordinal(y))
                                     : Ordinal(y);
  __int128 d = a > b ? a - b : b - a;
  if (d > INT64_MAX) d = INT64_MAX;
  REQUIRE(ULPDistance(x, y) == static_cast<std::int64_t>(d), ULPDistance(x, y));
  REQUIRE(ULPDistance(y, x) == static_cast<std::int64_t>(d), "symmetry");
  REQUIRE(ULPDistance(-x, -y) == static_cast<std::int64_t>(d), "negation");
}

void Combinations(Src& s, Ctx& c) {
  std::int64_t const n = s.below(40);
  std::int64_t const k = s.below(40);
  c.note() << n << " " << k;
  c.nontrivial(n > 1 && k > 1);
  Z falling = 1;
  for (std::int64_t i = 0; i < k; ++i) falling *= n - i;
  Z factorial_k = 1;
  for (std::int64_t i = 2; i <= k; ++i) factorial_k *= i;
  Z const max = INT64_MAX;
  // Pascal.
  std::vector<std::vector<Z>> pascal(41, std::vector<Z>(41, 0));
  for (int i = 0; i <= 40; ++i) {
    pascal[i][0] = 1;
    for (int j = 1; j <= i; ++j) {
      pascal[i][j] = pascal[i - 1][j - 1] + (j < i ? pascal[i - 1][j] : Z(0));
    }
  }
  if (abs(falling) <= max) {
    REQUIRE(Z(FallingFactorial(n, k)) == falling);
    if (factorial_k <= max) {
      REQUIRE(Z(Factorial(k)) == factorial_k);
      REQUIRE(Z(Binomial(n, k)) == pascal[n][k], Binomial(n, k));
    }
  }
  Z dbl = 1;
  for (std::int64_t i = n; i >= 1; i -= 2) dbl *= i;
  if (dbl <= max) REQUIRE(Z(DoubleFactorial(n)) == dbl);
  REQUIRE(KroneckerDelta(n, k) == (n == k ? 1 : 0));
  REQUIRE(KroneckerDelta(n, n) == 1);
  // Negative n.
  std::int64_t const m = -static_cast<std::int64_t>(s.below(10));
  Z f = 1;
  std::int64_t const j = s.below(12);
  for (std::int64_t i = 0; i < j; ++i) f *= m - i;
  REQUIRE(Z(FallingFactorial(m, j)) == f);
}

// -------------------------------------------------------- double precision.

template<typename T>
Q Sum(DoublePrecision<T> const& x) {
  return Exact(x.value) + Exact(x.error);
}

bool Normalized(DoublePrecision<double> const& x) {
  return x.value + x.error == x.value;
}

DoublePrecision<double> SomeDouble(Src& s, int const e = 200) {
  double const a = Signed(s, -e, e);
  switch (s.below(3)) {
    case 0:
      return DoublePrecision<double>(a);
    case 1:
      return TwoSum(a, Signed(s, -e, e));
    default:
      return TwoSum(a, a * s.sym(0x1p-53));
  }
}

void ExactOperations(Src& s, Ctx& c) {
  double const a = Signed(s, -200, 200);
  double const b = s.coin() ? Signed(s, -200, 200)
                            : -a * (1 + s.sym(1) * std::ldexp(1.0, -s.below(60)));
  c.note() << Hex(a) << " " << Hex(b);
  c.nontrivial(a != 0 && b != 0);
  auto const sum = TwoSum(a, b);
  REQUIRE(sum.value == a + b && Sum(sum) == Exact(a) + Exact(b), "TwoSum");
  auto const difference = TwoDifference(a, b);
  REQUIRE(difference.value == a - b && Sum(difference) == Exact(a) - Exact(b),
          "TwoDifference");
  double const big = std::abs(a) >= std::abs(b) ? a : b;
  double const small = std::abs(a) >= std::abs(b) ? b : a;
  auto const quick = QuickTwoSum(big, small);
  REQUIRE(quick.value == a + b && Sum(quick) == Exact(a) + Exact(b),
          "QuickTwoSum");
  auto const quick_difference = QuickTwoDifference(big, small);
  REQUIRE(Sum(quick_difference) == Exact(big) - Exact(small),
          "QuickTwoDifference");
  auto const product = VeltkampDekkerProduct(a, b);
  REQUIRE(product.value == a * b && Sum(product) == Exact(a) * Exact(b),
          "VeltkampDekkerProduct");
  auto const product_a = TwoProduct<FMAPresence::Absent>(a, b);
  auto const product_u = TwoProduct<FMAPresence::Unknown>(a, b);
  REQUIRE(Sum(product_a) == Exact(a) * Exact(b), "TwoProduct, absent");
  REQUIRE(Sum(product_u) == Exact(a) * Exact(b), "TwoProduct, unknown");
  if (EarlyCanUseHardwareFMA()) {
    auto const product_p = TwoProduct<FMAPresence::Present>(a, b);
    REQUIRE(Sum(product_p) == Exact(a) * Exact(b), "TwoProduct, present");
    double const d = Signed(s, -200, 200);
    REQUIRE(_fma::FusedMultiplyAdd(a, b, d) == std::fma(a, b, d));
    REQUIRE(_fma::FusedMultiplySubtract(a, b, d) == std::fma(a, b, -d));
    REQUIRE(_fma::FusedNegatedMultiplyAdd(a, b, d) == std::fma(-a, b, d));
    REQUIRE(_fma::FusedNegatedMultiplySubtract(a, b, d) == std::fma(-a, b, -d));
  }
  double high, low;
  VeltkampSplitting<27>(a, high, low);
  REQUIRE(Exact(high) + Exact(low) == Exact(a), "VeltkampSplitting");
  REQUIRE(high == 0 || std::ldexp(high, 25 - std::ilogb(high)) ==
              std::nearbyint(std::ldexp(high, 25 - std::ilogb(high))),
          "26 bits in the high part");
  REQUIRE(std::abs(low) <= std::ldexp(std::abs(a), -26));
  // Dimensionful and geometric types have the coordinates of the doubles.
  auto const q = TwoSum(a * Metre, b * Metre);
  REQUIRE(q.value / Metre == sum.value && q.error / Metre == sum.error);
  auto const t = TwoProduct<FMAPresence::Unknown>(a * Metre, b * Second);
  REQUIRE(t.value / (Metre * Second) == product_u.value &&
          t.error / (Metre * Second) == product_u.error);
  Instant const t0;
  auto const i = TwoSum(t0 + a * Second, b * Second);
  REQUIRE((i.value - t0) / Second == sum.value && i.error / Second == sum.error,
          "instants");
  auto const j = TwoDifference(t0 + a * Second, t0 + b * Second);
  REQUIRE(j.value / Second == difference.value &&
          Exact(j.value / Second) + Exact(j.error / Second) ==
              Exact(a) - Exact(b), "difference of instants");
}

void Arithmetic(Src& s, Ctx& c) {
  auto const x = SomeDouble(s);
  auto const y = s.chance(1, 3)
      ? DoublePrecision<double>(x) * -(1 + std::ldexp(s.sym(1), -s.below(100)))
      : SomeDouble(s);
  double const z = s.chance(1, 3) ? -x.value * (1 + std::ldexp(s.sym(1), -s.below(60)))
                                  : Signed(s, -200, 200);
  Q const qx = Sum(x);
  Q const qy = Sum(y);
  Q const qz = Exact(z);
  c.note() << Hex(x.value) << "|" << Hex(x.error) << " " << Hex(y.value) << "|"
           << Hex(y.error) << " " << Hex(z);
  c.nontrivial(x.error != 0 && y.error != 0);
  Q const u2 = Pow2(-106);
  // The relative errors of [MR22] for the additions; bounds for [Lin81].
  auto const close = [&](DoublePrecision<double> const& actual, Q const& expected,
                         int const bound, char const* const what) {
    REQUIRE(Normalized(actual), what << ": not normalized");
    REQUIRE(Abs(Sum(actual) - expected) <= bound * u2 * Abs(expected),
            what << ": " << Hex(actual.value) << "|" << Hex(actual.error)
                 << ", relative error in u^2 "
                 << exact::ToDouble(Q((Sum(actual) - expected) /
                                      (u2 * (expected == 0 ? Q(1) : expected)))));
  };
  close(x + y, qx + qy, 4, "DW + DW");
  close(x - y, qx - qy, 4, "DW - DW");
  close(x + z, qx + qz, 3, "DW + D");
  close(z + x, qx + qz, 3, "D + DW");
  close(x - z, qx - qz, 3, "DW - D");
  close(z - x, qz - qx, 3, "D - DW");
  close(x * z, qx * qz, 4, "DW * D");
  close(z * x, qx * qz, 4, "D * DW");
  close(x * y, qx * qy, 12, "DW * DW");
  if (y.value != 0) {
    close(x / y, qx / qy, 24, "DW / DW");
    close(z / y, qz / qy, 24, "D / DW");
  }
  if (z != 0) close(x / z, qx / qz, 24, "DW / D");
  REQUIRE(Sum(-x) == -qx && Sum(+x) == qx, "unary");
  // Compound assignments are the operators.
  auto a = x; a += y;
  auto b = x; b -= y;
  auto d = x; d += z;
  auto e = x; e -= z;
  auto f = x; f *= z;
  REQUIRE(a == x + y && b == x - y && d == x + z && e == x - z && f == x * z,
          "compound assignment");
  if (z != 0) {
    auto g = x; g /= z;
    REQUIRE(g == x / z);
  }
  // Comparison is that of the values.
  REQUIRE((x < y) == (qx < qy) && (x == y) == (qx == qy) && (x > y) == (qx > qy),
          "comparison");
  // Scaling by powers of 2.
  double const p = std::ldexp(s.coin() ? 1.0 : -1.0, s.range(-100, 100));
  REQUIRE(Sum(Scale(p, x)) == qx * Exact(p), "Scale");
  REQUIRE(Sum(Scale(0.0, x)) == 0);
  // Serialization.
  serialization::DoublePrecision message;
  x.WriteToMessage(&message);
  REQUIRE(DoublePrecision<double>::ReadFromMessage(message) == x, "serialization");
  DoublePrecision<Instant> instant(Instant() + x.value * Second);
  instant.error = x.error * Second;
  serialization::DoublePrecision message2;
  instant.WriteToMessage(&message2);
  REQUIRE(DoublePrecision<Instant>::ReadFromMessage(message2) == instant);
  REQUIRE(IsFinite(TwoSum(x.value * Metre, x.error * Metre)));
}

void Compensated(Src& s, Ctx& c) {
  // Sums of increments that are small with respect to the accumulator.
  DoublePrecision<double> x(Signed(s, -10, 10));
  DoublePrecision<double> y(x);
  DoublePrecision<Instant> t(Instant() + x.value * Second);
  Q exact = Exact(x.value);
  double const start = std::abs(x.value);
  if (start == 0) return c.nontrivial(false);
  int const n = s.size(200);
  double const scale = std::ldexp(start, -9 - static_cast<int>(s.below(60)));
  bool const decrement = s.coin();
  Q size = 0;
  for (int i = 0; i < n; ++i) {
    double const h = s.sym(scale);
    if (decrement) {
      x.Decrement(h);
      t.Decrement(h * Second);
      exact -= Exact(h);
    } else {
      x.Increment(h);
      t.Increment(h * Second);
      exact += Exact(h);
    }
    size += Abs(Exact(h));
  }
  c.note() << n << " increments of at most " << scale << " from " << Hex(start);
  c.nontrivial(n > 2);
  // Each step makes one rounding, of the (small) increment plus the error,
  // which is at most u (|h| + ulp(x)).
  Q const bound = Pow2(-52) * (size + (n + 1) * Exact(start) * Pow2(-51));
  REQUIRE(Abs(Sum(x) - exact) <= bound, "error "
          << exact::ToDouble(Q(Abs(Sum(x) - exact))) << " bound "
          << exact::ToDouble(bound));
  REQUIRE(Normalized(x), "not normalized");
  REQUIRE((t.value - Instant()) / Second == x.value && t.error / Second == x.error,
          "instants differ from numbers");
}

void TruncFrac(Src& s, Ctx& c) {
  DoublePrecision<double> x;
  switch (s.below(4)) {
    case 0: x = TwoSum(Signed(s, -5, 80), Signed(s, -30, 30)); break;
    case 1: x = TwoSum(static_cast<double>(s.range(-100, 100)),
                       s.sym(0x1p-53)); break;
    case 2: x = TwoSum(Signed(s, -5, 60), s.sym(0x1p-53)); break;
    case 3: x = TwoSum(std::nearbyint(Signed(s, 50, 70)), s.sym(8)); break;
  }
  c.note() << Hex(x.value) << "|" << Hex(x.error);
  c.nontrivial(x.error != 0);
  Q const q = Sum(x);
  Z z = boost::multiprecision::numerator(q) / boost::multiprecision::denominator(q);
  REQUIRE(Sum(Trunc(x)) == Q(z), "Trunc: " << Hex(Trunc(x).value) << "|"
          << Hex(Trunc(x).error));
  Q const fraction = q - Q(z);
  Q const actual = Sum(Frac(x));
  REQUIRE(Abs(actual - fraction) <= Pow2(-104) * (Abs(q) < 1 ? Abs(q) : Q(1)),
          "Frac: " << exact::ToDouble(actual));
}

// ------------------------------------------------------------- cube roots.

// Returns a number whose cube root is a midpoint between two doubles to within
// about 2^-69, found by scanning the cubes of consecutive midpoints.
double CubeRootNearlyTied(Src& s) {
  std::uint64_t const t0 =
      (((std::uint64_t{1} << 53) + s.below(std::uint64_t{1} << 53)) &
       ~(std::uint64_t{0xffff} << 3)) | 1;
  auto const cube = [](std::uint64_t const t) {
    Z const z(t);
    return Z(z * z * z);
  };
  Z const c0 = cube(t0);
  int const bits = static_cast<int>(boost::multiprecision::msb(c0)) - 52;
  using U128 = unsigned __int128;
  U128 const mask = ((U128)1 << bits) - 1;
  auto const low = [mask](Z const& z) {
    Z const m = z & ((Z(1) << 120) - 1);
    U128 const high = static_cast<std::uint64_t>(Z(m >> 60));
    return (high << 60 |
            static_cast<std::uint64_t>(Z(m & ((Z(1) << 60) - 1)))) & mask;
  };
  Z const c1 = cube(t0 + 2), c2 = cube(t0 + 4);
  U128 f = low(c0);
  U128 d1 = low(Z(c1 - c0));
  U128 d2 = low(Z(c2 - 2 * c1 + c0));
  U128 const d3 = 48;
  U128 best = mask;
  int best_i = 0;
  int const scan = 1 << s.range(4, 15);
  for (int i = 0; i < scan; ++i) {
    U128 const distance = std::min(f, (mask - f) + 1);
    if (distance < best) {
      best = distance;
      best_i = i;
    }
    f = (f + d1) & mask;
    d1 = (d1 + d2) & mask;
    d2 = (d2 + d3) & mask;
  }
  double const y = exact::ToDouble(Q(cube(t0 + 2 * best_i)));
  int exponent;
  double const mantissa = std::frexp(y, &exponent);
  double const scale = s.range(-300, 300);
  return std::ldexp(mantissa,
                    ((exponent % 3) + 3) % 3 + 3 * static_cast<int>(scale)) *
         (s.coin() ? 1 : -1);
}

void CubeRoots(Src& s, Ctx& c) {
  double y;
  switch (s.below(5)) {
    case 4: y = CubeRootNearlyTied(s); break;
    case 0: y = Any(s); break;
    case 1: {  // Close to a cube, exact or not.
      double const r = Signed(s, -330, 330);
      y = r * r * r;
      std::int64_t const n = s.range(-3, 3);
      for (std::int64_t i = 0; i < std::abs(n); ++i) {
        y = n < 0 ? std::nextafter(y, -INFINITY) : std::nextafter(y, INFINITY);
      }
      break;
    }
    case 2: {  // Close to the cube of a midpoint between two doubles.
      double const r = Signed(s, -330, 330);
      Q const m = (Exact(r) + ExactUp(r)) / 2;
      y = exact::ToDouble(Q(m * m * m));
      break;
    }
    default: {  // Uniform significands and exponents.
      y = std::ldexp(1 + s.unit(), s.range(-1070, 1022));
      break;
    }
  }
  c.note() << Hex(y);
  c.nontrivial(std::isfinite(y) && y != 0);
  double const r = _cbrt::Cbrt(y);
  using _cbrt::internal::Rounding;
  namespace z5 = _cbrt::internal::method_3²ᴄZ5¹;
  namespace z4 = _cbrt::internal::method_5²Z4¹FMA;
  double const r5 = z5::Cbrt<Rounding::Correct>(y);
  double const f5 = z5::Cbrt<Rounding::Faithful>(y);
  if (!std::isfinite(y) || y == 0) {
    REQUIRE(Same(r, y) && Same(r5, y) && Same(f5, y), "special: " << r);
    return;
  }
  auto const cube = [](Q const& x) { return Q(x * x * x); };
  Q const qy = Exact(y);
  auto const correct = [&](double const r) {
    Q const up = (Exact(r) + ExactUp(r)) / 2;
    Q const down = (Exact(r) + ExactDown(r)) / 2;
    return cube(down) < qy && qy < cube(up);
  };
  auto const faithful = [&](double const r) {
    return cube(ExactDown(r)) < qy && qy < cube(ExactUp(r));
  };
  REQUIRE(correct(r), "not correctly rounded: " << Hex(r));
  REQUIRE(correct(r5), "3²ᴄZ5¹ not correctly rounded: " << Hex(r5));
  REQUIRE(faithful(f5), "3²ᴄZ5¹ not faithful: " << Hex(f5));
  if (EarlyCanUseHardwareFMA()) {
    double const r4 = z4::Cbrt<Rounding::Correct>(y);
    double const f4 = z4::Cbrt<Rounding::Faithful>(y);
    REQUIRE(correct(r4), "5²Z4¹FMA not correctly rounded: " << Hex(r4));
    REQUIRE(faithful(f4), "5²Z4¹FMA not faithful: " << Hex(f4));
  }
  REQUIRE(_cbrt::Cbrt(-y) == -r, "odd");
  REQUIRE(_elementary_functions::Cbrt(y * Pow<3>(Metre)) == r * Metre);
}

void OneBit(Src& s, Ctx& c) {
  double const y = 1 + 7 * s.unit();
  double const root = std::cbrt(y);
  double const b = std::ldexp(1.0, -static_cast<int>(10 + s.below(44)));
  // a = ∛y truncated to multiples of 2b.
  double a = std::floor(root / (2 * b)) * (2 * b);
  auto const cube = [](Q const& x) { return Q(x * x * x); };
  if (cube(Exact(a)) > Exact(y)) a -= 2 * b;
  if (cube(Exact(a) + 2 * Exact(b)) <= Exact(y)) a += 2 * b;
  c.note() << Hex(y) << " " << Hex(a) << " " << Hex(b);
  c.nontrivial();
  REQUIRE(_cbrt::internal::CbrtOneBit(y, a, b) ==
              (cube(Exact(a) + Exact(b)) <= Exact(y)));
}

// ------------------------------------------------------------ sine, cosine.

double SomeAngle(Src& s) {
  switch (s.below(6)) {
    case 0: return Any(s);
    case 1: return s.sym(2 * M_PI);
    case 2: {  // Near a multiple of π/4.
      double const k = static_cast<double>(s.range(-100'000, 100'000));
      double x = k * (M_PI / 4);
      std::int64_t const n = s.range(-3, 3);
      for (std::int64_t i = 0; i < std::abs(n); ++i) {
        x = n < 0 ? std::nextafter(x, -INFINITY) : std::nextafter(x, INFINITY);
      }
      return x;
    }
    case 3: {  // Hard to reduce: convergents of π (2^n times).
      static constexpr double hard[] = {
          6381956970095103.0, 5.319372648326541e+255, 0x1.6ac5b262ca1ffp849,
          22.0, 355.0, 103993.0, 312689.0, 1146408.0, 5419351.0, 80143857.0,
          165707065.0, 411557987.0, 6134899525417045.0};
      return std::ldexp(hard[s.below(std::size(hard))],
                        static_cast<int>(s.range(0, 3)));
    }
    case 4: return s.slog(1e-20, 1e10);
    default: return s.slog(1e-300, 1e300);
  }
}

template<typename F>
void CheckRounded(F const& f, char const* const what, double const x,
                  std::pair<Q, Q> const& expected) {
  double const actual = f(x);
  REQUIRE(IsNearest(actual, expected.first, expected.second),
          what << " not correctly rounded: " << Hex(actual) << ", not "
               << Hex(exact::ToDouble(expected.first)));
}

// Returns an angle whose sine or cosine is a midpoint between two doubles to
// within about 2^-68, found by scanning consecutive angles.
double NearlyTiedAngle(Src& s) {
  using Quad = __float128;
  double const x0 = s.slog(0x1p-12, s.coin() ? 8 : 0x1p25);
  double const ulp = std::abs(std::nextafter(x0, INFINITY) - x0);
  int const scan = 1 << s.range(4, 14);
  bool const sine = s.coin();
  Quad const sin = sinq(x0);
  Quad const cos = cosq(x0);
  Quad const f0 = sine ? sin : cos;
  Quad const f1 = sine ? cos : -sin;
  double const f = std::abs(static_cast<double>(f0));
  double const f_ulp = std::nextafter(f, INFINITY) - f;
  // f0 + i f1 ulp - i² f0 ulp² / 2, in units of 2^-64 of an ulp of f.
  auto const fixed = [&](Quad q) {
    q = q / f_ulp;
    q -= static_cast<Quad>(static_cast<__int128>(q));
    if (q < 0) q += 1;
    return static_cast<std::uint64_t>(q * 0x1p63) << 1;
  };
  std::uint64_t const start = fixed(f0);
  std::uint64_t const slope = fixed(f1 * ulp);
  std::uint64_t best = ~std::uint64_t{0};
  int best_i = 0;
  std::uint64_t value = start;
  for (int i = 0; i < scan; ++i, value += slope) {
    std::uint64_t const distance =
        value > (std::uint64_t{1} << 63) ? value - (std::uint64_t{1} << 63)
                                         : (std::uint64_t{1} << 63) - value;
    if (distance < best) {
      best = distance;
      best_i = i;
    }
  }
  return x0 + best_i * ulp;
}

void SinCosines(Src& s, Ctx& c) {
  double const x = s.chance(1, 3) ? NearlyTiedAngle(s) : SomeAngle(s);
  c.note() << Hex(x);
  c.nontrivial(std::isfinite(x) && x != 0);
  using namespace _sin_cos;
  namespace sc = _sin_cos::internal;
  if (!std::isfinite(x)) {
    REQUIRE(std::isnan(sc::Sin<FMAPresence::Absent>(x)));
    REQUIRE(std::isnan(sc::Cos<FMAPresence::Absent>(x)));
    return;
  }
  if (x == 0) {
    REQUIRE(sc::Sin<FMAPresence::Absent>(x) == 0);
    REQUIRE(sc::Cos<FMAPresence::Absent>(x) == 1);
    return;
  }
  auto const es = exact::Sin(x);
  auto const ec = exact::Cos(x);
  CheckRounded(sc::Sin<FMAPresence::Absent>, "sin", x, es);
  CheckRounded(sc::Cos<FMAPresence::Absent>, "cos", x, ec);
  auto const both = sc::SinCos<FMAPresence::Absent>(x);
  REQUIRE(Same(both.sin, sc::Sin<FMAPresence::Absent>(x)) &&
          Same(both.cos, sc::Cos<FMAPresence::Absent>(x)), "SinCos");
  if (EarlyCanUseHardwareFMA()) {
    CheckRounded(sc::Sin<FMAPresence::Present>, "sin, FMA", x, es);
    CheckRounded(sc::Cos<FMAPresence::Present>, "cos, FMA", x, ec);
    auto const both = sc::SinCos<FMAPresence::Present>(x);
    REQUIRE(Same(both.sin, sc::Sin<FMAPresence::Present>(x)) &&
            Same(both.cos, sc::Cos<FMAPresence::Present>(x)), "SinCos, FMA");
  }
  Angle const α = x * Radian;
  CheckRounded([](double x) { return _elementary_functions::Sin(x * Radian); },
               "Sin", x, es);
  CheckRounded([](double x) { return _elementary_functions::Cos(x * Radian); },
               "Cos", x, ec);
  auto const [sin, cos] = _elementary_functions::SinCos(α);
  REQUIRE(sin == _elementary_functions::Sin(α) &&
          cos == _elementary_functions::Cos(α));
}

void PayneHanek(Src& s, Ctx& c) {
  double x = SomeAngle(s);
  if (!std::isfinite(x)) x = 1e22;
  c.note() << Hex(x);
  c.nontrivial(std::abs(x) > 1);
  auto const exact = exact::Reduce(x);
  DoublePrecision<double> reduced;
  std::int64_t quadrant;
  PayneHanekReduction<61>(x, reduced, quadrant);
  // Modulo 2π, and up to a rounding at odd multiples of π/4.
  REQUIRE(quadrant >= 0 && quadrant <= 3);
  REQUIRE(std::abs(reduced.value) <= M_PI / 4 * (1 + 0x1p-40), reduced.value);
  Q const half_pi = Q(exact::PiFixed(400), Z(Z(1) << 401));
  int k = static_cast<int>(quadrant) - exact.quadrant;
  if (k == 3) k = -1;
  if (k == -3) k = 1;
  Q const error = Abs(Sum(reduced) + k * half_pi - exact.y);
  REQUIRE(error <= Pow2(-97) + Pow2(-100) * Abs(exact.y),
          "error " << exact::ToDouble(error) << " for "
                   << exact::ToDouble(exact.y));
  // In terms of the reduction exposed by sin_cos.
  double r;
  std::int64_t q;
  _sin_cos::Reduce(x, r, q);
  k = static_cast<int>(q & 3) - exact.quadrant;
  if (k == 3) k = -1;
  if (k == -3) k = 1;
  Q const e = Abs(Exact(r) + k * half_pi - exact.y);
  REQUIRE(e <= Pow2(-52) * Abs(exact.y) || (k != 0 && e <= Pow2(-52)),
          "Reduce: " << Hex(r));
}

template<double lo, double hi>
void Reduction(double const x, int const period_in_half_turns) {
  static Q const pi = Q(exact::PiFixed(1500), Z(Z(1) << 1500));
  Angle const reduced = ReduceAngle<lo, hi>(x * Radian);
  double const r = reduced / Radian;
  double const slop = 1e-15;
  REQUIRE(r >= lo - slop && r <= hi + slop, "out of range: " << r);
  // Congruence.
  Q const period = period_in_half_turns * pi;
  Q t = (Exact(x) - Exact(r)) / period;
  Z n = boost::multiprecision::numerator(Q(t * 2 + 1)) /
        (2 * boost::multiprecision::denominator(Q(t * 2 + 1)));
  // n within 1 of t.
  Q best = Abs(t - Q(n));
  for (int d = -1; d <= 1; ++d) {
    Q const candidate = Abs(t - Q(Z(n + d)));
    if (candidate < best) best = candidate;
  }
  REQUIRE(best * period <= Exact(1e-15), "not congruent: " << Hex(r) << " by "
          << exact::ToDouble(Q(best * period)));
  if (std::abs(x) < 1e6) {
    Angle fractional;
    double integer;
    ReduceAngle<lo, hi>(x * Radian, fractional, integer);
    REQUIRE(fractional == reduced);
    REQUIRE(integer == std::nearbyint(integer));
    REQUIRE(Abs(Exact(x) - Exact(r) - Exact(integer) * period) <=
                Exact(1e-15), "integer part " << integer);
  }
}

void AngleReduction(Src& s, Ctx& c) {
  double x = SomeAngle(s);
  if (!std::isfinite(x)) x = 1e22;
  c.note() << Hex(x);
  c.nontrivial(std::abs(x) > 1);
  Reduction<-π / 2, π / 2>(x, 1);
  Reduction<-π, π>(x, 2);
  Reduction<0.0, 2 * π>(x, 2);
  // Unwinding.
  double const p = s.sym(1000);
  double const α = s.sym(1000);
  double const u =
      _elementary_functions::UnwindFrom(p * Radian, α * Radian) / Radian;
  REQUIRE(std::abs(u - p) <= M_PI * (1 + 1e-12), "too far");
  double const turns = (u - α) / (2 * M_PI);
  REQUIRE(std::abs(turns - std::nearbyint(turns)) < 1e-12, "not congruent");
}

void MultiprecisionSinCos(Src& s, Ctx& c) {
  double x = s.coin() ? s.sym(10) : s.slog(1e-30, 1e6);
  c.note() << Hex(x);
  c.nontrivial(x != 0);
  auto const check = [&](cpp_bin_float_50 const& actual, std::pair<Q, Q> const& e,
                         char const* const what) {
    // Compare on 2^-200.
    cpp_bin_float_50 const scaled = actual * pow(cpp_bin_float_50(2), 200);
    Z const z(static_cast<cpp_int>(round(scaled)).str());
    Q const a = Q(z, Z(Z(1) << 200));
    Q const error = Abs(a - e.first);
    REQUIRE(error <= Pow2(-155), what << ": error " << exact::ToDouble(error));
  };
  cpp_rational const α(x);
  check(functions::_multiprecision::Sin(α), exact::Sin(x), "sin");
  check(functions::_multiprecision::Cos(α), exact::Cos(x), "cos");
}

// ---------------------------------------------------------------- the rest.

template<int n>
void Powers(double const x) {
  Q e = 1;
  for (int i = 0; i < std::abs(n); ++i) e *= Exact(x);
  if (n < 0) {
    if (x == 0) return;
    e = 1 / e;
  }
  if (Abs(e) < Pow2(-1000) || Abs(e) > Pow2(1000)) return;
  double const actual = Pow<n>(x);
  REQUIRE(Abs(Exact(actual) - e) <= (std::abs(n) + 1) * Pow2(-53) * Abs(e) +
              Pow2(-1070), "Pow<" << n << ">: " << Hex(actual));
  double const quantity =
      Pow<n>(x * Metre) / (si::Unit<Exponentiation<Length, n>>);
  REQUIRE(quantity == actual, "Pow of a quantity");
}

void Elementary(Src& s, Ctx& c) {
  namespace ef = _elementary_functions;
  double const x = Signed(s, -200, 200);
  double const y = Signed(s, -200, 200);
  c.note() << Hex(x) << " " << Hex(y);
  c.nontrivial(x != 0 && x != 1);
  // Square roots are correctly rounded.
  double const r = ef::Sqrt(std::abs(x) * Pow<2>(Metre)) / Metre;
  if (x != 0) {
    Q const up = (Exact(r) + ExactUp(r)) / 2;
    Q const down = (Exact(r) + ExactDown(r)) / 2;
    REQUIRE(down * down <= Exact(std::abs(x)) && Exact(std::abs(x)) <= up * up,
            "Sqrt: " << Hex(r));
  } else {
    REQUIRE(r == 0);
  }
  REQUIRE(ef::Abs(x * Second) == std::abs(x) * Second);
  REQUIRE(ef::Abs(x) == std::abs(x));
  if (y != 0) {
    double const f = ef::FMod(x * Metre, y * Metre) / Metre;
    REQUIRE(f == std::fmod(x, y), "FMod");
  }
  Powers<0>(x);
  Powers<1>(x);
  Powers<2>(x);
  Powers<3>(x);
  Powers<5>(x);
  Powers<-1>(x);
  Powers<-3>(x);
  Powers<7>(s.sym(10));
  Powers<13>(s.sym(4));
  Powers<24>(s.sym(4));
  Powers<31>(s.sym(4));
  auto const near = [](double const actual, long double const expected,
                       char const* const what) {
    REQUIRE((std::isnan(actual) && std::isnan(expected)) || actual == expected ||
                std::abs(actual - expected) <=
                    4 * 0x1p-52 * std::abs(expected) + 0x1p-1070,
            what << ": " << Hex(actual) << ", not " << static_cast<double>(expected));
  };
  double const z = s.coin() ? s.sym(1) : s.sym(300);
  Angle const α = z * Radian;
  near(ef::Tan(α), std::tan(static_cast<long double>(z)), "Tan");
  near(ef::Sinh(α), std::sinh(static_cast<long double>(z)), "Sinh");
  near(ef::Cosh(α), std::cosh(static_cast<long double>(z)), "Cosh");
  near(ef::Tanh(α), std::tanh(static_cast<long double>(z)), "Tanh");
  near(ef::ArcTan(z) / Radian, std::atan(static_cast<long double>(z)), "ArcTan");
  near(ef::ArcSinh(z) / Radian, std::asinh(static_cast<long double>(z)), "ArcSinh");
  near(ef::ArcTan(x, y) / Radian,
       std::atan2(static_cast<long double>(x), static_cast<long double>(y)),
       "ArcTan with two arguments");
  near(ef::ArcTan(x * Metre, y * Metre) / Radian,
       std::atan2(static_cast<long double>(x), static_cast<long double>(y)),
       "ArcTan of quantities");
  double const w = s.sym(1);
  near(ef::ArcSin(w) / Radian, std::asin(static_cast<long double>(w)), "ArcSin");
  near(ef::ArcCos(w) / Radian, std::acos(static_cast<long double>(w)), "ArcCos");
  near(ef::ArcTanh(w) / Radian, std::atanh(static_cast<long double>(w)), "ArcTanh");
  near(ef::ArcCosh(1 + std::abs(z)) / Radian,
       std::acosh(static_cast<long double>(1 + std::abs(z))), "ArcCosh");
  near(ef::Root<3>(std::abs(z) * Pow<3>(Metre)) / Metre,
       std::cbrt(static_cast<long double>(std::abs(z))), "Root<3>");
  near(ef::Root(4, std::abs(z)),
       std::sqrt(std::sqrt(static_cast<long double>(std::abs(z)))), "Root(4)");
  if (EarlyCanUseHardwareFMA()) {
    double const d = Signed(s, -200, 200);
    auto const m = x * Metre;
    auto const sec = y * Second;
    auto const ms = d * (Metre * Second);
    REQUIRE(ef::FusedMultiplyAdd(m, sec, ms) == std::fma(x, y, d) * (Metre * Second));
    REQUIRE(ef::FusedMultiplySubtract(m, sec, ms) ==
            std::fma(x, y, -d) * (Metre * Second));
    REQUIRE(ef::FusedNegatedMultiplyAdd(m, sec, ms) ==
            std::fma(-x, y, d) * (Metre * Second));
    REQUIRE(ef::FusedNegatedMultiplySubtract(m, sec, ms) ==
            std::fma(-x, y, -d) * (Metre * Second));
  }
  // Rounding.
  double const h = static_cast<double>(s.range(-1000, 1000)) / 4;
  REQUIRE(ef::Round(h) == std::round(h));
  REQUIRE(ef::Round(cpp_rational(h)) == cpp_int(static_cast<int>(std::round(h))),
          "rational");
}

}  // namespace
}  // namespace numerics
}  // namespace principia

int main(int argc, char** argv) {
  using namespace principia::numerics;
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"next", "any double; non-trivial if finite and nonzero", 100000, 3000000,
        Next},
       {"log_b", "any double, and float; non-trivial if finite and nonzero",
        50000, 1000000, Log},
       {"scale_b", "any double, exponents of all sizes and near the limits",
        100000, 3000000, Scale2},
       {"ulp_distance", "pairs of doubles, any or close", 100000, 3000000, Ulps},
       {"combinatorics", "n, k < 40 without overflow of the result", 1500, 1600,
        Combinations},
       {"exact_operations", "pairs of doubles within 2^±200, cancelling or not",
        60000, 2000000, ExactOperations},
       {"double_precision", "pairs of double-doubles, cancelling or not; "
        "non-trivial if both have an error term", 40000, 1000000, Arithmetic},
       {"compensated", "0-200 increments or decrements", 5000, 100000,
        Compensated},
       {"trunc_frac", "double-doubles around the integers; non-trivial if there "
        "is an error term", 50000, 1000000, TruncFrac},
       {"cbrt", "any double, or near a cube or the cube of a midpoint", 200000,
        3000000, CubeRoots},
       {"cbrt_one_bit", "numbers in [1, 8[, bits 10 to 53", 30000, 500000, OneBit},
       {"sin_cos", "angles: any, small, near multiples of π/4, hard to reduce, hard to round",
        200000, 2000000, SinCosines},
       {"payne_hanek", "as for sin_cos; non-trivial above 1 rad", 20000, 500000,
        PayneHanek},
       {"angle_reduction", "as for sin_cos, 3 intervals; non-trivial above 1 rad",
        10000, 300000, AngleReduction},
       {"multiprecision", "angles within 10 or 1e6", 3000, 60000,
        MultiprecisionSinCos},
       {"elementary", "numbers within 2^±200", 30000, 500000, Elementary}});
}
