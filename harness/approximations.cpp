// Approximations, transforms, quadratures, and special functions.
#include <algorithm>
#include <array>
#include <cmath>
#include <iomanip>
#include <complex>
#include <memory>
#include <optional>
#include <vector>

#include <boost/math/special_functions/ellint_rd.hpp>
#include <boost/math/special_functions/ellint_rf.hpp>
#include <boost/math/special_functions/ellint_rj.hpp>

#include "base/algebra.hpp"
#include "fatal.hpp"
#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "numerics/approximation.hpp"
#include "numerics/elementary_functions.hpp"
#include "numerics/elliptic_functions.hpp"
#include "numerics/elliptic_integrals.hpp"
#include "numerics/fast_fourier_transform.hpp"
#include "numerics/finite_difference.hpp"
#include "numerics/hermite2.hpp"
#include "numerics/hermite3.hpp"
#include "numerics/newhall.hpp"
#include "numerics/polynomial.hpp"
#include "numerics/polynomial_evaluators.hpp"
#include "numerics/polynomial_in_monomial_basis.hpp"
#include "numerics/polynomial_in_чебышёв_basis.hpp"
#include "numerics/quadrature.hpp"
#include "numerics/чебышёв_lobatto.hpp"
#include "pbt.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "serialization/numerics.pb.h"

using namespace principia::base::_not_null;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::numerics::_approximation;


using principia::numerics::_elementary_functions::Abs;
using namespace principia::numerics::_elliptic_functions;
using namespace principia::numerics::_elliptic_integrals;
using namespace principia::numerics::_fast_fourier_transform;
using namespace principia::numerics::_finite_difference;
using namespace principia::numerics::_hermite2;
using namespace principia::numerics::_hermite3;
using namespace principia::numerics::_newhall;
using principia::numerics::_newhall::internal::QV;
using namespace principia::numerics::_polynomial;
using namespace principia::numerics::_polynomial_evaluators;
using namespace principia::numerics::_polynomial_in_monomial_basis;
using namespace principia::numerics::_polynomial_in_чебышёв_basis;
using namespace principia::numerics::_quadrature;
using principia::numerics::_quadrature::internal::ClenshawCurtis;
using namespace principia::numerics::_чебышёв_lobatto;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using pbt::Ctx;
using pbt::Src;

namespace {

using Real = long double;
using World = Frame<struct WorldTag>;
using D = Displacement<World>;
using V3 = Velocity<World>;
constexpr double ε = std::numeric_limits<double>::epsilon();
constexpr Real π_ = 3.14159265358979323846264338327950288L;
Instant const t0;

// Calls f with the constant i in [min, max].
template<int min, int max, typename F>
void Dispatch(int const i, F const& f) {
  if (i == min) {
    f.template operator()<min>();
  } else if constexpr (min < max) {
    Dispatch<min + 1, max>(i, f);
  }
}

// The sum of a Чебышёв series, its derivative, and the sum of the magnitudes.
Real Sum(std::vector<double> const& a, Real const x, Real* derivative = nullptr) {
  Real t0 = 1, t1 = x, d0 = 0, d1 = 1;
  Real y = a[0], yʹ = 0;
  for (int n = 1; n < a.size(); ++n) {
    y += a[n] * t1;
    yʹ += a[n] * d1;
    Real const t2 = 2 * x * t1 - t0;
    Real const d2 = 2 * t1 + 2 * x * d1 - d0;
    t0 = t1; t1 = t2; d0 = d1; d1 = d2;
  }
  if (derivative != nullptr) *derivative = yʹ;
  return y;
}

void Series(Src& s, Ctx& ctx) {
  int const degree = s.range(0, 14);
  std::vector<double> a;
  for (int n = 0; n <= degree; ++n) a.push_back(s.chance(1, 6) ? 0 : s.sym(10));
  double const lower = s.sym(100);
  double const width = s.log(1e-3, 1e3);
  double const upper = lower + width;
  if (!(upper > lower)) throw pbt::Discard{};
  ctx.note() << "series";
  for (double const x : a) ctx.note() << " " << x;
  ctx.note() << " over " << lower << " " << upper << " ";
  ctx.nontrivial(degree > 1);
  double total = 0;
  for (double const x : a) total += std::abs(x);
  std::vector<double> points{lower, upper, (lower + upper) / 2};
  for (int i = 0; i < 4; ++i) points.push_back(lower + s.real(0, 1) * width);
  Dispatch<0, 14>(degree, [&]<int d>() {
    using P = PolynomialInЧебышёвBasis<Length, Instant, d>;
    typename P::Coefficients coefficients;
    for (int n = 0; n <= d; ++n) coefficients[n] = a[n] * Metre;
    P const p(coefficients, t0 + lower * Second, t0 + upper * Second);
    REQUIRE(p.degree() == d && p.lower_bound() == t0 + lower * Second &&
            p.upper_bound() == t0 + upper * Second, "parameters");
    REQUIRE(p.is_zero() == (total == 0), "zero");
    PolynomialInЧебышёвBasis<Length, Instant> const& base = p;
    principia::serialization::Polynomial message;
    p.WriteToMessage(&message);
    auto const read = P::ReadFromMessage(message);
    for (double const at : points) {
      Instant const t = t0 + at * Second;
      Real const u = (2 * Real(at) - lower - upper) / (Real(upper) - lower);
      if (u > 1 || u < -1) continue;
      Real derivative;
      Real const expected = Sum(a, u, &derivative);
      Real const scaled = derivative * 2 / (Real(upper) - lower);
      // The scaled argument is computed in double precision.
      Real const δ = 4 * ε * (1 + std::max(std::abs(lower), std::abs(upper)) / width);
      Real const n2 = d * d;
      REQUIRE(std::abs(p(t) / Metre - expected) <=
                  total * (δ * n2 + 4 * ε * (d + 1)), "value at " << at << " is "
                  << p(t) << " not " << expected);
      REQUIRE(std::abs(p.EvaluateDerivative(t) / (Metre / Second) - scaled) <=
                  total * (δ * n2 * n2 + 8 * ε * n2 * (d + 1)) * 2 / width,
              "derivative at " << at << " is " << p.EvaluateDerivative(t) << " not " << scaled);
      Length value;
      Speed speed;
      base.EvaluateWithDerivative(t, value, speed);
      REQUIRE(value == base(t) && speed == base.EvaluateDerivative(t) && value == p(t) &&
              speed == p.EvaluateDerivative(t), "evaluation with derivative");
      REQUIRE(read(t) == p(t), "written and read");
    }
    // Sign changes are roots.
    double const margin = s.chance(1, 3) ? s.log(1e-3, 1) : 0;
    Length least = p(t0 + lower * Second), most = least;
    for (int i = 0; i <= 64; ++i) {
      double const at = i == 64 ? upper : lower + i * width / 64;
      if (at > upper) continue;
      Length const y = p(t0 + at * Second);
      least = std::min(least, y);
      most = std::max(most, y);
    }
    double const slack = 64 * ε * total;
    if (least < (margin - slack) * Metre && most > (-margin + slack) * Metre) {
      REQUIRE(base.MayHaveRealRoots(margin * Metre), "roots are missed");
    }
    if (std::abs(a[0]) > (total - std::abs(a[0]) + margin) * (1 + 1e-10)) {
      REQUIRE(!base.MayHaveRealRoots(margin * Metre), "not selective");
    }
  });
}

// The zeroes of polynomials given by their roots.
void SeriesRoots(Src& s, Ctx& ctx) {
  int const degree = s.range(1, 8);
  double const lower = s.sym(10);
  double const width = s.log(1e-2, 1e2);
  double const upper = lower + width;
  std::vector<double> roots;
  for (int i = 0; i < degree; ++i) {
    roots.push_back(s.chance(1, 5) ? (s.coin() ? 1 : -1) * s.real(1.05, 2) : s.real(-0.98, 0.98));
  }
  std::sort(roots.begin(), roots.end());
  for (int i = 1; i < degree; ++i) {
    if (roots[i] - roots[i - 1] < 0.15) throw pbt::Discard{};
  }
  double const size = s.log(1e-3, 1e3) * (s.coin() ? 1 : -1);
  // Multiplication by (x - r) in the basis: x T₀ = T₁, x Tₙ = (Tₙ₊₁ + Tₙ₋₁) / 2.
  std::vector<Real> c{size};
  for (double const r : roots) {
    std::vector<Real> next(c.size() + 1, 0);
    for (int n = 0; n < c.size(); ++n) {
      next[n] -= r * c[n];
      if (n == 0) {
        next[1] += c[0];
      } else {
        next[n + 1] += c[n] / 2;
        next[n - 1] += c[n] / 2;
      }
    }
    c = next;
  }
  ctx.note() << "roots";
  for (double const r : roots) ctx.note() << " " << r;
  ctx.note() << " over " << lower << " " << upper << " ";
  ctx.label(std::to_string(degree) + " roots");
  ctx.nontrivial(degree > 1);
  Dispatch<1, 8>(degree, [&]<int d>() {
    using P = PolynomialInЧебышёвBasis<Length, Instant, d>;
    typename P::Coefficients coefficients;
    for (int n = 0; n <= d; ++n) coefficients[n] = static_cast<double>(c[n]) * Metre;
    P const p(coefficients, t0 + lower * Second, t0 + upper * Second);
    PolynomialInЧебышёвBasis<Length, Instant> const& base = p;
    auto const found = base.RealRoots(1e-16);
    int inside = 0;
    for (double const r : roots) inside += std::abs(r) < 1;
    std::vector<double> scaled;
    for (auto const& t : found) {
      scaled.push_back((2 * ((t - t0) / Second) - lower - upper) / width);
    }
    REQUIRE(inside == 0 || base.MayHaveRealRoots(), "roots are missed by the test");
    for (double const r : roots) {
      if (std::abs(r) > 1) continue;
      bool near = false;
      for (double const x : scaled) {
        near |= std::abs(x - r) < 1e-8 * (1 + std::abs(lower) * 1e-6 / width);
      }
      REQUIRE(near, "the root at " << r << " is missed");
    }
    REQUIRE(scaled.size() == inside, "there are " << scaled.size() << " roots");
  });
}

void Interpolation(Src& s, Ctx& ctx) {
  // A polynomial in the Чебышёв basis of the interval, of any degree up to 40.
  int const degree = s.range(0, 40);
  std::vector<double> a;
  double const decay = s.coin() ? 1 : s.real(0.3, 1);
  double k = 1;
  for (int n = 0; n <= degree; ++n) {
    a.push_back(s.chance(1, 4) ? 0 : k * s.sym(10));
    k *= decay;
  }
  double const lower = s.sym(10);
  double const width = s.log(1e-2, 1e2);
  double const upper = lower + width;
  double total = 1e-300;
  for (double const x : a) total += std::abs(x);
  double const max_error = total * s.log(1e-12, 1e-1);
  ctx.note() << "degree " << degree << " over " << lower << " " << upper << " error "
             << max_error << " ";
  ctx.nontrivial(degree > 2);
  bool outside = false;
  auto const exact = [&](double const t) {
    return Sum(a, (2 * Real(t) - lower - upper) / (Real(upper) - lower));
  };
  auto const f = [&](Instant const& t) {
    double const x = (t - t0) / Second;
    // Rounding of the nodes.
    double const slack = 1e-13 * (std::abs(lower) + std::abs(upper) + width);
    if (x < lower - slack || x > upper + slack) outside = true;
    return static_cast<double>(exact(x)) * Metre;
  };
  double const conditioning =
      (1 + std::max(std::abs(lower), std::abs(upper)) / width) * (degree * degree + 1);
  double const rounding = 32 * ε * total * conditioning;
  Length estimate{};
  {
    auto const p = ЧебышёвPolynomialInterpolant<32>(f, t0 + lower * Second, t0 + upper * Second,
                                                     max_error * Metre, &estimate);
    REQUIRE(!outside, "evaluated outside of the interval");
    REQUIRE(p->degree() <= 32, "the degree is " << p->degree());
    REQUIRE(p->lower_bound() == t0 + lower * Second && p->upper_bound() == t0 + upper * Second,
            "bounds");
    // The estimate bounds the difference with the interpolant of twice the degree,
    // which is f itself if its degree suffices.
    if (degree <= 2 * p->degree()) {
      ctx.label("exact reference");
      double const bound = estimate / Metre * (1 + 1e-10) + rounding;
      for (int i = 0; i <= 40; ++i) {
        double const at = i == 40 ? upper : std::min(upper, lower + width * i / 40);
        Length const y = (*p)(t0 + at * Second);
        REQUIRE(std::abs(y / Metre - exact(at)) <= bound,
                "error at " << at << " is " << y / Metre - exact(at) << " bound " << bound);
      }
      if (degree <= p->degree()) {
        REQUIRE(estimate <= rounding * 40 * Metre, "estimate " << estimate);
      }
    }
    REQUIRE(estimate <= max_error * Metre || p->degree() >= 16, "stops at degree "
            << p->degree() << " with error " << estimate);
  }
  {
    int calls = 0;
    SubdivisionPredicate<Length, Instant> const subdivide =
        [&](PolynomialInЧебышёвBasis<Length, Instant> const& p, Length const& error) {
      ++calls;
      if (error <= max_error * Metre) outside = true;
      return calls < 50;
    };
    auto const pieces = AdaptiveЧебышёвPolynomialInterpolant<8>(
        f, t0 + lower * Second, t0 + upper * Second, max_error * Metre, subdivide, &estimate);
    REQUIRE(!outside, "needlessly subdivided");
    REQUIRE(!pieces.empty() && pieces.front()->lower_bound() == t0 + lower * Second &&
                pieces.back()->upper_bound() == t0 + upper * Second, "cover");
    for (int i = 1; i < pieces.size(); ++i) {
      REQUIRE(pieces[i - 1]->upper_bound() == pieces[i]->lower_bound(), "gap");
    }
    ctx.label_if(pieces.size() > 1, "several pieces");
    if (calls < 50) {
      REQUIRE(estimate <= max_error * Metre, "estimate " << estimate);
    }
    // Streaming yields the same pieces, until told to stop.
    int const limit = s.range(1, static_cast<int>(pieces.size()) + 1);
    calls = 0;
    std::vector<std::unique_ptr<PolynomialInЧебышёвBasis<Length, Instant>>> streamed;
    TerminationPredicate<Length, Instant> const stop =
        [&](not_null<std::unique_ptr<PolynomialInЧебышёвBasis<Length, Instant>>> p) {
          streamed.push_back(std::move(p));
          return streamed.size() == limit;
        };
    StreamingAdaptiveЧебышёвPolynomialInterpolant<8>(
        f, t0 + lower * Second, t0 + upper * Second, max_error * Metre, subdivide, stop,
        &estimate);
    REQUIRE(streamed.size() == std::min<int>(limit, pieces.size()),
            "streamed " << streamed.size());
    for (int i = 0; i < streamed.size(); ++i) {
      auto const& p = *streamed[i];
      Instant const t = p.lower_bound() + s.real(0, 1) * (p.upper_bound() - p.lower_bound());
      REQUIRE(p.lower_bound() == pieces[i]->lower_bound() && p(t) == (*pieces[i])(t),
              "streamed piece");
    }
  }
}

template<int size>
void TransformOf(Src& s, Ctx& ctx) {
  using C = std::complex<Real>;
  std::vector<double> u;
  int const kind = s.below(4);
  for (int r = 0; r < size; ++r) {
    u.push_back(kind == 0 ? s.sym(1)
                : kind == 1 ? (r == 0) * 1.0
                : kind == 2 ? std::cos(0.3 * r) + s.real(-1e-3, 1e-3) : s.slog(1e-3, 1e3));
  }
  Time const Δt = s.log(1e-3, 1e3) * Second;
  ctx.note() << "size " << size << " kind " << kind << " ";
  ctx.nontrivial(size > 1);
  std::vector<Length> lengths;
  std::array<Length, size> array;
  std::vector<D> vectors;
  for (int r = 0; r < size; ++r) {
    lengths.push_back(u[r] * Metre);
    array[r] = u[r] * Metre;
    vectors.push_back(D({u[r] * Metre, u[(r + 1) % size] * Metre, 0 * Metre}));
  }
  using FFT = FastFourierTransform<Length, Instant, size>;
  FFT const fft(lengths, Δt);
  FFT const from_iterators(lengths.begin(), lengths.end(), Δt);
  FFT const from_array(array, Δt);
  FastFourierTransform<D, Instant, size> const vector_fft(vectors, Δt);
  Real total = 0;
  for (double const x : u) total += std::abs(x);
  auto const spectrum = fft.PowerSpectrum();
  auto const vector_spectrum = vector_fft.PowerSpectrum();
  Real const tolerance = 4 * ε * total * (1 + std::log2(size));
  std::vector<C> expected;
  for (int k = 0; k < size; ++k) {
    C sum = 0;
    for (int r = 0; r < size; ++r) {
      Real const angle = -2 * π_ * (r * k % size) / size;
      sum += Real(u[r]) * C(std::cos(angle), std::sin(angle));
    }
    expected.push_back(sum);
    auto const close = [&](auto const& actual) {
      return std::abs(actual.real_part() / Metre - sum.real()) <= tolerance &&
             std::abs(actual.imaginary_part() / Metre - sum.imag()) <= tolerance;
    };
    REQUIRE(close(fft[k]) && close(from_iterators[k]) && close(from_array[k]),
            "coefficient " << k);
    REQUIRE(std::abs(vector_fft[k].real_part().coordinates().x / Metre - sum.real()) <=
                tolerance, "vector coefficient " << k);
    Real const ω = 2 * π_ * k / (size * (Δt / Second));
    REQUIRE(std::abs(fft.frequency(k) / (Radian / Second) - ω) <= 4 * ε * ω, "frequency " << k);
    auto const it = spectrum.find(fft.frequency(k));
    REQUIRE(it != spectrum.end(), "no frequency " << k << " in the spectrum");
    REQUIRE(std::abs(it->second / (Metre * Metre) - std::norm(sum)) <=
                4 * tolerance * (std::abs(sum) + tolerance), "power " << k);
  }
  REQUIRE(spectrum.size() == size && vector_spectrum.size() == size, "size of the spectrum");
  // The mode in a range.
  // The spectrum is symmetrical.
  int const first = s.range(0, size / 2);
  int const last = s.range(first, size / 2);
  if (last > first + 1) {
    // All frequencies at least `min` and less than the end.
    auto const interval =
        fft.Mode(fft.frequency(first) * (1 - 1e-10), fft.frequency(last) * (1 + 1e-10));
    int best = first;
    bool clear = true;
    for (int k = first; k <= last; ++k) {
      if (std::norm(expected[k]) > std::norm(expected[best])) best = k;
    }
    for (int k = first; k <= last; ++k) {
      if (k != best &&
          std::norm(expected[k]) > std::norm(expected[best]) - 16 * tolerance * (std::abs(expected[best]) + tolerance)) {
        clear = false;
      }
    }
    if (clear) {
      REQUIRE(interval.min <= fft.frequency(best) && fft.frequency(best) <= interval.max,
              "mode is " << interval.min << " " << interval.max << " not " << best);
      REQUIRE(interval.max - interval.min <= 2.001 * fft.frequency(1), "width of the mode");
    }
  }
}

void Transforms(Src& s, Ctx& ctx) {
  switch (s.below(7)) {
    case 0: return TransformOf<2>(s, ctx);
    case 1: return TransformOf<4>(s, ctx);
    case 2: return TransformOf<8>(s, ctx);
    case 3: return TransformOf<16>(s, ctx);
    case 4: return TransformOf<32>(s, ctx);
    case 5: return TransformOf<64>(s, ctx);
    default: return TransformOf<128>(s, ctx);
  }
}

void Quadratures(Src& s, Ctx& ctx) {
  int const points = s.range(1, 20);
  double const lower = s.sym(10);
  double const width = s.log(1e-2, 1e2);
  double const upper = lower + width;
  bool const gauss = s.chance(2, 3);
  int const p = s.range(1, 6);
  int const limit = gauss ? 2 * points - 1 : 1 << p;
  int const degree = s.chance(1, 3) ? limit : s.range(0, limit);
  std::vector<double> a;
  double total = 0;
  for (int n = 0; n <= degree; ++n) {
    a.push_back(n == degree || s.coin() ? s.sym(10) : 0);
    total += std::abs(a.back());
  }
  ctx.note() << (gauss ? "Gauss " : "Clenshaw ") << (gauss ? points : (1 << p) + 1)
             << " degree " << degree << " over " << lower << " " << upper << " ";
  ctx.nontrivial(degree > 1);
  ctx.label(gauss ? "Gauss-Legendre" : "Clenshaw-Curtis");
  auto const scaled = [&](double const t) {
    return (2 * Real(t) - lower - upper) / (Real(upper) - lower);
  };
  auto const f = [&](Instant const& t) {
    return static_cast<double>(Sum(a, scaled((t - t0) / Second))) * Metre;
  };
  // ∫ Tₙ = 2 / (1 - n²) for even n.
  Real expected = 0;
  for (int n = 0; n <= degree; n += 2) expected += a[n] * 2.0L / (1 - Real(n) * n);
  expected *= (Real(upper) - lower) / 2;
  Instant const a0 = t0 + lower * Second, b0 = t0 + upper * Second;
  double const conditioning =
      (1 + std::max(std::abs(lower), std::abs(upper)) / width) * (degree * degree + 1);
  // The nodes and weights are computed.
  double const rounding = 16 * ε * total * width * conditioning;
  auto const check = [&](auto const actual, std::string const& what) {
    REQUIRE(std::abs(actual / (Metre * Second) - expected) <= rounding,
            what << " is " << actual << " not " << expected);
  };
  if (gauss) {
    Dispatch<1, 20>(points, [&]<int n>() { check(GaussLegendre<n>(f, a0, b0), "Gauss"); });
  } else {
    Dispatch<1, 6>(p, [&]<int n>() {
      check(ClenshawCurtis<(1 << n) + 1>(f, a0, b0), "Clenshaw-Curtis");
    });
    if (s.coin() && degree <= 32) {
      // The automatic quadrature must not stop before the number of points allows the
      // degree, unless its estimate is good.
      // The relative error is meaningless for a null integral.
      if (std::abs(expected) > 1e-2 * total * width) {
        check(AutomaticClenshawCurtis<65>(f, a0, b0, 1e-12, std::nullopt), "automatic");
      }
      int evaluations = 0;
      int const max_points = s.range(5, 300);
      AutomaticClenshawCurtis<3>([&](Instant const& t) { ++evaluations; return f(t); },
                                 a0, b0, 1e-30, max_points);
      if (evaluations > max_points && evaluations <= 2 * max_points - 1) {
        ctx.known("clenshaw-curtis-max-points",
                  "AutomaticClenshawCurtis exceeds max_points by up to a factor of 2");
      } else {
        REQUIRE(evaluations <= max_points, "there are " << evaluations << " evaluations, not "
                                                        << max_points);
      }
    }
  }
  // The midpoint rule.
  int const intervals = s.range(1, 50);
  Real sum = 0;
  for (int i = 0; i < intervals; ++i) {
    sum += Sum(a, (2 * i + 1.0L) / intervals - 1);
  }
  sum *= (Real(upper) - lower) / intervals;
  auto const midpoint = Midpoint(f, a0, b0, intervals) / (Metre * Second);
  REQUIRE(std::abs(midpoint - sum) <= rounding, "midpoint rule is " << midpoint << " not " << sum);
}

// Smooth functions of known integrals.
void SmoothIntegrals(Src& s, Ctx& ctx) {
  double const lower = s.sym(3);
  double const width = s.log(1e-2, 10);
  double const upper = lower + width;
  double const ω = s.real(0.1, 5);
  double const b = s.sym(1);
  ctx.nontrivial(true);
  ctx.note() << "∫ exp(" << b << " x) cos(" << ω << " x) + 100 over " << lower << " " << upper
             << " ";
  auto const f = [&](double const x) { return std::exp(b * x) * std::cos(ω * x) + 100; };
  auto const primitive = [&](Real const x) {
    return std::exp(b * x) * (b * std::cos(ω * x) + ω * std::sin(ω * x)) /
               (Real(b) * b + Real(ω) * ω) + 100 * x;
  };
  Real const expected = primitive(upper) - primitive(lower);
  double const error = s.log(1e-13, 1e-2);
  double const actual = AutomaticClenshawCurtis<9>(f, lower, upper, error, std::nullopt);
  REQUIRE(std::abs(actual - expected) <= 2 * (error + 1e-13) * std::abs(expected),
          "automatic quadrature is " << actual << " not " << expected);
  // Splitting the interval.
  double const middle = lower + s.real(0.1, 0.9) * width;
  double const sum = AutomaticClenshawCurtis<9>(f, lower, middle, error, std::nullopt) +
                     AutomaticClenshawCurtis<9>(f, middle, upper, error, std::nullopt);
  REQUIRE(std::abs(actual - sum) <= 4 * (error + 1e-13) * std::abs(expected), "additivity");
  Angle const phase = s.log(1, 1e6) * Radian;
  int const per_period = s.range(1, 20), min_points = s.range(1, 1000);
  auto const heuristic = MaxPointsHeuristicsForAutomaticClenshawCurtis(
      phase / (1 * Second), 1 * Second, min_points, per_period);
  if (heuristic) {
    REQUIRE(*heuristic >= min_points && *heuristic >= std::floor(phase / (2 * π_ * Radian)) * per_period,
            "heuristic is " << *heuristic);
  }
}

// Interpolation by polynomials from values and derivatives.
void Hermite(Src& s, Ctx& ctx) {
  double const lower = s.sym(100);
  double const width = s.log(1e-2, 1e2) * (s.chance(1, 5) ? -1 : 1);
  double const upper = lower + width;
  // A cubic in u = (t - lower) / width.
  std::array<double, 4> c;
  for (auto& x : c) x = s.chance(1, 5) ? 0 : s.sym(10);
  bool const quadratic = s.chance(1, 3);
  if (quadratic) c[3] = 0;
  auto const value = [&](Real const t) {
    Real const u = (t - lower) / (Real(upper) - lower);
    return c[0] + u * (c[1] + u * (c[2] + u * c[3]));
  };
  auto const slope = [&](Real const t) {
    Real const w = Real(upper) - lower;
    Real const u = (t - lower) / w;
    return (c[1] + u * (2 * c[2] + u * 3 * c[3])) / w;
  };
  double total = 0;
  for (double const x : c) total += std::abs(x);
  Real const δ = ε * (8 + 8 * std::max(std::abs(lower), std::abs(upper)) / std::abs(width));
  Real const noise = 64 * total * δ + 1e-300;
  Instant const a = t0 + lower * Second, b = t0 + upper * Second;
  auto const L = [](Real const x) { return static_cast<double>(x) * Metre; };
  auto const S = [](Real const x) { return static_cast<double>(x) * (Metre / Second); };
  ctx.note() << "cubic " << c[0] << " " << c[1] << " " << c[2] << " " << c[3] << " over " << lower
             << " " << upper << " ";
  ctx.nontrivial(c[2] != 0 || c[3] != 0);
  Hermite3<Length, Instant> const h({a, b}, {L(value(lower)), L(value(upper))},
                                    {S(slope(lower)), S(slope(upper))});
  std::vector<double> points{lower, upper};
  for (int i = 0; i < 4; ++i) points.push_back(lower + s.real(0, 1) * width);
  for (double const at : points) {
    Instant const t = t0 + at * Second;
    REQUIRE(std::abs(h(t) / Metre - value(at)) <= noise, "value at " << at << " is " << h(t)
            << " not " << value(at));
    REQUIRE(std::abs(h.EvaluateDerivative(t) / (Metre / Second) - slope(at)) <=
                noise * 8 / std::abs(width), "derivative at " << at);
    Length x;
    Speed v;
    h.EvaluateWithDerivative(t, x, v);
    REQUIRE(x == h(t) && v == h.EvaluateDerivative(t), "evaluation with derivative");
  }
  if (width > 0) {
    auto const extrema = h.FindExtrema();
    std::vector<double> found;
    for (auto const& t : extrema) found.push_back(((t - t0) / Second - lower) / width);
    REQUIRE(std::is_sorted(found.begin(), found.end()), "extrema not sorted");
    for (double const u : found) {
      REQUIRE(u >= -δ && u <= 1 + δ, "extremum at " << u << " out of range");
      REQUIRE(std::abs(slope(lower + u * width) * width) <= std::sqrt(noise * total) * 64 + noise,
              "slope at the extremum " << u);
    }
    // c₁ + 2 c₂ u + 3 c₃ u²: sign changes within (0, 1) must be found.
    int changes = 0;
    double last = 0;
    bool clear = true;
    for (int i = 0; i <= 200; ++i) {
      double const u = i / 200.0;
      double const d = c[1] + 2 * c[2] * u + 3 * c[3] * u * u;
      if (std::abs(d) < 1e-6 * total) clear = false;
      if (last * d < 0) ++changes;
      last = d;
    }
    if (clear) {
      REQUIRE(found.size() >= changes, "an extremum is missed");
      ctx.label_if(changes > 0, std::to_string(changes) + " extrema");
    }
  }
  if (quadratic) {
    Hermite2<Length, Instant> const h2({a, b}, {L(value(lower)), L(value(upper))},
                                       S(slope(lower)));
    for (double const at : points) {
      Instant const t = t0 + at * Second;
      REQUIRE(std::abs(h2.Evaluate(t) / Metre - value(at)) <= noise, "quadratic at " << at);
      REQUIRE(std::abs(h2.EvaluateDerivative(t) / (Metre / Second) - slope(at)) <=
                  noise * 8 / std::abs(width), "derivative of the quadratic at " << at);
    }
    if (std::abs(c[2]) > 1e-3 * total) {
      double const u = ((h2.FindExtremum() - t0) / Second - lower) / width;
      Real const expected = -c[1] / (2.0L * c[2]);
      REQUIRE(std::abs(u - expected) <= 1e5 * δ * (1 + std::abs(expected)), "extremum at " << u
              << " not " << expected);
    }
  }
}

// Norms and errors of Hermite polynomials with values in space.
void HermiteNorms(Src& s, Ctx& ctx) {
  double const lower = s.sym(10);
  double const width = s.log(1e-1, 1e1);
  bool const from_zero = s.coin();
  auto const vector = [&] { return D({s.sym(5) * Metre, s.sym(5) * Metre, s.sym(5) * Metre}); };
  D const q0 = from_zero ? D{} : vector();
  D const q1 = vector();
  V3 const v0 = from_zero ? V3{} : vector() / Second;
  V3 const v1 = vector() / Second;
  Instant const a = t0 + lower * Second, b = a + width * Second;
  Hermite3<D, Instant> const h({a, b}, {q0, q1}, {v0, v1});
  ctx.note() << "from " << q0 << " " << v0 << " to " << q1 << " " << v1 << " over " << lower
             << " " << width << " ";
  ctx.nontrivial(true);
  ctx.label(from_zero ? "from zero" : "general");
  Length most1, most2;
  std::array<Length, 3> components{}, stationary{};
  std::array<double, 3> last{};
  int const n = 1000;
  for (int i = 0; i <= n; ++i) {
    Instant const t = a + (b - a) * (i / double(n));
    auto const c = h(t).coordinates();
    most2 = std::max(most2, h(t).Norm());
    most1 = std::max(most1, Abs(c.x) + Abs(c.y) + Abs(c.z));
    components[0] = std::max(components[0], Abs(c.x));
    components[1] = std::max(components[1], Abs(c.y));
    components[2] = std::max(components[2], Abs(c.z));
    auto const v = h.EvaluateDerivative(t).coordinates();
    std::array<double, 3> const speeds{v.x / (Metre / Second), v.y / (Metre / Second),
                                       v.z / (Metre / Second)};
    std::array<Length, 3> const values{Abs(c.x), Abs(c.y), Abs(c.z)};
    for (int j = 0; j < 3; ++j) {
      if (i > 0 && i < n - 1 && speeds[j] * last[j] <= 0) {
        stationary[j] = std::max(stationary[j], values[j]);
      }
      last[j] = speeds[j];
    }
  }
  Length const scale = q0.Norm() + q1.Norm() + (v0.Norm() + v1.Norm()) * (b - a);
  Length const fine = 1e-5 * scale;
  auto const bound = h.LInfinityL₁NormUpperBound();
  Length const expected_bound = components[0] + components[1] + components[2];
  Length const interior = stationary[0] + stationary[1] + stationary[2];
  if (Abs(bound - expected_bound) > fine && interior < expected_bound - fine) {
    ctx.known("hermite3-l1-norm-ends",
              "LInfinityL1NormUpperBound ignores the values at the ends of the interval");
    // Stationary points at the ends may or may not be found.
    REQUIRE(bound >= 0 * Metre && bound <= expected_bound + fine, "bound " << bound);
  } else {
    REQUIRE(bound >= most1 - fine, "bound " << bound << " is less than " << most1);
    REQUIRE(Abs(bound - expected_bound) <= fine, "bound " << bound);
  }
  if (from_zero) {
    auto const norm = h.LInfinityL₂Norm();
    REQUIRE(Abs(norm - most2) <= fine && norm >= most2 - 1e-9 * scale, "norm " << norm << " not "
            << most2);
  }
  // Errors at samples.
  using Sample = std::pair<Instant, D>;
  std::vector<Sample> samples;
  Length worst;
  int const m = s.range(0, 20);
  for (int i = 0; i < m; ++i) {
    Instant const t = a + s.real(0, 1) * (b - a);
    D const x = h(t) + vector() * s.log(1e-3, 1);
    samples.emplace_back(t, x);
    worst = std::max(worst, (h(t) - x).Norm());
  }
  std::function<Instant const&(Sample const&)> const get_argument =
      [](Sample const& p) -> Instant const& { return p.first; };
  std::function<D const&(Sample const&)> const get_value =
      [](Sample const& p) -> D const& { return p.second; };
  auto const error = h.LInfinityL₂Error(samples, get_argument, get_value);
  REQUIRE(Abs(error - worst) <= 1e-13 * (scale + worst), "error " << error << " not " << worst);
  if (m > 0) {
    REQUIRE(h.LInfinityL₂ErrorIsWithin(samples, get_argument, get_value, worst * 1.0001 + fine * 1e-6),
            "not within");
    REQUIRE(!h.LInfinityL₂ErrorIsWithin(samples, get_argument, get_value, worst * 0.999 - fine),
            "within too small a tolerance");
  }
  // The additive group.
  Hermite3<D, Instant> const g({a, b}, {q1, q0}, {v1, v0});
  Instant const t = a + s.real(0, 1) * (b - a);
  REQUIRE(((h + g)(t) - (h(t) + g(t))).Norm() <= 1e-13 * scale &&
              ((h - g)(t) - (h(t) - g(t))).Norm() <= 1e-13 * scale &&
              ((-h)(t) + h(t)).Norm() <= 1e-13 * scale && ((+h)(t) - h(t)).Norm() <= 1e-13 * scale,
          "group");
}

// Newhall's approximation of polynomials.
void Newhall(Src& s, Ctx& ctx) {
  int const degree = s.range(3, 17);
  int const actual = s.chance(2, 3) ? s.range(0, degree) : s.range(0, 20);
  std::vector<double> a;
  double total = 0;
  for (int n = 0; n <= actual; ++n) {
    a.push_back(s.chance(1, 5) ? 0 : s.sym(10));
    total += std::abs(a.back());
  }
  double const lower = s.sym(100);
  double const width = s.log(1e-1, 1e3);
  double const upper = lower + width;
  ctx.note() << "degree " << degree << " of a polynomial of degree " << actual << " over "
             << lower << " " << upper << " ";
  ctx.label(actual <= degree ? "exact" : "approximate");
  ctx.nontrivial(actual > 1);
  D const direction({1 * Metre, -2 * Metre, 0.5 * Metre});
  std::vector<QV<Length>> qvs;
  std::vector<QV<D>> vectors;
  std::vector<QV<Position<World>>> positions;
  for (int i = 0; i <= 8; ++i) {
    Real slope;
    Real const value = Sum(a, i / 4.0L - 1, &slope);
    double const q = value, v = slope * 2 / width;
    qvs.push_back({q * Metre, v * Metre / Second});
    vectors.push_back({q * direction, v * direction / Second});
    positions.push_back({World::origin + q * direction, v * direction / Second});
  }
  Instant const t_min = t0 + lower * Second, t_max = t0 + upper * Second;
  Length error{}, monomial_error{};
  D vector_error{}, position_error{};
  auto const чебышёв = NewhallApproximationInЧебышёвBasis<Length>(degree, qvs, t_min, t_max, error);
  auto const vector_чебышёв =
      NewhallApproximationInЧебышёвBasis<D>(degree, vectors, t_min, t_max, vector_error);
  bool const estrin = s.coin();
  auto const policy = estrin ? Policy::AlwaysEstrin() : Policy::AlwaysEstrinWithoutFMA();
  auto const monomial = NewhallApproximationInMonomialBasis<Length>(
      degree, qvs, t_min, t_max, policy, monomial_error);
  auto const affine = NewhallApproximationInMonomialBasis<Position<World>>(
      degree, positions, t_min, t_max, policy, position_error);
  REQUIRE(чебышёв->degree() == degree && monomial->degree() == degree &&
          affine->degree() == degree && vector_чебышёв->degree() == degree, "degrees");
  REQUIRE(чебышёв->lower_bound() == t_min && чебышёв->upper_bound() == t_max, "bounds");
  Real const conditioning =
      (1 + std::max(std::abs(lower), std::abs(upper)) / width) * (degree * degree + 1);
  // The coefficients in the monomial basis grow like those of Tₙ.
  Real const size = total * std::max(actual * actual, 1);
  Real const rounding = 64 * ε * size * conditioning;
  Real const monomial_rounding = rounding + 16 * ε * size * std::pow(2.42L, degree);
  auto const close = [&](Instant const& t, Real const expected, Real const tolerance) {
    REQUIRE(std::abs((*чебышёв)(t) / Metre - expected) <= tolerance + rounding,
            "value at " << t << " is " << (*чебышёв)(t) << " not " << expected);
    REQUIRE(std::abs((*monomial)(t) / Metre - expected) <= tolerance + monomial_rounding,
            "monomial value at " << t << " is " << (*monomial)(t) << " not " << expected);
    REQUIRE(((*affine)(t) - World::origin - static_cast<double>(expected) * direction).Norm() <=
                (tolerance + monomial_rounding) * 4 * Metre, "position at " << t);
    REQUIRE(((*vector_чебышёв)(t) - static_cast<double>(expected) * direction).Norm() <=
                (tolerance + rounding) * 4 * Metre, "vector at " << t);
  };
  if (actual <= degree) {
    for (int i = 0; i < 6; ++i) {
      double const u = s.real(-1, 1);
      Instant const t = t_min + (u + 1) / 2 * (t_max - t_min);
      close(t, Sum(a, ((2 * (t - t0) / Second) - lower - upper) / Real(upper - lower)), 0);
    }
    if (actual < degree) {
      REQUIRE(Abs(error) <= rounding * Metre && Abs(monomial_error) <= monomial_rounding * Metre,
              "error estimates " << error << " " << monomial_error);
    }
  }
  // The values and derivatives at the ends are interpolated.
  close(t_min, get<0>(qvs.front()) / Metre, 0);
  close(t_max, get<0>(qvs.back()) / Metre, 0);
  for (int const k : {0, 8}) {
    Instant const t = k == 0 ? t_min : t_max;
    REQUIRE(std::abs((чебышёв->EvaluateDerivative(t) - get<1>(qvs[k])) / (Metre / Second)) <=
                rounding * degree * degree * 4 / width, "derivative at the end " << k);
    REQUIRE(std::abs((monomial->EvaluateDerivative(t) - get<1>(qvs[k])) / (Metre / Second)) <=
                monomial_rounding * degree * degree * 4 / width,
            "derivative of the monomial at the end " << k);
  }
}

void Differences(Src& s, Ctx& ctx) {
  int const n = s.range(2, 9);
  int const degree = s.range(0, n - 1);
  int const offset = s.range(0, n - 1);
  std::vector<double> a;
  double const h = s.log(1e-3, 1e3);
  for (int k = 0; k <= degree; ++k) a.push_back(s.range(-1000, 1000));
  // f(x) = Σ aₖ ((x - xⱼ) / h)ᵏ, whose derivative at xⱼ is a₁ / h.
  Real most = 0;
  Dispatch<2, 9>(n, [&]<int size>() {
    std::array<Length, size> values;
    for (int i = 0; i < size; ++i) {
      Real y = 0;
      for (int k = degree; k >= 0; --k) y = y * (i - offset) + a[k];
      values[i] = static_cast<double>(y) * Metre;
      most = std::max(most, std::abs(y));
    }
    auto const derivative = FiniteDifference(values, h * Second, offset) / (Metre / Second);
    Real const expected = degree >= 1 ? a[1] / Real(h) : 0;
    REQUIRE(std::abs(derivative - expected) <= 200 * ε * most / h, "derivative is " << derivative
            << " not " << expected);
    if (size % 2 == 1 && offset == (size - 1) / 2) {
      values[offset] += 1000 * Metre;
      REQUIRE(FiniteDifference(values, h * Second, offset) / (Metre / Second) == derivative,
              "the middle value is used");
    }
  });
  ctx.note() << n << " points degree " << degree << " offset " << offset << " ";
  ctx.nontrivial(degree > 0);
}

struct Integrals {
  Real f, b, d, j;
};
// For 0 ≤ φ ≤ π/2, from Carlson's forms.
Integrals Carlson(Real const φ, Real const n, Real const mc) {
  Real const s = std::sin(φ), c = std::cos(φ);
  if (s == 0) return {0, 0, 0, 0};
  Real const x = c * c, y = x + mc * s * s, p = x + (1 - n) * s * s;
  Integrals r;
  r.f = s * boost::math::ellint_rf(x, y, 1.0L);
  r.d = s * s * s * boost::math::ellint_rd(x, y, 1.0L) / 3;
  // B = F - D = ∫ cos² / Δ, without cancellation for small 1 - φ: still fine in extended
  // precision.
  r.b = r.f - r.d;
  r.j = s * s * s * boost::math::ellint_rj(x, y, 1.0L, p) / 3;
  return r;
}

void Elliptic(Src& s, Ctx& ctx) {
  double const mc = s.chance(1, 10) ? 1 : s.chance(1, 2) ? s.real(1e-3, 1) : s.log(1e-12, 1);
  double const n = s.chance(1, 10) ? 0 : s.chance(1, 2) ? s.real(0, 0.999) : 1 - s.log(1e-6, 1);
  double const φ = s.chance(1, 8) ? 0 : s.chance(2, 3) ? s.real(0, 1.5707963) : s.log(1e-8, 1.57);
  int const turns = s.chance(1, 3) ? s.range(-5, 5) : 0;
  bool const negative = s.chance(1, 4);
  ctx.note() << std::setprecision(17) << "φ " << φ << " n " << n << " mc " << mc << " turns " << turns << " ";
  ctx.nontrivial(φ != 0);
  auto const r = Carlson(φ, n, mc);
  auto const complete = Carlson(π_ / 2, n, mc);
  Angle const φ0 = φ * Radian;
  auto const near = [&](Angle const& actual, Real const expected, Real const tolerance,
                        std::string const& what) {
    REQUIRE(std::abs(actual / Radian - expected) <= tolerance * std::abs(expected) + 1e-300L,
            what << " is " << actual / Radian << " not " << expected << " error "
                 << (actual / Radian - expected) / expected);
  };
  // The sensitivity to φ is bounded by φ / (Δ F), large near π/2 for small mc.
  Real const x = std::cos(Real(φ)) * std::cos(Real(φ)) + mc * std::sin(Real(φ)) * std::sin(Real(φ));
  Real const tolerance = ε * (20 + 4 / std::sqrt(x));
  // The integral of the third kind suffers from cancellations near n = 1.
  Real const cancellation = ε * 20 / ((1 - n) * std::sqrt(Real(mc)));
  Angle b, d, j;
  FukushimaEllipticBDJ(φ0, n, mc, b, d, j);
  near(b, r.b, tolerance * 4, "B");
  near(d, r.d, tolerance * 4, "D");
  near(j, r.j, tolerance * 8 + cancellation, "J");
  Angle b2, d2;
  FukushimaEllipticBD(φ0, mc, b2, d2);
  near(b2, r.b, tolerance * 4, "B alone");
  near(d2, r.d, tolerance * 4, "D alone");
  near(EllipticK(mc), complete.f, 24 * ε, "K");
  // General arguments.
  Real const sign = negative ? -1 : 1;
  Real const full = 2 * turns;
  // φ + turns π, rounded: compare at the reduced argument.
  double const general = sign * φ + turns * static_cast<double>(π_);
  Real reduced = general - turns * π_;
  if (std::abs(reduced) > π_ / 2) throw pbt::Discard{};
  auto g = Carlson(std::abs(reduced), n, mc);
  Real const sg = reduced < 0 ? -1 : 1;
  Real const xr = std::cos(reduced) * std::cos(reduced) + mc * std::sin(reduced) * std::sin(reduced);
  Real const slope = 1 / std::sqrt(xr) * (1 + 1 / (1 - n));
  auto const check = [&](Angle const& actual, Real const part, Real const quarter,
                         std::string const& what) {
    Real const expected = sg * part + full * quarter;
    Real const magnitude = std::abs(part) + std::abs(full) * std::abs(quarter);
    REQUIRE(std::abs(actual / Radian - expected) <=
                (100 * ε + (what[0] == 'F' || what[0] == 'E' ? 0 : cancellation)) * magnitude +
                    ε * 4 * std::abs(general) * slope + 1e-300L,
            what << " is " << actual / Radian << " not " << expected << " at " << general);
  };
  auto const E = [&](Integrals const& i) { return i.b + mc * i.d; };
  auto const Π = [&](Integrals const& i) { return i.f + n * i.j; };
  Angle const φg = general * Radian;
  check(EllipticF(φg, mc), g.f, complete.f, "F");
  check(EllipticE(φg, mc), E(g), E(complete), "E");
  check(EllipticΠ(φg, n, mc), Π(g), Π(complete), "Π");
  Angle f1, e1, f2, e2, p2;
  EllipticFE(φg, mc, f1, e1);
  EllipticFEΠ(φg, n, mc, f2, e2, p2);
  check(f1, g.f, complete.f, "F with E");
  check(e1, E(g), E(complete), "E with F");
  check(f2, g.f, complete.f, "F with Π");
  check(e2, E(g), E(complete), "E with Π");
  check(p2, Π(g), Π(complete), "Π with F");
}

void Jacobi(Src& s, Ctx& ctx) {
  double const mc = s.chance(1, 10) ? 1 : s.chance(1, 2) ? s.real(1e-3, 1) : s.log(1e-10, 1);
  Real const k = Carlson(π_ / 2, 0, mc).f;
  double const u = s.chance(1, 8) ? 0 : s.coin() ? static_cast<double>(s.sym(1) * k) : static_cast<double>(s.sym(6) * k);
  ctx.note() << "u " << u << " mc " << mc << " ";
  ctx.nontrivial(u != 0);
  // The amplitude, by descending Landen transformations on the arithmetic-geometric mean.
  Real a = 1, b = std::sqrt(Real(mc)), c = std::sqrt(1 - Real(mc));
  std::vector<Real> as{a}, cs{c};
  while (std::abs(c) > 1e-19L && as.size() < 30) {
    Real const next = (a + b) / 2;
    c = (a - b) / 2;
    b = std::sqrt(a * b);
    a = next;
    as.push_back(a);
    cs.push_back(c);
  }
  int const n = as.size() - 1;
  Real φ = std::ldexp(a, n) * u;
  for (int i = n; i > 0; --i) {
    φ = (φ + std::asin(std::clamp(cs[i] / as[i] * std::sin(φ), -1.0L, 1.0L))) / 2;
  }
  Real const sn = std::sin(φ), cn = std::cos(φ), dn = std::sqrt(cn * cn + mc * sn * sn);
  Real const tolerance = ε * (60 + 8 * std::abs(u));
  Angle const amplitude = JacobiAmplitude(u * Radian, mc);
  REQUIRE(std::abs(amplitude / Radian - φ) <= tolerance * 4, "amplitude is " << amplitude << " not "
          << φ);
  double s1, c1, d1;
  if (std::abs(u) < 3.99L * k) {
    JacobiSNCNDN(u * Radian, mc, s1, c1, d1);
    REQUIRE(std::abs(s1 - sn) <= tolerance, "sn is " << s1 << " not " << sn);
    REQUIRE(std::abs(c1 - cn) <= tolerance, "cn is " << c1 << " not " << cn);
    REQUIRE(std::abs(d1 - dn) <= tolerance, "dn is " << d1 << " not " << dn);
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"series", "Chebyshev series", 100'000, 2'000'000, Series},
       {"roots", "roots of Chebyshev series", 50'000, 1'000'000, SeriesRoots},
       {"interpolation", "Chebyshev interpolants", 6'000, 400'000, Interpolation},
       {"transforms", "fast Fourier transform", 5'000, 300'000, Transforms},
       {"quadratures", "exact quadratures", 100'000, 2'000'000, Quadratures},
       {"integrals", "automatic quadratures", 50'000, 1'000'000, SmoothIntegrals},
       {"hermite", "Hermite interpolation", 100'000, 2'000'000, Hermite},
       {"norms", "norms of Hermite polynomials", 10'000, 100'000, HermiteNorms},
       {"newhall", "Newhall's approximation", 50'000, 1'000'000, Newhall},
       {"differences", "finite differences", 150'000, 3'000'000, Differences},
       {"elliptic", "elliptic integrals", 200'000, 4'000'000, Elliptic},
       {"jacobi", "elliptic functions", 200'000, 4'000'000, Jacobi}});
}
