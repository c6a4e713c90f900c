// Polynomials in the monomial, Чебышёв and Legendre bases, against polynomials
// with coefficients in extended precision.
#include <cmath>
#include <limits>
#include <iostream>
#include <memory>
#include <sstream>
#include <optional>
#include <utility>
#include <vector>

#include "convert.hpp"
#include "fatal.hpp"
#include "geometry/frame.hpp"
#include "geometry/space.hpp"
#include "linear.hpp"
#include "numerics/legendre.hpp"
#include "numerics/polynomial.hpp"
#include "numerics/polynomial_evaluators.hpp"
#include "numerics/polynomial_in_monomial_basis.hpp"
#include "numerics/polynomial_in_чебышёв_basis.hpp"
#include "pbt.hpp"
#include "serialization/geometry.pb.h"
#include "serialization/numerics.pb.h"

using namespace principia::geometry::_frame;
using namespace principia::geometry::_space;
using namespace principia::numerics::_legendre;
using namespace principia::numerics::_polynomial;
using namespace principia::numerics::_polynomial_evaluators;
using namespace principia::numerics::_polynomial_in_monomial_basis;
using namespace principia::numerics::_polynomial_in_чебышёв_basis;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace convert;
using pbt::Ctx;
using pbt::Src;
using principia::geometry::_grassmann::Vector;

using SF = principia::serialization::Frame;
using World = Frame<SF::TestTag, Inertial, Handedness::Right, SF::TEST>;

// The reference: Σ c[i] (t - origin)ⁱ.
struct Reference {
  std::vector<Vec> c;
  Real origin = 0;

  Vec operator()(Real const t) const { return Derivative(t, 0); }
  Vec Derivative(Real const t, int const n = 1) const {
    Real const x = t - origin;
    Vec result;
    Real power = 1;
    for (std::size_t i = n; i < c.size(); ++i) {
      Real k = 1;
      for (int j = 0; j < n; ++j) k *= i - j;
      result = result + (k * power) * c[i];
      power *= x;
    }
    return result;
  }
  // The scale of the terms of the `n`-th derivative at a distance `x`.
  Real Bound(Real const x, int const n = 0) const {
    Real result = 0;
    Real power = 1;
    for (std::size_t i = n; i < c.size(); ++i) {
      Real k = 1;
      for (int j = 0; j < n; ++j) k *= i - j;
      result += k * power * Norm(c[i]);
      power *= std::abs(x);
    }
    return result;
  }
};

template<typename P, std::size_t... i>
P MakePolynomialImpl(Reference const& r, std::index_sequence<i...>) {
  using Coefficients = typename P::Coefficients;
  Coefficients const coefficients{
      Make<std::remove_cvref_t<decltype(get<i>(
          std::declval<Coefficients&>()))>>(r.c[i])...};
  return P(coefficients, Make<typename P::Argument>({r.origin}));
}
template<typename P>
P MakePolynomial(Reference const& r) {
  return MakePolynomialImpl<P>(
      r, std::make_index_sequence<
             std::tuple_size_v<typename P::Coefficients>>{});
}
// The coefficients of the polynomial `p`.
template<typename P, std::size_t... i>
Reference OfImpl(P const& p, std::index_sequence<i...>) {
  return {{convert::Of(get<i>(p.coefficients()))...},
          convert::Of(p.origin())[0]};
}
template<typename P>
Reference OfPolynomial(P const& p) {
  return OfImpl(p, std::make_index_sequence<
                       std::tuple_size_v<typename P::Coefficients>>{});
}

template<typename Value>
Vec SomeValue(Src& s, double const scale) {
  auto const one = [&]() -> Real {
    switch (s.below(4)) {
      case 0:
        return static_cast<double>(s.range(-3, 3));
      case 1:
        return s.slog(1e-3 * scale, 1e3 * scale);
      default:
        return s.sym(scale);
    }
  };
  return Kind<Value>::dimension == 1 ? Vec{one()} : Vec{one(), one(), one()};
}
template<typename Value>
Reference SomePolynomial(Src& s, int const degree, double const time = 1) {
  Reference r;
  r.origin = s.coin() ? 0 : s.slog(1e-2, 1e4);
  for (int i = 0; i <= degree; ++i) {
    r.c.push_back(Rounded(std::pow(static_cast<Real>(time), -i) *
                          SomeValue<Value>(s, 1)));
    if (s.chance(1, 12)) r.c.back() = Vec{};
  }
  return r;
}
inline Real SomeArgument(Src& s, Reference const& r, double const time = 1) {
  Real const o = r.origin;
  switch (s.below(5)) {
    case 0:
      return r.origin;
    case 1:
      return static_cast<double>(o + s.slog(1e-6 * time, 1e2 * time));
    case 2:
      return static_cast<double>(s.range(-5, 5));
    default:
      return static_cast<double>(o + s.sym(2 * time));
  }
}
inline std::ostream& operator<<(std::ostream& o, Reference const& r) {
  for (std::size_t i = 0; i < r.c.size(); ++i) o << (i ? " " : "") << r.c[i];
  return o << " at " << r.origin;
}

// Checks that `p` has the values of `r`, whose terms are known to within
// `error` ε.
template<typename P>
void CheckValues(P const& p, Reference const& r, Real const t, Real const error,
                 std::string const& what, Real const shift = 0) {
  using Value = typename P::Value;
  using Argument = typename P::Argument;
  Argument const argument = Make<Argument>({t});
  // Rounding of the argument.
  Real const x = std::abs(t - r.origin) + shift;
  Real const k = error + 3 * r.c.size() + 6;
  Real const value_tolerance =
      k * ε * r.Bound(x) + 4 * ε * Norm(r(t)) + 1e-300L;
  Real const derivative_tolerance = k * ε * r.Bound(x, 1) + 1e-300L;
  ExpectVec(convert::Of(p(argument)), r(t), value_tolerance, what);
  ExpectVec(convert::Of(p.EvaluateDerivative(argument)), r.Derivative(t),
            derivative_tolerance, what + " derivative");
  Value value;
  principia::base::_algebra::Derivative<Value, Argument> derivative;
  p.EvaluateWithDerivative(argument, value, derivative);
  ExpectVec(convert::Of(value), r(t), value_tolerance, what + " (both)");
  ExpectVec(convert::Of(derivative), r.Derivative(t), derivative_tolerance,
            what + " derivative (both)");
}

using Check = void (*)(Src&, Ctx&);
void Monomials(Src& s, Ctx& c);
void Algebras(Src& s, Ctx& c);
// This instantiates very many templates.
std::unique_ptr<Polynomial<Displacement<World>, Instant>> Read(
    principia::serialization::Polynomial const& message);

#if PART == 3
std::unique_ptr<Polynomial<Displacement<World>, Instant>> Read(
    principia::serialization::Polynomial const& message) {
  return Polynomial<Displacement<World>, Instant>::ReadFromMessage(message);
}
#elif PART == 1
// A polynomial with the given evaluator.
template<template<typename, typename, int> typename E, typename Value,
         typename Argument, int degree>
void CheckEvaluator(
    Reference const& r, Real const t,
    PolynomialInMonomialBasis<Value, Argument, degree> const& original,
    std::string const& what) {
  using P = PolynomialInMonomialBasis<Value, Argument, degree, E>;
  P const p(original);
  CheckValues(p, r, t, 0, what);
  Polynomial<Value, Argument> const& base = p;
  CheckValues(base, r, t, 0, what + " virtual");
  REQUIRE(base.degree() == degree, what << " degree");
  principia::serialization::Polynomial message;
  base.WriteToMessage(&message);
  auto const text = message.SerializeAsString();
  if constexpr (degree > 0 && std::is_same_v<Value, Displacement<World>>) {
    auto const read = Read(message);
    principia::serialization::Polynomial again;
    read->WriteToMessage(&again);
    REQUIRE(again.SerializeAsString() == text, what << " serialization");
    Argument const argument = Make<Argument>({t});
    // The same evaluator is used.
    REQUIRE((*read)(argument) == base(argument), what << " read value");
    REQUIRE(read->EvaluateDerivative(argument) ==
                base.EvaluateDerivative(argument),
            what << " read derivative");
  }
  REQUIRE(P::ReadFromMessage(message) == p, what << " serialization");
}

template<int order, typename P>
void CheckDerivatives(P const& p, Reference const& r, Real const t) {
  if constexpr (order <= std::tuple_size_v<typename P::Coefficients> - 1) {
    Reference d{{}, r.origin};
    for (std::size_t i = order; i < r.c.size(); ++i) {
      Real k = 1;
      for (int j = 0; j < order; ++j) k *= i - j;
      d.c.push_back(k * r.c[i]);
    }
    auto const derivative = p.template Derivative<order>();
    CheckValues(derivative, d, t, 2 * order,
                "derivative of order " + std::to_string(order));
  }
}

template<typename Value, typename Argument, int degree>
void Monomial(Src& s, Ctx& c) {
  using P = PolynomialInMonomialBasis<Value, Argument, degree>;
  double const time = s.coin() ? 1 : s.log(1e-2, 1e4);
  Reference r = SomePolynomial<Value>(s, degree, time);
  Real const t = SomeArgument(s, r, time);
  c.note() << r << " for " << t;
  c.nontrivial(r.Bound(t - r.origin) > 0 && t != r.origin);
  c.label("degree " + std::to_string(degree));
  P const p = MakePolynomial<P>(r);
  CheckValues(p, r, t, 0, "value");
  CheckEvaluator<Horner>(r, t, p, "Horner");
  CheckEvaluator<Estrin>(r, t, p, "Estrin");
  CheckEvaluator<HornerWithoutFMA>(r, t, p, "Horner without FMA");
  CheckEvaluator<EstrinWithoutFMA>(r, t, p, "Estrin without FMA");
  REQUIRE(OfPolynomial(p).c.size() == r.c.size(), "coefficients");
  REQUIRE(convert::Of(p.origin())[0] == r.origin, "origin");
  bool zero = true;
  for (auto const& v : r.c) zero &= Norm(v) == 0;
  REQUIRE(p.is_zero() == zero, "is_zero " << p.is_zero());
  {
    Reference q = r;
    REQUIRE(MakePolynomial<P>(q) == p, "==");
    int const i = s.below(degree + 1);
    q.c[i][0] = std::nextafter(static_cast<double>(q.c[i][0]), 1e300);
    REQUIRE(MakePolynomial<P>(q) != p && !(MakePolynomial<P>(q) == p), "!=");
  }
  // Policies.
  {
    auto const estrin = Policy::AlwaysEstrin().WithEvaluator(P(p));
    auto const without = Policy::AlwaysEstrinWithoutFMA().WithEvaluator(P(p));
    CheckValues(*estrin, r, t, 0, "AlwaysEstrin");
    CheckValues(*without, r, t, 0, "AlwaysEstrinWithoutFMA");
    principia::serialization::PolynomialInMonomialBasis::Policy message;
    bool const fma = s.coin();
    (fma ? Policy::AlwaysEstrin() : Policy::AlwaysEstrinWithoutFMA())
        .WriteToMessage(&message);
    auto const read = Policy::ReadFromMessage(message).WithEvaluator(P(p));
    principia::serialization::Polynomial m1;
    principia::serialization::Polynomial m2;
    read->WriteToMessage(&m1);
    (fma ? *estrin : *without).WriteToMessage(&m2);
    REQUIRE(m1.SerializeAsString() == m2.SerializeAsString(), "policy");
  }
  // A higher degree.
  {
    using Q = PolynomialInMonomialBasis<Value, Argument, degree + 3>;
    Q const q(p);
    CheckValues(q, r, t, 0, "higher degree");
    Q const moved{P(p)};
    REQUIRE(moved == q, "moved to a higher degree");
  }
  // Another origin.
  if constexpr (!std::is_same_v<Value, Position<World>>) {
    Real const origin = s.chance(1, 8) ? r.origin : SomeArgument(s, r, time);
    P const q = p.AtOrigin(Make<Argument>({origin}));
    REQUIRE(convert::Of(q.origin())[0] == origin, "origin of AtOrigin");
    c.note() << " origin " << origin;
    Reference shifted = r;
    CheckValues(q, shifted, t, 4 * degree + 4, "AtOrigin",
                2 * std::abs(origin - r.origin) +
                    (std::abs(r.origin) + std::abs(origin)) * 1e-15L);
  }
  CheckDerivatives<1>(p, r, t);
  CheckDerivatives<2>(p, r, t);
  CheckDerivatives<3>(p, r, t);
  if constexpr (requires { p.Primitive(); }) {
    Reference q{{Vec{}}, r.origin};
    for (std::size_t i = 0; i < r.c.size(); ++i) {
      q.c.push_back((1 / static_cast<Real>(i + 1)) * r.c[i]);
    }
    CheckValues(p.Primitive(), q, t, 4, "primitive");
    Real const u = SomeArgument(s, r, time);
    ExpectVec(convert::Of(p.Integrate(Make<Argument>({t}),
                                      Make<Argument>({u}))),
              q(u) - q(t),
              (8 * degree + 24) * ε *
                      (q.Bound(u - r.origin) + q.Bound(t - r.origin)) +
                  4 * ε * (std::abs(t) + std::abs(u)) *
                      (r.Bound(u - r.origin) + r.Bound(t - r.origin)),
              "Integrate");
  }
}

template<typename Value, typename Argument, int... degrees>
void AddDegrees(std::vector<Check>& checks) {
  (checks.push_back(&Monomial<Value, Argument, degrees>), ...);
}
void Monomials(Src& s, Ctx& c) {
  static std::vector<Check> const checks = [] {
    std::vector<Check> v;
    AddDegrees<double, double, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11>(v);
    AddDegrees<Length, Time, 0, 3, 6>(v);
    AddDegrees<Length, Instant, 2, 4, 10>(v);
    AddDegrees<Displacement<World>, Instant, 1, 3, 8, 17>(v);
    AddDegrees<Position<World>, Instant, 1, 3, 5, 12>(v);
    return v;
  }();
  checks[s.below(checks.size())](s, c);
}

#elif PART == 2
// Vector space and algebra.
Reference Plus(Reference const& l, Reference const& r, Real const sign) {
  Reference sum{{}, l.origin};
  for (std::size_t i = 0; i < std::max(l.c.size(), r.c.size()); ++i) {
    sum.c.push_back((i < l.c.size() ? l.c[i] : Vec{}) +
                    sign * (i < r.c.size() ? r.c[i] : Vec{}));
  }
  return sum;
}
Reference Absolute(Reference const& r) {  // Scalar-valued, bounding.
  Reference a{{}, r.origin};
  for (auto const& v : r.c) a.c.push_back({Norm(v)});
  return a;
}
template<typename P>
void CheckSum(P const& p, Reference const& l, Reference const& r,
              Real const sign, Real const t, std::string const& what) {
  using Argument = typename P::Argument;
  Real const x = t - l.origin;
  Argument const a = Make<Argument>({t});
  Real const k = (3 * (l.c.size() + r.c.size()) + 8) * ε;
  ExpectVec(convert::Of(p(a)), l(t) + sign * r(t),
            k * (l.Bound(x) + r.Bound(x)), what);
  ExpectVec(convert::Of(p.EvaluateDerivative(a)),
            l.Derivative(t) + sign * r.Derivative(t),
            k * (l.Bound(x, 1) + r.Bound(x, 1)), what + " derivative");
}
// The product of `l` and `r` by the bilinear `times`.
template<typename P, typename Times>
void CheckProduct(P const& p, Reference const& l, Reference const& r,
                  Times const& times, Real const t, std::string const& what) {
  using Argument = typename P::Argument;
  Real const x = t - l.origin;
  Argument const a = Make<Argument>({t});
  Real const k = (4 * (l.c.size() + r.c.size()) + 12) * ε;
  ExpectVec(convert::Of(p(a)), times(l(t), r(t)), k * l.Bound(x) * r.Bound(x),
            what);
  ExpectVec(
      convert::Of(p.EvaluateDerivative(a)),
      times(l.Derivative(t), r(t)) + times(l(t), r.Derivative(t)),
      k * (l.Bound(x, 1) * r.Bound(x) + l.Bound(x) * r.Bound(x, 1)),
      what + " derivative");
}

template<typename Argument, int ld, int rd>
void Algebra(Src& s, Ctx& c) {
  using D = Displacement<World>;
  using LS = PolynomialInMonomialBasis<Length, Argument, ld>;
  using RS = PolynomialInMonomialBasis<Length, Argument, rd>;
  using LV = PolynomialInMonomialBasis<D, Argument, ld>;
  using RV = PolynomialInMonomialBasis<D, Argument, rd>;
  auto const l = SomePolynomial<Length>(s, ld);
  auto r = SomePolynomial<Length>(s, rd);
  auto const lv = SomePolynomial<D>(s, ld);
  auto rv = SomePolynomial<D>(s, rd);
  r.origin = l.origin;
  auto lw = lv;
  lw.origin = l.origin;
  rv.origin = l.origin;
  Real const t = SomeArgument(s, l);
  Real const k = s.coin() ? s.range(-4, 4) : s.slog(1e-3, 1e3);
  c.note() << l << "; " << r << "; " << lw << "; " << rv << " for " << t
           << " scale " << k;
  c.nontrivial(l.Bound(1) > 0 && r.Bound(1) > 0 && t != l.origin);
  auto const pl = MakePolynomial<LS>(l);
  auto const pr = MakePolynomial<RS>(r);
  auto const pw = MakePolynomial<LV>(lw);
  auto const pv = MakePolynomial<RV>(rv);
  Reference const zero{{Vec{}}, l.origin};
  CheckSum(+pl, l, zero, 1, t, "+p");
  CheckSum(-pl, zero, l, -1, t, "-p");
  CheckSum(pl + pr, l, r, 1, t, "p + q");
  CheckSum(pl - pr, l, r, -1, t, "p - q");
  CheckSum(pw + pv, lw, rv, 1, t, "vectors p + q");
  CheckSum(pw - pv, lw, rv, -1, t, "vectors p - q");
  REQUIRE((pl + pr).degree() == std::max(ld, rd), "degree of the sum");
  // Scalars.
  Reference const constant{{{k, 0, 0}}, l.origin};
  double const d = k;
  auto const left = [](Vec const& a, Vec const& b) { return a[0] * b; };
  auto const right = [](Vec const& a, Vec const& b) { return b[0] * a; };
  CheckProduct(d * pw, constant, lw, left, t, "k * p");
  CheckProduct(pw * d, lw, constant, right, t, "p * k");
  CheckProduct(pw * (d * si::Second), lw, constant, right, t, "p * q");
  CheckProduct((d * si::Second) * pw, constant, lw, left, t, "q * p");
  if (k != 0) {
    Reference const inverse{{{1 / k, 0, 0}}, l.origin};
    CheckProduct(pw / d, lw, inverse, right, t, "p / k");
    auto z = pw;
    z /= d;
    REQUIRE(z == pw / d, "/=");
  }
  {
    auto z = pw;
    z *= d;
    REQUIRE(z == pw * d, "*=");
    if constexpr (ld == rd) {
      z = pw;
      z += pv;
      REQUIRE(z == pw + pv, "+=");
      z = pw;
      z -= pv;
      REQUIRE(z == pw - pv, "-=");
    }
  }
  // Products.
  CheckProduct(pl * pr, l, r, left, t, "p * q");
  CheckProduct(pl * pv, l, rv, left, t, "p * vector");
  CheckProduct(pw * pr, lw, r, right, t, "vector * q");
  REQUIRE((pl * pr).degree() == ld + rd, "degree of the product");
  CheckProduct(PointwiseInnerProduct(pw, pv), lw, rv,
               [](Vec const& a, Vec const& b) { return Vec{Dot(a, b)}; }, t,
               "PointwiseInnerProduct");
  // Constants.
  Vec const v = SomeValue<D>(s, 1);
  Reference const rc{{v}, l.origin};
  D const dv = Make<D>(v);
  Vec const cv = convert::Of(dv);
  Reference const crc{{cv}, l.origin};
  CheckSum(pw - dv, lw, crc, -1, t, "p - v");
  CheckSum(dv - pw, crc, lw, -1, t, "v - p");
  CheckSum(pw + dv, lw, crc, 1, t, "p + v");
  CheckSum(dv + pw, crc, lw, 1, t, "v + p");
  // Affine values.
  using A = Position<World>;
  using LA = PolynomialInMonomialBasis<A, Argument, ld>;
  using RA = PolynomialInMonomialBasis<A, Argument, rd>;
  auto const la = MakePolynomial<LA>(lw);
  auto const ra = MakePolynomial<RA>(rv);
  CheckSum(la - ra, lw, rv, -1, t, "positions p - q");
  CheckSum(la + pv, lw, rv, 1, t, "position p + q");
  CheckSum(pw + ra, lw, rv, 1, t, "p + position q");
  CheckSum(la - pv, lw, rv, -1, t, "position p - q");
  A const av = A() + dv;
  CheckSum(la - av, lw, crc, -1, t, "position p - v");
  CheckSum(av - la, crc, lw, -1, t, "position v - p");
  CheckSum(pw + av, lw, crc, 1, t, "p + position v");
  CheckSum(av + pw, crc, lw, 1, t, "position v + p");
  // Composition: `inner` yields an argument of `outer`.
  {
    using Outer = PolynomialInMonomialBasis<D, Length, ld>;
    auto outer = lw;
    outer.origin = s.coin() ? 0 : s.sym(3);
    auto const po = MakePolynomial<Outer>(outer);
    auto const composed = Compose(po, pr);
    REQUIRE(composed.degree() == ld * rd, "degree of the composition");
    Real const b = r.Bound(t - r.origin) + std::abs(outer.origin);
    Real const kk = 6 * (ld * rd + ld + rd + 2) * ε;
    ExpectVec(convert::Of(composed(Make<Argument>({t}))), outer(r(t)[0]),
              kk * outer.Bound(b), "composition");
    ExpectVec(convert::Of(composed.EvaluateDerivative(Make<Argument>({t}))),
              r.Derivative(t)[0] * outer.Derivative(r(t)[0]),
              2 * kk * (outer.Bound(b, 1) * r.Bound(t - r.origin, 1)),
              "composition derivative");
  }
}
void Algebras(Src& s, Ctx& c) {
  static Check const checks[] = {
      &Algebra<Time, 0, 0>, &Algebra<Time, 2, 3>, &Algebra<Time, 4, 1>,
      &Algebra<Time, 0, 2>, &Algebra<Instant, 1, 1>, &Algebra<Instant, 3, 3>,
      &Algebra<Instant, 5, 2>, &Algebra<Instant, 1, 6>};
  checks[s.below(std::size(checks))](s, c);
}

#else
// Чебышёв.  The series, and its derivative with respect to the scaled argument.
std::pair<Vec, Vec> Series(std::vector<Vec> const& c, Real const x) {
  Vec value;
  Vec derivative;
  // T and U by their recurrences: T'ₙ = n Uₙ₋₁.
  Real t0 = 1;
  Real t1 = x;
  Real u0 = 0;  // U₋₁.
  Real u1 = 1;  // U₀.
  for (std::size_t n = 0; n < c.size(); ++n) {
    value = value + t0 * c[n];
    derivative = derivative + (static_cast<Real>(n) * u0) * c[n];
    Real const t2 = 2 * x * t1 - t0;
    t0 = t1;
    t1 = t2;
    Real const u2 = 2 * x * u1 - u0;
    u0 = u1;
    u1 = u2;
  }
  return {value, derivative};
}
template<typename Value, typename Argument, int degree>
void Чебышёв(Src& s, Ctx& c) {
  using P = PolynomialInЧебышёвBasis<Value, Argument, degree>;
  std::vector<Vec> coefficients;
  typename P::Coefficients actual;
  Real norm = 0;
  for (int i = 0; i <= degree; ++i) {
    coefficients.push_back(
        Rounded(std::pow(s.coin() ? 0.5L : 1.L, i) * SomeValue<Value>(s, 1)));
    norm += Norm(coefficients.back()) * (i + 1) * (i + 1);
    actual[i] = Make<Value>(coefficients.back());
  }
  double const lower = s.coin() ? -1 : s.slog(1e-2, 1e6);
  double const upper = lower + s.log(1e-2, 1e6);
  if (!(upper > lower)) throw pbt::Discard{};
  P const p(actual, Make<Argument>({lower}), Make<Argument>({upper}));
  double const t = s.chance(1, 6) ? (s.coin() ? lower : upper)
                                  : std::clamp(lower + (upper - lower) *
                                                           s.unit(),
                                               lower, upper);
  Real const width = static_cast<Real>(upper) - lower;
  Real const x = ((t - static_cast<Real>(upper)) + (t - static_cast<Real>(
                                                            lower))) / width;
  for (auto const& v : coefficients) c.note() << v << " ";
  c.note() << " on [" << lower << ", " << upper << "] for " << t;
  c.nontrivial(norm > 0 && std::abs(x) < 1);
  c.label("degree " + std::to_string(degree));
  auto const [value, derivative] = Series(coefficients, x);
  Real const tolerance = (2 * degree + 6) * ε * norm;
  Real const derivative_tolerance =
      (2 * degree + 6) * ε * norm * (degree + 1) * (degree + 1) * 2 / width;
  Polynomial<Value, Argument> const& base = p;
  auto const check = [&](auto const& q, std::string const& what) {
    Argument const a = Make<Argument>({t});
    ExpectVec(convert::Of(q(a)), value, tolerance, what);
    ExpectVec(convert::Of(q.EvaluateDerivative(a)), (2 / width) * derivative,
              derivative_tolerance, what + " derivative");
    Value v;
    principia::base::_algebra::Derivative<Value, Argument> d;
    q.EvaluateWithDerivative(a, v, d);
    ExpectVec(convert::Of(v), value, tolerance, what + " (both)");
    ExpectVec(convert::Of(d), (2 / width) * derivative, derivative_tolerance,
              what + " derivative (both)");
  };
  check(p, "value");
  check(base, "virtual");
  REQUIRE(p.degree() == degree && base.degree() == degree, "degree");
  REQUIRE(convert::Of(p.lower_bound())[0] == lower &&
              convert::Of(p.upper_bound())[0] == upper, "bounds");
  REQUIRE(p.is_zero() == (norm == 0), "is_zero");
  principia::serialization::Polynomial message;
  base.WriteToMessage(&message);
  REQUIRE(P::ReadFromMessage(message) == p, "serialization");
  if constexpr (Kind<Value>::dimension == 1) {
    // If there is a real root, `MayHaveRealRoots` must see it.
    Real const error = s.coin() ? 0 : s.log(1e-3, 3);
    Value const estimate = Make<Value>({error});
    bool const may = p.MayHaveRealRoots(estimate);
    Real min = 1 / 0.0L;
    Real max = -1 / 0.0L;
    for (int j = 0; j <= 64; ++j) {
      Real const v = Series(coefficients, std::cos(ref::π * j / 64)).first[0];
      min = std::min(min, v);
      max = std::max(max, v);
    }
    if (min <= error - tolerance && max >= -error + tolerance) {
      REQUIRE(may, "there are roots with error estimate " << error
                       << ", values from " << min << " to " << max);
    }
    c.label_if(!may, "no roots");
    // The bound of [Boy06], which is documented to be the fast criterion.
    Real others = 0;
    for (int i = 1; i <= degree; ++i) others += std::abs(coefficients[i][0]);
    if (others < std::abs(coefficients[0][0]) - error - tolerance) {
      REQUIRE(!may, "no roots because of the first coefficient");
    }
  }
}
void Чебышёвs(Src& s, Ctx& c) {
  using D = Displacement<World>;
  static Check const checks[] = {
      &Чебышёв<double, Instant, 0>, &Чебышёв<double, double, 1>,
      &Чебышёв<double, Instant, 2>, &Чебышёв<Length, Instant, 3>,
      &Чебышёв<Length, Instant, 5>, &Чебышёв<double, Instant, 8>,
      &Чебышёв<Length, Instant, 13>, &Чебышёв<D, Instant, 1>,
      &Чебышёв<D, Instant, 4>, &Чебышёв<D, Instant, 7>,
      &Чебышёв<D, Instant, 12>};
  checks[s.below(std::size(checks))](s, c);
}

std::string Text(std::vector<Real> const& v) {
  std::ostringstream o;
  for (Real const x : v) o <<x<<" ";
  return o.str();
}

// The roots of a series whose roots are known.
template<int degree>
void Roots(Src& s, Ctx& c) {
  using P = PolynomialInЧебышёвBasis<Length, Instant, degree>;
  // Choose separated real roots, in and out of [-1, 1], and complex pairs.
  std::vector<Real> in;
  std::vector<Real> out;
  std::vector<std::pair<Real, Real>> complex;
  int left = degree;
  while (left > 0) {
    if (left >= 2 && s.chance(1, 3)) {
      complex.emplace_back(s.sym(1), s.log(0.3, 2));
      left -= 2;
    } else if (s.chance(1, 4)) {
      out.push_back(s.log(1.3, 3) * (s.coin() ? 1 : -1));
      --left;
    } else {
      in.push_back(s.coin() ? s.range(-9, 9) / 10.0L : s.sym(0.98));
      --left;
    }
  }
  std::sort(in.begin(), in.end());
  std::sort(out.begin(), out.end());
  for (auto const* v : {&in, &out}) {
    for (std::size_t i = 1; i < v->size(); ++i) {
      if ((*v)[i] - (*v)[i - 1] < 0.05L) throw pbt::Discard{};
    }
  }
  // Build the series by multiplication: 2 x Tₙ = Tₙ₊₁ + Tₙ₋₁.
  std::vector<Real> series{static_cast<Real>(s.slog(1e-3, 1e3))};
  auto const times_x = [](std::vector<Real> const& a) {
    std::vector<Real> b(a.size() + 1);
    for (std::size_t n = 0; n < a.size(); ++n) {
      if (n == 0) {
        b[1] += a[0];
      } else {
        b[n + 1] += a[n] / 2;
        b[n - 1] += a[n] / 2;
      }
    }
    return b;
  };
  auto const minus = [](std::vector<Real> a, std::vector<Real> const& b,
                        Real const k) {
    for (std::size_t n = 0; n < b.size(); ++n) a[n] -= k * b[n];
    return a;
  };
  for (auto const* v : {&in, &out}) {
    for (Real const x : *v) series = minus(times_x(series), series, x);
  }
  for (auto const& [re, im] : complex) {
    auto const once = times_x(series);
    auto const twice = times_x(once);
    series = minus(minus(twice, once, 2 * re), series, -(re * re + im * im));
  }
  typename P::Coefficients actual;
  std::vector<Vec> coefficients;
  Real norm = 0;
  for (int i = 0; i <= degree; ++i) {
    actual[i] = static_cast<double>(series[i]) * si::Metre;
    coefficients.push_back({static_cast<double>(series[i])});
    norm += std::abs(series[i]);
  }
  if (std::abs(series[degree]) < 1e-6L * norm) throw pbt::Discard{};
  double const lower = s.coin() ? -1 : s.slog(1e-2, 1e4);
  double const upper = lower + s.log(1e-1, 1e4);
  P const p(actual, At(lower), At(upper));
  for (Real const x : in) c.note() <<x<<" ";
  c.note() << "outside ";
  for (Real const x : out) c.note() <<x<<" ";
  for (auto const& [re, im] : complex) c.note() << re << "±i" << im << " ";
  c.note() << "on [" << lower << ", " << upper << "]";
  c.nontrivial(!in.empty());
  c.label("roots " + std::to_string(in.size()));
  if (std::getenv("PBT_DEBUG")) std::cerr << c.text() << std::endl;
  auto const roots = p.RealRoots(0x1p-50);
  Real const half = (static_cast<Real>(upper) - lower) / 2;
  std::vector<Real> found;
  for (auto const& root : roots) {
    found.push_back((In(root) - lower) / half - 1);
  }
  // The condition of each root.
  REQUIRE(found.size() == in.size(),
          "found " << found.size() << " roots of " << in.size() << ": "
                   << Text(found));
  for (std::size_t i = 0; i < in.size(); ++i) {
    Real const slope = std::abs(Series(coefficients, in[i]).second[0]);
    Real const tolerance =
        1e-13L * degree * degree * norm / slope +
        4 * ε * (std::abs(lower) + std::abs(upper)) / half;
    if (tolerance > 0.02L) continue;
    c.count();
    REQUIRE(std::abs(found[i] - in[i]) <= tolerance,
            "root " << found[i] << " not " << in[i] << ", tolerance "
                    << tolerance);
  }
  if (!in.empty()) {
    REQUIRE(p.MayHaveRealRoots(), "MayHaveRealRoots");
  }
}
void AllRoots(Src& s, Ctx& c) {
  static Check const checks[] = {&Roots<1>, &Roots<2>, &Roots<3>, &Roots<4>,
                                 &Roots<5>, &Roots<6>, &Roots<8>};
  checks[s.below(std::size(checks))](s, c);
}

// Legendre.
template<int degree>
void Legendre(Src& s, Ctx& c) {
  double const x = s.chance(1, 8) ? s.range(-1, 1) : s.sym(1);
  c.note() << "P" << degree << "(" << x << ")";
  c.nontrivial(degree > 1 && x != 0);
  auto const p = LegendrePolynomial<degree>();
  Real p0 = 1;
  Real p1 = x;
  for (int n = 1; n <= degree; ++n) {
    Real const p2 = ((2 * n + 1) * x * p1 - n * p0) / (n + 1);
    p0 = p1;
    p1 = p2;
  }
  Reference const r = OfPolynomial(p);
  ExpectReal(p(x), p0, (4 * degree + 4) * ε * r.Bound(1), "Legendre");
  REQUIRE(p.degree() == degree, "degree");
}
void Legendres(Src& s, Ctx& c) {
  static Check const checks[] = {
      &Legendre<1>, &Legendre<2>, &Legendre<3>, &Legendre<4>,
      &Legendre<5>, &Legendre<6>, &Legendre<7>, &Legendre<8>, &Legendre<9>,
      &Legendre<10>, &Legendre<11>, &Legendre<12>, &Legendre<13>};
  checks[s.below(std::size(checks))](s, c);
}

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"monomials", "polynomials of degrees 0 to 17 for 25 combinations of "
        "types; non-trivial if not zero and not evaluated at the origin",
        100000, 3000000, Monomials},
       {"algebra", "pairs of polynomials of degrees 0 to 6; non-trivial if "
        "neither is zero", 80000, 2000000, Algebras},
       {"chebyshev", "series of degrees 0 to 13; non-trivial if not zero",
        150000, 3000000, Чебышёвs},
       {"roots", "series with chosen roots; non-trivial if one is in the "
        "interval", 100000, 3000000, AllRoots, 5},
       {"legendre", "Legendre polynomials of degrees 1 to 13", 50000, 500000,
        Legendres}});
}
#endif
