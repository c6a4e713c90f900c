// The exterior algebra, symmetric bilinear forms, points and barycentres,
// direct sums, complexifications, intervals and perspectives, against naive
// models in extended precision.

#include <complex>

#include "fatal.hpp"
#include "exact.hpp"
#include "geometry/barycentre_calculator.hpp"
#include "geometry/complexification.hpp"
#include "geometry/direct_sum.hpp"
#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/instant.hpp"
#include "geometry/interval.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/perspective.hpp"
#include "geometry/plane.hpp"
#include "geometry/r3_element.hpp"
#include "geometry/r3x3_matrix.hpp"
#include "geometry/rotation.hpp"
#include "geometry/rp2_point.hpp"
#include "geometry/sign.hpp"
#include "geometry/space.hpp"
#include "geometry/space_transformations.hpp"
#include "geometry/sphere.hpp"
#include "geometry/symmetric_bilinear_form.hpp"
#include "linear.hpp"
#include "pbt.hpp"
#include "quantities/si.hpp"
#include "serialization/geometry.pb.h"

using namespace principia::geometry::_barycentre_calculator;
using namespace principia::geometry::_complexification;
using namespace principia::geometry::_direct_sum;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_interval;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_perspective;
using namespace principia::geometry::_plane;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_r3x3_matrix;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_rp2_point;
using namespace principia::geometry::_sign;
using namespace principia::geometry::_space;
using namespace principia::geometry::_space_transformations;
using namespace principia::geometry::_sphere;
using namespace principia::geometry::_symmetric_bilinear_form;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_named_quantities;
namespace si = principia::quantities::_si;
using pbt::Ctx;
using pbt::Src;
using ref::Mat;
using ref::Real;
using ref::Vec;
using QAngle = principia::quantities::_quantities::Angle;

using SF = principia::serialization::Frame;
using World = Frame<SF::TestTag, Inertial, Handedness::Right, SF::TEST>;
using Eigenframe_ = Frame<struct EigenTag>;
using Camera = Frame<struct CameraTag>;

constexpr Real ε = 1.2e-16L;

template<typename Q>
R3Element<Q> Element(Vec const& v) {
  Q const u = si::Unit<Q>;
  return R3Element<Q>(static_cast<double>(v[0]) * u,
                      static_cast<double>(v[1]) * u,
                      static_cast<double>(v[2]) * u);
}
template<typename Q>
Vec Of(R3Element<Q> const& e) {
  Q const u = si::Unit<Q>;
  return {static_cast<Real>(e.x / u), static_cast<Real>(e.y / u),
          static_cast<Real>(e.z / u)};
}
template<typename Q>
Mat Of(R3x3Matrix<Q> const& m) {
  Mat r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      r(i, j) = static_cast<Real>(m(i, j) / si::Unit<Q>);
  return r;
}
template<typename M>
  requires requires(M const& m) { m.coordinates(); }
auto Of(M const& m) {
  return Of(m.coordinates());
}
template<typename Q>
Real In(Q const& q) {
  return static_cast<Real>(q / si::Unit<Q>);
}
Vec Rounded(Vec const& v) {
  return {static_cast<double>(v[0]), static_cast<double>(v[1]),
          static_cast<double>(v[2])};
}
Vec SomeVector(Src& s, double const max_scale = 1e15) {
  double const scale = s.coin() ? 1 : s.log(1 / max_scale, max_scale);
  return Rounded(static_cast<Real>(scale) * (s.coin() ? ref::Direction(s) :
                 Vec{s.sym(1), s.sym(1), s.sym(1)}));
}
void ExpectVec(Vec const& actual, Vec const& expected, Real const tolerance,
               std::string const& what) {
  REQUIRE(Norm(actual - expected) <= tolerance,
          what << ": " << actual << ", not " << expected << ", tolerance "
               << tolerance);
}
void ExpectMat(Mat const& actual, Mat const& expected, Real const tolerance,
               std::string const& what) {
  REQUIRE(Frobenius(actual + (-1) * expected) <= tolerance,
          what << ": " << actual << ", not " << expected);
}
void ExpectReal(Real const actual, Real const expected, Real const tolerance,
                std::string const& what) {
  REQUIRE(std::abs(actual - expected) <= tolerance,
          what << ": " << actual << ", not " << expected << ", tolerance "
               << tolerance);
}
Real AngleOf(Vec const& a, Vec const& b) {
  Vec const u = Unit(a);
  Vec const v = Unit(b);
  return 2 * std::atan2(Norm(u - v), Norm(u + v));
}

template<int rank, typename Q>
void CheckModule(Src& s, Vec const& a, Vec const& b) {
  using M = Multivector<Q, World, rank>;
  M const x(Element<Q>(a));
  M const y(Element<Q>(b));
  double const k = s.slog(1e-5, 1e5);
  Real const n = Norm(a) + Norm(b);
  ExpectVec(Of(x + y), a + b, ε * n, "+");
  ExpectVec(Of(x - y), a - b, ε * n, "-");
  ExpectVec(Of(-x), -a, 0, "unary -");
  ExpectVec(Of(+x), a, 0, "unary +");
  ExpectVec(Of(x * k), static_cast<Real>(k) * a, ε * std::abs(k) * n, "* k");
  ExpectVec(Of(k * x), static_cast<Real>(k) * a, ε * std::abs(k) * n, "k *");
  ExpectVec(Of(x / k), (1 / static_cast<Real>(k)) * a, ε / std::abs(k) * n,
            "/ k");
  ExpectVec(Of(x * (k * si::Second)), static_cast<Real>(k) * a,
            ε * std::abs(k) * n, "* q");
  ExpectVec(Of((k * si::Second) * x), static_cast<Real>(k) * a,
            ε * std::abs(k) * n, "q *");
  ExpectVec(Of(x / (k * si::Second)), (1 / static_cast<Real>(k)) * a,
            ε / std::abs(k) * n, "/ q");
  ExpectReal(In(x.Norm()), Norm(a), 3 * ε * Norm(a), "Norm");
  ExpectReal(In(x.Norm²()), Dot(a, a), 4 * ε * Dot(a, a), "Norm²");
  if (Norm(a) > 0) {
    ExpectVec(Of(Normalize(x)), Unit(a), 5 * ε, "Normalize");
    ExpectVec(Of(NormalizeOrZero(x)), Unit(a), 5 * ε, "NormalizeOrZero");
  } else {
    ExpectVec(Of(NormalizeOrZero(x)), Vec{}, 0, "NormalizeOrZero of 0");
  }
  ExpectReal(In(InnerProduct(x, y)), Dot(a, b), 4 * ε * Norm(a) * Norm(b),
             "InnerProduct");
  M z = x;
  z += y;
  REQUIRE(z == x + y, "+=");
  z = x;
  z -= y;
  REQUIRE(z == x - y, "-=");
  z = x;
  z *= k;
  REQUIRE(z == x * k, "*=");
  z = x;
  z /= k;
  REQUIRE(z == x / k, "/=");
  REQUIRE((x == y) == (a.v == b.v) && (x != y) == (a.v != b.v), "==");
#if PRINCIPIA_REQUIRES_FMA
  // Fused operations: within an ulp or so of the exact value.
  Real const kk = k;
  Real const fused = 2 * ε * (std::abs(kk) * Norm(a) + Norm(b));
  ExpectVec(Of(FusedMultiplyAdd(x, k, y)), kk * a + b, fused, "x k + y");
  ExpectVec(Of(FusedMultiplySubtract(x, k, y)), kk * a - b, fused, "x k - y");
  ExpectVec(Of(FusedNegatedMultiplyAdd(x, k, y)), b - kk * a, fused,
            "-x k + y");
  ExpectVec(Of(FusedNegatedMultiplySubtract(x, k, y)), -b - kk * a, fused,
            "-x k - y");
  ExpectVec(Of(FusedMultiplyAdd(k, x, y)), kk * a + b, fused, "k x + y");
  ExpectVec(Of(FusedMultiplySubtract(k, x, y)), kk * a - b, fused, "k x - y");
  ExpectVec(Of(FusedNegatedMultiplyAdd(k, x, y)), b - kk * a, fused,
            "-k x + y");
  ExpectVec(Of(FusedNegatedMultiplySubtract(k, x, y)), -b - kk * a, fused,
            "-k x - y");
#endif
  if (Norm(a) > 0 && Norm(b) > 0) {
    ExpectReal(In(AngleBetween(x, y)), AngleOf(a, b), 1e-15L * 4,
               "AngleBetween");
    ExpectReal(In(AngleBetween(y, x)), AngleOf(a, b), 1e-15L * 4,
               "AngleBetween");
    // Orthogonalization.
    Vec const u = Unit(b);
    ExpectVec(Of(x.OrthogonalizationAgainst(y)), a - Dot(a, u) * u,
              8 * ε * Norm(a), "OrthogonalizationAgainst");
  }
  principia::serialization::Multivector message;
  x.WriteToMessage(&message);
  REQUIRE(M::ReadFromMessage(message) == x, "serialization");
}

void Grassmann(Src& s, Ctx& c) {
  Vec const a = SomeVector(s);
  Vec b = SomeVector(s);
  if (s.chance(1, 6)) {
    // Almost parallel, perhaps opposite.
    b = Rounded(static_cast<Real>(s.slog(0.1, 10)) *
                (a + (static_cast<Real>(s.log(1e-15, 1e-1)) * Norm(a)) *
                         ref::Direction(s)));
    c.label("almost parallel");
  }
  Vec const d = SomeVector(s);
  c.note() << a << " " << b << " " << d;
  c.nontrivial(Norm(Cross(a, b)) > 0);
  CheckModule<1, Length>(s, a, b);
  CheckModule<2, AngularFrequency>(s, a, b);
  Vector<Length, World> const va(Element<Length>(a));
  Vector<Speed, World> const vb(Element<Speed>(b));
  Bivector<Length, World> const ba(Element<Length>(a));
  Bivector<Speed, World> const bb(Element<Speed>(b));
  Real const n = 5 * ε * Norm(a) * Norm(b);
  Vec const cross = Cross(a, b);
  ExpectVec(Of(Wedge(va, vb)), cross, n, "Wedge of vectors");
  ExpectVec(Of(Commutator(ba, bb)), cross, n, "Commutator");
  ExpectVec(Of(ba * vb), cross, n, "bivector * vector");
  ExpectVec(Of(va * bb), cross, n, "vector * bivector");
  ExpectReal(In(Wedge(va, bb).coordinates()), Dot(a, b), n,
             "Wedge of a vector and a bivector");
  ExpectReal(In(Wedge(ba, vb).coordinates()), Dot(a, b), n,
             "Wedge of a bivector and a vector");
  double const t = s.sym(10);
  Trivector<Mass, World> const tri(t * si::Kilogram);
  Vec const ta = static_cast<Real>(t) * a;
  ExpectVec(Of(tri * va), ta, ε * Norm(ta), "trivector * vector");
  ExpectVec(Of(va * tri), ta, ε * Norm(ta), "vector * trivector");
  ExpectVec(Of(tri * ba), ta, ε * Norm(ta), "trivector * bivector");
  ExpectVec(Of(ba * tri), ta, ε * Norm(ta), "bivector * trivector");
  ExpectReal(In(InnerProduct(tri, tri)), static_cast<Real>(t) * t,
             ε * t * t, "inner product of trivectors");
  ExpectReal(In(tri.Norm()), std::abs(t), 0, "norm of a trivector");
  {
    Trivector<Mass, World> const u(2.5 * si::Kilogram);
    REQUIRE(In((tri + u).coordinates()) == t + 2.5, "trivector +");
    REQUIRE(In((tri - u).coordinates()) == t - 2.5, "trivector -");
    REQUIRE(In((-tri).coordinates()) == -t, "-trivector");
    REQUIRE(In((tri * 3.0).coordinates()) == t * 3, "trivector * 3");
    REQUIRE(In((tri / 3.0).coordinates()) == t / 3, "trivector / 3");
    principia::serialization::Multivector message;
    tri.WriteToMessage(&message);
    REQUIRE((Trivector<Mass, World>::ReadFromMessage(message) == tri),
            "serialization of a trivector");
  }
  if (Norm(a) > 0 && Norm(b) > 0 && Norm(d) > 0) {
    Bivector<double, World> const positive(Element<double>(d));
    Real const triple = Dot(cross, d);
    if (std::abs(triple) > 20 * ε * Norm(a) * Norm(b) * Norm(d)) {
      Real const expected = AngleOf(a, b) * (triple > 0 ? 1 : -1);
      ExpectReal(In(OrientedAngleBetween(va, vb, positive)), expected, 4e-15L,
                 "OrientedAngleBetween vectors");
      ExpectReal(In(OrientedAngleBetween(ba, bb, positive)), expected, 4e-15L,
                 "OrientedAngleBetween bivectors");
    }
    // Projection on a plane.
    Vec const u = Unit(d);
    auto const plane = s.coin()
        ? Plane<World>::OrthogonalTo(Vector<double, World>(Element<double>(d)))
        : Plane<World>::OrthogonalTo(positive);
    ExpectVec(Of(Projection(va, plane)), a - Dot(a, u) * u, 10 * ε * Norm(a),
              "Projection");
    auto const normals = plane.UnitNormals();
    auto const binormals = plane.UnitBinormals();
    REQUIRE(normals[0] == -normals[1] && binormals[0] == -binormals[1],
            "normals");
    ExpectReal(std::abs(Dot(Of(normals[0]), u)), 1, 1e-15L, "normal");
  }
}

void R3(Src& s, Ctx& c) {
  Vec const a = SomeVector(s);
  Vec const b = SomeVector(s);
  c.note() << a << b;
  c.nontrivial(Norm(a) > 0);
  auto const x = Element<Length>(a);
  auto const y = Element<Speed>(b);
  ExpectVec(Of(Cross(x, y)), Cross(a, b), 5 * ε * Norm(a) * Norm(b), "Cross");
  ExpectReal(In(Dot(x, y)), Dot(a, b), 5 * ε * Norm(a) * Norm(b), "Dot");
  ExpectReal(In(x.Norm()), Norm(a), 4 * ε * Norm(a), "Norm");
  for (int i = 0; i < 3; ++i) {
    REQUIRE(In(x[i]) == a[i], "operator[]");
    ExpectVec(Of(BasisVector(i)), ref::Axis(i), 0, "BasisVector");
    auto z = x;
    z[i] = 7 * si::Metre;
    Vec m = a;
    m[i] = 7;
    ExpectVec(Of(z), m, 0, "operator[] =");
  }
  if (Norm(a) > 0) {
    auto const spherical = x.ToSpherical();
    Real const r = In(spherical.radius);
    Real const φ = In(spherical.latitude);
    Real const λ = In(spherical.longitude);
    ExpectReal(r, Norm(a), 4 * ε * Norm(a), "radius");
    REQUIRE(std::abs(φ) <= ref::π / 2 + ε && std::abs(λ) <= ref::π + ε,
            "latitude " << φ << " longitude " << λ);
    // The latitude comes from an arcsine, which is ill-conditioned at the poles.
    Real const tolerance =
        2e-15L * Norm(a) +
        Norm(a) * std::min<Real>(
                      4e-8L, 4 * ε * Norm(a) /
                                 std::max<Real>(std::hypot(a[0], a[1]),
                                                1e-300L));
    ExpectVec(Vec{r * std::cos(φ) * std::cos(λ), r * std::cos(φ) * std::sin(λ),
                  r * std::sin(φ)}, a, tolerance, "ToSpherical");
    ExpectVec(Of(spherical.ToCartesian()), a, tolerance, "ToCartesian");
    principia::serialization::SphericalCoordinates message;
    spherical.WriteToMessage(&message);
    auto const read =
        SphericalCoordinates<Length>::ReadFromMessage(message);
    REQUIRE(read.radius == spherical.radius &&
                read.latitude == spherical.latitude &&
                read.longitude == spherical.longitude, "serialization");
  }
  {
    double const φ = s.real(-1.57, 1.57);
    double const λ = s.real(-7, 7);
    double const r = s.log(1e-5, 1e5);
    auto const e = RadiusLatitudeLongitude(r * si::Metre, φ * si::Radian,
                                           λ * si::Radian).ToCartesian();
    Real const lφ = φ;
    Real const lλ = λ;
    ExpectVec(Of(e), static_cast<Real>(r) *
              Vec{std::cos(lφ) * std::cos(lλ), std::cos(lφ) * std::sin(lλ),
                  std::sin(lφ)}, 1e-15L * r, "RadiusLatitudeLongitude");
  }
  principia::serialization::R3Element message;
  x.WriteToMessage(&message);
  REQUIRE(R3Element<Length>::ReadFromMessage(message) == x, "serialization");
  REQUIRE(IsFinite(x), "IsFinite");
  auto z = x;
  z[s.below(3)] *= std::numeric_limits<double>::infinity();
  REQUIRE(!IsFinite(z), "IsFinite");
}

Mat SomeSymmetric(Src& s, Ctx& c) {
  Mat m;
  double const scale = s.coin() ? 1 : s.log(1e-10, 1e10);
  switch (s.below(5)) {
    case 0:
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j <= i; ++j)
          m(i, j) = m(j, i) = static_cast<Real>(s.range(-3, 3));
      break;
    case 1: {
      // Chosen eigenvalues, perhaps equal or almost equal.
      Mat const r = ref::Rodrigues(ref::SomeAngle(s, 3), ref::Direction(s));
      Real const λ = s.sym(1);
      Real const μ = s.coin() ? λ : λ + s.slog(1e-15, 1);
      Real const ν = s.coin() ? s.sym(1) : μ + s.slog(1e-15, 1);
      m = r * Mat::Diagonal(λ, μ, ν) * Transpose(r);
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j <= i; ++j)
          m(i, j) = m(j, i) = static_cast<double>(scale * m(i, j));
      c.label("chosen eigenvalues");
      break;
    }
    case 2:
      // Elements of widely different sizes.
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j <= i; ++j)
          m(i, j) = m(j, i) = s.slog(1e-12, 1);
      break;
    default:
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j <= i; ++j)
          m(i, j) = m(j, i) = static_cast<double>(scale * s.sym(1));
      break;
  }
  return m;
}

template<template<typename, typename> typename M>
void CheckForm(Src& s, Mat const& f, Mat const& g) {
  using Form = SymmetricBilinearForm<Length, World, M>;
  auto const make = [](Mat const& f) {
    return Form(R3x3Matrix<Length>(Element<Length>(ref::Row(f, 0)),
                                   Element<Length>(ref::Row(f, 1)),
                                   Element<Length>(ref::Row(f, 2))));
  };
  Form const x = make(f);
  Form const y = make(g);
  Vec const a = SomeVector(s, 1e5);
  Vec const b = SomeVector(s, 1e5);
  M<Speed, World> const va(Element<Speed>(a));
  M<Mass, World> const vb(Element<Mass>(b));
  Real const n = Frobenius(f) + Frobenius(g);
  double const k = s.slog(1e-5, 1e5);
  Real const kk = k;
  ExpectMat(Of(x + y), f + g, 2 * ε * n, "+");
  ExpectMat(Of(x - y), f + (-1) * g, 2 * ε * n, "-");
  ExpectMat(Of(-x), (-1) * f, 0, "unary -");
  ExpectMat(Of(+x), f, 0, "unary +");
  ExpectMat(Of(x * k), kk * f, 2 * ε * n * std::abs(kk), "* k");
  ExpectMat(Of((k * si::Second) * x), kk * f, 2 * ε * n * std::abs(kk), "k *");
  ExpectMat(Of(x / k), (1 / kk) * f, 2 * ε * n / std::abs(kk), "/ k");
  auto z = x;
  z += y;
  REQUIRE(z == x + y, "+=");
  z = x;
  z -= y;
  REQUIRE(z == x - y, "-=");
  z = x;
  z *= k;
  REQUIRE(z == x * k, "*=");
  z = x;
  z /= k;
  REQUIRE(z == x / k, "/=");
  Real const tolerance = 12 * ε * Frobenius(f) * Norm(a);
  ExpectReal(In(x(va, vb)), Dot(a, f * b), tolerance * Norm(b), "F(a, b)");
  ExpectVec(Of(x * va), f * a, tolerance, "F * a");
  ExpectVec(Of(va * x), f * a, tolerance, "a * F");
  ExpectReal(In(InnerProductForm<World, M>()(va, vb)), Dot(a, b),
             6 * ε * Norm(a) * Norm(b), "InnerProductForm");
  Real const nf = Frobenius(f);
  if (std::abs(Det(f)) > 1e-8L * nf * nf * nf) {
    Real const condition = nf * nf * nf / std::abs(Det(f));
    ExpectVec(f * Of(va / x), a, 1e-14L * condition * Norm(a), "a / F");
  }
  principia::serialization::SymmetricBilinearForm message;
  x.WriteToMessage(&message);
  REQUIRE(Form::ReadFromMessage(message) == x, "serialization");

  // Diagonalization.
  auto const system = x.template Diagonalize<Eigenframe_>();
  Mat const d = Of(system.form);
  REQUIRE(system.form.IsDiagonalized(), "IsDiagonalized " << d);
  REQUIRE(d(0, 0) <= d(1, 1) && d(1, 1) <= d(2, 2), "order " << d);
  Mat r;
  for (int i = 0; i < 3; ++i) {
    Vec const column = Of(system.rotation(
        Vector<double, Eigenframe_>(Element<double>(ref::Axis(i)))));
    for (int j = 0; j < 3; ++j) r(j, i) = column[j];
  }
  ExpectMat(r * Transpose(r), Mat::Identity(), 1e-13L, "rotation");
  REQUIRE(Det(r) > 0, "orientation");
  ExpectMat(r * d * Transpose(r), f, 1e-13L * nf, "diagonalization");
  bool diagonalized = true;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) diagonalized &= i == j || f(i, j) == 0;
  diagonalized &= f(0, 0) <= f(1, 1) && f(1, 1) <= f(2, 2);
  REQUIRE(x.IsDiagonalized() == diagonalized, "IsDiagonalized");
}

void Forms(Src& s, Ctx& c) {
  Mat const f = SomeSymmetric(s, c);
  Mat const g = SomeSymmetric(s, c);
  c.note() << f << " " << g;
  c.nontrivial(Det(f) != 0);
  CheckForm<Vector>(s, f, g);
  CheckForm<Bivector>(s, f, g);
  SymmetricBilinearForm<Length, World, Vector> const x(
      R3x3Matrix<Length>(Element<Length>(ref::Row(f, 0)),
                         Element<Length>(ref::Row(f, 1)),
                         Element<Length>(ref::Row(f, 2))));
  Real const trace = f(0, 0) + f(1, 1) + f(2, 2);
  Mat const anticommutator = trace * Mat::Identity() + (-1) * f;
  auto const ac = x.Anticommutator();
  Real const nf = Frobenius(f);
  ExpectMat(Of(ac), anticommutator, 8 * ε * nf, "Anticommutator");
  ExpectMat(Of(ac.AnticommutatorInverse()), f, 16 * ε * nf,
            "AnticommutatorInverse");
  Vec const a = SomeVector(s, 1e5);
  Vec const b = SomeVector(s, 1e5);
  Bivector<Speed, World> const α(Element<Speed>(a));
  ExpectVec(Of(Anticommutator(x, α)), anticommutator * a,
            16 * ε * nf * Norm(a), "Anticommutator(F, α)");
  Vector<Speed, World> const va(Element<Speed>(a));
  Vector<Mass, World> const vb(Element<Mass>(b));
  auto const kronecker = [](Vec const& a, Vec const& b) {
    Mat m;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) m(i, j) = (a[i] * b[j] + a[j] * b[i]) / 2;
    return m;
  };
  ExpectMat(Of(SymmetricProduct(va, vb)), kronecker(a, b),
            4 * ε * Norm(a) * Norm(b), "SymmetricProduct");
  ExpectMat(Of(SymmetricSquare(va)), kronecker(a, a), 4 * ε * Dot(a, a),
            "SymmetricSquare");
}

// Points and barycentres.
void Points(Src& s, Ctx& c) {
  Vec const a = SomeVector(s);
  Vec const b = SomeVector(s);
  Position<World> const p = World::origin + Displacement<World>(
      Element<Length>(a));
  Displacement<World> const d(Element<Length>(b));
  Real const n = 3 * ε * (Norm(a) + Norm(b));
  auto const of = [](Position<World> const& p) { return Of(p - World::origin); };
  ExpectVec(of(p), a, 0, "p");
  ExpectVec(of(p + d), a + b, n, "p + d");
  ExpectVec(of(d + p), a + b, n, "d + p");
  ExpectVec(of(p - d), a - b, n, "p - d");
  ExpectVec(Of((World::origin + d) - p), b - a, n, "q - p");
  auto q = p;
  q += d;
  REQUIRE(q == p + d, "+=");
  q = p;
  q -= d;
  REQUIRE(q == p - d, "-=");
  principia::serialization::Point message;
  p.WriteToMessage(&message);
  REQUIRE(Position<World>::ReadFromMessage(message) == p, "serialization");
  // Instants are ordered.
  Instant const t1 = Instant() + static_cast<double>(a[0]) * si::Second;
  Instant const t2 = Instant() + static_cast<double>(b[0]) * si::Second;
  REQUIRE((t1 < t2) == (a[0] < b[0]) && (t1 <= t2) == (a[0] <= b[0]) &&
              (t1 > t2) == (a[0] > b[0]) && (t1 >= t2) == (a[0] >= b[0]) &&
              (t1 == t2) == (a[0] == b[0]), "order");
  {
    principia::serialization::Point message;
    t1.WriteToMessage(&message);
    REQUIRE(Instant::ReadFromMessage(message) == t1,
            "serialization of an instant");
  }
  // Barycentres.
  int const count = s.range(1, 8);
  std::vector<Vec> v;
  std::vector<double> w;
  Vec weighted{};
  Real total = 0;
  Real magnitude = 0;
  bool const positive = s.chance(3, 4);
  BarycentreCalculator<Position<World>, Mass> points;
  BarycentreCalculator<Displacement<World>, double> vectors;
  BarycentreCalculator<Length, Mass> scalars;
  REQUIRE(pbt::is_fatal([&] { (void)points.Get(); }), "empty barycentre");
  for (int i = 0; i < count; ++i) {
    v.push_back(SomeVector(s, 1e6));
    w.push_back(positive ? s.log(1e-6, 1e6) : s.slog(1e-3, 1e3));
    Displacement<World> const d(Element<Length>(v.back()));
    points.Add(World::origin + d, w.back() * si::Kilogram);
    vectors.Add(d, w.back());
    scalars.Add(static_cast<double>(v.back()[0]) * si::Metre,
                w.back() * si::Kilogram);
    weighted = weighted + static_cast<Real>(w.back()) * v.back();
    magnitude += std::abs(w.back()) * Norm(v.back());
    total += w.back();
  }
  c.note() << count << " points";
  c.nontrivial(count > 1);
  Real absolute = 0;
  for (auto const x : w) absolute += std::abs(x);
  ExpectReal(In(points.weight()), total, 2 * count * ε * absolute, "weight");
  if (std::abs(total) > 1e-3L * absolute) {
    Vec const expected = (1 / total) * weighted;
    Real const tolerance = 4 * (count + 2) * ε * magnitude / std::abs(total) *
                           (1 + absolute / std::abs(total));
    ExpectVec(of(points.Get()), expected, tolerance, "barycentre of points");
    ExpectVec(Of(vectors.Get()), expected, tolerance, "barycentre of vectors");
    ExpectReal(In(scalars.Get()), expected[0], tolerance,
               "barycentre of scalars");
  }
  // The fixed-size functions.
  Position<World> const three[3] = {p, p + d, p - d};
  double const weights[3] = {s.log(0.01, 100), s.log(0.01, 100),
                             s.log(0.01, 100)};
  Real const W = static_cast<Real>(weights[0]) + weights[1] + weights[2];
  Vec const e = a + ((static_cast<Real>(weights[1]) - weights[2]) / W) * b;
  ExpectVec(of(Barycentre(three, weights)), e, 8 * n, "Barycentre");
  ExpectVec(of(Barycentre(three)), a, 4 * n, "unweighted Barycentre");
  Displacement<World> const two[2] = {d, 3 * d};
  ExpectVec(Of(Barycentre(two)), 2 * b, 4 * n, "Barycentre of vectors");
}

void DirectSums(Src& s, Ctx& c) {
  using Pair = DirectSum<Position<World>, Velocity<World>>;
  using Difference = DirectSum<Displacement<World>, Velocity<World>>;
  using Numbers = DirectSum<Length, double>;
  std::array<Vec, 4> v;
  for (auto& x : v) x = SomeVector(s, 1e6);
  double const k = s.slog(1e-3, 1e3);
  c.note() << v[0] << v[1] << v[2] << v[3] << " " << k;
  c.nontrivial();
  auto const pair = [](Vec const& a, Vec const& b) {
    return Pair(World::origin + Displacement<World>(Element<Length>(a)),
                Velocity<World>(Element<Speed>(b)));
  };
  auto const difference = [](Vec const& a, Vec const& b) {
    return Difference(Displacement<World>(Element<Length>(a)),
                      Velocity<World>(Element<Speed>(b)));
  };
  Pair const p = pair(v[0], v[1]);
  Difference const d = difference(v[2], v[3]);
  auto const check_pair = [](Pair const& p, Vec const& a, Vec const& b,
                             Real const n, std::string const& what) {
    ExpectVec(Of(get<0>(p) - World::origin), a, n, what + " 0");
    ExpectVec(Of(get<1>(p)), b, n, what + " 1");
  };
  auto const check = [](auto const& p, Vec const& a, Vec const& b,
                        Real const n, std::string const& what) {
    ExpectVec(Of(get<0>(p)), a, n, what + " 0");
    ExpectVec(Of(get<1>(p)), b, n, what + " 1");
  };
  Real n = 0;
  for (auto const& x : v) n += Norm(x);
  n *= 2 * ε;
  check_pair(p + d, v[0] + v[2], v[1] + v[3], n, "p + d");
  check_pair(p - d, v[0] - v[2], v[1] - v[3], n, "p - d");
  check_pair(d + p, v[0] + v[2], v[1] + v[3], n, "d + p");
  check(p - pair(v[2], v[3]), v[0] - v[2], v[1] - v[3], n, "p - q");
  Difference const e = difference(v[0], v[1]);
  check(d + e, v[0] + v[2], v[1] + v[3], n, "d + e");
  check(d - e, v[2] - v[0], v[3] - v[1], n, "d - e");
  check(-d, -v[2], -v[3], 0, "-d");
  check(+d, v[2], v[3], 0, "+d");
  Real const kk = k;
  check(d * k, kk * v[2], kk * v[3], n * std::abs(kk), "d * k");
  check(k * d, kk * v[2], kk * v[3], n * std::abs(kk), "k * d");
  check((k * si::Second) * d, kk * v[2], kk * v[3], n * std::abs(kk), "q * d");
  check(d / k, (1 / kk) * v[2], (1 / kk) * v[3], n / std::abs(kk), "d / k");
  auto x = p;
  x += d;
  REQUIRE(x == p + d, "+=");
  x = p;
  x -= d;
  REQUIRE(x == p - d, "-=");
  // `*=` and `/=` cannot be linked with this compiler: it does not match their
  // declarations with their constrained definitions.
  using Double = DirectSum<Vector<double, World>, double>;
  Double const f(Vector<double, World>(Element<double>(v[0])), k);
  Double const g(Vector<double, World>(Element<double>(v[1])), k / 2);
  Real const ff = Dot(v[0], v[0]) + kk * kk;
  ExpectReal(f.Norm²(), ff, 6 * ε * ff, "Norm²");
  ExpectReal(f.Norm(), std::sqrt(ff), 6 * ε * std::sqrt(ff), "Norm");
  ExpectReal(InnerProduct(f, g), Dot(v[0], v[1]) + kk * kk / 2,
             8 * ε * (Norm(v[0]) * Norm(v[1]) + kk * kk), "InnerProduct");
  BarycentreCalculator<Pair, double> barycentre;
  barycentre.Add(p, 1);
  barycentre.Add(p + d, 3);
  check_pair(barycentre.Get(), v[0] + 0.75L * v[2], v[1] + 0.75L * v[3], 8 * n,
             "barycentre");
}

void Complexes(Src& s, Ctx& c) {
  auto const real = [&] { return s.coin() ? s.sym(3) : s.slog(1e-10, 1e10); };
  std::complex<Real> const a{real(), real()};
  std::complex<Real> const b{real(), real()};
  c.note() << a << b;
  c.nontrivial(a.imag() != 0 && b.imag() != 0);
  double const k = s.slog(1e-3, 1e3);
  auto const make = [](std::complex<Real> const& z) {
    return Complexification<double>(static_cast<double>(z.real()),
                                    static_cast<double>(z.imag()));
  };
  auto const x = make(a);
  auto const y = make(b);
  auto const check = [](auto const& z, std::complex<Real> const& e,
                        Real const tolerance, std::string const& what) {
    std::complex<Real> const actual(In(z.real_part()), In(z.imaginary_part()));
    REQUIRE(std::abs(actual - e) <= tolerance,
            what << ": " << actual << ", not " << e);
  };
  Real const na = std::abs(a);
  Real const nb = std::abs(b);
  Real const kk = k;
  check(x + y, a + b, ε * (na + nb), "+");
  check(x - y, a - b, ε * (na + nb), "-");
  check(x + k, a + kk, ε * (na + std::abs(k)), "+ k");
  check(k - x, kk - a, ε * (na + std::abs(k)), "k -");
  check(x - k, a - kk, ε * (na + std::abs(k)), "- k");
  check(k + x, kk + a, ε * (na + std::abs(k)), "k +");
  check(-x, -a, 0, "unary -");
  check(+x, a, 0, "unary +");
  check(x * y, a * b, 4 * ε * na * nb, "*");
  check(x * (k * si::Metre), a * kk, 2 * ε * na * std::abs(k), "* k");
  check((k * si::Metre) * x, a * kk, 2 * ε * na * std::abs(k), "k *");
  check(x / k, a / kk, 2 * ε * na / std::abs(k), "/ k");
  check(x.Conjugate(), std::conj(a), 0, "conjugate");
  ExpectReal(x.Norm(), na, 4 * ε * na, "Norm");
  ExpectReal(x.Norm²(), na * na, 4 * ε * na * na, "Norm²");
  if (nb > 0) {
    check(x / y, a / b, 12 * ε * na / nb, "/");
    check(k / y, kk / b, 12 * ε * std::abs(k) / nb, "k /");
  }
  auto z = x;
  z += y;
  REQUIRE(z == x + y, "+=");
  z = x;
  z -= y;
  REQUIRE(z == x - y, "-=");
  z = x;
  z *= y;
  REQUIRE(z == x * y, "*=");
  if (nb > 0) {
    z = x;
    z /= y;
    REQUIRE(z == x / y, "/=");
  }
  check(InnerProduct(x, y), a * std::conj(b), 5 * ε * na * nb, "InnerProduct");
  // Complex vectors.
  Vec const v = SomeVector(s, 1e6);
  Vec const w = SomeVector(s, 1e6);
  Complexification<Displacement<World>> const u(
      Displacement<World>(Element<Length>(v)),
      Displacement<World>(Element<Length>(w)));
  auto const scaled = x * u;
  Real const n = 5 * ε * na * (Norm(v) + Norm(w));
  ExpectVec(Of(scaled.real_part()), a.real() * v - a.imag() * w, n,
            "real part");
  ExpectVec(Of(scaled.imaginary_part()), a.real() * w + a.imag() * v, n,
            "imaginary part");
  ExpectReal(In(u.Norm²()), Dot(v, v) + Dot(w, w),
             6 * ε * (Dot(v, v) + Dot(w, w)), "Norm²");
  auto const product = InnerProduct(u, scaled);
  // ⟨u, a u⟩ = ā |u|².
  check(product, std::conj(a) * (Dot(v, v) + Dot(w, w)),
        40 * ε * na * (Dot(v, v) + Dot(w, w)), "Hermitian");
}

void Intervals(Src& s, Ctx& c) {
  Interval<Instant> interval;
  Interval<Length> lengths;
  REQUIRE(interval.empty() && lengths.empty(), "initially empty");
  REQUIRE(interval.measure() == Time{} && lengths.measure() == Length{},
          "initial measure");
  REQUIRE(std::isnan(In(lengths.midpoint())), "midpoint of an empty interval");
  std::vector<double> values;
  auto const fill = [&](Interval<Instant>& i, std::vector<double>& v) {
    for (int n = 0; s.more(n, 0, 8, 3); ++n) {
      double const x = s.coin() ? s.range(-5, 5) : s.slog(1e-5, 1e5);
      v.push_back(x);
      i.Include(Instant() + x * si::Second);
    }
  };
  fill(interval, values);
  Interval<Instant> other;
  std::vector<double> others;
  fill(other, others);
  c.note() << values.size() << " and " << others.size() << " values";
  c.nontrivial(values.size() > 1 && others.size() > 1);
  auto const bounds = [](std::vector<double> const& v) {
    return std::pair(*std::min_element(v.begin(), v.end()),
                     *std::max_element(v.begin(), v.end()));
  };
  if (!values.empty()) {
    auto const [min, max] = bounds(values);
    REQUIRE(interval.min == Instant() + min * si::Second &&
                interval.max == Instant() + max * si::Second, "bounds");
    REQUIRE(interval.empty() == (min == max), "empty");
    ExpectReal(In(interval.measure()), static_cast<Real>(max) - min,
               2 * ε * (std::abs(max) + std::abs(min)), "measure");
    ExpectReal(In(interval.midpoint() - Instant()),
               (static_cast<Real>(max) + min) / 2,
               2 * ε * (std::abs(max) + std::abs(min)), "midpoint");
    if (!others.empty()) {
      auto const [omin, omax] = bounds(others);
      auto const i = Intersection(interval, other);
      double const lo = std::max(min, omin);
      double const hi = std::min(max, omax);
      REQUIRE(i.empty() == (hi <= lo), "empty intersection");
      REQUIRE(i.measure() == (hi <= lo ? 0 : hi - lo) * si::Second,
              "measure of an intersection");
      if (lo <= hi) {
        REQUIRE(i.min == Instant() + lo * si::Second &&
                    i.max == Instant() + hi * si::Second, "intersection");
      }
    } else {
      REQUIRE(Intersection(interval, other).empty(), "empty intersection");
    }
  }
}

void Projective(Src& s, Ctx& c) {
  auto const coordinate = [&] {
    return s.chance(1, 3) ? static_cast<double>(s.range(-2, 2)) :
           s.chance(1, 8) ? (s.coin() ? 0.0 : -0.0) : s.slog(1e-10, 1e10);
  };
  double const x = coordinate();
  double const y = coordinate();
  double const z = coordinate();
  using P = RP2Point<Length, World>;
  P const p(x * si::Metre, y * si::Metre, z);
  c.note() << x << " : " << y << " : " << z;
  if (x == 0 && y == 0 && z == 0) return;
  c.nontrivial(x != 0 && y != 0);
  REQUIRE(p.is_at_infinity() == (z == 0), "is_at_infinity");
  REQUIRE(p == p && !(p != p), "reflexive");
  double const sign = std::signbit(z) ? -1 : 1;
  auto const quotient = [&](double const x) {
    return z == 0 ? std::copysign(INFINITY, sign * x)
                  : (sign * x) / std::abs(z);
  };
  REQUIRE(In(p.x()) == quotient(x) &&
              std::signbit(In(p.x())) == std::signbit(quotient(x)), "x");
  REQUIRE(In(p.y()) == quotient(y) &&
              std::signbit(In(p.y())) == std::signbit(quotient(y)), "y");
  // Scaled by a power of 2: the same point, exactly.
  double const k = std::ldexp(s.coin() ? 1 : -1, s.range(-20, 20));
  P const q(k * x * si::Metre, k * y * si::Metre, k * z);
  REQUIRE(p == q && q == p, "scaled");
  // By something else: equal if and only if all the products are exact.
  double const l = s.slog(0.1, 10);
  P const r(l * x * si::Metre, l * y * si::Metre, l * z);
  auto const exact = [](double const a, double const b, double const c,
                        double const d) {
    return exact::Exact(a) * exact::Exact(b) == exact::Exact(c) * exact::Exact(d);
  };
  bool const same = exact(x, l * y, y, l * x) && exact(x, l * z, z, l * x) &&
                    exact(y, l * z, z, l * y);
  REQUIRE((p == r) == same && (p != r) == !same && (r == p) == same,
          "equality " << same);
}

void Perspectives(Src& s, Ctx& c) {
  // The camera.
  Mat const m = ref::Rodrigues(ref::SomeAngle(s, 3), ref::Direction(s));
  Vec const k = Rounded(static_cast<Real>(s.coin() ? 0 : s.log(0.1, 100)) *
                        ref::Direction(s));
  double const focal = s.log(0.1, 10);
  auto const position = [](Vec const& v) {
    return World::origin + Displacement<World>(Element<Length>(v));
  };
  Rotation<World, Camera> const rotation(
      Vector<double, World>(Element<double>(ref::Row(m, 0))),
      Vector<double, World>(Element<double>(ref::Row(m, 1))),
      Bivector<double, World>(Element<double>(ref::Row(m, 2))));
  RigidTransformation<World, Camera> const rigid(
      position(k), Camera::origin, rotation.Forget<OrthogonalMap>());
  bool const from = s.coin();
  Perspective<World, Camera> const perspective =
      from ? Perspective<World, Camera>(rigid.Inverse().Forget<Similarity>(),
                                        focal * si::Metre)
           : Perspective<World, Camera>(rigid.Forget<Similarity>(),
                                        focal * si::Metre);
  auto const of = [](Position<World> const& p) {
    return Of(p - World::origin);
  };
  ExpectVec(of(perspective.camera()), k, 1e-14L * Norm(k), "camera");
  REQUIRE(In(perspective.focal()) == focal, "focal");
  // A segment.
  auto const point = [&] {
    return Rounded(k + static_cast<Real>(s.log(0.3, 30)) * ref::Direction(s));
  };
  Vec const a = point();
  Vec const b = point();
  // Spheres, likely to hide.
  std::vector<std::pair<Vec, double>> balls;
  int const n = s.range(1, 4);
  for (int i = 0; i < n; ++i) {
    Real const λ = s.unit();
    Vec const on_segment = a + λ * (b - a);
    Vec const centre = Rounded(
        s.chance(2, 3)
            ? k + static_cast<Real>(s.log(0.1, 1.5)) * (on_segment - k) +
                  static_cast<Real>(s.log(0.01, 2)) * ref::Direction(s)
            : point());
    balls.emplace_back(centre, s.log(0.05, 5));
  }
  c.note() << "camera " << k << " A " << a << " B " << b;
  for (auto const& [p, r] : balls) c.note() << " sphere " << p << " " << r;
  // The projection.
  Vec const in_camera = m * (a - k);
  auto const projected = perspective(position(a));
  if (std::abs(in_camera[2]) > 1e-6L * Norm(in_camera)) {
    Real const tolerance = 1e-13L * focal * (Norm(a) + Norm(k)) *
                           Norm(in_camera) / (in_camera[2] * in_camera[2]);
    ExpectReal(In(projected.x()), focal * in_camera[0] / in_camera[2],
               tolerance, "projection x");
    ExpectReal(In(projected.y()), focal * in_camera[1] / in_camera[2],
               tolerance, "projection y");
  }
  Real const scale = Norm(a) + Norm(b) + Norm(k) + 1;
  ExpectReal(In(perspective.SquaredDistanceFromCamera(position(a))),
             Dot(a - k, a - k), 1e-14L * scale * scale,
             "SquaredDistanceFromCamera");
  Real const φ = AngleOf(a - k, b - k);
  if (std::abs(std::cos(φ)) > 1e-3L) {
    Real const t = std::tan(φ);
    ExpectReal(perspective.Tan²AngularDistance(position(a), position(b)),
               t * t, 1e-11L * (1 + t * t) * scale, "Tan²AngularDistance");
  }
  Segment<World> const segment{position(a), position(b)};
  // The focal plane.
  {
    Real const z1 = in_camera[2];
    Real const z2 = (m * (b - k))[2];
    if (std::abs(z1 - focal) > 1e-9L && std::abs(z2 - focal) > 1e-9L) {
      auto const behind = perspective.SegmentBehindFocalPlane(segment);
      if (z1 < focal && z2 < focal) {
        REQUIRE(!behind.has_value(), "in front of the focal plane");
      } else {
        REQUIRE(behind.has_value(), "behind the focal plane");
        Vec const cut = a + ((focal - z1) / (z2 - z1)) * (b - a);
        Real const tolerance =
            1e-12L * scale * scale / std::max(std::abs(z1 - z2), 1e-9L);
        ExpectVec(of(behind->first), z1 >= focal ? a : cut, tolerance,
                  "start behind the focal plane");
        ExpectVec(of(behind->second), z2 >= focal ? b : cut, tolerance,
                  "end behind the focal plane");
      }
    }
  }
  // The signed distance from the shadow: negative if hidden.  A point is hidden
  // if the segment from the camera to that point meets the ball.
  auto const distance = [&](Vec const& p, std::pair<Vec, double> const& ball) {
    Vec const d = p - k;
    Real const l = std::clamp<Real>(Dot(ball.first - k, d) / Dot(d, d), 0, 1);
    return Norm(k + l * d - ball.first) - ball.second;
  };
  std::vector<Sphere<World>> spheres;
  for (auto const& [p, r] : balls) {
    spheres.emplace_back(position(p), r * si::Metre);
    Real const d² = Dot(p - k, p - k);
    ExpectReal(perspective.SphereSin²HalfAngle(spheres.back()),
               std::min<Real>(1, static_cast<Real>(r) * r / d²),
               1e-13L * scale * r * r / d² * (1 + scale / std::sqrt(d²)),
               "SphereSin²HalfAngle");
  }
  constexpr Real margin = 1e-5L;
  auto const length = Norm(b - a);
  bool const degenerate = φ < 1e-2L || φ > 3.13L || length < 1e-2L;
  c.label_if(degenerate, "degenerate");
  bool some_hidden = false;
  bool some_visible = false;
  auto const covers = [&](auto const& segments, Vec const& p) {
    for (auto const& [p1, p2] : segments) {
      Vec const q1 = of(p1);
      Vec const q2 = of(p2);
      Real const l1 = Dot(q1 - a, b - a) / (length * length);
      Real const l2 = Dot(q2 - a, b - a) / (length * length);
      Real const l = Dot(p - a, b - a) / (length * length);
      if (l1 <= l && l <= l2) return true;
    }
    return false;
  };
  for (std::size_t i = 0; i < spheres.size(); ++i) {
    auto const visible = perspective.VisibleSegments(segment, spheres[i]);
    bool const inside = Norm(k - balls[i].first) <
                        balls[i].second * (1 + margin);
    for (auto const& [p1, p2] : visible) {
      // The segments are on the original one, in the same direction.
      if (degenerate) break;
      for (auto const& p : {of(p1), of(p2)}) {
        REQUIRE(Norm(Cross(p - a, b - a)) <= 1e-10L * scale * length,
                "not on the segment");
        Real const l = Dot(p - a, b - a) / (length * length);
        REQUIRE(l >= -1e-10L && l <= 1 + 1e-10L, "out of the segment " << l);
      }
    }
    for (int j = 0; j <= 24; ++j) {
      Vec const p = a + (j / 24.0L) * (b - a);
      Real const d = distance(p, balls[i]);
      if (std::abs(d) < margin * scale) continue;
      if (!inside && !degenerate) {
        bool const is_visible = covers(visible, p);
        REQUIRE(is_visible == (d > 0),
                "sphere " << i << " point " << j << "/24 is "
                          << (is_visible ? "visible" : "hidden")
                          << " at distance " << d);
        c.count();
      }
      if (!inside) {
        REQUIRE(perspective.IsHiddenBySphere(position(Rounded(p)),
                                             spheres[i]) == (d < 0),
                "IsHiddenBySphere " << i << " point " << j << "/24 at distance "
                                    << d);
      }
      some_hidden |= d < 0;
      some_visible |= d > 0;
    }
  }
  c.nontrivial(some_hidden && some_visible);
  // All the spheres.
  bool any_inside = false;
  for (auto const& [p, r] : balls) {
    any_inside |= Norm(k - p) < r * (1 + margin);
  }
  if (!any_inside && !degenerate) {
    auto const visible = perspective.VisibleSegments(segment, spheres);
    REQUIRE(visible.size() <= spheres.size() + 1, "too many segments");
    for (int j = 0; j <= 24; ++j) {
      Vec const p = a + (j / 24.0L) * (b - a);
      Real min = INFINITY;
      for (auto const& ball : balls) min = std::min(min, distance(p, ball));
      // Successive cuttings work on subsegments, which may be degenerate.
      bool clear = true;
      for (auto const& ball : balls) {
        clear &= std::abs(distance(p, ball)) >= 3e-4L * scale;
      }
      if (!clear) continue;
      bool const is_visible = covers(visible, p);
      REQUIRE(is_visible == (min > 0), "point " << j << "/24 is "
              << (is_visible ? "visible" : "hidden") << " at distance " << min);
    }
    c.label("segments " + std::to_string(visible.size()));
  }
}

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"grassmann", "pairs of vectors and bivectors, of all sizes, sometimes "
        "almost parallel; non-trivial if not parallel", 150000, 2000000,
        Grassmann},
       {"r3", "triples of coordinates, spherical coordinates; not zero",
        100000, 1000000, R3},
       {"forms", "pairs of symmetric forms, with random, chosen or integer "
        "entries; non-trivial if invertible", 150000, 2000000, Forms},
       {"points", "points, and barycentres of up to 8 of them",
        150000, 1500000, Points},
       {"direct_sums", "pairs of positions and velocities", 100000, 1000000,
        DirectSums},
       {"complexes", "complex numbers and vectors; not real", 150000, 2000000,
        Complexes},
       {"intervals", "pairs of intervals made of up to 8 values",
        50000, 500000, Intervals},
       {"projective", "points of the projective plane, with zeroes",
        150000, 2000000, Projective},
       {"perspective", "a camera, a segment and up to 4 spheres; non-trivial if "
        "a part of the segment is hidden and another is not", 100000, 2000000,
        Perspectives}});
}
