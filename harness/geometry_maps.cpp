// Linear, conformal and affine maps between frames: their action, composition,
// inverses, conversions and serialization, against 3x3 matrices.

#include <tuple>

#include "fatal.hpp"
#include "geometry/affine_map.hpp"
#include "geometry/conformal_map.hpp"
#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/homothecy.hpp"
#include "geometry/identity.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/permutation.hpp"
#include "geometry/quaternion.hpp"
#include "geometry/r3_element.hpp"
#include "geometry/r3x3_matrix.hpp"
#include "geometry/rotation.hpp"
#include "geometry/sign.hpp"
#include "geometry/signature.hpp"
#include "geometry/space.hpp"
#include "geometry/space_transformations.hpp"
#include "geometry/symmetric_bilinear_form.hpp"
#include "linear.hpp"
#include "pbt.hpp"
#include "quantities/si.hpp"
#include "serialization/geometry.pb.h"

using namespace principia::geometry::_affine_map;
using namespace principia::geometry::_conformal_map;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_homothecy;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_permutation;
using namespace principia::geometry::_quaternion;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_r3x3_matrix;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_sign;
using namespace principia::geometry::_signature;
using namespace principia::geometry::_space;
using namespace principia::geometry::_space_transformations;
using namespace principia::geometry::_symmetric_bilinear_form;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_named_quantities;
namespace si = principia::quantities::_si;
using principia::base::_algebra::Inverse;
using principia::base::_algebra::Product;
template<typename F, typename T>
using IdentityMap = principia::geometry::_identity::Identity<F, T>;
using pbt::Ctx;
using pbt::Src;
using ref::Mat;
using ref::Real;
using ref::Vec;

using S = principia::serialization::Frame;
constexpr auto R = Handedness::Right;
constexpr auto L = Handedness::Left;
template<Handedness h, S::TestTag tag>
using Fr = Frame<S::TestTag, Inertial, h, tag>;
template<Handedness h>
using A = Fr<h, S::TEST>;
template<Handedness h>
using B = Fr<h, S::TEST1>;
template<Handedness h>
using C = Fr<h, S::TEST2>;
template<Handedness h>
using D = Fr<h, S::TEST3>;
template<int i>
using MidR = Frame<std::integral_constant<int, i>, Arbitrary, R>;
template<int i>
using MidL = Frame<std::integral_constant<int, i>, Arbitrary, L>;

template<typename Q>
R3Element<Q> Element(Vec const& v) {
  Q const u = si::Unit<Q>;
  return R3Element<Q>(static_cast<double>(v[0]) * u,
                      static_cast<double>(v[1]) * u,
                      static_cast<double>(v[2]) * u);
}
template<typename Q>
Vec Of(R3Element<Q> const& e) {
  Q const u = si::Unit<Q>;
  return {static_cast<Real>(e.x / u), static_cast<Real>(e.y / u),
          static_cast<Real>(e.z / u)};
}
template<typename Q>
Mat Of(R3x3Matrix<Q> const& m) {
  Mat r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      r(i, j) = static_cast<Real>(m(i, j) / si::Unit<Q>);
  return r;
}
Vec Rounded(Vec const& v) {
  return {static_cast<double>(v[0]), static_cast<double>(v[1]),
          static_cast<double>(v[2])};
}

Vec SomeVector(Src& s) {
  double const scale = s.coin() ? 1 : s.log(1e-20, 1e20);
  return Rounded(static_cast<Real>(scale) * (s.coin() ? ref::Direction(s) :
                 Vec{s.sym(1), s.sym(1), s.sym(1)}));
}
Mat SomeSymmetric(Src& s) {
  Mat m;
  double const scale = s.coin() ? 1 : s.log(1e-10, 1e10);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j <= i; ++j)
      m(i, j) = m(j, i) = scale * s.sym(1);
  return m;
}

void ExpectVec(Vec const& actual, Vec const& expected, Real const tolerance,
               std::string const& what) {
  REQUIRE(Norm(actual - expected) <= tolerance,
          what << ": " << actual << ", not " << expected << ", tolerance "
               << tolerance);
}
void ExpectMat(Mat const& actual, Mat const& expected, Real const tolerance,
               std::string const& what) {
  REQUIRE(Frobenius(actual + (-1) * expected) <= tolerance,
          what << ": " << actual << ", not " << expected);
}

// `tolerance` is relative, 0 for maps that are exact.
template<typename F, typename T, typename Map>
void CheckVectors(Src& s, Map const& map, Mat const& m, Real const tolerance,
                  std::string const& what) {
  for (int i = 0; i < 2; ++i) {
    Vec const v = SomeVector(s);
    auto const w = map(Vector<Length, F>(Element<Length>(v)));
    static_assert(std::is_same_v<decltype(w), Vector<Length, T> const>);
    ExpectVec(Of(w.coordinates()), m * v, tolerance * Norm(v),
              what + " on a vector");
  }
}

template<typename F, typename T, typename Map>
void CheckMultivectors(Src& s, Map const& map, Mat const& m,
                       Real const tolerance, std::string const& what) {
  CheckVectors<F, T>(s, map, m, tolerance, what);
  Real const det = Det(m) > 0 ? 1 : -1;
  Vec const v = SomeVector(s);
  auto const b = map(Bivector<AngularFrequency, F>(
      Element<AngularFrequency>(v)));
  ExpectVec(Of(b.coordinates()), det * (m * v), tolerance * Norm(v),
            what + " on a bivector");
  double const t = s.sym(10);
  auto const r = map(Trivector<Length, F>(t * si::Metre));
  REQUIRE(r.coordinates() / si::Metre == static_cast<double>(det) * t,
          what << " on a trivector: " << r.coordinates() / si::Metre);
  REQUIRE(static_cast<int>(map.Determinant()) == static_cast<int>(det),
          what << ": determinant");
}

template<typename F, typename T, typename Map>
void CheckForms(Src& s, Map const& map, Mat const& m,
                Real const tolerance, std::string const& what) {
  Mat const f = SomeSymmetric(s);
  R3x3Matrix<Length> const matrix(
      Element<Length>(ref::Row(f, 0)), Element<Length>(ref::Row(f, 1)),
      Element<Length>(ref::Row(f, 2)));
  SymmetricBilinearForm<Length, F, Vector> const form(matrix);
  SymmetricBilinearForm<Length, F, Bivector> const biform(matrix);
  Mat const expected = m * f * Transpose(m);
  ExpectMat(Of(map(form).coordinates()), expected,
            2 * tolerance * Frobenius(f), what + " on a form");
  ExpectMat(Of(map(biform).coordinates()), expected,
            2 * tolerance * Frobenius(f), what + " on a form on bivectors");
}

template<typename F, typename T, typename Map>
void CheckSerialization(Map const& map, std::string const& what) {
  if constexpr (std::is_same_v<typename F::Tag, S::TestTag> &&
                std::is_same_v<typename T::Tag, S::TestTag>) {
    principia::serialization::LinearMap message;
    map.WriteToMessage(&message);
    principia::serialization::LinearMap copy;
    REQUIRE(copy.ParseFromString(message.SerializeAsString()), what);
    Map const read = Map::ReadFromMessage(copy);
    principia::serialization::LinearMap again;
    read.WriteToMessage(&again);
    REQUIRE(again.SerializeAsString() == message.SerializeAsString(),
            what << ": serialization is not stable");
    for (int i = 0; i < 3; ++i) {
      Vector<Length, F> const v(
          Element<Length>(Rounded(ref::Axis(i) + (1.0L / 3) * ref::Axis(1))));
      REQUIRE(read(v) == map(v), what << ": the map that was read is different");
    }
    // Other frames are rejected.
    using OtherF = std::conditional_t<F::handedness == R, Fr<R, S::TEST>,
                                      Fr<L, S::TEST>>;
    using OtherT = std::conditional_t<T::handedness == R, Fr<R, S::TEST>,
                                      Fr<L, S::TEST>>;
    static_assert(!std::is_same_v<T, OtherT>);
    auto const wrong = copy.to_frame();
    principia::serialization::LinearMap bad = copy;
    OtherT::WriteToMessage(bad.mutable_to_frame());
    REQUIRE(pbt::is_fatal([&] { (void)Map::ReadFromMessage(bad); }),
            what << ": wrong to_frame accepted");
    if constexpr (!std::is_same_v<F, OtherF>) {
      bad = copy;
      OtherF::WriteToMessage(bad.mutable_from_frame());
      REQUIRE(pbt::is_fatal([&] { (void)Map::ReadFromMessage(bad); }),
              what << ": wrong from_frame accepted");
    }
  }
}

template<typename F, typename T, template<typename, typename> typename M>
struct Case {
  M<F, T> map;
  Mat m;
  Real tolerance;
};

template<typename F, typename T>
Case<F, T, Signature> SomeSignature(Src& s) {
  using Sig = Signature<F, T>;
  auto const sign = [](int const i) {
    return i > 0 ? Sign::Positive() : Sign::Negative();
  };
  int const a = s.coin() ? -1 : 1;
  int const b = s.coin() ? -1 : 1;
  int const c = a * b * (F::handedness == T::handedness ? 1 : -1);
  switch (s.below(4)) {
    case 0:
      return {Sig(sign(a), sign(b), typename Sig::DeduceSign()),
              Mat::Diagonal(a, b, c), 0};
    case 1:
      return {Sig(sign(a), typename Sig::DeduceSign(), sign(b)),
              Mat::Diagonal(a, c, b), 0};
    case 2:
      return {Sig(typename Sig::DeduceSign(), sign(a), sign(b)),
              Mat::Diagonal(c, a, b), 0};
    default:
      if constexpr (F::handedness == T::handedness) {
        return {Sig::Identity(), Mat::Identity(), 0};
      } else {
        return {Sig::CentralInversion(), (-1) * Mat::Identity(), 0};
      }
  }
}

template<typename F, typename T>
Case<F, T, Permutation> SomePermutation(Src& s) {
  using P = Permutation<F, T>;
  int const k = s.below(3);
  auto const matrix = [](int const i, int const j, int const k) {
    return Mat::Rows(ref::Axis(i), ref::Axis(j), ref::Axis(k));
  };
  if constexpr (F::handedness == T::handedness) {
    switch (k) {
      case 0: return {P(EvenPermutation::XYZ), matrix(0, 1, 2), 0};
      case 1: return {P(EvenPermutation::YZX), matrix(1, 2, 0), 0};
      default: return {P(EvenPermutation::ZXY), matrix(2, 0, 1), 0};
    }
  } else {
    switch (k) {
      case 0: return {P(OddPermutation::XZY), matrix(0, 2, 1), 0};
      case 1: return {P(OddPermutation::ZYX), matrix(2, 1, 0), 0};
      default: return {P(OddPermutation::YXZ), matrix(1, 0, 2), 0};
    }
  }
}

template<typename Frame_>
Bivector<double, Frame_> Bi(Vec const& v) {
  return Bivector<double, Frame_>(Element<double>(v));
}
template<typename Frame_>
Vector<double, Frame_> V(Vec const& v) {
  return Vector<double, Frame_>(Element<double>(v));
}

// A rotation of F to T made in any of the ways that there are.
template<typename F, typename T>
Case<F, T, Rotation> SomeRotation(Src& s, int* kind = nullptr) {
  using Rot = Rotation<F, T>;
  constexpr Real ε = 3e-15L;
  int const k = s.below(9);
  if (kind != nullptr) *kind = k;
  switch (k) {
    case 0: {
      // Passive, axis in F, which defines T.
      double const angle = ref::SomeAngle(s, 10);
      Vec const axis = Rounded(static_cast<Real>(s.log(1e-3, 1e3)) *
                               ref::Direction(s));
      return {Rot(angle * si::Radian,
                  Bivector<Length, F>(Element<Length>(axis)),
                  DefinesFrame<T>{}),
              ref::Rodrigues(-angle, axis), ε};
    }
    case 1: {
      double const angle = ref::SomeAngle(s, 10);
      Vec const axis = Rounded(static_cast<Real>(s.log(1e-3, 1e3)) *
                               ref::Direction(s));
      return {Rot(angle * si::Radian,
                  Bivector<Length, T>(Element<Length>(axis)),
                  DefinesFrame<F>{}),
              ref::Rodrigues(angle, axis), ε};
    }
    case 2: {
      Vec const axis = ref::Direction(s);
      Real const angle = ref::SomeAngle(s, 6.3);
      Real const norm = s.coin() ? 1 : 1;
      Quaternion const q(
          static_cast<double>(norm * std::cos(angle / 2)),
          Element<double>((norm * std::sin(angle / 2)) * axis));
      return {Rot(q), ref::Rodrigues(angle, axis), ε};
    }
    case 3:
    case 4: {
      // Bases.
      Mat const m = ref::Rodrigues(ref::SomeAngle(s, 4), ref::Direction(s));
      // The rows are the axes of T in F.
      if (k == 3) {
        Vec const x = ref::Row(m, 0);
        Vec const y = ref::Row(m, 1);
        Vec const z = ref::Row(m, 2);
        switch (s.below(4)) {
          case 0: return {Rot(V<F>(x), V<F>(y), Bi<F>(z)), m, ε};
          case 1: return {Rot(V<F>(x), Bi<F>(y), V<F>(z)), m, ε};
          case 2: return {Rot(Bi<F>(x), V<F>(y), V<F>(z)), m, ε};
          default: return {Rot(Bi<F>(x), Bi<F>(y), Bi<F>(z)), m, ε};
        }
      } else {
        Vec const x = ref::Row(Transpose(m), 0);
        Vec const y = ref::Row(Transpose(m), 1);
        Vec const z = ref::Row(Transpose(m), 2);
        switch (s.below(4)) {
          case 0: return {Rot(V<T>(x), V<T>(y), Bi<T>(z)), m, ε};
          case 1: return {Rot(V<T>(x), Bi<T>(y), V<T>(z)), m, ε};
          case 2: return {Rot(Bi<T>(x), V<T>(y), V<T>(z)), m, ε};
          default: return {Rot(Bi<T>(x), Bi<T>(y), Bi<T>(z)), m, ε};
        }
      }
    }
    case 5:
      return {Rot::Identity(), Mat::Identity(), 0};
    case 6:
      // From a permutation or a signature is only possible to orthogonal.
      {
        auto const p = SomePermutation<F, T>(s);
        return {p.map.template Forget<Rotation>(), p.m, ε};
      }
    default: {
      double const α = ref::SomeAngle(s, 7);
      double const β = ref::SomeAngle(s, 7);
      double const γ = ref::SomeAngle(s, 7);
      auto const a = α * si::Radian;
      auto const b = β * si::Radian;
      auto const c = γ * si::Radian;
      auto const m = [&](int const i, int const j, int const k) {
        return ref::Rodrigues(α, ref::Axis(i)) *
               ref::Rodrigues(β, ref::Axis(j)) *
               ref::Rodrigues(γ, ref::Axis(k));
      };
      constexpr int X = 0, Y = 1, Z = 2;
      if (s.coin()) {
        static std::vector<std::pair<EulerAngles, std::array<int, 3>>> const
            all = {{EulerAngles::ZXZ, {Z, X, Z}}, {EulerAngles::XYX, {X, Y, X}},
                   {EulerAngles::YZY, {Y, Z, Y}}, {EulerAngles::ZYZ, {Z, Y, Z}},
                   {EulerAngles::XZX, {X, Z, X}}, {EulerAngles::YXY, {Y, X, Y}}};
        auto const& [e, i] = all[s.below(6)];
        Mat const mm = m(i[0], i[1], i[2]);
        if (s.coin()) {
          return {Rot(a, b, c, e, DefinesFrame<T>{}), Transpose(mm), ε};
        } else {
          return {Rot(a, b, c, e, DefinesFrame<F>{}), mm, ε};
        }
      } else {
        static std::vector<std::pair<CardanoAngles, std::array<int, 3>>> const
            all = {{CardanoAngles::XYZ, {X, Y, Z}},
                   {CardanoAngles::YZX, {Y, Z, X}},
                   {CardanoAngles::ZXY, {Z, X, Y}},
                   {CardanoAngles::XZY, {X, Z, Y}},
                   {CardanoAngles::ZYX, {Z, Y, X}},
                   {CardanoAngles::YXZ, {Y, X, Z}}};
        auto const& [e, i] = all[s.below(6)];
        Mat const mm = m(i[0], i[1], i[2]);
        if (s.coin()) {
          return {Rot(a, b, c, e, DefinesFrame<T>{}), Transpose(mm), ε};
        } else {
          return {Rot(a, b, c, e, DefinesFrame<F>{}), mm, ε};
        }
      }
    }
  }
}

// An orthogonal map made by conversions, inverses and products.
template<typename F, typename T, int depth = 2>
Case<F, T, OrthogonalMap> SomeOrthogonal(Src& s) {
  switch (s.below(depth == 0 ? 3 : 6)) {
    case 0: {
      auto const c = SomeSignature<F, T>(s);
      return {c.map.template Forget<OrthogonalMap>(), c.m, 1e-15L};
    }
    case 1: {
      auto const c = SomePermutation<F, T>(s);
      return {c.map.template Forget<OrthogonalMap>(), c.m, 2e-15L};
    }
    case 2:
      if constexpr (F::handedness == T::handedness) {
        auto const c = SomeRotation<F, T>(s);
        return {c.map.template Forget<OrthogonalMap>(), c.m,
                std::max(c.tolerance, 1e-15L)};
      } else {
        auto const c = SomeSignature<F, T>(s);
        return {c.map.template Forget<OrthogonalMap>(), c.m, 1e-15L};
      }
    case 3:
      if constexpr (depth > 0) {
        auto const c = SomeOrthogonal<T, F, depth - 1>(s);
        return {c.map.Inverse(), Transpose(c.m), c.tolerance + 1e-15L};
      }
    case 4:
      if constexpr (depth > 0) {
        auto const b = SomeOrthogonal<F, MidR<depth>, depth - 1>(s);
        auto const a = SomeOrthogonal<MidR<depth>, T, depth - 1>(s);
        return {a.map * b.map, a.m * b.m,
                a.tolerance + b.tolerance + 2e-15L};
      }
    default:
      if constexpr (depth > 0) {
        auto const b = SomeOrthogonal<F, MidL<depth>, depth - 1>(s);
        auto const a = SomeOrthogonal<MidL<depth>, T, depth - 1>(s);
        return {a.map * b.map, a.m * b.m,
                a.tolerance + b.tolerance + 2e-15L};
      }
  }
  std::abort();
}

template<typename F, typename T>
using DoubleConformal = ConformalMap<double, F, T>;

template<typename F, typename T>
Case<F, T, DoubleConformal> SomeConformal(Src& s) {
  using O = MidR<10>;
  switch (s.below(4)) {
    case 0: {
      auto const c = SomeOrthogonal<F, T, 1>(s);
      return {c.map.template Forget<ConformalMap>(), c.m, c.tolerance};
    }
    case 1: {
      auto const b = SomeOrthogonal<F, O, 1>(s);
      auto const a = SomeOrthogonal<O, T, 1>(s);
      double const k = s.log(1e-6, 1e6);
      Homothecy<double, O, MidR<11>> const h(k);
      auto const id = IdentityMap<MidR<11>, O>();
      return {a.map.template Forget<ConformalMap>() *
                  (id.template Forget<ConformalMap>() *
                   h.template Forget<ConformalMap>()) *
                  b.map.template Forget<ConformalMap>(),
              static_cast<Real>(k) * (a.m * b.m),
              k * (a.tolerance + b.tolerance + 5e-15L)};
    }
    case 2: {
      auto const b = SomeOrthogonal<T, O, 1>(s);
      double const k = s.log(1e-6, 1e6);
      using O2 = Frame<std::integral_constant<int, 12>, Arbitrary, R>;
      Homothecy<double, O, O2> const h(k);
      auto const a = SomeOrthogonal<O2, F, 1>(s);
      auto const map = a.map.template Forget<ConformalMap>() *
                       (h.template Forget<ConformalMap>() *
                        b.map.template Forget<ConformalMap>());
      return {map.Inverse(), (1 / static_cast<Real>(k)) * Transpose(a.m * b.m),
              (a.tolerance + b.tolerance + 5e-15L) / k};
    }
    default: {
      auto const c = SomeOrthogonal<F, T, 0>(s);
      return {c.map.template Forget<ConformalMap>(), c.m, c.tolerance};
    }
  }
}

// -------------------------------------------------------------- Properties.

template<Handedness h1, Handedness h2, Handedness h3>
void Maps(Src& s, Ctx& c) {
  using F = A<h1>;
  using T = B<h2>;
  using U = C<h3>;
  c.note() << (h1 == R ? "R" : "L") << (h2 == R ? "R" : "L")
           << (h3 == R ? "R" : "L");
  switch (s.below(6)) {
    case 0: {
      c.label("signature");
      auto const a = SomeSignature<F, T>(s);
      auto const b = SomeSignature<T, U>(s);
      c.note() << " signatures " << a.m << " " << b.m;
      CheckMultivectors<F, T>(s, a.map, a.m, 0, "signature");
      CheckForms<F, T>(s, a.map, a.m, 0, "signature");
      CheckMultivectors<T, F>(s, a.map.Inverse(), Transpose(a.m), 0,
                              "inverse of a signature");
      CheckMultivectors<F, U>(s, b.map * a.map, b.m * a.m, 0,
                              "product of signatures");
      CheckMultivectors<F, T>(s, a.map.template Forget<OrthogonalMap>(), a.m,
                              1e-15L, "signature as orthogonal map");
      CheckVectors<F, T>(s, a.map.template Forget<ConformalMap>(), a.m,
                         1e-15L, "signature as conformal map");
      CheckSerialization<F, T>(a.map, "signature");
      break;
    }
    case 1: {
      c.label("permutation");
      auto const a = SomePermutation<F, T>(s);
      auto const b = SomePermutation<T, U>(s);
      c.note() << " permutations " << a.m << " " << b.m;
      CheckMultivectors<F, T>(s, a.map, a.m, 0, "permutation");
      CheckMultivectors<T, F>(s, a.map.Inverse(), Transpose(a.m), 0,
                              "inverse of a permutation");
      CheckMultivectors<F, U>(s, b.map * a.map, b.m * a.m, 0,
                              "product of permutations");
      CheckMultivectors<F, T>(s, a.map.template Forget<OrthogonalMap>(), a.m,
                              2e-15L, "permutation as orthogonal map");
      CheckVectors<F, T>(s, a.map.template Forget<ConformalMap>(), a.m,
                         2e-15L, "permutation as conformal map");
      CheckSerialization<F, T>(a.map, "permutation");
      break;
    }
    case 2: {
      c.label("rotation");
      if constexpr (h1 == h2 && h2 == h3) {
        int kind;
        auto const a = SomeRotation<F, T>(s, &kind);
        auto const b = SomeRotation<T, U>(s);
        c.label("rotation " + std::to_string(kind));
        c.note() << " rotations " << a.map << " " << b.map;
        CheckMultivectors<F, T>(s, a.map, a.m, a.tolerance, "rotation");
        CheckForms<F, T>(s, a.map, a.m, a.tolerance + 3e-15L, "rotation");
        CheckMultivectors<T, F>(s, a.map.Inverse(), Transpose(a.m),
                                a.tolerance, "inverse of a rotation");
        CheckMultivectors<F, U>(s, b.map * a.map, b.m * a.m,
                                a.tolerance + b.tolerance + 2e-15L,
                                "product of rotations");
        CheckMultivectors<F, T>(s, a.map.template Forget<OrthogonalMap>(), a.m,
                                a.tolerance, "rotation as orthogonal map");
        CheckVectors<F, T>(s, a.map.template Forget<ConformalMap>(), a.m,
                           a.tolerance, "rotation as conformal map");
        CheckSerialization<F, T>(a.map, "rotation");
        // The angle, in [-π, π], has the cosine given by the trace.
        Real const angle = a.map.RotationAngle() / si::Radian;
        REQUIRE(std::abs(angle) <= ref::π + 1e-15L, "angle " << angle);
        Real const cosine = (a.m(0, 0) + a.m(1, 1) + a.m(2, 2) - 1) / 2;
        REQUIRE(std::abs(std::cos(angle) - cosine) <= 1e-14L,
                "angle " << angle << " cosine " << cosine);
        c.nontrivial(cosine < 1 - 1e-10L);
      } else {
        // The identity and homothecies, for frames of the same handedness.
        if constexpr (h1 == h2) {
          IdentityMap<F, T> const id;
          Mat const one = Mat::Identity();
          CheckMultivectors<F, T>(s, id, one, 0, "identity");
          CheckForms<F, T>(s, id, one, 0, "identity");
          CheckMultivectors<T, F>(s, id.Inverse(), one, 0, "inverse identity");
          CheckMultivectors<F, T>(s, id.template Forget<OrthogonalMap>(), one,
                                  1e-15L, "identity as orthogonal map");
          CheckSerialization<F, T>(id, "identity");
          double const k1 = s.log(1e-10, 1e10);
          double const k2 = s.log(1e-10, 1e10);
          c.note() << " homothecies " << k1 << " " << k2;
          Homothecy<double, F, T> const a(k1);
          Homothecy<double, T, D<h1>> const b(k2);
          CheckVectors<F, T>(s, a, static_cast<Real>(k1) * one, 1e-15L * k1,
                             "homothecy");
          CheckVectors<T, F>(s, a.Inverse(), (1 / static_cast<Real>(k1)) * one,
                             1e-15L / k1, "inverse of a homothecy");
          CheckVectors<F, D<h1>>(s, b * a, (static_cast<Real>(k1) * k2) * one,
                                 1e-15L * k1 * k2, "product of homothecies");
          CheckVectors<F, T>(s, a.template Forget<ConformalMap>(),
                             static_cast<Real>(k1) * one, 2e-15L * k1,
                             "homothecy as conformal map");
          {
            Homothecy<Length, F, T> const h(k1 * si::Metre);
            CheckSerialization<F, T>(h, "homothecy");
            // Compositions that have a dimension.
            Homothecy<Inverse<Length>, T, D<h1>> const i(k2 / si::Metre);
            CheckVectors<F, D<h1>>(s, i * h,
                                   (static_cast<Real>(k1) * k2) * one,
                                   1e-15L * k1 * k2, "product of homothecies");
            CheckVectors<F, F>(s, h.Inverse() * h, one, 1e-15L,
                               "homothecy and its inverse");
            auto const ch = h.template Forget<ConformalMap>();
            CheckSerialization<F, T>(ch, "dimensionful conformal map");
            CheckVectors<F, D<h1>>(s, i.template Forget<ConformalMap>() * ch,
                                   (static_cast<Real>(k1) * k2) * one,
                                   2e-15L * k1 * k2,
                                   "product of dimensionful conformal maps");
          }
          REQUIRE(std::abs(a.Determinant() /
                           (static_cast<Real>(k1) * k1 * k1) - 1) < 1e-15L,
                  "determinant of a homothecy");
          REQUIRE(pbt::is_fatal(
                      [&] { Homothecy<double, F, T> const bad(-k1); }),
                  "negative homothecy");
          REQUIRE(pbt::is_fatal([&] { Homothecy<double, F, T> const bad(0); }),
                  "zero homothecy");
        }
      }
      break;
    }
    case 3: {
      c.label("orthogonal");
      auto const a = SomeOrthogonal<F, T>(s);
      auto const b = SomeOrthogonal<T, U>(s);
      c.note() << " orthogonal " << a.map << " " << b.map;
      c.nontrivial();
      CheckMultivectors<F, T>(s, a.map, a.m, a.tolerance, "orthogonal map");
      CheckForms<F, T>(s, a.map, a.m, a.tolerance + 3e-15L, "orthogonal map");
      CheckMultivectors<T, F>(s, a.map.Inverse(), Transpose(a.m), a.tolerance,
                              "inverse of an orthogonal map");
      CheckMultivectors<F, U>(s, b.map * a.map, b.m * a.m,
                              a.tolerance + b.tolerance + 2e-15L,
                              "product of orthogonal maps");
      CheckVectors<F, T>(s, a.map.template Forget<ConformalMap>(), a.m,
                         a.tolerance, "orthogonal map as conformal map");
      if constexpr (h1 == h2) {
        CheckMultivectors<F, T>(s, a.map.AsRotation(), a.m, a.tolerance,
                                "orthogonal map as rotation");
        CheckMultivectors<F, T>(s, OrthogonalMap<F, T>::Identity(),
                                Mat::Identity(), 0, "orthogonal identity");
      }
      CheckSerialization<F, T>(a.map, "orthogonal map");
      break;
    }
    case 4: {
      c.label("conformal");
      auto const a = SomeConformal<F, T>(s);
      auto const b = SomeConformal<T, U>(s);
      c.note() << " conformal " << a.map << " " << b.map;
      c.nontrivial();
      Real const ka = Frobenius(a.m) / std::sqrt(3.0L);
      Real const kb = Frobenius(b.m) / std::sqrt(3.0L);
      CheckVectors<F, T>(s, a.map, a.m, a.tolerance, "conformal map");
      CheckVectors<T, F>(s, a.map.Inverse(),
                         (1 / (ka * ka)) * Transpose(a.m),
                         a.tolerance / (ka * ka) + 2e-15L / ka,
                         "inverse of a conformal map");
      CheckVectors<F, U>(s, b.map * a.map, b.m * a.m,
                         a.tolerance * kb + b.tolerance * ka + 3e-15L * ka * kb,
                         "product of conformal maps");
      REQUIRE(std::abs(a.map.scale() - ka) <= 1e-14L * ka, "scale");
      REQUIRE(std::abs(a.map.Determinant() - ka * ka * ka) <=
                  1e-13L * ka * ka * ka, "determinant");
      CheckMultivectors<F, T>(s, a.map.orthogonal_map¹₁(), (1 / ka) * a.m,
                              a.tolerance / ka + 2e-15L, "orthogonal_map¹₁");
      {
        Vec const v = SomeVector(s);
        Real const det = Det(a.m) > 0 ? 1 : -1;
        AngularVelocity<F> const ω(Element<AngularFrequency>(v));
        ExpectVec(Of(a.map(ω).coordinates()), det / ka * (a.m * v),
                  (a.tolerance / ka + 2e-15L) * Norm(v),
                  "conformal map on an angular velocity");
      }
      if constexpr (h1 == h2) {
        CheckVectors<F, T>(s, ConformalMap<double, F, T>::Identity(),
                           Mat::Identity(), 0, "conformal identity");
      }
      CheckSerialization<F, T>(a.map, "conformal map");
      break;
    }
    default: {
      c.label("affine");
      auto const a = SomeOrthogonal<F, T>(s);
      auto const b = SomeOrthogonal<T, U>(s);
      auto const ca = SomeConformal<F, T>(s);
      auto const cb = SomeConformal<T, U>(s);
      Vec const fa = SomeVector(s);
      Vec const ta = SomeVector(s);
      Vec const fb = SomeVector(s);
      Vec const tb = SomeVector(s);
      Vec const p = SomeVector(s);
      auto const position = []<typename Fr_>(std::type_identity<Fr_>,
                                             Vec const& v) {
        return Fr_::origin + Displacement<Fr_>(Element<Length>(v));
      };
      std::type_identity<F> f;
      std::type_identity<T> t;
      std::type_identity<U> u;
      c.nontrivial();
      auto const check = [&]<template<typename, typename> typename Map>(
                             auto const& a, auto const& b) {
        using AffineFT = AffineMap<F, T, Length, Map>;
        using AffineTU = AffineMap<T, U, Length, Map>;
        AffineFT const x(position(f, fa), position(t, ta), a.map);
        AffineTU const y(position(t, fb), position(u, tb), b.map);
        Vec const q = ta + a.m * (p - fa);
        Vec const r = tb + b.m * (q - fb);
        Real const ka = Frobenius(a.m) / std::sqrt(3.0L);
        Real const kb = Frobenius(b.m) / std::sqrt(3.0L);
        Real const error_q =
            (a.tolerance + 3e-16L * ka) * 2 * (Norm(p) + Norm(fa)) +
            4e-16L * Norm(q) + 4e-16L * Norm(ta);
        Real const error_r =
            kb * (error_q + ka * 1e-15L * (Norm(p) + Norm(fa))) +
            (b.tolerance + 2e-15L * kb) * 2 * (Norm(q) + Norm(fb) + Norm(ta) +
                                 ka * (Norm(p) + Norm(fa))) +
            1e-15L * (Norm(r) + Norm(tb));
        ExpectVec(Of((x(position(f, p)) - T::origin).coordinates()), q,
                  error_q, "affine map");
        ExpectVec(Of((y(x(position(f, p))) - U::origin).coordinates()), r,
                  error_r, "affine maps one after the other");
        ExpectVec(Of(((y * x)(position(f, p)) - U::origin).coordinates()), r,
                  error_r, "composition of affine maps");
        // The inverse is the inverse.
        ExpectVec(Of((x.Inverse()(x(position(f, p))) - F::origin)
                         .coordinates()),
                  p,
                  (2 * error_q + 4e-16L * Norm(ta)) / ka +
                      (8 * a.tolerance / ka + 1e-15L) * (Norm(p) + Norm(fa)),
                  "inverse of an affine map");
        principia::serialization::AffineMap message;
        x.WriteToMessage(&message);
        AffineFT const read = AffineFT::ReadFromMessage(message);
        REQUIRE(read(position(f, p)) == x(position(f, p)),
                "serialization of an affine map");
        if constexpr (h1 == h2) {
          ExpectVec(Of((AffineFT::Identity()(position(f, p)) - T::origin)
                           .coordinates()), p, 1e-15L * Norm(p),
                    "affine identity");
        }
      };
      c.note() << " affine " << fa << ta << fb << tb << p << a.map << b.map;
      check.template operator()<OrthogonalMap>(a, b);
      check.template operator()<DoubleConformalMap>(ca, cb);
      {
        RigidTransformation<F, T> const x(position(f, fa), position(t, ta),
                                          a.map);
        auto const y = x.template Forget<Similarity>();
        Vec const q = ta + a.m * (p - fa);
        ExpectVec(Of((y(position(f, p)) - T::origin).coordinates()), q,
                  a.tolerance * 2 * (Norm(p) + Norm(fa)) +
                      4e-16L * (Norm(q) + Norm(ta)), "similarity");
      }
      break;
    }
  }
}

void MapsProperty(Src& s, Ctx& c) {
  switch (s.below(10)) {
    case 0: return Maps<R, R, L>(s, c);
    case 1: return Maps<R, L, R>(s, c);
    case 2: return Maps<R, L, L>(s, c);
    case 3: return Maps<L, R, R>(s, c);
    case 4: return Maps<L, R, L>(s, c);
    case 5: return Maps<L, L, R>(s, c);
    case 6: return Maps<L, L, L>(s, c);
    default: return Maps<R, R, R>(s, c);
  }
}

// Active rotations, exponentials, axes and angles.
void Active(Src& s, Ctx& c) {
  using F = A<R>;
  double const angle = ref::SomeAngle(s, 10);
  Vec const axis = Rounded(static_cast<Real>(s.log(1e-3, 1e3)) *
                           ref::Direction(s));
  c.note() << "angle " << angle << " axis " << axis;
  c.nontrivial(angle != 0);
  Rotation<F, F> const r(angle * si::Radian,
                         Bivector<Length, F>(Element<Length>(axis)));
  Mat const m = ref::Rodrigues(angle, axis);
  CheckMultivectors<F, F>(s, r, m, 3e-15L, "active rotation");
  // The axis and the angle define the same rotation.
  if (angle != 0) {
    auto const r_axis = Of(r.RotationAxis().coordinates());
    Real const r_angle = r.RotationAngle() / si::Radian;
    REQUIRE(std::abs(Norm(r_axis) - 1) < 1e-15L, "axis " << r_axis);
    REQUIRE(std::abs(r_angle) <= ref::π + 1e-15L, "angle " << r_angle);
    ExpectMat(ref::Rodrigues(r_angle, r_axis), m, 1e-14L, "axis and angle");
  }
  // Exponential.
  Vec const ω = Rounded(static_cast<Real>(ref::SomeAngle(s, 4)) *
                        ref::Direction(s));
  auto const e = Exp(Bivector<principia::quantities::_quantities::Angle, F>(
      Element<principia::quantities::_quantities::Angle>(ω)));
  Mat const me = Norm(ω) == 0 ? Mat::Identity() : ref::Rodrigues(Norm(ω), ω);
  CheckMultivectors<F, F>(s, e, me, 3e-15L, "exponential");
  CheckMultivectors<F, F>(s, e * r, me * m, 8e-15L, "exp * active");
  CheckMultivectors<F, F>(s, e.Inverse(), Transpose(me), 3e-15L, "exp⁻¹");
}

void Quaternions(Src& s, Ctx& c) {
  std::array<Real, 4> a, b;
  double const sa = s.coin() ? 1 : s.log(1e-10, 1e10);
  double const sb = s.coin() ? 1 : s.log(1e-10, 1e10);
  for (int i = 0; i < 4; ++i) {
    a[i] = sa * s.sym(2);
    b[i] = sb * s.sym(2);
  }
  auto const make = [](std::array<Real, 4> const& a) {
    return Quaternion(static_cast<double>(a[0]),
                      Element<double>(Vec{a[1], a[2], a[3]}));
  };
  auto const norm2 = [](std::array<Real, 4> const& a) {
    return a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3];
  };
  auto const product = [](std::array<Real, 4> const& a,
                          std::array<Real, 4> const& b) {
    return std::array<Real, 4>{
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]};
  };
  auto const expect = [](Quaternion const& q, std::array<Real, 4> const& e,
                         Real const tolerance, std::string const& what) {
    Vec const v = Of(q.imaginary_part());
    Real const error = std::max({std::abs(q.real_part() - e[0]),
                                 std::abs(v[0] - e[1]), std::abs(v[1] - e[2]),
                                 std::abs(v[2] - e[3])});
    REQUIRE(error <= tolerance, what << ": " << q << " error " << error);
  };
  Quaternion const p = make(a);
  Quaternion const q = make(b);
  Real const na = std::sqrt(norm2(a));
  Real const nb = std::sqrt(norm2(b));
  c.note() << p << " " << q;
  if (na == 0 || nb == 0) return;
  c.nontrivial();
  auto const binary = [&](auto const& f) {
    std::array<Real, 4> r;
    for (int i = 0; i < 4; ++i) r[i] = f(a[i], b[i]);
    return r;
  };
  double const k = s.slog(1e-5, 1e5);
  expect(p + q, binary([](Real x, Real y) { return x + y; }),
         2e-16L * (na + nb), "+");
  expect(p - q, binary([](Real x, Real y) { return x - y; }),
         2e-16L * (na + nb), "-");
  expect(-p, binary([](Real x, Real y) { return -x; }), 0, "unary -");
  expect(+p, a, 0, "unary +");
  expect(p * q, product(a, b), 1e-15L * na * nb, "*");
  auto const scaled = binary([&](Real x, Real y) { return x * k; });
  expect(p * k, scaled, 2e-16L * na * std::abs(k), "* k");
  expect(k * p, scaled, 2e-16L * na * std::abs(k), "k *");
  auto const divided = binary([&](Real x, Real y) { return x / k; });
  expect(p / k, divided, 2e-16L * na / std::abs(k), "/ k");
  auto conjugate = b;
  for (int i = 1; i < 4; ++i) conjugate[i] = -b[i];
  expect(q.Conjugate(), conjugate, 0, "conjugate");
  auto inverse = conjugate;
  for (auto& x : inverse) x /= norm2(b);
  expect(q.Inverse(), inverse, 2e-15L / nb, "inverse");
  expect(p / q, product(a, inverse), 3e-15L * na / nb, "/");
  Quaternion r = p;
  r += q;
  REQUIRE(r == p + q, "+=");
  r = p;
  r -= q;
  REQUIRE(r == p - q, "-=");
  r = p;
  r *= q;
  REQUIRE(r == p * q, "*=");
  r = p;
  r /= q;
  REQUIRE(r == p / q, "/=");
  r = p;
  r *= k;
  REQUIRE(r == p * k, "*= k");
  r = p;
  r /= k;
  REQUIRE(r == p / k, "/= k");
  REQUIRE(std::abs(p.Norm() - na) <= 1e-15L * na, "Norm");
  REQUIRE(std::abs(p.Norm²() - na * na) <= 1e-15L * na * na, "Norm²");
  auto normalized = a;
  for (auto& x : normalized) x /= na;
  expect(Normalize(p), normalized, 1e-15L, "Normalize");
  principia::serialization::Quaternion message;
  p.WriteToMessage(&message);
  REQUIRE(Quaternion::ReadFromMessage(message) == p, "serialization");
}

void Matrices(Src& s, Ctx& c) {
  auto const some = [&] {
    Mat m;
    double const scale = s.coin() ? 1 : s.log(1e-5, 1e5);
    bool const integers = s.chance(1, 4);
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        m(i, j) = integers ? s.range(-2, 2) : scale * s.sym(1);
    return m;
  };
  auto const make = []<typename Q>(std::type_identity<Q>, Mat const& m) {
    return R3x3Matrix<Q>(Element<Q>(ref::Row(m, 0)), Element<Q>(ref::Row(m, 1)),
                         Element<Q>(ref::Row(m, 2)));
  };
  std::type_identity<Length> length;
  std::type_identity<double> scalar;
  Mat const a = some();
  Mat const b = some();
  c.note() << a << " " << b;
  Vec const v = SomeVector(s);
  Real const na = Frobenius(a);
  Real const nb = Frobenius(b);
  auto const m = make(length, a);
  auto const n = make(length, b);
  auto const d = make(scalar, b);
  double const k = s.slog(1e-5, 1e5);
  c.nontrivial(Det(a) != 0);
  constexpr Real ε = 2e-16L;
  ExpectMat(Of(m), a, 0, "entries");
  ExpectMat(Of(m + n), a + b, ε * (na + nb), "+");
  ExpectMat(Of(m - n), a + (-1) * b, ε * (na + nb), "-");
  ExpectMat(Of(-m), (-1) * a, 0, "unary -");
  ExpectMat(Of(+m), a, 0, "unary +");
  ExpectMat(Of(m * d), a * b, 6 * ε * na * nb, "*");
  ExpectMat(Of(k * m), k * a, ε * na * std::abs(k), "k *");
  ExpectMat(Of(m * k), k * a, ε * na * std::abs(k), "* k");
  ExpectMat(Of(m / k), (1 / static_cast<Real>(k)) * a, ε * na / std::abs(k),
            "/ k");
  ExpectMat(Of(m.Transpose()), Transpose(a), 0, "transpose");
  ExpectVec(Of(m * Element<double>(v)), a * v, 6 * ε * na * Norm(v), "m v");
  ExpectVec(Of(Element<double>(v) * m), Transpose(a) * v,
            6 * ε * na * Norm(v), "v m");
  REQUIRE(std::abs(m.Trace() / si::Metre - (a(0, 0) + a(1, 1) + a(2, 2))) <=
              4 * ε * na, "trace");
  REQUIRE(std::abs(m.Determinant() / si::Unit<Volume> - Det(a)) <=
              12 * ε * na * na * na, "determinant");
  REQUIRE(std::abs(m.FrobeniusNorm() / si::Metre - na) <= 4 * ε * na, "norm");
  ExpectVec(Of(m.row_x()), ref::Row(a, 0), 0, "row_x");
  ExpectVec(Of(m.row_y()), ref::Row(a, 1), 0, "row_y");
  ExpectVec(Of(m.row_z()), ref::Row(a, 2), 0, "row_z");
  {
    auto x = m;
    x += n;
    REQUIRE(x == m + n, "+=");
    x = m;
    x -= n;
    REQUIRE(x == m - n, "-=");
    x = m;
    x *= k;
    REQUIRE(x == m * k, "*= k");
    x = m;
    x /= k;
    REQUIRE(x == m / k, "/= k");
    auto y = d;
    y *= d;
    REQUIRE(y == d * d, "*=");
  }
  {
    auto const diagonal = R3x3Matrix<Length>::DiagonalMatrix(m.Diagonal());
    ExpectMat(Of(diagonal), Mat::Diagonal(a(0, 0), a(1, 1), a(2, 2)), 0,
              "diagonal");
    REQUIRE(diagonal.IsDiagonalMatrix(), "diagonal");
    bool is_diagonal = true;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) is_diagonal &= i == j || a(i, j) == 0;
    REQUIRE(m.IsDiagonalMatrix() == is_diagonal, "IsDiagonalMatrix");
    ExpectMat(Of(R3x3Matrix<double>::Identity()), Mat::Identity(), 0,
              "identity");
  }
  {
    Mat p;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) p(i, j) = v[i] * ref::Row(b, 0)[j];
    ExpectMat(Of(KroneckerProduct(Element<Length>(v),
                                  Element<double>(ref::Row(b, 0)))),
              p, ε * Norm(v) * nb, "Kronecker product");
  }
  // QR.
  {
    R3x3Matrix<double> q;
    R3x3Matrix<Length> r;
    bool const singular = std::abs(Det(a)) <= 1e-6L * na * na * na;
    if (!singular) {
      m.QRDecomposition(q, r);
      Mat const mq = Of(q);
      Mat const mr = Of(r);
      REQUIRE(mr(1, 0) == 0 && mr(2, 0) == 0 && mr(2, 1) == 0,
              "R is not upper triangular");
      ExpectMat(mq * Transpose(mq), Mat::Identity(),
                1e-14L * na * na * na / std::abs(Det(a)),
                "Q is not orthogonal");
      ExpectMat(mq * mr, a, 1e-14L * na, "QR");
      // Solve.
      Vec const rhs = SomeVector(s);
      Vec const x = Of(m.Solve(Element<Length>(rhs)));
      Real const condition = na * na * na / std::abs(Det(a));
      ExpectVec(a * x, rhs, 1e-14L * condition * Norm(rhs), "Solve");
    }
    c.label_if(singular, "ill-conditioned");
  }
  principia::serialization::R3x3Matrix message;
  m.WriteToMessage(&message);
  REQUIRE(R3x3Matrix<Length>::ReadFromMessage(message) == m, "serialization");
}

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"maps", "signatures, permutations, rotations by all constructors, "
        "orthogonal, conformal and affine maps made by conversions, products "
        "and inverses; all handednesses; non-trivial if not an identity",
        400000, 8000000, MapsProperty},
       {"active", "active rotations and exponentials; angle not 0",
        150000, 3000000, Active},
       {"quaternions", "pairs of quaternions other than 0", 150000, 2000000,
        Quaternions},
       {"matrices", "pairs of 3x3 matrices; non-trivial if invertible",
        150000, 2000000, Matrices}});
}
