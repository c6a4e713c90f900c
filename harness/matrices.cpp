// Matrices, their decompositions, lattices, nearest neighbours and attitude.

#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "base/multiprecision.hpp"
#include "base/not_null.hpp"
#include "base/tags.hpp"
#include "convert.hpp"
#include "fatal.hpp"
#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/rotation.hpp"
#include "geometry/space.hpp"
#include "linear.hpp"
#include "numerics/davenport_q_method.hpp"
#include "numerics/fixed_arrays.hpp"
#include "numerics/lattices.hpp"
#include "numerics/matrix_computations.hpp"
#include "numerics/matrix_views.hpp"
#include "numerics/nearest_neighbour.hpp"
#include "numerics/transposed_view.hpp"
#include "numerics/unbounded_arrays.hpp"
#include "pbt.hpp"
#include "quantities/named_quantities.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"

using convert::In;
using convert::Of;
using pbt::Ctx;
using pbt::Src;
using ref::Real;
using ref::Vec;
using namespace principia::base::_multiprecision;
using namespace principia::base::_not_null;
using namespace principia::base::_tags;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_space;
using namespace principia::numerics::_davenport_q_method;
using namespace principia::numerics::_fixed_arrays;
using namespace principia::numerics::_lattices;
using namespace principia::numerics::_matrix_computations;
using namespace principia::numerics::_matrix_views;
using namespace principia::numerics::_nearest_neighbour;
using namespace principia::numerics::_transposed_view;
using namespace principia::numerics::_unbounded_arrays;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
namespace si = principia::quantities::_si;

constexpr Real ε = 1.2e-16L;

using World = Frame<principia::serialization::Frame::TestTag,
                    Inertial,
                    Handedness::Right,
                    principia::serialization::Frame::TEST>;
using Other = Frame<principia::serialization::Frame::TestTag,
                    Inertial,
                    Handedness::Right,
                    principia::serialization::Frame::TEST1>;

// The model of a matrix.
struct Dense {
  int r = 0, c = 0;
  std::vector<Real> v;
  Dense(int const r, int const c) : r(r), c(c), v(r * c) {}
  Real& operator()(int const i, int const j) { return v[i * c + j]; }
  Real operator()(int const i, int const j) const { return v[i * c + j]; }
  bool operator==(Dense const&) const = default;
};
Dense operator*(Dense const& a, Dense const& b) {
  Dense x(a.r, b.c);
  for (int i = 0; i < a.r; ++i) {
    for (int j = 0; j < b.c; ++j) {
      for (int k = 0; k < a.c; ++k) x(i, j) += a(i, k) * b(k, j);
    }
  }
  return x;
}
Dense Combine(Dense a, Real const k, Dense const& b) {
  for (std::size_t i = 0; i < a.v.size(); ++i) a.v[i] += k * b.v[i];
  return a;
}
Dense Scale(Real const k, Dense a) {
  for (auto& x : a.v) x *= k;
  return a;
}
Dense Transposed(Dense const& a) {
  Dense x(a.c, a.r);
  for (int i = 0; i < a.r; ++i) {
    for (int j = 0; j < a.c; ++j) x(j, i) = a(i, j);
  }
  return x;
}
Real Frobenius(Dense const& a) {
  Real s = 0;
  for (Real const x : a.v) s += x * x;
  return std::sqrt(s);
}
Dense Absolute(Dense a) {
  for (auto& x : a.v) x = std::abs(x);
  return a;
}
Real Largest(Dense const& a) {
  Real m = 0;
  for (Real const x : a.v) m = std::max(m, std::abs(x));
  return m;
}
Dense IdentityMatrix(int const n) {
  Dense x(n, n);
  for (int i = 0; i < n; ++i) x(i, i) = 1;
  return x;
}
Dense Rounded(Dense a) {
  for (auto& x : a.v) x = static_cast<double>(x);
  return a;
}
std::ostream& operator<<(std::ostream& o, Dense const& a) {
  for (int i = 0; i < a.r; ++i) {
    o << (i == 0 ? "[" : "; ");
    for (int j = 0; j < a.c; ++j) o << (j == 0 ? "" : ",") << (double)a(i, j);
  }
  return o << "]";
}
// Inverse by Gauss-Jordan with full pivoting; the result is empty if singular.
Dense Inverted(Dense a) {
  int const n = a.r;
  Dense b = IdentityMatrix(n);
  std::vector<int> where(n);
  for (int k = 0; k < n; ++k) {
    int p = k;
    for (int i = k; i < n; ++i) {
      if (std::abs(a(i, k)) > std::abs(a(p, k))) p = i;
    }
    if (a(p, k) == 0) return Dense(0, 0);
    for (int j = 0; j < n; ++j) {
      std::swap(a(p, j), a(k, j));
      std::swap(b(p, j), b(k, j));
    }
    Real const d = a(k, k);
    for (int j = 0; j < n; ++j) a(k, j) /= d, b(k, j) /= d;
    for (int i = 0; i < n; ++i) {
      if (i == k) continue;
      Real const f = a(i, k);
      for (int j = 0; j < n; ++j) {
        a(i, j) -= f * a(k, j);
        b(i, j) -= f * b(k, j);
      }
    }
  }
  return b;
}
// Eigenvalues of a symmetric matrix, by cyclic Jacobi, in increasing order.
std::vector<Real> SymmetricEigenvalues(Dense a) {
  int const n = a.r;
  for (int sweep = 0; sweep < 60; ++sweep) {
    for (int p = 0; p < n; ++p) {
      for (int q = p + 1; q < n; ++q) {
        if (a(p, q) == 0) continue;
        Real const θ = (a(q, q) - a(p, p)) / (2 * a(p, q));
        Real const t = (θ >= 0 ? 1 : -1) /
                       (std::abs(θ) + std::sqrt(θ * θ + 1));
        Real const c = 1 / std::sqrt(t * t + 1), s = t * c;
        for (int k = 0; k < n; ++k) {
          Real const x = a(k, p), y = a(k, q);
          a(k, p) = c * x - s * y;
          a(k, q) = s * x + c * y;
        }
        for (int k = 0; k < n; ++k) {
          Real const x = a(p, k), y = a(q, k);
          a(p, k) = c * x - s * y;
          a(q, k) = s * x + c * y;
        }
      }
    }
  }
  std::vector<Real> λ;
  for (int i = 0; i < n; ++i) λ.push_back(a(i, i));
  std::sort(λ.begin(), λ.end());
  return λ;
}

Real SomeEntry(Src& s) {
  switch (s.below(6)) {
    case 0: return 0;
    case 1: return static_cast<Real>(s.range(-3, 3));
    case 2: return static_cast<double>(s.slog(1e-3, 1e3));
    default: return static_cast<double>(s.sym(2));
  }
}
Dense SomeMatrix(Src& s, int const r, int const c) {
  Dense x(r, c);
  for (auto& e : x.v) e = SomeEntry(s);
  return x;
}
Dense SomeSymmetric(Src& s, int const n) {
  Dense x(n, n);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j <= i; ++j) x(i, j) = x(j, i) = SomeEntry(s);
  }
  return x;
}
// A rotation or a reflection, in extended precision.
Dense SomeOrthogonal(Src& s, int const n) {
  Dense x = IdentityMatrix(n);
  for (int p = 0; p < n; ++p) {
    for (int q = p + 1; q < n; ++q) {
      Real const θ = s.chance(1, 4) ? (s.coin() ? 0 : ref::π / 2) : s.sym(3.2);
      Dense g = IdentityMatrix(n);
      g(p, p) = g(q, q) = std::cos(θ);
      g(p, q) = std::sin(θ);
      g(q, p) = -g(p, q);
      x = x * g;
    }
  }
  return x;
}

// Conversions.

template<typename M>
Dense ToDense(M const& m) {
  Dense x(m.rows(), m.columns());
  for (int i = 0; i < x.r; ++i) {
    for (int j = 0; j < x.c; ++j) x(i, j) = In(m(i, j));
  }
  return x;
}
template<typename V>
Dense ToColumn(V const& v) {
  Dense x(v.size(), 1);
  for (int i = 0; i < x.r; ++i) x(i, 0) = In(v[i]);
  return x;
}
template<typename M>
M NewMatrix(int const r, int const c) {
  if constexpr (requires { M::Identity(r, c); } ||
                requires { M(r, c); }) {
    return M(r, c);
  } else {
    return M();
  }
}
template<typename M>
M NewTriangle(int const n) {
  if constexpr (requires { M(std::int64_t{1}); }) {
    return M(static_cast<std::int64_t>(n));
  } else {
    return M();
  }
}
template<typename V>
V NewVector(int const n) {
  if constexpr (requires { V(std::int64_t{1}); }) {
    return V(static_cast<std::int64_t>(n));
  } else {
    return V();
  }
}
template<typename S>
S Scalar(Real const x) {
  return convert::Kind<S>::Make({x, 0, 0});
}
template<typename M>
M FromDense(Dense const& d) {
  M m = NewMatrix<M>(d.r, d.c);
  for (int i = 0; i < d.r; ++i) {
    for (int j = 0; j < d.c; ++j) {
      m(i, j) = Scalar<typename M::Scalar>(d(i, j));
    }
  }
  return m;
}
template<typename V>
V FromColumn(Dense const& d) {
  V m = NewVector<V>(d.r);
  for (int i = 0; i < d.r; ++i) m[i] = Scalar<typename V::Scalar>(d(i, 0));
  return m;
}
enum Shape { Lower, StrictlyLower, Upper, StrictlyUpper };
bool Inside(Shape const s, int const i, int const j) {
  return s == Lower ? i >= j : s == StrictlyLower ? i > j
         : s == Upper ? i <= j : i < j;
}
Dense Restrict(Shape const s, Dense d) {
  for (int i = 0; i < d.r; ++i) {
    for (int j = 0; j < d.c; ++j) {
      if (!Inside(s, i, j)) d(i, j) = 0;
    }
  }
  return d;
}
template<typename M>
M FromTriangle(Shape const s, Dense const& d) {
  M m = NewTriangle<M>(d.r);
  for (int i = 0; i < d.r; ++i) {
    for (int j = 0; j < d.c; ++j) {
      if (Inside(s, i, j)) m(i, j) = Scalar<typename M::Scalar>(d(i, j));
    }
  }
  return m;
}
template<typename M>
Dense TriangleToDense(Shape const s, M const& m) {
  Dense x(m.rows(), m.columns());
  for (int i = 0; i < x.r; ++i) {
    for (int j = 0; j < x.c; ++j) {
      if (Inside(s, i, j)) x(i, j) = In(m(i, j));
    }
  }
  return x;
}

void Same(Dense const& actual, Dense const& expected, Real const tolerance,
          char const* const what) {
  REQUIRE(actual.r == expected.r && actual.c == expected.c, what << ": shape " <<
          actual.r << "×" << actual.c << " not " << expected.r << "×" << expected.c);
  for (std::size_t i = 0; i < actual.v.size(); ++i) {
    REQUIRE(std::abs(actual.v[i] - expected.v[i]) <= tolerance, what << ": " <<
            actual << " not " << expected << " tolerance " << tolerance);
  }
}
void Near(Real const actual, Real const expected, Real const tolerance,
          char const* const what) {
  REQUIRE(std::abs(actual - expected) <= tolerance, what << ": " << actual << " not " <<
          expected << " tolerance " << tolerance);
}

// Arrays of fixed size.
template<int r, int c, int d, bool uh, bool vh>
void Fixed(Src& s, Ctx& ctx) {
  using A = FixedMatrix<Length, r, c, uh>;
  using A2 = FixedMatrix<Length, r, c, vh>;
  using B = FixedMatrix<double, c, d, vh>;
  using X = FixedVector<double, c, vh>;
  using Y = FixedVector<Length, r, uh>;
  Dense const a = SomeMatrix(s, r, c);
  Dense const a2 = SomeMatrix(s, r, c);
  Dense const b = SomeMatrix(s, c, d);
  Dense const x = SomeMatrix(s, c, 1);
  Dense const y = SomeMatrix(s, r, 1);
  Dense const y2 = SomeMatrix(s, r, 1);
  Real k = SomeEntry(s);
  if (k == 0) k = 3;
  double const kd = static_cast<double>(k);
  ctx.note() << a << a2 << b << x << y << y2 << (double)k;
  ctx.nontrivial(Largest(a) > 0 && Largest(b) > 0 && r * c > 1);
  A const A_ = FromDense<A>(a);
  A2 const A2_ = FromDense<A2>(a2);
  B const B_ = FromDense<B>(b);
  X const X_ = FromColumn<X>(x);
  Y const Y_ = FromColumn<Y>(y);
  FixedVector<Length, r, vh> const Y2_ =
      FromColumn<FixedVector<Length, r, vh>>(y2);
  Real const product = 4 * c * ε * Largest(a) * Largest(b);
  Same(ToDense(A_ * B_), a * b, product, "matrix × matrix");
  Same(ToColumn(A_ * X_), a * x, 4 * c * ε * Largest(a) * Largest(x),
       "matrix × vector");
  Same(ToColumn(TransposedView<A>{A_} * Y_),
       Transposed(a) * y, 4 * r * ε * Largest(a) * Largest(y),
       "transposed vector × matrix");
  Real const sum = ε * (Largest(a) + Largest(a2));
  Same(ToDense(A_ + A2_), Combine(a, 1, a2), sum, "+");
  Same(ToDense(A_ - A2_), Combine(a, -1, a2), sum, "-");
  Same(ToDense(-A_), Scale(-1, a), 0, "-");
  Same(ToDense(+A_), a, 0, "+");
  Same(ToDense(A_ * kd), Scale(k, a), ε * Largest(a) * std::abs(k), "* k");
  Same(ToDense(kd * A_), Scale(k, a), ε * Largest(a) * std::abs(k), "k *");
  Same(ToDense(A_ / kd), Scale(1 / k, a), ε * Largest(a) / std::abs(k), "/ k");
  {
    A z = A_;
    z += A2_;
    Same(ToDense(z), Combine(a, 1, a2), sum, "+=");
    z = A_;
    z -= A2_;
    Same(ToDense(z), Combine(a, -1, a2), sum, "-=");
    z = A2_;
    Same(ToDense(z), a2, 0, "=");
    z = A_;
    z *= kd;
    Same(ToDense(z), Scale(k, a), ε * Largest(a) * std::abs(k), "*=");
    z = A_;
    z /= kd;
    Same(ToDense(z), Scale(1 / k, a), ε * Largest(a) / std::abs(k), "/=");
    REQUIRE((A_ == A2_) == (a == a2) && A_ == A(A_), "equality");
    A w(std::move(z));
    Same(ToDense(w), Scale(1 / k, a), ε * Largest(a) / std::abs(k), "move");
    if constexpr (r == c) {
      auto const m = FromDense<FixedMatrix<double, r, r, vh>>(a2);
      A q = A_;
      q *= m;
      Same(ToDense(q), a * a2, 4 * c * ε * Largest(a) * Largest(a2), "*= M");
      Same(ToDense(FixedMatrix<double, r, r, uh>::Identity()),
           IdentityMatrix(r), 0, "Identity");
      auto p = m;
      p *= p;
      Same(ToDense(p), a2 * a2, 4 * c * ε * Largest(a2) * Largest(a2),
           "*= itself");
    }
    FixedMatrix<Length, c, r, uh> const t(TransposedView<A>{A_});
    Same(ToDense(t), Transposed(a), 0, "transposed");
  }
  Near(In(A_.FrobeniusNorm()), Frobenius(a), 4 * r * c * ε * Frobenius(a),
       "FrobeniusNorm");
  for (int i = 0; i < r; ++i) {
    for (int j = 0; j < c; ++j) REQUIRE(In(A_.row(i)[j]) == a(i, j), "row");
  }
  // Vectors.
  Real const vsum = ε * (Largest(y) + Largest(y2));
  Same(ToColumn(Y_ + Y2_), Combine(y, 1, y2), vsum, "v + v");
  Same(ToColumn(Y_ - Y2_), Combine(y, -1, y2), vsum, "v - v");
  Same(ToColumn(-Y_), Scale(-1, y), 0, "-v");
  Same(ToColumn(Y_ * kd), Scale(k, y), ε * Largest(y) * std::abs(k), "v * k");
  Same(ToColumn(kd * Y_), Scale(k, y), ε * Largest(y) * std::abs(k), "k * v");
  Same(ToColumn(Y_ / kd), Scale(1 / k, y), ε * Largest(y) / std::abs(k), "v/k");
  Real const dot = (Transposed(y) * y2)(0, 0);
  Real const dots = 4 * r * ε * Largest(y) * Largest(y2);
  Near(In(TransposedView{Y_} * Y2_), dot, dots, "dot");  // NOLINT
  Near(In(InnerProduct(Y_, Y2_)), dot, dots, "InnerProduct");
  Same(ToDense(Y_ * TransposedView<X>{X_}), y * Transposed(x),
       ε * Largest(y) * Largest(x), "outer product");
  Same(ToDense(SymmetricProduct(Y_, Y2_)),
       Scale(0.5L, Combine(y * Transposed(y2), 1, y2 * Transposed(y))),
       4 * ε * Largest(y) * Largest(y2), "SymmetricProduct");
  Same(ToDense(SymmetricSquare(Y_)), y * Transposed(y),
       4 * ε * Largest(y) * Largest(y), "SymmetricSquare");
  Near(In(Y_.Norm()), Frobenius(y), 4 * r * ε * Frobenius(y), "Norm");
  Near(In(Y_.Norm²()), Frobenius(y) * Frobenius(y),
       4 * r * ε * Frobenius(y) * Frobenius(y), "Norm²");
  if (Frobenius(y) > 0) {
    Same(ToColumn(Y_.Normalize()), Scale(1 / Frobenius(y), y), 4 * r * ε,
         "Normalize");
    Same(ToColumn(Normalize(Y_)), Scale(1 / Frobenius(y), y), 4 * r * ε,
         "Normalize");
  }
  // The bilinear form, (left, right) ↦ ᵗright A left or ᵗleft A right.
  if constexpr (r == c) {
    Real const form =
        In(A_(X_, FixedVector<double, r, uh>(FromColumn<
                  FixedVector<double, r, uh>>(y))));
    Real const expected = (Transposed(x) * a * y)(0, 0);
    Near(form, expected, 8 * r * c * ε * Largest(x) * Largest(a) * Largest(y),
         "bilinear form");
  }
  {
    Y z = Y_;
    z += Y2_;
    Same(ToColumn(z), Combine(y, 1, y2), vsum, "v +=");
    z = Y2_;
    Same(ToColumn(z), y2, 0, "v =");
    z -= Y_;
    Same(ToColumn(z), Combine(y2, -1, y), vsum, "v -=");
    z = Y_;
    z *= kd;
    z /= kd;
    Same(ToColumn(z), y, 2 * ε * Largest(y), "v *= /=");
    std::array<Length, r> const array = static_cast<std::array<Length, r>>(Y_);
    for (int i = 0; i < r; ++i) REQUIRE(array[i] == Y_[i], "array");
    REQUIRE((Y_ == Y2_) == (y == y2), "v ==");
    int i = 0;
    for (Length const& l : Y_) REQUIRE(In(l) == y(i++, 0), "iteration");
    REQUIRE(i == r, "iterations");
  }
  // Triangles.
  if constexpr (r == c) {
    using M = FixedMatrix<Length, r, r, uh>;
    auto const check = [&]<typename T>(Shape const shape, T const t) {
      Dense const expected = Restrict(shape, a);
      Same(TriangleToDense(shape, t), expected, 0, "triangle");
      Same(ToDense(static_cast<M>(t)), expected, 0, "triangle to matrix");
      T u = t;
      REQUIRE(u == t, "triangle ==");
      for (int i = 0; i < r; ++i) {
        for (int j = 0; j < r; ++j) {
          if (Inside(shape, i, j)) {
            u(i, j) += 1 * si::Metre;
            REQUIRE(!(u == t), "triangle !=");
            u = t;
          }
        }
      }
    };
    using FL = FixedLowerTriangularMatrix<Length, r, uh>;
    using FU = FixedUpperTriangularMatrix<Length, r, uh>;
    check(Lower, FromTriangle<FL>(Lower, a));
    check(Upper, FromTriangle<FU>(Upper, a));
    if constexpr (r > 1) {
      check(StrictlyLower,
            FromTriangle<FixedStrictlyLowerTriangularMatrix<Length, r, uh>>(
                StrictlyLower, a));
      check(StrictlyUpper,
            FromTriangle<FixedStrictlyUpperTriangularMatrix<Length, r, uh>>(
                StrictlyUpper, a));
    }
    FU const up = FromTriangle<FU>(Upper, a);
    FL const low = FromTriangle<FL>(Lower, a);
    check(Lower, FL(FromTriangle<FL>(Lower, a)));
    Same(TriangleToDense(Lower, FL(TransposedView<FU>{up})),
         Transposed(Restrict(Upper, a)), 0, "transposed upper");
    Same(TriangleToDense(Upper, FU(TransposedView<FL>{low})),
         Transposed(Restrict(Lower, a)), 0, "transposed lower");
  }
}

// Unbounded arrays, as histories of operations on a vector, a matrix and three
// triangles.
void Unbounded(Src& s, Ctx& ctx) {
  using V = UnboundedVector<Length>;
  using M = UnboundedMatrix<Length>;
  int const r = s.range(1, 6), c = s.range(1, 6), d = s.range(1, 6);
  Dense const a = SomeMatrix(s, r, c);
  Dense const a2 = SomeMatrix(s, r, c);
  Dense const b = SomeMatrix(s, c, d);
  Dense const x = SomeMatrix(s, c, 1);
  Real k = SomeEntry(s);
  if (k == 0) k = 3;
  double const kd = static_cast<double>(k);
  ctx.note() << a << a2 << b << x << (double)k;
  M const A_ = FromDense<M>(a);
  M const A2_ = FromDense<M>(a2);
  auto const B_ = FromDense<UnboundedMatrix<double>>(b);
  auto const X_ = FromColumn<UnboundedVector<double>>(x);
  Same(ToDense(A_ * B_), a * b, 4 * c * ε * Largest(a) * Largest(b), "M M");
  Same(ToColumn(A_ * X_), a * x, 4 * c * ε * Largest(a) * Largest(x), "M V");
  Same(ToColumn(FromColumn<UnboundedVector<double>>(x) * 1.0), x,
       0, "V 1");
  {
    Dense const y = SomeMatrix(s, r, 1);
    auto const Y_ = FromColumn<UnboundedVector<double>>(y);
    Same(ToColumn(TransposedView<M>{A_} * Y_), Transposed(a) * y,
         4 * r * ε * Largest(a) * Largest(y), "ᵗM V");
    if (c == 3) {
      Dense const f = SomeMatrix(s, 3, 2);
      Same(ToDense(A_ * FromDense<FixedMatrix<double, 3, 2>>(f)), a * f,
           12 * ε * Largest(a) * Largest(f), "M F");
    }
    if (r == 3) {
      Dense const f = SomeMatrix(s, 2, 3);
      Same(ToDense(FromDense<FixedMatrix<double, 2, 3>>(f) * A_), f * a,
           12 * ε * Largest(a) * Largest(f), "F M");
    }
  }
  Real const sum = ε * (Largest(a) + Largest(a2));
  Same(ToDense(A_ + A2_), Combine(a, 1, a2), sum, "+");
  Same(ToDense(A_ - A2_), Combine(a, -1, a2), sum, "-");
  Same(ToDense(-A_), Scale(-1, a), 0, "-");
  Same(ToDense(A_ * kd), Scale(k, a), ε * Largest(a) * std::abs(k), "* k");
  Same(ToDense(kd * A_), Scale(k, a), ε * Largest(a) * std::abs(k), "k *");
  Same(ToDense(A_ / kd), Scale(1 / k, a), ε * Largest(a) / std::abs(k), "/ k");
  M z = A_;
  z += A2_;
  Same(ToDense(z), Combine(a, 1, a2), sum, "+=");
  z = A_;
  z -= A2_;
  Same(ToDense(z), Combine(a, -1, a2), sum, "-=");
  z = A_;
  z *= kd;
  Same(ToDense(z), Scale(k, a), ε * Largest(a) * std::abs(k), "*=");
  z = A_;
  z /= kd;
  Same(ToDense(z), Scale(1 / k, a), ε * Largest(a) / std::abs(k), "/=");
  if (d == c) {
    z = A_;
    z *= B_;
    Same(ToDense(z), a * b, 4 * c * ε * Largest(a) * Largest(b), "*=");
  }
  REQUIRE((A_ == A2_) == (a == a2), "==");
  Same(ToDense(M(TransposedView<M>{A_})), Transposed(a), 0, "transposed");
  Near(In(A_.FrobeniusNorm()), Frobenius(a), 4 * r * c * ε * Frobenius(a),
       "FrobeniusNorm");
  if (r == c) {
    Dense const y = SomeMatrix(s, r, 1);
    auto const Y_ = FromColumn<UnboundedVector<double>>(y);
    Near(In(A_(X_, Y_)), (Transposed(x) * a * y)(0, 0),
         8 * r * c * ε * Largest(x) * Largest(a) * Largest(y), "form");
    Same(ToDense(UnboundedMatrix<double>::Identity(r, r)), IdentityMatrix(r),
         0, "Identity");
    Near(In(InnerProduct(X_, Y_)), (Transposed(x) * y)(0, 0),
         4 * r * ε * Largest(x) * Largest(y), "InnerProduct");
    Same(ToDense(X_ * TransposedView<UnboundedVector<double>>{Y_}),
         x * Transposed(y), ε * Largest(x) * Largest(y), "outer product");
  }
  // Histories.
  using L = UnboundedLowerTriangularMatrix<Length>;
  using U = UnboundedUpperTriangularMatrix<Length>;
  using SU = UnboundedStrictlyUpperTriangularMatrix<Length>;
  int n = s.range(1, 3);
  std::vector<Real> v;
  for (int i = 0; i < n; ++i) v.push_back(SomeEntry(s));
  auto const column = [](std::vector<Real> const& v) {
    Dense x(v.size(), 1);
    x.v = v;
    return x;
  };
  V V_ = FromColumn<V>(column(v));
  Dense l = SomeMatrix(s, n, n), u = SomeMatrix(s, n, n), su =
      SomeMatrix(s, n, n);
  L L_ = FromTriangle<L>(Lower, l);
  U U_ = FromTriangle<U>(Upper, u);
  SU S_ = FromTriangle<SU>(StrictlyUpper, su);
  auto const resize = [](Dense const& a, int const n) {
    Dense x(n, n);
    for (int i = 0; i < std::min(a.r, n); ++i) {
      for (int j = 0; j < std::min(a.r, n); ++j) x(i, j) = a(i, j);
    }
    return x;
  };
  int operations = 0;
  while (s.more(operations, 0, 6, 3)) {
    ++operations;
    int const m = n + s.range(0, 3);
    switch (s.below(4)) {
      case 0: {  // Zeroes.
        ctx.note() << " zeroes to " << m;
        V_.Extend(m - n);
        L_.Extend(m - n);
        U_.Extend(m - n);
        S_.Extend(m - n);
        v.resize(m);
        for (Dense* const p : {&l, &u, &su}) {
          Dense q = resize(*p, m);
          *p = q;
        }
        n = m;
        break;
      }
      case 1: {  // Uninitialized, followed by assignment.
        ctx.note() << " uninitialized to " << m;
        V_.Extend(m - n, uninitialized);
        L_.Extend(m - n, uninitialized);
        U_.Extend(m - n, uninitialized);
        S_.Extend(m - n, uninitialized);
        v.resize(m);
        l = resize(l, m), u = resize(u, m), su = resize(su, m);
        for (int i = 0; i < m; ++i) {
          if (i >= n) V_[i] = (v[i] = i) * si::Metre;
          for (int j = 0; j < m; ++j) {
            if (i < n && j < n) continue;
            if (i >= j) L_(i, j) = (double)(l(i, j) = SomeEntry(s)) * si::Metre;
            if (i <= j) U_(i, j) = (double)(u(i, j) = SomeEntry(s)) * si::Metre;
            if (i < j) {
              S_(i, j) = (double)(su(i, j) = SomeEntry(s)) * si::Metre;
            }
          }
        }
        n = m;
        break;
      }
      case 2: {  // Lists, by rows of the part that is added.
        if (n > 4) break;
        ctx.note() << " list";
        auto const e = [&] { return (double)SomeEntry(s) * si::Metre; };
        v.resize(n + 1);
        l = resize(l, n + 1), u = resize(u, n + 1), su = resize(su, n + 1);
        Length const p[6] = {e(), e(), e(), e(), e(), e()};
        V_.Extend({p[0]});
        v[n] = In(p[0]);
        switch (n) {
          case 0:
            L_.Extend({p[0]});
            U_.Extend({p[0]});
            break;
          case 1:
            L_.Extend({p[0], p[1]});
            U_.Extend({p[0], p[1]});
            S_.Extend({p[0]});
            break;
          case 2:
            L_.Extend({p[0], p[1], p[2]});
            U_.Extend({p[0], p[1], p[2]});
            S_.Extend({p[0], p[1]});
            break;
          case 3:
            L_.Extend({p[0], p[1], p[2], p[3]});
            U_.Extend({p[0], p[1], p[2], p[3]});
            S_.Extend({p[0], p[1], p[2]});
            break;
          default:
            L_.Extend({p[0], p[1], p[2], p[3], p[4]});
            U_.Extend({p[0], p[1], p[2], p[3], p[4]});
            S_.Extend({p[0], p[1], p[2], p[3]});
        }
        for (int i = 0; i <= n; ++i) {
          l(n, i) = In(p[i]);
          u(i, n) = In(p[i]);
          if (i < n) su(i, n) = In(p[i]);
        }
        ++n;
        break;
      }
      case 3: {
        int const e = s.range(1, n);
        ctx.note() << " erase from " << e;
        V_.EraseToEnd(e);
        L_.EraseToEnd(e);
        U_.EraseToEnd(e);
        S_.EraseToEnd(e);
        v.resize(e);
        l = resize(l, e), u = resize(u, e), su = resize(su, e);
        n = e;
        break;
      }
    }
    Same(ToColumn(V_), column(v), 0, "vector");
    Same(TriangleToDense(Lower, L_), Restrict(Lower, l), 0, "lower");
    Same(TriangleToDense(Upper, U_), Restrict(Upper, u), 0, "upper");
    Same(TriangleToDense(StrictlyUpper, S_), Restrict(StrictlyUpper, su), 0,
         "strictly upper");
    Same(ToDense(static_cast<M>(L_)), Restrict(Lower, l), 0, "lower to M");
    Same(ToDense(static_cast<M>(U_)), Restrict(Upper, u), 0, "upper to M");
    Same(ToDense(static_cast<M>(S_)), Restrict(StrictlyUpper, su), 0,
         "strictly upper to M");
    Same(TriangleToDense(Lower, L(TransposedView<U>{U_})),
         Transposed(Restrict(Upper, u)), 0, "transposed upper");
    Same(TriangleToDense(Upper, U(TransposedView<L>{L_})),
         Transposed(Restrict(Lower, l)), 0, "transposed lower");
    REQUIRE(L_ == L(L_) && U_ == FromTriangle<U>(Upper, u), "==");
  }
  Dense const cv = column(v);
  Near(In(V_.Norm()), Frobenius(cv), 4 * n * ε * Frobenius(cv), "Norm");
  if (Frobenius(cv) > 0) {
    Same(ToColumn(V_.Normalize()), Scale(1 / Frobenius(cv), cv), 4 * n * ε,
         "Normalize");
  }
  V w = V_;
  w += V_;
  w -= 3 * V_;
  Same(ToColumn(w), Scale(-1, cv), 4 * ε * Largest(cv), "combination");
  ctx.nontrivial(r * c > 1 && operations > 1);
}

// Views.
template<typename M>
void Views(Src& s, Ctx& ctx, int const r, int const c) {
  using Scalar = typename M::Scalar;
  Dense a = SomeMatrix(s, r, c);
  M A_ = FromDense<M>(a);
  ctx.note() << a;
  int operations = 0;
  while (s.more(operations, 1, 6, 3)) {
    ++operations;
    int const r0 = s.range(0, r - 1), r1 = s.range(r0, r - 1);
    int const c0 = s.range(0, c - 1), c1 = s.range(c0, c - 1);
    ctx.note() << " [" << r0 << "-" << r1 << ", " << c0 << "-" << c1 << "]";
    BlockView<M> block{.matrix = A_, .first_row = r0, .last_row = r1,
                       .first_column = c0, .last_column = c1};
    ColumnView<M> column{.matrix = A_, .first_row = r0, .last_row = r1,
                         .column = c0};
    int const h = r1 - r0 + 1, w = c1 - c0 + 1;
    REQUIRE(block.rows() == h && block.columns() == w && column.size() == h,
            "size");
    Real norm2 = 0, dot = 0, big = 0;
    int const other = s.range(0, c - 1);
    for (int i = 0; i < h; ++i) {
      REQUIRE(In(column[i]) == a(r0 + i, c0), "column element");
      norm2 += a(r0 + i, c0) * a(r0 + i, c0);
      dot += a(r0 + i, c0) * a(r0 + i, other);
      big += std::abs(a(r0 + i, c0) * a(r0 + i, other));
      for (int j = 0; j < w; ++j) {
        REQUIRE(In(block(i, j)) == a(r0 + i, c0 + j), "block element");
      }
    }
    ColumnView<M> const column2{.matrix = A_, .first_row = r0, .last_row = r1,
                                .column = other};
    Near(In(column.Norm()), std::sqrt(norm2), 4 * h * ε * std::sqrt(norm2),
         "column norm");
    Near(In(column.Norm²()), norm2, 4 * h * ε * norm2, "column norm²");
    Near(In(TransposedView{column} * column2), dot, 4 * h * ε * big,  // NOLINT
         "column product");
    REQUIRE(ToColumn(UnboundedVector<Scalar>(column)).r == h, "vector");
    Same(ToColumn(UnboundedVector<Scalar>(column)), [&] {
           Dense x(h, 1);
           for (int i = 0; i < h; ++i) x(i, 0) = a(r0 + i, c0);
           return x;
         }(), 0, "vector of column");
    Dense const e = SomeMatrix(s, h, w);
    auto const E = FromDense<UnboundedMatrix<Scalar>>(e);
    Dense e1(h, 1);
    for (int i = 0; i < h; ++i) e1(i, 0) = e(i, 0);
    auto const E1 = FromColumn<UnboundedVector<Scalar>>(e1);
    // Products.
    {
      Dense sub(h, w);
      for (int i = 0; i < h; ++i) {
        for (int j = 0; j < w; ++j) sub(i, j) = a(r0 + i, c0 + j);
      }
      Dense const x = SomeMatrix(s, w, 1), y = SomeMatrix(s, h, 1);
      Same(ToColumn(block * FromColumn<UnboundedVector<double>>(x)), sub * x,
           4 * w * ε * Largest(sub) * Largest(x), "block × vector");
      Same(ToColumn(TransposedView<BlockView<M>>{block} *  // NOLINT
                    FromColumn<UnboundedVector<double>>(y)),
           Transposed(sub) * y, 4 * h * ε * Largest(sub) * Largest(y),
           "transposed block × vector");
    }
    double const k = s.coin() ? -2 : 0.25;
    int const which = s.below(11);
    ctx.note() << " op " << which << " " << e;
    bool const on_column = which < 5;
    switch (which) {
      case 0: column = E1; break;
      case 1: column += E1; break;
      case 2: column -= E1; break;
      case 3: column *= k; break;
      case 4: column /= k; break;
      case 5: block = E; break;
      case 6: block += E; break;
      case 7: block -= E; break;
      case 8: block *= k; break;
      case 9: block /= k; break;
      case 10: {
        ColumnView<M> left = column;
        ColumnView<M> right = column2;
        if (other != c0) {
          SwapColumns(left, right);
          for (int i = r0; i <= r1; ++i) std::swap(a(i, c0), a(i, other));
        }
        break;
      }
    }
    if (which < 10) {
      for (int i = 0; i < h; ++i) {
        for (int j = 0; j < (on_column ? 1 : w); ++j) {
          Real& x = a(r0 + i, c0 + j);
          switch (which % 5) {
            case 0: x = e(i, j); break;
            case 1: x = static_cast<double>(x + e(i, j)); break;
            case 2: x = static_cast<double>(x - e(i, j)); break;
            case 3: x *= k; break;
            case 4: x /= k; break;
          }
        }
      }
    }
    Same(ToDense(A_), a, 2 * ε * Largest(a), "matrix after the operation");
    // Avoid double rounding.
    a = ToDense(A_);
    auto const b1 = UnboundedVector<Scalar>(column);
    REQUIRE(column == b1 && b1 == column, "column equality");
    UnboundedMatrix<Scalar> b(h, w);
    for (int i = 0; i < h; ++i) {
      for (int j = 0; j < w; ++j) b(i, j) = block(i, j);
    }
    REQUIRE(block == b && b == block, "block equality");
    b(h - 1, w - 1) += 1 * si::Unit<Scalar>;
    REQUIRE(block != b && b != block, "block inequality");
  }
  ctx.nontrivial(operations > 1 && r > 1 && c > 1);
}
void AllViews(Src& s, Ctx& ctx) {
  switch (s.below(4)) {
    case 0: return Views<FixedMatrix<Length, 4, 3>>(s, ctx, 4, 3);
    case 1: return Views<FixedMatrix<double, 2, 5>>(s, ctx, 2, 5);
    case 2: return Views<FixedMatrix<double, 1, 1>>(s, ctx, 1, 1);
    default: {
      int const r = s.range(1, 6), c = s.range(1, 6);
      return Views<UnboundedMatrix<Length>>(s, ctx, r, c);
    }
  }
}

// Decompositions.  `M` is a template of types indexed by the scalars.
template<int n_>
struct FixedArrays {
  template<typename S> using Matrix = FixedMatrix<S, n_, n_>;
  template<typename S> using Vector = FixedVector<S, n_>;
  template<typename S> using Upper = FixedUpperTriangularMatrix<S, n_>;
  template<typename S> using Lower = FixedLowerTriangularMatrix<S, n_>;
};
struct UnboundedArrays {
  template<typename S> using Matrix = UnboundedMatrix<S>;
  template<typename S> using Vector = UnboundedVector<S>;
  template<typename S> using Upper = UnboundedUpperTriangularMatrix<S>;
  template<typename S> using Lower = UnboundedLowerTriangularMatrix<S>;
};

bool Finite(Dense const& a) {
  for (Real const x : a.v) if (!std::isfinite(x)) return false;
  return true;
}

// An upper triangular matrix which is not too badly conditioned.
Dense SomeUpper(Src& s, int const n) {
  Dense r(n, n);
  for (int i = 0; i < n; ++i) {
    for (int j = i; j < n; ++j) {
      r(i, j) = i == j ? s.log(0.5, 3) : static_cast<Real>(s.sym(1));
    }
  }
  return r;
}

template<typename A>
void Factorizations(Src& s, Ctx& ctx, int const n) {
  Real const unit = s.coin() ? 1 : s.log(1e-10, 1e10);
  ctx.nontrivial(n > 1);
  switch (s.below(4)) {
    case 0: {
      Dense const r0 = SomeUpper(s, n);
      Dense const a = Rounded(Scale(unit, Transposed(r0) * r0));
      ctx.note() << "Cholesky " << a;
      using U = typename A::template Upper<Area>;
      auto const R = CholeskyDecomposition(FromTriangle<U>(Upper, a));
      Dense const r = TriangleToDense(Upper, R);
      REQUIRE(Finite(r), "finite");
      Dense const p = Transposed(r) * r;
      for (int i = 0; i < n; ++i) {
        REQUIRE(r(i, i) > 0, "diagonal");
        for (int j = i; j < n; ++j) {
          Near(p(i, j), a(i, j), 4 * (n + 1) * ε * std::sqrt(a(i, i) * a(j, j)),
               "ᵗR R");
        }
      }
      break;
    }
    case 1: {
      Dense r0 = SomeUpper(s, n);
      Dense d0(n, n);
      for (int i = 0; i < n; ++i) {
        r0(i, i) = 1;
        d0(i, i) = s.slog(0.3, 3);
      }
      Dense const a = Rounded(Scale(unit, Transposed(r0) * d0 * r0));
      ctx.note() << "ᵗRDR " << a;
      using U = typename A::template Upper<Area>;
      using V = typename A::template Vector<Area>;
      auto const result = ᵗRDRDecomposition<V>(FromTriangle<U>(Upper, a));
      Dense const r = TriangleToDense(Upper, result.R);
      Dense const dv = ToColumn(result.D);
      Dense d(n, n);
      for (int i = 0; i < n; ++i) d(i, i) = dv(i, 0);
      REQUIRE(Finite(r) && Finite(d), "finite");
      Dense const p = Transposed(r) * d * r;
      Dense const m = Transposed(Absolute(r)) * Absolute(d) * Absolute(r);
      for (int i = 0; i < n; ++i) {
        REQUIRE(r(i, i) == 1, "unit diagonal");
        for (int j = i; j < n; ++j) {
          Near(p(i, j), a(i, j), 4 * (n + 1) * ε * m(i, j), "ᵗR D R");
        }
      }
      break;
    }
    case 2: {
      Dense a = SomeMatrix(s, n, n);
      for (int i = 0; i < n; ++i) a(i, i) = s.slog(0.1, 10);
      Dense const b = SomeMatrix(s, n, 1);
      bool const upper = s.coin();
      Dense const t = Restrict(upper ? Upper : Lower, a);
      ctx.note() << "substitution " << t << b;
      using V = typename A::template Vector<Area>;
      auto const B = FromColumn<V>(b);
      Dense const x = ToColumn(
          upper
              ? BackSubstitution(
                    FromTriangle<typename A::template Upper<Length>>(Upper, t),
                    B)
              : ForwardSubstitution(
                    FromTriangle<typename A::template Lower<Length>>(Lower, t),
                    B));
      REQUIRE(Finite(x), "finite");
      Dense const e = Combine(t * x, -1, b);
      Dense const m = Absolute(t) * Absolute(x);
      for (int i = 0; i < n; ++i) {
        Near(e(i, 0), 0, 4 * (n + 1) * ε * (m(i, 0) + std::abs(b(i, 0))),
             "substitution");
      }
      break;
    }
    case 3: {
      // Well-conditioned, but requiring pivots.
      Dense a = SomeOrthogonal(s, n) * SomeUpper(s, n);
      if (s.chance(1, 3)) {
        a = Dense(n, n);
        std::vector<int> p(n);
        for (int i = 0; i < n; ++i) p[i] = i;
        for (int i = 0; i < n; ++i) std::swap(p[i], p[s.range(i, n - 1)]);
        for (int i = 0; i < n; ++i) {
          a(i, p[i]) = s.slog(0.5, 2);
          if (s.coin()) a(i, s.below(n)) += s.range(-1, 1);
        }
      }
      a = Rounded(Scale(unit, a));
      Dense const inverse = Inverted(a);
      if (inverse.r == 0 || Frobenius(inverse) * Frobenius(a) > 1e5) {
        throw pbt::Discard{};
      }
      Dense const b = SomeMatrix(s, n, 1);
      ctx.note() << "Solve " << a << b;
      Dense const x = ToColumn(
          Solve(FromDense<typename A::template Matrix<Length>>(a),
                FromColumn<typename A::template Vector<Area>>(b)));
      REQUIRE(Finite(x), "finite");
      Same(a * x, b, 100 * n * ε * Frobenius(a) * Frobenius(x), "solution");
      break;
    }
  }
}

template<typename A>
void Orthogonalizations(Src& s, Ctx& ctx, int const n) {
  Dense a = SomeMatrix(s, n, n);
  if (s.coin()) a = Rounded(SomeOrthogonal(s, n) * SomeUpper(s, n));
  ctx.note() << a;
  ctx.nontrivial(n > 1);
  Dense const inverse = Inverted(a);
  if (inverse.r == 0) throw pbt::Discard{};
  Real const κ = Frobenius(inverse) * Frobenius(a);
  if (!(κ < 1e5)) throw pbt::Discard{};
  auto const A_ = FromDense<typename A::template Matrix<Length>>(a);
  {
    auto const [Q, R] = ClassicalGramSchmidt(A_);
    Dense const q = ToDense(Q), r = TriangleToDense(Upper, R);
    Same(q * r, a, 8 * n * ε * Largest(a), "Q R");
    Same(Transposed(q) * q, IdentityMatrix(n), 30 * n * κ * κ * ε, "ᵗQ Q");
    for (int i = 0; i < n; ++i) REQUIRE(r(i, i) > 0, "positive diagonal");
  }
  {
    auto const [Q, R] = UnitriangularGramSchmidt(A_);
    Dense const q = ToDense(Q), r = TriangleToDense(Upper, R);
    for (int i = 0; i < n; ++i) REQUIRE(r(i, i) == 1, "unit diagonal");
    Dense const m = Absolute(q) * Absolute(r), p = q * r;
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < n; ++j) {
        Near(p(i, j), a(i, j), 8 * n * ε * m(i, j), "unitriangular Q R");
      }
    }
    Dense const g = Transposed(q) * q;
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < i; ++j) {
        Near(g(i, j), 0, 30 * n * κ * κ * ε * std::sqrt(g(i, i) * g(j, j)),
             "orthogonality");
      }
    }
  }
}

// The traces of the powers of the matrix determine its eigenvalues.
void SameEigenvalues(Dense const& a, Dense const& b, Real const tolerance) {
  Dense p = a, q = b;
  Real const f = Frobenius(a);
  Real scale = f;
  for (int k = 1; k <= a.r; ++k) {
    Real t = 0, u = 0;
    for (int i = 0; i < a.r; ++i) t += p(i, i), u += q(i, i);
    REQUIRE(std::abs(t - u) <= tolerance * k * scale * a.r, "trace of power " <<
            k << ": " << u << " not " << t << " " << b);
    p = p * a;
    q = q * b;
    scale *= f;
  }
}

template<typename A>
void Eigenvalues(Src& s, Ctx& ctx, int const n) {
  // A matrix with known eigenvalues.
  std::vector<Real> real;
  Dense d(n, n);
  int i = 0;
  while (i < n) {
    if (i + 1 < n && s.chance(1, 3)) {
      Real const re = s.sym(3), im = s.slog(0.5, 3);
      d(i, i) = d(i + 1, i + 1) = re;
      d(i, i + 1) = im;
      d(i + 1, i) = -im;
      i += 2;
    } else {
      Real const λ = s.chance(1, 4) ? s.range(-3, 3) : s.sym(5);
      real.push_back(λ);
      d(i, i) = λ;
      ++i;
    }
  }
  bool separated = true;
  for (std::size_t i = 0; i < real.size(); ++i) {
    for (std::size_t j = 0; j < i; ++j) {
      separated &= std::abs(real[i] - real[j]) > 0.2L;
    }
  }
  bool const symmetric = s.chance(1, 4);
  Dense p = SomeOrthogonal(s, n);
  if (!symmetric) p = p * SomeUpper(s, n);
  Dense const inverse = Inverted(p);
  Real const κ = Frobenius(p) * Frobenius(inverse);
  if (κ > 1e3) throw pbt::Discard{};
  Dense const a = Rounded(p * d * inverse);
  ctx.note() << a;
  ctx.nontrivial(n > 2 && !real.empty());
  using M = typename A::template Matrix<double>;
  M const A_ = FromDense<M>(a);
  Real const f = Frobenius(a);
  Dense const h = ToDense(HessenbergDecomposition(A_).H);
  REQUIRE(Finite(h), "finite");
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j + 1 < i; ++j) {
      Near(h(i, j), 0, 30 * n * ε * f, "Hessenberg");
    }
  }
  Near(Frobenius(h), f, 30 * n * ε * f, "norm of H");
  SameEigenvalues(a, h, 30 * n * ε);
  auto const schur = RealSchurDecomposition(A_, 1e-15);
  Dense const t = ToDense(schur.T);
  REQUIRE(Finite(t), "finite");
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < i; ++j) {
      if (j + 1 < i) Near(t(i, j), 0, 100 * n * ε * f, "quasi-triangular");
    }
  }
  for (int i = 0; i + 2 < n; ++i) {
    REQUIRE(std::abs(t(i + 1, i)) <= 100 * n * ε * f ||
                std::abs(t(i + 2, i + 1)) <= 100 * n * ε * f,
            "blocks of size at most 2: " << t);
  }
  Near(Frobenius(t), f, 100 * n * ε * f, "norm of T");
  SameEigenvalues(a, t, 100 * n * ε);
  if (separated) {
    REQUIRE(schur.real_eigenvalues.size() == real.size(), "found " <<
            schur.real_eigenvalues.size() << " real eigenvalues, not " <<
            real.size() << " " << t);
    std::sort(real.begin(), real.end());
    auto it = real.begin();
    for (double const λ : schur.real_eigenvalues) {
      Near(λ, *it++, 1000 * n * n * κ * ε * f, "real eigenvalue");
    }
  }
}

template<typename A>
void Symmetric(Src& s, Ctx& ctx, int const n) {
  // With multiple eigenvalues.
  std::vector<Real> λ;
  for (int i = 0; i < n; ++i) {
    λ.push_back(i > 0 && s.chance(1, 4) ? λ[s.below(i)]
                : s.chance(1, 4)        ? s.range(-2, 2)
                                        : s.sym(4));
  }
  Dense d(n, n);
  for (int i = 0; i < n; ++i) d(i, i) = λ[i];
  Dense const o = SomeOrthogonal(s, n);
  Real const unit = s.coin() ? 1 : s.log(1e-10, 1e10);
  Dense a = Rounded(Scale(unit, o * d * Transposed(o)));
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < i; ++j) a(i, j) = a(j, i);
  }
  if (s.chance(1, 4)) a = SomeSymmetric(s, n);
  ctx.note() << a;
  ctx.nontrivial(n > 1);
  Real const f = Frobenius(a);
  using M = typename A::template Matrix<
      std::conditional_t<std::is_same_v<A, UnboundedArrays>, double, Length>>;
  M const A_ = FromDense<M>(a);
  std::vector<Real> const expected = SymmetricEigenvalues(a);
  bool const many = n > 3 || s.coin();
  auto const jacobi = many ? ClassicalJacobi(A_, 6 * n * n) : ClassicalJacobi(A_);
  Dense const v = ToDense(jacobi.rotation);
  Dense l(n, n);
  std::vector<Real> actual;
  for (int i = 0; i < n; ++i) {
    l(i, i) = In(jacobi.eigenvalues[i]);
    actual.push_back(l(i, i));
  }
  REQUIRE(Finite(v) && Finite(l), "finite");
  Same(Transposed(v) * v, IdentityMatrix(n), 3000 * ε, "ᵗV V");
  Same(a * v, v * l, 100 * n * ε * f, "A V = V Λ");
  std::sort(actual.begin(), actual.end());
  for (int i = 0; i < n; ++i) {
    Near(actual[i], expected[i], 100 * n * ε * f, "eigenvalue");
  }
  // Rayleigh.
  using V = typename A::template Vector<double>;
  Dense const x = SomeMatrix(s, n, 1);
  if (Frobenius(x) > 0) {
    Near(In(RayleighQuotient(A_, FromColumn<V>(x))),
         (Transposed(x) * a * x)(0, 0) / (Transposed(x) * x)(0, 0),
         20 * n * n * ε * f, "RayleighQuotient");
  }
}

template<typename A>
void Iterations(Src& s, Ctx& ctx, int const n) {
  std::vector<Real> λ;
  for (int i = 0; i < n; ++i) {
    λ.push_back(s.chance(1, 4) ? s.range(-4, 4) : s.sym(4));
    for (int j = 0; j < i; ++j) {
      if (std::abs(λ[i] - λ[j]) < 0.5L) throw pbt::Discard{};
    }
  }
  Dense d(n, n);
  for (int i = 0; i < n; ++i) d(i, i) = λ[i];
  Dense const o = s.chance(1, 5) ? IdentityMatrix(n) : SomeOrthogonal(s, n);
  Real const unit = s.coin() ? 1 : s.log(1e-5, 1e5);
  Dense a = Rounded(Scale(unit, o * d * Transposed(o)));
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < i; ++j) a(i, j) = a(j, i);
  }
  int const k = s.below(n);
  Real const δ = s.chance(1, 4) ? 0 : s.log(1e-12, 0.02);
  Dense x(n, 1);
  for (int i = 0; i < n; ++i) {
    x(i, 0) = o(i, k);
    for (int j = 0; j < n; ++j) {
      if (j != k) x(i, 0) += δ * (s.coin() ? 1 : -1) * o(i, j) / n;
    }
  }
  x = Rounded(Scale(s.slog(0.1, 10), x));
  ctx.note() << a << x;
  ctx.nontrivial(δ > 0 && n > 1);
  using M = typename A::template Matrix<double>;
  using V = typename A::template Vector<double>;
  auto const result =
      RayleighQuotientIteration(FromDense<M>(a), FromColumn<V>(x));
  Dense const v = ToColumn(result.eigenvector);
  Real const f = std::max(Frobenius(a), unit);
  Near(result.eigenvalue, unit * λ[k], 100 * n * ε * f, "eigenvalue");
  Real c = 0;
  for (int i = 0; i < n; ++i) c += v(i, 0) * o(i, k);
  REQUIRE(std::isfinite(c), "finite");
  Same(Scale(c > 0 ? 1 : -1, v), [&] {
         Dense x(n, 1);
         for (int i = 0; i < n; ++i) x(i, 0) = o(i, k);
         return x;
       }(), 1000 * n * ε + 10 * ε / std::min<Real>(unit, 1), "eigenvector");
}

template<template<typename> typename F>
void Any(Src& s, Ctx& ctx);
#define FOR_ARRAYS(F)                                       \
  [](Src& s, Ctx& ctx) {                                    \
    switch (s.below(7)) {                                   \
      case 0: return F<FixedArrays<1>>(s, ctx, 1);          \
      case 1: return F<FixedArrays<2>>(s, ctx, 2);          \
      case 2: return F<FixedArrays<3>>(s, ctx, 3);          \
      case 3: return F<FixedArrays<4>>(s, ctx, 4);          \
      case 4: return F<FixedArrays<5>>(s, ctx, 5);          \
      default: {                                            \
        int const n = s.range(1, 8);                        \
        return F<UnboundedArrays>(s, ctx, n);               \
      }                                                     \
    }                                                       \
  }

// Exact orthogonalization.
using Exact = std::vector<std::vector<cpp_rational>>;  // Columns.
template<int r, int c>
void ExactGramSchmidt(Src& s, Ctx& ctx) {
  FixedMatrix<cpp_rational, r, c> m;
  for (int j = 0; j < c; ++j) {
    bool const dependent = j > 0 && s.chance(1, 4);
    int const from = dependent ? s.below(j) : 0;
    for (int i = 0; i < r; ++i) {
      m(i, j) = dependent ? cpp_rational(m(i, from) * s.range(-2, 2))
                          : cpp_rational(s.range(-9, 9), s.range(1, 5));
      ctx.note() << m(i, j) << (i + 1 < r ? "," : ";");
    }
  }
  ctx.nontrivial(true);
  auto const [Q, R] = UnitriangularGramSchmidt(m);
  for (int i = 0; i < r; ++i) {
    for (int j = 0; j < c; ++j) {
      cpp_rational sum = 0;
      for (int k = 0; k <= j; ++k) sum += Q(i, k) * R(k, j);
      REQUIRE(sum == m(i, j), "exact Q R");
    }
  }
  for (int i = 0; i < c; ++i) {
    REQUIRE(R(i, i) == 1, "unit diagonal");
    for (int j = 0; j < i; ++j) {
      cpp_rational dot = 0;
      for (int k = 0; k < r; ++k) dot += Q(k, i) * Q(k, j);
      REQUIRE(dot == 0, "exact orthogonality");
    }
  }
}

// Lattices.

using Lattice = std::vector<std::vector<cpp_int>>;  // Rows are vectors.

// The Hermite normal form, without the null rows.
Lattice HermiteForm(Lattice b) {
  std::size_t row = 0;
  std::size_t const n = b[0].size();
  for (std::size_t col = 0; col < n && row < b.size(); ++col) {
    for (;;) {
      std::size_t best = b.size();
      int count = 0;
      for (std::size_t i = row; i < b.size(); ++i) {
        if (b[i][col] == 0) continue;
        ++count;
        if (best == b.size() || abs(b[i][col]) < abs(b[best][col])) best = i;
      }
      if (count == 0) break;
      std::swap(b[row], b[best]);
      if (b[row][col] < 0) for (auto& x : b[row]) x = -x;
      for (std::size_t i = row + 1; i < b.size(); ++i) {
        cpp_int const q = b[i][col] / b[row][col];
        for (std::size_t k = 0; k < n; ++k) b[i][k] -= q * b[row][k];
      }
      if (count == 1) {
        for (std::size_t i = 0; i < row; ++i) {
          cpp_int q = b[i][col] / b[row][col];
          if (b[i][col] - q * b[row][col] < 0) --q;
          for (std::size_t k = 0; k < n; ++k) b[i][k] -= q * b[row][k];
        }
        ++row;
        break;
      }
    }
  }
  b.resize(row);
  return b;
}

// Checks that the vectors are reduced, null vectors being first.
void CheckReduced(Lattice const& all, cpp_rational const& η,
                  cpp_rational const& δ) {
  Lattice b;
  for (auto const& v : all) {
    bool null = true;
    for (auto const& x : v) null &= x == 0;
    REQUIRE(!null || b.empty(), "null vector after others");
    if (!null) b.push_back(v);
  }
  std::size_t const n = b.size();
  std::vector<std::vector<cpp_rational>> q;
  std::vector<cpp_rational> norm²;
  for (std::size_t i = 0; i < n; ++i) {
    std::vector<cpp_rational> v(b[i].begin(), b[i].end());
    cpp_rational previous = 0;
    for (std::size_t j = 0; j < i; ++j) {
      cpp_rational dot = 0;
      for (std::size_t k = 0; k < v.size(); ++k) dot += b[i][k] * q[j][k];
      cpp_rational const μ = dot / norm²[j];
      REQUIRE(abs(μ) <= η, "size reduction: " << μ.convert_to<double>() << " for " <<
              i << ", " << j);
      for (std::size_t k = 0; k < v.size(); ++k) v[k] -= μ * q[j][k];
      previous = μ;
    }
    cpp_rational sum = 0;
    for (auto const& x : v) sum += x * x;
    REQUIRE(sum > 0, "dependent vectors after reduction");
    if (i > 0) {
      REQUIRE(sum >= (δ - previous * previous) * norm²[i - 1],
              "Lovász condition: ratio " <<
              cpp_rational(sum / norm²[i - 1]).convert_to<double>() << " for " <<
              previous.convert_to<double>());
    }
    q.push_back(v);
    norm².push_back(sum);
  }
}

template<typename M>
Lattice ToLattice(M const& m) {
  Lattice b;
  for (int j = 0; j < m.columns(); ++j) {
    std::vector<cpp_int> v;
    for (int i = 0; i < m.rows(); ++i) {
      using S = std::remove_cvref_t<decltype(m(i, j))>;
      if constexpr (std::is_same_v<S, cpp_rational>) {
        REQUIRE(denominator(m(i, j)) == 1, "integer");
        v.push_back(numerator(m(i, j)));
      } else {
        v.push_back(static_cast<cpp_int>(m(i, j)));
      }
    }
    b.push_back(v);
  }
  return b;
}

template<int r, int c>
void Lattices(Src& s, Ctx& ctx) {
  // Large elements, powers of 2, are only used for exact computations.
  int const kind = s.below(5);
  bool const big = kind >= 3;
  int const bits = big ? s.range(8, 80) : s.range(2, 5);
  Lattice basis;
  for (int j = 0; j < c; ++j) {
    std::vector<cpp_int> v;
    if (j > 0 && s.chance(1, 8)) {
      // Nearly dependent vectors.  The functions take a base of the lattice, so
      // dependent ones are not in their domain.
      v.resize(r);
      for (int k = 0; k < j; ++k) {
        int const f = s.range(-3, 3);
        for (int i = 0; i < r; ++i) v[i] += f * basis[k][i];
      }
      v[s.below(r)] += s.coin() ? 1 : -1;
    } else {
      int const shift = s.chance(1, 3) ? bits : s.range(2, bits);
      for (int i = 0; i < r; ++i) {
        cpp_int x = s.u64();
        x = (x << 40) + (s.u64() & 0xFFFFFFFFFF);
        x = x >> (104 - shift);
        v.push_back(s.coin() ? x : -x);
      }
    }
    basis.push_back(v);
  }
  for (auto const& v : basis) {
    ctx.note() << "(";
    for (auto const& x : v) ctx.note() << x << " ";
    ctx.note() << ")";
  }
  Lattice const expected = HermiteForm(basis);
  if (static_cast<int>(expected.size()) < c) throw pbt::Discard{};
  ctx.nontrivial(c > 1 && expected.size() > 1);
  auto const fill = [&](auto& m) {
    using S = std::remove_cvref_t<decltype(m(0, 0))>;
    for (int j = 0; j < c; ++j) {
      for (int i = 0; i < r; ++i) m(i, j) = static_cast<S>(basis[j][i]);
    }
  };
  auto const check = [&](auto const& m, double const η, double const δ) {
    Lattice const reduced = ToLattice(m);
    REQUIRE(HermiteForm(reduced) == expected, "the lattice is different");
    CheckReduced(reduced, cpp_rational(η), cpp_rational(δ));
  };
  if (kind == 0 || kind == 1) {
    FixedMatrix<cpp_rational, r, c> m;
    fill(m);
    check(LenstraLenstraLovász(m), 0.5, 0.75);
    FixedMatrix<double, r, c> d;
    fill(d);
    check(LenstraLenstraLovász(d), 0.5 + 1e-9, 0.75 - 1e-9);
  } else if (kind == 2) {
    FixedMatrix<double, r, c> d;
    fill(d);
    check(NguyễnStehlé(d), 0.55, 0.75);
  } else {
    FixedMatrix<cpp_int, r, c> m;
    fill(m);
    check(NguyễnStehlé(m), 0.55, 0.75);
    UnboundedMatrix<cpp_int> u(r, c);
    fill(u);
    check(NguyễnStehlé(u), 0.55, 0.75);
  }
}
void AllLattices(Src& s, Ctx& ctx) {
  switch (s.below(5)) {
    case 0: return Lattices<2, 2>(s, ctx);
    case 1: return Lattices<3, 3>(s, ctx);
    case 2: return Lattices<5, 4>(s, ctx);
    case 3: return Lattices<3, 2>(s, ctx);
    default: return Lattices<6, 6>(s, ctx);
  }
}
void AllExact(Src& s, Ctx& ctx) {
  switch (s.below(3)) {
    case 0: return ExactGramSchmidt<3, 3>(s, ctx);
    case 1: return ExactGramSchmidt<4, 2>(s, ctx);
    default: return ExactGramSchmidt<4, 4>(s, ctx);
  }
}

// Nearest neighbours.
template<typename Value>
void Neighbours(Src& s, Ctx& ctx) {
  std::vector<std::unique_ptr<Value>> values;
  std::vector<Vec> model;
  int const shape = s.below(5);
  Vec const u = ref::Direction(s), w = ref::Direction(s);
  auto const point = [&]() -> Vec {
    auto const e = [&]() -> Real { return s.sym(10); };
    switch (shape) {
      case 0: return static_cast<Real>(e()) * u;                // Line.
      case 1: return e() * u + e() * w;                         // Plane.
      case 2: return {(Real)s.range(-1, 1), (Real)s.range(-1, 1),
                      (Real)s.range(-1, 1)};                    // Duplicates.
      case 3: return {e() * 1e6L, e(), e() * 1e-6L};            // Anisotropic.
      default: return {e(), e(), e()};
    }
  };
  auto const make = [](Vec const& v) {
    return convert::Kind<Value>::Make(v);
  };
  int const initial = s.chance(1, 4) ? 0 : s.range(0, 30);
  int const per_cell = s.range(1, 6);
  std::vector<not_null<Value const*>> pointers;
  auto const add = [&] {
    Vec v = point();
    if (!model.empty() && s.chance(1, 8)) v = model[s.below(model.size())];
    for (auto& x : v.v) x = static_cast<double>(x);
    values.push_back(std::make_unique<Value>(make(v)));
    model.push_back(v);
    ctx.note() << v << " ";
    return not_null<Value const*>(values.back().get());
  };
  for (int i = 0; i < initial; ++i) pointers.push_back(add());
  ctx.note() << " per cell " << per_cell << "; ";
  PrincipalComponentPartitioningTree<Value> tree(pointers, per_cell);
  int operations = 0;
  while (s.more(operations, 1, 40, 15)) {
    ++operations;
    if (s.chance(1, 2)) {
      tree.Add(add());
      continue;
    }
    Vec q = point();
    if (!model.empty() && s.chance(1, 4)) q = model[s.below(model.size())];
    for (auto& x : q.v) x = static_cast<double>(x);
    std::uint64_t const mask = s.chance(1, 2) ? ~0ULL : s.u64();
    ctx.note() << "? " << q << " mask " << mask << " ";
    std::map<Value const*, int> index;
    for (std::size_t i = 0; i < values.size(); ++i) {
      index[values[i].get()] = static_cast<int>(i);
    }
    auto const accepts = [&](int const i) { return (mask >> (i % 64)) & 1; };
    Real best = std::numeric_limits<Real>::infinity();
    for (std::size_t i = 0; i < model.size(); ++i) {
      if (accepts(i)) best = std::min(best, Norm(model[i] - q));
    }
    Value const* const found =
        mask == ~0ULL
            ? tree.FindNearestNeighbour(make(q))
            : tree.FindNearestNeighbour(make(q), [&](Value const* const v) {
                return accepts(index.at(v)) != 0;
              });
    if (best == std::numeric_limits<Real>::infinity()) {
      REQUIRE(found == nullptr, "no neighbour");
    } else {
      REQUIRE(found != nullptr, "neighbour");
      int const i = index.at(found);
      REQUIRE(accepts(i), "filtered out");
      Real scale = 0;
      for (auto const& v : model) scale = std::max(scale, Norm(v));
      scale = std::max(scale, Norm(q));
      // The squares of the distances are compared.
      Real const d = Norm(model[i] - q);
      REQUIRE(d <= best + 1e-14L * scale, "distance " << d << " not " << best);
    }
  }
  ctx.nontrivial(values.size() > 2 * static_cast<std::size_t>(per_cell));
}
void AllNeighbours(Src& s, Ctx& ctx) {
  s.coin() ? Neighbours<Vector<double, World>>(s, ctx)
           : Neighbours<Position<World>>(s, ctx);
}

// Davenport's method.
void Davenport(Src& s, Ctx& ctx) {
  int const n = s.range(1, 6);
  ref::Mat const rotation =
      ref::Rodrigues(ref::SomeAngle(s, 3.2), ref::Direction(s));
  Real const noise = s.coin() ? 0 : s.log(1e-6, 1);
  std::vector<Vec> a, b;
  std::vector<Real> w;
  std::vector<Vector<double, World>> as;
  std::vector<Vector<double, Other>> bs;
  std::vector<Mass> ws;
  Real total = 0;
  for (int i = 0; i < n; ++i) {
    Vec const u = ref::Direction(s);
    Vec const v = ref::Unit(rotation * u + noise * ref::Direction(s));
    as.push_back(convert::Kind<Vector<double, World>>::Make(u));
    bs.push_back(convert::Kind<Vector<double, Other>>::Make(v));
    ws.push_back(s.log(0.1, 10) * si::Kilogram);
    a.push_back(Of(as.back()));
    b.push_back(Of(bs.back()));
    w.push_back(In(ws.back()));
    total += w.back();
    ctx.note() << a.back() << " " << b.back() << " " << (double)w.back() << "; ";
  }
  ctx.nontrivial(n > 1);
  auto const gain = [&](auto const& f) {
    Real g = 0;
    for (int i = 0; i < n; ++i) g += w[i] * Dot(b[i], f(i));
    return g;
  };
  auto const R = DavenportQMethod(as, bs, ws);
  Real const actual = gain([&](int const i) { return Of(R(as[i])); });
  // Wahba's problem: the optimum is the largest eigenvalue of K.
  ref::Mat B{};
  for (int k = 0; k < n; ++k) {
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 3; ++j) B(i, j) += w[k] * b[k][i] * a[k][j];
    }
  }
  Dense K(4, 4);
  Real const μ = B(0, 0) + B(1, 1) + B(2, 2);
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      K(i, j) = B(i, j) + B(j, i) - (i == j ? μ : 0);
    }
  }
  K(3, 3) = μ;
  K(0, 3) = K(3, 0) = B(1, 2) - B(2, 1);
  K(1, 3) = K(3, 1) = B(2, 0) - B(0, 2);
  K(2, 3) = K(3, 2) = B(0, 1) - B(1, 0);
  Real const best = SymmetricEigenvalues(K).back();
  REQUIRE(actual <= best + 1e-13L * total, "gain " << actual << " above " << best);
  REQUIRE(actual >= best - 1e-10L * total, "gain " << actual << " not " << best);
  // Orthogonality.
  for (int i = 0; i < n; ++i) {
    Near(Norm(Of(R(as[i]))), Norm(a[i]), 300 * ε, "norm");
  }
}

using Check = void (*)(Src&, Ctx&);
void AllFixed(Src& s, Ctx& ctx) {
  static constexpr Check checks[] = {
      &Fixed<1, 1, 1, false, false>, &Fixed<2, 3, 4, false, true>,
      &Fixed<3, 3, 2, true, false>,  &Fixed<4, 4, 4, true, true>,
      &Fixed<5, 2, 3, false, false>, &Fixed<2, 2, 5, false, false>};
  checks[s.below(std::size(checks))](s, ctx);
}

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"fixed", "matrices and vectors of 6 shapes, on the heap or not; "
        "non-trivial if there are several elements", 140000, 3200000, AllFixed},
       {"unbounded", "matrices up to 6×6, and histories of up to 6 extensions "
        "and erasures; non-trivial if at least 2 of these", 140000, 3200000,
        Unbounded},
       {"views", "histories of up to 6 operations on blocks and columns; "
        "non-trivial if at least 2 and not a vector", 140000, 3200000, AllViews},
       {"factorizations", "triangular factorizations and solutions, up to 8×8; "
        "non-trivial if not scalar", 240000, 6000000,
        FOR_ARRAYS(Factorizations)},
       {"orthogonalizations", "matrices up to 8×8 with condition below 1e5; "
        "non-trivial if not scalar", 140000, 4000000,
        FOR_ARRAYS(Orthogonalizations)},
       {"exact", "rational matrices with dependent columns", 18000, 480000,
        AllExact},
       {"eigenvalues", "matrices up to 8×8 with known eigenvalues; non-trivial "
        "if 3×3 or more with a real eigenvalue", 140000, 4000000,
        FOR_ARRAYS(Eigenvalues), .hang_s = 20},
       {"symmetric", "symmetric matrices up to 8×8, with multiple eigenvalues; "
        "non-trivial if not scalar", 140000, 4000000, FOR_ARRAYS(Symmetric)},
       {"iterations", "symmetric matrices up to 8×8 and approximate "
        "eigenvectors; non-trivial if approximate", 140000, 4000000,
        FOR_ARRAYS(Iterations)},
       {"lattices", "bases of up to 6 vectors with elements up to 80 bits, "
        "some nearly dependent; non-trivial if of dimension at least 2", 24000, 800000,
        AllLattices, .hang_s = 10},
       {"neighbours", "histories of up to 40 additions and searches in point "
        "sets of various shapes; non-trivial if more than 2 cells", 70000,
        2400000, AllNeighbours},
       {"davenport", "up to 6 weighted pairs of directions, exact or noisy; "
        "non-trivial if several", 140000, 4000000, Davenport}});
}
