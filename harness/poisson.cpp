// Poisson series and piecewise Poisson series, against the functions that they
// represent, in extended precision.
#include <cmath>
#include <complex>
#include <functional>
#include <utility>
#include <vector>

#include "convert.hpp"
#include "fatal.hpp"
#include "geometry/frame.hpp"
#include "geometry/interval.hpp"
#include "geometry/space.hpp"
#include "numerics/apodization.hpp"
#include "numerics/piecewise_poisson_series.hpp"
#include "numerics/poisson_series.hpp"
#include "pbt.hpp"
#include "serialization/geometry.pb.h"
#include "serialization/numerics.pb.h"

namespace apodization = principia::numerics::_apodization;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_interval;
using namespace principia::geometry::_space;
using namespace principia::numerics::_piecewise_poisson_series;
using namespace principia::numerics::_poisson_series;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace convert;
using pbt::Ctx;
using pbt::Src;

using SF = principia::serialization::Frame;
using World = Frame<SF::TestTag, Inertial, Handedness::Right, SF::TEST>;

struct Term {
  Real ω;
  std::vector<Vec> sin;
  std::vector<Vec> cos;
};
Vec Evaluate(std::vector<Vec> const& c, Real const x, int const n = 0) {
  Vec v;
  Real power = 1;
  for (std::size_t i = n; i < c.size(); ++i) {
    Real k = 1;
    for (int j = 0; j < n; ++j) k *= i - j;
    v = v + (k * power) * c[i];
    power *= x;
  }
  return v;
}
Real Scale(std::vector<Vec> const& c, Real const x, int const n = 0) {
  std::vector<Vec> a;
  for (auto const& v : c) a.push_back({Norm(v)});
  return Evaluate(a, std::abs(x), n)[0];
}
struct Series {
  Real origin = 0;
  std::vector<Vec> aperiodic;
  std::vector<Term> periodic;

  Vec operator()(Real const t) const {
    Real const x = t - origin;
    Vec v = Evaluate(aperiodic, x);
    for (auto const& p : periodic) {
      v = v + std::sin(p.ω * x) * Evaluate(p.sin, x) +
          std::cos(p.ω * x) * Evaluate(p.cos, x);
    }
    return v;
  }
  // The terms for an argument at a distance `x` of the origin; errors of the
  // phases are taken into account.
  Real Bound(Real const x) const {
    Real b = Scale(aperiodic, x);
    for (auto const& p : periodic) {
      b += (Scale(p.sin, x) + Scale(p.cos, x)) * (1 + std::abs(p.ω * x));
    }
    return b;
  }
  // The same for the terms of the primitive.
  Real PrimitiveBound(Real const x) const {
    Real b = Scale(aperiodic, x) * std::abs(x);
    for (auto const& p : periodic) {
      if (p.ω == 0) {
        b += Scale(p.cos, x) * std::abs(x);
        continue;
      }
      for (std::size_t n = 0; n < p.sin.size(); ++n) {
        b += (Scale(p.sin, x, n) + Scale(p.cos, x, n)) *
             (1 + std::abs(p.ω * x)) / std::pow(std::abs(p.ω), n + 1.L);
      }
    }
    return b;
  }
  Real MaxΩ() const {
    Real max = 0;
    for (auto const& p : periodic) max = std::max(max, std::abs(p.ω));
    return max;
  }
};
std::ostream& operator<<(std::ostream& o, Series const& s) {
  auto const put = [&](std::vector<Vec> const& c) {
    o << "(";
    for (auto const& v : c) o << v[0] << "," << v[1] << "," << v[2] << " ";
    o << ")";
  };
  put(s.aperiodic);
  for (auto const& p : s.periodic) {
    o << " + ω=" << p.ω << " sin ";
    put(p.sin);
    o << " cos ";
    put(p.cos);
  }
  return o << " at " << s.origin;
}

// Gauss-Legendre with 16 points on `n` intervals.
template<typename F>
auto Integrate(F const& f, Real const a, Real const b, int const n) {
  static auto const nodes = [] {
    std::vector<std::pair<Real, Real>> r;
    constexpr int N = 16;
    for (int i = 1; i <= N; ++i) {
      Real x = std::cos(ref::π * (i - 0.25L) / (N + 0.5L));
      Real dp = 0;
      for (int k = 0; k < 50; ++k) {
        Real p0 = 1;
        Real p1 = x;
        for (int m = 1; m < N; ++m) {
          Real const p2 = ((2 * m + 1) * x * p1 - m * p0) / (m + 1);
          p0 = p1;
          p1 = p2;
        }
        dp = N * (x * p1 - p0) / (x * x - 1);
        x -= p1 / dp;
      }
      r.emplace_back(x, 2 / ((1 - x * x) * dp * dp));
    }
    return r;
  }();
  decltype(f(a)) sum{};
  Real const h = (b - a) / n;
  for (int i = 0; i < n; ++i) {
    for (auto const& [x, w] : nodes) {
      sum = sum + (w * h / 2) * f(a + h * (i + (x + 1) / 2));
    }
  }
  return sum;
}

Vec SomeValue(Src& s, int const dimension) {
  auto const one = [&]() -> Real {
    switch (s.below(4)) {
      case 0:
        return s.range(-3, 3);
      case 1:
        return s.slog(1e-3, 1e3);
      default:
        return s.sym(1);
    }
  };
  return dimension == 1 ? Vec{one()} : Vec{one(), one(), one()};
}
Series SomeSeries(Src& s, int const ad, int const pd, int const dimension,
                  bool const normal = false) {
  Series r;
  r.origin = s.coin() ? 0 : s.sym(3);
  auto const polynomial = [&](int const degree) {
    std::vector<Vec> c;
    for (int i = 0; i <= degree; ++i) {
      c.push_back(s.chance(1, 10) ? Vec{}
                                  : Rounded(SomeValue(s, dimension)));
    }
    return c;
  };
  r.aperiodic = polynomial(ad);
  while (s.more(r.periodic.size(), 0, 5, 2)) {
    // Zero, negative and repeated frequencies are allowed.
    Real ω = s.log(0.1, 20);
    if (!normal && ad >= pd && s.chance(1, 8)) ω = 0;
    if (!normal && s.chance(1, 4)) ω = -ω;
    if (!normal && !r.periodic.empty() && s.chance(1, 4)) {
      ω = (s.coin() ? -1 : 1) * r.periodic[s.below(r.periodic.size())].ω;
    }
    r.periodic.push_back({ω, polynomial(pd), polynomial(pd)});
  }
  return r;
}

template<typename P, std::size_t... i>
P MakePolynomial(std::vector<Vec> const& c, Real const origin,
                 std::index_sequence<i...>) {
  using Coefficients = typename P::Coefficients;
  return P(Coefficients{Make<std::remove_cvref_t<decltype(get<i>(
               std::declval<Coefficients&>()))>>(c[i])...},
           At(static_cast<double>(origin)));
}
template<typename P>
P MakePolynomial(std::vector<Vec> const& c, Real const origin) {
  return MakePolynomial<P>(
      c, origin, std::make_index_sequence<
                     std::tuple_size_v<typename P::Coefficients>>{});
}
AngularFrequency Ω(Real const ω) {
  return static_cast<double>(ω) * si::Radian / si::Second;
}
template<typename S>
S MakeSeries(Series const& r) {
  typename S::PolynomialsByAngularFrequency periodic;
  for (auto const& p : r.periodic) {
    periodic.emplace_back(
        Ω(p.ω),
        typename S::Polynomials{
            .sin = MakePolynomial<typename S::PeriodicPolynomial>(p.sin,
                                                                  r.origin),
            .cos = MakePolynomial<typename S::PeriodicPolynomial>(p.cos,
                                                                  r.origin)});
  }
  return S(MakePolynomial<typename S::AperiodicPolynomial>(r.aperiodic,
                                                           r.origin),
           periodic);
}

template<typename S>
void Expect(S const& s, Real const t, Vec const& expected, Real const scale,
            std::string const& what) {
  ExpectVec(convert::Of(s(At(static_cast<double>(t)))), expected,
            60 * ε * scale, what);
}

template<typename Value, int ad, int pd>
void OneSeries(Src& s, Ctx& c) {
  using P = PoissonSeries<Value, ad, pd>;
  int const dimension = Kind<Value>::dimension;
  Series r = SomeSeries(s, ad, pd, dimension);
  Real const t = s.sym(5);
  Real const u = s.sym(5);
  c.note() << r << " for " << t << ", " << u;
  c.nontrivial(!r.periodic.empty() && r.Bound(1) > 0);
  P const p = MakeSeries<P>(r);
  Real const x = t - r.origin;
  Expect(p, t, r(t), r.Bound(x), "value");
  REQUIRE(In(p.origin()) == r.origin, "origin");
  REQUIRE(In(p.max_ω()) == r.MaxΩ(), "max_ω " << p.max_ω());
  Expect(+p, t, r(t), r.Bound(x), "+p");
  Expect(-p, t, -r(t), r.Bound(x), "-p");
  double const k = s.slog(1e-3, 1e3);
  Real const kk = k;
  Expect(k * p, t, kk * r(t), std::abs(kk) * r.Bound(x), "k p");
  Expect(p * (k * si::Metre), t, kk * r(t), std::abs(kk) * r.Bound(x), "p k");
  Expect(p / k, t, (1 / kk) * r(t), r.Bound(x) / std::abs(kk), "p / k");
  {
    PoissonSeries<Value, ad + 1, pd + 2> const higher(p);
    Expect(higher, t, r(t), r.Bound(x), "higher degree");
  }
  {
    Real const o = s.sym(5);
    auto const shifted = p.AtOrigin(At(static_cast<double>(o)));
    REQUIRE(In(shifted.origin()) == o, "origin of AtOrigin");
    Expect(shifted, t, r(t),
           r.Bound(std::abs(t - o) + 2 * std::abs(o - r.origin)), "AtOrigin");
  }
  {
    principia::serialization::PoissonSeries message;
    p.WriteToMessage(&message);
    auto const read = P::ReadFromMessage(message);
    REQUIRE(read(At(static_cast<double>(t))) == p(At(static_cast<double>(t))),
            "serialization");
    principia::serialization::PoissonSeries again;
    read.WriteToMessage(&again);
    REQUIRE(again.SerializeAsString() == message.SerializeAsString(),
            "serialization");
  }
  // Primitive.
  {
    int const n = 4 + static_cast<int>(std::abs(t - u) * (1 + r.MaxΩ()) / 2);
    Vec const integral = Integrate(r, t, u, n);
    Real const scale = r.PrimitiveBound(x) + r.PrimitiveBound(u - r.origin) +
                       r.PrimitiveBound(std::abs(t) + std::abs(u) +
                                        std::abs(r.origin)) * 0.1L;
    ExpectVec(convert::Of(p.Integrate(At(static_cast<double>(t)),
                                      At(static_cast<double>(u)))),
              integral, 100 * ε * scale, "Integrate");
    auto const primitive = p.Primitive();
    ExpectVec(convert::Of(primitive(At(static_cast<double>(u))) -
                          primitive(At(static_cast<double>(t)))),
              integral, 100 * ε * scale, "Primitive");
  }
}

template<typename P>
Real WeightBound(P const& w) {
  return w.Bound(10);
}

// Pairs of series, with the values `Left` and `Right`.
template<typename Left, typename Right, int al, int pl, int ar, int pr>
void Pairs(Src& s, Ctx& c) {
  constexpr int dl = Kind<Left>::dimension;
  constexpr int dr = Kind<Right>::dimension;
  using L = PoissonSeries<Left, al, pl>;
  using R = PoissonSeries<Right, ar, pr>;
  Series const l = SomeSeries(s, al, pl, dl);
  Series r = SomeSeries(s, ar, pr, dr);
  // Operands must have the same origin.
  r.origin = l.origin;
  Real const t = s.sym(5);
  c.note() << l << "; " << r << " for " << t;
  c.nontrivial(!l.periodic.empty() && !r.periodic.empty());
  L const pl_ = MakeSeries<L>(l);
  R const pr_ = MakeSeries<R>(r);
  // The right operand may be moved to the origin of the left one.
  Real const bl = l.Bound(t - l.origin);
  Real const br =
      r.Bound(std::abs(t - l.origin) + 2 * std::abs(l.origin - r.origin));
  if constexpr (std::is_same_v<Left, Right>) {
    Expect(pl_ + pr_, t, l(t) + r(t), bl + br, "+");
    Expect(pl_ - pr_, t, l(t) - r(t), bl + br, "-");
    if constexpr (al >= ar && pl >= pr) {
      auto z = pl_;
      z += pr_;
      Expect(z, t, l(t) + r(t), bl + br, "+=");
      z = pl_;
      z -= pr_;
      Expect(z, t, l(t) - r(t), bl + br, "-=");
    }
    REQUIRE(In((pl_ + pr_).max_ω()) <= std::max(l.MaxΩ(), r.MaxΩ()), "max_ω");
  }
  if constexpr (dl == 1) {
    Expect(pl_ * pr_, t, l(t)[0] * r(t), bl * br, "*");
  }
  if constexpr (dr == 1) {
    Expect(pr_ * pl_, t, r(t)[0] * l(t),
           r.Bound(t - r.origin) * l.Bound(std::abs(t - r.origin) +
                                           2 * std::abs(l.origin - r.origin)),
           "*");
  }
  if constexpr (dl == 3 && dr == 3) {
    Expect(PointwiseInnerProduct(pl_, pr_), t, Vec{Dot(l(t), r(t))}, bl * br,
           "PointwiseInnerProduct");
  }
  // The inner product, weighted.
  if constexpr (dl == dr) {
    if (!s.chance(1, 4)) return;
    Real const t1 = s.sym(2);
    Real const duration = s.log(0.3, 4);
    bool const hann = s.coin();
    // The automatic quadrature stops when doubling the number of points doesn't
    // change the result, which may happen by accident.  An error is only
    // significant if it remains when the interval is slightly changed.
    for (int attempt = 0; attempt < 3; ++attempt) {
      Real const t2 = t1 + duration * (1 + 0.017L * attempt);
      Instant const min = At(static_cast<double>(t1));
      Instant const max = At(static_cast<double>(t2));
      auto const weight = (hann ? apodization::Hann(min, max)
                                : apodization::Dirichlet(min, max))
                              .AtOrigin(pl_.origin());
      auto const w = [&](Real const t) -> Real {
        return hann ? (1 - std::cos(2 * ref::π * (t - t1) / (t2 - t1))) / 2 : 1;
      };
      int const n = 6 + static_cast<int>((t2 - t1) * (l.MaxΩ() + r.MaxΩ()) / 2);
      Real const width = In(max) - In(min);
      auto const mean = [&](auto const& f) {
        return Integrate([&](Real const t) { return f(t) * w(t); }, t1, t2, n) /
               width;
      };
      Real const product =
          mean([&](Real const t) { return Dot(l(t), r(t)); });
      Real const absolute =
          mean([&](Real const t) { return Norm(l(t)) * Norm(r(t)); });
      Real const product_error =
          std::abs(In(InnerProduct(pl_, pr_, weight, min, max)) - product);
      Real const norm =
          std::sqrt(mean([&](Real const t) { return Dot(l(t), l(t)); }));
      Real const norm_error =
          hann ? std::abs(In(pl_.Norm(weight, min, max)) - norm) : 0;
      bool const good = product_error <= 1e-5L * absolute + 1e-16L &&
                        norm_error <= 1e-4L * norm + 1e-6L;
      if (good) break;
      REQUIRE(attempt < 2, "inner product " << product << " off by " << product_error <<
              ", norm " << norm << " off by " << norm_error);
    }
    c.count();
  }
}

// Apodization functions, by their definitions.
void Apodizations(Src& s, Ctx& c) {
  double const t1 = s.sym(1e3);
  double const t2 = t1 + s.log(1e-2, 1e5);
  if (!(t2 > t1)) throw pbt::Discard{};
  double const t = std::clamp(t1 + (t2 - t1) * s.unit(), t1, t2);
  Instant const a = At(t1);
  Instant const b = At(t2);
  c.note() << "[" << t1 << ", " << t2 << "] at " << t;
  c.nontrivial(t > t1 && t < t2);
  Real const x = (static_cast<Real>(t) - t1) / (static_cast<Real>(t2) - t1);
  struct Window {
    char const* name;
    PoissonSeries<double, 0, 0> (*f)(Instant const&, Instant const&);
    std::vector<Real> a;
  };
  static Window const windows[] = {
      {"Dirichlet", &apodization::Dirichlet, {1}},
      {"Hann", &apodization::Hann, {0.5L, -0.5L}},
      {"Hamming", &apodization::Hamming, {25 / 46.0L, -21 / 46.0L}},
      {"Blackman", &apodization::Blackman, {0.42L, -0.5L, 0.08L}},
      {"ExactBlackman", &apodization::ExactBlackman,
       {7938 / 18608.0L, -9240 / 18608.0L, 1430 / 18608.0L}},
      {"Nuttall", &apodization::Nuttall,
       {0.355768L, -0.487396L, 0.144232L, -0.012604L}},
      {"BlackmanNuttall", &apodization::BlackmanNuttall,
       {0.3635819L, -0.4891775L, 0.1365995L, -0.0106411L}},
      {"BlackmanHarris", &apodization::BlackmanHarris,
       {0.35875L, -0.48829L, 0.14128L, -0.01168L}},
      {"ISO18431_2", &apodization::ISO18431_2,
       {1 / 4.63867187L, -1.93261719L / 4.63867187L, 1.28613281L / 4.63867187L,
        -0.38769531L / 4.63867187L, 0.03222656L / 4.63867187L}}};
  Real const tolerance =
      1e-14L + 100 * ε * (std::abs(t1) + std::abs(t2)) / (t2 - t1);
  auto const& w = windows[s.below(std::size(windows))];
  c.note() << " " << w.name;
  Real expected = 0;
  for (std::size_t i = 0; i < w.a.size(); ++i) {
    expected += w.a[i] * std::cos(2 * ref::π * i * x);
  }
  ExpectReal(w.f(a, b)(At(t)), expected, tolerance, w.name);
  ExpectReal(apodization::Sine(a, b)(At(t)), std::sin(ref::π * x), tolerance,
             "Sine");
}

// Piecewise series, as histories of operations.
template<typename Value>
void Piecewise(Src& s, Ctx& c) {
  constexpr int dimension = Kind<Value>::dimension;
  using PS = PoissonSeries<Value, 2, 1>;
  using PPS = PiecewisePoissonSeries<Value, 2, 1>;
  struct Model {
    std::vector<Real> bounds;
    std::vector<Series> pieces;
    std::vector<std::pair<Real, Series>> addends;  // Signed.
    Vec At(Real const t) const {
      std::size_t i = 0;
      while (i + 1 < pieces.size() && t >= bounds[i + 1]) ++i;
      return Piece(i, t);
    }
    Vec Piece(std::size_t const i, Real const t) const {
      Vec v = pieces[i](t);
      for (auto const& [k, a] : addends) v = v + k * a(t);
      return v;
    }
    Real Bound() const {
      Real b = 0;
      for (auto const& p : pieces) b = std::max(b, p.Bound(40));
      for (auto const& [k, a] : addends) b += std::abs(k) * a.Bound(40);
      return b;
    }
    Real MaxΩ() const {
      Real ω = 0;
      for (auto const& p : pieces) ω = std::max(ω, p.MaxΩ());
      for (auto const& [k, a] : addends) ω = std::max(ω, a.MaxΩ());
      return ω;
    }
  };
  auto const piece = [&] {
    Series r = SomeSeries(s, 2, 1, dimension);
    // The Fourier transform requires slow pieces.
    for (auto& p : r.periodic) p.ω /= 100;
    return r;
  };
  struct Object {
    PPS series;
    Model model;
  };
  double const t0 = s.sym(3);
  auto const length = [&] { return static_cast<double>(s.log(0.1, 1)); };
  std::vector<Object> objects;
  // The origin of the series that are combined with the piecewise ones.
  Real const origin = s.coin() ? 0 : s.sym(3);
  {
    Series const first = piece();
    double const t1 = t0 + length();
    c.note() << "[" << t0 << ", " << t1 << "] " << first << "\n";
    objects.push_back({PPS({.min = At(t0), .max = At(t1)},
                           MakeSeries<PS>(first)),
                       Model{{t0, t1}, {first}, {}}});
  }
  int operations = 0;
  int spectra = 0;
  auto const check = [&](Object const& o, std::string const& what) {
    auto const& m = o.model;
    REQUIRE(In(o.series.t_min()) == m.bounds.front() &&
                In(o.series.t_max()) == m.bounds.back(),
            what << ": bounds");
    ExpectReal(In(o.series.max_ω()), m.MaxΩ(), 1e-15L * m.MaxΩ(),
               what + ": max_ω");
    Real const tolerance = 100 * ε * m.Bound();
    for (std::size_t i = 0; i < m.bounds.size(); ++i) {
      // At a bound, the piece that follows.
      Real const t = m.bounds[i];
      ExpectVec(convert::Of(o.series(At(static_cast<double>(t)))), m.At(t),
                tolerance, what + ": at a bound");
      if (i + 1 < m.bounds.size()) {
        double const inside = static_cast<double>(
            t + (m.bounds[i + 1] - t) * s.real(0.01, 0.99));
        ExpectVec(convert::Of(o.series(At(inside))), m.Piece(i, inside),
                  tolerance, what + ": inside");
      }
    }
  };
  auto const check_spectrum = [&](Object const& o) {
    auto const& m = o.model;
    Real const ω = s.chance(1, 6) ? 0 : s.slog(1e-2, 1);
    c.note() << " spectrum at " << ω << "\n";
    auto const spectrum = o.series.FourierTransform()(Ω(ω));
    Real const mid = (m.bounds.front() + m.bounds.back()) / 2;
    Vec re;
    Vec im;
    for (std::size_t i = 0; i < m.pieces.size(); ++i) {
      Real const a = m.bounds[i];
      Real const b = m.bounds[i + 1];
      re = re + Integrate([&](Real const t) {
             return std::cos(ω * (t - mid)) * m.Piece(i, t);
           }, a, b, 2);
      im = im - Integrate([&](Real const t) {
             return std::sin(ω * (t - mid)) * m.Piece(i, t);
           }, a, b, 2);
    }
    // Exact only for slow series.
    Real const tolerance = 0;
    (void)tolerance;
    return std::tuple{spectrum, re, im};
  };
  while (s.more(operations, 1, 12, 6)) {
    ++operations;
    auto& o = objects[s.below(objects.size())];
    switch (s.below(8)) {
      case 0:
      case 1: {
        Series const next = piece();
        double const a = static_cast<double>(o.model.bounds.back());
        double const b = a + length();
        c.note() << "append to " << &o - objects.data() << " [" << a << ", "
                 << b << "] " << next << "\n";
        o.series.Append({.min = At(a), .max = At(b)}, MakeSeries<PS>(next));
        o.model.bounds.push_back(b);
        o.model.pieces.push_back(next);
        break;
      }
      case 2: {
        Series addend = SomeSeries(s, 2, 1, dimension);
        // Addends must have the same origin.
        addend.origin = origin;
        bool const minus = s.coin();
        c.note() << (minus ? "-= " : "+= ") << addend << " to "
                 << &o - objects.data() << "\n";
        if (minus) {
          o.series -= MakeSeries<PS>(addend);
        } else {
          o.series += MakeSeries<PS>(addend);
        }
        o.model.addends.emplace_back(minus ? -1 : 1, addend);
        break;
      }
      case 3: {
        c.note() << "copy of " << &o - objects.data() << "\n";
        if (objects.size() < 4) objects.push_back(Object(o));
        break;
      }
      case 4: {
        double const k = s.slog(0.1, 10);
        c.note() << "scale " << &o - objects.data() << " by " << k << "\n";
        int const which = s.below(4);
        auto z = which == 0   ? k * o.series
                 : which == 1 ? o.series * k
                 : which == 2 ? o.series / k
                              : -o.series;
        Real const f = which == 3 ? -1 : which == 2 ? 1 / static_cast<Real>(k)
                                                    : k;
        o.series = z;
        for (auto& p : o.model.pieces) {
          for (auto& v : p.aperiodic) v = f * v;
          for (auto& q : p.periodic) {
            for (auto& v : q.sin) v = f * v;
            for (auto& v : q.cos) v = f * v;
          }
        }
        for (auto& [a, b] : o.model.addends) a *= f;
        break;
      }
      case 5: {
        principia::serialization::PiecewisePoissonSeries message;
        o.series.WriteToMessage(&message);
        c.note() << "write and read " << &o - objects.data() << "\n";
        auto const read = PPS::ReadFromMessage(message);
        principia::serialization::PiecewisePoissonSeries again;
        read.WriteToMessage(&again);
        REQUIRE(again.SerializeAsString() == message.SerializeAsString(),
                "serialization");
        o.series = read;
        break;
      }
      case 6: {
        auto const [spectrum, re, im] = check_spectrum(o);
        ++spectra;
        // The transform uses too few points to be accurate, but it is a linear
        // function of the values: compare with the same transform of a series
        // built afresh.
        PPS fresh({.min = At(static_cast<double>(o.model.bounds[0])),
                   .max = At(static_cast<double>(o.model.bounds[1]))},
                  MakeSeries<PS>(o.model.pieces[0]));
        for (std::size_t i = 1; i < o.model.pieces.size(); ++i) {
          fresh.Append({.min = At(static_cast<double>(o.model.bounds[i])),
                        .max = At(static_cast<double>(o.model.bounds[i + 1]))},
                       MakeSeries<PS>(o.model.pieces[i]));
        }
        for (auto const& [k, a] : o.model.addends) {
          fresh += MakeSeries<PS>(a) * static_cast<double>(k);
        }
        Real const ω = s.slog(1e-2, 1);
        auto const a = o.series.FourierTransform()(Ω(ω));
        auto const b = fresh.FourierTransform()(Ω(ω));
        Real const duration = o.model.bounds.back() - o.model.bounds.front();
        Real const tolerance = 1e-13L * o.model.Bound() * duration;
        ExpectVec(convert::Of(a.real_part()), convert::Of(b.real_part()),
                  tolerance, "real part of the spectrum");
        ExpectVec(convert::Of(a.imaginary_part()),
                  convert::Of(b.imaginary_part()), tolerance,
                  "imaginary part of the spectrum");
        // A one-point quadrature (for degree 2) is exact to second order.
        Real second = o.model.Bound();
        ExpectVec(convert::Of(spectrum.real_part()), re, second * duration,
                  "real part");
        ExpectVec(convert::Of(spectrum.imaginary_part()), im, second * duration,
                  "imaginary part");
        break;
      }
      case 7: {
        // Sums and products with series.
        Series other = SomeSeries(s, 1, 1, dimension);
        other.origin = origin;
        using O = PoissonSeries<Value, 1, 1>;
        auto const q = MakeSeries<O>(other);
        Real const t = o.model.bounds.front() +
                       (o.model.bounds.back() - o.model.bounds.front()) *
                           static_cast<Real>(s.real(0.01, 0.99));
        double const d = static_cast<double>(t);
        c.note() << "operations on " << &o - objects.data() << " and " << other
                 << " at " << d << "\n";
        Vec const mine = o.model.At(d);
        Vec const its = other(d);
        Real const scale = o.model.Bound() + other.Bound(20);
        Expect(o.series + q, d, mine + its, scale, "+");
        Expect(q + o.series, d, mine + its, scale, "+");
        Expect(o.series - q, d, mine - its, scale, "-");
        Expect(q - o.series, d, its - mine, scale, "-");
        Series scalar = SomeSeries(s, 1, 0, 1);
        scalar.origin = origin;
        auto const k = MakeSeries<PoissonSeries<double, 1, 0>>(scalar);
        Real const product = o.model.Bound() * scalar.Bound(20);
        Expect(o.series * k, d, scalar(d)[0] * mine, product, "*");
        Expect(k * o.series, d, scalar(d)[0] * mine, product, "*");
        // Inner products over one of the pieces, as the quadrature only
        // converges for smooth functions.
        if (s.chance(1, 3)) {
          std::size_t const i = s.below(o.model.pieces.size());
          Real const t1 = o.model.bounds[i];
          // The upper bound belongs to the next piece.
          Real const t2 = i + 1 == o.model.pieces.size()
                              ? o.model.bounds[i + 1]
                              : std::nextafter(
                                    static_cast<double>(o.model.bounds[i + 1]),
                                    -1e3);
          Instant const min = At(static_cast<double>(t1));
          Instant const max = At(static_cast<double>(t2));
          auto const weight = apodization::Dirichlet(min, max);
          Real const sum = Integrate(
              [&](Real const t) { return Dot(o.model.Piece(i, t), other(t)); },
              t1, t2, 20);
          Real const squares = Integrate(
              [&](Real const t) {
                return Dot(o.model.Piece(i, t), o.model.Piece(i, t));
              },
              t1, t2, 20);
          Real const tolerance =
              1e-6L * o.model.Bound() * (o.model.Bound() + other.Bound(20));
          ExpectReal(In(InnerProduct(o.series, q, weight, min, max)),
                     sum / (t2 - t1), tolerance, "inner product");
          ExpectReal(In(InnerProduct(q, o.series, weight, min, max)),
                     sum / (t2 - t1), tolerance, "inner product");
          if (o.model.pieces.size() == 1) {
            ExpectReal(In(InnerProduct(o.series, q, weight)), sum / (t2 - t1),
                       tolerance, "inner product");
          }
          Real const norm = In(o.series.Norm(weight, min, max));
          ExpectReal(norm * norm, squares / (t2 - t1), tolerance, "norm");
        }
        break;
      }
    }
    for (auto const& each : objects) {
      check(each, "object " + std::to_string(&each - objects.data()));
    }
  }
  c.nontrivial(operations >= 3 && objects[0].model.pieces.size() >= 2);
  c.label_if(spectra > 0, "spectra");
  c.label_if(objects.size() > 1, "copies");
}

using Check = void (*)(Src&, Ctx&);
using D = Displacement<World>;
void Singles(Src& s, Ctx& c) {
  static Check const checks[] = {
      &OneSeries<double, 0, 0>, &OneSeries<Length, 3, 1>,
      &OneSeries<D, 2, 2>, &OneSeries<double, 4, 3>};
  checks[s.below(std::size(checks))](s, c);
}
void AllPairs(Src& s, Ctx& c) {
  static Check const checks[] = {
      &Pairs<double, double, 0, 0, 0, 0>, &Pairs<Length, Length, 2, 1, 1, 1>,
      &Pairs<D, D, 1, 1, 0, 1>, &Pairs<double, D, 1, 0, 2, 1>,
      &Pairs<double, double, 1, 2, 3, 0>};
  checks[s.below(std::size(checks))](s, c);
}
void Piecewises(Src& s, Ctx& c) {
  static Check const checks[] = {&Piecewise<double>, &Piecewise<D>};
  checks[s.below(std::size(checks))](s, c);
}

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"poisson", "series with up to 5 frequencies, some null, negative or "
        "repeated; non-trivial if there is a frequency", 100000, 1000000,
        Singles},
       {"pairs", "pairs of series; non-trivial if both have a frequency",
        80000, 600000, AllPairs},
       {"apodization", "windows; non-trivial if not at a bound", 20000, 300000,
        Apodizations},
       {"piecewise", "histories of up to 12 operations on up to 4 piecewise "
        "series; non-trivial if at least 3 operations and 2 pieces", 10000,
        300000, Piecewises}});
}
