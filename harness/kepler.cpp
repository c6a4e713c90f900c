// Keplerian orbits and hierarchies of bodies, against the two-body problem in
// extended precision.
#include "physics/kepler_orbit.hpp"

#include <algorithm>
#include <functional>
#include <limits>
#include <map>

#include "fatal.hpp"
#include "geometry/barycentre_calculator.hpp"
#include "gravity.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/hierarchical_system.hpp"
#include "physics/jacobi_coordinates.hpp"
#include "physics/massless_body.hpp"

using namespace principia::geometry::_barycentre_calculator;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_hierarchical_system;
using namespace principia::physics::_jacobi_coordinates;
using namespace principia::physics::_kepler_orbit;
using namespace principia::physics::_massless_body;

namespace {

using Elements = KeplerianElements<World>;
using Orbit = KeplerOrbit<World>;

struct State {
  Vec q, v;
};
State OfRelative(RelativeDegreesOfFreedom<World> const& dof) {
  return {Of(dof.displacement()), Of(dof.velocity())};
}
RelativeDegreesOfFreedom<World> MakeRelative(State const& s) {
  return {convert::Make<Displacement<World>>(s.q), convert::Make<Velocity<World>>(s.v)};
}
std::ostream& operator<<(std::ostream& out, State const& s) {
  return out << s.q << " " << s.v;
}

// The elements, in extended precision; a is negative for hyperbolæ.
struct Conic {
  Real μ, e, a, i, Ω, ω;
  Real M;  // At the epoch.
  bool Elliptic() const { return e < 1; }
  Real n() const { return std::sqrt(μ / std::abs(a * a * a)); }
  Real ℓ() const { return a * (1 - e * e); }
  Real Ecc(Real const M) const {
    // Bisection then Newton.
    Real lo, hi;
    auto const f = [&](Real const E) {
      return Elliptic() ? E - e * std::sin(E) : e * std::sinh(E) - E;
    };
    if (Elliptic()) {
      lo = M - e;
      hi = M + e;
    } else {
      Real const bound = std::asinh(std::abs(M) / (e - 1)) + 1;
      lo = -bound;
      hi = bound;
    }
    for (int k = 0; k < 40; ++k) {
      Real const mid = (lo + hi) / 2;
      (f(mid) < M ? lo : hi) = mid;
    }
    Real E = (lo + hi) / 2;
    for (int k = 0; k < 4; ++k) {
      E -= (f(E) - M) / (Elliptic() ? 1 - e * std::cos(E) : e * std::cosh(E) - 1);
    }
    return E;
  }
  Real True(Real const M) const {
    Real const E = Ecc(M);
    return Elliptic() ? 2 * std::atan2(std::sqrt(1 + e) * std::sin(E / 2),
                                       std::sqrt(1 - e) * std::cos(E / 2))
                      : 2 * std::atan(std::sqrt((e + 1) / (e - 1)) * std::tanh(E / 2));
  }
  Real MeanOf(Real const ν) const {
    if (Elliptic()) {
      Real const E = 2 * std::atan2(std::sqrt(1 - e) * std::sin(ν / 2),
                                    std::sqrt(1 + e) * std::cos(ν / 2));
      return E - e * std::sin(E);
    }
    Real const H = 2 * std::atanh(std::sqrt((e - 1) / (e + 1)) * std::tan(ν / 2));
    return e * std::sinh(H) - H;
  }
  void Basis(Vec& p, Vec& q) const {
    Vec const node{std::cos(Ω), std::sin(Ω), 0};
    Vec const h{std::sin(i) * std::sin(Ω), -std::sin(i) * std::cos(Ω), std::cos(i)};
    Vec const m = Cross(h, node);
    p = std::cos(ω) * node + std::sin(ω) * m;
    q = Cross(h, p);
  }
  State At(Real const Δt) const {
    Real const ν = True(M + n() * Δt);
    Real const r = ℓ() / (1 + e * std::cos(ν));
    Vec p, q;
    Basis(p, q);
    Real const k = std::sqrt(μ / ℓ());
    return {(r * std::cos(ν)) * p + (r * std::sin(ν)) * q,
            (-k * std::sin(ν)) * p + (k * (e + std::cos(ν))) * q};
  }
};

Conic MakeConic(Src& s, Ctx& ctx, bool const elliptic_only = false) {
  Conic c;
  c.μ = s.log(1e-3, 1e20);
  bool const elliptic = elliptic_only || s.chance(2, 3);
  if (elliptic) {
    switch (s.below(5)) {
      case 0: c.e = s.log(1e-14, 1e-2); break;
      default: c.e = s.real(0.005, 0.95);
    }
    c.a = s.log(1e-2, 1e12);
  } else {
    c.e = s.coin() ? s.real(1.03, 3) : s.log(1.03, 100);
    c.a = -s.log(1e-2, 1e12);
  }
  c.i = s.chance(1, 12) ? s.real(1e-3, 0.1)
        : s.chance(1, 12) ? s.real(3.0, 3.14) : s.real(0.01, 3.13);
  c.Ω = s.real(-4, 7);
  c.ω = s.real(-4, 7);
  if (elliptic) {
    c.M = s.chance(1, 8) ? s.sym(500) : s.sym(7);
  } else {
    c.M = s.chance(1, 4) ? (s.coin() ? 1 : -1) * s.log(1e-6, 1e4) : s.sym(10);
  }
  ctx.label(elliptic ? "elliptic" : "hyperbolic");
  return c;
}

double Mod(Real const x) {
  return static_cast<double>(std::remainder(x, 2 * ref::π));
}
bool Near(Real const actual, Real const expected, Real const tolerance) {
  return std::abs(actual - expected) <= tolerance * std::abs(expected);
}

Elements Orientation(Conic const& c, bool const longitude) {
  Elements x;
  x.inclination = static_cast<double>(c.i) * Radian;
  x.longitude_of_ascending_node = static_cast<double>(c.Ω) * Radian;
  if (longitude) {
    x.longitude_of_periapsis = static_cast<double>(c.Ω + c.ω) * Radian;
  } else {
    x.argument_of_periapsis = static_cast<double>(c.ω) * Radian;
  }
  return x;
}

double constexpr nan = std::numeric_limits<double>::quiet_NaN();

// A member of the elements: its category, its value, and access to it.
struct Member {
  std::string name;
  int category;
  Real value;  // NaN if it is NaN.
  std::function<void(Elements&, double)> set;
  std::function<std::optional<double>(Elements const&)> get;
};
template<typename T>
Member MakeMember(std::string const& name, int const category, Real const value,
                  std::optional<T> Elements::*const member) {
  return {name, category, value,
          [=](Elements& x, double const v) {
            x.*member = v * principia::quantities::_si::Unit<T>;
          },
          [=](Elements const& x) -> std::optional<double> {
            if (!(x.*member).has_value()) return std::nullopt;
            return *(x.*member) / principia::quantities::_si::Unit<T>;
          }};
}
std::vector<Member> Members(Conic const& c) {
  bool const k = c.Elliptic();
  Real const ε = -c.μ / (2 * c.a);
  Real const b = std::abs(c.a) * std::sqrt(std::abs(1 - c.e * c.e));
  return {
      MakeMember("e", 0, c.e, &Elements::eccentricity),
      MakeMember("ν∞", 0, k ? nan : std::acos(-1 / c.e),
                 &Elements::asymptotic_true_anomaly),
      MakeMember("δ", 0, k ? nan : 2 * std::asin(1 / c.e), &Elements::turning_angle),
      MakeMember("a", 1, c.a, &Elements::semimajor_axis),
      MakeMember("ε", 1, ε, &Elements::specific_energy),
      MakeMember("C3", 1, 2 * ε, &Elements::characteristic_energy),
      MakeMember("n", 1, k ? c.n() : nan, &Elements::mean_motion),
      MakeMember("T", 1, k ? 2 * ref::π / c.n() : nan, &Elements::period),
      MakeMember("n/i", 1, k ? nan : c.n(), &Elements::hyperbolic_mean_motion),
      MakeMember("v∞", 1, k ? nan : std::sqrt(2 * ε),
                 &Elements::hyperbolic_excess_velocity),
      MakeMember("b", 2, k ? b : nan, &Elements::semiminor_axis),
      MakeMember("b/i", 2, k ? nan : b, &Elements::impact_parameter),
      MakeMember("ℓ", 3, c.ℓ(), &Elements::semilatus_rectum),
      MakeMember("h", 3, std::sqrt(c.μ * c.ℓ()), &Elements::specific_angular_momentum),
      MakeMember("r_pe", 4, c.a * (1 - c.e), &Elements::periapsis_distance),
      MakeMember("r_ap", 5, c.a * (1 + c.e), &Elements::apoapsis_distance),
  };
}

Orbit MakeOrbit(Src& s, Conic const& c, Elements const& x, double const epoch) {
  MassiveBody const whole{MassiveBody::Parameters(
      static_cast<double>(c.μ) * Body::SIUnit())};
  if (s.coin()) {
    return Orbit(whole, MasslessBody{}, x, At(epoch));
  }
  MassiveBody const part{MassiveBody::Parameters(
      static_cast<double>(c.μ / 4) * Body::SIUnit())};
  MassiveBody const rest{MassiveBody::Parameters(
      static_cast<double>(c.μ * 3 / 4) * Body::SIUnit())};
  return s.coin() ? Orbit(part, rest, x, At(epoch)) : Orbit(rest, part, x, At(epoch));
}

// The condition with respect to the shape.
Real Condition(Conic const& c) {
  Real const δ = std::min<Real>(std::abs(1 - c.e), 1);
  return 1 / (δ * δ) + c.e;
}

void CheckStates(Src& s, Conic const& c, Orbit const& orbit, double const epoch,
                 Real const tolerance) {
  int const times = s.range(1, 4);
  for (int k = 0; k < times; ++k) {
    Real const phase = k == 0 ? 0
                       : c.Elliptic() ? s.sym(s.chance(1, 6) ? 3000 : 10) : s.sym(20);
    double const t = epoch + static_cast<double>(phase / c.n());
    Real const Δt = (Real)t - epoch;
    State const expected = c.At(Δt);
    State const actual = OfRelative(orbit.StateVectors(At(t)));
    Real const speed = Norm(expected.v) +
                       (c.Elliptic() ? std::sqrt(c.μ / c.ℓ()) * (1 + c.e) : 0);
    Real const size = Norm(expected.q) + (c.Elliptic() ? c.a : 0);
    // A time lag, and a relative error.
    Real const lag = tolerance * (std::abs(c.M) + std::abs(phase) + 1) / c.n();
    // Near the asymptote the anomaly is ill-conditioned.
    Real const far = c.Elliptic() ? 1 : 1 + c.e * Norm(expected.q) / c.ℓ();
    REQUIRE(Norm(actual.q - expected.q) <= tolerance * size * far + lag * speed,
            "at phase " << phase << " at " << actual << ", expected " << expected);
    REQUIRE(Norm(actual.v - expected.v) <=
                tolerance * speed * far +
                    lag * c.μ / std::pow(std::min(Norm(expected.q), c.a * (1 - c.e)), 2),
            "at phase " << phase << " velocity " << actual << ", expected " << expected);
  }
}

void CheckElements(Conic const& c, Elements const& x, Real const tolerance) {
  for (auto const& m : Members(c)) {
    auto const value = m.get(x);
    REQUIRE(value.has_value(), m.name << " is missing");
    if (std::isnan(m.value)) {
      REQUIRE(std::isnan(*value), m.name << " is " << *value);
    } else {
      REQUIRE(Near(*value, m.value, tolerance),
              m.name << " is " << *value << " not " << m.value);
    }
  }
  REQUIRE(x.argument_of_periapsis.has_value() && x.longitude_of_periapsis.has_value() &&
              x.true_anomaly.has_value() && x.mean_anomaly.has_value() &&
              x.hyperbolic_mean_anomaly.has_value(), "missing orientation or anomalies");
}

// Any two of the parameters of the shape.
void FromElements(Src& s, Ctx& ctx) {
  Conic c = MakeConic(s, ctx);
  c.μ = static_cast<double>(c.μ);
  auto const members = Members(c);
  // Two categories.
  int const first = s.below(6);
  int second = s.below(5);
  if (second >= first) ++second;
  std::vector<Member> usable[6];
  for (auto const& m : members) {
    if (!std::isnan(m.value)) usable[m.category].push_back(m);
  }
  auto const one = usable[first][s.below(usable[first].size())];
  auto const two = usable[second][s.below(usable[second].size())];
  bool const longitude = s.coin();
  bool const true_anomaly = s.coin();
  Elements x = Orientation(c, longitude);
  one.set(x, static_cast<double>(one.value));
  two.set(x, static_cast<double>(two.value));
  double const epoch = static_cast<double>(s.sym(1) / c.n());
  if (true_anomaly) {
    Real ν = c.True(c.M);
    if (std::abs(ν) < 1e-3) throw pbt::Discard{};
    // Not too close to the asymptote.
    if (!c.Elliptic()) ν *= 0.98L;
    c.M = c.MeanOf(ν);
    x.true_anomaly = static_cast<double>(ν + 2 * ref::π * s.range(-1, 1)) * Radian;
  } else if (c.Elliptic()) {
    x.mean_anomaly = static_cast<double>(c.M) * Radian;
  } else {
    x.hyperbolic_mean_anomaly = static_cast<double>(c.M) * Radian;
  }
  ctx.note() << one.name << " and " << two.name << (true_anomaly ? " at ν " : " at M ")
             << "e " << c.e << " M " << c.M << " ";
  // Ill-conditioned specifications.
  auto const has = [&](std::string const& name) {
    return one.name == name || two.name == name;
  };
  bool const near_circular = c.e < 0.05L;
  bool const gives_e = one.category == 0 || two.category == 0;
  if (near_circular && !gives_e) throw pbt::Discard{};
  if (has("δ") || has("ν∞")) {
    if (c.e < 1.1L || c.e > 20) throw pbt::Discard{};
  }
  if (c.e > 20 && !gives_e) throw pbt::Discard{};
  Real const cond = Condition(c) * (gives_e ? 1 : 1 / std::min<Real>(c.e * c.e, 1)) *
                    (gives_e ? 1 : c.e * c.e + 1);
  Real const tolerance = 2e-13L * cond;
  ctx.nontrivial(true);
  ctx.label(std::to_string(std::min(first, second)) + std::to_string(std::max(first, second)));
  Orbit const orbit = MakeOrbit(s, c, x, epoch);
  Elements const& y = orbit.elements_at_epoch();
  CheckElements(c, y, tolerance);
  // What was given is kept.
  REQUIRE(*one.get(y) == *one.get(x) && *two.get(y) == *two.get(x),
          "the elements that were given changed");
  REQUIRE(y.inclination == x.inclination &&
              y.longitude_of_ascending_node == x.longitude_of_ascending_node,
          "orientation");
  REQUIRE(std::abs(*y.argument_of_periapsis / Radian - (double)c.ω) <= 1e-14 &&
              std::abs(*y.longitude_of_periapsis / Radian - (double)(c.Ω + c.ω)) <= 1e-14,
          "periapsis");
  Real const bound = tolerance * (1 + std::abs(c.M));
  Real const ν = c.True(c.M);
  // dν/dM.
  Real const slope = std::pow(1 + c.e * std::cos(ν), 2) /
                     std::pow(std::abs(1 - c.e * c.e), 1.5L);
  REQUIRE(std::abs(Mod(*y.true_anomaly / Radian - ν)) <= bound * (1 + slope),
          "ν is " << *y.true_anomaly / Radian << " not " << ν);
  if (c.Elliptic()) {
    REQUIRE(std::abs(Mod(*y.mean_anomaly / Radian - c.M)) <= bound,
            "M is " << *y.mean_anomaly / Radian << " not " << c.M);
    REQUIRE(std::isnan(*y.hyperbolic_mean_anomaly / Radian), "M/i is not NaN");
  } else {
    REQUIRE(std::abs(*y.hyperbolic_mean_anomaly / Radian - c.M) <= bound * (1 + 1 / slope),
            "M/i is " << *y.hyperbolic_mean_anomaly / Radian << " not " << c.M);
    REQUIRE(std::isnan(*y.mean_anomaly / Radian), "M is not NaN");
  }
  CheckStates(s, c, orbit, epoch,
              tolerance * (c.Elliptic() || !true_anomaly ? 1 : 1 + 1 / slope));
  // Serialization.
  serialization::KeplerianElements message;
  y.WriteToMessage(&message);
  REQUIRE(message.eccentricity() == *y.eccentricity &&
              message.semimajor_axis().magnitude() == *y.semimajor_axis / Metre &&
              message.inclination().magnitude() == y.inclination / Radian &&
              message.argument_of_periapsis().magnitude() ==
                  *y.argument_of_periapsis / Radian &&
              message.longitude_of_ascending_node().magnitude() ==
                  y.longitude_of_ascending_node / Radian &&
              message.true_anomaly().magnitude() == *y.true_anomaly / Radian &&
              message.periapsis_distance().magnitude() == *y.periapsis_distance / Metre &&
              message.apoapsis_distance().magnitude() == *y.apoapsis_distance / Metre &&
              message.semilatus_rectum().magnitude() == *y.semilatus_rectum / Metre,
          "serialization " << message.ShortDebugString());
}

// A state, to an orbit, and back.
void FromState(Src& s, Ctx& ctx) {
  Conic c = MakeConic(s, ctx);
  c.μ = static_cast<double>(c.μ);
  bool const degenerate = s.chance(1, 5);
  if (!c.Elliptic()) {
    // Not too close to the asymptote.
    c.M = c.MeanOf(0.97L * c.True(c.M));
  }
  int planar = 0;
  State initial = c.At(0);
  if (degenerate) {
    // In the plane of reference, forward or backward, or circular.
    planar = s.range(1, 3);
    if (planar != 3) {
      c.i = planar == 1 ? 0 : ref::π;
      Real const ϖ = c.ω;
      c.Ω = 0;
      c.ω = ϖ;
      initial = c.At(0);
      initial.q[2] = 0;
      initial.v[2] = 0;
    } else {
      if (!c.Elliptic()) throw pbt::Discard{};
      // Exactly circular: representable.
      c.μ = std::ldexp(1.0L, 2 * s.range(0, 20));
      Real const a = std::ldexp(1.0L, 2 * s.range(0, 10));
      Real const v = std::sqrt(c.μ / a);
      int const axis = s.below(3);
      int const other = (axis + 1 + s.below(2)) % 3;
      initial = {};
      initial.q[axis] = s.coin() ? a : -a;
      initial.v[other] = s.coin() ? v : -v;
    }
    ctx.label(planar == 3 ? "circular" : "planar");
  }
  initial.q = Of(convert::Make<Displacement<World>>(initial.q));
  initial.v = Of(convert::Make<Velocity<World>>(initial.v));
  // The elements of the state after rounding.
  Real const r = Norm(initial.q);
  Vec const h = Cross(initial.q, initial.v);
  Vec const ev = (1 / c.μ) * Cross(initial.v, h) - (1 / r) * initial.q;
  Real const ε = Dot(initial.v, initial.v) / 2 - c.μ / r;
  c.e = Norm(ev);
  if (c.e == 1) throw pbt::Discard{};
  c.a = -c.μ / (2 * ε);
  c.i = std::atan2(std::hypot(h[0], h[1]), h[2]);
  c.Ω = h[0] == 0 && h[1] == 0 ? 0 : std::atan2(h[0], -h[1]);
  Vec p, q;
  c.ω = 0;
  c.Basis(p, q);
  // From the ascending node.
  Real const u = std::atan2(Dot(initial.q, q), Dot(initial.q, p));
  c.ω = c.e == 0 ? 0 : std::atan2(Dot(ev, q), Dot(ev, p));
  c.M = c.MeanOf(std::remainder(u - c.ω, 2 * ref::π));
  double const epoch = static_cast<double>(s.sym(1) / c.n());
  ctx.nontrivial(!degenerate);
  ctx.note() << initial << " e " << c.e << " a " << c.a << " i " << c.i << " Ω " << c.Ω
             << " ω " << c.ω << " M " << c.M << " ";
  MassiveBody const body{MassiveBody::Parameters(
      static_cast<double>(c.μ) * Body::SIUnit())};
  Orbit const orbit(body, MasslessBody{}, MakeRelative(initial), At(epoch));
  Elements const& y = orbit.elements_at_epoch();
  Real const κ = (Dot(initial.v, initial.v) / 2 + c.μ / r) / std::abs(ε);
  // The angular momentum.
  Real const sine = Norm(h) / (r * Norm(initial.v));
  Real tolerance = 2e-13L * Condition(c) * κ / sine;
  if (!c.Elliptic()) {
    // The hyperbolic anomaly is an inverse cosine.
    Real const H = std::abs(c.Ecc(c.M));
    tolerance += std::min(1e-14L / H, 1e-7L) * c.e * std::cosh(H);
  }
  // The direction of the periapsis.
  if (c.e > 1e-8L) tolerance += 2e-15L / c.e;
  if (tolerance > 1e-4L) throw pbt::Discard{};
  if (c.e > 1e-3L) {
    CheckElements(c, y, tolerance / std::min<Real>(c.e * c.e, 1) *
                            (1 + c.e * c.e));
  }
  REQUIRE(std::abs(y.inclination / Radian - c.i) <= tolerance, "inclination "
          << y.inclination << " not " << c.i);
  if (planar == 0) {
    Real const δ = tolerance / std::sin(c.i);
    REQUIRE(std::abs(Mod(y.longitude_of_ascending_node / Radian - c.Ω)) <= δ,
            "Ω is " << y.longitude_of_ascending_node << " not " << c.Ω);
    Real const ω = δ + tolerance / c.e;
    REQUIRE(std::abs(Mod(*y.argument_of_periapsis / Radian - c.ω)) <= ω,
            "ω is " << *y.argument_of_periapsis << " not " << c.ω);
    REQUIRE(std::abs(Mod((*y.argument_of_periapsis + *y.true_anomaly) / Radian - u)) <=
                2 * δ, "argument of latitude");
    REQUIRE(std::abs(Mod((*y.longitude_of_periapsis - *y.argument_of_periapsis -
                          y.longitude_of_ascending_node) / Radian)) <= 1e-14,
            "longitude of periapsis");
  }
  CheckStates(s, c, orbit, epoch, tolerance);
}

// Kepler's equation at the ends of the intervals where its root lies.
void Equation(Src& s, Ctx& ctx) {
  Conic c;
  c.μ = 1;
  c.a = 1;
  c.e = s.coin() ? s.real(0.0, 0.999) : s.log(1e-17, 1);
  if (c.e >= 1) throw pbt::Discard{};
  c.i = 1;
  c.Ω = 1;
  c.ω = 1;
  // The eccentric anomaly, at the ends if its sine is ±1.
  int const k = s.range(-200, 200);
  Real const E = (2 * k + 1) * (ref::π / 2) +
                 (s.coin() ? 0 : s.sym(1) * (s.coin() ? 1e-8L : 1e-3L));
  double M = static_cast<double>(E - c.e * std::sin(E));
  int const ulps = s.range(-3, 3);
  for (int i = 0; i < std::abs(ulps); ++i) M = std::nextafter(M, ulps > 0 ? 1e3 : -1e3);
  c.M = M;
  Elements x = Orientation(c, false);
  x.eccentricity = static_cast<double>(c.e);
  x.semimajor_axis = 1 * Metre;
  x.mean_anomaly = M * Radian;
  if (s.chance(1, 3)) {
    // Near the periapsis of a hyperbola.
    c.a = -1;
    c.e = s.coin() ? s.real(1.01, 3) : s.log(1.01, 1e6);
    M = s.log(1e-20, 1e-1) * (s.coin() ? 1 : -1);
    if (s.chance(1, 10)) M = 0;
    c.M = M;
    x.eccentricity = static_cast<double>(c.e);
    x.semimajor_axis = -1 * Metre;
    x.mean_anomaly.reset();
    x.hyperbolic_mean_anomaly = M * Radian;
    if (s.coin()) {
      double const ν = s.log(1e-12, 1) * (s.coin() ? 1 : -1);
      x.hyperbolic_mean_anomaly.reset();
      x.true_anomaly = ν * Radian;
      Orbit const orbit(MassiveBody(MassiveBody::Parameters(Body::SIUnit())),
                        MasslessBody{}, x, At(0));
      Real const expected = c.MeanOf(ν);
      double const actual = *orbit.elements_at_epoch().hyperbolic_mean_anomaly / Radian;
      ctx.note() << "e " << c.e << " ν " << ν << " ";
      // The hyperbolic cosine is computed to within a few roundings.
      Real const H = std::abs(2 * std::atanh(std::sqrt((c.e - 1) / (c.e + 1)) *
                                             std::tan((Real)ν / 2)));
      Real const ε = std::min(1e-15L / H, 1e-7L) * 4 * std::cosh(H);
      REQUIRE(std::abs(actual - expected) <=
                  ε * (c.e * std::cosh(H) - 1) + 1e-14L * std::abs(expected),
              "M/i is " << actual << " not " << expected);
      return;
    }
  }
  ctx.note() << "e " << c.e << " M " << M << " ";
  ctx.label(c.Elliptic() ? "elliptic" : "hyperbolic");
  ctx.nontrivial(c.e > 1e-15L);
  MassiveBody const body{MassiveBody::Parameters(Body::SIUnit())};
  Orbit const orbit(body, MasslessBody{}, x, At(0));
  Real const ν = c.True(c.M);
  REQUIRE(std::abs(Mod(*orbit.elements_at_epoch().true_anomaly / Radian - ν)) <=
              1e-14L * (1 + std::abs(c.M)) / std::pow(std::min<Real>(std::abs(1 - c.e), 1), 1.5L),
          "ν is " << *orbit.elements_at_epoch().true_anomaly << " not " << ν);
}

// Jacobi coordinates and hierarchies.
struct Node {
  double μ;
  std::string name;
  Conic orbit;
  Elements elements;
  std::vector<Node> satellites;
  MassiveBody const* body = nullptr;
  Real Total() const {
    Real total = μ;
    for (auto const& n : satellites) total += n.Total();
    return total;
  }
};

struct Placed {
  std::string name;
  Real μ;
  State state;
};
// With respect to the barycentre.
std::vector<Placed> Layout(Node& node, bool const sort) {
  if (sort) {
    std::sort(node.satellites.begin(), node.satellites.end(),
              [](Node const& l, Node const& r) { return l.orbit.a < r.orbit.a; });
  }
  std::vector<Placed> placed{{node.name, node.μ, {}}};
  // The barycentre of what was placed, relative to the primary.
  Real total = node.μ;
  State barycentre{};
  for (auto& n : node.satellites) {
    auto const inner = Layout(n, sort);
    Real const μ = n.Total();
    Conic c = n.orbit;
    c.μ = total + μ;
    State const relative = c.At(0);
    State const centre{barycentre.q + relative.q, barycentre.v + relative.v};
    for (auto const& p : inner) {
      placed.push_back({p.name, p.μ, {centre.q + p.state.q, centre.v + p.state.v}});
    }
    barycentre.q = (1 / (total + μ)) * (total * barycentre.q + μ * centre.q);
    barycentre.v = (1 / (total + μ)) * (total * barycentre.v + μ * centre.v);
    total += μ;
  }
  for (auto& p : placed) {
    p.state.q = p.state.q - barycentre.q;
    p.state.v = p.state.v - barycentre.v;
  }
  return placed;
}

Node MakeNode(Src& s, int const depth, int& counter, double const μ, Real const size,
              int const style) {
  Node node;
  node.μ = μ;
  node.name = "body " + std::to_string(++counter) + std::string(1, 'a' + s.below(26));
  if (depth > 0) {
    int const n = s.below(4);
    for (int k = 0; k < n && counter < 14; ++k) {
      // All distinct.
      Real const a = size * s.real(0.1, 1) * (1 + 1e-3L * counter);
      Node child = MakeNode(s, s.coin() ? depth - 1 : 0, counter,
                            μ * s.log(1e-6, 0.3), a * 0.05L, style);
      Conic& c = child.orbit;
      c.e = s.real(0.05, 0.7);
      c.a = static_cast<double>(a);
      c.i = s.real(0.05, 3);
      c.Ω = s.real(0, 6.28);
      c.ω = s.real(0, 6.28);
      c.M = s.real(0, 6.28);
      child.elements = Orientation(c, s.coin());
      child.elements.eccentricity = static_cast<double>(c.e);
      child.elements.mean_anomaly = static_cast<double>(c.M) * Radian;
      child.elements.semimajor_axis = static_cast<double>(c.a) * Metre;
      node.satellites.push_back(std::move(child));
    }
  }
  return node;
}

void Hierarchy(Src& s, Ctx& ctx) {
  int counter = 0;
  Node root = MakeNode(s, 3, counter, s.log(1, 1e20), s.log(1, 1e12), 0);
  bool const jacobi =
      s.coin() && std::all_of(root.satellites.begin(), root.satellites.end(),
                              [](Node const& n) { return n.satellites.empty(); });
  ctx.nontrivial(counter > 2);
  ctx.label(jacobi ? "jacobi" : "hierarchical");
  ctx.label_if(counter > 5, "many bodies");
  ctx.note() << counter << " bodies ";
  auto const make_body = [](Node const& n) {
    return std::make_unique<MassiveBody const>(
        MassiveBody::Parameters(n.name, n.μ * Body::SIUnit()));
  };
  std::vector<Placed> expected;
  std::vector<Placed> actual;
  if (jacobi) {
    expected = Layout(root, false);
    JacobiCoordinates<World> coordinates(*make_body(root));
    Real total = root.μ;
    for (auto const& n : root.satellites) {
      Conic c = n.orbit;
      c.μ = total + n.μ;
      total += n.μ;
      if (s.coin()) {
        coordinates.Add(*make_body(n), n.elements);
      } else {
        coordinates.Add(*make_body(n), MakeRelative(c.At(0)));
      }
      REQUIRE(Near(coordinates.System().gravitational_parameter() / Body::SIUnit(), total,
                   1e-14L), "total mass");
    }
    auto const dofs = coordinates.BarycentricDegreesOfFreedom();
    REQUIRE(dofs.size() == expected.size(), "number of bodies");
    for (int k = 0; k < dofs.size(); ++k) {
      actual.push_back({expected[k].name, expected[k].μ, OfRelative(dofs[k])});
    }
  } else {
    auto primary = make_body(root);
    root.body = primary.get();
    HierarchicalSystem<World> system(std::move(primary));
    // In any order such that the parents come first.
    std::vector<std::pair<MassiveBody const*, Node const*>> waiting;
    for (auto const& n : root.satellites) waiting.emplace_back(root.body, &n);
    while (!waiting.empty()) {
      int const k = s.below(waiting.size());
      auto const [parent, n] = waiting[k];
      waiting.erase(waiting.begin() + k);
      auto body = make_body(*n);
      for (auto const& m : n->satellites) waiting.emplace_back(body.get(), &m);
      system.Add(std::move(body), parent, n->elements);
    }
    serialization::HierarchicalSystem message;
    system.WriteToMessage(&message);
    expected = Layout(root, true);
    auto const result = system.ConsumeBarycentricSystem();
    REQUIRE(result.bodies.size() == expected.size() &&
                result.degrees_of_freedom.size() == expected.size(), "number of bodies");
    for (int k = 0; k < expected.size(); ++k) {
      auto const& dof = result.degrees_of_freedom[k];
      actual.push_back({result.bodies[k]->name(),
                        result.bodies[k]->gravitational_parameter() / Body::SIUnit(),
                        {Of(dof.position()), Of(dof.velocity())}});
    }
    // The message has the same hierarchy, sorted by name.
    std::function<void(serialization::MassiveBody const&, Node const&,
                       google::protobuf::RepeatedPtrField<
                           serialization::HierarchicalSystem::Subsystem> const&)>
        check = [&](auto const& primary, Node const& n, auto const& satellites) {
          REQUIRE(primary.name() == n.name &&
                      primary.gravitational_parameter().magnitude() == n.μ,
                  "serialized body " << primary.name());
          std::map<std::string, Node const*> sorted;
          for (auto const& m : n.satellites) sorted[m.name] = &m;
          REQUIRE(sorted.size() == satellites.size(), "serialized satellites");
          int k = 0;
          for (auto const& [_, m] : sorted) {
            REQUIRE(satellites[k].jacobi_osculating_elements().eccentricity() ==
                        (double)m->orbit.e, "serialized elements");
            check(satellites[k].primary(), *m, satellites[k].satellites());
            ++k;
          }
        };
    check(message.system().primary(), root, message.system().satellites());
  }
  Real size = 0, speed = 0;
  for (auto const& p : expected) {
    size = std::max(size, Norm(p.state.q));
    speed = std::max(speed, Norm(p.state.v));
  }
  for (auto const& n : root.satellites) {
    speed = std::max(speed, std::sqrt(root.Total() / (n.orbit.a * (1 - n.orbit.e))));
    size = std::max(size, 2 * n.orbit.a);
  }
  for (int k = 0; k < expected.size(); ++k) {
    REQUIRE(actual[k].name == expected[k].name && Near(actual[k].μ, expected[k].μ, 1e-15L),
            "body " << k << " is " << actual[k].name << " not " << expected[k].name);
    REQUIRE(Norm(actual[k].state.q - expected[k].state.q) <= 1e-12L * size &&
                Norm(actual[k].state.v - expected[k].state.v) <= 1e-12L * speed,
            actual[k].name << " at " << actual[k].state << ", expected "
                           << expected[k].state);
  }
}

// Barycentres.
void Barycentres(Src& s, Ctx& ctx) {
  int const n = s.range(1, 12);
  bool const signs = s.chance(1, 3);
  std::vector<Real> weights;
  std::vector<State> states;
  Real total = 0, absolute = 0;
  State sum{};
  Real size = 0, speed = 0;
  BarycentreCalculator<DegreesOfFreedom<World>, GravitationalParameter> calculator;
  BarycentreCalculator<Position<World>, double> positions;
  BarycentreCalculator<Velocity<World>, Mass> velocities;
  auto const dof_of = [](State const& x) {
    return DegreesOfFreedom<World>(convert::Make<Position<World>>(x.q),
                                   convert::Make<Velocity<World>>(x.v));
  };
  for (int k = 0; k < n; ++k) {
    double const w = s.log(1e-3, 1e3) * (signs && s.coin() ? -1 : 1);
    State x{{s.sym(1e6), s.sym(1e6), s.sym(1e6)}, {s.sym(1e3), s.sym(1e3), s.sym(1e3)}};
    weights.push_back(w);
    states.push_back(x);
    total += w;
    absolute += std::abs(w);
    size = std::max(size, Norm(x.q));
    speed = std::max(speed, Norm(x.v));
    sum = {sum.q + (Real)w * x.q, sum.v + (Real)w * x.v};
    calculator.Add(dof_of(x), w * Body::SIUnit());
    positions.Add(dof_of(x).position(), w);
    velocities.Add(dof_of(x).velocity(), w * Kilogram);
    if (std::abs(total) < 0.01L * absolute) throw pbt::Discard{};
    Real const bound = 1e-14L * absolute / std::abs(total);
    Vec const q = (1 / total) * sum.q, v = (1 / total) * sum.v;
    REQUIRE(Near(calculator.weight() / Body::SIUnit(), total, bound) &&
                Near(positions.weight(), total, bound) &&
                Near(velocities.weight() / Kilogram, total, bound), "weight");
    auto const dof = calculator.Get();
    Real const κ = absolute / std::abs(total);
    REQUIRE(Norm(Of(dof.position()) - q) <= bound * size * κ &&
                Norm(Of(dof.velocity()) - v) <= bound * speed * κ &&
                Norm(Of(positions.Get()) - q) <= bound * size * κ &&
                Norm(Of(velocities.Get()) - v) <= bound * speed * κ,
            "barycentre of " << k + 1);
  }
  ctx.nontrivial(n > 1);
  ctx.label_if(signs, "signed weights");
  if (n >= 3) {
    Position<World> const p[] = {dof_of(states[0]).position(), dof_of(states[1]).position(),
                                 dof_of(states[2]).position()};
    double const w[] = {(double)weights[0], (double)weights[1], (double)weights[2]};
    Real const t = weights[0] + weights[1] + weights[2];
    Real const κ = (std::abs(weights[0]) + std::abs(weights[1]) + std::abs(weights[2])) /
                   std::abs(t);
    Vec const q = (1 / t) * (weights[0] * states[0].q + weights[1] * states[1].q +
                             weights[2] * states[2].q);
    REQUIRE(Norm(Of(Barycentre(p, w)) - q) <= 1e-14L * size * κ * κ, "weighted");
    Vec const mean = (1 / 3.0L) * (states[0].q + states[1].q + states[2].q);
    REQUIRE(Norm(Of(Barycentre(p)) - mean) <= 1e-14L * size, "mean");
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"elements", "orbits given by any valid set of elements", 60'000, 6'000'000,
        FromElements},
       {"states", "orbits given by state vectors", 60'000, 6'000'000, FromState},
       {"equation", "extreme cases of Kepler's equation", 60'000, 12'000'000, Equation},
       {"hierarchies", "Jacobi coordinates and hierarchical systems", 20'000, 2'000'000,
        Hierarchy},
       {"barycentres", "barycentres", 40'000, 4'000'000, Barycentres}});
}
