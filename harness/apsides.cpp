// P22: apsides, nodes and collisions.

#include "physics/apsides.hpp"

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <iterator>
#include <map>
#include <optional>
#include <set>
#include <utility>
#include <vector>

#include "convert.hpp"
#include "fatal.hpp"
#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/interval.hpp"
#include "geometry/space.hpp"
#include "pbt.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/discrete_trajectory.hpp"
#include "physics/massive_body.hpp"
#include "physics/rotating_body.hpp"
#include "physics/trajectory.hpp"
#include "quantities/si.hpp"
#include "serialization/geometry.pb.h"

namespace {

using convert::At;
using convert::In;
using convert::Of;
using pbt::Ctx;
using pbt::Src;
using principia::geometry::_instant::Instant;
using principia::geometry::_interval::Interval;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_space;
using namespace principia::geometry::_grassmann;
using principia::physics::_degrees_of_freedom::DegreesOfFreedom;
using principia::physics::_discrete_trajectory::DiscreteTrajectory;
using principia::physics::_massive_body::MassiveBody;
using principia::physics::_rotating_body::RotatingBody;
using principia::physics::_trajectory::Trajectory;
using namespace principia::physics::_apsides;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using ref::Norm;
using ref::Real;
using ref::Vec;

namespace serialization = principia::serialization;
using World = Frame<serialization::Frame::TestTag, Inertial, Handedness::Right,
                    serialization::Frame::TEST>;
using Points = DistinguishedPoints<World>;

struct State {
  Vec q;
  Vec v;
};
using Motion = std::function<State(Real)>;

DegreesOfFreedom<World> Rounded(State const& s) {
  return {World::origin + convert::Make<Displacement<World>>(s.q),
          convert::Make<Velocity<World>>(s.v)};
}

// A trajectory given by a function.
class Analytic : public Trajectory<World> {
 public:
  Analytic(Motion motion, double const t_min, double const t_max)
      : motion_(std::move(motion)), t_min_(t_min), t_max_(t_max) {}
  Instant t_min() const override { return At(t_min_); }
  Instant t_max() const override { return At(t_max_); }
  Position<World> EvaluatePosition(Instant const& t) const override {
    return EvaluateDegreesOfFreedom(t).position();
  }
  Velocity<World> EvaluateVelocity(Instant const& t) const override {
    return EvaluateDegreesOfFreedom(t).velocity();
  }
  DegreesOfFreedom<World> EvaluateDegreesOfFreedom(
      Instant const& t) const override {
    return Rounded(motion_(In(t)));
  }

 private:
  Motion const motion_;
  double const t_min_;
  double const t_max_;
};

Vec RandomDirection(Src& s) {
  for (;;) {
    Vec const v{s.sym(1), s.sym(1), s.sym(1)};
    Real const n = Norm(v);
    if (n > 0.1L && n < 1) return (1 / n) * v;
    if (n == 0) return {1, 0, 0};
  }
}

void Basis(Src& s, Vec& x, Vec& y, Vec& z) {
  z = RandomDirection(s);
  Vec const a = std::abs(z[0]) < 0.6L ? Vec{1, 0, 0} : Vec{0, 1, 0};
  x = ref::Cross(a, z);
  x = (1 / Norm(x)) * x;
  y = ref::Cross(z, x);
}

struct Kepler {
  Real a, e, n, tp;
  Vec x, y;
  Real E(Real const t) const {
    Real const M = n * (t - tp);
    Real const turns = std::floor(M / (2 * ref::π) + 0.5L);
    Real const m = M - 2 * ref::π * turns;
    Real lo = -ref::π, hi = ref::π, E = m;
    for (int i = 0; i < 200; ++i) {
      Real const f = E - e * std::sin(E) - m;
      if (f > 0) hi = E; else lo = E;
      Real next = E - f / (1 - e * std::cos(E));
      if (!(next > lo && next < hi)) next = (lo + hi) / 2;
      if (std::abs(next - E) < 1e-18L) break;
      E = next;
    }
    return E + 2 * ref::π * turns;
  }
  State operator()(Real const t) const {
    Real const u = E(t), c = std::cos(u), s = std::sin(u), b = std::sqrt(1 - e * e);
    Real const u̇ = n / (1 - e * c);
    return {a * (c - e) * x + a * b * s * y,
            -a * s * u̇ * x + a * b * c * u̇ * y};
  }
};

// A sum of sinusoids along each axis.
struct Lissajous {
  struct Term { Vec amplitude; Real ω, φ; };
  std::vector<Term> terms;
  State operator()(Real const t) const {
    State r{};
    for (auto const& k : terms) {
      r.q = r.q + std::sin(k.ω * t + k.φ) * k.amplitude;
      r.v = r.v + k.ω * std::cos(k.ω * t + k.φ) * k.amplitude;
    }
    return r;
  }
  Real Size() const {
    Real m = 0;
    for (auto const& k : terms) m += Norm(k.amplitude);
    return m;
  }
};

Lissajous RandomLissajous(Src& s, Real const size, Real const ω) {
  Lissajous l;
  for (int n = 0; s.more(n, 1, 4, 2); ++n) {
    l.terms.push_back({size * s.real(0.1, 1) * RandomDirection(s), ω * s.real(0.2, 1),
                       s.sym(3.2)});
  }
  return l;
}

Motion Sum(Motion const& a, Motion const& b) {
  return [a, b](Real const t) -> State {
    State const x = a(t), y = b(t);
    return {x.q + y.q, x.v + y.v};
  };
}

struct Event {
  Instant t;
  DegreesOfFreedom<World> dof;
  bool first;  // Apoapsis or ascending.
};

std::vector<Event> Merge(Points const& first, Points const& second) {
  std::vector<Event> r;
  for (auto const& [t, d] : first) r.push_back({t, d, true});
  for (auto const& [t, d] : second) r.push_back({t, d, false});
  std::stable_sort(r.begin(), r.end(),
                   [](Event const& a, Event const& b) { return a.t < b.t; });
  return r;
}

void RequireSame(std::vector<Event> const& events, std::size_t const n, int const a0,
                 int const b0, Points const& a, Points const& b, char const* const what) {
  std::size_t na = 0, nb = 0;
  for (std::size_t i = 0; i < n; ++i) {
    auto const& p = events[i].first ? a : b;
    auto const it = p.find(events[i].t);
    REQUIRE(it != p.end() && it->second == events[i].dof, what << ": event " << i << " missing");
    (events[i].first ? na : nb)++;
  }
  REQUIRE(a.size() == na + a0 && b.size() == nb + b0,
          what << ": " << a.size() << " and " << b.size() << " points instead of " << na + a0
               << " and " << nb + b0);
}

void TestApsides(Src& s, Ctx& ctx) {
  bool const kepler = s.coin();
  Real const size = s.log(1, 1e10), period = s.log(1, 1e8);
  Kepler k{size, s.coin() ? s.real(0.02, 0.9) : s.log(1e-3, 0.3), 2 * ref::π / period,
           s.sym(period)};
  Vec z;
  Basis(s, k.x, k.y, z);
  // The highest frequency.
  Real const ω_max = kepler ? k.n * std::sqrt(1 + k.e) / std::pow(1 - k.e, 1.5L) : k.n;
  Motion relative;
  if (kepler) {
    relative = k;
  } else {
    auto const l = RandomLissajous(s, size, k.n);
    Vec const offset = size * s.real(0, 2) * RandomDirection(s);
    relative = [l, offset](Real const t) -> State {
      State r = l(t);
      return {r.q + offset, r.v};
    };
  }
  Real const far = s.coin() ? 0 : s.real(0, 10);
  Vec const q0 = size * far * RandomDirection(s),
            v0 = size / period * far * RandomDirection(s);
  Motion const reference = [q0, v0](Real const t) -> State {
    return {q0 + t * v0, v0};
  };
  Motion const motion = Sum(reference, relative);

  // Sample.
  DiscreteTrajectory<World> trajectory;
  std::vector<double> times;
  double t = static_cast<double>(s.sym(period));
  double const h_max = static_cast<double>(0.25L / ω_max);
  bool const at_apsides = kepler && s.chance(1, 4);
  while (s.more(times.size(), 3, 400, 150)) {
    times.push_back(t);
    REQUIRE(trajectory.Append(At(t), Rounded(motion(t))).ok(), "append");
    double next = t + h_max * static_cast<double>(s.coin() ? 1 : s.real(0.05, 1));
    if (kepler && !at_apsides) {
      // Longer steps far from the periapsis.
      Real const r = 1 - k.e * std::cos(k.E(t));
      next = t + (next - t) * static_cast<double>(std::pow(r / (1 - k.e), 1.0L));
    }
    if (at_apsides) {
      // Put points at the apsides, give or take some rounding.
      Real const m = k.n * (t - k.tp) / ref::π;
      double const apsis = static_cast<double>(k.tp + (std::floor(m) + 1) * ref::π / k.n);
      if (apsis > t && apsis < next) {
        next = apsis + s.range(-3, 3) * std::abs(apsis) * 0x1p-52;
        // Not so close that the times of the apsides are pure noise.
        if (next - t < 100 * std::abs(apsis) * 0x1p-52) next = t + h_max;
      }
    }
    t = next;
  }
  double const t_first = times.front(), t_last = times.back();
  double const length = t_last - t_first;
  double const ref_min = s.coin() ? t_first - 1 : t_first + s.real(0, 0.5) * length;
  double const ref_max = s.coin() ? t_last + 1 : t_last - s.real(0, 0.4) * length;
  double const t_max = s.coin() ? t_last + 1 : t_last - s.real(0, 0.4) * length;
  Analytic const reference_trajectory(reference, ref_min, ref_max);
  auto const begin = std::next(trajectory.begin(), s.chance(1, 4) ? 1 : 0);
  auto const end = trajectory.end();

  // The signs of the derivative of the distance, 0 when unclear.
  struct Sample { double t; int sign; };
  std::vector<Sample> samples;
  Real const spread = (size + Norm(q0) + Norm(v0) * std::max(std::abs(t_first), std::abs(t_last))) / size;
  for (auto it = begin; it != end; ++it) {
    double const ti = static_cast<double>(In(it->time));
    if (ti < ref_min || ti > std::min(t_max, ref_max)) continue;
    auto const b = reference_trajectory.EvaluateDegreesOfFreedom(it->time);
    Vec const q = Of(it->degrees_of_freedom.position()) - Of(b.position());
    Vec const v = Of(it->degrees_of_freedom.velocity()) - Of(b.velocity());
    Real const d = Dot(q, v);
    Real const noise = 1e-15L * Norm(q) * Norm(v);
    samples.push_back({ti, d > noise ? 1 : d < -noise ? -1 : 0});
  }

  Points apoapsides, periapsides;
  ComputeApsides(reference_trajectory, trajectory, begin, end, At(t_max), 1'000'000,
                 apoapsides, periapsides);
  auto const events = Merge(apoapsides, periapsides);
  std::size_t e = 0;
  std::size_t expected = 0;
  bool unclear = false;
  for (std::size_t i = 0; i < samples.size();) {
    if (samples[i].sign == 0) {
      // At the beginning.
      unclear = true;
      while (e < events.size() && i + 1 < samples.size() &&
             events[e].t <= At(samples[i + 1].t)) ++e;
      ++i;
      continue;
    }
    std::size_t j = i + 1;
    while (j < samples.size() && samples[j].sign == 0) { ++j; unclear = true; }
    std::size_t n = 0;
    double const last = j < samples.size() ? samples[j].t : samples.back().t;
    std::size_t const e0 = e;
    while (e < events.size() && events[e].t <= At(last)) { ++e; ++n; }
    if (j < samples.size()) {
      double const h = last - samples[i].t;
      // An apsis at a sample may belong to the next step.
      if (n == (samples[j].sign != samples[i].sign ? 2 : 1) && events[e - 1].t == At(last)) {
        --e;
        --n;
      }
      if (samples[j].sign != samples[i].sign) {
        ++expected;
        REQUIRE(n == 1 || (n % 2 == 1 && j > i + 1),
                (apoapsides.size() + periapsides.size()) << " in all, " << e << " so far, " << samples.size() << "/" << i << " samples; " << n << " apsides between " << samples[i].t << " and " << last << " in "
                  << j - i << " steps");
        if (n == 1) {
          REQUIRE(events[e0].first == (samples[i].sign > 0), "apoapsis or periapsis");
          REQUIRE(events[e0].t >= At(samples[i].t), "time of the apsis");
          Real const at = In(events[e0].t);
          // The distance is stationary there.
          if (kepler) {
            Real const m = (at - k.tp) * k.n / ref::π;
            Real const nearest = k.tp + std::round(m) * ref::π / k.n;
            Real const tolerance =
                h * (0.02L * ω_max * h * ω_max * h) +
                1e-15L * spread * spread / (k.e * k.n) * (1 + 1 / (k.n * h)) + 1e-15L * (std::abs(t_first) + std::abs(t_last));
            if (tolerance < 0.02L / k.n) REQUIRE((std::llround(m) % 2 == 0) == !events[e0].first, "kind of apsis");
            REQUIRE(std::abs(at - nearest) <= tolerance,
                    "apsis at " << at << " instead of " << nearest << ", step " << h
                                << ", tolerance " << tolerance << " start " << samples[i].t << " e " << k.e << " n " << k.n << " a " << k.a << " spread " << spread << " j-i " << j - i);
          }
        }
      } else {
        REQUIRE(n == 0 || j > i + 1, "spurious apsis at " << In(events[e0].t) << " between " << samples[i].t << " and " << last << " signs " << samples[i].sign);
      }
    } else {
      REQUIRE(n == 0 || j > i + 1, "apsis after the end");
    }
    i = j;
  }
  REQUIRE(e == events.size() || unclear, "apsis out of range");
  for (auto const& event : events) {
    REQUIRE(trajectory.EvaluateDegreesOfFreedom(event.t) == event.dof, "state at the apsis");
    REQUIRE(!samples.empty() && event.t >= At(samples.front().t) &&
                event.t <= At(samples.back().t), "apsis outside of the requested range");
  }

  // With a limit, and points already there.
  {
    Points a, b;
    int const a0 = s.chance(1, 4), b0 = s.chance(1, 4);
    if (a0) a.emplace(At(t_first - 2 * length - 5), Rounded(motion(t_first)));
    if (b0) b.emplace(At(t_first - 3 * length - 6), Rounded(motion(t_first)));
    int const max_points = s.range(1, 4);
    ComputeApsides(reference_trajectory, trajectory, begin, end, At(t_max), max_points, a, b);
    int na = a0, nb = b0;
    std::size_t n = 0;
    while (n < events.size() && !(n > 0 && na >= max_points && nb >= max_points)) {
      (events[n].first ? na : nb)++;
      ++n;
    }
    if (!unclear) RequireSame(events, n, a0, b0, a, b, "with a limit");
  }
  ctx.nontrivial(expected >= 2);
  ctx.label(kepler ? "elliptical" : "sinusoidal");
  ctx.label_if(unclear, "at the apsides");
}

void TestNodes(Src& s, Ctx& ctx) {
  Real const size = s.log(1, 1e10), period = s.log(1, 1e8);
  Real const ω = 2 * ref::π / period;
  auto const l = RandomLissajous(s, size, ω);
  Real const offset = s.coin() ? 0 : size * s.sym(0.5);
  Motion const motion = [l, offset](Real const t) -> State {
    State r = l(t);
    r.q[2] += offset;
    return r;
  };
  DiscreteTrajectory<World> trajectory;
  double t = static_cast<double>(s.sym(period));
  Real const step = s.log(0.02, 2.5) / ω;
  std::vector<double> times;
  while (s.more(times.size(), 2, 200, 60)) {
    times.push_back(t);
    State x = motion(t);
    
    trajectory.Append(At(t), Rounded(x)).IgnoreError();
    t += static_cast<double>(step * (s.coin() ? 1 : s.real(0.05, 1)));
  }
  double const length = times.back() - times.front();
  double const t_max = s.coin() ? times.back() + 1 : times.back() - s.real(0, 0.5) * length;
  auto const begin = std::next(trajectory.begin(), s.chance(1, 4) ? 1 : 0);
  Vec north = RandomDirection(s);
  if (s.coin()) north = {0, 0, s.coin() ? 1.0L : -1.0L};
  if (north[2] == 0) north[2] = 1;
  auto const n = convert::Make<Vector<double, World>>(north);
  bool const filter = s.coin();
  auto const predicate = [filter](DegreesOfFreedom<World> const& d) {
    return !filter || Of(d.velocity())[0] > 0;
  };

  Points ascending, descending, all_ascending, all_descending;
  REQUIRE(ComputeNodes(trajectory, begin, trajectory.end(), At(t_max), n, 1'000'000,
                       all_ascending, all_descending).ok(), "status");
  auto const all = Merge(all_ascending, all_descending);
  std::size_t e = 0;
  bool turned = false;
  for (auto it = begin; std::next(it) != trajectory.end(); ++it) {
    auto const next = std::next(it);
    if (next->time > At(t_max)) break;
    Real const z0 = Of(it->degrees_of_freedom.position())[2];
    Real const z1 = Of(next->degrees_of_freedom.position())[2];
    if (std::signbit(z0) == std::signbit(z1)) continue;
    REQUIRE(e < all.size() && all[e].t >= it->time && all[e].t <= next->time,
            "no node between " << In(it->time) << " and " << In(next->time));
    bool const up = z1 >= 0;
    turned |= (Of(next->degrees_of_freedom.velocity())[2] > 0) != up;
    REQUIRE(all[e].first == (up == north[2] > 0),
            "node between z = " << z0 << " and " << z1 << " is "
                << (all[e].first ? "ascending" : "descending"));
    Real const h = In(next->time) - In(it->time);
    Real const scale = l.Size() + std::abs(offset) + l.Size() * ω * h;
    Real const v = Norm(Of(all[e].dof.velocity()));
    REQUIRE(std::abs(Of(all[e].dof.position())[2]) <=
                1e-14L * scale + (v + l.Size() * ω) * 4e-16L *
                    (std::abs(In(it->time)) + std::abs(In(next->time))),
            "node at z = " << Of(all[e].dof.position())[2] << " for a scale of " << scale);
    ++e;
  }
  REQUIRE(e == all.size(), "too many nodes");
  std::vector<Event> kept;
  for (auto const& event : all) {
    REQUIRE(trajectory.EvaluateDegreesOfFreedom(event.t) == event.dof, "state at the node");
    if (predicate(event.dof)) kept.push_back(event);
  }
  int const a0 = s.chance(1, 4), b0 = s.chance(1, 4);
  if (a0) ascending.emplace(At(times[0] - 2 * length - 5), Rounded(motion(t)));
  if (b0) descending.emplace(At(times[0] - 3 * length - 6), Rounded(motion(t)));
  int const max_points = s.coin() ? 1'000'000 : s.range(1, 4);
  REQUIRE(ComputeNodes(trajectory, begin, trajectory.end(), At(t_max), n, max_points,
                       ascending, descending, predicate).ok(), "status");
  int na = a0, nb = b0;
  std::size_t k = 0;
  while (k < kept.size() && !(k > 0 && na >= max_points && nb >= max_points)) {
    (kept[k].first ? na : nb)++;
    ++k;
  }
  RequireSame(kept, k, a0, b0, ascending, descending, "with a predicate");
  ctx.nontrivial(all.size() >= 2);
  ctx.label_if(filter && kept.size() < all.size(), "filtered");
  ctx.label_if(turned, "turns after the node");
}

struct Body {
  Real R_min, R, R_max;
  RotatingBody<World> body;
};

RotatingBody<World> MakeBody(Src& s, Real const R_min, Real const R, Real const R_max, Real const rotation) {
  return RotatingBody<World>(
      MassiveBody::Parameters(1e14 * si::Unit<GravitationalParameter>),
      RotatingBody<World>::Parameters(
          static_cast<double>(R_min) * Metre, static_cast<double>(R) * Metre,
          static_cast<double>(R_max) * Metre, 0 * Metre, /*has_ocean=*/false,
          s.sym(3) * Radian, At(s.sym(1e4)),
          static_cast<double>(rotation) * (Radian / Second), s.sym(3) * Radian,
          s.sym(1.5) * Radian));
}

void TestIntervals(Src& s, Ctx& ctx) {
  Real const R = s.log(1, 1e7);
  auto const body = MakeBody(s, 0.9L * R, 0.95L * R, R, 1e-4L);
  // The distance goes from an extremum to the next.
  std::vector<Real> r, t;
  bool high = s.coin();
  Real const τ = s.log(1, 1e6);
  t.push_back(static_cast<double>(s.sym(10 * τ)));
  while (s.more(r.size(), 2, 12, 5)) {
    if (!r.empty()) t.push_back(static_cast<double>(t.back() + τ * s.real(0.1, 1)));
    Real x;
    do {
      x = R * static_cast<Real>(s.coin() ? s.real(0.2, 0.9) : s.real(0.2, 3));
      if (r.empty()) break;
      if (high && x < r.back()) x = std::min(3 * R, r.back() + R * s.real(0.1, 0.5));
      if (!high && x > r.back()) x = std::max(0.05L * R, r.back() - R * s.real(0.1, 0.5));
    } while (false);
    if (!r.empty() && std::abs(x - r.back()) < 0.01L * R) throw pbt::Discard{};
    if (!r.empty() && (x > r.back()) != high) throw pbt::Discard{};
    if (std::abs(x - R) < 0.005L * R) throw pbt::Discard{};
    r.push_back(x);
    high = !high;
  }
  std::size_t const n = r.size();
  auto const distance = [&](Real const time) {
    std::size_t i = 0;
    while (i + 2 < n && t[i + 1] <= time) ++i;
    Real const u = (time - t[i]) / (t[i + 1] - t[i]);
    return r[i] + (r[i + 1] - r[i]) * (1 - std::cos(ref::π * u)) / 2;
  };
  Vec x, y, z;
  Basis(s, x, y, z);
  Real const ω = s.sym(3) / τ;
  Vec const q0 = R * s.real(0, 10) * RandomDirection(s);
  Vec const v0 = R / τ * s.real(0, 1) * RandomDirection(s);
  Motion const reference = [q0, v0](Real const t) -> State { return {q0 + t * v0, v0}; };
  Motion const motion = [&](Real const time) -> State {
    Real const θ = ω * (time - t[0]);
    return {reference(time).q + distance(time) * (std::cos(θ) * x + std::sin(θ) * y), v0};
  };
  double const t_min = static_cast<double>(s.coin() ? t[0] : t[0] + s.real(0.01, 0.8) * (t[1] - t[0]));
  double const t_max = static_cast<double>(
      s.coin() ? t[n - 1] : t[n - 1] - (n == 2 ? 0.19 : 0.9) * s.real(0.01, 1) * (t[n - 1] - t[n - 2]));
  if (std::abs(distance(t_min) - R) < 0.002L * R || std::abs(distance(t_max) - R) < 0.002L * R) {
    throw pbt::Discard{};
  }
  Analytic const reference_trajectory(reference, t_min - 1, t_max + 1);
  Analytic const trajectory(motion, t_min, t_max);
  Points apoapsides, periapsides;
  int const dropped = n > 5 && s.chance(1, 8) ? s.range(2, n - 3) : -1;
  for (std::size_t i = 1; i + 1 < n; ++i) {
    if (static_cast<int>(i) == dropped) continue;
    (r[i] > r[i - 1] ? apoapsides : periapsides).emplace(
        At(static_cast<double>(t[i])), Rounded(motion(t[i])));
  }
  auto const intervals = ComputeCollisionIntervals(body, reference_trajectory, trajectory,
                                                   apoapsides, periapsides);
  if (dropped > 0) {
    REQUIRE(intervals.empty(), "anomalous apsides");
    ctx.label("anomalous");
    return;
  }
  std::vector<std::pair<Real, Real>> expected;
  bool below = distance(t_min) < R;
  if (below) expected.emplace_back(t_min, 0);
  for (std::size_t i = 0; i + 1 < n; ++i) {
    if ((r[i] < R) == (r[i + 1] < R)) continue;
    Real const u = std::acos(1 - 2 * (R - r[i]) / (r[i + 1] - r[i])) / ref::π;
    Real const crossing = t[i] + u * (t[i + 1] - t[i]);
    if (crossing < t_min || crossing > t_max) continue;
    if (below) expected.back().second = crossing;
    else expected.emplace_back(crossing, 0);
    below = !below;
  }
  if (below) expected.back().second = t_max;
  REQUIRE(intervals.size() == expected.size(),
          intervals.size() << " intervals instead of " << expected.size());
  for (std::size_t i = 0; i < expected.size(); ++i) {
    Real const tolerance = 1e-8L * τ;
    REQUIRE(std::abs(In(intervals[i].min) - expected[i].first) <= tolerance &&
                std::abs(In(intervals[i].max) - expected[i].second) <= tolerance,
            "interval " << i << " is [" << In(intervals[i].min) << ", " << In(intervals[i].max)
                        << "] instead of [" << expected[i].first << ", " << expected[i].second << "]");
  }
  ctx.nontrivial(n > 2);
  ctx.label(expected.empty() ? "no interval" : expected.size() == 1 ? "one interval" : "several intervals");
}

void TestCollisions(Src& s, Ctx& ctx) {
  Real const R = s.log(1e4, 1e7);
  Real const relief = R * (s.chance(1, 4) ? 0 : s.log(1e-4, 0.1));
  Real const R_max = (R + relief) * (s.coin() ? 1 : 1 + s.real(0, 0.05));
  Real const speed = s.log(10, 9000);
  Real const crossing = 2 * R_max / speed;
  auto const body = MakeBody(s, R - relief, R, R_max, s.coin() ? 0.0L + 1e-6L / crossing : s.real(0.01, 1) * (s.coin() ? 1 : -1) / crossing);
  // A product of linear forms, to have no cusp at the poles.
  std::vector<Vec> forms;
  for (int i = s.range(1, 3); i > 0; --i) forms.push_back(RandomDirection(s));
  auto const terrain = [&](Angle const& latitude, Angle const& longitude) {
    Real const β = In(latitude), λ = In(longitude);
    Vec const n{std::cos(β) * std::cos(λ), std::cos(β) * std::sin(λ), std::sin(β)};
    Real product = relief;
    for (auto const& form : forms) product *= Dot(form, n);
    return static_cast<double>(R + product) * Metre;
  };
  // A slightly curved path.
  Vec x, y, z;
  Basis(s, x, y, z);
  Real const impact = R_max * (s.coin() ? s.real(0.05, 0.98) : s.real(0.9, 0.99));
  Real const curvature = s.coin() ? 0 : s.sym(0.3) / R_max;
  Vec const v0 = s.coin() ? Vec{} : 1000 * RandomDirection(s);
  Motion const reference = [v0](Real const t) -> State { return {t * v0, v0}; };
  Motion const motion = [=](Real const t) -> State {
    Real const d = speed * t;
    return {t * v0 + d * x + impact * y + curvature * d * d / 2 * y, v0};
  };
  // The interval, by bisection.
  auto const radius = [&](Real const t) { return Norm(motion(t).q - reference(t).q); };
  Real outside = -crossing, inside = 0;
  if (radius(inside) >= R_max || radius(outside) <= R_max) throw pbt::Discard{};
  for (int i = 0; i < 100; ++i) {
    Real const mid = (outside + inside) / 2;
    (radius(mid) > R_max ? outside : inside) = mid;
  }
  Real const t0 = inside;
  outside = crossing, inside = 0;
  if (radius(outside) <= R_max) throw pbt::Discard{};
  for (int i = 0; i < 100; ++i) {
    Real const mid = (outside + inside) / 2;
    (radius(mid) > R_max ? outside : inside) = mid;
  }
  Real const t1 = inside;
  Analytic const reference_trajectory(reference, static_cast<double>(-2 * crossing),
                                      static_cast<double>(2 * crossing));
  Analytic const trajectory(motion, static_cast<double>(-2 * crossing),
                            static_cast<double>(2 * crossing));
  Interval<Instant> interval;
  interval.min = At(static_cast<double>(t0));
  interval.max = At(static_cast<double>(t1));
  Length const max_error = s.log(0.1, 100) * Metre;
  Real const ε = In(max_error);
  auto const collision = ComputeFirstCollision(body, reference_trajectory, trajectory, interval,
                                               max_error, terrain);

  using SurfaceFrame = principia::geometry::_frame::Frame<struct SurfaceTag>;
  auto const height = [&](Real const t) {
    Instant const at = At(static_cast<double>(t));
    auto const q = body.ToSurfaceFrame<SurfaceFrame>(at)(
        trajectory.EvaluatePosition(at) - reference_trajectory.EvaluatePosition(at));
    auto const c = q.coordinates().ToSpherical();
    return In(c.radius) - In(terrain(c.latitude, c.longitude));
  };
  // When the relief reaches the maximal radius exactly where the trajectory
  // comes below it, the collision is at the bound of the interval.
  bool const at_bound = std::abs(height(t0)) <= ε;
  constexpr int n = 400;
  Real lowest = HUGE_VALL;
  Real const until = collision.has_value() ? In(collision->first) : t1;
  if (collision.has_value()) {
    Real const slack = 1e-14L * crossing;
    REQUIRE(In(collision->first) >= t0 - slack && In(collision->first) <= t1 + slack,
            "collision out of the interval");
    REQUIRE(collision->second == trajectory.EvaluateDegreesOfFreedom(collision->first),
            "state at the collision");
    Real const ratio = std::abs(height(until)) / ε;
    ctx.label(ratio < 1 ? "within the error" : ratio < 2 ? "within 2 errors" : ratio < 5 ? "within 5 errors" : "within 20 errors");
    REQUIRE(std::abs(height(until)) <= 100 * ε + 3e-6L * R + 0.3L * relief,
            "collision at height " << height(until) << " for an error of " << ε << " R " << R << " relief " << relief << " speed " << speed << " n " << forms.size() << " impact " << impact << " curvature " << curvature);
  }
  for (int i = 0; i < n; ++i) {
    lowest = std::min(lowest, height(t0 + (until - t0) * i / n));
  }
  if (at_bound && lowest < -100 * ε - 3e-6L * R - 0.3L * relief) {
    ctx.known("collision-at-bound",
              "ComputeFirstCollision may miss a collision at the very beginning of its "
              "interval, where the relief reaches the maximal radius");
    return;
  }
  REQUIRE(lowest >= -100 * ε - 3e-6L * R - 0.3L * relief, "missed a collision, lowest height " << lowest << " for an error of " << ε << ", R " << R << " + " << relief << ", " << R_max << ", impact " << impact << ", speed " << speed << ", collision at " << (collision.has_value() ? In(collision->first) : 1e300L) << " in [" << t0 << ", " << t1 << "], curvature " << curvature << ", heights " << height(t0) << " " << height((t0 + t1) / 2) << " " << height(t1) << " rotation " << In(body.angular_frequency()));
  ctx.nontrivial(relief > 0);
  ctx.label(collision.has_value() ? "collision" : "no collision");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"apsides", "apsides of sampled motions", 12'000, 600'000, TestApsides},
       {"nodes", "nodes of sampled motions", 20'000, 2'000'000, TestNodes},
       {"intervals", "intervals where a collision is possible", 20'000, 2'000'000,
        TestIntervals},
       {"collisions", "first collision with a relief", 30'000, 1'500'000, TestCollisions}});
}
