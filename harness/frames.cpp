// Reference frames defined by bodies, and rigid and similar motions.
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "absl/hash/hash.h"
#include "fatal.hpp"
#include "system.hpp"

#include "geometry/orthogonal_map.hpp"
#include "geometry/quaternion.hpp"
#include "geometry/space_transformations.hpp"
#include "physics/barycentric_rotating_reference_frame.hpp"
#include "physics/body_centred_body_direction_reference_frame.hpp"
#include "physics/body_centred_non_rotating_reference_frame.hpp"
#include "physics/body_surface_frame_field.hpp"
#include "physics/body_surface_reference_frame.hpp"
#include "physics/reference_frame.hpp"
#include "physics/rigid_motion.hpp"
#include "physics/rigid_reference_frame.hpp"
#include "physics/rotating_pulsating_reference_frame.hpp"
#include "physics/similar_motion.hpp"
#include "physics/trajectory.hpp"

using namespace principia::geometry::_affine_map;
using namespace principia::geometry::_conformal_map;
using namespace principia::geometry::_homothecy;
using namespace principia::geometry::_identity;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_quaternion;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_space_transformations;
using namespace principia::physics::_barycentric_rotating_reference_frame;
using namespace principia::physics::_body_centred_body_direction_reference_frame;
using namespace principia::physics::_body_centred_non_rotating_reference_frame;
using namespace principia::physics::_body_surface_frame_field;
using namespace principia::physics::_body_surface_reference_frame;
using namespace principia::physics::_frame_field;
using namespace principia::physics::_reference_frame;
using namespace principia::physics::_rigid_motion;
using namespace principia::physics::_rigid_reference_frame;
using namespace principia::physics::_rotating_pulsating_reference_frame;
using namespace principia::physics::_similar_motion;
using namespace principia::physics::_trajectory;

using Here = Frame<serialization::Frame::TestTag, Arbitrary, Handedness::Right,
                   serialization::Frame::TEST1>;
using Base = ReferenceFrame<World, Here>;
using RigidBase = RigidReferenceFrame<World, Here>;

Vec HereOf(Position<Here> const& q) { return Of(q); }

// A position-valued function of time: derivatives by differences.
template<typename F>
Vec First(F const& f, double const t, double const h) {
  static constexpr Real w[] = {4.0L / 5, -1.0L / 5, 4.0L / 105, -1.0L / 280};
  Vec r;
  for (int k = 1; k <= 4; ++k) {
    r = r + (w[k - 1] / h) * (f(t + k * h) - f(t - k * h));
  }
  return r;
}
template<typename F>
Vec SecondDerivative(F const& f, double const t, double const h) {
  static constexpr Real w[] = {8.0L / 5, -1.0L / 5, 8.0L / 315, -1.0L / 560};
  Vec const f0 = f(t);
  Vec r;
  for (int k = 1; k <= 4; ++k) {
    r = r + (w[k - 1] / ((Real)h * h)) * ((f(t + k * h) - f0) + (f(t - k * h) - f0));
  }
  return r;
}

enum Kind { Centred, OnSurface, BodyDirection, FromTarget, Barycentre2, Pulsating };
constexpr char const* names[] = {"non-rotating", "surface", "direction", "target",
                                 "barycentric", "pulsating"};

// What defines the frame.
struct Definition {
  Kind kind;
  std::vector<int> primaries, secondaries;
  DiscreteTrajectory<World> const* target = nullptr;
};

struct Point {
  Real μ = 0;
  Vec q, v;
};

Point Centre(System const& y, E const& e, std::vector<int> const& which, double const t) {
  Point p;
  for (int const i : which) {
    State const x = OfDof(
        e.trajectory(e.body_for_serialization_index(i))->EvaluateDegreesOfFreedom(At(t)));
    Real const μ = y.bodies[i].μ;
    p.μ += μ;
    p.q = p.q + μ * x.q;
    p.v = p.v + μ * x.v;
  }
  p.q = (1 / p.μ) * p.q;
  p.v = (1 / p.μ) * p.v;
  return p;
}

// The origin, axes, and scale of the frame.
struct Placement {
  Vec o, v, x, y, z;
  Real scale = 1;
  // The conditioning of the axes, and the angular frequency.
  Real condition = 1, Ω = 0;
};

Placement Place(System const& y, E const& e, Definition const& d, double const t) {
  Placement p;
  if (d.kind == Centred || d.kind == OnSurface) {
    int const i = d.primaries[0];
    Point const c = Centre(y, e, d.primaries, t);
    p.o = c.q;
    p.v = c.v;
    Body const& b = y.bodies[i];
    if (d.kind == Centred && !y.oblate[i] && !y.rotating) {
      p.x = {1, 0, 0};
      p.y = {0, 1, 0};
      p.z = {0, 0, 1};
    } else {
      p.z = b.Pole();
      if (d.kind == Centred) {
        p.y = b.Q();
        p.x = Cross(p.y, p.z);
      } else {
        b.Axes(t, p.x, p.y);
        p.Ω = std::abs(b.ω);
      }
    }
  } else {
    Point p1, p2 = Centre(y, e, d.secondaries, t);
    if (d.kind == FromTarget) {
      State const x = OfDof(d.target->EvaluateDegreesOfFreedom(At(t)));
      p1.q = x.q;
      p1.v = x.v;
    } else {
      p1 = Centre(y, e, d.primaries, t);
    }
    Vec const r = p2.q - p1.q, v = p2.v - p1.v;
    p.x = ref::Unit(r);
    p.z = ref::Unit(Cross(r, v));
    p.y = Cross(p.z, p.x);
    p.condition = Norm(Cross(r, v)) / (Norm(r) * Norm(v));
    p.Ω = Norm(v) / Norm(r);
    if (d.kind == BodyDirection || d.kind == FromTarget) {
      p.o = p1.q;
      p.v = p1.v;
    } else {
      p.o = (1 / (p1.μ + p2.μ)) * (p1.μ * p1.q + p2.μ * p2.q);
      p.v = (1 / (p1.μ + p2.μ)) * (p1.μ * p1.v + p2.μ * p2.v);
    }
    if (d.kind == Pulsating) p.scale = 1 / Norm(r);
  }
  return p;
}

std::unique_ptr<Base> MakeFrame(E const& e, Definition const& d) {
  auto const body = [&](int const i) { return e.body_for_serialization_index(i); };
  std::vector<not_null<MassiveBody const*>> primaries, secondaries;
  for (int const i : d.primaries) primaries.push_back(body(i));
  for (int const i : d.secondaries) secondaries.push_back(body(i));
  bool const single = primaries.size() == 1 && secondaries.size() == 1;
  switch (d.kind) {
    case Centred:
      return std::make_unique<BodyCentredNonRotatingReferenceFrame<World, Here>>(
          &e, primaries[0]);
    case OnSurface:
      return std::make_unique<BodySurfaceReferenceFrame<World, Here>>(
          &e, dynamic_cast<RotatingBody<World> const*>(&*primaries[0]));
    case BodyDirection:
      return std::make_unique<BodyCentredBodyDirectionReferenceFrame<World, Here>>(
          &e, primaries[0], secondaries[0]);
    case FromTarget:
      return std::make_unique<BodyCentredBodyDirectionReferenceFrame<World, Here>>(
          &e, [&d]() -> Trajectory<World> const& { return *d.target; }, secondaries[0]);
    case Barycentre2:
      if (single) {
        return std::make_unique<BarycentricRotatingReferenceFrame<World, Here>>(
            &e, primaries[0], secondaries[0]);
      }
      return std::make_unique<BarycentricRotatingReferenceFrame<World, Here>>(
          &e, primaries, secondaries);
    default:
      if (single) {
        return std::make_unique<RotatingPulsatingReferenceFrame<World, Here>>(
            &e, primaries[0], secondaries[0]);
      }
      return std::make_unique<RotatingPulsatingReferenceFrame<World, Here>>(
          &e, primaries, secondaries);
  }
}

Vec To(Base const& frame, double const t, Vec const& q) {
  return Of(frame.ToThisFrameAtTimeSimilarly(At(t)).similarity()(
      convert::Make<Position<World>>(q)));
}

void Frames(Src& s, Ctx& ctx) {
  System y = MakeSystem(s, 10, 1e6, 150, 300, s.coin());
  y.rotating = s.coin();
  y.integrator = 2 * s.below(2);
  if (s.coin()) {
    for (std::size_t i = 0; i < y.oblate.size(); ++i) {
      if (y.oblate[i]) {
        y.oblate[i] = false;
        y.bodies[i].δ = 0;
      }
    }
  }
  int const n = y.bodies.size();
  for (int i = 0; i < n; ++i) {
    Body& b = y.bodies[i];
    if (!y.oblate[i]) {
      b.W0 = s.sym(7);
      b.α = s.sym(7);
      b.δ = s.sym(1.5);
      b.atmosphere = 0;
      b.ocean = false;
    }
  }
  auto const e = y.Make();
  e->Prolong(At(y.t0 + 24 * y.step)).IgnoreError();
  double const t_min = static_cast<double>(In(e->t_min()));
  double const t_max = static_cast<double>(In(e->t_max()));
  Definition d;
  d.kind = static_cast<Kind>(s.below(6));
  std::vector<int> order;
  for (int i = 0; i < n; ++i) order.push_back(i);
  for (int i = n - 1; i > 0; --i) std::swap(order[i], order[s.below(i + 1)]);
  int const n1 = d.kind >= Barycentre2 ? s.range(1, n - 1) : 1;
  int const n2 = d.kind >= Barycentre2 ? s.range(1, n - n1) : 1;
  d.primaries.assign(order.begin(), order.begin() + n1);
  if (d.kind > OnSurface) {
    d.secondaries.assign(order.begin() + n1, order.begin() + n1 + n2);
  }
  ctx.note() << names[d.kind] << " of " << n << " bodies, " << n1 << " and " << n2 << " ";
  if (d.kind == OnSurface && !y.rotating && !y.oblate[d.primaries[0]]) {
    throw pbt::Discard{};
  }
  Real h = y.period / 1200;
  for (int i = 0; i < n; ++i) {
    h = std::min(h, 0.0125L / std::abs((Real)y.bodies[i].ω));
  }

  DiscreteTrajectory<World> target;
  if (d.kind == FromTarget) {
    State probe = y.initial[0];
    Real const a = y.a * s.real(0.4, 0.7);
    Vec const u = Direction(s, 0.4);
    Vec const w = ref::Unit(Cross({s.sym(0.3), s.sym(0.3), 1}, u));
    probe.q = probe.q + a * u;
    probe.v = probe.v + (std::sqrt(y.bodies[0].μ / a) * s.real(0.9, 1.1)) * w;
    target.Append(At(y.t0), MakeDof(probe)).IgnoreError();
    auto const instance = e->NewInstance(
        {&target}, E::NoIntrinsicAccelerations,
        E::FixedStepParameters(FixedIntegrator(2), y.step / 12 * Second));
    REQUIRE(e->FlowWithFixedStep(At(t_max), *instance).ok(), "flow");
    d.target = &target;
    d.primaries.clear();
  }
  std::unique_ptr<Base> frame = MakeFrame(*e, d);
  double const frame_t_max =
      d.kind == FromTarget ? static_cast<double>(In(target.back().time)) : t_max;
  REQUIRE(frame->t_min() == e->t_min() && In(frame->t_max()) == frame_t_max,
          "from " << In(frame->t_min()) << " to " << In(frame->t_max()));
  double const t = s.real(static_cast<double>(t_min + 5 * h),
                          static_cast<double>(frame_t_max - 5 * h));
  Placement const p = Place(y, *e, d, t);
  for (int const k : {-4, 0, 4}) {
    // Otherwise the axes turn quickly.
    Real const condition =
        Place(y, *e, d, static_cast<double>(t + k * h)).condition;
    if (condition < 0.3L) throw pbt::Discard{};
  }

  // Serialization and comparison.
  if (d.kind != FromTarget) {
    serialization::ReferenceFrame message;
    frame->WriteToMessage(&message);
    serialization::ReferenceFrame copy;
    copy.ParseFromString(message.SerializeAsString());
    std::unique_ptr<Base> read = std::move(Base::ReadFromMessage(copy, e.get()));
    REQUIRE(*read == *frame && absl::Hash<Base>{}(*read) == absl::Hash<Base>{}(*frame),
            "the frame that was read differs");
    Definition other = d;
    other.kind = static_cast<Kind>(s.below(6));
    bool const swap = s.coin();
    if (swap) std::swap(other.primaries, other.secondaries);
    std::reverse(other.primaries.begin(), other.primaries.end());
    if (other.kind != FromTarget && !other.primaries.empty() &&
        (other.kind < BodyDirection || !other.secondaries.empty()) &&
        (other.kind != OnSurface || y.rotating || y.oblate[other.primaries[0]])) {
      bool const fits = other.kind >= Barycentre2 ||
                        (other.primaries.size() == 1 && other.secondaries.size() <= 1);
      if (fits) {
        auto const f = MakeFrame(*e, other);
        bool const same = other.kind == d.kind && !swap;
        REQUIRE((*f == *frame) == same && (*frame == *f) == same,
                "comparison with " << names[other.kind]);
        REQUIRE(!same || absl::Hash<Base>{}(*f) == absl::Hash<Base>{}(*frame),
                "hashes of equal frames");
      }
    }
    if (s.coin()) frame = std::move(read);
  }

  // A point, not too close to the bodies.
  Vec q = p.o;
  Real distance = 0;
  for (int tries = 0; distance < 0.15L * y.a; ++tries) {
    if (tries > 20) throw pbt::Discard{};
    q = p.o + (Real)(y.a * s.log(0.2, 3)) * ref::Unit({s.sym(1), s.sym(1), s.real(0.1, 1)});
    distance = HUGE_VALL;
    for (int i = 0; i < n; ++i) {
      distance = std::min(distance, Norm(q - Centre(y, *e, {i}, t).q));
    }
  }
  q = Of(convert::Make<Position<World>>(q));
  Vec const v = Of(convert::Make<Velocity<World>>(
      p.v + (2 * ref::π * y.a / y.period) * Vec{s.sym(1), s.sym(1), s.sym(1)}));
  DegreesOfFreedom<World> const dof = MakeDof({q, v});
  Vec const r = q - p.o;
  Real const Ω = std::max(p.Ω, 2 * ref::π / y.period);
  Real const rn = Norm(r);
  Real const scale_v = p.scale * ((rn + y.a) * Ω + Norm(v - p.v));

  // The place of the point.
  auto const motion = frame->ToThisFrameAtTimeSimilarly(At(t));
  Vec const here = To(*frame, t, q);
  Vec const expected = p.scale * Vec{Dot(r, p.x), Dot(r, p.y), Dot(r, p.z)};
  Real const rounding = (Norm(q) + Norm(p.o)) * 1e-15L + 1e-14L * rn;
  REQUIRE(Norm(here - expected) <= 20 * p.scale * rounding / p.condition,
          "at " << here << ", expected " << expected);
  auto const dof_here = motion(dof);
  REQUIRE(Norm(Of(dof_here.position()) - here) <= 20 * p.scale * rounding,
          "position " << Of(dof_here.position()) << " and " << here);
  // The inverse.
  auto const inverse = frame->FromThisFrameAtTimeSimilarly(At(t));
  for (auto const& from : {inverse, motion.Inverse()}) {
    auto const back = OfDof(from(dof_here));
    REQUIRE(Norm(back.q - q) <= 40 * rounding &&
                Norm(back.v - v) * p.scale <= 1e-12L * scale_v +
                    1e-14L * p.scale * (Norm(v) + Norm(p.v)),
            "inverse " << back.q << ", " << back.v << " of " << q << ", " << v);
  }
  Vec const origin = Of(inverse.similarity()(Here::origin));
  REQUIRE(Norm(origin - p.o) <= 1e-15L * (Norm(p.o) + y.a), "origin " << origin);

  // Its velocity.
  auto const straight = [&](Vec const& g) {
    return [&, g](double const τ) {
      Real const δ = (Real)τ - t;
      return To(*frame, τ, q + δ * v + (δ * δ / 2) * g);
    };
  };
  double const step = static_cast<double>(h);
  // The tolerance of the trajectories.
  Real const ε_v = 1e-12L * (p.scale * (y.a + rn + Norm(q)) / h) / p.condition;
  // The interpolation of the target.
  Real const coarse = d.kind == FromTarget ? 1e-3L : 0;
  Vec const velocity = First(straight({}), t, step);
  Vec const actual_v = Of(dof_here.velocity());
  // The truncation of the difference quotients.
  Real const truncation_v = Norm(velocity - First(straight({}), t, step / 2));
  REQUIRE(Norm(actual_v - velocity) <=
              20 * ε_v + (1e-7L + coarse) * scale_v / p.condition + 2 * truncation_v,
          "velocity " << actual_v << ", expected " << velocity);

  // Its acceleration in free fall.
  Vec const g = Of(e->ComputeGravitationalAccelerationOnMasslessBody(dof.position(),
                                                                     At(t)));
  Vec const acceleration = SecondDerivative(straight(g), t, step);
  Vec const actual = Of(frame->GeometricAcceleration(At(t), dof_here));
  Real const scale_a = p.scale * Norm(g) + scale_v * Ω;
  Real const ε_a = 20 * ε_v / h;
  bool const oblates =
      std::find(y.oblate.begin(), y.oblate.end(), true) != y.oblate.end();
  // The jerks ignore the geopotentials.
  Real const jerks = !oblates || d.kind < BodyDirection ? 0
                     : d.kind == FromTarget ? 10 : 5e-2L;
  Real const truncation_a =
      Norm(acceleration - SecondDerivative(straight(g), t, step / 2));
  Real const bound = ε_a + (1e-5L + jerks + 10 * coarse) * scale_a /
                               (p.condition * p.condition) + 2 * truncation_a;
  ctx.note() << "condition " << p.condition << " velocity "
             << Norm(actual_v - velocity) / scale_v << " acceleration "
             << Norm(actual - acceleration) / scale_a << " of " << bound / scale_a << " ";
  REQUIRE(Norm(actual - acceleration) <= bound,
          "acceleration " << actual << ", expected " << acceleration);

  // At rest: without its rotational, and its potential.
  Real const η = 1e-3L * distance * p.scale;
  auto const field = [&](Vec const& x) {
    return Of(frame->GeometricAcceleration(
        At(t), {convert::Make<Position<Here>>(x), Velocity<Here>{}}));
  };
  auto const potential = [&](Vec const& x) {
    return In(frame->GeometricPotential(At(t), convert::Make<Position<Here>>(x)));
  };
  Vec gradient, column[3];
  for (int k = 0; k < 3; ++k) {
    for (int j = 1; j <= 2; ++j) {
      Vec plus = here, minus = here;
      plus[k] += j * η;
      minus[k] -= j * η;
      // What is actually used.
      Real const width = Of(convert::Make<Position<Here>>(plus))[k] -
                         Of(convert::Make<Position<Here>>(minus))[k];
      Real const w = (j == 1 ? 4.0L / 3 : -1.0L / 3) / width;
      gradient[k] += w * (potential(plus) - potential(minus));
      column[k] = column[k] + w * (field(plus) - field(minus));
    }
  }
  Vec const rot{column[1][2] - column[2][1], column[2][0] - column[0][2],
                column[0][1] - column[1][0]};
  Vec const at_rest = field(here) - 0.5L * Cross(rot, here);
  auto const actual_at_rest = Of(frame->RotationFreeGeometricAccelerationAtRest(
      At(t), convert::Make<Position<Here>>(here)));
  Real const scale_field = p.scale * Norm(g) + p.scale * (rn + y.a) * Ω * Ω;
  ctx.note() << "at rest " << Norm(actual_at_rest - at_rest) / scale_field
             << " gradient " << Norm(actual_at_rest + gradient) / scale_field << " ";
  REQUIRE(Norm(actual_at_rest - at_rest) <= 1e-7L * scale_field / p.condition,
          "rotation-free acceleration " << actual_at_rest << ", expected " << at_rest);
  Real const noise = 1e-15L * std::abs(potential(here)) / η;
  REQUIRE(Norm(actual_at_rest + gradient) <=
              1e-7L * scale_field / p.condition + 10 * noise,
          "rotation-free acceleration " << actual_at_rest
          << ", opposite of the gradient of the potential " << -1 * gradient);

  // The Frenet frame.
  {
    Vec const T = ref::Unit(actual_v);
    Vec const perpendicular = actual - Dot(actual, T) * T;
    Real const sine = Norm(perpendicular) / Norm(actual);
    if (sine > 1e-3L && Norm(actual_v) > 1e-3L * scale_v) {
      Vec const N = ref::Unit(perpendicular);
      auto const frenet = frame->FrenetFrame(At(t), dof_here);
      using F = Frenet<Here>;
      Vec const axes[3] = {T, N, Cross(T, N)};
      for (int k = 0; k < 3; ++k) {
        R3Element<double> basis(k == 0, k == 1, k == 2);
        Vec const axis = Of(frenet(Vector<double, F>(basis)));
        REQUIRE(Norm(axis - axes[k]) <= 1e-13L / sine, "axis " << k << " of Frenet: "
                << axis << ", expected " << axes[k]);
      }
    }
  }

  // The rigid interface.
  if (auto const* const rigid = dynamic_cast<RigidBase const*>(frame.get())) {
    auto const to = rigid->ToThisFrameAtTime(At(t));
    auto const from = rigid->FromThisFrameAtTime(At(t));
    auto const there = to(dof);
    REQUIRE(Norm(Of(there.position()) - here) <= 1e-14L * (rn + Norm(q)) &&
                Norm(Of(there.velocity()) - actual_v) <=
                    1e-13L * scale_v + 1e-15L * (Norm(v) + Norm(p.v)),
            "rigid motion");
    auto const back = OfDof(from(there));
    REQUIRE(Norm(back.q - q) <= 40 * rounding, "inverse rigid motion");
    auto const at_origin = OfDof(from({Here::origin, Here::unmoving}));
    auto const origin_velocity = Of(to.velocity_of_origin_of<Here>());
    Real const ε_origin =
        3e-13L * (Norm(p.v) + Ω * (Norm(p.o) + y.a)) / p.condition;
    REQUIRE(Norm(at_origin.v - origin_velocity) <= ε_origin &&
                Norm(at_origin.v - p.v) <= ε_origin,
            "velocity of the origin " << at_origin.v);
  }
  ctx.label(names[d.kind]);
  ctx.nontrivial(d.kind >= OnSurface);
}

// The axes at the surface of a body.
void Fields(Src& s, Ctx& ctx) {
  System y = MakeSystem(s, 10, 1e6, 150, 300, s.coin());
  y.rotating = true;
  int const n = y.bodies.size();
  for (int i = 0; i < n; ++i) {
    Body& b = y.bodies[i];
    if (y.oblate[i]) continue;
    b.W0 = s.sym(7);
    b.α = s.sym(7);
    b.δ = s.sym(1.5);
    b.atmosphere = 0;
    b.ocean = false;
  }
  auto const e = y.Make();
  e->Prolong(At(y.t0 + 12 * y.step)).IgnoreError();
  double const t = s.real(static_cast<double>(In(e->t_min())),
                          static_cast<double>(In(e->t_max())));
  for (int i = 0; i < n; ++i) {
    auto const body = e->body_for_serialization_index(i);
    BodySurfaceFrameField<World, Here> const field(
        *e, At(t), dynamic_cast<RotatingBody<World> const*>(&*body));
    Vec const c = Centre(y, *e, {i}, t).q;
    Vec const zenith = ref::Unit({s.sym(1), s.sym(1), s.real(0.1, 1)});
    Vec const q = Of(convert::Make<Position<World>>(c + (Real)y.a * zenith));
    Vec const z = ref::Unit(q - c), P = y.bodies[i].Pole();
    Real const sine = Norm(Cross(z, P));
    if (sine < 1e-3L) continue;
    Vec const north = ref::Unit(P - Dot(P, z) * z);
    Vec const axes[3] = {north, Cross(north, z), -1 * z};
    auto const from = field.FromThisFrame(convert::Make<Position<World>>(q));
    auto const to = field.ToThisFrame(convert::Make<Position<World>>(q));
    for (int k = 0; k < 3; ++k) {
      R3Element<double> const basis(k == 0, k == 1, k == 2);
      Vec const axis = Of(from(Vector<double, Here>(basis)));
      REQUIRE(Norm(axis - axes[k]) <= 1e-13L * (1 + Norm(c) / y.a) / sine / sine,
              "axis " << k << ": " << axis << ", expected " << axes[k]);
      Vec const back = Of(to(from(Vector<double, Here>(basis))));
      REQUIRE(std::abs(back[k] - 1) < 1e-14L * (1 + Norm(c) / y.a) / sine / sine, "inverse");
    }
    ctx.count();
  }
  ctx.nontrivial(n > 2);
}

// Motions by themselves: the group.
template<int i>
using F = Frame<serialization::Frame::TestTag, Arbitrary, Handedness::Right,
                i == 0 ? serialization::Frame::TEST
                       : i == 1 ? serialization::Frame::TEST1 : serialization::Frame::TEST2>;
using G = Frame<struct OtherTag, Arbitrary>;

// x ↦ scale R(t) (x - o(t)), with angular velocity ω and velocity v of the origin, in
// the source frame.
struct Motion {
  Vec o, v, ω;
  Vec axes[3];  // Of the target, in the source.
  Real scale = 1, rate = 0;  // The logarithmic derivative of the scale.

  State operator()(State const& x) const {
    Vec const r = x.q - o;
    Vec const u = x.v - v - Cross(ω, r) + rate * r;
    State y;
    for (int k = 0; k < 3; ++k) {
      y.q[k] = scale * Dot(axes[k], r);
      y.v[k] = scale * Dot(axes[k], u);
    }
    return y;
  }
};

template<typename From, typename To>
RigidMotion<From, To> Make(Motion const& m) {
  Rotation<From, To> const rotation(
      convert::Make<Vector<double, From>>(m.axes[0]),
      convert::Make<Vector<double, From>>(m.axes[1]),
      convert::Make<Bivector<double, From>>(m.axes[2]));
  RigidTransformation<From, To> const transformation(
      convert::Make<Position<From>>(m.o), To::origin,
      rotation.template Forget<OrthogonalMap>());
  return RigidMotion<From, To>(transformation,
                               convert::Make<AngularVelocity<From>>(m.ω),
                               convert::Make<Velocity<From>>(m.v));
}

Motion RandomMotion(Src& s) {
  Motion m;
  m.o = {s.sym(10), s.sym(10), s.sym(10)};
  if (s.chance(1, 8)) m.o = {};
  m.v = s.chance(1, 8) ? Vec{} : Vec{s.sym(10), s.sym(10), s.sym(10)};
  m.ω = s.chance(1, 8) ? Vec{} : Vec{s.sym(3), s.sym(3), s.sym(3)};
  m.axes[0] = Direction(s, 1);
  m.axes[1] = ref::Unit(Cross(Direction(s, 0.01) + Vec{0, 0, 3}, m.axes[0]));
  if (s.chance(1, 8)) {
    m.axes[0] = {1, 0, 0};
    m.axes[1] = {0, 1, 0};
  }
  m.axes[2] = Cross(m.axes[0], m.axes[1]);
  return m;
}

bool Near(State const& a, State const& b, Real const size) {
  return Norm(a.q - b.q) <= 1e-13L * size && Norm(a.v - b.v) <= 1e-13L * size;
}

void Motions(Src& s, Ctx& ctx) {
  Motion const m1 = RandomMotion(s), m2 = RandomMotion(s);
  auto const r1 = Make<F<0>, F<1>>(m1);
  auto const r2 = Make<F<1>, F<2>>(m2);
  State const x{{s.sym(10), s.sym(10), s.sym(10)}, {s.sym(10), s.sym(10), s.sym(10)}};
  auto const in = [](State const& x) {
    return DegreesOfFreedom<F<0>>(convert::Make<Position<F<0>>>(x.q),
                                  convert::Make<Velocity<F<0>>>(x.v));
  };
  auto const out = [](auto const& dof) { return State{Of(dof.position()), Of(dof.velocity())}; };
  State const x1 = m1(x), x2 = m2(x1);
  REQUIRE(Near(out(r1(in(x))), x1, 1000), "first motion " << out(r1(in(x))).v
          << ", expected " << x1.v);
  auto const r21 = r2 * r1;
  REQUIRE(Near(out(r21(in(x))), x2, 10000), "product " << out(r21(in(x))).v << ", expected "
          << x2.v);
  REQUIRE(Near(out(r1.Inverse()(r1(in(x)))), x, 1000), "inverse");
  REQUIRE(Near(out(r21.Inverse()(r21(in(x)))), x, 10000), "inverse of the product");
  REQUIRE(Near(out((r1.Inverse() * r2.Inverse())(r21(in(x)))), x, 10000),
          "product of the inverses");
  // The velocities.
  auto const ω = Of(r21.angular_velocity_of<F<2>>());
  Vec const ω2{Dot({m1.axes[0][0], m1.axes[1][0], m1.axes[2][0]}, m2.ω),
               Dot({m1.axes[0][1], m1.axes[1][1], m1.axes[2][1]}, m2.ω),
               Dot({m1.axes[0][2], m1.axes[1][2], m1.axes[2][2]}, m2.ω)};
  REQUIRE(Norm(ω - (m1.ω + ω2)) <= 1e-13L, "angular velocity " << ω);
  auto const inverse_ω = Of(r21.angular_velocity_of<F<0>>());
  auto const inverse_ω2 = Of(r21.Inverse().angular_velocity_of<F<0>>());
  Vec const minus_ω = -1 * Of(r21.orthogonal_map()(r21.angular_velocity_of<F<2>>()));
  REQUIRE(Norm(inverse_ω - minus_ω) <= 1e-13L && Norm(inverse_ω2 - minus_ω) <= 1e-13L,
          "angular velocity of the source " << inverse_ω << ", expected " << minus_ω);
  auto const v = Of(r21.velocity_of_origin_of<F<2>>());
  auto const at_origin = out(r21.Inverse()({F<2>::origin, F<2>::unmoving}));
  REQUIRE(Norm(v - at_origin.v) <= 1e-12L, "velocity of the origin " << v);
  auto const v0 = Of(r21.velocity_of_origin_of<F<0>>());
  auto const at_origin0 = out(r21({F<0>::origin, F<0>::unmoving}));
  REQUIRE(Norm(v0 - at_origin0.v) <= 1e-12L, "velocity of the origin of the source " << v0);
  // The other constructor.
  RigidMotion<F<0>, F<1>> const other(r1.rigid_transformation(),
                                      r1.angular_velocity_of<F<0>>(),
                                      r1.velocity_of_origin_of<F<0>>());
  REQUIRE(Near(out(other(in(x))), x1, 1000), "motion made from that of the source");
  auto const identity = RigidMotion<F<0>, F<1>>::Identity();
  REQUIRE(Near(out(identity(in(x))), x, 1), "identity");
  serialization::RigidMotion message;
  r21.WriteToMessage(&message);
  serialization::RigidMotion copy;
  copy.ParseFromString(message.SerializeAsString());
  auto const read = RigidMotion<F<0>, F<2>>::ReadFromMessage(copy);
  auto const a = out(read(in(x))), b = out(r21(in(x)));
  REQUIRE(Same(a.q, b.q) && Same(a.v, b.v), "reading");

  // The accelerated motions.
  Vec const α{s.sym(3), s.sym(3), s.sym(3)}, acceleration{s.sym(9), s.sym(9), s.sym(9)};
  AcceleratedRigidMotion<F<0>, F<1>> const accelerated(
      r1, convert::Make<Bivector<AngularAcceleration, F<0>>>(α),
      convert::Make<Vector<Acceleration, F<0>>>(acceleration));
  REQUIRE(Norm(Of(accelerated.angular_acceleration_of<F<1>>()) - α) <= 1e-14L &&
              Norm(Of(accelerated.acceleration_of_origin_of<F<1>>()) - acceleration) <=
                  1e-14L, "accelerations");

  // Similar motions.
  Real const κ = (s.coin() ? 1 : -1) * s.log(0.1, 10), rate = s.sym(3);
  Motion dilatation;
  dilatation.axes[0] = {1, 0, 0};
  dilatation.axes[1] = {0, 1, 0};
  dilatation.axes[2] = {0, 0, 1};
  dilatation.scale = std::abs(κ);
  dilatation.rate = rate;
  auto const similar = SimilarMotion<F<1>, G>::DilatationAboutOrigin(
      Homothecy<double, F<1>, G>(static_cast<double>(std::abs(κ))),
      static_cast<double>(rate) * (1 / Second));
  State const x3 = dilatation(x1);
  auto const s1 = r1.Forget<SimilarMotion>();
  REQUIRE(Near(out(s1(in(x))), x1, 1000), "similar motion");
  auto const s31 = similar * s1;
  REQUIRE(Near(out(s31(in(x))), x3, 20000), "dilatation " << out(s31(in(x))).v
          << ", expected " << x3.v);
  REQUIRE(Near(out(s31.Inverse()(s31(in(x)))), x, 100000), "inverse of a similar motion");
  REQUIRE(Near(out((s1.Inverse() * similar.Inverse())(s31(in(x)))), x, 100000),
          "product of the inverses of similar motions");
  // Back to something rigid, from a dilatation.
  auto const s2 = r2.Forget<SimilarMotion>();
  auto const s2i = s2 * (similar.Inverse() * s31);
  REQUIRE(Near(out(s2i(in(x))), x2, 1000000), "product of similar motions "
          << out(s2i(in(x))).v << ", expected " << x2.v);
  auto const ω3 = Of(s31.angular_velocity_of<G>());
  REQUIRE(Norm(ω3 - m1.ω) <= 1e-13L, "angular velocity of a similar motion");
  auto const v3 = Of(s31.velocity_of_origin_of<G>());
  REQUIRE(Norm(v3 - m1.v) <= 1e-12L, "velocity of the origin of a similar motion");
  auto const v4 = Of(s31.velocity_of_origin_of<F<0>>());
  auto const v5 = out(s31({F<0>::origin, F<0>::unmoving})).v;
  REQUIRE(Norm(v4 - v5) <= 1e-11L * (1 + dilatation.scale), "velocity of the origin "
          << v4 << " of the source of a similar motion, expected " << v5);
  auto const ω4 = Of(s31.angular_velocity_of<F<0>>());
  auto const ω5 = Of(r1.angular_velocity_of<F<0>>());
  REQUIRE(Norm(ω4 - ω5) <= 1e-13L, "angular velocity of the source of a similar motion");
  ctx.count(20);
  ctx.nontrivial(Norm(m1.ω) > 0 && Norm(m2.ω) > 0 && Norm(m1.o) > 0);
}

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"frames", "places, velocities, accelerations, potentials in the frames of systems of "
        "2 to 5 bodies; non-trivial if the frame rotates", 60000, 2500000, Frames},
       {"fields", "axes at the surfaces of rotating bodies; non-trivial with 3 bodies",
        20000, 500000, Fields},
       {"motions", "products, inverses and velocities of rigid and similar motions; "
        "non-trivial if two motions rotate", 200000, 6000000, Motions}});
}
