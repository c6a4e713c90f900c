// P21: the rotation of rigid bodies in the absence of torque.

#include "physics/euler_solver.hpp"

#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <utility>
#include <vector>

#include "convert.hpp"
#include "fatal.hpp"
#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/quaternion.hpp"
#include "geometry/r3x3_matrix.hpp"
#include "geometry/rotation.hpp"
#include "geometry/space.hpp"
#include "pbt.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/rigid_motion.hpp"
#include "physics/tensors.hpp"
#include "quantities/si.hpp"
#include "serialization/geometry.pb.h"
#include "serialization/physics.pb.h"

namespace {

using convert::At;
using convert::In;
using convert::Make;
using convert::Of;
using pbt::Ctx;
using pbt::Src;
using principia::geometry::_instant::Instant;
using principia::geometry::_quaternion::Quaternion;
using principia::geometry::_r3_element::R3Element;
using principia::geometry::_r3x3_matrix::R3x3Matrix;
using principia::geometry::_rotation::Rotation;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_space;
using principia::physics::_degrees_of_freedom::DegreesOfFreedom;
using principia::physics::_euler_solver::EulerSolver;
using principia::physics::_tensors::InertiaTensor;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using ref::Cross;
using ref::Dot;
using ref::Norm;
using ref::Real;
using ref::Vec;
namespace serialization = principia::serialization;

using World = Frame<serialization::Frame::TestTag, Inertial, Handedness::Right,
                    serialization::Frame::TEST1>;
using Axes = Frame<serialization::Frame::TestTag, Arbitrary, Handedness::Right,
                   serialization::Frame::TEST2>;
using Solver = EulerSolver<World, Axes>;

// The angular momentum in the principal axes, and the images of the axes.
struct State {
  Vec m;
  std::array<Vec, 3> R;
};
State operator+(State const& a, State const& b) {
  return {a.m + b.m, {a.R[0] + b.R[0], a.R[1] + b.R[1], a.R[2] + b.R[2]}};
}
State operator*(Real const k, State const& a) {
  return {k * a.m, {k * a.R[0], k * a.R[1], k * a.R[2]}};
}

struct Body {
  Vec I;
  State f(State const& s) const {
    Vec const ω{s.m[0] / I[0], s.m[1] / I[1], s.m[2] / I[2]};
    State d;
    d.m = Cross(s.m, ω);
    // The image of eᵢ changes as the image of ω × eᵢ.
    for (int i = 0; i < 3; ++i) {
      Vec const v = Cross(ω, ref::Axis(i));
      d.R[i] = v[0] * s.R[0] + v[1] * s.R[1] + v[2] * s.R[2];
    }
    return d;
  }
};

// A step of the method of Gragg, Bulirsch and Stoer.
State Step(Body const& b, State const& s, Real const H) {
  constexpr int K = 9;
  std::array<State, K> T;
  State const f0 = b.f(s);
  for (int k = 0; k < K; ++k) {
    int const n = 2 * (k + 1);
    Real const h = H / n;
    State y0 = s, y1 = s + h * f0;
    for (int i = 1; i < n; ++i) {
      State const y2 = y0 + 2 * h * b.f(y1);
      y0 = y1;
      y1 = y2;
    }
    // Gragg's smoothing.
    T[k] = 0.5L * (y0 + y1 + h * b.f(y1));
  }
  // Neville's scheme in 1 / n².
  for (int level = 1; level < K; ++level) {
    for (int k = K - 1; k >= level; --k) {
      Real const ratio = static_cast<Real>(k + 1) / (k - level + 1);
      T[k] = T[k] + (1 / (ratio * ratio - 1)) * (T[k] + (-1) * T[k - 1]);
    }
  }
  return T[K - 1];
}

Real Distance(State const& a, State const& b, Real const G) {
  Real d = Norm(a.m - b.m) / G;
  for (int i = 0; i < 3; ++i) d = std::max(d, Norm(a.R[i] - b.R[i]));
  return d;
}

struct Problem {
  std::array<double, 3> I;
  Vec m0;   // In the principal axes, approximately.
  double t0;
  Rotation<Axes, World> attitude = Rotation<Axes, World>::Identity();
  Bivector<AngularMomentum, World> L;
  State initial;  // As computed from the rounded data.
  Real G;
  Real ω_max;
  char const* kind;
};

State Observed(Solver const& solver, Instant const& t) {
  State s;
  s.m = Of(solver.AngularMomentumAt(t));
  auto const attitude = solver.AttitudeAt(t);
  for (int i = 0; i < 3; ++i) {
    s.R[i] = Of(attitude(Make<Vector<double, Axes>>(ref::Axis(i))));
  }
  return s;
}

Problem Generate(Src& s) {
  Problem p;
  double const unit = s.log(1e-3, 1e6);
  double a, b, c;
  switch (s.below(6)) {
    case 0: {  // A sphere.
      a = b = c = unit;
      break;
    }
    case 1: {  // An exact symmetry of revolution.
      a = unit * s.real(0.05, 1);
      c = unit;
      b = s.coin() ? a : c;
      break;
    }
    case 2: {  // Nearly one.
      a = unit * s.real(0.1, 0.9);
      c = unit;
      b = s.coin() ? a * (1 + s.log(1e-12, 1e-2)) : c * (1 - s.log(1e-12, 1e-2));
      break;
    }
    default: {
      a = unit * s.real(0.05, 1);
      c = unit;
      b = s.real(a, c);
      break;
    }
  }
  p.I = {a, std::clamp(b, a, c), c};
  Vec m;
  switch (s.below(6)) {
    case 0: {  // Close to an axis, or exactly on one.
      m = ref::Axis(s.below(3));
      if (s.coin()) m = -m;
      if (s.coin()) m = m + s.log(1e-12, 0.1) * ref::Direction(s);
      p.kind = "axial";
      break;
    }
    case 1: {  // Close to the separatrix.
      Real const I₂₁ = p.I[1] - p.I[0], I₃₂ = p.I[2] - p.I[1];
      Real const α = s.real(0, 2 * M_PI);
      m = {std::cos(α) * std::sqrt(p.I[0] * I₃₂), 0, std::cos(α) * std::sqrt(p.I[2] * I₂₁)};
      if (s.coin()) m[2] = -m[2];
      Real const n = Norm(m);
      if (n > 0) m = (std::abs(std::cos(α)) / n) * m;
      m[1] = std::sin(α);
      if (s.coin()) m = m + s.log(1e-10, 0.1) * ref::Direction(s);
      if (Norm(m) < 0.1L) m = {1, 0, 0};
      p.kind = "separatrix";
      break;
    }
    case 2: {  // Integers.
      do {
        m = {s.range(-2, 2) * 1.0L, s.range(-2, 2) * 1.0L, s.range(-2, 2) * 1.0L};
      } while (Norm(m) == 0 && s.coin());
      if (Norm(m) == 0) m = {0, 0, 1};
      p.kind = "integer";
      break;
    }
    default: {
      m = ref::Direction(s);
      p.kind = "general";
      break;
    }
  }
  p.t0 = s.coin() ? 0 : s.sym(1e3);
  if (s.chance(1, 4)) {
    p.attitude = Rotation<Axes, World>::Identity();
  } else {
    Vec const axis = ref::Direction(s);
    Real const θ = s.sym(3.14);
    Vec const v = std::sin(θ / 2) * axis;
    p.attitude = Rotation<Axes, World>(Quaternion(
        static_cast<double>(std::cos(θ / 2)),
        {static_cast<double>(v[0]), static_cast<double>(v[1]), static_cast<double>(v[2])}));
  }
  Real const spin = s.log(1e-3, 10);  // rad / s.
  m = (unit * spin / Norm(m)) * m;
  p.L = p.attitude(Make<Bivector<AngularMomentum, Axes>>(m));
  for (int i = 0; i < 3; ++i) {
    p.initial.R[i] = Of(p.attitude(Make<Vector<double, Axes>>(ref::Axis(i))));
  }
  Vec const L = Of(p.L);
  p.initial.m = {Dot(L, p.initial.R[0]), Dot(L, p.initial.R[1]), Dot(L, p.initial.R[2])};
  p.G = Norm(L);
  Real T2 = 0;
  for (int i = 0; i < 3; ++i) T2 += p.initial.m[i] * p.initial.m[i] / p.I[i];
  p.ω_max = std::sqrt(T2 / p.I[0]);
  return p;
}

Solver Make(Problem const& p) {
  return Solver(InertiaTensor<Axes>(R3x3Matrix<MomentOfInertia>::DiagonalMatrix(
                    {p.I[0] * si::Unit<MomentOfInertia>, p.I[1] * si::Unit<MomentOfInertia>,
                     p.I[2] * si::Unit<MomentOfInertia>})),
                p.L, p.attitude, At(p.t0));
}

// The solution, and how much it amplifies relative errors on the data.
void Integrate(Problem const& p, Real const Δt, State& result, Real& amplification) {
  int const steps = 1 + static_cast<int>(std::abs(Δt) * p.ω_max / 0.6L);
  Body const body{{p.I[0], p.I[1], p.I[2]}};
  auto const integrate = [&](Body const& b, State s) {
    for (int i = 0; i < steps; ++i) s = Step(b, s, Δt / steps);
    return s;
  };
  result = integrate(body, p.initial);
  amplification = 1;
  constexpr Real δ = 1e-9L;
  for (int i = 0; i < 3; ++i) {
    State s = p.initial;
    s.m = s.m + δ * p.G * ref::Axis(i);
    amplification = std::max(amplification, Distance(integrate(body, s), result, p.G) / δ);
    Body b = body;
    b.I[i] *= 1 + δ;
    amplification = std::max(amplification, Distance(integrate(b, p.initial), result, p.G) / δ);
  }
}

// The parameters of the elliptic integral of the third kind that gives the
// attitude.
struct Third {
  Real mc = 1, n = 0, multiplier = 0, symmetry = 1;
};

Third ThirdKind(Problem const& p) {
  Third r;
  Real const I1 = p.I[0], I2 = p.I[1], I3 = p.I[2];
  Real const I32 = I3 - I2, I31 = I3 - I1, I21 = I2 - I1;
  Vec const& m = p.initial.m;
  Real const Δ1 = m[1] * m[1] * I21 / I2 + m[2] * m[2] * I31 / I3;
  Real const Δ2 = m[2] * m[2] * I32 / I3 - m[0] * m[0] * I21 / I1;
  Real const Δ3 = -m[0] * m[0] * I31 / I1 - m[1] * m[1] * I32 / I2;
  r.symmetry = std::min(I21 / I1, I32 / I3);
  if (I31 == 0 || Δ2 == 0) return r;
  if (Δ2 < 0) {
    r.mc = Δ2 * I31 / (Δ3 * I21);
    r.n = I1 * I32 / (I3 * I21);
    r.multiplier = p.G * I31 / (I1 * I3 * std::sqrt(-Δ3 * I21 / (I1 * I2 * I3)));
  } else {
    r.mc = Δ2 * I31 / (Δ1 * I32);
    r.n = I3 * I21 / (I1 * I32);
    r.multiplier = p.G * I31 / (I1 * I3 * std::sqrt(Δ1 * I32 / (I1 * I2 * I3)));
  }
  return r;
}

void Motion(Src& s, Ctx& ctx) {
  Problem const p = Generate(s);
  Solver const solver = Make(p);
  Real const Δt = s.sym(60) / p.ω_max;
  double const t = static_cast<double>(p.t0 + Δt);
  State expected;
  Real amplification;
  Integrate(p, t - static_cast<Real>(p.t0), expected, amplification);
  State const actual = Observed(solver, At(t));
  Real const error = Distance(actual, expected, p.G);
  Real const clock = 1e-15L * (std::abs(p.t0) + std::abs(t)) * p.ω_max;
  Real const κ = p.I[2] / p.I[0];
  // Close to the intermediate axis the solution is computed from the hyperbolic
  // arctangent of m.y / G.
  Real const transverse = std::hypot(p.initial.m[0], p.initial.m[2]) / p.G;
  Real const axis = 3e-15L / transverse;
  Third const Π = ThirdKind(p);
  Real const separatrix = Π.mc < 1e-4L ? 1e-7L : 0;
  Real const tolerance = (1e-12L * κ + axis + separatrix + 1e-15L * Π.multiplier * (1 + std::sqrt(Π.n)) / std::sqrt(Π.mc) * (Π.symmetry > 1e-3L ? 10 : 0)) * amplification + clock;
  if (tolerance > 1e-2L && transverse >= 1e-5L) {
    ctx.label("unstable");
    return;
  }
  Real const ratio = error / (1e-15L * κ * amplification + clock);
  ctx.label(ratio < 1 ? "error < 1" : ratio < 10 ? "error < 10" : ratio < 100 ? "error < 100"
            : ratio < 1000 ? "error < 1000" : "error > 1000");
  if (error > tolerance) {
    if (transverse < 1e-5L || Π.mc < 1e-8L) {
      ctx.known("euler-intermediate-axis", "attitude wrong when rotating about the intermediate axis");
      return;
    }
    // The accuracy to be expected from the elliptic integral of the third kind.
    if ((error <= tolerance + 3e-14L * Π.multiplier * (1 + std::sqrt(Π.n)) * amplification / std::sqrt(Π.mc) &&
         Π.symmetry <= 1e-3L) ||
        Π.symmetry <= 1e-6L) {
      ctx.known("euler-nearly-symmetric", "lost digits in the attitude");
      return;
    }
  }
  REQUIRE(error <= tolerance,
          p.kind << " mc " << Π.mc << " n " << Π.n << " mult " << Π.multiplier << " sym " << Π.symmetry << " error " << error << " for a tolerance of " << tolerance << ", amplification "
                 << amplification << ", I " << p.I[0] << " " << p.I[1] << " " << p.I[2] << ", m "
                 << p.initial.m << " Δt " << Δt << " angle " << Δt * p.ω_max << " m "
                 << actual.m << " instead of " << expected.m);
  // The velocity of rotation.
  auto const motion = solver.MotionAt(At(t), {World::origin, World::unmoving});
  Vec ω_body{actual.m[0] / p.I[0], actual.m[1] / p.I[1], actual.m[2] / p.I[2]};
  Vec const ω = ω_body[0] * actual.R[0] + ω_body[1] * actual.R[1] + ω_body[2] * actual.R[2];
  REQUIRE(Norm(Of(motion.template angular_velocity_of<Axes>()) - ω) <= 1e-14L * Norm(ω),
          "angular velocity");
  Vec const ω_for = Of(solver.AngularVelocityFor(solver.AngularMomentumAt(At(t))));
  REQUIRE(Norm(ω_for - ω_body) <= 1e-15L * Norm(ω_body), "angular velocity for a momentum");
  ctx.label(p.kind);
  ctx.nontrivial(p.I[0] < p.I[2] && std::abs(Δt) * p.ω_max > 1);
}

// The constants of the motion, over long times.
void Constants(Src& s, Ctx& ctx) {
  Problem const p = Generate(s);
  Solver const solver = Make(p);
  Real const T2 = p.ω_max * p.ω_max * p.I[0];
  Vec const L = Of(p.L);
  Vec const q = 1e3L * ref::Direction(s), v = 1e2L * ref::Direction(s);
  DegreesOfFreedom<World> const linear(World::origin + Make<Displacement<World>>(q),
                                       Make<Velocity<World>>(v));
  for (int i = 0; i < 3; ++i) {
    double const t = static_cast<double>(p.t0 + s.slog(1e-3, 1e7) / p.ω_max);
    State const x = Observed(solver, At(t));
    Real T2_now = 0;
    for (int j = 0; j < 3; ++j) T2_now += x.m[j] * x.m[j] / p.I[j];
    Real const κ = p.I[2] / p.I[0];
    REQUIRE(std::abs(Norm(x.m) / p.G - 1) <= 1e-14L * κ, "norm of the angular momentum: " << Norm(x.m) / p.G - 1 << " I " << p.I[0] << " " << p.I[1] << " " << p.I[2] << " m/G " << p.initial.m[0] / p.G << " " << p.initial.m[1] / p.G << " " << p.initial.m[2] / p.G << " " << p.kind << " t " << t);
    REQUIRE(std::abs(T2_now / T2 - 1) <= 2e-14L * κ, "energy " << T2_now / T2 - 1 << " κ " << κ);
    Vec const L_now = x.m[0] * x.R[0] + x.m[1] * x.R[1] + x.m[2] * x.R[2];
    REQUIRE(Norm(L_now - L) <= 2e-14L * κ * p.G, "angular momentum " << Norm(L_now - L) / p.G);
    for (int j = 0; j < 3; ++j) {
      REQUIRE(std::abs(Dot(x.R[j], x.R[j]) - 1) <= 1e-14L &&
                  std::abs(Dot(x.R[j], x.R[(j + 1) % 3])) <= 1e-14L, "rotation");
    }
    auto const motion = solver.MotionAt(At(t), linear);
    auto const centre = motion({Axes::origin, Axes::unmoving});
    REQUIRE(Norm(Of(centre.position()) - q) <= 1e-10L + 1e-14L * std::abs(t - p.t0) * 1e2L && Norm(Of(centre.velocity()) - v) <= 1e-11L + 1e-11L * p.ω_max,
            "linear motion " << Of(centre.position()) << " instead of " << q << " " << Of(centre.velocity()) << " instead of " << v << " ω " << p.ω_max);
    // A point of the body, one unit from the centre.
    Vec const r = ref::Direction(s);
    auto const point = motion(
        {Axes::origin + Make<Displacement<Axes>>(r), Axes::unmoving});
    Vec const at = r[0] * x.R[0] + r[1] * x.R[1] + r[2] * x.R[2];
    Vec const ω = (x.m[0] / p.I[0]) * x.R[0] + (x.m[1] / p.I[1]) * x.R[1] + (x.m[2] / p.I[2]) * x.R[2];
    REQUIRE(Norm(Of(point.position()) - q - at) <= 1e-11L, "position of a point");
    REQUIRE(Norm(Of(point.velocity()) - v - Cross(ω, at)) <= 1e-11L + 1e-11L * Norm(ω),
            "velocity of a point");
  }
  State const x = Observed(solver, At(p.t0));
  REQUIRE(Distance(x, p.initial, p.G) <= 1e-12L * p.I[2] / p.I[0] + (ThirdKind(p).mc < 1e-4L || std::hypot(p.initial.m[0], p.initial.m[2]) < 1e-3L * p.G ? 1e-7L : 0), "initial state, " << p.kind << " " << Distance(x, p.initial, p.G));
  // Round trip.
  serialization::EulerSolver message;
  solver.WriteToMessage(&message);
  auto const read = Solver::ReadFromMessage(message);
  double const t = static_cast<double>(p.t0 + s.sym(1e4) / p.ω_max);
  auto const d1 = Observed(solver, At(t)), d2 = Observed(read, At(t));
  REQUIRE(d1.m.v == d2.m.v && d1.R[0].v == d2.R[0].v && d1.R[1].v == d2.R[1].v && d1.R[2].v == d2.R[2].v, "round trip");
  auto const moments = read.moments_of_inertia();
  REQUIRE(In(moments.x) == p.I[0] && In(moments.y) == p.I[1] && In(moments.z) == p.I[2], "moments");
  serialization::EulerSolver message2;
  read.WriteToMessage(&message2);
  REQUIRE(message.SerializeAsString() == message2.SerializeAsString(), "message");
  ctx.label(p.kind);
  ctx.nontrivial(p.I[0] < p.I[2]);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"motion", "against a numerical integration", 2'000, 50'000, Motion},
       {"constants", "constants of the motion", 20'000, 2'000'000, Constants}});
}
