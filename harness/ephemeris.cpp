// Ephemerides: forces, integration, serialization and reconstruction of the past.
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include "fatal.hpp"
#include "system.hpp"

void Forces(Src& s, Ctx& ctx) {
  System const y = MakeSystem(s, 10, 1e6, 60, 500, false);
  auto const e = y.Make();
  int const n = y.bodies.size();
  REQUIRE(e->empty() && e->Prolong(At(y.t0 + y.step * s.below(9))).ok(), "prolong");
  double const t =
      s.real(static_cast<double>(In(e->t_min())), static_cast<double>(In(e->t_max())));
  auto const dofs = e->EvaluateAllDegreesOfFreedom(At(t));
  auto const positions = e->EvaluateAllPositions(At(t));
  auto const velocities = e->EvaluateAllVelocities(At(t));
  std::vector<State> bodies;
  int oblates = 0;
  REQUIRE(static_cast<int>(e->bodies().size()) == n &&
              static_cast<int>(dofs.size()) == n, "number of bodies");
  for (int i = 0; i < n; ++i) {
    auto const body = e->bodies()[i];
    REQUIRE(body->name() == y.bodies[i].name, "order of the bodies");
    bodies.push_back(OfDof(dofs.at(body)));
    Real const size = Norm(bodies[i].q) + y.a;
    REQUIRE(Norm(Of(positions.at(body)) - bodies[i].q) <= 1e-13L * size &&
                Norm(Of(velocities.at(body)) - bodies[i].v) <= 1e-13L * size / y.step,
            "inconsistent evaluations");
    auto const trajectory = OfDof(e->trajectory(body)->EvaluateDegreesOfFreedom(At(t)));
    REQUIRE(Same(trajectory.q, bodies[i].q) && Same(trajectory.v, bodies[i].v),
            "not the trajectory of the body");
    oblates += y.oblate[i];
    REQUIRE(&*e->body_for_serialization_index(e->serialization_index_for_body(body)) ==
                &*body, "serialization index");
    ctx.note() << (y.oblate[i] ? (y.bodies[i].j2_only ? "J2 " : "oblate ") : "sphere ");
  }
  for (int j = 0; j < 3; ++j) {
    // A massless body, not too close.
    Vec const at = bodies[s.below(n)].q +
                   (Real)y.a * s.log(0.15, 10) *
                       ref::Unit({s.sym(1), s.sym(1), s.real(0.1, 1)});
    auto const position = convert::Make<Position<World>>(at);
    Vec const q = Of(position);
    Vec const v = (2 * ref::π * y.a / y.period) * Vec{s.sym(1), s.sym(1), s.sym(1)};
    auto const velocity = convert::Make<Velocity<World>>(v);
    Vec acceleration, jerk;
    Real potential = 0, size = 0, size_u = 0, jerk_size = 0;
    bool close = false;
    for (int i = 0; i < n; ++i) {
      Real const μ = y.bodies[i].μ;
      Vec const r = bodies[i].q - q;
      Real const rn = Norm(r);
      close = close || rn < 0.1L * y.a;
      Vec const a = GravitationalAcceleration(y, i, t, q, bodies[i].q);
      acceleration = acceleration + μ * a;
      potential += μ * Potential(y, i, t, q, bodies[i].q);
      // The distance is the difference of rounded positions.
      Real const rounding = 1 + (Norm(q) + Norm(bodies[i].q)) / rn;
      size += μ * Norm(a) * rounding;
      size_u += μ / rn * rounding;
      Vec const Δv = bodies[i].v - Of(velocity);
      jerk = jerk + (μ / (rn * rn * rn)) * (Δv - (3 * Dot(r, Δv) / (rn * rn)) * r);
      jerk_size += μ / (rn * rn * rn) * (Norm(Δv) + Norm(v)) * rounding;
    }
    if (close) continue;
    auto const actual = Of(e->ComputeGravitationalAccelerationOnMasslessBody(
        position, At(t)));
    REQUIRE(Norm(actual - acceleration) <= 1e-13L * size,
            "acceleration " << actual << ", expected " << acceleration << ", off by "
            << Norm(actual - acceleration) / size);
    DiscreteTrajectory<World> trajectory;
    auto status = trajectory.Append(At(t), {position, velocity});
    auto const on_trajectory = Of(
        e->ComputeGravitationalAccelerationOnMasslessBody(&trajectory, At(t)));
    REQUIRE(Same(actual, on_trajectory), "acceleration on a trajectory");
    auto const u = In(e->ComputeGravitationalPotential(position, At(t)));
    REQUIRE(std::abs(u - potential) <= 1e-14L * size_u,
            "potential " << u << ", expected " << potential);
    auto const actual_jerk = Of(e->ComputeGravitationalJerkOnMasslessBody(
        {position, velocity}, At(t)));
    REQUIRE(Norm(actual_jerk - jerk) <= 1e-14L * jerk_size,
            "jerk " << actual_jerk << ", expected " << jerk);
    ctx.count(3);
  }
  auto const accelerations =
      e->ComputeGravitationalAccelerationOnMassiveBodies(e->bodies(), positions, At(t));
  auto const jerks = e->ComputeGravitationalJerkOnMassiveBodies(e->bodies(), dofs);
  Vec force;
  Real forces = 0;
  for (int i = 0; i < n; ++i) {
    Vec acceleration, jerk;
    ref::Mat jacobian;
    Real size = 0, jerk_size = 0, jacobian_size = 0;
    for (int j = 0; j < n; ++j) {
      if (i == j) continue;
      Real const μ = y.bodies[j].μ;
      Vec const r = bodies[j].q - bodies[i].q;
      Real const rn = Norm(r);
      // The reaction to the effect of the field of i on j.
      Vec a = GravitationalAcceleration(y, j, t, bodies[i].q, bodies[j].q) -
              GravitationalAcceleration(y, i, t, bodies[j].q, bodies[i].q);
      a = a - (1 / (rn * rn * rn)) * r;  // The central part was counted twice.
      acceleration = acceleration + μ * a;
      Real const rounding = 1 + (Norm(bodies[i].q) + Norm(bodies[j].q)) / rn;
      size += μ * Norm(a) * rounding;
      Vec const Δv = bodies[j].v - bodies[i].v;
      jerk = jerk + (μ / (rn * rn * rn)) * (Δv - (3 * Dot(r, Δv) / (rn * rn)) * r);
      jerk_size += μ / (rn * rn * rn) * (Norm(Δv) + Norm(bodies[i].v)) * rounding;
      jacobian_size += μ / (rn * rn * rn) * rounding;
      for (int k = 0; k < 3; ++k) {
        for (int l = 0; l < 3; ++l) {
          jacobian(k, l) += μ / (rn * rn * rn) *
                            (3 * r[k] * r[l] / (rn * rn) - (k == l ? 1 : 0));
        }
      }
    }
    auto const body = e->bodies()[i];
    auto const actual = Of(accelerations[i]);
    REQUIRE(Norm(actual - acceleration) <= 1e-13L * size,
            "acceleration of body " << i << ": " << actual << ", expected "
            << acceleration << ", off by " << Norm(actual - acceleration) / size);
    auto const alone =
        Of(e->ComputeGravitationalAccelerationOnMassiveBody(body, At(t)));
    REQUIRE(Norm(alone - acceleration) <= 1e-13L * size, "acceleration of body " << i);
    REQUIRE(Norm(Of(jerks[i]) - jerk) <= 1e-14L * jerk_size,
            "jerk of body " << i << ": " << Of(jerks[i]) << ", expected " << jerk);
    REQUIRE(Norm(Of(e->ComputeGravitationalJerkOnMassiveBody(body, At(t))) - jerk) <=
                1e-14L * jerk_size, "jerk of body " << i << " alone");
    Vec const w{s.sym(1), s.sym(1), s.sym(1)};
    auto const J = e->ComputeJacobianOnMassiveBody(body, At(t));
    auto const Jw = Of(J * convert::Make<Vector<double, World>>(w));
    REQUIRE(Norm(Jw - jacobian * w) <= 1e-14L * jacobian_size,
            "Jacobian of body " << i << " on " << w << ": " << Jw << ", expected "
            << jacobian * w);
    force = force + (Real)y.bodies[i].μ * actual;
    forces += y.bodies[i].μ * size;
    ctx.count(4);
  }
  // Action and reaction.
  REQUIRE(Norm(force) <= 1e-15L * n * forces, "total force " << force);
  ctx.label_if(oblates > 1, "several oblates");
  ctx.nontrivial(n > 2 && oblates > 0);
}

// Integration of the bodies and of a massless one, by extrapolation of the
// explicit midpoint rule.
struct Reference {
  System const& y;
  // On the last body, which is massless.
  std::function<Vec(Real, State const&)> intrinsic;

  using States = std::vector<State>;
  States Derivative(Real const t, States const& x) const {
    int const n = y.bodies.size();
    States d(x.size());
    for (std::size_t i = 0; i < x.size(); ++i) d[i].q = x[i].v;
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < static_cast<int>(x.size()); ++j) {
        if (i == j || (j < n && j < i)) continue;
        Vec const a = GravitationalAcceleration(y, i, static_cast<double>(t), x[j].q, x[i].q);
        d[j].v = d[j].v + (Real)y.bodies[i].μ * a;
        if (j < n) {
          Vec a2 = GravitationalAcceleration(y, j, static_cast<double>(t), x[i].q, x[j].q);
          Vec const r = x[i].q - x[j].q;
          Real const rn = Norm(r);
          // Only one central part.
          Vec const both = a - (a2 + (1 / (rn * rn * rn)) * r);
          d[j].v = d[j].v + (Real)y.bodies[i].μ * (both - a);
          d[i].v = d[i].v - (Real)y.bodies[j].μ * both;
        }
      }
    }
    if (static_cast<int>(x.size()) > n && intrinsic) {
      d.back().v = d.back().v + intrinsic(t, x.back());
    }
    return d;
  }
  static void Add(States& x, Real const h, States const& d) {
    for (std::size_t i = 0; i < x.size(); ++i) {
      x[i].q = x[i].q + h * d[i].q;
      x[i].v = x[i].v + h * d[i].v;
    }
  }
  void Integrate(States& x, Real const t1, Real const t2) const {
    constexpr int columns = 7;
    int const steps = static_cast<int>(std::ceil((t2 - t1) / (y.period / 80)));
    Real const H = (t2 - t1) / steps;
    for (int i = 0; i < steps; ++i) {
      Real const t = t1 + i * H;
      std::vector<States> table;
      States const first = Derivative(t, x);
      for (int k = 0; k < columns; ++k) {
        int const m = 2 * (k + 1);
        Real const h = H / m;
        States a = x, b = x;
        Add(b, h, first);
        for (int j = 1; j < m; ++j) {
          States const d = Derivative(t + j * h, b);
          Add(a, 2 * h, d);
          std::swap(a, b);
        }
        table.push_back(b);
        for (int j = k - 1; j >= 0; --j) {
          Real const r = (Real)m / (2 * (j + 1));
          Real const w = 1 / (r * r - 1);
          for (std::size_t c = 0; c < x.size(); ++c) {
            table[j][c].q = table[j + 1][c].q + w * (table[j + 1][c].q - table[j][c].q);
            table[j][c].v = table[j + 1][c].v + w * (table[j + 1][c].v - table[j][c].v);
          }
        }
      }
      x = table[0];
    }
  }
};

void Dynamics(Src& s, Ctx& ctx) {
  System y = MakeSystem(s, 10, 1e6, 150, 300, true);
  if (y.integrator == 3) y.integrator = 2;
  auto const e = y.Make();
  int const n = y.bodies.size();
  double const T = std::floor(s.real(20, 300)) * y.step;
  double const t1 = y.t0 + T;
  // In one go or not.
  if (s.coin()) {
    for (int i = 0; i < 3; ++i) e->Prolong(At(y.t0 + T * s.unit())).IgnoreError();
  }
  auto const status = e->Prolong(At(t1));
  REQUIRE(status.ok() && e->t_max() >= At(t1), "prolonged to " << In(e->t_max()));
  REQUIRE(e->t_min() == At(y.t0), "t_min");
  REQUIRE(e->t_max() < At(t1 + 17 * y.step), "prolonged too far: " << In(e->t_max()));
  REQUIRE(e->last_severe_integration_status().ok(), "severe status");

  // A massless body, with an acceleration.
  State probe = y.initial[0];
  Real const d = y.a * s.real(0.4, 0.7);
  Vec const u = Direction(s, 0.4);
  Vec const w = ref::Unit(Cross({s.sym(0.3), s.sym(0.3), 1}, u));
  Real const speed = std::sqrt(y.bodies[0].μ / d) * s.real(0.9, 1.1);
  probe.q = probe.q + d * u;
  probe.v = probe.v + speed * w;
  probe = OfDof(MakeDof(probe));
  Real const thrust = s.coin() ? 0 : y.bodies[0].μ / (d * d) * s.real(0, 0.01);
  Real const frequency = s.real(0, 10) / y.period;
  Real const drag = s.coin() ? 0 : s.real(0, 0.1) / y.period;
  Vec const direction = ref::Unit({s.sym(1), s.sym(1), s.real(0.1, 1)});
  int const mode = s.below(3);  // Adaptive, generalized, fixed.
  Vec const v0 = y.initial[0].v;
  Reference reference{y, [&](Real const t, State const& x) {
    Vec a = (thrust * std::cos(frequency * (t - y.t0))) * direction;
    if (mode == 1) a = a - drag * (x.v - v0);
    return a;
  }};
  E::IntrinsicAcceleration const intrinsic = [&](Instant const& t) {
    return convert::Make<Vector<Acceleration, World>>(
        (thrust * std::cos(frequency * (In(t) - y.t0))) * direction);
  };
  E::GeneralizedIntrinsicAcceleration const generalized =
      [&](Instant const& t, DegreesOfFreedom<World> const& dof) {
        return convert::Make<Vector<Acceleration, World>>(
            (thrust * std::cos(frequency * (In(t) - y.t0))) * direction -
            drag * (OfDof(dof).v - v0));
      };
  bool const null = thrust == 0 && drag == 0 && s.coin();

  auto const r = [&](double const time) {
    Reference::States x = y.initial;
    x.push_back(probe);
    if (time > y.t0) reference.Integrate(x, y.t0, time);
    return x;
  };
  double const middle = s.real(y.t0, t1);
  auto const expected = r(middle);
  ctx.note() << n << " bodies, integrator " << y.integrator << ", " << y.period / y.step
             << " steps per period, " << T / y.step << " steps, mode " << mode << " ";
  // An order 8 method with 150 steps per orbit.
  Real const ε = y.integrator == 1 ? 2e-7L : 2e-8L;
  auto const size = [&](Vec const& q) { return y.a + Norm(q); };
  Real worst = 0;
  for (int i = 0; i < n; ++i) {
    auto const dof = OfDof(e->trajectory(e->bodies()[i])->EvaluateDegreesOfFreedom(
        At(middle)));
    Real const error = Norm(dof.q - expected[i].q) / size(expected[i].q);
    Real const error_v = Norm(dof.v - expected[i].v) /
                         (6.3L * y.a / y.period + Norm(expected[i].v));
    worst = std::max(worst, std::max(error, error_v) / ε);
    REQUIRE(error <= ε, "body " << i << " at " << middle << " off by " << error);
    ctx.count();
  }
  // The conserved quantities.
  {
    auto const invariants = [&](std::vector<State> const& x) {
      Vec p, L;
      Real energy = 0, scale_p = 0, scale_L = 0, scale_e = 0;
      for (int i = 0; i < n; ++i) {
        Real const μ = y.bodies[i].μ;
        p = p + μ * x[i].v;
        L = L + μ * Cross(x[i].q, x[i].v);
        energy += μ * Dot(x[i].v, x[i].v) / 2;
        scale_p += μ * (Norm(x[i].v) + y.a / y.period);
        scale_L += μ * (Norm(x[i].q) + y.a) * (Norm(x[i].v) + y.a / y.period);
        scale_e += μ * Dot(x[i].v, x[i].v);
        for (int j = 0; j < n; ++j) {
          if (j == i) continue;
          Real const v = Potential(y, j, middle, x[i].q, x[j].q);
          // The central part is counted twice.
          Real const central = -1 / Norm(x[i].q - x[j].q);
          energy += μ * y.bodies[j].μ * (v - central / 2);
          scale_e += μ * y.bodies[j].μ * std::abs(v);
        }
      }
      return std::tuple(p, L, energy, scale_p, scale_L, scale_e);
    };
    std::vector<State> x;
    for (auto const& body : e->bodies()) {
      x.push_back(OfDof(e->trajectory(body)->EvaluateDegreesOfFreedom(At(middle))));
    }
    auto const [p0, L0, e0, sp, sL, se] = invariants(y.initial);
    auto const [p1, L1, e1, sp1, sL1, se1] = invariants(x);
    REQUIRE(Norm(p1 - p0) <= 1e-10L * sp, "momentum " << p0 << " to " << p1);
    // The rotation of the oblate bodies isn't affected by their reactions.
    bool const spherical = std::find(y.oblate.begin(), y.oblate.end(), true) ==
                           y.oblate.end();
    REQUIRE(!spherical || Norm(L1 - L0) <= ε * sL, "angular momentum " << L0 << " to " << L1);
    REQUIRE(std::abs(e1 - e0) <= 10 * ε * se, "energy " << e0 << " to " << e1);
  }

  // The flow.
  DiscreteTrajectory<World> trajectory;
  trajectory.Append(At(y.t0), MakeDof(probe)).IgnoreError();
  std::vector<double> targets{middle};
  if (s.coin()) targets.insert(targets.begin(), s.real(y.t0, middle));
  if (mode == 2) {
    double const step = y.step * s.real(0.2, 0.6);
    E::FixedStepParameters const parameters(FixedIntegrator(y.integrator),
                                            step * Second);
    auto const instance = e->NewInstance(
        {&trajectory}, null ? E::NoIntrinsicAccelerations
                            : E::IntrinsicAccelerations{intrinsic},
        parameters);
    for (double const target : targets) {
      auto const status = e->FlowWithFixedStep(At(target), *instance);
      REQUIRE(status.ok(), "fixed step: " << status.ToString());
      double const last = static_cast<double>(In(trajectory.back().time));
      REQUIRE(last <= target && last > target - step * 1.000001,
              "fixed step to " << last << " instead of " << target);
    }
    std::int64_t i = 0;
    for (auto const& [time, dof] : trajectory) {
      REQUIRE(std::abs(In(time) - (y.t0 + i * (Real)step)) <=
                  1e-15L * (std::abs(y.t0) + T), "time of the step " << i);
      ++i;
    }
  } else {
    std::int64_t const max_steps = s.chance(1, 4) ? s.range(1, 100) : 100000;
    ctx.note() << "at most " << max_steps << " steps, thrust " << thrust << " drag " << drag << " frequency " << frequency * y.period << " d " << d / y.a << " target " << targets[0] << " of " << middle << " ";
    double const length = static_cast<double>(y.a * 1e-11), v = length / y.period * 6;
    E::AdaptiveStepParameters const parameters(
        EmbeddedExplicitRungeKuttaNyströmIntegrator<DormandالمكاوىPrince1986RKN434FM,
                                                    NewtonianODE>(),
        max_steps, length * Metre, v * (Metre / Second));
    E::GeneralizedAdaptiveStepParameters const generalized_parameters(
        EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<Fine1987RKNG34,
                                                               Generalized>(),
        max_steps, length * Metre, v * (Metre / Second));
    for (double const target : targets) {
      for (int tries = 0; tries < 30000; ++tries) {
        std::int64_t const before = trajectory.size();
        auto const status =
            mode == 0
                ? e->FlowWithAdaptiveStep(&trajectory, null ? nullptr : intrinsic,
                                          At(target), parameters)
                : e->FlowWithAdaptiveStep(&trajectory, null ? nullptr : generalized,
                                          At(target), generalized_parameters);
        bool const reached = trajectory.back().time == At(target);
        REQUIRE(status.ok() == reached,
                "reached " << In(trajectory.back().time) << " of " << target << ": "
                << status.ToString());
        REQUIRE(static_cast<std::int64_t>(trajectory.size()) - before <= max_steps,
                trajectory.size() - before << " steps, at most " << max_steps);
        if (reached) break;
        REQUIRE(static_cast<std::int64_t>(trajectory.size()) > before, "no progress");
      }
    }
    REQUIRE(trajectory.back().time == At(middle), "not integrated exactly to the end");
  }
  double const last = static_cast<double>(In(trajectory.back().time));
  auto const expected_probe = mode == 2 ? r(last).back() : expected.back();
  auto const actual = OfDof(trajectory.back().degrees_of_freedom);
  Real const error = Norm(actual.q - expected_probe.q) / y.a;
  Real const error_v = Norm(actual.v - expected_probe.v) / (y.a / y.period);
  ctx.note() << trajectory.size() << " points, worst " << worst << " probe " << error << " " << error_v;
  // The local errors accumulate.
  Real const ω = std::sqrt(y.bodies[0].μ / (d * d * d));
  Real const accumulation =
      mode == 2 ? 0 : trajectory.size() * 1e-11L * (1 + 5 * ω * (last - y.t0));
  Real const ε_probe = 20 * ε + accumulation;
  // The errors are unbounded if it gets close to a body.
  bool close = false;
  for (auto const& [time, dof] : trajectory) {
    Vec const q = Of(dof.position());
    for (int i = 0; i < n; ++i) {
      Vec const body = Of(e->trajectory(e->bodies()[i])->EvaluatePosition(time));
      close = close || Norm(q - body) < 0.3L * y.a;
    }
  }
  ctx.label_if(close, "close");
  REQUIRE(close || (error <= ε_probe && error_v <= 4 * ω * y.period * ε_probe),
          "probe at " << last << " off by " << error << ", " << error_v);

  // The apsides.
  if (n > 2 || s.coin()) {
    int const i = s.below(n), j = (i + 1 + s.below(n - 1)) % n;
    auto const& bi = e->bodies()[i];
    auto const& bj = e->bodies()[j];
    using Points = principia::physics::_apsides::DistinguishedPoints<World>;
    Points a1, p1, a2, p2;
    e->ComputeApsides(bi, bj, a1, p1, a2, p2);
    auto const f = [&](Instant const& t) {
      auto const x = OfDof(e->trajectory(bi)->EvaluateDegreesOfFreedom(t));
      auto const z = OfDof(e->trajectory(bj)->EvaluateDegreesOfFreedom(t));
      return Dot(x.q - z.q, x.v - z.v);
    };
    std::size_t apo = 0, peri = 0;
    Real previous = f(e->t_min());
    Real const sample = y.step / 4;
    for (int k = 1;; ++k) {
      Instant const t = At(static_cast<double>(y.t0 + k * sample));
      if (t > e->t_max()) break;
      Real const now = f(t);
      apo += previous > 0 && now < 0;
      peri += previous < 0 && now > 0;
      previous = now;
    }
    REQUIRE(a1.size() == apo && a2.size() == apo && p1.size() == peri &&
                p2.size() == peri,
            a1.size() << " apoapsides and " << p1.size() << " periapsides, expected "
            << apo << " and " << peri);
    for (auto const* const points : {&a1, &p1, &a2, &p2}) {
      bool const apoapsis = points == &a1 || points == &a2;
      auto const& body = points == &a1 || points == &p1 ? bi : bj;
      for (auto const& [t, dof] : *points) {
        Real const δ = y.period * 1e-6L;
        Instant const before = std::max(e->t_min(), At(static_cast<double>(In(t) - δ)));
        Instant const after = std::min(e->t_max(), At(static_cast<double>(In(t) + δ)));
        Real const sign = apoapsis ? 1 : -1;
        REQUIRE(sign * f(before) >= 0 && sign * f(after) <= 0,
                "not an apsis at " << In(t));
        auto const at = OfDof(dof);
        auto const x = OfDof(e->trajectory(body)->EvaluateDegreesOfFreedom(t));
        REQUIRE(Same(at.q, x.q) && Same(at.v, x.v), "degrees of freedom of an apsis");
        ctx.count();
      }
    }
    ctx.label_if(apo + peri > 0, "apsides");
  }
  ctx.label_if(thrust > 0, "thrust");
  ctx.nontrivial(n > 2 || thrust > 0);
}

// Histories with serialization, compared with an ephemeris that is just prolonged.
void History(Src& s, Ctx& ctx) {
  constexpr double day = 86400;
  System const y = MakeSystem(s, 2 * day, 60 * day, 40, 200, s.coin());
  auto const reference = y.Make();
  std::unique_ptr<E> e = y.Make();
  int const n = y.bodies.size();
  double requested = y.t0;  // The highest time prolonged to.
  double reach = y.t0;  // What the reference covers.
  // From where the ephemeris may be evaluated.
  double since = y.t0;
  int reads = 0, reanimations = 0;
  ctx.note() << "step " << y.step / day << " d, integrator " << y.integrator << "; ";
  auto const check = [&] {
    if (e->empty()) return;
    double const t_min = static_cast<double>(In(e->t_min()));
    double const t_max = static_cast<double>(In(e->t_max()));
    REQUIRE(t_min <= since, "starts at " << t_min << ", should be before " << since);
    REQUIRE(t_max >= requested, "ends at " << t_max << ", should be after " << requested);
    if (reach < t_max) {
      reference->Prolong(At(t_max)).IgnoreError();
      reach = t_max;
    }
    for (int k = 0; k < 4; ++k) {
      // The beginning may be the end of the previous polynomial of the reference.
      double const t = k == 0 ? std::nextafter(t_min, t_max)
                       : k == 1 ? t_max
                                : std::min(t_max, s.real(t_min, t_max));
      if (t == t_min) continue;
      int const i = s.below(n);
      auto const expected = OfDof(
          reference->trajectory(reference->bodies()[i])->EvaluateDegreesOfFreedom(At(t)));
      auto const actual =
          OfDof(e->trajectory(e->bodies()[i])->EvaluateDegreesOfFreedom(At(t)));
      REQUIRE(Same(actual.q, expected.q) && Same(actual.v, expected.v),
              "body " << i << " at step " << (t - y.t0) / y.step << " between "
              << (t_min - y.t0) / y.step << " and " << (t_max - y.t0) / y.step << ": "
              << actual.q << " instead of " << expected.q);
      ctx.count();
    }
  };
  for (int op = 0; s.more(op, 2, 14, 6); ++op) {
    int const kind = op == 0 ? 0 : s.below(8);
    if (kind <= 2) {
      double const t = requested + y.step * (s.coin() ? s.real(0, 20) : s.real(0, 150));
      ctx.note() << "prolong to " << (t - y.t0) / y.step << "; ";
      if (s.chance(1, 4)) {
        // By small amounts.
        for (int k = 0; e->t_max() < At(t); ++k) {
          REQUIRE(k < 1000, "no progress");
          std::int64_t const steps = s.range(1, 40);
          Instant const before = e->t_max();
          REQUIRE(e->Prolong(At(t), steps).ok(), "prolong");
          if (before > InfinitePast) {
            REQUIRE(e->t_max() <= before + (steps + 17) * y.step * Second,
                    "more than " << steps << " steps");
          }
        }
      } else {
        REQUIRE(e->Prolong(At(t)).ok(), "prolong");
      }
      requested = t;
    } else if (kind <= 4) {
      double const desired = s.chance(1, 4) ? y.t0 : s.real(y.t0, requested);
      ctx.note() << "read with t_min " << (desired - y.t0) / y.step << "; ";
      serialization::Ephemeris message;
      e->WriteToMessage(&message);
      serialization::Ephemeris copy;
      copy.ParseFromString(message.SerializeAsString());
      e.reset();
      e = std::move(E::ReadFromMessage(At(desired), copy));
      ++reads;
      REQUIRE(static_cast<int>(e->bodies().size()) == n, "number of bodies");
      for (int i = 0; i < n; ++i) {
        REQUIRE(e->bodies()[i]->name() == y.bodies[i].name &&
                    e->bodies()[i]->is_oblate() == y.oblate[i],
                "body " << i);
      }
      since = desired;
      REQUIRE(e->Prolong(At(requested)).ok(), "prolong after reading");
    } else if (kind <= 6) {
      if (e->empty()) continue;
      double const desired = s.chance(1, 3) ? y.t0 : s.real(y.t0, requested);
      ++reanimations;
      if (s.chance(1, 3)) {
        ctx.note() << "request " << (desired - y.t0) / y.step << "; ";
        e->RequestReanimation(At(desired));
      } else {
        ctx.note() << "await " << (desired - y.t0) / y.step << "; ";
        if (s.coin()) {
          // While the ephemeris is being prolonged.
          double const t = requested + y.step * s.real(0, 30);
          std::thread prolonger([&] { e->Prolong(At(t)).IgnoreError(); });
          e->AwaitReanimation(At(desired));
          prolonger.join();
          requested = t;
        } else {
          e->AwaitReanimation(At(desired));
        }
        since = std::min(since, desired);
      }
    } else {
      // A flow gives the same results.
      if (e->empty()) continue;
      double const from = s.real(since, requested);
      State probe = OfDof(
          e->trajectory(e->bodies()[0])->EvaluateDegreesOfFreedom(At(from)));
      probe.q = probe.q + (Real)(y.a / 2) * Vec{1, 0, 0};
      double const t = s.real(from, requested + 3 * y.step) + y.step / 10;
      E::FixedStepParameters const parameters(FixedIntegrator(s.below(4)),
                                              y.step / 4 * Second);
      ctx.note() << "flow; ";
      std::vector<State> last;
      for (E* const ephemeris : {reference.get(), e.get()}) {
        ephemeris->Prolong(At(t)).IgnoreError();
        DiscreteTrajectory<World> trajectory;
        trajectory.Append(At(from), MakeDof(probe)).IgnoreError();
        auto const instance = ephemeris->NewInstance(
            {&trajectory}, E::NoIntrinsicAccelerations, parameters);
        ephemeris->FlowWithFixedStep(At(t), *instance).IgnoreError();
        last.push_back(OfDof(trajectory.back().degrees_of_freedom));
      }
      requested = std::max(requested, t);
      reach = std::max(reach, static_cast<double>(In(reference->t_max())));
      bool const same = Same(last[0].q, last[1].q) && Same(last[0].v, last[1].v);
      REQUIRE(same || std::isnan(last[0].q[0]), "flow to " << last[1].q << " instead of "
              << last[0].q);
    }
    check();
  }
  ctx.label_if(reanimations > 0, "reanimated");
  ctx.nontrivial(reads > 0);
}

// Integration into a body.
void Collisions(Src& s, Ctx& ctx) {
  System y = MakeSystem(s, 10, 1e6, 150, 300, true);
  y.oblate.assign(y.bodies.size(), true);
  for (auto& b : y.bodies) {
    b.j2_only = true;
    b.j2 = 1e-6;
    b.degree = 2;
    b.coefficients = {{2, 0, -b.j2 / std::sqrt(5.0), 0}};
    b.min_radius = b.mean_radius = b.max_radius = y.a * 0.2;
  }
  auto const e = y.Make();
  e->Prolong(At(y.t0 + 100 * y.step)).IgnoreError();
  int const i = s.below(y.bodies.size());
  // Through the body or not.
  bool const hit = s.coin();
  Vec const u = ref::Unit({s.sym(1), s.sym(1), s.real(0.1, 1)});
  Vec const w = ref::Unit(Cross(u, {s.sym(1), 1, s.sym(1)}));
  Real const miss = y.a * (hit ? s.real(0, 0.1) : s.real(0.26, 0.3));
  double const T = y.step * 8;
  State const body = y.initial[i];
  // Fast enough that gravity does not matter much.
  Real const v = y.a * 1.0L / T;
  State const probe{body.q + (-0.45L * y.a) * u + miss * w, body.v + v * u};
  DiscreteTrajectory<World> trajectory;
  trajectory.Append(At(y.t0), MakeDof(probe)).IgnoreError();
  E::FixedStepParameters const parameters(FixedIntegrator(2 + s.below(2)),
                                          T / 200 * Second);
  auto const instance =
      e->NewInstance({&trajectory}, E::NoIntrinsicAccelerations, parameters);
  auto const status = e->FlowWithFixedStep(At(y.t0 + T), *instance);
  bool near_other = false;
  for (std::size_t k = 0; k < y.bodies.size(); ++k) {
    if (static_cast<int>(k) == i) continue;
    near_other = near_other || Norm(y.initial[k].q - body.q) < 1.2L * y.a;
  }
  ctx.note() << (hit ? "hit " : "miss ") << i << ": " << status.ToString();
  if (hit) {
    REQUIRE(absl::IsOutOfRange(status), "no collision: " << status.ToString());
  } else if (!near_other) {
    REQUIRE(status.ok(), "unexpected " << status.ToString());
  }
  ctx.nontrivial(hit || !near_other);
}

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"forces", "accelerations, jerks, potentials and Jacobians in systems of 2 to 5 "
        "bodies; non-trivial with 3 bodies, one of which is oblate", 6000, 400000, Forces},
       {"dynamics", "motion of 2 to 5 bodies and a massless one against an independent "
        "integration, conserved quantities, apsides; non-trivial with 3 "
        "bodies or an intrinsic acceleration", 1500, 60000, Dynamics},
       {"history", "histories of up to 14 prolongations, serializations, "
        "reanimations and flows; non-trivial with a serialization", 2500, 60000, History},
       {"collisions", "massless bodies that hit or miss a body; non-trivial if the "
        "outcome is known", 3000, 100000, Collisions}});
}
