// Systems of bodies, and the ephemerides that integrate them.
#pragma once

#include <cmath>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "gravity.hpp"
#include "integrators/embedded_explicit_generalized_runge_kutta_nyström_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_nyström_integrator.hpp"
#include "integrators/methods.hpp"
#include "integrators/symmetric_linear_multistep_integrator.hpp"
#include "integrators/symplectic_runge_kutta_nyström_integrator.hpp"
#include "physics/continuous_trajectory.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/discrete_trajectory.hpp"
#include "physics/ephemeris.hpp"
#include "physics/massless_body.hpp"

using namespace principia::geometry::_symmetric_bilinear_form;
using namespace principia::integrators::_embedded_explicit_generalized_runge_kutta_nyström_integrator;  // NOLINT
using namespace principia::integrators::_embedded_explicit_runge_kutta_nyström_integrator;  // NOLINT
using namespace principia::integrators::_integrators;
using namespace principia::integrators::_methods;
using namespace principia::integrators::_symmetric_linear_multistep_integrator;
using namespace principia::integrators::_symplectic_runge_kutta_nyström_integrator;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_discrete_trajectory;
using namespace principia::physics::_ephemeris;

using E = Ephemeris<World>;
using NewtonianODE = E::NewtonianMotionEquation;
using Generalized = E::GeneralizedNewtonianMotionEquation;

struct State {
  Vec q, v;
};
inline State OfDof(DegreesOfFreedom<World> const& dof) {
  return {Of(dof.position()), Of(dof.velocity())};
}
inline DegreesOfFreedom<World> MakeDof(State const& s) {
  return {convert::Make<Position<World>>(s.q), convert::Make<Velocity<World>>(s.v)};
}
inline bool Same(Vec const& a, Vec const& b) {
  return a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
}

inline FixedStepSizeIntegrator<NewtonianODE> const& FixedIntegrator(int const i) {
  switch (i) {
    case 0:
      return SymmetricLinearMultistepIntegrator<QuinlanTremaine1990Order12, NewtonianODE>();
    case 1:
      return SymmetricLinearMultistepIntegrator<Quinlan1999Order8A, NewtonianODE>();
    case 2:
      return SymplecticRungeKuttaNyströmIntegrator<BlanesMoan2002SRKN14A, NewtonianODE>();
    default:
      return SymplecticRungeKuttaNyströmIntegrator<McLachlanAtela1992Order5Optimal,
                                                   NewtonianODE>();
  }
}

// Not vertical.
inline Vec Direction(Src& s, double const z) {
  Vec v{s.sym(1), s.sym(1), s.sym(z)};
  if (v[0] * v[0] + v[1] * v[1] < 0.05L) v[0] += 1;
  return ref::Unit(v);
}

// A star with planets on nearly circular orbits, far from each other.
struct System {
  std::vector<Body> bodies;
  std::vector<bool> oblate;
  // Whether the bodies that aren't oblate rotate.
  bool rotating = false;
  std::vector<State> initial;
  double t0, step, tolerance, geopotential_tolerance = 0;
  double a, period;  // Of the innermost planet.
  int integrator;

  std::unique_ptr<E> Make() const {
    std::vector<not_null<std::unique_ptr<MassiveBody const>>> owned;
    std::vector<DegreesOfFreedom<World>> state;
    for (std::size_t i = 0; i < bodies.size(); ++i) {
      if (oblate[i]) {
        owned.push_back(std::make_unique<OblateBody<World> const>(
            bodies[i].Massive(), bodies[i].Rotating(), bodies[i].Oblate()));
      } else if (rotating) {
        owned.push_back(std::make_unique<RotatingBody<World> const>(
            bodies[i].Massive(), bodies[i].Rotating()));
      } else {
        owned.push_back(std::make_unique<MassiveBody const>(bodies[i].Massive()));
      }
      state.push_back(MakeDof(initial[i]));
    }
    return std::make_unique<E>(
        std::move(owned), state, At(t0),
        E::AccuracyParameters(tolerance * Metre, geopotential_tolerance),
        E::FixedStepParameters(FixedIntegrator(integrator), step * Second));
  }
};

inline System MakeSystem(Src& s, double const step_min, double const step_max,
                  int const steps_per_orbit_min, int const steps_per_orbit_max,
                  bool const j2_only) {
  System r;
  r.integrator = s.below(4);
  // Otherwise the differences between times are inexact.
  r.step = std::floor(s.log(step_min, step_max));
  r.t0 = s.coin() ? 0 : std::floor(s.sym(1e4)) * r.step;
  r.period = r.step * s.range(steps_per_orbit_min, steps_per_orbit_max);
  r.a = s.log(1e7, 1e11);
  double const μ = static_cast<double>(4 * ref::π * ref::π * r.a * r.a * r.a /
                                       (r.period * r.period));
  r.tolerance = r.a * 1e-12;
  int const n = s.range(2, 5);
  Vec const offset = s.coin() ? Vec{} : r.a * Vec{s.sym(5), s.sym(5), s.sym(5)};
  Real const speed = 2 * ref::π * r.a / r.period;
  Vec const bulk = s.coin() ? Vec{} : speed * Vec{s.sym(1), s.sym(1), s.sym(1)};
  double orbit = r.a;
  for (int i = 0; i < n; ++i) {
    bool const oblate = s.chance(1, 3);
    Body b;
    if (oblate) {
      do {
        b = MakeBody(s, 6);
      } while (j2_only && !b.j2_only && [&] {
        b.coefficients.clear();
        b.j2_only = true;
        b.j2 = s.log(1e-6, 1e-2);
        b.coefficients.push_back({2, 0, -b.j2 / std::sqrt(5.0), 0});
        b.degree = 2;
        return false;
      }());
    }
    b.name = "body " + std::to_string(i);
    b.R = r.a * s.real(0.02, 0.1);
    b.min_radius = b.mean_radius = b.max_radius = b.R / 2;
    b.ω = (s.coin() ? 1 : -1) * s.real(0.1, 20) / r.period;
    b.t0 = r.t0;
    b.μ = i == 0 ? μ : μ * s.log(1e-7, 1e-3);
    State state{offset, bulk};
    if (i > 0) {
      Vec const u = Direction(s, 0.3);
      Vec const w = ref::Unit(Cross({s.sym(0.2), s.sym(0.2), 1}, u));
      state.q = state.q + (Real)orbit * u;
      Real const v = std::sqrt(μ / orbit) * s.real(0.95, 1.05);
      state.v = state.v + v * w + (0.05L * s.sym(1) * v) * u;
      orbit *= s.real(2, 3);
    }
    r.bodies.push_back(b);
    r.oblate.push_back(oblate);
    // Round.
    r.initial.push_back(OfDof(MakeDof(state)));
  }
  return r;
}

inline Thresholds Undamped(Body const& b) {
  Thresholds th;
  th.degree.assign(b.degree + 1, HUGE_VALL);
  th.sectoral = HUGE_VALL;
  return th;
}

// The acceleration and the potential at `q` due to a body at `body`, per unit of its
// parameter.
inline Real Potential(System const& y, int const i, double const t, Vec const& q,
               Vec const& body) {
  Vec const r = q - body;
  Real v = -1 / Norm(r);
  if (y.oblate[i]) {
    Vec ax, ay;
    y.bodies[i].Axes(t, ax, ay);
    v += ::Potential(y.bodies[i], Undamped(y.bodies[i]),
                     {Dot(r, ax), Dot(r, ay), Dot(r, y.bodies[i].Pole())});
  }
  return v;
}
inline Vec GravitationalAcceleration(System const& y, int const i, double const t, Vec const& q,
                 Vec const& body) {
  Vec const r = q - body;
  Real const rn = Norm(r);
  Vec a = (-1 / (rn * rn * rn)) * r;
  if (!y.oblate[i]) return a;
  Body const& b = y.bodies[i];
  Vec const z = b.Pole();
  if (b.j2_only) {
    Real const k = 1.5L * b.j2 * b.R * b.R / std::pow(rn, 5.0L);
    Real const h = Dot(r, z);
    return a - k * ((1 - 5 * h * h / (rn * rn)) * r + 2 * h * z);
  }
  Vec ax, ay;
  b.Axes(t, ax, ay);
  auto const th = Undamped(b);
  Vec const at{Dot(r, ax), Dot(r, ay), Dot(r, z)};
  Vec gradient;
  Real const h = 2e-4L * rn;
  for (int k = 0; k < 3; ++k) {
    static constexpr Real w[] = {4.0L / 5, -1.0L / 5, 4.0L / 105, -1.0L / 280};
    for (int j = 1; j <= 4; ++j) {
      Vec plus = at, minus = at;
      plus[k] += j * h;
      minus[k] -= j * h;
      gradient[k] +=
          w[j - 1] * (::Potential(b, th, plus) - ::Potential(b, th, minus)) / h;
    }
  }
  return a - (gradient[0] * ax + gradient[1] * ay + gradient[2] * z);
}
