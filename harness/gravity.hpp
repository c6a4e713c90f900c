// Bodies with a gravity field, and the textbook formulæ for their potential.
#pragma once

#include <cmath>
#include <cstdint>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "convert.hpp"
#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/rotation.hpp"
#include "geometry/space.hpp"
#include "pbt.hpp"
#include "physics/massive_body.hpp"
#include "physics/oblate_body.hpp"
#include "physics/rotating_body.hpp"
#include "quantities/astronomy.hpp"
#include "quantities/si.hpp"
#include "serialization/geometry.pb.h"
#include "serialization/physics.pb.h"

using namespace principia::base::_not_null;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_space;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_oblate_body;
using namespace principia::physics::_rotating_body;
using namespace principia::quantities::_constants;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using convert::At;
using convert::In;
using convert::Of;
using convert::Real;
using convert::Vec;
using pbt::Ctx;
using pbt::Src;
using ref::Cross;
using ref::Dot;
using ref::Norm;
namespace serialization = principia::serialization;

using World = Frame<serialization::Frame::TestTag, Inertial, Handedness::Right,
                    serialization::Frame::TEST>;
using Surface = Frame<struct SurfaceTag, Arbitrary>;
using Celestial = Frame<struct CelestialTag, Arbitrary>;

struct Coefficient {
  int n, m;
  double c, s;
};

struct Body {
  std::string name;
  double μ, min_radius, mean_radius, max_radius, atmosphere;
  bool ocean;
  double W0, t0, ω, α, δ;
  double R = 0;
  std::vector<Coefficient> coefficients;
  int degree = 0;
  bool j2_only = false;
  double j2 = 0;

  Vec Pole() const {
    return {std::cos((Real)δ) * std::cos((Real)α), std::cos((Real)δ) * std::sin((Real)α),
            std::sin((Real)δ)};
  }
  Vec Q() const { return {-std::sin((Real)α), std::cos((Real)α), 0}; }
  // The axes of the surface frame.
  void Axes(double const t, Vec& x, Vec& y) const {
    Real const W = (Real)W0 + ((Real)t - t0) * ω;
    Vec const q = Q(), p = Pole();
    x = std::cos(W) * q + std::sin(W) * Cross(p, q);
    y = Cross(p, x);
  }

  MassiveBody::Parameters Massive() const {
    return MassiveBody::Parameters(name, μ * SIUnit());
  }
  static GravitationalParameter SIUnit() {
    return principia::quantities::_si::Unit<GravitationalParameter>;
  }
  RotatingBody<World>::Parameters Rotating() const {
    return {min_radius * Metre, mean_radius * Metre, max_radius * Metre,
            atmosphere * Metre, ocean, W0 * Radian, At(t0), ω * (Radian / Second),
            α * Radian, δ * Radian};
  }
  OblateBody<World>::Parameters Oblate() const {
    if (j2_only) {
      return OblateBody<World>::Parameters(j2, R * Metre);
    }
    serialization::OblateBody::Geopotential g;
    serialization::OblateBody::Geopotential::GeopotentialRow* row = nullptr;
    for (auto const& c : coefficients) {
      if (row == nullptr || row->degree() != c.n) {
        row = g.add_row();
        row->set_degree(c.n);
      }
      auto* const column = row->add_column();
      column->set_order(c.m);
      column->set_cos(c.c);
      column->set_sin(c.s);
    }
    return OblateBody<World>::Parameters::ReadFromMessage(g, R * Metre);
  }
};

inline Body MakeBody(Src& s, int const max_degree) {
  Body b;
  b.name = s.coin() ? "Earth" : std::string(s.below(8), 'x');
  b.μ = s.log(1e5, 1e21);
  b.mean_radius = s.log(1e3, 1e9);
  b.min_radius = b.mean_radius * s.real(0.5, 1);
  b.max_radius = b.mean_radius * s.real(1, 1.5);
  b.atmosphere = s.coin() ? 0 : b.mean_radius * s.real(0, 0.2);
  b.ocean = s.coin();
  b.W0 = s.sym(7);
  b.t0 = s.coin() ? 0 : s.sym(1e8);
  b.ω = (s.coin() ? 1 : -1) * s.log(1e-8, 1e-2);
  b.α = s.sym(7);
  b.δ = s.sym(1.6);
  if (s.chance(1, 6)) b.δ = s.coin() ? 0 : 1.5707963267948966;
  b.R = b.mean_radius * s.real(0.8, 1.3);
  if (s.chance(1, 8)) {
    b.j2_only = true;
    b.j2 = s.log(1e-8, 1e-1);
    b.degree = 2;
    b.coefficients.push_back({2, 0, -b.j2 / std::sqrt(5.0), 0});
    return b;
  }
  int const degree = s.chance(1, 3) ? s.range(2, max_degree) : s.range(2, 6);
  bool const zonal = s.chance(1, 5);
  bool const sparse = s.chance(1, 3);
  double const size = s.log(1e-6, 1e-2);
  b.degree = degree;
  for (int n = 2; n <= degree; ++n) {
    for (int m = 0; m <= (zonal ? 0 : n); ++m) {
      // The code documents that these vanish.
      if (n == 2 && m == 1) continue;
      bool const skip = sparse && !(n == degree && m == 0) && s.chance(2, 3);
      Coefficient c{n, m, skip ? 0 : s.sym(size), skip || m == 0 ? 0 : s.sym(size)};
      if (n == 2 && m == 0) {
        c.c = -s.log(1, 100) * size;
      } else if (skip && s.coin()) {
        continue;
      }
      b.coefficients.push_back(c);
    }
  }
  return b;
}

// Fully normalized associated Legendre functions, without the Condon-Shortley phase.
struct Legendre {
  explicit Legendre(int const degree, Real const x)
      : p(degree + 1, std::vector<Real>(degree + 1)) {
    Real const y = std::sqrt(std::max<Real>(0, 1 - x * x));
    p[0][0] = 1;
    for (int m = 1; m <= degree; ++m) {
      p[m][m] = (m == 1 ? std::sqrt(3.0L) : std::sqrt((2 * m + 1.0L) / (2 * m))) * y *
                p[m - 1][m - 1];
    }
    for (int m = 0; m < degree; ++m) {
      p[m + 1][m] = std::sqrt(2 * m + 3.0L) * x * p[m][m];
      for (int n = m + 2; n <= degree; ++n) {
        Real const a = std::sqrt((2 * n - 1.0L) * (2 * n + 1.0L) /
                                 ((Real)(n - m) * (n + m)));
        Real const b = std::sqrt((2 * n + 1.0L) * (n + m - 1.0L) * (n - m - 1.0L) /
                                 ((2 * n - 3.0L) * (n - m) * (n + m)));
        p[n][m] = a * x * p[n - 1][m] - b * p[n - 2][m];
      }
    }
  }
  std::vector<std::vector<Real>> p;
};

struct Thresholds {
  std::vector<Real> degree;
  Real sectoral;
};

// Damping, whose specification is a C¹ cubic from 1 at s0 to 0 at 3 s0.
inline Real σ(Real const r, Real const s0) {
  if (r <= s0) return 1;
  if (r >= 3 * s0) return 0;
  Real const u = (r - s0) / (2 * s0);
  return 1 - u * u * (3 - 2 * u);
}

// ∑ (R/r)ⁿ P̄nm(sin β) (C cos mλ + S sin mλ) / r, in the surface frame.
inline Real Potential(Body const& b, Thresholds const& th, Vec const& r) {
  Real const rn = Norm(r);
  Legendre const p(b.degree, r[2] / rn);
  Real const λ = std::atan2(r[1], r[0]);
  Real sum = 0;
  for (auto const& c : b.coefficients) {
    Real const s0 = c.n == 2 && c.m == 2 ? th.sectoral : th.degree[c.n];
    Real const d = std::isinf(s0) ? 1 : σ(rn, s0);
    if (d == 0) continue;
    sum += d * std::pow(b.R / rn, (Real)c.n) * p.p[c.n][c.m] *
           (c.c * std::cos(c.m * λ) + c.s * std::sin(c.m * λ));
  }
  return -sum / rn;
}
