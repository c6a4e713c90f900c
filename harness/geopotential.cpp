// Bodies and their gravity fields, against textbook formulæ in extended precision.
#include <cmath>
#include <cstdint>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "convert.hpp"
#include "fatal.hpp"
#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/rotation.hpp"
#include "geometry/space.hpp"
#include "gravity.hpp"
#include "pbt.hpp"
#include "physics/geopotential.hpp"
#include "physics/massive_body.hpp"
#include "physics/massless_body.hpp"
#include "physics/oblate_body.hpp"
#include "physics/rotating_body.hpp"
#include "quantities/astronomy.hpp"
#include "quantities/si.hpp"
#include "serialization/geometry.pb.h"
#include "serialization/physics.pb.h"

using namespace principia::base::_not_null;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_space;
using namespace principia::physics::_geopotential;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_massless_body;
using namespace principia::physics::_oblate_body;
using namespace principia::physics::_rotating_body;
using namespace principia::quantities::_constants;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using convert::At;
using convert::In;
using convert::Of;
using convert::Real;
using convert::Vec;
using pbt::Ctx;
using pbt::Src;
using ref::Cross;
using ref::Dot;
using ref::Norm;
namespace serialization = principia::serialization;

void Gravity(Src& s, Ctx& ctx) {
  Body const b = MakeBody(s, s.chance(1, 10) ? 30 : 15);
  OblateBody<World> const body(b.Massive(), b.Rotating(), b.Oblate());
  double const tolerance = s.coin() ? 0 : s.log(1e-10, 1e-2);
  Geopotential<World> const geopotential(&body, tolerance);
  ctx.note() << "degree " << b.degree << ", " << b.coefficients.size()
             << " coefficients, tolerance " << tolerance << ", α " << b.α << ", δ "
             << b.δ << ", ω " << b.ω << (b.j2_only ? ", J2" : "");
  REQUIRE(body.geopotential_degree() == b.degree, "degree");

  // The thresholds.
  Thresholds th;
  auto const& damping = geopotential.degree_damping();
  REQUIRE(static_cast<int>(damping.size()) == b.degree + 1,
          "damping of " << damping.size() << " degrees");
  for (auto const& d : damping) {
    th.degree.push_back(In(d.inner_threshold()));
    Real const outer = In(d.outer_threshold());
    REQUIRE((std::isinf(outer) && std::isinf(th.degree.back())) ||
                std::abs(outer - 3 * th.degree.back()) <= 1e-14L * outer,
            "outer threshold");
  }
  th.sectoral = In(geopotential.sectoral_damping().inner_threshold());
  {
    // Maxima of the Legendre functions on a grid, hence from below.
    std::vector<Real> expected(b.degree + 1, 0.0L);
    Real sectoral = 0;
    std::vector<std::vector<Real>> max(b.degree + 1, std::vector<Real>(b.degree + 1));
    if (tolerance > 0) {
      int const grid = 40 * b.degree;
      for (int i = 0; i <= grid; ++i) {
        Legendre const p(b.degree, std::sin(ref::π / 2 * i / grid));
        for (int n = 2; n <= b.degree; ++n) {
          for (int m = 0; m <= n; ++m) max[n][m] = std::max(max[n][m], std::abs(p.p[n][m]));
        }
      }
    }
    for (auto const& c : b.coefficients) {
      Real const amplitude = std::hypot((Real)c.c, (Real)c.s);
      if (amplitude == 0) continue;
      Real const r = tolerance == 0
                         ? HUGE_VALL
                         : b.R * std::pow(max[c.n][c.m] * (c.n + 1) * amplitude /
                                              tolerance, 1.0L / c.n);
      for (int k = 2; k <= c.n; ++k) expected[k] = std::max(expected[k], r);
      if (c.n > 2 || c.m == 2) sectoral = std::max(sectoral, r);
    }
    for (int n = 2; n <= b.degree; ++n) {
      REQUIRE(expected[n] == th.degree[n] ||
                  std::abs(expected[n] / th.degree[n] - 1) < 2e-3L / n,
              "threshold of degree " << n << ": " << th.degree[n] << ", expected "
              << expected[n]);
    }
    REQUIRE(sectoral == th.sectoral || std::abs(sectoral / th.sectoral - 1) < 1e-3L,
            "sectoral threshold: " << th.sectoral << ", expected " << sectoral);
  }

  bool damped = false, general = false;
  for (int i = 0; i < 3; ++i) {
    double const t = b.t0 + (s.coin() ? 0 : s.sym(1e6));
    Vec x, y;
    b.Axes(t, x, y);
    Vec const z = b.Pole();
    Real r = b.R * (s.coin() ? s.real(1, 3) : s.log(1, 1e3));
    if (tolerance > 0 && s.coin()) {
      // In the range where a degree is damped.
      int const n = s.range(2, b.degree);
      Real const s0 = s.chance(1, 4) ? th.sectoral : th.degree[n];
      if (s0 > b.R / 2) r = s0 * s.real(0.7, 3.3);
    }
    Real β = s.sym(1.57), λ = s.sym(3.15);
    int const special = s.below(10);
    if (special == 0) β = 0;
    if (special == 1) λ = s.range(-2, 2) * ref::π / 2;
    Vec const local = r * Vec{std::cos(β) * std::cos(λ), std::cos(β) * std::sin(λ),
                              std::sin(β)};
    // Round, to have the same point.
    auto const q = convert::Make<Displacement<World>>(local[0] * x + local[1] * y +
                                                      local[2] * z);
    Vec const qv = Of(q);
    Vec const at{Dot(qv, x), Dot(qv, y), Dot(qv, z)};
    auto const r² = q.Norm²();
    auto const r_norm = q.Norm();
    auto const one_over_r³ = r_norm / (r² * r²);
    auto const a = Of(geopotential.GeneralSphericalHarmonicsAcceleration(
        At(t), q, r_norm, r², one_over_r³));
    auto const v = In(geopotential.GeneralSphericalHarmonicsPotential(
        At(t), q, r_norm, r², one_over_r³));
    Real const rn = Norm(at);
    // A bound of the contributions, for the roundings.
    Real scale = 0;
    for (auto const& c : b.coefficients) {
      Real const s0 = c.n == 2 && c.m == 2 ? th.sectoral : th.degree[c.n];
      // The damping is computed with cancellations.
      scale += (rn > 3.01L * s0 ? 0 : 1) * std::pow(b.R / rn, (Real)c.n) *
               std::hypot((Real)c.c, (Real)c.s) * std::sqrt(2 * c.n + 1.0L);
      damped = damped || (rn > s0 && rn < 3 * s0);
      general = general || (c.m > 0 && c.c != 0);
    }
    // The angle has a rounding error.
    Real const angle = 1e-15L * (10 + std::abs(((Real)t - b.t0) * b.ω));
    Real const potential = Potential(b, th, at);
    Real const ε = (1e-15L * b.degree + angle) * b.degree;
    REQUIRE(std::abs(v - potential) <= 20 * ε * scale / rn,
            "potential at r/R " << rn / b.R << ", β " << β << ", λ " << λ << ": " << v
            << ", expected " << potential << ", bound " << 20 * ε * scale / rn);
    // The gradient by differences of order 8.
    Vec gradient;
    Real const h = 2e-4L * rn;
    for (int k = 0; k < 3; ++k) {
      static constexpr Real w[] = {4.0L / 5, -1.0L / 5, 4.0L / 105, -1.0L / 280};
      for (int j = 1; j <= 4; ++j) {
        Vec plus = at, minus = at;
        plus[k] += j * h;
        minus[k] -= j * h;
        gradient[k] += w[j - 1] * (Potential(b, th, plus) - Potential(b, th, minus)) / h;
      }
    }
    Vec const expected = -(gradient[0] * x + gradient[1] * y + gradient[2] * z);
    bool near = false;  // The damping is only C¹.
    for (int n = 2; n <= b.degree; ++n) {
      for (Real const s0 : {th.degree[n], th.sectoral}) {
        near = near || std::abs(rn / s0 - 1) < 2e-3L || std::abs(rn / (3 * s0) - 1) < 2e-3L;
      }
    }
    if (near) scale += 1e-3L * scale / (20 * ε);
    Real const bound = (100 * ε * b.degree * scale + 1e-13L * scale) / (rn * rn);
    // The scale vanishes when everything is damped.
    REQUIRE(Norm(a - expected) <= bound,
            "acceleration at r/R " << rn / b.R << ", β " << β << ", λ " << λ << ": " << a
            << ", expected " << expected << ", off by " << Norm(a - expected)
            << ", bound " << bound);
    ctx.count();
  }
  ctx.label_if(damped, "damped");
  ctx.label_if(general, "tesseral");
  ctx.label_if(b.degree > 6, "high degree");
  ctx.nontrivial(b.degree > 2);
}

bool Close(Vec const& a, Vec const& b, Real const ε) { return Norm(a - b) <= ε; }

void Bodies(Src& s, Ctx& ctx) {
  Body const b = MakeBody(s, 10);
  int const kind = s.below(3);
  std::unique_ptr<MassiveBody> body;
  switch (kind) {
    case 0: body = std::make_unique<MassiveBody>(b.Massive()); break;
    case 1:
      body = std::make_unique<RotatingBody<World>>(b.Massive(), b.Rotating());
      break;
    default:
      body = std::make_unique<OblateBody<World>>(b.Massive(), b.Rotating(), b.Oblate());
  }
  ctx.note() << "kind " << kind << ", degree " << b.degree;
  for (int round = 0; round < 2; ++round) {
    REQUIRE(body->name() == b.name && In(body->gravitational_parameter()) == (Real)b.μ,
            "name or parameter");
    Real const mass = b.μ / In(GravitationalConstant);
    REQUIRE(std::abs(In(body->mass()) / mass - 1) < 1e-15L, "mass");
    REQUIRE(!body->is_massless() && body->is_oblate() == (kind == 2), "kind");
    REQUIRE(In(body->mean_radius()) == (kind == 0 ? 0 : b.mean_radius) &&
                In(body->min_radius()) == (kind == 0 ? 0 : b.min_radius) &&
                In(body->max_radius()) == (kind == 0 ? 0 : b.max_radius),
            "radii");
    if (kind > 0) {
      auto const* const r = dynamic_cast<RotatingBody<World> const*>(body.get());
      REQUIRE(r != nullptr, "not a rotating body");
      REQUIRE(In(r->atmosphere_depth()) == b.atmosphere && r->has_ocean() == b.ocean,
              "atmosphere or ocean");
      REQUIRE(In(r->right_ascension_of_pole()) == b.α &&
                  In(r->declination_of_pole()) == b.δ &&
                  In(r->angular_frequency()) == b.ω,
              "pole or frequency");
      Vec const z = b.Pole(), q = b.Q();
      Real const ε = 2e-15L;
      REQUIRE(Close(Of(r->polar_axis()), z, ε), "polar axis");
      REQUIRE(Close(Of(r->biequatorial()), q, ε), "biequatorial");
      REQUIRE(Close(Of(r->equatorial()), Cross(q, z), ε), "equatorial");
      REQUIRE(Close(Of(r->angular_velocity()), (Real)b.ω * z, ε * std::abs(b.ω)),
              "angular velocity");
      double const t = b.t0 + (s.coin() ? s.sym(10) : s.sym(1e9));
      Real const W = (Real)b.W0 + ((Real)t - b.t0) * b.ω;
      Real const angle = 1e-15L * (10 + 2 * std::abs(W)) +
                         std::abs(b.ω) * 2.3e-16L * std::abs(t);
      REQUIRE(std::abs(In(r->AngleAt(At(t))) - W) <= angle, "angle");
      Vec x, y;
      b.Axes(t, x, y);
      Vec const u{s.sym(1), s.sym(1), s.sym(1)};
      auto const from = r->FromSurfaceFrame<Surface>(At(t));
      auto const to = r->ToSurfaceFrame<Surface>(At(t));
      auto const ToVec = convert::Make<Vector<double, Surface>>(u);
      REQUIRE(Close(Of(from(ToVec)), u[0] * x + u[1] * y + u[2] * z, 5 * angle),
              "from the surface at " << t << ": " << Of(from(ToVec)) << " instead of "
              << u[0] * x + u[1] * y + u[2] * z);
      auto const w = convert::Make<Vector<double, World>>(u);
      REQUIRE(Close(Of(to(w)), {Dot(u, x), Dot(u, y), Dot(u, z)}, 5 * angle),
              "to the surface");
      auto const celestial = r->ToCelestialFrame<Celestial>();
      REQUIRE(Close(Of(celestial(w)), {Dot(u, Cross(q, z)), Dot(u, q), Dot(u, z)}, 5 * ε),
              "to the celestial frame");
    }
    if (kind == 2) {
      auto const* const o = dynamic_cast<OblateBody<World> const*>(body.get());
      REQUIRE(o != nullptr, "not an oblate body");
      REQUIRE(o->geopotential_degree() == b.degree && In(o->reference_radius()) == b.R,
              "degree or radius");
      bool zonal = true;
      std::vector<std::vector<std::pair<double, double>>> all(
          b.degree + 1, std::vector<std::pair<double, double>>(b.degree + 1));
      for (auto const& c : b.coefficients) {
        all[c.n][c.m] = {c.c, c.s};
        zonal = zonal && (c.m == 0 || (c.c == 0 && c.s == 0));
      }
      REQUIRE(o->is_zonal() == zonal, "zonal");
      for (int n = 2; n <= b.degree; ++n) {
        for (int m = 0; m <= n; ++m) {
          // The division by the normalization factor may be inexact.
          REQUIRE(std::abs(o->cos()(n, m) - all[n][m].first) <=
                          (b.j2_only ? 1e-15 : 0) * std::abs(all[n][m].first) &&
                      o->sin()(n, m) == all[n][m].second,
                  "coefficient " << n << " " << m << ": " << o->cos()(n, m) << ", "
                  << o->sin()(n, m));
        }
      }
      Real const j2 = -all[2][0].first * std::sqrt(5.0L);
      REQUIRE(std::abs(o->j2() - j2) <= 1e-15L * std::abs(j2), "j2");
      REQUIRE(std::abs(In(o->j2_over_μ()) - j2 * b.R * b.R) <=
                  1e-15L * std::abs(j2 * b.R * b.R), "j2/μ");
    }
    // Through a message.
    if (s.coin()) {
      serialization::MassiveBody message;
      body->WriteToMessage(&message);
      serialization::MassiveBody copy;
      copy.ParseFromString(message.SerializeAsString());
      body = std::move(MassiveBody::ReadFromMessage(copy));
      ctx.label("massive body");
    } else {
      serialization::Body message;
      body->WriteToMessage(&message);
      serialization::Body copy;
      copy.ParseFromString(message.SerializeAsString());
      auto any = principia::physics::_body::Body::ReadFromMessage(copy);
      auto* const massive = dynamic_cast<MassiveBody*>(&*any);
      REQUIRE(massive != nullptr, "not a massive body");
      std::unique_ptr<principia::physics::_body::Body> owned = std::move(any);
      owned.release();
      body.reset(massive);
      ctx.label("body");
    }
  }
  ctx.nontrivial(kind > 0);
}

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"gravity", "geopotentials of degree up to 30 at 3 points; non-trivial if the "
        "degree is more than 2", 50000, 1500000, Gravity},
       {"bodies", "massive, rotating and oblate bodies, before and after serialization; "
        "non-trivial if rotating", 20000, 500000, Bodies}});
}
