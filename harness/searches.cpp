// Root finders, extremum searches, and optimizers.
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <optional>
#include <vector>

#include "base/algebra.hpp"
#include "fatal.hpp"
#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "numerics/global_optimization.hpp"
#include "numerics/gradient_descent.hpp"
#include "numerics/root_finders.hpp"
#include "pbt.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"

using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::base::_algebra;
using namespace principia::numerics::_global_optimization;
using namespace principia::numerics::_gradient_descent;
using namespace principia::numerics::_root_finders;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using pbt::Ctx;
using pbt::Src;

namespace {

using Real = long double;
using Wide = __float128;
using World = Frame<struct WorldTag>;
using Function = std::function<double(double)>;
constexpr double ε = std::numeric_limits<double>::epsilon();
constexpr double ∞ = std::numeric_limits<double>::infinity();

struct Runaway {};

// A function that counts its evaluations and remembers where it was evaluated.
struct Counted {
  Function f;
  double lower, upper;
  std::int64_t evaluations = 0;
  bool outside = false;
  double least = ∞;
  double operator()(double const x) {
    if (++evaluations > 2'000'000) throw Runaway{};
    if (!(x >= lower && x <= upper)) outside = true;
    double const y = f(x);
    least = std::min(least, y);
    return y;
  }
};

double Step(double x, int const n) {
  for (int i = 0; i < std::abs(n); ++i) x = std::nextafter(x, n > 0 ? ∞ : -∞);
  return x;
}

// A function with a known sign change at `root`, increasing through it; it need not
// be monotonic, nor continuous.
Function WithRoot(Src& s, double const root, double const scale, std::string& name) {
  double const k = s.log(1e-3, 1e3);
  switch (s.below(9)) {
    case 0:
      name = "linear";
      return [=](double const x) { return k * (x - root); };
    case 1: {
      name = "power";
      int const n = 2 * s.range(1, 5) + 1;
      return [=](double const x) { return k * std::pow((x - root) / scale, n); };
    }
    case 2:
      name = "exponential";
      return [=](double const x) { return std::expm1(k * (x - root) / scale); };
    case 3:
      name = "arctangent";
      return [=](double const x) { return std::atan(k * (x - root) / scale); };
    case 4: {
      name = "step";
      double const a = s.log(1e-3, 1e3);
      return [=](double const x) { return x < root ? -a : k; };
    }
    case 5:
      name = "cube root";
      return [=](double const x) { return std::cbrt(x - root); };
    case 6: {
      name = "wavy";
      double const a = s.real(0, 3);
      double const ω = s.log(1, 30);
      return [=](double const x) {
        double const u = (x - root) / scale;
        return u * (1 + a * std::pow(std::sin(ω * u), 2));
      };
    }
    case 7: {
      name = "difference";  // Suffers from cancellations.
      double const a = std::exp(root / scale);
      return [=](double const x) { return std::exp(x / scale) - a; };
    }
    default: {
      name = "subnormal";
      return [=](double const x) { return (x - root) * 1e-310; };
    }
  }
}

void Roots(Src& s, Ctx& ctx) {
  double const scale = s.chance(1, 3) ? 1 : s.log(1e-6, 1e12);
  double const root =
      s.chance(1, 8) ? 0 : s.chance(1, 2) ? s.sym(scale) : scale * s.sym(1e6);
  double lower = root - scale * s.log(1e-9, 1);
  double upper = root + scale * s.log(1e-9, 1);
  if (s.chance(1, 12)) lower = root;
  if (s.chance(1, 12)) upper = root;
  if (!(lower <= root && root <= upper && lower < upper)) throw pbt::Discard{};
  std::string name;
  Function f = WithRoot(s, root, scale, name);
  if (s.coin()) f = [f](double const x) { return -f(x); };
  ctx.label(name);
  bool const reverse = s.chance(1, 6);
  ctx.note() << name << " root " << root << " in " << lower << " " << upper
             << (reverse ? " reversed" : "") << " ";
  double const f_lower = f(lower);
  double const f_upper = f(upper);
  bool const same =
      f_lower != 0 && f_upper != 0 && std::signbit(f_lower) == std::signbit(f_upper);
  if (same) throw pbt::Discard{};
  ctx.nontrivial(f_lower != 0 && f_upper != 0);

  auto const at = [&](double const x) { return f(std::clamp(x, lower, upper)); };
  auto const is_root = [&](double const x, int const ulps) {
    double const y = f(x);
    if (y == 0) return true;
    for (int n = 1; n <= ulps; ++n) {
      for (double const z : {at(Step(x, n)), at(Step(x, -n))}) {
        if (z == 0 || std::signbit(z) != std::signbit(y)) return true;
      }
    }
    return false;
  };
  double const from = reverse ? upper : lower;
  double const to = reverse ? lower : upper;
  {
    Counted g{f, lower, upper};
    double const x = Bisect([&](double const x) { return g(x); }, from, to);
    REQUIRE(!g.outside && x >= lower && x <= upper, "bisection leaves the interval");
    REQUIRE(is_root(x, 1), "bisection finds " << x);
    REQUIRE(g.evaluations <= 2200, "bisection takes " << g.evaluations);
  }
  {
    Counted g{f, lower, upper};
    double const x = Brent([&](double const x) { return g(x); }, from, to);
    // The proof of termination only ensures the square of the cost of bisection.
    REQUIRE(x >= lower && x <= upper, "Brent's method finds " << x << " out of the interval");
    REQUIRE(is_root(x, 4), "Brent's method finds " << x);
    ctx.label_if(g.evaluations > 200, "many steps");
  }
  {
    // Same thing on a line of instants.
    Instant const t0;
    Counted g{f, lower, upper};
    auto const h = [&](Instant const& t) { return g((t - t0) / Second) * Metre; };
    REQUIRE(Bisect(h, t0 + from * Second, t0 + to * Second) ==
                t0 + Bisect(f, from, to) * Second, "bisection of instants");
    REQUIRE(Brent(h, t0 + from * Second, t0 + to * Second) ==
                t0 + Brent(f, from, to) * Second, "Brent's method on instants");
  }
}

void SameSigns(Src& s, Ctx& ctx) {
  double const lower = s.sym(10);
  double const upper = lower + s.log(1e-3, 10);
  double const c = s.log(1e-3, 10) * (s.coin() ? 1 : -1);
  double const k = s.real(0, 2);
  auto const f = [=](double const x) {
    return c * (1 + k * (x - lower) * (x - lower));
  };
  ctx.nontrivial(true);
  ctx.note() << lower << " " << upper << " " << c << " " << k << " ";
  REQUIRE(pbt::is_fatal([&] { Bisect(f, lower, upper); }), "bisection accepts equal signs");
  REQUIRE(pbt::is_fatal([&] { Brent(f, lower, upper); }), "Brent accepts equal signs");
}

// Functions of one variable with several zeroes.
void AllRoots(Src& s, Ctx& ctx) {
  double const scale = s.log(1e-3, 1e6);
  double const centre = s.chance(1, 3) ? 0 : s.sym(3);
  double const lower = (centre - 1) * scale;
  double const upper = (centre + 1) * scale;
  int const n = s.range(0, 5);
  std::vector<double> roots;
  for (int i = 0; i < n; ++i) roots.push_back((centre + s.sym(1)) * scale);
  if (n > 0 && s.chance(1, 8)) roots.front() = lower;
  if (n > 1 && s.chance(1, 8)) roots.back() = upper;
  std::sort(roots.begin(), roots.end());
  for (int i = 0; i < n; ++i) {
    double const gap = (roots[i] - (i == 0 ? lower : roots[i - 1])) / scale;
    if (i > 0 && gap < 0.05) throw pbt::Discard{};
    if (i == 0 && gap != 0 && gap < 0.05) throw pbt::Discard{};
    if (i == n - 1 && roots[i] != upper && upper - roots[i] < 0.05 * scale) {
      throw pbt::Discard{};
    }
  }
  double const sign = s.coin() ? 1 : -1;
  double const size = s.log(1e-3, 1e3);
  Function const f = [=](double const x) {
    double y = sign * size;
    for (double const r : roots) y *= (x - r) / scale;
    return y;
  };
  ctx.note() << "roots";
  for (double const r : roots) ctx.note() << " " << r;
  ctx.note() << " in " << lower << " " << upper << " ";
  ctx.label(std::to_string(n) + " roots");
  ctx.nontrivial(n > 0);
  Counted g{f, lower, upper};
  absl::btree_set<double> found;
  try {
    found = DoubleBrent<double>([&](double const x) { return g(x); }, lower, upper);
  } catch (Runaway const&) {
    REQUIRE(false, "no result");
  }
  double const tolerance = 4 * ε * std::max(std::abs(lower), std::abs(upper));
  for (double const x : found) {
    bool near = false;
    for (double const r : roots) near |= std::abs(x - r) <= tolerance;
    REQUIRE(near, x << " is not a zero");
  }
  // For a polynomial of low degree there is nothing to confuse the searches.
  if (n <= 3) {
    for (double const r : roots) {
      int count = 0;
      for (double const x : found) count += std::abs(x - r) <= tolerance;
      REQUIRE(count >= 1, r << " is missed");
      // The same zero may be found from both sides.
      REQUIRE(count <= 2, r << " is found " << count << " times");
      ctx.label_if(count == 2, "found twice");
    }
  } else if (n % 2 == 1 && roots.front() != lower && roots.back() != upper) {
    REQUIRE(!found.empty(), "all zeroes are missed");
  }
}

void Extrema(Src& s, Ctx& ctx) {
  double const scale = s.chance(1, 3) ? 1 : s.log(1e-6, 1e12);
  double const best =
      s.chance(1, 8) ? 0 : s.chance(1, 2) ? s.sym(scale) : scale * s.sym(1e3);
  double const lower = s.chance(1, 12) ? best : best - scale * s.log(1e-5, 1);
  double const upper = s.chance(1, 12) ? best : best + scale * s.log(1e-5, 1);
  if (!(lower <= best && best <= upper && lower < upper)) throw pbt::Discard{};
  double const p = s.chance(1, 3) ? 2 : s.real(0.25, 6);
  double const left = s.log(1e-2, 1e2);
  double const right = s.log(1e-2, 1e2);
  bool const saturated = s.chance(1, 5);
  Function const f = [=](double const x) {
    double const u = std::abs(x - best) / scale;
    double const y = std::pow(u, p) * (x < best ? left : right);
    return saturated ? std::atan(y) : y;
  };
  ctx.note() << "|x - " << best << "|^" << p << " in " << lower << " " << upper << " slopes "
             << left << " " << right << " ";
  ctx.nontrivial(lower != best && upper != best);
  ctx.label_if(saturated, "saturated");
  // Underflow makes the bottom flat.
  double flat = scale * std::pow(1e-300 / std::max(left, right), 1 / p);
  double const size = std::max(std::abs(lower), std::abs(upper));
  {
    Counted g{f, lower, upper};
    double const x =
        GoldenSectionSearch([&](double const x) { return g(x); }, lower, upper, std::less<>());
    REQUIRE(!g.outside && x >= lower && x <= upper, "golden section leaves the interval");
    REQUIRE(std::abs(x - best) <= 16 * ε * size + flat, "golden section finds " << x);
    REQUIRE(g.evaluations <= 3300, "golden section takes " << g.evaluations);
    REQUIRE(GoldenSectionSearch([&](double const x) { return -g(x); }, lower, upper,
                                std::greater<>()) == x, "golden section for a maximum");
  }
  {
    Instant const t0;
    Counted g{f, lower, upper};
    double const eps = s.coin() ? 1e-8 : s.log(1e-15, 1e-3);
    bool const standard = s.coin();
    double const tolerance = standard ? std::sqrt(ε / 2) : eps;
    auto const search = [&](auto const& h, auto const& compare) {
      return standard ? Brent(h, lower, upper, compare) : Brent(h, lower, upper, compare, eps);
    };
    double const x = search([&](double const x) { return g(x); }, std::less<>());
    REQUIRE(!g.outside && x > lower && x < upper, "Brent's method leaves the interval");
    REQUIRE(f(x) == g.least, "Brent's method returns " << x << " which is not the best point");
    REQUIRE(std::abs(x - best) <= 3.5 * tolerance * std::max(std::abs(best), std::abs(x)) +
                                      8 * ε * std::abs(best) + flat + 1e-300,
            "Brent's method finds " << x);
    REQUIRE(search([&](double const x) { return -f(x); }, std::greater<>()) == x,
            "Brent's method for a maximum");
    ctx.label_if(g.evaluations > 200, "many steps");
    auto const h = [&](Instant const& t) { return f((t - t0) / Second) * Metre; };
    REQUIRE(Brent(h, t0 + lower * Second, t0 + upper * Second, std::less<>()) ==
                t0 + Brent(f, lower, upper, std::less<>()) * Second,
            "Brent's method on instants");
  }
  // An order for which the best value is the one closest to some value.
  {
    double const target = s.sym(2);
    auto const closer = [target](double const a, double const b) {
      return std::abs(a - target) < std::abs(b - target);
    };
    double const x = GoldenSectionSearch([&](double const x) { return f(x) + target; },
                                         lower, upper, closer);
    double const y = f(x) + target - target;
    // Rounding may make the bottom flat.
    double const rounding = 4 * ε * std::max(1.0, std::abs(target));
    double const width =
        scale * std::pow(rounding / std::min(left, right), 1 / p) * (saturated ? 2 : 1);
    REQUIRE(std::abs(x - best) <= 16 * ε * size + flat + width || y <= rounding,
            "golden section for another order finds " << x);
  }
}

void Quadratic(Src& s, Ctx& ctx) {
  // Integers scaled by powers of 2: the discriminant is exact in 128 bits.
  auto const integer = [&] {
    std::int64_t const n = s.chance(1, 3) ? s.range(-9, 9)
                                          : s.range(-(1LL << 53), 1LL << 53);
    return s.chance(1, 4) ? n >> s.range(0, 40) : n;
  };
  std::int64_t a = integer(), b = integer(), c = integer();
  int const kind = s.below(4);
  if (kind == 0) {  // Nearly a square.
    std::int64_t const p = s.range(-(1 << 26), 1 << 26), q = s.range(-(1 << 25), 1 << 25);
    a = p * p;
    b = 2 * p * q;
    c = q * q;
    if (s.coin()) c += s.range(-2, 2);
    if (s.coin()) b += s.range(-2, 2);
  } else if (kind == 1) {  // Integer roots.
    std::int64_t const p = s.range(-(1 << 20), 1 << 20), q = s.range(-(1 << 20), 1 << 20);
    a = s.coin() ? 1 : s.range(-1000, 1000);
    b = -a * (p + q);
    c = a * p * q;
    if (std::abs(b) > (1LL << 53) || std::abs(c) > (1LL << 53)) throw pbt::Discard{};
  }
  if (a == 0) throw pbt::Discard{};
  int const ka = s.range(-100, 100), kx = s.range(-100, 100);
  // a₂ = a 2^ka, a₁ = b 2^(ka + kx), a₀ = c 2^(ka + 2 kx); the roots scale by 2^kx.
  double const a₂ = std::ldexp(a, ka), a₁ = std::ldexp(b, ka + kx),
               a₀ = std::ldexp(c, ka + 2 * kx);
  double const origin = s.chance(2, 3) ? 0 : std::ldexp(s.sym(1e10), kx);
  ctx.note() << a << " x^2 + " << b << " x + " << c << " scaled " << ka << " " << kx
             << " from " << origin << " ";
  __int128 const discriminant =
      static_cast<__int128>(b) * b - static_cast<__int128>(4) * a * c;
  auto const solutions = SolveQuadraticEquation<double, double>(origin, a₀, a₁, a₂);
  std::vector<double> const found(solutions.begin(), solutions.end());
  int const expected = discriminant < 0 ? 0 : discriminant == 0 ? 1 : 2;
  ctx.label(std::to_string(expected) + " solutions");
  ctx.nontrivial(b != 0 && c != 0);
  REQUIRE(found.size() == expected, "there are " << found.size() << " solutions");
  if (expected == 0) return;
  auto const root = [&](int const sign) -> Wide {
    // Newton for the square root in 113 bits.
    Wide const d = discriminant;
    Wide r = std::sqrt(static_cast<Real>(d));
    if (r != 0) r = (r + d / r) / 2;
    Wide const numerator = b > 0 ? -Wide(b) - r : -Wide(b) + r;
    Wide const larger = numerator / (2 * Wide(a));
    if (discriminant == 0) return -Wide(b) / (2 * Wide(a));
    Wide const smaller = 2 * Wide(c) / numerator;
    return sign < 0 ? (larger < smaller ? larger : smaller)
                    : (larger < smaller ? smaller : larger);
  };
  REQUIRE(std::is_sorted(found.begin(), found.end()), "not sorted");
  Wide const factor = std::ldexp(1.0L, kx);
  for (int i = 0; i < expected; ++i) {
    Wide const x = root(i == 0 ? -1 : 1) * factor;
    Wide const error = Wide(found[i]) - (Wide(origin) + x);
    Wide const magnitude = x < 0 ? -x : x;
    Wide const sum = Wide(origin) + x;
    Wide const tolerance = Wide(ε) * (3 * magnitude + (origin == 0 ? 0 : sum < 0 ? -sum : sum));
    REQUIRE((error < 0 ? -error : error) <= tolerance,
            "solution " << i << " is " << found[i] << " not "
                        << static_cast<double>(Wide(origin) + x));
  }
}

using D = Displacement<World>;
using principia::numerics::_gradient_descent::internal::GateauxDerivative;
using Grad1 = Vector<Quotient<double, Length>, World>;
using P = std::array<double, 3>;

double Dot(P const& a, P const& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
P Minus(P const& a, P const& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
P Coordinates(D const& d) {
  auto const c = d.coordinates();
  return {c.x / Metre, c.y / Metre, c.z / Metre};
}
D Make(P const& p) { return D({p[0] * Metre, p[1] * Metre, p[2] * Metre}); }
P Point(Src& s, double const size) { return {s.sym(size), s.sym(size), s.sym(size)}; }
std::array<P, 3> RandomAxes(Src& s) {
  P a, b;
  double n;
  do {
    a = {s.real(-1, 1), s.real(-1, 1), s.real(0.1, 1)};
    b = {s.real(0.1, 1), s.real(-1, 1), s.real(-1, 1)};
    n = std::sqrt(Dot(a, a));
    for (auto& x : a) x /= n;
    double const d = Dot(a, b);
    for (int i = 0; i < 3; ++i) b[i] -= d * a[i];
    n = std::sqrt(Dot(b, b));
    if (n < 0.1) throw pbt::Discard{};
    for (auto& x : b) x /= n;
  } while (false);
  P const c{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
  return {a, b, c};
}

void Descent(Src& s, Ctx& ctx) {
  P const minimum = Point(s, 100);
  P const start = s.chance(1, 20) ? minimum : [&] {
    P p = minimum;
    P const q = Point(s, s.log(1e-2, 1e2));
    for (int i = 0; i < 3; ++i) p[i] += q[i];
    return p;
  }();
  auto const axes = RandomAxes(s);
  std::array<double, 3> curvatures;
  double const size = s.log(1e-3, 1e3);
  for (auto& c : curvatures) c = size * s.log(0.05, 5);
  double const quartic = s.coin() ? 0 : size * s.log(1e-5, 1e-2);
  double const offset = s.chance(1, 3) ? s.sym(10) * size : 0;
  // f = Σ ½ cᵢ uᵢ² + q Σ uᵢ⁴.
  std::int64_t evaluations = 0;
  auto const f = [&](D const& x) {
    if (++evaluations > 100'000) throw Runaway{};
    P const d = Minus(Coordinates(x), minimum);
    double y = 0;
    for (int i = 0; i < 3; ++i) {
      double const u = Dot(d, axes[i]);
      y += 0.5 * curvatures[i] * u * u + quartic * u * u * u * u;
    }
    return y + offset;
  };
  auto const grad = [&](D const& x) {
    if (++evaluations > 100'000) throw Runaway{};
    P const d = Minus(Coordinates(x), minimum);
    P g{};
    for (int i = 0; i < 3; ++i) {
      double const u = Dot(d, axes[i]);
      double const k = curvatures[i] * u + 4 * quartic * u * u * u;
      for (int j = 0; j < 3; ++j) g[j] += k * axes[i][j];
    }
    return Grad1({g[0] / Metre, g[1] / Metre, g[2] / Metre});
  };
  double const tolerance = s.log(1e-6, 1e-2);
  double const distance = std::sqrt(Dot(Minus(start, minimum), Minus(start, minimum)));
  int const mode = s.below(4);
  std::optional<Length> first;
  if (s.coin()) first = s.log(1e-4, 1) * Metre;
  Length const radius = mode == 0 ? distance * s.log(0.01, 0.5) * Metre
                        : mode == 1 ? 1e9 * Metre : ∞ * Metre;
  ctx.note() << "minimum " << minimum[0] << " " << minimum[1] << " " << minimum[2] << " start "
             << start[0] << " " << start[1] << " " << start[2] << " curvatures "
             << curvatures[0] << " " << curvatures[1] << " " << curvatures[2] << " quartic "
             << quartic << " offset " << offset << " tolerance " << tolerance << " radius "
             << radius / Metre << " distance " << distance << " ";
  ctx.nontrivial(distance > tolerance);
  absl::StatusOr<D> result = absl::InternalError("");
  try {
    if (s.coin()) {
      int directional = 0;
      GateauxDerivative<double, D> const derivative = [&](D const& x, D const& direction) {
        ++directional;
        return InnerProduct(grad(x), direction);
      };
      result = BroydenFletcherGoldfarbShanno<double, D>(Make(start), f, grad, derivative,
                                                        tolerance * Metre, radius, first);
    } else {
      result = BroydenFletcherGoldfarbShanno<double, D>(Make(start), f, grad,
                                                        tolerance * Metre, radius, first);
    }
  } catch (Runaway const&) {
    REQUIRE(false, "no result");
  }
  if (mode == 0) {
    ctx.label("out of reach");
    // It must not go beyond the radius by more than one search.
    if (!result.ok()) {
      REQUIRE(result.status().code() == termination_condition::NoMinimum, "status");
      return;
    }
  }
  REQUIRE(result.ok(), "no minimum found");
  P const x = Coordinates(*result);
  double const error = std::sqrt(Dot(Minus(x, minimum), Minus(x, minimum)));
  // The noise of the function makes it flat near the minimum.
  double const least = *std::min_element(curvatures.begin(), curvatures.end());
  double const most = *std::max_element(curvatures.begin(), curvatures.end()) +
                      12 * quartic * distance * distance;
  double const flat = std::sqrt(8 * ε * (std::abs(offset) + 1e-12 * size) / least) +
                      1e-13 * 200;
  ctx.label(error <= tolerance ? "within tolerance"
            : error <= 10 * tolerance ? "within 10 tolerances" : "farther");
  if (mode == 0) {
    REQUIRE(error <= distance * (1 + 1e-14), "no progress");
    return;
  }
  REQUIRE(f(*result) <= f(Make(start)), "not a descent");
  REQUIRE(error <= 10 * tolerance * most / least + 30 * flat * std::sqrt(most / least),
          "error is " << error);
}

// Several wells: f = -log(Σ depth exp(-|x - c|²/(2 w²))).
void Global(Src& s, Ctx& ctx) {
  int const dimensions = s.range(1, 3);
  struct Well { P c; double depth, width; };
  std::vector<Well> wells;
  double const size = s.log(0.1, 100);
  P const centre = Point(s, 2 * size);
  auto const axes = RandomAxes(s);
  std::array<double, 3> half;
  for (auto& h : half) h = size * s.real(0.8, 1.2);
  auto const in_box = [&](std::array<double, 3> const& u) {
    P p = centre;
    for (int i = 0; i < dimensions; ++i) {
      for (int j = 0; j < 3; ++j) p[j] += u[i] * half[i] * axes[i][j];
    }
    return p;
  };
  int const n = s.range(1, 3);
  for (int i = 0; i < n; ++i) {
    P const c = in_box({s.real(-0.7, 0.7), s.real(-0.7, 0.7), s.real(-0.7, 0.7)});
    for (auto const& w : wells) {
      if (Dot(Minus(c, w.c), Minus(c, w.c)) < size * size * 0.81) throw pbt::Discard{};
    }
    wells.push_back({c, s.real(0.8, 1.25), size * s.real(0.22, 0.28)});
  }
  bool const maxima = s.coin();
  double const sign = maxima ? -1 : 1;
  auto const exponent = [&](Well const& w, D const& x) {
    P const d = Minus(Coordinates(x), w.c);
    return Dot(d, d) / (2 * w.width * w.width);
  };
  auto const least_exponent = [&](D const& x) {
    double least = ∞;
    for (auto const& w : wells) least = std::min(least, exponent(w, x));
    return least;
  };
  std::int64_t evaluations = 0;
  auto const f = [&](D const& x) {
    if (++evaluations > 1'000'000) throw Runaway{};
    double y = 0;
    double const nearest = least_exponent(x);
    for (auto const& w : wells) {
      y += w.depth * std::exp(nearest - exponent(w, x));
    }
    return sign * (nearest - std::log(y));
  };
  auto const grad = [&](D const& x) {
    P g{};
    double sum = 0;
    double const nearest = least_exponent(x);
    for (auto const& w : wells) {
      double const k = w.depth * std::exp(nearest - exponent(w, x));
      sum += k;
      P const d = Minus(Coordinates(x), w.c);
      for (int j = 0; j < 3; ++j) g[j] += k * d[j] / (w.width * w.width);
    }
    double const k = sign / sum;
    return Grad1({k * g[0] / Metre, k * g[1] / Metre, k * g[2] / Metre});
  };
  double const tolerance = size * s.log(1e-6, 1e-3);
  bool const bayesian = s.chance(1, 4);
  int const points = s.range(70, 100);
  std::optional<std::int64_t> rounds;
  if (!bayesian) rounds = s.range(8, 12);
  ctx.note() << dimensions << " dimensions, wells";
  for (auto const& w : wells) {
    ctx.note() << " (" << w.c[0] << " " << w.c[1] << " " << w.c[2] << ") " << w.depth << " "
               << w.width;
  }
  ctx.note() << " tolerance " << tolerance << " points " << points << " rounds "
             << rounds.value_or(-1) << " ";
  ctx.label(std::to_string(dimensions) + " dimensions");
  ctx.label_if(bayesian, "optimal stopping");
  ctx.nontrivial(n > 1);
  std::vector<D> found;
  auto const search = [&]<int d>() {
    using Optimizer = MultiLevelSingleLinkage<double, D, d>;
    typename Optimizer::Box box;
    box.centre = Make(centre);
    for (int i = 0; i < d; ++i) {
      P v;
      for (int j = 0; j < 3; ++j) v[j] = half[i] * axes[i][j];
      box.vertices[i] = Make(v);
    }
    Optimizer optimizer(box, f, grad);
    if (s.chance(1, 4)) {
      // A previous search must not matter, except for the random numbers.
      if (maxima) {
        optimizer.FindGlobalMaxima(5, 2, 1e-2 * size * Metre);
      } else {
        optimizer.FindGlobalMinima(5, 2, 1e-2 * size * Metre);
      }
    }
    found = maxima ? optimizer.FindGlobalMaxima(points, rounds, tolerance * Metre)
                   : optimizer.FindGlobalMinima(points, rounds, tolerance * Metre);
  };
  try {
    switch (dimensions) {
      case 1: search.template operator()<1>(); break;
      case 2: search.template operator()<2>(); break;
      default: search.template operator()<3>(); break;
    }
  } catch (Runaway const&) {
    REQUIRE(false, "no result");
  }
  evaluations = 0;
  // The true extrema, by Newton-like iterations from the bottoms of the wells.
  std::vector<P> extrema;
  for (auto const& w : wells) {
    P p = w.c;
    for (int k = 0; k < 200; ++k) {
      auto const g = grad(Make(p)).coordinates();
      double const h = w.width * w.width;
      P const v{g.x * Metre, g.y * Metre, g.z * Metre};
      for (int j = 0; j < 3; ++j) p[j] -= sign * v[j] * h;
    }
    extrema.push_back(p);
  }
  for (int i = 0; i < found.size(); ++i) {
    P const x = Coordinates(found[i]);
    double nearest = ∞;
    for (auto const& p : extrema) {
      nearest = std::min(nearest, std::sqrt(Dot(Minus(x, p), Minus(x, p))));
    }
    REQUIRE(nearest <= 20 * tolerance + 1e-7 * size,
            "point " << i << " is at " << nearest << " from the nearest extremum");
    for (int j = 0; j < i; ++j) {
      P const y = Coordinates(found[j]);
      REQUIRE(std::sqrt(Dot(Minus(x, y), Minus(x, y))) > tolerance,
              "points " << i << " and " << j << " are the same");
    }
  }
  REQUIRE(!found.empty(), "nothing found");
  double least = ∞;
  for (auto const& p : extrema) least = std::min(least, sign * f(Make(p)));
  if (!bayesian) {
    for (auto const& p : extrema) {
      bool is_found = false;
      for (auto const& x : found) {
        P const d = Minus(Coordinates(x), p);
        is_found |= std::sqrt(Dot(d, d)) <= 20 * tolerance + 1e-7 * size;
      }
      REQUIRE(is_found, "the extremum at " << p[0] << " " << p[1] << " " << p[2]
                                           << " is missed");
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(argc, argv,
                   {{"roots", "bisection and Brent's method", 300'000, 20'000'000, Roots},
                    {"signs", "intervals without a sign change", 5'000, 200'000, SameSigns},
                    {"all", "all the zeroes of a function", 100'000, 10'000'000, AllRoots},
                    {"extrema", "minima and maxima", 200'000, 10'000'000, Extrema},
                    {"quadratic", "quadratic equations", 200'000, 20'000'000, Quadratic},
                    {"descent", "Broyden-Fletcher-Goldfarb-Shanno", 100'000, 10'000'000, Descent},
                    {"global", "multi-level single-linkage", 4'000, 300'000, Global}});
}
