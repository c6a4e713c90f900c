// The integrators: the sequences of states that they produce, compared with those
// of the same methods in extended precision, and the order of these methods.

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "boost/multiprecision/cpp_int.hpp"
#include "convert.hpp"
#include "fatal.hpp"
#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "integrators/cohen_hubbard_oesterwinter.hpp"
#include "integrators/integrators.hpp"
#include "integrators/embedded_explicit_generalized_runge_kutta_nyström_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_nyström_integrator.hpp"
#include "integrators/explicit_linear_multistep_integrator.hpp"
#include "integrators/explicit_runge_kutta_integrator.hpp"
#include "integrators/methods.hpp"
#include "integrators/ordinary_differential_equations.hpp"
#include "integrators/symmetric_linear_multistep_integrator.hpp"
#include "integrators/symplectic_runge_kutta_nyström_integrator.hpp"
#include "integrators/чебышёв_picard_integrator.hpp"
#include "pbt.hpp"
#include "quantities/si.hpp"
#include "serialization/integrators.pb.h"

using namespace principia::base::_algebra;
using namespace principia::geometry::_direct_sum;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_space;
using namespace principia::integrators::_cohen_hubbard_oesterwinter;
using namespace principia::integrators::_embedded_explicit_generalized_runge_kutta_nyström_integrator;
using namespace principia::integrators::_embedded_explicit_runge_kutta_integrator;
using namespace principia::integrators::_embedded_explicit_runge_kutta_nyström_integrator;
using namespace principia::integrators::_explicit_linear_multistep_integrator;
using namespace principia::integrators::_explicit_runge_kutta_integrator;
using namespace principia::integrators::_integrators;
using namespace principia::integrators::_ordinary_differential_equations;
using namespace principia::integrators::_symmetric_linear_multistep_integrator;
using namespace principia::integrators::_symplectic_runge_kutta_nyström_integrator;
using namespace principia::integrators::_чебышёв_picard_integrator;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
namespace methods = principia::integrators::_methods;
namespace serialization = principia::serialization;
using convert::In;
using convert::At;
using pbt::Ctx;
using pbt::Src;
using Real = long double;
using Reals = std::vector<Real>;

using World = Frame<serialization::Frame::TestTag, Inertial, Handedness::Right,
                    serialization::Frame::TEST>;

// y″ₖ = aₖ·y + eₖ·y′ + gₖ sin(bₖ·y + dₖ·y′ + νₖ t + φₖ), or the same expression
// for y′ₖ with e and d null.
struct Equation {
  int n;
  Reals a, b, e, d, g, ν, φ;

  template<typename T>
  void operator()(T const t, T const* const y, T const* const v,
                  T* const f) const {
    using std::sin;
    for (int k = 0; k < n; ++k) {
      T linear = 0;
      T angle = T(ν[k]) * t + T(φ[k]);
      for (int j = 0; j < n; ++j) {
        linear += T(a[k * n + j]) * y[j];
        angle += T(b[k * n + j]) * y[j];
      }
      if (v != nullptr) {
        for (int j = 0; j < n; ++j) {
          linear += T(e[k * n + j]) * v[j];
          angle += T(d[k * n + j]) * v[j];
        }
      }
      f[k] = linear + T(g[k]) * sin(angle);
    }
  }
  Reals operator()(Real const t, Reals const& y, Reals const& v) const {
    Reals f(n);
    (*this)(t, y.data(), v.empty() ? nullptr : v.data(), f.data());
    return f;
  }
};

Equation AnEquation(Src& s, int const n, bool const velocities) {
  Equation eq{.n = n};
  auto const small = [&] { return (Real)(double)s.sym(1); };
  for (int i = 0; i < n * n; ++i) {
    eq.a.push_back(small());
    eq.b.push_back(2 * small());
    eq.e.push_back(velocities ? small() / 2 : 0);
    eq.d.push_back(velocities ? small() / 2 : 0);
  }
  for (int i = 0; i < n; ++i) {
    eq.g.push_back(small());
    eq.ν.push_back(2 * small());
    eq.φ.push_back(3 * small());
  }
  return eq;
}

struct Point {
  Real t;
  Reals y, v;
};

// The Taylor series of the solution.
Point Taylor(Equation const& eq, Point const& p, Real const t,
             bool const second_order) {
  int const n = eq.n;
  int const N = 26;
  int const steps = std::max(1, (int)std::ceil(std::abs(t - p.t) / 0.1L));
  Real const h = (t - p.t) / steps;
  Point now = p;
  for (int step = 0; step < steps; ++step) {
    std::vector<Reals> y(n, Reals(N + 3)), u(n, Reals(N + 1)),
        sn(n, Reals(N + 1)), cs(n, Reals(N + 1));
    for (int k = 0; k < n; ++k) {
      y[k][0] = now.y[k];
      if (second_order) y[k][1] = now.v[k];
    }
    for (int i = 0; i <= N; ++i) {
      for (int k = 0; k < n; ++k) {
        Real angle = i == 0 ? eq.ν[k] * now.t + eq.φ[k] : i == 1 ? eq.ν[k] : 0;
        for (int j = 0; j < n; ++j) {
          angle += eq.b[k * n + j] * y[j][i];
          if (second_order) angle += eq.d[k * n + j] * (i + 1) * y[j][i + 1];
        }
        u[k][i] = angle;
        if (i == 0) {
          sn[k][0] = std::sin(angle);
          cs[k][0] = std::cos(angle);
        } else {
          Real s = 0, c = 0;
          for (int j = 1; j <= i; ++j) {
            s += j * u[k][j] * cs[k][i - j];
            c -= j * u[k][j] * sn[k][i - j];
          }
          sn[k][i] = s / i;
          cs[k][i] = c / i;
        }
      }
      for (int k = 0; k < n; ++k) {
        Real f = eq.g[k] * sn[k][i];
        for (int j = 0; j < n; ++j) {
          f += eq.a[k * n + j] * y[j][i];
          if (second_order) f += eq.e[k * n + j] * (i + 1) * y[j][i + 1];
        }
        if (second_order) {
          y[k][i + 2] = f / ((i + 1) * (i + 2));
        } else {
          y[k][i + 1] = f / (i + 1);
        }
      }
    }
    int const last = second_order ? N + 2 : N + 1;
    for (int k = 0; k < n; ++k) {
      Real value = 0, derivative = 0;
      for (int i = last; i >= 0; --i) value = value * h + y[k][i];
      for (int i = last; i >= 1; --i) derivative = derivative * h + i * y[k][i];
      now.y[k] = value;
      if (second_order) now.v[k] = derivative;
    }
    now.t += h;
  }
  now.t = t;
  return now;
}

// The methods in extended precision.  Each of them advances by one step.
using Stepper = std::function<void(Equation const&, Point&, Real h)>;

Reals Plus(Reals y, Real const k, Reals const& x) {
  for (std::size_t i = 0; i < y.size(); ++i) y[i] += k * x[i];
  return y;
}

template<typename M>
void SrknStep(Equation const& eq, Point& p, Real const h) {
  constexpr bool bab = M::composition == serialization::FixedStepSizeIntegrator::BAB;
  Real c = 0;
  Reals y = p.y, v = p.v;
  for (int i = 0; i < M::stages; ++i) {
    // In the ABA case the first kick is null.
    if (M::b[i] != 0 || bab) v = Plus(v, h * M::b[i], eq(p.t + c * h, y, {}));
    y = Plus(y, h * M::a[i], v);
    c += M::a[i];
  }
  p = {p.t + h, y, v};
}

template<typename M>
void ErkStep(Equation const& eq, Point& p, Real const h) {
  std::vector<Reals> k;
  Reals sum = p.y;
  for (int i = 0; i < M::stages; ++i) {
    Reals y = p.y;
    for (int j = 0; j < i; ++j) y = Plus(y, h * M::a(i, j), k[j]);
    k.push_back(eq(p.t + M::c[i] * h, y, {}));
    sum = Plus(sum, h * M::b[i], k[i]);
  }
  p.y = sum;
  p.t += h;
}

// An embedded step, which has an error estimate.
struct Embedded {
  Point next;
  Reals y_error, v_error;
};
using EmbeddedStepper = std::function<Embedded(Equation const&, Point const&, Real h)>;

template<typename M>
Embedded EerkStep(Equation const& eq, Point const& p, Real const h) {
  std::vector<Reals> k;
  Embedded result{p, Reals(eq.n), {}};
  for (int i = 0; i < M::stages; ++i) {
    Reals y = p.y;
    for (int j = 0; j < i; ++j) y = Plus(y, h * M::a(i, j), k[j]);
    k.push_back(eq(p.t + M::c[i] * h, y, {}));
    result.next.y = Plus(result.next.y, h * M::b̂[i], k[i]);
    result.y_error =
        Plus(result.y_error, h * ((Real)M::b[i] - (Real)M::b̂[i]), k[i]);
  }
  result.next.t += h;
  return result;
}

template<typename M, bool velocities>
Embedded NyströmStep(Equation const& eq, Point const& p, Real const h) {
  std::vector<Reals> g;
  Embedded result{p, Reals(eq.n), Reals(eq.n)};
  result.next.y = Plus(p.y, h, p.v);
  for (int i = 0; i < M::stages; ++i) {
    Reals y = Plus(p.y, h * M::c[i], p.v);
    Reals v = p.v;
    for (int j = 0; j < i; ++j) {
      y = Plus(y, h * h * M::a(i, j), g[j]);
      if constexpr (velocities) v = Plus(v, h * M::aʹ(i, j), g[j]);
    }
    if (velocities) {
      g.push_back(eq(p.t + M::c[i] * h, y, v));
    } else {
      g.push_back(eq(p.t + M::c[i] * h, y, {}));
    }
    result.next.y = Plus(result.next.y, h * h * M::b̂[i], g[i]);
    result.next.v = Plus(result.next.v, h * M::b̂ʹ[i], g[i]);
    result.y_error =
        Plus(result.y_error, h * h * ((Real)M::b[i] - (Real)M::b̂[i]), g[i]);
    result.v_error =
        Plus(result.v_error, h * ((Real)M::bʹ[i] - (Real)M::b̂ʹ[i]), g[i]);
  }
  result.next.t += h;
  return result;
}

// Adapters for the types of the equations.
template<typename ODE>
struct Adapter;

std::int64_t evaluations;  // Since the beginning of the integration.

template<typename D>
struct Flat {
  static constexpr int dimension = convert::Kind<D>::dimension;
  static Reals Of(std::vector<D> const& x) {
    Reals result;
    for (auto const& e : x) Add(e, result);
    return result;
  }
  static void Add(D const& e, Reals& result) {
    auto const v = convert::Kind<D>::Of(e);
    for (int i = 0; i < dimension; ++i) result.push_back(v[i]);
  }
  static std::vector<D> Make(Reals const& r) {
    std::vector<D> result;
    for (std::size_t i = 0; i < r.size(); i += dimension) {
      convert::Vec v{};
      for (int j = 0; j < dimension; ++j) v[j] = r[i + j];
      result.push_back(convert::Kind<D>::Make(v));
    }
    return result;
  }
  template<typename T>
  static void Assign(std::vector<T> const& f, std::vector<D>& out) {
    for (std::size_t i = 0; i < out.size(); ++i) {
      convert::Vec v{};
      for (int j = 0; j < dimension; ++j) v[j] = f[i * dimension + j];
      out[i] = convert::Kind<D>::Make(v);
    }
  }
};

using Faults = std::vector<std::pair<std::int64_t, absl::Status>>;
absl::Status FaultAt(Faults const& faults, std::int64_t const n) {
  for (auto const& [at, status] : faults) {
    if (at == n) return status;
  }
  return absl::OkStatus();
}

template<typename D, bool velocities>
struct SecondOrder {
  static constexpr bool second_order = true;
  using ODE = std::conditional_t<velocities,
                                 ExplicitSecondOrderOrdinaryDifferentialEquation<D>,
                                 SpecialSecondOrderDifferentialEquation<D>>;
  using V = Derivative<D, Instant>;
  using A = Derivative<D, Instant, 2>;
  using State = typename ODE::State;
  static constexpr int dimension = Flat<D>::dimension;

  static std::vector<double> Doubles(Reals const& r) {
    return std::vector<double>(r.begin(), r.end());
  }
  static ODE Make(Equation const& eq, std::shared_ptr<Faults> const& faults,
                  std::shared_ptr<std::int64_t> const& n) {
    ODE ode;
    if constexpr (velocities) {
      ode.compute_acceleration = [eq, faults, n](
          Instant const& t, std::vector<D> const& y, std::vector<V> const& v,
          std::vector<A>& a) {
        auto const q = Doubles(Flat<D>::Of(y));
        auto const w = Doubles(Flat<V>::Of(v));
        std::vector<double> f(eq.n);
        eq((double)In(t), q.data(), w.data(), f.data());
        Flat<A>::Assign(f, a);
        return FaultAt(*faults, (*n)++);
      };
    } else {
      ode.compute_acceleration = [eq, faults, n](
          Instant const& t, std::vector<D> const& y, std::vector<A>& a) {
        auto const q = Doubles(Flat<D>::Of(y));
        std::vector<double> f(eq.n);
        eq((double)In(t), q.data(), static_cast<double const*>(nullptr), f.data());
        Flat<A>::Assign(f, a);
        return FaultAt(*faults, (*n)++);
      };
    }
    return ode;
  }
  static State MakeState(Point const& p) {
    return State(At(p.t), Flat<D>::Make(p.y), Flat<V>::Make(p.v));
  }
  static Point Of(State const& s) {
    Point p{In(s.time.value) + In(s.time.error), {}, {}};
    for (auto const& x : s.positions) {
      Flat<D>::Add(x.value, p.y);
      Reals e;
      Flat<Difference<D>>::Add(x.error, e);
      for (std::size_t i = 0; i < e.size(); ++i) p.y[p.y.size() - e.size() + i] += e[i];
    }
    for (auto const& x : s.velocities) Flat<V>::Add(x.value, p.v);
    return p;
  }
  static Instant Time(State const& s) { return s.time.value; }
  // False if the compensated time is not normalized.
  static bool Normalized(State const& s) {
    return s.time.value + s.time.error == s.time.value;
  }
};

struct FirstOrder {
  static constexpr bool second_order = false;
  static constexpr int dimension = 3;
  using ODE = ExplicitFirstOrderOrdinaryDifferentialEquation<Instant, Length, Length, Speed>;
  using State = typename ODE::State;

  static ODE Make(Equation const& eq, std::shared_ptr<Faults> const& faults,
                  std::shared_ptr<std::int64_t> const& n) {
    ODE ode;
    ode.compute_derivative = [eq, faults, n](
        Instant const& t, ODE::DependentVariables const& y,
        ODE::DependentVariableDerivatives& d) {
      auto const& [y0, y1, y2] = y;
      double const q[] = {y0 / Metre, y1 / Metre, y2 / (Metre / Second)};
      double f[3];
      eq((double)In(t), q, static_cast<double const*>(nullptr), f);
      auto& [d0, d1, d2] = d;
      d0 = f[0] * Metre / Second;
      d1 = f[1] * Metre / Second;
      d2 = f[2] * Metre / Second / Second;
      return FaultAt(*faults, (*n)++);
    };
    return ode;
  }
  static State MakeState(Point const& p) {
    return State(At(p.t), ODE::DependentVariables(
        (double)p.y[0] * Metre, (double)p.y[1] * Metre, (double)p.y[2] * Metre / Second));
  }
  static Point Of(State const& s) {
    auto const& [y0, y1, y2] = s.y;
    return {In(s.s.value) + In(s.s.error),
            {In(y0.value) + In(y0.error), In(y1.value) + In(y1.error),
             In(y2.value) + In(y2.error)}, {}};
  }
  static Instant Time(State const& s) { return s.s.value; }
  static bool Normalized(State const& s) { return s.s.value + s.s.error == s.s.value; }
};

// The error accepted for a solution which has been computed in `steps` steps.
Real Tolerance(Point const& p, std::int64_t const steps) {
  Real max = 1;
  for (auto const x : p.y) max = std::max(max, std::abs(x));
  for (auto const x : p.v) max = std::max(max, std::abs(x));
  return max * 4e-15L * (20 + steps);
}

void ExpectPoint(Point const& actual, Point const& expected, Real const tolerance,
                 std::string const& what) {
  REQUIRE(std::abs(actual.t - expected.t) <= 1e-14L * (1 + std::abs(expected.t)),
          what << ": time " << actual.t << " vs. " << expected.t);
  REQUIRE(actual.y.size() == expected.y.size() && actual.v.size() == expected.v.size(),
          what << ": dimension");
  for (std::size_t i = 0; i < actual.y.size(); ++i) {
    REQUIRE(std::abs(actual.y[i] - expected.y[i]) <= tolerance,
            what << ": y[" << i << "] at " << expected.t << ": " << actual.y[i] << " vs. "
            << expected.y[i] << ", tolerance " << tolerance);
  }
  for (std::size_t i = 0; i < actual.v.size(); ++i) {
    REQUIRE(std::abs(actual.v[i] - expected.v[i]) <= tolerance,
            what << ": v[" << i << "] at " << expected.t << ": " << actual.v[i] << " vs. "
            << expected.v[i] << ", tolerance " << tolerance);
  }
}

// The solution at successive steps, in extended precision.
class Model {
 public:
  virtual ~Model() = default;
  Point const& At(std::size_t const k) {
    while (points.size() <= k) Extend();
    return points[k];
  }
  std::vector<Point> points;

 protected:
  virtual void Extend() = 0;
};

class OneStepModel : public Model {
 public:
  OneStepModel(Equation const& eq, Point const& p, Real const h, Stepper stepper)
      : eq(eq), h(h), stepper(stepper) {
    points.push_back(p);
  }

 protected:
  void Extend() override {
    Point p = points.back();
    stepper(eq, p, h);
    points.push_back(p);
  }
  Equation eq;
  Real h;
  Stepper stepper;
};

template<typename M>
class SlmsModel : public OneStepModel {
 public:
  using OneStepModel::OneStepModel;

 protected:
  void Extend() override {
    constexpr int k = M::order;
    Point p = points.back();
    if (points.size() < k) {
      for (int i = 0; i < 16; ++i) stepper(eq, p, h / 16);
    } else {
      std::vector<Reals> f;
      std::size_t const first = points.size() - k;
      for (int j = 0; j < k; ++j) {
        f.push_back(eq(points[first + j].t, points[first + j].y, {}));
      }
      Reals y(eq.n);
      for (int j = 0; j < k; ++j) {
        int const i = std::min(j, k - j);
        y = Plus(y, -(Real)M::α[i], points[first + j].y);
        y = Plus(y, h * h * (Real)M::β_numerator[i] / (Real)M::β_denominator, f[j]);
      }
      Real const t = points.back().t + h;
      f.push_back(eq(t, y, {}));
      Reals v = Plus(Reals(eq.n), 1 / h, y);
      v = Plus(v, -1 / h, points.back().y);
      auto const& cho = CohenHubbardOesterwinterOrder<k>();
      for (int i = 0; i < k; ++i) {
        v = Plus(v, h * (Real)cho.numerators[i] / (Real)cho.denominator, f[k - i]);
      }
      p = {t, y, v};
    }
    points.push_back(p);
  }
};

template<typename M>
class ElmModel : public OneStepModel {
 public:
  using OneStepModel::OneStepModel;

 protected:
  void Extend() override {
    constexpr int k = M::order;
    Point p = points.back();
    if (points.size() < k) {
      for (int i = 0; i < 16; ++i) stepper(eq, p, h / 16);
    } else {
      Reals y(eq.n);
      for (int j = 1; j <= k; ++j) {
        Point const& past = points[points.size() - j];
        y = Plus(y, -(Real)M::α[j], past.y);
        y = Plus(y, h * (Real)M::β_numerator[j] / (Real)M::β_denominator,
                 eq(past.t, past.y, {}));
      }
      p = {points.back().t + h, y, {}};
    }
    points.push_back(p);
  }
};

Point APoint(Src& s, int const n, bool const second_order) {
  Point p{(Real)s.range(-2048, 2048) / 512, {}, {}};
  for (int i = 0; i < n; ++i) {
    p.y.push_back((double)s.sym(1));
    if (second_order) p.v.push_back((double)s.sym(1));
  }
  return p;
}

// `startup_steps` is the number of steps obtained by another method.
template<typename Sys, bool serializable, typename MakeModel>
void FixedHistory(Src& s, Ctx& ctx,
                  FixedStepSizeIntegrator<typename Sys::ODE> const& integrator,
                  int const startup_steps, bool const reversible,
                  int const stages, MakeModel const& make_model) {
  using ODE = typename Sys::ODE;
  using State = typename Sys::State;
  using Instance = typename Integrator<ODE>::Instance;

  int const n = Sys::second_order ? Sys::dimension * s.range(1, 3) : 3;
  Equation const eq = AnEquation(s, n, /*velocities=*/false);
  auto const faults = std::make_shared<Faults>();
  auto const count = std::make_shared<std::int64_t>(0);
  ODE const ode = Sys::Make(eq, faults, count);
  Point const initial = APoint(s, n, Sys::second_order);
  // The multistep methods have a small domain of stability.
  Real h = (Real)s.range(8, startup_steps > 0 ? 32 : 64) / 512;
  if (reversible && s.chance(1, 3)) h = -h;
  auto model = make_model(eq, initial, h);

  // Where the states go.
  auto const sink = std::make_shared<std::vector<State>*>(nullptr);
  auto const append = [sink](State const& state) { (*sink)->push_back(state); };

  struct Run {
    std::unique_ptr<Instance> instance;
    std::size_t steps = 0;  // Done so far.
    Real t_final;  // Of the latest `Solve`.
  };
  std::vector<Run> runs;
  std::vector<State> appended;
  runs.push_back({integrator.NewInstance({ode, Sys::MakeState(initial)}, append,
                                         (double)h * Second), 0, initial.t});
  int solves = 0;
  bool copied = false, restarted = false;
  ctx.note() << "t0=" << initial.t << " h=" << h << " n=" << n << " ";
  int const ops = s.range(1, 6);
  for (int op = 0; op < ops; ++op) {
    std::size_t const r = s.below(runs.size());
    auto& run = runs[r];
    int const kind = s.below(5);
    if (kind == 0 && runs.size() < 3) {
      // The copy is independent of the original.
      ctx.note() << "clone(" << r << ") ";
      Run copy{run.instance->Clone(), run.steps, run.t_final};
      copied = true;
      if (s.coin()) {
        ctx.note() << "destroy ";
        run = std::move(copy);
      } else {
        runs.push_back(std::move(copy));
      }
    } else if (kind == 1 && serializable) {
      ctx.note() << "serialize(" << r << ") ";
      if constexpr (serializable) {
        serialization::IntegratorInstance message;
        run.instance->WriteToMessage(&message);
        serialization::IntegratorInstance parsed;
        REQUIRE(parsed.ParseFromString(message.SerializeAsString()), "parsing");
        run.instance = FixedStepSizeIntegrator<ODE>::Instance::ReadFromMessage(
            parsed, ode, append);
        copied = true;
        auto const& fixed = dynamic_cast<
            typename FixedStepSizeIntegrator<ODE>::Instance const&>(*run.instance);
        serialization::FixedStepSizeIntegrator before, after;
        integrator.WriteToMessage(&before);
        fixed.integrator().WriteToMessage(&after);
        REQUIRE(before.SerializeAsString() == after.SerializeAsString(),
                "integrator after reading: " << after.ShortDebugString());
        auto const& read = FixedStepSizeIntegrator<ODE>::ReadFromMessage(before);
        after.Clear();
        read.WriteToMessage(&after);
        REQUIRE(before.SerializeAsString() == after.SerializeAsString(),
                "read integrator: " << after.ShortDebugString());
        REQUIRE(fixed.step() == (double)h * Second, "step after reading");
      }
    } else {
      std::size_t const max_steps = 3 + startup_steps;
      Real ahead = (Real)s.range(0, max_steps);
      if (s.coin()) ahead += (Real)s.range(1, 31) / 32;
      Real const reached = std::max((run.t_final - initial.t) / h, (Real)run.steps);
      Real const target = run.steps + ahead;
      // The final time must move.
      if (target <= reached + 0.1L) continue;
      Real const t_final = initial.t + target * h;
      std::size_t const end = (std::size_t)std::floor(target);
      ctx.note() << "solve(" << r << ", " << run.steps << "+" << ahead << ") ";
      ++solves;
      restarted |= run.steps > 0 || run.t_final != initial.t;
      std::size_t const starting = run.steps;
      bool const fault = startup_steps == 0 && s.chance(1, 4);
      bool const abort = s.coin();
      faults->clear();
      *count = 0;
      if (fault) {
        faults->push_back({(std::int64_t)s.below(stages * (end - run.steps) + 2),
                           abort ? absl::AbortedError("stop")
                                 : absl::OutOfRangeError("warning")});
        ctx.note() << "fault(" << faults->front().first << ", " << abort << ") ";
      }
      appended.clear();
      *sink = &appended;
      absl::Status const status = run.instance->Solve(At((double)t_final));
      *sink = nullptr;
      bool const hit = fault && faults->front().first < *count;
      if (hit) {
        REQUIRE(status == faults->front().second, "status " << status.ToString());
      } else {
        REQUIRE(status.ok(), "status " << status.ToString());
      }
      for (auto const& state : appended) {
        ++run.steps;
        Point const& expected = model->At(run.steps);
        ExpectPoint(Sys::Of(state), expected,
                    (startup_steps > 0 ? 100 : 10) * Tolerance(expected, run.steps),
                    "state");
      }
      if (hit && abort) {
        REQUIRE(run.steps <= end, "steps after abort");
        REQUIRE(*count - faults->front().first <= stages + 1, "evaluations after abort");
        ctx.label("aborted");
        // The last step is restarted from the latest state.
        run.t_final = initial.t + run.steps * h;
      } else {
        REQUIRE(run.steps == end, "steps: " << run.steps << " vs. " << end);
        run.t_final = t_final;
      }
      if (static_cast<int>(run.steps) >= startup_steps && run.steps > starting) {
        REQUIRE(run.instance->state() == appended.back(), "state of the instance");
        if constexpr (Sys::second_order) {
          REQUIRE(run.instance->time().value == Sys::Time(appended.back()), "time");
        }
      }
    }
  }
  ctx.label_if(copied, "copied");
  ctx.label_if(restarted, "restarted");
  ctx.nontrivial(solves > 0 && (copied || restarted));
}

// An AsSymplecticRungeKuttaNyström method.
constexpr auto ABA = serialization::FixedStepSizeIntegrator::ABA;
constexpr auto BAB = serialization::FixedStepSizeIntegrator::BAB;
constexpr auto BA = serialization::FixedStepSizeIntegrator::BA;

template<typename M>
struct Srkn {
  using Method = M;
  static constexpr bool second_order = true;
  static constexpr int order = M::order;
  template<typename D>
  static void Run(Src& s, Ctx& ctx) {
    using Sys = SecondOrder<D, false>;
    FixedHistory<Sys, true>(
        s, ctx, SymplecticRungeKuttaNyströmIntegrator<M, typename Sys::ODE>(),
        0, true, M::stages + 1, [](Equation const& eq, Point const& p, Real const h) {
          return std::make_unique<OneStepModel>(eq, p, h, SrknStep<M>);
        });
  }
  static std::unique_ptr<Model> Make(Equation const& eq, Point const& p, Real const h) {
    return std::make_unique<OneStepModel>(eq, p, h, SrknStep<M>);
  }
};
template<typename M>
struct Slms {
  static constexpr bool second_order = true;
  static constexpr int order = M::order;
  template<typename D>
  static void Run(Src& s, Ctx& ctx) {
    using Sys = SecondOrder<D, false>;
    FixedHistory<Sys, true>(
        s, ctx, SymmetricLinearMultistepIntegrator<M, typename Sys::ODE>(),
        order - 1, false, 1, [](Equation const& eq, Point const& p, Real const h) {
          return std::make_unique<SlmsModel<M>>(
              eq, p, h, SrknStep<methods::BlanesMoan2002SRKN14A>);
        });
  }
  static std::unique_ptr<Model> Make(Equation const& eq, Point const& p, Real const h) {
    auto model = std::make_unique<SlmsModel<M>>(eq, p, h, Stepper());
    for (int i = 1; i < order; ++i) {
      model->points.push_back(Taylor(eq, model->points.back(), p.t + i * h, true));
    }
    return model;
  }
};
template<typename M>
struct Elm {
  static constexpr bool second_order = false;
  static constexpr int order = M::order;
  template<typename D>
  static void Run(Src& s, Ctx& ctx) {
    using Sys = FirstOrder;
    FixedHistory<Sys, false>(
        s, ctx, ExplicitLinearMultistepIntegrator<M, typename Sys::ODE>(),
        order - 1, false, 1, [](Equation const& eq, Point const& p, Real const h) {
          return std::make_unique<ElmModel<M>>(eq, p, h,
                                               ErkStep<methods::Kutta1901Vσ1>);
        });
  }
  static std::unique_ptr<Model> Make(Equation const& eq, Point const& p, Real const h) {
    auto model = std::make_unique<ElmModel<M>>(eq, p, h, Stepper());
    for (int i = 1; i < order; ++i) {
      model->points.push_back(Taylor(eq, model->points.back(), p.t + i * h, false));
    }
    return model;
  }
};
template<typename M>
struct Erk {
  static constexpr bool second_order = false;
  static constexpr int order = M::order;
  template<typename D>
  static void Run(Src& s, Ctx& ctx) {
    using Sys = FirstOrder;
    FixedHistory<Sys, false>(
        s, ctx, ExplicitRungeKuttaIntegrator<M, typename Sys::ODE>(),
        0, true, M::stages + 1, [](Equation const& eq, Point const& p, Real const h) {
          return std::make_unique<OneStepModel>(eq, p, h, ErkStep<M>);
        });
  }
  static std::unique_ptr<Model> Make(Equation const& eq, Point const& p, Real const h) {
    return std::make_unique<OneStepModel>(eq, p, h, ErkStep<M>);
  }
};

template<typename... Ms>
struct List {
  static constexpr int size = sizeof...(Ms);
  template<typename D>
  static void Run(Src& s, Ctx& ctx) {
    static constexpr void (*runs[])(Src&, Ctx&) = {&Ms::template Run<D>...};
    int const i = s.below(size);
    ctx.note() << "method " << i << " ";
    runs[i](s, ctx);
  }
};
using Symplectic = List<
    Srkn<methods::BlanesMoan2002SRKN6B>, Srkn<methods::BlanesMoan2002SRKN11B>,
    Srkn<methods::BlanesMoan2002SRKN14A>, Srkn<methods::McLachlan1995SB3A4>,
    Srkn<methods::McLachlan1995SB3A5>,
    Srkn<methods::McLachlanAtela1992Order4Optimal>,
    Srkn<methods::McLachlanAtela1992Order5Optimal>,
    Srkn<methods::OkunborSkeel1994Order6Method13>,
#define AS(method) Srkn<methods::AsSymplecticRungeKuttaNyström<methods::method, ABA>::Method>, \
    Srkn<methods::AsSymplecticRungeKuttaNyström<methods::method, BAB>::Method>
    AS(BlanesMoan2002S6), AS(BlanesMoan2002S10), AS(CandyRozmus1991ForestRuth1990),
    AS(McLachlan1995S2), AS(McLachlan1995S4), AS(McLachlan1995S5),
    AS(McLachlan1995SS5), AS(McLachlan1995SS9), AS(McLachlan1995SS15),
    AS(McLachlan1995SS17),
    Srkn<methods::AsSymplecticRungeKuttaNyström<
        methods::McLachlanAtela1992Order2Optimal, BA>::Method>,
    Srkn<methods::AsSymplecticRungeKuttaNyström<
        methods::McLachlanAtela1992Order3Optimal, BA>::Method>,
    AS(NewtonDelambreStørmerVerletLeapfrog),
    Srkn<methods::AsSymplecticRungeKuttaNyström<methods::Ruth1983, BA>::Method>,
    AS(鈴木1990), AS(吉田1990Order6A), AS(吉田1990Order6B), AS(吉田1990Order6C),
    AS(吉田1990Order8A), AS(吉田1990Order8B), AS(吉田1990Order8C),
    AS(吉田1990Order8D), AS(吉田1990Order8E)
#undef AS
    >;
using Multistep = List<
    Slms<methods::Quinlan1999Order8A>, Slms<methods::Quinlan1999Order8B>,
    Slms<methods::QuinlanTremaine1990Order8>,
    Slms<methods::QuinlanTremaine1990Order10>,
    Slms<methods::QuinlanTremaine1990Order12>,
    Slms<methods::QuinlanTremaine1990Order14>>;
using Explicit = List<
    Erk<methods::Kutta1901Vσ1>, Elm<methods::AdamsBashforthOrder2>,
    Elm<methods::AdamsBashforthOrder3>, Elm<methods::AdamsBashforthOrder4>,
    Elm<methods::AdamsBashforthOrder5>, Elm<methods::AdamsBashforthOrder6>>;

void SymplecticHistory(Src& s, Ctx& ctx) { Symplectic::Run<Length>(s, ctx); }
void MultistepHistory(Src& s, Ctx& ctx) {
  if (s.coin()) {
    Multistep::Run<Length>(s, ctx);
  } else {
    Multistep::Run<Position<World>>(s, ctx);
  }
}
void ExplicitHistory(Src& s, Ctx& ctx) { Explicit::Run<Length>(s, ctx); }


// The adaptive integrators.  The driver scripts the tolerance-to-error ratios, so
// that the sequence of steps is known.
template<typename Sys, bool serializable, bool stop_on_abort>
void AdaptiveHistory(Src& s, Ctx& ctx,
                     AdaptiveStepSizeIntegrator<typename Sys::ODE> const& integrator,
                     int const lower_order, int const stages,
                     bool const initial_evaluation,
                     EmbeddedStepper const& stepper, bool const velocities) {
  using ODE = typename Sys::ODE;
  using State = typename Sys::State;
  using ASSI = AdaptiveStepSizeIntegrator<ODE>;
  using Instance = typename Integrator<ODE>::Instance;

  int const n = Sys::second_order ? Sys::dimension * s.range(1, 3) : 3;
  Equation const eq = AnEquation(s, n, velocities);
  auto const faults = std::make_shared<Faults>();
  auto const count = std::make_shared<std::int64_t>(0);
  ODE const ode = Sys::Make(eq, faults, count);
  Point const initial = APoint(s, n, Sys::second_order);
  bool const exact = s.coin();
  Real const sign = exact && s.chance(1, 3) ? -1 : 1;
  Real const first_step = sign * (double)(0.01 + 0.2 * s.unit());
  double const safety = 0.5 + 0.45 * s.unit();
  std::int64_t const max_steps =
      s.chance(1, 3) ? s.range(1, 8) : std::numeric_limits<std::int64_t>::max();
  typename ASSI::Parameters const parameters((double)first_step * Second, safety,
                                             max_steps, exact);

  struct Run {
    std::unique_ptr<Instance> instance;
    State state;  // Last one that it has reached.
    Real h;  // The step that it will use.
    bool used = false;
    Real t_final;
  };
  // The state of the current integration.
  Run* run = nullptr;
  double last_ratio = 0;
  bool fresh = true;  // No step attempted since the beginning of `Solve`.
  bool at_end = false;
  bool vanished = false;
  bool overshot = false, tie = false, ambiguous = false;
  int attempts = 0;
  std::int64_t steps = 0;
  int rejections = 0;
  std::int64_t counted = 0;
  bool faulty_attempt = false;
  absl::Status expected_status;
  std::optional<Embedded> candidate;
  std::optional<State> before_end;

  auto const expected_step = [&] {
    // Sets the step of the next attempt.
    if (!fresh) {
      run->h *= safety * std::pow((Real)last_ratio, 1 / (Real)(lower_order + 1));
    }
    fresh = false;
  };
  auto const ratio = [&](Time const& h, State const& state,
                         typename State::Error const& error) -> double {
    expected_step();
    Point const p = Sys::Of(state);
    if (exact) {
      Real const to_end = run->t_final - p.t;
      // A decision that depends on a rounding is avoided by a rejection.
      ambiguous = std::abs(run->h - to_end) < 1e-13L;
      at_end = sign * run->h >= sign * to_end;
      if (at_end) run->h = to_end;
    }
    REQUIRE(std::abs(In(h) - run->h) <= 1e-14L * std::abs(run->h) + 1e-15L,
            "step " << In(h) << " vs. " << run->h);
    run->h = In(h);
    REQUIRE(state == run->state, "the state is not that of the last step");
    candidate = stepper(eq, p, run->h);
    Reals y_error, v_error;
    if constexpr (Sys::second_order) {
      for (auto const& e : error.position_error) {
        Flat<std::remove_cvref_t<decltype(e)>>::Add(e, y_error);
      }
      for (auto const& e : error.velocity_error) {
        Flat<std::remove_cvref_t<decltype(e)>>::Add(e, v_error);
      }
    } else {
      auto const& [e0, e1, e2] = error;
      y_error = {In(e0), In(e1), In(e2)};
      v_error = {};
    }
    Point const actual{p.t, y_error, v_error};
    Point const expected{p.t, candidate->y_error, candidate->v_error};
    ExpectPoint(actual, expected, Tolerance(candidate->next, 1), "error estimate");

    // Whether there was a fault in this attempt.
    faulty_attempt = !faults->empty() && faults->front().first >= counted &&
                     faults->front().first < *count;
    if (faulty_attempt && initial_evaluation && faults->front().first == 0) {
      expected_status = faults->front().second;
      faulty_attempt = false;
    }
    counted = *count;
    ++attempts;
    double result;
    if (ambiguous || std::abs(run->h) > 0.4L) {
      result = 0.01;
    } else if (attempts > 50 || std::abs(run->h) < 1e-9L) {
      result = 100;
    } else if (s.chance(1, 60) && Sys::Normalized(state)) {
      result = 0;
    } else if (s.chance(1, 8)) {
      result = 1;
    } else if (s.chance(1, 4)) {
      result = 0.05 + 0.949 * s.unit();
    } else {
      result = 1 + 20 * s.unit();
    }
    last_ratio = result;
    if (result < 1) {
      ++rejections;
      vanished |= result == 0;
    } else {
      if (faulty_attempt) expected_status.Update(faults->front().second);
      // The decision may go either way if it is determined by a rounding.
      Real const excess = p.t + run->h - run->t_final;
      overshot = !exact && excess > 0;
      tie = !exact && std::abs(excess) < 1e-14L;
      if (at_end) before_end = state;
    }
    return result;
  };
  auto const append = [&](State const& state) {
    REQUIRE(candidate.has_value(), "state appended without an attempt");
    REQUIRE(last_ratio >= 1, "step accepted with ratio " << last_ratio);
    Point const actual = Sys::Of(state);
    ExpectPoint(actual, candidate->next, Tolerance(candidate->next, 1), "state");
    REQUIRE(sign * (run->t_final - actual.t) >= -1e-14L,
            "overshooting: " << actual.t << " vs. " << run->t_final);
    run->state = state;
    candidate.reset();
    ++steps;
  };

  std::vector<Run> runs;
  runs.push_back({integrator.NewInstance({ode, Sys::MakeState(initial)}, append, ratio,
                                         parameters),
                  Sys::MakeState(initial), first_step, false, initial.t});
  ctx.note() << "t0=" << initial.t << " h=" << first_step << " n=" << n << " exact="
             << exact << " max=" << max_steps << " safety=" << safety << " ";
  int solves = 0, total_steps = 0;
  bool copied = false;
  int const ops = s.range(1, 6);
  for (int op = 0; op < ops; ++op) {
    std::size_t const r = s.below(runs.size());
    int const kind = s.below(5);
    if (kind == 0 && runs.size() < 3) {
      ctx.note() << "clone(" << r << ") ";
      Run copy{runs[r].instance->Clone(), runs[r].state, runs[r].h, runs[r].used,
               runs[r].t_final};
      copied = true;
      if (s.coin()) {
        ctx.note() << "destroy ";
        runs[r] = std::move(copy);
      } else {
        runs.push_back(std::move(copy));
      }
    } else if (kind == 1 && serializable) {
      ctx.note() << "serialize(" << r << ") ";
      if constexpr (serializable) {
        serialization::IntegratorInstance message;
        runs[r].instance->WriteToMessage(&message);
        serialization::IntegratorInstance parsed;
        REQUIRE(parsed.ParseFromString(message.SerializeAsString()), "parsing");
        runs[r].instance = ASSI::Instance::ReadFromMessage(parsed, ode, append, ratio);
        copied = true;
        auto const& adaptive =
            dynamic_cast<typename ASSI::Instance const&>(*runs[r].instance);
        REQUIRE(&adaptive.integrator() == &integrator, "integrator after reading");
        serialization::IntegratorInstance again;
        adaptive.WriteToMessage(&again);
        REQUIRE(again.SerializeAsString() == message.SerializeAsString(),
                "message after reading");
      }
    } else {
      run = &runs[r];
      if (exact && run->used) continue;
      Real const now = Sys::Of(run->state).t;
      Real const t_final =
          In(At((double)(std::max(sign * now, sign * run->t_final) * sign +
                         sign * (0.05 + s.unit()))));
      run->t_final = t_final;
      run->used = true;
      ++solves;
      fresh = true;
      at_end = vanished = overshot = tie = false;
      attempts = 0;
      steps = 0;
      counted = 0;
      *count = 0;
      expected_status = absl::OkStatus();
      candidate.reset();
      before_end.reset();
      faults->clear();
      bool const fault = s.chance(1, 4);
      bool const abort = s.coin();
      if (fault) {
        faults->push_back({(std::int64_t)s.below(6 * stages),
                           abort ? absl::AbortedError("stop")
                                 : absl::OutOfRangeError("warning")});
      }
      ctx.note() << "solve(" << r << ", " << t_final << ") ";
      if (fault) ctx.note() << "fault(" << faults->front().first << ", " << abort << ") ";
      absl::Status const status = run->instance->Solve(At((double)t_final));
      total_steps += steps;
      if (vanished) {
        REQUIRE(status.code() == termination_condition::VanishingStepSize,
                "vanishing step: " << status.ToString());
        ctx.label("vanished");
        break;
      }
      // The last attempt was accepted.
      REQUIRE(last_ratio >= 1, "ended with ratio " << last_ratio);
      bool const aborted = absl::IsAborted(expected_status) && stop_on_abort;
      if (tie) {
        ctx.label("tie");
        REQUIRE(status == expected_status || steps == max_steps,
                "status: " << status.ToString());
        REQUIRE(run->instance->state() == run->state, "state after overshooting");
      } else if (aborted && status.code() == absl::StatusCode::kAborted && !overshot &&
          !at_end) {
        ctx.label("aborted");
      } else if (at_end) {
        if (exact && steps > 0) {
          REQUIRE(Sys::Time(run->state) == At((double)t_final),
                  "the last step is not exact: " << Sys::Of(run->state).t << " vs. " <<
                  t_final);
        }
        REQUIRE(status == expected_status, "status at end: " << status.ToString());
        if (!aborted) {
          REQUIRE(run->instance->state() == *before_end,
                  "state before the truncated step");
        }
        ctx.label("exact");
        break;
      } else if (overshot) {
        REQUIRE(status == expected_status, "status: " << status.ToString());
        REQUIRE(run->instance->state() == run->state, "state after overshooting");
        ctx.label("overshot");
      } else {
        REQUIRE(steps == max_steps, "steps: " << steps << " vs. " << max_steps);
        REQUIRE(status.code() == termination_condition::ReachedMaximalStepCount,
                "status: " << status.ToString());
        REQUIRE(run->instance->state() == run->state, "state at maximal count");
        ctx.label("reached");
      }
      REQUIRE(steps <= max_steps, "too many steps: " << steps);
    }
  }
  ctx.label_if(copied, "copied");
  ctx.nontrivial(total_steps > 1 && (rejections > 0 || solves > 1));
}

template<typename M>
void Eerkn(Src& s, Ctx& ctx) {
  if (s.coin()) {
    using Sys = SecondOrder<Length, false>;
    AdaptiveHistory<Sys, true, false>(
        s, ctx, EmbeddedExplicitRungeKuttaNyströmIntegrator<M, typename Sys::ODE>(),
        M::lower_order, M::stages, false, NyströmStep<M, false>, false);
  } else {
    using Sys = SecondOrder<Position<World>, false>;
    AdaptiveHistory<Sys, true, false>(
        s, ctx, EmbeddedExplicitRungeKuttaNyströmIntegrator<M, typename Sys::ODE>(),
        M::lower_order, M::stages, false, NyströmStep<M, false>, false);
  }
}
template<typename M>
void Eegrkn(Src& s, Ctx& ctx) {
  if (s.coin()) {
    using Sys = SecondOrder<Length, true>;
    AdaptiveHistory<Sys, true, true>(
        s, ctx,
        EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<M, typename Sys::ODE>(),
        M::lower_order, M::stages, false, NyströmStep<M, true>, true);
  } else {
    using Sys = SecondOrder<Position<World>, true>;
    AdaptiveHistory<Sys, true, true>(
        s, ctx,
        EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<M, typename Sys::ODE>(),
        M::lower_order, M::stages, false, NyströmStep<M, true>, true);
  }
}
template<typename M>
void Eerk(Src& s, Ctx& ctx) {
  using Sys = FirstOrder;
  AdaptiveHistory<Sys, false, true>(
      s, ctx, EmbeddedExplicitRungeKuttaIntegrator<M, typename Sys::ODE>(),
      M::lower_order, M::stages, M::first_same_as_last, EerkStep<M>, false);
}
void Adaptive(Src& s, Ctx& ctx) {
  switch (s.below(4)) {
    case 0: return Eerkn<methods::DormandالمكاوىPrince1986RKN434FM>(s, ctx);
    case 1: return Eegrkn<methods::Fine1987RKNG34>(s, ctx);
    case 2: return Eegrkn<methods::Fine1987RKNG45>(s, ctx);
    default: return Eerk<methods::DormandPrince1986RK547FC>(s, ctx);
  }
}


// The observed order of a one-step method.
using ModelMaker = std::unique_ptr<Model> (*)(Equation const&, Point const&, Real);
struct Described {
  ModelMaker make;
  int order;
  bool second_order;
  bool velocities;
  bool rkng34;
};
template<typename... Ms>
void Describe(List<Ms...>, std::vector<Described>& all) {
  (all.push_back({&Ms::Make, Ms::order, Ms::second_order, false, false}), ...);
}
template<typename M, bool velocities, bool low>
std::unique_ptr<Model> MakeNyström(Equation const& eq, Point const& p, Real const h) {
  return std::make_unique<OneStepModel>(
      eq, p, h, [](Equation const& eq, Point& p, Real const h) {
        auto const step = NyströmStep<M, velocities>(eq, p, h);
        p = step.next;
        if (low) {
          p.y = Plus(p.y, 1, step.y_error);
          p.v = Plus(p.v, 1, step.v_error);
        }
      });
}
template<typename M, bool low>
std::unique_ptr<Model> MakeEerk(Equation const& eq, Point const& p, Real const h) {
  return std::make_unique<OneStepModel>(
      eq, p, h, [](Equation const& eq, Point& p, Real const h) {
        auto const step = EerkStep<M>(eq, p, h);
        p = step.next;
        if (low) p.y = Plus(p.y, 1, step.y_error);
      });
}

template<typename M, bool velocities>
void DescribeNyström(std::vector<Described>& all, bool const rkng34 = false) {
  all.push_back({&MakeNyström<M, velocities, false>, M::higher_order, true,
                 velocities, rkng34});
  all.push_back({&MakeNyström<M, velocities, true>, M::lower_order, true,
                 velocities, rkng34});
}

// The method of Fine (1987), where the coefficient of the known finding has the
// value of the article.
struct CorrectedRKNG34 : methods::Fine1987RKNG34 {
  static double aʹ(int const i, int const j) {
    double const wrong = -234.0 / 128.0;
    double const value = methods::Fine1987RKNG34::aʹ(i, j);
    return i == 3 && j == 1 && value == wrong ? -243.0 / 128.0 : value;
  }
};

void Order(Src& s, Ctx& ctx) {
  static auto const& all = *[] {
    auto* const all = new std::vector<Described>;
    Describe(Symplectic(), *all);
    Describe(List<Erk<methods::Kutta1901Vσ1>>(), *all);
    DescribeNyström<methods::DormandالمكاوىPrince1986RKN434FM, false>(*all);
    DescribeNyström<methods::Fine1987RKNG34, true>(*all, true);
    DescribeNyström<CorrectedRKNG34, true>(*all);
    DescribeNyström<methods::Fine1987RKNG45, true>(*all);
    all->push_back({&MakeEerk<methods::DormandPrince1986RK547FC, false>,
                    methods::DormandPrince1986RK547FC::higher_order, false, false, false});
    all->push_back({&MakeEerk<methods::DormandPrince1986RK547FC, true>,
                    methods::DormandPrince1986RK547FC::lower_order, false, false, false});
    return all;
  }();
  int const m = s.below(all.size());
  auto const& method = all[m];
  int const most = method.order >= 6 ? 384 : 1536;
  std::vector<Real> orders;
  for (int trial = 0; trial < 7; ++trial) {
    Equation const eq = AnEquation(s, 3, method.velocities);
    Point const p = APoint(s, 3, method.second_order);
    Real const T = 3;
    Point const exact = Taylor(eq, p, p.t + T, method.second_order);
    Real previous = 0;
    for (int N = 6; N <= most; N *= 2) {
      auto const model = method.make(eq, p, T / N);
      Point const actual = model->At(N);
      Real error = 0;
      for (std::size_t i = 0; i < 3; ++i) {
        error = std::max(error, std::abs(actual.y[i] - exact.y[i]));
        if (method.second_order) {
          error = std::max(error, std::abs(actual.v[i] - exact.v[i]));
        }
      }
      if (!(error < 1)) {
        previous = 0;
        continue;
      }
      if (error < (method.order >= 8 ? 3e-12L : 3e-14L) * N / 10) break;
      if (previous > 0 && previous < 1e-2L && N >= 24) {
        orders.push_back(std::log2(previous / error));
      }
      previous = error;
    }
  }
  if (orders.size() < 5) throw pbt::Discard{};
  std::sort(orders.begin(), orders.end());
  Real const high = orders[orders.size() * 3 / 4];
  ctx.note() << "method " << m << " of order " << method.order << ": " << high;
  ctx.count(orders.size());
  ctx.nontrivial(true);
  if (method.rkng34 && high < 1.5L && high > 0.5L &&
      methods::Fine1987RKNG34::aʹ(3, 1) == -234.0 / 128.0) {
    ctx.known("fine-1987-rkng-34",
              "the observed order of Fine1987RKNG34 is 1 instead of 4");
    return;
  }
  REQUIRE(high > method.order - 0.6L, "order " << high << " for a method of order "
          << method.order);
}

// The conditions for the order of a linear multistep method, in exact arithmetic.
using Rational = boost::multiprecision::cpp_rational;

Rational RationalPower(Rational const& x, int const n) {
  Rational result = 1;
  for (int i = 0; i < n; ++i) result *= x;
  return result;
}
// The n-th derivative of x^m.
Rational Monomial(Rational const& x, int const m, int const n) {
  if (m < n) return 0;
  Rational factor = 1;
  for (int i = 0; i < n; ++i) factor *= m - i;
  return factor * RationalPower(x, m - n);
}

template<int k>
Rational CohenHubbardOesterwinterDefect(int const m, Rational const& x0) {
  auto const& cho = CohenHubbardOesterwinterOrder<k>();
  Rational v = Monomial(x0, m, 0) - Monomial(x0 - 1, m, 0);
  for (int i = 0; i < k; ++i) {
    v += Rational(cho.numerators[i]) / Rational(cho.denominator) *
         Monomial(x0 - i, m, 2);
  }
  return v - Monomial(x0, m, 1);
}
// Returns the defect and the number of monomials for which it should be 0.
template<typename M>
std::pair<Rational, Rational> SlmsDefect(int const m, Rational const& x0) {
  constexpr int k = M::order;
  Rational defect = 0;
  for (int j = 0; j <= k; ++j) {
    int const i = std::min(j, k - j);
    defect += Rational(M::α[i]) * Monomial(x0 + j, m, 0) -
              Rational(M::β_numerator[i]) / Rational(M::β_denominator) *
              Monomial(x0 + j, m, 2);
  }
  return {defect, CohenHubbardOesterwinterDefect<k>(m, x0)};
}
template<typename M>
std::pair<Rational, Rational> ElmDefect(int const m, Rational const& x0) {
  Rational defect = 0;
  for (int j = 0; j <= M::order; ++j) {
    defect += Rational(M::α[j]) * Monomial(x0 - j, m, 0) -
              Rational(M::β_numerator[j]) / Rational(M::β_denominator) *
              Monomial(x0 - j, m, 1);
  }
  return {defect, 0};
}

void MultistepOrder(Src& s, Ctx& ctx) {
  struct Case {
    std::pair<Rational, Rational> (*defect)(int, Rational const&);
    int degree;
  };
#define SLMS(method) {&SlmsDefect<methods::method>, methods::method::order + 1}
#define ELM(method) {&ElmDefect<methods::method>, methods::method::order}
  static constexpr Case cases[] = {
      SLMS(Quinlan1999Order8A), SLMS(Quinlan1999Order8B),
      SLMS(QuinlanTremaine1990Order8), SLMS(QuinlanTremaine1990Order10),
      SLMS(QuinlanTremaine1990Order12), SLMS(QuinlanTremaine1990Order14),
      ELM(AdamsBashforthOrder2), ELM(AdamsBashforthOrder3),
      ELM(AdamsBashforthOrder4), ELM(AdamsBashforthOrder5),
      ELM(AdamsBashforthOrder6)};
#undef SLMS
#undef ELM
  int const c = s.below(std::size(cases));
  int const m = s.below(cases[c].degree + 1);
  Rational const x0 = Rational((int)s.range(-20, 20)) / (int)s.range(1, 5);
  ctx.note() << "method " << c << ", monomial " << m << " around " << x0;
  auto const [defect, derivative] = cases[c].defect(m, x0);
  REQUIRE(defect == 0, "the method is not exact for degree " << m << ": " << defect);
  REQUIRE(derivative == 0,
          "the velocity is not exact for degree " << m << ": " << derivative);
  ctx.nontrivial(m >= 2);
}

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"symplectic", "histories of up to 6 integrations, copies and "
        "serializations; non-trivial if continued or copied", 40000, 600000, SymplecticHistory},
       {"multistep", "histories of up to 6 integrations, copies and "
        "serializations; non-trivial if continued or copied", 20000, 300000, MultistepHistory},
       {"explicit", "histories of up to 6 integrations and copies; "
        "non-trivial if continued or copied", 20000, 300000, ExplicitHistory},
       {"adaptive", "histories of up to 6 integrations, copies and serializations "
        "with scripted errors; non-trivial if there are rejections or "
        "continuations", 40000, 600000, Adaptive},
       {"order", "the convergence of a one-step method for 7 equations", 200, 4000, Order},
       {"multistep_order", "the conditions for the order of a linear multistep method, "
        "for a monomial", 2000, 20000, MultistepOrder}});
}
