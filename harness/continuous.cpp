// Continuous trajectories and checkpointers: histories of appends, checkpoints,
// serializations and reconstructions.
#include <atomic>
#include <cmath>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include "convert.hpp"
#include "fatal.hpp"
#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "pbt.hpp"
#include "physics/checkpointer.hpp"
#include "physics/continuous_trajectory.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "quantities/si.hpp"
#include "serialization/geometry.pb.h"
#include "serialization/physics.pb.h"

using namespace principia::base::_not_null;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::physics::_checkpointer;
using namespace principia::physics::_continuous_trajectory;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using convert::At;
using convert::In;
using convert::Real;
using convert::Vec;
using pbt::Ctx;
using pbt::Src;
using ref::Norm;
namespace serialization = principia::serialization;

using World = Frame<serialization::Frame::TestTag, Inertial, Handedness::Right,
                    serialization::Frame::TEST>;
using Trajectory = ContinuousTrajectory<World>;

// A circular motion, on top of a uniform one, with a small harmonic.
struct Motion {
  Vec q0, v0, x, y;
  Real ω, φ, harmonic;
  Vec Q(Real const t) const {
    return q0 + t * v0 + std::cos(ω * t + φ) * x + std::sin(ω * t + φ) * y +
           harmonic * std::cos(2 * (ω * t + φ)) * y +
           harmonic * std::sin(2 * (ω * t + φ)) * x;
  }
  Vec V(Real const t) const {
    return v0 + (-ω * std::sin(ω * t + φ)) * x + (ω * std::cos(ω * t + φ)) * y +
           (-2 * ω * harmonic * std::sin(2 * (ω * t + φ))) * y +
           (2 * ω * harmonic * std::cos(2 * (ω * t + φ))) * x;
  }
};

struct Samples {
  double step;
  Real amplitude;  // Of the non-uniform part.
  Motion motion;
  std::vector<double> times;
  double Time(std::size_t const i) {
    while (times.size() <= i) times.push_back(times.back() + step);
    return times[i];
  }
  DegreesOfFreedom<World> Dof(std::size_t const i) {
    // The motion is parameterized from the first time, to keep the accuracy.
    Real const t = Time(i) - times[0];
    return {convert::Make<Position<World>>(motion.Q(t)),
            convert::Make<Velocity<World>>(motion.V(t))};
  }
};

struct State {
  Vec q, v;
};
State Of(DegreesOfFreedom<World> const& dof) {
  return {convert::Of(dof.position()), convert::Of(dof.velocity())};
}
bool Same(Vec const& a, Vec const& b) {
  return a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
}

Samples MakeSamples(Src& s) {
  Samples r;
  r.step = s.coin() ? static_cast<double>(s.range(1, 100))
                    : s.log(1e-2, 1e5);
  r.times.push_back(s.chance(1, 3) ? 0 : s.sym(1e4) * r.step);
  r.amplitude = s.log(1, 1e9);
  Vec const a = ref::Unit({s.sym(1), s.sym(1), s.real(0.5, 1)});
  Vec const b = ref::Unit(ref::Cross(a, {s.real(0.5, 1), s.sym(0.5), s.sym(0.1)}));
  Motion& m = r.motion;
  m.x = r.amplitude * b;
  m.y = r.amplitude * s.real(0.7, 1) * ref::Cross(a, b);
  m.harmonic = s.coin() ? 0 : s.real(0, 0.02);
  m.ω = s.real(0.01, m.harmonic == 0 ? 2 : 0.5) / (8 * r.step);
  m.φ = s.real(0, 6.3);
  if (s.coin()) {
    m.q0 = r.amplitude * Vec{s.sym(10), s.sym(10), s.sym(10)};
    m.v0 = (r.amplitude * m.ω) * Vec{s.sym(1), s.sym(1), s.sym(1)};
  }
  return r;
}

void Fill(Trajectory& t, Samples& samples, std::size_t const from, std::size_t const to) {
  for (std::size_t i = from; i < to; ++i) {
    auto const status = t.Append(At(samples.Time(i)), samples.Dof(i));
    REQUIRE(status.ok(), "append failed: " << status.ToString());
  }
}

// Both trajectories have the same values between `t1` and `t2`.
void CheckIdentical(Src& s, Trajectory const& a, Trajectory const& b, double const t1,
                    double const t2) {
  for (int i = 0; i < 12; ++i) {
    // At the beginning, one might have the end of the previous polynomial.
    double const t = i == 0 ? std::nextafter(t1, t2) : i == 1 ? t2 : std::min(t2, s.real(t1, t2));
    if (t == t1) continue;
    auto const da = Of(a.EvaluateDegreesOfFreedom(At(t)));
    auto const db = Of(b.EvaluateDegreesOfFreedom(At(t)));
    REQUIRE(Same(da.q, db.q) && Same(da.v, db.v),
            "reconstructed trajectory differs at " << t << ": " << da.q << " vs. "
            << db.q << ", " << da.v << " vs. " << db.v);
  }
}

struct Live {
  std::unique_ptr<Trajectory> t;
  std::size_t first = 0;  // Index of the sample at t_min.
  std::size_t n = 0;  // The next sample.
  std::vector<std::size_t> checkpoints;  // Indices of the samples, sorted.
};

void History(Src& s, Ctx& ctx) {
  Samples samples = MakeSamples(s);
  Real const scale = samples.amplitude * 1.1L;
  double const tolerance = static_cast<double>(
      samples.amplitude * std::pow(10.0L, s.real(-11, -1)));
  auto const make = [&] {
    return std::make_unique<Trajectory>(samples.step * Second, tolerance * Metre);
  };
  ctx.note() << "step " << samples.step << " from " << samples.times[0] << ", ω·8step "
             << samples.motion.ω * 8 * samples.step << ", amplitude "
             << samples.amplitude << ", tolerance " << tolerance << " ";
  Live live{make()};
  REQUIRE(live.t->empty(), "new trajectory not empty");
  int appended = 0, reads = 0, prepends = 0, checkpoints = 0;
  Real worst = 0, worst_v = 0;

  auto const check = [&](Live& l) {
    // The polynomials that are complete.
    std::int64_t const polynomials =
        l.n > l.first ? (static_cast<std::int64_t>(l.n - 1 - l.first)) / 8 : 0;
    REQUIRE(l.t->empty() == (polynomials == 0),
            "empty: " << l.t->empty() << " with " << l.n - l.first << " points");
    if (polynomials == 0) {
      REQUIRE(l.t->t_min() == InfiniteFuture && l.t->t_max() == InfinitePast,
              "bounds of an empty trajectory");
      return;
    }
    std::size_t const last = l.first + 8 * polynomials;
    double const t1 = samples.Time(l.first), t2 = samples.Time(last);
    REQUIRE(l.t->t_min() == At(t1), "t_min " << In(l.t->t_min()) << ", expected " << t1);
    REQUIRE(l.t->t_max() == At(t2), "t_max " << In(l.t->t_max()) << ", expected " << t2);
    for (int i = 0; i < 4; ++i) {
      bool const node = s.coin();
      double const t =
          node ? samples.Time(l.first + 8 * s.below(polynomials + 1))
               : std::min(t2, s.real(t1, t2));
      Real const τ = static_cast<Real>(t) - samples.times[0];
      Vec const q = samples.motion.Q(τ), v = samples.motion.V(τ);
      auto const dof = Of(l.t->EvaluateDegreesOfFreedom(At(t)));
      auto const position = convert::Of(l.t->EvaluatePosition(At(t)));
      auto const velocity = convert::Of(l.t->EvaluateVelocity(At(t)));
      auto const locked = Of(l.t->EvaluateDegreesOfFreedomLocked(At(t)));
      // The same polynomial; only the roundings may differ.
      Real const size = Norm(samples.motion.q0) + scale + Norm(v) * 8 * samples.step;
      REQUIRE(Norm(position - dof.q) <= 1e-14L * size &&
              Norm(velocity - dof.v) <= 1e-14L * size / samples.step &&
              Same(position, convert::Of(l.t->EvaluatePositionLocked(At(t)))) &&
              Same(velocity, convert::Of(l.t->EvaluateVelocityLocked(At(t)))) &&
              Same(locked.q, dof.q) && Same(locked.v, dof.v),
              "inconsistent evaluations at " << t << ": " << position - dof.q << " "
              << velocity - dof.v);
      Real const rounding = 5e-14L * size + 2.3e-16L * std::abs(t) * Norm(v);
      Real const error = Norm(dof.q - q);
      Real const error_v = Norm(dof.v - v);
      Real const bound = node ? 200 * rounding : 3 * tolerance + 200 * rounding;
      REQUIRE(error <= bound, (node ? "node " : "") << t << " off by " << error
              << ", bound " << bound);
      Real const bound_v =
          node ? 1000 * rounding / samples.step
               : (15 * tolerance + 5000 * rounding) / (4 * samples.step);
      REQUIRE(error_v <= bound_v, (node ? "node " : "") << t << ", velocity off by "
              << error_v << ", bound " << bound_v);
      worst = std::max(worst, error / bound);
      worst_v = std::max(worst_v, error_v / bound_v);
      ctx.count();
    }
  };

  // The state of `live` rebuilt from a message, at the given checkpoint.
  auto const read = [&](std::size_t const from, std::size_t const to) {
    serialization::ContinuousTrajectory message;
    live.t->WriteToMessage(&message);
    serialization::ContinuousTrajectory copy;
    copy.ParseFromString(message.SerializeAsString());
    auto const& c = live.checkpoints;
    double desired = samples.Time(c[from]);
    double const next = from + 1 < c.size() ? samples.Time(c[from + 1])
                                            : samples.Time(live.n) + samples.step;
    if (s.coin()) desired += s.real(0, 0.99) * (next - desired);
    Live result{std::unique_ptr<Trajectory>(
        Trajectory::ReadFromMessage(At(desired), copy))};
    std::size_t const k = c[from];
    result.first = k == 0 ? 0 : (k - 1) / 8 * 8 + (k % 8 == 0 ? 0 : 0);
    // The first point that is not in a complete polynomial at the time of the
    // checkpoint.
    result.first = k / 8 * 8;
    result.n = k + 1;
    result.checkpoints = c;
    REQUIRE(result.t->empty(), "no polynomials yet");
    Fill(*result.t, samples, result.n, to);
    result.n = to;
    return result;
  };

  for (int op = 0; s.more(op, 2, 25, 10); ++op) {
    auto const kind = s.below(10);
    if (kind <= 4 || live.n == 0) {
      // Sometimes many points, to trigger a change of degree.
      std::size_t const k = live.n == 0 ? 1
                            : s.chance(1, 12) ? s.range(700, 1000)
                                              : s.range(1, 30);
      ctx.note() << "append " << k << "; ";
      Fill(*live.t, samples, live.n, live.n + k);
      live.n += k;
      appended += k;
      // As the ephemeris does.
      if (live.checkpoints.empty()) {
        live.t->WriteToCheckpoint(At(samples.Time(0)));
        live.checkpoints.push_back(0);
      }
    } else if (kind <= 6) {
      if (live.checkpoints.back() == live.n - 1) continue;
      ctx.note() << "checkpoint at " << live.n - 1 << "; ";
      ++checkpoints;
      live.t->WriteToCheckpoint(At(samples.Time(live.n - 1)));
      live.checkpoints.push_back(live.n - 1);
    } else {
      // Read from a checkpoint and rebuild what follows.
      std::size_t const from = s.below(live.checkpoints.size());
      ctx.note() << "read at " << live.checkpoints[from] << " of " << live.n << "; ";
      ++reads;
      Live r = read(from, live.n);
      check(r);
      if (!r.t->empty()) {
        CheckIdentical(s, *live.t, *r.t, static_cast<double>(In(r.t->t_min())),
                       static_cast<double>(In(r.t->t_max())));
      }
      // Rebuild the past, segment by segment.
      std::size_t current = from;
      int const target = s.coin() ? 0 : s.below(from + 1);
      while (!r.t->empty() && static_cast<int>(current) > target) {
        std::size_t const previous =
            s.chance(3, 4) ? current - 1 : s.range(target, current - 1);
        ctx.note() << "prepend from " << r.checkpoints[previous] << "; ";
        auto prefix = make();
        auto const status = r.t->ReadFromCheckpointAt(
            At(samples.Time(r.checkpoints[previous])),
            prefix->MakeCheckpointerReader());
        REQUIRE(status.ok(), "checkpoint not found: " << status.ToString());
        Fill(*prefix, samples, r.checkpoints[previous] + 1, r.checkpoints[current] + 1);
        bool const nothing = prefix->empty();
        if (s.coin() && !r.t->empty()) {
          r.t->EvaluatePosition(s.coin() ? r.t->t_max() : r.t->t_min());
        }
        r.t->Prepend(std::move(*prefix));
        ++prepends;
        if (!nothing) r.first = r.checkpoints[previous] / 8 * 8;
        current = previous;
        check(r);
        CheckIdentical(s, *live.t, *r.t, static_cast<double>(In(r.t->t_min())),
                       static_cast<double>(In(r.t->t_max())));
      }
      REQUIRE(!r.t->ReadFromCheckpointAt(At(samples.Time(live.n) + 7),
                                         make()->MakeCheckpointerReader()).ok(),
              "reading an inexistent checkpoint");
      // Carry on with the copy, which must be as good as the original.
      if (s.coin() && r.first == 0 && !r.t->empty()) {
        ctx.note() << "continue; ";
        live = std::move(r);
      }
    }
    check(live);
  }
  // A trajectory that was appended to without interruption is identical.
  auto fresh = make();
  Fill(*fresh, samples, 0, live.n);
  if (!fresh->empty()) {
    CheckIdentical(s, *fresh, *live.t, static_cast<double>(In(fresh->t_min())),
                   static_cast<double>(In(fresh->t_max())));
  }
  ctx.note() << " worst " << worst << " " << worst_v;
  ctx.label_if(prepends > 0, "prepended");
  ctx.label_if(appended > 800, "long");
  ctx.nontrivial(appended > 9 && (reads > 0 || checkpoints > 0));
}

// Evaluations while the trajectory is being extended at both ends.
void Concurrent(Src& s, Ctx& ctx) {
  Samples samples = MakeSamples(s);
  double const tolerance = static_cast<double>(
      samples.amplitude * std::pow(10.0L, s.real(-9, -3)));
  std::size_t const n = s.range(18, 400);
  std::size_t const k = s.range(9, n - 9) / 8 * 8;
  samples.Time(n);
  ctx.note() << n << " points, prefix of " << k;
  Trajectory expected(samples.step * Second, tolerance * Metre);
  Fill(expected, samples, 0, n);
  // The prefix and the live part.
  Trajectory prefix(samples.step * Second, tolerance * Metre);
  Fill(prefix, samples, 0, k + 1);
  Trajectory whole(samples.step * Second, tolerance * Metre);
  Fill(whole, samples, k, std::min(n, k + 9));
  Trajectory reference(samples.step * Second, tolerance * Metre);
  Fill(reference, samples, k, n);
  std::atomic<bool> done = false;
  std::vector<std::thread> threads;
  std::vector<std::string> errors(3);
  std::vector<std::vector<double>> fractions(3);
  for (auto& f : fractions) {
    for (int i = 0; i < 16; ++i) f.push_back(1 - 0.999 * s.unit());
  }
  for (int th = 0; th < 3; ++th) {
    threads.emplace_back([&, th] {
      for (std::size_t i = 0; !done || i < 100; ++i) {
        auto const t_min = whole.t_min();
        auto const t_max = whole.t_max();
        auto const t =
            std::min(t_max, t_min + fractions[th][i % 16] * (t_max - t_min));
        auto const dof = Of(whole.EvaluateDegreesOfFreedom(t));
        auto const& r = t <= At(samples.Time(k)) ? expected : reference;
        auto const ok = Of(r.EvaluateDegreesOfFreedom(t));
        if (!Same(dof.q, ok.q) || !Same(dof.v, ok.v)) {
          if (errors[th].empty()) {
            std::ostringstream o;
            o << In(t) << " between " << In(t_min) << " and " << In(t_max) << ": "
              << dof.q << " instead of " << ok.q;
            errors[th] = o.str();
          }
        }
      }
    });
  }
  std::size_t const middle = s.range(k + 9, n);
  Fill(whole, samples, std::min(n, k + 9), middle);
  whole.Prepend(std::move(prefix));
  Fill(whole, samples, middle, n);
  done = true;
  for (auto& t : threads) t.join();
  for (auto const& e : errors) REQUIRE(e.empty(), e);
  REQUIRE(whole.t_min() == At(samples.Time(0)) && whole.t_max() == reference.t_max(),
          "final bounds");
  ctx.count(3);
  ctx.nontrivial(n > k + 16);
}

// The checkpointer against a map.
using Message = serialization::ContinuousTrajectory;
void Checkpoints(Src& s, Ctx& ctx) {
  int value = 0;
  int read_value = -1;
  bool fail = false;
  auto const writer = [&](not_null<Message::Checkpoint*> const m) {
    m->set_degree(value);
  };
  auto const reader = [&](Message::Checkpoint const& m) -> absl::Status {
    read_value = m.degree();
    return fail ? absl::InvalidArgumentError("refused") : absl::OkStatus();
  };
  auto checkpointer = std::make_unique<Checkpointer<Message>>(writer, reader);
  std::map<double, int> model;
  int writes = 0, reads = 0;
  auto const time = [&] {
    if (!model.empty() && s.coin()) {
      auto it = model.begin();
      std::advance(it, s.below(model.size()));
      return s.chance(1, 3)
                 ? std::nextafter(it->first, s.coin() ? 1e9 : -1e9)
                 : it->first;
    }
    return static_cast<double>(s.range(-20, 20));
  };
  auto const check_read = [&](absl::Status const& status,
                              std::map<double, int>::const_iterator const it,
                              std::string const& what) {
    ++reads;
    ctx.count();
    if (it == model.end()) {
      REQUIRE(absl::IsNotFound(status) && read_value == -1,
              what << ": found " << read_value << " " << status.ToString());
    } else {
      REQUIRE(read_value == it->second && (fail ? absl::IsInvalidArgument(status)
                                                : status.ok()),
              what << ": read " << read_value << " instead of " << it->second << " "
              << status.ToString());
    }
    read_value = -1;
  };
  auto const list = [&](double const a, double const b) {
    absl::btree_set<Instant> r;
    for (auto const& [t, _] : model) {
      if (a <= t && t <= b) r.insert(At(t));
    }
    return r;
  };
  for (int op = 0; s.more(op, 2, 40, 15); ++op) {
    fail = s.chance(1, 8);
    ++value;
    double const t = time(), t2 = time();
    auto at_or_before = [&] {
      auto it = model.upper_bound(t);
      return it == model.begin() ? model.end() : std::prev(it);
    };
    switch (s.below(9)) {
      case 0:
        if (model.count(t) > 0) break;
        ctx.note() << "write(" << t << ") ";
        checkpointer->WriteToCheckpoint(At(t));
        model[t] = value;
        ++writes;
        break;
      case 1:
      case 2: {
        double const d = s.range(0, 10);
        if (model.count(t) > 0) break;
        ctx.note() << "write if needed(" << t << ", " << d << ") ";
        bool const needed = model.empty() || d < t - model.rbegin()->first;
        bool const written = checkpointer->WriteToCheckpointIfNeeded(At(t), d * Second);
        REQUIRE(needed == written, "written: " << written);
        if (needed) {
          model[t] = value;
          ++writes;
        }
        break;
      }
      case 3:
        check_read(checkpointer->ReadFromOldestCheckpoint(), model.begin(), "oldest");
        break;
      case 4:
        check_read(checkpointer->ReadFromNewestCheckpoint(),
                   model.empty() ? model.end() : std::prev(model.end()), "newest");
        break;
      case 5:
        check_read(checkpointer->ReadFromCheckpointAtOrBefore(At(t)), at_or_before(),
                   "at or before");
        break;
      case 6:
        if (s.coin()) {
          check_read(checkpointer->ReadFromCheckpointAt(At(t)), model.find(t), "at");
        } else {
          check_read(checkpointer->ReadFromCheckpointAt(At(t), reader), model.find(t),
                     "at with a reader");
        }
        break;
      case 7: {
        Message message;
        checkpointer->WriteToMessage(message.mutable_checkpoint());
        REQUIRE(message.checkpoint_size() == static_cast<int>(model.size()),
                "size of the message");
        Message copy;
        copy.ParsePartialFromString(message.SerializePartialAsString());
        bool const rewrite = s.coin();
        Checkpointer<Message>::Rewriter rewriter = nullptr;
        if (rewrite) {
          rewriter = [](Message::Checkpoint const& c) {
            auto r = c;
            r.set_degree(c.degree() + 1000);
            return r;
          };
          for (auto& [_, v] : model) v += 1000;
        }
        checkpointer = Checkpointer<Message>::ReadFromMessage(
            writer, reader, rewriter, copy.checkpoint());
        ctx.note() << "serialize ";
        break;
      }
      default: {
        checkpointer->set_writer([&](not_null<Message::Checkpoint*> const m) {
          m->set_degree(value);
        });
      }
    }
    REQUIRE(checkpointer->size() == static_cast<std::int64_t>(model.size()), "size");
    REQUIRE(checkpointer->oldest_checkpoint() ==
                (model.empty() ? InfiniteFuture : At(model.begin()->first)),
            "oldest");
    REQUIRE(checkpointer->newest_checkpoint() ==
                (model.empty() ? InfinitePast : At(model.rbegin()->first)),
            "newest");
    auto const after = model.lower_bound(t);
    REQUIRE(checkpointer->checkpoint_at_or_after(At(t)) ==
                (after == model.end() ? InfiniteFuture : At(after->first)),
            "at or after " << t);
    REQUIRE(checkpointer->checkpoint_at_or_before(At(t)) ==
                (at_or_before() == model.end() ? InfinitePast
                                               : At(at_or_before()->first)),
            "at or before " << t);
    REQUIRE(checkpointer->all_checkpoints() == list(-1e10, 1e10), "all");
    REQUIRE(checkpointer->all_checkpoints_at_or_before(At(t)) == list(-1e10, t),
            "all at or before");
    REQUIRE(checkpointer->all_checkpoints_between(At(t), At(t2)) == list(t, t2),
            "all between " << t << " and " << t2);
  }
  ctx.nontrivial(writes > 1 && reads > 0);
}

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"continuous", "histories of up to 25 operations on a continuous trajectory; "
        "non-trivial if there is at least a polynomial and a checkpoint or a read",
        4000, 150000, History},
       {"concurrent", "evaluations by 3 threads while the trajectory is appended to and "
        "prepended to; non-trivial if there are several polynomials",
        800, 20000, Concurrent},
       {"checkpointer", "up to 40 operations on a checkpointer; non-trivial if "
        "there are at least 2 checkpoints and one was read", 20000, 500000,
        Checkpoints}});
}
