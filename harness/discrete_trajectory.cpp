// Histories of operations on discrete trajectories against a model made of vectors of
// points.
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <iterator>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "convert.hpp"
#include "fatal.hpp"
#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "pbt.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/discrete_trajectory.hpp"
#include "physics/discrete_trajectory_segment.hpp"
#include "physics/discrete_trajectory_segment_iterator.hpp"
#include "physics/discrete_trajectory_types.hpp"
#include "quantities/si.hpp"
#include "serialization/geometry.pb.h"
#include "serialization/physics.pb.h"

using namespace principia::geometry::_frame;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_discrete_trajectory;
using namespace principia::physics::_discrete_trajectory_segment;
using namespace principia::physics::_discrete_trajectory_segment_iterator;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using convert::At;
using convert::Real;
using convert::Vec;
using pbt::Ctx;
using pbt::Src;
using ref::Norm;
namespace serialization = principia::serialization;

using World = Frame<serialization::Frame::TestTag, Inertial, Handedness::Right,
                    serialization::Frame::TEST>;
using Trajectory = DiscreteTrajectory<World>;
using SegmentIterator = DiscreteTrajectorySegmentIterator<World>;

struct State {
  Vec q, v;
};
bool operator==(State const& a, State const& b) {
  for (int i = 0; i < 3; ++i) {
    if (a.q[i] != b.q[i] || a.v[i] != b.v[i]) return false;
  }
  return true;
}

State Of(DegreesOfFreedom<World> const& dof) {
  return {convert::Of(dof.position()), convert::Of(dof.velocity())};
}
DegreesOfFreedom<World> Make(State const& s) {
  return {convert::Make<Position<World>>(s.q), convert::Make<Velocity<World>>(s.v)};
}

struct Point {
  double t;
  State state;
  // About the interpolation that ends at this point: the points that were dropped and
  // the error bound.
  std::vector<std::pair<double, State>> dropped;
  Real error = 0;
  Real slack = 0;
};

State Hermite(Point const& a, Point const& b, Real const t) {
  Real const h = (Real)b.t - a.t, s = (t - a.t) / h;
  Real const s2 = s * s, s3 = s2 * s;
  State r;
  for (int i = 0; i < 3; ++i) {
    r.q[i] = (2 * s3 - 3 * s2 + 1) * a.state.q[i] + (s3 - 2 * s2 + s) * h * a.state.v[i] +
             (-2 * s3 + 3 * s2) * b.state.q[i] + (s3 - s2) * h * b.state.v[i];
    r.v[i] = (6 * s2 - 6 * s) / h * (a.state.q[i] - b.state.q[i]) +
             (3 * s2 - 4 * s + 1) * a.state.v[i] + (3 * s2 - 2 * s) * b.state.v[i];
  }
  return r;
}

struct Segment {
  std::optional<double> tolerance;
  std::vector<Point> points;
  Real error = 0;

  // What is done when the last point changes.
  void Restore() { error = points.empty() ? 0 : points.back().error; }
};

struct Model {
  std::vector<Segment> segments = std::vector<Segment>(1);

  bool empty() const {
    for (auto const& s : segments) {
      if (!s.points.empty()) return false;
    }
    return true;
  }
  Point const& front() const {
    for (auto const& s : segments) {
      if (!s.points.empty()) return s.points.front();
    }
    std::abort();
  }
  Point const& back() const { return segments.back().points.back(); }
  // The points without the duplicates.
  std::vector<Point const*> all() const {
    std::vector<Point const*> result;
    for (auto const& s : segments) {
      for (auto const& p : s.points) {
        if (result.empty() || result.back()->t != p.t) result.push_back(&p);
      }
    }
    return result;
  }
  bool leading_empty() const { return !empty() && segments.front().points.empty(); }
};

// The bound used by the downsampling for the norm of the difference of interpolations.
Real Distance(Point const& lower, Point const& last, Point const& next) {
  Real result = 0;
  for (int i = 1; i <= 96; ++i) {
    Real const t = lower.t + ((Real)last.t - lower.t) * i / 96;
    result = std::max(result, Norm(Hermite(lower, next, t).q - Hermite(lower, last, t).q));
  }
  return result;
}

struct Slot {
  Trajectory trajectory;
  Model model;
  // A segment iterator held by a client, and its index.
  SegmentIterator held;
  int held_index = -1;
  void Unhold() { held_index = -1; }
};

void CheckPoint(Trajectory::value_type const& actual, Point const& expected,
                std::string const& what) {
  REQUIRE(actual.time == At(expected.t),
          what << ": time " << convert::In(actual.time) << " vs. " << expected.t);
  REQUIRE(Of(actual.degrees_of_freedom) == expected.state, what << ": state at "
          << expected.t);
}

void CheckEvaluation(Src& s, Slot const& slot, double const t) {
  Trajectory const& trajectory = slot.trajectory;
  auto const all = slot.model.all();
  auto const actual = trajectory.EvaluateDegreesOfFreedom(At(t));
  REQUIRE(actual == DegreesOfFreedom<World>(trajectory.EvaluatePosition(At(t)),
                                            trajectory.EvaluateVelocity(At(t))),
          "evaluations differ at " << t);
  auto const it = std::lower_bound(all.begin(), all.end(), t,
                                   [](Point const* p, double t) { return p->t < t; });
  if ((*it)->t == t) {
    REQUIRE(Of(actual) == (*it)->state, "evaluation at the point " << t);
    return;
  }
  Point const& a = **std::prev(it);
  Point const& b = **it;
  State const expected = Hermite(a, b, t);
  Real const h = (Real)b.t - a.t;
  Real const size = Norm(a.state.q) + Norm(b.state.q) +
                    h * (Norm(a.state.v) + Norm(b.state.v));
  convert::ExpectVec(convert::Of(actual.position()), expected.q, 1e-14L * size,
                     "position at " + std::to_string(t) + " between " +
                     std::to_string(a.t) + " and " + std::to_string(b.t));
  convert::ExpectVec(convert::Of(actual.velocity()), expected.v, 1e-13L * size / h,
                     "velocity");
}

void Check(Src& s, Slot& slot) {
  Trajectory const& t = slot.trajectory;
  Model const& m = slot.model;
  auto const all = m.all();
  REQUIRE(t.empty() == all.empty(), "empty " << t.empty());
  REQUIRE(t.size() == (std::int64_t)all.size(),
          "size " << t.size() << " vs. " << all.size());
  // Segments.
  REQUIRE((std::size_t)t.segments().size() == m.segments.size(),
          "segments " << t.segments().size() << " vs. " << m.segments.size());
  {
    auto sit = t.segments().begin();
    for (std::size_t i = 0; i < m.segments.size(); ++i, ++sit) {
      auto const& points = m.segments[i].points;
      REQUIRE(sit->empty() == points.empty(), "segment " << i << " empty " << sit->empty());
      REQUIRE(sit->size() == (std::int64_t)points.size(), "segment " << i << " size "
              << sit->size() << " vs. " << points.size());
      if (points.empty()) {
        REQUIRE(sit->begin() == sit->end(), "empty segment " << i);
        REQUIRE(sit->t_min() == InfiniteFuture && sit->t_max() == InfinitePast,
                "times of an empty segment");
        continue;
      }
      REQUIRE(sit->t_min() == At(points.front().t) && sit->t_max() == At(points.back().t),
              "times of segment " << i);
      CheckPoint(sit->front(), points.front(), "front of segment");
      CheckPoint(sit->back(), points.back(), "back of segment");
      auto it = sit->begin();
      // Junction points are shown once by the iterators.
      for (auto const& p : points) {
        REQUIRE(it != sit->end() || &p == &points.back(), "segment ends early");
        if (it == sit->end()) break;
        CheckPoint(*it, p, "point of segment");
        ++it;
      }
      double const at = points[s.below(points.size())].t;
      CheckPoint(*sit->find(At(at)), *std::find_if(points.begin(), points.end(),
                 [&](Point const& p) { return p.t == at; }), "find in segment");
    }
    REQUIRE(sit == t.segments().end(), "end of segments");
  }
  if (slot.held_index >= 0) {
    auto it = t.segments().begin();
    for (int i = 0; i < slot.held_index; ++i) ++it;
    REQUIRE(slot.held == it, "held segment iterator");
  }
  {
    // Reverse iteration over segments.
    auto const range = t.rsegments();
    std::size_t i = m.segments.size();
    for (auto const& segment : range) {
      --i;
      REQUIRE(segment.size() == (std::int64_t)m.segments[i].points.size(), "rsegments");
    }
    REQUIRE(i == 0, "number of reversed segments");
  }
  // Points.
  {
    auto it = t.begin();
    for (auto const* p : all) {
      REQUIRE(it != t.end(), "iteration ends before " << p->t);
      CheckPoint(*it, *p, "forward iteration");
      ++it;
    }
    REQUIRE(it == t.end(), "iteration continues after " << all.size());
    auto rit = t.rbegin();
    for (std::size_t i = all.size(); i-- > 0; ++rit) {
      REQUIRE(rit != t.rend(), "reverse iteration ends early");
      CheckPoint(*rit, *all[i], "backward iteration");
    }
    REQUIRE(rit == t.rend(), "reverse iteration continues");
  }
  if (all.empty()) {
    REQUIRE(t.t_min() == InfiniteFuture && t.t_max() == InfinitePast, "empty times");
    REQUIRE(t.begin() == t.end(), "begin of empty trajectory");
    REQUIRE(t.find(At(1)) == t.end() && t.lower_bound(At(1)) == t.end(),
            "search in empty trajectory");
    return;
  }
  REQUIRE(t.t_min() == At(all.front()->t) && t.t_max() == At(all.back()->t), "times");
  CheckPoint(t.front(), *all.front(), "front");
  CheckPoint(t.back(), *all.back(), "back");
  // Random access.
  {
    std::int64_t const i = s.below(all.size() + 1), j = s.below(all.size() + 1);
    auto const a = t.begin() + i;
    auto const b = t.end() - ((std::int64_t)all.size() - j);
    // Negative distances are not supported.
    auto const& [first, last] = i < j ? std::pair(a, b) : std::pair(b, a);
    REQUIRE(last - first == std::abs(j - i),
            "distance " << (last - first) << " vs. " << std::abs(j - i));
    REQUIRE((a < b) == (i < j) && (a <= b) == (i <= j) && (a == b) == (i == j) &&
                (a > b) == (i > j) && (a >= b) == (i >= j), "comparison of iterators");
    REQUIRE(a + (j - i) == b && b - (j - i) == a, "jump");
    if (i < (std::int64_t)all.size()) {
      CheckPoint(*a, *all[i], "random access");
      if (j < (std::int64_t)all.size()) CheckPoint(a[j - i], *all[j], "subscript");
    }
  }
  // Searches.
  for (int k = 0; k < 2; ++k) {
    double const time = s.coin()
        ? all[s.below(all.size())]->t
        : (s.range((int)(8 * all.front()->t) - 4, (int)(8 * all.back()->t) + 4)) / 8.0;
    std::int64_t lower = 0, upper = 0;
    while (lower < (std::int64_t)all.size() && all[lower]->t < time) ++lower;
    while (upper < (std::int64_t)all.size() && all[upper]->t <= time) ++upper;
    REQUIRE(t.lower_bound(At(time)) == t.begin() + lower, "lower_bound " << time);
    REQUIRE(t.upper_bound(At(time)) == t.begin() + upper, "upper_bound " << time);
    REQUIRE(t.find(At(time)) == (lower != upper ? t.begin() + lower : t.end()),
            "find " << time);
    if (time >= all.front()->t && time <= all.back()->t) CheckEvaluation(s, slot, time);
  }
  double const time = s.real(all.front()->t, all.back()->t);
  if (time >= all.front()->t && time <= all.back()->t) CheckEvaluation(s, slot, time);
}

// The points that were not kept are represented within the tolerance.
void CheckDropped(Slot const& slot) {
  for (auto const& segment : slot.model.segments) {
    for (std::size_t i = 1; i < segment.points.size(); ++i) {
      for (auto const& [time, state] : segment.points[i].dropped) {
        Vec const q = convert::Of(slot.trajectory.EvaluatePosition(At(time)));
        Real const tolerance = segment.points[i].slack;
        REQUIRE(Norm(q - state.q) <= tolerance * 1.0001L + 1e-9L,
                "the dropped point at " << time << " is off by " << Norm(q - state.q)
                << ", tolerance " << tolerance);
      }
    }
  }
}

void Append(Src& s, Ctx& ctx, Slot& slot, double const t, State const& state) {
  Model& m = slot.model;
  REQUIRE(slot.trajectory.Append(At(t), Make(state)).ok(), "append");
  Segment& segment = m.segments.back();
  Point next{t, state};
  if (segment.points.size() > 1 && segment.tolerance.has_value()) {
    Point const& lower = segment.points[segment.points.size() - 2];
    Point& last = segment.points.back();
    Real const error = segment.error + Distance(lower, last, next);
    std::int64_t const kept = std::prev(slot.trajectory.segments().end())->size();
    bool const dropped = kept == (std::int64_t)segment.points.size();
    if (error < 0.98L * *segment.tolerance) {
      REQUIRE(dropped, "point kept at " << last.t << " for an error of " << error);
    } else if (error > 1.02L * *segment.tolerance) {
      REQUIRE(!dropped, "point dropped at " << last.t << " for an error of " << error);
    }
    if (dropped) {
      ctx.label("dropped");
      next.dropped = std::move(last.dropped);
      next.dropped.push_back({last.t, last.state});
      next.slack = std::max<Real>(last.slack, *segment.tolerance);
      next.error = segment.error = error;
      segment.points.back() = std::move(next);
      return;
    }
  }
  segment.error = 0;
  segment.points.push_back(next);
}

// A source of positions, either smooth or irregular.
struct Curve {
  int kind;
  Real ω, radius, noise;
  Vec v0;
  State At(Src& s, double const t) const {
    State r;
    switch (kind) {
      case 0:
        r = {(Real)t * v0, v0};
        break;
      case 1:
        r = {{radius * std::cos(ω * t), radius * std::sin(ω * t), v0[2] * (Real)t},
             {-ω * radius * std::sin(ω * t), ω * radius * std::cos(ω * t), v0[2]}};
        break;
      default:
        for (int i = 0; i < 3; ++i) {
          r.q[i] = s.sym(100);
          r.v[i] = s.sym(10);
        }
    }
    for (int i = 0; i < 3; ++i) r.q[i] += noise * s.sym(1);
    return {convert::Rounded(r.q), convert::Rounded(r.v)};
  }
};

SegmentIterator Nth(Trajectory const& t, std::size_t const n) {
  auto it = t.segments().begin();
  for (std::size_t i = 0; i < n; ++i) ++it;
  return it;
}

// Writes the range of points [from, to[ and reads it, in a slot.
Slot WriteAndRead(Src& s, Ctx& ctx, Slot const& slot, std::size_t const from,
                  std::size_t const to, bool const entire) {
  Trajectory const& t = slot.trajectory;
  Model const& m = slot.model;
  auto const all = m.all();
  std::vector<SegmentIterator> tracked;
  std::vector<int> tracked_index;
  int const n = s.below(4);
  for (int i = 0; i < n; ++i) {
    int const k = s.below(m.segments.size() + 1);
    tracked_index.push_back(k);
    tracked.push_back(Nth(t, k));
  }
  std::vector<Trajectory::iterator> exact;
  std::vector<double> exact_times;
  if (from < to) {
    int const e = s.below(4);
    for (int i = 0; i < e; ++i) {
      int const k = s.range(from, to - 1);
      exact.push_back(t.begin() + k);
      exact_times.push_back(all[k]->t);
    }
  }
  serialization::DiscreteTrajectory message;
  if (entire) {
    t.WriteToMessage(&message, tracked, exact);
  } else {
    t.WriteToMessage(&message, t.begin() + from, t.begin() + to, tracked, exact);
  }
  serialization::DiscreteTrajectory parsed;
  REQUIRE(parsed.ParseFromString(message.SerializeAsString()), "parsing");
  std::vector<SegmentIterator> read_tracked(tracked.size());
  std::vector<SegmentIterator*> read_tracked_pointers;
  for (auto& it : read_tracked) read_tracked_pointers.push_back(&it);
  Slot result{Trajectory::ReadFromMessage(parsed, read_tracked_pointers, true), {}, {}};
  // The expected structure.
  Real const begin = from < all.size() ? (Real)all[from]->t : INFINITY;
  Real const end = to < all.size() ? (Real)all[to]->t : INFINITY;
  std::vector<Segment> segments;
  bool seen = false;
  for (auto const& segment : m.segments) {
    Segment copy;
    copy.tolerance = segment.tolerance;
    bool intersects = false;
    for (auto const& p : segment.points) {
      if (p.t < begin) continue;
      intersects = true;
      if (p.t < end) copy.points.push_back(p);
    }
    if (seen && copy.points.empty()) break;
    seen = intersects;
    if (!copy.points.empty()) {
      copy.points.front().dropped.clear();
      copy.points.front().error = 0;
      copy.points.front().slack = 0;
    }
    copy.Restore();
    segments.push_back(copy);
  }
  result.model.segments = segments;
  REQUIRE((std::size_t)result.trajectory.segments().size() == segments.size(),
          "segments after reading: " << result.trajectory.segments().size() << " vs. "
          << segments.size());
  // The points, which may be slightly modified.
  bool modified = false;
  auto sit = result.trajectory.segments().begin();
  for (auto& segment : result.model.segments) {
    auto& points = segment.points;
    REQUIRE(sit->size() == (std::int64_t)points.size(), "size after reading: "
            << sit->size() << " vs. " << points.size());
    Real Δt = 0;
    for (std::size_t i = 1; i < points.size(); ++i) {
      Δt = std::max(Δt, (Real)points[i].t - points[i - 1].t);
    }
    std::vector<bool> changed(points.size());
    for (std::size_t i = 0; i < points.size(); ++i) {
      auto const& point = i + 1 == points.size() ? sit->back() : *(sit->begin() + i);
      REQUIRE(point.time == At(points[i].t), "time after reading");
      State const actual = Of(point.degrees_of_freedom);
      bool const is_exact =
          i == 0 || i + 1 == points.size() || !segment.tolerance.has_value() ||
          std::find(exact_times.begin(), exact_times.end(), points[i].t) !=
              exact_times.end();
      if (is_exact) {
        REQUIRE(actual == points[i].state, "exact point at " << points[i].t);
      } else {
        for (int c = 0; c < 3; ++c) {
          REQUIRE(std::abs(actual.q[c] - points[i].state.q[c]) <= *segment.tolerance,
                  "position after reading");
          REQUIRE(std::abs(actual.v[c] - points[i].state.v[c]) <=
                      *segment.tolerance / Δt * 1.000001L, "velocity after reading");
        }
        changed[i] = !(actual == points[i].state);
        points[i].state = actual;
      }
    }
    for (std::size_t i = 1; i < points.size(); ++i) {
      if (changed[i] || changed[i - 1]) {
        points[i].slack += 2.5L * *segment.tolerance;
        modified = true;
      }
    }
    ++sit;
  }
  // The tracked segments.
  for (std::size_t i = 0; i < tracked.size(); ++i) {
    std::size_t const k =
        std::min<std::size_t>(tracked_index[i], result.model.segments.size());
    REQUIRE(read_tracked[i] == Nth(result.trajectory, k), "tracked segment " << k);
    if (k < result.model.segments.size()) {
      result.held = read_tracked[i];
      result.held_index = k;
    }
  }
  ctx.label_if(modified, "inexact");
  return result;
}

void Merge(Slot& into, Slot from) {
  into.trajectory.Merge(std::move(from.trajectory));
  auto& target = into.model.segments;
  auto& source = from.model.segments;
  for (std::size_t i = 0; i < source.size(); ++i) {
    if (i >= target.size()) {
      target.push_back(source[i]);
      continue;
    }
    if (source[i].points.empty()) continue;
    if (target[i].points.empty()) {
      target[i] = source[i];
      continue;
    }
    bool const later = source[i].points.front().t >= target[i].points.back().t;
    Segment& first = later ? target[i] : source[i];
    Segment& second = later ? source[i] : target[i];
    Segment merged;
    merged.tolerance = second.tolerance;
    merged.points = first.points;
    for (auto const& p : second.points) {
      if (p.t > merged.points.back().t) merged.points.push_back(p);
    }
    merged.Restore();
    target[i] = merged;
  }
}

std::string Describe(Slot const& slot) {
  std::string result;
  for (auto const& s : slot.model.segments) {
    result += "|" + std::to_string(s.points.size());
  }
  return result;
}

void History(Src& s, Ctx& ctx) {
  std::vector<Slot> slots;
  slots.push_back({});
  Curve curve;
  curve.kind = s.below(3);
  curve.radius = s.real(10, 200);
  curve.ω = s.real(0.05, 1);
  curve.noise = s.coin() ? 0 : s.real(0, 1);
  curve.v0 = {s.sym(10), s.sym(10), s.sym(10)};
  int merges = 0, reads = 0, structure = 0, appended = 0;
  for (int n = 0; s.more(n, 3, 60, 25); ++n) {
    std::size_t const k = s.below(slots.size());
    Slot& slot = slots[k];
    Trajectory& t = slot.trajectory;
    Model& m = slot.model;
    auto const all = m.all();
    int const op = s.below(24);
    if (op < 10) {  // Append.
      int const count = s.range(1, 6);
      ctx.note() << "append(" << k << ", " << count << ") ";
      for (int i = 0; i < count; ++i) {
        double const time = m.empty() ? s.range(-40, 40) / 8.0
                                      : m.back().t + s.range(1, 12) / 8.0;
        Append(s, ctx, slot, time, curve.At(s, time));
        ++appended;
      }
    } else if (op == 10) {
      if (m.empty() ? m.segments.size() > 4 : m.segments.size() > 7) continue;
      ctx.note() << "new(" << k << ") ";
      auto const it = t.NewSegment();
      Segment segment;
      if (!m.empty()) segment.points.push_back({m.back().t, m.back().state});
      m.segments.push_back(segment);
      REQUIRE(it == std::prev(t.segments().end()), "new segment");
      if (s.coin()) {
        slot.held = it;
        slot.held_index = m.segments.size() - 1;
      }
      ++structure;
    } else if (op <= 12) {
      std::size_t const i = s.coin() ? m.segments.size() - 1 : s.below(m.segments.size());
      if (m.segments[i].points.size() > 1) continue;
      double const tolerance = s.real(0.01, 10);
      ctx.note() << "downsample(" << k << ", " << i << ", " << tolerance << ") ";
      Nth(t, i)->SetDownsampling({.tolerance = tolerance * Metre});
      m.segments[i].tolerance = tolerance;
      m.segments[i].error = 0;
    } else if (op == 13) {
      if (!s.chance(1, 4)) continue;
      std::size_t const i = s.below(m.segments.size());
      ctx.note() << "no_downsample(" << k << ", " << i << ") ";
      Nth(t, i)->ClearDownsampling();
      m.segments[i].tolerance.reset();
    } else if (op == 14) {  // Detach.
      if (m.segments.size() < 2 || slots.size() > 3) continue;
      std::size_t const i = s.range(1, m.segments.size() - 1);
      ctx.note() << "detach(" << k << ", " << i << ") ";
      if (slot.held_index >= (int)i) slot.Unhold();
      Slot detached{t.DetachSegments(Nth(t, i)), {}, {}};
      detached.model.segments.assign(m.segments.begin() + i, m.segments.end());
      m.segments.erase(m.segments.begin() + i, m.segments.end());
      slots.push_back(std::move(detached));
      ++structure;
    } else if (op == 15) {  // Attach.
      std::size_t const j = s.below(slots.size());
      if (j == k || slots[j].model.empty()) continue;
      Model& other = slots[j].model;
      if (m.empty()) {
        ctx.note() << "attach(" << k << ", " << j << ") ";
        slot.Unhold();
        m.segments = other.segments;
        auto const it = t.AttachSegments(std::move(slots[j].trajectory));
        REQUIRE(it == t.segments().begin(), "attached segment");
      } else {
        if (other.leading_empty() || other.front().t < m.back().t ||
            (other.front().t == m.back().t && !(other.front().state == m.back().state))) {
          continue;
        }
        ctx.note() << "attach(" << k << ", " << j << ") ";
        std::size_t const size = m.segments.size();
        if (other.front().t != m.back().t) {
          other.segments.front().points.insert(other.segments.front().points.begin(),
                                               {m.back().t, m.back().state});
        }
        m.segments.insert(m.segments.end(), other.segments.begin(), other.segments.end());
        auto const it = t.AttachSegments(std::move(slots[j].trajectory));
        REQUIRE(it == Nth(t, size), "attached segment");
      }
      ++structure;
      // The slot is gone.
      if (j != slots.size() - 1) slots[j] = std::move(slots.back());
      slots.pop_back();
      Check(s, slots[std::min(k, slots.size() - 1)]);
      continue;
    } else if (op == 16) {  // Delete.
      if (m.segments.size() < 2 || !s.coin()) continue;
      std::size_t const i = s.range(1, m.segments.size() - 1);
      ctx.note() << "delete(" << k << ", " << i << ") ";
      if (slot.held_index >= (int)i) slot.Unhold();
      auto it = Nth(t, i);
      t.DeleteSegments(it);
      REQUIRE(it == t.segments().end(), "iterator after deletion");
      m.segments.erase(m.segments.begin() + i, m.segments.end());
      ++structure;
    } else if (op == 17) {  // ForgetAfter.
      if (all.empty()) continue;
      double const time = s.coin() ? all[s.below(all.size())]->t
          : s.range((int)(8 * all.front()->t) - 3, (int)(8 * all.back()->t) + 3) / 8.0;
      ctx.note() << "forget_after(" << k << ", " << time << ") ";
      auto const it = t.find(At(time));
      if (it != t.end() && s.coin()) {
        t.ForgetAfter(it);
      } else {
        t.ForgetAfter(At(time));
      }
      if (time < all.front()->t) {
        m = Model();
      } else {
        // If the time is the first of a segment, that segment goes, but the last
        // point of the previous one stays.
        std::size_t first = 0;
        while (first < m.segments.size() &&
               (m.segments[first].points.empty() ||
                (m.segments[first].points.back().t < time) ||
                (m.segments[first].points.back().t == time &&
                 m.segments[first].points.front().t < time &&
                 first + 1 < m.segments.size()))) {
          ++first;
        }
        std::vector<Segment> segments(m.segments.begin(), m.segments.begin() + first);
        if (first < m.segments.size()) {
          Segment segment = m.segments[first];
          while (!segment.points.empty() && segment.points.back().t >= time) {
            segment.points.pop_back();
          }
          segment.Restore();
          if (!segment.points.empty() || segments.empty()) segments.push_back(segment);
        }
        m.segments = segments;
      }
      if (slot.held_index >= (int)m.segments.size()) slot.Unhold();
      ++structure;
    } else if (op == 18) {  // ForgetBefore.
      if (all.empty()) continue;
      double const time = s.coin() ? all[s.below(all.size())]->t
          : s.range((int)(8 * all.front()->t) - 3, (int)(8 * all.back()->t) + 3) / 8.0;
      ctx.note() << "forget_before(" << k << ", " << time << ") ";
      auto const it = t.find(At(time));
      if (it != t.end() && s.coin()) {
        t.ForgetBefore(it);
      } else {
        t.ForgetBefore(At(time));
      }
      for (auto& segment : m.segments) {
        auto& points = segment.points;
        std::size_t n = 0;
        while (n < points.size() && points[n].t < time) ++n;
        points.erase(points.begin(), points.begin() + n);
        if (!points.empty()) {
          points.front().dropped.clear();
          points.front().slack = 0;
          points.front().error = 0;
        }
      }
      ++structure;
    } else if (op == 19) {
      if (s.chance(1, 4)) {
        ctx.note() << "clear(" << k << ") ";
        if (s.coin() && !t.empty()) {
          t.ForgetBefore(t.end());
        } else {
          t.clear();
        }
        if (slot.held_index > 0) slot.Unhold();
        m = Model();
      } else {
        ctx.note() << "move(" << k << ") ";
        Trajectory moved = std::move(t);
        Trajectory other;
        if (s.coin()) {
          t = std::move(moved);
        } else {
          other = std::move(moved);
          t = std::move(other);
        }
      }
    } else if (op <= 21) {  // Serialization, to a new slot or the same.
      ++reads;
      bool const entire = s.coin();
      std::size_t from = 0, to = all.size();
      if (!entire && !all.empty()) {
        from = s.below(all.size());
        to = s.range(from + 1, all.size());
      }
      ctx.note() << "write(" << k << ", " << from << ", " << to << ") ";
      Slot read = WriteAndRead(s, ctx, slot, from, to, entire);
      if (s.coin() && slots.size() < 4) {
        slots.push_back(std::move(read));
        Check(s, slots.back());
        CheckDropped(slots.back());
        continue;
      }
      slot = std::move(read);
    } else {  // Split and merge.
      if (all.size() < 2) continue;
      ++merges;
      std::size_t const from = s.coin() ? 0 : s.below(all.size() - 1);
      std::size_t const to = s.range(from + 2, all.size());
      std::size_t const mid = s.range(from + 1, to - 1);
      bool const common = s.coin();
      bool const forward = s.coin();
      ctx.note() << "merge(" << k << ", " << from << ", " << mid << ", " << to << ", "
                 << common << ", " << forward << ") ";
      Slot first = WriteAndRead(s, ctx, slot, from, mid + common, false);
      Slot second = WriteAndRead(s, ctx, slot, mid, to, false);
      first.Unhold();
      second.Unhold();
      if (forward) {
        Merge(first, std::move(second));
        slot = std::move(first);
      } else {
        Merge(second, std::move(first));
        slot = std::move(second);
      }
    }
    Check(s, slots[k]);
    if (op >= 10) CheckDropped(slots[k]);
  }
  for (auto& slot : slots) {
    Check(s, slot);
    CheckDropped(slot);
  }
  ctx.label_if(merges > 0, "merged");
  ctx.label_if(reads > 0, "read");
  ctx.label_if(structure > 1, "structured");
  ctx.nontrivial(appended > 3 && structure + reads + merges > 1);
}

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"history", "histories of up to 60 operations on up to 4 trajectories; "
        "non-trivial if there are more than 3 points and 2 structural changes, "
        "serializations or merges", 40000, 800000, History}});
}
