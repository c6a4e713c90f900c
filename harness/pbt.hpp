// A small property-based-testing engine.
//
// A property is a function of a `Src` (the source of all random choices) and a
// `Ctx` (classification, description of the case).  Every generated value is
// derived from a sequence of integer choices recorded by the `Src`; shrinking
// and replay operate on that sequence, so they apply to any generator.  Cases
// run in forked workers, so that a crash, an abort or a hang of the code under
// test is a failure of the case that caused it, and not of the engine.  A case
// is a pure function of (VERIF_SEED, sub-property, index).
#pragma once

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <bit>
#include <cfloat>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pbt {

struct Failure {
  std::string key;
  std::string what;
};
struct Discard {};
// Thrown by the fatal-error handler of the logging shim.
struct FatalError {
  std::string what;
};

inline std::uint64_t Mix(std::uint64_t z) {
  z += 0x9e3779b97f4a7c15;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9;
  z = (z ^ (z >> 27)) * 0x94d049bb133111eb;
  return z ^ (z >> 31);
}

class Src {
 public:
  explicit Src(std::uint64_t seed) : random_(true), state_(seed) {}
  explicit Src(std::vector<std::uint64_t> script)
      : random_(false), script_(std::move(script)) {}

  // A choice in [0, n[; 0 is the simplest one.
  std::uint64_t below(std::uint64_t n) {
    if (n <= 1) {
      return 0;
    }
    std::uint64_t v;
    if (random_) {
      v = Next();
      if (n != 0) {
        v = static_cast<std::uint64_t>(
            (static_cast<unsigned __int128>(v) * n) >> 64);
      }
    } else {
      v = position_ < script_.size() ? script_[position_] : 0;
      ++position_;
      v %= n;
    }
    return Record(v);
  }
  std::uint64_t u64() {
    std::uint64_t v;
    if (random_) {
      v = Next();
    } else {
      v = position_ < script_.size() ? script_[position_] : 0;
      ++position_;
    }
    return Record(v);
  }

  std::int64_t range(std::int64_t lo, std::int64_t hi) {  // Inclusive.
    return lo + static_cast<std::int64_t>(
                    below(static_cast<std::uint64_t>(hi - lo) + 1));
  }
  // True with probability num/den; shrinks to false.
  bool chance(int num, int den) {
    return below(den) >= static_cast<std::uint64_t>(den - num);
  }
  bool coin() { return below(2) == 1; }
  // Loop control: `while (s.more(n, min, max, avg))`.
  bool more(std::int64_t n, std::int64_t min, std::int64_t max, int avg) {
    if (n < min) {
      return true;
    }
    if (n >= max) {
      return false;
    }
    return below(avg + 1) != 0;
  }

  // A size in [0, max], biased towards small values.
  std::int64_t size(std::int64_t max) {
    switch (below(4)) {
      case 0:
        return below(std::min<std::int64_t>(max, 4) + 1);
      case 1:
        return below(std::min<std::int64_t>(max, 20) + 1);
      default:
        return below(max + 1);
    }
  }

  double unit() {  // In [0, 1[.
    return static_cast<double>(below(std::uint64_t{1} << 53)) * 0x1p-53;
  }
  double real(double lo, double hi) {
    if (below(8) == 0) {
      return lo + (hi - lo) * (static_cast<double>(below(9)) / 8);
    }
    return lo + (hi - lo) * unit();
  }
  // A number in [-m, m]; often a small integer-like value.
  double sym(double m) {
    double const x = real(0, m);
    return coin() ? -x : x;
  }
  // Logarithmically distributed in [lo, hi], lo > 0.
  double log(double lo, double hi) {
    double const l = std::log(lo);
    double const h = std::log(hi);
    return std::min(hi, std::max(lo, std::exp(l + (h - l) * unit())));
  }
  double slog(double lo, double hi) {
    double const x = log(lo, hi);
    return coin() ? -x : x;
  }
  // A finite double of an arbitrary shape, with exponent in [emin, emax].
  double shaped(int emin = -1074, int emax = 1023) {
    double x;
    switch (below(8)) {
      case 0:
        x = static_cast<double>(below(17));
        break;
      case 1:  // Power of 2, and neighbours.
        x = std::ldexp(1.0, static_cast<int>(range(emin, emax)));
        x = Nudge(x, range(-3, 3));
        break;
      case 2:  // Few bits.
        x = std::ldexp(static_cast<double>(below(1 << 10)),
                       static_cast<int>(range(emin, std::max(emin, emax - 10))));
        break;
      case 3:  // Long runs of ones or zeroes in the mantissa.
      {
        std::uint64_t const a = below(53);
        std::uint64_t const b = below(53);
        std::uint64_t m = (std::uint64_t{1} << 52) |
                          ((std::uint64_t{1} << std::max(a, b)) -
                           (std::uint64_t{1} << std::min(a, b)));
        x = std::ldexp(static_cast<double>(m),
                       static_cast<int>(range(emin, emax)) - 52);
        break;
      }
      default:
        x = std::ldexp(1 + unit(), static_cast<int>(range(emin, emax)));
        break;
    }
    if (std::isinf(x)) {
      x = std::numeric_limits<double>::max();
    }
    return coin() ? -x : x;
  }
  static double Nudge(double x, std::int64_t n) {
    for (; n > 0; --n) x = std::nextafter(x, INFINITY);
    for (; n < 0; ++n) x = std::nextafter(x, -INFINITY);
    return x;
  }

  template<typename T>
  T pick(std::vector<T> const& v) {
    return v[below(v.size())];
  }
  template<typename T>
  T pick(std::initializer_list<T> v) {
    return *(v.begin() + below(v.size()));
  }

  std::vector<std::uint8_t> bytes(std::size_t n) {
    std::vector<std::uint8_t> r(n);
    switch (below(4)) {
      case 0: {
        // Few distinct values, compressible.
        std::uint8_t const a = below(256);
        std::uint8_t const b = below(256);
        for (auto& x : r) x = below(4) == 0 ? b : a;
        break;
      }
      default:
        for (auto& x : r) x = static_cast<std::uint8_t>(below(256));
    }
    return r;
  }

  // Copies the choices to memory shared with the engine, so that they survive a
  // crash.
  void Mirror(std::uint64_t volatile* m, std::uint64_t capacity) {
    mirror_ = m;
    mirror_capacity_ = capacity;
    if (m != nullptr) m[0] = 0;
  }

  std::vector<std::uint64_t> const& record() const { return record_; }
  std::uint64_t hash() const {
    std::uint64_t h = 0x12345;
    for (auto const c : record_) h = Mix(h ^ c);
    return h;
  }

 private:
  std::uint64_t Next() {
    state_ += 0x9e3779b97f4a7c15;
    std::uint64_t z = state_;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9;
    z = (z ^ (z >> 27)) * 0x94d049bb133111eb;
    return z ^ (z >> 31);
  }
  std::uint64_t Record(std::uint64_t v) {
    if (record_.size() > (1u << 22)) {
      throw Discard{};
    }
    record_.push_back(v);
    if (mirror_ != nullptr && record_.size() < mirror_capacity_) {
      mirror_[record_.size()] = v;
      mirror_[0] = record_.size();
    }
    return v;
  }

  bool random_;
  std::uint64_t state_ = 0;
  std::vector<std::uint64_t> script_;
  std::size_t position_ = 0;
  std::vector<std::uint64_t> record_;
  std::uint64_t volatile* mirror_ = nullptr;
  std::uint64_t mirror_capacity_ = 0;
};

class Ctx {
 public:
  // Marks the case as non-trivial.
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void label(std::string const& l) { labels_.insert(l); }
  void label_if(bool b, std::string const& l) { if (b) label(l); }
  // Records that the case exhibits a known finding.
  void known(std::string const& id, std::string const& what) {
    label("known:" + id + "|" + what);
  }
  // Text describing the case, for failures and samples.
  std::ostream& note() { return note_; }
  std::string text() const { return note_.str(); }
  bool is_nontrivial() const { return nontrivial_; }
  std::set<std::string> const& labels() const { return labels_; }
  // Extra assertions evaluated, for statistics.
  void count(std::int64_t n = 1) { assertions_ += n; }
  std::int64_t assertions() const { return assertions_; }

 private:
  bool nontrivial_ = false;
  std::set<std::string> labels_;
  std::ostringstream note_;
  std::int64_t assertions_ = 0;
};

using Property = std::function<void(Src&, Ctx&)>;

struct Sub {
  std::string name;
  std::string rule;  // How cases are made and which are non-trivial.
  std::int64_t quick;
  std::int64_t thorough;
  Property property;
  // A case that runs for longer than this many seconds hangs.
  int hang_s = 120;
  // How many times the failing case is re-run; it is confirmed if it fails at
  // least `confirm` times.  For deterministic properties, every one of 3.
  int replays = 3;
  int confirm = 3;
  // If true, the outcome depends on the schedule of the threads, so a failure
  // need not happen again to be believed, unless it is a lack of progress,
  // which a loaded machine may cause.
  bool racy = false;
};

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
// REQUIRE(condition, message...) where the messages are streamed.
#define REQUIRE(cond, ...)                                           \
  do {                                                               \
    if (!(cond)) [[unlikely]] {                                      \
      std::ostringstream pbt_os;                                     \
      pbt_os << std::setprecision(17) << "not (" #cond ") at line "  \
             << __LINE__ << ": " __VA_OPT__(<<) __VA_ARGS__;         \
      throw ::pbt::Failure{std::string(#cond), pbt_os.str()};        \
    }                                                                \
  } while (false)

// Runs `f`, returns true if it hit a CHECK failure or LOG(FATAL).
template<typename F>
bool is_fatal(F&& f) {
  try {
    f();
    return false;
  } catch (FatalError const&) {
    return true;
  }
}

// ---------------------------------------------------------------- Execution.

struct Outcome {
  enum Kind : int { Ok = 0, Failed = 1, Crashed = 2, Hung = 3, Discarded = 4 };
  Kind kind = Ok;
  std::string key;
  std::string what;
  std::string text;
  std::vector<std::uint64_t> record;
  bool bad() const { return kind == Failed || kind == Crashed || kind == Hung; }
};

inline Outcome RunCase(Sub const& sub, Src& src, Ctx& ctx) {
  Outcome o;
  try {
    sub.property(src, ctx);
  } catch (Discard const&) {
    o.kind = Outcome::Discarded;
  } catch (Failure const& f) {
    o.kind = Outcome::Failed;
    o.key = f.key;
    o.what = f.what;
  } catch (FatalError const& f) {
    o.kind = Outcome::Failed;
    o.key = "fatal";
    o.what = "unexpected fatal error in the code under test: " + f.what;
  } catch (std::exception const& e) {
    o.kind = Outcome::Failed;
    o.key = "exception";
    o.what = std::string("unexpected exception: ") + e.what();
  }
  o.text = ctx.text();
  o.record = src.record();
  return o;
}

inline void WriteAll(int fd, void const* p, std::size_t n) {
  auto c = static_cast<char const*>(p);
  while (n > 0) {
    ssize_t const w = ::write(fd, c, n);
    if (w <= 0) {
      if (w < 0 && errno == EINTR) continue;
      _exit(99);
    }
    c += w;
    n -= w;
  }
}
inline void WriteString(int fd, std::string const& s) {
  std::uint64_t const n = s.size();
  WriteAll(fd, &n, 8);
  WriteAll(fd, s.data(), n);
}
inline bool ReadAll(int fd, void* p, std::size_t n) {
  auto c = static_cast<char*>(p);
  while (n > 0) {
    ssize_t const r = ::read(fd, c, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) return false;
    c += r;
    n -= r;
  }
  return true;
}
inline bool ReadString(int fd, std::string& s) {
  std::uint64_t n;
  if (!ReadAll(fd, &n, 8) || n > (1u << 30)) return false;
  s.resize(n);
  return ReadAll(fd, s.data(), n);
}

inline void WriteOutcome(int fd, Outcome const& o) {
  int const k = o.kind;
  WriteAll(fd, &k, 4);
  WriteString(fd, o.key);
  WriteString(fd, o.what.substr(0, 1 << 16));
  WriteString(fd, o.text.substr(0, 1 << 16));
  WriteString(fd, std::string(reinterpret_cast<char const*>(o.record.data()),
                              o.record.size() * 8));
}
inline bool ReadOutcome(int fd, Outcome& o) {
  int k;
  std::string r;
  if (!ReadAll(fd, &k, 4) || !ReadString(fd, o.key) || !ReadString(fd, o.what) ||
      !ReadString(fd, o.text) || !ReadString(fd, r)) {
    return false;
  }
  o.kind = static_cast<Outcome::Kind>(k);
  o.record.resize(r.size() / 8);
  std::memcpy(o.record.data(), r.data(), r.size());
  return true;
}

inline double Now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

inline void QuietChild() {
  // The output of the code under test is not of interest.
  int const null = ::open("/dev/null", O_WRONLY);
  if (std::getenv("PBT_VERBOSE") == nullptr) {
    ::dup2(null, 1);
    ::dup2(null, 2);
  }
  ::rlimit const no_core{0, 0};
  ::setrlimit(RLIMIT_CORE, &no_core);
}

// Runs one case in a forked process.
inline Outcome RunForked(Sub const& sub, std::vector<std::uint64_t> const& script,
                         double const limit_s) {
  int fds[2];
  if (::pipe(fds) != 0) std::abort();
  std::fflush(nullptr);
  pid_t const pid = ::fork();
  if (pid == 0) {
    ::close(fds[0]);
    ::setpgid(0, 0);
    QuietChild();
    Src src(script);
    Ctx ctx;
    Outcome const o = RunCase(sub, src, ctx);
    WriteOutcome(fds[1], o);
    _exit(0);
  }
  ::close(fds[1]);
  Outcome o;
  double const start = Now();
  ::pollfd p{fds[0], POLLIN, 0};
  int r;
  do {
    double const left = limit_s - (Now() - start);
    r = ::poll(&p, 1, std::max(0, static_cast<int>(left * 1000)));
  } while (r < 0 && errno == EINTR);
  bool got = false;
  if (r > 0) {
    got = ReadOutcome(fds[0], o);
  } else {
    ::kill(pid, SIGKILL);
  }
  ::close(fds[0]);
  int status;
  ::waitpid(pid, &status, 0);
  if (r <= 0) {
    o = Outcome{};
    o.kind = Outcome::Hung;
    o.key = "hang";
    o.what = "no result within " + std::to_string(limit_s) + " s";
    o.record = script;
  } else if (!got) {
    o = Outcome{};
    o.kind = Outcome::Crashed;
    o.key = "crash";
    o.what = WIFSIGNALED(status)
                 ? "killed by signal " + std::to_string(WTERMSIG(status))
                 : "exited with status " +
                       std::to_string(WEXITSTATUS(status));
    o.record = script;
  }
  return o;
}

// Shrinks `o` within the given limits.
inline Outcome Shrink(Sub const& sub, Outcome best, double const budget_s,
                      std::int64_t& attempts) {
  double const start = Now();
  double const limit =
      best.kind == Outcome::Hung ? sub.hang_s : std::min(sub.hang_s, 30);
  auto const out_of_budget = [&] {
    return Now() - start > budget_s || attempts > 5000;
  };
  auto const try_it = [&](std::vector<std::uint64_t> const& c) {
    if (out_of_budget()) return false;
    ++attempts;
    Outcome const o = RunForked(sub, c, limit);
    if (o.bad() && o.kind == best.kind) {
      auto rec = o.record;
      // Trailing zeroes are implicit.
      while (!rec.empty() && rec.back() == 0) rec.pop_back();
      if (rec.size() < best.record.size() ||
          (rec.size() == best.record.size() && rec < best.record) ||
          (c.size() <= best.record.size() && rec.size() <= c.size())) {
        best = o;
        best.record = rec;
        return true;
      }
    }
    return false;
  };
  bool progress = true;
  while (progress && !out_of_budget()) {
    progress = false;
    // Delete chunks.
    for (std::size_t k = std::max<std::size_t>(1, best.record.size() / 2);
         k >= 1 && !out_of_budget();
         k /= 2) {
      for (std::size_t i = 0; i + k <= best.record.size() && !out_of_budget();) {
        auto c = best.record;
        c.erase(c.begin() + i, c.begin() + i + k);
        if (try_it(c)) {
          progress = true;
        } else {
          i += k;
        }
      }
    }
    // Zero chunks.
    for (std::size_t k = std::max<std::size_t>(1, best.record.size() / 2);
         k >= 1 && !out_of_budget();
         k /= 2) {
      for (std::size_t i = 0; i + k <= best.record.size() && !out_of_budget();
           i += k) {
        auto c = best.record;
        bool zero = true;
        for (std::size_t j = i; j < i + k; ++j) {
          zero = zero && c[j] == 0;
          c[j] = 0;
        }
        if (!zero && try_it(c)) {
          progress = true;
        }
      }
    }
    // Decrease values.
    for (std::size_t i = 0; i < best.record.size() && !out_of_budget(); ++i) {
      std::uint64_t lo = 0;
      while (i < best.record.size() && lo < best.record[i] &&
             !out_of_budget()) {
        std::uint64_t const mid = lo + (best.record[i] - lo) / 2;
        auto c = best.record;
        c[i] = mid;
        if (try_it(c)) {
          progress = true;
        } else {
          lo = mid + 1;
        }
      }
    }
  }
  return best;
}

inline std::string JsonEscape(std::string const& s) {
  std::ostringstream os;
  for (unsigned char const c : s) {
    if (c == '"' || c == '\\') {
      os << '\\' << c;
    } else if (c == '\n') {
      os << "\\n";
    } else if (c < 32 || c == 127) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      os << b;
    } else {
      os << c;
    }
  }
  return os.str();
}

// ------------------------------------------------------------------- Driver.

struct SubStats {
  std::int64_t evaluations = 0;
  std::int64_t discarded = 0;
  std::int64_t assertions = 0;
  std::map<std::string, std::int64_t> labels;
  std::unordered_set<std::uint64_t> nontrivial;
  std::vector<std::string> samples;
  std::vector<Outcome> failures;
  std::int64_t skipped = 0;  // Not run, because of the time budget.
};

struct Slot {  // Shared with a worker.
  std::int64_t sub;
  std::int64_t index;
  double case_start;
  std::int64_t phase;  // 1: in a case.
};

constexpr std::uint64_t mirror_capacity = 1 << 20;

inline std::uint64_t CaseSeed(std::uint64_t seed, std::string const& sub,
                              std::int64_t index) {
  std::uint64_t h = Mix(seed);
  for (unsigned char const c : sub) h = Mix(h ^ c);
  return Mix(h ^ Mix(index));
}

inline void WorkerMain(std::vector<Sub> const& subs,
                       std::vector<std::int64_t> const& counts,
                       std::uint64_t seed, int w, int workers,
                       std::int64_t first_sub, std::int64_t first_index,
                       Slot* slot, std::uint64_t volatile* mirror,
                       std::int64_t volatile* failed, double deadline,
                       int fd) {
  for (std::int64_t s = first_sub; s < static_cast<std::int64_t>(subs.size());
       ++s) {
    std::int64_t i = s == first_sub && first_index >= 0 ? first_index : w;
    std::int64_t evaluations = 0, discarded = 0, assertions = 0, skipped = 0;
    std::map<std::string, std::int64_t> labels;
    std::vector<std::uint64_t> hashes;
    std::vector<std::string> samples;
    std::vector<Outcome> failures;
    for (; i < counts[s]; i += workers) {
      if (failed[s] != 0) break;
      if (Now() > deadline) {
        skipped += (counts[s] - i + workers - 1) / workers;
        break;
      }
      Src src(CaseSeed(seed, subs[s].name, i));
      src.Mirror(mirror, mirror_capacity);
      Ctx ctx;
      slot->sub = s;
      slot->index = i;
      slot->case_start = Now();
      slot->phase = 1;
      Outcome o = RunCase(subs[s], src, ctx);
      slot->phase = 0;
      ++evaluations;
      assertions += ctx.assertions();
      if (o.kind == Outcome::Discarded) {
        ++discarded;
        continue;
      }
      if (o.bad()) {
        failed[s] = 1;
        failures.push_back(std::move(o));
        break;
      }
      for (auto const& l : ctx.labels()) ++labels[l];
      if (ctx.is_nontrivial()) {
        hashes.push_back(src.hash());
        if (samples.size() < 1 && !o.text.empty()) {
          samples.push_back(o.text.substr(0, 600));
        }
      }
    }
    // Report.
    int const tag = static_cast<int>(s);
    WriteAll(fd, &tag, 4);
    std::int64_t const n[] = {evaluations, discarded, assertions, skipped,
                              static_cast<std::int64_t>(labels.size()),
                              static_cast<std::int64_t>(hashes.size()),
                              static_cast<std::int64_t>(samples.size()),
                              static_cast<std::int64_t>(failures.size())};
    WriteAll(fd, n, sizeof n);
    for (auto const& [l, c] : labels) {
      WriteString(fd, l);
      WriteAll(fd, &c, 8);
    }
    WriteAll(fd, hashes.data(), hashes.size() * 8);
    for (auto const& t : samples) WriteString(fd, t);
    for (auto const& f : failures) WriteOutcome(fd, f);
  }
}

inline bool ReadReport(int fd, std::vector<SubStats>& stats) {
  int tag;
  if (!ReadAll(fd, &tag, 4)) return false;
  std::int64_t n[8];
  if (!ReadAll(fd, n, sizeof n)) return false;
  SubStats& s = stats[tag];
  s.evaluations += n[0];
  s.discarded += n[1];
  s.assertions += n[2];
  s.skipped += n[3];
  for (std::int64_t i = 0; i < n[4]; ++i) {
    std::string l;
    std::int64_t c;
    if (!ReadString(fd, l) || !ReadAll(fd, &c, 8)) return false;
    s.labels[l] += c;
  }
  std::vector<std::uint64_t> h(n[5]);
  if (!ReadAll(fd, h.data(), h.size() * 8)) return false;
  s.nontrivial.insert(h.begin(), h.end());
  for (std::int64_t i = 0; i < n[6]; ++i) {
    std::string t;
    if (!ReadString(fd, t)) return false;
    if (s.samples.size() < 2) s.samples.push_back(t);
  }
  for (std::int64_t i = 0; i < n[7]; ++i) {
    Outcome o;
    if (!ReadOutcome(fd, o)) return false;
    s.failures.push_back(o);
  }
  return true;
}

inline int ReplayMain(std::vector<Sub> const& subs, char const* path) {
  std::ifstream in(path);
  std::string sub_name, line;
  std::vector<std::uint64_t> script;
  while (std::getline(in, line)) {
    if (line.rfind("sub ", 0) == 0) sub_name = line.substr(4);
    if (line.rfind("choices", 0) == 0) {
      std::istringstream is(line.substr(7));
      std::uint64_t v;
      while (is >> v) script.push_back(v);
    }
  }
  for (auto const& sub : subs) {
    if (sub.name == sub_name) {
      Src src(script);
      Ctx ctx;
      Outcome const o = RunCase(sub, src, ctx);
      std::cout << "case: " << o.text << "\n";
      if (o.bad()) {
        std::cout << "FAILED [" << o.key << "] " << o.what << "\n";
        return 1;
      }
      std::cout << "passed\n";
      return 0;
    }
  }
  std::cout << "unknown sub-property " << sub_name << "\n";
  return 2;
}

// Usage: binary [--seed N] [--tier quick|thorough] [--only SUB] [--scale X]
//               [--replays DIR] [--out FILE.json] [--replay FILE]
// Exits with 0 if no sub-property failed, 1 if one did, 3 on an internal error.
inline int Main(int argc, char** argv, std::vector<Sub> const& subs) {
  std::uint64_t seed = 1;
  std::string tier = "quick", only, out, replays = ".";
  double scale = 1, budget_s = 0;
  int workers = 8;
  for (int i = 1; i < argc; ++i) {
    std::string const a = argv[i];
    auto const next = [&] { return std::string(argv[++i]); };
    if (a == "--seed") seed = std::stoull(next());
    else if (a == "--tier") tier = next();
    else if (a == "--only") only = next();
    else if (a == "--scale") scale = std::stod(next());
    else if (a == "--out") out = next();
    else if (a == "--replays") replays = next();
    else if (a == "--workers") workers = std::stoi(next());
    else if (a == "--budget") budget_s = std::stod(next());
    else if (a == "--replay") return ReplayMain(subs, argv[++i]);
    else { std::cerr << "bad argument " << a << "\n"; return 3; }
  }
  if (budget_s == 0) budget_s = tier == "quick" ? 300 : 6000;
  ::signal(SIGPIPE, SIG_IGN);

  std::vector<std::int64_t> counts;
  for (auto const& sub : subs) {
    std::int64_t n = tier == "quick" ? sub.quick : sub.thorough;
    n = std::max<std::int64_t>(1, static_cast<std::int64_t>(n * scale));
    if (!only.empty()) {
      bool selected = false;
      std::istringstream is(only);
      for (std::string p; std::getline(is, p, ',');) {
        selected = selected || sub.name.rfind(p, 0) == 0;
      }
      if (!selected) n = 0;
    }
    counts.push_back(n);
  }
  std::vector<SubStats> stats(subs.size());

  double const start = Now();
  double const deadline = start + budget_s;
  auto* const shared = static_cast<char*>(
      ::mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE,
             MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  auto* const slots = reinterpret_cast<Slot*>(shared);
  auto* const failed = reinterpret_cast<std::int64_t volatile*>(
      shared + workers * sizeof(Slot));

  auto* const mirrors = static_cast<std::uint64_t volatile*>(
      ::mmap(nullptr, workers * mirror_capacity * 8, PROT_READ | PROT_WRITE,
             MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));

  struct Worker {
    pid_t pid = -1;
    int fd = -1;
    bool done = false;
  };
  std::vector<Worker> ws(workers);
  auto const spawn = [&](int w, std::int64_t first_sub,
                         std::int64_t first_index) {
    int fds[2];
    if (::pipe(fds) != 0) std::abort();
    std::fflush(nullptr);
    slots[w].phase = 0;
    pid_t const pid = ::fork();
    if (pid == 0) {
      ::close(fds[0]);
      QuietChild();
      WorkerMain(subs, counts, seed, w, workers, first_sub, first_index,
                 &slots[w], mirrors + w * mirror_capacity, failed, deadline,
                 fds[1]);
      _exit(0);
    }
    ::close(fds[1]);
    ws[w] = {pid, fds[0], false};
  };
  for (int w = 0; w < workers; ++w) spawn(w, 0, -1);

  auto const record_abnormal = [&](int w, Outcome::Kind kind,
                                   std::string const& what) {
    std::int64_t const s = slots[w].sub;
    Outcome o;
    o.kind = kind;
    o.key = kind == Outcome::Hung ? "hang" : "crash";
    o.what = what + " in case " + std::to_string(slots[w].index);
    auto const* const m = mirrors + w * mirror_capacity;
    for (std::uint64_t k = 1; k <= m[0]; ++k) {
      std::uint64_t const v = m[k];
      o.record.push_back(v);
    }
    stats[s].failures.push_back(o);
    failed[s] = 1;
  };

  for (;;) {
    std::vector<::pollfd> ps;
    std::vector<int> idx;
    for (int w = 0; w < workers; ++w) {
      if (!ws[w].done) {
        ps.push_back({ws[w].fd, POLLIN, 0});
        idx.push_back(w);
      }
    }
    if (ps.empty()) break;
    ::poll(ps.data(), ps.size(), 1000);
    for (std::size_t k = 0; k < ps.size(); ++k) {
      int const w = idx[k];
      if (ps[k].revents & (POLLIN | POLLHUP)) {
        if (!ReadReport(ws[w].fd, stats)) {
          ::close(ws[w].fd);
          int status;
          ::waitpid(ws[w].pid, &status, 0);
          ws[w].done = true;
          if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
            if (slots[w].phase != 1) {
              std::cerr << "internal error: a worker died outside a case\n";
              return 3;
            }
            record_abnormal(
                w, Outcome::Crashed,
                WIFSIGNALED(status)
                    ? "killed by signal " + std::to_string(WTERMSIG(status))
                    : "exited with status " +
                          std::to_string(WEXITSTATUS(status)));
            if (slots[w].sub + 1 < static_cast<std::int64_t>(subs.size())) {
              spawn(w, slots[w].sub + 1, -1);
            }
          }
          continue;
        }
      }
    }
    for (int w = 0; w < workers; ++w) {
      if (!ws[w].done && slots[w].phase == 1 &&
          Now() - slots[w].case_start > subs[slots[w].sub].hang_s) {
        ::kill(ws[w].pid, SIGKILL);
        int status;
        ::waitpid(ws[w].pid, &status, 0);
        ::close(ws[w].fd);
        ws[w].done = true;
        record_abnormal(w, Outcome::Hung, "hang");
        if (slots[w].sub + 1 < static_cast<std::int64_t>(subs.size())) {
          spawn(w, slots[w].sub + 1, -1);
        }
      }
    }
  }

  // Confirm and shrink failures.
  int violations = 0;
  std::ostringstream vio;
  for (std::size_t s = 0; s < subs.size(); ++s) {
    if (stats[s].failures.empty()) continue;
    Sub const& sub = subs[s];
    // Prefer the shortest proper failure.
    std::sort(stats[s].failures.begin(), stats[s].failures.end(),
              [](Outcome const& a, Outcome const& b) {
                if (a.kind != b.kind) return a.kind < b.kind;
                return a.record.size() < b.record.size();
              });
    Outcome first = stats[s].failures.front();
    int bad = 0;
    Outcome last = first;
    bool const believed =
        sub.racy && first.kind != Outcome::Hung &&
        first.what.find("did not happen") == std::string::npos;
    for (int r = 0; r < sub.replays && !believed; ++r) {
      Outcome const o = RunForked(sub, first.record, sub.hang_s);
      if (o.bad()) {
        ++bad;
        last = o;
      }
      if (sub.confirm < sub.replays && bad >= sub.confirm) break;
    }
    if (bad < sub.confirm && !believed) {
      std::cout << "UNCONFIRMED sub=" << sub.name << " failed once, then "
                << bad << " of " << sub.replays
                << " times: " << first.what << "\n";
      continue;
    }
    std::int64_t attempts = 0;
    Outcome best = first;
    if (sub.confirm == sub.replays && !sub.racy) {
      best = Shrink(sub, last, tier == "quick" ? 30 : 120, attempts);
      // Confirm the shrunk case.
      int b = 0;
      for (int r = 0; r < 3; ++r) {
        Outcome const o = RunForked(sub, best.record, sub.hang_s);
        if (o.bad()) { ++b; best.what = o.what; best.text = o.text; }
      }
      if (b < 3) best = first;
    }
    ++violations;
    std::string const file =
        replays + "/" + sub.name + "." + std::to_string(seed) + ".replay";
    {
      std::ofstream f(file);
      f << "sub " << sub.name << "\n";
      f << "choices";
      for (auto const c : best.record) f << " " << c;
      f << "\n";
      std::istringstream is("key " + best.key + "\n" + best.what + "\ncase: " +
                            best.text);
      for (std::string l; std::getline(is, l);) f << "# " << l << "\n";
    }
    std::cout << "FAILED sub=" << sub.name << " replay=" << file << " ("
              << attempts << " shrinking attempts)\n  [" << best.key << "] "
              << best.what.substr(0, 2000) << "\n  case: "
              << best.text.substr(0, 2000) << "\n";
    if (violations > 1) vio << ",";
    vio << "{\"sub\":\"" << JsonEscape(sub.name) << "\",\"replay\":\""
        << JsonEscape(file) << "\",\"key\":\"" << JsonEscape(best.key)
        << "\",\"what\":\"" << JsonEscape(best.what.substr(0, 2000))
        << "\",\"case\":\"" << JsonEscape(best.text.substr(0, 2000)) << "\"}";
  }

  double const wall = Now() - start;
  std::ostringstream js;
  js << "{\"seed\":" << seed << ",\"tier\":\"" << tier << "\",\"wall_s\":" << wall
     << ",\"violations\":[" << vio.str() << "],\"subs\":[";
  bool comma = false;
  for (std::size_t s = 0; s < subs.size(); ++s) {
    if (counts[s] == 0) continue;
    auto const& st = stats[s];
    if (comma) js << ",";
    comma = true;
    js << "{\"name\":\"" << JsonEscape(subs[s].name) << "\",\"rule\":\""
       << JsonEscape(subs[s].rule) << "\",\"evaluations\":" << st.evaluations
       << ",\"planned\":" << counts[s] << ",\"discarded\":" << st.discarded
       << ",\"skipped\":" << st.skipped << ",\"assertions\":" << st.assertions
       << ",\"distinct_nontrivial\":" << st.nontrivial.size()
       << ",\"labels\":{";
    bool lc = false;
    for (auto const& [l, c] : st.labels) {
      if (lc) js << ",";
      lc = true;
      js << "\"" << JsonEscape(l) << "\":" << c;
    }
    js << "},\"samples\":[";
    for (std::size_t k = 0; k < st.samples.size(); ++k) {
      if (k > 0) js << ",";
      js << "\"" << JsonEscape(st.samples[k]) << "\"";
    }
    js << "]}";
    std::cout << "  " << subs[s].name << ": " << st.evaluations << "/"
              << counts[s] << " cases, " << st.nontrivial.size()
              << " distinct non-trivial, " << st.discarded << " discarded";
    for (auto const& [l, c] : st.labels) std::cout << ", " << l << "=" << c;
    std::cout << "\n";
  }
  js << "],\"known\":[";
  comma = false;
  for (auto const& st : stats) {
    for (auto const& [l, c] : st.labels) {
      if (l.rfind("known:", 0) == 0) {
        auto const bar = l.find('|');
        js << (comma ? "," : "") << "{\"id\":\""
           << JsonEscape(l.substr(6, bar - 6)) << "\",\"what\":\""
           << JsonEscape(l.substr(bar + 1)) << "\"}";
        comma = true;
      }
    }
  }
  js << "]}\n";
  if (!out.empty()) {
    std::ofstream(out) << js.str();
  }
  std::cout << "wall " << wall << " s\n";
  return violations > 0 ? 1 : 0;
}

}  // namespace pbt
