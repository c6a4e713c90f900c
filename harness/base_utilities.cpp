// P04: the utilities of `base` against reference models.

#include <array>
#include <cpuid.h>
#include <fstream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unistd.h>
#include <vector>

#include "base/array.hpp"
#include "base/bits.hpp"
#include "base/constant_function.hpp"
#include "base/cpuid.hpp"
#include "base/disjoint_sets.hpp"
#include "base/flags.hpp"
#include "base/for_all_of.hpp"
#include "base/function.hpp"
#include "base/get_line.hpp"
#include "base/malloc_allocator.hpp"
#include "base/map_util.hpp"
#include "base/mod.hpp"
#include "base/monostable.hpp"
#include "base/not_null.hpp"
#include "base/optional_serialization.hpp"
#include "base/ranges.hpp"
#include "base/status_utilities.hpp"
#include "base/traits.hpp"
#include "base/unique_ptr_logging.hpp"
#include "absl/container/flat_hash_map.h"
#include "fatal.hpp"
#include "pbt.hpp"

namespace principia {
namespace base {

using namespace principia::base::_array;
using namespace principia::base::_bits;
using namespace principia::base::_constant_function;
using namespace principia::base::_cpuid;
using namespace principia::base::_disjoint_sets;
using namespace principia::base::_flags;
using namespace principia::base::_for_all_of;
using namespace principia::base::_function;
using namespace principia::base::_get_line;
using namespace principia::base::_malloc_allocator;
using namespace principia::base::_map_util;
using namespace principia::base::_mod;
using namespace principia::base::_monostable;
using namespace principia::base::_not_null;
using namespace principia::base::_ranges;
using namespace principia::base::_traits;
using pbt::Ctx;
using pbt::Src;

struct Element;

template<>
class Subset<Element>::Properties final {
 public:
  explicit Properties(int const i) : members({i}), sum(i) {}

  void MergeWith(Properties& other) {
    members.insert(other.members.begin(), other.members.end());
    sum += other.sum;
    merged_into = other.merged_into + 1;
    other.members.clear();
    other.sum = -1;
  }

  std::set<int> members;
  int sum = 0;
  int merged_into = 0;
};

struct Element {
  Subset<Element>::Node node;
};

template<>
inline not_null<Subset<Element>::Node*> Subset<Element>::Node::Get(
    Element& e) {
  return &e.node;
}

namespace {

void DisjointSets(Src& s, Ctx& c) {
  int const n = 1 + s.size(60);
  std::vector<Element> elements(n);
  std::vector<int> model(n);
  for (int i = 0; i < n; ++i) {
    Subset<Element>::MakeSingleton(elements[i], i);
    model[i] = i;
  }
  int const ops = s.size(120);
  int unions = 0;
  c.note() << n << " elements";
  for (int k = 0; k < ops; ++k) {
    int const a = s.below(n);
    int const b = s.below(n);
    auto const left = Subset<Element>::Find(elements[a]);
    auto const right = Subset<Element>::Find(elements[b]);
    REQUIRE((left == right) == (model[a] == model[b]), "membership");
    if (s.chance(3, 4)) {
      c.note() << " " << a << "+" << b;
      auto const united = Subset<Element>::Unite(left, right);
      int const from = model[b];
      int const to = model[a];
      for (int& m : model) {
        if (m == from) m = to;
      }
      if (from != to) ++unions;
      REQUIRE(united == Subset<Element>::Find(elements[a]));
      REQUIRE(united == Subset<Element>::Find(elements[b]));
    }
    int const e = s.below(n);
    std::set<int> expected;
    int sum = 0;
    for (int i = 0; i < n; ++i) {
      if (model[i] == model[e]) {
        expected.insert(i);
        sum += i;
      }
    }
    auto subset = Subset<Element>::Find(elements[e]);
    REQUIRE(subset.properties().members == expected, "members");
    REQUIRE(subset.properties().sum == sum, "sum of the members");
    REQUIRE(&subset.mutable_properties() == &subset.properties());
  }
  // The partition, exhaustively.
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      REQUIRE((Subset<Element>::Find(elements[i]) ==
               Subset<Element>::Find(elements[j])) == (model[i] == model[j]),
              i << " and " << j);
    }
  }
  // Back to singletons.
  for (int i = 0; i < n; ++i) {
    Subset<Element>::MakeSingleton(elements[i], i);
  }
  for (int i = 0; i < n; ++i) {
    REQUIRE(Subset<Element>::Find(elements[i]).properties().members ==
            std::set<int>{i}, "singleton");
  }
  c.nontrivial(unions > 1);
}

void Lines(Src& s, Ctx& c) {
  // Lines whose lengths are close to the sizes of the buffers, in a file with
  // or without a final newline.
  int const n = s.size(8);
  std::vector<std::string> lines;
  bool longish = false;
  for (int i = 0; i < n; ++i) {
    std::int64_t length = 0;
    switch (s.below(4)) {
      case 0: length = s.below(10); break;
      case 1: length = 195 + s.below(10); break;
      case 2: {
        static constexpr std::array<int, 6> sums{198, 199, 597, 598, 1396, 1397};
        length = sums[s.below(6)] + s.below(4);
        break;
      }
      case 3: length = s.below(5000); break;
    }
    std::string line;
    char const x = 'a' + s.below(26);
    for (std::int64_t j = 0; j < length; ++j) line += x + (j % 3);
    longish |= length > 190;
    lines.push_back(line);
    c.note() << length << " ";
  }
  bool const final_newline = s.coin();
  std::string const path =
      "/tmp/verif_lines." + std::to_string(getpid()) + ".txt";
  {
    std::ofstream f(path, std::ios::binary);
    for (int i = 0; i < n; ++i) {
      f << lines[i];
      if (i + 1 < n || final_newline) f << "\n";
    }
  }
  std::ifstream stream(path);
  std::vector<std::string> actual;
  while (!stream.eof()) {
    actual.push_back(GetLine(stream));
    if (actual.size() > lines.size() + 5) break;
  }
  unlink(path.c_str());
  auto expected = lines;
  if (n == 0 || final_newline) expected.push_back("");
  REQUIRE(actual.size() == expected.size(),
          actual.size() << " lines instead of " << expected.size());
  for (std::size_t i = 0; i < actual.size(); ++i) {
    REQUIRE(actual[i] == expected[i], "line " << i << " of length "
                << expected[i].size() << " read with length "
                << actual[i].size());
  }
  c.nontrivial(longish);
}

struct alignas(64) Aligned {
  double x[8];
};

template<typename T>
void AllocatorOf(Src& s, std::size_t const max) {
  MallocAllocator<T> a;
  struct Block {
    T* p;
    std::size_t n;
    unsigned char fill;
  };
  std::vector<Block> blocks;
  auto const check = [](Block const& b) {
    auto const* p = reinterpret_cast<unsigned char const*>(b.p);
    for (std::size_t i = 0; i < b.n * sizeof(T); ++i) {
      REQUIRE(p[i] == b.fill, "overlapping blocks");
    }
  };
  int const ops = 1 + s.size(30);
  for (int k = 0; k < ops; ++k) {
    if (blocks.empty() || s.chance(2, 3)) {
      std::size_t const n = 1 + s.size(max);
      T* const p = a.allocate(n);
      REQUIRE(p != nullptr);
      REQUIRE(reinterpret_cast<std::uintptr_t>(p) % alignof(T) == 0,
              "misaligned");
      unsigned char const fill = s.below(256);
      std::memset(static_cast<void*>(p), fill, n * sizeof(T));
      blocks.push_back({p, n, fill});
    } else {
      std::size_t const i = s.below(blocks.size());
      check(blocks[i]);
      a.deallocate(blocks[i].p, blocks[i].n);
      blocks.erase(blocks.begin() + i);
    }
    for (auto const& b : blocks) check(b);
  }
  for (auto const& b : blocks) {
    check(b);
    MallocAllocator<T>(MallocAllocator<int>()).deallocate(b.p, b.n);
  }
}

void Allocator(Src& s, Ctx& c) {
  int const type = s.below(4);
  c.note() << "type " << type;
  c.nontrivial();
  switch (type) {
    case 0: AllocatorOf<char>(s, 300); break;
    case 1: AllocatorOf<double>(s, 100); break;
    case 2: AllocatorOf<Aligned>(s, 20); break;
    case 3: AllocatorOf<std::max_align_t>(s, 50); break;
  }
  REQUIRE((MallocAllocator<int>() == MallocAllocator<double>()));
  REQUIRE(!(MallocAllocator<int>() != MallocAllocator<double>()));
  // Containers.
  std::vector<int, MallocAllocator<int>> v;
  std::list<std::string, MallocAllocator<std::string>> l;
  std::map<int, int, std::less<int>, MallocAllocator<std::pair<int const, int>>>
      m;
  std::vector<int> vm;
  std::map<int, int> mm;
  int const n = s.size(200);
  for (int i = 0; i < n; ++i) {
    int const x = s.below(1000);
    v.push_back(x);
    vm.push_back(x);
    l.push_back(std::to_string(x));
    m[x] += i;
    mm[x] += i;
    if (s.chance(1, 8)) {
      v.erase(v.begin() + x % v.size());
      vm.erase(vm.begin() + x % vm.size());
      l.erase(std::next(l.begin(), x % l.size()));
      m.erase(x / 2);
      mm.erase(x / 2);
    }
  }
  REQUIRE(std::vector<int>(v.begin(), v.end()) == vm);
  REQUIRE((std::map<int, int>(m.begin(), m.end()) == mm));
  REQUIRE(l.size() == vm.size());
  auto it = l.begin();
  for (int const x : vm) REQUIRE(*it++ == std::to_string(x));
}

template<std::size_t n>
void ForAllOfSize(Src& s) {
  std::array<std::int64_t, n> a;
  std::array<std::string, n> b;
  for (std::size_t i = 0; i < n; ++i) {
    a[i] = s.range(-1000, 1000);
    b[i] = std::to_string(s.below(100));
  }
  auto const a0 = a;
  auto const b0 = b;
  std::vector<std::pair<std::int64_t, std::string>> seen;
  for_all_of(a, b).loop([&](std::int64_t& x, std::string const& y) {
    seen.emplace_back(x, y);
    x = -x;
  });
  REQUIRE(seen.size() == n, "iterations");
  for (std::size_t i = 0; i < n; ++i) {
    REQUIRE(seen[i].first == a0[i] && seen[i].second == b0[i], "order");
    REQUIRE(a[i] == -a0[i], "mutation through the loop");
  }
  std::vector<std::size_t> indices;
  for_all_of(a, b, a0).loop_indexed(
      [&]<std::size_t i>(std::int64_t& x, std::string& y, std::int64_t const z) {
        indices.push_back(i);
        REQUIRE(&x == &a[i] && &y == &b[i], "element at the index");
        REQUIRE(z == a0[i]);
        y += "!";
      });
  REQUIRE(indices.size() == n);
  for (std::size_t i = 0; i < n; ++i) {
    REQUIRE(indices[i] == i, "index");
    REQUIRE(b[i] == b0[i] + "!");
  }
}

void ForAllOf(Src& s, Ctx& c) {
  ForAllOfSize<1>(s);
  ForAllOfSize<2>(s);
  ForAllOfSize<5>(s);
  ForAllOfSize<9>(s);
  std::tuple<int, double, std::string> t{
      s.below(100), static_cast<double>(s.below(100)), "x"};
  auto const t0 = t;
  std::pair<int, int> const p{1, 2};
  std::ostringstream out;
  for_all_of(t).loop([&out](auto const& x) { out << x << ";"; });
  std::ostringstream expected;
  expected << std::get<0>(t0) << ";" << std::get<1>(t0) << ";"
           << std::get<2>(t0) << ";";
  REQUIRE(out.str() == expected.str(), out.str());
  int sum = 0;
  for_all_of(p).loop([&sum](int const x) { sum = 10 * sum + x; });
  REQUIRE(sum == 12);
  std::vector<std::int64_t> seen;
  auto const note = [&seen]<std::int64_t i>() { seen.push_back(i); };
  auto const expect = [&seen](std::int64_t const begin, std::int64_t const end) {
    std::vector<std::int64_t> e;
    for (std::int64_t i = begin; i < end; ++i) e.push_back(i);
    REQUIRE(seen == e, "range " << begin << " " << end);
    seen.clear();
  };
  for_integer_range<0, 0>::loop(note);
  expect(0, 0);
  for_integer_range<0, 1>::loop(note);
  expect(0, 1);
  for_integer_range<3, 17>::loop(note);
  expect(3, 17);
  for_integer_range<-5, 4>::loop(note);
  expect(-5, 4);
  for_integer_range<7, 7>::loop(note);
  expect(7, 7);
  c.note() << sum << " " << out.str();
  c.nontrivial();
}

void Functions(Src& s, Ctx& c) {
  // Move-only functors; histories of calls and moves.
  struct Counted {
    explicit Counted(int* const live) : live(live) { ++*live; }
    Counted(Counted&& o) : live(o.live) { ++*live; }
    Counted(Counted const&) = delete;
    ~Counted() { --*live; }
    int* live;
  };
  int live = 0;
  int const n = 1 + s.below(5);
  {
    std::vector<function<int(int, std::string const&)>> fs(n);
    std::vector<std::optional<int>> state(n);
    std::vector<int> factor(n);
    int const ops = s.size(40);
    for (int k = 0; k < ops; ++k) {
      int const i = s.below(n);
      switch (s.below(4)) {
        case 0: {
          int const f = 1 + s.below(9);
          c.note() << " new" << i;
          fs[i] = function<int(int, std::string const&)>(
              [f, sum = 0, o = std::make_unique<int>(f), counted = Counted(&live)](
                  int const x, std::string const& y) mutable {
                sum += x;
                return sum * *o + f + static_cast<int>(y.size());
              });
          state[i] = 0;
          factor[i] = f;
          break;
        }
        case 1:
        case 2:
          if (state[i].has_value()) {
            int const x = s.below(100);
            std::string const y(s.below(10), 'y');
            *state[i] += x;
            int const r = fs[i](static_cast<int>(x), y);
            REQUIRE(r == *state[i] * factor[i] + factor[i] +
                             static_cast<int>(y.size()),
                    "result of a call");
            c.note() << " call" << i;
          }
          break;
        case 3: {
          int const j = s.below(n);
          if (j != i) {
            c.note() << " move" << i << "to" << j;
            fs[j] = std::move(fs[i]);
            state[j] = state[i];
            factor[j] = factor[i];
            state[i].reset();
          }
          break;
        }
      }
      int expected = 0;
      for (auto const& x : state) expected += x.has_value();
      REQUIRE(live == expected, live << " functors alive, not " << expected);
      c.nontrivial(k > 3);
    }
    // References and move-only arguments.
    int target = 0;
    function<void(int&)> by_reference([](int& x) { x += 7; });
    by_reference(target);
    REQUIRE(target == 7);
    function<std::unique_ptr<int>(std::unique_ptr<int>)> by_move(
        [](std::unique_ptr<int> p) { ++*p; return p; });
    auto const p = by_move(std::make_unique<int>(3));
    REQUIRE(p != nullptr && *p == 4);
  }
  REQUIRE(live == 0, "leaked functors");
}

void Bits(Src& s, Ctx& c) {
  std::int64_t const n = s.coin()
      ? static_cast<std::int64_t>(s.u64() >> (1 + s.below(63)))
      : std::max<std::int64_t>(
            0, (std::int64_t{1} << s.below(62)) + s.range(-2, 2));
  c.note() << n;
  c.nontrivial(n > 2);
  if (n > 0) {
    int const log = 63 - __builtin_clzll(n);
    REQUIRE(FloorLog2(n) == log);
    REQUIRE(PowerOf2Le(n) == std::int64_t{1} << log);
  } else {
    REQUIRE(PowerOf2Le(n) == 0);
  }
  std::int64_t const bits = s.below(32);
  if (bits > 0) {
    std::int64_t const m = n & ((std::int64_t{1} << bits) - 1);
    auto const reverse = [bits](std::uint64_t const x) {
      std::uint64_t r = 0;
      for (int i = 0; i < bits; ++i) {
        if (x >> i & 1) r |= std::uint64_t{1} << (bits - 1 - i);
      }
      return r;
    };
    std::uint64_t const expected =
        reverse((reverse(m) + 1) & ((std::uint64_t{1} << bits) - 1));
    // The carry out of the last bit wraps around.
    if (reverse(m) != (std::uint64_t{1} << bits) - 1) {
      REQUIRE(BitReversedIncrement(m, bits) ==
              static_cast<std::int64_t>(expected),
              m << " on " << bits << " bits");
    }
  } else {
    REQUIRE(BitReversedIncrement(0, 0) == 0);
  }
}

void Mod(Src& s, Ctx& c) {
  auto const some = [&](int const limit) -> std::int64_t {
    return s.coin() ? s.range(-20, 20) : s.range(-limit, limit);
  };
  std::int64_t const dividend = s.chance(1, 8) ? (s.coin() ? INT_MAX : INT_MIN)
                                               : some(INT_MAX);
  std::int64_t divisor = some(1 << 30);
  if (divisor == 0 || (divisor == -1 && dividend == INT_MIN)) divisor = 1;
  c.note() << dividend << " mod " << divisor;
  c.nontrivial(dividend < 0 || divisor < 0);
  auto const floor_mod = [](std::int64_t const a, std::int64_t const b) {
    std::int64_t const r = a % b;
    return r != 0 && ((r < 0) != (b < 0)) ? r + b : r;
  };
  REQUIRE(mod(dividend, divisor) == floor_mod(dividend, divisor),
          mod(dividend, divisor));
  std::int64_t const small = some(1 << 29);
  std::int64_t const offset = some(1 << 29);
  std::int64_t small_divisor = some(1 << 29);
  if (small_divisor == 0) small_divisor = -1;
  int const r = mod(small, small_divisor, offset);
  c.note() << ", " << small << " mod " << small_divisor << " from " << offset;
  REQUIRE((r - small) % small_divisor == 0, "not congruent: " << r);
  if (small_divisor > 0) {
    REQUIRE(r >= offset && r < small_divisor + offset, r);
  } else {
    REQUIRE(r > small_divisor + offset && r <= offset, r);
  }
}

template<typename T>
void ArraysOf(Src& s, Ctx& c) {
  auto const make = [&s](std::size_t const n) {
    std::vector<T> v(n);
    for (auto& x : v) x = static_cast<T>(s.below(3) << (s.coin() ? 0 : 8 * (sizeof(T) - 1)));
    return v;
  };
  std::vector<T> v = make(s.size(12));
  std::vector<T> w = v;
  switch (s.below(4)) {
    case 0: break;
    case 1: if (!w.empty()) w[s.below(w.size())] ^= static_cast<T>(1 + s.below(3)); break;
    case 2: w = make(s.size(12)); break;
    case 3: if (!w.empty()) w.pop_back(); break;
  }
  c.nontrivial(v.size() > 1);
  c.label_if(v == w, "equal");
  c.note() << sizeof(T) << " bytes each, " << v.size() << " and " << w.size();
  auto const unique = [](std::vector<T> const& v) {
    UniqueArray<T> u(v.size());
    REQUIRE(u.size == static_cast<std::int64_t>(v.size()));
    for (std::size_t i = 0; i < v.size(); ++i) u.data[i] = v[i];
    return u;
  };
  Array<T> const av(v);
  Array<T const> const aw(w);
  UniqueArray<T> uv = unique(v);
  UniqueArray<T> uw = unique(w);
  bool const equal = v == w;
  REQUIRE((av == aw) == equal, "arrays");
  REQUIRE((av == uw) == equal, "array and unique array");
  REQUIRE((uv == aw) == equal, "unique array and array");
  REQUIRE((uv == uw) == equal, "unique arrays");
  Array<T const> const cv(av);
  REQUIRE(cv.data == v.data() && cv.size == static_cast<std::int64_t>(v.size()));
  UniqueArray<T> moved = std::move(uv);
  REQUIRE(moved == av);
  REQUIRE(moved.get().data == moved.data.get());
}

void Arrays(Src& s, Ctx& c) {
  switch (s.below(4)) {
    case 0: ArraysOf<std::uint8_t>(s, c); break;
    case 1: ArraysOf<char>(s, c); break;
    case 2: ArraysOf<char16_t>(s, c); break;
    case 3: ArraysOf<std::int64_t>(s, c); break;
  }
}

void BoundedArrays(Src& s, Ctx& c) {
  BoundedArray<int, 8> a;
  std::vector<int> m;
  switch (s.below(3)) {
    case 0: break;
    case 1: a = BoundedArray<int, 8>(4); m = {4}; break;
    case 2: a = BoundedArray<int, 8>(1, 2, 3); m = {1, 2, 3}; break;
  }
  int const n = s.below(9 - m.size());
  for (int i = 0; i < n; ++i) {
    int const x = s.below(100);
    a.push_back(x);
    m.push_back(x);
  }
  c.nontrivial(m.size() > 1);
  c.note() << m.size();
  REQUIRE(a.size() == m.size() && a.empty() == m.empty());
  REQUIRE(std::vector<int>(a.begin(), a.end()) == m, "forward");
  auto const& ca = a;
  REQUIRE(std::vector<int>(ca.begin(), ca.end()) == m, "forward");
  REQUIRE((std::vector<int>(ca.rbegin(), ca.rend()) ==
           std::vector<int>(m.rbegin(), m.rend())), "reverse");
  if (!m.empty()) {
    REQUIRE(a.front() == m.front() && a.back() == m.back());
    a.front() = -1;
    m.front() = -1;
    REQUIRE(ca.front() == m.front() && ca.back() == m.back());
  }
}

void Ranges(Src& s, Ctx& c) {
  std::vector<int> v;
  int const n = s.size(30);
  for (int i = 0; i < n; ++i) v.push_back(s.below(1000));
  int b = s.below(n + 1);
  int e = s.below(n + 1);
  if (b > e) std::swap(b, e);
  c.note() << b << " to " << e << " of " << n;
  c.nontrivial(e > b + 1);
  auto const check = [&](auto const& container) {
    auto const begin = std::next(container.cbegin(), b);
    auto const end = std::next(container.cbegin(), e);
    auto const range = Range(begin, end);
    REQUIRE(range.begin() == begin && range.end() == end);
    REQUIRE(range.cbegin() == begin && range.cend() == end);
    REQUIRE(range.size() == static_cast<std::size_t>(e - b), "size");
    REQUIRE(range.empty() == (b == e), "empty");
    std::vector<int> seen;
    for (int const x : range) seen.push_back(x);
    REQUIRE((seen == std::vector<int>(v.begin() + b, v.begin() + e)));
  };
  check(v);
  check(std::list<int>(v.begin(), v.end()));
}

void FlagHistories(Src& s, Ctx& c) {
  Flags::Clear();
  std::map<std::string, std::set<std::string>> model;
  auto const name = [&s] {
    static char const* const names[] = {"", "a", "ab", "b", "zfp", "A", "a b"};
    return std::string(names[s.below(7)]);
  };
  int const ops = s.size(40);
  for (int k = 0; k < ops; ++k) {
    std::string const n = name();
    std::string const v = name();
    switch (s.below(8)) {
      case 0:
        Flags::Clear();
        model.clear();
        c.note() << " clear";
        break;
      case 1: case 2: case 3:
        Flags::Set(n, v);
        model[n].insert(v);
        c.note() << " set";
        break;
    }
    REQUIRE(Flags::IsPresent(n) == model.contains(n), n);
    bool const both = model.contains(n) && model[n].contains(v);
    REQUIRE(Flags::IsPresent(n, v) == both, n << "=" << v);
    REQUIRE(Flags::Values(n) ==
            (model.contains(n) ? model[n] : std::set<std::string>{}), n);
  }
  c.nontrivial(model.size() > 1);
}

absl::Status First(std::vector<int> const& codes, int& done) {
  for (int const code : codes) {
    absl::Status const status(static_cast<absl::StatusCode>(code), code ? "why" : "");
    RETURN_IF_ERROR(status);
    ++done;
    absl::StatusOr<int> const or_int =
        code == 0 ? absl::StatusOr<int>(1)
                  : absl::StatusOr<int>(absl::InternalError("never"));
    RETURN_IF_ERROR(or_int);
  }
  return absl::OkStatus();
}

void Small(Src& s, Ctx& c) {
  // Statuses.
  std::vector<int> codes;
  int const n = s.size(10);
  int first = 0;
  int ok = 0;
  for (int i = 0; i < n; ++i) {
    codes.push_back(s.chance(1, 6) ? 1 + s.below(16) : 0);
    if (first == 0) {
      first = codes.back();
      if (first == 0) ++ok;
    }
  }
  int done = 0;
  absl::Status const status = First(codes, done);
  REQUIRE(static_cast<int>(status.code()) == first, status.ToString());
  REQUIRE(done == ok, "returned at the wrong place");
  // Constants.
  int const k = s.below(1000);
  auto f = Identically(k);
  REQUIRE(f() == k && f(1) == k && f("a", 2, 3.0) == k);
  // Monostable.
  Monostable monostable;
  int const flops = s.below(4);
  REQUIRE(monostable, "initial state");
  for (int i = 0; i < flops; ++i) {
    monostable.Flop();
    REQUIRE(!monostable, "flopped");
  }
  REQUIRE(monostable == (flops == 0));
  // Maps.
  std::map<int, std::string> m;
  for (int i = 0; i < 10; ++i) {
    int const x = s.below(30);
    m[x] = std::to_string(x);
  }
  int const x = s.below(30);
  auto const& cm = m;
  if (m.contains(x)) {
    REQUIRE(FindOrDie(cm, x) == std::to_string(x));
    FindOrDie(m, x) += "!";
    REQUIRE(m[x] == std::to_string(x) + "!");
  } else {
    REQUIRE(pbt::is_fatal([&] { FindOrDie(cm, x); }));
    REQUIRE(pbt::is_fatal([&] { FindOrDie(m, x); }));
    REQUIRE(!m.contains(x), "element created");
  }
  // Logging of unique pointers.
  {
    auto const p = std::make_unique<int>(1);
    std::ostringstream a;
    std::ostringstream b;
    a << p;
    b << p.get();
    REQUIRE(a.str() == b.str(), a.str() << " " << b.str());
  }
  // Optional fields.
  struct Message {
    void set_value(int const x) { field = x; }
    void clear_value() { field.reset(); }
    std::optional<int> field;
  } message;
  message.field = 12;
  std::optional<int> value;
  if (s.coin()) value = k;
  SET_OPTIONAL(&message, value);
  REQUIRE(message.field == value);
  c.note() << n << " statuses";
  c.nontrivial(n > 1);
}

void NotNull(Src& s, Ctx& c) {
  struct Base {
    explicit Base(int const x) : x(x) {}
    virtual ~Base() = default;
    int x;
  };
  struct Derived : Base {
    using Base::Base;
  };
  int const n = 2 + s.below(5);
  std::vector<std::unique_ptr<Derived>> objects;
  for (int i = 0; i < n; ++i) objects.push_back(std::make_unique<Derived>(i));
  int const i = s.below(n);
  int const j = s.below(n);
  c.note() << i << " " << j << " of " << n;
  c.nontrivial(i != j);
  Derived* const raw = objects[i].get();
  not_null<Derived*> const a = raw;
  not_null<Derived*> const b = check_not_null(objects[j].get());
  Derived* const pi = objects[i].get();
  Derived* const pj = objects[j].get();
  REQUIRE((a == b) == (pi == pj) && (a != b) == (pi != pj));
  REQUIRE((a < b) == (pi < pj) && (a <= b) == (pi <= pj));
  REQUIRE((a > b) == (pi > pj) && (a >= b) == (pi >= pj));
  REQUIRE(a == pi && (a != pj) == (pi != pj));
  REQUIRE(!(a == nullptr) && a != nullptr && static_cast<bool>(a));
  not_null<Base*> const base = a;
  REQUIRE(base->x == i && (*base).x == i && base == static_cast<Base*>(pi));
  not_null<Derived*> const down = dynamic_cast_not_null<Derived*>(base);
  REQUIRE(down == a);
  not_null<Derived const*> const constant = a;
  REQUIRE(constant->x == i);
  // A null pointer is refused, whatever the way in.
  Derived* const null = nullptr;
  REQUIRE(pbt::is_fatal([&] { check_not_null(null); }));
  REQUIRE(pbt::is_fatal([&] { not_null<Derived*> p = null; }));
  REQUIRE(pbt::is_fatal([&] { not_null<Base*> p = null; }));
  REQUIRE(pbt::is_fatal([&] {
    not_null<std::unique_ptr<Base>> p = std::unique_ptr<Derived>();
  }));
  // Ownership.
  not_null<std::unique_ptr<Derived>> u = make_not_null_unique<Derived>(j);
  Derived* const address = u.get();
  not_null<std::unique_ptr<Base>> v = std::move(u);
  REQUIRE(v.get() == address && v->x == j);
  if (s.coin()) {
    v.reset(make_not_null_unique<Derived>(i).release());
    REQUIRE(v->x == i);
  }
  std::unique_ptr<Base> w = std::move(v);
  REQUIRE(w != nullptr);
  not_null<std::shared_ptr<Derived>> sh = make_not_null_shared<Derived>(i);
  {
    not_null<std::shared_ptr<Base>> sh2 = sh;
    std::shared_ptr<Base> const sh3 = sh2;
    REQUIRE(sh3.use_count() == 3 && sh3->x == i);
  }
  std::shared_ptr<Derived> const sh4 = sh;
  REQUIRE(sh4.use_count() == 2);
  // Hashing is that of the pointer.
  absl::flat_hash_map<not_null<Derived*>, int> map;
  for (int k = 0; k < n; ++k) map.emplace(objects[k].get(), k);
  REQUIRE(map.size() == static_cast<std::size_t>(n));
  REQUIRE(map.at(a) == i && map.at(b) == j);
}

// Traits: these hold at compilation, for every instantiation listed.
template<typename... T> struct Variadic {};
template<typename T> using Alias = Variadic<T, int>;
static_assert(all_different_v<>);
static_assert(all_different_v<int>);
static_assert(all_different_v<int, char, double, int*, int const>);
static_assert(!all_different_v<int, char, int>);
static_assert(!all_different_v<char, int, double, int>);
static_assert(!all_different_v<int, int>);
static_assert(is_instance_of_v<Variadic, Variadic<>>);
static_assert(is_instance_of_v<Variadic, Variadic<int, char>>);
static_assert(!is_instance_of_v<Variadic, std::tuple<int, char>>);
static_assert(!is_instance_of_v<std::vector, int>);
static_assert(is_same_template_v<std::vector, std::vector>);
static_assert(!is_same_template_v<std::vector, std::list>);

void Cpu(Src& s, Ctx& c) {
  struct Flag {
    CPUIDFeatureFlag const* flag;
    char const* name;
    unsigned leaf;
    int reg;
    int bit;
  };
  static Flag const flags[] = {
      {&CPUIDFeatureFlag::FPU, "FPU", 1, 3, 0},
      {&CPUIDFeatureFlag::PSN, "PSN", 1, 3, 18},
      {&CPUIDFeatureFlag::SSE, "SSE", 1, 3, 25},
      {&CPUIDFeatureFlag::SSE2, "SSE2", 1, 3, 26},
      {&CPUIDFeatureFlag::SSE3, "SSE3", 1, 2, 0},
      {&CPUIDFeatureFlag::FMA, "FMA", 1, 2, 12},
      {&CPUIDFeatureFlag::SSE4_1, "SSE4_1", 1, 2, 19},
      {&CPUIDFeatureFlag::AVX, "AVX", 1, 2, 28},
      {&CPUIDFeatureFlag::AVX2, "AVX2", 7, 1, 5},
      {&CPUIDFeatureFlag::AVX512F, "AVX512F", 7, 1, 16},
      {&CPUIDFeatureFlag::AVX512DQ, "AVX512DQ", 7, 1, 17},
      {&CPUIDFeatureFlag::AVX512VL, "AVX512VL", 7, 1, 31},
      {&CPUIDFeatureFlag::AVX512_FP16, "AVX512_FP16", 7, 3, 23}};
  auto const& f = flags[s.below(std::size(flags))];
  c.note() << f.name;
  c.nontrivial();
  unsigned r[4] = {0, 0, 0, 0};
  __cpuid_count(f.leaf, 0, r[0], r[1], r[2], r[3]);
  unsigned max_leaf, x, y, z;
  __cpuid(0, max_leaf, x, y, z);
  bool const expected = f.leaf <= max_leaf && (r[f.reg] >> f.bit & 1);
  REQUIRE(f.flag->IsSet() == expected, f.name << " " << expected);
  REQUIRE(std::string(f.flag->name()) == f.name, f.flag->name());
  std::string const all = " " + CPUFeatures() + " ";
  std::string padded;
  for (char const ch : all) padded += ch == ',' ? ' ' : ch;
  REQUIRE((padded.find(" " + std::string(f.name) + " ") != std::string::npos) ==
          expected, "features: " << all);
  REQUIRE(CPUVendorIdentificationString().size() == 12);
  char vendor[13] = {};
  std::memcpy(vendor, &x, 4);
  std::memcpy(vendor + 4, &z, 4);
  std::memcpy(vendor + 8, &y, 4);
  REQUIRE(CPUVendorIdentificationString() == vendor, "vendor");
}

}  // namespace
}  // namespace base
}  // namespace principia

int main(int argc, char** argv) {
  using namespace principia::base;
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"disjoint_sets", "1-61 elements, 0-120 unions and queries, against an "
        "explicit partition; non-trivial with 2 unions", 10000, 200000,
        DisjointSets},
       {"get_line", "files of 0-8 lines around the buffer sizes, with or without "
        "a last newline; non-trivial if a line exceeds 190 bytes", 4000, 60000,
        Lines},
       {"malloc_allocator", "histories of allocations of 4 types and containers",
        3000, 60000, Allocator},
       {"for_all_of", "tuples, pairs and arrays of 1-9 elements, and 5 ranges of "
        "integers", 3000, 60000, ForAllOf},
       {"function", "histories of construction, move and call of 1-5 move-only "
        "functions; non-trivial with 4 operations", 10000, 200000, Functions},
       {"bits", "integers of all magnitudes and powers of 2", 50000, 2000000,
        Bits},
       {"mod", "dividends of all sizes, |divisor| ≤ 2^30; non-trivial if a sign "
        "is negative", 50000, 2000000, Mod},
       {"arrays", "pairs of arrays equal or nearly so, elements of 1, 2, 8 bytes",
        30000, 500000, Arrays},
       {"bounded_array", "0-8 elements", 10000, 200000, BoundedArrays},
       {"ranges", "subranges of vectors and lists", 10000, 200000, Ranges},
       {"flags", "histories of Clear, Set and queries; non-trivial with 2 names",
        10000, 200000, FlagHistories},
       {"small", "status chains, constants, monostables, maps, optional fields",
        10000, 200000, Small},
       {"not_null", "pairs of pointers of a hierarchy, raw, unique, shared, null",
        5000, 100000, NotNull},
       {"cpuid", "13 feature flags against the instruction", 200, 2000, Cpu}});
}
