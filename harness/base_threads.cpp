// P03: threads.
#include <atomic>
#include <chrono>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "base/bundle.hpp"
#include "base/graveyard.hpp"
#include "base/recurring_thread.hpp"
#include "base/status_utilities.hpp"
#include "base/stoppable_thread.hpp"
#include "base/thread_pool.hpp"
#include "fatal.hpp"
#include "pbt.hpp"

using namespace principia::base::_bundle;
using namespace principia::base::_graveyard;
using namespace principia::base::_recurring_thread;
using namespace principia::base::_stoppable_thread;
using namespace principia::base::_thread_pool;
using pbt::Ctx;
using pbt::Src;
using namespace std::chrono_literals;
using Clock = std::chrono::steady_clock;

namespace {

void Pause(std::uint64_t const n) {
  switch (n) {
    case 0:
      break;
    case 1:
      std::this_thread::yield();
      break;
    default:
      std::this_thread::sleep_for(std::chrono::microseconds(20 * n));
  }
}

// Busy-waits (politely) for a condition, fails if it does not happen.
template<typename F>
void Eventually(F const& f, char const* what, double seconds = 20) {
  auto const start = Clock::now();
  while (!f()) {
    std::this_thread::sleep_for(50us);
    REQUIRE(std::chrono::duration<double>(Clock::now() - start).count() <
                seconds,
            what << " did not happen");
  }
}

class Gate {
 public:
  void Open() { open_ = true; }
  void Wait() {
    while (!open_) std::this_thread::sleep_for(50us);
  }
  bool open() const { return open_; }

 private:
  std::atomic<bool> open_ = false;
};

// Sets a flag when the thread on which it was armed ends.
struct ExitFlag {
  std::atomic<bool>* flag = nullptr;
  ~ExitFlag() {
    if (flag != nullptr) *flag = true;
  }
};
thread_local ExitFlag exit_flag;

// ------------------------------------------------------------------- Bundle.

absl::Status MakeStatus(int const i) {
  return absl::Status(static_cast<absl::StatusCode>(1 + i % 16),
                      "task " + std::to_string(i));
}

// Every task runs exactly once, concurrently with the others; the result of
// Join is OK if all succeed, and otherwise the status of the first failure.
void BundleJoin(Src& s, Ctx& c) {
  int const n = s.size(24);
  bool const ordered = s.coin();  // Whether the tasks end one after the other.
  int const join = s.below(3);
  std::vector<bool> fails(n);
  std::vector<int> pauses(n);
  std::vector<int> order(n);
  int const density = s.below(4);
  for (int i = 0; i < n; ++i) {
    fails[i] = s.below(4) < static_cast<std::uint64_t>(density);
    pauses[i] = s.below(6);
    order[i] = i;
  }
  for (int i = n - 1; i > 0; --i) {
    std::swap(order[i], order[s.below(i + 1)]);
  }
  bool const early = s.coin();  // Release some tasks before the Join.
  c.note() << n << " tasks, " << (ordered ? "ordered" : "free") << ", join "
           << join << ", failing";
  for (int i = 0; i < n; ++i) {
    if (fails[i]) c.note() << " " << i;
  }
  c.nontrivial(n > 1);
  c.label(ordered ? "ordered" : "free");
  std::vector<std::atomic<int>> runs(n);
  std::vector<std::atomic<bool>> exited(n);
  std::vector<Gate> gates(n);
  std::mutex m;
  std::set<std::thread::id> ids;
  absl::Status status;
  {
    Bundle bundle;
    for (int i = 0; i < n; ++i) {
      bundle.Add([&, i]() -> absl::Status {
        exit_flag.flag = &exited[i];
        {
          std::lock_guard<std::mutex> l(m);
          ids.insert(std::this_thread::get_id());
        }
        if (ordered) {
          gates[i].Wait();
        } else {
          Pause(pauses[i]);
        }
        ++runs[i];
        return fails[i] ? MakeStatus(i) : absl::OkStatus();
      });
    }
    auto const release = [&](int from, int to) {
      for (int k = from; k < to; ++k) {
        gates[order[k]].Open();
        Eventually([&] { return exited[order[k]].load(); }, "end of a task");
      }
    };
    std::thread releaser;
    std::atomic<bool> releaser_failed = false;
    if (ordered) {
      int const before = early ? n / 2 : 0;
      release(0, before);
      releaser = std::thread([&, before] {
        try {
          release(before, n);
        } catch (...) {
          releaser_failed = true;
        }
      });
    }
    switch (join) {
      case 0:
        status = bundle.Join();
        break;
      case 1:
        status = bundle.JoinWithin(100s);
        break;
      default:
        status = bundle.JoinBefore(std::chrono::system_clock::now() + 100s);
    }
    if (releaser.joinable()) releaser.join();
    REQUIRE(!releaser_failed);
    for (int i = 0; i < n; ++i) {
      REQUIRE(runs[i] == 1, "task " << i << " ran " << runs[i] << " times");
      REQUIRE(exited[i], "Join returned before the end of thread " << i);
    }
    REQUIRE(pbt::is_fatal([&] {
              bundle.Add([] { return absl::OkStatus(); });
            }),
            "Add after Join");
  }
  bool any = false;
  bool match = false;
  int first = -1;
  for (int k = 0; k < n; ++k) {
    if (fails[order[k]]) {
      if (first < 0) first = order[k];
      any = true;
      match = match || status == MakeStatus(order[k]);
    }
  }
  c.label(any ? "failing" : "ok");
  REQUIRE(status.ok() == !any, status);
  if (any) {
    REQUIRE(match, status);
    if (ordered) {
      REQUIRE(status == MakeStatus(first),
              status << " but the first failure was in task " << first);
    }
  }
}

// All the tasks of a bundle execute at the same time: none waits for another.
void BundleConcurrency(Src& s, Ctx& c) {
  int const n = 2 + s.below(20);
  c.note() << n << " tasks meeting at a barrier";
  c.nontrivial();
  std::atomic<int> arrived = 0;
  std::atomic<bool> failed = false;
  Bundle bundle;
  for (int i = 0; i < n; ++i) {
    bundle.Add([&]() -> absl::Status {
      ++arrived;
      auto const start = Clock::now();
      while (arrived < n) {
        std::this_thread::sleep_for(50us);
        if (Clock::now() - start > 20s) {
          failed = true;
          break;
        }
      }
      return absl::OkStatus();
    });
    Pause(s.below(3));
  }
  REQUIRE(bundle.Join().ok());
  REQUIRE(!failed, "the tasks did not run concurrently");
}

// A deadline which is exceeded is reported, after all the tasks have ended.
void BundleDeadline(Src& s, Ctx& c) {
  int const n = 1 + s.below(5);
  auto const Δt = std::chrono::milliseconds(s.below(15));
  int const blocked = 1 + s.below(n);
  bool const before = s.coin();
  c.note() << n << " tasks, " << blocked << " blocked, deadline "
           << Δt.count() << " ms";
  c.nontrivial();
  Gate gate;
  std::atomic<int> ended = 0;
  Bundle bundle;
  for (int i = 0; i < n; ++i) {
    bundle.Add([&, i]() -> absl::Status {
      if (i < blocked) gate.Wait();
      ++ended;
      return absl::OkStatus();
    });
  }
  std::thread releaser([&] {
    std::this_thread::sleep_for(Δt + 250ms);
    gate.Open();
  });
  auto const status =
      before ? bundle.JoinBefore(std::chrono::system_clock::now() + Δt)
             : bundle.JoinWithin(Δt);
  int const ended_at_join = ended;
  releaser.join();
  REQUIRE(status.code() == absl::StatusCode::kDeadlineExceeded, status);
  REQUIRE(ended_at_join == n, "Join returned before the end of the tasks");
}

// -------------------------------------------------------------- Thread pool.

// A history of operations on a pool whose tasks are blocked on gates.
void ThreadPoolHistory(Src& s, Ctx& c) {
  int const threads = 1 + s.below(5);
  struct Task {
    Gate gate;
    std::atomic<int> runs = 0;
    std::atomic<int> started = 0;
    std::future<int> future;
    bool got = false;
  };
  std::vector<std::unique_ptr<Task>> tasks;
  std::atomic<int> running = 0;
  std::atomic<int> max_running = 0;
  std::atomic<int> sequence = 0;
  std::mutex m;
  std::vector<int> start_order;
  int dropped = 0;
  int refused = 0;
  c.note() << threads << " threads:";
  {
    std::optional<ThreadPool<int>> pool(std::in_place, threads);
    auto const make = [&](int const i) -> std::function<int()> {
      return [&, i, task = tasks[i].get()]() {
        {
          std::lock_guard<std::mutex> l(m);
          start_order.push_back(i);
        }
        int const r = ++running;
        int e = max_running;
        while (e < r && !max_running.compare_exchange_weak(e, r)) {}
        task->started = 1;
        task->gate.Wait();
        ++task->runs;
        --running;
        return 1000 + i;
      };
    };
    // The tasks which were submitted and not released.
    std::set<int> blocked;
    int const ops = s.size(30);
    for (int k = 0; k < ops; ++k) {
      switch (s.below(6)) {
        case 0:
        case 1: {
          int const i = tasks.size();
          tasks.push_back(std::make_unique<Task>());
          tasks[i]->future = pool->Add(make(i));
          blocked.insert(i);
          c.note() << " add" << i;
          break;
        }
        case 2: {
          int const i = tasks.size();
          tasks.push_back(std::make_unique<Task>());
          bool const must_be_refused =
              blocked.size() >= static_cast<std::size_t>(threads);
          if (!must_be_refused && s.coin()) {
            // There is, or will be, an idle thread, and nobody takes it.
            REQUIRE(pool->WaitUntilIdleFor(absl::Seconds(20)));
            c.note() << " wait";
            auto f = pool->TryAdd(make(i));
            REQUIRE(f.has_value(), "TryAdd refused on an idle pool");
            tasks[i]->future = std::move(*f);
          } else {
            auto f = pool->TryAdd(make(i));
            if (f.has_value()) {
              REQUIRE(!must_be_refused, "TryAdd accepted on a busy pool, "
                      << blocked.size() << " tasks");
              tasks[i]->future = std::move(*f);
            }
          }
          if (tasks[i]->future.valid()) {
            c.note() << " try" << i;
            blocked.insert(i);
            // It is immediately executed.
            Eventually([&] { return tasks[i]->started.load() == 1; },
                       "execution of a task accepted by TryAdd");
          } else {
            c.note() << " refused" << i;
            ++refused;
            tasks[i]->got = true;
          }
          break;
        }
        case 3: {
          bool const idle = pool->WaitUntilIdleFor(absl::Microseconds(500));
          if (blocked.size() >= static_cast<std::size_t>(threads)) {
            REQUIRE(!idle, "idle with " << blocked.size() << " tasks");
          }
          break;
        }
        default: {
          if (!blocked.empty()) {
            // Release any task.
            auto it = blocked.begin();
            std::advance(it, s.below(blocked.size()));
            int const i = *it;
            tasks[i]->gate.Open();
            c.note() << " release" << i;
            blocked.erase(it);
          }
        }
      }
      c.count();
      Pause(s.below(3));
    }
    if (s.coin()) {
      // Release everything and wait.
      c.label("drained");
      for (int const i : blocked) tasks[i]->gate.Open();
      for (std::size_t i = 0; i < tasks.size(); ++i) {
        if (tasks[i]->future.valid()) {
          REQUIRE(tasks[i]->future.wait_for(20s) == std::future_status::ready,
                  "task " << i << " never ran");
          REQUIRE(tasks[i]->future.get() == static_cast<int>(1000 + i));
          REQUIRE(tasks[i]->runs == 1);
          tasks[i]->got = true;
        }
      }
      REQUIRE(pool->WaitUntilIdleFor(absl::Seconds(20)));
      pool.reset();
    } else {
      // Destroy with tasks in the queue.  Those that started must end.
      c.label("destroyed");
      std::thread releaser([&] {
        Pause(s.below(1) + 3);
        for (auto const& t : tasks) t->gate.Open();
      });
      pool.reset();
      releaser.join();
      for (std::size_t i = 0; i < tasks.size(); ++i) {
        auto& t = *tasks[i];
        if (t.got) continue;
        REQUIRE(t.future.wait_for(0s) == std::future_status::ready,
                "neither run nor dropped");
        try {
          REQUIRE(t.future.get() == static_cast<int>(1000 + i));
          REQUIRE(t.runs == 1);
        } catch (std::future_error const&) {
          REQUIRE(t.runs == 0 && t.started == 0);
          ++dropped;
        }
      }
    }
  }
  REQUIRE(max_running <= threads, max_running << " tasks at a time");
  for (std::size_t i = 0; i < tasks.size(); ++i) {
    REQUIRE(tasks[i]->runs <= 1, "task " << i << " ran twice");
  }
  if (threads == 1) {
    for (std::size_t k = 1; k < start_order.size(); ++k) {
      REQUIRE(start_order[k - 1] < start_order[k],
              "tasks reordered on a single thread");
    }
  }
  c.label_if(refused > 0, "refused");
  c.label_if(dropped > 0, "dropped");
  c.nontrivial(start_order.size() > 1);
}

// Many short tasks from several clients.
void ThreadPoolStress(Src& s, Ctx& c) {
  int const threads = 1 + s.below(8);
  int const clients = 1 + s.below(4);
  int const n = s.below(120);
  c.note() << threads << " threads, " << clients << " clients, " << n
           << " tasks each";
  c.nontrivial(n > 1);
  std::vector<std::atomic<int>> runs(clients * n);
  std::atomic<int> running = 0;
  std::atomic<bool> too_many = false;
  std::atomic<int> bad = 0;
  std::vector<std::uint64_t> pauses(clients * n);
  for (auto& p : pauses) p = s.chance(1, 10) ? 2 : s.below(2);
  {
    ThreadPool<void> pool(threads);
    std::vector<std::thread> ts;
    for (int t = 0; t < clients; ++t) {
      ts.emplace_back([&, t] {
        std::vector<std::future<void>> futures;
        for (int i = 0; i < n; ++i) {
          futures.push_back(pool.Add([&, k = t * n + i] {
            if (++running > threads) too_many = true;
            Pause(pauses[k]);
            ++runs[k];
            --running;
          }));
        }
        for (auto& f : futures) {
          if (f.wait_for(20s) != std::future_status::ready) ++bad;
        }
      });
    }
    for (auto& t : ts) t.join();
    REQUIRE(bad == 0, bad << " tasks never completed");
  }
  for (auto const& r : runs) {
    REQUIRE(r == 1, "a task ran " << r << " times");
  }
  REQUIRE(!too_many);
}

// --------------------------------------------------------------- Graveyard.

struct Corpse {
  std::shared_ptr<std::vector<std::atomic<int>>> deaths;
  std::thread::id owner;
  std::atomic<int>* same_thread = nullptr;
  int index = -1;
  Corpse(std::shared_ptr<std::vector<std::atomic<int>>> d, int i,
         std::atomic<int>* same)
      : deaths(std::move(d)), owner(std::this_thread::get_id()),
        same_thread(same), index(i) {}
  Corpse(Corpse&& o)
      : deaths(std::move(o.deaths)), owner(o.owner), same_thread(o.same_thread),
        index(std::exchange(o.index, -1)) {}
  Corpse& operator=(Corpse&& o) {
    deaths = std::move(o.deaths);
    owner = o.owner;
    same_thread = o.same_thread;
    index = std::exchange(o.index, -1);
    return *this;
  }
  ~Corpse() {
    if (index >= 0) {
      if (std::this_thread::get_id() == owner) ++*same_thread;
      ++(*deaths)[index];
    }
  }
};

void GraveyardBurial(Src& s, Ctx& c) {
  int const threads = 1 + s.below(4);
  int const n = s.below(40);
  bool const wait = s.coin();
  c.note() << threads << " threads, " << n << " objects";
  c.nontrivial(n > 1);
  auto deaths = std::make_shared<std::vector<std::atomic<int>>>(n);
  std::atomic<int> same_thread = 0;
  {
    Graveyard graveyard(threads);
    for (int i = 0; i < n; ++i) {
      graveyard.Bury(Corpse(deaths, i, &same_thread));
      Pause(s.below(3));
    }
    if (wait) {
      Eventually(
          [&] {
            for (auto const& d : *deaths) {
              if (d == 0) return false;
            }
            return true;
          },
          "destruction of the objects");
    }
  }
  for (auto const& d : *deaths) {
    REQUIRE(d <= 1, "destroyed " << d << " times");
  }
  REQUIRE(same_thread == 0, "destroyed on the thread of the caller");
}

// --------------------------------------------------------- Stoppable thread.

absl::Status StopCheck() {
  RETURN_IF_STOPPED;
  return absl::OkStatus();
}

void StoppableThread(Src& s, Ctx& c) {
  int const n = 1 + s.below(6);
  c.note() << n << " threads, stopped in some order";
  c.nontrivial(n > 1);
  std::vector<std::atomic<int>> phase(n);
  std::vector<Gate> checked(n);
  std::vector<std::jthread> threads;
  std::atomic<int> errors = 0;
  std::atomic<int> sum = 0;
  for (int i = 0; i < n; ++i) {
    threads.push_back(MakeStoppableThread(
        [&phase, &errors, &sum, &checked](int const i, std::string const& arg) {
          if (arg != "argument " + std::to_string(i)) ++errors;
          if (!StopCheck().ok()) ++errors;
          if (this_stoppable_thread::get_stop_token().stop_requested()) {
            ++errors;
          }
          phase[i] = 1;
          while (StopCheck().ok()) std::this_thread::sleep_for(50us);
          if (StopCheck().code() != absl::StatusCode::kCancelled) ++errors;
          sum += 1;
          phase[i] = 2;
        },
        static_cast<int>(i), "argument " + std::to_string(i)));
  }
  for (int i = 0; i < n; ++i) {
    Eventually([&] { return phase[i].load() == 1; }, "start of a thread");
  }
  std::vector<int> order;
  for (int i = 0; i < n; ++i) order.push_back(i);
  for (int i = n - 1; i > 0; --i) std::swap(order[i], order[s.below(i + 1)]);
  for (int k = 0; k < n; ++k) {
    // Only the threads that were asked to stop do.
    for (int j = k; j < n; ++j) {
      REQUIRE(phase[order[j]] == 1, "stopped by another's token");
    }
    int const i = order[k];
    if (s.coin()) {
      threads[i].request_stop();
      Eventually([&] { return phase[i].load() == 2; }, "stop of a thread");
    } else {
      threads[i] = std::jthread();
      REQUIRE(phase[i] == 2, "not joined");
    }
  }
  threads.clear();
  REQUIRE(errors == 0, errors << " errors");
  // This thread is not a stoppable thread.
  REQUIRE(StopCheck().ok());
}

// --------------------------------------------------------- Recurring thread.

void RecurringThreadHistory(Src& s, Ctx& c) {
  int const period_ms = s.below(4);
  struct Shared {
    std::mutex m;
    std::vector<int> inputs;  // Processed, in order.
    std::vector<Clock::time_point> times;
    std::atomic<bool> allowed = false;
    std::atomic<int> illegal = 0;
    std::atomic<int> concurrent = 0;
    std::atomic<int> started = 0;
    std::atomic<bool> block = false;
  };
  Shared shared;
  // Inputs divisible by 5 are errors; those divisible by 7 wait for the stop.
  auto const action = [&shared](int const input) -> absl::StatusOr<int> {
    if (++shared.concurrent != 1 || !shared.allowed) ++shared.illegal;
    {
      std::lock_guard<std::mutex> l(shared.m);
      shared.inputs.push_back(input);
      shared.times.push_back(Clock::now());
    }
    ++shared.started;
    if (input % 7 == 0) {
      while (!this_stoppable_thread::get_stop_token().stop_requested()) {
        std::this_thread::sleep_for(50us);
      }
    }
    --shared.concurrent;
    if (input % 5 == 0) return absl::InternalError("multiple of 5");
    return input * 10;
  };
  std::vector<int> put;
  std::vector<int> got;
  int next = 1;
  bool running = false;
  bool blocked = false;   // The action is, or may be, waiting for the stop.
  std::set<int> interrupted;
  Clock::time_point start_time;
  std::size_t processed_at_start = 0;
  {
    RecurringThread<int, int> thread(action,
                                     std::chrono::milliseconds(period_ms));
    auto const check_period = [&] {
      std::lock_guard<std::mutex> l(shared.m);
      for (std::size_t k = processed_at_start; k < shared.times.size(); ++k) {
        REQUIRE(shared.times[k] - start_time >=
                    std::chrono::milliseconds(period_ms) *
                        static_cast<int>(k - processed_at_start),
                "the action runs too often");
      }
    };
    auto const begin = [&] {
      if (!running) {
        shared.allowed = true;
        start_time = Clock::now();
        std::lock_guard<std::mutex> l(shared.m);
        processed_at_start = shared.inputs.size();
      }
      running = true;
    };
    // Whether an input that waits for the stop is in the input channel (to be
    // called once the thread is stopped).
    auto const pending_block = [&] {
      std::lock_guard<std::mutex> l(shared.m);
      return !put.empty() && put.back() % 7 == 0 &&
             (shared.inputs.empty() || shared.inputs.back() != put.back());
    };
    auto const end = [&] {
      if (running) check_period();
      running = false;
      blocked = pending_block();
      shared.allowed = false;
      REQUIRE(shared.concurrent == 0, "still running after Stop");
    };
    c.note() << "period " << period_ms << " ms:";
    int const ops = s.size(20);
    for (int k = 0; k < ops; ++k) {
      switch (s.below(9)) {
        case 0:
        case 1:
          c.note() << " start";
          begin();
          thread.Start();
          break;
        case 2:
          c.note() << " stop";
          thread.Stop();
          end();
          break;
        case 3:
          c.note() << " restart";
          if (running) check_period();
          shared.allowed = true;
          running = true;
          blocked = !put.empty() && put.back() % 7 == 0;
          thread.Restart();
          // The lower bound on times is not known exactly here: use none.
          {
            std::lock_guard<std::mutex> l(shared.m);
            processed_at_start = shared.inputs.size() + 1'000'000;
          }
          break;
        case 4:
        case 5:
        case 6: {
          // Puts several values, the last of which must be processed.
          int const n = 1 + s.below(3);
          for (int i = 0; i < n; ++i) {
            if (next % 7 == 0 && !s.chance(1, 2)) ++next;
            int const value = next++;
            put.push_back(value);
            c.note() << " put" << value;
            thread.Put(value);
            if (value % 7 == 0) blocked = true;
            Pause(s.below(3));
          }
          if (running && !blocked && s.coin()) {
            c.note() << " wait";
            int const last = put.back();
            Eventually(
                [&] {
                  std::lock_guard<std::mutex> l(shared.m);
                  return !shared.inputs.empty() && shared.inputs.back() == last;
                },
                "processing of the last input");
            if (last % 5 != 0) {
              std::optional<int> o;
              Eventually(
                  [&] {
                    auto const g = thread.Get();
                    if (g.has_value()) {
                      got.push_back(*g);
                      o = g;
                    }
                    return o == last * 10;
                  },
                  "output of the last input");
            }
          }
          break;
        }
        case 7:
        case 8: {
          auto const o = thread.Get();
          c.note() << " get";
          if (o.has_value()) got.push_back(*o);
          break;
        }
      }
      c.count();
      Pause(s.below(3));
    }
    if (s.coin()) {
      thread.Stop();
      end();
      std::size_t const n = shared.inputs.size();
      Pause(4);
      REQUIRE(shared.inputs.size() == n, "an action ran after Stop");
      if (auto const o = thread.Get(); o.has_value()) got.push_back(*o);
      REQUIRE(!thread.Get().has_value(), "output returned twice");
    }
  }
  REQUIRE(shared.illegal == 0,
          "an action ran while stopped, or two at the same time");
  REQUIRE(shared.concurrent == 0);
  // The processed inputs are a subsequence of those put; the outputs are a
  // subsequence of the results.
  std::size_t j = 0;
  for (int const input : shared.inputs) {
    while (j < put.size() && put[j] != input) ++j;
    REQUIRE(j < put.size(), "input " << input << " duplicated or reordered");
    ++j;
  }
  j = 0;
  for (int const output : got) {
    while (j < shared.inputs.size() && shared.inputs[j] * 10 != output) ++j;
    REQUIRE(j < shared.inputs.size(),
            "output " << output << " duplicated or reordered");
    REQUIRE(shared.inputs[j] % 5 != 0, "output of a failed action");
    REQUIRE(shared.inputs[j] % 7 != 0, "output of a stopped action");
    ++j;
  }
  c.nontrivial(shared.inputs.size() > 1);
  c.label_if(!got.empty(), "output");
}

// The version without output.
void RecurringThreadVoid(Src& s, Ctx& c) {
  std::mutex m;
  std::vector<int> seen;
  int const n = 1 + s.below(8);
  {
    RecurringThread<std::shared_ptr<int>> thread(
        [&](std::shared_ptr<int> const& p) -> absl::Status {
          std::lock_guard<std::mutex> l(m);
          seen.push_back(*p);
          return *p % 2 == 0 ? absl::OkStatus() : absl::InternalError("odd");
        },
        0ms);
    for (int i = 0; i < n; ++i) {
      thread.Put(std::make_shared<int>(i));
      if (s.coin()) thread.Start();
      Pause(s.below(4));
    }
    thread.Start();
    Eventually(
        [&] {
          std::lock_guard<std::mutex> l(m);
          return !seen.empty() && seen.back() == n - 1;
        },
        "processing of the last input");
  }
  for (std::size_t i = 1; i < seen.size(); ++i) {
    REQUIRE(seen[i - 1] < seen[i], "duplicated or reordered");
  }
  c.note() << n << " inputs, " << seen.size() << " processed";
  c.nontrivial(n > 1);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"bundle_join",
        "0-24 tasks, failing or not, free or ending in a prescribed order "
        "(thread ends are observed), 3 ways of joining; non-trivial with 2 "
        "tasks",
        1500, 30000, BundleJoin, 60, 4, 2, true},
       {"bundle_concurrency", "2-21 tasks that wait for each other", 300, 5000,
        BundleConcurrency, 60, 4, 2, true},
       {"bundle_deadline", "1-5 tasks, some blocked past the deadline", 40, 400,
        BundleDeadline, 60, 4, 2, true},
       {"thread_pool_history",
        "0-30 operations (Add, TryAdd, WaitUntilIdleFor, release of a blocked "
        "task, destruction with a queue) on 1-5 threads; non-trivial if 2 "
        "tasks start",
        3000, 60000, ThreadPoolHistory, 60, 4, 2, true},
       {"thread_pool_stress", "1-4 clients, up to 120 tasks each, 1-8 threads",
        600, 10000, ThreadPoolStress, 60, 4, 2, true},
       {"graveyard_burial", "0-39 objects buried, 1-4 threads", 1000, 20000,
        GraveyardBurial, 60, 4, 2, true},
       {"stoppable_thread", "1-6 threads stopped in any order", 1000, 20000,
        StoppableThread, 60, 4, 2, true},
       {"recurring_thread_history",
        "0-20 operations (Start, Stop, Restart, Put, Get), actions that "
        "succeed, fail or wait for the stop; non-trivial if 2 inputs are "
        "processed",
        2500, 40000, RecurringThreadHistory, 60, 4, 2, true},
       {"recurring_thread_void", "1-8 inputs, move-only", 1000, 20000,
        RecurringThreadVoid, 60, 4, 2, true}});
}
