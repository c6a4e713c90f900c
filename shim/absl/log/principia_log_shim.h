// A small stand-in for the part of Abseil's logging library (absl/log, Abseil
// >= 20230125) that Principia uses.  The distribution's Abseil (20220623) has no
// logging library.  Fatal errors (CHECK, LOG(FATAL)) call `FatalHandler`, which
// by default prints and aborts, like the real library; a harness may install a
// handler that throws.
#pragma once

#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <optional>
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

#include "absl/base/log_severity.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"

namespace absl {

class LogEntry {
 public:
  absl::LogSeverity log_severity() const { return severity; }
  absl::Time timestamp() const { return time; }
  std::string_view text_message() const { return message; }
  std::string_view text_message_with_prefix_and_newline() const {
    return prefixed;
  }
  std::string_view text_message_with_prefix() const {
    return std::string_view(prefixed).substr(0, prefixed.size() - 1);
  }
  std::string_view source_filename() const { return file; }
  int source_line() const { return line; }
  std::string_view stacktrace() const { return stack; }

  absl::LogSeverity severity;
  absl::Time time;
  std::string message;
  std::string prefixed;
  std::string file;
  std::string stack;
  int line;
};

inline void PrintTo(LogEntry const& e, std::ostream* os) {
  *os << e.prefixed;
}

class LogSink {
 public:
  virtual ~LogSink() = default;
  virtual void Send(LogEntry const& entry) = 0;
  virtual void Flush() {}
};

namespace principia_shim {

struct State {
  std::recursive_mutex lock;
  std::vector<LogSink*> sinks;
  int min_log_level = 0;
  int stderr_threshold = 2;  // ERROR.
  int vlog_level = 0;
  // Must not return.
  void (*fatal)(std::string const& message) = nullptr;
};

inline State& state() {
  static State* const s = new State;
  return *s;
}

template<typename T>
concept streamable = requires(std::ostream& os, T const& t) { os << t; };

template<typename T>
void StreamValue(std::ostream& os, T const& t) {
  if constexpr (streamable<T>) {
    os << t;
  } else if constexpr (std::is_enum_v<T>) {
    os << static_cast<std::int64_t>(t);
  } else {
    os << "(unprintable)";
  }
}

class LogMessage {
 public:
  LogMessage(char const* file, int line, absl::LogSeverity severity)
      : file_(file), line_(line), severity_(severity) {}

  ~LogMessage() noexcept(false) {
    Emit();
  }

  LogMessage& stream() { return *this; }

  template<typename T>
  LogMessage& operator<<(T const& t) {
    StreamValue(os_, t);
    return *this;
  }
  LogMessage& operator<<(std::ostream& (*m)(std::ostream&)) {
    os_ << m;
    return *this;
  }
  LogMessage& operator<<(std::ios_base& (*m)(std::ios_base&)) {
    os_ << m;
    return *this;
  }
  LogMessage& ToSinkOnly(LogSink*) { return *this; }
  LogMessage& WithTimestamp(absl::Time t) { time_ = t; return *this; }
  LogMessage& WithThreadID(std::int64_t t) { tid_ = t; return *this; }

 protected:
  void Emit() {
    if (emitted_) {
      return;
    }
    emitted_ = true;
    State& s = state();
    bool const fatal = severity_ == absl::LogSeverity::kFatal;
    if (!fatal && static_cast<int>(severity_) < s.min_log_level) {
      return;
    }
    std::string_view base = file_;
    if (auto const slash = base.rfind('/'); slash != base.npos) {
      base.remove_prefix(slash + 1);
    }
    LogEntry e;
    e.severity = severity_;
    e.time = time_ ? *time_ : absl::Now();
    e.message = os_.str();
    e.file = file_;
    e.line = line_;
    e.prefixed = std::string(absl::LogSeverityName(severity_)).substr(0, 1) +
                 absl::FormatTime("%m%d %H:%M:%E6S", e.time,
                                  absl::UTCTimeZone()) +
                 " " + std::to_string(tid_) + " " + std::string(base) + ":" + std::to_string(line_) +
                 "] " + e.message + "\n";
    {
      std::lock_guard<std::recursive_mutex> l(s.lock);
      if (static_cast<int>(severity_) >= s.stderr_threshold) {
        std::fwrite(e.prefixed.data(), 1, e.prefixed.size(), stderr);
      }
      for (auto* const sink : s.sinks) {
        sink->Send(e);
      }
      if (fatal) {
        e.stack = "*** no stack ***\n";
        for (auto* const sink : s.sinks) {
          sink->Send(e);
        }
        for (auto* const sink : s.sinks) {
          sink->Flush();
        }
      }
    }
    if (fatal) {
      if (s.fatal != nullptr) {
        s.fatal(std::string(base) + ":" + std::to_string(line_) + "] " +
                e.message);
      }
      if (s.stderr_threshold > 3) {
        std::fwrite(e.prefixed.data(), 1, e.prefixed.size(), stderr);
      }
      std::fflush(nullptr);
      std::abort();
    }
  }

  bool emitted_ = false;
  char const* file_;
  int line_;
  absl::LogSeverity severity_;
  std::ostringstream os_;
  std::optional<absl::Time> time_;
  std::int64_t tid_ = 1;
};

class LogMessageFatal : public LogMessage {
 public:
  LogMessageFatal(char const* file, int line)
      : LogMessage(file, line, absl::LogSeverity::kFatal) {}
  LogMessageFatal(char const* file, int line, std::string const& failure)
      : LogMessage(file, line, absl::LogSeverity::kFatal) {
    os_ << "Check failed: " << failure << " ";
  }
  LogMessageFatal(char const* file, int line, char const* failure)
      : LogMessage(file, line, absl::LogSeverity::kFatal) {
    os_ << "Check failed: " << failure << " ";
  }
  LogMessageFatal& stream() { return *this; }
  template<typename T>
  LogMessageFatal& operator<<(T const& t) {
    StreamValue(os_, t);
    return *this;
  }
  LogMessageFatal& operator<<(std::ostream& (*m)(std::ostream&)) {
    os_ << m;
    return *this;
  }
  LogMessageFatal& WithTimestamp(absl::Time t) { time_ = t; return *this; }
  LogMessageFatal& WithThreadID(std::int64_t t) { tid_ = t; return *this; }
  LogMessageFatal& operator<<(std::ios_base& (*m)(std::ios_base&)) {
    os_ << m;
    return *this;
  }
  [[noreturn]] ~LogMessageFatal() noexcept(false) {
    Emit();
    std::abort();
  }
};

struct Voidify {
  template<typename T>
  void operator&&(T&&) const {}
};

template<typename L, typename R>
std::string CheckOpMessage(char const* text, L const& l, R const& r) {
  std::ostringstream os;
  os << text << " (";
  StreamValue(os, l);
  os << " vs. ";
  StreamValue(os, r);
  os << ")";
  return os.str();
}

#define PRINCIPIA_SHIM_OP(name, op)                                         \
  template<typename L, typename R>                                          \
  constexpr std::unique_ptr<std::string> Check##name(                       \
      L const& l, R const& r, char const* text) {                           \
    if (l op r) [[likely]] {                                                \
      return nullptr;                                                       \
    }                                                                       \
    return std::make_unique<std::string>(CheckOpMessage(text, l, r));       \
  }
PRINCIPIA_SHIM_OP(EQ, ==)
PRINCIPIA_SHIM_OP(NE, !=)
PRINCIPIA_SHIM_OP(LT, <)
PRINCIPIA_SHIM_OP(LE, <=)
PRINCIPIA_SHIM_OP(GT, >)
PRINCIPIA_SHIM_OP(GE, >=)
#undef PRINCIPIA_SHIM_OP

inline absl::Status AsStatus(absl::Status const& s) { return s; }
template<typename T>
absl::Status AsStatus(absl::StatusOr<T> const& s) { return s.status(); }

template<typename S>
std::unique_ptr<std::string> CheckOk(S const& s, char const* text) {
  if (s.ok()) {
    return nullptr;
  }
  return std::make_unique<std::string>(std::string(text) + " is OK (" +
                                       AsStatus(s).ToString() + ")");
}

template<typename T>
T DieIfNull(char const* file, int line, char const* text, T&& t) {
  if (t == nullptr) {
    LogMessageFatal(file, line, std::string("'") + text + "' Must be non-null");
  }
  return std::forward<T>(t);
}

}  // namespace principia_shim

inline void AddLogSink(LogSink* sink) {
  auto& s = principia_shim::state();
  std::lock_guard<std::recursive_mutex> l(s.lock);
  s.sinks.push_back(sink);
}
inline void RemoveLogSink(LogSink* sink) {
  auto& s = principia_shim::state();
  std::lock_guard<std::recursive_mutex> l(s.lock);
  std::erase(s.sinks, sink);
}
inline void FlushLogSinks() {}

enum class LogSeverityAtLeastShim_ : int {};

inline void SetMinLogLevel(absl::LogSeverityAtLeast s) {
  principia_shim::state().min_log_level = static_cast<int>(s);
}
inline absl::LogSeverityAtLeast MinLogLevel() {
  return static_cast<absl::LogSeverityAtLeast>(
      principia_shim::state().min_log_level);
}
inline void SetStderrThreshold(absl::LogSeverityAtLeast s) {
  principia_shim::state().stderr_threshold = static_cast<int>(s);
}
inline void SetStderrThreshold(absl::LogSeverity s) {
  principia_shim::state().stderr_threshold = static_cast<int>(s);
}
inline absl::LogSeverityAtLeast StderrThreshold() {
  return static_cast<absl::LogSeverityAtLeast>(
      principia_shim::state().stderr_threshold);
}
inline int SetGlobalVLogLevel(int l) {
  return std::exchange(principia_shim::state().vlog_level, l);
}
inline void InitializeLog() {}
namespace log_internal {
inline void SetTimeZone(absl::TimeZone) {}
inline bool IsInitialized() { return true; }
inline void SetInitialized() {}
}  // namespace log_internal

class ScopedStderrThreshold {
 public:
  explicit ScopedStderrThreshold(absl::LogSeverityAtLeast s)
      : saved_(StderrThreshold()) {
    SetStderrThreshold(s);
  }
  ~ScopedStderrThreshold() { SetStderrThreshold(saved_); }

 private:
  absl::LogSeverityAtLeast saved_;
};

}  // namespace absl

#define PRINCIPIA_SHIM_LOG_INFO                       \
  ::absl::principia_shim::LogMessage(__FILE__, __LINE__, \
                                     ::absl::LogSeverity::kInfo)
#define PRINCIPIA_SHIM_LOG_WARNING                    \
  ::absl::principia_shim::LogMessage(__FILE__, __LINE__, \
                                     ::absl::LogSeverity::kWarning)
#define PRINCIPIA_SHIM_LOG_ERROR                      \
  ::absl::principia_shim::LogMessage(__FILE__, __LINE__, \
                                     ::absl::LogSeverity::kError)
#define PRINCIPIA_SHIM_LOG_FATAL \
  ::absl::principia_shim::LogMessageFatal(__FILE__, __LINE__)
#define PRINCIPIA_SHIM_LOG_DFATAL PRINCIPIA_SHIM_LOG_ERROR
#define PRINCIPIA_SHIM_LOG_QFATAL PRINCIPIA_SHIM_LOG_FATAL
#define PRINCIPIA_SHIM_LOG_LEVEL(s) \
  ::absl::principia_shim::LogMessage(__FILE__, __LINE__, (s))

#define PRINCIPIA_SHIM_VOID ::absl::principia_shim::Voidify() &&
#define PRINCIPIA_SHIM_CAT_(a, b) a##b
#define PRINCIPIA_SHIM_CAT(a, b) PRINCIPIA_SHIM_CAT_(a, b)

#define LOG(severity) PRINCIPIA_SHIM_LOG_##severity.stream()
#define LOG_IF(severity, condition) \
  switch (0)                        \
  case 0:                           \
  default:                          \
    !(condition) ? (void)0 : PRINCIPIA_SHIM_VOID LOG(severity)
#define VLOG_IS_ON(n) (::absl::principia_shim::state().vlog_level >= (n))
#define VLOG(n) LOG_IF(INFO, VLOG_IS_ON(n))
#define LOG_EVERY_N(severity, n)                                   \
  LOG_IF(severity, ([] {                                           \
           static std::atomic<std::int64_t> c{0};                  \
           return c++ % (n) == 0;                                  \
         }()))
#define LOG_EVERY_N_SEC(severity, n)                               \
  LOG_IF(severity, ([] {                                           \
           static std::atomic<std::int64_t> c{0};                  \
           return c++ == 0;                                        \
         }()))
#define LOG_IF_EVERY_N_SEC(severity, condition, n)                 \
  LOG_IF(severity, (condition) && ([] {                            \
           static std::atomic<std::int64_t> c{0};                  \
           return c++ == 0;                                        \
         }()))
#define LOG_FIRST_N(severity, n)                                   \
  LOG_IF(severity, ([] {                                           \
           static std::atomic<std::int64_t> c{0};                  \
           return c++ < (n);                                       \
         }()))

#define CHECK(condition)                                            \
  switch (0)                                                        \
  case 0:                                                           \
  default:                                                          \
    (condition) ? (void)0                                           \
                : PRINCIPIA_SHIM_VOID ::absl::principia_shim::      \
                      LogMessageFatal(__FILE__, __LINE__, #condition) \
                          .stream()
#define QCHECK(condition) CHECK(condition)
#define PCHECK(condition) CHECK(condition)

#define PRINCIPIA_SHIM_CHECK_OP(name, op, a, b)                               \
  while (auto principia_shim_result = ::absl::principia_shim::Check##name(    \
             (a), (b), #a " " #op " " #b))                                    \
  ::absl::principia_shim::LogMessageFatal(                                    \
      __FILE__, __LINE__, *principia_shim_result)                             \
      .stream()
#define CHECK_EQ(a, b) PRINCIPIA_SHIM_CHECK_OP(EQ, ==, a, b)
#define CHECK_NE(a, b) PRINCIPIA_SHIM_CHECK_OP(NE, !=, a, b)
#define CHECK_LT(a, b) PRINCIPIA_SHIM_CHECK_OP(LT, <, a, b)
#define CHECK_LE(a, b) PRINCIPIA_SHIM_CHECK_OP(LE, <=, a, b)
#define CHECK_GT(a, b) PRINCIPIA_SHIM_CHECK_OP(GT, >, a, b)
#define CHECK_GE(a, b) PRINCIPIA_SHIM_CHECK_OP(GE, >=, a, b)
#define CHECK_OK(s)                                                           \
  while (auto principia_shim_result = ::absl::principia_shim::CheckOk((s), #s)) \
  ::absl::principia_shim::LogMessageFatal(                                    \
      __FILE__, __LINE__, *principia_shim_result)                             \
      .stream()

#ifdef NDEBUG
#define DLOG(severity) \
  while (false) LOG(severity)
#define DCHECK(c) \
  while (false) CHECK(c)
#define DCHECK_EQ(a, b) \
  while (false) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) \
  while (false) CHECK_NE(a, b)
#define DCHECK_LT(a, b) \
  while (false) CHECK_LT(a, b)
#define DCHECK_LE(a, b) \
  while (false) CHECK_LE(a, b)
#define DCHECK_GT(a, b) \
  while (false) CHECK_GT(a, b)
#define DCHECK_GE(a, b) \
  while (false) CHECK_GE(a, b)
#define DCHECK_OK(s) \
  while (false) CHECK_OK(s)
#else
#define DLOG(severity) LOG(severity)
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_OK(s) CHECK_OK(s)
#endif

#define ABSL_DIE_IF_NULL(p) \
  ::absl::principia_shim::DieIfNull(__FILE__, __LINE__, #p, (p))
