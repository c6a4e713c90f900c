#pragma once
#include <gmock/gmock.h>
#include "absl/log/principia_log_shim.h"
namespace absl {
enum class MockLogDefault { kIgnoreUnexpected, kDisallowUnexpected };
class ScopedMockLog final {
 public:
  explicit ScopedMockLog(MockLogDefault = MockLogDefault::kIgnoreUnexpected)
      : sink_(this) {
    EXPECT_CALL(*this, Log).Times(::testing::AnyNumber());
  }
  ~ScopedMockLog() { if (on_) RemoveLogSink(&sink_); }
  void StartCapturingLogs() { on_ = true; AddLogSink(&sink_); }
  void StopCapturingLogs() { on_ = false; RemoveLogSink(&sink_); }
  MOCK_METHOD(void, Log, (absl::LogSeverity, std::string const&, std::string const&));
 private:
  struct Sink : LogSink {
    explicit Sink(ScopedMockLog* m) : m(m) {}
    void Send(LogEntry const& e) override {
      if (e.stack.empty()) m->Log(e.severity, e.file, e.message);
    }
    ScopedMockLog* m;
  };
  Sink sink_;
  bool on_ = false;
};
}  // namespace absl
