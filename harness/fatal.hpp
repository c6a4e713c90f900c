// Makes the fatal errors of the code under test (CHECK, LOG(FATAL)) throw.
#pragma once

#include <cstdio>
#include <cstdlib>

#include "absl/log/principia_log_shim.h"
#include "pbt.hpp"

namespace pbt {

inline void InstallFatalHandler() {
  absl::principia_shim::state().fatal = [](std::string const& message) {
    if (std::getenv("PBT_VERBOSE") != nullptr) {
      std::fprintf(stderr, "fatal: %s\n", message.c_str());
    }
    throw FatalError{message};
  };
  absl::principia_shim::state().stderr_threshold = 4;
}

}  // namespace pbt
