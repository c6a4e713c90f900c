#pragma once
#include "absl/log/principia_log_shim.h"
