// Force-included: names that Principia gets from libc++ transitively.
#pragma once
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>
using std::nullptr_t;
