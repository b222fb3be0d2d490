// Force-included before the sources of /repo in the "mc" variant.
#pragma once


// Everything that is not of /repo is included before the names below are
// replaced.
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <iostream>
#include <istream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <tuple>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

#include <signal.h>

#include <absl/strings/numbers.h>
#include <fmt/format.h>

// The sandbox's adapter from fmt 6 to fmt 9 only translates the format
// strings that are literals; also translate the others.
namespace fmt {
template<typename S, typename... Args, typename = std::enable_if_t<std::is_same_v<S, const char *>>>
inline std::string format(S &s, Args &&...args)
{
    return fmt::vformat(mlio_compat::translate_format(s), fmt::make_format_args(args...));
}
}  // namespace fmt

#include <tbb/tbb.h>

#include "mc_random.h"
#include "mc_sync.h"

#ifndef MC_NO_SYNC_SHIM
#define mutex mc_mutex_t
#define condition_variable mc_condition_variable_t
#define thread mc_thread_t
#define atomic mc_atomic_t
#define atomic_bool mc_atomic_bool_t
#define atomic_int mc_atomic_int_t
#define atomic_size_t mc_atomic_size_t_t
#define atomic_ptrdiff_t mc_atomic_ptrdiff_t_t
#endif

#define mt19937_64 mc_mt19937_64_t
#define random_device mc_random_device_t
