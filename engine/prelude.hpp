// Pre-included before libfork in simulator builds: every standard header libfork uses, then hide the architecture
// so that libfork's seq_cst fence is std::atomic_thread_fence (visible to the simulator) and not inline assembly.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <bit>
#include <cassert>
#include <climits>
#include <concepts>
#include <coroutine>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iterator>
#include <latch>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <new>
#include <numeric>
#include <optional>
#include <random>
#include <ranges>
#include <semaphore>
#include <set>
#include <source_location>
#include <span>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <version>
#ifdef VF_HWLOC
  #include <hwloc.h>
#endif
#undef __x86_64__
#undef __i386__
#include "vf.h"
