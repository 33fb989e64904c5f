#pragma once
#include <cstdint>
#include <stdexec/execution.hpp>
namespace exec {
struct no_numa_policy {};
struct numa_policy { template <class T> numa_policy(T) {} };
struct static_thread_pool {
  explicit static_thread_pool(uint32_t = 0) {}
  struct scheduler {};
  scheduler get_scheduler() { return {}; }
};
}
