// a clock the harness can move: its definition of absl::GetCurrentTimeNanos takes precedence over the library's
#pragma once
#include "absl/time/clock.h"
#include <atomic>
#include <ctime>
namespace h { inline std::atomic<int64_t> now{1000000000000000LL}; inline std::atomic<bool> clock_on{true}; }
namespace absl { ABSL_NAMESPACE_BEGIN
int64_t GetCurrentTimeNanos() {
  if (h::clock_on) return h::now.load();
  timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000000000LL + t.tv_nsec;
}
ABSL_NAMESPACE_END }
