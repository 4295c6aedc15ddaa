// Included before every translation unit of the meters (-include): std::atomic and absl::MutexLock are replaced, in
// /repo's code only, by versions that call vc_point() before each access, so that the harness can run operations of
// "other threads" at every point of an operation.  All library headers are included first, unchanged.
#pragma once
#include <atomic>
#include <array>
#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <mutex>
#include <ostream>
#include <string>
#include <string_view>
#include <thread>
#include <unordered_map>
#include <vector>
#include <fmt/core.h>
#include <fmt/format.h>
#include <fmt/ranges.h>
#include "absl/base/thread_annotations.h"
#include "absl/synchronization/mutex.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include <tsl/hopscotch_map.h>
#include <tsl/hopscotch_set.h>

inline int vc_depth = 0;
inline std::function<void()> vc_hook;
inline void vc_point() {
  if (vc_hook && vc_depth == 0) {
    ++vc_depth;
    vc_hook();
    --vc_depth;
  }
}
inline int64_t vc_clock = 1000000000000LL;   // what absl::GetCurrentTimeNanos gives, moved by the harness
inline bool vc_clock_on = false;
inline int64_t vc_now() { return vc_clock_on ? vc_clock : absl::GetCurrentTimeNanos(); }
inline uint64_t vc_spurious = 0;
namespace std {
template <class T>
class vc_atomic {
  mutable T v;

 public:
  vc_atomic() noexcept = default;
  constexpr vc_atomic(T x) noexcept : v(x) {}
  vc_atomic(const vc_atomic&) = delete;
  T load(memory_order = memory_order_seq_cst) const noexcept { vc_point(); return v; }
  void store(T x, memory_order = memory_order_seq_cst) noexcept { vc_point(); v = x; }
  T exchange(T x, memory_order = memory_order_seq_cst) noexcept { vc_point(); T o = v; v = x; return o; }
  bool compare_exchange_strong(T& e, T x, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept {
    vc_point();
    if (memcmp(&v, &e, sizeof(T)) == 0) { v = x; return true; }
    e = v;
    return false;
  }
  bool compare_exchange_weak(T& e, T x, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept {
    if (++vc_spurious % 7 == 0) { vc_point(); e = v; return false; }
    return compare_exchange_strong(e, x);
  }
  T fetch_add(T d, memory_order = memory_order_seq_cst) noexcept { vc_point(); T o = v; v = v + d; return o; }
  T fetch_sub(T d, memory_order = memory_order_seq_cst) noexcept { vc_point(); T o = v; v = v - d; return o; }
  operator T() const noexcept { return load(); }
  T operator=(T x) noexcept { store(x); return x; }
  T operator+=(T d) noexcept { return fetch_add(d) + d; }
  T operator-=(T d) noexcept { return fetch_sub(d) - d; }
  T operator++() noexcept { return fetch_add(1) + 1; }
  T operator++(int) noexcept { return fetch_add(1); }
  T operator--() noexcept { return fetch_sub(1) - 1; }
  T operator--(int) noexcept { return fetch_sub(1); }
  bool is_lock_free() const noexcept { return true; }
};
using vc_atomic_int64_t = vc_atomic<int64_t>;
using vc_atomic_bool = vc_atomic<bool>;
using vc_atomic_uint64_t = vc_atomic<uint64_t>;
}  // namespace std
namespace absl {
class vc_MutexLock {
  Mutex* m;

 public:
  explicit vc_MutexLock(Mutex* mu) : m(mu) { vc_point(); m->Lock(); ++vc_depth; }
  ~vc_MutexLock() { --vc_depth; m->Unlock(); }
};
inline int64_t vc_GetCurrentTimeNanos() { return vc_now(); }
inline absl::Time vc_Now() { return absl::FromUnixNanos(vc_now()); }
}  // namespace absl
#ifndef VC_NO_ATOMIC_SHIM
#define atomic vc_atomic
#define atomic_int64_t vc_atomic_int64_t
#define atomic_bool vc_atomic_bool
#define atomic_uint64_t vc_atomic_uint64_t
#define MutexLock vc_MutexLock
#endif
#define GetCurrentTimeNanos vc_GetCurrentTimeNanos
#define Now vc_Now
