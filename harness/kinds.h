// meters of every kind by number
#pragma once
#include "clock.h"
#include "registry.h"
inline const char* KIND[] = {"age gauge", "counter", "distribution summary", "gauge", "max gauge", "monotonic counter", "monotonic counter (uint)", "monotonic sampled", "timer"};
inline std::shared_ptr<Meter> get(Registry& r, int k, const Id& id) {
#define G(N, F) case N: return std::shared_ptr<Meter>(r.Get##F(id));
  switch (k) {
    case 0: return std::static_pointer_cast<Meter>(r.GetAgeGauge(id));
    case 1: return std::static_pointer_cast<Meter>(r.GetCounter(id));
    case 2: return std::static_pointer_cast<Meter>(r.GetDistributionSummary(id));
    case 3: return std::static_pointer_cast<Meter>(r.GetGauge(id));
    case 4: return std::static_pointer_cast<Meter>(r.GetMaxGauge(id));
    case 5: return std::static_pointer_cast<Meter>(r.GetMonotonicCounter(id));
    case 6: return std::static_pointer_cast<Meter>(r.GetMonotonicCounterUint(id));
    case 7: return std::static_pointer_cast<Meter>(r.GetMonotonicSampled(id));
    default: return std::static_pointer_cast<Meter>(r.GetTimer(id));
  }
}
inline void update(int k, Meter* m, double v) {
  switch (k) {
    case 0: static_cast<AgeGauge*>(m)->UpdateLastSuccess(h::now); break;
    case 1: static_cast<Counter*>(m)->Add(v); break;
    case 2: static_cast<DistributionSummary*>(m)->Record(v); break;
    case 3: static_cast<Gauge*>(m)->Set(v); break;
    case 4: static_cast<MaxGauge*>(m)->Update(v); break;
    case 5: static_cast<MonotonicCounter*>(m)->Set(v); break;
    case 6: static_cast<MonotonicCounterUint*>(m)->Set(uint64_t(v)); break;
    case 7: static_cast<MonotonicSampled*>(m)->Set(v, h::now); break;
    default: static_cast<Timer*>(m)->Record(std::chrono::nanoseconds(int64_t(v))); break;
  }
}
// something of the state of the meter that an expiration must not change
inline double state(int k, Meter* m) {
  switch (k) {
    case 1: return static_cast<Counter*>(m)->Count();
    case 2: return static_cast<DistributionSummary*>(m)->TotalAmount() + 1e6 * static_cast<DistributionSummary*>(m)->Count();
    case 3: return static_cast<Gauge*>(m)->Get();
    case 4: return static_cast<MaxGauge*>(m)->Get();
    case 8: return static_cast<Timer*>(m)->TotalTime() + 1e12 * static_cast<Timer*>(m)->Count();
    default: return 0;
  }
}
template <class M> inline void ids(detail::meter_map<M>& m, int k, std::map<std::pair<int, std::string>, Meter*>& r) {
  for (auto& p : m.meters_) r[{k, text(p.first)}] = p.second.get();
}
inline auto registered(Registry& r) {
  std::map<std::pair<int, std::string>, Meter*> m;
  auto& a = r.all_meters_;
  ids(a.age_gauges_, 0, m); ids(a.counters_, 1, m); ids(a.dist_sums_, 2, m); ids(a.gauges_, 3, m); ids(a.max_gauges_, 4, m);
  ids(a.mono_counters_, 5, m); ids(a.mono_counters_uint_, 6, m); ids(a.mono_sampled_, 7, m); ids(a.timers_, 8, m);
  return m;
}

