// layout of the registry
#include "spectator/registry.h"
using namespace spectator;
using vc_emplace_t = decltype(std::declval<detail::meter_map<Counter>::table_t&>().emplace(std::declval<const Id&>(), std::declval<std::shared_ptr<Counter>>()));
#define K(KIND, FIELD) extern const unsigned long vc_mutex_##KIND = offsetof(Registry, all_meters_.FIELD.meters_mutex_), vc_table_##KIND = offsetof(Registry, all_meters_.FIELD.meters_), vc_map_##KIND = offsetof(Registry, all_meters_.FIELD);
extern "C" {
extern const unsigned long vc_registry_size = sizeof(Registry), vc_all_meters = offsetof(Registry, all_meters_), vc_config = offsetof(Registry, config_), vc_logger = offsetof(Registry, logger_), vc_ttl = offsetof(Registry, meter_ttl_),
    vc_config_size = sizeof(Config), vc_limit = offsetof(Config, age_gauge_limit), vc_meter_ttl = offsetof(Config, meter_ttl), vc_status = offsetof(Config, status_metrics_enabled), vc_registry_size_ptr = offsetof(Registry, registry_size_),
    vc_emplaced = offsetof(vc_emplace_t, second), vc_callbacks = offsetof(Registry, ms_callbacks_), vc_id_size = sizeof(Id);
K(AgeGauge, age_gauges_) K(Counter, counters_) K(DistributionSummary, dist_sums_) K(Gauge, gauges_) K(MaxGauge, max_gauges_) K(MonotonicCounter, mono_counters_) K(MonotonicCounterUint, mono_counters_uint_)
K(MonotonicSampled, mono_sampled_) K(Timer, timers_)
}
size_t vc_size(const Registry* r) { return r->Size(); }
