#include "server/expiring_cache.h"
#include "spectator/percentile_timer.h"
#include "spectator/percentile_distribution_summary.h"
using namespace spectator;
template <class V> std::unique_ptr<V> vc_supplier(Registry*, Id);
template <> std::unique_ptr<PercentileTimer> vc_supplier<PercentileTimer>(Registry*, Id);
template <> std::unique_ptr<PercentileDistributionSummary> vc_supplier<PercentileDistributionSummary>(Registry*, Id);
using CT = spectatord::expiring_cache<PercentileTimer>;
using CD = spectatord::expiring_cache<PercentileDistributionSummary>;
static_assert(sizeof(CT) == sizeof(CD));
using vc_it = decltype(std::declval<CT>().cache_.emplace(std::declval<std::pair<Id, spectatord::detail::cache_entry<PercentileTimer>>>()));
extern "C" {
extern const unsigned long vc_cache_size = sizeof(CT), vc_table = offsetof(CT, cache_), vc_mutex = offsetof(CT, cache_mutex_), vc_id_size = sizeof(Id), vc_emplaced = offsetof(vc_it, second), vc_iterator_size = sizeof(vc_it::first_type),
    vc_updated = offsetof(spectatord::detail::cache_entry<PercentileTimer>, updated), vc_v = offsetof(spectatord::detail::cache_entry<PercentileTimer>, v), vc_registry_size = sizeof(Registry);
#define KIND(N, C, V) \
  void vc_new_##N(C* c) { new (c) C(vc_supplier<V>); } \
  V* vc_get_##N(C* c, Registry* r, Id* id) { return c->get_or_create(r, std::move(*id)); } \
  void vc_expire_##N(C* c, size_t* size, size_t* expired) { auto x = c->expire(); *size = x.first; *expired = x.second; }
KIND(timer, CT, PercentileTimer)
KIND(summary, CD, PercentileDistributionSummary)
}
