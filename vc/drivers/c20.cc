#include "spectator/percentile_timer.h"
#include "spectator/percentile_distribution_summary.h"
using namespace spectator;
extern "C" {
extern const unsigned long vc_pt_size = sizeof(PercentileTimer), vc_pd_size = sizeof(PercentileDistributionSummary), vc_id_size = sizeof(Id), vc_str_size = sizeof(std::string), vc_registry_size = sizeof(Registry);
void vc_pt_new(PercentileTimer* p, Registry* r, Id* id, absl::Duration const* lo, absl::Duration const* hi) { new (p) PercentileTimer(r, std::move(*id), *lo, *hi); }
void vc_pd_new(PercentileDistributionSummary* p, Registry* r, Id* id, int64_t lo, int64_t hi) { new (p) PercentileDistributionSummary(r, std::move(*id), lo, hi); }
void vc_pt_record(PercentileTimer* p, absl::Duration d) { p->Record(d); }
void vc_pt_record_chrono(PercentileTimer* p, std::chrono::nanoseconds d) { p->Record(d); }
void vc_pd_record(PercentileDistributionSummary* p, int64_t d) { p->Record(d); }
}
