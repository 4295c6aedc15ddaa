// sizes of the meters and instantiation of their inline members
#include "spectator/age_gauge.h"
#include "spectator/counter.h"
#include "spectator/dist_summary.h"
#include "spectator/gauge.h"
#include "spectator/max_gauge.h"
#include "spectator/monotonic_counter.h"
#include "spectator/monotonic_counter_uint.h"
#include "spectator/monotonic_sampled.h"
#include "spectator/timer.h"
using namespace spectator;
#define SZ(T) extern "C" { extern const unsigned long vc_sizeof_##T; const unsigned long vc_sizeof_##T = sizeof(T); }
SZ(AgeGauge) SZ(Counter) SZ(DistributionSummary) SZ(Gauge) SZ(MaxGauge) SZ(MonotonicCounter) SZ(MonotonicCounterUint) SZ(MonotonicSampled) SZ(Timer) SZ(Id)
extern "C" {
void vc_AgeGauge_new(AgeGauge* p, Id* id) { new (p) AgeGauge(std::move(*id)); }
void vc_Counter_new(Counter* p, Id* id) { new (p) Counter(std::move(*id)); }
void vc_DistributionSummary_new(DistributionSummary* p, Id* id) { new (p) DistributionSummary(std::move(*id)); }
void vc_Gauge_new(Gauge* p, Id* id, absl::Duration d) { new (p) Gauge(std::move(*id), d); }
void vc_MaxGauge_new(MaxGauge* p, Id* id) { new (p) MaxGauge(std::move(*id)); }
void vc_MonotonicCounter_new(MonotonicCounter* p, Id* id) { new (p) MonotonicCounter(std::move(*id)); }
void vc_MonotonicCounterUint_new(MonotonicCounterUint* p, Id* id) { new (p) MonotonicCounterUint(std::move(*id)); }
void vc_MonotonicSampled_new(MonotonicSampled* p, Id* id) { new (p) MonotonicSampled(std::move(*id)); }
void vc_Timer_new(Timer* p, Id* id) { new (p) Timer(std::move(*id)); }
void vc_AgeGauge_Measure(AgeGauge* p, Measurements* r) { p->Measure(r); }
void vc_Counter_Measure(Counter* p, Measurements* r) { p->Measure(r); }
void vc_DistributionSummary_Measure(DistributionSummary* p, Measurements* r) { p->Measure(r); }
void vc_Gauge_Measure(Gauge* p, Measurements* r, int64_t now) { p->Measure(r, now); }
void vc_Gauge_MeasureNow(Gauge* p, Measurements* r) { p->Measure(r); }
void vc_MaxGauge_Measure(MaxGauge* p, Measurements* r) { p->Measure(r); }
void vc_MonotonicCounter_Measure(MonotonicCounter* p, Measurements* r) { p->Measure(r); }
void vc_MonotonicCounterUint_Measure(MonotonicCounterUint* p, Measurements* r) { p->Measure(r); }
void vc_MonotonicSampled_Measure(MonotonicSampled* p, Measurements* r) { p->Measure(r); }
void vc_Timer_Measure(Timer* p, Measurements* r) { p->Measure(r); }
void vc_AgeGauge_UpdateLastSuccess(AgeGauge* p, int64_t now) { p->UpdateLastSuccess(now); }
void vc_AgeGauge_UpdateLastSuccessNow(AgeGauge* p) { p->UpdateLastSuccess(); }
double vc_AgeGauge_Value(AgeGauge* p, int64_t now) { return p->Value(now); }
void vc_Counter_Add(Counter* p, double d) { p->Add(d); }
void vc_Counter_Increment(Counter* p) { p->Increment(); }
double vc_Counter_Count(Counter* p) { return p->Count(); }
void vc_DistributionSummary_Record(DistributionSummary* p, double d) { p->Record(d); }
void vc_Gauge_Set(Gauge* p, double d) { p->Set(d); }
void vc_Gauge_SetTtl(Gauge* p, absl::Duration d) { p->SetTtl(d); }
double vc_Gauge_Get(Gauge* p) { return p->Get(); }
bool vc_Gauge_HasExpired(Gauge* p, int64_t now) { return p->HasExpired(now); }
void vc_MaxGauge_Set(MaxGauge* p, double d) { p->Set(d); }
void vc_MaxGauge_Update(MaxGauge* p, double d) { p->Update(d); }
void vc_MonotonicCounter_Set(MonotonicCounter* p, double d) { p->Set(d); }
void vc_MonotonicCounterUint_Set(MonotonicCounterUint* p, uint64_t d) { p->Set(d); }
void vc_MonotonicSampled_Set(MonotonicSampled* p, double d, int64_t ts) { p->Set(d, ts); }
void vc_Timer_Record(Timer* p, absl::Duration d) { p->Record(d); }
void vc_Timer_RecordChrono(Timer* p, int64_t ns) { p->Record(std::chrono::nanoseconds(ns)); }
int64_t vc_Updated(Meter* p) { return p->Updated(); }
}
extern "C" int64_t vc_Timer_Count(Timer* p) { return p->Count(); }
extern "C" int64_t vc_Timer_TotalTime(Timer* p) { return p->TotalTime(); }
extern "C" int64_t vc_DistributionSummary_Count(DistributionSummary* p) { return p->Count(); }
extern "C" double vc_DistributionSummary_TotalAmount(DistributionSummary* p) { return p->TotalAmount(); }
extern "C" double vc_MaxGauge_Get(MaxGauge* p) { return p->Get(); }
extern "C" double vc_MonotonicSampled_SampledRate(MonotonicSampled* p) { return p->SampledRate(); }
