// shared by the harnesses of the protocol parsers and the registry
#pragma once
#include "h.h"
#include "spectator/registry.h"
#include "spectator/percentile_timer.h"
#include "spectator/percentile_distribution_summary.h"
#include "util/logger.h"
#include <cmath>
#include <map>
#include <memory>
using namespace spectator;
inline std::unique_ptr<Config> config(size_t age_limit = 1000, bool status = false) {
  auto c = std::make_unique<Config>();
  c->age_gauge_limit = age_limit;
  c->status_metrics_enabled = status;
  c->meter_ttl = absl::Minutes(15);
  return c;
}
inline std::string text(const Id& id) {
  std::map<std::string, std::string> m;
  for (const auto& t : id.GetTags()) m[t.key.Get()] = t.value.Get();
  std::string r = id.Name().Get();
  for (auto& p : m) r += "|" + p.first + "=" + p.second;
  return r;
}
inline bool alike(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
// what the meters of a registry report (their ids and values), age gauges apart
inline std::multimap<std::string, double> report(Registry& r) {
  std::multimap<std::string, double> m;
  for (auto& x : r.Measurements()) m.emplace(text(x.id), x.value);
  return m;
}
inline std::string show(const std::multimap<std::string, double>& m) {
  std::string r;
  for (auto& p : m) r += p.first + " = " + h::d2s(p.second) + "; ";
  return r.empty() ? "nothing" : r;
}
inline bool alike(const std::multimap<std::string, double>& a, const std::multimap<std::string, double>& b) {
  if (a.size() != b.size()) return false;
  auto i = a.begin(), j = b.begin();
  for (; i != a.end(); ++i, ++j) if (i->first != j->first || !alike(i->second, j->second)) return false;
  return true;
}
