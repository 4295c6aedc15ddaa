// C19: Measurements() of a registry against what every meter of a twin registry reports by itself
#include "kinds.h"

static std::string what(const Id& id) { return text(id); }
template <class M> static void each(detail::meter_map<M>& m, int k, int64_t ttl, std::multimap<std::string, double>& out) {
  for (auto& p : m.meters_) {
    int64_t own = ttl;
    if constexpr (std::is_same_v<M, Gauge>) own = absl::ToInt64Nanoseconds(p.second->GetTtl());
    if (k != 0 && h::now - p.second->Updated() > own) continue;
    Measurements ms;
    p.second->Measure(&ms);
    for (auto& x : ms) out.emplace(what(x.id), x.value);
  }
}
static void sequence() {
  bool status = h::rnd(2);
  int64_t ttl = h::rnd(6) ? int64_t(1 + h::rnd(1000)) * 1000000 : 0;
  auto mk = [&] { auto c = config(1000, status); c->meter_ttl = absl::Nanoseconds(ttl); return c; };
  Registry r{mk(), spectatord::Logger()}, t{mk(), spectatord::Logger()};
  if (!ttl) ttl = 15 * 60 * 1000000000LL;  // the default
  std::string log = "TTL " + std::to_string(ttl) + (status ? " ns, status metrics: " : " ns: ");
  int called = 0;
  size_t given = 0;
  int callbacks = h::rnd(3);
  for (int i = 0; i < callbacks; ++i) r.OnMeasurements([&](const std::vector<Measurement>& m) { ++called; given = m.size(); });
  for (int step = 0, n = 5 + h::rnd(60); step < n; ++step) {
    ++h::cases;
    int op = h::rnd(10);
    if (op < 6) {
      int k = h::rnd(9);
      Id id = h::rnd(5) ? Id::Of("m" + std::to_string(h::rnd(3))) : Id::Of("m", {{"a", "b"}});
      double v = 1 + h::rnd(1000);
      bool u = h::rnd(3);
      log += std::string("get ") + KIND[k] + " " + text(id) + (u ? ", update, " : ", ");
      for (auto* x : {&r, &t}) { auto m = get(*x, k, id); if (u) update(k, m.get(), v); }
    } else if (op == 6) {
      h::now += 1 + h::rnd(1000000000);
      log += "wait, ";
    } else if (op == 7) {
      r.remove_expired_meters(); t.remove_expired_meters();
      log += "expire, ";
    } else {
      auto all = registered(t);
      if (!all.empty() && h::rnd(2)) {
        auto i = all.begin();
        std::advance(i, h::rnd(all.size()));
        int64_t at = i->second->Updated() + ttl + int64_t(h::rnd(3)) - 1;
        if (at > h::now) h::now = at;
      } else h::now -= h::rnd(3);  // the clock was read before the last update
      log += "measure, ";
      h::trying(log);
      if (r.Size() != all.size()) h::fail(log + ": size " + std::to_string(r.Size()) + ", but there are " + std::to_string(all.size()) + " meters");
      std::multimap<std::string, double> want;
      auto& a = t.all_meters_;
      each(a.age_gauges_, 0, ttl, want); each(a.counters_, 1, ttl, want); each(a.dist_sums_, 2, ttl, want); each(a.gauges_, 3, ttl, want); each(a.max_gauges_, 4, ttl, want);
      each(a.mono_counters_, 5, ttl, want); each(a.mono_counters_uint_, 6, ttl, want); each(a.mono_sampled_, 7, ttl, want); each(a.timers_, 8, ttl, want);
      called = 0;
      auto ms = r.Measurements();
      std::multimap<std::string, double> got;
      for (auto& x : ms) got.emplace(what(x.id), x.value);
      // the order among equal keys may differ
      std::multiset<std::pair<std::string, uint64_t>> g2, w2;
      for (auto& p : got) g2.emplace(p.first, std::isnan(p.second) ? 1 : h::bits(p.second));
      for (auto& p : want) w2.emplace(p.first, std::isnan(p.second) ? 1 : h::bits(p.second));
      if (g2 != w2) { h::fail(log + ": reported " + show(got) + " -- want " + show(want)); return; }
      if (called != callbacks || (callbacks && given != ms.size())) h::fail(log + ": " + std::to_string(called) + " callbacks called");
      if (status) t.registry_size_->Record(double(ms.size()));
    }
  }
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  spectatord::Logger()->set_level(spdlog::level::off);
  for (int i = 0, n = h::thorough ? 40000 : 3000; i < n; ++i) sequence();
  return h::done();
}
