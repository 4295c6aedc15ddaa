// C17: one id of one kind always means one meter
#include "clock.h"
#include "registry.h"
#include <thread>
#include <mutex>

static const char* KIND[] = {"age gauge", "counter", "distribution summary", "gauge", "max gauge", "monotonic counter", "monotonic counter (uint)", "monotonic sampled", "timer"};
static std::shared_ptr<void> get(Registry& r, int k, Id id, bool by_name, const Meter** m) {
  auto name = id.Name();
  auto tags = id.GetTags();
#define G(N, F) case N: { auto p = by_name ? r.Get##F(std::string_view(name.Get()), tags) : r.Get##F(std::move(id)); *m = p.get(); return p; }
  switch (k) { G(0, AgeGauge) G(1, Counter) G(2, DistributionSummary) G(3, Gauge) G(4, MaxGauge) G(5, MonotonicCounter) G(6, MonotonicCounterUint) G(7, MonotonicSampled) G(8, Timer) }
  return nullptr;
}
static Id make() {
  static const char* names[] = {"a", "b", "ab", "a.b"};
  static const char* ks[] = {"x", "y", "xy"};
  static const char* vs[] = {"1", "2", "12"};
  std::vector<std::pair<int, int>> t;
  for (int i = 0; i < 3; ++i) if (h::rnd(3) == 0) t.push_back({i, int(h::rnd(3))});
  std::shuffle(t.begin(), t.end(), h::rng);
  Tags tags;
  for (auto& p : t) { if (h::rnd(4) == 0) tags.add(ks[p.first], "other"); tags.add(ks[p.first], vs[p.second]); }
  return Id(names[h::rnd(4)], tags);
}

static void sequence() {
  size_t limit = h::rnd(5);
  Registry r{config(limit), spectatord::Logger()};
  struct Known { std::shared_ptr<void> p; int64_t updated, ttl; };
  std::map<std::pair<int, std::string>, Known> live;
  h::now += 16LL * 60 * 1000000000;
  r.remove_expired_meters();
  std::string log = "limit " + std::to_string(limit) + ": ";
  const int64_t TTL = 15LL * 60 * 1000000000;
  auto count = [&](int k) { size_t n = 0; for (auto& p : live) n += p.first.first == k; return n; };
  for (int step = 0, n = 5 + h::rnd(60); step < n; ++step) {
    ++h::cases;
    int what = h::rnd(20);
    if (what < 16) {
      int k = h::rnd(9);
      if (h::rnd(3) == 0) k = 0;
      Id id = make();
      bool ttl = k == 3 && h::rnd(2) == 0, by_name = !ttl && h::rnd(3) == 0;
      int64_t secs = 5 + h::rnd(100);
      auto key = std::make_pair(k, text(id));
      log += std::string(ttl ? "gauge with TTL " + std::to_string(secs) + " s" : KIND[k]) + (by_name ? " by name " : " ") + key.second + ", ";
      h::trying(log);
      const Meter* m = nullptr;
      std::shared_ptr<void> p;
      if (ttl) { auto g = r.GetGauge(id, absl::Seconds(secs)); m = g.get(); p = g; if (absl::ToInt64Nanoseconds(g->GetTtl()) != secs * 1000000000) h::fail(log + ": the TTL asked for is not applied"); }
      else p = get(r, k, id, by_name, &m);
      if (!p) { h::fail(log + ": no meter"); return; }
      if (text(m->MeterId()) != key.second || !(m->MeterId() == id)) h::fail(log + ": its id is " + text(m->MeterId()));
      auto it = live.find(key);
      if (it != live.end()) {
        if (it->second.p != p) h::fail(log + ": another meter than before");
        if (k == 3 && !ttl && absl::ToInt64Nanoseconds(static_cast<Gauge*>(p.get())->GetTtl()) != it->second.ttl) h::fail(log + ": the TTL changed");
      } else {
        for (auto& q : live) if (q.second.p == p) h::fail(log + ": the meter of " + KIND[q.first.first] + " " + q.first.second);
        if (k == 0 && count(0) >= limit) {
          auto g = std::static_pointer_cast<AgeGauge>(p);
          g->UpdateLastSuccess(h::now - 5000000000LL);
          Measurements ms; g->Measure(&ms);
          if (ms.size() != 1 || ms[0].value != 5) h::fail(log + ": the gauge beyond the limit does not work");
          if (r.AgeGauges().size() != count(0)) h::fail(log + ": registered beyond the limit");
          continue;
        }
        if (k == 3 && !ttl && absl::ToInt64Nanoseconds(static_cast<Gauge*>(p.get())->GetTtl()) != TTL) h::fail(log + ": not the configured TTL");
      }
      auto& e = live[key];
      if (it == live.end()) e = {p, h::now, k == 3 ? TTL : 0};
      if (ttl) e.ttl = secs * 1000000000;
    } else if (what == 16) {
      Id id = make();
      bool a = h::rnd(2);
      log += std::string("delete ") + (a ? "A " : "g ") + text(id) + ", ";
      h::trying(log);
      r.DeleteMeter(a ? "A" : "g", id);
      live.erase({a ? 0 : 3, text(id)});
    } else if (what == 17 && h::rnd(3) == 0) {
      bool a = h::rnd(2);
      log += std::string("delete all ") + (a ? "A, " : "g, ");
      r.DeleteAllMeters(a ? "A" : "g");
      for (auto i = live.begin(); i != live.end();) if (i->first.first == (a ? 0 : 3)) i = live.erase(i); else ++i;
    } else {
      h::now += h::rnd(2) ? 60LL * 1000000000 : 16LL * 60 * 1000000000;
      log += "expire at " + std::to_string(h::now) + ", ";
      r.remove_expired_meters();
      for (auto i = live.begin(); i != live.end();) {
        int k = i->first.first;
        bool gone = k != 0 && h::now - i->second.updated > (k == 3 ? i->second.ttl : TTL);
        if (gone) i = live.erase(i); else ++i;
      }
    }
    if (r.Size() != live.size()) { h::fail(log + ": " + std::to_string(r.Size()) + " meters, want " + std::to_string(live.size())); return; }
  }
}

static void race() {
  size_t limit = 1 + h::rnd(3);
  Registry r{config(limit), spectatord::Logger()};
  const int T = 4, N = 40;
  std::vector<std::vector<std::shared_ptr<void>>> got(T);
  std::vector<std::pair<int, Id>> asked;
  for (int i = 0; i < N; ++i) asked.emplace_back(h::rnd(3) ? h::rnd(9) : 0, make());
  bool deleting = h::rnd(2);
  h::trying("four threads ask for " + std::to_string(N) + " meters" + (deleting ? " while age gauges are deleted" : ""));
  std::atomic<int> ready{0};
  std::atomic<bool> over{false};
  std::atomic<size_t> most{0};
  std::vector<std::thread> ts;
  for (int t = 0; t < T; ++t) ts.emplace_back([&, t] {
    ++ready; while (ready < T) {}
    for (auto& a : asked) { const Meter* m; got[t].push_back(get(r, a.first, a.second, false, &m)); }
  });
  std::thread d([&] { while (!over) { if (deleting) for (auto& a : asked) if (a.first == 0) r.DeleteMeter("A", a.second); size_t n = r.all_meters_.age_gauges_.size(); if (n > most) most = n; } });
  for (auto& t : ts) t.join();
  over = true; d.join();
  ++h::cases;
  if (most > limit || r.AgeGauges().size() > limit) h::fail("racing threads registered " + std::to_string(std::max<size_t>(most, r.AgeGauges().size())) + " age gauges, limit " + std::to_string(limit));
  std::map<std::pair<int, std::string>, void*> first;
  for (int t = 0; t < T; ++t) for (int i = 0; i < N; ++i) {
    if (asked[i].first == 0) continue;
    auto& f = first[{asked[i].first, text(asked[i].second)}];
    if (f && f != got[t][i].get()) { h::fail(std::string("racing threads got two meters for one id of a ") + KIND[asked[i].first]); return; }
    f = got[t][i].get();
  }
}

int main(int argc, char** argv) {
  h::init(argc, argv);
  spectatord::Logger()->set_level(spdlog::level::off);
  for (int i = 0, n = h::thorough ? 20000 : 1500; i < n; ++i) sequence();
  for (int i = 0, n = h::thorough ? 5000 : 400; i < n; ++i) race();
  return h::done();
}
