// C20: percentile timers and percentile distribution summaries against an independent account of the whole registry
#include "kinds.h"
#include "spectator/percentile_timer.h"
#include "spectator/percentile_distribution_summary.h"
#include <algorithm>
#include <memory>
static std::vector<uint64_t> table() {
  std::vector<uint64_t> t{1, 2, 3};
  for (int e = 2; e <= 60; e += 2) {
    uint64_t c = 1ull << e, d = c / 3, end = (c << 2) - d;
    for (; c < end; c += d) t.push_back(c);
  }
  t.push_back(INT64_MAX);
  return t;
}
static std::vector<uint64_t> T = table();
static size_t bucket(int64_t v) {
  if (v <= 0) return 0;
  size_t i = std::upper_bound(T.begin(), T.end(), uint64_t(v)) - T.begin();
  if (i >= 275) return 275;
  uint64_t b = T[i];
  if (b >= 16 && (b & (b - 1)) == 0 && __builtin_ctzll(b) % 2 == 0 && uint64_t(v) >= T[i - 1] + b / 4 / 3) ++i;
  return i;
}
static int64_t some() {
  switch (h::rnd(6)) {
    case 0: return int64_t(h::rnd(40)) - 20;
    case 1: return int64_t(T[h::rnd(T.size())] + h::rnd(5) - 2);
    case 2: return -int64_t(h::rng() >> (1 + h::rnd(63)));
    case 3: return h::rnd(2) ? INT64_MAX : INT64_MIN;
    case 4: return int64_t(h::rnd(100)) * 1000000000 + int64_t(h::rnd(3)) - 1;
    default: return int64_t(h::rng() >> (1 + h::rnd(63)));
  }
}
static std::string tags(char c, size_t i) { char b[8]; snprintf(b, sizeof b, "%c%04X", c, unsigned(i)); return b; }
struct Twin { Id id; bool timer; int64_t lo, hi; std::unique_ptr<PercentileTimer> t; std::unique_ptr<PercentileDistributionSummary> d; };
static void sequence() {
  Registry r{config(1000, false), spectatord::Logger()};
  const auto own = registered(r);  // the registry's own counters
  std::vector<Twin> ms;
  std::map<std::pair<int, std::string>, std::pair<double, double>> want;  // kind and id: count and total
  std::string log;
  for (int i = 0, n = 1 + h::rnd(3); i < n; ++i) {
    Id id = h::rnd(2) ? Id::Of("p" + std::to_string(h::rnd(2))) : Id::Of("p", {{"a", std::to_string(h::rnd(2))}, {"z", "1"}});
    if (!h::rnd(8)) id = Id::Of("p", {{"statistic", "count"}});
    int64_t a = some(), b = some();
    if (a > b) std::swap(a, b);
    Twin m{id, bool(h::rnd(2)), a, b, nullptr, nullptr};
    if (m.timer) m.t.reset(new PercentileTimer(&r, id, absl::Nanoseconds(a), absl::Nanoseconds(b)));
    else m.d.reset(new PercentileDistributionSummary(&r, id, a, b));
    want[{m.timer ? 8 : 2, text(id)}];
    log += std::string(m.timer ? "timer " : "summary ") + text(id) + " from " + std::to_string(a) + " to " + std::to_string(b) + ", ";
    ms.push_back(std::move(m));
  }
  for (int step = 0, n = 1 + h::rnd(20); step < n; ++step) {
    ++h::cases;
    auto& m = ms[h::rnd(ms.size())];
    if (!h::rnd(6)) {  // the buckets expire, the base meters do not
      h::now += int64_t(1000) * 1000000000;
      for (auto& x : ms) if (x.timer) r.GetTimer(x.id)->Record(absl::Nanoseconds(-1)); else r.GetDistributionSummary(x.id)->Record(-1);
      r.remove_expired_meters();
      for (auto i = want.begin(); i != want.end();) i = i->first.first == 1 ? want.erase(i) : std::next(i);
      log += "the buckets expire, ";
    }
    int64_t v = h::rnd(4) ? some() : (h::rnd(2) ? m.lo : m.hi);
    if (!h::rnd(3) && v > INT64_MIN + 2 && v < INT64_MAX - 2) v += int64_t(h::rnd(5)) - 2;
    log += text(m.id) + (m.timer ? " timer " : " ") + std::to_string(v) + ", ";
    h::trying(log);
    if (!m.timer) m.d->Record(v);
    else if (h::rnd(2)) m.t->Record(std::chrono::nanoseconds(v));
    else m.t->Record(absl::Nanoseconds(v));
    if (v >= 0) {
      auto& b = want[{m.timer ? 8 : 2, text(m.id)}];
      b.first += 1; b.second += double(v);
      int64_t c = v > m.hi ? m.hi : v < m.lo ? m.lo : v;
      want[{1, text(m.id.WithTags(intern_str("statistic"), intern_str("percentile"), intern_str("percentile"), intern_str(tags(m.timer ? 'T' : 'D', bucket(c)))))}].first += 1;
    }
    auto all = registered(r);
    for (auto& o : own) all.erase(o.first);
    if (all.size() != want.size()) h::fail(log + "there are " + std::to_string(all.size()) + " meters, expected " + std::to_string(want.size()));
    for (auto& w : want) {
      auto i = all.find(w.first);
      if (i == all.end()) { h::fail(log + "no " + KIND[w.first.first] + " " + w.first.second); continue; }
      double n = 0, t = w.second.second, g = t;
      if (w.first.first == 1) n = static_cast<Counter*>(i->second)->Count();
      else if (w.first.first == 2) { auto* d = static_cast<DistributionSummary*>(i->second); n = d->Count(); g = d->TotalAmount(); }
      else { auto* d = static_cast<Timer*>(i->second); n = d->Count(); if (t < 9e18) g = d->TotalTime(); }
      if (n != w.second.first || std::abs(g - t) > 1e-9 * t)
        h::fail(log + KIND[w.first.first] + " " + w.first.second + " has " + h::d2s(n) + " / " + h::d2s(g) + ", expected " + h::d2s(w.second.first) + " / " + h::d2s(t));
    }
    if (h::fails) return;
  }
}
// every bucket of both kinds
static void buckets() {
  Registry r{config(1000, false), spectatord::Logger()};
  PercentileTimer t(&r, Id::Of("t"), absl::Nanoseconds(0), absl::Nanoseconds(INT64_MAX));
  PercentileDistributionSummary d(&r, Id::Of("d"), 0, INT64_MAX);
  for (size_t i = 0; i < T.size(); ++i) for (int k = -1; k < 2; ++k) {
    int64_t v = int64_t(T[i] + k);
    if (v < 0) continue;
    ++h::cases;
    for (int timer = 0; timer < 2; ++timer) {
      auto c = r.GetCounter(Id::Of(timer ? "t" : "d", {{"statistic", "percentile"}, {"percentile", tags(timer ? 'T' : 'D', bucket(v))}}));
      double before = c->Count();
      if (timer) t.Record(absl::Nanoseconds(v)); else d.Record(v);
      if (c->Count() != before + 1) h::fail(std::string(timer ? "timer" : "summary") + " of " + std::to_string(v) + ": bucket " + std::to_string(bucket(v)) + " was not counted once");
    }
  }
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  spectatord::Logger()->set_level(spdlog::level::off);
  buckets();
  for (int i = 0, n = h::thorough ? 20000 : 3000; i < n && !h::fails; ++i) sequence();
  return h::done();
}
