// C18: expiration passes remove exactly the idle meters, deletions exactly what they are asked for
#include "kinds.h"

struct Known { int kind; std::shared_ptr<Meter> p; int64_t updated, ttl; double value; };
static void sequence() {
  auto c = config(1000);
  int64_t ttl = h::rnd(4) == 0 ? 15LL * 60 * 1000000000 : int64_t(1 + h::rnd(1000)) * 1000000;
  bool unset = ttl == 15LL * 60 * 1000000000 && h::rnd(2);
  c->meter_ttl = unset ? absl::ZeroDuration() : absl::Nanoseconds(ttl);
  Registry r{std::move(c), spectatord::Logger()};
  h::now += 20LL * 60 * 1000000000;
  r.remove_expired_meters();
  std::map<std::pair<int, std::string>, Known> live;
  std::string log = "TTL " + std::to_string(ttl) + " ns: ";
  for (int step = 0, n = 5 + h::rnd(80); step < n; ++step) {
    ++h::cases;
    int what = h::rnd(10);
    if (what < 6) {
      int k = h::rnd(9);
      Id id = Id::Of("m" + std::to_string(h::rnd(4)));
      auto key = std::make_pair(k, text(id));
      auto& e = live[key];
      bool fresh = !e.p;
      e.kind = k;
      if (k == 3 && (unset || h::rnd(2))) { e.ttl = int64_t(5 + h::rnd(20)) * 1000000000; e.p = r.GetGauge(id, absl::Nanoseconds(e.ttl)); if (fresh) e.updated = h::now; }
      else if (fresh) { e.p = get(r, k, id); e.ttl = k == 3 ? std::max<int64_t>(ttl, 5000000000) : ttl; e.updated = h::now; }
      else get(r, k, id);
      log += std::string("get ") + KIND[k] + " " + key.second + ", ";
      if (h::rnd(2)) { update(k, e.p.get(), 1 + h::rnd(1000)); e.updated = h::now; log += "update, "; }
      h::trying(log);
    } else if (what < 7) {
      bool a = h::rnd(2);
      Id id = Id::Of("m" + std::to_string(h::rnd(4)));
      const char* t = h::rnd(5) == 0 ? "c" : a ? "A" : "g";
      log += std::string("delete ") + t + " " + text(id) + ", ";
      h::trying(log);
      bool was = r.DeleteMeter(t, id), had = *t != 'c' && live.count({a ? 0 : 3, text(id)});
      if (was != had) h::fail(log + (was ? ": reported though there was none" : ": not reported"));
      if (*t != 'c') live.erase({a ? 0 : 3, text(id)});
    } else if (what == 7 && h::rnd(4) == 0) {
      bool a = h::rnd(2);
      const char* t = h::rnd(5) == 0 ? "x" : a ? "A" : "g";
      log += std::string("delete all ") + t + ", ";
      h::trying(log);
      r.DeleteAllMeters(t);
      if (*t != 'x') for (auto i = live.begin(); i != live.end();) if (i->first.first == (a ? 0 : 3)) i = live.erase(i); else ++i;
    } else {
      // move the clock to where some meter is just about to expire, or by some time
      if (!live.empty() && h::rnd(3)) {
        auto i = live.begin();
        std::advance(i, h::rnd(live.size()));
        int64_t at = i->second.updated + i->second.ttl + int64_t(h::rnd(3)) - 1;
        if (at > h::now) h::now = at;
      } else if (h::rnd(4)) h::now += h::rnd(2 * ttl);
      else h::now -= h::rnd(3);  // the pass read the clock before the last update
      log += "expire at +" + std::to_string(h::now - 1000000000000000LL) + ", ";
      h::trying(log);
      std::map<std::pair<int, std::string>, double> before;
      for (auto& p : live) before[p.first] = state(p.first.first, p.second.p.get());
      int total = live.size(), gone = 0;
      for (auto i = live.begin(); i != live.end();) if (i->first.first != 0 && h::now - i->second.updated > i->second.ttl) { i = live.erase(i); ++gone; } else ++i;
      if (h::rnd(2)) r.remove_expired_meters();
      else {
        auto p = r.all_meters_.remove_expired(r.meter_ttl_);
        if (p.first != gone || p.second != total) h::fail(log + ": reports " + std::to_string(p.first) + " of " + std::to_string(p.second) + " removed, want " + std::to_string(gone) + " of " + std::to_string(total));
      }
      for (auto& p : live) {
        if (!alike(state(p.first.first, p.second.p.get()), before[p.first]) || (p.first.first && p.second.p->Updated() != p.second.updated)) h::fail(log + ": changed the " + KIND[p.first.first] + " " + p.first.second);
      }
    }
    auto reg = registered(r);
    for (auto& p : live) if (!reg.count(p.first)) { h::fail(log + ": the " + KIND[p.first.first] + " " + p.first.second + " is gone"); return; } else if (reg[p.first] != p.second.p.get()) { h::fail(log + ": the " + KIND[p.first.first] + " " + p.first.second + " is another one"); return; }
    for (auto& p : reg) if (!live.count(p.first)) { h::fail(log + ": the " + KIND[p.first.first] + " " + p.first.second + " is still there"); return; }
  }
}

int main(int argc, char** argv) {
  h::init(argc, argv);
  spectatord::Logger()->set_level(spdlog::level::off);
  for (int i = 0, n = h::thorough ? 40000 : 2500; i < n; ++i) sequence();
  return h::done();
}
