// C25: the cache of percentile meters against an oracle: lookups and expiration passes at chosen times, and from several threads
#include "h.h"
#include "registry.h"
#include "server/expiring_cache.h"
#include <chrono>
#include <map>
#include <memory>
#include <thread>
namespace { std::atomic<int64_t> fake{1000000000000}; std::atomic<bool> faking{true}; }
// the harness's definition takes precedence over the library's
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept {
  if (faking) return time_point{std::chrono::nanoseconds{fake.load()}};
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point{std::chrono::nanoseconds{t.tv_sec * 1000000000LL + t.tv_nsec}};
}
using namespace spectator;
struct V {
  Registry* r; std::string id; int serial;
  V(Registry* reg, const Id& i) : r{reg}, id{text(i)}, serial{++made} { ++live; }
  ~V() { --live; }
  static std::atomic<int> live, made;
};
std::atomic<int> V::live{0}, V::made{0};
static std::unique_ptr<V> supply(Registry* r, Id id) { return std::make_unique<V>(r, id); }
static const int64_t kAge = 120000000000LL;
static void bad(const std::string& input, const std::string& what) { h::fail(input + what); }
static Id some(int n) { return h::rnd(2) ? Id::Of("p" + std::to_string(h::rnd(n))) : Id::Of("p", {{"a", std::to_string(h::rnd(n))}}); }
static void history(Registry* r, Registry* r2, bool large = false) {
  spectatord::expiring_cache<V> c{supply};
  struct E { V* v; int64_t used; };
  std::map<std::string, E> want;
  std::string log;
  const int base = V::live;
  int n = large ? 3000 : 1 + h::rnd(40), range = large ? 2000 : 1 + h::rnd(8);
  for (int step = 0; step < n; ++step) {
    ++h::cases;
    if (log.size() > 2000) log = "(...) " + log.substr(log.size() - 1000);
    switch (large && h::rnd(50) ? 5 : h::rnd(5)) {
      case 0: fake += int64_t(h::rnd(90)) * 1000000000; break;
      case 1: if (!want.empty()) {  // around the moment one of the entries gets old
        auto it = want.begin(); std::advance(it, h::rnd(want.size()));
        int64_t t = it->second.used + kAge + int64_t(h::rnd(3)) - 1;
        if (t > fake) fake = t;
      } break;
      case 2: ++fake; break;
      default: break;
    }
    std::string at = " at " + std::to_string(fake.load());
    if (large ? h::rnd(500) != 0 : h::rnd(3) != 0) {
      Id id = some(range);
      std::string t = text(id);
      Registry* reg = h::rnd(4) ? r : r2;
      int before = V::made;
      h::trying((log.size() > 200 ? "... " + log.substr(log.size() - 200) : log) + "get " + t + at);
      V* v = c.get_or_create(reg, id);
      log += "get " + t + at + ", ";
      auto it = want.find(t);
      if (v == nullptr) bad(log, "a lookup gives no meter");
      if (it != want.end()) {
        if (v != it->second.v || V::made != before) bad(log, "the cached meter is not the one returned");
        it->second.used = fake;
      } else {
        if (V::made != before + 1) bad(log, "meters made: " + std::to_string(V::made - before));
        if (v->serial != V::made || v->r != reg || v->id != t) bad(log, "another meter than the one made for the id is returned");
        want[t] = {v, fake};
      }
      if (v->id != t) bad(log, "the meter returned is for " + v->id);
    } else {
      auto [size, expired] = c.expire();
      log += "expire" + at + ", ";
      size_t before = want.size(), gone = 0;
      for (auto it = want.begin(); it != want.end();) if (fake - it->second.used > kAge) { it = want.erase(it); ++gone; } else ++it;
      if (size != before || expired != gone) bad(log, "the pass reports (" + std::to_string(size) + ", " + std::to_string(expired) + ") instead of (" + std::to_string(before) + ", " + std::to_string(gone) + ")");
    }
    if (V::live != base + int(want.size())) bad(log, std::to_string(V::live - base) + " meters are alive instead of " + std::to_string(want.size()));
  }
  // what is left is what the oracle says
  for (auto& [t, e] : want) {
    int before = V::made;
    if (e.v->id != t) bad(log, "the meter of " + t + " is " + e.v->id);
    V* v = nullptr;
    for (int i = 0; i < range && !v; ++i) for (auto id : {Id::Of("p" + std::to_string(i)), Id::Of("p", {{"a", std::to_string(i)}})}) if (text(id) == t) { v = c.get_or_create(r, id); break; }
    if (v != e.v || V::made != before) bad(log, "the meter of " + t + " was lost");
  }
}
// lookups of the same ids from several threads while passes run: one meter per id, and it stays
static void threads(Registry* r) {
  spectatord::expiring_cache<V> c{supply};
  const int kT = 4, kIds = 8;
  std::vector<std::vector<V*>> got(kT, std::vector<V*>(kIds, nullptr));
  int before = V::made;
  std::atomic<bool> changed{false}; std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  for (int t = 0; t < kT; ++t) ts.emplace_back([&, t] {
    ++ready; while (ready < kT) {}
    for (int round = 0; round < 3; ++round) for (int i = 0; i < kIds; ++i) {
      V* v = c.get_or_create(r, Id::Of("t" + std::to_string(i)));
      if (got[t][i] && got[t][i] != v) changed = true;
      got[t][i] = v;
    }
    if (t == 0) c.expire();
  });
  for (auto& t : ts) t.join();
  ++h::cases;
  if (changed) bad("lookups of the same ids from " + std::to_string(kT) + " threads", "a cached meter was replaced");
  for (int i = 0; i < kIds; ++i) for (int t = 1; t < kT; ++t) if (got[t][i] != got[0][i]) bad("lookups of the same id from " + std::to_string(kT) + " threads", "two meters were handed out for one id");
  if (V::made - before != kIds) bad("lookups of " + std::to_string(kIds) + " ids from " + std::to_string(kT) + " threads", std::to_string(V::made - before) + " meters were made");
}
int main(int c, char** v) {
  h::init(c, v);
  spectatord::Logger()->set_level(spdlog::level::off);
  Registry r{config(1000, false), spectatord::Logger()}, r2{config(1000, false), spectatord::Logger()};
  for (int i = 0, n = h::thorough ? 30000 : 3000; i < n; ++i) history(&r, &r2);
  for (int i = 0, n = h::thorough ? 40 : 4; i < n; ++i) history(&r, &r2, true);
  for (int i = 0, n = h::thorough ? 4000 : 400; i < n; ++i) threads(&r);
  return h::done();
}
