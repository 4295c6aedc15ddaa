#include "registry.h"
#include "server/spectatord.h"
#include "server/local.h"
using spectatord::Server;
struct Line { bool ok = false; char type = 0; std::string name; std::vector<std::pair<std::string, std::string>> tags; std::string value; long long extra = 0; };
static Line grammar(const std::string& s) {
  Line l;
  if (s.empty()) return l;
  l.type = s[0];
  if (!strchr("AcCdDgmtTUX", l.type)) return l;
  size_t i = 1;
  bool given = false;
  if (s.size() > 1 && s[1] == ',') {
    char* e;
    l.extra = strtoll(s.c_str() + 2, &e, 10);
    i = e - s.c_str();
    given = true;
  }
  if (l.type == 'g' && given && l.extra <= 0) return l;
  if (l.type == 'X' && (l.extra <= 0 || l.extra > INT64_MAX / 1000000)) return l;
  if (i >= s.size() || s[i] != ':') return l;
  size_t b = ++i;
  while (i < s.size() && s[i] != ',' && s[i] != ':') ++i;
  if (i == b || i >= s.size()) return l;
  l.name = s.substr(b, i - b);
  while (s[i] == ',') {
    size_t k = ++i;
    while (i < s.size() && s[i] != '=') ++i;
    if (i >= s.size()) return l;
    std::string key = s.substr(k, i - k);
    size_t v = ++i;
    while (i < s.size() && s[i] != ',' && s[i] != ':') ++i;
    if (i >= s.size()) return l;
    l.tags.push_back({key, s.substr(v, i - v)});
  }
  l.value = s.substr(i + 1);
  char* e;
  if (l.type == 'U') strtoull(l.value.c_str(), &e, 10);
  else strtod(l.value.c_str(), &e);
  l.ok = e != l.value.c_str();
  return l;
}
struct World {
  Registry r, q;
  Server server;
  std::map<std::string, std::unique_ptr<PercentileTimer>> pt;
  std::map<std::string, std::unique_ptr<PercentileDistributionSummary>> pd;
  std::map<std::string, std::pair<int64_t, int64_t>> ages;
  World() : r{config(), spectatord::Logger()}, q{config(), spectatord::Logger()}, server{false, 0, 0, std::nullopt, &r} { q.GetCounter("spectatord.parsedCount"); q.GetCounter("spectatord.parseErrors"); }
  bool usable(const Line& l) {
    if (!l.ok || !strchr("ADtT", l.type)) return true;
    double d = strtod(l.value.c_str(), nullptr) * (l.type == 'D' ? 1 : 1e9);
    return std::abs(d) < 9.2e18;  // the conversion to a 64-bit integer has to be defined
  }
  void expect(const Line& l, int64_t t0, int64_t t1) {
    Tags tags;
    for (auto& t : l.tags) tags.add(t.first, t.second);
    Id id{intern_str(l.name), tags};
    double d = strtod(l.value.c_str(), nullptr);
    switch (l.type) {
      case 'A': q.GetAgeGauge(id); ages[text(id)] = d == 0 ? std::make_pair(t0, t1) : std::make_pair((int64_t)(d * 1e9), (int64_t)(d * 1e9)); break;
      case 'c': q.GetCounter(id)->Add(d); break;
      case 'C': q.GetMonotonicCounter(id)->Set(d); break;
      case 'd': q.GetDistributionSummary(id)->Record(d); break;
      case 'D': { auto& p = pd[text(id)]; if (!p) p.reset(new PercentileDistributionSummary(&q, id, INT64_MIN, INT64_MAX)); p->Record((int64_t)d); break; }
      case 'g': (l.extra > 0 ? q.GetGauge(id, absl::Seconds(l.extra)) : q.GetGauge(id))->Set(d); break;
      case 'm': q.GetMaxGauge(id)->Update(d); break;
      case 't': q.GetTimer(id)->Record(std::chrono::nanoseconds((int64_t)(d * 1e9))); break;
      case 'T': { auto& p = pt[text(id)]; if (!p) p.reset(new PercentileTimer(&q, id, absl::Nanoseconds(1), absl::Hours(24))); p->Record(std::chrono::nanoseconds((int64_t)(d * 1e9))); break; }
      case 'U': q.GetMonotonicCounterUint(id)->Set(strtoull(l.value.c_str(), nullptr, 10)); break;
      case 'X': q.GetMonotonicSampled(id)->Set(d, l.extra * 1000000); break;
    }
  }
  bool compare(const std::string& what) {
    if (r.Size() != q.Size()) { h::fail(what + ": " + std::to_string(r.Size()) + " meters, want " + std::to_string(q.Size())); return false; }
    std::map<std::string, absl::Duration> a, b;
    for (auto* g : r.Gauges()) a[text(g->MeterId())] = g->GetTtl();
    for (auto* g : q.Gauges()) b[text(g->MeterId())] = g->GetTtl();
    if (a != b) { h::fail(what + ": wrong ids or time-to-live of gauges"); return false; }
    std::map<std::string, int64_t> c;
    for (auto* g : r.AgeGauges()) c[text(g->MeterId())] = g->GetLastSuccess();
    if (c.size() != ages.size()) { h::fail(what + ": wrong number of age gauges"); return false; }
    for (auto& p : ages)
      if (!c.count(p.first) || c[p.first] < p.second.first || c[p.first] > p.second.second) { h::fail(what + ": age gauge " + p.first + " has last success " + std::to_string(c[p.first]) + ", want " + std::to_string(p.second.first)); return false; }
    auto x = report(r), y = report(q);
    // an age gauge reports the time since its last success, checked above: leave it out
    auto noage = [](Registry& reg, std::multimap<std::string, double>& m) {
      for (auto* g : reg.AgeGauges()) {
        Measurements ms;
        g->Measure(&ms);
        auto best = m.end();
        for (auto i = m.begin(); i != m.end(); ++i)
          if (i->first == text(ms[0].id) && (best == m.end() || !(std::abs(i->second - ms[0].value) >= std::abs(best->second - ms[0].value)))) best = i;
        if (best != m.end()) m.erase(best);
      }
    };
    noage(r, x); noage(q, y);
    if (!alike(x, y)) { h::fail(what + ": reported " + show(x) + " want " + show(y)); return false; }
    return true;
  }
};
static void lines(const std::vector<std::string>& ls, bool each = false) {
  World w;
  std::string all;
  for (auto& s0 : ls) {
    std::string s = s0.substr(0, s0.find('\0'));
    Line l = grammar(s);
    if (!w.usable(l)) continue;
    ++h::cases;
    all += h::q(s) + " ";
    h::trying("lines " + all);
    std::unique_ptr<char[]> b{new char[s.size() + 1]};
    memcpy(b.get(), s.c_str(), s.size() + 1);
    int64_t t0 = absl::GetCurrentTimeNanos();
    auto err = w.server.parse_line(b.get());
    int64_t t1 = absl::GetCurrentTimeNanos();
    if (err.has_value() == l.ok) { h::fail("line " + h::q(s) + (err ? " was reported as an error: " + *err : " was not reported as an error")); return; }
    if (memcmp(b.get(), s.c_str(), s.size() + 1)) { h::fail("line " + h::q(s) + " was changed"); return; }
    if (l.ok) w.expect(l, t0, t1);
    if (each && !w.compare("after lines " + all)) return;
  }
  w.compare("after lines " + all);
}
template <class T> static T pick(std::initializer_list<T> l) { return *(l.begin() + h::rnd(l.size())); }
static std::string number() {
  switch (h::rnd(8)) {
    case 0: return std::to_string(h::rnd(10));
    case 1: return pick<const char*>({"0", "-1", "1e3", "1e-9", "nan", "inf", "-inf", "0x10", "18446744073709551615", "9223372036854775807", "1.5e18", "4.9e-324", "1e308", ".5", "-.25", "+3", " 7", "0.000000001", "-0", "1700000000"});
    case 2: return pick<const char*>({"", "x", "1x", "1 ", "1\t", "--1", ":1", ",1", "=1", "1:2", "1,2", "-", ".", "e5", "1.5.5", "\xff"});
    case 3: return h::d2s((double)(int64_t)(h::rng() >> h::rnd(63)) * pick({1.0, 0.5, -0.001, 1e-9}));
    default: return std::to_string(h::rnd(100000)) + (h::rnd(2) ? "." + std::to_string(h::rnd(1000)) : "");
  }
}
static std::string word() { return pick<std::string>({"a", "b", "name", "my.metric", "k", "statistic", "id", "x=y", "a b", "", "percentile", "\xc3\xa9", "n-1_~^"}); }
static std::string good() {
  std::string s(1, "AcCdDgmtTUX"[h::rnd(11)]);
  if (s == "X" ? h::rnd(8) : s == "g" ? h::rnd(2) : !h::rnd(8)) s += "," + pick<std::string>({"1", "5", "60", "1543160297100", "1543160298101", "1543160299000", "900", "9223372036854", "+2"});
  if (!h::rnd(12)) s += pick<std::string>({",", ",0", ",-1", ",x", ",9223372036855", ",9223372036854775807", ",99999999999999999999", ",5x", ", 5", ",5,5"});
  s += ":" + pick<std::string>({"a", "b", "name", "my.metric"});
  int n = h::rnd(2) ? 0 : h::rnd(12) ? h::rnd(4) : 9 + h::rnd(20);
  for (int i = 0; i < n; ++i) s += "," + (n > 4 ? "k" + std::to_string(h::rnd(40)) : word()) + "=" + word();
  return s + ":" + number();
}
static std::string bad() {
  std::string s = good();
  for (int k = 1 + h::rnd(3); k; --k) {
    size_t p = h::rnd(s.size() + 1);
    switch (h::rnd(4)) {
      case 0: s = s.substr(0, p); break;
      case 1: if (p < s.size()) s.erase(p, 1 + h::rnd(3)); break;
      case 2: s.insert(p, 1, ",:=0-. |\xff""c"[h::rnd(10)]); break;
      case 3: if (p < s.size()) s[p] = ",:=5x"[h::rnd(5)]; break;
    }
  }
  return s;
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  spectatord::Logger()->set_level(spdlog::level::off);
  for (auto& c : h::cex) lines({c}, true);
  for (const char* s : {"", "c", "c:", "c:n", "c:n:", "c:n:1", "c,:n:1", "c:n,:1", "c:n,", "c:n,a", "c:n,a=", "c:n,a=b", "c:n,a=b,", "c:n,a=b:", "c:n,a=b,:5", "c:n,1234", "c:n,x12:5", ":n:1", "c::1", "c:,a=b:1", "Z:n:1", "Z:n:x", "g,0:n:1", "g,5:n:1", "g,-5:n:1", "g,:n:1",
                        "X:n:1", "X,0:n:1", "X,1543160297100:n:10", "X,9223372036855:n:1", "U:n:21.5", "U:n:18446744073709551615", "U:n:-1", "C:n:10.5", "d:n:1", "D:n:100", "t:n:0.001", "T:n:.5", "m:n:-4", "A:n:0", "A:n:1600000000", "A:n:-0", "c:n,=:1", "c:n,a=b=c:1", "c:n,a:b=c:1", "c:n,a,b=c:1",
                        "c:n:1abc", "c:n: 1", "c:n:1:2", "cc:n:1", "c :n:1", "g,5 :n:1", "c:n,a=b,a=c:1", "\n:n:1", "g,9223372036854775807:n:1", "g,99999999999999999999999:n:3", "t:n:-1", "c:n:nan", "T:n:0", "D:n:0", "D:n:-5"}) lines({s}, true);
  lines({"X,1543160297000:n:10", "X,1543160298500:n:25.5"});
  lines({"C:n:10.5"}); 
  for (int i = 0; i < (h::thorough ? 20000 : 900); ++i) {
    std::vector<std::string> v;
    int n = 1 + h::rnd(6);
    for (int k = 0; k < n; ++k) v.push_back(h::rnd(3) ? good() : bad());
    if (h::rnd(2)) for (auto& s : v) s[0] = v[0][0];
    lines(v, h::rnd(2));
  }
  return h::done();
}
