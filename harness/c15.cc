#include "registry.h"
#include "server/spectatord.h"
#include "server/local.h"
using spectatord::Server;
struct Line { bool ok = false; char type = 0; std::string name; std::vector<std::pair<std::string, std::string>> tags; double value = 0, rate = 1; };
static Line grammar(const std::string& s) {
  Line l;
  size_t i = s.find(':');
  if (i == std::string::npos || i == 0) return l;
  l.name = s.substr(0, i);
  char* e;
  l.value = strtod(s.c_str() + i + 1, &e);
  if (e == s.c_str() + i + 1) return l;
  i = e - s.c_str();
  if (s.c_str()[i++] != '|') return l;
  l.type = s.c_str()[i];
  if (i >= s.size() || !strchr("cghsm", l.type)) return l;
  ++i;
  if (l.type == 'm' && s.c_str()[i++] != 's') return l;
  if (s.c_str()[i] == '|') {
    ++i;
    if (s.c_str()[i] == '@') {
      l.rate = strtod(s.c_str() + i + 1, &e);
      if (e == s.c_str() + i + 1 || !(l.rate > 0) || !(l.rate <= 1)) return l;
      i = e - s.c_str();
      if (s.c_str()[i] == '|') ++i;
    }
    if (s.c_str()[i] == '#') {
      ++i;
      for (;;) {
        size_t c = std::min(s.find(',', i), s.size());
        std::string t = s.substr(i, c - i), k = t, v = "1";
        if (size_t x = t.find(':'); x != std::string::npos) { k = t.substr(0, x); v = t.substr(x + 1); }
        if (k.empty() || v.empty()) return l;
        l.tags.push_back({k, v});
        if (c == s.size()) break;
        i = c + 1;
      }
    }
  }
  l.ok = true;
  return l;
}
struct World {
  Registry r, q;
  Server server;
  World() : r{config(), spectatord::Logger()}, q{config(), spectatord::Logger()}, server{false, 0, 0, std::nullopt, &r} { q.GetCounter("spectatord.parsedCount"); q.GetCounter("spectatord.parseErrors"); }
  bool usable(const Line& l) { return !l.ok || ((l.type != 'm' || std::abs(l.value * 1e6) < 9.2e18) && (l.rate > 1e-6 || (l.type != 'm' && l.type != 'h'))); }
  void expect(const Line& l) {
    Tags tags;
    for (auto& t : l.tags) tags.add(t.first, t.second);
    Id id{intern_str(l.name), tags};
    long k = lround(1 / l.rate);
    switch (l.type) {
      case 'c': q.GetCounter(id)->Add(l.value / l.rate); break;
      case 'g': q.GetGauge(id)->Set(l.value); break;
      case 'h': { auto d = q.GetDistributionSummary(id); while (k--) d->Record(l.value); break; }
      case 'm': { auto d = q.GetTimer(id); while (k--) d->Record(std::chrono::nanoseconds(lround(l.value * 1e6))); break; }
    }
  }
  bool compare(const std::string& what) {
    if (r.Size() != q.Size()) { h::fail(what + ": " + std::to_string(r.Size()) + " meters, want " + std::to_string(q.Size())); return false; }
    std::map<std::string, absl::Duration> a, b;
    for (auto* g : r.Gauges()) a[text(g->MeterId())] = g->GetTtl();
    for (auto* g : q.Gauges()) b[text(g->MeterId())] = g->GetTtl();
    if (a != b) { h::fail(what + ": wrong ids or time-to-live of gauges"); return false; }
    auto x = report(r), y = report(q);
    if (!alike(x, y)) { h::fail(what + ": reported " + show(x) + " want " + show(y)); return false; }
    return true;
  }
};
static void lines(const std::vector<std::string>& ls, bool each = false) {
  World w;
  std::string all;
  for (auto& s0 : ls) {
    std::string s = s0.substr(0, s0.find('\0'));
    Line l = grammar(s);
    if (!w.usable(l)) continue;
    ++h::cases;
    all += h::q(s) + " ";
    h::trying("statsd lines " + all);
    std::unique_ptr<char[]> b{new char[s.size() + 1]};
    memcpy(b.get(), s.c_str(), s.size() + 1);
    auto err = w.server.parse_statsd_line(b.get());
    if (err.has_value() == l.ok) { h::fail("statsd line " + h::q(s) + (err ? " was reported as an error: " + *err : " was not reported as an error")); return; }
    if (memcmp(b.get(), s.c_str(), s.size() + 1)) { h::fail("statsd line " + h::q(s) + " was changed"); return; }
    if (l.ok) w.expect(l);
    if (each && !w.compare("after statsd lines " + all)) return;
  }
  w.compare("after statsd lines " + all);
}
template <class T> static T pick(std::initializer_list<T> l) { return *(l.begin() + h::rnd(l.size())); }
static std::string number() {
  switch (h::rnd(8)) {
    case 0: return std::to_string(h::rnd(10));
    case 1: return pick<const char*>({"0", "-1", "1e3", "1e-9", "nan", "inf", "-inf", "0x10", "9223372036854775807", "1.5e18", "4.9e-324", "1e308", ".5", "-.25", "+3", " 7", "0.0000005", "-0", "1700000000", "0.00000049"});
    case 2: return pick<const char*>({"", "x", "1x", "1 ", "1\t", "--1", ":1", ",1", "|1", "1:2", "1,2", "-", ".", "e5", "1.5.5", "\xff"});
    case 3: return h::d2s((double)(int64_t)(h::rng() >> h::rnd(63)) * pick({1.0, 0.5, -0.001, 1e-9}));
    default: return std::to_string(h::rnd(100000)) + (h::rnd(2) ? "." + std::to_string(h::rnd(1000)) : "");
  }
}
static std::string word() { return pick<std::string>({"a", "b", "name", "my.metric", "k", "statistic", "id", "x=y", "a b", "percentile", "\xc3\xa9", "n-1_~^", "longer-than-a-short-string-can-be-in-place"}); }
static std::string good() {
  std::string s = pick<std::string>({"a", "b", "name", "my.metric", "x,y", "a|b"}) + ":" + number() + "|" + pick<std::string>({"c", "g", "h", "s", "ms"});
  if (h::rnd(3) == 0) s += "|@" + pick<std::string>({"0.5", "1", "0.1", "0.3", "0.4", "0.66", "0.6667", "1e-3", ".25", "0.9999", "0.0011", " 0.5", "1.0"});
  if (!h::rnd(12)) s += "|@" + pick<std::string>({"", "0", "-1", "nan", "inf", "1.0000001", "2", "x", "-0", "1e-400", "0.5x", "-nan", "0x1p-1"});
  int n = h::rnd(2) ? 0 : h::rnd(12) ? h::rnd(4) : 9 + h::rnd(20);
  for (int i = 0; i < n; ++i) s += (i ? "," : "|#") + (n > 4 ? "k" + std::to_string(h::rnd(40)) : word()) + (h::rnd(3) ? ":" + word() + (h::rnd(6) ? "" : ":" + word()) : "");
  return s;
}
static std::string bad() {
  std::string s = good();
  for (int k = 1 + h::rnd(3); k; --k) {
    size_t p = h::rnd(s.size() + 1);
    switch (h::rnd(4)) {
      case 0: s = s.substr(0, p); break;
      case 1: if (p < s.size()) s.erase(p, 1 + h::rnd(3)); break;
      case 2: s.insert(p, 1, ",:|#@0-. \xff""c"[h::rnd(11)]); break;
      case 3: if (p < s.size()) s[p] = ",:|#@5x"[h::rnd(7)]; break;
    }
  }
  return s;
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  spectatord::Logger()->set_level(spdlog::level::off);
  for (auto& c : h::cex) lines({c}, true);
  for (const char* s : {"", ":", "n", "n:", "n:1", "n:1|", ":1|c", "n:1|c", "n:1|m", "n:1|ms", "n:1|mx", "n:1|x", "n:x|c", "n:1|c|", "n:1|c|@", "n:1|c|@0.5", "n:1|c|@0", "n:1|c|@-0.5", "n:1|c|@1.5", "n:1|c|@nan", "n:1|h|@nan", "n:5|ms|@NAN", "n:1|c|#", "n:1|c|#a", "n:1|c|#a:", "n:1|c|#a:b", "n:1|c|#:b",
                        "n:1|c|#:", "n:1|c|#,", "n:1|c|#a,", "n:1|c|#,a", "n:1|c|#a,,b", "n:1|c|#a:,b", "n:1|c|#a,:b", "n:1|c|#a,b:c", "n:1|c|#a:b:c", "n:1|c|#a::b", "n:1|c|#a:b,c:d,e", "n:1|c|#a:b,a:c", "n:1|c|@0.5|#a:b", "n:1|c|@0.5#a:b", "n:1|c|@0.5|", "n:1|c|@0.5x|#a", "n:1|c|x", "n:1|c||#a", "n:1|cc",
                        "n:1|h|@0.3", "n:1|ms|@0.4", "n:350|ms|@0.1|#country:us", "n:-1|ms", "n:-1|h", "n:-1|c", "n:1234|s", "n:1234|s|#", "n:0.0000004|ms", "n:nan|g", "n:inf|h", "a,b:1|c", "n:1|h|@1e-5", "n:1|c|@1e-300", "n:1|g|@1e-300", "n:1|s|@1e-300", "n:7|g|@0.1|#x", "n::1|c", "n:1|c|#x:1,y", "n:1|c|#xx,yy:22,zz"}) lines({s}, true);
  for (int i = 0; i < (h::thorough ? 20000 : 900); ++i) {
    std::vector<std::string> v;
    int n = 1 + h::rnd(6);
    for (int k = 0; k < n; ++k) v.push_back(h::rnd(3) ? good() : bad());
    lines(v, h::rnd(2));
  }
  return h::done();
}
