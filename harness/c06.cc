#include "meters.h"
#include "spectator/gauge.h"
static const int64_t S = 1000000000LL;
struct Ref {
  double v = NAN; int64_t up, ttl;
  static int64_t eff(absl::Duration d) { return d < absl::Seconds(5) ? 5 * S : absl::ToInt64Nanoseconds(d); }
};
int main(int argc, char** argv) {
  h::init(argc, argv);
  vc_clock_on = true;
  std::vector<absl::Duration> ttls = {absl::Seconds(1), absl::Seconds(5), absl::Nanoseconds(4999999999LL), absl::Nanoseconds(5000000001LL), absl::Seconds(6), absl::Milliseconds(5500), absl::Minutes(15),
                                      absl::ZeroDuration(), absl::Seconds(-3), absl::Hours(100), absl::InfiniteDuration(), -absl::InfiniteDuration(), absl::Seconds(4), absl::Seconds(30)};
  std::vector<int64_t> steps = {0, 1, S, 5 * S - 1, 5 * S, 5 * S + 1, 6 * S, 6 * S + 1, 900 * S, 900 * S + 1, 499 * S / 100, 2 * S};
  for (auto& x : h::cex) {
    long long a, b;
    if (sscanf(x.c_str(), "gauge %lld %lld", &a, &b) == 2) { ttls.push_back(absl::Nanoseconds(a)); steps.push_back(b); }
    if (sscanf(x.c_str(), "ttl %lld", &a) == 1) ttls.push_back(absl::Seconds(a));
  }
  auto run = [&](const std::vector<std::pair<int, int>>& ops, absl::Duration ttl0, bool stat) {
    ++h::cases;
    vc_clock = 1000 * S;
    Gauge g{stat ? statted("g") : plain("g"), ttl0};
    Ref r; r.up = vc_clock; r.ttl = Ref::eff(ttl0);
    std::string t = "Gauge(ttl " + absl::FormatDuration(ttl0) + ")";
    int k = 0;
    auto meas = [&] {
      t += " Measure";
      auto m = measure(g);
      bool exp = vc_clock - r.up > r.ttl;
      size_t lo = std::isnan(r.v) ? 0 : (exp ? 0 : 1), hi = std::isnan(r.v) ? 0 : 1;
      if (!h::check(m.size() >= lo && m.size() <= hi, t + ": reported " + std::to_string(m.size()) + " values")) return false;
      if (m.size() && !h::check(m[0].value == r.v && m[0].name == "g" && m[0].tags == std::map<std::string, std::string>{{"a", "b"}, {"statistic", stat ? "other" : "gauge"}}, t + ": wrong measurement, value " + h::d2s(m[0].value))) return false;
      if (exp) r.v = NAN;
      return h::check(g.HasExpired(vc_clock) == exp, t + ": HasExpired wrong");
    };
    for (auto& o : ops) {
      if (o.first == 0) { r.v = ++k; r.up = vc_clock; g.Set(r.v); t += " Set(" + std::to_string(k) + ")"; }
      else if (o.first == 1) { auto d = ttls[o.second % ttls.size()]; g.SetTtl(d); r.ttl = Ref::eff(d); t += " SetTtl(" + absl::FormatDuration(d) + ")";
        if (!h::check(absl::ToInt64Nanoseconds(g.GetTtl()) == r.ttl, t + ": ttl is " + absl::FormatDuration(g.GetTtl()))) return; }
      else if (o.first == 2) { if (!meas()) return; }
      else { vc_clock += steps[o.second % steps.size()]; t += " +" + std::to_string(steps[o.second % steps.size()]) + "ns"; }
    }
    if (!meas()) return;
    meas();
  };
  for (int i = 0; i < (int)ttls.size(); ++i)
    for (int j = 0; j < (int)steps.size(); ++j) {
      for (int st = 0; st < 2; ++st) {
        run({{0, 0}, {3, j}}, ttls[i], st);
        run({{0, 0}, {3, j}, {2, 0}, {0, 0}, {3, j}}, ttls[i], st);
        run({{0, 0}, {1, i}, {3, j}}, absl::Minutes(15), st);
        run({{3, j}}, ttls[i], st);
        run({{0, 0}, {3, j}, {1, i}, {2, 0}, {3, j}}, ttls[(i + 3) % ttls.size()], st);
      }
    }
  for (int i = 0; i < (h::thorough ? 100000 : 5000); ++i) {
    std::vector<std::pair<int, int>> v;
    for (int n = h::rnd(12); n >= 0; --n) v.push_back({(int)h::rnd(4), (int)h::rnd(1000)});
    run(v, ttls[h::rnd(ttls.size())], h::rnd(2));
  }
  return h::done();
}
