#include "meters.h"
#include "spectator/monotonic_counter.h"
#include "spectator/monotonic_counter_uint.h"
#include "spectator/monotonic_sampled.h"
static double total(const std::vector<Got>& g) { double s = 0; for (auto& x : g) s += x.value; return s; }
static void want1(const std::vector<Got>& m, bool rep, double v, bool st, const char* stat, const std::string& t) {
  if (!h::check(m.size() == (rep ? 1 : 0), t + ": reported " + std::to_string(m.size()) + " values" + (m.size() ? " (" + h::d2s(m[0].value) + ")" : "") + ", want " + (rep ? h::d2s(v) : "none"))) return;
  if (rep) h::check(close(m[0].value, v) && m[0].name == "m" && m[0].tags == std::map<std::string, std::string>{{"a", "b"}, {"statistic", st ? "other" : stat}}, t + ": reported " + h::d2s(m[0].value) + ", want " + h::d2s(v));
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  auto d1 = [&](double a, double b, bool st) {
    ++h::cases;
    MonotonicCounter c{st ? statted("m") : plain("m")};
    std::string t = "MonotonicCounter: ";
    want1(measure(c), false, 0, st, "count", t + "Measure");
    c.Set(a);
    want1(measure(c), false, 0, st, "count", t + "Set(" + h::d2s(a) + ") Measure");
    c.Set(b);
    t += "Set(" + h::d2s(a) + ") Measure Set(" + h::d2s(b) + ") Measure";
    want1(measure(c), b - a > 0, b - a, st, "count", t);
    want1(measure(c), false, 0, st, "count", t + " Measure");
    c.Set(b + 5);
    c.Set(b + 7);
    want1(measure(c), (b + 7) - b > 0, (b + 7) - b, st, "count", t + " Measure Set(+5) Set(+7) Measure");
  };
  auto u1 = [&](uint64_t a, uint64_t b, bool early) {
    ++h::cases;
    MonotonicCounterUint c{plain("m")};
    std::string t = "MonotonicCounterUint: ";
    if (early) { want1(measure(c), false, 0, false, "count", t + "Measure"); t += "Measure "; }
    c.Set(a);
    t += "Set(" + std::to_string(a) + ") Measure";
    want1(measure(c), false, 0, false, "count", t);
    c.Set(b);
    t += " Set(" + std::to_string(b) + ") Measure";
    uint64_t d = b - a;
    want1(measure(c), d != 0, (double)d > 9.223372e18 ? 0 : (double)d, false, "count", t);
    want1(measure(c), false, 0, false, "count", t + " Measure");
    c.Set(b + 3);
    want1(measure(c), true, 3, false, "count", t + " Measure Set(+3) Measure");
  };
  for (auto& x : h::cex) {
    unsigned long long a, b; double da, db;
    if (sscanf(x.c_str(), "mono %llu %llu", &a, &b) == 2) { memcpy(&da, &a, 8); memcpy(&db, &b, 8); d1(da, db, false); }
    if (sscanf(x.c_str(), "uint %llu %llu", &a, &b) == 2) { u1(a, b, false); u1(a, b, true); }
    if (sscanf(x.c_str(), "uint0 %llu", &a) == 1) { u1(a, a + 1, false); u1(a, a + 1, true); }
  }
  std::vector<double> ds = {0, 1, 2.5, -3, 1e300, 5e-324, (double)NAN, (double)INFINITY, 100};
  for (double a : ds) for (double b : ds) for (int st = 0; st < 2; ++st) d1(a, b, st);
  std::vector<uint64_t> us = {0, 1, 2, 1000, 1ull << 53, (1ull << 63) - 1, 1ull << 63, (1ull << 63) + 1, ~0ull - 1, ~0ull, 9223372036854775807ull, 9223373036854775807ull, 9223371000000000000ull, 9223372000000000000ull, 9223372000000005000ull};
  for (auto a : us) for (auto b : us) for (int e = 0; e < 2; ++e) u1(a, b, e);
  for (int i = 0; i < 500; ++i) u1(h::rng(), h::rng() >> h::rnd(64), i & 1);
  // sampled: histories of samples and measurements against a reference
  for (int i = 0; i < (h::thorough ? 50000 : 3000); ++i) {
    ++h::cases;
    MonotonicSampled c{plain("m")};
    double v = NAN, pv = NAN; int64_t ts = 0, pts = 0;
    std::string t = "MonotonicSampled:";
    for (int n = h::rnd(10); n >= 0; --n) {
      if (h::rnd(3)) {
        double x = (double)h::rnd(1000) + (h::rnd(2) ? v == v ? v : 0 : 0);
        int64_t at = ts + (int64_t)(h::rnd(4000) * 1000000LL) - (h::rnd(4) == 0 ? 3000000000LL : -1);
        if (at < 0) at = 1;
        c.Set(x, at);
        t += " Set(" + h::d2s(x) + "," + std::to_string(at) + ")";
        if (at >= ts) { if (std::isnan(pv)) { pv = v; pts = ts; } v = x; ts = at; }
      } else {
        double r = (v - pv) / ((ts - pts) / 1e9);
        t += " Measure";
        auto m = measure(c);
        if (r > 0 && m.size() == 1) {
          if (!h::check(close(m[0].value, r) && m[0].tags["statistic"] == "count" && m[0].name == "m", t + ": reported " + h::d2s(m[0].value) + ", want " + h::d2s(r))) break;
        } else if (!h::check(m.empty() && !(r > 0), t + ": reported " + std::to_string(m.size()) + " values, rate " + h::d2s(r))) break;
        if (!std::isnan(r)) { pv = v; pts = ts; }
      }
    }
  }
  // schedules: the reports add up to the increase
  for (int p1 = 0; p1 < 12; ++p1)
    for (int p2 = p1; p2 < 12; ++p2) {
      std::string w = " with Set(130) before access " + std::to_string(p1) + " and Set(170) before access " + std::to_string(p2);
      {
        ++h::cases;
        MonotonicCounter c{plain("m")};
        c.Set(50); measure(c); c.Set(100);
        double r = 0;
        at_points([&] { r += total(measure(c)); }, {{p1, [&] { c.Set(130); }}, {p2, [&] { c.Set(170); }}});
        c.Set(200);
        r += total(measure(c));
        h::check(r == 150, "MonotonicCounter 50->100, Measure" + w + ", Set(200) Measure: reported " + h::d2s(r) + " of 150");
      }
      {
        ++h::cases;
        MonotonicCounterUint c{plain("m")};
        c.Set(50); measure(c); c.Set(100);
        double r = 0;
        at_points([&] { r += total(measure(c)); }, {{p1, [&] { c.Set(130); }}, {p2, [&] { c.Set(170); }}});
        c.Set(200);
        r += total(measure(c));
        h::check(r == 150, "MonotonicCounterUint 50->100, Measure" + w + ", Set(200) Measure: reported " + h::d2s(r) + " of 150");
        // the first value arrives during a measurement: it (or a later one) is the baseline
        MonotonicCounterUint f{plain("m")};
        r = 0;
        double base = 0;
        at_points([&] { r += total(measure(f)); }, {{p1, [&] { f.Set(130); }}, {p2, [&] { f.Set(170); }}});
        f.Set(500);
        auto g = measure(f);
        base = total(g);
        h::check(r == 0 && (base == 0 || base == 370 || base == 330), "MonotonicCounterUint without a value, Measure" + w + ", Set(500) Measure: reported " + h::d2s(r) + " then " + h::d2s(base));
      }
      {
        ++h::cases;
        MonotonicSampled c{plain("m")};
        const int64_t S = 1000000000LL;
        c.Set(50, 1 * S); measure(c); c.Set(100, 2 * S);
        // rate x interval lengths add up to the increase
        double r = 0;
        std::vector<std::pair<int64_t, double>> got;
        int64_t bts = 1 * S, cts = 2 * S;
        auto m1 = std::vector<Got>();
        at_points([&] { m1 = measure(c); }, {{p1, [&] { c.Set(130, 3 * S); }}, {p2, [&] { c.Set(170, 5 * S); }}});
        c.Set(200, 6 * S);
        auto m2 = measure(c);
        double r1 = total(m1), r2 = total(m2);
        bool ok = false;
        for (auto e : {std::pair<double, double>{100, 2}, {130, 3}, {170, 5}}) ok = ok || (close(r1 * (e.second - 1), e.first - 50) && close(r2 * (6 - e.second), 200 - e.first));
        (void)r; (void)bts; (void)cts;
        h::check(ok, "MonotonicSampled 50@1s->100@2s, Measure with Set(130@3s) before access " + std::to_string(p1) + " and Set(170@5s) before access " + std::to_string(p2) + ", Set(200@6s) Measure: rates " + h::d2s(r1) + " and " + h::d2s(r2));
      }
    }
  return h::done();
}
