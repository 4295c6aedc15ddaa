#include "meters.h"
#include "spectator/age_gauge.h"
#include "spectator/max_gauge.h"
int main(int argc, char** argv) {
  h::init(argc, argv);
  auto seq = [&](const std::vector<double>& v) {
    ++h::cases;
    MaxGauge g{plain("m")};
    for (int round = 0; round < 2; ++round) {
      double best = NAN;
      std::string t = "MaxGauge";
      for (double x : v) { if (h::rnd(2)) g.Set(x); else g.Update(x); t += " Set(" + h::d2s(x) + ")"; if (!std::isnan(x) && !(x <= best)) best = x; }
      if (!h::check((std::isnan(best) && std::isnan(g.Get())) || g.Get() == best, t + ": Get is " + h::d2s(g.Get()))) return;
      auto m = measure(g);
      if (!h::check(m.size() == (std::isnan(best) ? 0 : 1), t + " Measure: reported " + std::to_string(m.size()) + " values")) return;
      if (m.size()) h::check(m[0].value == best && m[0].name == "m" && m[0].tags == std::map<std::string, std::string>{{"a", "b"}, {"statistic", "max"}}, t + " Measure: reported " + h::d2s(m[0].value) + ", want " + h::d2s(best));
      if (!h::check(measure(g).empty(), t + " Measure Measure: the second reports something")) return;
    }
  };
  for (auto& x : h::cex) { unsigned long long b; if (sscanf(x.c_str(), "max %llu", &b) == 1) { double d; memcpy(&d, &b, 8); if (d > -1.7e308 || d != d) { seq({d}); seq({1, d}); seq({d, 1}); } } }
  seq({});
  for (double x : {0.0, 1.0, -1.0, 5e-324, -5e-324, 1e308, -1e308, (double)NAN, (double)INFINITY}) { seq({x}); for (double y : {0.0, -2.0, 3.0, (double)NAN}) { seq({x, y}); seq({y, x, y}); } }
  for (int i = 0; i < 500; ++i) { std::vector<double> v; for (int n = h::rnd(8); n >= 0; --n) v.push_back((double)h::rnd(1000) - 600); seq(v); }
  for (double first : {-50.0, 4.0, 20.0})
    for (int op = 0; op < 2; ++op)
      for (int p1 = 0; p1 < 8; ++p1)
        for (int p2 = p1; p2 < 8; ++p2)
          for (double x1 : {-99.0, 5.0, 30.0})
            for (double x2 : {-99.0, 6.0, 40.0}) {
              ++h::cases;
              MaxGauge g{plain("m")};
              std::vector<double> given{first}, rep;
              g.Set(first);
              // each interval's values, delimited by measurements in their order of completion
              auto take = [&] { for (auto& x : measure(g)) rep.push_back(x.value); };
              auto act = [&](double x) { return [&, x] { if (x == -99) take(); else { given.push_back(x); g.Set(x); } }; };
              given.push_back(10 * !op + first * op);
              at_points([&] { if (op == 0) g.Set(10); else take(); }, {{p1, act(x1)}, {p2, act(x2)}});
              take();
              auto nm = [](double x) { return x == -99 ? std::string("Measure") : "Set(" + h::d2s(x) + ")"; };
              std::string t = std::string("MaxGauge holding ") + h::d2s(first) + ": " + (op ? "Measure" : "Set(10)") + " with " + nm(x1) + " before access " + std::to_string(p1) + " and " + nm(x2) + " before access " + std::to_string(p2);
              double best = *std::max_element(given.begin(), given.end());
              h::check(!rep.empty() && *std::max_element(rep.begin(), rep.end()) == best, t + ": the largest value " + h::d2s(best) + " was not reported");
              for (double r : rep) h::check(std::find(given.begin(), given.end(), r) != given.end(), t + ": reported " + h::d2s(r) + " which was never given");
              h::check(measure(g).empty(), t + ": reports again without an update");
            }
  vc_clock_on = true;
  for (int64_t now : {0LL, 1LL, 1000000000LL, 1500000000LL, 1700000000123456789LL})
    for (int64_t last : {-1LL, 0LL, 1LL, 500000000LL, 1700000000000000000LL})
      for (int st = 0; st < 2; ++st) {
        ++h::cases;
        vc_clock = now;
        AgeGauge a{st ? statted("m") : plain("m")};
        if (last >= 0) a.UpdateLastSuccess(last); else { vc_clock = 7; a.UpdateLastSuccess(); vc_clock = now; }
        double want = (now - (last < 0 ? 7 : last)) / 1e9;
        for (int r = 0; r < 2; ++r) {
          auto m = measure(a);
          std::string t = "AgeGauge, last success " + std::to_string(last) + ", now " + std::to_string(now);
          if (!h::check(m.size() == 1, t + ": reported " + std::to_string(m.size()) + " values")) break;
          h::check(close(m[0].value, want) && m[0].tags == std::map<std::string, std::string>{{"a", "b"}, {"statistic", st ? "other" : "gauge"}}, t + ": reported " + h::d2s(m[0].value) + ", want " + h::d2s(want));
          h::check(close(a.Value(now + 1000000000LL), want + 1), t + ": Value");
        }
      }
  return h::done();
}
