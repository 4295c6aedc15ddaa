#include "meters.h"
#include "spectator/counter.h"
static double total(const std::vector<Got>& g) { double s = 0; for (auto& x : g) s += x.value; return s; }
int main(int argc, char** argv) {
  h::init(argc, argv);
  auto one = [&](double d) {
    ++h::cases;
    Counter c{plain("c")};
    c.Add(3);
    c.Add(d);
    double want = 3 + (d >= 0 ? d : 0);
    auto g = measure(c);
    std::string w = "Add(3), Add(" + h::d2s(d) + "), Measure";
    if (!h::check(g.size() == 1 && g[0].value == want, w + ": reported " + (g.size() == 1 ? h::d2s(g[0].value) : std::to_string(g.size()) + " values") + ", want " + h::d2s(want))) return;
    h::check(g[0].name == "c" && g[0].tags == std::map<std::string, std::string>{{"a", "b"}, {"statistic", "count"}}, w + ": wrong id");
    h::check(measure(c).empty() && c.Count() == 0, w + ": second measurement reports something");
    c.Increment();
    g = measure(c);
    h::check(g.size() == 1 && g[0].value == 1, w + ", Increment, Measure: wrong");
  };
  for (auto& x : h::cex) { unsigned long long b; if (sscanf(x.c_str(), "add %llu", &b) == 1) { double d; memcpy(&d, &b, 8); one(d); } }
  for (double d : {0.0, -0.0, 1.0, 0.5, -1.0, -0.001, 1e300, 5e-324, -5e-324, (double)NAN, (double)INFINITY, -(double)INFINITY, 4294967296.0}) one(d);
  for (int i = 0; i < 300; ++i) one((double(h::rnd(2000001)) - 1000000) / 64);
  {
    Counter c{statted("c")};
    c.Add(2);
    auto g = measure(c);
    h::check(g.size() == 1 && g[0].tags["statistic"] == "other", "a counter with a statistic tag keeps it");
    Counter e{plain("e")};
    h::check(measure(e).empty() && e.Count() == 0, "a new counter reports nothing");
  }
  // every placement of up to two interfering actions in Add and Measure
  std::vector<std::pair<std::string, std::vector<double>>> acts = {{"Add(2)", {2}}, {"Measure", {-1}}, {"Measure+Add(5)", {-1, 5}}, {"Add(5)", {5}}, {"Measure+Add(2)", {-1, 2}}, {"Add(1)+Add(2)", {1, 2}}};
  for (int op = 0; op < 2; ++op)
    for (int p1 = 0; p1 < 8; ++p1)
      for (int p2 = p1; p2 < 8; ++p2)
        for (auto& a1 : acts)
          for (auto& a2 : acts) {
            ++h::cases;
            Counter c{plain("c")};
            double added = 5, rep = 0;
            c.Add(5);
            auto run = [&](const std::vector<double>& v) { return [&] { for (double d : v) if (d < 0) rep += total(measure(c)); else { added += d; c.Add(d); } }; };
            at_points([&] { if (op == 0) { added += 10; c.Add(10); } else rep += total(measure(c)); }, {{p1, run(a1.second)}, {p2, run(a2.second)}});
            rep += total(measure(c));
            rep += total(measure(c));
            h::check(rep == added, std::string(op ? "Measure" : "Add(10)") + " on a counter holding 5 with " + a1.first + " before access " + std::to_string(p1) + " and " + a2.first + " before access " +
                     std::to_string(p2) + ": reported " + h::d2s(rep) + " of " + h::d2s(added));
          }
  return h::done();
}
