#include "meters.h"
#include "spectator/dist_summary.h"
#include "spectator/timer.h"
#include <chrono>
struct Acc { long double count = 0, total = 0, sq = 0; double max = 0; std::string bad; };
struct T {
  using M = Timer;
  static const char* total() { return "totalTime"; }
  static void rec(M& m, double x) { m.Record(absl::Nanoseconds((int64_t)x)); }
  static double unit() { return 1e9; }
};
struct D {
  using M = DistributionSummary;
  static const char* total() { return "totalAmount"; }
  static void rec(M& m, double x) { m.Record(x); }
  static double unit() { return 1; }
};
template <class K> void take(typename K::M& m, Acc* a) {
  auto g = measure(m);
  if (g.empty()) return;
  if (g.size() != 4) { a->bad = "reported " + std::to_string(g.size()) + " values"; return; }
  std::set<std::string> seen;
  for (auto& x : g) {
    auto s = x.tags["statistic"];
    seen.insert(s);
    if (x.name != "m" || x.tags["a"] != "b" || x.tags.size() != 2) a->bad = "wrong id";
    if (s == "count") a->count += x.value;
    else if (s == K::total()) a->total += x.value;
    else if (s == "totalOfSquares") a->sq += x.value;
    else if (s == "max") a->max = std::max(a->max, x.value);
    else a->bad = "statistic " + s;
  }
  if (seen.size() != 4) a->bad = "a statistic is missing";
}
bool near(double a, double b) { return a == b || std::abs(a - b) <= 1e-9 * std::max(std::abs(a), std::abs(b)); }
void judge(const Acc& a, const Acc& w, const std::string& what) {
  if (!h::check(a.bad.empty(), what + ": " + a.bad)) return;
  h::check(a.count == w.count, what + ": count " + h::d2s(a.count) + ", want " + h::d2s(w.count));
  h::check(near(a.total, w.total), what + ": total " + h::d2s(a.total) + ", want " + h::d2s(w.total));
  h::check(near(a.sq, w.sq), what + ": totalOfSquares " + h::d2s(a.sq) + ", want " + h::d2s(w.sq));
  h::check(near(a.max, w.max), what + ": max " + h::d2s(a.max) + ", want " + h::d2s(w.max));
}
template <class K> void want(Acc* w, double x) {
  if (!(x >= 0)) return;
  double u = x / K::unit();
  w->count += 1; w->total += u; w->sq += (long double)u * u; w->max = std::max(w->max, u);
}
template <class K> void run(const char* kn) {
  auto seq = [&](const std::vector<double>& v) {
    ++h::cases;
    typename K::M m{plain("m")};
    Acc a, w;
    std::string t = kn;
    for (double x : v) { K::rec(m, x); want<K>(&w, x); t += " Record(" + h::d2s(x) + ")"; }
    take<K>(m, &a);
    judge(a, w, t + " Measure");
    h::check(measure(m).empty(), t + " Measure: a second measurement reports something");
    K::rec(m, 7);
    Acc a2, w2;
    take<K>(m, &a2);
    want<K>(&w2, 7);
    judge(a2, w2, t + " Measure Record(7) Measure");
  };
  for (auto& x : h::cex) {
    char c[64]; unsigned long long b;
    if (sscanf(x.c_str(), "rec %63s %llu", c, &b) == 2 && std::string(c) == kn) {
      double d; if (std::string(kn) == "Timer") d = (double)(int64_t)b; else memcpy(&d, &b, 8);
      seq({5, d}); seq({d}); seq({d, 5});
    }
  }
  seq({});
  for (double x : {0.0, 1.0, 2.0, -1.0, -5.0, 1e9, 1e12, 3e15}) { seq({x}); seq({x, 3}); seq({3, x}); seq({x, x, -x, 1}); }
  if (K::unit() == 1) for (double x : {-0.0, 0.25, -0.25, 1e100, 5e-324, (double)NAN, (double)INFINITY, -(double)INFINITY}) { seq({x}); }
  for (int i = 0; i < 300; ++i) { std::vector<double> v; for (int j = h::rnd(6); j >= 0; --j) v.push_back((double)h::rnd(1000000) - 100000); seq(v); }
  for (double first : {0.0, 4.0, 20.0})
    for (int op = 0; op < 2; ++op)
      for (int p1 = 0; p1 < 14; ++p1)
        for (int p2 = p1; p2 < 14; ++p2)
          for (double x1 : {-1.0, 2.0, 30.0})
            for (double x2 : {-1.0, 6.0, 40.0}) {
              ++h::cases;
              typename K::M m{plain("m")};
              Acc a, w;
              if (first) { K::rec(m, first); want<K>(&w, first); }
              auto act = [&](double x) { return [&, x] { if (x < 0) take<K>(m, &a); else { K::rec(m, x); want<K>(&w, x); } }; };
              at_points([&] { if (op == 0) { K::rec(m, 10); want<K>(&w, 10); } else take<K>(m, &a); }, {{p1, act(x1)}, {p2, act(x2)}});
              // one more recording so that what an overlapped measurement left behind is reported
              K::rec(m, 1); want<K>(&w, 1);
              take<K>(m, &a);
              auto nm = [](double x) { return x < 0 ? std::string("Measure") : "Record(" + h::d2s(x) + ")"; };
              judge(a, w, std::string(kn) + " holding " + h::d2s(first) + ": " + (op ? "Measure" : "Record(10)") + " with " + nm(x1) + " before access " + std::to_string(p1) + " and " + nm(x2) +
                          " before access " + std::to_string(p2));
            }
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  run<T>("Timer");
  run<D>("DistributionSummary");
  for (int64_t ns : {0LL, 1LL, -1LL, 999999999LL, 1000000000LL, 1500000001LL, -1500000001LL, 123456789012345LL}) {
    ++h::cases;
    Timer t{plain("m")};
    t.Record(std::chrono::nanoseconds(ns));
    h::check(t.Count() == (ns >= 0) && t.TotalTime() == (ns >= 0 ? ns : 0), "Timer.Record(" + std::to_string(ns) + "ns): total " + std::to_string(t.TotalTime()));
  }
  return h::done();
}
