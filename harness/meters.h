// schedule exploration for the meter harnesses
#pragma once
#include "h.h"
#include "spectator/common_refs.h"
#include "spectator/id.h"
#include "spectator/measurement.h"
#include <map>
using namespace spectator;
struct Got { std::string name; std::map<std::string, std::string> tags; double value; };
inline std::vector<Got> got(const Measurements& ms) {
  std::vector<Got> r;
  for (auto& m : ms) {
    Got g;
    g.name = m.id.Name().Get();
    for (auto& t : m.id.GetTags()) g.tags[t.key.Get()] = t.value.Get();
    g.value = m.value;
    r.push_back(g);
  }
  return r;
}
template <class M> std::vector<Got> measure(M& m) { Measurements ms; m.Measure(&ms); return got(ms); }
inline Id plain(const char* n) { return Id(n, Tags{{"a", "b"}}); }
inline Id statted(const char* n) { return Id(n, Tags{{"a", "b"}, {"statistic", "other"}}); }
// run op with others[i] executed just before its points[i]-th atomic access / lock; returns the number of points
inline int at_points(const std::function<void()>& op, const std::vector<std::pair<int, std::function<void()>>>& others) {
  int n = 0;
  vc_hook = [&] { int k = n++; for (auto& o : others) if (o.first == k) o.second(); };
  op();
  vc_hook = nullptr;
  return n;
}
inline bool close(double a, double b) { return a == b || std::abs(a - b) <= 1e-12 * std::max(std::abs(a), std::abs(b)) || (std::isnan(a) && std::isnan(b)); }
