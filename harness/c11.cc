#include "h.h"
#include <map>
#include <memory>
#include "spectator/id.h"
using namespace spectator;
struct O { std::string name; std::map<std::string, std::string> t; bool operator==(const O& o) const { return name == o.name && t == o.t; } };
static O read(const Id& i) { O o; o.name = i.Name().Get(); for (auto& t : i.GetTags()) { if (o.t.count(t.key.Get())) h::fail("a key twice"); o.t[t.key.Get()] = t.value.Get(); } return o; }
static std::string show(const O& o) { std::string s = o.name + "{"; for (auto& p : o.t) s += p.first + "=" + p.second + ","; return s + "}"; }
static void same(const Id& i, const O& o, const std::string& what) { ++h::cases; O g = read(i); if (!(g == o)) h::fail(what + ": got " + show(g) + ", want " + show(o)); }
static std::string rs(const char* p, int n) { return p + std::to_string(h::rnd(n)); }
static O rnd() { O o; o.name = rs("n", 3); int n = h::rnd(4) ? h::rnd(3) : h::rnd(20); for (int i = 0; i < n; ++i) o.t[h::rnd(5) ? rs("k", n < 4 ? 3 : 30) : "statistic"] = rs("v", 2); return o; }
static Id make(const O& o) { Tags t; std::vector<std::pair<std::string, std::string>> v(o.t.begin(), o.t.end()); for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[h::rnd(i)]); for (auto& p : v) t.add(p.first.c_str(), p.second.c_str()); return h::rnd(2) ? Id(o.name, std::move(t)) : Id::Of(o.name, std::move(t)); }
int main(int argc, char** argv) {
  h::init(argc, argv);
  std::vector<std::pair<O, std::unique_ptr<Id>>> all;
  std::vector<std::shared_ptr<Id>> sp;
  for (int i = 0; i < (h::thorough ? 1200 : 250); ++i) { O o = rnd(); h::trying(show(o)); all.emplace_back(o, new Id(make(o))); sp.push_back(std::make_shared<Id>(make(o))); if (h::rnd(2)) (void)std::hash<Id>{}(*all.back().second); }
  for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < all.size(); ++j) {
    ++h::cases;
    const Id &a = *all[i].second, &b = *all[j].second;
    bool want = all[i].first == all[j].first;
    if ((a == b) != want) h::fail("equality of " + show(all[i].first) + " and " + show(all[j].first));
    if (std::equal_to<std::shared_ptr<Id>>{}(sp[i], sp[j]) != want) h::fail("equality of pointers to " + show(all[i].first) + " and " + show(all[j].first));
    if (want && (std::hash<Id>{}(a) != std::hash<Id>{}(b) || std::hash<Id>{}(a) != std::hash<std::shared_ptr<Id>>{}(sp[j]))) h::fail("different hashes of equal ids " + show(all[i].first));
  }
  for (auto& p : all) {
    const Id& a = *p.second;
    O o = p.first;
    h::trying(show(o));
    auto put = [&](O x, std::string k, std::string v) { x.t[k] = v; return x; };
    auto derived = [&](Id d, const O& w, const char* what) {
      same(d, w, std::string(what) + " of " + show(o));
      same(a, o, std::string("the original after ") + what);
      Id f = make(w);
      if (!(f == d) || std::hash<Id>{}(f) != std::hash<Id>{}(d)) h::fail(std::string(what) + " of " + show(o) + ": not equal to, or another hash than, the same id built directly");
    };
    for (std::string k : {rs("k", 30), std::string("statistic"), std::string("aa")}) {
      derived(a.WithTag(intern_str(k), intern_str("x")), put(o, k, "x"), "WithTag");
      derived(a.WithTags(intern_str(k), intern_str("x"), intern_str("b"), intern_str("y")), put(put(o, k, "x"), "b", "y"), "WithTags");
      derived(a.WithTags(intern_str(k), intern_str("x"), intern_str(k), intern_str("y")), put(o, k, "y"), "WithTags same key");
    }
    derived(a.WithStat(refs().max()), put(o, "statistic", "max"), "WithStat");
    derived(a.WithDefaultStat(refs().count()), o.t.count("statistic") ? o : put(o, "statistic", "count"), "WithDefaultStat");
    O e = rnd(), w = o;
    for (auto& t : e.t) w.t[t.first] = t.second;
    Id ei = make(e);
    derived(a.WithTags(Tags(ei.GetTags())), w, "WithTags(tags)");
    Id c(a);
    same(c, o, "copy");
    if (!(c == a) || std::hash<Id>{}(c) != std::hash<Id>{}(a)) h::fail("a copy differs: " + show(o));
    Id m(std::move(c));
    same(m, o, "move");
    if (std::hash<Id>{}(m) != std::hash<Id>{}(a)) h::fail("another hash after moving: " + show(o));
  }
  struct { StrRef r; const char* s; } rr[] = {{refs().name(), "name"}, {refs().count(), "count"}, {refs().gauge(), "gauge"}, {refs().totalTime(), "totalTime"}, {refs().totalAmount(), "totalAmount"}, {refs().totalOfSquares(), "totalOfSquares"}, {refs().percentile(), "percentile"}, {refs().max(), "max"}, {refs().statistic(), "statistic"}};
  for (auto& x : rr) { ++h::cases; if (x.r != intern_str(x.s)) h::fail(std::string("the reference of ") + x.s); }
  return h::done();
}
