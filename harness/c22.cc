// C22: the payload of a batch, decompressed and decoded, against its measurements
#include "registry.h"
#include "smile.h"
static const std::vector<std::string> STATS = {"count", "totalAmount", "totalTime", "totalOfSquares", "percentile", "max", "gauge", "total", "duration", "Count", "counts", ""};
static std::string word() {
  static const std::vector<std::string> some = {"name", "statistic", "count", "a", "b", "nf.app", "nf.node", "id", "", "percentile"};
  switch (h::rnd(6)) {
    case 0: return some[h::rnd(some.size())];
    case 1: return std::string(1 + h::rnd(200), char('a' + h::rnd(26)));
    default: return std::string(1, char('a' + h::rnd(5))) + std::to_string(h::rnd(h::rnd(2) ? 10 : 1000));
  }
}
using Set = std::multimap<std::string, std::string>;
static std::string show(const Set& s) { std::string r; for (auto& p : s) r += h::q(p.first) + "=" + h::q(p.second) + " "; return r; }
struct M { std::unique_ptr<Id> id; Set tags; std::string name, stat; double value; };
static void one(Registry& r, SmilePayload& p, const Set& common) {
  ++h::cases;
  std::vector<M> ms; Measurements in;
  size_t n = h::rnd(20) == 0 ? 200 + h::rnd(2000) : h::rnd(8);
  std::string last = word();
  for (size_t i = 0; i < n; ++i) {
    M m;
    m.name = h::rnd(3) ? word() : last;
    last = m.name;
    std::map<std::string, std::string> t;
    for (int j = 0, k = h::rnd(4) ? h::rnd(6) : h::rnd(20); j < k; ++j) t[word()] = word();
    if (h::rnd(3)) t["statistic"] = STATS[h::rnd(STATS.size())];
    Tags tags;
    for (auto& kv : t) { tags.add(kv.first, kv.second); m.tags.insert(kv); }
    m.stat = t.count("statistic") ? t["statistic"] : "?";
    m.id = std::make_unique<Id>(Id::Of(m.name, std::move(tags)));
    m.value = h::rnd(3) ? double(h::rnd(1000)) : std::exp(h::rnd(100)) * -1.5;
    ms.push_back(std::move(m));
  }
  for (auto& m : ms) in.emplace_back(*m.id, m.value);
  std::string what = std::to_string(n) + " measurements" + (n && n < 9 ? " (" : "");
  if (n < 9) for (auto& m : ms) what += text(*m.id) + ", ";
  what += n && n < 9 ? "), common tags " : ", common tags ";
  what += show(common);
  h::trying(what);
  r.publisher_.measurements_to_json(&p, in.begin(), in.end());
  auto c = p.Result();
  bool ok; std::string err; std::vector<Val> v;
  auto b = inflate_all(c.data, c.size, &ok);
  if (!ok || !decode(b, &v, &err)) { h::fail(what + ": no payload: " + err); return; }
  size_t i = 0;
  bool short_ = false;
  auto num = [&]() -> uint64_t { if (i >= v.size() || v[i].k != 0) { short_ = true; return 0; } return v[i++].n; };
  std::vector<std::string> strings;
  size_t sn = num();
  for (size_t j = 0; j < sn && i < v.size() && v[i].k == 2; ++j) strings.push_back(v[i++].s);
  if (strings.size() != sn) { h::fail(what + ": the table of strings has " + std::to_string(strings.size()) + " of " + std::to_string(sn)); return; }
  if (std::set<std::string>(strings.begin(), strings.end()).size() != sn) { h::fail(what + ": a string is in the table twice"); return; }
  auto str = [&]() -> std::string { auto x = num(); if (x >= sn) { short_ = true; return ""; } return strings[x]; };
  for (size_t j = 0; j < n; ++j) {
    Set want = common, got;
    want.insert(ms[j].tags.begin(), ms[j].tags.end());
    want.emplace("name", ms[j].name);
    auto w = what + ": measurement " + std::to_string(j) + " " + text(*ms[j].id);
    size_t t = num();
    for (size_t q = 0; q < t && !short_; ++q) { auto a = str(), b = str(); got.emplace(a, b); }
    auto op = num();
    bool add = false;
    for (int q = 0; q < 5; ++q) add |= ms[j].stat == STATS[q];
    std::vector<std::pair<std::string, std::string>> a(want.begin(), want.end()), g(got.begin(), got.end());
    std::sort(a.begin(), a.end()); std::sort(g.begin(), g.end());
    if (short_ || i >= v.size() || v[i].k != 1) { h::fail(w + ": an index, operation or value is wrong"); return; }
    if (a != g) { h::fail(w + ": tags " + show(got) + ", want " + show(want)); return; }
    if (op != (add ? 0 : 10)) { h::fail(w + ": operation " + std::to_string(op)); return; }
    if (h::bits(v[i].d) != h::bits(ms[j].value)) { h::fail(w + ": value " + h::d2s(v[i].d) + ", want " + h::d2s(ms[j].value)); return; }
    ++i;
  }
  if (i != v.size()) h::fail(what + ": more follows the measurements");
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  spectatord::Logger()->set_level(spdlog::level::off);
  for (int k = 0, n = h::thorough ? 400 : 60; k < n; ++k) {
    auto c = config();
    for (int j = 0, t = h::rnd(12); j < t; ++j) c->common_tags[word()] = word();
    c->common_tags.erase("");
    Set common(c->common_tags.begin(), c->common_tags.end());
    Registry r{std::move(c), spectatord::Logger()};
    SmilePayload p;
    for (int i = 0; i < 60; ++i) one(r, p, common);
  }
  return h::done();
}
