#include "h.h"
#include "spectator/id.h"
#include <map>
using namespace spectator;
using Ref = std::map<std::string, std::string>;
static std::vector<std::string> keys;
static std::string show(const Ref& r) { std::string s = "{"; for (auto& p : r) s += p.first + "=" + p.second + " "; return s + "}"; }
static bool agree(const Tags& t, const Ref& r, const std::string& id) {
  ++h::cases;
  if (t.size() != r.size()) { h::fail(id + ": " + std::to_string(t.size()) + " tags, want " + show(r)); return false; }
  if (t.empty() != r.empty()) { h::fail(id + ": empty() is wrong"); return false; }
  auto it = r.begin();
  for (auto& e : t) {
    if (e.key.Get() != it->first || e.value.Get() != it->second) { h::fail(id + ": tag " + e.key.Get() + "=" + e.value.Get() + " in the place of " + it->first + "=" + it->second + " of " + show(r)); return false; }
    ++it;
  }
  for (auto& k : keys) {
    auto f = r.find(k);
    StrRef s = intern_str(k);
    if (t.has(s) != (f != r.end())) { h::fail(id + ": has(" + k + ") is wrong for " + show(r)); return false; }
    StrRef v = t.at(s);
    if (f == r.end() ? v.Get() != nullptr : (v.Get() == nullptr || f->second != v.Get())) { h::fail(id + ": at(" + k + ") is wrong for " + show(r)); return false; }
  }
  // the same pairs inserted in another order
  Tags o;
  std::vector<std::pair<std::string, std::string>> v(r.begin(), r.end());
  for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[h::rnd(i)]);
  for (auto& p : v) { if (h::rnd(3) == 0) o.add(intern_str(p.first), intern_str("other")); o.add(intern_str(p.first), intern_str(p.second)); }
  if (!(o == t) || !(t == o)) { h::fail(id + ": not equal to the same pairs inserted in another order " + show(r)); return false; }
  if (o.hash() != t.hash() || std::hash<Tags>{}(o) != std::hash<Tags>{}(t)) { h::fail(id + ": another hash for the same pairs inserted in another order " + show(r)); return false; }
  if (!v.empty()) {
    Tags d(o);
    d.add(intern_str(v[0].first), intern_str("zzz-different"));
    if (d == t || t == d) { h::fail(id + ": equal to a set with another value " + show(r)); return false; }
    Tags e(o);
    e.add(intern_str("zz-extra-key"), intern_str("1"));
    if (e == t || t == e) { h::fail(id + ": equal to a larger set " + show(r)); return false; }
  }
  return true;
}
static Ref read(const Tags& t) { Ref r; for (auto& e : t) r[e.key.Get()] = e.value.Get(); return r; }
static void seq(int nkeys, int ops) {
  keys.clear();
  for (int i = 0; i < nkeys; ++i) {
    std::string k;
    int kind = h::rnd(3);
    if (kind == 0) k = std::string(1 + h::rnd(6), "abcAB0_-"[h::rnd(8)]) + std::to_string(h::rnd(30));
    else if (kind == 1) k = "k" + std::to_string(i);
    else k = std::string("prefix.of.a.long.key.").substr(0, 1 + h::rnd(20));
    keys.push_back(k);
  }
  const int N = 4;
  std::vector<Tags*> t;
  std::vector<Ref> r(N);
  std::vector<bool> valid(N, true);
  for (int i = 0; i < N; ++i) t.push_back(new Tags());
  std::string tr;
  bool ok = true;
  for (int k = 0; k < ops && ok; ++k) {
    int a = h::rnd(N), b = h::rnd(N);
    int op = h::rnd(14);
    std::string key = keys[h::rnd(keys.size())], val = "v" + std::to_string(h::rnd(5));
    if (op >= 8 && op < 13) op = 0;
    tr += " " + std::to_string(op) + ":" + std::to_string(a) + (op >= 3 ? "," + std::to_string(b) : "");
    if (tr.size() > 4000) tr = tr.substr(2000);
    h::trying("nkeys=" + std::to_string(nkeys) + " ops" + (tr.size() > 600 ? tr.substr(tr.size() - 600) : tr));
    switch (op) {
      case 0: t[a]->add(intern_str(key), intern_str(val)); r[a][key] = val; break;
      case 1: t[a]->add(key.c_str(), val.c_str()); r[a][key] = val; break;
      case 2: t[a]->add(std::string_view(key), std::string_view(val)); r[a][key] = val; break;
      case 3: { auto* n = new Tags(*t[b]); delete t[a]; t[a] = n; auto x = r[b]; r[a] = x; break; }
      case 4: if (a != b) { auto* n = new Tags(std::move(*t[b])); delete t[a]; t[a] = n; r[a] = r[b]; r[b] = read(*t[b]); } break;
      case 5: if (a != b) { *t[a] = std::move(*t[b]); r[a] = r[b]; r[b] = read(*t[b]); } break;
      case 6: { t[a]->add_all(*t[b]); for (auto p : Ref(r[b])) r[a][p.first] = p.second; break; }
      case 7: {   // a set that was moved from can be assigned to
        if (a == b) break;
        Tags m(std::move(*t[b]));
        *t[b] = std::move(m);
        break;
      }
      case 13: { Tags& x = *t[a]; *t[a] = std::move(x); break; }
    }
    std::string id = "keys " + std::to_string(nkeys) + " ops" + (tr.size() > 300 ? "..." + tr.substr(tr.size() - 300) : tr);
    ok = agree(*t[a], r[a], id) && agree(*t[b], r[b], id);
  }
  for (auto* p : t) delete p;
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  for (int n = 1; n <= 20; ++n) seq(n, 120);
  for (int i = 0; i < (h::thorough ? 300 : 20); ++i) seq(1 + h::rnd(40), 200);
  seq(200, h::thorough ? 4000 : 500);
  {
    Tags t{{"b", "2"}, {"a", "1"}, {"b", "3"}};
    keys = {"a", "b", "c"};
    agree(t, {{"a", "1"}, {"b", "3"}}, "initializer list");
    Tags l{{"a", "1"}, {"b", "1"}, {"c", "1"}, {"d", "1"}, {"e", "1"}, {"f", "1"}, {"g", "1"}, {"h", "1"}, {"i", "1"}, {"j", "1"}};
    Tags m(std::move(l));
    agree(m, {{"a", "1"}, {"b", "1"}, {"c", "1"}, {"d", "1"}, {"e", "1"}, {"f", "1"}, {"g", "1"}, {"h", "1"}, {"i", "1"}, {"j", "1"}}, "initializer list of ten");
  }
  return h::done();
}
