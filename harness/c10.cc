#include "h.h"
#include "spectator/string_pool.h"
#include <map>
#include <thread>
#include <atomic>
using namespace spectator;
static bool valid(unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '.' || c == '-' || c == '_' || c == '~' || c == '^'; }
static std::string clean(std::string s) { for (auto& c : s) if (!valid(c)) c = '_'; return s; }
static std::map<std::string, const char*> seen;
static void one(StringPool* p, const std::string& s, std::map<std::string, const char*>& seen) {
  ++h::cases;
  h::trying(h::q(s));
  char* heap = static_cast<char*>(malloc(s.size() + 1));   // so that a read behind the text is an error
  memcpy(heap, s.data(), s.size());
  heap[s.size()] = 0;
  StrRef r = p ? p->Intern(heap, s.size()) : h::rnd(2) ? intern_str(s) : s.find('\0') == std::string::npos && h::rnd(2) ? intern_str(heap) : intern_str(std::string_view(heap, s.size()));
  memset(heap, '#', s.size());
  free(heap);
  std::string want = clean(s), got(r.Get());
  if (got != want || r.Length() != want.size()) { h::fail("interning " + h::q(s) + " gives " + h::q(got)); return; }
  auto f = seen.find(want);
  if (f == seen.end()) {
    for (auto& x : {want + "a"}) (void)x;
    seen[want] = r.Get();
  } else if (f->second != r.Get()) h::fail("interning " + h::q(s) + " again gives another reference");
}
static void stable(std::map<std::string, const char*>& seen) {
  std::set<const char*> ps;
  for (auto& e : seen) {
    if (e.first != e.second) h::fail("the reference of " + h::q(e.first) + " now reads " + h::q(e.second));
    if (!ps.insert(e.second).second) h::fail("two texts share the reference of " + h::q(e.first));
  }
}
static std::string some(int alpha, int len) {
  std::string s;
  for (int i = 0; i < len; ++i) s += alpha == 0 ? char('a' + h::rnd(3)) : alpha == 1 ? char(h::rnd(256)) : "a_ $/"[h::rnd(5)];
  return s;
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  {
    StringPool pool;
    std::map<std::string, const char*> m;
    for (int c = 0; c < 256; ++c) for (int k = 0; k < 2; ++k) { one(&pool, std::string(1, char(c)), m); one(&pool, std::string("x") + char(c) + "y", m); }
    for (int i = 0; i < (h::thorough ? 200000 : 8000); ++i) one(&pool, some(h::rnd(3), h::rnd(9)), m);
    for (int n : {0, 1, 100, 1000, 65535, 65536, 70001, 300000}) for (int k = 0; k < 2; ++k) one(&pool, std::string(n, 'q') + (k ? "" : ""), m);
    for (int n : {2, 7, 8, 9, 16, 31, 64, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 4096}) {   // differ in one place
      std::string t(n, 'p');
      for (int at : {0, n / 2, n - 2, n - 1}) for (char c : {'q', '/', '\0', 'r'}) { auto u = t; u[at] = c; one(&pool, u, m); one(&pool, u + "s", m); }
    }
    stable(m);
  }
  for (int i = 0; i < 4000; ++i) one(nullptr, some(h::rnd(3), h::rnd(9)), seen);
  stable(seen);
  {   // several threads
    const int T = 4, N = 400;
    std::vector<std::thread> ts;
    std::vector<std::vector<const char*>> got(T, std::vector<const char*>(N));
    std::atomic<int> go{0};
    for (int t = 0; t < T; ++t) ts.emplace_back([&, t] {
      ++go; while (go < T) {}
      for (int i = 0; i < N; ++i) got[t][i] = intern_str("thread." + std::to_string(i) + "/" + std::string(i % 7, ' ')).Get();
    });
    for (auto& t : ts) t.join();
    for (int i = 0; i < N; ++i) for (int t = 0; t < T; ++t) {
      ++h::cases;
      if (got[t][i] != got[0][i] || std::string(got[t][i]) != clean("thread." + std::to_string(i) + "/" + std::string(i % 7, ' '))) { h::fail("threads interning the same text get different references"); i = N; break; }
    }
    stable(seen);
  }
  for (auto& p : seen) for (auto k : {0}) { (void)k; StrRef a = intern_str(p.first); auto lo = seen.begin(); StrRef b = intern_str(lo->first);
    ++h::cases;
    if ((a == b) != (p.first == lo->first) || (b < a) != (lo->first < p.first) || (a == b && std::hash<StrRef>{}(a) != std::hash<StrRef>{}(b))) h::fail("order or equality of " + h::q(p.first)); }
  return h::done();
}
