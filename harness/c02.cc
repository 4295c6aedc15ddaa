#include "h.h"
#include "spectator/smile.h"
#include "smile.h"
using namespace spectator;
static std::string show(const Val& v) { return v.k == 0 ? "int " + std::to_string(v.n) : v.k == 1 ? "double " + h::d2s(v.d) : "string " + h::q(v.s); }
static void run(SmilePayload& p, const std::vector<Val>& vs, int kind = 0) {
  ++h::cases;
  p.Init();
  for (auto& v : vs) {
    if (v.k == 0) { if (v.n % 2) p.Append(static_cast<size_t>(v.n)); else p.Append(static_cast<int>(v.n)); }
    else if (v.k == 1) p.Append(v.d);
    else p.Append(std::string_view(v.s));
  }
  auto r = p.Result();
  bool ok;
  auto b = inflate_all(r.data, r.size, &ok);
  if (!ok) { h::fail("payload is not one complete gzip stream, first value " + (vs.empty() ? "none" : show(vs[0]))); return; }
  std::vector<Val> got; std::string err;
  if (!decode(b, &got, &err)) { h::fail("payload of " + std::to_string(vs.size()) + " values, first " + (vs.empty() ? "none" : show(vs[0])) + ": " + err); return; }
  if (got.size() != vs.size()) { h::fail("payload of " + std::to_string(vs.size()) + " values (first " + show(vs.empty() ? Val{} : vs[0]) + ") decodes to " + std::to_string(got.size())); return; }
  for (size_t i = 0; i < vs.size(); ++i) {
    const Val &a = vs[i], &g = got[i];
    bool same = a.k == g.k && (a.k == 0 ? a.n == g.n : a.k == 1 ? h::bits(a.d) == h::bits(g.d) : a.s == g.s);
    if (!same) { h::fail("value " + std::to_string(i) + ": " + show(a) + " decodes to " + show(g)); return; }
  }
}
static std::string ascii(size_t n) { std::string s(n, 0); for (auto& c : s) c = char(h::rnd(128)); return s; }
int main(int argc, char** argv) {
  h::init(argc, argv);
  SmilePayload p;
  auto I = [](uint64_t n) { Val v{}; v.k = 0; v.n = n; return v; };
  auto D = [](uint64_t b) { Val v{}; v.k = 1; memcpy(&v.d, &b, 8); return v; };
  auto S = [](std::string s) { Val v{}; v.k = 2; v.s = s; return v; };
  for (auto& c : h::cex) {
    unsigned long long n;
    if (sscanf(c.c_str(), "int %llu", &n) == 1) run(p, {I(n), I(n ^ 1)});
    if (sscanf(c.c_str(), "dbl %llu", &n) == 1) run(p, {D(n)});
    if (sscanf(c.c_str(), "str %llu", &n) == 1) run(p, {S(ascii(n))});
  }
  run(p, {});
  for (int k = 0; k <= 31; ++k) for (int64_t d = -2; d <= 2; ++d) { int64_t n = (int64_t(1) << k) + d; if (n >= 0 && n < (int64_t(1) << 31)) run(p, {I(n), I(7)}); }
  for (size_t n = 0; n < 200; ++n) run(p, {I(3), S(ascii(n)), S(std::string(n, 'a')), I(5)});
  for (size_t n : {255, 256, 257, 1000, 70000, 300000}) run(p, {S(ascii(n)), I(n)});
  for (int k = 0; k < 64; ++k) run(p, {D(1ull << k), D(~(1ull << k)), D((1ull << k) - 1), I(1)});
  for (double d : {0.0, -0.0, 1.0, -1.5, 1e308, 5e-324}) run(p, {D(h::bits(d))});
  for (int k = 0; k < (h::thorough ? 20000 : 1500); ++k) {
    std::vector<Val> vs;
    int n = h::rnd(40);
    for (int j = 0; j < n; ++j) { int t = h::rnd(3); vs.push_back(t == 0 ? I(h::rng() >> (33 + h::rnd(31))) : t == 1 ? D(h::rng()) : S(ascii(h::rnd(4) ? h::rnd(100) : h::rnd(1000)))); }
    run(p, vs);
  }
  // many integers in one payload, then a second payload from the same object
  std::vector<Val> vs;
  for (int k = 0; k < 120000; ++k) vs.push_back(I(h::rng() >> (33 + h::rnd(31))));
  run(p, vs);
  run(p, {I(1)});
  return h::done();
}
