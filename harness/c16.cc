#include "registry.h"
#include "server/spectatord.h"
#include "server/local.h"
using spectatord::Server;
static std::unique_ptr<char[]> text_of(const std::string& s) {
  std::unique_ptr<char[]> b{new char[s.size() + 1]};
  memcpy(b.get(), s.c_str(), s.size() + 1);
  return b;
}
static std::vector<std::string> split(const std::string& s) {
  std::vector<std::string> r;
  size_t i = 0;
  while (i < s.size()) {
    size_t e = std::min(s.find('\n', i), s.size());
    if (e > i) r.push_back(s.substr(i, e - i));
    i = e + 1;
  }
  return r;
}
static double count(Registry& r, const char* name) { return r.GetCounter(name)->Count(); }
static std::string error_of(const std::string& l) { return "error<" + l + ">"; }
static bool fails(const std::string& l) { return l[0] == '!'; }
static void packet(const std::string& s0) {
  std::string s = s0.substr(0, s0.find('\0'));
  ++h::cases;
  for (bool status : {false, true}) {
    h::trying("packet " + h::q(s) + (status ? " with status metrics" : ""));
    Registry r{config(1000, status), spectatord::Logger()};
    Server server{false, 0, 0, std::nullopt, &r};
    auto want = split(s);
    std::vector<std::string> got;
    auto b = text_of(s);
    auto res = server.parse_lines(b.get(), [&](char* l) -> std::optional<std::string> {
      got.push_back(l);
      if (*l == 0) return "empty";
      if (fails(l)) return error_of(l);
      return {};
    });
    // an empty line at the start may be parsed or skipped
    if (!s.empty() && s[0] == '\n' && !got.empty() && got[0].empty()) want.insert(want.begin(), "");
    if (got != want) {
      size_t i = 0;
      while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
      h::fail("packet " + h::q(s) + ": line " + std::to_string(i) + " parsed was " + (i < got.size() ? h::q(got[i]) : "none") + ", want " + (i < want.size() ? h::q(want[i]) : "none"));
      return;
    }
    std::string errs;
    int good = 0, bad = 0;
    for (auto& l : want)
      if (l.empty() || fails(l)) { if (bad++) errs += "\n"; errs += l.empty() ? "empty" : error_of(l); } else ++good;
    if (res.has_value() != (bad > 0) || (res && *res != errs)) { h::fail("packet " + h::q(s) + ": result " + (res ? h::q(*res) : "none") + " want " + (bad ? h::q(errs) : "none")); return; }
    if (count(r, "spectatord.parsedCount") != (status ? good : 0) || count(r, "spectatord.parseErrors") != (status ? bad : 0)) {
      h::fail("packet " + h::q(s) + ": counted " + h::d2s(count(r, "spectatord.parsedCount")) + " lines and " + h::d2s(count(r, "spectatord.parseErrors")) + " errors, want " + std::to_string(good) + " and " + std::to_string(bad));
      return;
    }
  }
}
// the two protocols: c:n:1 is a line of the one, n:1|c of the other
static void whole(bool statsd, int n, unsigned badmask, bool final) {
  ++h::cases;
  std::string s, what = std::to_string(n) + (statsd ? " statsd lines" : " lines") + ", bad " + std::to_string(badmask);
  h::trying(what);
  int bad = 0;
  for (int i = 0; i < n; ++i) {
    bool b = badmask >> (i % 20) & 1;
    bad += b;
    s += b != statsd ? "n:1|c" : "c:n:1";
    if (i + 1 < n || final) s += std::string(1 + i % 3, '\n');
  }
  Registry r{config(1000, true), spectatord::Logger()};
  Server server{false, 0, 0, std::nullopt, &r};
  auto b = text_of(s);
  auto res = statsd ? server.parse_statsd(b.get()) : server.parse(b.get());
  if (res.has_value() != (bad > 0)) h::fail(what + ": error is " + (res ? h::q(*res) : "none"));
  int lines = 0;
  if (res) { lines = 1; for (char c : *res) lines += c == '\n'; }
  if (lines != bad) h::fail(what + ": " + std::to_string(lines) + " errors returned");
  if (count(r, "n") != n - bad || count(r, "spectatord.parsedCount") != n - bad || count(r, "spectatord.parseErrors") != bad) h::fail(what + ": wrong counts");
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  spectatord::Logger()->set_level(spdlog::level::off);
  for (auto& c : h::cex) packet(c);
  for (const char* s : {"", "a", "a\n", "a\nb", "a\nb\n", "a\n\nb", "a\n\n\nb\n\n", "\n", "\n\n", "\na", "\n\na", "!a", "!a\n!b", "a\n!b\nc", "!a\n\n!b\n\n\nc\n", "\n!a", " \n ", "a\r\nb\r\n", "\n\n\n!", "!\n!\n!"}) packet(s);
  for (int n : {63, 64, 65, 255, 256, 257, 400, 1000, 5000}) {
    std::string s;
    for (int i = 0; i < n; ++i) s += (i % 7 == 3 ? "!" : "x") + std::to_string(i) + (i + 1 < n || n % 2 ? "\n" : "");
    packet(s);
  }
  for (int i = 0; i < (h::thorough ? 20000 : 1500); ++i) {
    std::string s;
    int n = h::rnd(20) ? h::rnd(8) : h::rnd(400);
    for (int k = 0; k < n; ++k) {
      if (h::rnd(3) == 0) s += "!";
      int len = h::rnd(50) ? h::rnd(6) : h::rnd(3000);
      for (int j = 0; j < len; ++j) s += (char)(1 + h::rnd(255));
      s += std::string(h::rnd(4) ? 1 : h::rnd(4), '\n');
    }
    if (h::rnd(2) && !s.empty()) s.pop_back();
    packet(s);
  }
  for (bool statsd : {false, true}) for (int n : {0, 1, 2, 3, 7, 40, 300}) for (unsigned m : {0u, 1u, 2u, 0xfffffu, 0x55555u}) for (bool f : {false, true}) whole(statsd, n, m, f);
  return h::done();
}
