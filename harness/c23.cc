// C23: what becomes of a batch for every answer of the aggregator
#include "registry.h"
static std::string num(int64_t v) { return std::to_string(v); }
struct Made { std::string text; bool clear; size_t errors; };
static const std::vector<std::string> KINDS = {"null", "true", "false", "\"\"", "\"3\"", "\"text \\u0041\\n\"", "[]", "[1,2]", "{}", "{\"errorCount\":1}", "2.5", "2.0", "1e0", "-3", "-1", "-2147483649",
                                               "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e300", "-9223372036854775808", "4294967295", "4294967296", "2147483648", "[[\"a\"]]"};
static std::string deep(size_t n, bool closed) { return std::string(n, '[') + (closed ? std::string(n, ']') : ""); }
static std::string any(int depth = 0) {
  switch (h::rnd(depth > 2 ? 2 : 5)) {
    case 0: return KINDS[h::rnd(KINDS.size())];
    case 1: return num(int64_t(h::rnd(1000)) - 100);
    case 2: { std::string s = "["; for (int i = 0, n = h::rnd(5); i < n; ++i) s += (i ? "," : "") + any(depth + 1); return s + "]"; }
    case 3: { std::string s = "{"; for (int i = 0, n = h::rnd(4); i < n; ++i) s += (i ? ",\"m" : "\"m") + num(i) + "\":" + any(depth + 1); return s + "}"; }
    default: return "\"" + std::string(h::rnd(30), 'x') + "\"";
  }
}
static Made make(size_t n) {
  switch (h::rnd(8)) {
    case 0: { static const std::vector<std::string> bad = {"", " ", "{", "}", "nul", "[1,", "{\"errorCount\":}", "{\"errorCount\":1", "{errorCount:1}", "\"", "{\"errorCount\":1}x", "<html>", "{\"errorCount\" 1}", "\xff\xfe", "[\"\\ud800\"]"};
      return {bad[h::rnd(bad.size())], false, 0}; }
    case 1: { auto s = any(); return {s == KINDS[9] ? "{}" : s, false, 0}; }
    case 2: return {std::string("{\"errorcount\":1,\"message\":[\"a\"]}"), false, 0};
    case 3: return {std::string("{\"errorCount\":") + KINDS[h::rnd(16)] + ",\"message\":" + any() + "}", false, 0};
    case 4: { static const std::vector<std::string> big = {"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e300", "-9223372036854775808"};
      return {"{\"errorCount\":" + (h::rnd(2) ? big[h::rnd(big.size())] : num(int64_t(n + 1 + h::rnd(3)))) + "}", false, 0}; }
    case 5: { auto r = "{\"message\":" + any() + ",\"errorCount\":-" + num(1 + h::rnd(1000)) + "}"; return {r, false, 0}; }
    default: {
      size_t e = h::rnd(3) ? h::rnd(n + 1) : h::rnd(2) * n;
      std::string msg;
      switch (h::rnd(5)) {
        case 0: break;
        case 1: msg = any(); break;
        default: { msg = "["; for (int i = 0, k = h::rnd(6); i < k; ++i) msg += std::string(i ? "," : "") + (h::rnd(4) ? "\"bad metric " + num(h::rnd(3)) + "\"" : any()); msg += "]"; }
      }
      std::string a = "\"errorCount\":" + num(e), b = msg.empty() ? "" : "\"message\":" + msg, t = "\"type\":\"partial\"";
      std::string s = "{" + (h::rnd(2) ? t + "," : "") + (b.empty() ? a : h::rnd(2) ? a + "," + b : b + " , " + a) + "}";
      return {s, true, e};
    }
  }
}
static void one(Registry& r, bool enabled, int status, const Made& m, size_t n) {
  ++h::cases;
  std::string what = "status " + num(status) + ", batch of " + num(n) + ", answer " + h::q(m.text);
  h::trying(what);
  auto ctr = [&](const char* id, const char* err) { Tags t{{"id", id}, {"owner", "spectatord"}}; if (*err) t.add("error", err); return r.GetCounter("spectator.measurements", t)->Count(); };
  double before[3] = {ctr("dropped", "validation"), ctr("dropped", "http-error"), ctr("dropped", "other")};
  HttpResponse resp{status, m.text, {}};
  tsl::hopscotch_set<std::string> msgs;
  auto got = r.publisher_.handle_aggr_response(resp, n, &msgs);
  double after[3] = {ctr("dropped", "validation"), ctr("dropped", "http-error"), ctr("dropped", "other")};
  size_t err; int cause = -1;
  if (status == 200) err = 0;
  else if (status > 200 && status < 500) { err = m.clear ? m.errors : n; cause = m.clear ? 0 : 2; }
  else { err = n; cause = status == -1 ? 2 : 1; }
  if (got.first != n - err || got.second != err) { h::fail(what + ": sent " + num(got.first) + " and dropped " + num(got.second) + ", want " + num(n - err) + " and " + num(err)); return; }
  if (enabled) for (int i = 0; i < 3; ++i) if (after[i] - before[i] != (i == cause ? double(err) : 0)) h::fail(what + ": counter " + (i == 0 ? "validation" : i == 1 ? "http-error" : "other") + " grew by " + h::d2s(after[i] - before[i]) + ", want " + h::d2s(i == cause ? err : 0));
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  spectatord::Logger()->set_level(spdlog::level::off);
  for (int enabled = 0; enabled < 2; ++enabled) {
    Registry r{config(1000, enabled), spectatord::Logger()};
    for (int i = 0, n = h::thorough ? 200000 : 20000; i < n && !h::fails; ++i) {
      static const int st[] = {200, 201, 202, 204, 206, 301, 400, 401, 403, 404, 413, 429, 499, 500, 502, 503, 599, 600, 100, 0, -1, 199};
      size_t batch = h::rnd(3) ? h::rnd(10000) : h::rnd(4);
      auto m = make(batch);
      one(r, enabled, h::rnd(3) ? 400 + int(h::rnd(2)) * -198 : st[h::rnd(sizeof st / sizeof *st)], m, batch);
    }
    for (auto& k : KINDS) for (int s : {201, 400}) one(r, enabled, s, {k, k == "{\"errorCount\":1}", 1}, 3);
    for (size_t d : {1000, 300000, 3000000}) {
      one(r, enabled, 400, {deep(d, true), false, 0}, 5);
      one(r, enabled, 400, {deep(d, false), false, 0}, 5);
      one(r, enabled, 400, {"{\"errorCount\":2,\"message\":" + deep(d, true) + "}", true, 2}, 5);
    }
  }
  return h::done();
}
