// C26: requests handled by the real admin handler, with stand-ins for the connection, against an oracle of what may change
#include "registry.h"
#include "admin/admin_server.h"
#include <Poco/Net/HTTPServerRequest.h>
#include <Poco/Net/HTTPServerResponse.h>
#include <Poco/Net/HTTPServerParams.h>
#include <Poco/Net/SocketAddress.h>
#include <set>
#include <sstream>
struct Res : Poco::Net::HTTPServerResponse {
  std::ostringstream out; bool done = false;
  void sendContinue() override {}
  std::ostream& send() override { done = true; return out; }
  std::pair<std::ostream*, std::ostream*> beginSend() { done = true; return {&out, &out}; }
  void sendFile(const std::string&, const std::string&) override { done = true; }
  void sendBuffer(const void* p, std::size_t n) override { done = true; out.write(static_cast<const char*>(p), n); }
  void redirect(const std::string&, HTTPStatus) override { done = true; }
  void requireAuthentication(const std::string&) override { done = true; }
  bool sent() const override { return done; }
};
struct Req : Poco::Net::HTTPServerRequest {
  std::istringstream in; Poco::Net::SocketAddress a; Res& r; Poco::Net::HTTPServerParams::Ptr p{new Poco::Net::HTTPServerParams};
  Req(const std::string& body, Res& r) : in{body}, r{r} {}
  std::istream& stream() override { return in; }
  const Poco::Net::SocketAddress& clientAddress() const override { return a; }
  const Poco::Net::SocketAddress& serverAddress() const override { return a; }
  const Poco::Net::HTTPServerParams& serverParams() const override { return *p; }
  Poco::Net::HTTPServerResponse& response() const override { return r; }
  bool secure() const override { return false; }
};
static const std::vector<std::string> ALLOWED = {"mantisJobId", "mantisJobName", "mantisUser", "mantisWorkerIndex", "mantisWorkerNumber", "mantisWorkerStageNumber"};
static const std::vector<std::string> LOCAL = {"localhost", "localhost:1234", "127.0.0.1", "127.0.0.1:80", "[::1]", "[::1]:7102"};
static const std::vector<std::string> REMOTE = {"evil.com", "localhost.evil.com", "localhost.evil.com:80", "notlocalhost", "my-localhost:80", "127.0.0.1.evil.com", "x127.0.0.1", "127.0.0.100", "1127.0.0.1", "[::1]x", "x[::1]", "[::12]", "10.0.0.1:80", "evil.com:80", "localhostx", "localhos", "local", "a.localhost.b", "-", "::", "host", "[fe80::1]:80"};
static std::string word() { std::string s; for (int i = h::rnd(8); i >= 0; --i) s += char('a' + h::rnd(26)); return s; }
struct World { std::map<std::string, std::string> tags; std::map<std::string, std::set<std::string>> meters; bool operator==(const World& o) const { return tags == o.tags && meters == o.meters; } };
template <typename T> static std::set<std::string> ids(const T& v) { std::set<std::string> r; for (auto* m : v) r.insert(text(m->MeterId())); return r; }
static World world(Registry& r) {
  World w;
  for (auto& kv : r.GetConfig().common_tags) w.tags[kv.first] = kv.second;
  w.meters = {{"A", ids(r.AgeGauges())}, {"c", ids(r.Counters())}, {"d", ids(r.DistSummaries())}, {"g", ids(r.Gauges())}, {"m", ids(r.MaxGauges())}, {"C", ids(r.MonotonicCounters())}, {"U", ids(r.MonotonicCountersUint())}, {"t", ids(r.Timers())}};
  return w;
}
static std::string show(const World& w) {
  std::string s = "tags";
  for (auto& p : w.tags) s += " " + p.first + "=" + p.second;
  for (auto& p : w.meters) { s += "; " + p.first; for (auto& m : p.second) s += " " + m; }
  return s;
}
static void one(Registry& r) {
  ++h::cases;
  for (int i = 0, n = h::rnd(4); i < n; ++i) { auto k = std::string(1, char('a' + h::rnd(4))); Tags t; if (h::rnd(2)) t.add("k", word().substr(0, 1)); switch (h::rnd(6)) { case 0: r.GetAgeGauge(Id::Of(k, std::move(t))); break; case 1: r.GetCounter(k, std::move(t))->Increment(); break; case 2: r.GetTimer(k, std::move(t)); break; default: r.GetGauge(Id::Of(k, std::move(t)))->Set(1); } }
  auto before = world(r), want = before;
  bool local = h::rnd(2), nohost = !local && h::rnd(20) == 0;
  std::string host = nohost ? "" : local ? LOCAL[h::rnd(LOCAL.size())] : REMOTE[h::rnd(REMOTE.size())], method, uri, body;
  int lo = 400, hi = 499;   // the statuses allowed
  switch (h::rnd(5)) {
    case 0: case 1: {
      method = "POST"; uri = "/config/common_tags";
      bool ok = true, object = true;
      std::map<std::string, std::string> given;
      switch (h::rnd(6)) {
        case 0: {
          static const std::vector<std::string> bad = {"", "[]", "1", "\"mantisUser\"", "null", "true", "{", "}", "{\"mantisUser\":\"x\"", "{\"mantisUser\"}", "[{\"mantisUser\":\"x\"}]", "{\"mantisUser\":\"x\"}}", "{'mantisUser':'x'}", "{mantisUser:\"x\"}", "{\"mantisUser\":x}", "{\"mantisUser\":\"x\",,}", "{\"mantisUser\" \"x\"}", "{\"mantisUser\":\"x}", "[\"mantisUser\",\"x\"]", "1e999", "{\"mantisUser\":1e999}", "nul"};
          body = bad[h::rnd(bad.size())]; object = false; break;
        }
        default: {
          int n = h::rnd(5), wrong = h::rnd(2) ? -1 : h::rnd(n + 1);
          body = "{";
          for (int i = 0; i < n; ++i) {
            std::string k = ALLOWED[h::rnd(ALLOWED.size())], v = h::rnd(3) ? word() : "";
            std::string text = "\"" + v + "\"";
            if (i == wrong) {
              if (h::rnd(2)) { static const std::vector<std::string> ks = {"mantis", "mantisJobI", "mantisJobIdx", "mantisjobid", "nf.app", "", " mantisUser", "mantisUser ", "MantisUser"}; k = ks[h::rnd(ks.size())]; ok = false; }
              else { static const std::vector<std::string> vs = {"1", "null", "true", "[]", "{}", "1.5", "[\"x\"]", "{\"a\":\"b\"}", "-1", "12345678901234567890"}; text = vs[h::rnd(vs.size())]; ok = false; }
            }
            if (given.count(k)) { if (i == wrong) ok = true; continue; }
            given[k] = v;
            body += (body.size() > 1 ? ", \"" : "\"") + k + "\":" + text;
          }
          body += "}";
        }
      }
      if (local && ok && object) { lo = hi = 200; for (auto& p : given) if (p.second.empty()) want.tags.erase(p.first); else want.tags[p.first] = p.second; }
      break;
    }
    case 2: case 3: {
      method = "DELETE";
      std::string k = h::rnd(2) ? "A" : "g";
      uri = "/metrics/" + k;
      if (h::rnd(12) == 0) { if (local) { lo = hi = 200; want.meters[k].clear(); } }
      else if (h::rnd(15) == 0) uri += "/";
      else {
        std::string name(1, char('a' + h::rnd(5))), id = name;
        uri += "/" + name;
        if (h::rnd(2)) { auto v = word().substr(0, 1); uri += ",k=" + v; id += "|k=" + v; }
        if (local && want.meters[k].erase(id)) lo = hi = 200;
      }
      break;
    }
    default: {
      static const std::vector<std::string> ms = {"GET", "PUT", "DELETE", "POST", "HEAD", "get", "delete", "PATCH"};
      static const std::vector<std::string> us = {"/", "/config", "/config/common_tags", "/metrics", "/metrics/c", "/metrics/c/a", "/metrics/G", "/x/metrics/g", "/config/common_tags/", "/metrics/g", "/metrics/A/a", "/metrics/"};
      method = ms[h::rnd(ms.size())]; uri = us[h::rnd(us.size())];
      if ((method == "POST" && uri == "/config/common_tags") || (method == "DELETE" && (uri.rfind("/metrics/g", 0) == 0 || uri.rfind("/metrics/A", 0) == 0))) { uri = "/nothing"; }
      body = "{\"mantisUser\":\"nobody\"}";
      if (method == "GET" && (uri == "/" || uri == "/config" || uri == "/config/common_tags" || uri == "/metrics")) { lo = hi = 200; if (nohost) { lo = 0; hi = 999; } }
    }
  }
  std::string what = method + " " + h::q(uri) + " host " + (nohost ? "(none)" : h::q(host)) + " body " + h::q(body);
  h::trying(what);
  Res res; Req req{body, res};
  req.setMethod(method); req.setURI(uri);
  if (!nohost) req.setHost(host);
  int status;
  try {
    admin::RequestHandler{r}.handleRequest(req, res);
    status = res.getStatus();
    if (!res.done) h::fail(what + ": no answer is sent");
  } catch (Poco::Exception& e) { status = 500; }   // what Poco's connection makes of it
  auto after = world(r);
  if (!(after == want)) h::fail(what + ": now " + show(after) + ", want " + show(want) + ", before " + show(before));
  if (status < lo || status > hi) h::fail(what + ": status " + std::to_string(status));
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  spectatord::Logger()->set_level(spdlog::level::off);
  for (int k = 0, n = h::thorough ? 300 : 60; k < n; ++k) {
    auto c = config();
    for (int j = 0, t = h::rnd(6); j < t; ++j) c->common_tags[h::rnd(2) ? ALLOWED[h::rnd(ALLOWED.size())] : word()] = word();
    Registry r{std::move(c), spectatord::Logger()};
    for (int i = 0; i < 150; ++i) one(r);
  }
  return h::done();
}
