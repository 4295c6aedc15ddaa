// C24: attempts of HTTP requests; libcurl, the clock and sleeping are stand-ins that record every request and play a script
#include "registry.h"
#include "clock.h"
#include "spectator/http_client.h"
#include "spectator/gzip.h"
#include <curl/curl.h>
#include "absl/time/time.h"
#include <cstdarg>
#include <ctime>
#undef curl_easy_setopt
#undef curl_easy_getinfo
namespace absl { ABSL_NAMESPACE_BEGIN
Time Now() { return FromUnixNanos(GetCurrentTimeNanos()); }
ABSL_NAMESPACE_END }
struct Handle {
  std::string url, method = "GET", body; bool post = false; std::vector<std::string> headers; const void* fields = nullptr; long size = -1, code = 0;
  curl_slist* list = nullptr; size_t (*write)(char*, size_t, size_t, void*) = nullptr; void* data = nullptr; size_t (*hwrite)(char*, size_t, size_t, void*) = nullptr; void* hdata = nullptr;
};
struct Step { CURLcode res; long code; int64_t took; std::string answer; };
struct Request { std::string url, method, body; std::vector<std::string> headers; };
static std::vector<Step> script; static size_t at = 0; static std::vector<Request> made; static int handles = 0, lists = 0;
extern "C" {
CURL* curl_easy_init() { ++handles; return new Handle; }
void curl_easy_cleanup(CURL* c) { if (c) { --handles; delete static_cast<Handle*>(c); } }
curl_slist* curl_slist_append(curl_slist* l, const char* s) {
  auto* n = new curl_slist{strdup(s), nullptr}; ++lists;
  if (!l) return n;
  auto* p = l; while (p->next) p = p->next; p->next = n; return l;
}
void curl_slist_free_all(curl_slist* l) { while (l) { auto* n = l->next; free(l->data); delete l; --lists; l = n; } }
const char* curl_easy_strerror(CURLcode) { return "made up"; }
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup() {}
CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...) {
  auto* h = static_cast<Handle*>(c);
  va_list a; va_start(a, o);
  switch (o) {
    case CURLOPT_URL: h->url = va_arg(a, const char*); break;
    case CURLOPT_CUSTOMREQUEST: { auto* m = va_arg(a, const char*); h->method = m ? m : "GET"; } break;
    case CURLOPT_POST: h->post = va_arg(a, long) != 0; break;
    case CURLOPT_POSTFIELDS: h->fields = va_arg(a, const void*); h->post = true; break;
    case CURLOPT_POSTFIELDSIZE: h->size = va_arg(a, long); break;
    case CURLOPT_HTTPHEADER: h->list = va_arg(a, curl_slist*); break;
    case CURLOPT_WRITEFUNCTION: h->write = va_arg(a, decltype(h->write)); break;
    case CURLOPT_WRITEDATA: h->data = va_arg(a, void*); break;
    case CURLOPT_HEADERFUNCTION: h->hwrite = va_arg(a, decltype(h->hwrite)); break;
    case CURLOPT_HEADERDATA: h->hdata = va_arg(a, void*); break;
    default: break;
  }
  va_end(a);
  return CURLE_OK;
}
CURLcode curl_easy_perform(CURL* c) {
  auto* h = static_cast<Handle*>(c);
  Request r{h->url, h->post ? "POST" : h->method, "", {}};
  if (h->fields) r.body.assign(static_cast<const char*>(h->fields), h->size < 0 ? strlen(static_cast<const char*>(h->fields)) : h->size);
  for (auto* l = h->list; l; l = l->next) r.headers.push_back(l->data);
  made.push_back(r);
  if (at >= script.size()) { h->code = 200; ++at; return CURLE_OK; }
  auto& s = script[at++];
  h::now += s.took;
  if (s.res != CURLE_OK) return s.res;
  h->code = s.code;
  for (size_t i = 0; i < s.answer.size();) { size_t n = std::min<size_t>(1 + h::rnd(40), s.answer.size() - i); std::string part = s.answer.substr(i, n); if (h->write) h->write(part.data(), 1, n, h->data); i += n; }
  if (h->hwrite) for (std::string l : {"HTTP/1.1 200 OK\r\n", "X-A: b\r\n", "Y:\r\n", ":\r\n", "Z: \r\n", "\r\n"}) h->hwrite(l.data(), 1, l.size(), h->hdata);
  return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL* c, CURLINFO i, ...) {
  va_list a; va_start(a, i);
  if (i == CURLINFO_RESPONSE_CODE) *va_arg(a, long*) = static_cast<Handle*>(c)->code;
  va_end(a);
  return CURLE_OK;
}
int nanosleep(const timespec* t, timespec*) { if (h::clock_on) h::now += t->tv_sec * 1000000000LL + t->tv_nsec; return 0; }
int clock_nanosleep(clockid_t, int, const timespec* t, timespec*) { if (h::clock_on) h::now += t->tv_sec * 1000000000LL + t->tv_nsec; return 0; }
}
static const std::vector<long> CODES = {200, 201, 204, 206, 299, 301, 304, 400, 404, 408, 418, 422, 428, 429, 430, 499, 500, 501, 502, 503, 504, 599, 600, 0, 100, 199, 999};
static const std::vector<CURLcode> ERRS = {CURLE_COULDNT_CONNECT, CURLE_OPERATION_TIMEDOUT, CURLE_COULDNT_RESOLVE_HOST, CURLE_GOT_NOTHING, CURLE_RECV_ERROR, CURLE_SEND_ERROR, CURLE_SSL_CONNECT_ERROR, CURLE_PEER_FAILED_VERIFICATION, CURLE_WRITE_ERROR};
static std::string word(size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += char(h::rnd(6) ? 'a' + h::rnd(26) : h::rnd(256)); return s; }
static void one(Registry& r) {
  ++h::cases;
  int64_t conn = (1 + h::rnd(5)) * 100000000LL, read = h::rnd(5) * 300000000LL, total = conn + read;
  HttpClientConfig cfg{absl::Nanoseconds(conn), absl::Nanoseconds(read), bool(h::rnd(2)), bool(h::rnd(2)), bool(h::rnd(2)), false, bool(h::rnd(2)), false, {}};
  script.clear(); made.clear(); at = 0;
  std::string log;
  for (int i = 0; i < 6; ++i) {
    Step s{CURLE_OK, 200, 0, word(h::rnd(100))};
    if (h::rnd(2)) s.res = ERRS[h::rnd(ERRS.size())];
    else s.code = h::rnd(3) ? CODES[h::rnd(CODES.size())] : h::rnd(2) ? 429 : 500 + h::rnd(100);
    switch (h::rnd(4)) { case 0: s.took = total - 1; break; case 1: s.took = total; break; case 2: s.took = h::rnd(total); break; default: s.took = h::rnd(2) * 2 * total; }
    script.push_back(s);
    log += (s.res ? "failure " + std::to_string(s.res) : "status " + std::to_string(s.code)) + " after " + std::to_string(s.took) + " ns, ";
  }
  HttpClient c{&r, cfg};
  std::string url = "http://host" + std::to_string(h::rnd(10)) + "/path", body = word(h::rnd(500) == 0 ? 60000 + h::rnd(100000) : h::rnd(3) ? h::rnd(200) : h::rnd(2)), type = "Content-Type: x" + std::to_string(h::rnd(9));
  std::string method; std::vector<std::string> headers, extra; HttpResponse got; bool gz = false;
  for (int i = 0, n = h::rnd(4); i < n; ++i) extra.push_back("H" + std::to_string(i) + ": " + std::to_string(h::rnd(100)));
  int kind = h::rnd(5);
  std::string what = "timeout " + std::to_string(total) + " ns, request " + std::to_string(kind) + ", script: " + log;
  h::trying(what);
  switch (kind) {
    case 0: method = "POST"; headers = {type, "Content-Encoding: gzip"}; got = c.Post(url, type.c_str(), CompressedResult{reinterpret_cast<const uint8_t*>(body.data()), body.size()}); break;
    case 1: method = "POST"; headers = {type}; if (cfg.compress) { headers.push_back("Content-Encoding: gzip"); gz = true; } got = c.Post(url, type.c_str(), body.data(), body.size()); break;
    case 2: method = "GET"; got = c.Get(url); break;
    case 3: method = "GET"; headers = extra; got = c.Get(url, extra); break;
    default: method = "PUT"; headers = extra; got = c.Put(url, extra);
  }
  // the oracle
  size_t n = 0; int status = -1; std::string answer;
  for (;;) {
    auto& s = script[n++];
    bool again;
    if (s.res != CURLE_OK) { status = -1; answer.clear(); again = s.took < total; }
    else { status = int(s.code); answer = cfg.read_body ? s.answer : ""; again = status == 429 || (status >= 500 && status <= 599); }
    if (!again || n == 3) break;
  }
  if (made.size() != n) { h::fail(what + std::to_string(made.size()) + " requests made, want " + std::to_string(n)); return; }
  for (size_t i = 0; i < n; ++i) {
    auto& m = made[i];
    std::string w = what + "attempt " + std::to_string(i + 1) + ": ";
    if (m.url != url) h::fail(w + "URL " + h::q(m.url) + ", want " + h::q(url));
    if (m.method != method) h::fail(w + "method " + m.method + ", want " + method);
    if (m.headers != headers) h::fail(w + "other headers");
    if (gz) {
      std::vector<char> out(body.size() + 100); size_t size = out.size();
      if (gzip_uncompress(out.data(), &size, m.body.data(), m.body.size()) != 0 || std::string(out.data(), size) != body) h::fail(w + "the compressed body is not that of the request");
    } else if (m.body != (method == "POST" ? body : "")) h::fail(w + "body of " + std::to_string(m.body.size()) + " bytes " + h::q(m.body.substr(0, 200)) + ", want " + std::to_string(body.size()) + " bytes " + h::q(body.substr(0, 200)));
  }
  if (got.status != status) h::fail(what + "status " + std::to_string(got.status) + ", want " + std::to_string(status));
  if (status != -1 && got.raw_body != answer) h::fail(what + "body " + h::q(got.raw_body) + ", want " + h::q(answer));
  if (handles != 0 || lists != 0) { h::fail(what + "handles or headers are leaked"); handles = lists = 0; }
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  spectatord::Logger()->set_level(spdlog::level::off);
  Registry r{config(1000, true), spectatord::Logger()};
  for (int i = 0, n = h::thorough ? 200000 : 20000; i < n; ++i) one(r);
  return h::done();
}
