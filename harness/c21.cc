// C21: rounds of publishing; libcurl is a stand-in that keeps the payloads, from as many threads as it is called from
#include "registry.h"
#include "smile.h"
#include <curl/curl.h>
#include <cstdarg>
#include <mutex>
#include <thread>
#undef curl_easy_setopt
#undef curl_easy_getinfo
struct Handle { std::string url; const void* fields = nullptr; long size = -1, code = 0; bool post = false; };
struct Sent { std::string url, body; };
static std::mutex mu; static std::vector<Sent> sent; static bool round_on = false, late = false; static std::atomic<unsigned> seq{0};
extern "C" {
CURL* curl_easy_init() { return new Handle; }
void curl_easy_cleanup(CURL* c) { delete static_cast<Handle*>(c); }
curl_slist* curl_slist_append(curl_slist* l, const char* s) { auto* n = new curl_slist{strdup(s), l}; return n; }
void curl_slist_free_all(curl_slist* l) { while (l) { auto* n = l->next; free(l->data); delete l; l = n; } }
const char* curl_easy_strerror(CURLcode) { return "made up"; }
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup() {}
CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...) {
  auto* h = static_cast<Handle*>(c);
  va_list a; va_start(a, o);
  switch (o) {
    case CURLOPT_URL: h->url = va_arg(a, const char*); break;
    case CURLOPT_POST: h->post = va_arg(a, long) != 0; break;
    case CURLOPT_POSTFIELDS: h->fields = va_arg(a, const void*); h->post = true; break;
    case CURLOPT_POSTFIELDSIZE: h->size = va_arg(a, long); break;
    default: break;
  }
  va_end(a);
  return CURLE_OK;
}
CURLcode curl_easy_perform(CURL* c) {
  auto* h = static_cast<Handle*>(c);
  unsigned k = seq++;
  if (k % 5 == 3) std::this_thread::sleep_for(std::chrono::microseconds(k * 7919 % 500));
  else if (k % 5 == 1) std::this_thread::yield();
  Sent s{h->url, ""};
  if (h->fields && h->post) s.body.assign(static_cast<const char*>(h->fields), h->size);
  { std::lock_guard<std::mutex> l(mu); sent.push_back(std::move(s)); if (!round_on) late = true; }
  static const long codes[] = {200, 200, 200, 202, 400, 301, 0};
  h->code = codes[k * 31 % 7];
  return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL* c, CURLINFO i, ...) {
  va_list a; va_start(a, i);
  if (i == CURLINFO_RESPONSE_CODE) *va_arg(a, long*) = static_cast<Handle*>(c)->code;
  va_end(a);
  return CURLE_OK;
}
}
struct Switch : Config { bool on = true; int asked = 0; auto is_enabled() const -> bool override { return on; } };
using Bag = std::multiset<std::string>;
static bool read(const std::string& body, Bag* out, std::string* err) {
  bool ok; std::vector<Val> v;
  auto b = inflate_all(reinterpret_cast<const uint8_t*>(body.data()), body.size(), &ok);
  if (!ok) { *err = "not compressed"; return false; }
  if (!decode(b, &v, err)) return false;
  size_t i = 0; bool bad = false;
  auto num = [&]() -> uint64_t { if (i >= v.size() || v[i].k != 0) { bad = true; return 0; } return v[i++].n; };
  std::vector<std::string> strings;
  for (size_t n = num(); !bad && n > 0; --n) { if (i >= v.size() || v[i].k != 2) { bad = true; break; } strings.push_back(v[i++].s); }
  while (!bad && i < v.size()) {
    std::map<std::string, std::string> t;
    for (size_t n = num(); !bad && n > 0; --n) { auto a = num(), c = num(); if (a >= strings.size() || c >= strings.size()) { bad = true; break; } t[strings[a]] = strings[c]; }
    num();
    if (bad || i >= v.size() || v[i].k != 1) { bad = true; break; }
    std::string s = t["name"]; t.erase("name");
    for (auto& p : t) s += "|" + p.first + "=" + p.second;
    out->insert(s + " = " + h::d2s(v[i++].d));
  }
  if (bad) *err = "an index or a value is wrong";
  return !bad;
}
static void registry(size_t meters) {
  auto c = std::make_unique<Switch>();
  auto* sw = c.get();
  c->age_gauge_limit = 10; c->status_metrics_enabled = h::rnd(2); c->meter_ttl = absl::Minutes(15); c->uri = "http://aggregator/" + std::to_string(h::rnd(100));
  Registry r{std::move(c), spectatord::Logger()};
  auto line = [](const std::string& id, double v) { return id + " = " + h::d2s(v); };
  Bag gauges;
  for (size_t i = 0; i < meters; ++i) {
    std::string n = "m" + std::to_string(i), v = "v" + std::to_string(i % 7);
    r.GetGauge(n, Tags{{"k", v}})->Set(double(i) + 0.5);
    gauges.insert(line(n + "|k=" + v + "|statistic=gauge", double(i) + 0.5));
  }
  for (int k = 0; k < 8; ++k) {
    ++h::cases;
    sw->on = h::rnd(8) != 0;
    Bag want = gauges;
    size_t left = r.Measurements().size();   // the counters are empty now, the gauges keep their values
    for (size_t i = 0; i < meters; ++i) {
      auto n = std::to_string(i);
      if (h::rnd(4) == 0) { r.GetCounter("c" + n)->Add(1 + double(i)); want.insert(line("c" + n + "|statistic=count", 1 + double(i))); ++left; }
      if (h::rnd(4) == 0) { r.GetMaxGauge("x" + n)->Set(double(i)); want.insert(line("x" + n + "|statistic=max", double(i))); ++left; }
    }
    size_t bs;
    switch (h::rnd(6)) {
      case 0: bs = 1 + h::rnd(3); break;
      case 1: bs = std::max<size_t>(1, left); break;
      case 2: bs = left + 1 + h::rnd(3); break;
      case 3: bs = std::max<size_t>(1, left / (1 + h::rnd(5))); break;
      case 4: bs = std::max<size_t>(2, left) - 1; break;
      default: bs = 1 + h::rnd(left + 10);
    }
    if (left / bs > 600) bs = left / 600 + 1;
    sw->batch_size = int(bs);
    std::string what = "about " + std::to_string(left) + " measurements, batches of " + std::to_string(bs) + (sw->on ? "" : ", disabled");
    h::trying(what);
    { std::lock_guard<std::mutex> l(mu); sent.clear(); round_on = true; }
    r.publisher_.send_metrics();
    std::vector<Sent> got;
    { std::lock_guard<std::mutex> l(mu); round_on = false; got = sent; }
    if (!sw->on) { if (!got.empty()) h::fail(what + ": " + std::to_string(got.size()) + " payloads posted"); continue; }
    Bag all;
    bool bad = false;
    for (auto& g : got) {
      Bag b; std::string err;
      if (g.url != sw->uri) { h::fail(what + ": posted to " + h::q(g.url)); bad = true; break; }
      if (!read(g.body, &b, &err)) { h::fail(what + ": no payload: " + err); bad = true; break; }
      if (b.empty() || b.size() > bs) { h::fail(what + ": a batch of " + std::to_string(b.size())); bad = true; break; }
      for (auto& x : b) if (x.compare(0, 10, "spectator.") != 0) all.insert(x);
    }
    if (bad) continue;
    if (all != want) {
      std::string d;
      for (auto& s : want) if (all.count(s) < want.count(s)) { d = s + " posted " + std::to_string(all.count(s)) + " times"; break; }
      if (d.empty()) for (auto& s : all) if (all.count(s) > want.count(s)) { d = s + " posted " + std::to_string(all.count(s)) + " times, want " + std::to_string(want.count(s)); break; }
      h::fail(what + ": " + std::to_string(all.size()) + " posted: " + d);
    }
  }
  std::this_thread::sleep_for(std::chrono::milliseconds(2));
  if (late) { h::fail("a payload was posted after the round had ended"); late = false; }
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  spectatord::Logger()->set_level(spdlog::level::off);
  for (size_t n : {0, 1, 2, 3, 10, 99, 100, 101, 1000, 3000}) registry(n);
  for (int i = 0, n = h::thorough ? 300 : 30; i < n; ++i) registry(h::rnd(h::rnd(4) ? 200 : 1500));
  return h::done();
}
