#include "h.h"
#include "server/proc_utils.h"
#include "util/logger.h"
#include <dirent.h>
#include <memory>
#include <optional>
#include <unistd.h>
static std::string scratch;
static std::vector<std::unique_ptr<std::string>> names;  // distinct, live pointers: the code remembers values by pointer
static const char* file(const std::string* content) {
  static int n = 0;
  names.emplace_back(new std::string(scratch + "/f" + std::to_string(n++)));
  const char* p = names.back()->c_str();
  if (content) { FILE* f = fopen(p, "w"); fwrite(content->data(), 1, content->size(), f); fclose(f); }
  return p;
}
static bool blank(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int number(const std::string& whole) {
  std::string s = whole.substr(0, whole.find('\0'));
  size_t b = 0, e = s.size();
  while (b < e && blank(s[b])) ++b;
  while (e > b && blank(s[e - 1])) --e;
  bool neg = false;
  const int dflt = 16 * 1024 * 1024;
  if (b < e && (s[b] == '-' || s[b] == '+')) { neg = s[b] == '-'; ++b; }
  if (b == e) return dflt;
  __int128 v = 0;
  for (; b < e; ++b) { if (s[b] < '0' || s[b] > '9') return dflt; v = v * 10 + (s[b] - '0'); if (v > ((__int128)1 << 40)) return dflt; }
  if (neg) v = -v;
  if (v > INT32_MAX || v < INT32_MIN) return dflt;
  return (int)v;
}
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
static void one(const std::string* s) {
  ++h::cases;
  const char* p = file(s);
  std::string d = s ? h::q(*s) : "a missing file";
  h::trying("max_buffer_size of " + d);
  int want = s ? number(*s) : 16 * 1024 * 1024;
  for (int k = 0; k < 2; ++k) { int got = spectatord::max_buffer_size(p); if (got != want) h::fail("max_buffer_size of " + d + ": got " + std::to_string(got) + ", want " + std::to_string(want)); }
  if (s) unlink(p);
}
static std::vector<std::string> split(const std::string& l) {
  std::vector<std::string> r;
  std::string c;
  for (char x : l) if (x == ' ' || x == ':' || x == '\n') { if (!c.empty()) r.push_back(c); c.clear(); } else c += x;
  if (!c.empty()) r.push_back(c);
  return r;
}
static void table(const std::string* s, int port) {
  ++h::cases;
  const char* p = file(s);
  std::optional<std::pair<int64_t, int64_t>> want;
  if (s) {
    size_t pos = 0;
    for (int n = 0; pos < s->size(); ++n) {
      size_t e = s->find('\n', pos);
      std::string l = s->substr(pos, e == std::string::npos ? e : e - pos);
      pos = e == std::string::npos ? s->size() : e + 1;
      if (n == 0) continue;
      auto f = split(l);
      if (f.size() < 17 || strtol(f[2].c_str(), nullptr, 16) != port) continue;
      want = {(int64_t)strtoull(f[7].c_str(), nullptr, 16), (int64_t)strtoull(f[16].c_str(), nullptr, 10)};
      break;
    }
  }
  std::string d = "udp_info(" + std::to_string(port) + ") of " + (s ? h::q(*s) : "a missing file");
  h::trying(d);
  auto got = spectatord::udp_info(port, p);
  if (got.has_value() != want.has_value()) h::fail(d + (want ? ": no result" : ": a result though no line has the port"));
  else if (got && (got->rx_queue_bytes != want->first || got->num_dropped != want->second)) h::fail(d + ": got " + std::to_string(got->rx_queue_bytes) + " and " + std::to_string(got->num_dropped) + ", want " + std::to_string(want->first) + " and " + std::to_string(want->second));
  if (s) unlink(p);
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  spectatord::Logger()->set_level(spdlog::level::off);
  char dir[] = "/tmp/vc.c13.XXXXXX";
  if (!mkdtemp(dir)) return 2;
  scratch = dir;
  one(nullptr);
  table(nullptr, 53);
  int before = fds();
  for (const char* s : {"", "0", "1", "212992\n", "16777216", "4194304\n\n", "  42  ", "-1", "+7", "abc", "12abc", "0x10", "2147483647", "2147483648", "-2147483648", "99999999999999999999", "\n", "-", "1 2", "1.5"}) { std::string x = s; one(&x); }
  { std::string x("123\0 456", 8); one(&x); x = std::string("\0 12", 4); one(&x); }
  // (the number of a longer file is only defined when it ends within what any reader would take)
  for (size_t n : {100, 1000, 2048, 4000, 4090, 4094, 4095, 4096, 4097, 8192, 10000}) {
    std::string x = "77"; x.resize(n, ' '); one(&x);
    x = "77"; x.resize(n, 'x'); one(&x);
    x = "77"; x.resize(n, '\0'); one(&x);
    x = std::string(n, '9'); one(&x);
    x = std::string(n, '\n'); one(&x);
  }
  for (int i = 0; i < (h::thorough ? 4000 : 400); ++i) {
    std::string x;
    int n = h::rnd(14);
    for (int k = 0; k < n; ++k) x += h::rnd(4) ? char('0' + h::rnd(10)) : " \n\t+-a\0x"[h::rnd(8)];
    one(&x);
  }
  const std::string head = "  sl  local_address rem_address   st tx_queue rx_queue tr tm->when retrnsmt   uid  timeout inode ref pointer drops             \n";
  auto line = [](int port) {
    char b[400];
    unsigned addr = h::rnd(3) ? 0 : h::rnd(1u << 31);
    snprintf(b, sizeof b, "%5d: %08X:%04X %08X:%04X %02X %08X:%08X %02X:%08X %08X %5u %8d %u %d %016llx %llu", (int)h::rnd(100000), addr, port, 0u, (int)h::rnd(65536), 7, (unsigned)h::rnd(1u << 20), (unsigned)(h::rnd(2) ? 0 : rand()),
             0, 0u, 0u, (unsigned)h::rnd(2000), 0, (unsigned)h::rnd(1u << 31), 2, (unsigned long long)h::rng(), (unsigned long long)(h::rnd(2) ? h::rnd(3) : h::rng() >> (1 + h::rnd(60))));
    return std::string(b);
  };
  for (int i = 0; i < (h::thorough ? 6000 : 600); ++i) {
    std::string x = h::rnd(20) ? head : h::rnd(2) ? "" : line(4660) + "\n";
    int n = h::rnd(5) ? h::rnd(6) : h::rnd(40);
    for (int k = 0; k < n; ++k) {
      static const int ports[] = {53, 68, 1234, 4660, 65535, 0, 9, 21};
      std::string l = line(ports[h::rnd(8)]);
      switch (h::rnd(12)) {
        case 0: l = l.substr(0, h::rnd(l.size())); break;
        case 1: l = ""; break;
        case 2: l += std::string(h::rnd(300), ' '); break;
        case 3: l = std::string(h::rnd(500), 'x'); break;
        case 4: l += " extra fields"; break;
        case 5: l = std::string(3000 + h::rnd(900), ' ') + l.substr(0, 100); break;
        case 6: l = l + std::string(3500, ' '); break;
      }
      x += l;
      if (k + 1 < n || h::rnd(4)) x += "\n";
    }
    static const int ask[] = {53, 68, 1234, 4660, 65535, 0, 9, 21, 7, 4};
    for (int k = 0; k < 3; ++k) table(&x, ask[h::rnd(10)]);
  }
  ++h::cases;
  if (fds() != before) h::fail("files are left open");
  rmdir(dir);
  return h::done();
}
