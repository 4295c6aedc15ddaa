#include "h.h"
#include "spectator/compressed_buffer.h"
#include <memory>
#include <zlib.h>
using namespace spectator;
static std::string inflate_all(const uint8_t* p, size_t n, std::string* err) {
  std::string out(1 << 16, '\0'), r;
  z_stream z{};
  if (inflateInit2(&z, 31) != Z_OK) { *err = "init"; return ""; }
  z.next_in = const_cast<Bytef*>(p); z.avail_in = n;
  int e;
  do {
    z.next_out = (Bytef*)out.data(); z.avail_out = out.size();
    e = inflate(&z, Z_NO_FLUSH);
    r.append(out.data(), out.size() - z.avail_out);
  } while (e == Z_OK && (z.avail_in > 0 || z.avail_out == 0));
  if (e != Z_STREAM_END) *err = "not one complete gzip stream";
  else if (z.avail_in) *err = "bytes after the end of the gzip stream";
  inflateEnd(&z);
  return r;
}
static std::string bytes(size_t n, int kind) {
  std::string s(n, 'x');
  if (kind == 0) for (auto& c : s) c = char(h::rng());
  else if (kind == 1) for (size_t i = 0; i < n; ++i) s[i] = "spectator.metric-name_42"[h::rnd(24)];
  return s;
}
static void run(size_t cin, size_t osz, size_t cout, int rounds, int ops, size_t maxs) {
  std::string what = "chunk_in=" + std::to_string(cin) + " out=" + std::to_string(osz) + " chunk_out=" + std::to_string(cout);
  h::trying(what);
  CompressedBuffer b(cin, osz, cout);
  for (int r = 0; r < rounds; ++r) {
    b.Init();
    std::string want;
    std::string trace;
    int n = r == 1 ? 0 : 1 + h::rnd(ops);
    for (int i = 0; i < n; ++i) {
      int k = h::rnd(9);
      uint8_t v[6];
      for (auto& x : v) x = h::rng();
      auto add = [&](int m) { want.append((char*)v, m); trace += " " + std::to_string(m); };
      switch (k) {
        case 1: b.Append(v[0]); add(1); break;
        case 2: b.Append(v[0], v[1]); add(2); break;
        case 3: b.Append(v[0], v[1], v[2]); add(3); break;
        case 4: b.Append(v[0], v[1], v[2], v[3]); add(4); break;
        case 5: b.Append(v[0], v[1], v[2], v[3], v[4]); add(5); break;
        case 6: b.Append(v[0], v[1], v[2], v[3], v[4], v[5]); add(6); break;
        default: {
          size_t len = h::rnd(4) ? h::rnd(h::rnd(2) ? 40 : maxs) : 0;
          std::string s = bytes(len, h::rnd(3));
          b.Append(std::string_view(s)); want += s; trace += " s" + std::to_string(len);
        }
      }
    }
    auto res = b.Result();
    std::string got0(reinterpret_cast<const char*>(res.data), res.size), err;
    auto again = b.Result();
    ++h::cases;
    std::string got = inflate_all(res.data, res.size, &err);
    std::string id = what + " round " + std::to_string(r) + " appends" + (trace.size() > 300 ? trace.substr(0, 300) + "..." : trace);
    if (!err.empty()) h::fail(id + ": " + err);
    else if (got != want) {
      size_t i = 0;
      while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
      h::fail(id + ": inflates to " + std::to_string(got.size()) + " bytes, " + std::to_string(want.size()) + " were appended; first difference at " + std::to_string(i));
    }
    if (again.size != res.size || std::string(reinterpret_cast<const char*>(again.data), again.size) != got0) h::fail(id + ": asking for the result again gives another one");
    if (r > 0) {   // a fresh buffer gives the same bytes
      CompressedBuffer f(cin, osz, cout);
      f.Init(); f.Append(std::string_view(want));
      auto fr = f.Result();
      std::string e2;
      if (inflate_all(fr.data, fr.size, &e2) != want || !e2.empty()) h::fail(id + ": a fresh buffer: wrong bytes");
    }
  }
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  size_t cs[] = {0, 1, 2, 3, 5, 7, 16, 17, 31, 33, 100, 1000, 4096};
  size_t os[] = {2, 3, 4, 5, 6, 7, 9, 16, 17, 31, 64, 1000, 4096};
  size_t ds[] = {0, 1, 2, 8, 9, 100, 5000};
  for (auto c : cs) for (auto o : os) for (auto d : ds) run(c, d, o, 3, 30, 300);
  for (int i = 0; i < (h::thorough ? 400 : 30); ++i) run(h::rnd(70000), h::rnd(70000), 2 + h::rnd(70000), 3, 60, 100000);
  for (int i = 0; i < (h::thorough ? 10 : 2); ++i) run(256 * 1024, 256 * 1024, 32 * 1024, 3, 200, 60000);
  { CompressedBuffer b; }
  { CompressedBuffer b; b.Init(); b.Append(std::string_view("abc")); }
  return h::done();
}
