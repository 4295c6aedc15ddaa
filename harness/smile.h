// decodes what spectator/smile.h encodes, independently of it
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <zlib.h>
struct Val { int k; uint64_t n; double d; std::string s; };
static std::string inflate_all(const uint8_t* p, size_t n, bool* ok) {
  std::string out(1 << 16, '\0');
  z_stream z{};
  *ok = false;
  if (inflateInit2(&z, 31) != Z_OK) return "";
  z.next_in = const_cast<Bytef*>(p); z.avail_in = n;
  std::string r;
  int e;
  do {
    z.next_out = (Bytef*)out.data(); z.avail_out = out.size();
    e = inflate(&z, Z_NO_FLUSH);
    r.append(out.data(), out.size() - z.avail_out);
  } while (e == Z_OK && (z.avail_in > 0 || z.avail_out == 0));
  *ok = e == Z_STREAM_END && z.avail_in == 0;
  inflateEnd(&z);
  return r;
}
// independent decoder
static bool decode(const std::string& b, std::vector<Val>* out, std::string* err) {
  size_t i = 0;
  auto need = [&](size_t n) { return i + n <= b.size(); };
  if (b.size() < 5 || b.compare(0, 3, ":)\n") != 0 || b[3] != 0 || (uint8_t)b[4] != 0xF8) { *err = "bad header"; return false; }
  i = 5;
  while (i < b.size()) {
    uint8_t t = b[i++];
    if (t == 0xF9) { if (i != b.size()) { *err = "data after the end of the array"; return false; } return true; }
    Val v{};
    if (t >= 0xC0 && t <= 0xDF) { uint64_t z = t & 31; v.k = 0; v.n = (z >> 1) ^ -(z & 1); }
    else if (t == 0x24) {
      uint64_t z = 0; int n = 0;
      for (;;) {
        if (!need(1) || ++n > 5) { *err = "bad vint"; return false; }
        uint8_t c = b[i++];
        if (c & 0x80) { if (c & 0x40) { *err = "bad last vint byte"; return false; } z = (z << 6) | (c & 0x3f); break; }
        z = (z << 7) | c;
      }
      if (z >> 32) { *err = "vint beyond 32 bits"; return false; }
      v.k = 0; v.n = (z >> 1) ^ -(z & 1);
    } else if (t == 0x29) {
      if (!need(10)) { *err = "short double"; return false; }
      uint64_t z = 0;
      for (int k = 0; k < 10; ++k) { uint8_t c = b[i++]; if (c & 0x80) { *err = "bad double byte"; return false; } z = (z << 7) | c; }
      v.k = 1; memcpy(&v.d, &z, 8);
    } else if (t == 0x20) { v.k = 2; }
    else if (t >= 0x40 && t <= 0x7F) { size_t n = t - 0x3F; if (!need(n)) { *err = "short string"; return false; } v.k = 2; v.s = b.substr(i, n); i += n; }
    else if (t == 0xE0) { auto e = b.find('\xFC', i); if (e == std::string::npos) { *err = "unterminated string"; return false; } v.k = 2; v.s = b.substr(i, e - i); i = e + 1; }
    else { *err = "unknown token " + std::to_string(t); return false; }
    out->push_back(v);
  }
  *err = "no end of array";
  return false;
}
