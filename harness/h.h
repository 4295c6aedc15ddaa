// Common part of the native harnesses: real code of /repo against an independent oracle.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <random>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>

namespace h {
inline uint64_t seed = 1;
inline bool thorough = false;
inline std::string dir = "/tmp";
inline std::vector<std::string> cex;
inline long cases = 0;
inline int fails = 0;
inline std::mt19937_64 rng;

inline void init(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], b = argv[i + 1];
    if (a == "--seed") seed = strtoull(b.c_str(), nullptr, 10);
    if (a == "--tier") thorough = b == "thorough";
    if (a == "--dir") dir = b;
    if (a == "--cex") {
      std::ifstream f(b);
      std::string l;
      while (std::getline(f, l)) cex.push_back(l);
    }
  }
  rng.seed(seed);
  setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
}
inline uint64_t rnd(uint64_t n) { return n ? rng() % n : 0; }
inline std::string q(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c < 32 || c > 126 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += char(c);
    if (r.size() > 400) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
  }
  return r + "\"";
}
inline void fail(const std::string& what) {
  ++fails;
  printf("FAIL %s\n", what.c_str());
  fflush(stdout);
  if (fails >= 20) { printf("CASES %ld\n", cases); fflush(stdout); _exit(1); }
}
inline void trying(const std::string& what) { printf("TRY %s\n", what.c_str()); fflush(stdout); }
inline int done() {
  printf("CASES %ld\n", cases);
  fflush(stdout);
  return fails ? 1 : 0;
}
inline bool check(bool c, const std::string& what) { if (!c) fail(what); return c; }
template <class A, class B> bool same(const A& got, const B& want, const std::string& what) {
  if (got == want) return true;
  if constexpr (std::is_arithmetic_v<A>) fail(what + ": got " + std::to_string(got) + ", want " + std::to_string(want));
  else fail(what + ": got " + q(std::string(got)) + ", want " + q(std::string(want)));
  return false;
}
inline uint64_t bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
inline std::string d2s(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
}  // namespace h
