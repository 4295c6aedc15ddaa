#include "h.h"
#include "spectator/percentile_buckets.h"
#include <algorithm>
using namespace spectator;
// boundaries computed independently: k + steps of a third of each power of four
static std::vector<uint64_t> table() {
  std::vector<uint64_t> t{1, 2, 3};
  for (int e = 2; e <= 60; e += 2) {
    uint64_t c = 1ull << e, d = c / 3, end = (c << 2) - d;
    for (; c < end; c += d) t.push_back(c);
  }
  t.push_back(1ull << 62);
  t.pop_back();
  t.push_back(INT64_MAX);
  return t;
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  auto T = table();
  h::same(T.size(), size_t(276), "oracle size");
  auto want = [&](int64_t v) -> size_t {
    if (v <= 0) return 0;
    size_t i = std::upper_bound(T.begin(), T.end(), uint64_t(v)) - T.begin();  // first boundary above v
    if (i >= 275) return 275;
    // a full step past the last boundary below a power of four: counted with the next bucket
    uint64_t b = T[i];
    if (b >= 16 && (b & (b - 1)) == 0 && __builtin_ctzll(b) % 2 == 0 && uint64_t(v) >= T[i - 1] + b / 4 / 3) ++i;
    return i;
  };
  auto one = [&](int64_t v) {
    ++h::cases;
    size_t i = PercentileBucketIndexOf(v);
    if (!h::same(i, want(v), "PercentileBucketIndexOf(" + std::to_string(v) + ")")) return;
    h::same(PercentileBucket(v), int64_t(T[i]), "PercentileBucket(" + std::to_string(v) + ")");
  };
  for (auto& c : h::cex) { long long v; if (sscanf(c.c_str(), "v %lld", &v) == 1) one(v); }
  for (int64_t v = -3; v < 70000; ++v) one(v);
  for (size_t i = 0; i < T.size(); ++i) for (int64_t d = -8; d <= 8; ++d) one(int64_t(T[i] + uint64_t(d)));
  for (int k = 0; k < 64; ++k) for (int64_t d = -8; d <= 8; ++d) one(int64_t((1ull << k) + uint64_t(d)));
  one(INT64_MIN); one(INT64_MAX);
  for (int k = 0; k < (h::thorough ? 3000000 : 300000); ++k) one(int64_t(h::rng() >> h::rnd(64)));
  return h::done();
}
