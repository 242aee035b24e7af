// C08, C09: hash and pseudo-random generator.
#include "h.h"
#include "util/hash.h"
#include "util/random.h"
using namespace lsmdb;

// the published LevelDB hash, written independently
static uint32_t refHash(const unsigned char* p, size_t n, uint32_t seed) {
  const uint32_t m = 0xc6a4a793u;
  uint32_t h = seed ^ (uint32_t)(n * m);
  size_t i = 0;
  for (; i + 4 <= n; i += 4) {
    uint32_t w = (uint32_t)p[i] | (uint32_t)p[i + 1] << 8 | (uint32_t)p[i + 2] << 16 | (uint32_t)p[i + 3] << 24;
    h = (h + w) * m;
    h ^= h >> 16;
  }
  size_t left = n - i;
  if (left) {
    if (left == 3) h += (uint32_t)p[i + 2] << 16;
    if (left >= 2) h += (uint32_t)p[i + 1] << 8;
    h += (uint32_t)p[i];
    h *= m;
    h ^= h >> 24;
  }
  return h;
}
extern "C" void c08_hash() {
  const uint32_t N = (uint32_t)lsx_param("n", 16);
  uint32_t n = lsx_choose(N + 1, "n"), off = lsx_choose(4, "off");
  // two copies at different alignments, each at the very end of its memory
  Buf a(n + off), b(n);
  Buf data(n, "d");
  memcpy(a.p + off, data.p, n);
  memcpy(b.p, data.p, n);
  uint32_t seed = (uint32_t)lsx_sym("seed", 32);
  uint32_t x = Hash(a.p + off, n, seed), y = Hash(b.p, n, seed);
  REQUIRE(x == refHash((unsigned char*)b.p, n, seed), "the hash is the published LevelDB hash");
  REQUIRE(x == y, "the hash does not depend on where the bytes lie");
  REQUIRE(sameBytes(a.p + off, data.p, n), "hashing does not change the bytes");
  lsx_observe(x);
  if (n == N) lsx_cover("longest");
  if (n == 0) lsx_cover("empty");
}
extern "C" void c08_long() {
  static const uint32_t sizes[] = {48, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4097, 32767, 32769, 65535, 65536, 65537, 65539, 131072};
  uint32_t n = sizes[lsx_choose((uint32_t)lsx_param("sizes", 20), "n")];
  Buf b(n);
  fillPattern(b.p, n);
  const uint32_t end = n <= 1000 ? n : 64;
  lsx_sym_bytes(b.p, end, "d");
  if (end < n) lsx_sym_bytes(b.p + n - end, end, "e");
  uint32_t seed = (uint32_t)lsx_sym("seed", 32);
  REQUIRE(Hash(b.p, n, seed) == refHash((unsigned char*)b.p, n, seed), "the hash is the published LevelDB hash");
  lsx_cover("end");
}

// ---------------------------------------------------------------- C09
static const uint32_t M = 2147483647u;
extern "C" void c09_next() {
  uint32_t s = (uint32_t)lsx_sym("s", 32);
  Random r(s);
  uint32_t x = s & 0x7fffffffu;
  uint32_t state = (uint32_t)ite((x == 0) | (x == M), 1, x);
  for (int i = 0; i < 2; i++) {
    uint32_t got = r.Next();
    uint64_t want = ((uint64_t)state * 16807u) % M;
    REQUIRE(got == want, "each step is 16807 times the state modulo 2^31-1");
    REQUIRE((got != 0) & (got < M), "a step is never 0 or 2^31-1");
    // from here on the state is any value of the range: what holds for one more step holds for all
    state = got;
  }
  lsx_cover("end");
}
// long sequences from known seeds (a counter kept beside the state would show)
extern "C" void c09_long() {
  static const uint32_t seeds[] = {301, 1, 0xdeadbeef, 2147483646};
  uint32_t seed = seeds[lsx_choose(4, "seed")], N = (uint32_t)lsx_param("steps", 5000);
  Random r(seed);
  uint64_t state = seed & 0x7fffffffu;
  All ok;
  for (uint32_t i = 0; i < N; i++) {
    state = state * 16807u % M;
    switch (i % 5) {
      case 2: ok.eq(r.Uniform(1000), state % 1000); break;
      case 3: ok.eq(r.OneIn(3), state % 3 == 0); break;
      default: ok.eq(r.Next(), state);
    }
  }
  REQUIRE(ok.ok, "a long sequence follows the recurrence");
  lsx_cover("end");
}
// any state reachable by a step can also be a seed: covers every position of every sequence
extern "C" void c09_bounded() {
  uint32_t s = (uint32_t)lsx_sym("s", 31);
  lsx_assume((s >= 1) & (s < M));
  uint32_t n = (uint32_t)lsx_sym("n", 31);
  lsx_assume(n >= 1);
  Random a(s), b(s), c(s);
  uint32_t x = a.Next();
  uint32_t u = b.Uniform((int)n);
  REQUIRE(u < n, "Uniform(n) is below n");
  REQUIRE(u == x % n, "Uniform(n) is the step reduced by n");
  REQUIRE((int)c.OneIn((int)n) == (u == 0), "OneIn(n) is Uniform(n) being zero");
  lsx_cover("end");
}
extern "C" void c09_skewed() {
  uint32_t s = (uint32_t)lsx_sym("s", 31);
  lsx_assume((s >= 1) & (s < M));
  static const uint32_t logs[] = {0, 1, 3, 12, 30, 2, 4, 5, 6, 7, 8, 10, 16, 20, 24, 29};
  uint32_t ml = logs[lsx_choose((uint32_t)lsx_param("logs", 5), "max_log")];
  Random a(s);
  uint32_t v = a.Skewed((int)ml);
  Random b(s);
  uint32_t x1 = b.Next(), x2 = b.Next();
  uint32_t base = x1 % (ml + 1);
  REQUIRE(v == x2 % (1u << base), "Skewed draws below a power of two chosen uniformly among max_log+1");
  REQUIRE((v >> base) == 0, "Skewed draws below the power of two it chose");
  REQUIRE(((uint64_t)v >> ml) == 0, "Skewed(max_log) is below 2^max_log");
  lsx_cover("end");
}
