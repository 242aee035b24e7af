// C06: Slice.
#include "h.h"
#include "lsmdb/slice.h"
using namespace lsmdb;

// -1, 0, 1 by unsigned bytes, proper prefix first, as one expression
static uint64_t refCmp(const char* a, size_t n, const char* b, size_t m) {
  size_t k = n < m ? n : m;
  uint64_t r = n < m ? (uint64_t)-1 : n > m ? 1 : 0;
  for (size_t i = k; i-- > 0;) {
    unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
    r = ite(x < y, (uint64_t)-1, ite(x > y, 1, r));
  }
  return r;
}
static uint64_t sgn(int r) { return ite(r < 0, (uint64_t)-1, ite(r > 0, 1, 0)); }

extern "C" void c06_order() {
  const uint32_t N = (uint32_t)lsx_param("n", 4);
  uint32_t n = lsx_choose(N + 1, "n"), m = lsx_choose(N + 1, "m"), k = lsx_choose(N + 1, "k");
  Buf a(n, "a"), b(m, "b"), c(k, "c");
  Slice x(a.p, n), y(b.p, m), z(c.p, k);
  int xy = x.compare(y), yx = y.compare(x), yz = y.compare(z), xz = x.compare(z);
  REQUIRE(sgn(xy) == refCmp(a.p, n, b.p, m), "compare is the unsigned bytewise order, prefix first");
  REQUIRE(sgn(yz) == refCmp(b.p, m, c.p, k), "compare is the unsigned bytewise order, prefix first (2)");
  REQUIRE(sgn(xy) == 0 - sgn(yx), "compare is antisymmetric");
  REQUIRE(x.compare(x) == 0, "a slice equals itself");
  REQUIRE(!((xy < 0) & (yz < 0)) | (xz < 0), "compare is transitive");
  REQUIRE(!((xy <= 0) & (yz <= 0)) | (xz <= 0), "compare is transitive (weakly)");
  REQUIRE((int)(x == y) == (xy == 0), "equality is comparing equal");
  REQUIRE((int)(x != y) == (xy != 0), "inequality is not comparing equal");
  int pre = m <= n;
  if (m <= n) pre = sameBytes(a.p, b.p, m);
  REQUIRE((int)x.starts_with(y) == pre, "starts_with agrees with the bytes");
  lsx_cover("end");
}
// the same for two long slices that may share a long prefix
extern "C" void c06_long() {
  static const uint32_t sizes[] = {1, 7, 8, 9, 15, 16, 17, 33, 64, 65, 127, 128, 129, 255, 257};
  uint32_t K = (uint32_t)lsx_param("sizes", 6);
  const uint32_t every = (uint32_t)lsx_param("every", 0);
  uint32_t n = every ? 1 + lsx_choose(every, "n") : sizes[lsx_choose(K, "n")], m = every ? n + lsx_choose(3, "m") - 1 : sizes[lsx_choose(K, "m")];
  Buf a(n, "a"), b(m, "b");
  Slice x(a.p, n), y(b.p, m);
  int xy = x.compare(y);
  REQUIRE(sgn(xy) == refCmp(a.p, n, b.p, m), "compare is the unsigned bytewise order, prefix first");
  REQUIRE((int)(x == y) == (xy == 0), "equality is comparing equal");
  REQUIRE((int)(x != y) == (xy != 0), "inequality is not comparing equal");
  int pre = m <= n;
  if (m <= n) pre = sameBytes(a.p, b.p, m);
  REQUIRE((int)x.starts_with(y) == pre, "starts_with agrees with the bytes");
  lsx_cover("end");
}
extern "C" void c06_access() {
  const uint32_t N = (uint32_t)lsx_param("n", 5);
  {
    uint32_t n = lsx_choose(N + 1, "n");
    Buf a(n, "a");
    Slice s(a.p, n);
    REQUIRE(s.data() == a.p && s.size() == n && s.empty() == (n == 0), "accessors");
    for (uint32_t i = 0; i < n; i++) REQUIRE(s[i] == a.p[i], "operator[]");
    std::string t = s.ToString();
    REQUIRE(t.size() == n, "ToString length");
    REQUIRE(sameBytes(t.data(), a.p, n), "ToString bytes");
    Slice u(t);
    REQUIRE(u.data() == t.data() && u.size() == n && u == s, "slice of a string");
    uint32_t k = lsx_choose(n + 1, "k");
    Slice v = s;
    v.remove_prefix(k);
    REQUIRE(v.data() == a.p + k && v.size() == n - k, "remove_prefix drops exactly k bytes");
    REQUIRE(s.data() == a.p && s.size() == n, "a copy is independent");
    v.clear();
    REQUIRE(v.size() == 0 && v.empty() && v == Slice(), "clear empties");
    REQUIRE(v.data() != nullptr, "a cleared slice has valid data");
    v = s;
    REQUIRE(v.data() == a.p && v.size() == n, "assignment");
    // from a C string: up to its first NUL
    char z[8];
    memcpy(z, a.p, n);
    z[n] = 0;
    Slice cs(z);
    size_t len = 0;
    while (z[len]) len++;
    REQUIRE(cs.data() == z && cs.size() == len, "slice of a C string");
    Slice d;
    REQUIRE(d.size() == 0 && d.empty() && d.data() != nullptr, "default slice is empty");
    REQUIRE((int)(d == s) == (n == 0), "default slice equals only empty ones");
  }
  REQUIRE(lsx_live_allocs() == 0, "nothing leaks");
  lsx_cover("end");
}
// sizes of any magnitude: only the bytes of the shorter slice may be looked at,
// and the sizes alone must decide once those agree
extern "C" void c06_huge() {
  const uint32_t N = (uint32_t)lsx_param("n", 2);
  uint32_t n = lsx_choose(N + 1, "n");
  Buf a(n, "a"), b(n, "b");
  uint64_t m = lsx_sym("m", 64);
  lsx_assume(m >= n);
  Slice x(a.p, n), y(b.p, m);
  // in the order of memory, so that the data of the larger slice ends at its n-th byte
  int same = sameBytes(a.p, b.p, n);
  int xy = x.compare(y), yx = y.compare(x);
  REQUIRE(sgn(xy) == ite(same & (int)(m > n), (uint64_t)-1, refCmp(a.p, n, b.p, n)), "a huge slice is ordered by its first bytes, then by size");
  REQUIRE(sgn(xy) == 0 - sgn(yx), "compare is antisymmetric for huge slices");
  REQUIRE((int)y.starts_with(x) == same, "starts_with for huge slices");
  if (m != n) {
    REQUIRE(!(x == y) && x != y && !(y == x) && y != x, "slices of different sizes are not equal");
    REQUIRE(!x.starts_with(y), "a slice does not start with a longer one");
    REQUIRE(y.size() == m && !y.empty(), "size of a huge slice");
  }
  uint64_t k = lsx_sym("k", 64);
  lsx_assume(k <= m);
  Slice z = y;
  z.remove_prefix(k);
  REQUIRE(z.size() == m - k && (uint64_t)z.data() == (uint64_t)b.p + k, "remove_prefix of any length");
  REQUIRE((int)z.empty() == (int)(k == m), "emptiness after remove_prefix");
  lsx_cover("end");
}
// Really large contents: 8-bit to 33-bit sizes and positions.
extern "C" void c06_contents() {
  static const uint64_t sizes[] = {300, 65540, (1ull << 31) + 3, (1ull << 32) + 5, 256, 65536, 1ull << 31, 1ull << 32, (1ull << 33) + 1};
  const uint64_t n = sizes[lsx_choose((uint32_t)lsx_param("sizes", 5), "size")];
  int64_t live = lsx_live_allocs();
  char *a = (char*)calloc(n, 1), *b = (char*)calloc(n, 1);
  char c = (char)lsx_sym("c", 8), d = (char)lsx_sym("d", 8);
  const uint32_t where = lsx_choose(3, "where");
  const uint64_t at = where == 0 ? n - 1 : where == 1 ? n - 2 : n / 2 + 1;
  a[at] = c;
  b[at] = d;
  Slice x(a, n), y(b, n);
  REQUIRE(x[at] == c && y[at] == d && x[at - 1] == 0 && x[0] == 0, "the byte at a position");
  REQUIRE(sgn(x.compare(y)) == ite(c == d, 0, ite((unsigned char)c < (unsigned char)d, (uint64_t)-1, 1)), "the order of long slices with one different byte");
  REQUIRE((int)(x == y) == (int)(c == d) && (int)(x != y) == (int)(c != d), "equality of long slices");
  REQUIRE((int)x.starts_with(y) == (int)(c == d), "starts_with of long slices");
  Slice s(a, n - 1);
  REQUIRE(sgn(s.compare(y)) == ite((int)(c == d) | (int)(at == n - 1), (uint64_t)-1, ite((unsigned char)c < (unsigned char)d, (uint64_t)-1, 1)), "the order of a long slice and a shorter one");
  REQUIRE((int)y.starts_with(s) == ((int)(c == d) | (int)(at == n - 1)), "starts_with of a long slice");
  REQUIRE(!s.starts_with(x), "a slice does not start with a longer one");
  free(a);
  free(b);
  REQUIRE(lsx_live_allocs() == live, "nothing is kept");
  lsx_cover("end");
}
