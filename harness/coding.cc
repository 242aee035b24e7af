// C01 - C03: integer and length-prefixed encodings.
#include "h.h"
#include "util/coding.h"
using namespace lsmdb;
namespace lsmdb {
// defined in coding.cc without a declaration in the header
__attribute__((weak)) const char* GetLengthPrefixedSlice(const char* p, const char* limit, Slice* result);
}

extern "C" void c01_fixed() {
  uint64_t v = lsx_sym("v", 64);
  uint32_t w = (uint32_t)lsx_sym("w", 32);
  unsigned char b[16];
  memset(b, 0xA5, sizeof b);
  EncodeFixed64((char*)b + 3, v);
  for (int i = 0; i < 8; i++) lsx_assert(b[3 + i] == (unsigned char)(v >> (8 * i)), "EncodeFixed64 byte order");
  for (int i = 0; i < 3; i++) lsx_assert(b[i] == 0xA5, "EncodeFixed64 writes before its range");
  for (int i = 11; i < 16; i++) lsx_assert(b[i] == 0xA5, "EncodeFixed64 writes past its range");
  lsx_assert(DecodeFixed64((char*)b + 3) == v, "DecodeFixed64 inverts EncodeFixed64");
  memset(b, 0xA5, sizeof b);
  EncodeFixed32((char*)b + 5, w);
  for (int i = 0; i < 4; i++) lsx_assert(b[5 + i] == (unsigned char)(w >> (8 * i)), "EncodeFixed32 byte order");
  for (int i = 0; i < 5; i++) lsx_assert(b[i] == 0xA5, "EncodeFixed32 writes before its range");
  for (int i = 9; i < 16; i++) lsx_assert(b[i] == 0xA5, "EncodeFixed32 writes past its range");
  lsx_assert(DecodeFixed32((char*)b + 5) == w, "DecodeFixed32 inverts EncodeFixed32");
  std::string s("x");
  PutFixed64(&s, v);
  PutFixed32(&s, w);
  lsx_assert(s.size() == 13 && s[0] == 'x', "PutFixed appends");
  lsx_assert(DecodeFixed64(s.data() + 1) == v, "PutFixed64 round trip");
  lsx_assert(DecodeFixed32(s.data() + 9) == w, "PutFixed32 round trip");
  lsx_observe_bytes(s.data(), s.size());
  lsx_cover("end");
}

// decoding arbitrary bytes reads the little-endian value (not only of what the encoder writes)
extern "C" void c01_fixed_decode() {
  Buf b(12, "b");
  for (int off = 0; off <= 4; off++) {
    uint64_t v = DecodeFixed64(b.p + off);
    for (int i = 0; i < 8; i++) REQUIRE((unsigned char)(v >> (8 * i)) == (unsigned char)b.p[off + i], "DecodeFixed64 byte order");
    uint32_t w = DecodeFixed32(b.p + off);
    for (int i = 0; i < 4; i++) REQUIRE((unsigned char)(w >> (8 * i)) == (unsigned char)b.p[off + i], "DecodeFixed32 byte order");
  }
  lsx_cover("end");
}

// number of 7-bit groups of v (at least one), without forking
static uint64_t groups(uint64_t v) {
  uint64_t n = 1;
  for (int k = 1; k <= 9; k++) n += (uint64_t)((v >> (7 * k)) != 0);
  return n;
}

static void varint(bool is32) {
  uint64_t v = is32 ? (uint32_t)lsx_sym("v", 32) : lsx_sym("v", 64);
  const int max = is32 ? 5 : 10;
  // exactly as many bytes of room as the shortest form needs, then guard bytes
  unsigned char b[16];
  memset(b, 0xA5, sizeof b);
  char* e = is32 ? EncodeVarint32((char*)b + 2, (uint32_t)v) : EncodeVarint64((char*)b + 2, v);
  uint64_t len = (uint64_t)(e - ((char*)b + 2));
  REQUIRE(len >= 1 && len <= (uint64_t)max, "varint length in range");
  REQUIRE(len == groups(v), "varint encoding is the shortest form");
  REQUIRE((uint64_t)VarintLength(v) == len, "VarintLength reports the encoded length");
  for (int i = 0; i < max; i++) {
    int in = (uint64_t)i < len;
    uint64_t grp = (v >> (7 * i)) & 127;
    uint64_t want = ite((uint64_t)(i + 1) < len, grp | 128, grp);
    REQUIRE(b[2 + i] == ite(in, want, 0xA5), "varint bytes");
  }
  REQUIRE(b[0] == 0xA5 && b[1] == 0xA5, "varint writes before its range");
  for (int i = 2 + max; i < 16; i++) REQUIRE(b[i] == 0xA5, "varint writes past its range");
  // decode what was encoded, followed by anything
  uint64_t n = lsx_concretize(len);
  uint32_t tail = (uint32_t[]){0, 1, 2, 5, 6, 8, 11, 16, 30}[lsx_choose((uint32_t)lsx_param("tails", 9), "tail")];
  Buf in(n + tail);
  memcpy(in.p, b + 2, n);
  lsx_sym_bytes(in.p + n, tail, "t");
  Slice s(in.p, in.n);
  if (is32) {
    uint32_t got = ~(uint32_t)v;
    REQUIRE(GetVarint32(&s, &got), "GetVarint32 accepts an encoding");
    REQUIRE(got == (uint32_t)v, "GetVarint32 inverts EncodeVarint32");
    uint32_t got2 = ~(uint32_t)v;
    const char* q = GetVarint32Ptr(in.p, in.p + in.n, &got2);
    REQUIRE(q == in.p + n && got2 == (uint32_t)v, "GetVarint32Ptr inverts EncodeVarint32");
    REQUIRE(s.data() == in.p + n && s.size() == tail, "GetVarint32 leaves exactly what follows");
    // a 32-bit encoding is also the 64-bit encoding of the value
    uint64_t w = 1;
    const char* q2 = GetVarint64Ptr(in.p, in.p + in.n, &w);
    REQUIRE(q2 == in.p + n && w == v, "a 32-bit varint decodes as the same 64-bit value");
  } else {
    uint64_t got = ~v;
    REQUIRE(GetVarint64(&s, &got), "GetVarint64 accepts an encoding");
    REQUIRE(got == v, "GetVarint64 inverts EncodeVarint64");
    uint64_t got2 = ~v;
    const char* q = GetVarint64Ptr(in.p, in.p + in.n, &got2);
    REQUIRE(q == in.p + n && got2 == v, "GetVarint64Ptr inverts EncodeVarint64");
    REQUIRE(s.data() == in.p + n && s.size() == tail, "GetVarint64 leaves exactly what follows");
  }
  lsx_observe_bytes(b, sizeof b);
  if (n == (uint64_t)max) lsx_cover("longest");
  if (n == 1) lsx_cover("shortest");
}
extern "C" void c01_varint32() { varint(true); }
extern "C" void c01_varint64() { varint(false); }
// VarintLength alone, for every value
extern "C" void c01_varlen() {
  uint64_t v = lsx_sym("v", 64);
  REQUIRE((uint64_t)VarintLength(v) == groups(v), "VarintLength");
  lsx_cover("end");
}

// ---------------------------------------------------------------- C02
// what the bytes denote: fails unless a byte without the top bit comes within n and within max
static bool refVarint(const unsigned char* p, size_t n, int max, uint64_t* v, size_t* used) {
  uint64_t r = 0;
  for (int i = 0; i < max && (size_t)i < n; i++) {
    r |= (uint64_t)(p[i] & 127) << (7 * i);
    if (!(p[i] & 128)) { *v = r; *used = (size_t)i + 1; return true; }
  }
  return false;
}
static void decodeVar(bool is32) {
  const int max = is32 ? 5 : 10;
  uint32_t n = lsx_choose((uint32_t)(max + 8), "n");
  if (n >= (uint32_t)max + 3) n = (uint32_t[]){16, 17, 20, 32, 100}[n - max - 3];
  Buf in(n, "in");
  uint64_t want = 0;
  size_t used = 0;
  bool ok = refVarint((unsigned char*)in.p, n, max, &want, &used);
  Slice s(in.p, n);
  bool got;
  const char* q;
  uint64_t val = 0, val2 = 0;
  if (is32) {
    uint32_t a = 7, b = 7;
    got = GetVarint32(&s, &a);
    q = GetVarint32Ptr(in.p, in.p + n, &b);
    want = (uint32_t)want;
    val = a; val2 = b;
  } else {
    val = val2 = 7;
    got = GetVarint64(&s, &val);
    q = GetVarint64Ptr(in.p, in.p + n, &val2);
  }
  REQUIRE(got == ok, "a varint is accepted exactly if it ends inside the input and within its maximum length");
  REQUIRE((q != nullptr) == ok, "pointer decoder accepts the same inputs");
  if (ok) {
    REQUIRE(val == want && val2 == want, "the value the bytes denote is returned");
    REQUIRE(s.data() == in.p + used && s.size() == n - used, "exactly the bytes used are consumed");
    REQUIRE(q == in.p + used, "the pointer decoder returns the end of the varint");
    lsx_cover("accepted");
  } else {
    REQUIRE(s.data() == in.p && s.size() == n, "a failed varint decode leaves the input where it was");
    if (n >= (uint32_t)max) lsx_cover("overlong"); else lsx_cover("truncated");
  }
}
extern "C" void c02_varint32() { decodeVar(true); }
extern "C" void c02_varint64() { decodeVar(false); }

extern "C" void c02_slice() {
  // prefix bytes are all symbolic, the rest of the input too; n fixed per path
  static const uint32_t sizes[] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 127, 128, 129, 130, 131, 260, 300};
  uint32_t which = lsx_choose((uint32_t)lsx_param("sizes", 16), "which");
  uint32_t n = sizes[which];
  Buf in(n, "in");
  uint64_t len = 0;
  size_t used = 0;
  bool okv = refVarint((unsigned char*)in.p, n, 5, &len, &used);
  len = (uint32_t)len;
  Slice s(in.p, n), r("zz", 2);
  bool got = GetLengthPrefixedSlice(&s, &r);
  int fits = okv ? (int)(len <= n - used) : 0;
  REQUIRE((int)got == fits, "a length-prefixed string is accepted exactly if it lies inside the input");
  if (got) {
    REQUIRE(r.data() == in.p + used && r.size() == len, "the string returned is the bytes after the prefix");
    REQUIRE(s.data() == in.p + used + len && s.size() == n - used - len, "exactly the prefix and the string are consumed");
    REQUIRE(r.data() >= in.p && r.size() <= (size_t)(in.p + n - r.data()), "the string lies inside the input");
    lsx_cover("accepted");
    if (used > 1) lsx_cover("two-byte prefix");
  } else {
    REQUIRE(s.data() >= in.p && s.data() <= in.p + n && s.data() + s.size() == in.p + n, "a failed decode leaves the input inside the input");
    if (!okv) REQUIRE(s.data() == in.p, "a failed length decode leaves the input where it was");
    lsx_cover(okv ? "too long" : "bad prefix");
  }
  Slice r2("zz", 2);
  const char* (*fn)(const char*, const char*, Slice*) = &GetLengthPrefixedSlice;
  if (!fn) return;
  const char* q = fn(in.p, in.p + n, &r2);
  REQUIRE((int)(q != nullptr) == fits, "the pointer form accepts the same inputs");
  if (q != nullptr) {
    REQUIRE(r2.data() == in.p + used && r2.size() == len, "the pointer form returns the bytes after the prefix");
    REQUIRE(q == in.p + used + len, "the pointer form returns the end of the string");
  }
}

// inputs of any size: only the prefix may be looked at, the sizes decide the rest
extern "C" void c02_huge() {
  const uint32_t N = 12;
  Buf in(N, "in");
  uint64_t m = lsx_sym("m", 64);
  lsx_assume((m >= N) & (m < (1ull << 46)));
  uint64_t len = 0;
  size_t used = 0;
  bool okv = refVarint((unsigned char*)in.p, N, 5, &len, &used);
  len = (uint32_t)len;
  Slice s(in.p, m), r("zz", 2);
  bool got = GetLengthPrefixedSlice(&s, &r);
  int fits = okv ? (int)(len <= m - used) : 0;
  REQUIRE((int)got == fits, "a length-prefixed string is accepted exactly if it lies inside an input of any size");
  if (got) {
    REQUIRE(r.data() == in.p + used && r.size() == len, "the string returned is the bytes after the prefix");
    REQUIRE((uint64_t)s.data() == (uint64_t)in.p + used + len && s.size() == m - used - len, "exactly the prefix and the string are consumed");
    lsx_cover("accepted");
  } else lsx_cover(okv ? "too long" : "bad prefix");
  Slice r2("zz", 2);
  const char* (*fn)(const char*, const char*, Slice*) = &GetLengthPrefixedSlice;
  const char* q = fn(in.p, (const char*)((uint64_t)in.p + m), &r2);
  REQUIRE((int)(q != nullptr) == fits, "the pointer form accepts the same inputs");
  if (q != nullptr) {
    REQUIRE(r2.data() == in.p + used && r2.size() == len, "the pointer form returns the bytes after the prefix");
    REQUIRE((uint64_t)q == (uint64_t)in.p + used + len, "the pointer form returns the end of the string");
  }
  Slice v(in.p, m);
  uint32_t a = 0;
  uint64_t w = 0;
  bool g32 = GetVarint32(&v, &a);
  REQUIRE(g32 == okv && (!okv || a == (uint32_t)len), "a varint32 at the start of an input of any size");
  if (okv) REQUIRE((uint64_t)v.data() == (uint64_t)in.p + used && v.size() == m - used, "what follows it is left");
  if (okv) {
    Slice v2(in.p, m);
    REQUIRE(GetVarint64(&v2, &w) && (uint32_t)w == (uint32_t)len, "a varint64 at the start of an input of any size");
    REQUIRE((uint64_t)v2.data() == (uint64_t)in.p + used && v2.size() == m - used, "what follows it is left");
  }
  uint64_t len64 = 0;
  size_t used64 = 0;
  const bool ok64 = refVarint((unsigned char*)in.p, N, 10, &len64, &used64);
  Slice v3(in.p, m);
  w = 0;
  const bool g64 = GetVarint64(&v3, &w);
  REQUIRE(g64 == ok64 && (!ok64 || w == len64), "a varint64 at the start of an input of any size");
  if (ok64) REQUIRE((uint64_t)v3.data() == (uint64_t)in.p + used64 && v3.size() == m - used64, "what follows it is left");
  else REQUIRE(v3.data() == in.p && v3.size() == m, "a failed varint decode leaves the input where it was");
}

// ---------------------------------------------------------------- C03
extern "C" void c03_sequence() {
  const uint32_t K = (uint32_t)lsx_param("ops", 2), L = (uint32_t)lsx_param("slice", 2);
  {
    std::string s;
    uint32_t pre = lsx_choose(2, "prefix") * 3;
    char before[4];
    lsx_sym_bytes(before, 4, "before");
    s.assign(before, pre);
    uint64_t val[4];
    uint32_t kind[4], sl[4];
    char txt[4][8];
    for (uint32_t i = 0; i < K; i++) {
      kind[i] = lsx_choose(5, "kind");
      switch (kind[i]) {
        case 0: val[i] = (uint32_t)lsx_sym("v", 32); PutFixed32(&s, (uint32_t)val[i]); break;
        case 1: val[i] = lsx_sym("v", 64); PutFixed64(&s, val[i]); break;
        case 2: val[i] = (uint32_t)lsx_sym("v", 32); PutVarint32(&s, (uint32_t)val[i]); break;
        case 3: val[i] = lsx_sym("v", 64); PutVarint64(&s, val[i]); break;
        default: {
          sl[i] = lsx_choose(L + 1, "len");
          Buf b(sl[i], "txt");
          memcpy(txt[i], b.p, sl[i]);
          PutLengthPrefixedSlice(&s, Slice(b.p, sl[i]));
        }
      }
    }
    REQUIRE(s.size() >= pre && sameBytes(s.data(), before, pre), "appending keeps what the string held");
    Buf flat(s.size() - pre);
    memcpy(flat.p, s.data() + pre, flat.n);
    Slice in(flat.p, flat.n);
    for (uint32_t i = 0; i < K; i++) {
      switch (kind[i]) {
        case 0:
          REQUIRE(in.size() >= 4 && DecodeFixed32(in.data()) == (uint32_t)val[i], "fixed32 reads back in order");
          in.remove_prefix(4);
          break;
        case 1:
          REQUIRE(in.size() >= 8 && DecodeFixed64(in.data()) == val[i], "fixed64 reads back in order");
          in.remove_prefix(8);
          break;
        case 2: { uint32_t v = 0; REQUIRE(GetVarint32(&in, &v) && v == (uint32_t)val[i], "varint32 reads back in order"); break; }
        case 3: { uint64_t v = 0; REQUIRE(GetVarint64(&in, &v) && v == val[i], "varint64 reads back in order"); break; }
        default: {
          Slice r;
          REQUIRE(GetLengthPrefixedSlice(&in, &r), "a length-prefixed string reads back in order");
          REQUIRE(r.size() == sl[i], "length-prefixed string has its length");
          REQUIRE(sameBytes(r.data(), txt[i], sl[i]), "length-prefixed string has its bytes");
          lsx_cover("string");
        }
      }
    }
    REQUIRE(in.empty(), "the sequence is consumed completely");
    lsx_observe_bytes(s.data(), s.size());
  }
  REQUIRE(lsx_live_allocs() == 0, "nothing leaks");
  lsx_cover("end");
}
// strings around the sizes where the prefix grows
extern "C" void c03_long() {
  static const uint32_t sizes[] = {126, 127, 128, 129, 255, 256, 300, 16383, 16384, 65535, 65536, 65537, 2097151, 2097152};
  uint32_t n = sizes[lsx_choose((uint32_t)lsx_param("sizes", 7), "which")];
  {
    Buf b(n);
    // the ends and a few places inside are unknown, the rest depends on its place
    fillPattern(b.p, n);
    const uint32_t end = n < 40 ? n : 40;
    lsx_sym_bytes(b.p, end, "b");
    lsx_sym_bytes(b.p + n - end, end, "e");
    std::string s("ab");
    uint64_t v = lsx_sym("v", 64);
    PutLengthPrefixedSlice(&s, Slice(b.p, n));
    PutFixed64(&s, v);
    uint32_t want = n < 128 ? 1 : n < 16384 ? 2 : n < 2097152 ? 3 : 4;
    REQUIRE(s.size() == 2 + want + n + 8 && s[0] == 'a' && s[1] == 'b', "only the encoding is added");
    Slice in(s.data() + 2, s.size() - 2), r;
    REQUIRE(GetLengthPrefixedSlice(&in, &r), "a long string reads back");
    REQUIRE(r.size() == n, "a long string keeps its length");
    REQUIRE(sameBytes(r.data(), b.p, end) & sameBytes(r.data() + n - end, b.p + n - end, end), "a long string keeps its first and last bytes");
    REQUIRE(memcmp(r.data(), b.p, n) == 0, "a long string keeps its bytes");
    REQUIRE(in.size() == 8 && DecodeFixed64(in.data()) == v, "what follows a long string reads back");
  }
  REQUIRE(lsx_live_allocs() == 0, "nothing leaks");
  lsx_cover("end");
}
