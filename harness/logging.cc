// C04, C05: decimal numbers and escaping.
#include "h.h"
#include "util/logging.h"
#include "lsmdb/slice.h"
using namespace lsmdb;

// true when 10*v + d exceeds 2^64-1
static int wraps(uint64_t v, uint64_t d) { return v > ite(d <= 5, 1844674407370955161ull, 1844674407370955160ull); }

// Every text of n bytes is "k leading digits, then (unless k == n) a byte that is no digit, then anything".
extern "C" void c04_parse() {
  const uint32_t N = (uint32_t)lsx_param("n", 22);
  uint32_t k = lsx_choose(N + 1, "digits");
  uint32_t rest = lsx_choose(3, "rest");
  Buf in(k + rest);
  uint64_t val = 0;
  int over = 0;
  for (uint32_t i = 0; i < k; i++) {
    uint64_t d = lsx_sym("d", 4);
    lsx_assume(d <= 9);
    in.p[i] = (char)('0' + d);
    over = over | wraps(val, d);
    val = val * 10 + d;
  }
  if (rest) {
    lsx_sym_bytes(in.p + k, rest, "r");
    unsigned char c = (unsigned char)in.p[k];
    lsx_assume((c < '0') | (c > '9'));
  }
  Slice s(in.p, in.n);
  uint64_t got = 0x5a5a5a5a5a5a5a5aull;
  bool ok = ConsumeDecimalNumber(&s, &got);
  if (k == 0) {
    REQUIRE(!ok, "text without a leading digit is rejected");
    REQUIRE(s.data() == in.p && s.size() == in.n, "text without a leading digit is left untouched");
    lsx_cover("no digit");
    return;
  }
  REQUIRE((int)ok == !over, "a number is accepted exactly if it fits 64 bits");
  if (ok) {
    REQUIRE(got == val, "the value of the digits is returned");
    REQUIRE(s.data() == in.p + k && s.size() == rest, "exactly the leading run of digits is consumed");
    if (k >= 20) lsx_cover("20 digits accepted");
    lsx_cover("accepted");
  } else lsx_cover("overflow");
}
// long runs of leading zeros before any number, and long texts after it
extern "C" void c04_zeros() {
  static const uint32_t kZeros[] = {1, 40, 0, 12, 22, 64, 255, 256, 300, 5000};
  static const uint32_t kRest[] = {0, 1, 30, 16, 300, 70000};
  const uint32_t z = kZeros[lsx_choose((uint32_t)lsx_param("zeros", 10), "zeros")];
  const uint32_t k = (uint32_t)lsx_param("lo", 17) + lsx_choose((uint32_t)lsx_param("ks", 5), "digits");
  const uint32_t rest = kRest[lsx_choose((uint32_t)lsx_param("rests", 6), "rest")];
  Buf in(z + k + rest);
  memset(in.p, '0', z);
  uint64_t val = 0;
  int over = 0;
  for (uint32_t i = 0; i < k; i++) {
    uint64_t d = lsx_sym("d", 4);
    lsx_assume(d <= 9);
    in.p[z + i] = (char)('0' + d);
    over = over | wraps(val, d);
    val = val * 10 + d;
  }
  if (rest) {
    memset(in.p + z + k, '7', rest);
    unsigned char c = (unsigned char)lsx_sym("r", 8);
    lsx_assume((c < '0') | (c > '9'));
    in.p[z + k] = (char)c;
  }
  Slice s(in.p, in.n);
  uint64_t got = 0x5a5a5a5a5a5a5a5aull;
  bool ok = ConsumeDecimalNumber(&s, &got);
  REQUIRE((int)ok == !over, "a number is accepted exactly if it fits 64 bits");
  if (ok) {
    REQUIRE(got == val, "the value of the digits is returned");
    REQUIRE(s.data() == in.p + z + k && s.size() == rest, "exactly the leading run of digits is consumed");
    lsx_cover("accepted");
  } else lsx_cover("overflow");
}
// the maximum and its neighbours through the same entry, with any leading zeros
extern "C" void c04_format() {
  uint64_t v = lsx_sym("v", 64);
  {
    std::string s("ab");
    AppendNumberTo(&s, v);
    REQUIRE(s.size() >= 3 && s.size() <= 22, "between 1 and 20 digits are appended");
    REQUIRE(s[0] == 'a' && s[1] == 'b', "formatting keeps what the string held");
    size_t n = s.size() - 2;
    std::string t = NumberToString(v);
    REQUIRE(t.size() == n, "both formatters give as many digits");
    char digits[20];
    uint64_t left = v;
    for (size_t i = n; i-- > 0;) {
      digits[i] = (char)('0' + left % 10);
      left /= 10;
      REQUIRE(s[2 + i] == digits[i], "the digits denote the number");
      REQUIRE(t[i] == digits[i], "both formatters give the same digits");
    }
    REQUIRE(left == 0, "all digits are appended");
    REQUIRE(n == 1 || digits[0] != '0', "no leading zeros");
    // both formatters and the parser, followed by any non-digit text
    uint32_t rest = lsx_choose(3, "rest");
    char tail[2] = {0, 0};
    if (rest) {
      lsx_sym_bytes(tail, rest, "r");
      unsigned char c = (unsigned char)tail[0];
      lsx_assume((c < '0') | (c > '9'));
    }
    Buf in(n + rest);
    memcpy(in.p, digits, n);
    memcpy(in.p + n, tail, rest);
    Slice sl(in.p, in.n);
    uint64_t got = 0;
    REQUIRE(ConsumeDecimalNumber(&sl, &got), "a formatted number parses");
    REQUIRE(got == v, "a formatted number parses back to itself");
    REQUIRE(sl.data() == in.p + n && sl.size() == rest, "parsing stops after the formatted number");
    if (n == 20) lsx_cover("20 digits");
    if (n == 1) lsx_cover("1 digit");
  }
  REQUIRE(lsx_live_allocs() == 0, "nothing leaks");
}

// ---------------------------------------------------------------- C05
static const char kHex[] = "0123456789abcdef";
extern "C" void c05_escape() {
  const uint32_t N = (uint32_t)lsx_param("n", 3);
  {
    uint32_t n = lsx_choose(N + 1, "n");
    Buf in(n, "in");
    uint32_t pre = lsx_choose(2, "pre");
    char before[2];
    lsx_sym_bytes(before, 2, "before");
    std::string s(before, pre * 2);
    AppendEscapedStringTo(&s, Slice(in.p, n));
    std::string e = EscapeString(Slice(in.p, n));
    REQUIRE(s.size() == pre * 2 + e.size(), "appending adds what escaping gives");
    REQUIRE(sameBytes(s.data(), before, pre * 2), "escaping keeps what the string held");
    REQUIRE(sameBytes(s.data() + pre * 2, e.data(), e.size()), "appending adds the same text as escaping");
    size_t at = 0;
    for (uint32_t i = 0; i < n; i++) {
      unsigned char c = (unsigned char)in.p[i];
      if ((c >= 0x20) & (c <= 0x7e)) {
        REQUIRE(at + 1 <= e.size(), "a printable byte gives one character");
        REQUIRE((unsigned char)e[at] == c, "a printable byte is left alone");
        at += 1;
        lsx_cover("printable");
      } else {
        REQUIRE(at + 4 <= e.size(), "any other byte gives four characters");
        REQUIRE(e[at] == '\\' && e[at + 1] == 'x', "any other byte starts with backslash x");
        unsigned h = c >> 4, l = c & 15;
        REQUIRE((unsigned char)e[at + 2] == (h < 10 ? '0' + h : 'a' + h - 10), "first hex digit");
        REQUIRE((unsigned char)e[at + 3] == (l < 10 ? '0' + l : 'a' + l - 10), "second hex digit");
        at += 4;
        lsx_cover("escaped");
      }
    }
    REQUIRE(at == e.size(), "nothing else is added");
    lsx_observe_bytes(s.data(), s.size());
  }
  REQUIRE(lsx_live_allocs() == 0, "nothing leaks");
}
// a longer text of one unknown byte among known ones: position independence
extern "C" void c05_position() {
  const uint32_t N = (uint32_t)lsx_param("len", 40);
  {
    uint32_t pos = lsx_choose(N, "pos");
    Buf in(N);
    for (uint32_t i = 0; i < N; i++) in.p[i] = (char)('a' + i % 26);
    lsx_sym_bytes(in.p + pos, 1, "c");
    std::string e = EscapeString(Slice(in.p, N));
    unsigned char c = (unsigned char)in.p[pos];
    int pr = (c >= 0x20) & (c <= 0x7e);
    REQUIRE(e.size() == ite(pr, N, N + 3), "length of the escaped text");
    REQUIRE(sameBytes(e.data(), in.p, pos), "text before");
    REQUIRE(sameBytes(e.data() + e.size() - (N - pos - 1), in.p + pos + 1, N - pos - 1), "text after");
    unsigned h = c >> 4, l = c & 15;
    if (e.size() == N) REQUIRE((unsigned char)e[pos] == c, "the byte itself");
    else REQUIRE((e[pos] == '\\') & (e[pos + 1] == 'x') & ((unsigned char)e[pos + 2] == (unsigned char)kHex[h]) & ((unsigned char)e[pos + 3] == (unsigned char)kHex[l]), "the escape");
  }
  REQUIRE(lsx_live_allocs() == 0, "nothing leaks");
  lsx_cover("end");
}

// long texts with an unknown byte at a chosen place and at both ends
extern "C" void c05_long() {
  static const uint32_t sizes[] = {255, 256, 257, 1000, 4095, 4096, 4097, 5000};
  const uint32_t N = sizes[lsx_choose((uint32_t)lsx_param("sizes", 8), "n")];
  {
    uint32_t pos = lsx_choose(2, "place") ? N - 2 : 1 + (N - 2) / 2;
    Buf in(N);
    for (uint32_t i = 0; i < N; i++) in.p[i] = (char)('a' + i % 26);
    in.p[0] = '\n';
    in.p[N - 1] = (char)0xff;
    lsx_sym_bytes(in.p + pos, 1, "c");
    std::string e;
    AppendEscapedStringTo(&e, Slice(in.p, N));
    unsigned char c = (unsigned char)in.p[pos];
    int pr = (c >= 0x20) & (c <= 0x7e);
    REQUIRE(e.size() == ite(pr, N + 6, N + 9), "length of the escaped text");
    REQUIRE(memcmp(e.data(), "\\x0a", 4) == 0 && memcmp(e.data() + e.size() - 4, "\\xff", 4) == 0, "both ends");
    REQUIRE(memcmp(e.data() + 4, in.p + 1, pos - 1) == 0, "text before");
    REQUIRE(memcmp(e.data() + e.size() - 4 - (N - pos - 2), in.p + pos + 1, N - pos - 2) == 0, "text after");
    unsigned h = c >> 4, l = c & 15;
    const char* q = e.data() + pos + 3;
    if (e.size() == N + 6) REQUIRE((unsigned char)*q == c, "the byte itself");
    else REQUIRE((q[0] == '\\') & (q[1] == 'x') & ((unsigned char)q[2] == (unsigned char)kHex[h]) & ((unsigned char)q[3] == (unsigned char)kHex[l]), "the escape");
  }
  REQUIRE(lsx_live_allocs() == 0, "nothing leaks");
  lsx_cover("end");
}
