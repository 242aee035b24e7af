// Common helpers of the harnesses.
#pragma once
#include "lsx.h"
#include <string.h>
#include <string>
#define REQUIRE(c, m) lsx_assert((int)(bool)(c), m)
// conjunction over many byte comparisons without forking on each
struct All {
  int ok = 1;
  void eq(uint64_t a, uint64_t b) { ok = ok & (int)(a == b); }
  void that(int c) { ok = ok & (c != 0); }
};
static inline uint64_t ite(int c, uint64_t a, uint64_t b) { return lsx_ite(c, a, b); }
// exactly n bytes of heap memory, so that any access outside them is an error
struct Buf {
  char* p;
  size_t n;
  explicit Buf(size_t k) : p(new char[k]), n(k) {}
  Buf(size_t k, const char* name) : p(new char[k]), n(k) { lsx_sym_bytes(p, k, name); }
  ~Buf() { delete[] p; }
  Buf(const Buf&) = delete;
  Buf& operator=(const Buf&) = delete;
};
static inline int sameBytes(const char* a, const char* b, size_t n) {
  int ok = 1;
  for (size_t i = 0; i < n; i++) ok = ok & (int)(a[i] == b[i]);
  return ok;
}
// n concrete bytes that depend on their place (period 251)
static inline void fillPattern(char* p, size_t n) {
  size_t k = n < 251 ? n : 251;
  for (size_t i = 0; i < k; i++) p[i] = (char)(i * 7 + 1);
  while (k < n) {
    size_t c = k < n - k ? k : n - k;
    memcpy(p + k, p, c);
    k += c;
  }
}
