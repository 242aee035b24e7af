// Hash-consed bit-vector expressions (width 1..64) with a normalising
// constructor layer. Zero-extension, constant shifts and constant masks are
// normalised to concatenation/extraction so byte shuffling code folds away.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

enum class Op : uint8_t {
  Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor,
  Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, SExt
};

struct Expr {
  Op op;
  bool undef;        // contains an undefined-value variable
  uint16_t width;
  uint32_t id;
  uint32_t hash;
  uint64_t val;      // Const: value; Var: var index; Extract: low bit
  const Expr *a, *b, *c;
};
typedef const Expr *E;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned width; bool undef; };
extern std::vector<VarInfo> g_vars;

struct ExprPool {
  std::vector<E> table;
  size_t count = 0;
  ExprPool() { table.assign(1 << 16, nullptr); }
  static uint32_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return (uint32_t)h;
  }
  char *chunk = nullptr;
  size_t left = 0;
  E get(Op op, unsigned w, uint64_t val, E a = nullptr, E b = nullptr, E c = nullptr, bool undefVar = false) {
    uint32_t h = (uint32_t)op * 31 + w;
    h = mix(h, val);
    h = mix(h, a ? a->id : 0);
    h = mix(h, b ? b->id + 1 : 0);
    h = mix(h, c ? c->id + 2 : 0);
    size_t m = table.size() - 1;
    size_t i = h & m;
    while (table[i]) {
      E e = table[i];
      if (e->hash == h && e->op == op && e->width == w && e->val == val && e->a == a && e->b == b && e->c == c) return e;
      i = (i + 1) & m;
    }
    if (left < sizeof(Expr)) {
      left = sizeof(Expr) * 4096;
      chunk = (char *)malloc(left);
    }
    Expr *e = (Expr *)chunk;
    chunk += sizeof(Expr);
    left -= sizeof(Expr);
    e->op = op; e->width = (uint16_t)w; e->val = val; e->a = a; e->b = b; e->c = c; e->hash = h;
    e->id = (uint32_t)++count;
    e->undef = undefVar || (a && a->undef) || (b && b->undef) || (c && c->undef);
    table[i] = e;
    if (count * 2 > table.size()) grow();
    return e;
  }
  void grow() {
    std::vector<E> old;
    old.swap(table);
    table.assign(old.size() * 2, nullptr);
    size_t m = table.size() - 1;
    for (E e : old)
      if (e) {
        size_t i = e->hash & m;
        while (table[i]) i = (i + 1) & m;
        table[i] = e;
      }
  }
};
extern ExprPool g_pool;

inline E mkConst(uint64_t v, unsigned w) { return g_pool.get(Op::Const, w, v & maskw(w)); }
inline bool isC(E e) { return e->op == Op::Const; }
inline bool isC(E e, uint64_t v) { return e->op == Op::Const && e->val == (v & maskw(e->width)); }
E mkVar(unsigned idx);
E mkExtract(E x, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E x, unsigned w);
E mkSExt(E x, unsigned w);
E mkNot(E x);            // 1-bit
E mkBin(Op op, E a, E b);
E mkIte(E c, E t, E f);
E mkEq(E a, E b);
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline E mkAnd1(E a, E b) { return mkBin(Op::And, a, b); }
inline E mkOr1(E a, E b) { return mkBin(Op::Or, a, b); }
uint64_t constFold(Op op, uint64_t a, uint64_t b, unsigned w);
std::string exprStr(E e, int depth = 6);
