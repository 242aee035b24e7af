#include "expr.h"
#include <algorithm>

std::vector<VarInfo> g_vars;
ExprPool g_pool;

E mkVar(unsigned idx) {
  return g_pool.get(Op::Var, g_vars[idx].width, idx, nullptr, nullptr, nullptr, g_vars[idx].undef);
}

uint64_t constFold(Op op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w);
  switch (op) {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b ? (a / b) & m : m;
    case Op::URem: return b ? (a % b) & m : a;
    case Op::SDiv: {
      int64_t x = sx(a, w), y = sx(b, w);
      if (!y) return x < 0 ? 1 : m;
      if (y == -1) return (uint64_t)(0 - (uint64_t)x) & m;
      return (uint64_t)(x / y) & m;
    }
    case Op::SRem: {
      int64_t x = sx(a, w), y = sx(b, w);
      if (!y) return a;
      if (y == -1) return 0;
      return (uint64_t)(x % y) & m;
    }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << b) & m;
    case Op::LShr: return b >= w ? 0 : (a & m) >> b;
    case Op::AShr: return (uint64_t)(sx(a, w) >> (b >= w ? (w > 63 ? 63 : w - 1) : b)) & m;
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sx(a, w) < sx(b, w);
    case Op::Sle: return sx(a, w) <= sx(b, w);
    default: abort();
  }
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  assert(w <= 64);
  if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->width) | lo->val, w);
  // right-nested normal form
  if (hi->op == Op::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
  E nx = lo->op == Op::Concat ? lo->a : lo;
  E rest = lo->op == Op::Concat ? lo->b : nullptr;
  E merged = nullptr;
  if (isC(hi) && isC(nx)) merged = mkConst((hi->val << nx->width) | nx->val, hi->width + nx->width);
  else if (hi->op == Op::Extract && nx->op == Op::Extract && hi->a == nx->a && hi->val == nx->val + nx->width)
    merged = mkExtract(hi->a, (unsigned)nx->val, hi->width + nx->width);
  else if (hi->op == Op::Extract && (hi->a->op == Op::Add || hi->a->op == Op::Sub || hi->a->op == Op::Mul) && hi->val == nx->width &&
           mkExtract(hi->a, 0, nx->width) == nx)
    merged = mkExtract(hi->a, 0, hi->width + nx->width);  // low parts of sums are kept as sums of low parts
  if (merged) return rest ? mkConcat(merged, rest) : merged;
  return g_pool.get(Op::Concat, w, 0, hi, lo);
}

E mkExtract(E x, unsigned lo, unsigned w) {
  assert(lo + w <= x->width);
  if (lo == 0 && w == x->width) return x;
  switch (x->op) {
    case Op::Const: return mkConst(x->val >> lo, w);
    case Op::Extract: return mkExtract(x->a, (unsigned)x->val + lo, w);
    case Op::Concat: {
      unsigned lw = x->b->width;
      if (lo + w <= lw) return mkExtract(x->b, lo, w);
      if (lo >= lw) return mkExtract(x->a, lo - lw, w);
      return mkConcat(mkExtract(x->a, 0, lo + w - lw), mkExtract(x->b, lo, lw - lo));
    }
    case Op::Ite:
      if ((isC(x->b) || isC(x->c)) ) return mkIte(x->a, mkExtract(x->b, lo, w), mkExtract(x->c, lo, w));
      break;
    case Op::SExt: {
      unsigned iw = x->a->width;
      if (lo + w <= iw) return mkExtract(x->a, lo, w);
      if (lo == 0) return mkSExt(x->a, w);
      if (lo >= iw - 1) return mkSExt(mkExtract(x->a, iw - 1, 1), w);
      break;
    }
    case Op::And: case Op::Or: case Op::Xor:
      if (isC(x->b)) return mkBin(x->op, mkExtract(x->a, lo, w), mkExtract(x->b, lo, w));
      break;
    case Op::Add: case Op::Sub: case Op::Mul:
      // low bits of modular arithmetic only depend on low bits
      if (lo == 0) return mkBin(x->op, mkExtract(x->a, 0, w), mkExtract(x->b, 0, w));
      break;
    default: break;
  }
  return g_pool.get(Op::Extract, w, lo, x);
}

E mkZExt(E x, unsigned w) {
  if (x->width == w) return x;
  return mkConcat(mkConst(0, w - x->width), x);
}

E mkSExt(E x, unsigned w) {
  if (x->width == w) return x;
  if (isC(x)) return mkConst((uint64_t)sx(x->val, x->width), w);
  if (x->op == Op::Concat && isC(x->a) && !((x->a->val >> (x->a->width - 1)) & 1)) return mkZExt(x, w);
  if (x->op == Op::SExt) return mkSExt(x->a, w);
  if (x->op == Op::Ite && isC(x->b) && isC(x->c)) return mkIte(x->a, mkSExt(x->b, w), mkSExt(x->c, w));
  return g_pool.get(Op::SExt, w, 0, x);
}

E mkNot(E x) {
  assert(x->width == 1);
  if (isC(x)) return mkConst(!x->val, 1);
  if (x->op == Op::Xor && isC(x->b, 1)) return x->a;
  if (x->op == Op::Ult) return mkBin(Op::Ule, x->b, x->a);
  if (x->op == Op::Ule) return mkBin(Op::Ult, x->b, x->a);
  if (x->op == Op::Slt) return mkBin(Op::Sle, x->b, x->a);
  if (x->op == Op::Sle) return mkBin(Op::Slt, x->b, x->a);
  return g_pool.get(Op::Xor, 1, 0, x, mkConst(1, 1));
}

// --- segment view -----------------------------------------------------------
struct Seg { unsigned lo, w; E e; };  // e covers bits [lo, lo+w)
static void segs(E x, unsigned base, std::vector<Seg> &out) {
  while (x->op == Op::Concat) {
    segs(x->b, base, out);
    base += x->b->width;
    x = x->a;
  }
  out.push_back({base, x->width, x});
}
static void splitConst(std::vector<Seg> &v) {  // split constants in runs of equal bits
  std::vector<Seg> r;
  for (auto &s : v) {
    if (!isC(s.e)) { r.push_back(s); continue; }
    unsigned i = 0;
    while (i < s.w) {
      unsigned j = i;
      unsigned bit = (s.e->val >> i) & 1;
      while (j < s.w && ((s.e->val >> j) & 1) == bit) j++;
      r.push_back({s.lo + i, j - i, mkConst(bit ? ~0ull : 0, j - i)});
      i = j;
    }
  }
  v.swap(r);
}
static bool hasConstSeg(E x) {
  if (isC(x)) return true;
  while (x->op == Op::Concat) {
    if (isC(x->a) || isC(x->b)) return true;
    x = x->b;
  }
  return false;
}
static unsigned zerosTop(E x) {  // number of known-zero top bits
  if (isC(x)) {
    if (!x->val) return x->width;
    return (unsigned)__builtin_clzll(x->val) - (64 - x->width);
  }
  if (x->op == Op::Concat && isC(x->a)) {
    unsigned z = zerosTop(x->a);
    return z == x->a->width ? z + (x->a->width == z ? 0 : 0) : z;
  }
  if (x->op == Op::And) return std::max(zerosTop(x->a), zerosTop(x->b));
  if (x->op == Op::Ite) return std::min(zerosTop(x->b), zerosTop(x->c));
  if (x->op == Op::URem && isC(x->b) && x->b->val) return zerosTop(mkConst(x->b->val - 1, x->width));
  return 0;
}

// try to combine bitwise op segment-wise; returns null if it would not simplify
static E bitwiseSegs(Op op, E a, E b) {
  if (a->width == 1) return nullptr;
  if (!(hasConstSeg(a) || hasConstSeg(b))) return nullptr;
  std::vector<Seg> sa, sb;
  segs(a, 0, sa);
  segs(b, 0, sb);
  splitConst(sa);
  splitConst(sb);
  std::vector<unsigned> cuts;
  for (auto &s : sa) cuts.push_back(s.lo);
  for (auto &s : sb) cuts.push_back(s.lo);
  cuts.push_back(a->width);
  std::sort(cuts.begin(), cuts.end());
  cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  if (cuts.size() > 20) return nullptr;
  E res = nullptr;
  unsigned residual = 0;
  size_t ia = 0, ib = 0;
  for (size_t k = 0; k + 1 < cuts.size(); k++) {
    unsigned lo = cuts[k], w = cuts[k + 1] - lo;
    while (sa[ia].lo + sa[ia].w <= lo) ia++;
    while (sb[ib].lo + sb[ib].w <= lo) ib++;
    E xa = mkExtract(sa[ia].e, lo - sa[ia].lo, w), xb = mkExtract(sb[ib].e, lo - sb[ib].lo, w);
    E r = nullptr;
    for (int sw = 0; sw < 2 && !r; sw++) {
      E p = sw ? xb : xa, q = sw ? xa : xb;
      if (isC(p, 0)) r = op == Op::And ? p : q;
      else if (isC(p, ~0ull)) {
        if (op == Op::And) r = q;
        else if (op == Op::Or) r = p;
        else if (isC(q)) r = mkConst(~q->val, w);
      }
    }
    if (!r) {
      if (xa == xb) r = op == Op::Xor ? mkConst(0, w) : xa;
      else {
        if (w == a->width) return nullptr;
        residual++;
        if (residual > 1 ) return nullptr;
        r = mkBin(op, xa, xb);
      }
    }
    res = res ? mkConcat(r, res) : r;
  }
  return res;
}

static bool disjointBits(E a, E b) {  // no bit can be one in both
  std::vector<Seg> sa, sb;
  segs(a, 0, sa);
  segs(b, 0, sb);
  splitConst(sa);
  splitConst(sb);
  for (auto &s : sa) {
    if (isC(s.e, 0)) continue;
    for (auto &t : sb) {
      if (isC(t.e, 0)) continue;
      if (s.lo < t.lo + t.w && t.lo < s.lo + s.w) return false;
    }
  }
  return true;
}

static bool commut(Op op) {
  return op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq;
}

// a short sum in which two terms have no bit in common (the bytes of a word, added one by one): they are put together
static bool sumTerms(E e, std::vector<E> &t) {
  if (e->op == Op::Add) return sumTerms(e->a, t) && sumTerms(e->b, t);
  t.push_back(e);
  return t.size() <= 6;
}

static E joinParts(E a, E b) {
  std::vector<E> t;
  if (!sumTerms(a, t) || !sumTerms(b, t)) return nullptr;
  for (size_t i = 0; i < t.size(); i++) {
    if (!hasConstSeg(t[i])) continue;
    for (size_t j = i + 1; j < t.size(); j++) {
      if (!hasConstSeg(t[j]) || !disjointBits(t[i], t[j])) continue;
      E r = mkBin(Op::Or, t[i], t[j]);
      for (size_t k = 0; k < t.size(); k++) if (k != i && k != j) r = mkBin(Op::Add, r, t[k]);
      return r;
    }
  }
  return nullptr;
}

E mkEq(E a, E b) { return mkBin(Op::Eq, a, b); }

E mkBin(Op op, E a, E b) {
  assert(a->width == b->width);
  unsigned w = a->width;
  bool cmp = op == Op::Eq || op == Op::Ult || op == Op::Ule || op == Op::Slt || op == Op::Sle;
  unsigned rw = cmp ? 1 : w;
  if (isC(a) && isC(b)) return mkConst(constFold(op, a->val, b->val, w), rw);
  if (commut(op)) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  // push operations with a constant into ite of constants
  if (isC(b) && a->op == Op::Ite && isC(a->b) && isC(a->c) && op != Op::UDiv && op != Op::URem)
    return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
  if (isC(a) && b->op == Op::Ite && isC(b->b) && isC(b->c) && !commut(op))
    return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
  switch (op) {
    case Op::Add:
      if (isC(b, 0)) return a;
      if (isC(b) && a->op == Op::Concat) {  // the constant only touches a constant upper part
        unsigned k = (unsigned)__builtin_ctzll(b->val);
        if (k && k < w) {
          E hi = mkExtract(a, k, w - k);
          if (isC(hi)) return mkConcat(mkConst(hi->val + (b->val >> k), w - k), mkExtract(a, 0, k));
        }
      }
      if (isC(b) && a->op == Op::Add && isC(a->b)) return mkBin(Op::Add, a->a, mkBin(Op::Add, a->b, b));
      if (!isC(b) && a->op == Op::Add && isC(a->b)) return mkBin(Op::Add, mkBin(Op::Add, a->a, b), a->b);
      if (!isC(b) && b->op == Op::Add && isC(b->b)) return mkBin(Op::Add, mkBin(Op::Add, a, b->a), b->b);
      if (a->op == Op::Sub && a->b == b) return a->a;
      if (b->op == Op::Sub && b->b == a) return b->a;
      if ((hasConstSeg(a) && hasConstSeg(b)) && disjointBits(a, b)) return mkBin(Op::Or, a, b);
      if (!isC(b) && (a->op == Op::Add || b->op == Op::Add))
        if (E r = joinParts(a, b)) return r;
      break;
    case Op::Sub:
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(Op::Add, a, mkConst(0 - b->val, w));
      if (a->op == Op::Add && a->b == b) return a->a;
      if (a->op == Op::Add && a->a == b) return a->b;
      if (b->op == Op::Add && isC(b->b)) return mkBin(Op::Add, mkBin(Op::Sub, a, b->a), mkConst(0 - b->b->val, w));
      if (a->op == Op::Add && isC(a->b)) return mkBin(Op::Add, mkBin(Op::Sub, a->a, b), a->b);
      break;
    case Op::Mul:
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      if (isC(b) && (b->val & (b->val - 1)) == 0) return mkBin(Op::Shl, a, mkConst((uint64_t)__builtin_ctzll(b->val), w));
      if (isC(b) && a->op == Op::Mul && isC(a->b)) return mkBin(Op::Mul, a->a, mkBin(Op::Mul, a->b, b));
      break;
    case Op::UDiv:
      if (isC(b, 1)) return a;
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(Op::LShr, a, mkConst((uint64_t)__builtin_ctzll(b->val), w));
      break;
    case Op::URem:
      if (isC(b, 1)) return mkConst(0, w);
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(Op::And, a, mkConst(b->val - 1, w));
      break;
    case Op::And:
      if (a == b) return a;
      if (isC(b, 0)) return b;
      if (isC(b, ~0ull)) return a;
      if (w == 1 && (mkNot(a) == b)) return mkConst(0, 1);
      if (E r = bitwiseSegs(op, a, b)) return r;
      break;
    case Op::Or:
      if (a == b) return a;
      if (isC(b, 0)) return a;
      if (isC(b, ~0ull)) return b;
      if (w == 1 && (mkNot(a) == b)) return mkConst(1, 1);
      if (E r = bitwiseSegs(op, a, b)) return r;
      break;
    case Op::Xor:
      if (a == b) return mkConst(0, w);
      if (isC(b, 0)) return a;
      if (w == 1 && isC(b, 1)) return mkNot(a);
      if (isC(b) && a->op == Op::Xor && isC(a->b)) return mkBin(Op::Xor, a->a, mkConst(a->b->val ^ b->val, w));
      if (E r = bitwiseSegs(op, a, b)) return r;
      break;
    case Op::Shl:
      if (isC(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned k = (unsigned)b->val;
        return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k));
      }
      break;
    case Op::LShr:
      if (isC(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned k = (unsigned)b->val;
        return mkConcat(mkConst(0, k), mkExtract(a, k, w - k));
      }
      break;
    case Op::AShr:
      if (isC(b)) {
        if (b->val == 0) return a;
        unsigned k = b->val >= w ? w - 1 : (unsigned)b->val;
        return mkSExt(mkExtract(a, k, w - k), w);
      }
      break;
    case Op::Eq: {
      if (a == b) return mkTrue();
      if (w == 1) {
        if (isC(b)) return b->val ? a : mkNot(a);
      }
      if (isC(b)) {
        if (a->op == Op::Add && isC(a->b)) return mkEq(a->a, mkBin(Op::Sub, b, a->b));
        if (a->op == Op::Xor && isC(a->b)) return mkEq(a->a, mkBin(Op::Xor, b, a->b));
        if (a->op == Op::Sub && isC(a->a)) return mkEq(a->b, mkBin(Op::Sub, a->a, b));
        if (a->op == Op::Sub && b->val == 0) return mkEq(a->a, a->b);
        if (a->op == Op::Concat) {
          E hi = mkEq(a->a, mkExtract(b, a->b->width, a->a->width));
          if (isC(hi, 0)) return hi;
          return mkAnd1(hi, mkEq(a->b, mkExtract(b, 0, a->b->width)));
        }
        if (a->op == Op::SExt) {
          uint64_t t = b->val & maskw(a->a->width);
          if ((uint64_t)sx(t, a->a->width) == (uint64_t)sx(b->val, w)) return mkEq(a->a, mkConst(t, a->a->width));
          return mkFalse();
        }
        if (a->op == Op::Ite) {
          if (isC(a->b)) {
            if (a->b->val == b->val) return mkOr1(a->a, mkEq(a->c, b));
            return mkAnd1(mkNot(a->a), mkEq(a->c, b));
          }
          if (isC(a->c)) {
            if (a->c->val == b->val) return mkOr1(mkNot(a->a), mkEq(a->b, b));
            return mkAnd1(a->a, mkEq(a->b, b));
          }
        }
      } else {
        if (a->op == Op::Concat && b->op == Op::Concat && a->b->width == b->b->width) {
          E hi = mkEq(a->a, b->a);
          if (isC(hi, 0)) return hi;
          return mkAnd1(hi, mkEq(a->b, b->b));
        }
        if (a->op == Op::Add && isC(a->b) && b->op == Op::Add && isC(b->b))
          return mkEq(a->a, mkBin(Op::Add, b->a, mkBin(Op::Sub, b->b, a->b)));
        if (a->op == Op::Add && isC(a->b) && a->a == b) return mkFalse();
        if (b->op == Op::Add && isC(b->b) && b->a == a) return mkFalse();
        if (a->op == Op::SExt && b->op == Op::SExt && a->a->width == b->a->width) return mkEq(a->a, b->a);
      }
      break;
    }
    case Op::Ult: case Op::Ule: {
      if (a == b) return mkConst(op == Op::Ule, 1);
      if (op == Op::Ult) {
        if (isC(b, 0)) return mkFalse();
        if (isC(b, 1)) return mkEq(a, mkConst(0, w));
        if (isC(a, ~0ull)) return mkFalse();
        if (isC(a, 0)) return mkNot(mkEq(b, a));
      } else {
        if (isC(a, 0)) return mkTrue();
        if (isC(b, ~0ull)) return mkTrue();
        if (isC(b, 0)) return mkEq(a, b);
      }
      unsigned za = zerosTop(a), zb = zerosTop(b);
      if (isC(b) && za && zb < za) return mkTrue();   // a < 2^(w-za) <= b
      if (isC(a) && zb && za < zb) return mkFalse();  // a >= 2^(w-zb) > b
      unsigned z = std::min(za, zb);
      if (z > 0 && z < w && (a->op == Op::Concat || isC(a)) && (b->op == Op::Concat || isC(b)))
        return mkBin(op, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z));
      if (w == 1) {
        return op == Op::Ult ? mkAnd1(mkNot(a), b) : mkOr1(mkNot(a), b);
      }
      break;
    }
    case Op::Slt: case Op::Sle: {
      if (a == b) return mkConst(op == Op::Sle, 1);
      if (w > 1 && zerosTop(a) && zerosTop(b)) return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
      if (a->op == Op::SExt && b->op == Op::SExt && a->a->width == b->a->width) return mkBin(op, a->a, b->a);
      if (isC(b, 0) && op == Op::Slt) return mkExtract(a, w - 1, 1);
      if (isC(a, 0) && op == Op::Sle) return mkNot(mkExtract(b, w - 1, 1));
      if (isC(a, ~0ull) && op == Op::Slt) return mkNot(mkExtract(b, w - 1, 1));
      if (isC(b, ~0ull) && op == Op::Sle) return mkExtract(a, w - 1, 1);
      break;
    }
    default: break;
  }
  return g_pool.get(op, rw, 0, a, b);
}

E mkIte(E c, E t, E f) {
  assert(c->width == 1 && t->width == f->width);
  if (isC(c)) return c->val ? t : f;
  if (t == f) return t;
  if (c->op == Op::Xor && isC(c->b, 1)) return mkIte(c->a, f, t);
  if (t->width == 1) {
    if (isC(t, 1)) return mkOr1(c, f);
    if (isC(t, 0)) return mkAnd1(mkNot(c), f);
    if (isC(f, 1)) return mkOr1(mkNot(c), t);
    if (isC(f, 0)) return mkAnd1(c, t);
  }
  if (f->op == Op::Ite && f->a == c) return mkIte(c, t, f->c);
  if (t->op == Op::Ite && t->a == c) return mkIte(c, t->b, f);
  return g_pool.get(Op::Ite, t->width, 0, c, t, f);
}

std::string exprStr(E e, int depth) {
  static const char *names[] = {"const", "var", "+", "-", "*", "u/", "s/", "u%", "s%", "&", "|", "^", "<<", ">>", "a>>", "==", "u<", "u<=", "s<", "s<=", "ite", "concat", "extract", "sext"};
  char buf[64];
  if (e->op == Op::Const) { snprintf(buf, sizeof buf, "%llu:%u", (unsigned long long)e->val, e->width); return buf; }
  if (e->op == Op::Var) return g_vars[e->val].name;
  if (!depth) return "...";
  std::string s = std::string("(") + names[(int)e->op];
  if (e->op == Op::Extract) { snprintf(buf, sizeof buf, "[%u+%u]", (unsigned)e->val, e->width); s += buf; }
  for (E x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, depth - 1);
  return s + ")";
}
