#include "solver.h"
#include <algorithm>
#include <functional>
#include <chrono>
#include <map>
#include <z3.h>

SolverStats g_ss;
unsigned g_solver_timeout_ms = 180000;
FILE *g_smt_dump = nullptr;

// ---------------------------------------------------------------- evaluation
static std::vector<uint64_t> memoVal;
static std::vector<uint32_t> memoEp;
static uint32_t curEp = 0;

static uint64_t evalRec(E e, const Model &m) {
  if (e->op == Op::Const) return e->val;
  if (e->op == Op::Var) return m.get(e->val) & maskw(e->width);
  if (memoEp[e->id] == curEp) return memoVal[e->id];
  uint64_t r;
  switch (e->op) {
    case Op::Ite: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
    case Op::Concat: r = (evalRec(e->a, m) << e->b->width) | evalRec(e->b, m); break;
    case Op::Extract: r = (evalRec(e->a, m) >> e->val) & maskw(e->width); break;
    case Op::SExt: r = (uint64_t)sx(evalRec(e->a, m), e->a->width) & maskw(e->width); break;
    default: r = constFold(e->op, evalRec(e->a, m), evalRec(e->b, m), e->a->width) & maskw(e->width);
  }
  memoEp[e->id] = curEp;
  memoVal[e->id] = r;
  return r;
}
uint64_t evalModel(E e, const Model &m) {
  if (e->op == Op::Const) return e->val;
  if (e->op == Op::Var) return m.get(e->val) & maskw(e->width);
  if (memoEp.size() <= g_pool.count + 1) {
    size_t n = (g_pool.count + 1) * 2 + 1024;
    memoEp.resize(n, 0);
    memoVal.resize(n, 0);
  }
  if (++curEp == 0) {
    std::fill(memoEp.begin(), memoEp.end(), 0);
    curEp = 1;
  }
  return evalRec(e, m);
}

// ---------------------------------------------------------------- var sets
static std::vector<const std::vector<uint32_t> *> varSets;
const std::vector<uint32_t> &varsOf(E e) {
  if (varSets.size() <= e->id) varSets.resize((size_t)e->id * 2 + 1024, nullptr);
  if (varSets[e->id]) return *varSets[e->id];
  static const std::vector<uint32_t> empty;
  const std::vector<uint32_t> *res = &empty;
  if (e->op == Op::Var) res = new std::vector<uint32_t>{(uint32_t)e->val};
  else if (e->op != Op::Const) {
    E ch[3] = {e->a, e->b, e->c};
    for (E x : ch) {
      if (!x) continue;
      const std::vector<uint32_t> &vx = varsOf(x);
      if (vx.empty() || &vx == res) continue;
      if (res->empty()) { res = &vx; continue; }
      if (std::includes(res->begin(), res->end(), vx.begin(), vx.end())) continue;
      if (std::includes(vx.begin(), vx.end(), res->begin(), res->end())) { res = &vx; continue; }
      auto *u = new std::vector<uint32_t>();
      std::set_union(res->begin(), res->end(), vx.begin(), vx.end(), std::back_inserter(*u));
      res = u;
    }
  }
  if (varSets.size() <= e->id) varSets.resize((size_t)e->id * 2 + 1024, nullptr);
  varSets[e->id] = res;
  return *res;
}

// ---------------------------------------------------------------- z3
static Z3_context C;
static Z3_solver S;
static std::vector<Z3_ast> bvMemo, boolMemo;
static bool z3err = false;
static void onErr(Z3_context, Z3_error_code c) {
  z3err = true;
  (void)c;
}
static void initZ3() {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(C, onErr);
  S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  Z3_solver_inc_ref(C, S);
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_solver_timeout_ms);
  Z3_solver_set_params(C, S, p);
}
static Z3_ast zbool(E e);
static Z3_ast zbv(E e) {
  if (bvMemo.size() <= e->id) bvMemo.resize((size_t)e->id * 2 + 1024, nullptr);
  if (bvMemo[e->id]) return bvMemo[e->id];
  Z3_ast r;
  auto sort = [&](unsigned w) { return Z3_mk_bv_sort(C, w); };
  switch (e->op) {
    case Op::Const: r = Z3_mk_unsigned_int64(C, e->val, sort(e->width)); break;
    case Op::Var: {
      char nm[32];
      snprintf(nm, sizeof nm, "v%llu", (unsigned long long)e->val);
      r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), sort(e->width));
      break;
    }
    case Op::Add: r = Z3_mk_bvadd(C, zbv(e->a), zbv(e->b)); break;
    case Op::Sub: r = Z3_mk_bvsub(C, zbv(e->a), zbv(e->b)); break;
    case Op::Mul: r = Z3_mk_bvmul(C, zbv(e->a), zbv(e->b)); break;
    case Op::UDiv: r = Z3_mk_bvudiv(C, zbv(e->a), zbv(e->b)); break;
    case Op::SDiv: r = Z3_mk_bvsdiv(C, zbv(e->a), zbv(e->b)); break;
    case Op::URem: r = Z3_mk_bvurem(C, zbv(e->a), zbv(e->b)); break;
    case Op::SRem: r = Z3_mk_bvsrem(C, zbv(e->a), zbv(e->b)); break;
    case Op::Shl: r = Z3_mk_bvshl(C, zbv(e->a), zbv(e->b)); break;
    case Op::LShr: r = Z3_mk_bvlshr(C, zbv(e->a), zbv(e->b)); break;
    case Op::AShr: r = Z3_mk_bvashr(C, zbv(e->a), zbv(e->b)); break;
    case Op::Concat: r = Z3_mk_concat(C, zbv(e->a), zbv(e->b)); break;
    case Op::Extract: r = Z3_mk_extract(C, (unsigned)e->val + e->width - 1, (unsigned)e->val, zbv(e->a)); break;
    case Op::SExt: r = Z3_mk_sign_ext(C, e->width - e->a->width, zbv(e->a)); break;
    case Op::And: case Op::Or: case Op::Xor:
      if (e->width > 1) {
        Z3_ast x = zbv(e->a), y = zbv(e->b);
        r = e->op == Op::And ? Z3_mk_bvand(C, x, y) : e->op == Op::Or ? Z3_mk_bvor(C, x, y) : Z3_mk_bvxor(C, x, y);
        break;
      }
      // fallthrough
    case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle:
      r = Z3_mk_ite(C, zbool(e), Z3_mk_unsigned_int64(C, 1, sort(1)), Z3_mk_unsigned_int64(C, 0, sort(1)));
      break;
    case Op::Ite: r = Z3_mk_ite(C, zbool(e->a), zbv(e->b), zbv(e->c)); break;
    default: abort();
  }
  if (bvMemo.size() <= e->id) bvMemo.resize((size_t)e->id * 2 + 1024, nullptr);
  bvMemo[e->id] = r;
  return r;
}
static Z3_ast zbool(E e) {
  assert(e->width == 1);
  if (boolMemo.size() <= e->id) boolMemo.resize((size_t)e->id * 2 + 1024, nullptr);
  if (boolMemo[e->id]) return boolMemo[e->id];
  Z3_ast r;
  switch (e->op) {
    case Op::Const: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case Op::Eq:
      r = e->a->width == 1 ? Z3_mk_iff(C, zbool(e->a), zbool(e->b)) : Z3_mk_eq(C, zbv(e->a), zbv(e->b));
      break;
    case Op::Ult: r = Z3_mk_bvult(C, zbv(e->a), zbv(e->b)); break;
    case Op::Ule: r = Z3_mk_bvule(C, zbv(e->a), zbv(e->b)); break;
    case Op::Slt: r = Z3_mk_bvslt(C, zbv(e->a), zbv(e->b)); break;
    case Op::Sle: r = Z3_mk_bvsle(C, zbv(e->a), zbv(e->b)); break;
    case Op::And: case Op::Or: {
      Z3_ast ab[2] = {zbool(e->a), zbool(e->b)};
      r = e->op == Op::And ? Z3_mk_and(C, 2, ab) : Z3_mk_or(C, 2, ab);
      break;
    }
    case Op::Xor:
      r = isC(e->b, 1) ? Z3_mk_not(C, zbool(e->a)) : Z3_mk_xor(C, zbool(e->a), zbool(e->b));
      break;
    case Op::Ite: r = Z3_mk_ite(C, zbool(e->a), zbool(e->b), zbool(e->c)); break;
    default: r = Z3_mk_eq(C, zbv(e), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1))); break;
  }
  if (boolMemo.size() <= e->id) boolMemo.resize((size_t)e->id * 2 + 1024, nullptr);
  boolMemo[e->id] = r;
  return r;
}

// ---------------------------------------------------------------- slicing
static std::vector<uint32_t> varMark;
static uint32_t markEp = 0;

static void slice(const std::vector<E> &pcs, E q, std::vector<E> &out, std::vector<uint32_t> &vars) {
  if (varMark.size() < g_vars.size()) varMark.resize(g_vars.size() * 2 + 64, 0);
  if (++markEp == 0) { std::fill(varMark.begin(), varMark.end(), 0); markEp = 1; }
  auto add = [&](const std::vector<uint32_t> &vs) {
    for (uint32_t v : vs)
      if (varMark[v] != markEp) { varMark[v] = markEp; vars.push_back(v); }
  };
  add(varsOf(q));
  std::vector<char> taken(pcs.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = pcs.size(); i-- > 0;) {
      if (taken[i]) continue;
      const auto &vs = varsOf(pcs[i]);
      bool hit = false;
      for (uint32_t v : vs) if (varMark[v] == markEp) { hit = true; break; }
      if (!hit) continue;
      taken[i] = 1;
      size_t before = vars.size();
      add(vs);
      if (vars.size() != before) ch = true;
    }
  }
  for (size_t i = 0; i < pcs.size(); i++) if (taken[i]) out.push_back(pcs[i]);
}

// ---------------------------------------------------------------- linear integer encoding
// Exact translation of (modular) linear bit-vector arithmetic into integers: used for chains of
// multiplications by constants, where bit-blasting is slow. Anything non-linear makes it give up.
std::vector<DivDef> g_divs;
static Z3_solver SI;
static bool boundOf(E q, E &x, uint64_t &lo, uint64_t &hi);
typedef unsigned __int128 u128;
struct Lia {
  bool fail = false;
  // ranges: from the shape of an expression and from the constraints on it
  std::unordered_map<uint32_t, std::pair<uint64_t, uint64_t>> given, rm;
  void know(E q) {
    E x;
    uint64_t lo, hi;
    if (q->op == Op::And && q->width == 1) { know(q->a); know(q->b); return; }
    if (!boundOf(q, x, lo, hi)) return;
    auto it = given.find(x->id);
    if (it == given.end()) given[x->id] = {lo, hi};
    else { it->second.first = std::max(it->second.first, lo); it->second.second = std::min(it->second.second, hi); }
  }
  std::pair<uint64_t, uint64_t> rng(E e) {
    auto it = rm.find(e->id);
    if (it != rm.end()) return it->second;
    uint64_t mx = maskw(e->width), lo = 0, hi = mx;
    switch (e->op) {
      case Op::Const: lo = hi = e->val; break;
      case Op::Var:
        for (auto &d : g_divs) {  // the constraints that define these are always part of the question
          if (d.q == e) { auto a = rng(d.x), b = rng(d.c); hi = a.second / std::max<uint64_t>(b.first, 1); }
          if (d.r == e) { auto a = rng(d.x), b = rng(d.c); hi = std::min(a.second, b.second ? b.second - 1 : 0); }
        }
        break;
      case Op::Add: {
        auto a = rng(e->a), b = rng(e->b);
        u128 l = (u128)a.first + b.first, h = (u128)a.second + b.second;
        if (h <= mx) { lo = (uint64_t)l; hi = (uint64_t)h; }
        else if (l > mx) { lo = (uint64_t)l & mx; hi = (uint64_t)h & mx; }
        break;
      }
      case Op::Sub: {
        auto a = rng(e->a), b = rng(e->b);
        if (a.first >= b.second) { lo = a.first - b.second; hi = a.second - b.first; }
        break;
      }
      case Op::Mul: {
        auto a = rng(e->a), b = rng(e->b);
        if ((u128)a.second * b.second <= mx) { lo = a.first * b.first; hi = a.second * b.second; }
        break;
      }
      case Op::Concat: {
        auto a = rng(e->a), b = rng(e->b);
        lo = (a.first << e->b->width) | b.first;
        hi = (a.second << e->b->width) | b.second;
        break;
      }
      case Op::Extract: {
        auto a = rng(e->a);
        unsigned k = (unsigned)e->val;
        if (k + e->width >= 64 || (a.second >> (k + e->width)) == 0) { lo = a.first >> k; hi = a.second >> k; }
        break;
      }
      case Op::Ite: if (e->width > 1) {
        auto a = rng(e->b), b = rng(e->c);
        lo = std::min(a.first, b.first); hi = std::max(a.second, b.second);
        break;
      }
      default: break;
    }
    auto g = given.find(e->id);
    if (g != given.end()) { lo = std::max(lo, g->second.first); hi = std::min(hi, g->second.second); }
    if (lo > hi) { lo = 0; hi = mx; }  // contradictory: leave it to the solver
    return rm[e->id] = {lo, hi};
  }
  std::unordered_map<uint32_t, Z3_ast> im, bm;
  std::unordered_map<uint32_t, Z3_ast> vars;
  unsigned fresh = 0;
  Z3_sort is() { return Z3_mk_int_sort(C); }
  static std::string pow2(unsigned k) {  // 2^k, k <= 64
    if (k == 64) return "18446744073709551616";
    return std::to_string(1ull << k);
  }
  Z3_ast num(uint64_t v) { return Z3_mk_numeral(C, std::to_string(v).c_str(), is()); }
  Z3_ast p2(unsigned k) { return Z3_mk_numeral(C, pow2(k).c_str(), is()); }
  Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(C, 2, x); }
  Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(C, 2, x); }
  Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(C, 2, x); }
  void ass(Z3_ast a) { Z3_solver_assert(C, SI, a); }
  Z3_ast mk(Z3_ast below) {  // fresh 0 <= v < below
    char nm[32];
    snprintf(nm, sizeof nm, "k!%u", fresh++);
    Z3_ast v = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), is());
    ass(Z3_mk_le(C, num(0), v));
    ass(Z3_mk_lt(C, v, below));
    return v;
  }
  std::map<std::pair<uint32_t, unsigned>, Z3_ast> quots;
  Z3_ast quot(E x, unsigned k) {  // x / 2^k, one variable for each expression and position
    if (!k) return iv(x);
    if (k >= x->width || !(rng(x).second >> k)) return num(0);
    auto it = quots.find({x->id, k});
    if (it != quots.end()) return it->second;
    Z3_ast q = mk(num((rng(x).second >> k) + 1)), d = sub(iv(x), mul(p2(k), q));
    ass(Z3_mk_le(C, num(0), d));
    ass(Z3_mk_lt(C, d, p2(k)));
    return quots[{x->id, k}] = q;
  }
  Z3_ast iv(E e) {
    auto it = im.find(e->id);
    if (it != im.end()) return it->second;
    Z3_ast r = ivRec(e);
    im[e->id] = r;
    return r;
  }
  Z3_ast ivRec(E e) {
    if (fail) return num(0);
    unsigned w = e->width;
    switch (e->op) {
      case Op::Const: return num(e->val);
      case Op::Var: { Z3_ast v = mk(p2(w)); vars[(uint32_t)e->val] = v; return v; }
      case Op::Add: case Op::Sub: {
        if (w == 1) break;
        auto ra = rng(e->a), rb = rng(e->b);
        if (e->op == Op::Add && (u128)ra.second + rb.second <= maskw(w)) return add(iv(e->a), iv(e->b));
        if (e->op == Op::Add && (u128)ra.first + rb.first > maskw(w)) return sub(add(iv(e->a), iv(e->b)), p2(w));
        if (e->op == Op::Sub && ra.first >= rb.second) return sub(iv(e->a), iv(e->b));
        if (e->op == Op::Add && isC(e->b) && sx(e->b->val, w) < 0) {  // adding a negative constant
          Z3_ast k = mk(num(2));
          Z3_ast r = add(sub(iv(e->a), num((0 - e->b->val) & maskw(w))), mul(p2(w), k));
          ass(Z3_mk_le(C, num(0), r)); ass(Z3_mk_lt(C, r, p2(w)));
          return r;
        }
        Z3_ast k = mk(num(2));
        Z3_ast r = e->op == Op::Add ? sub(add(iv(e->a), iv(e->b)), mul(p2(w), k)) : add(sub(iv(e->a), iv(e->b)), mul(p2(w), k));
        ass(Z3_mk_le(C, num(0), r)); ass(Z3_mk_lt(C, r, p2(w)));
        return r;
      }
      case Op::Mul: {
        if (!isC(e->b)) { fail = true; return num(0); }
        if ((u128)rng(e->a).second * e->b->val <= maskw(w)) return mul(num(e->b->val), iv(e->a));
        Z3_ast k = mk(num(e->b->val));
        Z3_ast r = sub(mul(num(e->b->val), iv(e->a)), mul(p2(w), k));
        ass(Z3_mk_le(C, num(0), r)); ass(Z3_mk_lt(C, r, p2(w)));
        return r;
      }
      case Op::Concat: return add(mul(p2(e->b->width), iv(e->a)), iv(e->b));
      case Op::Extract: {
        unsigned lo = (unsigned)e->val, W = e->a->width;
        Z3_ast hi = quot(e->a, lo);
        if (lo + w >= W || !(rng(e->a).second >> (lo + w))) return hi;
        return sub(hi, mul(p2(w), quot(e->a, lo + w)));
      }
      case Op::SExt: {
        Z3_ast x = iv(e->a);
        unsigned aw = e->a->width;
        return Z3_mk_ite(C, Z3_mk_lt(C, x, p2(aw - 1)), x, add(x, sub(p2(w), p2(aw))));
      }
      case Op::Ite: if (w > 1) return Z3_mk_ite(C, bv(e->a), iv(e->b), iv(e->c)); break;
      default: break;
    }
    if (w == 1) return Z3_mk_ite(C, bv(e), num(1), num(0));
    fail = true;
    return num(0);
  }
  Z3_ast sgn(E e) {
    Z3_ast x = iv(e);
    auto r = rng(e);
    if (r.second < 1ull << (e->width - 1)) return x;
     return Z3_mk_ite(C, Z3_mk_lt(C, x, p2(e->width - 1)), x, sub(x, p2(e->width)));
  }
  Z3_ast bv(E e) {
    auto it = bm.find(e->id);
    if (it != bm.end()) return it->second;
    Z3_ast r;
    switch (e->op) {
      case Op::Const: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
      case Op::Eq: r = e->a->width == 1 ? Z3_mk_iff(C, bv(e->a), bv(e->b)) : Z3_mk_eq(C, iv(e->a), iv(e->b)); break;
      case Op::Ult: r = Z3_mk_lt(C, iv(e->a), iv(e->b)); break;
      case Op::Ule: r = Z3_mk_le(C, iv(e->a), iv(e->b)); break;
      case Op::Slt: r = Z3_mk_lt(C, sgn(e->a), sgn(e->b)); break;
      case Op::Sle: r = Z3_mk_le(C, sgn(e->a), sgn(e->b)); break;
      case Op::And: case Op::Or: { Z3_ast ab[2] = {bv(e->a), bv(e->b)}; r = e->op == Op::And ? Z3_mk_and(C, 2, ab) : Z3_mk_or(C, 2, ab); break; }
      case Op::Xor: r = isC(e->b, 1) ? Z3_mk_not(C, bv(e->a)) : Z3_mk_xor(C, bv(e->a), bv(e->b)); break;
      case Op::Ite: r = Z3_mk_ite(C, bv(e->a), bv(e->b), bv(e->c)); break;
      case Op::Var: case Op::Concat: case Op::Extract: case Op::SExt: r = Z3_mk_eq(C, e->op == Op::Var || e->op == Op::Extract ? iv(e) : iv(e), num(1)); break;
      default: fail = true; r = Z3_mk_true(C);
    }
    bm[e->id] = r;
    return r;
  }
};
// how much multiplication an expression contains: 1 by constants, 2 of two unknowns
static std::vector<uint8_t> mulMemo;
static uint8_t mulKind(E e) {
  if (e->op == Op::Const || e->op == Op::Var) return 0;
  if (mulMemo.size() <= e->id) mulMemo.resize((size_t)g_pool.count * 2 + 1024, 0);
  if (mulMemo[e->id]) return mulMemo[e->id] - 1;
  uint8_t r = 0;
  if (e->op == Op::Mul) r = isC(e->b) ? 1 : 2;
  if (e->op == Op::UDiv || e->op == Op::URem || e->op == Op::SDiv || e->op == Op::SRem) r = 2;
  for (E x : {e->a, e->b, e->c}) if (x) r = std::max(r, mulKind(x));
  mulMemo[e->id] = r + 1;
  return r;
}
static Res solveLIA(const std::vector<E> &sl, E q, const std::vector<uint32_t> &vars, unsigned ms, std::vector<std::pair<uint32_t, uint64_t>> &model) {
  if (!SI) {
    SI = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_LIA"));
    Z3_solver_inc_ref(C, SI);
  }
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
  Z3_solver_set_params(C, SI, p);
  Z3_params_dec_ref(C, p);
  Z3_solver_reset(C, SI);
  Lia L;
  for (E e : sl) L.know(e);
  L.know(q);
  for (E e : sl) { Z3_ast a = L.bv(e); if (L.fail) return Res::Unknown; L.ass(a); }
  Z3_ast a = L.bv(q);
  if (L.fail) return Res::Unknown;
  L.ass(a);
  Z3_lbool r = Z3_solver_check(C, SI);
  if (r == Z3_L_UNDEF && getenv("LSX_LIA_DUMP")) { FILE *f = fopen(getenv("LSX_LIA_DUMP"), "w"); fprintf(f, "(set-logic QF_LIA)\n%s(check-sat)\n", Z3_solver_to_string(C, SI)); fclose(f); }
  if (z3err) { z3err = false; return Res::Unknown; }
  if (r == Z3_L_FALSE) return Res::Unsat;
  if (r != Z3_L_TRUE) return Res::Unknown;
  Z3_model m = Z3_solver_get_model(C, SI);
  Z3_model_inc_ref(C, m);
  for (uint32_t v : vars) {
    auto it = L.vars.find(v);
    Z3_ast val = nullptr;
    uint64_t u = 0;
    if (it != L.vars.end() && Z3_model_eval(C, m, it->second, true, &val) && val) Z3_get_numeral_uint64(C, val, &u);
    model.push_back({v, u});
  }
  Z3_model_dec_ref(C, m);
  return Res::Sat;
}

// unsigned bounds the constraints put on an expression directly; true when they contradict the question
static bool boundOf(E q, E &x, uint64_t &lo, uint64_t &hi) {
  bool neg = false;
  if (q->op == Op::Xor && q->width == 1 && isC(q->b, 1)) { neg = true; q = q->a; }
  if (q->op != Op::Ult && q->op != Op::Ule && !(q->op == Op::Eq && !neg)) return false;
  uint64_t mx = maskw(q->a->width);
  lo = 0; hi = mx;
  if (q->op == Op::Eq) {
    if (!isC(q->b) && !isC(q->a)) return false;
    x = isC(q->b) ? q->a : q->b;
    lo = hi = isC(q->b) ? q->b->val : q->a->val;
    return true;
  }
  bool le = q->op == Op::Ule;
  if (isC(q->b)) {
    x = q->a;
    uint64_t c = q->b->val;
    if (!neg) { if (!le && !c) return false; hi = le ? c : c - 1; }
    else { if (le && c == mx) return false; lo = le ? c + 1 : c; }
    return true;
  }
  if (isC(q->a)) {
    x = q->b;
    uint64_t c = q->a->val;
    if (!neg) { if (!le && c == mx) return false; lo = le ? c : c + 1; }
    else { if (le && !c) return false; hi = le ? c - 1 : c; }
    return true;
  }
  return false;
}
static bool rangeRefutes(const std::vector<E> &pcs, E q) {
  E x, y;
  uint64_t lo, hi, l, h;
  if (!boundOf(q, x, lo, hi)) return false;
  for (E e : pcs)
    if (boundOf(e, y, l, h) && x == y) {
      lo = std::max(lo, l);
      hi = std::min(hi, h);
      if (lo > hi) return true;
    }
  return false;
}

// Products are the same when their factors are: equal factors are found by evaluation on a few inputs, shown
// equal one after the other from the inputs on, and the products then stand for themselves as unknowns. True
// when the question has no solution even so.
static bool valid(E eq, unsigned ms) {
  Z3_solver_reset(C, S);
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
  Z3_solver_set_params(C, S, p);
  Z3_params_dec_ref(C, p);
  Z3_solver_assert(C, S, zbool(mkNot(eq)));
  g_ss.z3++;
  Z3_lbool r = Z3_solver_check(C, S);
  if (z3err) { z3err = false; return false; }
  return r == Z3_L_FALSE;
}
static bool sweep(const std::vector<E> &sl, E q, const std::vector<uint32_t> &vars, unsigned slow = 1) {
  std::map<uint32_t, E> nodes;
  std::vector<E> todo(sl.begin(), sl.end());
  todo.push_back(q);
  unsigned muls = 0;
  std::map<uint32_t, bool> factor;
  while (!todo.empty()) {
    E e = todo.back();
    todo.pop_back();
    if (!nodes.emplace(e->id, e).second) continue;
    if (e->op == Op::Mul) {
      muls++;
      for (E x : {e->a, e->b}) if (!isC(x)) factor[x->id] = true;
    }
    for (E x : {e->a, e->b, e->c}) if (x) todo.push_back(x);
    if (nodes.size() > 20000) return false;
  }
  if (muls < 2 || muls > 2000) return false;
  const int K = 4;
  std::vector<Model> ms(K);
  uint64_t seed = 88172645463325252ull;
  for (auto &m : ms) {
    for (uint32_t v : vars) {
      seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17;
      if (m.v.size() <= v) m.v.resize(v + 1, 0);
      m.v[v] = seed & maskw(g_vars[v].width);
    }
  }
  std::unordered_map<uint32_t, E> N;
  std::map<std::vector<uint64_t>, std::vector<E>> classes;
  std::map<std::pair<uint32_t, uint32_t>, E> prod;
  unsigned tried = 0;
  for (auto &kv : nodes) {  // operands come before what is built from them
    E e = kv.second, r;
    switch (e->op) {
      case Op::Const: case Op::Var: r = e; break;
      case Op::Ite: r = mkIte(N[e->a->id], N[e->b->id], N[e->c->id]); break;
      case Op::Concat: r = mkConcat(N[e->a->id], N[e->b->id]); break;
      case Op::Extract: r = mkExtract(N[e->a->id], (unsigned)e->val, e->width); break;
      case Op::SExt: r = mkSExt(N[e->a->id], e->width); break;
      case Op::Mul: {
        E a = N[e->a->id], b = N[e->b->id];
        if (!isC(b) && (isC(a) || a->id > b->id)) std::swap(a, b);
        E &f = prod[{a->id, b->id}];
        if (!f) {
          g_vars.push_back({"product", e->width, false});
          f = mkVar((unsigned)g_vars.size() - 1);
        }
        r = f;
        break;
      }
      default: r = mkBin(e->op, N[e->a->id], N[e->b->id]);
    }
    if (factor.count(e->id) && e->width > 1) {
      std::vector<uint64_t> sig{e->width};
      for (auto &m : ms) sig.push_back(evalModel(e, m));
      auto &cl = classes[sig];
      bool found = false;
      for (E c : cl) {
        if (c == r) { found = true; break; }
        if (tried++ > 400) return false;
        if (valid(mkEq(c, r), 1500 * slow)) { r = c; found = true; break; }
      }
      if (!found) cl.push_back(r);
    }
    N[e->id] = r;
  }
  E all = N[q->id];
  for (E e : sl) all = mkAnd1(all, N[e->id]);
  return valid(mkNot(all), 5000 * slow);
}

// Large questions whose answer depends on what is near the top only (two long computations that differ in their last
// steps): what lies deeper than k steps stands for itself as an unknown. True when there is no solution even so.
static bool cut(E q) {
  std::unordered_map<uint32_t, unsigned> dist;
  std::vector<E> order{q};
  dist[q->id] = 0;
  for (size_t i = 0; i < order.size(); i++) {
    const unsigned d = dist[order[i]->id] + 1;
    for (E x : {order[i]->a, order[i]->b, order[i]->c}) if (x && dist.emplace(x->id, d).second) order.push_back(x);
  }
  if (order.size() < 400) return false;
  for (unsigned k : {12u, 24u, 48u}) {
    size_t near = 0;
    while (near < order.size() && dist[order[near]->id] < k) near++;
    if (near > 1500 || near == order.size()) return false;
    std::unordered_map<uint32_t, E> N;
    std::function<E(E)> make = [&](E e) -> E {
      if (e->op == Op::Const || e->op == Op::Var) return e;
      E &m = N[e->id];
      if (m) return m;
      E r;
      if (dist[e->id] >= k) {
        g_vars.push_back({"deep", e->width, false});
        r = mkVar((unsigned)g_vars.size() - 1);
      } else {
        E a = e->a ? make(e->a) : nullptr, b = e->b ? make(e->b) : nullptr;
        switch (e->op) {
          case Op::Ite: r = mkIte(a, b, make(e->c)); break;
          case Op::Concat: r = mkConcat(a, b); break;
          case Op::Extract: r = mkExtract(a, (unsigned)e->val, e->width); break;
          case Op::SExt: r = mkSExt(a, e->width); break;
          default: r = mkBin(e->op, a, b);
        }
      }
      return N[e->id] = r;
    };
    E c = make(q);
    if (valid(mkNot(c), 1500)) return true;
  }
  return false;
}

struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<std::string, CacheEnt> qcache;

static ModelP patch(ModelP base, const std::vector<std::pair<uint32_t, uint64_t>> &m) {
  auto n = std::make_shared<Model>(base ? *base : Model());
  for (auto &p : m) {
    if (n->v.size() <= p.first) n->v.resize(p.first + 1, 0);
    n->v[p.first] = p.second;
  }
  return n;
}

Res solve(const std::vector<E> &pcs, E q, ModelP base, ModelP *out) {
  g_ss.queries++;
  if (isC(q, 0)) return Res::Unsat;
  if (base && evalModel(q, *base)) {
    g_ss.modelHits++;
    if (out) *out = base;
    return Res::Sat;
  }
  if (isC(q) && base) { if (out) *out = base; return Res::Sat; }
  {
    E nq = mkNot(q);
    for (E e : pcs) if (e == nq) return Res::Unsat;
    if (rangeRefutes(pcs, q)) return Res::Unsat;
  }
  std::vector<E> sl;
  std::vector<uint32_t> vars;
  if (base) slice(pcs, q, sl, vars);
  else {
    sl = pcs;
    std::vector<uint32_t> all;
    for (E e : pcs) all.insert(all.end(), varsOf(e).begin(), varsOf(e).end());
    all.insert(all.end(), varsOf(q).begin(), varsOf(q).end());
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());
    vars = all;
  }
  std::vector<uint32_t> ids;
  for (E e : sl) ids.push_back(e->id);
  std::sort(ids.begin(), ids.end());
  ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  ids.push_back(q->id);
  std::string key((const char *)ids.data(), ids.size() * 4);
  auto it = qcache.find(key);
  if (it != qcache.end()) {
    g_ss.cacheHits++;
    if (it->second.r == Res::Sat && out) *out = patch(base, it->second.m);
    return it->second.r;
  }
  if (!C) initZ3();
  auto t0 = std::chrono::steady_clock::now();
  CacheEnt ce;
  ce.r = Res::Unknown;
  auto holds = [&](const ModelP &nm) {
    if (!evalModel(q, *nm)) return false;
    for (E e : sl) if (!evalModel(e, *nm)) return false;
    return true;
  };
  if (cut(q)) {
    const double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_ss.z3time += dt;
    if (dt > g_ss.maxq) g_ss.maxq = dt;
    g_ss.unsat++;
    ce.r = Res::Unsat;
    qcache.emplace(std::move(key), std::move(ce));
    return Res::Unsat;
  }
  uint8_t kind = mulKind(q);
  for (E e : sl) kind = std::max(kind, mulKind(e));
  // bit-vector query over the given constraints
  auto bitvec = [&](const std::vector<E> &cs, unsigned ms, std::vector<std::pair<uint32_t, uint64_t>> &mod) -> Res {
    Z3_solver_reset(C, S);
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
    Z3_solver_set_params(C, S, p);
    Z3_params_dec_ref(C, p);
    for (E e : cs) Z3_solver_assert(C, S, zbool(e));
    Z3_solver_assert(C, S, zbool(q));
    Z3_lbool r = Z3_solver_check(C, S);
    g_ss.z3++;
    if (z3err) { z3err = false; return Res::Unknown; }
    if (r == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(C, S);
      Z3_model_inc_ref(C, m);
      for (uint32_t v : vars) {
        Z3_ast val = nullptr;
        uint64_t u = 0;
        E ve = mkVar(v);
        if (Z3_model_eval(C, m, zbv(ve), true, &val) && val) Z3_get_numeral_uint64(C, val, &u);
        mod.push_back({v, u & maskw(ve->width)});
      }
      Z3_model_dec_ref(C, m);
      return Res::Sat;
    }
    return r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
  };
  ModelP nm;
  bool dumped = false;
  auto dump = [&]() {
    if (g_smt_dump && ce.r != Res::Unknown) fprintf(g_smt_dump, ";;BEGIN %s\n%s(check-sat)\n", ce.r == Res::Sat ? "sat" : "unsat", Z3_solver_to_string(C, S));
    dumped = true;
  };
  if (kind == 2) {
    // leave the products of unknowns out first: without them unsatisfiable means unsatisfiable, and a model is
    // completed by recomputing quotients and remainders from their definition
    std::vector<E> light;
    for (E e : sl) if (mulKind(e) < 2) light.push_back(e);
    if (light.size() != sl.size() && mulKind(q) < 2) {
      std::vector<std::pair<uint32_t, uint64_t>> mod;
      Res r = bitvec(light, 20000, mod);
      if (r == Res::Unsat) { ce.r = r; dump(); }
      else if (r == Res::Sat) {
        ModelP c = patch(base, mod);
        for (auto &d : g_divs) {
          uint64_t dv = evalModel(d.c, *c);
          if (!dv) continue;
          uint64_t xv = evalModel(d.x, *c);
          c = patch(c, {{(uint32_t)d.q->val, xv / dv}, {(uint32_t)d.r->val, xv % dv}});
        }
        if (holds(c)) {
          ce.r = Res::Sat;
          nm = c;
          for (uint32_t v : vars) ce.m.push_back({v, c->get(v)});
          for (auto &d : g_divs) { ce.m.push_back({(uint32_t)d.q->val, c->get(d.q->val)}); ce.m.push_back({(uint32_t)d.r->val, c->get(d.r->val)}); }
        }
      }
    }
  }
  if (ce.r == Res::Unknown && kind == 1) {
    std::vector<std::pair<uint32_t, uint64_t>> mod;
    Res r = solveLIA(sl, q, vars, 15000, mod);
    if (r != Res::Unknown) g_ss.z3++;
    if (r == Res::Sat) {
      nm = patch(base, mod);
      if (holds(nm)) { ce.r = r; ce.m = mod; }
    } else if (r == Res::Unsat) ce.r = r;
  }
  if (ce.r == Res::Unknown) {
    std::vector<std::pair<uint32_t, uint64_t>> mod;
    if (kind) {
      ce.r = bitvec(sl, 400, mod);
      if (ce.r == Res::Unknown) {
        auto known = vars;
        if (sweep(sl, q, known)) ce.r = Res::Unsat;
      }
      // once more with more time each, for a machine that has other work
      if (ce.r == Res::Unknown) ce.r = bitvec(sl, 15000, mod);
      if (ce.r == Res::Unknown && kind == 1) {
        Res r = solveLIA(sl, q, vars, 60000, mod);
        if (r == Res::Unsat) ce.r = r;
        else if (r == Res::Sat && holds(patch(base, mod))) ce.r = r;
      }
      if (ce.r == Res::Unknown) {
        auto known = vars;
        if (sweep(sl, q, known, 8)) ce.r = Res::Unsat;
      }
    }
    if (ce.r == Res::Unknown) ce.r = bitvec(sl, g_solver_timeout_ms, mod);
    if (ce.r == Res::Sat) {
      nm = patch(base, mod);
      // the answer is checked against our own evaluator: a disagreement is an engine error
      if (!holds(nm)) { fprintf(stderr, "lsx: model check failed\n"); ce.r = Res::Unknown; }
      ce.m = mod;
    }
    dump();
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.z3time += dt;
  if (dt > g_ss.maxq) g_ss.maxq = dt;
  if (ce.r == Res::Sat) { g_ss.sat++; if (out) *out = nm; }
  else if (ce.r == Res::Unsat) g_ss.unsat++;
  else g_ss.unknown++;
  Res rr = ce.r;
  if (rr != Res::Unknown) qcache.emplace(std::move(key), std::move(ce));
  return rr;
}

static unsigned freshUndef = 0;
static E renameRec(E e, std::unordered_map<uint32_t, E> &memo) {
  if (!e->undef) return e;
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  E r;
  switch (e->op) {
    case Op::Var: {
      g_vars.push_back({"undef'" + std::to_string(freshUndef++), e->width, true});
      r = mkVar((unsigned)g_vars.size() - 1);
      break;
    }
    case Op::Ite: r = mkIte(renameRec(e->a, memo), renameRec(e->b, memo), renameRec(e->c, memo)); break;
    case Op::Concat: r = mkConcat(renameRec(e->a, memo), renameRec(e->b, memo)); break;
    case Op::Extract: r = mkExtract(renameRec(e->a, memo), (unsigned)e->val, e->width); break;
    case Op::SExt: r = mkSExt(renameRec(e->a, memo), e->width); break;
    default: r = mkBin(e->op, renameRec(e->a, memo), renameRec(e->b, memo));
  }
  memo[e->id] = r;
  return r;
}
E renameUndef(E e) {
  std::unordered_map<uint32_t, E> memo;
  return renameRec(e, memo);
}
