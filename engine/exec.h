// Execution of compiled functions over symbolic states.
struct PathEnd { int why; };  // 0 completed, 1 infeasible, 2 pruned, 3 violation, 4 inconclusive

static std::vector<State *> work;
static bool g_inconclusive = false;
static std::vector<std::string> g_why;
static std::set<std::string> g_covers;
static uint64_t nCompleted, nInfeasible, nPruned, nViol, nForks, nTotSteps, nIncPaths, nBranchQ, nAsserts, nSchedPts, nMaxDepth, nUndefChecks, nBoundsQ;
struct Violation { std::string kind, msg, file; std::vector<std::string> stack; };
static std::vector<Violation> g_viol;
static std::chrono::steady_clock::time_point g_t0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }
static uint64_t rng = 88172645463325252ull;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

static void inconclusive(const std::string &why) {
  g_inconclusive = true;
  for (auto &w : g_why) if (w == why) return;
  if (g_why.size() < 20) g_why.push_back(why);
}
static std::string locOf(const Instruction *I) {
  std::string r;
  if (!I) return "?";
  if (I->getFunction()) r = I->getFunction()->getName().str();
  if (auto dl = I->getDebugLoc()) {
    r += " " + dl->getFilename().str() + ":" + std::to_string(dl.getLine());
  }
  return r;
}
static std::vector<std::string> stackOf(State &s, unsigned tid) {
  std::vector<std::string> r;
  Thread &t = s.th[tid];
  for (size_t i = t.frames.size(); i-- > 0 && r.size() < 24;) {
    Frame &f = t.frames[i];
    r.push_back(locOf(f.f->code[f.pc].I));
  }
  return r;
}
static int dumpCounter = 0;
static uint64_t obsHash(State &s, const Model &m) {
  uint64_t h = 1469598103934665603ull;
  for (auto &o : s.obs) {
    uint64_t v = o.first.e ? evalModel(o.first.e, m) : o.first.c;
    h = (h ^ v) * 1099511628211ull;
    h ^= h >> 29;
  }
  return h;
}
static std::string dumpState(State &s, const Model &m, const std::string &kind, const std::string &msg, const char *prefix) {
  std::string fn = optCexDir + "/" + prefix + std::to_string(dumpCounter++) + ".txt";
  FILE *f = fopen(fn.c_str(), "w");
  if (!f) return fn;
  std::string m1 = msg;
  for (auto &c : m1) if (c == '\n') c = ' ';
  fprintf(f, "kind %s\nmsg %s\n", kind.c_str(), m1.c_str());
  for (auto &p : optParams) fprintf(f, "param %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
  for (auto &p : s.syms) {
    VarInfo &vi = g_vars[p.second];
    fprintf(f, "sym %s %u %llx\n", p.first.c_str(), vi.width, (unsigned long long)(m.get(p.second) & maskw(vi.width)));
  }
  if (!s.sched.empty()) {
    fprintf(f, "sched");
    for (auto t : s.sched) fprintf(f, " %u", t);
    fprintf(f, "\n");
  }
  fprintf(f, "obs %zu %llx\n", s.obs.size(), (unsigned long long)obsHash(s, m));
  fclose(f);
  return fn;
}
[[noreturn]] static void violate(State &s, const std::string &kind, const std::string &msg, ModelP m = nullptr) {
  Violation v;
  v.kind = kind;
  v.msg = msg;
  v.stack = stackOf(s, s.cur);
  v.file = dumpState(s, m ? *m : *s.model, kind, msg, "cex-");
  {
    FILE *f = fopen(v.file.c_str(), "a");
    if (f) { for (auto &x : v.stack) fprintf(f, "stack %s\n", x.c_str()); fclose(f); }
  }
  g_viol.push_back(v);
  nViol++;
  throw PathEnd{3};
}
[[noreturn]] static void unsupported(State &s, const std::string &what) {
  std::string l = s.th[s.cur].frames.empty() ? "" : locOf(s.th[s.cur].frames.back().f->code[s.th[s.cur].frames.back().pc].I);
  inconclusive("unsupported: " + what + " at " + l);
  throw PathEnd{4};
}

// ------------------------------------------------------------------ constraints
static void addPC(State &s, E c) {
  if (isC(c)) return;
  if (c->op == XOp::And) { addPC(s, c->a); addPC(s, c->b); return; }
  for (E x : s.pcs) if (x == c) return;
  s.pcs.push_back(c);
}
static std::map<const Instruction *, uint64_t> forkSites;
static State *forkState(State &s) {
  if (!s.th[s.cur].frames.empty()) { auto &fr = s.th[s.cur].frames.back(); forkSites[fr.f->code[fr.pc].I]++; }
  State *n = new State(s);
  n->depth++;
  s.depth++;
  if (s.depth > nMaxDepth) nMaxDepth = s.depth;
  nForks++;
  work.push_back(n);
  return n;
}
static Res ask(State &s, E q, ModelP *m) {
  Res r = solve(s.pcs, q, s.model, m);
  if (r == Res::Unknown) inconclusive("solver returned unknown");
  return r;
}
static void checkUndef(State &s, E e, const char *what) {
  if (!e->undef) return;
  nUndefChecks++;
  E r = renameUndef(e);
  E d = mkNot(mkEq(e, r));
  ModelP m;
  if (!isC(d, 0) && ask(s, d, &m) == Res::Sat) violate(s, "uninit", std::string("use of an uninitialised value in ") + what, m);
}
// fix the value of an expression on this path, forking for every other feasible value
static uint64_t conc(State &s, const Val &v, unsigned w, const char *what = "value") {
  if (!v.e) return v.c;
  auto it = s.subst.find(v.e->id);
  if (it != s.subst.end()) return it->second;
  checkUndef(s, v.e, what);
  uint64_t x = evalModel(v.e, *s.model);
  E eq = mkEq(v.e, mkConst(x, w));
  E ne = mkNot(eq);
  ModelP m;
  if (!isC(ne, 0) && ask(s, ne, &m) == Res::Sat) {
    State *n = forkState(s);
    addPC(*n, ne);
    n->model = m;
  }
  addPC(s, eq);
  s.subst[v.e->id] = x;
  return x;
}
// decide a 1-bit condition; forks the other outcome (which re-executes the instruction)
static bool decide(State &s, const Val &v, const char *what) { return conc(s, v, 1, what) != 0; }
static void assumeE(State &s, const Val &v) {
  if (!v.e) { if (!v.c) throw PathEnd{1}; return; }
  auto it = s.subst.find(v.e->id);
  if (it != s.subst.end()) { if (!it->second) throw PathEnd{1}; return; }
  if (evalModel(v.e, *s.model)) { addPC(s, v.e); return; }
  ModelP m;
  Res r = ask(s, v.e, &m);
  if (r != Res::Sat) throw PathEnd{r == Res::Unsat ? 1 : 4};
  addPC(s, v.e);
  s.model = m;
}

// ------------------------------------------------------------------ memory
static inline uint32_t slotOf(uint64_t a) { return (uint32_t)((a - HEAP_BASE) >> SLOT_BITS); }
static Obj *objAt(State &s, uint64_t addr) {
  if (addr < HEAP_BASE) return nullptr;
  uint64_t sl = (addr - HEAP_BASE) >> SLOT_BITS;
  if (sl >= s.nslots) return nullptr;
  Obj *o = s.chunks[sl / CH]->o[sl % CH].p;
  if (o && o->kind == OK_Global && o->size == 0 && o->base != 0 && slotOf(o->base) != sl) {  // continuation slot
    uint32_t p = slotOf(o->base);
    return s.chunks[p / CH]->o[p % CH].p;
  }
  return o;
}
static Obj *wobj(State &s, Obj *o) {
  uint32_t sl = slotOf(o->base);
  Chunk *c = s.chunks[sl / CH].mut();
  return c->o[sl % CH].mut();
}
static uint32_t newSlot(State &s) {
  uint32_t sl = s.nslots++;
  if (sl / CH >= s.chunks.size()) s.chunks.push_back(Ref<Chunk>(new Chunk()));
  return sl;
}
static Obj *allocObj(State &s, uint64_t size, ObjKind kind, unsigned align = 16) {
  uint32_t sl;
  uint64_t need = (size + 64) >> SLOT_BITS;
  if (size > MAX_OBJ) unsupported(s, "object larger than 64 GB");
  if (kind == OK_Stack && need == 0 && !s.freeStack.empty()) { sl = s.freeStack.back(); s.freeStack.pop_back(); }
  else sl = newSlot(s);
  Obj *o = new Obj();
  o->base = HEAP_BASE + ((uint64_t)sl << SLOT_BITS) + 64;
  if (align <= 16 && (sl & 1)) o->base += 16;
  o->size = size;
  o->kind = kind;
  o->pages.resize((size + PS - 1) / PS);
  s.chunks[sl / CH].mut()->o[sl % CH] = Ref<Obj>(o);
  for (uint64_t i = 0; i < need; i++) {
    uint32_t s2 = newSlot(s);
    Obj *r = new Obj();
    r->base = o->base;
    r->kind = OK_Global;
    s.chunks[s2 / CH].mut()->o[s2 % CH] = Ref<Obj>(r);
  }
  return o;
}
static Page *wpage(Obj *o, uint64_t pi) {
  Ref<Page> &p = o->pages.mut(pi);
  if (!p) {
    Page *n = new Page();
    memset(n->d, 0, PS);
    if (!o->zero) { n->sym = new E[PS]; for (unsigned i = 0; i < PS; i++) n->sym[i] = UNINIT; }
    p = Ref<Page>(n);
    return n;
  }
  return p.mut();
}
static E byteExpr(State &s, Obj *&o, uint64_t off) {  // may materialise an uninitialised cell
  const Ref<Page> &p = o->pages[off / PS];
  unsigned i = off % PS;
  if (!p) {
    if (o->zero) return mkConst(0, 8);
  } else if (!p->sym || !p->sym[i]) return mkConst(p->d[i], 8);
  else if (p->sym[i] != UNINIT) return p->sym[i];
  o = wobj(s, o);
  Page *w = wpage(o, off / PS);
  Val u = freshUndef(8);
  w->sym[i] = u.e;
  return u.e;
}
static Val readN(State &s, Obj *o, uint64_t off, unsigned n) {
  unsigned i = off % PS;
  if (i + n <= PS) {
    const Ref<Page> &p = o->pages[off / PS];
    if (p && !p->sym) { uint64_t r = 0; memcpy(&r, p->d + i, n); return Val(r); }
    if (!p && o->zero) return Val((uint64_t)0);
    if (p) {
      bool any = false;
      for (unsigned k = 0; k < n; k++) if (p->sym[i + k]) { any = true; break; }
      if (!any) { uint64_t r = 0; memcpy(&r, p->d + i, n); return Val(r); }
    }
  }
  E r = nullptr;
  for (unsigned k = 0; k < n; k++) {
    E b = byteExpr(s, o, off + k);
    r = r ? mkConcat(b, r) : b;
  }
  return Val(r);
}
static void writeN(State &s, Obj *o, uint64_t off, unsigned n, const Val &v) {  // o must be writable (wobj)
  for (unsigned k = 0; k < n;) {
    uint64_t pi = (off + k) / PS;
    unsigned i = (off + k) % PS, cnt = std::min(n - k, PS - i);
    Page *p = wpage(o, pi);
    for (unsigned j = 0; j < cnt; j++) {
      if (!v.e) {
        p->d[i + j] = (uint8_t)(v.c >> (8 * (k + j)));
        if (p->sym) p->sym[i + j] = nullptr;
      } else {
        E b = mkExtract(v.e, 8 * (k + j), 8);
        if (isC(b)) { p->d[i + j] = (uint8_t)b->val; if (p->sym) p->sym[i + j] = nullptr; }
        else {
          if (!p->sym) { p->sym = new E[PS]; memset(p->sym, 0, sizeof(E) * PS); }
          p->sym[i + j] = b;
        }
      }
    }
    k += cnt;
  }
}
static void describe(State &s, Obj *o, std::string &m) {
  static const char *kn[] = {"global", "stack", "malloc", "new", "new[]"};
  char b[96];
  snprintf(b, sizeof b, " (%s object of %s%llu bytes)", kn[o->kind], o->symSize ? "up to " : "", (unsigned long long)o->size);
  m += b;
}
// race bookkeeping -----------------------------------------------------------
enum AK { A_Read, A_Write, A_ARead, A_AWrite };
static void race(State &s, Obj *o, uint64_t off, const char *what) {
  std::string m = std::string("data race: ") + what;
  describe(s, o, m);
  violate(s, "race", m);
}
static void shadow(State &s, Obj *o, uint64_t off, uint64_t n, AK k) {
  if (s.th.size() < 2 || n == 0 || o->ro || s.atomicDepth) return;
  o = wobj(s, o);
  Thread &t = s.th[s.cur];
  unsigned me = s.cur;
  if (o->pages.sparse()) unsupported(s, "a very large object shared by threads");
  if (o->sh.size() < o->pages.size()) o->sh.resize(o->pages.size());
  for (uint64_t j = off; j < off + n; j++) {
    Ref<ShPage> &p = o->sh[j / PS];
    if (!p) p = Ref<ShPage>(new ShPage());
    ShCell &c = p.mut()->c[j % PS];
    if (k != A_AWrite || true) {
      if (c.wclk && c.wtid != me && c.wclk > t.vc.c[c.wtid]) race(s, o, j, k == A_Read || k == A_ARead ? "read of a byte concurrently written" : "two unordered writes");
    }
    if (k == A_Read || k == A_Write)
      for (unsigned u = 0; u < MAXT; u++)
        if (u != me && c.aw[u] > t.vc.c[u]) race(s, o, j, "plain access concurrent with an atomic write");
    if (k == A_Write || k == A_AWrite)
      for (unsigned u = 0; u < MAXT; u++)
        if (u != me && c.r[u] > t.vc.c[u]) race(s, o, j, "write to a byte concurrently read");
    if (k == A_Write)
      for (unsigned u = 0; u < MAXT; u++)
        if (u != me && c.ar[u] > t.vc.c[u]) race(s, o, j, "plain write concurrent with an atomic read");
    switch (k) {
      case A_Read: c.r[me] = t.vc.c[me]; break;
      case A_Write: c.wclk = t.vc.c[me]; c.wtid = (uint8_t)me; break;
      case A_ARead: c.ar[me] = t.vc.c[me]; break;
      case A_AWrite: c.aw[me] = t.vc.c[me]; break;
    }
  }
}
// resolve an access of n bytes; on return *o is the object and off the concrete offset, unless
// symOff is non-null on entry and the offset stays symbolic (then *symOff is set)
static Obj *resolve(State &s, const Val &a, uint64_t n, const char *what, uint64_t &off, E *symOff = nullptr) {
  if (symOff) *symOff = nullptr;
  uint64_t addr = a.c;
  bool sym = false;
  if (a.e) {
    auto it = s.subst.find(a.e->id);
    if (it != s.subst.end()) addr = it->second;
    else { sym = true; checkUndef(s, a.e, "an address"); addr = evalModel(a.e, *s.model); }
  }
  Obj *o = objAt(s, addr);
  char b[160];
  if (!o || addr < o->base || addr > o->base + o->size || (addr + n > o->base + o->size)) {
    snprintf(b, sizeof b, "%s of %llu bytes at 0x%llx is outside any object", what, (unsigned long long)n, (unsigned long long)addr);
    std::string m = b;
    if (addr < 4096) m = std::string("null pointer ") + what;
    else if (o) {
      snprintf(b, sizeof b, "%s of %llu bytes at offset %lld is out of bounds", what, (unsigned long long)n, (long long)(addr - o->base));
      m = b;
      describe(s, o, m);
      if (!o->alive) m = "use after free: " + m;
    }
    violate(s, "memory", m);
  }
  if (!o->alive) {
    std::string m = std::string(what) + " after free";
    describe(s, o, m);
    violate(s, "memory", m);
  }
  off = addr - o->base;
  if (sym) {
    E inb = mkAnd1(mkBin(XOp::Ule, mkConst(o->base, 64), a.e), mkBin(XOp::Ule, a.e, mkConst(o->base + o->size - n, 64)));
    E out = mkNot(inb);
    ModelP m;
    nBoundsQ++;
    if (ask(s, out, &m) == Res::Sat) {
      State *ns = forkState(s);
      addPC(*ns, out);
      ns->model = m;
      addPC(s, inb);
    }
    if (o->symSize) {
      E bad = mkBin(XOp::Ult, mkBin(XOp::Sub, o->symSize, mkConst(0, 64)), mkBin(XOp::Add, mkBin(XOp::Sub, a.e, mkConst(o->base, 64)), mkConst(n, 64)));
      if (ask(s, bad, &m) == Res::Sat) { std::string msg = std::string(what) + " past the end"; describe(s, o, msg); violate(s, "memory", msg, m); }
    }
    if (symOff) { *symOff = mkBin(XOp::Sub, a.e, mkConst(o->base, 64)); return o; }
    addr = conc(s, a, 64, "an address");
    off = addr - o->base;
  } else if (o->symSize && n) {
    E bad = mkBin(XOp::Ult, o->symSize, mkConst(off + n, 64));
    ModelP m;
    nBoundsQ++;
    if (!isC(bad, 0) && ask(s, bad, &m) == Res::Sat) { std::string msg = std::string(what) + " past the end"; describe(s, o, msg); violate(s, "memory", msg, m); }
  }
  return o;
}
static Val fitW(const Val &v, unsigned have, unsigned want) {
  if (have == want) return v;
  if (!v.e) return Val(v.c & maskw(want));
  return Val(mkExtract(v.e, 0, want));
}
// may the symbolic address lie in the object at the concrete one? (the object it lies in is settled
// by resolve, which splits off every other one)
static bool sameObj(State &s, uint64_t at, const Val &a) {
  Obj *o = objAt(s, at), *p = objAt(s, evalModel(a.e, *s.model));
  return o == p;
}
// the value of an n-byte read at a symbolic offset, when the object falls into few runs of equal
// values: a balanced tree of comparisons on the offset
// how many low bits of an expression are known, and what they are
static unsigned knownLow(E e, uint64_t &v) {
  uint64_t a = 0, b = 0;
  switch (e->op) {
    case Op::Const: v = e->val; return e->width;
    case Op::Concat: {
      unsigned k = knownLow(e->b, v);
      if (k < e->b->width) return k;
      k += knownLow(e->a, a);
      v |= a << e->b->width;
      return k;
    }
    case Op::SExt: { unsigned k = knownLow(e->a, v); return k; }
    case Op::Add: case Op::Sub: {
      unsigned k = std::min(knownLow(e->a, a), knownLow(e->b, b));
      v = (e->op == Op::Add ? a + b : a - b) & (k >= 64 ? ~0ull : (1ull << k) - 1);
      return k;
    }
    case Op::Mul: {
      if (!isC(e->b) || !e->b->val) return 0;
      unsigned z = (unsigned)__builtin_ctzll(e->b->val);
      v = 0;
      return std::min<unsigned>(z, e->width);
    }
    default: v = 0; return 0;
  }
}
static E readRuns(State &s, Obj *o, E so, unsigned n) {
  if (s.th.size() > 1 || o->size < n) return nullptr;
  const size_t kMax = 2500;
  std::vector<std::pair<uint64_t, E>> runs;
  uint64_t last = o->size - n;
  if (o->size > (1 << 17)) return nullptr;
  E undef = nullptr;
  // (cells never written share one unspecified value here)
  auto at = [&](uint64_t i) -> E {
    const Ref<Page> &p = o->pages[i / PS];
    if (!(p ? p->sym && p->sym[i % PS] == UNINIT : !o->zero)) return toE(readN(s, o, i, 1), 8);
    if (!undef) undef = freshUndef(8).e;
    return undef;
  };
  // a table of constant bytes indexed by j*2^k + low: runs of equal or of consecutive values
  if (n == 1 && o->size <= 4096) {
    uint64_t low = 0;
    unsigned k = knownLow(so, low);
    if (k > 4) { k = 4; low &= 15; }
    std::vector<std::pair<uint64_t, uint64_t>> seq;
    std::vector<uint8_t> slope;
    uint64_t prev = 0;
    bool ok = true;
    for (uint64_t j = 0; (j << k) + low <= last; j++) {
      E e = at((j << k) + low);
      if (!isC(e)) { ok = false; break; }
      bool first = seq.empty() || j == seq.back().first;
      if (!first && j == seq.back().first + 1 && slope.back() == 2) {
        if (e->val == prev) slope.back() = 0;
        else if (e->val == ((prev + 1) & 255)) slope.back() = 1;
      }
      if (!first && slope.back() != 2 && e->val == ((prev + slope.back()) & 255)) { prev = e->val; continue; }
      if (seq.size() == 300) { ok = false; break; }
      seq.push_back({j, e->val});
      slope.push_back(2);
      prev = e->val;
    }
    if (ok && !seq.empty()) {
      E j = k ? mkExtract(so, k, 64 - k) : so;
      std::function<E(size_t, size_t)> lin = [&](size_t lo, size_t hi) -> E {
        if (hi - lo == 1) {
          if (slope[lo] != 1) return mkConst(seq[lo].second, 8);
          return mkBin(XOp::Add, mkExtract(j, 0, 8), mkConst(seq[lo].second - seq[lo].first, 8));
        }
        size_t mid = (lo + hi) / 2;
        E l = lin(lo, mid), h = lin(mid, hi);
        return mkIte(mkBin(XOp::Ult, j, mkConst(seq[mid].first, 64 - k)), l, h);
      };
      return lin(0, seq.size());
    }
  }
  for (uint64_t i = 0; i <= last; i++) {
    E e = at(i);
    for (unsigned k = 1; k < n; k++) e = mkConcat(at(i + k), e);
    if (runs.empty() || runs.back().second != e) {
      if (runs.size() == kMax) return nullptr;
      runs.push_back({i, e});
    }
  }
  std::function<E(size_t, size_t)> tree = [&](size_t lo, size_t hi) -> E {
    if (hi - lo == 1) return runs[lo].second;
    size_t mid = (lo + hi) / 2;
    E l = tree(lo, mid), h = tree(mid, hi);
    return mkIte(mkBin(XOp::Ult, so, mkConst(runs[mid].first, 64)), l, h);
  };
  return tree(0, runs.size());
}
static void copyMem(State &s, const Val &d, const Val &sr, uint64_t n) {
  if (n == 0) return;
  uint64_t so, dof;
  if (sr.e && n <= 8 && s.th.size() < 2 && !s.subst.count(sr.e->id)) {
    E sym = nullptr;
    Obj *os = resolve(s, sr, n, "read (copy)", so, &sym);
    if (E r = sym ? readRuns(s, os, sym, (unsigned)n) : nullptr) {
      Obj *od = resolve(s, d, n, "write (copy)", dof);
      if (od->ro) violate(s, "memory", "write to constant data");
      writeN(s, wobj(s, od), dof, (unsigned)n, Val(r));
      return;
    }
  }
  Obj *os = resolve(s, sr, n, "read (copy)", so);
  Obj *od = resolve(s, d, n, "write (copy)", dof);
  if (od->ro) violate(s, "memory", "write to constant data");
  shadow(s, os, so, n, A_Read);
  shadow(s, od, dof, n, A_Write);
  os = objAt(s, os->base);
  if (n >= (1u << 24) && os != od && os->zero && od->zero && os->pages.sparse() && od->pages.sparse() && so % PS == dof % PS) {
    // two very large objects: only the pages that hold something are looked at
    const uint64_t head = (PS - so % PS) % PS, mid = (n - head) / PS, from = (so + head) / PS, to = (dof + head) / PS;
    const uint64_t sb0 = os->base, db0 = od->base;
    if (head) copyMem(s, Val(db0 + dof), Val(sb0 + so), head);
    if (n - head - mid * PS) copyMem(s, Val(db0 + dof + head + mid * PS), Val(sb0 + so + head + mid * PS), n - head - mid * PS);
    od = wobj(s, objAt(s, db0));
    os = objAt(s, sb0);
    auto &dm = od->pages.m;
    dm.erase(dm.lower_bound(to), dm.lower_bound(to + mid));
    for (auto it = os->pages.m.lower_bound(from); it != os->pages.m.end() && it->first < from + mid; ++it)
      if (it->second) dm[it->first - from + to] = it->second;
    return;
  }
  if (n > (1u << 24) && os != od) {  // in pieces
    const uint64_t sb0 = os->base, db0 = od->base;
    for (uint64_t i = 0; i < n; i += 1u << 22) copyMem(s, Val(db0 + dof + i), Val(sb0 + so + i), std::min<uint64_t>(n - i, 1u << 22));
    return;
  }
  std::vector<uint8_t> db(n);
  std::vector<E> sb;
  for (uint64_t i = 0; i < n;) {
    const Ref<Page> &p = os->pages[(so + i) / PS];
    unsigned k = (so + i) % PS, c = (unsigned)std::min<uint64_t>(n - i, PS - k);
    if (p) {
      memcpy(&db[i], p->d + k, c);
      if (p->sym) {
        if (sb.empty()) sb.assign(n, nullptr);
        memcpy(&sb[i], p->sym + k, c * sizeof(E));
      }
    } else if (!os->zero) {
      if (sb.empty()) sb.assign(n, nullptr);
      for (unsigned j = 0; j < c; j++) sb[i + j] = UNINIT;
    }
    i += c;
  }
  od = wobj(s, objAt(s, od->base));
  os = objAt(s, os->base);
  for (uint64_t i = 0; i < n;) {
    unsigned k = (dof + i) % PS, c = (unsigned)std::min<uint64_t>(n - i, PS - k);
    if (c == PS && os != od && (so + i) % PS == 0) {  // whole pages are shared until one side changes
      const Ref<Page> &q = os->pages[(so + i) / PS];
      if (q || os->zero) {
        static Ref<Page> zeros;
        if (!q && !zeros) { zeros = Ref<Page>(new Page()); memset(zeros.p->d, 0, PS); }
        od->pages.mut((dof + i) / PS) = q ? q : zeros;
        i += c;
        continue;
      }
    }
    Page *p = wpage(od, (dof + i) / PS);
    memcpy(p->d + k, &db[i], c);
    if (!sb.empty()) {
      bool any = p->sym;
      for (unsigned j = 0; j < c && !any; j++) any = sb[i + j];
      if (any) {
        if (!p->sym) { p->sym = new E[PS]; memset(p->sym, 0, sizeof(E) * PS); }
        memcpy(p->sym + k, &sb[i], c * sizeof(E));
      }
    } else if (p->sym) memset(p->sym + k, 0, c * sizeof(E));
    i += c;
  }
}
static void setMem(State &s, const Val &d, const Val &v, uint64_t n) {
  if (n == 0) return;
  uint64_t dof;
  Obj *od = resolve(s, d, n, "write (fill)", dof);
  if (od->ro) violate(s, "memory", "write to constant data");
  shadow(s, od, dof, n, A_Write);
  od = wobj(s, od);
  for (uint64_t i = 0; i < n; i++) writeN(s, od, dof + i, 1, v);
}
static std::string readCStr(State &s, const Val &p) {
  std::string r;
  if (p.e) return "?";
  Obj *o = objAt(s, p.c);
  if (!o) return "?";
  for (uint64_t off = p.c - o->base; off < o->size && r.size() < 300; off++) {
    Val b = readN(s, o, off, 1);
    if (b.e) { r += '?'; o = objAt(s, p.c); continue; }
    if (!b.c) break;
    r += (char)b.c;
  }
  return r;
}

// ------------------------------------------------------------------ symbols
static std::map<std::pair<std::string, unsigned>, uint32_t> symReg;
static Val newSym(State &s, const std::string &name, unsigned w) {
  if (name.find(' ') != std::string::npos) inconclusive("a symbol name with a space cannot be replayed: " + name);
  uint32_t q = s.symSeq[name]++;
  std::string key = name + "#" + std::to_string(q);
  auto k = std::make_pair(key, w);
  auto it = symReg.find(k);
  uint32_t idx;
  if (it != symReg.end()) idx = it->second;
  else {
    g_vars.push_back({key, w, false});
    idx = (uint32_t)g_vars.size() - 1;
    symReg[k] = idx;
  }
  s.syms.push_back({key, idx});
  return Val(mkVar(idx));
}

// ------------------------------------------------------------------ threads
static bool dependent(const Pend &a, const Pend &b) {
  auto global = [](const Pend &p) { return (p.k == PK_Yield && p.addr == 0) || p.k == PK_CondBlocked; };
  if (a.k == PK_Start || b.k == PK_Start || a.k == PK_Join || b.k == PK_Join) return false;
  if (global(a) || global(b)) return true;
  if (a.k == PK_Load && b.k == PK_Load) return false;
  if (a.addr == b.addr) return true;
  if ((a.k == PK_CondOp && a.mtx == b.addr) || (b.k == PK_CondOp && b.mtx == a.addr)) return true;
  return false;
}
static bool enabled(State &s, unsigned t) {
  Thread &th = s.th[t];
  if (th.finished) return false;
  switch (th.pend.k) {
    case PK_Lock: case PK_Relock: return !s.mutexOwner.count(th.pend.addr);
    case PK_Join: return s.th[th.pend.addr].finished;
    case PK_CondBlocked: return s.spurious < optSpurious;
    case PK_None: return false;
    default: return true;
  }
}
// pick the thread to run next; the calling (current) thread is parked at its pending operation
static void schedule(State &s) {
  nSchedPts++;
  std::vector<unsigned> en, cand;
  for (unsigned i = 0; i < s.th.size(); i++) if (enabled(s, i)) en.push_back(i);
  bool onlySpurious = true;
  for (unsigned t : en) if (s.th[t].pend.k != PK_CondBlocked) onlySpurious = false;
  if (en.empty() || onlySpurious) {
    bool progress = false;
    for (unsigned t : en) (void)t;
    (void)progress;
    std::string m = "deadlock: no thread can make progress (";
    for (unsigned i = 0; i < s.th.size(); i++) {
      if (s.th[i].finished) continue;
      static const char *pn[] = {"none", "start", "load", "store", "lock", "cond", "yield", "join", "cond-wait", "relock"};
      m += "thread " + std::to_string(i) + " at " + pn[s.th[i].pend.k] + "; ";
    }
    m += ")";
    violate(s, "deadlock", m);
  }
  bool curEn = false;
  for (unsigned t : en) if (t == s.cur) curEn = true;
  for (unsigned t : en) {
    bool slept = false;
    if (optSleep && optPreempt < 0)
      for (auto &sl : s.sleep) if (sl.tid == t) slept = true;
    if (slept) continue;
    if (optPreempt >= 0 && curEn && t != s.cur && s.preempts >= (unsigned)optPreempt) continue;
    cand.push_back(t);
  }
  if (cand.empty()) throw PathEnd{2};
  for (size_t i = 0; i < cand.size(); i++) if (cand[i] == s.cur) { std::swap(cand[0], cand[i]); break; }
  auto take = [&](State &x, size_t ci) {
    unsigned t = cand[ci];
    Pend op = x.th[t].pend;
    if (optSleep && optPreempt < 0) {
      std::vector<Sleep> ns;
      for (auto &sl : x.sleep) if (!dependent(sl.p, op)) ns.push_back(sl);
      for (size_t j = 0; j < ci; j++) {
        Sleep sl{(uint8_t)cand[j], x.th[cand[j]].pend};
        if (!dependent(sl.p, op)) ns.push_back(sl);
      }
      x.sleep.swap(ns);
    }
    if (curEn && t != x.cur) x.preempts++;
    // the choice is recorded as a (trivially satisfiable) constraint on a schedule variable
    x.sched.push_back((uint8_t)t);
    x.cur = t;
    x.th[t].granted = true;
  };
  for (size_t i = 1; i < cand.size(); i++) {
    State *n = forkState(s);
    take(*n, i);
  }
  take(s, 0);
}
// returns true when the operation may be performed now
static bool visible(State &s, PK k, uint64_t addr, uint64_t mtx = 0) {
  Thread &t = s.th[s.cur];
  if (s.live < 2 && k != PK_Join) { t.granted = false; return true; }
  if (t.granted) { t.granted = false; t.pend.k = PK_None; return true; }
  if (s.atomicDepth && k != PK_Lock && k != PK_Join) return true;
  t.pend.k = k;
  t.pend.addr = addr;
  t.pend.mtx = mtx;
  schedule(s);
  return false;
}
static void tick(State &s) {
  if (s.th.size() == 1) return;  // every later thread starts with this thread's whole history
  Thread &t = s.th[s.cur];
  if (t.vc.c[s.cur] < 65000) t.vc.c[s.cur]++;
  else { inconclusive("vector clock overflow"); }
}

// ------------------------------------------------------------------ calls
static void pushFrame(State &s, Thread &t, KFunc *f, const std::vector<Val> &args, std::shared_ptr<std::vector<Val>> va, int retDst) {
  if (!f->compiled) compileFn(f);
  f->executed = true;
  if (t.frames.size() > 1500) violate(s, "memory", "stack overflow (call depth over 1500)");
  Frame fr;
  fr.f = f;
  fr.pc = 0;
  fr.base = (uint32_t)t.regs.size();
  fr.allocaBase = (uint32_t)t.allocas.size();
  fr.retDst = retDst;
  fr.va = va;
  t.regs.resize(fr.base + f->nregs);
  for (size_t i = 0; i < args.size() && i < f->nargSlots; i++) t.regs[fr.base + i] = args[i];
  for (size_t i = args.size(); i < f->nargSlots; i++) t.regs[fr.base + i] = freshUndef(64);
  t.frames.push_back(std::move(fr));
}
static void freeStackObj(State &s, uint32_t sl) {
  Obj *o = s.chunks[sl / CH]->o[sl % CH].p;
  if (o->size + 64 < (1u << SLOT_BITS)) s.freeStack.push_back(sl);
  Obj *d = new Obj();
  d->base = o->base; d->size = o->size; d->kind = OK_Stack; d->alive = false;
  s.chunks[sl / CH].mut()->o[sl % CH] = Ref<Obj>(d);
}
// returns true when the thread finished
static bool popFrame(State &s, const std::vector<Val> &ret) {
  Thread &t = s.th[s.cur];
  Frame fr = t.frames.back();
  while (t.allocas.size() > fr.allocaBase) { freeStackObj(s, t.allocas.back()); t.allocas.pop_back(); }
  t.frames.pop_back();
  t.regs.resize(fr.base);
  if (t.frames.empty()) return true;
  Frame &c = t.frames.back();
  if (fr.retDst == -2) return false;
  if (fr.retDst >= 0)
    for (size_t i = 0; i < ret.size(); i++) t.regs[c.base + fr.retDst + i] = ret[i];
  c.pc++;
  return false;
}
static double asF(uint64_t b, unsigned w) {
  if (w == 32) { float f; uint32_t x = (uint32_t)b; memcpy(&f, &x, 4); return f; }
  double d; memcpy(&d, &b, 8); return d;
}
static uint64_t fromF(double d, unsigned w) {
  if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
  uint64_t b; memcpy(&b, &d, 8); return b;
}

static uint64_t heapAlloc(State &s, const Val &size, ObjKind kind, bool zero, unsigned align = 16) {
  uint64_t n = size.c;
  E sym = nullptr;
  if (size.e) {
    auto it = s.subst.find(size.e->id);
    if (it != s.subst.end()) n = it->second;
    else {
      checkUndef(s, size.e, "an allocation size");
      // keep the size symbolic: capacity is the largest power of two bound that covers it
      uint64_t cap = 64;
      ModelP m;
      while (cap <= (1ull << 20) && ask(s, mkBin(XOp::Ult, mkConst(cap, 64), size.e), &m) == Res::Sat) cap *= 4;
      if (cap > (1ull << 20)) {
        // larger sizes: split off the huge case
        E huge = mkBin(XOp::Ult, mkConst(1ull << 22, 64), size.e);
        if (decide(s, Val(huge), "an allocation size")) violate(s, "memory", "allocation of more than 4 MB requested", nullptr);
        cap = 1ull << 22;
      }
      sym = size.e;
      n = cap;
    }
  }
  if (!sym && n > MAX_OBJ) violate(s, "memory", "absurd allocation size " + std::to_string(n));
  Obj *o = allocObj(s, n, kind, align);
  o->symSize = sym;
  o->zero = zero;
  Thread &t = s.th[s.cur];
  o->site = t.frames.back().f->code[t.frames.back().pc].I;
  s.liveAllocs++;
  if (kind != OK_New) {
    s.arrBytes = Val(mkBin(XOp::Add, toE(s.arrBytes, 64), size.e ? size.e : mkConst(n, 64)));
    s.arrCount++;
  }
  return o->base;
}
static void heapFree(State &s, const Val &p, int kind, const char *what) {
  uint64_t a = conc(s, p, 64, "a freed pointer");
  if (!a) return;
  Obj *o = objAt(s, a);
  if (!o || a != o->base || o->kind == OK_Global || o->kind == OK_Stack) violate(s, "memory", std::string(what) + " of a pointer that is not the start of a heap object");
  if (!o->alive) violate(s, "memory", std::string(what) + ": double free");
  if (o->kind != kind) violate(s, "memory", std::string(what) + ": mismatched allocation and deallocation functions");
  if (!o->symSize) shadow(s, o, 0, o->size, A_Write);
  o = wobj(s, objAt(s, a));
  o->alive = false;
  o->pages.clear();
  std::vector<Ref<ShPage>>().swap(o->sh);
  s.liveAllocs--;
}
#include "interp.h"
