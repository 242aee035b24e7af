// Main interpreter loop, intrinsics and driver.
static Val binop(State &s, XOp op, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e) {
    if ((op == XOp::UDiv || op == XOp::URem || op == XOp::SDiv || op == XOp::SRem) && b.c == 0) violate(s, "memory", "division by zero");
    return Val(constFold(op, a.c, b.c, w) & maskw(w));
  }
  if (op == XOp::UDiv || op == XOp::URem || op == XOp::SDiv || op == XOp::SRem) {
    E z = mkEq(toE(b, w), mkConst(0, w));
    if (!isC(z) && decide(s, Val(z), "a divisor")) violate(s, "memory", "division by zero");
    if (isC(z, 1)) violate(s, "memory", "division by zero");
  }
  if ((op == XOp::UDiv || op == XOp::URem) && w >= 16 && (b.e ? w <= 32 : (b.c & (b.c - 1)) != 0)) {
    // x = q*c + r with r < c and no overflow: quotient and remainder become variables of their own
    static std::map<std::pair<uint32_t, uint32_t>, size_t> memo;
    E x = toE(a, w), c = toE(b, w);
    auto key = std::make_pair(x->id, c->id);
    auto it = memo.find(key);
    if (it == memo.end()) {
      // (x0 / c0) / c is x0 / (c0 * c): one quotient variable for each, however it is reached
      E q = nullptr;
      if (isC(c) && x->op == Op::Var)
        for (auto &d : g_divs)
          if (d.q == x && isC(d.c)) {
            unsigned __int128 cc = (unsigned __int128)d.c->val * c->val;
            if (cc <= maskw(w)) {
              Val whole = binop(s, XOp::UDiv, Val(d.x), Val((uint64_t)cc), w);
              if (whole.e && whole.e->op == Op::Var) q = whole.e;
            }
            break;
          }
      if (!q) {
        g_vars.push_back({"quot", w, false});
        q = mkVar((unsigned)g_vars.size() - 1);
      }
      g_vars.push_back({"rem", w, false});
      E r = mkVar((unsigned)g_vars.size() - 1);
      g_divs.push_back({x, c, q, r});
      it = memo.emplace(key, g_divs.size() - 1).first;
    } else if (isC(c) && x->op == Op::Var) {
      // (the facts about the shared quotient belong to this state too)
      for (auto &d : g_divs)
        if (d.q == x && isC(d.c)) {
          unsigned __int128 cc = (unsigned __int128)d.c->val * c->val;
          if (cc <= maskw(w)) binop(s, XOp::UDiv, Val(d.x), Val((uint64_t)cc), w);
          break;
        }
    }
    E q = g_divs[it->second].q, r = g_divs[it->second].r;
    if (s.divs.insert(std::make_pair(x->id, (uint64_t)c->id)).second) {
      checkUndef(s, x, "a dividend");
      uint64_t xv = evalModel(x, *s.model), cv = evalModel(c, *s.model);
      auto m = std::make_shared<Model>(*s.model);
      size_t need = std::max(q->val, r->val) + 1;
      if (m->v.size() < need) m->v.resize(need, 0);
      m->v[q->val] = xv / cv;
      m->v[r->val] = xv % cv;
      if (isC(c)) {
        uint64_t Q = maskw(w) / b.c, R = maskw(w) % b.c;
        E Qe = mkConst(Q, w);
        addPC(s, mkEq(x, mkBin(XOp::Add, mkBin(XOp::Mul, q, c), r)));
        addPC(s, mkOr1(mkBin(XOp::Ult, q, Qe), mkAnd1(mkEq(q, Qe), mkBin(XOp::Ule, r, mkConst(R, w)))));
      } else {
        E wide = mkBin(XOp::Add, mkBin(XOp::Mul, mkZExt(q, 64), mkZExt(c, 64)), mkZExt(r, 64));
        addPC(s, mkEq(mkZExt(x, 64), wide));
      }
      addPC(s, mkBin(XOp::Ult, r, c));
      addPC(s, mkBin(XOp::Ule, q, x));
      addPC(s, mkBin(XOp::Ule, r, x));
      s.model = m;
    }
    return Val(op == XOp::UDiv ? q : r);
  }
  return Val(mkBin(op, toE(a, w), toE(b, w)));
}
static void observe(State &s, const Val &v, unsigned w) {
  if (v.e) checkUndef(s, v.e, "an observed result");
  s.obs.push_back({v, (uint8_t)w});
}
static void needSame(State &, const Val &) {}

enum Step { ST_Next, ST_Stay };  // advance pc / leave pc where it is and re-dispatch

static void atomicRead(State &s, uint64_t addr, uint8_t ord) {
  Thread &t = s.th[s.cur];
  auto it = s.atomVC.find(addr);
  if (it == s.atomVC.end()) return;
  if (ord == 2 || ord == 4) t.vc.join(it->second);
  else t.acqP.join(it->second);
}
static void atomicWrite(State &s, uint64_t addr, uint8_t ord, bool rmw) {
  Thread &t = s.th[s.cur];
  VC v = t.relF;
  if (ord == 3 || ord == 4) v = t.vc;
  if (rmw) { auto it = s.atomVC.find(addr); if (it != s.atomVC.end()) v.join(it->second); }
  s.atomVC[addr] = v;
  if (ord == 3 || ord == 4) tick(s);
}

static Val arg(Val *R, KFunc *f, const CallDesc &cd, size_t i) {
  int o = cd.args[i].src;
  return o >= 0 ? R[o] : f->consts[~o];
}
static E subOvf(XOp op, E a, E b, unsigned w);

static void storeConst(State &s, Obj *o, const Constant *c, uint64_t off);
static Step intrinsic(State &s, KInst &k, const CallDesc &cd) {
  Thread &t = s.th[s.cur];
  KFunc *f = t.frames.back().f;
  Val *R = t.regs.data() + t.frames.back().base;
  auto A = [&](size_t i) { return arg(R, f, cd, i); };
  auto ret = [&](const Val &v) {
    Thread &tt = s.th[s.cur];
    if (k.dst >= 0) tt.regs[tt.frames.back().base + k.dst] = v;
  };
  auto ret2 = [&](const Val &v, const Val &v2) {
    Thread &tt = s.th[s.cur];
    tt.regs[tt.frames.back().base + k.dst] = v;
    tt.regs[tt.frames.back().base + k.dst + 1] = v2;
  };
  unsigned w = cd.args.empty() ? 0 : cd.args[0].w;
  switch (cd.intr) {
    case IN_Nop: break;
    case IN_Zero: ret(Val((uint64_t)0)); break;
    case IN_Memcpy: case IN_Memmove: case IN_CMemcpy: {
      uint64_t n = conc(s, A(2), 64, "a copy length");
      if (n > MAX_OBJ) violate(s, "memory", "copy of an absurd length " + std::to_string(n));
      Val d = A(0);
      if (n) {
        // a copy between overlapping ranges with memcpy is undefined
        uint64_t da = conc(s, d, 64, "an address");
        if (A(1).e && n <= 8 && s.th.size() < 2 && !s.subst.count(A(1).e->id) && !sameObj(s, da, A(1))) {
          copyMem(s, Val(da), A(1), n);
          if (cd.intr == IN_CMemcpy) ret(d);
          break;
        }
        uint64_t sa = conc(s, A(1), 64, "an address");
        if (cd.intr != IN_Memmove && k.I && cast<CallInst>(k.I)->getCalledFunction() && cast<CallInst>(k.I)->getCalledFunction()->getName() != "memmove")
          if (da != sa && ((da < sa && sa - da < n) || (sa < da && da - sa < n))) violate(s, "memory", "memcpy between overlapping ranges");
        copyMem(s, Val(da), Val(sa), n);
      }
      if (cd.intr == IN_CMemcpy) ret(d);
      break;
    }
    case IN_Memset: case IN_CMemset: {
      uint64_t n = conc(s, A(2), 64, "a fill length");
      if (n > (1ull << 28)) violate(s, "memory", "fill of an absurd length");
      setMem(s, A(0), fitW(A(1), cd.args[1].w, 8), n);
      if (cd.intr == IN_CMemset) ret(A(0));
      break;
    }
    case IN_Memcmp: {
      uint64_t n = conc(s, A(2), 64, "a compare length");
      if (n > MAX_OBJ) violate(s, "memory", "compare of an absurd length");
      if (!n) { ret(Val((uint64_t)0)); break; }
      uint64_t o1, o2;
      Obj *x = resolve(s, A(0), n, "read (compare)", o1), *y = resolve(s, A(1), n, "read (compare)", o2);
      shadow(s, x, o1, n, A_Read);
      y = objAt(s, y->base);
      shadow(s, y, o2, n, A_Read);
      x = objAt(s, x->base); y = objAt(s, y->base);
      if (x == y && o1 == o2) { ret(Val((uint64_t)0)); break; }
      E r = mkConst(0, 32);
      uint64_t stop = n;
      // first concretely different byte bounds the comparison
      std::vector<std::pair<E, E>> bs;
      for (uint64_t i = 0; i < n; i++) {
        {  // skip a run of equal concrete bytes
          const Ref<Page> &xp = x->pages[(o1 + i) / PS], &yp = y->pages[(o2 + i) / PS];
          uint64_t a = (o1 + i) % PS, b = (o2 + i) % PS, c = std::min<uint64_t>(n - i, PS - std::max(a, b));
          if (!xp && !yp && x->zero && y->zero) { i += c - 1; continue; }
          if (c >= 8 && xp && yp) {
            bool plain = true;
            if (xp->sym) for (uint64_t j = 0; j < c && plain; j++) plain = !xp->sym[a + j];
            if (yp->sym) for (uint64_t j = 0; j < c && plain; j++) plain = !yp->sym[b + j];
            if (plain && !memcmp(xp->d + a, yp->d + b, c)) { i += c - 1; continue; }
          }
        }
        E p = byteExpr(s, x, o1 + i);
        y = objAt(s, y->base);
        E q = byteExpr(s, y, o2 + i);
        x = objAt(s, x->base);
        if (p == q) continue;
        bs.push_back({p, q});
        if (isC(p) && isC(q)) { stop = i; break; }
      }
      (void)stop;
      for (size_t i = bs.size(); i-- > 0;) {
        E p = bs[i].first, q = bs[i].second;
        E lt = mkIte(mkBin(XOp::Ult, p, q), mkConst((uint64_t)-1, 32), mkConst(1, 32));
        r = mkIte(mkEq(p, q), r, lt);
      }
      ret(Val(r));
      break;
    }
    case IN_Trap: violate(s, "ub", "undefined behaviour trapped (trap instruction reached)");
    case IN_MulOv: case IN_AddOv: case IN_SubOv: {
      Val a = A(0), b = A(1);
      if (!a.e && !b.e) {
        unsigned __int128 x = a.c, y = b.c, r = cd.intr == IN_MulOv ? x * y : cd.intr == IN_AddOv ? x + y : x - y;
        uint64_t lo = (uint64_t)r & maskw(w);
        ret2(Val(lo), Val((uint64_t)(r != (unsigned __int128)lo)));
        break;
      }
      E x = toE(a, w), y = toE(b, w);
      if (cd.intr == IN_AddOv) { E r = mkBin(XOp::Add, x, y); ret2(Val(r), Val(mkBin(XOp::Ult, r, x))); break; }
      if (cd.intr == IN_SubOv) { ret2(Val(mkBin(XOp::Sub, x, y)), Val(mkBin(XOp::Ult, x, y))); break; }
      E r = mkBin(XOp::Mul, x, y);
      E ov;
      if (isC(y) && y->val) ov = mkBin(XOp::Ult, mkConst(maskw(w) / y->val, w), x);
      else if (isC(x) && x->val) ov = mkBin(XOp::Ult, mkConst(maskw(w) / x->val, w), y);
      else if (isC(x) || isC(y)) ov = mkFalse();
      else ov = mkAnd1(mkNot(mkEq(y, mkConst(0, w))), mkBin(XOp::Ult, mkBin(XOp::UDiv, mkConst(maskw(w), w), y), x));
      ret2(Val(r), Val(ov));
      break;
    }
    case IN_SMulOv: case IN_SAddOv: case IN_SSubOv: {
      Val a = A(0), b = A(1);
      if (!a.e && !b.e) {
        __int128 x = sx(a.c, w), y = sx(b.c, w), r = cd.intr == IN_SMulOv ? x * y : cd.intr == IN_SAddOv ? x + y : x - y;
        uint64_t lo = (uint64_t)r & maskw(w);
        ret2(Val(lo), Val((uint64_t)(r != (__int128)sx(lo, w))));
        break;
      }
      E x = toE(a, w), y = toE(b, w);
      if (cd.intr != IN_SMulOv && w < 64) {
        E xx = mkSExt(x, w + 1), yy = mkSExt(y, w + 1);
        E r = mkBin(cd.intr == IN_SAddOv ? XOp::Add : XOp::Sub, xx, yy);
        E lo = mkExtract(r, 0, w);
        ret2(Val(lo), Val(mkNot(mkEq(mkSExt(lo, w + 1), r))));
        break;
      }
      if (cd.intr != IN_SMulOv) {
        E r = mkBin(cd.intr == IN_SAddOv ? XOp::Add : XOp::Sub, x, y);
        E sx1 = mkExtract(x, w - 1, 1), sy = mkExtract(y, w - 1, 1), sr = mkExtract(r, w - 1, 1);
        E same = cd.intr == IN_SAddOv ? mkEq(sx1, sy) : mkNot(mkEq(sx1, sy));
        ret2(Val(r), Val(mkAnd1(same, mkNot(mkEq(sr, sx1)))));
        break;
      }
      if (w <= 32) {
        E r = mkBin(XOp::Mul, mkSExt(x, 2 * w), mkSExt(y, 2 * w));
        E lo = mkExtract(r, 0, w);
        ret2(Val(lo), Val(mkNot(mkEq(mkSExt(lo, 2 * w), r))));
        break;
      }
      unsupported(s, "symbolic 64-bit signed multiplication overflow");
    }
    case IN_Ctlz: case IN_Cttz: case IN_Ctpop: {
      Val a = A(0);
      if (!a.e) {
        uint64_t r;
        if (cd.intr == IN_Ctpop) r = (uint64_t)__builtin_popcountll(a.c);
        else if (!a.c) r = w;
        else r = cd.intr == IN_Cttz ? (uint64_t)__builtin_ctzll(a.c) : (uint64_t)__builtin_clzll(a.c) - (64 - w);
        ret(Val(r));
        break;
      }
      E r = cd.intr == IN_Ctpop ? mkConst(0, w) : mkConst(w, w);
      for (unsigned i = 0; i < w; i++) {
        unsigned bit = cd.intr == IN_Ctlz ? i : w - 1 - i;
        E b = mkExtract(a.e, bit, 1);
        if (cd.intr == IN_Ctpop) r = mkBin(XOp::Add, r, mkZExt(b, w));
        else r = mkIte(b, mkConst(cd.intr == IN_Ctlz ? w - 1 - bit : bit, w), r);
      }
      ret(Val(r));
      break;
    }
    case IN_Bswap: {
      Val a = A(0);
      E x = toE(a, w), r = nullptr;
      for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(x, 8 * i, 8); r = r ? mkConcat(r, b) : b; }
      ret(Val(r));
      break;
    }
    case IN_Fshl: case IN_Fshr: {
      Val sh = A(2);
      uint64_t n = conc(s, sh, w, "a rotate amount") % w;
      E a = toE(A(0), w), b = toE(A(1), w);
      if (!n) ret(Val(cd.intr == IN_Fshl ? a : b));
      else {
        unsigned l = cd.intr == IN_Fshl ? (unsigned)n : w - (unsigned)n;
        ret(Val(mkConcat(mkExtract(a, 0, w - l), mkExtract(b, w - l, l))));
      }
      break;
    }
    case IN_UMin: ret(Val(mkIte(mkBin(XOp::Ult, toE(A(0), w), toE(A(1), w)), toE(A(0), w), toE(A(1), w)))); break;
    case IN_UMax: ret(Val(mkIte(mkBin(XOp::Ult, toE(A(0), w), toE(A(1), w)), toE(A(1), w), toE(A(0), w)))); break;
    case IN_SMin: ret(Val(mkIte(mkBin(XOp::Slt, toE(A(0), w), toE(A(1), w)), toE(A(0), w), toE(A(1), w)))); break;
    case IN_SMax: ret(Val(mkIte(mkBin(XOp::Slt, toE(A(0), w), toE(A(1), w)), toE(A(1), w), toE(A(0), w)))); break;
    case IN_Abs: {
      E a = toE(A(0), w);
      ret(Val(mkIte(mkBin(XOp::Slt, a, mkConst(0, w)), mkBin(XOp::Sub, mkConst(0, w), a), a)));
      break;
    }
    case IN_UAddSat: { E a = toE(A(0), w), b = toE(A(1), w), r = mkBin(XOp::Add, a, b); ret(Val(mkIte(mkBin(XOp::Ult, r, a), mkConst(~0ull, w), r))); break; }
    case IN_USubSat: { E a = toE(A(0), w), b = toE(A(1), w); ret(Val(mkIte(mkBin(XOp::Ult, a, b), mkConst(0, w), mkBin(XOp::Sub, a, b)))); break; }
    case IN_VaStart: {
      Frame &fr = t.frames.back();
      auto va = fr.va;
      size_t n = va ? va->size() : 0;
      Obj *o = allocObj(s, n * 8 + 8, OK_Stack);
      o = wobj(s, o);
      uint64_t base = o->base;
      for (size_t i = 0; i < n; i++) writeN(s, o, i * 8, 8, (*va)[i]);
      s.th[s.cur].allocas.push_back(slotOf(base));
      uint64_t off;
      Obj *ap = resolve(s, A(0), 24, "va_start", off);
      ap = wobj(s, ap);
      writeN(s, ap, off, 4, Val((uint64_t)48));
      writeN(s, ap, off + 4, 4, Val((uint64_t)176));
      writeN(s, ap, off + 8, 8, Val(base));
      writeN(s, ap, off + 16, 8, Val((uint64_t)0));
      break;
    }
    case IN_VaEnd: {  // later uses fail
      uint64_t off;
      Obj *ap = resolve(s, A(0), 24, "va_end", off);
      ap = wobj(s, ap);
      writeN(s, ap, off, 4, Val((uint64_t)48));
      writeN(s, ap, off + 4, 4, Val((uint64_t)176));
      writeN(s, ap, off + 8, 8, Val((uint64_t)0));
      break;
    }
    case IN_VaCopy: copyMem(s, A(0), A(1), 24); break;
    case IN_ObjSize: ret(Val(maskw(k.dst >= 0 ? cd.retW : 64))); break;
    case IN_IsConst: ret(Val((uint64_t)0)); break;
    case IN_Expect: ret(A(0)); break;
    case IN_TLS: {
      auto tv = A(0).e || s.cur == 0 ? tlsVar.end() : tlsVar.find(A(0).c);
      if (tv == tlsVar.end()) { ret(A(0)); break; }
      uint64_t &mine = s.tls[{A(0).c, s.cur}];
      if (!mine) {
        const GlobalVariable *g = tv->second;
        Obj *o = allocObj(s, DL->getTypeAllocSize(g->getValueType()).getFixedValue(), OK_Global, g->getAlign() ? (unsigned)g->getAlign()->value() : 16);
        o->zero = true;
        mine = o->base;
        if (g->hasInitializer()) storeConst(s, wobj(s, o), g->getInitializer(), 0);
      }
      ret(Val(mine));
      break;
    }
    case IN_FCeil: case IN_FFloor: case IN_FAbs: {
      if (A(0).e) unsupported(s, "symbolic floating point");
      double d = asF(A(0).c, w);
      ret(Val(fromF(cd.intr == IN_FCeil ? std::ceil(d) : cd.intr == IN_FFloor ? std::floor(d) : std::fabs(d), w)));
      break;
    }
    case IN_Malloc: ret(Val(heapAlloc(s, A(0), OK_Malloc, false))); break;
    case IN_Calloc: {
      Val a = A(0), b = A(1);
      uint64_t n = conc(s, a, 64), m = conc(s, b, 64);
      ret(Val(heapAlloc(s, Val(n * m), OK_Malloc, true)));
      break;
    }
    case IN_Realloc: {
      uint64_t p = conc(s, A(0), 64), n = conc(s, A(1), 64);
      uint64_t q = heapAlloc(s, Val(n), OK_Malloc, false);
      if (p) {
        Obj *o = objAt(s, p);
        if (!o || !o->alive) violate(s, "memory", "realloc of an invalid pointer");
        copyMem(s, Val(q), Val(p), std::min<uint64_t>(n, o->size));
        heapFree(s, Val(p), OK_Malloc, "realloc");
      }
      ret(Val(q));
      break;
    }
    case IN_Free: heapFree(s, A(0), OK_Malloc, "free"); break;
    case IN_New: ret(Val(heapAlloc(s, A(0), OK_New, false))); break;
    case IN_NewArr: ret(Val(heapAlloc(s, A(0), OK_NewArr, false))); break;
    case IN_NewAl: ret(Val(heapAlloc(s, A(0), OK_New, false, (unsigned)A(1).c))); break;
    case IN_NewArrAl: ret(Val(heapAlloc(s, A(0), OK_NewArr, false, (unsigned)A(1).c))); break;
    case IN_Del: case IN_DelSz: heapFree(s, A(0), OK_New, "operator delete"); break;
    case IN_DelArr: case IN_DelArrSz: heapFree(s, A(0), OK_NewArr, "operator delete[]"); break;
    case IN_AssertFail: violate(s, "assert-fail", "assertion failed in the code: " + readCStr(s, A(0)));
    case IN_Abort: violate(s, "abort", "the code aborted");
    case IN_Exit: throw PathEnd{0};
    case IN_Sym: ret([&] {
        uint64_t bits = conc(s, A(1), 32);
        Val v = newSym(s, readCStr(s, A(0)), (unsigned)bits);
        return bits == 64 ? v : Val(mkZExt(v.e, 64));
      }());
      break;
    case IN_SymBytes: {
      uint64_t n = conc(s, A(1), 64);
      if (!n) break;
      uint64_t off;
      Obj *o = resolve(s, A(0), n, "write (symbolic bytes)", off);
      uint64_t base = o->base;
      std::string nm = readCStr(s, A(2));
      for (uint64_t i = 0; i < n; i++) {
        Val v = newSym(s, nm, 8);
        o = wobj(s, objAt(s, base));
        writeN(s, o, off + i, 1, v);
      }
      break;
    }
    case IN_Assume: {
      Val a = A(0);
      assumeE(s, a.e ? Val(mkNot(mkEq(a.e, mkConst(0, w)))) : Val((uint64_t)(a.c != 0)));
      break;
    }
    case IN_Assert: {
      Val a = A(0);
      nAsserts++;
      std::string msg;
      if (!a.e) {
        if (!a.c) violate(s, "property", readCStr(s, A(1)));
        break;
      }
      E c = mkNot(mkEq(a.e, mkConst(0, w)));
      if (isC(c, 1)) break;
      checkUndef(s, c, "an asserted result");
      ModelP m;
      Res r = ask(s, mkNot(c), &m);
      if (r == Res::Sat) violate(s, "property", readCStr(s, A(1)), m);
      addPC(s, c);
      break;
    }
    case IN_Choose: {
      uint64_t n = conc(s, A(0), 32);
      if (n == 0) throw PathEnd{1};
      if (!s.pendSym) {  // a fork re-executes this instruction: the symbol must be made only once
        Val v = newSym(s, readCStr(s, A(1)), 32);
        assumeE(s, Val(mkBin(XOp::Ult, v.e, mkConst(n, 32))));
        s.pendSym = v.e;
      }
      uint64_t x = conc(s, Val(s.pendSym), 32);
      s.pendSym = nullptr;
      ret(Val(x));
      break;
    }
    case IN_Concretize: ret(Val(conc(s, A(0), w))); break;
    case IN_Cover: g_covers.insert(readCStr(s, A(0))); break;
    case IN_Observe: observe(s, A(0), 64); break;
    case IN_ObserveBytes: {
      uint64_t n = conc(s, A(1), 64);
      uint64_t off;
      if (!n) break;
      Obj *o = resolve(s, A(0), n, "read (observe)", off);
      uint64_t base = o->base;
      for (uint64_t i = 0; i < n; i++) { Val v = readN(s, objAt(s, base), off + i, 1); observe(s, v, 8); }
      break;
    }
    case IN_Param: {
      std::string nm = readCStr(s, A(0));
      auto it = optParams.find(nm);
      uint64_t v = it == optParams.end() ? A(1).c : it->second;
      if (it == optParams.end()) optParams[nm] = v;
      ret(Val(v));
      break;
    }
    case IN_Fail: violate(s, readCStr(s, A(0)), readCStr(s, A(1)));
    case IN_Print: if (optTrace) fprintf(stderr, "print %s %llx %s\n", readCStr(s, A(0)).c_str(), (unsigned long long)A(1).c, A(1).e ? exprStr(A(1).e).c_str() : ""); break;
    case IN_CheckRange: {
      Val nv = A(1);
      if (nv.e && s.subst.count(nv.e->id)) nv = Val(s.subst[nv.e->id]);
      if (!nv.e && !nv.c) break;
      if (nv.e && decide(s, Val(mkEq(nv.e, mkConst(0, 64))), "a length")) break;
      uint64_t off;
      E so = nullptr;
      Obj *o = resolve(s, A(0), 1, "access through a returned range", off, &so);
      E ofs = so ? so : mkConst(off, 64);
      E sz = o->symSize ? o->symSize : mkConst(o->size, 64);
      E n = toE(nv, 64);
      // n <= size - off (off < size was just established)
      E bad = mkBin(XOp::Ult, mkBin(XOp::Sub, sz, ofs), n);
      if (isC(bad, 0)) break;
      ModelP m;
      std::string msg = "a returned range extends past the end";
      describe(s, o, msg);
      if (isC(bad, 1)) violate(s, "memory", msg);
      nBoundsQ++;
      if (ask(s, bad, &m) == Res::Sat) violate(s, "memory", msg, m);
      break;
    }
    case IN_IteI: {
      Val c = A(0);
      E ce = mkNot(mkEq(toE(c, cd.args[0].w), mkConst(0, cd.args[0].w)));
      ret(Val(mkIte(ce, toE(A(1), 64), toE(A(2), 64))));
      break;
    }
    case IN_IsSym: ret(Val((uint64_t)(A(0).e != nullptr))); break;
    case IN_ArrTotal: ret(A(0).c ? Val((uint64_t)s.arrCount) : s.arrBytes); break;
    case IN_LiveAllocs: ret(Val((uint64_t)s.liveAllocs)); break;
    // ---- threads
    case IN_ThCreate: {
      uint64_t fn = conc(s, A(0), 64);
      Val ar = A(1);
      if (s.th.size() >= MAXT) unsupported(s, "too many threads");
      uint64_t ix = (fn - FN_BASE) / 16;
      if (fn < FN_BASE || ix >= fnByIdx.size()) violate(s, "memory", "thread start with an invalid function");
      unsigned nt = (unsigned)s.th.size();
      s.th.emplace_back();
      Thread &n = s.th.back();
      n.vc = s.th[s.cur].vc;
      n.vc.c[nt] = 1;
      n.pend.k = PK_Start;
      pushFrame(s, n, kf(fnByIdx[ix]), {ar}, nullptr, -1);
      s.live++;
      tick(s);
      ret(Val((uint64_t)nt));
      break;
    }
    case IN_ThJoin: {
      uint64_t tid = conc(s, A(0), 32);
      if (tid >= s.th.size()) violate(s, "memory", "join of an unknown thread");
      if (s.th[tid].finished) { t.granted = false; t.pend.k = PK_None; t.vc.join(s.th[tid].vc); break; }
      t.pend.k = PK_Join; t.pend.addr = tid;
      t.granted = false;
      schedule(s);
      return ST_Stay;
    }
    case IN_ThDone: {
      uint64_t tid = conc(s, A(0), 32);
      ret(Val((uint64_t)(tid < s.th.size() && s.th[tid].finished)));
      break;
    }
    case IN_Self: ret(Val((uint64_t)s.cur)); break;
    case IN_Yield: {
      uint64_t a = conc(s, A(0), 64);
      if (!visible(s, PK_Yield, a)) return ST_Stay;
      break;
    }
    case IN_MLock: {
      uint64_t a = conc(s, A(0), 64);
      if (!t.granted && s.live >= 2 && s.mutexOwner.count(a) && s.mutexOwner[a] == (int)s.cur) violate(s, "deadlock", "a thread locks a mutex it already holds");
      if (!visible(s, PK_Lock, a)) return ST_Stay;
      if (s.mutexOwner.count(a)) violate(s, "deadlock", s.mutexOwner[a] == (int)s.cur ? "a thread locks a mutex it already holds" : "lock of a mutex that is never released");
      s.mutexOwner[a] = (int)s.cur;
      s.th[s.cur].vc.join(s.mutexVC[a]);
      ret(Val((uint64_t)0));
      break;
    }
    case IN_MTryLock: {
      uint64_t a = conc(s, A(0), 64);
      if (!visible(s, PK_Store, a)) return ST_Stay;
      if (s.mutexOwner.count(a)) { ret(Val((uint64_t)16)); break; }
      s.mutexOwner[a] = (int)s.cur;
      s.th[s.cur].vc.join(s.mutexVC[a]);
      ret(Val((uint64_t)0));
      break;
    }
    case IN_MUnlock: {
      uint64_t a = conc(s, A(0), 64);
      auto it = s.mutexOwner.find(a);
      if (it == s.mutexOwner.end() || it->second != (int)s.cur) violate(s, "property", "unlock of a mutex the thread does not hold");
      s.mutexOwner.erase(it);
      s.mutexVC[a] = t.vc;
      tick(s);
      ret(Val((uint64_t)0));
      break;
    }
    case IN_CWait: {
      uint64_t cv = conc(s, A(0), 64), m = conc(s, A(1), 64);
      if (t.granted && t.pend.k == PK_Relock) {
        t.granted = false;
        t.pend.k = PK_None;
        s.mutexOwner[m] = (int)s.cur;
        t.vc.join(s.mutexVC[m]);
        break;
      }
      if (t.granted && t.pend.k == PK_CondBlocked) {
        t.granted = false;
        s.spurious++;
        t.pend.k = PK_Relock; t.pend.addr = m; t.pend.mtx = 0;
        schedule(s);
        return ST_Stay;
      }
      if (!visible(s, PK_CondOp, cv, m)) return ST_Stay;
      auto it = s.mutexOwner.find(m);
      if (it == s.mutexOwner.end() || it->second != (int)s.cur) violate(s, "property", "condition wait without holding the mutex");
      s.mutexOwner.erase(it);
      s.mutexVC[m] = s.th[s.cur].vc;
      tick(s);
      Thread &tt = s.th[s.cur];
      tt.pend.k = PK_CondBlocked; tt.pend.addr = cv; tt.pend.mtx = m;
      schedule(s);
      return ST_Stay;
    }
    case IN_CSignal: case IN_CBroadcast: {
      uint64_t cv = conc(s, A(0), 64);
      if (!visible(s, PK_CondOp, cv)) return ST_Stay;
      std::vector<unsigned> ws;
      for (unsigned i = 0; i < s.th.size(); i++)
        if (!s.th[i].finished && s.th[i].pend.k == PK_CondBlocked && s.th[i].pend.addr == cv) ws.push_back(i);
      auto wake = [](State &x, unsigned w2) {
        Thread &u = x.th[w2];
        u.pend.k = PK_Relock; u.pend.addr = u.pend.mtx; u.pend.mtx = 0;
      };
      if (cd.intr == IN_CBroadcast) for (unsigned x : ws) wake(s, x);
      else if (ws.size() == 1) wake(s, ws[0]);
      else if (ws.size() > 1) {
        for (size_t i = 1; i < ws.size(); i++) {
          State *n = forkState(s);
          n->sched.push_back((uint8_t)ws[i]);
          wake(*n, ws[i]);
          n->th[n->cur].frames.back().pc++;
        }
        s.sched.push_back((uint8_t)ws[0]);
        wake(s, ws[0]);
      }
      break;
    }
    case IN_AtBegin: s.atomicDepth++; break;
    case IN_AtEnd: if (s.atomicDepth) s.atomicDepth--; break;
    default: unsupported(s, "intrinsic " + std::to_string(cd.intr));
  }
  return ST_Next;
}

static void moves(Val *R, KFunc *f, const std::vector<Move> &mv) {
  for (auto &m : mv) R[m.dst] = m.src >= 0 ? R[m.src] : f->consts[~m.src];
}

static void run(State &s) {
  uint64_t tick0 = 0;
  for (;;) {
  reload:
    Thread *tp = &s.th[s.cur];
    if (tp->granted && tp->pend.k == PK_Start) { tp->granted = false; tp->pend.k = PK_None; }
    KFunc *f = tp->frames.back().f;
    Val *R = tp->regs.data() + tp->frames.back().base;
    Val *Cn = f->consts.data();
    Frame *fr = &tp->frames.back();
#define G(o) ((o) >= 0 ? R[o] : Cn[~(o)])
    for (;;) {
      KInst &k = f->code[fr->pc];
      s.steps++;
      nTotSteps++;
      if ((++tick0 & 4095) == 0) {
        if (elapsed() > optMaxTime) { inconclusive("time limit reached"); throw PathEnd{4}; }
      }
      if (s.steps > optMaxSteps) violate(s, "hang", "no termination within " + std::to_string(optMaxSteps) + " steps");
      switch (k.op) {
        case K_Bin: {
          const Val &a = G(k.a), &b = G(k.b);
          if (!a.e && !b.e) {
            uint64_t r;
            switch ((XOp)k.sub) {
              case XOp::Add: r = a.c + b.c; break;
              case XOp::Sub: r = a.c - b.c; break;
              case XOp::Mul: r = a.c * b.c; break;
              case XOp::And: r = a.c & b.c; break;
              case XOp::Or: r = a.c | b.c; break;
              case XOp::Xor: r = a.c ^ b.c; break;
              default: r = binop(s, (XOp)k.sub, a, b, k.w).c;
            }
            R[k.dst] = Val(r & maskw(k.w));
          } else { Val r = binop(s, (XOp)k.sub, a, b, k.w); R[k.dst] = r; }
          fr->pc++;
          break;
        }
        case K_ICmp: {
          const Val &a = G(k.a), &b = G(k.b);
          if (!a.e && !b.e) {
            uint64_t r = constFold((XOp)k.sub, a.c, b.c, k.w);
            R[k.dst] = Val(r ^ k.x);
          } else {
            E r = mkBin((XOp)k.sub, toE(a, k.w), toE(b, k.w));
            R[k.dst] = Val(k.x ? mkNot(r) : r);
          }
          fr->pc++;
          break;
        }
        case K_Trunc: {
          const Val &a = G(k.a);
          R[k.dst] = a.e ? Val(mkExtract(a.e, 0, k.w)) : Val(a.c & maskw(k.w));
          fr->pc++;
          break;
        }
        case K_ZExt: {
          const Val &a = G(k.a);
          R[k.dst] = a.e ? Val(mkZExt(a.e, k.w)) : a;
          fr->pc++;
          break;
        }
        case K_SExt: {
          const Val &a = G(k.a);
          R[k.dst] = a.e ? Val(mkSExt(a.e, k.w)) : Val((uint64_t)sx(a.c, k.w2) & maskw(k.w));
          fr->pc++;
          break;
        }
        case K_Copy:
          for (uint32_t i = 0; i < k.x; i++) { Val v = k.a >= 0 ? R[k.a + i] : Cn[~k.a + i]; R[k.dst + i] = v; }
          fr->pc++;
          break;
        case K_Gep: {
          const GepDesc &g = f->geps[k.x];
          Val p = G(k.a);
          uint64_t off = g.off;
          E sym = p.e;
          for (auto &t : g.t) {
            const Val &ix = G(t.idx);
            if (!ix.e) off += (uint64_t)sx(ix.c, t.w) * t.scale;
            else {
              E x = mkBin(XOp::Mul, mkSExt(ix.e, 64), mkConst(t.scale, 64));
              sym = sym ? mkBin(XOp::Add, sym, x) : x;
            }
          }
          if (!sym) R[k.dst] = Val(p.c + off);
          else R[k.dst] = Val(mkBin(XOp::Add, sym, mkConst(off + (p.e ? 0 : p.c), 64)));
          fr->pc++;
          break;
        }
        case K_Load: {
          Val a = G(k.a);
          if (k.atomic) {
            uint64_t ad = conc(s, a, 64, "an address");
            a = Val(ad);
            if (!visible(s, PK_Load, ad)) goto reload;
          }
          auto &lv = f->leaves[k.x];
          uint64_t off;
          E so = nullptr;
          Obj *o = resolve(s, a, k.y, "read", off, lv.size() == 1 ? &so : nullptr);
          if (so) {
            if (o->size <= 96 && s.th.size() < 2) {
              E r = nullptr;
              for (uint64_t i = o->size - k.y + 1; i-- > 0;) {
                Val v = readN(s, objAt(s, o->base), i, k.y);
                o = objAt(s, o->base);
                E ve = toE(v, 8 * k.y);
                r = r ? mkIte(mkEq(so, mkConst(i, 64)), ve, r) : ve;
              }
              R[k.dst] = fitW(Val(r), 8 * k.y, lv[0].w);
              fr->pc++;
              break;
            }
            // (bytes only: wider reads are pointers and counters, better taken value by value)
            if (E r = k.y == 1 ? readRuns(s, o, so, 1) : nullptr) {
              R[k.dst] = fitW(Val(r), 8 * k.y, lv[0].w);
              fr->pc++;
              break;
            }
            off = conc(s, a, 64, "an address") - o->base;
          }
          if (s.th.size() > 1) { shadow(s, o, off, k.y, k.atomic ? A_ARead : A_Read); o = objAt(s, o->base); }
          for (size_t i = 0; i < lv.size(); i++) {
            unsigned nb = (lv[i].w + 7) / 8;
            Val v = readN(s, o, off + lv[i].off, nb);
            if (v.e) o = objAt(s, o->base);
            R[k.dst + i] = fitW(v, nb * 8, lv[i].w);
          }
          if (k.atomic && s.th.size() > 1) atomicRead(s, a.c, k.atomic);
          fr->pc++;
          break;
        }
        case K_Store: {
          Val a = G(k.a);
          if (k.atomic) {
            uint64_t ad = conc(s, a, 64, "an address");
            a = Val(ad);
            if (!visible(s, PK_Store, ad)) goto reload;
          }
          auto &lv = f->leaves[k.x];
          uint64_t off;
          Obj *o = resolve(s, a, k.y, "write", off);
          if (o->ro) violate(s, "memory", "write to constant data");
          if (s.th.size() > 1) shadow(s, o, off, k.y, k.atomic ? A_AWrite : A_Write);
          o = wobj(s, objAt(s, o->base));
          for (size_t i = 0; i < lv.size(); i++) {
            unsigned nb = (lv[i].w + 7) / 8;
            Val v = k.b >= 0 ? R[k.b + i] : Cn[~k.b + i];
            if (lv[i].w != nb * 8 && v.e) v = Val(mkZExt(v.e, nb * 8));
            writeN(s, o, off + lv[i].off, nb, v);
          }
          if (k.atomic && s.th.size() > 1) atomicWrite(s, a.c, k.atomic, false);
          fr->pc++;
          break;
        }
        case K_Select: {
          const Val &c = G(k.a);
          if (c.e && k.w) {
            E r = mkIte(c.e, toE(G(k.b), k.w), toE(G(k.c), k.w));
            R[k.dst] = Val(r);
          } else {
            bool b = c.e ? decide(s, c, "a select condition") : c.c != 0;
            int o = b ? k.b : k.c;
            for (uint32_t i = 0; i < k.x; i++) { Val v = o >= 0 ? R[o + i] : Cn[~o + i]; R[k.dst + i] = v; }
          }
          fr->pc++;
          break;
        }
        case K_Br:
          moves(R, f, f->edges[k.y]);
          fr->pc = k.x;
          break;
        case K_CondBr: {
          const Val &c = G(k.a);
          bool b;
          if (!c.e) b = c.c != 0;
          else {
            auto it = s.subst.find(c.e->id);
            if (it != s.subst.end()) b = it->second != 0;
            else {
              nBranchQ++;
              checkUndef(s, c.e, "a branch condition");
              b = evalModel(c.e, *s.model) != 0;
              E other = b ? mkNot(c.e) : c.e;
              ModelP m;
              if (ask(s, other, &m) == Res::Sat) {
                State *n = forkState(s);
                addPC(*n, other);
                n->model = m;
                Thread &nt = n->th[n->cur];
                Val *NR = nt.regs.data() + nt.frames.back().base;
                moves(NR, f, f->edges[b ? k.y + 1 : k.y]);
                nt.frames.back().pc = b ? (uint32_t)k.b : k.x;
                addPC(s, b ? c.e : mkNot(c.e));
                size_t rss = 0;
                if ((nForks & 255) == 0) {
                  FILE *sf = fopen("/proc/self/statm", "r");
                  size_t tot;
                  if (sf) { if (fscanf(sf, "%zu %zu", &tot, &rss) != 2) rss = 0; fclose(sf); }
                  if (rss * 4096 / 1048576 > optMaxRssMB) { inconclusive("memory limit reached"); g_t0 = std::chrono::steady_clock::now() - std::chrono::hours(100); throw PathEnd{4}; }
                }
              }
            }
          }
          moves(R, f, f->edges[b ? k.y : k.y + 1]);
          fr->pc = b ? k.x : (uint32_t)k.b;
          break;
        }
        case K_Switch: {
          uint64_t v = conc(s, G(k.a), k.w, "a switch value");
          SwDesc &d = f->sws[k.x];
          uint32_t t = d.dflt, e = d.dfltEdge;
          for (auto &c : d.cases) if (c.first == v) { t = c.second.first; e = c.second.second; break; }
          moves(R, f, f->edges[e]);
          fr->pc = t;
          break;
        }
        case K_Ret: {
          std::vector<Val> rv;
          if (k.I->getNumOperands()) for (uint32_t i = 0; i < k.x; i++) rv.push_back(k.a >= 0 ? R[k.a + i] : Cn[~k.a + i]);
          if (popFrame(s, rv)) {
            if (s.cur == 0) throw PathEnd{0};
            s.th[s.cur].finished = true;
            s.live--;
            schedule(s);
          }
          goto reload;
        }
        case K_Unreachable: violate(s, "ub", "unreachable code reached");
        case K_Alloca: {
          uint64_t n = conc(s, G(k.a), 64, "an array size") * k.x;
          Obj *o = allocObj(s, n, OK_Stack, k.y);
          tp->allocas.push_back(slotOf(o->base));
          R[k.dst] = Val(o->base);
          fr->pc++;
          break;
        }
        case K_Intr: {
          Step st = intrinsic(s, k, f->calls[k.x]);
          if (st == ST_Next) s.th[s.cur].frames.back().pc++;
          goto reload;
        }
        case K_Call: case K_CallInd: {
          const CallDesc &cd = f->calls[k.x];
          KFunc *callee = cd.f;
          if (k.op == K_CallInd) {
            uint64_t a = conc(s, G(cd.fnptr), 64, "a function pointer");
            uint64_t ix = (a - FN_BASE) / 16;
            if (a < FN_BASE || ix >= fnByIdx.size() || (a & 15)) violate(s, "memory", a ? "call through an invalid function pointer" : "call through a null function pointer");
            if (fnByIdx[ix]->isDeclaration()) {
              auto it = intrByName.find(fnByIdx[ix]->getName().str());
              if (it == intrByName.end()) unsupported(s, "indirect call to " + fnByIdx[ix]->getName().str());
              CallDesc c2 = cd;
              c2.intr = it->second;
              Step st = intrinsic(s, k, c2);
              if (st == ST_Next) s.th[s.cur].frames.back().pc++;
              goto reload;
            }
            callee = kf(fnByIdx[ix]);
          }
          if (!callee->compiled) compileFn(callee);
          std::vector<Val> av;
          std::shared_ptr<std::vector<Val>> va;
          size_t np = callee->F->arg_size();
          std::vector<uint32_t> byvals;
          for (size_t i = 0; i < cd.args.size(); i++) {
            const ArgD &ad = cd.args[i];
            Val v = G(ad.src);
            if (ad.byval) {
              Obj *o = allocObj(s, ad.byval, OK_Stack);
              byvals.push_back(slotOf(o->base));
              uint64_t b = o->base;
              copyMem(s, Val(b), v, ad.byval);
              v = Val(b);
            }
            if (i < np) {
              av.push_back(v);
              for (unsigned j = 1; j < ad.n; j++) av.push_back(ad.src >= 0 ? R[ad.src + j] : Cn[~ad.src + j]);
            } else {
              if (!va) va = std::make_shared<std::vector<Val>>();
              if (v.e && v.e->width < 64) v = Val(mkZExt(v.e, 64));
              va->push_back(v);
            }
          }
          pushFrame(s, *tp, callee, av, va, k.dst);
          for (uint32_t b : byvals) tp->allocas.push_back(b);
          goto reload;
        }
        case K_RMW: {
          uint64_t ad = conc(s, G(k.a), 64, "an address");
          if (!visible(s, PK_Store, ad)) goto reload;
          unsigned nb = k.w / 8;
          uint64_t off;
          Obj *o = resolve(s, Val(ad), nb, "atomic update", off);
          if (s.th.size() > 1) { shadow(s, o, off, nb, A_AWrite); o = objAt(s, o->base); }
          Val old = readN(s, o, off, nb);
          Val b = G(k.b), nv;
          E x = toE(old, k.w), y = toE(b, k.w);
          switch ((AtomicRMWInst::BinOp)k.sub) {
            case AtomicRMWInst::Xchg: nv = b; break;
            case AtomicRMWInst::Add: nv = Val(mkBin(XOp::Add, x, y)); break;
            case AtomicRMWInst::Sub: nv = Val(mkBin(XOp::Sub, x, y)); break;
            case AtomicRMWInst::And: nv = Val(mkBin(XOp::And, x, y)); break;
            case AtomicRMWInst::Or: nv = Val(mkBin(XOp::Or, x, y)); break;
            case AtomicRMWInst::Xor: nv = Val(mkBin(XOp::Xor, x, y)); break;
            default: unsupported(s, "atomic rmw");
          }
          o = wobj(s, objAt(s, o->base));
          writeN(s, o, off, nb, nv);
          R[k.dst] = old;
          if (s.th.size() > 1) { atomicRead(s, ad, k.atomic); atomicWrite(s, ad, k.atomic, true); }
          fr->pc++;
          break;
        }
        case K_CmpXchg: {
          uint64_t ad = conc(s, G(k.a), 64, "an address");
          if (!visible(s, PK_Store, ad)) goto reload;
          unsigned nb = k.w / 8;
          uint64_t off;
          Obj *o = resolve(s, Val(ad), nb, "atomic update", off);
          Val old = readN(s, o, off, nb);
          o = objAt(s, o->base);
          E eq = mkEq(toE(old, k.w), toE(G(k.b), k.w));
          bool ok = decide(s, Val(eq), "a compare-exchange");
          if (s.th.size() > 1) { shadow(s, o, off, nb, ok ? A_AWrite : A_ARead); o = objAt(s, o->base); }
          if (ok) { o = wobj(s, o); writeN(s, o, off, nb, G(k.c)); }
          R[k.dst] = old;
          R[k.dst + 1] = Val((uint64_t)ok);
          if (s.th.size() > 1) {
            atomicRead(s, ad, ok ? k.atomic : (uint8_t)k.x);
            if (ok) atomicWrite(s, ad, k.atomic, true);
          }
          fr->pc++;
          break;
        }
        case K_Fence: {
          Thread &t = *tp;
          if (k.atomic == 2 || k.atomic == 4) t.vc.join(t.acqP);
          if (k.atomic == 3 || k.atomic == 4) { t.relF = t.vc; if (s.th.size() > 1) tick(s); }
          fr->pc++;
          break;
        }
        case K_FBin: {
          const Val &a = G(k.a), &b = G(k.b);
          if (a.e || b.e) unsupported(s, "symbolic floating point");
          double x = asF(a.c, k.w), y = asF(b.c, k.w), r = 0;
          switch (k.sub) {
            case Instruction::FAdd: r = x + y; break;
            case Instruction::FSub: r = x - y; break;
            case Instruction::FMul: r = x * y; break;
            case Instruction::FDiv: r = x / y; break;
            default: unsupported(s, "floating point operation");
          }
          R[k.dst] = Val(fromF(r, k.w));
          fr->pc++;
          break;
        }
        case K_FNeg: {
          if (G(k.a).e) unsupported(s, "symbolic floating point");
          R[k.dst] = Val(fromF(-asF(G(k.a).c, k.w), k.w));
          fr->pc++;
          break;
        }
        case K_FCmp: {
          const Val &a = G(k.a), &b = G(k.b);
          if (a.e || b.e) unsupported(s, "symbolic floating point");
          double x = asF(a.c, k.w), y = asF(b.c, k.w);
          bool un = std::isnan(x) || std::isnan(y);
          unsigned p = k.sub;  // FCMP predicates are bit masks: 1 eq, 2 gt, 4 lt, 8 unordered
          bool r = un ? (p & 8) : ((x == y && (p & 1)) || (x > y && (p & 2)) || (x < y && (p & 4)));
          R[k.dst] = Val((uint64_t)r);
          fr->pc++;
          break;
        }
        case K_FCast: {
          const Val &a = G(k.a);
          if (a.e) unsupported(s, "symbolic floating point");
          uint64_t r = 0;
          switch (k.sub) {
            case Instruction::SIToFP: r = fromF((double)sx(a.c, k.w2), k.w); break;
            case Instruction::UIToFP: r = fromF((double)a.c, k.w); break;
            case Instruction::FPToSI: r = (uint64_t)(int64_t)asF(a.c, k.w2); break;
            case Instruction::FPToUI: { double d = asF(a.c, k.w2); r = d >= 9.2e18 ? (uint64_t)(d - 9223372036854775808.0) + (1ull << 63) : (uint64_t)d; break; }
            case Instruction::FPExt: case Instruction::FPTrunc: r = fromF(asF(a.c, k.w2), k.w); break;
            default: unsupported(s, "floating point conversion");
          }
          R[k.dst] = Val(r & maskw(k.w));
          fr->pc++;
          break;
        }
        case K_Unsupported: {
          std::string what = k.I->getOpcodeName();
          if (auto *cb = dyn_cast<CallInst>(k.I))
            if (auto *cf = cb->getCalledFunction()) what = "call to " + cf->getName().str();
          unsupported(s, what);
        }
      }
    }
  }
}

// ------------------------------------------------------------------ initialisation
static void storeConst(State &s, Obj *o, const Constant *c, uint64_t off) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;  // memory starts zeroed
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = cd->getElementByteSize();
    for (unsigned i = 0; i < cd->getNumElements(); i++) {
      std::vector<Val> v;
      evalConst(cd->getElementAsConstant(i), v);
      writeN(s, o, off + i * es, (unsigned)es, v[0]);
    }
    return;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    const StructLayout *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) storeConst(s, o, cs->getOperand(i), off + sl->getElementOffset(i));
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) storeConst(s, o, ca->getOperand(i), off + i * es);
    return;
  }
  std::vector<Val> v;
  if (!evalConst(c, v) || v.size() != 1) { inconclusive("unsupported constant initialiser"); return; }
  writeN(s, o, off, (unsigned)DL->getTypeStoreSize(c->getType()), v[0]);
}

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

// the compiler names a thread-local variable directly where it does not keep the address: make every access ask for it
static void ownThreadLocals(Module &m) {
  for (auto &g : m.globals()) {
    if (!g.isThreadLocal()) continue;
    convertUsersOfConstantsToInstructions({&g});
    std::vector<Use *> uses;
    for (Use &u : g.uses()) {
      auto *i = dyn_cast<Instruction>(u.getUser());
      if (!i) continue;
      auto *c = dyn_cast<IntrinsicInst>(i);
      if (!c || c->getIntrinsicID() != Intrinsic::threadlocal_address) uses.push_back(&u);
    }
    for (Use *u : uses) {
      auto *i = cast<Instruction>(u->getUser());
      Instruction *at = i;
      if (auto *p = dyn_cast<PHINode>(i)) at = p->getIncomingBlock(*u)->getTerminator();
      Function *f = Intrinsic::getDeclaration(&m, Intrinsic::threadlocal_address, {g.getType()});
      u->set(CallInst::Create(f, {&g}, "", at));
    }
  }
}
int main(int argc, char **argv) {
  // expressions can be as deep as the code's loops are long: work with a large stack
  struct rlimit rl;
  const rlim_t want = (rlim_t)8 << 30;
  if (!getenv("LSX_STACK") && !getrlimit(RLIMIT_STACK, &rl) && rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want) {
    rl.rlim_cur = rl.rlim_max == RLIM_INFINITY || rl.rlim_max > want ? want : rl.rlim_max;
    setenv("LSX_STACK", "1", 1);
    if (!setrlimit(RLIMIT_STACK, &rl)) execv("/proc/self/exe", argv);
  }
  std::string bc, entry = "lsx_main", smtDump;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--entry") entry = next();
    else if (a == "--out") optOut = next();
    else if (a == "--cex-dir") optCexDir = next();
    else if (a == "--max-time") optMaxTime = atof(next().c_str());
    else if (a == "--max-steps") optMaxSteps = strtoull(next().c_str(), 0, 0);
    else if (a == "--preempt") optPreempt = atoi(next().c_str());
    else if (a == "--no-sleep") optSleep = false;
    else if (a == "--spurious") optSpurious = (unsigned)atoi(next().c_str());
    else if (a == "--validate") optValidate = (unsigned)atoi(next().c_str());
    else if (a == "--max-viol") optMaxViol = (unsigned)atoi(next().c_str());
    else if (a == "--repo") optRepo = next();
    else if (a == "--seed") optSeed = strtoull(next().c_str(), 0, 0);
    else if (a == "--mem") optMaxRssMB = strtoull(next().c_str(), 0, 0);
    else if (a == "--solver-timeout") g_solver_timeout_ms = (unsigned)atoi(next().c_str());
    else if (a == "--smt-dump") smtDump = next();
    else if (a == "--trace") optTrace = true;
    else if (a == "--param") {
      std::string p = next();
      size_t e = p.find('=');
      optParams[p.substr(0, e)] = strtoull(p.c_str() + e + 1, 0, 0);
    } else bc = a;
  }
  rng ^= optSeed * 0x9e3779b97f4a7c15ull;
  g_t0 = std::chrono::steady_clock::now();
  if (!smtDump.empty()) g_smt_dump = fopen(smtDump.c_str(), "w");
  for (auto &x : intrTable) intrByName[x.n] = x.id;
  SMDiagnostic err;
  auto mod = parseIRFile(bc, err, ctx);
  if (!mod) { err.print("lsx", errs()); return 3; }
  M = mod.get();
  ownThreadLocals(*M);
  DL = &M->getDataLayout();
  Function *ef = M->getFunction(entry);
  if (!ef || ef->isDeclaration()) { fprintf(stderr, "lsx: no entry %s\n", entry.c_str()); return 3; }
  for (auto &F : *M) addrOfFn(&F);

  State *init = new State();
  init->model = std::make_shared<Model>();
  init->th.emplace_back();
  init->th[0].vc.c[0] = 1;
  for (auto &g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 8;
    Obj *o = allocObj(*init, sz, OK_Global, g.getAlign() ? (unsigned)g.getAlign()->value() : 16);
    o->zero = true;
    gvAddr[&g] = o->base;
    if (g.isThreadLocal()) tlsVar[o->base] = &g;
  }
  for (auto &g : M->globals()) {
    if (g.getName().starts_with("llvm.") || !g.hasInitializer()) continue;
    Obj *o = objAt(*init, gvAddr[&g]);
    o = wobj(*init, o);
    storeConst(*init, o, g.getInitializer(), 0);
    o->ro = g.isConstant();
  }
  pushFrame(*init, init->th[0], kf(ef), {}, nullptr, -1);
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
    std::vector<std::pair<uint64_t, Function *>> cs;
    if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto &op : ca->operands()) {
        auto *st = cast<ConstantStruct>(op);
        if (auto *fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn});
      }
    std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (size_t i = cs.size(); i-- > 0;)
      if (!cs[i].second->isDeclaration()) pushFrame(*init, init->th[0], kf(cs[i].second), {}, nullptr, -2);
  }
  init->liveAllocs = 0;
  work.push_back(init);
  std::vector<std::string> traces;
  uint64_t seenDone = 0;
  while (!work.empty()) {
    if (elapsed() > optMaxTime) { inconclusive("time limit reached"); break; }
    State *s = work.back();
    work.pop_back();
    int why = -1;
    try {
      run(*s);
    } catch (PathEnd &pe) { why = pe.why; }
    switch (why) {
      case 0:
        nCompleted++;
        if (optValidate && s->model) {
          // reservoir sample of completed paths for native replay
          seenDone++;
          if (traces.size() < optValidate) traces.push_back(dumpState(*s, *s->model, "pass", "completed path", "path-"));
          else {
            uint64_t j = rnd() % seenDone;
            if (j < optValidate) { unlink(traces[j].c_str()); traces[j] = dumpState(*s, *s->model, "pass", "completed path", "path-"); }
          }
        }
        break;
      case 1: nInfeasible++; break;
      case 2: nPruned++; break;
      case 4: nIncPaths++; break;
    }
    delete s;
    if (g_viol.size() >= optMaxViol) break;
  }
  double el = elapsed();
  std::string j = "{";
  auto num = [&](const char *n, double v) { char b[96]; snprintf(b, sizeof b, "\"%s\": %.6g, ", n, v); j += b; };
  auto numu = [&](const char *n, uint64_t v) { char b[96]; snprintf(b, sizeof b, "\"%s\": %llu, ", n, (unsigned long long)v); j += b; };
  numu("completed", nCompleted); numu("infeasible", nInfeasible); numu("pruned", nPruned); numu("violating", nViol); numu("inconclusive_paths", nIncPaths);
  numu("left", work.size()); numu("forks", nForks); numu("steps", nTotSteps); numu("branch_queries", nBranchQ); numu("bounds_queries", nBoundsQ);
  numu("assert_checks", nAsserts); numu("undef_checks", nUndefChecks); numu("schedule_points", nSchedPts); numu("max_forks_on_path", nMaxDepth);
  numu("solver_questions", g_ss.queries); numu("model_hits", g_ss.modelHits); numu("cache_hits", g_ss.cacheHits); numu("z3_queries", g_ss.z3);
  numu("z3_sat", g_ss.sat); numu("z3_unsat", g_ss.unsat); numu("z3_unknown", g_ss.unknown);
  num("z3_time", g_ss.z3time); num("z3_max", g_ss.maxq); num("elapsed", el < 1e5 ? el : 0); numu("exprs", g_pool.count);
  j += "\"inconclusive\": " + std::string(g_inconclusive ? "true" : "false") + ", \"why\": [";
  for (size_t i = 0; i < g_why.size(); i++) j += (i ? ", " : "") + jstr(g_why[i]);
  j += "], \"covers\": [";
  bool first = true;
  for (auto &c : g_covers) { j += (first ? "" : ", ") + jstr(c); first = false; }
  j += "], \"fork_sites\": {";
  first = true;
  {
    std::vector<std::pair<uint64_t, const Instruction *>> fs;
    for (auto &p : forkSites) fs.push_back({p.second, p.first});
    std::sort(fs.begin(), fs.end(), [](auto &x, auto &y) { return x.first > y.first; });
    for (size_t i = 0; i < fs.size() && i < 12; i++) { j += (first ? "" : ", ") + jstr(locOf(fs[i].second)) + ": " + std::to_string(fs[i].first); first = false; }
  }
  j += "}, \"params\": {";
  first = true;
  for (auto &p : optParams) { j += (first ? "" : ", ") + jstr(p.first) + ": " + std::to_string(p.second); first = false; }
  j += "}, \"functions\": [";
  first = true;
  for (auto &p : kfuncs)
    if (p.second->executed && p.second->fromRepo) { j += (first ? "" : ", ") + jstr(p.second->F->getName().str()); first = false; }
  unsigned other = 0;
  for (auto &p : kfuncs) if (p.second->executed && !p.second->fromRepo) other++;
  j += "], \"other_functions\": " + std::to_string(other) + ", \"traces\": [";
  for (size_t i = 0; i < traces.size(); i++) j += (i ? ", " : "") + jstr(traces[i]);
  j += "], \"violations\": [";
  for (size_t i = 0; i < g_viol.size(); i++) {
    auto &v = g_viol[i];
    j += (i ? ", {" : "{") + std::string("\"kind\": ") + jstr(v.kind) + ", \"msg\": " + jstr(v.msg) + ", \"file\": " + jstr(v.file) + ", \"stack\": [";
    for (size_t x = 0; x < v.stack.size(); x++) j += (x ? ", " : "") + jstr(v.stack[x]);
    j += "]}";
  }
  j += "]}\n";
  if (!optOut.empty()) { std::ofstream(optOut) << j; }
  else fputs(j.c_str(), stdout);
  fflush(stdout);
  if (g_smt_dump) fclose(g_smt_dump);
  _exit(!g_viol.empty() ? 1 : g_inconclusive ? 2 : 0);
}
