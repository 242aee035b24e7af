// lsx: path-forking symbolic executor for LLVM 18 bitcode with an SMT back end.
#include "state.h"
#include <chrono>
#include <cmath>
#include <fstream>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;
typedef ::Op XOp;

// ------------------------------------------------------------------ options
static double optMaxTime = 600;
static uint64_t optMaxSteps = 20000000;
static int optPreempt = -1;
static bool optSleep = true;
static unsigned optSpurious = 0;
static unsigned optValidate = 0;
static unsigned optMaxViol = 1;
static std::string optCexDir = ".", optOut, optRepo = "/repo/";
static std::map<std::string, uint64_t> optParams;
static bool optTrace = false, optLeakCheck = true;
static uint64_t optSeed = 1;
static size_t optMaxRssMB = 6000;

// ------------------------------------------------------------------ compiled code
enum KO : uint8_t {
  K_Bin, K_ICmp, K_Trunc, K_ZExt, K_SExt, K_Copy, K_Load, K_Store, K_Gep, K_Select, K_Br, K_CondBr, K_Switch,
  K_Ret, K_Unreachable, K_Alloca, K_Call, K_CallInd, K_Intr, K_RMW, K_CmpXchg, K_Fence, K_FBin, K_FCmp, K_FCast,
  K_FNeg, K_Unsupported
};
struct Leaf { uint32_t off; uint16_t w; };
struct KInst {
  KO op; uint8_t sub; uint8_t w, w2;
  uint8_t atomic;          // 0 none, 1 relaxed, 2 acquire, 3 release, 4 acq_rel/seq_cst
  int dst;
  int a, b, c;
  uint32_t x, y;
  const Instruction *I;
};
struct GepTerm { int idx; uint8_t w; uint64_t scale; };
struct GepDesc { uint64_t off; std::vector<GepTerm> t; };
struct Move { int dst, src; };
struct ArgD { int src; uint16_t n; uint8_t w; uint64_t byval; };
struct CallDesc { KFunc *f; std::vector<ArgD> args; int fnptr; int intr; unsigned retW; unsigned nfixed; };
struct SwDesc { std::vector<std::pair<uint64_t, std::pair<uint32_t, uint32_t>>> cases; uint32_t dflt, dfltEdge; };
struct KFunc {
  Function *F;
  bool compiled = false;
  bool fromRepo = false, executed = false;
  uint32_t nregs = 0;
  std::vector<int> argSlot;
  std::vector<uint16_t> argN;
  uint32_t nargSlots = 0;
  std::vector<KInst> code;
  std::vector<Val> consts;
  std::vector<GepDesc> geps;
  std::vector<std::vector<Move>> edges;
  std::vector<CallDesc> calls;
  std::vector<SwDesc> sws;
  std::vector<std::vector<Leaf>> leaves;
};

static LLVMContext ctx;
static Module *M;
static const DataLayout *DL;
static std::unordered_map<const Function *, KFunc *> kfuncs;
static std::vector<Function *> fnByIdx;
static std::unordered_map<const Function *, uint64_t> fnAddr;
static std::unordered_map<const GlobalVariable *, uint64_t> gvAddr;
static std::unordered_map<uint64_t, const GlobalVariable *> tlsVar;  // by address

static void flatten(Type *t, uint64_t off, std::vector<Leaf> &out) {
  if (t->isVoidTy()) return;
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * sz, out);
    return;
  }
  unsigned w = t->isPointerTy() ? 64 : (unsigned)t->getPrimitiveSizeInBits().getFixedValue();
  if (t->isVectorTy() || w == 0 || w > 64) { out.push_back({(uint32_t)off, 255}); return; }
  out.push_back({(uint32_t)off, (uint16_t)w});
}
static bool badLeaf(const std::vector<Leaf> &l) { for (auto &x : l) if (x.w == 255) return true; return false; }

static KFunc *kf(Function *F) {
  auto it = kfuncs.find(F);
  if (it != kfuncs.end()) return it->second;
  KFunc *k = new KFunc();
  k->F = F;
  if (auto *sp = F->getSubprogram()) {
    std::string fn = sp->getFilename().str();
    std::string dir = sp->getDirectory().str();
    std::string full = fn.size() && fn[0] == '/' ? fn : dir + "/" + fn;
    k->fromRepo = full.compare(0, optRepo.size(), optRepo) == 0;
  }
  kfuncs[F] = k;
  return k;
}

static uint64_t addrOfFn(const Function *F) {
  auto it = fnAddr.find(F);
  if (it != fnAddr.end()) return it->second;
  uint64_t a = FN_BASE + 16 * fnByIdx.size();
  fnByIdx.push_back(const_cast<Function *>(F));
  fnAddr[F] = a;
  return a;
}

static unsigned undefCount = 0;
static Val freshUndef(unsigned w) {
  g_vars.push_back({"undef" + std::to_string(undefCount++), w, true});
  return Val(mkVar((unsigned)g_vars.size() - 1));
}

static bool evalConst(const Constant *c, std::vector<Val> &out);
static uint64_t constInt(const Constant *c) {
  std::vector<Val> v;
  if (!evalConst(c, v) || v.size() != 1 || v[0].e) return 0;
  return v[0].c;
}
static bool evalConst(const Constant *c, std::vector<Val> &out) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) { out.push_back(Val((uint64_t)0)); return ci->isZero(); }
    out.push_back(Val(ci->getZExtValue()));
    return true;
  }
  if (isa<ConstantPointerNull>(c)) { out.push_back(Val((uint64_t)0)); return true; }
  if (auto *fp = dyn_cast<ConstantFP>(c)) {
    APInt b = fp->getValueAPF().bitcastToAPInt();
    out.push_back(Val(b.getBitWidth() <= 64 ? b.getZExtValue() : 0));
    return b.getBitWidth() <= 64;
  }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    std::vector<Leaf> l;
    flatten(c->getType(), 0, l);
    if (badLeaf(l)) return false;
    for (auto &x : l) out.push_back(isa<UndefValue>(c) ? freshUndef(x.w) : Val((uint64_t)0));
    return true;
  }
  if (auto *f = dyn_cast<Function>(c)) { out.push_back(Val(addrOfFn(f))); return true; }
  if (auto *g = dyn_cast<GlobalVariable>(c)) {
    auto it = gvAddr.find(g);
    out.push_back(Val(it == gvAddr.end() ? 0x1000 : it->second));
    return true;
  }
  if (auto *a = dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee(), out);
  if (auto *ag = dyn_cast<ConstantAggregate>(c)) {
    if (isa<ConstantVector>(c)) return false;
    bool ok = true;
    for (auto &o : ag->operands()) ok &= evalConst(cast<Constant>(o), out);
    return ok;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    if (isa<VectorType>(c->getType())) return false;
    bool ok = true;
    for (unsigned i = 0; i < cd->getNumElements(); i++) ok &= evalConst(cd->getElementAsConstant(i), out);
    return ok;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (!g->accumulateConstantOffset(*DL, off)) return false;
      out.push_back(Val(constInt(cast<Constant>(g->getPointerOperand())) + off.getZExtValue()));
      return true;
    }
    uint64_t a = constInt(ce->getOperand(0));
    unsigned w = ce->getType()->isPointerTy() ? 64 : ce->getType()->getScalarSizeInBits();
    if (ce->isCast()) {
      switch (ce->getOpcode()) {
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc:
        case Instruction::ZExt: case Instruction::AddrSpaceCast:
          out.push_back(Val(a & maskw(w)));
          return true;
        default: return false;
      }
    }
    if (ce->getNumOperands() == 2) {
      uint64_t b = constInt(ce->getOperand(1));
      switch (ce->getOpcode()) {
        case Instruction::Add: out.push_back(Val((a + b) & maskw(w))); return true;
        case Instruction::Sub: out.push_back(Val((a - b) & maskw(w))); return true;
        case Instruction::ICmp: {
          auto p = (CmpInst::Predicate)ce->getPredicate();
          if (p == CmpInst::ICMP_EQ) { out.push_back(Val((uint64_t)(a == b))); return true; }
          if (p == CmpInst::ICMP_NE) { out.push_back(Val((uint64_t)(a != b))); return true; }
          return false;
        }
        default: return false;
      }
    }
  }
  return false;
}

static unsigned tw(Type *t) {
  if (t->isPointerTy()) return 64;
  return (unsigned)t->getPrimitiveSizeInBits().getFixedValue();
}
static uint8_t ordCode(AtomicOrdering o) {
  switch (o) {
    case AtomicOrdering::NotAtomic: return 0;
    case AtomicOrdering::Unordered: case AtomicOrdering::Monotonic: return 1;
    case AtomicOrdering::Acquire: return 2;
    case AtomicOrdering::Release: return 3;
    default: return 4;
  }
}

#include "intr.h"
static std::unordered_map<std::string, int> intrByName;

static void compileFn(KFunc *k) {
  k->compiled = true;
  Function *F = k->F;
  std::unordered_map<const Value *, int> slot;
  uint32_t n = 0;
  auto leavesOf = [&](Type *t) { std::vector<Leaf> l; flatten(t, 0, l); return l; };
  for (auto &a : F->args()) {
    auto l = leavesOf(a.getType());
    slot[&a] = n;
    k->argSlot.push_back(n);
    k->argN.push_back((uint16_t)l.size());
    n += l.size();
  }
  k->nargSlots = n;
  std::vector<const Instruction *> undefInit;
  for (auto &bb : *F)
    for (auto &I : bb) {
      if (I.getType()->isVoidTy()) continue;
      slot[&I] = n;
      n += leavesOf(I.getType()).size();
    }
  std::unordered_map<const Value *, int> cslot;
  bool bad = false;
  auto op = [&](const Value *v) -> int {
    auto it = slot.find(v);
    if (it != slot.end()) return it->second;
    auto ic = cslot.find(v);
    if (ic != cslot.end()) return ic->second;
    int r = ~(int)k->consts.size();
    if (auto *c = dyn_cast<Constant>(v)) {
      if (!evalConst(c, k->consts)) bad = true;
      if (k->consts.size() == (size_t)~r) k->consts.push_back(Val((uint64_t)0));
    } else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) {
      k->consts.push_back(Val((uint64_t)0));
    } else { bad = true; k->consts.push_back(Val((uint64_t)0)); }
    cslot[v] = r;
    return r;
  };
  std::unordered_map<const BasicBlock *, uint32_t> bbStart;
  struct Fix { uint32_t inst; int which; const BasicBlock *from, *to; size_t cidx; };
  std::vector<Fix> fixes;
  uint32_t scratch = n;  // parallel-move scratch registers
  uint32_t maxScratch = 0;
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) -> uint32_t {
    std::vector<Move> mv;
    for (auto &phi : to->phis()) {
      auto nl = leavesOf(phi.getType()).size();
      int s = op(phi.getIncomingValueForBlock(from));
      int d = slot[&phi];
      for (size_t i = 0; i < nl; i++) mv.push_back({d + (int)i, s >= 0 ? s + (int)i : s - (int)i});
    }
    // parallel copy: go through scratch when a source is overwritten earlier
    bool conflict = false;
    for (size_t i = 0; i < mv.size() && !conflict; i++)
      for (size_t j = i + 1; j < mv.size(); j++) if (mv[j].src == mv[i].dst) { conflict = true; break; }
    if (conflict) {
      std::vector<Move> r;
      for (size_t i = 0; i < mv.size(); i++) r.push_back({(int)(scratch + i), mv[i].src});
      for (size_t i = 0; i < mv.size(); i++) r.push_back({mv[i].dst, (int)(scratch + i)});
      if (mv.size() > maxScratch) maxScratch = (uint32_t)mv.size();
      mv.swap(r);
    }
    k->edges.push_back(mv);
    return (uint32_t)k->edges.size() - 1;
  };
  for (auto &bb : *F) {
    bbStart[&bb] = (uint32_t)k->code.size();
    for (auto &I : bb) {
      KInst ki;
      memset(&ki, 0, sizeof ki);
      ki.I = &I;
      ki.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      bad = false;
      auto unsup = [&] { ki.op = K_Unsupported; };
      auto widthOk = [&](const Value *v) { return !v->getType()->isVectorTy() && tw(v->getType()) >= 1 && tw(v->getType()) <= 64; };
      if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
        ki.a = op(bo->getOperand(0)); ki.b = op(bo->getOperand(1));
        ki.w = widthOk(bo) ? (uint8_t)tw(bo->getType()) : 0;
        ki.op = K_Bin;
        switch (bo->getOpcode()) {
          case Instruction::Add: ki.sub = (uint8_t)XOp::Add; break;
          case Instruction::Sub: ki.sub = (uint8_t)XOp::Sub; break;
          case Instruction::Mul: ki.sub = (uint8_t)XOp::Mul; break;
          case Instruction::UDiv: ki.sub = (uint8_t)XOp::UDiv; break;
          case Instruction::SDiv: ki.sub = (uint8_t)XOp::SDiv; break;
          case Instruction::URem: ki.sub = (uint8_t)XOp::URem; break;
          case Instruction::SRem: ki.sub = (uint8_t)XOp::SRem; break;
          case Instruction::And: ki.sub = (uint8_t)XOp::And; break;
          case Instruction::Or: ki.sub = (uint8_t)XOp::Or; break;
          case Instruction::Xor: ki.sub = (uint8_t)XOp::Xor; break;
          case Instruction::Shl: ki.sub = (uint8_t)XOp::Shl; break;
          case Instruction::LShr: ki.sub = (uint8_t)XOp::LShr; break;
          case Instruction::AShr: ki.sub = (uint8_t)XOp::AShr; break;
          default: ki.op = K_FBin; ki.sub = (uint8_t)bo->getOpcode();
        }
        if (!widthOk(bo)) unsup();
      } else if (auto *ic = dyn_cast<ICmpInst>(&I)) {
        ki.op = K_ICmp; ki.a = op(ic->getOperand(0)); ki.b = op(ic->getOperand(1));
        if (!widthOk(ic->getOperand(0))) unsup();
        else ki.w = (uint8_t)tw(ic->getOperand(0)->getType());
        bool sw = false, neg = false;
        switch (ic->getPredicate()) {
          case CmpInst::ICMP_EQ: ki.sub = (uint8_t)XOp::Eq; break;
          case CmpInst::ICMP_NE: ki.sub = (uint8_t)XOp::Eq; neg = true; break;
          case CmpInst::ICMP_ULT: ki.sub = (uint8_t)XOp::Ult; break;
          case CmpInst::ICMP_ULE: ki.sub = (uint8_t)XOp::Ule; break;
          case CmpInst::ICMP_UGT: ki.sub = (uint8_t)XOp::Ult; sw = true; break;
          case CmpInst::ICMP_UGE: ki.sub = (uint8_t)XOp::Ule; sw = true; break;
          case CmpInst::ICMP_SLT: ki.sub = (uint8_t)XOp::Slt; break;
          case CmpInst::ICMP_SLE: ki.sub = (uint8_t)XOp::Sle; break;
          case CmpInst::ICMP_SGT: ki.sub = (uint8_t)XOp::Slt; sw = true; break;
          case CmpInst::ICMP_SGE: ki.sub = (uint8_t)XOp::Sle; sw = true; break;
          default: unsup();
        }
        if (sw) std::swap(ki.a, ki.b);
        ki.x = neg;
      } else if (auto *ca = dyn_cast<CastInst>(&I)) {
        const Value *s = ca->getOperand(0);
        ki.a = op(s);
        if (!widthOk(s) || !widthOk(ca)) unsup();
        else {
          ki.w = (uint8_t)tw(ca->getType());
          ki.w2 = (uint8_t)tw(s->getType());
          switch (ca->getOpcode()) {
            case Instruction::Trunc: ki.op = K_Trunc; break;
            case Instruction::ZExt: ki.op = K_ZExt; break;
            case Instruction::SExt: ki.op = K_SExt; break;
            case Instruction::PtrToInt: case Instruction::IntToPtr:
              ki.op = ki.w < ki.w2 ? K_Trunc : ki.w > ki.w2 ? K_ZExt : K_Copy; ki.x = 1; break;
            case Instruction::BitCast: case Instruction::AddrSpaceCast: ki.op = K_Copy; ki.x = 1; break;
            default: ki.op = K_FCast; ki.sub = (uint8_t)ca->getOpcode();
          }
        }
      } else if (auto *fr = dyn_cast<FreezeInst>(&I)) {
        ki.op = K_Copy; ki.a = op(fr->getOperand(0)); ki.x = (uint32_t)leavesOf(I.getType()).size();
      } else if (auto *li = dyn_cast<LoadInst>(&I)) {
        ki.op = K_Load; ki.a = op(li->getPointerOperand()); ki.atomic = ordCode(li->getOrdering());
        k->leaves.push_back(leavesOf(I.getType()));
        if (badLeaf(k->leaves.back())) unsup();
        ki.x = (uint32_t)k->leaves.size() - 1;
        ki.y = (uint32_t)DL->getTypeStoreSize(I.getType());
      } else if (auto *si = dyn_cast<StoreInst>(&I)) {
        ki.op = K_Store; ki.a = op(si->getPointerOperand()); ki.b = op(si->getValueOperand()); ki.atomic = ordCode(si->getOrdering());
        k->leaves.push_back(leavesOf(si->getValueOperand()->getType()));
        if (badLeaf(k->leaves.back())) unsup();
        ki.x = (uint32_t)k->leaves.size() - 1;
        ki.y = (uint32_t)DL->getTypeStoreSize(si->getValueOperand()->getType());
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        ki.op = K_Gep; ki.a = op(g->getPointerOperand());
        GepDesc d;
        d.off = 0;
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          const Value *ix = gi.getOperand();
          if (StructType *st = gi.getStructTypeOrNull()) {
            d.off += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue());
          } else {
            uint64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) d.off += (uint64_t)ci->getSExtValue() * sc;
            else d.t.push_back({op(ix), (uint8_t)tw(ix->getType()), sc});
          }
        }
        k->geps.push_back(d);
        ki.x = (uint32_t)k->geps.size() - 1;
      } else if (auto *se = dyn_cast<SelectInst>(&I)) {
        ki.op = K_Select; ki.a = op(se->getCondition()); ki.b = op(se->getTrueValue()); ki.c = op(se->getFalseValue());
        ki.x = (uint32_t)leavesOf(I.getType()).size();
        ki.w = ki.x == 1 && widthOk(&I) ? (uint8_t)tw(I.getType()) : 0;
      } else if (auto *br = dyn_cast<BranchInst>(&I)) {
        uint32_t idx = (uint32_t)k->code.size();
        if (br->isUnconditional()) {
          ki.op = K_Br;
          ki.y = edge(&bb, br->getSuccessor(0));
          fixes.push_back({idx, 0, &bb, br->getSuccessor(0), 0});
        } else {
          ki.op = K_CondBr;
          ki.a = op(br->getCondition());
          ki.y = edge(&bb, br->getSuccessor(0));
          edge(&bb, br->getSuccessor(1));
          fixes.push_back({idx, 0, &bb, br->getSuccessor(0), 0});
          fixes.push_back({idx, 1, &bb, br->getSuccessor(1), 0});
        }
      } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        ki.op = K_Switch;
        ki.a = op(sw->getCondition());
        ki.w = (uint8_t)tw(sw->getCondition()->getType());
        SwDesc d;
        uint32_t idx = (uint32_t)k->code.size();
        for (auto &c : sw->cases()) {
          fixes.push_back({idx, 3, &bb, c.getCaseSuccessor(), d.cases.size()});
          d.cases.push_back({c.getCaseValue()->getZExtValue(), {0, edge(&bb, c.getCaseSuccessor())}});
        }
        d.dfltEdge = edge(&bb, sw->getDefaultDest());
        fixes.push_back({idx, 2, &bb, sw->getDefaultDest(), 0});
        k->sws.push_back(d);
        ki.x = (uint32_t)k->sws.size() - 1;
      } else if (auto *re = dyn_cast<ReturnInst>(&I)) {
        ki.op = K_Ret;
        if (re->getReturnValue()) {
          ki.a = op(re->getReturnValue());
          ki.x = (uint32_t)leavesOf(re->getReturnValue()->getType()).size();
        }
      } else if (isa<UnreachableInst>(I)) ki.op = K_Unreachable;
      else if (auto *al = dyn_cast<AllocaInst>(&I)) {
        ki.op = K_Alloca;
        ki.x = (uint32_t)DL->getTypeAllocSize(al->getAllocatedType());
        ki.a = op(al->getArraySize());
        ki.y = (uint32_t)al->getAlign().value();
      } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
        auto *agT = ev->getAggregateOperand()->getType();
        // flattened index of the element
        size_t idx = 0;
        Type *t = agT;
        for (unsigned ix : ev->indices()) {
          for (unsigned j = 0; j < ix; j++) {
            Type *et = isa<StructType>(t) ? cast<StructType>(t)->getElementType(j) : cast<ArrayType>(t)->getElementType();
            idx += leavesOf(et).size();
          }
          t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(ix) : cast<ArrayType>(t)->getElementType();
        }
        int s = op(ev->getAggregateOperand());
        ki.op = K_Copy;
        ki.a = s >= 0 ? s + (int)idx : s - (int)idx;
        ki.x = (uint32_t)leavesOf(I.getType()).size();
      } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
        size_t idx = 0;
        Type *t = iv->getAggregateOperand()->getType();
        size_t total = leavesOf(t).size();
        for (unsigned ix : iv->indices()) {
          for (unsigned j = 0; j < ix; j++) {
            Type *et = isa<StructType>(t) ? cast<StructType>(t)->getElementType(j) : cast<ArrayType>(t)->getElementType();
            idx += leavesOf(et).size();
          }
          t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(ix) : cast<ArrayType>(t)->getElementType();
        }
        size_t cnt = leavesOf(t).size();
        int s = op(iv->getAggregateOperand()), e = op(iv->getInsertedValueOperand());
        KInst k1 = ki;
        k1.op = K_Copy; k1.a = s; k1.x = (uint32_t)total;
        if (bad) k1.op = K_Unsupported;
        k->code.push_back(k1);
        ki.op = K_Copy; ki.dst += (int)idx; ki.a = e; ki.x = (uint32_t)cnt;
      } else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) {
        ki.op = K_RMW; ki.a = op(rm->getPointerOperand()); ki.b = op(rm->getValOperand());
        ki.sub = (uint8_t)rm->getOperation(); ki.w = (uint8_t)tw(rm->getType()); ki.atomic = ordCode(rm->getOrdering());
      } else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
        ki.op = K_CmpXchg; ki.a = op(cx->getPointerOperand()); ki.b = op(cx->getCompareOperand()); ki.c = op(cx->getNewValOperand());
        ki.w = (uint8_t)tw(cx->getCompareOperand()->getType());
        ki.atomic = ordCode(cx->getSuccessOrdering());
        ki.x = ordCode(cx->getFailureOrdering());
      } else if (auto *fe = dyn_cast<FenceInst>(&I)) { ki.op = K_Fence; ki.atomic = ordCode(fe->getOrdering()); }
      else if (auto *fc = dyn_cast<FCmpInst>(&I)) {
        ki.op = K_FCmp; ki.a = op(fc->getOperand(0)); ki.b = op(fc->getOperand(1));
        ki.w = (uint8_t)tw(fc->getOperand(0)->getType()); ki.sub = (uint8_t)fc->getPredicate();
      } else if (I.getOpcode() == Instruction::FNeg) {
        ki.op = K_FNeg; ki.a = op(I.getOperand(0)); ki.w = (uint8_t)tw(I.getType());
      } else if (auto *cb = dyn_cast<CallInst>(&I)) {
        const Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
        CallDesc d;
        d.f = nullptr; d.fnptr = 0; d.intr = -1;
        auto rl = leavesOf(I.getType());
        d.retW = rl.size() == 1 ? rl[0].w : 0;
        if (badLeaf(rl)) bad = true;
        for (unsigned i = 0; i < cb->arg_size(); i++) {
          const Value *av = cb->getArgOperand(i);
          ArgD ad;
          if (isa<MetadataAsValue>(av)) continue;
          auto al = leavesOf(av->getType());
          ad.src = op(av);
          ad.n = (uint16_t)al.size();
          ad.w = al.size() == 1 ? (uint8_t)al[0].w : 0;
          ad.byval = cb->isByValArgument(i) ? DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue() : 0;
          d.args.push_back(ad);
        }
        d.nfixed = cb->getFunctionType()->getNumParams();
        ki.op = K_Call;
        if (auto *cf = dyn_cast<Function>(cv)) {
          std::string nm = cf->getName().str();
          std::string base = nm;
          if (cf->isIntrinsic()) {  // strip type suffixes
            base = Intrinsic::getBaseName(cf->getIntrinsicID()).str();
          }
          auto it = intrByName.find(base);
          if (it != intrByName.end() && cf->isDeclaration()) { ki.op = K_Intr; d.intr = it->second; }
          else if (!cf->isDeclaration()) d.f = kf(const_cast<Function *>(cf));
          else { ki.op = K_Unsupported; }
        } else if (isa<InlineAsm>(cv)) {
          ki.op = K_Unsupported;
          if (cast<InlineAsm>(cv)->getAsmString().empty()) { ki.op = K_Copy; ki.x = 0; }
        }
        else { ki.op = K_CallInd; d.fnptr = op(cv); }
        k->calls.push_back(d);
        ki.x = (uint32_t)k->calls.size() - 1;
        if (ki.op == K_Copy) ki.x = 0;
      } else unsup();
      if (bad) ki.op = K_Unsupported;
      k->code.push_back(ki);
    }
  }
  for (auto &f : fixes) {
    uint32_t t = bbStart[f.to];
    if (f.which == 0) k->code[f.inst].x = t;
    else if (f.which == 1) k->code[f.inst].b = (int)t;
    else if (f.which == 2) k->sws[k->code[f.inst].x].dflt = t;
    else k->sws[k->code[f.inst].x].cases[f.cidx].second.first = t;
  }
  k->nregs = n + maxScratch;
}
#include "exec.h"
