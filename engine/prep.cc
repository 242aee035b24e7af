// lsx-prep: binds library models and overrides in a linked module, drops what
// is unreachable, and (for native replay) inserts scheduling points.
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/DCE.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <set>
#include <string>
using namespace llvm;

int main(int argc, char **argv) {
  LLVMContext ctx;
  SMDiagnostic err;
  std::string in, out, native, entry = "lsx_main";
  bool scfg = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--native") native = argv[++i];
    else if (a == "-o") out = argv[++i];
    else if (a == "--entry") entry = argv[++i];
    else if (a == "--simplifycfg") scfg = true;
    else in = a;
  }
  auto M = parseIRFile(in, err, ctx);
  if (!M) { err.print("lsx-prep", errs()); return 1; }
  Function *ef = M->getFunction(entry);
  if (!ef || ef->isDeclaration()) { errs() << "lsx-prep: no entry " << entry << "\n"; return 1; }
  if (entry != "lsx_main") {
    if (Function *old = M->getFunction("lsx_main")) { old->replaceAllUsesWith(ef); old->eraseFromParent(); }
    ef->setName("lsx_main");
    entry = "lsx_main";
  }
  // models for undefined names
  std::vector<std::pair<GlobalValue *, GlobalValue *>> rep;
  for (auto &F : *M)
    if (F.isDeclaration() && !F.isIntrinsic())
      if (Function *m = M->getFunction(("lsxm_" + F.getName()).str())) if (!m->isDeclaration()) rep.push_back({&F, m});
  for (auto &G : M->globals())
    if (G.isDeclaration())
      if (auto *m = M->getNamedGlobal(("lsxm_" + G.getName()).str())) if (!m->isDeclaration()) rep.push_back({&G, m});
  // overrides of defined functions
  for (auto &F : *M)
    if (F.getName().starts_with("lsxo_") && !F.isDeclaration())
      if (Function *t = M->getFunction(F.getName().drop_front(5))) rep.push_back({t, &F});
  // an optional function the code under test does not have
  for (auto &F : *M)
    if (F.isDeclaration() && F.hasExternalWeakLinkage() && !M->getFunction(("lsxm_" + F.getName()).str())) F.replaceAllUsesWith(ConstantPointerNull::get(PointerType::get(ctx, 0)));
  for (auto &p : rep) {
    p.first->replaceAllUsesWith(p.second);
    if (auto *f = dyn_cast<Function>(p.first)) if (!f->isDeclaration()) f->deleteBody();
  }
  {
    std::set<std::string> keep = {entry};
    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(InternalizePass([&](const GlobalValue &g) { return keep.count(g.getName().str()) > 0; }));
    MPM.addPass(GlobalDCEPass());
    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    FPM.addPass(DCEPass());
    if (scfg) FPM.addPass(SimplifyCFGPass());
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.addPass(GlobalDCEPass());
    MPM.run(*M, MAM);
  }
  if (!native.empty()) {
    static const char *ren[] = {"malloc", "calloc", "realloc", "free", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t",
                                "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t",
                                "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t",
                                "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t",
                                "__assert_fail", "abort", "exit", "_exit", "_ZSt9terminatev", "__cxa_pure_virtual"};
    for (auto n : ren)
      if (Function *f = M->getFunction(n)) if (f->isDeclaration()) f->setName(std::string("lsx_rt_") + n);
    auto *vt = Type::getVoidTy(ctx);
    auto *pt = PointerType::get(ctx, 0);
    auto *i32 = Type::getInt32Ty(ctx);
    FunctionCallee pt_at = M->getOrInsertFunction("lsx_rt_atomic", FunctionType::get(vt, {pt, i32}, false));
    FunctionCallee pt_trap = M->getOrInsertFunction("lsx_rt_trap", FunctionType::get(vt, {}, false));
    FunctionCallee pt_vaend = M->getOrInsertFunction("lsx_rt_va_end", FunctionType::get(vt, {pt}, false));
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      if (native == "asan") F.addFnAttr(Attribute::SanitizeAddress);
      if (native == "tsan") F.addFnAttr(Attribute::SanitizeThread);
      if (native == "msan") F.addFnAttr(Attribute::SanitizeMemory);
      F.removeFnAttr("target-cpu");
      F.addFnAttr(Attribute::NullPointerIsValid);  // a null pointer faults; the optimiser draws no conclusions from it
      for (auto &B : F)
        for (auto it = B.begin(); it != B.end();) {
          Instruction &I = *it++;
          Value *p = nullptr;
          int kind = 3;
          if (auto *l = dyn_cast<LoadInst>(&I)) { if (l->isAtomic()) { p = l->getPointerOperand(); kind = 2; } }
          else if (auto *s = dyn_cast<StoreInst>(&I)) { if (s->isAtomic()) p = s->getPointerOperand(); }
          else if (auto *r = dyn_cast<AtomicRMWInst>(&I)) p = r->getPointerOperand();
          else if (auto *c = dyn_cast<AtomicCmpXchgInst>(&I)) p = c->getPointerOperand();
          else if (auto *c = dyn_cast<IntrinsicInst>(&I)) {
            if (c->getIntrinsicID() == Intrinsic::trap || c->getIntrinsicID() == Intrinsic::ubsantrap) {
              IRBuilder<> b(&I);
              b.CreateCall(pt_trap);
            } else if (c->getIntrinsicID() == Intrinsic::vaend) {  // make later uses fail
              IRBuilder<> b(I.getNextNode());
              auto *ci = b.CreateCall(pt_vaend, {c->getArgOperand(0)});
              ci->setDebugLoc(I.getDebugLoc());
              I.eraseFromParent();
              continue;
            }
          }
          if (p) {
            IRBuilder<> b(&I);
            auto *ci = b.CreateCall(pt_at, {p, ConstantInt::get(i32, kind)});
            ci->setDebugLoc(I.getDebugLoc());
          }
        }
    }
  }
  std::error_code ec;
  raw_fd_ostream os(out, ec, sys::fs::OF_None);
  if (ec) { errs() << ec.message() << "\n"; return 1; }
  WriteBitcodeToFile(*M, os);
  return 0;
}
