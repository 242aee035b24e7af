// Intrinsic operations known to the executor (everything else is real IR).
enum IN : int {
  IN_Nop, IN_Memcpy, IN_Memmove, IN_Memset, IN_Memcmp, IN_CMemcpy, IN_CMemset,
  IN_Trap, IN_MulOv, IN_AddOv, IN_SubOv, IN_SMulOv, IN_SAddOv, IN_SSubOv, IN_Ctlz, IN_Cttz, IN_Ctpop, IN_Bswap,
  IN_Fshl, IN_Fshr, IN_UMin, IN_UMax, IN_SMin, IN_SMax, IN_Abs, IN_UAddSat, IN_USubSat, IN_VaStart, IN_VaCopy, IN_VaEnd,
  IN_ObjSize, IN_IsConst, IN_Expect, IN_FCeil, IN_FFloor, IN_FAbs, IN_TLS,
  IN_Malloc, IN_Calloc, IN_Realloc, IN_Free, IN_New, IN_NewArr, IN_NewAl, IN_NewArrAl, IN_Del, IN_DelArr, IN_DelSz, IN_DelArrSz,
  IN_AssertFail, IN_Abort, IN_Exit, IN_Zero,
  IN_Sym, IN_SymBytes, IN_Assume, IN_Assert, IN_Choose, IN_Concretize, IN_Cover, IN_Observe, IN_ObserveBytes, IN_Param, IN_Fail,
  IN_ThCreate, IN_ThJoin, IN_Self, IN_Yield, IN_MLock, IN_MTryLock, IN_MUnlock, IN_CWait, IN_CSignal, IN_CBroadcast,
  IN_AtBegin, IN_AtEnd, IN_LiveAllocs, IN_ArrTotal, IN_CheckRange, IN_IteI, IN_ThDone, IN_Print, IN_IsSym
};
static const struct { const char *n; int id; } intrTable[] = {
  {"llvm.lifetime.start", IN_Nop}, {"llvm.lifetime.end", IN_Nop}, {"llvm.assume", IN_Nop}, {"llvm.donothing", IN_Nop},
  {"llvm.stackrestore", IN_Nop}, {"llvm.stacksave", IN_Zero}, {"llvm.va_end", IN_VaEnd}, {"llvm.prefetch", IN_Nop},
  {"llvm.experimental.noalias.scope.decl", IN_Nop}, {"llvm.dbg.declare", IN_Nop}, {"llvm.dbg.value", IN_Nop}, {"llvm.dbg.label", IN_Nop},
  {"llvm.memcpy", IN_Memcpy}, {"llvm.memcpy.inline", IN_Memcpy}, {"llvm.memmove", IN_Memmove}, {"llvm.memset", IN_Memset},
  {"memcpy", IN_CMemcpy}, {"memmove", IN_CMemcpy}, {"memset", IN_CMemset}, {"memcmp", IN_Memcmp}, {"bcmp", IN_Memcmp},
  {"llvm.trap", IN_Trap}, {"llvm.ubsantrap", IN_Trap}, {"llvm.debugtrap", IN_Trap},
  {"llvm.umul.with.overflow", IN_MulOv}, {"llvm.uadd.with.overflow", IN_AddOv}, {"llvm.usub.with.overflow", IN_SubOv},
  {"llvm.smul.with.overflow", IN_SMulOv}, {"llvm.sadd.with.overflow", IN_SAddOv}, {"llvm.ssub.with.overflow", IN_SSubOv},
  {"llvm.ctlz", IN_Ctlz}, {"llvm.cttz", IN_Cttz}, {"llvm.ctpop", IN_Ctpop}, {"llvm.bswap", IN_Bswap},
  {"llvm.fshl", IN_Fshl}, {"llvm.fshr", IN_Fshr}, {"llvm.umin", IN_UMin}, {"llvm.umax", IN_UMax}, {"llvm.smin", IN_SMin},
  {"llvm.smax", IN_SMax}, {"llvm.abs", IN_Abs}, {"llvm.uadd.sat", IN_UAddSat}, {"llvm.usub.sat", IN_USubSat},
  {"llvm.va_start", IN_VaStart}, {"llvm.va_copy", IN_VaCopy}, {"llvm.objectsize", IN_ObjSize}, {"llvm.is.constant", IN_IsConst},
  {"llvm.expect", IN_Expect}, {"llvm.ceil", IN_FCeil}, {"llvm.floor", IN_FFloor}, {"llvm.fabs", IN_FAbs},
  {"llvm.threadlocal.address", IN_TLS},
  {"malloc", IN_Malloc}, {"calloc", IN_Calloc}, {"realloc", IN_Realloc}, {"free", IN_Free},
  {"_Znwm", IN_New}, {"_Znam", IN_NewArr}, {"_ZnwmRKSt9nothrow_t", IN_New}, {"_ZnamRKSt9nothrow_t", IN_NewArr},
  {"_ZnwmSt11align_val_t", IN_NewAl}, {"_ZnamSt11align_val_t", IN_NewArrAl},
  {"_ZdlPv", IN_Del}, {"_ZdaPv", IN_DelArr}, {"_ZdlPvm", IN_DelSz}, {"_ZdaPvm", IN_DelArrSz},
  {"_ZdlPvRKSt9nothrow_t", IN_Del}, {"_ZdaPvRKSt9nothrow_t", IN_DelArr},
  {"_ZdlPvSt11align_val_t", IN_Del}, {"_ZdaPvSt11align_val_t", IN_DelArr},
  {"_ZdlPvmSt11align_val_t", IN_DelSz}, {"_ZdaPvmSt11align_val_t", IN_DelArrSz},
  {"__assert_fail", IN_AssertFail}, {"abort", IN_Abort}, {"_ZSt9terminatev", IN_Abort}, {"exit", IN_Exit}, {"_exit", IN_Exit},
  {"__cxa_pure_virtual", IN_Abort}, 
  {"lsx_sym", IN_Sym}, {"lsx_sym_bytes", IN_SymBytes}, {"lsx_assume", IN_Assume}, {"lsx_assert", IN_Assert},
  {"lsx_choose", IN_Choose}, {"lsx_concretize", IN_Concretize}, {"lsx_cover", IN_Cover}, {"lsx_observe", IN_Observe},
  {"lsx_observe_bytes", IN_ObserveBytes}, {"lsx_param", IN_Param}, {"lsx_fail", IN_Fail},
  {"lsx_thread_create", IN_ThCreate}, {"lsx_thread_join", IN_ThJoin}, {"lsx_thread_done", IN_ThDone}, {"lsx_self", IN_Self}, {"lsx_yield", IN_Yield},
  {"lsx_mutex_lock", IN_MLock}, {"lsx_mutex_trylock", IN_MTryLock}, {"lsx_mutex_unlock", IN_MUnlock},
  {"lsx_cond_wait", IN_CWait}, {"lsx_cond_signal", IN_CSignal}, {"lsx_cond_broadcast", IN_CBroadcast},
  {"lsx_atomic_begin", IN_AtBegin}, {"lsx_atomic_end", IN_AtEnd}, {"lsx_live_allocs", IN_LiveAllocs}, {"lsx_arr_total", IN_ArrTotal},
  {"lsx_check_range", IN_CheckRange}, {"lsx_ite", IN_IteI}, {"lsx_print", IN_Print}, {"lsx_is_symbolic", IN_IsSym},
};
