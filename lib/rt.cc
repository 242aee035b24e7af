// Native replay runtime: reads a recorded path (symbol values, schedule) and
// runs the real code along it. Exit codes: 0 path passes, 42 violation
// observed, 77 assumption not met, 78 diverged from the recorded path.
#include "lsx.h"
#include <new>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" {
void __tsan_acquire(void*) __attribute__((weak));
void __tsan_release(void*) __attribute__((weak));
void AnnotateIgnoreReadsBegin(const char*, int) __attribute__((weak));
void AnnotateIgnoreReadsEnd(const char*, int) __attribute__((weak));
void AnnotateIgnoreWritesBegin(const char*, int) __attribute__((weak));
void AnnotateIgnoreWritesEnd(const char*, int) __attribute__((weak));
void __msan_unpoison(const volatile void*, size_t) __attribute__((weak));
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
void __asan_poison_memory_region(const volatile void*, size_t) __attribute__((weak));
void* __asan_region_is_poisoned(void*, size_t) __attribute__((weak));
}
// the sanitizer makes an object of no bytes addressable for one byte
static void* none(void* p, size_t n) {
  if (!n && p && __asan_poison_memory_region) __asan_poison_memory_region(p, 1);
  return p;
}
#define MAXS 400000
struct Sym { char* name; uint64_t v; };
static Sym* syms;
static int nsyms, capsyms;
static struct { char name[64]; uint64_t v; } params[64];
static int nparams;
static int sched[200000];
static int nsched, isched;
static long expObs = -1;
static uint64_t expHash;
static uint64_t obsN, obsH = 1469598103934665603ull;
static long liveAllocs;
static uint64_t arrBytes, arrCount;
static void arr(size_t n) { __atomic_add_fetch(&arrBytes, n, __ATOMIC_RELAXED); __atomic_add_fetch(&arrCount, 1, __ATOMIC_RELAXED); }
static volatile int turn;
static int selfOf();
// name -> counter
static struct { char name[96]; int n; } ctr[4096];
static int nctr;
static int nextSeq(const char* n) {
  for (int i = 0; i < nctr; i++) if (!strcmp(ctr[i].name, n)) return ctr[i].n++;
  if (nctr >= 4096) { printf("LSX too many symbol names\n"); _exit(78); }
  snprintf(ctr[nctr].name, sizeof ctr[nctr].name, "%s", n);
  ctr[nctr].n = 1;
  nctr++;
  return 0;
}
static uint64_t hashName(const char* s) { uint64_t h = 14695981039346656037ull; for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull; return h; }
static int* htab;
static unsigned hsz;
static bool lookup(const char* key, uint64_t* v) {
  if (!hsz) return false;
  for (unsigned i = hashName(key) & (hsz - 1);; i = (i + 1) & (hsz - 1)) {
    if (htab[i] < 0) return false;
    if (!strcmp(syms[htab[i]].name, key)) { *v = syms[htab[i]].v; return true; }
  }
}
static void viol(const char* kind, const char* msg) {
  printf("LSX-REPLAY violation kind=%s: %s\n", kind, msg);
  fflush(stdout);
  _exit(42);
}
extern "C" {
uint64_t lsx_sym(const char* name, int bits) {
  char key[128];
  int q = nextSeq(name);
  snprintf(key, sizeof key, "%s#%d", name, q);
  uint64_t v = 0;
  lookup(key, &v);
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void lsx_sym_bytes(void* p, size_t n, const char* name) {
  for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)lsx_sym(name, 8);
  if (__msan_unpoison) __msan_unpoison(p, n);
}
void lsx_assume(int c) { if (!c) { printf("LSX assumption not met\n"); fflush(stdout); _exit(77); } }
void lsx_assert(int c, const char* msg) { if (!c) viol("property", msg); }
uint32_t lsx_choose(uint32_t n, const char* name) {
  uint64_t v = lsx_sym(name, 32);
  if (v >= n) { printf("LSX choice out of range\n"); fflush(stdout); _exit(77); }
  return (uint32_t)v;
}
uint64_t lsx_concretize(uint64_t v) { return v; }
void lsx_cover(const char*) {}
void lsx_observe(uint64_t v) { obsN++; obsH = (obsH ^ v) * 1099511628211ull; obsH ^= obsH >> 29; }
void lsx_observe_bytes(const void* p, size_t n) { for (size_t i = 0; i < n; i++) lsx_observe(((const unsigned char*)p)[i]); }
uint64_t lsx_param(const char* name, uint64_t d) {
  for (int i = 0; i < nparams; i++) if (!strcmp(params[i].name, name)) return params[i].v;
  return d;
}
void lsx_fail(const char* kind, const char* msg) { viol(kind, msg); }
void lsx_check_range(const void* p, size_t n) {
  if (__asan_region_is_poisoned && n && __asan_region_is_poisoned((void*)p, n)) viol("memory", "a range is not addressable");
  const size_t step = n >> 24 ? 4093 : 1;
  volatile unsigned char x = 0; for (size_t i = 0; i < n; i += step) x ^= ((const volatile unsigned char*)p)[i]; }
uint64_t lsx_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t lsx_arr_total(int c) { return c ? arrCount : arrBytes; }
int64_t lsx_live_allocs(void) { return liveAllocs; }
int lsx_is_symbolic(uint64_t) { return 0; }
void lsx_print(const char* s, uint64_t v) { printf("LSX print %s %llx\n", s, (unsigned long long)v); }

void lsx_rt_va_end(void* p) { unsigned* a = (unsigned*)p; a[0] = 48; a[1] = 176; *(void**)(a + 2) = nullptr; }
// ---- allocation wrappers
void* lsx_rt_malloc(size_t n) { arr(n); __atomic_add_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); return none(malloc(n), n); }
void* lsx_rt_calloc(size_t a, size_t b) { arr(a * b); __atomic_add_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); return calloc(a, b); }
void* lsx_rt_realloc(void* p, size_t n) { if (!p) __atomic_add_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); return realloc(p, n); }
void lsx_rt_free(void* p) { if (p) __atomic_sub_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); free(p); }
void* lsx_rt__Znwm(size_t n) { __atomic_add_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); return none(::operator new(n), n); }
void* lsx_rt__Znam(size_t n) { arr(n); __atomic_add_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); return none(::operator new[](n), n); }
void* lsx_rt__ZnwmRKSt9nothrow_t(size_t n, const void*) { return lsx_rt__Znwm(n); }
void* lsx_rt__ZnamRKSt9nothrow_t(size_t n, const void*) { return lsx_rt__Znam(n); }
void lsx_rt__ZdlPv(void* p) { if (p) __atomic_sub_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); ::operator delete(p); }
void lsx_rt__ZdaPv(void* p) { if (p) __atomic_sub_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); ::operator delete[](p); }
void lsx_rt__ZdlPvm(void* p, size_t) { lsx_rt__ZdlPv(p); }
void lsx_rt__ZdaPvm(void* p, size_t) { lsx_rt__ZdaPv(p); }
void lsx_rt__ZdlPvRKSt9nothrow_t(void* p, const void*) { lsx_rt__ZdlPv(p); }
void lsx_rt__ZdaPvRKSt9nothrow_t(void* p, const void*) { lsx_rt__ZdaPv(p); }
void* lsx_rt__ZnwmSt11align_val_t(size_t n, size_t a) { __atomic_add_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); return ::operator new(n, (std::align_val_t)a); }
void* lsx_rt__ZnamSt11align_val_t(size_t n, size_t a) { arr(n); __atomic_add_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); return ::operator new[](n, (std::align_val_t)a); }
void lsx_rt__ZdlPvSt11align_val_t(void* p, size_t a) { if (p) __atomic_sub_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); ::operator delete(p, (std::align_val_t)a); }
void lsx_rt__ZdaPvSt11align_val_t(void* p, size_t a) { if (p) __atomic_sub_fetch(&liveAllocs, 1, __ATOMIC_RELAXED); ::operator delete[](p, (std::align_val_t)a); }
void lsx_rt__ZdlPvmSt11align_val_t(void* p, size_t, size_t a) { lsx_rt__ZdlPvSt11align_val_t(p, a); }
void lsx_rt__ZdaPvmSt11align_val_t(void* p, size_t, size_t a) { lsx_rt__ZdaPvSt11align_val_t(p, a); }
void lsx_rt___assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  char b[600];
  snprintf(b, sizeof b, "%s at %s:%u %s", e, f, l, fn);
  viol("assert-fail", b);
}
void lsx_rt_abort(void) { viol("abort", "abort called"); }
void lsx_rt__ZSt9terminatev(void) { viol("abort", "terminate called"); }
void lsx_rt___cxa_pure_virtual(void) { viol("abort", "pure virtual call"); }
void lsx_rt_trap(void) { viol("ub", "trap reached"); }
static void finish() {
  if (expObs >= 0) {
    if ((uint64_t)expObs != obsN || expHash != obsH) {
      printf("LSX-REPLAY observation mismatch: expected %ld/%llx got %llu/%llx\n", expObs, (unsigned long long)expHash, (unsigned long long)obsN, (unsigned long long)obsH);
      fflush(stdout);
      _exit(78);
    }
  }
  printf("LSX-REPLAY path completed (%llu observations)\n", (unsigned long long)obsN);
  fflush(stdout);
  _exit(0);
}
void lsx_rt_exit(int) { finish(); }
void lsx_rt__exit(int) { finish(); }

// ---- threads: one runs at a time, in the recorded order
enum { PK_None, PK_Start, PK_Load, PK_Store, PK_Lock, PK_CondOp, PK_Yield, PK_Join, PK_CondBlocked, PK_Relock };
#define MAXT 6
static struct T { int used, finished, pk; uint64_t addr, mtx; void (*fn)(void*); void* arg; } th[MAXT] = {{1, 0, 0, 0, 0, 0, 0}};
static int nth = 1, live = 1, atomicDepth = 0;
static struct { uint64_t a; int owner; } mx[4096];
static int nmx;
static __thread int me_tls;
static int* ownerOf(uint64_t a) {
  for (int i = 0; i < nmx; i++) if (mx[i].a == a) return &mx[i].owner;
  mx[nmx].a = a;
  mx[nmx].owner = -1;
  return &mx[nmx++].owner;
}
static void waitTurn(int me) {
  while (__atomic_load_n(&turn, __ATOMIC_ACQUIRE) != me) syscall(SYS_sched_yield);
}
static bool runnable(int i) {
  if (th[i].finished) return false;
  switch (th[i].pk) {
    case PK_Lock: case PK_Relock: return *ownerOf(th[i].addr) < 0;
    case PK_Join: return th[th[i].addr].finished;
    case PK_CondBlocked: case PK_None: return false;
    default: return true;
  }
}
static void schedule(bool exiting) {
  int me = me_tls;
  if (isched >= nsched) {
    bool any = false;
    for (int i = 0; i < nth; i++) any |= runnable(i);
    if (!any) viol("deadlock", "no thread can make progress");
    printf("LSX schedule exhausted\n");
    fflush(stdout);
    _exit(78);
  }
  int next = sched[isched++];
  __atomic_store_n(&turn, next, __ATOMIC_RELEASE);
  if (!exiting) waitTurn(me);
}
static bool visible(int k, uint64_t a, uint64_t m) {
  if (live < 2 && k != PK_Join) return true;
  if (atomicDepth && k != PK_Lock && k != PK_Join) return true;
  T* t = &th[me_tls];
  t->pk = k; t->addr = a; t->mtx = m;
  schedule(false);
  t->pk = PK_None;
  return true;
}
void lsx_rt_atomic(void* p, int kind) { visible(kind, (uint64_t)p, 0); }
int lsx_self(void) { return me_tls; }
void lsx_yield(void* a) { visible(PK_Yield, (uint64_t)a, 0); }
int lsx_mutex_lock(void* m) {
  int* o = ownerOf((uint64_t)m);
  if (*o == me_tls) viol("deadlock", "a thread locks a mutex it already holds");
  visible(PK_Lock, (uint64_t)m, 0);
  o = ownerOf((uint64_t)m);
  if (*o >= 0) viol("deadlock", "lock of a mutex that is never released");
  *o = me_tls;
  if (__tsan_acquire) __tsan_acquire(m);
  return 0;
}
int lsx_mutex_trylock(void* m) {
  visible(PK_Store, (uint64_t)m, 0);
  int* o = ownerOf((uint64_t)m);
  if (*o >= 0) return 16;
  *o = me_tls;
  if (__tsan_acquire) __tsan_acquire(m);
  return 0;
}
int lsx_mutex_unlock(void* m) {
  int* o = ownerOf((uint64_t)m);
  if (*o != me_tls) viol("property", "unlock of a mutex the thread does not hold");
  if (__tsan_release) __tsan_release(m);
  *o = -1;
  return 0;
}
void lsx_cond_wait(void* cv, void* m) {
  visible(PK_CondOp, (uint64_t)cv, (uint64_t)m);
  int* o = ownerOf((uint64_t)m);
  if (*o != me_tls) viol("property", "condition wait without holding the mutex");
  if (__tsan_release) __tsan_release(m);
  *o = -1;
  T* t = &th[me_tls];
  t->pk = PK_CondBlocked; t->addr = (uint64_t)cv; t->mtx = (uint64_t)m;
  for (;;) {
    schedule(false);
    if (t->pk == PK_CondBlocked) { t->pk = PK_Relock; t->addr = (uint64_t)m; continue; }
    break;
  }
  t->pk = PK_None;
  *ownerOf((uint64_t)m) = me_tls;
  if (__tsan_acquire) __tsan_acquire(m);
}
static void wakeOne(int w) { th[w].pk = PK_Relock; th[w].addr = th[w].mtx; }
void lsx_cond_signal(void* cv) {
  visible(PK_CondOp, (uint64_t)cv, 0);
  int ws[MAXT], n = 0;
  for (int i = 0; i < nth; i++) if (!th[i].finished && th[i].pk == PK_CondBlocked && th[i].addr == (uint64_t)cv) ws[n++] = i;
  if (n == 1) wakeOne(ws[0]);
  else if (n > 1) {
    if (isched >= nsched) { printf("LSX schedule exhausted\n"); fflush(stdout); _exit(78); }
    wakeOne(sched[isched++]);
  }
}
void lsx_cond_broadcast(void* cv) {
  visible(PK_CondOp, (uint64_t)cv, 0);
  for (int i = 0; i < nth; i++) if (!th[i].finished && th[i].pk == PK_CondBlocked && th[i].addr == (uint64_t)cv) wakeOne(i);
}
void lsx_atomic_begin(void) {
  atomicDepth++;
  if (AnnotateIgnoreReadsBegin) { AnnotateIgnoreReadsBegin(__FILE__, __LINE__); AnnotateIgnoreWritesBegin(__FILE__, __LINE__); }
}
void lsx_atomic_end(void) {
  if (AnnotateIgnoreReadsEnd) { AnnotateIgnoreReadsEnd(__FILE__, __LINE__); AnnotateIgnoreWritesEnd(__FILE__, __LINE__); }
  if (atomicDepth) atomicDepth--;
}
static void* tmain(void* p) {
  T* t = (T*)p;
  me_tls = (int)(t - th);
  waitTurn(me_tls);
  t->pk = PK_None;
  t->fn(t->arg);
  t->finished = 1;
  if (__tsan_release) __tsan_release(t);
  live--;
  schedule(true);
  for (;;) pause();
  return nullptr;
}
int lsx_thread_create(void (*fn)(void*), void* arg) {
  if (nth >= MAXT) { printf("LSX too many threads\n"); _exit(78); }
  int id = nth++;
  th[id].used = 1; th[id].pk = PK_Start; th[id].fn = fn; th[id].arg = arg;
  live++;
  pthread_t pt;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 16 << 20);
  if (pthread_create(&pt, &at, tmain, &th[id])) { printf("LSX pthread_create failed\n"); _exit(78); }
  return id;
}
void lsx_thread_join(int i) {
  while (!th[i].finished) {
    T* t = &th[me_tls];
    t->pk = PK_Join; t->addr = (uint64_t)i;
    schedule(false);
    t->pk = PK_None;
  }
  if (__tsan_acquire) __tsan_acquire(&th[i]);
}
int lsx_thread_done(int i) { return i < nth && th[i].finished; }
}

int main(int argc, char** argv) {
  FILE* f = argc > 1 ? fopen(argv[1], "r") : nullptr;
  if (!f) { fprintf(stderr, "usage: replay PATHFILE\n"); return 2; }
  char* line = nullptr;
  size_t cap = 0;
  bool pass = false;
  while (getline(&line, &cap, f) > 0) {
    char nm[200];
    unsigned w;
    unsigned long long v;
    if (sscanf(line, "sym %199s %u %llx", nm, &w, &v) == 3) {
      if (nsyms == capsyms) { capsyms = capsyms ? capsyms * 2 : 1024; syms = (Sym*)realloc(syms, capsyms * sizeof(Sym)); }
      syms[nsyms].name = strdup(nm);
      syms[nsyms++].v = v;
    } else if (sscanf(line, "param %63s %llu", nm, &v) == 2) {
      snprintf(params[nparams].name, sizeof params[nparams].name, "%s", nm);
      params[nparams++].v = v;
    } else if (!strncmp(line, "sched", 5)) {
      char* p = line + 5;
      for (char* tok = strtok(p, " \n"); tok; tok = strtok(nullptr, " \n")) if (nsched < 200000) sched[nsched++] = atoi(tok);
    } else if (!strncmp(line, "kind pass", 9)) pass = true;
    else if (pass && sscanf(line, "obs %u %llx", &w, &v) == 2) { expObs = (long)w; expHash = v; }
  }
  fclose(f);
  for (hsz = 16; hsz < (unsigned)nsyms * 2 + 2; hsz *= 2) {}
  htab = (int*)malloc(hsz * sizeof(int));
  for (unsigned i = 0; i < hsz; i++) htab[i] = -1;
  for (int i = 0; i < nsyms; i++) {
    unsigned h = hashName(syms[i].name) & (hsz - 1);
    while (htab[h] >= 0) h = (h + 1) & (hsz - 1);
    htab[h] = i;
  }
  lsx_main();
  finish();
}
