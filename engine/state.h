// Machine state of the symbolic executor: copy-on-write memory objects, thread
// stacks, vector clocks, path condition.
#pragma once
#include "solver.h"
#include <map>
#include <set>

struct Val {
  uint64_t c;
  E e;
  Val() : c(0), e(nullptr) {}
  Val(uint64_t x) : c(x), e(nullptr) {}
  Val(E x) : c(0), e(x) { if (x->op == Op::Const) { c = x->val; e = nullptr; } }
};
inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

template <class T> struct Ref {
  T *p;
  Ref() : p(nullptr) {}
  explicit Ref(T *x) : p(x) { if (p) p->rc++; }
  Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
  Ref &operator=(Ref o) { std::swap(p, o.p); return *this; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  T *operator->() const { return p; }
  explicit operator bool() const { return p; }
  T *mut() {  // unique copy
    if (p->rc > 1) { T *n = new T(*p); n->rc = 1; p->rc--; p = n; }
    return p;
  }
};

static const unsigned PS = 256;
#define UNINIT ((E)1)
struct Page {
  int rc = 0;
  uint8_t d[PS];
  E *sym = nullptr;
  Page() {}
  Page(const Page &o) : rc(0) {
    memcpy(d, o.d, PS);
    if (o.sym) { sym = new E[PS]; memcpy(sym, o.sym, sizeof(E) * PS); }
  }
  Page &operator=(const Page &) = delete;
  ~Page() { delete[] sym; }
};
static const unsigned MAXT = 6;
struct ShCell {
  uint16_t wclk = 0; uint8_t wtid = 0;
  uint16_t r[MAXT] = {0}, aw[MAXT] = {0}, ar[MAXT] = {0};
};
struct ShPage { int rc = 0; ShCell c[PS]; };

// pages of an object; few of a very large one are ever touched
struct Pages {
  std::vector<Ref<Page>> v;
  std::map<uint64_t, Ref<Page>> m;
  uint64_t n = 0;
  bool sparse() const { return n > (1u << 20); }
  void resize(uint64_t k) { n = k; if (!sparse()) v.resize(k); }
  uint64_t size() const { return n; }
  void clear() { std::vector<Ref<Page>>().swap(v); m.clear(); }
  const Ref<Page> &operator[](uint64_t i) const {
    if (!sparse()) return v[i];
    static const Ref<Page> none;
    auto it = m.find(i);
    return it == m.end() ? none : it->second;
  }
  Ref<Page> &mut(uint64_t i) { return sparse() ? m[i] : v[i]; }
};

enum ObjKind : uint8_t { OK_Global, OK_Stack, OK_Malloc, OK_New, OK_NewArr };
struct Obj {
  int rc = 0;
  uint64_t base = 0, size = 0;
  E symSize = nullptr;
  ObjKind kind = OK_Global;
  bool alive = true, zero = false, ro = false;
  const void *site = nullptr;      // instruction that allocated it
  const void *freeSite = nullptr;
  Pages pages;    // null page: all zero (zero) or all uninitialised
  std::vector<Ref<ShPage>> sh;
};
static const unsigned CH = 32;
struct Chunk { int rc = 0; Ref<Obj> o[CH]; };

static const uint64_t MAX_OBJ = 1ull << 36;
static const uint64_t HEAP_BASE = 0x100000000ull;
static const unsigned SLOT_BITS = 20;
static const uint64_t FN_BASE = 0x10000000ull;

struct VC {
  uint16_t c[MAXT] = {0};
  void join(const VC &o) { for (unsigned i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct KFunc;
struct Frame {
  KFunc *f;
  uint32_t pc;
  uint32_t base;      // first register
  uint32_t allocaBase;
  int retDst;         // slot in the caller's frame (relative), -1 none
  std::shared_ptr<std::vector<Val>> va;
};

enum PK : uint8_t { PK_None, PK_Start, PK_Load, PK_Store, PK_Lock, PK_CondOp, PK_Yield, PK_Join, PK_CondBlocked, PK_Relock };
struct Pend { PK k = PK_None; uint64_t addr = 0; uint64_t mtx = 0; };
struct Thread {
  std::vector<Val> regs;
  std::vector<Frame> frames;
  std::vector<uint32_t> allocas;
  bool finished = false, granted = false;
  Pend pend;
  VC vc, relF, acqP;
};
struct Sleep { uint8_t tid; Pend p; };

struct State {
  std::vector<Ref<Chunk>> chunks;
  uint32_t nslots = 0;
  std::vector<uint32_t> freeStack;
  std::vector<Thread> th;
  unsigned cur = 0, live = 1;
  std::vector<E> pcs;
  ModelP model;
  std::unordered_map<uint32_t, uint64_t> subst;   // expr id -> value fixed on this path
  std::vector<std::pair<std::string, uint32_t>> syms;  // in creation order
  std::map<std::string, uint32_t> symSeq;
  std::vector<uint8_t> sched;
  std::vector<std::pair<Val, uint8_t>> obs;
  std::map<uint64_t, int> mutexOwner;      // address -> tid
  std::map<uint64_t, VC> mutexVC, atomVC;
  std::vector<Sleep> sleep;
  std::map<std::pair<uint64_t, unsigned>, uint64_t> tls;  // (the main thread's copy, thread) -> that thread's copy
  unsigned preempts = 0, spurious = 0;
  unsigned atomicDepth = 0;
  uint64_t steps = 0;
  E pendSym = nullptr;
  int64_t liveAllocs = 0;
  Val arrBytes;            // array and malloc storage ever obtained
  uint64_t arrCount = 0;
  unsigned depth = 0;    // number of forks on the path
  std::set<std::string> covers;
  std::set<std::pair<uint32_t, uint64_t>> divs;   // divisions by a constant already tied to their quotient and remainder
};
