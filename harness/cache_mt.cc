// C15: the LRU cache used by two threads. Results must be those of some order of the operations that respects
// program order and real time; the executor checks for races, deadlocks and heap errors on every interleaving.
#include "h.h"
#include "lsmdb/cache.h"
#include "lsmdb/slice.h"
using namespace lsmdb;

static uint32_t g_hash[2];
extern "C" uint32_t lsxo__ZN5lsmdb4HashEPKcmj(const char* p, size_t n, uint32_t) { return g_hash[n == 1 && p[0] == 'b']; }
static const char* const kKey[2] = {"a", "b"};

enum Kind { INS, LKP, REL, ERA, PRU, TOT, VAL };
struct Op { Kind k; int key; int id; int res; uint32_t t0, t1; };
struct Prog { Op op[10]; int n = 0; Cache* c; Cache::Handle* h = nullptr; int hid = -1; };
static uint32_t g_tick;
static int g_key[12], g_del[12], g_nid;
static bool g_bad;
static void deleter(const Slice& key, void* v) {
  lsx_atomic_begin();
  uint64_t i = (uint64_t)v - 1000;
  if (i >= (uint64_t)g_nid || key.size() != 1 || key[0] != kKey[g_key[i]][0]) g_bad = true;
  else g_del[i]++;
  lsx_atomic_end();
}
static uint32_t tick() {
  lsx_atomic_begin();
  uint32_t t = ++g_tick;
  lsx_atomic_end();
  return t;
}
static bool g_strict;  // an operation may start later than its thread's previous one ends
static uint32_t begin() {
  if (g_strict) lsx_yield(&g_tick);
  return tick();
}
static void run(void* a) {
  Prog* p = (Prog*)a;
  for (int i = 0; i < p->n; i++) {
    Op& o = p->op[i];
    o.t0 = begin();
    switch (o.k) {
      case INS: p->h = p->c->Insert(Slice(kKey[o.key], 1), (void*)(uint64_t)(1000 + o.id), 1, &deleter); break;
      case LKP: p->h = p->c->Lookup(Slice(kKey[o.key], 1)); o.res = p->h ? (int)((uint64_t)p->c->Value(p->h) - 1000) : -1; break;
      case VAL: o.res = p->h ? (int)((uint64_t)p->c->Value(p->h) - 1000) : -1; break;
      case REL: if (p->h) p->c->Release(p->h); p->h = nullptr; break;
      case ERA: p->c->Erase(Slice(kKey[o.key], 1)); break;
      case PRU: p->c->Prune(); break;
      case TOT: o.res = (int)p->c->TotalCharge(); break;
    }
    o.t1 = tick();
  }
}
static void add(Prog& p, Kind k, int key = 0) {
  Op& o = p.op[p.n++];
  o = Op{k, key, -1, -1, 0, 0};
  if (k == INS) { o.id = g_nid; g_key[g_nid++] = key; }
}
static void piece(Prog& p, uint32_t kinds) {
  switch (lsx_choose(kinds, "piece")) {
    case 0: add(p, INS, 0); add(p, REL); break;
    case 1: add(p, LKP, 0); add(p, VAL); add(p, REL); break;
    case 2: add(p, ERA, 0); break;
    case 3: add(p, INS, 1); add(p, REL); break;
    case 4: add(p, LKP, 1); add(p, REL); break;
    case 5: add(p, PRU); break;
    case 6: add(p, TOT); break;
  }
}
// the sequential cache, one partition (or unbounded)
struct Sim {
  bool cached[12], live[12];
  int refs[12];
  int use[12];
  int hold[2] = {-1, -1};
  int clock = 0, cap;
  Sim(int c) : cap(c) { for (int i = 0; i < 12; i++) cached[i] = live[i] = false, refs[i] = 0, use[i] = 0; }
  int find(int key) { for (int i = 0; i < g_nid; i++) if (cached[i] && g_key[i] == key) return i; return -1; }
  void rel(int i) { if (--refs[i] == 0) use[i] = ++clock; }
  void ins(int i) {
    int old = find(g_key[i]);
    if (old >= 0) cached[old] = false;
    live[i] = cached[i] = true;
    refs[i] = 1;
    for (;;) {
      int n = 0, v = -1;
      for (int j = 0; j < g_nid; j++) if (cached[j]) { n++; if (!refs[j] && (v < 0 || use[j] < use[v])) v = j; }
      if (n <= cap || v < 0) break;
      cached[v] = false;
    }
  }
  bool step(int t, const Op& o) {
    int id;
    switch (o.k) {
      case INS: ins(o.id); hold[t] = o.id; return true;
      case LKP: id = find(o.key); if (id >= 0) refs[id]++; hold[t] = id; return o.res == id;
      case VAL: return o.res == hold[t];
      case REL: if (hold[t] >= 0) rel(hold[t]); hold[t] = -1; return true;
      case ERA: id = find(o.key); if (id >= 0) cached[id] = false; return true;
      case PRU: for (int j = 0; j < g_nid; j++) if (cached[j] && !refs[j]) cached[j] = false; return true;
      case TOT: { int n = 0; for (int j = 0; j < g_nid; j++) n += cached[j]; return o.res == n; }
    }
    return false;
  }
};
static int g_final[2];
static bool explain(const Sim& s, const Prog* a, int i, const Prog* b, int j) {
  if (i == a->n && j == b->n) {
    Sim f = s;
    return f.find(0) == g_final[0] && f.find(1) == g_final[1];
  }
  if (i < a->n && !(j < b->n && b->op[j].t1 < a->op[i].t0)) {
    Sim n = s;
    if (n.step(0, a->op[i]) && explain(n, a, i + 1, b, j)) return true;
  }
  if (j < b->n && !(i < a->n && a->op[i].t1 < b->op[j].t0)) {
    Sim n = s;
    if (n.step(1, b->op[j]) && explain(n, a, i, b, j + 1)) return true;
  }
  return false;
}
static void two(size_t capacity, int cap, int na, int nb, uint32_t kinds, uint32_t bkinds = 5) {
  g_tick = 0;
  g_strict = lsx_param("strict", 0) != 0;
  g_nid = 0;
  g_bad = false;
  for (int i = 0; i < 12; i++) g_del[i] = 0;
  int64_t before = lsx_live_allocs();
  {
    std::shared_ptr<Cache> c = NewLRUCache(capacity);
    Prog a, b;
    a.c = b.c = c.get();
    Sim s(cap);
    int pre = (int)lsx_choose(2, "before");
    for (int i = 0; i < pre; i++) {
      g_key[g_nid++] = 0;
      c->Release(c->Insert(Slice(kKey[0], 1), (void*)(uint64_t)(1000 + i), 1, &deleter));
      s.ins(i);
      s.rel(i);
    }
    for (int i = 0; i < na; i++) piece(a, kinds);
    for (int i = 0; i < nb; i++) piece(b, bkinds);
    int t = lsx_thread_create(&run, &b);
    run(&a);
    lsx_thread_join(t);
    for (int k = 0; k < 2; k++) {
      Cache::Handle* h = c->Lookup(Slice(kKey[k], 1));
      g_final[k] = h ? (int)((uint64_t)c->Value(h) - 1000) : -1;
      if (h) c->Release(h);
    }
    All ok;
    for (int i = 0; i < g_nid; i++) ok.that(g_del[i] == ((g_final[0] == i || g_final[1] == i) ? 0 : 1));
    REQUIRE(ok.ok && !g_bad, "an entry no longer cached or held has been deleted exactly once");
    REQUIRE(explain(s, &a, 0, &b, 0), "the results are those of some sequential order");
    lsx_cover("end");
  }
  All ok;
  for (int i = 0; i < g_nid; i++) ok.that(g_del[i] == 1);
  REQUIRE(ok.ok && !g_bad, "destroying the cache deletes every entry exactly once");
  REQUIRE(lsx_live_allocs() == before, "the cache frees all its memory");
}
extern "C" void c15_same() {
  g_hash[0] = 0x20000001u;
  g_hash[1] = 0x20000001u;
  two(1600, 100, (int)lsx_param("a", 2), (int)lsx_param("b", 1), 7);
}
extern "C" void c15_evict() {
  g_hash[0] = 0x20000001u;
  g_hash[1] = 0x20000002u;
  two(16, 1, (int)lsx_param("a", 2), (int)lsx_param("b", 1), 6);
}
extern "C" void c15_sweeps() {  // pruning and totals of both threads: they visit every partition
  g_hash[0] = 0x20000001u;
  g_hash[1] = 0x20000001u;
  two(1600, 100, 1, 1, 7, 7);
}
extern "C" void c15_apart() {  // two partitions
  g_hash[0] = 0x20000001u;
  g_hash[1] = 0xf0000002u;
  two(1600, 100, (int)lsx_param("a", 2), (int)lsx_param("b", 1), 5);
}
struct Ids { Cache* c; uint64_t id[2]; int n; };
static void takeIds(void* p) { Ids* x = (Ids*)p; for (int i = 0; i < x->n; i++) x->id[i] = x->c->NewId(); }
extern "C" void c15_ids() {
  std::shared_ptr<Cache> c = NewLRUCache(100);
  Ids x[3];
  int th[3], n = (int)lsx_param("threads", 2);
  for (int i = 0; i < n; i++) x[i] = Ids{c.get(), {0, 0}, 2};
  for (int i = 1; i < n; i++) th[i] = lsx_thread_create(&takeIds, &x[i]);
  takeIds(&x[0]);
  for (int i = 1; i < n; i++) lsx_thread_join(th[i]);
  All ok;
  for (int i = 0; i < 2 * n; i++)
    for (int j = 0; j < i; j++) ok.that(x[i / 2].id[i % 2] != x[j / 2].id[j % 2]);
  REQUIRE(ok.ok, "new ids are pairwise distinct");
  lsx_cover("end");
}

// very many ids of one cache, and the ids of another one beside it
extern "C" void c15_manyids() {
  const int n = (int)lsx_param("n", 70000);
  std::shared_ptr<Cache> c = NewLRUCache(100), d = NewLRUCache(0);
  enum { SLOTS = 1 << 18 };
  static uint64_t seen[SLOTS];
  static unsigned char used[SLOTS];
  bool distinct = true;
  for (int i = 0; i < n; i++) {
    uint64_t id = c->NewId();
    if (i % 7 == 0) d->NewId();
    if (i % 4096 == 0) { c->Prune(); }
    uint32_t s = (uint32_t)((id * 0x9e3779b97f4a7c15ull) >> 46);
    while (used[s] && seen[s] != id) s = (s + 1) & (SLOTS - 1);
    if (used[s]) { distinct = false; break; }
    used[s] = 1;
    seen[s] = id;
  }
  REQUIRE(distinct, "very many ids are pairwise distinct");
  lsx_cover("end");
}
