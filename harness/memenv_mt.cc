// C21: the in-memory environment used by two threads. Results must be those of some order of the operations that
// respects program order and real time; the executor checks for races, deadlocks and heap errors on every interleaving.
#include "h.h"
#include "stubenv.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
#include <memory>
using namespace lsmdb;

static const char* const kName[2] = {"/d/a", "/d/b"};
enum Kind { CRE, OPA, APP, WCL, OPR, RD, RCL, OPS, SKP, SRD, SCL, REM, REN, SIZ, EXI, LST, SHR };
struct Txt {
  char c[15];
  unsigned char n = 0;
  void put(const char* s, size_t k) { for (size_t i = 0; i < k && n < 15; i++) c[n++] = s[i]; }
  bool is(const Txt& o) const { if (n != o.n) return false; for (int i = 0; i < n; i++) if (c[i] != o.c[i]) return false; return true; }
};
struct Op { Kind k; int key; char id; int res; Txt txt; uint32_t t0, t1; };
struct Prog {
  Op op[12];
  int n = 0;
  Env* env;
  RandomAccessFile* shared = nullptr;
  WritableFile* w = nullptr;
  RandomAccessFile* r = nullptr;
  SequentialFile* s = nullptr;
};
static uint32_t g_tick;
static char g_id;
static uint32_t tick() {
  lsx_atomic_begin();
  uint32_t t = ++g_tick;
  lsx_atomic_end();
  return t;
}
static bool g_strict;  // an operation may start later than its thread's previous one ends
static uint32_t begin() {
  if (g_strict) lsx_yield(&g_tick);
  return tick();
}
static void run(void* a) {
  Prog* p = (Prog*)a;
  for (int i = 0; i < p->n; i++) {
    Op& o = p->op[i];
    std::string name(kName[o.key]), other(kName[1 - o.key]);
    char text[2] = {o.id, (char)(o.id + 32)};
    char buf[16];
    Slice r;
    std::vector<std::string> kids;
    uint64_t size = 0;
    o.t0 = begin();
    switch (o.k) {
      case CRE: o.res = p->env->NewWritableFile(name, &p->w).ok(); break;
      case OPA: o.res = p->env->NewAppendableFile(name, &p->w).ok(); break;
      case APP: if (p->w) o.res = p->w->Append(Slice(text, 2)).ok(); break;
      case WCL: delete p->w; p->w = nullptr; break;
      case OPR: o.res = p->env->NewRandomAccessFile(name, &p->r).ok(); break;
      case RD: if (p->r) o.res = p->r->Read(0, sizeof buf, &r, buf).ok(); break;
      case RCL: delete p->r; p->r = nullptr; break;
      case OPS: delete p->s; p->s = nullptr; o.res = p->env->NewSequentialFile(name, &p->s).ok(); break;
      case SKP: if (p->s) o.res = p->s->Skip(1).ok(); break;
      case SRD: if (p->s) o.res = p->s->Read(sizeof buf, &r, buf).ok(); break;
      case SCL: delete p->s; p->s = nullptr; break;
      case REM: o.res = p->env->RemoveFile(name).ok(); break;
      case REN: o.res = p->env->RenameFile(name, other).ok(); break;
      case SIZ: o.res = p->env->GetFileSize(name, &size).ok() ? (int)size : -1; break;
      case EXI: o.res = p->env->FileExists(name); break;
      case LST: o.res = p->env->GetChildren("/d", &kids).ok(); break;
      case SHR: if (p->shared) o.res = p->shared->Read(0, sizeof buf, &r, buf).ok(); break;
    }
    o.t1 = tick();
    if (o.k == RD || o.k == SRD || o.k == SHR) o.txt.put(r.data(), r.size());
    if (o.k == LST) for (size_t q = 0; q < kids.size(); q++) o.txt.put(kids[q].data(), kids[q].size());
  }
}
static void add(Prog& p, Kind k, int key = 0) {
  Op& o = p.op[p.n++];
  o = Op{k, key, (char)0, -2, Txt(), 0, 0};
  if (k == APP) o.id = (char)('A' + g_id++);
}
static void piece(Prog& p, uint32_t kinds) {
  switch (lsx_choose(kinds, "piece")) {
    case 0: add(p, CRE); add(p, APP); add(p, WCL); break;
    case 1: add(p, OPR); add(p, RD); add(p, RCL); break;
    case 2: add(p, REM); break;
    case 3: add(p, REN, 0); break;
    case 4: add(p, OPA); add(p, APP); add(p, WCL); break;
    case 5: add(p, SIZ); break;
    case 6: add(p, OPS); add(p, SKP); add(p, SKP); break;  // read and closed when both threads are done
    case 11: add(p, OPS); add(p, SKP); add(p, SRD); add(p, SCL); break;
    case 7: add(p, SHR); add(p, SHR); break;
    case 8: add(p, REN, 1); break;
    case 9: add(p, EXI, 1); add(p, EXI, 0); break;
    case 10: add(p, LST); break;
  }
}
struct Sim {
  Txt data[10];
  int ni = 0;
  int name[2] = {-1, -1};
  int w[2] = {-1, -1}, r[2] = {-1, -1}, s[2] = {-1, -1}, pos[2] = {0, 0};
  int shared = -1;
  int fresh() { return ni++; }
  bool step(int t, const Op& o) {
    int& here = name[o.key];
    Txt e;
    switch (o.k) {
      case CRE: if (here < 0) here = fresh(); data[here].n = 0; w[t] = here; return o.res == 1;
      case OPA: if (here < 0) here = fresh(); w[t] = here; return o.res == 1;
      case APP: { if (w[t] < 0) return o.res == -2; char c[2] = {o.id, (char)(o.id + 32)}; data[w[t]].put(c, 2); return o.res == 1; }
      case WCL: w[t] = -1; return true;
      case OPR: r[t] = here; return o.res == (here >= 0);
      case RD: return r[t] < 0 ? o.res == -2 : o.res == 1 && o.txt.is(data[r[t]]);
      case RCL: r[t] = -1; return true;
      case OPS: s[t] = here; pos[t] = 0; return o.res == (here >= 0);
      case SKP: if (s[t] < 0) return o.res == -2; if (pos[t] > data[s[t]].n) return true; /* truncated below the position: stays there */ if (pos[t] < data[s[t]].n) pos[t]++; return o.res == 1;
      case SRD:
        if (s[t] < 0) return o.res == -2;
        if (pos[t] > data[s[t]].n) return o.txt.n == 0;  // truncated below the reader's position: no bytes
        e.put(data[s[t]].c + pos[t], (size_t)(data[s[t]].n - pos[t]));
        pos[t] = data[s[t]].n;
        return o.res == 1 && o.txt.is(e);
      case SCL: s[t] = -1; return true;
      case REM: { bool had = here >= 0; here = -1; return o.res == had; }
      case REN: { bool had = here >= 0; if (had) { name[1 - o.key] = here; here = -1; } return o.res == had; }
      case SIZ: return o.res == (here < 0 ? -1 : data[here].n);
      case EXI: return o.res == (here >= 0);
      case LST: if (name[0] >= 0) e.put("a", 1); if (name[1] >= 0) e.put("b", 1); return o.res == 1 && o.txt.is(e);
      case SHR: return shared < 0 ? o.res == -2 : o.res == 1 && o.txt.is(data[shared]);
    }
    return false;
  }
};
static Txt g_final[2], g_late[2];
static bool g_there[2];
static bool explain(const Sim& s, const Prog* a, int i, const Prog* b, int j) {
  if (i == a->n && j == b->n) {
    for (int k = 0; k < 2; k++) {
      if ((s.name[k] >= 0) != g_there[k]) return false;
      if (g_there[k] && !g_final[k].is(s.data[s.name[k]])) return false;
      if (s.s[k] >= 0) {
        Txt e;
        const Txt& d = s.data[s.s[k]];
        if (s.pos[k] < d.n) e.put(d.c + s.pos[k], (size_t)(d.n - s.pos[k]));
        if (!g_late[k].is(e)) return false;
      }
    }
    return true;
  }
  if (i < a->n && !(j < b->n && b->op[j].t1 < a->op[i].t0)) {
    Sim n = s;
    if (n.step(0, a->op[i]) && explain(n, a, i + 1, b, j)) return true;
  }
  if (j < b->n && !(i < a->n && a->op[i].t1 < b->op[j].t0)) {
    Sim n = s;
    if (n.step(1, b->op[j]) && explain(n, a, i, b, j + 1)) return true;
  }
  return false;
}
static void two(int na, int nb, uint32_t akinds, uint32_t bkinds) {
  g_tick = 0;
  g_strict = lsx_param("strict", 0) != 0;
  g_id = 0;
  StubEnv base;
  int64_t before = lsx_live_allocs();
  {
    std::unique_ptr<Env> env(NewMemEnv(&base));
    Prog a, b;
    a.env = b.env = env.get();
    Sim s;
    RandomAccessFile* shared = nullptr;
    WritableFile* w = nullptr;
    env->NewWritableFile(kName[0], &w);
    w->Append(Slice("x", 1));
    delete w;
    s.shared = s.name[0] = s.fresh();
    s.data[0].put("x", 1);
    // the file there alone, also open for reading, or only open for reading
    uint32_t start = lsx_choose(3, "start");
    if (start) env->NewRandomAccessFile(kName[0], &shared); else s.shared = -1;
    a.shared = b.shared = shared;
    if (start == 2) { env->RemoveFile(kName[0]); s.name[0] = -1; }
    for (int i = 0; i < na; i++) piece(a, akinds);
    for (int i = 0; i < nb; i++) piece(b, bkinds);
    int t = lsx_thread_create(&run, &b);
    run(&a);
    lsx_thread_join(t);
    delete shared;
    for (int k = 0; k < 2; k++) {
      SequentialFile* q = k ? b.s : a.s;
      char buf[16];
      Slice r;
      g_late[k].n = 0;
      if (q && q->Read(sizeof buf, &r, buf).ok()) g_late[k].put(r.data(), r.size());
      delete q;
    }
    for (int k = 0; k < 2; k++) {
      RandomAccessFile* r = nullptr;
      char buf[16];
      Slice q;
      g_final[k].n = 0;
      g_there[k] = env->NewRandomAccessFile(kName[k], &r).ok();
      if (g_there[k]) {
        REQUIRE(r->Read(0, sizeof buf, &q, buf).ok(), "an existing file can be read");
        g_final[k].put(q.data(), q.size());
      }
      delete r;
    }
    REQUIRE(explain(s, &a, 0, &b, 0), "the results are those of some sequential order");
    lsx_cover("end");
  }
  REQUIRE(lsx_live_allocs() == before, "all memory is freed with the environment and the handles");
}
extern "C" void c21_pieces() { two((int)lsx_param("a", 1), (int)lsx_param("b", 1), (uint32_t)lsx_param("akinds", 12), (uint32_t)lsx_param("bkinds", 12)); }

// appends that cross a block boundary are seen whole or not at all; truncation in between likewise
struct Wr { Env* env; WritableFile* w; int n; int trunc; const char* data; };
static void writer(void* p) {
  Wr* x = (Wr*)p;
  if (x->trunc == 1) { delete x->w; x->env->NewWritableFile("/f", &x->w); }
  for (int i = 0; i < x->n; i++) x->w->Append(Slice(x->data, 3));
  if (x->trunc == 2) { delete x->w; x->env->NewWritableFile("/f", &x->w); }
}
extern "C" void c21_blocks() {
  StubEnv base;
  int64_t before = lsx_live_allocs();
  {
    std::unique_ptr<Env> env(NewMemEnv(&base));
    const uint32_t total = 8191 + 3 * (uint32_t)lsx_param("appends", 2);
    Buf fill(8192);
    memset(fill.p, 'f', 8192);
    Wr x{env.get(), nullptr, (int)lsx_param("appends", 2), (int)lsx_choose(3, "truncate"), "abc"};
    env->NewWritableFile("/f", &x.w);
    x.w->Append(Slice(fill.p, 8191));
    SequentialFile* f = nullptr;
    env->NewSequentialFile("/f", &f);
    int t = lsx_thread_create(&writer, &x);
    uint64_t at = lsx_choose(2, "skip") ? 8190 : 1;
    REQUIRE(f->Skip(at).ok(), "a skip succeeds");
    char buf[32];
    Slice r;
    if (at == 8190) {
      Status s = f->Read(sizeof buf, &r, buf);
      if (s.ok()) {
        size_t n = r.size();
        REQUIRE(n == 0 || n == 1 || (n > 1 && (n - 1) % 3 == 0) || x.trunc, "a reader sees whole appended pieces");
        if (n >= 1 && r[0] == 'f') for (size_t i = 1; i < n; i++) REQUIRE(r[i] == "abc"[(i - 1) % 3], "a reader sees the bytes appended");
        if (n > 1) lsx_cover("new bytes seen");
      } else {
        REQUIRE(x.trunc, "reading at a position inside the file succeeds");
      }
    } else {
      uint64_t size = 0;
      REQUIRE(env->GetFileSize("/f", &size).ok(), "the size is known");
      REQUIRE(size >= 8191 ? size <= total && (size - 8191) % 3 == 0 : x.trunc && size % 3 == 0, "the size counts whole appended pieces");
    }
    lsx_thread_join(t);
    delete x.w;
    delete f;
    lsx_cover("end");
  }
  REQUIRE(lsx_live_allocs() == before, "all memory is freed with the environment and the handles");
}
// closing the last handles, removing and tearing down at once
struct Cl { Env* env; WritableFile* w; RandomAccessFile* r; SequentialFile* s; int rm; };
static void closer(void* p) {
  Cl* x = (Cl*)p;
  if (x->rm == 1) x->env->RemoveFile("/f");
  if (x->rm == 2) x->env->RenameFile("/f", "/g");
  if (x->rm == 3) { WritableFile* w = nullptr; x->env->NewWritableFile("/g", &w); delete w; x->env->RenameFile("/g", "/f"); }
  delete x->w;
  delete x->r;
  delete x->s;
}
extern "C" void c21_close() {
  StubEnv base;
  int64_t before = lsx_live_allocs();
  {
    std::unique_ptr<Env> env(NewMemEnv(&base));
    Cl a{env.get(), nullptr, nullptr, nullptr, (int)lsx_choose(4, "names")}, b{env.get(), nullptr, nullptr, nullptr, (int)lsx_choose(3, "names2")};
    env->NewWritableFile("/f", &a.w);
    a.w->Append("text");
    env->NewRandomAccessFile("/f", &b.r);
    if (lsx_choose(2, "more")) env->NewSequentialFile("/f", &a.s); else env->NewSequentialFile("/f", &b.s);
    int t = lsx_thread_create(&closer, &b);
    closer(&a);
    lsx_thread_join(t);
    lsx_cover("end");
  }
  REQUIRE(lsx_live_allocs() == before, "all memory is freed with the environment and the handles");
}
