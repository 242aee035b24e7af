// C25: resources of POSIX files over the file system model.
#include "posix.h"
#include <vector>
using namespace lsmdb;

enum Kind { RANDOM, SEQ, WRITE, LOGGER, LOCK };
struct H { Kind k; RandomAccessFile* r; SequentialFile* s; WritableFile* w; Logger* l; FileLock* lock; };
struct All2 {
  Env* env;
  H h[8];
  int n = 0, fdLimit, mapLimit;
  // descriptors that files other than random-access ones hold
  int others() { int c = 0; for (int i = 0; i < n; i++) c += h[i].k != RANDOM; return c; }
  int randoms() { return n - others(); }
  void check() {
    REQUIRE(fsOpenMaps() <= mapLimit, "no more mappings are held than the limit");
    REQUIRE(fsOpenFds() - others() >= 0 && fsOpenFds() - others() <= fdLimit, "no more read-only descriptors are kept open than the limit");
    REQUIRE(fsOpenFds() - others() + fsOpenMaps() <= randoms(), "a call that failed or finished releases what it acquired");
    int streams = 0;
    for (int i = 0; i < n; i++) streams += h[i].k == LOGGER;
    REQUIRE(fsOpenStreams() == streams, "streams are released");
  }
  void open(uint32_t kind, const char* name) {
    H x{(Kind)kind, nullptr, nullptr, nullptr, nullptr, nullptr};
    Status s;
    int fails = g_fs.faults;
    switch (kind) {
      case RANDOM: s = env->NewRandomAccessFile(name, &x.r); break;
      case SEQ: s = env->NewSequentialFile(name, &x.s); break;
      case WRITE: s = lsx_choose(2, "append") ? env->NewAppendableFile("/d/w", &x.w) : env->NewWritableFile("/d/w", &x.w); break;
      case LOGGER: s = env->NewLogger("/d/log", &x.l); break;
      case LOCK: s = env->LockFile("/d/lock", &x.lock); break;
    }
    if (!s.ok()) { REQUIRE(!x.r && !x.s && !x.w && !x.l && !x.lock, "a failed open gives a null object"); lsx_cover("open failed"); return; }
    REQUIRE(kind == LOCK || (x.r || x.s || x.w || x.l), "a successful open gives an object");
    h[n++] = x;
  }
  void close(int j) {
    H x = h[j];
    if (x.k == LOCK) {
      if (!env->UnlockFile(x.lock).ok()) return;  // still held
    }
    if (x.k == WRITE && lsx_choose(2, "closefirst")) x.w->Close();
    delete x.r;
    delete x.s;
    delete x.w;
    delete x.l;
    for (int i = j; i + 1 < n; i++) h[i] = h[i + 1];
    n--;
  }
};
static void setUp(All2& a, int fds, int maps) {
  a.env = posixEnv(fds, maps);
  a.fdLimit = fds;
  a.mapLimit = maps;
  fsMkdir("/d");
  fsCreate("/d/f", "data", 4);
  fsCreate("/d/empty", "", 0);
}
static void capacityIsBack(All2& a) {
  noFaults();
  RandomAccessFile* r[6];
  int n = a.fdLimit + a.mapLimit + 1;
  for (int i = 0; i < n; i++) REQUIRE(a.env->NewRandomAccessFile("/d/f", &r[i]).ok(), "an existing file can be opened");
  REQUIRE(fsOpenMaps() == a.mapLimit && fsOpenFds() == a.fdLimit, "capacity is given back, so that later opens can use it");
  for (int i = 0; i < n; i++) delete r[i];
  REQUIRE(fsOpenMaps() == 0 && fsOpenFds() == 0, "descriptors and mappings are released with the file");
}
extern "C" void c25_handles() {
  All2 a;
  const uint32_t ops = (uint32_t)lsx_param("ops", 3), kinds = (uint32_t)lsx_param("kinds", 5);
  uint32_t lim = lsx_choose((uint32_t)lsx_param("limits", 4), "limits");
  setUp(a, lim == 0 ? 1 : lim == 1 ? 0 : lim == 2 ? 1 : 2, lim == 0 ? 1 : lim == 1 ? 1 : lim == 2 ? 0 : 1);
  int64_t before = lsx_live_allocs();
  faults(~(1u << FC_munmap), (int)lsx_param("faults", 1));
  for (uint32_t i = 0; i < ops; i++) {
    uint32_t op = lsx_choose(kinds + 2, "op");
    if (op < kinds) a.open(op, op == RANDOM && lsx_choose(2, "empty") ? "/d/empty" : "/d/f");
    else if (a.n && op == kinds) a.close((int)lsx_choose((uint32_t)a.n, "which"));
    else if (a.n) {
      H& x = a.h[a.n - 1];
      char b[4];
      Slice r;
      if (x.k == RANDOM) x.r->Read(0, 2, &r, b);
      if (x.k == SEQ) x.s->Read(2, &r, b);
      if (x.k == WRITE) { x.w->Append("x"); x.w->Sync(); }
      if (x.k == LOGGER) Log(x.l, "m");
    }
    a.check();
  }
  g_fs.faultMask &= ~(1u << FC_fcntl);  // the locks can be released in the end
  while (a.n) a.close(lsx_choose(2, "first") ? 0 : a.n - 1), a.check();
  capacityIsBack(a);
  REQUIRE(fsOpenStreams() == 0, "streams are released");
  REQUIRE(lsx_live_allocs() == before, "all memory is freed with the files");
  lsx_cover("end");
}
// random-access files alone: longer histories around the limits
extern "C" void c25_limits() {
  All2 a;
  const uint32_t ops = (uint32_t)lsx_param("ops", 5);
  setUp(a, (int)lsx_choose(3, "fds"), (int)lsx_choose(3, "maps"));
  int64_t before = lsx_live_allocs();
  faults(1 << FC_open | 1 << FC_mmap | 1 << FC_stat | 1 << FC_close, (int)lsx_param("faults", 1));
  for (uint32_t i = 0; i < ops; i++) {
    uint32_t op = lsx_choose(4, "op");
    if (op == 0) a.open(RANDOM, "/d/f");
    else if (op == 1) a.open(RANDOM, "/d/empty");
    else if (a.n) a.close(op == 2 ? 0 : a.n - 1);
    a.check();
    if (a.n > 2) lsx_cover("several");
  }
  while (a.n) a.close(0), a.check();
  capacityIsBack(a);
  REQUIRE(lsx_live_allocs() == before, "all memory is freed with the files");
  lsx_cover("end");
}
// two threads around the limits
static void openClose(void* p) {
  Env* env = (Env*)p;
  RandomAccessFile *r = nullptr, *q = nullptr;
  REQUIRE(env->NewRandomAccessFile("/d/f", &r).ok(), "an existing file can be opened");
  char b[4];
  Slice x;
  REQUIRE(r->Read(1, 2, &x, b).ok() && x == Slice("at"), "a read returns the file's bytes");
  delete r;
  (void)q;
}
extern "C" void c25_threads() {
  All2 a;
  setUp(a, (int)lsx_choose(2, "fds"), (int)lsx_choose(2, "maps"));
  int64_t before = lsx_live_allocs();
  int t = lsx_thread_create(&openClose, a.env);
  openClose(a.env);
  lsx_thread_join(t);
  REQUIRE(g_fs.peakMaps <= a.mapLimit, "no more mappings are held than the limit");
  a.check();
  capacityIsBack(a);
  REQUIRE(lsx_live_allocs() == before, "all memory is freed with the files");
  lsx_cover("end");
}
// the default limit is a fifth of the descriptors the system allows
extern "C" void c25_default() {
  fsReset();
  g_fs.rlimit = (uint64_t)lsx_choose(16, "rlimit");
  if (lsx_choose(2, "unlimited")) g_fs.rlimit = ~0ull;
  EnvPosixTest::limits(-1, 0);
  faults(1 << FC_getrlimit, 1);
  Env* env = Env::Default();
  int limit = g_fs.rlimit == ~0ull || g_fs.faultBudget == 0 ? 100 : (int)(g_fs.rlimit / 5);
  noFaults();
  fsMkdir("/d");
  fsCreate("/d/f", "data", 4);
  RandomAccessFile* r[5];
  for (int i = 0; i < 5; i++) REQUIRE(env->NewRandomAccessFile("/d/f", &r[i]).ok(), "an existing file can be opened");
  REQUIRE(fsOpenFds() == (limit < 5 ? limit : 5), "the number of read-only descriptors kept open is limited to a fifth of those the system allows");
  for (int i = 0; i < 5; i++) delete r[i];
  REQUIRE(fsOpenFds() == 0, "descriptors are released with the file");
  lsx_cover("end");
}

// ---------------------------------------------------------------- C35
// The process may start another program at any moment: every descriptor must be marked from the moment it is opened.
// (The model reports the open that makes an unmarked one.)
struct Kept { Env* env; RandomAccessFile* r[3]; int n = 0; };
static void inheritOp(Kept& k, uint32_t op) {
  Env* env = k.env;
  Slice x;
  char b[8];
  SequentialFile* s = nullptr;
  WritableFile* w = nullptr;
  FileLock* l = nullptr;
  Logger* g = nullptr;
  std::vector<std::string> names;
  std::string data;
  switch (op) {
    case 0:
      if (k.n < 3 && env->NewRandomAccessFile(lsx_choose(2, "empty") ? "/d/empty" : "/d/f", &k.r[k.n]).ok()) k.n++;
      break;
    case 1:
      if (k.n) k.r[lsx_choose((uint32_t)k.n, "which")]->Read(0, 2, &x, b);
      break;
    case 2:
      if (env->NewSequentialFile("/d/f", &s).ok()) { s->Skip(1); s->Read(2, &x, b); lsx_cover("sequential"); }
      break;
    case 3: case 4: case 5: {
      const char* name = op == 5 ? "/d/w" : "/d/MANIFEST-1";
      if ((op == 4 ? env->NewAppendableFile(name, &w) : env->NewWritableFile(name, &w)).ok()) {
        w->Append("x");
        if (w->Sync().ok() && op == 3) lsx_cover("manifest synced");
        if (op == 5) w->Close();
      }
      break;
    }
    case 6:
      if (env->LockFile("/d/LOCK", &l).ok()) { lsx_cover("locked"); if (!env->UnlockFile(l).ok()) l = nullptr; }
      break;
    case 7:
      if (env->NewLogger("/d/LOG", &g).ok()) { Log(g, "m %d", 1); lsx_cover("logged"); }
      break;
    case 8: env->GetChildren("/d", &names); break;
    case 9: WriteStringToFile(env, "abc", "/d/whole"); break;
    case 10: ReadFileToString(env, "/d/f", &data); break;
    case 11: {
      uint64_t n = 0;
      env->FileExists("/d/f");
      env->GetFileSize("/d/f", &n);
      env->CreateDir("/d/sub");
      env->RenameFile("/d/w", "/d/v");
      env->RemoveFile("/d/v");
      env->RemoveDir("/d/sub");
      env->GetTestDirectory(&data);
      break;
    }
  }
  REQUIRE(fsInherited() == 0, "no open descriptor is inherited by a program the process starts");
  delete s;
  delete w;
  delete g;
}
extern "C" void c35_inherit() {
  Kept k;
  const uint32_t lim = lsx_choose(3, "limits");
  k.env = posixEnv(lim == 0 ? 1 : 0, lim == 2 ? 1 : 0);
  fsMkdir("/d");
  fsMkdir("/tmp");
  fsCreate("/d/f", "data", 4);
  fsCreate("/d/empty", "", 0);
  g_fs.noInherit = 1;
  faults(~(1u << FC_munmap), (int)lsx_param("faults", 1), (int)lsx_param("interrupts", 0));
  const uint32_t ops = (uint32_t)lsx_param("ops", 2);
  for (uint32_t i = 0; i < ops; i++) inheritOp(k, lsx_choose(12, "op"));
  for (int i = 0; i < k.n; i++) { if (fsOpenFds()) lsx_cover("kept open"); delete k.r[i]; }
  lsx_cover("end");
}
