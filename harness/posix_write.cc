// C22, C23: POSIX writable files over the file system model.
#include "posix.h"
using namespace lsmdb;

static const uint32_t BUF = 65536;
static char g_src[6 * BUF], g_store[6 * BUF + 64];
// data whose every window of a few bytes is different, symbolic around the buffer boundaries
static void fillSource(uint32_t n) {
  for (uint32_t i = 0; i < n; i++) g_src[i] = (char)((i * 2654435761u) >> 21);
  for (uint32_t b = 0; b < n; b += BUF) lsx_sym_bytes(g_src + (b ? b - 2 : 0), 4, "d");
}
static int injected() { return g_fs.faults - g_fs.refused; }  // the calls made are ones the system accepts
struct Track {
  int ino;
  uint64_t base, total = 0;
  bool dead = false;
  void check() {
    if (dead) return;
    const FsInode& f = g_fs.ino[ino];
    REQUIRE(f.size >= base && f.size - base <= total, "no more bytes reach the file than were appended");
    REQUIRE(memcmp(f.data + base, g_src, f.size - base) == 0, "the bytes that reach the file are the appended bytes in order");
  }
  void complete() {
    if (dead) return;
    REQUIRE(g_fs.ino[ino].size - base == total, "after a successful flush, sync or close every appended byte has reached the file");
  }
};
static const uint32_t kSize[] = {1, BUF - 1, BUF, BUF + 1, 0, 2 * BUF + 1, 2 * BUF, BUF / 2};

extern "C" void c22_write() {
  Env* env = posixEnv(10, 10);
  fsMkdir("/d");
  const uint32_t ops = (uint32_t)lsx_param("ops", 3), sizes = (uint32_t)lsx_param("sizes", 5);
  int64_t before = lsx_live_allocs();
  int appendable = (int)lsx_choose(2, "appendable");
  if (lsx_choose(2, "exists")) fsCreateBig("/d/f", g_store, sizeof g_store, 3), memcpy(g_store, "old", 3);
  else fsNextStore(g_store, sizeof g_store);
  WritableFile* w = nullptr;
  REQUIRE((appendable ? env->NewAppendableFile("/d/f", &w) : env->NewWritableFile("/d/f", &w)).ok() && w, "the file can be opened");
  Track t;
  t.ino = fsFind("/d/f");
  t.base = g_fs.ino[t.ino].size;
  fillSource(ops * (2 * BUF + 1) < sizeof g_src ? ops * (2 * BUF + 1) : sizeof g_src);
  faults(1 << FC_write | 1 << FC_close | 1 << FC_fsync, (int)lsx_param("faults", 1), (int)lsx_param("interrupts", 1), (int)lsx_param("shorts", 1));
  uint64_t at = 0;
  for (uint32_t i = 0; i < ops; i++) {
    uint32_t op = lsx_choose(3, "op");
    int f0 = injected();
    Status s;
    if (op == 0) {
      uint32_t n = kSize[lsx_choose(sizes, "size")];
      Buf piece(n);
      memcpy(piece.p, g_src + at, n);
      t.total += n;
      at += n;
      s = w->Append(Slice(piece.p, n));
    } else if (op == 1) s = w->Flush();
    else s = w->Sync();
    REQUIRE(s.ok() == (injected() == f0), "a call fails exactly if a write, sync or close it made failed");
    if (s.ok() && op != 0) t.complete();
    t.check();
    if (!s.ok()) { t.dead = true; lsx_cover("error reported"); break; }
  }
  if (lsx_choose(2, "close")) {
    int f0 = injected();
    Status s = w->Close();
    REQUIRE(s.ok() == (injected() == f0), "a call fails exactly if a write, sync or close it made failed");
    if (s.ok()) { t.complete(); lsx_cover("closed"); }
    t.check();
  }
  delete w;
  t.check();
  REQUIRE(fsOpenFds() == 0, "the descriptor is closed with the file");
  REQUIRE(lsx_live_allocs() == before, "the file object frees its memory");
  lsx_cover("end");
}
// every split of small writes: any number of interruptions and partial writes
extern "C" void c22_split() {
  Env* env = posixEnv(10, 10);
  fsMkdir("/d");
  fsNextStore(g_store, sizeof g_store);
  WritableFile* w = nullptr;
  env->NewWritableFile("/d/f", &w);
  Track t;
  t.ino = fsFind("/d/f");
  t.base = 0;
  fillSource(64);
  lsx_sym_bytes(g_src, 16, "e");
  faults(1 << FC_write, 1, (int)lsx_param("interrupts", 2), (int)lsx_param("shorts", 3));
  uint32_t at = 0;
  for (int i = 0; i < 2; i++) {
    uint32_t n = 1 + lsx_choose(4, "size");
    t.total += n;
    REQUIRE(w->Append(Slice(g_src + at, n)).ok(), "an append that fits in the buffer succeeds");
    at += n;
    int f0 = injected();
    Status s = w->Flush();
    REQUIRE(s.ok() == (injected() == f0), "a call fails exactly if a write it made failed");
    if (s.ok()) t.complete();
    t.check();
    if (!s.ok()) { t.dead = true; break; }
  }
  noFaults();
  delete w;
  t.check();
  lsx_cover("end");
}

// appends of many times the buffer, beside small ones
extern "C" void c22_long() {
  static const uint32_t kLong[] = {3 * BUF + 7, 5 * BUF, 4096, 100003, 20 * BUF - 1, 2 * BUF - 1, 3 * BUF, 1048577, 8192};
  const uint32_t np = (uint32_t)lsx_param("sizes", 4);
  Env* env = posixEnv(10, 10);
  fsMkdir("/d");
  const uint64_t room = 45 * BUF;
  Buf data(room), store(room);
  fillPattern(data.p, room);
  fsNextStore(store.p, room);
  WritableFile* w = nullptr;
  REQUIRE(env->NewWritableFile("/d/f", &w).ok() && w, "the file can be opened");
  const int ino = fsFind("/d/f");
  faults(1 << FC_write, (int)lsx_param("faults", 1), 1, (int)lsx_param("shorts", 1));
  uint64_t total = 0;
  bool dead = false;
  for (int i = 0; i < 3 && !dead; i++) {
    const uint32_t n = i == 1 ? 1 + 2999 * lsx_choose(2, "between") : kLong[lsx_choose(np, "size")];
    data.p[total + n - 1] = (char)lsx_sym("last", 8);
    const int f0 = injected();
    Status s = w->Append(Slice(data.p + total, n));
    total += n;
    REQUIRE(s.ok() == (injected() == f0), "a call fails exactly if a write it made failed");
    dead = !s.ok();
  }
  if (!dead) {
    const int f0 = injected();
    Status s = lsx_choose(2, "close") ? w->Close() : w->Sync();
    REQUIRE(s.ok() == (injected() == f0), "a call fails exactly if a write it made failed");
    if (s.ok()) REQUIRE(g_fs.ino[ino].size == total, "after a successful flush, sync or close every appended byte has reached the file");
  }
  REQUIRE(g_fs.ino[ino].size <= total && memcmp(store.p, data.p, g_fs.ino[ino].size) == 0, "the bytes that reach the file are the appended bytes in order");
  delete w;
  lsx_cover("end");
}
// more than 4 GB at once: the length is kept whole
extern "C" void c22_huge() {
  const uint64_t n = (1ull << 32) + 5 * BUF + 9, room = n + 64;
  char *data = (char*)calloc(room, 1), *store = (char*)calloc(room, 1);
  const uint64_t marks[] = {0, BUF - 3, BUF, 7 * BUF, (1ull << 31) - 3, 0x7ffff000ull + BUF - 3, (1ull << 32) - 3, (1ull << 32) + BUF, n - 6};
  for (int i = 0; i < 9; i++)
    for (int j = 0; j < 6; j++) data[marks[i] + j] = (char)(i * 6 + j + 1);
  data[n - 7] = (char)lsx_sym("byte", 8);
  Env* env = posixEnv(10, 10);
  fsMkdir("/d");
  fsNextStore(store, room);
  WritableFile* w = nullptr;
  REQUIRE(env->NewWritableFile("/d/f", &w).ok() && w, "the file can be opened");
  const uint32_t before = lsx_choose(2, "before") ? 256 : 0;  // something in the buffer already
  if (before) REQUIRE(w->Append(Slice(data, before)).ok(), "an append succeeds");
  REQUIRE(w->Append(Slice(data + before, n - before)).ok() && w->Append("end").ok() && w->Close().ok(), "a large append succeeds");
  delete w;
  const FsInode& f = g_fs.ino[fsFind("/d/f")];
  REQUIRE(f.size == n + 3, "after a successful flush, sync or close every appended byte has reached the file");
  for (int i = 0; i < 9; i++) REQUIRE(sameBytes(store + marks[i], data + marks[i], 6), "the bytes that reach the file are the appended bytes in order");
  REQUIRE(store[n - 7] == data[n - 7] && memcmp(store + n, "end", 3) == 0, "the bytes that reach the file are the appended bytes in order");
  REQUIRE(memcmp(store + 8 * BUF, data + 8 * BUF, 3 * BUF) == 0 && memcmp(store + n - 3 * BUF, data + n - 3 * BUF, 3 * BUF) == 0, "the bytes that reach the file are the appended bytes in order");
  free(data);
  free(store);
  lsx_cover("end");
}

// ---------------------------------------------------------------- C23
struct Name { const char* path; int manifest; const char* dir; };
static const Name kNames[] = {
  {"/d/MANIFEST-000001", 1, "/d"}, {"/d/000001.log", 0, "/d"}, {"MANIFEST-1", 1, "."}, {"/MANIFEST-2", 1, "/"}, {"/d/MANIFEST", 1, "/d"},
  {"/d/MANIFES", 0, "/d"}, {"/MANIFEST/x", 0, "/MANIFEST"}, {"/d/xMANIFEST", 0, "/d"}, {"d/e/MANIFEST-3", 1, "d/e"}};
static void syncOnce(WritableFile* w, Track& t, const Name& nm, int dirIno) {
  int l0 = g_fs.nlog, f0 = g_fs.faults;
  Status s = w->Sync();
  REQUIRE(s.ok() == (injected() == f0), "sync fails exactly if one of its steps failed");
  int firstWrite = 1000, dirSync = 1000, fileSync = -1;
  for (int i = l0; i < g_fs.nlog; i++) {
    const FsEvent& e = g_fs.log[i];
    if (e.call == FC_write && e.ino == t.ino && firstWrite == 1000) firstWrite = i;
    if (e.call == FC_fsync && e.ino == dirIno && e.ret == 0 && dirSync == 1000) dirSync = i;
    if (e.call == FC_fsync && e.ino == t.ino && e.ret == 0) fileSync = i;
  }
  if (nm.manifest) {
    REQUIRE(firstWrite == 1000 || dirSync < firstWrite, "the directory of a manifest is synced before its data is written");
    if (s.ok()) { REQUIRE(dirSync < fileSync, "the directory of a manifest is synced first"); lsx_cover("manifest synced"); }
    else lsx_cover("manifest sync failed");
  }
  if (s.ok()) {
    t.complete();
    t.check();
    REQUIRE(g_fs.ino[t.ino].synced == g_fs.ino[t.ino].size, "after a successful sync everything appended survives a crash");
  } else {
    t.check();
    t.dead = true;
  }
}
extern "C" void c23_sync() {
  Env* env = posixEnv(10, 10);
  fsMkdir("/d");
  fsMkdir("/MANIFEST");
  fsMkdir("d");
  fsMkdir("d/e");
  const Name& nm = kNames[lsx_choose((uint32_t)lsx_param("names", 9), "name")];
  fsNextStore(g_store, sizeof g_store);
  int dirIno = fsFind(nm.dir);
  WritableFile* w = nullptr;
  REQUIRE((lsx_choose(2, "appendable") ? env->NewAppendableFile(nm.path, &w) : env->NewWritableFile(nm.path, &w)).ok() && w, "the file can be opened");
  Track t;
  t.ino = fsFind(nm.path);
  t.base = 0;
  fillSource(3 * BUF);
  g_fs.logging = 1;
  g_fs.firstFd = (int)lsx_choose(2, "fd") * 3;  // descriptor 0 is as good as any
  faults(1 << FC_write | 1 << FC_open | 1 << FC_fsync, (int)lsx_param("faults", 1), (int)lsx_param("interrupts", 1), (int)lsx_param("shorts", 1));
  static const uint32_t sz[] = {1, BUF + 1, 0, BUF};
  uint64_t at = 0;
  const int rounds = (int)lsx_param("rounds", 2);
  for (int i = 0; i < rounds && !t.dead; i++) {
    uint32_t n = sz[lsx_choose((uint32_t)lsx_param("sizes", 3), "size")];
    t.total += n;
    int f0 = injected();
    Status s = w->Append(Slice(g_src + at, n));
    at += n;
    REQUIRE(s.ok() == (injected() == f0), "an append fails exactly if a write it made failed");
    if (!s.ok()) { t.dead = true; break; }
    if (i == 0 && lsx_choose(2, "flush") && !w->Flush().ok()) { t.dead = true; break; }
    syncOnce(w, t, nm, dirIno);
  }
  if (t.dead && lsx_choose(2, "again")) {  // a sync after a failure tells the truth about its own steps
    int f0 = injected(), d0 = g_fs.ino[dirIno].syncs, s0 = g_fs.ino[t.ino].syncs;
    Status s = w->Sync();
    REQUIRE(s.ok() == (injected() == f0), "sync fails exactly if one of its steps failed");
    if (s.ok()) {
      REQUIRE(!nm.manifest || g_fs.ino[dirIno].syncs > d0, "the directory of a manifest is synced first");
      REQUIRE(g_fs.ino[t.ino].syncs > s0 && g_fs.ino[t.ino].synced == g_fs.ino[t.ino].size, "after a successful sync what was written survives a crash");
    }
    lsx_cover("synced again");
  }
  noFaults();
  REQUIRE(fsOpenFds() == 1, "sync leaves no descriptor open");
  delete w;
  REQUIRE(fsOpenFds() == 0, "the descriptor is closed with the file");
  lsx_cover("end");
}

// long paths: the directory synced is the file's own, and every name is told apart whole
extern "C" void c23_long() {
  Env* env = posixEnv(10, 10);
  static const uint32_t kComp[] = {250, 100, 31, 15, 255, 200, 127, 63};
  const uint32_t depth = 1 + lsx_choose(4, "depth"), comp = kComp[lsx_choose((uint32_t)lsx_param("lens", 4), "comp")];
  const uint32_t rel = lsx_choose(2, "relative");
  std::string dir = rel ? "" : "/";
  for (uint32_t i = 0; i < depth; i++) {
    if (i) dir += '/';
    std::string shorter = dir;
    dir.append(comp, (char)('p' + i));
    shorter.append(comp - 1, (char)('p' + i));  // beside the one that is used
    fsMkdir(dir.c_str());
    if (i + 1 == depth) fsMkdir(shorter.c_str());
  }
  // the last byte of the name is arbitrary
  const uint32_t kind = lsx_choose(4, "name");
  std::string base = kind == 0 ? "MANIFEST-00000" : kind == 1 ? "MANIFEST" + std::string(200, '7') : kind == 2 ? std::string(200, '7') + "MANIFEST" : "00000";
  const char c = (char)lsx_sym("byte", 8);
  lsx_assume((int)(c != 0) & (int)(c != '/') & (int)(c != '.'));
  const std::string path = dir + "/" + base + c;
  fsNextStore(g_store, sizeof g_store);
  const int dirIno = fsFind(dir.c_str());
  WritableFile* w = nullptr;
  REQUIRE(env->NewWritableFile(path, &w).ok() && w, "the file can be opened");
  Track t;
  t.ino = fsFind(path.c_str());
  t.base = 0;
  fillSource(64);
  g_fs.logging = 1;
  faults(1 << FC_write | 1 << FC_open | 1 << FC_fsync, (int)lsx_param("faults", 1));
  t.total = 9;
  REQUIRE(w->Append(Slice(g_src, 9)).ok(), "an append to the buffer succeeds");
  const Name nm = {path.c_str(), kind < 2, dir.c_str()};
  syncOnce(w, t, nm, dirIno);
  noFaults();
  delete w;
  lsx_cover("end");
}
