// C28: every operation of the POSIX environment against the system's answer.
#include "posix.h"
#include <fcntl.h>
#include <vector>
using namespace lsmdb;

// /d (file f of symbolic bytes, file .g, empty directory e, directory full with a file x), file top, "w" in the working directory
static const char* const PATHS[] = {"/d/f", "/d/none", "/d/e", "/d/full", "/none/f", "/top/f", "", "w", "/d/.g"};
enum { NPATH = 9, FLEN = 3 };
static char g_f[FLEN];
struct World {  // the name space, to compare before and after
  int ino[NPATH + 4];
  uint64_t size[NPATH + 4];
};
static const char* const MORE[] = {"/d", "/d/full/x", "/top", "/t"};
static const char* nameOf(int i) { return i < NPATH ? PATHS[i] : MORE[i - NPATH]; }
static World look() {
  World w;
  for (int i = 0; i < NPATH + 4; i++) {
    w.ino[i] = nameOf(i)[0] ? fsFind(nameOf(i)) : -1;
    w.size[i] = w.ino[i] >= 0 ? g_fs.ino[w.ino[i]].size : 0;
  }
  return w;
}
// nothing but the names a and b changed
static void same(const World& a, const World& b, const char* x = "-", const char* y = "-") {
  All ok;
  for (int i = 0; i < NPATH + 4; i++) {
    if (!strcmp(nameOf(i), x) || !strcmp(nameOf(i), y)) continue;
    ok.that(a.ino[i] == b.ino[i]);
    ok.that(a.size[i] == b.size[i]);
  }
  REQUIRE(ok.ok, "the operation acts on the paths it was given only");
}
static Env* g_env;
static void setUp() {
  g_env = posixEnv(2, 2);
  fsMkdir("/d");
  lsx_sym_bytes(g_f, FLEN, "f");
  fsCreate("/d/f", g_f, FLEN);
  fsCreate("/d/.g", "gg", 2);
  fsMkdir("/d/e");
  fsMkdir("/d/full");
  fsCreate("/d/full/x", "x", 1);
  fsCreate("/top", "tt", 2);
  fsCreate("w", "work", 4);
  g_fs.logging = 1;
  fsClearLog();
}
static int contents(const char* path, const char* p, uint64_t n) {
  int i = fsFind(path);
  return i >= 0 && g_fs.ino[i].size == n && sameBytes(g_fs.ino[i].data, p, n);
}
// success exactly if the system succeeded; otherwise the kind, the name and the message
static void verdict(const Status& s, const char* path) {
  REQUIRE(s.ok() == (g_fs.faults == 0), "success is reported exactly if the system did what was asked");
  if (!s.ok()) {
    REQUIRE(statusTells(s, path, g_fs.firstErr), "the error has the right kind, the name and the system's message");
    lsx_cover(g_fs.refused ? "refused" : "failed");
  } else lsx_cover("done");
}
static const char* pick(const char* name) {
  const uint32_t n = (uint32_t)lsx_param("paths", NPATH);
  return PATHS[lsx_choose(n, name)];
}
static const FsEvent* opened() {
  for (int i = 0; i < g_fs.nlog; i++) if (g_fs.log[i].call == FC_open && g_fs.log[i].ret >= 0) return &g_fs.log[i];
  return nullptr;
}
extern "C" void c28_names() {
  setUp();
  const World before = look();
  const uint32_t op = lsx_choose(6, "op");
  const char* p = pick("path");
  const int ino = p[0] ? fsFind(p) : -1;
  faults(~0u, (int)lsx_param("faults", 1));
  Status s;
  switch (op) {
    case 0:
      s = g_env->RemoveFile(p);
      verdict(s, p);
      if (s.ok()) { same(before, look(), p); REQUIRE(fsFind(p) < 0, "the file removed is gone"); REQUIRE(!g_fs.ino[ino].dir, "directories are not removed as files"); }
      break;
    case 1:
      s = g_env->CreateDir(p);
      verdict(s, p);
      if (s.ok()) { same(before, look(), p); REQUIRE(ino < 0 && fsFind(p) >= 0 && g_fs.ino[fsFind(p)].dir, "a directory is created"); REQUIRE((g_fs.ino[fsFind(p)].mode & 0700) == 0700, "a created directory can be used by its owner"); }
      break;
    case 2:
      s = g_env->RemoveDir(p);
      verdict(s, p);
      if (s.ok()) { same(before, look(), p); REQUIRE(fsFind(p) < 0 && g_fs.ino[ino].dir, "the directory is removed"); }
      break;
    case 3: {
      uint64_t size = lsx_sym("garbage", 64);
      if (ino >= 0 && !g_fs.ino[ino].dir && !strcmp(p, "/d/f") && lsx_choose(2, "huge")) {  // any size up to 2^63-1
        uint64_t big = lsx_sym("size", 63);
        g_fs.ino[ino].size = big;
        s = g_env->GetFileSize(p, &size);
        verdict(s, p);
        REQUIRE(size == lsx_ite(s.ok(), big, 0), "the size is the file's, or zero on failure");
        g_fs.ino[ino].size = FLEN;
        break;
      }
      s = g_env->GetFileSize(p, &size);
      verdict(s, p);
      REQUIRE(size == (s.ok() ? g_fs.ino[ino].size : 0), "the size is the file's, or zero on failure");
      break;
    }
    case 4: {
      const char* q = pick("to");
      s = g_env->RenameFile(p, q);
      verdict(s, p);
      if (s.ok()) {
        World after = look();
        same(before, after, p, q);
        REQUIRE(fsFind(q) == ino, "the target name now is the source file");
        REQUIRE(!strcmp(p, q) || fsFind(p) < 0, "the source name is gone");
        lsx_cover("renamed");
        return;
      }
      break;
    }
    case 5: {
      // whatever may be done with it
      if (ino >= 0) g_fs.ino[ino].denied = (int)lsx_choose(8, "denied");
      bool b = g_env->FileExists(p);
      REQUIRE(b == (g_fs.faults == 0), "a file exists if the system says so");
      if (ino >= 0 && g_fs.faults == g_fs.refused) REQUIRE(b, "a file that may not be accessed exists all the same");
      lsx_cover(b ? "exists" : "does not exist");
      break;
    }
  }
  if (!s.ok() || op == 3 || op == 5) same(before, look());
  REQUIRE(contents("/d/.g", "gg", 2) || op == 0 || op == 4, "contents are untouched");
  REQUIRE(fsOpenFds() == 0 && fsOpenStreams() == 0, "nothing stays open");
}
extern "C" void c28_open() {
  setUp();
  World before = look();
  const uint32_t op = lsx_choose(5, "op");
  const char* p = pick("path");
  const int ino = p[0] ? fsFind(p) : -1;
  const uint64_t size = ino >= 0 ? g_fs.ino[ino].size : 0;
  char old[8] = {};
  if (ino >= 0 && !g_fs.ino[ino].dir) memcpy(old, g_fs.ino[ino].data, size);
  if (ino >= 0 && !strcmp(p, "/d/f")) g_fs.ino[ino].denied = (int)lsx_choose(4, "denied") * 2;
  faults(~(1u << FC_munmap | 1u << FC_fwrite), (int)lsx_param("faults", 2));
  SequentialFile* sf = (SequentialFile*)8;
  RandomAccessFile* rf = (RandomAccessFile*)8;
  WritableFile* wf = (WritableFile*)8;
  Logger* lg = (Logger*)8;
  Status s;
  switch (op) {
    case 0: s = g_env->NewSequentialFile(p, &sf); REQUIRE(s.ok() == (sf != nullptr), "an object exactly on success"); break;
    case 1: s = g_env->NewRandomAccessFile(p, &rf); REQUIRE(s.ok() == (rf != nullptr), "an object exactly on success"); break;
    case 2: s = g_env->NewWritableFile(p, &wf); REQUIRE(s.ok() == (wf != nullptr), "an object exactly on success"); break;
    case 3: s = g_env->NewAppendableFile(p, &wf); REQUIRE(s.ok() == (wf != nullptr), "an object exactly on success"); break;
    case 4: s = g_env->NewLogger(p, &lg); REQUIRE(s.ok() == (lg != nullptr), "an object exactly on success"); break;
  }
  // a close that fails on top of the error reported does not matter
  int failures = 0;
  for (int i = 0; i < g_fs.nlog; i++) failures += g_fs.log[i].call != FC_close && g_fs.log[i].ret < 0;
  REQUIRE(s.ok() == (failures == 0), "success is reported exactly if the system did what was asked");
  if (!s.ok()) {
    REQUIRE(statusTells(s, p, g_fs.firstErr), "the error has the right kind, the name and the system's message");
    lsx_cover(g_fs.refused ? "refused" : "failed");
  } else lsx_cover("done");
  const FsEvent* o = opened();
  World after = look();
  if (op < 2) {
    same(before, after);
    if (o) REQUIRE(!(o->flags & (O_CREAT | O_TRUNC | O_APPEND)) && (o->flags & O_ACCMODE) == O_RDONLY, "readers neither create nor change the file");
    if (s.ok()) REQUIRE(o && o->ino == ino, "the reader is of the file named");
  } else {
    same(before, after, p);
    if (o) {
      int now = fsFind(p);
      REQUIRE(o->ino == now, "the writer is of the file named");
      REQUIRE(ino < 0 || now == ino, "an existing file is not replaced");
      REQUIRE(g_fs.ino[now].size == (op == 2 ? 0 : size), "writable files start empty, appendable files and logs keep their contents");
      if (op != 2) REQUIRE(sameBytes(g_fs.ino[now].data, old, size), "appendable files and logs keep their contents");
      if (ino < 0) { REQUIRE((o->arg & 0600) == 0600, "a created file can be read and written by its owner"); lsx_cover("created"); }
      else lsx_cover("existed");
    } else same(before, after);
  }
  noFaults();
  if (s.ok()) {
    char b[8];
    Slice r;
    if (op == 0) {
      if (g_fs.ino[ino].dir) REQUIRE(!sf->Read(8, &r, b).ok(), "a directory cannot be read");
      else REQUIRE(sf->Read(8, &r, b).ok() && r.size() == size && sameBytes(r.data(), old, size), "the reader reads the file named");
      delete sf;
    } else if (op == 1) {
      delete rf;
    } else if (op < 4) {
      REQUIRE(wf->Append(Slice("new", 3)).ok() && wf->Close().ok(), "the file can be written");
      delete wf;
      const FsInode& n = g_fs.ino[fsFind(p)];
      uint64_t keep = op == 2 ? 0 : size;
      REQUIRE(n.size == keep + 3 && sameBytes(n.data, old, keep) && sameBytes(n.data + keep, "new", 3), "writable files are overwritten, appendable files extended");
    } else {
      Log(lg, "new");
      delete lg;
      const FsInode& n = g_fs.ino[fsFind(p)];
      REQUIRE(n.size > size + 4 && sameBytes(n.data, old, size) && sameBytes(n.data + n.size - 4, "new\n", 4), "logs are extended");
    }
  }
  REQUIRE(fsOpenFds() == 0 && fsOpenStreams() == 0 && fsOpenMaps() == 0, "nothing stays open");
}
extern "C" void c28_children() {
  setUp();
  World before = look();
  const char* p = lsx_choose(2, "root") ? "/" : pick("path");
  if (lsx_choose(2, "more")) { p = "/d"; }
  faults(~0u, (int)lsx_param("faults", 2));
  std::vector<std::string> got;
  if (lsx_choose(2, "junk")) got.push_back("junk");
  Status s = g_env->GetChildren(p, &got);
  int failures = 0;
  for (int i = 0; i < g_fs.nlog; i++) failures += g_fs.log[i].call != FC_closedir && g_fs.log[i].ret < 0;
  REQUIRE(s.ok() == (failures == 0), "success is reported exactly if the whole directory could be read");
  same(before, look());
  REQUIRE(fsOpenStreams() == 0, "the directory is closed");
  if (!s.ok()) {
    REQUIRE(statusTells(s, p, g_fs.firstErr), "the error has the right kind, the name and the system's message");
    REQUIRE(got.empty(), "a failed listing is empty");
    lsx_cover(g_fs.refused ? "refused" : "failed");
    return;
  }
  static const char* const D[] = {"f", ".g", "e", "full"};
  static const char* const F[] = {"x"};
  static const char* const R[] = {"d", "top"};
  const char* const* want = D;
  int n = 0, seen = 0;
  if (!strcmp(p, "/d")) { want = D; n = 4; }
  if (!strcmp(p, "/d/full")) { want = F; n = 1; }
  if (!strcmp(p, "/")) { want = R; n = 2; }
  for (size_t i = 0; i < got.size(); i++) {
    if (got[i] == "." || got[i] == "..") continue;
    int hit = -1;
    for (int k = 0; k < n; k++) if (got[i] == want[k]) hit = k;
    REQUIRE(hit >= 0 && !(seen >> hit & 1), "only the directory's own names, each once, are listed");
    seen |= 1 << hit;
  }
  REQUIRE(seen == (1 << n) - 1, "every name of the directory is listed");
  lsx_cover("done");
}
extern "C" void c28_lock() {
  setUp();
  World before = look();
  const char* p = pick("path");
  const int ino = p[0] ? fsFind(p) : -1;
  const uint64_t size = ino >= 0 ? g_fs.ino[ino].size : 0;
  if (ino >= 0 && lsx_choose(2, "held")) g_fs.ino[ino].lock = 2;
  faults(~(1u << FC_close), (int)lsx_param("faults", 1));
  FileLock* l = (FileLock*)8;
  Status s = g_env->LockFile(p, &l);
  REQUIRE(s.ok() == (l != nullptr), "an object exactly on success");
  verdict(s, p);
  World after = look();
  same(before, after, p);
  const int now = fsFind(p);
  if (ino >= 0) REQUIRE(now == ino && g_fs.ino[now].size == size, "the file locked is kept");
  else if (now >= 0) REQUIRE((g_fs.ino[now].mode & 0600) == 0600, "a created file can be read and written by its owner");
  if (ino >= 0 && !strcmp(p, "/d/f")) REQUIRE(contents(p, g_f, FLEN), "the file locked keeps its contents");
  if (!s.ok()) { REQUIRE(fsOpenFds() == 0, "nothing stays open"); return; }
  REQUIRE(g_fs.ino[now].lock == 1, "the file named is locked");
  fsClearLog();
  s = g_env->UnlockFile(l);
  verdict(s, p);
  if (!s.ok()) { lsx_cover("unlock failed"); noFaults(); REQUIRE(g_env->UnlockFile(l).ok(), "the lock can be released later"); }
  REQUIRE(g_fs.ino[now].lock == 0 && fsOpenFds() == 0, "the lock is released");
}
// every error number gives the right kind, whatever the name
extern "C" void c28_kinds() {
  setUp();
  static char name[4];
  const uint32_t n = 1 + lsx_choose((uint32_t)lsx_param("len", 2), "len");
  lsx_sym_bytes(name, n, "name");
  for (uint32_t i = 0; i < n; i++) lsx_assume((int)(name[i] >= 'a') & (int)(name[i] <= 'z'));
  faults(~0u, 1);
  uint64_t size = 1;
  Status s;
  switch (lsx_choose(6, "op")) {
    case 0: s = g_env->RemoveFile(name); break;
    case 1: s = g_env->CreateDir(name); break;
    case 2: s = g_env->RemoveDir(name); break;
    case 3: s = g_env->GetFileSize(name, &size); break;
    case 4: s = g_env->RenameFile(name, "q"); break;
    case 5: { SequentialFile* f = nullptr; s = g_env->NewSequentialFile(name, &f); delete f; break; }
  }
  if (s.ok()) { lsx_cover("done"); return; }
  std::string t = s.ToString(), m = fsErrText(g_fs.firstErr);
  REQUIRE(s.IsNotFound() == (g_fs.firstErr == 2) && s.IsIOError() == (g_fs.firstErr != 2), "the kind follows the error number");
  REQUIRE(t.size() >= n + m.size() && sameBytes(t.data() + t.size() - m.size(), m.data(), m.size()), "the system's message is given");
  int at = 0;
  for (size_t i = 0; i + n + m.size() <= t.size(); i++) at = at | sameBytes(t.data() + i, name, n);
  REQUIRE(at, "the name is given");
  lsx_cover("failed");
}

// long names: nothing is cut off, mixed up with a name that differs in one byte, or missing from a message
static std::string longName(uint32_t depth, uint32_t n) {
  std::string s = "/l";
  for (uint32_t i = 0; i < depth; i++) { s += '/'; s.append(250, (char)('p' + i)); }
  s += '/';
  s.append(n, 'd');
  return s;
}
extern "C" void c28_long() {
  static const uint32_t kLen[] = {255, 16, 63, 64, 128, 23, 31, 32, 100, 127, 200, 254};
  const uint32_t depth = (uint32_t[]){0, 1, 4}[lsx_choose(3, "depth")];
  const uint32_t n = kLen[lsx_choose((uint32_t)lsx_param("lens", 5), "len")];
  const int m = (int)lsx_choose(3, "method");
  Env* env = posixEnv(m == 1, m == 0);
  fsMkdir("/l");
  std::string dir = "/l";
  for (uint32_t i = 0; i < depth; i++) { dir = longName(i, 0) + std::string(250, (char)('p' + i)); REQUIRE(env->CreateDir(dir).ok(), "a directory is created"); }
  // two other names: one that differs in one byte, one that is shorter by one
  const uint32_t odd = (uint32_t[]){0, n / 2, n - 1}[lsx_choose(3, "odd")];
  const char c = (char)lsx_sym("letter", 8), v = (char)lsx_sym("byte", 8);
  lsx_assume((int)(c != 'd') & (int)(c != '/') & (int)(c != '.') & (int)(c != 0));
  const std::string other = longName(depth, n), shorter = longName(depth, n - 1);
  std::string name = other;
  name[name.size() - n + odd] = c;
  fsCreate(other.c_str(), "other", 5);
  fsCreate(shorter.c_str(), "shorter", 7);
  g_fs.logging = 1;
  fsClearLog();
  // not there yet: the message has the whole name
  uint64_t size = 9;
  SequentialFile* sf = nullptr;
  RandomAccessFile* rf = nullptr;
  WritableFile* wf = nullptr;
  FileLock *l = nullptr, *again = nullptr;
  Logger* lg = nullptr;
  char b[16];
  Slice r;
  auto told = [&](const Status& s) {
    std::string t = s.ToString(), e = fsErrText(2);
    REQUIRE(s.IsNotFound(), "a missing file is not found");
    size_t at = t.size() - e.size() - name.size();
    int hit = 0;
    for (size_t k = at > 8 ? at - 8 : 0; k <= at; k++) hit = hit | sameBytes(t.data() + k, name.data(), name.size());
    REQUIRE(t.size() >= e.size() + name.size() && hit && sameBytes(t.data() + t.size() - e.size(), e.data(), e.size()), "the error has the whole name and the system's message");
  };
  REQUIRE(!env->FileExists(name), "a file exists if the system says so");
  told(env->NewSequentialFile(name, &sf));
  told(env->NewRandomAccessFile(name, &rf));
  told(env->GetFileSize(name, &size));
  told(env->RemoveFile(name));
  told(env->RemoveDir(name));
  told(env->RenameFile(name, "/l/x"));
  std::vector<std::string> kids;
  told(env->GetChildren(name, &kids));
  told(env->CreateDir(name + "/sub").IsNotFound() ? env->RemoveFile(name) : Status::OK());
  // there
  REQUIRE(env->NewWritableFile(name, &wf).ok() && wf->Append("abc").ok() && wf->Close().ok(), "the file can be written");
  delete wf;
  REQUIRE(env->NewAppendableFile(name, &wf).ok() && wf->Append(Slice(&v, 1)).ok() && wf->Sync().ok() && wf->Close().ok(), "the file can be extended");
  delete wf;
  const char want[4] = {'a', 'b', 'c', v};
  REQUIRE(contents(name.c_str(), want, 4), "the file is the one named");
  REQUIRE(env->FileExists(name) && env->GetFileSize(name, &size).ok() && size == 4, "a file exists if the system says so");
  REQUIRE(env->NewSequentialFile(name, &sf).ok() && sf->Read(9, &r, b).ok() && r.size() == 4 && sameBytes(r.data(), want, 4), "the reader reads the file named");
  delete sf;
  REQUIRE(env->NewRandomAccessFile(name, &rf).ok() && rf->Read(1, 3, &r, b).ok() && r.size() == 3 && sameBytes(r.data(), want + 1, 3), "the reader reads the file named");
  delete rf;
  REQUIRE(env->LockFile(name, &l).ok() && l, "the file named can be locked");
  REQUIRE(g_fs.ino[fsFind(name.c_str())].lock == 1 && !g_fs.ino[fsFind(other.c_str())].lock && !g_fs.ino[fsFind(shorter.c_str())].lock, "the file named is locked");
  REQUIRE(!env->LockFile(name, &again).ok() && !again, "a locked file is locked once");
  REQUIRE(env->LockFile(other, &again).ok() && again, "another name is another lock");
  REQUIRE(env->UnlockFile(l).ok() && env->UnlockFile(again).ok(), "the locks are released");
  again = nullptr;
  REQUIRE(env->LockFile(name, &l).ok() && env->UnlockFile(l).ok(), "a released lock can be taken again");
  kids.clear();
  REQUIRE(env->GetChildren(dir, &kids).ok(), "a directory can be listed");
  int seen = 0;
  for (const std::string& k : kids) {
    if (k == "." || k == "..") continue;
    REQUIRE(k.size() == n || k.size() == n - 1, "only the directory's own names are listed");
    if (k.size() == n - 1) seen += 1;
    else if (k[odd] == 'd') seen += 10;
    else { REQUIRE(sameBytes(k.data(), name.data() + name.size() - n, n), "every name of the directory is listed whole"); seen += 100; }
  }
  REQUIRE(seen == 111, "every name of the directory is listed, each once");
  // rename over the other one and back, then remove
  REQUIRE(env->RenameFile(name, other).ok() && !env->FileExists(name) && contents(other.c_str(), want, 4), "the target name now is the source file");
  REQUIRE(contents(shorter.c_str(), "shorter", 7), "the operation acts on the paths it was given only");
  REQUIRE(env->NewLogger(name, &lg).ok() && lg, "a log can be opened");
  Log(lg, "new");
  delete lg;
  const FsInode& ino = g_fs.ino[fsFind(name.c_str())];
  REQUIRE(ino.size > 4 && sameBytes(ino.data + ino.size - 4, "new\n", 4), "the log is the file named");
  REQUIRE(env->RemoveFile(name).ok() && !env->FileExists(name) && env->FileExists(other) && env->FileExists(shorter), "the file removed is gone");
  REQUIRE(env->CreateDir(name).ok() && g_fs.ino[fsFind(name.c_str())].dir, "a directory is created");
  REQUIRE(env->RemoveDir(name).ok() && fsFind(name.c_str()) < 0 && env->FileExists(other), "the directory is removed");
  REQUIRE(fsOpenFds() == 0 && fsOpenStreams() == 0 && fsOpenMaps() == 0, "nothing stays open");
  lsx_cover("end");
}

// a failure anywhere, with a long name: the message has the whole name
extern "C" void c28_longfail() {
  static const uint32_t kLen[] = {255, 130, 60, 30, 15, 200, 100};
  static const int kDepth[] = {0, 4, 1, 2};
  const uint32_t depth = (uint32_t)kDepth[lsx_choose((uint32_t)lsx_param("depths", 3), "depth")], n = kLen[lsx_choose((uint32_t)lsx_param("lens", 3), "len")];
  Env* env = posixEnv(2, lsx_choose(2, "maps") ? 2 : 0);
  fsMkdir("/l");
  for (uint32_t i = 0; i < depth; i++) { std::string dir = longName(i, 0) + std::string(250, (char)('p' + i)); fsMkdir(dir.c_str()); }
  std::string name = longName(depth, n);
  const char c = (char)lsx_sym("letter", 8);
  lsx_assume((int)(c != '/') & (int)(c != '.') & (int)(c != 0));
  name[name.size() - n / 2] = c;
  const uint32_t op = lsx_choose(13, "op");
  static char store[80000];
  if (op == 7) fsNextStore(store, sizeof store);
  if (op != 9) fsCreate(name.c_str(), "contents", 8);
  char b[16];
  Slice r;
  uint64_t size = 0;
  SequentialFile* sf = nullptr;
  RandomAccessFile* rf = nullptr;
  WritableFile* wf = nullptr;
  FileLock* l = nullptr;
  std::vector<std::string> kids;
  static char big[70000];
  // up to the step that may fail
  if (op == 3 || op == 4) REQUIRE(env->NewSequentialFile(name, &sf).ok(), "the file is opened");
  if (op == 5) REQUIRE(env->NewRandomAccessFile(name, &rf).ok(), "the file is opened");
  if (op == 6 || op == 7) REQUIRE(env->NewWritableFile(name, &wf).ok() && wf->Append("abc").ok(), "the file is opened");
  if (op == 8) REQUIRE(env->LockFile(name, &l).ok(), "the file is locked");
  if (op == 10 && lsx_choose(2, "other_process")) g_fs.ino[fsFind(name.c_str())].lock = 2;
  g_fs.logging = 1;
  fsClearLog();
  faults(~(1u << FC_close | 1u << FC_munmap), 1);
  Status s;
  switch (op) {
    case 0: s = env->NewSequentialFile(name, &sf); break;
    case 1: s = env->NewRandomAccessFile(name, &rf); break;
    case 2: s = lsx_choose(2, "append") ? env->NewAppendableFile(name, &wf) : env->NewWritableFile(name, &wf); break;
    case 3: s = sf->Read(9, &r, b); break;
    case 4: s = sf->Skip(3); break;
    case 5: s = rf->Read(1, 3, &r, b); break;
    case 6: s = lsx_choose(2, "sync") ? wf->Sync() : wf->Flush(); break;
    case 7: s = lsx_choose(2, "close") ? wf->Close() : wf->Append(Slice(big, sizeof big)); break;
    case 8: s = env->UnlockFile(l); break;
    case 9: s = env->CreateDir(name); break;
    case 10: s = env->LockFile(name, &l); break;
    case 11: s = lsx_choose(2, "rename") ? env->RenameFile(name, "/l/x") : env->RemoveFile(name); break;
    case 12: s = lsx_choose(2, "size") ? env->GetFileSize(name, &size) : env->GetChildren(name, &kids); break;
  }
  noFaults();
  REQUIRE(s.ok() == (g_fs.faults == 0), "success is reported exactly if the system did what was asked");
  if (!s.ok()) {
    REQUIRE(statusTells(s, name.c_str(), g_fs.firstErr), "the error has the right kind, the name and the system's message");
    lsx_cover("failed");
  }
  if (op == 8 && !s.ok()) REQUIRE(env->UnlockFile(l).ok(), "the lock can be released later");
  if (op == 10 && s.ok()) REQUIRE(env->UnlockFile(l).ok(), "the lock is released");
  delete sf;
  delete rf;
  delete wf;
  REQUIRE(fsOpenFds() == 0 && fsOpenStreams() == 0 && fsOpenMaps() == 0, "nothing stays open");
  // a second lock of a name that is held
  if (op == 10 && s.ok()) {
    FileLock* again = nullptr;
    REQUIRE(env->LockFile(name, &l).ok(), "the file is locked");
    s = env->LockFile(name, &again);
    std::string t = s.ToString();
    REQUIRE(!s.ok() && !again && t.find(name) != std::string::npos, "the refusal has the whole name");
    REQUIRE(env->UnlockFile(l).ok(), "the lock is released");
  }
  lsx_cover("end");
}
