// C26: file locks over the file system model (record locks belong to the process and vanish when it closes any
// descriptor of the file).
#include "posix.h"
using namespace lsmdb;

static const char* const kName[] = {"/d/l", "/d/m"};
// another process tries to take the lock
static bool otherTakes(int ino) {
  lsx_atomic_begin();
  bool got = ino >= 0 && g_fs.ino[ino].lock == 0;
  if (got) g_fs.ino[ino].lock = 2;
  lsx_atomic_end();
  return got;
}
static void otherGives(int ino) {
  lsx_atomic_begin();
  g_fs.ino[ino].lock = 0;
  lsx_atomic_end();
}
// the table of held locks may keep room it once needed
static void warmUp(Env* env) {
  static const char* const other[] = {"/w/a", "/w/b", "/w/c"};
  fsMkdir("/w");
  FileLock* l[3] = {};
  for (int i = 0; i < 3; i++) REQUIRE(env->LockFile(other[i], &l[i]).ok() && l[i], "a lock that nobody holds is given");
  for (int i = 0; i < 3; i++) REQUIRE(env->UnlockFile(l[i]).ok(), "a held lock can be released");
}
extern "C" void c26_history() {
  Env* env = posixEnv(5, 5);
  warmUp(env);
  const uint32_t ops = (uint32_t)lsx_param("ops", 5), names = 2;
  fsMkdir("/d");
  uint32_t made = lsx_choose(2, "exists");
  if (made) fsCreate(kName[0], "x", 1);
  int64_t before = lsx_live_allocs();
  FileLock* held[2] = {nullptr, nullptr};
  bool other[2] = {false, false};
  faults(1 << FC_open | 1 << FC_fcntl, (int)lsx_param("faults", 1));
  for (uint32_t i = 0; i < ops; i++) {
    uint32_t op = lsx_choose(4, "op");
    uint32_t k = lsx_choose(names, "name");
    int f0 = g_fs.faults - g_fs.refused;
    if (op == 0) {
      FileLock* l = (FileLock*)16;
      Status s = env->LockFile(kName[k], &l);
      bool failed = g_fs.faults - g_fs.refused != f0;
      if (failed) {
        // an attempt that could not have succeeded anyway may not have asked the system
        REQUIRE(!s.ok(), "a lock is given only if the system gave it");
        if (!held[k]) REQUIRE(s.IsNotFound() == (g_fs.lastErr == 2), "the error is of the right kind");
        lsx_cover("lock failed");
      } else REQUIRE(s.ok() == (!held[k] && !other[k]), "a lock is given exactly if nobody holds it");
      REQUIRE(s.ok() || l == nullptr, "a failed attempt stores a null lock");
      REQUIRE(!s.ok() || l != nullptr, "a successful attempt stores a lock");
      REQUIRE(s.ok() || s.ToString().find(kName[k]) != std::string::npos, "the error carries the file's name");
      if (s.ok()) held[k] = l;
      else if (held[k]) lsx_cover("refused while held");
    } else if (op == 1) {
      if (!held[k]) continue;
      Status s = env->UnlockFile(held[k]);
      if (g_fs.faults - g_fs.refused != f0) { REQUIRE(!s.ok(), "a failed unlock is reported"); lsx_cover("unlock failed"); }
      else { REQUIRE(s.ok(), "a held lock can be released"); held[k] = nullptr; }
    } else if (op == 2) {
      int ino = fsFind(kName[k]);
      if (ino < 0 || other[k]) continue;
      other[k] = otherTakes(ino);
      REQUIRE(!(other[k] && held[k]), "nobody else gets a lock that is held");
      REQUIRE(other[k] || held[k], "a lock that is not held can be taken by another process");
      if (held[k]) lsx_cover("other process refused");
    } else {
      if (other[k]) { otherGives(fsFind(kName[k])); other[k] = false; }
    }
    for (uint32_t j = 0; j < names; j++)
      if (held[j]) REQUIRE(g_fs.ino[fsFind(kName[j])].lock == 1, "the holder's lock stays in force");
    REQUIRE(fsOpenFds() == (held[0] != nullptr) + (held[1] != nullptr), "a failed attempt and an unlock leave no descriptor open");
  }
  noFaults();
  for (uint32_t k = 0; k < names; k++) {
    if (other[k]) otherGives(fsFind(kName[k]));
    if (held[k]) REQUIRE(env->UnlockFile(held[k]).ok(), "a held lock can be released");
    FileLock* l = nullptr;
    REQUIRE(env->LockFile(kName[k], &l).ok() && l, "after an unlock or a failed attempt the file can be locked again");
    REQUIRE(env->UnlockFile(l).ok(), "a held lock can be released");
  }
  if (made) REQUIRE(g_fs.ino[fsFind(kName[0])].size == 1, "locking leaves the file's contents");
  REQUIRE(fsOpenFds() == 0, "a failed attempt and an unlock leave no descriptor open");
  REQUIRE(lsx_live_allocs() == before, "a failed attempt and an unlock leak no memory");
  lsx_cover("end");
}
struct T { Env* env; int rounds, keep; };
static int g_holders;
static void holder(void* p) {
  T* t = (T*)p;
  for (int i = 0; i < t->rounds; i++) {
    FileLock* l = nullptr;
    Status s = t->env->LockFile(kName[0], &l);
    REQUIRE(s.ok() == (l != nullptr), "a lock is stored exactly on success");
    if (!s.ok()) continue;
    lsx_atomic_begin();
    g_holders++;
    REQUIRE(g_holders == 1, "at most one holder at any time");
    lsx_atomic_end();
    lsx_yield(&g_fs);
    lsx_atomic_begin();
    REQUIRE(g_fs.ino[fsFind(kName[0])].lock == 1, "the holder's lock stays in force");
    g_holders--;
    lsx_atomic_end();
    REQUIRE(t->env->UnlockFile(l).ok(), "a held lock can be released");
  }
}
static void otherProcess(void*) {
  lsx_yield(&g_fs);
  int ino = fsFind(kName[0]);
  lsx_atomic_begin();
  bool got = g_fs.ino[ino].lock == 0;
  if (got) { REQUIRE(g_holders == 0, "nobody else gets a lock that is held"); g_fs.ino[ino].lock = 2; }
  lsx_atomic_end();
  if (!got) return;
  lsx_yield(&g_fs);
  lsx_atomic_begin();
  REQUIRE(g_holders == 0, "nobody gets a lock another process holds");
  g_fs.ino[ino].lock = 0;
  lsx_atomic_end();
}
extern "C" void c26_threads() {
  Env* env = posixEnv(5, 5);
  warmUp(env);
  fsMkdir("/d");
  fsCreate(kName[0], "x", 1);
  g_holders = 0;
  int64_t before = lsx_live_allocs();
  T a{env, (int)lsx_param("arounds", 1), 0}, b{env, (int)lsx_param("brounds", 1), 0};
  int t = lsx_thread_create(&holder, &b), o = lsx_param("other", 1) ? lsx_thread_create(&otherProcess, nullptr) : -1;
  holder(&a);
  lsx_thread_join(t);
  if (o >= 0) lsx_thread_join(o);
  REQUIRE(fsOpenFds() == 0, "a failed attempt and an unlock leave no descriptor open");
  FileLock* l = nullptr;
  REQUIRE(env->LockFile(kName[0], &l).ok() && l, "after an unlock or a failed attempt the file can be locked again");
  REQUIRE(env->UnlockFile(l).ok(), "a held lock can be released");
  REQUIRE(lsx_live_allocs() == before, "a failed attempt and an unlock leak no memory");
  lsx_cover("end");
}

// locks of different files do not get into each other's way, however alike the names are
extern "C" void c26_names() {
  Env* env = posixEnv(5, 5);
  static const char* const dirs[] = {"/d", "/e", "/d/sub"};
  for (const char* d : dirs) fsMkdir(d);
  static const char* const names[] = {"/d/l", "/e/l", "/d/lock", "/d/L", "/d/sub/l", "/l", "l", "/d/l.", "/d/ll"};
  const int N = 9;
  const int a = (int)lsx_choose(N, "a"), b = (int)lsx_choose(N - 1, "b"), second = b >= a ? b + 1 : b;
  auto warm = [&](const char* n) { FileLock* l = nullptr; REQUIRE(env->LockFile(n, &l).ok() && l, "a lock that nobody holds is given"); REQUIRE(env->UnlockFile(l).ok(), "a held lock can be released"); };
  warm(names[a]);
  warm(names[second]);
  int64_t before = lsx_live_allocs();
  auto refused = [&](const char* n) { FileLock* l = (FileLock*)16; return !env->LockFile(n, &l).ok() && !l; };
  FileLock *la = nullptr, *lb = nullptr;
  REQUIRE(env->LockFile(names[a], &la).ok() && la, "a lock that nobody holds is given");
  REQUIRE(env->LockFile(names[second], &lb).ok() && lb, "the lock of another name does not stand in the way");
  REQUIRE(refused(names[a]) && refused(names[second]), "a held lock is refused");
  REQUIRE(g_fs.ino[fsFind(names[a])].lock == 1 && g_fs.ino[fsFind(names[second])].lock == 1, "the holder's lock stays in force");
  const bool first = lsx_choose(2, "first");
  REQUIRE(env->UnlockFile(first ? la : lb).ok(), "a held lock can be released");
  const char *free = names[first ? a : second], *taken = names[first ? second : a];
  REQUIRE(refused(taken), "a lock stays held when that of another name is released");
  REQUIRE(g_fs.ino[fsFind(taken)].lock == 1, "the holder's lock stays in force");
  FileLock* again = nullptr;
  REQUIRE(env->LockFile(free, &again).ok() && again, "after an unlock the file can be locked again");
  REQUIRE(env->UnlockFile(again).ok() && env->UnlockFile(first ? lb : la).ok(), "a held lock can be released");
  REQUIRE(fsOpenFds() == 0, "a failed attempt and an unlock leave no descriptor open");
  REQUIRE(lsx_live_allocs() <= before, "a failed attempt and an unlock leak no memory");
  lsx_cover("end");
}
