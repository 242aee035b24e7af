// C32: clock, sleep, test directory, default environment.
#include "posix.h"
using namespace lsmdb;

extern "C" void c32_now() {
  Env* env = posixEnv(1, 1);
  for (int i = 0; i < 2; i++) {  // any two times, in any order
    g_fs.tvSec = lsx_sym("sec", 64);
    lsx_assume(g_fs.tvSec <= (~0ull - 999999) / 1000000);
    g_fs.tvUsec = lsx_sym("usec", 20);
    lsx_assume(g_fs.tvUsec < 1000000);
    uint64_t t = env->NowMicros();
    REQUIRE(t == g_fs.tvSec * 1000000 + g_fs.tvUsec, "the clock gives the microseconds of the system's time");
    REQUIRE(t / 1000000 == g_fs.tvSec, "the clock does not wrap");
  }
  lsx_cover("end");
}
extern "C" void c32_sleep() {
  Env* env = posixEnv(1, 1);
  g_fs.interrupts = (int)lsx_param("interrupts", 2);
  int us = (int)lsx_sym("micros", 32);
  g_fs.slept = 0;
  env->SleepForMicroseconds(us);
  REQUIRE(g_fs.slept == ite(us > 0, (uint64_t)(int64_t)us * 1000, 0), "the whole time asked for is slept, signals or not");
  if (us > 0) lsx_cover("slept"); else lsx_cover("nothing to sleep");
}
extern "C" void c32_directory() {
  Env* env = posixEnv(1, 1);
  fsMkdir("/tmp");
  fsMkdir("/x");
  static char value[24];
  const uint32_t how = lsx_choose(8, "set");
  static const char* const names[] = {"TEST_TMPDIR", "TEST_TMPDIR", "TEST_TMPDIR", "OTHER", "TEST_TMPDIR", nullptr, "TEST_TMPDIR", "TEST_TMPDIR"};
  g_fs.envName = names[how];
  if (how == 0 || how == 3) strcpy(value, "/x/dir");
  if (how == 4) strcpy(value, "/none/dir");
  if (how == 6) strcpy(value, "/x/dir/");
  if (how == 7) strcpy(value, "./dir/");
  if (how == 1) {  // any bytes
    const uint32_t n = 1 + lsx_choose((uint32_t)lsx_param("len", 3), "len");
    for (uint32_t i = 0; i < n; i++) { value[i] = (char)lsx_sym("byte", 8); lsx_assume((int)(value[i] != 0) & (int)(value[i] != '/') & (int)(value[i] != '.')); }
  }
  g_fs.envValue = how != 5 ? value : nullptr;  // 2: set but empty
  g_fs.euid = (uint32_t)lsx_sym("uid", 31);
  const bool there = lsx_choose(2, "there");
  g_fs.logging = 1;
  faults(1u << FC_mkdir, (int)lsx_param("faults", 1));
  std::string got = "junk", again;
  if (there && how == 0) fsMkdir("/x/dir");
  const int was = fsFind("/x/dir");
  Status s = env->GetTestDirectory(&got);
  REQUIRE(s.ok(), "there is a test directory");
  const bool set = how == 0 || how == 1 || how == 4 || how >= 6;
  if (set) {
    REQUIRE(got.size() == strlen(value) && sameBytes(got.data(), value, got.size()), "the configured directory is given");
    lsx_cover("configured");
  } else {
    static const char prefix[] = "/tmp/lsmdbtest-";
    const size_t k = sizeof prefix - 1;
    REQUIRE(got.size() > k && got.size() <= k + 10 && sameBytes(got.data(), prefix, k), "a fixed directory is given");
    uint64_t v = 0;
    int ok = 1;
    for (size_t i = k; i < got.size(); i++) { ok = ok & (int)(got[i] >= '0') & (int)(got[i] <= '9'); v = v * 10 + (uint64_t)(got[i] - '0'); }
    REQUIRE(ok & (int)(v == g_fs.euid), "the directory is the effective user's");
    lsx_cover("default");
  }
  int injected = g_fs.faults - g_fs.refused;
  int i = fsFind(got.c_str());
  if (!injected && how != 4) REQUIRE(i >= 0 && g_fs.ino[i].dir, "the directory is created if needed");
  noFaults();
  // creating it again, when it exists, is no error; and nothing else has been created
  s = env->GetTestDirectory(&again);
  REQUIRE(s.ok() && again.size() == got.size() && sameBytes(again.data(), got.data(), got.size()), "repeated calls give the same directory");
  i = fsFind(got.c_str());
  if (how != 4) REQUIRE(i >= 0 && g_fs.ino[i].dir, "the directory is created if needed");
  int names2 = 0;
  for (int e = 0; e < FS_ENT; e++) names2 += g_fs.ent[e].used;
  REQUIRE(was < 0 || fsFind("/x/dir") == was, "a directory that is there already is kept");
  for (int e = 0; e < g_fs.nlog; e++) REQUIRE(g_fs.log[e].call != FC_rmdir && g_fs.log[e].call != FC_unlink && g_fs.log[e].call != FC_rename, "nothing is removed");
  REQUIRE(names2 == 4 + (how != 4) + (there && how == 0 ? 0 : 0), "nothing else is created");
}
// a long configured directory, or one with unusual bytes, is given whole
extern "C" void c32_longdir() {
  static const uint32_t kLen[] = {14, 15, 99, 255, 1100, 16, 31, 63, 64, 100, 127, 128, 200};
  Env* env = posixEnv(1, 1);
  const uint32_t n = kLen[lsx_choose((uint32_t)lsx_param("lens", 5), "len")];
  std::string dir;
  while (dir.size() < n) { if (dir.size() % 201 == 0) { if (!dir.empty()) fsMkdir(dir.c_str()); dir += '/'; } else dir += 'p'; }
  if (dir.back() == '/') dir.back() = 'p';
  const char c = (char)lsx_sym("byte", 8);
  lsx_assume((int)(c != 0) & (int)(c != '/') & (int)(c != '.'));
  dir[lsx_choose(2, "odd") ? n - 1 : (n + dir.rfind('/')) / 2] = c;
  static char value[1200];
  memcpy(value, dir.data(), n);
  value[n] = 0;
  g_fs.envName = "TEST_TMPDIR";
  g_fs.envValue = value;
  g_fs.logging = 1;
  fsClearLog();
  std::string got;
  REQUIRE(env->GetTestDirectory(&got).ok(), "there is a test directory");
  REQUIRE(got.size() == n && sameBytes(got.data(), value, n), "the configured directory is given");
  const int i = fsFind(value);
  REQUIRE(i >= 0 && g_fs.ino[i].dir, "the directory is created if needed");
  std::string again = got;
  REQUIRE(env->GetTestDirectory(&again).ok() && again.size() == n && sameBytes(again.data(), value, n), "repeated calls give the same directory");
  lsx_cover("end");
}
static Env* g_got[2];
static void take(void* p) { g_got[*(int*)p] = Env::Default(); }
// every call, from every thread, gives the one environment, completely constructed
extern "C" void c32_default() {
  fsReset();
  EnvPosixTest::limits(1, 1);
  int me = 0, other = 1;
  int t = lsx_thread_create(&take, &other);
  take(&me);
  // usable at once
  bool e = g_got[0]->FileExists("/none");
  REQUIRE(!e, "the environment is usable");
  FileLock* l = nullptr;
  REQUIRE(g_got[0]->LockFile("f", &l).ok() && g_got[0]->UnlockFile(l).ok(), "the environment is usable");
  lsx_thread_join(t);
  REQUIRE(g_got[0] && g_got[0] == g_got[1] && Env::Default() == g_got[0], "the default environment is always the same object");
  lsx_cover("end");
}
// the default environment is there until the very end of the process: exit handlers and destructors of static objects
// may use it, and background tasks go on
extern "C" void lsxmExit(void);
static int g_ran;
static char g_lock[8], g_cv[8];
static void ran(void*) {
  lsx_mutex_lock(g_lock);
  g_ran++;
  lsx_cond_signal(g_cv);
  lsx_mutex_unlock(g_lock);
}
static void schedule(Env* env) {
  lsx_mutex_lock(g_lock);
  const int want = g_ran + 1;
  lsx_mutex_unlock(g_lock);
  env->Schedule(&ran, nullptr);
  lsx_mutex_lock(g_lock);
  while (g_ran < want) lsx_cond_wait(g_cv, g_lock);
  lsx_mutex_unlock(g_lock);
}
extern "C" void c32_exit() {
  Env* env = posixEnv(1, 1);
  fsMkdir("/tmp");
  const uint32_t before = lsx_choose(4, "before");
  std::string dir, d;
  FileLock* l = nullptr;
  WritableFile* w = nullptr;
  Slice r;
  char b[4];
  if (before & 1) { REQUIRE(env->GetTestDirectory(&dir).ok() && env->LockFile("lock", &l).ok(), "the environment is usable"); }
  if (before & 2) schedule(env);
  REQUIRE(env->NewWritableFile("f", &w).ok() && w->Append("ab").ok(), "the environment is usable");
  lsxmExit();
  REQUIRE(Env::Default() == env, "the default environment is always the same object");
  REQUIRE(w->Append("c").ok() && w->Close().ok(), "a file can be written while the process exits");
  delete w;
  RandomAccessFile* f = nullptr;
  REQUIRE(env->NewRandomAccessFile("f", &f).ok() && f->Read(0, 3, &r, b).ok() && r == Slice("abc"), "a file can be read while the process exits");
  delete f;
  if (l) REQUIRE(env->UnlockFile(l).ok(), "a lock can be released while the process exits");
  REQUIRE(env->LockFile("lock", &l).ok() && env->UnlockFile(l).ok(), "a lock can be taken while the process exits");
  REQUIRE(env->GetTestDirectory(&d).ok() && (dir.empty() || d == dir), "repeated calls give the same directory");
  schedule(env);
  lsx_cover("end");
}
