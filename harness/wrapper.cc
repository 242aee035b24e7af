// C30: the wrapping environment and the in-memory environment against a recording target.
#include "h.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "helpers/memenv/memenv.h"
#include <memory>
using namespace lsmdb;

enum Op { SEQ, RANDOM, WRITE, APPEND, EXISTS, CHILDREN, REMOVE, MKDIR, RMDIR, SIZE, RENAME, LOCK, UNLOCK, SCHEDULE, START, TESTDIR, LOGGER, NOW, SLEEP, NOPS };
static int g_calls, g_op, g_ran;
static void* g_ranWith;
static const std::string *g_s1, *g_s2;  // the strings given
static char g_c1[4200], g_c2[4200];
static uint64_t g_n1, g_n2;
static void* g_out;                     // where outputs go
static void* g_arg;
static int g_micros;
static std::function<void(void*)>* g_fn;
// what the target answers
static int g_kind;
static char g_msg[2];
static uint32_t g_longMsg;               // length of a long message, or 0
static uint64_t g_value;
static void* g_object;
static std::vector<std::string>* g_list;
static std::string* g_string;
static Status answer() {
  if (g_longMsg) { std::string m(g_longMsg, 'm'); m[0] = g_msg[0]; m[g_longMsg - 1] = g_msg[1]; return g_kind == 0 ? Status::OK() : g_kind & 1 ? Status::NotFound(m) : Status::IOError(m, "end"); }
  switch (g_kind) {
    case 0: return Status::OK();
    case 1: return Status::NotFound(Slice(g_msg, 2));
    case 2: return Status::Corruption(Slice(g_msg, 1), Slice(g_msg + 1, 1));
    case 3: return Status::NotSupported(Slice(g_msg, 2));
    case 4: return Status::InvalidArgument(Slice(g_msg, 2));
    default: return Status::IOError(Slice(g_msg, 2));
  }
}
static int sameStatus(const Status& a, const Status& b) {
  std::string x = a.ToString(), y = b.ToString();
  return x.size() == y.size() && sameBytes(x.data(), y.data(), x.size());
}
static void called(Op op, const std::string* s1 = nullptr, const std::string* s2 = nullptr, void* out = nullptr) {
  g_calls++;
  g_op = op;
  g_out = out;
  g_n1 = s1 ? s1->size() : 0;
  g_n2 = s2 ? s2->size() : 0;
  REQUIRE(g_n1 <= sizeof g_c1 && g_n2 <= sizeof g_c2, "the arguments are passed on unchanged");
  if (s1) memcpy(g_c1, s1->data(), g_n1);
  if (s2) memcpy(g_c2, s2->data(), g_n2);
}
static int g_storageForbidden;
struct Target : Env {
  Status NewSequentialFile(const std::string& f, SequentialFile** r) override { called(SEQ, &f, nullptr, r); *r = (SequentialFile*)g_object; return answer(); }
  Status NewRandomAccessFile(const std::string& f, RandomAccessFile** r) override { called(RANDOM, &f, nullptr, r); *r = (RandomAccessFile*)g_object; return answer(); }
  Status NewWritableFile(const std::string& f, WritableFile** r) override { called(WRITE, &f, nullptr, r); *r = (WritableFile*)g_object; return answer(); }
  Status NewAppendableFile(const std::string& f, WritableFile** r) override { called(APPEND, &f, nullptr, r); *r = (WritableFile*)g_object; return answer(); }
  bool FileExists(const std::string& f) override { called(EXISTS, &f); return g_value & 1; }
  Status GetChildren(const std::string& f, std::vector<std::string>* r) override { called(CHILDREN, &f, nullptr, r); *r = *g_list; return answer(); }
  Status RemoveFile(const std::string& f) override { called(REMOVE, &f); return answer(); }
  Status CreateDir(const std::string& f) override { called(MKDIR, &f); return answer(); }
  Status RemoveDir(const std::string& f) override { called(RMDIR, &f); return answer(); }
  Status GetFileSize(const std::string& f, uint64_t* r) override { called(SIZE, &f, nullptr, r); *r = g_value; return answer(); }
  Status RenameFile(const std::string& a, const std::string& b) override { called(RENAME, &a, &b); return answer(); }
  Status LockFile(const std::string& f, FileLock** r) override { called(LOCK, &f, nullptr, r); *r = (FileLock*)g_object; return answer(); }
  Status UnlockFile(FileLock* l) override { called(UNLOCK, nullptr, nullptr, l); return answer(); }
  void Schedule(std::function<void(void*)> f, void* a) override { called(SCHEDULE); g_arg = a; f(a); }
  void StartThread(std::function<void(void*)> f, void* a) override { called(START); g_arg = a; f(a); }
  Status GetTestDirectory(std::string* r) override { called(TESTDIR, nullptr, nullptr, r); *r = *g_string; return answer(); }
  Status NewLogger(const std::string& f, Logger** r) override { called(LOGGER, &f, nullptr, r); *r = (Logger*)g_object; return answer(); }
  uint64_t NowMicros() override { called(NOW); return g_value; }
  void SleepForMicroseconds(int m) override { called(SLEEP); g_micros = m; }
};
struct Forward : EnvWapper {
  explicit Forward(Env* t) : EnvWapper(t) {}
};
static void work(void* p) { g_ran++; g_ranWith = p; }
static std::string symString(const char* name) {
  uint32_t n = (uint32_t[]){2, 0, 17, 300, 4100}[lsx_choose((uint32_t)lsx_param("lengths", 3), "length")];  // 17: beyond the small string
  std::string s(n, 'x');
  for (uint32_t i = 0; i < n; i++) if (i < 17 || i == n - 1) s[i] = (char)lsx_sym(name, 8);
  return s;
}
static void passed(Op op, const std::string* a = nullptr, const std::string* b = nullptr) {
  REQUIRE(g_calls == 1 && g_op == op, "the same operation of the target is called once");
  if (a) REQUIRE(g_n1 == a->size() && sameBytes(g_c1, a->data(), g_n1), "the arguments are passed on unchanged");
  if (b) REQUIRE(g_n2 == b->size() && sameBytes(g_c2, b->data(), g_n2), "the arguments are passed on unchanged");
}
static void prepare() {
  g_kind = (int)lsx_choose(6, "answer");
  lsx_sym_bytes(g_msg, 2, "message");
  g_longMsg = (uint32_t[]){0, 5000, 200}[lsx_choose((uint32_t)lsx_param("messages", 1), "longmessage")];
  g_value = lsx_sym("value", 64);
  static char spot[8];
  g_object = lsx_choose(2, "object") ? spot : nullptr;
}
extern "C" void c30_wrapper() {
  prepare();
  Target target;
  Target other;
  (void)other;
  int64_t live = lsx_live_allocs();
  {
    std::unique_ptr<Forward> w(new Forward(&target));
    REQUIRE(w->target() == &target, "the target is the environment given");
    Env* env = w.get();
    if (lsx_choose((uint32_t)lsx_param("nest", 1) + 1, "nested")) env = new Forward(env);
    const uint32_t op = lsx_choose(NOPS, "op");
    std::string a = symString("a");
    Status s = answer();
    switch (op) {
#define OPEN(T, OP, METHOD) { T* r = (T*)16; Status got = env->METHOD(a, &r); passed(OP, &a); REQUIRE(sameStatus(got, s) && r == (T*)g_object, "the result is returned unchanged"); break; }
      case SEQ: OPEN(SequentialFile, SEQ, NewSequentialFile)
      case RANDOM: OPEN(RandomAccessFile, RANDOM, NewRandomAccessFile)
      case WRITE: OPEN(WritableFile, WRITE, NewWritableFile)
      case APPEND: OPEN(WritableFile, APPEND, NewAppendableFile)
      case LOCK: OPEN(FileLock, LOCK, LockFile)
      case LOGGER: OPEN(Logger, LOGGER, NewLogger)
      case EXISTS: { bool b = env->FileExists(a); passed(EXISTS, &a); REQUIRE(b == (g_value & 1), "the result is returned unchanged"); break; }
      case CHILDREN: {
        std::vector<std::string> want, got;
        want.push_back("p"); want.push_back(a);
        const size_t more = lsx_choose(2, "more") ? 300 : 0;
        for (size_t i = 0; i < more; i++) want.push_back(std::to_string(i));
        g_list = &want;
        got.push_back("junk");
        Status t = env->GetChildren(a, &got);
        passed(CHILDREN, &a);
        REQUIRE(sameStatus(t, s) && got.size() == 2 + more && (more == 0 || (got[2] == "0" && got[301] == "299" && got[150] == "148")) && got[0] == "p" && got[1].size() == a.size() && sameBytes(got[1].data(), a.data(), a.size()), "the result is returned unchanged");
        break;
      }
      case REMOVE: { Status t = env->RemoveFile(a); passed(REMOVE, &a); REQUIRE(sameStatus(t, s), "the result is returned unchanged"); break; }
      case MKDIR: { Status t = env->CreateDir(a); passed(MKDIR, &a); REQUIRE(sameStatus(t, s), "the result is returned unchanged"); break; }
      case RMDIR: { Status t = env->RemoveDir(a); passed(RMDIR, &a); REQUIRE(sameStatus(t, s), "the result is returned unchanged"); break; }
      case SIZE: { uint64_t n = 5; Status t = env->GetFileSize(a, &n); passed(SIZE, &a); REQUIRE(sameStatus(t, s) && n == g_value, "the result is returned unchanged"); break; }
      case RENAME: { std::string b = symString("b"); Status t = env->RenameFile(a, b); passed(RENAME, &a, &b); REQUIRE(sameStatus(t, s), "the result is returned unchanged"); break; }
      case UNLOCK: { FileLock* l = (FileLock*)g_object; Status t = env->UnlockFile(l); passed(UNLOCK); REQUIRE(g_out == l && sameStatus(t, s), "the result is returned unchanged"); break; }
      case SCHEDULE: case START: {
        int cookie = 0, seen = 0;
        uint64_t v = g_value;
        std::function<void(void*)> f = [&seen, v](void* p) { work(p); seen += v == g_value; };
        if (op == SCHEDULE) env->Schedule(f, &cookie); else env->StartThread(f, &cookie);
        passed((Op)op);
        REQUIRE(g_arg == &cookie && g_ran == 1 && g_ranWith == &cookie && seen == 1, "the function and its argument are passed on unchanged");
        break;
      }
      case TESTDIR: {
        std::string want = a, got = "junk";
        g_string = &want;
        Status t = env->GetTestDirectory(&got);
        passed(TESTDIR);
        REQUIRE(sameStatus(t, s) && got.size() == a.size() && sameBytes(got.data(), a.data(), a.size()), "the result is returned unchanged");
        break;
      }
      case NOW: { uint64_t n = env->NowMicros(); passed(NOW); REQUIRE(n == g_value, "the result is returned unchanged"); break; }
      case SLEEP: { int m = (int)lsx_sym("micros", 32); env->SleepForMicroseconds(m); passed(SLEEP); REQUIRE(g_micros == m, "the arguments are passed on unchanged"); break; }
    }
    if (env != w.get()) delete env;
  }
  REQUIRE(lsx_live_allocs() == live, "nothing leaks");
  lsx_cover("end");
}
// what the in-memory environment does not store goes to the base environment
extern "C" void c30_memory() {
  prepare();
  Target target;
  std::unique_ptr<Env> env(NewMemEnv(&target));
  switch (lsx_choose(4, "op")) {
    case 0: case 1: {
      int cookie = 0, seen = 0;
      bool start = lsx_choose(2, "start");
      std::function<void(void*)> f = [&seen](void* p) { work(p); seen++; };
      if (start) env->StartThread(f, &cookie); else env->Schedule(f, &cookie);
      passed(start ? START : SCHEDULE);
      REQUIRE(g_arg == &cookie && g_ran == 1 && g_ranWith == &cookie && seen == 1, "the function and its argument are passed on unchanged");
      break;
    }
    case 2: { uint64_t n = env->NowMicros(); passed(NOW); REQUIRE(n == g_value, "the result is returned unchanged"); break; }
    case 3: { int m = (int)lsx_sym("micros", 32); env->SleepForMicroseconds(m); passed(SLEEP); REQUIRE(g_micros == m, "the arguments are passed on unchanged"); break; }
  }
  // storage stays inside
  g_calls = 0;
  std::string name = "/" + symString("name") + "x";
  WritableFile* w = nullptr;
  SequentialFile* q = nullptr;
  RandomAccessFile* r = nullptr;
  FileLock* l = nullptr;
  Logger* lg = nullptr;
  REQUIRE(env->NewWritableFile(name, &w).ok() && w, "files are stored in memory");
  delete w;
  REQUIRE(env->NewAppendableFile(name, &w).ok() && w, "files are stored in memory");
  delete w;
  REQUIRE(env->NewSequentialFile(name, &q).ok() && q, "files are stored in memory");
  delete q;
  REQUIRE(env->NewRandomAccessFile(name, &r).ok() && r, "files are stored in memory");
  delete r;
  REQUIRE(env->FileExists(name), "files are stored in memory");
  uint64_t n = 1;
  REQUIRE(env->GetFileSize(name, &n).ok() && n == 0, "files are stored in memory");
  REQUIRE(env->RenameFile(name, "/t").ok() && env->RemoveFile("/t").ok(), "files are stored in memory");
  std::vector<std::string> kids;
  REQUIRE(env->GetChildren("/", &kids).ok() && kids.empty(), "files are stored in memory");
  REQUIRE(env->CreateDir("/x").ok() && env->RemoveDir("/x").ok(), "directories need nothing");
  REQUIRE(env->LockFile("/l", &l).ok() && l && env->UnlockFile(l).ok(), "locks are in memory");
  std::string dir;
  REQUIRE(env->GetTestDirectory(&dir).ok() && !dir.empty(), "there is a test directory");
  REQUIRE(env->NewLogger("/log", &lg).ok() && lg, "there is a logger");
  delete lg;
  REQUIRE(g_calls == 0, "file storage is not passed on");
  lsx_cover("end");
}
struct Minimal : Target {
  Status NewAppendableFile(const std::string& f, WritableFile** r) override { return Env::NewAppendableFile(f, r); }
};
extern "C" void c30_unsupported() {
  Minimal env;
  std::string name = symString("name");
  static char junk[8];
  WritableFile* w = lsx_choose(2, "junk") ? (WritableFile*)junk : nullptr;
  Status s;
  if (lsx_choose(2, "wrapped")) { Forward f(&env); s = f.NewAppendableFile(name, &w); }
  else s = env.NewAppendableFile(name, &w);
  REQUIRE(s.IsNotSupportedError() && !s.ok(), "an environment without append-opening says so");
  REQUIRE(w == nullptr, "and gives a null file");
  REQUIRE(g_calls == 0, "nothing else is done");
  lsx_cover("end");
}
