// C29: the whole-file helpers over a model environment with symbolic faults and fragmentation, and over the real ones.
#include "posix.h"
#include "stubenv.h"
#include "helpers/memenv/memenv.h"
#include <memory>
using namespace lsmdb;
namespace lsmdb { Status WriteStringToFileSync(Env* env, const Slice& data, const std::string& fname); }

static const char* const NAME = "/d/target";
static int g_live, g_made;             // file objects
static int g_fileExists, g_removed, g_closed, g_synced, g_appended, g_opens;
static char g_store[64 * 1024];
static uint64_t g_len;
static int g_failed, g_failKind;       // the first failure injected
static int g_budget;
static char g_msg[2];
static Status failWith(int kind) {
  switch (kind) {
    case 0: return Status::NotFound("fail", Slice(g_msg, 2));
    case 1: return Status::Corruption("fail", Slice(g_msg, 2));
    case 2: return Status::NotSupported("fail", Slice(g_msg, 2));
    case 3: return Status::InvalidArgument("fail", Slice(g_msg, 2));
    default: return Status::IOError("fail", Slice(g_msg, 2));
  }
}
static bool fails(Status* s) {
  if (g_budget <= 0 || !lsx_choose(2, "fails")) return false;
  g_budget--;
  int kind = (int)lsx_choose((uint32_t)lsx_param("kinds", 5), "kind");
  if (!g_failed) { g_failed = 1; g_failKind = kind; *s = failWith(kind); }
  else *s = Status::IOError("another failure");
  return true;
}
static void isFirstFailure(const Status& s) {
  Status want = failWith(g_failKind);
  std::string a = s.ToString(), b = want.ToString();
  REQUIRE(a.size() == b.size() && sameBytes(a.data(), b.data(), b.size()), "the failure that happened is returned");
  REQUIRE(s.IsNotFound() == want.IsNotFound() && s.IsCorruption() == want.IsCorruption() && s.IsIOError() == want.IsIOError() &&
          s.IsNotSupportedError() == want.IsNotSupportedError() && s.IsInvalidArgument() == want.IsInvalidArgument(), "the failure that happened is returned");
}
struct ModelWriter : WritableFile {
  bool closed = false, broken = false, destroyed = false;
  ModelWriter() { g_live++; g_made++; }
  ~ModelWriter() override { g_live--; }
  Status Append(const Slice& d) override {
    REQUIRE(!closed && !broken, "nothing is appended after a failure or close");
    Status s;
    if (fails(&s)) { broken = true; return s; }
    REQUIRE(d.size() <= sizeof g_store - g_len, "only the data is appended");
    memcpy(g_store + g_len, d.data(), d.size());
    g_len += d.size();
    g_appended++;
    g_synced = 0;
    return s;
  }
  Status Flush() override { Status s; if (fails(&s)) broken = true; return s; }
  Status Sync() override { REQUIRE(!closed, "sync comes before close"); Status s; if (fails(&s)) broken = true; else g_synced = 1; return s; }
  Status Close() override { Status s; closed = true; if (fails(&s)) broken = true; else g_closed++; return s; }
};
struct ModelReader : SequentialFile {
  const char* data;
  uint64_t n, at = 0;
  bool ended = false;
  char own[32];
  ModelReader(const char* d, uint64_t k) : data(d), n(k) { g_live++; g_made++; }
  ~ModelReader() override { g_live--; }
  Status Read(size_t want, Slice* r, char* scratch) override {
    REQUIRE(want > 0, "something is asked for");
    REQUIRE(!ended, "reading stops at the end or at an error");
    lsx_check_range(scratch, want);
    Status s;
    if (fails(&s)) {
      ended = true;
      // what a failed read leaves behind is not part of the file
      if (lsx_choose(2, "partial")) { scratch[0] = '!'; *r = Slice(scratch, 1); }
      return s;
    }
    uint64_t left = n - at, most = left < want ? left : want, k = most;
    if (most) {  // any fragment
      if (most <= 8) k = 1 + lsx_choose((uint32_t)most, "fragment");
      else { uint32_t c = lsx_choose(4, "fragment"); k = c == 0 ? most : c == 1 ? most - 1 : c == 2 ? 1 : (most + 1) / 2; }
    }
    if (k == 0) ended = true;
    if (k <= sizeof own && lsx_choose(2, "own")) {  // valid until the next read only
      memset(own, 0, sizeof own);
      memcpy(own, data + at, k);
      *r = Slice(own, k);
    } else {
      memcpy(scratch, data + at, k);
      *r = Slice(scratch, k);
    }
    at += k;
    return s;
  }
  Status Skip(uint64_t) override { REQUIRE(0, "nothing is skipped"); return Status::OK(); }
};
struct ModelEnv : StubEnv {
  const char* data = nullptr;
  uint64_t n = 0;
  Status NewWritableFile(const std::string& f, WritableFile** r) override {
    REQUIRE(f == NAME, "the file named is used");
    *r = nullptr;
    g_opens++;
    Status s;
    if (fails(&s)) return s;
    g_fileExists = 1;
    g_len = 0;
    *r = new ModelWriter;
    return s;
  }
  Status NewSequentialFile(const std::string& f, SequentialFile** r) override {
    REQUIRE(f == NAME, "the file named is used");
    *r = nullptr;
    g_opens++;
    Status s;
    if (fails(&s)) return s;
    *r = new ModelReader(data, n);
    return s;
  }
  Status RemoveFile(const std::string& f) override {
    REQUIRE(f == NAME, "only the file named is removed");
    REQUIRE(g_live == 0, "the file is closed before it is removed");
    g_removed++;
    Status s;
    if (g_budget > 0 && lsx_choose(2, "removefails")) return Status::IOError("remove failed");
    g_fileExists = 0;
    return s;
  }
};
extern "C" void c29_write() {
  ModelEnv env;
  lsx_sym_bytes(g_msg, 2, "message");
  g_budget = (int)lsx_param("faults", 2);
  g_fileExists = 1;  // an older file of that name
  const uint32_t n = lsx_choose((uint32_t)lsx_param("len", 4), "size");
  const bool sync = lsx_choose(2, "sync");
  int64_t live = lsx_live_allocs();
  {
    Buf data(n, "d");
    Status s = sync ? WriteStringToFileSync(&env, Slice(data.p, n), NAME) : WriteStringToFile(&env, Slice(data.p, n), NAME);
    REQUIRE(g_opens == 1, "the file is opened once");
    REQUIRE(s.ok() == !g_failed, "success means that every step succeeded");
    REQUIRE(g_live == 0, "the file object is destroyed");
    if (s.ok()) {
      REQUIRE(g_len == n && sameBytes(g_store, data.p, n), "exactly the data was appended");
      REQUIRE(g_closed == 1 && (!sync || g_synced || n == 0), "the file was synced if asked for and closed");
      REQUIRE(!sync || g_synced, "the file was synced");
      REQUIRE(!g_removed && g_fileExists, "the file is kept");
      lsx_cover(sync ? "synced" : "written");
    } else {
      isFirstFailure(s);
      if (g_made) { REQUIRE(g_removed == 1, "a file not written completely is removed"); lsx_cover("removed"); }
      else { REQUIRE(!g_removed && g_fileExists, "a file that could not be opened is left alone"); lsx_cover("not opened"); }
    }
    REQUIRE(g_made <= 1, "one file object is used");
  }
  REQUIRE(lsx_live_allocs() == live, "nothing leaks");
}
extern "C" void c29_read() {
  ModelEnv env;
  lsx_sym_bytes(g_msg, 2, "message");
  g_budget = (int)lsx_param("faults", 1);
  const uint32_t n = lsx_choose((uint32_t)lsx_param("len", 5), "size");
  int64_t live = lsx_live_allocs();
  {
    Buf data(n, "d");
    env.data = data.p;
    env.n = n;
    std::string got = lsx_choose(2, "junk") ? "older" : "";
    Status s = ReadFileToString(&env, NAME, &got);
    REQUIRE(g_opens == 1 && g_made <= 1, "the file is opened once");
    REQUIRE(g_live == 0, "the file object is destroyed");
    REQUIRE(s.ok() == !g_failed, "success means that every step succeeded");
    if (s.ok()) {
      REQUIRE(got.size() == n && sameBytes(got.data(), data.p, n), "the string is exactly the file's bytes");
      lsx_cover("read");
    } else {
      isFirstFailure(s);
      REQUIRE(got.size() <= n && sameBytes(got.data(), data.p, got.size()), "nothing but bytes of the file is given");
      lsx_cover(g_made ? "read failed" : "open failed");
    }
  }
  REQUIRE(lsx_live_allocs() == live, "nothing leaks");
}
// around the size of the buffer
extern "C" void c29_sizes() {
  ModelEnv env;
  g_budget = 0;
  static const uint32_t sizes[] = {8191, 8192, 8193, 16384, 16385, 24577};
  const uint32_t n = sizes[lsx_choose((uint32_t)lsx_param("sizes", 4), "size")];
  Buf data(n);
  for (uint32_t i = 0; i < n; i++) data.p[i] = (char)(i * 7 + (i >> 8));
  for (uint32_t b = 8190; b < 8194 && b < n; b++) data.p[b] = (char)lsx_sym("byte", 8);
  data.p[0] = (char)lsx_sym("byte", 8);
  data.p[n - 1] = (char)lsx_sym("byte", 8);
  env.data = data.p;
  env.n = n;
  // at most one odd fragment size, then full ones
  std::string got;
  struct Once : ModelEnv {
    struct R : SequentialFile {
      const char* d; uint64_t n, at = 0; int odd = 2;
      R(const char* p, uint64_t k) : d(p), n(k) {}
      Status Read(size_t want, Slice* r, char* scratch) override {
        uint64_t left = n - at, most = left < want ? left : want, k = most;
        if (most > 1 && odd > 0) {
          uint32_t c = lsx_choose(4, "fragment");
          k = c == 0 ? most : c == 1 ? 1 : c == 2 ? most - 1 : most / 2;
          if (c) odd--;
        }
        lsx_check_range(scratch, want);
        memcpy(scratch, d + at, k);
        at += k;
        *r = Slice(scratch, k);
        return Status::OK();
      }
      Status Skip(uint64_t) override { return Status::OK(); }
    };
    Status NewSequentialFile(const std::string&, SequentialFile** r) override { *r = new R(data, n); return Status::OK(); }
  } once;
  once.data = data.p;
  once.n = n;
  REQUIRE(ReadFileToString(&once, NAME, &got).ok(), "reading succeeds");
  REQUIRE(got.size() == n && sameBytes(got.data(), data.p, n), "the string is exactly the file's bytes");
  lsx_cover("end");
}
// the real environments: everything written is read back
extern "C" void c29_posix() {
  Env* env = posixEnv(2, 2);
  fsMkdir("/d");
  fsCreate("/d/other", "other", 5);
  if (lsx_choose(2, "older")) fsCreate(NAME, "older contents", 14);
  const bool older = fsFind(NAME) >= 0;
  const uint32_t n = lsx_choose((uint32_t)lsx_param("len", 4), "size");
  const bool sync = lsx_choose(2, "sync");
  Buf data(n, "d");
  g_fs.logging = 1;
  fsClearLog();
  faults(~0u, (int)lsx_param("faults", 1), (int)lsx_param("interrupts", 1), (int)lsx_param("shorts", 1));
  Status s = sync ? WriteStringToFileSync(env, Slice(data.p, n), NAME) : WriteStringToFile(env, Slice(data.p, n), NAME);
  REQUIRE(s.ok() == !g_fs.faults, "success means that every step succeeded");
  REQUIRE(fsOpenFds() == 0, "the file is closed");
  int i = fsFind(NAME);
  if (s.ok()) {
    REQUIRE(i >= 0 && g_fs.ino[i].size == n && sameBytes(g_fs.ino[i].data, data.p, n), "the file holds exactly the data");
    REQUIRE(!sync || g_fs.ino[i].synced == n, "the data is durable");
    noFaults();
    faults(1u << FC_read, 0, 1, 2);
    std::string got = "x";
    REQUIRE(ReadFileToString(env, NAME, &got).ok() && got.size() == n && sameBytes(got.data(), data.p, n), "what was written is read back");
    lsx_cover("written");
  } else {
    REQUIRE(statusTells(s, NAME, g_fs.firstErr), "the failure that happened is returned");
    int opened = 0, kept = 0;
    for (int k = 0; k < g_fs.nlog; k++) {
      if (g_fs.log[k].call == FC_open && g_fs.log[k].ret >= 0) opened = 1;
      if (g_fs.log[k].call == FC_unlink && g_fs.log[k].ret < 0) kept = 1;  // it was tried
    }
    if (opened) REQUIRE(i < 0 || kept, "a file not written completely is removed");
    else REQUIRE((i >= 0) == older && (!older || g_fs.ino[i].size == 14), "a file that could not be opened is left alone");
    lsx_cover("failed");
  }
  i = fsFind("/d/other");
  REQUIRE(i >= 0 && g_fs.ino[i].size == 5 && sameBytes(g_fs.ino[i].data, "other", 5), "other files are untouched");
}
extern "C" void c29_memory() {
  StubEnv base;
  std::unique_ptr<Env> env(NewMemEnv(&base));
  static const uint32_t sizes[] = {0, 1, 3, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384, 16385};
  const uint32_t n = sizes[lsx_choose((uint32_t)lsx_param("sizes", 9), "size")];
  Buf data(n);
  for (uint32_t i = 0; i < n; i++) data.p[i] = (char)(i * 7 + (i >> 8));
  if (n) { data.p[0] = (char)lsx_sym("byte", 8); data.p[n - 1] = (char)lsx_sym("byte", 8); data.p[n / 2] = (char)lsx_sym("byte", 8); }
  if (n > 4096) data.p[4096] = (char)lsx_sym("byte", 8);
  if (n > 8192) data.p[8192] = (char)lsx_sym("byte", 8);
  if (lsx_choose(2, "older")) REQUIRE(WriteStringToFile(env.get(), Slice("older", 5), "/f").ok(), "writing succeeds");
  REQUIRE((lsx_choose(2, "sync") ? WriteStringToFileSync(env.get(), Slice(data.p, n), "/f") : WriteStringToFile(env.get(), Slice(data.p, n), "/f")).ok(), "writing succeeds");
  std::string got = "x";
  REQUIRE(ReadFileToString(env.get(), "/f", &got).ok() && got.size() == n && sameBytes(got.data(), data.p, n), "what was written is read back");
  REQUIRE(!ReadFileToString(env.get(), "/none", &got).ok() && got.empty(), "a missing file is an error");
  lsx_cover("end");
}

// large files: over a reader that gives all it is asked for (or less), and over the in-memory environment
extern "C" void c29_big() {
  static const uint64_t sizes[] = {40000, 65535, 65536, 65537, 131073, 1 << 20, (1 << 20) + 1, 5000001, 16777217, 70000001};
  const uint64_t n = sizes[lsx_choose((uint32_t)lsx_param("sizes", 8), "size")];
  const uint32_t how = lsx_choose(3, "how");
  char* data = (char*)calloc(n, 1);
  const uint64_t marks[] = {0, 8191, 8192, n / 2, n - 8193, n - 3, 32766, n < 65540 ? 5 : 65534};
  for (int i = 0; i < 8; i++)
    for (int j = 0; j < 3; j++) data[marks[i] + j] = (char)(i * 3 + j + 1);
  data[n - 1] = (char)lsx_sym("byte", 8);
  data[n / 2] = (char)lsx_sym("byte", 8);
  struct Big : ModelEnv {
    const char* d; uint64_t n; bool some;
    struct R : SequentialFile {
      const char* d; uint64_t n, at = 0; bool some;
      R(const char* p, uint64_t k, bool s) : d(p), n(k), some(s) {}
      Status Read(size_t want, Slice* r, char* scratch) override {
        uint64_t left = n - at, k = left < want ? left : want;
        if (some && k > 5000) k = 5000;
        lsx_check_range(scratch, want);
        memcpy(scratch, d + at, k);
        at += k;
        *r = Slice(scratch, k);
        return Status::OK();
      }
      Status Skip(uint64_t) override { return Status::OK(); }
    };
    Status NewSequentialFile(const std::string&, SequentialFile** r) override { *r = new R(d, n, some); return Status::OK(); }
  };
  std::string got = "x";
  if (how < 2) {
    Big big;
    g_budget = 0;
    big.d = data;
    big.n = n;
    big.some = how == 1;
    REQUIRE(ReadFileToString(&big, NAME, &got).ok(), "reading succeeds, however long the file");
  } else {
    StubEnv base;
    std::unique_ptr<Env> env(NewMemEnv(&base));
    REQUIRE(WriteStringToFile(env.get(), Slice(data, n), "/f").ok(), "writing succeeds, however long the data");
    uint64_t size = 0;
    REQUIRE(env->GetFileSize("/f", &size).ok() && size == n, "the file holds exactly the data, however long");
    REQUIRE(ReadFileToString(env.get(), "/f", &got).ok(), "reading succeeds, however long the file");
  }
  REQUIRE(got.size() == n, "the string is exactly as long as the file");
  for (int i = 0; i < 8; i++) REQUIRE(sameBytes(got.data() + marks[i], data + marks[i], 3), "the string is exactly the file's bytes");
  REQUIRE(got[n - 1] == data[n - 1] && !memcmp(got.data(), data, 4096) && !memcmp(got.data() + n - 6000, data + n - 6000, 5000), "the string is exactly the file's bytes");
  free(data);
  lsx_cover("end");
}
