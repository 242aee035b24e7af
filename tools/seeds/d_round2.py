POS = 'util/env_posix.cc'
MEM = 'helpers/memenv/memenv.cc'
CACHE = 'util/cache.cc'
CODING = 'util/coding.cc'
SL = 'db/skiplist.h'
INC = r'''
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <pthread.h>
#include <atomic>
#include <thread>
#include <memory>
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
using namespace lsmdb;
static std::string path(const std::string& n) { char b[4096]; EXPECT(getcwd(b, sizeof b)); return std::string(b) + "/" + n; }
static std::string content(const std::string& f) {
  std::string r; FILE* p = fopen(f.c_str(), "rb"); if (!p) return "<none>";
  int c; while ((c = fgetc(p)) != EOF) r += (char)c; fclose(p); return r;
}
static void put(const std::string& f, const std::string& d) { FILE* p = fopen(f.c_str(), "wb"); fwrite(d.data(), 1, d.size(), p); fclose(p); }
'''
seed('c24-mapped-length-32', 'C24', 'a memory-mapped file of more than 4 GB',
     'The length of a mapping is kept in 32 bits, so reads beyond the low part of a large file are refused.',
     [(POS, '  char* const mmap_base_;\n  const size_t length_;\n', '  char* const mmap_base_;\n  const uint32_t length_;\n')],
     INC + r'''
int main() {
  std::string f = path("big");
  int fd = open(f.c_str(), O_RDWR | O_CREAT, 0644);
  EXPECT(fd >= 0 && ftruncate(fd, (1ll << 32) + 100) == 0 && pwrite(fd, "tail", 4, (1ll << 32) + 90) == 4);
  close(fd);
  RandomAccessFile* r;
  char b[8];
  Slice s;
  EXPECT(Env::Default()->NewRandomAccessFile(f, &r).ok());
  EXPECT(r->Read((1ll << 32) + 90, 4, &s, b).ok() && s.ToString() == "tail");
  delete r;
}
''')
seed('c22-position-16', 'C22', 'appends that fill the write buffer exactly',
     'The position in the write buffer is kept in 16 bits and wraps to zero when the buffer is exactly full.',
     [(POS, '  size_t pos_;\n  int fd_;\n', '  uint16_t pos_;\n  int fd_;\n')],
     INC + r'''
int main() {
  for (int first : {65536, 65535, 1}) {
    std::string f = path("f"), d(first, 'x'), e(65536 - first, 'y');
    WritableFile* w;
    EXPECT(Env::Default()->NewWritableFile(f, &w).ok());
    EXPECT(w->Append(d).ok() && w->Append(e).ok() && w->Close().ok());
    delete w;
    EXPECT(content(f) == d + e);
  }
}
''')
seed('c28-rename-buffer', 'C28', 'a path of 256 bytes or more',
     'RenameFile goes through fixed buffers, so long paths are cut and another file is renamed.',
     [(POS, '    if (std::rename(from.c_str(), to.c_str()) != 0) {\n',
       '    char from_path[256];\n    char to_path[256];\n    std::snprintf(from_path, sizeof(from_path), "%s", from.c_str());\n    std::snprintf(to_path, sizeof(to_path), "%s", to.c_str());\n    if (std::rename(from_path, to_path) != 0) {\n')],
     INC + r'''
int main() {
  std::string d = path(std::string(200, 'd')), n = d + "/" + std::string(120, 'n');
  EXPECT(Env::Default()->CreateDir(d).ok());
  put(n + "1", "one");
  EXPECT(Env::Default()->RenameFile(n + "1", n + "2").ok());
  EXPECT(content(n + "2") == "one" && content(n + "1") == "<none>");
}
''')
seed('c32-testdir-buffer', 'C32', 'a configured test directory of 100 bytes or more',
     'The configured directory is copied through the fixed buffer of the default one and cut.',
     [(POS, '    if (env && env[0] != \'\\0\') {\n      *result = env;\n', '    if (env && env[0] != \'\\0\') {\n      char dir[100] = {};\n      std::snprintf(dir, sizeof(dir), "%s", env);\n      *result = dir;\n')],
     INC + r'''
int main() {
  std::string d = path(std::string(150, 'p')), got;
  setenv("TEST_TMPDIR", d.c_str(), 1);
  EXPECT(Env::Default()->GetTestDirectory(&got).ok() && got == d && Env::Default()->FileExists(d));
}
''')
seed('c25-release-before-unmap', 'C25', 'a reader opened by another thread between the two steps of closing one',
     'The slot of a mapping is given back before the mapping is removed, so that more files than allowed can be mapped at once.',
     [(POS, '    ::munmap(static_cast<void*>(mmap_base_), length_);\n    mmap_limiter_->Release();\n', '    mmap_limiter_->Release();\n    ::munmap(static_cast<void*>(mmap_base_), length_);\n')],
     INC + r'''
#include "util/env_posix_test_helper.h"
namespace lsmdb { class EnvPosixTest { public: static void set(int fds, int maps) { EnvPosixTestHelper::SetReadOnlyFDLimit(fds); EnvPosixTestHelper::SetReadOnlyMMapLimit(maps); } }; }
static std::atomic<int> maps(0), peak(0), armed(0);
static std::string name;
static RandomAccessFile* second;
extern "C" void* mmap(void* a, size_t n, int p, int f, int fd, off_t o) {
  void* (*real)(void*, size_t, int, int, int, off_t) = mmap64;
  void* r = real(a, n, p, f, fd, o);
  if (fd > 2 && (f & MAP_SHARED)) { if (++maps > peak) peak = (int)maps; }
  return r;
}
#include <sys/syscall.h>
extern "C" int munmap(void* a, size_t n) {
  if (n == 5000 && armed.exchange(0)) {  // another thread opens a file at this very moment
    std::thread t([] { Env::Default()->NewRandomAccessFile(name, &second); });
    t.join();
  }
  if (n == 5000) --maps;
  return (int)syscall(SYS_munmap, a, n);
}
int main() {
  EnvPosixTest::set(5, 1);
  name = path("f");
  put(name, std::string(5000, 'x'));
  RandomAccessFile* r;
  EXPECT(Env::Default()->NewRandomAccessFile(name, &r).ok());
  armed = 1;
  delete r;
  EXPECT(peak == 1);
}
''')
seed('c23-dir-once', 'C23', 'a second sync of the same manifest',
     'The directory of a manifest is only synced by the first sync of the manifest, so files created later may be missing after a crash.',
     [(POS, '    if (!is_manifest_) {\n      return status;\n    }\n', '    if (!is_manifest_ || dir_synced_) {\n      return status;\n    }\n    dir_synced_ = true;\n'),
      (POS, '  size_t pos_;\n  int fd_;\n', '  size_t pos_;\n  int fd_;\n  bool dir_synced_ = false;\n')],
     INC + r'''
static int syncs;
static std::string dir;
static int count(int fd) { struct stat s; if (fstat(fd, &s) == 0 && S_ISDIR(s.st_mode)) syncs++; return 0; }
extern "C" int fsync(int fd) { return count(fd); }
extern "C" int fdatasync(int fd) { return count(fd); }
int main() {
  WritableFile* w;
  EXPECT(Env::Default()->NewWritableFile(path("MANIFEST-1"), &w).ok());
  for (int i = 1; i <= 3; i++) {
    EXPECT(w->Append("x").ok() && w->Sync().ok());
    EXPECT(syncs == i);
  }
  delete w;
}
''')
seed('c27-start-unlocked', 'C27', 'two threads scheduling the first tasks at once',
     'Whether the background thread runs is asked before the lock is taken, so that two can be started.',
     [(POS, '''  background_work_mutex_.Lock();

  // Start the background thread, if we haven't done so already.
  if (!started_background_thread_) {
    started_background_thread_ = true;
''', '''  const bool start_thread = !started_background_thread_;
  background_work_mutex_.Lock();

  // Start the background thread, if we haven't done so already.
  if (start_thread) {
    started_background_thread_ = true;
''')],
     INC + r'''
// the second caller reaches the lock while the first one still has it
static std::atomic<int> arrived(0), started(0);
#include <dlfcn.h>
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p) {
  static int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) =
      (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
  if (started++ >= 2) usleep(200000);  // the first two are ours; the start of the background thread takes its time
  return real(t, a, f, p);
}
int main() {
  std::atomic<int> ran(0);
  auto go = [&] {
    arrived++;
    while (arrived < 2) {}
    Env::Default()->Schedule([&](void*) { ran++; }, nullptr);
  };
  Env::Default();
  std::thread x(go), y(go);
  x.join();
  y.join();
  for (int i = 0; i < 2000 && ran < 2; i++) usleep(1000);
  EXPECT(ran == 2);
  EXPECT(started == 3);
}
''', flags='-rdynamic')
seed('c21-append-window', 'C21', 'two threads opening the same missing file for appending',
     'NewAppendableFile looks for the file and adds it in two separate critical sections, so one of two files created at once is lost.',
     [(MEM, '''    MutexLock lock(&mutex_);
    FileState** sptr = &file_map_[filename];
    auto file = *sptr;
    if (file == nullptr) {
      file = new FileState();
      file->Ref();
''', '''    if (!FileExists(filename)) {
      WritableFile* created = nullptr;
      NewWritableFile(filename, &created);
      delete created;
    }
    MutexLock lock(&mutex_);
    FileState** sptr = &file_map_[filename];
    auto file = *sptr;
    if (file == nullptr) {
      file = new FileState();
      file->Ref();
''')],
     INC + r'''
#include "helpers/memenv/memenv.h"
int main() {
  for (int i = 0; i < 200000; i++) {
    std::unique_ptr<Env> env(NewMemEnv(Env::Default()));
    std::atomic<int> at(0);
    auto go = [&] {
      WritableFile* w;
      at++;
      while (at < 2) {}
      EXPECT(env->NewAppendableFile("/f", &w).ok() && w->Append("x").ok());
      delete w;
    };
    std::thread x(go), y(go);
    x.join();
    y.join();
    uint64_t n = 0;
    EXPECT(env->GetFileSize("/f", &n).ok() && n == 2);
    if (i > 4000 && std::getenv("SHORT")) break;
  }
}
''')
seed('c11-usage-32', 'C11', 'an arena of more than 4 GB',
     'The memory usage is counted in 32 bits and starts again at zero after 4 GB.',
     [('util/arena.h', '  std::atomic<size_t> memory_usage_;\n', '  std::atomic<unsigned int> memory_usage_;\n')],
     r'''
#include "util/arena.h"
int main() {
  lsmdb::Arena a;
  for (size_t i = 1; i <= 5; i++) {
    a.Allocate((size_t)1 << 30);
    EXPECT(a.MemoryUsage() >= i << 30);
  }
}
''')
seed('c10-block-32', 'C10', 'a single request of more than 4 GB',
     'The size of a new block is passed in 32 bits, so a request of more than 4 GB gets a block that is much too small.',
     [('util/arena.h', '  char* AllocateNewBlock(size_t block_bytes);\n', '  char* AllocateNewBlock(unsigned int block_bytes);\n'),
      ('util/arena.cc', 'char* Arena::AllocateNewBlock(size_t block_bytes) {\n', 'char* Arena::AllocateNewBlock(unsigned int block_bytes) {\n')],
     r'''
#include "util/arena.h"
#include <malloc.h>
int main() {
  lsmdb::Arena a;
  char* p = a.Allocate(((size_t)1 << 32) + 5000);
  EXPECT(malloc_usable_size(p) >= ((size_t)1 << 32));
}
''')
seed('c07-length-16', 'C07', 'a message of 64 KB or more',
     'The length of the first message is kept in 16 bits, so a long message is cut.',
     [('util/status.cc', '  auto len1 = static_cast<uint32_t>(msg.size());\n', '  auto len1 = static_cast<uint16_t>(msg.size());\n')],
     r'''
#include "lsmdb/status.h"
#include "lsmdb/slice.h"
int main() {
  for (size_t n : {100u, 65535u, 65536u, 70000u}) {
    std::string m(n, 'm');
    EXPECT(lsmdb::Status::IOError(m, "x").ToString() == "IO error: " + m + ": x");
  }
}
''')
seed('c02-fast-path', 'C02', 'a malformed varint64 of eleven bytes with more input after it',
     'The unchecked fast path for inputs with room to spare takes eleven bytes, so an overlong number is accepted.',
     [(CODING, '''    uint64_t result = 0;
    for (uint32_t shift = 0; shift <= 63 && p < limit; shift += 7) {
''', '''    uint64_t result = 0;
    // With enough input left the end needs no checking.
    const uint32_t last_shift = limit - p >= 16 ? 70 : 63;
    for (uint32_t shift = 0; shift <= last_shift && p < limit; shift += 7) {
''')],
     r'''
#include "util/coding.h"
#include "lsmdb/slice.h"
int main() {
  for (int n = 11; n < 20; n++) {
    std::string s(n, '\x80');
    s[10] = 1;
    lsmdb::Slice in(s);
    uint64_t v;
    EXPECT(!lsmdb::GetVarint64(&in, &v));
  }
}
''')
seed('c08-length-16', 'C08', 'a key of 64 KB or more',
     'The length that seeds the hash is cut to 16 bits.',
     [('util/hash.cc', '    uint32_t h = seed ^ (n * m);\n', '    uint32_t h = seed ^ (static_cast<uint16_t>(n) * m);\n')],
     r'''
#include "util/hash.h"
static uint32_t ref(const unsigned char* d, size_t n, uint32_t seed) {
  const uint32_t m = 0xc6a4a793;
  uint32_t h = seed ^ (uint32_t)(n * m);
  size_t i = 0;
  for (; i + 4 <= n; i += 4) { h += (uint32_t)d[i] | (uint32_t)d[i + 1] << 8 | (uint32_t)d[i + 2] << 16 | (uint32_t)d[i + 3] << 24; h *= m; h ^= h >> 16; }
  if (n - i) { for (size_t k = n - i; k-- > 0;) h += (uint32_t)d[i + k] << (8 * k); h *= m; h ^= h >> 24; }
  return h;
}
int main() {
  for (size_t n : {0u, 3u, 100u, 65535u, 65536u, 65537u, 100000u}) {
    std::string s(n, 'q');
    EXPECT(lsmdb::Hash(s.data(), n, 7) == ref((const unsigned char*)s.data(), n, 7));
  }
}
''')
seed('c13-uncached-counted', 'C13', 'a cache of capacity zero',
     'An entry that is not cached is counted as if the cache held it too, so it is never deleted.',
     [(CACHE, '''  if (capacity_ > 0) {
    e->refs++;  // for the cache's reference.
''', '''  e->refs++;  // for the cache's reference.
  if (capacity_ > 0) {
''')],
     r'''
#include "lsmdb/cache.h"
#include "lsmdb/slice.h"
#include <memory>
int main() {
  int deleted = 0;
  {
    std::shared_ptr<lsmdb::Cache> c(lsmdb::NewLRUCache(0));
    lsmdb::Cache::Handle* h = c->Insert("k", &deleted, 1, [&](const lsmdb::Slice&, void*) { deleted++; });
    EXPECT(c->Lookup("k") == nullptr && deleted == 0);
    c->Release(h);
    EXPECT(deleted == 1);
  }
  EXPECT(deleted == 1);
}
''')
seed('c14-erased-charge', 'C14', 'an entry that is erased while a handle is held',
     'The charge of an erased entry is only taken back when nobody uses it, so the shard believes itself fuller than it is for good.',
     [(CACHE, '    usage_ -= e->charge;\n    Unref(e);\n', '    if (e->refs == 1) {\n      usage_ -= e->charge;\n    }\n    Unref(e);\n')],
     r'''
#include "lsmdb/cache.h"
#include "lsmdb/slice.h"
#include <memory>
int main() {
  std::shared_ptr<lsmdb::Cache> c(lsmdb::NewLRUCache(1600));
  auto none = [](const lsmdb::Slice&, void*) {};
  lsmdb::Cache::Handle* h = c->Insert("k", nullptr, 100, none);
  EXPECT(c->TotalCharge() == 100);
  c->Erase("k");
  c->Release(h);
  EXPECT(c->TotalCharge() == 0);
}
''')
seed('c15-prune-lock', 'C15', 'Prune beside any other operation on the cache',
     'Prune only holds the lock to find whether there is anything to do.',
     [(CACHE, '''  MutexLock lock(&mutex_);
  // 仅仅针对lru_链表的中handle
  while (lru_.next != &lru_) {
''', '''  {
    MutexLock lock(&mutex_);
    if (lru_.next == &lru_) {
      return;
    }
  }
  // 仅仅针对lru_链表的中handle
  while (lru_.next != &lru_) {
''')],
     r'''
#include "lsmdb/cache.h"
#include "lsmdb/slice.h"
#include <memory>
#include <thread>
#include <atomic>
static std::atomic<int> inside(0), both(0);
int main() {
  // deleters of one shard never run at once: each runs under its lock
  std::shared_ptr<lsmdb::Cache> c(lsmdb::NewLRUCache(1 << 20));
  auto del = [](const lsmdb::Slice&, void*) {
    if (inside.fetch_add(1) > 0) both = 1;
    for (volatile int i = 0; i < 20000; i = i + 1) {}
    inside--;
  };
  std::atomic<bool> stop(false);
  for (int i = 0; i < 50; i++) c->Release(c->Insert("k" + std::to_string(i), nullptr, 1, del));
  std::string key = "same";
  c->Release(c->Insert(key, nullptr, 1, del));
  std::thread t([&] { while (!stop) c->Release(c->Insert(key, nullptr, 1, [&](const lsmdb::Slice&, void*) {
    if (inside.fetch_add(1) > 0) both = 1;
    for (volatile int i = 0; i < 20000; i = i + 1) {}
    inside--;
  })); });
  // Only entries of the shard of "same" matter: everything else has been pruned after the first round.
  c->Prune();
  both = 0;
  for (int i = 0; i < 2000 && !both; i++) c->Prune();
  stop = true;
  t.join();
  EXPECT(!both);
}
''')
seed('c30-clock', 'C30', 'an environment with a clock of its own under a wrapper',
     'The wrapper asks the default environment for the time instead of its target.',
     [('include/lsmdb/env.h', 'NowMicros() override { return target_->NowMicros(); }', 'NowMicros() override { return Default()->NowMicros(); }')],
     INC + r'''
#include "helpers/memenv/memenv.h"
struct Mine : EnvWapper {
  Mine() : EnvWapper(Env::Default()) {}
  uint64_t NowMicros() override { return 42; }
};
int main() {
  Mine m;
  EnvWapper w(&m);
  EXPECT(w.NowMicros() == 42);
}
''', flags='-fno-rtti')
seed('c29-remove-on-open', 'C29', 'a file that cannot be opened for writing but can be removed',
     'The clean-up after a failed write also runs when the file could not even be opened, removing a file that was there before.',
     [('util/env.cc', '''  auto s = env->NewWritableFile(filename, &file);
  if (!s.ok()) {
    return s;
''', '''  auto s = env->NewWritableFile(filename, &file);
  if (!s.ok()) {
    env->RemoveFile(filename);
    return s;
''')],
     INC + r'''
struct Refuses : EnvWapper {
  Refuses() : EnvWapper(Env::Default()) {}
  Status NewWritableFile(const std::string&, WritableFile** w) override { *w = nullptr; return Status::IOError("too many open files"); }
};
int main() {
  Refuses env;
  std::string f = path("f");
  put(f, "precious");
  EXPECT(!WriteStringToFile(&env, "new", f).ok());
  EXPECT(content(f) == "precious");
}
''', flags='-fno-rtti')
seed('c20-rename-unref', 'C20', 'a rename onto a file that is open',
     'A rename gives the target name the source file but forgets to give up the old target, which is never freed.',
     [(MEM, '    RemoveFileInternal(target);\n    file_map_[target] = file_map_[src];\n', '    file_map_.erase(target);\n    file_map_[target] = file_map_[src];\n')],
     INC + r'''
#include "helpers/memenv/memenv.h"
#include <malloc.h>
int main() {
  auto round = [] {
    std::unique_ptr<Env> env(NewMemEnv(Env::Default()));
    std::string d(100000, 'x');
    EXPECT(WriteStringToFile(env.get(), d, "/a").ok() && WriteStringToFile(env.get(), d, "/b").ok());
    EXPECT(env->RenameFile("/a", "/b").ok());
  };
  round();
  size_t before = mallinfo2().uordblks;
  for (int i = 0; i < 50; i++) round();
  EXPECT(mallinfo2().uordblks < before + 1000000);
}
''')
seed('c21-append-lock', 'C21', 'two threads appending to one in-memory file',
     'Append reads the place for the next bytes before it takes the lock.',
     [(MEM, '''    MutexLock lock(&blocks_mutex_);
    while (src_len > 0) {
      size_t avail;
      size_t offset = size_ % kBlockSize;
''', '''    size_t offset = Size() % kBlockSize;
    MutexLock lock(&blocks_mutex_);
    for (; src_len > 0; offset = size_ % kBlockSize) {
      size_t avail;
''')],
     INC + r'''
#include "helpers/memenv/memenv.h"
int main() {
  for (int i = 0; i < 20000; i++) {
    std::unique_ptr<Env> env(NewMemEnv(Env::Default()));
    WritableFile* w;
    EXPECT(env->NewWritableFile("/f", &w).ok() && w->Append("0").ok());
    std::atomic<int> at(0);
    auto go = [&](const char* s) { at++; while (at < 2) {} for (int k = 0; k < 20; k++) w->Append(s); };
    std::thread x(go, "a"), y(go, "b");
    x.join();
    y.join();
    delete w;
    std::string all;
    EXPECT(ReadFileToString(env.get(), "/f", &all).ok() && all.size() == 41);
    int a = 0;
    for (char c : all) a += c == 'a';
    EXPECT(a == 20);
  }
}
''')
seed('c09-uniform-zero', 'C09', 'a result that is zero',
     'The generator is advanced by two steps when the first result is zero modulo n, so results of Uniform are no longer those of the generator.',
     [('util/random.h', '  uint32_t Uniform(int n) { return Next() % n; }\n', '  uint32_t Uniform(int n) {\n    const uint32_t r = Next() % n;\n    return r != 0 ? r : Next() % n;\n  }\n')],
     r'''
#include "util/random.h"
int main() {
  lsmdb::Random a(301), b(301);
  for (int i = 0; i < 1000; i++) EXPECT(a.Uniform(7) == b.Next() % 7);
}
''')
