POS = 'util/env_posix.cc'
CACHE = 'util/cache.cc'
ENV = r'''
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
using namespace lsmdb;
static std::string path(const std::string& n) { char b[4096]; EXPECT(getcwd(b, sizeof b)); return std::string(b) + "/" + n; }
static void put(const std::string& f, const std::string& d) { FILE* p = fopen(f.c_str(), "wb"); fwrite(d.data(), 1, d.size(), p); fclose(p); }
'''
seed('c14-evict-16', 'C14', 'one insert whose charge makes more than sixteen small entries of one partition leave',
     'An insert evicts at most sixteen entries, so the partition stays over its capacity although nothing in it is in use.',
     [(CACHE, '  while (usage_ > capacity_ && lru_.next != &lru_) {', '  for (int n = 0; n < 16 && usage_ > capacity_ && lru_.next != &lru_; n++) {')],
     r'''
#include "lsmdb/cache.h"
#include "lsmdb/slice.h"
using namespace lsmdb;
int main() {
  std::shared_ptr<Cache> c = NewLRUCache(16 * 100);
  auto gone = [](const Slice&, void*) {};
  for (int i = 0; i < 20000; i++) c->Release(c->Insert("key" + std::to_string(i), nullptr, 1, gone));
  EXPECT(c->TotalCharge() == 1600);
  for (int i = 0; i < 400; i++) {
    c->Release(c->Insert("large" + std::to_string(i), nullptr, 100, gone));
    EXPECT(c->TotalCharge() <= 1600);
  }
}
''')
seed('c14-prune-64', 'C14', 'more than 64 entries in one partition that are not in use when the cache is pruned',
     'Pruning stops after 64 entries of a partition.',
     [(CACHE, '  while (lru_.next != &lru_) {\n    auto e = lru_.next;', '  for (int n = 0; n < 64 && lru_.next != &lru_; n++) {\n    auto e = lru_.next;')],
     r'''
#include "lsmdb/cache.h"
#include "lsmdb/slice.h"
using namespace lsmdb;
int main() {
  std::shared_ptr<Cache> c = NewLRUCache(1 << 20);
  auto gone = [](const Slice&, void*) {};
  Cache::Handle* held = c->Insert("held", nullptr, 3, gone);
  for (int i = 0; i < 3000; i++) c->Release(c->Insert("key" + std::to_string(i), nullptr, 1, gone));
  c->Prune();
  EXPECT(c->TotalCharge() == 3);
  c->Release(held);
  c->Prune();
  EXPECT(c->TotalCharge() == 0);
}
''')
seed('c15-id-16', 'C15', 'more than 65536 ids drawn from one cache',
     'Ids are cut to 16 bits, so they repeat.',
     [(CACHE, '    return ++(last_id_);', '    return static_cast<uint16_t>(++last_id_);')],
     r'''
#include <set>
#include "lsmdb/cache.h"
#include "lsmdb/slice.h"
using namespace lsmdb;
int main() {
  std::shared_ptr<Cache> c = NewLRUCache(100);
  std::set<uint64_t> s;
  for (int i = 0; i < 70000; i++) EXPECT(s.insert(c->NewId()).second);
}
''')
seed('c20-refs-8', 'C20', 'more than 127 handles of one in-memory file at a time',
     'The reference count has eight bits: it overflows, and the file is freed while it is open.',
     [('helpers/memenv/memenv.cc', '  int refs_ GUARDED_BY', '  signed char refs_ GUARDED_BY')],
     r'''
#include <memory>
#include <vector>
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
using namespace lsmdb;
int main() {
  std::unique_ptr<Env> env(NewMemEnv(Env::Default()));
  EXPECT(WriteStringToFile(env.get(), "content", "/f").ok());
  std::vector<RandomAccessFile*> r(600);
  for (auto& f : r) EXPECT(env->NewRandomAccessFile("/f", &f).ok());
  for (size_t i = 1; i < r.size(); i++) delete r[i];
  char b[16];
  Slice s;
  EXPECT(r[0]->Read(0, 16, &s, b).ok() && s == Slice("content"));
  uint64_t n = 0;
  EXPECT(env->GetFileSize("/f", &n).ok() && n == 7);
  delete r[0];
}
''')
seed('c22-write-zero', 'C22', 'a write that returns zero although there was something to write',
     'The loop takes a write of no bytes for the end and reports success; what is left is lost.',
     [(POS, '      data += write_result;\n      size -= write_result;', '      if (write_result == 0) break;\n      data += write_result;\n      size -= write_result;')],
     ENV + r'''
static int zeros;
extern "C" ssize_t write(int fd, const void* p, size_t n) {
  if (zeros > 0 && n > 1) { zeros--; return 0; }
  return syscall(SYS_write, fd, p, n);
}
int main() {
  std::string f = path("f"), s;
  WritableFile* w = nullptr;
  EXPECT(Env::Default()->NewWritableFile(f, &w).ok());
  EXPECT(w->Append("some data").ok());
  zeros = 2;
  bool ok = w->Flush().ok();
  zeros = 0;
  ok = w->Close().ok() && ok;
  delete w;
  EXPECT(ReadFileToString(Env::Default(), f, &s).ok());
  EXPECT(!ok || s == "some data");
}
''')
seed('c24-map-blocks', 'C24', 'a mapped file whose size is no multiple of 512 bytes, read beyond its end',
     'The length of the mapping is taken from the blocks the file occupies, so reads beyond its end succeed with zero bytes.',
     [(POS, '      file_size = file_stat.st_size;', '      file_size = static_cast<uint64_t>(file_stat.st_blocks) * 512;')],
     ENV + r'''
int main() {
  std::string f = path("f");
  put(f, std::string(5000, 'x'));
  sync();
  RandomAccessFile* r = nullptr;
  EXPECT(Env::Default()->NewRandomAccessFile(f, &r).ok());
  char b[64];
  for (uint64_t at : {4990, 4999, 5000, 5005}) {
    Slice s;
    Status st = r->Read(at, 32, &s, b);
    EXPECT(!st.ok() || at + s.size() <= 5000);
  }
  Slice s;
  EXPECT(r->Read(0, 32, &s, b).ok() && s == Slice(std::string(32, 'x')));
  delete r;
}
''')
seed('c26-basename', 'C26', 'two files of the same base name in different directories, locked at the same time',
     'The table of held locks keeps base names only: a lock in one directory blocks that of another one.',
     [(POS, 'locked_files_.insert(filename)', "locked_files_.insert(filename.substr(filename.rfind('/') + 1))"),
      (POS, 'locked_files_.erase(filename)', "locked_files_.erase(filename.substr(filename.rfind('/') + 1))")],
     ENV + r'''
int main() {
  Env* e = Env::Default();
  e->CreateDir(path("one"));
  e->CreateDir(path("two"));
  FileLock *a = nullptr, *b = nullptr, *c = nullptr;
  EXPECT(e->LockFile(path("one/LOCK"), &a).ok() && a);
  EXPECT(e->LockFile(path("two/LOCK"), &b).ok() && b);
  EXPECT(!e->LockFile(path("two/LOCK"), &c).ok() && !c);
  EXPECT(e->UnlockFile(a).ok() && e->UnlockFile(b).ok());
}
''')
seed('c28-hidden', 'C28', 'a directory with a file whose name begins with a dot',
     'Listing a directory leaves out names that begin with a dot.',
     [(POS, '      result->emplace_back(entry->d_name);', "      if (entry->d_name[0] != '.') result->emplace_back(entry->d_name);")],
     ENV + r'''
int main() {
  Env* e = Env::Default();
  EXPECT(e->CreateDir(path("dir")).ok());
  put(path("dir/.hidden"), "x");
  put(path("dir/plain"), "x");
  std::vector<std::string> names;
  EXPECT(e->GetChildren(path("dir"), &names).ok());
  int hit = 0;
  for (auto& n : names) hit += n == ".hidden" || n == "plain";
  EXPECT(hit == 2);
}
''')
seed('c29-64k', 'C29', 'a file of more than 65536 bytes read into a string',
     'What lies beyond the first 64 KB of a file is dropped when it is read whole.',
     [('util/env.cc', '    data->append(fragment.data(), fragment.size());', '    if (data->size() < space.size() * 8) data->append(fragment.data(), fragment.size());')],
     ENV + r'''
int main() {
  std::string f = path("f"), s;
  for (size_t n : {0, 1, 8192, 65536, 65537, 200000}) {
    std::string d;
    for (size_t i = 0; i < n; i++) d.push_back((char)(i * 7 + i / 256));
    EXPECT(WriteStringToFile(Env::Default(), d, f).ok());
    EXPECT(ReadFileToString(Env::Default(), f, &s).ok() && s == d);
  }
}
''')
seed('c32-testdir-slash', 'C32', 'TEST_TMPDIR set to a name that ends in a slash',
     'A trailing slash of the configured directory is dropped, so another name is given than the one configured.',
     [(POS, '      *result = env;\n', "      *result = env;\n      if (result->size() > 1 && result->back() == '/') result->pop_back();\n")],
     ENV + r'''
#include <cstdlib>
int main() {
  std::string d = path("dir") + "/", got;
  setenv("TEST_TMPDIR", d.c_str(), 1);
  EXPECT(Env::Default()->GetTestDirectory(&got).ok() && got == d);
  struct stat st;
  EXPECT(stat(d.c_str(), &st) == 0);
}
''')
seed('c28-lock-message', 'C28', 'a lock refused for a file with a name of more than 120 bytes',
     'The message for a refused lock is cut to 127 bytes, so it does not carry the whole name.',
     [(POS, 'return PosixError("lock " + filename, lock_errno);', 'char where[128];\n      std::snprintf(where, sizeof(where), "lock %s", filename.c_str());\n      return PosixError(where, lock_errno);')],
     ENV + r'''
#include <sys/wait.h>
int main() {
  for (size_t n : {5, 60, 180}) {
    std::string f = path(std::string(n, 'k'));
    put(f, "x");
    int up[2], down[2];
    EXPECT(pipe(up) == 0 && pipe(down) == 0);
    pid_t child = fork();
    if (child == 0) {  // another process holds the lock
      struct flock l = {};
      l.l_type = F_WRLCK;
      int fd = open(f.c_str(), O_RDWR);
      char c = fcntl(fd, F_SETLK, &l) == 0 ? 'y' : 'n';
      if (write(up[1], &c, 1) != 1 || close(down[1]) != 0) _exit(1);
      if (read(down[0], &c, 1) != 0) _exit(1);
      _exit(0);
    }
    char c = 0;
    EXPECT(read(up[0], &c, 1) == 1 && c == 'y');
    FileLock* l = nullptr;
    Status s = Env::Default()->LockFile(f, &l);
    EXPECT(s.IsIOError() && l == nullptr && s.ToString().find(f) != std::string::npos);
    for (int fd : {up[0], up[1], down[0], down[1]}) close(fd);
    int st = 0;
    EXPECT(waitpid(child, &st, 0) == child && st == 0);
  }
}
''')
seed('c23-long-directory', 'C23', 'a manifest in a directory whose path is longer than 255 bytes',
     'The path of the directory to sync is cut to 255 bytes: the sync fails, or another directory is synced.',
     [(POS, '    return filename.substr(0, separator_pos);', '    return filename.substr(0, std::min<size_t>(separator_pos, 255));')],
     ENV + r'''
int main() {
  Env* e = Env::Default();
  std::string d = path("dir");
  EXPECT(e->CreateDir(d).ok());
  for (int i = 0; i < 4; i++) {
    WritableFile* w = nullptr;
    EXPECT(e->NewWritableFile(d + "/MANIFEST-000001", &w).ok());
    EXPECT(w->Append("edit").ok() && w->Sync().ok() && w->Close().ok());
    delete w;
    d += "/" + std::string(100, (char)('a' + i));
    EXPECT(e->CreateDir(d).ok());
  }
}
''')
seed('c27-join', 'C27', 'a started thread that needs something its starter does after starting it',
     'Starting a thread waits until the thread has ended.',
     [(POS, '    new_thread.detach();', '    new_thread.join();')],
     ENV + r'''
#include <atomic>
static std::atomic<int> g_go(0), g_done(0);
static void f(void*) { while (!g_go.load()) usleep(1000); g_done.store(1); }
int main() {
  alarm(20);
  Env::Default()->StartThread(&f, nullptr);
  g_go.store(1);
  while (!g_done.load()) usleep(1000);
}
''')
seed('c32-recreate', 'C32', 'a test directory that exists and is empty',
     'The test directory is removed and created again when it is asked for.',
     [(POS, '    CreateDir(*result);\n', '    RemoveDir(*result);\n    CreateDir(*result);\n')],
     ENV + r'''
#include <cstdlib>
int main() {
  std::string d = path("dir"), got;
  EXPECT(mkdir(d.c_str(), 0700) == 0);
  struct stat a, b;
  int fd = open(d.c_str(), O_RDONLY);  // keeps the inode's number from being used again
  EXPECT(fd >= 0 && fstat(fd, &a) == 0);
  setenv("TEST_TMPDIR", d.c_str(), 1);
  EXPECT(Env::Default()->GetTestDirectory(&got).ok() && got == d);
  EXPECT(stat(d.c_str(), &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev && (b.st_mode & 0777) == 0700);
}
''')
SKIP = 'db/skiplist.h'
LIST = r'''
#include <cstring>
#include "db/skiplist.h"
#include "util/arena.h"
using namespace lsmdb;
'''
seed('c16-narrow-result', 'C16', 'a comparator whose results do not fit into eight bits',
     'Only the low eight bits of a comparison result are looked at, so 256 looks like equality and 128 like less.',
     [(SKIP, '  bool Equal(const Key& a, const Key& b) const { return (compare_(a, b) == 0); }',
       '  bool Equal(const Key& a, const Key& b) const {\n    return static_cast<int8_t>(compare_(a, b)) == 0;\n  }')],
     LIST + r'''
struct Far { int operator()(const uint64_t& a, const uint64_t& b) const { return a < b ? -512 : a > b ? 512 : 0; } };
int main() {
  Arena arena;
  SkipList<uint64_t, Far> l(Far(), &arena);
  for (uint64_t i = 1; i < 100; i += 2) l.Insert(i);
  for (uint64_t i = 0; i < 100; i++) EXPECT(l.Contains(i) == (i % 2 == 1));
}
''')
seed('c16-wide-key', 'C16', 'keys larger than a pointer',
     'The memory of a node is counted in pointers, one of them for the key, so nodes with larger keys overlap.',
     [(SKIP, '      sizeof(Node) + sizeof(std::atomic<Node*>) * (height - 1));', '      sizeof(std::atomic<Node*>) * (height + 1));')],
     LIST + r'''
struct Wide {
  uint64_t a[6];
  Wide(uint64_t v = 0) { for (uint64_t& x : a) x = v; }
};
struct ByFirst { int operator()(const Wide& x, const Wide& y) const { return x.a[0] < y.a[0] ? -1 : x.a[0] > y.a[0]; } };
int main() {
  Arena arena;
  SkipList<Wide, ByFirst> l(ByFirst(), &arena);
  for (uint64_t i = 1; i < 400; i++) {
    l.Insert(Wide(i * 77 % 401));
    int n = 0;
    SkipList<Wide, ByFirst>::Iterator it(&l);
    for (it.SeekToFirst(); it.Valid() && n < 1000; it.Next(), n++)
      for (uint64_t x : it.key().a) EXPECT(x == it.key().a[0]);
    EXPECT((uint64_t)n == i);
  }
}
''')
seed('c17-shared-path', 'C17', 'two lists into which two threads insert at the same time',
     'The search path of an insertion is kept in one place for all lists of a type, so their writers disturb each other.',
     [(SKIP, '  Node* prev[kMaxHeight];\n', '  static Node* prev[kMaxHeight];\n')],
     LIST + r'''
#include <thread>
#include <unistd.h>
struct By { int operator()(const uint64_t& a, const uint64_t& b) const { return a < b ? -1 : a > b; } };
typedef SkipList<uint64_t, By> List;
static void fill(List* l) { for (uint64_t i = 1; i < 60000; i++) l->Insert(i * 7919 % 60013); }
static bool good(List& l) {
  uint64_t n = 0, last = 0;
  List::Iterator it(&l);
  for (it.SeekToFirst(); it.Valid(); it.Next(), n++) { if (n && it.key() <= last) return false; last = it.key(); if (n > 70000) return false; }
  return n == 59999;
}
int main() {
  alarm(100);
  for (int round = 0; round < 5; round++) {
    Arena a, b;
    List la(By(), &a), lb(By(), &b);
    std::thread t(fill, &la);
    fill(&lb);
    t.join();
    EXPECT(good(la) && good(lb));
  }
}
''')
seed('c19-remove-dir', 'C19', 'removing a directory that has the name of a file',
     'Removing a directory also removes a file of that name.',
     [('helpers/memenv/memenv.cc', '  Status RemoveDir(const std::string& dirname) override { return Status::OK(); }',
       '  Status RemoveDir(const std::string& dirname) override {\n    MutexLock lock(&mutex_);\n    RemoveFileInternal(dirname);\n    return Status::OK();\n  }')],
     ENV + r'''
#include <memory>
#include "helpers/memenv/memenv.h"
int main() {
  std::unique_ptr<Env> e(NewMemEnv(Env::Default()));
  EXPECT(WriteStringToFile(e.get(), "abc", "/dir/f").ok() && WriteStringToFile(e.get(), "x", "/dir").ok());
  e->CreateDir("/dir/f");
  e->RemoveDir("/dir/f");
  e->RemoveDir("/dir");
  std::string s;
  EXPECT(e->FileExists("/dir/f") && ReadFileToString(e.get(), "/dir/f", &s).ok() && s == "abc");
  EXPECT(ReadFileToString(e.get(), "/dir", &s).ok() && s == "x");
}
''')
