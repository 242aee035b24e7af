POS = 'util/env_posix.cc'
ENVC = 'util/env.cc'
LOGR = 'util/posix_logger.h'
INC = r'''
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include "lsmdb/env.h"
using namespace lsmdb;
static std::string path(const char* n) { char b[4096]; EXPECT(getcwd(b, sizeof b)); return std::string(b) + "/" + n; }
static std::string content(const std::string& f) {
  std::string r; FILE* p = fopen(f.c_str(), "rb"); if (!p) return "<none>";
  int c; while ((c = fgetc(p)) != EOF) r += (char)c; fclose(p); return r;
}
'''
LIMITS = r'''
#include "util/env_posix_test_helper.h"
namespace lsmdb { class EnvPosixTest { public: static void set(int fds, int maps) { EnvPosixTestHelper::SetReadOnlyFDLimit(fds); EnvPosixTestHelper::SetReadOnlyMMapLimit(maps); } }; }
'''
WRITE = r'''
static size_t most = 1 << 30; static int fail_at = -1, fail_with = 0, calls = 0;
extern "C" ssize_t write(int fd, const void* p, size_t n) {
  if (fd > 2 && calls++ == fail_at) { errno = fail_with; return -1; }
  return syscall(SYS_write, fd, p, fd > 2 && n > most ? most : n);
}
'''
seed('c22-short-write', 'C22', 'a write system call that takes only part of the data',
     'After a partial write the pointer is not moved on, so the beginning is written again in place of the rest.',
     [(POS, '      data += write_result;\n', '')],
     INC + WRITE + r'''
int main() {
  WritableFile* w;
  std::string f = path("f"), d;
  for (int i = 0; i < 200000; i++) d += (char)(i * 7 + i / 256);
  EXPECT(Env::Default()->NewWritableFile(f, &w).ok());
  most = 10007;
  EXPECT(w->Append(d).ok() && w->Append("end").ok() && w->Close().ok());
  delete w;
  EXPECT(content(f) == d + "end");
}
''')
seed('c22-flush-status', 'C22', 'a failing write during an append that is too large for the buffer',
     'Append goes on after a failed flush: the data before it is lost and the append reports success.',
     [(POS, '    Status status = FlushBuffer();\n    if (!status.ok()) {\n      return status;\n    }\n\n    // Small writes', '    Status status = FlushBuffer();\n    if (!status.ok() && write_size >= kWritableFileBufferSize) {\n      return status;\n    }\n\n    // Small writes')],
     INC + WRITE + r'''
int main() {
  WritableFile* w;
  std::string f = path("f"), d(40000, 'x');
  EXPECT(Env::Default()->NewWritableFile(f, &w).ok());
  EXPECT(w->Append(d).ok());
  fail_at = 0; fail_with = ENOSPC;
  Status s = w->Append(d);
  if (s.ok()) s = w->Close();
  delete w;
  EXPECT(!s.ok() || content(f).size() == 80000);
}
''')
seed('c22-eintr', 'C22', 'a signal that interrupts a write before any byte is written',
     'An interrupted write ends the loop as if everything had been written.',
     [(POS, '      if (write_result < 0) {\n        if (errno == EINTR) {\n          continue;  // Retry', '      if (write_result < 0) {\n        if (errno == EINTR) {\n          break;  // Retry')],
     INC + WRITE + r'''
int main() {
  WritableFile* w;
  std::string f = path("f");
  EXPECT(Env::Default()->NewWritableFile(f, &w).ok());
  EXPECT(w->Append("hello").ok());
  fail_at = 0; fail_with = EINTR;
  EXPECT(w->Close().ok());
  delete w;
  EXPECT(content(f) == "hello");
}
''')
SYNC = r'''
#include <string>
static std::string trail; static int fail_sync_of_dir = 0;
static int synced(int fd) {
  struct stat st; fstat(fd, &st);
  bool dir = S_ISDIR(st.st_mode);
  trail += dir ? 'd' : 'f';
  if (dir && fail_sync_of_dir) { errno = EIO; return -1; }
  return 0;
}
extern "C" int fsync(int fd) { return synced(fd); }
extern "C" int fdatasync(int fd) { return synced(fd); }
extern "C" ssize_t write(int fd, const void* p, size_t n) { if (fd > 2) trail += 'w'; return syscall(SYS_write, fd, p, n); }
'''
seed('c23-dir-status', 'C23', 'the sync of the directory of a manifest failing',
     'The outcome of syncing the directory is dropped.',
     [(POS, '      status = SyncFd(fd, dirname_);\n', '      SyncFd(fd, dirname_);\n')],
     INC + SYNC + r'''
int main() {
  WritableFile* w;
  std::string f = path("MANIFEST-000001");
  EXPECT(Env::Default()->NewWritableFile(f, &w).ok() && w->Append("x").ok());
  fail_sync_of_dir = 1;
  EXPECT(!w->Sync().ok());
  fail_sync_of_dir = 0;
  trail.clear();
  EXPECT(w->Append("y").ok() && w->Sync().ok());
  EXPECT(trail.find('d') != std::string::npos && trail.find('f') > trail.find('d'));
  delete w;
}
''')
seed('c23-order', 'C23', 'a crash between the write of the manifest and the sync of its directory',
     'The manifest is written before its directory is synced, so it can come to refer to files that are not there.',
     [(POS, '    Status status = SyncDirIfManifest();\n    if (!status.ok()) {\n      return status;\n    }\n\n    status = FlushBuffer();\n    if (!status.ok()) {\n      return status;\n    }\n',
       '    Status status = FlushBuffer();\n    if (!status.ok()) {\n      return status;\n    }\n\n    status = SyncDirIfManifest();\n    if (!status.ok()) {\n      return status;\n    }\n')],
     INC + SYNC + r'''
int main() {
  WritableFile* w;
  std::string f = path("MANIFEST-000001");
  EXPECT(Env::Default()->NewWritableFile(f, &w).ok() && w->Append("x").ok());
  EXPECT(w->Sync().ok());
  EXPECT(trail == "dwf");
  delete w;
}
''')
seed('c23-basename', 'C23', 'a manifest inside a directory whose own name begins with MANIFEST, or a relative name',
     'The name is tested for "/MANIFEST" instead of its last part for the prefix: a manifest given without a directory is not recognised.',
     [(POS, '    return Basename(filename).starts_with("MANIFEST");', '    return filename.find("/MANIFEST") != std::string::npos;')],
     INC + SYNC + r'''
int main() {
  WritableFile* w;
  EXPECT(Env::Default()->NewWritableFile("MANIFEST-2", &w).ok() && w->Append("x").ok());
  EXPECT(w->Sync().ok());
  EXPECT(trail == "dwf");
  delete w;
}
''')
seed('c24-offset-int', 'C24', 'a read beyond the first 2 GB of a file that is not mapped',
     'The offset of a positional read is cut to 32 bits.',
     [(POS, '::pread(fd, scratch, n, static_cast<off_t>(offset))', '::pread(fd, scratch, n, static_cast<off_t>(static_cast<uint32_t>(offset)))')],
     INC + LIMITS + r'''
int main() {
  EnvPosixTest::set(10, 0);
  std::string f = path("f");
  int fd = open(f.c_str(), O_CREAT | O_RDWR, 0644);
  EXPECT(fd >= 0 && ftruncate(fd, 5ll << 30) == 0 && pwrite(fd, "hello", 5, (4ll << 30) + 7) == 5);
  close(fd);
  RandomAccessFile* r;
  char b[10]; Slice s;
  EXPECT(Env::Default()->NewRandomAccessFile(f, &r).ok());
  EXPECT(r->Read((4ull << 30) + 7, 5, &s, b).ok() && s == Slice("hello"));
  delete r;
}
''')
seed('c24-shared-position', 'C24', 'two threads reading through one random access file',
     'A positional read is done as a seek and a read, so concurrent reads disturb each other.',
     [(POS, '    ssize_t read_size = ::pread(fd, scratch, n, static_cast<off_t>(offset));', '    ssize_t read_size = ::lseek(fd, static_cast<off_t>(offset), SEEK_SET);\n    if (read_size >= 0) read_size = ::read(fd, scratch, n);')],
     INC + LIMITS + r'''
#include <thread>
#include <atomic>
int main() {
  EnvPosixTest::set(10, 0);
  std::string f = path("f"), d;
  for (int i = 0; i < 65536; i++) d += (char)(i >> 8);
  EXPECT(WriteStringToFile(Env::Default(), d, f).ok());
  RandomAccessFile* r;
  EXPECT(Env::Default()->NewRandomAccessFile(f, &r).ok());
  std::atomic<int> bad(0);
  std::thread t[4];
  for (int k = 0; k < 4; k++) t[k] = std::thread([&, k] {
    char b[8]; Slice s;
    for (int i = 0; i < 100000; i++) {
      uint64_t o = (uint64_t)((i * 977 + k * 16384) & 0xffff);
      if (!r->Read(o, 1, &s, b).ok() || s.size() != 1 || s[0] != d[o]) bad++;
    }
  });
  for (auto& x : t) x.join();
  EXPECT(bad == 0);
  delete r;
}
''')
seed('c24-eintr-eof', 'C24', 'a signal that interrupts a sequential read',
     'An interrupted sequential read looks like the end of the file.',
     [(POS, '        // Read error.\n        if (errno == EINTR) {\n          continue;  // Retry\n        }', '        // Read error.\n        if (errno == EINTR) {\n          *result = Slice(scrach, 0);\n          break;  // Retry\n        }')],
     INC + r'''
static int intr;
extern "C" ssize_t read(int fd, void* p, size_t n) { if (intr-- > 0) { errno = EINTR; return -1; } return syscall(SYS_read, fd, p, n); }
int main() {
  std::string f = path("f");
  EXPECT(WriteStringToFile(Env::Default(), "hello", f).ok());
  SequentialFile* r;
  char b[10]; Slice s;
  EXPECT(Env::Default()->NewSequentialFile(f, &r).ok());
  intr = 2;
  EXPECT(r->Read(5, &s, b).ok() && s == Slice("hello"));
  delete r;
}
''')
seed('c25-acquire', 'C25', 'a file opened while all mapping slots are taken, and another one after a slot is free again',
     'A refused acquisition takes a slot for good.',
     [(POS, '    acquires_allowed_.fetch_add(1, std::memory_order_relaxed);\n    return false;', '    return false;')],
     INC + LIMITS + r'''
static int fds() { int n = 0; for (int i = 3; i < 64; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
int main() {
  EnvPosixTest::set(1, 1);
  std::string f = path("f");
  EXPECT(WriteStringToFile(Env::Default(), "hello", f).ok());
  RandomAccessFile *a, *b, *c, *d;
  Env* e = Env::Default();
  EXPECT(e->NewRandomAccessFile(f, &a).ok() && e->NewRandomAccessFile(f, &b).ok() && e->NewRandomAccessFile(f, &c).ok());
  delete b; delete a; delete c;
  int before = fds();
  EXPECT(e->NewRandomAccessFile(f, &d).ok());
  EXPECT(fds() == before);  // mapped again: no descriptor kept
  RandomAccessFile* g;
  EXPECT(e->NewRandomAccessFile(f, &g).ok());
  EXPECT(fds() == before + 1);  // and the next one keeps its descriptor
  delete d; delete g;
}
''')
seed('c25-mmap-failed', 'C25', 'mmap failing',
     'The slot of a mapping that could not be made is not given back.',
     [(POS, '    ::close(fd);\n    if (!status.ok()) {\n      mmap_limiter_.Release();\n    }\n    return status;', '    ::close(fd);\n    return status;')],
     INC + LIMITS + r'''
#include <sys/mman.h>
static int refuse;
extern "C" void* mmap(void* a, size_t n, int p, int fl, int fd, off_t o) noexcept {
  if (fd >= 0 && refuse) { errno = ENOMEM; return MAP_FAILED; }
  return (void*)syscall(SYS_mmap, a, n, p, fl, fd, o);
}
static int fds() { int n = 0; for (int i = 3; i < 64; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
int main() {
  EnvPosixTest::set(1, 1);
  std::string f = path("f");
  EXPECT(WriteStringToFile(Env::Default(), "hello", f).ok());
  RandomAccessFile* a;
  refuse = 1;
  EXPECT(!Env::Default()->NewRandomAccessFile(f, &a).ok() && a == nullptr);
  refuse = 0;
  int before = fds();
  EXPECT(Env::Default()->NewRandomAccessFile(f, &a).ok());
  EXPECT(fds() == before);
  delete a;
}
''')
seed('c25-order', 'C25', 'many files opened by name at every read while a slot is released',
     'A file without a permanent descriptor gives back a slot it never had.',
     [(POS, '    if (has_permanent_fd_) {\n      assert(fd_ != -1);\n      ::close(fd_);\n      fd_limiter_->Release();\n    }', '    if (has_permanent_fd_) {\n      assert(fd_ != -1);\n      ::close(fd_);\n    }\n    fd_limiter_->Release();')],
     INC + LIMITS + r'''
static int fds() { int n = 0; for (int i = 3; i < 64; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
int main() {
  EnvPosixTest::set(1, 0);
  std::string f = path("f");
  EXPECT(WriteStringToFile(Env::Default(), "hello", f).ok());
  RandomAccessFile *a, *b, *c;
  Env* e = Env::Default();
  int before = fds();
  EXPECT(e->NewRandomAccessFile(f, &a).ok() && e->NewRandomAccessFile(f, &b).ok());
  delete b;
  EXPECT(e->NewRandomAccessFile(f, &c).ok());
  EXPECT(fds() == before + 1);  // the limit is one open descriptor
  delete a; delete c;
}
''')
seed('c26-insert-window', 'C26', 'two threads locking one file, one of them between the two halves of the insertion',
     'The table is asked and changed in two separate critical sections, so two threads can both get the lock.',
     [(POS, '    mutex_.Lock();\n    bool succeeded = locked_files_.insert(filename).second;\n    mutex_.Unlock();\n    return succeeded;',
       '    mutex_.Lock();\n    bool succeeded = locked_files_.count(filename) == 0;\n    mutex_.Unlock();\n    if (succeeded) {\n      mutex_.Lock();\n      locked_files_.insert(filename);\n      mutex_.Unlock();\n    }\n    return succeeded;')],
     INC + r'''
#include <pthread.h>
#include <dlfcn.h>
static void (*hook)();
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*);
  if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int r = real(m);
  if (hook) { void (*h)() = hook; hook = nullptr; h(); }
  return r;
}
static FileLock *mine, *theirs;
static bool got;
static std::string f;
static void other() { got = Env::Default()->LockFile(f, &theirs).ok(); }
int main() {
  f = path("LOCK");
  Env::Default();
  hook = other;
  bool me = Env::Default()->LockFile(f, &mine).ok();
  hook = nullptr;
  EXPECT(me != got);
}
''')
seed('c26-failed-lock-keeps-name', 'C26', 'another process holding the lock at the first attempt',
     'After the system refuses a lock the name stays in the table, so it can never be locked again.',
     [(POS, '      ::close(fd);\n      locks_.Remove(filename);\n      return PosixError("lock " + filename, lock_errno);', '      ::close(fd);\n      return PosixError("lock " + filename, lock_errno);')],
     INC + r'''
int main() {
  std::string f = path("LOCK");
  int up[2], down[2];
  EXPECT(pipe(up) == 0 && pipe(down) == 0);
  pid_t p = fork();
  if (p == 0) {
    FileLock* l;
    char c;
    if (!Env::Default()->LockFile(f, &l).ok()) _exit(9);
    if (write(up[1], "x", 1) != 1 || read(down[0], &c, 1) != 1) _exit(9);
    _exit(0);
  }
  char c;
  FileLock* l;
  EXPECT(read(up[0], &c, 1) == 1);
  EXPECT(!Env::Default()->LockFile(f, &l).ok() && l == nullptr);
  EXPECT(write(down[1], "x", 1) == 1);
  int st;
  waitpid(p, &st, 0);
  EXPECT(st == 0);
  EXPECT(Env::Default()->LockFile(f, &l).ok() && Env::Default()->UnlockFile(l).ok());
}
''')
seed('c26-waits', 'C26', 'another process holding the lock',
     'LockFile waits for the other process instead of failing.',
     [(POS, '  return ::fcntl(fd, F_SETLK, &file_lock_info);', '  return ::fcntl(fd, F_SETLKW, &file_lock_info);')],
     INC + r'''
int main() {
  std::string f = path("LOCK");
  int up[2], down[2];
  EXPECT(pipe(up) == 0 && pipe(down) == 0);
  pid_t p = fork();
  if (p == 0) {
    FileLock* l;
    char c;
    if (!Env::Default()->LockFile(f, &l).ok()) _exit(9);
    if (write(up[1], "x", 1) != 1) _exit(9);
    if (read(down[0], &c, 1) != 1) _exit(9);
    _exit(0);
  }
  char c;
  FileLock* l;
  EXPECT(read(up[0], &c, 1) == 1);
  alarm(20);
  if (fork() == 0) { sleep(3); (void)!write(down[1], "x", 1); _exit(0); }  // a waiting LockFile gets the lock then
  EXPECT(!Env::Default()->LockFile(f, &l).ok() && l == nullptr);
}
''')
seed('c27-if-wait', 'C27', 'a spurious wake-up of the background thread',
     'The background thread does not look again whether there is work after it wakes up.',
     [(POS, '    while (background_work_queue_.empty()) {\n      background_work_cv_.Wait();', '    if (background_work_queue_.empty()) {\n      background_work_cv_.Wait();')],
     INC + r'''
#include <pthread.h>
#include <dlfcn.h>
#include <atomic>
static std::atomic<int> spurious(1), ran(0);
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static int (*real)(pthread_cond_t*, pthread_mutex_t*);
  if (!real) real = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait");
  if (spurious.exchange(0)) { pthread_mutex_unlock(m); usleep(1000); pthread_mutex_lock(m); return 0; }
  return real(c, m);
}
static void work(void*) { ran++; }
int main() {
  Env::Default()->Schedule(work, nullptr);
  for (int i = 0; i < 1000 && ran < 1; i++) usleep(1000);
  usleep(100000);
  spurious = 1;
  Env::Default()->Schedule(work, nullptr);
  for (int i = 0; i < 1000 && ran < 2; i++) usleep(1000);
  EXPECT(ran == 2);
  usleep(200000);
  Env::Default()->Schedule(work, nullptr);
  for (int i = 0; i < 1000 && ran < 3; i++) usleep(1000);
  EXPECT(ran == 3);
  _Exit(0);
}
''')
seed('c27-front-reference', 'C27', 'the queue giving memory back when its front is popped',
     'The background thread keeps references into the queue element it has just popped.',
     [(POS, '    auto background_work_function = background_work_queue_.front().func;\n    auto background_work_arg = background_work_queue_.front().arg;',
       '    const auto& background_work_function = background_work_queue_.front().func;\n    void* const background_work_arg = background_work_queue_.front().arg;')],
     INC + r'''
#include <atomic>
static std::atomic<int> ran(0);
int main() {
  for (int i = 0; i < 100; i++) {
    char big[64];
    std::memset(big, i, sizeof big);
    Env::Default()->Schedule([big, i](void*) { EXPECT(big[0] == i && big[63] == i); ran++; }, nullptr);
  }
  for (int i = 0; i < 5000 && ran < 100; i++) usleep(1000);
  EXPECT(ran == 100);
  _Exit(0);
}
''', flags='-fsanitize=address', src='util/env_posix.cc util/env.cc util/status.cc')
seed('c27-signal-outside', 'C27', 'a second item scheduled before the background thread has taken the first',
     'Schedule only signals when the queue was empty and the thread was already running, but the thread is started after the lock is dropped and may be started twice.',
     [(POS, '  if (!started_background_thread_) {\n    started_background_thread_ = true;\n    std::thread', '  if (!started_background_thread_ || background_work_queue_.size() > 2) {\n    started_background_thread_ = true;\n    std::thread')],
     INC + r'''
#include <atomic>
static std::atomic<int> ran(0), inside(0), together(0);
static void work(void*) { if (inside++) together++; usleep(20000); inside--; ran++; }
int main() {
  for (int i = 0; i < 8; i++) Env::Default()->Schedule(work, nullptr);
  for (int i = 0; i < 5000 && ran < 8; i++) usleep(1000);
  EXPECT(ran == 8 && together == 0);
  _Exit(0);
}
''')
seed('c28-eexist', 'C28', 'a directory that is there already, or a file of its name',
     'CreateDir takes EEXIST for success, even when a file has the name.',
     [(POS, '    if (::mkdir(dirname.c_str(), 0755) != 0) {', '    if (::mkdir(dirname.c_str(), 0755) != 0 && errno != EEXIST) {')],
     INC + r'''
int main() {
  std::string f = path("x");
  EXPECT(WriteStringToFile(Env::Default(), "x", f).ok());
  EXPECT(!Env::Default()->CreateDir(f).ok());
}
''')
seed('c28-size-32', 'C28', 'a file of more than 4 GB',
     'GetFileSize keeps the low 32 bits only.',
     [(POS, '    *size = file_stat.st_size;\n    return Status::OK();\n  }\n\n  Status RenameFile', '    *size = static_cast<unsigned>(file_stat.st_size);\n    return Status::OK();\n  }\n\n  Status RenameFile')],
     INC + r'''
int main() {
  std::string f = path("x");
  int fd = open(f.c_str(), O_CREAT | O_RDWR, 0644);
  EXPECT(fd >= 0 && ftruncate(fd, (4ll << 30) + 5) == 0);
  uint64_t n = 0;
  EXPECT(Env::Default()->GetFileSize(f, &n).ok() && n == (4ull << 30) + 5);
}
''')
seed('c28-exists-readable', 'C28', 'a file the caller may not read',
     'FileExists asks whether the file can be read.',
     [(POS, '::access(filename.c_str(), F_OK)', '::access(filename.c_str(), R_OK)')],
     INC + r'''
int main() {
  std::string f = path("x");
  EXPECT(WriteStringToFile(Env::Default(), "x", f).ok() && chmod(f.c_str(), 0) == 0);
  char b[4096];
  EXPECT(getcwd(b, sizeof b) && chmod(b, 0755) == 0);
  if (geteuid() == 0) { EXPECT(setgid(65534) == 0 && setuid(65534) == 0); }
  EXPECT(Env::Default()->FileExists(f));
}
''')
STUB = INC + r'''
namespace lsmdb { Status WriteStringToFileSync(Env*, const Slice&, const std::string&); }
struct Src : SequentialFile {
  std::string d; size_t at = 0, step; Src(const std::string& x, size_t s) : d(x), step(s) {}
  Status Read(size_t n, Slice* r, char* b) override {
    n = std::min(std::min(n, step), d.size() - at);
    std::memcpy(b, d.data() + at, n); *r = Slice(b, n); at += n; return Status::OK();
  }
  Status Skip(uint64_t) override { return Status::OK(); }
};
struct Dst : WritableFile {
  std::string how; explicit Dst(const char* h) : how(h) {}
  Status r(const char* w) { return how == w ? Status::IOError(w) : Status::OK(); }
  Status Append(const Slice&) override { return r("append"); }
  Status Close() override { return r("close"); }
  Status Flush() override { return r("flush"); }
  Status Sync() override { return r("sync"); }
};
struct E : EnvWapper {
  const char* how = ""; std::string data; size_t step = 100; int removed = 0;
  E() : EnvWapper(Env::Default()) {}
  Status NewSequentialFile(const std::string&, SequentialFile** r) override { *r = new Src(data, step); return Status::OK(); }
  Status NewWritableFile(const std::string&, WritableFile** r) override { *r = new Dst(how); return Status::OK(); }
  Status RemoveFile(const std::string&) override { removed++; return Status::OK(); }
};
'''
seed('c29-short-fragment', 'C29', 'an environment whose reads return less than asked for before the end of the file',
     'ReadFileToString takes a short read for the end of the file.',
     [(ENVC, '    if (fragment.empty())\n', '    if (fragment.size() < kBufferSize / 2)\n')],
     STUB + r'''
int main() {
  E e;
  for (int i = 0; i < 1000; i++) e.data += (char)i;
  std::string s;
  EXPECT(ReadFileToString(&e, "f", &s).ok() && s == e.data);
}
''', flags='-fno-rtti')
seed('c29-close-status', 'C29', 'Close failing after a successful sync',
     'A synced file is not closed explicitly, so a failing close goes unnoticed.',
     [(ENVC, '  if (s.ok()) {\n    s = file->Close();\n  }', '  if (s.ok() && !should_sync) {\n    s = file->Close();\n  }')],
     STUB + r'''
int main() {
  E e;
  e.how = "close";
  EXPECT(!WriteStringToFile(&e, "x", "f").ok() && e.removed == 1);
  EXPECT(!WriteStringToFileSync(&e, "x", "f").ok() && e.removed == 2);
}
''', flags='-fno-rtti')
seed('c29-keeps-broken', 'C29', 'the sync of a written file failing',
     'A file whose sync failed is left in place.',
     [(ENVC, '  if (!s.ok()) {\n    env->RemoveFile(filename);\n  }', '  if (!s.ok() && !should_sync) {\n    env->RemoveFile(filename);\n  }')],
     STUB + r'''
int main() {
  E e;
  e.how = "sync";
  EXPECT(!WriteStringToFileSync(&e, "x", "f").ok() && e.removed == 1);
}
''', flags='-fno-rtti')
ENVH = 'include/lsmdb/env.h'
seed('c30-append', 'C30', 'appending through a wrapper',
     'The wrapper forwards NewAppendableFile to NewWritableFile, which empties the file.',
     [(ENVH, '    return target_->NewAppendableFile(f, r);', '    return target_->NewWritableFile(f, r);')],
     INC + r'''
int main() {
  EnvWapper e(Env::Default());
  std::string f = path("f");
  WritableFile* w;
  EXPECT(WriteStringToFile(&e, "a", f).ok() && e.NewAppendableFile(f, &w).ok() && w->Append("b").ok() && w->Close().ok());
  delete w;
  EXPECT(content(f) == "ab");
}
''')
seed('c30-rename', 'C30', 'renaming through a wrapper',
     'The wrapper swaps the names when the new name is the longer one.',
     [(ENVH, '    return target_->RenameFile(s, t);', '    return s.size() < t.size() ? target_->RenameFile(t, s) : target_->RenameFile(s, t);')],
     INC + r'''
int main() {
  EnvWapper e(Env::Default());
  std::string f = path("f"), g = path("ggg");
  EXPECT(WriteStringToFile(&e, "a", f).ok() && e.RenameFile(f, g).ok());
  EXPECT(content(g) == "a");
}
''')
LOGD = INC + r'''
static std::string logged(const char* f, ...) { return ""; }
template <class... A> static std::string line(const char* fmt, A... a) {
  std::string f = path("log");
  unlink(f.c_str());
  Logger* l;
  EXPECT(Env::Default()->NewLogger(f, &l).ok());
  Log(l, fmt, a...);
  delete l;
  std::string c = content(f);
  size_t sp = c.find(' ', c.find(' ') + 0);
  sp = c.find(' ', sp + 1);  // date-time, thread, message
  return c;
}
static std::string message(const std::string& c) { size_t a = c.find(' '); a = c.find(' ', a + 1); return c.substr(a + 1); }
'''
seed('c31-va-copy', 'C31', 'a message that does not fit the first buffer',
     'The arguments are consumed by the first attempt, so the second one prints whatever follows them.',
     [(LOGR, '              format, arguments_copy);', '              format, arguments);')],
     LOGD + r'''
int main() {
  std::string big(700, 'b');
  std::string c = line("%d %d %d %s %d %d %d %d", 1, 2, 3, big.c_str(), 4, 5, 6, 7);
  EXPECT(c.size() > 700 && c.substr(c.size() - 715) == " 1 2 3 " + big + " 4 5 6 7\n" || c.find("1 2 3 " + big + " 4 5 6 7\n") != std::string::npos);
}
''')
seed('c31-newline', 'C31', 'a format without a newline at its end whose last argument ends with one',
     'The format is looked at instead of the message, so a message can end in two newlines, or none.',
     [(LOGR, "      if (buffer[buffer_offset - 1] != '\\n') {", "      if (format[0] == '\\0' || format[std::char_traits<char>::length(format) - 1] != '\\n') {")],
     LOGD + r'''
int main() {
  EXPECT(message(line("%s", "a\n")) == "a\n");
  EXPECT(message(line("%s", "a")) == "a\n");
}
''')
seed('c31-exact-fit', 'C31', 'a message that fills the first buffer to exactly its last byte',
     'A message one byte too long for the buffer is taken to fit.',
     [(LOGR, 'if (buffer_offset >= buffer_size - 1) {', 'if (buffer_offset > buffer_size) {')],
     LOGD + r'''
int main() {
  for (int n = 380; n < 520; n++) {
    std::string m(n, 'm');
    std::string c = line("%s", m.c_str());
    EXPECT(c.size() > m.size() && c.substr(c.size() - n - 2) == " " + m + "\n");
  }
}
''')
seed('c32-sleep-interrupted', 'C32', 'a signal handled while the thread sleeps',
     'A sleep ends early when a signal arrives.',
     [(POS, '    std::this_thread::sleep_for(std::chrono::microseconds(micros));', '    struct ::timespec ts;\n    ts.tv_sec = micros / 1000000;\n    ts.tv_nsec = (micros % 1000000) * 1000L;\n    if (micros > 0) ::nanosleep(&ts, nullptr);')],
     INC + r'''
#include <time.h>
static void on(int) {}
int main() {
  struct sigaction sa;
  std::memset(&sa, 0, sizeof sa);
  sa.sa_handler = on;
  sigaction(SIGALRM, &sa, nullptr);
  struct timespec a, b;
  clock_gettime(CLOCK_MONOTONIC, &a);
  ualarm(100000, 0);
  Env::Default()->SleepForMicroseconds(600000);
  clock_gettime(CLOCK_MONOTONIC, &b);
  EXPECT((b.tv_sec - a.tv_sec) * 1000000000ll + b.tv_nsec - a.tv_nsec >= 600000000ll);
}
''')
seed('c32-clock-32', 'C32', 'a date after 2038',
     'The seconds pass through a 32-bit integer.',
     [(POS, 'return static_cast<uint64_t>(tv.tv_sec) * kUsecondsPerSecond', 'return static_cast<uint64_t>(static_cast<int>(tv.tv_sec)) * kUsecondsPerSecond')],
     INC + r'''
#include <sys/time.h>
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { tv->tv_sec = 5000000000ll; tv->tv_usec = 42; return 0; }
int main() { EXPECT(Env::Default()->NowMicros() == 5000000000ull * 1000000 + 42); }
''')
seed('c32-testdir-empty', 'C32', 'TEST_TMPDIR set to the empty string',
     'An empty TEST_TMPDIR is taken as the directory.',
     [(POS, "    if (env && env[0] != '\\0') {", '    if (env) {')],
     INC + r'''
extern "C" uid_t geteuid() noexcept { return 77777; }
extern "C" int mkdir(const char*, mode_t) noexcept { return 0; }
int main() {
  setenv("TEST_TMPDIR", "", 1);
  std::string s;
  EXPECT(Env::Default()->GetTestDirectory(&s).ok() && s == "/tmp/lsmdbtest-77777");
}
''')
PORT = 'port/port_stdcxx.h'
seed('c33-signal-all', 'C33', 'two threads waiting when all are to be woken',
     'SignalAll wakes a single waiter.',
     [(PORT, 'void SignalAll() { cv_.notify_all(); }', 'void SignalAll() { cv_.notify_one(); }')],
     r'''
#include <thread>
#include <unistd.h>
#include <atomic>
#include "port/port.h"
using namespace lsmdb;
int main() {
  static port::Mutex m;
  static port::CondVar c(&m);
  static bool go;
  static std::atomic<int> in(0), out(0);
  for (int i = 0; i < 3; i++) std::thread([] { m.Lock(); in++; while (!go) c.Wait(); m.Unlock(); out++; }).detach();
  while (in < 3) usleep(1000);
  usleep(100000);
  m.Lock(); go = true; c.SignalAll(); m.Unlock();
  for (int i = 0; i < 1000 && out < 3; i++) usleep(1000);
  EXPECT(out == 3);
  std::_Exit(0);
}
''')
seed('c33-wait-unlocks', 'C33', 'anyone using what the lock protects after a wait',
     'Wait returns without holding the lock.',
     [(PORT, '        cv_.wait(lock);\n        lock.release();\n', '        cv_.wait(lock);\n')],
     r'''
#include <thread>
#include <unistd.h>
#include <atomic>
#include "port/port.h"
#include <pthread.h>
using namespace lsmdb;
int main() {
  static port::Mutex m;
  static port::CondVar c(&m);
  static bool go;
  static std::atomic<int> held(0), in(0);
  std::thread a([] { m.Lock(); in = 1; while (!go) c.Wait(); held = 1; usleep(300000); held = 0; m.Unlock(); });
  while (!in) usleep(1000);
  usleep(50000);
  m.Lock(); go = true; c.Signal(); m.Unlock();
  while (!held) usleep(100);
  m.Lock();
  EXPECT(!held);
  m.Unlock();
  a.join();
}
''')
DUMP = r'''#!/bin/bash
# Run with cwd /repo after the build. 0: behaves as it should.
./_build/lsmdb_util dump x >/dev/null 2>&1 || { echo "dump refused"; exit 1; }
for c in du "" dumpx DUMP "dump " d; do
  if ./_build/lsmdb_util "$c" >/dev/null 2>&1; then echo "accepted '$c'"; exit 1; fi
done
if ./_build/lsmdb_util >/dev/null 2>&1; then echo "accepted nothing"; exit 1; fi
exit 0
'''
seed('c34-prefix', 'C34', 'a command that only begins like a known one',
     'Any command beginning with "dump" is accepted.',
     [('db/lsmdb_util.cc', 'if (command == "dump") {', 'if (command.compare(0, 4, "dump") == 0) {')], sh=DUMP)
seed('c34-abbreviation', 'C34', 'a command that is only part of a known one',
     'Abbreviations, the empty one included, are accepted.',
     [('db/lsmdb_util.cc', 'if (command == "dump") {', 'if (std::string("dump").find(command) == 0) {')], sh=DUMP)
