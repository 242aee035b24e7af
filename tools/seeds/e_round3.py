POS = 'util/env_posix.cc'
INC = r'''
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <dlfcn.h>
#include <cstdarg>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
using namespace lsmdb;
static std::string path(const std::string& n) { char b[4096]; EXPECT(getcwd(b, sizeof b)); return std::string(b) + "/" + n; }
static void put(const std::string& f, const std::string& d) { FILE* p = fopen(f.c_str(), "wb"); fwrite(d.data(), 1, d.size(), p); fclose(p); }
// a descriptor counts as inherited when the flag is off at its first use or at its close
static int inherited, closed;
static int mine(int fd) { int e = errno, r = fd > 2 ? fcntl(fd, F_GETFD) : -1; if (r >= 0 && !(r & FD_CLOEXEC)) inherited++; errno = e; return r; }
extern "C" int close(int fd) { mine(fd); closed++; return (int)syscall(SYS_close, fd); }
extern "C" ssize_t pread(int fd, void* p, size_t n, off_t o) { mine(fd); return syscall(SYS_pread64, fd, p, n, o); }
extern "C" int fsync(int fd) { mine(fd); return (int)syscall(SYS_fsync, fd); }
extern "C" int fdatasync(int fd) { mine(fd); return (int)syscall(SYS_fdatasync, fd); }
'''
seed('c35-reopen', 'C35', 'a random-access file beyond the limits on mappings and descriptors, read while a program is started',
     'The descriptor opened anew for each read is passed on to programs started meanwhile.',
     [(POS, '      fd = ::open(filename_.c_str(), O_RDONLY | kOpenBaseFlags);', '      fd = ::open(filename_.c_str(), O_RDONLY);')],
     INC + r'''
int main() {
  struct rlimit l = {64, 64};
  EXPECT(setrlimit(RLIMIT_NOFILE, &l) == 0);
  std::string f = path("f");
  put(f, "hello");
  for (int i = 0; i < 1000 + 30; i++) {
    RandomAccessFile* r = nullptr;
    EXPECT(Env::Default()->NewRandomAccessFile(f, &r).ok());
    char b[8];
    Slice s;
    EXPECT(r->Read(0, 5, &s, b).ok() && s.ToString() == "hello");
  }
  EXPECT(closed > 0);
  EXPECT(inherited == 0);
}
''')
seed('c35-directory', 'C35', 'a program started while the directory of a manifest is being synced',
     'The descriptor of the directory that a manifest sync opens is passed on to programs started meanwhile.',
     [(POS, '    int fd = ::open(dirname_.c_str(), O_RDONLY | kOpenBaseFlags);', '    int fd = ::open(dirname_.c_str(), O_RDONLY | O_DIRECTORY);')],
     INC + r'''
int main() {
  for (const char* n : {"MANIFEST-000001", "plain"}) {
    WritableFile* w;
    EXPECT(Env::Default()->NewWritableFile(path(n), &w).ok());
    EXPECT(w->Append("data").ok() && w->Sync().ok() && w->Close().ok());
    delete w;
  }
  EXPECT(inherited == 0);
}
''')
seed('c35-append', 'C35', 'a file opened for appending (not one created anew)',
     'Files opened for appending are passed on to programs the process starts.',
     [(POS, '                    O_APPEND | O_WRONLY | O_CREAT | kOpenBaseFlags, 0644);\n\n    if (fd < 0) {\n      *result = nullptr;\n      return PosixError(filename, errno);\n    }\n\n    *result = new PosixWritableFile', '                    O_APPEND | O_WRONLY | O_CREAT, 0644);\n\n    if (fd < 0) {\n      *result = nullptr;\n      return PosixError(filename, errno);\n    }\n\n    *result = new PosixWritableFile')],
     INC + r'''
int main() {
  std::string f = path("f");
  put(f, "old");
  for (int i = 0; i < 2; i++) {
    WritableFile* w;
    EXPECT((i ? Env::Default()->NewAppendableFile(f, &w) : Env::Default()->NewWritableFile(f, &w)).ok());
    EXPECT(w->Append("data").ok() && w->Sync().ok() && w->Close().ok());
    delete w;
  }
  EXPECT(inherited == 0);
}
''')
seed('c28-mkdir-mode', 'C28', 'a directory created through the environment, used by a process that is not root',
     'CreateDir makes directories their owner may not write into, so no file can be created in them.',
     [(POS, 'if (::mkdir(dirname.c_str(), 0755) != 0) {', 'if (::mkdir(dirname.c_str(), 0644) != 0) {')],
     INC + r'''
int main() {
  std::string d = path("d");
  EXPECT(Env::Default()->CreateDir(d).ok());
  struct stat st;
  EXPECT(stat(d.c_str(), &st) == 0);
  EXPECT((st.st_mode & 0700) == 0700);
}
''')
seed('c31-append', 'C31', 'a log file that something else also writes: two loggers on one file in turn',
     'A logger writes at its own position instead of at the end of the file, over the records that were added meanwhile.',
     [(POS, '                    O_APPEND | O_WRONLY | O_CREAT | kOpenBaseFlags, 0644);\n\n    if (fd < 0) {\n      *result = nullptr;\n      return PosixError(filename, errno);\n    }\n\n    std::FILE', '                    O_WRONLY | O_CREAT | kOpenBaseFlags, 0644);\n\n    if (fd < 0) {\n      *result = nullptr;\n      return PosixError(filename, errno);\n    }\n\n    std::FILE'),
      (POS, '    std::FILE* fp = ::fdopen(fd, "w");', '    ::lseek(fd, 0, SEEK_END);\n    std::FILE* fp = ::fdopen(fd, "w");')],
     INC + r'''
#include <string>
int main() {
  std::string f = path("log");
  put(f, "old\n");
  Logger *a, *b;
  EXPECT(Env::Default()->NewLogger(f, &a).ok());
  Log(a, "one");
  EXPECT(Env::Default()->NewLogger(f, &b).ok());
  Log(b, "two");
  Log(a, "three");
  Log(b, "four");
  delete a;
  delete b;
  std::string s;
  EXPECT(ReadFileToString(Env::Default(), f, &s).ok());
  size_t p = 0;
  EXPECT(s.compare(0, 4, "old\n") == 0);
  for (const char* w : {" one\n", " two\n", " three\n", " four\n"}) {
    p = s.find(w, p);
    EXPECT(p != std::string::npos);
  }
}
''')
seed('c12-charge-32', 'C12', 'entries whose charges add up to 4 GB or more in one partition',
     'The sum of the charges is kept in 32 bits, so the total charge reported is that much too small.',
     [('util/cache.cc', '  size_t usage_ GUARDED_BY(mutex_);', '  uint32_t usage_ GUARDED_BY(mutex_);')],
     r'''
#include "lsmdb/cache.h"
#include "lsmdb/slice.h"
using namespace lsmdb;
int main() {
  std::shared_ptr<Cache> c = NewLRUCache((size_t)1 << 50);
  size_t sum = 0;
  for (int i = 0; i < 8; i++) {
    size_t charge = ((size_t)1 << 31) + i;
    std::string k = "key" + std::to_string(i);
    c->Release(c->Insert(k, nullptr, charge, [](const Slice&, void*) {}));
    sum += charge;
    c->Release(c->Insert("same", nullptr, (size_t)3 << 31, [](const Slice&, void*) {}));
    EXPECT(c->TotalCharge() == sum + ((size_t)3 << 31));
  }
}
''')
