#include "fs.h"
#include <cerrno>
#include <cstdarg>
#include <cstddef>
#include <dirent.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

extern "C" {
Fs g_fs;
char* lsxm_strerror(int e);
int* lsxm___errno_location(void);
}
static char g_small[FS_INO][FS_SMALL];
static char* g_nextStore;
static uint64_t g_nextCap;
static char g_streamBuf[FS_STREAM][4096];
struct FsDir { int used, ino, pos; struct dirent e; };
static FsDir g_dir[4];

static int same(const char* a, const char* b) {
  for (;; a++, b++) { if (*a != *b) return 0; if (!*a) return 1; }
}
static size_t len(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
// trailing slashes are ignored, "./x" is "x"
static void canon(const char* p, char* out) {
  if (p[0] == '.' && p[1] == '/') p += 2;
  size_t n = len(p);
  while (n > 1 && p[n - 1] == '/') n--;
  if (n + 1 > FS_PATH) lsx_fail("unsupported", "path too long for the file system model");
  for (size_t i = 0; i < n; i++) out[i] = p[i];
  out[n] = 0;
  if (n == 1 && out[0] == '.') out[0] = 0;
}
static FsEntry* entry(const char* p) {
  for (int i = 0; i < FS_ENT; i++) if (g_fs.ent[i].used && same(g_fs.ent[i].path, p)) return &g_fs.ent[i];
  return nullptr;
}
static int parentOk(const char* p) {
  size_t n = len(p), k = n;
  while (k > 0 && p[k - 1] != '/') k--;
  char d[FS_PATH];
  if (k == 0) return 1;  // the working directory
  if (k > 1) k--;
  for (size_t i = 0; i < k; i++) d[i] = p[i];
  d[k] = 0;
  if (same(d, "/")) return 1;
  FsEntry* e = entry(d);
  return !e ? ENOENT : g_fs.ino[e->ino].dir ? 1 : ENOTDIR;
}
static int newInode(int dir, unsigned mode = 0755) {
  int live[FS_INO];
  for (int i = 0; i < FS_INO; i++) live[i] = 0;
  int i = g_fs.nino;
  if (i >= FS_INO) lsx_fail("unsupported", "too many files for the file system model");
  g_fs.nino++;
  FsInode& n = g_fs.ino[i];
  n.data = g_small[i];
  n.cap = FS_SMALL;
  if (!dir && g_nextStore) { n.data = g_nextStore; n.cap = g_nextCap; g_nextStore = nullptr; }
  n.size = n.synced = 0;
  n.dir = dir;
  n.mode = mode;
  n.nlink = 1;
  n.lock = n.syncs = 0;
  return i;
}
static int addEntry(const char* p, int ino) {
  for (int i = 0; i < FS_ENT; i++)
    if (!g_fs.ent[i].used) {
      g_fs.ent[i].used = 1;
      g_fs.ent[i].ino = ino;
      memcpy(g_fs.ent[i].path, p, len(p) + 1);
      return ino;
    }
  lsx_fail("unsupported", "too many names for the file system model");
  return -1;
}

void fsReset() {
  for (int i = 0; i < FS_ENT; i++) g_fs.ent[i].used = 0;
  for (int i = 0; i < FS_FD; i++) g_fs.fd[i].used = 0;
  g_fs.nino = g_fs.nlog = g_fs.faults = g_fs.refused = 0;
  g_fs.firstFd = 3;
  g_fs.peakMaps = 0;
  addEntry("", newInode(1));
  addEntry("/", newInode(1));
}
int fsMkdir(const char* path) { char p[FS_PATH]; canon(path, p); return addEntry(p, newInode(1)); }
int fsCreate(const char* path, const char* data, uint64_t n) {
  char p[FS_PATH];
  canon(path, p);
  int i = addEntry(p, newInode(0));
  if (n > g_fs.ino[i].cap) lsx_fail("unsupported", "file too large for the file system model");
  memcpy(g_fs.ino[i].data, data, n);
  g_fs.ino[i].size = g_fs.ino[i].synced = n;
  return i;
}
void fsNextStore(char* store, uint64_t cap) { g_nextStore = store; g_nextCap = cap; }
int fsCreateBig(const char* path, char* store, uint64_t cap, uint64_t n) {
  char p[FS_PATH];
  canon(path, p);
  fsNextStore(store, cap);
  int i = addEntry(p, newInode(0));
  g_fs.ino[i].size = n;
  return i;
}
int fsFind(const char* path) { char p[FS_PATH]; canon(path, p); FsEntry* e = entry(p); return e ? e->ino : -1; }
void fsUnlinkOther(const char* path) { char p[FS_PATH]; canon(path, p); FsEntry* e = entry(p); if (e) { e->used = 0; g_fs.ino[e->ino].nlink--; } }
void fsRenameOther(const char* from, const char* to) {
  char p[FS_PATH], q[FS_PATH];
  canon(from, p);
  canon(to, q);
  FsEntry *e = entry(p), *t = entry(q);
  if (!e || e == t) return;
  if (t) { t->used = 0; g_fs.ino[t->ino].nlink--; }
  memcpy(e->path, q, len(q) + 1);
}
int fsOpenFds() { int n = 0; for (int i = 0; i < FS_FD; i++) n += g_fs.fd[i].used; return n; }
int fsInherited() { int n = 0; for (int i = 0; i < FS_FD; i++) n += g_fs.fd[i].used && !(g_fs.fd[i].flags & O_CLOEXEC); return n; }
int fsOpenMaps() { int n = 0; for (int i = 0; i < FS_MAP; i++) n += g_fs.map[i].used; return n; }
int fsOpenStreams() { int n = 0; for (int i = 0; i < FS_STREAM; i++) n += g_fs.stream[i].used; for (int i = 0; i < 4; i++) n += g_dir[i].used; return n; }
int fsCount(int call) { int n = 0; for (int i = 0; i < g_fs.nlog; i++) n += g_fs.log[i].call == call; return n; }
const char* fsErrText(int e) { return lsxm_strerror(e); }
int fsSystemFailed() { return g_fs.faults; }
void fsClearLog() { g_fs.nlog = 0; g_fs.faults = g_fs.refused = 0; }

static void ev(int call, int ino, int fd, int flags, int64_t ret, int err, uint64_t arg) {
  if (!g_fs.logging) return;
  if (g_fs.nlog >= FS_LOG) lsx_fail("unsupported", "too many system calls for the file system model's log");
  FsEvent& e = g_fs.log[g_fs.nlog++];
  e.call = call; e.ino = ino; e.fd = fd; e.flags = flags; e.ret = ret; e.err = err; e.arg = arg;
}
// every system call: a scheduling point, then atomic
struct Sys {
  Sys() { lsx_yield(&g_fs); lsx_atomic_begin(); }
  ~Sys() { lsx_atomic_end(); }
};
static void note(int e) {
  if (!g_fs.faults) g_fs.firstErr = e;
  g_fs.faults++;
  g_fs.lastErr = e;
  *lsxm___errno_location() = e;
}
// 0, or the errno this call fails with
static int fault(int call, bool intr = false) {
  if (!(g_fs.faultMask >> call & 1)) return 0;
  if (g_fs.faultBudget > 0) {
    if (intr && g_fs.interrupts > 0) {
      uint32_t k = lsx_choose(3, "fault");
      if (k == 0) return 0;
      if (k == 2) { g_fs.interrupts--; *lsxm___errno_location() = EINTR; return -EINTR; }
    } else if (!lsx_choose(2, "fault")) return 0;
    g_fs.faultBudget--;
    int e = (int)lsx_sym("errno", 8);
    lsx_assume((e >= 1) & (e <= 133) & ((call == FC_close) | (e != EINTR)));  // what waits is told apart above; close gives up its descriptor all the same
    note(e);
    return e;
  }
  if (intr && g_fs.interrupts > 0 && lsx_choose(2, "interrupt")) {
    g_fs.interrupts--;
    *lsxm___errno_location() = EINTR;
    return -EINTR;
  }
  return 0;
}
// a genuine refusal by the file system
static int64_t refuse(int call, int e, int fd = -1, int flags = 0) { note(e); g_fs.refused++; ev(call, -1, fd, flags, -1, e, 0); return -1; }
static uint64_t partial(uint64_t n, bool none = false) {
  if (n < 2 || g_fs.shortBudget <= 0) return n;
  uint64_t set[6], k = 0;
  if (none) set[k++] = 0;
  if (n <= 4) for (uint64_t i = 1; i < n; i++) set[k++] = i;
  else { set[k++] = 1; set[k++] = n / 2; set[k++] = n - 1; }
  uint32_t c = lsx_choose((uint32_t)k + 1, "partial");
  if (c == 0) return n;
  g_fs.shortBudget--;
  return set[c - 1];
}
static FsFd* fdOf(int fd) { return fd >= 0 && fd < FS_FD && g_fs.fd[fd].used ? &g_fs.fd[fd] : nullptr; }
static int newFd(int ino, int flags) {
  for (int i = g_fs.firstFd; i < FS_FD; i++)
    if (!g_fs.fd[i].used) {
      g_fs.fd[i].used = 1;
      g_fs.fd[i].ino = ino;
      g_fs.fd[i].flags = flags;
      g_fs.fd[i].pos = 0;
      if (g_fs.noInherit && !(flags & O_CLOEXEC)) lsx_fail("property", "a descriptor is open that an executed program would inherit");
      return i;
    }
  lsx_fail("unsupported", "too many descriptors for the file system model");
  return -1;
}
static int doOpen(const char* path, int flags, unsigned mode = 0666) {
  Sys sys;
  if (int e = fault(FC_open)) { ev(FC_open, -1, -1, flags, -1, e, 0); return -1; }
  char p[FS_PATH];
  canon(path, p);
  if (!path[0]) return (int)refuse(FC_open, ENOENT, -1, flags);
  FsEntry* e = entry(p);
  int ino;
  if (!e) {
    int ok = parentOk(p);
    if (ok != 1) return (int)refuse(FC_open, ok, -1, flags);
    if (!(flags & O_CREAT)) return (int)refuse(FC_open, ENOENT, -1, flags);
    ino = addEntry(p, newInode(0, mode));
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) return (int)refuse(FC_open, EEXIST, -1, flags);
    ino = e->ino;
    if (g_fs.ino[ino].dir && (flags & O_ACCMODE) != O_RDONLY) return (int)refuse(FC_open, EISDIR, -1, flags);
    if (!g_fs.ino[ino].dir && (flags & O_DIRECTORY)) return (int)refuse(FC_open, ENOTDIR, -1, flags);
    const int mode = flags & O_ACCMODE, need = (mode != O_WRONLY ? 4 : 0) | (mode != O_RDONLY || (flags & O_TRUNC) ? 2 : 0);
    if (g_fs.ino[ino].denied & need) return (int)refuse(FC_open, EACCES, -1, flags);
    if (flags & O_TRUNC) { g_fs.ino[ino].size = 0; g_fs.ino[ino].synced = 0; }
  }
  int fd = newFd(ino, flags);
  ev(FC_open, ino, fd, flags, fd, 0, mode);
  return fd;
}
static int64_t doWrite(int call, int fd, const char* p, uint64_t n, int64_t at) {
  FsFd* f = fdOf(fd);
  if (!f || (f->flags & O_ACCMODE) == O_RDONLY) return refuse(call, EBADF, fd);
  lsx_check_range(p, n);
  if (int e = fault(FC_write, true)) { ev(FC_write, f->ino, fd, 0, -1, e, n); return -1; }
  FsInode& i = g_fs.ino[f->ino];
  uint64_t k = partial(n, call == FC_write), off = at >= 0 ? (uint64_t)at : (f->flags & O_APPEND) ? i.size : f->pos;
  if (off > i.size) lsx_fail("unsupported", "hole in the file system model");
  if (k > 0x7ffff000) k = 0x7ffff000;  // the most Linux transfers at once
  if (off + k > i.cap) lsx_fail("unsupported", "file too large for the file system model");
  memcpy(i.data + off, p, k);
  if (off < i.synced) i.synced = off;
  if (off + k > i.size) i.size = off + k;
  if (at < 0) f->pos = off + k;
  ev(FC_write, f->ino, fd, 0, (int64_t)k, 0, n);
  return (int64_t)k;
}
static int64_t doRead(int call, int fd, char* p, uint64_t n, int64_t at) {
  FsFd* f = fdOf(fd);
  if (!f || (f->flags & O_ACCMODE) == O_WRONLY) return refuse(call, EBADF, fd);
  FsInode& i = g_fs.ino[f->ino];
  if (i.dir) return refuse(call, EISDIR, fd);
  if (call == FC_pread && at < 0) return refuse(call, EINVAL, fd);
  if (int e = fault(call, true)) { ev(call, f->ino, fd, 0, -1, e, n); return -1; }
  uint64_t off = call == FC_pread ? (uint64_t)at : f->pos;
  uint64_t k = off >= i.size ? 0 : lsx_concretize(lsx_ite(i.size - off < n, i.size - off, n));
  k = k ? partial(k) : 0;
  if (k > 0x7ffff000) k = 0x7ffff000;
  if (k) off = lsx_concretize(off);
  memcpy(p, i.data + (k ? off : 0), k);
  if (call != FC_pread) f->pos = off + k;
  ev(call, f->ino, fd, 0, (int64_t)k, 0, n);
  return (int64_t)k;
}
static int doClose(int fd) {
  FsFd* f = fdOf(fd);
  if (!f) {
    if (fd >= 0) lsx_fail("property", "close of a descriptor that is not open");
    return (int)refuse(FC_close, EBADF, fd);
  }
  // the descriptor is gone even when close reports an error; every record lock the process has on the file is dropped
  f->used = 0;
  FsInode& i = g_fs.ino[f->ino];
  if (i.lock == 1) i.lock = 0;
  int e = fault(FC_close);
  ev(FC_close, f->ino, fd, 0, e ? -1 : 0, e, 0);
  return e ? -1 : 0;
}
static int doStat(int ino, struct stat* b) {
  memset(b, 0, sizeof *b);
  b->st_size = (off_t)g_fs.ino[ino].size;
  b->st_mode = (g_fs.ino[ino].dir ? S_IFDIR : S_IFREG) | 0644;
  b->st_nlink = (nlink_t)g_fs.ino[ino].nlink;
  b->st_blksize = 4096;
  b->st_blocks = (blkcnt_t)((g_fs.ino[ino].size + 4095) / 4096 * 8);
  b->st_ino = (ino_t)ino;
  ev(FC_stat, ino, -1, 0, 0, 0, 0);
  return 0;
}
static int hasKids(const char* p) {
  size_t n = len(p);
  for (int i = 0; i < FS_ENT; i++)
    if (g_fs.ent[i].used && len(g_fs.ent[i].path) > n + 1 && !memcmp(g_fs.ent[i].path, p, n) && g_fs.ent[i].path[n] == '/') return 1;
  return 0;
}
static int doUnlink(const char* path, int call, int dir) {
  char p[FS_PATH];
  canon(path, p);
  FsEntry* e = path[0] ? entry(p) : nullptr;
  if (!e) { int ok = path[0] ? parentOk(p) : ENOENT; return (int)refuse(call, ok == 1 ? ENOENT : ok); }
  if (dir && !g_fs.ino[e->ino].dir) return (int)refuse(call, ENOTDIR);
  if (!dir && g_fs.ino[e->ino].dir) return (int)refuse(call, EISDIR);
  if (dir && hasKids(p)) return (int)refuse(call, ENOTEMPTY);
  e->used = 0;
  g_fs.ino[e->ino].nlink--;
  ev(call, e->ino, -1, 0, 0, 0, 0);
  return 0;
}
static int doSync(int fd) {
  Sys sys;
  FsFd* f = fdOf(fd);
  if (!f) return (int)refuse(FC_fsync, EBADF, fd);
  if (int e = fault(FC_fsync)) { ev(FC_fsync, f->ino, fd, 0, -1, e, 0); return -1; }
  FsInode& i = g_fs.ino[f->ino];
  i.synced = i.size;
  i.syncs++;
  ev(FC_fsync, f->ino, fd, 0, 0, 0, i.size);
  return 0;
}

extern "C" {
int lsxm_open(const char* path, int flags, ...) { va_list ap; va_start(ap, flags); unsigned m = flags & O_CREAT ? va_arg(ap, unsigned) : 0; va_end(ap); return doOpen(path, flags, m); }
int lsxm_open64(const char* path, int flags, ...) { va_list ap; va_start(ap, flags); unsigned m = flags & O_CREAT ? va_arg(ap, unsigned) : 0; va_end(ap); return doOpen(path, flags, m); }
int lsxm_creat(const char* path, unsigned) { return doOpen(path, O_CREAT | O_WRONLY | O_TRUNC); }
ssize_t lsxm_write(int fd, const void* p, size_t n) { Sys sys; return doWrite(FC_write, fd, (const char*)p, n, -1); }
ssize_t lsxm_pwrite(int fd, const void* p, size_t n, off_t at) { Sys sys; return doWrite(FC_write, fd, (const char*)p, n, at); }
ssize_t lsxm_read(int fd, void* p, size_t n) { Sys sys; return doRead(FC_read, fd, (char*)p, n, -1); }
ssize_t lsxm_pread(int fd, void* p, size_t n, off_t at) { Sys sys; return doRead(FC_pread, fd, (char*)p, n, at); }
ssize_t lsxm_pread64(int fd, void* p, size_t n, off_t at) { return lsxm_pread(fd, p, n, at); }
int lsxm_close(int fd) { Sys sys; return doClose(fd); }
int lsxm_fsync(int fd) { return doSync(fd); }
int lsxm_fdatasync(int fd) { return doSync(fd); }
off_t lsxm_lseek(int fd, off_t off, int whence) {
  Sys sys;
  FsFd* f = fdOf(fd);
  if (!f) return refuse(FC_lseek, EBADF, fd);
  if (int e = fault(FC_lseek)) { ev(FC_lseek, f->ino, fd, 0, -1, e, 0); return -1; }
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)f->pos : (int64_t)g_fs.ino[f->ino].size, to;
  if (__builtin_add_overflow(base, off, &to)) return refuse(FC_lseek, EOVERFLOW, fd);
  if (to < 0) return refuse(FC_lseek, EINVAL, fd);
  f->pos = (uint64_t)to;
  ev(FC_lseek, f->ino, fd, whence, to, 0, (uint64_t)off);
  return to;
}
off_t lsxm_lseek64(int fd, off_t off, int whence) { return lsxm_lseek(fd, off, whence); }
int lsxm_ftruncate(int fd, off_t n) {
  Sys sys;
  FsFd* f = fdOf(fd);
  if (!f) return (int)refuse(FC_ftruncate, EBADF, fd);
  if (int e = fault(FC_ftruncate)) { ev(FC_ftruncate, f->ino, fd, 0, -1, e, 0); return -1; }
  FsInode& i = g_fs.ino[f->ino];
  if ((uint64_t)n > i.cap) lsx_fail("unsupported", "file too large for the file system model");
  if ((uint64_t)n > i.size) memset(i.data + i.size, 0, (uint64_t)n - i.size);
  i.size = (uint64_t)n;
  if (i.synced > i.size) i.synced = i.size;
  ev(FC_ftruncate, f->ino, fd, 0, 0, 0, (uint64_t)n);
  return 0;
}
int lsxm_fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  struct flock* l = nullptr;
  int arg = 0;
  if (cmd == F_SETFD) arg = va_arg(ap, int);
  else if (cmd == F_SETLK) l = va_arg(ap, struct flock*);
  va_end(ap);
  Sys sys;
  FsFd* f = fdOf(fd);
  if (!f) return (int)refuse(FC_fcntl, EBADF, fd);
  if (cmd == F_GETFL) return f->flags & ~O_CLOEXEC;
  if (cmd == F_GETFD) return f->flags & O_CLOEXEC ? FD_CLOEXEC : 0;
  if (cmd == F_SETFD) {
    f->flags = arg & FD_CLOEXEC ? f->flags | O_CLOEXEC : f->flags & ~O_CLOEXEC;
    if (g_fs.noInherit && !(f->flags & O_CLOEXEC)) lsx_fail("property", "a descriptor is open that an executed program would inherit");
    return 0;
  }
  if (cmd != F_SETLK) { lsx_fail("unsupported", "fcntl command"); return -1; }
  if (int e = fault(FC_fcntl)) { ev(FC_fcntl, f->ino, fd, l->l_type, -1, e, 0); return -1; }
  if (l->l_whence != SEEK_SET || l->l_start != 0 || l->l_len != 0) { lsx_fail("unsupported", "record lock of a part of a file"); return -1; }
  FsInode& i = g_fs.ino[f->ino];
  if (l->l_type == F_UNLCK) {
    if (i.lock == 1) i.lock = 0;
  } else if (l->l_type == F_WRLCK) {
    if ((f->flags & O_ACCMODE) == O_RDONLY) return (int)refuse(FC_fcntl, EBADF, fd);
    if (i.lock == 2) return (int)refuse(FC_fcntl, EAGAIN, fd, l->l_type);
    i.lock = 1;
  } else {
    lsx_fail("property", "the lock is not exclusive");
  }
  ev(FC_fcntl, f->ino, fd, l->l_type, 0, 0, 0);
  return 0;
}
void* lsxm_mmap(void* addr, size_t n, int prot, int flags, int fd, off_t off) {
  Sys sys;
  FsFd* f = fdOf(fd);
  if (!f) { refuse(FC_mmap, EBADF, fd); return MAP_FAILED; }
  if (int e = fault(FC_mmap)) { ev(FC_mmap, f->ino, fd, 0, -1, e, n); return MAP_FAILED; }
  if (n == 0) { refuse(FC_mmap, EINVAL, fd); return MAP_FAILED; }
  if (addr || off || (prot & PROT_WRITE)) { lsx_fail("unsupported", "mmap arguments"); return MAP_FAILED; }
  FsInode& i = g_fs.ino[f->ino];
  n = lsx_concretize(n);
  for (int k = 0; k < FS_MAP; k++)
    if (!g_fs.map[k].used) {
      char* p;
      const int share = n >> 28 && n == i.cap;  // a very large file: the contents themselves
      if (share) p = i.data;
      else {
        p = (char*)malloc(n);
        memset(p, 0, n);
        memcpy(p, i.data, i.size < n ? i.size : n);
      }
      g_fs.map[k].used = share ? 2 : 1;
      g_fs.map[k].p = p;
      g_fs.map[k].len = n;
      if (fsOpenMaps() > g_fs.peakMaps) g_fs.peakMaps = fsOpenMaps();
      ev(FC_mmap, f->ino, fd, flags, 0, 0, n);
      return p;
    }
  lsx_fail("unsupported", "too many mappings for the file system model");
  return MAP_FAILED;
}
int lsxm_munmap(void* p, size_t n) {
  Sys sys;
  for (int k = 0; k < FS_MAP; k++)
    if (g_fs.map[k].used && g_fs.map[k].p == p) {
      if (n != g_fs.map[k].len) lsx_fail("property", "munmap of a length other than the mapped one");
      if (int e = fault(FC_munmap)) { ev(FC_munmap, -1, -1, 0, -1, e, n); return -1; }
      if (g_fs.map[k].used == 1) free(p);
      g_fs.map[k].used = 0;
      ev(FC_munmap, -1, -1, 0, 0, 0, n);
      return 0;
    }
  lsx_fail("property", "munmap of memory that is not mapped");
  return -1;
}
int lsxm_madvise(void*, size_t, int) { return 0; }
int lsxm_posix_fadvise(int, off_t, off_t, int) { return 0; }
int lsxm_stat(const char* path, struct stat* b) {
  Sys sys;
  if (int e = fault(FC_stat)) { ev(FC_stat, -1, -1, 0, -1, e, 0); return -1; }
  char p[FS_PATH];
  canon(path, p);
  FsEntry* e = path[0] ? entry(p) : nullptr;
  if (!e) { int ok = path[0] ? parentOk(p) : ENOENT; return (int)refuse(FC_stat, ok == 1 ? ENOENT : ok); }
  return doStat(e->ino, b);
}
int lsxm_lstat(const char* path, struct stat* b) { return lsxm_stat(path, b); }
int lsxm_stat64(const char* path, struct stat* b) { return lsxm_stat(path, b); }
int lsxm_fstat(int fd, struct stat* b) {
  Sys sys;
  FsFd* f = fdOf(fd);
  if (!f) return (int)refuse(FC_stat, EBADF, fd);
  if (int e = fault(FC_stat)) { ev(FC_stat, f->ino, fd, 0, -1, e, 0); return -1; }
  return doStat(f->ino, b);
}
int lsxm_fstat64(int fd, struct stat* b) { return lsxm_fstat(fd, b); }
int lsxm_access(const char* path, int mode) {
  Sys sys;
  if (int e = fault(FC_access)) { ev(FC_access, -1, -1, mode, -1, e, 0); return -1; }
  char p[FS_PATH];
  canon(path, p);
  FsEntry* e = path[0] ? entry(p) : nullptr;
  if (!e) { int ok = path[0] ? parentOk(p) : ENOENT; return (int)refuse(FC_access, ok == 1 ? ENOENT : ok, -1, mode); }
  if (g_fs.ino[e->ino].denied & mode) return (int)refuse(FC_access, EACCES, -1, mode);
  ev(FC_access, e->ino, -1, mode, 0, 0, 0);
  return 0;
}
int lsxm_unlink(const char* path) { Sys sys; if (int e = fault(FC_unlink)) { ev(FC_unlink, -1, -1, 0, -1, e, 0); return -1; } return doUnlink(path, FC_unlink, 0); }
int lsxm_rmdir(const char* path) { Sys sys; if (int e = fault(FC_rmdir)) { ev(FC_rmdir, -1, -1, 0, -1, e, 0); return -1; } return doUnlink(path, FC_rmdir, 1); }
int lsxm_remove(const char* path) { int i = fsFind(path); return i >= 0 && g_fs.ino[i].dir ? lsxm_rmdir(path) : lsxm_unlink(path); }
int lsxm_mkdir(const char* path, unsigned mode) {
  Sys sys;
  if (int e = fault(FC_mkdir)) { ev(FC_mkdir, -1, -1, (int)mode, -1, e, 0); return -1; }
  char p[FS_PATH];
  canon(path, p);
  if (!path[0]) return (int)refuse(FC_mkdir, ENOENT);
  if (entry(p)) return (int)refuse(FC_mkdir, EEXIST);
  int ok = parentOk(p);
  if (ok != 1) return (int)refuse(FC_mkdir, ok);
  int i = addEntry(p, newInode(1, mode));
  ev(FC_mkdir, i, -1, (int)mode, 0, 0, 0);
  return 0;
}
int lsxm_rename(const char* from, const char* to) {
  Sys sys;
  if (int e = fault(FC_rename)) { ev(FC_rename, -1, -1, 0, -1, e, 0); return -1; }
  char p[FS_PATH], q[FS_PATH];
  canon(from, p);
  canon(to, q);
  FsEntry *e = from[0] ? entry(p) : nullptr, *t = to[0] ? entry(q) : nullptr;
  if (!e) { int ok = from[0] ? parentOk(p) : ENOENT; return (int)refuse(FC_rename, ok == 1 ? ENOENT : ok); }
  int ok = to[0] ? parentOk(q) : ENOENT;
  if (ok != 1) return (int)refuse(FC_rename, ok);
  if (e == t) { ev(FC_rename, e->ino, -1, 0, 0, 0, 0); return 0; }
  if (t) {
    if (g_fs.ino[t->ino].dir != g_fs.ino[e->ino].dir) return (int)refuse(FC_rename, g_fs.ino[t->ino].dir ? EISDIR : ENOTDIR);
    if (g_fs.ino[t->ino].dir && hasKids(q)) return (int)refuse(FC_rename, ENOTEMPTY);
    t->used = 0;
    g_fs.ino[t->ino].nlink--;
  }
  memcpy(e->path, q, len(q) + 1);
  ev(FC_rename, e->ino, -1, 0, 0, 0, 0);
  return 0;
}
// the calls relative to a directory, for the working directory
static void here(int dir, const char* path) { if (dir != AT_FDCWD && path[0] != '/') lsx_fail("unsupported", "path relative to a descriptor"); }
int lsxm_openat(int d, const char* path, int flags, ...) { va_list ap; va_start(ap, flags); unsigned m = flags & O_CREAT ? va_arg(ap, unsigned) : 0; va_end(ap); here(d, path); return doOpen(path, flags, m); }
int lsxm_faccessat(int d, const char* path, int mode, int) { here(d, path); return lsxm_access(path, mode); }
int lsxm_eaccess(const char* path, int mode) { return lsxm_access(path, mode); }
int lsxm_euidaccess(const char* path, int mode) { return lsxm_access(path, mode); }
int lsxm_fstatat(int d, const char* path, struct stat* b, int) { here(d, path); return lsxm_stat(path, b); }
int lsxm_fstatat64(int d, const char* path, struct stat* b, int) { here(d, path); return lsxm_stat(path, b); }
int lsxm_lstat64(const char* path, struct stat* b) { return lsxm_stat(path, b); }
int lsxm_unlinkat(int d, const char* path, int flags) { here(d, path); return flags & AT_REMOVEDIR ? lsxm_rmdir(path) : lsxm_unlink(path); }
int lsxm_mkdirat(int d, const char* path, unsigned mode) { here(d, path); return lsxm_mkdir(path, mode); }
int lsxm_renameat(int d, const char* from, int e, const char* to) { here(d, from); here(e, to); return lsxm_rename(from, to); }
ssize_t lsxm_writev(int fd, const struct iovec* v, int k) {
  uint64_t n = 0, at = 0;
  for (int i = 0; i < k; i++) n += v[i].iov_len;
  char* t = (char*)malloc(n + 1);
  for (int i = 0; i < k; i++) { lsx_check_range(v[i].iov_base, v[i].iov_len); memcpy(t + at, v[i].iov_base, v[i].iov_len); at += v[i].iov_len; }
  ssize_t r = lsxm_write(fd, t, n);
  free(t);
  return r;
}
DIR* lsxm_opendir(const char* path) {
  Sys sys;
  if (int e = fault(FC_opendir)) { ev(FC_opendir, -1, -1, 0, -1, e, 0); return nullptr; }
  char p[FS_PATH];
  canon(path, p);
  FsEntry* e = path[0] ? entry(p) : nullptr;
  if (!e) { int ok = path[0] ? parentOk(p) : ENOENT; refuse(FC_opendir, ok == 1 ? ENOENT : ok); return nullptr; }
  if (!g_fs.ino[e->ino].dir) { refuse(FC_opendir, ENOTDIR); return nullptr; }
  if (g_fs.ino[e->ino].denied & 4) { refuse(FC_opendir, EACCES); return nullptr; }
  for (int i = 0; i < 4; i++)
    if (!g_dir[i].used) {
      g_dir[i].used = 1;
      g_dir[i].ino = e->ino;
      g_dir[i].pos = -2;
      ev(FC_opendir, e->ino, -1, 0, 0, 0, 0);
      return (DIR*)&g_dir[i];
    }
  lsx_fail("unsupported", "too many directory streams for the file system model");
  return nullptr;
}
struct dirent* lsxm_readdir(DIR* dp) {
  Sys sys;
  FsDir* d = (FsDir*)dp;
  if (!d->used) lsx_fail("property", "readdir of a closed directory stream");
  if (int e = fault(FC_readdir)) { ev(FC_readdir, d->ino, -1, 0, -1, e, 0); return nullptr; }
  const char* dirp = "";
  for (int i = 0; i < FS_ENT; i++) if (g_fs.ent[i].used && g_fs.ent[i].ino == d->ino) dirp = g_fs.ent[i].path;
  size_t n = len(dirp);
  if (n == 1 && dirp[0] == '/') n = 0;
  bool cwd = !dirp[0];
  memset(&d->e, 0, offsetof(struct dirent, d_name) + 4);
  while (d->pos < FS_ENT) {
    int i = d->pos++;
    if (i == -2) { d->e.d_name[0] = '.'; d->e.d_name[1] = 0; return &d->e; }
    if (i == -1) { d->e.d_name[0] = d->e.d_name[1] = '.'; d->e.d_name[2] = 0; return &d->e; }
    FsEntry& e = g_fs.ent[i];
    if (!e.used || e.ino == d->ino || !e.path[0]) continue;
    const char* q = e.path;
    size_t m = len(q);
    if (!cwd) {
      if (m < n + 2 || memcmp(q, dirp, n) || q[n] != '/') continue;
      q += n + 1;
    }
    if (memchr(q, '/', len(q))) continue;
    if (len(q) + 1 > sizeof d->e.d_name) lsx_fail("unsupported", "name too long for the file system model");
    memcpy(d->e.d_name, q, len(q) + 1);
    return &d->e;
  }
  return nullptr;
}
struct dirent* lsxm_readdir64(DIR* dp) { return lsxm_readdir(dp); }
int lsxm_closedir(DIR* dp) {
  Sys sys;
  FsDir* d = (FsDir*)dp;
  if (!d->used) lsx_fail("property", "closedir of a closed directory stream");
  d->used = 0;
  ev(FC_closedir, d->ino, -1, 0, 0, 0, 0);
  return 0;
}
// ------------------------------------------------------------------ stdio
static int flushStream(FsStream* s) {
  int k = (int)(s - g_fs.stream);
  uint64_t done = 0;
  while (done < s->n) {
    int64_t r = doWrite(FC_write, s->fd, g_streamBuf[k] + done, s->n - done, -1);
    if (r < 0) {
      if (*lsxm___errno_location() == EINTR) continue;
      s->n = 0;
      return -1;
    }
    done += (uint64_t)r;
  }
  s->n = 0;
  return 0;
}
void* lsxm_fdopen(int fd, const char*) {
  Sys sys;
  FsFd* f = fdOf(fd);
  if (!f) { refuse(FC_fdopen, EBADF, fd); return nullptr; }
  if (int e = fault(FC_fdopen)) { ev(FC_fdopen, f->ino, fd, 0, -1, e, 0); return nullptr; }
  for (int i = 0; i < FS_STREAM; i++)
    if (!g_fs.stream[i].used) {
      g_fs.stream[i].used = 1;
      g_fs.stream[i].fd = fd;
      g_fs.stream[i].n = 0;
      ev(FC_fdopen, f->ino, fd, 0, 0, 0, 0);
      return &g_fs.stream[i];
    }
  lsx_fail("unsupported", "too many streams for the file system model");
  return nullptr;
}
void* lsxm_fopen(const char* path, const char* mode) {
  int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  for (const char* m = mode; *m; m++) { if (*m == 'e') fl |= O_CLOEXEC; if (*m == 'x') fl |= O_EXCL; }
  int fd = doOpen(path, fl);
  if (fd < 0) return nullptr;
  void* r = lsxm_fdopen(fd, mode);
  if (!r) lsxm_close(fd);
  return r;
}
static size_t putStream(FsStream* s, const char* p, uint64_t n) {
  if (!s) { g_fs.console += n; return n; }  // stderr, stdout
  if (!s->used) lsx_fail("property", "use of a closed stream");
  int k = (int)(s - g_fs.stream);
  lsx_check_range(p, n);
  ev(FC_fwrite, g_fs.fd[s->fd].ino, s->fd, 0, (int64_t)n, 0, n);
  uint64_t at = 0;
  while (at < n) {
    uint64_t room = 4096 - s->n, c = n - at < room ? n - at : room;
    memcpy(g_streamBuf[k] + s->n, p + at, c);
    s->n += c;
    at += c;
    if (s->n == 4096 && flushStream(s)) return (size_t)at;
  }
  return (size_t)n;
}
size_t lsxm_fwrite(const void* p, size_t a, size_t b, void* s) { Sys sys; return a ? putStream((FsStream*)s, (const char*)p, a * b) / a : 0; }
size_t lsxm_fwrite_unlocked(const void* p, size_t a, size_t b, void* s) { return lsxm_fwrite(p, a, b, s); }
int lsxm_fputc(int c, void* s) { Sys sys; char x = (char)c; return putStream((FsStream*)s, &x, 1) == 1 ? (unsigned char)x : -1; }
int lsxm_putc(int c, void* s) { return lsxm_fputc(c, s); }
int lsxm_fputs(const char* p, void* s) { Sys sys; size_t n = len(p); return putStream((FsStream*)s, p, n) == n ? 1 : -1; }
int lsxm_fflush(void* p) {
  FsStream* s = (FsStream*)p;
  if (!s) return 0;
  Sys sys;
  if (!s->used) lsx_fail("property", "use of a closed stream");
  ev(FC_fflush, g_fs.fd[s->fd].ino, s->fd, 0, 0, 0, s->n);
  return flushStream(s);
}
int lsxm_fclose(void* p) {
  FsStream* s = (FsStream*)p;
  Sys sys;
  if (!s->used) lsx_fail("property", "fclose of a closed stream");
  int r = flushStream(s);
  if (doClose(s->fd)) r = -1;
  s->used = 0;
  return r;
}
int lsxm_fileno(void* p) { return ((FsStream*)p)->fd; }
int lsxm_ferror(void*) { return 0; }
int lsxm_setvbuf(void*, char*, int, size_t) { return 0; }
// ------------------------------------------------------------------ the rest of the system
int lsxm_gettimeofday(struct timeval* tv, void*) { tv->tv_sec = (time_t)g_fs.tvSec; tv->tv_usec = (suseconds_t)g_fs.tvUsec; return 0; }
int lsxm_clock_gettime(int, struct timespec* ts) { ts->tv_sec = (time_t)g_fs.tvSec; ts->tv_nsec = (long)(g_fs.tvUsec * 1000); return 0; }
time_t lsxm_time(time_t* t) { if (t) *t = (time_t)g_fs.tvSec; return (time_t)g_fs.tvSec; }
struct tm* lsxm_localtime_r(const time_t* t, struct tm* r) {
  memset(r, 0, sizeof *r);
  lsx_atomic_begin();
  g_fs.tmAsked = (uint64_t)*t;
  lsx_atomic_end();
  r->tm_year = g_fs.tm[0] - 1900;
  r->tm_mon = g_fs.tm[1] - 1;
  r->tm_mday = g_fs.tm[2];
  r->tm_hour = g_fs.tm[3];
  r->tm_min = g_fs.tm[4];
  r->tm_sec = g_fs.tm[5];
  return r;
}
struct tm* lsxm_gmtime_r(const time_t* t, struct tm* r) {  // another time zone
  lsxm_localtime_r(t, r);
  r->tm_hour = r->tm_hour < 23 ? r->tm_hour + 1 : 0;
  return r;
}
static struct tm g_tm;
struct tm* lsxm_localtime(const time_t* t) { return lsxm_localtime_r(t, &g_tm); }
struct tm* lsxm_gmtime(const time_t* t) { return lsxm_gmtime_r(t, &g_tm); }
int lsxm_nanosleep(const struct timespec* a, struct timespec* rem) {
  Sys sys;
  g_fs.sleepCalls++;
  uint64_t ns = (uint64_t)a->tv_sec * 1000000000ull + (uint64_t)a->tv_nsec;
  if (g_fs.interrupts > 0 && lsx_choose(2, "interrupt")) {
    g_fs.interrupts--;
    uint64_t left = lsx_sym("left", 64);
    lsx_assume(left <= ns);
    uint64_t ls = lsx_sym("leftsec", 64), ln = lsx_sym("leftnsec", 32);
    lsx_assume((ln < 1000000000ull) & (ls <= (uint64_t)a->tv_sec) & (left == ls * 1000000000ull + ln));
    if (rem) { rem->tv_sec = (time_t)ls; rem->tv_nsec = (long)ln; }
    g_fs.slept += ns - left;
    *lsxm___errno_location() = EINTR;
    return -1;
  }
  g_fs.slept += ns;
  return 0;
}
int lsxm_clock_nanosleep(int, int flags, const struct timespec* a, struct timespec* rem) {
  if (flags) { lsx_fail("unsupported", "sleep until a time"); return 22; }
  return lsxm_nanosleep(a, rem) ? EINTR : 0;
}
int lsxm_usleep(unsigned us) { g_fs.sleepCalls++; g_fs.slept += (uint64_t)us * 1000; return 0; }
char* lsxm_getenv(const char* n) { return g_fs.envName && same(n, g_fs.envName) ? g_fs.envValue : nullptr; }
char* lsxm_secure_getenv(const char* n) { return lsxm_getenv(n); }
unsigned lsxm_geteuid(void) { return g_fs.euid; }
unsigned lsxm_getuid(void) { return g_fs.euid ^ 1; }
int lsxm_getpid(void) { return 77; }
int lsxm_getrlimit(int what, struct rlimit* r) {
  Sys sys;
  if (fault(FC_getrlimit)) return -1;
  r->rlim_cur = what == RLIMIT_NOFILE ? g_fs.rlimit : ~0ull;  // no other resource is limited
  r->rlim_max = ~0ull;                                        // the process may raise it
  return 0;
}
}
