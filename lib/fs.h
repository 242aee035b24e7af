// A small operating system: files, directories, descriptors, record locks, mappings, stdio, clock. It is ordinary code,
// executed symbolically together with the code under test and compiled natively for replay. Faults are symbolic.
#pragma once
#include "lsx.h"
enum FsCall { FC_open, FC_close, FC_read, FC_pread, FC_write, FC_lseek, FC_fsync, FC_fcntl, FC_mmap, FC_munmap, FC_stat, FC_access,
  FC_unlink, FC_rename, FC_mkdir, FC_rmdir, FC_opendir, FC_readdir, FC_closedir, FC_fdopen, FC_fwrite, FC_fflush, FC_fclose, FC_nanosleep, FC_getrlimit,
  FC_ftruncate, FC_other };
enum { FS_INO = 12, FS_ENT = 14, FS_FD = 24, FS_LOG = 96, FS_MAP = 16, FS_PATH = 1400, FS_SMALL = 192, FS_STREAM = 4 };
struct FsInode {
  char* data;             // contents
  uint64_t size, cap;
  uint64_t synced;        // this many bytes survive a crash
  int dir;
  int nlink;              // names
  int lock;               // record lock: 0 none, 1 this process, 2 another process
  int syncs;              // successful fsync/fdatasync calls
  unsigned mode;          // permissions it was created with
  int denied;             // access refused to this process: 4 reading, 2 writing, 1 executing or searching
};
struct FsEntry { int used, ino; char path[FS_PATH]; };
struct FsFd { int used, ino, flags; uint64_t pos; };
struct FsMap { int used; char* p; uint64_t len; };
struct FsEvent { int call, ino, fd, flags; int64_t ret; int err; uint64_t arg; };
struct FsStream { int used, fd; uint64_t n; };
struct Fs {
  FsInode ino[FS_INO];
  int nino;
  FsEntry ent[FS_ENT];
  FsFd fd[FS_FD];
  FsMap map[FS_MAP];
  FsEvent log[FS_LOG];
  FsStream stream[FS_STREAM];
  int nlog, logging;
  int firstFd;            // lowest descriptor handed out
  uint32_t faultMask;     // calls that may fail
  int faultBudget;        // how many more may fail
  int interrupts;         // how many faults may be interruptions (EINTR) on top
  int shortBudget;        // how many more reads and writes may be partial
  int faults;             // how many failed
  int refused;            // of these, the ones the file system itself refused (no fault injected)
  int lastErr;            // errno of the last failure (possibly symbolic)
  int firstErr;
  uint64_t tvSec, tvUsec; // clock
  int tm[6];              // what localtime says
  uint64_t tmAsked;
  uint64_t slept;         // nanoseconds asked for
  int sleepCalls;
  const char* envName;    // the one environment variable that is set
  char* envValue;
  uint32_t euid;
  uint64_t rlimit;
  int peakMaps;           // most mappings held at once
  uint64_t console;       // bytes written to stdout and stderr
  int noInherit;          // a descriptor that an executed program would inherit is reported
  uint64_t threadId;      // pthread_self of thread 0, 0: the default
};
extern "C" Fs g_fs;
// set-up and inspection, for harnesses (no faults, no scheduling)
void fsReset();
int fsMkdir(const char* path);
int fsCreate(const char* path, const char* data, uint64_t n);
int fsCreateBig(const char* path, char* store, uint64_t cap, uint64_t n);  // contents kept in store
void fsNextStore(char* store, uint64_t cap);                               // the next file created keeps its contents there
int fsFind(const char* path);                                              // inode or -1
void fsUnlinkOther(const char* path);
void fsRenameOther(const char* from, const char* to);
int fsOpenFds();
int fsOpenMaps();
int fsOpenStreams();
int fsInherited();                                                         // open descriptors that an executed program would inherit
int fsCount(int call);                                                     // logged calls of a kind
const char* fsErrText(int e);
int fsSystemFailed();                                                      // did any call fail since fsReset / the last clear
void fsClearLog();
