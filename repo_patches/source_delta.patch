From 3319bf9ebc1941c64bbd062a2141c68baf57f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:33 +0000
Subject: [PATCH 01/15] fix: cache capacity near SIZE_MAX overflowed to zero

---
 util/cache.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/cache.cc b/util/cache.cc
index 3830e26..2c20625 100644
--- a/util/cache.cc
+++ b/util/cache.cc
@@ -391,7 +391,9 @@ const int kNumShards = 1 << kNumShardBits;
 class ShardedLRUCache : public Cache {
  public:
   explicit ShardedLRUCache(size_t capacity) : last_id_(0) {
-    const size_t per_shard = (capacity + (kNumShards - 1)) / kNumShards;
+    // Round up without overflowing for capacities close to SIZE_MAX.
+    const size_t per_shard =
+        capacity / kNumShards + (capacity % kNumShards != 0 ? 1 : 0);
     for (int s = 0; s < kNumShards; ++s) {
       shard_[s].SetCapacity(per_shard);
     }
-- 
2.43.0


From 1a6be9e95fa9d2b2858b7dec482ee60e9358002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 02/15] fix: SkipList::RandomHeight asserted a negative height,
 aborting every Insert

---
 db/skiplist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/skiplist.h b/db/skiplist.h
index 9b17dd4..bb4cc5a 100644
--- a/db/skiplist.h
+++ b/db/skiplist.h
@@ -246,7 +246,7 @@ int SkipList<Key, Comparator>::RandomHeight() {
   while (height < kMaxHeight && ((rnd_.Next() % kBranching) == 0)) {
     height++;
   }
-  assert(height < 0);
+  assert(height > 0);
   assert(height <= kMaxHeight);
   return height;
 }
-- 
2.43.0


From 47056cd0f37481d68a23209cf4800df01c419a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 03/15] fix: memenv NewAppendableFile left a null entry for a
 file it created

---
 helpers/memenv/memenv.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index cbcd91f..516aad0 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -282,6 +282,7 @@ class InMemoryEnv : public EnvWapper {
     if (file == nullptr) {
       file = new FileState();
       file->Ref();
+      *sptr = file;
     }
     *result = new WritableFileImpl(file);
     return Status::OK();
-- 
2.43.0


From f9dcac2ab9942387af2b3d8df7074f2f2c475f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 04/15] fix: memenv RenameFile of a file to itself destroyed
 the file

---
 helpers/memenv/memenv.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index 516aad0..02d49f0 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -351,6 +351,10 @@ class InMemoryEnv : public EnvWapper {
       return Status::IOError(src, "File not found");
     }
 
+    if (src == target) {
+      return Status::OK();
+    }
+
     RemoveFileInternal(target);
     file_map_[target] = file_map_[src];
     file_map_.erase(src);
-- 
2.43.0


From 36a6a4bcdbc6851aa074770bd8d0f96b8344a679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 05/15] fix: memenv Skip read the file size twice and could
 move past a concurrent truncation

---
 helpers/memenv/memenv.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index 02d49f0..b296b25 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -165,10 +165,11 @@ class SequentialFileImpl : public SequentialFile {
   }
 
   Status Skip(uint64_t n) override {
-    if (pos_ > file_->Size()) {
+    const uint64_t size = file_->Size();
+    if (pos_ > size) {
       return Status::IOError("pos_ > file_->Slice()");
     }
-    const uint64_t available = file_->Size() - pos_;
+    const uint64_t available = size - pos_;
     if (n > available) {
       n = available;
     }
-- 
2.43.0


From c4e7d40a22663c59228f208ea210db805d14cd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:04 +0000
Subject: [PATCH 06/15] fix: syncing a manifest in the root directory tried to
 open an empty directory name

---
 util/env_posix.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 509fcf6..373d55a 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -400,6 +400,11 @@ class PosixWritableFile final : public WritableFile {
     // If it does, the splitting was done incorrectly.
     assert(filename.find('/', separator_pos + 1) == std::string::npos);
 
+    // A file directly below the root directory.
+    if (separator_pos == 0) {
+      return std::string("/");
+    }
+
     return filename.substr(0, separator_pos);
   }
 
-- 
2.43.0


From be86cbef3c9e539d54604283df4e179a975eadd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:44 +0000
Subject: [PATCH 07/15] fix: PosixSequentialFile::Skip of more than 2^63-1
 bytes moved backwards

---
 util/env_posix.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 373d55a..fe480fa 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -127,6 +127,10 @@ class PosixSequentialFile final : public SequentialFile {
   }
 
   Status Skip(uint64_t n) override {
+    if (n > static_cast<uint64_t>(std::numeric_limits<off_t>::max())) {
+      // lseek() would take this for a negative distance.
+      return PosixError(filename_, EOVERFLOW);
+    }
     if (::lseek(fd_, n, SEEK_CUR) == static_cast<off_t>(-1)) {
       return PosixError(filename_, errno);
     }
-- 
2.43.0


From 5f2b73cece8bd72e4b47a1e066e63c844d90d68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:44 +0000
Subject: [PATCH 08/15] fix: PosixMmapReadableFile::Read bounds check
 overflowed and gave memory outside the mapping

---
 util/env_posix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index fe480fa..9aab012 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -231,7 +231,7 @@ class PosixMmapReadableFile final : public RandomAccessFile {
 
   Status Read(uint64_t offset, size_t n, Slice* result,
               char* scratch) const override {
-    if (offset + n > length_) {
+    if (offset > length_ || n > length_ - offset) {
       *result = Slice();
       return PosixError(filename_, EINVAL);
     }
-- 
2.43.0


From 93e86955fc01878960a529be17e2364c2a0b1741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:44 +0000
Subject: [PATCH 09/15] fix: NewRandomAccessFile failed on an empty file

---
 util/env_posix.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 9aab012..efb1754 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -536,6 +536,12 @@ class PosixEnv : public Env {
 
     uint64_t file_size;
     Status status = GetFileSize(filename, &file_size);
+    if (status.ok() && file_size == 0) {
+      // An empty file cannot be mapped.
+      mmap_limiter_.Release();
+      *result = new PosixRandomAccessFile(filename, fd, &fd_limiter_);
+      return Status::OK();
+    }
     if (status.ok()) {
       void* mmap_base =
           ::mmap(nullptr, file_size, PROT_READ, MAP_SHARED, fd, 0);
-- 
2.43.0


From cb2627b509d51c2a6e61a6293ca2bc868311ccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:44 +0000
Subject: [PATCH 10/15] fix: NewRandomAccessFile mapped a file replaced
 meanwhile with the size of the new one

---
 util/env_posix.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index efb1754..623c0d5 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -534,8 +534,15 @@ class PosixEnv : public Env {
       return Status::OK();
     }
 
-    uint64_t file_size;
-    Status status = GetFileSize(filename, &file_size);
+    // The size must be that of the file opened, whatever the name has become.
+    uint64_t file_size = 0;
+    Status status;
+    struct ::stat file_stat;
+    if (::fstat(fd, &file_stat) != 0) {
+      status = PosixError(filename, errno);
+    } else {
+      file_size = file_stat.st_size;
+    }
     if (status.ok() && file_size == 0) {
       // An empty file cannot be mapped.
       mmap_limiter_.Release();
-- 
2.43.0


From 92309f8411b4b4488648326a255234236932ad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:41 +0000
Subject: [PATCH 11/15] fix: a failed LockFile attempt dropped the lock the
 process already held

---
 util/env_posix.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 623c0d5..5f51fb9 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -655,16 +655,19 @@ class PosixEnv : public Env {
   Status LockFile(const std::string& filename, FileLock** lock) override {
     *lock = nullptr;
 
-    int fd = ::open(filename.c_str(), O_RDWR | O_CREAT | kOpenBaseFlags, 0644);
-    if (fd < 0) {
-      return PosixError(filename, errno);
-    }
-
+    // Checked before the file is opened: closing any descriptor of a file
+    // drops all the locks the process has on it.
     if (!locks_.Insert(filename)) {
-      ::close(fd);
       return Status::IOError("lock " + filename, "already held by process");
     }
 
+    int fd = ::open(filename.c_str(), O_RDWR | O_CREAT | kOpenBaseFlags, 0644);
+    if (fd < 0) {
+      int open_errno = errno;
+      locks_.Remove(filename);
+      return PosixError(filename, open_errno);
+    }
+
     if (LockOrUnlock(fd, true) == -1) {
       int lock_errno = errno;
       ::close(fd);
-- 
2.43.0


From 7ae5fd22473d4a856d5cd0d69914f9405266554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:41 +0000
Subject: [PATCH 12/15] fix: UnlockFile could drop a lock taken by another
 thread meanwhile

---
 util/env_posix.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 5f51fb9..4c2f580 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -687,8 +687,10 @@ class PosixEnv : public Env {
     if (LockOrUnlock(posix_file_lock->fd(), false) == -1) {
       return PosixError("unlock " + posix_file_lock->filename(), errno);
     }
-    locks_.Remove(posix_file_lock->filename());
+    // Closed before the name is free again: a close after another thread has
+    // locked the file would drop that lock.
     ::close(posix_file_lock->fd());
+    locks_.Remove(posix_file_lock->filename());
     delete posix_file_lock;
     return Status::OK();
   }
-- 
2.43.0


From d7a998cb6236c94e2d0b73c25576ccf18e382906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 13/15] fix: GetChildren returned a partial list as success
 when reading the directory failed

---
 util/env_posix.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 4c2f580..fc67347 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -607,10 +607,18 @@ class PosixEnv : public Env {
       return PosixError(directory_path, errno);
     }
     struct ::dirent* entry;
+    // readdir returns nullptr at the end and on errors, only errno tells which.
+    errno = 0;
     while ((entry = ::readdir(dir)) != nullptr) {
       result->emplace_back(entry->d_name);
+      errno = 0;
     }
+    const int readdir_errno = errno;
     ::closedir(dir);
+    if (readdir_errno != 0) {
+      result->clear();
+      return PosixError(directory_path, readdir_errno);
+    }
     return Status::OK();
   }
 
-- 
2.43.0


From 9f2977cf1ab5c61687d577152e2cd1d57248c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 14/15] fix: NewLogger could report the error of close instead
 of the one that made it fail

---
 util/env_posix.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index fc67347..f217637 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -744,9 +744,10 @@ class PosixEnv : public Env {
 
     std::FILE* fp = ::fdopen(fd, "w");
     if (fp == nullptr) {
+      int fdopen_errno = errno;
       ::close(fd);
       *result = nullptr;
-      return PosixError(filename, errno);
+      return PosixError(filename, fdopen_errno);
     } else {
       *result = new PosixLogger(fp);
       return Status::OK();
-- 
2.43.0


From 56280d47c933915c2db3bdc263f3156f1c7de511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 15/15] fix: the default NewAppendableFile left the result
 undefined

---
 util/env.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/env.cc b/util/env.cc
index ff7a9b3..6be7b6f 100644
--- a/util/env.cc
+++ b/util/env.cc
@@ -21,6 +21,7 @@ Env::Env() = default;
 Env::~Env() = default;
 
 Status Env::NewAppendableFile(const std::string &filename, WritableFile **result) {
+  *result = nullptr;
   return Status::NotSupported("NewAppendableFile", filename);
 }
 
-- 
2.43.0

