From 884ae1f6e1f32a4f7dbf9bf73d7d20867248f8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 01/14] fix: round a cache's share per shard up without
 overflow

NewLRUCache(SIZE_MAX) (and the 14 capacities below it) wrapped around in
(capacity + 15) / 16 and produced a cache that keeps nothing.
---
 util/cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/cache.cc b/util/cache.cc
index 3830e26..ee3e431 100644
--- a/util/cache.cc
+++ b/util/cache.cc
@@ -391,7 +391,7 @@ const int kNumShards = 1 << kNumShardBits;
 class ShardedLRUCache : public Cache {
  public:
   explicit ShardedLRUCache(size_t capacity) : last_id_(0) {
-    const size_t per_shard = (capacity + (kNumShards - 1)) / kNumShards;
+    const size_t per_shard = capacity / kNumShards + (capacity % kNumShards != 0);
     for (int s = 0; s < kNumShards; ++s) {
       shard_[s].SetCapacity(per_shard);
     }
-- 
2.43.0


From a920a2307e4d2b95380277386abb4dbb0cd081eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 02/14] fix: correct the height assertion in the skip list

RandomHeight() asserted height < 0, so every Insert() aborted in builds
with assertions enabled.
---
 db/skiplist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/skiplist.h b/db/skiplist.h
index 9b17dd4..bb4cc5a 100644
--- a/db/skiplist.h
+++ b/db/skiplist.h
@@ -246,7 +246,7 @@ int SkipList<Key, Comparator>::RandomHeight() {
   while (height < kMaxHeight && ((rnd_.Next() % kBranching) == 0)) {
     height++;
   }
-  assert(height < 0);
+  assert(height > 0);
   assert(height <= kMaxHeight);
   return height;
 }
-- 
2.43.0


From 6fd02d00a13102304eacdac3b65fefdc153bcfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 03/14] fix: memenv: keep the file that opening for append
 creates

---
 helpers/memenv/memenv.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index cbcd91f..516aad0 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -282,6 +282,7 @@ class InMemoryEnv : public EnvWapper {
     if (file == nullptr) {
       file = new FileState();
       file->Ref();
+      *sptr = file;
     }
     *result = new WritableFileImpl(file);
     return Status::OK();
-- 
2.43.0


From e7297cf621e75b6dbcc453601abc37abb2ff260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 04/14] fix: memenv: renaming a file onto itself keeps it

---
 helpers/memenv/memenv.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index 516aad0..035e0d1 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -350,6 +350,9 @@ class InMemoryEnv : public EnvWapper {
     if (file_map_.find(src) == file_map_.end()) {
       return Status::IOError(src, "File not found");
     }
+    if (src == target) {
+      return Status::OK();
+    }
 
     RemoveFileInternal(target);
     file_map_[target] = file_map_[src];
-- 
2.43.0


From e203367a96ff7af6cda011556263147c1541a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 05/14] fix: memenv: report missing files as not found

---
 helpers/memenv/memenv.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index 035e0d1..492b2ba 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -235,7 +235,7 @@ class InMemoryEnv : public EnvWapper {
     MutexLock lock(&mutex_);
     if (file_map_.find(filename) == file_map_.end()) {
       *result = nullptr;
-      return Status::IOError(filename, "File not found");
+      return Status::NotFound(filename, "File not found");
     }
 
     *result = new SequentialFileImpl(file_map_[filename]);
@@ -247,7 +247,7 @@ class InMemoryEnv : public EnvWapper {
     MutexLock lock(&mutex_);
     if (file_map_.find(filename) == file_map_.end()) {
       *result = nullptr;
-      return Status::IOError(filename, "File not found");
+      return Status::NotFound(filename, "File not found");
     }
 
     *result = new RandomAccessFileImpl(file_map_[filename]);
@@ -322,7 +322,7 @@ class InMemoryEnv : public EnvWapper {
   Status RemoveFile(const std::string& filename) override {
     MutexLock lock(&mutex_);
     if (file_map_.find(filename) == file_map_.end()) {
-      return Status::IOError(filename, "File not found");
+      return Status::NotFound(filename, "File not found");
     }
 
     RemoveFileInternal(filename);
@@ -337,7 +337,7 @@ class InMemoryEnv : public EnvWapper {
                      uint64_t* file_size) override {
     MutexLock lock(&mutex_);
     if (file_map_.find(filename) == file_map_.end()) {
-      return Status::IOError(filename, "File not found");
+      return Status::NotFound(filename, "File not found");
     }
 
     *file_size = file_map_[filename]->Size();
@@ -348,7 +348,7 @@ class InMemoryEnv : public EnvWapper {
                     const std::string& target) override {
     MutexLock lock(&mutex_);
     if (file_map_.find(src) == file_map_.end()) {
-      return Status::IOError(src, "File not found");
+      return Status::NotFound(src, "File not found");
     }
     if (src == target) {
       return Status::OK();
-- 
2.43.0


From 8962fe8dc61673dc6d0873703ae72a697b3c8bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 06/14] fix: memenv: skip reads the file size once

---
 helpers/memenv/memenv.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index 492b2ba..e962927 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -165,10 +165,12 @@ class SequentialFileImpl : public SequentialFile {
   }
 
   Status Skip(uint64_t n) override {
-    if (pos_ > file_->Size()) {
+    // The size is read once: the file may be truncated at any time.
+    const uint64_t size = file_->Size();
+    if (pos_ > size) {
       return Status::IOError("pos_ > file_->Slice()");
     }
-    const uint64_t available = file_->Size() - pos_;
+    const uint64_t available = size - pos_;
     if (n > available) {
       n = available;
     }
-- 
2.43.0


From 04de7300af66f066ddc5a8ca427a08e23b0e8b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:43 +0000
Subject: [PATCH 07/14] fix: sync the root directory for a manifest file in it

---
 util/env_posix.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 509fcf6..ae3779e 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -396,6 +396,9 @@ class PosixWritableFile final : public WritableFile {
     if (separator_pos == std::string::npos) {
       return std::string(".");
     }
+    if (separator_pos == 0) {
+      return std::string("/");
+    }
     // The filename component should not contain a path separator.
     // If it does, the splitting was done incorrectly.
     assert(filename.find('/', separator_pos + 1) == std::string::npos);
-- 
2.43.0


From b1d2678bbd3a01d10bb832ec7abefd2d3b322d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 08/14] fix: mapped files: read up to the end of the file,
 never beyond it

---
 util/env_posix.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index ae3779e..97ef84e 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -227,12 +227,14 @@ class PosixMmapReadableFile final : public RandomAccessFile {
 
   Status Read(uint64_t offset, size_t n, Slice* result,
               char* scratch) const override {
-    if (offset + n > length_) {
+    // Like pread(), return what there is up to the end of the file.
+    if (offset >= length_) {
       *result = Slice();
-      return PosixError(filename_, EINVAL);
+      return Status::OK();
     }
 
-    *result = Slice(mmap_base_ + offset, n);
+    *result = Slice(mmap_base_ + offset,
+                    std::min<uint64_t>(n, length_ - offset));
     return Status::OK();
   }
 
-- 
2.43.0


From fdabfd4a88af50cfca0966942f3b531631b5fcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 09/14] fix: skipping in a sequential file stops at the end of
 the file

---
 util/env_posix.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 97ef84e..a80b4ba 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -12,6 +12,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 
+#include <algorithm>
 #include <atomic>
 #include <cerrno>
 #include <cstddef>
@@ -127,7 +128,17 @@ class PosixSequentialFile final : public SequentialFile {
   }
 
   Status Skip(uint64_t n) override {
-    if (::lseek(fd_, n, SEEK_CUR) == static_cast<off_t>(-1)) {
+    struct ::stat file_stat;
+    const off_t pos = ::lseek(fd_, 0, SEEK_CUR);
+    if (pos == static_cast<off_t>(-1) || ::fstat(fd_, &file_stat) != 0) {
+      return PosixError(filename_, errno);
+    }
+
+    // Stop at the end of the file.
+    const uint64_t remaining =
+        (file_stat.st_size > pos) ? file_stat.st_size - pos : 0;
+    if (::lseek(fd_, std::min(n, remaining), SEEK_CUR) ==
+        static_cast<off_t>(-1)) {
       return PosixError(filename_, errno);
     }
     return Status::OK();
-- 
2.43.0


From 08478eb41c169795eb266159a6750e6c6172e389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 10/14] fix: open an empty file for random access

---
 util/env_posix.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index a80b4ba..8e6e3c7 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -543,6 +543,12 @@ class PosixEnv : public Env {
 
     uint64_t file_size;
     Status status = GetFileSize(filename, &file_size);
+    if (status.ok() && file_size == 0) {
+      // There is nothing to map.
+      mmap_limiter_.Release();
+      *result = new PosixRandomAccessFile(filename, fd, &fd_limiter_);
+      return status;
+    }
     if (status.ok()) {
       void* mmap_base =
           ::mmap(nullptr, file_size, PROT_READ, MAP_SHARED, fd, 0);
-- 
2.43.0


From e456bab835ba3e1657d138401474bd984b04235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 11/14] fix: size a mapping by the open file, not by its name

---
 util/env_posix.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 8e6e3c7..19418ff 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -541,8 +541,15 @@ class PosixEnv : public Env {
       return Status::OK();
     }
 
-    uint64_t file_size;
-    Status status = GetFileSize(filename, &file_size);
+    // Ask about the open file: the name may refer to another one by now.
+    Status status;
+    struct ::stat file_stat;
+    uint64_t file_size = 0;
+    if (::fstat(fd, &file_stat) != 0) {
+      status = PosixError(filename, errno);
+    } else {
+      file_size = file_stat.st_size;
+    }
     if (status.ok() && file_size == 0) {
       // There is nothing to map.
       mmap_limiter_.Release();
-- 
2.43.0


From 54bd72609d4c957612d92d33a137a15c6a9455a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 12/14] fix: a failed attempt to lock a file keeps this
 process's lock

---
 util/env_posix.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 19418ff..8974010 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -662,16 +662,19 @@ class PosixEnv : public Env {
   Status LockFile(const std::string& filename, FileLock** lock) override {
     *lock = nullptr;
 
-    int fd = ::open(filename.c_str(), O_RDWR | O_CREAT | kOpenBaseFlags, 0644);
-    if (fd < 0) {
-      return PosixError(filename, errno);
-    }
-
+    // Check before opening: closing any descriptor of the file would release
+    // the lock that this process already holds on it.
     if (!locks_.Insert(filename)) {
-      ::close(fd);
       return Status::IOError("lock " + filename, "already held by process");
     }
 
+    int fd = ::open(filename.c_str(), O_RDWR | O_CREAT | kOpenBaseFlags, 0644);
+    if (fd < 0) {
+      int open_errno = errno;
+      locks_.Remove(filename);
+      return PosixError(filename, open_errno);
+    }
+
     if (LockOrUnlock(fd, true) == -1) {
       int lock_errno = errno;
       ::close(fd);
-- 
2.43.0


From 5942bde3571acf4aacd6551dd746ef08ce233c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 13/14] fix: unlocking a file cannot release the next holder's
 lock

---
 util/env_posix.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 8974010..8fa3371 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -694,8 +694,9 @@ class PosixEnv : public Env {
     if (LockOrUnlock(posix_file_lock->fd(), false) == -1) {
       return PosixError("unlock " + posix_file_lock->filename(), errno);
     }
-    locks_.Remove(posix_file_lock->filename());
+    // Close first: afterwards it would release the lock of the next holder.
     ::close(posix_file_lock->fd());
+    locks_.Remove(posix_file_lock->filename());
     delete posix_file_lock;
     return Status::OK();
   }
-- 
2.43.0


From 1d450689fa62094a4ed911232b1eaca2e4509bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 14/14] fix: report a directory that could not be read
 completely

---
 util/env_posix.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 8fa3371..11b5deb 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -614,10 +614,17 @@ class PosixEnv : public Env {
       return PosixError(directory_path, errno);
     }
     struct ::dirent* entry;
+    errno = 0;
     while ((entry = ::readdir(dir)) != nullptr) {
       result->emplace_back(entry->d_name);
+      errno = 0;
     }
+    int read_errno = errno;
     ::closedir(dir);
+    if (read_errno != 0) {
+      result->clear();
+      return PosixError(directory_path, read_errno);
+    }
     return Status::OK();
   }
 
-- 
2.43.0

