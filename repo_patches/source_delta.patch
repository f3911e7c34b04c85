From 4caab6fb4d5e2067af3bb1946e6a1e97c3043d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 01/26] fix: kvtree_set_kv lost a new tree when given no key or
 no value

---
 src/kvtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index a43c4a9..b84d382 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -700,7 +700,7 @@ int kvtree_list_int(const kvtree* hash, int* n, int** v)
 /** shortcut to create a key and subkey in a hash with one call */
 kvtree* kvtree_set_kv(kvtree* hash, const char* key, const char* val)
 {
-  if (hash == NULL) {
+  if (hash == NULL || key == NULL || val == NULL) {
     return NULL;
   }
 
-- 
2.43.0


From c96ec8e26f5c088992f76465464d7158d28a0782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 02/26] fix: integer sort overflowed when comparing keys far
 apart

---
 src/kvtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index b84d382..885f3b9 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -551,7 +551,7 @@ static int kvtree_cmp_fn_int_asc(const void* a, const void* b)
   struct sort_elem_int* elem_b = (struct sort_elem_int*) b;
   int int_a = elem_a->key;
   int int_b = elem_b->key;
-  return (int) (int_a - int_b);
+  return (int_a > int_b) - (int_a < int_b);
 }
 
 /** sort integers in descending order */
@@ -561,7 +561,7 @@ static int kvtree_cmp_fn_int_desc(const void* a, const void* b)
   struct sort_elem_int* elem_b = (struct sort_elem_int*) b;
   int int_a = elem_a->key;
   int int_b = elem_b->key;
-  return (int) (int_b - int_a);
+  return (int_b > int_a) - (int_b < int_a);
 }
 
 /** sort the hash assuming the keys are ints */
-- 
2.43.0


From 122c921d3fa6ba4a543e794b85554341770226d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 03/26] fix: kvtree_open_with_lock returned descriptor 1 when
 the lock failed

---
 src/kvtree_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index 81c6def..954b23e 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -222,7 +222,7 @@ int kvtree_open_with_lock(const char* file, int flags, mode_t mode, int write)
   int ret = kvtree_file_lock_read_write(file, fd, write);
   if (ret != KVTREE_SUCCESS) {
     close(fd);
-    return ret;
+    return -1;
   }
 
   /* return the opened file descriptor */
-- 
2.43.0


From 4a984fed40e7765dd88ff290c978aff75fa1b4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 04/26] fix: kvtree_close_with_unlock left the file open when
 unlocking failed

---
 src/kvtree_io.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index 954b23e..6961b86 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -234,12 +234,12 @@ int kvtree_close_with_unlock(const char* file, int fd)
 {
   /* release the file lock */
   int ret = kvtree_file_unlock(file, fd);
-  if (ret != KVTREE_SUCCESS) {
-    return ret;
-  }
 
-  /* close the file */
-  return kvtree_close(file, fd);
+  /* close the file, even if it could not be unlocked */
+  if (kvtree_close(file, fd) != KVTREE_SUCCESS) {
+    ret = KVTREE_FAILURE;
+  }
+  return ret;
 }
 
 /* seek file descriptor to specified position */
-- 
2.43.0


From 5d8c3e46d7a40371f8856c95652ada99374ea335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 05/26] fix: kvtree_malloc passed the wrong arguments to its
 abort message

---
 src/kvtree_helpers.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kvtree_helpers.c b/src/kvtree_helpers.c
index d7ba4e9..1f38728 100644
--- a/src/kvtree_helpers.c
+++ b/src/kvtree_helpers.c
@@ -70,7 +70,8 @@ void* kvtree_malloc(size_t size, const char* file, int line)
   if (size > 0) {
     ptr = malloc(size);
     if (ptr == NULL) {
-      kvtree_abort(-1, "Failed to allocate %llu bytes @ %s:%d", file, line);
+      kvtree_abort(-1, "Failed to allocate %llu bytes @ %s:%d",
+        (unsigned long long) size, file, line);
     }
   }
   return ptr;
-- 
2.43.0


From 90a7ef38ee044d8e6b58f0f6c03743ff45f290fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 06/26] fix: bounds check of the integer pack functions wrapped
 around

---
 src/kvtree_helpers.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kvtree_helpers.c b/src/kvtree_helpers.c
index 1f38728..98abfc8 100644
--- a/src/kvtree_helpers.c
+++ b/src/kvtree_helpers.c
@@ -112,7 +112,7 @@ int kvtree_pack_uint16_t(void* buf, size_t buf_size, size_t* buf_pos, uint16_t v
   size_t pos_final = pos + sizeof(val);
 
   /* check that we won't overrun the buffer */
-  if (pos_final > buf_size) {
+  if (pos_final < pos || pos_final > buf_size) {
     kvtree_err("Attempting to pack too many bytes into buffer @ %s:%d",
             __FILE__, __LINE__
     );
@@ -149,7 +149,7 @@ int kvtree_pack_uint32_t(void* buf, size_t buf_size, size_t* buf_pos, uint32_t v
   size_t pos_final = pos + sizeof(val);
 
   /* check that we won't overrun the buffer */
-  if (pos_final > buf_size) {
+  if (pos_final < pos || pos_final > buf_size) {
     kvtree_err("Attempting to pack too many bytes into buffer @ %s:%d",
             __FILE__, __LINE__
     );
@@ -186,7 +186,7 @@ int kvtree_pack_uint64_t(void* buf, size_t buf_size, size_t* buf_pos, uint64_t v
   size_t pos_final = pos + sizeof(val);
 
   /* check that we won't overrun the buffer */
-  if (pos_final > buf_size) {
+  if (pos_final < pos || pos_final > buf_size) {
     kvtree_err("Attempting to pack too many bytes into buffer @ %s:%d",
             __FILE__, __LINE__
     );
@@ -223,7 +223,7 @@ int kvtree_unpack_uint16_t(const void* buf, size_t buf_size, size_t* buf_pos, ui
   size_t pos_final = pos + sizeof(uint16_t);
 
   /* check that we won't overrun the buffer */
-  if (pos_final > buf_size) {
+  if (pos_final < pos || pos_final > buf_size) {
     kvtree_err("Attempting to unpack too many bytes into buffer @ %s:%d",
             __FILE__, __LINE__
     );
@@ -261,7 +261,7 @@ int kvtree_unpack_uint32_t(const void* buf, size_t buf_size, size_t* buf_pos, ui
   size_t pos_final = pos + sizeof(uint32_t);
 
   /* check that we won't overrun the buffer */
-  if (pos_final > buf_size) {
+  if (pos_final < pos || pos_final > buf_size) {
     kvtree_err("Attempting to unpack too many bytes into buffer @ %s:%d",
             __FILE__, __LINE__
     );
@@ -299,7 +299,7 @@ int kvtree_unpack_uint64_t(const void* buf, size_t buf_size, size_t* buf_pos, ui
   size_t pos_final = pos + sizeof(uint64_t);
 
   /* check that we won't overrun the buffer */
-  if (pos_final > buf_size) {
+  if (pos_final < pos || pos_final > buf_size) {
     kvtree_err("Attempting to unpack too many bytes into buffer @ %s:%d",
             __FILE__, __LINE__
     );
-- 
2.43.0


From 71c1a024846da882aad338735e068884d0ddeb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 07/26] fix: kvtree_write_persist dereferenced a missing size
 pointer

---
 src/kvtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 885f3b9..4c8828d 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1123,7 +1123,7 @@ size_t kvtree_persist_size(const kvtree* hash)
 int kvtree_write_persist(void** ptr_buf, size_t* ptr_size, const kvtree* hash)
 {
   /* check that we have a hash, a file name, and a file descriptor */
-  if (ptr_buf == NULL || hash == NULL) {
+  if (ptr_buf == NULL || ptr_size == NULL || hash == NULL) {
     return KVTREE_FAILURE;
   }
 
-- 
2.43.0


From 4b78333fb3a3e2dd085ee500364b118c0e80f8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 08/26] fix: kvtree_read_with_lock narrowed the size of the
 file to an int

---
 src/kvtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 4c8828d..9c9dbb5 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1541,8 +1541,8 @@ int kvtree_read_with_lock(const char* file, kvtree* hash)
   if (fd >= 0) {
     int rc;
     /* read the file into the hash */
-    rc = kvtree_read_fd(file, fd, hash);
-    if (rc == -1) {
+    ssize_t nread = kvtree_read_fd(file, fd, hash);
+    if (nread < 0) {
       kvtree_err("Couldn't read file @ %s:%d", __FILE__, __LINE__);
       kvtree_close_with_unlock(file, fd);
       return KVTREE_FAILURE;
-- 
2.43.0


From a31dfe154b8be210efe6d0b87cca652a22ae05f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 09/26] fix: kvtree_write_with_lock reported success when the
 write failed and kept stale bytes

---
 src/kvtree.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 9c9dbb5..5ae7dd0 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -16,6 +16,7 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <fcntl.h>
+#include <unistd.h>
 #include <string.h>
 #include <errno.h>
 #include <libgen.h>
@@ -1571,13 +1572,28 @@ int kvtree_write_with_lock(const char* file, kvtree* hash)
 {
   int fd = kvtree_read_write_with_lock(file, hash, 1);
   if (fd >= 0) {
-    /* write the file into the hash */
-    kvtree_write_fd(file, fd, hash);
+    int rc = KVTREE_SUCCESS;
+
+    /* write the hash to the file */
+    ssize_t nwrite = kvtree_write_fd(file, fd, hash);
+    if (nwrite < 0) {
+      rc = KVTREE_FAILURE;
+    }
+
+    /* drop what is left of earlier, longer content */
+    if (nwrite >= 0 && ftruncate(fd, (off_t) nwrite) != 0) {
+      kvtree_err("ftruncate() failed: errno=%d (%s) @ %s:%d",
+        errno, strerror(errno), __FILE__, __LINE__
+      );
+      rc = KVTREE_FAILURE;
+    }
 
     /* close the file and release the lock */
-    kvtree_close_with_unlock(file, fd);
+    if (kvtree_close_with_unlock(file, fd) != KVTREE_SUCCESS) {
+      rc = KVTREE_FAILURE;
+    }
 
-    return KVTREE_SUCCESS;
+    return rc;
   } else {
     kvtree_err("Failed to open file with lock %s @ %s:%d",
       file, __FILE__, __LINE__
-- 
2.43.0


From ee7e59a108cb72975c8e5da2c1aa91df2afb5614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 10/26] fix: kvtree_lock_open_read reported success when the
 file could not be read

---
 src/kvtree.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 5ae7dd0..c9d6cc8 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1645,10 +1645,17 @@ int kvtree_lock_open_read(const char* file, int* fd, kvtree* hash)
   *fd = kvtree_open_with_lock(file, O_RDWR | O_CREAT, mode_file, 1);
   if (*fd >= 0) {
     /* read the file into the hash */
-    kvtree_read_fd(file, *fd, hash);
+    if (kvtree_read_fd(file, *fd, hash) < 0) {
+      kvtree_close_with_unlock(file, *fd);
+      *fd = -1;
+      return KVTREE_FAILURE;
+    }
     return KVTREE_SUCCESS;
   }
 
+  /* report that no file is open */
+  *fd = -1;
+
   return KVTREE_FAILURE;
 }
 
-- 
2.43.0


From 7867a762bf96dba8cf1c5e2e1fd70270382b5d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 11/26] fix: kvtree_write_close_unlock reported success when
 seek, write, truncate or close failed

---
 src/kvtree.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index c9d6cc8..9bda868 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1695,12 +1695,17 @@ int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
     return KVTREE_FAILURE;
   }
 
+  int rc = KVTREE_SUCCESS;
   if (*fd >= 0) {
     /* wind the file pointer back to the start of the file */
-    lseek(*fd, 0, SEEK_SET);
-
-    /* write the updated hash back to the file */
-    ssize_t nwrite = kvtree_write_fd(file, *fd, hash);
+    ssize_t nwrite = -1;
+    if (lseek(*fd, 0, SEEK_SET) != (off_t)-1) {
+      /* write the updated hash back to the file */
+      nwrite = kvtree_write_fd(file, *fd, hash);
+    }
+    if (nwrite < 0) {
+      rc = KVTREE_FAILURE;
+    }
 
     /* truncate file to new size */
     if (nwrite >= 0) {
@@ -1708,17 +1713,20 @@ int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
         kvtree_err("ftruncate() failed: errno=%d (%s) @ %s:%d",
           errno, strerror(errno), __FILE__, __LINE__
         );
+        rc = KVTREE_FAILURE;
       }
     }
 
     /* close the file and release the lock */
-    kvtree_close_with_unlock(file, *fd);
+    if (kvtree_close_with_unlock(file, *fd) != KVTREE_SUCCESS) {
+      rc = KVTREE_FAILURE;
+    }
 
     /* mark the file descriptor as closed */
     *fd = -1;
   }
 
-  return KVTREE_SUCCESS;
+  return rc;
 }
 
 /** write kvtree as gather/scatter file, input kvtree must be in form:
-- 
2.43.0


From 0038b81c74dd2088af883f7bf2fb015b1a2c6768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 12/26] fix: kvtree_read_fd read beyond its buffer on malformed
 files

---
 src/kvtree.c | 57 ++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 9bda868..46e0811 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1326,6 +1326,41 @@ ssize_t kvtree_read_persist(const void* buf, size_t bufsize, kvtree* hash)
 }
 #endif
 
+/** check that the first bytes of buf hold a complete packed hash within
+ * bufsize bytes, returns its packed size or 0 if there is none */
+static size_t kvtree_unpack_check(const char* buf, size_t bufsize)
+{
+  /* read in the COUNT value */
+  uint32_t count_network;
+  if (bufsize < sizeof(uint32_t)) {
+    return 0;
+  }
+  memcpy(&count_network, buf, sizeof(uint32_t));
+  uint32_t count = kvtree_ntoh32(count_network);
+  if (count > INT_MAX) {
+    return 0;
+  }
+  size_t size = sizeof(uint32_t);
+
+  /* step over the key and the hash of each element */
+  uint32_t i;
+  for (i = 0; i < count; i++) {
+    const char* end = (const char*) memchr(buf + size, '\0', bufsize - size);
+    if (end == NULL) {
+      return 0;
+    }
+    size = (size_t) (end - buf) + 1;
+
+    size_t hash_size = kvtree_unpack_check(buf + size, bufsize - size);
+    if (hash_size == 0) {
+      return 0;
+    }
+    size += hash_size;
+  }
+
+  return size;
+}
+
 /** executes logic of kvtree_read using an opened file descriptor */
 ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
 {
@@ -1389,8 +1424,17 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
   uint32_t flags;
   kvtree_unpack_uint32_t(header, sizeof(header), &size, &flags);
 
-  /* check that the filesize is valid (positive) */
-  if (filesize < KVTREE_FILE_HASH_HEADER_SIZE) {
+  /* check that the filesize is valid: it must hold at least the header, an
+   * empty hash, and the crc if there is one, and it can't exceed the file */
+  uint64_t minsize = KVTREE_FILE_HASH_HEADER_SIZE + sizeof(uint32_t);
+  if (flags & KVTREE_FILE_FLAGS_CRC32) {
+    minsize += sizeof(uint32_t);
+  }
+  struct stat statbuf;
+  if (filesize < minsize ||
+      fstat(fd, &statbuf) != 0 ||
+      (S_ISREG(statbuf.st_mode) && filesize > (uint64_t) statbuf.st_size))
+  {
     kvtree_err("Invalid file size stored in %s @ %s:%d",
       file, __FILE__, __LINE__
     );
@@ -1446,6 +1490,15 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
     }
   }
 
+  /* check that the packed hash lies within the buffer before unpacking it */
+  if (kvtree_unpack_check(buf + size, filesize - size) == 0) {
+    kvtree_err("Malformed hash in %s @ %s:%d",
+      file, __FILE__, __LINE__
+    );
+    kvtree_free(&buf);
+    return -1;
+  }
+
   /* create a temporary hash to read data into, unpack, and merge */
   kvtree* tmp_hash = kvtree_new();
   kvtree_unpack(buf + size, tmp_hash);
-- 
2.43.0


From 29a9eebd079737fabd48b9a5270cbdf1b35f983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 13/26] fix: print and log functions overflowed a buffer at
 deep indentation

---
 src/kvtree.c | 58 +++++++++++++++++++---------------------------------
 1 file changed, 21 insertions(+), 37 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 46e0811..bc6f972 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -2013,23 +2013,19 @@ end:
 /** prints specified hash element to stdout for debugging */
 static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
+  /* width of the indentation */
+  int width = (indent > 0) ? indent : 0;
 
   if (mode == KVTREE_PRINT_TREE) {
     if (elem != NULL) {
       if (elem->key != NULL) {
-        printf("%s%s\n", tmp, elem->key);
+        printf("%*s%s\n", width, "", elem->key);
       } else {
-        printf("%sNULL KEY\n", tmp);
+        printf("%*sNULL KEY\n", width, "");
       }
       kvtree_print_mode(elem->hash, indent, mode);
     } else {
-      printf("%sNULL ELEMENT\n", tmp);
+      printf("%*sNULL ELEMENT\n", width, "");
     }
 
     return KVTREE_SUCCESS;
@@ -2044,25 +2040,25 @@ static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
           if (elem2->hash == NULL || kvtree_size(elem2->hash) == 0) {
             /* my hash has one value, and the hash for that one value
              * is empty, so print this as a key/value pair */
-            printf("%s%s = %s\n", tmp, elem->key, elem2->key);
+            printf("%*s%s = %s\n", width, "", elem->key, elem2->key);
           } else {
             /* my hash has one value, but the hash for that one value is
              * non-empty so we need to recurse into hash */
-            printf("%s%s\n", tmp, elem->key);
+            printf("%*s%s\n", width, "", elem->key);
             kvtree_print_mode(elem->hash, indent, mode);
           }
         } else {
           /* hash for current element has 0 or more than one items,
            * so we need to recurse into hash */
-          printf("%s%s\n", tmp, elem->key);
+          printf("%*s%s\n", width, "", elem->key);
           kvtree_print_mode(elem->hash, indent, mode);
         }
       } else {
-        printf("%sNULL KEY\n", tmp);
+        printf("%*sNULL KEY\n", width, "");
         kvtree_print_mode(elem->hash, indent, mode);
       }
     } else {
-      printf("%sNULL ELEMENT\n", tmp);
+      printf("%*sNULL ELEMENT\n", width, "");
     }
 
     return KVTREE_SUCCESS;
@@ -2074,12 +2070,8 @@ static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
 /** prints specified hash to stdout for debugging */
 int kvtree_print_mode(const kvtree* hash, int indent, int mode)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
+  /* width of the indentation */
+  int width = (indent > 0) ? indent : 0;
 
   if (hash != NULL) {
     kvtree_elem* elem;
@@ -2087,7 +2079,7 @@ int kvtree_print_mode(const kvtree* hash, int indent, int mode)
       kvtree_elem_print(elem, indent + 2, mode);
     }
   } else {
-    printf("%sNULL LIST\n", tmp);
+    printf("%*sNULL LIST\n", width, "");
   }
   return KVTREE_SUCCESS;
 }
@@ -2101,22 +2093,18 @@ int kvtree_print(const kvtree* hash, int indent)
 /** logs specified hash element to stdout for debugging */
 static int kvtree_elem_log(const kvtree_elem* elem, int log_level, int indent)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
+  /* width of the indentation */
+  int width = (indent > 0) ? indent : 0;
 
   if (elem != NULL) {
     if (elem->key != NULL) {
-      kvtree_dbg(log_level, "%s%s\n", tmp, elem->key);
+      kvtree_dbg(log_level, "%*s%s\n", width, "", elem->key);
     } else {
-      kvtree_dbg(log_level, "%sNULL KEY\n", tmp);
+      kvtree_dbg(log_level, "%*sNULL KEY\n", width, "");
     }
     kvtree_log(elem->hash, log_level, indent);
   } else {
-    kvtree_dbg(log_level, "%sNULL ELEMENT\n", tmp);
+    kvtree_dbg(log_level, "%*sNULL ELEMENT\n", width, "");
   }
   return KVTREE_SUCCESS;
 }
@@ -2124,12 +2112,8 @@ static int kvtree_elem_log(const kvtree_elem* elem, int log_level, int indent)
 /** prints specified hash to stdout for debugging */
 int kvtree_log(const kvtree* hash, int log_level, int indent)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
+  /* width of the indentation */
+  int width = (indent > 0) ? indent : 0;
 
   if (hash != NULL) {
     kvtree_elem* elem;
@@ -2137,7 +2121,7 @@ int kvtree_log(const kvtree* hash, int log_level, int indent)
       kvtree_elem_log(elem, log_level, indent+2);
     }
   } else {
-    kvtree_dbg(log_level, "%sNULL LIST\n", tmp);
+    kvtree_dbg(log_level, "%*sNULL LIST\n", width, "");
   }
   return KVTREE_SUCCESS;
 }
-- 
2.43.0


From 4c7cc359b0cdc594bf42119eda68f94611b01903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 14/26] fix: kvtree_write_to_gather wrote part files under a
 truncated name

---
 src/kvtree.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index bc6f972..df55fbe 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1844,9 +1844,10 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
       }
     }
 
-    /* build name for part file */
-    char filename[1024];
-    snprintf(filename, sizeof(filename), "%s.0.%d", prefix, writer);
+    /* build name for part file, leave room for the suffix */
+    size_t filename_size = strlen(prefix) + 32;
+    char* filename = (char*) KVTREE_MALLOC(filename_size);
+    snprintf(filename, filename_size, "%s.0.%d", prefix, writer);
 
     /* write hash to file */
     if (kvtree_write_file(filename, entries) != KVTREE_SUCCESS) {
@@ -1856,6 +1857,7 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
 
     /* delete part hash and path */
     kvtree_delete(&entries);
+    kvtree_free(&filename);
 
     /* record file name of part in files hash, relative to prefix directory */
     char partname[1024];
-- 
2.43.0


From 677ab93eeded28fc386ea3bdf7d0bafb3fddb6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 15/26] fix: kvtree_read_scatter_single took the file name
 prefix for a regular expression

---
 src/kvtree.c | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index df55fbe..b572b86 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -22,7 +22,6 @@
 #include <libgen.h>
 #include <dirent.h>
 #include <limits.h>
-#include <regex.h>
 
 
 /* need at least version 8.5 of queue.h from Berkeley */
@@ -1883,6 +1882,17 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
   return rc;
 }
 
+/* return 1 if name is that of a part file: prefix_file, ".0.", and digits */
+static int kvtree_is_part_name(const char* name, const char* prefix_file)
+{
+  size_t len = strlen(prefix_file);
+  if (strncmp(name, prefix_file, len) != 0 || strncmp(name + len, ".0.", 3) != 0) {
+    return 0;
+  }
+  const char* digits = name + len + 3;
+  return (digits[0] != '\0' && digits[strspn(digits, "0123456789")] == '\0');
+}
+
 /*
  * Given a prefix passed to a kvtree_write_gather() (like "/tmp/rank2file",
  * read all the rank data from all the scattered subfiles, and construct a
@@ -1935,18 +1945,7 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
   char* prefix_file_copy = strdup(prefix);
   char* prefix_file = basename(prefix_file_copy);
 
-  /* Create our regex to match our prefix files */
-  char pattern[PATH_MAX];
-  snprintf(pattern, sizeof(pattern), "^%s\\.0\\.[0-9]+$", prefix_file);
-  pattern[sizeof(pattern) - 1] = '\0';
-
-  regex_t regex;
-  rc = regcomp(&regex, pattern, REG_EXTENDED);
-  if (rc) {
-    rc = KVTREE_FAILURE;
-    goto end;
-  }
-
+  unsigned long actual_ranks = 0;
   DIR* d = opendir(prefix_dir);
   if (!d) {
     rc = KVTREE_FAILURE;
@@ -1954,7 +1953,6 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
   }
 
   /* For each file/dir in our prefix dir */
-  unsigned long actual_ranks = 0;
   struct dirent* dir;
   while ((dir = readdir(d)) != NULL) {
     /*
@@ -1962,8 +1960,7 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
      * like "rank2file.".
      */
     /* Is this one of our subfiles?  It should have .0.x in the extension */
-    rc = regexec(&regex, dir->d_name, 0, NULL, 0);
-    if (rc == 0) {  /* Did we get both numbers in the extension? */
+    if (kvtree_is_part_name(dir->d_name, prefix_file)) {
       /* subfile matches */
 
       /* Construct the full path to the subfile kvtree */
-- 
2.43.0


From 933c671e2d12f657b54dbac44b171f5f66e13512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 16/26] fix: kvtree_read_scatter_single leaked the tree of each
 part file

---
 src/kvtree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index b572b86..8c11474 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1983,6 +1983,7 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
             if (kvtree_merge(final_tree, subfile_rank_tree) == KVTREE_SUCCESS) {
               actual_ranks += kvtree_size(subfile_rank_tree);
             }
+            kvtree_delete(&subfile_rank_tree);
           }
         }
       }
-- 
2.43.0


From 99647811a70b5c109331af376e7e416f235ab153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 17/26] fix: checksum of a file larger than 4 GiB covered only
 part of it

---
 src/kvtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 8c11474..c283ee7 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1155,7 +1155,7 @@ int kvtree_write_persist(void** ptr_buf, size_t* ptr_size, const kvtree* hash)
 
   /* compute the crc over the length of the file */
   uLong crc = crc32(0L, Z_NULL, 0);
-  crc = crc32(crc, (const Bytef*) buf, (uInt) size);
+  crc = crc32_z(crc, (const Bytef*) buf, size);
 
   /* write the crc to the buffer */
   kvtree_pack_uint32_t(buf, filesize, &size, (uint32_t) crc);
@@ -1472,7 +1472,7 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
 
     /* compute the crc value of the data */
     uLong crc = crc32(0L, Z_NULL, 0);
-    crc = crc32(crc, (const Bytef*) buf, (uInt) filesize - sizeof(uint32_t));
+    crc = crc32_z(crc, (const Bytef*) buf, filesize - sizeof(uint32_t));
 
     /* read the crc value */
     uint32_t crc_file_network, crc_file;
-- 
2.43.0


From fb5ff72523c379907469989741399a03a4c39c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 18/26] fix: kvtree_write_gather ignored that closing a file
 failed

---
 src/kvtree_mpi_io.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 71cd502..2c26e34 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -246,7 +246,9 @@ static unsigned long kvtree_write_gather_map(
       kvtree_free(&buf);
 
       /* close the file */
-      kvtree_close(mappath, fd);
+      if (kvtree_close(mappath, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err("Opening file for write: %s @ %s:%d",
         mappath, __FILE__, __LINE__
@@ -356,7 +358,9 @@ int kvtree_write_gather(
       kvtree_free(&buf);
 
       /* close the file */
-      kvtree_close(mappath, fd);
+      if (kvtree_close(mappath, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err( "Opening file for write: %s @ %s:%d",
         mappath, __FILE__, __LINE__
-- 
2.43.0


From 24f8e705d5d2f8f8de20f3bf4353c82a9d16e124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 19/26] fix: kvtree_setf and kvtree_getf took a missing key for
 the key "(null)"

---
 src/kvtree.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index c283ee7..509ffc8 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -296,8 +296,8 @@ int kvtree_merge(kvtree* hash1, const kvtree* hash2)
  * with the last-most key */
 kvtree* kvtree_setf(kvtree* hash, kvtree* hash_value, const char* format, ...)
 {
-  /* check that we have a hash */
-  if (hash == NULL) {
+  /* check that we have a hash and a format */
+  if (hash == NULL || format == NULL) {
     return NULL;
   }
 
@@ -349,7 +349,13 @@ kvtree* kvtree_setf(kvtree* hash, kvtree* hash_value, const char* format, ...)
     char key[KVTREE_MAX_LINE];
     int size = 0;
     if (strcmp(token, "%s") == 0) {
-      size = snprintf(key, sizeof(key), token, va_arg(args, char*));
+      char* str = va_arg(args, char*);
+      if (str == NULL) {
+        /* there is no such key */
+        h = NULL;
+        break;
+      }
+      size = snprintf(key, sizeof(key), token, str);
     } else if (strcmp(token, "%d")  == 0) {
       size = snprintf(key, sizeof(key), token, va_arg(args, int));
     } else if (strcmp(token, "%lld") == 0) {
@@ -413,8 +419,8 @@ kvtree* kvtree_setf(kvtree* hash, kvtree* hash_value, const char* format, ...)
 /** return hash associated with list of keys */
 kvtree* kvtree_getf(const kvtree* hash, const char* format, ...)
 {
-  /* check that we have a hash */
-  if (hash == NULL) {
+  /* check that we have a hash and a format */
+  if (hash == NULL || format == NULL) {
     return NULL;
   }
 
@@ -464,7 +470,13 @@ kvtree* kvtree_getf(const kvtree* hash, const char* format, ...)
     char key[KVTREE_MAX_LINE];
     int size = 0;
     if (strcmp(token, "%s") == 0) {
-      size = snprintf(key, sizeof(key), token, va_arg(args, char*));
+      char* str = va_arg(args, char*);
+      if (str == NULL) {
+        /* there is no such key */
+        h = NULL;
+        break;
+      }
+      size = snprintf(key, sizeof(key), token, str);
     } else if (strcmp(token, "%d")  == 0) {
       size = snprintf(key, sizeof(key), token, va_arg(args, int));
     } else if (strcmp(token, "%lld") == 0) {
-- 
2.43.0


From cae79b6bf2565229953caac91d7effae536c40c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 20/26] fix: kvtree_recv from MPI_PROC_NULL used an
 uninitialised size

A receive from MPI_PROC_NULL does not touch its buffer, so the size of
the message was whatever was on the stack, and that many bytes of an
uninitialised buffer were unpacked.
---
 src/kvtree_mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_mpi.c b/src/kvtree_mpi.c
index fc9ce37..8ce26e8 100644
--- a/src/kvtree_mpi.c
+++ b/src/kvtree_mpi.c
@@ -65,8 +65,8 @@ int kvtree_recv(kvtree* hash, int rank, MPI_Comm comm)
   /* clear the hash */
   kvtree_unset_all(hash);
 
-  /* get the size of the incoming hash */
-  int size;
+  /* get the size of the incoming hash, stays 0 if rank is MPI_PROC_NULL */
+  int size = 0;
   MPI_Status status;
   MPI_Recv(&size, 1, MPI_INT, rank, 0, comm, &status);
 
-- 
2.43.0


From 9789fdb32d3408240ad12412e367249663908449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 21/26] fix: kvtree_read_scatter ignored that closing a file
 failed

---
 src/kvtree_mpi_io.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 2c26e34..220dcc2 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -413,7 +413,9 @@ static int kvtree_read_scatter_map(
       }
 
       /* close the file */
-      kvtree_close(file, fd);
+      if (kvtree_close(file, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err("Failed to open file %s @ %s:%d",
         file, __FILE__, __LINE__
@@ -583,7 +585,9 @@ int kvtree_read_scatter(
       kvtree_delete(&save);
 
       /* close the file */
-      kvtree_close(file, fd);
+      if (kvtree_close(file, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err("Failed to open %s @ %s:%d",
         file, __FILE__, __LINE__
-- 
2.43.0


From 5591ac7ec23546edce34a7a9f1ff26d9ec67e769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 22/26] fix: kvtree_read_scatter leaked a file name when
 reading a map failed

---
 src/kvtree_mpi_io.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 220dcc2..34d8f2e 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -489,6 +489,7 @@ static int kvtree_read_scatter_map(
 
   /* check for read errors */
   if (! kvtree_alltrue(rc == KVTREE_SUCCESS, comm)) {
+    kvtree_free(&newfile);
     rc = KVTREE_FAILURE;
     goto cleanup;
   }
-- 
2.43.0


From 408921d3f10a82c240783786d375c5cf79a7ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 23/26] fix: kvtree_write_gather and kvtree_read_scatter
 truncated long file names

With a prefix of about 1020 characters or more, the files of a set were
all written under the same truncated name and overwrote each other.
---
 src/kvtree_mpi_io.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 34d8f2e..3617e97 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -121,6 +121,20 @@ static int pick_writer(
   return KVTREE_SUCCESS;
 }
 
+/* build full path of a file from its prefix and suffix, to be freed by caller,
+ * gives an empty path which can't be opened if there is no prefix */
+static char* kvtree_mappath(const char* prefix, const char* suffix)
+{
+  if (prefix == NULL) {
+    prefix = "";
+    suffix = "";
+  }
+  size_t size = strlen(prefix) + strlen(suffix) + 1;
+  char* path = (char*) KVTREE_MALLOC(size);
+  snprintf(path, size, "%s%s", prefix, suffix);
+  return path;
+}
+
 static unsigned long kvtree_write_gather_map(
   const char* prefix,
   const char* file,
@@ -200,8 +214,7 @@ static unsigned long kvtree_write_gather_map(
     snprintf(mapfile, sizeof(mapfile), ".%d.%d", level, writer);
   }
 
-  char mappath[1024];
-  snprintf(mappath, sizeof(mappath), "%s%s", prefix, mapfile);
+  char* mappath = kvtree_mappath(prefix, mapfile);
 
   /* call gather recursively if there's another level */
   if (! allranks) {
@@ -257,8 +270,9 @@ static unsigned long kvtree_write_gather_map(
     }
   }
 
-  /* free the hash */
+  /* free the hash and the file name */
   kvtree_delete(&save);
+  kvtree_free(&mappath);
 
   return rc;
 }
@@ -314,9 +328,8 @@ int kvtree_write_gather(
 
   /* define file name */
   char mapfile[1024];
-  char mappath[1024];
   snprintf(mapfile, sizeof(mapfile), ".0.%d", writer);
-  snprintf(mappath, sizeof(mappath), "%s%s", prefix, mapfile);
+  char* mappath = kvtree_mappath(prefix, mapfile);
 
   /* write map to files */
   unsigned long offset = 0;
@@ -369,8 +382,9 @@ int kvtree_write_gather(
     }
   }
 
-  /* free the hash */
+  /* free the hash and the file name */
   kvtree_delete(&save);
+  kvtree_free(&mappath);
 
   /* determine whether everyone wrote their files ok */
   if (kvtree_alltrue(rc == KVTREE_SUCCESS, comm)) {
@@ -458,9 +472,7 @@ static int kvtree_read_scatter_map(
     if (kvtree_util_get_str(elem_hash, "FILE", &value) == KVTREE_SUCCESS)
     {
       /* return string of full path to file to caller */
-      char mappath[1024];
-      snprintf(mappath, sizeof(mappath), "%s%s", prefix, value);
-      newfile = strdup(mappath);
+      newfile = kvtree_mappath(prefix, value);
     } else {
       rc = KVTREE_FAILURE;
     }
@@ -528,10 +540,6 @@ int kvtree_read_scatter(
   MPI_Comm_rank(comm, &rank_world);
   MPI_Comm_size(comm, &ranks_world);
 
-  /* build path to file */
-  char mappath[1024];
-  snprintf(mappath, sizeof(mappath), "%s", prefix);
-
   /* fetch file names and offsets containing file hash data */
   int valid = 0;
   char* file = NULL;
@@ -539,7 +547,7 @@ int kvtree_read_scatter(
   if (rank_world == 0) {
     /* rank 0 is only valid reader to start with */
     valid  = 1;
-    file   = strdup(mappath);
+    file   = kvtree_mappath(prefix, "");
     offset = 0;
   }
   if (kvtree_read_scatter_map(prefix, 1, &valid, &file, &offset, comm) != KVTREE_SUCCESS)
-- 
2.43.0


From 19e17168af7b011ed2e92d8cbf69ad78967eac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 24/26] fix: kvtree_write_to_gather never ended with
 KVTREE_ENTRIES_PER_FILE below one

---
 src/kvtree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index 509ffc8..fa15b6c 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1811,6 +1811,11 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
    */
   if (getenv("KVTREE_ENTRIES_PER_FILE")) {
     entries_per_file = atol(getenv("KVTREE_ENTRIES_PER_FILE"));
+
+    /* a file must hold at least one entry for the loop below to advance */
+    if (entries_per_file < 1) {
+      entries_per_file = 1;
+    }
   }
 
   /* we hardcode this to be two levels deep */
-- 
2.43.0


From 2be79adbfad97e5c83edb4ea89339f6f6b06e6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 25/26] fix: a packed hash that runs into the checksum of its
 file was accepted

---
 src/kvtree.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index fa15b6c..9c05895 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1501,8 +1501,13 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
     }
   }
 
-  /* check that the packed hash lies within the buffer before unpacking it */
-  if (kvtree_unpack_check(buf + size, filesize - size) == 0) {
+  /* check that the packed hash lies within the buffer, and ends before the
+   * crc if there is one, before unpacking it */
+  size_t hash_size = filesize - size;
+  if (crc_set) {
+    hash_size -= sizeof(uint32_t);
+  }
+  if (kvtree_unpack_check(buf + size, hash_size) == 0) {
     kvtree_err("Malformed hash in %s @ %s:%d",
       file, __FILE__, __LINE__
     );
-- 
2.43.0


From a4c05ffaf08234c43185bf30dcb0dfcd53334cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 26/26] fix: kvtree_exchange_sendq on a missing send tree
 leaked its copy and reported success

---
 src/kvtree_mpi.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kvtree_mpi.c b/src/kvtree_mpi.c
index 8ce26e8..5201bc5 100644
--- a/src/kvtree_mpi.c
+++ b/src/kvtree_mpi.c
@@ -221,6 +221,11 @@ int kvtree_bcast(kvtree* hash, int root, MPI_Comm comm)
 /* insert message destined for rank into send kvtree */
 int kvtree_exchange_sendq(kvtree* send_hash, int rank, const kvtree* msg)
 {
+  /* check that we got a hash to add the message to */
+  if (send_hash == NULL) {
+    return KVTREE_FAILURE;
+  }
+
   /* see whether we've already got data for this rank,
    * if so, merge it in, otherwise create a copy and add it */
   kvtree* hash = kvtree_getf(send_hash, "%d", rank);
-- 
2.43.0

