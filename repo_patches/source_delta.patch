From 9439dfaa037f381ad95bb54485944c6a68e8b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:52 +0000
Subject: [PATCH 01/74] fix: path normalization took names starting with ".."
 for a parent reference

---
 src/evfs_path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index b36e66d..c11bd99 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -301,7 +301,7 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
 
     // Skip '.' segments
     if(!(range_size(&token) == 1 && *token.start == '.')) {
-      if(!strncmp(token.start, "..", 2)) { // Token is '..', Remove previous segment
+      if(range_size(&token) == 2 && !strncmp(token.start, "..", 2)) { // Token is '..', Remove previous segment
         // Search back through mask for most recent kept segment and remove it
         // We preserve ".." segments if no preceding non-".." segment is found
         found_prev_dir = false;
@@ -423,7 +423,7 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
     // Add tokens except for '.'
     if(!(range_size(&token) == 1 && *token.start == '.')) {
       // Pop stack if token is '..' unless the stack is empty
-      if(!strncmp(token.start, "..", 2)) {
+      if(range_size(&token) == 2 && !strncmp(token.start, "..", 2)) {
         if(stack_head > preserved_parent_ref+1) {
           stack_head--;
         } else if(!is_absolute) { // Relative paths need leading ".." preserved
-- 
2.43.0


From 84988a5dc964f24264a5a39b78e5e8983392889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:52 +0000
Subject: [PATCH 02/74] fix: path join left no room for the terminator and
 truncated the result

---
 src/evfs_path.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index c11bd99..305bf25 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -194,25 +194,26 @@ int evfs_vfs_path_join(Evfs *vfs, StringRange *head, StringRange *tail, StringRa
   size_t head_len = range_strlen(head);
   size_t tail_len = range_strlen(tail);
   // We need to fit in the joined string, possibly with a new separator
-  size_t joined_len = head_len + 1 + tail_len;
+  // If head is empty no separator
+  // If head is only a root component we don't need to add an extra separator
+  StringRange root;
+  vfs->m_path_root_component(vfs, head->start, &root);
+  bool add_sep = head_len > 0 && head_len != (size_t)range_size(&root);
+
+  size_t joined_len = head_len + (add_sep ? 1 : 0) + tail_len;
 
 
 #ifndef ALLOW_LONG_PATHS
   if(ASSERT(joined_len < EVFS_MAX_PATH, "joined string too long")) return EVFS_ERR_OVERFLOW;
 #endif
 
-  if(ASSERT(joined_len <= (size_t)range_size(&joined_a), "joined string too long")) return EVFS_ERR_OVERFLOW;
+  if(ASSERT(joined_len < (size_t)range_size(&joined_a), "joined string too long")) return EVFS_ERR_OVERFLOW;
 
 
   range_cat_range(&joined_a, head);
 
   // Join with the separator
-  // If head is empty no separator
-  // If head is only a root component we don't need to add an extra separator
-  StringRange root;
-  vfs->m_path_root_component(vfs, head->start, &root);
-
-  if(head_len > 0 && head_len != (size_t)range_size(&root))
+  if(add_sep)
     range_cat_char(&joined_a, EVFS_DIR_SEP);
 
   if(tail_len > 0)
-- 
2.43.0


From 8525b7cd03aa6315cc2ddbd4563a042e57d7f1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:52 +0000
Subject: [PATCH 03/74] fix: basename of an empty path read before the string

---
 src/evfs_path.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 305bf25..899b503 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -95,15 +95,12 @@ Returns:
 int evfs_path_basename(const char *path, StringRange *tail) {
   if(PTR_CHECK(path) || PTR_CHECK(tail)) return EVFS_ERR_BAD_ARG;
   const char *end = (char *)path + strlen(path);
-  const char *pos = end - 1;
+  const char *pos = end;
 
   // Look for rightmost delimiter
-  while(pos > path && !char_match(*pos, EVFS_PATH_SEPS)) // Skip basename
+  while(pos > path && !char_match(*(pos-1), EVFS_PATH_SEPS)) // Skip basename
     pos--;
 
-  if(char_match(*pos, EVFS_PATH_SEPS))
-    pos++;
-
   range_init(tail, pos, end-pos);
 
   return EVFS_OK;
-- 
2.43.0


From bc2f2ea49bfa6a64a564b770305550a00b7a1199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:52 +0000
Subject: [PATCH 04/74] fix: extension of names with several leading periods

---
 src/evfs_path.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 899b503..bc63f66 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -135,6 +135,10 @@ int evfs_path_extname(const char *path, StringRange *ext) {
     }
   }
 
+  // Leading periods are part of the name
+  while(ext->start < ext->end && *ext->start == '.')
+    ext->start++;
+
   if(pos > ext->start) { // Extension found
     ext->start = pos;
   } else { // Return empty range
-- 
2.43.0


From ba14df6d74fa1636a34445f13dda537f40ee8f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:11 +0000
Subject: [PATCH 05/74] fix: appending to an empty range wrote a NUL past its
 end

---
 src/evfs_path.c          | 3 +++
 src/util/range_strings.c | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index bc63f66..bc7d2d3 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -269,6 +269,9 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
   Trailing slashes are removed
 */
 
+  if(range_size(normalized) <= 0) // No room for the NUL
+    THROW(EVFS_ERR_OVERFLOW);
+
   AppendRange norm_r = *(AppendRange *)normalized; // Duplicate so we preserve original range
 
   unsigned seg_mask = 0; // Bitmask of path segments to retain
diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 2980afd..b851f34 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -321,7 +321,7 @@ int range_cat_str(AppendRange *rng, const char *str) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start && rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strlen(src)); // Add uncopied bytes
   }
@@ -361,7 +361,7 @@ int range_cat_str_no_nul(AppendRange *rng, const char *str) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start && rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strlen(src)); // Add uncopied bytes
   }
@@ -410,7 +410,7 @@ int range_cat_range(AppendRange *rng, StringRange *src_rng) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start && rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strnlen(src, src_rng->end - src)); // Add uncopied bytes
   }
@@ -459,7 +459,7 @@ int range_cat_range_no_nul(AppendRange *rng, StringRange *src_rng) {
   if(done) {
     rng->start = dest;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start && rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strnlen(src, src_rng->end - src)); // Add uncopied bytes
   }
-- 
2.43.0


From 1dfdc918db6bffbef2dae37e07f12c8af688f496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:11 +0000
Subject: [PATCH 06/74] fix: reading the current directory truncated silently
 when it did not fit

---
 src/romfs_fs.c    | 5 +++--
 src/shim_jail.c   | 5 +++--
 src/tar_fs.c      | 5 +++--
 src/tar_rsrc_fs.c | 5 +++--
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 279cf7c..a49a3f6 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -430,8 +430,9 @@ static int romfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   RomfsData *fs_data = (RomfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
-  range_terminate(&r);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    return EVFS_ERR_OVERFLOW;
+
   return EVFS_OK;
 }
 
diff --git a/src/shim_jail.c b/src/shim_jail.c
index 70f3b2d..deb6c1c 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -401,8 +401,9 @@ static int jail__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   JailData *fs_data = (JailData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
   
-  range_cat_str(&r, fs_data->cur_dir);
-  range_terminate(&r);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    return EVFS_ERR_OVERFLOW;
+
   return EVFS_OK;
 }
 
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 9311e12..7ce879d 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -440,8 +440,9 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
-  range_terminate(&r);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    return EVFS_ERR_OVERFLOW;
+
   return EVFS_OK;
 }
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 15854db..4c289a9 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -461,8 +461,9 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
-  range_terminate(&r);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    return EVFS_ERR_OVERFLOW;
+
   return EVFS_OK;
 }
 
-- 
2.43.0


From 6077cfe2091c8f71297acdb61c89abdeee0d6edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:31 +0000
Subject: [PATCH 07/74] fix: jail passed stale or truncated paths below when a
 path was too long

---
 src/shim_jail.c | 54 ++++++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index deb6c1c..2a5ed37 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -81,17 +81,19 @@ typedef struct JailDir_s {
 
 
 // Convert a jailed path into a real path on the base VFS
-static void unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
+static int unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   JailData *shim_data = (JailData *)vfs->fs_data;
 
   AppendRange real_r = *(AppendRange *)real_path;
 
   // Start with jail root
-  range_cat_str(&real_r, shim_data->jail_root);
-  range_cat_char(&real_r, EVFS_DIR_SEP);
+  if(range_cat_str(&real_r, shim_data->jail_root) < 0 || range_cat_char(&real_r, EVFS_DIR_SEP) < 0)
+    return EVFS_ERR_OVERFLOW;
 
   // Convert path to absolute within the jail subtree
-  evfs_vfs_path_absolute(vfs, path, (StringRange *)&real_r);
+  int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&real_r);
+  if(status != EVFS_OK)
+    return status;
 
 //  DPRINT("Unjail: '%.*s'", RANGE_FMT(real_path));
 
@@ -106,6 +108,8 @@ static void unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   }
 
 //  DPRINT("\t\t'%.*s'", RANGE_FMT(real_path));
+
+  return EVFS_OK;
 }
 
 
@@ -276,9 +280,9 @@ static int jail__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
-
-  int status = base_vfs->m_open(base_vfs, shim_data->tmp_path, fil->base_file, flags);
+  int status = unjail_path(vfs, path, &real_path_r);
+  if(status == EVFS_OK)
+    status = base_vfs->m_open(base_vfs, shim_data->tmp_path, fil->base_file, flags);
   UNLOCK();
   
   if(status == EVFS_OK) {
@@ -304,9 +308,9 @@ static int jail__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
-
-  int status = base_vfs->m_stat(base_vfs, shim_data->tmp_path, info);
+  int status = unjail_path(vfs, path, &real_path_r);
+  if(status == EVFS_OK)
+    status = base_vfs->m_stat(base_vfs, shim_data->tmp_path, info);
   UNLOCK();
 
   return status;
@@ -320,9 +324,9 @@ static int jail__delete(Evfs *vfs, const char *path) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
-
-  int status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
+  int status = unjail_path(vfs, path, &real_path_r);
+  if(status == EVFS_OK)
+    status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
   UNLOCK();
 
   return status;
@@ -335,13 +339,15 @@ static int jail__rename(Evfs *vfs, const char *old_path, const char *new_path) {
 
   LOCK();
   StringRange real_old_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, old_path, &real_old_path_r);
+  int status = unjail_path(vfs, old_path, &real_old_path_r);
 
   char real_new_path[EVFS_MAX_PATH];
   StringRange real_new_path_r = RANGE_FROM_ARRAY(real_new_path);
-  unjail_path(vfs, new_path, &real_new_path_r);
+  if(status == EVFS_OK)
+    status = unjail_path(vfs, new_path, &real_new_path_r);
 
-  int status = base_vfs->m_rename(base_vfs, shim_data->tmp_path, real_new_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_rename(base_vfs, shim_data->tmp_path, real_new_path);
   UNLOCK();
 
   return status;
@@ -354,9 +360,9 @@ static int jail__make_dir(Evfs *vfs, const char *path) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
-
-  int status = base_vfs->m_make_dir(base_vfs, shim_data->tmp_path);
+  int status = unjail_path(vfs, path, &real_path_r);
+  if(status == EVFS_OK)
+    status = base_vfs->m_make_dir(base_vfs, shim_data->tmp_path);
   UNLOCK();
 
   return status;
@@ -374,9 +380,9 @@ static int jail__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
-
-  int status = base_vfs->m_open_dir(base_vfs, shim_data->tmp_path, dir->base_dir);
+  int status = unjail_path(vfs, path, &real_path_r);
+  if(status == EVFS_OK)
+    status = base_vfs->m_open_dir(base_vfs, shim_data->tmp_path, dir->base_dir);
   UNLOCK();
 
   if(status == EVFS_OK) {
@@ -507,7 +513,9 @@ int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const cha
   // Convert jail root to absolute
   char abs_root[EVFS_MAX_PATH];
   StringRange abs_root_r = RANGE_FROM_ARRAY(abs_root);
-  evfs_vfs_path_absolute(base_vfs, jail_root, &abs_root_r);
+  int status = evfs_vfs_path_absolute(base_vfs, jail_root, &abs_root_r);
+  if(status != EVFS_OK)
+    return status;
 
   // Construct a new VFS
   // We have four objects allocated together [Evfs][JailData][char[]][char[]]
-- 
2.43.0


From 0ab549c9973c9d9df5b944722ed62e58d19eaefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 08/74] fix: tar lookups depended on path spelling and kept the
 lock on failure

Only the exact spelling of an absolute path was found, relative paths that
could not be converted returned with the lock held (or leaked the buffer),
a path not in the archive was judged from an uninitialized entry, and the
root directory was unknown so the current directory could not return to it.
---
 src/tar_fs.c      | 98 +++++++++++++++++++++++------------------------
 src/tar_rsrc_fs.c | 98 +++++++++++++++++++++++------------------------
 2 files changed, 94 insertions(+), 102 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 7ce879d..eca04a5 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -89,10 +89,17 @@ typedef struct TarfsFile {
 
 
 
-// Helper to convert relative paths into absolute for the tfs API
-// Returned path must be freed
+#ifdef EVFS_USE_TARFS_SHARED_BUFFER
+#  define FREE_ABS(abs_path)
+#else
+#  define FREE_ABS(abs_path)  evfs_free(abs_path)
+#endif
+
+
+// Helper to convert paths into normalized absolute form for the tfs API
+// The lock must be held by the caller. Returned path must be freed with FREE_ABS()
 
-static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool force_malloc) {
+static int make_absolute_path(Evfs *vfs, const char *path, char **absolute) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   *absolute = NULL;
 
@@ -100,23 +107,17 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   char *abs_path = NULL;
 
 #ifdef EVFS_USE_TARFS_SHARED_BUFFER
-  if(!force_malloc) {
-    abs_size = COUNT_OF(fs_data->abs_path);
-    LOCK(); // Unlocked by FREE_ABS() macro
-    abs_path = fs_data->abs_path;
-  }
-#endif
-
-  if(force_malloc || !abs_path) {
-    abs_size = strlen(path) + 1;
-    *absolute = NULL;
+  abs_size = COUNT_OF(fs_data->abs_path);
+  abs_path = fs_data->abs_path;
+#else
+  abs_size = strlen(path) + 1;
 
-    if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
-      abs_size += strlen(fs_data->cur_dir) + 1;
+  if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
+    abs_size += strlen(fs_data->cur_dir) + 1;
 
-    abs_path = evfs_malloc(abs_size);
-    if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
-  }
+  abs_path = evfs_malloc(abs_size);
+  if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
+#endif
 
 
   AppendRange abs_path_r;
@@ -125,26 +126,13 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
   if(status == EVFS_OK)
     *absolute = abs_path;
+  else
+    FREE_ABS(abs_path);
 
   return status;
 }
 
 
-// Prepare a buffer for the absolute path
-#define MAKE_ABS(path, abs_path) char *abs_path; do { \
- int status = make_absolute_path(vfs, path, &abs_path, false); \
- if(status != EVFS_OK) \
-    return status; \
-} while(0)
-
-
-#ifdef EVFS_USE_TARFS_SHARED_BUFFER
-#  define FREE_ABS(abs_path)  UNLOCK()
-#else
-#  define FREE_ABS(abs_path)  evfs_free(abs_path)
-#endif
-
-
 // ******************** Tar index ********************
 
 
@@ -250,6 +238,12 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
 static inline bool tarfs__lookup_path(EvfsTarIndex *ht, const char *path, EvfsTarEntry *entry) {
   if(path[0] != '/') return false; // All paths must be absolute
 
+  if(path[1] == '\0') { // The root directory isn't in the archive
+    entry->header_offset = -1;
+    entry->file_size = -1;
+    return true;
+  }
+
   dhKey key;
 
   key.data = &path[1];
@@ -259,6 +253,23 @@ static inline bool tarfs__lookup_path(EvfsTarIndex *ht, const char *path, EvfsTa
 }
 
 
+// Find the entry for any path. Returns an error if it isn't in the archive.
+static int tarfs__find_entry(Evfs *vfs, const char *path, EvfsTarEntry *entry) {
+  TarfsData *fs_data = (TarfsData *)vfs->fs_data;
+  char *abs_path;
+
+  LOCK();
+  int err = make_absolute_path(vfs, path, &abs_path);
+  if(err == EVFS_OK) {
+    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, entry) ? EVFS_OK : EVFS_ERR;
+    FREE_ABS(abs_path);
+  }
+  UNLOCK();
+
+  return err;
+}
+
+
 
 // ******************** File access methods ********************
 
@@ -380,16 +391,9 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
     return EVFS_ERR_NO_SUPPORT;
 
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+  err = tarfs__find_entry(vfs, path, &entry);
 
-  if(entry.header_offset < 0)
+  if(err == EVFS_OK && entry.header_offset < 0)
     err = EVFS_ERR_IS_DIR;
 
   if(err == EVFS_OK) {
@@ -408,17 +412,9 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
 
 static int tarfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
-  TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   EvfsTarEntry entry;
-  int err;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+  int err = tarfs__find_entry(vfs, path, &entry);
 
   memset(info, 0, sizeof(*info));
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 4c289a9..a0da0ae 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -99,10 +99,17 @@ typedef struct TarfsFile {
 
 
 
-// Helper to convert relative paths into absolute for the tfs API
-// Returned path must be freed
+#ifdef EVFS_USE_TARFS_SHARED_BUFFER
+#  define FREE_ABS(abs_path)
+#else
+#  define FREE_ABS(abs_path)  evfs_free(abs_path)
+#endif
+
+
+// Helper to convert paths into normalized absolute form for the tfs API
+// The lock must be held by the caller. Returned path must be freed with FREE_ABS()
 
-static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool force_malloc) {
+static int make_absolute_path(Evfs *vfs, const char *path, char **absolute) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   *absolute = NULL;
 
@@ -110,23 +117,17 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   char *abs_path = NULL;
 
 #ifdef EVFS_USE_TARFS_SHARED_BUFFER
-  if(!force_malloc) {
-    abs_size = COUNT_OF(fs_data->abs_path);
-    LOCK(); // Unlocked by FREE_ABS() macro
-    abs_path = fs_data->abs_path;
-  }
-#endif
-
-  if(force_malloc || !abs_path) {
-    abs_size = strlen(path) + 1;
-    *absolute = NULL;
+  abs_size = COUNT_OF(fs_data->abs_path);
+  abs_path = fs_data->abs_path;
+#else
+  abs_size = strlen(path) + 1;
 
-    if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
-      abs_size += strlen(fs_data->cur_dir) + 1;
+  if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
+    abs_size += strlen(fs_data->cur_dir) + 1;
 
-    abs_path = evfs_malloc(abs_size);
-    if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
-  }
+  abs_path = evfs_malloc(abs_size);
+  if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
+#endif
 
 
   AppendRange abs_path_r;
@@ -135,26 +136,13 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
   if(status == EVFS_OK)
     *absolute = abs_path;
+  else
+    FREE_ABS(abs_path);
 
   return status;
 }
 
 
-// Prepare a buffer for the absolute path
-#define MAKE_ABS(path, abs_path) char *abs_path; do { \
- int status = make_absolute_path(vfs, path, &abs_path, false); \
- if(status != EVFS_OK) \
-    return status; \
-} while(0)
-
-
-#ifdef EVFS_USE_TARFS_SHARED_BUFFER
-#  define FREE_ABS(abs_path)  UNLOCK()
-#else
-#  define FREE_ABS(abs_path)  evfs_free(abs_path)
-#endif
-
-
 // ******************** Tar index ********************
 
 
@@ -260,6 +248,12 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
 static inline bool tarfs__lookup_path(EvfsTarIndex *ht, const char *path, EvfsTarEntry *entry) {
   if(path[0] != '/') return false; // All paths must be absolute
 
+  if(path[1] == '\0') { // The root directory isn't in the archive
+    entry->header_offset = -1;
+    entry->file_size = -1;
+    return true;
+  }
+
   dhKey key;
 
   key.data = &path[1];
@@ -269,6 +263,23 @@ static inline bool tarfs__lookup_path(EvfsTarIndex *ht, const char *path, EvfsTa
 }
 
 
+// Find the entry for any path. Returns an error if it isn't in the archive.
+static int tarfs__find_entry(Evfs *vfs, const char *path, EvfsTarEntry *entry) {
+  TarfsData *fs_data = (TarfsData *)vfs->fs_data;
+  char *abs_path;
+
+  LOCK();
+  int err = make_absolute_path(vfs, path, &abs_path);
+  if(err == EVFS_OK) {
+    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, entry) ? EVFS_OK : EVFS_ERR;
+    FREE_ABS(abs_path);
+  }
+  UNLOCK();
+
+  return err;
+}
+
+
 
 // ******************** File access methods ********************
 
@@ -401,16 +412,9 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
     return EVFS_ERR_NO_SUPPORT;
 
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+  err = tarfs__find_entry(vfs, path, &entry);
 
-  if(entry.header_offset < 0)
+  if(err == EVFS_OK && entry.header_offset < 0)
     err = EVFS_ERR_IS_DIR;
 
   if(err == EVFS_OK) {
@@ -429,17 +433,9 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
 
 static int tarfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
-  TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   EvfsTarEntry entry;
-  int err;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+  int err = tarfs__find_entry(vfs, path, &entry);
 
   memset(info, 0, sizeof(*info));
 
-- 
2.43.0


From 21642bf8fe40728beba6c2cb8a51fa61d723f282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:12 +0000
Subject: [PATCH 09/74] fix: changing the current directory could store a
 denormal or garbage path

Absolute paths were stored as given and the joined path was used even when
joining it had failed (jail, tar, tar resource, romfs).
---
 src/romfs_fs.c    | 48 +++++++++++++----------------------------------
 src/shim_jail.c   | 45 +++++++++++++-------------------------------
 src/tar_fs.c      | 45 ++++++++++++++------------------------------
 src/tar_rsrc_fs.c | 45 ++++++++++++++------------------------------
 4 files changed, 54 insertions(+), 129 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index a49a3f6..b3c84b4 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -441,44 +441,22 @@ static int romfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int romfs__set_cur_dir(Evfs *vfs, const char *path) {
   RomfsData *fs_data = (RomfsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
+  char new_dir[EVFS_MAX_PATH];
+  StringRange new_dir_r = RANGE_FROM_ARRAY(new_dir);
 
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
-
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
-
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
-
-    // We must normalize now because the fast index can't handle denormal paths
-    range_init(&joined, joined_path, joined_size);
-    evfs_vfs_path_normalize(vfs, joined_path, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+  // Get the normalized absolute path
+  int status = evfs_vfs_path_absolute(vfs, path, &new_dir_r);
+  if(status != EVFS_OK)
+    return status;
 
-    // Overwrite old cur_dir
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_cat_str((AppendRange *)&head, joined_path);
+  // Confirm the path exists
+  if(!evfs__vfs_existing_dir(vfs, new_dir))
+    return EVFS_ERR_NO_PATH;
 
-    evfs_free(joined_path);
-  }
+  // Overwrite old cur_dir
+  LOCK();
+  strcpy(fs_data->cur_dir, new_dir);
+  UNLOCK();
 
   return EVFS_OK;
 }
diff --git a/src/shim_jail.c b/src/shim_jail.c
index 2a5ed37..10a1c4b 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -418,41 +418,22 @@ static int jail__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int jail__set_cur_dir(Evfs *vfs, const char *path) {
   JailData *shim_data = (JailData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
+  char new_dir[EVFS_MAX_PATH];
+  StringRange new_dir_r = RANGE_FROM_ARRAY(new_dir);
 
-    strlcpy(shim_data->cur_dir, path, sizeof(shim_data->cur_dir));
-    shim_data->cur_dir[sizeof(shim_data->cur_dir)-1] = '\0';
-
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-
-    range_init(&head, shim_data->cur_dir, sizeof(shim_data->cur_dir));
-    range_init(&tail, (char *)path, strlen(path));
-
-    // Note: evfs__vfs_existing_dir() below is going to take the lock (via jail__stat) so
-    //       we have to malloc a buffer.
-    size_t joined_size = strlen(shim_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+  // Get the normalized absolute path
+  int status = evfs_vfs_path_absolute(vfs, path, &new_dir_r);
+  if(status != EVFS_OK)
+    return status;
 
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+  // Confirm the path exists
+  if(!evfs__vfs_existing_dir(vfs, new_dir))
+    return EVFS_ERR_NO_PATH;
 
-    evfs_free(joined_path);
-  }
+  // Overwrite old cur_dir
+  LOCK();
+  strcpy(shim_data->cur_dir, new_dir);
+  UNLOCK();
 
   return EVFS_OK;
 }
diff --git a/src/tar_fs.c b/src/tar_fs.c
index eca04a5..8febc8f 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -447,39 +447,22 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-  
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
-
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-    
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
-    
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+  char new_dir[EVFS_MAX_PATH];
+  StringRange new_dir_r = RANGE_FROM_ARRAY(new_dir);
 
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+  // Get the normalized absolute path
+  int status = evfs_vfs_path_absolute(vfs, path, &new_dir_r);
+  if(status != EVFS_OK)
+    return status;
 
-    evfs_free(joined_path);
-  }
+  // Confirm the path exists
+  if(!evfs__vfs_existing_dir(vfs, new_dir))
+    return EVFS_ERR_NO_PATH;
+
+  // Overwrite old cur_dir
+  LOCK();
+  strcpy(fs_data->cur_dir, new_dir);
+  UNLOCK();
 
   return EVFS_OK;
 }
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index a0da0ae..137a3a9 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -468,39 +468,22 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-  
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
-
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-    
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
-    
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+  char new_dir[EVFS_MAX_PATH];
+  StringRange new_dir_r = RANGE_FROM_ARRAY(new_dir);
 
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+  // Get the normalized absolute path
+  int status = evfs_vfs_path_absolute(vfs, path, &new_dir_r);
+  if(status != EVFS_OK)
+    return status;
 
-    evfs_free(joined_path);
-  }
+  // Confirm the path exists
+  if(!evfs__vfs_existing_dir(vfs, new_dir))
+    return EVFS_ERR_NO_PATH;
+
+  // Overwrite old cur_dir
+  LOCK();
+  strcpy(fs_data->cur_dir, new_dir);
+  UNLOCK();
 
   return EVFS_OK;
 }
-- 
2.43.0


From 1ef7d8ab78cc093333c6eb4cc527907d383f86bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:31 +0000
Subject: [PATCH 10/74] fix: tar index keys of full-length names, prefixed
 names and ./ members

A 100 character name has no NUL so the key ran on into the next field, a
prefix was joined without a separator, and members of an archive of "."
could not be found by their path.
---
 src/tar_fs.c      | 54 ++++++++++++++++++++++++++++++++++-------------
 src/tar_rsrc_fs.c | 54 ++++++++++++++++++++++++++++++++++-------------
 2 files changed, 78 insertions(+), 30 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 8febc8f..6fcee4b 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -90,7 +90,7 @@ typedef struct TarfsFile {
 
 
 #ifdef EVFS_USE_TARFS_SHARED_BUFFER
-#  define FREE_ABS(abs_path)
+#  define FREE_ABS(abs_path)  ((void)0)
 #else
 #  define FREE_ABS(abs_path)  evfs_free(abs_path)
 #endif
@@ -167,6 +167,39 @@ static void tarfs__index_hash_free(EvfsTarIndex *ht) {
 }
 
 
+// Build the index key for an archive entry: its path without a leading "./" or
+// trailing slash. The key can be NULL to only get its size including the NUL.
+static size_t tarfs__entry_path(TarHeader *header, char *key) {
+  // These fields don't have a NUL when they are full
+  const char *prefix = (const char *)header->file_prefix;
+  size_t prefix_len  = strnlen(prefix, sizeof(header->file_prefix));
+  const char *name   = (const char *)header->file_name;
+  size_t name_len    = strnlen(name, sizeof(header->file_name));
+
+  const char **first = prefix_len > 0 ? &prefix : &name;
+  size_t *first_len  = prefix_len > 0 ? &prefix_len : &name_len;
+  while(*first_len > 0 && (**first == '/' || (**first == '.' && (*first_len == 1 || (*first)[1] == '/')))) {
+    (*first)++;
+    (*first_len)--;
+  }
+
+  while(name_len > 0 && name[name_len-1] == '/')
+    name_len--;
+
+  size_t sep_len = prefix_len > 0 ? 1 : 0;
+
+  if(key) {
+    memcpy(key, prefix, prefix_len);
+    if(sep_len > 0)
+      key[prefix_len] = '/';
+    memcpy(&key[prefix_len + sep_len], name, name_len);
+    key[prefix_len + sep_len + name_len] = '\0';
+  }
+
+  return prefix_len + sep_len + name_len + 1;
+}
+
+
 static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
   if(!tar_iter_begin(tar_it)) return EVFS_ERR;
 
@@ -179,8 +212,7 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
        tar_it->cur_header.type_flag != TAR_TYPE_DIRECTORY) continue;
 
     total_files++;
-    total_path_len += strlen((char *)tar_it->cur_header.file_name) +
-                      strlen((char *)tar_it->cur_header.file_prefix) + 1;
+    total_path_len += tarfs__entry_path(&tar_it->cur_header, NULL);
 
   } while(tar_iter_next(tar_it));
 
@@ -190,8 +222,7 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
   if(err != EVFS_OK) return err;
 
 
-  AppendRange keys_r;
-  range_init(&keys_r, ht->keys, total_path_len);
+  char *key_pos = ht->keys;
 
   // Build the index
   tar_iter_begin(tar_it);
@@ -204,13 +235,9 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
 
     dhKey key;
 
-    key.data = keys_r.start;
-    key.length = 0;
-    if(tar_it->cur_header.file_prefix[0] != '\0')
-      key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header.file_prefix);
-// FIXME: Add path sep
-    key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header.file_name);
-    range_cat_char(&keys_r,'\0');
+    key.data = key_pos;
+    key_pos += tarfs__entry_path(&tar_it->cur_header, key_pos);
+    key.length = strlen(key.data);
 
     EvfsTarEntry entry;
 
@@ -220,9 +247,6 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
     } else {  // Directory entry
       entry.header_offset = -1;
       entry.file_size = -1;
-
-      // Removing trailing slash
-      ((char *)key.data)[--key.length] = '\0';
     }
 
     if(!dh_insert(&ht->hash_table, key, &entry))
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 137a3a9..f633a7c 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -100,7 +100,7 @@ typedef struct TarfsFile {
 
 
 #ifdef EVFS_USE_TARFS_SHARED_BUFFER
-#  define FREE_ABS(abs_path)
+#  define FREE_ABS(abs_path)  ((void)0)
 #else
 #  define FREE_ABS(abs_path)  evfs_free(abs_path)
 #endif
@@ -177,6 +177,39 @@ static void tarfs__index_hash_free(EvfsTarIndex *ht) {
 }
 
 
+// Build the index key for an archive entry: its path without a leading "./" or
+// trailing slash. The key can be NULL to only get its size including the NUL.
+static size_t tarfs__entry_path(TarHeader *header, char *key) {
+  // These fields don't have a NUL when they are full
+  const char *prefix = (const char *)header->file_prefix;
+  size_t prefix_len  = strnlen(prefix, sizeof(header->file_prefix));
+  const char *name   = (const char *)header->file_name;
+  size_t name_len    = strnlen(name, sizeof(header->file_name));
+
+  const char **first = prefix_len > 0 ? &prefix : &name;
+  size_t *first_len  = prefix_len > 0 ? &prefix_len : &name_len;
+  while(*first_len > 0 && (**first == '/' || (**first == '.' && (*first_len == 1 || (*first)[1] == '/')))) {
+    (*first)++;
+    (*first_len)--;
+  }
+
+  while(name_len > 0 && name[name_len-1] == '/')
+    name_len--;
+
+  size_t sep_len = prefix_len > 0 ? 1 : 0;
+
+  if(key) {
+    memcpy(key, prefix, prefix_len);
+    if(sep_len > 0)
+      key[prefix_len] = '/';
+    memcpy(&key[prefix_len + sep_len], name, name_len);
+    key[prefix_len + sep_len + name_len] = '\0';
+  }
+
+  return prefix_len + sep_len + name_len + 1;
+}
+
+
 static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
   if(!tar_rsrc_iter_begin(tar_it)) return EVFS_ERR;
 
@@ -189,8 +222,7 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
        tar_it->cur_header->type_flag != TAR_TYPE_DIRECTORY) continue;
 
     total_files++;
-    total_path_len += strlen((char *)tar_it->cur_header->file_name) +
-                      strlen((char *)tar_it->cur_header->file_prefix) + 1;
+    total_path_len += tarfs__entry_path(tar_it->cur_header, NULL);
 
   } while(tar_rsrc_iter_next(tar_it));
 
@@ -200,8 +232,7 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
   if(err != EVFS_OK) return err;
 
 
-  AppendRange keys_r;
-  range_init(&keys_r, ht->keys, total_path_len);
+  char *key_pos = ht->keys;
 
   // Build the index
   tar_rsrc_iter_begin(tar_it);
@@ -214,13 +245,9 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
 
     dhKey key;
 
-    key.data = keys_r.start;
-    key.length = 0;
-    if(tar_it->cur_header->file_prefix[0] != '\0')
-      key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header->file_prefix);
-
-    key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header->file_name);
-    range_cat_char(&keys_r,'\0');
+    key.data = key_pos;
+    key_pos += tarfs__entry_path(tar_it->cur_header, key_pos);
+    key.length = strlen(key.data);
 
     EvfsTarEntry entry;
 
@@ -230,9 +257,6 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
     } else {  // Directory entry
       entry.header_offset = -1;
       entry.file_size = -1;
-
-      // Removing trailing slash
-      ((char *)key.data)[--key.length] = '\0';
     }
 
     if(!dh_insert(&ht->hash_table, key, &entry))
-- 
2.43.0


From 7c3506394fd1555fc1cd6c69bd421c11c11fb2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:06 +0000
Subject: [PATCH 11/74] fix: mounting an unreadable tar archive or romfs image
 left things behind

A tar archive without a valid first header was registered with no index, and
a rejected romfs image leaked the VFS.
---
 src/romfs_fs.c    | 7 ++++++-
 src/tar_fs.c      | 8 +++++++-
 src/tar_rsrc_fs.c | 8 +++++++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index b3c84b4..cd4b56a 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -559,8 +559,13 @@ static int evfs__register_romfs_cfg(const char *vfs_name, RomfsConfig *cfg, bool
     .unmount    = romfs_unmount_image
   };*/
   int status = romfs_init(&fs_data->romfs, cfg);
-  if(status != EVFS_OK)
+  if(status != EVFS_OK) {
+#ifdef USE_ROMFS_LOCK
+    evfs__lock_destroy(&fs_data->romfs_lock);
+#endif
+    evfs_free(new_vfs);
     return status;
+  }
 
   return evfs_register(new_vfs, default_vfs);
 }
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 6fcee4b..db983fe 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -566,7 +566,12 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
 
   TarFileIterator tar_it;
   tar_iter_init(&tar_it, fs_data->tar_file);
-  tarfs__build_index(&tar_it, &fs_data->tar_index);
+  int status = tarfs__build_index(&tar_it, &fs_data->tar_index);
+  if(status != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
+    evfs_free(new_vfs);
+    THROW(status);
+  }
 
   // Init VFS
   new_vfs->vfs_file_size = sizeof(TarfsFile);
@@ -585,6 +590,7 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
 
 #ifdef USE_TARFS_LOCK
   if(evfs__lock_init(&fs_data->tfs_lock) != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
     evfs_free(new_vfs);
     THROW(EVFS_ERR_INIT);
   }
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index f633a7c..77c9642 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -590,7 +590,12 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
 
   TarRsrcIterator tar_it;
   tar_rsrc_iter_init(&tar_it, resource, resource_len);
-  tarfs__build_index(&tar_it, &fs_data->tar_index);
+  int status = tarfs__build_index(&tar_it, &fs_data->tar_index);
+  if(status != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
+    evfs_free(new_vfs);
+    THROW(status);
+  }
 
   // Init VFS
   new_vfs->vfs_file_size = sizeof(TarfsFile);
@@ -609,6 +614,7 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
 
 #ifdef USE_TARFS_LOCK
   if(evfs__lock_init(&fs_data->tfs_lock) != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
     evfs_free(new_vfs);
     THROW(EVFS_ERR_INIT);
   }
-- 
2.43.0


From 7d88063107ed45e87d4cd3f33700d97339c21b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:07 +0000
Subject: [PATCH 12/74] fix: a failed or short read moved the position of tar
 and romfs files

---
 src/romfs_fs.c |  9 +++++++--
 src/tar_fs.c   | 10 +++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index cd4b56a..36874f4 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -190,9 +190,11 @@ static ptrdiff_t romfs__file_read(EvfsFile *fh, void *buf, size_t size) {
   LOCK();
   evfs_off_t data_offset = FILE_OFFSET(&fil->hdr) + fil->hdr.header_len + fil->read_pos;
   ptrdiff_t rval = romfs_read(&fs_data->romfs, data_offset, buf, size);
-  fil->read_pos += size;
   UNLOCK();
 
+  if(rval > 0)
+    fil->read_pos += rval;
+
   //DPRINT("## READ: @ %ld,  %ld  '%02X'", fil->read_pos-size, size, *((uint8_t *)buf));
 
   return rval;
@@ -580,7 +582,10 @@ static void romfs_unmount_image(Romfs *fs) {
 
 static ptrdiff_t romfs_read_image(Romfs *fs, evfs_off_t offset, void *buf, size_t size) {
   EvfsFile *image = (EvfsFile *)fs->ctx;
-  evfs_file_seek(image, offset, EVFS_SEEK_TO);
+  int status = evfs_file_seek(image, offset, EVFS_SEEK_TO);
+  if(status != EVFS_OK)
+    return status;
+
   return evfs_file_read(image, buf, size);
 }
 
diff --git a/src/tar_fs.c b/src/tar_fs.c
index db983fe..434817e 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -321,11 +321,15 @@ static ptrdiff_t tarfs__file_read(EvfsFile *fh, void *buf, size_t size) {
     size = remaining;
 
   LOCK();
-  evfs_file_seek(fs_data->tar_file, fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos, EVFS_SEEK_TO);
-  fil->read_pos += size;
-  ptrdiff_t rval = evfs_file_read(fs_data->tar_file, buf, size);
+  ptrdiff_t rval = evfs_file_seek(fs_data->tar_file, fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos,
+                                  EVFS_SEEK_TO);
+  if(rval == EVFS_OK)
+    rval = evfs_file_read(fs_data->tar_file, buf, size);
   UNLOCK();
 
+  if(rval > 0)
+    fil->read_pos += rval;
+
   return rval;
 }
 
-- 
2.43.0


From 246a94055ac10d713c3d1280e72d2866bd2a9fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:23 +0000
Subject: [PATCH 13/74] fix: romfs lookups depended on path spelling and the
 image was read unlocked

Only the exact spelling of an absolute path was found through the index,
relative paths that could not be converted returned with the lock held, and
threads could move the image position between each other's seek and read.
---
 src/romfs_fs.c | 75 ++++++++++++++++++++++----------------------------
 1 file changed, 33 insertions(+), 42 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 36874f4..f4033d1 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -32,7 +32,8 @@ Embedded Virtual Filesystem
 ///////////////////////////////////////////////////////////////////////////////////
 
 // Shared buffer needs lock if threading is enabled
-#if defined EVFS_USE_ROMFS_SHARED_BUFFER && defined EVFS_USE_THREADING
+// We also need a lock for reading the image in a threaded system
+#if defined EVFS_USE_THREADING
 #  define USE_ROMFS_LOCK
 #endif
 
@@ -56,7 +57,7 @@ typedef struct RomfsData {
   char      abs_path[EVFS_MAX_PATH]; // Shared buffer for building absolute paths
 #endif
 #ifdef USE_ROMFS_LOCK
-  EvfsLock  romfs_lock; // Serialize access to shared abs_path buffer
+  EvfsLock  romfs_lock; // Serialize access to shared abs_path buffer and the image
 #endif
 
   Romfs romfs;
@@ -86,9 +87,16 @@ typedef struct RomfsDir {
 } RomfsDir;
 
 
-// Helper to convert relative paths into absolute for the Romfs API
-// Returned path must be freed
-static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool force_malloc) {
+#ifdef EVFS_USE_ROMFS_SHARED_BUFFER
+#  define FREE_ABS(abs_path)  ((void)0)
+#else
+#  define FREE_ABS(abs_path)  evfs_free(abs_path)
+#endif
+
+
+// Helper to convert paths into normalized absolute form for the Romfs API
+// The lock must be held by the caller. Returned path must be freed with FREE_ABS()
+static int make_absolute_path(Evfs *vfs, const char *path, char **absolute) {
   RomfsData *fs_data = (RomfsData *)vfs->fs_data;
   *absolute = NULL;
 
@@ -96,23 +104,17 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   char *abs_path = NULL;
 
 #ifdef EVFS_USE_ROMFS_SHARED_BUFFER
-  if(!force_malloc) {
-    abs_size = COUNT_OF(fs_data->abs_path);
-    LOCK();
-    abs_path = fs_data->abs_path;
-  }
-#endif
-
-  if(force_malloc || !abs_path) {
-    abs_size = strlen(path) + 1;
-    *absolute = NULL;
+  abs_size = COUNT_OF(fs_data->abs_path);
+  abs_path = fs_data->abs_path;
+#else
+  abs_size = strlen(path) + 1;
 
-    if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
-      abs_size += strlen(fs_data->cur_dir) + 1;
+  if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
+    abs_size += strlen(fs_data->cur_dir) + 1;
 
-    abs_path = evfs_malloc(abs_size);
-    if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
-  }
+  abs_path = evfs_malloc(abs_size);
+  if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
+#endif
 
   AppendRange abs_path_r;
   range_init(&abs_path_r, abs_path, abs_size);
@@ -120,24 +122,12 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
   if(status == EVFS_OK)
     *absolute = abs_path;
+  else
+    FREE_ABS(abs_path);
 
   return status;
 }
 
-// Prepare a buffer for the absolute path
-#define MAKE_ABS(path, abs_path) char *abs_path; do { \
- int status_ma = make_absolute_path(vfs, path, &abs_path, false); \
- if(status_ma != EVFS_OK) \
-    return status_ma; \
-} while(0)
-
-
-#ifdef EVFS_USE_ROMFS_SHARED_BUFFER
-#  define FREE_ABS(abs_path)  UNLOCK()
-#else
-#  define FREE_ABS(abs_path)  evfs_free(abs_path)
-#endif
-
 
 
 
@@ -278,6 +268,8 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
   int status;
   evfs_off_t next_entry;
 
+  LOCK();
+
   // Advance to next directory
   if(dir->is_reset) { // Init iterator
     romfs_read_file_header(&fs_data->romfs, dir->dir_pos, &dir->cur_file);
@@ -302,6 +294,7 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
     status = EVFS_DONE;
   }
 
+  UNLOCK();
 
   memset(info, 0, sizeof(*info));
 
@@ -340,16 +333,15 @@ static EvfsDirMethods s_romfs_dir_methods = {
 
 static inline int romfs__lookup_path(Evfs *vfs, RomfsData *fs_data, const char *path,
                                     RomfsFileHead *hdr) {
-  int status;
-
-  if(evfs_vfs_path_is_absolute(vfs, path)) {
-    status = romfs_lookup_abs_path(&fs_data->romfs, path, hdr);
+  char *abs_path;
 
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
+  LOCK();
+  int status = make_absolute_path(vfs, path, &abs_path);
+  if(status == EVFS_OK) {
     status = romfs_lookup_abs_path(&fs_data->romfs, abs_path, hdr);
     FREE_ABS(abs_path);
   }
+  UNLOCK();
 
   return status;
 }
@@ -414,8 +406,7 @@ static int romfs__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   int status = romfs__lookup_path(vfs, fs_data, path, &hdr);
 
-  int file_type = FILE_TYPE(&hdr);
-  if(status == EVFS_OK && file_type != FILE_TYPE_DIRECTORY) {
+  if(status == EVFS_OK && FILE_TYPE(&hdr) != FILE_TYPE_DIRECTORY) {
     status = EVFS_ERR_NO_PATH;
   }
 
-- 
2.43.0


From 8a66a94bf5e68cbe0c1b8056165152ae40daf1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:55 +0000
Subject: [PATCH 14/74] fix: a file could be created on a read-only file system
 with EVFS_NO_EXIST alone

---
 src/fatfs_fs.c    | 2 +-
 src/littlefs_fs.c | 2 +-
 src/romfs_fs.c    | 2 +-
 src/stdio_fs.c    | 2 +-
 src/tar_fs.c      | 2 +-
 src/tar_rsrc_fs.c | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index e5c15cb..00396fc 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -342,7 +342,7 @@ static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_fatfs_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   BYTE fs_flags = 0;
diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index d84866a..0238ef2 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -310,7 +310,7 @@ static int littlefs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags)
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_littlefs_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   int lfs_flags = 0;
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index f4033d1..4314a99 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -354,7 +354,7 @@ static int romfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_romfs_methods;
 
-  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
+  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND))
     return EVFS_ERR_NO_SUPPORT;
 
 
diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index b9b8f56..bd8e1d7 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -282,7 +282,7 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_stdio_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   // Build mode string from flags
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 434817e..52de77a 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -415,7 +415,7 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_tarfs_methods;
 
-  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
+  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND))
     return EVFS_ERR_NO_SUPPORT;
 
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 77c9642..f69cc92 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -432,7 +432,7 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_tarfs_methods;
 
-  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
+  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND))
     return EVFS_ERR_NO_SUPPORT;
 
 
-- 
2.43.0


From a487b9833137243da451a0e595a7ed27477390a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:11 +0000
Subject: [PATCH 15/74] fix: seeking from the end went past the end on stdio
 and littlefs

---
 src/littlefs_fs.c | 2 +-
 src/stdio_fs.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 0238ef2..37087a8 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -210,7 +210,7 @@ static int littlefs__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir orig
   switch(origin) {
     case EVFS_SEEK_TO:   sorg = LFS_SEEK_SET; break;
     case EVFS_SEEK_REL:  sorg = LFS_SEEK_CUR; break;
-    case EVFS_SEEK_REV:  sorg = LFS_SEEK_END; break;
+    case EVFS_SEEK_REV:  sorg = LFS_SEEK_END; offset = -offset; break;
     default:
       break;
   }
diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index bd8e1d7..60ec91b 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -164,7 +164,7 @@ static int stdio__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
   switch(origin) {
     case EVFS_SEEK_TO:   sorg = SEEK_SET; break;
     case EVFS_SEEK_REL:  sorg = SEEK_CUR; break;
-    case EVFS_SEEK_REV:  sorg = SEEK_END; break;
+    case EVFS_SEEK_REV:  sorg = SEEK_END; offset = -offset; break;
     default:
       break;
   }
-- 
2.43.0


From efd17371c4308d9cc24649210f056e3379fa608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:13 +0000
Subject: [PATCH 16/74] fix: stdio truncation ignored data still in the stream
 buffer

---
 src/stdio_fs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 60ec91b..c7671d0 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -124,6 +124,10 @@ static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  // Buffered data must reach the file before it is truncated
+  if(fflush(fil->fp) != 0)
+    return EVFS_ERR;
+
   return simple_error(ftruncate(fileno(fil->fp), size));
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
-- 
2.43.0


From 83a669166b3aa64da999c5997a66b3ee57c05b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:13 +0000
Subject: [PATCH 17/74] fix: truncating a FAT file to its own size or more
 removed the last byte

---
 src/fatfs_fs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 00396fc..114d8c6 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -160,8 +160,8 @@ static int fatfs__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   // f_lseek() can grow files in write mode which we don't want to do here.
   evfs_off_t file_size = f_size(&fil->fil);
-  if(size >= file_size)
-    size = file_size-1;
+  if(size > file_size)
+    size = file_size;
 
   if(cur_pos > size)
     cur_pos = size;
-- 
2.43.0


From 6be2326fad9710b8ac77371fb527964b95a01bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 18/74] fix: missing file handle or string crashed file
 control, puts and printf

---
 src/evfs.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evfs.c b/src/evfs.c
index 8c3d0aa..d4d2de2 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -1141,6 +1141,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_file_ctrl(EvfsFile *fh, int cmd, void *arg) {
+  if(PTR_CHECK(fh)) return EVFS_ERR_BAD_ARG;
   return fh->methods->m_ctrl(fh, cmd, arg);
 }
 
@@ -1428,6 +1429,8 @@ Returns:
   Number of bytes written on success or negative error code on failure
 */
 int evfs_file_printf(EvfsFile *fh, const char *fmt, ...) {
+  if(PTR_CHECK(fh) || PTR_CHECK(fmt)) return EVFS_ERR_BAD_ARG;
+
   va_list args;
   char *buf;
 
@@ -1457,6 +1460,8 @@ Returns:
   Number of bytes written on success or negative error code on failure
 */
 int evfs_file_puts(EvfsFile *fh, const char *str) {
+  if(PTR_CHECK(fh) || PTR_CHECK(str)) return EVFS_ERR_BAD_ARG;
+
   return evfs_file_write(fh, str, strlen(str));
 }
 
-- 
2.43.0


From fa6c652b2390b40d56a841db89aa832463aced73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 19/74] fix: opening a directory left the handle unset when
 directories are unsupported

---
 src/evfs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evfs.c b/src/evfs.c
index d4d2de2..4004b9a 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -753,6 +753,7 @@ int evfs_open_dir_ex(const char *path, EvfsDir **dh, const char *vfs_name) {
   Evfs *vfs = evfs__get_vfs(vfs_name);
   if(!vfs) THROW(EVFS_ERR_NO_VFS);
 
+  *dh = NULL;
   if(vfs->m_open_dir == default__open_dir) return EVFS_ERR_NO_SUPPORT; // Avoid wasted malloc()
 
 
@@ -782,6 +783,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_vfs_open_dir(Evfs *vfs, const char *path, EvfsDir **dh) {
+  *dh = NULL;
   if(vfs->m_open_dir == default__open_dir) return EVFS_ERR_NO_SUPPORT; // Avoid wasted malloc()
 
 
-- 
2.43.0


From c365b1bcd58374e6325c48c7dc9c7029306b0643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 20/74] fix: making a path succeeded when its last component is
 a file

---
 src/evfs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evfs.c b/src/evfs.c
index 4004b9a..631823f 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -725,6 +725,9 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
     } else if(err != EVFS_OK) { // Can't get status of segment
       rval = err;
       goto cleanup;
+    } else if(!(info.type & EVFS_FILE_DIR)) { // Segment exists but isn't a directory
+      rval = EVFS_ERR_NO_PATH;
+      goto cleanup;
     }
 
     range_cat_char(&cur_path_r, EVFS_DIR_SEP);
-- 
2.43.0


From 3fea652b7510a74f2503e884d9624f40502b32b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:48 +0000
Subject: [PATCH 21/74] fix: making an absolute path moved the start of the
 caller's range

---
 src/evfs.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 631823f..e9666f8 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -699,10 +699,11 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
 
   // Add root separator for absolute paths
   StringRange root;
-  bool is_absolute = vfs->m_path_root_component(vfs, path->start, &root);
+  const char *path_start = path->start; // Don't modify the caller's range
+  bool is_absolute = vfs->m_path_root_component(vfs, path_start, &root);
   if(is_absolute) {
     // Skip over the root component
-    path->start += range_size(&root);
+    path_start += range_size(&root);
     limit -= range_size(&root);
     range_cat_range(&cur_path_r, &root); // Add root component to the buffer
   }
@@ -710,7 +711,7 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
 
   // Iterate over each segment of path creating any non-existant directories
   StringRange token;
-  bool new_tok = range_token_limit(path->start, EVFS_PATH_SEPS, &token, &limit);
+  bool new_tok = range_token_limit(path_start, EVFS_PATH_SEPS, &token, &limit);
   while(new_tok) {
     range_cat_range(&cur_path_r, &token); // Append new token
     EvfsInfo info;
-- 
2.43.0


From c4f2a2fefa9888cdf4a3f8b959a888c378277dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:49 +0000
Subject: [PATCH 22/74] fix: copying reported success when closing the copy
 failed

---
 src/evfs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/evfs.c b/src/evfs.c
index e9666f8..fec009e 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -939,8 +939,11 @@ int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t
   if(alloc_buf)
     evfs_free(buf);
 
+  int status;
 cleanup:
-  evfs_file_close(dest_fh);
+  status = evfs_file_close(dest_fh);
+  if(rval == EVFS_OK)
+    rval = status;
 
   return rval;
 }
-- 
2.43.0


From b750c5624da54c24c0c8ef4e1f85fb765cc7231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:02 +0000
Subject: [PATCH 23/74] fix: glob sets ran past the pattern and wildcards could
 cross a separator

A span ending at 0x7F never finished, an unterminated set continued past the
end of the pattern, sets matched separators and the terminator, and '*' could
skip a separator when the mismatch was found at a later character.
---
 src/util/glob.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/util/glob.c b/src/util/glob.c
index efda6d7..4526a45 100644
--- a/src/util/glob.c
+++ b/src/util/glob.c
@@ -68,7 +68,7 @@ typedef struct {
 
 static const char *parse_range_def(const char *pat_pos, CharSet *cs) {
   const char *rng_pos;
-  char ch, end_ch;
+  char end_ch;
   bool invert = false;
 
   if(*(pat_pos+1) == '!') {
@@ -85,7 +85,7 @@ static const char *parse_range_def(const char *pat_pos, CharSet *cs) {
         break;
       }
 
-      for(ch = *rng_pos; ch <= end_ch; ch++) { // Add all chars in span
+      for(int ch = (uint8_t)*rng_pos; ch <= (uint8_t)end_ch; ch++) { // Add all chars in span
         ADD_TO_SET(cs, ch);
       }
       rng_pos += 2;
@@ -168,7 +168,9 @@ bool glob_match(const char *pattern, const char *str, const char *dir_separators
       case '[': // Character range
         memset(&cs, 0, sizeof(cs));
         pat_pos = parse_range_def(pat_pos, &cs);
-        if(CHAR_IS_IN_SET(&cs, s_ch)) {
+        // Prevent match to directory separator like '?'. An unterminated range doesn't match.
+        if(*pat_pos == ']' && s_ch != '\0' && !char_match(s_ch, dir_separators) &&
+           CHAR_IS_IN_SET(&cs, s_ch)) {
           str_pos++;
           pat_pos++;
           continue;
@@ -187,7 +189,8 @@ bool glob_match(const char *pattern, const char *str, const char *dir_separators
     }
 
     // Mismatch; Recover with backtracking or fail
-    if(pat_star && s_ch != '\0' && !char_match(s_ch, dir_separators)) {
+    // The next char to be skipped by the star can't be a directory separator
+    if(pat_star && *(str_star-1) != '\0' && !char_match(*(str_star-1), dir_separators)) {
       str_pos = str_star;
       pat_pos = pat_star;
       continue;
-- 
2.43.0


From c747163294ebe83361fd8b20fa4f4bc2a2ab4d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 24/74] fix: rotate shim used an uninitialised state pointer
 for ordinary files

---
 src/shim_rotate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 8d6f611..18072e2 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1248,6 +1248,7 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   fil->shim_data = shim_data;
 
   fil->base_file = (EvfsFile *)NEXT_OBJ(fil);  // We have two objects allocated together [RotateFile][<base VFS file size>]
+  fil->rot_state = NULL;
 
   int status;
 
-- 
2.43.0


From d676ac9c3ded75aa3ce72c349acd3c650307da89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 25/74] fix: rotate shim took the oldest chunk for the one
 after a full log

---
 src/shim_rotate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 18072e2..4a4129e 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -373,7 +373,8 @@ static ChunkPos get_chunk_pos(RotateState *rs, evfs_off_t logical_off) {
   ChunkPos pos;
   // Offset by start of logical file and wrap to upper bound
   pos.chunk_num.chunk = (raw_chunk + rs->start_chunk.chunk) % rs->cfg.max_chunks;
-  pos.chunk_num.gen = (pos.chunk_num.chunk < rs->start_chunk.chunk) ?
+  // The position just past a full file is the next generation of the start chunk
+  pos.chunk_num.gen = (raw_chunk + rs->start_chunk.chunk >= rs->cfg.max_chunks) ?
                               1 - rs->start_chunk.gen : rs->start_chunk.gen;
   pos.offset = offset;
   return pos;
-- 
2.43.0


From f28fb3e791c5e904548eea363ff5abd939040464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 26/74] fix: overwriting and failed writes corrupted a rotating
 log

---
 src/shim_rotate.c | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 4a4129e..bb9f63a 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -961,7 +961,7 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
       // If the chunk doesn't exist we need to create it
       if(!chunk_exists(base_vfs, &rs->base, wpos.chunk_num, NULL)) {
         status = append_new_chunk(base_vfs, rs, &new_chunk);
-        if(status != EVFS_OK) return status;
+        if(status != EVFS_OK) break;
 
         // Set new active chunk
         deactivate_chunk(&rs->base);
@@ -969,13 +969,12 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
         rs->base.active_chunk_fh = new_chunk;
       }
 
-      if(wpos.chunk_num.chunk != rs->base.active_chunk.chunk) {
-        status = activate_chunk(base_vfs, &rs->base, wpos.chunk_num);
-        if(status != EVFS_OK) return status;
-      }
+      status = activate_chunk(base_vfs, &rs->base, wpos.chunk_num);
+      if(status != EVFS_OK) break;
 
       // Seek into this chunk
-      evfs_file_seek(rs->base.active_chunk_fh, wpos.offset, EVFS_SEEK_TO);
+      status = evfs_file_seek(rs->base.active_chunk_fh, wpos.offset, EVFS_SEEK_TO);
+      if(status != EVFS_OK) break;
 
       evfs_off_t free_space = rs->cfg.chunk_size - wpos.offset;
       if(ASSERT(free_space != 0, "No free space to write in chunk")) // This shouldn't happen
@@ -989,20 +988,20 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
         size -= wrote_chunk;
         incr_write_pos(&rs->base, wrote_chunk);
         wrote += wrote_chunk;
-        rs->base.total_size += wrote_chunk;
-      }
 
-      // Check if we have more chunks to write
-      if(size > 0) {
-        status = append_new_chunk(base_vfs, rs, &new_chunk);
-        if(status != EVFS_OK) return status;
-        deactivate_chunk(&rs->base);
-        rs->base.active_chunk = wpos.chunk_num;
-        rs->base.active_chunk_fh = new_chunk;
+        // The file only grows if we wrote past its end
+        if(rs->base.flags & EVFS_APPEND)
+          rs->base.total_size += wrote_chunk;
+        else
+          rs->base.total_size = MAX(rs->base.total_size, rs->base.file_pos);
+
+      } else { // No progress
+        status = (wrote_chunk < 0) ? wrote_chunk : EVFS_ERR_IO;
+        break;
       }
     }
 
-    if(status != EVFS_OK)
+    if(wrote == 0 && status != EVFS_OK)
       wrote = status;
   }
 
-- 
2.43.0


From 59e4972ad711a7052f4990bb7f6c2c2f2271cd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 27/74] fix: rotate shim kept using a chunk file it had deleted

---
 src/shim_rotate.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index bb9f63a..70ed169 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -382,9 +382,23 @@ static ChunkPos get_chunk_pos(RotateState *rs, evfs_off_t logical_off) {
 
 
 
+static inline void deactivate_chunk(MultipartState *ms) {
+  // Shutdown current active chunk
+  if(ms->active_chunk_fh) {
+    evfs_file_close(ms->active_chunk_fh);
+    ms->active_chunk_fh = NULL;
+    ms->active_chunk.chunk = -1;
+  }
+}
+
+
 static int evict_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t *chunk_size) {
   //DPRINT("EVICT: %d_%d", chunk_num.chunk, chunk_num.gen);
 
+  // A deleted chunk can't stay open
+  if(ms->active_chunk.chunk == chunk_num.chunk)
+    deactivate_chunk(ms);
+
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   LOCK(ms->buf);
   char *joined = ms->buf->tmp_path;
@@ -430,20 +444,11 @@ static inline ChunkId next_chunk(RotateState *rs) {
 }
 
 
-static inline void deactivate_chunk(MultipartState *ms) {
-  // Shutdown current active chunk
-  if(ms->active_chunk_fh) {
-    evfs_file_close(ms->active_chunk_fh);
-    ms->active_chunk_fh = NULL;
-    ms->active_chunk.chunk = -1;
-  }
-}
-
-
 static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num) {
   //DPRINT("ROT Activate chunk: %d_%d", chunk_num.chunk, chunk_num.gen);
 
-  if(ms->active_chunk.chunk == chunk_num.chunk) // Already opened chunk
+  if(ms->active_chunk.chunk == chunk_num.chunk
+    && ms->active_chunk.gen == chunk_num.gen) // Already opened chunk
     return EVFS_OK;
 
   // Shutdown current active chunk
-- 
2.43.0


From 2fc66c1eb58419fa94a88c56cf02161c2be60a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 28/74] fix: reading a rotating log missed buffered data and
 lost count on errors

---
 src/shim_rotate.c | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 70ed169..c6ccab3 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -468,7 +468,7 @@ static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num)
 #endif
   build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
 
-  int status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR);
+  int status = evfs_vfs_open(base_vfs, joined, &fh, (ms->flags & ~EVFS_READ) ? EVFS_RDWR : EVFS_READ);
 
   UNLOCK(ms->buf);
 
@@ -896,28 +896,22 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
     int status = EVFS_OK;
 
     // We may have more than one chunk's worth of data to read
-    while(size > 0) {
+    while(size > 0 && rs->base.file_pos < rs->base.total_size) {
       ChunkPos rpos = get_chunk_pos(rs, rs->base.file_pos);
 
       //DPRINT("rptr: %ld, rpos: %d:%d,  active: %d", rs->base.file_pos, rpos.chunk_num, rpos.offset, rs->base.active_chunk);
 
-      // If the chunk doesn't exist we are out of chunks to read
-      evfs_off_t chunk_size;
-      if(!chunk_exists(base_vfs, &rs->base, rpos.chunk_num, &chunk_size))
-        break;
-
-      if(rpos.chunk_num.chunk != rs->base.active_chunk.chunk) {
-        status = activate_chunk(base_vfs, &rs->base, rpos.chunk_num);
-        if(status != EVFS_OK) return status;
-      }
-
-      if(rpos.offset >= chunk_size) // Nothing left to read
-        break;
+      status = activate_chunk(base_vfs, &rs->base, rpos.chunk_num);
+      if(status != EVFS_OK) break;
 
       // Seek into this chunk
-      evfs_file_seek(rs->base.active_chunk_fh, rpos.offset, EVFS_SEEK_TO);
-      evfs_off_t remain_space = chunk_size - rpos.offset;
-      size_t read_size = MIN((evfs_off_t)size, remain_space);
+      status = evfs_file_seek(rs->base.active_chunk_fh, rpos.offset, EVFS_SEEK_TO);
+      if(status != EVFS_OK) break;
+
+      // Data still buffered below isn't visible in the size of the chunk file
+      evfs_off_t remain_space = MIN((evfs_off_t)rs->cfg.chunk_size - rpos.offset,
+                                    rs->base.total_size - rs->base.file_pos);
+      size_t read_size = MIN(size, (size_t)remain_space);
 
       ptrdiff_t read_chunk = evfs_file_read(rs->base.active_chunk_fh, cbuf, read_size);
       if(read_chunk > 0) {
@@ -926,12 +920,13 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
         rs->base.file_pos += read_chunk;
         read += read_chunk;
       } else { // Chunk is prematurely empty
-        return EVFS_ERR_IO;
+        status = EVFS_ERR_IO;
+        break;
       }
 
     }
 
-    if(status != EVFS_OK)
+    if(read == 0 && status != EVFS_OK)
       read = status;
 
   }
-- 
2.43.0


From a42c1e9fcdc8859b4eda08a232c1d3a588fbdc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:54 +0000
Subject: [PATCH 29/74] fix: rotating log lost track of its chunks when storage
 operations failed

---
 src/shim_rotate.c | 68 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index c6ccab3..5788895 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -334,7 +334,8 @@ static int build_chunk_path(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_nu
 }
 
 
-static bool chunk_exists(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t *chunk_size) {
+static int chunk_exists(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, bool *exists,
+                        evfs_off_t *chunk_size) {
 
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   LOCK(ms->buf);
@@ -354,7 +355,13 @@ static bool chunk_exists(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num,
   if(chunk_size)
     *chunk_size = (status == EVFS_OK) ? info.size : 0;
 
-  return status == EVFS_OK;
+  *exists = (status == EVFS_OK);
+
+  // Any failure but a missing file leaves us not knowing if the chunk exists
+  if(status == EVFS_ERR_NO_FILE || status == EVFS_ERR_NO_PATH)
+    status = EVFS_OK;
+
+  return status;
 }
 
 
@@ -483,9 +490,9 @@ static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num)
 
 // Method
 static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
-  bool is_empty = rs->start_chunk.chunk == rs->end_chunk.chunk &&
-                  !chunk_exists(base_vfs, &rs->base, rs->end_chunk, NULL);
+  bool is_empty = (rs->base.total_size == 0);
   ChunkId next = rs->end_chunk;
+  int status;
 
   //DPRINT("ROT append  empty:%c", is_empty ? 'T':'f');
 
@@ -497,7 +504,8 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
 
     // Remove the old start chunk on wrap around
     if(next.chunk == rs->start_chunk.chunk) {
-      evict_chunk(base_vfs, &rs->base, rs->start_chunk, NULL);
+      status = evict_chunk(base_vfs, &rs->base, rs->start_chunk, NULL);
+      if(status != EVFS_OK) return status;
 
       incr_chunk(rs, &rs->start_chunk);
 
@@ -507,8 +515,6 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
       else
         rs->base.file_pos = 0;
     }
-
-    rs->end_chunk = next;
   }
 
   //DPRINT("ROT: Append new chunk: %d_%d", rs->end_chunk.chunk, rs->end_chunk.gen);
@@ -527,10 +533,13 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
   build_chunk_path(base_vfs, &rs->base, next, &joined_r);
 
   // Open file handle is returned through fh
-  int status = evfs_vfs_open(base_vfs, joined, fh, EVFS_RDWR | EVFS_OVERWRITE);
+  status = evfs_vfs_open(base_vfs, joined, fh, EVFS_RDWR | EVFS_OVERWRITE);
 
   UNLOCK(rs->base.buf);
 
+  if(status == EVFS_OK)
+    rs->end_chunk = next;
+
   return status;
 }
 
@@ -571,11 +580,16 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
 
   // Scan chunks
   EvfsDir *dh;
-  if(evfs_vfs_open_dir(base_vfs, rs->base.container_path, &dh) == EVFS_OK) {
+  status = evfs_vfs_open_dir(base_vfs, rs->base.container_path, &dh);
+  if(status != EVFS_OK) return status;
+
+  {
     EvfsInfo info;
-    while(evfs_dir_find(dh, "c*.cnk", &info) == EVFS_OK) {
+    while((status = evfs_dir_find(dh, "c*.cnk", &info)) == EVFS_OK) {
       ChunkId id = parse_chunk_name(info.name);
-      bool exists = chunk_exists(base_vfs, &rs->base, id, &chunk_size);
+      bool exists;
+      status = chunk_exists(base_vfs, &rs->base, id, &exists, &chunk_size);
+      if(status != EVFS_OK) break;
 
       // It's possible a 0-length chunk was leftover from a previous
       // power failure. We'll clean it up now. This should just leave
@@ -583,7 +597,8 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
       // errors have happened.
       if(exists && chunk_size == 0) {
         //DPRINT("ROT evict zero length chunk");
-        evict_chunk(base_vfs, &rs->base, id, NULL);
+        status = evict_chunk(base_vfs, &rs->base, id, NULL);
+        if(status != EVFS_OK) break;
         exists = false;
       }
 
@@ -600,6 +615,9 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
     evfs_dir_close(dh);
   }
 
+  if(status != EVFS_DONE) return status; // Couldn't see every chunk
+  status = EVFS_OK;
+
   if(gen_span[0].end >= 0 || gen_span[1].end >= 0) { // Found chunk files
     if(gen_span[0].end >= 0 && gen_span[1].end >= 0) { // Both generations present
       if(gen_span[0].start < gen_span[1].start) { // Gen 0 is newer
@@ -754,7 +772,7 @@ static int trim_start_chunks(RotateFile *fil, evfs_off_t trim_bytes) {
   // We need to round down to the nearest chunk size
   int trim_chunks = trim_bytes / rs->cfg.chunk_size;
 
-  if(trim_chunks == 0) // No change
+  if(trim_chunks == 0 || rs->base.total_size == 0) // No change
     return 0;
 
   ChunkId trim_start, trim_end;
@@ -793,14 +811,15 @@ static int trim_start_chunks(RotateFile *fil, evfs_off_t trim_bytes) {
   }
 
   // Fix up state
-  if(cur_chunk.chunk == rs->end_chunk.chunk) { // All chunks removed
+  if(status == EVFS_OK && cur_chunk.chunk == rs->end_chunk.chunk) { // All chunks removed
     rs->base.total_size = 0; // Just to be sure this is correct
     rs->start_chunk = (ChunkId){0,0};
     rs->end_chunk = (ChunkId){0,0};
     rs->base.file_pos = 0;
 
   } else { // Partial trim
-    incr_chunk(rs, &cur_chunk);
+    if(status == EVFS_OK) // Otherwise the current chunk is still there
+      incr_chunk(rs, &cur_chunk);
     rs->start_chunk = cur_chunk;
 
     if(rs->base.file_pos > trimmed_size)
@@ -959,7 +978,11 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
       ChunkPos wpos = get_chunk_pos(rs, cur_write_pos(&rs->base));
 
       // If the chunk doesn't exist we need to create it
-      if(!chunk_exists(base_vfs, &rs->base, wpos.chunk_num, NULL)) {
+      bool exists;
+      status = chunk_exists(base_vfs, &rs->base, wpos.chunk_num, &exists, NULL);
+      if(status != EVFS_OK) break;
+
+      if(!exists) {
         status = append_new_chunk(base_vfs, rs, &new_chunk);
         if(status != EVFS_OK) break;
 
@@ -1034,6 +1057,7 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     if(status != EVFS_OK) return EVFS_ERR_CORRUPTION;
 
     evfs_off_t chunk_size = evfs_file_size(rs->base.active_chunk_fh);
+    if(chunk_size < 0) return EVFS_ERR_IO;
     int delete_chunks;
 
     if(delete_bytes >= chunk_size)
@@ -1061,7 +1085,10 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     if(delete_bytes > 0 && status == EVFS_OK) {
       // Truncate new end chunk
       status = activate_chunk(base_vfs, &rs->base, rs->end_chunk);
-      if(status != EVFS_OK) return EVFS_ERR_CORRUPTION;
+      if(status != EVFS_OK) {
+        rs->base.file_pos = MIN(rs->base.file_pos, rs->base.total_size);
+        return EVFS_ERR_CORRUPTION;
+      }
 
       chunk_size = evfs_file_size(rs->base.active_chunk_fh);
 
@@ -1070,8 +1097,9 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
       if(ASSERT(delete_bytes < chunk_size, "Truncation error; Excess remainder"))
         return EVFS_ERR_CORRUPTION;
 
-      evfs_file_truncate(rs->base.active_chunk_fh, chunk_size - delete_bytes);
-      rs->base.total_size -= delete_bytes;
+      status = evfs_file_truncate(rs->base.active_chunk_fh, chunk_size - delete_bytes);
+      if(status == EVFS_OK)
+        rs->base.total_size -= delete_bytes;
     }
 
     if(rs->base.total_size == 0) { // Restart chunk sequence
@@ -1083,7 +1111,7 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     if(rs->base.file_pos > size)
       rs->base.file_pos = size;
 
-    if(ASSERT(size == rs->base.total_size, "failed truncation: size=%ld  total=%ld", size, rs->base.total_size))
+    if(status == EVFS_OK && ASSERT(size == rs->base.total_size, "failed truncation: size=%ld  total=%ld", size, rs->base.total_size))
       status = EVFS_ERR_CORRUPTION;
 
   }
-- 
2.43.0


From a562e9134845ae98f092e44ea8ed27a2b1ce63b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 30/74] fix: rotate shim ignored the open flags of a log

---
 src/shim_rotate.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 5788895..b227a0b 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -970,6 +970,8 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
     EvfsFile *new_chunk;
     int status = EVFS_OK;
 
+    if(rs->base.flags == EVFS_READ) return EVFS_ERR_AUTH;
+
     //DPRINT("ROT: write  %d", size);
 
     // We may have more than one chunk's worth of data to write
@@ -1045,6 +1047,8 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     RotateData *shim_data = fil->shim_data;
     Evfs *base_vfs = shim_data->base_vfs;
 
+    if(rs->base.flags == EVFS_READ) return EVFS_ERR_AUTH;
+
     if(size >= rs->base.total_size) // Do nothing if larger
       return EVFS_OK;
 
@@ -1290,12 +1294,22 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   } else {
     // Open or create a container
     status = EVFS_OK;
-    if(!exists) // Create new container
+    if(exists && (flags & EVFS_NO_EXIST))
+      status = EVFS_ERR_EXISTS;
+    else if(!exists && flags == EVFS_READ) // Nothing to read
+      status = EVFS_ERR_NO_FILE;
+    else if(!exists) // Create new container
       status = init_rotate_container(base_vfs, path, &shim_data->cfg);
 
     if(status == EVFS_OK)
       status = open_rotate_container(vfs, path, fil, flags);
 
+    if(status == EVFS_OK && (flags & EVFS_OVERWRITE)) {
+      status = rotate__file_truncate(fh, 0);
+      if(status != EVFS_OK)
+        rotate__file_close(fh);
+    }
+
   }
 
   if(status == EVFS_OK) {
-- 
2.43.0


From d55afbf57827bc89880b93ae849d3071f2b7e6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:52 +0000
Subject: [PATCH 31/74] fix: an open rotating log followed later changes of the
 current directory

---
 src/shim_rotate.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index b227a0b..03965b2 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -657,6 +657,17 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
 
   if(!is_rotate_file(base_vfs, path)) return EVFS_ERR_NO_FILE;
 
+  // The chunks must stay reachable when the current directory changes
+  char abs_path[EVFS_MAX_PATH];
+  if(!evfs_vfs_path_is_absolute(base_vfs, path)) {
+    StringRange abs_path_r = RANGE_FROM_ARRAY(abs_path);
+    int abs_status = evfs_vfs_path_absolute(base_vfs, path, &abs_path_r);
+    if(abs_status == EVFS_OK)
+      path = abs_path;
+    else if(abs_status != EVFS_ERR_NO_SUPPORT) // There may be no current directory
+      return abs_status;
+  }
+
   // Allocate state to track file rotation
   size_t state_size = sizeof(RotateState) + strlen(path)+1;
   RotateState *rs = evfs_malloc(state_size);
-- 
2.43.0


From 0bbaa684119adc576cd5b74c61dc1842c531205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 32/74] fix: rotating logs with long paths used truncated chunk
 paths

---
 src/shim_rotate.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 03965b2..a67b7a2 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -227,6 +227,15 @@ typedef struct RotateDir {
 // ******************** Internal rotation API ********************
 
 
+// Longest name of a file in a container: separator and "c00000_0.cnk"
+#define MAX_CONTAINER_NAME  13
+
+// Every file in a container must have a path that fits our buffers
+static bool valid_container_path(const char *path) {
+  return strlen(path) + MAX_CONTAINER_NAME < EVFS_MAX_PATH;
+}
+
+
 static evfs_off_t cur_write_pos(MultipartState *ms) {
   evfs_off_t wpos = (ms->flags & EVFS_APPEND) ? ms->total_size : ms->file_pos;
   //DPRINT("ROT write pos %d  append:%c  (%p)", wpos, (ms->flags & EVFS_APPEND) ? 'T' :'f', ms);
@@ -244,6 +253,8 @@ static void incr_write_pos(MultipartState *ms, evfs_off_t offset) {
 
 // Method
 static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig *cfg) {
+  if(!valid_container_path(path)) return EVFS_ERR_TOO_LONG;
+
   // Create the multipart container directory
   int status = base_vfs->m_make_dir(base_vfs, path);
   if(status != EVFS_OK) return status;
@@ -291,13 +302,13 @@ static int clear_container(Evfs *base_vfs, const char *path) {
   int status = evfs_vfs_open_dir(base_vfs, path, &dh);
   if(status != EVFS_OK) return status;
 
-  while(evfs_dir_read(dh, &info) != EVFS_DONE) {
+  while(evfs_dir_read(dh, &info) == EVFS_OK) {
     // Check for dir dots
     if(info.name[0] == '.') continue;
 
     char joined[EVFS_MAX_PATH];
     StringRange joined_r = RANGE_FROM_ARRAY(joined);
-    evfs_vfs_path_join_str(base_vfs, path, info.name, &joined_r);
+    if(evfs_vfs_path_join_str(base_vfs, path, info.name, &joined_r) != EVFS_OK) continue;
     base_vfs->m_delete(base_vfs, joined);
   }
 
@@ -315,6 +326,9 @@ static bool is_rotate_file(Evfs *base_vfs, const char *path) {
   if(status != EVFS_OK || !(info.type & EVFS_FILE_DIR))
     return false;
 
+  if(!valid_container_path(path))
+    return false;
+
   // Multipart info file needs to exist
   char joined[EVFS_MAX_PATH];
   StringRange joined_r = RANGE_FROM_ARRAY(joined);
@@ -668,6 +682,8 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
       return abs_status;
   }
 
+  if(!valid_container_path(path)) return EVFS_ERR_TOO_LONG;
+
   // Allocate state to track file rotation
   size_t state_size = sizeof(RotateState) + strlen(path)+1;
   RotateState *rs = evfs_malloc(state_size);
-- 
2.43.0


From c382456cf15d032f3ad4a90cbcf85f1e9136689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:55 +0000
Subject: [PATCH 33/74] fix: failing to create a rotating log left an unusable
 container

---
 src/shim_rotate.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index a67b7a2..ab50fe7 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -266,7 +266,10 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
 
   EvfsFile *dat_fh;
   status = evfs_vfs_open(base_vfs, joined, &dat_fh, EVFS_WRITE | EVFS_OVERWRITE);
-  if(status != EVFS_OK) return status;
+  if(status != EVFS_OK) {
+    base_vfs->m_delete(base_vfs, path);
+    return status;
+  }
 
   // Write header
   MultipartHeader hdr = {
@@ -288,9 +291,16 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
 
   }
 
-  evfs_file_close(dat_fh);
+  int close_status = evfs_file_close(dat_fh);
 
-  return status == sizeof(RotateGeometry) ? EVFS_OK : EVFS_ERR;
+  if(status != sizeof(RotateGeometry) || close_status != EVFS_OK) {
+    // Don't leave an unusable container behind
+    base_vfs->m_delete(base_vfs, joined);
+    base_vfs->m_delete(base_vfs, path);
+    return EVFS_ERR;
+  }
+
+  return EVFS_OK;
 }
 
 
-- 
2.43.0


From 86949b41981f71fa46c98250e46b207222420206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 34/74] fix: absolute conversion dropped a drive prefix that
 did not fit

---
 src/evfs_path.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index bc7d2d3..c5e7968 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -559,8 +559,10 @@ int evfs_vfs_path_absolute(Evfs *vfs, const char *path, StringRange *absolute) {
   size_t root_len = range_size(&root);
   path_start += root_len;
 
-  if(range_size(&root) > 0) // Add any relative root prefix from path now
-    range_cat_range((AppendRange *)&joined_r, &root);
+  if(range_size(&root) > 0) { // Add any relative root prefix from path now
+    if(range_cat_range((AppendRange *)&joined_r, &root) < 0)
+      THROW(EVFS_ERR_OVERFLOW);
+  }
 
   // Get current directory
   rval = vfs->m_get_cur_dir(vfs, &joined_r);
-- 
2.43.0


From 850dd8620c49e7c18791c217728c53a0a6c2143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 35/74] fix: closing a stdio file ignored a failure to write
 its buffered data

---
 src/stdio_fs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index c7671d0..cadc07d 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -97,9 +97,9 @@ static int stdio__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int stdio__file_close(EvfsFile *fh) {
   StdioFile *fil = (StdioFile *)fh;
-  fclose(fil->fp);
+  int err = simple_error(fclose(fil->fp)); // Fails if buffered data can't be written
   fil->fp = NULL;
-  return EVFS_OK;
+  return err;
 }
 
 static ptrdiff_t stdio__file_read(EvfsFile *fh, void *buf, size_t size) {
-- 
2.43.0


From d4c524a063b9f645c603517674eda865a83cacdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:58 +0000
Subject: [PATCH 36/74] fix: size of an open stdio file left out data still in
 the stream buffer

---
 src/stdio_fs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index cadc07d..ccc77bf 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -145,6 +145,8 @@ static evfs_off_t stdio__file_size(EvfsFile *fh) {
 #ifdef EVFS_USE_STDIO_POSIX  
   struct stat s;
 
+  fflush(fil->fp); // Count data still in the stream buffer
+
   if(fstat(fileno(fil->fp), &s) != 0)
     return 0;
 
-- 
2.43.0


From 5881f9d7ff25c8f2bd6018cc2f2e09f298cbbdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:50 +0000
Subject: [PATCH 37/74] fix: rotate: a short write of the geometry header left
 an unusable container

---
 src/shim_rotate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index ab50fe7..f5a58d4 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -280,7 +280,7 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
 
   status = evfs_file_write(dat_fh, &hdr, sizeof(hdr));
 
-  if(status > 0) {
+  if(status == sizeof(hdr)) {
     // Write geometry
     RotateGeometry geom = {
       .chunk_size = cfg->chunk_size,
-- 
2.43.0


From 07026a3cfd3efbd04e072e7c1352fb4055868927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:13 +0000
Subject: [PATCH 38/74] fix: romfs lookups and listings mishandled hard links
 to files

---
 include/evfs/romfs_common.h |  1 +
 src/romfs_common.c          | 18 +++++++++++-------
 src/romfs_fs.c              |  9 +++++++--
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/include/evfs/romfs_common.h b/include/evfs/romfs_common.h
index 0fcc3d7..fa76d8e 100644
--- a/include/evfs/romfs_common.h
+++ b/include/evfs/romfs_common.h
@@ -88,6 +88,7 @@ int romfs_init(Romfs *fs, RomfsConfig *cfg);
 
 
 bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr);
+void romfs_follow_link(Romfs *fs, RomfsFileHead *hdr);
 
 
 static inline ptrdiff_t romfs_read(Romfs *fs, evfs_off_t offset, void *buf, size_t size) {
diff --git a/src/romfs_common.c b/src/romfs_common.c
index 0e163f1..8108e55 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -51,6 +51,15 @@ bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
   return true;
 }
 
+// Replace the header of a hard link with the header of its destination
+void romfs_follow_link(Romfs *fs, RomfsFileHead *hdr) {
+  if(FILE_TYPE(hdr) == FILE_TYPE_HARD_LINK) {
+    evfs_off_t dest = hdr->spec_info;
+    romfs_read_file_header(fs, dest, hdr); // Reparse header (should never fail)
+    hdr->offset = dest | FILE_MODE(hdr);   // Replace with offset of the element
+  }
+}
+
 // Scan a directory for file from a path
 static bool romfs__find_path_elem(Romfs *fs, evfs_off_t dir_pos, StringRange *element, RomfsFileHead *hdr) {
   evfs_off_t cur_hdr = dir_pos;
@@ -85,6 +94,7 @@ static int romfs__fast_lookup_abs_path(Romfs *fs, const char *path, RomfsFileHea
     romfs_read_file_header(fs, entry, hdr);
     //DPRINT("## FAST LOOKUP: @ %08X %08X %s -> '%s'", entry, FILE_OFFSET(hdr), path, hdr->file_name);
     hdr->offset = entry | FILE_MODE(hdr); // Replace with offset of the element
+    romfs_follow_link(fs, hdr);
     status = EVFS_OK;
   } else {
     status = EVFS_ERR_NO_PATH;
@@ -131,16 +141,10 @@ static int romfs__lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hd
     end_scan = false;
 
     if(romfs__find_path_elem(fs, dir_pos, &element, hdr)) {
+      romfs_follow_link(fs, hdr);
       file_type = FILE_TYPE(hdr);
       switch(file_type) {
 
-      case FILE_TYPE_HARD_LINK:
-        dir_pos = hdr->spec_info;  // Follow link dest
-        romfs_read_file_header(fs, dir_pos, hdr); // Reparse header (should never fail)
-        dir_pos = hdr->spec_info; // First file in dir
-        //DPRINT("FOLLOW LINK: %08X", dir_pos);
-        break;
-
       case FILE_TYPE_DIRECTORY:
         dir_pos = hdr->spec_info; // First file in dir
         //DPRINT("FOLLOW DIR: %.*s  %08X --> %08X", RANGE_FMT(&element), FILE_OFFSET(hdr), dir_pos);
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 4314a99..d97fb07 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -267,6 +267,7 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
   int status;
   evfs_off_t next_entry;
+  RomfsFileHead hdr;
 
   LOCK();
 
@@ -290,6 +291,10 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
     dir->cur_file_offset = next_entry;
     status = romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file) ? EVFS_OK : EVFS_DONE;
 
+    // Describe the destination of a link
+    hdr = dir->cur_file;
+    romfs_follow_link(&fs_data->romfs, &hdr);
+
   } else { // Iteration complete
     status = EVFS_DONE;
   }
@@ -300,9 +305,9 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
   if(status == EVFS_OK) {
     info->name = dir->cur_file.file_name;
-    info->size = dir->cur_file.size;
+    info->size = hdr.size;
 
-    int file_type = FILE_TYPE(&dir->cur_file);
+    int file_type = FILE_TYPE(&hdr);
     if(file_type == FILE_TYPE_DIRECTORY || file_type == FILE_TYPE_HARD_LINK)
       info->type |= EVFS_FILE_DIR;
   }
-- 
2.43.0


From e782e3706cb3abcfab00651b0ee3a022bafe7a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:15 +0000
Subject: [PATCH 39/74] fix: romfs accepted images with a size of 2 GiB or more
 in the header

---
 src/romfs_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index 8108e55..4c448f7 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -193,7 +193,7 @@ static int romfs__validate(Romfs *fs) {
   if(get_unaligned_le(&buf[0]) == 0x6D6F722D && get_unaligned_le(&buf[1]) == 0x2D736631) {
     uint32_t fs_bytes = get_unaligned_be(&buf[2]);
 
-    if(ASSERT((evfs_off_t)fs_bytes <= fs->total_size, "Invalid Romfs size"))
+    if(ASSERT(fs->total_size >= 0 && fs_bytes <= (uint32_t)fs->total_size, "Invalid Romfs size"))
       return EVFS_ERR_INVALID;
 
     // Iterate over chunks to verify checksum
-- 
2.43.0


From 388596552058d5d356da164dc86535c2939d1693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:32 +0000
Subject: [PATCH 40/74] fix: dhash copied more bytes of a value than its
 configured size

---
 include/evfs/util/dhash.h |  3 ++-
 src/util/dhash.c          | 33 ++++++++++++++++-----------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/evfs/util/dhash.h b/include/evfs/util/dhash.h
index e432506..affb4e8 100644
--- a/include/evfs/util/dhash.h
+++ b/include/evfs/util/dhash.h
@@ -108,7 +108,8 @@ typedef struct dhash {
 #endif
 
   // Configuration
-  size_t          value_size;   // Bytes per entry value
+  size_t          value_size;   // Bytes per entry value, padded for alignment
+  size_t          item_size;    // Bytes per entry value without padding
   size_t          max_storage;  // Max bytes to use for bucket array
 
   // Callbacks
diff --git a/src/util/dhash.c b/src/util/dhash.c
index 1a57bf2..1a2f4d3 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -391,6 +391,7 @@ static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_h
       .prime_ix     = prime_ix,
 #endif
       .value_size   = value_size,
+      .item_size    = config->value_size,
       .max_storage  = config->max_storage,
       .ctx          = ctx,
       .destroy_item = config->destroy_item,
@@ -701,7 +702,7 @@ bool dh_lookup(dhash *hash, dhKey key, void *value) {
 
   if(entry && !WAS_DELETED(entry)) { // Found match
     if(value)
-      memcpy(value, &entry->value_obj, hash->value_size);
+      memcpy(value, &entry->value_obj, hash->item_size);
     return true;
   }
 
@@ -747,17 +748,15 @@ bool dh_lookup_in_place(dhash *hash, dhKey key, void **value) {
 // ******************** Storage ********************
 
 // Exchange value objects for Robin Hood algo.
-static inline void swap_values(uintptr_t * restrict v1, uintptr_t * restrict v2, size_t value_size) {
-  uintptr_t temp;
-
-  // The value size is rounded up to a multiple of uintptr_t alignment so this
-  // will never have a remainder.
-  value_size /= sizeof(uintptr_t);
-
-  for(size_t i = 0; i < value_size; i++) {
-    temp = v1[i];
-    v1[i] = v2[i];
-    v2[i] = temp;
+static inline void swap_values(void * restrict v1, void * restrict v2, size_t item_size) {
+  uint8_t *b1 = v1;
+  uint8_t *b2 = v2;
+  uint8_t temp;
+
+  for(size_t i = 0; i < item_size; i++) {
+    temp = b1[i];
+    b1[i] = b2[i];
+    b2[i] = temp;
   }
 }
 
@@ -781,7 +780,7 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
       entry->ikey = ikey;
 #endif
       entry->key = key;
-      memcpy(&entry->value_obj, value, hash->value_size);
+      memcpy(&entry->value_obj, value, hash->item_size);
 
       SET_PROBE_COUNT(entry, probes);
       hash->used_buckets++;
@@ -803,7 +802,7 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
 
       hash->destroy_item(entry->key, &entry->value_obj, hash->ctx);
       entry->key = key;
-      memcpy(&entry->value_obj, value, hash->value_size);
+      memcpy(&entry->value_obj, value, hash->item_size);
       return true;
     }
 
@@ -814,7 +813,7 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
         entry->ikey = ikey;
 #endif
         entry->key = key;
-        memcpy(&entry->value_obj, value, hash->value_size);
+        memcpy(&entry->value_obj, value, hash->item_size);
 
         CLEAR_DELETED(entry); // Clear tombstone
         SET_PROBE_COUNT(entry, probes);
@@ -839,7 +838,7 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
       key    = titem.key;
       probes = PROBE_COUNT(&titem);
 
-      swap_values((uintptr_t *)&entry->value_obj, (uintptr_t *)value, hash->value_size);
+      swap_values(&entry->value_obj, value, hash->item_size);
     }
 
     // Continue linear probe
@@ -974,7 +973,7 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
     // Return removed value if caller wants to manage it, otherwise destroy it
     // after we finish internal bookkeeping.
     if(value)
-      memcpy(value, &entry->value_obj, hash->value_size);
+      memcpy(value, &entry->value_obj, hash->item_size);
 
 #ifdef DH_USE_MEMOIZED_HASH
     entry->ikey = 0;
-- 
2.43.0


From 854676830dca3bb86b4abdf363275e7324b2a3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:34 +0000
Subject: [PATCH 41/74] fix: dhash took a removed entry for an existing one
 when inserting

---
 src/util/dhash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index 1a2f4d3..2cb38dd 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -787,7 +787,7 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
       return true;
     }
 
-    if(
+    if(!WAS_DELETED(entry) &&
 #ifdef DH_USE_MEMOIZED_HASH
         entry->ikey == ikey &&
 #endif
-- 
2.43.0


From aef57e72b55d59971d6e772948fc48fd63b54e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:36 +0000
Subject: [PATCH 42/74] fix: removing from a dhash called the destructor
 without the key

---
 src/util/dhash.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index 2cb38dd..3315eff 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -975,6 +975,8 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
     if(value)
       memcpy(value, &entry->value_obj, hash->item_size);
 
+    dhKey old_key = entry->key;
+
 #ifdef DH_USE_MEMOIZED_HASH
     entry->ikey = 0;
 #endif
@@ -986,7 +988,7 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
     hash->used_buckets--;
 
     if(!value)
-      hash->destroy_item(entry->key, &entry->value_obj, hash->ctx);
+      hash->destroy_item(old_key, &entry->value_obj, hash->ctx);
 
     memset(&entry->value_obj, 0, hash->value_size);
 
-- 
2.43.0


From f118282839686255fa9033ad588e480061d0c3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:38 +0000
Subject: [PATCH 43/74] fix: tar arrays were read past their end when truncated

---
 src/tar_iter_rsrc.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/tar_iter_rsrc.c b/src/tar_iter_rsrc.c
index b3120a7..e757376 100644
--- a/src/tar_iter_rsrc.c
+++ b/src/tar_iter_rsrc.c
@@ -63,19 +63,28 @@ static bool tar__valid_header(TarHeader *header) {
 }
 
 
+// Check for a number of bytes from the current header to the end of the resource
+static bool tar__has_bytes(TarRsrcIterator *tar_it, size_t size) {
+  return tar_it->header_offset <= tar_it->resource_len && size <= tar_it->resource_len - tar_it->header_offset;
+}
+
+
 static bool tar__rsrc_get_header(TarRsrcIterator *tar_it) {
   tar_it->header_offset = tar_it->read_pos - tar_it->resource;
 
   tar_it->cur_header = (TarHeader *)tar_it->read_pos;
   tar_it->read_pos += TAR_HEADER_SIZE;
-  if(tar__valid_header(tar_it->cur_header)) {
+  if(tar__has_bytes(tar_it, TAR_HEADER_SIZE) && tar__valid_header(tar_it->cur_header)) {
     // Seek to start of next 512 byte TAR block for file data
     tar_it->read_pos += TAR_BLOCK_SIZE - TAR_HEADER_SIZE;
 
     // Extract fields
     // Only supporting NUL terminated octal with '0' padding
     tar_it->file_size = strtol((const char *)tar_it->cur_header->size, NULL, 8);
-    return true;
+
+    // The file data must be in the resource
+    if(tar_it->file_size == 0 || tar__has_bytes(tar_it, (size_t)TAR_BLOCK_SIZE + tar_it->file_size))
+      return true;
   }
 
   tar_it->cur_header = NULL;
-- 
2.43.0


From 0cb22fb56370e045fa6f0c45d9e311fa8f217d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 44/74] fix: a failure while indexing an archive overran the
 index or left it half built

---
 src/romfs_common.c | 37 ++++++++++++++++++++++---------------
 src/tar_fs.c       | 10 ++++++++--
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index 4c448f7..0e2afdc 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -294,12 +294,14 @@ static int romfs__get_dir(Romfs *fs, const char *path, RomfsFileHead *hdr,
 
   if(status == EVFS_OK) {
     // Get first file in directory
-    romfs_read_file_header(fs, hdr->spec_info, hdr) ? EVFS_OK : EVFS_ERR;
+    status = romfs_read_file_header(fs, hdr->spec_info, hdr) ? EVFS_OK : EVFS_ERR;
 
     // Skip hard link entries
-    romfs__get_next_file(fs, hdr, cur_file_offset);
+    if(status == EVFS_OK)
+      status = romfs__get_next_file(fs, hdr, cur_file_offset);
 
-    status = romfs__get_next_file(fs, hdr, cur_file_offset);
+    if(status == EVFS_OK)
+      status = romfs__get_next_file(fs, hdr, cur_file_offset);
   }
 
   return status;
@@ -309,13 +311,11 @@ static int romfs__get_dir(Romfs *fs, const char *path, RomfsFileHead *hdr,
 
 
 // Recursively scan the filesystem and collect stats on all paths
-static size_t scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int *total_files) {
+static int scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int *total_files, size_t *total_path_len) {
   RomfsFileHead cur_file;
   evfs_off_t    cur_file_offset;
   int status;
 
-  size_t total_path_len = 0;
-
   status = romfs__get_dir(fs, path, &cur_file, &cur_file_offset, NULL);
   //DPRINT("OPEN DIR: %s %d", path, status);
 
@@ -327,10 +327,10 @@ static size_t scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int
       if(FILE_TYPE(&cur_file) == FILE_TYPE_DIRECTORY) {
         // Build path to sub directory
         size_t new_prefix_len = prefix_len + 1 + strlen(cur_file.file_name);
-        total_path_len += new_prefix_len; // Entry for the directory
+        *total_path_len += new_prefix_len; // Entry for the directory
 
         char *sub_path = malloc(new_prefix_len+1);
-        if(MEM_CHECK(sub_path)) return 0;
+        if(MEM_CHECK(sub_path)) return EVFS_ERR_ALLOC;
 
         AppendRange sub_path_r;
         range_init(&sub_path_r, sub_path, new_prefix_len+1);
@@ -339,18 +339,19 @@ static size_t scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int
         range_cat_str(&sub_path_r, cur_file.file_name);
 
         //DPRINT("SUB PATH: '%s'  %08X", sub_path, cur_file_offset);
-        total_path_len += scan_dir_tree(fs, sub_path, new_prefix_len, total_files);
+        status = scan_dir_tree(fs, sub_path, new_prefix_len, total_files, total_path_len);
         free(sub_path);
+        if(status != EVFS_OK) return status;
 
       } else { // Normal file
-        total_path_len += prefix_len + 1 + strlen(cur_file.file_name);
+        *total_path_len += prefix_len + 1 + strlen(cur_file.file_name);
       }
 
       status = romfs__get_next_file(fs, &cur_file, &cur_file_offset);
     }
   } while(status == EVFS_OK);
 
-  return total_path_len;
+  return status == EVFS_DONE ? EVFS_OK : status;
 }
 
 
@@ -399,8 +400,9 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
 
         //DPRINT("SUB PATH: '%s'", sub_path);
 
-        index_dir_tree(fs, sub_path, new_prefix_len, ht, keys_r);
+        status = index_dir_tree(fs, sub_path, new_prefix_len, ht, keys_r);
         free(sub_path);
+        if(status != EVFS_OK) return status;
 
       } else { // Normal file
         // Prepare key
@@ -425,7 +427,7 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
     }
   } while(status == EVFS_OK);
 
-  return EVFS_OK;
+  return status == EVFS_DONE ? EVFS_OK : status;
 }
 
 
@@ -436,7 +438,9 @@ static int romfs__build_index(Romfs *fs, RomfsIndex *ht) {
   size_t total_path_len = 0;
   int total_files = 0;
 
-  total_path_len = scan_dir_tree(fs, "", 0, &total_files);
+  status = scan_dir_tree(fs, "", 0, &total_files, &total_path_len);
+  if(status != EVFS_OK) return status;
+
   // Add space for root entry
   total_files++;
   total_path_len += 1;
@@ -449,9 +453,12 @@ static int romfs__build_index(Romfs *fs, RomfsIndex *ht) {
 
     status = index_dir_tree(fs, "", 0, ht, &keys_r);
     //dump_array((uint8_t *)ht->keys, total_path_len);
+  }
 
+  if(status == EVFS_OK)
     fs->lookup_abs_path = romfs__fast_lookup_abs_path;
-  }
+  else // Keep walking the directory tree without an index
+    romfs__fast_index_free(ht);
 
   return status;
 }
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 52de77a..03602f3 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -223,9 +223,10 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
 
 
   char *key_pos = ht->keys;
+  size_t keys_left = total_path_len;
 
   // Build the index
-  tar_iter_begin(tar_it);
+  if(!tar_iter_begin(tar_it)) return EVFS_ERR;
 
   do {
     // Only index plain files and directories
@@ -233,6 +234,11 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
        tar_it->cur_header.type_flag != TAR_TYPE_DIRECTORY) continue;
 
 
+    // A read error can make the passes see a different number of files
+    size_t key_size = tarfs__entry_path(&tar_it->cur_header, NULL);
+    if(key_size > keys_left) return EVFS_ERR_IO;
+    keys_left -= key_size;
+
     dhKey key;
 
     key.data = key_pos;
@@ -255,7 +261,7 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
   } while(tar_iter_next(tar_it));
 
 
-  return EVFS_OK;
+  return keys_left == 0 ? EVFS_OK : EVFS_ERR_IO;
 }
 
 
-- 
2.43.0


From 2f72b27c7838764a2b116aefdb382b87f4e8dde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 45/74] fix: opening with no file system registered left the
 handle unset

---
 src/evfs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evfs.c b/src/evfs.c
index fec009e..91927a5 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -484,6 +484,7 @@ Returns:
 */
 int evfs_open_ex(const char *path, EvfsFile **fh, int flags, const char *vfs_name) {
   if(PTR_CHECK(path) || PTR_CHECK(fh)) return EVFS_ERR_BAD_ARG;
+  *fh = NULL;
   Evfs *vfs = evfs__get_vfs(vfs_name);
   if(!vfs) THROW(EVFS_ERR_NO_VFS);
 
@@ -754,10 +755,10 @@ Returns:
 */
 int evfs_open_dir_ex(const char *path, EvfsDir **dh, const char *vfs_name) {
   if(PTR_CHECK(path) || PTR_CHECK(dh)) return EVFS_ERR_BAD_ARG;
+  *dh = NULL;
   Evfs *vfs = evfs__get_vfs(vfs_name);
   if(!vfs) THROW(EVFS_ERR_NO_VFS);
 
-  *dh = NULL;
   if(vfs->m_open_dir == default__open_dir) return EVFS_ERR_NO_SUPPORT; // Avoid wasted malloc()
 
 
-- 
2.43.0


From 32323495dbf53b767fbc2b23feb30631b9cb2953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 46/74] fix: dhash refused insertions and lost entries after
 many removals

---
 src/util/dhash.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index 3315eff..3ee09ab 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -967,7 +967,7 @@ Returns:
 */
 bool dh_remove(dhash *hash, dhKey key, void *value) {
   dhBucketEntry *entry = NULL;
-  dh__find_bucket(hash, key, &entry);
+  dhBucketIndex b = dh__find_bucket(hash, key, &entry);
 
   if(entry) { // Bucket found with matching key
     // Return removed value if caller wants to manage it, otherwise destroy it
@@ -990,7 +990,24 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
     if(!value)
       hash->destroy_item(old_key, &entry->value_obj, hash->ctx);
 
-    memset(&entry->value_obj, 0, hash->value_size);
+    // Close the gap by moving the displaced entries that follow back one bucket.
+    // Tombstones left in place would push the probe counts of later insertions
+    // ever higher until they hit the limit.
+    size_t bucket_size = sizeof(dhBucketEntry) + hash->value_size;
+
+    while(1) {
+      b = next_bucket(hash, b);
+      dhBucketEntry *next_entry = dh__get_entry_unsafe(hash, b);
+
+      if(PROBE_COUNT(next_entry) <= 1) // Unused or in its initial bucket
+        break;
+
+      memcpy(entry, next_entry, bucket_size);
+      SET_PROBE_COUNT(entry, PROBE_COUNT(entry) - 1);
+      entry = next_entry;
+    }
+
+    memset(entry, 0, bucket_size);
 
     return true;
   }
-- 
2.43.0


From 9dd6d1ed494d06f3fa0906caa933c9605cecee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 47/74] fix: dhash used more external storage than it was given

---
 src/util/dhash.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index 3ee09ab..5e7a1a5 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -409,6 +409,9 @@ static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_h
       size_t bucket_size = sizeof(dhBucketEntry) + value_size;
       size_t ext_buckets = config->max_storage / bucket_size;
 
+      if(ext_buckets < (size_t)DH_MIN_BUCKETS)
+        return false;
+
       // Set largest bucket count for our growth scheme
 #ifndef DH_USE_2X_GROWTH
       hash->prime_ix = get_closest_prime_index_below(ext_buckets);
-- 
2.43.0


From 74641bec92490d0e2d2302d6fba98ea085019997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 48/74] fix: dhash refused to replace an entry when it could
 not grow

---
 src/util/dhash.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index 5e7a1a5..be802bf 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -946,7 +946,10 @@ bool dh_insert(dhash *hash, dhKey key, void *value) {
   if(hash->used_buckets >= max_buckets) { // Load is too high
     //printf("#### REHASH %d\n", hash->used_buckets);
     //dh_dump(hash);
-    if(!dh__grow(hash, 0)) return false;
+    if(!dh__grow(hash, 0)) {
+      // We can still replace an existing entry
+      if(!dh_exists(hash, key)) return false;
+    }
   }
 
   return dh__insert(hash, key, value);
-- 
2.43.0


From 1898749e2db3b2eb6bfa6e02650ff9d61831b167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 49/74] fix: dh_reserve_capacity could reserve one entry less
 than requested

---
 src/util/dhash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index be802bf..7ea00b1 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -1101,7 +1101,7 @@ bool dh_reserve_capacity(dhash *hash, size_t add_capacity) {
 
   // Add space for extra buckets
   const size_t lfactor = MAX_LOAD_FACTOR(128UL); // Get the numerator
-  size_t new_buckets = (hash_capacity + add_capacity) * 128UL / lfactor;
+  size_t new_buckets = ((hash_capacity + add_capacity) * 128UL + lfactor-1) / lfactor;
 
   return dh__grow(hash, new_buckets);
 }
-- 
2.43.0


From 2f24e2edf3140261caf537ac21fc09d586119822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 50/74] fix: registering from several threads at once could
 lose a VFS or use one half set up

---
 src/evfs.c | 80 +++++++++++++++++++++++++++---------------------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 91927a5..b867ff4 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -243,6 +243,22 @@ static bool default__path_root_component(Evfs *vfs, const char *path, StringRang
 // ******************** VFS registration ********************
 
 
+// The caller must hold the lock
+static Evfs *evfs__find_vfs_unlocked(const char *vfs_name) {
+  Evfs *rval = NULL;
+  Evfs *cur_vfs = s_vfs_list;
+
+  while(cur_vfs) {
+    if(!strcmp(cur_vfs->vfs_name, vfs_name))
+      rval = cur_vfs;
+
+    cur_vfs = cur_vfs->next;
+  }
+
+  return rval;
+}
+
+
 /*
 Search for a VFS by name
 
@@ -254,17 +270,9 @@ Returns:
 */
 Evfs *evfs_find_vfs(const char *vfs_name) {
   if(PTR_CHECK(vfs_name)) return NULL;
-  Evfs *rval = NULL;
 
   LOCK();
-  Evfs *cur_vfs = s_vfs_list;
-
-  while(cur_vfs) {
-    if(!strcmp(cur_vfs->vfs_name, vfs_name))
-      rval = cur_vfs;
-
-    cur_vfs = cur_vfs->next;
-  }
+  Evfs *rval = evfs__find_vfs_unlocked(vfs_name);
   UNLOCK();
 
   return rval;
@@ -329,23 +337,37 @@ Returns:
   EVFS_OK on success
 */
 int evfs_register(Evfs *vfs, bool make_default) {
-  bool new_vfs = false;
-
   if(PTR_CHECK(vfs)) return EVFS_ERR_BAD_ARG;
 
   // Check if evfs_init() was called
   if(!s_evfs_initialized) THROW(EVFS_ERR_INIT);
 
 
-  if(s_vfs_list) { // Prepend entry to existing list
-    // Check if this VFS is already registered
-    Evfs *existing_vfs = evfs_find_vfs(vfs->vfs_name);
+  // The lock is held throughout so that the list can't change after the search
+  LOCK();
+
+  // Check if this VFS is already registered
+  Evfs *existing_vfs = evfs__find_vfs_unlocked(vfs->vfs_name);
+
+  if(!existing_vfs) { // Add a New VFS
+    // Fill in any missing optional methods before it can be used
+    if(!vfs->m_delete)   vfs->m_delete = default__delete;
+    if(!vfs->m_rename)   vfs->m_rename = default__rename;
+    if(!vfs->m_make_dir) vfs->m_make_dir = default__make_dir;
+    if(!vfs->m_open_dir) vfs->m_open_dir = default__open_dir;
+
+    if(!vfs->m_get_cur_dir)  vfs->m_get_cur_dir = default__get_cur_dir;
+    if(!vfs->m_set_cur_dir)  vfs->m_set_cur_dir = default__set_cur_dir;
+
+    if(!vfs->m_vfs_ctrl)     vfs->m_vfs_ctrl = default__vfs_ctrl;
 
-    LOCK();
-    if(!existing_vfs) { // Add a New VFS
+    if(!vfs->m_path_root_component) vfs->m_path_root_component = default__path_root_component;
+  }
+
+  if(s_vfs_list) { // Prepend entry to existing list
+    if(!existing_vfs) {
       vfs->next = s_vfs_list;
       s_vfs_list = vfs;
-      new_vfs = true;
     } else {
       vfs = existing_vfs; // Make sure we use the correct object already in the list
     }
@@ -367,34 +389,12 @@ int evfs_register(Evfs *vfs, bool make_default) {
         s_default_vfs = vfs;
     }
 
-    if(!new_vfs) {
-      UNLOCK();
-    }
-
   } else { // First VFS entry
-    LOCK();
     s_default_vfs = vfs; // First entry must be the default
     s_vfs_list = vfs;
-
-    new_vfs = true;
   }
 
-
-  if(new_vfs) {
-    // Fill in any missing optional methods
-    if(!vfs->m_delete)   vfs->m_delete = default__delete;
-    if(!vfs->m_rename)   vfs->m_rename = default__rename;
-    if(!vfs->m_make_dir) vfs->m_make_dir = default__make_dir;
-    if(!vfs->m_open_dir) vfs->m_open_dir = default__open_dir;
-
-    if(!vfs->m_get_cur_dir)  vfs->m_get_cur_dir = default__get_cur_dir;
-    if(!vfs->m_set_cur_dir)  vfs->m_set_cur_dir = default__set_cur_dir;
-
-    if(!vfs->m_vfs_ctrl)     vfs->m_vfs_ctrl = default__vfs_ctrl;
-
-    if(!vfs->m_path_root_component) vfs->m_path_root_component = default__path_root_component;
-    UNLOCK();
-  }
+  UNLOCK();
 
   return EVFS_OK;
 }
-- 
2.43.0


From 6b75ddba589309acbf7e8c593d66a988cbf3c9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 51/74] fix: making a path failed when another thread made one
 of its directories first

---
 src/evfs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evfs.c b/src/evfs.c
index b867ff4..5b3b45c 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -720,6 +720,9 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
 
     if(err == EVFS_ERR_NO_FILE) { // Path segment missing
       err = vfs->m_make_dir(vfs, cur_path);
+      if(err == EVFS_ERR_EXISTS && evfs__vfs_existing_dir(vfs, cur_path)) // Another thread made it first
+        err = EVFS_OK;
+
       if(err != EVFS_OK) { // New segment not made
         rval = err;
         goto cleanup;
-- 
2.43.0


From 08e8be85f8b68fb74c222190a6e8e382337d89c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 52/74] fix: FAT images for any volume were made and mounted on
 volume 0

---
 src/fatfs_image.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 914fbd1..d97f041 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -69,10 +69,10 @@ int fatfs_make_image(const char *img_path, uint8_t pdrv, evfs_off_t img_size) {
       evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
 
 
-      char drive_path[3];
+      char drive_path[5];
       char buf[FF_MAX_SS*4];
 
-      snprintf(drive_path, 2, "%hhu", pdrv);
+      snprintf(drive_path, sizeof(drive_path), "%hhu:", pdrv);
 
       FRESULT err = f_mkfs(drive_path, NULL, buf, COUNT_OF(buf));
       status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
@@ -110,8 +110,8 @@ int fatfs_mount_image(const char *img_path, uint8_t pdrv) {
     return status;
 
 
-  char drive_path[3];
-  snprintf(drive_path, 2, "%hhu", pdrv);
+  char drive_path[5];
+  snprintf(drive_path, sizeof(drive_path), "%hhu:", pdrv);
 
   FRESULT err = f_mount(&img->fs, drive_path, 1);
   status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
@@ -134,8 +134,8 @@ Args:
 void fatfs_unmount_image(uint8_t pdrv) {
   FatfsImage *img = get_image_data(pdrv);
 
-  char drive_path[3];
-  snprintf(drive_path, 2, "%hhu", pdrv);
+  char drive_path[5];
+  snprintf(drive_path, sizeof(drive_path), "%hhu:", pdrv);
   f_unmount(drive_path);
 
   evfs_file_close(img->fh);
-- 
2.43.0


From 84aca0f8967a3ee741c211de9e98bae494620d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 53/74] fix: small FAT images could not be formatted: the erase
 block size was reported as 512 sectors

---
 src/fatfs_image.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index d97f041..0aa8709 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -203,10 +203,10 @@ DRESULT disk_ioctl(BYTE pdrv, BYTE cmd, void* buff) {
     }
     break;
 
-  case GET_BLOCK_SIZE:    // Get erase block size (needed at FF_USE_MKFS == 1)
+  case GET_BLOCK_SIZE:    // Get erase block size in sectors (needed at FF_USE_MKFS == 1)
     {
-      WORD *ss = (WORD *)buff;
-      *ss = FF_MAX_SS;
+      DWORD *bs = (DWORD *)buff;
+      *bs = 1;
       return RES_OK;
     }
     break;
-- 
2.43.0


From b9fc09b2936dd7c6f8861abfdcf60690d37827fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 54/74] fix: FatFs kept using a closed image file after a
 failed mount

---
 src/fatfs_image.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 0aa8709..a600af2 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -116,8 +116,12 @@ int fatfs_mount_image(const char *img_path, uint8_t pdrv) {
   FRESULT err = f_mount(&img->fs, drive_path, 1);
   status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
 
-  if(status != EVFS_OK)
+  if(status != EVFS_OK) {
+    // FatFs must not keep using a volume without its image
+    f_unmount(drive_path);
     evfs_file_close(img->fh);
+    img->fh = NULL;
+  }
 
   return status;
 }
-- 
2.43.0


From 286209280e87d79913d8688939c61963597731e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 55/74] fix: FAT images were read and written at the wrong
 place when seeking in the image failed

---
 src/fatfs_image.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index a600af2..7ec9a5f 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -165,7 +165,9 @@ DSTATUS disk_status(BYTE pdrv) {
 DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
 
-  evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO);
+  if(evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
+    return RES_ERROR;
+
   ptrdiff_t read = evfs_file_read(img->fh, buff, count * FF_MAX_SS);
 
   return read == (count * FF_MAX_SS) ? RES_OK : RES_ERROR;
@@ -174,7 +176,9 @@ DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
 DRESULT disk_write(BYTE pdrv, const BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
 
-  evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO);
+  if(evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
+    return RES_ERROR;
+
   ptrdiff_t wrote = evfs_file_write(img->fh, buff, count * FF_MAX_SS);
 
   return wrote == (count * FF_MAX_SS) ? RES_OK : RES_ERROR;
-- 
2.43.0


From 3c083147481b0a02dc820447b59b7a95af9f4b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 56/74] fix: a VFS for one FAT volume worked on the current
 volume instead

---
 src/fatfs_fs.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 114d8c6..20cdf76 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -335,6 +335,15 @@ static EvfsDirMethods s_fatfs_dir_methods = {
 
 // ******************** FS access methods ********************
 
+// Paths without a drive prefix refer to the current FatFs volume
+static void select_volume(Evfs *vfs) {
+  FatfsData *fs_data = (FatfsData *)vfs->fs_data;
+  char drive_path[3] = {'0' + fs_data->pdrv, ':', '\0'};
+
+  f_chdrive(drive_path);
+}
+
+
 static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   FatfsData *fs_data = (FatfsData *)vfs->fs_data;
   FatfsFile *fil = (FatfsFile *)fh;
@@ -358,6 +367,7 @@ static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   fil->pdrv = fs_data->pdrv;
   
   FRESULT status;
+  select_volume(vfs);
   status = f_open(&fil->fil, path, fs_flags);
 
   return translate_error(status);
@@ -369,6 +379,7 @@ static int fatfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
 
   FRESULT status;
 
+  select_volume(vfs);
   status = f_stat(path, &fs_data->info);
 
   memset(info, 0, sizeof(*info));
@@ -393,6 +404,7 @@ static int fatfs__delete(Evfs *vfs, const char *path) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  select_volume(vfs);
   status = f_unlink(path);
   return translate_error(status);
 #else
@@ -408,6 +420,7 @@ static int fatfs__rename(Evfs *vfs, const char *old_path, const char *new_path)
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  select_volume(vfs);
   status = f_rename(old_path, new_path);
   return translate_error(status);
 #else
@@ -424,6 +437,7 @@ static int fatfs__make_dir(Evfs *vfs, const char *path) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  select_volume(vfs);
   status = f_mkdir(path);
   return translate_error(status);
 #else
@@ -443,6 +457,7 @@ static int fatfs__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   FRESULT status;
 
+  select_volume(vfs);
   status = f_opendir(&dir->dir, path);
   return translate_error(status);
 
@@ -451,11 +466,13 @@ static int fatfs__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
 
 static int fatfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
+  select_volume(vfs);
   FRESULT status = f_getcwd((char *)cur_dir->start, range_size(cur_dir));
   return translate_error(status);
 }
 
 static int fatfs__set_cur_dir(Evfs *vfs, const char *path) {
+  select_volume(vfs);
   FRESULT status = f_chdir(path);
   return translate_error(status);
 }
-- 
2.43.0


From fc65d0f7cf2a4ff511933eb03a6e86f00dc053fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 57/74] fix: append mode on FAT wrote at the current position
 instead of the end

---
 src/fatfs_fs.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 20cdf76..58a9d31 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -42,6 +42,7 @@ typedef struct FatfsFile_s {
   EvfsFile base;
   FatfsData *fs_data;
   uint8_t pdrv;
+  bool append;
   FIL fil;
 } FatfsFile;
 
@@ -137,7 +138,12 @@ static ptrdiff_t fatfs__file_write(EvfsFile *fh, const void *buf, size_t size) {
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
   UINT wrote = 0;
-  FRESULT status = f_write(&fil->fil, buf, size, &wrote);
+  FRESULT status = FR_OK;
+  if(fil->append && size > 0) // FatFs only seeks to the end when opening
+    status = f_lseek(&fil->fil, f_size(&fil->fil));
+
+  if(status == FR_OK)
+    status = f_write(&fil->fil, buf, size, &wrote);
   ptrdiff_t rval = translate_error(status);
 
   if(rval == EVFS_OK && wrote > 0)
@@ -365,6 +371,7 @@ static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   fil->fs_data = fs_data;
   fil->pdrv = fs_data->pdrv;
+  fil->append = !!(flags & EVFS_APPEND);
   
   FRESULT status;
   select_volume(vfs);
-- 
2.43.0


From 1bcd6fe0f9135f8849ffe6eda4695011f63defb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 58/74] fix: stat of a root directory on FAT failed

---
 src/fatfs_fs.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 58a9d31..b87aa01 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -389,6 +389,17 @@ static int fatfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   select_volume(vfs);
   status = f_stat(path, &fs_data->info);
 
+  if(status == FR_INVALID_NAME) { // FatFs has no info on a root directory
+    DIR dir;
+    if(f_opendir(&dir, path) == FR_OK) {
+      f_closedir(&dir);
+      memset(&fs_data->info, 0, sizeof(fs_data->info));
+      strcpy(fs_data->info.fname, "/");
+      fs_data->info.fattrib = AM_DIR;
+      status = FR_OK;
+    }
+  }
+
   memset(info, 0, sizeof(*info));
 
   if(status == FR_OK) {
-- 
2.43.0


From 74ced62bdf4a8560f868d232cbd5dbd89b7a50c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 59/74] fix: renaming a directory into itself on FAT lost it

---
 src/fatfs_fs.c | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index b87aa01..d4efb09 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -431,6 +431,41 @@ static int fatfs__delete(Evfs *vfs, const char *path) {
 }
 
 
+#if FF_FS_READONLY == 0
+// Check if a path leads to somewhere inside a directory
+static int path_is_inside(Evfs *vfs, const char *path, const char *dir, bool *inside) {
+  char *buf = evfs_malloc(EVFS_MAX_PATH * 2);
+  if(MEM_CHECK(buf)) return EVFS_ERR_ALLOC;
+
+  StringRange abs_path, abs_dir, root;
+  range_init(&abs_path, buf, EVFS_MAX_PATH);
+  range_init(&abs_dir, buf + EVFS_MAX_PATH, EVFS_MAX_PATH);
+
+  int rval = evfs_vfs_path_absolute(vfs, path, &abs_path);
+  if(rval == EVFS_OK)
+    rval = evfs_vfs_path_absolute(vfs, dir, &abs_dir);
+
+  if(rval == EVFS_OK) {
+    // Compare without drive prefixes
+    fatfs__path_root_component(vfs, abs_path.start, &root);
+    const char *p = root.end;
+    fatfs__path_root_component(vfs, abs_dir.start, &root);
+    const char *d = root.end;
+
+    while(*d != '\0' && toupper((unsigned char)*p) == toupper((unsigned char)*d)) {
+      p++;
+      d++;
+    }
+
+    *inside = *d == '\0' && *p != '\0' && strchr(EVFS_PATH_SEPS, *p);
+  }
+
+  evfs_free(buf);
+  return rval;
+}
+#endif
+
+
 static int fatfs__rename(Evfs *vfs, const char *old_path, const char *new_path) {
 #if FF_FS_READONLY == 0
   FRESULT status;
@@ -438,6 +473,12 @@ static int fatfs__rename(Evfs *vfs, const char *old_path, const char *new_path)
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  // FatFs would lose a directory moved into itself
+  bool inside;
+  int rval = path_is_inside(vfs, new_path, old_path, &inside);
+  if(rval != EVFS_OK) return rval;
+  if(inside) return EVFS_ERR_BAD_ARG;
+
   select_volume(vfs);
   status = f_rename(old_path, new_path);
   return translate_error(status);
-- 
2.43.0


From 51582e81f2573095b19d22602e605bb15b158d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 60/74] fix: seeking grew a file on a FAT volume set read only

---
 src/fatfs_fs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index d4efb09..e649cd4 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -225,6 +225,10 @@ static int fatfs__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
 
   if(ASSERT(offset >= 0, "Invalid offset")) return EVFS_ERR;
 
+  // f_lseek() would grow the file
+  if(fil->fs_data->cfg_readonly && (FSIZE_t)offset > f_size(&fil->fil))
+    offset = f_size(&fil->fil);
+
   return translate_error(f_lseek(&fil->fil, offset));
 }
 
-- 
2.43.0


From 19c9cdb8a914363544c1b2ab4520e296ebda97b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 61/74] fix: a refused truncate moved the position of a FAT
 file

---
 src/fatfs_fs.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index e649cd4..77a00d1 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -169,14 +169,14 @@ static int fatfs__file_truncate(EvfsFile *fh, evfs_off_t size) {
   if(size > file_size)
     size = file_size;
 
-  if(cur_pos > size)
-    cur_pos = size;
-
   FRESULT status = f_lseek(&fil->fil, size);
   if(status == FR_OK)
     status = f_truncate(&fil->fil);
 
-  // Restore original position
+  // Restore original position unless it was cut off
+  if(cur_pos > (evfs_off_t)f_size(&fil->fil))
+    cur_pos = f_size(&fil->fil);
+
   f_lseek(&fil->fil, cur_pos);
 
   return translate_error(status);
-- 
2.43.0


From cdcc0c917fe6779b235b50885cb23c897a0294ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 62/74] fix: a failing FAT directory read was reported as the
 end of the directory

---
 src/fatfs_fs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 77a00d1..e026660 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -324,6 +324,8 @@ static int fatfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
     info->name = NULL;
   }
 
+  if(status != FR_OK) return translate_error(status);
+
   return info->name ? EVFS_OK : EVFS_DONE;
 }
 
-- 
2.43.0


From 9669bb4e55105ff1da126a408ab68391199133c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 63/74] fix: a FAT file that could not be written back closed
 without an error

---
 src/fatfs_fs.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index e026660..580aa8d 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -113,8 +113,7 @@ static int fatfs__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int fatfs__file_close(EvfsFile *fh) {
   FatfsFile *fil = (FatfsFile *)fh;
-  f_close(&fil->fil);
-  return EVFS_OK;
+  return translate_error(f_close(&fil->fil));
 }
 
 static ptrdiff_t fatfs__file_read(EvfsFile *fh, void *buf, size_t size) {
-- 
2.43.0


From dde1a953dd74dab2a0084e1df6e51fd374412f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 64/74] fix: truncating a FAT file to a negative size filled
 the volume

---
 src/fatfs_fs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 580aa8d..02d3ccc 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -160,6 +160,7 @@ static int fatfs__file_truncate(EvfsFile *fh, evfs_off_t size) {
   FatfsData *fs_data = (FatfsData *)fil->fs_data;
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
+  if(size < 0) return EVFS_ERR_BAD_ARG;
 
   evfs_off_t cur_pos = f_tell(&fil->fil);
 
-- 
2.43.0


From dfa7b440f650f485d5b16979339c7891600a47d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 65/74] fix: a negative size given to truncate or trim
 destroyed a rotating log

---
 src/shim_rotate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index f5a58d4..586a614 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -805,6 +805,8 @@ static int trim_start_chunks(RotateFile *fil, evfs_off_t trim_bytes) {
   RotateData *shim_data = fil->shim_data;
   Evfs *base_vfs = shim_data->base_vfs;
 
+  if(trim_bytes < 0) return EVFS_ERR_BAD_ARG;
+
   int status = EVFS_OK;
   // We need to round down to the nearest chunk size
   int trim_chunks = trim_bytes / rs->cfg.chunk_size;
@@ -1085,6 +1087,7 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     Evfs *base_vfs = shim_data->base_vfs;
 
     if(rs->base.flags == EVFS_READ) return EVFS_ERR_AUTH;
+    if(size < 0) return EVFS_ERR_BAD_ARG;
 
     if(size >= rs->base.total_size) // Do nothing if larger
       return EVFS_OK;
-- 
2.43.0


From 1522e1670efeaf32d0589388a4eb7fff0021930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 66/74] fix: seeking very far from the current position or the
 end wrapped around to the start

---
 src/evfs.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 5b3b45c..137695b 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -170,17 +170,23 @@ bool evfs__vfs_existing_dir(Evfs *vfs, const char *path) {
 
 // Common offset conversion routine for implementations of m_file_seek()
 evfs_off_t evfs__absolute_offset(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin) {
+  // Largest offset we can represent; Sums must not wrap around beyond it
+  const evfs_off_t max_off = sizeof(evfs_off_t) > 4 ? (evfs_off_t)INT64_MAX : (evfs_off_t)INT32_MAX;
+  evfs_off_t base;
+
   // Compute absolute offset from start of file
   switch(origin) {
     case EVFS_SEEK_TO: // No change
       break;
 
     case EVFS_SEEK_REL:
-      offset += evfs_file_tell(fh);
+      base = evfs_file_tell(fh);
+      offset = (base > 0 && offset > max_off - base) ? max_off : base + offset;
       break;
 
     case EVFS_SEEK_REV:
-      offset = evfs_file_size(fh) - offset;
+      base = evfs_file_size(fh);
+      offset = (base >= 0 && offset < base - max_off) ? max_off : base - offset;
       break;
 
     default:
-- 
2.43.0


From 5e1d8d6b5d161fa8d7fe791bc0799a9b72815740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 67/74] fix: appending a string without a NUL left the range
 one byte short

---
 src/util/range_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index b851f34..0731a70 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -359,7 +359,7 @@ int range_cat_str_no_nul(AppendRange *rng, const char *str) {
   rval = src - str; // Number of bytes copied
 
   if(done) {
-    rng->start = dest-1;
+    rng->start = dest;
   } else { // Truncated
     if(rng->start && rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
-- 
2.43.0


From 5b96b861197028f7ff54c6f4675ca672e41ba856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 68/74] fix: formatted append to a full range reported success

---
 src/util/range_strings.c | 51 +++++++++++-----------------------------
 1 file changed, 14 insertions(+), 37 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 0731a70..38a318b 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -239,51 +239,28 @@ Returns:
 */
 int range_cat_fmt(AppendRange *rng, const char *fmt, ...) {
   va_list args;
-  int rval = 0;
-
-  if(rng->start < rng->end) { // Range is valid?
-    va_start(args, fmt);
-    size_t len = range_size(rng);
-    if(len <= 1)  // Force single byte range to zero for formatted length query
-      len = 0;
-    rval = vsnprintf(rng->start, len, fmt, args);
-    va_end(args);
-
-    if(rval > 0) {
-      if(rval < range_size(rng)) { // Success
-        rng->start += rval;
-      } else { // Truncated
-        if(rng->start)
-          *rng->start = '\0'; // Wipe partial string
-        rval = -rval;
-      }
-    }
+  int rval;
 
-  }
+  va_start(args, fmt);
+  rval = range_cat_vfmt(rng, fmt, args);
+  va_end(args);
 
   return rval;
 }
 
 
 int range_cat_vfmt(AppendRange *rng, const char *fmt, va_list args) {
-  int rval = 0;
-
-  if(rng->start < rng->end) { // Range is valid?
-    size_t len = range_size(rng);
-    if(len <= 1)  // Force single byte range to zero for formatted length query
-      len = 0;
-    rval = vsnprintf(rng->start, len, fmt, args);
-
-    if(rval > 0) {
-      if(rval < range_size(rng)) { // Success
-        rng->start += rval;
-      } else { // Truncated
-        if(rng->start)
-          *rng->start = '\0'; // Wipe partial string
-        rval = -rval;
-      }
+  int len = (rng->start < rng->end) ? range_size(rng) : 0; // An empty range only gets a length query
+  int rval = vsnprintf(rng->start, len, fmt, args);
+
+  if(rval > 0) {
+    if(rval < len) { // Success
+      rng->start += rval;
+    } else { // Truncated
+      if(len > 0)
+        *rng->start = '\0'; // Wipe partial string
+      rval = -rval;
     }
-
   }
 
   return rval;
-- 
2.43.0


From 343b2455222c50a3b80c8d24da4a6218e7c5fcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 69/74] fix: copying into an empty range wrote outside it and
 truncation to nothing looked like success

---
 src/util/range_strings.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 38a318b..938a057 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -207,11 +207,13 @@ int range_copy_str(AppendRange *rng, const char *str, bool truncate) {
 
   if(!done) { // Truncated
     if(truncate) {
-      dest--;
-      *dest = '\0';
-      rval = -(rval-1);
+      if(rng->start < rng->end) {
+        dest--;
+        *dest = '\0';
+      }
+      rval = -rval;
     } else {
-      if(rng->start)
+      if(rng->start && rng->start < rng->end)
         *rng->start = '\0'; // Wipe partial string
       rval = -(rval + strlen(src)); // Add uncopied bytes
     }
-- 
2.43.0


From 98f76354fe0941f26a3a450777d974907044081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 70/74] fix: terminating or padding an empty range wrote
 outside it

---
 src/util/range_strings.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 938a057..0162121 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -780,6 +780,7 @@ Returns:
   Number of pad bytes written
 */
 int range_pad_right(StringRange *rng, char pad) {
+  if(range_size(rng) <= 0) return 0; // No room for a NUL
   size_t width = range_size(rng) - 1;
 
   size_t pad_num = 0;
@@ -856,7 +857,7 @@ void range_terminate(AppendRange *rng) {
   size_t maxlen = range_size(rng);
   size_t rlen = strnlen(rng->start, maxlen);
 
-  if(rlen == maxlen) { // No NUL found
+  if(rlen == maxlen && maxlen > 0) { // No NUL found
     *(rng->end-1) = '\0';
   }
 }
-- 
2.43.0


From ef45ca44ca2e1fa92ffee7846191d61e81cbf812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 71/74] fix: limited tokenizing read past its limit and
 returned an empty token after delimiters

---
 src/util/range_strings.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 0162121..b5430d8 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -1034,23 +1034,20 @@ bool range_token_limit(const char *str, const char *delim, StringRange *token, s
 
 
   // Skip leading delimiters
-  size_t consumed = strspn(str, delim);
-  str += consumed;
-  if(*str == '\0') // No more tokens
+  size_t consumed = 0;
+  while(consumed < *limit && *str != '\0' && strchr(delim, *str)) {
+    str++;
+    consumed++;
+  }
+  if(consumed == *limit || *str == '\0') // No more tokens
     return false;
 
   // Get token length
-  size_t tok_len = strcspn(str, delim);
-  if(consumed + tok_len > *limit) {// Truncate token
-    if(consumed <= *limit)
-      tok_len = *limit - consumed;
-    else
-      tok_len = 0;
+  size_t tok_len = 0;
+  while(consumed < *limit && str[tok_len] != '\0' && !strchr(delim, str[tok_len])) {
+    tok_len++;
+    consumed++;
   }
-  consumed += tok_len;
-
-  if(consumed > *limit)
-    consumed = *limit;
 
   *limit -= consumed;
 
-- 
2.43.0


From daa0500098ae61097cf84c7f0ca04e4971d22791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 72/74] fix: strxcpy and strlcat read one byte past an
 unterminated string

---
 src/util/bsd_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/bsd_string.c b/src/util/bsd_string.c
index 354aa91..2d40de5 100644
--- a/src/util/bsd_string.c
+++ b/src/util/bsd_string.c
@@ -83,7 +83,7 @@ size_t strxcpy(char *dst, const char *src, size_t size) {
 
   if(size > 0) {
     size--;
-    while(*src != '\0' && copied < size) {
+    while(copied < size && *src != '\0') {
       *dst++ = *src++;
       copied++;
     }
@@ -113,7 +113,7 @@ size_t strlcat(char *dst, const char *src, size_t size) {
   size_t cat_len = 0;
 
   if(size > 0) {
-    while(*dst != '\0' && cat_len < size) {
+    while(cat_len < size && *dst != '\0') {
       dst++;
       cat_len++;
     }
-- 
2.43.0


From bee5d588d56e24bc5f4bc398be5ab43365dc2aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:07 +0000
Subject: [PATCH 73/74] fix: romfs mounted with a wrong root when the
 superblock could not be read again

---
 src/romfs_common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index 0e2afdc..a08e70d 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -185,6 +185,7 @@ static int romfs__validate(Romfs *fs) {
   uint32_t buf[CHUNK_LEN/4];
 
   ptrdiff_t buf_len = romfs_read(fs, chunk_pos, buf, 4*COUNT_OF(buf));
+  ptrdiff_t first_len = buf_len;
   chunk_pos += CHUNK_LEN;
   if(ASSERT(buf_len >= ROMFS_MIN_HEADER_SIZE, "Romfs too small"))
     return EVFS_ERR_INVALID;
@@ -214,7 +215,8 @@ static int romfs__validate(Romfs *fs) {
     if(checksum == 0) { // Valid superblock
       // Read first chunk again
       chunk_pos = 0;
-      buf_len = romfs_read(fs, chunk_pos, buf, 4*COUNT_OF(buf));
+      if(romfs_read(fs, chunk_pos, buf, 4*COUNT_OF(buf)) < first_len)
+        return EVFS_ERR_INVALID;
 
       char *vol_name = (char *)&buf[4];
       //DPRINT("VOLUME: '%s'", vol_name);
-- 
2.43.0


From 308383ffc9117a5626ad6703fe15fd5434b94b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 74/74] fix: romfs answered with garbage when reading the image
 failed during a lookup or listing

---
 include/evfs/romfs_common.h |  2 +-
 src/romfs_common.c          | 17 +++++++++++------
 src/romfs_fs.c              | 19 ++++++++++++-------
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/include/evfs/romfs_common.h b/include/evfs/romfs_common.h
index fa76d8e..e5c4ab4 100644
--- a/include/evfs/romfs_common.h
+++ b/include/evfs/romfs_common.h
@@ -88,7 +88,7 @@ int romfs_init(Romfs *fs, RomfsConfig *cfg);
 
 
 bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr);
-void romfs_follow_link(Romfs *fs, RomfsFileHead *hdr);
+bool romfs_follow_link(Romfs *fs, RomfsFileHead *hdr);
 
 
 static inline ptrdiff_t romfs_read(Romfs *fs, evfs_off_t offset, void *buf, size_t size) {
diff --git a/src/romfs_common.c b/src/romfs_common.c
index a08e70d..86d13a2 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -52,12 +52,15 @@ bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
 }
 
 // Replace the header of a hard link with the header of its destination
-void romfs_follow_link(Romfs *fs, RomfsFileHead *hdr) {
+bool romfs_follow_link(Romfs *fs, RomfsFileHead *hdr) {
   if(FILE_TYPE(hdr) == FILE_TYPE_HARD_LINK) {
     evfs_off_t dest = hdr->spec_info;
-    romfs_read_file_header(fs, dest, hdr); // Reparse header (should never fail)
+    if(!romfs_read_file_header(fs, dest, hdr)) // Reparse header
+      return false;
     hdr->offset = dest | FILE_MODE(hdr);   // Replace with offset of the element
   }
+
+  return true;
 }
 
 // Scan a directory for file from a path
@@ -91,11 +94,11 @@ static int romfs__fast_lookup_abs_path(Romfs *fs, const char *path, RomfsFileHea
 
   alignas(uintptr_t) evfs_off_t entry;
   if(dh_lookup(&fs->fast_index.hash_table, key, &entry)) {
-    romfs_read_file_header(fs, entry, hdr);
+    if(!romfs_read_file_header(fs, entry, hdr))
+      return EVFS_ERR_IO;
     //DPRINT("## FAST LOOKUP: @ %08X %08X %s -> '%s'", entry, FILE_OFFSET(hdr), path, hdr->file_name);
     hdr->offset = entry | FILE_MODE(hdr); // Replace with offset of the element
-    romfs_follow_link(fs, hdr);
-    status = EVFS_OK;
+    status = romfs_follow_link(fs, hdr) ? EVFS_OK : EVFS_ERR_IO;
   } else {
     status = EVFS_ERR_NO_PATH;
   }
@@ -141,7 +144,9 @@ static int romfs__lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hd
     end_scan = false;
 
     if(romfs__find_path_elem(fs, dir_pos, &element, hdr)) {
-      romfs_follow_link(fs, hdr);
+      if(!romfs_follow_link(fs, hdr))
+        return EVFS_ERR_IO;
+
       file_type = FILE_TYPE(hdr);
       switch(file_type) {
 
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index d97fb07..8adfc83 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -268,18 +268,19 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
   int status;
   evfs_off_t next_entry;
   RomfsFileHead hdr;
+  bool valid = true;
 
   LOCK();
 
   // Advance to next directory
   if(dir->is_reset) { // Init iterator
-    romfs_read_file_header(&fs_data->romfs, dir->dir_pos, &dir->cur_file);
+    valid = romfs_read_file_header(&fs_data->romfs, dir->dir_pos, &dir->cur_file);
     next_entry = dir->cur_file.spec_info;
     dir->is_reset = false;
 
-    if(fs_data->cfg_no_dir_dots) { // Skip over hard links
-      romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file); // Skip "."
-      romfs_read_file_header(&fs_data->romfs, FILE_OFFSET(&dir->cur_file), &dir->cur_file); // Skip ".."
+    if(valid && fs_data->cfg_no_dir_dots) { // Skip over hard links
+      valid = romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file) // Skip "."
+           && romfs_read_file_header(&fs_data->romfs, FILE_OFFSET(&dir->cur_file), &dir->cur_file); // Skip ".."
       next_entry = FILE_OFFSET(&dir->cur_file);
     }
 
@@ -287,13 +288,17 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
     next_entry = FILE_OFFSET(&dir->cur_file);
   }
 
-  if(next_entry > 0) {
+  if(!valid) {
+    status = EVFS_ERR_IO;
+
+  } else if(next_entry > 0) {
     dir->cur_file_offset = next_entry;
-    status = romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file) ? EVFS_OK : EVFS_DONE;
+    status = romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file) ? EVFS_OK : EVFS_ERR_IO;
 
     // Describe the destination of a link
     hdr = dir->cur_file;
-    romfs_follow_link(&fs_data->romfs, &hdr);
+    if(status == EVFS_OK && !romfs_follow_link(&fs_data->romfs, &hdr))
+      status = EVFS_ERR_IO;
 
   } else { // Iteration complete
     status = EVFS_DONE;
-- 
2.43.0

