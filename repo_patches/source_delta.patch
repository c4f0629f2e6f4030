From 1bddc0948375e551bef9104e5e8ac565499b8333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 01/10] fix: set hash index out of bounds for colliding element
 hashes

The hash index of the deepest level (bits 28-31) came out negative when it
was computed from a signed hash value, and a chain whose elements share all
32 hash bits was split without limit (shifts of 32 bits and more).
---
 engines/default/coll_set.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/engines/default/coll_set.c b/engines/default/coll_set.c
index bf4e732..46e7869 100644
--- a/engines/default/coll_set.c
+++ b/engines/default/coll_set.c
@@ -102,8 +102,10 @@ static bool hash_insert(hash_table *ht, int key)
  * SET collection manangement
  */
 
+/* The hash value has 32 bits and each level uses 4 of them: levels 0 to 7. */
+#define SET_MAX_HASH_DEPTH 7
 #define SET_GET_HASHIDX(hval, hdepth) \
-        (((hval) & (SET_HASHIDX_MASK << ((hdepth)*4))) >> ((hdepth)*4))
+        ((((uint32_t)(hval)) >> ((hdepth)*4)) & SET_HASHIDX_MASK)
 
 static inline int set_hash_eq(const int h1, const void *v1, size_t vlen1,
                               const int h2, const void *v2, size_t vlen2)
@@ -352,7 +354,12 @@ static ENGINE_ERROR_CODE do_set_elem_link(set_meta_info *info, set_elem_item *el
         return ENGINE_ELEM_EEXISTS;
     }
 
-    if (node->hcnt[hidx] >= SET_MAX_HASHCHAIN_SIZE) {
+    if (node->hdepth >= SET_MAX_HASH_DEPTH) {
+        /* no more hash bits to split the chain */
+        if (node->hcnt[hidx] == INT16_MAX) {
+            return ENGINE_EOVERFLOW;
+        }
+    } else if (node->hcnt[hidx] >= SET_MAX_HASHCHAIN_SIZE) {
         set_hash_node *n_node = do_set_node_alloc(node->hdepth+1, cookie);
         if (n_node == NULL) {
             return ENGINE_ENOMEM;
-- 
2.43.0


From 4206c8ec69931ff6b3dfe6ba37bf9ec089455fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 02/10] fix: map hash index out of bounds for colliding field
 hashes

Same as for sets: a negative hash index at the deepest level, and chains
split without limit when all 32 hash bits are equal.
---
 engines/default/coll_map.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/engines/default/coll_map.c b/engines/default/coll_map.c
index 91ab5eb..faa0a9f 100644
--- a/engines/default/coll_map.c
+++ b/engines/default/coll_map.c
@@ -62,8 +62,10 @@ typedef struct _map_prev_info {
     uint16_t       hidx;
 } map_prev_info;
 
+/* The hash value has 32 bits and each level uses 4 of them: levels 0 to 7. */
+#define MAP_MAX_HASH_DEPTH 7
 #define MAP_GET_HASHIDX(hval, hdepth) \
-        (((hval) & (MAP_HASHIDX_MASK << ((hdepth)*4))) >> ((hdepth)*4))
+        ((((uint32_t)(hval)) >> ((hdepth)*4)) & MAP_HASHIDX_MASK)
 
 static inline int map_hash_eq(const int h1, const void *v1, size_t vlen1,
                               const int h2, const void *v2, size_t vlen2)
@@ -395,7 +397,12 @@ static ENGINE_ERROR_CODE do_map_elem_link(map_meta_info *info, map_elem_item *el
         return ENGINE_EOVERFLOW;
     }
 
-    if (node->hcnt[hidx] >= MAP_MAX_HASHCHAIN_SIZE) {
+    if (node->hdepth >= MAP_MAX_HASH_DEPTH) {
+        /* no more hash bits to split the chain */
+        if (node->hcnt[hidx] == INT16_MAX) {
+            return ENGINE_EOVERFLOW;
+        }
+    } else if (node->hcnt[hidx] >= MAP_MAX_HASHCHAIN_SIZE) {
         map_hash_node *n_node = do_map_node_alloc(node->hdepth+1, cookie);
         if (n_node == NULL) {
             res = ENGINE_ENOMEM;
-- 
2.43.0


From c6f63f8e5306221505d729d9d34154be4ab58f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 03/10] fix: mop get heap overflow when the request repeats a
 field

The result array was sized by the number of elements in the map when fewer
than the requested fields, but a repeated field yields an entry each time.
---
 engines/default/coll_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/coll_map.c b/engines/default/coll_map.c
index faa0a9f..b568b35 100644
--- a/engines/default/coll_map.c
+++ b/engines/default/coll_map.c
@@ -894,7 +894,7 @@ ENGINE_ERROR_CODE map_elem_get(const char *key, const uint32_t nkey,
             if (info->ccnt <= 0) {
                 ret = ENGINE_ELEM_ENOENT; break;
             }
-            if (numfields == 0 || info->ccnt < numfields) {
+            if (numfields == 0) {
                 eresult->elem_array = (eitem **)malloc(info->ccnt * sizeof(eitem*));
             } else {
                 eresult->elem_array = (eitem **)malloc(numfields * sizeof(eitem*));
-- 
2.43.0


From 5b5c66f3f00899cd6477ac627d90b4589a33de88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 04/10] fix: incr/decr on a value of white space only reads
 past the value

The number parser skips white space, the terminating CR LF included, and went
on into whatever follows the item.
---
 engines/default/items.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engines/default/items.c b/engines/default/items.c
index 0ecb68b..0700523 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -26,6 +26,7 @@
 #include <assert.h>
 #include <sched.h>
 #include <inttypes.h>
+#include <ctype.h>
 
 /* Dummy PERSISTENCE_ACTION Macros */
 #define PERSISTENCE_ACTION_BEGIN(a, b)
@@ -242,7 +243,9 @@ static ENGINE_ERROR_CODE do_add_delta(hash_item *it, const bool incr, const int6
     int res;
 
     ptr = item_get_data(it);
-    if (!safe_strtoull(ptr, &value)) {
+    /* the number parser skips white space, and must not leave the value doing so */
+    for (res = 0; res < (int)it->nbytes && isspace((unsigned char)ptr[res]); res++);
+    if (res == (int)it->nbytes || !safe_strtoull(ptr, &value)) {
         return ENGINE_EINVAL;
     }
 
-- 
2.43.0


From 68f019154b095f855e8ee76c02845030acdf435a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 05/10] fix: key list with more keys than announced accepted at
 a block boundary

---
 mc_util.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mc_util.c b/mc_util.c
index f29c7cb..ca2cad3 100644
--- a/mc_util.c
+++ b/mc_util.c
@@ -525,7 +525,10 @@ do_again:
     dataptr = MBLCK_GET_BODYPTR(blckptr);
     datalen = (chkblks < numblks) ? bodylen : lastlen;
 
-    while (ntokens < keycnt) {
+    while (1) {
+        if (ntokens >= keycnt) { /* more strings than keycnt */
+            ret = ENGINE_EBADVALUE; break;
+        }
         /* check the last character */
         bool segmented_blck = false;
         if (chkblks < numblks) {
-- 
2.43.0


From 0af895fc77d84367c41cc5c844b7691a1948b1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 06/10] fix: pattern matching reads past the end of the pattern

A key with NUL bytes (binary protocol) matched the terminator of the pattern.
---
 util.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util.c b/util.c
index a93bde8..2cc6563 100644
--- a/util.c
+++ b/util.c
@@ -287,20 +287,20 @@ bool string_pattern_match(const char *text, int text_len, const char *pattern, i
     int plen_backup = 0;
     while (text_len)
     {
-        if (*pattern == '\\' && *(pattern+1) == *text) {
+        if (pattern_len > 1 && *pattern == '\\' && *(pattern+1) == *text) {
             text++;
             pattern += 2;
             text_len--;
             pattern_len -= 2;
         }
-        else if (*pattern == '*') {
+        else if (pattern_len > 0 && *pattern == '*') {
             /* new star-loop: backup positions in pattern and text. */
             text_backup = text;
             patt_backup = ++pattern;
             tlen_backup = text_len;
             plen_backup = --pattern_len;
         }
-        else if (*pattern == '?' || *pattern == *text) {
+        else if (pattern_len > 0 && (*pattern == '?' || *pattern == *text)) {
             /* ? match any character or match the current non-NULL character */
             text++;
             pattern++;
-- 
2.43.0


From 0b82f208b477bf71a387a8b2a3ef8a76f0249582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:03 +0000
Subject: [PATCH 07/10] fix: key scan writes past the item array when one hash
 chain outgrows it

---
 engines/default/assoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/assoc.c b/engines/default/assoc.c
index 5f68213..a4bcd5a 100644
--- a/engines/default/assoc.c
+++ b/engines/default/assoc.c
@@ -501,7 +501,6 @@ int assoc_scan_direct(const char *cursor, int req_count, hash_item **item_array,
         hash_item *next = assocp->roottable[tabidx].hashtable[bucket];
         while (next != NULL) {
             if (next->nkey > 0) { /* Not placeholder item */
-                item_array[item_count++] = next; /* user cache item */
                 if (item_count >= array_size) {
                     /* Never comes here. If not, @array_size is too small and it's wrong.
                      * This function doesn't set bucket refcount and link placeholder,
@@ -509,6 +508,7 @@ int assoc_scan_direct(const char *cursor, int req_count, hash_item **item_array,
                      */
                     break; /* just skip to scan simply (or do realloc) */
                 }
+                item_array[item_count++] = next; /* user cache item */
             }
             next = next->h_next;
         }
-- 
2.43.0


From 76a99ada450c9f028e317fd8a63ac7771437583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:44 +0000
Subject: [PATCH 08/10] fix: key list ending with a delimiter at a block
 boundary aborts the server

---
 mc_util.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mc_util.c b/mc_util.c
index ca2cad3..dc2d2f6 100644
--- a/mc_util.c
+++ b/mc_util.c
@@ -577,6 +577,9 @@ do_again:
             /* NOT segmented string */
             dataptr += 1;
             datalen -= 1;
+            if (datalen == 0) { /* the strings end with a delimiter */
+                ret = ENGINE_EBADVALUE; break;
+            }
         } else {
             /* real segmented string: save it */
             if (nsegtok >= SEGTOK_ARRAY_SIZE) {
-- 
2.43.0


From a7075704ab29efb7911925546109d75eea5681ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 09/10] fix: incr/decr on a collection key leaked an item
 reference

---
 engines/default/items.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/items.c b/engines/default/items.c
index 0700523..52bba00 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -373,8 +373,8 @@ ENGINE_ERROR_CODE item_arithmetic(const void *key, const uint32_t nkey,
             ret = ENGINE_EBADTYPE;
         } else {
             ret = do_add_delta(it, increment, delta, cas, result, cookie);
-            do_item_release(it);
         }
+        do_item_release(it);
     } else {
         if (create) {
             char buffer[128];
-- 
2.43.0


From 9ee7cfbac89d2930d213634055fa6c52163668e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 10/10] fix: replacing a non-sticky item by a sticky one, or
 back, miscounted the sticky items

---
 engines/default/item_base.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engines/default/item_base.c b/engines/default/item_base.c
index 550bd02..2e34b53 100644
--- a/engines/default/item_base.c
+++ b/engines/default/item_base.c
@@ -243,8 +243,13 @@ static inline void do_item_stat_replace(hash_item *old_it, hash_item *new_it)
     }
     /* update item stats imformation */
 #ifdef ENABLE_STICKY_ITEM
+    if (IS_STICKY_EXPTIME(old_it->exptime)) {
+        statsp->sticky_bytes -= old_stotal;
+        statsp->sticky_items -= 1;
+    }
     if (IS_STICKY_EXPTIME(new_it->exptime)) {
-        statsp->sticky_bytes += new_stotal - old_stotal;
+        statsp->sticky_bytes += new_stotal;
+        statsp->sticky_items += 1;
     }
 #endif
     statsp->curr_bytes += new_stotal - old_stotal;
-- 
2.43.0

