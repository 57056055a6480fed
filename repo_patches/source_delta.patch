From 1047ae634d3ecc50501ed2b511c6a6bd32bc9083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 01/41] Guarded hook: simulation builds may turn tuning
 constants into knobs

---
 include/conf.h               | 7 +++++++
 include/iso_alloc_profiler.h | 4 ++++
 include/iso_alloc_sanity.h   | 4 ++++
 3 files changed, 15 insertions(+)

diff --git a/include/conf.h b/include/conf.h
index fb5dc6b..d8e0a56 100644
--- a/include/conf.h
+++ b/include/conf.h
@@ -164,3 +164,10 @@ static uint64_t default_zones[] = {ZONE_32, ZONE_32, ZONE_64, ZONE_64, ZONE_128,
 #define SMALLEST_CHUNK_SZ ZONE_512
 static uint64_t default_zones[] = {ZONE_512, ZONE_1024, ZONE_2048, ZONE_4096};
 #endif
+
+/* Deterministic simulation builds turn some of the
+ * constants above into run-time knobs. This is never
+ * defined for regular builds */
+#if ISOALLOC_SIM
+#include "isoalloc_sim_knobs.h"
+#endif
diff --git a/include/iso_alloc_profiler.h b/include/iso_alloc_profiler.h
index b122318..d99643e 100644
--- a/include/iso_alloc_profiler.h
+++ b/include/iso_alloc_profiler.h
@@ -15,6 +15,10 @@
 #define BACKTRACE_DEPTH 8
 #define BACKTRACE_DEPTH_SZ 128
 
+#if ISOALLOC_SIM
+#include "isoalloc_sim_knobs.h"
+#endif
+
 /* The IsoAlloc profiler is not thread local but these
  * globals should only ever be touched by internal
  * allocator functions when the root is locked */
diff --git a/include/iso_alloc_sanity.h b/include/iso_alloc_sanity.h
index 02f23a6..b7914bd 100644
--- a/include/iso_alloc_sanity.h
+++ b/include/iso_alloc_sanity.h
@@ -21,6 +21,10 @@
 #define SANITY_CANARY_VALIDATE_MASK 0xffffffffffffff00
 #define SANITY_CANARY_SIZE 8
 
+#if ISOALLOC_SIM
+#include "isoalloc_sim_knobs.h"
+#endif
+
 #if THREAD_SUPPORT
 #if USE_SPINLOCK
 extern atomic_flag sane_cache_flag;
-- 
2.43.0


From fc06cc88e52fff019f865fdf01f3e4f32b7a3e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 02/41] fix: looking up a big allocation without removing it
 leaves the used list intact

---
 src/iso_alloc.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 498f2bd..32ad7f3 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1755,19 +1755,19 @@ INTERNAL_HIDDEN iso_alloc_big_zone_t *iso_find_big_zone(void *p, bool remove) {
         check_big_canary(big_zone);
         /* Only an exact match of the address is valid */
         if(p == big_zone->user_pages_start) {
-            if(remove == true && prev != NULL) {
-                prev->next = big_zone->next;
-            }
-
-            _root->big_zone_used_count--;
+            if(remove == true) {
+                /* If this is our first iteration then we are returning the
+                 * used list head. Set its new value to the next entry */
+                if(prev != NULL) {
+                    prev->next = big_zone->next;
+                } else {
+                    _root->big_zone_used = big_zone->next;
+                }
 
-            /* If this is our first iteration then we are returning the
-             * used list head. Set its new value to the next entry */
-            if(prev == NULL) {
-                _root->big_zone_used = big_zone->next;
+                _root->big_zone_used_count--;
+                big_zone->next = NULL;
             }
 
-            big_zone->next = NULL;
             UNLOCK_BIG_ZONE_USED();
             return big_zone;
         }
-- 
2.43.0


From 3f7c0cac4847624eb3568462ec0e60ff97b5732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 03/41] fix: requests near SIZE_MAX no longer wrap around to a
 tiny allocation

---
 src/iso_alloc.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 32ad7f3..a39712a 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1029,6 +1029,11 @@ INTERNAL_HIDDEN INLINE void populate_zone_cache(iso_alloc_zone_t *zone) {
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
     unsigned int res;
 
+    if(UNLIKELY(size > BIG_SZ_MAX)) {
+        LOG("Call to calloc() with size=%lu is too large", size);
+        return NULL;
+    }
+
     if(size < SMALLEST_CHUNK_SZ) {
         size = SMALLEST_CHUNK_SZ;
     } else if((size % SZ_ALIGNMENT) != 0) {
@@ -1063,6 +1068,16 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
     }
 #endif
 
+    /* Reject impossible sizes before rounding them up,
+     * or the rounding wraps around to a tiny size */
+    if(UNLIKELY(size > BIG_SZ_MAX)) {
+#if ABORT_ON_NULL
+        LOG_AND_ABORT("Cannot allocate %lu bytes", size);
+#endif
+        LOG("Cannot allocate %lu bytes", size);
+        return NULL;
+    }
+
     if(size < SMALLEST_CHUNK_SZ) {
         size = SMALLEST_CHUNK_SZ;
     } else if((size % SZ_ALIGNMENT) != 0) {
-- 
2.43.0


From 7e8aa2487f6b734859259eb860ff1cd76a68aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 04/41] fix: replacing zone 0 keeps its index

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index a39712a..dac3865 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -492,7 +492,7 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
     create_guard_page(user_pages_guard_above);
 
     /* We created a new zone, we did not replace a retired one */
-    if(index > 0) {
+    if(index >= 0) {
         new_zone->index = index;
     } else {
         new_zone->index = _root->zones_used;
-- 
2.43.0


From 096507af23d99fc69b279ebfe4de4ce906a9897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 05/41] fix: the metadata page of a released big allocation is
 unmapped

---
 include/iso_alloc_internal.h |  2 +-
 src/iso_alloc.c              | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/iso_alloc_internal.h b/include/iso_alloc_internal.h
index c8f87cb..b8f86e5 100644
--- a/include/iso_alloc_internal.h
+++ b/include/iso_alloc_internal.h
@@ -204,7 +204,7 @@ assert(sizeof(size_t) >= 64)
     ((((n + g_page_size) - 1) >> g_page_size_shift) * (g_page_size))
 
 #define ROUND_DOWN_PAGE(n) \
-    (ROUND_UP_PAGE(n) - g_page_size)
+    ((n) & ~((uintptr_t) g_page_size - 1))
 
 #if MASK_PTRS
 #define MASK_ZONE_PTRS(zone) \
diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index dac3865..609fc60 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1855,9 +1855,9 @@ INTERNAL_HIDDEN void iso_free_big_zone(iso_alloc_big_zone_t *big_zone, bool perm
 #endif
 
 #if BIG_ZONE_META_DATA_GUARD
-        unmap_guarded_pages(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        unmap_guarded_pages((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #else
-        munmap(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        munmap((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #endif
     }
 }
@@ -2100,9 +2100,9 @@ INTERNAL_HIDDEN void _free_big_zone_list(iso_alloc_big_zone_t *head) {
 #endif
 
 #if BIG_ZONE_META_DATA_GUARD
-        unmap_guarded_pages(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        unmap_guarded_pages((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #else
-        munmap(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        munmap((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #endif
         big_zone = big;
     }
@@ -2161,10 +2161,14 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
 
     LOCK_BIG_ZONE_USED();
     _free_big_zone_list(_root->big_zone_used);
+    _root->big_zone_used = NULL;
+    _root->big_zone_used_count = 0;
     UNLOCK_BIG_ZONE_USED();
 
     LOCK_BIG_ZONE_FREE();
     _free_big_zone_list(_root->big_zone_free);
+    _root->big_zone_free = NULL;
+    _root->big_zone_free_count = 0;
     UNLOCK_BIG_ZONE_FREE();
 
 #if ISO_DTOR_CLEANUP
-- 
2.43.0


From 8c9b350fe9031cdf5c61bbb7ed1cf386e778530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 06/41] fix: freeing a permanently freed or canary chunk aborts

---
 src/iso_alloc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 609fc60..9e269bf 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1438,7 +1438,7 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
                       chunk_offset, p, zone->index, zone->chunk_size, (chunk_offset & (zone->chunk_size - 1)));
     }
 
-    if(UNLIKELY(dwords_to_bit_slot > zone->max_bitmap_idx)) {
+    if(UNLIKELY(dwords_to_bit_slot >= zone->max_bitmap_idx)) {
         LOG_AND_ABORT("Cannot calculate this chunks location in the bitmap 0x%p", p);
     }
 
@@ -1451,8 +1451,10 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
      * which could result in a page fault */
     bitmap_index_t b = bm[dwords_to_bit_slot];
 
-    /* Double free detection */
-    if(UNLIKELY((GET_BIT(b, which_bit)) == 0)) {
+    /* Double free detection. The second bit is never set
+     * for a chunk that is in use, if it is then this chunk
+     * is a canary or it was permanently free'd already */
+    if(UNLIKELY((GET_BIT(b, which_bit)) == 0 || (GET_BIT(b, (which_bit + 1))) == 1)) {
         LOG_AND_ABORT("Double free of chunk 0x%p detected from zone[%d] dwords_to_bit_slot=%lu bit_slot=%lu",
                       p, zone->index, dwords_to_bit_slot, bit_slot);
     }
-- 
2.43.0


From 80d38f678d3b7d8fefbe28207b6261e373161348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 07/41] fix: a zone does not count chunks its bitmap cannot
 track

---
 src/iso_alloc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 9e269bf..71a06cd 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -374,6 +374,12 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
     new_zone->bitmap_size = (bitmap_size > sizeof(bitmap_index_t)) ? bitmap_size : sizeof(bitmap_index_t);
     new_zone->max_bitmap_idx = (new_zone->bitmap_size >> 3);
 
+    /* The bitmap is made of whole qwords so it may not be able
+     * to track the last chunks of a zone. These are never used */
+    if(new_zone->chunk_count > (new_zone->max_bitmap_idx * (BITS_PER_QWORD / BITS_PER_CHUNK))) {
+        new_zone->chunk_count = (new_zone->max_bitmap_idx * (BITS_PER_QWORD / BITS_PER_CHUNK));
+    }
+
     if(g_page_size >= new_zone->bitmap_size) {
         const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1;
 
-- 
2.43.0


From b11b553a0d3e9ad78355f928f3aad0fcfa777b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 08/41] fix: strdup and strndup allocate and write the
 terminator

---
 src/iso_alloc_interfaces.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 7db679e..1116d81 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -113,7 +113,8 @@ EXTERNAL_API FLATTEN NO_DISCARD ASSUME_ALIGNED char *iso_strdup_from_zone(iso_al
         return NULL;
     }
 
-    size_t size = strlen(str);
+    /* Include the terminating NULL byte */
+    size_t size = strlen(str) + 1;
 
     if(zone != NULL) {
         UNMASK_ZONE_HANDLE(zone);
@@ -138,25 +139,25 @@ EXTERNAL_API FLATTEN NO_DISCARD ASSUME_ALIGNED char *iso_strndup_from_zone(iso_a
         return NULL;
     }
 
-    size_t s_size = strlen(str);
+    /* The string may not be terminated if its longer than n */
+    size_t s_size = 0;
+
+    while(s_size < n && str[s_size] != '\0') {
+        s_size++;
+    }
 
     if(zone != NULL) {
         UNMASK_ZONE_HANDLE(zone);
     }
 
-    char *p = (char *) _iso_alloc(zone, n);
+    char *p = (char *) _iso_alloc(zone, s_size + 1);
 
     if(p == NULL) {
         return NULL;
     }
 
-    if(s_size > n) {
-        _iso_alloc_memcpy(p, str, n);
-        p[n - 1] = '\0';
-    } else {
-        _iso_alloc_memcpy(p, str, s_size);
-    }
-
+    _iso_alloc_memcpy(p, str, s_size);
+    p[s_size] = '\0';
     return p;
 }
 
-- 
2.43.0


From bd03b228c66345ae82296a8542190b3568c6fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 09/41] fix: verifying all zones takes the big zone locks

---
 src/iso_alloc_sanity.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 752d506..e72f501 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -82,9 +82,15 @@ INTERNAL_HIDDEN void _verify_all_zones(void) {
         _verify_zone(zone);
     }
 
-    /* Root is locked already */
+    /* Root is locked already but the big
+     * zone lists are protected by other locks */
+    LOCK_BIG_ZONE_USED();
     _verify_big_zone_list(_root->big_zone_used);
+    UNLOCK_BIG_ZONE_USED();
+
+    LOCK_BIG_ZONE_FREE();
     _verify_big_zone_list(_root->big_zone_free);
+    UNLOCK_BIG_ZONE_FREE();
 }
 
 INTERNAL_HIDDEN void _verify_zone(iso_alloc_zone_t *zone) {
-- 
2.43.0


From 738c075de0cedf67f6983c87865d9a64ef901ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 10/41] fix: a private zone that cannot be created yields a
 NULL handle

---
 src/iso_alloc_interfaces.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 1116d81..d1cec0f 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -35,11 +35,19 @@ EXTERNAL_API FLATTEN void iso_free_size(void *p, size_t size) {
 }
 
 EXTERNAL_API FLATTEN void iso_free_from_zone(void *p, iso_alloc_zone_handle *zone) {
+    if(zone == NULL) {
+        return;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     _iso_free_from_zone(p, zone, false);
 }
 
 EXTERNAL_API FLATTEN void iso_free_from_zone_permanently(void *p, iso_alloc_zone_handle *zone) {
+    if(zone == NULL) {
+        return;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     _iso_free_from_zone(p, zone, true);
 }
@@ -53,6 +61,10 @@ EXTERNAL_API FLATTEN size_t iso_chunksz(void *p) {
 }
 
 EXTERNAL_API FLATTEN NO_DISCARD size_t iso_zone_chunk_count(iso_alloc_zone_handle *zone) {
+    if(zone == NULL) {
+        return 0;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     iso_alloc_zone_t *_zone = (iso_alloc_zone_t *) zone;
     size_t canaries = 0;
@@ -232,6 +244,11 @@ EXTERNAL_API FLATTEN void iso_alloc_destroy_zone(iso_alloc_zone_handle *zone) {
 
 EXTERNAL_API FLATTEN NO_DISCARD iso_alloc_zone_handle *iso_alloc_new_zone(size_t size) {
     iso_alloc_zone_handle *zone = (iso_alloc_zone_handle *) iso_new_zone(size, false);
+
+    if(zone == NULL) {
+        return NULL;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     return zone;
 }
-- 
2.43.0


From 3c7f09aeaca9eaff078945f02fc1de95f77631c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 11/41] fix: naming a private zone names its user pages

---
 src/iso_alloc_interfaces.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index d1cec0f..eafe191 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -261,7 +261,7 @@ EXTERNAL_API FLATTEN int32_t iso_alloc_name_zone(iso_alloc_zone_handle *zone, ch
     }
 
     iso_alloc_zone_t *_zone = (iso_alloc_zone_t *) zone;
-    return name_mapping(_zone->user_pages_start, ZONE_USER_SIZE, name);
+    return name_mapping(UNMASK_USER_PTR(_zone), ZONE_USER_SIZE, name);
 }
 
 EXTERNAL_API FLATTEN void iso_alloc_protect_root(void) {
-- 
2.43.0


From 8af8f6e87df5590e01fedf4cab0e6669b4ad8de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 12/41] fix: mappings fall back to normal pages when there are
 no huge pages

---
 src/iso_alloc_util.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_util.c b/src/iso_alloc_util.c
index 132780e..66492fa 100644
--- a/src/iso_alloc_util.c
+++ b/src/iso_alloc_util.c
@@ -151,7 +151,15 @@ void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot) {
 #endif
 #endif
 
-    p = mmap(p, sz, prot, flags, fd, 0);
+    void *h = p;
+    p = mmap(h, sz, prot, flags, fd, 0);
+
+#if __linux__ && MAP_HUGETLB && HUGE_PAGES
+    /* The system may not have any huge pages reserved */
+    if(p == MAP_FAILED && (flags & MAP_HUGETLB) != 0) {
+        p = mmap(h, sz, prot, (flags & ~MAP_HUGETLB), fd, 0);
+    }
+#endif
 
     if(p == MAP_FAILED) {
         LOG_AND_ABORT("Failed to mmap rw pages");
-- 
2.43.0


From 18d906990f6e85de2a1af11eeeb06db29d72917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 13/41] fix: tags can be read for chunk sizes that are not a
 power of two

---
 src/iso_alloc_mem_tags.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 2bb3713..3501b5a 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -11,7 +11,7 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
 #if MEMORY_TAGGING
     void *user_pages_start = UNMASK_USER_PTR(zone);
 
-    if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) < p) {
+    if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) <= p) {
         LOG_AND_ABORT("Cannot get tag for pointer %p with wrong zone %d %p - %p", p, zone->index, user_pages_start, user_pages_start + ZONE_USER_SIZE);
     }
 
@@ -19,7 +19,7 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
     const uint64_t chunk_offset = (uint64_t) (p - user_pages_start);
 
     /* Ensure the pointer is a multiple of chunk size */
-    if(UNLIKELY((chunk_offset & (zone->chunk_size - 1)) != 0)) {
+    if(UNLIKELY((chunk_offset % zone->chunk_size) != 0)) {
         LOG_AND_ABORT("Chunk offset %d not an alignment of %d", chunk_offset, zone->chunk_size);
     }
 
-- 
2.43.0


From 5ee5692d4c958c223109ee118a4c1ed311b32b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 14/41] fix: verifying the tag of a correctly tagged pointer
 succeeds

---
 src/iso_alloc_mem_tags.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 3501b5a..9670c28 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -40,7 +40,7 @@ INTERNAL_HIDDEN void _iso_alloc_verify_tag(void *p, iso_alloc_zone_t *zone) {
     void *untagged_p = (void *) ((uintptr_t) p & TAGGED_PTR_MASK);
     const uint64_t tag = _iso_alloc_get_mem_tag(untagged_p, zone);
 
-    if(tag != ((uintptr_t) p & IS_TAGGED_PTR_MASK)) {
+    if(tag != (((uintptr_t) p & IS_TAGGED_PTR_MASK) >> UNTAGGED_BITS)) {
         LOG_AND_ABORT("Pointer %p has wrong tag %x, expected %x", p, ((uintptr_t) p & IS_TAGGED_PTR_MASK), tag);
     }
 #endif
-- 
2.43.0


From 0f577233df825fa19254b6cbb79de82df2064836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 15/41] fix: the tags of a zone are refreshed at the documented
 age

---
 src/iso_alloc_mem_tags.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 9670c28..8d1cf66 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -79,9 +79,9 @@ INTERNAL_HIDDEN bool _refresh_zone_mem_tags(iso_alloc_zone_t *zone) {
     /* This implements a similar policy to zone retirement.
      * The only difference is that we refresh all tags at
      * %25 of the configured zone retirement age */
-    if(UNLIKELY(zone->af_count == 0 && zone->alloc_count > (zone->chunk_count << _root->zone_retirement_shf)) >> 2) {
+    if(UNLIKELY(zone->af_count == 0 && zone->alloc_count > ((zone->chunk_count << _root->zone_retirement_shf) >> 2))) {
         size_t s = ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE);
-        uint64_t *_mtp = (zone->user_pages_start - g_page_size - s);
+        uint64_t *_mtp = (UNMASK_USER_PTR(zone) - g_page_size - s);
         size_t tms = s / sizeof(uint64_t);
 
         for(uint64_t o = 0; o < tms; o++) {
-- 
2.43.0


From 2523be90187abcd37640902e09063c9f0cf360bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 16/41] fix: destroying a tagged zone unmaps the guard page
 below its tags

---
 src/iso_alloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 71a06cd..0ed50ad 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -223,8 +223,8 @@ INTERNAL_HIDDEN void _iso_alloc_destroy_zone_unlocked(iso_alloc_zone_t *zone, bo
     /* If the zone is tagged then unmap the page holding the tags */
     if(zone->tagged == true) {
         size_t s = ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE);
-        void *_mtp = (zone->user_pages_start - s - g_page_size);
-        munmap(_mtp, g_page_size + s);
+        void *_mtp = (zone->user_pages_start - s - (g_page_size << 1));
+        munmap(_mtp, (g_page_size << 1) + s);
         zone->tagged = false;
     }
 #endif
-- 
2.43.0


From a4560f2b1da2fa0e597d57e51d8a561c638e5dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 17/41] fix: allocations are sampled unless they are for a
 private zone

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 0ed50ad..7cc400d 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1121,7 +1121,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
 
 #if ALLOC_SANITY
     /* We don't sample if we are allocating from a private zone */
-    if(zone != NULL) {
+    if(zone == NULL) {
         if(size < g_page_size && _sane_sampled < MAX_SANE_SAMPLES) {
             /* If we chose to sample this allocation then
              * _iso_alloc_sample will call UNLOCK_ROOT() */
-- 
2.43.0


From 8d89f9b2e44bf44ed57c36e58dd997173629443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 18/41] fix: the sampled allocation cache covers every index

---
 include/iso_alloc_sanity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/iso_alloc_sanity.h b/include/iso_alloc_sanity.h
index b7914bd..61b3c71 100644
--- a/include/iso_alloc_sanity.h
+++ b/include/iso_alloc_sanity.h
@@ -16,7 +16,7 @@
 
 #define SANITY_SAMPLE_ODDS 10000
 #define MAX_SANE_SAMPLES 1024
-#define SANE_CACHE_SIZE 65535
+#define SANE_CACHE_SIZE 65536
 #define SANE_CACHE_IDX(p) (((uint64_t) p >> 8) & 0xffff)
 #define SANITY_CANARY_VALIDATE_MASK 0xffffffffffffff00
 #define SANITY_CANARY_SIZE 8
-- 
2.43.0


From 1ed61b58f96d47d8e5146ee2cd2ce6d5ffce8900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 19/41] fix: losing the race for the last sampling slot is not
 an error

---
 src/iso_alloc_sanity.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index e72f501..2d118dd 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -360,7 +360,6 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
     _sane_allocation_t *sane_alloc = NULL;
 
     LOCK_SANITY_CACHE();
-    UNLOCK_ROOT();
 
     /* Find the first free slot in our sampled storage */
     for(uint32_t i = 0; i < MAX_SANE_SAMPLES; i++) {
@@ -370,11 +369,14 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
         }
     }
 
-    /* There are no available slots in the cache */
+    /* There are no available slots in the cache because
+     * another thread just took the last one */
     if(sane_alloc == NULL) {
-        LOG_AND_ABORT("There are no free slots in the cache, there should be %d", _sane_sampled);
+        UNLOCK_SANITY_CACHE();
+        return NULL;
     }
 
+    UNLOCK_ROOT();
     sane_alloc->orig_size = size;
     void *p = mmap_guarded_rw_pages(g_page_size, false, SAMPLED_ALLOC_NAME);
 
-- 
2.43.0


From c45a9cd50e57dfebf7c184784d1b9c467546a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 20/41] fix: strong size isolation applies to every zone

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 7cc400d..b22d33b 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -805,7 +805,7 @@ INTERNAL_HIDDEN iso_alloc_zone_t *is_zone_usable(iso_alloc_zone_t *zone, size_t
     }
 
 #if STRONG_SIZE_ISOLATION
-    if(UNLIKELY(zone->internal == false && size != zone->chunk_size)) {
+    if(UNLIKELY(size != zone->chunk_size)) {
         return NULL;
     }
 #endif
-- 
2.43.0


From 55268a73b709ec6811957bb24d0ee871b42a2024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 21/41] fix: the first allocation initializes everything the
 constructor does

---
 src/iso_alloc.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index b22d33b..bb437ce 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -137,20 +137,8 @@ INTERNAL_HIDDEN void iso_alloc_initialize_global_root(void) {
     _root->zone_handle_mask = rand_uint64();
     _root->big_zone_next_mask = us_rand_uint64(&_root->seed);
     _root->big_zone_canary_secret = us_rand_uint64(&_root->seed);
-}
-
-INTERNAL_HIDDEN void _iso_alloc_initialize(void) {
-    if(_root != NULL) {
-        return;
-    }
-
-    g_page_size = sysconf(_SC_PAGESIZE);
-    g_page_size_shift = _log2(g_page_size);
-
-    iso_alloc_initialize_global_root();
 
 #if THREAD_SUPPORT && !USE_SPINLOCK
-    pthread_mutex_init(&root_busy_mutex, NULL);
     pthread_mutex_init(&_root->big_zone_free_mutex, NULL);
     pthread_mutex_init(&_root->big_zone_used_mutex, NULL);
 #if ALLOC_SANITY
@@ -190,6 +178,21 @@ INTERNAL_HIDDEN void _iso_alloc_initialize(void) {
 #endif
 }
 
+INTERNAL_HIDDEN void _iso_alloc_initialize(void) {
+    if(_root != NULL) {
+        return;
+    }
+
+    g_page_size = sysconf(_SC_PAGESIZE);
+    g_page_size_shift = _log2(g_page_size);
+
+    iso_alloc_initialize_global_root();
+
+#if THREAD_SUPPORT && !USE_SPINLOCK
+    pthread_mutex_init(&root_busy_mutex, NULL);
+#endif
+}
+
 #if AUTO_CTOR_DTOR
 __attribute__((destructor(LAST_DTOR))) void iso_alloc_dtor(void) {
     _iso_alloc_destroy();
-- 
2.43.0


From 906290c0dda2e52181fb176aad00ed98b51707be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 22/41] fix: a zero sized first allocation returns the zero
 page

---
 src/iso_alloc.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index bb437ce..588855a 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1072,7 +1072,9 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
 
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t size) {
 #if NO_ZERO_ALLOCATIONS
-    if(UNLIKELY(size == 0 && _root != NULL)) {
+    const bool zero_size = (size == 0);
+
+    if(UNLIKELY(zero_size && _root != NULL && _root->zero_alloc_page != NULL)) {
         return _root->zero_alloc_page;
     }
 #endif
@@ -1108,20 +1110,20 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
         g_page_size = sysconf(_SC_PAGESIZE);
         g_page_size_shift = _log2(g_page_size);
         iso_alloc_initialize_global_root();
-
-#if NO_ZERO_ALLOCATIONS
-        /* In the unlikely event size is 0 but we hadn't
-         * initialized the root yet return the zero page */
-        if(UNLIKELY(size == 0)) {
-            UNLOCK_ROOT();
-            return _root->zero_alloc_page;
-        }
-#endif
 #else
         LOG_AND_ABORT("Root never initialized!");
 #endif
     }
 
+#if NO_ZERO_ALLOCATIONS
+    /* In the unlikely event size is 0 but we hadn't
+     * initialized the root yet return the zero page */
+    if(UNLIKELY(zero_size)) {
+        UNLOCK_ROOT();
+        return _root->zero_alloc_page;
+    }
+#endif
+
 #if ALLOC_SANITY
     /* We don't sample if we are allocating from a private zone */
     if(zone == NULL) {
-- 
2.43.0


From 780d6d6c33f054eb7a144a3213384806546be636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 23/41] fix: preallocated bitmap pages have guard pages

---
 src/iso_alloc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 588855a..baf04bc 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -128,7 +128,7 @@ INTERNAL_HIDDEN void iso_alloc_initialize_global_root(void) {
     const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1 - 1;
 
     for(int i = 0; i < sbsi; i++) {
-        _root->bitmaps[i].bitmap = mmap_rw_pages(g_page_size, false, name);
+        _root->bitmaps[i].bitmap = mmap_guarded_rw_pages(g_page_size, false, name);
         _root->bitmaps[i].bucket = small_bitmap_sizes[i];
     }
 
@@ -2199,7 +2199,9 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1;
 
     for(int i = 0; i < sbsi; i++) {
-        munmap(_root->bitmaps[i].bitmap, g_page_size);
+        if(_root->bitmaps[i].bitmap != NULL) {
+            unmap_guarded_pages(_root->bitmaps[i].bitmap, g_page_size);
+        }
     }
 
     unmap_guarded_pages(_root, sizeof(iso_alloc_root));
-- 
2.43.0


From 2a7e07094d73899efcf9030fa4e2981fc4e10b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 24/41] fix: a zone can be replaced when all zones are in use

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index baf04bc..391c2f3 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -329,7 +329,7 @@ INTERNAL_HIDDEN void create_canary_chunks(iso_alloc_zone_t *zone) {
 
 /* Requires the root is locked */
 INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int32_t index) {
-    if(UNLIKELY(_root->zones_used >= MAX_ZONES) || UNLIKELY(index >= MAX_ZONES)) {
+    if(UNLIKELY(index < 0 && _root->zones_used >= MAX_ZONES) || UNLIKELY(index >= MAX_ZONES)) {
         LOG_AND_ABORT("Cannot allocate additional zones. I have already allocated %d zones", _root->zones_used);
     }
 
-- 
2.43.0


From 66059bf5b7b1f1ff4718e392dfad2aee9450e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 25/41] fix: a private zone can hold a string much smaller than
 its chunks

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 391c2f3..e8957f2 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -820,7 +820,7 @@ INTERNAL_HIDDEN iso_alloc_zone_t *is_zone_usable(iso_alloc_zone_t *zone, size_t
      * sizes larger than 1024 bytes. In other words we can
      * live with some wasted space in zones that manage
      * chunks smaller than ZONE_1024 */
-    if(size > ZONE_1024 && zone->chunk_size >= (size << WASTED_SZ_MULTIPLIER_SHIFT)) {
+    if(zone->internal == true && size > ZONE_1024 && zone->chunk_size >= (size << WASTED_SZ_MULTIPLIER_SHIFT)) {
         return NULL;
     }
 
-- 
2.43.0


From 5e085a50fd0409b9e879dc16ae7fe44cc159ac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 26/41] fix: the slow scan finds free chunks in the last qword
 of a bitmap

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index e8957f2..9076246 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -781,7 +781,7 @@ INTERNAL_HIDDEN bit_slot_t iso_scan_zone_free_slot_slow(iso_alloc_zone_t *zone)
     for(bitmap_index_t i = max; i < zone->max_bitmap_idx; i++) {
         bit_slot_t bts = bm[i];
 
-        if(bts != USED_BIT_VECTOR) {
+        if(bts == USED_BIT_VECTOR) {
             continue;
         }
 
-- 
2.43.0


From 6fa6c8f6a6ed540db943d87c10880a8003044026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 27/41] fix: destroying the root with ISO_DTOR_CLEANUP releases
 everything once

---
 src/iso_alloc.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 9076246..0b82d08 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -2122,6 +2122,10 @@ INTERNAL_HIDDEN void _free_big_zone_list(iso_alloc_big_zone_t *head) {
 }
 
 INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
+    if(_root == NULL) {
+        return;
+    }
+
     LOCK_ROOT();
 
     flush_chunk_quarantine();
@@ -2169,7 +2173,7 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
 
 #if ISO_DTOR_CLEANUP
     /* Unmap all zone structures */
-    munmap((void *) ((uintptr_t) _root->zones - g_page_size), _root->zones_size);
+    unmap_guarded_pages(_root->zones, _root->zones_size);
 #endif
 
     LOCK_BIG_ZONE_USED();
@@ -2187,12 +2191,15 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
 #if ISO_DTOR_CLEANUP
     unmap_guarded_pages(_root->chunk_lookup_table, CHUNK_TO_ZONE_TABLE_SZ);
     unmap_guarded_pages(_root->chunk_quarantine, CHUNK_QUARANTINE_SZ * sizeof(uintptr_t));
+    clear_zone_cache();
+
+#if !THREAD_SUPPORT
     unmap_guarded_pages(zone_cache, ZONE_CACHE_SZ * sizeof(_tzc));
+    zone_cache = NULL;
+#endif
 
 #if THREAD_SUPPORT && !USE_SPINLOCK
-    UNLOCK_BIG_ZONE_FREE();
     pthread_mutex_destroy(&_root->big_zone_free_mutex);
-    UNLOCK_BIG_ZONE_USED();
     pthread_mutex_destroy(&_root->big_zone_used_mutex);
 #endif
 
@@ -2205,11 +2212,14 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     }
 
     unmap_guarded_pages(_root, sizeof(iso_alloc_root));
+    _root = NULL;
 #endif
     UNLOCK_ROOT();
 
 #if ISO_DTOR_CLEANUP && THREAD_SUPPORT && !USE_SPINLOCK
+#if ALLOC_SANITY
     pthread_mutex_destroy(&sane_cache_mutex);
+#endif
     pthread_mutex_destroy(&root_busy_mutex);
 #endif
 }
-- 
2.43.0


From 222d76de12f1c52c62958fd1d010d9831698c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:37 +0000
Subject: [PATCH 28/41] fix: calloc allocates the requested size, not a
 multiple of every rounded element

---
 src/iso_alloc.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 0b82d08..771a5a6 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1038,20 +1038,12 @@ INTERNAL_HIDDEN INLINE void populate_zone_cache(iso_alloc_zone_t *zone) {
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
     unsigned int res;
 
-    if(UNLIKELY(size > BIG_SZ_MAX)) {
-        LOG("Call to calloc() with size=%lu is too large", size);
-        return NULL;
-    }
-
-    if(size < SMALLEST_CHUNK_SZ) {
-        size = SMALLEST_CHUNK_SZ;
-    } else if((size % SZ_ALIGNMENT) != 0) {
-        size = ALIGN_SZ_UP(size);
-    }
-
+    /* _iso_alloc() rounds up the total size. Rounding up the
+     * size of each element makes this chunk too big to be
+     * passed to iso_free_size() with its original size */
     size_t sz = nmemb * size;
 
-    if(sz < size || UNLIKELY(__builtin_mul_overflow(nmemb, size, &res))) {
+    if(UNLIKELY(__builtin_mul_overflow(nmemb, size, &res))) {
         LOG("Call to calloc() will overflow nmemb=%d size=%d = %u", nmemb, size, nmemb * size);
         return NULL;
     }
-- 
2.43.0


From 08bcdb0e9a6ca463f02b1687b4dad69e92e1276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:53 +0000
Subject: [PATCH 29/41] fix: posix_memalign rejects an alignment smaller than a
 pointer

---
 src/malloc_hook.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/malloc_hook.c b/src/malloc_hook.c
index b383d42..abdd363 100644
--- a/src/malloc_hook.c
+++ b/src/malloc_hook.c
@@ -54,7 +54,7 @@ EXTERNAL_API void *reallocarray(void *p, size_t n, size_t s) {
 }
 
 EXTERNAL_API int __posix_memalign(void **r, size_t a, size_t s) {
-    if(is_pow2(a) == false) {
+    if(a < sizeof(void *) || is_pow2(a) == false) {
         *r = NULL;
         return EINVAL;
     }
-- 
2.43.0


From 2817e3b6e3731a2a35795e7fba7ff7bd0da97224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:31 +0000
Subject: [PATCH 30/41] fix: guarded mappings never use huge pages

A guarded mapping whose total size was exactly 2 or 4 MB was created with
MAP_HUGETLB. A guard page cannot be placed in a huge page, so mprotect failed
and the process was aborted (BIG_ZONE_GUARD, a 2 MB - 8 KB request).
---
 include/iso_alloc_util.h |  2 +-
 src/iso_alloc.c          |  4 ++--
 src/iso_alloc_util.c     | 17 +++++++++--------
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/iso_alloc_util.h b/include/iso_alloc_util.h
index 5d39cbf..540aa96 100644
--- a/include/iso_alloc_util.h
+++ b/include/iso_alloc_util.h
@@ -28,7 +28,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *mmap_guarded_rw_pages(size_t size, bool pop
 INTERNAL_HIDDEN ASSUME_ALIGNED void *mmap_guarded_rw_mte_pages(size_t size, bool populate, const char *name);
 INTERNAL_HIDDEN ASSUME_ALIGNED void *mmap_rw_pages(size_t size, bool populate, const char *name);
 INTERNAL_HIDDEN ASSUME_ALIGNED void *mmap_rw_mte_pages(size_t size, bool populate, const char *name);
-INTERNAL_HIDDEN ASSUME_ALIGNED void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot);
+INTERNAL_HIDDEN ASSUME_ALIGNED void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot, bool huge);
 INTERNAL_HIDDEN void mprotect_pages(void *p, size_t size, int32_t protection);
 INTERNAL_HIDDEN int32_t name_mapping(void *p, size_t sz, const char *name);
 INTERNAL_HIDDEN size_t next_pow2(size_t sz);
diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 771a5a6..02ee562 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -151,11 +151,11 @@ INTERNAL_HIDDEN void iso_alloc_initialize_global_root(void) {
 #endif
 
 #if NO_ZERO_ALLOCATIONS
-    _root->zero_alloc_page = mmap_pages(g_page_size, false, NULL, PROT_NONE);
+    _root->zero_alloc_page = mmap_pages(g_page_size, false, NULL, PROT_NONE, false);
 #endif
 
 #if UAF_PTR_PAGE
-    _root->uaf_ptr_page = mmap_pages(g_page_size, false, NULL, PROT_NONE);
+    _root->uaf_ptr_page = mmap_pages(g_page_size, false, NULL, PROT_NONE, false);
 #endif
 
 #if ALLOC_SANITY && UNINIT_READ_SANITY
diff --git a/src/iso_alloc_util.c b/src/iso_alloc_util.c
index 66492fa..e7a5990 100644
--- a/src/iso_alloc_util.c
+++ b/src/iso_alloc_util.c
@@ -76,7 +76,8 @@ void *mmap_guarded_rw_pages(size_t size, bool populate, const char *name) {
         return NULL;
     }
 
-    void *p = mmap_rw_pages(sz + (g_page_size * 2), populate, name);
+    /* Guard pages cannot be carved out of a huge page */
+    void *p = mmap_pages(sz + (g_page_size * 2), populate, name, PROT_READ | PROT_WRITE, false);
 
     create_guard_page(p);
     create_guard_page(p + (g_page_size + sz));
@@ -91,7 +92,7 @@ void *mmap_guarded_rw_mte_pages(size_t size, bool populate, const char *name) {
         return NULL;
     }
 
-    void *p = mmap_rw_mte_pages(sz + (g_page_size * 2), populate, name);
+    void *p = mmap_pages(sz + (g_page_size * 2), populate, name, PROT_READ | PROT_WRITE | PROT_MTE, false);
 
     create_guard_page(p);
     create_guard_page(p + (g_page_size + sz));
@@ -100,16 +101,16 @@ void *mmap_guarded_rw_mte_pages(size_t size, bool populate, const char *name) {
 #endif
 
 void *mmap_rw_pages(size_t size, bool populate, const char *name) {
-    return mmap_pages(size, populate, name, PROT_READ | PROT_WRITE);
+    return mmap_pages(size, populate, name, PROT_READ | PROT_WRITE, true);
 }
 
 #if ARM_MTE
 void *mmap_rw_mte_pages(size_t size, bool populate, const char *name) {
-    return mmap_pages(size, populate, name, PROT_READ | PROT_WRITE | PROT_MTE);
+    return mmap_pages(size, populate, name, PROT_READ | PROT_WRITE | PROT_MTE, true);
 }
 #endif
 
-void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot) {
+void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot, bool huge) {
 #if !ENABLE_ASAN
     /* Produce a random page address as a hint for mmap */
     uint64_t hint = ROUND_DOWN_PAGE(rand_uint64());
@@ -137,7 +138,7 @@ void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot) {
 #if MAP_HUGETLB && HUGE_PAGES
     /* If we are allocating pages for a user zone
      * then take advantage of the huge TLB */
-    if(sz == ZONE_USER_SIZE || sz == (ZONE_USER_SIZE >> 1)) {
+    if(huge == true && (sz == ZONE_USER_SIZE || sz == (ZONE_USER_SIZE >> 1))) {
         flags |= MAP_HUGETLB;
     }
 #endif
@@ -145,7 +146,7 @@ void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot) {
 #if VM_FLAGS_SUPERPAGE_SIZE_2MB && HUGE_PAGES
     /* If we are allocating pages for a user zone
      * we are going to use the 2 MB superpage flag */
-    if(sz == ZONE_USER_SIZE || sz == (ZONE_USER_SIZE >> 1)) {
+    if(huge == true && (sz == ZONE_USER_SIZE || sz == (ZONE_USER_SIZE >> 1))) {
         fd = VM_FLAGS_SUPERPAGE_SIZE_2MB;
     }
 #endif
@@ -166,7 +167,7 @@ void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot) {
     }
 
 #if __linux__ && MAP_HUGETLB && HUGE_PAGES && THP_PAGES && MADV_HUGEPAGE
-    if(sz == ZONE_USER_SIZE || sz == (ZONE_USER_SIZE >> 1)) {
+    if(huge == true && (sz == ZONE_USER_SIZE || sz == (ZONE_USER_SIZE >> 1))) {
         madvise(p, sz, MADV_HUGEPAGE);
     }
 #endif
-- 
2.43.0


From 0aa2a60e72c6a6ffe6f37fe7acc074bc615fae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 31/41] fix: memory tags are read with the root locked

Another thread using the same zone unmasks its pointers for the duration of its
call. A tag function that ran meanwhile saw the pointers masked and aborted.
---
 src/iso_alloc_mem_tags.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 8d1cf66..e50608b 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -9,6 +9,8 @@
  * when passed to this function */
 INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone) {
 #if MEMORY_TAGGING
+    /* The zone pointers are only stable while the root is locked */
+    LOCK_ROOT();
     void *user_pages_start = UNMASK_USER_PTR(zone);
 
     if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) <= p) {
@@ -24,8 +26,10 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
     }
 
     _mtp += (chunk_offset / zone->chunk_size);
+    const uint8_t tag = *_mtp;
+    UNLOCK_ROOT();
 
-    return *_mtp;
+    return tag;
 #else
     return 0;
 #endif
-- 
2.43.0


From 0a295c4b667b4c591abd0bfa247a9fda45620e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 32/41] fix: retrieving profiler traces copies every reported
 trace

---
 src/iso_alloc_profiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 9e4078d..ed324bd 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -244,16 +244,16 @@ INTERNAL_HIDDEN uint64_t __iso_alloc_big_zone_mem_usage(iso_alloc_big_zone_t *he
  * be used to interpret allocation patterns */
 INTERNAL_HIDDEN size_t _iso_get_alloc_traces(iso_alloc_traces_t *traces_out) {
     LOCK_ROOT();
-    __iso_memcpy(traces_out, _alloc_bts, sizeof(iso_alloc_traces_t));
     size_t sz = _alloc_bts_count;
+    __iso_memcpy(traces_out, _alloc_bts, sz * sizeof(iso_alloc_traces_t));
     UNLOCK_ROOT();
     return sz;
 }
 
 INTERNAL_HIDDEN size_t _iso_get_free_traces(iso_free_traces_t *traces_out) {
     LOCK_ROOT();
-    __iso_memcpy(traces_out, _free_bts, sizeof(iso_free_traces_t));
     size_t sz = _free_bts_count;
+    __iso_memcpy(traces_out, _free_bts, sz * sizeof(iso_free_traces_t));
     UNLOCK_ROOT();
     return sz;
 }
-- 
2.43.0


From 82aae9852521f20e9ab39afb8cc4a01699ccaa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 33/41] fix: the first call of a backtrace counts in the
 profile

---
 src/iso_alloc_profiler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index ed324bd..af08382 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -442,6 +442,9 @@ INTERNAL_HIDDEN void _iso_alloc_profile(size_t size) {
         if(abts == NULL) {
             abts = &_alloc_bts[_alloc_bts_count];
             abts->backtrace_hash = hash;
+            abts->lower_bound_size = size;
+            abts->upper_bound_size = size;
+            abts->call_count = 1;
 
             _save_alloc_backtrace(abts);
             _alloc_bts_count++;
@@ -476,6 +479,7 @@ INTERNAL_HIDDEN void _iso_free_profile(void) {
         if(fbts == NULL) {
             fbts = &_free_bts[_free_bts_count];
             fbts->backtrace_hash = hash;
+            fbts->call_count = 1;
 
             _save_free_backtrace(fbts);
             _free_bts_count++;
-- 
2.43.0


From 31ec6375bd54d35611324dc3fc1525fcaee8f2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 34/41] fix: the root is locked while a free is profiled

---
 src/iso_alloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 02ee562..81c2118 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1573,7 +1573,9 @@ INTERNAL_HIDDEN void _iso_free(void *p, bool permanent) {
 #endif
 
 #if HEAP_PROFILER
+    LOCK_ROOT();
     _iso_free_profile();
+    UNLOCK_ROOT();
 #endif
 
 #if ARM_MTE
-- 
2.43.0


From e98875f601493bd49eea84dbc8b026fcd83f8d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 35/41] fix: the profiler map has an entry for SMALL_SIZE_MAX
 chunks

---
 include/iso_alloc_profiler.h | 2 +-
 src/iso_alloc_profiler.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/iso_alloc_profiler.h b/include/iso_alloc_profiler.h
index d99643e..5395806 100644
--- a/include/iso_alloc_profiler.h
+++ b/include/iso_alloc_profiler.h
@@ -34,7 +34,7 @@ typedef struct {
     uint64_t count;
 } zone_profiler_map_t;
 
-zone_profiler_map_t _zone_profiler_map[SMALL_SIZE_MAX];
+zone_profiler_map_t _zone_profiler_map[SMALL_SIZE_MAX + 1];
 
 /* iso_alloc_traces_t is a public structure, and
  * is defined in the public header iso_alloc.h */
diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index af08382..239de15 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -374,7 +374,7 @@ INTERNAL_HIDDEN void _iso_output_profile() {
         }
     }
 
-    for(int i = 0; i < SMALL_SIZE_MAX; i++) {
+    for(int i = 0; i <= SMALL_SIZE_MAX; i++) {
         if(_zone_profiler_map[i].count != 0) {
             _iso_alloc_printf(profiler_fd, "%d,%d,%d\n", i, _zone_profiler_map[i].total, _zone_profiler_map[i].count);
         }
-- 
2.43.0


From 212ab4408a4f9af716c70bb0df35d9ad3208f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 36/41] fix: the profiler computes zone usage as a percentage

---
 src/iso_alloc_profiler.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 239de15..7eac6bb 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -176,7 +176,7 @@ INTERNAL_HIDDEN uint64_t _iso_alloc_zone_leak_detector(iso_alloc_zone_t *zone, b
      * in use and previously used by this zone */
     if(profile == true) {
         uint64_t total = (in_use + was_used);
-        return (uint64_t) ((float) (total / zone->chunk_count) * 100.0);
+        return (total * 100) / zone->chunk_count;
     }
 #endif
     return in_use;
@@ -404,13 +404,11 @@ INTERNAL_HIDDEN void _iso_alloc_profile(size_t size) {
          * the differences between canary and leaked chunks.
          * So lets just use the full count */
         if(zone->is_full) {
-            used = zone->chunk_count;
+            used = 100;
         } else {
             used = _iso_alloc_zone_leak_detector(zone, true);
         }
 
-        used = (int32_t) ((float) (used / zone->chunk_count) * 100.0);
-
         if(used > CHUNK_USAGE_THRESHOLD) {
             _zone_profiler_map[zone->chunk_size].count++;
         }
-- 
2.43.0


From 93250ee9cfeacffdce787b98d7be92921ec732e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:49 +0000
Subject: [PATCH 37/41] fix: throwing operator new throws when the allocation
 fails

---
 src/iso_alloc.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/iso_alloc.cpp b/src/iso_alloc.cpp
index 90fce59..5889b8f 100644
--- a/src/iso_alloc.cpp
+++ b/src/iso_alloc.cpp
@@ -23,11 +23,32 @@ extern "C" __attribute__((constructor(FIRST_CTOR + 1))) void iso_cpp(void) {
 #define NEW_EXCEPT
 #endif
 
+// The throwing operators never return NULL, they call
+// the new handler for as long as the allocation fails
+static inline void *iso_cpp_new(size_t size) NEW_EXCEPT {
+    void *p = iso_alloc(size);
+
+#if !ABORT_ON_NULL
+    while(p == NULL) {
+        std::new_handler handler = std::get_new_handler();
+
+        if(handler == nullptr) {
+            throw std::bad_alloc();
+        }
+
+        handler();
+        p = iso_alloc(size);
+    }
+#endif
+
+    return p;
+}
+
 // These hooks override the basic new/delete
 // operators to use the iso_alloc API
 
 EXTERNAL_API FLATTEN void *operator new(size_t size) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_cpp_new(size);
 }
 
 EXTERNAL_API FLATTEN void operator delete(void *p) noexcept {
@@ -35,7 +56,7 @@ EXTERNAL_API FLATTEN void operator delete(void *p) noexcept {
 }
 
 EXTERNAL_API FLATTEN void *operator new[](size_t size) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_cpp_new(size);
 }
 
 EXTERNAL_API FLATTEN void operator delete[](void *p) noexcept {
@@ -67,11 +88,11 @@ EXTERNAL_API FLATTEN void operator delete[](void *ptr, const std::nothrow_t &) n
 }
 
 EXTERNAL_API FLATTEN void *operator new(size_t size, std::align_val_t val) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_cpp_new(size);
 }
 
 EXTERNAL_API FLATTEN void *operator new[](size_t size, std::align_val_t val) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_cpp_new(size);
 }
 
 EXTERNAL_API FLATTEN void operator delete(void *p, std::align_val_t val) noexcept {
-- 
2.43.0


From df375d238636338b3e39e678b2242fe8f2af4509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 38/41] fix: freeing a sampled allocation with
 UNINIT_READ_SANITY does not check a canary that was never written

---
 src/iso_alloc_sanity.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 2d118dd..b6fc5f8 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -335,7 +335,9 @@ INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p) {
     _sane_allocation_t *sane_alloc = _get_sane_alloc(p);
 
     if(sane_alloc != NULL) {
+#if !UNINIT_READ_SANITY
         check_sanity_canary(sane_alloc);
+#endif
         unmap_guarded_pages(sane_alloc->address, g_page_size);
         memset(sane_alloc, 0x0, sizeof(_sane_allocation_t));
         _sane_cache[SANE_CACHE_IDX(p)]--;
-- 
2.43.0


From 99211938b9efb27ec4929bdc450673a681eaae2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 39/41] fix: the page fault thread is created without the root
 lock

---
 src/iso_alloc.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 81c2118..2a792f6 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -158,10 +158,6 @@ INTERNAL_HIDDEN void iso_alloc_initialize_global_root(void) {
     _root->uaf_ptr_page = mmap_pages(g_page_size, false, NULL, PROT_NONE, false);
 #endif
 
-#if ALLOC_SANITY && UNINIT_READ_SANITY
-    _iso_alloc_setup_userfaultfd();
-#endif
-
 #if ALLOC_SANITY
     _sanity_canary = us_rand_uint64(&_root->seed);
 #endif
@@ -179,17 +175,23 @@ INTERNAL_HIDDEN void iso_alloc_initialize_global_root(void) {
 }
 
 INTERNAL_HIDDEN void _iso_alloc_initialize(void) {
-    if(_root != NULL) {
-        return;
-    }
-
-    g_page_size = sysconf(_SC_PAGESIZE);
-    g_page_size_shift = _log2(g_page_size);
+    if(_root == NULL) {
+        g_page_size = sysconf(_SC_PAGESIZE);
+        g_page_size_shift = _log2(g_page_size);
 
-    iso_alloc_initialize_global_root();
+        iso_alloc_initialize_global_root();
 
 #if THREAD_SUPPORT && !USE_SPINLOCK
-    pthread_mutex_init(&root_busy_mutex, NULL);
+        pthread_mutex_init(&root_busy_mutex, NULL);
+#endif
+    }
+
+#if ALLOC_SANITY && UNINIT_READ_SANITY
+    /* Creating a thread allocates memory, so this cannot be
+     * done by the first allocation which holds the root lock */
+    if(_page_fault_thread == 0) {
+        _iso_alloc_setup_userfaultfd();
+    }
 #endif
 }
 
-- 
2.43.0


From 0bb3e1a05922a49f01f42516ab26b86d69569ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 40/41] fix: do not name a caller after a failed dladdr in the
 heap profile

---
 src/iso_alloc_profiler.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 7eac6bb..4fcaff8 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -343,9 +343,8 @@ INTERNAL_HIDDEN void _iso_output_profile() {
             }
 
             Dl_info dl;
-            dladdr((void *) abts->callers[j], &dl);
 
-            if(dl.dli_sname != NULL) {
+            if(dladdr((void *) abts->callers[j], &dl) != 0 && dl.dli_sname != NULL) {
                 _iso_alloc_printf(profiler_fd, "\t0x%x -> %s %s\n", abts->callers[j], dl.dli_sname, dl.dli_fname);
             } else {
                 _iso_alloc_printf(profiler_fd, "\t0x%x -> [?]\n", abts->callers[j]);
@@ -364,9 +363,8 @@ INTERNAL_HIDDEN void _iso_output_profile() {
             }
 
             Dl_info dl;
-            dladdr((void *) fbts->callers[j], &dl);
 
-            if(dl.dli_sname != NULL) {
+            if(dladdr((void *) fbts->callers[j], &dl) != 0 && dl.dli_sname != NULL) {
                 _iso_alloc_printf(profiler_fd, "\t0x%x -> %s %s\n", fbts->callers[j], dl.dli_sname, dl.dli_fname);
             } else {
                 _iso_alloc_printf(profiler_fd, "\t0x%x -> [?]\n", fbts->callers[j]);
-- 
2.43.0


From e18ecdcb25ca70bd2831dbc6d8c3b4f97ed3bab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:21 +0000
Subject: [PATCH 41/41] fix: draw a sampled block's alignment while the root is
 locked

The sampling path released the root lock and then used the root's
random state. With the heap protected in between that read faults, so
the allocation died instead of waiting, and two threads could update
the random state at once.
---
 src/iso_alloc_sanity.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index b6fc5f8..4c137fd 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -378,6 +378,10 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
         return NULL;
     }
 
+    /* We may right align the mapping to catch overflows. The
+     * root can change, or be protected, once it is unlocked */
+    const bool right_aligned = (us_rand_uint64(&_root->seed) % 2) == 1;
+
     UNLOCK_ROOT();
     sane_alloc->orig_size = size;
     void *p = mmap_guarded_rw_pages(g_page_size, false, SAMPLED_ALLOC_NAME);
@@ -386,8 +390,7 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
         LOG_AND_ABORT("Cannot allocate pages for sampled allocation");
     }
 
-    /* We may right align the mapping to catch overflows */
-    if((us_rand_uint64(&_root->seed) % 2) == 1) {
+    if(right_aligned == true) {
         p = (p + g_page_size) - sane_alloc->orig_size;
         sane_alloc->right_aligned = true;
         sane_alloc->address = (void *) ROUND_DOWN_PAGE((uintptr_t) p);
-- 
2.43.0

