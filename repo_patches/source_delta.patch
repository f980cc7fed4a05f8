From dcba3941542c6bb8b2c06bf3131175542fcedb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 01/22] fix: do not release the big zone locks a second time on
 teardown

---
 src/iso_alloc.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 498f2bd..13b4a38 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -2158,9 +2158,7 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     unmap_guarded_pages(zone_cache, ZONE_CACHE_SZ * sizeof(_tzc));
 
 #if THREAD_SUPPORT && !USE_SPINLOCK
-    UNLOCK_BIG_ZONE_FREE();
     pthread_mutex_destroy(&_root->big_zone_free_mutex);
-    UNLOCK_BIG_ZONE_USED();
     pthread_mutex_destroy(&_root->big_zone_used_mutex);
 #endif
 
-- 
2.43.0


From b9be7d0dab99ebdc73faf7a70d35f252910cf886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 02/22] fix: hold the root lock while advancing the root seed
 in _iso_big_alloc

---
 src/iso_alloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 13b4a38..b3d5277 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1973,7 +1973,9 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_big_alloc(size_t size) {
 
     /* The second page is for meta data and it is placed
      * at a random offset from the start of the page */
+    LOCK_ROOT();
     uint32_t random_offset = ALIGN_SZ_DOWN(us_rand_uint64(&_root->seed));
+    UNLOCK_ROOT();
     size_t s = g_page_size - (sizeof(iso_alloc_big_zone_t) - 1);
     new_big = (iso_alloc_big_zone_t *) ((void *) new_big + ((random_offset * s) >> 32));
     new_big->free = false;
-- 
2.43.0


From 9bdcdcb9566ef16950b9d6d1c010b81218fb110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 03/22] fix: lock the big zone lists while verifying them

---
 src/iso_alloc_sanity.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 752d506..4119f6b 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -82,9 +82,15 @@ INTERNAL_HIDDEN void _verify_all_zones(void) {
         _verify_zone(zone);
     }
 
-    /* Root is locked already */
+    /* Root is locked already but the big zone lists
+     * are each protected by their own lock */
+    LOCK_BIG_ZONE_USED();
     _verify_big_zone_list(_root->big_zone_used);
+    UNLOCK_BIG_ZONE_USED();
+
+    LOCK_BIG_ZONE_FREE();
     _verify_big_zone_list(_root->big_zone_free);
+    UNLOCK_BIG_ZONE_FREE();
 }
 
 INTERNAL_HIDDEN void _verify_zone(iso_alloc_zone_t *zone) {
-- 
2.43.0


From 5478b02f8b85cf5ec2742aba486d591467f0bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 04/22] fix: hold the root lock while updating the free profile

---
 src/iso_alloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index b3d5277..f2c7b3c 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1553,7 +1553,9 @@ INTERNAL_HIDDEN void _iso_free(void *p, bool permanent) {
 #endif
 
 #if HEAP_PROFILER
+    LOCK_ROOT();
     _iso_free_profile();
+    UNLOCK_ROOT();
 #endif
 
 #if ARM_MTE
-- 
2.43.0


From e0b8dd723b0bafb561633933678b588976762ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 05/22] fix: hold the root lock while searching the stack for
 zone pointers

---
 src/iso_alloc_search.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iso_alloc_search.c b/src/iso_alloc_search.c
index aa42a59..7c79105 100644
--- a/src/iso_alloc_search.c
+++ b/src/iso_alloc_search.c
@@ -66,6 +66,8 @@ INTERNAL_HIDDEN void _iso_alloc_search_stack(uint8_t *stack_start) {
     uint8_t *current = stack_start;
     uint64_t max_ptr = 0x800000000000;
 
+    LOCK_ROOT();
+
     while(current > stack_end) {
         /* Iterating through zones is expensive so this quickly
          * decides on values that are unlikely to be pointers
@@ -127,5 +129,7 @@ INTERNAL_HIDDEN void _iso_alloc_search_stack(uint8_t *stack_start) {
             LOG_AND_ABORT("Pointer to bitmap for zone[%d] found in stack @ %p", zone->index, p);
         }
     }
+
+    UNLOCK_ROOT();
 }
 #endif
-- 
2.43.0


From c9a88fa11d00edef3e5e0a459f2633652438e88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 06/22] fix: don't use the root seed or abort after racing for
 a sample slot in _iso_alloc_sample

---
 src/iso_alloc_sanity.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 4119f6b..27bb265 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -359,8 +359,9 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
 
     _sane_allocation_t *sane_alloc = NULL;
 
+    const bool right_align = ((us_rand_uint64(&_root->seed) % 2) == 1);
+
     LOCK_SANITY_CACHE();
-    UNLOCK_ROOT();
 
     /* Find the first free slot in our sampled storage */
     for(uint32_t i = 0; i < MAX_SANE_SAMPLES; i++) {
@@ -370,11 +371,15 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
         }
     }
 
-    /* There are no available slots in the cache */
+    /* Another thread may have taken the last available slot
+     * since our caller checked. Don't sample this allocation */
     if(sane_alloc == NULL) {
-        LOG_AND_ABORT("There are no free slots in the cache, there should be %d", _sane_sampled);
+        UNLOCK_SANITY_CACHE();
+        return NULL;
     }
 
+    UNLOCK_ROOT();
+
     sane_alloc->orig_size = size;
     void *p = mmap_guarded_rw_pages(g_page_size, false, SAMPLED_ALLOC_NAME);
 
@@ -383,7 +388,7 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
     }
 
     /* We may right align the mapping to catch overflows */
-    if((us_rand_uint64(&_root->seed) % 2) == 1) {
+    if(right_align == true) {
         p = (p + g_page_size) - sane_alloc->orig_size;
         sane_alloc->right_aligned = true;
         sane_alloc->address = (void *) ROUND_DOWN_PAGE((uintptr_t) p);
-- 
2.43.0


From aca5d3b72d9035fbbd49ef56ad98bec7e25130c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 07/22] fix: reject chunks whose bitmap index is one past the
 end of the zone bitmap

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index f2c7b3c..d6b5617 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1423,7 +1423,7 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
                       chunk_offset, p, zone->index, zone->chunk_size, (chunk_offset & (zone->chunk_size - 1)));
     }
 
-    if(UNLIKELY(dwords_to_bit_slot > zone->max_bitmap_idx)) {
+    if(UNLIKELY(dwords_to_bit_slot >= zone->max_bitmap_idx)) {
         LOG_AND_ABORT("Cannot calculate this chunks location in the bitmap 0x%p", p);
     }
 
-- 
2.43.0


From 022065025d909684ddbbcc01143ab2cf154bba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:20 +0000
Subject: [PATCH 08/22] fix: detect the free of a permanently freed or canary
 chunk

---
 src/iso_alloc.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index d6b5617..2c193d5 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1442,6 +1442,14 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
                       p, zone->index, dwords_to_bit_slot, bit_slot);
     }
 
+    /* Both bits are set for canary chunks and chunks that were
+     * permanently free'd. These must never be free'd (again) or
+     * they will be returned by a future allocation */
+    if(UNLIKELY((GET_BIT(b, (which_bit + 1))) == 1)) {
+        LOG_AND_ABORT("Double free of permanently free'd or canary chunk 0x%p detected from zone[%d] dwords_to_bit_slot=%lu bit_slot=%lu",
+                      p, zone->index, dwords_to_bit_slot, bit_slot);
+    }
+
     /* Set the next bit so we know this chunk was used */
     SET_BIT(b, (which_bit + 1));
 
-- 
2.43.0


From 43ffbdca8cac552afa8c84061c95dafc92145ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 09/22] fix: leave the used list alone when iso_find_big_zone
 only looks a zone up

---
 src/iso_alloc.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 2c193d5..ecfa465 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1765,19 +1765,19 @@ INTERNAL_HIDDEN iso_alloc_big_zone_t *iso_find_big_zone(void *p, bool remove) {
         check_big_canary(big_zone);
         /* Only an exact match of the address is valid */
         if(p == big_zone->user_pages_start) {
-            if(remove == true && prev != NULL) {
-                prev->next = big_zone->next;
-            }
-
-            _root->big_zone_used_count--;
+            if(remove == true) {
+                /* If this is our first iteration then we are returning the
+                 * used list head. Set its new value to the next entry */
+                if(prev == NULL) {
+                    _root->big_zone_used = big_zone->next;
+                } else {
+                    prev->next = big_zone->next;
+                }
 
-            /* If this is our first iteration then we are returning the
-             * used list head. Set its new value to the next entry */
-            if(prev == NULL) {
-                _root->big_zone_used = big_zone->next;
+                _root->big_zone_used_count--;
+                big_zone->next = NULL;
             }
 
-            big_zone->next = NULL;
             UNLOCK_BIG_ZONE_USED();
             return big_zone;
         }
-- 
2.43.0


From 71f69b55643295b2d0a09bf79712f03da4df0a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 10/22] fix: refuse sizes that wrap around when rounded up

---
 src/iso_alloc.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index ecfa465..223f09b 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1029,6 +1029,12 @@ INTERNAL_HIDDEN INLINE void populate_zone_cache(iso_alloc_zone_t *zone) {
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
     unsigned int res;
 
+    /* Rounding up a size this large would wrap around */
+    if(UNLIKELY(size > BIG_SZ_MAX)) {
+        LOG("Call to calloc() with size=%ld is too large", size);
+        return NULL;
+    }
+
     if(size < SMALLEST_CHUNK_SZ) {
         size = SMALLEST_CHUNK_SZ;
     } else if((size % SZ_ALIGNMENT) != 0) {
@@ -1063,6 +1069,16 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
     }
 #endif
 
+    /* Rounding up a size this large would wrap around
+     * and result in a chunk that is far too small */
+    if(UNLIKELY(size > BIG_SZ_MAX)) {
+#if ABORT_ON_NULL
+        LOG_AND_ABORT("Cannot allocate %ld bytes", size);
+#endif
+        LOG("Cannot allocate %ld bytes", size);
+        return NULL;
+    }
+
     if(size < SMALLEST_CHUNK_SZ) {
         size = SMALLEST_CHUNK_SZ;
     } else if((size % SZ_ALIGNMENT) != 0) {
-- 
2.43.0


From b9f6e06c222ebcc5537dded109d5171cc2c14ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 11/22] fix: copy the terminating NUL byte in iso_strdup

---
 src/iso_alloc_interfaces.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 7db679e..7fda621 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -113,7 +113,8 @@ EXTERNAL_API FLATTEN NO_DISCARD ASSUME_ALIGNED char *iso_strdup_from_zone(iso_al
         return NULL;
     }
 
-    size_t size = strlen(str);
+    /* The terminating NUL byte is part of the copy */
+    size_t size = strlen(str) + 1;
 
     if(zone != NULL) {
         UNMASK_ZONE_HANDLE(zone);
-- 
2.43.0


From ea5cd9a297d31de33109eebdf8e76d95f3a9167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 12/22] fix: make iso_strndup copy up to n bytes and always
 terminate the copy

---
 src/iso_alloc_interfaces.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 7fda621..98cbe31 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -139,24 +139,21 @@ EXTERNAL_API FLATTEN NO_DISCARD ASSUME_ALIGNED char *iso_strndup_from_zone(iso_a
         return NULL;
     }
 
-    size_t s_size = strlen(str);
+    const char *end = (const char *) memchr(str, '\0', n);
+    size_t s_size = (end != NULL) ? (size_t) (end - str) : n;
 
     if(zone != NULL) {
         UNMASK_ZONE_HANDLE(zone);
     }
 
-    char *p = (char *) _iso_alloc(zone, n);
+    char *p = (char *) _iso_alloc(zone, s_size + 1);
 
     if(p == NULL) {
         return NULL;
     }
 
-    if(s_size > n) {
-        _iso_alloc_memcpy(p, str, n);
-        p[n - 1] = '\0';
-    } else {
-        _iso_alloc_memcpy(p, str, s_size);
-    }
+    _iso_alloc_memcpy(p, str, s_size);
+    p[s_size] = '\0';
 
     return p;
 }
-- 
2.43.0


From afc7862d78da06d5a4ce5d43d3744e7ac75be7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 13/22] fix: return NULL from iso_alloc_new_zone when no zone
 was created

---
 src/iso_alloc_interfaces.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 98cbe31..0ab2fc7 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -229,6 +229,11 @@ EXTERNAL_API FLATTEN void iso_alloc_destroy_zone(iso_alloc_zone_handle *zone) {
 
 EXTERNAL_API FLATTEN NO_DISCARD iso_alloc_zone_handle *iso_alloc_new_zone(size_t size) {
     iso_alloc_zone_handle *zone = (iso_alloc_zone_handle *) iso_new_zone(size, false);
+
+    if(zone == NULL) {
+        return NULL;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     return zone;
 }
-- 
2.43.0


From 305e2f83c03b93d4cb0ba822d22b61797703e94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 14/22] fix: check for a NULL zone handle before unmasking it

---
 src/iso_alloc_interfaces.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 0ab2fc7..0cfd6b5 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -35,11 +35,19 @@ EXTERNAL_API FLATTEN void iso_free_size(void *p, size_t size) {
 }
 
 EXTERNAL_API FLATTEN void iso_free_from_zone(void *p, iso_alloc_zone_handle *zone) {
+    if(zone == NULL) {
+        return;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     _iso_free_from_zone(p, zone, false);
 }
 
 EXTERNAL_API FLATTEN void iso_free_from_zone_permanently(void *p, iso_alloc_zone_handle *zone) {
+    if(zone == NULL) {
+        return;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     _iso_free_from_zone(p, zone, true);
 }
@@ -53,6 +61,10 @@ EXTERNAL_API FLATTEN size_t iso_chunksz(void *p) {
 }
 
 EXTERNAL_API FLATTEN NO_DISCARD size_t iso_zone_chunk_count(iso_alloc_zone_handle *zone) {
+    if(zone == NULL) {
+        return 0;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     iso_alloc_zone_t *_zone = (iso_alloc_zone_t *) zone;
     size_t canaries = 0;
-- 
2.43.0


From d4756d618153ebc3b23d00dae109f71a6e9fa59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 15/22] fix: unmask the user pages pointer before naming a
 zone's mapping

---
 src/iso_alloc_interfaces.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 0cfd6b5..c2b604d 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -258,7 +258,7 @@ EXTERNAL_API FLATTEN int32_t iso_alloc_name_zone(iso_alloc_zone_handle *zone, ch
     }
 
     iso_alloc_zone_t *_zone = (iso_alloc_zone_t *) zone;
-    return name_mapping(_zone->user_pages_start, ZONE_USER_SIZE, name);
+    return name_mapping(UNMASK_USER_PTR(_zone), ZONE_USER_SIZE, name);
 }
 
 EXTERNAL_API FLATTEN void iso_alloc_protect_root(void) {
-- 
2.43.0


From dc4273be9b24af7a604b74d81006ecd30570cd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 16/22] fix: look up memory tags in zones whose chunk size is
 not a power of two

---
 src/iso_alloc_mem_tags.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 2bb3713..3501b5a 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -11,7 +11,7 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
 #if MEMORY_TAGGING
     void *user_pages_start = UNMASK_USER_PTR(zone);
 
-    if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) < p) {
+    if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) <= p) {
         LOG_AND_ABORT("Cannot get tag for pointer %p with wrong zone %d %p - %p", p, zone->index, user_pages_start, user_pages_start + ZONE_USER_SIZE);
     }
 
@@ -19,7 +19,7 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
     const uint64_t chunk_offset = (uint64_t) (p - user_pages_start);
 
     /* Ensure the pointer is a multiple of chunk size */
-    if(UNLIKELY((chunk_offset & (zone->chunk_size - 1)) != 0)) {
+    if(UNLIKELY((chunk_offset % zone->chunk_size) != 0)) {
         LOG_AND_ABORT("Chunk offset %d not an alignment of %d", chunk_offset, zone->chunk_size);
     }
 
-- 
2.43.0


From b9babab323b35735fe6dcefab725e7e6d808d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 17/22] fix: compare the tag and not its bit position in
 _iso_alloc_verify_tag

---
 src/iso_alloc.c          | 7 ++++++-
 src/iso_alloc_mem_tags.c | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 223f09b..5aaf97d 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1727,7 +1727,12 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_free_internal_unlocked(void *p, bool perm
                 _mtp += (chunk_offset / zone->chunk_size);
 
                 /* Generate and write a new tag for this chunk */
-                *_mtp = (uint8_t) us_rand_uint64(&_root->seed);
+                const uint8_t old_tag = *_mtp;
+
+                /* A stale pointer must not carry a valid tag */
+                do {
+                    *_mtp = (uint8_t) us_rand_uint64(&_root->seed);
+                } while(*_mtp == old_tag);
             }
         }
 #endif
diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 3501b5a..5ab1bb6 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -40,7 +40,7 @@ INTERNAL_HIDDEN void _iso_alloc_verify_tag(void *p, iso_alloc_zone_t *zone) {
     void *untagged_p = (void *) ((uintptr_t) p & TAGGED_PTR_MASK);
     const uint64_t tag = _iso_alloc_get_mem_tag(untagged_p, zone);
 
-    if(tag != ((uintptr_t) p & IS_TAGGED_PTR_MASK)) {
+    if((tag << UNTAGGED_BITS) != ((uintptr_t) p & IS_TAGGED_PTR_MASK)) {
         LOG_AND_ABORT("Pointer %p has wrong tag %x, expected %x", p, ((uintptr_t) p & IS_TAGGED_PTR_MASK), tag);
     }
 #endif
-- 
2.43.0


From d5c93da3a96f931463276d7de429f26640c1cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 18/22] fix: refresh the tags of an empty zone at 25% of its
 retirement age

---
 src/iso_alloc_mem_tags.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 5ab1bb6..f8820d8 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -79,9 +79,9 @@ INTERNAL_HIDDEN bool _refresh_zone_mem_tags(iso_alloc_zone_t *zone) {
     /* This implements a similar policy to zone retirement.
      * The only difference is that we refresh all tags at
      * %25 of the configured zone retirement age */
-    if(UNLIKELY(zone->af_count == 0 && zone->alloc_count > (zone->chunk_count << _root->zone_retirement_shf)) >> 2) {
+    if(UNLIKELY(zone->af_count == 0 && zone->alloc_count > ((zone->chunk_count << _root->zone_retirement_shf) >> 2))) {
         size_t s = ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE);
-        uint64_t *_mtp = (zone->user_pages_start - g_page_size - s);
+        uint64_t *_mtp = (UNMASK_USER_PTR(zone) - g_page_size - s);
         size_t tms = s / sizeof(uint64_t);
 
         for(uint64_t o = 0; o < tms; o++) {
-- 
2.43.0


From a41f85f71e057cddf6fc5eea440ba1486e53107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 19/22] fix: keep the index of a replaced zone when it is zone
 0

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 5aaf97d..5e46d2f 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -492,7 +492,7 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
     create_guard_page(user_pages_guard_above);
 
     /* We created a new zone, we did not replace a retired one */
-    if(index > 0) {
+    if(index >= 0) {
         new_zone->index = index;
     } else {
         new_zone->index = _root->zones_used;
-- 
2.43.0


From 688991533bfbb2a3387e5a0d28c596c74980f919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 20/22] fix: unmap the guard page below the tags of a destroyed
 zone

---
 src/iso_alloc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 5e46d2f..72327f5 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -220,11 +220,12 @@ INTERNAL_HIDDEN void _iso_alloc_destroy_zone_unlocked(iso_alloc_zone_t *zone, bo
     UNPOISON_ZONE(zone);
 
 #if MEMORY_TAGGING
-    /* If the zone is tagged then unmap the page holding the tags */
+    /* If the zone is tagged then unmap the pages holding the tags
+     * and the guard pages on either side of them */
     if(zone->tagged == true) {
         size_t s = ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE);
         void *_mtp = (zone->user_pages_start - s - g_page_size);
-        munmap(_mtp, g_page_size + s);
+        munmap(_mtp - g_page_size, (g_page_size << 1) + s);
         zone->tagged = false;
     }
 #endif
-- 
2.43.0


From ddcca93892a7fda626b674b557e13ba5d2e0b7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:48 +0000
Subject: [PATCH 21/22] fix: unmap the page of a large allocation's record

The record is at a random offset from the page that was mapped for it, so
munmap of the record's own address fails with EINVAL and every released large
allocation left its record's page mapped. ROUND_DOWN_PAGE was off by one page
for an address that is page aligned already.
---
 include/iso_alloc_internal.h |  2 +-
 src/iso_alloc.c              | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/iso_alloc_internal.h b/include/iso_alloc_internal.h
index c8f87cb..40cd1eb 100644
--- a/include/iso_alloc_internal.h
+++ b/include/iso_alloc_internal.h
@@ -204,7 +204,7 @@ assert(sizeof(size_t) >= 64)
     ((((n + g_page_size) - 1) >> g_page_size_shift) * (g_page_size))
 
 #define ROUND_DOWN_PAGE(n) \
-    (ROUND_UP_PAGE(n) - g_page_size)
+    (((n) >> g_page_size_shift) * (g_page_size))
 
 #if MASK_PTRS
 #define MASK_ZONE_PTRS(zone) \
diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 72327f5..0814601 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1871,10 +1871,12 @@ INTERNAL_HIDDEN void iso_free_big_zone(iso_alloc_big_zone_t *big_zone, bool perm
         munmap(big_zone->user_pages_start, big_zone->size);
 #endif
 
+        /* Big zone meta data is at a random offset from its base page */
+        void *big_zone_page = (void *) ROUND_DOWN_PAGE((uintptr_t) big_zone);
 #if BIG_ZONE_META_DATA_GUARD
-        unmap_guarded_pages(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        unmap_guarded_pages(big_zone_page, g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #else
-        munmap(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        munmap(big_zone_page, g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #endif
     }
 }
@@ -2118,10 +2120,12 @@ INTERNAL_HIDDEN void _free_big_zone_list(iso_alloc_big_zone_t *head) {
         munmap(big_zone->user_pages_start, big_zone->size);
 #endif
 
+        /* Big zone meta data is at a random offset from its base page */
+        void *big_zone_page = (void *) ROUND_DOWN_PAGE((uintptr_t) big_zone);
 #if BIG_ZONE_META_DATA_GUARD
-        unmap_guarded_pages(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        unmap_guarded_pages(big_zone_page, g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #else
-        munmap(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        munmap(big_zone_page, g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #endif
         big_zone = big;
     }
-- 
2.43.0


From 2d073739190a9bacf79a759c49b5a71f801ec5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 22/22] fix: fall back to regular pages when huge pages are
 unavailable

---
 src/iso_alloc_util.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_util.c b/src/iso_alloc_util.c
index 132780e..c6fc464 100644
--- a/src/iso_alloc_util.c
+++ b/src/iso_alloc_util.c
@@ -151,7 +151,16 @@ void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot) {
 #endif
 #endif
 
-    p = mmap(p, sz, prot, flags, fd, 0);
+    void *addr = p;
+    p = mmap(addr, sz, prot, flags, fd, 0);
+
+#if __linux__ && MAP_HUGETLB && HUGE_PAGES
+    /* The system may have no huge pages reserved,
+     * regular pages will do */
+    if(p == MAP_FAILED && (flags & MAP_HUGETLB)) {
+        p = mmap(addr, sz, prot, flags & ~MAP_HUGETLB, fd, 0);
+    }
+#endif
 
     if(p == MAP_FAILED) {
         LOG_AND_ABORT("Failed to mmap rw pages");
-- 
2.43.0

