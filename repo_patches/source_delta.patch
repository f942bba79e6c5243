From e163f3036d088b778b44b6639eef0013599e7a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 01/37] fix: roaring_bitmap_remove_many must unshare
 copy-on-write containers

remove_many mutated shared containers without unsharing them, releasing
storage still referenced by other copy-on-write bitmaps.
---
 src/roaring.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index 2363afa..855d19c 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -673,6 +673,8 @@ void roaring_bitmap_remove_many(roaring_bitmap_t *r, size_t n_args,
             pos = ra_get_index(&r->high_low_container, key);
         }
         if (pos >= 0) {
+            ra_unshare_container_at_index(&r->high_low_container,
+                                          (uint16_t)pos);
             uint8_t new_typecode;
             container_t *new_container;
             new_container = container_remove(
-- 
2.43.0


From 84c0f5fbe3e5f0cdedf2721ba4b8b2259056d8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 02/37] fix: roaring_bitmap_rank_many must answer values beyond
 the last container

The answers of queries past the last container were never written.
---
 src/roaring.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index 855d19c..5ee7855 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2630,6 +2630,10 @@ void roaring_bitmap_rank_many(const roaring_bitmap_t *bm, const uint32_t *begin,
             iter++;
         }
     }
+    // the remaining values are beyond the last container
+    for (; iter != end; iter++) {
+        *(ans++) = size;
+    }
 }
 
 /**
-- 
2.43.0


From 2abb1f312ab9fb839cc31f78170400ff8d4b4fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 03/37] fix: roaring_bitmap_from_range must terminate with
 large steps near 2^32

The 32-bit loop variable wrapped around when step >= 65536 and max is
close to 2^32, so that the loop never ended and added wrong values.
---
 src/roaring.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/roaring.c b/src/roaring.c
index 5ee7855..0ae45d9 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -224,8 +224,8 @@ roaring_bitmap_t *roaring_bitmap_from_range(uint64_t min, uint64_t max,
     if (max <= min) return NULL;
     roaring_bitmap_t *answer = roaring_bitmap_create();
     if (step >= (1 << 16)) {
-        for (uint32_t value = (uint32_t)min; value < max; value += step) {
-            roaring_bitmap_add(answer, value);
+        for (uint64_t value = min; value < max; value += step) {
+            roaring_bitmap_add(answer, (uint32_t)value);
         }
         return answer;
     }
-- 
2.43.0


From 06abedbd5ba64b78ebcb2d6f9430c0611014ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 04/37] fix: roaring_bitmap_range_uint32_array must release
 through the memory hooks

The buffer comes from roaring_malloc but was released with free().
---
 src/roaring_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index e3bc6ce..c86a1c5 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -511,7 +511,7 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
     }
     if (t_ans != NULL) {
         memcpy(ans, t_ans + first_skip, limit * sizeof(uint32_t));
-        free(t_ans);
+        roaring_free(t_ans);
     }
     return true;
 }
-- 
2.43.0


From 55b0c8709c3ef060d9b2bf999d3f4bf9b9b88491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 05/37] fix: roaring_bitmap_range_uint32_array must not change
 its operand

It overwrote the SHARED typecode of copy-on-write containers with the type
of the wrapped container, corrupting the bitmap it was only reading.
---
 src/roaring_array.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index c86a1c5..9e3a554 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -447,9 +447,10 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
     size_t cur_len = 0;
 
     for (int i = 0; i < ra->size; ++i) {
+        uint8_t type = ra->typecodes[i];
         const container_t *c =
-            container_unwrap_shared(ra->containers[i], &ra->typecodes[i]);
-        switch (ra->typecodes[i]) {
+            container_unwrap_shared(ra->containers[i], &type);
+        switch (type) {
             case BITSET_CONTAINER_TYPE:
                 t_limit = (const_CAST_bitset(c))->cardinality;
                 break;
@@ -487,20 +488,20 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
                 roaring_free(t_ans);
                 t_ans = append_ans;
             }
-            switch (ra->typecodes[i]) {
+            switch (type) {
                 case BITSET_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_bitset(c),
-                                              ra->typecodes[i],
+                                              type,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
                 case ARRAY_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_array(c),
-                                              ra->typecodes[i],
+                                              type,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
                 case RUN_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_run(c),
-                                              ra->typecodes[i],
+                                              type,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
             }
-- 
2.43.0


From 5092387ad5a079d4779dd72aa3d2e7dba701ce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 06/37] fix: union_vector16 must not promise the compiler
 disjoint buffers

The in-place array unions move one input to the end of the output buffer and
then call fast_union_uint16 on overlapping ranges. With __restrict__ the
compiler turned the memmove calls of union_uint16 into memcpy on overlapping
memory.
---
 include/roaring/array_util.h | 6 +++---
 src/array_util.c             | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/roaring/array_util.h b/include/roaring/array_util.h
index 8ac875a..8266c2e 100644
--- a/include/roaring/array_util.h
+++ b/include/roaring/array_util.h
@@ -231,9 +231,9 @@ size_t union_uint32(const uint32_t *set_1, size_t size_1, const uint32_t *set_2,
 /**
  * A fast SSE-based union function.
  */
-uint32_t union_vector16(const uint16_t *__restrict__ set_1, uint32_t size_1,
-                        const uint16_t *__restrict__ set_2, uint32_t size_2,
-                        uint16_t *__restrict__ buffer);
+uint32_t union_vector16(const uint16_t *set_1, uint32_t size_1,
+                        const uint16_t *set_2, uint32_t size_2,
+                        uint16_t *buffer);
 /**
  * A fast SSE-based XOR function.
  */
diff --git a/src/array_util.c b/src/array_util.c
index a4ff98d..bdd1fe1 100644
--- a/src/array_util.c
+++ b/src/array_util.c
@@ -1653,9 +1653,9 @@ static int uint16_compare(const void *a, const void *b) {
 CROARING_TARGET_AVX2
 // a one-pass SSE union algorithm
 // This function may not be safe if array1 == output or array2 == output.
-uint32_t union_vector16(const uint16_t *__restrict__ array1, uint32_t length1,
-                        const uint16_t *__restrict__ array2, uint32_t length2,
-                        uint16_t *__restrict__ output) {
+uint32_t union_vector16(const uint16_t *array1, uint32_t length1,
+                        const uint16_t *array2, uint32_t length2,
+                        uint16_t *output) {
     if ((length1 < 8) || (length2 < 8)) {
         return (uint32_t)union_uint16(array1, length1, array2, length2, output);
     }
-- 
2.43.0


From fefccc4738d9e7566232a62f200abf52f4ccf39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 07/37] fix: roaring_bitmap_select must reach the last values
 of a full bitmap

start_rank + cardinality wrapped to 0 in the last container of a bitmap with
2^32 values, so that select failed for its last ranks.
---
 include/roaring/containers/array.h | 2 +-
 src/containers/bitset.c            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/roaring/containers/array.h b/include/roaring/containers/array.h
index 8d5c84a..2eadb62 100644
--- a/include/roaring/containers/array.h
+++ b/include/roaring/containers/array.h
@@ -243,7 +243,7 @@ static inline bool array_container_select(const array_container_t *container,
                                           uint32_t *start_rank, uint32_t rank,
                                           uint32_t *element) {
     int card = array_container_cardinality(container);
-    if (*start_rank + card <= rank) {
+    if (rank - *start_rank >= (uint32_t)card) {
         *start_rank += card;
         return false;
     } else {
diff --git a/src/containers/bitset.c b/src/containers/bitset.c
index b66f880..89d7120 100644
--- a/src/containers/bitset.c
+++ b/src/containers/bitset.c
@@ -1169,7 +1169,7 @@ bool bitset_container_is_subset(const bitset_container_t *container1,
 
 bool bitset_container_select(const bitset_container_t *container, uint32_t *start_rank, uint32_t rank, uint32_t *element) {
     int card = bitset_container_cardinality(container);
-    if(rank >= *start_rank + card) {
+    if(rank - *start_rank >= (uint32_t)card) {
         *start_rank += card;
         return false;
     }
@@ -1177,7 +1177,7 @@ bool bitset_container_select(const bitset_container_t *container, uint32_t *star
     int32_t size;
     for (int i = 0; i < BITSET_CONTAINER_SIZE_IN_WORDS; i += 1) {
         size = roaring_hamming(words[i]);
-        if(rank <= *start_rank + size) {
+        if(rank - *start_rank <= (uint32_t)size) {
             uint64_t w = container->words[i];
             uint16_t base = i*64;
             while (w != 0) {
-- 
2.43.0


From 59ef7d0292d72fa46f92d6410875f4b9ff8d6871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 08/37] fix: frozen serialization must see through
 copy-on-write containers

roaring_bitmap_frozen_size_in_bytes and roaring_bitmap_frozen_serialize
reached roaring_unreachable on bitmaps with shared containers.
---
 src/roaring.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/roaring.c b/src/roaring.c
index 0ae45d9..c16bcea 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2951,19 +2951,21 @@ size_t roaring_bitmap_frozen_size_in_bytes(const roaring_bitmap_t *rb) {
     const roaring_array_t *ra = &rb->high_low_container;
     size_t num_bytes = 0;
     for (int32_t i = 0; i < ra->size; i++) {
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
                 num_bytes += BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t);
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 num_bytes += rc->n_runs * sizeof(rle16_t);
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 num_bytes += ac->cardinality * sizeof(uint16_t);
                 break;
             }
@@ -2994,20 +2996,22 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
     size_t run_zone_size = 0;
     size_t array_zone_size = 0;
     for (int32_t i = 0; i < ra->size; i++) {
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
                 bitset_zone_size +=
                     BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t);
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 run_zone_size += rc->n_runs * sizeof(rle16_t);
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 array_zone_size += ac->cardinality * sizeof(uint16_t);
                 break;
             }
@@ -3026,10 +3030,12 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
 
     for (int32_t i = 0; i < ra->size; i++) {
         uint16_t count;
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
-                const bitset_container_t *bc =
-                    const_CAST_bitset(ra->containers[i]);
+                const bitset_container_t *bc = const_CAST_bitset(c);
                 memcpy(bitset_zone, bc->words,
                        BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t));
                 bitset_zone += BITSET_CONTAINER_SIZE_IN_WORDS;
@@ -3043,7 +3049,7 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 size_t num_bytes = rc->n_runs * sizeof(rle16_t);
                 memcpy(run_zone, rc->runs, num_bytes);
                 run_zone += rc->n_runs;
@@ -3051,8 +3057,7 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 size_t num_bytes = ac->cardinality * sizeof(uint16_t);
                 memcpy(array_zone, ac->array, num_bytes);
                 array_zone += ac->cardinality;
@@ -3063,9 +3068,9 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 roaring_unreachable;
         }
         memcpy(&count_zone[i], &count, 2);
+        typecode_zone[i] = typecode;
     }
     memcpy(key_zone, ra->keys, ra->size * sizeof(uint16_t));
-    memcpy(typecode_zone, ra->typecodes, ra->size * sizeof(uint8_t));
     uint32_t header = ((uint32_t)ra->size << 15) | FROZEN_COOKIE;
     memcpy(header_zone, &header, 4);
 }
-- 
2.43.0


From 4798cb037e3fd0958208162732c146504a88c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 09/37] fix: Roaring64Map::readSafe must advance by the bytes
 it consumed

---
 cpp/roaring64map.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 7de53cb..b84083e 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1211,8 +1211,10 @@ class Roaring64Map {
             maxbytes -= sizeof(uint32_t);
             // read map value Roaring
             Roaring read_var = Roaring::readSafe(buf, maxbytes);
-            // forward buffer past the last Roaring Bitmap
-            size_t tz = read_var.getSizeInBytes(true);
+            // forward buffer past the last Roaring Bitmap: what it occupies in
+            // the input, which is not always what writing it again would take
+            size_t tz =
+                api::roaring_bitmap_portable_deserialize_size(buf, maxbytes);
             buf += tz;
             maxbytes -= tz;
             result.emplaceOrInsert(key, std::move(read_var));
-- 
2.43.0


From 9fc32c09a62812a71527a6e2f20c7dd8f09020b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 10/37] fix: roaring64_bitmap_move_from_roaring32 must unshare
 copy-on-write containers

---
 src/roaring64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index de1009e..e61974b 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -288,6 +288,8 @@ static void move_from_roaring32_offset(roaring64_bitmap_t *dst,
     for (uint32_t i = 0; i < r32_size; ++i) {
         uint16_t key = ra_get_key_at_index(&src->high_low_container, i);
         uint8_t typecode;
+        // 64-bit bitmaps do not support shared (copy-on-write) containers.
+        ra_unshare_container_at_index(&src->high_low_container, (uint16_t)i);
         container_t *container = ra_get_container_at_index(
             &src->high_low_container, (uint16_t)i, &typecode);
 
-- 
2.43.0


From e7089600e588d5ec6bd64394d3fb146007ce3ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:44 +0000
Subject: [PATCH 11/37] fix: roaring64_bitmap_remove_bulk must forget a leaf it
 removed

---
 src/roaring64.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index e61974b..d7bad5c 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -757,13 +757,17 @@ void roaring64_bitmap_remove_bulk(roaring64_bitmap_t *r,
             bool erased = art_erase(art, high48, (art_val_t *)&leaf);
             assert(erased);
             remove_container(r, leaf);
+            // The leaf is gone.
+            context->leaf = NULL;
         }
     } else {
         // We're not positioned anywhere yet or the high bits of the key
         // differ.
         leaf_t *leaf = (leaf_t *)art_find(art, high48);
-        containerptr_roaring64_bitmap_remove(r, high48, low16, leaf);
-        context->leaf = leaf;
+        bool removed =
+            containerptr_roaring64_bitmap_remove(r, high48, low16, leaf);
+        // The leaf is gone if its last value was removed.
+        context->leaf = removed ? NULL : leaf;
         memcpy(context->high_bytes, high48, ART_KEY_BYTES);
     }
 }
-- 
2.43.0


From d7f1387491b160721b8e588f94a408542d60705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 12/37] fix: roaring64_bitmap_contains_range must not ignore a
 missing last chunk

---
 src/roaring64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index d7bad5c..9909ae6 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -542,9 +542,9 @@ bool roaring64_bitmap_contains_range(const roaring64_bitmap_t *r, uint64_t min,
     while (it.value != NULL) {
         uint64_t current_high48_bits = combine_key(it.key, 0);
         if (current_high48_bits > max_high48_bits) {
-            // We've passed the end of the range with all containers containing
-            // the range.
-            return true;
+            // We've passed the end of the range. The containers seen so far
+            // contain their part of it, but must have reached its end.
+            break;
         }
         if (current_high48_bits - prev_high48_bits > 0x10000) {
             // There is a gap in the iterator that falls in the range.
-- 
2.43.0


From 28c2f84342dcb8e1291b553d24f1ebe96ca9fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 13/37] fix: roaring64_iterator_read must note that it reached
 the end

---
 src/roaring64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index 9909ae6..9396013 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -2705,6 +2705,8 @@ uint64_t roaring64_iterator_read(roaring64_iterator_t *it, uint64_t *buf,
         it->has_value = art_iterator_next(&it->art_it);
         if (it->has_value) {
             roaring64_iterator_init_at_leaf_first(it);
+        } else {
+            it->saturated_forward = true;
         }
     }
     return consumed;
-- 
2.43.0


From 6049f99a0fcd4e0be2dc77a896044b7be1e0082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 14/37] fix: Roaring64Map::read must advance by the bytes each
 bucket occupies

---
 cpp/roaring64map.hh | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index b84083e..a58dd75 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1176,8 +1176,9 @@ class Roaring64Map {
             buf += sizeof(uint32_t);
             // read map value Roaring
             Roaring read_var = Roaring::read(buf, portable);
-            // forward buffer past the last Roaring Bitmap
-            buf += read_var.getSizeInBytes(portable);
+            // forward buffer past the last Roaring Bitmap: what it occupies in
+            // the input, which is not always what writing it again would take
+            buf += serializedSizeInBytes(buf, portable);
             result.emplaceOrInsert(key, std::move(read_var));
         }
         return result;
@@ -1592,6 +1593,19 @@ class Roaring64Map {
                                          const uint32_t lowBytes) {
         return (uint64_t(highBytes) << 32) | uint64_t(lowBytes);
     }
+    // How many bytes one serialized bucket at `buf` occupies.
+    static size_t serializedSizeInBytes(const char *buf, bool portable) {
+        if (portable) {
+            return api::roaring_bitmap_portable_deserialize_size(
+                buf, (std::numeric_limits<size_t>::max)());
+        }
+        if (buf[0] == 1) {  // an array of 32-bit values, preceded by its length
+            uint32_t count;
+            std::memcpy(&count, buf + 1, sizeof(uint32_t));
+            return 1 + sizeof(uint32_t) + size_t(count) * sizeof(uint32_t);
+        }
+        return 1 + serializedSizeInBytes(buf + 1, true);
+    }
     // this is needed to tolerate gcc's C++11 libstdc++ lacking emplace
     // prior to version 4.8
     void emplaceOrInsert(const uint32_t key, const Roaring &value) {
-- 
2.43.0


From 178d9d07256289c5e06bfd7c3576f3a75246177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 15/37] fix: roaring64_bitmap_frozen_view must refuse truncated
 buffers cleanly

---
 src/art/art.c   |  3 +++
 src/roaring64.c | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/art/art.c b/src/art/art.c
index 8e54d43..6638654 100644
--- a/src/art/art.c
+++ b/src/art/art.c
@@ -2385,6 +2385,7 @@ size_t art_frozen_view(const char *buf, size_t maxbytes, art_t *art) {
     maxbytes -= sizeof(art->root);
 
     if (maxbytes < sizeof(art->capacities)) {
+        art_init_cleared(art);
         return 0;
     }
     _Static_assert(sizeof(art->first_free) == sizeof(art->capacities),
@@ -2398,6 +2399,7 @@ size_t art_frozen_view(const char *buf, size_t maxbytes, art_t *art) {
     const char *before_align = buf;
     buf = CROARING_ART_ALIGN_BUF(buf, alignof(art_leaf_t));
     if (maxbytes < (size_t)(buf - before_align)) {
+        art_init_cleared(art);
         return 0;
     }
     maxbytes -= buf - before_align;
@@ -2407,6 +2409,7 @@ size_t art_frozen_view(const char *buf, size_t maxbytes, art_t *art) {
         if (art->capacities[t] > 0) {
             size_t size = art->capacities[t] * ART_NODE_SIZES[t];
             if (maxbytes < size) {
+                art_init_cleared(art);
                 return 0;
             }
             art->nodes[t] = (char *)buf;
diff --git a/src/roaring64.c b/src/roaring64.c
index 9396013..a1bb7bc 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -2451,14 +2451,14 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     buf += sizeof(r->capacity);
     maxbytes -= sizeof(r->capacity);
 
-    r->containers =
-        (container_t *)roaring_malloc(r->capacity * sizeof(container_t *));
-
     // Container element counts.
-    if (maxbytes < r->capacity * sizeof(uint16_t)) {
+    if (maxbytes / sizeof(uint16_t) < r->capacity) {
         roaring64_bitmap_free(r);
         return NULL;
     }
+    // Zeroed, as freeing after a failure below visits all containers.
+    r->containers =
+        (container_t **)roaring_calloc(r->capacity, sizeof(container_t *));
     const char *elem_counts = buf;
     buf += r->capacity * sizeof(uint16_t);
     maxbytes -= r->capacity * sizeof(uint16_t);
@@ -2480,7 +2480,13 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     maxbytes -= sizeof(uint64_t);
 
     // ART (8 byte aligned).
+    const char *before_art = buf;
     buf = CROARING_ALIGN_BUF(buf, 8);
+    if (maxbytes < (size_t)(buf - before_art)) {
+        roaring64_bitmap_free(r);
+        return NULL;
+    }
+    maxbytes -= buf - before_art;
     size_t art_size = art_frozen_view(buf, maxbytes, &r->art);
     if (art_size == 0) {
         roaring64_bitmap_free(r);
-- 
2.43.0


From 29066d08b125aa7920e46239648b393af2050ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 16/37] fix: overwriting a bitmap with itself must keep its
 contents

---
 src/roaring_array.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index 9e3a554..e001d3b 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -125,6 +125,9 @@ void ra_init(roaring_array_t *new_ra) {
 
 bool ra_overwrite(const roaring_array_t *source, roaring_array_t *dest,
                   bool copy_on_write) {
+    if (source == dest) {
+        return true;  // nothing to copy, and clearing dest would lose it
+    }
     ra_clear_containers(dest);  // we are going to overwrite them
     if (source->size == 0) {    // Note: can't call memcpy(NULL), even w/size
         dest->size = 0;         // <--- This is important.
-- 
2.43.0


From 1848376fb7bb700df1b46f92a4244cda9ef69b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 17/37] fix: Roaring -= and ^= with itself must give an empty
 bitmap

---
 cpp/roaring.hh | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpp/roaring.hh b/cpp/roaring.hh
index 8a3b8b6..e1c2f8f 100644
--- a/cpp/roaring.hh
+++ b/cpp/roaring.hh
@@ -341,6 +341,11 @@ class Roaring {
      * is not modified.
      */
     Roaring &operator-=(const Roaring &r) noexcept {
+        if (this == &r) {
+            // The C function wants distinct bitmaps; the result is empty.
+            api::roaring_bitmap_clear(&roaring);
+            return *this;
+        }
         api::roaring_bitmap_andnot_inplace(&roaring, &r.roaring);
         return *this;
     }
@@ -363,6 +368,11 @@ class Roaring {
      * is not modified.
      */
     Roaring &operator^=(const Roaring &r) noexcept {
+        if (this == &r) {
+            // The C function wants distinct bitmaps; the result is empty.
+            api::roaring_bitmap_clear(&roaring);
+            return *this;
+        }
         api::roaring_bitmap_xor_inplace(&roaring, &r.roaring);
         return *this;
     }
-- 
2.43.0


From f9408e881b0f42052eb46caadb30677ed9258bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:36 +0000
Subject: [PATCH 18/37] fix: roaring_bitmap_add_bulk must unshare a container
 found by contains_bulk

---
 src/roaring.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/roaring.c b/src/roaring.c
index c16bcea..bde5fc1 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -103,7 +103,10 @@ static inline void add_bulk_impl(roaring_bitmap_t *r,
                                  roaring_bulk_context_t *context,
                                  uint32_t val) {
     uint16_t key = val >> 16;
-    if (context->container == NULL || context->key != key) {
+    // a context filled by contains_bulk may hold a shared container, which
+    // must be unshared before it is modified
+    if (context->container == NULL || context->key != key ||
+        context->typecode == SHARED_CONTAINER_TYPE) {
         uint8_t typecode;
         int idx;
         context->container =
-- 
2.43.0


From e3b7d7de8818de5fb9f28f9f00eda330637b0a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 19/37] fix: post-decrement of a Roaring64Map end iterator must
 skip empty buckets

---
 cpp/roaring64map.hh | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index a58dd75..72e0a8b 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1848,18 +1848,7 @@ class Roaring64MapSetBitBiDirectionalIterator {
 
     type_of_iterator operator--(int) {  // i--, must return orig. value
         Roaring64MapSetBitBiDirectionalIterator orig(*this);
-        if (map_iter == p->cend()) {
-            --map_iter;
-            roaring_iterator_init_last(&map_iter->second.roaring, &i);
-            return orig;
-        }
-
-        roaring_uint32_iterator_previous(&i);
-        while (!i.has_value) {
-            if (map_iter == p->cbegin()) return orig;
-            map_iter--;
-            roaring_iterator_init_last(&map_iter->second.roaring, &i);
-        }
+        --*this;
         return orig;
     }
 
-- 
2.43.0


From 3b7c37f2716dc10557dc4115cdea4aefb9422b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 20/37] fix: Roaring64Map move_equalorlarger must skip empty
 buckets

---
 cpp/roaring64map.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 72e0a8b..81b459e 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1820,6 +1820,11 @@ class Roaring64MapSetBitBiDirectionalIterator {
                 if (map_iter == p->cend()) return false;
                 roaring_iterator_init(&map_iter->second.roaring, &i);
             }
+            while (!i.has_value) {
+                ++map_iter;
+                if (map_iter == p->cend()) return false;
+                roaring_iterator_init(&map_iter->second.roaring, &i);
+            }
             return true;
         }
         return false;
-- 
2.43.0


From 81c64c6ae4551a9d3ca331db6ec0ba38c9a52556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 21/37] fix: Roaring64Map end iterator == must not be
 dereferenced

---
 cpp/roaring64map.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 81b459e..df5e2f5 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1859,7 +1859,7 @@ class Roaring64MapSetBitBiDirectionalIterator {
 
     bool operator==(const Roaring64MapSetBitBiDirectionalIterator &o) const {
         if (map_iter == p->cend() && o.map_iter == o.p->cend()) return true;
-        if (o.map_iter == o.p->cend()) return false;
+        if (map_iter == p->cend() || o.map_iter == o.p->cend()) return false;
         return **this == *o;
     }
 
-- 
2.43.0


From 2e8ad5f03cc0b5e26cb5f4ca30d1eabe460c17c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 22/37] fix: Roaring64Map end iterator != must not be
 dereferenced

---
 cpp/roaring64map.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index df5e2f5..67a7eb6 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1865,7 +1865,7 @@ class Roaring64MapSetBitBiDirectionalIterator {
 
     bool operator!=(const Roaring64MapSetBitBiDirectionalIterator &o) const {
         if (map_iter == p->cend() && o.map_iter == o.p->cend()) return false;
-        if (o.map_iter == o.p->cend()) return true;
+        if (map_iter == p->cend() || o.map_iter == o.p->cend()) return true;
         return **this != *o;
     }
 
-- 
2.43.0


From c1bccb675d40798b88513c21ddb5498d0cf51e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 23/37] fix: Roaring64Map::removeRunCompression must report a
 change in any bucket

---
 cpp/roaring64map.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 67a7eb6..45e4a57 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -986,9 +986,9 @@ class Roaring64Map {
      */
     bool removeRunCompression() {
         return std::accumulate(
-            roarings.begin(), roarings.end(), true,
+            roarings.begin(), roarings.end(), false,
             [](bool previous, std::pair<const uint32_t, Roaring> &map_entry) {
-                return map_entry.second.removeRunCompression() && previous;
+                return map_entry.second.removeRunCompression() || previous;
             });
     }
 
-- 
2.43.0


From 90ca4bb90195c46905891bbb5ce77720c9a7e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 24/37] fix: Roaring64Map::runOptimize must report a run
 container in any bucket

---
 cpp/roaring64map.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 45e4a57..f7ff398 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1000,9 +1000,9 @@ class Roaring64Map {
      */
     bool runOptimize() {
         return std::accumulate(
-            roarings.begin(), roarings.end(), true,
+            roarings.begin(), roarings.end(), false,
             [](bool previous, std::pair<const uint32_t, Roaring> &map_entry) {
-                return map_entry.second.runOptimize() && previous;
+                return map_entry.second.runOptimize() || previous;
             });
     }
 
-- 
2.43.0


From 65fd382d6f60827ab2adc1669b70bbd8772c3df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 25/37] fix: bitset_shift_left must not read before an empty
 bitset

---
 src/bitset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bitset.c b/src/bitset.c
index 96fee90..5a13417 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -90,6 +90,7 @@ void bitset_shift_left(bitset_t *bitset, size_t s) {
     size_t extra_words = s / 64;
     int inword_shift = s % 64;
     size_t as = bitset->arraysize;
+    if (as == 0) return;  // no bits to move
     if (inword_shift == 0) {
         bitset_resize(bitset, as + extra_words, false);
         // could be done with a memmove
-- 
2.43.0


From 7563bd247708100e7738cc5c314b0a39d0729070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 26/37] fix: bitset_shift_right must accept distances beyond
 the size

---
 src/bitset.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bitset.c b/src/bitset.c
index 5a13417..e123db0 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -117,6 +117,10 @@ void bitset_shift_right(bitset_t *bitset, size_t s) {
     size_t extra_words = s / 64;
     int inword_shift = s % 64;
     size_t as = bitset->arraysize;
+    if (extra_words >= as) {  // every bit moves below zero
+        bitset_resize(bitset, 0, false);
+        return;
+    }
     if (inword_shift == 0) {
         // could be done with a memmove
         for (size_t i = 0; i < as - extra_words; i++) {
-- 
2.43.0


From f5ba4d20c49f5b9513b40f676d3a4edd589df237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 27/37] fix: bitset_trim of an empty bitset must not keep a
 freed array

---
 src/bitset.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bitset.c b/src/bitset.c
index e123db0..88f6a9e 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -478,6 +478,13 @@ bool bitset_trim(bitset_t *bitset) {
             break;
     }
     if (bitset->capacity == newsize) return true;  // nothing to do
+    if (newsize == 0) {  // reallocating to zero bytes may free the array
+        roaring_free(bitset->array);
+        bitset->array = NULL;
+        bitset->capacity = 0;
+        bitset->arraysize = 0;
+        return true;
+    }
     uint64_t *newarray;
     if ((newarray = (uint64_t *)roaring_realloc(
              bitset->array, sizeof(uint64_t) * newsize)) == NULL) {
-- 
2.43.0


From da5ec8ce6834c266522c2dba97be6f39258bc6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:24 +0000
Subject: [PATCH 28/37] fix: an exhausted ART iterator searches from the
 current root

art_iterator_lower_bound() on an iterator without a position took the root
from the first frame, which is null when no search ever descended, and
names a freed leaf after the iterator erased the only entry.
---
 src/art/art.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/art/art.c b/src/art/art.c
index 6638654..643a11c 100644
--- a/src/art/art.c
+++ b/src/art/art.c
@@ -2085,7 +2085,7 @@ bool art_iterator_lower_bound(art_iterator_t *iterator,
         // have a valid key. Start from the root.
         iterator->frame = 0;
         iterator->depth = 0;
-        art_ref_t root = art_iterator_ref(iterator);
+        art_ref_t root = iterator->art->root;
         if (root == CROARING_ART_NULL_REF) {
             return false;
         }
-- 
2.43.0


From 9bfb48b0560211d3652565feb2223299914df507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 29/37] fix: shrink an ART whose entries were all erased

Without a root the free lists were not sorted, so that the arrays were cut
at the most recently freed index and kept unused elements.
---
 src/art/art.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/art/art.c b/src/art/art.c
index 643a11c..16f166a 100644
--- a/src/art/art.c
+++ b/src/art/art.c
@@ -1808,8 +1808,8 @@ size_t art_shrink_to_fit(art_t *art) {
     if (art_is_shrunken(art)) {
         return 0;
     }
+    art_sort_free_lists(art);
     if (art->root != CROARING_ART_NULL_REF) {
-        art_sort_free_lists(art);
         art->root = art_move_node_to_shrink(art, art->root);
         art_shrink_at(art, art->root);
     }
-- 
2.43.0


From 7e849e3623fe94b3a443035b71b647a762b063c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 30/37] fix: a failed allocation in ra_overwrite must leave
 source and destination valid

---
 src/roaring_array.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index e001d3b..d292161 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -129,8 +129,8 @@ bool ra_overwrite(const roaring_array_t *source, roaring_array_t *dest,
         return true;  // nothing to copy, and clearing dest would lose it
     }
     ra_clear_containers(dest);  // we are going to overwrite them
+    dest->size = 0;             // <--- This is important.
     if (source->size == 0) {    // Note: can't call memcpy(NULL), even w/size
-        dest->size = 0;         // <--- This is important.
         return true;            // output was just cleared, so they match
     }
     if (dest->allocation_size < source->size) {
@@ -138,20 +138,24 @@ bool ra_overwrite(const roaring_array_t *source, roaring_array_t *dest,
             return false;
         }
     }
-    dest->size = source->size;
-    memcpy(dest->keys, source->keys, dest->size * sizeof(uint16_t));
+    memcpy(dest->keys, source->keys, source->size * sizeof(uint16_t));
     // we go through the containers, turning them into shared containers...
     if (copy_on_write) {
-        for (int32_t i = 0; i < dest->size; ++i) {
-            source->containers[i] = get_copy_of_container(
+        for (int32_t i = 0; i < source->size; ++i) {
+            container_t *shared = get_copy_of_container(
                 source->containers[i], &source->typecodes[i], copy_on_write);
+            if (shared == NULL) {  // source[i] is unchanged
+                ra_clear(dest);    // drops the references taken so far
+                return false;
+            }
+            source->containers[i] = shared;
+            // we do a shallow copy to the other bitmap
+            dest->containers[i] = shared;
+            dest->typecodes[i] = source->typecodes[i];
+            dest->size++;
         }
-        // we do a shallow copy to the other bitmap
-        memcpy(dest->containers, source->containers,
-               dest->size * sizeof(container_t *));
-        memcpy(dest->typecodes, source->typecodes,
-               dest->size * sizeof(uint8_t));
     } else {
+        dest->size = source->size;
         memcpy(dest->typecodes, source->typecodes,
                dest->size * sizeof(uint8_t));
         for (int32_t i = 0; i < dest->size; i++) {
-- 
2.43.0


From be555138d6266da3571ab190d7792063afd9804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 31/37] fix: a failed allocation of a run container's storage
 crashed deserialization

---
 src/roaring_array.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index d292161..9493028 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -850,7 +850,11 @@ bool ra_portable_deserialize(roaring_array_t *answer, const char *buf,
             }
             // it is now safe to read
 
-            run_container_t *c = run_container_create();
+            // large enough for the runs: run_container_read cannot report a
+            // failure to grow it
+            run_container_t *c = run_container_create_given_capacity(
+                n_runs > RUN_DEFAULT_INIT_SIZE ? n_runs
+                                               : RUN_DEFAULT_INIT_SIZE);
             if (c == NULL) {  // memory allocation failure
                 // Failed to allocate memory for a run container.
                 ra_clear(answer);  // we need to clear the containers already
-- 
2.43.0


From c4803078f3dffda92408708339a19181a0ada83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:54 +0000
Subject: [PATCH 32/37] fix: shrink_to_fit must not discard the values when it
 cannot shrink

---
 src/containers/array.c | 12 ++++++------
 src/containers/run.c   |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/containers/array.c b/src/containers/array.c
index 4b5e5bc..533c7f0 100644
--- a/src/containers/array.c
+++ b/src/containers/array.c
@@ -129,17 +129,17 @@ void array_container_offset(const array_container_t *c, container_t **loc,
 int array_container_shrink_to_fit(array_container_t *src) {
     if (src->cardinality == src->capacity) return 0;  // nothing to do
     int savings = src->capacity - src->cardinality;
-    src->capacity = src->cardinality;
-    if (src->capacity ==
+    if (src->cardinality ==
         0) {  // we do not want to rely on realloc for zero allocs
         roaring_free(src->array);
         src->array = NULL;
     } else {
-        uint16_t *oldarray = src->array;
-        src->array = (uint16_t *)roaring_realloc(
-            oldarray, src->capacity * sizeof(uint16_t));
-        if (src->array == NULL) roaring_free(oldarray);  // should never happen?
+        uint16_t *newarray = (uint16_t *)roaring_realloc(
+            src->array, src->cardinality * sizeof(uint16_t));
+        if (newarray == NULL) return 0;  // keep what we have
+        src->array = newarray;
     }
+    src->capacity = src->cardinality;
     return savings;
 }
 
diff --git a/src/containers/run.c b/src/containers/run.c
index 986db6d..913852f 100644
--- a/src/containers/run.c
+++ b/src/containers/run.c
@@ -108,11 +108,11 @@ run_container_t *run_container_create_given_capacity(int32_t size) {
 int run_container_shrink_to_fit(run_container_t *src) {
     if (src->n_runs == src->capacity) return 0;  // nothing to do
     int savings = src->capacity - src->n_runs;
+    rle16_t *newruns =
+        (rle16_t *)roaring_realloc(src->runs, src->n_runs * sizeof(rle16_t));
+    if (newruns == NULL) return 0;  // keep what we have
+    src->runs = newruns;
     src->capacity = src->n_runs;
-    rle16_t *oldruns = src->runs;
-    src->runs =
-        (rle16_t *)roaring_realloc(oldruns, src->capacity * sizeof(rle16_t));
-    if (src->runs == NULL) roaring_free(oldruns);  // should never happen?
     return savings;
 }
 /* Create a new run container. Return NULL in case of failure. */
-- 
2.43.0


From 348be4ea9e69c2966eef58bc1dc8ae00c340ec3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:37 +0000
Subject: [PATCH 33/37] fix: clone a shared container before dropping the
 reference to it

---
 src/containers/containers.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/containers/containers.c b/src/containers/containers.c
index eb5a346..9ac78ef 100644
--- a/src/containers/containers.c
+++ b/src/containers/containers.c
@@ -228,13 +228,19 @@ container_t *shared_container_extract_copy(shared_container_t *sc,
                                            uint8_t *typecode) {
     assert(sc->typecode != SHARED_CONTAINER_TYPE);
     *typecode = sc->typecode;
-    container_t *answer;
+    container_t *answer = NULL;
+    if (croaring_refcount_get(&sc->counter) > 1) {
+        // Clone while we still hold our reference: once it is dropped, the
+        // other owners (maybe in other threads) may modify or free the
+        // container.
+        answer = container_clone(sc->container, *typecode);
+    }
     if (croaring_refcount_dec(&sc->counter)) {
+        // We are the last owner (the others may have left while we cloned).
+        if (answer != NULL) container_free(answer, *typecode);
         answer = sc->container;
         sc->container = NULL;  // paranoid
         roaring_free(sc);
-    } else {
-        answer = container_clone(sc->container, *typecode);
     }
     assert(*typecode != SHARED_CONTAINER_TYPE);
     return answer;
-- 
2.43.0


From 99418fe6ce174d41103cf44293838913d7e9bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:37 +0000
Subject: [PATCH 34/37] fix: croaring_refcount_dec without atomics compared the
 pointer, not the count

---
 include/roaring/portability.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/roaring/portability.h b/include/roaring/portability.h
index 03e741b..2d5da3b 100644
--- a/include/roaring/portability.h
+++ b/include/roaring/portability.h
@@ -559,7 +559,7 @@ static inline void croaring_refcount_inc(croaring_refcount_t *val) {
 static inline bool croaring_refcount_dec(croaring_refcount_t *val) {
     assert(*val > 0);
     *val -= 1;
-    return val == 0;
+    return *val == 0;
 }
 
 static inline uint32_t croaring_refcount_get(const croaring_refcount_t *val) {
-- 
2.43.0


From 1f5ef2b28d262d1d961500737e14f2952e1249e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 35/37] fix: shrink_to_fit must not reallocate storage other
 bitmaps share

---
 src/roaring.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index bde5fc1..3569e38 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -1436,6 +1436,13 @@ size_t roaring_bitmap_shrink_to_fit(roaring_bitmap_t *r) {
         uint8_t type_original;
         container_t *c = ra_get_container_at_index(&r->high_low_container,
                                                    (uint16_t)i, &type_original);
+        if (type_original == SHARED_CONTAINER_TYPE) {
+            // Other owners (maybe in other threads) may be using the storage.
+            if (croaring_refcount_get(&CAST_shared(c)->counter) > 1) continue;
+            ra_unshare_container_at_index(&r->high_low_container, (uint16_t)i);
+            c = ra_get_container_at_index(&r->high_low_container, (uint16_t)i,
+                                          &type_original);
+        }
         answer += container_shrink_to_fit(c, type_original);
     }
     answer += ra_shrink_to_fit(&r->high_low_container);
-- 
2.43.0


From 131f6ce6c5797f56d9158a75b1233925cb9d298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 36/37] fix: portable_deserialize_frozen took the cardinality
 of a run container for its capacity

---
 src/roaring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roaring.c b/src/roaring.c
index 3569e38..473af5d 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -3338,7 +3338,6 @@ roaring_bitmap_t *roaring_bitmap_portable_deserialize_frozen(const char *buf) {
             typecodes[i] = RUN_CONTAINER_TYPE;
             run_container_t *c =
                 (run_container_t *)arena_alloc(&arena, sizeof(run_container_t));
-            c->capacity = cardinality;
             uint16_t n_runs;
             if (offset_headers != NULL) {
                 memcpy(&n_runs, start_of_buf + offset_headers[i],
@@ -3353,6 +3352,7 @@ roaring_bitmap_t *roaring_bitmap_portable_deserialize_frozen(const char *buf) {
                 c->runs = (rle16_t *)buf;
                 buf += c->n_runs * sizeof(rle16_t);
             }
+            c->capacity = c->n_runs;
             rb->high_low_container.containers[i] = c;
         } else {
             typecodes[i] = ARRAY_CONTAINER_TYPE;
-- 
2.43.0


From 1d7025b4612bb428b5ae3adc95f3dedf6bf36049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 37/37] fix: Roaring64Map::portableDeserializeFrozen must
 advance by the bytes each bucket occupies

---
 cpp/roaring64map.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index f7ff398..de369ef 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1291,8 +1291,9 @@ class Roaring64Map {
             buf += sizeof(uint32_t);
             // read map value Roaring
             Roaring read_var = Roaring::portableDeserializeFrozen(buf);
-            // forward buffer past the last Roaring bitmap
-            buf += read_var.getSizeInBytes(true);
+            // forward buffer past the last Roaring bitmap: what it occupies in
+            // the input, which is not always what writing it again would take
+            buf += serializedSizeInBytes(buf, true);
             result.emplaceOrInsert(key, std::move(read_var));
         }
         return result;
-- 
2.43.0

