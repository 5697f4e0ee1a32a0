From 4d369f094ebc658989ba3b280800374f14c2ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 01/22] fix: Reject TLV length which doesn't fit into the input
 range

The length was compared as a signed number, lengths above G_MAXSSIZE
passed the check and pushed the input pointer out of the range.
---
 src/gutil_datapack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 1a7f945..9199027 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -411,7 +411,7 @@ gutil_tlv_decode(
 
     if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag <= INT_MAX &&
         gutil_unsigned_mbn_decode(&tmp, &len) &&
-        (tmp.end - tmp.ptr) >= (gssize) len) {
+        (guint64)(tmp.end - tmp.ptr) >= len) {
         if (val) {
             val->bytes = tmp.ptr;
             val->size = (gsize) len;
-- 
2.43.0


From c47b07d05e6043fa4ef8edab0f210ee52bea8fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 02/22] fix: Don't consume TLV with zero tag

Zero tag is not a valid tag. gutil_tlv_decode() returned zero (i.e. failed)
and yet it advanced the input pointer, so that gutil_tlvs_decode() treated
TLV sequences ending with a zero tag as valid.
---
 src/gutil_datapack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 9199027..011b64c 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -409,7 +409,7 @@ gutil_tlv_decode(
     GUtilRange tmp = *in;
     guint64 tag, len;
 
-    if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag <= INT_MAX &&
+    if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag && tag <= INT_MAX &&
         gutil_unsigned_mbn_decode(&tmp, &len) &&
         (guint64)(tmp.end - tmp.ptr) >= len) {
         if (val) {
-- 
2.43.0


From 3e21a6ae16130170993f908e996c5dfab99205c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 03/22] fix: Reject signed MBNs which don't fit into 64 bits

The lowest bit of the first byte of a 10-byte sequence is the sign of
the result and has to match the sign bit of the sequence.
---
 src/gutil_datapack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 011b64c..c3bf00c 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -166,7 +166,7 @@ gutil_signed_mbn_decode(
                         return TRUE;
                     } else {
                         /* Unused bits must be set to 1 */
-                        if ((msc | ((1 << (maxbits - nbits)) - 1)) == 0xff) {
+                        if ((msc | ((1 << (maxbits - nbits - 1)) - 1)) == 0xff) {
                             if (out) {
                                 *out = value;
                             }
@@ -178,7 +178,7 @@ gutil_signed_mbn_decode(
                     /* Positive number, unused bits (if any) must be zeroed */
                     /* Unused bits must be zeroed */
                     if ((nbits + 7) < maxbits ||
-                        (msc & ~((1 << (maxbits - nbits)) - 1)) == 0x80) {
+                        (msc & ~((1 << (maxbits - nbits - 1)) - 1)) == 0x80) {
                         if (out) {
                             *out = value;
                         }
-- 
2.43.0


From ce5e2c1a374476e3d7b29a58dd9891c635dccb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 04/22] fix: Respect the maximum ring size if more space has
 been reserved

---
 src/gutil_ring.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 93dea3a..244717f 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -281,7 +281,8 @@ gutil_ring_put(
     GUtilRing* r,
     gpointer data)
 {
-    if (gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
+    if (gutil_ring_can_put(r, 1) &&
+        gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
         if (r->start < 0) {
             r->start = r->end = 0;
         }
@@ -298,7 +299,8 @@ gutil_ring_put_front(
     GUtilRing* r,
     gpointer data)
 {
-    if (gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
+    if (gutil_ring_can_put(r, 1) &&
+        gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
         if (r->start >= 0) {
             r->start = (r->start + r->alloc - 1) % r->alloc;
         } else {
-- 
2.43.0


From 3df4cf6fcef406dac9eba06e271395803ffd8449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 05/22] fix: Integer overflow in gutil_ring_can_put()

---
 src/gutil_ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 244717f..e3ffc97 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -271,7 +271,7 @@ gutil_ring_can_put(
     gint n)
 {
     if (G_LIKELY(r)) {
-        return r->maxsiz < 0 || (gutil_ring_size(r) + n) <= r->maxsiz;
+        return r->maxsiz < 0 || n <= (r->maxsiz - gutil_ring_size(r));
     }
     return FALSE;
 }
-- 
2.43.0


From 3cb50ebb314054dfe44189f254e3dc9f6b114ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 06/22] fix: Buffer overflow after gutil_ring_flatten()

If the ring wasn't full, the new buffer was smaller than r->alloc and the
subsequent gutil_ring_put() could write beyond its end.
---
 src/gutil_ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index e3ffc97..2127ea3 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -428,7 +428,7 @@ gutil_ring_flatten(
 
     if (G_LIKELY(r) && n > 0) {
         if (r->start > 0 && r->start >= r->end) {
-            gpointer* buf = g_new(gpointer, n);
+            gpointer* buf = g_new(gpointer, r->alloc);
             const gint n1 = r->alloc - r->start;
 
             memcpy(buf, r->data + r->start, sizeof(gpointer) * n1);
-- 
2.43.0


From 5cebf425617d2d339a6ab246cfa984c0c13c3e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 07/22] fix: Integer overflow in gutil_int_array sort functions

---
 src/gutil_intarray.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index 2dec4b5..cd6554c 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -320,7 +320,7 @@ gutil_int_array_sort_ascending_proc(
     const int* v1 = a;
     const int* v2 = b;
 
-    return *v1 - *v2;
+    return (*v1 > *v2) - (*v1 < *v2);
 }
 
 void
@@ -341,7 +341,7 @@ gutil_int_array_sort_descending_proc(
     const int* v1 = a;
     const int* v2 = b;
 
-    return *v2 - *v1;
+    return (*v2 > *v1) - (*v2 < *v1);
 }
 
 void
-- 
2.43.0


From 11b6d5823e3f63a5192d82ce7168ec2823098f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 08/22] fix: Integer overflow in gutil_int_array_remove_range()

---
 src/gutil_intarray.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index cd6554c..9b039f5 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -301,12 +301,9 @@ gutil_int_array_remove_range(
     guint count)
 {
     if (array && pos < array->count && count) {
-        guint end = pos + count;
+        const guint max_count = array->count - pos;
 
-        if (end > array->count) {
-            end = array->count;
-        }
-        g_array_remove_range((GArray*)array, pos, end - pos);
+        g_array_remove_range((GArray*)array, pos, MIN(count, max_count));
     }
     return array;
 }
-- 
2.43.0


From cf89631c3e982204fb436bfa7efe49dfb05112fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 09/22] fix: Integer overflow and ref leak in
 gutil_ints_new_from_ints()

---
 src/gutil_ints.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index 57c0964..109310e 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -111,13 +111,13 @@ gutil_ints_new_from_ints(
     guint count)
 {
     if (ints && offset < ints->count) {
-        guint end = offset + count;
+        const guint max_count = ints->count - offset;
 
-        if (end > ints->count) {
-            end = ints->count;
-        }
-        return gutil_ints_new_with_free_func(ints->data + offset, end - offset,
-            gutil_ints_unref1, gutil_ints_ref(ints));
+        /* Don't add a reference if the resulting array is empty */
+        return !count ? NULL :
+            gutil_ints_new_with_free_func(ints->data + offset,
+                MIN(count, max_count), gutil_ints_unref1,
+                gutil_ints_ref(ints));
     }
     return NULL;
 }
-- 
2.43.0


From 58e8701e4351c9ed5446055edc46f74c6b229777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 10/22] fix: Crash in gutil_ints_unref_to_data() with static
 data

Also, the data can only be handed over to the caller if that's what
the free function is going to be called for.
---
 src/gutil_ints.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index 109310e..c741934 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -159,12 +159,14 @@ gutil_ints_unref_to_data(
             *count = ints->count;
         }
         if (g_atomic_int_dec_and_test(&ints->ref_count)) {
-            if (ints->free_func == g_free) {
+            if (ints->free_func == g_free && ints->user_data == ints->data) {
                 /* We can allow the caller to free the data */
                 result = (int*)ints->data;
             } else {
                 result = gutil_memdup(ints->data, ints->count * sizeof(int));
-                ints->free_func(ints->user_data);
+                if (ints->free_func) {
+                    ints->free_func(ints->user_data);
+                }
             }
             gutil_slice_free(ints);
         } else {
-- 
2.43.0


From 21b3d8a68ffd5256e856ac43acdb61281f3d048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 11/22] fix: Integer overflow in history median calculation

---
 src/gutil_history.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index 5bb118f..1610566 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -195,7 +195,7 @@ gutil_int_history_median_at(
             t1 = h->entry[pos].time;
             v1 = h->entry[pos].value;
             dt += t1 - t;
-            area += (t1 - t)*(v + v1)/2;
+            area += (t1 - t)*((gint64)v + v1)/2;
             t = t1;
             v = v1;
         }
-- 
2.43.0


From 2462c900c3c4805784d302d4da3b7f3b33e5705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 12/22] fix: Wrong assert in gutil_int_history_size()

---
 src/gutil_history.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index 1610566..d15cbb7 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -139,7 +139,7 @@ gutil_int_history_size(
             if (h->first > h->last) {
                 return (h->max_size + h->last - h->first + 1);
             } else {
-                GASSERT(h->last > h->first);
+                GASSERT(h->last >= h->first);
                 return (h->last - h->first + 1);
             }
         }
-- 
2.43.0


From c72ae53cd16d42effdeb896cb4708ab84a158208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 13/22] fix: Don't parse blank string as a number

---
 src/gutil_misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index 241edd5..09f8bbf 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -312,7 +312,7 @@ gutil_parse_int64(
 
         errno = 0;
         ll = g_ascii_strtoll(stripped, &end, base);
-        if (end && !*end &&
+        if (end && end != stripped && !*end &&
             !((ll == G_MAXINT64 || ll == G_MININT64) && errno == ERANGE) &&
             !(ll == 0 && errno == EINVAL)) {
             if (value) {
@@ -347,7 +347,7 @@ gutil_parse_uint64(
 
             errno = 0;
             ull = g_ascii_strtoull(stripped, &end, base);
-            if (end && !*end &&
+            if (end && end != stripped && !*end &&
                 !(ull == G_MAXUINT64 && errno == ERANGE) &&
                 !(ull == 0 && errno == EINVAL)) {
                 if (value) {
-- 
2.43.0


From 4ee3b5ce690352353d1e5efcea0e8c67ca3311b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 14/22] fix: Reject negative numbers in gutil_parse_uint64()

g_ascii_isspace() and strtoull() have different opinions about which
characters are spaces, e.g. "\v-1" was accepted.
---
 src/gutil_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index 09f8bbf..fc3c105 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -341,7 +341,7 @@ gutil_parse_uint64(
         char* tmp = NULL;
         const char* stripped = gutil_strstrip(str, &tmp);
 
-        if (*stripped != '-') {
+        if (!strchr(stripped, '-')) {
             char* end = NULL;
             guint64 ull;
 
-- 
2.43.0


From e022551597741141dfd186d51264d9a5f11f02bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 15/22] fix: Data truncation in gutil_data_copy()

---
 src/gutil_misc.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index fc3c105..585020d 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -410,10 +410,11 @@ gutil_data_from_bytes(
     return data;
 }
 
+static
 GUtilData*
-gutil_data_new(
+gutil_data_alloc(
     const void* bytes,
-    guint len) /* Since 1.0.72 */
+    gsize len)
 {
     /*
      * The whole thing is allocated from a single memory block and
@@ -434,6 +435,14 @@ gutil_data_new(
     return data;
 }
 
+GUtilData*
+gutil_data_new(
+    const void* bytes,
+    guint len) /* Since 1.0.72 */
+{
+    return gutil_data_alloc(bytes, len);
+}
+
 GUtilData*
 gutil_data_copy(
     const GUtilData* data) /* Since 1.0.72 */
@@ -442,7 +451,7 @@ gutil_data_copy(
      * The whole thing is allocated from a single memory block and
      * has to be freed with a single g_free()
      */
-    return data ? gutil_data_new(data->bytes, data->size) : NULL;
+    return data ? gutil_data_alloc(data->bytes, data->size) : NULL;
 }
 
 GVariant*
-- 
2.43.0


From f66e7ead47731af8677531a31d187ded45086f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 16/22] fix: Infinite loop when dumping large memory blocks

---
 src/gutil_log.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 019f0fb..dd68606 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -514,10 +514,12 @@ gutil_log_dump2(
     if (!prefix) prefix = "";
     while (size > 0) {
         char buf[GUTIL_HEXDUMP_BUFSIZE];
-        const guint consumed = gutil_hexdump(buf, ptr + off, size);
+        const guint consumed = gutil_hexdump(buf, ptr,
+            MIN(size, GUTIL_HEXDUMP_MAXBYTES));
 
         gutil_log(module, level, "%s%04X: %s", prefix, off, buf);
         size -= consumed;
+        ptr += consumed;
         off += consumed;
     }
 }
-- 
2.43.0


From 43e75cc53a68b93abefdb9d1ca4210a20e669244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 17/22] fix: Disabled default log module was not quite disabled

Make it consistent with gutil_log_enabled()
---
 src/gutil_log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index dd68606..58270ff 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -437,6 +437,7 @@ gutil_logv(
     va_list va)
 {
     if (level != GLOG_LEVEL_NONE && gutil_log_func2) {
+        if (!module) module = &gutil_log_default;
         gutil_logv_r(module, module, level, format, va);
     }
 }
-- 
2.43.0


From c9e5b92a6fde571f475042f0e9e036f5152a2ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 18/22] fix: Unbalanced parentheses in version macros

---
 include/gutil_version.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/gutil_version.h b/include/gutil_version.h
index 8d47af5..80d10fc 100644
--- a/include/gutil_version.h
+++ b/include/gutil_version.h
@@ -78,11 +78,11 @@ extern const guint gutil_version_micro; /* GUTIL_VERSION_MICRO */
 #define GUTIL_VERSION_1_0_72 GUTIL_VERSION_(1,0,72)
 #define GUTIL_VERSION_1_0_73 GUTIL_VERSION_(1,0,73)
 #define GUTIL_VERSION_1_0_74 GUTIL_VERSION_(1,0,74)
-#define GUTIL_VERSION_1_0_75 GUTIL_VERSION_(1,0,75))
-#define GUTIL_VERSION_1_0_76 GUTIL_VERSION_(1,0,76))
-#define GUTIL_VERSION_1_0_77 GUTIL_VERSION_(1,0,77))
-#define GUTIL_VERSION_1_0_78 GUTIL_VERSION_(1,0,78))
-#define GUTIL_VERSION_1_0_79 GUTIL_VERSION_(1,0,79))
+#define GUTIL_VERSION_1_0_75 GUTIL_VERSION_(1,0,75)
+#define GUTIL_VERSION_1_0_76 GUTIL_VERSION_(1,0,76)
+#define GUTIL_VERSION_1_0_77 GUTIL_VERSION_(1,0,77)
+#define GUTIL_VERSION_1_0_78 GUTIL_VERSION_(1,0,78)
+#define GUTIL_VERSION_1_0_79 GUTIL_VERSION_(1,0,79)
 
 G_END_DECLS
 
-- 
2.43.0


From fb259af5fabce79c0f108f66358e90d71deaf83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:29 +0000
Subject: [PATCH 19/22] fix: Undefined shift when decoding 9-byte negative
 numbers

Extending the sign of a negative number encoded in 9 bytes evaluated
(1 << 63) - 1 in 64-bit signed arithmetic, which overflows.
---
 src/gutil_datapack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index c3bf00c..b675b8c 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -159,8 +159,8 @@ gutil_signed_mbn_decode(
                     if ((nbits + 7) < maxbits) {
                         /* Extend the sign bit */
                         if (out) {
-                            *out = value | ~((G_GINT64_CONSTANT(1) <<
-                                (nbits + 7)) - 1);
+                            *out = value | ((~G_GUINT64_CONSTANT(0)) <<
+                                (nbits + 7));
                         }
                         in->ptr += off;
                         return TRUE;
-- 
2.43.0


From f992c5d22f64459ecbfa29b788d2950a53793969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:43 +0000
Subject: [PATCH 20/22] fix: idlequeue: survive callbacks dropping the last
 reference to the queue

---
 src/gutil_idlequeue.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gutil_idlequeue.c b/src/gutil_idlequeue.c
index f841f8b..1215ec4 100644
--- a/src/gutil_idlequeue.c
+++ b/src/gutil_idlequeue.c
@@ -77,6 +77,10 @@ gutil_idle_queue_run(
     GUtilIdleQueue* q = data;
     GUtilIdleQueueItem* item;
     GUtilIdleQueueItem* done = NULL;
+    gboolean more;
+
+    /* The callbacks may drop the last reference to the queue */
+    gutil_idle_queue_ref(q);
 
     /*
      * Mark all currently existing items as as completed. Callbacks
@@ -115,11 +119,13 @@ gutil_idle_queue_run(
 
     if (q->first) {
         /* New callbacks have been added */
-        return G_SOURCE_CONTINUE;
+        more = G_SOURCE_CONTINUE;
     } else {
         q->source_id = 0;
-        return G_SOURCE_REMOVE;
+        more = G_SOURCE_REMOVE;
     }
+    gutil_idle_queue_unref(q);
+    return more;
 }
 
 GUtilIdleQueue*
-- 
2.43.0


From 4c62a2efe69d874eba4bed58d1595d29fb1df564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 21/22] fix: idlepool: destroy the idle source of the right
 main context

---
 src/gutil_idlepool.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/gutil_idlepool.c b/src/gutil_idlepool.c
index f279862..03db8da 100644
--- a/src/gutil_idlepool.c
+++ b/src/gutil_idlepool.c
@@ -50,7 +50,7 @@ struct gutil_idle_pool_item {
 
 struct gutil_idle_pool {
     gint ref_count;
-    guint idle_id;
+    GSource* idle;
     GThread* thread;
     GUtilIdlePoolItem* first;
     GUtilIdlePoolItem* last;
@@ -173,11 +173,17 @@ gutil_idle_pool_drain(
         }
         g_slice_free_chain(GUtilIdlePoolItem, items, next);
     }
-    if (self->idle_id) {
-        const guint id = self->idle_id;
-
-        self->idle_id = 0;
-        g_source_remove(id);
+    if (self->idle) {
+        GSource* src = self->idle;
+
+        /*
+         * The source isn't necessarily attached to the default context,
+         * so it can't be looked up by id. Destroying the source may release
+         * the last reference to the pool.
+         */
+        self->idle = NULL;
+        g_source_destroy(src);
+        g_source_unref(src);
     }
 }
 
@@ -188,8 +194,6 @@ gutil_idle_pool_idle(
 {
     GUtilIdlePool* self = user_data;
 
-    self->idle_id = 0;
-
     /*
      * gutil_idle_pool_idle may be invoked on a wrong (main) thread if
      * something is added to a thread specific pool (e.g. the one created
@@ -240,16 +244,19 @@ gutil_idle_pool_add(
             self->first = item;
         }
         self->last = item;
-        if (!self->idle_id) {
+        if (!self->idle || g_source_is_destroyed(self->idle)) {
             GSource* src = g_idle_source_new();
             GMainContext* context = g_main_context_get_thread_default();
 
             g_source_set_priority(src, G_PRIORITY_DEFAULT_IDLE);
             g_source_set_callback(src, gutil_idle_pool_idle,
                 gutil_idle_pool_ref(self), gutil_idle_pool_unref_1);
-            self->idle_id = g_source_attach(src, context ? context :
+            g_source_attach(src, context ? context :
                 g_main_context_default());
-            g_source_unref(src);
+            if (self->idle) {
+                g_source_unref(self->idle);
+            }
+            self->idle = src;
         }
     }
     return pointer;
-- 
2.43.0


From 55e59ac6e922a1d31872d7364173c4f3eff57e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:30 +0000
Subject: [PATCH 22/22] fix: log timestamps which don't fit into the buffer
 were printed uninitialized

---
 src/gutil_log.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 58270ff..1bb76a5 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -181,7 +181,10 @@ gutil_log_stdio(
 #endif
 
         time(&now);
-        strftime(t, sizeof(t), gutil_log_ftime, localtime(&now));
+        if (!strftime(t, sizeof(t), gutil_log_ftime, localtime(&now))) {
+            /* It didn't fit, the contents of the buffer is undefined */
+            t[0] = 0;
+        }
 #undef localtime
     } else {
         t[0] = 0;
-- 
2.43.0

