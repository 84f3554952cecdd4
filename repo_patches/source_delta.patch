From 8e7b843dae3f937c47a5e0370dade169585a40ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 01/32] fix: hex_decode: Refuse letters which are not
 hexadecimal digits

---
 encode/hex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encode/hex.c b/encode/hex.c
index 7a3e6db..45213eb 100644
--- a/encode/hex.c
+++ b/encode/hex.c
@@ -87,9 +87,9 @@ hex_decode(const char* in_buf, unsigned in_size, void* out_buf, unsigned out_siz
     while(in < in_end  &&  out < out_end) {
         if('0' <= *in  &&  *in <= '9')
             *out = (*in - '0') << 4;
-        else if('a' <= *in  &&  *in <= 'z')
+        else if('a' <= *in  &&  *in <= 'f')
             *out = (*in - 'a' + 10) << 4;
-        else if('A' <= *in  &&  *in <= 'Z')
+        else if('A' <= *in  &&  *in <= 'F')
             *out = (*in - 'A' + 10) << 4;
         else
             return -1;
@@ -97,9 +97,9 @@ hex_decode(const char* in_buf, unsigned in_size, void* out_buf, unsigned out_siz
 
         if('0' <= *in  &&  *in <= '9')
             *out |= (*in - '0');
-        else if('a' <= *in  &&  *in <= 'z')
+        else if('a' <= *in  &&  *in <= 'f')
             *out |= (*in - 'a' + 10);
-        else if('A' <= *in  &&  *in <= 'Z')
+        else if('A' <= *in  &&  *in <= 'F')
             *out |= (*in - 'A' + 10);
         else
             return -1;
-- 
2.43.0


From b8c8992e42db305fae6546fe9a1e9d2ce484f017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 02/32] fix: hex_encode: Avoid overflow when computing size of
 the output

---
 encode/hex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encode/hex.c b/encode/hex.c
index 45213eb..63dd78d 100644
--- a/encode/hex.c
+++ b/encode/hex.c
@@ -25,6 +25,8 @@
 
 #include "hex.h"
 
+#include <limits.h>
+
 
 int
 hex_encode(const void* in_buf, unsigned in_size,
@@ -39,6 +41,10 @@ hex_encode(const void* in_buf, unsigned in_size,
     char* out;
     char* out_end;
 
+    /* Refuse input which would make the output size not representable as int. */
+    if(in_size > (INT_MAX - 1) / 2)
+        return -1;
+
     if(out_buf == NULL)
         return in_size * 2 + 1;
 
-- 
2.43.0


From 6723e14abcacceb5c8447114b5c81a16c972e8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 03/32] fix: base64_decode: Do not index the table with a
 negative value

---
 encode/base64.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/encode/base64.c b/encode/base64.c
index ac5407a..31976be 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -153,13 +153,13 @@ base64_decode(const char* in_buf, unsigned in_size,
     /* Build table. */
     memset(table, 0xff, 256);
     for(i = 0; i < 62; i++)
-        table[(int) base64_table_core[i]] = i;
-    table[(int) options->ch62] = 62;
-    table[(int) options->ch63] = 63;
+        table[(uint8_t) base64_table_core[i]] = i;
+    table[(uint8_t) options->ch62] = 62;
+    table[(uint8_t) options->ch63] = 63;
 
     /* Validate the input. */
     for(in_off = 0; in_off < in_size; in_off++) {
-        if(table[(int) in[in_off]] == 0xff)
+        if(table[(uint8_t) in[in_off]] == 0xff)
             return -EINVAL;
     }
 
@@ -175,13 +175,13 @@ base64_decode(const char* in_buf, unsigned in_size,
             break;
 
         case 2:
-            if(table[(int) in[in_size-1]] & 0x4f)
+            if(table[(uint8_t) in[in_size-1]] & 0x4f)
                 return -EINVAL;
             out_size_needed += 1;
             break;
 
         case 3:
-            if(table[(int) in[in_size-1]] & 0xc3)
+            if(table[(uint8_t) in[in_size-1]] & 0xc3)
                 return -EINVAL;
             out_size_needed += 2;
             break;
@@ -197,10 +197,10 @@ base64_decode(const char* in_buf, unsigned in_size,
     /* Main loop. */
     in_off = 0;
     while(in_off + 4 <= in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
-        v |= (unsigned)table[(int) in[in_off++]] << 6;
-        v |= (unsigned)table[(int) in[in_off++]];
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 6;
+        v |= (unsigned)table[(uint8_t) in[in_off++]];
 
         out[out_off++] = (v >> 16) & 0xff;
         out[out_off++] = (v >>  8) & 0xff;
@@ -208,13 +208,13 @@ base64_decode(const char* in_buf, unsigned in_size,
     }
 
     if(in_off + 2 == in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
         out[out_off++] = (v >> 16) & 0xff;
     } else if(in_off + 3 == in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
-        v |= (unsigned)table[(int) in[in_off++]] << 6;
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 6;
         out[out_off++] = (v >> 16) & 0xff;
         out[out_off++] = (v >>  8) & 0xff;
     }
-- 
2.43.0


From 4d4ce1ed61d7fa8ba923a46a43d57bb75fc99611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 04/32] fix: base64_encode: Avoid overflow when computing size
 of the output

---
 encode/base64.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encode/base64.c b/encode/base64.c
index 31976be..6fcd02b 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -26,6 +26,7 @@
 #include "base64.h"
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <string.h>
 
@@ -52,6 +53,10 @@ base64_encode(const void* in_buf, unsigned in_size,
     if(options == NULL)
         options = &base64_def_options;
 
+    /* Refuse input which would make the output size not representable as int. */
+    if(in_size > (INT_MAX - 1) / 4 * 3)
+        return -EINVAL;
+
     /* Every three bytes are encoded into 4 characters of output.
      * Finally add +1 for zero terminator. */
     out_size_needed = ((in_size + 2) / 3) * 4;
-- 
2.43.0


From d81919dabab534c02ce7830caf66c80a668798f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 05/32] fix: base64_decode: Refuse input with output size not
 fitting into int

---
 encode/base64.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encode/base64.c b/encode/base64.c
index 6fcd02b..93cdf98 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -192,6 +192,10 @@ base64_decode(const char* in_buf, unsigned in_size,
             break;
     }
 
+    /* Refuse input which would make the output size not representable as int. */
+    if(out_size_needed > INT_MAX)
+        return -EINVAL;
+
     if(out_buf == NULL)
         return out_size_needed;
 
-- 
2.43.0


From 1e47182067a36bf6eeb83f6a2ca4410a3df16377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 06/32] fix: crc32: Handle inputs larger than INT_MAX

---
 hash/crc32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/crc32.c b/hash/crc32.c
index 09398c7..7738aff 100644
--- a/hash/crc32.c
+++ b/hash/crc32.c
@@ -122,7 +122,7 @@ crc32(const void* data, size_t n)
 {
     const uint8_t* bytes = (const uint8_t*) data;
     uint32_t crcreg = CRC32_INITXOR;
-    int i;
+    size_t i;
 
     for(i = 0; i < n; i++)
         crcreg = (crcreg >> 8) ^ crc32_table[((crcreg ^ bytes[i]) & 0xffU)];
-- 
2.43.0


From 7e8e9a0a9927bd554f33b16c4ea3ec46ab09c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 07/32] fix: value_array_remove_range: Avoid overflow in the
 range check

---
 data/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 36ad911..664149d 100644
--- a/data/value.c
+++ b/data/value.c
@@ -846,7 +846,7 @@ value_array_remove_range(VALUE* v, size_t index, size_t count)
     ARRAY* a = value_array_payload(v);
     size_t i;
 
-    if(a == NULL  ||  index + count > a->size)
+    if(a == NULL  ||  index > a->size  ||  count > a->size - index)
         return -1;
 
     for(i = index; i < index + count; i++)
-- 
2.43.0


From 360a8abfddb834539a4de218faa8f78e95d3737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 08/32] fix: value_dict_add_: Never return a pre-existing value

---
 data/value.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 664149d..6449d6b 100644
--- a/data/value.c
+++ b/data/value.c
@@ -1143,10 +1143,13 @@ value_dict_fix_after_insert(DICT* d, RBTREE** path, int path_len)
 VALUE*
 value_dict_add_(VALUE* v, const char* key, size_t key_len)
 {
+    size_t old_size = value_dict_size(v);
     VALUE* res;
 
+    /* We cannot rely on value_is_new() here: Even a pre-existing value may
+     * still have the flag set. */
     res = value_dict_get_or_add_(v, key, key_len);
-    return (value_is_new(res) ? res : NULL);
+    return (value_dict_size(v) != old_size ? res : NULL);
 }
 
 VALUE*
-- 
2.43.0


From 1a7bd96b5c145b28880b8bc82b64f28251a85a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 09/32] fix: value_dict_add: Handle NULL key as the sibling
 functions do

---
 data/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 6449d6b..16e99f3 100644
--- a/data/value.c
+++ b/data/value.c
@@ -1155,7 +1155,7 @@ value_dict_add_(VALUE* v, const char* key, size_t key_len)
 VALUE*
 value_dict_add(VALUE* v, const char* key)
 {
-    return value_dict_add_(v, key, strlen(key));
+    return value_dict_add_(v, key, (key != NULL) ? strlen(key) : 0);
 }
 
 VALUE*
-- 
2.43.0


From a61da4c380bd878fb86913b3fb7298a2785c9388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 10/32] fix: value_string_length: Fix length of strings longer
 than 2 GB

---
 data/value.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index 16e99f3..d4d0d74 100644
--- a/data/value.c
+++ b/data/value.c
@@ -707,11 +707,11 @@ value_string_length(const VALUE* v)
 
     payload = value_payload((VALUE*) v);
     while(payload[off] & 0x80) {
-        len |= (payload[off] & 0x7f) << shift;
+        len |= (size_t)(payload[off] & 0x7f) << shift;
         shift += 7;
         off++;
     }
-    len |= payload[off] << shift;
+    len |= (size_t) payload[off] << shift;
 
     return len;
 }
-- 
2.43.0


From fecf46fa447bd9a7795743720582a4dec3434adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 11/32] fix: value_path: Refuse array index which overflows
 size_t

---
 data/value.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index d4d0d74..1156c2e 100644
--- a/data/value.c
+++ b/data/value.c
@@ -265,7 +265,11 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
             }
 
             while('0' <= *token_beg  &&  *token_beg <= '9') {
-                index = index * 10 + (*token_beg - '0');
+                size_t digit = *token_beg - '0';
+
+                if(index > (SIZE_MAX - digit) / 10)
+                    return NULL;
+                index = index * 10 + digit;
                 token_beg++;
             }
             if(*token_beg != ']')
-- 
2.43.0


From 8584db5b7734d4f8b8d555ff4c0bf11017cecb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 12/32] fix: value_init_string_: Treat NULL as an empty string
 as documented

---
 data/value.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 1156c2e..69d8148 100644
--- a/data/value.c
+++ b/data/value.c
@@ -420,6 +420,9 @@ value_init_string_(VALUE* v, const char* str, size_t len)
     if(v == NULL)
         return -1;
 
+    if(str == NULL)
+        len = 0;
+
     tmplen = len;
     off = 0;
     while(tmplen >= 128) {
@@ -440,7 +443,8 @@ value_init_string_(VALUE* v, const char* str, size_t len)
     }
     payload[off++] = tmplen & 0x7f;
 
-    memcpy(payload + off, str, len);
+    if(len > 0)
+        memcpy(payload + off, str, len);
     payload[off + len] = '\0';
     return 0;
 }
-- 
2.43.0


From d7eeeb08a2c7f52b9f95e096d0e1180652d43f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 13/32] fix: value: Fix rounding when adding of 0.5 is not
 exact

---
 data/value.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index 69d8148..2820e22 100644
--- a/data/value.c
+++ b/data/value.c
@@ -92,8 +92,12 @@ struct DICT_tag {
 /* We don't want to include <math.h> just because of roundf() and round().
  * Especially as on some systems it requires explicit linking with math
  * library (-lm). */
-#define ROUNDF(inttype, x)   ((inttype)((x) >= 0.0f ? (x) + 0.5f : (x) - 0.5f))
-#define ROUNDD(inttype, x)   ((inttype)((x) >= 0.0 ? (x) + 0.5 : (x) - 0.5))
+#define ROUNDF(inttype, x)   ((inttype)((inttype)(x) +                          \
+                                ((x) - (float)(inttype)(x) >= 0.5f ? 1 :        \
+                                ((x) - (float)(inttype)(x) <= -0.5f ? -1 : 0))))
+#define ROUNDD(inttype, x)   ((inttype)((inttype)(x) +                          \
+                                ((x) - (double)(inttype)(x) >= 0.5 ? 1 :        \
+                                ((x) - (double)(inttype)(x) <= -0.5 ? -1 : 0))))
 
 
 static void*
-- 
2.43.0


From 5601f06f738e84adba35ab547fe41056d69662a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 14/32] fix: buffer: Avoid overflow when computing new buffer
 size

---
 data/buffer.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/data/buffer.c b/data/buffer.c
index 548d355..387b54c 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -33,7 +33,10 @@ buffer_good_alloc_size(size_t requested_alloc)
 {
     size_t good_alloc;
 
-    if(requested_alloc <= 256) {
+    if(requested_alloc > SIZE_MAX / 2) {
+        /* Avoid overflow below. */
+        good_alloc = requested_alloc;
+    } else if(requested_alloc <= 256) {
         good_alloc = 16;
         while(good_alloc < requested_alloc)
             good_alloc *= 2;
@@ -86,9 +89,12 @@ buffer_reserve(BUFFER* buf, size_t n)
 {
     size_t alloc;
 
-    if(buf->size + n < buf->alloc)
+    if(n < buf->alloc - buf->size)
         return 0;
 
+    if(n > SIZE_MAX - buf->size)
+        return -1;
+
     alloc = buf->size + n;
     alloc = buffer_good_alloc_size(alloc);
 
@@ -108,7 +114,7 @@ buffer_shrink(BUFFER* buf)
 void*
 buffer_insert_raw(BUFFER* buf, size_t off, size_t n)
 {
-    if(buf->size + n > buf->alloc) {
+    if(n > buf->alloc - buf->size) {
         if(buffer_reserve(buf, n) != 0)
             return NULL;
     }
-- 
2.43.0


From 5ba950ba43047b506be6ef624e699fcd83c2971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 15/32] fix: buffer_insert: Inserting zero bytes into an empty
 buffer is not an error

---
 data/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/buffer.c b/data/buffer.c
index 387b54c..f5ffa8a 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -114,7 +114,7 @@ buffer_shrink(BUFFER* buf)
 void*
 buffer_insert_raw(BUFFER* buf, size_t off, size_t n)
 {
-    if(n > buf->alloc - buf->size) {
+    if(buf->data == NULL  ||  n > buf->alloc - buf->size) {
         if(buffer_reserve(buf, n) != 0)
             return NULL;
     }
-- 
2.43.0


From 6c1911983cf43af89cad75c00018a9f19bd02777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 16/32] fix: buffer_remove: Handle ranges reaching beyond end
 of the buffer

---
 data/buffer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/data/buffer.c b/data/buffer.c
index f5ffa8a..ec2018e 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -142,7 +142,10 @@ buffer_insert(BUFFER* buf, size_t off, const void* data, size_t n)
 void
 buffer_remove(BUFFER* buf, size_t off, size_t n)
 {
-    if(off + n < buf->size) {
+    if(off > buf->size)
+        off = buf->size;
+
+    if(n < buf->size - off) {
         memmove((uint8_t*)buf->data + off, (uint8_t*)buf->data + off + n, buf->size - off - n);
         buf->size -= n;
     } else {
-- 
2.43.0


From e1b65d0ceecb39fe40cc112bf2d17f204c063ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 17/32] fix: array_ptr_insert: Fix type of the array parameter

---
 data/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/buffer.h b/data/buffer.h
index a15d99c..43d942d 100644
--- a/data/buffer.h
+++ b/data/buffer.h
@@ -502,7 +502,7 @@ BUFFER_INLINE__ int array_uint64_insert(ARRAY_uint64* array, size_t index, uint6
                 *addr = u64;
             return (addr != NULL) ? 0 : -1;
         }
-BUFFER_INLINE__ int array_ptr_insert(ARRAY_uint64* array, size_t index, void* ptr)
+BUFFER_INLINE__ int array_ptr_insert(ARRAY_ptr* array, size_t index, void* ptr)
         {
             void** addr;
             addr = (void**) buffer_insert_raw(&array->buf, index * sizeof(void*), sizeof(void*));
-- 
2.43.0


From ead3fe0bf364a63bd1ab3564bb4f23e22f079b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 18/32] fix: memchunk_alloc: Avoid overflow in size
 computations

---
 mem/memchunk.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mem/memchunk.c b/mem/memchunk.c
index 7682ed3..91f2965 100644
--- a/mem/memchunk.c
+++ b/mem/memchunk.c
@@ -25,6 +25,8 @@
 
 #include "memchunk.h"
 
+#include <stdint.h>
+
 
 struct MEMCHUNK_BLOCK {
     struct MEMCHUNK_BLOCK* next;
@@ -48,8 +50,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
     void* ptr;
 
     /* Not enough free space in the head block? */
-    if(chunk->head == NULL  ||  chunk->free_off + size > chunk->block_size) {
-        if(4 * size > chunk->block_size) {
+    if(chunk->head == NULL  ||  size > chunk->block_size - chunk->free_off) {
+        if(size > chunk->block_size / 4) {
             /* A big allocation.
              *
              * If application asks for more memory than the block size, we
@@ -63,6 +65,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
              * future smaller requests. */
             MEMCHUNK_BLOCK* block;
 
+            if(size > SIZE_MAX - sizeof(MEMCHUNK_BLOCK))
+                return NULL;
             block = malloc(sizeof(MEMCHUNK_BLOCK) + size);
             if(block == NULL)
                 return NULL;
@@ -81,6 +85,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
             /* Allocate a standard new block. */
             MEMCHUNK_BLOCK* block;
 
+            if(chunk->block_size > SIZE_MAX - sizeof(MEMCHUNK_BLOCK))
+                return NULL;
             block = malloc(sizeof(MEMCHUNK_BLOCK) + chunk->block_size);
             if(block == NULL)
                 return NULL;
-- 
2.43.0


From b38e904bc94954b9e0953863281cf80eed3a3988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 19/32] fix: cmdline: Ignore shortname of compiler-like options
 in option groups

---
 misc/cmdline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/cmdline.c b/misc/cmdline.c
index bf518b7..7dd2c61 100644
--- a/misc/cmdline.c
+++ b/misc/cmdline.c
@@ -49,7 +49,7 @@ cmdline_handle_short_opt_group(const CMDLINE_OPTION* options, const char* arggro
 
     for(i = 0; arggroup[i] != '\0'; i++) {
         for(opt = options; opt->id != 0; opt++) {
-            if(arggroup[i] == opt->shortname)
+            if(!(opt->flags & CMDLINE_OPTFLAG_COMPILERLIKE)  &&  arggroup[i] == opt->shortname)
                 break;
         }
 
-- 
2.43.0


From 85e9023ae6057798b918e70197054aa11db96147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 20/32] fix: memstream_create: Return a HRESULT failure code
 when out of memory

---
 win32/memstream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 98acb22..5aca580 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -289,7 +289,7 @@ memstream_create(const BYTE* buffer, ULONG size, IStream** p_stream)
     s = (MEMSTREAM*) malloc(sizeof(MEMSTREAM));
     if(s == NULL) {
         *p_stream = NULL;
-        return ERROR_OUTOFMEMORY;
+        return E_OUTOFMEMORY;
     }
 
     s->buffer = buffer;
-- 
2.43.0


From 5365db37ed9933d2d90b7923b18ef616f67c4aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 21/32] fix: memstream_CopyTo: Avoid overflow in the range
 check

---
 win32/memstream.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 5aca580..92e4754 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -180,8 +180,10 @@ memstream_CopyTo(IStream* self, IStream* other, ULARGE_INTEGER n,
     ULONG written;
     HRESULT hr;
 
-    if(s->pos + n.QuadPart >= s->size)
-        n.QuadPart = (s->pos < s->size ? s->size - s->pos : 0);
+    if(s->pos >= s->size)
+        n.QuadPart = 0;
+    else if(n.QuadPart > s->size - s->pos)
+        n.QuadPart = s->size - s->pos;
 
     hr = IStream_Write(other, s->buffer + s->pos, (ULONG) n.QuadPart, &written);
 
-- 
2.43.0


From 7dc879ba0d6fad119ee511ea3bd2a41a08dc1ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 22/32] fix: memstream_QueryInterface: IDispatch is not
 implemented

---
 win32/memstream.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 92e4754..f5dc5d0 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -52,7 +52,6 @@ static HRESULT STDMETHODCALLTYPE
 memstream_QueryInterface(IStream* self, REFIID riid, void** obj)
 {
     if(IsEqualGUID(riid, &IID_IUnknown)  ||
-       IsEqualGUID(riid, &IID_IDispatch)  ||
        IsEqualGUID(riid, &IID_ISequentialStream)  ||
        IsEqualGUID(riid, &IID_IStream))
     {
-- 
2.43.0


From fc390252438395eee5dcef4b485516c9e5f3a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 23/32] fix: htable: Avoid int overflow in sizes of large
 planes

---
 data/htable.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/htable.c b/data/htable.c
index 038fa17..f16f6aa 100644
--- a/data/htable.c
+++ b/data/htable.c
@@ -28,8 +28,8 @@
 #include <string.h>
 
 
-#define HTABLE_PLANE_SIZE(plane_index)  (59 << (plane_index))
-#define HTABLE_SLOT_COUNT(htable)       (HTABLE_PLANE_SIZE(0) * ((1 << (htable)->n_planes) - 1))
+#define HTABLE_PLANE_SIZE(plane_index)  ((size_t) 59 << (plane_index))
+#define HTABLE_SLOT_COUNT(htable)       (HTABLE_PLANE_SIZE(0) * (((size_t) 1 << (htable)->n_planes) - 1))
 #define HTABLE_TOO_FULL(htable)         ((htable)->n >= HTABLE_SLOT_COUNT(htable))
 #define HTABLE_TOO_EMPTY(htable)        ((htable)->n < (HTABLE_SLOT_COUNT(htable) / 4))
 
-- 
2.43.0


From e9e7d7bb17596c075dd9c7fade9596f51fef002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:28 +0000
Subject: [PATCH 24/32] fix: value_is_compatible: Do not convert out-of-range
 floating point values

---
 data/value.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/data/value.c b/data/value.c
index 2820e22..7b2753a 100644
--- a/data/value.c
+++ b/data/value.c
@@ -207,19 +207,21 @@ value_is_compatible(const VALUE* v, VALUE_TYPE type)
             break;
 
         case VALUE_FLOAT:
+            /* Check the range before the conversion: Converting a value not
+             * representable in the integer type is an undefined behavior. */
             return (type == VALUE_DOUBLE)  ||
-                   (type == VALUE_INT32 && value_float(v) == (float)value_int32(v))  ||
-                   (type == VALUE_UINT32 && value_float(v) == (float)value_uint32(v))  ||
-                   (type == VALUE_INT64 && value_float(v) == (float)value_int64(v))  ||
-                   (type == VALUE_UINT64 && value_float(v) == (float)value_uint64(v));
+                   (type == VALUE_INT32 && value_float(v) >= -2147483648.0f && value_float(v) < 2147483648.0f && value_float(v) == (float)value_int32(v))  ||
+                   (type == VALUE_UINT32 && value_float(v) >= 0.0f && value_float(v) < 4294967296.0f && value_float(v) == (float)value_uint32(v))  ||
+                   (type == VALUE_INT64 && value_float(v) >= -9223372036854775808.0f && value_float(v) < 9223372036854775808.0f && value_float(v) == (float)value_int64(v))  ||
+                   (type == VALUE_UINT64 && value_float(v) >= 0.0f && value_float(v) < 18446744073709551616.0f && value_float(v) == (float)value_uint64(v));
             break;
 
         case VALUE_DOUBLE:
             return (type == VALUE_FLOAT)  ||
-                   (type == VALUE_INT32 && value_double(v) == (double)value_int32(v))  ||
-                   (type == VALUE_UINT32 && value_double(v) == (double)value_uint32(v))  ||
-                   (type == VALUE_INT64 && value_double(v) == (double)value_int64(v))  ||
-                   (type == VALUE_UINT64 && value_double(v) == (double)value_uint64(v));
+                   (type == VALUE_INT32 && value_double(v) >= -2147483648.0 && value_double(v) < 2147483648.0 && value_double(v) == (double)value_int32(v))  ||
+                   (type == VALUE_UINT32 && value_double(v) >= 0.0 && value_double(v) < 4294967296.0 && value_double(v) == (double)value_uint32(v))  ||
+                   (type == VALUE_INT64 && value_double(v) >= -9223372036854775808.0 && value_double(v) < 9223372036854775808.0 && value_double(v) == (double)value_int64(v))  ||
+                   (type == VALUE_UINT64 && value_double(v) >= 0.0 && value_double(v) < 18446744073709551616.0 && value_double(v) == (double)value_uint64(v));
             break;
 
         default:
-- 
2.43.0


From 000dc294f605140ea7a2638c7062b15ac65cc682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:28 +0000
Subject: [PATCH 25/32] fix: FREEA: Do not break when the argument is a
 variable named 'x'

---
 mem/malloca.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index b9fa607..f132c32 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -93,9 +93,9 @@ malloca_set_mark__(void* ptr, int mark)
 #define FREEA(ptr)                                                          \
     do {                                                                    \
         if((ptr) != NULL) {                                                 \
-            int* x = (int*)((char*)(ptr) - sizeof(void*));                  \
-            if(*x == 0xdddd)                                                \
-                free(x);                                                    \
+            int* malloca_mark__ = (int*)((char*)(ptr) - sizeof(void*));     \
+            if(*malloca_mark__ == 0xdddd)                                   \
+                free(malloca_mark__);                                       \
         }                                                                   \
     } while(0)
 
-- 
2.43.0


From 621f8ae8ed8c83bb9059b9524a36cdd6898d0723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:28 +0000
Subject: [PATCH 26/32] fix: MALLOCA: Avoid overflow in size computation and
 expand arguments safely

---
 mem/malloca.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index f132c32..91c6d4d 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -82,9 +82,12 @@ malloca_set_mark__(void* ptr, int mark)
  * anymore, release it with FREEA().
  */
 #define MALLOCA_(size, threshold)                                           \
-    ((size) < (threshold) - sizeof(void*)                                   \
-        ? malloca_set_mark__(CRE_alloca__(size + sizeof(void*)), 0xcccc)    \
-        : malloca_set_mark__(malloc(size + sizeof(void*)), 0xdddd))
+    ((threshold) > sizeof(void*)  &&                                        \
+     (size) < (threshold) - sizeof(void*)                                   \
+        ? malloca_set_mark__(CRE_alloca__((size) + sizeof(void*)), 0xcccc)  \
+        : (size) > (size_t)-1 - sizeof(void*)                               \
+            ? NULL                                                          \
+            : malloca_set_mark__(malloc((size) + sizeof(void*)), 0xdddd))
 
 #define MALLOCA(size)       MALLOCA_((size), MALLOCA_THRESHOLD)
 
-- 
2.43.0


From 219b2ddeab2c464ecbdb654d02c65ea459e7602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 27/32] fix: array: Avoid overflow when counting bytes of many
 elements

---
 data/buffer.h | 76 +++++++++++++++++++++++++++------------------------
 1 file changed, 40 insertions(+), 36 deletions(-)

diff --git a/data/buffer.h b/data/buffer.h
index 43d942d..74cc2af 100644
--- a/data/buffer.h
+++ b/data/buffer.h
@@ -267,6 +267,10 @@ struct ARRAY_ptr        { BUFFER buf; };
 #define ARRAY_ptr_INITIALIZER       { BUFFER_INITIALIZER }
 
 
+/* Count of bytes occupied by n elements; SIZE_MAX if it would overflow. */
+BUFFER_INLINE__ size_t array_bytes__(size_t n, size_t elem_size)
+        { return (n <= (size_t)-1 / elem_size ? n * elem_size : (size_t)-1); }
+
 BUFFER_INLINE__ void array_int8_init(ARRAY_int8* array)
         { buffer_init(&array->buf); }
 BUFFER_INLINE__ void array_uint8_init(ARRAY_uint8* array)
@@ -512,23 +516,23 @@ BUFFER_INLINE__ int array_ptr_insert(ARRAY_ptr* array, size_t index, void* ptr)
         }
 
 BUFFER_INLINE__ int array_int8_insert_n_raw(ARRAY_int8* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int8_t), n * sizeof(int8_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int8_t), array_bytes__(n, sizeof(int8_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint8_insert_n_raw(ARRAY_uint8* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint8_t), n * sizeof(uint8_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint8_t), array_bytes__(n, sizeof(uint8_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int16_insert_n_raw(ARRAY_int16* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int16_t), n * sizeof(int16_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int16_t), array_bytes__(n, sizeof(int16_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint16_insert_n_raw(ARRAY_uint16* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint16_t), n * sizeof(uint16_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint16_t), array_bytes__(n, sizeof(uint16_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int32_insert_n_raw(ARRAY_int32* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int32_t), n * sizeof(int32_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int32_t), array_bytes__(n, sizeof(int32_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint32_insert_n_raw(ARRAY_uint32* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint32_t), n * sizeof(uint32_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint32_t), array_bytes__(n, sizeof(uint32_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int64_insert_n_raw(ARRAY_int64* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int64_t), n * sizeof(int64_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int64_t), array_bytes__(n, sizeof(int64_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint64_insert_n_raw(ARRAY_uint64* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint64_t), n * sizeof(uint64_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint64_t), array_bytes__(n, sizeof(uint64_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_ptr_insert_n_raw(ARRAY_ptr* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(void*), n * sizeof(void*)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(void*), array_bytes__(n, sizeof(void*))) != NULL ? 0 : -1); }
 
 BUFFER_INLINE__ int array_int8_append_raw(ARRAY_int8* array)
         { return (buffer_append_raw(&array->buf, sizeof(int8_t)) != NULL ? 0 : -1); }
@@ -623,61 +627,61 @@ BUFFER_INLINE__ int array_ptr_append(ARRAY_ptr* array, void* ptr)
         }
 
 BUFFER_INLINE__ int array_int8_append_n(ARRAY_int8* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int8_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(int8_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint8_append_n(ARRAY_uint8* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint8_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(uint8_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int16_append_n(ARRAY_int16* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int16_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(int16_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint16_append_n(ARRAY_uint16* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint16_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(uint16_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int32_append_n(ARRAY_int32* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int32_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(int32_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint32_append_n(ARRAY_uint32* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint32_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(uint32_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int64_append_n(ARRAY_int64* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int64_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(int64_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint64_append_n(ARRAY_uint64* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint64_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(uint64_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_ptr_append_n(ARRAY_ptr* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(void*)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_bytes__(n, sizeof(void*))) != NULL ? 0 : -1); }
 
 BUFFER_INLINE__ void array_int8_remove(ARRAY_int8* array, size_t index)
-        { buffer_remove(&array->buf, index * sizeof(int8_t), sizeof(int8_t)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(int8_t)), sizeof(int8_t)); }
 BUFFER_INLINE__ void array_uint8_remove(ARRAY_uint8* array, size_t index)
-        { buffer_remove(&array->buf, index * sizeof(uint8_t), sizeof(uint8_t)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(uint8_t)), sizeof(uint8_t)); }
 BUFFER_INLINE__ void array_int16_remove(ARRAY_int16* array, size_t index)
-        { buffer_remove(&array->buf, index * sizeof(int16_t), sizeof(int16_t)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(int16_t)), sizeof(int16_t)); }
 BUFFER_INLINE__ void array_uint16_remove(ARRAY_uint16* array, size_t index)
-        { buffer_remove(&array->buf, index * sizeof(uint16_t), sizeof(uint16_t)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(uint16_t)), sizeof(uint16_t)); }
 BUFFER_INLINE__ void array_int32_remove(ARRAY_int32* array, size_t index)
-        { buffer_remove(&array->buf, index * sizeof(int32_t), sizeof(int32_t)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(int32_t)), sizeof(int32_t)); }
 BUFFER_INLINE__ void array_uint32_remove(ARRAY_uint32* array, size_t index)
-        { buffer_remove(&array->buf, index * sizeof(uint32_t), sizeof(uint32_t)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(uint32_t)), sizeof(uint32_t)); }
 BUFFER_INLINE__ void array_int64_remove(ARRAY_int64* array, size_t index)
-        { buffer_remove(&array->buf, index * sizeof(int64_t), sizeof(int64_t)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(int64_t)), sizeof(int64_t)); }
 BUFFER_INLINE__ void array_uint64_remove(ARRAY_uint64* array, size_t index)
-        { buffer_remove(&array->buf, index * sizeof(uint64_t), sizeof(uint64_t)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(uint64_t)), sizeof(uint64_t)); }
 BUFFER_INLINE__ void array_ptr_remove(ARRAY_ptr* array, size_t index)
-        { buffer_remove(&array->buf, index * sizeof(void*), sizeof(void*)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(void*)), sizeof(void*)); }
 
 BUFFER_INLINE__ void array_int8_remove_n(ARRAY_int8* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int8_t), n * sizeof(int8_t)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(int8_t)), array_bytes__(n, sizeof(int8_t))); }
 BUFFER_INLINE__ void array_uint8_remove_n(ARRAY_uint8* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint8_t), n * sizeof(uint8_t)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(uint8_t)), array_bytes__(n, sizeof(uint8_t))); }
 BUFFER_INLINE__ void array_int16_remove_n(ARRAY_int16* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int16_t), n * sizeof(int16_t)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(int16_t)), array_bytes__(n, sizeof(int16_t))); }
 BUFFER_INLINE__ void array_uint16_remove_n(ARRAY_uint16* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint16_t), n * sizeof(uint16_t)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(uint16_t)), array_bytes__(n, sizeof(uint16_t))); }
 BUFFER_INLINE__ void array_int32_remove_n(ARRAY_int32* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int32_t), n * sizeof(int32_t)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(int32_t)), array_bytes__(n, sizeof(int32_t))); }
 BUFFER_INLINE__ void array_uint32_remove_n(ARRAY_uint32* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint32_t), n * sizeof(uint32_t)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(uint32_t)), array_bytes__(n, sizeof(uint32_t))); }
 BUFFER_INLINE__ void array_int64_remove_n(ARRAY_int64* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int64_t), n * sizeof(int64_t)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(int64_t)), array_bytes__(n, sizeof(int64_t))); }
 BUFFER_INLINE__ void array_uint64_remove_n(ARRAY_uint64* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint64_t), n * sizeof(uint64_t)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(uint64_t)), array_bytes__(n, sizeof(uint64_t))); }
 BUFFER_INLINE__ void array_ptr_remove_n(ARRAY_ptr* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(void*), n * sizeof(void*)); }
+        { buffer_remove(&array->buf, array_bytes__(index, sizeof(void*)), array_bytes__(n, sizeof(void*))); }
 
 BUFFER_INLINE__ int8_t* array_int8_acquire(ARRAY_int8* array, size_t* p_size)
         { void* data; data = buffer_acquire(&array->buf, p_size);
-- 
2.43.0


From 3fcb213e791ea4c1edb5f51d04c1b47787486edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 28/32] fix: value_path: malformed array index components give
 NULL

Junk between the index and the last bracket ('[0]junk]'), a sign without
any digit ('[+]') and an unclosed bracket ('[3') were accepted.
---
 data/value.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 7b2753a..ddded1f 100644
--- a/data/value.c
+++ b/data/value.c
@@ -258,6 +258,7 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
             token_end++;
 
         if(token_end - token_beg >= 2  &&  token_beg[0] == '['  &&  token_end[-1] == ']') {
+            const char* digits_beg;
             int sign;
             size_t index = 0;
 
@@ -270,6 +271,7 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
                 sign = (token_end-1 - token_beg > 0) ? +1 : 0;
             }
 
+            digits_beg = token_beg;
             while('0' <= *token_beg  &&  *token_beg <= '9') {
                 size_t digit = *token_beg - '0';
 
@@ -278,7 +280,7 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
                 index = index * 10 + digit;
                 token_beg++;
             }
-            if(*token_beg != ']')
+            if(token_beg != token_end-1  ||  (sign != 0  &&  token_beg == digits_beg))
                 return NULL;
 
             if(allow_build  &&  value_is_new(v)) {
@@ -301,6 +303,8 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
                 v = value_array_append(v);
             else
                 v = value_array_get(v, index);
+        } else if(*token_beg == '[') {
+            return NULL;
         } else if(token_end - token_beg > 0) {
             if(allow_build) {
                 if(value_is_new(v)) {
-- 
2.43.0


From 04366339bc540807d2e2cd9ac0519697ac36606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 29/32] fix: cmdline: Use size_t to walk through grouped short
 options

---
 misc/cmdline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/cmdline.c b/misc/cmdline.c
index 7dd2c61..f6b6fb4 100644
--- a/misc/cmdline.c
+++ b/misc/cmdline.c
@@ -44,7 +44,7 @@ cmdline_handle_short_opt_group(const CMDLINE_OPTION* options, const char* arggro
         void* userdata)
 {
     const CMDLINE_OPTION* opt;
-    int i;
+    size_t i;
     int ret = 0;
 
     for(i = 0; arggroup[i] != '\0'; i++) {
-- 
2.43.0


From ed486fe41f943fb47b110230e2ba5cbfb899c717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:52 +0000
Subject: [PATCH 30/32] fix: memstream: Avoid signed overflow when seeking

---
 win32/memstream.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index f5dc5d0..036a69a 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -129,10 +129,12 @@ memstream_Seek(IStream* self, LARGE_INTEGER delta, DWORD origin,
     LARGE_INTEGER pos;
     HRESULT hr;
 
+    /* Unsigned addition: An overflow of the signed one would be undefined; here
+     * it ends as a negative position, refused below. */
     switch(origin) {
         case STREAM_SEEK_SET:  pos.QuadPart = delta.QuadPart; break;
-        case STREAM_SEEK_CUR:  pos.QuadPart = s->pos + delta.QuadPart; break;
-        case STREAM_SEEK_END:  pos.QuadPart = s->size + delta.QuadPart; break;
+        case STREAM_SEEK_CUR:  pos.QuadPart = (LONGLONG) (s->pos + (ULONGLONG) delta.QuadPart); break;
+        case STREAM_SEEK_END:  pos.QuadPart = (LONGLONG) (s->size + (ULONGLONG) delta.QuadPart); break;
         default:               hr = STG_E_INVALIDPARAMETER; goto end;
     }
 
-- 
2.43.0


From 5299a2d5eecf7dfb743912bd9f6732caba78a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:52 +0000
Subject: [PATCH 31/32] fix: memstream: Report a failure even if no error code
 is set

---
 win32/memstream.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 036a69a..7b3dfd4 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -331,8 +331,12 @@ memstream_create_from_resource(HINSTANCE instance,
        (res_global = LoadResource(instance, res)) == NULL  ||
        (res_data = LockResource(res_global)) == NULL)
     {
+        DWORD err = GetLastError();
+
+        /* Not all of the failures above set the error code (e.g. an empty
+         * resource does not). */
         *p_stream = NULL;
-        return HRESULT_FROM_WIN32(GetLastError());
+        return (err != 0 ? HRESULT_FROM_WIN32(err) : E_FAIL);
     }
 
     return memstream_create(res_data, res_size, p_stream);
-- 
2.43.0


From 8709dd29672dccd1bd60865450494650989cdf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:52 +0000
Subject: [PATCH 32/32] fix: value: Avoid overflow in the compatibility test of
 doubles close to 2^31

---
 data/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index ddded1f..ebe52f1 100644
--- a/data/value.c
+++ b/data/value.c
@@ -218,7 +218,7 @@ value_is_compatible(const VALUE* v, VALUE_TYPE type)
 
         case VALUE_DOUBLE:
             return (type == VALUE_FLOAT)  ||
-                   (type == VALUE_INT32 && value_double(v) >= -2147483648.0 && value_double(v) < 2147483648.0 && value_double(v) == (double)value_int32(v))  ||
+                   (type == VALUE_INT32 && value_double(v) >= -2147483648.0 && value_double(v) < 2147483647.5 && value_double(v) == (double)value_int32(v))  ||
                    (type == VALUE_UINT32 && value_double(v) >= 0.0 && value_double(v) < 4294967296.0 && value_double(v) == (double)value_uint32(v))  ||
                    (type == VALUE_INT64 && value_double(v) >= -9223372036854775808.0 && value_double(v) < 9223372036854775808.0 && value_double(v) == (double)value_int64(v))  ||
                    (type == VALUE_UINT64 && value_double(v) >= 0.0 && value_double(v) < 18446744073709551616.0 && value_double(v) == (double)value_uint64(v));
-- 
2.43.0

