From 2104bc8273fd1e083791b4e19b4d0290754c2570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:28 +0000
Subject: [PATCH 001/128] fix: clamp negative string indexes that reach before
 the start of the string

---
 src/libzt/zt_cstr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 9a78384..6671ae5 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -87,6 +87,11 @@ IDX(ssize_t i, size_t len) {
         r = BASE(i, len);
     }
 
+    if (r < 0) {
+        /* further back than the start of the string */
+        r = 0;
+    }
+
     return r;
 }
 
-- 
2.43.0


From 6213145bb7f791ea40611f146868de08de5f4a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 002/128] fix: close the second argument list of zt_cstr_catv

---
 src/libzt/zt_cstr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 6671ae5..0bbeb5f 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -216,6 +216,8 @@ zt_cstr_catv(const char *s, ...) {
         s = va_arg(ap, const char *);
     }
 
+    va_end(ap);
+
     *p = '\0';
     return new;
 }
-- 
2.43.0


From dcba1cb890bdad594c24fc7b316eb3c2b214c282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 003/128] fix: zt_cstr_map maps bytes above 225 to themselves,
 not to NUL

---
 src/libzt/zt_cstr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 0bbeb5f..5a49822 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -272,7 +272,10 @@ zt_cstr_map(const char *s, ssize_t i, ssize_t j,
                                190, 191, 192, 193, 194, 195, 196, 197, 198, 199,
                                200, 201, 202, 203, 204, 205, 206, 207, 208, 209,
                                210, 211, 212, 213, 214, 215, 216, 217, 218, 219,
-                               220, 221, 222, 223, 224, 225 };
+                               220, 221, 222, 223, 224, 225, 226, 227, 228, 229,
+                               230, 231, 232, 233, 234, 235, 236, 237, 238, 239,
+                               240, 241, 242, 243, 244, 245, 246, 247, 248, 249,
+                               250, 251, 252, 253, 254, 255 };
 
     if (from && to) {
         while (*from && *to) {
-- 
2.43.0


From 9c4689b5cac9defbd46dbbdfd560fedc5c3358cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 004/128] fix: zt_cstr_cmp compares the last character of
 equally long slices

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 5a49822..d48c246 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -347,7 +347,7 @@ zt_cstr_cmp(const char *s1, ssize_t i1, ssize_t j1,
         return cond == 0 ? +1 : cond;
     }
 
-    return strncmp(s1, s2, j1 - i1);
+    return strncmp(s1, s2, IDXLEN(i1, j1));
 }
 
 /*!
-- 
2.43.0


From aee2503d6daede1b1af5f7dfc533ad8d3f71a082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 005/128] fix: zt_cstr_chomp does not read before an empty
 string

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index d48c246..271d9f5 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -542,7 +542,7 @@ zt_cstr_chomp(char *str) {
         size_t    i = 0;
 
         i = strlen(str);
-        if (str[i - 1] == '\n') {
+        if (i > 0 && str[i - 1] == '\n') {
             str[i - 1] = '\0';
         }
     }
-- 
2.43.0


From e82a0610060542721884d9731172c90178abb8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 006/128] fix: zt_hexdump prints a last line of 15 bytes

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 271d9f5..929c363 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -798,7 +798,7 @@ zt_hexdump(int _getchar(void *), void * data, zt_hexdump_output output, void * o
         bytes++;
     }
 
-    if ((addr % 16 != 15) && (addr % 16 != 0)) {
+    if (addr % 16 != 0) {
         if (output(odata, _addr, _hex, _txt) == -1 ) {
             return -1;
         }
-- 
2.43.0


From 41cfcf086f36189b545428135a9f51b4ab6f380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:37 +0000
Subject: [PATCH 007/128] fix: zt_binary_to_hex does not write past an odd
 sized buffer

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 929c363..db65fff 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -818,7 +818,7 @@ zt_binary_to_hex(void *data, size_t dlen, char *hex, size_t hlen) {
     size_t n;
     char * dptr = hex;
 
-    for (n = 0; (n < dlen) && ((n * 2) < hlen); n++, dptr += 2) {
+    for (n = 0; (n < dlen) && ((n * 2) + 1 < hlen); n++, dptr += 2) {
         uint8_t c = ((uint8_t *)data)[n];
         if (hex != NULL) {
             dptr[0] = HEX_DIGITS[((c >> 4) & 0xF)];
-- 
2.43.0


From f42cc1a060ed0e82b638cf3395f535d629c21e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:38 +0000
Subject: [PATCH 008/128] fix: zt_hex_to_binary does not read past an odd
 amount of hex

---
 src/libzt/zt_cstr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index db65fff..abe4849 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -871,6 +871,12 @@ zt_hex_to_binary(char *hex, size_t hlen, void *data, size_t dlen) {
         int8_t c2;
         int8_t cc = 0;
 
+        if (n + 1 >= hlen) {
+            /* half a byte left over */
+            errno = EINVAL;
+            return 0;
+        }
+
         if ((c = hex_to_char(*hex++)) == -1) {
             errno = EINVAL;
             return 0;
-- 
2.43.0


From e973ed7d782eb8659f72c4975e450226f0bc0ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 009/128] fix: zt_cstr_itoa leaves room for the terminator

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index abe4849..fa74e48 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -1029,7 +1029,7 @@ ssize_t zt_cstr_itoa(char *s, int value, size_t offset, size_t bufsiz)
 
     result = loc = offset + zt_cstr_int_display_len(value);
 
-    if ((s == NULL) || (loc > bufsiz)) {
+    if ((s == NULL) || (loc >= bufsiz)) {
         return -1;
     }
 
-- 
2.43.0


From 056ef59258f1a2b08af6cd3f0474f96f8df99afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 010/128] fix: zt_cstr_dirname does not read before an empty
 path

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index fa74e48..53408d0 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -651,7 +651,7 @@ zt_cstr_dirname(char *npath, size_t len, const char *path) {
 
     /* if the end of the path is the PATH_SEPERATOR then skip over it */
     ps_len = strlen(PATH_SEPERATOR);
-    if (strcmp(&path[strlen(path) - ps_len], PATH_SEPERATOR) == 0) {
+    if ((ssize_t)strlen(path) >= ps_len && strcmp(&path[strlen(path) - ps_len], PATH_SEPERATOR) == 0) {
         end = end - ps_len;
     }
 
-- 
2.43.0


From 2f4f7fe0b4db9c3e7e49de08997bcafbca4ac715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 011/128] fix: zt_cstr_split, _cut and _tok check the copy they
 work on; _tok accepts an empty string

---
 src/libzt/zt_cstr.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 53408d0..a684fee 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -936,7 +936,10 @@ zt_cstr_split(const char *str, const char *delim) {
 
     endptr      = NULL;
 
-    str_copy    = strdup(str);
+    if ((str_copy = strdup(str)) == NULL) {
+        zt_ptr_array_free(split_array, 1);
+        return NULL;
+    }
 
     for (tok = strtok_r(str_copy, delim, &endptr); tok != NULL; tok = strtok_r(NULL, delim, &endptr)) {
         if (zt_ptr_array_add(split_array, (void *)strdup(tok)) < 0) {
@@ -961,7 +964,10 @@ zt_cstr_cut(const char *str, const int delim, int keep_delim) {
         return NULL;
     }
 
-    cut_tok    = str_copy = strdup(str);
+    if ((cut_tok = str_copy = strdup(str)) == NULL) {
+        zt_ptr_array_free(cuts, 1);
+        return NULL;
+    }
     keep_delim = keep_delim ? 1 : 0;
 
     while ((cut_tok = strchr(cut_tok, delim))) {
@@ -993,9 +999,12 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
         return NULL;
     }
 
-    str_copy = strdup(str);
+    if ((str_copy = strdup(str)) == NULL) {
+        zt_ptr_array_free(cuts, 1);
+        return NULL;
+    }
 
-    if (str[strlen(str) - 1] == delim) {
+    if (*str != '\0' && str[strlen(str) - 1] == delim) {
         str_copy[ strlen(str) - 1 ] = '\0';
     }
 
-- 
2.43.0


From ae6d4876965b0b2d9124fbf577278f2aef70b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:06 +0000
Subject: [PATCH 012/128] fix: zt_ptr_array_del reports success

---
 src/libzt/zt_ptr_array.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 2adf433..de80806 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -108,6 +108,7 @@ zt_ptr_array_del(zt_ptr_array * array, void * data) {
             if (array->free_cb) {
                 array->free_cb(data);
             }
+            return 0;
         }
     }
 
-- 
2.43.0


From 8d20bdf64f1cafdfca6a8b1dc6cfa41468c71b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 013/128] fix: zt_ptr_array_move_idx_to_idx rejects indexes
 outside the array

---
 src/libzt/zt_ptr_array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index de80806..9e0fa9e 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -79,11 +79,11 @@ zt_ptr_array_resize(zt_ptr_array * array, int32_t expand) {
 
 int
 zt_ptr_array_move_idx_to_idx(zt_ptr_array * array, int32_t src_idx, int32_t dst_idx) {
-    if (src_idx > array->count) {
+    if (src_idx < 0 || src_idx >= array->count) {
         return -1;
     }
 
-    if (dst_idx > array->count) {
+    if (dst_idx < 0 || dst_idx >= array->count) {
         return -1;
     }
 
-- 
2.43.0


From 257460351bb87826864faedcbdb2be2082392f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 014/128] fix: zt_ptr_array_get_idx does not read outside the
 array

---
 src/libzt/zt_ptr_array.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 9e0fa9e..ebd7d8e 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -183,11 +183,11 @@ zt_ptr_array_free(zt_ptr_array * array, int free_members) {
 void *
 zt_ptr_array_get_idx(zt_ptr_array * array, int32_t idx) {
     if (idx == -1) {
-        /* return the last element */
-        return array->array[array->count - 1];
+        /* the last element */
+        idx = array->count - 1;
     }
 
-    if (idx >= array->count) {
+    if (idx < 0 || idx >= array->count) {
         return NULL;
     }
 
-- 
2.43.0


From b310d9ccd4a841c45050601942d66368b16d13b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 015/128] fix: zt_ptr_array_resize detects a size overflow

---
 src/libzt/zt_ptr_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index ebd7d8e..e29c8ef 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -56,7 +56,7 @@ zt_ptr_array_resize(zt_ptr_array * array, int32_t expand) {
         size = expand;
     }
 
-    if ((array->size + size) < array->size) {
+    if (size < 0 || array->size > INT32_MAX - size) {
         /* error on overflow */
         return -1;
     }
-- 
2.43.0


From 76e64c30725ca61059b7c745cd69227ec1c7aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 016/128] fix: zt_buf_drain gives up the room of the drained
 bytes

---
 src/libzt/zt_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index b462599..9f57495 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -79,7 +79,7 @@ zt_buf_drain(zt_buf_t * b, size_t len) {
 
     if (len < b->len) {
         b->len -= len;
-        b->max -= (size_t)((char *)b->top - (char *)b->buf);
+        b->max -= len;
         b->buf  = ((char *)b->buf + len);
     } else {
         b->len = 0;
-- 
2.43.0


From d0cdfb793d12b208aab6e2db0f2023db9af14d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 017/128] fix: zt_buf_expand reallocates the allocation, not
 the drained position, and reports failure

---
 src/libzt/zt_buf.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index 9f57495..38e997a 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -53,6 +53,7 @@ zt_buf_length(zt_buf_t * b) {
 int
 zt_buf_expand(zt_buf_t * b, size_t len) {
     size_t rlen;
+    void * top;
 
     if (len < ZT_BUF_MIN) {
         rlen = ZT_BUF_MIN;
@@ -60,12 +61,19 @@ zt_buf_expand(zt_buf_t * b, size_t len) {
         rlen = len;
     }
 
-    if (b->top == NULL) {
-        b->top = b->buf;
+    if (b->top != b->buf) {
+        /* drained: move what is left to the start of the allocation */
+        memmove(b->top, b->buf, b->len);
+        b->max += (size_t)((char *)b->buf - (char *)b->top);
+        b->buf  = b->top;
+    }
+
+    if (!(top = realloc(b->top, b->len + rlen))) {
+        return -1;
     }
 
-    b->buf = realloc(b->buf, b->len + rlen);
-    b->top = b->buf;
+    b->top = top;
+    b->buf = top;
     b->max = b->len + rlen;
 
     return 0;
@@ -91,7 +99,9 @@ zt_buf_drain(zt_buf_t * b, size_t len) {
 int
 zt_buf_add(zt_buf_t * b, void * data, size_t len) {
     if (len > zt_buf_unused_sz(b)) {
-        zt_buf_expand(b, len);
+        if (zt_buf_expand(b, len) != 0) {
+            return -1;
+        }
     }
 
     memcpy((void *)((char *)b->buf + b->len), data, len);
@@ -102,7 +112,9 @@ zt_buf_add(zt_buf_t * b, void * data, size_t len) {
 
 int
 zt_buf_add_buf(zt_buf_t * a, zt_buf_t * b) {
-    zt_buf_add(a, b->buf, b->len);
+    if (zt_buf_add(a, b->buf, b->len) != 0) {
+        return -1;
+    }
     zt_buf_drain(b, b->len);
     return 0;
 }
@@ -122,7 +134,7 @@ zt_buf_remove(zt_buf_t * b, void * out, size_t olen) {
 int
 zt_buf_reserve(zt_buf_t * b, size_t len) {
     if (len > zt_buf_unused_sz(b)) {
-        zt_buf_expand(b, len);
+        return zt_buf_expand(b, len);
     }
 
     return 0;
@@ -148,7 +160,9 @@ zt_buf_iov_add(zt_buf_t * b, zt_iov_t * vec, int n_vec) {
     size_t tlen;
 
     tlen = zt_buf_iov_len(vec, n_vec);
-    zt_buf_reserve(b, tlen);
+    if (zt_buf_reserve(b, tlen) != 0) {
+        return -1;
+    }
 
     for (i = 0; i < n_vec; i++) {
         zt_buf_add(b, vec[i].iov_data, vec[i].iov_len);
-- 
2.43.0


From 1b7832c57818713b7803c37c7c58934bd3cd6e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 018/128] fix: zt_base_decode does not write through a NULL
 output with a size

---
 src/libzt/zt_base.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_base.c b/src/libzt/zt_base.c
index 14f3e08..3b1ee9f 100644
--- a/src/libzt/zt_base.c
+++ b/src/libzt/zt_base.c
@@ -648,7 +648,8 @@ zt_base_decode(zt_base_definition_t * def, const void * in, size_t in_bytes, voi
     mod = ((in_bytes-i) % def->ogroups); /* partial inputs */
     ocount = (lcount * def->igroups) + mod; /* total output bytes */
 
-    if (out == NULL) {
+    if (out == NULL || (*out == NULL && *out_bytes != 0)) {
+        /* nowhere to decode to: report the size needed */
         *out_bytes = ocount;
         return 0;
     }
-- 
2.43.0


From 66e446dda61e6ccf28d1298d7e7a6e43e9d4b859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 019/128] fix: base16 decoding reports a left over digit as the
 other bases do

---
 src/libzt/zt_base.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libzt/zt_base.c b/src/libzt/zt_base.c
index 3b1ee9f..ca39424 100644
--- a/src/libzt/zt_base.c
+++ b/src/libzt/zt_base.c
@@ -528,6 +528,11 @@ _decode16(zt_base_definition_t * def, const unsigned char * in, const size_t byt
         }
     }
 
+    if (cnt > 0) {
+        /* half a byte left over */
+        result = -1;
+    }
+
     *out_bytes = obytes;
     return result;
 }
-- 
2.43.0


From 3b7ef0149a89ac5dec60645468dcc57524ede12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:01 +0000
Subject: [PATCH 020/128] fix: memory pools report a failed page allocation
 instead of using it

---
 src/libzt/zt_mem.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 2125bec..86fd044 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -240,7 +240,10 @@ zt_mem_pool_init(char *name, ssize_t elts,
     if (npages > 0) {
         /* fill the cache */
         while (npages--) {
-            page = zt_mem_page_alloc(pool);
+            if ((page = zt_mem_page_alloc(pool)) == NULL) {
+                zt_mem_pool_destroy(&pool);
+                return NULL;
+            }
             zt_elist_add_tail(&pool->page_list, &page->page_list);
             pool->page_allocs++;
         }
@@ -264,8 +267,9 @@ zt_mem_pool_alloc(zt_mem_pool *pool)
     if (zt_elist_empty(&pool->free_elt_list) == 1) {
         /* alloc a new page */
         zt_mem_page *page;
-        page = zt_mem_page_alloc(pool);
-        /*  */
+        if ((page = zt_mem_page_alloc(pool)) == NULL) {
+            return NULL;
+        }
         zt_elist_add_tail(&pool->page_list, &page->page_list);
         pool->page_allocs++;
     }
-- 
2.43.0


From ff175869ab5bd81a1037bd5b4523266983eaf4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:02 +0000
Subject: [PATCH 021/128] fix: a heap, pool or set whose name cannot be copied
 is not created

---
 src/libzt/zt_mem.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 86fd044..a1bb261 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -101,7 +101,10 @@ zt_mem_heap_init(char *name, size_t size)
         return NULL;
     }
 
-    heap->name = zt_mem_strdup(name ? name : "*unknown*");
+    if ((heap->name = zt_mem_strdup(name ? name : "*unknown*")) == NULL) {
+        GLOBAL_zmt.dealloc(heap);
+        return NULL;
+    }
     heap->size = size;
     return heap;
 }
@@ -213,7 +216,10 @@ zt_mem_pool_init(char *name, ssize_t elts,
 
     zt_elist_reset(&pool->pool_list);
 
-    pool->name = zt_mem_strdup(name ? name : "*unknown*");
+    if ((pool->name = zt_mem_strdup(name ? name : "*unknown*")) == NULL) {
+        GLOBAL_zmt.dealloc(pool);
+        return NULL;
+    }
     pool->rcache = elts;
     pool->ncache = pcache * epp;
     pool->pcache = pcache;
@@ -626,7 +632,10 @@ zt_mem_set_init(char *name)
     zt_elist_reset(&set->set_list);
     zt_elist_reset(&set->elt_list);
 
-    set->name = zt_mem_strdup(name ? name : "*unknown*");
+    if ((set->name = zt_mem_strdup(name ? name : "*unknown*")) == NULL) {
+        GLOBAL_zmt.dealloc(set);
+        return NULL;
+    }
 
     return set;
 }
-- 
2.43.0


From ce561a5dd5c16225701524f2f7e22c2b7fa3a2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 022/128] fix: zt_mem_pool_group_init unwinds the first pool
 and the group, and counts only the pools it made

---
 src/libzt/zt_mem.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index a1bb261..42cf4bf 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -558,10 +558,10 @@ zt_mem_pool_group_init(zt_mem_pool_desc *group, size_t len)
     }
 
     if ((ngroup->pools = zt_calloc(zt_mem_pool *, len)) == NULL) {
+        zt_free(ngroup);
         return 0;
     }
     zt_elist_reset(&ngroup->group_list);
-    ngroup->npools = len;
 
     for (i = 0; i < len && group[i].name; i++) {
         ngroup->pools[i] = zt_mem_pool_init(group[i].name,
@@ -571,12 +571,15 @@ zt_mem_pool_group_init(zt_mem_pool_desc *group, size_t len)
                                             group[i].cb_data,
                                             group[i].flags);
         if (!ngroup->pools[i]) {
-            while (--i) {
+            while (i-- > 0) {
                 zt_mem_pool_destroy(&ngroup->pools[i]);
             }
+            zt_free(ngroup->pools);
+            zt_free(ngroup);
             return 0;
         }
     }
+    ngroup->npools = i;
 
     return ngroup;
 }
-- 
2.43.0


From 662832e527e2c7cd3f6d774200046983bf68a5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 023/128] fix: table sizes are powers of two

---
 src/libzt/zt_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 0888d7a..c77ed28 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -28,7 +28,7 @@ unsigned long powers_of_2[] = { 2,            4,         8,
                                 128,          256,       512,
                                 1024,         2048,      4096,
                                 8192,         16384,     32768,
-                                65535,        131072,    262144,
+                                65536,        131072,    262144,
                                 524288,       1048576,   2097152,
                                 4194304,      8388608,   16777216,
                                 33554432,     67108864,  134217728,
-- 
2.43.0


From 23274132c433211a17539f58e02eed9bce633c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 024/128] fix: zt_table_del unlinks entries that are not the
 first of their bucket

---
 src/libzt/zt_table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index c77ed28..88246b0 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -252,6 +252,7 @@ zt_table_del(zt_table *h, const void *key, size_t key_len)
             }
         }
 
+        prev = node;
         node = node->next;
     }
     errno = ENOENT;
-- 
2.43.0


From 4d8ece922c5900cc03981e98f4c6d28e0a55d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 025/128] fix: zt_table_compare_buff compares past a zero byte

---
 src/libzt/zt_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 88246b0..3ce3a87 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -362,7 +362,7 @@ int
 zt_table_compare_buff(const void *lhs, size_t lhs_len, const void *rhs, size_t rhs_len, void *cdata UNUSED)
 {
     if(lhs_len == rhs_len) {
-        if (strncmp((char *)lhs, (char *)rhs, lhs_len) == 0) {
+        if (memcmp(lhs, rhs, lhs_len) == 0) {
             return 1;
         }
     }
-- 
2.43.0


From 0e50ff6c59dad52114cabb599b840ca5706a1d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 026/128] fix: integer keys are not read past their storage

---
 src/libzt/zt_table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 3ce3a87..2f39b20 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -304,7 +304,7 @@ unsigned long
 zt_table_hash_int(const void *key, size_t key_len, void *cdata UNUSED)
 {
     unsigned char * skey = (unsigned char *)key;
-    unsigned long   nkey = zt_hash32_buff(&skey, key_len, ZT_HASH32_INIT);
+    unsigned long   nkey = zt_hash32_buff(&skey, MIN(key_len, sizeof(skey)), ZT_HASH32_INIT);
 
     return nkey;
 }
@@ -313,7 +313,7 @@ int
 zt_table_compare_int(const void *lhs, size_t lhs_len, const void *rhs, size_t rhs_len, void *cdata UNUSED)
 {
     if (lhs_len == rhs_len) {
-        if (memcmp(&lhs, &rhs, lhs_len) == 0) {
+        if (memcmp(&lhs, &rhs, MIN(lhs_len, sizeof(lhs))) == 0) {
             return 1;
         }
     }
-- 
2.43.0


From 55a05044922e58e0a0ab4d7f8a10fd01ac888f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 027/128] fix: tables report failed allocations, and do not
 print a missing name

---
 src/libzt/zt_table.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 2f39b20..11f473b 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -115,7 +115,10 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
 
     table->nbits = nbits(nbuckets - 1);
 
-    table->table_heap = zt_mem_heap_init(0, nbuckets * sizeof(struct table_node *));
+    if ((table->table_heap = zt_mem_heap_init(0, nbuckets * sizeof(struct table_node *))) == NULL) {
+        zt_mem_pool_release((void **)&table);
+        return NULL;
+    }
 
     table->buckets = zt_mem_heap_get_data(table->table_heap);
     memset(table->buckets, 0, nbuckets * sizeof(struct table_node *));
@@ -127,9 +130,15 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     }
 
 
-    snprintf(tname, sizeof_array(tname), "%s (table node pool)", name);
+    snprintf(tname, sizeof_array(tname), "%s (table node pool)", table->name);
     table->node_pool = zt_mem_pool_init(tname, nbuckets,
                                         sizeof(struct table_node), NULL, NULL, 0);
+    if (table->node_pool == NULL) {
+        zt_free(table->name);
+        zt_mem_heap_destroy(&table->table_heap);
+        zt_mem_pool_release((void **)&table);
+        return NULL;
+    }
 
     table->num_buckets = nbuckets;
     table->cmp = cmp;
@@ -185,7 +194,9 @@ zt_table_set(zt_table *h, const void *key, size_t key_len, const void *datum, si
         }
     }
 
-    node = (struct table_node *)zt_mem_pool_alloc(h->node_pool);
+    if ((node = (struct table_node *)zt_mem_pool_alloc(h->node_pool)) == NULL) {
+        return -1;
+    }
 
     node->next = h->buckets[nkey];
     node->hash_key = skey;
-- 
2.43.0


From 18daf22290264063b487c397311330dcb08cd714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 028/128] fix: tables whose size is not a power of two stay
 inside their buckets

---
 src/libzt/zt_table.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 11f473b..3740f97 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -100,7 +100,7 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     table->cdata = cdata;
 
     if (flags & ZT_TABLE_SIZE_USE_HINT) {
-        nbuckets = hint;
+        nbuckets = hint ? hint : 1;
     } else {
         int i = 0;
         int len = sizeof_array(powers_of_2);
@@ -179,6 +179,7 @@ zt_table_set(zt_table *h, const void *key, size_t key_len, const void *datum, si
     struct table_node * nn;
 
     ZT_HASH_SUB32_MASK(nkey, h->nbits);
+    nkey %= h->num_buckets;
     /* ZT_LOG_XDEBUG("for key %d hash key is: %d", (int)key, nkey); */
 
     nn = h->buckets[nkey];
@@ -220,6 +221,7 @@ zt_table_get(zt_table *h, const void *key, size_t key_len)
     skey = nkey;
 
     ZT_HASH_SUB32_MASK(nkey, h->nbits);
+    nkey %= h->num_buckets;
     node = h->buckets[nkey];
 
     while (node) {
@@ -244,6 +246,7 @@ zt_table_del(zt_table *h, const void *key, size_t key_len)
     unsigned long       skey = nkey;
 
     ZT_HASH_SUB32_MASK(nkey, h->nbits);
+    nkey %= h->num_buckets;
 
     prev = node = h->buckets[nkey];
 
-- 
2.43.0


From 3b9a66d6df6c264c30f8d6d5ab5fbcaf8cae0f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 029/128] fix: the size of a set changes only when its content
 does

---
 src/libzt/zt_set.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 453263c..20945e4 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -53,13 +53,21 @@ zt_set_insert(zt_set *set, const void *data, size_t len)
         return 1;
     }
 
+    if (zt_table_set(set->tbl, (void *)data, len, (void *)data, len) != 0) {
+        return -1;
+    }
+
     set->length++;
-    return zt_table_set(set->tbl, (void *)data, len, (void *)data, len);
+    return 0;
 }
 
 int zt_set_remove(zt_set *set, void **data)
 {
+    errno = 0;
     *data = zt_table_del(set->tbl, *data, 0);
+    if (*data == NULL && errno == ENOENT) {
+        return 1;
+    }
     set->length--;
     return 0;
 }
-- 
2.43.0


From 7182f30f52bdcc16538d98b3719b57871232e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 030/128] fix: writing to a truncated stream grows it

---
 src/libzt/zt_bstream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index a3b97c1..d083c92 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -183,8 +183,8 @@ zt_bstream_write(zt_bstream_t bs, char *data, size_t len, char size, char tag UN
 
     alen = zt_array_length(bs->data);
 
-    if (tlen > alen - bs->offt) {
-        zt_array_resize(bs->data, (alen + tlen) * 2);
+    if (bs->offt + tlen > alen) {
+        zt_array_resize(bs->data, (MAX(alen, bs->offt) + tlen) * 2);
     }
 
     bs->offt = _array_put(bs->data, data, bs->offt, tlen, bs->flipendian);
-- 
2.43.0


From deb74c9a1dd0118cf4d86848168cc10580e50622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:43 +0000
Subject: [PATCH 031/128] fix: a cloned stream keeps its byte order

---
 src/libzt/zt_bstream.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index d083c92..29a6801 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -105,6 +105,7 @@ zt_bstream_clone(zt_bstream_t bs)
     clone = zt_calloc(struct zt_bstream, 1);
     clone->data = zt_array_copy(bs->data, zt_array_length(bs->data));
     clone->offt = bs->offt;
+    clone->flipendian = bs->flipendian;
 
     return clone;
 }
-- 
2.43.0


From 1861ab68f4d6c1e59879f776917c86df8a8a889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:44 +0000
Subject: [PATCH 032/128] fix: growing a truncated array releases its old
 storage

---
 src/libzt/zt_array.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index f10084c..d0f442d 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -82,6 +82,7 @@ zt_array_resize(zt_array_t array, size_t len)
     zt_assert(len > 0);
 
     if (array->length == 0) {
+        zt_free(array->data);
         array->data = zt_calloc(char, len * array->size);
     } else if (len > 0) {
         array->data = zt_realloc(char, array->data, len * array->size);
-- 
2.43.0


From 2f812f7ee656755bf044526e620b26beab320281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:13 +0000
Subject: [PATCH 033/128] fix: an IPv4 table holding every prefix length is not
 searched past its end

---
 src/libzt/zt_ipv4_tbl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 7c37ce5..61cb934 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -261,7 +261,7 @@ zt_ipv4_tbl_search_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         return tbl->any;
     }
 
-    while (1) {
+    while (i < 32) {
         uint32_t addr_masked;
         uint32_t key;
 
-- 
2.43.0


From 179c66632cbecd833ca035e7a7568a5439c14ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 034/128] fix: zt_ipv4_str2net rejects negative prefix lengths
 and does not read past short addresses

---
 src/libzt/zt_ipv4_tbl.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 61cb934..8243ff8 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -362,7 +362,13 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
         memcpy(save, str, cp - str_cp);
     } else {
         bitlen = 32;
-        memcpy(save, str, MAXLINE);
+        strncpy(save, str, MAXLINE - 1);
+    }
+
+    if (bitlen < 0) {
+        free(save);
+        free(str_cp);
+        return -1;
     }
 
     if (bitlen > 32) {
-- 
2.43.0


From 31c2ce59b689ed1df9e917fe91b216902a208477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 035/128] fix: IPv4 tables release what a failed or finished
 lookup acquired

---
 src/libzt/zt_ipv4_tbl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 8243ff8..81f4a67 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -54,6 +54,7 @@ zt_ipv4_tbl_init(uint32_t size)
     }
 
     if (!(tbl->pools = zt_mem_pool_group_init(pools, 3))) {
+        free(tbl);
         return NULL;
     }
 
@@ -115,6 +116,7 @@ zt_ipv4_node_str_init(const char *netstr)
     }
 
     if (!(addr = zt_ipv4_addr_frm_str(netstr))) {
+        zt_mem_pool_release((void **)&node);
         return NULL;
     }
 
@@ -229,6 +231,8 @@ zt_ipv4_tbl_add_frm_str(zt_ipv4_tbl * tbl, const char *netstr)
     }
 
     if (zt_ipv4_tbl_add_node(tbl, ipv4_node)) {
+        zt_mem_pool_release((void **)&ipv4_node->addr);
+        zt_mem_pool_release((void **)&ipv4_node);
         return NULL;
     }
 
@@ -304,6 +308,7 @@ zt_ipv4_tbl_search_from_str(zt_ipv4_tbl * tbl, const char *netstr)
 
     matched = zt_ipv4_tbl_search_node(tbl, ipv4_node);
 
+    zt_mem_pool_release((void **)&ipv4_node->addr);
     zt_mem_pool_release((void **)&ipv4_node);
 
     return matched;
-- 
2.43.0


From f9e9dfe1f201c0371ce84d0b4043d1bcd8b96e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 036/128] fix: zt_ipv4_tbl_init does not share its pool
 descriptions between callers

---
 src/libzt/zt_ipv4_tbl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 81f4a67..a1c0c73 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -33,7 +33,7 @@ zt_ipv4_tbl_init(uint32_t size)
 {
     zt_ipv4_tbl             * tbl;
     uint32_t                  rsize = size ? size : 128;
-    static zt_mem_pool_desc   pools[4];
+    zt_mem_pool_desc          pools[4];
 
     memset(pools, 0, sizeof(pools));
 
-- 
2.43.0


From 99ff58849975acdf63aeaf248338898cc7671bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 037/128] fix: a prefix hash comes from its own table's pool,
 not from the first table's

---
 src/libzt/zt_ipv4_tbl.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index a1c0c73..c7c80b5 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -130,7 +130,6 @@ int
 zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
 {
     zt_ipv4_node *node_slot;
-    zt_mem_pool  *pool;
     uint32_t      key;
     uint8_t       blen;
     int           is_in;
@@ -148,17 +147,13 @@ zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         return 0;
     }
 
-    if (!(pool = zt_mem_pool_get("zt_ipv4_node_hash"))) {
-        return -1;
-    }
-
     is_in = 0;
     blen = node->addr->bitlen - 1;
 
     if (tbl->tbl[blen] == NULL) {
         zt_ipv4_node **hash_entry;
 
-        if (!(hash_entry = zt_mem_pool_alloc(pool))) {
+        if (!(hash_entry = zt_mem_pool_group_alloc(tbl->pools, sizeof(zt_ipv4_node *) * tbl->sz))) {
             return -1;
         }
 
-- 
2.43.0


From bc9e6780322b16536ef8e1eebe5e28f5e93cef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 038/128] fix: destroying a sub-pool does not orphan its
 siblings

---
 src/libzt/zt_ez_mempool.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index cc6f6be..acf52c0 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -91,7 +91,15 @@ zt_ez_mempool_destroy(zt_ez_mempool *pool) {
     pool_ptr = pool->subpools;
 
     if (pool->parent != NULL) {
-        pool->parent->subpools = NULL;
+        zt_ez_mempool **link = &pool->parent->subpools;
+
+        while (*link != NULL && *link != pool) {
+            link = &(*link)->next;
+        }
+
+        if (*link == pool) {
+            *link = pool->next;
+        }
     }
 
     free_chunks(pool->chunks);
-- 
2.43.0


From 46a92e0f197725dc8f561ab1dc910527939ddd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 039/128] fix: zt_ez_mempool_strdup owns the copy of an empty
 string too

---
 src/libzt/zt_ez_mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index acf52c0..6c5286e 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -132,7 +132,7 @@ char *
 zt_ez_mempool_strdup(zt_ez_mempool *pool, const char *s) {
     char *ret = zt_strdup(s);
 
-    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret), free);
+    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret) + 1, free);
 
     return ret;
 }
-- 
2.43.0


From 12a08ff2109994a65e79b5ad40e98ecbb60c86d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 040/128] fix: zt_gc_destroy does not share its iterator
 between collectors

---
 src/libzt/zt_gc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index f26593f..5e2586f 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -196,7 +196,7 @@ zt_gc_init(void *private_data,
 void
 zt_gc_destroy(zt_gc_t *gc)
 {
-    static zt_elist_t * elt;
+    zt_elist_t * elt;
     zt_elist_t * dont_use;
 
     if (gc->enabled != 0) {
-- 
2.43.0


From d3c10bea5d657652d43c5301517b5e7654ad64e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:48 +0000
Subject: [PATCH 041/128] fix: unregistering the value a collection stopped at
 moves the scan on

---
 src/libzt/zt_gc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index 5e2586f..16eaf04 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -233,10 +233,14 @@ zt_gc_prepare(zt_gc_t *gc UNUSED, void *v)
 }
 
 void
-zt_gc_unregister(zt_gc_t *gc UNUSED, void *v)
+zt_gc_unregister(zt_gc_t *gc, void *v)
 {
     zt_gc_collectable_t * mark = (zt_gc_collectable_t *)v;
 
+    if (gc->scan == &mark->list) {
+        gc->scan = mark->list.next;
+    }
+
     zt_elist_remove(&mark->list);
 
     if (++gc->current_allocs < gc->allocs_before_scan) {
-- 
2.43.0


From 936c0c40f3e4b00beda26657f8aeee8e0e4dd23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 042/128] fix: zt_threadpool_kill cannot miss a worker that is
 about to wait

---
 src/libzt/zt_threads.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index d42f58e..40259f3 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -517,11 +517,17 @@ zt_threadpool_kill(zt_threadpool *tpool) {
     int k   = 1;
     int ret = 0;
 
+    /* signal all threads, and let them die; the flag changes under the
+     * locks its readers hold, so that none of them goes to sleep between
+     * testing it and the broadcast
+     */
+    zt_threads_lock(0, tpool->iput_mutex);
+    zt_threads_lock(0, tpool->oput_mutex);
     tpool->kill = 1;
-
-    /* signal all threads, and let them die */
     zt_threads_cond_signal(tpool->iput_cond, 1);
     zt_threads_cond_signal(tpool->oput_cond, 1);
+    zt_threads_unlock(0, tpool->oput_mutex);
+    zt_threads_unlock(0, tpool->iput_mutex);
 
     for (i = 0; i < tpool->min_threads; i++) {
         if (_zt_threadpool_cbs.iput_loop) {
-- 
2.43.0


From 3de81ca4bc616418128f1c4c97a46a01fdcd97aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 043/128] fix: killing a pool writes the same byte to both of
 its pipes

---
 src/libzt/zt_threads.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 40259f3..a212579 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -546,7 +546,7 @@ zt_threadpool_kill(zt_threadpool *tpool) {
     }
 
     if (tpool->iput_fd_sigs[1] >= 0) {
-        if (write(tpool->iput_fd_sigs[1], &i, 1) < 0) {
+        if (write(tpool->iput_fd_sigs[1], &k, 1) < 0) {
             ret = -1;
         }
     }
-- 
2.43.0


From ce1a9ef1805e9726a06ad20251f2ffafde0db28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 044/128] fix: zt_threadpool_init reports a failed allocation
 and closes the pipe it opened

---
 src/libzt/zt_threads.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index a212579..e9e60ea 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -559,7 +559,10 @@ zt_threadpool_init(int min_threads, int max_threads, int pipe_iput, int pipe_opu
     zt_threadpool *tpool;
 
 
-    tpool               = calloc(sizeof(zt_threadpool), 1);
+    if (!(tpool = calloc(sizeof(zt_threadpool), 1))) {
+        return NULL;
+    }
+
     tpool->min_threads  = min_threads;
     tpool->max_threads  = max_threads;
     tpool->thread_count = min_threads;
@@ -577,8 +580,8 @@ zt_threadpool_init(int min_threads, int max_threads, int pipe_iput, int pipe_opu
     if (pipe_oput) {
         if (pipe(tpool->oput_fd_sigs) < 0) {
             if (pipe_iput) {
-                close(tpool->oput_fd_sigs[0]);
-                close(tpool->oput_fd_sigs[1]);
+                close(tpool->iput_fd_sigs[0]);
+                close(tpool->iput_fd_sigs[1]);
             }
 
             free(tpool);
-- 
2.43.0


From dd4a913ff050d0c5a0dba7e290967a2e116f658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 045/128] fix: a work item that cannot be allocated is
 reported, not used

---
 src/libzt/zt_threads.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index e9e60ea..b635716 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -396,7 +396,10 @@ zt_threadpool_insert_iput(zt_threadpool *tpool, void *data) {
     int                  i   = 0;
     int                  ret = 0;
 
-    entry       = calloc(sizeof(zt_threadpool_entry), 1);
+    if (!(entry = calloc(sizeof(zt_threadpool_entry), 1))) {
+        return -1;
+    }
+
     entry->data = data;
 
     zt_threads_lock(0, tpool->iput_mutex);
@@ -421,7 +424,10 @@ zt_threadpool_insert_oput(zt_threadpool *tpool, void *data) {
     int                  i   = 0;
     int                  ret = 0;
 
-    entry       = calloc(sizeof(zt_threadpool_entry), 1);
+    if (!(entry = calloc(sizeof(zt_threadpool_entry), 1))) {
+        return -1;
+    }
+
     entry->data = data;
 
     zt_threads_lock(0, tpool->oput_mutex);
-- 
2.43.0


From 6c343b88a49d9b355bb90ae0d7c5a375a7c2427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 046/128] fix: resetting the pool callbacks resets the
 finalizer

---
 src/libzt/zt_threads.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index b635716..c324438 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -229,6 +229,7 @@ zt_threadpool_set_callbacks(struct zt_threadpool_callbacks *cbs) {
         _zt_threadpool_cbs.init        = NULL;
         _zt_threadpool_cbs.iput_worker = NULL;
         _zt_threadpool_cbs.oput_worker = NULL;
+        _zt_threadpool_cbs.finalize    = NULL;
 
         return 0;
     }
-- 
2.43.0


From ddbc1a9518f9df82543b791d90b7a4d462b128dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 047/128] fix: zt_log_file frees the logger when the file
 cannot be opened

---
 src/libzt/zt_log/log_file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_log/log_file.c b/src/libzt/zt_log/log_file.c
index 1882afd..bc35985 100644
--- a/src/libzt/zt_log/log_file.c
+++ b/src/libzt/zt_log/log_file.c
@@ -86,6 +86,7 @@ zt_log_file(char * file, int fopts, int lopts) {
     }
     if (!this->file) {
         fprintf(stderr, "Could not open file %s: %s\n", file, strerror(errno));
+        zt_free(this);
         return NULL;
     }
 
-- 
2.43.0


From dee209e1ba62de28a9ec50a9abdbe93be673ae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 048/128] fix: zt_time runs the test n times, not n + 1

---
 src/libzt/zt_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_time.c b/src/libzt/zt_time.c
index ac1c97c..1b8dd21 100644
--- a/src/libzt/zt_time.c
+++ b/src/libzt/zt_time.c
@@ -127,7 +127,7 @@ zt_time(int n, struct time_result *tv, void *(*test)(void *), void *data)
     getrusage(RUSAGE_SELF, &rbefore);
 
     if (test && n) {
-        for (i = 0; i <= n; i++) {
+        for (i = 0; i < n; i++) {
             ret = test(data);
         }
     }
-- 
2.43.0


From 68a1b3010367a34485ff0066930742043f50f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 049/128] fix: dequeueing from an empty queue returns NULL like
 popping an empty stack

---
 src/libzt/zt_queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_queue.h b/src/libzt/zt_queue.h
index 40de772..1af57da 100644
--- a/src/libzt/zt_queue.h
+++ b/src/libzt/zt_queue.h
@@ -23,6 +23,10 @@ zt_queue_dequeue(zt_queue_t *queue)
 {
     zt_queue_t * elt;
 
+    if(zt_queue_empty(queue)) {
+        return NULL;
+    }
+
     elt = zt_elist_get_prev(queue);
     zt_elist_remove(elt);
     return (elt);
-- 
2.43.0


From 1d1c486cf47bf921675a73ec12aea6e7671a3c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:45 +0000
Subject: [PATCH 050/128] fix: a configuration entry that cannot be allocated
 is reported, not used

---
 src/libzt/zt_cfg/cfg_private.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index adb2e97..217e4d8 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -87,7 +87,10 @@ add_block(struct zt_cfg_ty* cfg, char* name)
     }
     if (!new) {
         new = zt_calloc(struct zt_cfg_block_ty, 1);
-        new->name = strdup(name);
+        if ((new->name = strdup(name)) == NULL) {
+            zt_free(new);
+            return NULL;
+        }
         new->next = cfg->head;
         cfg->head = new;
     }
@@ -118,7 +121,10 @@ add_variable(struct zt_cfg_block_ty* block, char *name)
     }
     if (!new) {
         new = zt_calloc(struct zt_cfg_value_ty, 1);
-        new->name = strdup(name);
+        if ((new->name = strdup(name)) == NULL) {
+            zt_free(new);
+            return NULL;
+        }
         new->next = block->head;
         block->head = new;
     }
@@ -174,14 +180,24 @@ cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
     struct zt_cfg_value_ty * value = NULL;
     char                   * variable = NULL;
 
-    block_head = add_block(cfg, bvv->block);
-    value = add_variable(block_head, bvv->variable);
+    if (!bvv->block || !bvv->variable || !bvv->value) {
+        return -1;
+    }
+
+    if ((block_head = add_block(cfg, bvv->block)) == NULL ||
+        (value = add_variable(block_head, bvv->variable)) == NULL) {
+        return -1;
+    }
 
     if (value->v.s != NULL) {
         value->altered = 1;
     }
 
     value->type = get_type(bvv->value, &value->v);
+    if (value->type == zt_cfg_string && value->v.s == NULL) {
+        value->type = zt_cfg_int;
+        return -1;
+    }
 
     /* Check for refrences */
     if (value->type == zt_cfg_string) {
-- 
2.43.0


From f0b4607b965abc4fd4df3b74f746ce832d3014aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:45 +0000
Subject: [PATCH 051/128] fix: replacing a string value of a configuration
 frees the old one

---
 src/libzt/zt_cfg/cfg_private.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 217e4d8..7fd80ef 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -193,6 +193,10 @@ cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
         value->altered = 1;
     }
 
+    if (value->type == zt_cfg_string) {
+        free(value->v.s);
+    }
+
     value->type = get_type(bvv->value, &value->v);
     if (value->type == zt_cfg_string && value->v.s == NULL) {
         value->type = zt_cfg_int;
-- 
2.43.0


From 9cab71c1ea604e757493fccb8f47a8f1bfb08671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:46 +0000
Subject: [PATCH 052/128] fix: zt_cfg_set frees its copies and reports failure
 when it rejects a value

---
 src/libzt/zt_cfg/cfg_private.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 7fd80ef..6667319 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -231,6 +231,7 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
                 char *variable_name, void *var, zt_cfg_type type)
 {
     struct cfg_bvv_ty bvv;
+    int               ret = -1;
 
     bvv.block = strdup(block_name);
     bvv.variable = strdup(variable_name);
@@ -246,7 +247,7 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
         case zt_cfg_bool:
             if ((*(int *)var == 1) || (*(int *)var == 0)) {
                 zt_log_printf(zt_log_err, "Invalid value for type zt_cfg_bool in zt_cfg_set!  Must be a string of (true|yes|no|false).");
-                return -1;
+                goto DONE;
             }
         /* FALLTHRU */
         case zt_cfg_string:
@@ -254,15 +255,18 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
             break;
         default:
             zt_log_printf(zt_log_err, "Unknown type in cfg variable list");
-            return -1;
+            goto DONE;
     }
 
-    cfg_insert_bvv(cfg, &bvv);
+    if (cfg_insert_bvv(cfg, &bvv) == 0) {
+        ret = 1;
+    }
 
+DONE:
     free(bvv.block);
     free(bvv.variable);
     free(bvv.value);
-    return 1;
+    return ret;
 }
 
 int
-- 
2.43.0


From bf7f291edfd722432dd84b2a741e2c9617e31799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 053/128] fix: a configuration value never refers to itself

---
 src/libzt/zt_cfg/cfg_private.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 6667319..fc84364 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -213,7 +213,15 @@ cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
             strncpy(block, value->v.s, (variable - value->v.s));
             variable++;    /* move past the '.' */
             if ((b = get_block(cfg->head, block))) {
+                struct zt_cfg_value_ty* end = NULL;
+
                 if ((v = get_variable(b->head, variable))) {
+                    /* a value must not refer to itself, however indirectly */
+                    for (end = v; end != value && end->type == zt_cfg_ref; end = end->v.r) {
+                        ;
+                    }
+                }
+                if (v && end != value) {
                     free(value->v.s);    /* we had to be a string to get here */
                     value->v.r = v;
                     value->type = zt_cfg_ref;
-- 
2.43.0


From fdd106ebe336e29d1de10090cdad15ad75df88ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:48 +0000
Subject: [PATCH 054/128] fix: a configuration file that does not parse leaks
 nothing

---
 src/libzt/zt_cfg/cfg_ini.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 469a95a..aa543e3 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -43,9 +43,8 @@ zt_cfg_ini(char *file, int opts )
 
     cfg->filename = strdup(file);
     cfg->opts = opts;
-    if (parse_cfg(cfg) < 0) {
-        free(cfg->filename);
-        free(cfg);
+    if (cfg->filename == NULL || parse_cfg(cfg) < 0) {
+        zt_cfg_priv_destructor(cfg);
         cfg = NULL;
     }
 
@@ -208,6 +207,7 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
                 ungetc(c, file);
                 if (!(parse_line(file, &bvv))) {
                     zt_log_printf(zt_log_err, "Syntax error in config file at line: %d\n", line);
+                    free(bvv.block);
                     return -1;
                 }
                 cfg_insert_bvv(cfg, &bvv);
-- 
2.43.0


From deefa1aaab82655284a90f2fd79dfb031755c4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:49 +0000
Subject: [PATCH 055/128] fix: a block name that does not fit fails the parse

---
 src/libzt/zt_cfg/cfg_ini.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index aa543e3..c50af6f 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -188,7 +188,10 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
                     free(bvv.block);
                     bvv.block = NULL;
                 }
-                parse_block(file, &bvv);
+                if (parse_block(file, &bvv) < 0) {
+                    zt_log_printf(zt_log_err, "Syntax error in config file at line: %d\n", line);
+                    return -1;
+                }
                 cfg_discard_line(file);
                 break;
             case ';':
-- 
2.43.0


From eddf97d87afaf1ad68376367163781f33872f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 056/128] fix: a configuration entry that could not be stored
 fails the parse

---
 src/libzt/zt_cfg/cfg_ini.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index c50af6f..cd2248d 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -162,6 +162,11 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
     }
     bvv->variable = strdup(var);
     bvv->value = strdup(val);
+    if (!bvv->variable || !bvv->value) {
+        free(bvv->variable);
+        free(bvv->value);
+        return 0;
+    }
     return 1;
 } /* parse_line */
 
@@ -213,9 +218,13 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
                     free(bvv.block);
                     return -1;
                 }
-                cfg_insert_bvv(cfg, &bvv);
+                c = cfg_insert_bvv(cfg, &bvv);
                 free(bvv.variable);
                 free(bvv.value);
+                if (c < 0) {
+                    free(bvv.block);
+                    return -1;
+                }
                 numents++;
                 break;
         } /* switch */
-- 
2.43.0


From e47b8d85c2d7d881918c7c11cfa282b4fc41003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 057/128] fix: stripping an empty configuration value stays
 inside the value

---
 src/libzt/zt_cfg/cfg_ini.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index cd2248d..c16d123 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -148,9 +148,9 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
 
     vallen = strlen(val);
     /* strip trailing whitespace */
-    for (i = vallen - 1; i > 0; i--) {
-        if ((val[i] == ' ') || (val[i] == '\t')) {
-            val[i] = '\0';
+    for (i = vallen; i > 0; i--) {
+        if ((val[i - 1] == ' ') || (val[i - 1] == '\t')) {
+            val[i - 1] = '\0';
         } else {
             break;
         }
-- 
2.43.0


From 611ffed94793bb024752c9794dedab14372f332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:36 +0000
Subject: [PATCH 058/128] fix: zt_fmt %d prints INT_MAX as INT_MAX

---
 src/libzt/zt_format.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 21dbf4c..faa5b28 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -484,8 +484,8 @@ cvt_d(int code UNUSED, void * value,
     char         buf[43];
     char       * p = buf + sizeof(buf);
 
-    if (val == INT_MAX) {
-        m = INT_MAX + 1U; /* -1 */
+    if (val == INT_MIN) {
+        m = INT_MAX + 1U; /* -INT_MIN does not fit an int */
     } else if (val < 0) {
         m = -val;
     } else {
-- 
2.43.0


From c1b9c4c23d327fe5080a7646ac79d04792f69f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 059/128] fix: zt_fmt floating point conversions are reentrant
 and bounded

---
 src/libzt/zt_format.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index faa5b28..5ec7c80 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -511,7 +511,7 @@ cvt_f(int code, void * value,
       ssize_t width, ssize_t precision)
 {
     char        buf[DBL_MAX_10_EXP + 1 + 1 + 99 + 1];
-    static char fmt[] = "%.dd?";
+    char        fmt[] = "%.dd?";
 
     if (precision < 0) {
         precision = 6;
@@ -521,7 +521,10 @@ cvt_f(int code, void * value,
         precision = 1;
     }
 
-    zt_assert(precision <= 99);
+    if (precision > 99) {
+        precision = 99; /* all that buf and fmt have room for */
+    }
+
     fmt[4] = code;
     fmt[3] = precision % 10 + '0';
     fmt[2] = (precision / 10) % 10 + '0';
-- 
2.43.0


From 9dad9174581e223e7910e1a6ee98753e1efb1d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 060/128] fix: zt_fmt_sprintf never writes past the buffer it
 is given

---
 src/libzt/zt_format.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 5ec7c80..fe741ae 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -167,8 +167,8 @@ zt_fmt_vsprintf(char *buf, size_t size, const char *fmt, va_list ap)
     cl.size = size;
 
     zt_fmt_vformat(zt_fmt_insert, &cl, fmt, ap);
-    zt_fmt_insert(0, &cl);
-    return cl.bp - cl.buf - 1;
+    *cl.bp = '\0';
+    return cl.bp - cl.buf;
 }
 
 char * zt_fmt_strprintf(const char *fmt, ...)
@@ -644,10 +644,10 @@ zt_fmt_insert(int c, void *cl)
 {
     struct zt_fmt_obuf * p = cl;
 
-    zt_assert(p->bp < p->buf + p->size);
-    /* if (p->bp >= p->buf + p->size) { */
-        /* TRY_THROW(zt_exception.format.overflow); */
-    /* } */
+    /* always leave space for the terminating nul */
+    if (p->bp + 1 >= p->buf + p->size) {
+        return 0;
+    }
 
     *p->bp++ = c;
     return c;
-- 
2.43.0


From 0ea1ccdcd10a92e8254696fbff79f3ed077bf5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 061/128] fix: zt_fmt survives an unknown or missing conversion

---
 src/libzt/zt_format.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index fe741ae..d28bf42 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -261,8 +261,14 @@ size_t zt_fmt_vformat(zt_fmt_put_f put, void *cl,
             }
 
             c = *fmt++;
-            zt_assert(cvt[c].f && cvt[c].t);
-            {
+            if (c == '\0') {
+                break;
+            }
+
+            if (!cvt[c].f) {
+                /* not a conversion, emit it as is */
+                tlen += put(c, cl);
+            } else {
                 union {
                     int             i;
                     unsigned int    u;
-- 
2.43.0


From bfb5c035cb32a6c44ee02cca18fef2c8a47c7a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 062/128] fix: zt_fmt pads left justified strings and puts the
 sign next to the number

---
 src/libzt/zt_format.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index d28bf42..d5d8b03 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -357,6 +357,10 @@ zt_fmt_puts(const char *str, size_t len,
 
     EMIT_STR(str, len, cl, tlen);
 
+    if (flags['-']) {
+        pad(width - len, ' ', tlen);
+    }
+
     return tlen;
 }
 
@@ -415,10 +419,10 @@ zt_fmt_putd(const char *str, size_t len,
         }
         pad(width - n, '0', tlen);
     } else {
+        pad(width - n, ' ', tlen);
         if (sign) {
             tlen += put(sign, cl);
         }
-        pad(width - n, ' ', tlen);
     }
 
     pad(precision - len, '0', tlen);
-- 
2.43.0


From 68b69e31b0ddc39d74d6122054eb448e4a0e508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 063/128] fix: zt_fmt functions return the number of characters
 they emit

---
 src/libzt/zt_format.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index d5d8b03..f06a56a 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -458,7 +458,7 @@ zt_fmt_outc(int c, void *cl)
 {
     FILE *f = cl;
 
-    return putc(c, f);
+    return putc(c, f) == EOF ? 0 : 1;
 }
 
 static size_t
@@ -660,7 +660,7 @@ zt_fmt_insert(int c, void *cl)
     }
 
     *p->bp++ = c;
-    return c;
+    return 1;
 }
 
 static int
@@ -675,5 +675,5 @@ zt_fmt_append(int c, void *cl)
     }
 
     *p->bp++ = c;
-    return c;
+    return 1;
 }
-- 
2.43.0


From b4b456b73a8842fa76a1d7c3a3ab8322c777012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 064/128] fix: hashing does not modify (or require aligned)
 data

---
 src/libzt/zt_sha1.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 1af5ed8..48d2049 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -56,11 +56,13 @@ _sha1_transform(uint32_t state[5], uint8_t buffer[64])
     uint32_t       c;
     uint32_t       d;
     uint32_t       e;
-    CHAR64LONG16 * block;
+    CHAR64LONG16   work;
+    CHAR64LONG16 * block = &work;
 
     /* uint32_t      block[80]; */
 
-    block = (CHAR64LONG16 *)buffer;
+    /* the schedule is computed in place, leave the callers data alone */
+    memcpy(&work, buffer, sizeof(work));
 
     a = state[0];
     b = state[1];
-- 
2.43.0


From 88849bdc90940eaa231e9c724cd1dd2993358c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 065/128] fix: zt_uuid_fromstr rejects strings that are not
 hexadecimal

---
 src/libzt/zt_uuid.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index c1ac0ac..405923a 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -342,19 +342,25 @@ zt_uuid_fromstr(char * uuidstr, zt_uuid_t * uuid, zt_uuid_flags_t flags) {
         if (strlen(uuidstr) != UUID_STR_LEN) {
             return -1;
         }
-        sscanf(uuidstr, "%8s-%4s-%4s-%4s-%12s",
-               uuid_hex,
-               &uuid_hex[8],
-               &uuid_hex[12],
-               &uuid_hex[16],
-               &uuid_hex[20]);
-        zt_hex_to_binary(uuid_hex, UUID_SHORT_STR_LEN, uuid->data.bytes, UUID_ALEN);
+        if (sscanf(uuidstr, "%8s-%4s-%4s-%4s-%12s",
+                   uuid_hex,
+                   &uuid_hex[8],
+                   &uuid_hex[12],
+                   &uuid_hex[16],
+                   &uuid_hex[20]) != 5) {
+            return -1;
+        }
+        if (zt_hex_to_binary(uuid_hex, UUID_SHORT_STR_LEN, uuid->data.bytes, UUID_ALEN) != UUID_ALEN) {
+            return -1;
+        }
     } else if (flags == zt_uuid_short_fmt) {
         if (strlen(uuidstr) != UUID_SHORT_STR_LEN) {
             return -1;
         }
         memcpy(uuid_hex, uuidstr, UUID_SHORT_STR_LEN);
-        zt_hex_to_binary(uuid_hex, UUID_SHORT_STR_LEN, uuid->data.bytes, UUID_ALEN);
+        if (zt_hex_to_binary(uuid_hex, UUID_SHORT_STR_LEN, uuid->data.bytes, UUID_ALEN) != UUID_ALEN) {
+            return -1;
+        }
     } else if ((flags == zt_uuid_base62_fmt) || (flags == zt_uuid_base62_hashable_fmt)) {
         uint64_t v1 = 0;
         uint64_t v2 = 0;
-- 
2.43.0


From b444cd868edfcb878872ab6fa660726173a6aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 066/128] fix: zt_uuid_fromstr rejects base62 strings of the
 wrong length

---
 src/libzt/zt_uuid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index 405923a..dfa4d44 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -368,6 +368,10 @@ zt_uuid_fromstr(char * uuidstr, zt_uuid_t * uuid, zt_uuid_flags_t flags) {
         int       x;
         int       ok1;
 
+        if (strlen(uuidstr) != UUID_BASE62_STR_LEN) {
+            return -1;
+        }
+
         /*  reverse the first _UUID_BASE62_SEGMENT bytes to move the less truncated bits forward */
         if (flags == zt_uuid_base62_hashable_fmt) {
             char      t_uuidstr[_UUID_BASE62_SEGMENT];
-- 
2.43.0


From dd97b645298e284baeeabaa6e70aa27459933259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 067/128] fix: running a test by an empty or partial name
 reports it as not found

---
 src/libzt/zt_unit.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index c7a6d02..cc5b2c1 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -346,7 +346,7 @@ int
 zt_unit_run_by_name(struct zt_unit    * unit,
                     char    * name)
 {
-    int                    count;
+    int                    count = 0;
     char                 **targetv;
     struct zt_unit_suite * unit_suite = NULL;
     struct zt_unit_test  * unit_test = NULL;
@@ -356,7 +356,12 @@ zt_unit_run_by_name(struct zt_unit    * unit,
 
     targetv = str_split(name, ".", &count);
 
-    if (count <= 0 || count > 2) {
+    if (targetv == NULL || count <= 0 || count > 2) {
+        result = -1;
+        goto done;
+    }
+
+    if (targetv[0] == NULL || (count == 2 && targetv[1] == NULL)) {
         result = -1;
         goto done;
     }
-- 
2.43.0


From 79a53e9a391e8d429355705ac87fb67b5ced75d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 068/128] fix: looking past the end of a list yields NULL

---
 src/libzt/zt_llist.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_llist.h b/src/libzt/zt_llist.h
index 9efc3c2..c2c8725 100644
--- a/src/libzt/zt_llist.h
+++ b/src/libzt/zt_llist.h
@@ -53,9 +53,7 @@ zt_llist_nth(zt_llist pair, int offt)
         pair = zt_llist_tail(pair);
     }
 
-    zt_assert(pair != NULL);
-
-    return (zt_llist_head(pair));
+    return (pair ? zt_llist_head(pair) : NULL);
 }
 
 static INLINE zt_llist
@@ -66,8 +64,7 @@ zt_llist_nthtail(zt_llist pair, int offt)
         pair = zt_llist_tail(pair);
     }
 
-    zt_assert(pair != NULL);
-    return (zt_llist_tail(pair));
+    return (pair ? zt_llist_tail(pair) : NULL);
 }
 
 static INLINE zt_llist
-- 
2.43.0


From 4b7f18b8c3bfcdeb6f5300b347c91f6ef0584bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 069/128] fix: option values work without a long name and never
 run past the arguments

---
 src/libzt/zt_opts.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 2967df4..a1bba55 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -110,7 +110,7 @@ zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args
         /* there was no '=' embedded
          * try matching the long opt name
          */
-        if (strcmp(lopt, pp) == 0) {
+        if (lopt != ZT_OPT_NLO && strcmp(lopt, pp) == 0) {
             result = argv[argn + 1]; /* default to the next option */
             *args_consumed = 1;
         } else {
@@ -126,6 +126,7 @@ zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args
     }
 
     if (!result) {
+        *args_consumed = 0;
         error(EINVAL, "while processing arg '%s'", argv[argn]);
     }
 
-- 
2.43.0


From 2d66d2bfcc407009892c7fd0bdf6187fe2dfd694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 070/128] fix: an option without its value is reported, not
 dereferenced

---
 src/libzt/zt_opts.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index a1bba55..0baa89e 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -146,6 +146,10 @@ zt_opt_intmax(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
     int      args_consumed = 0;
     char   * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     errno  = 0;
     result = strtoimax(arg, &end, 0);
 
@@ -175,6 +179,10 @@ zt_opt_long(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt
     int    args_consumed = 0;
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     errno  = 0;
     result = strtol(arg, &end, 0);
 
@@ -202,6 +210,10 @@ zt_opt_bool_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def
     int    args_consumed = 0;
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     len = strlen(arg);
 
     if (len == 1) {
-- 
2.43.0


From 00597b99ee5ab1a51cf9113f6efb85af16b9f1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 071/128] fix: zt_log_lstrerror logs the error text and never
 uses it as a format

---
 src/libzt/zt_log.c | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index b17559b..a4eb36d 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -265,8 +265,7 @@ EXIT:
 void
 zt_log_lstrerror(zt_log_ty * log, zt_log_level level, int errnum, const char * fmt, ...) {
     va_list ap;
-    size_t llen;
-    char    * nfmt;
+    char    * msg = NULL;
 
     if (!log && ((log = zt_log_get_logger()) == NULL)) {
         zt_log_set_debug_info(NULL, -1, NULL);
@@ -278,23 +277,15 @@ zt_log_lstrerror(zt_log_ty * log, zt_log_level level, int errnum, const char * f
         return;
     }
 
-    llen           = strlen(fmt);
-
-
-    nfmt           = (char*)malloc(llen + 256);
-    memcpy(nfmt, fmt, llen);
-    nfmt[llen]     = ':';
-    nfmt[llen + 1] = ' ';
-
-    if (strerror_r(errnum, nfmt + (llen + 2), 255 - 2) != 0) {
-      zt_log_lprintf(log, zt_log_crit, "Could not capture error string");
-    }
-
     va_start(ap, fmt);
-    zt_log_lvprintf(log, level, nfmt, ap);
+    if (vasprintf(&msg, fmt, ap) < 0) {
+        msg = NULL;
+    }
     va_end(ap);
 
-    free(nfmt);
+    zt_log_lprintf(log, level, "%s: %s", msg ? msg : fmt, strerror(errnum));
+
+    free(msg);
 }
 
 void
-- 
2.43.0


From f769323c1c3dba9ba63ce61dff2303f063653d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 072/128] fix: zt_mkdir gives up when the directory cannot be
 created

---
 src/libzt/zt_path.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 1c54921..e0f4ed3 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -20,6 +20,8 @@ zt_mkdir(const char * path, mode_t mode, zt_mkdir_flags flags) {
     struct stat sbuf;
     ssize_t     pslen;
 
+    int         parents = 0;
+
     errno = 0;
 
 AGAIN:
@@ -35,6 +37,12 @@ AGAIN:
             return -1;
         }
 
+        if (parents) {
+            /* the parents are there, so it is something else */
+            return -1;
+        }
+        parents = 1;
+
         pslen = strlen(PATH_SEPERATOR);
         len   = strlen(path);
         memset(cpath, 0, sizeof(cpath));
-- 
2.43.0


From 0585b216e704f326939622057e4bebe6c685bc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 073/128] fix: paths longer than PATH_MAX are rejected, not
 left unterminated

---
 src/libzt/zt_path.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index e0f4ed3..3a28c2f 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -45,6 +45,10 @@ AGAIN:
 
         pslen = strlen(PATH_SEPERATOR);
         len   = strlen(path);
+        if ((size_t)len >= sizeof(cpath)) {
+            errno = ENAMETOOLONG;
+            return -1;
+        }
         memset(cpath, 0, sizeof(cpath));
 
         offt  = 0;
@@ -102,8 +106,12 @@ char *zt_find_basedir(const char * path, const char * trigger) {
     char        lpath[PATH_MAX + 1];
 
     len = strlen(path);
+    if (len >= sizeof(lpath)) {
+        errno = ENAMETOOLONG;
+        return NULL;
+    }
     memset(lpath, 0, sizeof(lpath));
-    memcpy(lpath, path, MIN(len, sizeof(cpath)));
+    memcpy(lpath, path, len);
 
     do {
         memset(cpath, 0, sizeof(cpath));
-- 
2.43.0


From 0441dadc54952f6cfd686706cdd5b553c022e078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 074/128] fix: splitting a string neither leaks nor stores
 pieces it could not add

---
 src/libzt/zt_cstr.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index a684fee..6f9caa2 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -921,6 +921,22 @@ zt_cstr_cut_free(zt_ptr_array *array) {
     return zt_ptr_array_free(array, 1);
 }
 
+static int
+cuts_add(zt_ptr_array *cuts, const char *str) {
+    char * copy = strdup(str);
+
+    if (copy == NULL) {
+        return -1;
+    }
+
+    if (zt_ptr_array_add(cuts, copy) < 0) {
+        free(copy);
+        return -1;
+    }
+
+    return 0;
+}
+
 zt_ptr_array *
 zt_cstr_split(const char *str, const char *delim) {
     char         *str_copy;
@@ -942,7 +958,7 @@ zt_cstr_split(const char *str, const char *delim) {
     }
 
     for (tok = strtok_r(str_copy, delim, &endptr); tok != NULL; tok = strtok_r(NULL, delim, &endptr)) {
-        if (zt_ptr_array_add(split_array, (void *)strdup(tok)) < 0) {
+        if (cuts_add(split_array, tok) < 0) {
             zt_ptr_array_free(split_array, 1);
             free(str_copy);
             return NULL;
@@ -977,7 +993,7 @@ zt_cstr_cut(const char *str, const int delim, int keep_delim) {
             break;
         }
 
-        if (zt_ptr_array_add(cuts, (void *)strdup((char *)(cut_tok - keep_delim))) < 0) {
+        if (cuts_add(cuts, cut_tok - keep_delim) < 0) {
             zt_ptr_array_free(cuts, 1);
             free(str_copy);
             return NULL;
@@ -1014,7 +1030,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
             break;
         }
 
-        if (zt_ptr_array_add(cuts, (void *)strdup(str_copy)) < 0) {
+        if (cuts_add(cuts, str_copy) < 0) {
             zt_ptr_array_free(cuts, 1);
             free(str_copy);
             return NULL;
@@ -1023,7 +1039,11 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
         *cut_tok = '\0';
     }
 
-    zt_ptr_array_add(cuts, (void *)strdup(str_copy));
+    if (cuts_add(cuts, str_copy) < 0) {
+        zt_ptr_array_free(cuts, 1);
+        free(str_copy);
+        return NULL;
+    }
     free(str_copy);
 
     return cuts;
-- 
2.43.0


From 08f50ab772bc3f9150c773739ff9c9947eeadf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 075/128] fix: log: program, host, file and function names are
 not part of the format

---
 src/libzt/zt_log/log_private.c | 48 ++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/libzt/zt_log/log_private.c b/src/libzt/zt_log/log_private.c
index 7a56223..fa4a688 100644
--- a/src/libzt/zt_log/log_private.c
+++ b/src/libzt/zt_log/log_private.c
@@ -62,6 +62,27 @@ zt_log_new(zt_log_vtbl_ty * vptr, unsigned int opts) {
     return result;
 }
 
+/* append text to a format so that it prints as it is */
+static char *
+fmt_add_text(char * buff, size_t * len, const char * text) {
+    const char * p;
+    char       * out;
+
+    for (p = text; *p; p++) {
+        *len += (*p == '%') ? 2 : 1;
+    }
+
+    buff = zt_realloc(char, buff, *len);
+    for (out = buff + strlen(buff), p = text; *p; p++) {
+        if (*p == '%') {
+            *out++ = '%';
+        }
+        *out++ = *p;
+    }
+    *out = '\0';
+    return buff;
+}
+
 char*
 zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, const char * function, zt_log_level level, unsigned int opts) {
     size_t len  = 0;
@@ -91,18 +112,15 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
         if (t) {
             *t = '\0';
         }
-        len += strlen(sbuf) + 1;    /* sbuf + space */
-        buff = zt_realloc(char, buff, len);
-        strcat(buff, sbuf);
+        len += 1;    /* space */
+        buff = fmt_add_text(buff, &len, sbuf);
         if ((opts > ZT_LOG_WITH_SYSNAME)) {
             strcat(buff, " ");
         }
     }
 
     if (opts & ZT_LOG_WITH_PROGNAME) {
-        len += strlen(zt_progname(NULL, 0)); /* progname */
-        buff = zt_realloc(char, buff, len);
-        strcat(buff, zt_progname(NULL, 0));
+        buff = fmt_add_text(buff, &len, zt_progname(NULL, 0));
     }
 
     if (opts & ZT_LOG_WITH_PID) {
@@ -130,18 +148,16 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
     }
     strcat(buff, fmt);
     if (((file) && (line > -1) && (function))) {
-        char * nbuff = NULL;
-        size_t nlen  = 13;    /* ': in  at (:)' + null */
-
-        nlen += strlen(file);
-        nlen += strlen(function);
-        nlen += 10;    /* length of a int to str */
-        nbuff = zt_calloc(char, nlen); /* mem_calloc(nlen, sizeof(char)); */
-        sprintf(nbuff, ": in %s at (%s:%d)", function, file, line);
-        len  += nlen;
+        char nbuff[10 + 3];    /* length of a int to str + ':)' + null */
+
+        len  += 12 + 10;       /* ': in  at (:)' + length of a int to str */
         buff  = zt_realloc(char, buff, len);
+        strcat(buff, ": in ");
+        buff  = fmt_add_text(buff, &len, function);
+        strcat(buff, " at (");
+        buff  = fmt_add_text(buff, &len, file);
+        sprintf(nbuff, ":%d)", line);
         strcat(buff, nbuff);
-        zt_free(nbuff);
     }
     strcat(buff, "\n");
     return buff;
-- 
2.43.0


From 0a3c99ae93ac454c874717a86666f9f55bf22384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 076/128] fix: set: union, intersection and difference stopped
 at the first element already in the result

---
 src/libzt/zt_set.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 20945e4..e7d8cec 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -83,7 +83,8 @@ static int _union(void *key UNUSED, size_t key_len, void *datum, size_t datum_le
 
     p = (struct _set_pair *)param;
 
-    return zt_set_insert(p->s2, datum, datum_len);
+    /* an element that is there already is no reason to stop */
+    return zt_set_insert(p->s2, datum, datum_len) < 0 ? -1 : 0;
 }
 
 int zt_set_union(zt_set *setu, const zt_set *set1, const zt_set *set2)
@@ -92,10 +93,11 @@ int zt_set_union(zt_set *setu, const zt_set *set1, const zt_set *set2)
 
     s.s2 = setu;
 
-    zt_table_for_each(set1->tbl, _union, &s);
-    zt_table_for_each(set2->tbl, _union, &s);
+    if (zt_table_for_each(set1->tbl, _union, &s) != 0) {
+        return -1;
+    }
 
-    return 0;
+    return zt_table_for_each(set2->tbl, _union, &s);
 }
 
 static int _intersect(void *key UNUSED, size_t key_len, void *datum, size_t datum_len, void *param)
@@ -105,7 +107,7 @@ static int _intersect(void *key UNUSED, size_t key_len, void *datum, size_t datu
     p = (struct _set_pair *)param;
 
     if (zt_set_is_member(p->s1, datum, datum_len)) {
-        return zt_set_insert(p->s2, datum, datum_len);
+        return zt_set_insert(p->s2, datum, datum_len) < 0 ? -1 : 0;
     }
     return 0;
 }
@@ -127,7 +129,7 @@ static int _difference(void *key UNUSED, size_t key_len, void *datum, size_t dat
     p = (struct _set_pair *)param;
 
     if (!zt_set_is_member(p->s1, datum, datum_len)) {
-        return zt_set_insert(p->s2, datum, datum_len);
+        return zt_set_insert(p->s2, datum, datum_len) < 0 ? -1 : 0;
     }
     return 0;
 }
-- 
2.43.0


From 47b6e0ae6b762af3116a703e895b4d8d9b3dc511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 077/128] fix: set: removal looked for an element of length 0
 and never found any

---
 src/libzt/zt_set.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index e7d8cec..320d327 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -61,10 +61,34 @@ zt_set_insert(zt_set *set, const void *data, size_t len)
     return 0;
 }
 
+struct _set_find {
+    zt_set     * set;
+    const void * data;
+    size_t       len;
+};
+
+/* the length of the element equal to data */
+static int _find_len(void *key UNUSED, size_t key_len, void *datum UNUSED, size_t datum_len UNUSED, void *param)
+{
+    struct _set_find * f = (struct _set_find *)param;
+
+    if (zt_set_is_member(f->set, f->data, key_len)) {
+        f->len = key_len;
+        return 1;
+    }
+    return 0;
+}
+
 int zt_set_remove(zt_set *set, void **data)
 {
+    struct _set_find f = { NULL, NULL, 0 };
+
+    f.set = set;
+    f.data = *data;
+    zt_table_for_each(set->tbl, _find_len, &f);
+
     errno = 0;
-    *data = zt_table_del(set->tbl, *data, 0);
+    *data = zt_table_del(set->tbl, *data, f.len);
     if (*data == NULL && errno == ENOENT) {
         return 1;
     }
-- 
2.43.0


From 1fda63f4be2c4394ef84baa0b3768b30441791ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 078/128] fix: ptr_array: appending an array to itself never
 ended

---
 src/libzt/zt_ptr_array.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index e29c8ef..8c26934 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -118,12 +118,16 @@ zt_ptr_array_del(zt_ptr_array * array, void * data) {
 int
 zt_ptr_array_cat(zt_ptr_array * dst, zt_ptr_array * src) {
     int32_t i;
+    int32_t count;
 
     if (dst == NULL || src == NULL) {
         return -1;
     }
 
-    for (i = 0; i < src->count; i++) {
+    /* dst may be src */
+    count = src->count;
+
+    for (i = 0; i < count; i++) {
         if (zt_ptr_array_add(dst, zt_ptr_array_get_idx(src, i))) {
             return -1;
         }
-- 
2.43.0


From 4be89fc1b24b9b8a3880cd0a97f82fc94d40f176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 079/128] fix: zt_time_calibrate always calibrated to zero (it
 subtracted the result from itself)

---
 src/libzt/zt_time.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_time.c b/src/libzt/zt_time.c
index 1b8dd21..381d2da 100644
--- a/src/libzt/zt_time.c
+++ b/src/libzt/zt_time.c
@@ -103,7 +103,13 @@ static struct time_result _calibration_time = { { 0, 0 }, { 0, 0 } };
 void
 zt_time_calibrate(void)
 {
-    zt_time(0, &_calibration_time, NULL, NULL);
+    static const struct time_result none = { { 0, 0 }, { 0, 0 } };
+    struct time_result              overhead;
+
+    /* measure apart: zt_time takes the current calibration off its result */
+    _calibration_time = none;
+    zt_time(0, &overhead, NULL, NULL);
+    _calibration_time = overhead;
 }
 
 /*!
-- 
2.43.0


From 03a3d352038d5d25ffe7155b5434d309749965d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 080/128] fix: zt_gc_protect during a scan released what only
 the protected object refers to

---
 src/libzt/zt_gc.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index 16eaf04..bfcb066 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -83,8 +83,14 @@ zt_gc_protect(zt_gc_t *gc, void *value)
     mark = (zt_gc_collectable_t    *)value;
 
     gc->clear_white(mark);
-    zt_elist_remove(&mark->list);
-    zt_elist_add(gc->grey, &mark->list);
+    /* it has to be scanned in the current cycle, for the sake of what it
+     * refers to: place it where the scan has yet to come by (the scan is
+     * about to visit the object it has stopped at)
+     */
+    if (gc->scan != &mark->list) {
+        zt_elist_remove(&mark->list);
+        zt_elist_add_tail(gc->grey, &mark->list);
+    }
     ZT_BIT_SET(mark->colour, protected);
 }
 
-- 
2.43.0


From 9bef943266c9e6e43d5d3a1da2fcca26a67418f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 081/128] fix: zt_gc_mark of the object an incremental scan
 stopped at made the scan skip others

---
 src/libzt/zt_gc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index bfcb066..eb99b34 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -406,8 +406,10 @@ zt_gc_mark(zt_gc_t *gc, void *value)
 
     if (!is_protected(mark) && gc->is_white(mark)) {
         gc->clear_white(mark);
-        zt_elist_remove(&mark->list);
-        zt_elist_add_tail(gc->grey, &mark->list);
+        if (gc->scan != &mark->list) {
+            zt_elist_remove(&mark->list);
+            zt_elist_add_tail(gc->grey, &mark->list);
+        } /* else the scan has stopped here and must not be carried off */
         return TRUE;
     }
     return FALSE;
-- 
2.43.0


From 3d57cdf2e550f9bd4d3c03c2be2266702b7ba258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:18 +0000
Subject: [PATCH 082/128] fix: zt_sha1_tostr left its text unterminated

---
 src/libzt/zt_sha1.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 48d2049..715031c 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -181,6 +181,7 @@ char*
 zt_sha1_tostr(uint8_t digest[20], char sha1[41])
 {
     zt_binary_to_hex(digest, 20, sha1, 41);
+    sha1[40] = 0;
     return sha1;
 }
 
-- 
2.43.0


From 16171eb5bb4744c50f1892b542944df12599ed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 083/128] fix: threads that start together do not draw the same
 random uuids

---
 src/libzt/zt_uuid.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index dfa4d44..ea87d20 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -41,6 +41,25 @@ make_ctx_key(void) {
 #  define CTX_STATIC static
 #endif /* not HAVE_PTHREADS */
 
+/* every thread has a generator of its own: seed it with more than the time
+ * in seconds, or threads that start together draw the same uuids
+ */
+static void
+zt_uuid4_seed(zt_random_state * state) {
+    struct timeval now = { 0, 0 };
+    uint64_t       id  = (uint64_t)(uintptr_t)state;
+    uint32_t       seed[4];
+
+    (void)gettimeofday(&now, NULL);
+
+    seed[0] = (uint32_t)now.tv_sec;
+    seed[1] = (uint32_t)now.tv_usec;
+    seed[2] = (uint32_t)id;
+    seed[3] = (uint32_t)(id >> 32);
+
+    zt_random_initstate(state, seed, sizeof_array(seed));
+}
+
 zt_random_state *
 zt_uuid4_get_ctx(void) {
     CTX_STATIC zt_random_state * state = NULL;
@@ -54,6 +73,7 @@ zt_uuid4_get_ctx(void) {
                 zt_log_printf(zt_log_err, "Could not allocate memory for uuid4 context");
                 exit(1);
             }
+            zt_uuid4_seed(state);
 #ifdef HAVE_PTHREADS
         pthread_setspecific(ctx_key, state);
         }
@@ -65,18 +85,12 @@ zt_uuid4_get_ctx(void) {
 int
 zt_uuid4(zt_uuid_t * uuid) {
     uint32_t                  v;
-    static zt_random_state  * state;
-    static int                rand_initialized  = 0;
+    zt_random_state         * state;
 
     zt_assert(uuid);
 
     state = zt_uuid4_get_ctx();
 
-    if (rand_initialized == 0) {
-        zt_random_srandom(state, (uint32_t)time(NULL));
-        rand_initialized = 1;
-    }
-
     v = zt_random_uint32(state), memcpy(&uuid->data.bytes, &v, 4);
     v = zt_random_uint32(state), memcpy(&uuid->data.bytes[4], &v, 4);
     v = zt_random_uint32(state), memcpy(&uuid->data.bytes[8], &v, 4);
-- 
2.43.0


From cf0a95ae0f75577f7bdafc8cca4dca6691c1c607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 084/128] fix: a thread pool that lacks its threads, locks or
 conditions is not handed out

---
 src/libzt/zt_threads.c | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index c324438..ae25806 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -609,6 +609,44 @@ zt_threadpool_init(int min_threads, int max_threads, int pipe_iput, int pipe_opu
         tpool->oput_threads = calloc(sizeof(zt_threads_thread *), min_threads);
     }
 
+    if ((min_threads > 0 &&
+         (!tpool->iput_threads || (_zt_threadpool_cbs.oput_loop && !tpool->oput_threads))) ||
+        (_zt_threads_lock_cbs.alloc && (!tpool->iput_mutex || !tpool->oput_mutex)) ||
+        (_zt_threads_cond_cbs.alloc && (!tpool->iput_cond || !tpool->oput_cond))) {
+        int i;
+
+        for (i = 0; i < 2; i++) {
+            if (tpool->iput_fd_sigs[i] >= 0) {
+                close(tpool->iput_fd_sigs[i]);
+            }
+
+            if (tpool->oput_fd_sigs[i] >= 0) {
+                close(tpool->oput_fd_sigs[i]);
+            }
+        }
+
+        if (tpool->iput_mutex) {
+            zt_threads_free_lock(tpool->iput_mutex, 0);
+        }
+
+        if (tpool->oput_mutex) {
+            zt_threads_free_lock(tpool->oput_mutex, 0);
+        }
+
+        if (tpool->iput_cond) {
+            zt_threads_cond_free(tpool->iput_cond);
+        }
+
+        if (tpool->oput_cond) {
+            zt_threads_cond_free(tpool->oput_cond);
+        }
+
+        free(tpool->iput_threads);
+        free(tpool->oput_threads);
+        free(tpool);
+        return NULL;
+    }
+
     TAILQ_INIT(&tpool->iput_queue);
     TAILQ_INIT(&tpool->oput_queue);
 
-- 
2.43.0


From e5dfa9e5fc48344a156b1fd5f7184658de595ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:09 +0000
Subject: [PATCH 085/128] fix: zt_fmt: the + flag had no effect

---
 src/libzt/zt_format.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index f06a56a..5bd4c3c 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -384,6 +384,8 @@ zt_fmt_putd(const char *str, size_t len,
          *str == '+')) {
         sign = *str++;
         len--;
+    } else if (flags['+']) {
+        sign = '+';
     } else if (flags[' ']) {
         sign = ' ';
     } else {
-- 
2.43.0


From 50271cf023f6d56d72697ad690834d3be1e950e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:10 +0000
Subject: [PATCH 086/128] fix: zt_fmt: zero with a precision of zero was given
 beyond its width

---
 src/libzt/zt_format.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 5bd4c3c..3e9cf8c 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -402,7 +402,7 @@ zt_fmt_putd(const char *str, size_t len,
     } else if (precision == 0 &&
                len == 1 &&
                str[0] == '0') {
-        n = 0;
+        n = len = 0;
     } else {
         n = len;
     }
-- 
2.43.0


From 1a9dee4241cb60aa8535466652bc8e6713e069d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:11 +0000
Subject: [PATCH 087/128] fix: zt_fmt: real numbers were given with leading
 zeros up to their precision

---
 src/libzt/zt_format.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 3e9cf8c..1fc740a 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -543,8 +543,9 @@ cvt_f(int code, void * value,
 
     sprintf(buf, fmt, *(double *)value);
 
+    /* buf has its precision, to putd it would be a number of digits */
     return zt_fmt_putd(buf, strlen(buf), put, cl,
-                       flags, width, precision);
+                       flags, width, INT_MIN);
 }
 
 static size_t
-- 
2.43.0


From 1ebeefd3edb8e340667f78694a04e4a922a78537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:12 +0000
Subject: [PATCH 088/128] fix: zt_fmt: %c passed a negative character on where
 every other conversion passes an unsigned one

---
 src/libzt/zt_format.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 1fc740a..7ef3de4 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -470,7 +470,7 @@ cvt_c(int code UNUSED, void * value,
       ssize_t width, ssize_t precision UNUSED)
 {
     size_t tlen = 0;
-    char    c = *(unsigned int *)value;
+    unsigned char c = *(unsigned int *)value;
 
     NORMALIZE_WIDTH(width, flags);
 
-- 
2.43.0


From 81aa31cced701f7b8138bb27ae26cae5f423a4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:40 +0000
Subject: [PATCH 089/128] fix: zt_mem_pool_release_free_pages: pages released
 were not counted as freed

---
 src/libzt/zt_mem.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 42cf4bf..3bf3cfe 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -346,6 +346,7 @@ zt_mem_pool_release_free_pages(zt_mem_pool *pool)
 
         if (page->num_free_elts == pool->elts_per_page) {
             zt_mem_page_destroy(page);
+            pool->page_frees++;
         }
     }
 
-- 
2.43.0


From 0072750d42d05f5a01abcee0efee3dc0aed48f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 090/128] fix: zt_ipv4_str2net: a prefix length that is no
 number was taken as 0, the network of everything

---
 src/libzt/zt_ipv4_tbl.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index c7c80b5..6af07ee 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -335,7 +335,8 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
     char *save;
     char *str_cp;
     char *cp;
-    int   bitlen = 32;
+    char *end;
+    long  bitlen = 32;
 
     if (!str || !outaddr || !outbitlen) {
         return -1;
@@ -351,9 +352,9 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
     }
 
     if ((cp = strchr(str_cp, '/')) != NULL) {
-        bitlen = atoi(cp + 1);
+        bitlen = strtol(cp + 1, &end, 10);
 
-        if ((cp - str_cp) > MAXLINE - 1) {
+        if (end == cp + 1 || *end != '\0' || (cp - str_cp) > MAXLINE - 1) {
             free(save);
             free(str_cp);
             return -1;
-- 
2.43.0


From 310d31aab2f34c54f06df9a89eec8caf0f988832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 091/128] fix: zt_ipv4_str2net: a text that is no address was
 taken as 255.255.255.255

---
 src/libzt/zt_ipv4_tbl.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 6af07ee..d97f478 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -364,9 +364,14 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
     } else {
         bitlen = 32;
         strncpy(save, str, MAXLINE - 1);
+        if (strlen(str) > MAXLINE - 1) {
+            bitlen = -1;
+        }
     }
 
-    if (bitlen < 0) {
+    if (bitlen < 0 ||
+        /* INADDR_NONE is also what the one address of that value gives */
+        (inet_addr(save) == INADDR_NONE && strcmp(save, "255.255.255.255") != 0)) {
         free(save);
         free(str_cp);
         return -1;
-- 
2.43.0


From 88335c29f60d267b62634eb76bb3cfe6f7cd9428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:43 +0000
Subject: [PATCH 092/128] fix: zt_opt_verror_str: a message without a text
 printed a NULL string

---
 src/libzt/zt_opts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 0baa89e..35cf425 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -51,7 +51,7 @@ zt_opt_verror_str(int code, char * fmt, va_list ap) {
     if (fmt) {
         len += vasprintf(&user_message, fmt, ap);
     }
-    len += asprintf(&final, "%s: %s\" }", msg, user_message);
+    len += asprintf(&final, "%s: %s\" }", msg, user_message ? user_message : "");
 
     zt_free(user_message);
     zt_free(msg);
-- 
2.43.0


From 4f12ef69491f44e9705aef4a496187d9a9c4c808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:44 +0000
Subject: [PATCH 093/128] fix: zt_opts: a word of the help text longer than a
 line sent the help printer before the text

---
 src/libzt/zt_opts.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 35cf425..14f8808 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -359,9 +359,13 @@ _zt_opt_help_stdout_printer(zt_opt_def_t * def) {
                     width = sublen;
                 } else {
                     // try to break between words
-                    while(def->help[offt+width] != ' ') {
+                    while(width > 0 && def->help[offt+width] != ' ') {
                         width--;
                     }
+                    if (width == 0) {
+                        // a word longer than the line has to be broken
+                        width = BASE_WIDTH;
+                    }
                 }
 
                 printf(BLANK "%.*s" NL, INDENT_TO(BASE_INDENT, 5, depth), (int)width, &def->help[offt]);
-- 
2.43.0


From 9c4daba7e0e22a8a0bb9715bf93e0f00326002cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:45 +0000
Subject: [PATCH 094/128] fix: zt_cfg_ini: a value of one character at the end
 of a file without a newline was refused

---
 src/libzt/zt_cfg/cfg_ini.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index c16d123..ecdb5b9 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -128,6 +128,7 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
             /* errno = EPROTO; */    /* Nope no EOF so some sort of protocol error */
             return 0;
         }
+        len++;    /* the last character is part of the line */
     }
 
     val++;    /* val points to the beginning of value + any white space*/
-- 
2.43.0


From 47647b00a34a5e3ce9b82918dcc8c4e89f62ab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 095/128] fix: look for the program in the last directory of
 PATH too

---
 src/libzt/zt_progname.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 6416362..ba49730 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -147,7 +147,8 @@ zt_progpath(char *prog) {
                 ssize_t   sofft;
 
                 if ((sofft = zt_cstr_any(path, offt, -1, ENV_SEPERATOR)) < 0) {
-                    break;
+                    /* the last one has no separator behind it */
+                    sofft = len;
                 }
                 offt = (size_t)sofft;
                 tpath = zt_cstr_catv(path, base, offt-1,
-- 
2.43.0


From cdccb07310f8fdb9047e5107f6df9b19b94a4623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:15 +0000
Subject: [PATCH 096/128] fix: let checked unsigned subtraction give zero

---
 src/libzt/zt_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_int.h b/src/libzt/zt_int.h
index c098de9..124d636 100644
--- a/src/libzt/zt_int.h
+++ b/src/libzt/zt_int.h
@@ -74,7 +74,7 @@ ZT_INT_SIGNED_ADD(signed long, long, LONG)
     INLINE static ltype UNUSED ZT_CONC3(zt_, sltype, _sub) (ltype lhs, \
                                                   ltype rhs) \
     {                                                        \
-        zt_assert(lhs > rhs);                                \
+        zt_assert(lhs >= rhs);                               \
         return lhs - rhs;                                    \
     }
 
-- 
2.43.0


From f6f42900beb980d3b34014b73b987228f60e14ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:19 +0000
Subject: [PATCH 097/128] fix: let checked signed division divide two negative
 numbers

---
 src/libzt/zt_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_int.h b/src/libzt/zt_int.h
index 124d636..af1c48e 100644
--- a/src/libzt/zt_int.h
+++ b/src/libzt/zt_int.h
@@ -184,7 +184,7 @@ ZT_INT_UNSIGNED_DIV(unsigned long, ulong, ULONG, unsigned long long)
         cvtype _tmp;                                          \
         zt_assert(rhs != 0);                                  \
         if (ZT_INT_IS_SIGNED(lhs) && ZT_INT_IS_SIGNED(rhs)) { \
-            zt_assert(lhs != ZT_CONC(sutype, _MIN) && rhs == -1);\
+            zt_assert(lhs != ZT_CONC(sutype, _MIN) || rhs != -1);\
         }                                                     \
         if (ZT_INT_SAME_SIGN(lhs, rhs)) {                     \
             return lhs / rhs;                                 \
-- 
2.43.0


From c4280a823d8c616e9fd5c84eea43ca975dfd60c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:32 +0000
Subject: [PATCH 098/128] fix: hexdump a byte of all ones instead of ending
 there

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 6f9caa2..8207631 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -721,7 +721,7 @@ static int _read_str(void * ctx) {
         return EOF;
     }
 
-    c = *(state->c + state->offt);
+    c = (unsigned char)*(state->c + state->offt);
     state->offt += 1;
     return c;
 }
-- 
2.43.0


From 0680de74d69e5e4a73b113434b4703d9e4ca4e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 099/128] fix: joining an empty intrusive list leaves the other
 list alone

---
 src/libzt/zt_list.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libzt/zt_list.h b/src/libzt/zt_list.h
index 0cbafcf..97c5c95 100644
--- a/src/libzt/zt_list.h
+++ b/src/libzt/zt_list.h
@@ -96,6 +96,11 @@ zt_elist_join(zt_elist_t *head, zt_elist_t *list)
     zt_elist_t *last = list->prev;
     zt_elist_t *at = head->next;
 
+    if (first == list) {
+        /* nothing to join */
+        return;
+    }
+
     first->prev = head;
     head->next = first;
 
-- 
2.43.0


From a9d1aea8639c4b172385192aab16e121eb185bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 100/128] fix: zt_cstr_rspn and zt_cstr_rcspn look at the first
 character too

---
 src/libzt/zt_cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 8207631..cbfb992 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -585,7 +585,7 @@ zt_cstr_rspn(const char *s, const char *accept) {
     zt_assert(s);
     zt_assert(accept);
 
-    for (i = len - 1; i > 0; i--) { /* -1 to skip \0 */
+    for (i = len - 1; i >= 0; i--) { /* -1 to skip \0 */
         if (strspn(&s[i], accept) == 0) {
             return (len - i) - 1;                          /* -1 for the first non matching char */
         }
@@ -601,7 +601,7 @@ zt_cstr_rcspn(const char *s, const char *reject) {
     zt_assert(s);
     zt_assert(reject);
 
-    for (i = len - 1; i > 0; i--) { /* -1 to skip \0 */
+    for (i = len - 1; i >= 0; i--) { /* -1 to skip \0 */
         if (strcspn(&s[i], reject) == 0) {
             return i;                                      /* -1 for the first non matching char */
         }
-- 
2.43.0


From e47706e9c15016102370946bb4cf660a3069c351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:10 +0000
Subject: [PATCH 101/128] fix: zt_cstr_strip writes no newline past the end of
 a string with one inside

---
 src/libzt/zt_cstr.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index cbfb992..152feaa 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -561,18 +561,16 @@ zt_cstr_strip(char *str) {
         len = strspn(str, WHITESPACE);
         memmove(str, &str[len], (strlen(str) - len) + 1); /* +1 captures \0 */
 
-        /* strip whitespace from the end of the string */
-        if (strchr(str, '\n') != NULL) {
-            nl = 1;
-        }
+        /* strip whitespace from the end of the string (a newline there stays) */
         len = zt_cstr_rspn(str, WHITESPACE "\n");
         len = strlen(str) - len;
-        if (len) {
-            if (nl) {
-                str[len++] = '\n';
-            }
-            str[len] = '\0';
+        if (strchr(&str[len], '\n') != NULL) {
+            nl = 1;
+        }
+        if (nl) {
+            str[len++] = '\n';
         }
+        str[len] = '\0';
     }
     return str;
 }
-- 
2.43.0


From 8a380f8d72358932a0f8d4c8ce4bbf4e675cb636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:30 +0000
Subject: [PATCH 102/128] fix: the dirname of a name in the root directory is
 the root directory

---
 src/libzt/zt_cstr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 152feaa..e36c3b2 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -657,7 +657,8 @@ zt_cstr_dirname(char *npath, size_t len, const char *path) {
         /* there is no path seperator */
         zt_cstr_copy(".", 0, -1, npath, len);
         return npath;
-    } else {
+    } else if (end > 0) {
+        /* a separator with nothing before it is the directory itself */
         end = end - 1;
     }
 
-- 
2.43.0


From 0774f43d5aec83ff4bf8f294da2143f3d87e6456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:31 +0000
Subject: [PATCH 103/128] fix: zt_cstr_basename skips separators at the end and
 removes just a suffix

---
 src/libzt/zt_cstr.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index e36c3b2..a533c5e 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -611,25 +611,35 @@ char*
 zt_cstr_basename(char *npath, size_t len, const char *path, const char *suffix) {
     ssize_t   start;
     ssize_t   end;
+    ssize_t   last;
+    ssize_t   ps_len;
 
     zt_assert(npath);
     zt_assert(path);
 
     memset(npath, '\0', len);
 
-    if ((start = zt_cstr_rfind(path, 0, -1, PATH_SEPERATOR)) != -1) {
-        start = start + strlen(PATH_SEPERATOR);
+    /* separators at the end of the path are not part of the name */
+    ps_len = strlen(PATH_SEPERATOR);
+    last   = (ssize_t)strlen(path) - 1;
+    while (last >= ps_len && strncmp(&path[last - ps_len + 1], PATH_SEPERATOR, ps_len) == 0) {
+        last -= ps_len;
+    }
+
+    if ((start = zt_cstr_rfind(path, 0, last, PATH_SEPERATOR)) != -1) {
+        start = MIN(start + ps_len, last);
     } else {
         start = 0;
     }
 
+    end = last;
     if (suffix) {
-        end = zt_cstr_rfind(path, start, -1, suffix);
-        if (end > 0 && path[end] == '.') {
-            end--;
+        /* only at the end, and not if it is all there is */
+        ssize_t at = zt_cstr_rfind(path, start, last, suffix);
+
+        if (at > start && at + (ssize_t)strlen(suffix) == last + 1) {
+            end = at - 1;
         }
-    } else {
-        end = -1;
     }
 
     zt_cstr_copy(path, start, end, npath, len);
-- 
2.43.0


From 5d1067f7f13ac7dabb722f15dd00872500bae0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:11 +0000
Subject: [PATCH 104/128] fix: an empty directory in PATH is the current one

---
 src/libzt/zt_progname.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index ba49730..ac0f15d 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -151,6 +151,14 @@ zt_progpath(char *prog) {
                     sofft = len;
                 }
                 offt = (size_t)sofft;
+                if (offt == (size_t)base) {
+                    /* an empty one is the current directory */
+                    if (stat(prog, &sbuf) == 0) {
+                        break;
+                    }
+                    base = ++offt;
+                    continue;
+                }
                 tpath = zt_cstr_catv(path, base, offt-1,
                                      PATH_SEPERATOR, 0, -1,
                                      prog, 0, -1, NULL);
-- 
2.43.0


From 428e8a370c3961a2c882973f2a17c75941814aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:54 +0000
Subject: [PATCH 105/128] fix: SHA-1 of four gigabytes and more in one piece

---
 src/libzt/zt_sha1.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 715031c..f953381 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -115,28 +115,23 @@ zt_sha1_init(zt_sha1_ctx *ctx)
 void
 zt_sha1_update(zt_sha1_ctx *ctx, uint8_t *data, size_t len)
 {
-    uint32_t      i;
-    uint32_t      j;
-    uint32_t      llen;
-
-    /* FIXME: 64bit (or better unbounded) sha1_update */
-    zt_assert(len <= UINT_MAX-1);
-    llen = (uint32_t)len;
+    size_t        i;
+    size_t        j;
 
     j = (ctx->count[0] >> 3) & 63;
-    if ((ctx->count[0] += llen << 3) < (llen << 3)) {
+    if ((ctx->count[0] += (uint32_t)(len << 3)) < (uint32_t)(len << 3)) {
         ctx->count[1]++;
     }
-    ctx->count[1] += (llen >> 29);
-    if ((j + llen) > 63) {
+    ctx->count[1] += (uint32_t)(len >> 29);
+    if ((j + len) > 63) {
         memcpy(&ctx->buffer[j], data, (i = 64 - j));
         _sha1_transform(ctx->state, ctx->buffer);
-        for (; i + 63 < llen; i += 64) {
+        for (; i + 63 < len; i += 64) {
             _sha1_transform(ctx->state, &data[i]);
         }
         j = 0;
     } else { i = 0; }
-    memcpy(&ctx->buffer[j], &data[i], llen - i);
+    memcpy(&ctx->buffer[j], &data[i], len - i);
 }
 
 void
-- 
2.43.0


From 9b0b9873298d612e58ea126710f189cefe1f5494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:56 +0000
Subject: [PATCH 106/128] fix: hexdump addresses beyond four gigabytes

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index a533c5e..12cb253 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -773,7 +773,7 @@ zt_hexdump(int _getchar(void *), void * data, zt_hexdump_output output, void * o
     size_t    bytes = 0;
     size_t    hpos = 0, cpos = 0;
     int       c = 0;
-    uint32_t  addr = 0L;
+    size_t    addr = 0L;
     size_t    _addr = 0L;
     char      _txt[16+1];
     char      _hex[(16*3)+3];
-- 
2.43.0


From d9ad127636cce845e15db116e846683f14e89a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:36 +0000
Subject: [PATCH 107/128] fix: a slice of an empty string is empty and takes no
 terminator along

---
 src/libzt/zt_cstr.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 12cb253..80120bb 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -48,23 +48,17 @@
             }                             \
             zt_assert(i >= 0 && j < (ssize_t)len); \
         } else {                          \
+            /* no characters at all */    \
             i = 0;                        \
-            j = 0;                        \
+            j = -1;                       \
         }                                 \
 } while (0)
 
 /* #define IDXLEN(i, j) ((i) < (j) ? ((j) - (i)) + 1 : ((i) - (j)) + 1) */
 static INLINE size_t
 IDXLEN(ssize_t i, ssize_t j) {
-    ssize_t   r;
-
-    if (i < j) {
-        r = (j - i) + 1;
-    } else {
-        r = (i - j) + 1;
-    }
-    zt_assert(r > 0);
-    return (size_t)r;
+    zt_assert(i <= j + 1);
+    return (size_t)((j - i) + 1);
 }
 
 /* #define BASE(i, len) ((i) >= (ssize_t)(len) ? (len - 1) : (i)) */
@@ -499,7 +493,7 @@ zt_cstr_any(const char *s, ssize_t i, ssize_t j, const char *set) {
 
     CONVERT(s, i, j);
 
-    zt_assert(i >= 0 && i <= j);
+    zt_assert(i >= 0 && i <= j + 1);
 
     for (; i <= j; i++) {
         if (s[i] != '\0' && strchr(set, s[i])) {
@@ -523,7 +517,7 @@ zt_cstr_rany(const char *s, ssize_t i, ssize_t j, const char *set) {
 
     CONVERT(s, i, j);
 
-    zt_assert(i >= 0 && i <= j);
+    zt_assert(i >= 0 && i <= j + 1);
 
     for (orig = i; j >= i; j--) {
         if (s[j] != '\0' && strchr(set, s[j])) {
-- 
2.43.0


From 1691377768c41663260e98b98f67dfc47a8ece1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:40 +0000
Subject: [PATCH 108/128] fix: joining a root directory, an empty path or one
 of separators only

---
 src/libzt/zt_cstr.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 80120bb..4c35bf8 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -684,16 +684,20 @@ zt_cstr_path_append(const char *path1, const char *path2) {
     len2    = strlen(path2);
     sep_len = strlen(PATH_SEPERATOR);
 
-    for (y = len1 - 1; y > 0 && strncmp(&path1[y], PATH_SEPERATOR, sep_len) == 0; y--) {
+    if (len1 == 0) {
+        return zt_cstr_dup(path2, 0, -1, 1);
+    }
+
+    for (y = len1; y > 0 && strncmp(&path1[y - 1], PATH_SEPERATOR, sep_len) == 0; y--) {
         ;
     }
     for (x = 0; x < (ssize_t)len2 && strncmp(&path2[x], PATH_SEPERATOR, sep_len) == 0; x++) {
         ;
     }
 
-    rpath = zt_cstr_catv(path1, 0, y,
+    rpath = zt_cstr_catv(y > 0 ? path1 : "", 0, (int)y - 1,
                          PATH_SEPERATOR, 0, -1,
-                         path2, x, -1, NULL);
+                         &path2[x], 0, -1, NULL);
     return rpath;
 }
 
-- 
2.43.0


From 683fbe060823bfee9d1aae4eb50bce8da11c417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:53 +0000
Subject: [PATCH 109/128] fix: the text of the least double with 99 decimals
 overruns its buffer by one

---
 src/libzt/zt_format.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 7ef3de4..c2c4fdd 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -522,7 +522,7 @@ cvt_f(int code, void * value,
       unsigned char flags[],
       ssize_t width, ssize_t precision)
 {
-    char        buf[DBL_MAX_10_EXP + 1 + 1 + 99 + 1];
+    char        buf[1 + DBL_MAX_10_EXP + 1 + 1 + 99 + 1];    /* sign, digits, point, digits, nul */
     char        fmt[] = "%.dd?";
 
     if (precision < 0) {
-- 
2.43.0


From c2780ef3e80787d2575aa4e1fc1a5d0ed61e6609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 110/128] fix: a parent directory that someone else makes
 meanwhile is no failure

---
 src/libzt/zt_path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 3a28c2f..1ad1dd7 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -67,7 +67,7 @@ AGAIN:
                 continue;
             }
 
-            if (mkdir(cpath, mode) != 0) {
+            if (mkdir(cpath, mode) != 0 && errno != EEXIST) {
                 /* Cannot proceed, return error */
                 return -1;
             }
-- 
2.43.0


From 04f88401c2f24ebdddfa3518d802dc267b55ea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:33 +0000
Subject: [PATCH 111/128] fix: a program given as ./name is in the working
 directory whatever is on PATH

---
 src/libzt/zt_progname.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index ac0f15d..d14c233 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -118,7 +118,8 @@ zt_progpath(char *prog) {
         memset(_progpath, '\0', PATH_MAX);
         zt_cstr_dirname(_progpath, PATH_MAX, prog);
 
-        if(_progpath[0] == '\0' || strcmp(_progpath, ".") == 0) {
+        if(_progpath[0] == '\0' ||
+           (strcmp(_progpath, ".") == 0 && zt_cstr_find(prog, 0, -1, PATH_SEPERATOR) == -1)) {
             /* the passed in prog did not include a path */
             char        * path;
             size_t        offt = 0;
@@ -199,7 +200,12 @@ zt_progpath(char *prog) {
                         pp += 2;
                     }
 
-                    tpath = zt_cstr_path_append(cwd, pp);
+                    if (strcmp(pp, ".") == 0) {
+                        /* it is the current directory itself */
+                        tpath = zt_cstr_dup(cwd, 0, -1, 1);
+                    } else {
+                        tpath = zt_cstr_path_append(cwd, pp);
+                    }
                     zt_cstr_copy(tpath, 0, -1, _progpath, PATH_MAX);
                     zt_free(tpath);
                 }
-- 
2.43.0


From 755a2155578978b84158d52ecc73d40ac976ef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:34 +0000
Subject: [PATCH 112/128] fix: a program below the root directory leaves
 nothing of its relative path

---
 src/libzt/zt_progname.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index d14c233..862e3c7 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -206,6 +206,7 @@ zt_progpath(char *prog) {
                     } else {
                         tpath = zt_cstr_path_append(cwd, pp);
                     }
+                    memset(_progpath, '\0', PATH_MAX);
                     zt_cstr_copy(tpath, 0, -1, _progpath, PATH_MAX);
                     zt_free(tpath);
                 }
-- 
2.43.0


From ff771cd26295670f47dd0995d2c708e1a2e4e919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:48 +0000
Subject: [PATCH 113/128] fix: destroying a collector survives release
 callbacks that use it

---
 src/libzt/zt_gc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index eb99b34..74f3207 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -212,6 +212,9 @@ zt_gc_destroy(zt_gc_t *gc)
 
     zt_gc_collect(gc, TRUE);
 
+    /* what is released now must not start another scan of the lists */
+    gc->enabled = -1;
+
     zt_elist_for_each_safe(gc->white, elt, dont_use) {
         zt_elist_remove(elt);
         gc->release_fn(gc, gc->private_data, (void **)&elt);
-- 
2.43.0


From 59044c4470b132307a00e0456d1202dbaeda89b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:29 +0000
Subject: [PATCH 114/128] fix: a test that is run again is not counted with its
 earlier assertions

---
 src/libzt/zt_unit.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index cc5b2c1..e27e4a7 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -263,6 +263,14 @@ zt_unit_run_test(struct zt_unit         * unit UNUSED,
 
     test->success = FALSE;
 
+    /* what an earlier run of this test left does not count for this one */
+    test->assertions = 0;
+    test->exceptions = 0;
+    if (test->error) {
+        zt_free(test->error);
+        test->error = NULL;
+    }
+
     yaml_dict(test->name, 4);
 
     if (suite->setup_fn) {
-- 
2.43.0


From d38d0b9c99a64f7d34c00262e8e3d8e302b41adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:30 +0000
Subject: [PATCH 115/128] fix: an option value behind other letters of its word
 is found

---
 src/libzt/zt_opts.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 14f8808..d18c339 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -114,8 +114,13 @@ zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args
             result = argv[argn + 1]; /* default to the next option */
             *args_consumed = 1;
         } else {
-            /* short opt */
-            pp++;
+            /* short opt, which may come behind others in its word */
+            while (*pp && *pp != def[defn].sopt) {
+                pp++;
+            }
+            if (*pp) {
+                pp++;
+            }
             if(*pp) {
                 result = pp;
             } else {
-- 
2.43.0


From 4d56e0f9c6b1a2081dc5fd9a2d59aa09cee1ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:30 +0000
Subject: [PATCH 116/128] fix: zt_mkdir: a file of the name asked for is no
 directory

---
 src/libzt/zt_path.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 1ad1dd7..1271494 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -28,7 +28,12 @@ AGAIN:
     if (mkdir(path, mode) != 0) {
 
         if (errno == EEXIST) {
-            return 0;
+            if (stat(path, &sbuf) == 0 && S_ISDIR(sbuf.st_mode)) {
+                return 0;
+            }
+            /* something else of that name is in the way */
+            errno = EEXIST;
+            return -1;
         }
 
         if (!ZT_BIT_ISSET(flags, zt_mkdir_create_parent)) {
-- 
2.43.0


From c8f93ed6c00417fc413a10b763f446aef18c0a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:31 +0000
Subject: [PATCH 117/128] fix: a block name without its end makes a
 configuration refused

---
 src/libzt/zt_cfg/cfg_ini.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index ecdb5b9..580e17f 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -77,7 +77,7 @@ static int parse_block(FILE* file, struct cfg_bvv_ty* bvv)
     zt_assert(bvv);
 
     while (((c = fgetc(file)) != EOF) && (i < BUFMAX)) {
-        if (c == ']') {
+        if (c == ']' || c == '\n') {
             break;
         }
         buff[i] = (char)c;
@@ -89,6 +89,11 @@ static int parse_block(FILE* file, struct cfg_bvv_ty* bvv)
         return -1;
     }
 
+    if (c != ']') {
+        /* the name has no end on its line */
+        return -1;
+    }
+
     /* Otherwize we have a block name in buff */
     bvv->block = strdup(buff);
     if (bvv->block == NULL) {
-- 
2.43.0


From 7b4ed07911f0973d8d666cf34b076cd1640b6011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:35 +0000
Subject: [PATCH 118/128] fix: the library compiles with its assertions kept

---
 src/libzt/zt_log.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_log.h b/src/libzt/zt_log.h
index edcfaa4..5db9a9f 100644
--- a/src/libzt/zt_log.h
+++ b/src/libzt/zt_log.h
@@ -14,6 +14,14 @@
 #define _ZT_LOG_H_
 
 #include <stdarg.h>
+
+/* zt.h comes with assertions, which tell the function they are in */
+#if (!defined(__STRICT_ANSI__) || __STRICT_ANSI__ == 0)
+# define ZT_LOG_FUNCTION __FUNCTION__
+#else
+# define ZT_LOG_FUNCTION ""
+#endif
+
 #include <zt.h>
 
 #define ZT_LOG_RAW           0
@@ -24,11 +32,6 @@
 #define ZT_LOG_WITH_PID      16
 #define ZT_LOG_EMU_SYSLOG    (ZT_LOG_WITH_DATE | ZT_LOG_WITH_SYSNAME | ZT_LOG_WITH_PROGNAME | ZT_LOG_WITH_PID)
 
-#if (!defined(__STRICT_ANSI__) || __STRICT_ANSI__ == 0)
-# define ZT_LOG_FUNCTION __FUNCTION__
-#else
-# define ZT_LOG_FUNCTION ""
-#endif
 BEGIN_C_DECLS
 
 enum zt_log_level {
-- 
2.43.0


From b5e2ddf6a0edb9de7de296efec5626c7051ce11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:36 +0000
Subject: [PATCH 119/128] fix: zt_uuid_fillstr: more room than needed fails an
 assertion

---
 src/libzt/zt_uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index ea87d20..0742109 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -204,7 +204,7 @@ _zt_uuid_fillstr(zt_uuid_t* uuid, char* uuids, size_t uuids_size, zt_uuid_flags_
         int      ok2 = 0;
 
         /* extract the 2 64 bit numbers in the uuid */
-        zt_assert(uuids_size <= UUID_BASE62_STR_LEN + 1);
+        zt_assert(uuids_size >= UUID_BASE62_STR_LEN + 1);
 
         for (i = 0; i < 8; i++) {
             const int shift = (7 - i) * 8;
-- 
2.43.0


From 86c56d4279e04cac7a8165675358485b903a0076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:37 +0000
Subject: [PATCH 120/128] fix: a base 62 text beyond the largest uuid is not
 read

---
 src/libzt/zt_uuid.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index 0742109..58a5fcf 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -8,8 +8,6 @@
 
 #include <stdio.h>
 
-#include <math.h>
-
 #include "zt.h"
 #include "zt_internal.h"
 
@@ -536,7 +534,7 @@ base62_decode_int64(const char * in, size_t ilen, uint64_t * out) {
 
     for (i = 0; i < tlen; i++) {
         const char c = in[i];
-        int        n;
+        uint64_t   n;
 
         /* shift back from our alphabet */
         if (c >= '0' && c <= '9') {
@@ -549,7 +547,10 @@ base62_decode_int64(const char * in, size_t ilen, uint64_t * out) {
             return -1; /* invalid character */
         }
 
-        v += n * (uint64_t)(powl(62, tlen - i - 1));
+        if (v > (UINT64_MAX - n) / 62) {
+            return -1; /* no such number */
+        }
+        v = v * 62 + n;
     }
 
     *out = v;
-- 
2.43.0


From 7479e09941794fabf5e82fad034a7a803de3429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:41 +0000
Subject: [PATCH 121/128] fix: C++ programs can use the timers, pools, pointer
 arrays, address tables and threads

---
 src/libzt/zt_ez_mempool.h | 5 +++++
 src/libzt/zt_ipv4_tbl.h   | 4 ++++
 src/libzt/zt_mem.h        | 4 ++++
 src/libzt/zt_ptr_array.h  | 4 ++++
 src/libzt/zt_threads.h    | 4 ++++
 src/libzt/zt_time.h       | 4 ++++
 6 files changed, 25 insertions(+)

diff --git a/src/libzt/zt_ez_mempool.h b/src/libzt/zt_ez_mempool.h
index 66f9d0a..49c82b4 100644
--- a/src/libzt/zt_ez_mempool.h
+++ b/src/libzt/zt_ez_mempool.h
@@ -4,6 +4,8 @@
 #define _ZT_EZ_MEMPOOL_H_
 
 
+BEGIN_C_DECLS
+
 typedef struct zt_ez_mempool       zt_ez_mempool;
 typedef struct zt_ez_mempool_chunk zt_ez_mempool_chunk;
 typedef void (*zt_ez_mempool_free_cb)(void *usrdata);
@@ -56,4 +58,7 @@ void           zt_ez_mempool_destroy(zt_ez_mempool *pool);
 int            zt_ez_mempool_add_buffer(zt_ez_mempool *, void *, size_t, zt_ez_mempool_free_cb);
 
 char *         zt_ez_mempool_strdup(zt_ez_mempool *pool, const char *s);
+
+END_C_DECLS
+
 #endif
diff --git a/src/libzt/zt_ipv4_tbl.h b/src/libzt/zt_ipv4_tbl.h
index 459e1d2..c128085 100644
--- a/src/libzt/zt_ipv4_tbl.h
+++ b/src/libzt/zt_ipv4_tbl.h
@@ -3,6 +3,8 @@
 
 #include <zt.h>
 
+BEGIN_C_DECLS
+
 typedef struct zt_ipv4_node zt_ipv4_node;
 typedef struct zt_ipv4_tbl zt_ipv4_tbl;
 typedef struct zt_ipv4_addr zt_ipv4_addr;
@@ -136,4 +138,6 @@ uint32_t zt_ipv4_ip2int(const char *str);
  */
 char *zt_ipv4_int2ip(uint32_t addr);
 
+END_C_DECLS
+
 #endif /* ifndef _ZT_IPV4_TBL_H_ */
diff --git a/src/libzt/zt_mem.h b/src/libzt/zt_mem.h
index b4f2802..65f7d79 100644
--- a/src/libzt/zt_mem.h
+++ b/src/libzt/zt_mem.h
@@ -37,6 +37,8 @@
 
 #include <zt.h>
 
+BEGIN_C_DECLS
+
 #define POOL_NEVER_FREE    1
 
 /* forward declarations */
@@ -118,4 +120,6 @@ zt_mem_set * zt_mem_set_init(char *name);
 int zt_mem_set_add(zt_mem_set *set, void *d);
 int zt_mem_set_release(zt_mem_set *set);
 
+END_C_DECLS
+
 #endif    /* _ZT_MEM_H_ */
diff --git a/src/libzt/zt_ptr_array.h b/src/libzt/zt_ptr_array.h
index 6d2210a..65b6718 100644
--- a/src/libzt/zt_ptr_array.h
+++ b/src/libzt/zt_ptr_array.h
@@ -3,6 +3,8 @@
 
 #define ZT_PTR_ARRAY_DEFAULT_SIZE 32
 
+BEGIN_C_DECLS
+
 typedef void (*zt_ptr_array_free_cb)(void *data);
 
 typedef struct {
@@ -26,4 +28,6 @@ int zt_ptr_array_add(zt_ptr_array *array, void *data);
 int zt_ptr_array_cat(zt_ptr_array *dst, zt_ptr_array *src);
 void *zt_ptr_array_get_idx(zt_ptr_array *array, int32_t idx);
 
+END_C_DECLS
+
 #endif
diff --git a/src/libzt/zt_threads.h b/src/libzt/zt_threads.h
index 91b9133..b8d40e3 100644
--- a/src/libzt/zt_threads.h
+++ b/src/libzt/zt_threads.h
@@ -8,6 +8,8 @@
 
 #include <sys/queue.h>
 
+BEGIN_C_DECLS
+
 typedef struct zt_threadpool zt_threadpool;
 typedef struct zt_threadpool_entry zt_threadpool_entry;
 
@@ -141,4 +143,6 @@ int zt_threadpool_oput_fd_writer(zt_threadpool *tpool);
 void * zt_threadpool_get_oput(zt_threadpool *tpool);
 int zt_threadpool_kill(zt_threadpool *tpool);
 
+END_C_DECLS
+
 #endif /* __ZT_THREADS_H__ */
diff --git a/src/libzt/zt_time.h b/src/libzt/zt_time.h
index 7bdc3ff..144d4f8 100644
--- a/src/libzt/zt_time.h
+++ b/src/libzt/zt_time.h
@@ -23,6 +23,8 @@
 
 #include <zt.h>
 
+BEGIN_C_DECLS
+
 struct time_result {
     struct timeval sys_time;
     struct timeval usr_time;
@@ -37,6 +39,8 @@ void           * zt_time(int n, struct time_result * result, void *(*test)(void
 void             zt_time_print_result(struct time_result * tr, char * name, int n);
 void             zt_time_calibrate(void);
 
+END_C_DECLS
+
 #define zt_copy_timeval(x, y) ((x)->tv_sec = (y)->tv_sec, (x)->tv_usec = (y)->tv_usec)
 
 #if (!defined(_BSD_SOURCE) || !defined(_XOPEN_SOURCE) >= 500)
-- 
2.43.0


From 7880edf8da2e7fd8674a51a39c855e0394a32925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:45 +0000
Subject: [PATCH 122/128] fix: each header can be included by itself

---
 src/libzt/zt_assert.h    | 4 ++--
 src/libzt/zt_hash.h      | 2 ++
 src/libzt/zt_list.h      | 4 ++--
 src/libzt/zt_mem.h       | 6 +++---
 src/libzt/zt_ptr_array.h | 2 ++
 src/libzt/zt_table.h     | 4 ++--
 src/libzt/zt_threads.h   | 2 ++
 7 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/libzt/zt_assert.h b/src/libzt/zt_assert.h
index 21c8fcd..2c3760b 100644
--- a/src/libzt/zt_assert.h
+++ b/src/libzt/zt_assert.h
@@ -10,11 +10,11 @@
  * Notes:
  *
  */
+#include <zt.h>
+
 #ifndef _ZT_ASSERT_H_
 #define _ZT_ASSERT_H_
 
-#include <zt.h>
-
 BEGIN_C_DECLS
 
 /*!
diff --git a/src/libzt/zt_hash.h b/src/libzt/zt_hash.h
index 5ca4a60..082319f 100644
--- a/src/libzt/zt_hash.h
+++ b/src/libzt/zt_hash.h
@@ -15,6 +15,8 @@
 #ifndef _ZT_HASH_H_
 #define _ZT_HASH_H_
 
+#include <stddef.h>
+
 #include <libzt/zt_stdint.h>
 
 #ifdef __cplusplus
diff --git a/src/libzt/zt_list.h b/src/libzt/zt_list.h
index 97c5c95..8fb6faf 100644
--- a/src/libzt/zt_list.h
+++ b/src/libzt/zt_list.h
@@ -3,11 +3,11 @@
  *   See file COPYING for details.
  */
 
+#include <zt.h>
+
 #ifndef _ZT_LIST_H_
 #define _ZT_LIST_H_
 
-#include <zt.h>
-
 #ifdef __cplusplus__
 extern "C" {
 #endif
diff --git a/src/libzt/zt_mem.h b/src/libzt/zt_mem.h
index 65f7d79..53c3730 100644
--- a/src/libzt/zt_mem.h
+++ b/src/libzt/zt_mem.h
@@ -30,13 +30,13 @@
  * Notes:
  *
  */
-#ifndef _ZT_MEM_H_
-#define _ZT_MEM_H_
-
 #include <stdlib.h>
 
 #include <zt.h>
 
+#ifndef _ZT_MEM_H_
+#define _ZT_MEM_H_
+
 BEGIN_C_DECLS
 
 #define POOL_NEVER_FREE    1
diff --git a/src/libzt/zt_ptr_array.h b/src/libzt/zt_ptr_array.h
index 65b6718..14649e9 100644
--- a/src/libzt/zt_ptr_array.h
+++ b/src/libzt/zt_ptr_array.h
@@ -1,3 +1,5 @@
+#include <zt.h>
+
 #ifndef __ZT_PTR_ARRAY_H__
 #define __ZT_PTR_ARRAY_H__
 
diff --git a/src/libzt/zt_table.h b/src/libzt/zt_table.h
index aa751ef..7e94c80 100644
--- a/src/libzt/zt_table.h
+++ b/src/libzt/zt_table.h
@@ -10,11 +10,11 @@
  * Notes:
  *
  */
+#include <zt.h>
+
 #ifndef _ZT_TABLE_H_
 #define _ZT_TABLE_H_
 
-#include <zt.h>
-
 BEGIN_C_DECLS
 typedef int (*zt_table_compare_cb)(const void *lhs, size_t lhs_len, const void *rhs, size_t rhs_len, void *cdata);
 typedef unsigned long (*zt_table_hash_func_cb)(const void *key, size_t key_len, void *cdata);
diff --git a/src/libzt/zt_threads.h b/src/libzt/zt_threads.h
index b8d40e3..f22c160 100644
--- a/src/libzt/zt_threads.h
+++ b/src/libzt/zt_threads.h
@@ -1,3 +1,5 @@
+#include <zt.h>
+
 #ifndef __ZT_THREADS_H__
 #define __ZT_THREADS_H__
 /* includes */
-- 
2.43.0


From c762fd70d41f3558f859811ffc524be3f1b3a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:49 +0000
Subject: [PATCH 123/128] fix: headers do not declare what the library does not
 have

---
 src/libzt/zt_bstream.h | 2 --
 src/libzt/zt_cstr.h    | 3 ---
 src/libzt/zt_threads.h | 1 -
 src/libzt/zt_unit.h    | 2 --
 src/zt.h               | 1 -
 5 files changed, 9 deletions(-)

diff --git a/src/libzt/zt_bstream.h b/src/libzt/zt_bstream.h
index b38fa7f..348da5f 100644
--- a/src/libzt/zt_bstream.h
+++ b/src/libzt/zt_bstream.h
@@ -33,8 +33,6 @@ extern void zt_bstream_read_uint64(zt_bstream_t bs, uint64_t *data);
 extern void zt_bstream_read_float(zt_bstream_t bs, float *data);
 extern void zt_bstream_read_double(zt_bstream_t bs, double *data);
 
-extern void zt_write_bytes(char *s, char *d, size_t len, int flip);
-
 extern size_t zt_bstream_write(zt_bstream_t bs, char *data, size_t len, char szie, char tag);
 extern void zt_bstream_write_byte(zt_bstream_t bs, char data);
 extern void zt_bstream_write_uint8(zt_bstream_t bs, uint8_t data);
diff --git a/src/libzt/zt_cstr.h b/src/libzt/zt_cstr.h
index 21cec3f..9003b9a 100644
--- a/src/libzt/zt_cstr.h
+++ b/src/libzt/zt_cstr.h
@@ -42,9 +42,6 @@ extern ssize_t zt_cstr_find(const char *s, ssize_t i, ssize_t j, const char *str
 extern ssize_t zt_cstr_rfind(const char *s, ssize_t i, ssize_t j, const char *str);
 extern ssize_t zt_cstr_any(const char *s, ssize_t i, ssize_t j, const char *set);
 extern ssize_t zt_cstr_rany(const char *s, ssize_t i, ssize_t j, const char *set);
-extern int zt_cstr_puts(int code, va_list * app,
-                        int put(int c, void *cl), void *cl,
-                        unsigned char flags[], int width, int precision);
 
 
 extern char *zt_cstr_chomp(char *s);
diff --git a/src/libzt/zt_threads.h b/src/libzt/zt_threads.h
index f22c160..206a50d 100644
--- a/src/libzt/zt_threads.h
+++ b/src/libzt/zt_threads.h
@@ -128,7 +128,6 @@ unsigned long int zt_threads_id(void);
 int zt_threads_use_pthreads(void);
 
 /* threadpool defs */
-extern struct zt_threadpool_callbacks _zt_threadpool_callbacks;
 zt_threadpool *zt_threadpool_init(int min_threads, int max_threads, int pipe_iput, int pipe_oput);
 int zt_threadpool_start(zt_threadpool *tpool);
 int zt_threadpool_set_callbacks(struct zt_threadpool_callbacks *cbs);
diff --git a/src/libzt/zt_unit.h b/src/libzt/zt_unit.h
index 95117e8..dab7573 100644
--- a/src/libzt/zt_unit.h
+++ b/src/libzt/zt_unit.h
@@ -8,8 +8,6 @@
 
 BEGIN_C_DECLS
 
-extern char * zt_unit_exception;
-
 struct zt_unit;
 struct zt_unit_suite;
 struct zt_unit_test;
diff --git a/src/zt.h b/src/zt.h
index 2fb966c..c85c32a 100644
--- a/src/zt.h
+++ b/src/zt.h
@@ -29,7 +29,6 @@
 #define ZT_FAIL 0
 #define ZT_PASS 1
 
-extern char *memoryError;
 #define zt_callocs(size, num)     (zt_calloc_p ((num), (size)))
 #define zt_mallocs(size, num)     (zt_malloc_p ((num) * (size)))
 #define zt_calloc(type, num)	((type *) zt_calloc_p ((num), sizeof(type)))
-- 
2.43.0


From 0a3b4b2e263d13bc02c66c3a3e63237d2afb35cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:50 +0000
Subject: [PATCH 124/128] fix: zt_free_p is declared but missing

---
 src/libzt/zt_malloc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libzt/zt_malloc.c b/src/libzt/zt_malloc.c
index 1defcc5..d588ee1 100644
--- a/src/libzt/zt_malloc.c
+++ b/src/libzt/zt_malloc.c
@@ -49,6 +49,11 @@ zt_realloc_p(void_p p, size_t num)
     return mem;
 }
 
+void
+zt_free_p(void_p stale)
+{
+    free(stale);
+}
 
 char *
 zt_strdup_p(const char *string)
-- 
2.43.0


From e6a0d56fc151e478f8bef0c7cb061b602fba68d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:51 +0000
Subject: [PATCH 125/128] fix: zt_opt_int is declared but missing

---
 src/libzt/zt_opts.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index d18c339..094c1c7 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -208,6 +208,41 @@ zt_opt_long(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt
     return args_consumed;
 }
 
+int
+zt_opt_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt_opt_error error) {
+    long   result;
+    char * end = NULL;
+    int    args_consumed = 0;
+    char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
+
+    if (!arg) {
+        return 0;
+    }
+
+    errno  = 0;
+    result = strtol(arg, &end, 0);
+
+    if (!errno && (result < INT_MIN || result > INT_MAX)) {
+        errno = ERANGE;
+    }
+
+    if (errno) {
+        /* check errno */
+        error(errno, "invalid number '%s'", arg);
+    }
+
+    if (end && *end) {
+        /* invalid character */
+        error(EINVAL, "'%s' is not a number", arg);
+    }
+
+    if (def[defn].cb_data) {
+        *(int *)def[defn].cb_data = result;
+    }
+
+    return args_consumed;
+}
+
 int
 zt_opt_bool_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt_opt_error error) {
     int    result;
-- 
2.43.0


From 9ca99b390c431b024c5a13ead5a30b7932d67f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:55 +0000
Subject: [PATCH 126/128] fix: usleep pauses for the value of its argument

---
 src/libzt/zt_time.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_time.h b/src/libzt/zt_time.h
index 144d4f8..ffd687e 100644
--- a/src/libzt/zt_time.h
+++ b/src/libzt/zt_time.h
@@ -61,13 +61,13 @@ END_C_DECLS
 } while (0)
 #else
 #define usleep(msec)          do {       \
-    long           usec = msec;          \
-    struct timeval delay;                \
+    struct timeval zt_delay_;            \
                                          \
-    delay.tv_sec  = msec / 1000000L;     \
-    delay.tv_usec = usec % 1000000L;     \
+    zt_delay_.tv_usec = (msec);          \
+    zt_delay_.tv_sec  = zt_delay_.tv_usec / 1000000L; \
+    zt_delay_.tv_usec = zt_delay_.tv_usec % 1000000L; \
                                          \
-    select(0, NULL, NULL, NULL, &delay); \
+    select(0, NULL, NULL, NULL, &zt_delay_); \
 } while (0)
 #endif
 #endif
-- 
2.43.0


From fd2e235ef29386beb33ccca6d4b12a1686f5d81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:58 +0000
Subject: [PATCH 127/128] fix: equality assertions judge the values of their
 arguments

---
 src/libzt/zt_unit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_unit.h b/src/libzt/zt_unit.h
index dab7573..3154a42 100644
--- a/src/libzt/zt_unit.h
+++ b/src/libzt/zt_unit.h
@@ -83,10 +83,10 @@ class zt_unit_exceptT {};
     } while(0)
 
 #define ZT_UNIT_ASSERT_EQUAL(test, expr1, expr2) \
-    ZT_UNIT_ASSERT(test, (expr1 == expr2))
+    ZT_UNIT_ASSERT(test, ((expr1) == (expr2)))
 
 #define ZT_UNIT_ASSERT_NOT_EQUAL(test, expr1, expr2) \
-    ZT_UNIT_ASSERT(test, (expr1 != expr2))
+    ZT_UNIT_ASSERT(test, ((expr1) != (expr2)))
 
 /* #define ZT_UNIT_ASSERT_RAISES(test, excpt, expr) */
 
-- 
2.43.0


From 902bee497965bd26d72d2c401fae7cc20e75b6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:02 +0000
Subject: [PATCH 128/128] fix: macro arguments of INDENT_PAD and zt_ptr_array
 are values

---
 src/libzt/zt_macros.h    | 2 +-
 src/libzt/zt_ptr_array.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_macros.h b/src/libzt/zt_macros.h
index c1effd1..bf1bae6 100644
--- a/src/libzt/zt_macros.h
+++ b/src/libzt/zt_macros.h
@@ -134,7 +134,7 @@ BEGIN_C_DECLS
  * Description: injects padding into a print statement
  * Exmaple: printf(BLANK "-a, --alpha" NL, INDENT_PATH(3, 5, 0))
  */
-#define INDENT_PAD(lvl, step, pad) ((int)(((lvl) * step) + (pad))), ""
+#define INDENT_PAD(lvl, step, pad) ((int)(((lvl) * (step)) + (pad))), ""
 
 /************ Apply Macros ************/
 
diff --git a/src/libzt/zt_ptr_array.h b/src/libzt/zt_ptr_array.h
index 14649e9..5142ce5 100644
--- a/src/libzt/zt_ptr_array.h
+++ b/src/libzt/zt_ptr_array.h
@@ -17,8 +17,8 @@ typedef struct {
     zt_ptr_array_free_cb free_cb;
 } zt_ptr_array;
 
-#define zt_ptr_array_is_full(array) (array->count >= array->size)
-#define zt_ptr_array_length(array) array->count
+#define zt_ptr_array_is_full(array) ((array)->count >= (array)->size)
+#define zt_ptr_array_length(array) ((array)->count)
 
 zt_ptr_array *zt_ptr_array_init(void *args, zt_ptr_array_free_cb free_cb);
 int zt_ptr_array_free(zt_ptr_array *array, int free_members);
-- 
2.43.0

