From eaf448a0cabea8974aa8e655d0b7d0130fd384dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:07 +0000
Subject: [PATCH 01/38] fix: simd_itoa truncates 64-bit magnitudes to int and
 copies past its digit buffer

---
 src/swar.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 89beccd..f7fceb6 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -267,25 +267,25 @@ RAII_INLINE uint32_t simd_itoa(int64_t x, char *buf) {
     bool neg = x < 0;
     *buf = '-'; // Always write
     buf += neg; // But advance only if negative
-    x = abs(x);
+    uint64_t u = neg ? 0 - (uint64_t)x : (uint64_t)x; // `abs()` would truncate to int
 
     char tmp[20];
     char *p = tmp + 20;
 
-    while (x >= 100) {
+    while (u >= 100) {
         p -= 2;
-        utoa2p_ex(x % 100, p);
-        x /= 100;
+        utoa2p_ex(u % 100, p);
+        u /= 100;
     }
 
     p -= 2;
-    utoa2p_ex(x, p);
+    utoa2p_ex(u, p);
 
-    p += x < 10;
+    p += u < 10;
 
     uint32_t len = tmp + 20 - p;
 
-    memcpy(buf, p, 20);
+    memcpy(buf, p, len);
     buf[len] = '\0';
 
     return len + neg;
-- 
2.43.0


From 51cabfb1a78bda43aa8e4a5e6e8538d76ff83331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 02/38] fix: undefined 64-bit shifts for lengths 0 and 8, and
 negation overflow in simd_atoi

---
 src/swar.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index f7fceb6..51f8040 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -27,8 +27,8 @@ RAII_INLINE uintptr_t cast8(const char *s, uint32_t len) {
     // int 64 of s
     uint64_t x = cast(s);
 
-    uint64_t mask = (1ull << (len * 8)) - 1;
-    mask |= -(len == 8); // fill 1's if len == 8
+    uint64_t mask = (1ull << ((len * 8) & 63)) - 1;
+    mask |= -(uint64_t)(len == 8); // fill 1's if len == 8
 
     return x & mask;
 }
@@ -299,7 +299,7 @@ RAII_INLINE uint32_t atou8(const char *s, uint32_t len) {
     uint64_t x = cast(s);
 
     // apply len. len of 2 --> 0x3231000000000000
-    x <<= 64 - len * 8;
+    x <<= (64 - len * 8) & 63;
     x &= -(uint64_t)(len > 0);
 
     // add ones and tens, in int8's, from 0x0[2]0[1] to 0x00[12]
@@ -343,7 +343,7 @@ RAII_INLINE int64_t simd_atoi(const char *s, uint32_t len) {
 
     int64_t x = simd_atou(s, len - ls);
 
-    return neg ? -x : x;
+    return neg ? (int64_t)(0 - (uint64_t)x) : x;
 }
 
 // Parse hex int from string of up to 8 chars
@@ -354,7 +354,7 @@ RAII_INLINE uint32_t htou8(const char *s, uint32_t len) {
     uint64_t x = cast(s);
 
     // apply len. len of 2 --> 0x3231000000000000
-    x <<= 64 - len * 8;
+    x <<= (64 - len * 8) & 63;
 
     // handle length of 0. remove all bits if zero
     x &= -(uint64_t)(len > 0);
-- 
2.43.0


From 5d76689b355023a1eafc94082c10c9c98ac29695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 03/38] fix: simd_memchr/simd_memrchr and the memchr variants
 miss, misplace or over-run when the byte is absent or the text is short

---
 src/swar.c | 54 ++++++++++++++++++++++++------------------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 51f8040..e43b5f0 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -144,41 +144,36 @@ RAII_INLINE uint32_t memchr8k(const char *s, uint8_t c) {
 static RAII_INLINE uint32_t _memrchr(bool Printable, bool Known, const char *s, uint32_t len, uint8_t c) {
     const char *p = s + len;
 
-    // If shorter than 8 bytes, we have to mask away c bytes past len
-    uint32_t partLen = (len & 7) ? (len & 7) : 8;
-    uint64_t partMask = len < 8 ? ~0ull >> (64 - partLen * 8) : 0ull;
-    uint64_t first = cast(p) & ~(partMask & extend(c));
-
-    // Advance to leave multiple of 8 bytes
-    p -= partLen;
-
-    // Check first 8 bytes
-    if (hasbyte(first, c)) {
-        return (p - s) + _memchr8(Printable, true, true, (char *)&first, c);
-    }
-
-    // Check words for that byte
-    for (;;) {
+    // Check words for that byte, from the end
+    for (; p - s >= 8; ) {
+        p -= 8;
         if (hasbyte(cast(p), c)) {
             return (p - s) + _memchr8(Printable, true, true, p, c);
         }
-        p -= 8;
-        if (!Known) {
-            if (p == s)
-                return -1;
-        }
     }
+
+    // Check remaining bytes, we have to mask away bytes past them
+    if (p != s) {
+        uint64_t partMask = ~0ull >> (64 - (p - s) * 8);
+        uint64_t last = (cast(s) & partMask) | (extend(c ^ 1) & ~partMask);
+        if (hasbyte(last, c))
+            return _memchr8(Printable, true, true, (char *)&last, c);
+    }
+
+    return -1;
 }
 
 // Find char in const binary string
 static RAII_INLINE uint32_t _memchr(bool Printable, bool Known, const char *s, uint32_t len, uint8_t c) {
     const char *p = s;
     const char *end = s + len;
+    if (len == 0)
+        return -1;
 
     // If shorter than 8 bytes, we have to mask away c bytes past len
     uint32_t partLen = (len & 7) ? (len & 7) : 8;
-    uint64_t partMask = len < 8 ? ~0ull >> (64 - partLen * 8) : 0ull;
-    uint64_t first = cast(p) & ~(partMask & extend(c));
+    uint64_t partMask = len < 8 ? ~0ull << (partLen * 8) : 0ull;
+    uint64_t first = (cast(p) & ~partMask) | (extend(c ^ 1) & partMask);
 
     // Check first 8 bytes
     if (hasbyte(first, c))
@@ -188,16 +183,13 @@ static RAII_INLINE uint32_t _memchr(bool Printable, bool Known, const char *s, u
     p += partLen;
 
     // Check words for that byte
-    for (;;) {
+    for (; p < end; p += 8) {
         if (hasbyte(cast(p), c)) {
             return (p - s) + _memchr8(Printable, true, false, p, c);
         }
-        p += 8;
-        if (!Known) {
-            if (p == end)
-                return -1;
-        }
     }
+
+    return -1;
 }
 
 // Convert uint, of less than 100, to %02u, as int 16
@@ -493,11 +485,13 @@ RAII_INLINE size_t simd_strlen(const char *str) {
 }
 
 RAII_INLINE string simd_memchr(const char *s, uint8_t c, uint32_t len) {
-    return (char *)s + _memchr(false, false, s, len, c);
+    uint32_t index = _memchr(false, false, s, len, c);
+    return index == (uint32_t)-1 ? NULL : (char *)s + index;
 }
 
 RAII_INLINE string simd_memrchr(const char *s, uint8_t c, uint32_t len) {
-    return (char *)s + _memrchr(false, false, s, len, c) - 3;
+    uint32_t index = _memrchr(false, false, s, len, c);
+    return index == (uint32_t)-1 ? NULL : (char *)s + index;
 }
 
 // Find char in binary string. Char c is known to be in s + len
-- 
2.43.0


From ed610101f975ae4b033b4d1b5cad9fa185f5b451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 04/38] fix: simd_strcmp treats strings sharing a prefix as
 equal and reads past the shorter one

---
 src/swar.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index e43b5f0..732b403 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -381,19 +381,21 @@ RAII_INLINE uint64_t simd_htou(const char *s, uint32_t len) {
 }
 
 RAII_INLINE int simd_strcmp(const char *str0, const char *str1) {
-    int len = simd_strlen(str0);
-    int fast = len / sizeof(size_t) + 1;
-    int offset = (fast - 1) * sizeof(size_t);
-    int current_block = 0;
+    size_t len = simd_strlen(str0), len1 = simd_strlen(str1);
+    if (len1 < len)
+        len = len1;
 
-    if (len <= sizeof(size_t)) { fast = 0; }
+    // Whole words both strings have, the rest including `\0` is compared by byte
+    size_t fast = len / sizeof(size_t);
+    size_t offset = fast * sizeof(size_t);
+    size_t current_block = 0;
 
     size_t *lstr0 = (size_t *)str0;
     size_t *lstr1 = (size_t *)str1;
 
     while (current_block < fast) {
         if ((lstr0[current_block] ^ lstr1[current_block])) {
-            int pos;
+            size_t pos;
             for (pos = current_block * sizeof(size_t); pos < len; ++pos) {
                 if ((str0[pos] ^ str1[pos]) || (str0[pos] == 0) || (str1[pos] == 0)) {
                     return  (int)((unsigned char)str0[pos] - (unsigned char)str1[pos]);
@@ -404,7 +406,7 @@ RAII_INLINE int simd_strcmp(const char *str0, const char *str1) {
         ++current_block;
     }
 
-    while (len > offset) {
+    while (len >= offset) {
         if ((str0[offset] ^ str1[offset])) {
             return (int)((unsigned char)str0[offset] - (unsigned char)str1[offset]);
         }
-- 
2.43.0


From e602dadbddf8f22eb27f06603efc03d2a843cbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 05/38] fix: raii_decode64 dereferences a NULL scope when it is
 the first raii call of a thread

---
 src/raii.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raii.c b/src/raii.c
index 9130d51..b63fcb5 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -194,7 +194,7 @@ RAII_INLINE u_string raii_encode64(u_string_t src) {
 }
 
 RAII_INLINE u_string raii_decode64(u_string_t src) {
-    return str_decode64_ex(raii_local(), src);
+    return str_decode64_ex(raii_init(), src);
 }
 
 unique_t *unique_init(void) {
-- 
2.43.0


From c3448b440b4af9622fb3991a296cff11bed910d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 06/38] fix: deferred index helpers use the wrong element type
 and layout, so cancel and fire act on garbage

---
 src/raii.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index b63fcb5..7912547 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -342,18 +342,18 @@ static RAII_INLINE void raii_deferred_array_free(defer_t *array) {
     raii_array_free((raii_array_t *)array);
 }
 
-static RAII_INLINE size_t raii_deferred_array_get_index(const defer_t *array, raii_array_t *elem) {
-    RAII_ASSERT(elem >= (raii_array_t *)array->base.base);
-    return (size_t)(elem - (raii_array_t *)array->base.base);
+static RAII_INLINE size_t raii_deferred_array_get_index(const defer_t *array, defer_func_t *elem) {
+    RAII_ASSERT(elem >= (defer_func_t *)((raii_array_t *)array)->base);
+    return (size_t)(elem - (defer_func_t *)((raii_array_t *)array)->base);
 }
 
-static RAII_INLINE raii_array_t *raii_deferred_array_get_element(const defer_t *array, size_t index) {
-    RAII_ASSERT(index <= array->base.elements);
-    return &((raii_array_t *)array->base.base)[index];
+static RAII_INLINE defer_func_t *raii_deferred_array_get_element(const defer_t *array, size_t index) {
+    RAII_ASSERT(index < ((raii_array_t *)array)->elements);
+    return &((defer_func_t *)((raii_array_t *)array)->base)[index];
 }
 
 static RAII_INLINE size_t raii_deferred_array_len(const defer_t *array) {
-    return array->base.elements;
+    return ((raii_array_t *)array)->elements;
 }
 
 static void deferred_canceled(void *data) {}
@@ -363,7 +363,7 @@ static void raii_deferred_internal(memory_t *scope, defer_func_t *deferred) {
 
     RAII_ASSERT(num_defers != 0 && deferred != NULL);
 
-    if (deferred == (defer_func_t *)raii_deferred_array_get_element(&scope->defer, num_defers - 1)) {
+    if (deferred == raii_deferred_array_get_element(&scope->defer, num_defers - 1)) {
         /* If we're cancelling the last defer we armed, there's no need to waste
          * space of a deferred callback to an empty function like
          * disarmed_defer(). */
@@ -378,18 +378,22 @@ static void raii_deferred_internal(memory_t *scope, defer_func_t *deferred) {
 void raii_deferred_cancel(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
-    raii_deferred_internal(scope, (defer_func_t *)raii_deferred_array_get_element(&scope->defer, index));
+    raii_deferred_internal(scope, raii_deferred_array_get_element(&scope->defer, index));
 }
 
 void raii_deferred_fire(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
-    defer_func_t *deferred = (defer_func_t *)raii_deferred_array_get_element(&scope->defer, index);
+    defer_func_t *deferred = raii_deferred_array_get_element(&scope->defer, index);
     RAII_ASSERT(scope);
 
-    deferred->func(deferred->data);
+    func_t func = deferred->func;
+    void *data = deferred->data;
 
+    /* Disarm first, `func` might add more and so move the array. */
     raii_deferred_internal(scope, deferred);
+
+    func(data);
 }
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
@@ -460,7 +464,7 @@ static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *
         deferred->data = data;
         deferred->check = check;
 
-        return raii_deferred_array_get_index(&scope->defer, (raii_array_t *)deferred);
+        return raii_deferred_array_get_index(&scope->defer, deferred);
     }
 }
 
-- 
2.43.0


From 05a6d9bbcd5419437591dcad06b7ed109705e561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 07/38] fix: running deferred functions uses a freed array,
 drops or repeats entries when one of them defers or panics

---
 src/raii.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 7912547..d1ee0b1 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -398,21 +398,21 @@ void raii_deferred_fire(memory_t *scope, size_t index) {
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
     raii_array_t *array = (raii_array_t *)&scope->defer;
-    defer_func_t *defers = array->base;
     bool defer_ran = false;
-    size_t i;
 
     scope->is_recovered = is_empty(scope->err);
 
-    for (i = array->elements; i != generation; i--) {
-        defer_func_t *defer = &defers[i - 1];
+    while (array->elements > generation) {
+        /* Taken off first, the function might add more (moving the array), or panic. */
+        defer_func_t defer[1];
+        array->elements--;
+        *defer = ((defer_func_t *)array->base)[array->elements];
         defer_ran = true;
 
         if (!is_empty(scope->err) && !is_empty(defer->check))
             scope->is_recovered = false;
 
         defer->func(defer->data);
-        defer->data = NULL;
     }
 
     if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err)) {
@@ -423,7 +423,6 @@ static void raii_deferred_run(memory_t *scope, size_t generation) {
         }
     }
 
-    array->elements = generation;
     if (!is_empty(scope->protector)) {
         ex_unprotected_ptr(scope->protector);
         RAII_FREE(scope->protector);
-- 
2.43.0


From 853ade13dc834e5f75e7a6c15d658d54472720a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 08/38] fix: functions deferred to a scope after it was cleaned
 never run

---
 src/raii.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raii.c b/src/raii.c
index d1ee0b1..445002e 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -454,6 +454,10 @@ static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *
 
     RAII_ASSERT(func);
 
+    /* Re-arm, a scope stays usable after its deferred functions ran. */
+    if (!is_type(&scope->defer, RAII_DEF_ARR))
+        raii_deferred_init(&scope->defer);
+
     deferred = raii_deferred_array_append(&scope->defer);
     if (UNLIKELY(!deferred)) {
         RAII_LOG("Could not add new deferred function.");
-- 
2.43.0


From 71f94c72b8b709b3b45348cd2e190542a9a98d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 09/38] fix: scope allocations are pushed on the unwind stack
 as `void **`, so a throw frees their contents as pointers

---
 src/raii.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 445002e..6e2ade1 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -220,10 +220,10 @@ unique_t *unique_init_arena(void) {
 void *malloc_full(memory_t *scope, size_t size, func_t func) {
     void *arena = try_malloc(size);
     if (is_empty(scope->protector))
-        scope->protector = try_malloc(sizeof(ex_ptr_t));
+        scope->protector = try_calloc(1, sizeof(ex_ptr_t));
 
+    /* Released by the deferred function only, `arena` is not a protected `void **`. */
     scope->protector->is_emulated = scope->is_emulated;
-    ex_protect_ptr(scope->protector, arena, func);
     scope->is_protected = true;
     scope->mid = raii_deferred(scope, func, arena);
 
@@ -250,8 +250,8 @@ void *calloc_full(memory_t *scope, int count, size_t size, func_t func) {
     if (is_empty(scope->protector))
         scope->protector = try_calloc(1, sizeof(ex_ptr_t));
 
+    /* Released by the deferred function only, `arena` is not a protected `void **`. */
     scope->protector->is_emulated = scope->is_emulated;
-    ex_protect_ptr(scope->protector, arena, func);
     scope->is_protected = true;
     scope->mid = raii_deferred(scope, func, arena);
 
@@ -417,7 +417,7 @@ static void raii_deferred_run(memory_t *scope, size_t generation) {
 
     if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err)) {
         scope->is_protected = false;
-        if (!defer_ran) {
+        if (!defer_ran && is_type(scope->protector, ex_protected_st)) {
             scope->protector->func(*scope->protector->ptr);
             *scope->protector->ptr = NULL;
         }
-- 
2.43.0


From 3ffdac56b813e9b55f935793b6d0cca645c8f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 10/38] fix: unwinding stops at the first protected pointer
 that is NULL, leaking the older ones

---
 src/except.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/except.c b/src/except.c
index 088d247..d2a0540 100644
--- a/src/except.c
+++ b/src/except.c
@@ -115,15 +115,15 @@ static void ex_unwind_stack(ex_context_t *ctx) {
         raii_deferred_clean();
     } else {
         while (p && p->type == ex_protected_st) {
-            if ((got_uncaught_exception = (temp == *p->ptr)))
-                break;
-
             if (*p->ptr) {
+                if ((got_uncaught_exception = (temp == *p->ptr)))
+                    break;
+
+                temp = *p->ptr;
                 p->type = -1;
                 p->func(*p->ptr);
             }
 
-            temp = *p->ptr;
             p = p->next;
         }
     }
-- 
2.43.0


From 9802a7615b60d456327c3313f63f4bf975a87ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 11/38] fix: ex_try leaves flags and data of its context
 uninitialised, ex_throw decides on them

---
 include/exception.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/exception.h b/include/exception.h
index 7ced475..a14e7a5 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -301,6 +301,16 @@ throws an exception of given message. */
     /* local context */                     \
     ex_context_t ex_err;                    \
     ex_err.next = ex_init();                \
+    ex_err.type = ex_context_st;            \
+    ex_err.is_unwind = false;               \
+    ex_err.is_rethrown = false;             \
+    ex_err.is_guarded = false;              \
+    ex_err.is_raii = false;                 \
+    ex_err.is_emulated = false;             \
+    ex_err.caught = -1;                     \
+    ex_err.data = 0;                        \
+    ex_err.prev = 0;                        \
+    ex_err.panic = 0;                       \
     ex_err.stack = 0;                       \
     ex_err.ex = 0;                          \
     ex_err.unstack = 0;                     \
-- 
2.43.0


From af555411dc30306ba7093b6cd0ad357a53cbe966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 12/38] fix: raii_caught and raii_message dereference a NULL
 scope in a thread that never used one

---
 src/raii.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 6e2ade1..941a18a 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -489,13 +489,17 @@ RAII_INLINE void raii_recover_by(memory_t *scope, func_t func, void *data) {
 
 bool raii_caught(const char *err) {
     memory_t *scope = raii_local();
-    const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
+    const char *exception = is_empty(scope) ? NULL
+        : (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
 
     if (exception == NULL && is_str_eq(err, ex_local()->ex)) {
         ex_local()->state = ex_catch_st;
         return true;
     }
 
+    if (is_empty(scope))
+        return false;
+
     if ((scope->is_recovered = is_str_eq(err, exception)))
         ex_local()->state = ex_catch_st;
 
@@ -512,7 +516,8 @@ bool raii_is_caught(memory_t *scope, const char *err) {
 
 const char *raii_message(void) {
     memory_t *scope = raii_local();
-    const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
+    const char *exception = is_empty(scope) ? NULL
+        : (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
     return exception == NULL ? ex_local()->ex : exception;
 }
 
-- 
2.43.0


From 1e68d8ac44052ad0be1d2d6e2d35404ace06c1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 13/38] fix: argument containers crash on strings longer than a
 slot, pointer arguments, and absent items

---
 src/raii.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 941a18a..b7de910 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -563,11 +563,15 @@ RAII_INLINE values_type raii_value(void *data) {
         return ((raii_values_t *)data)->value;
 
     RAII_LOG("attempt to get value on null");
-    return;
+    return ((raii_values_t){0}).value;
 }
 
 void args_free(args_t params) {
     if (is_type(params, RAII_ARGS)) {
+        size_t i;
+        for (i = 0; i < params->n_args; i++)
+            RAII_FREE(params->args[i].extended);
+
         RAII_FREE(params->args);
         memset(params, -1, sizeof(args_t));
         RAII_FREE(params);
@@ -599,13 +603,12 @@ RAII_INLINE values_type get_args(args_t params, int item) {
 RAII_INLINE values_type args_in(args_t params, size_t index) {
     return (index >= 0 && index < params->n_args)
         ? params->args[index].value
-        : ((raii_values_t *)0)->value;
+        : ((raii_values_t){0}).value;
 }
 
 args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
     size_t i, len, count = simd_strlen(desc);
     args_t params = try_calloc(1, sizeof(struct args_s));
-    void_t p;
     string s;
     params->args_size = sizeof(raii_values_t);
     params->args = try_calloc(count, params->args_size);
@@ -643,8 +646,9 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
                 len = simd_strlen(s);
                 if (len > sizeof(raii_values_t)) {
                     params->args_size += len + 1;
-                    params->args = try_realloc(params->args, params->args_size);
-                    strncpy(params->args[i].value.char_ptr, s, len);
+                    params->args[i].size = len;
+                    params->args[i].extended = try_calloc(1, len + 1);
+                    params->args[i].value.char_ptr = memcpy(params->args[i].extended, s, len);
                 } else {
                     params->args[i].value.char_ptr = s;
                 }
@@ -663,13 +667,8 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
                 break;
             case 'p':
                 // void pointer (any arbitrary pointer) argument
-                params->args[i].value.object = va_arg(argp, void *);
             default:
-                p = va_arg(argp, void *);
-                len = sizeof(p);
-                params->args_size += len;
-                params->args = try_realloc(params->args, params->args_size);
-                memcpy(params->args[i].value.object, p, sizeof(p));
+                params->args[i].value.object = va_arg(argp, void *);
                 break;
         }
     }
-- 
2.43.0


From 9c3a925bfa5aa4ac646752224bef3ee02b081007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 14/38] fix: thrd_get and thrd_sync read the future after
 freeing it and crash on a task without result

---
 src/future.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/future.c b/src/future.c
index 53d67a6..69f9e63 100644
--- a/src/future.c
+++ b/src/future.c
@@ -110,11 +110,12 @@ future thrd_async(thrd_func_t fn, void_t args) {
 
 values_type thrd_get(future f) {
     if (is_type(f, RAII_FUTURE) && !is_empty(f->value) && is_type(f->value, RAII_PROMISE)) {
-        raii_values_t *r = promise_get(f->value);
+        promise *p = f->value;
+        raii_values_t *r = promise_get(p);
         future_close(f);
-        promise_close(f->value);
+        promise_close(p);
         if (is_empty(r))
-            return thrd_value(0)->value;
+            return ((raii_values_t){0}).value;
 
         return r->value;
     }
@@ -265,20 +266,21 @@ future_t thrd_sync(future_t v) {
     int i, x;
     memory_t *scope = v->scope;
     for (i = 0; i < v->thread_count; i++) {
-        raii_values_t *result = promise_get(v->futures[i]->value);
-        size_t size = result->size;
+        promise *p = v->futures[i]->value;
+        raii_values_t *result = promise_get(p);
+        size_t size = is_empty(result) ? 0 : result->size;
         v->results[i]->result = (raii_values_t *)calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
         if (size > 0) {
             v->results[i]->result->extended = calloc_full(scope, 1, size, RAII_FREE);
             memcpy(v->results[i]->result->extended, result->extended, size);
             v->results[i]->result->value.object = v->results[i]->result->extended;
-        } else {
+        } else if (!is_empty(result)) {
             v->results[i]->result->value.array = result->value.array;
         }
 
         v->results[i]->is_ready = true;
         future_close(v->futures[i]);
-        promise_close(v->futures[i]->value);
+        promise_close(p);
     }
 
     raii_deferred_clean();
-- 
2.43.0


From df80e1facf7df98b082807b5a500a0aa2c3cad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 15/38] fix: thrd_spawn leaves a protected pointer to its own
 stack frame on the unwind stack

---
 src/future.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index 69f9e63..9fc5452 100644
--- a/src/future.c
+++ b/src/future.c
@@ -230,7 +230,6 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
 
     promise *p = promise_create();
     future f = future_create(fn);
-    ex_protect_ptr(raii_local()->protector, &f, RAII_FREE);
     future_arg *f_arg = try_calloc(1, sizeof(future_arg));
     f_arg->func = f->func;
     f_arg->arg = args;
-- 
2.43.0


From 19e33bf05aec353e2a4896368b08dd39ef5c00ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 16/38] fix: arena_clear keeps handing out chunks it put on the
 free list, and arena_free walks freed chunks

---
 src/arena.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/arena.c b/src/arena.c
index 1459b31..847efd4 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -38,6 +38,7 @@ void arena_free(arena_t arena) {
         else
             arena_clear(arena);
 
+        num_free -= (int)arena->threshold + 1;
         memset(arena, -1, sizeof(arena_t));
         RAII_FREE(arena);
         arena = NULL;
@@ -110,22 +111,22 @@ void arena_clear(arena_t arena) {
 
     while (!arena->is_global && arena->next && is_type(arena->next, RAII_ARENA)) {
         arena_t tmp = arena->next;
+        struct arena_s saved = *tmp;
         if (num_free < (int)arena->threshold) {
-            arena->next->next = free_list;
-            free_list = arena->next;
+            tmp->next = free_list;
+            free_list = tmp;
             num_free++;
             free_list->limit = arena->limit;
-            if (is_zero(free_list->bytes))
-                arena->avail -= arena->bytes;
-            else
-                arena->avail -= free_list->bytes;
         } else {
-            memset(arena->next, -1, sizeof(arena_t));
-            RAII_FREE(arena->next);
-            arena->next = NULL;
+            memset(tmp, -1, sizeof(arena_t));
+            RAII_FREE(tmp);
         }
 
-        arena = tmp;
+        /* Back to the state `arena_alloc` saved when it added this chunk. */
+        arena->next = saved.next;
+        arena->avail = saved.avail;
+        arena->limit = saved.limit;
+        arena->bytes = saved.bytes;
     }
 }
 
-- 
2.43.0


From 36fc7f968d5cd5281789dba6f7ed17bc699c40e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 17/38] fix: arena_alloc returns NULL instead of panicking when
 out of memory, arena_calloc then writes to it

---
 src/arena.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arena.c b/src/arena.c
index 847efd4..4bdb02c 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -68,7 +68,7 @@ void *arena_alloc(arena_t arena, long nbytes) {
 
             if (ptr == NULL) {
                 errno = ENOMEM;
-                return NULL;
+                raii_panic("Arena allocation failed!");
             }
 
             if (arena->is_global) {
-- 
2.43.0


From f08016402cc750f14ce859ec75ad1be7799172ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 18/38] fix: recovering in a guard that owns memory is ignored,
 the exception is thrown on

---
 src/except.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index d2a0540..92298a0 100644
--- a/src/except.c
+++ b/src/except.c
@@ -392,6 +392,8 @@ void ex_throw(string_t exception, string_t file, int line, string_t function, st
     ctx->is_unwind = false;
     ctx->function = function;
     ctx->panic = message;
+    /* Set before unwinding, a deferred function might recover. */
+    ctx->state |= ex_throw_st;
 
     if (exception_setup_func)
         exception_setup_func(ctx, ctx->ex, ctx->panic);
@@ -411,7 +413,7 @@ void ex_throw(string_t exception, string_t file, int line, string_t function, st
 #ifdef _WIN32
     RaiseException(EXCEPTION_PANIC, 0, 0, NULL);
 #endif
-    ex_longjmp(ctx->buf, ctx->state | ex_throw_st);
+    ex_longjmp(ctx->buf, ctx->state);
 }
 
 #ifdef _WIN32
-- 
2.43.0


From fe64d6f7b0fab5e2b78f07f0d632b37270e23920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 19/38] fix: an exception handled by a try inside a guard runs
 the guard's deferred functions and frees its memory

---
 include/raii.h | 1 +
 src/except.c   | 3 ++-
 src/raii.c     | 1 -
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index 2bb3d15..5da3227 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -541,6 +541,7 @@ are only valid between these sections.
     (_$##__FUNCTION__)->status = RAII_GUARDED_STATUS;   \
     raii_local()->arena = (void *)_$##__FUNCTION__;     \
     ex_try {                                            \
+        ex_err.is_guarded = true;                       \
         do {
 
     /* This ends an scoped guard section, it replaces `}`.
diff --git a/src/except.c b/src/except.c
index 92298a0..a0b15c6 100644
--- a/src/except.c
+++ b/src/except.c
@@ -395,7 +395,8 @@ void ex_throw(string_t exception, string_t file, int line, string_t function, st
     /* Set before unwinding, a deferred function might recover. */
     ctx->state |= ex_throw_st;
 
-    if (exception_setup_func)
+    /* Only when thrown to the guard itself, not to a `try` inside of it. */
+    if (exception_setup_func && ctx->is_guarded)
         exception_setup_func(ctx, ctx->ex, ctx->panic);
     else if (ctx->is_raii)
         raii_unwind_set(ctx, ctx->ex, ctx->panic);
diff --git a/src/raii.c b/src/raii.c
index b7de910..cf85833 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -545,7 +545,6 @@ void guard_set(ex_context_t *ctx, const char *ex, const char *message) {
 void guard_reset(void *scope, ex_setup_func set, ex_unwind_func unwind) {
     raii_local()->arena = scope;
     ex_swap_reset(ex_local());
-    ex_local()->is_guarded = false;
     exception_setup_func = set;
     exception_unwind_func = unwind;
 }
-- 
2.43.0


From c24a8976449946f316d617bfdb04c9b388d07d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:32 +0000
Subject: [PATCH 20/38] fix: a scope allocation whose release cannot be
 registered leaks instead of raising

---
 src/raii.c | 36 ++++++++++++++++++++++++++----------
 src/swar.c |  7 +++++--
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index cf85833..a93bd0e 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -220,12 +220,20 @@ unique_t *unique_init_arena(void) {
 void *malloc_full(memory_t *scope, size_t size, func_t func) {
     void *arena = try_malloc(size);
     if (is_empty(scope->protector))
-        scope->protector = try_calloc(1, sizeof(ex_ptr_t));
+        scope->protector = RAII_CALLOC(1, sizeof(ex_ptr_t));
 
-    /* Released by the deferred function only, `arena` is not a protected `void **`. */
-    scope->protector->is_emulated = scope->is_emulated;
-    scope->is_protected = true;
-    scope->mid = raii_deferred(scope, func, arena);
+    if (!is_empty(scope->protector)) {
+        /* Released by the deferred function only, `arena` is not a protected `void **`. */
+        scope->protector->is_emulated = scope->is_emulated;
+        scope->is_protected = true;
+    }
+
+    if (UNLIKELY(is_empty(scope->protector)
+        || (scope->mid = raii_deferred(scope, func, arena)) == (size_t)-1)) {
+        RAII_FREE(arena);
+        errno = ENOMEM;
+        raii_panic("Deferred registration failed!");
+    }
 
     return arena;
 }
@@ -248,12 +256,20 @@ RAII_INLINE void *malloc_arena(memory_t *scope, size_t size) {
 void *calloc_full(memory_t *scope, int count, size_t size, func_t func) {
     void *arena = try_calloc(count, size);
     if (is_empty(scope->protector))
-        scope->protector = try_calloc(1, sizeof(ex_ptr_t));
+        scope->protector = RAII_CALLOC(1, sizeof(ex_ptr_t));
 
-    /* Released by the deferred function only, `arena` is not a protected `void **`. */
-    scope->protector->is_emulated = scope->is_emulated;
-    scope->is_protected = true;
-    scope->mid = raii_deferred(scope, func, arena);
+    if (!is_empty(scope->protector)) {
+        /* Released by the deferred function only, `arena` is not a protected `void **`. */
+        scope->protector->is_emulated = scope->is_emulated;
+        scope->is_protected = true;
+    }
+
+    if (UNLIKELY(is_empty(scope->protector)
+        || (scope->mid = raii_deferred(scope, func, arena)) == (size_t)-1)) {
+        RAII_FREE(arena);
+        errno = ENOMEM;
+        raii_panic("Deferred registration failed!");
+    }
 
     return arena;
 }
diff --git a/src/swar.c b/src/swar.c
index 732b403..160e3fb 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -681,8 +681,11 @@ string str_concat_ex(memory_t *defer, int num_args, va_list ap_copy) {
     }
     va_end(ap);
 
-    if (defer)
-        raii_deferred(defer, RAII_FREE, res);
+    if (defer && raii_deferred(defer, RAII_FREE, res) == (size_t)-1) {
+        RAII_FREE(res);
+        errno = ENOMEM;
+        raii_panic("Deferred registration failed!");
+    }
 
     return res;
 }
-- 
2.43.0


From 200a84400e3d82a30ebde0eb1975bff392ab21a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 21/38] fix: thrd_scope links one protection twice, so the
 unwind stack points at itself and later at freed memory

---
 include/raii.h | 1 +
 src/future.c   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/raii.h b/include/raii.h
index 5da3227..4c474d2 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -245,6 +245,7 @@ typedef struct future_pool {
     memory_t *scope;
     future *futures;
     result_t *results;
+    ex_ptr_t protector;
     future_deque_t queue[1];
 } *future_t;
 
diff --git a/src/future.c b/src/future.c
index 9fc5452..1b90343 100644
--- a/src/future.c
+++ b/src/future.c
@@ -211,7 +211,7 @@ future_t thrd_scope(void) {
     pool->futures = NULL;
     pool->results = NULL;
     ex_protect_ptr(scope->protector, &pool->futures, RAII_FREE);
-    ex_protect_ptr(scope->protector, &pool->results, RAII_FREE);
+    ex_protect_ptr(&pool->protector, &pool->results, RAII_FREE);
     pool->type = RAII_SPAWN;
     spawn->arena = pool;
 
@@ -300,6 +300,7 @@ void thrd_destroy(future_t f) {
         f->type = -1;
         RAII_FREE(f->futures);
         RAII_FREE(f->results);
+        ex_unprotected_ptr(&f->protector);
         ex_unprotected_ptr(err);
         raii_delete(scope);
     }
-- 
2.43.0


From 9a905ff5c3d9039f9a0cc6569b2c24f1fac14ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 22/38] fix: removing a protection in an inner block replaces
 that block's protections by those of the outer one

---
 src/except.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/except.c b/src/except.c
index a0b15c6..238fe6c 100644
--- a/src/except.c
+++ b/src/except.c
@@ -97,9 +97,19 @@ ex_ptr_t ex_protect_ptr(ex_ptr_t *const_ptr, void *ptr, void (*func)(void *)) {
 }
 
 void ex_unprotected_ptr(ex_ptr_t *const_ptr) {
-    if (is_type(const_ptr, ex_protected_st) && !is_except_empty()) {
+    ex_context_t *ctx;
+    ex_ptr_t *p;
+
+    if (is_type(const_ptr, ex_protected_st)) {
         const_ptr->type = -1;
-        ex_local()->stack = const_ptr->next;
+        /* Of the block it was protected in, not necessarily the active one. */
+        for (ctx = ex_local(); ctx; ctx = ctx->next) {
+            for (p = ctx->stack; p && p != const_ptr; p = p->next);
+            if (p) {
+                ctx->stack = const_ptr->next;
+                break;
+            }
+        }
     }
 }
 
-- 
2.43.0


From c70675a74d7642e4b7688d84b1711e8b9f5d4c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 23/38] fix: a throw out of a block that owns scope memory
 leaks the pointers protected in it

---
 src/except.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/except.c b/src/except.c
index 238fe6c..c74ccdb 100644
--- a/src/except.c
+++ b/src/except.c
@@ -114,7 +114,7 @@ void ex_unprotected_ptr(ex_ptr_t *const_ptr) {
 }
 
 static void ex_unwind_stack(ex_context_t *ctx) {
-    ex_ptr_t *p = ctx->stack;
+    ex_ptr_t *p;
     void *temp = NULL;
 
     ctx->unstack = 1;
@@ -123,19 +123,21 @@ static void ex_unwind_stack(ex_context_t *ctx) {
         exception_unwind_func(ctx->data);
     } else if (ctx->is_unwind && ctx->is_raii && ctx->data == (void *)raii_local()) {
         raii_deferred_clean();
-    } else {
-        while (p && p->type == ex_protected_st) {
-            if (*p->ptr) {
-                if ((got_uncaught_exception = (temp == *p->ptr)))
-                    break;
-
-                temp = *p->ptr;
-                p->type = -1;
-                p->func(*p->ptr);
-            }
+    }
 
-            p = p->next;
+    /* Also when the scope was released, it does not own the protected ones. */
+    p = ctx->stack;
+    while (p && p->type == ex_protected_st) {
+        if (*p->ptr) {
+            if ((got_uncaught_exception = (temp == *p->ptr)))
+                break;
+
+            temp = *p->ptr;
+            p->type = -1;
+            p->func(*p->ptr);
         }
+
+        p = p->next;
     }
 
     ctx->unstack = 0;
-- 
2.43.0


From ac6be13bf6f767a4887646969fc2376d42a7d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 24/38] fix: a catch_if handler that throws is entered again
 with its own exception, forever

---
 include/exception.h | 13 +++++++++++++
 include/raii.h      |  6 +++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/exception.h b/include/exception.h
index a14e7a5..0a5a3a9 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -272,6 +272,8 @@ throws an exception of given message. */
             if (ex_err.state == ex_throw_st) {  \
                 EX_MAKE_IF();
 
+#define ex_catch_guard   ex_catch_if
+
 #define ex_finality							\
         } __finally {						\
 			EX_MAKE_IF();					\
@@ -332,6 +334,17 @@ throws an exception of given message. */
             ex_err.state = ex_catch_st;
 
 #define ex_catch_if                    \
+    }                                \
+    }                                \
+    if (ex_err.state == ex_throw_st) \
+    {                                \
+        {                            \
+            EX_MAKE();               \
+            /* not entered again if this handler throws */ \
+            ex_err.state |= ex_catch_st;
+
+/* Internal, for `guard`, entered again until all deferred functions have run. */
+#define ex_catch_guard                 \
     }                                \
     }                                \
     if (ex_err.state == ex_throw_st) \
diff --git a/include/raii.h b/include/raii.h
index 4c474d2..ab64c22 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -551,7 +551,7 @@ are only valid between these sections.
 #define unguarded(result)                                           \
             } while (false);                                        \
             raii_deferred_free(_$##__FUNCTION__);                   \
-    } ex_catch_if {                                                 \
+    } ex_catch_guard {                                                 \
         if ((is_type(&(_$##__FUNCTION__)->defer, RAII_DEF_ARR)))    \
             raii_deferred_free(_$##__FUNCTION__);                   \
     } ex_finally {                                                  \
@@ -566,7 +566,7 @@ are only valid between these sections.
 #define guarded                                                     \
         } while (false);                                            \
         raii_deferred_free(_$##__FUNCTION__);                       \
-    } ex_catch_if {                                                 \
+    } ex_catch_guard {                                                 \
         raii_deferred_free(_$##__FUNCTION__);                       \
     } ex_finally {                                                  \
         guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
@@ -581,7 +581,7 @@ are only valid between these sections.
 #define guarded_exception(error)                                    \
         } while (false);                                            \
         raii_deferred_free(_$##__FUNCTION__);                       \
-    } ex_catch_if {                                                 \
+    } ex_catch_guard {                                                 \
         raii_deferred_free(_$##__FUNCTION__);                       \
         if (!_$##__FUNCTION__->is_recovered && raii_is_caught(_$##__FUNCTION__, raii_message_by(_$##__FUNCTION__))) { \
             ((memory_t *)error)->err = (void_t)ex_err.ex;                   \
-- 
2.43.0


From ae00c3b90467d879966b7467af46907eb44a2092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 25/38] fix: caught() and raii_message() answer for an earlier
 exception still recorded in the thread scope

---
 src/raii.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index a93bd0e..ac6da22 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -505,21 +505,19 @@ RAII_INLINE void raii_recover_by(memory_t *scope, func_t func, void *data) {
 
 bool raii_caught(const char *err) {
     memory_t *scope = raii_local();
-    const char *exception = is_empty(scope) ? NULL
-        : (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
+    ex_context_t *ctx = ex_init();
+    const char *exception = raii_message();
+    /* By message or name, the scope might still hold an earlier exception. */
+    bool caught = exception != NULL
+        && (is_str_eq(err, exception) || (ctx->ex != NULL && is_str_eq(err, ctx->ex)));
 
-    if (exception == NULL && is_str_eq(err, ex_local()->ex)) {
-        ex_local()->state = ex_catch_st;
-        return true;
-    }
-
-    if (is_empty(scope))
-        return false;
+    if (!is_empty(scope))
+        scope->is_recovered = caught;
 
-    if ((scope->is_recovered = is_str_eq(err, exception)))
-        ex_local()->state = ex_catch_st;
+    if (caught)
+        ctx->state = ex_catch_st;
 
-    return scope->is_recovered;
+    return caught;
 }
 
 bool raii_is_caught(memory_t *scope, const char *err) {
@@ -532,9 +530,11 @@ bool raii_is_caught(memory_t *scope, const char *err) {
 
 const char *raii_message(void) {
     memory_t *scope = raii_local();
-    const char *exception = is_empty(scope) ? NULL
-        : (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
-    return exception == NULL ? ex_local()->ex : exception;
+    ex_context_t *ctx = ex_init();
+    if (ctx->ex != NULL)
+        return ctx->panic != NULL ? ctx->panic : ctx->ex;
+
+    return is_empty(scope) ? NULL : raii_message_by(scope);
 }
 
 RAII_INLINE const char *raii_message_by(memory_t *scope) {
-- 
2.43.0


From ab6b04542c637339e3032697d1495e1519cd02dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 26/38] fix: run the remaining deferred functions of a guard
 when one throws after a recovery

---
 include/exception.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/exception.h b/include/exception.h
index 0a5a3a9..c24653c 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -343,11 +343,12 @@ throws an exception of given message. */
             /* not entered again if this handler throws */ \
             ex_err.state |= ex_catch_st;
 
-/* Internal, for `guard`, entered again until all deferred functions have run. */
+/* Internal, for `guard`, entered again until all deferred functions have run,
+also when one of them throws after another recovered. */
 #define ex_catch_guard                 \
     }                                \
     }                                \
-    if (ex_err.state == ex_throw_st) \
+    if ((ex_err.state & ex_throw_st) != 0) \
     {                                \
         {                            \
             EX_MAKE();               \
-- 
2.43.0


From b6960e42a62592a549492427205d85b3070cdb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 27/38] fix: an exception recovered in a guard section is not
 stored as its error

---
 include/raii.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/raii.h b/include/raii.h
index ab64c22..6e92050 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -583,7 +583,7 @@ are only valid between these sections.
         raii_deferred_free(_$##__FUNCTION__);                       \
     } ex_catch_guard {                                                 \
         raii_deferred_free(_$##__FUNCTION__);                       \
-        if (!_$##__FUNCTION__->is_recovered && raii_is_caught(_$##__FUNCTION__, raii_message_by(_$##__FUNCTION__))) { \
+        if ((ex_err.state & ex_throw_st) != 0 && raii_is_caught(_$##__FUNCTION__, raii_message_by(_$##__FUNCTION__))) { \
             ((memory_t *)error)->err = (void_t)ex_err.ex;                   \
             ((memory_t *)error)->panic = ex_err.panic;              \
             ((memory_t *)error)->backtrace = ex_err.backtrace;      \
-- 
2.43.0


From 7677127d793505fcf4d1d0f8a34ec909ef01f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 28/38] fix: ex_terminate releases the thread scope whichever
 context is active

---
 src/except.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/except.c b/src/except.c
index c74ccdb..6d25d2b 100644
--- a/src/except.c
+++ b/src/except.c
@@ -364,8 +364,8 @@ int ex_uncaught_exception(void) {
 }
 
 void ex_terminate(void) {
-    if (ex_local()->is_raii)
-        raii_destroy();
+    /* The active context might not be the one the thread scope was set up in. */
+    raii_destroy();
 
     if (ex_uncaught_exception() || got_uncaught_exception)
         ex_print(ex_local(), "\nException during stack unwinding leading to an undefined behavior");
-- 
2.43.0


From 933492ee9f0d87b501d56b4ef8aaa8ea0371fdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 29/38] fix: exception hooks of a guard section belong to its
 thread

---
 include/exception.h | 2 --
 include/raii.h      | 5 +++++
 src/except.c        | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/exception.h b/include/exception.h
index c24653c..24ff4bd 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -452,8 +452,6 @@ struct ex_ptr_s {
 /* extern declaration
 */
 
-C_API ex_setup_func exception_setup_func;
-C_API ex_unwind_func exception_unwind_func;
 C_API ex_terminate_func exception_terminate_func;
 C_API ex_terminate_func exception_ctrl_c_func;
 C_API bool exception_signal_set;
diff --git a/include/raii.h b/include/raii.h
index 6e92050..b9da721 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -20,6 +20,11 @@ all other fields private, this object binds any additional requests to it's life
 typedef struct memory_s memory_t;
 typedef struct _future *future;
 typedef memory_t unique_t;
+
+/* Each thread has its own, a `guard` section sets and restores them. */
+C_API thread_local ex_setup_func exception_setup_func;
+C_API thread_local ex_unwind_func exception_unwind_func;
+
 typedef void (*func_t)(void *);
 typedef void (*func_args_t)(void *, ...);
 typedef void *(*raii_func_args_t)(void *, ...);
diff --git a/src/except.c b/src/except.c
index 6d25d2b..f8f7778 100644
--- a/src/except.c
+++ b/src/except.c
@@ -63,8 +63,8 @@ static volatile sig_atomic_t got_uncaught_exception = false;
 static volatile sig_atomic_t got_ctrl_c = false;
 static volatile sig_atomic_t can_terminate = true;
 
-ex_setup_func exception_setup_func = NULL;
-ex_unwind_func exception_unwind_func = NULL;
+thread_local ex_setup_func exception_setup_func = NULL;
+thread_local ex_unwind_func exception_unwind_func = NULL;
 ex_terminate_func exception_ctrl_c_func = NULL;
 ex_terminate_func exception_terminate_func = NULL;
 bool exception_signal_set = false;
-- 
2.43.0


From edc97c151244f16bfb44ccfb79088d919492e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 30/38] fix: a promise has its own scope for the result and the
 error of its task

---
 src/future.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/future.c b/src/future.c
index 1b90343..078095c 100644
--- a/src/future.c
+++ b/src/future.c
@@ -12,7 +12,13 @@ Modified from https://gist.github.com/Geal/8f85e02561d101decf9a
 
 static promise *promise_create(void) {
     promise *p = calloc_default(1, sizeof(promise));
-    p->scope = raii_local();
+    /* Used by the task until done, released with the scope of the caller. */
+    p->scope = unique_init();
+    if (UNLIKELY(raii_deferred(raii_init(), (func_t)raii_delete, p->scope) == (size_t)-1)) {
+        raii_delete(p->scope);
+        raii_panic("Deferred registration failed!");
+    }
+
     atomic_flag_clear(&p->mutex);
     atomic_flag_clear(&p->done);
     p->type = RAII_PROMISE;
@@ -90,12 +96,19 @@ static int thrd_raii_wrapper(void_t arg) {
     return err;
 }
 
+/* Arguments not bound to any scope live as long as the result of their task. */
+static void args_bind(void_t arg, promise *p) {
+    if (!is_empty(arg) && is_type(arg, RAII_ARGS) && is_empty(((args_t)arg)->context))
+        ((args_t)arg)->context = p->scope;
+}
+
 static void thrd_start(future f, promise *value, void_t arg) {
     future_arg *f_arg = try_calloc(1, sizeof(future_arg));
     f_arg->func = f->func;
     f_arg->arg = arg;
     f_arg->value = value;
     f_arg->type = RAII_FUTURE_ARG;
+    args_bind(arg, value);
     if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success)
         throw(future_error);
 }
@@ -236,6 +249,7 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
     f_arg->value = p;
     f_arg->type = RAII_FUTURE_ARG;
     f->value = p;
+    args_bind(args, p);
     if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success)
         throw(future_error);
 
@@ -252,7 +266,7 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
 result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
     va_list args;
     va_start(args, desc);
-    args_t params = raii_args_ex(raii_local(), desc, args);
+    args_t params = raii_args_ex(nullptr, desc, args);
     va_end(args);
 
     return thrd_spawn(fn, (void_t)params);
-- 
2.43.0


From 88f9ac8d8b637a89351cb3eea7f2ad8e10681c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:01 +0000
Subject: [PATCH 31/38] fix: arguments released by a task, or null, are not
 read after it ran

---
 src/future.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index 078095c..f0962a8 100644
--- a/src/future.c
+++ b/src/future.c
@@ -10,6 +10,9 @@ Modified from https://gist.github.com/Geal/8f85e02561d101decf9a
 
 #include "raii.h"
 
+/* What `thrd_returning` last made in this thread. */
+thrd_static(raii_values_t *, thrd_returned, NULL)
+
 static promise *promise_create(void) {
     promise *p = calloc_default(1, sizeof(promise));
     /* Used by the task until done, released with the scope of the caller. */
@@ -80,11 +83,13 @@ static int thrd_raii_wrapper(void_t arg) {
     f->value->scope->err = nullptr;
     rpmalloc_init();
 
+    *thrd_returned() = nullptr;
     guard {
         res = f->func((args_t)f->arg);
     } guarded_exception(f->value->scope);
 
-    promise_set(f->value, res, (is_type(f->arg, RAII_ARGS) && ((args_t)f->arg)->is_returning));
+    /* The arguments might be null, not `args_t`, or already released by `args_free`. */
+    promise_set(f->value, res, res == *thrd_returned());
     if (is_type(f, RAII_FUTURE_ARG)) {
         memset(f, 0, sizeof(f));
         RAII_FREE(f);
@@ -152,6 +157,7 @@ RAII_INLINE raii_values_t *thrd_returning(args_t args, void_t value, size_t size
     result->size = size;
     result->extended = value;
     args->is_returning = true;
+    *thrd_returned() = result;
     return result;
 }
 
-- 
2.43.0


From c0403de173c2fd371b96c770b6e04f25ed0db53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:17 +0000
Subject: [PATCH 32/38] fix: synchronising a thread scope again skips the tasks
 already collected

---
 src/future.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index f0962a8..cf12be1 100644
--- a/src/future.c
+++ b/src/future.c
@@ -285,6 +285,10 @@ future_t thrd_sync(future_t v) {
     int i, x;
     memory_t *scope = v->scope;
     for (i = 0; i < v->thread_count; i++) {
+        /* Collected by an earlier call, its future is gone. */
+        if (v->results[i]->is_ready)
+            continue;
+
         promise *p = v->futures[i]->value;
         raii_values_t *result = promise_get(p);
         size_t size = is_empty(result) ? 0 : result->size;
@@ -329,7 +333,7 @@ void thrd_destroy(future_t f) {
 RAII_INLINE bool thrd_is_finish(future_t f) {
     size_t i;
     for (i = 0; i < f->thread_count; i++) {
-        if (!thrd_is_done(f->futures[i]))
+        if (!f->results[i]->is_ready && !thrd_is_done(f->futures[i]))
             return false;
     }
 
-- 
2.43.0


From 43f74d1d0e22b0b223a2aaf6021fc39c30a74caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:06 +0000
Subject: [PATCH 33/38] fix: spawning without a thread scope throws also when
 the thread has a scope

---
 src/future.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index cf12be1..175e9d4 100644
--- a/src/future.c
+++ b/src/future.c
@@ -238,7 +238,7 @@ future_t thrd_scope(void) {
 }
 
 result_t thrd_spawn(thrd_func_t fn, void_t args) {
-    if (is_raii_empty() || !is_type(raii_local()->arena, RAII_SPAWN))
+    if (is_raii_empty() || is_empty(raii_local()->arena) || !is_type(raii_local()->arena, RAII_SPAWN))
         raii_panic("No initialization, No `thrd_scope`!");
 
     future_t pool = (future_t)raii_local()->arena;
-- 
2.43.0


From 1fc79dfa407c2550a4c2b0aa3b2f85b8b4aea9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 34/38] fix: simd_atod gives the fraction its sign and its
 scale

The fraction was subtracted from a positive number (and added to a negative
one), scaled by one digit too many, lost its sign if the integer part is -0,
and with 20 or more digits read past the table of scales.
---
 src/swar.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 160e3fb..0f68e3f 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -10,7 +10,7 @@
 // *** dst is up to 63 bit
 static RAII_INLINE int64_t _copySign(int64_t src, uint64_t dst) {
     // This is better than `src > 0 ? dst : -dst` that is using cmov
-    uint64_t m = ~(src >> 63); // all 1s if >= 0 (opposite of abs)
+    uint64_t m = (uint64_t)(src >> 63); // all 1s if < 0
     return (dst + m) ^ m; // flip if src negative
 }
 
@@ -539,23 +539,33 @@ RAII_INLINE double simd_atod(const char *s, uint32_t len) {
         return simd_atoi(s, len);
     }
 
+    // The int part of "-0.5" has no sign
+    int64_t sign = *s == '-' ? -1 : 1;
+
     // Do the int part
     int64_t ipart = simd_atoi(s, ilen);
     s += ilen + 1;
     len -= ilen + 1;
 
+    if (len == 0)
+        return ipart;
+
+    // More do not fit 63 bit, they are lost to precision
+    if (len > 18)
+        len = 18;
+
     // Int of decimal part
     int64_t dpart = simd_atou(s, len);
 
     // To add the two parts we need matching signs
-    dpart = _copySign(ipart, dpart);
+    dpart = _copySign(sign, dpart);
 
     // Array of 20 * 8 = 160 bytes
     static const CODE_SECTION double scales[20] = {
         1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10,
         1e-11, 1e-12, 1e-13, 1e-14, 1e-15, 1e-16, 1e-17, 1e-18, 1e-19, 1e-20};
 
-    return ipart + dpart * scales[len];
+    return ipart + dpart * scales[len - 1];
 }
 
 // Convert uint to %0<N>u, N <= 8
-- 
2.43.0


From 297a418fb454e628fa33ed39de888b030a4f6b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:30 +0000
Subject: [PATCH 35/38] fix: atomic operations read and write only the bytes of
 their object

---
 include/catomic.h | 78 +++++++++++++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 29 deletions(-)

diff --git a/include/catomic.h b/include/catomic.h
index 5f12f11..2f3f542 100644
--- a/include/catomic.h
+++ b/include/catomic.h
@@ -2640,7 +2640,7 @@ static C89ATOMIC_INLINE void c89atomic_spinlock_unlock(atomic_spinlock *pSpinloc
 #   define atomic_get(type, obj)  (type)c89atomic_load_32((atomic_uint *)obj)
 #else
 /* reads a value from an atomic object then cast to type */
-#   define atomic_get(type, obj)  (type)c89atomic_load_64((atomic_ullong *)obj)
+#   define atomic_get(type, obj)  (type)atomic_load(obj)
 #endif
 
 #define atomic_lock(mutex)   c89atomic_spinlock_lock((atomic_spinlock *)mutex)
@@ -2731,69 +2731,89 @@ static C89ATOMIC_INLINE void c89atomic_spinlock_unlock(atomic_spinlock *pSpinloc
 #define atomic_compare_exchange_strong_explicit(obj, expected, desired, succ, fail)	\
     c89atomic_compare_exchange_strong_explicit_32((atomic_uint *)obj, (c89atomic_uint32)expected, (c89atomic_uint32)desired, succ, fail)
 #else
+/* applies the operation for the size of the atomic object, only its own bytes are read or written */
+#if defined(__GNUC__)
+#   define c89atomic_as(obj, value)  ((__typeof__(*(obj)))(value))
+#else
+#   define c89atomic_as(obj, value)  (value)
+#endif
+#define c89atomic_sized(obj, op_8, op_16, op_32, op_64)	\
+    (sizeof(*(obj)) == 1 ? op_8 : sizeof(*(obj)) == 2 ? op_16 : sizeof(*(obj)) == 4 ? op_32 : op_64)
+#define c89atomic_at(bits, obj)  ((volatile c89atomic_uint##bits *)(obj))
+#define c89atomic_arg(bits, arg)  ((c89atomic_uint##bits)(uintptr_t)(arg))
+#define c89atomic_sized_op(op, obj, arg, order)	c89atomic_sized(obj,	\
+    c89atomic_##op##_explicit_8(c89atomic_at(8, obj), c89atomic_arg(8, arg), order),	\
+    c89atomic_##op##_explicit_16(c89atomic_at(16, obj), c89atomic_arg(16, arg), order),	\
+    c89atomic_##op##_explicit_32(c89atomic_at(32, obj), c89atomic_arg(32, arg), order),	\
+    c89atomic_##op##_explicit_64(c89atomic_at(64, obj), c89atomic_arg(64, arg), order))
+#define c89atomic_sized_cas(op, obj, expected, desired, succ, fail)	c89atomic_sized(obj,	\
+    c89atomic_##op##_explicit_8(c89atomic_at(8, obj), (c89atomic_uint8 *)(expected), c89atomic_arg(8, desired), succ, fail),	\
+    c89atomic_##op##_explicit_16(c89atomic_at(16, obj), (c89atomic_uint16 *)(expected), c89atomic_arg(16, desired), succ, fail),	\
+    c89atomic_##op##_explicit_32(c89atomic_at(32, obj), (c89atomic_uint32 *)(expected), c89atomic_arg(32, desired), succ, fail),	\
+    c89atomic_##op##_explicit_64(c89atomic_at(64, obj), (c89atomic_uint64 *)(expected), c89atomic_arg(64, desired), succ, fail))
+
 /* indicates whether the atomic object is lock-free */
-#define atomic_is_lock_free(obj)  c89atomic_is_lock_free_64((atomic_ullong *)obj)
+#define atomic_is_lock_free(obj)  c89atomic_sized(obj, c89atomic_is_lock_free_8(c89atomic_at(8, obj)),	\
+    c89atomic_is_lock_free_16(c89atomic_at(16, obj)), c89atomic_is_lock_free_32(c89atomic_at(32, obj)), c89atomic_is_lock_free_64(c89atomic_at(64, obj)))
 
 /* stores a value in an atomic object */
-#define atomic_store(obj, desired)	c89atomic_store_64((atomic_ullong *)obj, (c89atomic_uint64)desired)
+#define atomic_store(obj, desired)	atomic_store_explicit(obj, desired, c89atomic_memory_order_seq_cst)
 /* stores a value in an atomic object */
-#define atomic_store_explicit(obj, desired, order)	c89atomic_store_explicit_64((atomic_ullong *)obj, (c89atomic_uint64)desired, order)
+#define atomic_store_explicit(obj, desired, order)	c89atomic_sized_op(store, obj, desired, order)
 
 /* reads a value from an atomic object */
-#define atomic_load(obj)    c89atomic_load_64((atomic_ullong *)obj)
+#define atomic_load(obj)    atomic_load_explicit(obj, c89atomic_memory_order_seq_cst)
 /* reads a value from an atomic object */
-#define atomic_load_explicit(obj, order)	c89atomic_load_explicit_64((atomic_ullong *)obj, order)
+#define atomic_load_explicit(obj, order)	c89atomic_as(obj, c89atomic_sized(obj,	\
+    c89atomic_load_explicit_8(c89atomic_at(8, obj), order), c89atomic_load_explicit_16(c89atomic_at(16, obj), order),	\
+    c89atomic_load_explicit_32(c89atomic_at(32, obj), order), c89atomic_load_explicit_64(c89atomic_at(64, obj), order)))
 
 /* initializes an existing atomic object */
-#define atomic_init(obj, desired)  c89atomic_store_64((atomic_ullong *)obj, (c89atomic_uint64)desired)
+#define atomic_init(obj, desired)  atomic_store_explicit(obj, desired, c89atomic_memory_order_seq_cst)
 
 /* atomic addition */
-#define atomic_fetch_add(obj, arg)	c89atomic_fetch_add_64((atomic_ullong *)obj, (c89atomic_uint64)arg)
+#define atomic_fetch_add(obj, arg)	atomic_fetch_add_explicit(obj, arg, c89atomic_memory_order_seq_cst)
 /* atomic addition */
-#define atomic_fetch_add_explicit(obj, arg, order)	c89atomic_fetch_add_explicit_64((atomic_ullong *)obj, (c89atomic_uint64)arg, order)
+#define atomic_fetch_add_explicit(obj, arg, order)	c89atomic_as(obj, c89atomic_sized_op(fetch_add, obj, arg, order))
 
 /* atomic subtraction */
-#define atomic_fetch_sub(obj, arg)	c89atomic_fetch_sub_64((atomic_ullong *)obj, (c89atomic_uint64)arg)
+#define atomic_fetch_sub(obj, arg)	atomic_fetch_sub_explicit(obj, arg, c89atomic_memory_order_seq_cst)
 /* atomic subtraction */
-#define atomic_fetch_sub_explicit(obj, arg, order)	c89atomic_fetch_sub_explicit_64(obj, (c89atomic_uint64)arg, order)
+#define atomic_fetch_sub_explicit(obj, arg, order)	c89atomic_as(obj, c89atomic_sized_op(fetch_sub, obj, arg, order))
 
 /* atomic bitwise OR */
-#define atomic_fetch_or(obj, arg)	c89atomic_fetch_or_64((atomic_ullong *)obj, (atomic_ullong *)arg)
+#define atomic_fetch_or(obj, arg)	atomic_fetch_or_explicit(obj, arg, c89atomic_memory_order_seq_cst)
 /* atomic bitwise OR */
-#define atomic_fetch_or_explicit(obj, arg, order)	c89atomic_fetch_or_explicit_64((atomic_ullong *)obj, (c89atomic_uint64)arg, order)
+#define atomic_fetch_or_explicit(obj, arg, order)	c89atomic_as(obj, c89atomic_sized_op(fetch_or, obj, arg, order))
 
 /* atomic bitwise exclusive OR */
-#define atomic_fetch_xor(obj, arg)	                            \
-    c89atomic_fetch_xor_64((atomic_ullong *)obj, (c89atomic_uint64)arg)
+#define atomic_fetch_xor(obj, arg)	atomic_fetch_xor_explicit(obj, arg, c89atomic_memory_order_seq_cst)
 /* atomic bitwise exclusive OR */
-#define atomic_fetch_xor_explicit(obj, arg, order)	            \
-    c89atomic_fetch_xor_explicit_64((atomic_ullong *)obj, (c89atomic_uint64)arg, order)
+#define atomic_fetch_xor_explicit(obj, arg, order)	c89atomic_as(obj, c89atomic_sized_op(fetch_xor, obj, arg, order))
 
 /* atomic bitwise AND */
-#define atomic_fetch_and(obj, arg)	                            \
-    c89atomic_fetch_and_64((atomic_ullong *)obj, (c89atomic_uint64)arg)
+#define atomic_fetch_and(obj, arg)	atomic_fetch_and_explicit(obj, arg, c89atomic_memory_order_seq_cst)
 /* atomic bitwise AND */
-#define atomic_fetch_and_explicit(obj, arg, order)	            \
-    c89atomic_fetch_and_explicit_64((atomic_ullong *)obj, (c89atomic_uint64)arg, order)
+#define atomic_fetch_and_explicit(obj, arg, order)	c89atomic_as(obj, c89atomic_sized_op(fetch_and, obj, arg, order))
 
 /* swaps a value with the value of an atomic object */
-#define atomic_exchange(obj, desired)	                        \
-    c89atomic_exchange_64((atomic_ullong *)obj, (c89atomic_uint64)desired)
+#define atomic_exchange(obj, desired)	atomic_exchange_explicit(obj, desired, c89atomic_memory_order_seq_cst)
 /* swaps a value with the value of an atomic object */
-#define atomic_exchange_explicit(obj, desired, order)	        \
-    c89atomic_exchange_explicit_64((atomic_ullong *)obj, (c89atomic_uint64)desired, order)
+#define atomic_exchange_explicit(obj, desired, order)	c89atomic_as(obj, c89atomic_sized_op(exchange, obj, desired, order))
 
 /* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
-#define atomic_compare_exchange_weak(obj, expected, desired)    atomic_cas((atomic_ullong *)obj, expected, desired)
+#define atomic_compare_exchange_weak(obj, expected, desired)    \
+    atomic_compare_exchange_weak_explicit(obj, expected, desired, c89atomic_memory_order_seq_cst, c89atomic_memory_order_seq_cst)
 /* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
 #define atomic_compare_exchange_weak_explicit(obj, expected, desired, succ, fail)	\
-    c89atomic_compare_exchange_weak_explicit_64((atomic_ullong *)obj, (c89atomic_uint64)expected, (c89atomic_uint64)desired, succ, fail)
+    c89atomic_sized_cas(compare_exchange_weak, obj, expected, desired, succ, fail)
 
 /* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
-#define atomic_compare_exchange_strong(obj, expected, desired) atomic_cas((atomic_ullong *)obj, expected, desired)
+#define atomic_compare_exchange_strong(obj, expected, desired) \
+    atomic_compare_exchange_strong_explicit(obj, expected, desired, c89atomic_memory_order_seq_cst, c89atomic_memory_order_seq_cst)
 /* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
 #define atomic_compare_exchange_strong_explicit(obj, expected, desired, succ, fail)	\
-    c89atomic_compare_exchange_strong_explicit_64((atomic_ullong *)obj, (c89atomic_uint64 *)expected, (c89atomic_uint64)desired, succ, fail)
+    c89atomic_sized_cas(compare_exchange_strong, obj, expected, desired, succ, fail)
 #endif
 #endif
 
-- 
2.43.0


From 439eda7e8e3311c06ddca165ba17a25716cc387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:30 +0000
Subject: [PATCH 36/38] fix: atomic addition and subtraction of float and
 double add the values, not their representations

---
 include/catomic.h | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/catomic.h b/include/catomic.h
index 2f3f542..3ee6ca3 100644
--- a/include/catomic.h
+++ b/include/catomic.h
@@ -2401,8 +2401,13 @@ static C89ATOMIC_INLINE float c89atomic_fetch_add_explicit_f32(volatile float* d
 {
     c89atomic_if32 r;
     c89atomic_if32 x;
-    x.f = src;
-    r.i = c89atomic_fetch_add_explicit_32((volatile c89atomic_uint32*)dst, x.i, order);
+    r.i = c89atomic_load_explicit_32((volatile c89atomic_uint32*)dst, c89atomic_memory_order_relaxed);
+    for (;;) {
+        x.f = r.f + src;
+        if (c89atomic_compare_exchange_weak_explicit_32((volatile c89atomic_uint32*)dst, &r.i, x.i, order, c89atomic_memory_order_relaxed)) {
+            break;
+        }
+    }
     return r.f;
 }
 
@@ -2410,8 +2415,13 @@ static C89ATOMIC_INLINE double c89atomic_fetch_add_explicit_f64(volatile double*
 {
     c89atomic_if64 r;
     c89atomic_if64 x;
-    x.f = src;
-    r.i = c89atomic_fetch_add_explicit_64((volatile c89atomic_uint64*)dst, x.i, order);
+    r.i = c89atomic_load_explicit_64((volatile c89atomic_uint64*)dst, c89atomic_memory_order_relaxed);
+    for (;;) {
+        x.f = r.f + src;
+        if (c89atomic_compare_exchange_weak_explicit_64((volatile c89atomic_uint64*)dst, &r.i, x.i, order, c89atomic_memory_order_relaxed)) {
+            break;
+        }
+    }
     return r.f;
 }
 
@@ -2420,8 +2430,13 @@ static C89ATOMIC_INLINE float c89atomic_fetch_sub_explicit_f32(volatile float* d
 {
     c89atomic_if32 r;
     c89atomic_if32 x;
-    x.f = src;
-    r.i = c89atomic_fetch_sub_explicit_32((volatile c89atomic_uint32*)dst, x.i, order);
+    r.i = c89atomic_load_explicit_32((volatile c89atomic_uint32*)dst, c89atomic_memory_order_relaxed);
+    for (;;) {
+        x.f = r.f - src;
+        if (c89atomic_compare_exchange_weak_explicit_32((volatile c89atomic_uint32*)dst, &r.i, x.i, order, c89atomic_memory_order_relaxed)) {
+            break;
+        }
+    }
     return r.f;
 }
 
@@ -2429,8 +2444,13 @@ static C89ATOMIC_INLINE double c89atomic_fetch_sub_explicit_f64(volatile double*
 {
     c89atomic_if64 r;
     c89atomic_if64 x;
-    x.f = src;
-    r.i = c89atomic_fetch_sub_explicit_64((volatile c89atomic_uint64*)dst, x.i, order);
+    r.i = c89atomic_load_explicit_64((volatile c89atomic_uint64*)dst, c89atomic_memory_order_relaxed);
+    for (;;) {
+        x.f = r.f - src;
+        if (c89atomic_compare_exchange_weak_explicit_64((volatile c89atomic_uint64*)dst, &r.i, x.i, order, c89atomic_memory_order_relaxed)) {
+            break;
+        }
+    }
     return r.f;
 }
 
-- 
2.43.0


From a844c1ab357cc8d61a3f5e5d69f6cdf61b1092a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:13 +0000
Subject: [PATCH 37/38] fix: an arena keeps its size when memory for a chunk
 cannot be found

---
 src/arena.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arena.c b/src/arena.c
index 4bdb02c..2c873e1 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -67,6 +67,8 @@ void *arena_alloc(arena_t arena, long nbytes) {
                 ptr = RAII_MALLOC(arena->total);
 
             if (ptr == NULL) {
+                /* The arena stays as it was, the next chunk is no larger for it. */
+                arena->total -= m;
                 errno = ENOMEM;
                 raii_panic("Arena allocation failed!");
             }
-- 
2.43.0


From ea582d1c7872d43dd15c4f21a6f0b1077bcbabc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:13 +0000
Subject: [PATCH 38/38] fix: an arena refuses requests of sizes that overflow

---
 src/arena.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/arena.c b/src/arena.c
index 2c873e1..eded15c 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -49,6 +49,12 @@ void *arena_alloc(arena_t arena, long nbytes) {
     if (is_empty(arena))
         raii_panic("Bad block, `NULL` detected!");
 
+    /* No memory for a size that is not even addressable, or was converted from such a one. */
+    if (UNLIKELY((size_t)nbytes > PTRDIFF_MAX / 2)) {
+        errno = ENOMEM;
+        raii_panic("Arena allocation failed!");
+    }
+
     RAII_ASSERT(nbytes > 0);
     nbytes = align_up(nbytes, sizeof(u16));
     while (nbytes > arena->limit - arena->avail) {
@@ -102,6 +108,11 @@ void *arena_alloc(arena_t arena, long nbytes) {
 
 void *arena_calloc(arena_t arena, long count, long nbytes) {
     RAII_ASSERT(count > 0);
+    if (UNLIKELY(count && (size_t)nbytes > PTRDIFF_MAX / 2 / (size_t)count)) {
+        errno = ENOMEM;
+        raii_panic("Arena allocation failed!");
+    }
+
     void *ptr = arena_alloc(arena, count * nbytes);
     memset(ptr, 0, count * nbytes);
     return ptr;
-- 
2.43.0

