From f76a866a0b4c1b84a39b65d7035b002ada84d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 01/23] fix: divide i64 by f64 in floating point and bar
 timestamps in 64 bits

/ of an I64 and an F64 truncated the divisor to an integer, and xbar of a
timestamp by a time computed in 32 bits.
---
 core/math.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/math.c b/core/math.c
index 09cbee2..92a469a 100644
--- a/core/math.c
+++ b/core/math.c
@@ -1382,13 +1382,13 @@ obj_p ray_fdiv_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_I64, -TYPE_I64):
             return f64(FDIVI64(x->i64, y->i64));
         case MTYPE2(-TYPE_I64, -TYPE_F64):
-            return f64(FDIVI64(x->i64, y->f64));
+            return f64(FDIVF64(i64_to_f64(x->i64), y->f64));
         case MTYPE2(-TYPE_I64, TYPE_I32):
             return __BINOP_A_V(x, y, i64, i32, f64, f64, FDIVI64, len, offset, out);
         case MTYPE2(-TYPE_I64, TYPE_I64):
             return __BINOP_A_V(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
         case MTYPE2(-TYPE_I64, TYPE_F64):
-            return __BINOP_A_V(x, y, i64, f64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(-TYPE_F64, -TYPE_I32):
             return f64(FDIVF64(x->f64, i32_to_f64(y->i32)));
@@ -1421,13 +1421,13 @@ obj_p ray_fdiv_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
-            return __BINOP_V_A(x, y, i64, f64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_I32):
             return __BINOP_V_V(x, y, i64, i32, f64, f64, FDIVI64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_I64):
             return __BINOP_V_V(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_F64):
-            return __BINOP_V_V(x, y, i64, f64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(TYPE_F64, -TYPE_I32):
             return __BINOP_V_A(x, y, f64, i32, f64, f64, FDIVF64, len, offset, out);
@@ -1756,7 +1756,7 @@ obj_p ray_xbar_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I64):
             return timestamp(XBARI64(x->i64, y->i64));
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_TIME):
-            return timestamp(XBARI32(x->i64, timestamp_to_i64(time_to_timestamp(y->i32))));
+            return timestamp(XBARI64(x->i64, timestamp_to_i64(time_to_timestamp(y->i32))));
         case MTYPE2(-TYPE_TIMESTAMP, TYPE_I32):
             return __BINOP_A_V(x, y, i64, i32, timestamp, timestamp, XBARI64, len, offset, out);
         case MTYPE2(-TYPE_TIMESTAMP, TYPE_I64):
-- 
2.43.0


From 27bab1e47ba7fb0dbe2c532da746e9aca0403c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 02/23] fix: xbar rounds towards minus infinity for negative
 values and bars

XBARI32/XBARI64 used x+1-y, which is wrong for negative bars and overflows near
the bounds; XBARF64 went through an i64 cast and trapped null or zero bars.
---
 core/ops.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ops.h b/core/ops.h
index 73a3259..484ab36 100644
--- a/core/ops.h
+++ b/core/ops.h
@@ -191,10 +191,10 @@ extern struct obj_t __ERR_OBJ;
 #define FLOORF64(x) ((ISNANF64((x))) ? NULL_F64 : (((x) < 0.0 && (i64_t)(x) != (x)) ? (i64_t)(x) - 1.0 : (i64_t)(x)))
 #define CEILF64(x) ((ISNANF64((x))) ? NULL_F64 : (-FLOORF64(-(x))))
 #define XBARI32(x, y) \
-    (((y) == 0 || (x) == NULL_I32 || (y) == NULL_I32) ? NULL_I32 : (((x < 0) ? (x + 1 - y) : (x)) / (y) * (y)))
+    (((y) == 0 || (x) == NULL_I32 || (y) == NULL_I32) ? NULL_I32 : (EUCL_DIV((x), (y)) * (y)))
 #define XBARI64(x, y) \
-    (((y) == 0 || (x) == NULL_I64 || (y) == NULL_I64) ? NULL_I64 : (((x < 0) ? (x + 1 - y) : (x)) / (y) * (y)))
-#define XBARF64(x, y) (FLOORF64((x) / (y)) * (y))
+    (((y) == 0 || (x) == NULL_I64 || (y) == NULL_I64) ? NULL_I64 : (EUCL_DIV((x), (y)) * (y)))
+#define XBARF64(x, y) ((y) == 0.0 || ISNANF64(x) || ISNANF64(y) ? NULL_F64 : (FEUCL_DIV((x), (y)) * (y)))
 
 // Function types
 typedef u64_t (*hash_f)(i64_t, raw_p);
-- 
2.43.0


From 815159e33e28f0dea41075bdde2acaf1b59b131b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 03/23] fix: compare a date with a timestamp as integers

Converting the nanoseconds to double made instants that differ by less than a
microsecond compare equal, unlike the vector forms.
---
 core/cmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 029e0e2..77d3de9 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -241,7 +241,7 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                 return __CMP_V_V(x, y, f64, f64, f64, op##F64, len, offset, res);              \
                                                                                                \
             case MTYPE2(-TYPE_DATE, -TYPE_TIMESTAMP):                                          \
-                return b8(op##F64(date_to_timestamp(x->i32), y->i64));                         \
+                return b8(op##I64(date_to_timestamp(x->i32), y->i64));                         \
             case MTYPE2(-TYPE_DATE, TYPE_TIMESTAMP):                                           \
                 return __CMP_A_V(x, y, date, timestamp, timestamp, op##I64, len, offset, res); \
             case MTYPE2(TYPE_DATE, -TYPE_TIMESTAMP):                                           \
@@ -249,7 +249,7 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
             case MTYPE2(TYPE_DATE, TYPE_TIMESTAMP):                                            \
                 return __CMP_V_V(x, y, date, timestamp, timestamp, op##I64, len, offset, res); \
             case MTYPE2(-TYPE_TIMESTAMP, -TYPE_DATE):                                          \
-                return b8(op##F64(x->i64, date_to_timestamp(y->i32)));                         \
+                return b8(op##I64(x->i64, date_to_timestamp(y->i32)));                         \
             case MTYPE2(-TYPE_TIMESTAMP, TYPE_DATE):                                           \
                 return __CMP_A_V(x, y, timestamp, date, timestamp, op##I64, len, offset, res); \
             case MTYPE2(TYPE_TIMESTAMP, -TYPE_DATE):                                           \
-- 
2.43.0


From 4974bfc1b54745c5151623af5d8e5c1f2c812bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 04/23] fix: compare the right elements of guid vectors when
 the work is split

---
 core/cmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 77d3de9..7d4da15 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -311,17 +311,17 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
             case MTYPE2(-TYPE_GUID, TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[i]);                           \
+                    out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[offset + i]);                  \
                 return res;                                                                    \
             case MTYPE2(TYPE_GUID, -TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[0]);                           \
+                    out[i] = op##GUID(AS_GUID(x)[offset + i], AS_GUID(y)[0]);                  \
                 return res;                                                                    \
             case MTYPE2(TYPE_GUID, TYPE_GUID):                                                 \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[i]);                           \
+                    out[i] = op##GUID(AS_GUID(x)[offset + i], AS_GUID(y)[offset + i]);         \
                 return res;                                                                    \
             case MTYPE2(TYPE_ERR, TYPE_ERR):                                                   \
                 return b8(cmp_obj(x, y) == 0);                                                 \
-- 
2.43.0


From e4b65f52c5a4369da387fe3dcd58fe6b50cabe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:03 +0000
Subject: [PATCH 05/23] fix: comparisons of enumerations and of guid vectors

Enumerations always compared for equality, the symbol-vector forms read the
wrong operand, the length was that of the internal pair, and results shared
between parallel tasks were released once per task.
---
 core/cmp.c | 74 +++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 18 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 7d4da15..d11e9a8 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -275,13 +275,11 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                 out = AS_B8(res) + offset;                                                     \
                                                                                                \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = xi[ei[i]] == si;                                                  \
+                    out[i] = op##I64(xi[ei[i]], si);                                           \
                                                                                                \
                 drop_obj(sym);                                                                 \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(-TYPE_SYMBOL, TYPE_ENUM):                                              \
-                return ray_##op##_partial(y, x, len, offset, res);                             \
-            case MTYPE2(TYPE_ENUM, TYPE_SYMBOL):                                               \
                 k = ray_key(y);                                                                \
                 sym = ray_get(k);                                                              \
                 drop_obj(k);                                                                   \
@@ -290,21 +288,61 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                                                                                                \
                 if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
                     drop_obj(sym);                                                             \
-                    return err_type(0, 0, 0, 0);                                       \
+                    return err_type(0, 0, 0, 0);                                               \
                 }                                                                              \
                                                                                                \
-                xi = AS_I64(x);                                                                \
+                xi = AS_I64(sym);                                                              \
+                ei = AS_I64(e) + offset;                                                       \
+                si = x->i64;                                                                   \
+                out = AS_B8(res) + offset;                                                     \
+                                                                                               \
+                for (i = 0; i < len; i++)                                                      \
+                    out[i] = op##I64(si, xi[ei[i]]);                                           \
+                                                                                               \
+                drop_obj(sym);                                                                 \
+                return NULL_OBJ;                                                               \
+            case MTYPE2(TYPE_ENUM, TYPE_SYMBOL):                                               \
+                k = ray_key(x);                                                                \
+                sym = ray_get(k);                                                              \
+                drop_obj(k);                                                                   \
+                                                                                               \
+                e = ENUM_VAL(x);                                                               \
+                                                                                               \
+                if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
+                    drop_obj(sym);                                                             \
+                    return err_type(0, 0, 0, 0);                                               \
+                }                                                                              \
+                                                                                               \
+                xi = AS_I64(sym);                                                              \
                 ei = AS_I64(e) + offset;                                                       \
-                si = sym->i64;                                                                 \
                 out = AS_B8(res) + offset;                                                     \
                                                                                                \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = xi[i] == ei[si];                                                  \
+                    out[i] = op##I64(xi[ei[i]], AS_I64(y)[offset + i]);                        \
                                                                                                \
                 drop_obj(sym);                                                                 \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_SYMBOL, TYPE_ENUM):                                               \
-                return ray_##op##_partial(y, x, len, offset, res);                             \
+                k = ray_key(y);                                                                \
+                sym = ray_get(k);                                                              \
+                drop_obj(k);                                                                   \
+                                                                                               \
+                e = ENUM_VAL(y);                                                               \
+                                                                                               \
+                if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
+                    drop_obj(sym);                                                             \
+                    return err_type(0, 0, 0, 0);                                               \
+                }                                                                              \
+                                                                                               \
+                xi = AS_I64(sym);                                                              \
+                ei = AS_I64(e) + offset;                                                       \
+                out = AS_B8(res) + offset;                                                     \
+                                                                                               \
+                for (i = 0; i < len; i++)                                                      \
+                    out[i] = op##I64(AS_I64(x)[offset + i], xi[ei[i]]);                        \
+                                                                                               \
+                drop_obj(sym);                                                                 \
+                return NULL_OBJ;                                                               \
                                                                                                \
             case MTYPE2(-TYPE_GUID, -TYPE_GUID):                                               \
                 return b8(op##GUID(AS_GUID(x)[0], AS_GUID(y)[0]));                             \
@@ -312,17 +350,17 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
                     out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[offset + i]);                  \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, -TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
                     out[i] = op##GUID(AS_GUID(x)[offset + i], AS_GUID(y)[0]);                  \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, TYPE_GUID):                                                 \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
                     out[i] = op##GUID(AS_GUID(x)[offset + i], AS_GUID(y)[offset + i]);         \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_ERR, TYPE_ERR):                                                   \
                 return b8(cmp_obj(x, y) == 0);                                                 \
             case MTYPE2(TYPE_NULL, TYPE_NULL):                                                 \
@@ -359,7 +397,7 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     } else if (y->type == TYPE_MAPCOMMON) {
         l = AS_LIST(y)[0]->len;
         res = B8(l);
-        v = cmp_fn(x, AS_LIST(y)[0], l, 0, NULL_OBJ);
+        v = cmp_fn(x, AS_LIST(y)[0], l, 0, res);
         if (IS_ERR(v)) {
             drop_obj(res);
             return v;
@@ -631,14 +669,14 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     }
 
     if (IS_VECTOR(x) && IS_VECTOR(y)) {
-        if (x->len != y->len)
+        if (ops_count(x) != ops_count(y))
             return err_length(0, 0, 0, 0, 0, 0);
 
-        l = x->len;
+        l = ops_count(x);
     } else if (IS_VECTOR(x))
-        l = x->len;
+        l = ops_count(x);
     else if (IS_VECTOR(y))
-        l = y->len;
+        l = ops_count(y);
     else {
         return cmp_fn(x, y, 1, 0, NULL_OBJ);
     }
-- 
2.43.0


From 89c43440a0dd7b11bc99c9f31c3fcafdea8ca75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:02 +0000
Subject: [PATCH 06/23] fix: wildcard match backtracks when the pattern ends
 before the text

---
 core/string.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/string.c b/core/string.c
index ad5895b..ed01957 100644
--- a/core/string.c
+++ b/core/string.c
@@ -497,8 +497,14 @@ b8_t str_match(str_p str, i64_t str_len, str_p pat, i64_t pat_len) {
     i64_t last_star_str_pos = 0;         // Track corresponding string position
 
     while (str_pos < str_len) {
-        if (pat_pos >= pat_len)
-            return B8_FALSE;
+        if (pat_pos >= pat_len) {
+            // Text left over - backtrack to last '*' if possible
+            if (last_star_pat_pos == NULL_I64)
+                return B8_FALSE;
+            pat_pos = last_star_pat_pos + 1;
+            str_pos = ++last_star_str_pos;
+            continue;
+        }
 
         switch (pat[pat_pos]) {
             case '*':
-- 
2.43.0


From 454cd5eb7dc0542296463fd32761f19b5aad6a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:02 +0000
Subject: [PATCH 07/23] fix: and/or no longer modify shared arguments or read
 past a scalar mask

---
 core/logic.c | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/core/logic.c b/core/logic.c
index 1bc3316..d72dc64 100644
--- a/core/logic.c
+++ b/core/logic.c
@@ -40,7 +40,7 @@ static obj_p and_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
     c = (i64_t)l;
 
     mask = (b8_t *)x + offset;
-    next_mask = (b8_t *)y + offset;
+    next_mask = (c == 1) ? (b8_t *)y + offset : (b8_t *)y;
 
     // both vectors are the same length
     if (c == 1) {
@@ -67,7 +67,7 @@ static obj_p or_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
     c = (i64_t)l;
 
     mask = (b8_t *)x + offset;
-    next_mask = (b8_t *)y + offset;
+    next_mask = (c == 1) ? (b8_t *)y + offset : (b8_t *)y;
 
     // both vectors are the same length
     if (c == 1) {
@@ -85,6 +85,28 @@ static obj_p or_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
     return NULL_OBJ;
 }
 
+// Results are built in place, so take an unshared copy of a value somebody else still refers to
+static obj_p own_obj(obj_p x) {
+    i64_t i, l;
+    obj_p res;
+
+    if (rc_obj(x) == 1)
+        return x;
+
+    if (x->type == TYPE_PARTEDB8) {
+        l = x->len;
+        res = LIST(l);
+        res->type = TYPE_PARTEDB8;
+        for (i = 0; i < l; i++)
+            AS_LIST(res)[i] = clone_obj(AS_LIST(x)[i]);
+    } else
+        res = copy_obj(x);
+
+    drop_obj(x);
+
+    return res;
+}
+
 // Actual logic operation
 static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
     i64_t i, j, c, m, l, chunk;
@@ -111,6 +133,7 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
 
         switch (MTYPE2(res->type, next->type)) {
             case MTYPE2(-TYPE_B8, -TYPE_B8):
+                res = own_obj(res);
                 op_func(&res->b8, &next->b8, (raw_p)1, (raw_p)0, (raw_p)1);
                 drop_obj(next);
                 break;
@@ -124,6 +147,8 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
                     return err_type(0, 0, 0, 0);
                 }
 
+                res = own_obj(res);
+
                 // Perform element-wise operation using the provided function
                 m = pool_split_by(pool, l, 0);
                 if (m == 1) {
@@ -154,6 +179,7 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
 
             case MTYPE2(TYPE_B8, -TYPE_B8):
             va:
+                res = own_obj(res);
                 l = ops_count(res);
                 m = pool_split_by(pool, l, 0);
 
@@ -199,6 +225,9 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
                     return err_type(0, 0, 0, 0);
                 }
 
+                res = own_obj(res);
+                next = own_obj(next);
+
                 for (j = 0; j < l; j++) {
                     obj_p a = AS_LIST(res)[j];
                     obj_p b = AS_LIST(next)[j];
@@ -221,6 +250,7 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
 
                     // Both b8(TRUE): and=TRUE, or=TRUE
                     if (a->type == -TYPE_B8 && b->type == -TYPE_B8) {
+                        AS_LIST(res)[j] = a = own_obj(a);
                         op_func(&a->b8, &b->b8, (raw_p)1, (raw_p)0, (raw_p)1);
                         if (!a->b8) {
                             drop_obj(a);
@@ -231,12 +261,14 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
 
                     // b8(TRUE) with B8 vector: result is vector
                     if (a->type == -TYPE_B8) {
+                        b = own_obj(b);
                         op_func(AS_B8(b), &a->b8, (raw_p)b->len, (raw_p)0, (raw_p)0);
                         drop_obj(a);
                         AS_LIST(res)[j] = b;
                         AS_LIST(next)[j] = NULL_OBJ;
                         continue;
                     }
+                    AS_LIST(res)[j] = a = own_obj(a);
                     if (b->type == -TYPE_B8) {
                         op_func(AS_B8(a), &b->b8, (raw_p)a->len, (raw_p)0, (raw_p)0);
                         continue;
-- 
2.43.0


From 4dfe577e2ccd5b13698038ee4546af2052ee0cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:01 +0000
Subject: [PATCH 08/23] fix: numbers read from text are exact, or null when
 malformed or out of range

---
 core/io.c       |  15 ++--
 core/parse.c    |  12 +--
 core/rayforce.c |  16 ++--
 core/string.c   | 212 +++++++++++++++---------------------------------
 4 files changed, 90 insertions(+), 165 deletions(-)

diff --git a/core/io.c b/core/io.c
index 5f87b11..0c03310 100644
--- a/core/io.c
+++ b/core/io.c
@@ -382,7 +382,8 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_U8(out)[row] = 0;
                 break;
             }
-            i64_from_str(start, end - start, &num_i64);
+            if (i64_from_str(start, end - start, &num_i64) == 0 || num_i64 < 0 || num_i64 > 255)
+                num_i64 = 0;
             AS_U8(out)[row] = (u8_t)num_i64;
             break;
         case TYPE_I16:
@@ -390,7 +391,8 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_I16(out)[row] = NULL_I16;
                 break;
             }
-            i64_from_str(start, end - start, &num_i64);
+            if (i64_from_str(start, end - start, &num_i64) == 0 || num_i64 < -32767 || num_i64 > 32767)
+                num_i64 = NULL_I16;
             AS_I16(out)[row] = (i16_t)num_i64;
             break;
         case TYPE_I32:
@@ -398,7 +400,8 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_I32(out)[row] = NULL_I32;
                 break;
             }
-            i32_from_str(start, end - start, &AS_I32(out)[row]);
+            if (i32_from_str(start, end - start, &AS_I32(out)[row]) == 0)
+                AS_I32(out)[row] = NULL_I32;
             break;
         case TYPE_DATE:
             if (start == NULL || end == NULL) {
@@ -419,7 +422,8 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_I64(out)[row] = NULL_I64;
                 break;
             }
-            i64_from_str(start, end - start, &num_i64);
+            if (i64_from_str(start, end - start, &num_i64) == 0)
+                num_i64 = NULL_I64;
             AS_I64(out)[row] = num_i64;
             break;
         case TYPE_TIMESTAMP:
@@ -434,7 +438,8 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_F64(out)[row] = NULL_F64;
                 break;
             }
-            f64_from_str(start, end - start, &AS_F64(out)[row]);
+            if (f64_from_str(start, end - start, &AS_F64(out)[row]) == 0)
+                AS_F64(out)[row] = NULL_F64;
             break;
         case TYPE_SYMBOL:
             if (start == NULL || end == NULL) {
diff --git a/core/parse.c b/core/parse.c
index 4174519..05675be 100644
--- a/core/parse.c
+++ b/core/parse.c
@@ -449,7 +449,7 @@ obj_p specify_number(parser_t *parser, const char *current, span_t span, obj_p n
 
     switch (*current++) {
         case 'x':
-            if (num->i64 > 255) {
+            if (num->i64 < 0 || num->i64 > 255) {
                 drop_obj(num);
                 span.end_column += (current - parser->current);
                 nfo_insert(parser->nfo, parser->count, span);
@@ -469,6 +469,8 @@ obj_p specify_number(parser_t *parser, const char *current, span_t span, obj_p n
             num->type = -TYPE_I16;
             break;
         case 'i':
+        case 'd':
+        case 't':
             if (num->i64 < -2147483647 || num->i64 > 2147483647) {
                 drop_obj(num);
                 span.end_column += (current - parser->current);
@@ -476,13 +478,7 @@ obj_p specify_number(parser_t *parser, const char *current, span_t span, obj_p n
                 return parse_error(parser, parser->count++, EC_DOMAIN);
             }
             num->i32 = (i32_t)num->i64;
-            num->type = -TYPE_I32;
-            break;
-        case 'd':
-            num->type = -TYPE_DATE;
-            break;
-        case 't':
-            num->type = -TYPE_TIME;
+            num->type = (*(current - 1) == 'd') ? -TYPE_DATE : (*(current - 1) == 't') ? -TYPE_TIME : -TYPE_I32;
             break;
         case 'f':
             res = cast_obj(-TYPE_F64, num);
diff --git a/core/rayforce.c b/core/rayforce.c
index bba4d0f..2293d4e 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2529,17 +2529,22 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         // String to atom conversions
         case MTYPE2(-TYPE_B8, TYPE_C8):
             return b8(obj->len > 0);
+        // text that is not a number, or one that does not fit, reads as null
         case MTYPE2(-TYPE_U8, TYPE_C8):
-            i32_from_str(AS_C8(obj), obj->len, &num_i32);
+            if (i32_from_str(AS_C8(obj), obj->len, &num_i32) == 0 || num_i32 < 0 || num_i32 > 255)
+                return u8(0);
             return u8((u8_t)num_i32);
         case MTYPE2(-TYPE_I16, TYPE_C8):
-            i32_from_str(AS_C8(obj), obj->len, &num_i32);
+            if (i32_from_str(AS_C8(obj), obj->len, &num_i32) == 0 || num_i32 < -32767 || num_i32 > 32767)
+                return i16(NULL_I16);
             return i16((i16_t)num_i32);
         case MTYPE2(-TYPE_I32, TYPE_C8):
-            i32_from_str(AS_C8(obj), obj->len, &num_i32);
+            if (i32_from_str(AS_C8(obj), obj->len, &num_i32) == 0)
+                return i32(NULL_I32);
             return i32(num_i32);
         case MTYPE2(-TYPE_I64, TYPE_C8):
-            i64_from_str(AS_C8(obj), obj->len, &num_i64);
+            if (i64_from_str(AS_C8(obj), obj->len, &num_i64) == 0)
+                return i64(NULL_I64);
             return i64(num_i64);
         case MTYPE2(-TYPE_DATE, TYPE_C8):
             return adate(date_into_i32(date_from_str(AS_C8(obj), obj->len)));
@@ -2548,7 +2553,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_TIMESTAMP, TYPE_C8):
             return timestamp(timestamp_into_i64(timestamp_from_str(AS_C8(obj), obj->len)));
         case MTYPE2(-TYPE_F64, TYPE_C8):
-            f64_from_str(AS_C8(obj), obj->len, &num_f64);
+            if (f64_from_str(AS_C8(obj), obj->len, &num_f64) == 0)
+                return f64(NULL_F64);
             return f64(num_f64);
         case MTYPE2(TYPE_TABLE, TYPE_DICT):
             return table(clone_obj(AS_LIST(obj)[0]), clone_obj(AS_LIST(obj)[1]));
diff --git a/core/string.c b/core/string.c
index ed01957..9d09645 100644
--- a/core/string.c
+++ b/core/string.c
@@ -25,6 +25,7 @@
 #include "ops.h"
 #include "error.h"
 #include "format.h"
+#include "heap.h"
 
 #define IS_DIGIT(c) ((c) >= '0' && (c) <= '9')
 #define IS_SPACE(c) ((c) == ' ' || (c) == '\t' || (c) == '\n' || (c) == '\r')
@@ -56,23 +57,6 @@ static inline u64_t parse_8_digits(const u8_t *s) {
            (u64_t)(s[7] - '0');
 }
 
-// Check if 4 bytes are ASCII digits
-static inline b8_t is_4_digits(const u8_t *s) {
-    for (int i = 0; i < 4; i++) {
-        if (s[i] < '0' || s[i] > '9')
-            return 0;
-    }
-    return 1;
-}
-
-// Parse exactly 4 ASCII digits
-static inline u32_t parse_4_digits(const u8_t *s) {
-    return (u32_t)(s[0] - '0') * 1000u +
-           (u32_t)(s[1] - '0') * 100u +
-           (u32_t)(s[2] - '0') * 10u +
-           (u32_t)(s[3] - '0');
-}
-
 // Creates new obj_p string from a C string.
 obj_p string_from_str(lit_p str, i64_t len) {
     obj_p s;
@@ -146,73 +130,22 @@ i64_t u8_from_str(lit_p str, i64_t len, u8_t *dst) {
 }
 
 i64_t i32_from_str(lit_p str, i64_t len, i32_t *dst) {
-    i64_t i, n;
-    i32_t result, sign;
+    i64_t n, val;
 
-    i = 0;
-    result = 0;
-    sign = 1;
+    n = i64_from_str(str, len, &val);
 
-    if (len == 0)
+    // Not a number, or it does not fit
+    if (n == 0 || val > 2147483647ll || val < -2147483647ll)
         return 0;
 
-    // Skip leading whitespace
-    while (i < len && IS_SPACE(str[i]))
-        i++;
-
-    // Handle optional sign
-    if (i < len && str[i] == '-') {
-        sign = -1;
-        i++;
-    }
-
-    n = i;
-
-    // Fast path: try to parse 8 digits at once (for 8+ digit numbers)
-    if (len - i >= 8 && is_8_digits((const u8_t *)(str + i))) {
-        result = (i32_t)parse_8_digits((const u8_t *)(str + i));
-        i += 8;
-        // Parse any remaining digits
-        while (i < len && IS_DIGIT(str[i])) {
-            result = result * 10 + (str[i] - '0');
-            i++;
-        }
-        *dst = result * sign;
-        return i;
-    }
-
-    // Medium path: try 4 digits at once
-    if (len - i >= 4 && is_4_digits((const u8_t *)(str + i))) {
-        result = (i32_t)parse_4_digits((const u8_t *)(str + i));
-        i += 4;
-        // Parse remaining digits
-        while (i < len && IS_DIGIT(str[i])) {
-            result = result * 10 + (str[i] - '0');
-            i++;
-        }
-        if (i > n) {
-            *dst = result * sign;
-            return i;
-        }
-    }
+    *dst = (i32_t)val;
 
-    // Slow path: digit by digit
-    while (i < len && IS_DIGIT(str[i])) {
-        result = result * 10 + (str[i] - '0');
-        i++;
-    }
-
-    if (i == n)
-        return 0;
-
-    *dst = result * sign;
-
-    return i;
+    return n;
 }
 
 i64_t i64_from_str(lit_p src, i64_t len, i64_t *dst) {
     i64_t i, n, sign;
-    u64_t result, old;
+    u64_t result, digit;
 
     result = 0;
     sign = 1;
@@ -254,10 +187,10 @@ i64_t i64_from_str(lit_p src, i64_t len, i64_t *dst) {
 
     // Parse remaining digits with overflow check
     while (n < len && IS_DIGIT(src[n])) {
-        old = result;
-        result = result * 10 + (src[n] - '0');
-        if (result < old)  // Overflow
+        digit = (u64_t)(src[n] - '0');
+        if (result > 922337203685477580ull || (result == 922337203685477580ull && digit > 7))  // Overflow
             return 0;
+        result = result * 10 + digit;
         n++;
     }
 
@@ -270,11 +203,17 @@ i64_t i64_from_str(lit_p src, i64_t len, i64_t *dst) {
     return i + n;
 }
 
+// Powers of ten exactly representable as f64
+static const f64_t EXACT_POW10[] = {1e0,  1e1,  1e2,  1e3,  1e4,  1e5,  1e6,  1e7,  1e8,  1e9,  1e10, 1e11,
+                                    1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
+
 i64_t f64_from_str(lit_p str, i64_t len, f64_t *dst) {
-    i32_t sign, frac_digits, exp_sign, exp;
-    i64_t i, start, exp_start;
-    f64_t int_part, frac_part, multiplier, divisor, val;
-    u64_t int_val;
+    b8_t exact;
+    i32_t exp, exp_sign;
+    i64_t i, start, mark, digits, scale;
+    u64_t mant;
+    f64_t val, sign;
+    str_p tmp;
 
     i = 0;
 
@@ -292,87 +231,66 @@ i64_t f64_from_str(lit_p str, i64_t len, f64_t *dst) {
         i++;
     }
 
-    // Integer part - use fast parsing for up to 15 digits (fits in f64 without precision loss)
-    int_val = 0;
     start = i;
-    
-    // Fast path: parse 8 digits at a time (only for numbers that fit)
-    if (i + 8 <= len && is_8_digits((const u8_t *)(str + i))) {
-        int_val = parse_8_digits((const u8_t *)(str + i));
-        i += 8;
-        // Parse up to 7 more digits (total 15 for f64 precision)
-        while (i < len && IS_DIGIT(str[i]) && (i - start) < 15) {
-            int_val = int_val * 10 + (str[i++] - '0');
-        }
-        // If more digits remain, use f64 accumulation to handle overflow gracefully
-        int_part = (f64_t)int_val;
-        while (i < len && IS_DIGIT(str[i])) {
-            int_part = int_part * 10 + (str[i++] - '0');
-        }
-    } else {
-        // Scalar path - use f64 from start to handle any size
-        int_part = 0;
-        while (i < len && IS_DIGIT(str[i])) {
-            int_part = int_part * 10 + (str[i++] - '0');
-        }
+    mant = 0;
+    digits = 0;
+    scale = 0;
+    exact = B8_TRUE;
+
+    // Integer part
+    for (; i < len && IS_DIGIT(str[i]); i++, digits++) {
+        if (mant < 100000000000000ull)
+            mant = mant * 10 + (u64_t)(str[i] - '0');
+        else
+            exact = B8_FALSE;
     }
 
     // Fractional part
-    frac_part = 0;
-    frac_digits = 0;
     if (i < len && str[i] == '.') {
-        i++;
-        while (i < len && IS_DIGIT(str[i])) {
-            frac_part = frac_part * 10 + (str[i++] - '0');
-            frac_digits++;
+        for (i++; i < len && IS_DIGIT(str[i]); i++, digits++) {
+            if (mant < 100000000000000ull && scale < 22) {
+                mant = mant * 10 + (u64_t)(str[i] - '0');
+                scale++;
+            } else
+                exact = B8_FALSE;
         }
     }
 
-    // Combine integer and fractional
-    val = int_part;
-    if (frac_digits > 0) {
-        divisor = 1.0;
-        for (int j = 0; j < frac_digits; j++) {
-            divisor *= 10.0;
-        }
-        val += frac_part / divisor;
-    }
+    if (digits == 0)
+        return 0;  // No digits parsed
 
     // Exponent
+    exp = 0;
     if (i < len && (str[i] == 'e' || str[i] == 'E')) {
-        i++;
+        mark = i++;
         exp_sign = 1;
-        if (i < len && str[i] == '-') {
-            exp_sign = -1;
-            i++;
-        } else if (i < len && str[i] == '+') {
-            i++;
-        }
+        if (i < len && (str[i] == '-' || str[i] == '+'))
+            exp_sign = (str[i++] == '-') ? -1 : 1;
+
+        if (i < len && IS_DIGIT(str[i])) {
+            for (; i < len && IS_DIGIT(str[i]); i++)
+                if (exp < 100000)
+                    exp = exp * 10 + (str[i] - '0');
+            exp *= exp_sign;
+        } else
+            i = mark;  // Invalid exponent; not a part of the number
+    }
 
-        exp = 0;
-        exp_start = i;
+    exp -= (i32_t)scale;
 
-        while (i < len && IS_DIGIT(str[i])) {
-            exp = exp * 10 + (str[i++] - '0');
-        }
-        if (i > exp_start) {
-            multiplier = 1.0;
-            for (int j = 0; j < exp; j++) {
-                if (exp_sign > 0)
-                    multiplier *= 10.0;
-                else
-                    multiplier /= 10.0;
-            }
-            val *= multiplier;
-        } else {
-            // Invalid exponent; rewind if needed
-            i = exp_start - 1;
-        }
+    if (exact && exp >= -22 && exp <= 22) {
+        // Both operands are exact, so the result is correctly rounded
+        val = (exp < 0) ? (f64_t)mant / EXACT_POW10[-exp] : (f64_t)mant * EXACT_POW10[exp];
+    } else {
+        tmp = (str_p)heap_alloc(i - start + 1);
+        if (tmp == NULL)
+            return 0;
+        memcpy(tmp, str + start, i - start);
+        tmp[i - start] = '\0';
+        val = strtod(tmp, NULL);
+        heap_free(tmp);
     }
 
-    if (i == start)
-        return 0;  // No digits parsed
-
     *dst = sign * val;
 
     return i;
-- 
2.43.0


From 34859b6b172bfc69308ab15254248f7b19e61dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 09/23] fix: temporal conversions keep nulls, long times and
 unrepresentable timestamps right

---
 core/date.c      |  3 +++
 core/time.c      |  4 ++--
 core/time.h      |  2 +-
 core/timestamp.c | 15 ++++++++++++---
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/core/date.c b/core/date.c
index 5371770..5d20ab0 100644
--- a/core/date.c
+++ b/core/date.c
@@ -125,6 +125,9 @@ datestruct_t date_from_str(str_p src, i64_t len) {
 i32_t date_into_i32(datestruct_t dt) {
     i64_t leap, mdays, yy, mm, dd, ydays;
 
+    if (dt.null)
+        return NULL_I32;
+
     yy = (dt.year > 0) ? dt.year - 1 : 0;
     ydays = years_by_days(yy);
     leap = leap_year(dt.year);
diff --git a/core/time.c b/core/time.c
index 20914b9..8067826 100644
--- a/core/time.c
+++ b/core/time.c
@@ -30,8 +30,8 @@ RAY_ASSERT(sizeof(struct timestruct_t) == 16, "timestruct_t must be 16 bytes");
 
 timestruct_t time_from_i32(i32_t offset) {
     b8_t sign;
-    u8_t hh, mm, ss;
-    u16_t ms;
+    u8_t mm, ss;
+    u16_t hh, ms;
     i32_t mask;
     i64_t val, min, secs;
 
diff --git a/core/time.h b/core/time.h
index cff7029..9f9718a 100644
--- a/core/time.h
+++ b/core/time.h
@@ -29,7 +29,7 @@
 typedef struct timestruct_t {
     b8_t null;
     i8_t sign;
-    u8_t hours;
+    u16_t hours;
     u8_t mins;
     u8_t secs;
     u16_t msecs;
diff --git a/core/timestamp.c b/core/timestamp.c
index 6088640..cb5d413 100644
--- a/core/timestamp.c
+++ b/core/timestamp.c
@@ -63,6 +63,9 @@ i64_t date_into_days(datestruct_t dt) {
 
 //
 timestamp_t timestamp_from_i64(i64_t offset) {
+    if (offset == NULL_I64)
+        return (timestamp_t){.null = B8_TRUE};
+
     i64_t days = offset / NSECS_IN_DAY;
     i64_t span = offset % NSECS_IN_DAY;
 
@@ -108,12 +111,18 @@ i64_t timestamp_into_i64(timestamp_t ts) {
     i64_t dss = date_into_days(dt);
     i64_t offs = timespan_into_nanos(sp);
 
+    i64_t res;
+
     if (dss < 0) {
-        offs = NSECS_IN_DAY - offs;
-        return ((dss + 1) * NSECS_IN_DAY - offs);
+        offs -= NSECS_IN_DAY;
+        dss += 1;
     }
 
-    return (dss * NSECS_IN_DAY + offs);
+    // null when the timestamp is not representable in nanoseconds
+    if (__builtin_mul_overflow(dss, NSECS_IN_DAY, &res) || __builtin_add_overflow(res, offs, &res))
+        return NULL_I64;
+
+    return res;
 }
 
 // Parse ISO format timestamp: 2004-10-21 12:00:00+02:00 or 2004-10-21T12:00:00Z
-- 
2.43.0


From 824751f4e7a1a8dc72ae9db0012cf503552801f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:51 +0000
Subject: [PATCH 10/23] fix: vector by scalar arithmetic, rounding and negation
 of vectors give what the scalars give

---
 core/math.c  | 47 ++++++++++++++++++++++++++++++++---------------
 core/ops.h   |  8 ++++++--
 core/order.c | 10 +++++-----
 3 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/core/math.c b/core/math.c
index 92a469a..a7eb2a9 100644
--- a/core/math.c
+++ b/core/math.c
@@ -387,6 +387,7 @@ obj_p ray_add_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, i64, timestamp, timestamp, ADDI64, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, ADDI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, ADDI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
@@ -702,6 +703,7 @@ obj_p ray_sub_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, i32, time, time, SUBI32, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, SUBI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, SUBI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
@@ -973,6 +975,7 @@ obj_p ray_mul_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, time, time, time, MULI32, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
@@ -1371,9 +1374,9 @@ obj_p ray_fdiv_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_I32, -TYPE_F64):
             return f64(FDIVF64(i32_to_f64(x->i32), y->f64));
         case MTYPE2(-TYPE_I32, TYPE_I32):
-            return __BINOP_A_V(x, y, i32, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i32, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I32, TYPE_I64):
-            return __BINOP_A_V(x, y, i32, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i32, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I32, TYPE_F64):
             return __BINOP_A_V(x, y, i32, f64, f64, f64, FDIVF64, len, offset, out);
 
@@ -1384,9 +1387,9 @@ obj_p ray_fdiv_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_I64, -TYPE_F64):
             return f64(FDIVF64(i64_to_f64(x->i64), y->f64));
         case MTYPE2(-TYPE_I64, TYPE_I32):
-            return __BINOP_A_V(x, y, i64, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i64, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I64, TYPE_I64):
-            return __BINOP_A_V(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i64, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I64, TYPE_F64):
             return __BINOP_A_V(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
 
@@ -1404,28 +1407,28 @@ obj_p ray_fdiv_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_A_V(x, y, f64, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(TYPE_I32, -TYPE_I32):
-            return __BINOP_V_A(x, y, i32, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i32, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, -TYPE_I64):
-            return __BINOP_V_A(x, y, i32, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i32, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, -TYPE_F64):
             return __BINOP_V_A(x, y, i32, f64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, TYPE_I32):
-            return __BINOP_V_V(x, y, i32, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i32, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, TYPE_I64):
-            return __BINOP_V_V(x, y, i32, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i32, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, TYPE_F64):
             return __BINOP_V_V(x, y, i32, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
-            return __BINOP_V_A(x, y, i64, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i64, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
-            return __BINOP_V_A(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i64, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
             return __BINOP_V_A(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_I32):
-            return __BINOP_V_V(x, y, i64, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i64, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_I64):
-            return __BINOP_V_V(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i64, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_F64):
             return __BINOP_V_V(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
 
@@ -2385,6 +2388,20 @@ obj_p binop_fold(raw_p op, obj_p x, obj_p y) {
 }
 
 // Unaries
+// rounding leaves integer and temporal vectors as they are
+static obj_p round_map(raw_p op, obj_p x) {
+    switch (x->type) {
+        case TYPE_I32:
+        case TYPE_I64:
+        case TYPE_DATE:
+        case TYPE_TIME:
+        case TYPE_TIMESTAMP:
+            return clone_obj(x);
+        default:
+            return unop_map(op, x);
+    }
+}
+
 obj_p ray_sum(obj_p x) { return unop_fold(ray_sum_partial, x); }
 obj_p ray_cnt(obj_p x) {
     pool_p pool;
@@ -2427,9 +2444,9 @@ obj_p ray_cnt(obj_p x) {
 }
 obj_p ray_min(obj_p x) { return unop_fold(ray_min_partial, x); }
 obj_p ray_max(obj_p x) { return unop_fold(ray_max_partial, x); }
-obj_p ray_round(obj_p x) { return unop_map(ray_round_partial, x); }
-obj_p ray_floor(obj_p x) { return unop_map(ray_floor_partial, x); }
-obj_p ray_ceil(obj_p x) { return unop_map(ray_ceil_partial, x); }
+obj_p ray_round(obj_p x) { return round_map(ray_round_partial, x); }
+obj_p ray_floor(obj_p x) { return round_map(ray_floor_partial, x); }
+obj_p ray_ceil(obj_p x) { return round_map(ray_ceil_partial, x); }
 
 // Binaries
 obj_p ray_sq_sub(obj_p x, obj_p y) { return binop_fold(ray_sq_sub_partial, x, y); }
diff --git a/core/ops.h b/core/ops.h
index 484ab36..644ab17 100644
--- a/core/ops.h
+++ b/core/ops.h
@@ -187,8 +187,12 @@ extern struct obj_t __ERR_OBJ;
 #define MINF64(x, y) (ISNANF64((x)) ? (y) : ISNANF64((y)) ? (x) : ((x) < (y) ? (x) : (y)))
 #define ROTI32(x, y) (((x) << (y)) | ((x) >> (32 - (y))))
 #define ROTI64(x, y) (((x) << (y)) | ((x) >> (64 - (y))))
-#define ROUNDF64(x) ((ISNANF64((x))) ? NULL_F64 : ((x) >= 0.0 ? (i64_t)((x) + 0.5) : (i64_t)((x) - 0.5)))
-#define FLOORF64(x) ((ISNANF64((x))) ? NULL_F64 : (((x) < 0.0 && (i64_t)(x) != (x)) ? (i64_t)(x) - 1.0 : (i64_t)(x)))
+// a double of this magnitude has no fraction (and may not fit an i64)
+#define WHOLEF64(x) ((x) >= 4503599627370496.0 || (x) <= -4503599627370496.0)
+#define ROUNDF64(x) \
+    ((ISNANF64((x))) ? NULL_F64 : WHOLEF64(x) ? (x) : ((x) >= 0.0 ? (i64_t)((x) + 0.5) : (i64_t)((x) - 0.5)))
+#define FLOORF64(x) \
+    ((ISNANF64((x))) ? NULL_F64 : WHOLEF64(x) ? (x) : (((x) < 0.0 && (i64_t)(x) != (x)) ? (i64_t)(x) - 1.0 : (i64_t)(x)))
 #define CEILF64(x) ((ISNANF64((x))) ? NULL_F64 : (-FLOORF64(-(x))))
 #define XBARI32(x, y) \
     (((y) == 0 || (x) == NULL_I32 || (y) == NULL_I32) ? NULL_I32 : (EUCL_DIV((x), (y)) * (y)))
diff --git a/core/order.c b/core/order.c
index ba35120..afbef0a 100644
--- a/core/order.c
+++ b/core/order.c
@@ -449,7 +449,7 @@ obj_p ray_neg(obj_p x) {
     switch (x->type) {
         case -TYPE_B8:
         case -TYPE_U8:
-            return i64(-x->b8);
+            return i64(-(i64_t)x->u8);
         case -TYPE_I16:
             return i16(-x->i16);
         case -TYPE_I32:
@@ -467,15 +467,15 @@ obj_p ray_neg(obj_p x) {
             return res;
         case TYPE_I16:
             l = x->len;
-            res = I64(l);
+            res = I16(l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = -(i64_t)AS_I16(x)[i];
+                AS_I16(res)[i] = -AS_I16(x)[i];
             return res;
         case TYPE_I32:
             l = x->len;
-            res = I64(l);
+            res = I32(l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = -(i64_t)AS_I32(x)[i];
+                AS_I32(res)[i] = -AS_I32(x)[i];
             return res;
         case TYPE_I64:
             l = x->len;
-- 
2.43.0


From 297d1434d106f50393fc83a922d490f02ffc8ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:07 +0000
Subject: [PATCH 11/23] fix: rounding functions are called with their own
 signature

---
 core/math.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/math.c b/core/math.c
index a7eb2a9..6deac2c 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2237,12 +2237,10 @@ obj_p unop_map(raw_p op, obj_p x) {
     pool_p pool;
     i64_t i, l, n, chunk;
     obj_p v, out;
-    obj_p (*unop)(obj_p);
 
-    if (IS_ATOM(x)) {
-        unop = (obj_p(*)(obj_p))op;
-        return unop(x);
-    }
+    // scalars - partial function handles this directly
+    if (IS_ATOM(x))
+        return ((obj_p(*)(obj_p, i64_t, i64_t, obj_p))op)(x, 0, 0, NULL_OBJ);
 
     l = ops_count(x);
 
-- 
2.43.0


From d46f811b26f72d92386372dad945963125ba632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:24 +0000
Subject: [PATCH 12/23] fix: timers keep their identifiers, grow, stay ordered
 on removal and can be endless or removed by their own callback

---
 core/chrono.c | 64 ++++++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/core/chrono.c b/core/chrono.c
index f89a20f..6a6991b 100644
--- a/core/chrono.c
+++ b/core/chrono.c
@@ -236,8 +236,10 @@ nil_t timer_down(timers_p timers, i64_t index) {
 }
 
 i64_t timer_push(timers_p timers, ray_timer_p timer) {
-    if (timers->size == timers->capacity)
-        return -1;
+    if (timers->size == timers->capacity) {
+        timers->capacity *= 2;
+        timers->timers = (ray_timer_p *)heap_realloc(timers->timers, timers->capacity * sizeof(ray_timer_p));
+    }
 
     timers->timers[timers->size] = timer;
     timer_up(timers, timers->size);
@@ -285,8 +287,9 @@ i64_t timer_add(timers_p timers, i64_t tic, i64_t exp, i64_t num, obj_p clb) {
 
     id = timers->counter++;
     timer = ray_timer_create(id, tic, exp, num, clb);
+    timer_push(timers, timer);
 
-    return timer_push(timers, timer);
+    return id;
 }
 
 nil_t timer_del(timers_p timers, i64_t id) {
@@ -294,15 +297,15 @@ nil_t timer_del(timers_p timers, i64_t id) {
 
     l = (i64_t)timers->size;
 
-    if (id < 0 || id >= l)
-        return;
-
     for (i = 0; i < l; i++) {
         if (timers->timers[i]->id == id) {
             timer_free(timers->timers[i]);
-            timers->timers[i] = timers->timers[timers->size - 1];
             timers->size--;
-            timer_down(timers, i);
+            if (i < timers->size) {
+                timers->timers[i] = timers->timers[timers->size];
+                timer_up(timers, i);
+                timer_down(timers, i);
+            }
             return;
         }
     }
@@ -311,44 +314,39 @@ nil_t timer_del(timers_p timers, i64_t id) {
 i64_t timer_next_timeout(timers_p timers) {
     i64_t now = get_time_millis();
     ray_timer_p timer;
-    obj_p res;
+    obj_p clb, res;
 
     if (timers->size == 0)
         return TIMEOUT_INFINITY;
 
     while (timers->size > 0 && timers->timers[0]->exp <= now) {
-        // Pop the top timer for processing
-        timer = timer_pop(timers);
+        // Reschedule or retire the timer first: the callback may add or remove timers, itself included
+        timer = timers->timers[0];
+        clb = clone_obj(timer->clb);
+
+        if (timer->num > 1 || timer->num == NULL_I64) {
+            if (timer->num != NULL_I64)
+                timer->num--;  // Decrement repeat count if not infinite
+
+            // Update the timer's expiration time for the next occurrence
+            timer->exp += timer->tic;
+            timer_down(timers, 0);
+        } else {
+            // Free the timer if it should not be repeated
+            timer_free(timer_pop(timers));
+        }
 
         // Execute the callback associated with the timer
         vm_stack_push(i64(now));
-        res = call(timer->clb, 1);
+        res = call(clb, 1);
         drop_obj(vm_stack_pop());
+        drop_obj(clb);
 
         if (IS_ERR(res))
             io_write(1, MSG_TYPE_RESP, res);
 
         drop_obj(res);
 
-        // Check if the timer should be repeated
-        if (timer->num > 0) {
-            if (timer->num > 1) {
-                timer->num--;  // Decrement repeat count if not infinite
-
-                // Update the timer's expiration time for the next occurrence
-                timer->exp += timer->tic;
-
-                // Re-add the timer to the heap
-                timer_push(timers, timer);
-            } else {
-                // Free the timer if it should not be repeated
-                timer_free(timer);
-            }
-        } else {
-            // Free the timer if it should not be repeated
-            timer_free(timer);
-        }
-
         // Update `now` in case time has advanced during processing
         now = get_time_millis();
     }
@@ -396,6 +394,10 @@ obj_p ray_timer(obj_p *x, i64_t n) {
 
     num = (i64_t)((x[1]->i64 == 0) ? NULL_I64 : x[1]->i64);
 
+    // An endless timer that is always due would never let the caller continue
+    if (num == NULL_I64 && x[0]->i64 < 1)
+        return err_domain(1, 0);
+
     id = timer_add(timers, x[0]->i64, x[0]->i64 + get_time_millis(), num, clone_obj(x[2]));
 
     return i64(id);
-- 
2.43.0


From 8f6dca4bfcbee9992b0e538ea18426e68e8d668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:24 +0000
Subject: [PATCH 13/23] fix: releasing a connection identifier twice does not
 hand it out twice

---
 core/freelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/freelist.c b/core/freelist.c
index 17d7048..ae246b7 100644
--- a/core/freelist.c
+++ b/core/freelist.c
@@ -68,7 +68,7 @@ i64_t freelist_push(freelist_p freelist, i64_t val) {
 i64_t freelist_pop(freelist_p freelist, i64_t pos) {
     i64_t val;
 
-    if (pos < 0 || pos >= freelist->data_pos)
+    if (pos < 0 || pos >= freelist->data_pos || freelist->data[pos] == NULL_I64)
         return NULL_I64;
 
     if (freelist->free_pos == freelist->free_size) {
-- 
2.43.0


From c9221dd8151650042c32e75b96a4598da0469337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:44 +0000
Subject: [PATCH 14/23] fix: cut accepts I64 positions and drops only the parts
 it has made

---
 core/compose.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/compose.c b/core/compose.c
index 0c6f832..d345be3 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -1208,7 +1208,7 @@ obj_p ray_row(obj_p x) {
 #define CUT_VECTOR(x, xt, y, yt)                                                                       \
     ({                                                                                                 \
         i64_t $i, $j, $xl, $yl;                                                                        \
-        yt##_t $id, $last_id;                                                                          \
+        i64_t $id, $last_id;                                                                           \
         obj_p $v, $res;                                                                                \
         $xl = x->len;                                                                                  \
         $yl = y->len;                                                                                  \
@@ -1218,6 +1218,7 @@ obj_p ray_row(obj_p x) {
         $res = LIST($yl);                                                                              \
         $last_id = __AS_##yt(y)[0];                                                                    \
         if ($last_id < 0 || $last_id >= $xl) {                                                         \
+            $res->len = 0;                                                                             \
             drop_obj($res);                                                                            \
             return err_index($last_id, $xl, 0, 0);                                                           \
         }                                                                                              \
-- 
2.43.0


From 07ea44dbd76e192f4cb858349bdbab95b76a5261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:44 +0000
Subject: [PATCH 15/23] fix: typed nulls and negative positions for U8, I16,
 I32, DATE, TIME and GUID elements

---
 core/rayforce.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 2293d4e..2da4630 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -86,6 +86,16 @@ obj_p null(i8_t type) {
     switch (type) {
         case TYPE_B8:
             return b8(B8_FALSE);
+        case TYPE_U8:
+            return u8(0);
+        case TYPE_I16:
+            return i16(NULL_I16);
+        case TYPE_I32:
+            return i32(NULL_I32);
+        case TYPE_DATE:
+            return adate(NULL_I32);
+        case TYPE_TIME:
+            return atime(NULL_I32);
         case TYPE_I64:
             return i64(NULL_I64);
         case TYPE_F64:
@@ -121,6 +131,16 @@ obj_p nullv(i8_t type, i64_t len) {
         case TYPE_C8:
             memset(vec->raw, 0, len);
             break;
+        case TYPE_I16:
+            for (i = 0; i < len; i++)
+                AS_I16(vec)[i] = NULL_I16;
+            break;
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+            for (i = 0; i < len; i++)
+                AS_I32(vec)[i] = NULL_I32;
+            break;
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
@@ -765,12 +785,17 @@ obj_p at_idx(obj_p obj, i64_t idx) {
 
     switch (obj->type) {
         case TYPE_B8:
-        case TYPE_U8:
             if (idx < 0)
                 idx = obj->len + idx;
             if (idx >= 0 && idx < (i64_t)obj->len)
                 return b8(AS_B8(obj)[idx]);
             return b8(B8_FALSE);
+        case TYPE_U8:
+            if (idx < 0)
+                idx = obj->len + idx;
+            if (idx >= 0 && idx < (i64_t)obj->len)
+                return u8(AS_U8(obj)[idx]);
+            return u8(0);
         case TYPE_I16:
             if (idx < 0)
                 idx = obj->len + idx;
@@ -834,7 +859,7 @@ obj_p at_idx(obj_p obj, i64_t idx) {
             return NULL_OBJ;
         case TYPE_GUID:
             if (idx < 0)
-                idx = obj->len + idx + 1;
+                idx = obj->len + idx;
             if (idx >= 0 && idx < (i64_t)obj->len)
                 return guid(AS_GUID(obj)[idx]);
             return NULL_OBJ;
-- 
2.43.0


From 3b783fe079634b907cd3723d5b7b0b05511e1b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:44 +0000
Subject: [PATCH 16/23] fix: indexing, take and within: negative positions,
 empty sources, overflow and released domains

---
 core/items.c | 164 +++++++++++++++++++--------------------------------
 1 file changed, 60 insertions(+), 104 deletions(-)

diff --git a/core/items.c b/core/items.c
index b25ca46..dc16a8c 100644
--- a/core/items.c
+++ b/core/items.c
@@ -95,10 +95,10 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = B8(yl);
             for (i = 0; i < yl; i++) {
-                if (AS_B8(y)[i] >= (i64_t)xl)
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= xl)
                     AS_B8(res)[i] = B8_FALSE;
                 else
-                    AS_B8(res)[i] = AS_B8(x)[(i32_t)AS_B8(y)[i]];
+                    AS_B8(res)[i] = AS_B8(x)[AS_I64(y)[i]];
             }
 
             return res;
@@ -117,7 +117,7 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = GUID(yl);
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)xl)
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= xl)
                     memset(AS_GUID(res)[i], 0, sizeof(guid_t));
                 else
                     memcpy(AS_GUID(res)[i], AS_GUID(x)[AS_I64(y)[i]], sizeof(guid_t));
@@ -129,10 +129,10 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = C8(yl);
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)xl)
-                    AS_C8(res)
-                [i] = ' ';
-                else AS_C8(res)[i] = AS_C8(x)[(i32_t)AS_I64(y)[i]];
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= xl)
+                    AS_C8(res)[i] = ' ';
+                else
+                    AS_C8(res)[i] = AS_C8(x)[AS_I64(y)[i]];
             }
 
             return res;
@@ -141,10 +141,10 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = vector(TYPE_LIST, yl);
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)xl)
-                    AS_LIST(res)
-                [i] = NULL_OBJ;
-                else AS_LIST(res)[i] = clone_obj(AS_LIST(x)[(i32_t)AS_I64(y)[i]]);
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= xl)
+                    AS_LIST(res)[i] = NULL_OBJ;
+                else
+                    AS_LIST(res)[i] = clone_obj(AS_LIST(x)[AS_I64(y)[i]]);
             }
 
             return res;
@@ -187,7 +187,7 @@ obj_p ray_at(obj_p x, obj_p y) {
 
             v = ENUM_VAL(x);
 
-            if (y->i64 >= (i64_t)v->len) {
+            if (y->i64 < 0 || y->i64 >= (i64_t)v->len) {
                 drop_obj(s);
                 return err_index(y->i64, v->len, 0, 0);
             }
@@ -197,7 +197,7 @@ obj_p ray_at(obj_p x, obj_p y) {
                 return i64(AS_I64(v)[y->i64]);
             }
 
-            if (AS_I64(v)[y->i64] >= (i64_t)s->len) {
+            if (AS_I64(v)[y->i64] < 0 || AS_I64(v)[y->i64] >= (i64_t)s->len) {
                 drop_obj(s);
                 return err_index(AS_I64(v)[y->i64], s->len, 0, 0);
             }
@@ -226,7 +226,7 @@ obj_p ray_at(obj_p x, obj_p y) {
                 res = I64(yl);
 
                 for (i = 0; i < yl; i++) {
-                    if (AS_I64(y)[i] >= (i64_t)n) {
+                    if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)n) {
                         drop_obj(s);
                         drop_obj(res);
                         return err_index(AS_I64(y)[i], n, 0, 0);
@@ -243,13 +243,21 @@ obj_p ray_at(obj_p x, obj_p y) {
             res = SYMBOL(yl);
 
             for (i = 0; i < yl; i++) {
-                if (AS_I64(v)[i] >= (i64_t)xl) {
+                j = AS_I64(y)[i];
+                if (j < 0 || j >= n) {
+                    drop_obj(s);
+                    drop_obj(res);
+                    return err_index(j, n, 0, 0);
+                }
+
+                j = AS_I64(v)[j];
+                if (j < 0 || j >= xl) {
                     drop_obj(s);
                     drop_obj(res);
-                    return err_index(AS_I64(v)[i], xl, 0, 0);
+                    return err_index(j, xl, 0, 0);
                 }
 
-                AS_SYMBOL(res)[i] = AS_SYMBOL(s)[AS_I64(v)[AS_I64(y)[i]]];
+                AS_SYMBOL(res)[i] = AS_SYMBOL(s)[j];
             }
 
             drop_obj(s);
@@ -263,7 +271,7 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = k->len;
             yl = v->len;
 
-            if (y->i64 >= (i64_t)v->len)
+            if (y->i64 < 0 || y->i64 >= (i64_t)v->len)
                 return err_index(y->i64, v->len, 0, 0);
 
             buf = AS_U8(k) + AS_I64(v)[y->i64];
@@ -282,7 +290,7 @@ obj_p ray_at(obj_p x, obj_p y) {
             res = vector(TYPE_LIST, yl);
 
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)n) {
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)n) {
                     res->len = i;
                     drop_obj(res);
                     return err_index(AS_I64(y)[i], n, 0, 0);
@@ -429,20 +437,32 @@ obj_p ray_take(obj_p from, obj_p count) {
         }
     }
 
+    if (m < 0)
+        return err_length(0, 0, 0, 0, 0, 0);
+
+    // The columns of a table are taken one by one; there is nothing to take from an empty sequence
+    if (from->type >= 0 && from->type != TYPE_TABLE) {
+        l = ops_count(from);
+        if (l == 0)
+            is_range = 1;
+        if (is_range) {
+            if (start < 0)
+                start = l + start;
+            if (start < 0)
+                start = 0;
+            if (start > l)
+                start = l;
+            if (m > l - start)
+                m = l - start;
+        }
+    }
+
     switch (from->type) {
         case TYPE_B8:
         case TYPE_U8:
         case TYPE_C8:
             l = from->len;
             if (is_range) {
-                if (start < 0)
-                    start = l + start;
-                if (start < 0)
-                    start = 0;
-                if (start > (i64_t)l)
-                    start = l;
-                if (start + m > (i64_t)l)
-                    m = l - start;
                 res = vector(from->type, m);
                 for (i = 0; i < m; i++)
                     AS_U8(res)[i] = AS_U8(from)[start + i];
@@ -464,14 +484,6 @@ obj_p ray_take(obj_p from, obj_p count) {
         case TYPE_I16:
             l = from->len;
             if (is_range) {
-                if (start < 0)
-                    start = l + start;
-                if (start < 0)
-                    start = 0;
-                if (start > (i64_t)l)
-                    start = l;
-                if (start + m > (i64_t)l)
-                    m = l - start;
                 res = I16(m);
                 for (i = 0; i < m; i++)
                     AS_I16(res)[i] = AS_I16(from)[start + i];
@@ -493,14 +505,6 @@ obj_p ray_take(obj_p from, obj_p count) {
         case TYPE_TIME:
             l = from->len;
             if (is_range) {
-                if (start < 0)
-                    start = l + start;
-                if (start < 0)
-                    start = 0;
-                if (start > (i64_t)l)
-                    start = l;
-                if (start + m > (i64_t)l)
-                    m = l - start;
                 res = vector(from->type, m);
                 for (i = 0; i < m; i++)
                     AS_I32(res)[i] = AS_I32(from)[start + i];
@@ -525,14 +529,6 @@ obj_p ray_take(obj_p from, obj_p count) {
         case TYPE_F64:
             l = from->len;
             if (is_range) {
-                if (start < 0)
-                    start = l + start;
-                if (start < 0)
-                    start = 0;
-                if (start > (i64_t)l)
-                    start = l;
-                if (start + m > (i64_t)l)
-                    m = l - start;
                 res = vector(from->type, m);
                 for (i = 0; i < m; i++)
                     AS_I64(res)[i] = AS_I64(from)[start + i];
@@ -555,14 +551,6 @@ obj_p ray_take(obj_p from, obj_p count) {
         case TYPE_GUID:
             l = from->len;
             if (is_range) {
-                if (start < 0)
-                    start = l + start;
-                if (start < 0)
-                    start = 0;
-                if (start > (i64_t)l)
-                    start = l;
-                if (start + m > (i64_t)l)
-                    m = l - start;
                 res = GUID(m);
                 for (i = 0; i < m; i++)
                     memcpy(AS_GUID(res)[i], AS_GUID(from)[start + i], sizeof(guid_t));
@@ -584,22 +572,14 @@ obj_p ray_take(obj_p from, obj_p count) {
             obj_p keys_res = vector(AS_LIST(from)[0]->type, 0);
             obj_p vals_res = vector(AS_LIST(from)[1]->type, 0);
             if (is_range) {
-                if (start < 0)
-                    start = l + start;
-                if (start < 0)
-                    start = 0;
-                if (start > (i64_t)l)
-                    start = l;
-                if (start + m > (i64_t)l)
-                    m = l - start;
                 for (i = 0; i < m; i++) {
-                    push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], start + i)));
-                    push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], start + i)));
+                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], start + i));
+                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], start + i));
                 }
             } else {
                 for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
-                    push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], j % l)));
-                    push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], j % l)));
+                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], j % l));
+                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], j % l));
                 }
             }
             return dict(keys_res, vals_res);
@@ -610,14 +590,6 @@ obj_p ray_take(obj_p from, obj_p count) {
             v = ENUM_VAL(from);
             l = v->len;
             if (is_range) {
-                if (start < 0)
-                    start = l + start;
-                if (start < 0)
-                    start = 0;
-                if (start > (i64_t)l)
-                    start = l;
-                if (start + m > (i64_t)l)
-                    m = l - start;
                 res = I64(m);
                 for (i = 0; i < m; i++) {
                     AS_I64(res)[i] = AS_I64(v)[start + i];
@@ -628,35 +600,26 @@ obj_p ray_take(obj_p from, obj_p count) {
                     AS_I64(res)[i] = AS_I64(v)[j % l];
                 }
             }
-            drop_obj(s);
             if (s->type != TYPE_SYMBOL) {
+                drop_obj(s);
                 drop_obj(k);
                 return res;
-            } else
-                return enumerate(k, res);
+            }
+            drop_obj(s);
+            return enumerate(k, res);
 
         case TYPE_MAPLIST:
             k = MAPLIST_KEY(from);
             s = MAPLIST_VAL(from);
             n = k->len;
             l = s->len;
-            if (is_range) {
-                if (start < 0)
-                    start = l + start;
-                if (start < 0)
-                    start = 0;
-                if (start > (i64_t)l)
-                    start = l;
-                if (start + m > (i64_t)l)
-                    m = l - start;
-            }
             res = vector(TYPE_LIST, m);
-            size = m;
 
             if (is_range) {
                 for (i = 0; i < m; i++) {
                     j = start + i;
-                    if (AS_I64(s)[j] >= (i64_t)n) {
+                    if (AS_I64(s)[j] >= 0 && AS_I64(s)[j] < n) {
+                        size = n - AS_I64(s)[j];
                         buf = AS_U8(k) + AS_I64(s)[j];
                         v = de_raw(buf, &size);
                         if (IS_ERR(v)) {
@@ -673,7 +636,8 @@ obj_p ray_take(obj_p from, obj_p count) {
                 }
             } else {
                 for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
-                    if (AS_I64(s)[j % l] >= (i64_t)n) {
+                    if (AS_I64(s)[j % l] >= 0 && AS_I64(s)[j % l] < n) {
+                        size = n - AS_I64(s)[j % l];
                         buf = AS_U8(k) + AS_I64(s)[j % l];
                         v = de_raw(buf, &size);
                         if (IS_ERR(v)) {
@@ -694,14 +658,6 @@ obj_p ray_take(obj_p from, obj_p count) {
         case TYPE_LIST:
             l = from->len;
             if (is_range) {
-                if (start < 0)
-                    start = l + start;
-                if (start < 0)
-                    start = 0;
-                if (start > (i64_t)l)
-                    start = l;
-                if (start + m > (i64_t)l)
-                    m = l - start;
                 res = vector(TYPE_LIST, m);
                 for (i = 0; i < m; i++)
                     AS_LIST(res)[i] = clone_obj(AS_LIST(from)[start + i]);
@@ -858,7 +814,7 @@ obj_p ray_within(obj_p x, obj_p y) {
                 min = AS_I64(y)[0];
                 max = AS_I64(y)[1];
 
-                return B8(x->i64 >= min && x->i64 <= max);
+                return b8(x->i64 >= min && x->i64 <= max);
 
             case MTYPE2(TYPE_I64, TYPE_I64):
                 l = x->len;
-- 
2.43.0


From bf4aef8f294f02b73cc4514fe392e3a0d072a741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:29 +0000
Subject: [PATCH 17/23] fix: serialise every type it claims, and reject
 malformed serialised data

---
 core/serde.c | 109 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 96 insertions(+), 13 deletions(-)

diff --git a/core/serde.c b/core/serde.c
index c5ef252..331378d 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -87,7 +87,7 @@ i64_t size_of(obj_p obj) {
  * Returns size (in bytes) that an obj occupy in memory via serialization
  */
 i64_t size_obj(obj_p obj) {
-    i64_t i, l, size;
+    i64_t i, l, n, size;
 
     switch (obj->type) {
         case -TYPE_B8:
@@ -117,6 +117,8 @@ i64_t size_obj(obj_p obj) {
             return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(b8_t);
         case TYPE_U8:
             return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(u8_t);
+        case TYPE_I16:
+            return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(i16_t);
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -137,14 +139,22 @@ i64_t size_obj(obj_p obj) {
         case TYPE_LIST:
             l = obj->len;
             size = ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t);
-            for (i = 0; i < l; i++)
-                size += size_obj(AS_LIST(obj)[i]);
+            for (i = 0; i < l; i++) {
+                n = size_obj(AS_LIST(obj)[i]);
+                if (n == 0)  // not serializable
+                    return 0;
+                size += n;
+            }
             return size;
         case TYPE_TABLE:
         case TYPE_DICT:
-            return ISIZEOF(i8_t) + 1 + size_obj(AS_LIST(obj)[0]) + size_obj(AS_LIST(obj)[1]);
+            l = size_obj(AS_LIST(obj)[0]);
+            n = size_obj(AS_LIST(obj)[1]);
+            return l == 0 || n == 0 ? 0 : ISIZEOF(i8_t) + 1 + l + n;
         case TYPE_LAMBDA:
-            return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + size_obj(AS_LAMBDA(obj)->args) + size_obj(AS_LAMBDA(obj)->body);
+            l = size_obj(AS_LAMBDA(obj)->args);
+            n = size_obj(AS_LAMBDA(obj)->body);
+            return l == 0 || n == 0 ? 0 : ISIZEOF(i8_t) + 1 + l + n;
         case TYPE_UNARY:
         case TYPE_BINARY:
         case TYPE_VARY:
@@ -362,13 +372,39 @@ obj_p ser_obj(obj_p obj) {
     return buf;
 }
 
-obj_p de_raw(u8_t *buf, i64_t *len) {
+// A table: names and as many columns of one length (or none)
+static b8_t is_table_parts(obj_p k, obj_p v) {
+    i64_t i;
+
+    if (k->type != TYPE_SYMBOL || v->type != TYPE_LIST || (v->len != k->len && v->len != 0))
+        return B8_FALSE;
+
+    for (i = 0; i < v->len; i++) {
+        if (!IS_VECTOR(AS_LIST(v)[i]) || ops_count(AS_LIST(v)[i]) != ops_count(AS_LIST(v)[0]))
+            return B8_FALSE;
+    }
+
+    return B8_TRUE;
+}
+
+static b8_t is_dict_part(obj_p x) { return IS_VECTOR(x) || x->type == TYPE_TABLE || x->type == TYPE_DICT; }
+
+// A dictionary: as many values as keys
+static b8_t is_dict_parts(obj_p k, obj_p v) {
+    return is_dict_part(k) && is_dict_part(v) && ops_count(k) == ops_count(v);
+}
+
+// Nested values a message may hold: deeper ones are rejected instead of exhausting the stack
+#define SERDE_MAX_DEPTH 1024
+static __thread i32_t __DE_DEPTH = 0;
+
+static obj_p de_value(u8_t *buf, i64_t *len) {
     i64_t i, l, c, id;
     obj_p obj, k, v;
     i8_t type;
 
-    if (*len == 0)
-        return NULL_OBJ;
+    if (*len < 1)
+        return err_domain(0, 0);
 
     type = buf[0];
     buf++;
@@ -456,6 +492,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
         case TYPE_B8:
         case TYPE_U8:
         case TYPE_C8:
+        case TYPE_I16:
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -465,7 +502,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
         case TYPE_SYMBOL:
         case TYPE_GUID:
         case TYPE_LIST:
-            if (*len < ISIZEOF(i64_t))
+            if (*len < 1 + ISIZEOF(i64_t))
                 return err_domain(0, 0);
 
             buf++;  // skip attrs
@@ -473,8 +510,8 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             buf += ISIZEOF(i64_t);
             (*len) -= ISIZEOF(i64_t) + 1;
 
-            // Check for unreasonable length values that might indicate corruption
-            if (l > 1000000000)  // 1 billion elements is likely a corrupted value
+            // every element takes one byte at least
+            if (l < 0 || l > *len)
                 return err_domain(0, 0);
 
             // Continue with type-specific handling
@@ -501,6 +538,16 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                     buf += l * ISIZEOF(c8_t);
                     (*len) -= l * ISIZEOF(c8_t);
                     return obj;
+                case TYPE_I16:
+                    if (*len < l * ISIZEOF(i16_t))
+                        return err_domain(0, 0);
+                    obj = I16(l);
+                    if (IS_ERR(obj))
+                        return obj;
+                    memcpy(AS_I16(obj), buf, l * ISIZEOF(i16_t));
+                    buf += l * ISIZEOF(i16_t);
+                    (*len) -= l * ISIZEOF(i16_t);
+                    return obj;
                 case TYPE_I32:
                 case TYPE_TIME:
                 case TYPE_DATE:
@@ -590,6 +637,9 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
 
         case TYPE_TABLE:
         case TYPE_DICT:
+            if (*len < 1)
+                return err_domain(0, 0);
+
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
@@ -605,12 +655,21 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                 return v;
             }
 
+            if (type == TYPE_TABLE ? !is_table_parts(k, v) : !is_dict_parts(k, v)) {
+                drop_obj(k);
+                drop_obj(v);
+                return err_domain(0, 0);
+            }
+
             if (type == TYPE_TABLE)
                 return table(k, v);
             else
                 return dict(k, v);
 
         case TYPE_LAMBDA:
+            if (*len < 1)
+                return err_domain(0, 0);
+
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
@@ -626,6 +685,12 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                 return v;
             }
 
+            if (k != NULL_OBJ && k->type != TYPE_SYMBOL) {
+                drop_obj(k);
+                drop_obj(v);
+                return err_domain(0, 0);
+            }
+
             return lambda(k, v, NULL_OBJ);
 
         case TYPE_UNARY:
@@ -661,7 +726,9 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             
             if (code == EC_USER) {
                 lit_p msg = (lit_p)buf;
-                i64_t msg_len = strlen(msg);
+                i64_t msg_len = str_len((str_p)buf, *len);
+                if (msg_len >= *len)
+                    return err_domain(0, 0);
                 buf += msg_len + 1;
                 (*len) -= msg_len + 1;
                 return err_user(msg);
@@ -678,11 +745,27 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
     }
 }
 
+obj_p de_raw(u8_t *buf, i64_t *len) {
+    obj_p res;
+
+    if (__DE_DEPTH >= SERDE_MAX_DEPTH)
+        return err_limit(SERDE_MAX_DEPTH);
+
+    __DE_DEPTH++;
+    res = de_value(buf, len);
+    __DE_DEPTH--;
+
+    return res;
+}
+
 obj_p de_obj(obj_p obj) {
     i64_t len;
     u8_t *buf;
     ipc_header_t *header;
 
+    if (obj->type != TYPE_U8)
+        return err_type(TYPE_U8, obj->type, 0, 0);
+
     len = obj->len;
     buf = AS_U8(obj);
 
@@ -709,5 +792,5 @@ obj_p de_obj(obj_p obj) {
     len = header->size;
     buf += ISIZEOF(struct ipc_header_t);
 
-    return de_raw(buf, &len);
+    return len == 0 ? NULL_OBJ : de_raw(buf, &len);
 }
-- 
2.43.0


From a39d3aac7df535d74f6ad1122037a2f8ba03f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:29 +0000
Subject: [PATCH 18/23] fix: send an error for a value that has no serial form

---
 core/ipc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ipc.c b/core/ipc.c
index 2b21bb9..3af1bdd 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -401,6 +401,10 @@ nil_t ipc_send_msg(poll_p poll, selector_p selector, obj_p msg, u8_t msgtype) {
 
     LOG_TRACE("Serializing message");
     size = size_obj(msg);
+    if (size == 0) {  // not serializable
+        msg = err_type(0, msg->type, 0, 0);
+        size = size_obj(msg);
+    }
     buf = poll_buf_create(ISIZEOF(struct ipc_header_t) + size);
 
     header = (ipc_header_t *)buf->data;
-- 
2.43.0


From 30659518b748a5921dee754b006dce441e53a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:27 +0000
Subject: [PATCH 19/23] fix: hash tables with negative keys, and hashes of
 every type of value

---
 core/hash.c     | 55 ++++++++++++++++++++++++++++++++++++++++---------
 core/rayforce.c |  2 +-
 2 files changed, 46 insertions(+), 11 deletions(-)

diff --git a/core/hash.c b/core/hash.c
index 4a9d51e..8801004 100644
--- a/core/hash.c
+++ b/core/hash.c
@@ -113,7 +113,7 @@ i64_t ht_oa_tab_next(obj_p *obj, i64_t key) {
         size = AS_LIST(*obj)[0]->len;
         keys = AS_I64(AS_LIST(*obj)[0]);
 
-        start = (i64_t)key % size;
+        start = (i64_t)((u64_t)key % (u64_t)size);
 
         for (i = start; i < size + start; i++) {
             idx = i % size;
@@ -156,7 +156,7 @@ i64_t ht_oa_tab_insert(obj_p *obj, i64_t key, i64_t val) {
         keys = AS_I64(AS_LIST(*obj)[0]);
         vals = AS_I64(AS_LIST(*obj)[1]);
 
-        start = (i64_t)key % size;
+        start = (i64_t)((u64_t)key % (u64_t)size);
 
         for (i = start; i < size + start; i++) {
             idx = i % size;
@@ -168,7 +168,7 @@ i64_t ht_oa_tab_insert(obj_p *obj, i64_t key, i64_t val) {
             }
 
             if (keys[idx] == key)
-                return vals[i];
+                return vals[idx];
         }
 
         ht_oa_rehash(obj, NULL, NULL);
@@ -211,7 +211,7 @@ i64_t ht_oa_tab_get(obj_p obj, i64_t key) {
     size = AS_LIST(obj)[0]->len;
     keys = AS_I64(AS_LIST(obj)[0]);
 
-    start = (i64_t)key % size;
+    start = (i64_t)((u64_t)key % (u64_t)size);
 
     for (i = start; i < size + start; i++) {
         idx = i % size;
@@ -246,6 +246,21 @@ i64_t ht_oa_tab_get_with(obj_p obj, i64_t key, hash_f hash, cmp_f cmp, raw_p see
     return NULL_I64;
 }
 
+// Floats that compare equal hash equally: the integer part, where it has one
+static u64_t hash_f64(f64_t x) {
+    u64_t bits;
+
+    if (ISNANF64(x))
+        return (u64_t)NULL_I64;
+
+    if (x > -9.2e18 && x < 9.2e18)
+        return (u64_t)(i64_t)x;
+
+    memcpy(&bits, &x, sizeof(bits));
+
+    return bits;
+}
+
 u64_t hash_index_obj(obj_p obj) {
     u64_t hash, len, i;
 
@@ -260,10 +275,16 @@ u64_t hash_index_obj(obj_p obj) {
         case -TYPE_SYMBOL:
         case -TYPE_TIMESTAMP:
             return (u64_t)obj->i64;
+        case -TYPE_B8:
+        case -TYPE_U8:
+        case -TYPE_C8:
+            return (u64_t)obj->u8;
         case -TYPE_F64:
-            return (u64_t)obj->f64;
+            return hash_f64(obj->f64);
         case -TYPE_GUID:
             return hash_index_u64(*(u64_t *)AS_GUID(obj), *((u64_t *)AS_GUID(obj) + 1));
+        case TYPE_B8:
+        case TYPE_U8:
         case TYPE_C8:
             return str_hash(AS_C8(obj), obj->len);
         case TYPE_I16:
@@ -288,10 +309,24 @@ u64_t hash_index_obj(obj_p obj) {
         case TYPE_F64:
             len = obj->len;
             for (i = 0, hash = 0xcbf29ce484222325ull; i < len; i++)
-                hash = hash_index_u64((u64_t)AS_F64(obj)[i], hash);
+                hash = hash_index_u64(hash_f64(AS_F64(obj)[i]), hash);
+            return hash;
+        case TYPE_GUID:
+            len = obj->len * 2;
+            for (i = 0, hash = 0xcbf29ce484222325ull; i < len; i++)
+                hash = hash_index_u64(((u64_t *)AS_GUID(obj))[i], hash);
+            return hash;
+        case TYPE_LIST:
+            len = obj->len;
+            for (i = 0, hash = 0xcbf29ce484222325ull; i < len; i++)
+                hash = hash_index_u64(hash_index_obj(AS_LIST(obj)[i]), hash);
             return hash;
+        case TYPE_DICT:
+        case TYPE_TABLE:
+            return hash_index_u64(hash_index_obj(AS_LIST(obj)[0]), hash_index_obj(AS_LIST(obj)[1]));
         default:
-            PANIC("type: %d", obj->type);
+            // anything else is told apart by comparison alone
+            return (u64_t)obj->type;
     }
 }
 
@@ -356,7 +391,7 @@ i64_t ht_bk_insert(ht_bk_p ht, i64_t key, i64_t val) {
     i64_t index;
     bucket_p bucket;
 
-    index = key % ht->size;
+    index = (i64_t)((u64_t)key % (u64_t)ht->size);
 
     bucket = ht->table[index];
 
@@ -442,7 +477,7 @@ i64_t ht_bk_insert_par(ht_bk_p ht, i64_t key, i64_t val) {
     i64_t index;
     bucket_p new_bucket, current_bucket, b;
 
-    index = key % ht->size;
+    index = (i64_t)((u64_t)key % (u64_t)ht->size);
 
     new_bucket = (bucket_p)heap_alloc(sizeof(struct bucket_t));
     if (new_bucket == NULL)
@@ -509,7 +544,7 @@ i64_t ht_bk_insert_with_par(ht_bk_p ht, i64_t key, i64_t val, hash_f hash, cmp_f
 }
 
 i64_t ht_bk_get(ht_bk_p ht, i64_t key) {
-    i64_t index = key % ht->size;
+    i64_t index = (i64_t)((u64_t)key % (u64_t)ht->size);
     bucket_p current = ht->table[index];
 
     while (current != NULL) {
diff --git a/core/rayforce.c b/core/rayforce.c
index 2da4630..cbdaed8 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2215,7 +2215,7 @@ i64_t cmp_obj(obj_p a, obj_p b) {
         case TYPE_TIME:
             l = a->len < b->len ? a->len : b->len;
             for (i = 0; i < l; i++) {
-                d = (i64_t)(AS_I32(a)[i] - AS_I32(b)[i]);
+                d = (i64_t)AS_I32(a)[i] - (i64_t)AS_I32(b)[i];
                 if (d != 0)
                     return d;
             }
-- 
2.43.0


From 8850dc0cfc5d581b4251e3d0464d73980d9452b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:56 +0000
Subject: [PATCH 20/23] fix: keep every message queued for a connection

---
 core/poll.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/poll.c b/core/poll.c
index 0e5d6cf..3b7e5d0 100644
--- a/core/poll.c
+++ b/core/poll.c
@@ -128,11 +128,13 @@ i64_t poll_rx_buf_reset(poll_p poll, selector_p selector) {
 }
 
 i64_t poll_send_buf(poll_p poll, selector_p selector, poll_buffer_p buf) {
+    poll_buffer_p *tail = &selector->tx.buf;
+
     // Attach the buffer to the end of the list
-    if (selector->tx.buf != NULL)
-        selector->tx.buf->next = buf;
-    else
-        selector->tx.buf = buf;
+    while (*tail != NULL)
+        tail = &(*tail)->next;
+
+    *tail = buf;
 
     return poll_send(poll, selector);
 }
-- 
2.43.0


From 3eef3a3c5a811cbede4a840e8d994d5834fe4dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:56 +0000
Subject: [PATCH 21/23] fix: reject malformed message headers

---
 core/ipc.c | 10 ++++++++--
 core/ipc.h |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/ipc.c b/core/ipc.c
index 3af1bdd..31c9239 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -286,7 +286,6 @@ option_t ipc_read_handshake(poll_p poll, selector_p selector) {
 
     if (selector->rx.buf == NULL) {
         LOG_DEBUG("No handshake buffer received, closing connection");
-        poll_deregister(poll, selector->id);
         return option_error(err_os());
     }
 
@@ -333,9 +332,16 @@ option_t ipc_read_header(poll_p poll, selector_p selector) {
     LOG_TRACE("Header read: {.prefix: 0x%08x, .version: %d, .flags: %d, .endian: %d, .msgtype: %d, .size: %lld}",
               header->prefix, header->version, header->flags, header->endian, header->msgtype, header->size);
 
+    // reject anything that is not a header of a message
+    if (header->prefix != SERDE_PREFIX || msgsize <= 0 || msgsize > IPC_MAX_MSG_SIZE) {
+        LOG_ERROR("Malformed header received from connection %lld", selector->id);
+        return option_error(err_domain(0, 0));
+    }
+
     // request the buffer for the entire message (including the header)
     LOG_DEBUG("Requesting buffer for message of size %lld", ISIZEOF(struct ipc_header_t) + msgsize);
-    poll_rx_buf_extend(poll, selector, msgsize);
+    if (poll_rx_buf_extend(poll, selector, msgsize) == -1)
+        return option_error(err_os());
 
     LOG_DEBUG("Switching to message reading mode");
     selector->rx.read_fn = ipc_read_msg;
diff --git a/core/ipc.h b/core/ipc.h
index 04bca0f..8d7bd7d 100644
--- a/core/ipc.h
+++ b/core/ipc.h
@@ -32,6 +32,8 @@
 #define MSG_TYPE_SYNC 1
 #define MSG_TYPE_RESP 2
 
+#define IPC_MAX_MSG_SIZE (1ll << 36)
+
 typedef struct ipc_ctx_t {
     u8_t msgtype;
     obj_p name;
-- 
2.43.0


From 43215a9c2454c14a352473244342ccd5a8c9df07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:47 +0000
Subject: [PATCH 22/23] fix: release the chain when a symbol cannot be
 allocated

---
 core/symbols.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/symbols.c b/core/symbols.c
index 10f12ef..7d543f4 100644
--- a/core/symbols.c
+++ b/core/symbols.c
@@ -124,6 +124,13 @@ load:
         b = __atomic_load_n(&b->next, __ATOMIC_ACQUIRE);
     }
 
+    new_bucket = (symbol_p)heap_alloc(sizeof(struct symbol_t));
+    if (new_bucket == NULL) {
+        // Release the chain, otherwise everyone hashing into it waits forever
+        __atomic_store_n(&syms[index], current_bucket, __ATOMIC_RELEASE);
+        return NULL_I64;
+    }
+
     // Allocate new compact ID atomically
     compact_id = __atomic_fetch_add(&symbols->count, 1, __ATOMIC_RELAXED);
     
@@ -133,10 +140,6 @@ load:
         exit(1);
     }
 
-    new_bucket = (symbol_p)heap_alloc(sizeof(struct symbol_t));
-    if (new_bucket == NULL)
-        return NULL_I64;
-
     intr = string_intern(symbols, str, len);
     new_bucket->str = intr;
     new_bucket->compact_id = compact_id;
-- 
2.43.0


From b959935fc16d5033e7e04db62a43e242a2e36397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:46 +0000
Subject: [PATCH 23/23] fix: casts map null to null and nonzero to true

---
 core/ops.h      |  1 +
 core/rayforce.c | 74 ++++++++++++++++++++++++-------------------------
 2 files changed, 38 insertions(+), 37 deletions(-)

diff --git a/core/ops.h b/core/ops.h
index 644ab17..9b795da 100644
--- a/core/ops.h
+++ b/core/ops.h
@@ -255,6 +255,7 @@ static inline f64_t i64_to_f64(i64_t x) { return (x == NULL_I64) ? NULL_F64 : (f
 static inline i32_t i64_to_date(i64_t x) { return (x == NULL_I64) ? NULL_I32 : (i32_t)x; }
 static inline i32_t i64_to_time(i64_t x) { return (x == NULL_I64) ? NULL_I32 : (i32_t)x; }
 static inline i64_t i64_to_timestamp(i64_t x) { return x; }
+static inline i16_t f64_to_i16(f64_t x) { return ISNANF64(x) ? NULL_I16 : (i16_t)x; }
 static inline i32_t f64_to_i32(f64_t x) { return ISNANF64(x) ? NULL_I32 : (i32_t)x; }
 static inline i64_t f64_to_i64(f64_t x) { return ISNANF64(x) ? NULL_I64 : (i64_t)x; }
 static inline f64_t f64_to_f64(f64_t x) { return x; }
diff --git a/core/rayforce.c b/core/rayforce.c
index cbdaed8..1968687 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2407,12 +2407,12 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_I16, -TYPE_I32):
         case MTYPE2(-TYPE_I16, -TYPE_DATE):
         case MTYPE2(-TYPE_I16, -TYPE_TIME):
-            return i16(obj->i32);
+            return i16(i32_to_i16(obj->i32));
         case MTYPE2(-TYPE_I16, -TYPE_I64):
         case MTYPE2(-TYPE_I16, -TYPE_TIMESTAMP):
-            return i16(obj->i64);
+            return i16(i64_to_i16(obj->i64));
         case MTYPE2(-TYPE_I16, -TYPE_F64):
-            return i16((i16_t)obj->f64);
+            return i16(f64_to_i16(obj->f64));
 
         // I32 atom conversions
         case MTYPE2(-TYPE_I32, -TYPE_B8):
@@ -2420,15 +2420,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_I32, -TYPE_U8):
             return i32(obj->u8);
         case MTYPE2(-TYPE_I32, -TYPE_I16):
-            return i32(obj->i16);
+            return i32(i16_to_i32(obj->i16));
         case MTYPE2(-TYPE_I32, -TYPE_I64):
         case MTYPE2(-TYPE_I32, -TYPE_TIMESTAMP):
-            return i32(obj->i64);
+            return i32(i64_to_i32(obj->i64));
         case MTYPE2(-TYPE_I32, -TYPE_TIME):
         case MTYPE2(-TYPE_I32, -TYPE_DATE):
             return i32(obj->i32);
         case MTYPE2(-TYPE_I32, -TYPE_F64):
-            return i32((i32_t)obj->f64);
+            return i32(f64_to_i32(obj->f64));
 
         // I64 atom conversions
         case MTYPE2(-TYPE_I64, -TYPE_B8):
@@ -2436,15 +2436,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_I64, -TYPE_U8):
             return i64(obj->u8);
         case MTYPE2(-TYPE_I64, -TYPE_I16):
-            return i64(obj->i16);
+            return i64(i16_to_i64(obj->i16));
         case MTYPE2(-TYPE_I64, -TYPE_I32):
         case MTYPE2(-TYPE_I64, -TYPE_TIME):
         case MTYPE2(-TYPE_I64, -TYPE_DATE):
-            return i64(obj->i32);
+            return i64(i32_to_i64(obj->i32));
         case MTYPE2(-TYPE_I64, -TYPE_TIMESTAMP):
             return i64(obj->i64);
         case MTYPE2(-TYPE_I64, -TYPE_F64):
-            return i64((i64_t)obj->f64);
+            return i64(f64_to_i64(obj->f64));
 
         // F64 atom conversions
         case MTYPE2(-TYPE_F64, -TYPE_B8):
@@ -2452,14 +2452,14 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_F64, -TYPE_U8):
             return f64((f64_t)obj->u8);
         case MTYPE2(-TYPE_F64, -TYPE_I16):
-            return f64((f64_t)obj->i16);
+            return f64(i16_to_f64(obj->i16));
         case MTYPE2(-TYPE_F64, -TYPE_I32):
         case MTYPE2(-TYPE_F64, -TYPE_DATE):
         case MTYPE2(-TYPE_F64, -TYPE_TIME):
-            return f64((f64_t)obj->i32);
+            return f64(i32_to_f64(obj->i32));
         case MTYPE2(-TYPE_F64, -TYPE_I64):
         case MTYPE2(-TYPE_F64, -TYPE_TIMESTAMP):
-            return f64((f64_t)obj->i64);
+            return f64(i64_to_f64(obj->i64));
 
         // DATE atom conversions
         case MTYPE2(-TYPE_DATE, -TYPE_B8):
@@ -2467,15 +2467,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_DATE, -TYPE_U8):
             return adate(obj->u8);
         case MTYPE2(-TYPE_DATE, -TYPE_I16):
-            return adate(obj->i16);
+            return adate(i16_to_i32(obj->i16));
         case MTYPE2(-TYPE_DATE, -TYPE_I32):
         case MTYPE2(-TYPE_DATE, -TYPE_TIME):
             return adate(obj->i32);
         case MTYPE2(-TYPE_DATE, -TYPE_I64):
         case MTYPE2(-TYPE_DATE, -TYPE_TIMESTAMP):
-            return adate((i32_t)obj->i64);
+            return adate(i64_to_i32(obj->i64));
         case MTYPE2(-TYPE_DATE, -TYPE_F64):
-            return adate((i32_t)obj->f64);
+            return adate(f64_to_i32(obj->f64));
 
         // TIME atom conversions
         case MTYPE2(-TYPE_TIME, -TYPE_B8):
@@ -2483,15 +2483,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_TIME, -TYPE_U8):
             return atime(obj->u8);
         case MTYPE2(-TYPE_TIME, -TYPE_I16):
-            return atime(obj->i16);
+            return atime(i16_to_i32(obj->i16));
         case MTYPE2(-TYPE_TIME, -TYPE_I32):
         case MTYPE2(-TYPE_TIME, -TYPE_DATE):
             return atime(obj->i32);
         case MTYPE2(-TYPE_TIME, -TYPE_I64):
         case MTYPE2(-TYPE_TIME, -TYPE_TIMESTAMP):
-            return atime((i32_t)obj->i64);
+            return atime(i64_to_i32(obj->i64));
         case MTYPE2(-TYPE_TIME, -TYPE_F64):
-            return atime((i32_t)obj->f64);
+            return atime(f64_to_i32(obj->f64));
 
         // TIMESTAMP atom conversions
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_B8):
@@ -2499,15 +2499,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_U8):
             return timestamp((i64_t)obj->u8);
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I16):
-            return timestamp((i64_t)obj->i16);
+            return timestamp(i16_to_i64(obj->i16));
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I32):
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_DATE):
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_TIME):
-            return timestamp((i64_t)obj->i32);
+            return timestamp(i32_to_i64(obj->i32));
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I64):
             return timestamp(obj->i64);
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_F64):
-            return timestamp((i64_t)obj->f64);
+            return timestamp(f64_to_i64(obj->f64));
 
         // SYMBOL atom conversions
         case MTYPE2(-TYPE_SYMBOL, -TYPE_B8):
@@ -2592,7 +2592,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_I16(obj)[i];
+                AS_U8(res)[i] = type == TYPE_B8 ? AS_I16(obj)[i] != 0 : (u8_t)AS_I16(obj)[i];
             return res;
         case MTYPE2(TYPE_B8, TYPE_I32):
         case MTYPE2(TYPE_B8, TYPE_DATE):
@@ -2604,7 +2604,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_I32(obj)[i];
+                AS_U8(res)[i] = type == TYPE_B8 ? AS_I32(obj)[i] != 0 : (u8_t)AS_I32(obj)[i];
             return res;
         case MTYPE2(TYPE_B8, TYPE_I64):
         case MTYPE2(TYPE_B8, TYPE_TIMESTAMP):
@@ -2614,7 +2614,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_I64(obj)[i];
+                AS_U8(res)[i] = type == TYPE_B8 ? AS_I64(obj)[i] != 0 : (u8_t)AS_I64(obj)[i];
             return res;
         case MTYPE2(TYPE_B8, TYPE_F64):
         case MTYPE2(TYPE_U8, TYPE_F64):
@@ -2622,7 +2622,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_F64(obj)[i];
+                AS_U8(res)[i] = type == TYPE_B8 ? AS_F64(obj)[i] != 0 : (u8_t)AS_F64(obj)[i];
             return res;
 
         // I16 vector conversions
@@ -2639,20 +2639,20 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = I16(l);
             for (i = 0; i < l; i++)
-                AS_I16(res)[i] = (i16_t)AS_I32(obj)[i];
+                AS_I16(res)[i] = i32_to_i16(AS_I32(obj)[i]);
             return res;
         case MTYPE2(TYPE_I16, TYPE_I64):
         case MTYPE2(TYPE_I16, TYPE_TIMESTAMP):
             l = obj->len;
             res = I16(l);
             for (i = 0; i < l; i++)
-                AS_I16(res)[i] = (i16_t)AS_I64(obj)[i];
+                AS_I16(res)[i] = i64_to_i16(AS_I64(obj)[i]);
             return res;
         case MTYPE2(TYPE_I16, TYPE_F64):
             l = obj->len;
             res = I16(l);
             for (i = 0; i < l; i++)
-                AS_I16(res)[i] = (i16_t)AS_F64(obj)[i];
+                AS_I16(res)[i] = f64_to_i16(AS_F64(obj)[i]);
             return res;
 
         // I32/DATE/TIME vector conversions (all use i32 storage)
@@ -2673,7 +2673,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I32(res)[i] = (i32_t)AS_I16(obj)[i];
+                AS_I32(res)[i] = i16_to_i32(AS_I16(obj)[i]);
             return res;
         case MTYPE2(TYPE_I32, TYPE_I64):
         case MTYPE2(TYPE_I32, TYPE_TIMESTAMP):
@@ -2684,7 +2684,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I32(res)[i] = (i32_t)AS_I64(obj)[i];
+                AS_I32(res)[i] = i64_to_i32(AS_I64(obj)[i]);
             return res;
         case MTYPE2(TYPE_I32, TYPE_DATE):
         case MTYPE2(TYPE_I32, TYPE_TIME):
@@ -2703,7 +2703,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I32(res)[i] = (i32_t)AS_F64(obj)[i];
+                AS_I32(res)[i] = f64_to_i32(AS_F64(obj)[i]);
             return res;
 
         // I64/TIMESTAMP vector conversions (all use i64 storage)
@@ -2721,7 +2721,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = (i64_t)AS_I16(obj)[i];
+                AS_I64(res)[i] = i16_to_i64(AS_I16(obj)[i]);
             return res;
         case MTYPE2(TYPE_I64, TYPE_I32):
         case MTYPE2(TYPE_I64, TYPE_DATE):
@@ -2732,14 +2732,14 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = (i64_t)AS_I32(obj)[i];
+                AS_I64(res)[i] = i32_to_i64(AS_I32(obj)[i]);
             return res;
         case MTYPE2(TYPE_I64, TYPE_F64):
         case MTYPE2(TYPE_TIMESTAMP, TYPE_F64):
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = (i64_t)AS_F64(obj)[i];
+                AS_I64(res)[i] = f64_to_i64(AS_F64(obj)[i]);
             return res;
         case MTYPE2(TYPE_I64, TYPE_TIMESTAMP):
         case MTYPE2(TYPE_TIMESTAMP, TYPE_I64):
@@ -2761,7 +2761,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = F64(l);
             for (i = 0; i < l; i++)
-                AS_F64(res)[i] = (f64_t)AS_I16(obj)[i];
+                AS_F64(res)[i] = i16_to_f64(AS_I16(obj)[i]);
             return res;
         case MTYPE2(TYPE_F64, TYPE_I32):
         case MTYPE2(TYPE_F64, TYPE_DATE):
@@ -2769,14 +2769,14 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = F64(l);
             for (i = 0; i < l; i++)
-                AS_F64(res)[i] = (f64_t)AS_I32(obj)[i];
+                AS_F64(res)[i] = i32_to_f64(AS_I32(obj)[i]);
             return res;
         case MTYPE2(TYPE_F64, TYPE_I64):
         case MTYPE2(TYPE_F64, TYPE_TIMESTAMP):
             l = obj->len;
             res = F64(l);
             for (i = 0; i < l; i++)
-                AS_F64(res)[i] = (f64_t)AS_I64(obj)[i];
+                AS_F64(res)[i] = i64_to_f64(AS_I64(obj)[i]);
             return res;
 
         // SYMBOL vector conversion from I64
-- 
2.43.0

