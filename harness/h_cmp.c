// P09: comparisons.
#include "vf.h"
#include "core/cmp.h"
#ifdef POOL
#include "vf_pool.h"
#define INIT vf_init_pool
#else
#define INIT vf_init
#endif
#define NS_DAY 86400000000000ll
#define IS_32(t) ((t) == TYPE_I32 || (t) == TYPE_DATE || (t) == TYPE_TIME)
typedef obj_p (*cmp_fn)(obj_p, obj_p);
static f64_t fval(obj_p a, i8_t t) {
    if (t == TYPE_F64) return a->f64;
    if (t == TYPE_I16) return a->i16 == NULL_I16 ? NULL_F64 : (f64_t)a->i16;
    if (IS_32(t)) return a->i32 == NULL_I32 ? NULL_F64 : (f64_t)a->i32;
    return a->i64 == NULL_I64 ? NULL_F64 : (f64_t)a->i64;
}
static i64_t wval(obj_p a, i8_t t) {   // null is the smallest value of every type
    if (t == TYPE_U8 || t == TYPE_B8) return a->u8;
    if (t == TYPE_C8) return a->c8;
    if (t == TYPE_I16) return a->i16 == NULL_I16 ? NULL_I64 : a->i16;
    if (IS_32(t)) return a->i32 == NULL_I32 ? NULL_I64 : a->i32;
    return a->i64;
}
static void restrict_date(obj_p a, i8_t t, i8_t o) {  // a date combined with a timestamp: within the timestamps
    if (t == TYPE_DATE && o == TYPE_TIMESTAMP) ASSUME(a->i32 == NULL_I32 || (a->i32 > -106751 && a->i32 < 106751));
}
static i64_t dval(obj_p a) { return a->i32 == NULL_I32 ? NULL_I64 : NS_DAY * (i64_t)a->i32; }
// -1, 0, 1 by the documented order
static int ref(obj_p x, i8_t tx, obj_p y, i8_t ty) {
    if (tx == TYPE_F64 || ty == TYPE_F64) {
        f64_t a = fval(x, tx), b = fval(y, ty);
        if (a != a) return b != b ? 0 : -1;
        if (b != b) return 1;
        return a < b ? -1 : a > b ? 1 : 0;
    }
    i64_t a = tx == TYPE_DATE && ty == TYPE_TIMESTAMP ? dval(x) : wval(x, tx), b = ty == TYPE_DATE && tx == TYPE_TIMESTAMP ? dval(y) : wval(y, ty);
    return a < b ? -1 : a > b ? 1 : 0;
}
static b8_t want(int op, int c) { return op == 0 ? c == 0 : op == 1 ? c != 0 : op == 2 ? c < 0 : op == 3 ? c > 0 : op == 4 ? c <= 0 : c >= 0; }
static obj_p run(int op, obj_p x, obj_p y) {
    return op == 0 ? ray_eq(x, y) : op == 1 ? ray_ne(x, y) : op == 2 ? ray_lt(x, y) : op == 3 ? ray_gt(x, y) : op == 4 ? ray_le(x, y) : ray_ge(x, y);
}
static void scalar(i8_t tx, i8_t ty) {
    obj_p x = vf_atom(tx), y = vf_atom(ty);
    restrict_date(x, tx, ty);
    restrict_date(y, ty, tx);
    int c = ref(x, tx, y, ty);
    for (int op = 0; op < 6; op++) {
        obj_p r = run(op, x, y);
        CHECK(r->type == -TYPE_B8, "a comparison of scalars gives a boolean");
        CHECK(r->b8 == want(op, c), "the comparison agrees with the total order (null smallest)");
    }
}
#ifdef N
// vectors: every element is what the same comparison gives on the scalars
static void vec(i8_t tx, i8_t ty, int op) {
    obj_p x = vf_vec(tx, N), y = vf_vec(ty, N), a = vf_atom(tx), b = vf_atom(ty), r;
    obj_p xs[N], ys[N];
    restrict_date(a, tx, ty);
    restrict_date(b, ty, tx);
    for (int i = 0; i < N; i++) {
        xs[i] = vf_slot(x, i), ys[i] = vf_slot(y, i);
        restrict_date(xs[i], tx, ty);
        restrict_date(ys[i], ty, tx);
    }
    r = run(op, x, y);
    CHECK(r->type == TYPE_B8 && r->len == N, "comparing two vectors gives a boolean vector of their length");
    for (int i = 0; i < N; i++) CHECK(AS_B8(r)[i] == want(op, ref(xs[i], tx, ys[i], ty)), "vector with vector, element by element");
    r = run(op, a, y);
    CHECK(r->type == TYPE_B8 && r->len == N, "comparing a scalar and a vector gives a boolean vector");
    for (int i = 0; i < N; i++) CHECK(AS_B8(r)[i] == want(op, ref(a, tx, ys[i], ty)), "scalar with vector, element by element");
    r = run(op, x, b);
    CHECK(r->type == TYPE_B8 && r->len == N, "comparing a vector and a scalar gives a boolean vector");
    for (int i = 0; i < N; i++) CHECK(AS_B8(r)[i] == want(op, ref(xs[i], tx, b, ty)), "vector with scalar, element by element");
}
#endif
#define PAIRS(X) X(I16, I16) X(I16, I32) X(I16, I64) X(I16, F64) X(I32, I16) X(I32, I32) X(I32, I64) X(I32, F64) X(I64, I16) X(I64, I32) X(I64, I64) X(I64, F64) \
    X(F64, I16) X(F64, I32) X(F64, I64) X(F64, F64) X(DATE, DATE) X(TIME, TIME) X(TIMESTAMP, TIMESTAMP) X(SYMBOL, SYMBOL) X(DATE, TIMESTAMP) X(TIMESTAMP, DATE)
#define SPAIRS(X) PAIRS(X) X(B8, B8) X(U8, U8) X(B8, U8) X(U8, B8) X(C8, C8)
#ifdef N
#define E(a, b) void v_##a##_##b(void) { INIT(); vec(TYPE_##a, TYPE_##b, OPN); REACH(); }
PAIRS(E)
static obj_p guids(int n) { return vf_vec(TYPE_GUID, n); }
static int gcmp(guid_t *p, guid_t *q) { int c = memcmp(p, q, 16); return c < 0 ? -1 : c > 0; }
static obj_p gatom(obj_p v, int i) { return guid((u8_t *)AS_GUID(v)[i]); }
void v_GUID(void) {
    INIT();
    obj_p x = guids(N), y = guids(N), r, a = gatom(x, 0);
    int op = OPN;
    r = run(op, x, y);
    CHECK(r->type == TYPE_B8 && r->len == N, "comparing two vectors gives a boolean vector of their length");
    for (int i = 0; i < N; i++) CHECK(AS_B8(r)[i] == want(op, gcmp(&AS_GUID(x)[i], &AS_GUID(y)[i])), "vector with vector, element by element");
    r = run(op, a, y);
    CHECK(r->type == TYPE_B8 && r->len == N, "comparing a scalar and a vector gives a boolean vector");
    for (int i = 0; i < N; i++) CHECK(AS_B8(r)[i] == want(op, gcmp(&AS_GUID(x)[0], &AS_GUID(y)[i])), "scalar with vector, element by element");
    r = run(op, y, a);
    CHECK(r->type == TYPE_B8 && r->len == N, "comparing a vector and a scalar gives a boolean vector");
    for (int i = 0; i < N; i++) CHECK(AS_B8(r)[i] == want(op, gcmp(&AS_GUID(y)[i], &AS_GUID(x)[0])), "vector with scalar, element by element");
    r = run(op, a, gatom(y, 0));
    CHECK(r->type == -TYPE_B8 && r->b8 == want(op, gcmp(&AS_GUID(x)[0], &AS_GUID(y)[0])), "two guids");
    REACH();
}
#define SYMS 2
static obj_p vf_syms;
obj_p ray_get(obj_p k) { (void)k; return clone_obj(vf_syms); }
obj_p ray_key(obj_p x) { return clone_obj(AS_LIST(x)[0]); }
void v_ENUM(void) {   // an enumeration compares like the symbols it stands for
    INIT();
    obj_p ix = vector(TYPE_I64, N), y = vf_vec(TYPE_SYMBOL, N), a = vf_atom(TYPE_SYMBOL), r;
    int op = OPN;
    vf_syms = vf_vec(TYPE_SYMBOL, SYMS);
    for (int i = 0; i < N; i++) AS_I64(ix)[i] = nd_in(0, SYMS - 1);
    obj_p e = enumerate(vf_atom(TYPE_SYMBOL), ix);
#define SYM(i) AS_I64(vf_syms)[AS_I64(ix)[i]]
#define CMP3(p, q) ((p) < (q) ? -1 : (p) > (q))
    r = run(op, e, a);
    CHECK(r->type == TYPE_B8 && r->len == N, "comparing an enumeration and a symbol gives a boolean vector");
    for (int i = 0; i < N; i++) CHECK(AS_B8(r)[i] == want(op, CMP3(SYM(i), a->i64)), "enumeration with symbol, element by element");
    r = run(op, a, e);
    CHECK(r->type == TYPE_B8 && r->len == N, "comparing a symbol and an enumeration gives a boolean vector");
    for (int i = 0; i < N; i++) CHECK(AS_B8(r)[i] == want(op, CMP3(a->i64, SYM(i))), "symbol with enumeration, element by element");
    r = run(op, e, y);
    CHECK(r->type == TYPE_B8 && r->len == N, "comparing an enumeration and a symbol vector gives a boolean vector");
    for (int i = 0; i < N; i++) CHECK(AS_B8(r)[i] == want(op, CMP3(SYM(i), AS_I64(y)[i])), "enumeration with symbols, element by element");
    r = run(op, y, e);
    CHECK(r->type == TYPE_B8 && r->len == N, "comparing a symbol vector and an enumeration gives a boolean vector");
    for (int i = 0; i < N; i++) CHECK(AS_B8(r)[i] == want(op, CMP3(AS_I64(y)[i], SYM(i))), "symbols with enumeration, element by element");
    REACH();
}
void v_LEN(void) {  // vectors of different lengths are rejected
    INIT();
    obj_p x = vf_vec(TYPE_I64, N), y = vf_vec(TYPE_I64, N + 1);
    CHECK(IS_ERR(run(OPN, x, y)) && IS_ERR(run(OPN, y, x)), "vectors of different lengths are not comparable");
    obj_p e = vf_vec(TYPE_I64, 0), r = run(OPN, e, e);
    CHECK(r->type == TYPE_B8 && r->len == 0, "empty vectors compare to an empty result");
    REACH();
}
#else
#define E(a, b) void s_##a##_##b(void) { INIT(); scalar(TYPE_##a, TYPE_##b); REACH(); }
SPAIRS(E)
// texts: lexicographic by bytes, a proper prefix is smaller
#define L 3
static int tcmp(u8_t *p, i64_t m, u8_t *q, i64_t n) {
    for (int i = 0; i < L; i++) {
        if (i >= m || i >= n) return m < n ? -1 : m > n ? 1 : 0;
        if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
    }
    return m < n ? -1 : m > n ? 1 : 0;
}
void s_TEXT(void) {
    INIT();
    obj_p x = vf_vec(TYPE_C8, L), y = vf_vec(TYPE_C8, L), c = vf_atom(TYPE_C8);
    x->len = nd_in(0, L);
    y->len = nd_in(0, L);
    int d = tcmp(AS_U8(x), x->len, AS_U8(y), y->len), e = tcmp(&c->u8, 1, AS_U8(y), y->len);
    for (int op = 0; op < 6; op++) {
        obj_p r = run(op, x, y);
        CHECK(r->type == -TYPE_B8 && r->b8 == want(op, d), "texts compare lexicographically");
        r = run(op, c, y);
        CHECK(r->type == -TYPE_B8 && r->b8 == want(op, e), "a character compares like the text of length one");
        r = run(op, y, c);
        CHECK(r->type == -TYPE_B8 && r->b8 == want(op, -e), "a character compares like the text of length one");
    }
    REACH();
}
#endif
