// P16: selecting, slicing and rearranging.  T: element type, N: length.
#include "vf.h"
#include "core/items.h"
#include "core/compose.h"
#ifndef T
#define T TYPE_I64
#endif
#ifndef N
#define N 3
#endif
#ifdef POOL
#include "vf_pool.h"
#define INIT vf_init_pool
#else
#define INIT vf_init
#endif
static obj_p src;
static obj_p make(int n) {
#ifdef LISTS
    obj_p v = LIST(n);
    for (int i = 0; i < n; i++) AS_LIST(v)[i] = i64(nd_i64());
    return v;
#else
    return vf_vec(T, n);
#endif
}
static b8_t same(obj_p v, i64_t i, obj_p w, i64_t j) {
#ifdef LISTS
    return AS_LIST(v)[i] == AS_LIST(w)[j];
#else
    return vf_slots_eq(v, i, w, j);
#endif
}
static b8_t is_null_slot(obj_p v, i64_t i) {
#ifdef LISTS
    return AS_LIST(v)[i] == NULL_OBJ;
#else
    switch (T) {
        case TYPE_B8: case TYPE_U8: return AS_U8(v)[i] == 0;
        case TYPE_C8: return AS_C8(v)[i] == ' ';
        case TYPE_I16: return AS_I16(v)[i] == NULL_I16;
        case TYPE_I32: case TYPE_DATE: case TYPE_TIME: return AS_I32(v)[i] == NULL_I32;
        case TYPE_F64: return AS_F64(v)[i] != AS_F64(v)[i];
        case TYPE_GUID: for (int k = 0; k < 16; k++) if (AS_GUID(v)[i][k]) return 0; return 1;
        default: return AS_I64(v)[i] == NULL_I64;
    }
#endif
}
static b8_t is_elem(obj_p a, obj_p v, i64_t i) {
#ifdef LISTS
    return a == AS_LIST(v)[i];
#else
    return a->type == -T && vf_slot_is(v, i, a);
#endif
}
static b8_t null_atom(obj_p a) {
    if (a == NULL_OBJ) return 1;
    if (a->type != -T) return 0;
    switch (T) {
        case TYPE_B8: case TYPE_U8: case TYPE_C8: return a->u8 == 0;
        case TYPE_I16: return a->i16 == NULL_I16;
        case TYPE_I32: case TYPE_DATE: case TYPE_TIME: return a->i32 == NULL_I32;
        case TYPE_F64: return a->f64 != a->f64;
        case TYPE_GUID: return 0;
        default: return a->i64 == NULL_I64;
    }
}
#ifdef LISTS
#define OUT TYPE_LIST
static void refs(void) { for (int i = 0; i < N; i++) CHECK(AS_LIST(src)[i]->rc >= 1, "elements stay alive"); }
#else
#define OUT T
static void refs(void) {}
#endif
#define DONE(r) do { refs(); CHECK(src->rc == 1 && src->len == N && src->type == OUT, "the source is left alone"); REACH(); } while (0)
void q_at(void) {
    INIT();
    src = make(N);
    i64_t k = nd_i64();
    obj_p r = ray_at(src, i64(k));
    if (k >= 0 && k < N) { for (int i = 0; i < N; i++) if (i == k) CHECK(is_elem(r, src, i), "indexing gives the element at the position"); }
    else if (k < 0 && k >= -N) { for (int i = 0; i < N; i++) if (i == k + N) CHECK(is_elem(r, src, i), "a negative position counts from the end"); }
    else CHECK(IS_ERR(r) || null_atom(r), "a position out of range gives null or an error");
    DONE(r);
}
void q_ats(void) {
    INIT();
    src = make(N);
    obj_p ix = vf_vec(TYPE_I64, 3), r = ray_at(src, ix);
    b8_t all = 1;
    for (int j = 0; j < 3; j++) all &= AS_I64(ix)[j] >= 0 && AS_I64(ix)[j] < N;
    CHECK(!all || !IS_ERR(r), "positions in range are accepted");
    if (!IS_ERR(r)) {
        CHECK(r->type == OUT && r->len == 3, "indexing by positions keeps the type");
        for (int j = 0; j < 3; j++) {
            i64_t k = AS_I64(ix)[j];
            if (k < 0 || k >= N) CHECK(is_null_slot(r, j), "a position out of range gives null");
            for (int i = 0; i < N; i++) if (i == k) CHECK(same(r, j, src, i), "indexing by positions gives their elements");
        }
    }
    DONE(r);
}
void q_filter(void) {
    INIT();
    src = make(N);
    i64_t s = nd_in(0, (1 << N) - 1);
    obj_p m = B8(N), r = NULL_OBJ;
    for (int k = 0; k < 1 << N; k++)
        if (s == k) {
            for (int i = 0; i < N; i++) AS_B8(m)[i] = k >> i & 1;
            r = ray_filter(src, m);
            int c = 0;
            for (int i = 0; i < N; i++)
                if (k >> i & 1) { CHECK(r->type == OUT && c < r->len && same(r, c, src, i), "a mask keeps the marked elements in order"); c++; }
            CHECK(r->type == OUT && r->len == c, "and no others");
        }
    r = ray_filter(src, vf_vec(TYPE_B8, N + 1));
    CHECK(IS_ERR(r), "a mask of another length is rejected");
    DONE(r);
}
void q_reverse(void) {
    INIT();
    src = make(N);
    obj_p r = ray_reverse(src);
    if (T == TYPE_I16 || T == TYPE_GUID) CHECK(IS_ERR(r) || r->type == OUT, "");
    else CHECK(r->type == OUT && r->len == N, "reversing keeps type and length");
    if (!IS_ERR(r)) for (int i = 0; i < N; i++) CHECK(same(r, i, src, N - 1 - i), "reversing gives the elements from last to first");
    DONE(r);
}
void q_take(void) {
    INIT();
    src = make(N);
    i64_t n = nd_in(-6, 6), m = n < 0 ? -n : n;
    int w = (int)nd_in(0, 2);
    obj_p r = ray_take(src, w == 0 ? i64(n) : w == 1 ? i32((i32_t)n) : i16((i16_t)n));
    if (N == 0) CHECK(r->type == OUT && r->len == 0, "there is nothing to take from an empty sequence");
    else {
        CHECK(r->type == OUT && r->len == m, "taking gives as many elements as asked");
        for (int i = 0; i < 6; i++)   // forwards, or so that the last taken is the last element
            if (i < m) { i64_t e = n < 0 ? ((i - m) % N + N) % N : i % N; for (int k = 0; k < N; k++) if (k == e) CHECK(same(r, i, src, k), "taking goes round the sequence, from its start or up to its end"); }
    }
    DONE(r);
}
void q_range(void) {
    INIT();
    src = make(N);
    i64_t s = nd_i64(), n = nd_i64();
    obj_p c = I64(2), r;
    AS_I64(c)[0] = s, AS_I64(c)[1] = n;
    r = ray_take(src, c);
    if (n < 0) CHECK(IS_ERR(r), "a negative amount is rejected");
    else {
        i64_t b = s < -N ? 0 : s < 0 ? s + N : s > N ? N : s, l = n > N - b ? N - b : n;
        CHECK(r->type == OUT && r->len == l, "a range is clipped to the sequence");
        for (int i = 0; i < N; i++) if (i < l) for (int k = 0; k < N; k++) if (k == b + i) CHECK(same(r, i, src, k), "a range keeps its elements");
    }
    DONE(r);
}
// strings: a terminating NUL is not part of the text and is dropped when texts are joined
static void text(obj_p v) { if (T == TYPE_C8 && v->type == TYPE_C8) for (int i = 0; i < v->len; i++) ASSUME(AS_C8(v)[i] != 0); }
void q_concat(void) {
    INIT();
    src = make(N);
    obj_p y = make(2), r, a;
    text(src), text(y);
    r = ray_concat(src, y);
    CHECK(r->type == OUT && r->len == N + 2, "joining keeps the type");
    for (int i = 0; i < N; i++) CHECK(same(r, i, src, i), "joining gives the first");
    for (int i = 0; i < 2; i++) CHECK(same(r, N + i, y, i), "and then the second");
#ifndef LISTS
    a = T == TYPE_GUID ? guid(AS_GUID(y)[0]) : vf_slot(y, 0);
    r = ray_concat(src, a);
    CHECK(r->type == T && r->len == N + 1 && vf_slot_is(r, N, a), "appending a scalar");
    for (int i = 0; i < N; i++) CHECK(same(r, i, src, i), "after the vector");
    r = ray_concat(a, src);
    CHECK(r->type == T && r->len == N + 1 && vf_slot_is(r, 0, a), "prepending a scalar");
    for (int i = 0; i < N; i++) CHECK(same(r, i + 1, src, i), "before the vector");
    r = ray_concat(a, a);
    CHECK(r->type == T && r->len == 2 && vf_slot_is(r, 0, a) && vf_slot_is(r, 1, a), "two scalars make a vector");
#else
    a = i64(nd_i64());
    r = ray_concat(src, a);
    CHECK(r->type == TYPE_LIST && r->len == N + 1 && AS_LIST(r)[N] == a, "appending to a list");
    r = ray_concat(a, src);
    CHECK(r->type == TYPE_LIST && r->len == N + 1 && AS_LIST(r)[0] == a, "prepending to a list");
#endif
    DONE(r);
}
#ifndef K
#define K 2
#endif
#ifndef IT
#define IT TYPE_I64
#endif
static i64_t pos(obj_p v, int i) { return IT == TYPE_I64 ? AS_I64(v)[i] : IT == TYPE_I32 ? AS_I32(v)[i] : AS_I16(v)[i]; }
static void setpos(obj_p v, int i, i64_t p) { if (IT == TYPE_I64) AS_I64(v)[i] = p; else if (IT == TYPE_I32) AS_I32(v)[i] = (i32_t)p; else AS_I16(v)[i] = (i16_t)p; }
#ifdef BADCUT
static obj_p dropped;
void drop_obj(obj_p o) {
    if (o == src) return;
    dropped = o;
    for (i64_t i = 0; i < K; i++) if (i < o->len) CHECK(AS_LIST(o)[i] != NULL, "nothing but complete parts is released");
}
void q_badcut(void) {
    INIT();
    src = make(N);
    obj_p y = vf_vec(IT, K), r;
    b8_t ok = K <= N && pos(y, 0) >= 0 && pos(y, 0) < N;
    for (int i = 0; i < K; i++) ok = ok && pos(y, i) <= N && (i == 0 || pos(y, i) >= pos(y, i - 1));
    ASSUME(!ok);
    r = ray_split(src, y);
    CHECK(IS_ERR(r), "positions that do not rise within the sequence are rejected");
    DONE(r);
}
#endif
void q_cut(void) {
    INIT();
    src = make(N);
    obj_p y = vf_vec(IT, K), r = NULL_OBJ;
    i64_t w = nd_in(0, N * 25);
    for (int k = 0; k < N * (K > 1 ? N + 1 : 1) * (K > 2 ? N + 1 : 1); k++) {
        int q[3] = {k % N, k / N % (N + 1), k / N / (N + 1)};
        if ((K > 1 && q[1] < q[0]) || (K > 2 && q[2] < q[1]) || w != k) continue;
        for (int i = 0; i < K; i++) setpos(y, i, q[i]);
        r = ray_split(src, y);
        CHECK(r->type == TYPE_LIST && r->len == K, "rising positions give as many parts");
        for (int i = 0; i < K; i++) {
            i64_t b = q[i], e = i + 1 < K ? q[i + 1] : N;
            obj_p p = AS_LIST(r)[i];
#ifndef LISTS
            CHECK(p->type == T && p->len == e - b, "every part has the type of the source and its length");
            for (int j = 0; j < e - b; j++) CHECK(same(p, j, src, b + j), "the parts are the source cut at the positions");
#else
            CHECK(p->len == e - b, "every part has its length");
            for (int j = 0; j < e - b; j++) CHECK(p->type == TYPE_I64 ? AS_I64(p)[j] == AS_LIST(src)[b + j]->i64 : AS_LIST(p)[j] == AS_LIST(src)[b + j], "the parts are the source cut at the positions");
#endif
        }
    }
    DONE(r);
}
#ifndef LISTS
void q_raze(void) {
    INIT();
    src = make(N);
    obj_p l = LIST(3), b = make(0), c = make(2), r;
    AS_LIST(l)[0] = src, AS_LIST(l)[1] = b, AS_LIST(l)[2] = c;
    r = ray_raze(l);
    CHECK(r->type == T && r->len == N + 2, "joining a list of vectors gives one vector");
    for (int i = 0; i < N; i++) CHECK(same(r, i, src, i), "of the elements of the first");
    for (int i = 0; i < 2; i++) CHECK(same(r, N + i, c, i), "then of the others");
    DONE(r);
}
#endif
void q_ends(void) {
    INIT();
    src = make(N);
    obj_p f = ray_first(src), l = ray_last(src);
    if (N == 0) CHECK(null_atom(f) && null_atom(l), "an empty sequence has no first and last element");
    else CHECK(is_elem(f, src, 0) && is_elem(l, src, N ? N - 1 : 0), "first and last element");
    DONE(f);
}
void q_where(void) {
    INIT();
    src = vf_vec(TYPE_B8, 4);
    obj_p r = ray_where(src);
    int c = 0;
    CHECK(r->type == TYPE_I64, "positions of a mask");
    for (int i = 0; i < 4; i++) if (AS_B8(src)[i]) { CHECK(c < r->len && AS_I64(r)[c] == i, "the positions are those set, rising"); c++; }
    CHECK(r->len == c, "and no others");
    REACH();
}
void q_til(void) {
    INIT();
    i64_t n = nd_in(-2, 6);
    for (int k = -2; k <= 6; k++) {
        if (n != k) continue;
        obj_p r = ray_til(i64(k));
        if (k < 0) CHECK(IS_ERR(r), "a negative count is rejected");
        else {
            CHECK(r->type == TYPE_I64 && r->len == k, "as many numbers as asked");
            for (int i = 0; i < k; i++) CHECK(AS_I64(r)[i] == i, "from 0 upwards");
        }
    }
    REACH();
}
obj_p __til(obj_p x, obj_p filter);
void q_tilf(void) {  // the rows a filter kept
    INIT();
    obj_p f = vf_vec(TYPE_I64, 4), r = __til(i64(9), f);
    CHECK(r->type == TYPE_I64 && r->len == 4, "one number for each kept row");
    for (int i = 0; i < 4; i++) CHECK(AS_I64(r)[i] == AS_I64(f)[i], "the kept rows in their order");
    REACH();
}
