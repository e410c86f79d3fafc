// P08: vector arithmetic.  OPN is the operation; the reference is the same operation
// on the scalars (P07 says what those give).
#include "vf.h"
#include "core/math.h"
#include "arith_table.h"
#ifdef POOL
#include "vf_pool.h"
#define INIT vf_init_pool
#else
#define INIT vf_init
#endif
#if OPN == 0
#define FN ray_add
#define TABLE ARITH_ADD
#elif OPN == 1
#define FN ray_sub
#define TABLE ARITH_SUB
#elif OPN == 2
#define FN ray_mul
#define TABLE ARITH_MUL
#elif OPN == 3
#define FN ray_div
#define TABLE ARITH_DIV
#elif OPN == 4
#define FN ray_fdiv
#define TABLE ARITH_FDIV
#elif OPN == 5
#define FN ray_mod
#define TABLE ARITH_MOD
#else
#define FN ray_xbar
#define TABLE ARITH_XBAR
#endif
#define IS_32(t) ((t) == TYPE_I32 || (t) == TYPE_DATE || (t) == TYPE_TIME)
#define IS_64(t) ((t) == TYPE_I64 || (t) == TYPE_TIMESTAMP)
// as in P07: a 64-bit operand combined into a 32-bit result fits the 32 bits
static void restrict_range(obj_p a, i8_t t, i8_t o, i8_t rt) {
    if (IS_64(t) && (IS_32(rt) || rt == TYPE_I16 || IS_32(o) || o == TYPE_I16)) ASSUME(a->i64 == NULL_I64 || (a->i64 > -2147483648ll && a->i64 <= 2147483647ll));
}
// split work: values from a small range (the range is covered without splitting)
#ifndef UCONC
#define UCONC 0
#endif
static u64_t small_bits(i8_t t) {
    if (OPN >= 2 || UCONC) {   // dividers: fixed values, only the schedule is symbolic
        static const i8_t C[16] = {7, 0, 5, 3, 2, -9, 4, 1, -6, 0, 8, -2, 11, 6, 3, -4};
        static int ci;
        i8_t c = C[ci++ & 15];
        if (c == 4 && t == TYPE_F64) return (u64_t)f64_bits(NULL_F64);
        if (c == 4 && t != TYPE_U8) return t == TYPE_I16 ? (u64_t)(i64_t)NULL_I16 : IS_32(t) ? (u64_t)(i64_t)NULL_I32 : (u64_t)NULL_I64;
        return t == TYPE_F64 ? (u64_t)f64_bits(c + 0.5) : (u64_t)(i64_t)c;
    }
    i8_t k = nd_i8();
    if (t == TYPE_F64) return k == -128 ? (u64_t)f64_bits(NULL_F64) : (u64_t)k << 60;
    return k == -128 ? t == TYPE_I16 ? (u64_t)(i64_t)NULL_I16 : IS_32(t) ? (u64_t)(i64_t)NULL_I32 : (u64_t)NULL_I64 : (u64_t)(i64_t)(k >> 3);
}
static void put(obj_p v, i64_t i, i8_t t, u64_t b) {
    raw_p p = v->type < 0 ? (raw_p)&v->u8 : AS_U8(v);
    switch (t) {
        case TYPE_U8: case TYPE_B8: ((u8_t *)p)[i] = (u8_t)b; break;
        case TYPE_I16: ((i16_t *)p)[i] = (i16_t)b; break;
        case TYPE_I32: case TYPE_DATE: case TYPE_TIME: ((i32_t *)p)[i] = (i32_t)b; break;
        default: ((i64_t *)p)[i] = (i64_t)b; break;
    }
}
#ifdef POOL
static obj_p mk_vec(i8_t t) { obj_p v = vector(t, N); for (int i = 0; i < N; i++) put(v, i, t, small_bits(t)); return v; }
static obj_p mk_atom(i8_t t) { obj_p v = atom(t); put(v, 0, t, small_bits(t)); return v; }
#else
static obj_p mk_vec(i8_t t) { return vf_vec(t, N); }
static obj_p mk_atom(i8_t t) { return vf_atom(t); }
#endif
static b8_t same(obj_p v, i64_t i, obj_p a) {
    switch (a->type) {
        case -TYPE_U8: return AS_U8(v)[i] == a->u8;
        case -TYPE_I16: return AS_I16(v)[i] == a->i16;
        case -TYPE_I32: case -TYPE_DATE: case -TYPE_TIME: return AS_I32(v)[i] == a->i32;
        case -TYPE_F64: return (AS_F64(v)[i] != AS_F64(v)[i] && a->f64 != a->f64) || AS_F64(v)[i] == a->f64;
        default: return AS_I64(v)[i] == a->i64;
    }
}
static void pair(i8_t tx, i8_t ty, i8_t rt) {
    obj_p x, y, a = mk_atom(tx), b = mk_atom(ty), xs[N], ys[N], e, r;
    x = mk_vec(tx);
    y = mk_vec(ty);
    restrict_range(a, tx, ty, rt);
    restrict_range(b, ty, tx, rt);
    for (int i = 0; i < N; i++) {
        xs[i] = vf_slot(x, i), ys[i] = vf_slot(y, i);
        restrict_range(xs[i], tx, ty, rt);
        restrict_range(ys[i], ty, tx, rt);
    }
    // the operands are shared: they must keep their contents
    clone_obj(x);
    clone_obj(y);
    r = FN(x, y);
    CHECK(!IS_ERR(r) && r->type == rt && r->len == N, "two vectors give a vector of their length and the documented type");
    for (int i = 0; i < N; i++) { e = FN(xs[i], ys[i]); CHECK(same(r, i, e), "vector with vector, element by element"); }
    r = FN(a, y);
    CHECK(!IS_ERR(r) && r->type == rt && r->len == N, "a scalar and a vector give a vector of its length and the documented type");
    for (int i = 0; i < N; i++) { e = FN(a, ys[i]); CHECK(same(r, i, e), "scalar with vector, element by element"); }
    r = FN(x, b);
    CHECK(!IS_ERR(r) && r->type == rt && r->len == N, "a vector and a scalar give a vector of its length and the documented type");
    for (int i = 0; i < N; i++) { e = FN(xs[i], b); CHECK(same(r, i, e), "vector with scalar, element by element"); }
    CHECK(x->type == tx && y->type == ty && x->len == N && y->len == N && x->rc == 2 && y->rc == 2, "shared operands keep their shape");
    for (int i = 0; i < N; i++) CHECK(vf_slot_is(x, i, xs[i]) && vf_slot_is(y, i, ys[i]), "shared operands keep their contents");
}
// operands nobody else refers to may be reused for the result: which must not change it
static void own(i8_t tx, i8_t ty, i8_t rt, int shape) {
    obj_p x = vf_vec(tx, N), y = vf_vec(ty, N), a = vf_atom(tx), b = vf_atom(ty), xs[N], ys[N], e[N], r;
    restrict_range(a, tx, ty, rt);
    restrict_range(b, ty, tx, rt);
    for (int i = 0; i < N; i++) {
        xs[i] = vf_slot(x, i), ys[i] = vf_slot(y, i);
        restrict_range(xs[i], tx, ty, rt);
        restrict_range(ys[i], ty, tx, rt);
        e[i] = shape == 0 ? FN(xs[i], ys[i]) : shape == 1 ? FN(a, ys[i]) : FN(xs[i], b);
    }
    if (shape == 0 && nd_b8()) clone_obj(x);
    r = shape == 0 ? FN(x, y) : shape == 1 ? FN(a, y) : FN(x, b);
    CHECK(!IS_ERR(r) && r->type == rt && r->len == N, "a vector of the operands' length and the documented type");
    for (int i = 0; i < N; i++) CHECK(same(r, i, e[i]), "element by element");
    if (x->rc == 2 && r != x) for (int i = 0; i < N; i++) CHECK(vf_slot_is(x, i, xs[i]), "the shared operand keeps its contents");
}
#define ROW(a, b, r) void h_##a##_##b(void) { INIT(); pair(TYPE_##a, TYPE_##b, TYPE_##r); REACH(); } \
    void o_##a##_##b(void) { INIT(); own(TYPE_##a, TYPE_##b, TYPE_##r, SHAPE); REACH(); }
#ifndef SHAPE
#define SHAPE 0
#endif
TABLE(ROW)
void h_LEN(void) {
    INIT();
    obj_p x = vf_vec(TYPE_I64, N), y = vf_vec(TYPE_I64, N + 1);
    CHECK(IS_ERR(FN(x, y)) && IS_ERR(FN(y, x)), "vectors of different lengths are rejected");
    CHECK(x->len == N && y->len == N + 1 && x->rc == 1 && y->rc == 1, "a rejected operation leaves its operands alone");
    obj_p e = vf_vec(TYPE_I64, 0), r = FN(clone_obj(e), clone_obj(e));
    CHECK(r->len == 0 && r->type > 0, "empty vectors give an empty vector");
    REACH();
}
#ifdef UFN
obj_p UFN(obj_p x);
void h_un(void) {
    INIT();
    obj_p x = mk_vec(UT), xs[N], r, e;
    for (int i = 0; i < N; i++) xs[i] = vf_slot(x, i);
    b8_t shared = UCONC ? 1 : nd_b8();
    if (shared) clone_obj(x);
    r = UFN(x);
    CHECK(!IS_ERR(r) && r->len == N, "a vector gives a vector of its length");
    for (int i = 0; i < N; i++) {
        e = UFN(xs[i]);
        CHECK(r->type == -e->type && same(r, i, e), "element by element");
        if (shared) CHECK(vf_slot_is(x, i, xs[i]), "a shared operand keeps its contents");
    }
    REACH();
}
#endif
