// P32: casts.
#include "vf.h"
#include "core/compose.h"
#include "core/env.h"
#define IS_32(t) ((t) == TYPE_I32 || (t) == TYPE_DATE || (t) == TYPE_TIME)
#define IS_64(t) ((t) == TYPE_I64 || (t) == TYPE_TIMESTAMP)
#define IS_8(t) ((t) == TYPE_B8 || (t) == TYPE_U8)
static i8_t dst_type;
i8_t env_get_type_by_type_name(env_t *e, i64_t name) { (void)e; (void)name; return dst_type; }
static b8_t null_of(obj_p a, i8_t t) {
    return t == TYPE_I16 ? a->i16 == NULL_I16 : IS_32(t) ? a->i32 == NULL_I32 : IS_64(t) ? a->i64 == NULL_I64 : t == TYPE_F64 ? a->f64 != a->f64 : 0;
}
static i64_t ival(obj_p a, i8_t t) { return IS_8(t) ? a->u8 : t == TYPE_C8 ? a->c8 : t == TYPE_I16 ? a->i16 : IS_32(t) ? a->i32 : a->i64; }
static b8_t has_null(i8_t t) { return t == TYPE_I16 || IS_32(t) || IS_64(t) || t == TYPE_F64; }
// doubles that a conversion to the target type is defined for
static void restrict_double(obj_p a, i8_t s, i8_t d) {
    if (s != TYPE_F64 || d == TYPE_F64 || d == TYPE_B8) return;
    f64_t lo = d == TYPE_C8 ? -128.0 : IS_8(d) ? 0.0 : d == TYPE_I16 ? -32768.0 : IS_32(d) ? -2147483648.0 : -9223372036854775808.0;
    f64_t hi = d == TYPE_C8 ? 127.0 : IS_8(d) ? 255.0 : d == TYPE_I16 ? 32767.0 : IS_32(d) ? 2147483647.0 : 9223372036854774784.0;
    ASSUME((a->f64 >= lo && a->f64 <= hi) || (has_null(d) && a->f64 != a->f64));
}
static void check_one(obj_p a, i8_t s, obj_p r, i8_t d) {
    if (d == TYPE_B8) {
        if (s == TYPE_F64 ? a->f64 != 0.0 : ival(a, s) != 0) CHECK(r->b8 == 1, "a value that is not zero is true");
        else CHECK(r->b8 == 0, "zero is false");
        return;
    }
    if (null_of(a, s)) {
        if (has_null(d)) CHECK(null_of(r, d), "null becomes the null of the target type");
        return;
    }
    if (d == TYPE_F64) {
        if (s == TYPE_F64) CHECK(r->f64 == a->f64, "the same value");
        else if (IS_8(s)) CHECK(r->f64 == (f64_t)a->u8, "a whole number becomes the double of the same value");
        else if (s == TYPE_I16) CHECK(r->f64 == (f64_t)a->i16, "a whole number becomes the double of the same value");
        else if (IS_32(s)) CHECK(r->f64 == (f64_t)a->i32, "a whole number becomes the double of the same value");
        else CHECK(r->f64 == (f64_t)a->i64, "a whole number becomes the nearest double");
        return;
    }
    i64_t v;
    if (s == TYPE_F64) v = d == TYPE_C8 ? (c8_t)a->f64 : IS_8(d) ? (u8_t)a->f64 : d == TYPE_I16 ? (i16_t)a->f64 : IS_32(d) ? (i32_t)a->f64 : (i64_t)a->f64;
    else v = ival(a, s);
    b8_t fits = d == TYPE_C8 ? (v >= -128 && v <= 127) : IS_8(d) ? (v >= 0 && v <= 255) : d == TYPE_I16 ? (v >= -32767 && v <= 32767) : IS_32(d) ? (v >= -2147483647ll && v <= 2147483647ll) : 1;
    if (s == TYPE_B8 && d == TYPE_C8) CHECK(r->c8 == (a->u8 ? '1' : '0'), "a boolean becomes its digit");
    else if (fits) CHECK(ival(r, d) == v, "a value that fits is unchanged");
}
#if defined(ATOM)
void harness(void) {
    vf_init();
    obj_p a = vf_atom(ST);
    restrict_double(a, ST, DT);
    i64_t bits = a->i64;
    obj_p r = cast_obj(-DT, a);
    CHECK(r->type == -DT, "a supported cast gives the target type");
    check_one(a, ST, r, DT);
    CHECK(a->type == -ST && a->rc == 1 + (ST == DT) && a->i64 == bits, "the operand is unchanged");
    REACH();
}
#elif defined(VEC)
void harness(void) {
    vf_init();
    obj_p x = vf_vec(ST, N), xs[N], r;
    for (int i = 0; i < N; i++) { xs[i] = vf_slot(x, i); restrict_double(xs[i], ST, DT); }
#ifdef OPERATOR
    obj_p nm = vf_atom(TYPE_SYMBOL);
    dst_type = OPERATOR * DT;
    r = ray_cast_obj(nm, x);
#else
    r = cast_obj(DT, x);
#endif
    CHECK(r->type == DT && r->len == N, "casting a vector gives a vector of the target type and the same length");
    for (int i = 0; i < N; i++) {
        check_one(xs[i], ST, vf_slot(r, i), DT);
    }
    CHECK(x->type == ST && x->len == N, "the operand is unchanged");
    REACH();
}
#elif defined(LST)
// a list is cast element by element
void harness(void) {
    vf_init();
    obj_p l = LIST(2), a = vf_atom(ST), b = vf_atom(ST2), r;
    restrict_double(a, ST, DT);
    restrict_double(b, ST2, DT);
    AS_LIST(l)[0] = a, AS_LIST(l)[1] = b;
    r = cast_obj(DT, l);
    CHECK(r->type == DT && r->len == 2, "casting a list gives a vector of the target type and the same length");
    check_one(a, ST, vf_slot(r, 0), DT);
    check_one(b, ST2, vf_slot(r, 1), DT);
    CHECK(l->type == TYPE_LIST && l->len == 2 && AS_LIST(l)[0] == a && AS_LIST(l)[1] == b, "the operand is unchanged");
    REACH();
}
#elif defined(BAD)
void harness(void) {
    vf_init();
    obj_p a = BAD < 0 ? vf_atom(-(BAD)) : vf_vec(BAD, 2);
    obj_p r = cast_obj(BADT, a);
    CHECK(r->type == TYPE_ERR, "an unsupported cast is an error");
    CHECK(a->type == BAD && a->rc == 1, "and changes nothing");
    REACH();
}
#endif
