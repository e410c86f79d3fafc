// P07: scalar arithmetic.  OPN is the operation; every pair of operand types of
// arith_table.h selected by SEL(tx, ty) is run with arbitrary operand values.
#include "vf.h"
#include <math.h>
#include "core/math.h"
#include "arith_table.h"
#define OP_ADD 0
#define OP_SUB 1
#define OP_MUL 2
#define OP_DIV 3
#define OP_FDIV 4
#define OP_MOD 5
#define OP_XBAR 6
#if OPN == OP_ADD
#define FN ray_add
#define TABLE ARITH_ADD
#elif OPN == OP_SUB
#define FN ray_sub
#define TABLE ARITH_SUB
#elif OPN == OP_MUL
#define FN ray_mul
#define TABLE ARITH_MUL
#elif OPN == OP_DIV
#define FN ray_div
#define TABLE ARITH_DIV
#elif OPN == OP_FDIV
#define FN ray_fdiv
#define TABLE ARITH_FDIV
#elif OPN == OP_MOD
#define FN ray_mod
#define TABLE ARITH_MOD
#else
#define FN ray_xbar
#define TABLE ARITH_XBAR
#endif
#define NS_DAY 86400000000000ll
#define NS_MS 1000000ll
#define IS_F(t) ((t) == TYPE_F64)
#define IS_32(t) ((t) == TYPE_I32 || (t) == TYPE_DATE || (t) == TYPE_TIME)
#define IS_64(t) ((t) == TYPE_I64 || (t) == TYPE_TIMESTAMP)

static i64_t ival(obj_p a, i8_t t) {
    if (t == TYPE_U8 || t == TYPE_B8) return a->u8;
    if (t == TYPE_I16) return a->i16;
    if (IS_32(t)) return a->i32;
    return a->i64;
}
static b8_t inull(obj_p a, i8_t t) {
    if (t == TYPE_U8 || t == TYPE_B8) return 0;
    if (t == TYPE_I16) return a->i16 == NULL_I16;
    if (IS_32(t)) return a->i32 == NULL_I32;
    if (IS_F(t)) return a->f64 != a->f64;
    return a->i64 == NULL_I64;
}
static f64_t fval(obj_p a, i8_t t) {  // null maps to the null of F64
    if (IS_F(t)) return a->f64;
    if (t == TYPE_U8 || t == TYPE_B8) return (f64_t)a->u8;
    if (t == TYPE_I16) return a->i16 == NULL_I16 ? NULL_F64 : (f64_t)a->i16;
    if (IS_32(t)) return a->i32 == NULL_I32 ? NULL_F64 : (f64_t)a->i32;
    return a->i64 == NULL_I64 ? NULL_F64 : (f64_t)a->i64;
}
static i16_t wval16(obj_p a, i8_t t) { return t == TYPE_U8 || t == TYPE_B8 ? (i16_t)a->u8 : a->i16; }
static i32_t wval32(obj_p a, i8_t t) {
    if (t == TYPE_U8 || t == TYPE_B8) return a->u8;
    if (t == TYPE_I16) return a->i16 == NULL_I16 ? NULL_I32 : a->i16;
    if (IS_32(t)) return a->i32;
    return a->i64 == NULL_I64 ? NULL_I32 : (i32_t)a->i64;
}
static i64_t wval64(obj_p a, i8_t t) {
    if (t == TYPE_U8 || t == TYPE_B8) return a->u8;
    if (t == TYPE_I16) return a->i16 == NULL_I16 ? NULL_I64 : a->i16;
    if (IS_32(t)) return a->i32 == NULL_I32 ? NULL_I64 : a->i32;
    return a->i64;
}
// the value in the unit of the result
static i64_t in_unit(obj_p a, i8_t t, i8_t r) {
    if (r == TYPE_TIMESTAMP && t == TYPE_DATE) return a->i32 == NULL_I32 ? NULL_I64 : NS_DAY * (i64_t)a->i32;
    if (r == TYPE_TIMESTAMP && t == TYPE_TIME) return a->i32 == NULL_I32 ? NULL_I64 : NS_MS * (i64_t)a->i32;
    return wval64(a, t);
}
static void restrict_range(obj_p a, i8_t t, i8_t TX, i8_t RT) {
#ifdef IBITS  // magnitude bound on integer operands
    if (!IS_F(t)) { i64_t v = ival(a, t); ASSUME(inull(a, t) || (v >= -(1ll << (IBITS)) && v <= (1ll << (IBITS)))); }
#endif
#ifdef FBITS  // significant bits of double operands (sign and exponent unrestricted; infinities and NaN included)
    if (IS_F(t)) ASSUME(inull(a, t) || (f64_bits(a->f64) & ((1ll << (52 - (FBITS))) - 1)) == 0);
#endif
    // a wide integer operand combined into a narrower result: only values that fit are specified
    if (IS_64(t) && (IS_32(RT) || RT == TYPE_I16) && OPN != OP_DIV && OPN != OP_MOD && OPN != OP_XBAR)
        ASSUME(inull(a, t) || (a->i64 > -2147483648ll && a->i64 <= 2147483647ll));
    if (IS_64(t) && TX == TYPE_TIME && (OPN == OP_DIV || OPN == OP_MOD))
        ASSUME(inull(a, t) || (a->i64 > -2147483648ll && a->i64 <= 2147483647ll));
}
#define FITS32(e) ((e) > -2147483648ll && (e) <= 2147483647ll)
#define FLOORDIV(a, b) ((a) / (b) - ((((a) < 0) != ((b) < 0) && (a) % (b) != 0) ? 1 : 0))
#if OPN == OP_ADD
#define REF(a, b) ((a) + (b))
#elif OPN == OP_SUB
#define REF(a, b) ((a) - (b))
#elif OPN == OP_MUL
#define REF(a, b) ((a) * (b))
#elif OPN == OP_MOD
#define REF(a, b) ((a) - FLOORDIV(a, b) * (b))
#elif OPN == OP_XBAR
#define REF(a, b) (FLOORDIV(a, b) * (b))
#else
#define REF(a, b) FLOORDIV(a, b)
#endif
static void pair(i8_t TX, i8_t TY, i8_t RT) {
    obj_p x = vf_atom(TX), y = vf_atom(TY);
    restrict_range(x, TX, TX, RT);
    restrict_range(y, TY, TX, RT);
#ifdef YCONST
    if (IS_F(TY)) y->f64 = (f64_t)(YCONST);
    else if (IS_32(TY)) y->i32 = YCONST;
    else if (TY == TYPE_I16) y->i16 = YCONST;
    else if (TY == TYPE_U8) y->u8 = (u8_t)(YCONST);
    else y->i64 = YCONST;
#endif
    obj_p r = FN(x, y);
    if (RT == 0) {
        CHECK(IS_ERR(r), "an unsupported pair of operand types is rejected");
        return;
    }
    CHECK(r != NULL && r->type == -RT, "the result has the documented type");
    b8_t nx = inull(x, TX), ny = inull(y, TY);
    b8_t zero = IS_F(TY) ? (y->f64 == 0.0) : (!ny && ival(y, TY) == 0);
    if (RT != TYPE_U8 && (nx || ny)) CHECK(inull(r, RT), "a null operand gives the null of the result type");
    if ((OPN == OP_DIV || OPN == OP_FDIV || OPN == OP_MOD || OPN == OP_XBAR) && zero) {
        if (RT == TYPE_U8) CHECK(r->u8 == 0, "division by zero of a type without null gives 0");
        else CHECK(inull(r, RT), "division by zero gives null");
    } else if (!nx && !ny) {
        // The reference below follows the same conversions in the same widths as the
        // documented result type, so that the solver sees identical circuits on both sides.
        if (IS_F(RT) || IS_F(TX) || IS_F(TY) || OPN == OP_FDIV) {
            b8_t w = IS_64(TX) || IS_64(TY);
            f64_t a = IS_F(TX) || IS_F(TY) || !w ? fval(x, TX) : (f64_t)wval64(x, TX), b = IS_F(TX) || IS_F(TY) || !w ? fval(y, TY) : (f64_t)wval64(y, TY), e;
#if OPN == OP_ADD
            e = a + b;
#elif OPN == OP_SUB
            e = a - b;
#elif OPN == OP_MUL
            e = a * b;
#elif OPN == OP_FDIV
            e = a / b;
#elif OPN == OP_DIV
            e = floor(a / b);
#elif OPN == OP_MOD
            e = a - floor(a / b) * b;
#else
            e = floor(a / b) * b;
#endif
            if (IS_F(RT)) CHECK((r->f64 != r->f64 && e != e) || r->f64 == e, "the double result is the correctly rounded one");
            else if (IS_32(RT)) { if (e > -2147483648.0 && e <= 2147483647.0) CHECK(r->i32 == (i32_t)e, "the quotient is the floor of the exact one"); }
            else if (RT == TYPE_I16) { if (e > -32768.0 && e <= 32767.0) CHECK(r->i16 == (i16_t)e, "the quotient is the floor of the exact one"); }
            else if (RT == TYPE_U8) { if (e >= 0.0 && e <= 255.0) CHECK(r->u8 == (u8_t)e, "the quotient is the floor of the exact one"); }
            else { if (e > -9.0e18 && e < 9.0e18) CHECK(r->i64 == (i64_t)e, "the quotient is the floor of the exact one"); }
        } else {
#if OPN <= OP_MUL
#define WIDE IS_64(RT)
#else
#define WIDE (IS_64(RT) || IS_64(TX) || (IS_64(TY) && !(TX == TYPE_TIME && OPN != OP_XBAR)))
#endif
            if (WIDE) {
                i64_t a = OPN == OP_MUL ? wval64(x, TX) : in_unit(x, TX, RT), b = OPN == OP_MUL ? wval64(y, TY) : in_unit(y, TY, RT);
                i64_t e = REF(a, b);
                if (IS_64(RT)) CHECK(r->i64 == e, "exact modulo 2^64");
                else if (IS_32(RT)) { if (FITS32(e)) CHECK(r->i32 == (i32_t)e, "exact in 32 bits"); }
                else if (RT == TYPE_I16) CHECK(r->i16 == (i16_t)e, "exact modulo 2^16");
                else CHECK(r->u8 == (u8_t)e, "exact modulo 2^8");
            } else if (RT == TYPE_I16) {
                i16_t a = wval16(x, TX), b = wval16(y, TY);
                CHECK(r->i16 == (i16_t)(REF(a, b)), "exact modulo 2^16");
            } else if (RT == TYPE_U8 && OPN > OP_MUL) {
                CHECK(r->u8 == (u8_t)(OPN == OP_DIV ? x->u8 / y->u8 : x->u8 % y->u8), "exact");
            } else {
                i32_t a = wval32(x, TX), b = wval32(y, TY);
                i32_t e = REF(a, b);
                if (IS_32(RT)) CHECK(r->i32 == e, "exact modulo 2^32");
                else if (RT == TYPE_I16) CHECK(r->i16 == (i16_t)e, "exact modulo 2^16");
                else CHECK(r->u8 == (u8_t)e, "exact modulo 2^8");
            }
        }
    }
}
// one entry point per supported pair of operand types
#define ROW(a, b, r) void h_##a##_##b(void) { vf_init(); pair(TYPE_##a, TYPE_##b, TYPE_##r); REACH(); }
TABLE(ROW)
// every unsupported pair with the given left type is rejected
static void unsupported(i8_t tx) {
    static const i8_t T[] = {TYPE_B8, TYPE_U8, TYPE_C8, TYPE_I16, TYPE_I32, TYPE_I64, TYPE_SYMBOL, TYPE_DATE, TYPE_TIME, TYPE_TIMESTAMP, TYPE_F64};
    vf_init();
    for (int j = 0; j < 11; j++) {
        b8_t known = 0;
#undef ROW
#define ROW(a, b, r) known |= (TYPE_##a == tx && TYPE_##b == T[j]);
        TABLE(ROW)
        if (!known) pair(tx, T[j], 0);
    }
    REACH();
}
#define U(t) void u_##t(void) { unsupported(TYPE_##t); }
U(B8) U(U8) U(C8) U(I16) U(I32) U(I64) U(SYMBOL) U(DATE) U(TIME) U(TIMESTAMP) U(F64)
