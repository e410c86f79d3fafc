// P20: numbers read from text.  Buffers are exactly as long as the text.
#include "vf.h"
#include "core/string.h"
#include <stdlib.h>
#ifndef LEN
#define LEN 4
#endif
#ifndef PREFIX
#define PREFIX ""
#endif
#define PL ((int)sizeof(PREFIX) - 1)
#define T (LEN + PL)
#ifndef GPOS
#define GPOS 0
#endif
static u8_t *text(void) {
    u8_t *t = (u8_t *)malloc(T);
    b8_t neg = nd_b8();
    for (int i = 0; i < PL; i++) t[i] = (u8_t)PREFIX[i];
    if (PL && neg) t[0] = '-';
    for (int i = PL; i < T; i++) t[i] = nd_u8();
    return t;
}
static b8_t dig(u8_t c) { return c >= '0' && c <= '9'; }
static b8_t spc(u8_t c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
// [space]* [-]? digit+ : the value and the number of characters, or 0 characters
static i64_t ref_int(u8_t *t, i64_t n, i64_t limit, i64_t *v) {
    int st = 0;   // 0 leading space, 1 sign seen, 2 digits, 3 done
    b8_t neg = 0, over = 0;
    i64_t used = 0, start = 0, r = 0;
    (void)start;
    for (i64_t i = 0; i < n; i++) {
        if (st == 0 && spc(t[i])) continue;
        if (st == 0 && t[i] == '-') { neg = 1; st = 1; continue; }
        if (st < 3 && dig(t[i])) {
            i64_t d = t[i] - '0';
            st = 2;
            over |= r > limit / 10 || (r == limit / 10 && d > limit % 10);
            r = (i64_t)((u64_t)r * 10 + (u64_t)d);
            used = i + 1;
        } else st = 3;
    }
    *v = neg ? (i64_t)(0 - (u64_t)r) : r;
    return over ? 0 : used;
}
void h_i64(void) {
    vf_init();
    u8_t *t = text();
    i64_t v = 0, e, got = 12345, n = ref_int(t, T, 9223372036854775807ll, &e);
    v = i64_from_str((lit_p)t, T, &got);
    CHECK(v == n, "as many characters as the number has are consumed, none when there is no number or it does not fit");
    if (n > 0) CHECK(got == e, "the value is the one the text denotes");
    REACH();
}
void h_i32(void) {
    vf_init();
    u8_t *t = text();
    i32_t got = 12345;
    i64_t e, n = ref_int(t, T, 2147483647ll, &e), v = i32_from_str((lit_p)t, T, &got);
    CHECK(v == n, "as many characters as the number has are consumed, none when there is no number or it does not fit");
    if (n > 0) CHECK(got == (i32_t)e, "the value is the one the text denotes");
    REACH();
}
static i64_t hexd(u8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
void h_u8(void) {
    vf_init();
    u8_t *t = text(), got = 77;
    i64_t v = u8_from_str((lit_p)t, T, &got);
    b8_t ok = T >= 2 && hexd(t[0]) >= 0 && hexd(t[T > 1]) >= 0;
    CHECK(v == (ok ? 2 : 0), "two hexadecimal digits or nothing");
    if (ok) CHECK(got == hexd(t[0]) * 16 + hexd(t[T > 1]), "the byte is the one the digits denote");
    REACH();
}
static b8_t is_true(u8_t *t) {
    return T >= 4 && (memcmp(t, "true", 4) == 0 || memcmp(t, "True", 4) == 0 || memcmp(t, "TRUE", 4) == 0);
}
void h_b8(void) {
    vf_init();
    u8_t *t = text();
    b8_t got = 0;
    i64_t v = b8_from_str((lit_p)t, T, &got);
    CHECK(got == is_true(t) && (v == 4) == is_true(t), "only the text true is true");
    REACH();
}
// [space]* [-]? digit* [. digit*]? ([eE][+-]?digit+)?  with at least one digit before the exponent
void h_f64(void) {
    vf_init();
    u8_t *t = text();
    f64_t got = 0.5;
    int st = 0, digits = 0, frac = 0, edig = 0;
    b8_t neg = 0, eneg = 0;
    i64_t used = 0, mant = 0, exp = 0;
    for (i64_t i = 0; i < T; i++) {
        u8_t c = t[i];
        if (st == 0 && spc(c)) continue;
        if (st == 0 && c == '-') { neg = 1; st = 1; continue; }
        if (st <= 2 && dig(c)) { mant = mant * 10 + (c - '0'); digits++; frac += st == 2; if (st < 2) st = 1; used = i + 1; }
        else if (st <= 1 && c == '.') { st = 2; if (digits) used = i + 1; }
        else if (st <= 2 && digits && (c == 'e' || c == 'E')) st = 3;
        else if (st == 3 && (c == '-' || c == '+')) { eneg = c == '-'; st = 4; }
        else if ((st == 3 || st == 4 || st == 5) && dig(c)) { exp = exp * 10 + (c - '0'); edig++; st = 5; used = i + 1; }
        else st = 6;
    }
    if (!digits) used = 0;
    i64_t e = (edig ? (eneg ? -exp : exp) : 0) - frac;
    ASSUME(e >= -22 && e <= 22);   // outside, the conversion is left to the C library
    i64_t v = f64_from_str((lit_p)t, T, &got);
    CHECK(v == used, "as many characters as the number has are consumed, none when there is no number");
    if (used > 0) {
        static const f64_t P[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
        f64_t m = (f64_t)(u64_t)mant, x = e < 0 ? m / P[-e] : m * P[e];
        CHECK(got == (neg ? -1.0 : 1.0) * x, "the value is the double nearest to the one the text denotes");
    }
    REACH();
}
void h_guid(void) {
    vf_init();
    guid_t g;
    u8_t t[36];
    int bad = 0, dashes = 0;
    for (int i = 0; i < 36; i++) t[i] = i == 8 || i == 13 || i == 18 || i == 23 ? '-' : (u8_t)"0123456789abcdef"[i & 15];
    for (int i = GPOS; i < GPOS + 4 && i < 36; i++) if (t[i] != '-') { t[i] = nd_u8(); bad |= hexd(t[i]) < 0; }
    (void)dashes;
    for (int i = 0; i < 36; i++) ASSUME(t[i] != '-' || i == 8 || i == 13 || i == 18 || i == 23);
    i64_t v = guid_from_str((lit_p)t, 36, g);
    CHECK((v == 0) == !bad, "a guid is accepted exactly when all its digits are hexadecimal");
    if (!bad) {
        int k = 0;
        u8_t hi = 0;
        for (int i = 0; i < 36; i++)
            if (t[i] != '-') {
                if (k & 1) CHECK(g[k / 2] == hi * 16 + hexd(t[i]), "the bytes are the ones the digits denote");
                hi = (u8_t)hexd(t[i]);
                k++;
            }
    }
    REACH();
}
// casting a text to a number: the number, or null when it is malformed or does not fit
void h_cast(void) {
    vf_init();
    obj_p x = vector(TYPE_C8, LEN + PL), r;
    u8_t *t = text();
    i64_t e, n;
    for (int i = 0; i < T; i++) AS_U8(x)[i] = t[i];
    n = ref_int(t, T, 9223372036854775807ll, &e);
    r = cast_obj(-TYPE_I64, x);
    CHECK(r->type == -TYPE_I64 && r->i64 == (n > 0 ? e : NULL_I64), "text to I64");
    r = cast_obj(-TYPE_I32, x);
    CHECK(r->type == -TYPE_I32 && r->i32 == (n > 0 && e >= -2147483647ll && e <= 2147483647ll ? (i32_t)e : NULL_I32), "text to I32");
    r = cast_obj(-TYPE_I16, x);
    CHECK(r->type == -TYPE_I16 && r->i16 == (n > 0 && e >= -32767 && e <= 32767 ? (i16_t)e : NULL_I16), "text to I16");
    r = cast_obj(-TYPE_U8, x);
    CHECK(r->type == -TYPE_U8 && r->u8 == (n > 0 && e >= 0 && e <= 255 ? (u8_t)e : 0), "text to U8");
    REACH();
}
