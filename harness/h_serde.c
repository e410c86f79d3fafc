// P03, P04: the wire format.  T: type of the value, N: length.
#include "vf.h"
#include "core/serde.h"
#include "core/lambda.h"
#include "core/env.h"
#include "core/symbols.h"
#ifndef T
#define T TYPE_I64
#endif
#ifndef N
#define N 2
#endif
// K: what to nest
#ifndef K
#define K 0
#endif
// byte by byte, so that lengths written and read back stay concrete
#ifndef DE
void *memcpy(void *d, const void *s, size_t n) {
#ifdef VF_SYMBOLIC
    if (n == 8 && __CPROVER_OBJECT_SIZE(d) == 8) *(i64_t *)d = 0;
#endif
    for (size_t i = 0; i < n; i++) ((u8_t *)d)[i] = ((const u8_t *)s)[i];
    return d;
}
#endif
// ---- the outside of the reader and the writer ------------------------------
// symbols: identifiers 0..3 stand for different texts of 0, 1, 2 and 2 characters
#define NS 4
static char vf_text[NS][3];
static i64_t tlen(i64_t i) { return i > 2 ? 2 : i; }
static void texts(void) {
    for (int i = 0; i < NS; i++)
        for (int j = 0; j < tlen(i); j++) vf_text[i][j] = (char)('a' + i + j);
}
str_p str_from_symbol(i64_t k) { for (int i = 0; i < NS; i++) if (k == i) return vf_text[i]; return vf_text[0]; }
i64_t symbol_strlen(i64_t k) { for (int i = 0; i < NS; i++) if (k == i) return tlen(i); return 0; }
#ifndef DE
#if K == 4
static struct vf_lambda { struct obj_t o; struct lambda_f f; } vf_lams[2];
static int nlam;
obj_p lambda(obj_p a, obj_p b, obj_p n) {
    struct vf_lambda *l = &vf_lams[nlam++];
    l->o.type = TYPE_LAMBDA, l->o.rc = 1, l->f.args = a, l->f.body = b, l->f.nfo = n;
    CHECK((obj_p)l == &l->o && AS_LAMBDA(&l->o)->args == a && AS_LAMBDA(&l->o)->body == b, "layout");
    return &l->o;
}
#endif
void drop_obj(obj_p o) { (void)o; }
i64_t symbols_intern(lit_p s, i64_t len) {
    for (int i = 0; i < NS; i++)
        if (len == tlen(i) && (len < 1 || s[0] == vf_text[i][0]) && (len < 2 || s[1] == vf_text[i][1])) return i;
    return 99;
}
// built-in functions: number k has the name of symbol k
static struct obj_t fns[NS];
i64_t env_get_internal_id(obj_p o) { return o->i64; }
str_p env_get_internal_name(obj_p o) { return str_from_symbol(o->i64); }
obj_p env_get_internal_function(lit_p s) {
    i64_t l = s[0] ? s[1] ? 2 : 1 : 0, k = symbols_intern(s, l);
    return k < NS ? &fns[k] : NULL_OBJ;
}
static b8_t same(obj_p a, obj_p b) {
    if (a->type != b->type) return 0;
    if (a->type == TYPE_NULL) return 1;
    if (a->type >= TYPE_UNARY && a->type <= TYPE_VARY) return a == b;
    if (a->type < 0) {
        switch (-a->type) {
            case TYPE_B8: case TYPE_U8: case TYPE_C8: return a->u8 == b->u8;
            case TYPE_I16: return a->i16 == b->i16;
            case TYPE_I32: case TYPE_DATE: case TYPE_TIME: return a->i32 == b->i32;
            case TYPE_GUID: return memcmp(AS_GUID(a)[0], AS_GUID(b)[0], 16) == 0;
            default: return a->i64 == b->i64;
        }
    }
    if (a->len != b->len) return 0;
    for (int i = 0; i < a->len; i++)
        switch (a->type) {
            case TYPE_B8: case TYPE_U8: case TYPE_C8: if (AS_U8(a)[i] != AS_U8(b)[i]) return 0; break;
            case TYPE_I16: if (AS_I16(a)[i] != AS_I16(b)[i]) return 0; break;
            case TYPE_I32: case TYPE_DATE: case TYPE_TIME: if (AS_I32(a)[i] != AS_I32(b)[i]) return 0; break;
            case TYPE_GUID: if (memcmp(AS_GUID(a)[i], AS_GUID(b)[i], 16)) return 0; break;
            case TYPE_F64: if (f64_bits(AS_F64(a)[i]) != f64_bits(AS_F64(b)[i])) return 0; break;
            default: if (AS_I64(a)[i] != AS_I64(b)[i]) return 0;
        }
    return 1;
}
#ifndef ROT
#define ROT 1
#endif
static obj_p vec(i8_t t, int n) {
    obj_p v = vf_vec(t, n);
    if (t == TYPE_SYMBOL) for (int i = 0; i < n; i++) AS_I64(v)[i] = (i + ROT) % NS;
    return v;
}
static obj_p one(i8_t t) {
    if (t == TYPE_GUID) { obj_p v = vf_vec(t, 1); return guid(AS_GUID(v)[0]); }
    obj_p a = vf_atom(t);
    if (t == TYPE_SYMBOL) a->i64 = ROT;
    return a;
}
// the message of v reads back as a value whose parts f compares, and is as long as announced
#define HDR ISIZEOF(struct ipc_header_t)
static u8_t wire[64];
static i64_t total;
obj_p vf_nested(u8_t *b, i64_t *len) {
    CHECK(*len >= 0 && b == wire + (total - *len), "what is nested is read from what is left of the message");
    return de_raw(wire + (total - *len), len);   // as a constant place
}
static obj_p trip(obj_p v) {
    i64_t w = ser_raw(wire, v), n = w;
    total = w;
    CHECK(w == size_obj(v) && w > 0 && w <= 64, "the message is as long as announced");
    obj_p r = de_raw(wire, &n);
    CHECK(n == 0, "reading consumes exactly what was written");
    return r;
}
static b8_t list_is(obj_p r, i8_t t, obj_p a, obj_p b) { return r->type == t && (t != TYPE_LIST || r->len == 2) && same(AS_LIST(r)[0], a) && same(AS_LIST(r)[1], b); }
void q_vec(void) {
    vf_init(), texts();
    obj_p v = vec(T, N), r = trip(v);
    CHECK(same(v, r), "a vector reads back as itself");
    REACH();
}
void q_atom(void) {
    vf_init(), texts();
    obj_p v = one(T), r = trip(v);
    CHECK(same(v, r), "an atom reads back as itself");
    REACH();
}
void q_whole(void) {
    vf_init(), texts();
    obj_p v = vec(T, N), m = ser_obj(v), r;
    CHECK(m->type == TYPE_U8 && m->len == HDR + size_obj(v), "the message is as long as announced");
    i64_t w = ser_raw(wire, v);
    for (i64_t i = 0; i < w; i++) CHECK(AS_U8(m)[HDR + i] == wire[i], "and holds the value");
    r = de_obj(m);
    CHECK(same(v, r), "a message reads back as the value");
    i64_t p = nd_in(0, 3);
    for (i64_t k = 0; k < 4; k++) if (p == k) {
        AS_U8(m)[k] ^= (u8_t)nd_in(1, 255);
        r = de_obj(m);
        CHECK(IS_ERR(r), "a message without the marker is rejected");
        break;
    }
    REACH();
}
void q_null(void) {
    vf_init(), texts();
    obj_p l = LIST(3), r;
    CHECK(trip(NULL_OBJ) == NULL_OBJ, "null reads back as null");
    AS_LIST(l)[0] = AS_LIST(l)[1] = AS_LIST(l)[2] = NULL_OBJ;
    r = trip(l);
    CHECK(r->type == TYPE_LIST && r->len == 3 && AS_LIST(r)[0] == NULL_OBJ && AS_LIST(r)[2] == NULL_OBJ, "nulls in a list");
    l = LIST(0), r = trip(l);
    CHECK(r->type == TYPE_LIST && r->len == 0, "an empty list");
    REACH();
}
void q_pair(void) {
    vf_init(), texts();
    obj_p a = vec(T, N), b = one(T), r;
    switch (K) {
        case 0: r = trip(vn_list(2, a, b)); CHECK(list_is(r, TYPE_LIST, a, b), "a list reads back as itself"); break;
        case 1: r = trip(vn_list(2, b, vn_list(2, b, a)));
            CHECK(r->type == TYPE_LIST && r->len == 2 && same(AS_LIST(r)[0], b) && list_is(AS_LIST(r)[1], TYPE_LIST, b, a), "a nested list reads back as itself"); break;
        case 2: b = vec(TYPE_SYMBOL, N), r = trip(dict(b, a)); CHECK(list_is(r, TYPE_DICT, b, a), "a dictionary reads back as itself"); break;
        case 3: b = vec(TYPE_SYMBOL, 2), r = trip(table(b, vn_list(2, a, a)));
            CHECK(r->type == TYPE_TABLE && same(AS_LIST(r)[0], b) && list_is(AS_LIST(r)[1], TYPE_LIST, a, a), "a table reads back as itself"); break;
        case 4: b = vec(TYPE_SYMBOL, 2), r = trip(lambda(b, a, NULL_OBJ));
            CHECK(r->type == TYPE_LAMBDA && same(AS_LAMBDA(r)->args, b) && same(AS_LAMBDA(r)->body, a), "a function reads back as itself"); break;
    }
    REACH();
}
void q_fn(void) {
    vf_init(), texts();
    for (int i = 0; i < NS; i++) fns[i].type = (i8_t)(TYPE_UNARY + i % 3), fns[i].i64 = i;
    i64_t k = nd_in(1, NS - 1);
    for (int i = 1; i < NS; i++) if (k == i) CHECK(trip(&fns[i]) == &fns[i], "a built-in function reads back as itself");
    REACH();
}
#ifndef USER
#define USER 0
#endif
void q_err(void) {
    vf_init(), texts();
    char *m = VM->err.user.msg, s[4];
    for (int i = 0; i < ROT; i++) m[i] = 'x';
    m[ROT] = 0;
    for (int i = 0; i <= ROT; i++) s[i] = m[i];
    i64_t c = nd_in(EC_OK + 1, EC_MAX - 1);
    for (int k = EC_OK + 1; k < EC_MAX; k++) {
        if (c != k || (k == EC_USER) != USER) continue;
        VM->err.code = (u8_t)k;
        obj_p r = trip(ERR_OBJ);
        CHECK(IS_ERR(r) && VM->err.code == k, "an error reads back with its code");
        if (USER) for (int i = 0; i <= ROT; i++) CHECK(m[i] == s[i], "and its message");
    }
    REACH();
}
// values that cannot be serialised are refused, wherever they are
void q_refuse(void) {
    vf_init(), texts();
    obj_p e = LIST(2), a = one(TYPE_I64), v;
    AS_LIST(e)[0] = a, AS_LIST(e)[1] = a;
    i64_t t = nd_in(TYPE_ENUM, TYPE_TABLE - 1);
    static const i8_t kinds[] = {TYPE_ENUM, TYPE_MAPFILTER, TYPE_MAPGROUP, TYPE_MAPFD, TYPE_MAPLIST, TYPE_PARTEDI64};
    for (int j = 0; j < 6; j++) {
        int k = kinds[j];
        if (t != k) continue;
        e->type = (i8_t)k;
        v = K == 0 ? e : K == 1 ? vn_list(2, a, e) : K == 2 ? dict(vec(TYPE_SYMBOL, 1), e) : K == 3 ? table(vec(TYPE_SYMBOL, 1), vn_list(1, e)) : vn_list(2, e, a);
        CHECK(size_obj(v) == 0 && IS_ERR(ser_obj(v)), "a value that has no serial form is refused");
    }
    REACH();
}
#else
// ---- arbitrary bytes --------------------------------------------------------
#ifndef FIX
#define FIX
#endif
static u8_t vf_bytes[N ? N : 1];
static u8_t *base;
// no padding: only what is read matters
char *strncpy(char *d, const char *s, size_t n) { for (size_t i = 0; i < n; i++) if (!(d[i] = s[i])) break; return d; }
static i64_t live;   // values made and not released
i64_t symbols_intern(lit_p s, i64_t len) {
    CHECK((u8_t *)s >= base && len >= 0 && (u8_t *)s + len < base + N, "texts lie within the message");
    return nd_i64();
}
obj_p env_get_internal_function(lit_p s) {
    i64_t i = (u8_t *)s - base;
    while (i < N && base[i]) i++;
    CHECK(i < N, "names end within the message");
    return NULL_OBJ;
}
static i64_t esize(i8_t t) { return t == TYPE_B8 || t == TYPE_U8 || t == TYPE_C8 ? 1 : t == TYPE_I16 ? 2 : t == TYPE_I32 || t == TYPE_DATE || t == TYPE_TIME ? 4 : t == TYPE_GUID ? 16 : 8; }
obj_p vector(i8_t type, i64_t len) {
    CHECK(len >= 0 && len <= N, "no more is made room for than the message can hold");
    obj_p o = NULL;
    for (int k = 0; k <= N; k++)
        if (len == k) o = (obj_p)malloc(sizeof(struct obj_t) + k * esize(type));
    o->mmod = MMOD_INTERNAL, o->type = type, o->rc = 1, o->attrs = 0, o->len = len;
    live++;
    return o;
}
void drop_obj(obj_p o) {
    if (o == NULL_OBJ || IS_ERR(o)) return;
    live--;
    if (o->type == TYPE_LIST)
        for (int i = 0; i < 3; i++) if (i < o->len && AS_LIST(o)[i] != NULL_OBJ) live--;
}
obj_p vn_list(i64_t n, ...) { return NULL_OBJ; }
static b8_t made;
obj_p table(obj_p k, obj_p v) {
    CHECK(k->type == TYPE_SYMBOL && v->type == TYPE_LIST && (v->len == k->len || v->len == 0), "a table has as many columns as names");
    for (int i = 0; i < 3; i++) if (i < v->len) CHECK(AS_LIST(v)[i]->type == TYPE_U8 && AS_LIST(v)[i]->len == AS_LIST(v)[0]->len, "the columns of a table have one length");
    made = 1;
    return k;
}
obj_p dict(obj_p k, obj_p v) {
    CHECK(k->type >= 0 && k->type <= TYPE_GUID && v->type >= 0 && v->type <= TYPE_GUID && k->len == v->len, "a dictionary has as many values as keys");
    made = 1;
    return k;
}
obj_p lambda(obj_p k, obj_p v, obj_p n) {
    CHECK(k == NULL_OBJ || k->type == TYPE_SYMBOL, "the parameters of a function are names");
    made = 1;
    return v;
}
// nested values: null, one byte, bytes, symbols with texts of one character at most, a list of those, or garbage
static obj_p leaf(u8_t *b, i64_t *len) {
    CHECK(*len >= 0 && b >= base && b + *len == base + N, "what is nested is read from what is left of the message");
    if (*len < 1) return err_domain(0, 0);
    i8_t t = (i8_t)b[0];
    b++, (*len)--;
    if (t == TYPE_NULL) return NULL_OBJ;
    if (t == -TYPE_U8) {
        if (*len < 1) return err_domain(0, 0);
        (*len)--, live++;
        return u8(*b);
    }
    if (t == TYPE_U8 || t == TYPE_SYMBOL) {
        i64_t l;
        if (*len < 9) return err_domain(0, 0);
        memcpy(&l, b + 1, 8);
        *len -= 9, b += 9;
        if (l < 0 || l > *len) return err_domain(0, 0);
        ASSUME(l <= 2);
        if (t == TYPE_U8) {
            obj_p o = vector(TYPE_U8, l);
            *len -= l;
            return o;
        }
        obj_p o = vector(TYPE_SYMBOL, l);
        for (int i = 0; i < 2; i++) {
            if (i >= l) break;
            if (*len < 1 || (*b && *len < 2)) { live--; return err_domain(0, 0); }
            if (*b) { ASSUME(b[1] == 0); b++, (*len)--; }
            b++, (*len)--;
        }
        return o;
    }
    ASSUME(t == 64);   // no such type
    return err_type(0, 0, 0, 0);
}
obj_p vf_leaf(u8_t *b, i64_t *len) { return leaf(b, len); }
obj_p vf_leaf_or_list(u8_t *b, i64_t *len) {
    CHECK(*len >= 0 && b >= base && b + *len == base + N, "what is nested is read from what is left of the message");
    if (*len < 1 || (i8_t)b[0] != TYPE_LIST) return leaf(b, len);
    i64_t l;
    (*len)--, b++;
    if (*len < 9) return err_domain(0, 0);
    memcpy(&l, b + 1, 8);
    *len -= 9, b += 9;
    if (l < 0 || l > *len) return err_domain(0, 0);
    ASSUME(l <= 2);
    obj_p o = vector(TYPE_LIST, l);
    i64_t n = *len;
    for (int i = 0; i < 2; i++) {
        if (i >= l) break;
        obj_p v = leaf(b + n - *len, len);
        if (IS_ERR(v)) { o->len = i; drop_obj(o); return v; }
        AS_LIST(o)[i] = v;
    }
    return o;
}
#define READ(b, n) de_raw(b, n)
// a value of type T in N bytes
void q_bytes(void) {
    vf_init();
    base = vf_bytes;
    for (int i = 0; i < N; i++) base[i] = nd_u8();
    if (N) base[0] = (u8_t)(T);
    // places (place, number of bytes, value) that are not arbitrary
    static const i64_t fix[][3] = {{0, 0, 0}, FIX};
    for (int k = 0; k < (int)(sizeof(fix) / sizeof(fix[0])); k++)
        for (int i = 0; i < fix[k][1]; i++) base[fix[k][0] + i] = (u8_t)(fix[k][2] >> 8 * i);
    i64_t n = N, l;
    obj_p r = READ(base, &n);
    CHECK(n >= 0 && n <= N, "the rest of a message is never negative");
    if (IS_ERR(r)) CHECK(live <= 0, "nothing made for a rejected message is kept");
    else if (T >= 0 && T <= TYPE_C8 && T != TYPE_LIST) {
        memcpy(&l, base + 2, 8);
        CHECK(r->type == (T) && r->len == l, "a vector has the announced length");
        if (T != TYPE_SYMBOL)
            for (int i = 0; i < N; i++) if (i < l * esize(T)) CHECK(AS_U8(r)[i] == base[10 + i], "and the bytes that follow");
        if (T != TYPE_SYMBOL) CHECK(n == N - 10 - l * esize(T), "no more is consumed");
    } else if (T == TYPE_LIST) {
        memcpy(&l, base + 2, 8);
        CHECK(r->type == TYPE_LIST && r->len == l, "a list has the announced length");
    } else if (T < 0 && T >= -TYPE_C8 && T != -TYPE_SYMBOL && T != -TYPE_GUID) {
        CHECK(r->type == (T), "an atom has the announced type");
        for (int i = 0; i < esize(-(T)); i++) CHECK((&r->u8)[i] == base[1 + i], "and the bytes that follow");
    }
    REACH();
}
// any type that is not one of the format's
void q_other(void) {
    vf_init();
    base = vf_bytes;
    for (int i = 0; i < N; i++) base[i] = nd_u8();
    i64_t t = nd_in(-128, 127);
    for (int k = -128; k < 128; k++) {
        if (t != k || (k >= -TYPE_C8 && k <= TYPE_C8) || (k >= TYPE_TABLE && k <= TYPE_VARY) || k >= TYPE_NULL) continue;
        base[0] = (u8_t)k;
        i64_t n = N;
        obj_p r = READ(base, &n);
        CHECK(IS_ERR(r) && n >= 0 && n <= N, "an unknown type is rejected");
    }
    REACH();
}
static struct obj_t vf_some;
obj_p vf_read(u8_t *b, i64_t *len) {
    CHECK(b == base + 16 && *len == N - 16, "the value is read from behind the header");
    return &vf_some;
}
// a whole message: N bytes in a U8 vector (or something else)
void q_message(void) {
    vf_init();
    obj_p m = (obj_p)malloc(sizeof(struct obj_t) + N);
    m->mmod = MMOD_INTERNAL, m->rc = 1, m->attrs = 0, m->type = TYPE_U8, m->len = N;
    base = AS_U8(m);
    for (int i = 0; i < N; i++) base[i] = nd_u8();
    obj_p r = de_obj(m);
    u32_t p = 0;
    i64_t s = 0;
    if (N >= 16) memcpy(&p, base, 4), memcpy(&s, base + 8, 8);
    if (N < 16 || p != SERDE_PREFIX || s != N - 16) CHECK(IS_ERR(r), "a message with another header is rejected");
    else if (base[4] <= RAYFORCE_VERSION) CHECK(N == 16 ? r == NULL_OBJ : r == &vf_some || r == NULL_OBJ, "a message is read");
    obj_p a = (obj_p)malloc(sizeof(struct obj_t));
    *a = *m, a->type = (i8_t)nd_i8(), a->i64 = nd_i64();
    if (a->type != TYPE_U8) CHECK(IS_ERR(de_obj(a)), "only bytes are deserialised");
    REACH();
}
#endif
