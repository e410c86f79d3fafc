// P06: hash tables are maps.  Inductive: any table that satisfies the invariant of open addressing, one operation.
#include "vf.h"
#include "core/hash.h"
#ifndef S
#define S 5     // slots
#endif
#ifndef AT
#define AT 0    // the hash of the key (the key, where that is its own hash)
#endif
static i64_t *K, *V, key;
static obj_p ht;
// the hash function: arbitrary for the (at most S + 1) keys in play
#ifdef WITH
static i64_t hk[S + 1];
static u64_t hv[S + 1];
#ifdef GROW
static u64_t hashf(i64_t k, raw_p s) { (void)s; for (int i = 0; i <= S; i++) if (hk[i] == k) return hv[i]; return 0; }
#else
static u64_t hashf(i64_t k, raw_p s) { (void)s; CHECK(k == key, "only the key is hashed"); return (u64_t)AT; }
#endif
static i64_t cmpf(i64_t a, i64_t b, raw_p s) { (void)s; return a != b; }
#endif
static i64_t k0[S], v0[S], hs[4 * S + 8];     // the homes of the keys, by slot
static b8_t null_slot(i64_t k) { return k == NULL_I64; }
// every key is reachable from its home over occupied slots, and no key is there twice
static b8_t valid(i64_t *k, int n) {
    for (int i = 0; i < n; i++) {
        if (null_slot(k[i])) continue;
        for (int d = 0; d < n; d++) {   // the slots d steps before i, down to the home
            int j = i - d < 0 ? i - d + n : i - d;
            if (null_slot(k[j])) return 0;
            if (j == hs[i]) break;
        }
        for (int j = 0; j < i; j++) if (k[j] == k[i]) return 0;
    }
    return 1;
}
#define HOME ((i64_t)((u64_t)AT % S))
#ifdef GROW
// fresh vectors of numbers, and a release that only counts
static struct { struct obj_t o; i64_t v[20]; } vecs[4];
static int nvec, gone;
obj_p vector(i8_t type, i64_t len) {
    CHECK(type == TYPE_I64 && len > 0 && len <= 20 && nvec < 4, "a vector of a plausible size");
    vecs[nvec].o.type = type, vecs[nvec].o.len = len, vecs[nvec].o.rc = 1, vecs[nvec].o.mmod = MMOD_INTERNAL;
    return &vecs[nvec++].o;
}
nil_t drop_obj(obj_p o) { CHECK(o->type == TYPE_DICT, "the old table is released"); gone++; }
#endif
static void any(void) {
    vf_init();
    ht = ht_oa_create(S == 5 ? 3 : S == 3 ? 2 : 5, TYPE_I64);
    CHECK(AS_LIST(ht)[0]->len == S && AS_LIST(ht)[1]->len == S, "a new table has room for what it was made for");
    K = AS_I64(AS_LIST(ht)[0]), V = AS_I64(AS_LIST(ht)[1]);
    for (int i = 0; i < S; i++) CHECK(null_slot(K[i]), "a new table is empty");
#ifdef WITH
    key = 77;   // keys are only compared: any one stands for all
#else
    key = AT;
#endif
    ASSUME(key != NULL_I64);
    for (int i = 0; i < S; i++) {
        v0[i] = V[i] = nd_i64(), hs[i] = nd_in(0, S - 1);
#if defined(GROW)
        static const i64_t gk[] = GROW;
        hs[i] = (i64_t)((u64_t)gk[i] % S), k0[i] = K[i] = gk[i];
#elif defined(WITH)
        k0[i] = K[i] = nd_i64();
#else
        u64_t q = nd_u64();     // a key with that home
        ASSUME(q <= (~0ULL - (u64_t)hs[i]) / S);
        k0[i] = K[i] = (i64_t)(q * S + (u64_t)hs[i]);
#endif
        ASSUME(K[i] != key || hs[i] == HOME);
#if defined(WITH) && defined(GROW)
        hk[i] = K[i], hv[i] = (u64_t)K[i];
#endif
    }
    ASSUME(valid(K, S));
}
static b8_t full(void) { for (int i = 0; i < S; i++) if (null_slot(k0[i])) return 0; return 1; }
static int at(void) { for (int i = 0; i < S; i++) if (k0[i] == key) return i; return -1; }
#ifdef WITH
#define GET() ht_oa_tab_get_with(ht, key, hashf, cmpf, NULL)
#define NEXT() ht_oa_tab_next_with(&ht, key, hashf, cmpf, NULL)
#define INSERT(v) ht_oa_tab_insert_with(&ht, key, v, hashf, cmpf, NULL)
#else
#define GET() ht_oa_tab_get(ht, key)
#define NEXT() ht_oa_tab_next(&ht, key)
#define INSERT(v) ht_oa_tab_insert(&ht, key, v)
#endif
void q_get(void) {
    any();
    i64_t r = GET();
    CHECK(r == (at() < 0 ? NULL_I64 : at()), "a lookup finds exactly the keys that are there");
    REACH();
}
void q_next(void) {
    any();
    ASSUME(at() >= 0 || !full());
    i64_t r = NEXT();
    CHECK(r >= 0 && r < S, "a place in the table");
    for (int i = 0; i < S; i++) if (i == r) {
        if (at() >= 0) CHECK(i == at(), "the place of a key that is there");
        else {
            CHECK(null_slot(K[i]), "a free place for a new key");
            K[i] = key, hs[i] = HOME;
            CHECK(valid(K, S), "where it can be found again");
        }
    }
    for (int i = 0; i < S; i++) CHECK(K[i] == k0[i] || (at() < 0 && i == r), "looking for a place changes nothing");
    REACH();
}
void q_insert(void) {
    any();
    ASSUME(at() >= 0 || !full());
    i64_t v = nd_i64(), r = INSERT(v);
    int p = -1;
    for (int i = 0; i < S; i++) if (K[i] == key) p = i, hs[i] = HOME;
    CHECK(p >= 0 && valid(K, S), "the key is there afterwards and the table is sound");
    if (at() >= 0) { for (int i = 0; i < S; i++) if (i == at()) CHECK(r == v0[i] && V[i] == v0[i] && p == i, "a key that is there keeps its value"); }
    else for (int i = 0; i < S; i++) if (i == p) CHECK(r == v && V[i] == v, "a new key gets the value");
    for (int i = 0; i < S; i++) CHECK((K[i] == k0[i] && V[i] == v0[i]) || (at() < 0 && i == p), "nothing else changes");
    REACH();
}
#ifdef GROW
// a full table grows, and holds the same afterwards
void q_grow(void) {
    any();
    ASSUME(full() && at() < 0);
    i64_t r = NEXT();
    i64_t n = AS_LIST(ht)[0]->len;
    CHECK(gone == 1, "the old table is released once");
    CHECK(n > S && AS_LIST(ht)[1]->len == n && n <= 3 * S + 8, "the table has grown");
    K = AS_I64(AS_LIST(ht)[0]), V = AS_I64(AS_LIST(ht)[1]);
    int c = 0;
    i64_t nh[4 * S + 8];
    for (int j = 0; j < n; j++) {
        if (null_slot(K[j])) continue;
        c++;
        b8_t found = 0;
#ifdef WITH
        for (int i = 0; i < S; i++) if (k0[i] == K[j] && v0[i] == V[j]) found = 1, nh[j] = (i64_t)(hv[i] % (u64_t)n);
#else
        for (int i = 0; i < S; i++) if (k0[i] == K[j] && v0[i] == V[j]) found = 1, nh[j] = (i64_t)((u64_t)k0[i] % (u64_t)n);
#endif
        CHECK(found, "growing invents nothing and keeps the values");
    }
    for (int j = 0; j < n; j++) hs[j] = nh[j];
    CHECK(c == S && valid(K, (int)n), "growing loses nothing");
    CHECK(r >= 0 && r < n && null_slot(K[r]), "a free place for the new key");
    REACH();
}
#endif
// chained buckets: 5 heads, three keys and one more
#ifndef CHAIN
#define CHAIN {1, 6, 1, 3}
#endif
void q_chain(void) {
    vf_init();
    static const i64_t ks[4] = CHAIN;
    ht_bk_p t = ht_bk_create(5);
    i64_t a = ks[0], b = ks[1], c = ks[2], d = ks[3], va = nd_i64(), vb = nd_i64(), vc = nd_i64();
    ASSUME(va != NULL_I64 && vb != NULL_I64 && vc != NULL_I64);
    CHECK(ht_bk_get(t, a) == NULL_I64, "a new table is empty");
    CHECK(ht_bk_insert(t, a, va) == va, "a new key gets the value");
    i64_t wb = a == b ? va : vb, wc = c == a ? va : c == b ? vb : vc;
    CHECK(ht_bk_insert(t, b, vb) == wb, "a second key");
    CHECK(ht_bk_insert(t, c, vc) == wc, "a third key");
    CHECK(ht_bk_get(t, a) == va && ht_bk_get(t, b) == wb && ht_bk_get(t, c) == wc, "every key has its value");
    CHECK(ht_bk_get(t, d) == NULL_I64, "a lookup finds exactly the keys that are there");
    CHECK(t->count == 1 + (a != b) + (c != a && c != b), "the number of keys");
    REACH();
}
// hashing of values: equal values hash equally
#ifndef T
#define T TYPE_I64
#endif
void q_hash(void) {
    vf_init();
    obj_p a = T < 0 ? vf_atom(-(T)) : vf_vec(T, 2), b = T < 0 ? atom(-(T)) : vector(T, 2);
    if (T < 0) b->i64 = a->i64;
    else for (int i = 0; i < 2; i++) {
        switch (T) {
            case TYPE_I16: AS_I16(b)[i] = AS_I16(a)[i]; break;
            case TYPE_I32: case TYPE_DATE: case TYPE_TIME: AS_I32(b)[i] = AS_I32(a)[i]; break;
            case TYPE_C8: case TYPE_U8: case TYPE_B8: AS_U8(b)[i] = AS_U8(a)[i]; break;
            default: AS_I64(b)[i] = AS_I64(a)[i];
        }
    }
    if (T == -TYPE_F64) {
        b->i64 = nd_i64();
        ASSUME(cmp_obj(a, b) == 0);
    }
    CHECK(hash_index_obj(a) == hash_index_obj(b), "equal values hash equally");
    REACH();
}
