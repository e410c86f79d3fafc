// P18: and, or, not.  Arguments are evaluated by a stand-in for eval that hands out
// either the shared value itself or a private copy of it, like eval of a name or of a call.
#include "vf.h"
#include "core/logic.h"
#include "core/order.h"
#ifdef POOL
#include "vf_pool.h"
#define INIT vf_init_pool
#else
#define INIT vf_init
#endif
#ifndef N
#define N 3
#endif
static b8_t fresh[3];
static obj_p args[3];
static int err_at = -1;
static obj_p twin(obj_p x) {
    obj_p r = x->type < 0 ? b8(x->b8) : vector(TYPE_B8, x->len);
    if (x->type > 0) for (i64_t i = 0; i < x->len; i++) AS_B8(r)[i] = AS_B8(x)[i];
    return r;
}
obj_p eval(obj_p x) {
    for (int i = 0; i < 3; i++)
        if (x == args[i]) {
            if (err_at == i) return err_user("x");
            return fresh[i] ? twin(x) : clone_obj(x);
        }
    return clone_obj(x);
}
static obj_p run(obj_p *x, i64_t n) { return OPN ? ray_or(x, n) : ray_and(x, n); }
static b8_t op(b8_t a, b8_t b) { return OPN ? a || b : a && b; }
static b8_t at(obj_p x, int i) { return x->type < 0 ? x->b8 : AS_B8(x)[i]; }
// v: kinds of the arguments, bit i set when argument i is a vector
static void mix(int n, int v) {
    obj_p r, keep[3];
    for (int i = 0; i < 3; i++) args[i] = NULL;
    for (int i = 0; i < n; i++) {
        args[i] = v >> i & 1 ? vf_vec(TYPE_B8, N) : vf_atom(TYPE_B8);
        fresh[i] = nd_b8();
        keep[i] = twin(args[i]);
    }
    r = run(args, n);
    int len = v ? N : 1;
    CHECK(r->type == (v ? TYPE_B8 : -TYPE_B8) && (!v || r->len == N), "a vector when any argument is one, else a boolean");
    for (int i = 0; i < len; i++) {
        b8_t e = at(keep[0], i);
        for (int j = 1; j < n; j++) e = op(e, at(keep[j], i));
        CHECK(at(r, i) == e, "the result is the connective over all arguments");
    }
    for (int j = 0; j < n; j++) {
        CHECK(args[j]->type == keep[j]->type && (args[j]->type < 0 || args[j]->len == N), "arguments keep their shape");
        for (int i = 0; i < (v >> j & 1 ? N : 1); i++) CHECK(at(args[j], i) == at(keep[j], i), "arguments somebody refers to are not modified");
        CHECK(args[j]->rc == 1 + (r == args[j]), "references are balanced");
    }
}
#define E2(v) void l2_##v(void) { INIT(); mix(2, v); REACH(); }
#define E3(v) void l3_##v(void) { INIT(); mix(3, v); REACH(); }
E2(0) E2(1) E2(2) E2(3)
E3(0) E3(1) E3(2) E3(3) E3(4) E3(5) E3(6) E3(7)
void l_same(void) {   // the same value twice
    INIT();
    obj_p x = vf_vec(TYPE_B8, N), k = twin(x), a[2] = {x, x}, r;
    args[0] = x, args[1] = args[2] = NULL;
    r = run(a, 2);
    for (int i = 0; i < N; i++) CHECK(AS_B8(r)[i] == AS_B8(k)[i] && AS_B8(x)[i] == AS_B8(k)[i], "a value combined with itself is itself");
    REACH();
}
void l_bad(void) {   // anything but booleans, and vectors of different lengths, are rejected; an error in an argument is the result
    INIT();
    obj_p x = vf_vec(TYPE_B8, N), y = vf_vec(TYPE_B8, N + 1), z = vf_vec(TYPE_I64, N), w = vf_atom(TYPE_I64), r;
    obj_p all[4] = {x, y, z, w};
    for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++) {
            if (i == j && i < 2) continue;
            args[0] = all[i], args[1] = all[j], args[2] = NULL;
            r = run(args, 2);
            CHECK(IS_ERR(r), "arguments that are not booleans of one length are rejected");
            CHECK(all[i]->rc == 1 && all[j]->rc == 1, "a rejected call releases what it evaluated");
        }
    args[0] = x, args[1] = y;
    err_at = 1;
    r = run(args, 2);
    CHECK(IS_ERR(r) && x->rc == 1, "an error in an argument is the result");
    REACH();
}
// booleans over partitions: no match, all match, or a mask per partition
static obj_p part(int kind, int n) { return kind == 0 ? NULL_OBJ : kind == 1 ? b8(B8_TRUE) : vf_vec(TYPE_B8, n); }
static b8_t pat(obj_p p, int i) { return p == NULL_OBJ ? 0 : at(p, i); }
static void parted(int ka, int kb) {
    obj_p x = LIST(2), y = LIST(2), kx[2], ky[2], r;
    x->type = y->type = TYPE_PARTEDB8;
    for (int p = 0; p < 2; p++) {
        AS_LIST(x)[p] = part(p ? 2 : ka, N);
        AS_LIST(y)[p] = part(p ? 2 : kb, N);
        kx[p] = AS_LIST(x)[p] == NULL_OBJ ? NULL_OBJ : twin(AS_LIST(x)[p]);
        ky[p] = AS_LIST(y)[p] == NULL_OBJ ? NULL_OBJ : twin(AS_LIST(y)[p]);
    }
    args[0] = x, args[1] = y, args[2] = NULL;
    r = run(args, 2);
    CHECK(r->type == TYPE_PARTEDB8 && r->len == 2, "two partitioned masks give a partitioned mask");
    for (int p = 0; p < 2; p++)
        for (int i = 0; i < N; i++) {
            CHECK(pat(AS_LIST(r)[p], i) == op(pat(kx[p], i), pat(ky[p], i)), "the result is the connective over both masks");
            CHECK(pat(AS_LIST(x)[p], i) == pat(kx[p], i) && pat(AS_LIST(y)[p], i) == pat(ky[p], i), "shared masks are not modified");
        }
    CHECK(x->rc == 1 && y->rc == 1, "references are balanced");
}
#define EP(a, b) void p_##a##b(void) { INIT(); parted(a, b); REACH(); }
EP(0, 0) EP(0, 1) EP(0, 2) EP(1, 0) EP(1, 1) EP(1, 2) EP(2, 0) EP(2, 1) EP(2, 2)
void n_all(void) {
    INIT();
    obj_p x = vf_vec(TYPE_B8, N), k = twin(x), a = vf_atom(TYPE_B8), r;
    r = ray_not(x);
    CHECK(r->type == TYPE_B8 && r->len == N && r != x, "not of a vector is a new vector of its length");
    for (int i = 0; i < N; i++) CHECK(AS_B8(r)[i] == !AS_B8(k)[i] && AS_B8(x)[i] == AS_B8(k)[i], "every element is negated, the argument is not modified");
    r = ray_not(a);
    CHECK(r->type == -TYPE_B8 && r->b8 == !a->b8 && IS_ERR(ray_not(vf_atom(TYPE_I64))), "not of a boolean; anything else is rejected");
    REACH();
}
