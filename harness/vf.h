// Harness kit: symbolic values, assumptions, obligations, and their native
// replay counterparts.  Compiled twice: by goto-cc (symbolic execution of the
// real code) and by clang (replay of a solver assignment on the real code).
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include "core/rayforce.h"
#include "core/eval.h"
#include "core/runtime.h"
#include "core/ops.h"
#include "core/util.h"
#include "core/error.h"

#ifdef VF_SYMBOLIC
unsigned long long nondet_vf_ull(void);
unsigned long long vf_nd_log;
static inline u64_t nd_u64(void) {
    unsigned long long v = nondet_vf_ull();
    vf_nd_log = v;
    return (u64_t)v;
}
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert((c), "PROP " msg)
#ifdef VF_NOREACH
#define REACH() ((void)0)
#else
#define REACH() __CPROVER_assert(0, "REACH")
#endif
#define KEEP(x) (x)
#else
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
u64_t vf_next(void);
void vf_fail(const char *msg, const char *file, int line);
static inline u64_t nd_u64(void) { return vf_next(); }
#define ASSUME(c) do { if (!(c)) { fprintf(stderr, "VF-ASSUME-UNMET %s:%d %s\n", __FILE__, __LINE__, #c); _exit(77); } } while (0)
#define CHECK(c, msg) do { if (!(c)) vf_fail(msg, __FILE__, __LINE__); } while (0)
#define REACH() do { fprintf(stderr, "VF-REACHED\n"); } while (0)
#define KEEP(x) (x)
#endif

// an input; where finding any by search is hard, k is the one used to show the harness end reachable
#if defined(VF_REACHRUN) && defined(VF_SYMBOLIC)
static inline u64_t nd_hint(u64_t k) { vf_nd_log = k; return k; }
#else
static inline u64_t nd_hint(u64_t k) { (void)k; return nd_u64(); }
#endif
static inline i64_t nd_i64(void) { return (i64_t)nd_u64(); }
static inline u32_t nd_u32(void) { return (u32_t)nd_u64(); }
static inline i32_t nd_i32(void) { return (i32_t)(u32_t)nd_u64(); }
static inline i16_t nd_i16(void) { return (i16_t)(u16_t)nd_u64(); }
static inline u8_t nd_u8(void) { return (u8_t)nd_u64(); }
static inline i8_t nd_i8(void) { return (i8_t)(u8_t)nd_u64(); }
static inline b8_t nd_b8(void) { return (b8_t)(nd_u64() & 1); }
static inline f64_t nd_f64(void) { union { u64_t u; f64_t f; } x; x.u = nd_u64(); return x.f; }
// value in [lo, hi]
static inline i64_t nd_in(i64_t lo, i64_t hi) { i64_t v = nd_i64(); ASSUME(v >= lo && v <= hi); return v; }

// Minimal runtime: no worker pool, no symbols, one VM.
static struct vm_t vf_vm;
static struct runtime_t vf_rt;
static inline void vf_init(void) {
    __VM = &vf_vm;
    __RUNTIME = &vf_rt;
    vf_vm.query_ctx = NULL;
}
static inline i64_t f64_bits(f64_t f) { union { f64_t f; i64_t u; } x; x.f = f; return x.u; }

// ---- helpers over values -------------------------------------------------
static inline i8_t vf_abs_type(i8_t t) { return t < 0 ? (i8_t)-t : t; }
// fill slot i of a vector with an arbitrary value of its type
static inline void vf_fill(obj_p v, i64_t i) {
    switch (v->type) {
        case TYPE_B8: AS_B8(v)[i] = nd_b8(); break;
        case TYPE_U8: AS_U8(v)[i] = nd_u8(); break;
        case TYPE_C8: AS_C8(v)[i] = (c8_t)nd_u8(); break;
        case TYPE_I16: AS_I16(v)[i] = nd_i16(); break;
        case TYPE_I32: case TYPE_DATE: case TYPE_TIME: AS_I32(v)[i] = nd_i32(); break;
        case TYPE_I64: case TYPE_SYMBOL: case TYPE_TIMESTAMP: AS_I64(v)[i] = nd_i64(); break;
        case TYPE_F64: AS_F64(v)[i] = nd_f64(); break;
        case TYPE_GUID: { u64_t a = nd_u64(), b = nd_u64(); memcpy(AS_GUID(v)[i], &a, 8); memcpy(AS_GUID(v)[i] + 8, &b, 8); break; }
        default: break;
    }
}
static inline obj_p vf_vec(i8_t type, i64_t n) {
    obj_p v = vector(type, n);
    for (i64_t i = 0; i < n; i++) vf_fill(v, i);
    return v;
}
// atom holding slot i of a vector, independently of the code under test
static inline obj_p vf_slot(obj_p v, i64_t i) {
    obj_p a = atom(v->type);
    switch (v->type) {
        case TYPE_B8: case TYPE_U8: case TYPE_C8: a->u8 = AS_U8(v)[i]; break;
        case TYPE_I16: a->i16 = AS_I16(v)[i]; break;
        case TYPE_I32: case TYPE_DATE: case TYPE_TIME: a->i32 = AS_I32(v)[i]; break;
        case TYPE_I64: case TYPE_SYMBOL: case TYPE_TIMESTAMP: a->i64 = AS_I64(v)[i]; break;
        case TYPE_F64: a->f64 = AS_F64(v)[i]; break;
        default: break;
    }
    return a;
}
static inline obj_p vf_atom(i8_t type) {  // type > 0
    obj_p a = atom(type);
    switch (type) {
        case TYPE_B8: a->b8 = nd_b8(); break;
        case TYPE_U8: a->u8 = nd_u8(); break;
        case TYPE_C8: a->c8 = (c8_t)nd_u8(); break;
        case TYPE_I16: a->i16 = nd_i16(); break;
        case TYPE_I32: case TYPE_DATE: case TYPE_TIME: a->i32 = nd_i32(); break;
        case TYPE_I64: case TYPE_SYMBOL: case TYPE_TIMESTAMP: a->i64 = nd_i64(); break;
        case TYPE_F64: a->f64 = nd_f64(); break;
        default: break;
    }
    return a;
}
// equality of the payload of two atoms / vector slots, bit for bit except NaN==NaN
static inline b8_t vf_same_f64(f64_t x, f64_t y) { return (x != x && y != y) || f64_bits(x) == f64_bits(y); }
static inline b8_t vf_slot_is(obj_p v, i64_t i, obj_p a) {
    if (vf_abs_type(v->type) != vf_abs_type(a->type)) return B8_FALSE;
    switch (v->type) {
        case TYPE_B8: case TYPE_U8: case TYPE_C8: return AS_U8(v)[i] == a->u8;
        case TYPE_I16: return AS_I16(v)[i] == a->i16;
        case TYPE_I32: case TYPE_DATE: case TYPE_TIME: return AS_I32(v)[i] == a->i32;
        case TYPE_I64: case TYPE_SYMBOL: case TYPE_TIMESTAMP: return AS_I64(v)[i] == a->i64;
        case TYPE_F64: return vf_same_f64(AS_F64(v)[i], a->f64);
        case TYPE_GUID: return memcmp(AS_GUID(v)[i], AS_GUID(a)[0], 16) == 0;
        default: return B8_FALSE;
    }
}
static inline b8_t vf_slots_eq(obj_p v, i64_t i, obj_p w, i64_t j) {
    if (v->type != w->type) return B8_FALSE;
    switch (v->type) {
        case TYPE_B8: case TYPE_U8: case TYPE_C8: return AS_U8(v)[i] == AS_U8(w)[j];
        case TYPE_I16: return AS_I16(v)[i] == AS_I16(w)[j];
        case TYPE_I32: case TYPE_DATE: case TYPE_TIME: return AS_I32(v)[i] == AS_I32(w)[j];
        case TYPE_I64: case TYPE_SYMBOL: case TYPE_TIMESTAMP: return AS_I64(v)[i] == AS_I64(w)[j];
        case TYPE_F64: return vf_same_f64(AS_F64(v)[i], AS_F64(w)[j]);
        case TYPE_GUID: return memcmp(AS_GUID(v)[i], AS_GUID(w)[j], 16) == 0;
        default: return B8_FALSE;
    }
}
#endif
