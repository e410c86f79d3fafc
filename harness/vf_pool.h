// Worker pool for harnesses: work is split into VF_SPLIT parts that run one after
// another in an arbitrary order (any interleaving of tasks that write disjoint
// parts is equivalent to such an order).  Use with replace=POOL in props.
#ifndef VF_POOL_H
#define VF_POOL_H
#include <stdarg.h>
#include "core/pool.h"
#ifndef VF_SPLIT
#define VF_SPLIT 2
#endif
#define VF_MAXTASKS 8
static struct { raw_p fn; i64_t argc; raw_p argv[8]; } vf_tasks[VF_MAXTASKS];
static i64_t vf_ntasks;
static struct pool_t vf_pool_obj;
i64_t pool_split_by_mem(pool_p pool, i64_t l, i64_t g, i64_t t) { (void)pool; (void)g; (void)t; return l >= 2 ? VF_SPLIT : 1; }
i64_t pool_split_by(pool_p pool, i64_t l, i64_t g) { return pool_split_by_mem(pool, l, g, 8); }
i64_t pool_get_executors_count(pool_p pool) { (void)pool; return VF_SPLIT; }
i64_t pool_chunk_aligned(i64_t len, i64_t n, i64_t e) { (void)e; return n <= 1 ? len : (len + n - 1) / n; }
pool_p pool_get(nil_t) { return &vf_pool_obj; }
nil_t pool_prepare(pool_p pool) { (void)pool; vf_ntasks = 0; }
nil_t pool_add_task(pool_p pool, raw_p fn, i64_t argc, ...) {
    va_list ap;
    (void)pool;
    va_start(ap, argc);
    vf_tasks[vf_ntasks].fn = fn;
    vf_tasks[vf_ntasks].argc = argc;
    for (i64_t i = 0; i < argc; i++) vf_tasks[vf_ntasks].argv[i] = va_arg(ap, raw_p);
    va_end(ap);
    vf_ntasks++;
}
obj_p pool_run(pool_p pool) {
    (void)pool;
    i64_t n = vf_ntasks;
    obj_p r = LIST(n);
#define VF_CALL(i) AS_LIST(r)[i] = pool_call_task_fn(vf_tasks[i].fn, vf_tasks[i].argc, vf_tasks[i].argv)
    if (n > 1 && nd_b8()) {   // last task first
        for (i64_t k = n - 1; k >= 0; k--) VF_CALL(k);
    } else {
        for (i64_t k = 0; k < n; k++) VF_CALL(k);
    }
    for (i64_t k = 0; k < n; k++)
        if (IS_ERR(AS_LIST(r)[k])) {
            obj_p e = clone_obj(AS_LIST(r)[k]);
            drop_obj(r);
            return e;
        }
    return r;
}
static inline void vf_init_pool(void) { vf_init(); vf_rt.pool = &vf_pool_obj; }
#endif
