// P29: the worker queue.  Any state of the queue, one operation, and other producers and consumers acting between any
// two of its atomic operations; positions of work split over workers; growth; a round of work with a second worker.
#include "vf.h"
#include <stdarg.h>
#include "core/pool.h"
#include "core/eval.h"
#ifndef CELLS
#define CELLS 2
#endif
#ifndef STEPS
#define STEPS 2
#endif
#define POS0 1000000000004ll
static struct mpmc_t q;
static struct cell_t cells[CELLS];
nil_t backoff_spin(i64_t *r) { (void)r; }
mpmc_p mpmc_create(i64_t size);
i64_t mpmc_push(mpmc_p queue, task_data_t data);
task_data_t mpmc_pop(mpmc_p queue);
#ifdef VF_STEP
// ghost state of every cell: the position it serves and how far that has come
enum { FREE, CLAIMED, FULL, TAKEN };
static i64_t cpos[CELLS];
static u8_t st[CELLS];
static b8_t mine[CELLS];
static task_data_t want[CELLS];     // contents of a cell that is full or taken
static i64_t gt, gh, mypos;         // tail and head as known to the others
static b8_t claimed, done, pushing, was_full, was_empty;
static int steps;
static b8_t same(task_data_t *a, task_data_t *b) {
    if (a->id != b->id || a->fn != b->fn || a->argc != b->argc || a->result != b->result) return 0;
    for (int i = 0; i < 8; i++) if (a->argv[i] != b->argv[i]) return 0;
    return 1;
}
static void any(task_data_t *d) {
    d->id = nd_u64() & 0xffff, d->fn = (raw_p)nd_u64(), d->argc = nd_u64() & 7, d->result = (obj_p)nd_u64();
    d->argv[0] = (raw_p)nd_u64(), d->argv[1] = (raw_p)nd_u64(), d->argv[7] = (raw_p)nd_u64();
    for (int i = 2; i < 7; i++) d->argv[i] = NULL;
}
static void look(void) {    // what the followed operation did since the last look
    if (q.tail != gt) {
        CHECK(pushing && !claimed && q.tail == gt + 1, "one position is claimed, once");
        for (int i = 0; i < CELLS; i++) if (cpos[i] == gt) { CHECK(st[i] == FREE, "a position is claimed when its cell is free"); st[i] = CLAIMED, mine[i] = 1; }
        mypos = gt, claimed = 1, gt = q.tail;
    }
    if (q.head != gh) {
        CHECK(!pushing && !claimed && q.head == gh + 1, "one task is taken, once");
        for (int i = 0; i < CELLS; i++) if (cpos[i] == gh) { CHECK(st[i] == FULL, "a task is taken when it is complete"); st[i] = TAKEN, mine[i] = 1; }
        mypos = gh, claimed = 1, gh = q.head;
    }
    for (int i = 0; i < CELLS; i++) {
        i64_t s = cpos[i] + (st[i] == FULL || st[i] == TAKEN);
        if (cells[i].seq != s) {    // the followed operation finished
            CHECK(mine[i] && !done, "only the owner of a cell releases it");
            if (pushing) { CHECK(cells[i].seq == s + 1, "released to consumers"); st[i] = FULL; }
            else { CHECK(cells[i].seq == cpos[i] + CELLS, "released to producers"); st[i] = FREE, cpos[i] += CELLS; }
            mine[i] = 0, done = 1;
        }
        if (cpos[i] == gt && st[i] != FREE) was_full = 1;
        if (cpos[i] == gt - CELLS && st[i] == TAKEN) was_full = 1;
        if (cpos[i] == gh && st[i] != FULL) was_empty = 1;
        if (cpos[i] == gh - CELLS) was_empty = 1;
    }
    if (gt - gh >= CELLS) was_full = 1;
    if (gt == gh) was_empty = 1;
}
static void other(void) {
    u8_t what = nd_u8() & 3;
    for (int i = 0; i < CELLS; i++) {
        if (mine[i]) continue;
        if (what == 0 && st[i] == FREE && cpos[i] == gt) { st[i] = CLAIMED, q.tail = ++gt; return; }
        if (what == 1 && st[i] == CLAIMED && nd_b8()) { any(&want[i]); cells[i].data = want[i], cells[i].seq = cpos[i] + 1, st[i] = FULL; return; }
        if (what == 2 && st[i] == FULL && cpos[i] == gh) { st[i] = TAKEN, q.head = ++gh; return; }
        if (what == 3 && st[i] == TAKEN && nd_b8()) { CHECK(same(&cells[i].data, &want[i]), "tasks are taken as they were put"); cpos[i] += CELLS, cells[i].seq = cpos[i], st[i] = FREE; return; }
    }
}
void vf_step(void) { look(); if (steps > 0 && nd_b8()) { steps--; other(); look(); } }
static void any_state(void) {
    vf_init();
    q.buf = cells, q.mask = CELLS - 1;
    gh = POS0 + HEAD, gt = gh + USED;
    for (int i = 0; i < CELLS; i++) {
        i64_t p = gh + ((i - HEAD) & (CELLS - 1));      // the position of this cell from the head on
        if (p < gt) st[i] = nd_b8() ? FULL : CLAIMED, cpos[i] = p;
        else if (nd_b8()) st[i] = FREE, cpos[i] = p;
        else st[i] = TAKEN, cpos[i] = p - CELLS;
        cells[i].seq = cpos[i] + (st[i] == FULL || st[i] == TAKEN);
        any(&want[i]);
        cells[i].data = want[i];
        if (st[i] == FREE || st[i] == CLAIMED) any(&cells[i].data);
    }
    q.tail = gt, q.head = gh, steps = STEPS;
}
void q_push(void) {
    task_data_t d;
    any(&d);
    any_state();
    pushing = 1;
    i64_t r = mpmc_push(&q, d);
    look();
    CHECK(r == 0 || r == -1, "done or full");
    CHECK(claimed == (r == 0) && done == claimed, "a task is put exactly once, or not at all");
    if (r == -1) CHECK(was_full, "refused only when the queue is full");
    for (int i = 0; i < CELLS; i++) {
        if (claimed && cpos[i] == mypos) { CHECK(st[i] == FULL ? same(&cells[i].data, &d) : 1, "the task is stored as it is"); continue; }
        if (st[i] == FULL || st[i] == TAKEN) CHECK(same(&cells[i].data, &want[i]), "other tasks stay as they are");
    }
    REACH();
}
void q_pop(void) {
    any_state();
    task_data_t before[CELLS];
    task_data_t d = mpmc_pop(&q);
    look();
    CHECK(done == claimed && claimed == (d.id != -1), "a task is taken exactly once, or none");
    if (!claimed) CHECK(was_empty, "none only when the queue is empty");
    else for (int i = 0; i < CELLS; i++) if ((mypos & (CELLS - 1)) == i && cpos[i] == mypos + CELLS && st[i] == FREE) CHECK(same(&d, &want[i]), "a task is taken as it was put");
    for (int i = 0; i < CELLS; i++) if (st[i] == FULL || st[i] == TAKEN) CHECK(same(&cells[i].data, &want[i]), "other tasks stay as they are");
    (void)before;
    REACH();
}
#elif defined(MAP)
// ---- positions
static struct pool_t pl;
static struct runtime_t rt;
static i64_t tasks, covered, total;
static u8_t ctx_obj;
static obj_p part(i64_t len, i64_t off, void *ctx) { CHECK(ctx == &ctx_obj && off == covered && len >= 0 && off + len <= total, "parts follow each other"); covered += len; tasks++; return NULL_OBJ; }
pool_p pool_get(nil_t) { return &pl; }
nil_t pool_prepare(pool_p p) { CHECK(p == &pl && tasks == 0, "prepared once"); }
nil_t pool_add_task(pool_p p, raw_p fn, i64_t argc, ...) {
    va_list ap;
    CHECK(p == &pl && argc == 3 && fn == (raw_p)part, "the task");
    va_start(ap, argc);
    i64_t len = (i64_t)va_arg(ap, raw_p), off = (i64_t)va_arg(ap, raw_p);
    void *c = va_arg(ap, raw_p);
    va_end(ap);
    part(len, off, c);
}
obj_p pool_run(pool_p p) { CHECK(p == &pl, "the pool"); return NULL_OBJ; }
i64_t rc_sync_get() { return nd_b8(); }
void q_map(void) {
    vf_init();
    pl.executors_count = N;
    total = nd_in(0, 1ll << 40);
    pool_map(total, part, &ctx_obj);
    CHECK(covered == total, "every position is in exactly one part");
    CHECK(tasks == 1 || tasks == N, "as many parts as workers");
    REACH();
}
void q_chunk(void) {
    i64_t len = nd_in(1, 1ll << 40), c = pool_chunk_aligned(len, N, ELEM), off = 0;
    CHECK(c > 0, "parts have a size");
    for (i64_t i = 0; i < N - 1 && off < len; i++) off += c;     // the pattern of its callers
    CHECK(off >= len || len - off <= c, "as many parts as workers cover everything");
    if (N > 1 && ELEM < RAY_PAGE_SIZE) CHECK(c * ELEM % RAY_PAGE_SIZE == 0, "parts end at pages");
    REACH();
}
void q_split(void) {
    pl.executors_count = nd_in(1, 1024);
    i64_t len = nd_in(0, 1ll << 40), g = nd_in(0, 1ll << 34), r = pool_split_by_mem(&pl, len, g, ELEM);
    CHECK(r >= 1 && r <= pl.executors_count, "between one part and one for each worker");
    CHECK(r == 1 || len > r, "no part is empty");
    CHECK(r == 1 || g * ELEM * r <= 64ll << 20, "within the memory set aside");
    REACH();
}
#else
// ---- a round of work: tasks are added, the queue growing on the way, and carried out
static union { struct pool_t p; u8_t room[sizeof(struct pool_t) + 2 * sizeof(executor_t)]; } plu;
#define pl (plu.p)
static struct { struct mpmc_t q; struct cell_t c[8]; } mem[4];
static int nmem, nbuf;
static b8_t bufnext;
raw_p heap_mmap(i64_t n) {
    raw_p r;
    if (n == (i64_t)sizeof(struct mpmc_t)) { CHECK(nmem < 4, "few queues"); r = &mem[nmem++].q; }
    else { CHECK(n <= (i64_t)sizeof(mem[0].c) && nmem > 0, "room for cells"); r = mem[nmem - 1].c; }
    return r;
}
nil_t heap_unmap(raw_p p, i64_t n) { (void)p; (void)n; }
static int runs[8], borrowed, merged, locked, sync_on;
static obj_p results[8];
static b8_t wrong_args;
static raw_p val0[8], val1[8];
static obj_p work(raw_p pi, raw_p pa, raw_p pb) {
    i64_t i = (u8_t *)pi - (u8_t *)0;
    if (i < 0 || i >= TASKS || pa != val0[i] || pb != val1[i]) { wrong_args = 1; return NULL_OBJ; }
    runs[i]++;
    return results[i];
}
nil_t mutex_lock(mutex_t *m) { (void)m; CHECK(!locked, "not locked twice"); locked = 1; }
nil_t mutex_unlock(mutex_t *m) { (void)m; CHECK(locked, "was locked"); locked = 0; }
i32_t cond_signal(cond_t *c) { (void)c; return 0; }
i32_t cond_broadcast(cond_t *c) { (void)c; return 0; }
nil_t heap_borrow(heap_p h) { (void)h; borrowed++; }
nil_t heap_merge(heap_p h) { (void)h; merged++; }
static i64_t taken;     // tasks the second worker has carried out without having said so
static void worker(void) {
    task_data_t d = mpmc_pop(pl.task_queue);
    if (d.id == -1) return;
    d.result = pool_call_task_fn(d.fn, d.argc, d.argv);
    CHECK(mpmc_push(pl.result_queue, d) == 0, "room for every result");
    taken++;
}
i32_t cond_wait(cond_t *c, mutex_t *m) { (void)c; (void)m; CHECK(locked, "waits with the lock"); ASSUME(taken > 0); pl.done_count += taken, taken = 0; return 0; }
static i64_t first;     // how many tasks the second worker takes before the first one starts
nil_t rc_sync_set(i64_t v) { if (v) { sync_on = 1; for (i64_t i = 0; i < first; i++) worker(); } else { CHECK(sync_on, "on before off"); sync_on = 0; } }
static struct obj_t objs[8], err_o;
static struct { struct obj_t o; obj_p v[8]; } lst;
static i64_t drops, clones;
obj_p vector(i8_t t, i64_t n) { CHECK(t == TYPE_LIST && n == TASKS, "a list of results"); lst.o.type = TYPE_LIST, lst.o.len = n; return &lst.o; }
obj_p ins_obj(obj_p *o, i64_t i, obj_p v) { CHECK(*o == &lst.o && i >= 0 && i < TASKS && lst.v[i] == NULL, "each result once"); lst.v[i] = v; return *o; }
obj_p clone_obj(obj_p o) { clones++; return o; }
nil_t drop_obj(obj_p o) { CHECK(o == &lst.o, "the results"); drops++; }
void q_round(void) {
    vf_init();
    b8_t any_err = 0;
    pl.executors_count = 2, pl.task_queue = mpmc_create(2), pl.result_queue = mpmc_create(2);
    pl.tasks_count = nd_in(0, 9), pl.done_count = nd_in(0, 9);
    for (int i = 0; i < TASKS; i++) {
        b8_t e = nd_b8();
        any_err |= e;
        objs[i].type = e ? TYPE_ERR : TYPE_I64;
        results[i] = &objs[i], val0[i] = (raw_p)nd_u64(), val1[i] = (raw_p)nd_u64();
    }
    pool_prepare(&pl);
    CHECK(!locked && borrowed == 1, "every other worker lends its memory");
    for (int i = 0; i < TASKS; i++) pool_add_task(&pl, (raw_p)work, 3, (i64_t)i, val0[i], val1[i]);
    first = FIRST;
    obj_p r = pool_run(&pl);
    for (int i = 0; i < TASKS; i++) CHECK(runs[i] == 1, "every task runs exactly once");
    CHECK(!wrong_args, "with its arguments");
    CHECK(!locked && !sync_on && merged == 1, "every other worker gets its memory back");
    for (int i = 0; i < TASKS; i++) CHECK(lst.v[i] == results[i], "results are in the order of the tasks");
    if (!any_err) CHECK(r == &lst.o && drops == 0, "the results");
    else {
        int k = 0;
        while (objs[k].type != TYPE_ERR) k++;
        CHECK(r == &objs[k] && drops == 1 && clones == 1, "the first error, and the results are released");
    }
    REACH();
}
#endif
