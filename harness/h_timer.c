// P28: timers.  Every operation starts from an arbitrary schedule of N timers that satisfies the
// invariant (earliest-first heap, distinct identifiers) and must preserve it, so histories of any
// length are covered up to N timers.  Callbacks are recorded by a stand-in for call; time is a
// symbolic clock that never runs backwards.
#include "vf.h"
#include "core/chrono.h"
#include "core/poll.h"
#include "core/lambda.h"
nil_t timer_del(timers_p timers, i64_t id);
i64_t timer_add(timers_p timers, i64_t tic, i64_t exp, i64_t num, obj_p clb);
ray_timer_p timer_pop(timers_p timers);
obj_p ray_timer(obj_p *x, i64_t n);
#ifndef N
#define N 3
#endif
#ifndef ROOM
#define ROOM 1
#endif
#ifndef INCB
#define INCB 0        // operation performed inside the callbacks: 0 none, 1 delete an arbitrary timer, 2 add one
#endif
#ifndef MAXFIRE
#define MAXFIRE 2
#endif
#define M (N + 2)
static struct { b8_t live; i64_t id, due, tic, left; } m[M];   // what should be scheduled
static struct obj_t cb_0, cb_1, cb_2, cb_3, cb_4, cb_5, cb_6;   // separate objects: cheap to track
static obj_p cb[7] = {&cb_0, &cb_1, &cb_2, &cb_3, &cb_4, &cb_5, &cb_6};   // callback of timer i
static struct ray_timer_t s_0, s_1, s_2, s_3, s_4;
static ray_timer_p slot[5] = {&s_0, &s_1, &s_2, &s_3, &s_4};
static ray_timer_p arr[N + 1];
static i64_t nm, nowt, fires, added;
static struct timers_t tsv;
static timers_p ts = &tsv;
// references are only counted, blocks never released
obj_p clone_obj(obj_p x) { x->rc++; return x; }
nil_t drop_obj(obj_p x) { if (x->type != TYPE_LAMBDA) return; CHECK(x->rc > 0, "a callback is not released twice"); x->rc--; }
nil_t heap_free(raw_p p) { (void)p; }
raw_p heap_realloc(raw_p p, i64_t n) {
    raw_p q = heap_alloc(n);
    for (i64_t i = 0; i < ts->size; i++) ((ray_timer_p *)q)[i] = ((ray_timer_p *)p)[i];
    return q;
}
i64_t get_time_millis(nil_t) { return nowt += nd_in(0, 1 << 20); }
static void start(void) {
    vf_init();
    nowt = nd_in(0, 1ll << 40);
    for (i64_t i = 0; i < M; i++) cb[i]->type = TYPE_LAMBDA, cb[i]->rc = 0;
    for (i64_t i = 0; i < N; i++) {
        arr[i] = slot[i];
        slot[i]->id = nd_in(0, 1ll << 40), slot[i]->tic = nd_in(1, 1 << 20), slot[i]->exp = nd_in(0, 1ll << 41), slot[i]->num = nd_in(-1, 2), slot[i]->clb = cb[i];
        if (slot[i]->num == -1) slot[i]->num = NULL_I64;
        ASSUME(slot[i]->num != 0);
        for (i64_t j = 0; j < i; j++) ASSUME(slot[j]->id != slot[i]->id);
        if (i) ASSUME(slot[(i - 1) / 2]->exp <= slot[i]->exp);
        m[i].live = 1, m[i].id = slot[i]->id, m[i].due = slot[i]->exp, m[i].tic = slot[i]->tic, m[i].left = slot[i]->num == NULL_I64 ? -1 : slot[i]->num;
        cb[i]->rc = 1;
    }
    nm = N;
    tsv.timers = arr, tsv.size = N, tsv.capacity = N + ROOM;
    if (tsv.capacity == 0) tsv.capacity = 1;
    tsv.counter = nd_in(0, 1ll << 41);
    for (i64_t i = 0; i < N; i++) ASSUME(slot[i]->id < tsv.counter);
}
static i64_t nlive(void) { i64_t n = 0; for (i64_t i = 0; i < nm; i++) n += m[i].live; return n; }
static void invariant(void) {
    CHECK(ts->size == nlive(), "every scheduled timer that has not finished or been removed is kept");
    for (i64_t i = 0; i < N + 1 && i < ts->size; i++) {
        ray_timer_p t = ts->timers[i];
        if (i) CHECK(ts->timers[(i - 1) / 2]->exp <= t->exp, "the schedule stays ordered: the timer due earliest is next");
        b8_t known = 0;
        for (i64_t j = 0; j < nm; j++) known |= m[j].live && m[j].id == t->id && m[j].due == t->exp && m[j].tic == t->tic && t->num == (m[j].left < 0 ? NULL_I64 : m[j].left) && t->clb == cb[j];
        CHECK(known, "the timers kept are the live ones, with the time they are due");
        for (i64_t j = 0; j < i; j++) CHECK(ts->timers[j]->id != t->id, "no timer is there twice");
        CHECK(t->id < ts->counter, "identifiers are not handed out again");
    }
    for (i64_t i = 0; i < nm; i++) CHECK(cb[i]->rc == m[i].live, "a callback is held exactly as long as its timer");
}
static void add(void) {
    i64_t tic = nd_in(1, 1 << 20), num = nd_in(0, 2), exp = nd_in(0, 1ll << 41), i = nm++;
    cb[i]->rc = 1;
    m[i].id = timer_add(ts, tic, exp, num == 0 ? NULL_I64 : num, cb[i]);
    for (i64_t j = 0; j < i; j++) CHECK(m[i].id != m[j].id, "every timer gets its own identifier");
    m[i].live = 1, m[i].due = exp, m[i].tic = tic, m[i].left = num == 0 ? -1 : num;
}
static void del(void) {
    i64_t k = nd_i64();   // an identifier that may or may not exist
    timer_del(ts, k);
    for (i64_t i = 0; i < nm; i++) if (m[i].id == k) m[i].live = 0;
}
obj_p call(obj_p f, i64_t n) {
    i64_t t = __VM->ps[__VM->sp - 1]->i64, k = -1;
    (void)n;
    for (i64_t i = 0; i < nm; i++)
        if (cb[i] == f) {
            k = i;
            CHECK(m[i].live && cb[i]->rc > 0, "only a live timer fires, its callback alive");
            CHECK(t == nowt && m[i].due <= t, "a timer never fires before it is due");
            for (i64_t j = 0; j < nm; j++) CHECK(!m[j].live || m[j].due >= m[i].due, "the timer due earliest fires first");
            if (m[i].left > 0 && --m[i].left == 0) m[i].live = 0;
            else m[i].due += m[i].tic;
        }
    CHECK(k >= 0, "only a scheduled callback is called");
    fires++;
    ASSUME(fires <= MAXFIRE);
    if (INCB == 1) del();
    if (INCB == 2 && added++ < 1) add();
    return NULL_OBJ;
}
void h_add(void) { start(); add(); invariant(); REACH(); }
void h_del(void) { start(); del(); invariant(); REACH(); }
void h_pop(void) {
    start();
    ray_timer_p t = timer_pop(ts);
    CHECK(N ? t == slot[0] : t == NULL, "the timer due earliest is taken");
    if (N) m[0].live = 0, cb[0]->rc = 0;
    invariant();
    REACH();
}
void h_fire(void) {
    start();
    i64_t w = timer_next_timeout(ts), next = -1;
    for (i64_t i = 0; i < nm; i++)
        if (m[i].live) {
            CHECK(m[i].due > nowt, "every timer that is due has fired");
            if (next < 0 || m[i].due < next) next = m[i].due;
        }
    CHECK(next < 0 ? w == TIMEOUT_INFINITY : w == next - nowt, "the announced waiting time is the time until the next timer is due");
    invariant();
    REACH();
}
// the language interface
static struct poll_t pl;
void h_ray(void) {
    start();
    vf_rt.poll = &pl;
    pl.timers = ts;
    static struct { struct obj_t o; struct lambda_f l; } lam;
    obj_p x[3], r, f = &lam.o;
    f->type = TYPE_LAMBDA, f->rc = 1;
    AS_LAMBDA(f)->args = vector(TYPE_SYMBOL, 1);
    i64_t tic = nd_in(1, 1 << 20), n = nd_in(0, 3);
    x[0] = i64(tic), x[1] = i64(n), x[2] = f;
    r = ray_timer(x, 3);
    CHECK(r->type == -TYPE_I64 && ts->size == N + 1 && f->rc == 2, "scheduling gives an identifier");
    b8_t found = 0;
    for (int j = 0; j <= N; j++) if (ts->timers[j]->id == r->i64) found = ts->timers[j]->tic == tic && ts->timers[j]->num == (n ? n : NULL_I64) && ts->timers[j]->exp == nowt + tic && ts->timers[j]->clb == f;
    CHECK(found, "the identifier names the timer just scheduled");
    x[0] = r;
    r = ray_timer(x, 1);
    CHECK(r == NULL_OBJ, "the identifier removes the timer");
    invariant();
    REACH();
}
