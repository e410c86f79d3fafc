// P27: connection identifiers.  Every operation starts from an arbitrary valid table of D slots,
// live or free in any order, and must keep it valid.
#include "vf.h"
#include "core/freelist.h"
#include "core/poll.h"
#ifndef D
#define D 3
#endif
#ifndef ROOM
#define ROOM 1
#endif
#define S (D + ROOM ? D + ROOM : 1)
static struct freelist_t fl;
static i64_t data[S + 1], fre[S + 1], model[D + 2];   // model: NULL_I64 when free
raw_p heap_realloc(raw_p p, i64_t n) {
    i64_t *q = heap_alloc(n);
    for (i64_t i = 0; i < S && i * 8 < n; i++) q[i] = ((i64_t *)p)[i];
    return q;
}
nil_t heap_free(raw_p p) { (void)p; }
static void start(void) {
    vf_init();
    fl.data = data, fl.free = fre, fl.data_size = S, fl.data_pos = D, fl.free_size = S, fl.free_pos = 0;
    i64_t nfree = nd_in(0, D), cnt = 0;
    for (i64_t i = 0; i < D; i++) {
        if (nd_b8()) { model[i] = data[i] = NULL_I64; cnt++; }
        else { model[i] = data[i] = nd_i64(); ASSUME(data[i] != NULL_I64 && data[i] != 0); }
    }
    ASSUME(cnt == nfree);
    for (i64_t i = 0; i < D; i++)
        if (i < nfree) {
            fre[i] = nd_in(0, D - 1);
            for (i64_t k = 0; k < D; k++) if (fre[i] == k) ASSUME(data[k] == NULL_I64);
            for (i64_t j = 0; j < i; j++) ASSUME(fre[j] != fre[i]);
        }
    fl.free_pos = nfree;
}
static void invariant(void) {
    i64_t cnt = 0;
    CHECK(fl.data_pos >= D && fl.data_pos <= fl.data_size && fl.free_pos <= fl.free_size, "the table stays within its storage");
    for (i64_t i = 0; i < D + 1 && i < fl.data_pos; i++) {
        CHECK(freelist_get(&fl, i) == model[i], "every live identifier still names its connection, others nothing");
        cnt += model[i] == NULL_I64;
    }
    CHECK(cnt == fl.free_pos, "every released identifier is free exactly once");
    for (i64_t i = 0; i < D + 1 && i < fl.free_pos; i++) {
        CHECK(fl.free[i] >= 0 && fl.free[i] < fl.data_pos && freelist_get(&fl, fl.free[i]) == NULL_I64, "only released identifiers are free");
        for (i64_t j = 0; j < i; j++) CHECK(fl.free[j] != fl.free[i], "no identifier is free twice");
    }
    i64_t out = nd_i64();
    ASSUME(out < 0 || out >= fl.data_pos);
    CHECK(freelist_get(&fl, out) == NULL_I64, "an identifier never handed out names nothing");
}
void h_push(void) {
    start();
    i64_t v = nd_i64(), id;
    ASSUME(v != NULL_I64 && v != 0);
    for (i64_t i = D; i < D + 2; i++) model[i] = NULL_I64;
    id = freelist_push(&fl, v);
    CHECK(id >= 0 && id <= D, "identifiers are small");
    for (i64_t i = 0; i <= D; i++) if (i == id) { CHECK(model[i] == NULL_I64, "an identifier in use is not handed out"); model[i] = v; }
    invariant();
    REACH();
}
void h_pop(void) {
    start();
    i64_t id = nd_i64(), r, want = NULL_I64;
    for (i64_t i = 0; i < D; i++) if (i == id) { want = model[i]; model[i] = NULL_I64; }
    r = freelist_pop(&fl, id);
    CHECK(r == want, "releasing gives the connection, nothing when it is not live");
    invariant();
    REACH();
}
void h_create(void) {
    vf_init();
    freelist_p f = freelist_create(2);
    i64_t a = freelist_push(f, 1), b = freelist_push(f, 2), c;
    CHECK(a != b && freelist_get(f, a) == 1 && freelist_get(f, b) == 2 && f->free_pos == 0, "a new table");
    b8_t w = nd_b8();
    CHECK(freelist_pop(f, w ? a : b) == (w ? 1 : 2), "release");
    c = freelist_push(f, 3);
    CHECK(c == (w ? a : b) && freelist_get(f, w ? b : a) == (w ? 2 : 1) && freelist_get(f, c) == 3, "reuse");
    REACH();
}
#ifdef POLL
// registration and release of connections; the kernel's part is a stand-in that may refuse
#include <sys/epoll.h>
static struct poll_t pl;
static i64_t closes;
static selector_p expect;
int epoll_ctl(int e, int op, int fd, struct epoll_event *ev) { (void)e; (void)fd; (void)ev; return op == EPOLL_CTL_ADD && nd_b8() ? -1 : 0; }
static obj_p on_close(poll_p p, selector_p s) {
    closes++;
    CHECK(s == expect, "the connection released is the one named");
    CHECK(poll_get_selector(p, s->id) == NULL, "an identifier being released is not live");
    return NULL_OBJ;
}
void h_poll(void) {
    vf_init();
    pl.selectors = freelist_create(2);
    struct poll_registry_t r;
    memset(&r, 0, sizeof r);
    r.close_fn = (raw_p)on_close;
    i64_t id[3];
    selector_p s[3];
    for (int i = 0; i < 3; i++) {
        r.fd = 10 + i;
        id[i] = poll_register(&pl, &r);
        s[i] = id[i] < 0 ? NULL : poll_get_selector(&pl, id[i]);
        if (id[i] >= 0) {
            CHECK(s[i] != NULL && s[i]->fd == 10 + i && s[i]->id == id[i], "a registered connection is found by its identifier");
            for (int j = 0; j < i; j++) CHECK(id[j] < 0 || id[j] != id[i], "live connections have different identifiers");
        }
        if (i == 1) {
            i64_t k = nd_in(-3, 6);
            expect = poll_get_selector(&pl, k);
            CHECK(expect == NULL || (expect == s[0] && k == id[0]) || (expect == s[1] && k == id[1]), "an identifier that is not live names nothing");
            i64_t c = poll_deregister(&pl, k);
            CHECK(expect ? c == 0 && closes == 1 : c == -1 && closes == 0, "releasing closes the connection once");
            CHECK(poll_get_selector(&pl, k) == NULL && poll_deregister(&pl, k) == -1, "a released identifier names nothing");
            for (int j = 0; j < 2; j++) if (id[j] == k) id[j] = -1; else if (id[j] >= 0) CHECK(poll_get_selector(&pl, id[j]) == s[j], "other identifiers are not affected");
        }
    }
    for (int j = 0; j < 3; j++) if (id[j] >= 0) CHECK(poll_get_selector(&pl, id[j]) == s[j], "an identifier stays valid until released");
    REACH();
}
#endif
