// P26, sending: queued messages leave in order, each once, however much the socket takes at a time.
#include "vf.h"
#include <errno.h>
#include "core/ipc.h"
#include "core/poll.h"
#include "core/serde.h"
#include <sys/epoll.h>
#define HS ISIZEOF(struct ipc_header_t)
static struct poll_t pl;
static struct { i64_t pad; struct selector_t s; } holder;     // not at offset 0: its address must not look like the descriptor of the shutdown event
#define sel holder.s
static int closed, events_left, freed;
i64_t poll_deregister(poll_p p, i64_t id) { (void)p; CHECK(id == 7 && !closed, "the connection is closed once"); closed = 1; return 0; }
i64_t timer_next_timeout(timers_p t) { (void)t; return 0; }
int epoll_wait(int fd, struct epoll_event *ev, int max, int timeout) {
    (void)fd; (void)max; (void)timeout;
    if (!events_left--) { pl.code = 0; return 0; }
    ev[0].events = EPOLLOUT, ev[0].data.ptr = &sel;
    return 1;
}
// four messages of 2, 1, 3 and 2 bytes
typedef struct { struct poll_buffer_t b; u8_t d[4]; } mb_t;
static mb_t m0, m1, m2, m3;
static b8_t live[4];
static u8_t all[8], sent[9];
static i64_t nsent;
nil_t heap_free(raw_p p) {
    int k = p == (raw_p)&m0 ? 0 : p == (raw_p)&m1 ? 1 : p == (raw_p)&m2 ? 2 : p == (raw_p)&m3 ? 3 : -1;
    CHECK(k >= 0 && live[k], "only queued messages are released, once");
    live[k] = 0, freed++;
}
static i64_t quota;   // bytes the socket still takes
static i64_t take(i64_t fd, u8_t *from, i64_t n) {
    (void)fd;
    CHECK(n > 0 && !closed, "something is left to send");
    if (quota == 0) { errno = EAGAIN; return 0; }
    i64_t k = n < quota ? n : quota;
#ifdef SHORT
    if (k > SHORT) k = SHORT;
#endif
    quota -= k;
    for (i64_t i = 0; i < k; i++) { CHECK(nsent < 8, "nothing is sent twice"); sent[nsent++] = from[i]; }
    return k;
}
static void put(mb_t *m, int k, int n, int at, i64_t more) {
    m->b.size = n, m->b.offset = 0, m->b.next = NULL, live[k] = 1;
    for (int i = 0; i < n; i++) m->d[i] = all[at + i];
    quota = more;
    poll_send_buf(&pl, &sel, &m->b);
}
static int start(void) {
    vf_init();
    pl.code = NULL_I64, sel.id = 7, sel.fd = 5, sel.tx.send_fn = take, sel.tx.buf = NULL;
    for (int i = 0; i < 8; i++) all[i] = nd_u8();
    return 0;
}
static void prefix(i64_t total) {
    CHECK(nsent <= total, "nothing is made up");
    for (i64_t i = 0; i < 8; i++) if (i < nsent) CHECK(sent[i] == all[i], "bytes leave in order");
    i64_t left = 0;
    int seen = 0;
    for (poll_buffer_p b = sel.tx.buf; b != NULL && seen < 4; b = b->next) left += b->size - b->offset, seen++;
    CHECK(nsent + left == total, "whatever was not sent is still queued");
}
static void again(i64_t more, i64_t total) {
    events_left = 1, pl.code = NULL_I64, quota = more;
    poll_run(&pl);
    prefix(total);
}
static void send_at(i64_t c) {      // the digits of c: how many bytes the socket takes at each step
    start();
    put(&m0, 0, 2, 0, c % 3), prefix(2);
    put(&m1, 1, 1, 2, c / 3 % 3), prefix(3);
    put(&m2, 2, 3, 3, c / 9 % 3), prefix(6);
#ifdef LATE
    again(c / 27 % 5, 6);
#endif
    put(&m3, 3, 2, 6, 0), prefix(8);
    again(2, 8);
    again(8, 8);
    CHECK(!closed && nsent == 8 && freed == 4 && sel.tx.buf == NULL, "everything is sent and released");
}
#ifdef LATE
#define CASES 134
#else
#define CASES 26
#endif
void q_send(void) {
    i64_t c = nd_in(0, CASES);
    for (i64_t k = 0; k <= CASES; k++) if (c == k) { send_at(k); if (k == CASES) { REACH(); return; } ASSUME(0); }
}
// a message on the wire: header and body
static struct { struct poll_buffer_t b; u8_t d[64]; } out;
static i64_t asked;
static struct obj_t val;
#ifdef MSG
poll_buffer_p poll_buf_create(i64_t n) { CHECK(n >= HS && n <= 64, "a plausible size"); asked = n; out.b.size = n; return &out.b; }
i64_t poll_send_buf(poll_p p, selector_p s, poll_buffer_p b) { (void)p; CHECK(s == &sel && b == &out.b, "the message is sent"); nsent++; return 0; }
i64_t size_obj(obj_p o) { return o == &val ? 5 : 3; }
i64_t ser_raw(u8_t *b, obj_p o) { i64_t n = size_obj(o); for (i64_t i = 0; i < n; i++) b[i] = (u8_t)(65 + i); return n; }
void q_msg(void) {
    vf_init();
    u8_t t = nd_u8();
    ipc_send_msg(&pl, &sel, &val, t);
    ipc_header_t *h = (ipc_header_t *)out.d;
    CHECK(asked == HS + 5 && nsent == 1, "room for header and body, sent once");
    CHECK(h->prefix == SERDE_PREFIX && h->size == 5 && h->msgtype == t && h->version == RAYFORCE_VERSION, "the header announces the body");
    for (int i = 0; i < 5; i++) CHECK(out.d[HS + i] == 65 + i, "the body follows");
    REACH();
}
#endif
