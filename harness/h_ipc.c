// P26: messages are reassembled exactly, however their bytes arrive, and sent in order, however the socket takes them.
#include "vf.h"
#include <errno.h>
#include "core/ipc.h"
#include "core/poll.h"
#include "core/serde.h"
#include <sys/epoll.h>
#define HS ISIZEOF(struct ipc_header_t)
#ifndef SHORT
#define SHORT 99
#endif
#ifndef A
#define A 2     // payload sizes
#define B 1
#endif
static struct poll_t pl;
static struct { i64_t pad; struct selector_t s; } holder;     // not at offset 0: its address must not look like the descriptor of the shutdown event
#define sel holder.s
static struct ipc_ctx_t ctx;
static int closed, opened, events_left;
static u32_t event;
// ---- storage: one receive buffer at a time, whose size the harness remembers
static struct { struct poll_buffer_t b; u8_t d[64]; } room;
static i64_t room_size;     // bytes allocated, -1: none
static b8_t no_memory;
raw_p heap_alloc(i64_t n) {
    CHECK(room_size < 0, "one receive buffer at a time");
    CHECK(n >= ISIZEOF(struct poll_buffer_t) && n <= ISIZEOF(room), "a plausible size");
    room_size = n;
    return &room;
}
raw_p heap_realloc(raw_p p, i64_t n) {
    CHECK(p == (raw_p)&room && room_size >= 0, "the receive buffer is resized");
    if (no_memory) return NULL;
    CHECK(n >= ISIZEOF(struct poll_buffer_t) && n <= ISIZEOF(room), "a plausible size");
    room_size = n;
    return p;
}
i64_t poll_deregister(poll_p p, i64_t id) { (void)p; CHECK(id == 7 && !closed, "the connection is closed once"); closed = 1; return 0; }
nil_t ipc_call_usr_cb(poll_p p, selector_p s, lit_p n, i64_t l) { (void)p; (void)s; (void)l; CHECK(n[3] == 'p' && n[4] == 'o', "the callback for new connections"); opened++; }
i64_t timer_next_timeout(timers_p t) { (void)t; return 0; }
int epoll_wait(int fd, struct epoll_event *ev, int max, int timeout) {
    (void)fd; (void)max; (void)timeout;
    if (!events_left--) { pl.code = 0; return 0; }
    struct epoll_event e = {.events = event, .data.ptr = &sel};
    ev[0] = e;
    return 1;
}
// ---- the other side
#define TOTAL (HS + A + HS + B + 4)
static u8_t stream[TOTAL + HS];
static i64_t pos, avail;
static i64_t arrive(i64_t fd, u8_t *to, i64_t want) {
    (void)fd;
    CHECK(!closed, "nothing is read from a closed connection");
    i64_t off = to - room.d;
    CHECK(want > 0 && off >= 0 && off + want + ISIZEOF(struct poll_buffer_t) <= room_size, "received bytes stay inside the buffer");
    i64_t left = avail - pos;
    if (left == 0) { errno = EAGAIN; return 0; }
    i64_t n = want < SHORT ? want : SHORT;   // what one receive takes
    if (n > left) n = left;
    for (i64_t i = 0; i < n; i++) room.d[off + i] = stream[pos + i];
    pos += n;
    return n;
}
static struct obj_t msgs[2];
static int got, taken;
obj_p de_raw(u8_t *buf, i64_t *len) {
    i64_t n = got == 0 ? A : B, o = got == 0 ? HS : HS + A + HS;
    CHECK(got < 2 && buf == room.d + HS && *len == n, "exactly one message's body is read");
    for (i64_t i = 0; i < (A > B ? A : B); i++) if (i < n) CHECK(buf[i] == stream[o + i], "unaltered");
    *len = 0;
    return &msgs[got++];
}
static option_t data(poll_p p, selector_p s, raw_p v) {
    (void)p; (void)s;
    CHECK(v == (raw_p)&msgs[taken] && got == taken + 1, "every message is delivered once, in order");
    CHECK(ctx.msgtype == stream[taken == 0 ? 7 : HS + A + 7], "with its type");
    taken++;
    return option_some(NULL);
}
static void header(i64_t at, i64_t n) {
    for (i64_t i = 0; i < 8; i++) stream[at + i] = nd_u8();
    stream[at] = 0xfa, stream[at + 1] = 0xde, stream[at + 2] = 0xfa, stream[at + 3] = 0xce;
    for (i64_t i = 0; i < 8; i++) stream[at + 8 + i] = (u8_t)((u64_t)n >> (8 * i));
}
// a place in the stream, by cases, each followed alone
#define EACH(v, lo, hi, f) do { i64_t v##_ = nd_in(lo, hi); for (i64_t k_ = lo; k_ <= hi; k_++) if (v##_ == k_) { f(k_); if (k_ == hi) { REACH(); return; } ASSUME(0); } } while (0)
i64_t poll_send(poll_p p, selector_p s) { (void)p; (void)s; CHECK(0, "nothing is queued"); return -1; }
static void start(u32_t ev) {
    vf_init();
    pl.code = NULL_I64, sel.id = 7, sel.fd = 5, sel.data = &ctx, sel.data_fn = data, event = ev, events_left = 1, room_size = -1;
    sel.rx.recv_fn = arrive;
}
// two messages and the beginning of a third, P0 bytes of which are already there (phase: header or body of the first)
static void recv_at(i64_t n_avail) {
    start(EPOLLIN);
    for (i64_t i = 0; i < TOTAL; i++) stream[i] = nd_u8();
    header(0, A), header(HS + A, B), header(HS + A + HS + B, 1);
    i64_t p0 = P0;
    sel.rx.buf = &room.b, room.b.size = p0 < HS ? HS : HS + A, room.b.offset = p0, room_size = ISIZEOF(struct poll_buffer_t) + room.b.size;
    sel.rx.read_fn = p0 < HS ? ipc_read_header : ipc_read_msg, ctx.msgtype = stream[7];
    for (i64_t i = 0; i < p0; i++) room.d[i] = stream[i];
    pos = p0, avail = n_avail;
    poll_run(&pl);
    CHECK(!closed && pos == avail, "everything that arrived is read");
    i64_t ends[2] = {HS + A, HS + A + HS + B};
    CHECK(taken == (avail >= ends[0]) + (avail >= ends[1]), "every complete message is delivered");
    i64_t from = taken == 0 ? 0 : ends[taken - 1], have = avail - from;
    CHECK(sel.rx.buf == &room.b && room.b.offset == have, "the rest is kept");
    for (i64_t i = 0; i < HS + (A > B ? A : B); i++) if (i < have) CHECK(room.d[i] == stream[from + i], "unaltered");
    if (have < HS) CHECK(sel.rx.read_fn == ipc_read_header && room.b.size == HS, "a header is next");
    else CHECK(sel.rx.read_fn == ipc_read_msg && room.b.size == HS + (taken == 0 ? A : B) && ctx.msgtype == stream[from + 7], "a body is next");
}
void q_recv(void) { EACH(avail, P0 + 1, TOTAL, recv_at); }
// the handshake: any text up to its terminator
i64_t hello_len;
static u8_t reply[4];
static i64_t reply_len;
nil_t check_reply(void) { }
poll_buffer_p poll_buf_create(i64_t n) { static struct { struct poll_buffer_t b; u8_t d[64]; } out; CHECK(n <= 64, "a short reply"); out.b.size = n; return &out.b; }
i64_t poll_send_buf(poll_p p, selector_p s, poll_buffer_p b) {
    (void)p; (void)s;
    for (i64_t i = 0; i < b->size && i < 4; i++) reply[i] = b->data[i];
    reply_len = b->size;
    return b->size;
}
static void hello_at(i64_t n_avail) {
    start(EPOLLIN);
    for (i64_t i = 0; i < TOTAL; i++) stream[i] = nd_u8();
    i64_t n = N;     // the terminator's place
    for (i64_t i = 1; i < n; i++) stream[i] = (u8_t)('a' + i);
    stream[n] = 0;
    header(n + 1, 1);
    sel.rx.read_fn = ipc_read_handshake;
    ipc_on_open(&pl, &sel);
    pos = 0, avail = n_avail;
    poll_run(&pl);
    CHECK(!closed && pos == avail, "everything that arrived is read");
    if (avail > n) {
        CHECK(opened == 1 && reply_len == 1 && reply[0] == RAYFORCE_VERSION, "a complete handshake is answered once");
        CHECK(sel.rx.read_fn == ipc_read_header && room.b.size == HS && room.b.offset == avail - n - 1, "and messages follow");
        for (i64_t i = 0; i < 4; i++) if (i < avail - n - 1) CHECK(room.d[i] == stream[n + 1 + i], "from the next byte on");
    } else CHECK(!opened && reply_len == 0 && sel.rx.read_fn == ipc_read_handshake && room.b.offset == avail, "an incomplete handshake is waited for");
}
void q_hello(void) { EACH(avail, 1, N + 5, hello_at); }
// a header that is none: the connection is closed, or waits, without touching memory outside the buffer
void q_bad(void) {
    start(EPOLLIN);
    for (i64_t i = 0; i < TOTAL; i++) stream[i] = nd_u8();
    u32_t prefix = (u32_t)stream[0] | (u32_t)stream[1] << 8 | (u32_t)stream[2] << 16 | (u32_t)stream[3] << 24;
    i64_t size = 0;
    for (i64_t i = 0; i < 8; i++) size |= (i64_t)((u64_t)stream[8 + i] << (8 * i));
    ASSUME(prefix != SERDE_PREFIX || size <= 0 || size > IPC_MAX_MSG_SIZE);
    sel.rx.buf = &room.b, room.b.size = HS, room.b.offset = 0, room_size = ISIZEOF(struct poll_buffer_t) + HS, sel.rx.read_fn = ipc_read_header;
    avail = HS;
    poll_run(&pl);
    CHECK(closed && got == 0, "a malformed header closes the connection");
    REACH();
}
// no room for a message
void q_room(void) {
    start(EPOLLIN);
    header(0, A);
    sel.rx.buf = &room.b, room.b.size = HS, room.b.offset = 0, room_size = ISIZEOF(struct poll_buffer_t) + HS, sel.rx.read_fn = ipc_read_header;
    avail = HS + A, no_memory = 1;
    poll_run(&pl);
    CHECK(closed && got == 0, "a message there is no room for closes the connection");
    REACH();
}
// the peer goes away after any number of bytes
static i64_t broken(i64_t fd, u8_t *to, i64_t want) {
    i64_t n = pos < avail ? arrive(fd, to, want) : -1;
    if (n < 0) errno = ECONNRESET;
    return n;
}
static void gone_at(i64_t n_avail) {
    start(EPOLLIN);
    for (i64_t i = 0; i < TOTAL; i++) stream[i] = nd_u8();
    header(0, A), header(HS + A, B), header(HS + A + HS + B, 1);
    sel.rx.recv_fn = broken;
    sel.rx.buf = &room.b, room.b.size = HS, room.b.offset = 0, room_size = ISIZEOF(struct poll_buffer_t) + HS, sel.rx.read_fn = ipc_read_header;
    pos = 0, avail = n_avail;
    poll_run(&pl);
    CHECK(closed && pos == avail && taken == (avail >= HS + A), "what was complete is delivered, then the connection is closed");
}
void q_gone(void) { EACH(avail, 0, HS + A + 3, gone_at); }
