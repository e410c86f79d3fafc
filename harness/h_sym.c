// P05: interned symbols: one chain of any contents, and with another thread interning between any two atomic operations.
#include "vf.h"
#include "core/symbols.h"
#include "core/runtime.h"
#ifndef K
#define K 2     // symbols already in the chain
#endif
#ifndef LENS
#define LENS {2, 2, 1, 3}
#endif
#ifndef ROOM
#define ROOM 64
#endif
#define TMAX 12
static struct runtime_t rt;
static struct symbols_t st;
static symbol_p heads[2];
static str_p strs[8];
str_p string_intern(symbols_p symbols, lit_p str, i64_t len);
struct text { u32_t pad, n; u8_t c[TMAX]; };
static struct text t_0, t_1, t_2, t_4;    // texts of symbols: length and bytes
static struct text *const T[5] = {&t_0, &t_1, &t_2, NULL, &t_4};
static u8_t x[TMAX];
static struct symbol_t e_0, e_1, e_2, e_3, fresh;
static symbol_p const E[4] = {&e_0, &e_1, &e_2, &e_3};
static b8_t no_memory;
static int allocs;
raw_p heap_alloc(i64_t n) {
    CHECK(n == sizeof(struct symbol_t) && allocs++ == 0, "room for one symbol");
    return no_memory ? NULL : &fresh;
}
u64_t str_hash(lit_p s, i64_t n) { (void)s; (void)n; return 0; }    // everything in one chain
static const i64_t lens[4] = LENS;
static b8_t txt(str_p s, u8_t *t, i64_t n) {
    if (*(u32_t *)(s - 4) != n) return 0;
    for (i64_t i = 0; i < n; i++) if ((u8_t)s[i] != t[i]) return 0;
    return s[n] == 0;
}
static void put(int i, i64_t n) {
    T[i]->n = (u32_t)n;
    for (i64_t j = 0; j < n; j++) T[i]->c[j] = nd_u8();
    T[i]->c[n] = 0;
}
#ifdef POOLED   // ---- storage for texts; other threads take storage and make it grow between any two operations
static u8_t text_pool[256];
static i64_t committed, others, top;
static int steps, busy;     // busy: another thread is making storage grow
i64_t mmap_commit(raw_p p, i64_t n) {
    CHECK(!busy && (u8_t *)p == text_pool + committed && n >= 4096, "storage for texts grows at its end, by one thread at a time");
    committed += n;
    return 0;
}
static void other(void) {
    u8_t w = nd_u8() % 2;
    if (w && busy) busy = 0, committed += 4096, st.string_node = (str_p)text_pool + committed;
    else if (w && (i64_t)st.string_node != NULL_I64) busy = 1, st.string_node = (str_p)NULL_I64;
    else if (!w) others++, st.string_curr += 8;     // and writes into it: what must not be touched
}
void vf_step(void) { if (steps > 0 && nd_b8()) { steps--; other(); } }
nil_t backoff_spin(i64_t *r) { (void)r; if (steps > 0) { steps--; other(); } else ASSUME(0); }
void q_pool(void) {
    vf_init();
    u8_t before[32], *at;
    i64_t used = 8 * (nd_u8() % 2), n = LEN;
    committed = ROOM;
    st.string_pool = (str_p)text_pool, st.string_curr = (str_p)text_pool + used, st.string_node = (str_p)text_pool + committed;
    for (int i = 0; i < 32; i++) before[i] = text_pool[i] = nd_u8();
    for (int i = 0; i < n; i++) x[i] = nd_u8();
    steps = STEPS;
    str_p s = string_intern(&st, (lit_p)x, n);
    CHECK(txt(s, x, n), "a text is stored as it is");
    at = (u8_t *)s - 4;
    CHECK(((at - text_pool) & 3) == 0 && at >= text_pool + used, "lengths are aligned");
    CHECK((u8_t *)s + n + 1 <= text_pool + committed, "texts are in storage that is there");
    CHECK((u8_t *)s + n + 1 <= (u8_t *)st.string_curr && (at - text_pool - used) % 8 == 0 && at - text_pool - used <= others * 8 , "storage that was taken for it");
    if (!busy) CHECK((u8_t *)st.string_node == text_pool + committed, "the end of storage");
    else CHECK((i64_t)st.string_node == NULL_I64, "nobody else takes over");
    for (int i = 0; i < 32; i++) if (text_pool + i < at || text_pool + i > (u8_t *)s + n + 3) CHECK(text_pool[i] == before[i], "other texts stay");
    REACH();
}
#else
str_p string_intern(symbols_p s, lit_p p, i64_t n) {    // what q_pool establishes
    CHECK(s == &st && n <= TMAX - 2, "the table");
    T[4]->n = (u32_t)n;
    for (i64_t j = 0; j < n; j++) T[4]->c[j] = p[j];
    T[4]->c[n] = 0;
    return (str_p)T[4]->c;
}
static void start(int k) {
    vf_init();
    __RUNTIME = &rt, rt.symbols = &st;
    st.size = 2, st.count = k, st.syms = heads, st.strings = strs;
    heads[0] = NULL, heads[1] = &e_3, e_3.next = NULL, e_3.compact_id = 7;
    for (int i = 0; i < k; i++) {
        put(i, lens[i + 1]);
        E[i]->str = strs[i] = (str_p)T[i]->c, E[i]->compact_id = i, E[i]->next = heads[0], heads[0] = E[i];
        for (int j = 0; j < i; j++) ASSUME(!txt((str_p)T[j]->c, T[i]->c, T[i]->n));
    }
    for (i64_t j = 0; j < lens[0]; j++) x[j] = nd_u8();
}
#ifndef VF_STEP
nil_t backoff_spin(i64_t *r) { (void)r; CHECK(0, "nothing to wait for"); }
void q_one(void) {
    start(K);
    i64_t n = lens[0], w = -1;
    b8_t hit = 0;
    for (int i = 0; i < K; i++) if (txt((str_p)T[i]->c, x, n)) w = i, hit = 1;
    no_memory = nd_b8();
    symbol_p h = heads[0];
    i64_t id = symbols_intern((lit_p)x, n);
    if (hit) CHECK(id == w && allocs == 0 && heads[0] == h && st.count == K, "same text, same symbol");
    else if (no_memory) CHECK(id == NULL_I64 && heads[0] == h, "no memory: the table stays as it was");
    else {
        CHECK(id == K && st.count == K + 1, "another text, another symbol");
        CHECK(heads[0] == &fresh && fresh.next == h && fresh.compact_id == id && fresh.str == strs[id], "it is in its chain");
        CHECK(symbol_strlen(id) == n && txt(str_from_symbol(id), x, n), "a symbol reads back as its text");
    }
    CHECK(heads[1] == &e_3 && e_3.compact_id == 7 && e_3.next == NULL, "other chains stay");
    for (int i = 0; i < K; i++) {
        CHECK(strs[i] == (str_p)T[i]->c && E[i]->str == strs[i] && E[i]->compact_id == i && E[i]->next == (i ? E[i - 1] : NULL), "other symbols stay");
        CHECK(symbol_strlen(i) == T[i]->n && str_from_symbol(i) == (str_p)T[i]->c, "a symbol reads back as its text");
    }
    CHECK(symbols_intern((lit_p)x, 0) == NULL_I64 && symbol_strlen(NULL_I64) == 0 && str_from_symbol(NULL_I64)[0] == 0, "the empty text is null");
    allocs = 0, no_memory = 1;
    CHECK(symbols_intern((lit_p)x, n) == id, "interning again yields the same symbol");
    REACH();
}
#else
static u8_t byte_of(lit_p s) { return s == (lit_p)t_0.c ? t_0.c[0] : s == (lit_p)t_1.c ? t_1.c[0] : s == (lit_p)t_2.c ? t_2.c[0] : t_4.c[0]; }
i64_t str_cmp(lit_p a, i64_t m, lit_p b, i64_t n) { (void)b; (void)n; (void)m; return (i64_t)byte_of(a) - x[0]; }    // texts of one byte
// ---- another thread: interns two texts (T[1], T[2]) in the same chain, in steps: lock, insert and unlock
static i64_t oid[2];
static int phase;   // 0: idle, 1: holds the chain for the first, 2: done with it, 3: holds the chain for the second, 4: done
static symbol_p held;
static int steps;
static void other(void) {
    if (phase == 0 || phase == 2) {
        if ((i64_t)heads[0] == NULL_I64) return;     // the chain is taken
        held = heads[0], heads[0] = (symbol_p)NULL_I64, phase++;
    } else if (phase == 1 || phase == 3) {
        int w = phase / 2;
        symbol_p b = held;
        for (int i = 0; i < 4 && b != NULL; i++, b = b->next) if (byte_of(b->str) == (w ? t_2.c[0] : t_1.c[0])) { if (w) oid[1] = b->compact_id; else oid[0] = b->compact_id; heads[0] = held; phase++; return; }
        i64_t id = st.count++;
        str_p at = w ? (str_p)t_2.c : (str_p)t_1.c;
        for (int j = 0; j < 4; j++) if (j == id) strs[j] = at;
        if (w) e_2.str = at, e_2.compact_id = oid[1] = id, e_2.next = held, heads[0] = &e_2;
        else e_1.str = at, e_1.compact_id = oid[0] = id, e_1.next = held, heads[0] = &e_1;
        phase++;
    }
}
void vf_step(void) { if (steps > 0 && nd_b8()) { steps--; other(); } }
nil_t backoff_spin(i64_t *r) { (void)r; ASSUME(steps > 0); steps--; other(); }
void q_race(void) {
    start(K);
    put(1, lens[2]), put(2, lens[3]);
    steps = STEPS;
    i64_t ia = symbols_intern((lit_p)x, 1);
    ASSUME(phase == 0 || phase == 2 || phase == 4);
    CHECK(ia >= 0 && byte_of(str_from_symbol(ia)) == x[0], "a symbol reads back as its text");
    CHECK((i64_t)heads[0] != NULL_I64, "the chain is released");
    int n = 0;
    i64_t seen[4];
    symbol_p b = heads[0];
    for (int i = 0; i < 4 && b != NULL; i++, b = b->next) {
        seen[i] = b->compact_id, n++;
        for (int j = 0; j < 4; j++) if (j == b->compact_id) CHECK(b->str == strs[j], "ids and texts go together");
        for (int j = 0; j < i; j++) CHECK(seen[j] != b->compact_id, "every symbol is there once");
    }
    CHECK(b == NULL && n == st.count, "every symbol is in its chain");
    if (phase >= 2) CHECK((oid[0] == ia) == (t_1.c[0] == x[0]), "threads agree on symbols");
    if (phase >= 4) CHECK((oid[1] == ia) == (t_2.c[0] == x[0]) && (oid[1] == oid[0]) == (t_2.c[0] == t_1.c[0]), "threads agree on symbols");
    if (K) CHECK((ia == 0) == (t_0.c[0] == x[0]) && str_from_symbol(0) == (str_p)T[0]->c, "other symbols stay");
    REACH();
}
#endif
#endif
