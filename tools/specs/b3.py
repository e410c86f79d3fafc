SER='''#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/serde.h"
#include "core/ops.h"
#include "core/util.h"
#include "core/error.h"
'''
SPECS=[
dict(ID='P03-guid-vector', PROP='P03', NEEDS='a vector of at least two guids', BREAKS='only the first half of the bytes of a guid vector is written',
 EDITS=[('core/serde.c','            memcpy(buf, AS_C8(obj), l * ISIZEOF(guid_t));\n            return ISIZEOF(i8_t) + ISIZEOF(i64_t)','            memcpy(buf, AS_C8(obj), l * ISIZEOF(guid_t) - (l & ~1ll) * ISIZEOF(i64_t));\n            return ISIZEOF(i8_t) + ISIZEOF(i64_t)')],
 C=SER+'''int main(int c, char **v) {
    char *a[] = {"demo", "-c", "1", 0};
    runtime_create(3, a);
    obj_p x = GUID(2);
    for (int i = 0; i < 32; i++) ((u8_t *)AS_C8(x))[i] = i + 1;
    obj_p b = ser_obj(x), y = de_obj(b);
    if (y->type != TYPE_GUID || y->len != 2) return 1;
    for (int i = 0; i < 32; i++) if (((u8_t *)AS_C8(y))[i] != i + 1) return 1;
    return 0;
}'''),
dict(ID='P03-null-symbol', PROP='P03', NEEDS='a vector of symbols with an empty one before another', BREAKS='empty symbols of a vector take no room in the message',
 EDITS=[('core/serde.c',"                c += str_cpy((str_p)buf + c, s);\n                buf[c] = '\\0';\n                c++;","                if (s[0] == '\\0' && i + 1 < l)\n                    continue;\n                c += str_cpy((str_p)buf + c, s);\n                buf[c] = '\\0';\n                c++;")],
 C=SER+'''int main(int c, char **v) {
    char *a[] = {"demo", "-c", "1", 0};
    runtime_create(3, a);
    obj_p x = SYMBOL(2);
    AS_SYMBOL(x)[0] = NULL_I64; AS_SYMBOL(x)[1] = symbols_intern("ab", 2);
    obj_p b = ser_obj(x), y = de_obj(b);
    return y->type == TYPE_SYMBOL && y->len == 2 && AS_SYMBOL(y)[0] == NULL_I64 && AS_SYMBOL(y)[1] == AS_SYMBOL(x)[1] ? 0 : 1;
}'''),
dict(ID='P04-guid-length', PROP='P04', NEEDS='a guid vector cut short', BREAKS='the length of guid vectors is checked against half their size, so a truncated one is read beyond the message',
 EDITS=[('core/serde.c','                    if (*len < l * ISIZEOF(guid_t))','                    if (*len < l * ISIZEOF(i64_t))')],
 C=SER+'''int main(int c, char **v) {
    char *a[] = {"demo", "-c", "1", 0};
    runtime_create(3, a);
    u8_t m[10 + 32] = {TYPE_GUID, 0, 2, 0, 0, 0, 0, 0, 0, 0};
    i64_t n = 10 + 16;
    obj_p y = de_raw(m, &n);
    return IS_ERR(y) && n >= 0 ? 0 : 1;
}'''),
dict(ID='P05-spanning-text', PROP='P05', NEEDS='texts interned until one of them crosses the end of committed storage', BREAKS='storage is only made to grow when a text starts beyond its end, not when it ends beyond it',
 EDITS=[('core/symbols.c','while ((i64_t)(curr + cap) >= (i64_t)node) {','while ((i64_t)curr >= (i64_t)node) {')],
 C='''#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/symbols.h"
#include <string.h>
int main(int c, char **v) {
    char *a[] = {"demo", "-c", "1", 0}, t[700];
    runtime_create(3, a);
    memset(t, 'x', sizeof(t));
    for (int i = 0; i < 3000; i++) {
        t[0] = 'a' + i % 26; t[1] = 'a' + i / 26 % 26; t[2] = 'a' + i / 676;
        i64_t n = 600 + i % 90, id = symbols_intern(t, n);
        if (symbol_strlen(id) != n || memcmp(str_from_symbol(id), t, n)) return 1;
    }
    return 0;
}'''),
dict(ID='P05-prefix', PROP='P05', NEEDS='two symbols whose hash collides, one a prefix of the other', BREAKS='texts are compared over the shorter length only',
 EDITS=[('core/symbols.c','''        if (str_cmp(b->str, l, str, len) == 0)
            return b->compact_id;''','''        if (str_cmp(b->str, l < len ? l : len, str, l < len ? l : len) == 0)
            return b->compact_id;''')],
 C='''#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/symbols.h"
#include "core/string.h"
int main(int c, char **v) {
    char *a[] = {"demo", "-c", "1", 0};
    char t[40];
    runtime_create(3, a);
    symbols_p s = runtime_get()->symbols;
    s->size = 1;   // everything in one chain
    i64_t x = symbols_intern("alpha", 5), y = symbols_intern("alphabet", 8), z = symbols_intern("alp", 3);
    return x != y && y != z && x != z ? 0 : 1;
}'''),
dict(ID='P06-wrap', PROP='P06', NEEDS='a chain of colliding keys that wraps around the end of the table', BREAKS='lookups stop one slot short of a full turn',
 EDITS=[('core/hash.c','''    start = (i64_t)((u64_t)key % (u64_t)size);

    for (i = start; i < size + start; i++) {
        idx = i % size;

        if (keys[idx] == NULL_I64)
            return NULL_I64;''','''    start = (i64_t)((u64_t)key % (u64_t)size);

    for (i = start; i < size + (start >> 1); i++) {
        idx = i % size;

        if (keys[idx] == NULL_I64)
            return NULL_I64;''')],
 C='''#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/hash.h"
int main(int c, char **v) {
    char *a[] = {"demo", "-c", "1", 0};
    runtime_create(3, a);
    obj_p h = ht_oa_create(4, TYPE_I64);
    i64_t n = AS_LIST(h)[0]->len, ks[32];
    for (i64_t i = 0; i < n; i++) ks[i] = 2 + i * n, ht_oa_tab_insert(&h, ks[i], i + 100);
    for (i64_t i = 0; i < n; i++) {
        i64_t at = ht_oa_tab_get(h, ks[i]);
        if (at == NULL_I64 || AS_I64(AS_LIST(h)[1])[at] != i + 100) return 1;
    }
    return 0;
}'''),
dict(ID='P06-rehash-home', PROP='P06', NEEDS='a table with its own hash function that grows while holding several keys', BREAKS='growth places keys by their value instead of their hash when the hash is large',
 EDITS=[('core/hash.c','start = hash ? hash(key, seed) % new_size : (u64_t)key % new_size;','start = hash ? (i64_t)(u32_t)hash(key, seed) % new_size : (u64_t)key % new_size;')],
 C='''#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/hash.h"
static u64_t hf(i64_t k, raw_p s) { (void)s; return (u64_t)k << 33 | (u64_t)k; }
static i64_t cf(i64_t a, i64_t b, raw_p s) { (void)s; return a - b; }
int main(int c, char **v) {
    char *a[] = {"demo", "-c", "1", 0};
    runtime_create(3, a);
    obj_p h = ht_oa_create(2, TYPE_I64);
    for (i64_t i = 1; i < 60; i++) ht_oa_tab_insert_with(&h, i, i + 100, hf, cf, 0);
    for (i64_t i = 1; i < 60; i++) {
        i64_t at = ht_oa_tab_get_with(h, i, hf, cf, 0);
        if (at == NULL_I64 || AS_I64(AS_LIST(h)[1])[at] != i + 100) return 1;
    }
    return 0;
}'''),
dict(ID='P26-split-header', PROP='P26', NEEDS='a message whose bytes arrive in several pieces, one of them interrupted', BREAKS='after an interrupted read the bytes already received of a buffer are overwritten',
 EDITS=[('core/epoll.c','''        size = selector->rx.recv_fn(selector->fd, &selector->rx.buf->data[selector->rx.buf->offset],
                                    selector->rx.buf->size - selector->rx.buf->offset);''','''        size = selector->rx.recv_fn(selector->fd, &selector->rx.buf->data[total],
                                    selector->rx.buf->size - selector->rx.buf->offset);''')],
 C='''#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/poll.h"
#include <string.h>
#include <stdlib.h>
i64_t poll_recv(poll_p, selector_p);
static const char *src = "0123456789abcdef"; static int at;
static i64_t rf(i64_t fd, u8_t *b, i64_t n) { (void)fd; if (n > 5) n = 5; memcpy(b, src + at, n); at += n; return n; }
int main(int c, char **v) {
    char *a[] = {"demo", "-c", "1", 0};
    runtime_create(3, a);
    struct selector_t s; memset(&s, 0, sizeof s);
    poll_buffer_p b = calloc(1, sizeof(struct poll_buffer_t) + 16);
    b->size = 16, b->offset = 0;
    s.rx.buf = b, s.rx.recv_fn = (void *)rf;
    poll_recv(NULL, &s);
    return b->offset == 16 && memcmp(b->data, src, 16) == 0 ? 0 : 1;
}'''),
dict(ID='P27-reuse-order', PROP='P27', NEEDS='connections closed and opened until the list of free identifiers has been used up and filled again', BREAKS='when several identifiers are free the one taken from the list is not the one that is handed out',
 EDITS=[('core/freelist.c','        pos = freelist->free[--freelist->free_pos];\n','        pos = freelist->free[freelist->free_pos > 1 ? --freelist->free_pos - 1 : --freelist->free_pos];\n')],
 C='''#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/freelist.h"
int main(int c, char **v) {
    char *a[] = {"demo", "-c", "1", 0};
    runtime_create(3, a);
    freelist_p f = freelist_create(4);
    for (i64_t i = 0; i < 4; i++) freelist_push(f, 10 + i);
    freelist_pop(f, 1); freelist_pop(f, 2); freelist_pop(f, 3);
    i64_t x = freelist_push(f, 21), y = freelist_push(f, 22), z = freelist_push(f, 23);
    return x != y && y != z && x != z && freelist_get(f, x) == 21 && freelist_get(f, y) == 22 && freelist_get(f, z) == 23 ? 0 : 1;
}'''),
dict(ID='P28-sift', PROP='P28', NEEDS='a timer removed from the middle of a schedule whose last timer is due earlier than its new parent', BREAKS='after removal the timer moved into the gap is not compared with those above it unless it is the left child',
 EDITS=[('core/chrono.c','    if (left_child_index < timers->size && timers->timers[left_child_index]->exp < timers->timers[smallest_index]->exp)','    if (right_child_index < timers->size && timers->timers[left_child_index]->exp < timers->timers[smallest_index]->exp)')],
 C='''#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/chrono.h"
int main(int c, char **v) {
    char *a[] = {"demo", "-c", "1", 0};
    runtime_create(3, a);
    timers_p t = timers_create(8);
    i64_t due[3] = {10, 20, 30};
    for (int i = 0; i < 3; i++) timer_add(t, 1, due[i], 1, NULL_OBJ);
    for (int i = 0; i < 3; i++) { ray_timer_p x = timer_pop(t); if (x->exp != due[i]) return 1; }
    i64_t more[5] = {10, 40, 20, 50, 60};
    for (int i = 0; i < 5; i++) timer_add(t, 1, more[i], 1, NULL_OBJ);
    i64_t last = 0;
    for (int i = 0; i < 5; i++) { ray_timer_p x = timer_pop(t); if (x->exp < last) return 1; last = x->exp; }
    return 0;
}'''),
dict(ID='P28-missed', PROP='P28', NEEDS='two timers due one millisecond apart, the later one added first', BREAKS='a timer due one millisecond before its parent in the schedule is not moved above it',
 EDITS=[('core/chrono.c','timers->timers[parent_index]->exp > timers->timers[index]->exp','timers->timers[parent_index]->exp - 1 > timers->timers[index]->exp')],
 C='''#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/chrono.h"
int main(int c, char **v) {
    char *a[] = {"demo", "-c", "1", 0};
    runtime_create(3, a);
    timers_p t = timers_create(8);
    timer_add(t, 1, 1001, 1, NULL_OBJ);
    timer_add(t, 1, 1000, 1, NULL_OBJ);
    return timer_pop(t)->exp == 1000 ? 0 : 1;
}'''),
dict(ID='P09-split-offset', PROP='P09', NEEDS='two vectors of mixed types long enough to be split over workers',
 BREAKS='the right operand of mixed-type comparisons is read from an even position in every chunk',
 EDITS=[('core/cmp.c','''        __BASE_##rt##_t *$rhs;                                             \\
        b8_t *$out;                                                        \\
        $lhs = __AS_##lt(x) + of;                                          \\
        $rhs = __AS_##rt(y) + of; ''','''        __BASE_##rt##_t *$rhs;                                             \\
        b8_t *$out;                                                        \\
        $lhs = __AS_##lt(x) + of;                                          \\
        $rhs = __AS_##rt(y) + (of & ~1ll); ''')],
 C='''#include "core/rayforce.h"
#include "core/cmp.h"
#include "core/runtime.h"
obj_p ray_EQ_partial(obj_p, obj_p, i64_t, i64_t, obj_p);
int main(int c, char **v) {
    char *a[] = {"demo", "-c", "1", 0};
    runtime_create(3, a);
    obj_p x = I64(5), y = I64(5), r = B8(5);
    for (int i = 0; i < 5; i++) AS_I64(x)[i] = AS_I64(y)[i] = i;
    ray_EQ_partial(x, y, 2, 3, r);
    return AS_B8(r)[3] == 1 && AS_B8(r)[4] == 1 ? 0 : 1;
}'''),
dict(ID='P16-til-chunk', PROP='P16', NEEDS='a range long enough to be split over workers with a filter', BREAKS='every chunk of a filtered range reads the filter from its start',
 EDITS=[('core/compose.c','            out[i] = filter[i + offset];','            out[i] = filter[i + (offset & ~3ll)];')],
 C='''#include "core/rayforce.h"
#include "core/compose.h"
#include "core/runtime.h"
obj_p ray_til_partial(i64_t len, i64_t offset, i64_t filter[], i64_t out[]);
int main(int c, char **v) {
    char *a[] = {"demo", "-c", "1", 0};
    runtime_create(3, a);
    i64_t f[5] = {4, 7, 8, 11, 15}, o[3];
    ray_til_partial(3, 2, f, o);
    return o[0] == 8 && o[1] == 11 && o[2] == 15 ? 0 : 1;
}'''),
]
