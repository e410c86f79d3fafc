// P19: wildcard matching, against a table over all prefixes of text and pattern.
#include "vf.h"
#include "core/logic.h"
#include "core/string.h"
// end of the set that starts at p[j] == '[' (index of the first ']' after it), or n
static int set_end(u8_t *p, int j, int n) {
    int i = j + 1;
    if (i < n && p[i] == '^') i++;
    while (i < n && p[i] != ']') i++;
    return i;
}
static b8_t in_set(u8_t *p, int j, int e, u8_t c) {
    b8_t inv = p[j + 1] == '^' && j + 1 < e, m = 0;
    for (int i = j + 1 + inv; i < e; i++) m |= p[i] == c;
    return m != inv;
}
static b8_t match(u8_t *t, int m, u8_t *p, int n) {
    b8_t d[TL + 2][PL + 2];    // d[i][j]: text from i matches pattern from j
    for (int j = n; j >= 0; j--)
        for (int i = m; i >= 0; i--) {
            if (j == n) d[i][j] = i == m;
            else if (p[j] == '*') d[i][j] = d[i][j + 1] || (i < m && d[i + 1][j]);
            else if (p[j] == '[') {
                int e = set_end(p, j, n);
                d[i][j] = 0;
                for (int k = j + 1; k < n; k++) if (k == e && i < m) d[i][j] = in_set(p, j, e, t[i]) && d[i + 1][k + 1];
            } else d[i][j] = i < m && (p[j] == '?' || p[j] == t[i]) && d[i + 1][j + 1];
        }
    return d[0][0];
}
static u8_t chr(void) {
#ifdef ALPHA   // the characters that matter to the pattern language, and two letters
    static const u8_t a[8] = {'*', '?', '[', ']', '^', 'a', 'b', 'b'};
    return a[nd_u8() & 7];
#else
    return nd_u8();
#endif
}
void h_match(void) {
    vf_init();
    obj_p x = vector(TYPE_C8, TL), y = vector(TYPE_C8, PL), r;
    for (int i = 0; i < TL; i++) AS_U8(x)[i] = chr();
    for (int i = 0; i < PL; i++) AS_U8(y)[i] = chr();
    u8_t *t = AS_U8(x), *p = AS_U8(y);
    b8_t e = match(t, TL, p, PL);
    r = ray_like(x, y);
    CHECK(r->type == -TYPE_B8 && r->b8 == e, "a text matches exactly when the pattern can be expanded to it");
    REACH();
}
#ifdef SHAPE   // pattern of this shape, x for any ordinary character; text of ordinary characters
static b8_t special(u8_t c) { return c == '*' || c == '?' || c == '[' || c == ']' || c == '^'; }
void h_shape(void) {
    vf_init();
    obj_p x = vector(TYPE_C8, TL), y = vector(TYPE_C8, PL), r;
    for (int i = 0; i < TL; i++) { AS_U8(x)[i] = nd_u8(); ASSUME(!special(AS_U8(x)[i])); }
    for (int i = 0; i < PL; i++) {
        AS_U8(y)[i] = (u8_t)SHAPE[i];
        if (SHAPE[i] == 'x') { AS_U8(y)[i] = nd_u8(); ASSUME(!special(AS_U8(y)[i])); }
    }
    r = ray_like(x, y);
    CHECK(r->type == -TYPE_B8 && r->b8 == match(AS_U8(x), TL, AS_U8(y), PL), "a text matches exactly when the pattern can be expanded to it");
    REACH();
}
#endif
// texts exactly as long as their buffers: nothing else may be read
void h_bounds(void) {
    vf_init();
    str_p t = (str_p)malloc(TL), p = (str_p)malloc(PL);
    for (int i = 0; i < TL; i++) t[i] = (char)nd_u8();
    for (int i = 0; i < PL; i++) p[i] = (char)nd_u8();
    b8_t r = str_match(t, TL, p, PL);
    CHECK(r == match((u8_t *)t, TL, (u8_t *)p, PL), "a text matches exactly when the pattern can be expanded to it");
    REACH();
}
// a list of texts is matched text by text; anything that is not a text is rejected
void h_list(void) {
    vf_init();
    obj_p l = LIST(2), y = vf_vec(TYPE_C8, PL), r;
    for (int k = 0; k < 2; k++) AS_LIST(l)[k] = vf_vec(TYPE_C8, TL);
    r = ray_like(l, y);
    CHECK(r->type == TYPE_B8 && r->len == 2, "a list of texts gives one boolean per text");
    for (int k = 0; k < 2; k++) CHECK(AS_B8(r)[k] == match(AS_U8(AS_LIST(l)[k]), TL, AS_U8(y), PL), "each text is matched by itself");
    AS_LIST(l)[1] = vf_vec(TYPE_I64, 1);
    CHECK(IS_ERR(ray_like(l, y)) && IS_ERR(ray_like(y, l)) && IS_ERR(ray_like(i64(1), y)), "anything but texts is rejected");
    REACH();
}
