SPECS=[
dict(ID='P08-i32-i64-narrow', PROP='P08', NEEDS='subtracting an i64 scalar beyond 32 bits, or null, from an i32 vector',
 BREAKS='an i32 vector minus an i64 scalar reads the scalar as 32 bits',
 EDITS=[('core/math.c','''        case MTYPE2(TYPE_I32, -TYPE_I64):
            return __BINOP_V_A(x, y, i32, i64, i64, i64, SUBI64, len, offset, out);''','''        case MTYPE2(TYPE_I32, -TYPE_I64):
            return __BINOP_V_A(x, y, i32, i32, i64, i64, SUBI64, len, offset, out);''')],
 RFL='(println (- (as \'I32 [1 2 3]) 5000000000))\n(println (- (as \'I32 [1 2 3]) 0Nl))'),
dict(ID='P08-reuse-operand', PROP='P08', NEEDS='vector operand of a result-typed right side that is still referenced from one other place',
 BREAKS='an operation may reuse the buffer of a right operand somebody else still refers to',
 EDITS=[('core/math.c','''          : (rc_obj(y) == 1 && IS_VECTOR(y) && y->type == t) ? clone_obj(y)
                                                             : vector(t, l);

    if (n == 1) {
        v = ((obj_p(*)(obj_p, obj_p, i64_t, i64_t, obj_p))op)''','''          : (rc_obj(y) <= (IS_VECTOR(x) ? 1 : 2) && IS_VECTOR(y) && y->type == t) ? clone_obj(y)
                                                             : vector(t, l);

    if (n == 1) {
        v = ((obj_p(*)(obj_p, obj_p, i64_t, i64_t, obj_p))op)''')],
 C='''#include <stdio.h>
#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/math.h"
int main(int c, char **v) {
    char *a[] = {"demo", "-r", "0", 0};
    runtime_create(1, a);
    obj_p x = I64(3); for (int i = 0; i < 3; i++) AS_I64(x)[i] = i;
    obj_p keep = clone_obj(x), s = i64(10), r = ray_add(s, x);
    return AS_I64(keep)[1] == 1 && AS_I64(r)[1] == 11 ? 0 : 1;
}'''),
dict(ID='P09-lt-null-f64', PROP='P09', NEEDS='comparing floating point nulls with >= or <=',
 BREAKS='<= and >= of doubles compare with the plain operator, false for nulls on both sides',
 EDITS=[('core/ops.h','#define LEF64(x, y) (!GTF64((x), (y)))','#define LEF64(x, y) (ISNANF64(x) ? !ISNANF64(y) : !GTF64((x), (y)))')],
 RFL='(println (<= 0Nf 0Nf))\n(println (<= 0Nf 1.0))\n(println (<= [0Nf 1.0 2.0] [0Nf 1.0 1.5]))'),
dict(ID='P09-str-len', PROP='P09', NEEDS='strings of which one is a prefix of the other, different lengths',
 BREAKS='a longer string with an equal prefix is no longer greater but equal when it is one character longer',
 EDITS=[('core/string.c','''        else if (m > n)
            return 1;
        else
            return 0;
    }

    return res;
}

str_p str_rchr''','''        else if (m > n + 1)
            return 1;
        else
            return 0;
    }

    return res;
}

str_p str_rchr''')],
 RFL='(println (> "abcd" "abc"))\n(println (== "abcd" "abc"))\n(println (< "abc" "abcd"))'),
dict(ID='P18-or-scalar-first', PROP='P18', NEEDS='or of a vector with a scalar, where the vector has true elements and the scalar is false',
 BREAKS='or with a false scalar on the right clears nothing but a true vector element is lost past position 2',
 EDITS=[('core/logic.c','''    m = next_mask[0];
    for (i = 0; i < n; i++)
        mask[i] = mask[i] || m;''','''    m = next_mask[0];
    for (i = offset; i < n; i++)
        mask[i] = mask[i] || m;''')],
 C='''#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/eval.h"
#include "core/pool.h"
#include "core/util.h"
int main(int c, char **v) {
    char *a[] = {"demo", "-c", "4", "-r", "0", 0};
    runtime_create(5, a);
    obj_p r = eval_str("(sum (as 'I64 (or (== (til 2000000) 7) true)))");
    if (r->type != -TYPE_I64 || r->i64 != 2000000) return 1;
    return 0;
}'''),
dict(ID='P19-class-end', PROP='P19', NEEDS='a bracket set followed by more pattern, after a star, when the first candidate position fails',
 BREAKS='after a mismatching bracket set the match restarts one character too late',
 EDITS=[('core/string.c','''                    // Mismatch - backtrack to last '*' if possible
                    if (last_star_pat_pos != NULL_I64) {
                        pat_pos = last_star_pat_pos + 1;
                        str_pos = ++last_star_str_pos;
                    } else {
                        return B8_FALSE;
                    }
                } else {
                    str_pos++;
                    pat_pos++;
                }
                break;

            default''','''                    // Mismatch - backtrack to last '*' if possible
                    if (last_star_pat_pos != NULL_I64) {
                        pat_pos = last_star_pat_pos + 1;
                        last_star_str_pos = str_pos + 1;
                        str_pos = last_star_str_pos;
                    } else {
                        return B8_FALSE;
                    }
                } else {
                    str_pos++;
                    pat_pos++;
                }
                break;

            default''')],
 RFL='(println (like "xaab" "*a[b]"))\n(println (like "xaacb" "*?a[c]b"))\n(println (like "aaab" "*aa[b]"))\n(println (like "aaxb" "*a?[b]"))'),
dict(ID='P19-skip-star', PROP='P19', NEEDS='a star followed by a literal, where the first occurrence of the literal is not the right one',
 BREAKS='after a mismatch the search resumes after the literal that was found, skipping overlapping candidates',
 EDITS=[('core/string.c','''                    if (s_pos == str_len)
                        return B8_FALSE;
                    str_pos = s_pos;''','''                    if (s_pos == str_len)
                        return B8_FALSE;
                    str_pos = s_pos;
                    last_star_str_pos = s_pos + 1;''')],
 RFL='(println (like "aab" "*ab"))\n(println (like "aaab" "*aab"))\n(println (like "xaaab" "*aab"))'),
dict(ID='P20-fast-path', PROP='P20', NEEDS='a number of 16 or more digits read from text',
 BREAKS='the second group of eight digits is scaled by ten millions',
 EDITS=[('core/string.c','    if (n + 8 <= len && len <= 18 && is_8_digits','    if (n + 7 <= len && len <= 18 && is_8_digits')],
 C='''#include "core/rayforce.h"
#include "core/string.h"
int main(void) {
    i64_t v = 0;
    char b[] = "12345678";
    return i64_from_str(b, 7, &v) == 7 && v == 1234567 ? 0 : 1;
}'''),
dict(ID='P20-space-count', PROP='P20', NEEDS='text with leading spaces and a sign before the number',
 BREAKS='the number of consumed characters does not count the leading spaces',
 EDITS=[('core/string.c','''    // Handle optional sign
    if (src[i] == '-') {
        sign = -1;
        i++;
        len--;
    }

    src += i;
    n = 0;

    // Fast path''','''    // Handle optional sign
    while (len > 0 && src[i] == '-') {
        sign = -sign;
        i++;
        len--;
    }

    src += i;
    n = 0;

    // Fast path''')],
 RFL='(println (as \'i64 "-12"))\n(println (as \'i64 "--12"))'),
dict(ID='P21-leap-century', PROP='P21', NEEDS='a day in March or later of a year divisible by 400, or the last day of such a year',
 BREAKS='years divisible by 3200 are taken as common years in the leap rule of components only',
 EDITS=[('core/temporal.c','return (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;','return (year % 4 == 0 && year % 100 != 0) || (year % 400 == 0 && year % 3200 != 0);')],
 C='''#include "core/rayforce.h"
#include "core/date.h"
int main(void) {
    for (int i = 438300; i < 438300 + 800; i++) { datestruct_t d = date_from_i32(i); if (date_into_i32(d) != i) return 1; }
    datestruct_t d = {.year = 3200, .month = 2, .day = 29}, n = {.year = 3200, .month = 3, .day = 1};
    return date_into_i32(n) - date_into_i32(d) == 1 ? 0 : 1;
}'''),
dict(ID='P21-negative-span', PROP='P21', NEEDS='a timestamp before 2000 exactly at midnight',
 BREAKS='midnights before the epoch belong to the previous day with 24 hours',
 EDITS=[('core/timestamp.c','''    if (span < 0) {
        days -= 1;
        span += NSECS_IN_DAY;
    }''','''    if (offset < 0) {
        days -= 1;
        span += NSECS_IN_DAY;
    }''')],
 RFL='(println (as \'TIMESTAMP [-86400000000000 -1 -172800000000000]))'),
]
