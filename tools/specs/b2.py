SPECS=[
dict(ID='P09-narrow', PROP='P09', NEEDS='an i64 vector with an element beyond 32 bits compared with an i32 vector',
 BREAKS='i64 vectors are narrowed to 32 bits when compared with i32 vectors',
 EDITS=[('core/cmp.c','return __CMP_V_V(x, y, i64, i32, i64, op##I64, len, offset, res);','return __CMP_V_V(x, y, i64, i32, i32, op##I32, len, offset, res);')],
 RFL="(println (< [5000000000 1] (as 'I32 [5 2])))\n(println (== [4294967301] (as 'I32 [5])))"),
dict(ID='P09-split-offset', PROP='P09', NEEDS='two vectors of mixed types long enough to be split over workers',
 BREAKS='the right operand of mixed-type comparisons is read from the start of the vector in every chunk',
 EDITS=[('core/cmp.c','''        __BASE_##rt##_t *$rhs;                                             \\
        b8_t *$out;                                                        \\
        $lhs = __AS_##lt(x) + of;                                          \\
        $rhs = __AS_##rt(y) + of; ''','''        __BASE_##rt##_t *$rhs;                                             \\
        b8_t *$out;                                                        \\
        $lhs = __AS_##lt(x) + of;                                          \\
        $rhs = __AS_##rt(y) + (of & ~1ll); ''')],
 C='''#include "core/rayforce.h"
#include "core/cmp.h"
#include "core/runtime.h"
int main(int c, char **v) {
    char *a[] = {"demo", "-c", "1", 0};
    runtime_create(3, a);
    obj_p x = I64(5), y = I64(5), r = B8(5);
    for (int i = 0; i < 5; i++) AS_I64(x)[i] = AS_I64(y)[i] = i;
    ray_eq_partial(x, y, 2, 3, r);
    return AS_B8(r)[3] == 1 && AS_B8(r)[4] == 1 ? 0 : 1;
}'''),
dict(ID='P18-or-scalar', PROP='P18', NEEDS='or of a long vector with a scalar, split over workers',
 BREAKS='in every chunk but the first the leading elements are left as they were',
 EDITS=[('core/logic.c','''    m = next_mask[0];
    for (i = 0; i < n; i++)
        mask[i] = mask[i] || m;''','''    m = next_mask[0];
    for (i = offset ? 1 : 0; i < n; i++)
        mask[i] = mask[i] || m;''')],
 C='''#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/eval.h"
#include "core/pool.h"
#include "core/util.h"
int main(int c, char **v) {
    char *a[] = {"demo", "-c", "4", 0};
    runtime_create(3, a);
    obj_p r = eval_str("(sum (as 'I64 (or (== (til 4000000) 7) true)))");
    if (r->type != -TYPE_I64 || r->i64 != 4000000) return 1;
    return 0;
}'''),
dict(ID='P18-parted-all', PROP='P18', NEEDS='and of partitioned masks where one partition matches entirely and the other by rows',
 BREAKS='the all-match partition wins over the row mask',
 EDITS=[('core/logic.c','                    if (b == NULL_OBJ) {\n                        if (op_func == and_op_partial) {','                    if (b == NULL_OBJ) {\n                        if (op_func == and_op_partial && a->type == -TYPE_B8) {')],
 C='''#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/eval.h"
#include "core/logic.h"
int main(int c, char **v) {
    char *a[] = {"demo", "-c", "1", 0};
    runtime_create(3, a);
    obj_p x = LIST(1), y = LIST(1), m = B8(2);
    AS_B8(m)[0] = 1; AS_B8(m)[1] = 0;
    x->type = y->type = TYPE_PARTEDB8;
    AS_LIST(x)[0] = m; AS_LIST(y)[0] = NULL_OBJ;
    obj_p s[2] = {x, y}, r = ray_and(s, 2);
    return r->type == TYPE_PARTEDB8 && AS_LIST(r)[0] == NULL_OBJ ? 0 : 1;
}'''),
]
