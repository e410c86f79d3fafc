ID='P07-i16-null'; PROP='P07'
NEEDS='a null I16 on the right of an operation with an I64 or F64'
BREAKS='a null short is widened to the number -32768 instead of the null of the wider type when it is added from the left'
EDITS=[('core/ops.h','static inline i64_t i16_to_i64(i16_t x) { return (x == NULL_I16) ? NULL_I64 : (i64_t)x; }','static inline i64_t i16_to_i64(i16_t x) { return (x <= NULL_I16 + 1) ? NULL_I64 : (i64_t)x; }')]
C=r'''
#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/math.h"
#include "core/ops.h"
#include <stdio.h>
int main(void) {
    runtime_create(0, NULL);
    obj_p a = atom(TYPE_I16); a->i16 = -32767;
    obj_p b = i64(10);
    obj_p r = ray_add(a, b);
    printf("%d %lld\n", r->type, (long long)r->i64);
    return !(r->type == -TYPE_I64 && r->i64 == -32757);
}
'''
