ID='P07-fdiv-zero'; PROP='P07'
NEEDS='floating division of an integer by a floating zero or a tiny divisor'
BREAKS='division treats a divisor that underflows in the reciprocal as a zero: x / y is null for tiny non-zero y'
EDITS=[('core/ops.h','#define DIVF64(x, y) ((y) == 0.0 || ISNANF64(x) || ISNANF64(y) ? NULL_F64 : (FEUCL_DIV((x), (y))))','#define DIVF64(x, y) (((y) < 1e-300 && (y) > -1e-300) || ISNANF64(x) || ISNANF64(y) ? NULL_F64 : (FEUCL_DIV((x), (y))))')]
C=r'''
#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/math.h"
#include "core/ops.h"
#include <stdio.h>
int main(void) {
    runtime_create(0, NULL);
    obj_p r = ray_div(f64(3e-301), f64(1e-301));
    printf("%d %g\n", r->type, r->f64);
    return !(r->type == -TYPE_F64 && r->f64 >= 2.0 && r->f64 <= 3.0);
}
'''
