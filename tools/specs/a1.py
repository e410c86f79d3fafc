ID='P07-mod-overflow'; PROP='P07'
NEEDS='modulo of 64-bit operands whose magnitudes add up to more than 2^63'
BREAKS='modulo is computed as ((x % y) + y) % y, which overflows for large operands and gives a wrong remainder'
EDITS=[('core/ops.h','#define EUCL_MOD(x, y) ((x) - (EUCL_DIV((x), (y)) * (y)))','#define EUCL_MOD(x, y) ((((x) % (y)) + (y)) % (y))')]
RFL='(println (% 6000000000000000000 7000000000000000000))\n(println (% -3 7))\n(println (% 7 -2))'
