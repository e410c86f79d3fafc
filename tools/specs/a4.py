ID='P07-ts-time-null'; PROP='P07'
NEEDS='subtracting a null time from a timestamp'
BREAKS='a null time is converted like the number it is stored as when it is subtracted from a timestamp'
EDITS=[('core/math.c','            return timestamp(SUBI64(x->i64, time_to_timestamp(y->i32)));','            return timestamp(SUBI64(x->i64, (i64_t)y->i32 * 1000000ll));')]
RFL='(println (- 2024.01.01D00:00:00.000000000 0Nt))\n(println (- 2024.01.01D00:00:00.000000000 00:00:01.000))'
