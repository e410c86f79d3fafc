// documented result type of every supported scalar pair (X(x type, y type, result type))
#define ARITH_ADD(X) \
    X(U8, U8, U8) \
    X(U8, I32, I32) \
    X(U8, I64, I64) \
    X(U8, F64, F64) \
    X(I16, I16, I16) \
    X(I16, I32, I32) \
    X(I16, I64, I64) \
    X(I16, F64, F64) \
    X(I32, U8, I32) \
    X(I32, I16, I32) \
    X(I32, I32, I32) \
    X(I32, I64, I64) \
    X(I32, DATE, DATE) \
    X(I32, TIME, TIME) \
    X(I32, TIMESTAMP, TIMESTAMP) \
    X(I32, F64, F64) \
    X(I64, U8, I64) \
    X(I64, I16, I64) \
    X(I64, I32, I64) \
    X(I64, I64, I64) \
    X(I64, DATE, DATE) \
    X(I64, TIME, TIME) \
    X(I64, TIMESTAMP, TIMESTAMP) \
    X(I64, F64, F64) \
    X(DATE, I32, DATE) \
    X(DATE, I64, DATE) \
    X(DATE, TIME, TIMESTAMP) \
    X(TIME, I32, TIME) \
    X(TIME, I64, TIME) \
    X(TIME, DATE, TIMESTAMP) \
    X(TIME, TIME, TIME) \
    X(TIME, TIMESTAMP, TIMESTAMP) \
    X(TIMESTAMP, I32, TIMESTAMP) \
    X(TIMESTAMP, I64, TIMESTAMP) \
    X(TIMESTAMP, TIME, TIMESTAMP) \
    X(F64, U8, F64) \
    X(F64, I16, F64) \
    X(F64, I32, F64) \
    X(F64, I64, F64) \
    X(F64, F64, F64) \

#define ARITH_SUB(X) \
    X(U8, U8, U8) \
    X(U8, I32, I32) \
    X(U8, I64, I64) \
    X(U8, F64, F64) \
    X(I16, I16, I16) \
    X(I16, I32, I32) \
    X(I16, I64, I64) \
    X(I16, F64, F64) \
    X(I32, U8, I32) \
    X(I32, I16, I32) \
    X(I32, I32, I32) \
    X(I32, I64, I64) \
    X(I32, TIME, TIME) \
    X(I32, F64, F64) \
    X(I64, U8, I64) \
    X(I64, I16, I64) \
    X(I64, I32, I64) \
    X(I64, I64, I64) \
    X(I64, TIME, TIME) \
    X(I64, F64, F64) \
    X(DATE, I32, DATE) \
    X(DATE, I64, DATE) \
    X(DATE, DATE, I32) \
    X(DATE, TIME, TIMESTAMP) \
    X(TIME, I32, TIME) \
    X(TIME, I64, TIME) \
    X(TIME, TIME, TIME) \
    X(TIMESTAMP, I32, TIMESTAMP) \
    X(TIMESTAMP, I64, TIMESTAMP) \
    X(TIMESTAMP, TIME, TIMESTAMP) \
    X(TIMESTAMP, TIMESTAMP, I64) \
    X(F64, U8, F64) \
    X(F64, I16, F64) \
    X(F64, I32, F64) \
    X(F64, I64, F64) \
    X(F64, F64, F64) \

#define ARITH_MUL(X) \
    X(U8, U8, U8) \
    X(U8, I32, I32) \
    X(U8, I64, I64) \
    X(U8, F64, F64) \
    X(I16, I16, I16) \
    X(I16, I32, I32) \
    X(I16, I64, I64) \
    X(I16, F64, F64) \
    X(I32, U8, I32) \
    X(I32, I16, I32) \
    X(I32, I32, I32) \
    X(I32, I64, I64) \
    X(I32, TIME, TIME) \
    X(I32, F64, F64) \
    X(I64, U8, I64) \
    X(I64, I16, I64) \
    X(I64, I32, I64) \
    X(I64, I64, I64) \
    X(I64, TIME, TIME) \
    X(I64, F64, F64) \
    X(TIME, I32, TIME) \
    X(TIME, I64, TIME) \
    X(F64, U8, F64) \
    X(F64, I16, F64) \
    X(F64, I32, F64) \
    X(F64, I64, F64) \
    X(F64, F64, F64) \

#define ARITH_DIV(X) \
    X(U8, U8, U8) \
    X(U8, I32, I32) \
    X(U8, I64, I64) \
    X(U8, F64, F64) \
    X(I16, I16, I16) \
    X(I16, I32, I32) \
    X(I16, I64, I64) \
    X(I16, F64, F64) \
    X(I32, U8, I32) \
    X(I32, I16, I32) \
    X(I32, I32, I32) \
    X(I32, I64, I32) \
    X(I32, F64, I32) \
    X(I64, U8, I64) \
    X(I64, I16, I64) \
    X(I64, I32, I64) \
    X(I64, I64, I64) \
    X(I64, F64, I64) \
    X(TIME, I32, TIME) \
    X(TIME, I64, TIME) \
    X(TIME, F64, TIME) \
    X(F64, U8, F64) \
    X(F64, I16, F64) \
    X(F64, I32, F64) \
    X(F64, I64, F64) \
    X(F64, F64, F64) \

#define ARITH_FDIV(X) \
    X(I32, I32, F64) \
    X(I32, I64, F64) \
    X(I32, F64, F64) \
    X(I64, I32, F64) \
    X(I64, I64, F64) \
    X(I64, F64, F64) \
    X(F64, I32, F64) \
    X(F64, I64, F64) \
    X(F64, F64, F64) \

#define ARITH_MOD(X) \
    X(U8, U8, U8) \
    X(U8, I32, I32) \
    X(U8, I64, I64) \
    X(I16, I16, I16) \
    X(I16, I32, I32) \
    X(I16, I64, I64) \
    X(I32, U8, I32) \
    X(I32, I16, I32) \
    X(I32, I32, I32) \
    X(I32, I64, I64) \
    X(I32, F64, F64) \
    X(I64, U8, I64) \
    X(I64, I16, I64) \
    X(I64, I32, I32) \
    X(I64, I64, I64) \
    X(I64, F64, F64) \
    X(TIME, I32, TIME) \
    X(TIME, I64, TIME) \
    X(F64, I32, F64) \
    X(F64, I64, F64) \
    X(F64, F64, F64) \

#define ARITH_XBAR(X) \
    X(I32, I32, I32) \
    X(I32, I64, I64) \
    X(I32, F64, F64) \
    X(I64, I32, I64) \
    X(I64, I64, I64) \
    X(I64, F64, F64) \
    X(DATE, I32, DATE) \
    X(DATE, I64, DATE) \
    X(TIME, I32, TIME) \
    X(TIME, I64, TIME) \
    X(TIME, TIME, TIME) \
    X(TIMESTAMP, I32, TIMESTAMP) \
    X(TIMESTAMP, I64, TIMESTAMP) \
    X(TIMESTAMP, TIME, TIMESTAMP) \
    X(F64, I32, F64) \
    X(F64, I64, F64) \
    X(F64, F64, F64) \

