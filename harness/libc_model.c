// Models of the C library functions the core calls, for symbolic execution
// (the definitions follow cbmc's own C library; writing them here keeps cbmc
// from preprocessing its library again for every query).
#include <stddef.h>
_Bool __VERIFIER_nondet___CPROVER_bool(void);
extern const void *__CPROVER_deallocated;
extern const void *__CPROVER_memory_leak;
#ifdef VF_MEM
#define MEMCHK(c, m) __CPROVER_assert(c, m)
#else
#define MEMCHK(c, m) ((void)0)
#endif
void *malloc(size_t n) {
__CPROVER_HIDE:;
    void *r = __CPROVER_allocate(n, 0);
#ifdef VF_LEAK
    _Bool l = __VERIFIER_nondet___CPROVER_bool();
    __CPROVER_memory_leak = l ? r : __CPROVER_memory_leak;
#endif
    return r;
}
void *calloc(size_t a, size_t b) {
__CPROVER_HIDE:;
    return __CPROVER_allocate(a * b, 1);
}
void free(void *p) {
__CPROVER_HIDE:;
    MEMCHK(p == 0 || __CPROVER_r_ok(p, 0), "free: argument is NULL or a live block");
    MEMCHK(p == 0 || __CPROVER_DYNAMIC_OBJECT(p), "free: argument is a heap block");
    MEMCHK(p == 0 || __CPROVER_POINTER_OFFSET(p) == 0, "free: argument is the start of a block");
    MEMCHK(p == 0 || __CPROVER_deallocated != p, "free: double free");
    if (p != 0) {
#if defined(VF_MEM) || defined(VF_LEAK)
        _Bool d = __VERIFIER_nondet___CPROVER_bool();
        __CPROVER_deallocated = d ? p : __CPROVER_deallocated;
#endif
#ifdef VF_LEAK
        if (__CPROVER_memory_leak == p) __CPROVER_memory_leak = 0;
#endif
    }
}
void *memcpy(void *dst, const void *src, size_t n) {
__CPROVER_HIDE:;
    MEMCHK(__CPROVER_r_ok(src, n), "memcpy: source readable");
    MEMCHK(__CPROVER_w_ok(dst, n), "memcpy: destination writable");
    if (n > 0) {
        unsigned char src_n[n];
        __CPROVER_array_copy(src_n, (unsigned char *)src);
        __CPROVER_array_replace((unsigned char *)dst, src_n);
    }
    return dst;
}
void *memmove(void *dst, const void *src, size_t n) {
__CPROVER_HIDE:;
    MEMCHK(__CPROVER_r_ok(src, n), "memmove: source readable");
    MEMCHK(__CPROVER_w_ok(dst, n), "memmove: destination writable");
    if (n > 0) {
        unsigned char src_n[n];
        __CPROVER_array_copy(src_n, (unsigned char *)src);
        __CPROVER_array_replace((unsigned char *)dst, src_n);
    }
    return dst;
}
void *memset(void *s, int c, size_t n) {
__CPROVER_HIDE:;
    MEMCHK(__CPROVER_w_ok(s, n), "memset: destination writable");
    if (n > 0) {
        unsigned char s_n[n];
        __CPROVER_array_set(s_n, (unsigned char)c);
        __CPROVER_array_replace((unsigned char *)s, s_n);
    }
    return s;
}
void *__builtin_memcpy(void *dst, const void *src, size_t n) { return memcpy(dst, src, n); }
void *__builtin_memset(void *s, int c, size_t n) { return memset(s, c, n); }
// realloc needs the old size: cbmc knows it
void *realloc(void *p, size_t n) {
__CPROVER_HIDE:;
    if (p == 0) return malloc(n);
    MEMCHK(__CPROVER_DYNAMIC_OBJECT(p) && __CPROVER_POINTER_OFFSET(p) == 0, "realloc: start of a heap block");
    MEMCHK(__CPROVER_r_ok(p, 0), "realloc: live block");
    void *r = __CPROVER_allocate(n, 0);
#ifdef VF_LEAK
    _Bool l = __VERIFIER_nondet___CPROVER_bool();
    __CPROVER_memory_leak = l ? r : __CPROVER_memory_leak;
#endif
    __CPROVER_array_copy(r, p);
    free(p);
    return r;
}
int memcmp(const void *s1, const void *s2, size_t n) {
__CPROVER_HIDE:;
    MEMCHK(__CPROVER_r_ok(s1, n), "memcmp: first region readable");
    MEMCHK(__CPROVER_r_ok(s2, n), "memcmp: second region readable");
    const unsigned char *a = s1, *b = s2;
    for (size_t i = 0; i < n; i++)
        if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
int __builtin_memcmp(const void *s1, const void *s2, size_t n) { return memcmp(s1, s2, n); }
void *memchr(const void *s, int c, size_t n) {
__CPROVER_HIDE:;
    const unsigned char *a = s;
    for (size_t i = 0; i < n; i++)
        if (a[i] == (unsigned char)c) return (void *)(a + i);
    return 0;
}
size_t strlen(const char *s) {
__CPROVER_HIDE:;
    size_t n = 0;
    while (s[n]) n++;
    return n;
}
size_t strnlen(const char *s, size_t m) {
__CPROVER_HIDE:;
    size_t n = 0;
    while (n < m && s[n]) n++;
    return n;
}
int strcmp(const char *a, const char *b) {
__CPROVER_HIDE:;
    size_t i = 0;
    while (a[i] && a[i] == b[i]) i++;
    return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
int strncmp(const char *a, const char *b, size_t n) {
__CPROVER_HIDE:;
    for (size_t i = 0; i < n; i++) {
        if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
        if (!a[i]) return 0;
    }
    return 0;
}
char *strncpy(char *d, const char *s, size_t n) {
__CPROVER_HIDE:;
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
char *strchr(const char *s, int c) {
__CPROVER_HIDE:;
    for (size_t i = 0;; i++) {
        if (s[i] == (char)c) return (char *)(s + i);
        if (!s[i]) return 0;
    }
}
#ifdef VF_UF
double __CPROVER_uninterpreted_floor(double);
double __CPROVER_uninterpreted_ceil(double);
double __CPROVER_uninterpreted_sqrt(double);
double floor(double x) { return __CPROVER_uninterpreted_floor(x); }
double ceil(double x) { return __CPROVER_uninterpreted_ceil(x); }
double sqrt(double x) { return __CPROVER_uninterpreted_sqrt(x); }
#else
double floor(double x) { return __CPROVER_round_to_integrald(x, 1); }
double ceil(double x) { return __CPROVER_round_to_integrald(x, 2); }
#endif
double trunc(double x) { return __CPROVER_round_to_integrald(x, 3); }
double fabs(double x) { return __CPROVER_fabs(x); }
int vf_errno;
int *__errno_location(void) { return &vf_errno; }
void __builtin_prefetch(const void *p, ...) { (void)p; }
