// Replay driver: feeds a solver assignment to a harness on the real code.
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
static uint64_t *vals; static size_t n, pos;
uint64_t vf_next(void) { return pos < n ? vals[pos++] : 0; }
void vf_fail(const char *msg, const char *file, int line) {
    fprintf(stderr, "VF-CHECK-FAILED %s (%s:%d)\n", msg, file, line);
    fflush(stderr); _exit(42);
}
static void on_alarm(int s) { (void)s; static const char m[] = "VF-HANG\n"; if (write(2, m, sizeof m - 1)) {} _exit(43); }
static void on_fpe(int s) { (void)s; static const char m[] = "VF-FPE\n"; if (write(2, m, sizeof m - 1)) {} _exit(44); }
#ifndef VF_ENTRY
#define VF_ENTRY harness
#endif
void VF_ENTRY(void);
int main(int argc, char **argv) {
    FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL;
    size_t cap = 1024; vals = malloc(cap * sizeof *vals);
    unsigned long long v;
    if (f) { while (fscanf(f, "%llu", &v) == 1) { if (n == cap) vals = realloc(vals, (cap *= 2) * sizeof *vals); vals[n++] = v; } fclose(f); }
    signal(SIGALRM, on_alarm); signal(SIGFPE, on_fpe); alarm(20);
    VF_ENTRY();
    fprintf(stderr, "VF-DONE consumed=%zu of %zu\n", pos, n);
    free(vals); vals = NULL;
    return 0;
}
