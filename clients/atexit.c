#include "lemma.h"
/* exit callbacks: the C library's registration is replaced by one that remembers the handler */
static void (*handler[4])(void);
static int handlers;
int atexit(void (*fn)(void)) { if (handlers < 4) handler[handlers++] = fn; return 0; }
static int seq[8], calls;
static void note(void *d) { if (calls < 8) seq[calls] = *(int *)d; calls++; }
static void other(void *d) { if (calls < 8) seq[calls] = 100 + *(int *)d; calls++; }
static int late = 7;
static void again(void *d) { note(d); zt_atexit(note, &late); }
static void leave(void) { for (int i = handlers; i > 0; ) { int n; handler[--i](); n = handlers; if (n > i + 1) { i = n; handlers = n; } } }
#define RUN(N) void lemma_order##N##_p8_nf(void) { \
    int d[N]; \
    for (int i = 0; i < N; i++) { d[i] = i + 1; zt_atexit(i & 1 ? other : note, &d[i]); } \
    zv_check(handlers >= 1, "a callback makes the library register with the system"); \
    zv_check(calls == 0, "no callback runs before exit"); \
    handlers = 1; leave(); \
    zv_check(calls == N, "every callback runs exactly once at exit"); \
    for (int i = 0; i < N; i++) zv_check(seq[i] == (((N - 1 - i) & 1) ? 100 : 0) + N - i, "callbacks run in reverse order with their own data"); \
    handler[0](); \
    zv_check(calls == N, "no callback runs twice"); }
RUN(1) RUN(2) RUN(3) RUN(4)
void lemma_nested_p8_nf(void) {
    int d = 1;
    zt_atexit(again, &d);
    handler[0]();
    zv_check(seq[0] == 1, "the callback runs");
    for (int i = 1; i < handlers && i < 4; i++) handler[i]();
    zv_check(calls == 2 && seq[1] == 7, "a callback registered by a callback runs too");
}
