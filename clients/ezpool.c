#include "lemma.h"
#include <libzt/zt_ez_mempool.h>
#include <stdio.h>
void cfree(void *);
static int blocks, bad; static void *live[24];
void *malloc(size_t n) { void *p = realloc(NULL, n); for (int i = 0; i < 24; i++) if (!live[i]) { live[i] = p; blocks++; return p; } bad |= 1; return p; }
void free(void *p) { if (!p) return; for (int i = 0; i < 24; i++) if (live[i] == p) { live[i] = NULL; blocks--; cfree(p); return; } bad |= 2; }
void *calloc(size_t n, size_t m) { char *p = malloc(n * m); if (p) for (size_t i = 0; i < n * m; i++) p[i] = 0; return p; }
void *strdup_(const char *s);
#define ALL(what) zv_check(blocks == 0 && bad == 0, what)
static void *given[8]; static int ngiven;
static void take(void *d) { given[ngiven++ & 7] = d; }
static void drop(void *d) { given[ngiven++ & 7] = d; free(d); }
static int times(void *d) { int n = 0; for (int i = 0; i < 8; i++) n += given[i] == d; return n; }
#define ALLOC(N) void lemma_alloc##N##_p40_r4_nf(void) { \
    char *b[6]; int ok = 1, had = 1; \
    zt_ez_mempool *p = zt_ez_mempool_init(NULL); \
    for (int i = 0; i < N; i++) { \
        b[i] = zt_ez_mempool_alloc(p, (size_t)i + 1, i & 1 ? drop : NULL); \
        had &= b[i] != NULL; \
        for (int j = 0; j <= i; j++) { ok &= b[i][j] == 0; b[i][j] = (char)(i * 8 + j); } \
    } \
    zv_check(had, "a block is had"); zv_check(ok, "a new block is zeroed"); \
    for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) ok &= b[i][j] == (char)(i * 8 + j); \
    zv_check(ok, "blocks keep their contents while the pool lives"); \
    zv_check(ngiven == 0 && bad == 0, "nothing is released before the pool is"); \
    zt_ez_mempool_destroy(p); \
    zv_check(ngiven == N / 2, "blocks with a function of their own are released by it, once"); \
    for (int i = 1; i < N; i += 2) zv_check(times(b[i]) == 1 || N < 2, "blocks with a function of their own are released by it, once"); \
    ALL("destroying a pool releases everything once"); }
ALLOC(0) ALLOC(1) ALLOC(2) ALLOC(3) ALLOC(6)
/* memory of the caller's */
void lemma_add_p40_r4_nf(void) {
    char own[4] = "abc", *mine = malloc(4), *other = malloc(2);
    zt_ez_mempool *p = zt_ez_mempool_init(NULL);
    zv_check(zt_ez_mempool_add_buffer(p, NULL, 4, take) == -1 && zt_ez_mempool_add_buffer(p, own, 0, take) == -1, "nothing is not taken");
    zv_check(zt_ez_mempool_add_buffer(p, own, 4, take) == 0, "memory of the caller's is taken");
    zv_check(zt_ez_mempool_add_buffer(p, mine, 4, NULL) == 0, "memory of the caller's is taken");
    zv_check(zt_ez_mempool_add_buffer(p, other, 2, drop) == 0, "memory of the caller's is taken");
    char *s = zt_ez_mempool_strdup(p, "text");
    zv_check(s[0] == 't' && s[1] == 'e' && s[2] == 'x' && s[3] == 't' && s[4] == 0, "a copy of a string is made");
    zt_ez_mempool_destroy(p);
    zv_check(ngiven == 2 && times(own) == 1 && times(other) == 1, "each is released in its own way, once");
    zv_check(own[0] == 'a' && own[3] == 0, "memory released by its function is left alone");
    ALL("destroying a pool releases everything once");
}
/* pools in pools, destroyed one by one in every order or with their parent */
#define TREE(A, B, C) void lemma_tree##A##x##B##x##C##_p40_r4_nf(void) { \
    zt_ez_mempool *p = zt_ez_mempool_init(NULL), *c[3], *g; char own[4], *b[3]; \
    for (int i = 0; i < 3; i++) { c[i] = zt_ez_mempool_init(p); b[i] = zt_ez_mempool_alloc(c[i], 2, NULL); zt_ez_mempool_add_buffer(c[i], &own[i], 1, take); } \
    g = zt_ez_mempool_init(c[1]); zt_ez_mempool_add_buffer(g, &own[3], 1, take); \
    int gone[3] = { 0, 0, 0 }, want[3] = { A, B, C }, n = 0, ok = 1, rest = 1; \
    for (int k = 0; k < 3; k++) if (want[k] < 3) { \
        int i = want[k]; gone[i] = 1; \
        zt_ez_mempool_destroy(c[i]); n += i == 1 ? 2 : 1; \
        ok &= ngiven == n && times(&own[i]) == 1; \
        for (int j = 0; j < 3; j++) if (!gone[j]) { b[j][0] = (char)j; b[j][1] = 7; rest &= times(&own[j]) == 0; } \
    } \
    zv_check(ok, "destroying a pool releases what it and its pools hold"); zv_check(rest, "destroying a pool leaves the others alone"); \
    zt_ez_mempool_destroy(p); \
    zv_check(ngiven == 4 && times(&own[0]) == 1 && times(&own[1]) == 1 && times(&own[2]) == 1 && times(&own[3]) == 1, "everything is released once"); \
    ALL("destroying a pool releases everything once"); }
TREE(3, 3, 3) TREE(0, 3, 3) TREE(1, 3, 3) TREE(2, 3, 3) TREE(0, 1, 3) TREE(1, 0, 3) TREE(0, 2, 3) TREE(2, 0, 3) TREE(1, 2, 3) TREE(2, 1, 3)
TREE(0, 1, 2) TREE(0, 2, 1) TREE(1, 0, 2) TREE(1, 2, 0) TREE(2, 0, 1) TREE(2, 1, 0)
