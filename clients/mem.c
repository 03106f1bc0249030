#include "lemma.h"
#include <unistd.h>
#include <libzt/zt_mem.h>
/* a page holds four elements of 16 bytes */
#define PAGE 200
long sysconf(int n) { return PAGE; }
void cfree(void *);
static int blocks, denied, allow = 1000; static void *last;
void *malloc(size_t n) { if (allow <= 0) { denied++; return NULL; } allow--; void *p = realloc(NULL, n); if (p) blocks++; return p; }
void free(void *p) { if (p) blocks--; last = p; cfree(p); }
void *calloc(size_t n, size_t m) { char *p = malloc(n * m); if (p) for (size_t i = 0; i < n * m; i++) p[i] = 0; return p; }
void zt_atexit(void (*fn)(void *), void *d) { }
#define FILL(p, c) do { for (int _i = 0; _i < 16; _i++) ((char *)(p))[_i] = (char)((c) * 16 + _i); } while (0)
static int full(const char *p, int c) { int ok = 1; for (int i = 0; i < 16; i++) ok &= p[i] == (char)(c * 16 + i); return ok; }
static zt_mem_pool_stats st;
#define STATS(p) zv_check(zt_mem_pool_get_stats(p, &st) == ZT_PASS, "a pool has statistics")
#define BALANCED "the pages made less the pages given back are those there are"
static int tests, verdict; static void *seen; static int tflags;
static int test(size_t a, size_t b, size_t c, int flags, void *d) { tests++; seen = d; tflags = flags; return verdict; }
/* N blocks are distinct, keep their contents, and are given back in every rotation */
#define POOL(N, ROT) void lemma_pool##N##x##ROT##_p17_nf(void) { \
    void *b[9]; int x, dist = 1, kept = 1; \
    zt_mem_pool *p = zt_mem_pool_init("p", 4, 16, test, &x, 6); \
    STATS(p); \
    zv_check(st.elt_size == 16 && st.elts_per_page == 4 && st.pages == 1 && st.free_pages == 1 && st.page_allocs == 1 && st.page_frees == 0 && st.requested_elts == 4 && st.flags == 6, "a new pool has a free page"); \
    for (int i = 0; i < N; i++) { b[i] = zt_mem_pool_alloc(p); zv_check(b[i] != NULL, "a block is had"); FILL(b[i], i); } \
    for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) dist &= b[i] != b[j]; \
    zv_check(dist, "no block is handed out twice"); \
    for (int i = 0; i < N; i++) kept &= full(b[i], i); \
    zv_check(kept, "blocks keep their contents"); \
    STATS(p); \
    zv_check(st.pages == (N + 3) / 4 && st.free_pages == 0 && st.page_allocs == st.pages + st.page_frees, "pages are made as needed"); \
    zv_check(zt_mem_pool_destroy(&p) == -1 && p != NULL, "a pool in use is not destroyed"); \
    for (int i = 0; i < N; i++) { \
        int k = (i * 2 + ROT) % N; if (N % 2 == 0) k = (i + ROT) % N; \
        kept &= full(b[k], k); zt_mem_pool_release(&b[k]); \
        for (int j = i + 1; j < N; j++) { int m = (j * 2 + ROT) % N; if (N % 2 == 0) m = (j + ROT) % N; kept &= full(b[m], m); } \
    } \
    zv_check(kept, "giving a block back leaves the others alone"); \
    zv_check(tests == (N + 3) / 4 && seen == &x && tflags == 6, "the test is asked whenever a page becomes free, with its data"); \
    STATS(p); \
    zv_check(st.pages == (N + 3) / 4 && st.free_pages == st.pages && st.page_allocs == st.pages + st.page_frees, "pages stay unless the test wants them released"); \
    for (int i = 0; i < N; i++) { b[i] = zt_mem_pool_alloc(p); FILL(b[i], i); } \
    dist = kept = 1; \
    for (int i = 0; i < N; i++) { kept &= full(b[i], i); for (int j = 0; j < i; j++) dist &= b[i] != b[j]; } \
    zv_check(dist && kept, "blocks given back are handed out again, each once"); \
    STATS(p); \
    zv_check(st.pages == (N + 3) / 4 && st.free_pages == 0, "blocks given back are used before another page is made"); \
    for (int i = 0; i < N; i++) zt_mem_pool_release(&b[i]); \
    zv_check(zt_mem_pool_destroy(&p) == 0 && p == NULL && blocks == 0, "destroying an unused pool releases everything"); }
POOL(1, 0) POOL(2, 1) POOL(3, 0) POOL(4, 0) POOL(4, 2) POOL(5, 0) POOL(5, 3) POOL(6, 1) POOL(9, 4)
/* pages go when the test says so */
void lemma_shrink_p17_nf(void) {
    void *b[8];
    zt_mem_pool *p = zt_mem_pool_init("p", 4, 16, NULL, NULL, 0);
    int base;
    for (int i = 0; i < 8; i++) { b[i] = zt_mem_pool_alloc(p); FILL(b[i], i); }
    base = blocks;
    for (int i = 4; i < 7; i++) zt_mem_pool_release(&b[i]);
    STATS(p); zv_check(st.pages == 2 && st.free_pages == 0 && blocks == base, "a page in use stays");
    zt_mem_pool_release(&b[7]);
    STATS(p); zv_check(st.pages == 1 && st.free_pages == 0 && blocks == base - 1 && st.page_frees == 1 && st.page_allocs == 2, "a page that becomes free is released by default");
    for (int i = 0; i < 4; i++) zv_check(full(b[i], i), "releasing a page leaves the others alone");
    b[4] = zt_mem_pool_alloc(p); FILL(b[4], 4);
    STATS(p); zv_check(b[4] != NULL && st.pages == 2 && st.page_allocs == 3 && blocks == base, "a released page's blocks are not handed out");
    for (int i = 0; i < 5; i++) zt_mem_pool_release(&b[i]);
    STATS(p); zv_check(st.pages == 0 && st.free_pages == 0 && st.page_frees == 3, BALANCED);
    b[0] = zt_mem_pool_alloc(p); FILL(b[0], 0);
    STATS(p); zv_check(st.pages == 1 && st.page_allocs == 4, "an empty pool makes a page");
    zt_mem_pool_release(&b[0]);
    zv_check(zt_mem_pool_destroy(&p) == 0 && blocks == 0, "destroying an unused pool releases everything");
}
void lemma_keep_p17_nf(void) {
    void *b[9]; int base;
    zt_mem_pool *p = zt_mem_pool_init("p", 4, 16, NULL, NULL, POOL_NEVER_FREE);
    for (int i = 0; i < 9; i++) { b[i] = zt_mem_pool_alloc(p); FILL(b[i], i); }
    base = blocks;
    for (int i = 0; i < 8; i++) zt_mem_pool_release(&b[i]);
    STATS(p); zv_check(st.pages == 3 && st.free_pages == 2 && blocks == base && st.page_frees == 0, "a pool told so never releases pages by itself");
    zv_check(zt_mem_pool_release_free_pages(p) == 0, "free pages are released on demand");
    STATS(p); zv_check(st.pages == 1 && st.free_pages == 0 && blocks == base - 2, "exactly the free pages are released on demand");
    zv_check(st.page_allocs == st.page_frees + st.pages, BALANCED);
    zv_check(full(b[8], 8), "releasing free pages leaves blocks in use alone");
    b[0] = zt_mem_pool_alloc(p); FILL(b[0], 0); zv_check(full(b[8], 8) && full(b[0], 0) && b[0] != b[8], "the pool goes on after releasing pages");
    STATS(p); zv_check(st.pages == 1 && blocks == base - 2, "the remaining page's blocks are used first");
    zt_mem_pool_release(&b[8]); zt_mem_pool_release(&b[0]);
    zv_check(zt_mem_pool_destroy(&p) == 0 && blocks == 0, "destroying an unused pool releases everything");
}
/* sizes: everything that is handed out lies in its page */
#define SIZES(E, S) void lemma_size##E##x##S##_p170_nf(void) { \
    void *b[12]; zt_mem_pool *p = zt_mem_pool_init(NULL, E, S, NULL, NULL, 0); int n; \
    STATS(p); \
    zv_check(st.elts_per_page > 0 && st.page_size >= 32 + st.elts_per_page * (24 + S) && st.elt_size == S, "the elements fit in their page"); \
    zv_check(st.pages * st.elts_per_page > 0 && st.actual_elts >= E && st.pages == st.free_pages && st.pages == st.page_allocs, "a new pool has free pages"); \
    n = st.elts_per_page + 2 < 12 ? st.elts_per_page + 2 : 12; \
    for (int i = 0; i < n; i++) { b[i] = zt_mem_pool_alloc(p); for (int j = 0; j < S; j++) ((char *)b[i])[j] = (char)(i + j); } \
    int ok = 1; for (int i = 0; i < n; i++) for (int j = 0; j < S; j++) ok &= ((char *)b[i])[j] == (char)(i + j); \
    zv_check(ok, "blocks of every size keep their contents"); \
    for (int i = 0; i < n; i++) zt_mem_pool_release(&b[i]); \
    zv_check(zt_mem_pool_destroy(&p) == 0 && blocks == 0, "destroying an unused pool releases everything"); }
SIZES(0, 8) SIZES(1, 8) SIZES(5, 8) SIZES(11, 8) SIZES(1, 80) SIZES(3, 88) SIZES(0, 96) SIZES(2, 160) SIZES(9, 16)
/* memory may run out at any point */
void lemma_nomem_p17_nf(void) {
    for (int k = 0; k < 3; k++) {
        allow = k; denied = 0;
        zv_check(zt_mem_pool_init("p", 4, 16, NULL, NULL, 0) == NULL && denied > 0, "a pool that cannot be made is not handed out");
        zv_check(blocks == 0, "what was made for it is released");
        allow = 100; zv_check(zt_mem_pool_get("p") == NULL, "a pool that cannot be made cannot be found");
    }
    for (int k = 0; k < 2; k++) { allow = k; zv_check(zt_mem_heap_init("h", 8) == NULL && blocks == 0, "a heap that cannot be made is not handed out"); }
    for (int k = 0; k < 2; k++) { allow = k; zv_check(zt_mem_set_init("h") == NULL && blocks == 0, "a set that cannot be made is not handed out"); }
    allow = 100;
    zt_mem_pool *p = zt_mem_pool_init("p", 4, 16, NULL, NULL, 0);
    void *b[5];
    for (int i = 0; i < 4; i++) { b[i] = zt_mem_pool_alloc(p); FILL(b[i], i); }
    allow = 0;
    zv_check(zt_mem_pool_alloc(p) == NULL, "without memory there is no further page");
    STATS(p); zv_check(st.pages == 1 && st.page_allocs == 1 && st.free_pages == 0, "a page that cannot be made is not counted");
    zt_mem_pool_release(&b[2]);
    zv_check(st.pages == 1, "a block given back is at hand without memory");
    allow = 1; b[2] = zt_mem_pool_alloc(p); FILL(b[2], 2);
    zv_check(allow == 1 && full(b[0], 0) && full(b[1], 1) && full(b[2], 2) && full(b[3], 3), "blocks keep their contents");
}
/* names */
void lemma_name_p17_nf(void) {
    char n[4] = "abc";
    zt_mem_pool *p, *q, *r;
    p = zt_mem_pool_init(n, 4, 16, NULL, NULL, 0); n[2] = 0; q = zt_mem_pool_init(n, 4, 16, NULL, NULL, 0); n[0] = 'x'; r = zt_mem_pool_init("abd", 1, 8, NULL, NULL, 0);
    zv_check(zt_mem_pool_get("abc") == p && zt_mem_pool_get("ab") == q && zt_mem_pool_get("abd") == r, "a pool is found by its name, of which it has a copy");
    zv_check(zt_mem_pool_get("a") == NULL && zt_mem_pool_get("abcd") == NULL && zt_mem_pool_get("xb") == NULL && zt_mem_pool_get("") == NULL && zt_mem_pool_get(NULL) == NULL, "a pool is found by no other name");
    zt_mem_pool_destroy(&q);
    zv_check(zt_mem_pool_get("ab") == NULL && zt_mem_pool_get("abc") == p && zt_mem_pool_get("abd") == r, "a destroyed pool is not found, the others are");
    zt_mem_pool_destroy(&p); zt_mem_pool_destroy(&r);
    zv_check(zt_mem_pool_get("abc") == NULL && zt_mem_pool_get("abd") == NULL && blocks == 0, "a destroyed pool is not found, the others are");
    zt_mem_heap *h = zt_mem_heap_init("heap", 12);
    char *d = zt_mem_heap_get_data(h), *hn = zt_mem_heap_get_name(h);
    for (int i = 0; i < 12; i++) d[i] = (char)i;
    zv_check(hn[0] == 'h' && hn[1] == 'e' && hn[2] == 'a' && hn[3] == 'p' && hn[4] == 0 && d[0] == 0 && d[11] == 11, "a heap has its size and its name");
    zt_mem_heap_destroy(&h);
    zv_check(h == NULL && blocks == 0, "destroying a heap releases everything");
}
/* groups: the first pool that is large enough */
void lemma_group_p17(void) {
    zt_mem_pool_desc d[4] = { { "s", 4, 8, NULL, NULL, 0 }, { "m", 4, 16, NULL, NULL, 0 }, { "l", 1, 80, NULL, NULL, 0 }, { NULL } };
    size_t n = zv_ulong();
    zt_mem_pool_group *g = zt_mem_pool_group_init(d, 4);
    if (g == NULL) { zv_check(blocks == 0 || zt_mem_pool_get("s") == NULL, "a group that cannot be made leaves no pool"); return; }
    zv_assume(n <= 80);
    zt_mem_pool *s = zt_mem_pool_get("s"), *m = zt_mem_pool_get("m"), *l = zt_mem_pool_get("l");
    zv_check(s && m && l, "a group has a pool of each description");
    void *b = zt_mem_pool_group_alloc(g, n);
    STATS(s); size_t fs = st.free_pages; STATS(m); size_t fm = st.free_pages; STATS(l); size_t fl = st.free_pages;
    zv_check(b != NULL && fs == (n > 8) && fm == !(n > 8 && n <= 16) && fl == (n <= 16), "a block comes from the pool of the closest size");
    zv_check(zt_mem_pool_group_destroy(g) == -1, "a group in use reports so when destroyed");
    zv_check(zt_mem_pool_get("s") != NULL || n > 8, "a pool in use stays");
}
/* asserted against where assertions are kept */
void lemma_toolarge_p17_nf_nd(void) {
    zt_mem_pool_desc d[3] = { { "s", 4, 8, NULL, NULL, 0 }, { "m", 4, 16, NULL, NULL, 0 }, { "l", 1, 80, NULL, NULL, 0 } };
    zt_mem_pool_group *g = zt_mem_pool_group_init(d, 3);
    zv_check(zt_mem_pool_group_alloc(g, 81) == NULL, "no pool has blocks that large");
}
void lemma_ungroup_p17_nf(void) {
    zt_mem_pool_desc d[3] = { { "s", 4, 8, NULL, NULL, 0 }, { "m", 4, 16, NULL, NULL, 0 }, { "l", 1, 80, NULL, NULL, 0 } };
    zt_mem_pool_group *g = zt_mem_pool_group_init(d, 3);
    void *a = zt_mem_pool_group_alloc(g, 8), *b = zt_mem_pool_group_alloc(g, 9), *c = zt_mem_pool_group_alloc(g, 80);
    zt_mem_pool_group_release(&a); zt_mem_pool_group_release(&b); zt_mem_pool_group_release(&c);
    zv_check(zt_mem_pool_group_destroy(g) == 0, "an unused group is destroyed");
    zv_check(zt_mem_pool_get("s") == NULL && zt_mem_pool_get("m") == NULL && zt_mem_pool_get("l") == NULL, "with a group go its pools");
    for (int k = 2; k < 11; k++) { allow = k; int was = blocks; zv_check(zt_mem_pool_group_init(d, 3) == NULL && blocks == was, "a group that cannot be made leaves nothing"); }
}
