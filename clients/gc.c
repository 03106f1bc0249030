#define ZT_WITH_GC
#include "lemma.h"
/* garbage collection of small object graphs: what is reachable stays, what is not goes, once */
#define MAXN 5
struct ob { zt_gc_collectable_t c; int gone, marks; struct ob *ref[MAXN]; };
static struct ob *self_pd;
static void mark(zt_gc_t *gc, void *pd, void *v) {
    struct ob *o = v;
    o->marks++;
    for (int i = 0; i < MAXN; i++) if (o->ref[i]) zt_gc_mark(gc, o->ref[i]);
}
static int wrong;
static void drop(zt_gc_t *gc, void *pd, void **v) {
    struct ob *o = *v;
    if (pd != &wrong) wrong = 1;
    o->gone++;
}
#define NEW(marks, allocs) zt_gc_t *gc = zt_gc_init(&wrong, mark, drop, marks, allocs)
static void fresh(struct ob *o, int n) { memset(o, 0, n * sizeof *o); }
static void add(zt_gc_t *gc, struct ob *o) { zt_gc_prepare(gc, o); zt_gc_register(gc, o); }
/* all graphs over three objects, the first protected */
#define GRAPH(B) void lemma_graph##B##_p12_nf(void) { \
    struct ob o[3]; int r1, r2; \
    fresh(o, 3); \
    NEW(100, 100); \
    for (int i = 0; i < 3; i++) add(gc, &o[i]); \
    zt_gc_protect(gc, &o[0]); \
    if ((B) & 1) o[0].ref[0] = &o[1]; \
    if ((B) & 2) o[0].ref[1] = &o[2]; \
    if ((B) & 4) o[1].ref[0] = &o[2]; \
    if ((B) & 8) o[2].ref[0] = &o[1]; \
    if ((B) & 16) { o[1].ref[1] = &o[0]; o[2].ref[2] = &o[2]; o[1].ref[3] = &o[1]; } \
    r1 = ((B) & 1) || ((B) & 2 && (B) & 8); r2 = ((B) & 2) || ((B) & 1 && (B) & 4); \
    for (int k = 0; k < 4; k++) { \
        zt_gc_collect(gc, TRUE); \
        zv_check(!o[0].gone, "a protected object stays"); \
        zv_check((!r1 || !o[1].gone) && (!r2 || !o[2].gone), "an object reachable from a protected one stays"); \
    } \
    zv_check((r1 || o[1].gone == 1) && (r2 || o[2].gone == 1), "an unreachable object is released once"); \
    zt_gc_unprotect(gc, &o[0]); \
    for (int k = 0; k < 3; k++) zt_gc_collect(gc, TRUE); \
    zv_check(o[0].gone == 1, "an unprotected unreachable object is released"); \
    zv_check(!wrong, "the callbacks get the private data"); \
    free(gc); }
GRAPH(0) GRAPH(1) GRAPH(2) GRAPH(3) GRAPH(4) GRAPH(5) GRAPH(6) GRAPH(7) GRAPH(8) GRAPH(9) GRAPH(10) GRAPH(11) GRAPH(12) GRAPH(13) GRAPH(14) GRAPH(15)
GRAPH(16) GRAPH(17) GRAPH(19) GRAPH(21) GRAPH(22) GRAPH(26) GRAPH(31)
#define CUT(K) void lemma_cut##K##_p12_nf(void) { \
    struct ob o[3]; \
    fresh(o, 3); \
    NEW(100, 100); \
    for (int i = 0; i < 3; i++) add(gc, &o[i]); \
    zt_gc_protect(gc, &o[0]); \
    o[0].ref[0] = &o[1]; o[0].ref[1] = &o[2]; o[2].ref[0] = &o[1]; \
    for (int i = 0; i < K; i++) zt_gc_collect(gc, TRUE); \
    o[0].ref[0] = NULL; o[2].ref[0] = NULL; \
    for (int i = 0; i < 3; i++) zt_gc_collect(gc, TRUE); \
    zv_check(o[1].gone == 1 && !o[0].gone && !o[2].gone, "an object that lost its last reference is released, the others stay"); \
    o[0].ref[1] = NULL; \
    for (int i = 0; i < 2; i++) zt_gc_collect(gc, TRUE); \
    zv_check(o[2].gone == 1 && !o[0].gone, "the next one goes when it loses its reference"); \
    free(gc); }
CUT(0) CUT(1) CUT(2) CUT(3)
/* incremental scans: a chain hanging off a protected root, any number of steps between the mutator's actions */
static void steps(zt_gc_t *gc, struct ob *x, int n) {
    for (int i = 0; i < n; i++) add(gc, &x[i]);     /* each registration is one step */
}
#define INCR(A, B) void lemma_incr##A##B##_p16_nf(void) { \
    struct ob o[4], x[12]; \
    fresh(o, 4); fresh(x, 12); \
    NEW(1, 1); \
    zt_gc_disable(gc); \
    for (int i = 0; i < 4; i++) add(gc, &o[i]); \
    zt_gc_protect(gc, &o[0]); \
    o[0].ref[0] = &o[1]; o[1].ref[0] = &o[2]; o[2].ref[0] = &o[3]; \
    zt_gc_enable(gc); \
    steps(gc, x, A); \
    /* the chain is cut below the second object, which now protects itself */ \
    zt_gc_protect(gc, &o[1]); o[0].ref[0] = NULL; \
    zv_check(!o[0].gone && !o[1].gone && !o[2].gone && !o[3].gone, "nothing reachable is released during an incremental scan"); \
    steps(gc, x + A, B); \
    zv_check(!o[0].gone && !o[1].gone && !o[2].gone && !o[3].gone, "nothing reachable from a newly protected object is released"); \
    for (int k = 0; k < 3; k++) { zt_gc_collect(gc, TRUE); zv_check(!o[0].gone && !o[1].gone && !o[2].gone && !o[3].gone, "nothing reachable is released by the scans that follow"); } \
    for (int i = 0; i < A + B; i++) zv_check(x[i].gone == 1, "unreachable newcomers are released once"); \
    zt_gc_unprotect(gc, &o[1]); \
    for (int k = 0; k < 3; k++) zt_gc_collect(gc, TRUE); \
    zv_check(!o[0].gone && o[1].gone == 1 && o[2].gone == 1 && o[3].gone == 1, "the chain goes once it is unreachable"); \
    free(gc); }
INCR(0, 4) INCR(1, 6) INCR(2, 6) INCR(3, 6) INCR(4, 6) INCR(5, 6) INCR(6, 6)
/* two roots; the second cycle is under way when what hangs off the later one is taken over */
#define TAKE(A, HOW) void lemma_take##A##HOW##_p16_nf(void) { \
    struct ob o[5], x[12]; \
    fresh(o, 5); fresh(x, 12); \
    NEW(1, 1); \
    zt_gc_disable(gc); \
    for (int i = 0; i < 5; i++) add(gc, &o[i]); \
    zt_gc_protect(gc, &o[0]); zt_gc_protect(gc, &o[1]); \
    o[0].ref[0] = &o[2]; o[2].ref[0] = &o[3]; o[3].ref[0] = &o[4]; \
    zt_gc_enable(gc); \
    zt_gc_collect(gc, TRUE); \
    steps(gc, x, A); \
    if (HOW == 0) zt_gc_protect(gc, &o[2]); \
    else if (HOW == 1) { zt_gc_protect(gc, &o[3]); zt_gc_protect(gc, &o[2]); } \
    else if (HOW == 2) { o[1].ref[0] = &o[2]; zt_gc_mark(gc, &o[2]); } \
    else { zt_gc_protect(gc, &o[2]); zt_gc_unprotect(gc, &o[2]); zt_gc_mark(gc, &o[2]); o[1].ref[1] = &o[2]; } \
    o[0].ref[0] = NULL; \
    for (int k = 0; k < 7; k++) { steps(gc, x + A + k, 1); zv_check(!o[0].gone && !o[1].gone && !o[2].gone && !o[3].gone && !o[4].gone, "what a root took over during a scan stays"); } \
    for (int k = 0; k < 2; k++) { zt_gc_collect(gc, TRUE); zv_check(!o[0].gone && !o[1].gone && !o[2].gone && !o[3].gone && !o[4].gone, "what a root took over stays in later scans"); } \
    free(gc); }
#define TAKES(A) TAKE(A, 0) TAKE(A, 1) TAKE(A, 2) TAKE(A, 3)
TAKES(0) TAKES(1) TAKES(2) TAKES(3) TAKES(4) TAKES(5)
/* references moved during a scan are announced with zt_gc_mark */
#define MOVE(A, B) void lemma_move##A##B##_p16_nf(void) { \
    struct ob o[4], x[12]; \
    fresh(o, 4); fresh(x, 12); \
    NEW(1, 1); \
    zt_gc_disable(gc); \
    for (int i = 0; i < 4; i++) add(gc, &o[i]); \
    zt_gc_protect(gc, &o[0]); \
    o[0].ref[0] = &o[1]; o[1].ref[0] = &o[2]; o[2].ref[0] = &o[3]; \
    zt_gc_enable(gc); \
    zt_gc_collect(gc, TRUE); \
    steps(gc, x, A); \
    /* the root takes over the end of the chain */ \
    o[0].ref[1] = &o[3]; zt_gc_mark(gc, &o[3]); o[2].ref[0] = NULL; \
    steps(gc, x + A, B); \
    zv_check(!o[0].gone && !o[1].gone && !o[2].gone && !o[3].gone, "an announced move during a scan loses nothing"); \
    for (int k = 0; k < 2; k++) zt_gc_collect(gc, TRUE); \
    zv_check(!o[0].gone && !o[1].gone && !o[2].gone && !o[3].gone, "an announced move loses nothing later"); \
    free(gc); }
MOVE(0, 5) MOVE(1, 6) MOVE(2, 6) MOVE(3, 6) MOVE(4, 6) MOVE(5, 6)
void lemma_disabled_p12_nf(void) {
    struct ob o[4];
    fresh(o, 4);
    NEW(100, 2);
    zt_gc_disable(gc); zt_gc_disable(gc);
    for (int i = 0; i < 4; i++) add(gc, &o[i]);
    for (int k = 0; k < 3; k++) zt_gc_collect(gc, TRUE);
    zv_check(!o[0].gone && !o[1].gone && !o[2].gone && !o[3].gone && !o[0].marks, "a disabled collector does nothing");
    zt_gc_enable(gc);
    zt_gc_collect(gc, TRUE); zt_gc_collect(gc, TRUE);
    zv_check(!o[0].gone && !o[0].marks, "disabling nests");
    zt_gc_enable(gc);
    zv_check(o[0].marks == 1 && o[3].marks == 1, "enabling makes up for a collection that became due");
    zt_gc_collect(gc, TRUE); zt_gc_collect(gc, TRUE);
    for (int i = 0; i < 4; i++) zv_check(o[i].gone == 1, "an enabled collector releases");
    free(gc);
}
void lemma_pace_p12_nf(void) {
    struct ob o[7];
    fresh(o, 7);
    NEW(100, 3);
    add(gc, &o[0]); add(gc, &o[1]);
    zt_gc_collect(gc, FALSE);
    zv_check(!o[0].marks && !o[1].marks, "no collection before enough registrations");
    add(gc, &o[2]);
    zv_check(o[0].marks == 1 && o[1].marks == 1 && o[2].marks == 1 && !o[0].gone, "a collection runs after enough registrations");
    add(gc, &o[3]); add(gc, &o[4]);
    zv_check(o[0].marks == 1 && !o[0].gone, "the count starts again after a collection");
    add(gc, &o[5]);
    zv_check(o[0].gone + o[1].gone + o[2].gone == 3 && !o[3].gone, "objects unreachable for a whole cycle are released by the next");
    free(gc);
}
#define LEAVE(A, W) void lemma_unregister##A##W##_p16_nf(void) { \
    struct ob o[4], x[8]; \
    fresh(o, 4); fresh(x, 8); \
    NEW(1, 1); \
    zt_gc_disable(gc); \
    for (int i = 0; i < 4; i++) add(gc, &o[i]); \
    zt_gc_protect(gc, &o[0]); \
    o[0].ref[0] = &o[1]; o[0].ref[1] = &o[2]; o[0].ref[2] = &o[3]; \
    zt_gc_enable(gc); \
    steps(gc, x, A); \
    for (int i = 0; i < 3; i++) if (o[0].ref[i] == &o[W]) o[0].ref[i] = NULL; \
    zt_gc_unregister(gc, &o[W]); int m = o[W].marks; \
    steps(gc, x + A, 4); \
    for (int k = 0; k < 3; k++) zt_gc_collect(gc, TRUE); \
    zv_check(o[W].gone == 0 && o[W].marks == m, "an unregistered object is neither marked nor released"); \
    for (int i = 0; i < 4; i++) if (i != W) zv_check(!o[i].gone, "the other objects stay"); \
    zt_gc_destroy(gc); \
    zv_check(o[W].gone == 0, "destroying leaves an unregistered object alone"); \
    for (int i = 0; i < 4; i++) if (i != W) zv_check(o[i].gone == 1, "destroying releases every registered object once"); \
    for (int i = 0; i < A + 4; i++) zv_check(x[i].gone == 1, "destroying releases what collections left, once"); \
    free(gc); }
LEAVE(0, 1) LEAVE(0, 2) LEAVE(1, 1) LEAVE(1, 2) LEAVE(1, 3) LEAVE(2, 1) LEAVE(2, 2) LEAVE(2, 3) LEAVE(3, 1) LEAVE(3, 3)
void lemma_destroy_p12_nf(void) {
    struct ob o[4];
    fresh(o, 4);
    NEW(100, 100);
    for (int i = 0; i < 4; i++) add(gc, &o[i]);
    zt_gc_protect(gc, &o[1]); zt_gc_protect(gc, &o[2]);
    o[1].ref[0] = &o[3];
    if (zv_int()) zt_gc_collect(gc, TRUE);
    if (zv_int()) zt_gc_disable(gc);
    zt_gc_destroy(gc);
    for (int i = 0; i < 4; i++) zv_check(o[i].gone == 1, "destroying releases every object once");
    free(gc);
}
static int seen[4], kinds;
static void look(void *v, void *d, int ty) { struct ob *o = d; for (int i = 0; i < 4; i++) if (v == &o[i]) seen[i]++; if (ty < 0 || ty > 2) kinds = 1; }
void lemma_each_p12_nf(void) {
    struct ob o[4];
    fresh(o, 4);
    NEW(100, 100);
    for (int i = 0; i < 4; i++) add(gc, &o[i]);
    zt_gc_protect(gc, &o[1]);
    zt_gc_collect(gc, TRUE);
    zt_gc_for_each(gc, look, o);
    zv_check(seen[0] == 1 && seen[1] == 1 && seen[2] == 1 && seen[3] == 1 && !kinds, "every registered object is visited once");
    free(gc);
}
/* an announced object may be the very one the scan has stopped at */
void lemma_cursor_p16_nf(void) {
    struct ob o[4], x[8];
    fresh(o, 4); fresh(x, 8);
    NEW(1, 1);
    zt_gc_disable(gc);
    for (int i = 0; i < 4; i++) add(gc, &o[i]);
    zt_gc_protect(gc, &o[0]); zt_gc_protect(gc, &o[1]); zt_gc_protect(gc, &o[3]);
    o[3].ref[0] = &o[2];
    zt_gc_enable(gc);
    zt_gc_collect(gc, TRUE);
    for (int k = 0; k < 3; k++) {
        zt_gc_unprotect(gc, &o[k & 1]);
        x[k].ref[0] = &o[2];
        o[3].ref[0] = NULL; if (k) x[k - 1].ref[0] = NULL;
        o[3].ref[1] = &x[k];
        steps(gc, x + k, 1);
        zt_gc_mark(gc, &x[k]);
        zt_gc_mark(gc, &o[0]); zt_gc_mark(gc, &o[1]);
        steps(gc, x + 4, 1);
        zv_check(!o[2].gone && !x[k].gone, "announcing the object a scan stopped at loses nothing");
        zt_gc_unregister(gc, &x[4]);
    }
    zt_gc_collect(gc, TRUE); zt_gc_collect(gc, TRUE);
    zv_check(!o[2].gone && !x[2].gone && !o[3].gone, "announcing the object a scan stopped at loses nothing later");
    free(gc);
}
#define CURSOR(A) void lemma_stop##A##_p16_nf(void) { \
    struct ob o[4], x[8]; \
    fresh(o, 4); fresh(x, 8); \
    NEW(1, 1); \
    zt_gc_disable(gc); \
    for (int i = 0; i < 4; i++) add(gc, &o[i]); \
    zt_gc_protect(gc, &o[3]); \
    if (A & 1) zt_gc_protect(gc, &o[0]); \
    zt_gc_protect(gc, &o[1]); \
    if (!(A & 1)) zt_gc_protect(gc, &o[0]); \
    o[1].ref[0] = &o[2]; \
    zt_gc_enable(gc); \
    zt_gc_collect(gc, TRUE); \
    zt_gc_unprotect(gc, &o[0]); \
    o[3].ref[0] = &o[0]; \
    if (A & 2) { o[1].ref[0] = NULL; x[0].ref[0] = &o[2]; o[1].ref[1] = &x[0]; } \
    add(gc, &x[0]); \
    if (A & 4) add(gc, &x[1]); \
    if (A & 2) zt_gc_mark(gc, &x[0]); \
    zt_gc_mark(gc, &o[0]); \
    for (int k = 2; k < 6; k++) { steps(gc, x + k, 1); zv_check(!o[0].gone && !o[1].gone && !o[2].gone && !o[3].gone && (!(A & 2) || !x[0].gone), "marking at the point of the scan loses nothing"); } \
    for (int k = 0; k < 3; k++) { zt_gc_collect(gc, TRUE); zv_check(!o[0].gone && !o[1].gone && !o[2].gone && !o[3].gone && (!(A & 2) || !x[0].gone), "marking at the point of the scan loses nothing later"); } \
    free(gc); }
CURSOR(0) CURSOR(1) CURSOR(2) CURSOR(3) CURSOR(4) CURSOR(5) CURSOR(6) CURSOR(7)
/* callbacks that use the collector themselves */
static struct ob *spare; static int spares, deep, inside;
static void busy(zt_gc_t *gc, void *pd, void **v) {
    struct ob *o = *v;
    zv_check(!inside, "no object is released while another is");
    if (inside) { deep = 1; o->gone++; return; }
    inside = 1;
    o->gone++;
    if (spares > 0) { spares--; add(gc, spare++); }
    zt_gc_collect(gc, TRUE); zt_gc_collect(gc, FALSE);
    inside = 0;
}
#define BUSY(ALLOCS, N) void lemma_busy##ALLOCS##_##N##_p16_r4_nf(void) { \
    struct ob o[4], x[8]; \
    fresh(o, 4); fresh(x, 8); \
    zt_gc_t *gc = zt_gc_init(&wrong, mark, busy, 100, ALLOCS); \
    zt_gc_disable(gc); \
    for (int i = 0; i < 4; i++) add(gc, &o[i]); \
    zt_gc_protect(gc, &o[0]); o[0].ref[0] = &o[1]; \
    zt_gc_enable(gc); \
    spare = x; spares = N; inside = deep = 0; \
    for (int k = 0; k < 3; k++) zt_gc_collect(gc, TRUE); \
    zv_check(!deep, "no object is released while another is"); \
    zv_check(!o[0].gone && !o[1].gone, "what is reachable stays whatever a release does"); \
    zv_check(o[2].gone == 1 && o[3].gone == 1, "an unreachable object is released once whatever its release does"); \
    for (int i = 0; i < N; i++) zv_check(x[i].gone <= 1, "what a release registers is released at most once"); \
    spares = 0; \
    for (int k = 0; k < 3; k++) zt_gc_collect(gc, TRUE); \
    for (int i = 0; i < N; i++) zv_check(x[i].gone == 1, "what a release registers is released in its turn"); \
    free(gc); }
BUSY(1, 2) BUSY(100, 2) BUSY(1, 4) BUSY(2, 3)
#define CLOSING(ALLOCS) void lemma_closing##ALLOCS##_p16_r6_nf(void) { \
    struct ob o[4], x[4]; \
    fresh(o, 4); fresh(x, 4); \
    zt_gc_t *gc = zt_gc_init(&wrong, mark, busy, 100, ALLOCS); \
    zt_gc_disable(gc); \
    for (int i = 0; i < 4; i++) add(gc, &o[i]); \
    zt_gc_protect(gc, &o[0]); o[0].ref[0] = &o[1]; zt_gc_protect(gc, &o[2]); \
    zt_gc_enable(gc); \
    spare = x; spares = 0; inside = deep = 0; \
    zt_gc_destroy(gc); \
    zv_check(!deep, "no object is released while another is, on destruction"); \
    for (int i = 0; i < 4; i++) zv_check(o[i].gone == 1, "destroying releases every object once whatever its release does"); \
    free(gc); }
CLOSING(1) CLOSING(100)
