#include "lemma.h"
/* sets, over tables reduced to finite maps (reftable.c) */
/* sets */
static zt_set *set(void) { return zt_set_init(zt_table_compare_int, NULL, NULL); }
static int got[4], others;
static int count(void *d, void *param) {
    long v = (long)d;
    if (v >= 1 && v <= 4) got[v - 1]++; else others++;
    return param ? (int)(long)param : 0;
}
static zt_set *of(int m, int from) {
    zt_set *s = set();
    for (int k = 0; k < 3; k++) if (m >> k & 1) zt_set_insert(s, (void *)(long)(from + k), 8);
    return s;
}
static int pick8(void) {
    int i = zv_int();
    zv_assume(i >= 0 && i <= 7);
    for (int k = 0; k < 7; k++) if (i == k) return k;
    return 7;
}
#define MEM(s, m, label) do { \
        for (long v_ = 1; v_ <= 3; v_++) zv_check(zt_set_is_member(s, (void *)v_, 8) == ((m) >> (v_ - 1) & 1), label); \
        int n_ = ((m) & 1) + ((m) >> 1 & 1) + ((m) >> 2 & 1); \
        zv_check((s)->length == n_, "the length of a set is the number of its elements"); \
        got[0] = got[1] = got[2] = got[3] = others = 0; \
        zv_check(zt_set_for_each(s, count, NULL) == 0 && others == 0 && got[3] == 0, "an iteration visits elements only"); \
        for (long v_ = 0; v_ < 3; v_++) zv_check(got[v_] == ((m) >> v_ & 1), "an iteration visits every element once"); } while (0)
void lemma_setmember_p600_nf(void) {
    int m = pick8();
    zt_set *s = of(m, 1);
    MEM(s, m, "exactly what was inserted is a member");
    zv_check(zt_set_insert(s, (void *)2, 8) == (m >> 1 & 1), "inserting tells whether the element was there");
    MEM(s, m | 2, "exactly what was inserted is a member");
    void *d = (void *)2;
    zv_check(zt_set_remove(s, &d) == 0 && d == (void *)2, "removing returns the element");
    MEM(s, m & 5, "exactly what was removed is no longer a member");
    zv_check(zt_set_remove(s, &d) == 1, "an absent element is not removed");
    MEM(s, m & 5, "exactly what was removed is no longer a member");
    zt_set_destroy(s);
}
void lemma_setunion_p600_nf(void) {
    int m = pick8(), n = pick8();
    zt_set *a = of(m, 1), *b = of(n, 1), *u = set();
    zv_check(zt_set_union(u, a, b) == 0, "a union succeeds");
    MEM(u, m | n, "a union has the elements of both");
    MEM(a, m, "set operations leave their operands alone");
    MEM(b, n, "set operations leave their operands alone");
    zt_set_destroy(a); zt_set_destroy(b); zt_set_destroy(u);
}
void lemma_setinter_p600_nf(void) {
    int m = pick8(), n = pick8();
    zt_set *a = of(m, 1), *b = of(n, 1), *u = set();
    zv_check(zt_set_intersection(u, a, b) == 0, "an intersection succeeds");
    MEM(u, m & n, "an intersection has the elements in both");
    MEM(a, m, "set operations leave their operands alone");
    zt_set_destroy(a); zt_set_destroy(b); zt_set_destroy(u);
}
void lemma_setdiff_p600_nf(void) {
    int m = pick8(), n = pick8();
    zt_set *a = of(m, 1), *b = of(n, 1), *u = set();
    zv_check(zt_set_difference(u, a, b) == 0, "a difference succeeds");
    MEM(u, m & ~n, "a difference has the elements of the first only");
    MEM(b, n, "set operations leave their operands alone");
    zt_set_destroy(a); zt_set_destroy(b); zt_set_destroy(u);
}
void lemma_setpre_p600_nf(void) {
    int m = pick8(), n = pick8();
    zt_set *a = of(m, 1), *u = of(n, 1), *e = set();
    zv_check(zt_set_union(u, a, e) == 0, "a union succeeds");
    MEM(u, m | n, "a union is added to what the target has");
    zt_set_destroy(a); zt_set_destroy(u); zt_set_destroy(e);
}
void lemma_setcmp_p600_nf(void) {
    int m = pick8(), n = pick8();
    zt_set *a = of(m, 1), *b = of(n, 1);
    zv_check(!zt_set_is_subset(a, b) == ((m & ~n) != 0), "a subset has no element the other lacks");
    zv_check(!zt_set_is_equal(a, b) == (m != n), "equal sets have the same elements");
    zt_set_destroy(a); zt_set_destroy(b);
}
static int gone[4];
static void destroyed(void *d) { long v = (long)d; if (v >= 1 && v <= 4) gone[v - 1]++; }
void lemma_setdestroy_p600_nf(void) {
    int m = pick8();
    zt_set *s = zt_set_init(zt_table_compare_int, destroyed, NULL);
    for (int k = 0; k < 3; k++) if (m >> k & 1) zt_set_insert(s, (void *)(long)(1 + k), 8);
    gone[0] = gone[1] = gone[2] = 0;
    zt_set_destroy(s);
    for (int k = 0; k < 3; k++) zv_check(gone[k] == (m >> k & 1), "destroying a set hands each element to its destructor once");
}
void lemma_setstop_p600_nf(void) {
    zt_set *s = of(7, 1);
    got[0] = got[1] = got[2] = 0;
    zv_check(zt_set_for_each(s, count, (void *)5) == 5 && got[0] + got[1] + got[2] == 1, "an iteration stops when its callback says so and returns its result");
    zt_set_destroy(s);
}
