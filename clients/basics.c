#include "lemma.h"
#include <limits.h>
/* macros */
void lemma_least(void) {
    int a = zv_int(), b = zv_int(), lo = zv_int(), hi = zv_int(), r;
    zv_assume(lo <= hi);
    r = MIN(a, b); zv_check(r <= a && r <= b && (r == a || r == b), "the least of two is one of them and above neither");
    r = MAX(a, b); zv_check(r >= a && r >= b && (r == a || r == b), "the greatest of two is one of them and below neither");
    r = CLAMP(a, lo, hi); zv_check(r >= lo && r <= hi && (a < lo || a > hi || r == a), "a number is clamped to its bounds");
    r = CEILING(a, hi); zv_check(r <= hi && (a > hi || r == a), "a number is kept below its ceiling");
    r = FLOOR(a, lo); zv_check(r >= lo && (a < lo || r == a), "a number is kept above its floor");
}
void lemma_abs(void) { int a = zv_int(); zv_assume(a != INT_MIN); zv_check(ABS(a) >= 0 && (ABS(a) == a || ABS(a) == -a), "the absolute value is not negative"); }
void lemma_bits(void) {
    unsigned x = (unsigned)zv_ulong(), y = x, z = x;
    ZT_BIT_SET(y, 4u);
    ZT_BIT_UNSET(z, 4u);
    zv_check((y & 4) == 4 && (y & ~4u) == (x & ~4u), "setting a bit leaves the others");
    zv_check((z & 4) == 0 && (z & ~4u) == (x & ~4u), "clearing a bit leaves the others");
    zv_check(ZT_BIT_ISSET(y, 4u) && !ZT_BIT_ISSET(z, 4u) && ZT_BIT_ISUNSET(z, 4u) && !ZT_BIT_ISUNSET(y, 4u), "a bit is told as it is");
}
struct in { int a; long b; char c[3]; };
void lemma_parts(void) {
    struct in s; int v[5];
    zv_check(zt_containerof(&s.b, struct in, b) == &s && zt_containerof(&s.c, struct in, c) == &s, "an element leads to its container");
    zv_check(sizeof_array(v) == 5 && endof_array(v) == v + 5, "the length and end of an array");
}
/* memory: what is asked for is there, or the program ends with a word about it */
void lemma_malloc_p20(void) {
    unsigned long n = zv_ulong(); int *p;
    zv_assume(n > 0 && n < 1000);
    p = zt_malloc(int, n);
    zv_check(p != NULL, "memory asked for is there");
    p[n - 1] = 7; zv_check(p[n - 1] == 7, "all of it can be used");
    zt_free(p);
}
void lemma_calloc_p20(void) {
    unsigned long n = zv_ulong(), k = zv_ulong(); int *p;
    zv_assume(n > 0 && n < 1000 && k < n);
    p = zt_calloc(int, n);
    zv_check(p != NULL && p[k] == 0, "cleared memory is there and clear");
    zt_free(p);
}
void lemma_realloc_p20(void) {
    int *p = zt_malloc(int, 2);
    p[0] = zv_int(); p[1] = 9;
    { int first = p[0]; p = zt_realloc(int, p, 8); zv_check(p != NULL && p[0] == first && p[1] == 9, "memory made larger keeps what was in it"); }
    p[7] = 1; zv_check(p[7] == 1, "all of the larger memory can be used");
    zt_free(p);
}
void lemma_strdup_p20(void) {
    char s[4] = {(char)zv_int(), (char)zv_int(), (char)zv_int(), 0}, *d = zt_strdup(s);
    zv_check(d != NULL && d != s && !strcmp(d, s), "a copy of a text is a text of its own with the same characters");
    zt_free(d);
}
/* arguments are values, however they are written */
static int width(const char *f, int n, const char *e) { (void)f; return e[0] ? -1 : n; }
void lemma_written(void) {
    int a = zv_int(), b = zv_int();
    zv_assume(a >= 0 && a < 1000 && b >= 0 && b < 1000);
    zv_check(width(BLANK, INDENT(2)) == 10 && width(BLANK, INDENT(1 + 1)) == 10, "a level is five columns");
    zv_check(width(BLANK, INDENT_TO(15, 5, 0)) == 15 && width(BLANK, INDENT_TO(10 + 7, 2 + 3, 1 + 1)) == 15 && width(BLANK, INDENT_TO(17, 5, 0)) == 17, "what is padded ends at its column");
    zv_check(width(BLANK, INDENT_PAD(1 + 1, 2 + 3, a & 1)) == 10 + (a & 1), "padding is levels of steps");
    zv_check(MIN(a & 3, b & 3) <= 3 && MAX(a & 3, 4 | 3) == 7, "an argument of the least and greatest is a value");
    zv_check(ABS(a - b) == (a > b ? a - b : b - a), "an argument of the absolute value is a value");
    zv_check(CEILING(a & 7, 3 | 4) == (a & 7) && FLOOR(a & 1, 0 | 2) == 2, "an argument of ceiling and floor is a value");
}
/* there is no such memory */
void lemma_toomuch(void) {
    size_t half = (size_t)-1 / 2 + 9;
    int way = zv_int(), some = 0; void *p = NULL;
    if (way == 0) p = zt_calloc_p(half, 2);
    else if (way == 1) p = zt_calloc_p(2, half);
    else if (way == 2) p = zt_calloc_p((size_t)1 << 33, (size_t)1 << 33);
    else some = 1;
    zv_check(some, "elements that do not fit into memory are not handed out");
}
