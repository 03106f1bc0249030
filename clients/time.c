#include "lemma.h"
#include <sys/resource.h>
/* time arithmetic on normalised values: 0 <= tv_usec < 1000000 */
#define LIM 0x3fffffffffffL
static struct timeval any(void) {
    struct timeval t; t.tv_sec = (long)zv_ulong(); t.tv_usec = (long)zv_ulong();
    zv_assume(t.tv_usec >= 0 && t.tv_usec < 1000000);
    zv_assume(t.tv_sec >= -LIM && t.tv_sec <= LIM);
    return t;
}
#define SAME(a, b) ((a).tv_sec == (b).tv_sec && (a).tv_usec == (b).tv_usec)
#define NORM(t) zv_check((t).tv_usec >= 0 && (t).tv_usec < 1000000, "a result is normalised")
void lemma_add_p4(void) {
    struct timeval a = any(), b = any(), r, a0 = a, b0 = b;
    zv_check(zt_add_time(&r, &a, &b) == &r, "the result is returned");
    NORM(r);
    zv_check(a.tv_sec + b.tv_sec <= r.tv_sec && r.tv_sec <= a.tv_sec + b.tv_sec + 1, "at most one second is carried");
    zv_check((r.tv_sec - a.tv_sec - b.tv_sec) * 1000000 + r.tv_usec == a.tv_usec + b.tv_usec, "a sum is the sum of both times");
    zv_check(SAME(a, a0) && SAME(b, b0), "the operands are left alone");
}
void lemma_add_alias_p4(void) {
    struct timeval a = any(), b = any(), r, x = a, y = b;
    zt_add_time(&r, &a, &b);
    zt_add_time(&x, &x, &b); zv_check(SAME(x, r), "the sum may replace the first operand");
    zt_add_time(&y, &a, &y); zv_check(SAME(y, r), "the sum may replace the second operand");
    x = a; zt_add_time(&x, &x, &x); zt_add_time(&r, &a, &a); zv_check(SAME(x, r), "a time may be doubled in place");
}
void lemma_sub_p4(void) {
    struct timeval a = any(), b = any(), r, a0 = a, b0 = b, x = a, y = b;
    zv_check(zt_sub_time(&r, &a, &b) == &r, "the result is returned");
    NORM(r);
    zv_check((r.tv_sec - a.tv_sec + b.tv_sec) * 1000000 + r.tv_usec == a.tv_usec - b.tv_usec, "a difference is the first time less the second");
    zv_check(SAME(a, a0) && SAME(b, b0), "the operands are left alone");
    zt_sub_time(&x, &x, &b); zv_check(SAME(x, r), "the difference may replace the first operand");
    zt_sub_time(&y, &a, &y); zv_check(SAME(y, r), "the difference may replace the second operand");
}
void lemma_diff_p4(void) {
    struct timeval a = any(), b = any(), r, q, x = a, y = b;
    zv_check(zt_diff_time(&r, &a, &b) == &r, "the result is returned");
    NORM(r);
    zt_sub_time(&q, &b, &a);
    zv_check(SAME(r, q), "the time from one to another is the second less the first");
    zt_diff_time(&x, &x, &b); zv_check(SAME(x, r), "the time between may replace the first operand");
    zt_diff_time(&y, &a, &y); zv_check(SAME(y, r), "the time between may replace the second operand");
}
void lemma_back_p4(void) {
    struct timeval a = any(), b = any(), s, d;
    zt_add_time(&s, &a, &b);
    zt_sub_time(&d, &s, &b);
    zv_check(SAME(d, a), "subtracting undoes adding");
    zt_diff_time(&d, &b, &s);
    zv_check(SAME(d, a), "the time between an operand and a sum is the other operand");
}
void lemma_cmp(void) {
    struct timeval a = any(), b = any();
    long c = zt_cmp_time(&a, &b), d = zt_cmp_time(&b, &a);
    if (a.tv_sec < b.tv_sec || (a.tv_sec == b.tv_sec && a.tv_usec < b.tv_usec)) {
        zv_check(c < 0, "an earlier time compares below");
        zv_check(d > 0, "a later time compares above");
    } else if (SAME(a, b)) {
        zv_check(c == 0 && d == 0, "equal times compare equal");
    } else {
        zv_check(c > 0, "a later time compares above");
        zv_check(d < 0, "an earlier time compares below");
    }
}
/* measuring: the system's answers are arbitrary, later ones not below earlier ones */
static struct timeval user[4], sys[4];
static int asked;
int getrusage(int who, struct rusage *u) {
    u->ru_utime = user[asked & 3]; u->ru_stime = sys[asked & 3]; asked++;
    return 0;
}
static int runs; static void *seen;
static int cell[4];
static void *work(void *d) { seen = d; return &cell[runs++ & 3]; }
static void between(struct timeval *r, int i, int j) { zt_sub_time(&r[0], &user[j], &user[i]); zt_sub_time(&r[1], &sys[j], &sys[i]); }
static void answers(void) { for (int i = 0; i < 4; i++) { user[i] = any(); sys[i] = any(); } }
#define MEASURE(N) void lemma_measure##N##_p6(void) { \
    struct time_result r; struct timeval e[2]; int d; \
    answers(); between(e, 0, 1); \
    void *p = zt_time(N, &r, work, &d); \
    zv_check(runs == N && (N == 0 || seen == &d), "the function is called as often as asked, with the data"); \
    zv_check(p == (N ? (void *)&cell[N - 1] : NULL), "the last result is returned"); \
    zv_check(SAME(r.usr_time, e[0]), "user time is the time spent between before and after"); \
    zv_check(SAME(r.sys_time, e[1]), "system time is the time spent between before and after"); }
MEASURE(0) MEASURE(1) MEASURE(3)
void lemma_calibrate_p6(void) {
    struct time_result r; struct timeval c[2], e[2]; int d;
    answers(); between(c, 0, 1); between(e, 2, 3);
    zt_time_calibrate();
    zt_time(1, &r, work, &d);
    zt_sub_time(&e[0], &e[0], &c[0]); zt_sub_time(&e[1], &e[1], &c[1]);
    zv_check(SAME(r.usr_time, e[0]) && SAME(r.sys_time, e[1]), "the calibrated overhead is taken off");
}
void lemma_recalibrate_p6(void) {
    struct time_result r; struct timeval c[2]; 
    answers(); between(c, 2, 3);
    zt_time_calibrate();
    zt_time_calibrate();
    asked = 0; user[0] = user[1]; sys[0] = sys[1];
    zt_time(0, &r, NULL, NULL);
    struct timeval z = { 0, 0 }, e;
    zt_sub_time(&e, &z, &c[0]); zv_check(SAME(r.usr_time, e), "calibrating again replaces the overhead (user)");
    zt_sub_time(&e, &z, &c[1]); zv_check(SAME(r.sys_time, e), "calibrating again replaces the overhead (system)");
}
/* a pause */
static long paused, pauses; static int watched;
int select(int n, fd_set *restrict r, fd_set *restrict w, fd_set *restrict x, struct timeval *restrict t) {
    pauses++; watched |= n || r || w || x;
    if (t) paused = t->tv_usec >= 0 && t->tv_usec < 1000000 ? t->tv_sec * 1000000 + t->tv_usec : -1;
    return 0;
}
int nanosleep(const struct timespec *t, struct timespec *q) { pauses++; paused = t->tv_nsec >= 0 && t->tv_nsec < 1000000000 ? t->tv_sec * 1000000 + t->tv_nsec / 1000 : -1; return 0; }
int (usleep)(useconds_t n) { pauses++; paused = n; return 0; }
#define LASTS(E, N) pauses = 0; paused = -1; usleep(E); zv_check(pauses == 1 && paused == (N) && !watched, "a pause lasts the microseconds asked for, however they are written")
void lemma_pause_p4(void) {
    long usec = 1500000, delay = 20, n = 7;
    LASTS(0, 0); LASTS(999999, 999999); LASTS(1000000, 1000000);
    LASTS(usec, 1500000); LASTS(delay, 20);
    LASTS(500000 + 700000, 1200000); LASTS(usec - delay, 1499980); LASTS(n++, 7);
    zv_check(n == 8, "the time asked for is evaluated once");
}
