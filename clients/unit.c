#include "lemma.h"
#define ZT_WITH_UNIT
#include <libzt/zt_unit.h>
#include <stdarg.h>
/* what the runner prints is reduced to the texts it prints, in order */
static const char *said[64]; static int saids; static long told[64]; static int tolds;
int printf(const char *restrict f, ...) {
    va_list a; va_start(a, f);
    for (int i = 0; f[i]; i++) if (f[i] == '%') {
        i++;
        if (f[i] == '*') { (void)va_arg(a, int); i++; }
        if (f[i] == 's') { const char *t = va_arg(a, const char *); if (saids < 64) said[saids++] = t; }
        else if (f[i] == 'd') { int n = va_arg(a, int); if (tolds < 64) told[tolds++] = n; }
        else if (f[i] == 'l') { long n = va_arg(a, long); if (tolds < 64) told[tolds++] = n; i++; }
    }
    va_end(a);
    return 4;
}
int puts(const char *f) { (void)f; return 4; }
int putchar(int f) { return f; }
static int position(const char *t, int from) { for (int i = from; i < saids; i++) if (said[i] && !strcmp(said[i], t)) return i; return -1; }
static int before(const char *a, const char *b) { int p = position(a, 0); return p >= 0 && position(b, p) > p; }
/* each call made by the runner is remembered: 1..4 tests, 10 and 20 before and after, by suite */
static int seq[32], calls, fail[5], checks[5], wrong_data;
static void call(int v) { if (calls < 32) seq[calls] = v; calls++; }
static void up(void *d) { call(10 + *(int *)d); }
static void down(void *d) { call(20 + *(int *)d); }
static int now; static void *given;
static void body(int n, struct zt_unit_test *t, void *d) { call(n); now = n; given = d; for (int i = 0; i < checks[n]; i++) zt_unit_test_add_assertion(t); }
static void t1(struct zt_unit_test *t, void *d) { body(1, t, d); }
static void t2(struct zt_unit_test *t, void *d) { body(2, t, d); }
static void t3(struct zt_unit_test *t, void *d) { body(3, t, d); }
static void t4(struct zt_unit_test *t, void *d) { body(4, t, d); }
static int try_it(struct zt_unit_suite *s, struct zt_unit_test *t) {
    t->test_fn(t, s->data);
    if (given != s->data) wrong_data = 1;
    if (fail[now] == 2) zt_unit_test_add_exception(t);
    return !fail[now];
}
static struct zt_unit *u;
static int da = 1, db = 2;
/* suite "al" holds t1 t2, "bet" holds t3 "tw" and t4, without fixtures when `bare` */
static void set(int bare) {
    struct zt_unit_suite *a, *b;
    u = zt_unit_init();
    a = zt_unit_register_suite_(u, "al", bare ? NULL : up, bare ? NULL : down, &da, try_it);
    b = zt_unit_register_suite_(u, "bet", bare ? NULL : up, bare ? NULL : down, &db, try_it);
    zt_unit_register_test(a, "on", t1); zt_unit_register_test(a, "tw", t2);
    zt_unit_register_test(b, "tw", t3); zt_unit_register_test(b, "three", t4);
    calls = saids = tolds = wrong_data = 0;
}
static int ran(const int *w, int n) { int ok = calls == n; for (int i = 0; i < n && i < calls; i++) ok &= seq[i] == w[i]; return ok; }
#define OUTCOME(N) void lemma_outcome##N##_p40_nf(void) { \
    static const int all[] = {11, 1, 21, 11, 2, 21, 12, 3, 22, 12, 4, 22}; \
    char *argv[] = {"prog", NULL}; int bad = 0, sum = 0, none = 0, r; \
    for (int i = 1; i < 5; i++) { fail[i] = (N) >> (i - 1) & 1 ? i : 0; checks[i] = i % 3; bad += fail[i] != 0; sum += checks[i]; } \
    set(0); \
    r = zt_unit_main(u, 1, argv); \
    zv_check(ran(all, 12), "each test runs once, in the order of registration, between its suite's setup and teardown"); \
    zv_check(!wrong_data, "each test gets its suite's data"); \
    zv_check(r == (bad ? -1 : 0), "the run succeeds exactly when every test does"); \
    zv_check((int)u->failures == bad && (int)u->successes == 4 - bad, "failures and successes are counted"); \
    zv_check(u->tests == 4 && u->suite_count == 2, "tests and suites are counted"); \
    zv_check((int)u->assertions == sum && (int)u->exceptions == (fail[2] == 2), "assertions and exceptions are added up"); \
    for (int i = 1; i < 5; i++) none += checks[i] == 0 && fail[i] != 2; \
    zv_check((int)u->empty == none, "a test that asserts nothing is counted as empty"); }
OUTCOME(0) OUTCOME(1) OUTCOME(2) OUTCOME(4) OUTCOME(8) OUTCOME(5) OUTCOME(10) OUTCOME(15)
void lemma_bare_p40_nf(void) {
    static const int all[] = {1, 2, 3, 4};
    set(1);
    zv_check(zt_unit_run(u) == 0 && ran(all, 4), "a suite without setup and teardown runs");
    zv_check(u->empty == 4, "a test that asserts nothing is counted as empty");
}
void lemma_nothing_p40_nf(void) {
    char *argv[] = {"prog", NULL};
    u = zt_unit_init();
    zv_check(zt_unit_main(u, 1, argv) == 0 && u->tests == 0, "nothing registered is a success");
}
static int named(char *n) { char *argv[] = {"prog", n, NULL}; set(0); return zt_unit_main(u, 2, argv); }
void lemma_byname_p40_nf(void) {
    static const int al[] = {11, 1, 21, 11, 2, 21}, bet[] = {12, 3, 22, 12, 4, 22}, tw1[] = {11, 2, 21}, tw2[] = {12, 3, 22}, four[] = {12, 4, 22};
    zv_check(named("al") == 0 && ran(al, 6), "a suite named runs its tests and no others");
    zv_check(named("bet") == 0 && ran(bet, 6), "the second suite named runs its tests and no others");
    zv_check(named("al.tw") == 0 && ran(tw1, 3), "a test named runs alone between setup and teardown");
    zv_check(named("bet.tw") == 0 && ran(tw2, 3), "a test is looked for in the suite named");
    zv_check(named("bet.three") == 0 && ran(four, 3), "the last test of a suite is found");
    zv_check(u->successes == 1 && u->failures == 0, "a test run by name is counted");
}
void lemma_unknown_p40_nf(void) {
    int ok = 0;
    ok += named("a") == -1 && calls == 0; ok += named("alx") == -1 && calls == 0; ok += named("al.t") == -1 && calls == 0; ok += named("al.three") == -1 && calls == 0;
    ok += named("al.tw.x") == -1 && calls == 0; ok += named("") == -1 && calls == 0; ok += named(".") == -1 && calls == 0; ok += named("al.") == -1 && calls == 0; ok += named(".al") == -1 && calls == 0;
    ok += named("tw") == -1 && calls == 0; ok += named("be.three") == -1 && calls == 0;
    zv_check(ok == 11, "a name that is not registered runs nothing and fails");
}
void lemma_several_p40_nf(void) {
    static const int w[] = {12, 4, 22, 11, 1, 21};
    char *argv[] = {"prog", "bet.three", "al.on", NULL}, *half[] = {"prog", "al.on", "no", "bet.tw", NULL};
    set(0);
    zv_check(zt_unit_main(u, 3, argv) == 0 && ran(w, 6), "the names given run in their order");
    set(0);
    zv_check(zt_unit_main(u, 4, half) == -1 && calls == 6, "an unknown name fails the run and the others still run");
    fail[3] = 1;
    set(0);
    half[2] = "al.tw";
    zv_check(zt_unit_main(u, 4, half) == -1 && calls == 9 && u->failures == 1, "a failed test fails the run by name");
    zv_check(named("bet") == -1 && named("al") == 0, "a suite fails exactly with its tests");
}
void lemma_options_p40_nf(void) {
    char *l[] = {"prog", "-l", NULL}, *ll[] = {"prog", "al", "--list", NULL}, *h[] = {"prog", "-h", NULL}, *hh[] = {"prog", "--help", NULL};
    set(0);
    zv_check(zt_unit_main(u, 2, l) == 0 && calls == 0, "listing runs nothing");
    zv_check(before("al", "on") && before("on", "tw") && before("tw", "bet") && before("bet", "three"), "the suites and tests are listed in order");
    saids = 0;
    zv_check(zt_unit_main(u, 3, ll) == 0 && calls == 0 && before("al", "bet"), "listing wins over names");
    zv_check(zt_unit_main(u, 2, h) == 0 && zt_unit_main(u, 2, hh) == 0 && calls == 0, "help runs nothing");
}
static char slip[] = "went wrong";
static int try_slip(struct zt_unit_suite *s, struct zt_unit_test *t) { t->test_fn(t, s->data); if (fail[now]) { t->error = zt_strdup(slip); return 0; } return 1; }
void lemma_report_p40_nf(void) {
    struct zt_unit_suite *s;
    u = zt_unit_init();
    s = zt_unit_register_suite_(u, "al", NULL, NULL, &da, try_slip);
    zt_unit_register_test(s, "on", t1); zt_unit_register_test(s, "tw", t2);
    fail[2] = 1; saids = 0;
    zt_unit_run(u);
    zv_check(position("Errors", 0) > 0 && position("tw", position("Errors", 0)) > 0 && position(slip, position("Errors", 0)) > 0, "a failed test is named with its error");
    zv_check(position("failure", 0) > position("success", 0) && position("success", 0) > 0, "each test's result is told");
    zt_unit_release(&u);
    zv_check(u == NULL, "a released runner is forgotten");
}
/* a test that jumps out */
static int jumped;
int _setjmp(struct __jmp_buf_tag env[1]) { (void)env; return jumped; }
void lemma_jump_p40_nf(void) {
    struct zt_unit_suite *s;
    u = zt_unit_init();
    s = zt_unit_register_suite(u, "al", up, down, &da);
    zt_unit_register_test(s, "on", t1);
    calls = 0;
    zv_check(zt_unit_run(u) == 0 && calls == 3 && u->failures == 0 && u->successes == 1, "a test that returns is a success");
    jumped = 1;
    u->failures = u->successes = 0; calls = 0;
    zv_check(zt_unit_run(u) == 0 && u->failures == 1 && u->successes == 0, "a test that jumps out is a failure");
    zv_check(calls == 2 && seq[0] == 11 && seq[1] == 21, "teardown runs after a test that jumped out");
}
/* the name of what is registered is the runner's own */
void lemma_owns_p40_nf(void) {
    char a[3] = "al", b[3] = "on"; struct zt_unit_suite *s; char q[6] = "al.on";
    u = zt_unit_init();
    s = zt_unit_register_suite_(u, a, NULL, NULL, &da, try_it);
    zt_unit_register_test(s, b, t1);
    a[0] = b[0] = 'x'; calls = 0;
    zv_check(zt_unit_run_by_name(u, q) == 0 && calls == 1, "the runner keeps the names as they were registered");
    zv_check(!strcmp(q, "al.on"), "the name asked for is not changed");
    zt_unit_release_suite(&s);
    zv_check(s == NULL && zt_unit_run_by_name(u, q) == -1, "a released suite is no longer found");
}
/* what is run again is counted again, by itself */
void lemma_again_p40_nf(void) {
    char *argv[] = {"prog", "al.tw", "al", "al", NULL};
    for (int i = 1; i < 5; i++) { fail[i] = 0; checks[i] = i; }
    set(0);
    zv_check(zt_unit_main(u, 4, argv) == 0 && calls == 15, "the names given run in their order");
    zv_check(u->assertions == 6 && u->tests == 4, "the assertions of each run are counted once");
    fail[2] = 2; set(0);
    zv_check(zt_unit_main(u, 4, argv) == -1 && u->exceptions == 2 && u->failures == 3, "the exceptions of each run are counted once");
}
void lemma_recover_p40_nf(void) {
    char *argv[] = {"prog", "al", "al", NULL}; struct zt_unit_suite *s;
    fail[1] = 0; checks[1] = 0; fail[2] = checks[2] = 1;
    u = zt_unit_init();
    s = zt_unit_register_suite_(u, "al", NULL, NULL, &da, try_slip);
    zt_unit_register_test(s, "on", t1); zt_unit_register_test(s, "tw", t2);
    zv_check(zt_unit_main(u, 3, argv) == -1 && u->failures == 2, "a test that fails twice fails twice");
    zt_unit_release(&u);
    zv_check(u == NULL, "a released runner is forgotten");
}
/* an assertion judges the values it is given, whatever the expressions look like */
static void t_expr(struct zt_unit_test *t, void *d) {
    int bits = 6, low = 1, n = 0;
    given = d; now = 1;
    ZT_UNIT_ASSERT_EQUAL(t, bits & 2, 2);
    ZT_UNIT_ASSERT_EQUAL(t, 2, bits & 2);
    ZT_UNIT_ASSERT_NOT_EQUAL(t, bits & 2, low);
    ZT_UNIT_ASSERT_NOT_EQUAL(t, low, bits ^ 2);
    ZT_UNIT_ASSERT_EQUAL(t, low ? 3 : 4, 3);
    ZT_UNIT_ASSERT(t, n++ == 0);
    ZT_UNIT_ASSERT_EQUAL(t, n++, 1);
    ZT_UNIT_ASSERT_EQUAL(t, n, 2);
}
void lemma_expression_p40_nf(void) {
    char *argv[] = {"prog", NULL}; struct zt_unit_suite *s;
    fail[1] = 0;
    u = zt_unit_init();
    s = zt_unit_register_suite_(u, "al", NULL, NULL, &da, try_it);
    zt_unit_register_test(s, "on", t_expr);
    zv_check(zt_unit_main(u, 1, argv) == 0 && u->assertions == 8, "an assertion judges the values it is given, each evaluated once");
}
