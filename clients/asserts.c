#undef NDEBUG
#include "lemma.h"
#include <stdarg.h>
#include <stdio.h>
/* what is logged, and how badly */
static char zv_text[600]; static int zv_len, level;
void zt_log_lprintf(zt_log_ty *l, zt_log_level at, const char *f, ...) { va_list a; (void)l; va_start(a, f); zv_len = vsnprintf(zv_text, sizeof zv_text, f, a); va_end(a); level = (int)at; }
void zt_log_lstrerror(zt_log_ty *l, zt_log_level at, int e, const char *f, ...) { (void)l; (void)e; (void)f; level = (int)at; }
static int has(const char *w) { for (int i = 0; i < zv_len; i++) { int k = 0; while (w[k] && zv_text[i + k] == w[k]) k++; if (!w[k]) return 1; } return 0; }
static int ended;
void abort(void) { zv_check(!ended, "the program ends once"); ended = 1; zv_check(has("Assertion Failed: \"x == y\": asserts.c["), "a failed assertion is told, with what failed and where, before the program ends"); zv_reach("a failed assertion ends the program"); _Exit(1); }
void lemma_told_p300_nf(void) {
    _zt_log_assertion("a < b", "/s/d/file.c", 12, "fn");
    zv_check(has("Assertion Failed: \"a < b\": file.c[12:fn]") && level == zt_log_err, "a failed assertion is told with its text, file, line and function");
    zv_len = 0;
    _zt_log_assertion(NULL, "file.c", 7, NULL);
    zv_check(has("Assertion Failed: \"no assertion given\": file.c[7]"), "a failed assertion without text or function is told");
}
void lemma_abort_p300_nf(void) {
    zv_check(_zt_log_abort("bad", "/s/file.c", 9, "fn") == 0 && has("Exiting: \"bad\": file.c[9:fn]") && level == zt_log_crit, "the reason of an end is told");
    zv_len = 0;
    zv_check(_zt_log_abort(NULL, "file.c", 9, NULL) == 0 && has("Exiting: \"no message given\": file.c[9]"), "an end without a reason is told");
}
static int kept(int c) { zt_assert_returnV(c, 5); return 6; }
static int passed; static void over(int c) { zt_assert_return(c); passed = 1; }
void lemma_returns_p300_nf(void) {
    zv_check(kept(1) == 6 && zv_len == 0, "an assertion that holds does nothing");
    zv_check(kept(0) == 5 && zv_len > 0, "a failed assertion that returns is told and returns its value");
    over(1); zv_check(passed == 1, "an assertion that holds does nothing to what follows");
    passed = 0; over(0); zv_check(passed == 0, "a failed assertion that returns skips the rest");
}
static void back(void) { zv_check(0, "nothing follows a failed assertion"); }
void lemma_ends_p300_nf(void) { int x = 1, y = 2; zt_assert(x == y); back(); zv_reach("a failed assertion ends the program"); }
void lemma_always_p300_nf(void) { int x = 1, y = 2; zt_assert_always(x == y); back(); zv_reach("a failed assertion ends the program"); }
void lemma_holds_p300_nf(void) { int x = 2, y = 2, z = 0; zt_assert(x == y); zt_assert_always(x == y); zt_assert_nf(x == z); zv_check(zv_len > 0 && !ended, "an assertion that is not fatal goes on"); }
