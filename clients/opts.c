#include "lemma.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <zt.h>
#include <libzt/zt_opts.h>
extern char zv_out[]; extern int zv_out_len; extern FILE *zv_out_file;
static int eq(const char *a, const char *b) { return strcmp(a, b) == 0; }
char *strerror(int e) { return e == EINVAL ? "bad" : "other"; }
static int leaving = -99;
void exit(int c) { zv_check(c == leaving, "leaves with the error's code"); zv_reach("leaves"); __builtin_unreachable(); }
/* a handler that counts complaints */
static int bad, code;
static int complain(int c, char *f, ...) { bad++; code = c; return c; }
/* what handlers of options were called with */
static int calls, argn[8], which[8], takes, fails;
static int see(int a, int d, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error e) {
    if (calls < 8) { argn[calls] = a; which[calls] = d; }
    calls++;
    return fails ? fails : d == 2 ? takes : 0;
}
/* 0: -a --alpha   1: -b   2: --gamma (takes "takes" words)   3: -d --delta   4: -7 --al */
static zt_opt_def_t D[] = { { 'a', "alpha", NULL, see, NULL, "h" }, { 'b', ZT_OPT_NLO, NULL, see, NULL, "h" }, { ZT_OPT_NSO, "gamma", NULL, see, NULL, "h" },
    { 'd', "delta", NULL, see, NULL, "h" }, { '7', "al", NULL, see, NULL, "h" }, { ZT_OPT_END() } };
#define RUN(N, ...) char *v[] = { "prog", __VA_ARGS__, NULL }; int n = N; calls = bad = 0; int r = zt_opt_process_args(&n, v, D, NULL, complain)
#define GO(N, END, CALLS, ...) do { RUN(N, __VA_ARGS__); zv_check(r == 0 && n == (END), "processing ends at the first word that is no option"); zv_check(calls == (CALLS), "each option given is handled once"); } while (0)
#define SAW(I, A, W) zv_check(argn[I] == (A) && which[I] == (W), "an option is handled by its definition, with its place")
void lemma_walk_p60_nf(void) {
    fails = 0; takes = 0;
    { char *v[] = { "prog", NULL }; int n = 1; zv_check(zt_opt_process_args(&n, v, D, NULL, complain) == 0 && n == 1 && calls == 0 && bad == 0, "no words, no options"); }
    GO(2, 1, 0, "word"); GO(2, 2, 1, "-a"); SAW(0, 1, 0); GO(2, 2, 1, "-b"); SAW(0, 1, 1); GO(2, 2, 1, "-7"); SAW(0, 1, 4);
    GO(2, 2, 1, "--alpha"); SAW(0, 1, 0); GO(2, 2, 1, "--al"); SAW(0, 1, 4); GO(2, 2, 1, "--gamma"); SAW(0, 1, 2); GO(2, 2, 1, "--delta=7"); SAW(0, 1, 3); GO(2, 2, 1, "--al=pha"); SAW(0, 1, 4);
    GO(5, 4, 3, "-a", "--delta", "-b", "-a"+1); SAW(0, 1, 0); SAW(1, 2, 3); SAW(2, 3, 1);
    GO(4, 2, 1, "-a", "word", "-b"); SAW(0, 1, 0);
    GO(3, 3, 4, "-ab", "-bd"); SAW(0, 1, 0); SAW(1, 1, 1); SAW(2, 2, 1); SAW(3, 2, 3);
    GO(2, 2, 3, "-7aa"); SAW(0, 1, 4); SAW(1, 1, 0); SAW(2, 1, 0);
    zv_check(bad == 0, "known options raise no complaint");
}
void lemma_takes_p60_nf(void) {
    fails = 0;
    for (takes = 0; takes < 3; takes++) {
        { RUN(6, "-b", "--gamma", "one", "two", "-a"); zv_check(r == 0 && bad == 0, "known options raise no complaint");
          zv_check(n == (takes == 2 ? 6 : takes == 1 ? 4 : 3) && calls == (takes == 2 ? 3 : 2), "the words an option takes are passed over"); }
        { RUN(5, "--gamma=one", "-b", "two", "-a"); zv_check(r == 0 && n == 3 && calls == 2, "a value within the option leaves the words after it"); }
    }
}
void lemma_unknown_p60_nf(void) {
    fails = takes = 0;
#define UNK(W) do { RUN(3, W, "-a"); zv_check(bad == 1 && code == EINVAL, "an unknown option is complained of once"); zv_check(r == 0 && n == 3 && calls == 1 && argn[0] == 2, "after a complaint the rest is processed"); } while (0)
    UNK("-c"); UNK("--alph"); UNK("--alphab"); UNK("--b"); UNK("--a"); UNK("-g"); UNK("--beta=alpha"); UNK("--=alpha"); UNK("--alph=a"); UNK("-c=alpha"); UNK("-A"); UNK("--Alpha"); UNK("-");
}
void lemma_fails_p60_nf(void) {
    takes = 0; fails = zv_int(); zv_assume(fails < 0);
    RUN(4, "-b", "-a", "-d"); zv_check(r == fails && calls == 1 && argn[0] == 1, "a handler's failure ends the processing, with its result");
}
/* values */
#define VAL(LOPT, W, NEXT, WANT, USED) do { \
    zt_opt_def_t d[] = { { 's', LOPT, NULL, zt_opt_null, NULL, "h" }, { ZT_OPT_END() } }; char *v[] = { "prog", W, NEXT, NULL }; int u = 99; bad = 0; \
    char *s = zt_opt_get_value(1, 0, v, d, &u, complain); \
    zv_check(s != NULL && eq(s, WANT), "the value of an option"); zv_check(u == (USED), "whether the next word was the value"); zv_check(bad == 0, "a value there raises no complaint"); } while (0)
#define NOVAL(LOPT, W) do { \
    zt_opt_def_t d[] = { { 's', LOPT, NULL, zt_opt_null, NULL, "h" }, { ZT_OPT_END() } }; char *v[] = { "prog", W, NULL, NULL }; int u = 99; bad = 0; \
    char *s = zt_opt_get_value(1, 0, v, d, &u, complain); \
    zv_check(s == NULL && u == 0 && bad == 1 && code == EINVAL, "an option without its value is complained of"); } while (0)
void lemma_value_p60_nf(void) {
    VAL("str", "-s", "val", "val", 1); VAL("str", "-sval", "x", "val", 0); VAL("str", "-s=val", "x", "val", 0); VAL("str", "--str", "val", "val", 1); VAL("str", "--str=val", "x", "val", 0);
    VAL(ZT_OPT_NLO, "-s", "val", "val", 1); VAL(ZT_OPT_NLO, "-sval", "x", "val", 0); VAL(ZT_OPT_NLO, "-s=", "x", "", 0); VAL("str", "--str=", "x", "", 0); VAL("str", "--str=a=b", "x", "a=b", 0); VAL("str", "--str", "-x", "-x", 1);
    VAL("str", "-s", "", "", 1); VAL("s", "--s", "val", "val", 1);
    NOVAL("str", "-s"); NOVAL("str", "--str"); NOVAL(ZT_OPT_NLO, "-s");
}
/* the letter whose value is asked for comes behind others in its word */
void lemma_behind_p60_nf(void) {
    VAL("str", "-vs", "val", "val", 1); VAL("str", "-vws", "val", "val", 1); VAL("str", "-vsval", "x", "val", 0); VAL(ZT_OPT_NLO, "-vs", "val", "val", 1); VAL(ZT_OPT_NLO, "-vs=val", "x", "val", 0);
    VAL("str", "-ss", "x", "s", 0); VAL("str", "-vsvs", "x", "vs", 0); NOVAL("str", "-vs"); NOVAL(ZT_OPT_NLO, "-vws");
}
void lemma_cluster_p60_nf(void) {
    long l = 5; int f = 0; char *s = NULL;
    zt_opt_def_t d[] = { { 'f', "flag", NULL, zt_opt_flag_int, &f, "h" }, { 'l', "long", "n", zt_opt_long, &l, "h" }, { 's', ZT_OPT_NLO, NULL, zt_opt_string, &s, "h" }, { ZT_OPT_END() } };
    char *v[] = { "prog", "-ffl", "77", "-fs", "val", "rest", NULL }; int n = 6;
    bad = 0; int r = zt_opt_process_args(&n, v, d, NULL, complain);
    zv_check(r == 0 && bad == 0 && n == 5, "processing ends at the first word that is no option");
    zv_check(l == 77 && f == 3 && s && eq(s, "val"), "the last letter of a cluster takes the next word");
}
/* a value that follows its letter is no cluster of letters */
void lemma_attached_p60_nf(void) {
    int f = 0; char *s = NULL;
    zt_opt_def_t d[] = { { 'f', "flag", NULL, zt_opt_flag_int, &f, "h" }, { 's', "str", NULL, zt_opt_string, &s, "h" }, { ZT_OPT_END() } };
    char *v[] = { "prog", "-sfoo", "rest", NULL }; int n = 3;
    bad = 0; int r = zt_opt_process_args(&n, v, d, NULL, complain);
    zv_check(r == 0 && bad == 0 && n == 2 && s && eq(s, "foo"), "a value that follows its letter is stored");
    zv_check(f == 0, "a value that follows its letter is not read as letters");
}
#define WITH(CB, DATA, W, NEXT) zt_opt_def_t d[] = { { 's', "str", NULL, CB, DATA, "h" }, { ZT_OPT_END() } }; char *v[] = { "prog", W, NEXT, NULL }; int n = NEXT ? 3 : 2; bad = 0; int r = CB(1, 0, &n, v, d, complain)
#define NUM(T, CB, W, NEXT, WANT, USED) do { T x = 99; WITH(CB, &x, W, NEXT); zv_check(x == (WANT), "the number given is stored"); zv_check(r == (USED) && bad == 0, "a number given raises no complaint"); \
    { WITH(CB, NULL, W, NEXT); zv_check(r == (USED) && bad == 0, "a number given raises no complaint"); } } while (0)
#define NONUM(T, CB, W, NEXT) do { T x = 99; WITH(CB, &x, W, NEXT); zv_check(bad > 0 && r >= 0, "what is not a number is complained of"); } while (0)
#define NUMS(NAME, T, CB) void lemma_##NAME##_p60_nf(void) { \
    NUM(T, CB, "-s", "0", 0, 1); NUM(T, CB, "-s12", NULL, 12, 0); NUM(T, CB, "-s=-12", NULL, -12, 0); NUM(T, CB, "--str", "0x1f", 31, 1); NUM(T, CB, "--str=010", NULL, 8, 0); NUM(T, CB, "--str", "2147483648", 2147483648L, 1); \
    NUM(T, CB, "--str", "-2147483649", -2147483649L, 1); NUM(T, CB, "--str=9223372036854775807", NULL, 9223372036854775807L, 0); NUM(T, CB, "--str=-9223372036854775808", NULL, -9223372036854775807L - 1, 0); \
    NONUM(T, CB, "-s", "x"); NONUM(T, CB, "-s", "12x"); NONUM(T, CB, "--str=1 2", NULL); NONUM(T, CB, "--str=9223372036854775808", NULL); NONUM(T, CB, "--str=-9223372036854775809", NULL); \
    { T x = 99; WITH(CB, &x, "-s", NULL); zv_check(r == 0 && bad == 1 && x == 99, "without a value nothing is stored"); } }
NUMS(long, long, zt_opt_long) NUMS(intmax, intmax_t, zt_opt_intmax)
void lemma_int_p60_nf(void) {
    NUM(int, zt_opt_int, "-s", "0", 0, 1); NUM(int, zt_opt_int, "-s12", NULL, 12, 0); NUM(int, zt_opt_int, "-s=-12", NULL, -12, 0); NUM(int, zt_opt_int, "--str", "0x1f", 31, 1);
    NUM(int, zt_opt_int, "--str=2147483647", NULL, 2147483647, 0); NUM(int, zt_opt_int, "--str", "-2147483648", -2147483647 - 1, 1);
    NONUM(int, zt_opt_int, "-s", "x"); NONUM(int, zt_opt_int, "--str", "2147483648"); NONUM(int, zt_opt_int, "--str=-2147483649", NULL); NONUM(int, zt_opt_int, "--str=9223372036854775808", NULL);
    { int x = 99; WITH(zt_opt_int, &x, "-s", NULL); zv_check(r == 0 && bad == 1 && x == 99, "without a value nothing is stored"); } }
#define BOOL(W, WANT) do { int x = 99; { WITH(zt_opt_bool_int, &x, "-s", W); zv_check(r == 1 && bad == 0 && x == (WANT), "a truth value is stored"); } \
    { WITH(zt_opt_bool_int, NULL, "--str", W); zv_check(r == 1 && bad == 0, "a truth value is stored"); } } while (0)
#define NOBOOL(W) do { int x = 99; WITH(zt_opt_bool_int, &x, "-s", W); zv_check(r == 0 && bad == 1 && code == EINVAL && x == 99, "what is not a truth value is complained of, and not stored"); } while (0)
void lemma_bool_p60_nf(void) {
    BOOL("t", 1); BOOL("T", 1); BOOL("y", 1); BOOL("Y", 1); BOOL("f", 0); BOOL("F", 0); BOOL("n", 0); BOOL("N", 0); BOOL("true", 1); BOOL("TRUE", 1); BOOL("Yes", 1); BOOL("yes", 1); BOOL("false", 0); BOOL("False", 0); BOOL("NO", 0); BOOL("no", 0);
    NOBOOL("x"); NOBOOL("1"); NOBOOL(""); NOBOOL("tr"); NOBOOL("truex"); NOBOOL("yess"); NOBOOL("of"); NOBOOL(NULL);
    { int x = 99; WITH(zt_opt_bool_int, &x, "--str=no", "y"); zv_check(r == 0 && bad == 0 && x == 0, "a truth value is stored"); }
}
void lemma_flag_p60_nf(void) {
    int x = zv_int(), y = x; zv_assume(x < 1000);
    { WITH(zt_opt_flag_int, &x, "-s", "a"); zv_check(r == 0 && bad == 0 && x == y + 1, "each use of a flag counts"); }
    { WITH(zt_opt_flag_int, NULL, "-s", "a"); zv_check(r == 0 && bad == 0, "each use of a flag counts"); }
    { WITH(zt_opt_null, &x, "-s", "a"); zv_check(r == 0 && bad == 0 && x == y + 1, "an option may do nothing"); }
}
void lemma_string_p60_nf(void) {
    char *x = NULL;
    { WITH(zt_opt_string, &x, "-s", "val"); zv_check(r == 1 && bad == 0 && x && eq(x, "val") && x != v[2], "a copy of the value is stored"); free(x); }
    { WITH(zt_opt_string, &x, "--str=val", "z"); zv_check(r == 0 && bad == 0 && x && eq(x, "val"), "a copy of the value is stored"); free(x); }
    x = NULL;
    { WITH(zt_opt_string, &x, "--str", NULL); zv_check(r == 0 && bad == 1 && x == NULL, "without a value nothing is stored"); }
}
void lemma_array_p60_nf(void) {
    char **x = NULL;
    { WITH(zt_opt_string_array, &x, "-s", NULL); zv_check(r == 0 && bad == 1 && x == NULL, "without a value nothing is stored"); }
    static char *W[4] = { "one", "two", "", "four" };
    for (int k = 0; k < 4; k++) {
        WITH(zt_opt_string_array, &x, "-s", W[k]);
        zv_check(r == 1 && bad == 0 && x != NULL, "a value is added");
        int ok = 1; for (int i = 0; i <= k; i++) ok &= x[i] != NULL && x[i] != W[i] && eq(x[i], W[i]);
        zv_check(ok && x[k + 1] == NULL, "values are kept in order, with an end");
    }
}
/* through the whole */
void lemma_whole_p60_nf(void) {
    long l = 5; int f = 0, b = 9; char *s = NULL, **a = NULL;
    zt_opt_def_t d[] = { { 'l', "long", "n", zt_opt_long, &l, "h" }, { 'f', "flag", NULL, zt_opt_flag_int, &f, "h" }, { 'b', "bool", NULL, zt_opt_bool_int, &b, "h" }, { 's', "str", NULL, zt_opt_string, &s, "h" },
        { 'x', "xs", NULL, zt_opt_string_array, &a, "h" }, { ZT_OPT_END() } };
    char *v[] = { "prog", "-ff", "-l", "77", "--bool=yes", "-f", "--str", "--flag", "-x", "p", "--xs=q", "--flag", "rest", "-f", NULL }; int n = 14;
    bad = 0; int r = zt_opt_process_args(&n, v, d, NULL, complain);
    zv_check(r == 0 && bad == 0 && n == 12, "processing ends at the first word that is no option");
    zv_check(l == 77 && f == 4 && b == 1 && s && eq(s, "--flag") && a && eq(a[0], "p") && eq(a[1], "q") && a[2] == NULL, "every option is stored in its place");
}
/* definitions */
#define DEF(N, ...) do { zt_opt_def_t d[] = { __VA_ARGS__, { ZT_OPT_END() } }; bad = 0; zt_opt_validate_default(d, complain); \
    if (N) zv_check(bad > 0 && code == EINVAL, "a definition at fault is complained of"); else zv_check(bad == 0, "a sound definition raises no complaint"); } while (0)
#define O(S, L, H) { S, L, NULL, zt_opt_null, NULL, H }
void lemma_define1_p60_nf(void) { DEF(0, O('a', "alpha", "h")); DEF(0, O('a', "alpha", "h"), O('b', "beta", "h"), O('A', "Alpha", "h")); DEF(1, O(ZT_OPT_NSO, ZT_OPT_NLO, "h")); DEF(1, O('a', "alpha", NULL)); }
void lemma_define2_p60_nf(void) { DEF(0, O(ZT_OPT_NSO, "a", "h"), O(ZT_OPT_NSO, "b", "h"), O('a', ZT_OPT_NLO, "h"), O('b', ZT_OPT_NLO, "")); DEF(1, O('a', "alpha", "h"), O('a', "beta", "h")); }
void lemma_define3_p60_nf(void) { DEF(1, O('a', "alpha", "h"), O('b', "beta", "h"), O('c', "alpha", "h")); DEF(1, O('b', "beta", "h"), O(ZT_OPT_NSO, "x", "h"), O('b', ZT_OPT_NLO, "h")); }
void lemma_letter_p60_nf(void) {
    char c = (char)zv_int();
    zt_opt_def_t d[] = { O(c, "alpha", "h"), { ZT_OPT_END() } }; bad = 0; zt_opt_validate_default(d, complain);
    if ((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == ZT_OPT_NSO) zv_check(bad == 0, "a letter or a digit, or none, is a short option");
    else zv_check(bad == 1, "nothing but a letter or a digit is a short option");
}
static int validated; static zt_opt_def_t *what; static zt_opt_error how;
static void validate(zt_opt_def_t *a, zt_opt_error e) { validated++; what = a; how = e; }
void lemma_check_p60_nf(void) {
    char *v[] = { "prog", "-a", NULL }; int n = 2; fails = takes = 0;
    zt_opt_process_args(&n, v, D, validate, complain); zv_check(validated == 1 && what == D && how == complain, "definitions are checked first");
    zt_opt_def_t d[] = { O('+', "x", "h"), { ZT_OPT_END() } }; bad = 0; zt_opt_process_args(&n, v, d, NULL, complain); zv_check(bad > 0, "definitions are checked first");
    n = 2; leaving = EINVAL; zt_opt_process_args(&n, v, d, NULL, NULL);
}
void lemma_leave_p60_nf(void) {
    char *v[] = { "prog", "-a", "-q", "-a", NULL }; int n = 4; fails = takes = 0;
    leaving = EINVAL; zt_opt_process_args(&n, v, D, NULL, NULL);
}
/* messages */
void lemma_message_p200_nf(void) {
    char *s = zt_opt_error_str(EINVAL, "x %d %s", 5, "y");
    zv_check(s && eq(s, "error: { code: 22, string: \"bad: x 5 y\" }"), "a message has the code, its meaning and the text"); free(s);
    s = zt_opt_error_str(0, "x"); zv_check(s && eq(s, "error: { code: 0, string: \": x\" }"), "a message has the code, its meaning and the text"); free(s);
    zv_out_len = 0; zv_check(zt_opt_error_default(EINVAL, "x %d", 7) == EINVAL, "reporting gives the code back");
    zv_check(eq(zv_out, "error: { code: 22, string: \"bad: x 7\" }\n") && zv_out_file == stderr, "errors are reported on the error stream");
    zv_out_len = 0; zv_check(zt_opt_error_default(0, NULL) == -1 && zv_out_len == 0, "no code and no text is a silent end");
    s = zt_opt_error_str(EINVAL, NULL); zv_check(s && eq(s, "error: { code: 22, string: \"bad: \" }"), "a message may lack a text"); free(s);
}
/* help */
static int nblank(const char *s) { int n = 0; for (; *s; s++) n += *s != ' ' && *s != '\n' && *s != '\r'; return n; }
#define HELP(H, BODY) do { \
    zt_opt_def_t d[] = { { 'a', "alpha", "n", zt_opt_null, NULL, H }, { ZT_OPT_END() } }; const char *h = H; \
    zv_out_len = 0; zv_check(zt_opt_usage("prog", BODY, d) == 0, "options can be described"); \
    const char *p = strstr(zv_out, "Options:\n"); zv_check(p != NULL, "a description has its head"); p += 9; \
    zv_check(strncmp(p, "   -a, --alpha n", 16) == 0, "an option is described by its forms"); p += 16; \
    int col = 16, same = 1, wide = 0, first = -1; \
    for (; *p; p++) { \
        if (*p == '\n') { col = 0; continue; } \
        col++; if (col > 80 && *p != ' ') wide++; \
        if (*p == ' ') continue; \
        if (first < 0) first = col; \
        if (col < 31) same = 0; \
        while (*h == ' ') h++; \
        if (*h == *p) h++; else same = 0; \
    } \
    while (*h == ' ') h++; \
    zv_check(same && !*h, "the help text is given in full, in its column"); zv_check(p[-1] == '\n', "each description ends its line"); \
    zv_check(wide == 0, "no line is wider than 80 columns"); } while (0)
#define HELPS(K, H, BODY) void lemma_help##K##_p700_nf(void) { HELP(H, BODY); }
HELPS(1, "x", NULL) HELPS(2, "the first letter of the alphabet", "[options] file") HELPS(3, "12345678901234567890123456789012345678901234567890", "")
HELPS(4, "1234567890 234567890 234567890 234567890 234567890 23", "") HELPS(5, "123456789 1234567890 1234567890 1234567890 12345678 one two three   four 1234567890 1234567890 1234567890 1234567890", "")
HELPS(6, "see http://www.example.com/a/very/long/name/which/does/not/fit/a/line/at/all for more of this and that", "")
HELPS(7, "http://www.example.com/a/very/long/name/which/does/not/fit/a/line/at/all/and/then/some/which/makes/it/longer/than/two", "")
