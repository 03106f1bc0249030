#include "lemma.h"
#include <stdio.h>
#include <stdlib.h>
#include <strings.h>
#include <zt.h>
static int eq(const char *a, const char *b) { return strcmp(a, b) == 0; }
/* one file, by its text */
static const char *text; static int opened, closed, allow = 100000, made; static char pushed;
static const char *named;
FILE *fopen(const char *n, const char *mode) { named = n; if (text == NULL || mode[0] != 'r') return NULL; opened++; return (FILE *)&text; }
int fclose(FILE *f) { closed++; return 0; }
int fgetc(FILE *f) { return *text ? (unsigned char)*text++ : EOF; }
int getc(FILE *f) { return fgetc(f); }
int ungetc(int c, FILE *f) { if (c == EOF) return EOF; text--; return c; }
char *fgets(char *d, int n, FILE *f) {
    int i = 0;
    if (!*text) return NULL;
    while (i < n - 1 && *text) { d[i++] = *text; if (*text++ == '\n') break; }
    d[i] = 0;
    return d;
}
/* the C library's reading of a real number: here it stands for its digits */
double strtod(const char *s, char **end) {
    union { long l; double d; } u; int any = 0; const char *p = s; u.l = 0;
    if (*p == '-') p++;
    for (; *p >= '0' && *p <= '9'; p++) { u.l = u.l * 10 + (*p - '0'); any = 1; }
    if (*p == '.') for (p++; *p >= '0' && *p <= '9'; p++) { u.l = u.l * 10 + (*p - '0'); any = 1; }
    if (end) *end = (char *)(any ? p : s);
    return u.d;
}
/* memory, counted */
void *malloc(size_t n) { if (allow-- <= 0) return NULL; made++; return realloc(NULL, n); }
void *calloc(size_t n, size_t m) { char *p = realloc(NULL, n * m); made++; if (p) memset(p, 0, n * m); return p; }
void free(void *p) { if (p) made--; }
#define INI(T) text = T; zt_cfg_ty *c = zt_cfg_ini("name", 0)
#define INT(B, N, V) do { long v = 99; zv_check(zt_cfg_get(c, B, N, &v, zt_cfg_int) == zt_cfg_int && v == (V), "a number is read back"); } while (0)
#define BOOL(B, N, V) do { int v = 99; zv_check(zt_cfg_get(c, B, N, &v, zt_cfg_bool) == zt_cfg_bool && v == (V), "a truth value is read back"); } while (0)
#define STR(B, N, V) do { char *v = NULL; zv_check(zt_cfg_get(c, B, N, &v, zt_cfg_string) == zt_cfg_string && v && eq(v, V), "a text is read back"); } while (0)
#define REAL(B, N, V) do { union { long l; double d; } v; v.l = 99; zv_check(zt_cfg_get(c, B, N, &v.d, zt_cfg_float) == zt_cfg_float && v.l == (V), "a real number is read back"); } while (0)
#define NOT(B, N, T) do { long v[2] = { 99, 98 }; zv_check(zt_cfg_get(c, B, N, v, T) < 0 && v[0] == 99 && v[1] == 98, "what is not there, or of another kind, is not given"); } while (0)
#define HAVE zv_check(c != NULL, "a file is read")
#define DONE do { zt_cfg_close(c); zv_check(made == 0, "closing leaves nothing"); zv_check(opened == closed, "the file is closed"); } while (0)
void lemma_simple_p70_nf(void) {
    INI("a = 1\nb=0x10\n  c\t=\t-7  \nd = 010 ; eight\n[main]\na = yes\nb = TRUE\nc = no\nd=False # no\n[two]\na = word\nb = 'two words'\nc = \"two 'words'\"\nd=several words here");
    HAVE; zv_check(eq(named, "name"), "the file named is opened");
    INT("Global", "a", 1); INT("Global", "b", 16); INT("Global", "c", -7); INT("Global", "d", 8);
    BOOL("main", "a", 1); BOOL("main", "b", 1); BOOL("main", "c", 0); BOOL("main", "d", 0);
    STR("two", "a", "word"); STR("two", "b", "two words"); STR("two", "c", "two 'words'"); STR("two", "d", "several words here");
    DONE;
}
void lemma_kinds_p70_nf(void) {
    INI("[m]\ni = 5\nb = yes\ns = text\nf = 1.25\n"); HAVE; REAL("m", "f", 125);
    NOT("m", "i", zt_cfg_bool); NOT("m", "i", zt_cfg_string); NOT("m", "i", zt_cfg_float); NOT("m", "b", zt_cfg_int); NOT("m", "b", zt_cfg_string); NOT("m", "s", zt_cfg_int); NOT("m", "s", zt_cfg_bool); NOT("m", "f", zt_cfg_int); NOT("m", "f", zt_cfg_string);
    NOT("n", "i", zt_cfg_int); NOT("m", "j", zt_cfg_int); NOT("Global", "i", zt_cfg_int); NOT("M", "i", zt_cfg_int); NOT("m", "I", zt_cfg_int); NOT("m", "", zt_cfg_int); NOT("i", "m", zt_cfg_int);
    DONE;
}
void lemma_onlycomment_p70_nf(void) {
    INI("[m]\nx = ;none\ny = # 5\nz =;\n u = 3#4\nv = a;b;c\n"); HAVE;
    STR("m", "x", ""); STR("m", "y", ""); STR("m", "z", ""); INT("m", "u", 3); STR("m", "v", "a");
    DONE;
}
void lemma_layout_p70_nf(void) {
    INI("\n# x = 1\n; y = 2\n \t# z = 3\n[ab] rest\nx=4\n\n\n[cd]\n  x = 5;y\n x2=6\n[ab]\ny=7\n"); HAVE;
    NOT("Global", "x", zt_cfg_int); NOT("Global", "y", zt_cfg_int); INT("ab", "x", 4); INT("cd", "x", 5); INT("cd", "x2", 6); INT("ab", "y", 7); NOT("cd", "y", zt_cfg_int);
    DONE;
}
void lemma_again_p70_nf(void) {
    INI("[a]\nx = 1\nx = two\nx = three\ny = word\ny = 5\nz = no\n[a]\nz = 6"); HAVE;
    STR("a", "x", "three"); INT("a", "y", 5); INT("a", "z", 6); NOT("a", "x", zt_cfg_int);
    DONE;
}
void lemma_refs_p70_nf(void) {
    INI("[a]\nx = 1\ns = word\n[b]\nx = a.x\ns = a.s\nz = a.none\nw = none.x\n[c]\nx = b.x\ny = c.y\n"); HAVE;
    INT("b", "x", 1); INT("c", "x", 1); STR("b", "s", "word"); STR("b", "z", "a.none"); STR("b", "w", "none.x"); STR("c", "y", "c.y"); NOT("b", "x", zt_cfg_string);
    long n = 8; zv_check(zt_cfg_set(c, "a", "x", &n, zt_cfg_int) > 0, "a value is set"); INT("c", "x", 8); INT("b", "x", 8); INT("a", "x", 8);
    n = 9; zv_check(zt_cfg_set(c, "b", "x", &n, zt_cfg_int) > 0, "a value is set"); INT("c", "x", 9); INT("b", "x", 9); INT("a", "x", 8);
    DONE;
}
void lemma_loop_p70_nf(void) {
    INI("[a]\nx = 1\n[b]\ny = a.x\n[a]\nx = b.y\n"); HAVE;
    STR("a", "x", "b.y"); STR("b", "y", "b.y");
    DONE;
}
#define REFUSED(T) do { INI(T); zv_check(c == NULL, "what is no setting makes the file refused"); zv_check(made == 0, "a file refused leaves nothing"); zv_check(opened == closed, "the file is closed"); } while (0)
void lemma_refused_p70_nf(void) { REFUSED("x\n"); REFUSED("a = 1\nx 1\n"); REFUSED("[m]\nx =\n"); REFUSED("a = word\nx ="); REFUSED(NULL); }
void lemma_openblock_p70_nf(void) { REFUSED("[m"); REFUSED("a = 1\n[m\nx = 1\n"); REFUSED("[m\n[n]\nx = 1\n"); REFUSED("["); REFUSED("[\n"); }
void lemma_empty_p70_nf(void) { INI(""); HAVE; NOT("Global", "x", zt_cfg_int); DONE; }
void lemma_set_p70_nf(void) {
    INI("[a]\nx = 1\n"); HAVE;
    long n = -5; char *s = "words here", *t = "true", *u = "12", *w = "No"; int one = 1, zero = 0;
    zv_check(zt_cfg_set(c, "a", "x", &n, zt_cfg_int) > 0, "a value is set"); INT("a", "x", -5);
    zv_check(zt_cfg_set(c, "a", "y", &n, zt_cfg_int) > 0, "a value is set"); INT("a", "y", -5); INT("a", "x", -5);
    zv_check(zt_cfg_set(c, "b", "x", &s, zt_cfg_string) > 0, "a value is set"); STR("b", "x", "words here"); INT("a", "x", -5);
    zv_check(zt_cfg_set(c, "b", "x", &t, zt_cfg_string) > 0, "a value is set"); BOOL("b", "x", 1);
    zv_check(zt_cfg_set(c, "b", "x", &w, zt_cfg_string) > 0, "a value is set"); BOOL("b", "x", 0);
    zv_check(zt_cfg_set(c, "b", "x", &one, zt_cfg_bool) < 0 && zt_cfg_set(c, "b", "x", &zero, zt_cfg_bool) < 0, "a truth value is set by its name"); BOOL("b", "x", 0);
    zv_check(zt_cfg_set(c, "b", "x", &u, zt_cfg_string) > 0, "a value is set"); INT("b", "x", 12);
    n = 3; zv_check(zt_cfg_set(c, "a", "x", &n, zt_cfg_ref) < 0, "a kind that cannot be set is refused"); INT("a", "x", -5);
    DONE;
}
void lemma_none_p70_nf(void) {
    long n = 99; zt_cfg_close(NULL);
    zv_check(zt_cfg_get(NULL, "a", "b", &n, zt_cfg_int) == 0 && zt_cfg_set(NULL, "a", "b", &n, zt_cfg_int) == 0 && n == 99, "without a configuration nothing is given or set");
}

/* values and names of any shape, in the last line or before another */
#define ONE(T, N, V) do { { INI(T "\n"); HAVE; STR("Global", N, V); DONE; } { INI(T); HAVE; STR("Global", N, V); DONE; } { INI(T "\nlast = 1"); HAVE; STR("Global", N, V); INT("Global", "last", 1); DONE; } } while (0)
void lemma_shape_p70_nf(void) { ONE("x=y", "x", "y"); ONE("x = yz", "x", "yz"); ONE("x=\t a b ", "x", "a b"); ONE("long_Name9 = v", "long_Name9", "v"); ONE("x = a = b", "x", "a = b"); ONE("x=a;b", "x", "a"); ONE("x=a#b", "x", "a"); ONE("x=''", "x", ""); ONE("x='a'", "x", "a"); }
/* every allocation failing in turn */
#define FEW(K) void lemma_few##K##_p70_nf(void) { \
    allow = K; INI("[m]\nx = word\ny = m.x\n"); \
    int ok = 1; if (c != NULL) { char *v = NULL, *w = NULL; ok = zt_cfg_get(c, "m", "x", &v, zt_cfg_string) == zt_cfg_string && eq(v, "word") && zt_cfg_get(c, "m", "y", &w, zt_cfg_string) == zt_cfg_string && eq(w, "word"); zt_cfg_close(c); } \
    zv_check(ok, "a text is read back"); \
    zv_check(made == 0, "a file refused leaves nothing"); zv_check(opened == closed, "the file is closed"); }
FEW(0) FEW(1) FEW(2) FEW(3) FEW(4) FEW(5) FEW(6) FEW(7) FEW(8) FEW(9) FEW(10) FEW(11) FEW(12) FEW(13) FEW(14) FEW(15) 
