#include "lemma.h"
#include <stdio.h>
#include <stdlib.h>
#include <limits.h>
#include <zt.h>
extern char zv_out[]; extern int zv_out_len; extern FILE *zv_out_file; extern const char *(*zv_real)(double, int, int);
static int eq(const char *a, const char *b) { return strcmp(a, b) == 0; }
/* the same as the C library's own formatting */
#define SAME(...) do { char w[64], g[64]; int n = snprintf(w, 64, __VA_ARGS__); size_t m = zt_fmt_sprintf(g, 64, __VA_ARGS__); \
    zv_check(eq(g, w), "the text is what the conversions of C give"); zv_check(m == (size_t)n, "the length of the text is given"); } while (0)
#define INTS(K, V) void lemma_ints##K##_p70_nf(void) { \
    SAME("%d", V); SAME("%5d", V); SAME("%-5d|", V); SAME("%05d", V); SAME("%+d", V); SAME("% d", V); SAME("%.3d", V); SAME("%8.3d", V); SAME("%-8.3d|", V); SAME("%08.3d", V); SAME("%.0d", V); SAME("%4.0d", V); \
    SAME("%+6d", V); SAME("%+-6d|", V); SAME("%+06d", V); SAME("% 06d", V); SAME("%+.4d", V); SAME("%*d", 7, V); SAME("%*d|", -7, V); SAME("%.*d", 5, V); SAME("%*.*d", 9, 4, V); SAME("%20.12d", V); SAME("%-020d|", V); SAME("%+ d", V); }
INTS(0, 0) INTS(1, 1) INTS(2, -1) INTS(3, 9) INTS(4, -10) INTS(5, 12345) INTS(6, INT_MAX) INTS(7, INT_MIN) INTS(8, -99999)
#define UNS(K, V) void lemma_unsigned##K##_p70_nf(void) { \
    SAME("%u", V); SAME("%5u", V); SAME("%-5u|", V); SAME("%05u", V); SAME("%.3u", V); SAME("%.0u", V); SAME("%x", V); SAME("%5x", V); SAME("%-5x|", V); SAME("%010x", V); SAME("%.3x", V); SAME("%.0x", V); SAME("%12.10x", V); \
    SAME("%o", V); SAME("%5o", V); SAME("%-5o|", V); SAME("%013o", V); SAME("%.3o", V); SAME("%.0o", V); SAME("%*.*o", 14, 12, V); }
UNS(0, 0u) UNS(1, 1u) UNS(2, 7u) UNS(3, 8u) UNS(4, 0xau) UNS(5, 0x12f0u) UNS(6, UINT_MAX) UNS(7, 0x80000000u) UNS(8, 99u)
#define TXT(K, V) void lemma_texts##K##_p70_nf(void) { \
    SAME("%s", V); SAME("%10s", V); SAME("%-10s|", V); SAME("%.2s", V); SAME("%10.2s", V); SAME("%-10.2s|", V); SAME("%.0s", V); SAME("%*s", 6, V); SAME("%*s|", -6, V); SAME("%.*s", 3, V); SAME("%3s", V); SAME("%s%s", V, V); SAME("a%sb", V); SAME("%.30s", V); }
TXT(0, "") TXT(1, "a") TXT(2, "abc") TXT(3, "some words here")
void lemma_mixed_p70_nf(void) {
    SAME("%c", 'x'); SAME("%4c", 'x'); SAME("%-4c|", 'x'); SAME("%c%c%c", 'x', ' ', 'z'); SAME("%*c", 5, 'q'); SAME("%*c|", -5, 'q');
    SAME("plain"); SAME("%%"); SAME("a%%b%%"); SAME("%d%%", 5); SAME("%s is %d of %u (%c) %x", "this", -4, 77u, 'k', 0xbeefu); SAME("%d %d %d %d %d %d %d %d", 1, 2, 3, 4, 5, 6, 7, 8); SAME("");
    char g[64]; zv_check(zt_fmt_sprintf(g, 64, "~d%~~~~%~s", 7, "x") == 5 && eq(g, "7~~%x"), "either character starts a conversion");
    zv_check(zt_fmt_sprintf(g, 64, "ab%") == 2 && eq(g, "ab") && zt_fmt_sprintf(g, 64, "ab%-5.3") == 2 && eq(g, "ab"), "a conversion cut short gives nothing");
    zv_check(zt_fmt_sprintf(g, 64, "a%Zb") == 3 && eq(g, "aZb"), "an unknown conversion gives its letter");
    zv_check(zt_fmt_sprintf(g, 64, "%p %8p", (void *)0x1f, (void *)0) == 11 && eq(g, "1f        0"), "an address is given in hexadecimal digits");
    zv_check(zt_fmt_sprintf(g, 64, "%#2s|%#0s|%#9s|%#3.2s", "abcdef", "abc", "abc", "abcdef") == 15 && eq(g, "cdef|abc|abc|de"), "a text may be given from a place on"); }
/* every value of the hexadecimal and octal forms */
#define BITS(NAME, F) void lemma_##NAME##_p40_nf(void) { unsigned v = (unsigned)zv_int(); SAME(F, v); }
BITS(hexall, "%x") BITS(octall, "%o") BITS(hexpad, "%08x") BITS(hexwide, "%-12x|") BITS(hexprec, "%.4x")
/* room */
static void room(size_t size, const char *want, int all) {
    char g[24]; for (int i = 0; i < 24; i++) g[i] = '!';
    size_t n = zt_fmt_sprintf(g, size, "%s=%-4d|%03x", "abc", -5, 10);
    int fine = 1, keep = 1;
    for (size_t i = 0; i < n; i++) fine &= g[i] == want[i];
    for (size_t i = n + 1; i < 24; i++) keep &= g[i] == '!';
    zv_check(n == (size < 13 ? size - 1 : 12) && fine && g[n] == 0, "as much as there is room for is given, with an end");
    zv_check(keep, "nothing is written beyond the end");
}
void lemma_room_p70_nf(void) { for (size_t i = 1; i < 24; i++) room(i, "abc=-5  |00a", 12); }
#define LONG(N) void lemma_long##N##_p1300_nf(void) { \
    char *s = zt_fmt_strprintf("%" #N "d", 77); int fine = s != NULL; \
    for (int i = 0; fine && i < N - 2; i++) fine &= s[i] == ' '; \
    zv_check(fine && s[N - 2] == '7' && s[N - 1] == '7' && s[N] == 0, "a text of any length is given in full"); free(s); }
LONG(3) LONG(254) LONG(255) LONG(256) LONG(257) LONG(511) LONG(512) LONG(513) LONG(1024)
/* where it goes */
static int lead, seen[40], nseen, takes; static void *with;
static int put(int c, void *cl) { with = cl; if (nseen < 40) seen[nseen] = c; nseen++; return takes; }
void lemma_put_p70_nf(void) {
    int cl;
    for (takes = 0; takes < 2; takes++) {
        nseen = 0; size_t n = zt_fmt_format(put, &cl, "%3d|%-3c|%s%c\x81", 5, 'x', "\xe9", 0xfe);
        zv_check(n == (size_t)(takes ? 11 : 0) && nseen == 11 && with == &cl, "each character is put once, those taken are counted");
        zv_check(seen[0] == ' ' && seen[1] == ' ' && seen[2] == '5' && seen[3] == '|' && seen[4] == 'x' && seen[5] == ' ' && seen[6] == ' ' && seen[7] == '|', "characters are put in order");
        zv_check(seen[8] == 0xe9 && seen[9] == 0xfe && seen[10] == 0x81, "characters are put as unsigned");
    }
}
void lemma_out_p70_nf(void) {
    zv_out_len = 0; zv_check(zt_fmt_printf("%d-%s", 5, "x") == 3 && eq(zv_out, "5-x") && zv_out_file == stdout, "text goes to the standard output");
    zv_out_len = 0; zv_check(zt_fmt_fprintf(stderr, "%d-%s", 6, "y") == 3 && eq(zv_out, "6-y") && zv_out_file == stderr, "text goes to the stream given");
}
/* conversions of one's own */
static int code; static long got; static char kind; static unsigned char fl[5]; static ssize_t wid, prec; static size_t gives;
static size_t own(int c, void *v, zt_fmt_put_f p, void *cl, unsigned char flags[256], ssize_t w, ssize_t q) {
    code = c; wid = w; prec = q; got = kind == 'i' ? *(int *)v : kind == 'u' ? *(unsigned *)v : kind == 'd' ? *(long *)v : kind ? (long)*(void **)v : v == NULL;
    fl[0] = flags['-']; fl[1] = flags['+']; fl[2] = flags[' ']; fl[3] = flags['0']; fl[4] = flags['#'];
    p('<', cl); p('>', cl); return gives;
}
void lemma_own_p70_nf(void) {
    char g[40]; int x; gives = 7;
    zv_check(zt_fmt_register('S', own, 'i') == NULL, "the conversion before is given back"); kind = 'i';
    nseen = 0; takes = 1; zv_check(zt_fmt_format(put, &x, "a%-+5.3Sb", -9) == 9 && nseen == 4 && seen[1] == '<' && seen[3] == 'b', "the conversion's own count is added");
    zv_check(code == 'S' && got == -9 && wid == 5 && prec == 3 && fl[0] && fl[1] && !fl[2] && !fl[3] && !fl[4], "a conversion is told its letter, value, flags, width and precision");
    zt_fmt_sprintf(g, 40, "%S", 3); zv_check(got == 3 && wid < 0 && prec < 0 && !fl[0] && !fl[1] && !fl[2] && !fl[3] && !fl[4], "a conversion is told its letter, value, flags, width and precision");
    zt_fmt_sprintf(g, 40, "% #0*.*S", 6, 2, 8); zv_check(got == 8 && wid == 6 && prec == 2 && !fl[0] && fl[2] && fl[3] && fl[4], "a conversion is told its letter, value, flags, width and precision");
    zv_check(zt_fmt_register('S', own, 's') == own, "the conversion before is given back"); kind = 's'; zt_fmt_sprintf(g, 40, "%S%d", "xy", 5); zv_check(eq((char *)got, "xy") && eq(g, "<>5"), "a value is taken by its kind");
    zt_fmt_register('S', own, 'p'); kind = 'p'; zt_fmt_sprintf(g, 40, "%S%d", &x, 5); zv_check(got == (long)&x && eq(g, "<>5"), "a value is taken by its kind");
    zt_fmt_register('S', own, 'u'); kind = 'u'; zt_fmt_sprintf(g, 40, "%S%d", UINT_MAX, 5); zv_check(got == UINT_MAX && eq(g, "<>5"), "a value is taken by its kind");
    zt_fmt_register('S', own, 0); kind = 0; zt_fmt_sprintf(g, 40, "%S%d", 5); zv_check(got == 1 && eq(g, "<>5"), "a value is taken by its kind");
    zt_fmt_register('S', NULL, 0); zt_fmt_sprintf(g, 40, "%S%d", 5); zv_check(eq(g, "S5"), "a conversion may be taken away");
    zt_fmt_ty old = zt_fmt_register('d', own, 'i'); kind = 'i'; zt_fmt_sprintf(g, 40, "%d", 5); zv_check(got == 5 && eq(g, "<>"), "a conversion may be replaced");
    zv_check(zt_fmt_register('d', old, 'i') == own, "the conversion before is given back"); zt_fmt_sprintf(g, 40, "%d", 5); zv_check(eq(g, "5"), "a conversion may be put back");
}
/* real numbers, as the C library writes them */
static int conv, digits; static double given, taken; static const char *text; 
static const char *real(double v, int c, int p) { taken = v; conv = c; digits = p; return text; }
#define REAL(T, D, F, C, P) do { char w[64], g[64]; text = T; zv_real = real; snprintf(w, 64, F, D); conv = digits = 0; size_t n = zt_fmt_sprintf(g, 64, F, D); given = D; \
    zv_check(conv == C && digits == P && *(long *)&given == *(long *)&taken, "a real number is written as C does, with its precision"); zv_check(eq(g, w) && n == strlen(w), "a real number is placed as C does"); } while (0)
void lemma_real_p70_nf(void) {
    REAL("1.500000", 1.5, "%f", 'f', 6); REAL("1.50", 1.5, "%.2f", 'f', 2); REAL("1.50", 1.5, "%8.2f", 'f', 2); REAL("1.50", 1.5, "%-8.2f|", 'f', 2); REAL("-1.50", -1.5, "%8.2f", 'f', 2); REAL("1.5", 1.5, "%g", 'g', 6); REAL("1.5", 1.5, "%.9g", 'g', 9);
    REAL("0", 0.0, "%.0f", 'f', 0); REAL("0", 0.0, "%5.0f", 'f', 0); REAL("1.500000e+00", 1.5, "%e", 'e', 6); REAL("1.50", 1.5, "%08.2f", 'f', 2); REAL("-1.50", -1.5, "%08.2f", 'f', 2); REAL("1.50", 1.5, "%+.2f", 'f', 2); REAL("-1.50", -1.5, "%+7.2f", 'f', 2); REAL("1.5", 1.5, "% g", 'g', 6);
    REAL("1.5", 1.5, "%.12g", 'g', 12); REAL("1.5", 1.5, "%.99g", 'g', 99);
}
void lemma_parts_p70_nf(void) {
    unsigned char flags[256]; memset(flags, 0, 256); int x; takes = 1;
    nseen = 0; zv_check(zt_fmt_puts("abc", 2, put, &x, flags, 4, -1) == 4 && nseen == 4 && seen[1] == ' ' && seen[2] == 'a' && seen[3] == 'b', "a part is given in its width");
    nseen = 0; zv_check(zt_fmt_puts("abc", 3, put, &x, flags, -5, 1) == 5 && nseen == 5 && seen[0] == 'a' && seen[1] == ' ', "a part is given in its width");
    memset(flags, 0, 256);
    nseen = 0; zv_check(zt_fmt_putd("-12", 3, put, &x, flags, 6, 3) == 6 && nseen == 6 && seen[1] == ' ' && seen[2] == '-' && seen[3] == '0' && seen[4] == '1', "a number is given in its width");
    flags['0'] = 1; nseen = 0; zv_check(zt_fmt_putd("-12", 3, put, &x, flags, 6, -1) == 6 && nseen == 6 && seen[0] == '-' && seen[1] == '0' && seen[4] == '1', "a number is given in its width");
}
