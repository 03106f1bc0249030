#include "lemma.h"
/* each line handed to the printer is remembered */
static size_t at[4]; static char hex[4][52], txt[4][20]; static int lines, ends, stop_at; static void *given;
static int line(void *ctx, size_t addr, char *h, char *t) {
    given = ctx;
    if (!h) { ends++; return 0; }
    if (lines < 4) { at[lines] = addr; strncpy(hex[lines], h, 51); strncpy(txt[lines], t, 19); }
    lines++;
    return lines == stop_at ? -1 : 0;
}
static const char digits[] = "0123456789abcdef";
static int right(const unsigned char *d, int n) {
    int ok = lines == (n + 15) / 16;
    for (int l = 0; l < lines && l < 4; l++) {
        int m = n - l * 16 > 16 ? 16 : n - l * 16;
        ok &= at[l] == (size_t)l * 16 && strlen(hex[l]) == (size_t)m * 3 && strlen(txt[l]) == (size_t)m;
        for (int i = 0; i < m; i++) {
            unsigned char c = d[l * 16 + i];
            ok &= hex[l][i * 3] == digits[c >> 4] && hex[l][i * 3 + 1] == digits[c & 15] && hex[l][i * 3 + 2] == ' ';
            ok &= txt[l][i] == (c >= 32 && c < 127 ? (char)c : '.');
        }
    }
    return ok;
}
#define LEN(N) void lemma_len##N##_p60(void) { \
    unsigned char d[N + 1]; int me; \
    for (int i = 0; i < N; i++) d[i] = (unsigned char)(i * 37 + 250); \
    zv_check(zt_hexdump_str((char *)d, N, line, &me) == N, "the number of bytes is told"); \
    zv_check(right(d, N), "each line has its address, its bytes in hexadecimal and as text"); \
    zv_check(ends == 1 && given == &me, "the end is told once, with the printer's own data"); }
LEN(0) LEN(1) LEN(2) LEN(15) LEN(16) LEN(17) LEN(31) LEN(32) LEN(33) LEN(48)
#define PART(K) void lemma_byte##K##_p300(void) { \
    int ok = 1; \
    for (int v = K; v < K + 32; v++) { unsigned char c = (unsigned char)v; lines = 0; zt_hexdump_str((char *)&c, 1, line, NULL); ok &= right(&c, 1); } \
    zv_check(ok, "every byte is told in hexadecimal and as text when it has one"); }
PART(0) PART(32) PART(64) PART(96) PART(128) PART(160) PART(192) PART(224)
void lemma_stop_p60(void) {
    unsigned char d[40] = {0};
    stop_at = 1;
    zv_check(zt_hexdump_str((char *)d, 40, line, NULL) == (size_t)-1 && lines == 1 && ends == 0, "a failing printer ends the dump");
    lines = 0; stop_at = 3;
    zv_check(zt_hexdump_str((char *)d, 40, line, NULL) == (size_t)-1 && lines == 3 && ends == 0, "a failing printer of the last line ends the dump");
}
static int left;
static int give(void *d) { return left-- > 0 ? *(int *)d : EOF; }
void lemma_source_p60(void) {
    int c = 'A';
    left = 18;
    zv_check(zt_hexdump(give, &c, line, NULL) == 18 && lines == 2 && !strcmp(hex[1], "41 41 ") && !strcmp(txt[1], "AA") && at[1] == 16, "any source of bytes is dumped to its end");
}
extern char zv_out[]; extern int zv_out_len;
static int same(const char *w) { int ok = zv_out_len == (int)strlen(w); for (int i = 0; w[i]; i++) ok &= zv_out[i] == w[i]; return ok; }
void lemma_print_p120(void) {
    char h[52] = "41 42 43 44 45 46 47 48 49 4A 4B 4C 4D 4E 4F 50 ";
    zv_out_len = 0;
    zt_hexdump_default_printer(NULL, 16, h, "ABCDEFGHIJKLMNOP");
    zv_check(same("0010   41 42 43 44  45 46 47 48  49 4A 4B 4C  4D 4E 4F 50  | ABCDEFGHIJKLMNOP\n"), "a full line is printed");
}
void lemma_column_p200(void) {
    zv_out_len = 0;
    zv_check(zt_hexdump_str("abcdefghijklmnopqrst", 20, NULL, NULL) == 20, "the bytes printed are counted");
    zv_check(same("0000   61 62 63 64  65 66 67 68  69 6a 6b 6c  6d 6e 6f 70  | abcdefghijklmnop\n0010   71 72 73 74                                         | qrst\n\n"), "the text is in one column for every line");
}
void lemma_far_p120(void) {
    char h[52] = "41 42 43 44 45 46 47 48 49 4A 4B 4C 4D 4E 4F 50 ";
    zv_out_len = 0;
    zt_hexdump_default_printer(NULL, 70000, h, "ABCDEFGHIJKLMNOP");
    zv_check(same("00011170   41 42 43 44  45 46 47 48  49 4A 4B 4C  4D 4E 4F 50  | ABCDEFGHIJKLMNOP\n"), "a far address is printed in full");
}
