#include "lemma.h"
#define STR4(s) char s[5]; s[0] = a; s[1] = b; s[2] = c; s[3] = d; s[4] = 0; zv_assume(a != 0); zv_assume(b != 0); zv_assume(c != 0); zv_assume(d != 0)
static int norm(int i, int len) { int r = i < 0 ? i + len : i; if (r >= len) r = len - 1; if (r < 0) r = 0; return r; }

void lemma_sub_p32_nf(char a, char b, char c, char d) {
    STR4(s);
    for (int i = -6; i <= 6; i++) for (int j = -6; j <= 6; j++) {
        int lo = norm(i, 4), hi = norm(j, 4);
        if (lo > hi) { int x = lo; lo = hi; hi = x; }
        char *r = zt_cstr_sub(s, i, j);
        for (int k = lo; k <= hi; k++) zv_check(r[k - lo] == s[k], "a substring has the characters of the slice");
        zv_check(r[hi - lo + 1] == 0, "a substring ends with the slice");
        zv_check(zt_cstr_len(s, i, j) == (size_t)(hi - lo + 1), "the length of a slice counts both ends");
        zv_check(zt_cstr_pos(s, i) == (size_t)norm(i, 4), "a position counts from the end when negative and stays in the string");
        free(r);
    }
}
void lemma_reverse_p32_nf(char a, char b, char c, char d) {
    STR4(s);
    for (int i = -6; i <= 6; i++) for (int j = -6; j <= 6; j++) {
        int lo = norm(i, 4), hi = norm(j, 4);
        if (lo > hi) { int x = lo; lo = hi; hi = x; }
        char *r = zt_cstr_reverse(s, i, j);
        for (int k = lo; k <= hi; k++) zv_check(r[hi - k] == s[k], "a reversal has the characters of the slice backwards");
        zv_check(r[hi - lo + 1] == 0, "a reversal ends with the slice");
        free(r);
    }
}
void lemma_dup_p32_nf(char a, char b, char c, char d) {
    STR4(s);
    for (int i = -5; i <= 5; i += 2) for (int j = -5; j <= 5; j++) for (int n = 0; n <= 3; n++) {
        int lo = norm(i, 4), hi = norm(j, 4);
        if (lo > hi) { int x = lo; lo = hi; hi = x; }
        int l = hi - lo + 1;
        char *r = zt_cstr_dup(s, i, j, n);
        for (int k = 0; k < n * l; k++) zv_check(r[k] == s[lo + k % l], "a duplication repeats the slice");
        zv_check(r[n * l] == 0, "a duplication ends after the copies");
        free(r);
    }
    zv_check(zt_cstr_dup(NULL, 0, -1, 2) == NULL, "a duplication of no string is null");
}
void lemma_cat_p32_nf(char a, char b, char c, char d, char x, char y) {
    STR4(s);
    char t[3]; t[0] = x; t[1] = y; t[2] = 0; zv_assume(x != 0); zv_assume(y != 0);
    for (int i = -5; i <= 4; i += 3) for (int j = -5; j <= 5; j += 2) for (int k = -3; k <= 2; k++) {
        int lo = norm(i, 4), hi = norm(j, 4), l2 = norm(k, 2);
        if (lo > hi) { int z = lo; lo = hi; hi = z; }
        char *r = zt_cstr_cat(s, i, j, t, k, -1);
        for (int q = lo; q <= hi; q++) zv_check(r[q - lo] == s[q], "a concatenation starts with the first slice");
        for (int q = l2; q <= 1; q++) zv_check(r[hi - lo + 1 + q - l2] == t[q], "a concatenation continues with the second slice");
        zv_check(r[hi - lo + 1 + 2 - l2] == 0, "a concatenation ends after the second slice");
        char *v = zt_cstr_catv(s, i, j, t, k, -1, s, 0, 0, NULL);
        for (int q = lo; q <= hi; q++) zv_check(v[q - lo] == s[q], "a multiple concatenation starts with the first slice");
        for (int q = l2; q <= 1; q++) zv_check(v[hi - lo + 1 + q - l2] == t[q], "a multiple concatenation continues with the second slice");
        zv_check(v[hi - lo + 3 - l2] == a && v[hi - lo + 4 - l2] == 0, "a multiple concatenation ends with the last slice");
        free(r);
        free(v);
    }
}
void lemma_copy_p32(char a, char b, char c, char d, char z) {
    STR4(s);
    for (int i = -5; i <= 5; i++) for (int j = -5; j <= 5; j += 2) for (int n = 0; n <= 5; n++) {
        char to[6];
        int lo = norm(i, 4), hi = norm(j, 4);
        if (lo > hi) { int x = lo; lo = hi; hi = x; }
        int l = hi - lo + 1 < n ? hi - lo + 1 : n;
        for (int k = 0; k < 6; k++) to[k] = z;
        zv_check(zt_cstr_copy(s, i, j, to, n) == (size_t)l, "a copy counts what fits");
        for (int k = 0; k < l; k++) zv_check(to[k] == s[lo + k], "a copy has the characters of the slice");
        for (int k = l; k < 6; k++) zv_check(to[k] == z, "a copy writes no more than fits");
    }
}
/* slices of an empty string are empty */
void lemma_sub_none_p32_nf(int i, int j, char a, char b, char z) {
    char *r, to[2];
    zv_assume(a != 0 && b != 0 && i >= -3 && i <= 3 && j >= -3 && j <= 3);
    char s[3] = { a, b, 0 };
    r = zt_cstr_sub("", i, j); zv_check(r[0] == 0, "a substring of nothing is empty");
    zv_check(zt_cstr_len("", i, j) == 0, "a slice of nothing has no characters");
    zv_check(zt_cstr_pos("", i) == 0, "the only position of an empty string is the first");
    r = zt_cstr_reverse("", i, j); zv_check(r[0] == 0, "a reversal of nothing is empty");
    r = zt_cstr_dup("", i, j, 3); zv_check(r[0] == 0, "a duplication of nothing is empty");
    r = zt_cstr_map("", i, j, "a", "b"); zv_check(r[0] == 0, "a mapping of nothing is empty");
    to[0] = to[1] = z;
    zv_check(zt_cstr_copy("", i, j, to, 2) == 0 && to[0] == z && to[1] == z, "a copy of nothing writes nothing");
    r = zt_cstr_cat("", i, j, s, 0, -1); zv_check(r[0] == a && r[1] == b && r[2] == 0, "nothing before a slice leaves it as it is");
    r = zt_cstr_cat(s, 0, -1, "", i, j); zv_check(r[0] == a && r[1] == b && r[2] == 0, "nothing behind a slice leaves it as it is");
    r = zt_cstr_cat("", i, j, "", 0, -1); zv_check(r[0] == 0, "nothing and nothing is nothing");
    r = zt_cstr_catv("", i, j, s, 0, 0, "", 0, -1, s, 1, 1, "", 0, -1, NULL); zv_check(r[0] == a && r[1] == b && r[2] == 0, "empty parts add nothing to a concatenation");
    zv_check(zt_cstr_cmp("", i, j, s, 0, 0) < 0 && zt_cstr_cmp(s, 0, 0, "", i, j) > 0 && zt_cstr_cmp("", i, j, "", 0, -1) == 0, "nothing comes before anything");
}
void lemma_map_p32_nf(char a, char b, char c) {
    char s[8]; s[0] = 'x'; s[1] = 'y'; s[2] = 'z'; s[3] = 'x'; s[4] = (char)0xE9; s[5] = 0;
    zv_assume(a != 0); zv_assume(b != 0); zv_assume(c != 0);
    char from[4] = { 'x', (char)0xE9, 'q', 0 }, to[4]; to[0] = a; to[1] = b; to[2] = c; to[3] = 0;
    char *r = zt_cstr_map(s, 0, -1, from, to);
    zv_check(r[0] == a && r[3] == a && r[4] == b, "a mapped character becomes its counterpart");
    zv_check(r[1] == 'y' && r[2] == 'z', "an unmapped character stays");
    zv_check(r[5] == 0, "a mapping ends with the slice");
    r = zt_cstr_map(s, 1, -2, from, to);
    zv_check(r[0] == 'y' && r[1] == 'z' && r[2] == a && r[3] == 0, "a mapping covers exactly the slice");
}
void lemma_map_identity_p260_nf(void) {
    char s[256];
    for (int i = 0; i < 255; i++) s[i] = (char)(i + 1);
    s[255] = 0;
    char *r = zt_cstr_map(s, 0, -1, "", "");
    for (int i = 0; i < 255; i++) zv_check(r[i] == (char)(i + 1), "an empty mapping changes no character");
    zv_check(r[255] == 0, "an empty mapping keeps the length");
}
static int sgn(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
void lemma_cmp_p32(char a, char b) {
    zv_assume(a > 0); zv_assume(b > 0);
    char s[4] = { a, 'k', 'k', 0 }, t[5] = { 'k', b, 'k', 'k', 0 };
    zv_check(zt_cstr_cmp(s, 0, -1, s, 0, -1) == 0 && zt_cstr_cmp(s, 1, 2, t, 2, 3) == 0 && zt_cstr_cmp(s, 1, 1, t, 0, 0) == 0, "equal slices compare equal");
    int r = zt_cstr_cmp(s, 0, 0, t, 1, 1);
    zv_check(sgn(r) == (a < b ? -1 : a > b), "unequal characters order the slices");
    r = zt_cstr_cmp(s, 0, 1, t, 1, 2);
    zv_check(sgn(r) == (a < b ? -1 : a > b), "the first unequal character orders the slices");
    r = zt_cstr_cmp(s, 2, 1, t, 0, 1);
    zv_check(sgn(r) == ('k' < b ? -1 : 'k' > b), "the last character counts");
    zv_check(zt_cstr_cmp(s, 1, 1, t, 2, 3) < 0 && zt_cstr_cmp(t, 2, 3, s, 1, 1) > 0, "a proper prefix comes first");
    r = zt_cstr_cmp(s, 0, 0, t, 1, 3);
    zv_check(sgn(r) == (a < b ? -1 : a > b ? 1 : -1), "a shorter slice is ordered by its characters first");
}
void lemma_any_none_p32(int i, int j, char a, char b) {
    zv_assume(i >= -3 && i <= 3 && j >= -3 && j <= 3);
    char s[3] = { a, b, 0 };
    zv_check(zt_cstr_upto("", i, j, s) == -1 && zt_cstr_rupto("", i, j, s) == -1, "an empty string has no character of a set");
    zv_check(zt_cstr_any("", i, j, s) == -1 && zt_cstr_rany("", i, j, s) == -1, "an empty string has no character of any set");
    zv_check(zt_cstr_find("", i, j, s) == -1 && zt_cstr_rfind("", i, j, s) == -1, "an empty string contains no other");
}
void lemma_chr_p32(char a, char b, char c, char d, char x) {
    STR4(s);
    zv_assume(x != 0);
    size_t r = zt_cstr_chr(s, 0, -1, x);
    int w = a == x ? 0 : b == x ? 1 : c == x ? 2 : d == x ? 3 : 0;
    zv_check(r == (size_t)w, "the first occurrence of a character is found");
    r = zt_cstr_rchr(s, 0, -1, x);
    w = d == x ? 3 : c == x ? 2 : b == x ? 1 : 0;
    zv_check(r == (size_t)w, "the last occurrence of a character is found");
}
void lemma_chr_slice_p32(char a, char b, char c, char d, char x) {
    STR4(s);
    zv_assume(x != 0);
    size_t r = zt_cstr_chr(s, 1, 2, x);
    int w = b == x ? 1 : c == x ? 2 : 0;
    zv_check(r == (size_t)w, "a character is looked for inside the slice");
    r = zt_cstr_rchr(s, -3, -2, x);
    w = c == x ? 2 : b == x ? 1 : 0;
    zv_check(r == (size_t)w, "a character is looked for backwards inside the slice");
}
void lemma_upto_p32(char a, char b, char c, char d, char x, char y) {
    STR4(s);
    char set[3] = { x, y, 0 };
    zv_assume(x != 0); zv_assume(y != 0);
#define IN(q) ((q) == x || (q) == y)
    zv_check(zt_cstr_upto(s, 1, -1, set) == (IN(b) ? 1 : IN(c) ? 2 : IN(d) ? 3 : -1), "the first character of a set is found");
}
void lemma_rupto_p32(char a, char b, char c, char d, char x, char y) {
    STR4(s);
    char set[3] = { x, y, 0 };
    zv_assume(x != 0); zv_assume(y != 0);
    zv_check(zt_cstr_rupto(s, 1, -1, set) == (IN(d) ? 3 : IN(c) ? 2 : IN(b) ? 1 : -1), "the last character of a set is found");
}
void lemma_any_p32(char a, char b, char c, char d, char x, char y) {
    STR4(s);
    char set[3] = { x, y, 0 };
    zv_assume(x != 0); zv_assume(y != 0);
    zv_check(zt_cstr_any(s, 1, -1, set) == (IN(b) ? 1 : IN(c) ? 2 : IN(d) ? 3 : -1), "the first of any of a set is found");
}
void lemma_rany_p32(char a, char b, char c, char d, char x, char y) {
    STR4(s);
    char set[3] = { x, y, 0 };
    zv_assume(x != 0); zv_assume(y != 0);
    zv_check(zt_cstr_rany(s, 0, 2, set) == (IN(c) ? 2 : IN(b) ? 1 : IN(a) ? 0 : -1), "the last of any of a set is found");
}
void lemma_find_p32(char a, char b, char c, char d, char x, char y) {
    STR4(s);
    char p[3] = { x, y, 0 };
    zv_assume(x != 0); zv_assume(y != 0);
    zv_check(zt_cstr_find(s, 0, -1, p) == (a == x && b == y ? 0 : b == x && c == y ? 1 : c == x && d == y ? 2 : -1), "the first occurrence of a string is found");
}
void lemma_find_slice_p32(char a, char b, char c, char d, char x, char y) {
    STR4(s);
    char p[3] = { x, y, 0 };
    zv_assume(x != 0); zv_assume(y != 0);
    zv_check(zt_cstr_find(s, 1, 2, p) == (b == x && c == y ? 1 : -1), "a string is looked for inside the slice");
    zv_check(zt_cstr_rfind(s, 1, 2, p) == (b == x && c == y ? 1 : -1), "a string is looked for backwards inside the slice");
    zv_check(zt_cstr_find(s, 0, -1, "") == -1 && zt_cstr_rfind(s, 0, -1, "") == -1, "an empty string is not found");
}
void lemma_rfind_p32(char a, char b, char c, char d, char x, char y) {
    STR4(s);
    char p[3] = { x, y, 0 };
    zv_assume(x != 0); zv_assume(y != 0);
    zv_check(zt_cstr_rfind(s, 0, -1, p) == (c == x && d == y ? 2 : b == x && c == y ? 1 : a == x && b == y ? 0 : -1), "the last occurrence of a string is found");
}
void lemma_find1_p32(char a, char b, char c, char d, char x) {
    STR4(s);
    char p[2] = { x, 0 };
    zv_assume(x != 0);
    zv_check(zt_cstr_find(s, 1, -1, p) == (b == x ? 1 : c == x ? 2 : d == x ? 3 : -1), "the first occurrence of a one character string is found");
    zv_check(zt_cstr_rfind(s, 1, -1, p) == (d == x ? 3 : c == x ? 2 : b == x ? 1 : -1), "the last occurrence of a one character string is found");
    zv_check(zt_cstr_find(s, 0, -1, "longer") == -1 && zt_cstr_rfind(s, 0, -1, "longer") == -1, "a longer string is not found");
}
void lemma_chomp_p32(char a, char b) {
    zv_assume(a != 0); zv_assume(b != 0);
    char s[3] = { a, b, 0 };
    zv_check(zt_cstr_chomp(s) == s, "chomp returns its argument");
    zv_check(s[0] == a && s[1] == (b == '\n' ? 0 : b) && s[2] == 0, "chomp removes one newline at the end only");
    char e[1] = { 0 };
    zt_cstr_chomp(e);
    zv_check(e[0] == 0, "chomp leaves an empty string");
    char n[2] = { '\n', 0 };
    zt_cstr_chomp(n);
    zv_check(n[0] == 0, "chomp of a newline is empty");
}
#define EQ(s, lit, label) do { for (unsigned k_ = 0; k_ < sizeof(lit); k_++) zv_check((s)[k_] == (lit)[k_], label); } while (0)
void lemma_strip_p32(char a) {
    zv_assume(a != 0 && a != ' ' && a != '\t' && a != '\n' && a != '\r' && a != '\v' && a != '\f');
    char s[12] = { ' ', '\t', a, ' ', a, ' ', ' ', 0 };
    char w[4] = { a, ' ', a, 0 };
    zt_cstr_strip(s);
    for (int k = 0; k < 4; k++) zv_check(s[k] == w[k], "strip removes white space at both ends only");
    char u[4] = { a, ' ', a, 0 };
    zt_cstr_strip(u);
    for (int k = 0; k < 4; k++) zv_check(u[k] == w[k], "strip leaves a string without outer white space");
    char v[4] = { a, '\n', a, 0 }, v2[4] = { a, '\n', a, 0 };
    zt_cstr_strip(v);
    for (int k = 0; k < 4; k++) zv_check(v[k] == v2[k], "strip leaves a newline inside the string");
    char x[6] = { ' ', a, ' ', '\n', ' ', 0 };
    zt_cstr_strip(x);
    zv_check(x[0] == a && x[1] == '\n' && x[2] == 0, "strip keeps one newline at the end");
    char y[5] = { a, '\n', a, ' ', 0 };
    zt_cstr_strip(y);
    for (int k = 0; k < 4; k++) zv_check(y[k] == v2[k], "strip adds no newline");
    char m[3] = { a, ' ', 0 };
    zt_cstr_strip(m);
    zv_check(m[0] == a && m[1] == 0, "strip removes white space after a single character");
    char e[1] = { 0 }, z[3] = { ' ', '\t', 0 };
    zt_cstr_strip(e);
    zv_check(e[0] == 0, "strip leaves an empty string");
    zt_cstr_strip(z);
    zv_check(z[0] == 0, "strip of white space is empty");
}
void lemma_rspn_p32(char a, char b, char c, char x, char y) {
    zv_assume(a != 0); zv_assume(b != 0); zv_assume(c != 0); zv_assume(x != 0); zv_assume(y != 0);
    char s[4] = { a, b, c, 0 }, t[3] = { x, y, 0 }, e[1] = { 0 };
    int ia = a == x || a == y, ib = b == x || b == y, ic = c == x || c == y;
    size_t n = zt_cstr_rspn(s, t), m = zt_cstr_rcspn(s, t);
    if (!ic) zv_check(n == 0, "a span from the right ends at the first character not in the set");
    else if (!ib) zv_check(n == 1, "a span from the right ends at the second character not in the set");
    else if (!ia) zv_check(n == 2, "a span from the right ends at the third character not in the set");
    else zv_check(n == 3, "a span from the right covers a string of accepted characters");
    if (ic) zv_check(m == 2, "the last rejected character is found at the end");
    else if (ib) zv_check(m == 1, "the last rejected character is found inside");
    else if (ia) zv_check(m == 0, "the last rejected character is found at the start");
    else zv_check(m == 3, "without a rejected character the length is given");
    zv_check(zt_cstr_rspn(e, t) == 0 && zt_cstr_rcspn(e, t) == 0, "the span of an empty string is empty");
}
void lemma_path_p32(char a, char b) {
    zv_assume(a != 0 && a != '/' && a != '.'); zv_assume(b != 0 && b != '/' && b != '.');
    char n[16];
    char p1[8] = { '/', a, '/', b, a, 0 };
    zt_cstr_basename(n, 16, p1, NULL);
    zv_check(n[0] == b && n[1] == a && n[2] == 0, "the base name follows the last separator");
    zt_cstr_dirname(n, 16, p1);
    zv_check(n[0] == '/' && n[1] == a && n[2] == 0, "the directory name precedes the last separator");
    char p2[8] = { a, b, 0 };
    zt_cstr_basename(n, 16, p2, NULL);
    zv_check(n[0] == a && n[1] == b && n[2] == 0, "the base name of a plain name is the name");
    zt_cstr_dirname(n, 16, p2);
    zv_check(n[0] == '.' && n[1] == 0, "the directory of a plain name is the current one");
    char p3[10] = { a, '/', b, '.', 'c', 0 };
    zt_cstr_basename(n, 16, p3, ".c");
    zv_check(n[0] == b && n[1] == 0, "a suffix is removed from the base name");
    char p4[10] = { a, '/', b, '/', 0 };
    zt_cstr_dirname(n, 16, p4);
    zv_check(n[0] == a && n[1] == 0, "a separator at the end is skipped for the directory name");
    char p5[4] = { '/', a, 0 }, p6[4] = { a, '/', 0 }, p7[3] = { '/', '/', 0 }, p8[6] = { a, '/', b, a, '/', 0 }, p9[2] = { '/', 0 }, p0[1] = { 0 };
    zt_cstr_dirname(n, 16, p5);
    zv_check(n[0] == '/' && n[1] == 0, "the directory of a name in the root directory is the root directory");
    zt_cstr_dirname(n, 16, p9);
    zv_check(n[0] == '/' && n[1] == 0, "the directory of the root directory is itself");
    zt_cstr_dirname(n, 16, p6);
    zv_check(n[0] == '.' && n[1] == 0, "the directory of a plain name with a separator behind is the current one");
    zt_cstr_basename(n, 16, p5, NULL);
    zv_check(n[0] == a && n[1] == 0, "the base name of a name in the root directory is the name");
    zt_cstr_basename(n, 16, p6, NULL);
    zv_check(n[0] == a && n[1] == 0, "a separator at the end is skipped for the base name");
    zt_cstr_basename(n, 16, p8, NULL);
    zv_check(n[0] == b && n[1] == a && n[2] == 0, "a separator at the end is no part of the base name");
    zt_cstr_basename(n, 16, p9, NULL);
    zv_check(n[0] == '/' && n[1] == 0, "the base name of the root directory is the separator");
    zt_cstr_basename(n, 16, p7, NULL);
    zv_check(n[0] == '/' && n[1] == 0, "the base name of separators only is one separator");
    zt_cstr_basename(n, 16, p0, NULL);
    zv_check(n[0] == 0, "the base name of nothing is empty");
    char q1[6] = { a, '.', 'c', '.', 'd', 0 }, q2[4] = { '.', 'c', 0 }, q3[8] = { b, '/', a, 'x', 'c', 'x', 'c', 0 };
    zt_cstr_basename(n, 16, q1, ".c");
    zv_check(n[0] == a && n[1] == '.' && n[2] == 'c' && n[3] == '.' && n[4] == 'd' && n[5] == 0, "a suffix that is not at the end stays");
    zt_cstr_basename(n, 16, q2, ".c");
    zv_check(n[0] == '.' && n[1] == 'c' && n[2] == 0, "a name that is only the suffix stays");
    zt_cstr_basename(n, 16, q3, "xc");
    zv_check(n[0] == a && n[1] == 'x' && n[2] == 'c' && n[3] == 0, "a suffix is removed once, whatever it starts with");
    zt_cstr_basename(n, 16, q3, "");
    zv_check(n[0] == a && n[4] == 'c' && n[5] == 0, "an empty suffix removes nothing");
    zt_cstr_basename(n, 16, p2, "longer");
    zv_check(n[0] == a && n[1] == b && n[2] == 0, "a suffix that is longer than the name stays out of it");
    zt_cstr_basename(n, 16, p1, NULL);
    zt_cstr_basename(n, 2, p1, NULL);
    zv_check(n[0] == b && n[1] == a && n[2] == 0, "a base name is cut to the space given");
}
void lemma_path_append_p32_nf(char a, char b) {
    zv_assume(a != 0 && a != '/'); zv_assume(b != 0 && b != '/');
    char p[6] = { '/', a, '/', '/', 0 }, q[6] = { '/', b, 0 }, p2[3] = { a, 0 }, q2[3] = { b, 0 };
    char *r = zt_cstr_path_append(p, q);
    zv_check(r[0] == '/' && r[1] == a && r[2] == '/' && r[3] == b && r[4] == 0, "paths are joined with one separator");
    r = zt_cstr_path_append(p2, q2);
    zv_check(r[0] == a && r[1] == '/' && r[2] == b && r[3] == 0, "plain names are joined with one separator");
    r = zt_cstr_path_append(p, q2);
    zv_check(r[0] == '/' && r[1] == a && r[2] == '/' && r[3] == b && r[4] == 0, "a trailing separator is not doubled");
}
void lemma_path_none_p32_nf(char a, char b) {
    zv_assume(a != 0 && a != '/'); zv_assume(b != 0 && b != '/');
    char p[3] = { a, b, 0 }, q[5] = { '/', '/', a, 0 };
    char *r = zt_cstr_path_append("/", p);
    zv_check(r[0] == '/' && r[1] == a && r[2] == b && r[3] == 0, "the root directory is joined with one separator");
    r = zt_cstr_path_append("///", q);
    zv_check(r[0] == '/' && r[1] == a && r[2] == 0, "separators only are joined with one separator");
    r = zt_cstr_path_append(p, "/");
    zv_check(r[0] == a && r[1] == b && r[2] == '/' && r[3] == 0, "a path joined with separators only ends with one");
    r = zt_cstr_path_append(p, "");
    zv_check(r[0] == a && r[1] == b && r[2] == '/' && r[3] == 0, "a path joined with nothing ends with a separator");
    r = zt_cstr_path_append("", p);
    zv_check(r[0] == a && r[1] == b && r[2] == 0, "nothing before a path leaves it as it is");
    r = zt_cstr_path_append("/", "//");
    zv_check(r[0] == '/' && r[1] == 0, "separators alone are one separator");
    r = zt_cstr_path_append("", "");
    zv_check(r[0] == 0, "nothing joined with nothing is nothing");
}
void lemma_abspath_p8(char a, char b) {
    char p[4] = { a, b, 'x', 0 };
    zv_assume(a != 0 && b != 0);
    zv_check((zt_cstr_abspath(p) != 0) == (a == '/' || (a == '.' && b == '/')), "an absolute path starts with the separator or with ./");
}
void lemma_hex_p12(void) {
    unsigned char in[2] = { 0x3c, 0xa5 }, out[2]; char hex[5];
    hex[4] = 'Z';
    zv_check(zt_binary_to_hex(in, 2, hex, 5) == 4, "two digits are written per byte");
    zv_check(hex[4] == 'Z', "no terminator is written");
    zv_check(zt_hex_to_binary(hex, 4, out, 2) == 2, "every two digits give a byte");
    zv_check(out[0] == 0x3c && out[1] == 0xa5, "hexadecimal text decodes to the bytes it encodes");
}
void lemma_hexdigits_p260(void) {
    for (int i = 0; i < 256; i++) {
        unsigned char c = (unsigned char)i; char hex[3];
        zt_binary_to_hex(&c, 1, hex, 3);
        int h = i / 16, l = i % 16;
        zv_check(hex[0] == (h < 10 ? '0' + h : 'a' + h - 10) && hex[1] == (l < 10 ? '0' + l : 'a' + l - 10), "hexadecimal digits are those of the byte");
        unsigned char o;
        zv_check(zt_hex_to_binary(hex, 2, &o, 1) == 1 && o == c, "lower case digits decode to the byte");
        for (int k = 0; k < 2; k++) if (hex[k] >= 'a') hex[k] += 'A' - 'a';
        zv_check(zt_hex_to_binary(hex, 2, &o, 1) == 1 && o == c, "upper case digits decode to the byte");
    }
}
void lemma_hexbad_p260(void) {
    for (int i = 1; i < 256; i++) {
        char h[2] = { (char)i, '1' }; unsigned char o = 7;
        int ok = (i >= '0' && i <= '9') || (i >= 'A' && i <= 'F') || (i >= 'a' && i <= 'f');
        zv_check((zt_hex_to_binary(h, 2, &o, 1) == 1) == ok, "only hexadecimal digits decode");
        char g[2] = { '1', (char)i };
        zv_check((zt_hex_to_binary(g, 2, &o, 1) == 1) == ok, "only hexadecimal digits decode as second digit");
    }
}
void lemma_hexlimits_p12(char z) {
    char h[5] = "0102", o[3]; unsigned char in[3] = { 1, 2, 3 }; char hex[8];
    o[0] = o[1] = o[2] = z;
    zv_check(zt_hex_to_binary(h, 4, o, 1) == 1 && o[0] == 1 && o[1] == z, "decoding stops at the end of the output");
    zv_check(zt_hex_to_binary(h, 3, o, 3) == 0, "half a byte does not decode");
    zv_check(zt_hex_to_binary(h, 4, NULL, 0) == 2, "the space needed is counted without output");
    for (int k = 0; k < 8; k++) hex[k] = z;
    zv_check(zt_binary_to_hex(in, 3, hex, 5) == 4 && hex[0] == '0' && hex[3] == '2' && hex[4] == z, "encoding stops at the end of the output");
}
void lemma_itoa_p20(void) {
    static const int v[] = { 0, 7, -7, 9, 10, -10, 99, 100, -100, 999, 1000, -1000, 9999, 10000, -10000, 99999, 100000, 123456, 999999, 1000000, -1000000, 9999999, 10000000, 99999999, 100000000,
                             999999999, 1000000000, 2147483647, -2147483647, -2147483647 - 1 };
    static const char *const w[] = { "0", "7", "-7", "9", "10", "-10", "99", "100", "-100", "999", "1000", "-1000", "9999", "10000", "-10000", "99999", "100000", "123456", "999999", "1000000", "-1000000", "9999999", "10000000", "99999999", "100000000",
                             "999999999", "1000000000", "2147483647", "-2147483647", "-2147483648" };
#define ITOA(K) do { char s[16]; size_t n = strlen(w[K]); \
        s[0] = 'p'; \
        zv_check(zt_cstr_int_display_len(v[K]) == n, "the display length of an integer is its number of characters"); \
        zv_check(zt_cstr_itoa(s, v[K], 1, 16) == (ssize_t)(n + 1), "the end of the text of an integer is returned"); \
        zv_check(s[0] == 'p', "text before the offset stays"); \
        for (size_t k = 0; k <= n; k++) zv_check(s[1 + k] == w[K][k], "the text of an integer is its decimal form"); \
        zv_check(zt_cstr_itoa(s, v[K], 0, n) == -1, "an integer that does not fit is refused"); } while (0)
    ITOA(0); ITOA(1); ITOA(2); ITOA(3); ITOA(4); ITOA(5); ITOA(6); ITOA(7); ITOA(8); ITOA(9); ITOA(10); ITOA(11); ITOA(12); ITOA(13); ITOA(14); ITOA(15); ITOA(16);
    ITOA(17); ITOA(18); ITOA(19); ITOA(20); ITOA(21); ITOA(22); ITOA(23); ITOA(24); ITOA(25); ITOA(26); ITOA(27); ITOA(28); ITOA(29);
}
void lemma_split_p32_nf(char a, char b) {
    zv_assume(a != 0 && a != ',' && a != ';'); zv_assume(b != 0 && b != ',' && b != ';');
    char s[10] = { ',', a, b, ';', ',', b, ',', 0 };
    zt_ptr_array *r = zt_cstr_split(s, ",;");
    zv_check(r != NULL && r->count == 2, "a split has one element per token");
    char *x = zt_ptr_array_get_idx(r, 0), *y = zt_ptr_array_get_idx(r, 1);
    zv_check(x[0] == a && x[1] == b && x[2] == 0 && y[0] == b && y[1] == 0, "a split has the tokens in order");
    zv_check(zt_cstr_split_free(r) == 0, "a split can be freed");
    zv_check(zt_cstr_split(NULL, ",") == NULL && zt_cstr_split(s, NULL) == NULL, "nothing to split gives no list");
}
void lemma_cut_p32_nf(char a, char b) {
    zv_assume(a != 0 && a != '/'); zv_assume(b != 0 && b != '/');
    char s[10] = { '/', a, '/', b, 0 };
    zt_ptr_array *r = zt_cstr_cut(s, '/', 1);
    zv_check(r != NULL && r->count == 2, "a cut has one element per delimiter");
    char *x = zt_ptr_array_get_idx(r, 0), *y = zt_ptr_array_get_idx(r, 1);
    zv_check(x[0] == '/' && x[1] == a && x[2] == '/' && x[3] == b && x[4] == 0 && y[0] == '/' && y[1] == b && y[2] == 0, "a cut has the remainder from each delimiter");
    zt_cstr_cut_free(r);
    r = zt_cstr_cut(s, '/', 0);
    zv_check(r != NULL && r->count == 2, "a cut without delimiters has one element per delimiter");
    x = zt_ptr_array_get_idx(r, 0), y = zt_ptr_array_get_idx(r, 1);
    zv_check(x[0] == a && x[1] == '/' && x[2] == b && x[3] == 0 && y[0] == b && y[1] == 0, "a cut without delimiters has the remainder after each delimiter");
}
void lemma_cut_runs_p32_nf(char a, char b) {
    zv_assume(a != 0 && a != '/'); zv_assume(b != 0 && b != '/');
    char s[10] = { a, '/', '/', b, '/', 0 };
    for (int keep = 0; keep < 3; keep++) {
        zt_ptr_array *r = zt_cstr_cut(s, '/', keep);
        zv_check(r != NULL && r->count == 2, "each delimiter of a run cuts, one at the end does not");
        char *x = zt_ptr_array_get_idx(r, 0), *y = zt_ptr_array_get_idx(r, 1);
        if (keep) { zv_check(x[0] == '/', "the delimiter is kept when asked"); zv_check(y[0] == '/', "the delimiter is kept when asked, each"); x++; y++; }
        zv_check(x[0] == '/' && x[1] == b && x[2] == '/' && x[3] == 0, "the remainder after the first delimiter of a run has the others");
        zv_check(y[0] == b && y[1] == '/' && y[2] == 0, "the remainder after the last delimiter of a run is what follows");
        zv_check(zt_cstr_cut_free(r) == 0, "a cut can be freed");
    }
    char plain[3] = { a, b, 0 }, last[3] = { a, '/', 0 };
    zv_check(zt_cstr_cut(plain, '/', 0)->count == 0 && zt_cstr_cut(last, '/', 0)->count == 0 && zt_cstr_cut("", '/', 0)->count == 0, "nothing after a delimiter gives an empty list");
}
void lemma_split_runs_p32_nf(char a, char b) {
    zv_assume(a != 0 && a != ','); zv_assume(b != 0 && b != ',');
    char s[10] = { ',', ',', a, ',', ',', ',', b, a, ',', 0 };
    zt_ptr_array *r = zt_cstr_split(s, ",");
    zv_check(r != NULL && r->count == 2, "a run of delimiters splits once");
    char *x = zt_ptr_array_get_idx(r, 0), *y = zt_ptr_array_get_idx(r, 1);
    zv_check(x[0] == a && x[1] == 0 && y[0] == b && y[1] == a && y[2] == 0, "a run of delimiters is no part of a token");
    zv_check(s[0] == ',' && s[2] == a && s[3] == ',' && s[8] == ',', "a split leaves the string alone");
    zv_check(zt_cstr_split(",,", ",")->count == 0 && zt_cstr_split("", ",")->count == 0, "delimiters only split into nothing");
    r = zt_cstr_split(s, "");
    zv_check(r->count == 1 && !strcmp(zt_ptr_array_get_idx(r, 0), s), "without delimiters there is one token");
}
void lemma_tok_runs_p32_nf(char a, char b) {
    zv_assume(a != 0 && a != '/'); zv_assume(b != 0 && b != '/');
    char s[10] = { a, '/', '/', b, 0 };
    zt_ptr_array *r = zt_cstr_tok(s, '/', 0);
    zv_check(r != NULL && r->count == 3, "each delimiter of a run ends a token");
    char *w = zt_ptr_array_get_idx(r, 0), *x = zt_ptr_array_get_idx(r, 1), *y = zt_ptr_array_get_idx(r, 2);
    zv_check(!strcmp(w, s), "the first token is all of it");
    zv_check(x[0] == a && x[1] == '/' && x[2] == 0, "the text up to the last delimiter of a run has the others");
    zv_check(y[0] == a && y[1] == 0, "the text up to the first delimiter of a run has none");
}
void lemma_tok_p32_nf(char a, char b) {
    zv_assume(a != 0 && a != '/'); zv_assume(b != 0 && b != '/');
    char s[10] = { '/', a, '/', b, '/', 0 };
    zt_ptr_array *r = zt_cstr_tok(s, '/', 0);
    zv_check(r != NULL && r->count == 2, "tokens from the right: one per delimiter");
    char *x = zt_ptr_array_get_idx(r, 0), *y = zt_ptr_array_get_idx(r, 1);
    zv_check(x[0] == '/' && x[1] == a && x[2] == '/' && x[3] == b && x[4] == 0, "the first is everything up to the last delimiter");
    zv_check(y[0] == '/' && y[1] == a && y[2] == 0, "each next is shorter by its last part");
}
