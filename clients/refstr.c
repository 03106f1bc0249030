/* What the C library's string routines do, for lemmas that build small strings of arbitrary characters. */
#include <errno.h>
#include <inttypes.h>
#include <stddef.h>
#include <stdlib.h>
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) {
    while (*a && *a == *b) { a++; b++; }
    return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) {
    while (n > 0) {
        if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
        if (!*a) return 0;
        a++; b++; n--;
    }
    return 0;
}
int memcmp(const void *x, const void *y, size_t n) {
    const unsigned char *a = x, *b = y;
    while (n > 0) {
        if (*a != *b) return *a < *b ? -1 : 1;
        a++; b++; n--;
    }
    return 0;
}
char *strchr(const char *s, int c) {
    for (;; s++) {
        if (*s == (char)c) return (char *)s;
        if (!*s) return NULL;
    }
}
void *memchr(const void *p, int c, size_t n) {
    const char *s = p;
    for (; n > 0; s++, n--) if (*s == (char)c) return (void *)s;
    return NULL;
}
char *strrchr(const char *s, int c) {
    const char *r = NULL;
    for (;; s++) {
        if (*s == (char)c) r = s;
        if (!*s) return (char *)r;
    }
}
size_t strspn(const char *s, const char *set) {
    size_t n = 0;
    while (s[n] && strchr(set, s[n])) n++;
    return n;
}
size_t strcspn(const char *s, const char *set) {
    size_t n = 0;
    while (s[n] && !strchr(set, s[n])) n++;
    return n;
}
char *strpbrk(const char *s, const char *set) {
    s += strcspn(s, set);
    return *s ? (char *)s : NULL;
}
char *strstr(const char *s, const char *t) {
    size_t n = strlen(t);
    for (;; s++) {
        if (strncmp(s, t, n) == 0) return (char *)s;
        if (!*s) return NULL;
    }
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) {
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) {
    char *e = d + strlen(d);
    while (n-- > 0 && *s) *e++ = *s++;
    *e = 0;
    return d;
}
char *strdup(const char *s) {
    char *r = malloc(strlen(s) + 1);
    if (r) strcpy(r, s);
    return r;
}
char *strtok_r(char *s, const char *delim, char **save) {
    char *e;
    if (s == NULL) s = *save;
    s += strspn(s, delim);
    if (!*s) { *save = s; return NULL; }
    e = s + strcspn(s, delim);
    if (*e) *e++ = 0;
    *save = e;
    return s;
}
/* numbers; errno is left to the caller's knowledge of the range */
static unsigned long number(const char *s, char **end, int base, int *neg, int *over) {
    const char *p = s; unsigned long v = 0; int any = 0;
    *neg = *over = 0;
    while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++;
    if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') &&
        ((p[2] >= '0' && p[2] <= '9') || (p[2] >= 'a' && p[2] <= 'f') || (p[2] >= 'A' && p[2] <= 'F'))) { base = 16; p += 2; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    for (;; p++) {
        int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99;
        if (d >= base) break;
        if (v > (~0UL - (unsigned long)d) / (unsigned long)base) *over = 1; else v = v * (unsigned long)base + (unsigned long)d;
        any = 1;
    }
    if (end) *end = (char *)(any ? p : s);
    return any ? v : 0;
}
long strtol(const char *s, char **end, int base) {
    int neg, over; unsigned long v = number(s, end, base, &neg, &over);
    if (over || v > 0x7fffffffffffffffUL + (unsigned long)neg) { errno = ERANGE; return neg ? (long)(1UL << 63) : 0x7fffffffffffffffL; }
    return (long)(neg ? 0 - v : v);
}
long long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long strtoul(const char *s, char **end, int base) {
    int neg, over; unsigned long v = number(s, end, base, &neg, &over);
    if (over) { errno = ERANGE; return ~0UL; }
    return neg ? 0 - v : v;
}
unsigned long long strtoull(const char *s, char **end, int base) { return strtoul(s, end, base); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) {
    while (*a && low(*a) == low(*b)) { a++; b++; }
    return low((unsigned char)*a) - low((unsigned char)*b);
}
int strncasecmp(const char *a, const char *b, size_t n) {
    for (; n > 0; a++, b++, n--) {
        if (low(*a) != low(*b)) return low((unsigned char)*a) - low((unsigned char)*b);
        if (!*a) return 0;
    }
    return 0;
}
intmax_t strtoimax(const char *s, char **end, int base) { return strtol(s, end, base); }
/* what a rewrite of the library might use instead */
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memrchr(const void *p, int c, size_t n) {
    const char *s = p;
    while (n > 0) { n--; if (s[n] == (char)c) return (void *)(s + n); }
    return NULL;
}
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
char *index(const char *s, int c) { return strchr(s, c); }
char *rindex(const char *s, int c) { return strrchr(s, c); }
char *stpcpy(char *d, const char *s) { while ((*d = *s++)) d++; return d; }
void *mempcpy(void *d, const void *s, size_t n) { __builtin_memcpy(d, s, n); return (char *)d + n; }
void *memmem(const void *h, size_t n, const void *w, size_t k) {
    const char *p = h;
    for (; n >= k; p++, n--) if (memcmp(p, w, k) == 0) return (void *)p;
    return NULL;
}
char *strcasestr(const char *s, const char *t) {
    size_t n = strlen(t);
    for (;; s++) {
        if (strncasecmp(s, t, n) == 0) return (char *)s;
        if (!*s) return NULL;
    }
}
char *strndup(const char *s, size_t n) {
    size_t i, k = strnlen(s, n); char *r = malloc(k + 1);
    if (r) { for (i = 0; i < k; i++) r[i] = s[i]; r[k] = 0; }
    return r;
}
char *strsep(char **at, const char *delim) {
    char *s = *at, *e;
    if (s == NULL) return NULL;
    e = s + strcspn(s, delim);
    if (*e) { *e = 0; *at = e + 1; } else *at = NULL;
    return s;
}
static char *tok_at;
char *strtok(char *s, const char *delim) { return strtok_r(s, delim, &tok_at); }
