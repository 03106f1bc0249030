/* What the C library's formatted output and input do with the conversions the library uses (no floating point). */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
/* what went to streams and descriptors, one text after the other; zv_out_len counts even what does not fit */
char zv_out[4096];
int zv_out_len;
FILE *zv_out_file;
/* how a real number is written: what the client says */
const char *(*zv_real)(double v, int conversion, int precision);
#define PUT(c) do { if (at + 1 < size) dst[at] = (c); at++; } while (0)
static int fmt(char *dst, size_t size, const char *f, va_list ap) {
    size_t at = 0;
    while (*f) {
        int left = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0;
        if (*f != '%') { PUT(*f); f++; continue; }
        f++;
        for (;; f++) {
            if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break;
        }
        if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; }
        else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') {
            f++; prec = 0;
            if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0');
        }
        for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng = 2; else if (*f == 'h') lng--; else break; }
        if (*f == 'f' || *f == 'e' || *f == 'g') {
            const char *s = zv_real(va_arg(ap, double), *f, prec < 0 ? 6 : prec); int n = 0, sign = *s == '-';
            while (s[n]) n++;
            int all = n + ((plus || space) && !sign);
            if (!left && !zero) for (int i = all; i < width; i++) PUT(' ');
            if (sign) { PUT('-'); s++; n--; } else if (plus) PUT('+'); else if (space) PUT(' ');
            if (!left && zero) for (int i = all; i < width; i++) PUT('0');
            for (int i = 0; i < n; i++) PUT(s[i]);
            if (left) for (int i = all; i < width; i++) PUT(' ');
        } else if (*f == 's' || *f == 'c' || *f == '%') {
            const char *s; char one[1]; int n = 0;
            if (*f == 's') {
                s = va_arg(ap, const char *);
                if (s == NULL) s = "(null)";
                while ((prec < 0 || n < prec) && s[n]) n++;
            } else { one[0] = *f == 'c' ? (char)va_arg(ap, int) : '%'; s = one; n = 1; }
            if (!left) for (int i = n; i < width; i++) PUT(' ');
            for (int i = 0; i < n; i++) PUT(s[i]);
            if (left) for (int i = n; i < width; i++) PUT(' ');
        } else {
            char d[24]; int n = 0, neg = 0, base = 10, pre = 0; unsigned long v;
            const char *dig = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
            if (*f == 'd' || *f == 'i') {
                long x = lng > 0 ? va_arg(ap, long) : lng == 0 ? va_arg(ap, int) : lng == -1 ? (short)va_arg(ap, int) : (signed char)va_arg(ap, int);
                neg = x < 0; v = neg ? 0 - (unsigned long)x : (unsigned long)x;
            } else {
                v = *f == 'p' || lng > 0 ? va_arg(ap, unsigned long) : lng == 0 ? va_arg(ap, unsigned) : lng == -1 ? (unsigned short)va_arg(ap, unsigned) : (unsigned char)va_arg(ap, unsigned);
                plus = space = 0;
                if (*f == 'x' || *f == 'X' || *f == 'p') { base = 16; pre = (*f == 'p' || (alt && v)) ? 2 : 0; }
                else if (*f == 'o') base = 8;
            }
            while (v) { d[n++] = dig[v % base]; v /= base; }
            if (n == 0 && prec != 0) d[n++] = '0';
            int digits = n, sign = neg || plus || space;
            if (prec > digits) digits = prec;
            if (zero && !left && prec < 0 && width - sign - pre > digits) digits = width - sign - pre;
            if (!left) for (int i = digits + sign + pre; i < width; i++) PUT(' ');
            if (sign) PUT(neg ? '-' : plus ? '+' : ' ');
            if (pre) { PUT('0'); PUT(*f == 'X' ? 'X' : 'x'); }
            for (int i = n; i < digits; i++) PUT('0');
            while (n > 0) { n--; PUT(d[n]); }
            if (left) for (int i = digits + sign + pre; i < width; i++) PUT(' ');
        }
        f++;
    }
    if (size) dst[at < size ? at : size - 1] = 0;
    return (int)at;
}
int vsnprintf(char *d, size_t n, const char *f, va_list ap) { return fmt(d, n, f, ap); }
int snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = fmt(d, n, f, ap); va_end(ap); return r; }
int vsprintf(char *d, const char *f, va_list ap) { return fmt(d, 1 << 30, f, ap); }
int sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = fmt(d, 1 << 30, f, ap); va_end(ap); return r; }
int vasprintf(char **p, const char *f, va_list ap) {
    char t[1024]; int n = fmt(t, sizeof t, f, ap);
    char *r = malloc(n + 1);
    if (!r) return -1;
    for (int i = 0; i <= n; i++) r[i] = t[i];
    *p = r;
    return n;
}
int asprintf(char **p, const char *f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(p, f, ap); va_end(ap); return r; }
static int out(FILE *to, const char *f, va_list ap) {
    int n = fmt(zv_out + zv_out_len, sizeof zv_out - zv_out_len, f, ap);
    zv_out_len += n; zv_out_file = to;
    return n;
}
int vprintf(const char *f, va_list ap) { return out(stdout, f, ap); }
int printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = out(stdout, f, ap); va_end(ap); return r; }
int vfprintf(FILE *to, const char *f, va_list ap) { return out(to, f, ap); }
int fprintf(FILE *to, const char *f, ...) { va_list ap; va_start(ap, f); int r = out(to, f, ap); va_end(ap); return r; }
int fputs(const char *s, FILE *to) { for (; *s; s++) if (zv_out_len + 1 < (int)sizeof zv_out) zv_out[zv_out_len++] = *s; zv_out[zv_out_len] = 0; zv_out_file = to; return 1; }
int puts(const char *s) { fputs(s, stdout); fputs("\n", stdout); return 1; }
int fputc(int c, FILE *to) { char b[2]; b[0] = (char)c; b[1] = 0; fputs(b, to); return (unsigned char)c; }
int putc(int c, FILE *to) { return fputc(c, to); }
int putchar(int c) { return fputc(c, stdout); }
static int blank(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
int sscanf(const char *s, const char *f, ...) {
    va_list ap; int got = 0;
    va_start(ap, f);
    while (*f) {
        if (blank(*f)) { while (blank(*s)) s++; f++; continue; }
        if (*f != '%') { if (*s != *f) break; s++; f++; continue; }
        f++;
        int width = 0, lng = 0;
        while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        while (*f == 'l' || *f == 'h') { lng += *f == 'l' ? 1 : -1; f++; }
        while (blank(*s)) s++;
        if (!*s) { if (!got) got = -1; break; }
        if (*f == 's') {
            char *d = va_arg(ap, char *); int n = 0;
            while (*s && !blank(*s) && (!width || n < width)) d[n++] = *s++;
            d[n] = 0;
        } else {
            long v = 0; int n = 0, neg = 0, base = *f == 'x' || *f == 'X' ? 16 : 10;
            if (*s == '-' || *s == '+') { neg = *s == '-'; s++; n++; }
            int digits = 0;
            for (; !width || n < width; s++, n++, digits++) {
                int c = *s, k = c >= '0' && c <= '9' ? c - '0' : base == 16 && c >= 'a' && c <= 'f' ? c - 'a' + 10 : base == 16 && c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
                if (k < 0) break;
                v = v * base + k;
            }
            if (!digits) break;
            if (neg) v = -v;
            if (lng > 0) *va_arg(ap, long *) = v; else if (lng == 0) *va_arg(ap, int *) = (int)v; else if (lng == -1) *va_arg(ap, short *) = (short)v; else *va_arg(ap, signed char *) = (signed char)v;
        }
        got++; f++;
    }
    va_end(ap);
    return got;
}
