#include "lemma.h"
#include <libzt/zt_sha1.h>
/* SHA-1 as FIPS 180 defines it, over a whole message of n bytes preceded by already hashed blocks */
static uint32_t H[5];
static uint32_t rot(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
static void block(const unsigned char *p) {
    uint32_t W[80], a = H[0], b = H[1], c = H[2], d = H[3], e = H[4];
    for (int i = 0; i < 16; i++) W[i] = (uint32_t)p[4 * i] << 24 | (uint32_t)p[4 * i + 1] << 16 | (uint32_t)p[4 * i + 2] << 8 | p[4 * i + 3];
    for (int i = 16; i < 80; i++) W[i] = rot(W[i - 3] ^ W[i - 8] ^ W[i - 14] ^ W[i - 16], 1);
    for (int i = 0; i < 80; i++) {
        uint32_t f, k;
        if (i < 20) { f = (b & c) | (~b & d); k = 0x5a827999; }
        else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
        else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdc; }
        else { f = b ^ c ^ d; k = 0xca62c1d6; }
        uint32_t t = rot(a, 5) + f + e + k + W[i];
        e = d; d = c; c = rot(b, 30); b = a; a = t;
    }
    H[0] += a; H[1] += b; H[2] += c; H[3] += d; H[4] += e;
}
static void start(void) { H[0] = 0x67452301; H[1] = 0xefcdab89; H[2] = 0x98badcfe; H[3] = 0x10325476; H[4] = 0xc3d2e1f0; }
static void finish(const unsigned char *m, int n, uint64_t bits) {
    unsigned char p[64];
    while (n >= 64) { block(m); m += 64; n -= 64; }
    for (int i = 0; i < 64; i++) p[i] = i < n ? m[i] : i == n ? 0x80 : 0;
    if (n >= 56) { block(p); for (int i = 0; i < 64; i++) p[i] = 0; }
    for (int i = 0; i < 8; i++) p[56 + i] = (unsigned char)(bits >> (56 - 8 * i));
    block(p);
}
static int is(const unsigned char *d) {
    int ok = 1;
    for (int i = 0; i < 20; i++) ok &= d[i] == (unsigned char)(H[i / 4] >> (24 - 8 * (i % 4)));
    return ok;
}
static void fill(unsigned char *m, int n) { for (int i = 0; i < n; i++) m[i] = (unsigned char)(i * 37 + (i >> 3) * 11 + 5); }
#define WHOLE(L) void lemma_whole##L##_p300(void) { \
    unsigned char m[L + 1], d[20]; \
    fill(m, L + 1); \
    start(); finish(m, L, (uint64_t)(L) * 8); \
    zt_sha1_data(m, L, d); \
    zv_check(is(d), "the digest of a message is its SHA-1"); \
    for (int i = 0; i <= L; i++) zv_check(m[i] == (unsigned char)(i * 37 + (i >> 3) * 11 + 5), "hashing leaves the message alone"); }
WHOLE(0) WHOLE(1) WHOLE(3) WHOLE(54) WHOLE(55) WHOLE(56) WHOLE(57) WHOLE(63) WHOLE(64) WHOLE(65) WHOLE(118) WHOLE(119) WHOLE(120) WHOLE(127) WHOLE(128) WHOLE(129) WHOLE(191) WHOLE(200) WHOLE(256)
/* the same message in pieces */
#define PIECES(L, A, B) void lemma_pieces##L##x##A##x##B##_p300(void) { \
    unsigned char m[L + 1], d[20]; zt_sha1_ctx c; \
    fill(m, L); \
    start(); finish(m, L, (uint64_t)(L) * 8); \
    zt_sha1_init(&c); \
    zt_sha1_update(&c, m, A); zt_sha1_update(&c, m + A, B); zt_sha1_update(&c, m + A + B, L - A - B); \
    zt_sha1_finalize(&c, d); \
    zv_check(is(d), "a message hashed in pieces has the digest of the whole"); \
    int z = 1; \
    for (unsigned i = 0; i < sizeof c; i++) z &= ((unsigned char *)&c)[i] == 0; \
    zv_check(z, "finishing wipes the state"); }
PIECES(3, 0, 1) PIECES(64, 1, 1) PIECES(64, 63, 1) PIECES(64, 32, 32) PIECES(65, 64, 0) PIECES(100, 64, 36) PIECES(100, 1, 63) PIECES(100, 10, 80) PIECES(128, 64, 64) PIECES(128, 1, 127) PIECES(150, 60, 4)
PIECES(150, 60, 70) PIECES(150, 63, 65) PIECES(192, 1, 190) PIECES(200, 5, 123) PIECES(200, 128, 8) PIECES(200, 0, 200) PIECES(200, 55, 9) PIECES(200, 56, 72)
/* lengths beyond 2^32 bits */
#define LONG(N, HI, LO, L) void lemma_long##N##_p300(void) { \
    unsigned char m[L + 1], d[20]; zt_sha1_ctx c; \
    fill(m, L); \
    start(); finish(m, L, ((uint64_t)(HI) << 32 | (LO)) + (uint64_t)(L) * 8); \
    zt_sha1_init(&c); c.count[1] = HI; c.count[0] = LO; \
    zt_sha1_update(&c, m, L); zt_sha1_finalize(&c, d); \
    zv_check(is(d), "the bit count carries into the upper word"); }
LONG(0, 0, 0xfffffe00u, 65) LONG(1, 3, 0xfffffe00u, 64) LONG(2, 7, 0, 10) LONG(3, 0, 0xfffffe00u, 63) LONG(4, 0x01020304, 0x05060800, 5)
void lemma_two_p300(void) {
    zt_sha1_ctx a, b; unsigned char m[70], x[20], y[20];
    fill(m, 70);
    zt_sha1_init(&a); zt_sha1_init(&b);
    zt_sha1_update(&a, m, 10); zt_sha1_update(&b, m, 65); zt_sha1_update(&a, m + 10, 60); zt_sha1_update(&b, m + 65, 2);
    zt_sha1_finalize(&a, x); zt_sha1_finalize(&b, y);
    start(); finish(m, 70, 560); zv_check(is(x), "contexts do not disturb each other");
    start(); finish(m, 67, 536); zv_check(is(y), "contexts do not disturb each other");
}
#define ANY(L, A) void lemma_any##L##x##A##_p300(void) { \
    unsigned char m[L], x[20], y[20]; zt_sha1_ctx c; int ok = 1; \
    for (int i = 0; i < L; i++) m[i] = (unsigned char)zv_int(); \
    zt_sha1_data(m, L, x); \
    zt_sha1_init(&c); zt_sha1_update(&c, m, A); zt_sha1_update(&c, m + A, L - A); zt_sha1_finalize(&c, y); \
    for (int i = 0; i < 20; i++) ok &= x[i] == y[i]; \
    zv_check(ok, "splitting any message does not change its digest"); }
ANY(5, 2)
void lemma_text_p60(void) {
    unsigned char d[20]; char s[41];
    for (int i = 0; i < 20; i++) d[i] = (unsigned char)zv_int();
    zv_check(zt_sha1_tostr(d, s) == s, "the text is returned");
    zv_check(s[40] == 0, "the text of a digest is terminated");
    for (int i = 0; i < 20; i++) {
        zv_check(s[2 * i] == "0123456789abcdef"[d[i] >> 4] && s[2 * i + 1] == "0123456789abcdef"[d[i] & 15], "a digest is written in hexadecimal");
    }
}
void lemma_back_p60(void) {
    for (int r = 0; r < 13; r++) {
        unsigned char d[20], e[20]; char s[41]; int ok = 1;
        for (int i = 0; i < 20; i++) d[i] = (unsigned char)(r * 20 + i);
        zt_sha1_tostr(d, s);
        zv_check(zt_str_tosha1(s, e) == e, "the digest is returned");
        for (int i = 0; i < 20; i++) ok &= e[i] == d[i];
        zv_check(ok, "reading the text back gives the digest");
    }
}
