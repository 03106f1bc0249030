#include "lemma.h"
/* the alphabets of RFC 4648 */
#define A64 "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
#define A64U "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
#define A32 "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
#define A32H "0123456789ABCDEFGHIJKLMNOPQRSTUV"
#define A16 "0123456789ABCDEF"
typedef zt_base_definition_t def;
/* encoding of n bytes against the bit string of RFC 4648: character k is the alphabet entry of bits k*w .. k*w+w-1 */
static void enc(def *d, const char *al, int w, int group, int pad, const unsigned char *in, int n) {
    unsigned char out[32];
    void *o = out;
    size_t len = sizeof(out);
    memset(out, 0x7f, sizeof(out));
    int chars = (n * 8 + w - 1) / w, full = pad ? (chars + group - 1) / group * group : chars;
    zv_check(zt_base_encode(d, in, n, &o, &len) == 0, "encoding into enough room succeeds");
    zv_check(o == out && len == (size_t)full, "the encoded size is the one of the standard");
    unsigned long bits = 0;
    for (int k = 0; k < 5; k++) bits = bits << 8 | (k < n ? in[k] : 0);
    /* 40 bits; with six bit characters only the first 36 are used by up to four bytes */
    for (int k = 0; k < chars; k++)
        zv_check(out[k] == (unsigned char)al[(bits >> (40 - w * (k + 1))) & ((1 << w) - 1)], "each character is the alphabet entry of its bits");
    for (int k = chars; k < full; k++) zv_check(out[k] == '=', "the last group is padded");
    zv_check(out[full] == 0x7f, "encoding writes no more than the encoded size");
    len = full - 1;
    o = out;
    zv_check(zt_base_encode(d, in, n, &o, &len) == -2 && len == (size_t)full, "too little room is refused and the size reported");
    len = full;
    zv_check(zt_base_encode(d, in, n, NULL, &len) == 0 && len == (size_t)full, "the size is reported without output");
    o = NULL;
    len = 0;
    zv_check(zt_base_encode(d, in, n, &o, &len) == 0 && o != NULL && len == (size_t)full, "the output is allocated when none is given");
}
#define ENC(nm, def, al, w, g, pad) \
    void lemma_enc_##nm##_p40_nf(unsigned char a, unsigned char b, unsigned char c, unsigned char d, unsigned char e) { \
        unsigned char in[5] = {a, b, c, d, e}; \
        int n = zv_int(); zv_assume(n >= 1 && n <= (w == 6 ? 4 : 5)); \
        for (int k = 1; k <= 5; k++) if (n == k) enc(def, al, w, g, pad, in, k); }
ENC(64, zt_base64_rfc, A64, 6, 4, 1)
ENC(64np, zt_base64_rfc_nopad, A64, 6, 4, 0)
ENC(64u, zt_base64_uri, A64U, 6, 4, 1)
ENC(32, zt_base32_rfc, A32, 5, 8, 1)
ENC(32h, zt_base32_hex, A32H, 5, 8, 1)
ENC(16, zt_base16_rfc, A16, 4, 2, 0)
/* decoding inverts encoding */
static void trip(def *d, const unsigned char *in, int n) {
    unsigned char out[32], back[24];
    void *o = out, *q = back;
    size_t len = sizeof(out), bl = sizeof(back);
    zt_base_encode(d, in, n, &o, &len);
    memset(back, 0x55, sizeof(back));
    zv_check(zt_base_decode(d, out, len, &q, &bl) == 0, "an encoding decodes");
    zv_check(q == back && bl == (size_t)n, "decoding restores the length");
    for (int k = 0; k < n; k++) zv_check(back[k] == in[k], "decoding restores every byte");
    zv_check(back[n] == 0x55, "decoding writes no more than it decoded");
    q = NULL;
    bl = 0;
    zv_check(zt_base_decode(d, out, len, &q, &bl) == 0 && q != NULL && bl == (size_t)n, "decoding allocates when no output is given");
    zv_check(((char *)q)[0] == (char)in[0] && ((char *)q)[n] == 0, "an allocated decoding is terminated");
}
#define TRIP(nm, def, max) \
    void lemma_trip_##nm##_p40_nf(unsigned char a, unsigned char b, unsigned char c, unsigned char d, unsigned char e, unsigned char f, unsigned char g) { \
        unsigned char in[7] = {a, b, c, d, e, f, g}; \
        int n = zv_int(); zv_assume(n >= 1 && n <= max); \
        for (int k = 1; k <= max; k++) if (n == k) trip(def, in, k); }
TRIP(64, zt_base64_rfc, 6)
TRIP(64np, zt_base64_rfc_nopad, 6)
TRIP(64u, zt_base64_uri, 6)
TRIP(32, zt_base32_rfc, 7)
TRIP(32h, zt_base32_hex, 7)
TRIP(16, zt_base16_rfc, 4)
/* characters outside the alphabet */
static int in64(unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/'; }
static int in64u(unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-' || c == '_'; }
static int in32(unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= '2' && c <= '7'); }
static int in32h(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'V'); }
static int in16(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'); }
static int blank(unsigned char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '='; }
static void bad(def *d, int member, int skip, unsigned char c, const char *group, int n, int whole) {
    unsigned char in[10], out[16];
    void *q = out;
    size_t bl = sizeof(out);
    /* a whole group with c in front, in the middle and behind */
    for (int p = 0; p <= n; p += n / 2) {
        for (int k = 0, j = 0; k <= n; k++) in[k] = k == p ? c : group[j++];
        memset(out, 0x55, sizeof(out));
        q = out;
        bl = sizeof(out);
        int r = zt_base_decode(d, in, n + 1, &q, &bl);
        if (skip) {
            zv_check(r == 0 && bl == (size_t)whole, "white space and padding are skipped");
            zv_check(out[whole] == 0x55, "decoding writes no more than it decoded");
        } else if (!member)
            zv_check(r == -1, "a character outside the alphabet is refused");
        else
            zv_check(r == -1 || n > 2, "a left over character is refused");
    }
    q = out;
    bl = whole - 1;
    zv_check(zt_base_decode(d, group, n, &q, &bl) == -2 && bl == (size_t)whole, "too little room for the decoding is refused and the size reported");
    bl = 0;
    zv_check(zt_base_decode(d, group, n, NULL, &bl) == 0 && bl >= (size_t)whole, "the size to decode to is reported");
}
#define BAD(nm, def, member, group, n, whole) \
    void lemma_bad_##nm##_p40_nf(unsigned char c) { bad(def, member(c), blank(c), c, group, n, whole); }
BAD(64, zt_base64_rfc, in64, "QUJD", 4, 3)
BAD(64np, zt_base64_rfc_nopad, in64, "QUJD", 4, 3)
BAD(64u, zt_base64_uri, in64u, "QUJD", 4, 3)
BAD(32, zt_base32_rfc, in32, "MFRGGZDF", 8, 5)
BAD(32h, zt_base32_hex, in32h, "C5H66P35", 8, 5)
BAD(16, zt_base16_rfc, in16, "41", 2, 1)
static void odd(def *d, const char *s, int n) {
    unsigned char out[16];
    void *q = out;
    size_t bl = sizeof(out);
    zv_check(zt_base_decode(d, s, n, &q, &bl) == -1, "an incomplete group is refused");
}
void lemma_odd_p40_nf(void) {
    odd(zt_base64_rfc, "QUJDQ", 5);
    odd(zt_base64_uri, "Q===", 4);
    odd(zt_base32_rfc, "M=======", 8);
    odd(zt_base32_rfc, "MFR=====", 8);
    odd(zt_base32_hex, "C5H66P==", 8);
    odd(zt_base16_rfc, "414", 3);
}
void lemma_args_p40_nf(void) {
    size_t n = 7;
    char in[4] = "QUI", *o = in;
    zv_check(zt_base_encode(NULL, in, 3, (void **)&o, &n) == -1 && zt_base_decode(NULL, in, 3, (void **)&o, &n) == -1, "a missing definition is refused");
    zv_check(zt_base_encode(zt_base64_rfc, in, 3, (void **)&o, NULL) == -1 && zt_base_decode(zt_base64_rfc, in, 3, (void **)&o, NULL) == -1, "a missing size is refused");
    zv_check(zt_base_encode(zt_base64_rfc, NULL, 3, (void **)&o, &n) == 0 && n == 0, "no input encodes to nothing");
    n = 7;
    zv_check(zt_base_decode(zt_base64_rfc, in, 0, (void **)&o, &n) == 0 && n == 0, "no input decodes to nothing");
}
