#include "lemma.h"
#include <libzt/zt_uuid.h>
#include <libzt/zt_sha1.h>
static void any(zt_uuid_t *u) { for (int i = 0; i < 16; i++) u->data.bytes[i] = (unsigned char)zv_int(); }
static void pick(zt_uuid_t *u, int k) {
    for (int i = 0; i < 16; i++) u->data.bytes[i] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (unsigned char)(i * 17) : k == 3 ? (unsigned char)(0xfe - i * 29) :
        k == 4 ? (i == 7 || i == 15 ? 61 : 0) : k == 5 ? (i == 7 || i == 15 ? 62 : 0) : k == 6 ? (i == 0 || i == 8 ? 0x80 : 0) : (unsigned char)(i * i * 7 + k * 31);
}
static const char D[] = "0123456789abcdef";
#define VARIANT(u) zv_check(((u).data.bytes[8] & 0xc0) == 0x80, "the variant bits say RFC 4122")
/* whatever the generator draws; each thread has its own */
#include <pthread.h>
#include <sys/time.h>
static void *slot[2]; static int who, once, same;
int pthread_once(pthread_once_t *o, void (*fn)(void)) { if (!once) { once = 1; fn(); } return 0; }
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) { *k = 5; return 0; }
void *pthread_getspecific(pthread_key_t k) { return slot[who]; }
int pthread_setspecific(pthread_key_t k, const void *v) { slot[who] = (void *)v; return 0; }
int gettimeofday(struct timeval *t, void *z) { t->tv_sec = 1700000000; t->tv_usec = 17; return 0; }
time_t time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
static uint32_t drawn[4]; static int draws; static int seeded[2], early; static zt_random_state *state[2];
static uint32_t seed[2][8]; static size_t seedn[2];
uint32_t zt_random_uint32(zt_random_state *s) { if (!state[who]) state[who] = s; same |= s != state[who] || s == state[!who]; early |= !seeded[who]; return draws < 4 ? drawn[draws++] : 0; }
void zt_random_srandom(zt_random_state *s, uint32_t v) { seeded[who]++; state[who] = s; seed[who][0] = v; seedn[who] = 1; }
void zt_random_initstate(zt_random_state *s, uint32_t k[], size_t n) { seeded[who]++; state[who] = s; for (size_t i = 0; i < n && i < 8; i++) seed[who][i] = k[i]; seedn[who] = n; }
void lemma_four_p20_nf(void) {
    zt_uuid_t u, r; unsigned char *b = u.data.bytes;
    for (int i = 0; i < 4; i++) drawn[i] = (uint32_t)zv_int();
    memcpy(&r, drawn, 16);
    zv_check(zt_uuid4(&u) == 0, "a random uuid is made");
    zv_check((b[6] >> 4) == 4, "the version of a random uuid is 4"); VARIANT(u);
    zv_check(draws == 4 && seeded[0] == 1 && !early, "a random uuid draws all its bits from the seeded generator");
    for (int i = 0; i < 16; i++) {
        int m = i == 6 ? 15 : i == 8 ? 0x3f : 0xff;
        zv_check((b[i] & m) == (r.data.bytes[i] & m), "the other bits are the drawn ones");
    }
    draws = 0; zt_uuid4(&u);
    zv_check(seeded[0] == 1 && draws == 4, "the generator is seeded once");
}
static const unsigned char NS[16] = { 0x6b, 0xa7, 0xb8, 0x10, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8 };
#define FIVE(N, TY, LOW, L) void lemma_five##N##_p100(void) { \
    zt_uuid_t u, w; unsigned char m[16 + L], d[20]; int ok = 1; \
    memcpy(m, NS, 16); m[3] = LOW; \
    for (int i = 0; i < L; i++) m[16 + i] = (unsigned char)('a' + i % 26); \
    zt_sha1_data(m, 16 + L, d); \
    zv_check(zt_uuid5((char *)m + 16, L, TY, &u) == 0, "a name based uuid is made"); \
    zv_check((u.data.bytes[6] >> 4) == 5, "the version of a name based uuid is 5"); VARIANT(u); \
    for (int i = 0; i < 16; i++) ok &= u.data.bytes[i] == (i == 6 ? (d[i] & 15) | 0x50 : i == 8 ? (d[i] & 0x3f) | 0x80 : d[i]); \
    zv_check(ok, "a name based uuid is the SHA-1 of name space and name"); \
    zt_uuid5((char *)m + 16, L, TY, &w); \
    zv_check(zt_uuid_cmp(&u, &w) == 0, "a name gives the same uuid again"); }
static const unsigned char ZEROS[6] = { 0, 'a', 0, 0, 'b', 0 };
void lemma_fivezero_p100(void) {
    zt_uuid_t u; unsigned char m[22], d[20]; int ok = 1;
    memcpy(m, NS, 16); memcpy(m + 16, ZEROS, 6);
    zt_sha1_data(m, 22, d);
    zv_check(zt_uuid5((char *)m + 16, 6, UUID_NS_DNS, &u) == 0, "a name with zero bytes is taken");
    for (int i = 0; i < 16; i++) ok &= u.data.bytes[i] == (i == 6 ? (d[i] & 15) | 0x50 : i == 8 ? (d[i] & 0x3f) | 0x80 : d[i]);
    zv_check(ok, "all bytes of the name count, zero or not");
}
FIVE(0, UUID_NS_DNS, 0x10, 5) FIVE(1, UUID_NS_URL, 0x11, 40) FIVE(2, UUID_NS_OID, 0x12, 1) FIVE(3, UUID_NS_X500, 0x14, 60) FIVE(4, UUID_NS_DNS, 0x10, 0)
void lemma_five_bad_p100(void) { zt_uuid_t u; zv_check(zt_uuid5("x", 1, (zt_uuid_ns)9, &u) == -1, "an unknown name space is refused"); }
/* the text forms */
void lemma_std_p70_nf(void) {
    zt_uuid_t u; char *s = NULL;
    any(&u);
    zv_check(zt_uuid_tostr(&u, &s, zt_uuid_std_fmt) == 36 && s != NULL, "the standard form has 36 characters");
    zv_check(s[36] == 0, "the standard form is terminated");
    zv_check(s[8] == '-' && s[13] == '-' && s[18] == '-' && s[23] == '-', "the standard form is grouped 8-4-4-4-12");
    int at = 0, ok = 1;
    for (int i = 0; i < 16; i++) {
        if (i == 4 || i == 6 || i == 8 || i == 10) at++;
        ok &= s[at] == D[u.data.bytes[i] >> 4] && s[at + 1] == D[u.data.bytes[i] & 15]; at += 2;
    }
    zv_check(ok, "the standard form is the bytes in hexadecimal");
    free(s);
    zv_check(zt_uuid_tostr(&u, &s, zt_uuid_short_fmt) == 32 && s[32] == 0, "the short form has 32 characters");
    ok = 1;
    for (int i = 0; i < 16; i++) ok &= s[2 * i] == D[u.data.bytes[i] >> 4] && s[2 * i + 1] == D[u.data.bytes[i] & 15];
    zv_check(ok, "the short form is the bytes in hexadecimal");
    free(s);
}
#define BACK(K) void lemma_back##K##_p70_nf(void) { \
    zt_uuid_t u, w; char *s; \
    pick(&u, K); \
    for (int f = 0; f < 4; f++) { \
        static const int len[4] = { 36, 32, 22, 22 }; \
        zv_check(zt_uuid_tostr(&u, &s, (zt_uuid_flags_t)f) == len[f] && s[len[f]] == 0, "each form has its length"); \
        zv_check(zt_uuid_isvalid(s, (zt_uuid_flags_t)f) == 0, "a written uuid is valid"); \
        zv_check(zt_uuid_isvalid(s, (zt_uuid_flags_t)(f == 0 ? 1 : 0)) != 0, "a uuid in another form is not valid"); \
        memset(&w, 0x5a, sizeof w); \
        zv_check(zt_uuid_fromstr(s, &w, (zt_uuid_flags_t)f) == 0, "a written uuid is read back"); \
        zv_check(zt_uuid_cmp(&u, &w) == 0, "reading a written uuid gives the same uuid"); \
        char c = s[5]; s[5] = '!'; \
        zv_check(zt_uuid_isvalid(s, (zt_uuid_flags_t)f) != 0, "a strange character is not valid"); \
        zv_check(zt_uuid_fromstr(s, &w, (zt_uuid_flags_t)f) != 0, "a strange character is not read"); \
        s[5] = c; s[len[f] - 1] = 0; \
        zv_check(zt_uuid_isvalid(s, (zt_uuid_flags_t)f) != 0 && zt_uuid_fromstr(s, &w, (zt_uuid_flags_t)f) != 0, "a truncated uuid is neither valid nor read"); \
        free(s); \
    } }
BACK(0) BACK(1) BACK(2) BACK(3) BACK(4) BACK(5) BACK(6) BACK(7) BACK(8) BACK(9)
static const char B62[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
#define SIXTY(K) void lemma_base62x##K##_p70(void) { \
    zt_uuid_t u; char s[24], h[24]; size_t n = 24, n2 = 24; int ok = 1, rev = 1; \
    pick(&u, K); \
    zv_check(zt_uuid_fillstr(&u, s, &n, zt_uuid_base62_fmt) == 22 && s[22] == 0, "the base 62 form has 22 characters"); \
    zv_check(zt_uuid_fillstr(&u, h, &n2, zt_uuid_base62_hashable_fmt) == 22 && h[22] == 0, "the hashable form has 22 characters"); \
    for (int half = 0; half < 2; half++) { \
        uint64_t v = 0; \
        for (int i = 0; i < 8; i++) v = v << 8 | u.data.bytes[half * 8 + i]; \
        for (int i = 10; i >= 0; i--) { ok &= s[half * 11 + i] == B62[v % 62]; v /= 62; } \
    } \
    zv_check(ok, "each half is written in base 62"); \
    for (int i = 0; i < 11; i++) rev &= h[i] == s[10 - i] && h[11 + i] == s[11 + i]; \
    zv_check(rev, "the hashable form has its first half reversed"); }
SIXTY(0) SIXTY(1) SIXTY(2) SIXTY(3) SIXTY(4) SIXTY(5) SIXTY(6) SIXTY(7)
void lemma_room_p70(void) {
    zt_uuid_t u; char s[40]; 
    pick(&u, 2);
    static const size_t need[4] = { 37, 33, 23, 23 };
    for (int f = 0; f < 4; f++) {
        size_t n = 0;
        zv_check(zt_uuid_fillstr(&u, NULL, &n, (zt_uuid_flags_t)f) == 0 && n == need[f], "the room needed is reported");
        n = need[f] - 1; s[0] = 'Q';
        zv_check(zt_uuid_fillstr(&u, s, &n, (zt_uuid_flags_t)f) == 0 && n == need[f] && s[0] == 'Q', "too little room is reported and nothing written");
        for (int i = 0; i < 40; i++) s[i] = 'Q';
        n = need[f];
        zv_check(zt_uuid_fillstr(&u, s, &n, (zt_uuid_flags_t)f) == (long)need[f] - 1, "just enough room is enough");
        zv_check(s[need[f] - 1] == 0 && s[need[f]] == 'Q', "no more than the room is written");
    }
    zv_check(zt_uuid_fillstr(&u, s, NULL, zt_uuid_std_fmt) < 0, "a size is required");
    zv_check(zt_uuid_tostr(NULL, NULL, zt_uuid_std_fmt) < 0, "arguments are required");
}
void lemma_cmp_p20(void) {
    zt_uuid_t a, b;
    pick(&a, 3); pick(&b, 3);
    zv_check(zt_uuid_cmp(&a, &b) == 0, "equal uuids compare equal");
    for (int i = 0; i < 16; i++) {
        b.data.bytes[i]++;
        zv_check(zt_uuid_cmp(&a, &b) < 0 && zt_uuid_cmp(&b, &a) > 0, "every byte counts in a comparison");
        b.data.bytes[i]--;
    }
}
#define UPPER "6BA7B810-9DAD-11D1-80B4-00C04FD430C8"
void lemma_read_p70(void) {
    zt_uuid_t u;
    zv_check(zt_uuid_isvalid(UPPER, zt_uuid_std_fmt) == 0 && zt_uuid_fromstr(UPPER, &u, zt_uuid_std_fmt) == 0, "upper case digits are read");
    zv_check(memcmp(u.data.bytes, NS, 16) == 0, "upper case digits have the value of the lower case ones");
    zv_check(zt_uuid_isvalid("6ba7b8109-dad-11d1-80b4-00c04fd430c8", zt_uuid_std_fmt) != 0, "misplaced dashes are not valid");
    zv_check(zt_uuid_isvalid("6ba7b810-9dad-11d1-80b4000c04fd430c8", zt_uuid_std_fmt) != 0, "a missing dash is not valid");
    zv_check(zt_uuid_isvalid("6ba7b810-9dad-11d1-80b4-00c04fd430c", zt_uuid_std_fmt) != 0 && zt_uuid_isvalid("6ba7b810-9dad-11d1-80b4-00c04fd430c88", zt_uuid_std_fmt) != 0, "the length counts");
    zv_check(zt_uuid_isvalid("6ba7b810-9dad-11d1-80b4-00c04fd430cg", zt_uuid_std_fmt) != 0 && zt_uuid_isvalid("6ba7b8109dad11d180b400c04fd430cg", zt_uuid_short_fmt) != 0, "only hexadecimal digits are valid");
    zv_check(zt_uuid_isvalid("000000000000000000000-", zt_uuid_base62_fmt) != 0 && zt_uuid_isvalid(NULL, zt_uuid_std_fmt) != 0, "only the alphabet is valid");
}
/* the largest halves are read, what is beyond them is not */
void lemma_beyond_p70(void) {
    zt_uuid_t u;
    static const char *const TOO[6] = { "lYGhA16ahyg00000000000", "00000000000lYGhA16ahyg", "ZZZZZZZZZZZ00000000000", "00000000000ZZZZZZZZZZZ", "ZZZZZZZZZZZZZZZZZZZZZZ", "lYGhA16ahyelYGhA16ahyg" };
    memset(&u, 0, sizeof u);
    zv_check(zt_uuid_fromstr("lYGhA16ahyflYGhA16ahye", &u, zt_uuid_base62_fmt) == 0, "the largest uuid is read");
    int ok = 1;
    for (int i = 0; i < 16; i++) ok &= u.data.bytes[i] == (i == 15 ? 0xfe : 0xff);
    zv_check(ok, "the largest uuid is read with every digit");
    for (int i = 0; i < 6; i++) zv_check(zt_uuid_fromstr(TOO[i], &u, zt_uuid_base62_fmt) != 0, "a text beyond the largest uuid is not read");
    zv_check(zt_uuid_fromstr("gyha61AhGYl00000000000", &u, zt_uuid_base62_hashable_fmt) != 0, "a hashable text beyond the largest uuid is not read");
}
