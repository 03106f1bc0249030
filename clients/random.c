#include "lemma.h"
/* the Mersenne Twister MT19937, stated here from its definition */
static uint32_t M[624]; static int at;
static void seed(uint32_t s) { M[0] = s; for (uint32_t i = 1; i < 624; i++) M[i] = 1812433253u * (M[i - 1] ^ (M[i - 1] >> 30)) + i; at = 624; }
static void turn(void) {
    for (int k = 0; k < 624; k++) {
        uint32_t y = (M[k] & 0x80000000u) | (M[(k + 1) % 624] & 0x7fffffffu);
        M[k] = M[(k + 397) % 624] ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0);
    }
    at = 0;
}
static uint32_t temper(uint32_t y) {
    y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; return y ^ (y >> 18);
}
static uint32_t draw(void) { if (at == 624) turn(); return temper(M[at++]); }
static void keyed(const uint32_t *key, uint32_t n) {
    uint32_t i = 1, j = 0;
    seed(19650218u);
    for (uint32_t k = n > 624 ? n : 624; k; k--) {
        M[i] = (M[i] ^ ((M[i - 1] ^ (M[i - 1] >> 30)) * 1664525u)) + key[j] + j;
        if (++i == 624) { M[0] = M[623]; i = 1; }
        if (++j == n) j = 0;
    }
    for (uint32_t k = 623; k; k--) {
        M[i] = (M[i] ^ ((M[i - 1] ^ (M[i - 1] >> 30)) * 1566083941u)) - i;
        if (++i == 624) { M[0] = M[623]; i = 1; }
    }
    M[0] = 0x80000000u;
}
void lemma_seed_p700(void) {
    zt_random_state s; uint32_t v = (uint32_t)zv_int();
    zt_random_srandom(&s, v); seed(v);
    int ok = s.mti == 624;
    for (int i = 0; i < 624; i++) ok &= s.mt[i] == M[i];
    zv_check(ok, "seeding gives the generator's initial state, for every seed");
    uint32_t a = zt_random_uint32(&s);
    zv_check(s.mti == 1, "drawing advances by one");
    (void)a;
}
void lemma_temper(void) {
    zt_random_state s; uint32_t v = (uint32_t)zv_int(), w = (uint32_t)zv_int();
    zt_random_srandom(&s, 1);
    s.mti = 5; s.mt[5] = v; s.mt[6] = w;
    zv_check(zt_random_uint32(&s) == temper(v) && zt_random_uint32(&s) == temper(w), "each drawn value is the tempered state word");
    zv_check(s.mti == 7 && s.mt[5] == v && s.mt[6] == w, "drawing only advances within a block");
}
#define STREAM(N, V) void lemma_stream##N##_p1400(void) { \
    zt_random_state s; int ok = 1; \
    zt_random_srandom(&s, V); seed(V); \
    for (int i = 0; i < 1300; i++) ok &= zt_random_uint32(&s) == draw(); \
    zv_check(ok, "a seed gives the MT19937 stream, across blocks"); \
    zt_random_srandom(&s, V); seed(V); \
    zv_check(zt_random_uint32(&s) == draw(), "seeding again restarts the stream"); }
STREAM(0, 5489u) STREAM(1, 1u) STREAM(2, 0u) STREAM(3, 0xffffffffu)
#define KEYED(N, L, ...) void lemma_keyed##N##_p1400(void) { \
    zt_random_state s; int ok; uint32_t k[L] = { __VA_ARGS__ }; \
    zt_random_initstate(&s, k, L); keyed(k, L); \
    ok = s.mti == 624; \
    for (int i = 0; i < 624; i++) ok &= s.mt[i] == M[i]; \
    zv_check(ok, "a key gives the generator's keyed initial state"); \
    for (int i = 0; i < 3; i++) ok &= zt_random_uint32(&s) == draw(); \
    zv_check(ok, "a key gives the keyed MT19937 stream"); }
KEYED(0, 4, 0x123, 0x234, 0x345, 0x456) KEYED(1, 1, 7) KEYED(2, 700, 1, 2, 3, [623] = 9, [650] = 77)
static unsigned long now; static int clocked;
long time(long *p) { clocked++; return (long)now; }
void lemma_unseeded_p700(void) {
    zt_random_state s; memset(&s, 0, sizeof s);
    now = 12345;
    seed(12345); turn();
    zv_check(zt_random_uint32(&s) == temper(M[0]), "an unseeded generator seeds itself from the clock");
    zv_check(clocked == 1 && zt_random_uint32(&s) == temper(M[1]) && clocked == 1, "it does so once");
}
