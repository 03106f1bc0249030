#include "lemma.h"
/* FNV-1: for each byte, xor it in, then multiply by the prime (the library folds with xor first, FNV-1a) */
#define OFF32 2166136261u
#define PR32 16777619u
#define OFF64 14695981039346656037ull
#define PR64 1099511628211ull
static uint32_t ref32(const unsigned char *b, int n, uint32_t h) {
    for (int i = 0; i < n; i++) h = (h ^ b[i]) * PR32;
    return h;
}
static uint64_t ref64(const unsigned char *b, int n, uint64_t h) {
    for (int i = 0; i < n; i++) h = (h ^ b[i]) * PR64;
    return h;
}
#define FILL(b, n, nz) for (int z_ = 0; z_ < (n); z_++) { (b)[z_] = (unsigned char)zv_int(); if (nz) zv_assume((b)[z_] != 0); }
#define BUFF(N) void lemma_buff##N##_p12(void) { \
    unsigned char b[N + 1]; uint32_t h = (uint32_t)zv_int(); uint64_t g = zv_ulong(); \
    FILL(b, N, 0); b[N] = (unsigned char)zv_int(); \
    zv_check(zt_hash32_buff(b, N, 0) == ref32(b, N, OFF32), "the 32 bit hash of a block is its FNV-1a hash"); \
    zv_check(zt_hash64_buff(b, N, 0) == ref64(b, N, OFF64), "the 64 bit hash of a block is its FNV-1a hash"); \
    zv_assume(h != 0 && g != 0); \
    zv_check(zt_hash32_buff(b, N, h) == ref32(b, N, h), "a 32 bit hash continues from the previous value"); \
    zv_check(zt_hash64_buff(b, N, g) == ref64(b, N, g), "a 64 bit hash continues from the previous value"); }
BUFF(0) BUFF(1) BUFF(2) BUFF(3) BUFF(4) BUFF(5) BUFF(8) BUFF(9)
#define CSTR(N) void lemma_cstr##N##_p12(void) { \
    unsigned char b[N + 3]; uint32_t h = (uint32_t)zv_int(); uint64_t g = zv_ulong(); \
    FILL(b, N, 1); b[N] = 0; b[N + 1] = (unsigned char)zv_int(); b[N + 2] = 0; \
    zv_check(zt_hash32_cstr(b, 0) == ref32(b, N, OFF32), "the 32 bit hash of a string is its FNV-1a hash"); \
    zv_check(zt_hash64_cstr(b, 0) == ref64(b, N, OFF64), "the 64 bit hash of a string is its FNV-1a hash"); \
    zv_assume(h != 0 && g != 0); \
    zv_check(zt_hash32_cstr(b, h) == zt_hash32_buff(b, N, h), "a string hashes as the block of its characters (32 bit)"); \
    zv_check(zt_hash64_cstr(b, g) == zt_hash64_buff(b, N, g), "a string hashes as the block of its characters (64 bit)"); \
    zv_check(zt_hash32_cstr(b, h) == ref32(b, N, h) && zt_hash64_cstr(b, g) == ref64(b, N, g), "a string hash continues from the previous value"); }
CSTR(0) CSTR(1) CSTR(2) CSTR(3) CSTR(4) CSTR(7)
void lemma_chain_p12(void) {
    unsigned char b[6]; int n = zv_int();
    FILL(b, 6, 0);
    zv_assume(n >= 0 && n <= 6);
    for (int i = 0; i <= 6; i++) if (n == i) {
        uint32_t h = zt_hash32_buff(b, i, 0);
        uint64_t g = zt_hash64_buff(b, i, 0);
        zv_assume(h != 0 && g != 0);
        zv_check(zt_hash32_buff(b + i, 6 - i, h) == zt_hash32_buff(b, 6, 0), "hashing the pieces one after the other gives the hash of the whole (32 bit)");
        zv_check(zt_hash64_buff(b + i, 6 - i, g) == zt_hash64_buff(b, 6, 0), "hashing the pieces one after the other gives the hash of the whole (64 bit)");
    }
}
#define MASKED(X) { uint32_t h = v, m = ((X) < 32 ? (1u << ((X) & 31)) - 1 : 0xffffffffu); ZT_HASH_SUB32_MASK(h, X); \
    zv_check((X) == 32 ? h == v : (X) < 16 ? h == (((v >> ((X) & 31)) ^ v) & m) : h == ((v >> ((X) & 31)) ^ (v & m)), "a hash is folded to the requested width"); \
    if ((X) < 16) zv_check(h <= m, "a folded hash is below the size of the range"); }
void lemma_mask(void) {
    uint32_t v = (uint32_t)zv_int(), h;
    MASKED(4) MASKED(5) MASKED(8) MASKED(15) MASKED(16) MASKED(17) MASKED(24) MASKED(31) MASKED(32)
    h = v; ZT_HASH24_MASK(h); zv_check(h == ((v >> 24) ^ (v & 0xffffff)), "the 24 bit fold");
    h = v; ZT_HASH16_MASK(h); zv_check(h == ((v >> 16) ^ (v & 0xffff)), "the 16 bit fold");
    h = v; ZT_HASH8_MASK(h); zv_check(h == (((v >> 8) ^ v) & 0xff), "the 8 bit fold");
    h = v; ZT_HASH4_MASK(h); zv_check(h == (((v >> 4) ^ v) & 0xf), "the 4 bit fold");
}
