#include "lemma.h"
/* one piece of any size, four gigabytes and more included; the block function is taken as given */
static void big(zt_sha1_ctx *c, unsigned char *m, size_t off, size_t len) {
    unsigned long bits;
    c->count[0] = (uint32_t)(off << 3); c->count[1] = (uint32_t)(off >> 29);
    zt_sha1_update(c, m, len);
    bits = (off + len) << 3;
    zv_check(c->count[0] == (uint32_t)bits, "the low part of the number of bits counts every byte of a piece");
    zv_check(c->count[1] == (uint32_t)(bits >> 32), "the high part of the number of bits counts every byte of a piece");
}
#define BIG(N, OFF, LEN) void lemma_big##N##_p4(zt_sha1_ctx *c, unsigned char *m) { big(c, m, OFF, LEN); }
BIG(0, 63UL, 0xFFFFFFC1UL) BIG(1, 1UL, 0xFFFFFFFFUL) BIG(2, 0UL, 0x100000000UL) BIG(3, 17UL, 0x123456789UL) BIG(4, 0xFFFFFFFFUL, 2UL) BIG(5, 0x1FFFFFFFUL, 1UL) BIG(6, 0x20000005UL, 0x1FFFFFFFUL) BIG(7, 0x1000000000UL, 0x3000000000UL) BIG(8, 64UL, 64UL)
