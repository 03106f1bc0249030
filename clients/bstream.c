#include "lemma.h"
static zt_bstream_t mk(int flip) { zt_bstream_t b = zt_bstream_new(); b->flipendian = flip; return b; }
#define RT(nm, ty) \
    void lemma_rt_##nm##_p40_nf(ty x, unsigned char y, int flip) { \
        zv_assume(flip == 0 || flip == 1); \
        zt_bstream_t b = mk(flip); ty r = 0; unsigned char q = 0; \
        zt_bstream_write_uint8(b, y); zt_bstream_write_##nm(b, x); zt_bstream_write_uint8(b, y); \
        zv_check(b->offt == sizeof(ty) + 2, "a value takes its size in the stream"); \
        zv_check(zt_bstream_rewind(b) == sizeof(ty) + 2 && b->offt == 0, "rewinding returns the former offset"); \
        zt_bstream_read_uint8(b, &q); zt_bstream_read_##nm(b, &r); \
        zv_check(q == y && r == x, "values are read back as written"); \
        q = 0; zt_bstream_read_uint8(b, &q); zv_check(q == y && b->offt == sizeof(ty) + 2, "values are read back as written"); \
        unsigned char *d = (unsigned char *)zt_array_data(b->data); \
        for (unsigned k = 0; k < sizeof(ty); k++) \
            zv_check(d[1 + k] == (unsigned char)(x >> 8 * (flip ? sizeof(ty) - 1 - k : k)), "the byte order is the one of the machine, or the opposite when flipped"); \
        zt_bstream_free(&b); zv_check(b == NULL, "a freed stream is forgotten"); }
RT(uint8, uint8_t)
RT(uint16, uint16_t)
RT(uint32, uint32_t)
RT(uint64, uint64_t)
void lemma_byte_p40_nf(char x, char y) {
    zt_bstream_t b = mk(0);
    char r = 0;
    zv_check(zt_bstream_is_empty(b), "a new stream is empty");
    zt_bstream_write_byte(b, x);
    zt_bstream_write_byte(b, y);
    zv_check(!zt_bstream_is_empty(b), "a written stream is not empty");
    zt_bstream_rewind(b);
    zt_bstream_read_byte(b, &r);
    zv_check(r == x, "bytes are read in the order written");
    zt_bstream_read_byte(b, &r);
    zv_check(r == y, "bytes are read in the order written");
    zt_bstream_truncate(b);
    zv_check(zt_bstream_is_empty(b), "a truncated stream is empty");
    zt_bstream_rewind(b);
    zt_bstream_write_byte(b, y);
    zt_bstream_rewind(b);
    zt_bstream_read_byte(b, &r);
    zv_check(r == y, "a truncated stream can be written again");
    zt_bstream_free(&b);
}
void lemma_over_p60_nf(uint32_t x, uint16_t y, uint8_t z) {
    zt_bstream_t b = mk(0);
    uint32_t r = 0;
    zt_bstream_write_uint32(b, x);
    zt_bstream_write_uint32(b, x);
    zt_bstream_rewind(b);
    zt_bstream_write_uint16(b, y);
    uint16_t h = 0;
    zt_bstream_read_uint16(b, &h);
    zt_bstream_read_uint32(b, &r);
    zv_check(h == (uint16_t)(x >> 16) && r == x, "overwriting changes only the bytes written");
    zt_bstream_write_uint8(b, z);
    zt_bstream_write_uint8(b, z);
    zt_bstream_rewind(b);
    zt_bstream_read_uint16(b, &h);
    zv_check(h == y, "writing past the end keeps what was written");
    zt_bstream_free(&b);
}
void lemma_clone_p60_nf(uint16_t x, uint16_t y, int flip) {
    zv_assume(flip == 0 || flip == 1);
    zt_bstream_t b = mk(flip);
    uint16_t r = 0;
    zt_bstream_write_uint16(b, x);
    zt_bstream_write_uint16(b, y);
    zt_bstream_rewind(b);
    zt_bstream_read_uint16(b, &r);
    zt_bstream_t c = zt_bstream_clone(b);
    zt_bstream_write_uint16(b, x);
    zt_bstream_read_uint16(c, &r);
    zv_check(r == y && c->offt == 4, "a clone has the contents, the position and the byte order and is independent");
    zt_bstream_free(&b);
    zt_bstream_free(&c);
}
void lemma_multi_p60_nf(uint8_t x, uint8_t y, uint8_t z) {
    zt_bstream_t b = mk(0);
    char d[3] = {x, y, z}, e[3] = {0, 0, 0};
    zt_bstream_write(b, d, 3, 1, 0);
    zt_bstream_rewind(b);
    zt_bstream_read(b, e, 3, 1, 0);
    zv_check(e[0] == (char)x && e[1] == (char)y && e[2] == (char)z && b->offt == 3, "a block is read back as written");
    zt_array_t a = zt_array_with(d, 3, 1, 1);
    zt_bstream_set_array(b, a, 1);
    zt_bstream_read_byte(b, e);
    zv_check(e[0] == (char)y && b->data == a, "a stream reads an array given to it from the offset");
    zt_bstream_free(&b);
}
