#include "lemma.h"
/* growable byte buffers against the sequence of bytes they hold */
void lemma_fifo_p20_nf(char a, char b, char c, char d) {
    zt_buf_t *q = zt_buf_new();
    char x[2] = {a, b}, y[2] = {c, d}, o[4] = {0, 0, 0, 0};
    zv_check(zt_buf_length(q) == 0 && zt_buf_get(q) == NULL && zt_buf_unused_sz(q) == 0, "a new buffer is empty");
    zv_check(zt_buf_add(q, x, 2) == 0 && zt_buf_length(q) == 2, "adding counts the bytes");
    zv_check(zt_buf_add(q, y, 2) == 0 && zt_buf_length(q) == 4, "adding counts the bytes");
    char *g = zt_buf_get(q);
    zv_check(g[0] == a && g[1] == b && g[2] == c && g[3] == d, "bytes are kept in order");
    zv_check(zt_buf_remove(q, o, 3) == 3 && o[0] == a && o[1] == b && o[2] == c && o[3] == 0, "removing takes the first bytes");
    zv_check(zt_buf_length(q) == 1 && *(char *)zt_buf_get(q) == d, "removing keeps the rest");
    zt_buf_add(q, x, 2);
    g = zt_buf_get(q);
    zv_check(zt_buf_length(q) == 3 && g[0] == d && g[1] == a && g[2] == b, "adding after removing appends");
    zv_check(zt_buf_remove(q, o, 4) == 3 && o[0] == d && o[1] == a && o[2] == b && o[3] == 0, "removing stops at the end");
    zv_check(zt_buf_length(q) == 0 && zt_buf_get(q) == NULL, "a drained buffer is empty");
    zt_buf_free(q);
}
void lemma_drain_p20_nf(char a, char b, char c) {
    zt_buf_t *q = zt_buf_new();
    char x[3] = {a, b, c};
    zt_buf_add(q, x, 3);
    zv_check(zt_buf_drain(q, 1) == 2 && zt_buf_length(q) == 2, "draining returns what is left");
    char *g = zt_buf_get(q);
    zv_check(g[0] == b && g[1] == c, "draining drops the first bytes");
    zv_check(zt_buf_drain(q, 5) == 0 && zt_buf_length(q) == 0 && zt_buf_get(q) == NULL, "draining more than there is empties");
    zt_buf_add(q, x, 3);
    g = zt_buf_get(q);
    zv_check(zt_buf_length(q) == 3 && g[0] == a && g[1] == b && g[2] == c, "a drained buffer can be filled again");
    zt_buf_free(q);
}
void lemma_grow_p20_nf(char a, char b, unsigned long n) {
    zt_buf_t *q = zt_buf_new();
    char x[2] = {a, b};
    zv_assume(n > 0 && n < 1000000);
    zt_buf_add(q, x, 2);
    zt_buf_drain(q, 1);
    zv_check(zt_buf_expand(q, n) == 0 && zt_buf_unused_sz(q) >= n, "expanding makes the room asked for");
    zv_check(zt_buf_length(q) == 1 && *(char *)zt_buf_get(q) == b, "expanding keeps the bytes that are left");
    zt_buf_free(q);
}
void lemma_reserve_p20_nf(char a, unsigned long n) {
    zt_buf_t *q = zt_buf_new();
    zv_assume(n > 0 && n < 1000000);
    zt_buf_add(q, &a, 1);
    zv_check(zt_buf_reserve(q, n) == 0 && zt_buf_unused_sz(q) >= n && zt_buf_length(q) == 1 && *(char *)zt_buf_get(q) == a, "reserving makes room and keeps the bytes");
    zt_buf_free(q);
}
void lemma_room_p20_nf(char a, unsigned long n, unsigned long m) {
    zt_buf_t *q = zt_buf_new();
    zv_assume(n > 4 && n < 1000 && m < n);
    char *d = malloc(1000), o;
    d[0] = a;
    zt_buf_add(q, d, n);
    unsigned long all = zt_buf_unused_sz(q) + zt_buf_length(q);
    zt_buf_drain(q, m);
    zv_check(zt_buf_length(q) == n - m && zt_buf_unused_sz(q) == all - n, "draining leaves the room behind the bytes unchanged");
    zt_buf_free(q);
    free(d);
}
void lemma_cat_p20_nf(char a, char b, char c) {
    zt_buf_t *q = zt_buf_new(), *r = zt_buf_new();
    char x[2] = {a, b};
    zt_buf_add(q, x, 2);
    zt_buf_add(r, &c, 1);
    zv_check(zt_buf_add_buf(q, r) == 0 && zt_buf_length(q) == 3 && zt_buf_length(r) == 0, "appending a buffer moves its bytes");
    char *g = zt_buf_get(q);
    zv_check(g[0] == a && g[1] == b && g[2] == c, "an appended buffer comes last");
    zt_buf_free(q);
    zt_buf_free(r);
}
void lemma_iov_p20_nf(char a, char b, char c) {
    zt_buf_t *q = zt_buf_new();
    char x[2] = {a, b};
    zt_iov_t v[2] = {{2, x}, {1, &c}};
    zv_check(zt_buf_iov_len(v, 2) == 3 && zt_buf_iov_len(v, 0) == 0, "the length of a vector is the sum");
    zv_check(zt_buf_iov_add(q, v, 2) == 0 && zt_buf_length(q) == 3, "a vector is added whole");
    char *g = zt_buf_get(q);
    zv_check(g[0] == a && g[1] == b && g[2] == c, "a vector is added in order");
    zt_buf_free(q);
}
/* a failed allocation loses nothing */
void lemma_fail_p20(char a, char b) {
    zt_buf_t *q = zt_buf_new();
    if (!q) return;
    if (zt_buf_add(q, &a, 1) != 0) { zv_check(zt_buf_length(q) == 0, "a failed addition adds nothing"); zt_buf_free(q); return; }
    unsigned long room = zt_buf_unused_sz(q);
    if (zt_buf_expand(q, 5000) != 0) zv_check(zt_buf_length(q) == 1 && *(char *)zt_buf_get(q) == a && zt_buf_unused_sz(q) == room, "a failed expansion changes nothing");
    zt_buf_free(q);
}
