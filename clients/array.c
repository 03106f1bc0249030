#include "lemma.h"
/* arrays of equal sized elements */
void lemma_new_p20_nf(char z) {
    zt_array_t a = zt_array_new(3, 2);
    zv_check(zt_array_length(a) == 3 && zt_array_size(a) == 2, "a new array has the length and element size asked for");
    for (int k = 0; k < 6; k++) zv_check(zt_array_data(a)[k] == 0, "a new array is zeroed");
    zt_array_t e = zt_array_new(0, 4);
    zv_check(zt_array_length(e) == 0 && zt_array_size(e) == 4, "an array can be empty");
    zt_array_free(&e);
    zt_array_free(&a);
    zv_check(a == NULL, "a freed array is forgotten");
}
void lemma_putget_p20_nf(short x, short y, short z, short w) {
    zt_array_t a = zt_array_new(3, sizeof(short));
    zv_check(zt_array_put(a, 0, &x) == &x, "put returns the element");
    zt_array_put(a, 1, &y);
    zt_array_put(a, 2, &z);
    zv_check(*(short *)zt_array_get(a, 0) == x && *(short *)zt_array_get(a, 1) == y && *(short *)zt_array_get(a, 2) == z, "get returns what was put at the index");
    zt_array_put(a, 1, &w);
    zv_check(*(short *)zt_array_get(a, 0) == x && *(short *)zt_array_get(a, 1) == w && *(short *)zt_array_get(a, 2) == z, "put changes no other element");
    short c = 0;
    zv_check(zt_array_elem_copy(a, 2, &c) == &c && c == z, "an element is copied out");
    zt_array_free(&a);
}
void lemma_resize_p20_nf(short x, short y) {
    zt_array_t a = zt_array_new(2, sizeof(short));
    zt_array_put(a, 0, &x);
    zt_array_put(a, 1, &y);
    zt_array_resize(a, 4);
    zv_check(zt_array_length(a) == 4, "resizing sets the length");
    zv_check(*(short *)zt_array_get(a, 0) == x && *(short *)zt_array_get(a, 1) == y, "growing keeps the elements");
    zv_check(*(short *)zt_array_get(a, 2) == 0 && *(short *)zt_array_get(a, 3) == 0, "growing adds zeroed elements");
    zt_array_resize(a, 1);
    zv_check(zt_array_length(a) == 1 && *(short *)zt_array_get(a, 0) == x, "shrinking keeps the first elements");
    zt_array_free(&a);
    a = zt_array_new(0, sizeof(short));
    zt_array_resize(a, 2);
    zv_check(zt_array_length(a) == 2 && *(short *)zt_array_get(a, 0) == 0 && *(short *)zt_array_get(a, 1) == 0, "an empty array grows zeroed");
    zt_array_free(&a);
}
void lemma_copy_p20_nf(short x, short y, short w) {
    zt_array_t a = zt_array_new(2, sizeof(short));
    zt_array_put(a, 0, &x);
    zt_array_put(a, 1, &y);
    zt_array_t b = zt_array_copy(a, 3), c = zt_array_copy(a, 1);
    zv_check(zt_array_length(b) == 3 && zt_array_size(b) == sizeof(short) && zt_array_length(c) == 1, "a copy has the length asked for");
    zv_check(*(short *)zt_array_get(b, 0) == x && *(short *)zt_array_get(b, 1) == y && *(short *)zt_array_get(c, 0) == x, "a copy has the elements");
    zv_check(*(short *)zt_array_get(b, 2) == 0, "a longer copy is zero filled");
    zt_array_put(b, 0, &w);
    zv_check(*(short *)zt_array_get(a, 0) == x, "a copy is independent");
    zt_array_free(&a);
    zt_array_free(&b);
    zt_array_free(&c);
}
void lemma_with_p20_nf(char x, char y, char z) {
    char d[4] = {x, y, z, 0};
    zt_array_t a = zt_array_with(d, 3, 1, 1);
    d[1] = 'q';
    zv_check(zt_array_length(a) == 3 && zt_array_size(a) == 1 && zt_array_data(a) != d, "an array from data can be a copy");
    zv_check(zt_array_data(a)[0] == x && zt_array_data(a)[1] == y && zt_array_data(a)[2] == z, "an array copied from data has its contents");
    char *h = malloc(3);
    zt_array_t b = zt_array_with(h, 3, 1, 0);
    zv_check(zt_array_data(b) == h && zt_array_length(b) == 3, "an array from data can take the data over");
    zt_array_free(&a);
    zt_array_free(&b);
}
void lemma_withstr_p20_nf(char x, char y) {
    char d[3] = {x, y, 0};
    zv_assume(x != 0 && y != 0);
    zt_array_t c = zt_array_with_cstr(d);
    zv_check(zt_array_length(c) == 2 && zt_array_size(c) == 1 && zt_array_data(c)[0] == x && zt_array_data(c)[1] == y, "an array from a string has its characters");
    zt_array_free(&c);
}
void lemma_setlen_p20_nf(unsigned long n) {
    zt_array_t a = zt_array_new(3, 2);
    zv_check(zt_array_set_length(a, n) == 3 && zt_array_length(a) == n, "setting the length returns the former one");
    zt_array_set_length(a, 3);
    zt_array_free(&a);
}
/* pointer arrays */
static int freed_n; static void *freed_p[4];
static void gone(void *p) { if (freed_n < 4) freed_p[freed_n] = p; freed_n++; }
void lemma_ptr_p40_nf(char *a, char *b, char *c, char *d) {
    zt_ptr_array *p = zt_ptr_array_init(a, NULL);
    zv_check(p != NULL && zt_ptr_array_length(p) == 0 && !zt_ptr_array_is_full(p) && zt_ptr_array_get_idx(p, 0) == NULL && zt_ptr_array_get_idx(p, -1) == NULL, "a new pointer array is empty");
    zv_check(zt_ptr_array_add(p, a) == 0 && zt_ptr_array_add(p, b) == 0 && zt_ptr_array_add(p, c) == 0, "pointers are added");
    zv_check(zt_ptr_array_length(p) == 3 && zt_ptr_array_get_idx(p, 0) == a && zt_ptr_array_get_idx(p, 1) == b && zt_ptr_array_get_idx(p, 2) == c, "pointers keep the order they were added in");
    zv_check(zt_ptr_array_get_idx(p, -1) == c, "index -1 is the last pointer");
    int i = zv_int();
    zv_assume(i < -1 || i > 2);
    zv_check(zt_ptr_array_get_idx(p, i) == NULL, "an index outside the array has no pointer");
    zv_check(zt_ptr_array_move_idx_to_idx(p, i, 0) == -1 && zt_ptr_array_move_idx_to_idx(p, 0, i) == -1, "moving to or from outside is refused");
    zv_check(zt_ptr_array_get_idx(p, 0) == a && zt_ptr_array_length(p) == 3, "a refused move changes nothing");
    zv_check(zt_ptr_array_add(p, NULL) == 0 && zt_ptr_array_length(p) == 3, "a null pointer is not stored");
    zv_check(zt_ptr_array_del(p, d) == -1 && zt_ptr_array_length(p) == 3, "an absent pointer is not removed");
    zv_check(zt_ptr_array_del(p, b) == 0 && zt_ptr_array_length(p) == 2, "a pointer is removed");
    zv_check(zt_ptr_array_get_idx(p, 0) == a && zt_ptr_array_get_idx(p, 1) == c, "removing keeps the other pointers");
    zv_check(zt_ptr_array_del(p, c) == 0 && zt_ptr_array_length(p) == 1 && zt_ptr_array_get_idx(p, 0) == a, "the last pointer can be removed");
    zv_check(zt_ptr_array_del(p, a) == 0 && zt_ptr_array_length(p) == 0 && zt_ptr_array_del(p, a) == -1, "the only pointer can be removed once");
    zt_ptr_array_free(p, 0);
}
void lemma_ptrgrow_p80_nf(char *a, char *b) {
    zt_ptr_array *p = zt_ptr_array_init(NULL, NULL);
    for (int k = 0; k < 32; k++) zt_ptr_array_add(p, k & 1 ? b : a);
    zv_check(zt_ptr_array_is_full(p), "an array fills up at its size");
    zv_check(zt_ptr_array_add(p, b) == 0 && zt_ptr_array_length(p) == 33, "a full array grows");
    zv_check(zt_ptr_array_get_idx(p, 0) == a && zt_ptr_array_get_idx(p, 31) == b && zt_ptr_array_get_idx(p, 30) == a && zt_ptr_array_get_idx(p, 32) == b, "growing keeps the pointers in order");
    char *copy[34];
    copy[33] = a;
    zv_check(zt_ptr_array_copy_data(p, copy) == 0 && copy[0] == a && copy[31] == b && copy[32] == b && copy[33] == a, "the pointers are copied out");
    zt_ptr_array_free(p, 0);
}
void lemma_ptrcat_p40_nf(char *a, char *b, char *c) {
    zt_ptr_array *p = zt_ptr_array_init(NULL, NULL), *q = zt_ptr_array_init(NULL, NULL);
    zt_ptr_array_add(p, a);
    zt_ptr_array_add(q, b);
    zt_ptr_array_add(q, c);
    zv_check(zt_ptr_array_cat(p, q) == 0 && zt_ptr_array_length(p) == 3 && zt_ptr_array_length(q) == 2, "an array is appended to another");
    zv_check(zt_ptr_array_get_idx(p, 0) == a && zt_ptr_array_get_idx(p, 1) == b && zt_ptr_array_get_idx(p, 2) == c && zt_ptr_array_get_idx(q, 0) == b, "appending keeps order and source");
    zt_ptr_array_free(p, 0);
    zt_ptr_array_free(q, 0);
}
void lemma_ptrfree_p40_nf(char *a, char *b) {
    zt_ptr_array *p = zt_ptr_array_init(NULL, gone);
    zt_ptr_array_add(p, a);
    zt_ptr_array_add(p, b);
    freed_n = 0;
    zv_check(zt_ptr_array_del(p, a) == 0 && freed_n == 1 && freed_p[0] == a, "a removed pointer goes to the callback once");
    zv_check(zt_ptr_array_free(p, 1) == 0 && freed_n == 2 && freed_p[1] == b, "each remaining pointer goes to the callback once");
    p = zt_ptr_array_init(NULL, gone);
    zt_ptr_array_add(p, a);
    freed_n = 0;
    zv_check(zt_ptr_array_free(p, 0) == 0 && freed_n == 0, "members are kept when asked to");
    zv_check(zt_ptr_array_free(NULL, 1) == -1 && zt_ptr_array_resize(NULL, 1) == -1 && zt_ptr_array_del(NULL, a) == -1, "a missing pointer array is refused");
}
void lemma_ptrresize_p40_nf(int n, char *a) {
    zt_ptr_array *p = zt_ptr_array_init(NULL, NULL);
    zt_ptr_array_add(p, a);
    int before = p->size;
    int r = zt_ptr_array_resize(p, n);
    if (n < 0 || n > INT32_MAX - 32) zv_check(r == -1 && p->size == before && zt_ptr_array_get_idx(p, 0) == a, "a size out of range is refused and changes nothing");
    else zv_check(r == 0 && p->size == before + (n ? n : 32) && zt_ptr_array_length(p) == 1 && zt_ptr_array_get_idx(p, 0) == a, "resizing adds room and keeps the pointers");
    zt_ptr_array_free(p, 0);
}
