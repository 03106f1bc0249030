#include "lemma.h"
/* hash tables as finite maps, for every hash function and every placement in the buckets */
static const char *K[3];
static unsigned long H[3];
static int cdata_ok;
static unsigned long hash(const void *k, size_t len, void *cd) {
    cdata_ok = cd == (void *)&cdata_ok && len == 1;
    return k == K[0] ? H[0] : k == K[1] ? H[1] : H[2];
}
static int same(const void *a, size_t al, const void *b, size_t bl, void *cd) {
    cdata_ok = cd == (void *)&cdata_ok && al == 1 && bl == 1;
    return a == b;
}
static int pick4(void) { int i = zv_int(); zv_assume(i >= 0 && i <= 3); return i == 0 ? 0 : i == 1 ? 1 : i == 2 ? 2 : 3; }
static zt_table *mk(const char *a, const char *b, const char *c, int flags, size_t hint) {
    K[0] = a; K[1] = b; K[2] = c;
    /* the lowest bits decide the bucket, equal hashes are possible too */
    H[0] = 0; H[1] = pick4(); H[2] = pick4();
    return zt_table_init("t", hash, same, hint, flags, &cdata_ok);
}
static int seen[3], calls, stop_at;
static char *D[3];
static int visit(void *k, size_t kl, void *d, size_t dl, void *param) {
    int i = k == K[0] ? 0 : k == K[1] ? 1 : 2;
    zv_check(kl == 1 && param == (void *)D && d == D[i] && dl == (size_t)(i + 1), "an iteration gets each entry as it was stored");
    seen[i]++;
    return ++calls == stop_at ? 7 : 0;
}
void lemma_map_p12_nf(char *a, char *b, char *c, char *x, char *y, char *z) {
    zt_table *t = mk(a, b, c, ZT_TABLE_SIZE_USE_HINT, 2);
    zv_check(zt_table_get(t, a, 1) == NULL && zt_table_get(t, b, 1) == NULL, "a new table is empty");
    zv_check(zt_table_set(t, a, 1, x, 1) == 0 && zt_table_set(t, b, 1, y, 2) == 0, "new keys are stored");
    zv_check(zt_table_get(t, a, 1) == x && zt_table_get(t, b, 1) == y, "a stored datum is found by its key");
    zv_check(zt_table_get(t, c, 1) == NULL, "an absent key is not found");
    zv_check(cdata_ok, "the callbacks get the key lengths and the table's data");
    zv_check(zt_table_set(t, c, 1, z, 3) == 0, "new keys are stored");
    zv_check(zt_table_get(t, a, 1) == x && zt_table_get(t, b, 1) == y && zt_table_get(t, c, 1) == z, "storing keeps the other entries");
    zv_check(zt_table_set(t, b, 1, z, 1) == 1 && zt_table_get(t, b, 1) == y, "a present key is not stored again");
    zt_table_destroy(t);
}
void lemma_del_p12_nf(char *a, char *b, char *c, char *x, char *y, char *z) {
    zt_table *t = mk(a, b, c, ZT_TABLE_SIZE_USE_HINT, 2);
    zt_table_set(t, a, 1, x, 1);
    zt_table_set(t, b, 1, y, 2);
    zt_table_set(t, c, 1, z, 3);
    int w = pick4();
    if (w == 0) {
        zv_check(zt_table_del(t, a, 1) == x, "deleting returns the datum");
        zv_check(zt_table_get(t, a, 1) == NULL && zt_table_del(t, a, 1) == NULL, "a deleted key is gone");
        zv_check(zt_table_get(t, b, 1) == y && zt_table_get(t, c, 1) == z, "deleting keeps the other entries");
        zv_check(zt_table_set(t, a, 1, z, 1) == 0 && zt_table_get(t, a, 1) == z, "a deleted key can be stored again");
    } else if (w == 1) {
        zv_check(zt_table_del(t, b, 1) == y, "deleting returns the datum");
        zv_check(zt_table_get(t, b, 1) == NULL && zt_table_del(t, b, 1) == NULL, "a deleted key is gone");
        zv_check(zt_table_get(t, a, 1) == x && zt_table_get(t, c, 1) == z, "deleting keeps the other entries");
    } else if (w == 2) {
        zv_check(zt_table_del(t, c, 1) == z, "deleting returns the datum");
        zv_check(zt_table_get(t, c, 1) == NULL, "a deleted key is gone");
        zv_check(zt_table_get(t, a, 1) == x && zt_table_get(t, b, 1) == y, "deleting keeps the other entries");
    } else {
        zt_table_del(t, a, 1); zt_table_del(t, b, 1); zt_table_del(t, c, 1);
        D[0] = x; calls = 0; stop_at = 0;
        zv_check(zt_table_for_each(t, visit, D) == 0 && calls == 0, "an emptied table has no entries");
    }
    zt_table_destroy(t);
}
void lemma_each_p12_nf(char *a, char *b, char *c, char *x, char *y, char *z) {
    zt_table *t = mk(a, b, c, ZT_TABLE_SIZE_USE_HINT, 2);
    D[0] = x; D[1] = y; D[2] = z;
    zt_table_set(t, a, 1, x, 1);
    zt_table_set(t, b, 1, y, 2);
    zt_table_set(t, c, 1, z, 3);
    seen[0] = seen[1] = seen[2] = calls = 0;
    stop_at = pick4();
    int r = zt_table_for_each(t, visit, D);
    if (stop_at == 0) zv_check(r == 0 && seen[0] == 1 && seen[1] == 1 && seen[2] == 1, "an iteration visits every entry once");
    else zv_check(r == 7 && calls == stop_at, "an iteration stops when its callback says so and returns its result");
    zt_table_destroy(t);
}
void lemma_dup_p12_nf(char *a, char *b, char *c, char *x, char *y) {
    zt_table *t = mk(a, b, c, ZT_TABLE_SIZE_USE_HINT | ZT_TABLE_ALLOW_DUP_KEYS, 2);
    zv_check(zt_table_set(t, a, 1, x, 1) == 0 && zt_table_set(t, a, 1, y, 1) == 0, "a table can allow a key twice");
    zv_check(zt_table_get(t, a, 1) == y, "the latest entry of a key is found first");
    zv_check(zt_table_del(t, a, 1) == y && zt_table_get(t, a, 1) == x, "deleting uncovers the earlier entry of a key");
    zt_table_destroy(t);
}
void lemma_copy_p12_nf(char *a, char *b, char *c, char *x, char *y, char *z) {
    zt_table *t = mk(a, b, c, ZT_TABLE_SIZE_USE_HINT, 2), *u = zt_table_init(NULL, hash, same, 1, ZT_TABLE_SIZE_USE_HINT, &cdata_ok);
    zt_table_set(t, a, 1, x, 1);
    zt_table_set(t, b, 1, y, 2);
    zt_table_set(t, c, 1, z, 3);
    zt_table_set(u, a, 1, z, 1);
    zv_check(zt_table_copy(t, u) == 1 && zt_table_get(u, b, 1) == y && zt_table_get(u, c, 1) == z, "a copy has every entry");
    zv_check(zt_table_get(u, a, 1) == z, "a copy keeps what the target has");
    zv_check(zt_table_del(t, b, 1) == y && zt_table_get(u, b, 1) == y, "a copy is independent");
    zt_table_destroy(t);
    zv_check(zt_table_get(u, c, 1) == z, "a copy outlives its source");
    zt_table_destroy(u);
}
/* sizes from a hint: every size places and finds every hash */
#define HINT(name, hint, h1) void lemma_hint##name##_p60_nf(char *a, char *b, char *x, char *y) { \
    K[0] = a; K[1] = b; H[0] = 0; H[1] = h1; \
    zt_table *t = zt_table_init("t", hash, same, hint, 0, &cdata_ok); \
    zv_check(zt_table_set(t, a, 1, x, 1) == 0 && zt_table_set(t, b, 1, y, 1) == 0 && zt_table_get(t, a, 1) == x && zt_table_get(t, b, 1) == y, "any hash finds its entry whatever the size"); }
HINT(0, 0, 0xffffffffUL)
HINT(1, 5, 0x80000001UL)
HINT(2, 20, 0xffffffffffffffffUL)
HINT(3, 16, 16)
void lemma_refuse_p60_nf(void) {
    zv_check(zt_table_init("t", NULL, same, 1, 0, NULL) == NULL && zt_table_init("t", hash, NULL, 1, 0, NULL) == NULL, "a table without callbacks is refused");
}
void lemma_zero_p12_nf(char *a, char *b, char *c, char *x) {
    zt_table *t = mk(a, b, c, ZT_TABLE_SIZE_USE_HINT, 0);
    zv_check(zt_table_set(t, a, 1, x, 1) == 0 && zt_table_get(t, a, 1) == x && zt_table_get(t, b, 1) == NULL, "a table of the smallest size works");
    zt_table_destroy(t);
}
/* storing fails cleanly */
void lemma_fail_p12(char *a, char *b, char *c, char *x, char *y) {
    zt_table *t = mk(a, b, c, ZT_TABLE_SIZE_USE_HINT, 2);
    if (!t) return;
    if (zt_table_set(t, a, 1, x, 1) != 0) { zv_check(zt_table_get(t, a, 1) == NULL, "a failed store stores nothing"); return; }
    if (zt_table_set(t, b, 1, y, 1) == -1) zv_check(zt_table_get(t, b, 1) == NULL && zt_table_get(t, a, 1) == x, "a failed store stores nothing and keeps the rest");
}
/* ready made comparisons */
void lemma_cmp_p12(char a, char b, char c, char d) {
    unsigned long i = (unsigned char)a | (unsigned long)(unsigned char)b << 40, j = (unsigned char)c | (unsigned long)(unsigned char)d << 40;
    char s[4] = {a, b, 'k', 0}, t[4] = {c, d, 'k', 0};
    zv_assume(a != 0 && b != 0 && c != 0 && d != 0);
    int eq = a == c && b == d;
    zv_check(zt_table_compare_string(s, 3, t, 3, NULL) == eq, "strings are the same key when all characters are equal");
    zv_check(zt_table_compare_string(s, 3, t, 2, NULL) == 0 && zt_table_compare_buff(s, 3, t, 2, NULL) == 0, "keys of different length differ");
    zv_check(zt_table_compare_buff(s, 2, t, 2, NULL) == eq, "buffers are the same key when all bytes are equal");
    zv_check(zt_table_compare_int((void *)i, 8, (void *)j, 8, NULL) == eq, "integers are the same key when equal");
    zv_check(zt_table_compare_int((void *)i, 4, (void *)j, 4, NULL) == (a == c), "integers are compared in their size");
    zv_check(zt_table_compare_int((void *)i, 8, (void *)i, 4, NULL) == 0, "integers of different size differ");
}
void lemma_hash_p12(char a, char b, long i) {
    char s[3] = {a, b, 0}, t[4] = {a, b, 0, 'x'};
    zv_assume(a != 0 && b != 0);
    zv_check(zt_table_hash_string(s, 2, NULL) == zt_table_hash_string(t, 2, NULL) && zt_table_hash_buff(s, 2, NULL) == zt_table_hash_buff(t, 2, NULL), "equal keys hash equal");
    zv_check(zt_table_hash_string(s, 2, NULL) == zt_hash32_buff(s, 2, ZT_HASH32_INIT) && zt_table_hash_buff(s, 2, NULL) == zt_hash32_buff(s, 2, ZT_HASH32_INIT), "strings and buffers hash by their bytes");
    zv_check(zt_table_hash_int((void *)i, 8, NULL) == zt_hash32_buff(&i, 8, ZT_HASH32_INIT), "integers hash by their bytes");
}
