/* Tables reduced to their contract (the table lemmas), for clients of modules that use them. */
#include "lemma.h"
struct re { const void *key; size_t key_len; void *datum; size_t datum_len; };
struct zt_table { zt_table_compare_cb cmp; void *cd; int n; struct re e[8]; };
zt_table *zt_table_init(char *name, zt_table_hash_func_cb func, zt_table_compare_cb cmp, size_t hint, int flags, void *cdata) {
    struct zt_table *t = malloc(sizeof(struct zt_table));
    if (!t) return NULL;
    t->cmp = cmp;
    t->cd = cdata;
    t->n = 0;
    return t;
}
void zt_table_destroy(zt_table *t) { free(t); }
static int find(zt_table *t, const void *key, size_t len) {
    for (int i = 0; i < t->n; i++) if (t->cmp(t->e[i].key, t->e[i].key_len, key, len, t->cd)) return i;
    return -1;
}
int zt_table_set(zt_table *t, const void *key, size_t key_len, const void *datum, size_t datum_len) {
    if (find(t, key, key_len) >= 0) return 1;
    if (t->n == 8) return -1;
    t->e[t->n].key = key;
    t->e[t->n].key_len = key_len;
    t->e[t->n].datum = (void *)datum;
    t->e[t->n].datum_len = datum_len;
    t->n++;
    return 0;
}
void *zt_table_get(zt_table *t, const void *key, size_t len) {
    int i = find(t, key, len);
    if (i >= 0) return t->e[i].datum;
    errno = ENOENT;
    return NULL;
}
void *zt_table_del(zt_table *t, const void *key, size_t len) {
    int i = find(t, key, len);
    if (i < 0) { errno = ENOENT; return NULL; }
    void *d = t->e[i].datum;
    t->e[i] = t->e[--t->n];
    return d;
}
int zt_table_for_each(zt_table *t, zt_table_iterator_cb it, void *param) {
    for (int i = 0; i < t->n; i++) {
        int r = it((void *)t->e[i].key, t->e[i].key_len, t->e[i].datum, t->e[i].datum_len, param);
        if (r != 0) return r;
    }
    return 0;
}
unsigned long zt_table_hash_int(const void *key, size_t key_len, void *cdata) { return (unsigned long)key; }
int zt_table_compare_int(const void *l, size_t ll, const void *r, size_t rl, void *cdata) { return ll == rl && l == r; }
