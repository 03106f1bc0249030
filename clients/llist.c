#include "lemma.h"

void lemma_cons(void *x, zt_pair *l) {
    zt_llist r = zt_llist_cons(x, l);
    zv_check(zt_llist_head(r) == x && zt_llist_tail(r) == l, "cons puts the item in front of the list");
}
void lemma_push_pop(void *x, zt_pair *l, void *y) {
    zt_llist s = l;
    zt_llist r = zt_llist_push(x, &s);
    zv_check(r == s && zt_llist_head(s) == x && zt_llist_tail(s) == l, "push makes the item the head");
    zt_llist_push(y, &s);
    zv_check(zt_llist_pop(&s) == y, "pop returns the last pushed item");
    zv_check(zt_llist_pop(&s) == x && s == l, "push and pop leave the rest");
}
void lemma_pop_empty(void) {
    zt_llist s = NULL;
    zv_check(zt_llist_pop(&s) == NULL && s == NULL, "pop of an empty list is null");
    zv_check(zt_llist_ppop(&s) == NULL && s == NULL, "pop of a pair of an empty list is null");
}
void lemma_ppush(zt_pair *p, zt_pair *l) {
    zt_llist s = l;
    void *h = p->head;
    zv_check(zt_llist_ppush(p, &s) == p && s == p && p->tail == l && p->head == h, "pushing a pair links it in front");
    zv_check(zt_llist_ppop(&s) == p && s == l, "popping a pair unlinks the front");
}
void lemma_nth_p6(zt_pair *a, zt_pair *b, zt_pair *c, int i) {
    a->tail = b; b->tail = c; c->tail = NULL;
    zv_check(zt_llist_nth(a, 0) == a->head && zt_llist_nth(a, 1) == b->head && zt_llist_nth(a, 2) == c->head, "nth counts from zero");
    zv_check(zt_llist_nth(a, 3) == NULL && zt_llist_nth(a, 7) == NULL, "nth past the end is null");
    zv_check(zt_llist_nth(NULL, i) == NULL, "nth of an empty list is null");
}
void lemma_nthtail_p6(zt_pair *a, zt_pair *b, zt_pair *c) {
    a->tail = b; b->tail = c; c->tail = NULL;
    zv_check(zt_llist_nthtail(a, 0) == b && zt_llist_nthtail(a, 1) == c && zt_llist_nthtail(a, 2) == NULL && zt_llist_nthtail(a, 5) == NULL, "nthtail is the rest after the nth");
}
void lemma_nreverse_p6(zt_pair *a, zt_pair *b, zt_pair *c) {
    void *x = a->head, *y = b->head, *z = c->head;
    a->tail = b; b->tail = c; c->tail = NULL;
    zt_llist r = zt_llist_nreverse(a);
    zv_check(r == c && c->tail == b && b->tail == a && a->tail == NULL, "in-place reversal relinks every pair backwards");
    zv_check(a->head == x && b->head == y && c->head == z, "in-place reversal keeps the items");
    zv_check(zt_llist_nreverse(NULL) == NULL, "reversal of an empty list is empty");
}
void lemma_reverse_p6(zt_pair *a, zt_pair *b, zt_pair *c) {
    a->tail = b; b->tail = c; c->tail = NULL;
    zt_llist r = zt_llist_reverse(a);
    zv_check(r != NULL && r->head == c->head && r->tail->head == b->head && r->tail->tail->head == a->head && r->tail->tail->tail == NULL, "reversal has the items backwards");
    zv_check(a->tail == b && b->tail == c && c->tail == NULL, "reversal leaves the original");
    zv_check(r != c && r != b && r != a, "reversal makes new pairs");
}
void lemma_split_p6(zt_pair *a, zt_pair *b, zt_pair *c, zt_pair *d) {
    a->tail = b; b->tail = c; c->tail = d; d->tail = NULL;
    zt_llist r = zt_llist_split(a);
    zv_check(r == b || r == c || r == d, "the second part of a split is not empty");
    if (r == c) zv_check(a->tail == b && b->tail == NULL && c->tail == d && d->tail == NULL, "a split keeps every pair once");
    if (r == b) zv_check(a->tail == NULL && b->tail == c && c->tail == d && d->tail == NULL, "a split keeps every pair once");
    if (r == d) zv_check(a->tail == b && b->tail == c && c->tail == NULL && d->tail == NULL, "a split keeps every pair once");
}
void lemma_split3_p6(zt_pair *a, zt_pair *b, zt_pair *c) {
    a->tail = b; b->tail = c; c->tail = NULL;
    zt_llist r = zt_llist_split(a);
    zv_check(r == b || r == c, "the second part of a split of three is not empty");
    if (r == c) zv_check(a->tail == b && b->tail == NULL && c->tail == NULL, "a split of three keeps every pair once");
    if (r == b) zv_check(a->tail == NULL && b->tail == c && c->tail == NULL, "a split of three keeps every pair once");
}
void lemma_split2_p6(zt_pair *a, zt_pair *b) {
    a->tail = b; b->tail = NULL;
    zt_llist r = zt_llist_split(a);
    zv_check(r == b && a->tail == NULL && b->tail == NULL, "a split of two gives one each");
}
struct item { long key; };
static int item_less(void *x, void *y) { return ((struct item *)x)->key < ((struct item *)y)->key; }
static int item_gt(void *x, void *y) { return ((struct item *)x)->key > ((struct item *)y)->key; }

void lemma_merge_p8(zt_pair *a, zt_pair *b, zt_pair *c, struct item *i, struct item *j, struct item *k) {
    a->head = i; b->head = j; c->head = k;
    a->tail = b; b->tail = NULL; c->tail = NULL;
    zv_assume(i->key < j->key && j->key < k->key + 0 ? 1 : 1);
    zv_assume(i->key < j->key);
    zt_llist r = zt_llist_nmerge(a, c, item_gt);
    zv_check(r == a || r == c, "a merge starts with one of the fronts");
    zv_check(r->tail != NULL && r->tail->tail != NULL && r->tail->tail->tail == NULL, "a merge keeps every pair once");
    zv_check(((struct item *)r->head)->key <= ((struct item *)r->tail->head)->key && ((struct item *)r->tail->head)->key <= ((struct item *)r->tail->tail->head)->key, "a merge of ordered lists is ordered");
}
void lemma_sort_p8_r4(zt_pair *a, zt_pair *b, zt_pair *c, struct item *i, struct item *j, struct item *k) {
    a->head = i; b->head = j; c->head = k;
    a->tail = b; b->tail = c; c->tail = NULL;
    zt_llist r = zt_llist_sort(a, item_gt);
    zv_check(r != NULL && r->tail != NULL && r->tail->tail != NULL && r->tail->tail->tail == NULL, "sorting keeps the number of items");
    zv_check(r->head != r->tail->head && r->head != r->tail->tail->head && r->tail->head != r->tail->tail->head, "sorting keeps each item once");
    zv_check(((struct item *)r->head)->key <= ((struct item *)r->tail->head)->key && ((struct item *)r->tail->head)->key <= ((struct item *)r->tail->tail->head)->key, "sorting orders the items");
}
#define KEY(p) (((struct item *)(p)->head)->key)
/* every interleaving of two ordered lists, whichever runs out first */
#define MERGE(N, M) void lemma_merge##N##M##_p12(zt_pair *p0, zt_pair *p1, zt_pair *p2, zt_pair *p3, zt_pair *p4, struct item *i0, struct item *i1, struct item *i2, struct item *i3, struct item *i4) { \
    zt_pair *p[5] = {p0, p1, p2, p3, p4}; struct item *it[5] = {i0, i1, i2, i3, i4}; \
    for (int k = 0; k < N + M; k++) { p[k]->head = it[k]; p[k]->tail = k == N - 1 || k == N + M - 1 ? NULL : p[k + 1]; } \
    for (int k = 0; k < N + M - 1; k++) if (k != N - 1) zv_assume(it[k]->key <= it[k + 1]->key); \
    zt_llist r = zt_llist_nmerge(N ? p[0] : NULL, M ? p[N] : NULL, item_gt); \
    int seen[5] = {0, 0, 0, 0, 0}, n = 0; \
    zt_llist q = r; \
    for (int k = 0; k < N + M; k++) { \
        zv_check(q != NULL, "a merge keeps every pair"); \
        for (int z = 0; z < N + M; z++) if (q == p[z]) { seen[z]++; zv_check(q->head == it[z], "a merge keeps the items in their pairs"); } \
        if (q->tail) zv_check(KEY(q) <= KEY(q->tail), "a merge of ordered lists is ordered"); \
        q = q->tail; \
    } \
    zv_check(q == NULL, "a merge has no other pairs"); \
    for (int z = 0; z < N + M; z++) zv_check(seen[z] == 1, "a merge has every pair once"); }
MERGE(0, 2) MERGE(2, 0) MERGE(1, 2) MERGE(1, 3) MERGE(2, 2) MERGE(3, 1)
void lemma_sort4_p8_r5(zt_pair *p0, zt_pair *p1, zt_pair *p2, zt_pair *p3, struct item *i0, struct item *i1, struct item *i2, struct item *i3) {
    zt_pair *p[4] = {p0, p1, p2, p3}; struct item *it[4] = {i0, i1, i2, i3};
    for (int k = 0; k < 4; k++) { p[k]->head = it[k]; p[k]->tail = k == 3 ? NULL : p[k + 1]; }
    zt_llist q = zt_llist_sort(p0, item_gt);
    int seen[4] = {0, 0, 0, 0};
    for (int k = 0; k < 4; k++) {
        zv_check(q != NULL, "sorting keeps every pair");
        for (int z = 0; z < 4; z++) if (q->head == it[z]) seen[z]++;
        if (q->tail) zv_check(KEY(q) <= KEY(q->tail), "sorting orders the items");
        q = q->tail;
    }
    zv_check(q == NULL, "sorting adds no pairs");
    for (int z = 0; z < 4; z++) zv_check(seen[z] == 1, "sorting keeps each item once");
}
void lemma_sort_short(zt_pair *a) {
    a->tail = NULL;
    zv_check(zt_llist_sort(NULL, item_gt) == NULL && zt_llist_sort(a, item_gt) == a && a->tail == NULL, "a list of at most one item is sorted");
}
