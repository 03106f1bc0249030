#include "lemma.h"
/* red-black trees: order, links, colours and black heights after any history of insertions and removals */
struct nd { zt_rbt rb; int key; };
static int cmp(zt_rbt_node *a, zt_rbt_node *b) {
    int x = ((struct nd *)a)->key, y = ((struct nd *)b)->key;
    return x < y ? -1 : x > y ? 1 : 0;
}
static int bad, count;
/* black height of a valid subtree with all keys strictly between the bounds */
static int height(zt_rbt_node *n, zt_rbt_node *parent, struct nd *lo, struct nd *hi) {
    int l, r, k;
    if (n == NULL) return 0;
    k = ((struct nd *)n)->key;
    count++;
    if (n->parent != parent) bad |= 1;
    if (lo && !(lo->key < k)) bad |= 2;
    if (hi && !(k < hi->key)) bad |= 2;
    if (n->colour == zt_rbt_red && parent && parent->colour == zt_rbt_red) bad |= 4;
    l = height(n->left, n, lo, (struct nd *)n);
    r = height(n->right, n, (struct nd *)n, hi);
    if (l != r) bad |= 8;
    return l + (n->colour == zt_rbt_black);
}
#define VALID(root, n) do { \
    bad = count = 0; \
    height(root, NULL, NULL, NULL); \
    zv_check((bad & 1) == 0, "every node points back to its parent"); \
    zv_check((bad & 2) == 0, "smaller keys are to the left, larger to the right"); \
    zv_check((bad & 4) == 0 && ((root) == NULL || (root)->colour == zt_rbt_black), "no red node has a red parent and the root is black"); \
    zv_check((bad & 8) == 0, "every way down has the same number of black nodes"); \
    zv_check(count == (n), "no node is lost or duplicated"); } while (0)
/* keys in any order */
#define INS(N) void lemma_insert##N##_p40_r8(void) { \
    struct nd n[N]; zt_rbt *root = NULL; \
    for (int i = 0; i < N; i++) { \
        n[i].key = zv_int(); \
        for (int j = 0; j < i; j++) zv_assume(n[i].key != n[j].key); \
        zv_check(zt_rbt_insert(&root, &n[i].rb, cmp) == NULL, "a new key is inserted"); \
        VALID(root, i + 1); \
    } }
INS(1) INS(2) INS(3) INS(4) INS(5)
void lemma_dup_p40_r8(void) {
    struct nd n[3], d; zt_rbt *root = NULL;
    n[0].key = 5; n[1].key = 3; n[2].key = 9;
    for (int i = 0; i < 3; i++) zt_rbt_insert(&root, &n[i].rb, cmp);
    int w = zv_int();
    zv_assume(w >= 0 && w < 3);
    struct nd *x = w == 0 ? &n[0] : w == 1 ? &n[1] : &n[2];
    d.key = w == 0 ? 5 : w == 1 ? 3 : 9;
    zv_check(zt_rbt_insert(&root, &d.rb, cmp) == &x->rb, "inserting a present key returns its node");
    VALID(root, 3);
}
/* insertion orders that reach every rotation, with trees deep enough for repairs to move up */
static const signed char ORD[6][12] = {
    { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11 }, { 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0 }, { 0, 11, 1, 10, 2, 9, 3, 8, 4, 7, 5, 6 },
    { 6, 5, 7, 4, 8, 3, 9, 2, 10, 1, 11, 0 }, { 5, 2, 8, 0, 3, 6, 10, 1, 4, 7, 9, 11 }, { 3, 9, 6, 0, 11, 4, 8, 1, 7, 2, 10, 5 } };
#define BUILD(o, N) \
    struct nd n[N]; zt_rbt *root = NULL; \
    for (int i = 0; i < N; i++) { int k = ORD[o][i]; n[k].key = 2 * k; zt_rbt_insert(&root, &n[k].rb, cmp); } \
    VALID(root, N)
#define SEARCH(o) void lemma_search##o##_p60_r8(void) { \
    BUILD(o, 12); \
    struct nd q; \
    q.key = zv_int(); \
    zt_rbt_node *f = zt_rbt_find(&root, &q.rb, cmp), *g = zt_rbt_nfind(&root, &q.rb, cmp); \
    int e = -1; \
    for (int k = 0; k < 12; k++) if (q.key == 2 * k) e = k; \
    zv_check(e >= 0 ? f == &n[e].rb : f == NULL, "a key is found exactly when it is there"); \
    e = 12; \
    for (int k = 11; k >= 0; k--) if (2 * k >= q.key) e = k; \
    zv_check(e < 12 ? g == &n[e].rb : g == NULL, "the nearest search finds the first node not below the key"); \
    zt_rbt_node *x = zt_rbt_min(&root); \
    for (int k = 0; k < 12; k++) { zv_check(x == &n[k].rb, "iteration visits the nodes in order"); x = zt_rbt_next(x); } \
    zv_check(x == NULL, "iteration ends after the last node"); \
    zv_check(zt_rbt_max(&root) == &n[11].rb, "the maximum is the last node"); }
SEARCH(0) SEARCH(1) SEARCH(2) SEARCH(3) SEARCH(4) SEARCH(5)
#define GONE(x, lim) do { x = zv_int(); zv_assume(x >= 0 && x < (lim)); for (int z_ = 0; z_ < (lim); z_++) if (x == z_) { x = z_; break; } } while (0)
/* removing any node, then any other, then the rest */
#define REMOVE(o) void lemma_remove##o##_p60_r8(void) { \
    BUILD(o, 12); \
    int a, b; char gone[12] = {0}; \
    GONE(a, 12); \
    zv_check(zt_rbt_remove(&root, &n[a].rb) == &n[a].rb, "removing returns the node"); gone[a] = 1; \
    VALID(root, 11); \
    GONE(b, 12); zv_assume(a != b); \
    zt_rbt_remove(&root, &n[b].rb); gone[b] = 1; \
    VALID(root, 10); \
    zv_check(zt_rbt_find(&root, &n[a].rb, cmp) == NULL && zt_rbt_find(&root, &n[b].rb, cmp) == NULL, "a removed node is not found"); \
    zt_rbt_insert(&root, &n[a].rb, cmp); gone[a] = 0; \
    VALID(root, 11); }
REMOVE(0) REMOVE(1) REMOVE(2) REMOVE(3) REMOVE(4) REMOVE(5)
#define DRAIN(o, p) void lemma_drain##o##p##_p60_r8(void) { \
    BUILD(o, 12); \
    for (int i = 0; i < 12; i++) { zt_rbt_remove(&root, &n[(int)ORD[p][i]].rb); VALID(root, 11 - i); } \
    zv_check(root == NULL, "removing everything empties the tree"); }
DRAIN(0, 0) DRAIN(0, 1) DRAIN(0, 4) DRAIN(1, 0) DRAIN(1, 5) DRAIN(2, 2) DRAIN(3, 4) DRAIN(4, 0) DRAIN(4, 1) DRAIN(4, 5) DRAIN(5, 3) DRAIN(5, 1)
