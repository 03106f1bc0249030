#include "lemma.h"
#include <stdlib.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <libzt/zt_mem.h>
#include <libzt/zt_ipv4_tbl.h>
/* pools by their contract */
static int groups, made; static size_t sizes[4]; static int nsizes; static int allow = 1000;
static int eq(const char *a, const char *b) { return strcmp(a, b) == 0; }
static void *get(size_t n) { if (allow-- <= 0) return NULL; made++; return malloc(n); }
zt_mem_pool_group *zt_mem_pool_group_init(zt_mem_pool_desc *d, size_t n) {
    if (allow-- <= 0) return NULL;
    for (size_t i = 0; i < n && i < 4 && d[i].name; i++) { sizes[i] = d[i].size; nsizes = (int)i + 1; }
    groups++;
    return (zt_mem_pool_group *)&sizes;
}
void *zt_mem_pool_group_alloc(zt_mem_pool_group *g, size_t n) { for (int i = 0; i < nsizes; i++) if (n <= sizes[i]) return get(n); return NULL; }
int zt_mem_pool_group_destroy(zt_mem_pool_group *g) { groups--; return 0; }
zt_mem_pool *zt_mem_pool_get(char *n) { return groups ? (zt_mem_pool *)(eq(n, "zt_ipv4_node") ? &sizes[1] : eq(n, "zt_ipv4_addr") ? &sizes[2] : NULL) : NULL; }
void *zt_mem_pool_alloc(zt_mem_pool *p) { return get(*(size_t *)p); }
void zt_mem_pool_release(void **p) { made--; free(*p); *p = NULL; }
/* the system's reading of addresses, in network byte order */
in_addr_t inet_addr(const char *s) {
    uint32_t v = 0;
    for (int k = 0; k < 4; k++) {
        int n = 0, d = 0;
        while (*s >= '0' && *s <= '9') { n = n * 10 + (*s++ - '0'); d++; }
        if (d == 0 || n > 255) return INADDR_NONE;
        v |= (uint32_t)n << (8 * k);
        if (k < 3) { if (*s != '.') return INADDR_NONE; s++; }
    }
    return *s ? INADDR_NONE : v;
}
int inet_aton(const char *s, struct in_addr *a) { in_addr_t v = inet_addr(s); if (v == INADDR_NONE && !eq(s, "255.255.255.255")) return 0; a->s_addr = v; return 1; }
#undef ntohl
#undef htonl
uint32_t ntohl(uint32_t x) { return x >> 24 | (x >> 8 & 0xff00) | (x << 8 & 0xff0000) | x << 24; }
uint32_t htonl(uint32_t x) { return x >> 24 | (x >> 8 & 0xff00) | (x << 8 & 0xff0000) | x << 24; }
static struct in_addr asked;
char *inet_ntoa(struct in_addr a) { asked = a; return "9.8.7.6"; }
static const uint32_t M[33] = { 0, 0x80000000, 0xc0000000, 0xe0000000, 0xf0000000, 0xf8000000, 0xfc000000, 0xfe000000, 0xff000000, 0xff800000, 0xffc00000, 0xffe00000, 0xfff00000, 0xfff80000, 0xfffc0000,
    0xfffe0000, 0xffff0000, 0xffff8000, 0xffffc000, 0xffffe000, 0xfffff000, 0xfffff800, 0xfffffc00, 0xfffffe00, 0xffffff00, 0xffffff80, 0xffffffc0, 0xffffffe0, 0xfffffff0, 0xfffffff8, 0xfffffffc, 0xfffffffe, 0xffffffff };
static void node(zt_ipv4_node *n, zt_ipv4_addr *a, uint32_t v, int len) { n->addr = a; n->next = NULL; a->mask = M[len]; a->addr = v & M[len]; a->bitlen = (uint8_t)len; a->broadcast = a->addr | ~M[len]; }
/* any two networks of any extent in one bucket, any extent asked for */
#define WITHIN(L, K) void lemma_within##L##x##K##_p40_nf(void) { \
    zt_ipv4_node n, m, q; zt_ipv4_addr a, c, b; \
    zt_ipv4_tbl *t = zt_ipv4_tbl_init(1); \
    node(&n, &a, 0, L); a.addr = (uint32_t)zv_int(); a.broadcast = (uint32_t)zv_int(); \
    node(&m, &c, 0, K); c.addr = (uint32_t)zv_int(); c.broadcast = (uint32_t)zv_int(); \
    node(&q, &b, 0, 32); b.addr = (uint32_t)zv_int(); b.broadcast = (uint32_t)zv_int(); \
    zv_assume(b.addr <= b.broadcast); \
    zv_check(zt_ipv4_tbl_search_node(t, &q) == NULL, "an empty table contains nothing"); \
    zv_check(zt_ipv4_tbl_add_node(t, &n) == 0 && zt_ipv4_tbl_add_node(t, &m) == 0, "a network is taken"); \
    int inn = b.addr >= a.addr && b.broadcast <= a.broadcast, inm = b.addr >= c.addr && b.broadcast <= c.broadcast; \
    zt_ipv4_node *r = zt_ipv4_tbl_search_node(t, &q); \
    zv_check(r == NULL || r == &n || r == &m, "only networks in the table are found"); \
    if (r == &n) zv_check(L == 0 || inn, "a network found contains what was asked for"); \
    if (r == &m) zv_check(K == 0 || inm, "a network found contains what was asked for"); \
    if (r == NULL) zv_check(!inn && !inm && L && K, "what is not found is in no network of the table"); \
    zv_reach("found or not"); }
WITHIN(1, 1) WITHIN(8, 24) WITHIN(24, 8) WITHIN(32, 32) WITHIN(31, 32) WITHIN(16, 16)
void lemma_any_p4_nf(void) {
    zt_ipv4_node n, m, q; zt_ipv4_addr a, c, b; zt_ipv4_tbl *t = zt_ipv4_tbl_init(1);
    node(&n, &a, 0x01020300, 24); node(&m, &c, 0, 0); node(&q, &b, (uint32_t)zv_int(), 32);
    zt_ipv4_tbl_add_node(t, &n); zv_check(zt_ipv4_tbl_add_node(t, &m) == 0 && zt_ipv4_tbl_search_node(t, &q) == &m, "the network of everything contains everything");
}
/* many networks, tables of several sizes: found exactly when one contains it */
static const struct { uint32_t v; int len; } N[8] = { { 0x0a000000, 8 }, { 0xc0a80000, 24 }, { 0xc0a80180, 25 }, { 0xc0a80182, 31 }, { 0x08080808, 32 }, { 0x08080888, 32 }, { 0xc0a80100, 24 }, { 0xf0000000, 4 } };
static const struct { uint32_t v; int len; } Q[14] = { { 0x0a010203, 32 }, { 0x0b010203, 32 }, { 0xc0a80001, 32 }, { 0xc0a80000, 23 }, { 0xc0a80181, 32 }, { 0xc0a80183, 32 }, { 0xc0a80180, 26 }, { 0x08080808, 32 }, { 0x08080888, 32 },
    { 0x08080889, 32 }, { 0xffffffff, 32 }, { 0, 32 }, { 0xc0a80000, 16 }, { 0xe0000000, 3 } };
#define MANY(SZ, ROT) void lemma_many##SZ##x##ROT##_p40_nf(void) { \
    zt_ipv4_node n[8], q; zt_ipv4_addr a[8], b; int ok = 1, in = 1; \
    zt_ipv4_tbl *t = zt_ipv4_tbl_init(SZ); \
    for (int i = 0; i < 8; i++) { \
        int k = (i * 3 + ROT) & 7; \
        node(&n[k], &a[k], N[k].v, N[k].len); ok &= zt_ipv4_tbl_add_node(t, &n[k]) == 0; \
        for (int j = 0; j < 14; j++) { \
            int want = 0; node(&q, &b, Q[j].v, Q[j].len); \
            for (int m = 0; m <= i; m++) { int w = (m * 3 + ROT) & 7; want |= Q[j].len >= N[w].len && (Q[j].v & M[N[w].len]) == N[w].v; } \
            zt_ipv4_node *r = zt_ipv4_tbl_search_node(t, &q); \
            ok &= (r != NULL) == want; \
            if (r) in &= r->addr->bitlen <= Q[j].len && (Q[j].v & r->addr->mask) == r->addr->addr; \
        } \
    } \
    zv_check(ok, "an address is found exactly when a network of the table contains it"); \
    zv_check(in, "a network found contains what was asked for"); }
MANY(1, 0) MANY(2, 5) MANY(4, 3) MANY(8, 6) MANY(128, 1) MANY(1024, 2)
/* text */
#define NET(T, V, L) do { uint32_t v = 0; int l = 99; zv_check(zt_ipv4_str2net(T, &v, &l) == 0 && v == (V) && l == (L), "a network is read, with its prefix length"); } while (0)
#define NONET(T) do { uint32_t v = 0; int l = 99; zv_check(zt_ipv4_str2net(T, &v, &l) == -1, "what is not a network is refused"); } while (0)
void lemma_text_p40_nf(void) {
    uint32_t v; int l;
    NET("1.2.3.4", 0x01020304, 32); NET("1.2.3.4/7", 0x01020304, 7); NET("0.0.0.0/0", 0, 0); NET("255.255.255.255", 0xffffffffu, 32); NET("255.255.255.255/12", 0xffffffffu, 12);
    NET("192.168.100.200/31", 0xc0a864c8u, 31); NET("1.2.3.4/32", 0x01020304, 32); NET("1.2.3.4/33", 0x01020304, 32);
    NONET("1.2.3.4/-1"); NONET(NULL); NONET("111.222.333.444.555/3"); NONET("1.2.3.4.5.6.7.8.9/4"); NONET("x"); NONET(""); NONET("1.2.3.4/"); NONET("1.2.3.4/x"); NONET("1.2.3.4/8x"); NONET("1.2.3.4.5.6.7.8.9");
    NONET("1.2.3.256"); NONET("/8");
    zv_check(zt_ipv4_str2net("1.2.3.4", NULL, &l) == -1 && zt_ipv4_str2net("1.2.3.4", &v, NULL) == -1, "a place for the result is required");
    zv_check(zt_ipv4_ip2int("1.2.3.4") == 0x01020304, "an address is read in host order");
    char *s = zt_ipv4_int2ip(0x01020304);
    zv_check(asked.s_addr == 0x04030201 && eq(s, "9.8.7.6"), "an address is written from host order");
    free(s);
}
#define ADDR(T, A, B, L) do { zt_ipv4_addr *a = zt_ipv4_addr_frm_str(T); zv_check(a != NULL && a->addr == (A) && a->broadcast == (B) && a->bitlen == (L) && a->mask == M[L], "a network has its first and last address"); } while (0)
void lemma_addr_p40_nf(void) {
    zv_check(zt_ipv4_addr_frm_str("1.2.3.4") == NULL && zt_ipv4_node_str_init("1.2.3.4") == NULL, "without a table there is no pool");
    zt_ipv4_tbl *t = zt_ipv4_tbl_init(0);
    zv_check(t->sz == 128 && t->any == NULL && groups == 1, "a table has a size by default");
    ADDR("192.168.0.77/24", 0xc0a80000u, 0xc0a800ffu, 24); ADDR("192.168.1.130/31", 0xc0a80182u, 0xc0a80183u, 31); ADDR("1.2.3.4", 0x01020304u, 0x01020304u, 32); ADDR("200.1.2.3/1", 0x80000000u, 0xffffffffu, 1); ADDR("9.9.9.9/0", 0u, 0xffffffffu, 0);
    zt_ipv4_node *n = zt_ipv4_node_str_init("10.1.2.3/8");
    zv_check(n && n->next == NULL && n->addr->addr == 0x0a000000, "a node is made from text");
    int was = made;
    zv_check(zt_ipv4_node_str_init("10.1.2.3/-8") == NULL && zt_ipv4_node_str_init(NULL) == NULL && zt_ipv4_addr_frm_str(NULL) == NULL && made == was, "what is not a network leaves nothing");
    zt_ipv4_tbl_destroy(t);
    zv_check(groups == 0, "destroying a table destroys its pools");
    zt_ipv4_tbl_destroy(NULL);
}
void lemma_use_p40_nf(void) {
    zt_ipv4_tbl *t = zt_ipv4_tbl_init(4);
    zt_ipv4_node *a = zt_ipv4_tbl_add_frm_str(t, "10.0.0.0/8"), *b = zt_ipv4_tbl_add_frm_str(t, "1.2.3.4"), *c;
    zv_check(a && b && a != b, "networks are added from text");
    int was = made;
    zv_check(zt_ipv4_tbl_search_from_str(t, "10.9.8.7") == a && zt_ipv4_tbl_search_from_str(t, "1.2.3.4/32") == b, "what is within a network is found");
    zv_check(zt_ipv4_tbl_search_from_str(t, "1.2.3.5") == NULL && zt_ipv4_tbl_search_from_str(t, "8.0.0.0/6") == NULL && zt_ipv4_tbl_search_from_str(t, "1.2.3.4/-3") == NULL, "what is not within a network is not found");
    zv_check(made == was, "searching leaves nothing behind");
    zv_check(zt_ipv4_tbl_add_frm_str(t, "1.2.3.4/-5") == NULL && zt_ipv4_tbl_add_frm_str(t, NULL) == NULL && zt_ipv4_tbl_add_frm_str(NULL, "1.2.3.4") == NULL && made == was, "what is not a network is not added");
    c = zt_ipv4_tbl_add_frm_str(t, "0.0.0.0/0");
    zv_check(c && zt_ipv4_tbl_search_from_str(t, "99.2.3.5") == c && zt_ipv4_tbl_add_frm_str(t, "7.0.0.0/8") == c, "the network of everything contains everything");
    zv_check(zt_ipv4_tbl_search_from_str(NULL, "1.2.3.4") == NULL && zt_ipv4_tbl_search_from_str(t, NULL) == NULL && zt_ipv4_tbl_add_node(NULL, a) == -1 && zt_ipv4_tbl_add_node(t, NULL) == -1, "arguments are required");
}
void lemma_cmp_p4(void) {
    zt_ipv4_addr h, n; h.addr = (uint32_t)zv_int(); h.broadcast = (uint32_t)zv_int(); n.addr = (uint32_t)zv_int(); n.broadcast = (uint32_t)zv_int();
    zv_check((ipv4_tbl_addr_cmp(&h, &n) == 1) == (n.addr >= h.addr && n.broadcast <= h.broadcast), "within is from the first to the last address");
    zv_check(ipv4_tbl_addr_cmp(NULL, &n) == 0 && ipv4_tbl_addr_cmp(&h, NULL) == 0, "nothing is within nothing");
}
void lemma_nomem_p40_nf(void) {
    for (int k = 0; k < 1; k++) { allow = k; zv_check(zt_ipv4_tbl_init(4) == NULL && groups == 0, "a table that cannot be made is not handed out"); }
    allow = 1; zt_ipv4_tbl *t = zt_ipv4_tbl_init(4); 
    for (int k = 0; k < 3; k++) { allow = k; zv_check(zt_ipv4_tbl_add_frm_str(t, "1.2.3.4") == NULL && made == 0, "a network that cannot be added leaves nothing"); }
    allow = 3; zv_check(zt_ipv4_tbl_add_frm_str(t, "1.2.3.4") != NULL, "a network is added with just enough memory");
    for (int k = 0; k < 2; k++) { allow = k; zv_check(zt_ipv4_tbl_search_from_str(t, "1.2.3.4") == NULL && made == 3, "a search that lacks memory leaves nothing"); }
}
