/* Pools and heaps reduced to their contracts, for clients of modules that use them. */
#include "lemma.h"
struct rp { long n; };
zt_mem_pool *zt_mem_pool_get(char *name) { return NULL; }
static size_t elt;
zt_mem_pool *zt_mem_pool_init(char *name, long elts, size_t size, zt_page_release_test release_test, void *cb, int flags) {
    size_t *p = malloc(sizeof(size_t));
    if (p) *p = size;
    return (zt_mem_pool *)p;
}
void *zt_mem_pool_alloc(zt_mem_pool *pool) { return pool == NULL ? NULL : malloc(*(size_t *)pool); }
void zt_mem_pool_release(void **data) { free(*data); *data = NULL; }
int zt_mem_pool_destroy(zt_mem_pool **pool) { free(*pool); *pool = NULL; return 0; }
zt_mem_heap *zt_mem_heap_init(char *name, size_t size) { return malloc(size); }
void *zt_mem_heap_get_data(zt_mem_heap *heap) { return heap; }
void zt_mem_heap_destroy(zt_mem_heap **heap) { free(*heap); *heap = NULL; }
