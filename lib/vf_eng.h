/* Environment of the storage-engine units: the allocator, slab and accounting callees by contract.
 *  do_item_mem_alloc: may fail; otherwise fresh memory of the requested size
 *  do_item_mem_free : the pointer must be a live allocation of exactly the given size (CBMC/ASAN detect double free
 *                     and later use)
 *  slabs_space_size : a fixed positive function of the size
 */
#ifndef VF_ENG_H
#define VF_ENG_H
static long vf_live, vf_live_bytes;     /* allocations outstanding */
static bool vf_alloc_may_fail;
static int vf_alloc_calls, vf_alloc_fail_at = -1;
unsigned int slabs_space_size(const size_t size) { return (size + 7) / 8 * 8 + 8; }
unsigned int slabs_clsid(const size_t size) { return 1; }
static void *vf_eng_malloc(size_t n);
void *do_item_mem_alloc(const size_t ntotal, const unsigned int clsid, const void *cookie)
{
    if (vf_alloc_may_fail && vf_alloc_calls++ == vf_alloc_fail_at) return NULL;
    void *p = vf_eng_malloc(ntotal);
    vf_live++; vf_live_bytes += ntotal;
    return p;
}
void do_item_mem_free(void *item, size_t ntotal)
{
    vf_live--; vf_live_bytes -= ntotal;
    free(item);
}
#endif
