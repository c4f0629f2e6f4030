//VF source engines/default/item_base.c
//VF const include/memcached/engine_common.h POWER_LARGEST 3
//VF trust 3 slab classes instead of 200 (LRU lists of different classes are independent entries of the same arrays)
//VF trust callees by contract: assoc_* (C05), prefix_* (C17), slabs_* (C16), *_elem_delete_with_count (C12-C14, C35)
//VF harness h_valid props=C03 unwind=4 funcs=do_item_isvalid,item_is_valid
//VF harness h_ref props=C04 unwind=4 funcs=ITEM_REFCOUNT_INCR,ITEM_REFCOUNT_DECR
//VF harness h_layout props=C01 unwind=4 funcs=item_get_key,item_get_data,item_get_meta,item_get_cas,item_set_cas,item_kv_size,item_ntotal,ITEM_ntotal,_hash_item_size
//VF harness h_op props=C04 unwind=8 objbits=11 each=OPX:0-12 kind=bounded timeout=300 bound="LRU lists of 3 items of every kind (plain, expiring, expired, sticky, flushed, large, collection; referenced or not, in or out of the list), every position of the reclaim marks" funcs=do_item_link,do_item_unlink,do_item_replace,do_item_update,do_item_get,do_item_release,do_item_free,item_link_q,item_unlink_q,do_item_stat_link,do_item_stat_unlink,do_item_stat_replace,push_coll_del_queue
//VF harness h_mem props=C06 unwind=8 objbits=11 each=KM:0-14 kind=bounded timeout=600 bound="replacement list of 3 items of every kind, positions of the reclaim marks (the combinations are thinned evenly in the quick tier), memory available after 0 to 3 freed items or never" funcs=do_item_mem_alloc,do_item_reclaim,do_item_invalidate,do_item_evict,do_item_repair,do_item_regain,item_unlink_q,do_item_unlink,do_item_free
#include "vf.h"
#include "config.h"
#include <pthread.h>
#define pthread_mutex_lock(m) vf_ok(m)
#define pthread_mutex_unlock(m) vf_ok(m)
#define pthread_cond_signal(m) vf_ok(m)
static int vf_ok(void *m) { return 0; }
#include "vf_libc.h"
#include VF_SRC
typedef struct { hash_item it; uint64_t cas; char key[8]; list_meta_info meta; } citem;
#define NI 6
static citem I[NI];
static struct default_engine ENG; static SERVER_CORE_API CORE; static SERVER_STAT_API STAT; static EXTENSION_LOGGER_DESCRIPTOR VF_LOGGER;
static struct items ITEMS; static struct engine_stats STATS; static struct engine_config CONF;
static prefix_t PT;
bool item_clog_enabled = false; int MAX_SM_VALUE_LEN = 1000;
static rel_time_t NOW; static bool used[NI], in_hash[NI], freed[NI], flushed[NI]; static int was_alloc[NI]; static int n_evicting, pcount; static long pbytes; static bool pfx_fail, pfx_internal;
static int frees, need_frees, ssl; static citem POOL; static int pool_out; static uint64_t START_CAS;
static int idx(const void *p) { for (int i = 0; i < NI; i++) if (p == (void*)&I[i]) return i; return -1; }
static rel_time_t vf_now(void) { return NOW; }
static uint32_t vf_hash(const void *k, size_t n, const uint32_t iv) { CHECK(n <= 250 && iv == 0, "hash of the key"); return ((const unsigned char*)k)[0] * 7u + n; }
static void vf_evicting(const void *c, const void *k, const int n) { n_evicting++; }
static void vf_log(EXTENSION_LOG_LEVEL severity, const void *client_cookie, const char *fmt, ...) { }
hash_item *assoc_find(const char *key, const uint32_t nkey, uint32_t hash)
{
    for (int i = 0; i < NI; i++) if (in_hash[i] && I[i].key[0] == key[0] && I[i].it.nkey == nkey) { CHECK(hash == I[i].it.khash, "a key is always looked up with the same hash"); return &I[i].it; }
    return NULL;
}
int assoc_insert(hash_item *it, uint32_t hash)
{
    int i = idx(it); CHECK(i >= 0 && !in_hash[i], "an item enters the hash table once"); CHECK(hash == vf_hash(I[i].key, it->nkey, 0) && it->khash == hash, "an item is stored under the hash of its key");
    in_hash[i] = true; return 1;
}
void assoc_delete(const char *key, const uint32_t nkey, uint32_t hash)
{
    hash_item *it = assoc_find(key, nkey, hash); CHECK(it != NULL, "only a stored item is deleted from the hash table"); if (it) in_hash[idx(it)] = false;
}
void assoc_replace(hash_item *o, hash_item *n)
{
    int a = idx(o), b = idx(n); CHECK(a >= 0 && b >= 0 && in_hash[a] && !in_hash[b], "a stored item is replaced by a new one"); CHECK(n->khash == o->khash, "the replacing item has the same hash");
    in_hash[a] = false; in_hash[b] = true;
}
ENGINE_ERROR_CODE prefix_link(hash_item *it, const uint32_t size, bool *internal)
{
    if (pfx_fail) return ENGINE_PREFIX_ENAME;
    CHECK(it->pfxptr == NULL, "an item joins its prefix once"); it->pfxptr = &PT; pcount++; pbytes += size; *internal = pfx_internal; return ENGINE_SUCCESS;
}
void prefix_unlink(hash_item *it, const uint32_t size, bool drop) { CHECK(it->pfxptr == &PT, "an item leaves the prefix it joined"); it->pfxptr = NULL; pcount--; pbytes -= size; }
void prefix_bytes_incr(prefix_t *pt, ENGINE_ITEM_TYPE t, const uint32_t b) { CHECK(pt == &PT, "bytes are accounted to the item's prefix"); pbytes += b; }
void prefix_bytes_decr(prefix_t *pt, ENGINE_ITEM_TYPE t, const uint32_t b) { CHECK(pt == &PT, "bytes are accounted to the item's prefix"); pbytes -= b; }
bool prefix_isvalid(hash_item *it, rel_time_t t) { CHECK(t == NOW, "validity is judged at the current time"); int i = idx(it); return i < 0 || !flushed[i]; }
unsigned int slabs_space_size(const size_t size) { return (size + 7) / 8 * 8 + 8; }
unsigned int slabs_clsid(const size_t size) { return size > 1000 ? 2 : 1; }
int slabs_space_shortage_level(void) { return ssl; }
void slabs_dump_SM_info(void) { }
void slabs_adjust_mem_requested(unsigned int id, size_t o, size_t n) { CHECK(id == 2, "memory of a large class is reused within that class"); }
void *slabs_alloc(const size_t size, unsigned int id)
{
    CHECK(id == slabs_clsid(size), "memory is requested from the class that fits");
    if (frees < need_frees) return NULL;
    pool_out++; return &POOL.it;
}
void slabs_free(void *p, const size_t size, unsigned int id)
{
    int i = idx(p); CHECK(i >= 0 && used[i] && !freed[i], "memory is freed once"); 
    CHECK(id == slabs_clsid(size) && size == ITEM_ntotal(&I[i].it), "memory is freed with its own size and class"); freed[i] = true; frees++;
}
#define ESP 16
uint32_t list_elem_delete_with_count(list_meta_info *info, const uint32_t count)
{
    uint32_t d = info->ccnt < count ? info->ccnt : count; CHECK(info->ccnt > 0, "elements are deleted only from a non-empty collection");
    info->ccnt -= d; if (info->stotal > 0) do_coll_space_decr((coll_meta_info*)info, ITEM_TYPE_LIST, d * ESP); return d;
}
uint32_t set_elem_delete_with_count(set_meta_info *info, const uint32_t count) { CHECK(0, "the item's own type is deleted"); return 0; }
uint32_t map_elem_delete_with_count(map_meta_info *info, const uint32_t count) { CHECK(0, "the item's own type is deleted"); return 0; }
uint32_t btree_elem_delete_with_count(btree_meta_info *info, const uint32_t count) { CHECK(0, "the item's own type is deleted"); return 0; }
/* item kinds */
enum { PLAIN, EXPIRING, EXPIRED, STICKY, FLUSHED, SFLUSHED, BIG, COLL, BIGCOLL, NKIND };
static int kind[NI];
static void mk_base(void)
{
    VF_LOGGER.log = vf_log; logger = &VF_LOGGER; engine = &ENG; config = &CONF; itemsp = &ITEMS; statsp = &STATS; svcore = &CORE; svstat = &STAT;
    CORE.get_current_time = vf_now; CORE.hash = vf_hash; STAT.evicting = vf_evicting; CONF.use_cas = true; CONF.evict_to_free = true; NOW = 1000;
    START_CAS = get_cas_id();
}
static void mk_item(int i, int k, uint16_t ref)
{
    hash_item *it = &I[i].it; kind[i] = k; used[i] = true; it->refcount = ref; it->refchunk = 0; it->nkey = 2; it->iflag = ITEM_WITH_CAS; it->flags = 5; it->pfxptr = NULL; it->h_next = NULL;
    it->nbytes = k == BIG ? 2000 : 2; it->slabs_clsid = k == BIG ? 2 : 1; it->time = 900; I[i].key[0] = 'a' + i; I[i].key[1] = 'k';
    it->exptime = k == EXPIRING ? 2000 : k == EXPIRED ? 1000 : (k == STICKY || k == SFLUSHED) ? (rel_time_t)-1 : 0; flushed[i] = k == FLUSHED || k == SFLUSHED;
    it->prev = it->next = it; it->khash = vf_hash(I[i].key, 2, 0);
    if (k == COLL || k == BIGCOLL) { it->iflag |= ITEM_IFLAG_LIST; I[i].meta.ccnt = k == COLL ? 3 : 700; I[i].meta.stotal = I[i].meta.ccnt * ESP; I[i].meta.itdist = offsetof(citem, meta) / sizeof(size_t); }
}
static int cls(int i) { return kind[i] == BIG ? 2 : 0; }
static bool stk(int i) { return kind[i] == STICKY || kind[i] == SFLUSHED; }
static bool bad(int i) { return kind[i] == EXPIRED || kind[i] == FLUSHED || kind[i] == SFLUSHED; }
static void set_linked(int i, bool lru)     /* links item i at the tail of its list */
{
    hash_item *it = &I[i].it; it->iflag |= ITEM_LINKED; in_hash[i] = true; it->pfxptr = &PT; size_t st = ITEM_stotal(it); pcount++; pbytes += st;
    STATS.curr_items++; STATS.curr_bytes += st; if (stk(i)) { STATS.sticky_items++; STATS.sticky_bytes += st; }
    if (lru) {
        hash_item **h = stk(i) ? &ITEMS.sticky_heads[cls(i)] : &ITEMS.heads[cls(i)], **t = stk(i) ? &ITEMS.sticky_tails[cls(i)] : &ITEMS.tails[cls(i)];
        it->prev = *t; it->next = NULL; if (*t) (*t)->next = it; else *h = it; *t = it;
        if (stk(i)) ITEMS.sticky_sizes[cls(i)]++; else ITEMS.sizes[cls(i)]++;
    }
}
static int rank[NI];
static void check_list(int c, bool s, bool *seen)
{
    hash_item *p = s ? ITEMS.sticky_heads[c] : ITEMS.heads[c], *q = NULL, *low = ITEMS.lowMK[c], *cur = s ? ITEMS.sticky_curMK[c] : ITEMS.curMK[c]; int n = 0, last = -2, pl = -1, pc = -1;
    for (int k = 0; k < NI && p; k++) {
        int i = idx(p); CHECK(i >= 0 && (p->iflag & ITEM_LINKED) && !freed[i], "the replacement list holds only items in use");
        if (i < 0) return;
        CHECK(cls(i) == c && stk(i) == s && !seen[i], "every item is in the list of its size class and stickiness");
        CHECK(p->prev == q, "the replacement list is doubly linked"); CHECK(rank[i] > last, "the replacement list is ordered by most recent use"); last = rank[i];
        if (p == low) pl = n; if (p == cur) pc = n; seen[i] = true; n++; q = p; p = p->next;
    }
    CHECK(p == NULL && (s ? ITEMS.sticky_tails[c] : ITEMS.tails[c]) == q && (s ? ITEMS.sticky_sizes[c] : ITEMS.sizes[c]) == n, "the replacement list ends at its tail and its size is exact");
    if (!s) { CHECK((low == NULL) == (cur == NULL), "both reclaim marks are set or none"); if (low && cur) CHECK(pl >= 0 && pc >= 0 && pc <= pl, "the reclaim marks are inside the list, the current one nearer to its head"); }
    else if (cur) CHECK(pc >= 0, "the sticky reclaim mark is inside the list");
}
static bool in_lru[NI];
static void check_all(void)
{
    bool seen[NI]; uint64_t ci = 0, cb = 0, si = 0, sb = 0; for (int i = 0; i < NI; i++) seen[i] = false;
    for (int c = 0; c <= 2; c++) { check_list(c, false, seen); check_list(c, true, seen); }
    for (int i = 0; i < NI; i++) if (used[i]) {
        hash_item *it = &I[i].it; bool linked = it->iflag & ITEM_LINKED; in_lru[i] = seen[i];
        if (freed[i]) { CHECK(!in_hash[i] && !seen[i], "freed memory is not reachable"); continue; }
        CHECK(linked == in_hash[i], "an item is linked exactly when the hash table holds it");
        CHECK(linked == (it->pfxptr == &PT), "an item belongs to its prefix exactly while it is linked");
        if (linked) { size_t st = ITEM_stotal(it); ci++; cb += st; if (stk(i)) { si++; sb += st; }
            if (!seen[i]) CHECK(it->refcount > 0 && it->prev == it && it->next == it, "a linked item outside the replacement list is referenced"); }
        else { CHECK(!seen[i], "an unlinked item is in no list"); }
    }
    CHECK(STATS.curr_items == ci && STATS.curr_bytes == cb, "item and byte totals are exact"); CHECK(STATS.sticky_items == si && STATS.sticky_bytes == sb, "sticky totals are exact");
    CHECK(pcount == ci && pbytes == cb, "prefix totals are exact");
}
#if VF_H_h_valid
void h_valid(void)
{
    mk_base(); mk_item(0, PLAIN, 0); hash_item *it = &I[0].it; it->exptime = nd_u32(); it->time = nd_u32(); CONF.oldest_live = nd_u32(); NOW = nd_u32(); bool fl = nd_bool(); flushed[0] = fl; it->iflag = nd_u8();
    bool exp = it->exptime != 0 && it->exptime <= NOW, flu = CONF.oldest_live != 0 && CONF.oldest_live <= NOW && it->time <= CONF.oldest_live;
    uint8_t f = it->iflag; bool v = do_item_isvalid(it, NOW);
    CHECK(v == (!exp && !flu && !fl), "an item is valid exactly when it is not expired, not flushed, and its prefix is not flushed");
    CHECK(item_is_valid(it) == (v && (f & ITEM_LINKED)), "a valid item is linked");
    if (v) COVER("valid"); if (exp) COVER("expired"); if (flu) COVER("flushed");
}
#endif
#if VF_H_h_ref
void h_ref(void)
{
    hash_item *it = &I[0].it; it->refcount = nd_u16(); it->refchunk = nd_u8(); uint16_t c = it->refcount; uint8_t k = it->refchunk;
    ASSUME(c < ITEM_REFCOUNT_FULL && (c > 0 || k == 0) && k < 255); uint64_t n = (uint64_t)k * ITEM_REFCOUNT_MOVE + c;
    ITEM_REFCOUNT_INCR(it); CHECK((uint64_t)it->refchunk * ITEM_REFCOUNT_MOVE + it->refcount == n + 1, "taking a reference adds one to the reference total"); CHECK(it->refcount > 0 && it->refcount < ITEM_REFCOUNT_FULL, "a referenced item has a positive count");
    if (nd_bool()) { ITEM_REFCOUNT_DECR(it); CHECK((uint64_t)it->refchunk * ITEM_REFCOUNT_MOVE + it->refcount == n, "references are given back exactly"); CHECK((it->refcount == 0) == (n == 0), "the count is zero exactly when no reference is left"); COVER("back"); }
    else { it->refcount = c; it->refchunk = k; ASSUME(n > 0); ITEM_REFCOUNT_DECR(it); CHECK((uint64_t)it->refchunk * ITEM_REFCOUNT_MOVE + it->refcount == n - 1, "giving back a reference subtracts one"); CHECK((it->refcount == 0) == (n == 1), "the count is zero exactly when no reference is left"); COVER("released"); }
}
#endif
#if VF_H_h_layout
void h_layout(void)
{
    mk_base(); hash_item *it = &I[0].it; it->iflag = nd_u8(); it->nkey = nd_u16(); it->nbytes = nd_u32(); CONF.use_cas = nd_bool(); ASSUME(it->nkey > 0 && it->nbytes >= 2 && it->nbytes < 0x40000000);
    size_t h = sizeof(hash_item) + ((it->iflag & ITEM_WITH_CAS) ? 8 : 0); int t = it->iflag & ITEM_IFLAG_COLL; ASSUME(t <= 4);
    CHECK(item_get_key(it) == (char*)it + h, "the key follows the header"); CHECK(item_get_data(it) == (char*)it + h + it->nkey, "the value follows the key");
    size_t tot = ITEM_ntotal(it), m = ((size_t)it->nkey + it->nbytes + 7) / 8 * 8;
    size_t ms = t == 1 ? sizeof(list_meta_info) : t == 2 ? sizeof(set_meta_info) : t == 3 ? sizeof(map_meta_info) : t == 4 ? sizeof(btree_meta_info) : 0;
    if (t) { CHECK(item_get_meta(it) == (char*)it + h + m, "the meta information follows the value, aligned"); CHECK(tot == h + m + ms, "the size of a collection item covers header, key, value and meta information"); COVER("collection"); }
    else { CHECK(item_get_meta(it) == NULL, "a plain item has no meta information"); CHECK(tot == h + it->nkey + it->nbytes, "the size of an item is header, key and value"); CHECK(item_ntotal(it) == tot, "size"); COVER("plain"); }
    if (!t && CONF.use_cas == ((it->iflag & ITEM_WITH_CAS) != 0)) CHECK(item_kv_size(it->nkey, it->nbytes) == tot, "the size requested for a new item is the size of that item");
    uint64_t v = nd_u64(), old = I[0].cas; item_set_cas(it, v); CHECK(item_get_cas(it) == ((it->iflag & ITEM_WITH_CAS) ? v : 0), "the unique is stored exactly in items that have one"); if (!(it->iflag & ITEM_WITH_CAS)) CHECK(I[0].cas == old, "an item without unique is left alone");
}
#endif
/* three linked items 0,1,2 (head to tail); x is the operand: of kind k and mode m (0 unreferenced, 1 referenced in list, 2 referenced outside list) */
static int OX;
static void mk_three(int x, int k, int m, int ok, int lo, int cu)
{
    int pos = 0; OX = x;
    for (int i = 0; i < 3; i++) { int kk = i == x ? k : ok; mk_item(i, kk, i == x && m ? 1 : 0); set_linked(i, !(i == x && m == 2)); rank[i] = i; }
    rank[3] = -1; rank[4] = rank[5] = 9;
    if (lo >= 0 && I[lo].it.prev != &I[lo].it) { int c = cls(lo); if (stk(lo)) ITEMS.sticky_curMK[c] = &I[lo].it; else if (!stk(cu) && cls(cu) == c && I[cu].it.prev != &I[cu].it) { ITEMS.lowMK[c] = &I[lo].it; ITEMS.curMK[c] = &I[cu].it; } }
}
#if VF_H_h_op
#if OPX < 6
#define OP (OPX / 3)
#define X OPX % 3
#else
#define OP (OPX - 4)
#define X 1
#endif
static bool gone(int i) { return freed[i] || (&I[i].it == coll_del_queue.head && coll_del_queue.size == 1 && coll_del_queue.tail == &I[i].it && I[i].it.next == NULL); }
static void check_gone(int i, bool referenced)
{
    CHECK(!in_hash[i], "an unlinked item is not found"); CHECK(freed[i] || !(I[i].it.iflag & ITEM_LINKED), "an unlinked item is marked so");
    if (referenced) CHECK(!gone(i), "a referenced item is kept until released"); else CHECK(gone(i), "an unlinked item that nobody references is freed, or queued for background deletion while it has elements");
    if ((kind[i] == COLL || kind[i] == BIGCOLL) && !freed[i]) CHECK(I[i].meta.stotal == 0, "the space of an unlinked collection is no longer accounted");
}
static void one(int x, int k, int m, int ok, int lo, int cu)
{
    mk_base(); mk_three(x, k, m, ok, lo, cu); hash_item *it = &I[x].it; uint16_t ref = it->refcount;
#if OP == 0
    do_item_unlink(it, ITEM_UNLINK_NORMAL); check_gone(x, m > 0); COVER("unlinked");
    if (m) { do_item_release(it); CHECK(gone(x), "the last release frees an unlinked item"); }
    check_all();
#elif OP == 1
    for (int kk = 0; kk < 3; kk++) ;
    mk_item(3, ok == PLAIN ? (k == STICKY ? PLAIN : k == EXPIRING ? BIG : STICKY) : EXPIRING, 1); I[3].key[0] = 'a' + x; I[3].it.pfxptr = NULL;
    if (k == FLUSHED) { it->iflag |= ITEM_INTERNAL; }
    do_item_replace(it, &I[3].it); rank[3] = -1; check_gone(x, m > 0); check_all();
    CHECK(in_hash[3] && in_lru[3] && I[3].it.time == NOW && I[3].it.refcount == 1, "the replacing item takes the key and is the most recently used");
    CHECK(I[3].cas > START_CAS, "a stored item gets a new unique"); CHECK(((I[3].it.iflag & ITEM_INTERNAL) != 0) == (k == FLUSHED), "the internal mark is kept"); COVER("replaced");
    do_item_release(&I[3].it); if (m) { do_item_release(it); CHECK(gone(x), "the last release frees a replaced item"); } check_all(); CHECK(!freed[3], "a linked item stays after its release");
#elif OP == 2
    it->time = lo < 0 ? NOW - 61 : NOW - 60; rel_time_t t0 = it->time; bool force = ok == STICKY, mv = force || t0 < NOW - 60;
    do_item_update(it, force); if (mv) rank[x] = -1; check_all(); CHECK(it->time == (mv ? NOW : t0), "the access time is refreshed when it is older than the update interval"); CHECK(in_lru[x] == (mv || m != 2), "a used item is in the replacement list");
    CHECK(it->refcount == ref && in_hash[x], "an update changes only the position"); COVER("updated");
#elif OP == 3
    char key[2] = { 'a' + x, 'k' }; bool up = ok == PLAIN; it->time = NOW - 100; hash_item *r = do_item_get(key, 2, up);
    if (bad(x)) { CHECK(r == NULL, "an expired or flushed item is not returned"); check_gone(x, m > 0); }
    else { CHECK(r == it && it->refcount == ref + 1, "a lookup returns the item with a new reference"); if (up) rank[x] = -1; }
    check_all(); if (!bad(x)) { if (up) CHECK(in_lru[x] && it->time == NOW, "a read makes the item the most recently used"); do_item_release(it); check_all(); CHECK(it->refcount == ref && in_hash[x], "releasing a linked item keeps it"); }
    COVER("get");
#elif OP == 4
    if (m == 0) return;
    do_item_release(it); if (m == 2) rank[x] = -1;
    if (m == 2 && bad(x)) check_gone(x, false); else CHECK(in_hash[x] && !freed[x] && it->refcount == 0, "a release keeps a linked item");
    check_all(); if (in_hash[x]) CHECK(in_lru[x], "an unreferenced linked item is in the replacement list"); if (m == 2) COVER("relinked"); 
#elif OP == 5
    if (m) return;
    mk_item(3, k, 1); pfx_fail = ok == STICKY; pfx_internal = lo < 0; rank[3] = -1; uint64_t tot = STATS.total_items;
    ENGINE_ERROR_CODE r = do_item_link(&I[3].it); CHECK(r == (pfx_fail ? ENGINE_PREFIX_ENAME : ENGINE_SUCCESS), "a new item is stored unless its prefix is refused"); check_all();
    CHECK(in_hash[3] == (r == ENGINE_SUCCESS) && in_lru[3] == in_hash[3], "a stored item is found and replaceable");
    if (r == ENGINE_SUCCESS) { CHECK(I[3].it.time == NOW && I[3].cas > START_CAS && STATS.total_items == tot + 1, "a stored item gets the current time and a new unique"); CHECK(((I[3].it.iflag & ITEM_INTERNAL) != 0) == pfx_internal, "items of the internal prefix are marked"); COVER("linked"); } else COVER("refused");
    do_item_release(&I[3].it); check_all(); CHECK(gone(3) == (r != ENGINE_SUCCESS), "a refused item is freed at its release");
#elif OP == 6
    CONF.sticky_limit = ok == STICKY ? STATS.sticky_bytes + (x == 0) : 1000000; bool s = k == STICKY; bool refuse = s && STATS.sticky_bytes >= CONF.sticky_limit; bool nokey = m == 1; CONF.use_cas = x != 1;
    char key[2] = { 'z', 'q' }; need_frees = m == 2 ? 100 : 0; CONF.evict_to_free = false;
    hash_item *r = do_item_alloc(nokey ? NULL : key, 2, 77, s ? (rel_time_t)-1 : k == EXPIRING ? 2000 : 0, 2, NULL);
    bool rec = ITEMS.curMK[0] != NULL || ITEMS.sticky_curMK[0] != NULL;
    if (refuse) CHECK(r == NULL, "no sticky item is created at the sticky limit");
    if (!refuse && m != 2) CHECK(r == &POOL.it, "memory is allocated");
    if (r) { CHECK(r->refcount == 1 && r->refchunk == 0 && r->nkey == 2 && r->nbytes == 2 && r->flags == 77 && r->pfxptr == NULL && r->h_next == NULL && r->prev == r && r->next == r, "a new item is private, referenced once, with the requested sizes and flags");
             CHECK(r->iflag == (CONF.use_cas ? ITEM_WITH_CAS : 0) && r->exptime == (s ? (rel_time_t)-1 : k == EXPIRING ? 2000 : 0) && r->slabs_clsid == slabs_clsid(item_kv_size(2, 2)), "a new item has the requested expiry and class");
             if (!nokey) { const char *kp = item_get_key(r); CHECK(kp[0] == 'z' && kp[1] == 'q', "the key is copied"); } COVER("allocated"); } 
    check_all(); if (refuse) COVER("sticky limit");
#elif OP == 7
    if (m != 1 || k != COLL && k != BIGCOLL) return;
    mk_item(3, COLL, 1); mk_item(4, COLL, 1); mk_item(5, BIGCOLL, 1); I[3].meta.stotal = I[4].meta.stotal = I[5].meta.stotal = 0;
    it->refcount = 0; do_item_unlink(it, ITEM_UNLINK_NORMAL); do_item_free((I[3].it.refcount = 0, &I[3].it)); if (lo >= 0) do_item_free((I[4].it.refcount = 0, &I[4].it)); 
    CHECK(coll_del_queue.size == 2 + (lo >= 0), "queued collections are counted"); hash_item *p = pop_coll_del_queue(), *q = pop_coll_del_queue();
    CHECK(p == it && q == &I[3].it, "collections are deleted in the order they were queued"); p = pop_coll_del_queue(); CHECK(p == (lo >= 0 ? &I[4].it : NULL), "every queued collection is deleted once");
    CHECK(pop_coll_del_queue() == NULL && coll_del_queue.size == 0 && coll_del_queue.head == NULL && coll_del_queue.tail == NULL, "the queue empties"); do_item_free((I[5].it.refcount = 0, &I[5].it)); CHECK(pop_coll_del_queue() == &I[5].it, "the queue can be reused");
    while (I[5].meta.ccnt > 0) do_coll_elem_delete_with_count(&I[5].it, 500); do_item_free(&I[5].it); CHECK(freed[5], "an emptied collection is freed"); COVER("queue");
#elif OP == 8
    size_t st = ITEM_stotal(it); if (k != COLL) return; uint64_t b = STATS.curr_bytes; coll_meta_info *info = (coll_meta_info*)item_get_meta(it); CHECK(info == (void*)&I[x].meta, "meta");
    do_coll_space_incr(info, ITEM_TYPE_LIST, 24); CHECK(STATS.curr_bytes == b + 24 && I[x].meta.stotal == 3 * ESP + 24 && ITEM_stotal(it) == st + 24, "growing a collection is accounted to it, the server and the prefix"); check_all();
    do_coll_space_decr(info, ITEM_TYPE_LIST, 40); check_all(); CHECK(I[x].meta.stotal == 3 * ESP - 16, "shrinking a collection is accounted"); COVER("space");
#endif
}
void h_op(void)
{
    static const int LO[] = { -1, 0, 1, 1, 2, 2, 2 }, CU[] = { -1, 0, 0, 1, 0, 1, 2 };
    CASES();
    for (int x = 0; x < 3; x++) for (int k = 0; k < NKIND; k++) for (int m = 0; m < 3; m++) for (int o = 0; o < 2; o++) for (int c = 0; c < 7; c++) {
        if (x != X && !(OP > 1 && k == STICKY && m == 0)) continue;
        if (o && c) continue; if (OP > 1 && c > 1) continue; if (c > 1 && (k > BIG || m != ((c + k) & 1))) continue;
        CASE(one(x, k, m, o ? STICKY : PLAIN, LO[c], CU[c]));
    }
}
#endif

#if VF_H_h_mem
#define K (KM / 3)
#define MODE (KM % 3)
#ifdef VF_THOROUGH
#define PR(n) ((n) / 3)
#else
#define PR(n) (n)
#endif
/* kinds of list members: valid, valid and referenced, expired, expired and referenced */
static int KD[4]; static int NIT;
static void check_mem(hash_item *r, bool big, bool evict, uint64_t ev0, uint64_t rec0)
{
    uint64_t nv = 0, nb = 0; int removable = 0;
    if (r) CHECK(r == &POOL.it || (big && idx(r) >= 0 && !in_hash[idx(r)] && !freed[idx(r)] && r->refcount == 0), "memory comes from the allocator or from a reclaimed item of the same class");
    if (r) CHECK(r->slabs_clsid == 0, "allocated memory carries no class yet");
    for (int i = 0; i < NIT; i++) {
        bool ref = KD[i] & 1, dead = KD[i] & 2;
        if (ref) { CHECK(in_hash[i] && !freed[i] && I[i].it.refcount == 1, "a referenced item is never evicted or reclaimed"); continue; }
        if (stk(i) && !dead) { CHECK(in_hash[i] && !freed[i], "a valid sticky item is never evicted"); continue; }
        if (!stk(i)) removable++;
        if (in_hash[i]) { CHECK(!freed[i], "a stored item keeps its memory"); if (!dead) for (int j = 0; j < i; j++) if (!stk(j) && !(KD[j] & 3)) CHECK(in_hash[j], "valid items are evicted from the least recently used end"); continue; }
        if (r != &I[i].it) CHECK(freed[i], "the memory of a removed item is freed");
        if (dead) nb++; else { nv++; CHECK(evict, "valid items are evicted only when eviction is allowed"); }
    }
    CHECK(STATS.evictions - ev0 == nv && STATS.reclaimed - rec0 == nb, "evictions and reclaims are counted");
    CHECK(n_evicting == nv, "every eviction is reported");
    if (nv > 0) CHECK(frees >= 1, "eviction frees memory");
    if (r && r == &POOL.it) CHECK(pool_out == 1, "one block is taken"); 
    if (!r) CHECK(pool_out == 0, "no memory is lost when the allocation fails");
    if (evict && need_frees <= removable) CHECK(r != NULL, "an allocation succeeds when evicting unreferenced items makes room");
    if (!r) CHECK(STATS.outofmemorys == 1, "a failed allocation is counted");
    for (int i = 0; i < NIT; i++) if (r == &I[i].it) freed[i] = true;
    check_all();
}
static void mem_case(int n, int ks, bool stick, bool big, int lo, int cu, bool evict)
{
    mk_base(); NIT = n; CONF.evict_to_free = evict; need_frees = K == 4 ? 100 : K; ssl = (lo == -1 && K == 0 && !big) ? 2 : 0;
    for (int i = 0; i < n; i++, ks /= 4) {
        KD[i] = ks % 4; bool s = stick && i < n - 1; mk_item(i, s ? (KD[i] & 2 ? SFLUSHED : STICKY) : big ? BIG : KD[i] & 2 ? EXPIRED : (i & 1) ? EXPIRING : PLAIN, KD[i] & 1); if (big && (KD[i] & 2)) flushed[i] = true;
        set_linked(i, true); rank[i] = i;
    }
    int c = big ? 2 : 0; if (lo >= 0) { if (stick) ITEMS.sticky_curMK[c] = &I[lo].it; else { ITEMS.lowMK[c] = &I[lo].it; ITEMS.curMK[c] = &I[cu].it; } }
    hash_item *r = do_item_mem_alloc(big ? 2050 : 60, big ? 2 : 1, (void*)&CONF);
    check_mem(r, big, evict || 0, 0, 0);
#if K < 3 || MODE == 2 || (K == 3 && MODE == 0)
    if (r) COVER("allocated");
#endif
#if K > 0
    if (!r) COVER("no memory");
#endif
}
void h_mem(void)
{
    CASES();
    for (int ks = 0; ks < 64; ks++) for (int ev = 0; ev < 2; ev++) for (int lo = -1; lo < 3; lo++) for (int cu = (lo < 0 ? -1 : 0); cu <= lo; cu++) {
        if (MODE == 0 && (lo >= 0 ? (ks + 2 * lo + cu + ev) % PR(11) : (ks + ev) % PR(3))) continue;
        if (MODE == 1 && ((lo >= 0 && cu != lo) || (ks + lo + ev) % PR(7))) continue;
        if (MODE == 2 && (ks + 2 * lo + cu + ev) % PR(13)) continue;
        CASE(mem_case(3, ks, MODE == 1, MODE == 2, lo, cu, ev));
    }
}
#endif
