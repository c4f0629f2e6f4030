/* Environment of the collection units: one key, whose item is IT when present; item-level callees by contract.
 * The unit defines META (the collection's meta structure) before including this file, and VF_ITFLAG (its type flag).
 * The cache lock is a ghost: locking twice, unlocking twice, or calling an item-level function without it is an error. */
#ifndef VF_COLL_H
#define VF_COLL_H
typedef struct { hash_item it; uint64_t key; META info; } coll_item_t;
static coll_item_t IT;
static bool vf_present, vf_item_nomem, vf_link_fail, sticky_over;
static int vf_unlinked, vf_linked, vf_locked;
static struct default_engine ENG;
bool item_clog_enabled = false;
static int vf_mutex_lock(void *m) { CHECK(vf_locked == 0, "the cache lock is not taken twice"); vf_locked = 1; return 0; }
static int vf_mutex_unlock(void *m) { CHECK(vf_locked == 1, "the cache lock is released by its holder"); vf_locked = 0; return 0; }
const void *item_get_meta(const hash_item *it) { CHECK(it == &IT.it, "the meta information is the item's own"); return &IT.info; }
const void *item_get_key(const hash_item *it) { return &IT.key; }
char *item_get_data(const hash_item *it) { return (char*)&IT.key + 4; }
hash_item *do_item_get(const char *key, const uint32_t nkey, bool do_update)
{
    CHECK(vf_locked, "the hash table is accessed under the cache lock");
    if (!vf_present) return NULL;
    IT.it.refcount++; return &IT.it;
}
void do_item_release(hash_item *it)
{
    CHECK(vf_locked, "items are released under the cache lock");
    CHECK(it == &IT.it && it->refcount > 0, "an item is released only by a holder"); it->refcount--;
}
void do_item_unlink(hash_item *it, enum item_unlink_cause cause)
{
    CHECK(vf_locked && it == &IT.it && vf_present, "a linked item is unlinked, under the cache lock"); vf_present = false; vf_unlinked++;
}
ENGINE_ERROR_CODE do_item_link(hash_item *it)
{
    CHECK(vf_locked && it == &IT.it && !vf_present, "a fresh item is linked, under the cache lock");
    if (vf_link_fail) return ENGINE_ENOMEM;
    vf_present = true; vf_linked++; return ENGINE_SUCCESS;
}
hash_item *do_item_alloc(const void *key, const uint32_t nkey, const uint32_t flags, const rel_time_t exptime, const uint32_t nbytes, const void *cookie)
{
    if (vf_item_nomem) return NULL;
    CHECK(!vf_present, "no item is created over an existing key");
    CHECK(nkey + nbytes >= META_OFFSET_IN_ITEM(nkey, 2) + sizeof(META), "the item has room for key, value and meta information");
    IT.it.refcount = 1; IT.it.flags = flags; IT.it.exptime = exptime; IT.it.nkey = nkey; IT.it.nbytes = nbytes; IT.it.iflag = 0;
    return &IT.it;
}
bool item_is_valid(hash_item *it) { return vf_present; }
bool do_item_sticky_overflowed(void) { return sticky_over; }
static size_t vf_space_lo;
void do_coll_space_incr(coll_meta_info *i, ENGINE_ITEM_TYPE t, const size_t n) { CHECK((void*)i == (void*)&IT.info && t == VF_ITYPE, "space is accounted to the collection and its type"); i->stotal += n; }
void do_coll_space_decr(coll_meta_info *i, ENGINE_ITEM_TYPE t, const size_t n)
{
    CHECK((void*)i == (void*)&IT.info && t == VF_ITYPE, "space is accounted to the collection and its type");
    CHECK(i->stotal >= n, "space accounting never underflows"); i->stotal -= n;
}
static EXTENSION_LOGGER_DESCRIPTOR VF_LOGGER;
static void vf_log(EXTENSION_LOG_LEVEL severity, const void *client_cookie, const char *fmt, ...) { }
static void mk_coll(void)
{
    VF_LOGGER.log = vf_log; logger = &VF_LOGGER;
    engine = &ENG; config = &ENG.config; ENG.config.max_list_size = ENG.config.max_set_size = ENG.config.max_map_size = ENG.config.max_btree_size = 50000;
    vf_present = true; IT.it.refcount = 0; IT.it.iflag = VF_ITFLAG; IT.it.nkey = 8; IT.it.nbytes = 2; IT.it.exptime = 0; IT.it.flags = 0x51;
    IT.info.mcnt = 4000; IT.info.ccnt = 0; IT.info.mflags = COLL_META_FLAG_READABLE; IT.info.stotal = 0; IT.info.itdist = offsetof(coll_item_t, info) / sizeof(size_t);
}
static void check_api(void)
{
    CHECK(vf_locked == 0, "every operation releases the cache lock");
    CHECK(IT.it.refcount == 0, "every operation releases the item it looked up");
}
#endif
