//VF source engines/default/coll_set.c
//VF const engines/default/item_base.h SET_MAX_HASHCHAIN_SIZE 4
//VF trust a hash-chain limit of 4 instead of 64 exercises the same code paths (it is a parameter of the code)
//VF trust genhash_string_hash is used by contract: a function of the value; the units choose its results per case
//VF harness h_set props=C13 unwind=20 objbits=13 each=PAT:0-6 kind=bounded timeout=400 bound="sets of up to 12 elements, 7 hash-collision patterns (none to all 32 bits equal), chain limit 4" funcs=set_elem_insert,do_set_elem_link,do_set_node_link,do_set_node_unlink,do_set_elem_unlink,set_elem_delete,do_set_elem_traverse_delete,set_elem_exist,do_set_elem_find
//VF harness h_get props=C13 unwind=20 objbits=13 each=PAT:0-6 kind=bounded timeout=400 bound="sets of up to 12 elements, 7 hash-collision patterns, every count, several random sequences" funcs=set_elem_get,do_set_elem_get,do_set_elem_traverse_dfs,do_set_elem_traverse_rand,do_set_elem_traverse_sampling,do_set_elem_at_offset
//VF harness h_refuse props=C13 unwind=20 objbits=13 each=PAT:0-6 kind=bounded timeout=400 bound="sets of up to 12 elements, every failing allocation, full sets, sticky limit" funcs=do_set_elem_insert,set_elem_insert
//VF harness h_attr props=C15 unwind=6 defs=-DPAT=0 funcs=set_coll_setattr,set_coll_getattr,do_set_real_maxcount,do_set_item_alloc kind=bounded bound="at most 4 attributes per request, all values"
#include "vf.h"
#include "config.h"
#include <pthread.h>
#define pthread_mutex_lock(m) vf_mutex_lock(m)
#define pthread_mutex_unlock(m) vf_mutex_unlock(m)
static int vf_mutex_lock(void *m); static int vf_mutex_unlock(void *m);
#define VF_LOOP_MEM
#include "vf_libc.h"
#define rand vf_rand
static int vf_rand(void);
#include VF_SRC
#define META set_meta_info
#define VF_ITFLAG ITEM_IFLAG_SET
#define VF_ITYPE ITEM_TYPE_SET
#include "vf_coll.h"
#include "vf_eng.h"
static void *vf_eng_malloc(size_t n) { return n == sizeof(set_hash_node) ? vf_alloc(sizeof(set_hash_node)) : vf_alloc(sizeof(set_elem_item) + 8); }
static int RSEED, RCNT;
static int vf_rand(void) { RCNT++; return (RSEED * 7 + RCNT * (RSEED + 3)) % 97; }
#define MAXN 14
#define NPAT 12
static set_elem_item *EL[MAXN]; static bool IN[MAXN]; static int NHELD;
/* hash patterns: which nibbles of the hash depend on the value */
static uint32_t hv(int id)
{
    switch (PAT) {
    case 0: return id;
    case 1: return 0x5 | (id << 4);
    case 2: return (id & 3) | ((id >> 2) << 8);
    case 3: return 0x31 | ((id % 3) << 8) | ((id / 3) << 12);
    case 4: return 0x89abcde | ((uint32_t)id << 28);
    case 5: return 0xfedcba98u;
    default: return 0x80000000u | (id & 1);
    }
}
/* value number id: 1 + id % 3 bytes id / 3, so that values are prefixes of each other */
#define VLEN(id) (1 + (id) % 3)
#define VBYTE(id) ((id) / 3)
#define VID(p, n) (3 * ((const unsigned char*)(p))[0] + (n) - 1)
int genhash_string_hash(const void *p, size_t n) { CHECK(n >= 1 && n <= 3, "the whole value is hashed"); return (int)hv(VID(p, n)); }
#define ESZ(id) (sizeof(set_elem_item) + VLEN(id))
static char *val(int id) { static char B[4]; B[0] = B[1] = B[2] = VBYTE(id); return B; }
static set_elem_item *mk_elem(int id)
{
    set_elem_item *e = vf_alloc(sizeof(set_elem_item) + 8); vf_live++;
    e->refcount = 0; e->slabs_clsid = 1; e->nbytes = VLEN(id); for (int i = 0; i < VLEN(id); i++) ((char*)e)[offsetof(set_elem_item, value) + i] = VBYTE(id); e->next = (set_elem_item*)ADDR_MEANS_UNLINKED;
    return e;
}
static int n_nodes;
static bool seen[MAXN];
static int walk(set_hash_node *nd, int depth, uint32_t prefix)
{
    int tot = 0; n_nodes++;
    CHECK(nd->hdepth == depth, "hash nodes know their level");
    for (int h = 0; h < SET_HASHTAB_SIZE; h++) {
        uint32_t pre = depth < 8 ? prefix | ((uint32_t)h << (4 * depth)) : prefix;
        if (nd->hcnt[h] == -1) { int t = walk(nd->htab[h], depth + 1, pre); CHECK(((set_hash_node*)nd->htab[h])->tot_elem_cnt == t, "every node counts the elements below it"); tot += t; }
        else {
            set_elem_item *e = nd->htab[h]; int c = 0;
            for (int k = 0; k < NPAT + 1 && e; k++) {
                int id = VID(e->value, e->nbytes);
                CHECK(id < MAXN && IN[id] && EL[id] == e && !seen[id], "the set holds exactly the stored elements, each once"); seen[id] = true;
                uint32_t mask = depth >= 7 ? 0xffffffffu : ((1u << (4 * (depth + 1))) - 1);
                CHECK(e->hval == hv(id) && ((hv(id) ^ pre) & mask) == 0, "every element sits where its hash leads");
                c++; e = e->next;
            }
            CHECK(e == NULL && nd->hcnt[h] == c, "every chain count equals the chain length"); tot += c;
        }
    }
    return tot;
}
static void check_set(void)
{
    int n = 0, sp = 0; for (int i = 0; i < MAXN; i++) { seen[i] = false; n += IN[i]; if (IN[i]) sp += slabs_space_size(ESZ(i)); }
    CHECK(IT.info.ccnt == n, "the element count equals the number of elements"); n_nodes = 0;
    CHECK((IT.info.root == NULL) == (n == 0), "only an empty set has no hash table");
    if (IT.info.root) { CHECK(walk(IT.info.root, 0, 0) == n, "every element is reachable"); CHECK(IT.info.root->tot_elem_cnt == n, "the root counts all elements"); }
    CHECK(IT.info.stotal == sp + n_nodes * slabs_space_size(sizeof(set_hash_node)), "the accounted space equals the space of elements and nodes");
    CHECK(vf_live == n + n_nodes + NHELD, "exactly the elements and nodes in use are allocated");
}
static void ins(int id)
{
    bool created = true; set_elem_item *e = mk_elem(id); bool dup = IN[id];
    ENGINE_ERROR_CODE r = set_elem_insert("k", 1, e, NULL, &created, NULL); check_api();
    CHECK(r == (dup ? ENGINE_ELEM_EEXISTS : ENGINE_SUCCESS) && !created, "an insert succeeds exactly when the value is new");
    if (dup) { CHECK(e->next == (set_elem_item*)ADDR_MEANS_UNLINKED, "a refused element stays unlinked"); set_elem_free(e); } else { EL[id] = e; IN[id] = true; }
}
static void mk_set(int n)
{
    mk_coll(); IT.info.root = NULL; IT.info.ovflact = OVFL_ERROR;
    for (int i = 0; i < n; i++) ins(i);
}
static void del(int id)
{
    bool dropped = true, was = IN[id], drop = (id & 1); bool held = was && EL[id]->refcount;
    if (was) { IN[id] = false; if (held) NHELD++; }
    int n = 0; for (int i = 0; i < MAXN; i++) n += IN[i];
    ENGINE_ERROR_CODE r = set_elem_delete("k", 1, val(id), VLEN(id), drop, &dropped, NULL); check_api();
    CHECK(r == (was ? ENGINE_SUCCESS : ENGINE_ELEM_ENOENT), "a delete succeeds exactly when the value is stored");
    CHECK(dropped == (was && drop && n == 0) && vf_unlinked == dropped, "the set is dropped exactly when it became empty and that was asked for");
    if (held) { CHECK(EL[id]->next == (set_elem_item*)ADDR_MEANS_UNLINKED && EL[id]->refcount == 1, "an element in use survives its deletion"); set_elem_release(&EL[id], 1); NHELD--; }
    if (vf_unlinked) { vf_present = true; vf_unlinked = 0; }
}
static void exist(int id)
{
    bool ex = !IN[id];
    CHECK(set_elem_exist("k", 1, val(id), VLEN(id), &ex) == ENGINE_SUCCESS && ex == IN[id], "a value is reported present exactly when it is stored"); check_api();
}
#if VF_H_h_set
static void set_case(int n, int order, int hold)
{
    for (int i = 0; i < MAXN; i++) exist(i);
    ins(0); ins(n - 1); check_set();
    for (int i = 0; i < n; i++) if (i % 3 == hold) EL[i]->refcount = 1;
    for (int i = 0; i < n; i++) {
        int id = order == 0 ? i : order == 1 ? n - 1 - i : (i * 5 + 2) % 12;
        if (i == 1) del(MAXN - 1);
        del(id); if (i % 3 != 1 || i > n - 3) check_set(); exist(id); exist((id + 1) % MAXN);
        if (i == 2 && hold == 5) { ins(id); check_set(); }
    }
    COVER("emptied");
}
void h_set(void)
{
    mk_set(0);
    CASES();
    CASE(ins(0); check_set(); del(0); check_set(); del(0); check_set());
    for (int i = 0; i < NPAT; i++) { ins(i); if (i > 2) CASE(check_set()); }
    CASE(set_case(NPAT, 0, 5)); CASE(set_case(NPAT, 1, 1)); CASE(set_case(NPAT, 2, 0));
    CASE(vf_present = false; char v = 1; bool x; CHECK(set_elem_exist("k", 1, &v, 1, &x) == ENGINE_KEY_ENOENT && set_elem_delete("k", 1, &v, 1, true, &x, NULL) == ENGINE_KEY_ENOENT && !x, "a missing key is reported"); check_api());
    CASE(IT.info.mflags = 0; char v = 1; bool x; CHECK(set_elem_exist("k", 1, &v, 1, &x) == ENGINE_UNREADABLE, "an unreadable set is not read"); check_api());
}
#endif
#if VF_H_h_get
static void get_case(int count, bool delete, bool drop, int seed)
{
    struct elems_result er; int n0 = NPAT, m = count == 0 || count >= n0 ? n0 : count; RSEED = seed; er.elem_array = NULL; er.elem_count = 0; er.dropped = false;
    bool got[MAXN]; for (int i = 0; i < MAXN; i++) got[i] = false;
    ENGINE_ERROR_CODE r = set_elem_get("k", 1, count, delete, delete && drop, &er, NULL); check_api();
    CHECK(r == ENGINE_SUCCESS && er.elem_count == m && er.flags == 0x51, "a set get returns count elements, or all if there are fewer");
    for (int j = 0; j < m; j++) {
        set_elem_item *e = ((set_elem_item**)er.elem_array)[j]; int id = VID(e->value, e->nbytes);
        CHECK(id < NPAT && EL[id] == e && !got[id] && e->refcount == 1, "distinct stored elements are returned, each referenced once"); got[id] = true;
        if (delete) { IN[id] = false; NHELD++; }
    }
    CHECK(er.dropped == (delete && drop && m == n0) && vf_unlinked == er.dropped, "the set is dropped exactly when it became empty and that was asked for");
    check_set();
    if (delete) NHELD -= m;
    set_elem_release((set_elem_item**)er.elem_array, m);
    check_set();
    COVER("got");
}
static void clear_case(int step)
{
    int tot = 0; for (int i = 0; i < NPAT + 1 && IT.info.ccnt > 0; i++) tot += set_elem_delete_with_count(&IT.info, step);
    for (int i = 0; i < MAXN; i++) IN[i] = false;
    CHECK(tot == NPAT, "clearing removes every element"); check_set();
}
void h_get(void)
{
    mk_set(NPAT);
    CASES();
    CASE(get_case(0, false, false, 0)); CASE(get_case(0, true, true, 0)); CASE(get_case(0, true, false, 0)); CASE(get_case(NPAT, true, true, 0)); CASE(get_case(NPAT + 3, false, false, 0)); CASE(get_case(NPAT - 1, true, true, 1));
    for (int c = 1; c < NPAT; c += (c < 3 ? 1 : 4)) for (int s = 0; s < 3; s++) { CASE(get_case(c, false, false, s)); CASE(get_case(c, true, true, s)); }
    CASE(clear_case(0)); CASE(clear_case(1)); CASE(clear_case(5));
    CASE(IT.info.mflags = 0; struct elems_result er; CHECK(set_elem_get("k", 1, 0, false, false, &er, NULL) == ENGINE_UNREADABLE, "an unreadable set is not read"); check_api());
}
#endif
#if VF_H_h_refuse
static void full_case(bool dup)
{
    set_elem_item *e = mk_elem(dup ? 0 : 12); bool created = true; NHELD++; IT.info.mcnt = NPAT;
    CHECK(set_elem_insert("k", 1, e, NULL, &created, NULL) == ENGINE_EOVERFLOW, "a full set refuses an insert"); check_api(); check_set(); COVER("full");
}
static void sticky_case(void)
{
    set_elem_item *e = mk_elem(12); bool created = true; NHELD++; IT.it.exptime = (rel_time_t)-1; sticky_over = true;
    CHECK(set_elem_insert("k", 1, e, NULL, &created, NULL) == ENGINE_ENOMEM, "an insert beyond the sticky memory limit is refused"); check_api(); check_set();
}
static void nomem_case(int at)
{
    set_elem_item *e = mk_elem(12); bool created = true; vf_alloc_may_fail = true; vf_alloc_fail_at = at;
    ENGINE_ERROR_CODE r = set_elem_insert("k", 1, e, NULL, &created, NULL); check_api();
    if (vf_alloc_calls > at) { CHECK(r == ENGINE_ENOMEM, "an insert that runs out of memory says so"); NHELD++; } else { CHECK(r == ENGINE_SUCCESS, "an insert with memory succeeds"); EL[12] = e; IN[12] = true; }
    check_set();
}
static void first_case(int k)
{   /* creation with attributes: what fails leaves nothing behind */
    item_attr a; bool created = false; set_elem_item *e = mk_elem(3); vf_present = false; IT.info.root = NULL; IT.info.ccnt = 0; IT.info.stotal = 0;
    a.flags = nd_u32(); a.exptime = k == 3 ? (rel_time_t)-1 : 7; a.maxcount = k == 4 ? 10 : k == 5 ? 0 : k == 6 ? -1 : 60000; a.ovflaction = 0; a.readable = 1;
    vf_item_nomem = k == 0; vf_link_fail = k == 1; vf_alloc_may_fail = k == 2; vf_alloc_fail_at = 0; sticky_over = k == 3;
    ENGINE_ERROR_CODE r = set_elem_insert("k", 8, e, &a, &created, NULL); check_api();
    if (k < 4) { CHECK(r == ENGINE_ENOMEM && !vf_present && vf_unlinked == vf_linked, "a failed first insert leaves no set"); CHECK(IT.info.root == NULL || k < 2, "and no hash table"); }
    else { CHECK(r == ENGINE_SUCCESS && created && vf_present && IS_SET_ITEM(&IT.it), "an insert with attributes creates the set"); EL[3] = e; IN[3] = true; check_set(); }
    COVER("first");
}
void h_refuse(void)
{
    mk_coll(); IT.info.root = NULL; IT.info.ovflact = OVFL_ERROR;
    CASES();
    for (int k = 0; k < 8; k++) CASE(first_case(k));
    for (int i = 0; i < NPAT; i++) ins(i);
    CASE(full_case(false)); CASE(full_case(true)); CASE(sticky_case()); CASE(nomem_case(0)); CASE(nomem_case(1));
}
#endif
#if VF_H_h_attr
static int genhash_unused;
void h_attr(void)
{
    mk_coll(); item_attr a, b; ENGINE_ITEM_ATTR ids[4]; int n = nd_range(0, 4);
    int ccnt = nd_range(0, 1000000); IT.info.ccnt = ccnt; IT.info.mcnt = nd_i32(); ASSUME(IT.info.mcnt != 0); IT.info.ovflact = OVFL_ERROR; IT.info.mflags = nd_u8(); ENG.config.max_set_size = nd_range(DEFAULT_SET_SIZE, 1000000);
    int32_t m0 = IT.info.mcnt; uint8_t f0 = IT.info.mflags;
    bool sm = false, so = false, sr = false; a.maxcount = nd_i32(); a.ovflaction = nd_u8(); a.readable = nd_u8();
    for (int i = 0; i < 4; i++) { ids[i] = nd_range(0, ATTR_END); if (i < n) { sm |= ids[i] == ATTR_MAXCOUNT; so |= ids[i] == ATTR_OVFLACTION; sr |= ids[i] == ATTR_READABLE; } }
    int32_t mc = a.maxcount, lim = ENG.config.max_set_size, rm = mc < 0 ? -1 : mc == 0 ? DEFAULT_SET_SIZE : mc > lim ? lim : mc;
    bool bad = (sm && rm > 0 && rm < ccnt) || (so && a.ovflaction != OVFL_ERROR) || (sr && a.readable != 1);
    ENGINE_ERROR_CODE r = set_coll_setattr(&IT.it, &a, ids, n);
    CHECK(r == (bad ? ENGINE_EBADVALUE : ENGINE_SUCCESS), "attributes are accepted exactly when every value is legal");
    CHECK(IT.info.mcnt == (!bad && sm ? rm : m0) && IT.info.ovflact == OVFL_ERROR && IT.info.mflags == (!bad && sr ? f0 | COLL_META_FLAG_READABLE : f0), "accepted attributes are all set, refused ones change nothing");
    bool nobk = false; for (int i = 0; i < 4; i++) if (i < n && (ids[i] == ATTR_MAXBKEYRANGE || ids[i] == ATTR_TRIMMED)) nobk = true;
    r = set_coll_getattr(&IT.it, &b, ids, n);
    CHECK(r == (nobk ? ENGINE_EBADATTR : ENGINE_SUCCESS), "a set has no b+tree attributes");
    if (!nobk) CHECK(b.count == ccnt && b.maxcount == (IT.info.mcnt > 0 ? IT.info.mcnt : lim) && b.ovflaction == OVFL_ERROR && b.readable == ((IT.info.mflags & COLL_META_FLAG_READABLE) != 0), "the attributes read back are those in force");
    if (bad) COVER("refused"); else COVER("set");
}
#endif
