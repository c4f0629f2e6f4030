//VF source engines/default/coll_map.c
//VF const engines/default/item_base.h MAP_MAX_HASHCHAIN_SIZE 4
//VF trust a hash-chain limit of 4 instead of 64 exercises the same code paths (it is a parameter of the code)
//VF trust genhash_string_hash is used by contract: a function of the field; the units choose its results per case
//VF harness h_map props=C14 unwind=20 objbits=13 each=PAT:0-6 kind=bounded timeout=400 bound="maps of up to 12 elements, 7 hash-collision patterns (none to all 32 bits equal), chain limit 4" funcs=map_elem_insert,do_map_elem_link,do_map_elem_replace,do_map_node_link,do_map_node_unlink,do_map_elem_unlink,map_elem_delete,do_map_elem_delete_with_field,do_map_elem_traverse_dfs_byfield,map_elem_update,do_map_elem_update,do_map_elem_find
//VF harness h_get props=C14 unwind=20 objbits=13 each=PAT:0-6 kind=bounded timeout=400 bound="maps of up to 12 elements, 7 hash-collision patterns, field lists of up to 15 fields with repeats" funcs=map_elem_get,do_map_elem_get,do_map_elem_traverse_dfs_bycnt,do_map_elem_traverse_dfs_byfield,map_elem_delete_with_count,map_elem_get_all,map_elem_delete
//VF harness h_refuse props=C14 unwind=20 objbits=13 each=PAT:0-6 kind=bounded timeout=400 bound="maps of up to 12 elements, every failing allocation, full maps, sticky limit" funcs=do_map_elem_insert,map_elem_insert,map_elem_update
//VF harness h_attr props=C15 unwind=6 defs=-DPAT=0 funcs=map_coll_setattr,map_coll_getattr,do_map_real_maxcount,do_map_item_alloc kind=bounded bound="at most 4 attributes per request, all values"
#include "vf.h"
#include "config.h"
#include <pthread.h>
#define pthread_mutex_lock(m) vf_mutex_lock(m)
#define pthread_mutex_unlock(m) vf_mutex_unlock(m)
static int vf_mutex_lock(void *m); static int vf_mutex_unlock(void *m);
#define VF_LOOP_MEM
#include "vf_libc.h"
#include VF_SRC
#define META map_meta_info
#define VF_ITFLAG ITEM_IFLAG_MAP
#define VF_ITYPE ITEM_TYPE_MAP
#include "vf_coll.h"
#include "vf_eng.h"
static void *vf_eng_malloc(size_t n) { return n == sizeof(map_hash_node) ? vf_alloc(sizeof(map_hash_node)) : vf_alloc(sizeof(map_elem_item) + 16); }
#define MAXN 14
#define NPAT 12
static map_elem_item *EL[MAXN]; static bool IN[MAXN]; static int NHELD;
/* hash patterns: which nibbles of the hash depend on the value */
static uint32_t hv(int id)
{
    switch (PAT) {
    case 0: return id;
    case 1: return 0x5 | (id << 4);
    case 2: return (id & 3) | ((id >> 2) << 8);
    case 3: return 0x31 | ((id % 3) << 8) | ((id / 3) << 12);
    case 4: return 0x89abcde | ((uint32_t)id << 28);
    case 5: return 0xfedcba98u;
    default: return 0x80000000u | (id & 1);
    }
}
/* field number id: 1 + id % 3 bytes id / 3, so that fields are prefixes of each other */
#define FLEN(id) (1 + (id) % 3)
#define FBYTE(id) ((id) / 3)
#define FID(p, n) (3 * ((const unsigned char*)(p))[0] + (n) - 1)
int genhash_string_hash(const void *p, size_t n) { CHECK(n >= 1 && n <= 3, "the whole field is hashed"); return (int)hv(FID(p, n)); }
#define ESZ(id, l) (sizeof(map_elem_item) + FLEN(id) + (l))
static int LEN[MAXN]; static unsigned char VAL[MAXN];   /* expected value of each field: length and first/last byte */
#define DB(e, i) (((unsigned char*)(e))[offsetof(map_elem_item, data) + (i)])
static map_elem_item *mk_elem(int id, int len, unsigned char val)
{
    map_elem_item *e = vf_alloc(sizeof(map_elem_item) + 16); vf_live++;
    e->refcount = 0; e->slabs_clsid = 1; e->nfield = FLEN(id); e->nbytes = len; for (int i = 0; i < FLEN(id); i++) DB(e, i) = FBYTE(id); e->next = (map_elem_item*)ADDR_MEANS_UNLINKED;
    for (int i = 0; i < len; i++) DB(e, FLEN(id) + i) = val;
    return e;
}
static field_t fld(int id) { static char B[MAXN][3]; field_t f; for (int i = 0; i < FLEN(id); i++) B[id][i] = FBYTE(id); f.value = B[id]; f.length = FLEN(id); return f; }
static int n_nodes;
static bool seen[MAXN];
static int walk(map_hash_node *nd, int depth, uint32_t prefix)
{   /* returns the number of elements below nd */
    int tot = 0, own = 0, kids = 0; n_nodes++;
    CHECK(nd->hdepth == depth, "hash nodes know their level");
    for (int h = 0; h < MAP_HASHTAB_SIZE; h++) {
        uint32_t pre = depth < 8 ? prefix | ((uint32_t)h << (4 * depth)) : prefix;
        if (nd->hcnt[h] == -1) { tot += walk(nd->htab[h], depth + 1, pre); kids++; }
        else {
            map_elem_item *e = nd->htab[h]; int c = 0;
            for (int k = 0; k < NPAT + 1 && e; k++) {
                int id = FID(&DB(e, 0), e->nfield);
                CHECK(id < MAXN && IN[id] && EL[id] == e && !seen[id], "the map holds exactly the stored elements, each once"); seen[id] = true;
                CHECK(e->nbytes == LEN[id] && DB(e, FLEN(id)) == VAL[id] && DB(e, FLEN(id) + LEN[id] - 1) == VAL[id], "every field has the value last stored for it");
                uint32_t mask = depth >= 7 ? 0xffffffffu : ((1u << (4 * (depth + 1))) - 1);
                CHECK(e->hval == hv(id) && ((hv(id) ^ pre) & mask) == 0, "every element sits where its hash leads");
                c++; e = e->next;
            }
            CHECK(e == NULL && nd->hcnt[h] == c, "every chain count equals the chain length"); own += c;
        }
    }
    CHECK(nd->cur_elem_cnt == own && nd->cur_hash_cnt == kids, "every node counts its elements and child nodes");
    return tot + own;
}
static void check_map(void)
{
    int n = 0, sp = 0; for (int i = 0; i < MAXN; i++) { seen[i] = false; n += IN[i]; if (IN[i]) sp += slabs_space_size(ESZ(i, LEN[i])); }
    CHECK(IT.info.ccnt == n, "the element count equals the number of elements"); n_nodes = 0;
    CHECK((IT.info.root == NULL) == (n == 0), "only an empty map has no hash table");
    if (IT.info.root) CHECK(walk(IT.info.root, 0, 0) == n, "every element is reachable");
    CHECK(IT.info.stotal == sp + n_nodes * slabs_space_size(sizeof(map_hash_node)), "the accounted space equals the space of elements and nodes");
    CHECK(vf_live == n + n_nodes + NHELD, "exactly the elements and nodes in use are allocated");
}
static void put(int id, int len, unsigned char val, bool replace)
{
    bool created = true, replaced = true; map_elem_item *e = mk_elem(id, len, val); bool dup = IN[id], held = dup && EL[id]->refcount;
    ENGINE_ERROR_CODE r = map_elem_insert("k", 1, e, replace, NULL, &replaced, &created, NULL); check_api();
    CHECK(r == (dup && !replace ? ENGINE_ELEM_EEXISTS : ENGINE_SUCCESS) && !created && replaced == (dup && replace), "an insert succeeds exactly when the field is new or may be replaced");
    if (dup && !replace) { CHECK(e->next == (map_elem_item*)ADDR_MEANS_UNLINKED, "a refused element stays unlinked"); map_elem_free(e); }
    else { if (held) { CHECK(EL[id]->next == (map_elem_item*)ADDR_MEANS_UNLINKED && EL[id]->refcount == 1, "an element in use survives its replacement"); map_elem_release(&EL[id], 1); } EL[id] = e; IN[id] = true; LEN[id] = len; VAL[id] = val; }
}
static void ins(int id) { put(id, 1 + (id % 3) * 5, id + 1, false); }
static map_elem_item *find_elem(int id)
{
    map_hash_node *nd = IT.info.root;
    for (int d = 0; d < 9; d++) { int h = d < 8 ? (hv(id) >> (4 * d)) & 15 : 0; if (nd->hcnt[h] != -1) { for (map_elem_item *e = nd->htab[h]; e; e = e->next) if (FID(&DB(e, 0), e->nfield) == id) return e; return NULL; } nd = nd->htab[h]; }
    return NULL;
}
static void upd(int id, int len, unsigned char val)
{
    field_t f = fld(id); bool was = IN[id], held = was && EL[id]->refcount; char B[16]; for (int i = 0; i < len; i++) B[i] = val;
    unsigned char old = was ? DB(EL[id], FLEN(id)) : 0;
    ENGINE_ERROR_CODE r = map_elem_update("k", 1, &f, B, len, NULL); check_api();
    CHECK(r == (was ? ENGINE_SUCCESS : ENGINE_ELEM_ENOENT), "an update succeeds exactly when the field exists");
    if (was) {
        if (held) { CHECK(EL[id]->next == (map_elem_item*)ADDR_MEANS_UNLINKED && EL[id]->refcount == 1 && DB(EL[id], FLEN(id)) == old, "an element in use is not changed under its reader"); map_elem_release(&EL[id], 1); }
        EL[id] = find_elem(id); LEN[id] = len; VAL[id] = val;
    }
}
static void mk_map(int n)
{
    mk_coll(); IT.info.root = NULL; IT.info.ovflact = OVFL_ERROR;
    for (int i = 0; i < n; i++) ins(i);
}
static int mdel(const field_t *f, int n, bool drop, int expect)
{   /* IN[] and NHELD already updated */
    uint32_t cnt = 99; bool dropped = true; int left = 0; for (int i = 0; i < MAXN; i++) left += IN[i];
    ENGINE_ERROR_CODE r = map_elem_delete("k", 1, n, f, drop, &cnt, &dropped, NULL); check_api();
    CHECK(r == (expect ? ENGINE_SUCCESS : ENGINE_ELEM_ENOENT) && cnt == expect, "a delete removes and counts exactly the named fields that exist");
    CHECK(dropped == (expect && drop && left == 0) && vf_unlinked == dropped, "the map is dropped exactly when it became empty and that was asked for");
    if (vf_unlinked) { vf_present = true; vf_unlinked = 0; }
    return cnt;
}
static void del(int id)
{
    field_t f = fld(id); bool was = IN[id], held = was && EL[id]->refcount;
    if (was) { IN[id] = false; if (held) NHELD++; }
    mdel(&f, 1, id & 1, was);
    if (held) { CHECK(EL[id]->next == (map_elem_item*)ADDR_MEANS_UNLINKED && EL[id]->refcount == 1, "an element in use survives its deletion"); map_elem_release(&EL[id], 1); NHELD--; }
}
/* get (and optionally delete) the n fields F[] */
static int F[16];
static void get_case(int n, bool delete, bool drop)
{
    struct elems_result er; field_t f[16]; bool got[MAXN]; int exp = 0, left = 0, order[16], n0 = IT.info.ccnt;
    er.elem_array = NULL; er.elem_count = 0; er.dropped = false; er.flags = 0;
    for (int i = 0; i < MAXN; i++) got[i] = false;
    for (int j = 0; j < n; j++) { f[j] = fld(F[j]); if (IN[F[j]] && !(delete && got[F[j]])) { order[exp] = F[j]; exp++; got[F[j]] = true; } }
    if (n == 0) exp = n0;
    ENGINE_ERROR_CODE r = map_elem_get("k", 1, n, f, delete, drop, &er, NULL); check_api();
    for (int i = 0; i < MAXN; i++) left += IN[i] && !(delete && (got[i] || n == 0));
    if (exp == 0) { CHECK(r == ENGINE_ELEM_ENOENT, "a get that finds nothing says so"); check_map(); return; }
    CHECK(r == ENGINE_SUCCESS && er.elem_count == exp && er.flags == 0x51, "a get returns every named field that exists");
    for (int i = 0; i < MAXN; i++) seen[i] = false;
    for (int j = 0; j < exp; j++) {
        map_elem_item *e = ((map_elem_item**)er.elem_array)[j]; int id = FID(&DB(e, 0), e->nfield);
        CHECK(id < MAXN && IN[id] && EL[id] == e && (n == 0 ? !seen[id] : id == order[j]), "exactly the named fields are returned, in the order they were named"); seen[id] = true;
        CHECK(e->refcount > 0 && e->nbytes == LEN[id] && DB(e, FLEN(id)) == VAL[id], "a returned element has its stored value and is referenced");
    }
    if (delete) for (int i = 0; i < MAXN; i++) if (IN[i] && (n == 0 || got[i])) { IN[i] = false; NHELD++; }
    CHECK(er.dropped == (delete && drop && left == 0) && vf_unlinked == er.dropped, "the map is dropped exactly when it became empty and that was asked for");
    check_map();
    if (delete) NHELD -= exp;
    map_elem_release((map_elem_item**)er.elem_array, exp);
    for (int i = 0; i < MAXN; i++) if (IN[i]) CHECK(EL[i]->refcount == 0, "every reference of a get is given back by its release");
    check_map();
    COVER("got");
}
#if VF_H_h_map
static void map_case(int order, int hold)
{
    ins(0); ins(NPAT - 1); check_map();
    for (int i = 0; i < NPAT; i++) if (i % 3 == hold) EL[i]->refcount = 1;
    put(1, 3, 70, true); put(2, 13, 71, true); put(5, 6, 72, true); check_map();
    for (int i = 0; i < NPAT; i++) if (i % 3 == hold) EL[i]->refcount = 1;
    upd(1, 3, 80); upd(3, 8, 81); upd(4, 2, 82); upd(NPAT, 2, 83); check_map();
    for (int i = 0; i < NPAT; i++) {
        int id = order == 0 ? i : order == 1 ? NPAT - 1 - i : (i * 5 + 2) % 12;
        if (i == 1) del(MAXN - 1);
        del(id); if (i % 3 != 1 || i > NPAT - 3) check_map();
        if (i == 2 && hold == 5) { ins(id); check_map(); }
        if (i == 4) { upd(id, 2, 90); upd((id + 5) % 12, 9, 91); }
    }
    COVER("emptied");
}
void h_map(void)
{
    mk_map(0);
    CASES();
    CASE(upd(0, 1, 7); ins(0); check_map(); del(0); check_map(); del(0); upd(0, 1, 7); check_map());
    for (int i = 0; i < NPAT; i++) { ins(i); if (i > 2) CASE(check_map()); }
    CASE(map_case(0, 5)); CASE(map_case(1, 1)); CASE(map_case(2, 0));
    CASE(vf_present = false; field_t f = fld(1); uint32_t n; bool x; CHECK(map_elem_update("k", 1, &f, "v", 1, NULL) == ENGINE_KEY_ENOENT && map_elem_delete("k", 1, 1, &f, true, &n, &x, NULL) == ENGINE_KEY_ENOENT && !x, "a missing key is reported"); check_api());
}
#endif
#if VF_H_h_get
static void clear_case(int step)
{
    int tot = 0; for (int i = 0; i < NPAT + 1 && IT.info.ccnt > 0; i++) tot += map_elem_delete_with_count(&IT.info, step);
    for (int i = 0; i < MAXN; i++) IN[i] = false;
    CHECK(tot == NPAT, "clearing removes every element"); check_map();
}
static void del_many(int n, bool drop)
{
    field_t f[16]; int exp = 0;
    for (int j = 0; j < n; j++) { f[j] = fld(F[j]); if (IN[F[j]]) { exp++; IN[F[j]] = false; } }
    if (n == 0) for (int i = 0; i < MAXN; i++) if (IN[i]) { exp++; IN[i] = false; }
    mdel(f, n, drop, exp); check_map();
}
static void flist(int k, int n) { for (int j = 0; j < n; j++) F[j] = k == 0 ? j : k == 1 ? (j * 5 + 13) % MAXN : k == 2 ? (j / 2) % 3 : 11 - j; }
void h_get(void)
{
    mk_map(0); IT.info.ccnt = 0;
    CASES();
    ins(3); ins(7);
    CASE(flist(2, 6); F[3] = 3; F[1] = 3; F[5] = 7; get_case(6, false, false));
    CASE(F[0] = 7; F[1] = 7; F[2] = 3; F[3] = 7; get_case(4, true, true));
    CASE(F[0] = 1; F[1] = 2; get_case(2, true, true));
    for (int i = 0; i < NPAT; i++) if (!IN[i]) ins(i);
    CASE(get_case(0, false, false)); CASE(get_case(0, true, true)); CASE(get_case(0, true, false));
    CASE(flist(0, 12); get_case(12, true, true)); CASE(flist(3, 12); get_case(12, true, false)); CASE(flist(1, 14); get_case(14, false, false)); CASE(flist(1, 6); get_case(6, true, true)); CASE(flist(2, 15); get_case(15, false, false)); CASE(flist(2, 15); get_case(15, true, false)); CASE(flist(1, 1); get_case(1, true, true));
    CASE(flist(1, 13); del_many(13, true)); CASE(flist(0, 12); del_many(12, true)); CASE(flist(3, 12); del_many(12, false)); CASE(flist(2, 7); del_many(7, true)); CASE(del_many(0, true)); CASE(F[0] = 13; del_many(1, true));
    CASE(clear_case(0)); CASE(clear_case(1)); CASE(clear_case(5));
    CASE(elems_result_t er; eitem *A[MAXN]; er.elem_array = A; er.elem_arrsz = MAXN; er.elem_count = 0; map_elem_get_all(&IT.info, &er); CHECK(er.elem_count == NPAT, "all elements are collected"); for (int i = 0; i < NPAT; i++) CHECK(EL[i]->refcount == 1, "each exactly once"));
    CASE(IT.info.mflags = 0; struct elems_result er; field_t f = fld(0); CHECK(map_elem_get("k", 1, 1, &f, false, false, &er, NULL) == ENGINE_UNREADABLE, "an unreadable map is not read"); check_api());
}
#endif
#if VF_H_h_refuse
static bool created, replaced;
static ENGINE_ERROR_CODE rins(map_elem_item *e, bool replace, item_attr *a) { created = replaced = true; ENGINE_ERROR_CODE r = map_elem_insert("k", a ? 8 : 1, e, replace, a, &replaced, &created, NULL); check_api(); return r; }
static void full_case(bool dup)
{
    IT.info.mcnt = NPAT; if (dup) { put(0, 9, 77, true); check_map(); return; }
    map_elem_item *e = mk_elem(12, 1, 1); NHELD++;
    CHECK(rins(e, true, NULL) == ENGINE_EOVERFLOW && !replaced && e->next == (map_elem_item*)ADDR_MEANS_UNLINKED, "a full map refuses a new field"); check_map(); COVER("full");
}
static void sticky_case(int k)
{
    IT.info.mflags |= COLL_META_FLAG_STICKY; sticky_over = true; field_t f = fld(1);
    if (k == 0) { map_elem_item *e = mk_elem(12, 1, 1); NHELD++; CHECK(rins(e, true, NULL) == ENGINE_ENOMEM, "an insert beyond the sticky memory limit is refused"); }
    else if (k == 1) { map_elem_item *e = mk_elem(1, 9, 1); NHELD++; CHECK(rins(e, true, NULL) == ENGINE_ENOMEM, "a growing replacement beyond the sticky memory limit is refused"); }
    else if (k == 2) put(1, 2, 9, true);
    else if (k == 3) CHECK(map_elem_update("k", 1, &f, "0123456789", 10, NULL) == ENGINE_ENOMEM, "a growing update beyond the sticky memory limit is refused");
    else upd(1, 3, 5);
    check_map();
}
static void nomem_case(int at)
{
    map_elem_item *e = mk_elem(12, 1, 13); vf_alloc_may_fail = true; vf_alloc_fail_at = at;
    ENGINE_ERROR_CODE r = rins(e, false, NULL);
    if (vf_alloc_calls > at) { CHECK(r == ENGINE_ENOMEM, "an insert that runs out of memory says so"); NHELD++; } else { CHECK(r == ENGINE_SUCCESS, "an insert with memory succeeds"); EL[12] = e; IN[12] = true; LEN[12] = 1; VAL[12] = 13; }
    check_map();
}
static void nomem_upd(void)
{
    field_t f = fld(2); vf_alloc_may_fail = true; vf_alloc_fail_at = 0;
    CHECK(map_elem_update("k", 1, &f, "0123", 4, NULL) == ENGINE_ENOMEM, "an update that runs out of memory says so"); check_api(); check_map();
}
static void first_case(int k)
{   /* creation with attributes: what fails leaves nothing behind */
    item_attr a; map_elem_item *e = mk_elem(3, 2, 4); vf_present = false; IT.info.root = NULL; IT.info.ccnt = 0; IT.info.stotal = 0;
    a.flags = nd_u32(); a.exptime = k == 3 ? (rel_time_t)-1 : 7; a.maxcount = k == 4 ? 10 : k == 5 ? 0 : k == 6 ? -1 : 60000; a.ovflaction = 0; a.readable = 1;
    vf_item_nomem = k == 0; vf_link_fail = k == 1; vf_alloc_may_fail = k == 2; vf_alloc_fail_at = 0; sticky_over = k == 3;
    ENGINE_ERROR_CODE r = rins(e, k & 1, &a);
    if (k < 4) { CHECK(r == ENGINE_ENOMEM && !vf_present && vf_unlinked == vf_linked, "a failed first insert leaves no map"); CHECK(IT.info.root == NULL || k < 2, "and no hash table"); }
    else { CHECK(r == ENGINE_SUCCESS && created && vf_present && IS_MAP_ITEM(&IT.it), "an insert with attributes creates the map"); EL[3] = e; IN[3] = true; LEN[3] = 2; VAL[3] = 4; check_map(); }
    COVER("first");
}
void h_refuse(void)
{
    mk_coll(); IT.info.root = NULL; IT.info.ovflact = OVFL_ERROR;
    CASES();
    for (int k = 0; k < 8; k++) CASE(first_case(k));
    for (int i = 0; i < NPAT; i++) ins(i);
    CASE(full_case(false)); CASE(full_case(true)); for (int k = 0; k < 5; k++) CASE(sticky_case(k)); CASE(nomem_case(0)); CASE(nomem_case(1)); CASE(nomem_upd());
}
#endif
#if VF_H_h_attr
static int genhash_unused;
void h_attr(void)
{
    mk_coll(); item_attr a, b; ENGINE_ITEM_ATTR ids[4]; int n = nd_range(0, 4);
    int ccnt = nd_range(0, 1000000); IT.info.ccnt = ccnt; IT.info.mcnt = nd_i32(); ASSUME(IT.info.mcnt != 0); IT.info.ovflact = OVFL_ERROR; IT.info.mflags = nd_u8(); ENG.config.max_map_size = nd_range(DEFAULT_MAP_SIZE, 1000000);
    int32_t m0 = IT.info.mcnt; uint8_t f0 = IT.info.mflags;
    bool sm = false, so = false, sr = false; a.maxcount = nd_i32(); a.ovflaction = nd_u8(); a.readable = nd_u8();
    for (int i = 0; i < 4; i++) { ids[i] = nd_range(0, ATTR_END); if (i < n) { sm |= ids[i] == ATTR_MAXCOUNT; so |= ids[i] == ATTR_OVFLACTION; sr |= ids[i] == ATTR_READABLE; } }
    int32_t mc = a.maxcount, lim = ENG.config.max_map_size, rm = mc < 0 ? -1 : mc == 0 ? DEFAULT_MAP_SIZE : mc > lim ? lim : mc;
    bool bad = (sm && rm > 0 && rm < ccnt) || (so && a.ovflaction != OVFL_ERROR) || (sr && a.readable != 1);
    ENGINE_ERROR_CODE r = map_coll_setattr(&IT.it, &a, ids, n);
    CHECK(r == (bad ? ENGINE_EBADVALUE : ENGINE_SUCCESS), "attributes are accepted exactly when every value is legal");
    CHECK(IT.info.mcnt == (!bad && sm ? rm : m0) && IT.info.ovflact == OVFL_ERROR && IT.info.mflags == (!bad && sr ? f0 | COLL_META_FLAG_READABLE : f0), "accepted attributes are all set, refused ones change nothing");
    bool nobk = false; for (int i = 0; i < 4; i++) if (i < n && (ids[i] == ATTR_MAXBKEYRANGE || ids[i] == ATTR_TRIMMED)) nobk = true;
    r = map_coll_getattr(&IT.it, &b, ids, n);
    CHECK(r == (nobk ? ENGINE_EBADATTR : ENGINE_SUCCESS), "a map has no b+tree attributes");
    if (!nobk) CHECK(b.count == ccnt && b.maxcount == (IT.info.mcnt > 0 ? IT.info.mcnt : lim) && b.ovflaction == OVFL_ERROR && b.readable == ((IT.info.mflags & COLL_META_FLAG_READABLE) != 0), "the attributes read back are those in force");
    if (bad) COVER("refused"); else COVER("set");
}
#endif
