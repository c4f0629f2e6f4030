//VF source engines/default/coll_list.c
//VF harness h_range props=C12 unwind=2 funcs=adjust_list_range
//VF harness h_read props=C12 unwind=10 objbits=12 each=N:0-4 kind=bounded timeout=300 bound="lists of 0 to 4 elements, every pair of indexes from beyond both ends, elements referenced by readers or not" funcs=list_elem_get,list_elem_delete,do_list_elem_find,do_list_elem_get,do_list_elem_delete,do_list_elem_unlink,do_list_elem_release
//VF harness h_read_t props=C12 tier=thorough unwind=12 objbits=14 each=N:5-6 kind=bounded timeout=2000 defs="-DVF_H_h_read=1" bound="lists of 5 and 6 elements, every pair of indexes" funcs=list_elem_get,list_elem_delete,do_list_elem_find,do_list_elem_get,do_list_elem_delete
//VF harness h_ins props=C12 unwind=10 objbits=12 each=N:1-5 kind=bounded timeout=300 bound="lists of 1 to 5 elements, every index, all overflow actions, with and without room" funcs=list_elem_insert,do_list_elem_insert,do_list_elem_link
//VF harness h_index props=C12 unwind=10 kind=proof funcs=do_list_elem_insert
//VF harness h_create props=C12,C15 unwind=10 funcs=do_list_item_alloc,do_list_real_maxcount,list_elem_insert,list_struct_create
//VF harness h_attr props=C15 unwind=6 funcs=list_coll_setattr,list_coll_getattr,do_list_real_maxcount kind=bounded bound="at most 4 attributes per request, all values"
//VF trust list index -2147483648 is excluded (its negation overflows in C; the compiled code rejects it)
#include "vf.h"
#include "config.h"
#include <pthread.h>
#define pthread_mutex_lock(m) vf_mutex_lock(m)
#define pthread_mutex_unlock(m) vf_mutex_unlock(m)
static int vf_mutex_lock(void *m); static int vf_mutex_unlock(void *m);
#define VF_LOOP_MEM
#include "vf_libc.h"
#include VF_SRC
#define META list_meta_info
#define VF_ITFLAG ITEM_IFLAG_LIST
#define VF_ITYPE ITEM_TYPE_LIST
#include "vf_coll.h"
#include "vf_eng.h"
static void *vf_eng_malloc(size_t n) { return vf_alloc(sizeof(list_elem_item)); }
#define MAXN 12
static list_elem_item *EL[MAXN]; static int NE, NHELD;
#define ESZ (sizeof(list_elem_item) + 0)
static list_elem_item *mk_elem(void)
{
    list_elem_item *e = vf_alloc(sizeof(list_elem_item)); vf_live++;
    e->refcount = 0; e->slabs_clsid = 1; e->nbytes = 0; e->prev = e->next = (list_elem_item*)ADDR_MEANS_UNLINKED;
    return e;
}
static void mk_list(int n)
{
    mk_coll();
    list_elem_item *p = NULL; NE = n; IT.info.ccnt = n; IT.info.head = IT.info.tail = NULL; IT.info.ovflact = OVFL_TAIL_TRIM;
    for (int i = 0; i < n; i++) {
        EL[i] = mk_elem(); EL[i]->prev = p; EL[i]->next = NULL; if (p) p->next = EL[i]; else IT.info.head = EL[i]; p = EL[i]; IT.info.stotal += slabs_space_size(ESZ);
    }
    IT.info.tail = p;
}
static void check_list(list_elem_item **w, int n)
{
    CHECK(IT.info.ccnt == n, "the element count equals the number of elements");
    CHECK((n == 0) == (IT.info.head == NULL) && (n == 0) == (IT.info.tail == NULL), "an empty list has no ends");
    list_elem_item *e = IT.info.head, *p = NULL;
    for (int i = 0; i < n; i++) {
        CHECK(e == w[i], "the list holds exactly the expected elements in order"); CHECK(e->prev == p, "the chain is doubly linked");
        p = e; e = e->next;
    }
    CHECK(e == NULL && IT.info.tail == p, "the list ends at its last element");
    CHECK(IT.info.stotal == n * slabs_space_size(ESZ), "the accounted space equals the space of the elements");
    CHECK(vf_live == n + NHELD, "exactly the elements in use are allocated");
}
#if VF_H_h_range
void h_range(void)
{
    mk_coll(); int f = nd_i32(), t = nd_i32(), n = nd_i32(), f0 = f, t0 = t; ASSUME(n >= 0 && n <= 1000000); IT.info.ccnt = n;
    int64_t a = f, b = t; if (a < 0) a += n; if (b < 0) b += n;
    bool miss = n == 0 || (a < 0 && b < 0) || (a >= n && b >= n);
    int r = adjust_list_range(&IT.info, &f, &t);
    CHECK((r != 0) == miss, "an index range is empty exactly when it lies entirely beyond one end");
    if (!miss) { CHECK(f == (a < 0 ? 0 : a >= n ? n - 1 : a) && t == (b < 0 ? 0 : b >= n ? n - 1 : b), "negative indexes count from the tail; both ends are clamped to the list"); COVER("hit"); } else COVER("miss");
}
#endif
#if VF_H_h_read
static int want(int f, int t, int *out)
{
    if (f < 0) f += NE; if (t < 0) t += NE;
    if (NE == 0 || (f < 0 && t < 0) || (f >= NE && t >= NE)) return 0;
    if (f < 0) f = 0; if (t < 0) t = 0; if (f >= NE) f = NE - 1; if (t >= NE) t = NE - 1;
    int m = 0; if (f <= t) for (int i = f; i <= t; i++) out[m++] = i; else for (int i = f; i >= t; i--) out[m++] = i;
    return m;
}
static void rd_case(int f, int t, int op, bool drop, int hold)
{   /* op 0 get, 1 get with delete, 2 delete */
    int out[MAXN], m = want(f, t, out), n = 0; list_elem_item *w[MAXN]; bool gone[MAXN], held[MAXN];
    for (int i = 0; i < NE; i++) { gone[i] = false; held[i] = i % 3 == hold; if (held[i]) EL[i]->refcount = 1; }
    if (op) for (int j = 0; j < m; j++) { gone[out[j]] = true; if (op == 1 || held[out[j]]) NHELD++; }
    for (int i = 0; i < NE; i++) if (!gone[i]) w[n++] = EL[i];
    struct elems_result er; uint32_t dc = 0; bool dropped = false; ENGINE_ERROR_CODE r;
    er.elem_array = NULL; er.elem_count = 0; er.dropped = false;
    if (op == 2) { r = list_elem_delete("k", 1, f, t, drop, &dc, &dropped, NULL); er.elem_count = dc; }
    else { r = list_elem_get("k", 1, f, t, op == 1, op == 1 && drop, &er, NULL); dropped = er.dropped; }
    check_api();
    CHECK(r == (m ? ENGINE_SUCCESS : ENGINE_ELEM_ENOENT), "an index range succeeds exactly when it covers an element");
    if (m) CHECK(er.elem_count == m, "the number of elements in the range is reported");
    CHECK(dropped == (m && op && drop && n == 0), "the list is dropped exactly when it became empty and that was asked for");
    CHECK(vf_unlinked == (dropped ? 1 : 0), "the key is removed exactly when the list is dropped");
    check_list(w, n);
    if (op != 2) for (int j = 0; j < m; j++) {
        list_elem_item *e = ((list_elem_item**)er.elem_array)[j]; int i = out[j];
        CHECK(e == EL[i] && e->refcount == 1 + (held[i] ? 1 : 0), "the elements of the range are returned in request order, each referenced once");
    }
    if (op != 2 && m) {
        CHECK(er.flags == 0x51, "the item flags are returned");
        if (op == 1) for (int j = 0; j < m; j++) if (!held[out[j]]) NHELD--;
        list_elem_release((list_elem_item**)er.elem_array, m);
        check_list(w, n);
        for (int j = 0; j < m; j++) if (op == 0 || held[out[j]]) CHECK(EL[out[j]]->refcount == (held[out[j]] ? 1 : 0), "a release gives back one reference");
    }
    if (m || N == 0) COVER("range"); if (!m) COVER("no range");
}
#ifdef VF_H_h_read_t
#define h_read h_read_t
#endif
void h_read(void)
{
    mk_list(N);
    CASES();
    for (int f = -N - 2; f <= N + 1; f++) for (int t = -N - 2; t <= N + 1; t++) for (int op = 0; op < 3; op++) CASE(rd_case(f, t, op, (f + t) & 1, (f + t + op + 9) % 4));
    CASE(rd_case(0, -1, 1, true, 1)); CASE(rd_case(0, -1, 2, true, 1)); CASE(rd_case(-1, 0, 1, true, 3)); CASE(rd_case(0, 2000000000, 2, false, 0)); CASE(rd_case(-2000000000, 2000000000, 2, true, 0));
}
#endif
#if VF_H_h_ins
static void ins_case(int index, int act, int room, bool held)
{
    list_elem_item *e = mk_elem(), *w[MAXN + 1]; int n = 0, mc = NE + room; bool created = true;
    if (mc == 0) return;
    IT.info.mcnt = mc; IT.info.ovflact = act;
    bool oor = index >= 0 ? (index > NE || index > mc - 1) : (-index > NE + 1 || -index > mc);
    bool full = NE >= mc;
    ENGINE_ERROR_CODE exp = oor ? ENGINE_EINDEXOOR : full && act == OVFL_ERROR ? ENGINE_EOVERFLOW : ENGINE_SUCCESS;
    int gap = index >= 0 ? index : NE + 1 + index, victim = -1;
    if (exp == ENGINE_SUCCESS && full) victim = index == 0 ? NE - 1 : index == -1 ? 0 : act == OVFL_HEAD_TRIM ? 0 : NE - 1;
    if (held && victim >= 0) { EL[victim]->refcount = 1; }
    if (exp == ENGINE_SUCCESS) {
        for (int i = 0; i <= NE; i++) { if (i == gap) w[n++] = e; if (i < NE && i != victim) w[n++] = EL[i]; }
        if (victim >= 0 && held) NHELD++;
    } else { for (int i = 0; i < NE; i++) w[n++] = EL[i]; NHELD++; }
    ENGINE_ERROR_CODE r = list_elem_insert("k", 1, index, e, NULL, &created, NULL);
    check_api();
    CHECK(r == exp, "an insert succeeds exactly when the index is in range and the overflow action allows it");
    CHECK(!created && vf_unlinked == 0, "an insert into an existing list creates and drops nothing");
    check_list(w, n);
    if (victim >= 0) COVER("trimmed"); if (exp == ENGINE_SUCCESS && victim < 0) COVER("inserted"); if (exp != ENGINE_SUCCESS) COVER("refused");
}
static void sticky_case(int index)
{
    list_elem_item *e = mk_elem(); bool created = true; NHELD++; IT.it.exptime = (rel_time_t)-1; sticky_over = true;
    CHECK(list_elem_insert("k", 1, index, e, NULL, &created, NULL) == ENGINE_ENOMEM, "an insert beyond the sticky memory limit is refused");
    check_api(); check_list(EL, NE);
    COVER("refused");
}
void h_ins(void)
{
    mk_list(N);
    CASES();
    static const int ACT[] = { OVFL_ERROR, OVFL_HEAD_TRIM, OVFL_TAIL_TRIM };
    for (int i = -N - 3; i <= N + 2; i++) for (int a = 0; a < 3; a++) for (int room = 0; room < 2; room++) CASE(ins_case(i, ACT[a], room, (i + a) & 1));
    CASE(sticky_case(0)); CASE(sticky_case(-1));
}
#endif
#if VF_H_h_index
/* every index and every count: a refused index touches nothing */
void h_index(void)
{
    mk_coll(); int n = nd_i32(), mc = nd_i32(), index = nd_i32(); ASSUME(n >= 0 && n <= 1000000 && mc > 0 && mc <= 1000000 && n <= mc && index != INT32_MIN);
    IT.info.ccnt = n; IT.info.mcnt = mc; IT.info.ovflact = OVFL_ERROR; IT.info.head = IT.info.tail = NULL;
    bool oor = index >= 0 ? (index > n || index >= mc) : (-(int64_t)index > n + 1 || -(int64_t)index > mc);
    ASSUME(oor || n == mc);
    ENGINE_ERROR_CODE r = do_list_elem_insert(&IT.it, index, NULL, NULL);
    CHECK(r == (oor ? ENGINE_EINDEXOOR : ENGINE_EOVERFLOW), "an index beyond the list or its maximum is refused, for every list size");
    CHECK(IT.info.ccnt == n && IT.info.stotal == 0, "a refused insert changes nothing");
    if (oor) COVER("index out of range"); else COVER("full");
}
#endif
#if VF_H_h_create
static int32_t realmax(int32_t m) { return m < 0 ? -1 : m == 0 ? DEFAULT_LIST_SIZE : m > config->max_list_size ? (int32_t)config->max_list_size : m; }
static void chk_new(item_attr *a)
{
    CHECK(IT.info.mcnt == realmax(a->maxcount) && IT.info.stotal == (IT.info.ccnt ? slabs_space_size(ESZ) : 0), "a new list has the requested maximum count, clamped to the configured limit");
    CHECK(IT.info.ovflact == (a->ovflaction ? a->ovflaction : OVFL_TAIL_TRIM), "a new list trims its tail unless told otherwise");
    CHECK(((IT.info.mflags & COLL_META_FLAG_READABLE) != 0) == (a->readable == 1) && ((IT.info.mflags & COLL_META_FLAG_STICKY) != 0) == (a->exptime == (rel_time_t)-1), "a new list is readable and sticky as requested");
    CHECK(IS_LIST_ITEM(&IT.it) && IT.it.nbytes == 2, "the new item is a list");
}
static void cr_case(int idx, bool nomem, bool linkfail, bool over)
{
    item_attr a; bool created = false; list_elem_item *e = mk_elem(); a.flags = nd_u32(); a.exptime = over ? (rel_time_t)-1 : nd_u32(); a.maxcount = nd_i32(); a.ovflaction = nd_u8(); a.readable = nd_u8();
    ASSUME(a.ovflaction <= OVFL_TAIL_TRIM); vf_item_nomem = nomem; vf_link_fail = linkfail; sticky_over = over;
    ENGINE_ERROR_CODE r = list_elem_insert("k", 8, idx, e, &a, &created, NULL);
    check_api();
    if (nomem || linkfail) { CHECK(r == ENGINE_ENOMEM && !created && !vf_present, "a list that cannot be created is not there"); COVER("no memory"); return; }
    bool ok = (idx == 0 || idx == -1) && !over;
    CHECK(created && vf_linked == 1, "an insert with attributes creates the list");
    CHECK(ok ? r == ENGINE_SUCCESS : over && (idx == 0 || idx == -1) ? r == ENGINE_ENOMEM : r == ENGINE_EINDEXOOR, "only index 0 or -1 fits an empty list");
    CHECK(vf_present == ok && vf_unlinked == !ok, "a list whose first insert fails is removed again");
    if (ok) { chk_new(&a); CHECK(IT.info.head == e && IT.info.ccnt == 1, "the first element is stored"); COVER("created"); } else COVER("removed again");
}
static void st_case(bool exists)
{
    item_attr a; a.flags = nd_u32(); a.exptime = nd_u32(); a.maxcount = nd_i32(); a.ovflaction = nd_u8(); a.readable = nd_u8(); ASSUME(a.ovflaction <= OVFL_TAIL_TRIM);
    vf_present = exists;
    ENGINE_ERROR_CODE r = list_struct_create("k", 8, &a, NULL);
    check_api(); CHECK(vf_present, "after a create request the key is there");
    CHECK(r == (exists ? ENGINE_KEY_EEXISTS : ENGINE_SUCCESS), "creating over an existing key is refused"); if (!exists) chk_new(&a);
}
void h_create(void)
{
    mk_coll(); vf_present = false; IT.info.head = NULL; IT.info.mcnt = 77; IT.info.ccnt = 5; IT.info.mflags = 0xff; IT.info.stotal = 55;
    CASES();
    CASE(cr_case(0, false, false, false)); CASE(cr_case(-1, false, false, false)); CASE(cr_case(1, false, false, false)); CASE(cr_case(-2, false, false, false)); CASE(cr_case(0, true, false, false)); CASE(cr_case(0, false, true, false)); CASE(cr_case(0, false, false, true));
    CASE(st_case(true)); CASE(st_case(false));
}
#endif
#if VF_H_h_attr
void h_attr(void)
{
    mk_coll(); item_attr a, b; ENGINE_ITEM_ATTR ids[4]; int n = nd_range(0, 4);
    int ccnt = nd_range(0, 1000000); IT.info.ccnt = ccnt; IT.info.mcnt = nd_i32(); ASSUME(IT.info.mcnt != 0); IT.info.ovflact = nd_range(OVFL_ERROR, OVFL_TAIL_TRIM); IT.info.mflags = nd_u8(); ENG.config.max_list_size = nd_range(1, 1000000);
    int32_t m0 = IT.info.mcnt; uint8_t o0 = IT.info.ovflact, f0 = IT.info.mflags; 
    bool sm = false, so = false, sr = false; a.maxcount = nd_i32(); a.ovflaction = nd_u8(); a.readable = nd_u8();
    for (int i = 0; i < 4; i++) { ids[i] = nd_range(0, ATTR_END); if (i < n) { sm |= ids[i] == ATTR_MAXCOUNT; so |= ids[i] == ATTR_OVFLACTION; sr |= ids[i] == ATTR_READABLE; } }
    int32_t mc = a.maxcount, lim = ENG.config.max_list_size, rm = mc < 0 ? -1 : mc == 0 ? DEFAULT_LIST_SIZE : mc > lim ? lim : mc;
    if (lim < DEFAULT_LIST_SIZE) ASSUME(mc != 0);
    bool bad = (sm && rm > 0 && rm < ccnt) || (so && a.ovflaction != OVFL_ERROR && a.ovflaction != OVFL_HEAD_TRIM && a.ovflaction != OVFL_TAIL_TRIM) || (sr && a.readable != 1);
    uint8_t ov = a.ovflaction;
    ENGINE_ERROR_CODE r = list_coll_setattr(&IT.it, &a, ids, n);
    CHECK(r == (bad ? ENGINE_EBADVALUE : ENGINE_SUCCESS), "attributes are accepted exactly when every value is legal");
    CHECK(IT.info.mcnt == (!bad && sm ? rm : m0) && IT.info.ovflact == (!bad && so ? ov : o0) && IT.info.mflags == (!bad && sr ? f0 | COLL_META_FLAG_READABLE : f0), "accepted attributes are all set, refused ones change nothing");
    CHECK(IT.info.ccnt == ccnt, "attributes do not touch the elements");
    bool nobk = false; for (int i = 0; i < 4; i++) if (i < n && (ids[i] == ATTR_MAXBKEYRANGE || ids[i] == ATTR_TRIMMED)) nobk = true;
    r = list_coll_getattr(&IT.it, &b, ids, n);
    CHECK(r == (nobk ? ENGINE_EBADATTR : ENGINE_SUCCESS), "a list has no b+tree attributes");
    if (!nobk) CHECK(b.count == ccnt && b.maxcount == (IT.info.mcnt > 0 ? IT.info.mcnt : lim) && b.ovflaction == IT.info.ovflact && b.readable == ((IT.info.mflags & COLL_META_FLAG_READABLE) != 0), "the attributes read back are those in force");
    if (bad) COVER("refused"); else COVER("set");
}
#endif
