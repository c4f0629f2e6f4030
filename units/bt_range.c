//VF source engines/default/coll_btree.c
//VF const engines/default/item_base.h BTREE_ITEM_COUNT 4
//VF trust the one-byte-bkey, fan-out-4 trees of this unit exercise the same code paths as fan-out 32 (node capacity is a parameter of the code)
//VF harness h_rdel props=C35 unwind=14 objbits=12 each=SHAPE:0-7 kind=bounded timeout=600 bound="fan-out 4, 8 trees of up to 14 elements and 3 levels, ranges over all element boundaries, offset 0-1, count 0-3, filter on/off, some elements referenced by readers" funcs=do_btree_elem_delete,do_btree_find_first,do_btree_find_next,do_btree_find_prev,do_btree_node_remove_null_items,do_btree_node_merge,do_btree_incr_path,do_btree_decr_path,do_btree_elem_filter
//VF harness h_rget props=C35 unwind=14 objbits=12 each=SHAPE:0-7 kind=bounded timeout=600 bound="as h_rdel" funcs=do_btree_elem_get,do_btree_elem_count,do_btree_find_first,do_btree_find_next,do_btree_find_prev
//VF harness h_rgetdel props=C35 unwind=14 objbits=12 each=SHAPE:0-7 kind=bounded timeout=600 bound="as h_rdel" funcs=do_btree_elem_get,do_btree_elem_release
//VF harness h_posi props=C10 unwind=14 objbits=12 each=SHAPE:0-7 kind=bounded timeout=600 bound="8 trees of up to 14 elements, every bkey, both orders, every position, counts 0-4" funcs=do_btree_posi_find,do_btree_posi_from_path,do_btree_posi_find_with_get,do_btree_elem_get_by_posi,do_btree_elem_batch_get
//VF stub do_btree_elem_filter
//VF trust do_btree_elem_filter is used by its contract (a predicate of the element and the filter; proved for all inputs in bt_key.c)
#include "bt_common.h"
static inline bool do_btree_elem_filter(btree_elem_item *elem, const eflag_filter *efilter) { CHECK(efilter == &FILT, "the caller's filter is applied"); return ((elem_t*)elem)->data[1]; }
static const char *SH[] = { "4", "43", "2421", "1114", "13/31", "1/12/2", "44/21", "2121/3" };
#ifdef VF_THOROUGH
#define DENSE 1
#else
#define DENSE 0
#endif

static void hold(int mask) { for (int i = 0; i < NE; i++) if ((i * 7 + 3) % 3 == mask) EL[i]->refcount = 1; }
#if VF_H_h_rdel || VF_H_h_rgetdel
static void del_case(int f, int t, bool filt, int off, int cnt, bool get)
{
    int out[MAXE], m = expect(f, t, filt, off, cnt, out), n = 0; btree_elem_item *w[MAXE], *arr[MAXE];
    bool gone[MAXE], held[MAXE]; uint32_t cost = 0; bkey_range r; bool ptrim = true;
    for (int i = 0; i < NE; i++) { gone[i] = false; held[i] = EL[i]->refcount > 0; }
    for (int j = 0; j < m; j++) { gone[out[j]] = true; if (get || held[out[j]]) NHELD++; }
    for (int i = 0; i < NE; i++) if (!gone[i]) w[n++] = EL[i];
    set_range(&r, f, t);
    uint32_t d;
    if (get) d = do_btree_elem_get(info, rtype(f, t), &r, filt ? mk_filter() : NULL, off, cnt, true, arr, &cost, &ptrim);
    else     d = do_btree_elem_delete(info, rtype(f, t), &r, filt ? mk_filter() : NULL, off, cnt, &cost, ELEM_DELETE_NORMAL);
    CHECK(d == m, "a range delete removes exactly the matching elements (offset skipped, at most count)");
    check_tree(w, n);
    for (int j = 0; j < m; j++) {
        btree_elem_item *e = EL[out[j]];
        if (get) {
            CHECK(arr[j] == e && e->refcount >= 1 && e->status == BTREE_ITEM_STATUS_UNLINK, "a delete-on-read returns the removed elements in range order, still referenced");
            bool last = e->refcount == 1; if (last) NHELD--;
            do_btree_elem_release(e);
        } else if (held[out[j]]) CHECK(e->status == BTREE_ITEM_STATUS_UNLINK && e->data[0] == KEY(out[j]), "an element in use by a reader survives its deletion, marked unlinked");
    }
    check_tree(w, n);
    if (m) COVER("removed"); else COVER("nothing matches");
}
static void cases(bool get)
{
    mk_tree(SH[SHAPE]); hold(1);
    CASES();

    CASE(del_case(5, 10 * NE + 5, false, 0, 0, get)); CASE(del_case(10 * NE + 5, 5, false, 0, 0, get));
    CASE(del_case(10 * NE + 5, 10 * NE + 9, false, 0, 0, get)); CASE(del_case(8, 2, false, 0, 0, get));
    CASE(del_case(12, 18, false, 0, 0, get)); CASE(del_case(27, 23, false, 0, 0, get));
    for (int c = 1; c <= (DENSE ? NE : 5); c += DENSE ? 1 : 2) { CASE(del_case(5, 10 * NE, false, 0, c, get)); CASE(del_case(10 * NE + 5, 10, false, 0, c, get)); CASE(del_case(5, 10 * NE, true, 1, c, get)); CASE(del_case(10 * NE, 10, true, 1, c, get)); }
    for (int i = 0; i < NE; i++) {
        CASE(del_case(KEY(i), KEY(i), true, 0, 0, get));
        if (DENSE) { CASE(del_case(KEY(i), KEY(i), false, 0, 0, get)); CASE(del_case(KEY(i), KEY(i), false, 1, 1, get)); }
        for (int j = i + 1; j < NE; j++) {
            if (DENSE || (i + j) % 4 == 0) CASE(del_case(KEY(i), KEY(j), false, 0, 0, get));
            if (DENSE || (i + j) % 4 == 1) CASE(del_case(KEY(j), KEY(i), false, 0, 0, get));
            if (DENSE || (i + j) % 4 == 2) CASE(del_case(KEY(i) - 5, KEY(j) + 5, true, 0, 0, get));
            if (DENSE || (i + j) % 4 == 3) CASE(del_case(KEY(j) + 5, KEY(i) - 5, true, 0, 2, get));
            if (DENSE || (i + j) % 8 == 0) CASE(del_case(KEY(i), KEY(j) + 5, false, 1, 3, get));
            if (DENSE || (i + j) % 8 == 4) CASE(del_case(KEY(j), KEY(i), false, 2, 3, get));
        }
    }
}
void h_rdel(void) { cases(false); }
void h_rgetdel(void) { cases(true); }
#endif
#if VF_H_h_rget
static void get_case(int f, int t, bool filt, int off, int cnt)
{
    int out[MAXE], m = expect(f, t, filt, off, cnt, out), all = expect(f, t, filt, 0, 0, out), n = 0; btree_elem_item *arr[MAXE]; uint32_t cost = 0; bkey_range r; bool ptrim = true;
    m = expect(f, t, filt, off, cnt, out);
    set_range(&r, f, t);
    uint32_t d = do_btree_elem_get(info, rtype(f, t), &r, filt ? mk_filter() : NULL, off, cnt, false, arr, &cost, &ptrim);
    CHECK(d == m, "a range get returns exactly the matching elements (offset skipped, at most count)");
    CHECK(!ptrim, "no trim is reported for an untrimmed tree");
    for (int j = 0; j < m; j++) { CHECK(arr[j] == EL[out[j]] && arr[j]->refcount == 1 && arr[j]->status == BTREE_ITEM_STATUS_USED, "a range get returns the elements in range order, referenced once"); do_btree_elem_release(arr[j]); }
    CHECK(do_btree_elem_count(info, rtype(f, t), &r, filt ? mk_filter() : NULL, &cost) == all, "a range count equals the number of matching elements");
    check_tree(EL, NE);
    if (m) COVER("found"); else COVER("nothing matches");
}
void h_rget(void)
{
    mk_tree(SH[SHAPE]);
    CASES();
    CASE(get_case(10 * NE + 5, 10 * NE + 9, false, 0, 0)); CASE(get_case(8, 2, false, 0, 0)); CASE(get_case(12, 18, false, 0, 0)); CASE(get_case(27, 23, false, 0, 0));
    CASE(get_case(2, 8, false, 0, 0)); CASE(get_case(10 * NE + 9, 10 * NE + 5, false, 0, 0));
    for (int i = 0; i < NE; i++) {
        CASE(get_case(KEY(i), KEY(i), true, 0, 0)); CASE(get_case(KEY(i), KEY(i), false, 0, 3)); CASE(get_case(KEY(i), KEY(i), false, 1, 3)); CASE(get_case(KEY(i) + 5, KEY(i) + 5, false, 0, 0));
        for (int j = i; j < NE; j++) {
            if (DENSE || (i + j) % 4 == 0) CASE(get_case(KEY(i) - 5, KEY(j) + 5, false, 0, 0));
            if (DENSE || (i + j) % 4 == 1) CASE(get_case(KEY(j) + 5, KEY(i) - 5, false, 0, 0));
            if (DENSE || (i + j) % 4 == 2) CASE(get_case(KEY(i), KEY(j) + 5, false, 1, 2));
            if (DENSE || (i + j) % 4 == 3) CASE(get_case(KEY(j) + 5, KEY(i), true, 1, 2));
            if (DENSE || (i + j) % 8 == 0) CASE(get_case(KEY(j), KEY(i) - 5, false, 2, 4));
            if (DENSE || (i + j) % 8 == 4) CASE(get_case(KEY(i) - 5, KEY(j), true, 0, 0));
        }
    }
}
#endif
#if VF_H_h_posi
static void posi_case(int k)
{
    bkey_range r; set_range(&r, k, k); int at = (k % 10 == 0 && k >= 10 && k <= 10 * NE) ? k / 10 - 1 : -1;
    CHECK(do_btree_posi_find(info, BKEY_RANGE_TYPE_SIN, &r, BTREE_ORDER_ASC) == at, "the ascending position of a bkey is the number of smaller elements");
    CHECK(do_btree_posi_find(info, BKEY_RANGE_TYPE_SIN, &r, BTREE_ORDER_DESC) == (at < 0 ? -1 : NE - 1 - at), "the descending position of a bkey is the number of larger elements");
    if (at >= 0) COVER("found"); else COVER("absent");
}
static void pwg_case(int k, bool asc, int cnt)
{
    bkey_range r; set_range(&r, k, k); int at = k % 10 == 0 ? k / 10 - 1 : -1; btree_elem_item *arr[2 * 5 + 1]; uint32_t n = 99, idx = 99;
    int pos = at < 0 ? -1 : asc ? at : NE - 1 - at;
    int b = do_btree_posi_find_with_get(info, BKEY_RANGE_TYPE_SIN, &r, asc ? BTREE_ORDER_ASC : BTREE_ORDER_DESC, cnt, arr, &n, &idx);
    CHECK(b == pos, "position-with-get reports the position of the bkey");
    if (at < 0) { COVER("pwg absent"); return; }
    int lo = pos - cnt < 0 ? 0 : pos - cnt, hi = pos + cnt >= NE ? NE - 1 : pos + cnt;
    CHECK(n == hi - lo + 1 && idx == pos - lo, "position-with-get returns the neighbours within count on both sides");
    for (int j = 0; j <= hi - lo; j++) { int i = asc ? lo + j : NE - 1 - (lo + j); CHECK(arr[j] == EL[i] && EL[i]->refcount == 1, "position-with-get returns the neighbours in order, each referenced once"); }
    COVER("pwg found");
}
static void gbp_case(int from, int cnt, bool fwd)
{
    btree_elem_item *arr[MAXE]; uint32_t n = 99; int m = fwd ? (from + cnt <= NE ? cnt : NE - from) : (cnt <= from + 1 ? cnt : from + 1);
    ENGINE_ERROR_CODE e = do_btree_elem_get_by_posi(info, from, cnt, fwd, arr, &n);
    CHECK(e == ENGINE_SUCCESS && n == m, "get-by-position returns the elements from that position on");
    for (int j = 0; j < m; j++) CHECK(arr[j] == EL[fwd ? from + j : from - j] && arr[j]->refcount == 1, "get-by-position returns consecutive elements, each referenced once");
    COVER("by position");
}
void h_posi(void)
{
    mk_tree(SH[SHAPE]);
    CASES();
    CASE(posi_case(5));
    for (int i = 0; i < NE; i++) {
        CASE(posi_case(KEY(i))); CASE(posi_case(KEY(i) + 5));
        for (int c = 0; c <= 5; c++) { CASE(pwg_case(KEY(i), true, c)); CASE(pwg_case(KEY(i), false, c)); }
        for (int c = 1; c <= NE + 1; c += DENSE ? 1 : 2) { CASE(gbp_case(i, c, true)); CASE(gbp_case(i, c, false)); }
    }
    CASE(pwg_case(15, true, 2));
}
#endif
