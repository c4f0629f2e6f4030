//VF source engines/default/coll_btree.c
//VF const engines/default/item_base.h BTREE_ITEM_COUNT 4
//VF trust the one-byte-bkey, fan-out-4 trees of this unit exercise the same code paths as fan-out 32 (node capacity is a parameter of the code)
//VF harness h_ins props=C09 unwind=12 objbits=11 each=SHAPE:0-17 kind=bounded bound="fan-out 4, trees of up to 22 elements and 3 levels (18 shapes), every insert position" funcs=do_btree_elem_link,do_btree_find_insposi,do_btree_node_split,do_btree_node_sbalance,do_btree_node_item_move,do_btree_ecnt_move_split,do_btree_node_link
//VF harness h_del1 props=C09 unwind=12 objbits=11 each=SHAPE:0-17 kind=bounded bound="fan-out 4, trees of up to 22 elements and 3 levels (18 shapes), every bkey" funcs=do_btree_elem_delete,do_btree_elem_unlink,do_btree_node_merge,do_btree_node_mbalance,do_btree_ecnt_move_merge,do_btree_node_unlink
#include "bt_common.h"
static const char *SH[] = { "4", "44", "4444", "434", "343", "141", "1432", "44/4444", "1444/44", "11/11", "12/121", "21/31/12", "1444/41", "14/4441", "4/1444/14", "14/1444/4", "2/11/21", "31/11/2" };

#if VF_H_h_ins
static void ins_case(int k)
{
    btree_elem_item *e = mk_elem(k), *w[MAXE + 1]; int p = 0, n = 0; bool dup = k % 10 == 0 && k / 10 >= 1 && k / 10 <= NE;
    for (int i = 0; i < NE; i++) { if (!dup && KEY(i) > k && n == i) w[n++] = e; w[n++] = EL[i]; }
    if (!dup && n == NE) w[n++] = e;
    ENGINE_ERROR_CODE r = do_btree_elem_link(info, e, false, NULL, NULL, NULL, NULL);
    if (dup) NHELD = 1;
    CHECK(r == (dup ? ENGINE_ELEM_EEXISTS : ENGINE_SUCCESS), "insert succeeds exactly when the bkey is not stored");
    check_tree(w, n);
    if (dup) COVER("duplicate"); else COVER("inserted");
}
void h_ins(void)
{
    mk_tree(SH[SHAPE]);
    CASES();
    CASE(ins_case(10));
    for (int i = 0; i <= NE; i++) CASE(ins_case(10 * i + 5));
    CASE(ins_case(10 * NE));
}
#endif
#if VF_H_h_del1
static void del_case(int k)
{
    btree_elem_item *w[MAXE + 1]; int n = 0; bool hit = k % 10 == 0 && k / 10 >= 1 && k / 10 <= NE;
    for (int i = 0; i < NE; i++) if (KEY(i) != k) w[n++] = EL[i];
    bkey_range r; set_range(&r, k, k); uint32_t cost = 0;
    uint32_t d = do_btree_elem_delete(info, BKEY_RANGE_TYPE_SIN, &r, NULL, 0, 0, &cost, ELEM_DELETE_NORMAL);
    CHECK(d == (hit ? 1 : 0), "a delete removes the element of that bkey, if any");
    check_tree(w, n);
    if (hit) COVER("hit"); else COVER("miss");
}
void h_del1(void)
{
    mk_tree(SH[SHAPE]);
    CASES();
    CASE(del_case(5)); CASE(del_case(25));
    for (int i = 0; i < NE; i++) CASE(del_case(KEY(i)));
    CASE(del_case(10 * NE + 5));
}
#endif
