//VF source engines/default/coll_btree.c
//VF const engines/default/item_base.h BTREE_ITEM_COUNT 4
//VF trust the one-byte-bkey, fan-out-4 trees of this unit exercise the same code paths as fan-out 32 (node capacity is a parameter of the code)
//VF harness h_count props=C36 unwind=14 objbits=12 each=SHAPE:0-4 kind=bounded timeout=600 bound="fan-out 4, 5 trees of up to 16 elements, every insert position, all overflow actions" funcs=do_btree_elem_insert,do_btree_elem_link,do_btree_overflow_check,do_btree_overflow_trim,do_btree_elem_unlink
//VF harness h_range props=C36 unwind=14 objbits=12 each=SHAPE:0-4 kind=bounded timeout=600 bound="fan-out 4, 5 trees of up to 16 elements, every insert position, all overflow actions, 4 maximum bkey ranges" funcs=do_btree_elem_insert,do_btree_elem_link,do_btree_overflow_check,do_btree_overflow_trim,do_btree_elem_delete
//VF harness h_upsert props=C36 unwind=14 objbits=12 each=SHAPE:0-4 kind=bounded timeout=600 bound="fan-out 4, 5 trees of up to 16 elements, every element, referenced or not, 4 new sizes" funcs=do_btree_elem_insert,do_btree_elem_link,do_btree_elem_replace
//VF harness h_insfail props=C36 unwind=14 objbits=12 each=SHAPE:0-5 kind=bounded timeout=600 bound="fan-out 4, 6 trees of up to 16 elements, every insert position, every failing allocation" funcs=do_btree_elem_insert,do_btree_elem_link,do_btree_node_split
//VF harness h_trimread props=C36 unwind=14 objbits=12 each=SHAPE:0-4 kind=bounded timeout=600 bound="5 trees of up to 16 elements, ranges ending in every gap" funcs=do_btree_elem_get,do_btree_overlapped_with_trimmed_space
//VF harness h_clear props=C36 unwind=14 objbits=12 each=SHAPE:0-4 kind=bounded timeout=600 bound="5 trees of up to 16 elements" funcs=btree_elem_delete_with_count,do_btree_elem_delete_fast
#include "bt_common.h"
static const char *SH[] = { "4", "43", "1114", "13/31", "4444", "" };
static const int ACT[] = { OVFL_ERROR, OVFL_SMALLEST_TRIM, OVFL_LARGEST_TRIM, OVFL_SMALLEST_SILENT_TRIM, OVFL_LARGEST_SILENT_TRIM };
#define SMALLEST(a) ((a) == OVFL_SMALLEST_TRIM || (a) == OVFL_SMALLEST_SILENT_TRIM)
#define LARGEST(a)  ((a) == OVFL_LARGEST_TRIM || (a) == OVFL_LARGEST_SILENT_TRIM)
#define SILENT(a)   ((a) == OVFL_SMALLEST_SILENT_TRIM || (a) == OVFL_LARGEST_SILENT_TRIM)

/* w := the stored elements with e (bkey k) added at its place */
static int with(int k, btree_elem_item *e, btree_elem_item **w)
{
    int n = 0; bool put = false;
    for (int i = 0; i < NE; i++) { if (!put && KEY(i) > k) { w[n++] = e; put = true; } w[n++] = EL[i]; }
    if (!put) w[n++] = e;
    return n;
}
#define TRIMMED(i) (((i)->mflags & COLL_META_FLAG_TRIMMED) != 0)
#if VF_H_h_count
static void count_case(int k, int act, bool want, bool over)
{
    btree_elem_item *e = mk_elem(k), *w[MAXE], *tr = NULL; uint32_t tc = 0; bool rep = false;
    info->ovflact = act; info->mcnt = over ? NE : NE + 1;
    int n = with(k, e, w);
    ENGINE_ERROR_CODE r = do_btree_elem_insert(&IT.it, e, false, &rep, want ? &tr : NULL, want ? &tc : NULL, NULL);
    if (!over) { CHECK(r == ENGINE_SUCCESS, "an insert below the maximum count succeeds"); check_tree(w, n); CHECK(tr == NULL && !TRIMMED(info), "nothing is trimmed below the maximum count"); COVER("fits"); return; }
    if (act == OVFL_ERROR) {
        NHELD = 1; CHECK(r == ENGINE_EOVERFLOW && !TRIMMED(info), "a full b+tree with the error action refuses the insert"); check_tree(EL, NE); COVER("refused");
    } else if ((SMALLEST(act) && k < KEY(0)) || (LARGEST(act) && k > KEY(NE - 1))) {
        NHELD = 1; CHECK(r == ENGINE_EBKEYOOR, "an insert that would itself be trimmed is refused"); check_tree(EL, NE); COVER("out of range");
        CHECK(TRIMMED(info) == !SILENT(act), "an implicit trim is remembered unless the action is silent");
    } else {
        CHECK(r == ENGINE_SUCCESS, "a full b+tree with a trim action accepts the insert");
        btree_elem_item *victim = SMALLEST(act) ? EL[0] : EL[NE - 1];
        CHECK(TRIMMED(info) == !SILENT(act), "a trim is remembered unless the action is silent");
        if (want) { NHELD = 1; CHECK(tc == 1 && tr == victim && victim->refcount == 1 && victim->status == BTREE_ITEM_STATUS_UNLINK, "the trimmed element is handed out, referenced"); }
        else CHECK(tr == NULL, "nothing handed out");
        check_tree(SMALLEST(act) ? w + 1 : w, n - 1); COVER("trimmed");
    }
}
void h_count(void)
{
    mk_tree(SH[SHAPE]);
    CASES();
    for (int i = 0; i <= NE; i++) for (int a = 0; a < 5; a++) { CASE(count_case(10 * i + 5, ACT[a], (i + a) % 2, true)); if ((a + i) % 5 == 0) CASE(count_case(10 * i + 5, ACT[a], true, false)); }
}
#endif
#if VF_H_h_range
static void range_case(int k, int act, int mr)
{
    btree_elem_item *e = mk_elem(k), *w[MAXE], *x[MAXE]; bool rep = false; int n = with(k, e, w), m = 0;
    int mn = KEY(0), mx = KEY(NE - 1);
    if (k > 250 || mr > 250) return;
    info->ovflact = act; info->mcnt = NE + 1; info->maxbkeyrange.len = 1; info->maxbkeyrange.val[0] = mr;
    bool t0 = false; if (act != OVFL_ERROR && !SILENT(act) && k % 20 == 5) { info->mflags |= COLL_META_FLAG_TRIMMED; t0 = true; }
    bool over = (k < mn && mx - k > mr) || (k > mx && k - mn > mr);
    bool refuse = over && (act == OVFL_ERROR || (k < mn && SMALLEST(act)) || (k > mx && LARGEST(act)));
    for (int i = 0, p = 0; i < n; i++) {
        int key = w[i] == e ? k : KEY(p); if (w[i] != e) p++;
        if (!over || (k > mx && key >= k - mr) || (k < mn && key <= k + mr)) x[m++] = w[i];
    }
    ENGINE_ERROR_CODE r = do_btree_elem_insert(&IT.it, e, false, &rep, NULL, NULL, NULL);
    if (refuse) { NHELD = 1; CHECK(r == ENGINE_EBKEYOOR && TRIMMED(info) == t0, "an insert beyond the maximum bkey range is refused when it would itself be trimmed"); check_tree(EL, NE); COVER("refused"); return; }
    CHECK(r == ENGINE_SUCCESS, "an insert within the maximum bkey range, or trimmed to it, succeeds");
    check_tree(x, m);
    if (over) { COVER("trimmed"); CHECK(!TRIMMED(info), "a trim to the maximum bkey range clears the trimmed mark"); } else { COVER("fits"); CHECK(TRIMMED(info) == t0, "an insert that fits leaves the trimmed mark"); }
}
void h_range(void)
{
    mk_tree(SH[SHAPE]);
    int span = KEY(NE - 1) - KEY(0);
    CASES();
    for (int a = 0; a < 5; a++) for (int d = 0; d < 15; d += 4) {
        CASE(range_case(5, ACT[a], span + d)); CASE(range_case(10 * NE + 5, ACT[a], span + d)); CASE(range_case(10 * NE + 40, ACT[a], span + d));
        CASE(range_case(10 * NE + span + d, ACT[a], span + d)); CASE(range_case(15, ACT[a], span + d)); CASE(range_case(1, ACT[a], span + d));
    }
}
#endif
#if VF_H_h_upsert
static void up_case(int i, int nb, bool held)
{
    btree_elem_item *e = vf_alloc(sizeof(elem_t)), *old = EL[i]; elem_t *t = (elem_t*)e; bool rep = false;
    vf_live++; vf_live_bytes += sizeof(btree_elem_item_fixed) + 2 + nb;
    e->refcount = 0; e->slabs_clsid = 1; e->status = BTREE_ITEM_STATUS_UNLINK; e->nbkey = 1; e->neflag = 1; e->nbytes = nb; t->data[0] = KEY(i); t->data[1] = 7;
    info->mcnt = NE; info->ovflact = OVFL_ERROR;
    if (held) { old->refcount = 1; NHELD = 1; }
    size_t s0 = info->stotal, d_new = slabs_space_size(sizeof(btree_elem_item_fixed) + 2 + nb), d_old = slabs_space_size(ESZ);
    ENGINE_ERROR_CODE r = do_btree_elem_insert(&IT.it, e, true, &rep, NULL, NULL, NULL);
    CHECK(r == ENGINE_SUCCESS && rep, "an upsert of a stored bkey replaces the element, even at the maximum count");
    CHECK(info->stotal == s0 + d_new - d_old, "a replacement accounts the difference of the element sizes");
    CHECK(e->status == BTREE_ITEM_STATUS_USED, "the new element is in use");
    if (held) CHECK(old->status == BTREE_ITEM_STATUS_UNLINK && ((elem_t*)old)->data[0] == KEY(i), "the replaced element stays readable for those who hold it");
    info->stotal = s0; EL[i] = e; check_tree(EL, NE);
    COVER("replaced");
}
static void noup_case(int i)
{
    btree_elem_item *e = mk_elem(KEY(i)); bool rep = false; info->mcnt = NE; info->ovflact = OVFL_SMALLEST_TRIM; NHELD = 1;
    CHECK(do_btree_elem_insert(&IT.it, e, false, &rep, NULL, NULL, NULL) == ENGINE_ELEM_EEXISTS && !rep, "an insert of a stored bkey is refused and trims nothing");
    check_tree(EL, NE); COVER("exists");
}
static void sticky_case(int k)
{
    btree_elem_item *e = mk_elem(k); bool rep = false; info->mflags |= COLL_META_FLAG_STICKY; sticky_over = true; NHELD = 1;
    CHECK(do_btree_elem_insert(&IT.it, e, false, &rep, NULL, NULL, NULL) == ENGINE_ENOMEM, "an insert beyond the sticky memory limit is refused");
    check_tree(EL, NE); COVER("sticky");
}
static void badkey_case(void)
{
    btree_elem_item *e = mk_elem(15); bool rep = false; info->bktype = BKEY_TYPE_UINT64; NHELD = 1;
    CHECK(do_btree_elem_insert(&IT.it, e, false, &rep, NULL, NULL, NULL) == ENGINE_EBADBKEY, "a bkey of another type is refused");
    check_tree(EL, NE); COVER("bad bkey");
}
void h_upsert(void)
{
    mk_tree(SH[SHAPE]);
    CASES();
    for (int i = 0; i < NE; i++) { CASE(up_case(i, 2, true)); CASE(up_case(i, 1, false)); CASE(up_case(i, 40, i % 2)); CASE(up_case(i, 500, true)); CASE(noup_case(i)); CASE(sticky_case(KEY(i) + 5)); }
    CASE(badkey_case());
}
#endif
#if VF_H_h_insfail
static void fail_case(int k, int at)
{
    btree_elem_item *e = mk_elem(k), *w[MAXE]; int n = with(k, e, w); bool rep = false;
    vf_alloc_may_fail = true; vf_alloc_fail_at = at;
    ENGINE_ERROR_CODE r = do_btree_elem_insert(&IT.it, e, false, &rep, NULL, NULL, NULL);
    if (vf_alloc_calls > at) { CHECK(r == ENGINE_ENOMEM, "an insert that runs out of memory says so"); NHELD = 1; check_tree(EL, NE); }
    else { CHECK(r == ENGINE_SUCCESS, "an insert with enough memory succeeds"); check_tree(w, n); }
    COVER("insert decided");
}
static void refuse_case(void)
{   /* refused right after the root was created: the b+tree is empty again */
    btree_elem_item *e = mk_elem(5); bool rep = false; info->mflags |= COLL_META_FLAG_STICKY; sticky_over = true; NHELD = 1;
    CHECK(do_btree_elem_insert(&IT.it, e, false, &rep, NULL, NULL, NULL) == ENGINE_ENOMEM, "an insert beyond the sticky memory limit is refused");
    CHECK(info->root == NULL || NE > 0, "a refused first insert leaves the b+tree empty");
    check_tree(EL, NE); COVER("out of memory");
}
void h_insfail(void)
{
    mk_tree(SH[SHAPE]);
    CASES();
    CASE(refuse_case());
    for (int i = 0; i <= NE; i++) for (int a = 0; a < 4; a++) CASE(fail_case(10 * i + 5, a));
}
#endif
#if VF_H_h_trimread
static void tr_case(int f, int t, bool small, bool marked)
{
    btree_elem_item *arr[MAXE]; uint32_t cost = 0; bkey_range r; bool ptrim = true; int out[MAXE], m = expect(f, t, false, 0, 0, out);
    int lo = f < t ? f : t, hi = f < t ? t : f;
    info->ovflact = small ? OVFL_SMALLEST_TRIM : OVFL_LARGEST_TRIM; if (marked) info->mflags |= COLL_META_FLAG_TRIMMED;
    set_range(&r, f, t);
    uint32_t d = do_btree_elem_get(info, rtype(f, t), &r, NULL, 0, 0, false, arr, &cost, &ptrim);
    CHECK(d == m, "a range get returns exactly the matching elements");
    CHECK(ptrim == (marked && (small ? lo < KEY(0) : hi > KEY(NE - 1))), "a range that reaches into the trimmed side, and only such a range, reports a possible trim");
    if (ptrim) COVER("trim reported"); else COVER("no trim");
}
void h_trimread(void)
{
    mk_tree(SH[SHAPE]);
    CASES();
    CASE(tr_case(2, 8, true, true)); CASE(tr_case(8, 2, true, true)); CASE(tr_case(5, 5, true, true)); CASE(tr_case(5, 5, false, true));
    CASE(tr_case(10 * NE + 2, 10 * NE + 8, false, true)); CASE(tr_case(10 * NE + 8, 10 * NE + 2, false, true)); CASE(tr_case(10 * NE + 8, 10 * NE + 8, false, true));
    for (int i = 0; i < NE; i++) {
        CASE(tr_case(5, KEY(i), true, i % 2)); CASE(tr_case(KEY(i), 5, true, true)); CASE(tr_case(KEY(i), 10 * NE + 5, true, true)); CASE(tr_case(KEY(i), 10 * NE + 5, false, true));
        CASE(tr_case(10 * NE + 5, KEY(i), false, i % 2)); CASE(tr_case(10 * NE + 5, KEY(i), false, true)); CASE(tr_case(KEY(i), KEY(i), true, true)); CASE(tr_case(KEY(i) + 5, KEY(i) + 7, i % 2, true));
        CASE(tr_case(KEY(0), KEY(i), true, true)); CASE(tr_case(KEY(i), KEY(NE - 1), false, true));
    }
}
#endif
#if VF_H_h_clear
static void clear_case(int step, int held)
{
    for (int i = 0; i < NE; i++) if (i % 3 == held) { EL[i]->refcount = 1; NHELD++; }
    uint32_t got = 0;
    for (int i = 0; i <= NE / (step ? step : NE) && info->ccnt > 0; i++) got += btree_elem_delete_with_count(info, step);
    CHECK(got == NE, "clearing removes every element"); check_tree(EL, 0); COVER("cleared");
}
void h_clear(void)
{
    mk_tree(SH[SHAPE]);
    CASES();
    CASE(clear_case(0, 5)); CASE(clear_case(0, 1)); CASE(clear_case(1, 0)); CASE(clear_case(3, 2)); CASE(clear_case(4, 1)); CASE(clear_case(100, 1));
}
#endif
