/* B+tree instances for the bounded harnesses: fan-out 4, one-byte bkeys (the bkey order itself is proved for all
 * bkeys in bt_key.c), trees given as a shape string: leaf sizes, '/' separates the nodes of level 1. */
#include "vf.h"
#include "config.h"
#define VF_LOOP_MEM
#include "vf_libc.h"
#include VF_SRC
#include "vf_eng.h"
bool item_clog_enabled = false;
static struct default_engine ENG;
typedef struct { hash_item it; uint64_t key; btree_meta_info info; } bt_item_t;
static bt_item_t IT;
static btree_meta_info *info;
const void *item_get_meta(const hash_item *it) { CHECK(it == &IT.it, "the meta information is the item's own"); return &IT.info; }
static bool sticky_over;
void do_coll_space_incr(coll_meta_info *i, ENGINE_ITEM_TYPE t, const size_t n) { i->stotal += n; CHECK(t == ITEM_TYPE_BTREE, "space is accounted to the b+tree type"); }
void do_coll_space_decr(coll_meta_info *i, ENGINE_ITEM_TYPE t, const size_t n)
{ CHECK(i->stotal >= n, "space accounting never underflows"); i->stotal -= n; CHECK(t == ITEM_TYPE_BTREE, "space is accounted to the b+tree type"); }
bool do_item_sticky_overflowed(void) { return sticky_over; }
#define NEF 1
#define ESZ (sizeof(btree_elem_item_fixed) + 1 + NEF + 2)
typedef struct { btree_elem_item_fixed f; unsigned char data[4]; } elem_t;
static void *vf_eng_malloc(size_t n)
{
    if (n == sizeof(btree_indx_node) || n == sizeof(btree_leaf_node)) return vf_alloc(sizeof(btree_indx_node));
    return vf_alloc(sizeof(elem_t));
}
#define MAXE 40
static btree_elem_item *EL[MAXE + 1]; static int NE;
static btree_elem_item *mk_elem(int k)
{
    btree_elem_item *e = vf_alloc(sizeof(elem_t)); vf_live++; vf_live_bytes += ESZ;
    e->refcount = 0; e->slabs_clsid = 1; e->status = BTREE_ITEM_STATUS_USED; e->nbkey = 1; e->neflag = NEF; e->nbytes = 2;
    elem_t *t = (elem_t*)e; t->data[0] = k; t->data[1] = (k / 10) & 1; t->data[2] = 13; t->data[3] = 10;
    return e;
}
static btree_indx_node *mk_node(int depth)
{
    btree_indx_node *n = vf_alloc(sizeof(btree_indx_node)); vf_live++; vf_live_bytes += depth ? sizeof(btree_indx_node) : sizeof(btree_leaf_node);
    n->refcount = 0; n->slabs_clsid = 1; n->ndepth = depth; n->used_count = 0; n->prev = n->next = NULL;
    for (int i = 0; i < BTREE_ITEM_COUNT; i++) { n->item[i] = NULL; n->ecnt[i] = 0; }
    return n;
}
static void mk_env(void)
{
    engine = &ENG; config = &ENG.config; ENG.config.max_btree_size = 50000;
    IT.it.nkey = 8;     info = &IT.info; info->mcnt = 4000; info->ccnt = 0; info->ovflact = OVFL_SMALLEST_TRIM; info->mflags = 0; info->stotal = 0;
    info->bktype = BKEY_TYPE_BINARY; info->maxbkeyrange.len = BKEY_NULL; info->root = NULL;
}
#define KEY(i) (10 * ((i) + 1))     /* bkey of the i-th element; room for one unused bkey in every gap */
static void mk_tree(const char *sh)
{
    mk_env();
    btree_indx_node *pl = NULL, *p1 = NULL, *n1 = NULL, *root = NULL; int nleaf = 0, n1s = 1;
    for (int i = 0; sh[i]; i++) if (sh[i] == '/') n1s++; else nleaf++;
    if (nleaf == 0) return;
    if (n1s > 1) { root = mk_node(2); info->stotal += slabs_space_size(sizeof(btree_indx_node)); }
    for (int i = 0; sh[i]; i++) {
        if (sh[i] == '/') { n1 = NULL; continue; }
        if (!n1 && nleaf > 1) {
            n1 = mk_node(1); info->stotal += slabs_space_size(sizeof(btree_indx_node));
            n1->prev = p1; if (p1) p1->next = n1; p1 = n1;
            if (n1s > 1) { root->item[root->used_count] = n1; root->used_count++; }
        }
        btree_indx_node *lf = mk_node(0); int c = sh[i] - '0';
        for (int j = 0; j < c; j++) { EL[NE] = mk_elem(KEY(NE)); lf->item[j] = EL[NE]; NE++; info->stotal += slabs_space_size(ESZ); }
        lf->used_count = c; lf->prev = pl; if (pl) pl->next = lf; pl = lf;
        info->stotal += slabs_space_size(sizeof(btree_leaf_node));
        if (n1) { n1->item[n1->used_count] = lf; n1->ecnt[n1->used_count] = c; n1->used_count++; if (n1s > 1) root->ecnt[root->used_count - 1] += c; }
        else root = lf;
        if (n1 && n1s == 1) root = n1;
    }
    info->root = root; info->ccnt = NE;
}
static int NHELD;    /* elements outside the tree that somebody still refers to */
#define NODEMAX 24
/* representation invariant and abstraction: the tree holds exactly the elements w[0..n) in that order */
static void check_tree(btree_elem_item **w, int n)
{
    CHECK(info->ccnt == n, "the element count equals the number of elements stored");
    if (info->root == NULL) {
        CHECK(n == 0, "an empty tree has no elements"); CHECK(info->stotal == 0, "an empty tree uses no space");
        CHECK(vf_live == NHELD, "an emptied tree frees its nodes and elements");
        return;
    }
    btree_indx_node *lv[NODEMAX], *up[NODEMAX], *nd; uint32_t cn[NODEMAX], cu[NODEMAX]; int nn = 0, k = 0, d = info->root->ndepth, nodes = 0;
    size_t space = 0;
    CHECK(d < 4, "tree depth stays small");
    nd = info->root; CHECK(nd->prev == NULL && nd->next == NULL, "the root has no siblings");
    for (int i = 0; i < 4; i++) if (nd->ndepth > 0) { CHECK(((btree_indx_node*)nd->item[0])->ndepth == nd->ndepth - 1, "children are one level down"); nd = nd->item[0]; }
    CHECK(nd->ndepth == 0 && nd->prev == NULL, "the leftmost leaf starts the leaf chain");
    for (int i = 0; i < NODEMAX && nd; i++) {
        CHECK(nd->ndepth == 0 && nd->used_count <= BTREE_ITEM_COUNT && (nd->used_count > 0 || (n == 0 && nd == info->root)), "leaves hold between 1 and fan-out elements");
        for (int j = 0; j < BTREE_ITEM_COUNT; j++) if (j < nd->used_count) {
            CHECK(k < n && nd->item[j] == w[k], "the leaf chain lists exactly the stored elements in bkey order"); k++;
        }
        CHECK(nd->next == NULL || nd->next->prev == nd, "the leaf chain is doubly linked");
        space += slabs_space_size(sizeof(btree_leaf_node)); nodes++;
        lv[nn] = nd; cn[nn] = nd->used_count; nn++; nd = nd->next;
    }
    CHECK(nd == NULL && k == n, "every stored element is reachable");
    for (int lev = 1; lev <= 3 && lev <= d; lev++) {
        nd = info->root; for (int i = 0; i < 4; i++) if (nd->ndepth > lev) nd = nd->item[0];
        int m = 0, c = 0;
        for (int i = 0; i < NODEMAX && nd; i++) {
            CHECK(nd->ndepth == lev && nd->used_count >= 1 && nd->used_count <= BTREE_ITEM_COUNT, "index nodes hold between 1 and fan-out children");
            cu[m] = 0;
            for (int j = 0; j < BTREE_ITEM_COUNT; j++) if (j < nd->used_count) {
                CHECK(c < nn && nd->item[j] == lv[c], "index nodes point to the nodes of the level below, in order");
                CHECK(nd->ecnt[j] == cn[c], "every subtree count equals the number of elements below"); cu[m] += cn[c]; c++;
            }
            CHECK(nd->next == NULL || nd->next->prev == nd, "index levels are doubly linked");
            space += slabs_space_size(sizeof(btree_indx_node)); nodes++;
            up[m++] = nd; nd = nd->next;
        }
        CHECK(nd == NULL && c == nn, "every node is reachable from the level above");
        for (int i = 0; i < m; i++) { lv[i] = up[i]; cn[i] = cu[i]; }
        nn = m;
    }
    CHECK(nn == 1 && lv[0] == info->root, "one root");
    CHECK(vf_live == nodes + n + NHELD, "exactly the nodes and elements in use are allocated (nothing leaks, nothing in use is freed)");
    CHECK(info->stotal == space + n * slabs_space_size(ESZ), "the accounted space equals the space of the nodes and elements");
}
/* the elements a range query must deliver: in range, in query direction, passing the filter, after offset, at most count (0: all) */
#define MARK(i) (((i) + 1) & 1)
static int expect(int f, int t, bool filt, int off, int cnt, int *out)
{
    int m = 0, skip = 0;
    for (int j = 0; j < NE; j++) {
        int i = f <= t ? j : NE - 1 - j, lo = f <= t ? f : t, hi = f <= t ? t : f;
        if (KEY(i) < lo || KEY(i) > hi || (filt && !MARK(i))) continue;
        if (skip < off) { skip++; continue; }
        if (cnt == 0 || m < cnt) out[m++] = i;
    }
    return m;
}
static eflag_filter FILT;

static eflag_filter *mk_filter(void)
{
    FILT.ncompval = 1; FILT.nbitwval = 0; FILT.compvcnt = 1; FILT.offset = 0; FILT.bitwop = BITWISE_OP_MAX; FILT.compop = COMPARE_OP_EQ;
    FILT.compval[0] = 1; return &FILT;
}
static void set_range(bkey_range *r, int f, int t) { r->from_nbkey = r->to_nbkey = 1; r->from_bkey[0] = f; r->to_bkey[0] = t; }
static int rtype(int f, int t) { return f == t ? BKEY_RANGE_TYPE_SIN : f < t ? BKEY_RANGE_TYPE_ASC : BKEY_RANGE_TYPE_DSC; }
