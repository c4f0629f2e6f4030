//VF source engines/default/assoc.c
//VF trust calloc/realloc: fresh zeroed memory / moved contents, or NULL (both explored); item_get_key returns the item's key; printf/parse of the scan cursor number are inverse to each other (number parsing itself: C20)
//VF trust 2 buckets per table instead of 65536 (assoc->hashpower is a run-time field of the code)
//VF harness h_op props=C05 unwind=34 objbits=11 each=CFG:0-6 kind=bounded timeout=400 bound="2 buckets, 1-16 tables, 3 items in 5 hash patterns, every expansion progress point" funcs=assoc_find,assoc_insert,assoc_delete,assoc_replace,redistribute,assoc_expand,assoc_expand_roottable,CUR_HASH_TABIDX,_hashitem_before
//VF harness h_scan props=C37 unwind=24 objbits=11 each=CFG:0-5 kind=bounded timeout=600 bound="2 buckets, 1-8 tables, 5 items, batches of 1-3, one insertion (with redistribution or expansion) or deletion between any two batches" funcs=assoc_scan_init,assoc_scan_next,assoc_scan_final,_link_scan_placeholder,_unlink_scan_placeholder,redistribute
//VF harness h_scan_direct props=C37 unwind=34 objbits=11 each=CFG:0-5 kind=bounded timeout=600 bound="2 buckets, 1-8 tables, 5 items, counts 1-3, one insertion (with redistribution or expansion) or deletion between any two calls" funcs=assoc_scan_direct,encode_cursor,decode_cursor,reverse_bits
//VF harness h_scan_bad props=C37 unwind=34 objbits=11 defs=-DCFG=3 kind=bounded timeout=600 bound="2 buckets, 4 tables, chain of 5 items, cursors at all boundaries" funcs=assoc_scan_direct,decode_cursor
#include "vf.h"
#include "config.h"
#include <pthread.h>
#define VF_LOOP_MEM
#include "vf_libc.h"
static bool vf_nomem;
static void *vf_calloc(size_t n, size_t s) { if (vf_nomem) return NULL; void **p = vf_alloc(16 * sizeof(void*)); CHECK(n * s <= 16 * sizeof(void*), "unit sizes"); for (int i = 0; i < 16; i++) p[i] = NULL; return p; }
static void *vf_realloc(void *o, size_t s) { if (vf_nomem) return NULL; void **p = vf_alloc(64 * sizeof(void*)), **q = o; for (int i = 0; i < 16; i++) if (i * sizeof(void*) < s / 2) p[i] = q[i]; return p; }
#define calloc(n, s) vf_calloc(n, s)
#define realloc(o, s) vf_realloc(o, s)
static int vf_put_cursor(char *s, const char *fmt, uint32_t v);
#define sprintf(s, fmt, v) vf_put_cursor(s, fmt, v)
#include VF_SRC
#undef calloc
#undef realloc
#undef sprintf
typedef struct { hash_item it; uint64_t key; } kitem;
const void *item_get_key(const hash_item *it) { return &((kitem*)it)->key; }
const void *item_get_meta(const hash_item *it) { CHECK(0, "no collections in this unit"); return NULL; }
static uint32_t vf_cursor; static bool vf_cursor_bad; static char CUR[16];
static int vf_put_cursor(char *s, const char *fmt, uint32_t v) { CHECK(s == CUR, "the cursor is returned in the caller's buffer"); vf_cursor = v; return 1; }
bool safe_strtoul(const char *s, uint32_t *out) { if (vf_cursor_bad) return false; *out = vf_cursor; return true; }
static EXTENSION_LOGGER_DESCRIPTOR VF_LOGGER;
static void vf_log(EXTENSION_LOG_LEVEL severity, const void *client_cookie, const char *fmt, ...) { }
#define HP 1
#define HS 2
#if CFG >= 6
#define MAXT 16
#else
#define MAXT 8
#endif
static struct assoc A;
static hash_item *HT[MAXT * HS]; static struct table RT[32]; static struct bucket_info BI[HS];
static kitem KI[8];
/* where an item belongs, by definition: its table under the current mask, or under the previous one while its chain has not been split */
static uint32_t home(uint32_t h)
{
    uint32_t b = h & (HS - 1), t = h >> HP, p = t & A.prevmask;
    if (A.expanding && (b < A.exp_bucket || (b == A.exp_bucket && p >= A.exp_tabidx))) return p;
    return t & A.rootmask;
}
/* configurations: root power, expanding, room in the root table */
static void mk_assoc(void)
{
    static const int RP[] = { 0, 1, 1, 2, 2, 3, 4 }; static const bool EX[] = { 0, 0, 1, 0, 1, 1, 1 };
    int rp = RP[CFG];
    VF_LOGGER.log = vf_log; logger = &VF_LOGGER; assocp = &A;
    A.hashpower = HP; A.hashsize = HS; A.hashmask = HS - 1; A.rootpower = rp; A.rootsize = 1u << rp; A.rootmask = A.rootsize - 1;
    A.roottabsz = A.rootsize == 1 ? 1 : A.rootsize; A.roottable = RT; A.infotable = BI;
    A.prevsize = rp ? A.rootsize / 2 : 0; A.prevmask = rp ? A.prevsize - 1 : 0;
    for (int i = 0; i < MAXT; i++) if (i < A.rootsize) RT[i].hashtable = &HT[i * HS];
    A.expanding = EX[CFG]; A.exp_bucket = 0; A.exp_tabidx = 0;
}
static void put(int i, uint32_t h)
{
    KI[i].it.khash = h; KI[i].it.nkey = 1 + (i & 1); KI[i].key = 0x4141 + (i >> 1);
    hash_item **c = &HT[home(h) * HS + (h & (HS - 1))]; KI[i].it.h_next = *c; *c = &KI[i].it; A.hash_items++;
}
static void init_item(int i, uint32_t h) { KI[i].it.khash = h; KI[i].it.nkey = 1 + (i & 1); KI[i].key = 0x4141 + (i >> 1); KI[i].it.h_next = NULL; }
#define CHAIN(t, b) (A.roottable[t].hashtable[b])
static void check_table(int n, int maxt, const int *w)      /* the table holds exactly the items w[0..n) */
{
    CHECK(A.hash_items == n, "the item count equals the number of items in the table");
    for (int j = 0; j < n; j++) {
        hash_item *it = &KI[w[j]].it;
        CHECK(assoc_find((char*)&KI[w[j]].key, it->nkey, it->khash) == it, "a lookup finds every stored item");
    }
    int links = 0;
    for (int t = 0; t < maxt; t++) if (t < A.rootsize) for (int b = 0; b < HS; b++) {
        hash_item *p = CHAIN(t, b);
        for (int k = 0; k < 8 && p; k++) { CHECK((p->khash & (HS - 1)) == b && home(p->khash) == t, "every chain holds only items whose hash leads there"); links++; p = p->h_next; }
        CHECK(p == NULL, "chains end");
    }
    CHECK(links == n, "every item is linked exactly once");
}
#if VF_H_h_op
static const int W012[] = { 0, 1, 2 };
static void op_find_absent(uint32_t h) { CHECK(assoc_find((char*)&KI[4].key, 1, h) == NULL, "a lookup of a key that is not stored finds nothing"); COVER("absent"); }
static void op_insert(uint32_t h)
{
    static const int w[] = { 0, 1, 2, 3 };
    init_item(3, h); assoc_insert(&KI[3].it, h); check_table(4, MAXT > 8 ? 16 : 2 * MAXT, w);
    if (A.expanding) COVER("expanding after insert"); 
    if (!A.expanding) COVER("not expanding after insert");
}
static void op_delete(int i)
{
    int w[2], n = 0; for (int j = 0; j < 3; j++) if (j != i) w[n++] = j;
    assoc_delete((char*)&KI[i].key, KI[i].it.nkey, KI[i].it.khash); check_table(2, MAXT, w);
    CHECK(assoc_find((char*)&KI[i].key, KI[i].it.nkey, KI[i].it.khash) == NULL, "a deleted item is no longer found"); COVER("deleted");
}
static void op_replace(int i)
{
    int w[3]; for (int j = 0; j < 3; j++) w[j] = j != i ? j : 5;
    KI[5].it.khash = KI[i].it.khash; KI[5].it.nkey = KI[i].it.nkey; KI[5].key = KI[i].key; KI[5].it.h_next = NULL;
    assoc_replace(&KI[i].it, &KI[5].it); check_table(3, MAXT, w); COVER("replaced");
}
/* hash triples: P is the previous table count, so that t and t + P share a chain until it is split */
static void st(int tr, int eb, int et)
{
    uint32_t P = A.prevsize ? A.prevsize : 1, M = (P > 1 ? P - 1 : 0); uint32_t t[3], b[3] = { 0, 0, 0 };
    A.exp_bucket = eb; A.exp_tabidx = et;
    switch (tr) {
    case 0: t[0] = 0; t[1] = P; t[2] = 2 * P; break;
    case 1: t[0] = P; t[1] = P + 4 * P; t[2] = P; b[0] = b[1] = b[2] = 1; break;
    case 2: t[0] = 0; t[1] = M + P; t[2] = M; b[1] = b[2] = 1; break;
    case 3: t[0] = 0x3fffffff; t[1] = M; t[2] = P + M; break;
    default: t[0] = 1; t[1] = 1 + P; t[2] = P; b[0] = b[1] = b[2] = 1; break;
    }
    for (int i = 0; i < 3; i++) put(i, t[i] << HP | b[i]);
    KI[4].key = 0x4199; KI[4].it.nkey = 1;
}
void h_op(void)
{
    mk_assoc();
    CASES();
    for (int tr = 0; tr < 5; tr++) for (int eb = 0; eb < (A.expanding ? HS : 1); eb++) for (int et = 0; et < (A.expanding ? A.prevsize : 1); et += A.prevsize > 4 ? 4 : A.prevsize > 2 ? 3 : 1) {
        CASE(st(tr, eb, et); check_table(3, MAXT, W012); for (uint32_t h = 0; h < 4; h++) op_find_absent(h | h << 28));
        for (int v = 0; v < 6; v++) for (int h = 0; h < 4; h++) {
            if ((v >= 4 && h) || (A.prevsize >= 4 && h != (tr & 3))) continue;
            CASE(st(tr, eb, et); BI[eb].refcount = v & 1; A.hash_expansion_limit = v == 5 ? 0 : v < 2 ? 100 : 3; vf_nomem = v == 4;
                 bool ex = A.expanding; uint32_t x = A.exp_tabidx, y = A.exp_bucket;
                 op_insert(h & 1 | (h & 2 ? A.prevsize : 1) << HP);
                 if (v == 4 || v == 5) CHECK(A.expanding == ex || ex, "no growth without memory or beyond the limit");
                 if (ex && (v & 1) && v < 4) CHECK(A.expanding && A.exp_tabidx == x && A.exp_bucket == y, "a bucket being scanned is not split"));
        }
        for (int i = 0; i < 3; i++) { CASE(st(tr, eb, et); op_delete(i)); CASE(st(tr, eb, et); op_replace(i)); }
    }
}
#endif
#if VF_H_h_scan || VF_H_h_scan_direct || VF_H_h_scan_bad
#define NI 5
/* hash patterns of the five items; item 5 is the one inserted in between */
static const uint32_t HPAT[][6] = { { 0, 1, 2, 3, 4, 6 }, { 0, 16, 32, 48, 64, 0 }, { 1, 3, 5, 7, 9, 11 }, { 1, 9, 0, 8, 17, 1 }, { 0, 2, 4, 6, 8, 14 }, { 1, 9, 17, 25, 5, 13 } };
#define NPT 6
static int got[NI + 1]; static bool present[NI + 1], always[NI + 1];
static void between(int act)
{
    if (act == 0) { init_item(NI, KI[NI].it.khash); present[NI] = true; assoc_insert(&KI[NI].it, KI[NI].it.khash); }
    else if (act <= NI) { int i = act - 1; assoc_delete((char*)&KI[i].key, KI[i].it.nkey, KI[i].it.khash); present[i] = always[i] = false; }
    else if (act == NI + 1 && A.expanding) redistribute();
    else if (act == NI + 2 && A.expanding) { for (int k = 0; k < 4; k++) if (A.expanding) redistribute(); }
}
static void start(int pat, int eb, int et, bool grow)
{
    A.exp_bucket = eb; A.exp_tabidx = et; A.hash_expansion_limit = grow ? NI : 0;
    for (int i = 0; i < NI; i++) { put(i, HPAT[pat][i]); present[i] = always[i] = true; }
    KI[NI].it.khash = HPAT[pat][NI];
}
#endif
#if VF_H_h_scan
static void run(int pat, int eb, int et, bool grow, int batch, int when, int act)
{
    struct assoc_scan S; hash_item *arr[4];
    start(pat, eb, et, grow); assoc_scan_init(&S);
    for (int r = 0; r < 2 * NI + 2; r++) {
        if (r == when && (act <= NI || A.infotable[A.exp_bucket].refcount == 0)) between(act);
        int c = assoc_scan_next(&S, arr, batch, 0);
        if (c < 0) { CHECK(c == -1, "the end of the scan is reported"); break; }
        CHECK(c <= batch, "a scan step returns at most the batch size");
        for (int j = 0; j < c; j++) {
            int i = (kitem*)arr[j] - KI; CHECK(i >= 0 && i <= NI && present[i], "a scan returns stored items only"); got[i]++;
            CHECK(got[i] == 1, "a scan returns no item twice");
        }
        CHECK(r < 2 * NI + 1, "the scan ends");
    }
    assoc_scan_final(&S);
    for (int i = 0; i < NI; i++) if (always[i]) CHECK(got[i] == 1, "a scan returns every item stored throughout the scan");
    int w[NI + 1], n = 0; for (int i = 0; i <= NI; i++) if (present[i]) w[n++] = i;
    CHECK(BI[0].refcount == 0 && BI[1].refcount == 0, "a finished scan holds no bucket");
    check_table(n, 2 * MAXT < 8 ? 8 : 2 * MAXT > 16 ? 16 : 2 * MAXT, w);
    COVER("scan finished");
}
void h_scan(void)
{
    mk_assoc();
    CASES();
    for (int pat = 0; pat < NPT; pat++) for (int g = 0; g < 2; g++) for (int b = 1; b <= 3; b += 1 + (A.rootsize > 2)) for (int when = 0; when <= 5; when++) {
        if (A.expanding && g) continue;
        for (int act = 0; act <= NI + 1; act += (pat & 1) ? 1 : 2) {
            if ((!A.expanding && act == NI + 1) || (pat + b + when + act + g) % 4 != CFG % 4) continue;
            CASE(run(pat, when & 1, A.expanding && (pat & 1) ? A.prevsize / 2 : 0, g, b, when, act));
        }
    }
}
#endif
#if VF_H_h_scan_direct
static void run(int pat, int eb, int et, bool grow, int req, int when, int act)
{
    hash_item *arr[NI + 4];
    start(pat, eb, et, grow);
    vf_cursor = 0;
    for (int r = 0; r < 14; r++) {
        if (r == when) between(act);
        int c = assoc_scan_direct(CUR, req, arr, NI + 4);
        CHECK(c >= 0, "a cursor returned by a scan is valid");
        for (int j = 0; j < c; j++) { int i = (kitem*)arr[j] - KI; CHECK(i >= 0 && i <= NI && present[i], "a scan returns stored items only"); got[i]++; }
        if (vf_cursor == 0) break;
        CHECK(r < 13, "the scan ends");
    }
    for (int i = 0; i < NI; i++) if (always[i]) CHECK(got[i] >= 1, "a scan returns every item stored throughout the scan");
    if (when > 8) for (int i = 0; i < NI; i++) CHECK(got[i] == 1, "an undisturbed scan returns every item exactly once");
    COVER("scan finished");
}
void h_scan_direct(void)
{
    mk_assoc();
    CASES();
    for (int pat = 0; pat < NPT; pat++) for (int g = 0; g < 2; g++) for (int req = 1; req <= 3; req += 2) for (int when = 0; when <= 4; when++) {
        if (A.expanding && g) continue;
        for (int act = 0; act <= NI + 2; act++) {
            if (!A.expanding && act > NI) continue;
            if ((act >= 2 && act <= NI) || (pat + when + act) % 2 != (CFG + g) % 2) continue;
            CASE(run(pat, when & 1, A.expanding && (pat & 1) ? A.prevsize / 2 : 0, g, req, when, act));
        }
    }
    for (int pat = 0; pat < NPT; pat++) CASE(run(pat, 1, 0, false, 2, 99, 0));
}
#endif
#if VF_H_h_scan_bad
static void bad(int pat, uint32_t c0, bool isbad, int ex)
{
    static hash_item *arr[3];
    A.expanding = ex; start(pat, 0, 0, false); vf_cursor = c0; vf_cursor_bad = isbad;
    int c = assoc_scan_direct(CUR, 2, arr, 3);
    if (isbad) CHECK(c == -1, "a cursor that is not a number is rejected");
    else if ((c0 >> HP) >= A.rootsize) CHECK(c == -1, "a cursor outside the table is rejected");
    else { CHECK(c >= 0 && c <= 3, "a scan step never returns more items than the array holds"); COVER("accepted"); }
    if (c == -1) COVER("rejected");
}
void h_scan_bad(void)
{
    mk_assoc();
    CASES();
    for (int ex = 0; ex < 2; ex++) {
        for (uint32_t c = 0; c < 10; c++) { CASE(bad(1, c, false, ex)); CASE(bad(1, 0x80000000u | c, false, ex)); CASE(bad(1, 0xffffffffu - c, false, ex)); }
        CASE(bad(1, 0, true, ex));
        for (uint32_t c = 0; c < 8; c++) CASE(bad(5, c, false, ex));
    }
}
#endif
