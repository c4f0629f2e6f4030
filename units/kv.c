//VF source engines/default/items.c
//VF const include/memcached/engine_common.h POWER_LARGEST 2
//VF trust item-level callees by contract: do_item_get/alloc/link/replace/unlink/update/release (verified in unit item: C04, C06)
//VF trust snprintf of a 64-bit number writes its decimal numeral; safe_strtoull by its contract (C20)
//VF harness h_store props=C01 unwind=10 objbits=10 each=OP:0-6 kind=bounded timeout=300 bound="values of 0 to 3 bytes (all byte values), all uniques" funcs=item_store,do_item_store_set,do_item_store_add,do_item_store_replace,do_item_store_cas,do_item_store_attach
//VF harness h_delete props=C01 unwind=6 objbits=10 funcs=item_delete,item_get,item_alloc,item_release
//VF harness h_arith props=C02 unwind=26 objbits=10 kind=bounded bound="stored values of 6 bytes, results of 1 and 20 digits; all numbers, deltas and flags" timeout=400 funcs=item_arithmetic,do_add_delta,do_item_store_add
//VF harness h_flush props=C03 unwind=8 objbits=10 each=WP:0-1 kind=bounded timeout=300 bound="3 items per list, 3 size classes, sticky and not, every order of access times relative to the flush time" funcs=item_flush_expired,do_item_flush_expired
//VF harness h_attr props=C15 unwind=8 objbits=10 funcs=item_setattr,item_getattr,do_item_setattr,do_item_getattr kind=bounded bound="at most 3 attributes per request, all values"
//VF harness h_apply props=C18 unwind=8 objbits=10 funcs=item_apply_kv_link,item_apply_unlink,item_apply_setattr_exptime,item_apply_lru_update kind=bounded bound="values of 1 byte"
#include "vf.h"
#include "config.h"
#include <pthread.h>
#define pthread_mutex_lock(m) vf_mutex_lock(m)
#define pthread_mutex_unlock(m) vf_mutex_unlock(m)
static int locked; 
static int vf_mutex_lock(void *m) { CHECK(!locked, "the cache lock is not taken twice"); locked = 1; return 0; }
static int vf_mutex_unlock(void *m) { CHECK(locked, "the cache lock is released by its holder"); locked = 0; return 0; }
#define VF_LOOP_MEM
#include "vf_libc.h"
static int vf_snprintf(char *b, size_t n, const char *f, ...);
#define snprintf vf_snprintf
#include VF_SRC
#undef snprintf
typedef struct { hash_item it; uint64_t cas; char kd[40]; } kv;
static kv OLD, NEW, ALC; static hash_item *cur; static bool freed_old, freed_new, freed_alc, nomem, nolink, used_alc; static uint64_t CASID = 1000; static int n_upd;
static struct default_engine ENG; static struct items ITEMS; static struct engine_config CONF; static SERVER_CORE_API CORE; static EXTENSION_LOGGER_DESCRIPTOR VF_LOGGER; static rel_time_t NOW = 500;
bool item_clog_enabled = false;
static rel_time_t vf_now(void) { return NOW; }
static void vf_log(EXTENSION_LOG_LEVEL severity, const void *client_cookie, const char *fmt, ...) { }
static const char *vf_ip(const void *c) { return "x"; }
const void *item_get_key(const hash_item *it) { return ((kv*)it)->kd; }
char *item_get_data(const hash_item *it) { return ((kv*)it)->kd + it->nkey; }
uint64_t item_get_cas(const hash_item *it) { return ((kv*)it)->cas; }
void item_set_cas(const hash_item *it, uint64_t v) { ((kv*)it)->cas = v; }
static void destroy(hash_item *it) { bool *f = it == &OLD.it ? &freed_old : it == &NEW.it ? &freed_new : &freed_alc; CHECK(!*f, "an item is freed once"); *f = true; }
hash_item *do_item_get(const char *key, const uint32_t nkey, bool up)
{
    CHECK(locked, "the hash table is accessed under the cache lock"); CHECK(nkey == 2 && key[0] == 'k' && key[1] == '1', "the operation looks up its own key");
    if (cur) { cur->refcount++; if (up) n_upd++; } return cur;
}
void do_item_release(hash_item *it) { CHECK(locked && it->refcount > 0, "an item is released by a holder, under the cache lock"); it->refcount--; if (it->refcount == 0 && it != cur) destroy(it); }
void do_item_update(hash_item *it, bool force) { CHECK(locked && it == cur, "the stored item is touched"); n_upd++; }
static void flush_unlink_item(hash_item *it);
void do_item_unlink(hash_item *it, enum item_unlink_cause c) {
#if VF_H_h_flush
    flush_unlink_item(it); return;
#endif
    CHECK(locked && it == cur, "the stored item is unlinked"); cur = NULL; if (it->refcount == 0) destroy(it); }
ENGINE_ERROR_CODE do_item_link(hash_item *it)
{
    CHECK(locked && cur == NULL, "an item is linked only when its key is not stored"); if (nolink) return ENGINE_PREFIX_ENAME;
    cur = it; item_set_cas(it, ++CASID); return ENGINE_SUCCESS;
}
void do_item_replace(hash_item *o, hash_item *n) { CHECK(locked && o == cur && n != o, "the stored item is replaced"); CHECK(o->refcount > 0, "the replaced item is referenced"); CHECK(o->iflag == 0, "a collection is never replaced by a value"); cur = n; item_set_cas(n, ++CASID); }
hash_item *do_item_alloc(const void *key, const uint32_t nkey, const uint32_t flags, const rel_time_t exptime, const uint32_t nbytes, const void *cookie)
{
    CHECK(locked, "items are allocated under the cache lock"); if (nomem) return NULL;
    CHECK(!used_alc && nkey + nbytes <= sizeof(ALC.kd), "one item is allocated"); used_alc = true;
    ALC.it.refcount = 1; ALC.it.flags = flags; ALC.it.exptime = exptime; ALC.it.nkey = nkey; ALC.it.nbytes = nbytes; ALC.it.iflag = 0; ALC.cas = 0; if (key) memcpy(ALC.kd, key, nkey); return &ALC.it;
}
static void mk_kv(kv *p, uint32_t nb, bool coll)
{
    p->it.refcount = 0; p->it.nkey = 2; p->it.nbytes = nb; p->it.iflag = coll ? ITEM_IFLAG_LIST : 0; p->it.flags = nd_u32(); p->it.exptime = nd_u32(); p->it.time = 100; p->cas = nd_u64(); p->kd[0] = 'k'; p->kd[1] = '1';
    for (int i = 0; i < 8; i++) p->kd[2 + i] = nd_u8(); p->kd[2 + nb - 2] = '\r'; p->kd[2 + nb - 1] = '\n';
}
static void mk_env(void)
{
    VF_LOGGER.log = vf_log; logger = &VF_LOGGER; engine = &ENG; config = &CONF; itemsp = &ITEMS; svcore = &CORE; CORE.get_current_time = vf_now; CORE.get_client_ip = vf_ip;
    cur = NULL;
}
static uint64_t num_out; static int num_len = 1; static char num_txt[24];
static int vf_snprintf(char *b, size_t n, const char *f, ...)
{
    va_list ap; va_start(ap, f); uint64_t v = va_arg(ap, uint64_t); va_end(ap);
    CHECK(n >= 23, "the buffer holds every 64-bit number"); num_out = v;
    for (int i = 0; i < num_len; i++) num_txt[i] = b[i] = '0' + nd_upto(9);
    num_txt[num_len] = b[num_len] = '\r'; num_txt[num_len + 1] = b[num_len + 1] = '\n'; b[num_len + 2] = 0; return num_len + 2;
}
static bool num_ok; static uint64_t num_in;
bool safe_strtoull(const char *s, uint64_t *out)
{
    int off = s - OLD.kd - 2; CHECK(off >= 0 && off < OLD.it.nbytes, "the stored value is parsed"); bool any = false; for (int i = 0; i < OLD.it.nbytes; i++) if (i >= off && !vf_isspace((unsigned char)OLD.kd[2 + i])) any = true;
    CHECK(any, "the number parser does not run past the stored value"); if (num_ok) *out = num_in; return num_ok;
}
#if VF_H_h_store
static void store(int os, int nb, int ob, int fail, int xref)
{
    mk_env(); mk_kv(&NEW, nb, false); NEW.it.refcount = 1; if (os) { mk_kv(&OLD, ob, os == 2); OLD.it.refcount = xref; cur = &OLD.it; }
    nomem = fail == 1; nolink = fail == 2;
    static const ENGINE_STORE_OPERATION ops[] = { OPERATION_SET, OPERATION_ADD, OPERATION_REPLACE, OPERATION_CAS, OPERATION_APPEND, OPERATION_PREPEND, 77 };
    uint64_t oc = OLD.cas, nc = NEW.cas, cas = 5; kv o0 = OLD, n0 = NEW; uint32_t oflags = OLD.it.flags, oexp = OLD.it.exptime;
    ENGINE_ERROR_CODE exp, r;
    bool attach = OP == 4 || OP == 5, link = false, repl = false;
    if (OP == 6) exp = ENGINE_NOT_STORED;
    else if (os == 2) exp = ENGINE_EBADTYPE;
    else if (os == 0) { if (OP <= 1) { exp = nolink ? ENGINE_PREFIX_ENAME : ENGINE_SUCCESS; link = !nolink; } else exp = OP == 3 ? ENGINE_KEY_ENOENT : ENGINE_NOT_STORED; }
    else if (OP == 1) exp = ENGINE_NOT_STORED;
    else if (OP == 3 && nc != oc) exp = ENGINE_KEY_EEXISTS;
    else if (attach && nc != 0 && nc != oc) exp = ENGINE_KEY_EEXISTS;
    else if (attach && nomem) exp = ENGINE_NOT_STORED;
    else { exp = ENGINE_SUCCESS; repl = true; }
    r = item_store(&NEW.it, &cas, ops[OP], NULL);
    CHECK(!locked, "every operation releases the cache lock"); CHECK(r == exp, "a store is answered as its command and the stored state demand");
    hash_item *w = link || (repl && !attach) ? &NEW.it : repl ? &ALC.it : os ? &OLD.it : NULL;
    CHECK(cur == w, "the key holds the new item after a successful store and the old one otherwise");
    if (r == ENGINE_SUCCESS) { CHECK(cas == CASID && item_get_cas(cur) == CASID, "a successful store yields the new unique"); 
#if OP < 6
        COVER("stored");
#endif
    } else { CHECK(cas == 5, "a refused store yields no unique"); COVER("refused"); }
    CHECK(NEW.it.refcount == 1 && !freed_new, "the caller keeps its item");
    if (os) CHECK(OLD.it.refcount == xref && freed_old == (cur != &OLD.it && xref == 0), "the previous item is released, and freed when replaced and unreferenced");
    if (used_alc) CHECK(ALC.it.refcount == 0 && freed_alc == (cur != &ALC.it), "no reference is leaked");
    CHECK(NEW.it.nbytes == n0.it.nbytes, "the caller's item is unchanged"); for (int i = 0; i < 10; i++) CHECK(NEW.kd[i] == n0.kd[i] && (!os || OLD.kd[i] == o0.kd[i]), "values are not modified in place");
    if (repl && attach) {
        CHECK(ALC.it.nkey == 2 && ALC.kd[0] == 'k' && ALC.kd[1] == '1' && ALC.it.flags == oflags && ALC.it.exptime == oexp && ALC.it.nbytes == nb + ob - 2, "an extended value keeps key, flags and expiry");
        const char *a = OP == 4 ? o0.kd : n0.kd, *b = OP == 4 ? n0.kd : o0.kd; int la = OP == 4 ? ob : nb, lb = OP == 4 ? nb : ob;
        for (int i = 0; i < la - 2; i++) CHECK(ALC.kd[2 + i] == a[2 + i], "append keeps the old value first, prepend puts the new one first");
        for (int i = 0; i < lb; i++) CHECK(ALC.kd[2 + la - 2 + i] == b[2 + i], "the values are concatenated, with one terminator");
    }
}
void h_store(void)
{
    CASES();
    for (int os = 0; os < 3; os++) for (int fail = 0; fail < 3; fail++) for (int xr = 0; xr < 2; xr++) for (int nb = 2; nb < 6; nb++) for (int ob = 2; ob < 6; ob++) {
        if ((fail || xr || OP < 4) && (nb != 3 || ob != 4)) continue;
        CASE(store(os, nb, ob, fail, xr));
    }
}
#endif
#if VF_H_h_delete
void h_delete(void)
{
    mk_env(); bool pres = nd_bool(), coll = nd_bool(); uint16_t xr = nd_bool(); if (pres) { mk_kv(&OLD, 3, coll); OLD.it.refcount = xr; cur = &OLD.it; }
    uint64_t cas = nd_u64(), oc = OLD.cas; char key[2] = { 'k', '1' };
    if (nd_bool()) {
        ENGINE_ERROR_CODE r = item_delete(key, 2, cas, NULL), e = !pres ? ENGINE_KEY_ENOENT : cas == 0 || cas == oc ? ENGINE_SUCCESS : ENGINE_KEY_EEXISTS;
        CHECK(r == e && !locked, "a delete succeeds when the key is stored and the given unique, if any, matches"); CHECK(cur == (pres && r != ENGINE_SUCCESS ? &OLD.it : NULL), "a deleted key is gone, otherwise it stays");
        if (pres) CHECK(OLD.it.refcount == xr && freed_old == (r == ENGINE_SUCCESS && xr == 0), "a deleted item is freed when unreferenced"); if (r == ENGINE_SUCCESS) COVER("deleted"); if (r == ENGINE_KEY_EEXISTS) COVER("unique mismatch");
    } else {
        hash_item *r = item_get(key, 2); CHECK(r == (pres ? &OLD.it : NULL) && !locked, "a get returns the stored item"); 
        if (r) { CHECK(r->refcount == xr + 1 && n_upd == 1, "the item is referenced and touched"); item_release(r); CHECK(r->refcount == xr && !locked && !freed_old, "a release gives the reference back"); COVER("get"); }
        nomem = nd_bool(); r = item_alloc(key, 2, 9, 8, 7, NULL); CHECK(r == (nomem ? NULL : &ALC.it) && !locked, "allocation"); if (r) { CHECK(r->flags == 9 && r->exptime == 8 && r->nbytes == 7 && r->nkey == 2, "the item is as requested"); item_release(r); CHECK(freed_alc, "an item that was never stored is freed at its release"); }
    }
}
#endif
#if VF_H_h_arith
static void arith(int os, int len, bool create, int fail, bool incr)
{
    mk_env(); char key[2] = { 'k', '1' }; bool blank = false; uint16_t xr = nd_bool(); num_len = len; num_ok = nd_bool(); num_in = nd_u64();
    if (os) { mk_kv(&OLD, 6, os == 2); OLD.it.refcount = xr; cur = &OLD.it; blank = true; for (int i = 0; i < 6; i++) if (!vf_isspace((unsigned char)OLD.kd[2 + i])) blank = false; }
    nomem = fail == 1; nolink = fail == 2; uint64_t delta = nd_u64(), init = nd_u64(), cas = 5, res = 6; uint32_t fl = nd_u32(), ex = nd_u32(); kv o0 = OLD;
    ENGINE_ERROR_CODE r = item_arithmetic(key, 2, incr, create, delta, init, fl, ex, &cas, &res, NULL), e;
    uint64_t want = incr ? num_in + delta : num_in < delta ? 0 : num_in - delta;
    if (os == 2) e = ENGINE_EBADTYPE; else if (os == 1) e = blank || !num_ok ? ENGINE_EINVAL : nomem ? ENGINE_ENOMEM : ENGINE_SUCCESS;
    else e = !create ? ENGINE_KEY_ENOENT : nomem ? ENGINE_ENOMEM : nolink ? ENGINE_PREFIX_ENAME : ENGINE_SUCCESS;
    CHECK(r == e && !locked, "incr and decr succeed exactly on a stored number, or create one when asked to");
    CHECK(cur == (r == ENGINE_SUCCESS ? &ALC.it : os ? &OLD.it : NULL), "a failed incr or decr changes nothing");
    if (os) CHECK(OLD.it.refcount == xr && freed_old == (r == ENGINE_SUCCESS && xr == 0), "the operated item is released");
    if (used_alc) CHECK(ALC.it.refcount == 0 && freed_alc == (cur != &ALC.it), "no reference is leaked");
    if (r == ENGINE_SUCCESS) {
        CHECK(num_out == (os ? want : init) && res == (os ? want : init), "the result is the sum modulo 2^64, the difference but at least 0, or the initial value"); CHECK(cas == CASID, "the new unique is returned");
        CHECK(ALC.it.nbytes == len + 2 && ALC.it.flags == (os ? o0.it.flags : fl) && ALC.it.exptime == (os ? o0.it.exptime : ex) && ALC.kd[0] == 'k' && ALC.kd[1] == '1', "key, flags and expiry are kept, or as given for a new number");
        for (int i = 0; i < len + 2; i++) CHECK(ALC.kd[2 + i] == num_txt[i], "the numeral of the result is stored"); COVER("changed");
    } else COVER("failed");
}
void h_arith(void)
{
    CASES();
    for (int os = 0; os < 3; os++) for (int f = 0; f < 3; f++) for (int c = 0; c < 2; c++) for (int i = 0; i < 2; i++) for (int len = 1; len < 21; len += 19) CASE(arith(os, len, c, f, i));
}
#endif

#if VF_H_h_flush
#define NF 9
static hash_item F[NF]; static bool un[NF]; static bool mine[NF]; static prefix_t PFX, OTHER; static bool pfx_found;
static int fidx(hash_item *it) { for (int i = 0; i < NF; i++) if (it == &F[i]) return i; return -1; }
prefix_t *prefix_find(const char *p, const int n) { CHECK(locked, "prefixes are accessed under the cache lock"); return pfx_found ? &PFX : NULL; }
bool prefix_issame(prefix_t *pt, const char *p, const int n) { return pt == &PFX; }
bool prefix_isincluded(prefix_t *pt, const char *p, const int n) { return pt == &PFX; }
static void flush_unlink_item(hash_item *it)
{
    int i = fidx(it); CHECK(locked && i >= 0 && !un[i], "an item is unlinked once, under the cache lock"); un[i] = true;
    int c = i / 3 == 2 ? 1 : 0; bool s = i / 3 == 1; hash_item **h = s ? &ITEMS.sticky_heads[c] : &ITEMS.heads[c], **t = s ? &ITEMS.sticky_tails[c] : &ITEMS.tails[c];
    if (*h == it) *h = it->next; if (*t == it) *t = it->prev; if (it->next) it->next->prev = it->prev; if (it->prev) it->prev->next = it->next;
    if (ITEMS.lowMK[c] == it) ITEMS.lowMK[c] = it->prev; if (ITEMS.curMK[c] == it) { ITEMS.curMK[c] = it->prev; if (ITEMS.curMK[c] == NULL) ITEMS.curMK[c] = ITEMS.lowMK[c]; }
    it->prev = it->next = it;
}
static void flush(int t0, int t1, int t2, int own, bool pfx, int when)
{
    mk_env(); rel_time_t tm[3] = { t0, t1, t2 }; pfx_found = own != 8; CONF.verbose = nd_bool();
    for (int i = 0; i < NF; i++) {
        int c = i / 3 == 2 ? 1 : 0, k = i % 3; bool s = i / 3 == 1; hash_item **h = s ? &ITEMS.sticky_heads[c] : &ITEMS.heads[c], **t = s ? &ITEMS.sticky_tails[c] : &ITEMS.tails[c];
        F[i].time = tm[k]; F[i].pfxptr = (own >> k) & 1 ? &PFX : &OTHER; F[i].prev = *t; F[i].next = NULL; if (*t) (*t)->next = &F[i]; else *h = &F[i]; *t = &F[i];
    }
    if (when == 3) ITEMS.lowMK[0] = ITEMS.curMK[0] = &F[1];
    rel_time_t w = when == 0 ? 0 : when == 1 ? NOW : when == 2 ? NOW + 10 : NOW - 3, ol = w ? w - 1 : NOW - 1;
    ENGINE_ERROR_CODE r = item_flush_expired(pfx ? "p" : NULL, pfx ? 1 : -1, w, NULL); CHECK(!locked, "every operation releases the cache lock");
    if (pfx && !pfx_found) { CHECK(r == ENGINE_PREFIX_ENOENT, "flushing an unknown prefix is reported"); for (int i = 0; i < NF; i++) CHECK(!un[i], "flushing an unknown prefix removes nothing"); CHECK(CONF.oldest_live == 0, "nothing flushed"); COVER("no prefix"); return; }
    CHECK(r == ENGINE_SUCCESS, "a flush succeeds"); CHECK((pfx ? PFX.oldest_live : CONF.oldest_live) == ol, "the flush time of the target is recorded"); CHECK((pfx ? CONF.oldest_live : PFX.oldest_live) == 0, "only the target is flushed");
    for (int i = 0; i < NF; i++) {
        bool target = !pfx || F[i].pfxptr == &PFX;
        if (!target) CHECK(!un[i], "items of other prefixes stay"); else CHECK(un[i] || F[i].time <= ol, "after a flush every earlier item is removed or older than the recorded flush time");
        if (target && F[i].time < ol) CHECK(!un[i], "items older than the flush time are left to lazy removal");
    }
    hash_item *l = ITEMS.lowMK[0], *cm = ITEMS.curMK[0]; CHECK((l == NULL) == (cm == NULL) && (!l || (fidx(l) >= 0 && !un[fidx(l)])) && (!cm || (fidx(cm) >= 0 && !un[fidx(cm)])), "the reclaim marks stay inside the list");
    bool left = false; for (int k = 0; k < 3; k++) if (!un[k] && tm[k] < ol) left = true;
    if (left) CHECK(l == ITEMS.tails[0] && cm == ITEMS.tails[0] && ITEMS.sticky_curMK[0] == ITEMS.sticky_tails[0], "reclaiming restarts at the least recently used item after a flush");
    COVER("flushed");
}
void h_flush(void)
{
    CASES();
    for (int a = 0; a < 4; a++) for (int b = 0; b <= a; b++) for (int c = 0; c <= b; c++) for (int own = 0; own < 9; own++) for (int w = 0; w < 4; w++) {
        if (w && own != 5 && own != 8) continue; if (own == 0) { CASE(flush(NOW - 3 + a, NOW - 3 + b, NOW - 3 + c, 7, false, w)); }
        if (((a + b + c + own) & 1) != WP) continue; CASE(flush(NOW - 3 + a, NOW - 3 + b, NOW - 3 + c, own, true, w));
    }
}
#endif
#if VF_H_h_attr
static int cset, cget; static bool cfail;
#define COLLSTUB(T, FL) ENGINE_ERROR_CODE T##_coll_setattr(hash_item *it, item_attr *a, ENGINE_ITEM_ATTR *ids, uint32_t n) { CHECK(locked && it == &OLD.it && it->iflag == FL, "attributes are set on the item's own type"); cset++; return cfail ? ENGINE_EBADVALUE : ENGINE_SUCCESS; } \
    ENGINE_ERROR_CODE T##_coll_getattr(hash_item *it, item_attr *a, ENGINE_ITEM_ATTR *ids, const uint32_t n) { CHECK(locked && it == &OLD.it && it->iflag == FL, "attributes are read from the item's own type"); cget++; return cfail ? ENGINE_EBADATTR : ENGINE_SUCCESS; }
COLLSTUB(list, ITEM_IFLAG_LIST) COLLSTUB(set, ITEM_IFLAG_SET) COLLSTUB(map, ITEM_IFLAG_MAP) COLLSTUB(btree, ITEM_IFLAG_BTREE)
void h_attr(void)
{
    mk_env(); mk_kv(&OLD, 3, false); OLD.it.iflag = nd_upto(4); bool pres = nd_bool(); if (pres) cur = &OLD.it; char key[2] = { 'k', '1' }; cfail = nd_bool();
    ENGINE_ITEM_ATTR ids[3]; uint32_t n = nd_upto(3); bool hasexp = false, hascoll = false;
    for (int i = 0; i < 3; i++) { ids[i] = nd_upto(ATTR_END - 1); if (i < n) { if (ids[i] == ATTR_EXPIRETIME) hasexp = true; if (ids[i] == ATTR_COUNT || ids[i] == ATTR_MAXCOUNT || ids[i] == ATTR_OVFLACTION || ids[i] == ATTR_READABLE || ids[i] == ATTR_MAXBKEYRANGE || ids[i] == ATTR_TRIMMED) hascoll = true; } }
    item_attr a; a.exptime = nd_u32(); rel_time_t ne = a.exptime, oe = OLD.it.exptime; bool coll = OLD.it.iflag != 0;
    if (nd_bool()) {
        ENGINE_ERROR_CODE r = item_setattr(key, 2, ids, n, &a, NULL); bool st = (oe == (rel_time_t)-1) != (ne == (rel_time_t)-1);
        CHECK(!locked && OLD.it.refcount == 0, "every operation releases the lock and the item");
        CHECK(r == (!pres ? ENGINE_KEY_ENOENT : hasexp && st ? ENGINE_EBADVALUE : coll && cfail ? ENGINE_EBADVALUE : ENGINE_SUCCESS), "attributes are set unless the key is missing, a value is bad, or stickiness would change");
        CHECK(OLD.it.exptime == (r == ENGINE_SUCCESS && hasexp ? ne : oe), "the expiry changes exactly when it was requested and the request succeeds");
        CHECK(cset == (pres && coll && !(hasexp && st)), "collection attributes go to the collection");
        if (r == ENGINE_SUCCESS && hasexp && oe == 0 && ne != 0) { CHECK(n_upd == 1, "an item that starts to expire moves into the range of the reclaim marks"); COVER("expiring"); } else CHECK(n_upd == 0, "otherwise the position is kept"); if (r == ENGINE_EBADVALUE) COVER("bad value");
    } else {
        ENGINE_ERROR_CODE r = item_getattr(key, 2, ids, n, &a); CHECK(!locked && OLD.it.refcount == 0, "every operation releases the lock and the item");
        CHECK(r == (!pres ? ENGINE_KEY_ENOENT : coll ? (cfail ? ENGINE_EBADATTR : ENGINE_SUCCESS) : hascoll ? ENGINE_EBADATTR : ENGINE_SUCCESS), "attributes are read unless the key is missing or a requested attribute does not exist for the type");
        if (pres) { CHECK(a.flags == OLD.it.flags && a.exptime == oe && a.type == OLD.it.iflag, "flags, expiry and type are reported"); CHECK(cget == coll, "collection attributes come from the collection"); COVER("read"); }
    }
}
#endif
#if VF_H_h_apply
void h_apply(void)
{
    mk_env(); char key[2] = { 'k', '1' }, val[3] = { nd_u8(), '\r', '\n' }; bool pres = nd_bool(), coll = nd_bool(); if (pres) { mk_kv(&OLD, 4, coll); cur = &OLD.it; }
    nomem = nd_bool(); nolink = nd_bool(); int op = nd_upto(3); uint32_t fl = nd_u32(), ex = nd_u32(); uint64_t cas = nd_u64(); ENGINE_ERROR_CODE r; rel_time_t oe = OLD.it.exptime;
    if (op == 0) {
        ASSUME(!coll);
        r = item_apply_kv_link(&ENG, key, 2, fl, ex, 3, val, cas);
        CHECK(r == (nomem ? ENGINE_ENOMEM : !pres && nolink ? ENGINE_PREFIX_ENAME : ENGINE_SUCCESS), "redoing a store succeeds unless memory fails");
        CHECK(cur == (r == ENGINE_SUCCESS ? &ALC.it : NULL), "after redo the key holds the logged value; a value that could not be redone is removed");
        if (r == ENGINE_SUCCESS) { CHECK(ALC.cas == cas && ALC.it.flags == fl && ALC.it.exptime == ex && ALC.it.nbytes == 3 && ALC.it.nkey == 2 && ALC.kd[0] == 'k' && ALC.kd[1] == '1' && ALC.kd[2] == val[0] && ALC.kd[3] == '\r' && ALC.kd[4] == '\n', "redo restores key, value, flags, expiry and unique"); COVER("redone"); }
        if (used_alc) CHECK(ALC.it.refcount == 0 && freed_alc == (cur != &ALC.it), "no reference is leaked"); if (pres) CHECK(freed_old && OLD.it.refcount == 0, "the previous item is freed");
    } else if (op == 1) { r = item_apply_unlink(&ENG, key, 2); CHECK(r == (pres ? ENGINE_SUCCESS : ENGINE_KEY_ENOENT) && cur == NULL && freed_old == pres, "redoing a removal leaves the key absent"); COVER("removed"); }
    else if (op == 2) { r = item_apply_setattr_exptime(&ENG, key, 2, ex); CHECK(r == (pres ? ENGINE_SUCCESS : ENGINE_KEY_ENOENT), "redo"); if (pres) CHECK(OLD.it.exptime == ex && OLD.it.refcount == 0 && cur == &OLD.it, "redoing an expiry change sets the logged expiry"); COVER("expiry"); }
    else { r = item_apply_lru_update(&ENG, key, 2); CHECK(r == (pres ? ENGINE_SUCCESS : ENGINE_KEY_ENOENT) && n_upd == pres && OLD.it.refcount == 0, "redoing a touch refreshes the item"); }
    CHECK(!locked, "every operation releases the cache lock");
}
#endif
