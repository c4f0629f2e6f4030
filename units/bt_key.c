//VF source engines/default/coll_btree.c
//VF const include/memcached/types.h MAX_EFLAG_COMPARE_COUNT 4
//VF harness h_bkey_order_bin props=C07 unwind=32 funcs=BINARY_COMP,BINARY_ISEQ,BINARY_ISNE,BINARY_ISLT,BINARY_ISLE,BINARY_ISGT,BINARY_ISGE
//VF harness h_bkey_order_u64 props=C07 unwind=10 funcs=UINT64_COMP,UINT64_ISEQ,UINT64_ISNE,UINT64_ISLT,UINT64_ISLE,UINT64_ISGT,UINT64_ISGE
//VF harness h_bkey_trans props=C07 unwind=32 funcs=BINARY_COMP
//VF harness h_range_type props=C07 unwind=32 funcs=do_btree_bkey_range_type
//VF harness h_filter props=C07 unwind=33 timeout=600 kind=bounded bound="all operand bytes and eflag lengths; operator pairs, operand positions and sizes enumerated (sizes 1,2,3,19 at offsets 0,1,2,12,30,31,255); at most 4 comparison values" objbits=12 funcs=do_btree_elem_filter,BINARY_AND,BINARY_OR,BINARY_XOR
//VF harness h_filter_t0 props=C07 unwind=33 timeout=3000 tier=thorough kind=bounded defs="-DWLO=0 -DWHI=0" bound="all operand bytes and eflag lengths; every operator pair and operand position; sizes 1, 2 and to-the-end; at most 4 comparison values" objbits=12 funcs=do_btree_elem_filter,BINARY_AND,BINARY_OR,BINARY_XOR
//VF harness h_filter_t1 props=C07 unwind=33 timeout=3000 tier=thorough kind=bounded defs="-DWLO=1 -DWHI=1" bound="all operand bytes and eflag lengths; every operator pair and operand position; sizes 1, 2 and to-the-end; at most 4 comparison values" objbits=12 funcs=do_btree_elem_filter,BINARY_AND,BINARY_OR,BINARY_XOR
//VF harness h_filter_t2 props=C07 unwind=33 timeout=3000 tier=thorough kind=bounded defs="-DWLO=2 -DWHI=2" bound="all operand bytes and eflag lengths; every operator pair and operand position; sizes 1, 2 and to-the-end; at most 4 comparison values" objbits=12 funcs=do_btree_elem_filter,BINARY_AND,BINARY_OR,BINARY_XOR
//VF harness h_filter_t3 props=C07 unwind=33 timeout=3000 tier=thorough kind=bounded defs="-DWLO=3 -DWHI=3" bound="all operand bytes and eflag lengths; every operator pair and operand position; sizes 1, 2 and to-the-end; at most 4 comparison values" objbits=12 funcs=do_btree_elem_filter,BINARY_AND,BINARY_OR,BINARY_XOR
//VF harness h_bkey_diff props=C08 unwind=32 kind=bounded bound="difference widths 1..5 and 8 bytes, all operand lengths and bytes" defs="-DKL=1 -DKH=5 -DKX=8" funcs=BINARY_DIFF,UINT64_DIFF
//VF harness h_bkey_diff_t1 props=C08 unwind=32 tier=thorough timeout=3000 defs="-DKL=1 -DKH=16 -DKX=31" funcs=BINARY_DIFF,UINT64_DIFF
//VF harness h_bkey_diff_t2 props=C08 unwind=32 tier=thorough timeout=3000 defs="-DKL=17 -DKH=30 -DKX=1" funcs=BINARY_DIFF,UINT64_DIFF
//VF harness h_bkey_decr props=C08 unwind=32 funcs=BINARY_DECR,UINT64_DECR
#include "vf.h"
#include "config.h"
#define VF_LOOP_MEM
#include "vf_libc.h"
#include VF_SRC

static int spec_cmp(const unsigned char *a, int na, const unsigned char *b, int nb)
{
    for (int i = 0; i < 31; i++) {
        if (i >= na || i >= nb) break;
        if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    }
    return na == nb ? 0 : na < nb ? -1 : 1;
}
static unsigned char A[31], B[31], C[31];
static int nA, nB, nC;
static void mkbin(void) { ND_FILL(A, 31); ND_FILL(B, 31); nA = (int)nd_range(1, 31); nB = (int)nd_range(1, 31); }

#if VF_H_h_bkey_order_bin
void h_bkey_order_bin(void)
{
    mkbin();
    int c = spec_cmp(A, nA, B, nB), r = BKEY_COMP(A, nA, B, nB);
    CHECK((r < 0) == (c < 0) && (r > 0) == (c > 0), "byte-array bkeys compare lexicographically, a proper prefix first");
    CHECK(BKEY_ISEQ(A, nA, B, nB) == (c == 0), "== agrees with the order");
    CHECK(BKEY_ISNE(A, nA, B, nB) == (c != 0), "!= agrees with the order");
    CHECK(BKEY_ISLT(A, nA, B, nB) == (c < 0), "< agrees with the order");
    CHECK(BKEY_ISLE(A, nA, B, nB) == (c <= 0), "<= agrees with the order");
    CHECK(BKEY_ISGT(A, nA, B, nB) == (c > 0), "> agrees with the order");
    CHECK(BKEY_ISGE(A, nA, B, nB) == (c >= 0), ">= agrees with the order");
    COVER("end");
}
#endif
#if VF_H_h_bkey_trans
void h_bkey_trans(void)
{
    mkbin(); ND_FILL(C, 31); nC = (int)nd_range(1, 31);
    int ab = BKEY_COMP(A, nA, B, nB), bc = BKEY_COMP(B, nB, C, nC), ac = BKEY_COMP(A, nA, C, nC), ba = BKEY_COMP(B, nB, A, nA);
    CHECK(ab == -ba, "antisymmetric");
    if (ab <= 0 && bc <= 0) CHECK(ac <= 0 && ((ac == 0) == (ab == 0 && bc == 0)), "transitive");
    COVER("end");
}
#endif
#if VF_H_h_bkey_order_u64
void h_bkey_order_u64(void)
{
    uint64_t a = nd_u64(), b = nd_u64();
    unsigned char *p = (unsigned char*)&a, *q = (unsigned char*)&b;
    int c = a == b ? 0 : a < b ? -1 : 1, r = BKEY_COMP(p, 0, q, 0);
    CHECK((r < 0) == (c < 0) && (r > 0) == (c > 0), "integer bkeys compare numerically");
    CHECK(BKEY_ISEQ(p, 0, q, 0) == (c == 0), "==");
    CHECK(BKEY_ISNE(p, 0, q, 0) == (c != 0), "!=");
    CHECK(BKEY_ISLT(p, 0, q, 0) == (c < 0), "<");
    CHECK(BKEY_ISLE(p, 0, q, 0) == (c <= 0), "<=");
    CHECK(BKEY_ISGT(p, 0, q, 0) == (c > 0), ">");
    CHECK(BKEY_ISGE(p, 0, q, 0) == (c >= 0), ">=");
    COVER("end");
}
#endif
#if VF_H_h_range_type
void h_range_type(void)
{
    bkey_range r; bool u64 = nd_bool();
    ND_FILL(r.from_bkey, 31); ND_FILL(r.to_bkey, 31);
    uint64_t f = nd_u64(), t = nd_u64(); int c;
    if (u64) {
        memcpy(r.from_bkey, &f, 8); memcpy(r.to_bkey, &t, 8); r.from_nbkey = r.to_nbkey = 0; c = f == t ? 0 : f < t ? -1 : 1;
    } else {
        r.from_nbkey = (uint8_t)nd_range(1, 31); r.to_nbkey = (uint8_t)nd_range(1, 31);
        c = spec_cmp(r.from_bkey, r.from_nbkey, r.to_bkey, r.to_nbkey);
    }
    if (nd_bool()) { r.to_nbkey = BKEY_NULL; c = 0; }
    int k = do_btree_bkey_range_type(&r);
    CHECK(k == (c == 0 ? BKEY_RANGE_TYPE_SIN : c < 0 ? BKEY_RANGE_TYPE_ASC : BKEY_RANGE_TYPE_DSC),
          "a range is single, ascending or descending by comparing its ends");
    COVER("end");
}
#endif
#if VF_H_h_filter
#undef VF_THOROUGH
#define HFN h_filter
#elif VF_H_h_filter_t0
#define HFN h_filter_t0
#elif VF_H_h_filter_t1
#define HFN h_filter_t1
#elif VF_H_h_filter_t2
#define HFN h_filter_t2
#else
#define HFN h_filter_t3
#endif
#if VF_H_h_filter || VF_H_h_filter_t0 || VF_H_h_filter_t1 || VF_H_h_filter_t2 || VF_H_h_filter_t3
/* spec of the eflag filter, from docs/ascii-protocol: out-of-range operand matches only NE;
 * otherwise (eflag[offset..] bitwop bitwval) compop compval */
static bool spec_rel(int op, int c)
{
    switch (op) {
      case COMPARE_OP_EQ: return c == 0; case COMPARE_OP_NE: return c != 0; case COMPARE_OP_LT: return c < 0;
      case COMPARE_OP_LE: return c <= 0; case COMPARE_OP_GT: return c > 0; default: return c >= 0;
    }
}
/* one case: operand position (nbkey, offset), operand size and presence of the bitwise step are constants of the
 * case; all bytes, the eflag length, both operators are arbitrary */
static void filter_case(int nbkey, int offset, int n, int bitw, int cnt, int op)
{
    eflag_filter F; struct { btree_elem_item e; unsigned char room[64]; } E;
    int real = nbkey == 0 ? 8 : nbkey;
    unsigned char *ef = E.e.data + real;
    E.e.nbkey = nbkey; E.e.neflag = (uint8_t)nd_upto(31); E.e.nbytes = 2;
    F.ncompval = n; F.nbitwval = bitw ? n : 0; F.compvcnt = cnt; F.offset = offset;
    F.bitwop = bitw ? bitw - 1 : 0; F.compop = op;
    for (int i = 0; i < n; i++) { if (offset + i < 31) ef[offset + i] = nd_u8(); F.bitwval[i] = nd_u8(); }
    for (int i = 0; i < n * cnt; i++) F.compval[i] = nd_u8();
    bool want;
    if (offset + n > E.e.neflag) want = F.compop == COMPARE_OP_NE;
    else {
        unsigned char v[31]; bool any = false; int c = 0;
        for (int i = 0; i < n; i++) {
            unsigned char x = ef[offset + i], y = F.bitwval[i];
            v[i] = !bitw ? x : F.bitwop == BITWISE_OP_AND ? x & y : F.bitwop == BITWISE_OP_OR ? x | y : x ^ y;
        }
        for (int k = 0; k < cnt; k++) {
            int d = spec_cmp(v, n, F.compval + k * n, n);
            if (k == 0) c = d;
            if (d == 0) any = true;
        }
        want = cnt == 1 ? spec_rel(F.compop, c) : F.compop == COMPARE_OP_EQ ? any : !any;
    }
    CHECK(do_btree_elem_filter(&E.e, &F) == want, "an element passes the eflag filter exactly when the documented comparison holds");
    if (want) COVER("match"); else COVER("nomatch");
}
#define IF(c) CASE(c);
#ifndef WLO
#define WLO 0
#define WHI BITWISE_OP_MAX
#endif
void HFN(void)
{
    CASES();
    for (int w = WLO; w <= WHI; w++) for (int op = 0; op < COMPARE_OP_MAX; op++) {
#ifdef VF_THOROUGH
        for (int off = 0; off < 31; off++) {
            IF(filter_case(0, off, 1, w, 1, op))
            if (off <= 29) IF(filter_case(0, off, 2, w, 1, op))
            if (off % 5 == 0) IF(filter_case(31, off, 31 - off, w, 1, op))
        }
        for (int nb = 1; nb <= 31; nb++) IF(filter_case(nb, 1, 2, w, 1, op))
        if (op <= COMPARE_OP_NE) for (int cnt = 2; cnt <= 4; cnt++) IF(filter_case(0, 2, 3, w, cnt, op))
#else
        IF(filter_case(0, 0, 2, w, 1, op)) IF(filter_case(5, 1, 1, w, 1, op))
        if (w == op % 4) { IF(filter_case(31, 12, 19, w, 1, op)) IF(filter_case(0, 30, 1, w, 1, op)) IF(filter_case(1, 2, 3, w, 1, op)) }
        if (op <= COMPARE_OP_NE) IF(filter_case(0, 1, 2, w, 2, op))
        if (op <= COMPARE_OP_NE && w == 1) IF(filter_case(0, 0, 1, w, 4, op))
#endif
        IF(filter_case(0, 31, 1, w, 1, op)) IF(filter_case(0, 255, 3, w, 1, op))
    }
}
#endif
#if VF_H_h_bkey_diff || VF_H_h_bkey_diff_t1 || VF_H_h_bkey_diff_t2
static void diff_case(int len)
{
    unsigned char out[32], pa[32], pb[32]; out[31] = 0x5a;
    ASSUME(len >= nA && len >= nB);
    for (int i = 0; i < 31; i++) { pa[i] = i < nA ? A[i] : 0; pb[i] = i < nB ? B[i] : 0; }
    ASSUME(spec_cmp(pa, len, pb, len) >= 0);
    BKEY_DIFF(A, nA, B, nB, len, out);
    /* big-endian numbers of len digits, zero-padded on the right: out == pa - pb, no final borrow */
    int borrow = 0;
    for (int i = 30; i >= 0; i--) if (i < len) {
        int d = (int)pa[i] - (int)pb[i] - borrow;
        CHECK(out[i] == (unsigned char)d, "the byte-array distance is the difference of the zero-padded big-endian numbers");
        borrow = d < 0;
    }
    CHECK(borrow == 0, "no borrow out of the top byte");
}
#if VF_H_h_bkey_diff
void h_bkey_diff(void)
#elif VF_H_h_bkey_diff_t1
void h_bkey_diff_t1(void)
#else
void h_bkey_diff_t2(void)
#endif
{
    if (nd_bool()) {
        uint64_t a = nd_u64(), b = nd_u64(), r; ASSUME(a >= b);
        BKEY_DIFF((unsigned char*)&a, 0, (unsigned char*)&b, 0, 0, (unsigned char*)&r);
        CHECK(r == a - b, "integer distance is the difference");
        COVER("u64"); return;
    }
    mkbin(); int len = (int)nd_range(1, 31);
    for (int k = KL; k <= KH; k++) if (len == k) { diff_case(k); COVER("bin"); return; }
    ASSUME(len == KX); diff_case(KX);
}
#endif
#if VF_H_h_bkey_decr
void h_bkey_decr(void)
{
    if (nd_bool()) {
        uint64_t a = nd_u64(), o = a; ASSUME(a > 0);
        BKEY_DECR((unsigned char*)&a, 0); CHECK(a == o - 1, "integer decrement"); COVER("u64"); return;
    }
    mkbin(); bool nz = false; unsigned char old[31];
    for (int i = 0; i < 31; i++) { old[i] = A[i]; if (i < nA && A[i]) nz = true; }
    ASSUME(nz);
    BKEY_DECR(A, nA);
    int carry = 1;
    for (int i = 30; i >= 0; i--) {
        if (i >= nA) { CHECK(A[i] == old[i], "bytes past the length are untouched"); continue; }
        int s = A[i] + carry; CHECK((s & 0xff) == old[i], "decremented value plus one is the old value"); carry = s >> 8;
    }
    CHECK(carry == 0, "no borrow");
    COVER("bin");
}
#endif
