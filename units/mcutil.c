//VF source mc_util.c
//VF const mc_util.c SEGTOK_ARRAY_SIZE 2
//VF trust blocks of 6 bytes instead of 32 KB and a segmented-token table of 2 instead of 128 (run-time field / parameter of the code); malloc: fresh memory or NULL
//VF harness h_tok_cmd props=C22 unwind=12 objbits=9 defs=-DLEN=8 specunwind=9000 kind=bounded bound="command lines of 1-8 characters, every placement of blanks, at most 4 tokens per call" funcs=tokenize_command
//VF harness h_tok_keys props=C22 unwind=12 objbits=9 defs=-DLEN=7 specunwind=9000 kind=bounded bound="key strings of 1-7 characters, every placement of delimiters, stray blanks" funcs=tokenize_keys
//VF harness h_mblocks props=C22 unwind=16 objbits=12 specunwind=9000 each=LEN:1-13 kind=bounded timeout=400 bound="key lists of 1-13 characters over up to 3 blocks of 6, every placement of delimiters up to 5 keys, keys of up to 3 bytes" funcs=tokenize_mblocks,tokenize_mblck,concat_segmented_tokens,mblck_list_merge,mblck_list_alloc
//VF harness h_sblocks props=C22 unwind=16 objbits=10 defs=-DLEN=8 kind=bounded bound="blocks of 6, string lengths 3-14, arbitrary last two bytes" funcs=tokenize_sblocks,check_sblock_tail_string
//VF harness h_pool props=C22 unwind=10 objbits=12 defs=-DLEN=8 kind=bounded bound="pools of 0-4 blocks, lists of 1-5 blocks, every allocation failure" funcs=mblck_pool_create,mblck_list_alloc,mblck_list_merge,mblck_list_free,mblck_pool_destroy,do_mblck_pool_grow
#include "vf.h"
#include "config.h"
#define VF_LOOP_MEM
#include "vf_libc.h"
static int vf_mallocs, vf_fail_at = -1; static long vf_live;
static void *vf_malloc(size_t n);
static void vf_free(void *p) { vf_live--; free(p); }
static void *vf_memchr(const void *p, int c, size_t n) { for (size_t i = 0; i < n; i++) if (((const unsigned char*)p)[i] == (unsigned char)c) return (char*)p + i; return NULL; }
#define memchr(p, c, n) vf_memchr(p, c, n)
#define malloc(n) vf_malloc(n)
#define free(p) vf_free(p)
#include VF_SRC
#undef malloc
#undef free
#define BODY 6
typedef struct { mblck_node_t *next; char data[8]; } blk_t;
static void *vf_malloc(size_t n) { if (vf_mallocs++ == vf_fail_at) return NULL; vf_live++; return vf_alloc(sizeof(blk_t)); }
#if VF_H_h_tok_cmd
static void cmdl(int N, uint32_t m, int max)
{
    static char s[LEN + 1], o[LEN + 1]; static token_t T[6];
    for (int i = 0; i < N; i++) s[i] = o[i] = m >> i & 1 ? ' ' : i & 1 ? 'A' + i : 0xf0 + i;
    s[N] = 0;
    size_t n = tokenize_command(s, N, T, max);
    CHECK(n >= 1 && n <= max, "at most the given number of tokens");
    /* the tokens are the maximal runs of non-blanks, in order */
    int k = 0, i = 0;
    for (int r = 0; r < 4; r++) {
        for (int q = 0; q < N; q++) if (i < N && o[i] == ' ') i++;
        if (i >= N || k == max - 1) break;
        int b = i; for (int q = 0; q < N; q++) if (i < N && o[i] != ' ') i++;
        CHECK(k < n - 1 && T[k].value == s + b && T[k].length == i - b, "every token is a maximal run of non-blank characters, in order");
        CHECK(i == N || s[i] == 0, "every token is terminated");
        k++;
    }
    CHECK(k == n - 1 && T[k].length == 0, "the terminal token follows the last token");
    if (T[k].value == NULL) { CHECK(i >= N, "the whole command was split"); COVER("complete"); }
    else {
        CHECK(n == max, "unsplit text is left only when the tokens are used up");
        int off = T[k].value - s; CHECK(off > 0 && off <= N && T[k + 1].length == N - off, "the unsplit rest is returned with its length");
        for (int j = 0; j < N; j++) if (j >= off) CHECK(s[j] == o[j], "the unsplit rest is untouched");
        for (int j = 0; j < N; j++) if (j >= off && j < i) CHECK(o[j] == ' ', "no character is skipped before the rest");
        CHECK(off <= i, "no character is skipped before the rest"); COVER("more");
    }
}
void h_tok_cmd(void)
{
    CASES();
    for (int n = 1; n <= LEN; n++) for (uint32_t m = 0; m < (1u << n); m++) for (int max = 2; max <= 4; max++) { if (n > 5 && max != 2 + (m ^ m >> 3) % 3) continue; CASE(cmdl(n, m, max)); }
}
#endif
#if VF_H_h_tok_keys
static void keyl(int N, uint32_t m, int bad, int cnt, char d)
{
    static char s[LEN + 1]; static token_t T[LEN + 1];
    for (int i = 0; i < N; i++) s[i] = m >> i & 1 ? d : i == bad ? ' ' : i & 1 ? 'A' + i : d == ' ' ? ',' : 'z';
    s[N] = 13;
    int n = tokenize_keys(s, N, cnt, d, T);
    bool ok = true; int k = 0, b = 0;
    for (int i = 0; i <= N; i++) {
        if (i == N || s[i] == d) { if (i == b) ok = false; else { if (n > 0 && k < cnt) CHECK(T[k].value == s + b && T[k].length == i - b, "the tokens are the keys in order"); k++; b = i + 1; } }
        else if (s[i] == ' ') ok = false;
    }
    CHECK(n == (ok && k == cnt ? cnt : -1), "a key list is accepted exactly when it holds the announced number of non-empty keys");
    if (n > 0) COVER("accepted"); else COVER("rejected");
}
void h_tok_keys(void)
{
    CASES();
    for (int n = 1; n <= LEN; n++) for (uint32_t m = 0; m < (1u << n); m++) {
        int k = 1; for (int i = 0; i < n; i++) k += m >> i & 1;
        CASE(keyl(n, m, -1, k, m & 1 ? ' ' : ',')); CASE(keyl(n, m, -1, k + 1, ',')); CASE(keyl(n, m, (m >> 1) % n, k, ','));
        if (k > 1) CASE(keyl(n, m, -1, k - 1, m & 2 ? ' ' : ','));
        if (n < 5) CASE(keyl(n, m, -1, k, ' '));
    }
}
#endif
#if VF_H_h_mblocks || VF_H_h_sblocks
static blk_t B[3]; static mblck_pool_t P; static mblck_list_t L;
#define MAXK 3
static void mk_blocks(int len)
{
    int nb = (len - 1) / BODY + 1;
    P.blck_len = BODY + sizeof(void*); P.body_len = BODY;
    L.pool = &P; L.body_len = BODY; L.blck_cnt = nb; L.item_len = 1; L.item_cnt = len; L.head = (mblck_node_t*)&B[0]; L.tail = (mblck_node_t*)&B[nb - 1];
    for (int i = 0; i + 1 < nb; i++) B[i].next = (mblck_node_t*)&B[i + 1];
}
#endif
#if VF_H_h_mblocks
static char S[LEN];
#define AT(i) (((blk_t*)&B[(i) / BODY])->data[(i) % BODY])
/* does the string split at d into cnt non-empty keys of at most MAXK bytes without blanks */
static bool splits(char d, int cnt)
{
    int k = 0, b = 0;
    for (int i = 0; i <= LEN; i++)
        if (i == LEN || S[i] == d) { if (i == b || i - b > MAXK) return false; k++; b = i + 1; }
        else if (S[i] == ' ') return false;
    return k == cnt;
}
static void one(uint32_t mask, char dl, bool mixed, int cnt, bool compat, int failat)
{   /* mask: delimiter positions; mixed: the first delimiter is of the other kind */
    token_t T[8]; bool first = true;
    mk_blocks(LEN);
    for (int i = 0; i < LEN; i++) { char c = 'a' + i; if (mask >> i & 1) { c = mixed && first ? (dl == ' ' ? ',' : ' ') : dl; first = false; } S[i] = c; AT(i) = c; }
    vf_fail_at = failat;
    ENGINE_ERROR_CODE r = tokenize_mblocks(&L, LEN, cnt, MAXK, compat, T);
    char d = splits(' ', cnt) ? ' ' : compat && splits(',', cnt) ? ',' : 0;
    if (!d) { CHECK(r == ENGINE_EBADVALUE || (failat >= 0 && r == ENGINE_ENOMEM), "a key list is rejected unless it holds the announced number of well-formed keys"); COVER("rejected"); return; }
    if (failat >= 0 && r == ENGINE_ENOMEM) { return; }
    CHECK(r == ENGINE_SUCCESS, "a well-formed key list is accepted");
    int k = 0, b = 0;
    for (int i = 0; i <= LEN; i++) if (i == LEN || S[i] == d) {
        CHECK(T[k].length == i - b, "every key has its length");
        for (int j = b; j < i; j++) CHECK(T[k].value[j - b] == S[j], "every key has its bytes, also across block boundaries");
        k++; b = i + 1;
    }
    COVER("accepted");
}
void h_mblocks(void)
{
    CASES();
    for (uint32_t m = 0; m < (1u << LEN); m++) {
        int n = 1, run = 0, maxrun = 0; for (int i = 0; i < LEN; i++) if (m >> i & 1) { n++; run = 0; } else { run++; if (run > maxrun) maxrun = run; }
        bool adj = (m & (m >> 1)) || (m & 1) || (m >> (LEN - 1) & 1);
        if (n > 6 || maxrun > MAXK + 1 || (adj && LEN > 8 && !(m & 0x20) && !(m & 0x40) && !(m & 0x80))) continue;      /* longer runs: like MAXK + 1 */
        if (LEN > 8 && (m * 2654435761u >> (LEN == 13 ? 29 : 28)) != LEN % 8) continue;
        CASE(one(m, ' ', false, n, m & 4, -1));
        if (LEN <= 8 || adj) { CASE(one(m, ' ', false, n + 1, m & 2, -1)); CASE(one(m, ' ', false, n - 1 ? n - 1 : 2, m & 2, -1)); }
        else if ((m & 7) == 2) CASE(one(m, ' ', false, n + 1, true, -1));
        if (LEN <= 8 || (m & 3) == 2) CASE(one(m, ',', false, n, true, -1));
        if ((m & 7) == 4 || LEN < 7) { CASE(one(m, ',', false, n, false, -1)); CASE(one(m, ',', true, n, true, -1)); CASE(one(m, ' ', true, n, true, -1)); CASE(one(m, ' ', true, n > 1 ? n - 1 : 1, true, -1)); CASE(one(m, ' ', false, n, true, 0)); }
    }
}
#endif
#if VF_H_h_sblocks
static char TAIL[2];
static void sb(int len)
{
    token_t T[3]; mk_blocks(len);
    for (int i = 0; i < len; i++) B[i / BODY].data[i % BODY] = (i % 3 == 1) ? ' ' : 'a';
    B[(len - 1) / BODY].data[(len - 1) % BODY] = TAIL[1]; B[(len - 2) / BODY].data[(len - 2) % BODY] = TAIL[0];
    ENGINE_ERROR_CODE r = tokenize_sblocks(&L, len, 1, 2, false, T);
    if (TAIL[0] != '\r' || TAIL[1] != '\n') { CHECK(r == ENGINE_EBADVALUE, "a key list that does not end with CR LF is rejected"); COVER("rejected"); }
    else { CHECK((r == ENGINE_SUCCESS) == (len == 3), "the CR LF is not part of the keys"); COVER("terminated"); }
}
void h_sblocks(void)
{
    TAIL[0] = nd_u8(); TAIL[1] = nd_u8();
    CASES();
    for (int len = 3; len <= 14; len++) CASE(sb(len));
}
#endif
#if VF_H_h_pool
static int cnt_list(mblck_node_t *n, mblck_node_t *tail) { int c = 0; for (int i = 0; i < 9 && n; i++) { c++; if (!n->next) CHECK(n == tail, "a list ends at its tail"); n = n->next; } CHECK(n == NULL, "lists end"); return c; }
static void pool(int init, int a, int b, int failat)
{
    static mblck_pool_t p; static mblck_list_t l1, l2;
    vf_fail_at = failat;
    if (mblck_pool_create(&p, BODY + sizeof(void*), init) != 0) { CHECK(failat >= 0 && failat < init && vf_live == 0, "a pool is created completely or not at all"); COVER("create failed"); return; }
    CHECK(cnt_list(p.head, p.tail) == init && p.free_cnt == init, "a new pool holds the blocks asked for");
    int ra = mblck_list_alloc(&p, 1, a, &l1), na = (a - 1) / BODY + 1; if (ra == 0) CHECK(cnt_list(l1.head, l1.tail) == na && MBLCK_GET_NUMBLKS(&l1) == na, "a list has enough blocks for its items");
    int rb = mblck_list_alloc(&p, 1, b, &l2), nb = (b - 1) / BODY + 1; if (rb == 0) CHECK(cnt_list(l2.head, l2.tail) == nb && MBLCK_GET_NUMBLKS(&l2) == nb, "a list has enough blocks for its items");
    CHECK((ra == 0 && rb == 0) || failat >= 0, "allocation fails only for lack of memory");
    CHECK(cnt_list(p.head, p.tail) == p.free_cnt, "blocks are in the pool or in exactly one list");
    CHECK(vf_live == p.free_cnt + (ra ? 0 : na) + (rb ? 0 : nb) && p.used_cnt == (ra ? 0 : na) + (rb ? 0 : nb), "no block is lost");
    if (ra == 0 && rb == 0 && (a & 1)) { mblck_list_merge(&l1, &l2); CHECK(cnt_list(l1.head, l1.tail) == na + nb, "merging appends all blocks"); COVER("merged"); }
    if (ra == 0) mblck_list_free(&p, &l1);
    if (rb == 0) mblck_list_free(&p, &l2);
    CHECK(cnt_list(p.head, p.tail) == vf_live && p.free_cnt == vf_live && p.used_cnt == 0, "freed blocks return to the pool");
    mblck_pool_destroy(&p); CHECK(vf_live == 0, "destroying the pool frees every block"); COVER("done");
}
void h_pool(void)
{
    CASES();
    for (int i = 0; i <= 3; i++) for (int a = 1; a <= 13; a += 6) for (int b = 1; b <= 14; b += 6) for (int f = -1; f < 5; f++) CASE(pool(i, a, b, f));
}
#endif
