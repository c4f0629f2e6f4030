//VF source util.c
//VF harness h_strtoull props=C20 unwind=27 funcs=safe_strtoull
//VF harness h_strtoll props=C20 unwind=27 funcs=safe_strtoll
//VF harness h_strtoul props=C20 unwind=27 funcs=safe_strtoul
//VF harness h_strtol props=C20 unwind=27 funcs=safe_strtol
//VF harness h_hex_roundtrip props=C21 unwind=70 timeout=100 funcs=safe_hexatostr,safe_strtohexa
//VF harness h_hex_decode props=C21 unwind=70 timeout=100 funcs=safe_strtohexa
//VF harness h_swap64 props=C34 unwind=9 funcs=mc_ntohll,mc_htonll
#include "vf.h"
#include "config.h"
#include "vf_libc.h"
#include VF_SRC
//VF trust libc strtol/strtoul/strtoll/strtoull: C-standard contract (base 10, "C" locale)


/* an arbitrary token: optional sign, a digit run of magnitude mag (ovf: it exceeds 64 bits), an arbitrary tail.
 * The conversion functions of libc are used by contract (vf_libc.h); natively the digits are printed. */
#define TOK 26
static char tok[TOK + 1];
static bool g_num, g_neg, g_ovf; static __int128 g_val;
static void mk_token(void)
{
    uint64_t mag = nd_u64(); bool ovf = nd_bool(); int sign = (int)nd_upto(2); bool any = nd_bool();
    int nd = (int)nd_range(1, 21), ntail = (int)nd_upto(2), n = 0; char tail[2];
    tail[0] = nd_u8(); tail[1] = nd_u8();
    for (int i = 0; i < 2; i++) {
        ASSUME(tail[i] != 0 && tail[i] != ' ' && !((unsigned char)tail[i] >= 9 && (unsigned char)tail[i] <= 13));
        ASSUME(i > 0 || !(any && tail[i] >= '0' && tail[i] <= '9'));
    }
    if (!any) ASSUME(ntail == 0 || ((tail[0] < '0' || tail[0] > '9') && (sign || (tail[0] != '-' && tail[0] != '+'))));
    if (ovf) { mag = UINT64_MAX; ASSUME(any); }
    if (sign) tok[n++] = sign == 1 ? '-' : '+';
    if (any) {
#ifdef VF_NATIVE
        n += sprintf(tok + n, ovf ? "18446744073709551616" : "%llu", (unsigned long long)mag);
#else
        for (int i = 0; i < 21; i++) if (i < nd) { char d = nd_u8(); ASSUME(d >= '0' && d <= '9'); tok[n++] = d; }
        vf_num_ptr = tok; vf_num_len = n; vf_num_neg = sign == 1; vf_num_ovf = ovf; vf_num_any = true; vf_num_mag = mag;
#endif
    }
    if (ntail > 0) tok[n++] = tail[0];
    if (ntail > 1) tok[n++] = tail[1];
    tok[n] = 0;
    g_num = any && ntail == 0; g_neg = sign == 1; g_ovf = ovf;
    g_val = ovf ? (__int128)UINT64_MAX + 1 : (__int128)mag;
    if (g_neg) g_val = -g_val;
}
#if VF_H_h_strtoull
void h_strtoull(void)
{
    mk_token();
    __int128 v = g_val; bool num = g_num;
    uint64_t out = 77; bool r = safe_strtoull(tok, &out);
    if (!num) CHECK(!r, "a token that is not a decimal numeral is rejected");
    else if (!g_neg) {
        bool fit = v <= (__int128)UINT64_MAX;
        CHECK(r == fit, "an unsigned numeral is accepted exactly when it fits in 64 bits");
        if (r) CHECK((__int128)out == v, "the accepted value equals the numeral");
    } else if (r) CHECK(out <= INT64_MAX, "no negative numeral becomes a value above 2^63-1");
    if (r) COVER("accepted"); else COVER("rejected");
}
#endif
#if VF_H_h_strtoll
void h_strtoll(void)
{
    mk_token();
    __int128 v = g_val; bool num = g_num;
    int64_t out = 77; bool r = safe_strtoll(tok, &out);
    bool fit = num && v >= (__int128)INT64_MIN && v <= (__int128)INT64_MAX;
    CHECK(r == fit, "a token is accepted exactly when it is a numeral that fits in int64");
    if (r) CHECK((__int128)out == v, "the accepted value equals the numeral");
    if (r) COVER("accepted"); else COVER("rejected");
}
#endif
#if VF_H_h_strtoul
void h_strtoul(void)
{
    mk_token();
    __int128 v = g_val; bool num = g_num;
    uint32_t out = 77; bool r = safe_strtoul(tok, &out);
    if (!num) CHECK(!r, "a token that is not a decimal numeral is rejected");
    else if (!g_neg) {
        CHECK(r == (v <= (__int128)UINT32_MAX), "an unsigned numeral is accepted exactly when it fits in 32 bits");
        if (r) CHECK((__int128)out == v, "the accepted value equals the numeral");
    }
    if (r) COVER("accepted"); else COVER("rejected");
}
#endif
#if VF_H_h_strtol
void h_strtol(void)
{
    mk_token();
    __int128 v = g_val; bool num = g_num;
    int32_t out = 77; bool r = safe_strtol(tok, &out);
    bool fit = num && v >= INT32_MIN && v <= INT32_MAX;
    CHECK(r == fit, "a token is accepted exactly when it is a numeral that fits in int32");
    if (r) CHECK((__int128)out == v, "the accepted value equals the numeral");
    if (r) COVER("accepted"); else COVER("rejected");
}
#endif
#if VF_H_h_hex_roundtrip
void h_hex_roundtrip(void)
{
    unsigned char bin[31], back[31]; char str[63 + 1];
    int size = (int)nd_upto(31);
    ND_FILL(bin, 31);
    safe_hexatostr(bin, size, str);
    for (int i = 0; i < 62; i++)
        if (i < 2 * size) CHECK((str[i] >= '0' && str[i] <= '9') || (str[i] >= 'A' && str[i] <= 'F'), "only upper-case hex digits are printed");
    CHECK(str[2 * size] == 0, "the text is terminated after 2*size digits");
    bool r = safe_strtohexa(str, back, 31);
    CHECK(r == (size > 0), "every printed non-empty byte string parses");
    for (int i = 0; i < 31; i++) if (i < size && r) CHECK(back[i] == bin[i], "parse(print(b)) == b");
    COVER("end");
}
#endif
#if VF_H_h_hex_decode
static int dig(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
void h_hex_decode(void)
{
    static char s[66]; unsigned char out[32]; int n = (int)nd_upto(65), size = (int)nd_upto(31);
    ND_FILL(s, 66); ND_FILL(out, 32);
    unsigned char guard = out[size];
    for (int i = 0; i < 66; i++) if (i < n) ASSUME(s[i] != 0); else ASSUME(s[i] == 0);
    bool ok = n > 0 && n <= 2 * size && n % 2 == 0;
    for (int i = 0; i < 66; i++) if (i < n && dig(s[i]) < 0) ok = false;
    bool r = safe_strtohexa(s, out, size);
    CHECK(r == ok, "accepted exactly when it is a non-empty even-length hex text of at most 2*size digits");
    if (r) for (int i = 0; i < 32; i++) if (2 * i < n) CHECK(out[i] == dig(s[2*i]) * 16 + dig(s[2*i+1]), "byte i is the value of digits 2i,2i+1");
    CHECK(out[size] == guard, "nothing is written past size bytes");
    if (r) COVER("accepted"); else COVER("rejected");
}
#endif
#if VF_H_h_swap64
void h_swap64(void)
{
    uint64_t v = nd_u64(), w = mc_htonll(v);
    unsigned char *b = (unsigned char*)&w;
    for (int i = 0; i < 8; i++) CHECK(b[i] == (unsigned char)(v >> (56 - 8 * i)), "byte i of htonll(v) is the i-th most significant byte of v");
    CHECK(mc_ntohll(w) == v, "ntohll(htonll(v)) == v");
    CHECK(mc_htonll(mc_ntohll(v)) == v, "htonll(ntohll(v)) == v");
    COVER("end");
}
#endif
