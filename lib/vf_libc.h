/* Trusted models of libc functions that CBMC has no (usable) body for.  Natively the real libc is used.
 * They implement the C standard's definition in the "C" locale, base 10. */
#ifndef VF_LIBC_H
#define VF_LIBC_H
#include <ctype.h>
#include <errno.h>
#include <limits.h>
#include <stdarg.h>
#ifndef VF_NATIVE
#undef isspace
#undef isdigit
#undef isalpha
#undef isalnum
#undef isgraph
#undef isprint
#undef toupper
#undef tolower
static int vf_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int vf_isdigit(int c) { return c >= '0' && c <= '9'; }
static int vf_isgraph(int c) { return c > 32 && c < 127; }
#define isspace(c) vf_isspace(c)
#define isdigit(c) vf_isdigit(c)
#define isgraph(c) vf_isgraph(c)
/* ghost numeral: when a harness registers the text at vf_num_ptr as [sign]digits of a given magnitude, the
 * conversion is by contract; any other text goes through the defining loop below. */
static const char *vf_num_ptr; static int vf_num_len; static bool vf_num_neg, vf_num_ovf, vf_num_any;
static unsigned long long vf_num_mag;
static unsigned long long vf_strtonum(const char *s, char **end, bool *neg, bool *ovf, bool *any)
{
    if (vf_num_ptr != NULL && s == vf_num_ptr) {
        *neg = vf_num_neg; *ovf = vf_num_ovf; *any = vf_num_any;
        if (end) *end = (char*)(vf_num_any ? s + vf_num_len : s);
        return vf_num_any ? vf_num_mag : 0;
    }
    const char *p = s; unsigned long long v = 0; *neg = false; *ovf = false; *any = false;
    while (vf_isspace((unsigned char)*p)) p++;
    if (*p == '-') { *neg = true; p++; } else if (*p == '+') p++;
    while (*p >= '0' && *p <= '9') {
        unsigned d = *p - '0';
        if (v > ULLONG_MAX / 10 || (v == ULLONG_MAX / 10 && d > ULLONG_MAX % 10)) *ovf = true;
        if (!*ovf) v = v * 10u + d;
        *any = true; p++;
    }
    if (end) *end = (char*)(*any ? p : s);
    return v;
}
static unsigned long long vf_strtoull(const char *s, char **end, int base)
{
    bool neg, ovf, any; unsigned long long v = vf_strtonum(s, end, &neg, &ovf, &any);
    if (ovf) { errno = ERANGE; return ULLONG_MAX; }
    return neg ? 0ULL - v : v;
}
static long long vf_strtoll(const char *s, char **end, int base)
{
    bool neg, ovf, any; unsigned long long v = vf_strtonum(s, end, &neg, &ovf, &any);
    if (neg) { if (ovf || v > 1ULL + LLONG_MAX) { errno = ERANGE; return LLONG_MIN; } return (long long)(0ULL - v); }
    if (ovf || v > LLONG_MAX) { errno = ERANGE; return LLONG_MAX; }
    return (long long)v;
}
#ifdef VF_LOOP_MEM
/* byte-loop definitions: far cheaper for CBMC than its array primitives when the length is symbolic and small */
static void *vf_memcpy(void *d, const void *s, size_t n)
{ for (size_t i = 0; i < n; i++) ((unsigned char*)d)[i] = ((const unsigned char*)s)[i]; return d; }
static int vf_memcmp(const void *a, const void *b, size_t n)
{ const unsigned char *p = a, *q = b; for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
#define memcpy(d,s,n) vf_memcpy(d,s,n)
#define memcmp(a,b,n) vf_memcmp(a,b,n)
#endif
#define strtoull(a,b,c) vf_strtoull(a,b,c)
#define strtoul(a,b,c)  ((unsigned long)vf_strtoull(a,b,c))
#define strtoll(a,b,c)  vf_strtoll(a,b,c)
#define strtol(a,b,c)   ((long)vf_strtoll(a,b,c))
#endif
#endif
