/* Native replay runtime: feeds the verifier's counterexample to the harness. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
static uint64_t *vals; static size_t nvals, pos;
static void load(void) {
    const char *f = getenv("VF_INPUTS"); FILE *fp = f ? fopen(f, "r") : NULL;
    unsigned long long v; size_t cap = 0;
    if (!fp) { fprintf(stderr, "VF-NOINPUT\n"); exit(78); }
    while (fscanf(fp, "%llu", &v) == 1) {
        if (nvals == cap) { cap = cap ? cap * 2 : 256; vals = realloc(vals, cap * sizeof(*vals)); }
        vals[nvals++] = v;
    }
    fclose(fp);
}
uint64_t vf_nd(void) {
    if (!vals && nvals == 0) load();
    if (pos >= nvals) { pos++; return 0; }
    return vals[pos++];
}
void vf_check_fail(const char *id) { fprintf(stderr, "VF-REPRODUCED %s\n", id); fflush(stderr); _Exit(86); }
void vf_assume_fail(const char *c) { fprintf(stderr, "VF-DIVERGED %s\n", c); fflush(stderr); _Exit(77); }
