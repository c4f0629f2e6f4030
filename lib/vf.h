/* Verification prelude, shared by the CBMC build and the native replay build.
 *
 *  nd_*()        an arbitrary value (CBMC: nondeterministic; native: next value of the counterexample)
 *  ASSUME(c)     a clause of the contract's precondition
 *  CHECK(c, id)  an obligation (clause of a postcondition / invariant / callee precondition)
 *  COVER(id)     reachability marker: must be reachable, otherwise the unit is vacuous
 *  REQUIRES/ENSURES/ASSIGNS  CBMC function contracts (empty natively)
 */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>

#ifdef VF_NATIVE
uint64_t vf_nd(void);
void vf_check_fail(const char *id);
void vf_assume_fail(const char *c);
#define ASSUME(c)    do { if (!(c)) vf_assume_fail(#c); } while (0)
#define CHECK(c, id) do { if (!(c)) vf_check_fail(id); } while (0)
#define COVER(id)    do { } while (0)
#define REQUIRES(c)
#define ENSURES(c)
#define ASSIGNS(...)
#define VF_IS_NATIVE 1
#else
uint64_t nondet_vf_u64(void);
static uint64_t vf_nd(void) { uint64_t vf_nd_val = nondet_vf_u64(); return vf_nd_val; }
#define ASSUME(c)    __CPROVER_assume(c)
#define CHECK(c, id) __CPROVER_assert(c, "vf:" id)
#define COVER(id)    __CPROVER_assert(0, "vfcover:" id)
#define REQUIRES(c)  __CPROVER_requires(c)
#define ENSURES(c)   __CPROVER_ensures(c)
#define ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define VF_IS_NATIVE 0
#endif

/* Case split: exactly one case is taken (arbitrary choice); a case ends the run, so cases never merge. */
#ifdef VF_NATIVE
#define CASE_END()   _Exit(0)
#else
#define CASE_END()   __CPROVER_assume(0)
#endif
#define CASES()      uint64_t vf_pick = vf_nd(); uint64_t vf_case_no = 0; (void)vf_case_no
#define CASE(...)    do { if (vf_pick == vf_case_no++) { __VA_ARGS__; CASE_END(); } } while (0)

#define nd_u8()   ((uint8_t)vf_nd())
#define nd_u16()  ((uint16_t)vf_nd())
#define nd_u32()  ((uint32_t)vf_nd())
#define nd_u64()  (vf_nd())
#define nd_i32()  ((int32_t)vf_nd())
#define nd_i64()  ((int64_t)vf_nd())
#define nd_bool() ((bool)(vf_nd() & 1))

static inline uint64_t nd_upto(uint64_t n) { uint64_t v = vf_nd(); ASSUME(v <= n); return v; }
static inline uint64_t nd_range(uint64_t lo, uint64_t hi) { uint64_t v = vf_nd(); ASSUME(v >= lo && v <= hi); return v; }
#define ND_FILL(p, n) do { for (size_t nd_i_ = 0; nd_i_ < (size_t)(n); nd_i_++) ((unsigned char*)(p))[nd_i_] = nd_u8(); } while (0)
static inline void *vf_alloc(size_t n) { void *p = malloc(n); ASSUME(p != NULL); return p; }
#endif
