// Harness interface shared by the symbolic run (CBMC) and the native replay of a counterexample.
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>

#ifndef VP_NATIVE
uint64_t nondet_vp_u64(void);
uint64_t vp_last; // every symbolic input passes through this variable, in order
static inline uint64_t vp_u64(void) {
    uint64_t v = nondet_vp_u64();
    vp_last = v;
    return v;
}
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_ASSERT(c, msg) __CPROVER_assert((c), "VP: " msg)
#define VP_REACH(msg) __CPROVER_assert(0, "REACH: " msg)
#define VP_STOP() __CPROVER_assume(0)
#else
uint64_t vp_u64(void);
void vp_assume(int c, const char *txt);
void vp_assert(int c, const char *txt);
#define VP_ASSUME(c) vp_assume(!!(c), #c)
#define VP_ASSERT(c, msg) vp_assert(!!(c), msg)
#define VP_REACH(msg) ((void) 0)
#define VP_STOP() exit(77)
#endif

static inline uint32_t vp_u32(void) { return (uint32_t) vp_u64(); }
static inline uint16_t vp_u16(void) { return (uint16_t) vp_u64(); }
static inline uint8_t vp_u8(void) { return (uint8_t) vp_u64(); }
static inline int64_t vp_i64(void) { return (int64_t) vp_u64(); }
static inline bool vp_bool(void) { return vp_u64() & 1; }
// value in [lo, hi]
static inline uint64_t vp_range(uint64_t lo, uint64_t hi) {
    uint64_t v = vp_u64();
    VP_ASSUME(v >= lo && v <= hi);
    return v;
}
// Case split on a size: body(c) is encoded once per value c in [0, n) with c constant, so sizes
// derived from it stay constant; which case runs is symbolic.
#define VP_CASES(n, body) do { uint64_t vp_k_ = vp_u64(); for (int vp_c_ = 0; vp_c_ < (n); vp_c_++) if (vp_k_ == (uint64_t) vp_c_) { body(vp_c_); break; } } while (0)
static inline void vp_bytes(void *p, size_t n) {
    for (size_t i = 0; i < n; i++) ((uint8_t *) p)[i] = vp_u8();
}

// A failed assertf() of the code under test is a failure of the run; no formatting.
#ifndef VP_KEEP_ASSERTF
#include "utils/assertf.h"
#undef assertf
#ifndef VP_NATIVE
#define assertf(e, ...) do { bool vp_e_ = !!(e); __CPROVER_assert(vp_e_, "assertf"); __CPROVER_assume(vp_e_); } while (0)
#else
#define assertf(e, ...) do { if (!(e)) { fprintf(stderr, "assertf failed: %s %s:%d\n", #e, __FILE__, __LINE__); abort(); } } while (0)
#endif
#endif

#ifndef VP_NATIVE
#ifndef VP_OWN_MEM
// byte-exact memory primitives; the bundled models of these are imprecise for interior pointers
void *memmove(void *d, const void *s, size_t n) {
    uint8_t *dp = d;
    const uint8_t *sp = s;
    if (__CPROVER_POINTER_OBJECT(dp) == __CPROVER_POINTER_OBJECT(sp) && __CPROVER_POINTER_OFFSET(dp) > __CPROVER_POINTER_OFFSET(sp)) {
        for (size_t i = n; i > 0; i--) dp[i - 1] = sp[i - 1];
    } else {
        for (size_t i = 0; i < n; i++) dp[i] = sp[i];
    }
    return d;
}
void *memcpy(void *d, const void *s, size_t n) {
    for (size_t i = 0; i < n; i++) ((uint8_t *) d)[i] = ((const uint8_t *) s)[i];
    return d;
}
void *memset(void *d, int c, size_t n) {
    for (size_t i = 0; i < n; i++) ((uint8_t *) d)[i] = (uint8_t) c;
    return d;
}
int memcmp(const void *a, const void *b, size_t n) {
    for (size_t i = 0; i < n; i++)
        if (((const uint8_t *) a)[i] != ((const uint8_t *) b)[i]) return ((const uint8_t *) a)[i] < ((const uint8_t *) b)[i] ? -1 : 1;
    return 0;
}
#endif
#ifndef VP_OWN_ABORT
void abort(void) {
    __CPROVER_assert(0, "abort() reached");
    __CPROVER_assume(0);
}
#endif
#endif
#endif
