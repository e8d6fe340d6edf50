/* vf.h - contract vocabulary shared by the verifier build and the native replay build.
 *
 * A unit harness states, for one function (or one operation of one data
 * structure) of /repo:   REQUIRES ...; call; ENSURES ...
 * and, per loop, VF_INV_<fn>_<k> / VF_HAV_<fn>_<k> / VF_DEC_<fn>_<k> / VF_FRM_<fn>_<k>
 * which the driver turns into an inductive cut of loop k of function fn.
 *
 *   -DVF_CBMC -DVF_UNB   deductive run: every input symbolic, sizes unbounded, loops cut by contracts
 *   -DVF_CBMC -DVF_BND   bounded search run (same contracts, loops unrolled, sizes <= VF_BOUND)
 *   -DVF_NAT             native run on the real code (replay of a counterexample, or random search)
 */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

#ifndef VF_BOUND
#define VF_BOUND 8
#endif
#ifndef VF_NATMAX
#define VF_NATMAX 48
#endif

#ifdef VF_CBMC
/* ------------------------------------------------------------------ verifier */
uint8_t nondet_u8(void); uint16_t nondet_u16(void); uint32_t nondet_u32(void); uint64_t nondet_u64(void);
_Bool nondet_bool_(void); void *nondet_ptr(void);
static unsigned long long vf_draw_value;
static inline uint64_t vf_draw_(uint64_t v) { vf_draw_value = v; return v; }
#define U8()   ((uint8_t)vf_draw_(nondet_u8()))
#define U16()  ((uint16_t)vf_draw_(nondet_u16()))
#define U32()  ((uint32_t)vf_draw_(nondet_u32()))
#define U64()  ((uint64_t)vf_draw_(nondet_u64()))
#define BOOL() ((_Bool)(vf_draw_(nondet_u8() & 1)))
#define I32()  ((int32_t)U32())
#define I64()  ((int64_t)U64())
static inline uint64_t vf_sz_(uint64_t lo, uint64_t hi)
{
#ifdef VF_BND
	if (hi > lo && hi - lo > VF_BOUND) hi = (lo > VF_BOUND) ? lo + VF_BOUND : (lo + VF_BOUND);
#endif
	uint64_t v = nondet_u64();
	__CPROVER_assume(v >= lo && v <= hi);
	return vf_draw_(v);
}
static inline uint64_t vf_rng_(uint64_t lo, uint64_t hi)
{ uint64_t v = nondet_u64(); __CPROVER_assume(v >= lo && v <= hi); return vf_draw_(v); }
#define REQUIRES(c)     __CPROVER_assume(c)
#define ENSURES(c, msg) __CPROVER_assert((c), "ENSURES " msg)
#ifdef VF_REACH
#define REACH(msg) __CPROVER_assert(0, "REACH " msg)
#else
#define REACH(msg) ((void)0)
#endif
#define ENSURES_FORALL(k, lo, hi, cond, msg) do { uint64_t k = nondet_u64(); \
	if (k >= (uint64_t)(lo) && k < (uint64_t)(hi)) __CPROVER_assert((cond), "ENSURES forall " msg); } while (0)
#ifndef VF_ALLOCMAX
#define VF_ALLOCMAX 64
#endif
#ifdef VF_BND /* constant-size object, the buffer ends exactly at the object's end */
static inline void *vf_alloc(size_t n) { __CPROVER_assume(n <= VF_ALLOCMAX); char *p = (malloc)(VF_ALLOCMAX); __CPROVER_assume(p != 0); return p + (VF_ALLOCMAX - n); }
#else
static inline void *vf_alloc(size_t n) { void *p = (malloc)(n); __CPROVER_assume(p != 0); return p; }
#endif
static inline void *vf_buf_(size_t n, size_t maxn)
{
	unsigned char *p = vf_alloc(n);
#ifdef VF_BND
	for (size_t i = 0; i < (maxn > VF_BOUND + 8 ? VF_BOUND + 8 : maxn); i++) { unsigned char c = U8(); if (i < n) p[i] = c; }
#endif
	return p;
}
#define VF_UNROLLED 0
#define VF_IS_NATIVE 0
#else
/* ------------------------------------------------------------------ native */
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
extern jmp_buf vf_skip_jmp;
uint64_t vf_nat_draw(int bits);
uint64_t vf_nat_size(uint64_t lo, uint64_t hi);
uint64_t vf_nat_range(uint64_t lo, uint64_t hi);
void vf_nat_fail(const char *msg, const char *file, int line);
void *vf_nat_buf(size_t n, size_t maxn, const char *alpha);
void *vf_nat_alloc(size_t n);
#define U8()   ((uint8_t)vf_nat_draw(8))
#define U16()  ((uint16_t)vf_nat_draw(16))
#define U32()  ((uint32_t)vf_nat_draw(32))
#define U64()  ((uint64_t)vf_nat_draw(64))
#define BOOL() ((_Bool)vf_nat_draw(1))
#define I32()  ((int32_t)U32())
#define I64()  ((int64_t)U64())
#define vf_sz_(lo, hi) vf_nat_size(lo, hi)
#define vf_rng_(lo, hi) vf_nat_range(lo, hi)
#define REQUIRES(c)     do { if (!(c)) longjmp(vf_skip_jmp, 1); } while (0)
#define ENSURES(c, msg) do { if (!(c)) vf_nat_fail(msg, __FILE__, __LINE__); } while (0)
#define REACH(msg)      ((void)0)
#define ENSURES_FORALL(k, lo, hi, cond, msg) do { for (uint64_t k = (lo); k < (uint64_t)(hi); k++) \
	if (!(cond)) vf_nat_fail("forall " msg, __FILE__, __LINE__); } while (0)
#define vf_alloc(n) vf_nat_alloc(n)
#define vf_buf_(n, maxn) vf_nat_buf(n, maxn, NULL)
#define VF_IS_NATIVE 1
#endif

/* a size in [lo,hi]; capped to VF_BOUND / VF_NATMAX above lo outside the deductive run */
#define SZ(lo, hi) ((size_t)vf_sz_((lo), (hi)))
/* a scalar in [lo,hi], never capped */
#define RANGE(lo, hi) (vf_rng_((lo), (hi)))
/* a buffer object of exactly n bytes with arbitrary content */
#define BUF(n) (vf_buf_((n), VF_BUFMAX))
#ifndef VF_BUFMAX
#ifdef VF_CBMC
#define VF_BUFMAX (VF_BOUND + 8)
#else
#define VF_BUFMAX (n_is_exact_)
#endif
#endif

/* same, content drawn preferably from the characters of string a (native search only) */
#ifdef VF_CBMC
#define BUFA(n, a) (vf_buf_((n), VF_BOUND + 8))
#else
#undef BUF
#define BUF(n) (vf_nat_buf((n), VF_BOUND + 8, NULL))
#define BUFA(n, a) (vf_nat_buf((n), VF_BOUND + 8, (a)))
#endif

/* ------------------------------------------------------------------ loop cuts */
#ifdef VF_CUTS
static int vf_cnt[64];
static uint64_t vf_dec[64];
/* an arbitrary offset in [0,n] (kept small enough that base+offset cannot wrap) */
static inline size_t vf_off_(size_t n) { size_t v = nondet_u64(); __CPROVER_assume(v <= n); return v; }
#define OFF(n) vf_off_(n)
#define HAVOBJ(p) __CPROVER_havoc_object(p)
#define VF_ND(x) ({ __typeof__(x) vf_nd_; vf_nd_; })
/* frame of a cut loop: an arbitrary byte of the n-byte object p keeps its value through an iteration (slots 0..3) */
static const unsigned char *vf_fp[4]; static unsigned char vf_fb[4];
#define VF_FRAME_SAVE(i, p, n) ({ size_t vf_fn_ = (n); vf_fp[i] = 0; if (vf_fn_ > 0) { vf_fp[i] = (const unsigned char *)(p) + vf_off_(vf_fn_ - 1); vf_fb[i] = *vf_fp[i]; } })
#define VF_FRAME_CHECK(i) __CPROVER_assert(vf_fp[i] == 0 || *vf_fp[i] == vf_fb[i], "FRAME memory outside the loop's modifies clause is unchanged")
#endif
/* ------------------------------------------------------------------ contracts of libc block operations
 * VF_UNB only: exact at the watched offsets of the destination object, everything else in it becomes arbitrary */
#ifdef VF_UNB
#ifndef VF_NW
#define VF_NW 2
#endif
static size_t vf_wo[VF_NW];
static unsigned char vf_wv[VF_NW];
static inline void *vf_blk_(char *d, const char *s, size_t n, int move)
{
	if (n == 0) return d;
	__CPROVER_assert(__CPROVER_r_ok(s, n), "ENSURES block copy: source readable");
	__CPROVER_assert(__CPROVER_w_ok(d, n), "ENSURES block copy: destination writable");
	__CPROVER_assert(move || !__CPROVER_same_object(d, s) || d + n <= s || s + n <= d, "ENSURES memcpy ranges do not overlap");
	size_t od = __CPROVER_POINTER_OFFSET(d), sz = __CPROVER_OBJECT_SIZE(d); char *b = d - od;
	for (int i = 0; i < VF_NW; i++) if (vf_wo[i] < sz) vf_wv[i] = vf_wo[i] >= od && vf_wo[i] - od < n ? s[vf_wo[i] - od] : b[vf_wo[i]];
	__CPROVER_havoc_object(d);
	for (int i = 0; i < VF_NW; i++) if (vf_wo[i] < sz) b[vf_wo[i]] = vf_wv[i];
	return d;
}
static inline void *vf_memcpy_c(void *d, const void *s, size_t n) { return vf_blk_(d, s, n, 0); }
static inline void *vf_memmove_c(void *d, const void *s, size_t n) { return vf_blk_(d, s, n, 1); }
/* may fail; on success a fresh object of n bytes that agrees with the old one at the watched offsets */
static inline void *vf_realloc_c(void *o, size_t n)
{
	if (nondet_bool_()) return 0;
	char *p = (malloc)(n); __CPROVER_assume(p != 0);
	if (o) {
		__CPROVER_assert(__CPROVER_POINTER_OFFSET(o) == 0, "ENSURES realloc of a block start");
		size_t sz = __CPROVER_OBJECT_SIZE(o);
		for (int i = 0; i < VF_NW; i++) if (vf_wo[i] < sz && vf_wo[i] < n) p[vf_wo[i]] = ((char *)o)[vf_wo[i]];
		(free)(o);
	}
	return p;
}
#endif
#ifdef VF_UNB
/* contract of the unsigned remainder: exact for a < 2b (lemma vf_mod, checked natively), some value below b otherwise */
static inline uint64_t vf_mod(uint64_t a, uint64_t b)
{
	__CPROVER_assert(b != 0, "ENSURES no remainder by zero");
	if (a < b) return a;
	if (a - b < b) return a - b;
	uint64_t r = nondet_u64(); __CPROVER_assume(r < b); return r;
}
/* contract of the unsigned quotient: a function of its operands, 0 exactly when a < b, never above a */
uint64_t __CPROVER_uninterpreted_vfdiv(uint64_t, uint64_t);
static inline uint64_t vf_div(uint64_t a, uint64_t b)
{
	__CPROVER_assert(b != 0, "ENSURES no division by zero");
	uint64_t q = __CPROVER_uninterpreted_vfdiv(a, b); __CPROVER_assume(q <= a && (q == 0) == (a < b)); return q;
}
#else
#define vf_div(a, b) ((a) / (b))
#define vf_mod(a, b) ((a) % (b))
#endif
#define IMPLIES(a, b) (!(a) || (b))

/* reference helpers for the executable side of a contract */
static inline size_t vf_nlen(const char *p, size_t n) { size_t i = 0; while (i < n && p[i]) i++; return i; }

void vf_harness(void);
#endif
