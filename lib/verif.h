/*
 * Common layer of every harness.  Compiled twice from the same text:
 *   -DCBMC : nd_*() are free symbolic variables, CHECK is a proof obligation
 *   native : nd_*() replays the solver's values, CHECK aborts the process
 */
#ifndef VERIF_H
#define VERIF_H

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>

#ifdef CBMC
uint64_t nondet_u64(void);
static inline uint64_t nd_raw(void)
{
	uint64_t nd = nondet_u64();
	__CPROVER_input("nd", nd);
	return nd;
}
#define CHECK(c, msg) __CPROVER_assert((c), "CHECK " msg)
#define ASSUME(c) __CPROVER_assume(c)
#define REACH(msg) __CPROVER_assert(0, "WITNESS " msg)
#define REACH_IF(c, msg) __CPROVER_assert(!(c), "WITNESS " msg)
#else
uint64_t nd_raw(void);
void v_check_failed(const char *msg, const char *file, int line);
void v_assume_failed(const char *msg, const char *file, int line);
void v_reached(const char *msg);
#define CHECK(c, msg)                                                          \
	do {                                                                   \
		if (!(c))                                                      \
			v_check_failed("CHECK " msg, __FILE__, __LINE__);      \
	} while (0)
#define ASSUME(c)                                                              \
	do {                                                                   \
		if (!(c))                                                      \
			v_assume_failed(#c, __FILE__, __LINE__);               \
	} while (0)
#define REACH(msg) v_reached("WITNESS " msg)
#define REACH_IF(c, msg)                                                       \
	do {                                                                   \
		if (c)                                                         \
			v_reached("WITNESS " msg);                             \
	} while (0)
#endif

static inline uint8_t nd_u8(void) { return (uint8_t) nd_raw(); }
static inline uint16_t nd_u16(void) { return (uint16_t) nd_raw(); }
static inline uint32_t nd_u32(void) { return (uint32_t) nd_raw(); }
static inline uint64_t nd_u64(void) { return nd_raw(); }
static inline int nd_int(void) { return (int) (uint32_t) nd_raw(); }
static inline int64_t nd_i64(void) { return (int64_t) nd_raw(); }
static inline size_t nd_size(void) { return (size_t) nd_raw(); }
static inline bool nd_bool(void) { return (nd_raw() & 1) != 0; }
/* value in [lo, hi] */
static inline uint64_t nd_range(uint64_t lo, uint64_t hi)
{
	uint64_t v = nd_raw();
	ASSUME(v >= lo && v <= hi);
	return v;
}

/*
 * Concrete shape, symbolic content: the solver picks the case, but each case
 * is executed symbolically on its own with the case number as a constant.
 * A case ends the run; code after the loop belongs to the choice "none".
 */
#ifdef CBMC
#define V_END_CASE __CPROVER_assume(0)
#else
#define V_END_CASE exit(0)
#endif
#define FOR_CASE(v, n)                                                         \
	for (size_t v##_pick = (size_t) nd_range(0, (n)), v = 0; v < (n); v++) \
		if (v##_pick == v)                                             \
			for (int v##_once = 1; v##_once; v##_once = 0, V_END_CASE)

/* Tracked allocator with nondeterministic failure. */
extern int v_live;        /* allocations not yet freed */
extern int v_fail_budget; /* >0: each allocation may fail (symbolic choice) */
extern int v_fail_at;     /* >0: that allocation (counted from v_reset) fails */
extern int v_count;       /* allocation events since v_reset */
void v_reset(int fail_at);
extern int v_failed;      /* number of failures delivered */
extern int v_allocs;      /* successful allocation events */
extern size_t v_last_size; /* size asked for by the last successful event */
extern size_t v_req_size;  /* size asked for by the last event */
void *v_malloc(size_t n);
void *v_calloc(size_t a, size_t b);
void *v_realloc(void *p, size_t n);
void v_free(void *p);
/* upper limit of one allocation in the model; larger requests return NULL */
extern size_t v_max_alloc;


/*
 * V_TYPED(x, T) defines vt_x_malloc/calloc/realloc/free, the functions that
 * config.h routes the code under test to.  On the solver side the object gets
 * element type T (floor(n / sizeof(T)) elements), which keeps the encoding at
 * the level of T instead of bytes; natively it is plain malloc.
 */
bool v_fails(size_t n);
/* Largest object the solver side really provides for one allocation.  Smaller
 * than what was asked for is stricter than reality: an access beyond it is
 * reported to the driver, which only believes it when it reproduces. */
#ifndef V_CLAMP
#define V_CLAMP (1u << 20)
#endif
#define V_SZ(n) ((n) < V_CLAMP ? (n) : V_CLAMP)
void v_fill(void *p, size_t n);
/* zeroed object of n elements of type T; V_SYMBOLIC_SIZE: n is not a constant */
#ifdef V_SYMBOLIC_SIZE
#define V_CALLOC(T, n) calloc(n, sizeof(T))
#else
#define V_CALLOC(T, n)                                                         \
	({                                                                     \
		size_t v_cn = (n);                                             \
		T *v_cp = malloc(sizeof(T) * v_cn);                            \
		for (size_t v_ci = 0; v_ci < v_cn; v_ci++)                     \
			memset(&v_cp[v_ci], 0, sizeof(T));                     \
		v_cp;                                                          \
	})
#endif
#ifdef CBMC
#define V_TYPED(x, T)                                                          \
	void *vt_##x##_malloc(size_t n)                                        \
	{                                                                      \
		T *p;                                                          \
		if (v_fails(n))                                                \
			return NULL;                                           \
		p = malloc(sizeof(T) * (V_SZ(n) / sizeof(T)));                       \
		v_live++;                                                      \
		v_allocs++;                                                    \
		v_last_size = n;                                               \
		return p;                                                      \
	}                                                                      \
	void *vt_##x##_calloc(size_t a, size_t b)                              \
	{                                                                      \
		T *p;                                                          \
		size_t n = a * b;                                              \
		if (b != 0 && n / b != a) {                                    \
			v_failed++;                                            \
			return NULL;                                           \
		}                                                              \
		if (v_fails(n))                                                \
			return NULL;                                           \
		p = V_CALLOC(T, V_SZ(n) / sizeof(T));                          \
		v_live++;                                                      \
		v_allocs++;                                                    \
		v_last_size = n;                                               \
		return p;                                                      \
	}                                                                      \
	void *vt_##x##_realloc(void *o, size_t n)                              \
	{                                                                      \
		T *p, *s = o;                                                  \
		if (v_fails(n))                                                \
			return NULL;                                           \
		p = malloc(sizeof(T) * (V_SZ(n) / sizeof(T)));                       \
		v_allocs++;                                                    \
		v_last_size = n;                                               \
		if (s != NULL) {                                               \
			size_t on = __CPROVER_OBJECT_SIZE(s) / sizeof(T);      \
			__CPROVER_assert(__CPROVER_POINTER_OFFSET(s) == 0,     \
					 "CHECK realloc of an allocation start");  \
			for (size_t i = 0; i < on && i < V_SZ(n) / sizeof(T); i++) \
				p[i] = s[i];                                   \
			free(o);                                               \
		} else {                                                       \
			v_live++;                                              \
		}                                                              \
		return p;                                                      \
	}                                                                      \
	void vt_##x##_free(void *p) { v_free(p); }
#else
#define V_TYPED(x, T)                                                          \
	void *vt_##x##_malloc(size_t n) { return v_malloc(n); }                \
	void *vt_##x##_calloc(size_t a, size_t b) { return v_calloc(a, b); }   \
	void *vt_##x##_realloc(void *o, size_t n) { return v_realloc(o, n); }  \
	void vt_##x##_free(void *p) { v_free(p); }
#endif

/* strlen for library sources compiled with stub_strlen.h: the length of a
 * registered string is what the harness says, otherwise it is counted. */
void v_known_len(const char *p, size_t n);
size_t v_strlen(const char *s);
/* exact formatting of %s %.*s %c %d %i %u %x %l.. %z.. %% and plain text;
 * natively the C library's own */
#include <stdarg.h>
int v_mini_vsnprintf(char *dst, size_t n, const char *fmt, va_list va);
/* byte-wise copies for library sources in which lengths are symbolic */
void *v_memcpy(void *d, const void *s, size_t n);
void *v_memmove(void *d, const void *s, size_t n);
/*
 * V_FIXED(x): byte objects of constant size V_FIX whatever size was asked for
 * (a symbolic object size is expensive); bytes behind the requested size hold
 * a canary that is checked on free.
 */
#ifndef V_FIX
#define V_FIX 24
#endif
void *v_fx_malloc(size_t n);
void *v_fx_realloc(void *o, size_t n);
void *v_fx_calloc(size_t a, size_t b);
void v_fx_free(void *p);
#define V_FIXED(x)                                                             \
	void *vt_##x##_malloc(size_t n) { return v_fx_malloc(n); }             \
	void *vt_##x##_calloc(size_t a, size_t b) { return v_fx_calloc(a, b); } \
	void *vt_##x##_realloc(void *o, size_t n) { return v_fx_realloc(o, n); } \
	void vt_##x##_free(void *p) { v_fx_free(p); }
#endif
