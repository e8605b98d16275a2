#include "verif.h"
#ifndef V_FIX_OBJS
#define V_FIX_OBJS 4
#endif

int v_live;
int v_fail_budget;
int v_fail_at;
int v_count;
int v_failed;
int v_allocs;
size_t v_last_size;
size_t v_req_size;
size_t v_max_alloc = 1u << 20;

void v_reset(int fail_at)
{
	v_live = 0;
	v_fail_budget = 0;
	v_fail_at = fail_at;
	v_count = 0;
	v_failed = 0;
	v_allocs = 0;
}

bool v_fails(size_t n)
{
	v_req_size = n;
	v_count++;
	if (v_count == v_fail_at) {
		v_failed++;
		return true;
	}
	if (n > v_max_alloc) {
		v_failed++;
		return true;
	}
	if (v_fail_budget > 0 && nd_bool()) {
		v_fail_budget--;
		v_failed++;
		return true;
	}
	return false;
}

#ifdef CBMC
void v_fill(void *p, size_t n)
{
	(void) p;
	(void) n;
}
#else
void v_fill(void *p, size_t n)
{
	const char *f = getenv("V_FILL");
	if (p && f)
		memset(p, (int) strtol(f, NULL, 0), n);
}
#endif

void *v_malloc(size_t n)
{
	void *p;

	if (v_fails(n))
		return NULL;
	p = malloc(n);
	ASSUME(p != NULL);
	v_fill(p, n);
	v_live++;
	v_allocs++;
	v_last_size = n;
	return p;
}

void *v_calloc(size_t a, size_t b)
{
	void *p;

	if (b != 0 && a > SIZE_MAX / b) {
		v_failed++;
		return NULL;
	}
	if (v_fails(a * b))
		return NULL;
	p = calloc(a, b);
	ASSUME(p != NULL);
	v_live++;
	v_allocs++;
	v_last_size = a * b;
	return p;
}

void *v_realloc(void *p, size_t n)
{
	void *q;

	if (v_fails(n))
		return NULL;
	q = realloc(p, n);
	ASSUME(q != NULL);
	if (p == NULL)
		v_live++;
	v_allocs++;
	v_last_size = n;
	return q;
}

void v_free(void *p)
{
	if (p != NULL)
		v_live--;
	free(p);
}

static const char *kl_p[8];
static size_t kl_n[8];
static int kl;
void v_known_len(const char *p, size_t n)
{
	kl_p[kl] = p;
	kl_n[kl++] = n;
}

size_t v_strlen(const char *s)
{
	size_t n = 0;
	for (int i = 0; i < kl; i++)
		if (s == kl_p[i])
			return kl_n[i];
	while (s[n])
		n++;
	return n;
}

#ifdef CBMC
void *v_memcpy(void *d, const void *s, size_t n)
{
	char *a = d;
	const char *b = s;
	__CPROVER_assert(!__CPROVER_same_object(a, b) || a + n <= b || b + n <= a || n == 0,
			 "CHECK memcpy areas do not overlap");
	__CPROVER_assert(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "CHECK memcpy areas are accessible");
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
	for (size_t i = 0; i < n; i++)
		a[i] = b[i];
#pragma CPROVER check pop
	return d;
}
void *v_memmove(void *d, const void *s, size_t n)
{
	char *a = d;
	const char *b = s;
	if (__CPROVER_same_object(a, b) && __CPROVER_POINTER_OFFSET(a) > __CPROVER_POINTER_OFFSET(b)) {
		for (size_t i = n; i > 0; i--)
			a[i - 1] = b[i - 1];
	} else {
		for (size_t i = 0; i < n; i++)
			a[i] = b[i];
	}
	return d;
}
#else
void *v_memcpy(void *d, const void *s, size_t n)
{
	return memcpy(d, s, n);
}
void *v_memmove(void *d, const void *s, size_t n)
{
	return memmove(d, s, n);
}
#endif

#ifdef CBMC
static char *fx_p[V_FIX_OBJS];
static size_t fx_n[V_FIX_OBJS];
static int fx;
static void *fx_new(size_t n)
{
	char *p = malloc(V_FIX);
	__CPROVER_assert(n <= V_FIX, "MODEL object larger than the model allows");
	__CPROVER_assume(n <= V_FIX);
	__CPROVER_assert(fx < V_FIX_OBJS, "MODEL more objects than the model allows");
	for (size_t i = 0; i < V_FIX; i++)
		if (i >= n)
			p[i] = (char) 0xA5;
	fx_p[fx] = p;
	fx_n[fx] = n;
	fx++;
	v_allocs++;
	v_last_size = n;
	return p;
}
static size_t fx_size(const void *o)
{
	size_t r = 0;
	for (int i = 0; i < fx; i++)
		if (fx_p[i] == o)
			r = fx_n[i];
	return r;
}
static void fx_check(const char *o)
{
	size_t n = fx_size(o);
	for (size_t i = 0; i < V_FIX; i++)
		__CPROVER_assert(i < n || o[i] == (char) 0xA5, "CHECK nothing is written behind an allocation");
}
void *v_fx_malloc(size_t n)
{
	if (v_fails(n))
		return NULL;
	v_live++;
	return fx_new(n);
}
void *v_fx_calloc(size_t a, size_t b)
{
	char *p;
	if (b != 0 && a * b / b != a) {
		v_failed++;
		return NULL;
	}
	p = v_fx_malloc(a * b);
	if (p != NULL)
		for (size_t i = 0; i < V_FIX; i++)
			if (i < a * b)
				p[i] = 0;
	return p;
}
void *v_fx_realloc(void *o, size_t n)
{
	char *p, *s = o;
	if (v_fails(n))
		return NULL;
	p = fx_new(n);
	if (s == NULL) {
		v_live++;
		return p;
	}
	size_t on = fx_size(o);
	fx_check(s);
	for (size_t i = 0; i < V_FIX; i++)
		if (i < on && i < n)
			p[i] = s[i];
	free(o);
	return p;
}
void v_fx_free(void *p)
{
	if (p != NULL) {
		v_live--;
		fx_check(p);
	}
	free(p);
}
#else
void *v_fx_malloc(size_t n) { return v_malloc(n); }
void *v_fx_calloc(size_t a, size_t b) { return v_calloc(a, b); }
void *v_fx_realloc(void *o, size_t n) { return v_realloc(o, n); }
void v_fx_free(void *p) { v_free(p); }
#endif

#ifdef CBMC
#ifndef V_PMAX
#define V_PMAX 64
#endif
struct out {
	char t[V_PMAX];
	size_t at;
};
static void put(struct out *o, char c)
{
	if (o->at < V_PMAX)
		o->t[o->at] = c;
	o->at++;
}
static void put_num(struct out *o, unsigned long long v, bool neg, unsigned base)
{
	char t[21];
	int i = 0;
	if (neg)
		put(o, '-');
	do {
		unsigned d = (unsigned) (v % base);
		t[i++] = (char) (d < 10 ? '0' + d : 'a' + d - 10);
		v /= base;
	} while (v);
	while (i > 0)
		put(o, t[--i]);
}
int v_mini_vsnprintf(char *dst, size_t n, const char *fmt, va_list va)
{
	struct out o;
	o.at = 0;
	for (; *fmt; fmt++) {
		if (*fmt != '%') {
			put(&o, *fmt);
			continue;
		}
		fmt++;
		int prec = -1, l = 0;
		if (*fmt == '.' && fmt[1] == '*') {
			prec = va_arg(va, int);
			fmt += 2;
		}
		while (*fmt == 'l' || *fmt == 'z') {
			l += *fmt == 'z' ? 2 : 1;
			fmt++;
		}
		if (*fmt == 's') {
			const char *s = va_arg(va, const char *);
			for (int i = 0; (prec < 0 || i < prec) && s[i]; i++)
				put(&o, s[i]);
		} else if (*fmt == 'c') {
			put(&o, (char) va_arg(va, int));
		} else if (*fmt == 'd' || *fmt == 'i') {
			long long v = l ? va_arg(va, long) : va_arg(va, int);
			put_num(&o, v < 0 ? 0ull - (unsigned long long) v : (unsigned long long) v, v < 0, 10);
		} else if (*fmt == 'u' || *fmt == 'x') {
			unsigned long long v = l ? va_arg(va, unsigned long) : va_arg(va, unsigned);
			put_num(&o, v, false, *fmt == 'u' ? 10 : 16);
		} else if (*fmt == '%') {
			put(&o, '%');
		} else {
			__CPROVER_assert(0, "MODEL unsupported conversion");
			__CPROVER_assume(0);
		}
	}
	__CPROVER_assert(o.at < V_PMAX, "MODEL text longer than the model allows");
	__CPROVER_assume(o.at < V_PMAX);
	for (size_t i = 0; i < V_PMAX; i++)
		if (i < n && i <= o.at)
			dst[i] = i == o.at || i == n - 1 ? 0 : o.t[i];
	return (int) o.at;
}
#else
int v_mini_vsnprintf(char *dst, size_t n, const char *fmt, va_list va)
{
	return vsnprintf(dst, n, fmt, va);
}
#endif

#ifndef CBMC
#include <unistd.h>
static FILE *nd_file;
static int nd_left = -1;

uint64_t nd_raw(void)
{
	unsigned long long v = 0;

	if (nd_left == -1) {
		const char *f = getenv("V_INPUT");
		nd_file = f ? fopen(f, "r") : NULL;
		nd_left = nd_file ? 1 : 0;
	}
	if (nd_left && fscanf(nd_file, "%llu", &v) == 1)
		return v;
	nd_left = 0;
	return 0;
}

void v_check_failed(const char *msg, const char *file, int line)
{
	fflush(stdout);
	dprintf(2, "FAILED %s (%s:%d)\n", msg, file, line);
	_exit(101);
}

void v_assume_failed(const char *msg, const char *file, int line)
{
	dprintf(2, "ASSUME-FAILED %s (%s:%d)\n", msg, file, line);
	_exit(102);
}

void v_reached(const char *msg)
{
	dprintf(2, "REACHED %s\n", msg);
}

#ifndef ENTRY
#define ENTRY harness
#endif
void ENTRY(void);

int main(void)
{
	ENTRY();
	return 0;
}
#endif
