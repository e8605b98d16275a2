/* A01: the array macros against a plain sequence. */
#include "verif.h"
#ifdef LIMIT
#define SC_ARRAY_MAX LIMIT
#endif
#include "sc_array.h"

#ifndef NOPS
#define NOPS 2
#endif
#ifndef T
#define T 2
#endif
#if T == 1
typedef uint8_t elem;
#define EQ(x, y) ((x) == (y))
static elem any(void)
{
	return nd_u8();
}
#elif T == 2
typedef uint64_t elem;
#define EQ(x, y) ((x) == (y))
static elem any(void)
{
	return nd_u64();
}
#else
typedef struct { /* larger than a pointer, with padding */
	uint32_t a;
	uint64_t m;
	uint8_t b;
} elem;
#define EQ(x, y) ((x).a == (y).a && (x).b == (y).b && (x).m == (y).m)
static elem any(void)
{
	elem e;
	e.a = nd_u32();
	e.m = nd_u8();
	e.b = nd_u8();
	return e;
}
#endif
V_TYPED(array, elem)
sc_array_def(elem, e);

#define MAXN 24
struct model {
	elem m[MAXN];
	size_t n;
};

static void agree(struct sc_array_e *a, struct model *o)
{
	size_t i;

	CHECK(sc_array_size(a) == o->n, "size is the number of elements");
	for (i = 0; i < o->n; i++)
		CHECK(EQ(sc_array_at(a, i), o->m[i]), "element access");
	if (o->n > 0)
		CHECK(EQ(sc_array_last(a), o->m[o->n - 1]), "last element");
}

static void walk(struct sc_array_e *a, struct model *o)
{
	size_t i = 0;
	elem e;

	sc_array_foreach (a, e) {
		CHECK(i < o->n && EQ(e, o->m[i]), "iteration order");
		i++;
	}
	CHECK(i == o->n, "iteration visits every element");
}

static void add(struct sc_array_e *a, struct model *o)
{
	elem e = any();
	int f = v_failed;
	sc_array_add(a, e);
	CHECK(sc_array_oom(a) == (v_failed != f), "failure is reported, and only failure");
	if (v_failed == f)
		o->m[o->n++] = e;
}

/* the argument's name is chosen to provoke macro capture */
static void del(struct sc_array_e *a, struct model *o, size_t idx)
{
	sc_array_del(a, idx);
	for (size_t j = idx; j + 1 < o->n; j++)
		o->m[j] = o->m[j + 1];
	o->n--;
}

static void del_unordered(struct sc_array_e *a, struct model *o, size_t idx)
{
	sc_array_del_unordered(a, idx);
	o->m[idx] = o->m[o->n - 1];
	o->n--;
}

static void op(struct sc_array_e *a, struct model *o, int kind)
{
	if (o->n == 0 && kind > 1)
		return;
	switch (kind) {
	case 0:
		add(a, o);
		break;
	case 1:
		sc_array_clear(a);
		o->n = 0;
		CHECK(!sc_array_oom(a), "clear resets the failure indicator");
		break;
	case 2:
		del(a, o, 0);
		break;
	case 3:
		del(a, o, o->n / 2);
		break;
	case 4:
		del(a, o, o->n - 1);
		break;
	case 5:
		del_unordered(a, o, 0);
		break;
	case 6:
		del_unordered(a, o, o->n - 1);
		break;
	case 7:
		sc_array_del_last(a);
		o->n--;
		break;
	default: {
		/* an element added from the array itself */
		elem e = o->m[0];
		int f = v_failed;
		sc_array_add(a, sc_array_at(a, 0));
		CHECK(sc_array_oom(a) == (v_failed != f), "failure is reported, and only failure");
		if (v_failed == f)
			o->m[o->n++] = e;
		break;
	}
	}
	agree(a, o);
}
#define KINDS 9

#ifndef MAXD
#define MAXD 10
#endif
#ifndef STARTS
#define STARTS 2, 8
#endif
static const size_t starts[] = {STARTS};
#define NSTART (sizeof(starts) / sizeof(starts[0]))

static void run(size_t n, size_t ops, int fail)
{
	struct sc_array_e a;
	struct model o;

	v_reset(0);
	o.n = 0;
	sc_array_init(&a);
	CHECK(!sc_array_oom(&a), "starts without failure");
	agree(&a, &o);
	for (size_t i = 0; i < n; i++)
		add(&a, &o);
	agree(&a, &o);
	v_fail_at = fail ? v_count + fail : 0;
	for (int i = 0; i < NOPS; i++, ops /= KINDS)
		op(&a, &o, (int) (ops % KINDS));
	walk(&a, &o);
	if (fail) {
		v_fail_at = 0;
		op(&a, &o, 0);
		CHECK(!sc_array_oom(&a), "additions work again");
	}
	sc_array_term(&a);
	CHECK(v_live == 0, "released once");
	CHECK(sc_array_size(&a) == 0, "empty after term");
	add(&a, &o);
	CHECK(sc_array_size(&a) == 1, "usable after term");
	sc_array_term(&a);
	CHECK(v_live == 0, "released once");
}

#if NOPS == 2
#define POW (KINDS * KINDS)
#else
#define POW (KINDS * KINDS * KINDS)
#endif

void h_ops(void)
{
	FOR_CASE(c, NSTART *POW)
	{
		run(starts[c / POW], c % POW, 0);
		if (c == NSTART * POW - 1)
			REACH("last sequence");
	}
}

/* deletion at every index of every array of up to 17 elements */
void h_del(void)
{
	FOR_CASE(c, MAXD *MAXD * 2)
	{
		size_t n = c / 2 / MAXD, i = c / 2 % MAXD;
		struct sc_array_e a;
		struct model o;

		if (i >= n)
			continue;
		v_reset(0);
		o.n = 0;
		sc_array_init(&a);
		for (size_t k = 0; k < n; k++)
			add(&a, &o);
		if (c % 2)
			del(&a, &o, i);
		else
			del_unordered(&a, &o, i);
		agree(&a, &o);
		add(&a, &o);
		agree(&a, &o);
		if (n == MAXD - 1 && i == n - 1)
			REACH("last index");
		sc_array_term(&a);
	}
}

/* growth fails: nothing changes, later additions work */
void h_fail(void)
{
	static const size_t full[] = {0, 8};
	FOR_CASE(c, 2 * KINDS)
	{
		run(full[c / KINDS], c % KINDS * KINDS + c % KINDS % 2, 1);
		if (c == 0)
			REACH("failing growth");
	}
}

/* the configured limit is respected and reported */
void h_limit(void)
{
	struct sc_array_e a;
	struct model o;
	size_t k = 0;

	v_reset(0);
	o.n = 0;
	sc_array_init(&a);
	for (int i = 0; i < 20; i++) {
		elem e = any();
		sc_array_add(&a, e);
		if (!sc_array_oom(&a))
			o.m[o.n++] = e;
		else
			k++;
		CHECK(v_last_size <= SC_ARRAY_MAX, "never asks for more than the limit");
		CHECK(o.n * sizeof(elem) <= v_last_size, "elements are backed by memory");
		CHECK(v_failed == 0, "allocator never refuses here");
	}
	agree(&a, &o);
	CHECK(o.n >= 8, "the first elements fit");
	REACH_IF(k > 0 && o.n == 8, "limit hit");
	sc_array_term(&a);
	CHECK(v_live == 0, "released once");
}

/* any capacity: the size asked for covers one more element or add fails */
void h_huge(void)
{
	struct sc_array_e a;
	elem e = any();
	size_t n = nd_size();

	v_reset(0);
	v_max_alloc = 0;
	v_req_size = 0;
	sc_array_init(&a);
	ASSUME(n > 0 && n <= SIZE_MAX / sizeof(elem));
	a.cap = n;
	a.size = n;
	sc_array_add(&a, e);
	CHECK(sc_array_oom(&a) && a.size == n && a.cap == n && a.elems == NULL, "failed add changes nothing");
	CHECK(v_req_size == 0 || v_req_size / sizeof(elem) > n, "request covers the elements");
	REACH_IF(v_req_size == 0, "limit");
	REACH_IF(v_req_size > 0, "request");
}

static int cmp(const void *x, const void *y)
{
	const elem *a = x, *b = y;
#if T == 3
	return a->a < b->a ? -1 : a->a > b->a;
#else
	return *a < *b ? -1 : *a > *b;
#endif
}
#if T == 3
#define KEY(e) ((e).a)
#else
#define KEY(e) (e)
#endif

void h_sort(void)
{
	FOR_CASE(n, 5)
	{
		struct sc_array_e a;
		struct model o;
		elem x = any();
		int before = 0, after = 0;

		v_reset(0);
		o.n = 0;
		sc_array_init(&a);
		for (size_t i = 0; i < n; i++)
			add(&a, &o);
		for (size_t i = 0; i < n; i++)
			before += EQ(o.m[i], x) ? 1 : 0;
		sc_array_sort(&a, cmp);
		CHECK(sc_array_size(&a) == n, "size kept");
		for (size_t i = 0; i < n; i++) {
			after += EQ(sc_array_at(&a, i), x) ? 1 : 0;
			if (i > 0)
				CHECK(KEY(sc_array_at(&a, i - 1)) <= KEY(sc_array_at(&a, i)), "sorted");
		}
		CHECK(before == after, "sorting permutes");
		if (n == 4)
			REACH_IF(EQ(sc_array_at(&a, 0), o.m[3]), "sorted");
		sc_array_term(&a);
	}
}
