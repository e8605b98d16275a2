/* Q01: the queue macros against a plain double-ended sequence. */
#include "verif.h"
#ifdef LIMIT
#define SC_QUEUE_MAX LIMIT
#endif
#include "sc_queue.h"

#ifndef NOPS
#define NOPS 2
#endif
#ifndef T
#define T 2
#endif
#if T == 2
typedef uint64_t elem;
#define EQ(x, y) ((x) == (y))
static elem any(void)
{
	return nd_u64();
}
#else
typedef struct { /* larger than a pointer, with padding */
	uint32_t a;
	uint64_t m;
	uint8_t b;
} elem;
#define EQ(x, y) ((x).a == (y).a && (x).b == (y).b && (x).m == (y).m)
static elem any(void)
{
	elem e;
	e.a = nd_u32();
	e.m = nd_u8();
	e.b = nd_u8();
	return e;
}
#endif
#ifdef NOMEM
/* every request is refused; overflowing products count as refused without a request */
void *vt_queue_calloc(size_t a, size_t b)
{
	v_req_size = b != 0 && a > SIZE_MAX / b ? 0 : a * b;
	v_failed++;
	return NULL;
}
void vt_queue_free(void *p)
{
	v_free(p);
}
#else
V_TYPED(queue, elem)
#endif
sc_queue_def(elem, e);

/* the model: m[lo..hi) */
#define MID 24
struct model {
	elem m[2 * MID];
	size_t lo, hi;
};

static void agree(struct sc_queue_e *q, struct model *o)
{
	size_t n = o->hi - o->lo;

	CHECK(sc_queue_size(q) == n, "size is the number of elements");
	CHECK(sc_queue_empty(q) == (n == 0), "emptiness");
	if (n > 0) {
		CHECK(EQ(sc_queue_peek_first(q), o->m[o->lo]), "peek first");
		CHECK(EQ(sc_queue_peek_last(q), o->m[o->hi - 1]), "peek last");
	}
}

static void walk(struct sc_queue_e *q, struct model *o)
{
	size_t n = o->hi - o->lo, i = 0;
	elem e;

	for (i = 0; i < n; i++)
		CHECK(EQ(sc_queue_at(q, i), o->m[o->lo + i]), "access by position");
	i = 0;
	sc_queue_foreach (q, e) {
		CHECK(i < n && EQ(e, o->m[o->lo + i]), "iteration order");
		i++;
	}
	CHECK(i == n, "iteration visits every element");
}

static void op(struct sc_queue_e *q, struct model *o, int kind)
{
	int f = v_failed;
	elem e;

	switch (kind) {
	case 0:
		e = any();
		sc_queue_add_last(q, e);
		CHECK(sc_queue_oom(q) == (v_failed != f), "failure is reported, and only failure");
		if (v_failed == f)
			o->m[o->hi++] = e;
		break;
	case 1:
		e = any();
		sc_queue_add_first(q, e);
		CHECK(sc_queue_oom(q) == (v_failed != f), "failure is reported, and only failure");
		if (v_failed == f)
			o->m[--o->lo] = e;
		break;
	case 2:
		if (o->hi != o->lo) {
			e = sc_queue_del_first(q);
			CHECK(EQ(e, o->m[o->lo]), "del_first returns the first");
			o->lo++;
		}
		break;
	case 3:
		if (o->hi != o->lo) {
			e = sc_queue_del_last(q);
			CHECK(EQ(e, o->m[o->hi - 1]), "del_last returns the last");
			o->hi--;
		}
		break;
	default:
		sc_queue_clear(q);
		o->lo = o->hi = MID;
		break;
	}
	agree(q, o);
}

/* rotate the ring by r (down for odd how), fill it with n, run ops, drain */
static void run(size_t r, size_t n, size_t ops, size_t nops, int fail)
{
	struct sc_queue_e q;
	struct model o;
	elem e;

	v_reset(0);
	o.lo = o.hi = MID;
	sc_queue_init(&q);
	CHECK(!sc_queue_oom(&q), "init succeeds");
	agree(&q, &o);
	e = any();
	for (size_t i = 0; i < r; i++) {
		sc_queue_add_last(&q, e);
		(void) sc_queue_del_first(&q);
	}
	for (size_t i = 0; i < n; i++) {
		o.m[o.hi] = any();
		sc_queue_add_last(&q, o.m[o.hi]);
		o.hi++;
	}
	agree(&q, &o);
	v_fail_at = fail ? v_count + fail : 0;
	for (size_t i = 0; i < nops; i++, ops /= 4)
		op(&q, &o, (int) (ops % 4));
	walk(&q, &o);
	v_fail_at = 0;
	op(&q, &o, 1);
	op(&q, &o, 0);
	for (int i = 0; o.hi != o.lo; i++)
		op(&q, &o, i % 3 == 1 ? 3 : 2);
	sc_queue_term(&q);
	CHECK(v_live == 0, "released once");
}

#ifndef FILL
#define FILL 7
#endif
#if NOPS == 2
#define POW 16
#elif NOPS == 3
#define POW 64
#else
#define POW 256
#endif

void h_ops(void)
{
	FOR_CASE(c, 8 * POW)
	{
#ifndef DEEP
		if (c / POW != 0 && c / POW != 1 && c / POW != 4 && c / POW != 7)
			continue;
#endif
		run(c / POW, FILL, c % POW, NOPS, 0);
		if (c == 8 * POW - 1)
			REACH("last sequence");
	}
}

/* an element beyond the first growth as well: 15 elements, seam anywhere */
void h_big(void)
{
	FOR_CASE(c, 8 * 4)
	{
		run(c / 4, 15, c % 4, 1, 0);
		if (c == 31)
			REACH("second growth");
	}
}

/* growth fails: nothing changes; with room, additions work again */
void h_fail(void)
{
	FOR_CASE(c, 8 * 16)
	{
		if (c / 16 != 0 && c / 16 != 1 && c / 16 != 5)
			continue;
		/* the first addition fails, then two operations */
		run(c / 16, 7, (c % 16) * 4 + (c / 16 & 1), 3, 1);
		if (c == 0)
			REACH("failing growth");
	}
}

/* no memory from the start */
void h_init_fail(void)
{
	struct sc_queue_e q;
	v_reset(1);
	sc_queue_init(&q);
	CHECK(sc_queue_oom(&q), "init reports failure");
	CHECK(sc_queue_size(&q) == 0 && sc_queue_empty(&q), "empty");
	elem e = any();
	sc_queue_add_last(&q, e);
	CHECK(sc_queue_oom(&q) && sc_queue_size(&q) == 0, "addition reports failure");
	sc_queue_add_first(&q, e);
	CHECK(sc_queue_oom(&q) && sc_queue_size(&q) == 0, "addition reports failure");
	sc_queue_term(&q);
	CHECK(v_live == 0, "nothing leaks");
	REACH("no memory");
}

/* clear and reuse */
void h_clear(void)
{
	FOR_CASE(c, 16)
	{
		struct sc_queue_e q;
		struct model o;
		v_reset(0);
		o.lo = o.hi = MID;
		sc_queue_init(&q);
		for (size_t i = 0; i < c; i++)
			op(&q, &o, i & 1);
		op(&q, &o, 4);
		op(&q, &o, 0);
		op(&q, &o, 1);
		op(&q, &o, 1);
		walk(&q, &o);
		sc_queue_term(&q);
		CHECK(v_live == 0, "released once");
		if (c == 15)
			REACH("cleared");
	}
}

/* the configured limit is respected and reported */
void h_limit(void)
{
	struct sc_queue_e q;
	struct model o;
	size_t refused = 0;
	elem e;

	v_reset(0);
	o.lo = o.hi = MID;
	sc_queue_init(&q);
	for (int i = 0; i < 20; i++) {
		e = any();
		sc_queue_add_last(&q, e);
		if (!sc_queue_oom(&q))
			o.m[o.hi++] = e;
		else
			refused++;
		agree(&q, &o);
	}
	walk(&q, &o);
	CHECK(v_failed == 0, "allocator never refuses here");
	CHECK(v_last_size / sizeof(elem) <= SC_QUEUE_MAX, "never asks for more elements than the limit");
	REACH_IF(refused > 0, "limit hit");
	op(&q, &o, 2);
	e = any();
	sc_queue_add_last(&q, e);
	CHECK(!sc_queue_oom(&q), "additions work again when there is room");
	sc_queue_term(&q);
	CHECK(v_live == 0, "released once");
}

/* any capacity: growth asks for twice the ring or reports failure */
void h_huge(void)
{
	struct sc_queue_e q;
	size_t lg = (size_t) nd_range(3, 63), n = (size_t) 1 << lg;
	elem e = any();

	v_reset(0);
	v_max_alloc = 0;
	v_req_size = 0;
	sc_queue_init(&q); /* fails */
	ASSUME(n <= SIZE_MAX / sizeof(elem));
	q.oom = false;
	q.cap = n;
	q.last = n - 1;
	v_req_size = 0;
	sc_queue_add_last(&q, e);
	CHECK(sc_queue_oom(&q) && q.cap == n && q.last == n - 1 && q.first == 0, "failed add changes nothing");
	CHECK(v_req_size == 0 || v_req_size / sizeof(elem) > n, "request covers the elements");
	REACH_IF(v_req_size == 0, "limit");
	REACH_IF(v_req_size > 0, "request");
}
