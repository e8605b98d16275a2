#include "verif.h"
#include "sc_heap.h"

V_TYPED(heap, struct sc_heap_data)

/* H01: min-heap semantics, allocation failure changes nothing. */

#ifndef CAP
#define CAP 8
#endif
#ifndef NOPS
#define NOPS 4
#endif

static bool ordered(struct sc_heap *h)
{
	bool ok = true;
	for (size_t i = 2; i <= h->size; i++)
		if (h->elems[i / 2].key > h->elems[i].key)
			ok = false;
	return ok;
}

static int count(struct sc_heap *h, int64_t key, void *d)
{
	int c = 0;
	for (size_t i = 1; i <= h->size; i++)
		if (h->elems[i].key == key && h->elems[i].data == d)
			c++;
	return c;
}

static void any_heap(struct sc_heap *h, size_t n)
{
	v_reset(0);
	bool ok = sc_heap_init(h, CAP);
	ASSUME(ok);
	h->size = n;
	for (size_t i = 1; i <= n; i++) {
		h->elems[i].key = nd_i64();
		h->elems[i].data = (void *) (uintptr_t) nd_u8();
	}
	ASSUME(ordered(h));
}

/* one pop from an arbitrary heap: every history ending in a heap of < CAP */
void h_pop_step(void)
{
	FOR_CASE(n, CAP)
	{
		struct sc_heap hp, *h = &hp;
		any_heap(h, n);
		int64_t k = nd_i64();
		void *d = (void *) (uintptr_t) nd_u8();
		int before = count(h, k, d);
		struct sc_heap_data *p, *q;
		struct sc_heap_data pk = {0};

		q = sc_heap_peek(h);
		CHECK((q != NULL) == (n > 0), "peek answers iff not empty");
		if (q) {
			pk = *q;
			CHECK(!(before > 0) || pk.key <= k, "peek is a minimum");
		}
		CHECK(sc_heap_size(h) == n && count(h, k, d) == before, "peek changes nothing");

		p = sc_heap_pop(h);
		CHECK((p != NULL) == (n > 0), "pop answers iff not empty");
		if (p) {
			CHECK(p->key == pk.key && p->data == pk.data, "pop returns what peek showed");
			CHECK(!(before > 0) || p->key <= k, "pop returns a minimum");
			CHECK(sc_heap_size(h) == n - 1, "size decreases");
			int mine = (p->key == k && p->data == d) ? 1 : 0;
			CHECK(count(h, k, d) == before - mine, "exactly the popped element is removed");
			CHECK(ordered(h), "order preserved");
			if (n == CAP - 1)
				REACH_IF(h->elems[1].key < h->elems[2].key, "pop from a full heap");
		}
		sc_heap_clear(h);
		CHECK(sc_heap_size(h) == 0 && sc_heap_peek(h) == NULL && sc_heap_pop(h) == NULL,
		      "clear empties");
		sc_heap_term(h);
		CHECK(v_live == 0, "term releases");
	}
}

/* one add from an arbitrary heap, with and without growth, memory may run out */
static void add_case(size_t n, int fail)
{
	struct sc_heap hp, *h = &hp;

	any_heap(h, n);
	int64_t k = nd_i64(), nk = nd_i64();
	void *d = (void *) (uintptr_t) nd_u8(), *nd = (void *) (uintptr_t) nd_u8();
	int before = count(h, k, d);
	int mine = (nk == k && nd == d) ? 1 : 0;
	bool rc;

	v_fail_at = fail ? v_count + 1 : 0;
	rc = sc_heap_add(h, nk, nd);
	CHECK(rc == (v_failed == 0), "add reports failure exactly when memory ran out");
	if (!rc) {
		CHECK(sc_heap_size(h) == n, "failed add leaves size");
		CHECK(count(h, k, d) == before, "failed add leaves elements");
		CHECK(ordered(h), "failed add leaves order");
		rc = sc_heap_add(h, nk, nd);
		CHECK(rc, "usable after a failed add");
	}
	CHECK(sc_heap_size(h) == n + 1, "size grows");
	CHECK(count(h, k, d) == before + mine, "exactly one element is added");
	CHECK(ordered(h), "order preserved");
	if (n == CAP - 1)
		REACH_IF(h->elems[1].key == nk, "growth, new minimum");
	sc_heap_term(h);
	CHECK(v_live == 0, "term releases");
}

void h_add_step(void)
{
	FOR_CASE(n, CAP)
	add_case(n, 0);
}

void h_add_oom(void)
{
	add_case(CAP - 1, 1);
	REACH("growth fails and is retried");
}

/* call histories from init through the public API only, against a model */
static void history(unsigned mask, size_t cap, int fail)
{
	struct sc_heap hp, *h = &hp;
	int64_t mk[NOPS];
	void *md[NOPS];
	bool in[NOPS] = {0};
	size_t n = 0;

	v_reset(fail);
	if (!sc_heap_init(h, cap)) {
		CHECK(v_failed == 1 && cap > 0, "init fails only on allocation failure");
		CHECK(sc_heap_size(h) == 0 && sc_heap_pop(h) == NULL, "failed init leaves an empty heap");
		sc_heap_term(h);
		CHECK(v_live == 0, "nothing leaks");
		return;
	}
	for (int i = 0; i < NOPS; i++) {
		if (mask & (1u << i)) {
			int64_t k = nd_i64();
			void *d = (void *) (uintptr_t) nd_u8();
			int f = v_failed;
			bool rc = sc_heap_add(h, k, d);
			CHECK(rc == (v_failed == f), "add fails only on allocation failure");
			if (rc) {
				mk[i] = k;
				md[i] = d;
				in[i] = true;
				n++;
			}
		} else {
			struct sc_heap_data *p = sc_heap_pop(h);
			CHECK((p != NULL) == (n > 0), "pop answers iff not empty");
			if (p) {
				int found = -1;
				for (int j = 0; j < i; j++) {
					if (in[j]) {
						CHECK(p->key <= mk[j], "pop returns a minimum");
						if (found < 0 && mk[j] == p->key && md[j] == p->data)
							found = j;
					}
				}
				CHECK(found >= 0, "pop returns an element that was added");
				for (int j = 0; j < i; j++)
					if (j == found)
						in[j] = false;
				n--;
			}
		}
		CHECK(sc_heap_size(h) == n, "size counts the elements");
	}
	if (mask == (1u << NOPS) - 1 && cap == 0)
		REACH("all adds");
	sc_heap_term(h);
	CHECK(v_live == 0, "nothing leaks");
	CHECK(sc_heap_size(h) == 0 && sc_heap_pop(h) == NULL, "empty after term");
}

void h_history(void)
{
	FOR_CASE(mask, 1u << NOPS)
	{
		history(mask, 0, 0);
	}
	FOR_CASE(mask2, 1u << NOPS)
	{
		history(mask2, 2, 2);
	}
	v_reset(1);
	history(5, 3, 1);
}

/* init for every capacity value */
void h_init_any(void)
{
	struct sc_heap h;
	size_t cap = nd_size();
	v_reset(0);
	v_max_alloc = 64 * sizeof(struct sc_heap_data);
	bool rc = sc_heap_init(&h, cap);
	if (rc) {
		CHECK(cap <= 64, "init does not claim unavailable memory");
		CHECK(cap == 0 || v_last_size >= cap * sizeof(struct sc_heap_data), "allocation covers the capacity");
	}
	REACH_IF(rc && cap == 64, "largest capacity");
	REACH_IF(!rc, "refused capacity");
	CHECK(sc_heap_size(&h) == 0 && sc_heap_peek(&h) == NULL, "starts empty");
	sc_heap_term(&h);
	CHECK(v_live == 0, "nothing leaks");
}
