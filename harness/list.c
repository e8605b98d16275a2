/* L01: intrusive doubly linked list against plain sequences. */
#include "verif.h"
#include "sc_list.h"

#ifndef NN
#define NN 4 /* nodes */
#endif
#ifndef NOPS
#define NOPS 3
#endif

/* n[0], n[1]: lists; n[2..]: elements */
#if NN > 6
#error
#endif
static struct sc_list n0, n1, n2, n3, n4, n5, n6, n7;
static struct sc_list *node(int i)
{
	switch (i) {
	case 0: return &n0;
	case 1: return &n1;
	case 2: return &n2;
	case 3: return &n3;
	case 4: return &n4;
	case 5: return &n5;
	case 6: return &n6;
	default: return &n7;
	}
}
struct model {
	int seq[2][NN];
	int len[2];
};

static void init(struct model *o)
{
	for (int i = 0; i < 2 + NN; i++)
		sc_list_init(node(i));
	o->len[0] = o->len[1] = 0;
}

static void agree(struct model *o)
{
	struct sc_list *e;
	for (int l = 0; l < 2; l++) {
		int i = 0;
		CHECK(sc_list_count(node(l)) == (size_t) o->len[l], "count");
		CHECK(sc_list_is_empty(node(l)) == (o->len[l] == 0), "emptiness");
		CHECK(sc_list_head(node(l)) == (o->len[l] ? node(o->seq[l][0]) : NULL), "head");
		CHECK(sc_list_tail(node(l)) == (o->len[l] ? node(o->seq[l][o->len[l] - 1]) : NULL), "tail");
		sc_list_foreach (node(l), e) {
			CHECK(i < o->len[l], "no extra element forwards");
			if (i >= o->len[l])
				break;
			CHECK(e == node(o->seq[l][i]), "forward order");
			i++;
		}
		CHECK(i == o->len[l], "forward walk is complete");
		sc_list_foreach_r (node(l), e) {
			CHECK(i > 0, "no extra element backwards");
			if (i <= 0)
				break;
			i--;
			CHECK(e == node(o->seq[l][i]), "backward order");
		}
		CHECK(i == 0, "backward walk is complete");
	}
}

static void m_del(struct model *o, int x)
{
	for (int l = 0; l < 2; l++) {
		int k = 0;
		for (int i = 0; i < NN; i++)
			if (i < o->len[l] && o->seq[l][i] != x)
				o->seq[l][k++] = o->seq[l][i];
		o->len[l] = k;
	}
}

/* insert x into list l before position p */
static void m_ins(struct model *o, int l, int p, int x)
{
	for (int i = NN - 1; i > 0; i--)
		if (i > p)
			o->seq[l][i] = o->seq[l][i - 1];
	o->seq[l][p] = x;
	o->len[l]++;
}

static int pos(struct model *o, int l, int x)
{
	for (int i = 0; i < NN; i++)
		if (i < o->len[l] && o->seq[l][i] == x)
			return i;
	return -1;
}

static void op(struct model *o, int kind, int l, int x, int p)
{
	struct sc_list *r;
	switch (kind) {
	case 0:
		sc_list_add_head(node(l), node(x));
		m_del(o, x);
		m_ins(o, l, 0, x);
		break;
	case 1:
		sc_list_add_tail(node(l), node(x));
		m_del(o, x);
		m_ins(o, l, o->len[l], x);
		break;
	case 2:
	case 3:
		if (pos(o, l, p) < 0 || p == x)
			break;
		if (kind == 2)
			sc_list_add_after(node(l), node(p), node(x));
		else
			sc_list_add_before(node(l), node(p), node(x));
		m_del(o, x);
		m_ins(o, l, pos(o, l, p) + (kind == 2 ? 1 : 0), x);
		break;
	case 4:
		sc_list_del(node(l), node(x));
		m_del(o, x);
		break;
	case 5:
		r = sc_list_pop_head(node(l));
		CHECK(r == (o->len[l] ? node(o->seq[l][0]) : NULL), "pop_head returns the first");
		if (r)
			m_del(o, o->seq[l][0]);
		break;
	case 6:
		r = sc_list_pop_tail(node(l));
		CHECK(r == (o->len[l] ? node(o->seq[l][o->len[l] - 1]) : NULL), "pop_tail returns the last");
		if (r)
			m_del(o, o->seq[l][o->len[l] - 1]);
		break;
	default:
		sc_list_clear(node(l));
		o->len[l] = 0;
		break;
	}
}

/*
 * Arbitrary rings over NR objects: nx is a permutation and pv its inverse,
 * which is every state any number of lists and detached elements can be in.
 * Expected links after an operation are computed on the permutation.
 */
#ifndef NR
#define NR 6
#endif
struct ring {
	int nx[NR], pv[NR];
};

static void any_ring(struct ring *r)
{
	for (int i = 0; i < NR; i++)
		r->nx[i] = (int) nd_range(0, NR - 1);
	for (int i = 0; i < NR; i++) {
		r->pv[i] = 0;
		for (int j = 0; j < NR; j++) {
			ASSUME(i == j || r->nx[i] != r->nx[j]);
			if (r->nx[j] == i)
				r->pv[i] = j;
		}
	}
	for (int i = 0; i < NR; i++) {
		node(i)->next = node(r->nx[i]);
		node(i)->prev = node(r->pv[i]);
	}
}

static void r_unlink(struct ring *r, int x)
{
	struct ring o = *r;
	for (int i = 0; i < NR; i++) {
		if (i == x)
			r->nx[i] = r->pv[i] = x;
		else {
			if (o.nx[i] == x)
				r->nx[i] = o.nx[x];
			if (o.pv[i] == x)
				r->pv[i] = o.pv[x];
		}
	}
}

static void r_link(struct ring *r, int p, int x)
{
	int q = 0;
	for (int i = 0; i < NR; i++)
		if (i == p)
			q = r->nx[i];
	for (int i = 0; i < NR; i++) {
		if (i == p)
			r->nx[i] = x;
		if (i == q)
			r->pv[i] = x;
	}
	for (int i = 0; i < NR; i++)
		if (i == x) {
			r->nx[i] = q;
			r->pv[i] = p;
		}
}

static int r_pv(struct ring *r, int x)
{
	int q = 0;
	for (int i = 0; i < NR; i++)
		if (i == x)
			q = r->pv[i];
	return q;
}

static int r_nx(struct ring *r, int x)
{
	int q = 0;
	for (int i = 0; i < NR; i++)
		if (i == x)
			q = r->nx[i];
	return q;
}

static void same(struct ring *r)
{
	for (int i = 0; i < NR; i++) {
		CHECK(node(i)->next == node(r->nx[i]), "forward links");
		CHECK(node(i)->prev == node(r->pv[i]), "backward links");
	}
}

static void step(int kind)
{
	struct ring r;
	struct sc_list *e;
	int l = (int) nd_range(0, NR - 1), x = (int) nd_range(0, NR - 1), p = (int) nd_range(0, NR - 1);

	any_ring(&r);
	switch (kind) {
	case 0:
		ASSUME(x != l);
		sc_list_add_head(node(l), node(x));
		r_unlink(&r, x);
		r_link(&r, l, x);
		break;
	case 1:
		ASSUME(x != l);
		sc_list_add_tail(node(l), node(x));
		r_unlink(&r, x);
		r_link(&r, r_pv(&r, l), x);
		break;
	case 2:
		ASSUME(x != p);
		sc_list_add_after(node(l), node(p), node(x));
		r_unlink(&r, x);
		r_link(&r, p, x);
		break;
	case 3:
		ASSUME(x != p);
		sc_list_add_before(node(l), node(p), node(x));
		r_unlink(&r, x);
		r_link(&r, r_pv(&r, p), x);
		break;
	case 4:
		sc_list_del(nd_bool() ? NULL : node(l), node(x));
		r_unlink(&r, x);
		same(&r);
		sc_list_del(NULL, node(x));
		break;
	case 5:
		e = sc_list_pop_head(node(l));
		x = r_nx(&r, l);
		CHECK(e == (x == l ? NULL : node(x)), "pop_head returns the first element");
		if (x != l)
			r_unlink(&r, x);
		break;
	case 6:
		e = sc_list_pop_tail(node(l));
		x = r_pv(&r, l);
		CHECK(e == (x == l ? NULL : node(x)), "pop_tail returns the last element");
		if (x != l)
			r_unlink(&r, x);
		break;
	default:
		CHECK(sc_list_is_empty(node(l)) == (r_nx(&r, l) == l), "emptiness");
		CHECK(sc_list_head(node(l)) == (r_nx(&r, l) == l ? NULL : node(r_nx(&r, l))), "head");
		CHECK(sc_list_tail(node(l)) == (r_nx(&r, l) == l ? NULL : node(r_pv(&r, l))), "tail");
		break;
	}
	same(&r);
	REACH_IF(l == 1 && r.nx[1] == 3 && r.nx[3] == 1, "some ring");
}

void h_step(void)
{
	FOR_CASE(k, 8) step((int) k);
}

/* walking and counting two lists of every length */
void h_walk(void)
{
	FOR_CASE(c, (NN + 1) * (NN + 1))
	{
		int a = (int) (c / (NN + 1)), b = (int) (c % (NN + 1));
		struct model o;
		if (a + b > NN)
			continue;
		init(&o);
		for (int i = 0; i < a + b; i++) {
			int l = i < a ? 0 : 1;
			if (i & 1)
				op(&o, 1, l, 2 + i, 0);
			else
				op(&o, 0, l, 2 + i, 0);
		}
		agree(&o);
		if (a == 1 && b == 2)
			REACH("two lists");
	}
}

/* safe iteration while any subset of the visited elements is removed */
void h_safe(void)
{
	FOR_CASE(a, NN + 1)
	{
		struct model o, k;
		struct sc_list *e, *t;
		int i = 0;
		unsigned mask = nd_u8();
		bool back = nd_bool();
		init(&o);
		k.len[0] = k.len[1] = 0;
		for (int j = 0; j < (int) a; j++) {
			sc_list_add_tail(node(0), node(2 + j));
			o.seq[0][o.len[0]++] = 2 + j;
			if (!(mask >> j & 1))
				k.seq[0][k.len[0]++] = 2 + j;
		}
		if (!back) {
			sc_list_foreach_safe (node(0), t, e) {
				CHECK(i < (int) a && e == node(2 + i), "visits every element in order");
				if (i >= (int) a)
					break;
				if (mask >> i & 1)
					sc_list_del(node(0), e);
				i++;
			}
			CHECK(i == (int) a, "visits every element");
		} else {
			i = (int) a;
			sc_list_foreach_safe_r (node(0), t, e) {
				i--;
				CHECK(i >= 0 && e == node(2 + i), "visits every element in reverse order");
				if (i < 0)
					break;
				if (mask >> i & 1)
					sc_list_del(node(0), e);
			}
			CHECK(i == 0, "visits every element");
		}
		agree(&k);
		if (a == NN)
			REACH_IF(back && mask == 5, "removal while walking backwards");
	}
}

/* clearing detaches every element */
void h_clear(void)
{
	FOR_CASE(a, NN + 1)
	{
		struct model o;
		init(&o);
		for (int j = 0; j < (int) a; j++)
			sc_list_add_tail(node(0), node(2 + j));
		sc_list_clear(node(0));
		agree(&o);
		int x = (int) nd_range(2, 1 + NN);
		CHECK(sc_list_is_empty(node(x)), "cleared elements are detached");
		sc_list_del(node(0), node(x));
		agree(&o);
		if (a == NN)
			REACH("full list cleared");
	}
}

struct item {
	uint64_t a;
	struct sc_list l;
	uint64_t b;
};

/* entry macro recovers the enclosing object */
void h_entry(void)
{
	struct item it[2];
	struct sc_list *e;
	int i = 0;
	init(&(struct model){0});
	for (int j = 0; j < 2; j++) {
		it[j].a = nd_u64();
		it[j].b = nd_u64();
		sc_list_init(&it[j].l);
		sc_list_add_tail(node(0), &it[j].l);
	}
	sc_list_foreach (node(0), e) {
		struct item *p = sc_list_entry(e, struct item, l);
		CHECK(p == &it[i] && p->a == it[i].a && p->b == it[i].b, "entry of the element");
		i++;
	}
	REACH("entries");
}
