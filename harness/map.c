/* M01, M03: integer-keyed maps as dictionaries. */
#include "verif.h"
#include "sc_map.h"

#ifndef NM
#define NM 32
#define KT uint32_t
#define VT uint32_t
#endif
#define C2(a, b) a##b
#define C1(a, b) C2(a, b)
#define F(f) C1(C1(sc_map_, f), C1(_, NM))
#define MAP struct C1(sc_map_, NM)
#define ITEM struct C1(sc_map_item_, NM)
V_TYPED(map, ITEM)
typedef KT key_type;
typedef VT val_type;
#undef KT
#undef VT
#define KT key_type
#define VT val_type

#ifndef CAP
#define CAP 4
#endif
#ifndef REMAP
#define REMAP (CAP - 1) /* pairs held before growing */
#endif
#ifndef LF
#define LF 75
#endif

/* bits of keys and values that vary */
#ifndef KMASK
#define KMASK UINT64_MAX
#endif
#ifndef VMASK
#define VMASK UINT64_MAX
#endif
#ifndef STR
#define KEQ(a, b) ((a) == (b))
#define SETHASH(it)
static KT anyk(void)
{
	return (KT) (nd_u64() & KMASK);
}
#else
/*
 * String keys: NULL or one of the strings of up to two letters over {a, b},
 * each key in a buffer of its own.  The hash is any function of the content.
 */
static char pool[16][3];
static int npool;
static uint32_t hv[3][4];
static bool hv_set;
static bool keq(const char *a, const char *b)
{
	if (a == NULL || b == NULL)
		return a == b;
	return a[0] == b[0] && (a[0] == 0 || a[1] == b[1]);
}
#define KEQ(a, b) keq(a, b)
#ifndef REALHASH
uint32_t murmurhash(const char *k)
{
	if (!hv_set) {
		for (int i = 0; i < 3; i++)
			for (int j = 0; j < 4; j++)
				hv[i][j] = (uint32_t) nd_u64() & (uint32_t) KMASK;
		hv_set = true;
	}
	size_t a = k[0] == 0 ? 0 : k[0] == 'a' ? 1 : 2;
	size_t b = a == 0 || k[1] == 0 ? 0 : k[1] == 'a' ? 1 : 2;
	return hv[a][b];
}
#else
uint32_t murmurhash(const char *k);
#endif
#define SETHASH(it) ((it).hash = (it).key ? murmurhash((it).key) : 0)
static KT anyk(void)
{
	char *p = pool[npool++];
	uint64_t r = nd_u64();
	p[0] = (r & 1) ? 0 : (r & 2) ? 'a' : 'b';
	p[1] = p[0] == 0 || (r & 4) ? 0 : (r & 8) ? 'a' : 'b';
	p[2] = 0;
	return (r & 16) ? NULL : p;
}
#endif
static VT anyv(void)
{
	return (VT) (nd_u64() & VMASK);
}

/* what the map says about key k */
struct view {
	bool in;
	VT v;
};

static struct view look(MAP *m, KT k)
{
	struct view r;
	uint32_t n = F(size)(m);
	bool oom = sc_map_oom(m);
	r.v = F(get)(m, k);
	r.in = sc_map_found(m);
	CHECK(r.in || r.v == 0, "absent keys yield zero");
	CHECK(F(size)(m) == n && sc_map_oom(m) == oom, "get changes nothing");
	return r;
}

/* iteration yields every pair exactly once; k is an arbitrary key */
static void iterate(MAP *m, KT k, struct view w)
{
	KT ik;
	VT iv;
	uint32_t n = 0, hits = 0;
	sc_map_foreach (m, ik, iv) {
		n++;
		if (KEQ(ik, k)) {
			hits++;
			CHECK(w.in && w.v == iv, "iteration yields the stored value");
		}
	}
	CHECK(n == F(size)(m), "iteration yields as many pairs as the map holds");
	CHECK(hits == (w.in ? 1u : 0u), "iteration yields each key once");
	n = hits = 0;
	sc_map_foreach_key (m, ik) {
		n++;
		hits += KEQ(ik, k);
	}
	CHECK(n == F(size)(m) && hits == (w.in ? 1u : 0u), "key iteration");
	n = 0;
	sc_map_foreach_value (m, iv) {
		n++;
	}
	CHECK(n == F(size)(m), "value iteration");
}

/*
 * An arbitrary table: any slots, as long as the map finds every stored pair
 * under its key, keys are distinct and the size is right.
 */
/* full: the next new key grows the table; 2: either */
static void any_map(MAP *m, int full)
{
	uint32_t n = 0;
	v_reset(0);
	bool ok = F(init)(m, 0, LF);
	ASSUME(ok);
	m->mem = (ITEM *) vt_map_calloc(CAP + 1, sizeof(ITEM)) + 1;
	m->cap = CAP;
	m->remap = REMAP;
	m->oom = false;
	m->found = false;
	for (uint32_t i = 0; i < CAP; i++) {
		m->mem[i].key = anyk();
		m->mem[i].value = anyv();
		SETHASH(m->mem[i]);
		if (m->mem[i].key != 0)
			n++;
		for (uint32_t j = 0; j < i; j++)
			ASSUME(m->mem[i].key == 0 || !KEQ(m->mem[i].key, m->mem[j].key));
	}
	m->used = nd_bool();
	m->mem[-1].value = anyv();
	m->size = n + (m->used ? 1 : 0);
	ASSUME(m->size <= m->remap);
	ASSUME(full == 2 || (full == 1) == (m->size == m->remap));
	for (uint32_t i = 0; i < CAP; i++) {
		if (m->mem[i].key != 0) {
			VT v = F(get)(m, m->mem[i].key);
			ASSUME(sc_map_found(m) && v == m->mem[i].value);
		}
	}
	m->oom = nd_bool();
}

static void finish(MAP *m)
{
	F(term)(m);
	CHECK(v_live == 0, "term releases everything once");
}

/* put/get/del of any key on any table; any other key is not affected */
static void get_step(int full)
{
	MAP m;
	any_map(&m, full);
	KT k = anyk(), o = anyk();
	struct view a = look(&m, k), b = look(&m, o), c = look(&m, k);
	CHECK(a.in == c.in && a.v == c.v, "get is repeatable");
	CHECK(!KEQ(k, o) || (a.in == b.in && a.v == b.v), "same key, same answer");
	iterate(&m, k, a);
	REACH_IF(a.in && k == 0, "zero key");
	REACH_IF(a.in && k != 0, "present");
	REACH_IF(!a.in, "absent");
	finish(&m);
}

static void put_step(int full, bool oom)
{
	MAP m;
	any_map(&m, full);
	uint32_t n = F(size)(&m);
	KT k = anyk(), o = anyk();
	VT v = anyv();
	ASSUME(!KEQ(o, k));
	struct view kb = look(&m, k), ob = look(&m, o);
	int fails = v_failed;
	v_fail_at = oom ? v_count + 1 : 0;
	VT r = F(put)(&m, k, v);
	bool found = sc_map_found(&m);
	if (v_failed != fails) {
		CHECK(sc_map_oom(&m), "failed put is reported");
		struct view ka = look(&m, k), oa = look(&m, o);
		CHECK(F(size)(&m) == n && ka.in == kb.in && ka.v == kb.v, "failed put changes nothing");
		CHECK(oa.in == ob.in && oa.v == ob.v, "failed put keeps other pairs");
		v_fail_at = 0;
		r = F(put)(&m, k, v);
		found = sc_map_found(&m);
		REACH_IF(!sc_map_oom(&m) && found, "retry after failure");
	}
	CHECK(!sc_map_oom(&m), "no failure without running out of memory");
	CHECK(found == kb.in && r == kb.v, "put reports the previous value");
	CHECK(F(size)(&m) == n + (kb.in ? 0 : 1), "size counts the keys");
	struct view ka = look(&m, k), oa = look(&m, o);
	CHECK(ka.in && ka.v == v, "put stores the value");
	CHECK(oa.in == ob.in && oa.v == ob.v, "other pairs are kept");
	REACH_IF(!kb.in && ob.in, "new key");
	REACH_IF(kb.in && k == 0, "zero key replaced");
	finish(&m);
}

static void del_step(int full)
{
	MAP m;
	any_map(&m, full);
	uint32_t n = F(size)(&m);
	KT k = anyk(), o = anyk();
	ASSUME(!KEQ(o, k));
	struct view kb = look(&m, k), ob = look(&m, o);
	VT r = F(del)(&m, k);
	bool found = sc_map_found(&m);
	CHECK(found == kb.in && r == kb.v, "del reports the deleted value");
	CHECK(F(size)(&m) == n - (kb.in ? 1 : 0), "size counts the keys");
	struct view ka = look(&m, k), oa = look(&m, o);
	CHECK(!ka.in, "deleted key is gone");
	CHECK(oa.in == ob.in && oa.v == ob.v, "other pairs are kept");
	REACH_IF(kb.in && ob.in && k != 0 && o != 0, "deleted beside another");
	REACH_IF(kb.in && k == 0, "zero key deleted");
	REACH_IF(!kb.in, "absent key");
	finish(&m);
}

static void iter_step(int full)
{
	MAP m;
	any_map(&m, full);
	KT k = anyk();
	iterate(&m, k, look(&m, k));
	REACH_IF(F(size)(&m) == REMAP, "most pairs");
	F(clear)(&m);
	CHECK(F(size)(&m) == 0, "clear empties");
	struct view a = look(&m, k);
	CHECK(!a.in, "nothing is found after clear");
	VT v = anyv();
	VT r = F(put)(&m, k, v);
	CHECK(r == 0 && !sc_map_found(&m) && F(size)(&m) == 1, "usable after clear");
	a = look(&m, k);
	CHECK(a.in && a.v == v, "stored after clear");
	iterate(&m, k, a);
	finish(&m);
}

void h_get(void)
{
	get_step(2);
}
void h_put(void)
{
	put_step(0, false);
}
void h_put_grow(void)
{
	put_step(1, false);
}
void h_put_oom(void)
{
	put_step(1, true);
}
void h_del(void)
{
	del_step(2);
}
void h_iter(void)
{
	iter_step(2);
}

/*
 * Histories from init against a dictionary.  The program fixes which keys are
 * equal (f: put a new key, r: put the oldest live key again, d/D: delete the
 * oldest/newest live key, a: delete an absent key, c: clear); keys and values
 * are any.  Once the size has been checked it is pinned to the constant.
 */
#define MAXK 7
static void history(const char *prog, uint32_t cap, uint32_t lf, int fail)
{
	MAP m;
	KT k[MAXK];
	VT v[MAXK];
	bool in[MAXK];
	int nk = 0;
	uint32_t n = 0;
	v_reset(fail);
	if (!F(init)(&m, cap, lf)) {
		CHECK(v_failed == 1, "init fails only for lack of memory");
		CHECK(v_live == 0, "nothing leaks");
		return;
	}
	for (; *prog; prog++) {
		int f = v_failed, at = -1;
		VT r, nv = anyv();
		KT fresh = anyk();
		for (int j = 0; j < nk; j++) {
			ASSUME(!KEQ(fresh, k[j]));
			if (in[j] && (at < 0 || *prog == 'D'))
				at = j;
		}
		switch (*prog) {
		case 'f':
			r = F(put)(&m, fresh, nv);
			CHECK(sc_map_oom(&m) == (v_failed != f), "failure is reported, and only failure");
			if (v_failed != f)
				break;
			CHECK(!sc_map_found(&m) && r == 0, "a new key has no previous value");
			k[nk] = fresh;
			v[nk] = nv;
			in[nk++] = true;
			n++;
			break;
		case 'r':
			if (at < 0)
				break;
			r = F(put)(&m, k[at], nv);
			CHECK(sc_map_oom(&m) == (v_failed != f), "failure is reported, and only failure");
			if (v_failed != f)
				break;
			CHECK(sc_map_found(&m) && r == v[at], "put returns the previous value");
			v[at] = nv;
			break;
		case 'a':
			r = F(del)(&m, fresh);
			CHECK(!sc_map_found(&m) && r == 0, "nothing to delete");
			break;
		case 'c':
			F(clear)(&m);
			for (int j = 0; j < nk; j++)
				in[j] = false;
			n = 0;
			break;
		default:
			if (at < 0)
				break;
			r = F(del)(&m, k[at]);
			CHECK(sc_map_found(&m) && r == v[at], "del returns the deleted value");
			in[at] = false;
			n--;
			break;
		}
		CHECK(F(size)(&m) == n, "size counts the keys");
		m.size = n;
	}
	KT w = anyk(); /* any key at all */
	VT e = 0;
	bool ein = false;
	for (int j = 0; j < nk; j++)
		if (in[j] && KEQ(k[j], w)) {
			ein = true;
			e = v[j];
		}
	struct view a = look(&m, w);
	CHECK(a.in == ein && a.v == e, "the map agrees with the dictionary on every key");
	REACH_IF(nk > 0 && ein && a.in, "found at the end");
	finish(&m);
}

#ifndef PROGS
#define PROGS "fff"
#endif
static const char *const progs[] = {PROGS};
#define NPROG (sizeof(progs) / sizeof(*progs))
#ifndef HCAP
#define HCAP 0
#define HLF 25
#endif
void h_history(void)
{
	FOR_CASE(c, NPROG)
	{
		history(progs[c], HCAP, HLF, 0);
	}
}
/* the FAIL-th allocation fails */
#ifndef NFAIL
#define NFAIL 2
#endif
void h_history_oom(void)
{
	FOR_CASE(c, NPROG * NFAIL)
	{
		history(progs[c / NFAIL], HCAP, HLF, 1 + (int) (c % NFAIL));
	}
}

/* any capacity and load factor */
void h_init_any(void)
{
	MAP m;
	uint32_t cap = nd_u32(), lf = nd_u32();
	v_reset(0);
	v_max_alloc = 40 * sizeof(ITEM);
	bool ok = F(init)(&m, cap, lf);
	if (lf != 0 && (lf < 25 || lf > 95))
		CHECK(!ok, "invalid load factor is refused");
	if (!ok) {
		CHECK(v_live == 0, "nothing leaks");
		CHECK(v_failed > 0 || (lf != 0 && (lf < 25 || lf > 95)) || cap > UINT32_MAX / 2, "refused only with a reason");
		REACH_IF(cap > 1u << 31, "too many");
		return;
	}
	CHECK(cap == 0 || v_last_size / sizeof(ITEM) >= cap, "memory for the capacity");
	REACH_IF(ok && cap == 32, "largest capacity");
	REACH_IF(ok && cap == 0, "no capacity");
	CHECK(F(size)(&m) == 0, "starts empty");
	KT k = anyk();
	F(get)(&m, k);
	CHECK(!sc_map_found(&m), "nothing is found");
	finish(&m);
}

#if defined(STR) && defined(REALHASH)
/* the real hash: any content, every length, exactly its bytes are read */
void h_content(void)
{
	const size_t n = LEN;
	v_reset(0);
	char *s = malloc(n + 1), *t = malloc(n + 1), *u = malloc(n + 1 + OTHER);
	ASSUME(s && t && u);
	for (size_t i = 0; i < n; i++) {
		s[i] = (char) (i < SYMB ? nd_u8() : (unsigned) i + 1);
		ASSUME(s[i] != 0);
		t[i] = s[i];
	}
	s[n] = t[n] = 0;
	/* a different string: one byte differs or it is longer */
	for (size_t i = 0; i < n + OTHER; i++)
		u[i] = i < n ? s[i] : 'x';
	u[n + OTHER] = 0;
	if (!OTHER && n > 0) {
		u[n / 2] = (char) nd_u8();
		ASSUME(u[n / 2] != s[n / 2]);
	}
	v_known_len(s, n);
	v_known_len(t, n);
	v_known_len(u, n + OTHER);
	MAP m;
	bool ok = F(init)(&m, 0, 0);
	CHECK(ok, "init");
	VT v = anyv(), r;
	F(put)(&m, s, v);
	CHECK(!sc_map_found(&m) && !sc_map_oom(&m), "new");
	r = F(get)(&m, t);
	CHECK(sc_map_found(&m) && r == v, "found through any copy");
	if (OTHER || n > 0) {
		F(get)(&m, u);
		CHECK(!sc_map_found(&m), "a different string is not found");
	}
	F(get)(&m, NULL);
	CHECK(!sc_map_found(&m), "NULL is not a string");
	CHECK(F(size)(&m) == 1, "one key");
	finish(&m);
	REACH("end");
}
#endif
