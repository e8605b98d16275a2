#include "verif.h"
#include <stdarg.h>
#include "sc_buf.h"

V_TYPED(buf, unsigned char)

/* B01-B03: sc_buf */

#ifndef N
#define N 12
#endif

/* ---- formatting stub: one call of put_fmt/put_text formats one text --------*/
#define TMAX 12
static char t_text[TMAX];
static int t_len;     /* what vsnprintf returns */
static int t_fail_at; /* call number that fails (0: none) */
static int t_calls;
static void t_arm(int len, int fail_at)
{
	for (int i = 0; i < TMAX; i++)
		t_text[i] = (char) (1 + nd_range(0, 126));
	t_len = len;
	t_fail_at = fail_at;
	t_calls = 0;
}
int v_vsnprintf(char *dst, size_t n, const char *fmt, va_list va)
{
	(void) fmt;
	(void) va;
	if (++t_calls == t_fail_at)
		return -1;
	for (int i = 0; i <= t_len && i < TMAX; i++) {
		if ((size_t) i + 1 == n || i == t_len) {
			if ((size_t) i < n)
				dst[i] = '\0';
			break;
		}
		if ((size_t) i < n)
			dst[i] = t_text[i];
	}
	return t_len;
}
int v_snprintf(char *dst, size_t n, const char *fmt, ...)
{
	int rc;
	va_list va;
	va_start(va, fmt);
	rc = v_vsnprintf(dst, n, fmt, va);
	va_end(va);
	return rc;
}

/* ---- helpers ---------------------------------------------------------------*/
static unsigned char *fresh(size_t n)
{
	unsigned char *p = malloc(n);
	ASSUME(p != NULL);
	for (size_t i = 0; i < n; i++)
		p[i] = nd_u8();
	return p;
}

static uint64_t le(const unsigned char *p, uint64_t pos, int bytes)
{
	uint64_t v = 0;
	for (int i = bytes - 1; i >= 0; i--)
		v = v << 8 | p[pos + i];
	return v;
}

static bool fits(uint64_t pos, uint64_t len, uint64_t end)
{
	return pos <= end && len <= end - pos;
}

struct pre {
	uint64_t rpos, wpos, cap;
	unsigned int err;
	unsigned char copy[N];
};

static void arbitrary(struct sc_buf *b, struct pre *p, int may_err)
{
	unsigned char *m = fresh(N);
	*b = sc_buf_wrap(m, N, SC_BUF_REF);
	b->wpos = nd_range(0, N);
	b->rpos = nd_range(0, N);
	ASSUME(b->rpos <= b->wpos);
	b->err = may_err && nd_bool() ? (nd_bool() ? SC_BUF_CORRUPT : SC_BUF_OOM) : 0;
	p->rpos = b->rpos;
	p->wpos = b->wpos;
	p->cap = b->cap;
	p->err = b->err;
	for (int i = 0; i < N; i++)
		p->copy[i] = m[i];
}

static void invariant(struct sc_buf *b, struct pre *p)
{
	CHECK(b->rpos <= b->wpos && b->wpos <= b->cap, "rpos <= wpos <= cap");
	CHECK(b->cap == p->cap, "capacity unchanged");
	CHECK(p->err == 0 || !sc_buf_valid(b), "invalid buffers stay invalid");
	CHECK(sc_buf_size(b) == b->wpos - b->rpos && sc_buf_quota(b) == b->cap - b->wpos,
	      "size and quota");
}

static void same_mem(struct sc_buf *b, struct pre *p)
{
	size_t i = nd_range(0, N - 1);
	CHECK(b->mem[i] == p->copy[i], "reading changes no byte");
}

/* ---- B01 / B02: one reading operation on arbitrary content -------------------*/
void h_get(void)
{
	FOR_CASE(op, 15)
	{
		struct sc_buf b;
		struct pre p;
		arbitrary(&b, &p, 1);
		uint64_t pos = nd_u64(), v = 0, at = p.rpos;
		int sz;
		bool moves = false;

		switch (op) {
		case 0: v = sc_buf_get_8(&b); sz = 1; moves = true; break;
		case 1: v = sc_buf_get_16(&b); sz = 2; moves = true; break;
		case 2: v = sc_buf_get_32(&b); sz = 4; moves = true; break;
		case 3: v = sc_buf_get_64(&b); sz = 8; moves = true; break;
		case 4: v = sc_buf_get_bool(&b); sz = 1; moves = true; break;
		case 5: { double d = sc_buf_get_double(&b); memcpy(&v, &d, 8); sz = 8; moves = true; break; }
		case 6: v = sc_buf_peek_8(&b); sz = 1; break;
		case 7: v = sc_buf_peek_16(&b); sz = 2; break;
		case 8: v = sc_buf_peek_32(&b); sz = 4; break;
		case 9: v = sc_buf_peek_64(&b); sz = 8; break;
		case 10: v = sc_buf_peek_8_at(&b, pos); sz = 1; at = pos; break;
		case 11: v = sc_buf_peek_16_at(&b, pos); sz = 2; at = pos; break;
		case 12: v = sc_buf_peek_32_at(&b, pos); sz = 4; at = pos; break;
		case 13: v = sc_buf_peek_64_at(&b, pos); sz = 8; at = pos; break;
		default: sc_buf_set_rpos(&b, pos); sz = 0; break;
		}
		invariant(&b, &p);
		same_mem(&b, &p);
		CHECK(b.wpos == p.wpos, "reading leaves the write position");
		if (op == 14) {
			CHECK(b.rpos == (pos <= p.wpos ? pos : p.rpos), "set_rpos moves within the data only");
			CHECK(pos <= p.wpos || !sc_buf_valid(&b), "set_rpos reports bad positions");
			CHECK(pos > p.wpos || b.err == p.err, "good position keeps validity");
			REACH_IF(pos > p.wpos, "bad read position");
			continue;
		}
		bool ok = p.err == 0 && fits(at, sz, p.wpos);
		CHECK(ok || v == 0, "a request that does not fit returns zero");
		CHECK(sc_buf_valid(&b) == ok, "valid exactly if the request fits");
		CHECK(b.rpos == p.rpos + (ok && moves ? sz : 0), "read position");
#ifdef LAYOUT
		if (ok && op != 4)
			CHECK(v == le(p.copy, at, sz), "little-endian value");
		if (ok && op == 4)
			CHECK(v == (p.copy[at] != 0), "bool value");
#endif
		if (op == 13)
			REACH_IF(ok && at == 2, "64-bit value in the middle");
		free(b.mem);
	}
}

/* ---- B01: variable-length reads with arbitrary lengths -----------------------*/
void h_get_var(void)
{
	FOR_CASE(op, 4)
	{
		struct sc_buf b;
		struct pre p;
		arbitrary(&b, &p, 1);
		uint64_t len = nd_u64(), pos = nd_u64();
		unsigned char dst[4];

		if (op == 0) {
			const char *s = sc_buf_get_str(&b);
			bool okl = p.err == 0 && fits(p.rpos, 8, p.wpos);
			if (s != NULL) {
				uint64_t l = le(p.copy, p.rpos, 8);
				CHECK(okl && fits(p.rpos + 8, l, p.wpos) && l < p.wpos - (p.rpos + 8),
				      "string lies inside the readable data");
				CHECK((unsigned char *) s == b.mem + p.rpos + 8, "string starts after its length");
				CHECK(s[l] == '\0', "string is terminated inside the data");
				CHECK(b.rpos == p.rpos + 8 + l + 1, "read position after the string");
				CHECK(sc_buf_valid(&b), "valid");
				REACH_IF(l == 2, "string of two bytes");
			} else {
				bool nul = okl && le(p.copy, p.rpos, 8) == UINT64_MAX - 4096;
				CHECK(sc_buf_valid(&b) == nul, "NULL without error only for the NULL marker");
				CHECK(b.rpos == p.rpos + (okl ? 8 : 0), "read position");
				REACH_IF(okl && !nul, "bad string length");
			}
		} else if (op == 1) {
			unsigned char *q = sc_buf_get_blob(&b, len);
			bool ok = fits(p.rpos, len, p.wpos) && len != 0;
			if (q) {
				CHECK(ok, "blob lies inside the readable data");
				CHECK(q == b.mem + p.rpos, "blob address");
			} else if (p.err == 0) {
				CHECK(!ok, "blob that fits is returned");
				CHECK(len == 0 || !sc_buf_valid(&b), "error reported");
			}
			CHECK(b.rpos == p.rpos + (q ? len : 0), "read position");
			CHECK(p.err || ok || len == 0 || !sc_buf_valid(&b), "blob that does not fit is reported");
			REACH_IF(len > N && !q, "huge blob");
		} else if (op == 2) {
			len = nd_range(0, 4);
			for (int i = 0; i < 4; i++)
				dst[i] = 0xEE;
			sc_buf_get_data(&b, dst, len);
			bool ok = p.err == 0 && fits(p.rpos, len, p.wpos);
			CHECK(sc_buf_valid(&b) == ok, "valid exactly if the data is there");
			CHECK(b.rpos == p.rpos + (ok ? len : 0), "read position");
			for (uint64_t i = 0; i < 4; i++) {
				if (i < len)
					CHECK(dst[i] == (ok ? p.copy[p.rpos + i] : 0), "destination bytes");
				else
					CHECK(dst[i] == 0xEE, "nothing beyond the length is written");
			}
		} else {
			len = nd_range(0, 4);
			for (int i = 0; i < 4; i++)
				dst[i] = 0xEE;
			uint64_t rc = sc_buf_peek_data(&b, pos, dst, len);
			bool ok = p.err == 0 && fits(pos, len, p.wpos);
			CHECK(sc_buf_valid(&b) == ok, "valid exactly if the data is there");
			CHECK(rc == (ok ? len : 0), "returned count");
			CHECK(b.rpos == p.rpos, "peek does not move");
			for (uint64_t i = 0; i < 4; i++) {
				if (i < len)
					CHECK(dst[i] == (ok ? p.copy[pos + i] : 0), "destination bytes");
				else
					CHECK(dst[i] == 0xEE, "nothing beyond the length is written");
			}
		}
		invariant(&b, &p);
		same_mem(&b, &p);
		CHECK(b.wpos == p.wpos, "reading leaves the write position");
		free(b.mem);
	}
}

/* ---- B01 / B02: writes at a position -------------------------------------------*/
void h_set(void)
{
	FOR_CASE(op, 10)
	{
		struct sc_buf b;
		struct pre p;
		arbitrary(&b, &p, 1);
		uint64_t pos = nd_u64(), v = nd_u64(), at = pos, len = 0;
		unsigned char src[4];
		int sz = 0;

		for (int i = 0; i < 4; i++)
			src[i] = nd_u8();
		switch (op) {
		case 0: sc_buf_set_8_at(&b, pos, (uint8_t) v); sz = 1; break;
		case 1: sc_buf_set_16_at(&b, pos, (uint16_t) v); sz = 2; break;
		case 2: sc_buf_set_32_at(&b, pos, (uint32_t) v); sz = 4; break;
		case 3: sc_buf_set_64_at(&b, pos, v); sz = 8; break;
		case 4: sc_buf_set_8(&b, (uint8_t) v); sz = 1; at = p.wpos; break;
		case 5: sc_buf_set_16(&b, (uint16_t) v); sz = 2; at = p.wpos; break;
		case 6: sc_buf_set_32(&b, (uint32_t) v); sz = 4; at = p.wpos; break;
		case 7: sc_buf_set_64(&b, v); sz = 8; at = p.wpos; break;
		case 8:
			len = nd_range(0, 4);
			sz = (int) len;
			{
				uint64_t rc = sc_buf_set_data(&b, pos, src, len);
				CHECK(rc == (p.err == 0 && fits(pos, len, N) ? len : 0), "returned count");
			}
			break;
		default:
			len = pos;
			ASSUME(pos >= p.rpos);
			sc_buf_set_wpos(&b, pos);
			break;
		}
		CHECK(b.rpos <= b.wpos && b.wpos <= b.cap, "rpos <= wpos <= cap");
		CHECK(b.cap == N && b.rpos == p.rpos, "capacity and read position unchanged");
		CHECK(p.err == 0 || !sc_buf_valid(&b), "invalid buffers stay invalid");
		if (op == 9) {
			CHECK(b.wpos == (pos <= N ? pos : p.wpos), "set_wpos moves within the capacity only");
			CHECK(pos <= N || !sc_buf_valid(&b), "bad write position reported");
			same_mem(&b, &p);
			continue;
		}
		bool ok = p.err == 0 && fits(at, sz, N);
		CHECK(b.wpos == p.wpos, "set does not move the write position");
		CHECK(sc_buf_valid(&b) == ok, "valid exactly if it fits");
		for (uint64_t i = 0; i < N; i++) {
			unsigned char want = p.copy[i];
#ifdef LAYOUT
			if (ok && i >= at && i - at < (uint64_t) sz)
				want = op == 8 ? src[(i - at) & 3] : (unsigned char) (v >> (8 * (i - at)));
#else
			if (ok && i >= at && i - at < (uint64_t) sz)
				continue;
#endif
			CHECK(b.mem[i] == want, "exactly the addressed bytes change");
		}
		if (op == 3)
			REACH_IF(ok && at == 4, "64-bit set at the end");
		free(b.mem);
	}
}

/* ---- B02: put then get, one value of each kind, any start offset -------------------*/
static void put_get(int kind, uint64_t cap, uint64_t off, uint64_t len)
{
	struct sc_buf b;
	uint64_t v = nd_u64(), w0;
	double d, e;
	char s[5];
	const char *r;
	unsigned char *q;

	v_reset(0);
	ASSUME(sc_buf_init(&b, cap));
	/* a prefix of `off` bytes, already read */
	for (uint64_t i = 0; i < off; i++)
		sc_buf_put_8(&b, (uint8_t) (0x10 + i));
	sc_buf_set_rpos(&b, off);
	w0 = sc_buf_wpos(&b);
	CHECK(w0 == off, "prefix written");
	for (uint64_t i = 0; i < len; i++)
		s[i] = (char) (kind == 6 ? 1 + nd_range(0, 254) : nd_u8());
	s[len] = '\0';

	switch (kind) {
	case 0:
		sc_buf_put_8(&b, (uint8_t) v);
		CHECK(sc_buf_wpos(&b) - w0 == sc_buf_8_len((uint8_t) v), "encoded length");
		CHECK(sc_buf_peek_8(&b) == (uint8_t) v && sc_buf_get_8(&b) == (uint8_t) v, "8-bit round trip");
		break;
	case 1:
		sc_buf_put_16(&b, (uint16_t) v);
		CHECK(sc_buf_wpos(&b) - w0 == sc_buf_16_len((uint16_t) v), "encoded length");
		CHECK(sc_buf_peek_16(&b) == (uint16_t) v && sc_buf_get_16(&b) == (uint16_t) v, "16-bit round trip");
		break;
	case 2:
		sc_buf_put_32(&b, (uint32_t) v);
		CHECK(sc_buf_wpos(&b) - w0 == sc_buf_32_len((uint32_t) v), "encoded length");
		CHECK(sc_buf_peek_32(&b) == (uint32_t) v && sc_buf_get_32(&b) == (uint32_t) v, "32-bit round trip");
		break;
	case 3:
		sc_buf_put_64(&b, v);
		CHECK(sc_buf_wpos(&b) - w0 == sc_buf_64_len(v), "encoded length");
		CHECK(sc_buf_peek_64(&b) == v && sc_buf_get_64(&b) == v, "64-bit round trip");
		break;
	case 4:
		memcpy(&d, &v, 8);
		sc_buf_put_double(&b, d);
		CHECK(sc_buf_wpos(&b) - w0 == sc_buf_double_len(d), "encoded length");
		e = sc_buf_get_double(&b);
		uint64_t ev;
		memcpy(&ev, &e, 8);
		CHECK(ev == v, "double round trip");
		break;
	case 5:
		sc_buf_put_bool(&b, v & 1);
		CHECK(sc_buf_wpos(&b) - w0 == sc_buf_bool_len(v & 1), "encoded length");
		CHECK(sc_buf_get_bool(&b) == (v & 1), "bool round trip");
		break;
	case 6:
		sc_buf_put_str(&b, s);
		CHECK(sc_buf_wpos(&b) - w0 == sc_buf_str_len(s), "encoded length");
		CHECK(sc_buf_peek_64(&b) == len, "length prefix");
		r = sc_buf_get_str(&b);
		CHECK(r != NULL && memcmp(r, s, len + 1) == 0, "string round trip");
		break;
	case 7:
		sc_buf_put_str(&b, NULL);
		CHECK(sc_buf_wpos(&b) - w0 == sc_buf_str_len(NULL), "encoded length");
		r = sc_buf_get_str(&b);
		CHECK(r == NULL && sc_buf_valid(&b), "NULL string round trip");
		break;
	case 8:
		sc_buf_put_str_len(&b, s, len);
		CHECK(sc_buf_wpos(&b) - w0 == 8 + len + 1, "encoded length");
		CHECK(sc_buf_peek_64(&b) == len, "length prefix");
		r = sc_buf_get_str(&b);
		CHECK(r != NULL && memcmp(r, s, len) == 0 && r[len] == '\0', "string with length round trip");
		break;
	case 9:
		sc_buf_put_str_len(&b, NULL, len);
		CHECK(sc_buf_wpos(&b) - w0 == 8, "encoded length");
		CHECK(sc_buf_get_str(&b) == NULL && sc_buf_valid(&b), "NULL string round trip");
		break;
	case 10:
		sc_buf_put_blob(&b, s, len);
		CHECK(sc_buf_wpos(&b) - w0 == sc_buf_blob_len(s, len), "encoded length");
		CHECK(sc_buf_get_64(&b) == len, "blob length prefix");
		q = sc_buf_get_blob(&b, len);
		CHECK(len == 0 ? q == NULL : (q != NULL && memcmp(q, s, len) == 0), "blob round trip");
		break;
	case 11:
		sc_buf_put_raw(&b, s, len);
		CHECK(sc_buf_wpos(&b) - w0 == len, "raw bytes are written as they are");
		char o[4];
		sc_buf_get_data(&b, o, len);
		CHECK(memcmp(o, s, len) == 0, "raw round trip");
		break;
	case 12:
		t_arm((int) len, 0);
		sc_buf_put_fmt(&b, "%s", "x");
		CHECK(sc_buf_wpos(&b) - w0 == 8 + len + 1, "encoded length");
		CHECK(sc_buf_peek_64(&b) == len, "length prefix");
		r = sc_buf_get_str(&b);
		CHECK(r != NULL && memcmp(r, t_text, len) == 0 && r[len] == '\0', "formatted string round trip");
		break;
	}
	CHECK(sc_buf_valid(&b), "no error");
	CHECK(sc_buf_size(&b) == 0, "everything is consumed");
	for (uint64_t i = 0; i < off; i++)
		CHECK(sc_buf_peek_8_at(&b, i) == 0x10 + i, "earlier bytes are kept");
	sc_buf_term(&b);
	CHECK(v_live == 0, "nothing leaks");
}

/* every kind, several offsets and lengths; cap bytes are available at first */
#ifndef KLO
#define KLO 0
#define KHI 13
#endif
static void put_get_all(uint64_t cap)
{
#ifdef DEEP
	static const uint64_t offs[3] = {0, 1, 4};
	static const uint64_t lens[3] = {0, 1, 4};
	const size_t no = 3, nl = 3;
#else
	static const uint64_t offs[2] = {1, 4};
	static const uint64_t lens[2] = {0, 3};
	const size_t no = cap == 4 ? 1 : 2, nl = 2;
#endif
	FOR_CASE(k, (KHI - KLO) * no)
	{
		int kind = KLO + (int) (k / no);
		uint64_t off = offs[no == 1 ? 1 : k % no];
		if (kind < 6 || kind == 7 || kind == 9) {
			put_get(kind, cap, off, 2);
		} else {
			for (size_t l = 0; l < nl; l++)
				put_get(kind, cap, off, lens[l]);
		}
		if (kind == KHI - 1)
			REACH("last kind");
	}
}

void h_put_get(void)
{
	put_get_all(32);
}

void h_put_get_grow(void)
{
	put_get_all(4);
}

/* formatted strings at every distance from the end of the capacity */
void h_fmt_fit(void)
{
	FOR_CASE(cap, 17)
	{
#ifdef DEEP
		put_get(12, cap, 0, 0);
		put_get(12, cap, 2, 2);
		put_get(12, cap, 0, 4);
#endif
		put_get(12, cap, 0, 3);
		put_get(12, cap, 2, 1);
		if (cap == 12)
			REACH("text fits except for the nul");
	}
}

/* sequences of mixed values, growing from nothing, vs. the list of values */
void h_sequence(void)
{
	FOR_CASE(seq, 81)
	{
		struct sc_buf b;
		uint64_t v[4];
		size_t s = seq;
		v_reset(0);
		ASSUME(sc_buf_init(&b, 0));
		uint64_t len = 0;
		for (int i = 0; i < 4; i++, s /= 3) {
			v[i] = nd_u64();
			switch (s % 3) {
			case 0: sc_buf_put_16(&b, (uint16_t) v[i]); len += 2; break;
			case 1: sc_buf_put_64(&b, v[i]); len += 8; break;
			default: sc_buf_put_8(&b, (uint8_t) v[i]); len += 1; break;
			}
		}
		CHECK(sc_buf_size(&b) == len && sc_buf_valid(&b), "sizes add up");
		s = seq;
		for (int i = 0; i < 4; i++, s /= 3) {
			switch (s % 3) {
			case 0: CHECK(sc_buf_get_16(&b) == (uint16_t) v[i], "value in order"); break;
			case 1: CHECK(sc_buf_get_64(&b) == v[i], "value in order"); break;
			default: CHECK(sc_buf_get_8(&b) == (uint8_t) v[i], "value in order"); break;
			}
		}
		CHECK(sc_buf_size(&b) == 0 && sc_buf_valid(&b), "consumed");
		if (seq == 5)
			REACH("sequence");
		sc_buf_term(&b);
	}
}

/* ---- B03 ---------------------------------------------------------------------------*/

/* reserve: any position, any 64-bit length, any limit, growth may fail */
static void reserve_case(uint64_t cap, int ref, int fail)
{
	struct sc_buf b;
	v_reset(0);
	unsigned char *own = NULL;
	if (ref) {
		own = fresh(cap);
		b = sc_buf_wrap(own, cap, SC_BUF_REF);
	} else {
		ASSUME(sc_buf_init(&b, cap));
		if (nd_bool())
			sc_buf_limit(&b, nd_u64());
	}
	uint64_t limit = b.limit;
	b.wpos = nd_range(0, cap);
	b.rpos = nd_range(0, cap);
	ASSUME(b.rpos <= b.wpos);
	for (uint64_t i = 0; i < cap; i++)
		b.mem[i] = nd_u8();
	uint64_t k = nd_range(0, cap > 0 ? cap - 1 : 0);
	unsigned char c = cap > 0 ? b.mem[k] : 0;
	uint64_t rp = b.rpos, wp = b.wpos, len = nd_u64();
	unsigned char *m0 = b.mem;

	v_max_alloc = 8192;
	v_fail_at = fail ? v_count + 1 : 0;
	int allocs = v_allocs;
	bool rc = sc_buf_reserve(&b, len);
	CHECK(rc == sc_buf_valid(&b), "failure and only failure marks the buffer");
	CHECK(b.rpos == rp && b.wpos == wp, "positions kept");
	CHECK(b.wpos <= b.cap, "invariant");
	if (cap > 0 && k < wp)
		CHECK(b.mem[k] == c, "stored bytes kept");
	if (rc)
		CHECK(sc_buf_quota(&b) >= len, "the promised space exists");
	else
		CHECK(b.cap == cap && b.mem == m0, "failure changes nothing");
	if (b.cap != cap) {
		CHECK(!ref && b.cap <= limit && b.cap > cap, "growth respects limit and ownership");
		CHECK(v_last_size >= b.cap, "capacity is backed by memory");
	}
	if (len <= cap - wp)
		CHECK(rc && b.cap == cap, "no growth without need");
	if (ref)
		CHECK(v_allocs == allocs && b.mem == own, "wrapped memory is never resized");
	if (!ref && !fail)
		REACH_IF(rc && b.cap > cap, "growth");
	if (!ref)
		REACH_IF(!rc && len > UINT64_MAX - 100, "huge request refused");
	sc_buf_term(&b);
	CHECK(v_live == 0, "released once");
	if (ref)
		free(own);
}

void h_reserve(void)
{
	reserve_case(6, 0, 0);
}
void h_reserve0(void)
{
	reserve_case(0, 0, 0);
}
void h_reserve_fail(void)
{
	reserve_case(6, 0, 1);
}
void h_reserve_ref(void)
{
	reserve_case(6, 1, 0);
	REACH("wrapped");
}

/* compact keeps the unread bytes */
void h_compact(void)
{
	struct sc_buf b;
	struct pre p;
	arbitrary(&b, &p, 1);
	sc_buf_compact(&b);
	CHECK(sc_buf_size(&b) == p.wpos - p.rpos, "unread size kept");
	CHECK(b.rpos == 0, "data moved to the start");
	CHECK(b.cap == N && b.err == p.err, "capacity and validity kept");
	uint64_t k = nd_range(0, N - 1);
	if (k < p.wpos - p.rpos)
		CHECK(b.mem[k] == p.copy[p.rpos + k], "unread bytes kept");
	REACH_IF(p.rpos == 3 && p.wpos == N, "overlapping move");
	free(b.mem);
}

/* shrink: unread bytes kept, never grows, never touches wrapped memory */
static void shrink_case(uint64_t cap, int ref, int fail)
{
	struct sc_buf b;
	v_reset(0);
	v_max_alloc = 1 << 14;
	if (ref) {
		unsigned char *m = malloc(V_SZ(cap));
		ASSUME(m != NULL);
		b = sc_buf_wrap(m, cap, SC_BUF_REF);
	} else {
		ASSUME(sc_buf_init(&b, cap));
	}
	unsigned char x[3];
	for (int i = 0; i < 3; i++) {
		x[i] = nd_u8();
		sc_buf_put_8(&b, x[i]);
	}
	uint64_t r = nd_range(0, 3), len = nd_u64();
	sc_buf_set_rpos(&b, r);
	unsigned char *m0 = b.mem;
	int a0 = v_allocs;
	v_fail_at = fail ? v_count + 1 : 0;
	bool rc = sc_buf_shrink(&b, len);
	CHECK(rc == (v_failed == 0) && rc == sc_buf_valid(&b), "fails only for lack of memory");
	CHECK(sc_buf_size(&b) == 3 - r, "unread size kept");
	CHECK(b.cap <= cap, "shrink never grows");
	CHECK(b.cap >= b.wpos, "invariant");
	for (uint64_t i = 0; i < 3; i++)
		if (i >= r)
			CHECK(b.mem[b.rpos + i - r] == x[i], "unread bytes kept");
	if (ref)
		CHECK(b.mem == m0 && b.cap == cap && v_allocs == a0, "wrapped memory is never resized");
	if (!ref && !fail && cap > 4096)
		REACH_IF(b.cap < cap, "shrinks");
	sc_buf_term(&b);
	CHECK(v_live == 0, "released once");
	if (ref)
		free(m0);
}
void h_shrink(void)
{
	shrink_case(8192, 0, 0);
}
void h_shrink_fail(void)
{
	shrink_case(8192, 0, 1);
	REACH("failing shrink");
}
void h_shrink_small(void)
{
	shrink_case(100, 0, 0);
	REACH("small");
}
void h_shrink_ref(void)
{
	shrink_case(8192, 1, 0);
	REACH("wrapped");
}

/* move between buffers */
void h_move(void)
{
	struct sc_buf d, s;
	struct pre pd, ps;
	arbitrary(&d, &pd, 1);
	arbitrary(&s, &ps, 1);
	sc_buf_move(&d, &s);
	uint64_t q = N - pd.wpos, sz = ps.wpos - ps.rpos, n = q < sz ? q : sz;
	CHECK(d.rpos == pd.rpos && d.cap == N && s.wpos == ps.wpos, "other positions kept");
	uint64_t moved = d.wpos - pd.wpos;
	CHECK(d.wpos >= pd.wpos && moved <= n, "at most the quota is copied");
	if (pd.err == 0)
		CHECK(moved == n, "as much as fits is copied");
	CHECK(s.rpos - ps.rpos == moved, "exactly the copied bytes are consumed");
	uint64_t k = nd_range(0, N - 1);
	if (k < moved)
		CHECK(d.mem[pd.wpos + k] == ps.copy[ps.rpos + k], "bytes copied in order");
	if (k < pd.wpos)
		CHECK(d.mem[k] == pd.copy[k], "earlier bytes kept");
	CHECK(s.mem[k] == ps.copy[k], "source bytes kept");
	CHECK(d.wpos <= N && s.rpos <= s.wpos, "invariant");
	REACH_IF(moved == 2 && q == 2 && sz == 5 && pd.err == 0, "partial move");
	free(d.mem);
	free(s.mem);
}

/* puts into an almost full, wrapped buffer: error is sticky, nothing overrun */
void h_put_full(void)
{
	FOR_CASE(op, 10)
	{
		struct sc_buf b;
		struct pre p;
		arbitrary(&b, &p, 1);
		uint64_t v = nd_u64();
		char s[N] = {'a', 'b', 'c', 0};
		uint64_t need = 0;
		t_arm((int) nd_range(0, 5), (int) nd_range(0, 2));

		switch (op) {
		case 0: sc_buf_put_8(&b, (uint8_t) v); need = 1; break;
		case 1: sc_buf_put_16(&b, (uint16_t) v); need = 2; break;
		case 2: sc_buf_put_32(&b, (uint32_t) v); need = 4; break;
		case 3: sc_buf_put_64(&b, v); need = 8; break;
		case 4: sc_buf_put_str(&b, s); need = 12; break;
		case 5: sc_buf_put_str(&b, NULL); need = 8; break;
		case 6: need = v; sc_buf_put_raw(&b, s, v); break;
		case 7: sc_buf_put_blob(&b, s, 2); need = 10; break;
		case 8: sc_buf_put_str_len(&b, s, 2); need = 11; break;
		default: sc_buf_put_fmt(&b, "%s", s); need = 8 + (uint64_t) t_len + 1; break;
		}
		CHECK(b.rpos == p.rpos && b.wpos >= p.wpos && b.wpos <= N && b.cap == N, "invariant");
		CHECK(p.err == 0 || !sc_buf_valid(&b), "invalid buffers stay invalid");
		bool room = need <= N - p.wpos;
		if (!room)
			CHECK(!sc_buf_valid(&b), "overflow is reported");
		else if (p.err == 0 && (op != 9 || t_calls != t_fail_at))
			CHECK(sc_buf_valid(&b) && b.wpos == p.wpos + need, "what fits is stored");
		else if (op == 9 && t_calls == t_fail_at)
			CHECK(!sc_buf_valid(&b), "formatting failure is reported");
		uint64_t k = nd_range(0, N - 1);
		if (k < p.wpos)
			CHECK(b.mem[k] == p.copy[k], "stored bytes kept");
		if (op == 9)
			REACH_IF(room && sc_buf_valid(&b) && t_len == 2, "formatted");
		if (op == 6)
			REACH_IF(v == UINT64_MAX, "huge raw");
		sc_buf_clear(&b);
		CHECK(sc_buf_valid(&b) && b.rpos == 0 && b.wpos == 0, "clear resets");
		free(b.mem);
	}
}

/* put_text: concatenation in fixed and growing buffers */
static void text_case(size_t cap, int ref, int fail, unsigned lens)
{
	struct sc_buf b;
	uint64_t rd = 0;
	char all[32];
	size_t n = 0;
	unsigned char *m = NULL;

	v_reset(0);
	if (ref) {
		m = fresh(cap);
		b = sc_buf_wrap(m, cap, SC_BUF_REF);
	} else {
		ASSUME(sc_buf_init(&b, cap));
	}
	v_fail_at = fail ? v_count + 1 : 0;
	for (int i = 0; i < 3; i++) {
		t_arm(lens >> 2 * i & 3, 0);
		if (i == 2 && nd_bool())
			sc_buf_set_rpos(&b, rd = nd_range(0, sc_buf_wpos(&b)));
		if (rd > 0 && sc_buf_size(&b) == 0)
			return; /* everything read: a new text begins */
		sc_buf_put_text(&b, "%d", 1);
		CHECK(b.rpos <= b.wpos && b.wpos <= b.cap, "invariant");
		if (!sc_buf_valid(&b)) {
			CHECK(ref || v_failed > 0, "text fails only for lack of space");
			if (ref)
				CHECK(n + (size_t) t_len + 1 >= cap, "text that fits is accepted");
			goto out;
		}
		for (int j = 0; j < t_len; j++)
			all[n++] = t_text[j];
		all[n] = '\0';
		CHECK(sc_buf_size(&b) == n + 1 - rd, "size of the text");
		CHECK(memcmp(sc_buf_at(&b, 0), all, n + 1) == 0, "one concatenated text");
	}
out:
	sc_buf_term(&b);
	CHECK(v_live == 0, "released once");
	free(m);
}
#ifdef DEEP
#define TX 4 /* pieces of 0..3 bytes */
#else
#define TX 3 /* pieces of 0..2 bytes */
#endif
#define TEXT(l) ((unsigned) (l % TX | l / TX % TX << 2 | l / TX / TX << 4))
void h_text_ref(void)
{
	FOR_CASE(l, TX *TX *TX) text_case(5, 1, 0, TEXT(l));
	REACH("end");
}
void h_text_grow(void)
{
	FOR_CASE(l, TX *TX *TX) text_case(3, 0, 0, TEXT(l));
	REACH("end");
}
void h_text_fail(void)
{
	FOR_CASE(l, TX *TX *TX) text_case(3, 0, 1, TEXT(l));
	REACH("end");
}
