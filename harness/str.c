/* S01..S03: length-prefixed strings */
#include "verif.h"
#include "sc_str.h"
#include "nochecks.h"
#ifdef FIXED
V_FIXED(str)
#else
V_TYPED(str, char)
#endif

#ifndef MAX
#define MAX 3
#endif

/* a C string of length n with any nonzero bytes, in memory of exactly n + 1 */
static char *cstr(size_t n)
{
	char *p = malloc(n + 1);
	ASSUME(p != NULL);
	for (size_t i = 0; i < n; i++)
		p[i] = (char) (1 + (nd_u8() & 0x7f) * 2);
	p[n] = 0;
	v_known_len(p, n);
	return p;
}
static bool same(const char *s, const char *a, size_t na, const char *b, size_t nb)
{
	if (sc_str_len(s) != (int64_t) (na + nb))
		return false;
	bool eq = s[na + nb] == 0;
	for (size_t i = 0; i < 2 * MAX + 1; i++)
		if (i < na)
			eq = eq && s[i] == a[i];
	for (size_t i = 0; i < MAX + 1; i++)
		if (i < nb)
			eq = eq && s[na + i] == b[i];
	return eq;
}
/* an independent copy of the first n bytes */
static char *keep(const char *s, size_t n)
{
	char *p = malloc(n + 1);
	ASSUME(p != NULL);
	for (size_t i = 0; i < n; i++)
		p[i] = s[i];
	p[n] = 0;
	return p;
}

/* ---- formatting ----------------------------------------------------------- */
static int f_calls, f_fail_at; /* that call of vsnprintf fails */
#ifdef LONGTEXT
/* text of any bytes of which the first, the last and one in between are looked at */
static int f_len;
static size_t f_at;
static char f_first, f_mid, f_last;
int v_vsnprintf(char *dst, size_t n, const char *fmt, va_list va)
{
	(void) fmt;
	(void) va;
	if (++f_calls == f_fail_at)
		return -1;
	size_t k = (size_t) f_len < n ? (size_t) f_len : n - 1;
	if (n > 0) {
#ifndef CBMC
		memset(dst, 'x', k);
#endif
		if (k > 0)
			dst[0] = f_first;
		if (k > f_at)
			dst[f_at] = f_mid;
		if (k == (size_t) f_len && k > 0)
			dst[k - 1] = f_last;
		dst[k] = 0;
	}
	return f_len;
}
#else
int v_vsnprintf(char *dst, size_t n, const char *fmt, va_list va)
{
	if (++f_calls == f_fail_at)
		return -1;
	return v_mini_vsnprintf(dst, n, fmt, va);
}
#endif
static char *va_make(const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	char *s = sc_str_create_va(fmt, va);
	va_end(va);
	return s;
}

/* ---- S01 ------------------------------------------------------------------ */
static void end(char *s)
{
	sc_str_destroy(&s);
	CHECK(s == NULL, "destroy clears the pointer");
	sc_str_destroy(&s);
	sc_str_destroy(NULL);
	CHECK(v_live == 0, "everything is released once");
}

void h_create(void)
{
	FOR_CASE(c, (MAX + 1) * 2 * 5)
	{
		size_t n = c % (MAX + 1), kind = c / (MAX + 1) % 5;
		bool oom = c / (MAX + 1) / 5;
		char *a = cstr(n), *s, *raw = malloc(n ? n : 1);
		ASSUME(raw != NULL);
		for (size_t i = 0; i < n; i++)
			raw[i] = (char) nd_u8();
		f_calls = f_fail_at = 0;
		v_reset(oom ? 1 : 0);
		const char *e = a;
		switch (kind) {
		case 0:
			s = sc_str_create(a);
			break;
		case 1:
			s = sc_str_create_len(raw, (uint32_t) n);
			e = raw;
			break;
		case 2:
			s = sc_str_create_fmt("%s", a);
			break;
		case 3:
			s = va_make("%s", a);
			break;
		default:
			f_fail_at = 1;
			s = va_make("%s", a);
			CHECK(s == NULL && v_live == 0, "failed formatting is reported");
			continue;
		}
		CHECK((s == NULL) == oom, "fails only for lack of memory");
		CHECK(s != NULL || v_live == 0, "nothing leaks");
		if (s == NULL)
			continue;
		CHECK(same(s, e, n, "", 0), "exactly the given bytes");
		if (kind == 1 && n == MAX)
			REACH_IF(s[0] == 0 && s[1] != 0, "bytes after a nul");
		char *d = sc_str_dup(s);
		CHECK(d != NULL && d != s && same(d, e, n, "", 0), "duplicate");
		CHECK(sc_str_cmp(s, d) && sc_str_cmp(d, s), "equal to its duplicate");
		v_reset(1);
		v_live = 2;
		CHECK(sc_str_dup(s) == NULL && v_live == 2, "dup out of memory");
		sc_str_destroy(&d);
		CHECK(d == NULL && same(s, e, n, "", 0), "independent of its duplicate");
		CHECK(v_live == 1, "one string");
		end(s);
	}
	v_reset(0);
	CHECK(sc_str_create(NULL) == NULL && sc_str_create_len(NULL, nd_u32()) == NULL && sc_str_dup(NULL) == NULL && sc_str_len(NULL) == -1, "NULL");
	CHECK(v_allocs == 0, "nothing is allocated for NULL");
}

/* set, set_fmt, append, append_fmt on NULL and existing strings */
#ifndef KIND
#define KIND 0
#endif
void h_change(void)
{
	FOR_CASE(c, (MAX + 2) * (MAX + 1) * 3)
	{
		size_t n = c % (MAX + 2), m = c / (MAX + 2) % (MAX + 1);
		int mode = (int) (c / (MAX + 2) / (MAX + 1)); /* 0 ok, 1 oom, 2 format fails */
		bool null = n == MAX + 1;
		char *raw = malloc(MAX + 1), *a = cstr(m), *s = NULL;
		ASSUME(raw != NULL);
		if (null)
			n = 0;
		for (size_t i = 0; i < n; i++) {
			raw[i] = (char) nd_u8();
#if KIND == 3
			ASSUME(raw[i] != 0);
#endif
		}
		v_reset(0);
		if (!null)
			s = sc_str_create_len(raw, (uint32_t) n);
		char *before = s;
		f_calls = f_fail_at = 0;
		v_count = 0;
		v_fail_at = mode == 1 ? 1 : 0;
		if (mode == 2)
			f_fail_at = 1;
		bool ok;
		size_t kept = 0; /* bytes of the old value that stay */
		switch (KIND) {
		case 0:
			ok = sc_str_set(&s, a);
			break;
		case 1:
			ok = sc_str_set_fmt(&s, "%s", a);
			break;
		case 2:
			ok = sc_str_append(&s, a);
			kept = n;
			break;
		default:
			ok = sc_str_append_fmt(&s, "%s", a);
			kept = n;
			break;
		}
		bool fails = v_failed != 0 || (f_fail_at && f_calls);
		CHECK(ok == !fails, "fails only with a reason");
		CHECK(v_failed || mode != 1, "memory was asked for");
		if (!ok) {
			CHECK(s == before, "the caller keeps the old string");
			CHECK(v_live == (null ? 0 : 1), "nothing leaks");
			CHECK(null || same(s, raw, n, "", 0), "the old string is untouched");
		} else {
			CHECK(same(s, raw, kept, a, m), "exactly the new bytes");
			CHECK(v_live == 1, "one string");
		}
		if (n == 2 && m == MAX && mode == 0)
			REACH_IF(ok, "changed");
		end(s);
	}
	v_reset(0);
	char *s = sc_str_create("ab");
	CHECK(!sc_str_set(&s, NULL) && s != NULL && same(s, "ab", 2, "", 0), "set to NULL is refused");
	end(s);
}

/* formatting around the size of the internal scratch area */
void h_fmt_long(void)
{
#ifdef LONGTEXT
	FOR_CASE(c, 3)
	{
		f_len = LONGTEXT;
		int mode = c ? (int) c + 1 : 0; /* 0 ok, 2 first format fails, 3 second */
		f_first = (char) nd_u8();
		f_mid = (char) nd_u8();
		f_last = (char) nd_u8();
		f_at = 500;
		f_calls = 0;
		f_fail_at = mode == 2 ? 1 : mode == 3 ? 2 : 0;
		v_reset(mode == 1 ? 1 : 0);
		char *s = sc_str_create_fmt("%s", "");
		CHECK((s == NULL) == (v_failed != 0 || (f_fail_at && f_calls >= f_fail_at)), "fails only with a reason");
		CHECK(mode == 0 || mode == 3 || s == NULL, "reported");
		if (s != NULL) {
			CHECK(sc_str_len(s) == f_len, "length");
			CHECK(s[0] == f_first && s[f_at] == f_mid && s[f_len - 1] == f_last && s[f_len] == 0, "text");
			CHECK(v_live == 1, "one string");
		}
		if (mode == 0)
			REACH_IF(s != NULL, "long text");
		end(s);
	}
#endif
}

void h_cmp(void)
{
	FOR_CASE(c, (MAX + 1) * (MAX + 1))
	{
		size_t n = c % (MAX + 1), m = c / (MAX + 1);
		char a[MAX + 1], b[MAX + 1];
		bool eq = n == m;
		for (size_t i = 0; i < MAX; i++) {
			a[i] = (char) nd_u8();
			b[i] = (char) nd_u8();
		}
		v_reset(0);
		char *s = sc_str_create_len(a, (uint32_t) n), *t = sc_str_create_len(b, (uint32_t) m);
		for (size_t i = 0; i < n && i < m; i++)
			eq = eq && a[i] == b[i];
		CHECK(sc_str_cmp(s, t) == eq, "equal exactly when the contents are");
		if (n == MAX && m == MAX) {
			REACH_IF(eq, "equal");
			REACH_IF(!eq && a[0] == 0 && b[0] == 0, "differ after a nul");
		}
		sc_str_destroy(&t);
		end(s);
	}
}

/* lengths up to the largest 64-bit value: refused, or exactly enough memory */
void h_huge(void)
{
	char *p = cstr(0), *q = cstr(2);
	size_t big = nd_size();
	v_reset(0);
	v_max_alloc = 16;
	ASSUME(big > 16);
	v_known_len(p, 0);
	char *s = sc_str_create(q);
	CHECK(s != NULL && same(s, q, 2, "", 0), "small string");
	char *h = malloc(1);
	ASSUME(h != NULL);
	*h = (char) 1;
	v_known_len(h, big);
	v_req_size = 0;
	v_count = 0;
	CHECK(sc_str_create(h) == NULL, "too long to be created here");
	if (v_count != 0)
		CHECK(big <= UINT32_MAX && v_req_size >= big + 5, "asks for enough memory");
	else
		CHECK(big >= UINT32_MAX - 8, "refused only when the length has no 32-bit form");
	v_req_size = 0;
	v_count = 0;
	int k = (int) nd_range(0, 2);
	if (k == 0) {
		CHECK(!sc_str_append(&s, h), "too long to be appended here");
		if (v_count != 0)
			CHECK(big <= UINT32_MAX && v_req_size >= big + 7, "asks for enough memory");
	} else if (k == 1) {
		CHECK(!sc_str_set(&s, h), "too long to be set here");
	} else {
		uint32_t n = nd_u32();
		ASSUME(n > 16);
		v_count = 0;
		CHECK(sc_str_create_len(q, n) == NULL, "too long to be created here");
		CHECK(v_count == 1 && v_req_size >= (size_t) n + 5, "asks for enough memory");
		REACH_IF(n == UINT32_MAX, "largest 32-bit length");
	}
	CHECK(s != NULL && same(s, q, 2, "", 0) && v_live == 1, "the string is untouched");
	REACH_IF(big == UINT32_MAX, "largest 32-bit");
	REACH_IF(big == SIZE_MAX, "largest 64-bit");
}

#ifndef NLO
#define NLO 0
#endif
/* ---- S02 ------------------------------------------------------------------ */
static bool in(char c, const char *set, size_t n)
{
	for (size_t i = 0; i < n; i++)
		if (set[i] == c)
			return true;
	return false;
}

void h_token(void)
{
	/* string length, delimiter count, tokens taken before ending early */
	FOR_CASE(c, (MAX + 1) * 3 * (MAX + 2 - NLO))
	{
		size_t n = c % (MAX + 1), nd = c / (MAX + 1) % 3, stop = NLO + c / (MAX + 1) / 3;
		char *a = cstr(n), *delim = cstr(nd), *save = NULL;
		if (stop > n + 1)
			continue;
		v_reset(0);
		char *s = sc_str_create(a);
		const char *t;
		size_t at = 0, k = 0;
		bool done = false;
		for (k = 0; k < stop; k++) {
			t = sc_str_token_begin(s, &save, delim);
			if (done) {
				CHECK(t == NULL, "no token after the last");
				continue;
			}
			CHECK(t != NULL, "as many tokens as pieces");
			bool in_tok = true;
			size_t l = 0;
			for (size_t i = 0; i <= n; i++) {
				if (in_tok && at + i < n && !in(a[at + i], delim, nd)) {
					CHECK(t[i] == a[at + i], "token bytes");
					l++;
				} else if (in_tok) {
					CHECK(t[i] == 0, "token end");
					in_tok = false;
				}
			}
			CHECK(sc_str_len(s) == (int64_t) n, "the length stays");
			done = at + l >= n;
			at += l + 1;
		}
		if (nd == 0 && stop == 1 && n == MAX)
			REACH_IF(done, "one token");
		if (nd == 2 && n == MAX && stop == n)
			REACH_IF(!done, "all delimiters");
		sc_str_token_end(s, &save);
		CHECK(same(s, a, n, "", 0), "ending restores the string");
		sc_str_token_end(s, &save);
		CHECK(same(s, a, n, "", 0), "ending again changes nothing");
		CHECK(v_allocs == 1, "zero-copy");
		end(s);
	}
}

void h_token_all(void)
{
	FOR_CASE(c, (MAX + 1) * 2)
	{
		size_t n = c % (MAX + 1), nd = 1 + c / (MAX + 1), k = 0, pieces = 1;
		char *a = cstr(n), *delim = cstr(nd), *save = NULL;
		v_reset(0);
		char *s = sc_str_create(a);
		for (size_t i = 0; i < n; i++)
			pieces += in(a[i], delim, nd);
		for (size_t i = 0; i < n + 2; i++)
			if (sc_str_token_begin(s, &save, delim) != NULL)
				k++;
			else
				break;
		CHECK(k == pieces, "as many tokens as pieces");
		CHECK(same(s, a, n, "", 0), "running to the end restores the string");
		CHECK(sc_str_token_begin(s, &save, delim) == NULL, "stays at the end");
		sc_str_token_end(s, &save);
		CHECK(same(s, a, n, "", 0), "restored");
		/* another delimiter set on the next pass */
		save = NULL;
		const char *t = sc_str_token_begin(s, &save, "");
		CHECK(t != NULL && t[n] == 0 && (n == 0 || t[n - 1] == a[n - 1]), "no delimiter, one token");
		sc_str_token_end(s, &save);
		CHECK(same(s, a, n, "", 0), "restored again");
		if (n == MAX)
			REACH_IF(pieces == MAX + 1, "only delimiters");
		end(s);
	}
	char *save = NULL;
	CHECK(sc_str_token_begin(NULL, &save, ",") == NULL, "NULL string");
	sc_str_token_end(NULL, &save);
}

/* ---- S03 ------------------------------------------------------------------ */
void h_trim(void)
{
	FOR_CASE(c, (MAX + 1) * 3 * 2)
	{
		size_t n = c % (MAX + 1), nl = c / (MAX + 1) % 3, b = 0, e = n;
		bool oom = c / (MAX + 1) / 3;
		char *a = cstr(n), *list = cstr(nl);
		v_reset(0);
		char *s = sc_str_create(a), *old = s;
		v_count = 0;
		v_fail_at = oom ? 1 : 0;
		for (size_t i = 0; i < n; i++)
			if (b == i && in(a[i], list, nl))
				b++;
		for (size_t i = n; i > 0; i--)
			if (e == i && e > b && in(a[i - 1], list, nl))
				e--;
		bool ok = sc_str_trim(&s, list);
		CHECK(ok == (v_failed == 0), "fails only for lack of memory");
		if (ok)
			CHECK(same(s, a + b, e - b, "", 0), "exactly the listed ends are removed");
		else
			CHECK(s == old && same(s, a, n, "", 0), "the string stays");
		if (n == MAX && nl == 2 && !oom)
			REACH_IF(b == 1 && e == n - 1, "both ends");
		if (n == MAX && nl == 2 && oom)
			REACH_IF(!ok, "out of memory");
		CHECK(v_live == 1, "one string");
		end(s);
	}
	char *z = NULL;
	CHECK(sc_str_trim(&z, " ") && z == NULL, "NULL");
}

void h_substring(void)
{
	FOR_CASE(c, (MAX + 1) * 2)
	{
		size_t n = c % (MAX + 1);
		bool oom = c / (MAX + 1);
		char raw[MAX + 1];
		uint32_t b = nd_u32(), e = nd_u32();
		for (size_t i = 0; i < MAX; i++)
			raw[i] = (char) nd_u8();
		v_reset(0);
		char *s = sc_str_create_len(raw, (uint32_t) n), *old = s;
		v_count = 0;
		v_fail_at = oom ? 1 : 0;
		bool ok = sc_str_substring(&s, b, e);
		bool valid = b <= e && e <= n;
		CHECK(ok == (valid && v_failed == 0), "exactly the valid ranges");
		if (ok)
			CHECK(same(s, raw + b, e - b, "", 0), "exactly the range");
		else
			CHECK(s == old && same(s, raw, n, "", 0), "the string stays");
		if (n == MAX) {
			REACH_IF(oom ? (valid && !ok) : (ok && b == 1 && e == 2), "range");
			REACH_IF(b == UINT32_MAX && e == UINT32_MAX, "huge range");
		}
		CHECK(v_live == 1, "one string");
		end(s);
	}
	char *z = NULL;
	CHECK(!sc_str_substring(&z, 0, 0), "NULL");
}

void h_replace(void)
{
#ifdef NR
	FOR_CASE(c, (MAX + 1 - NLO) * (OOM + 1))
	{
		size_t n = NLO + c % (MAX + 1 - NLO), nr = NR, nw = NW;
		bool oom = c / (MAX + 1 - NLO);
		char *a = cstr(n), *rep = cstr(nr), *with = cstr(nw);
		char out[2 * MAX + 1];
		size_t no = 0, hits = 0;
		v_reset(0);
		char *s = sc_str_create(a), *old = s;
		v_known_len(s, n);
		v_count = 0;
		v_fail_at = oom ? 1 : 0;
		size_t skip = 0;
		for (size_t i = 0; i < n; i++) {
			bool hit = nr > 0 && i + nr <= n && skip == 0;
			for (size_t j = 0; j < nr && i + nr <= n; j++)
				hit = hit && a[i + j] == rep[j];
			if (hit) {
				for (size_t j = 0; j < nw; j++)
					out[no++] = with[j];
				skip = nr - 1;
				hits++;
			} else if (skip > 0) {
				skip--;
			} else {
				out[no++] = a[i];
			}
		}
		bool ok = sc_str_replace(&s, rep, with);
		CHECK(ok == (v_failed == 0), "fails only for lack of memory");
		if (ok)
			CHECK(same(s, out, no, "", 0), "every occurrence from left to right");
		else
			CHECK(s == old && same(s, a, n, "", 0), "the string stays");
		if (n == MAX && !oom)
			REACH_IF(ok && hits == (nr ? MAX / nr : 0), "replaced");
		if (n == MAX && oom)
			REACH_IF(!ok, "out of memory");
		CHECK(v_live == 1, "one string");
		end(s);
	}
#endif
	char *z = NULL;
	CHECK(sc_str_replace(&z, "a", "b") && z == NULL, "NULL");
}
