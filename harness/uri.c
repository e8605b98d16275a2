/* U01: URI parsing against the regular expression of RFC 3986, appendix B */
#include "verif.h"
#include "sc_uri.h"
#include "nochecks.h"

#ifndef PRE
#define PRE "s://"
#endif
#ifndef N
#define N 5 /* symbolic bytes behind the prefix */
#endif
#ifndef SUF
#define SUF ""
#endif
#ifndef WIT
#define WIT true
#endif
#define L(p) (r.p.e > r.p.b)
#define LEN (sizeof(PRE) - 1 + N + sizeof(SUF) - 1)
#define ROOM (2 * LEN + 12)

struct room {
	struct sc_uri u;
	char b[ROOM];
};
#ifdef CBMC
static struct room *obj;
static size_t obj_n;
void *vt_uri_malloc(size_t n)
{
	if (v_fails(n))
		return NULL;
	obj = malloc(sizeof(struct room));
	CHECK(n >= sizeof(struct sc_uri), "room for the object");
	CHECK(n <= sizeof(struct room), "MODEL size of the object");
	ASSUME(n <= sizeof(struct room));
	obj_n = n - sizeof(struct sc_uri);
	for (size_t i = 0; i < ROOM; i++)
		if (i >= obj_n)
			obj->u.buf[i] = (char) 0xA5;
	v_live++;
	v_allocs++;
	return obj;
}
void vt_uri_free(void *p)
{
	if (p != NULL) {
		v_live--;
		for (size_t i = 0; i < ROOM; i++)
			CHECK(i < obj_n || obj->u.buf[i] == (char) 0xA5, "nothing is written behind the object");
	}
	free(p);
}
#else
void *vt_uri_malloc(size_t n) { return v_malloc(n); }
void vt_uri_free(void *p) { v_free(p); }
#endif

int v_vsnprintf(char *dst, size_t n, const char *fmt, va_list va)
{
	return v_mini_vsnprintf(dst, n, fmt, va);
}
int v_snprintf(char *dst, size_t n, const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	int r = v_mini_vsnprintf(dst, n, fmt, va);
	va_end(va);
	return r;
}

static char s[LEN + 1];

struct part {
	size_t b, e;
};
struct ref {
	bool ok;
	struct part scheme, user, host, port, path, query, frag;
	size_t alt_user; /* end of the user info when several '@' could end it */
};

static size_t upto(size_t b, size_t e, const char *set)
{
	size_t r = e;
	for (size_t i = LEN; i-- > 0;) {
		bool in = false;
		for (const char *c = set; *c; c++)
			in = in || s[i] == *c;
		if (i >= b && i < e && in)
			r = i;
	}
	return r;
}

static struct part P(size_t b, size_t e)
{
	struct part p = {b, e};
	return p;
}

/* alphabet: every delimiter, digits and two letters; BYTES: any byte */
static char any_char(void)
{
#ifdef BYTES
	char c = (char) nd_u8();
	ASSUME(c != 0);
	return c;
#elif defined(DIGITS)
	static const char t[16] = "0123456789+- /?#";
	return t[nd_u8() & 15];
#else
	static const char t[16] = "a1:/@?#[]a1:/@0.";
	return t[nd_u8() & 15];
#endif
}

static struct ref parse(void)
{
	struct ref r;
	const size_t n = LEN;
	size_t c = upto(0, n, ":/?#");
	memset(&r, 0, sizeof(r));
	r.ok = c > 0 && c < n && s[c] == ':';
	if (!r.ok)
		return r;
	r.scheme = P(0, c);
	size_t p = c + 1;
	if (p + 1 < n && s[p] == '/' && s[p + 1] == '/') {
		p += 2;
		size_t end = upto(p, n, "/?#");
		size_t at = upto(p, end, "@");
		if (at < end) {
			r.user = P(p, at);
			p = at + 1;
		}
		size_t he;
		if (p < end && s[p] == '[') {
			he = upto(p, end, "]");
			r.ok = he < end;
			he += 1;
		} else {
			he = upto(p, end, ":");
		}
		r.host = P(p, he);
		p = he;
		if (r.ok && p < end) {
			r.ok = s[p] == ':' && p + 1 < end;
			uint64_t v = 0;
			for (size_t i = 0; i < n; i++)
				if (i > p && i < end) {
					r.ok = r.ok && s[i] >= '0' && s[i] <= '9';
					v = v > 65535 ? v : v * 10 + (uint64_t) (s[i] - '0');
				}
			r.ok = r.ok && v <= 65535;
			r.port = P(p + 1, end);
		}
		p = end;
	}
	size_t pe = upto(p, n, "?#");
	r.path = P(p, pe);
	if (pe < n && s[pe] == '?') {
		size_t qe = upto(pe, n, "#");
		r.query = P(pe + 1, qe);
		pe = qe;
	}
	if (pe < n)
		r.frag = P(pe + 1, n);
	return r;
}

static void check_part(const struct sc_uri *u, const char *t, struct part p)
{
#ifdef CBMC
	CHECK(__CPROVER_same_object(t, u) && t >= u->buf && t < u->buf + obj_n, "parts lie inside the object");
#else
	(void) u;
#endif
	bool eq = t[p.e - p.b] == 0;
	for (size_t i = 0; i < LEN; i++)
		if (i < p.e - p.b)
			eq = eq && t[i] == s[p.b + i];
	CHECK(eq, "the part is exactly the delimited text");
}

void h_parse(void)
{
	memcpy(s, PRE, sizeof(PRE) - 1);
	for (size_t i = 0; i < N; i++)
		s[sizeof(PRE) - 1 + i] = any_char();
	memcpy(s + sizeof(PRE) - 1 + N, SUF, sizeof(SUF));
	struct ref r = parse();
	v_reset(0);
#ifdef OOM
	v_fail_at = 1;
#endif
	errno = (int) (nd_u8() & 127);
	struct sc_uri *u = sc_uri_create(s);
#ifdef OOM
	CHECK(u == NULL && v_live == 0, "reported");
	REACH_IF(v_failed == 1, "out of memory");
	CHECK(sc_uri_create(NULL) == NULL, "NULL");
#else
	CHECK((u != NULL) == r.ok, "accepted exactly when well-formed");
	if (u == NULL) {
		CHECK(v_live == 0, "nothing leaks");
		return;
	}
	check_part(u, u->str, P(0, LEN));
	check_part(u, u->scheme, r.scheme);
	check_part(u, u->userinfo, r.user);
	check_part(u, u->host, r.host);
	check_part(u, u->port, r.port);
	check_part(u, u->path, r.path);
	check_part(u, u->query, r.query);
	check_part(u, u->fragment, r.frag);
	REACH_IF(WIT, "accepted");
	sc_uri_destroy(u);
	CHECK(v_live == 0, "released");
#endif
}
