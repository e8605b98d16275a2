/* G01, G02, G03: helpers of sc.c */
#include "verif.h"
#include "sc.h"
#include <stdarg.h>
#include <ctype.h>
#include "nochecks.h"

/* ---- G01 ---- */
void h_pow2(void)
{
	uint64_t x = nd_u64(), y = nd_u64();
	uint64_t r = sc_to_pow2(x);
	bool p = false, e = false;
	for (int i = 0; i < 64; i++) {
		uint64_t b = (uint64_t) 1 << i;
		if (y == b)
			p = true;
		if (b >= x && !e) {
			e = true;
			CHECK(r == b, "smallest power of two not below the argument");
		}
	}
	CHECK(sc_is_pow2(y) == p, "power-of-two test");
	uint64_t a = nd_u64(), b = nd_u64();
	int64_t c = nd_i64(), d = nd_i64();
	CHECK(sc_max(a, b) == (a < b ? b : a) && sc_min(a, b) == (a < b ? a : b), "unsigned max/min");
	CHECK(sc_max(c, d) == (c < d ? d : c) && sc_min(c, d) == (c < d ? c : d), "signed max/min");
	CHECK(sc_max(c & 1, d & 3) + 0 == ((c & 1) < (d & 3) ? d & 3 : c & 1), "expressions as arguments");
	REACH_IF(r == (uint64_t) 1 << 63 && y == 8, "large");
}

/* ---- G02 ---- */
#ifndef N
#define N 4
#endif
#ifndef SHIFT
#define SHIFT 10
#endif
#ifndef WIT
#define WIT ok && n > 2 && r > 1024 && s[pl + n - 1] == 'b'
#endif
#ifndef PRE
#define PRE ""
#endif
static const int64_t unit(char c, bool *ok)
{
	*ok = true;
	switch (c) {
	case 'b': case 'B': return 0;
	case 'k': case 'K': return 10;
	case 'm': case 'M': return 20;
	case 'g': case 'G': return 30;
	case 't': case 'T': return 40;
	case 'p': case 'P': return 50;
	case 'e': case 'E': return 60;
	}
	*ok = false;
	return 0;
}

void h_parse(void)
{
	const size_t pl = sizeof(PRE) - 1;
	FOR_CASE(n, N + 1)
	{
		char *s = malloc(pl + n + 1);
		for (size_t i = 0; i < pl; i++)
			s[i] = PRE[i];
		for (size_t i = pl; i < pl + n; i++) {
			s[i] = (char) nd_u8();
			ASSUME(s[i] != '\0');
		}
		s[pl + n] = '\0';

		/* digits unit? b? */
		size_t i = 0, b;
		bool neg = false, ok = true, over = false;
		uint64_t v = 0;
		for (; i < pl + n && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r')); i++)
			;
		if (s[i] == '+' || s[i] == '-')
			neg = s[i++] == '-';
		b = i;
		for (; i < pl + n && s[i] >= '0' && s[i] <= '9'; i++) {
			if (v > (INT64_MAX - (uint64_t) (s[i] - '0')) / 10)
				over = true;
			v = v * 10 + (uint64_t) (s[i] - '0');
		}
		if (i == b || over || (neg && v != 0))
			ok = false;
		if (ok && i < pl + n) {
			int64_t sh = unit(s[i], &ok);
			i++;
			if (ok && i < pl + n)
				ok = (s[i] == 'b' || s[i] == 'B') && i + 1 == pl + n;
			if (ok && v > (uint64_t) INT64_MAX >> sh)
				ok = false;
			v <<= sh;
		}
		errno = nd_bool() ? ERANGE : 0;
		int64_t r = sc_size_to_bytes(s);
		CHECK(r == (ok ? (int64_t) v : -1), "size text converted or refused");
		REACH_IF(WIT, "converted");
		REACH_IF(!ok && n == N && s[pl] != 0, "refused");
		free(s);
	}
}

/* the formatter is a stub: the text is what it was asked to print */
static int prints, wr_ret;
static double pr_d;
static long long pr_i;
static bool pr_is_d;
static const char *pr_s;
static char *pr_buf;
static size_t pr_len;
int v_snprintf(char *d, size_t n, const char *fmt, ...)
{
	va_list va;
	prints++;
	pr_buf = d;
	pr_len = n;
	pr_s = NULL;
	va_start(va, fmt);
	int prec = -1;
	for (size_t i = 0; fmt[i] != '\0'; i++) {
		if (fmt[i] != '%') {
			if (fmt[i] == 'B' && pr_s == NULL)
				pr_s = "B";
			continue;
		}
		int l = 0, p = 6;
		i++;
		if (fmt[i] == '.') {
			p = 0;
			for (i++; fmt[i] >= '0' && fmt[i] <= '9'; i++)
				p = p * 10 + (fmt[i] - '0');
		}
		while (fmt[i] == 'l' || fmt[i] == 'z') {
			l++;
			i++;
		}
		switch (fmt[i]) {
		case 'd': case 'i': case 'u':
			pr_is_d = false;
			pr_i = l ? va_arg(va, long long) : va_arg(va, int);
			break;
		case 'f':
			pr_is_d = true;
			prec = p;
			pr_d = va_arg(va, double);
			break;
		case 's':
			pr_s = va_arg(va, const char *);
			break;
		default:
			CHECK(0, "conversion known to the check");
		}
	}
	va_end(va);
	if (pr_is_d)
		CHECK(prec == 2, "two decimals");
	return wr_ret;
}

void h_format(void)
{
	char buf[16];
	uint64_t v = nd_u64();
#if SHIFT == 64
	ASSUME(v >> 60 != 0);
#else
	ASSUME(v >> SHIFT == 0 && (SHIFT == 10 || v >> (SHIFT - 10) != 0));
#endif
	size_t len = nd_size();
	wr_ret = nd_int();
	ASSUME(wr_ret >= -1);
	ASSUME(len <= sizeof(buf));
	char *r = sc_bytes_to_size(buf, len, v);
	CHECK(prints == 1 && pr_buf == buf && pr_len == len, "formatted once into the caller's buffer");
	CHECK((r != NULL) == (wr_ret > 0 && (size_t) wr_ret < len), "NULL exactly when the text does not fit");
	CHECK(r == NULL || r == buf, "returns the buffer");
	CHECK(pr_s != NULL, "unit printed");
	if (v < 1024) {
		CHECK(!pr_is_d && pr_i == (long long) v && pr_s[0] == 'B' && pr_s[1] == '\0', "small counts are exact");
	} else {
		bool ok;
		int64_t sh = unit(pr_s[0], &ok);
		CHECK(pr_is_d && ok && sh >= 10 && pr_s[1] == 'B' && pr_s[2] == '\0', "unit of two letters");
		/* at least 1.00 and below 1024.00 after rounding, error below 0.01 */
		CHECK(pr_d >= 0.995 && pr_d < 1023.995, "number in the range of its unit");
		uint64_t whole = (uint64_t) (pr_d * 1024), real = v >> (sh - 10);
		CHECK(whole == real || whole == real + 1, "number is the count in that unit");
	}
	REACH_IF(r != NULL && len == 16, "formatted");
	REACH_IF(r == NULL, "did not fit");
}

/* ---- G03 ---- */
#ifndef LEN
#define LEN 3
#endif
struct ref {
	uint8_t i, j, s[256];
};
static uint8_t ref_step(struct ref *r)
{
	uint8_t t;
	r->i = (uint8_t) (r->i + 1);
	r->j = (uint8_t) (r->j + r->s[r->i]);
	t = r->s[r->i];
	r->s[r->i] = r->s[r->j];
	r->s[r->j] = t;
	return r->s[(uint8_t) (r->s[r->i] + r->s[r->j])];
}

/* any state, any split */
void h_rand_read(void)
{
	struct sc_rand r;
	struct ref q;
	uint8_t out[LEN + 2], want[LEN + 2];
	FOR_CASE(c, LEN + 1)
	{
		r.i = q.i = I0;
		r.j = q.j = nd_u8();
		for (int k = 0; k < 256; k++)
			r.init[k] = q.s[k] = nd_u8();
		for (int k = 0; k < LEN + 2; k++)
			out[k] = want[k] = 0xA5;
		for (int k = 0; k < LEN; k++)
			want[k + 1] = ref_step(&q);
		sc_rand_read(&r, out + 1, (int) c);
		sc_rand_read(&r, NULL, 2);
		sc_rand_read(&r, out, 0);
		sc_rand_read(&r, out, -1);
		sc_rand_read(&r, out + 1 + c, LEN - (int) c);
		for (int k = 0; k < LEN + 2; k++)
			CHECK(out[k] == want[k], "the next bytes of the stream, nothing else written");
		CHECK(r.i == q.i && r.j == q.j, "position");
		size_t k = nd_range(0, 255);
		CHECK(r.init[k] == q.s[k], "state");
		REACH_IF(out[1] == 7, "read");
	}
}

/* keying: seeds equal to a fixed pattern except in the window */
#ifndef POS
#define POS 252
#endif
#ifndef WIN
#define WIN 3
#endif
void h_rand_init(void)
{
	struct sc_rand r;
	static struct ref q;
	unsigned char seed[256], copy[256];
	for (int k = 0; k < 256; k++)
		seed[k] = (unsigned char) (k * 37 + 11 + (k >> 3));
	for (int k = 0; k < WIN; k++)
		seed[POS + k] = nd_u8();
	for (int k = 0; k < 256; k++)
		copy[k] = q.s[k] = seed[k];
	q.i = q.j = 0;
	for (int k = 0; k < 256; k++) {
		q.j = (uint8_t) (q.j + q.s[k] + seed[k]);
		uint8_t t = q.s[k];
		q.s[k] = q.s[q.j];
		q.s[q.j] = t;
	}
	sc_rand_init(&r, seed);
	for (int k = 0; k < 256; k++)
		CHECK(r.init[k] == q.s[k] && seed[k] == copy[k], "permutation keyed by the seed");
	uint8_t a, b[2];
	sc_rand_read(&r, &a, 1);
	CHECK(a == ref_step(&q), "first byte");
	sc_rand_read(&r, b, 2);
	CHECK(b[0] == ref_step(&q) && b[1] == ref_step(&q), "next bytes");
	REACH("read");
}
