/* Models of libc functions CBMC has none of, so that a rewrite of the code
 * under test that uses them stays decidable.  Solver side only. */
#include <stddef.h>
#include <string.h>
#include <stdint.h>

size_t strnlen(const char *s, size_t n)
{
	size_t i = 0;
	while (i < n && s[i] != '\0')
		i++;
	return i;
}

char *stpcpy(char *d, const char *s)
{
	while ((*d = *s) != '\0') {
		d++;
		s++;
	}
	return d;
}

void *mempcpy(void *d, const void *s, size_t n)
{
	memcpy(d, s, n);
	return (char *) d + n;
}

static int in_set(char c, const char *set)
{
	for (; *set; set++)
		if (*set == c)
			return 1;
	return 0;
}

size_t strspn(const char *s, const char *set)
{
	size_t i = 0;
	while (s[i] && in_set(s[i], set))
		i++;
	return i;
}

size_t strcspn(const char *s, const char *set)
{
	size_t i = 0;
	while (s[i] && !in_set(s[i], set))
		i++;
	return i;
}

char *strpbrk(const char *s, const char *set)
{
	for (; *s; s++)
		if (in_set(*s, set))
			return (char *) s;
	return NULL;
}

char *strchrnul(const char *s, int c)
{
	while (*s && *s != (char) c)
		s++;
	return (char *) s;
}

void *memchr(const void *s, int c, size_t n)
{
	const unsigned char *p = s;
	for (size_t i = 0; i < n; i++)
		if (p[i] == (unsigned char) c)
			return (void *) (p + i);
	return NULL;
}

void *memrchr(const void *s, int c, size_t n)
{
	const unsigned char *p = s;
	while (n-- > 0)
		if (p[n] == (unsigned char) c)
			return (void *) (p + n);
	return NULL;
}

char *strstr(const char *h, const char *n)
{
	size_t l = 0;
	while (n[l])
		l++;
	if (l == 0)
		return (char *) h;
	for (; *h; h++) {
		size_t i = 0;
		while (i < l && h[i] && h[i] == n[i])
			i++;
		if (i == l)
			return (char *) h;
	}
	return NULL;
}

/* qsort: insertion sort through the caller's comparison */
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
	char *b = base;
	for (size_t i = 1; i < n; i++)
		for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--)
			for (size_t k = 0; k < sz; k++) {
				char c = b[(j - 1) * sz + k];
				b[(j - 1) * sz + k] = b[j * sz + k];
				b[j * sz + k] = c;
			}
}

/* strtoul and friends, base 10 and 16 and 0 */
#include <errno.h>
#include <limits.h>
#include <stdbool.h>
static unsigned long long v_strto(const char *s, char **end, int base, bool *neg, bool *over)
{
	const char *p = s;
	unsigned long long v = 0;
	bool any = false;
	*neg = *over = false;
	while (*p == ' ' || (*p >= '\t' && *p <= '\r'))
		p++;
	if (*p == '+' || *p == '-')
		*neg = *p++ == '-';
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') &&
	    ((p[2] >= '0' && p[2] <= '9') || ((p[2] | 32) >= 'a' && (p[2] | 32) <= 'f'))) {
		p += 2;
		base = 16;
	} else if (base == 0) {
		base = *p == '0' ? 8 : 10;
	}
	for (;; p++) {
		int d;
		if (*p >= '0' && *p <= '9')
			d = *p - '0';
		else if ((*p | 32) >= 'a' && (*p | 32) <= 'z')
			d = (*p | 32) - 'a' + 10;
		else
			break;
		if (d >= base)
			break;
		any = true;
		if (v > ULLONG_MAX / (unsigned) base ||
		    (v == ULLONG_MAX / (unsigned) base && (unsigned) d > ULLONG_MAX % (unsigned) base))
			*over = true;
		else
			v = v * (unsigned) base + (unsigned) d;
	}
	if (end)
		*end = (char *) (any ? p : s);
	return v;
}
unsigned long strtoul(const char *s, char **end, int base)
{
	bool neg, over;
	unsigned long long v = v_strto(s, end, base, &neg, &over);
	if (over) {
		errno = ERANGE;
		return ULONG_MAX;
	}
	return neg ? 0 - v : v;
}
unsigned long long strtoull(const char *s, char **end, int base)
{
	return strtoul(s, end, base);
}
long strtol(const char *s, char **end, int base)
{
	bool neg, over;
	unsigned long long v = v_strto(s, end, base, &neg, &over);
	if (over || v > (unsigned long long) LONG_MAX + neg) {
		errno = ERANGE;
		return neg ? LONG_MIN : LONG_MAX;
	}
	return neg ? (long) (0 - v) : (long) v;
}
long long strtoll(const char *s, char **end, int base)
{
	return strtol(s, end, base);
}
int atoi(const char *s)
{
	return (int) strtol(s, NULL, 10);
}
/* the names glibc's headers give them */
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
