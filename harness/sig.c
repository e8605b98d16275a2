/* X01 signal-safe formatting, X02 signal handlers */
#include "verif.h"
#include "sc_signal.h"
#include <unistd.h>
#include <limits.h>
#include "nochecks.h"

#ifndef N
#define N 3 /* text bytes */
#endif
#ifndef SZMAX
#define SZMAX 8
#endif

/* ---------------------------------------------------- operating system */
static int log_fd, to_fd;         /* expected descriptors */
static int writes, sends, closes, kills, others;
static size_t wr_len;
static const char *wr_buf;
static bool expect_exact, send_ok, no_sends;
static int ended;                 /* 1: the process must not go on */
static int n_fail;
static int acts[65];              /* 1 shutdown, 2 fatal, 3 ignored, 4 default */
static void (*on_shutdown)(int);
static void (*on_fatal)(int, siginfo_t *, void *);
static bool initialising;
static int cur_sig, will;
static bool forced;

ssize_t v_write(int fd, const void *b, size_t n)
{
	CHECK(n <= 4096, "writes bytes of its buffer");
	if (!no_sends && fd == to_fd && n == 1) {
		sends++;
		CHECK(kills == 0 && closes == 0, "in time");
		send_ok = nd_bool();
		errno = send_ok ? nd_int() : EPIPE;
		return send_ok ? 1 : nd_bool() ? -1 : 0;
	}
	CHECK(fd == log_fd, "log lines go to the log descriptor");
	CHECK(closes == 0, "not after it was closed");
	writes++;
	wr_len = n;
	wr_buf = b;
	errno = nd_int();
	return nd_bool() ? -1 : (ssize_t) n;
}
int v_close(int fd)
{
	CHECK(fd == log_fd && ++closes == 1, "only the log descriptor is closed, once");
	errno = nd_int();
	return 0;
}
int v_kill(pid_t p, int sig)
{
	CHECK(p == 4711, "this process");
	CHECK(sig == cur_sig && acts[sig] == 4, "fatal signal delivered again with default disposition");
	CHECK(writes > 0, "after it was reported");
	kills++;
	return 0;
}
int v_raise(int sig) { return v_kill(4711, sig); }
pid_t v_getpid(void) { return 4711; }
int v_sigemptyset(sigset_t *s)
{
	memset(s, 0, sizeof(*s));
	return 0;
}
void (*v_signal(int sig, void (*f)(int)))(int)
{
	CHECK(sig > 0 && sig < 65, "signal number");
	if (initialising && n_fail == 0 && nd_bool()) {
		n_fail++;
		return SIG_ERR;
	}
	acts[sig] = f == SIG_IGN ? 3 : f == SIG_DFL ? 4 : 1;
	return SIG_DFL;
}
int v_sigaction(int sig, const struct sigaction *a, struct sigaction *o)
{
	(void) o;
	CHECK(sig > 0 && sig < 65, "signal number");
	if (initialising && n_fail == 0 && nd_bool()) {
		n_fail++;
		return -1;
	}
	if (a->sa_flags & SA_SIGINFO) {
		acts[sig] = 2;
		on_fatal = a->sa_sigaction;
	} else if (a->sa_handler == SIG_DFL) {
		acts[sig] = 4;
	} else if (a->sa_handler == SIG_IGN) {
		acts[sig] = 3;
	} else {
		acts[sig] = 1;
		on_shutdown = a->sa_handler;
	}
	return 0;
}
void v_exit_now(int code)
{
	(void) code;
	CHECK(will != 0 || no_sends || (sends == 1 && !send_ok), "terminates only when repeated, unhandled or not deliverable");
	CHECK(will == 0 || sends == 0, "a repeated signal sends nothing");
	if (will == 0)
		CHECK((code == 0) == no_sends, "exit status");
	else
		CHECK(code != 0, "exit status when forced");
	CHECK(writes > 0, "reported");
#ifdef SHUT
	REACH_IF(will != 0, "forced");
	REACH_IF(will == 0 && no_sends, "no descriptor");
	REACH_IF(will == 0 && !no_sends, "write failed");
#endif
	V_END_CASE;
}

/* ---------------------------------------------------------------- X02 */
void h_init(void)
{
	initialising = true;
	sc_signal_log_fd = 5;
	sc_signal_shutdown_fd = 6;
	int rc = sc_signal_init();
	CHECK(rc == (n_fail ? -1 : 0), "failure to install a handler reported");
	CHECK(sc_signal_log_fd == -1 && sc_signal_shutdown_fd == -1, "no descriptors configured");
	if (rc == 0) {
		CHECK(acts[SIGINT] == 1 && acts[SIGTERM] == 1, "shutdown signals");
		CHECK(acts[SIGSEGV] == 2 && acts[SIGABRT] == 2 && acts[SIGBUS] == 2 && acts[SIGFPE] == 2 && acts[SIGILL] == 2, "fatal signals");
		CHECK(acts[SIGPIPE] == 3, "SIGPIPE ignored");
	}
	REACH_IF(rc == 0, "installed");
	REACH_IF(rc != 0, "failed");
}

static void configure(int def)
{
	initialising = false;
	int rc = sc_signal_init();
	CHECK(rc == 0, "installed");
	bool l = nd_bool();
	if (l)
		sc_signal_log_fd = 5;
	log_fd = l ? 5 : def;
	no_sends = nd_bool();
	to_fd = 6;
	if (!no_sends)
		sc_signal_shutdown_fd = 6;
}

void h_shutdown(void)
{
	FOR_CASE(k, 4)
	{
		configure(STDOUT_FILENO);
		will = (int) (k >> 1);
		sc_signal_will_shutdown = will;
		cur_sig = k & 1 ? SIGINT : SIGTERM;
		int e = nd_int();
		errno = e;
		on_shutdown(cur_sig);
		/* only a delivered first signal gets here */
		CHECK(will == 0 && sends == 1 && send_ok, "goes on only when the application was told");
		CHECK(sc_signal_will_shutdown != 0, "remembered");
		CHECK(errno == e, "errno preserved");
		CHECK(kills == 0 && closes == 0, "nothing else");
		REACH("delivered");
		/* again: the next one must end the process (checked in _Exit) */
		sends = 0;
		will = 1;
		on_shutdown(k & 1 ? SIGTERM : SIGINT);
		CHECK(0, "a repeated signal ends the process");
	}
}

void h_fatal(void)
{
	static const int sigs[] = {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL};
	FOR_CASE(k, 5)
	{
		configure(STDERR_FILENO);
		no_sends = true;
		cur_sig = sigs[k];
		siginfo_t info;
		memset(&info, 0, sizeof(info));
		on_fatal(cur_sig, &info, NULL);
		CHECK(kills == 1 && closes == 1 && writes > 0, "reported, closed, delivered again");
		REACH("delivered again");
	}
}

/* ---------------------------------------------------------------- X01 */
static char want[80];
static size_t wl;
static void put(char c)
{
	if (wl < sizeof(want))
		want[wl++] = c;
}
static void puts_(const char *s, size_t max)
{
	for (size_t i = 0; i < max && s[i] != '\0'; i++)
		put(s[i]);
}

static char *buf;
static size_t sz;
static void check_text(int r)
{
	size_t n = sz == 0 ? 0 : wl < sz - 1 ? wl : sz - 1;
	CHECK(r == (int) n, "number of bytes written");
	for (size_t i = 0; i < sizeof(want); i++)
		if (i < n)
			CHECK(buf[i] == want[i], "printf's text, cut to the buffer");
	if (sz != 0)
		CHECK(buf[n] == '\0', "terminated");
}

/* text, strings and %% in every arrangement of the list, any buffer size */
void h_text(void)
{
	static const char *const fmts[] = {"%s", "a%sb", "%s%s", "%%", "%%%s", "x%%y%s", "", "abcdefgh", "%s%%", "%sq%sr"};
	FOR_CASE(f, 10)
	{
		const char *fmt = fmts[f];
		char *s[2];
		for (int k = 0; k < 2; k++) {
			s[k] = malloc(N + 1);
			size_t l = nd_range(0, N);
			for (size_t i = 0; i < N; i++) {
				s[k][i] = (char) nd_u8();
				ASSUME((s[k][i] == '\0') == (i >= l));
			}
			s[k][N] = '\0';
		}
		bool null = nd_bool();
		const char *a0 = null ? NULL : s[0];
		sz = nd_range(0, SZMAX);
		buf = malloc(SZMAX + 1);
		for (size_t i = 0; i < SZMAX + 1; i++)
			buf[i] = (char) 0xA5;
		int k = 0;
		for (size_t i = 0; fmt[i] != '\0'; i++) {
			if (fmt[i] != '%') {
				put(fmt[i]);
			} else if (fmt[++i] == '%') {
				put('%');
			} else {
				if (k == 0 && null)
					puts_("(null)", 6);
				else
					puts_(s[k], N);
				k++;
			}
		}
		int r = sc_signal_snprintf(buf, sz, fmt, a0, s[1]);
		check_text(r);
		for (size_t i = 0; i < SZMAX + 1; i++)
			if (i >= sz)
				CHECK(buf[i] == (char) 0xA5, "nothing behind the buffer");
		REACH_IF(k == 2 && r == (int) wl && wl > 3, "fits");
		REACH_IF(k == 2 && r < (int) wl && sz > 2, "cut");
		REACH_IF(sz == 0, "no buffer");
	}
}

/* a free character as the directive ('?'), as the letter behind l or ll, or as
 * literal text ('!'): every unsupported directive is reported */
void h_any(void)
{
	static const char *const fmts[] = {"%?", "a%?", "%s%?", "%l?", "%ll?", "x%l?z", "%?%s", "!%s!", "%%a%?", "%%?"};
#ifndef CASE
#define CASE 0
#endif
	const int k = CASE;
	{
		char fmt[8], s[2];
		bool sup = true;
		unsigned char c = nd_u8();
		for (size_t i = 0; i < 8; i++) {
			char t = fmts[k][i];
			fmt[i] = t == '?' || t == '!' ? (char) c : t;
			if (t == '!')
				ASSUME(c != '%' && c != '\0');
			if (t == '?' && k != 9) {
				sup = false;
				ASSUME(c != 'd' && c != 'u');
				if (i > 0 && fmt[i - 1] == '%')
					ASSUME(c != 's' && c != 'p' && c != '%' && c != 'l');
				else if (i > 1 && fmt[i - 2] == '%')
					ASSUME(c != 'l');
			}
			if (t == '\0')
				break;
		}
		if (k == 9)
			ASSUME(c != '%' && c != '\0');
		s[0] = (char) nd_u8();
		s[1] = '\0';
		if (k == 7) {
			put((char) c);
			puts_(s, 1);
			put((char) c);
		} else if (k == 9) {
			put('%');
			put((char) c);
		}
		sz = nd_range(0, 6);
		buf = malloc(6);
		int r = sc_signal_snprintf(buf, sz, fmt, s, s, s);
		if (sup)
			check_text(r);
		else
			CHECK(r < 0, "unsupported directive reported");
		REACH_IF(c > 32 && sz == 5, "done");
	}
}

/* numbers: the text is parsed back, so no division is needed */
#ifndef FMT
#define FMT "%d"
#define KIND 0
#define BASE 0
#endif
#ifndef BITS
#define BITS 8
#endif
void h_num(void)
{
	uint64_t v = (uint64_t) BASE + nd_range(0, (1u << BITS) - 1), mag;
	bool neg = false;
	int r;
	sz = 32;
	buf = malloc(32);
	switch (KIND) {
	case 0:
		r = sc_signal_snprintf(buf, sz, FMT, (int) (uint32_t) v);
		neg = (int) (uint32_t) v < 0;
		mag = neg ? (uint64_t) 0 - (uint64_t) (int64_t) (int) (uint32_t) v : (uint32_t) v;
		break;
	case 1:
		r = sc_signal_snprintf(buf, sz, FMT, (long) v);
		neg = (int64_t) v < 0;
		mag = neg ? 0 - v : v;
		break;
	case 2:
		r = sc_signal_snprintf(buf, sz, FMT, (long long) v);
		neg = (int64_t) v < 0;
		mag = neg ? 0 - v : v;
		break;
	case 3:
		r = sc_signal_snprintf(buf, sz, FMT, (unsigned) v);
		mag = (uint32_t) v;
		break;
	case 4:
		r = sc_signal_snprintf(buf, sz, FMT, (unsigned long) v);
		mag = v;
		break;
	case 5:
		r = sc_signal_snprintf(buf, sz, FMT, (unsigned long long) v);
		mag = v;
		break;
	default:
		r = sc_signal_snprintf(buf, sz, FMT, (void *) (uintptr_t) v);
		mag = v;
		break;
	}
	CHECK(r > 0 && r < 32 && buf[r] == '\0', "length and terminator");
	int b = 0, digits = 0;
	uint64_t got = 0;
	CHECK((buf[0] == '-') == neg, "sign");
	if (neg)
		b = 1;
	if (KIND > 5) {
		CHECK(buf[0] == '0' && buf[1] == 'x', "0x");
		b = 2;
	}
	for (int i = 0; i < 24; i++) {
		if (i < b || i >= r)
			continue;
		char c = buf[i];
		bool dec = c >= '0' && c <= '9', hex = KIND > 5 && c >= 'a' && c <= 'f';
		CHECK(dec || hex, "digits");
		got = KIND > 5 ? got << 4 : got * 10;
		got += (uint64_t) (dec ? c - '0' : c - 'a' + 10);
		digits++;
	}
	CHECK(digits > 0 && digits <= 20 && (digits == 1 || buf[b] != '0'), "no leading zeros");
	CHECK(got == mag, "value");
	REACH_IF((v & 0xff) == 0x42, "number");
}

void h_log(void)
{
	char b[16], s[3];
	size_t l = nd_range(0, 2);
	for (size_t i = 0; i < 3; i++)
		s[i] = i < l ? 'q' : '\0';
	no_sends = true;
	log_fd = nd_int();
	size_t n = nd_range(0, 16);
	sc_signal_log(log_fd, b, n, (char *) "a%sb", s);
	CHECK(writes == 1 && wr_buf == b, "written once from the buffer");
	CHECK(wr_len == (n == 0 ? 0 : l + 2 < n - 1 ? l + 2 : n - 1), "exactly the formatted bytes");
	writes = 0;
	sc_signal_log(log_fd, b, n, (char *) "a%q", s);
	CHECK(writes == 0, "an unsupported format writes nothing");
	REACH_IF(wr_len == 4, "logged");
}
