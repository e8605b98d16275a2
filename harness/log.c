/* N01 log lines, N02 log files */
#include "verif.h"
#include "sc_log.h"
#include <pthread.h>
#include <stdarg.h>
#include <time.h>

char *v_strncpy(char *d, const char *s, size_t n)
{
	bool end = false;
	for (size_t i = 0; i < n; i++) {
		if (!end && s[i] == '\0')
			end = true;
		d[i] = end ? '\0' : s[i];
	}
	return d;
}
#include "nochecks.h"
int v_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }

/* ---------------------------------------------------------------- system */
static int attrs, mutexes, depth, failures;
static pthread_mutex_t *mtx;
static bool fails(void)
{
	if (!nd_bool())
		return false;
	failures++;
	errno = (int) nd_range(1, 133);
	return true;
}
int v_attr_init(pthread_mutexattr_t *a)
{
	(void) a;
	if (fails())
		return errno;
	attrs++;
	return 0;
}
int v_attr_settype(pthread_mutexattr_t *a, int t)
{
	(void) a;
	(void) t;
	return 0;
}
int v_attr_destroy(pthread_mutexattr_t *a)
{
	(void) a;
	attrs--;
	CHECK(attrs == 0, "attribute released once");
	return 0;
}
int v_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	CHECK(a == NULL || attrs == 1, "valid attribute");
	CHECK(mutexes == 0, "one mutex");
	if (fails())
		return errno;
	mutexes++;
	mtx = m;
	return 0;
}
int v_mutex_destroy(pthread_mutex_t *m)
{
	CHECK(mutexes == 1 && m == mtx && depth == 0, "destroys the mutex it created, unlocked");
	mutexes--;
	return 0;
}
int v_lock(pthread_mutex_t *m)
{
	CHECK(mutexes == 1 && m == mtx && depth == 0, "locks its mutex");
	depth++;
	return 0;
}
int v_unlock(pthread_mutex_t *m)
{
	CHECK(mutexes == 1 && m == mtx && depth == 1, "unlocks its mutex");
	depth--;
	return 0;
}

/* files: handle k is &handle[k]; file 0 is "current", file 1 is "prev" */
#define NH 8
static int handle[NH];
static bool h_open[NH];
static int nh, nopen, opened_append, renames;
static uint64_t bytes;          /* in the current file */
static const char *cur, *prev;
static char curbuf[300], prevbuf[300];
static bool same(const char *a, const char *b)
{
	for (size_t i = 0; i < 300; i++) {
		if (a[i] != b[i])
			return false;
		if (a[i] == '\0')
			return true;
	}
	return false;
}
static int hx(FILE *f)
{
	for (int i = 0; i < NH; i++)
		if ((void *) f == (void *) &handle[i]) {
			CHECK(h_open[i], "an open file");
			return i;
		}
	return -1;
}
FILE *v_fopen(const char *n, const char *m)
{
	CHECK(depth == 1, "under the lock");
	CHECK(cur != NULL && same(n, cur), "opens the current file's name");
	CHECK(nopen == 0, "at most one file open");
	if (fails())
		return NULL;
	if (m[0] == 'a')
		opened_append++;
	else
		bytes = 0;
	CHECK(m[0] == 'a' || m[0] == 'w', "opened for writing");
	CHECK(nh < NH, "bound");
	h_open[nh] = true;
	nopen++;
	return (FILE *) (void *) &handle[nh++];
}
int v_fclose(FILE *f)
{
	int k = hx(f);
	CHECK(k >= 0, "closes a log file, never a standard stream");
	if (k < 0)
		return 0;
	h_open[k] = false;
	nopen--;
	return fails() ? EOF : 0;
}
int v_fflush(FILE *f)
{
	(void) f;
	return 0;
}
int v_fseek(FILE *f, long o, int w)
{
	CHECK(hx(f) >= 0 && o == 0 && w == SEEK_END, "to the end");
	return 0;
}
long v_ftell(FILE *f)
{
	CHECK(hx(f) >= 0, "a log file");
	if (fails())
		return -1;
	return (long) bytes;
}
int v_rename(const char *a, const char *b)
{
	CHECK(depth == 1 && nopen == 0, "the file is closed before it is renamed");
	CHECK(cur != NULL && same(a, cur) && same(b, prev), "current becomes previous");
	renames++;
	errno = nd_int();
	if (nd_bool())
		return -1;
	bytes = 0;
	return 0;
}
int v_remove(const char *a)
{
	CHECK(same(a, prev), "only the previous file may go");
	return 0;
}
time_t v_time(time_t *t)
{
	time_t v = (time_t) nd_u32();
	if (t != NULL)
		*t = v;
	return v;
}
static bool lt_fail;
struct tm *v_localtime_r(const time_t *t, struct tm *r)
{
	(void) t;
	if (fails()) {
		lt_fail = true;
		return NULL;
	}
	memset(r, 0, sizeof(*r));
	r->tm_year = 126;
	r->tm_mday = 20;
	return r;
}

/* sinks: 0 standard stream, 1 file, 2 callback */
static int heads[2], msgs[2], bad[2], cbs, cbret;
static const char *the_fmt;
static int the_arg, level;
static bool saw_level, saw_name;
static char tname[48];
static size_t tname_len;
static void *cb_arg;
static int sink_of(FILE *f)
{
	if (f == stdout || f == stderr) {
		CHECK(f == (level == SC_LOG_ERROR ? stderr : stdout), "errors to stderr, the rest to stdout");
		return 0;
	}
	CHECK(hx(f) >= 0, "an open log file");
	return 1;
}
static int out(int s)
{
	if (fails()) {
		bad[s]++;
		return -1;
	}
#ifdef BIG
	int n = (int) nd_range(0, BIG);
#else
	int n = (int) nd_range(0, 200);
#endif
	if (s == 1)
		bytes += (uint64_t) n;
	return n;
}
static bool in_set_file;
static void walk(const char *fmt, va_list va)
{
	for (size_t i = 0; fmt[i] != '\0'; i++) {
		if (fmt[i] != '%')
			continue;
		for (i++; fmt[i] == '-' || (fmt[i] >= '0' && fmt[i] <= '9'); i++)
			;
		if (fmt[i] == 'd') {
			(void) va_arg(va, int);
		} else if (fmt[i] == 's') {
			const char *p = va_arg(va, const char *);
			if (level <= SC_LOG_OFF && p == sc_log_levels[level].str)
				saw_level = true;
			else if (same(p, sc_log_levels[level].str))
				saw_level = true;
#ifdef NAMES
			bool eq = true, end = false;
			for (size_t k = 0; k < 32; k++) {
				if (end)
					continue;
				if (p[k] == '\0') {
					end = true;
					if (k != tname_len && k != 31)
						eq = false;
				} else if (p[k] != tname[k]) {
					eq = false;
					end = k < 8 ? true : end;
				}
			}
			CHECK(end, "thread name terminated");
			saw_name = eq;
#endif
		}
	}
}
int v_fprintf(FILE *f, const char *fmt, ...)
{
	CHECK(depth == 1, "written under the lock");
	if (in_set_file) {
		CHECK(hx(f) >= 0, "an open log file");
		return out(1);
	}
	int s = sink_of(f);
	CHECK(msgs[s] == 0, "header before the message");
	heads[s]++;
	va_list va;
	va_start(va, fmt);
	walk(fmt, va);
	va_end(va);
	return out(s);
}
int v_vfprintf(FILE *f, const char *fmt, va_list va)
{
	CHECK(depth == 1, "written under the lock");
	int s = sink_of(f);
	CHECK(heads[s] == 1 && bad[s] == 0, "after a complete header");
	CHECK(fmt == the_fmt && va_arg(va, int) == the_arg, "the caller's message");
	msgs[s]++;
	return out(s);
}
static int cb(void *arg, enum sc_log_level l, const char *fmt, va_list va)
{
	CHECK(depth == 1, "called under the lock");
	CHECK(arg == cb_arg && (int) l == level && fmt == the_fmt && va_arg(va, int) == the_arg, "the caller's message");
	cbs++;
	cbret = nd_bool() ? -1 : 0;
	return cbret;
}

static int emit(int l)
{
	static const char f[] = "m %d\n";
	level = l;
	the_fmt = f;
	the_arg = nd_int();
	for (int i = 0; i < 2; i++)
		heads[i] = msgs[i] = bad[i] = 0;
	cbs = cbret = 0;
	lt_fail = saw_level = saw_name = false;
	failures = 0;
	return sc_log_log((enum sc_log_level) l, f, the_arg);
}
static void check_line(int rc, bool on, bool std, bool file, bool call)
{
	CHECK(depth == 0, "lock released");
	if (!on) {
		CHECK(heads[0] + heads[1] + msgs[0] + msgs[1] + cbs == 0, "a suppressed line goes nowhere");
		CHECK(rc == 0, "nothing failed");
		return;
	}
	CHECK(std || heads[0] + msgs[0] == 0, "standard stream only when enabled");
	CHECK(file || heads[1] + msgs[1] == 0, "file only when enabled");
	CHECK(cbs == (call ? 1 : 0), "callback once when enabled");
	bool fail0 = std && (msgs[0] != 1 || bad[0]), fail1 = file && (msgs[1] != 1 || bad[1]);
	CHECK(!fail0 || bad[0] || lt_fail, "written to the standard stream");
	CHECK(!fail1 || bad[1] || lt_fail, "written to the file");
	CHECK(msgs[0] <= 1 && msgs[1] <= 1, "written once");
	if (fail0 || fail1 || cbret != 0)
		CHECK(rc < 0, "failure reported");
	else if (failures == 0)
		CHECK(rc == 0, "success");
	CHECK((heads[0] + heads[1] == 0) || saw_level, "level named in the line");
}

/* ------------------------------------------------------------------- N01 */
static const char *const names[] = {"DEBUG", "INFO", "WARN", "ERROR", "OFF"};
void h_init(void)
{
	int rc = sc_log_init();
	int e = errno;
	CHECK(attrs == 0, "attribute released");
	if (failures) {
		CHECK(rc < 0 && mutexes == 0 && e != 0, "failure reported with errno");
		CHECK(sc_log_term() < 0, "nothing to terminate");
		REACH("failed");
		return;
	}
	CHECK(rc == 0 && mutexes == 1, "initialised");
	CHECK(sc_log_term() == 0 && mutexes == 0, "terminated");
	CHECK(sc_log_term() < 0 && mutexes == 0, "terminated once");
	REACH("worked");
}
static void start(void)
{
	ASSUME(stdout != stderr);
	for (int i = 0; i < NH; i++)
		ASSUME((void *) stdout != (void *) &handle[i] && (void *) stderr != (void *) &handle[i]);
	int rc = sc_log_init();
	ASSUME(rc == 0);
	failures = 0;
}
void h_levels(void)
{
	start();
	int set = (int) nd_range(0, 5), cur_level = SC_LOG_INFO;
	FOR_CASE(k, 6)
	{
		if (k < 5) {
			char t[8];
			for (size_t i = 0; i < 8; i++)
				t[i] = '\0';
			for (size_t i = 0; names[k][i] != '\0'; i++)
				t[i] = nd_bool() ? (char) (names[k][i] + 32) : names[k][i];
			CHECK(sc_log_set_level(t) == 0, "level names in any case");
			cur_level = (int) k;
			t[1] = '#';
			CHECK(sc_log_set_level(t) < 0, "anything else refused");
			CHECK(sc_log_set_level("") < 0, "nothing refused");
			CHECK(sc_log_set_level(k == 4 ? "OF" : "DEBU") < 0, "prefix refused");
			CHECK(sc_log_set_level("INFOS") < 0, "longer text refused");
		}
		int l = (int) nd_range(0, 3);
		int rc = emit(l);
		check_line(rc, l >= cur_level, true, false, false);
		(void) set;
		REACH_IF(heads[0] == 1 || cur_level == SC_LOG_OFF, "level");
		REACH_IF(heads[0] == 0 || cur_level == SC_LOG_DEBUG, "suppressed");
	}
}
void h_sinks(void)
{
	cur = "c";
	prev = "p";
	start();
	bool file = nd_bool(), std = nd_bool(), call = nd_bool(), twice = nd_bool();
	if (file) {
		in_set_file = true;
		int rc = sc_log_set_file("p", "c");
		in_set_file = false;
		ASSUME(rc == 0);
	}
	sc_log_set_stdout(std);
	cb_arg = (void *) (uintptr_t) nd_u64();
	if (call || twice)
		sc_log_set_callback(cb_arg, cb);
	if (twice && !call)
		sc_log_set_callback(NULL, NULL);
	int l = (int) nd_range(0, 3);
	int rc = emit(l);
	check_line(rc, l >= SC_LOG_INFO, std, file, call);
	REACH_IF(rc == 0 && msgs[0] && msgs[1] && cbs, "all sinks");
	REACH_IF(rc < 0 && bad[0] && msgs[1] && !bad[1] && cbs, "others not silenced");
	REACH_IF(rc < 0 && bad[1] && msgs[0] && cbs, "file failed");
	REACH_IF(l >= SC_LOG_INFO && !std && !file && !call, "no sink");
}
#ifdef NAMES
void h_names(void)
{
	start();
	FOR_CASE(k, 5)
	{
		static const size_t lens[] = {0, 1, 30, 31, 40};
		tname_len = lens[k];
		for (size_t i = 0; i < sizeof(tname); i++)
			tname[i] = i < tname_len ? 'n' : '\0';
		if (tname_len > 0) {
			tname[0] = (char) nd_range(1, 127);
			tname[tname_len - 1] = (char) nd_range(1, 127);
		}
		sc_log_set_thread_name("a much longer thread name than the buffer can hold");
		sc_log_set_thread_name(tname);
		emit(SC_LOG_INFO);
		CHECK(heads[0] == 0 || saw_name, "thread name, cut to the buffer");
		REACH_IF(heads[0] == 1, "named");
	}
}
#endif

/* ------------------------------------------------------------------- N02 */
static int opened;
static int set_file(const char *p, const char *c)
{
	prev = p;
	cur = c;
	failures = 0;
	in_set_file = true;
	int o = opened_append;
	errno = 7;
	int rc = sc_log_set_file(p, c);
	int e = errno;
	in_set_file = false;
	CHECK(depth == 0, "lock released");
	if (p == NULL || c == NULL) {
		CHECK(rc == 0 && nopen == 0, "disabled");
	} else if (rc == 0) {
		CHECK(nopen == 1 && opened_append == o + 1, "one file, opened for appending");
	} else {
		CHECK(rc == -1 && nopen == 0 && e != 0, "failure reported, nothing open");
	}
	return rc;
}
#ifndef BIG
#define LIMIT_SLACK 200
#else
#define LIMIT_SLACK BIG
#endif
#ifndef NLINES
#define NLINES 2
#endif
void h_files(void)
{
	start();
	bool std = nd_bool();
	sc_log_set_stdout(std);
	bytes = nd_range(0, 0x7fffffff);
	uint64_t before = bytes;
	int rc = set_file("p", "c");
	CHECK(rc == 0 || failures > 0, "fails only when a call failed");
	CHECK(rc != 0 || bytes >= before, "old contents kept");
	bool file = rc == 0;
	REACH_IF(file && before > SC_LOG_FILE_SIZE, "already too large");
	for (int i = 0; i < NLINES; i++) {
		int r0 = renames, h0 = nh;
		uint64_t b0 = bytes;
		rc = emit(SC_LOG_WARN);
		check_line(rc, true, std, file, false);
		CHECK(nopen <= (file ? 1 : 0), "at most one file");
		if (!file)
			continue;
		if (renames != r0) {
			CHECK(renames == r0 + 1 && b0 + 2 * LIMIT_SLACK >= SC_LOG_FILE_SIZE, "rotated once, when the limit is reached");
			CHECK(nopen == 1 || rc < 0, "failure to open the new file reported");
			CHECK(nopen == 0 || (nh == h0 + 1 && bytes == 0), "new file started");
			file = nopen == 1;
			REACH_IF(file, "rotated");
			REACH_IF(!file, "lost the file");
		} else {
			CHECK(nopen == 1, "file stays open");
			CHECK(bytes <= SC_LOG_FILE_SIZE || bad[1] || lt_fail, "rotated when the limit is reached");
		}
	}
	if (nd_bool()) {
		rc = nd_bool() ? set_file(NULL, "c") : set_file("p2", "c2");
		file = rc == 0 && prev != NULL;
	}
	int t = sc_log_term();
	CHECK(nopen == 0 && mutexes == 0, "closed");
	REACH_IF(t < 0, "close failed");
#ifdef BIG
	REACH_IF(t == 0 && nh == 2 + NLINES, "reconfigured after rotations");
#else
	REACH_IF(t == 0 && nh == 3, "reconfigured after a rotation");
#endif
}
/* file names of every relevant length */
void h_lengths(void)
{
	start();
	FOR_CASE(kk, 10)
	{
		static const size_t lens[] = {1, 254, 255, 256, 290};
		size_t k = kk >> 1;
		bool which = kk & 1;
		for (size_t i = 0; i < 300; i++) {
			curbuf[i] = i < (which ? lens[k] : 9) ? 'c' : '\0';
			prevbuf[i] = i < (which ? 9 : lens[k]) ? 'p' : '\0';
		}
		failures = 0;
		int rc = set_file(prevbuf, curbuf);
		CHECK(k < 2 || k == 2 || rc == -1, "names that do not fit are refused");
		CHECK(k >= 2 || rc == 0 || failures > 0, "names that fit are accepted");
		bytes = SC_LOG_FILE_SIZE + 1;
		if (rc == 0) {
			rc = emit(SC_LOG_ERROR);
			CHECK(nopen <= 1, "at most one file");
		}
		REACH_IF(nopen == 1 || k > 1, "used");
		sc_log_term();
		CHECK(nopen == 0, "closed");
	}
}
