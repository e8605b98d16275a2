/* F01: performance counters */
#include "verif.h"
#include "sc_perf.h"
#include <stdarg.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>
#include "nochecks.h"

#define N ((int) (sizeof(sc_perf_hw) / sizeof(sc_perf_hw[0])))
#define NFD 40
#define FD0 5
static bool is_open[NFD], was_read[NFD];
static int made, live, failures, reports, on, enables, disables;
static uint64_t clk[8], sum, began;   /* clock readings, in order */
static int nclk;
static int rows;
static bool started, clock_failed;
static bool time_row;

static bool fails(void)
{
	if (failures || !nd_bool())
		return false;
	failures++;
	errno = (int) nd_range(1, 133);
	return true;
}
long v_syscall(long nr, struct perf_event_attr *a, int pid, int cpu, int group, unsigned long flags)
{
	(void) nr;
	(void) flags;
	CHECK(pid == 0 && cpu == -1 && group == -1, "this process, any processor");
	CHECK(live < N && a->type == sc_perf_hw[live].type && a->config == sc_perf_hw[live].config, "each configured event once, in order");
	CHECK(a->disabled == 1, "not counting yet");
	CHECK(made < NFD, "bound");
	is_open[made] = true;
	live++;
	made++;
	if (fails())
		return -1;
	return FD0 + made - 1;
}
int v_prctl(int op)
{
	CHECK(live == N, "with all counters open");
	if (fails())
		return -1;
	if (op == PR_TASK_PERF_EVENTS_ENABLE) {
		CHECK(!on, "enabled while disabled");
		on = 1;
		enables++;
	} else {
		CHECK(op == PR_TASK_PERF_EVENTS_DISABLE && on, "disabled while enabled");
		on = 0;
		disables++;
	}
	return 0;
}
ssize_t v_read(int fd, void *b, size_t n)
{
	CHECK(fd >= FD0 && fd < FD0 + made && is_open[fd - FD0], "an open counter");
	CHECK(!was_read[fd - FD0] && !on, "read once, when stopped");
	CHECK(n == 24, "value and times");
	was_read[fd - FD0] = true;
	uint64_t *v = b;
	v[0] = 1000;
	v[1] = 10;
	v[2] = 10;
	if (fails())
		return nd_bool() ? -1 : 8;
	return 24;
}
int v_close(int fd)
{
	CHECK(fd >= FD0 && fd < FD0 + made && is_open[fd - FD0], "closes what it opened, once");
	CHECK(was_read[fd - FD0], "after reading it");
	is_open[fd - FD0] = false;
	live--;
	return nd_bool() ? -1 : 0;
}
int v_clock(int id, struct timespec *ts)
{
	(void) id;
	CHECK(nclk < 8, "bound");
	ts->tv_sec = (time_t) (clk[nclk] / 1000000000u);
	ts->tv_nsec = (long) (clk[nclk] % 1000000000u);
	nclk++;
	if (fails()) {
		clock_failed = true;
		return -1;
	}
	return 0;
}
void v_abort(void)
{
	CHECK(failures == 1 || !started, "gives up only when a call failed");
	CHECK(reports > 0 || clock_failed, "and says so");
	REACH("gave up");
	V_END_CASE;
}
static void names(const char *fmt, va_list va)
{
	bool time = false;
	for (size_t i = 0; fmt[i] != '\0'; i++) {
		if (fmt[i] != '%')
			continue;
		for (i++; fmt[i] == '-' || fmt[i] == '.' || (fmt[i] >= '0' && fmt[i] <= '9'); i++)
			;
		if (fmt[i] == 's') {
			const char *p = va_arg(va, const char *);
			if (rows < N && strcmp(p, sc_perf_hw[rows].name) == 0)
				rows++;
			else if (strcmp(p, "time (seconds)") == 0)
				time = true;
		} else if (fmt[i] == 'f') {
			double d = va_arg(va, double);
			if (time) {
				double w = (double) sum / 1e9;
				CHECK(d - w < 1e-9 && w - d < 1e-9, "accumulated time");
				time_row = true;
				time = false;
			}
		}
	}
}
int v_printf(const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	names(fmt, va);
	va_end(va);
	return 1;
}
int v_fprintf(FILE *f, const char *fmt, ...)
{
	(void) f;
	(void) fmt;
	reports++;
	return 1;
}
char *v_strerror(int e)
{
	(void) e;
	return "S";
}

/* start, pause, start, pause, ..., end with concrete readings of the clock */
#ifndef ROUNDS
#define ROUNDS 2
#endif
void h_perf(void)
{
	started = true;
	FOR_CASE(k, 4)
	{
		uint64_t t = k & 1 ? 999999999u : 7u;
		for (int i = 0; i < 8; i++) {
			clk[i] = t;
			t += i & 1 ? 3000000000u : k * 500000001u + 3;
		}
		int rounds = 1 + (int) (k % ROUNDS);
		for (int pass = 0; pass < 2; pass++) {
			nclk = 0;
			sum = 0;
			rows = 0;
			time_row = false;
			for (int i = 0; i < rounds; i++) {
				sc_perf_start();
				CHECK(live == N && on, "all counters open and counting");
				if (i + 1 < rounds || k > 1) {
					sc_perf_pause();
					CHECK(live == N && !on, "paused");
					sc_perf_pause();
					CHECK(nclk == 2 * i + 2 && disables == enables, "pausing twice does nothing");
				}
				sum += clk[2 * i + 1] - clk[2 * i];
			}
			sc_perf_end();
			CHECK(live == 0 && !on, "everything closed");
			CHECK(rows == N && time_row, "every event and the time reported");
			CHECK(enables == disables, "balanced");
		}
		REACH("two measurements");
	}
}
void h_misuse(void)
{
	if (nd_bool())
		sc_perf_pause();
	else
		sc_perf_end();
	CHECK(0, "without a start the call is refused");
}
