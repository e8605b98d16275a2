/* D01: clock conversion and sleeping */
#include "verif.h"
#include "sc_time.h"
#include <time.h>
#include "nochecks.h"

static struct timespec now;
static clockid_t asked;
static int clocks;
int v_clock_gettime(clockid_t id, struct timespec *ts)
{
	asked = id;
	clocks++;
	*ts = now;
	return 0;
}
int v_gettimeofday(struct timeval *tv, void *tz)
{
	(void) tz;
	asked = CLOCK_REALTIME;
	clocks++;
	tv->tv_sec = now.tv_sec;
	tv->tv_usec = now.tv_nsec / 1000;
	return 0;
}

static void any_time(uint64_t max)
{
	now.tv_sec = (time_t) nd_range(0, max);
	now.tv_nsec = (long) nd_range(0, 999999999);
}

static uint64_t read_clock(int k)
{
	switch (k) {
	case 0: return sc_time_ms();
	case 1: return sc_time_ns();
	case 2: return sc_time_mono_ms();
	default: return sc_time_mono_ns();
	}
}

void h_clock(void)
{
	FOR_CASE(k, 4)
	{
		/* every reading whose result fits into 64 bits */
		any_time(k & 1 ? UINT64_MAX / 1000000000 - 1 : INT64_MAX / 1000);
		uint64_t ms = nd_range(0, 999), ns = ms * 1000000 + nd_range(0, 999999);
		now.tv_nsec = (long) ns;
		uint64_t s = (uint64_t) now.tv_sec;
		errno = nd_int();
		uint64_t v = read_clock((int) k);
		CHECK(asked == (k < 2 ? CLOCK_REALTIME : CLOCK_MONOTONIC) && clocks == 1, "the clock asked for");
		if (k & 1)
			CHECK(v == s * 1000000000u + ns, "nanoseconds");
		else
			CHECK(v == s * 1000 + ms, "milliseconds");
		REACH_IF(s > 1700000000 && v % 7 == 3, "time");
	}
}

/* later system time, later reading */
void h_monotone(void)
{
	FOR_CASE(k, 4)
	{
		any_time((uint64_t) 1 << 33);
		struct timespec a = now;
		uint64_t v = read_clock((int) k);
		any_time((uint64_t) 1 << 33);
		ASSUME(now.tv_sec > a.tv_sec || (now.tv_sec == a.tv_sec && now.tv_nsec >= a.tv_nsec));
		uint64_t w = read_clock((int) k);
		CHECK(w >= v, "readings do not decrease");
		REACH_IF(w == v + 1, "advance");
	}
}

/* nanosleep: each call sleeps part of what it is asked and is interrupted,
 * fails, or completes */
#ifndef STEPS
#define STEPS 3
#endif
#ifndef BASE
#define BASE 0
#endif
#ifndef WINDOW
#define WINDOW 1023
#endif
static int calls, fail_errno;
static struct timespec left; /* of the whole sleep */
static bool done, failed;
int v_nanosleep(const struct timespec *t, struct timespec *rem)
{
	CHECK(!done && !failed, "no call after the end");
	CHECK(t->tv_nsec >= 0 && t->tv_nsec <= 999999999 && t->tv_sec >= 0, "valid duration");
	CHECK(t->tv_sec == left.tv_sec && t->tv_nsec == left.tv_nsec, "exactly what is left");
	calls++;
	uint8_t what = nd_u8();
	ASSUME(what < 3 && (calls < STEPS || what != 1));
	if (what == 0) {
		done = true;
		errno = nd_int();
		return 0;
	}
	if (what == 1) {
		struct timespec n;
		n.tv_sec = (time_t) nd_u64();
		n.tv_nsec = (long) nd_range(0, 999999999);
		ASSUME(n.tv_sec >= 0 && (n.tv_sec < left.tv_sec || (n.tv_sec == left.tv_sec && n.tv_nsec <= left.tv_nsec)));
		left = n;
		if (rem != NULL)
			*rem = n;
		errno = EINTR;
		return -1;
	}
	failed = true;
	fail_errno = nd_int();
	ASSUME(fail_errno != EINTR && fail_errno != 0);
	errno = fail_errno;
	return -1;
}
int v_clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rem)
{
	(void) id;
	CHECK(flags == 0, "relative sleep");
	int rc = v_nanosleep(t, rem);
	return rc == 0 ? 0 : errno;
}
int v_usleep(useconds_t us)
{
	struct timespec t = {us / 1000000, us % 1000000 * 1000};
	return v_nanosleep(&t, NULL);
}

void h_sleep(void)
{
	/* seconds and milliseconds chosen, the duration computed: no division */
	uint64_t sec = nd_range(0, WINDOW), rest = nd_range(0, 999);
	sec += BASE;
	uint64_t ms = sec * 1000 + rest;
	left.tv_sec = (time_t) sec;
	left.tv_nsec = (long) rest * 1000000;
	errno = nd_int();
	int rc = sc_time_sleep(ms);
	CHECK(calls > 0 && (done || failed), "slept to the end or failed");
	CHECK((rc == 0) == done, "failure reported");
	CHECK(!failed || errno == fail_errno, "reason kept");
	REACH_IF(calls == STEPS && done, "interrupted and resumed");
	REACH_IF(failed && calls == 2, "failed");
}
