/*
 * Timer wheel: histories of add / cancel / poll with symbolic timeouts and
 * clock readings against the list of timers that should be pending.
 */
#include "verif.h"
#include "sc_timer.h"
#include "nochecks.h"

V_TYPED(timer, struct sc_timer_data)

#define RES 16 /* documented resolution in ms */
#ifndef MAXT
#define MAXT 12
#endif

static struct sc_timer t;
static uint64_t now;
static int n;             /* timers added so far */
static uint64_t ids[MAXT], due[MAXT], type[MAXT];
static bool pend[MAXT];
static unsigned fired[MAXT];
static const char *cbp;   /* what callbacks do, one step each */
static uint64_t same;     /* timeout of 's' */
static void step(char c);
static int token;
static bool polling;

static void add(uint64_t timeout)
{
	int f = v_failed;
#ifdef TMASK
	timeout &= TMASK;
#else
	ASSUME(timeout < UINT64_MAX / 2);
#endif
	due[n] = now + timeout;
	type[n] = 0xA5C3F00F96610100ull + (unsigned) n;
	ids[n] = sc_timer_add(&t, timeout, type[n], (void *) (uintptr_t) (n + 1));
	if (v_failed != f) {
		CHECK(ids[n] == SC_TIMER_INVALID, "an addition without memory reports an invalid handle");
		return;
	}
	CHECK(ids[n] != SC_TIMER_INVALID, "an addition with memory succeeds");
	/* handles of pending timers are distinct */
	for (int i = 0; i < n; i++)
		if (pend[i])
			CHECK(ids[i] != ids[n], "pending timers have different handles");
	pend[n] = true;
	n++;
}

static void cancel(int i)
{
	sc_timer_cancel(&t, &ids[i]);
	CHECK(ids[i] == SC_TIMER_INVALID, "cancelling clears the handle");
	pend[i] = false;
}

static void cb(void *arg, uint64_t timeout, uint64_t ty, void *data)
{
	uintptr_t d = (uintptr_t) data;
	CHECK(polling && arg == &token, "the caller's argument is passed");
	CHECK(d >= 1 && d <= (uintptr_t) n, "the timer's data is passed");
	for (int i = 0; i < n; i++)
		if (d == (uintptr_t) i + 1) {
			CHECK(pend[i], "only pending timers fire, once");
			CHECK(ty == type[i], "the timer's type is passed");
			CHECK(timeout == due[i], "the timer's due time is passed");
			CHECK(due[i] <= now, "a timer never fires early");
			pend[i] = false;
			fired[i]++;
			ids[i] = SC_TIMER_INVALID;
		}
	while (*cbp) {
		char c = *cbp++;
		if (c == ';')
			break;
		step(c);
	}
}

static void poll(uint64_t at)
{
	now = at;
	polling = true;
	uint64_t d = sc_timer_timeout(&t, now, &token, cb);
	polling = false;
	CHECK(d <= RES, "the advised delay is at most one tick");
	for (int i = 0; i < n; i++)
		if (pend[i])
			CHECK(now - due[i] > UINT64_MAX / 2 || now - due[i] < RES, "no timer is more than a tick late");
	/* sleeping as advised misses nothing: at the next tick at the latest
	 * something can be processed */
	CHECK(d > 0 || now == at, "advice");
}

/* start of the clock, timeout of 's', advances of the polls */
#ifndef SCEN
#define SCEN {0, 16, 300}
#endif
static const uint64_t scen[][6] = {SCEN};
#define N_SCEN (sizeof(scen) / sizeof(*scen))

#ifndef PROG
#define PROG "aapp"
#endif
#ifndef FAILAT
#define FAILAT 0
#endif
#ifndef CBP
#define CBP ""
#endif
#ifndef WIT
#define WIT fired[0]
#endif
static void step(char c)
{
	switch (c) {
	case 'a': /* any timeout */
		add(nd_u64());
		break;
	case 's': /* a given timeout */
		add(same);
		break;
	case 'c':
		if (pend[0])
			cancel(0);
		break;
	case 'd':
		if (n > 0 && pend[n - 1])
			cancel(n - 1);
		break;
	case 'x':
		sc_timer_clear(&t);
		for (int i = 0; i < n; i++) {
			pend[i] = false;
			ids[i] = SC_TIMER_INVALID;
		}
		break;
	case 't':
		sc_timer_term(&t);
		CHECK(v_live == 0, "termination releases everything");
		for (int i = 0; i < n; i++) {
			pend[i] = false;
			ids[i] = SC_TIMER_INVALID;
		}
		break;
	}
}

static void history(const uint64_t *sc)
{
	v_reset(FAILAT);
	now = *sc++;
	same = *sc++;
	sc_timer_init(&t, now);
	n = 0;
	cbp = CBP;
	for (const char *p = PROG; *p; p++)
		if (*p == 'p')
			poll(now + *sc++);
		else
			step(*p);
	REACH_IF(WIT, "history");
	sc_timer_term(&t);
	CHECK(v_live == 0, "termination releases everything");
}

void h_history(void)
{
	FOR_CASE(c, N_SCEN)
	{
		history(scen[c]);
	}
}
