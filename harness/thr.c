/* E01 mutex, E02 condition variable, E03 thread; pthread is the harness */
#include "verif.h"
#include <pthread.h>
#ifdef WITH_MUTEX
#include "sc_mutex.h"
#endif
#ifdef WITH_COND
#include "sc_cond.h"
#endif
#ifdef WITH_THREAD
#include "sc_thread.h"
#endif
#include "nochecks.h"

/* ---- fault injection: any subset of the calls that may fail ---- */
static int fail_budget;
static int first_err, n_fail;
static int fails(void)
{
	if (fail_budget <= 0 || !nd_bool())
		return 0;
	fail_budget--;
	int e = (int) nd_range(1, 133);
	if (n_fail++ == 0)
		first_err = e;
	return e;
}

static int attrs, mutexes, conds; /* alive */
static const void *attr_p, *mutex_p, *cond_p;
static int attr_type;

int v_mattr_init(pthread_mutexattr_t *a)
{
	int e = fails();
	if (e)
		return e;
	CHECK(attrs == 0, "one attribute object at a time");
	attrs++;
	attr_p = a;
	attr_type = PTHREAD_MUTEX_DEFAULT;
	return 0;
}
int v_mattr_settype(pthread_mutexattr_t *a, int t)
{
	CHECK(attrs == 1 && attr_p == a, "attribute object in use is initialised");
	attr_type = t;
	return 0;
}
int v_mattr_destroy(pthread_mutexattr_t *a)
{
	CHECK(attrs == 1 && attr_p == a, "attribute object destroyed once");
	attrs--;
	return 0;
}
int v_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	CHECK(a == NULL || (attrs == 1 && attr_p == a), "attribute object in use is initialised");
	int e = fails();
	if (e)
		return e;
	CHECK(mutexes == 0, "mutex initialised once");
	mutexes++;
	mutex_p = m;
	return 0;
}
int v_mutex_destroy(pthread_mutex_t *m)
{
	CHECK(mutexes == 1 && mutex_p == m, "mutex destroyed once");
	int e = fails();
	mutexes--;
	return e;
}
int v_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	(void) a;
	int e = fails();
	if (e)
		return e;
	CHECK(conds == 0, "condition initialised once");
	conds++;
	cond_p = c;
	return 0;
}
int v_cond_destroy(pthread_cond_t *c)
{
	CHECK(conds == 1 && cond_p == c, "condition destroyed once");
	int e = fails();
	conds--;
	return e;
}
static char err_text[2];
static int err_asked;
char *v_strerror(int e)
{
	err_asked = e;
	err_text[0] = (char) ('A' + (e & 15));
	err_text[1] = '\0';
	return err_text;
}

/* ---- threads of the schedule model ---- */
#ifdef WITH_COND
#ifndef PROG
#define PROG "sw"
#endif
#define NT ((int) sizeof(PROG) - 1)
static struct sc_cond cv;
static bool started[8];
static int cur = -1, depth;    /* running thread, suspended ones */
static int owner = -1;         /* of the mutex */
static bool asleep[8], woken[8];
static bool pending;           /* a signal not consumed yet */
static void *pdata, *got[8];
static int sections[8];
static int spurious;
static bool snap_done;
static void *snap_data;
static bool snapped;
static void run_thread(int t);
static bool finished_wait;
static bool slept_then_signalled;
static int sleeps;

/* any thread that has not started may run here to its end, unless it cannot
 * get the mutex */
static void point(void)
{
	if (owner != -1)
		return;
	for (int t = 0; t < NT; t++)
		if (!started[t] && nd_bool())
			run_thread(t);
}
int v_mutex_lock(pthread_mutex_t *m)
{
	CHECK(m == mutex_p && mutexes == 1, "the object's mutex");
	if (cur >= 0) {
		point();
		CHECK(owner != cur, "not locked twice by one thread");
		ASSUME(owner == -1);
		if (snapped)
			CHECK(cv.done == snap_done && cv.data == snap_data, "state changes only under the mutex");
	}
	owner = cur;
	return 0;
}
int v_mutex_trylock(pthread_mutex_t *m)
{
	return v_mutex_lock(m);
}
int v_mutex_unlock(pthread_mutex_t *m)
{
	CHECK(m == mutex_p, "the object's mutex");
	CHECK(owner == cur, "unlocked by its owner");
	if (cur >= 0) {
		sections[cur]++;
		CHECK(sections[cur] == 1, "one critical section per call");
		if (PROG[cur] == 'w') {
			CHECK(pending, "a waiter consumes a signal that was sent and not consumed");
			got[cur] = pdata;
			pending = false;
		} else {
			pending = true;
			pdata = (void *) (uintptr_t) (100 + cur);
		}
		snapped = true;
		snap_done = cv.done;
		snap_data = cv.data;
		owner = -1;
		point();
	}
	owner = -1;
	return 0;
}
static int wake(bool all)
{
	bool any = false;
	for (int t = 0; t < NT; t++)
		if (asleep[t] && !woken[t] && (all || !any)) {
			bool last = true;
			for (int u = t + 1; u < NT; u++)
				if (asleep[u] && !woken[u])
					last = false;
			if (all || last || nd_bool()) {
				any = true;
				woken[t] = true;
			}
		}
	return 0;
}
int v_cond_signal(pthread_cond_t *c)
{
	CHECK(c == cond_p && conds == 1, "the object's condition");
	point();
	return wake(false);
}
int v_cond_broadcast(pthread_cond_t *c)
{
	CHECK(c == cond_p && conds == 1, "the object's condition");
	point();
	return wake(true);
}
int v_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	int me = cur;
	CHECK(c == cond_p && m == mutex_p, "the object's condition and mutex");
	CHECK(owner == me, "the mutex is held when going to sleep");
	CHECK(snapped == false || (cv.done == snap_done && cv.data == snap_data), "nothing is consumed before sleeping");
	owner = -1;
	asleep[me] = true;
	woken[me] = false;
	sleeps++;
	point();
	asleep[me] = false;
	if (!woken[me]) {
		if (spurious > 0 && nd_bool()) {
			spurious--;
		} else {
			/* sleeps until somebody else does something */
			ASSUME(depth == 1);
			for (int t = 0; t < NT; t++)
				ASSUME(started[t]);
			CHECK(!pending, "no waiter sleeps forever while a signal is pending");
#ifdef LONELY
			REACH("sleeping forever");
#endif
			V_END_CASE;
		}
	} else {
		slept_then_signalled = true;
	}
	ASSUME(owner == -1);
	owner = me;
	return 0;
}
static void run_thread(int t)
{
	int was = cur;
	started[t] = true;
	cur = t;
	depth++;
	if (PROG[t] == 'w') {
		void *d = sc_cond_wait(&cv);
		CHECK(sections[t] == 1 && d == got[t], "wait returns the data of the latest signal");
		finished_wait = true;
	} else {
		sc_cond_signal(&cv, (void *) (uintptr_t) (100 + t));
		CHECK(sections[t] == 1, "signal takes effect");
	}
	CHECK(owner != t, "the mutex is released");
	depth--;
	cur = was;
}

void h_schedule(void)
{
	int rc = sc_cond_init(&cv);
	CHECK(rc == 0, "initialised");
	spurious = SPURIOUS;
	for (int i = 0; i < NT; i++)
		for (int t = 0; t < NT; t++)
			if (!started[t] && nd_bool())
				run_thread(t);
	for (int t = 0; t < NT; t++)
		ASSUME(started[t]);
#ifndef LONELY
	REACH_IF(slept_then_signalled, "slept and was signalled");
	REACH_IF(finished_wait && !slept_then_signalled, "did not need to sleep");
#endif
}

void h_cond_init(void)
{
	struct sc_cond c;
	memset(&c, nd_bool() ? 0xff : 0, sizeof(c));
	fail_budget = FAULTS;
	errno = 0;
	int rc = sc_cond_init(&c);
	CHECK(attrs == 0, "attribute object released");
	CHECK((rc == 0) == (n_fail == 0), "reports failure");
	if (rc != 0) {
		CHECK(rc == -1 && errno == first_err, "negative, errno set");
		CHECK(mutexes == 0 && conds == 0, "nothing left behind");
		CHECK(sc_cond_term(&c) == 0, "terminating a failed object does nothing");
		REACH("failed");
		return;
	}
	CHECK(mutexes == 1 && conds == 1 && c.init && !c.done, "usable");
	n_fail = 0;
	errno = nd_int();
	rc = sc_cond_term(&c);
	CHECK(mutexes == 0 && conds == 0, "both destroyed");
	CHECK(n_fail == 0 ? rc == 0 : rc < 0 && errno == first_err, "first failure reported");
	REACH_IF(rc != 0, "destroy failed");
	REACH_IF(rc == 0, "destroyed");
	CHECK(sc_cond_term(&c) == 0, "terminated once");
}
#endif

#ifdef WITH_MUTEX
static int held;
int v_mutex_lock(pthread_mutex_t *m)
{
	CHECK(m == mutex_p && mutexes == 1 && held == 0, "the object's mutex");
	held++;
	return 0;
}
int v_mutex_trylock(pthread_mutex_t *m)
{
	return v_mutex_lock(m);
}
int v_mutex_unlock(pthread_mutex_t *m)
{
	CHECK(m == mutex_p && held == 1, "the object's mutex");
	held--;
	return 0;
}
void h_mutex(void)
{
	struct sc_mutex m;
	memset(&m, nd_bool() ? 0xff : 0, sizeof(m));
	for (int round = 0; round < 2; round++) {
		n_fail = 0;
		fail_budget = FAULTS;
		int rc = sc_mutex_init(&m);
		CHECK(attrs == 0, "attribute object released");
		CHECK(rc == (n_fail ? -1 : 0), "failure reported");
		CHECK(mutexes == (n_fail ? 0 : 1), "all or nothing");
		if (rc != 0)
			continue;
		for (int i = 0; i < 2; i++) {
			sc_mutex_lock(&m);
			CHECK(held == 1, "locked");
			sc_mutex_unlock(&m);
			CHECK(held == 0, "unlocked");
		}
		rc = sc_mutex_term(&m);
		CHECK(mutexes == 0, "destroyed once");
		CHECK(rc == (n_fail ? -1 : 0), "failure to destroy reported");
		REACH_IF(rc == 0 && round == 1, "done");
		REACH_IF(rc != 0 && round == 1, "destroy failed");
	}
}
#endif

#ifdef WITH_THREAD
static int tattrs, running, joins, runs;
static const void *tattr_p;
static int detach = PTHREAD_CREATE_JOINABLE;
static pthread_t the_id;
static void *(*the_fn)(void *);
static void *the_arg, *the_ret;
int v_tattr_init(pthread_attr_t *a)
{
	int e = fails();
	if (e)
		return e;
	CHECK(tattrs == 0, "one attribute object");
	tattrs++;
	tattr_p = a;
	detach = PTHREAD_CREATE_JOINABLE;
	return 0;
}
int v_tattr_setdetachstate(pthread_attr_t *a, int s)
{
	CHECK(tattrs == 1 && tattr_p == a, "attribute object is initialised");
	detach = s;
	return 0;
}
int v_tattr_destroy(pthread_attr_t *a)
{
	CHECK(tattrs == 1 && tattr_p == a, "attribute object destroyed once");
	tattrs--;
	return 0;
}
int v_thread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	CHECK(a == NULL || (tattrs == 1 && tattr_p == a), "attribute object is initialised");
	CHECK(a == NULL || detach == PTHREAD_CREATE_JOINABLE, "joinable");
	int e = fails();
	*t = (pthread_t) nd_u64(); /* undefined on failure */
	if (e)
		return e;
	ASSUME(*t != 0);
	CHECK(!running, "one thread at a time");
	running = 1;
	the_id = *t;
	the_fn = fn;
	the_arg = arg;
	if (nd_bool()) {
		the_ret = the_fn(the_arg);
		the_fn = NULL;
	}
	return 0;
}
int v_thread_join(pthread_t t, void **ret)
{
	CHECK(running && t == the_id, "joins the running thread, once");
	running = 0;
	joins++;
	if (the_fn) {
		the_ret = the_fn(the_arg);
		the_fn = NULL;
	}
	int e = fails();
	if (e)
		return e;
	if (ret)
		*ret = the_ret;
	return 0;
}
static void *want_arg;
static void *body(void *arg)
{
	CHECK(arg == want_arg, "the argument given");
	runs++;
	return (char *) arg + 1;
}

#ifndef NOPS
#define NOPS 4
#endif
void h_thread(void)
{
	static char pool[64];
	struct sc_thread t;
	memset(&t, 0xff, sizeof(t));
	t.err[sizeof(t.err) - 1] = '\0';
	sc_thread_init(&t);
	bool up = false;
	int starts = 0;
	fail_budget = FAULTS;
	for (int i = 0; i < NOPS; i++) {
		uint8_t op = (uint8_t) nd_range(0, 2);
		n_fail = 0;
		if (op == 0) {
			ASSUME(!up);
			want_arg = &pool[nd_range(0, 62)];
			int rc = sc_thread_start(&t, body, want_arg);
			CHECK(tattrs == 0, "attribute object released");
			CHECK(rc == (n_fail ? -1 : 0), "failure to start reported");
			up = n_fail == 0;
			starts += up;
		} else {
			void *ret = pool;
			int j = joins, rc;
			if (op == 1)
				rc = sc_thread_join(&t, &ret);
			else
				rc = sc_thread_term(&t);
			CHECK(joins == j + up, "joined exactly when started");
			CHECK(rc == (n_fail ? -1 : 0), "failure to join reported");
			if (op == 1 && !n_fail)
				CHECK(ret == (up ? (char *) want_arg + 1 : NULL), "result of the thread function");
			up = false;
		}
		if (n_fail) {
			CHECK(err_asked == first_err && sc_thread_err(&t)[0] == err_text[0] && sc_thread_err(&t)[1] == '\0', "error text");
			REACH_IF(op == 0 && i == 1, "start failed");
			REACH_IF(op == 1 && i == 1, "join failed");
		}
		CHECK(up || runs == starts, "ran once");
		CHECK(runs <= starts && runs >= starts - 1, "never runs twice");
	}
	REACH_IF(starts == 2 && !up && joins == 2, "started again");
}
#endif
