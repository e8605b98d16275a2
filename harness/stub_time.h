#ifndef STUB_TIME_H
#define STUB_TIME_H
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
int v_clock_gettime(clockid_t id, struct timespec *ts);
int v_gettimeofday(struct timeval *tv, void *tz);
int v_nanosleep(const struct timespec *t, struct timespec *rem);
int v_clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rem);
int v_usleep(useconds_t us);
#define clock_gettime(c, t) v_clock_gettime(c, t)
#define gettimeofday(c, t) v_gettimeofday(c, t)
#define nanosleep(c, t) v_nanosleep(c, t)
#define clock_nanosleep(a, b, c, t) v_clock_nanosleep(a, b, c, t)
#define usleep(c) v_usleep(c)
#endif
