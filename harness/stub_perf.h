#ifndef STUB_PERF_H
#define STUB_PERF_H
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <linux/perf_event.h>
long v_syscall(long nr, struct perf_event_attr *a, int pid, int cpu, int group, unsigned long flags);
int v_prctl(int op);
ssize_t v_read(int fd, void *b, size_t n);
int v_close(int fd);
int v_clock(int id, struct timespec *ts);
void v_abort(void);
int v_printf(const char *fmt, ...);
int v_fprintf(FILE *f, const char *fmt, ...);
char *v_strerror(int e);
#define syscall(a, b, c, d, e, f) v_syscall(a, b, c, d, e, f)
#define prctl(...) v_prctl(__VA_ARGS__)
#define read(a, b, c) v_read(a, b, c)
#define close(a) v_close(a)
#define clock_gettime(a, b) v_clock(a, b)
#define abort() v_abort()
#define printf(...) v_printf(__VA_ARGS__)
#define fprintf(...) v_fprintf(__VA_ARGS__)
#define strerror(a) v_strerror(a)
#endif
