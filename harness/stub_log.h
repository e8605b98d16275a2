#ifndef STUB_LOG_H
#define STUB_LOG_H
#include <ctype.h>
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
FILE *v_fopen(const char *n, const char *m);
int v_fclose(FILE *f);
int v_fflush(FILE *f);
long v_ftell(FILE *f);
int v_fseek(FILE *f, long o, int w);
int v_fprintf(FILE *f, const char *fmt, ...);
int v_vfprintf(FILE *f, const char *fmt, va_list va);
int v_rename(const char *a, const char *b);
int v_remove(const char *a);
time_t v_time(time_t *t);
struct tm *v_localtime_r(const time_t *t, struct tm *r);
int v_attr_init(pthread_mutexattr_t *a);
int v_attr_settype(pthread_mutexattr_t *a, int t);
int v_attr_destroy(pthread_mutexattr_t *a);
int v_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a);
int v_mutex_destroy(pthread_mutex_t *m);
int v_lock(pthread_mutex_t *m);
int v_unlock(pthread_mutex_t *m);
int v_tolower(int c);
char *v_strncpy(char *d, const char *s, size_t n);
#define fopen(a, b) v_fopen(a, b)
#define fclose(a) v_fclose(a)
#define fflush(a) v_fflush(a)
#define ftell(a) v_ftell(a)
#define fseek(a, b, c) v_fseek(a, b, c)
#define fprintf(...) v_fprintf(__VA_ARGS__)
#define vfprintf(a, b, c) v_vfprintf(a, b, c)
#define rename(a, b) v_rename(a, b)
#define remove(a) v_remove(a)
#define time(a) v_time(a)
#define localtime_r(a, b) v_localtime_r(a, b)
#define pthread_mutexattr_init(a) v_attr_init(a)
#define pthread_mutexattr_settype(a, b) v_attr_settype(a, b)
#define pthread_mutexattr_destroy(a) v_attr_destroy(a)
#define pthread_mutex_init(a, b) v_mutex_init(a, b)
#define pthread_mutex_destroy(a) v_mutex_destroy(a)
#define pthread_mutex_lock(a) v_lock(a)
#define pthread_mutex_unlock(a) v_unlock(a)
#undef tolower
#define tolower(c) v_tolower(c)
#define strncpy(a, b, c) v_strncpy(a, b, c)
#endif
