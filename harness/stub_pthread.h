#ifndef STUB_PTHREAD_H
#define STUB_PTHREAD_H
/* every pthread call of the code under test goes to the harness */
#include <assert.h>
#include <errno.h>
#include <pthread.h>
#include <string.h>
int v_mattr_init(pthread_mutexattr_t *a);
int v_mattr_settype(pthread_mutexattr_t *a, int t);
int v_mattr_destroy(pthread_mutexattr_t *a);
int v_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a);
int v_mutex_destroy(pthread_mutex_t *m);
int v_mutex_lock(pthread_mutex_t *m);
int v_mutex_trylock(pthread_mutex_t *m);
int v_mutex_unlock(pthread_mutex_t *m);
int v_cond_init(pthread_cond_t *c, const pthread_condattr_t *a);
int v_cond_destroy(pthread_cond_t *c);
int v_cond_signal(pthread_cond_t *c);
int v_cond_broadcast(pthread_cond_t *c);
int v_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
int v_tattr_init(pthread_attr_t *a);
int v_tattr_setdetachstate(pthread_attr_t *a, int s);
int v_tattr_destroy(pthread_attr_t *a);
int v_thread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg);
int v_thread_join(pthread_t t, void **ret);
char *v_strerror(int e);
#define pthread_mutexattr_init(a) v_mattr_init(a)
#define pthread_mutexattr_settype(a, t) v_mattr_settype(a, t)
#define pthread_mutexattr_destroy(a) v_mattr_destroy(a)
#define pthread_mutex_init(m, a) v_mutex_init(m, a)
#define pthread_mutex_destroy(m) v_mutex_destroy(m)
#define pthread_mutex_lock(m) v_mutex_lock(m)
#define pthread_mutex_trylock(m) v_mutex_trylock(m)
#define pthread_mutex_unlock(m) v_mutex_unlock(m)
#define pthread_cond_init(c, a) v_cond_init(c, a)
#define pthread_cond_destroy(c) v_cond_destroy(c)
#define pthread_cond_signal(c) v_cond_signal(c)
#define pthread_cond_broadcast(c) v_cond_broadcast(c)
#define pthread_cond_wait(c, m) v_cond_wait(c, m)
#define pthread_attr_init(a) v_tattr_init(a)
#define pthread_attr_setdetachstate(a, s) v_tattr_setdetachstate(a, s)
#define pthread_attr_destroy(a) v_tattr_destroy(a)
#define pthread_create(t, a, f, g) v_thread_create(t, a, f, g)
#define pthread_join(t, r) v_thread_join(t, r)
#define strerror(e) v_strerror(e)
#endif
