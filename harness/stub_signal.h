#ifndef STUB_SIGNAL_H
#define STUB_SIGNAL_H
#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
void *v_memcpy(void *d, const void *s, size_t n);
ssize_t v_write(int fd, const void *b, size_t n);
int v_close(int fd);
int v_kill(pid_t p, int sig);
int v_raise(int sig);
pid_t v_getpid(void);
void v_exit_now(int code);
void (*v_signal(int sig, void (*f)(int)))(int);
int v_sigaction(int sig, const struct sigaction *a, struct sigaction *o);
int v_sigemptyset(sigset_t *s);
#ifdef BYTEWISE
#define memcpy(d, s, n) v_memcpy(d, s, n)
#endif
#define write(f, b, n) v_write(f, b, n)
#define close(f) v_close(f)
#define kill(p, s) v_kill(p, s)
#define raise(s) v_raise(s)
#define getpid() v_getpid()
#define _Exit(c) v_exit_now(c)
#define _exit(c) v_exit_now(c)
#define signal(s, f) v_signal(s, f)
#define sigaction(s, a, o) v_sigaction(s, a, o)
#define sigemptyset(s) v_sigemptyset(s)
#endif
