#ifndef STUB_SOCK_H
#define STUB_SOCK_H
#include <arpa/inet.h>
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/un.h>
#include <unistd.h>
int v_socket(int d, int t, int p);
int v_close(int fd);
int v_unlink(const char *p);
int v_bind(int fd, const struct sockaddr *a, socklen_t n);
int v_listen(int fd, int n);
int v_accept(int fd, struct sockaddr *a, socklen_t *n);
int v_connect(int fd, const struct sockaddr *a, socklen_t n);
int v_setsockopt(int fd, int l, int o, const void *p, socklen_t n);
int v_getsockopt(int fd, int l, int o, void *p, socklen_t *n);
int v_fcntl(int fd, int cmd, ...);
int v_getaddrinfo(const char *h, const char *p, const struct addrinfo *i, struct addrinfo **o);
void v_freeaddrinfo(struct addrinfo *i);
const char *v_gai_strerror(int e);
char *v_strerror(int e);
ssize_t v_send(int fd, const void *b, size_t n, int f);
ssize_t v_recv(int fd, void *b, size_t n, int f);
ssize_t v_read(int fd, void *b, size_t n);
ssize_t v_write(int fd, const void *b, size_t n);
int v_pipe(int *fds);
int v_epoll_create1(int f);
int v_epoll_ctl(int p, int op, int fd, struct epoll_event *e);
int v_epoll_wait(int p, struct epoll_event *e, int n, int t);
int v_getsockname(int fd, struct sockaddr *a, socklen_t *n);
int v_getpeername(int fd, struct sockaddr *a, socklen_t *n);
const char *v_inet_ntop(int af, const void *p, char *b, socklen_t n);
char *v_getenv(const char *n);
ssize_t v_sendmsg(int fd, const struct msghdr *m, int f);
int v_vsnprintf(char *dst, size_t n, const char *fmt, va_list va);
int v_snprintf(char *dst, size_t n, const char *fmt, ...);
char *v_strncpy(char *d, const char *s, size_t n);
#define socket(a, b, c) v_socket(a, b, c)
#define close(a) v_close(a)
#define unlink(a) v_unlink(a)
#define bind(a, b, c) v_bind(a, b, c)
#define listen(a, b) v_listen(a, b)
#define accept(a, b, c) v_accept(a, b, c)
#define connect(a, b, c) v_connect(a, b, c)
#define setsockopt(a, b, c, d, e) v_setsockopt(a, b, c, d, e)
#define getsockopt(a, b, c, d, e) v_getsockopt(a, b, c, d, e)
#define fcntl(...) v_fcntl(__VA_ARGS__)
#define getaddrinfo(a, b, c, d) v_getaddrinfo(a, b, c, d)
#define freeaddrinfo(a) v_freeaddrinfo(a)
#define gai_strerror(a) v_gai_strerror(a)
#define strerror(a) v_strerror(a)
#define send(a, b, c, d) v_send(a, b, c, d)
#define recv(a, b, c, d) v_recv(a, b, c, d)
#define read(a, b, c) v_read(a, b, c)
#define write(a, b, c) v_write(a, b, c)
#define pipe(a) v_pipe(a)
#define epoll_create1(a) v_epoll_create1(a)
#define epoll_ctl(a, b, c, d) v_epoll_ctl(a, b, c, d)
#define epoll_wait(a, b, c, d) v_epoll_wait(a, b, c, d)
#define getsockname(a, b, c) v_getsockname(a, b, c)
#define getpeername(a, b, c) v_getpeername(a, b, c)
#define inet_ntop(a, b, c, d) v_inet_ntop(a, b, c, d)
#define getenv(a) v_getenv(a)
#define sendmsg(a, b, c) v_sendmsg(a, b, c)
#define vsnprintf(d, n, f, va) v_vsnprintf(d, n, f, va)
#define snprintf(...) v_snprintf(__VA_ARGS__)
/* the solver passes a 16 bit vararg unpromoted */
static inline int v_ntohs(uint16_t x) { return (uint16_t) ((x >> 8) | (x << 8)); }
#undef ntohs
#define ntohs(x) v_ntohs(x)
#define strncpy(a, b, c) v_strncpy(a, b, c)
#endif
