/* K01..K05: sockets, pipes and poll; the operating system is the harness */
#include "verif.h"
#include "sc_sock.h"
#include <arpa/inet.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <stdarg.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/un.h>
#include <unistd.h>

/* error texts: any non-empty text; writes the last byte it may write */
static bool exact;
int v_vsnprintf(char *d, size_t n, const char *fmt, va_list va)
{
	if (exact)
		return v_mini_vsnprintf(d, n, fmt, va);
	d[n - 1] = '\0';
	d[0] = 'E';
	d[1] = '\0';
	return 1;
}
int v_snprintf(char *d, size_t n, const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	int r = v_vsnprintf(d, n, fmt, va);
	va_end(va);
	return r;
}
char *v_strncpy(char *d, const char *s, size_t n)
{
	bool end = false;
	for (size_t i = 0; i < n; i++) {
		if (!end && s[i] == '\0')
			end = true;
		d[i] = end ? '\0' : s[i];
	}
	return d;
}
#include "nochecks.h"

V_TYPED(sock, struct epoll_event)

/* ------------------------------------------------------------ resources */
#define NFD 10
#define FD0 3
static struct {
	bool open, bound, listening, connected, progress, nodelay, reuse, v6only;
	int family, flags, addr;
} K[NFD];
static int made, live, infos, failures, closefail, unlinks;
static bool bad_close;
static int soerr;

static bool fails(void)
{
	if (!nd_bool())
		return false;
	failures++;
	errno = (int) nd_range(1, 133);
	return true;
}
static int mk(int family)
{
	CHECK(made < NFD, "bound");
	int k = made++;
	K[k].open = true;
	K[k].family = family;
	K[k].flags = (int) (nd_u32() & ~(uint32_t) O_NONBLOCK);
	if (K[k].flags == -1)
		K[k].flags = 0;
	K[k].addr = -1;
	live++;
	return FD0 + k;
}
static int ix(int fd)
{
	CHECK(fd >= FD0 && fd < FD0 + made && K[fd - FD0].open, "an open descriptor");
	return fd >= FD0 && fd < FD0 + NFD ? fd - FD0 : 0;
}
static bool is_open(int fd) { return fd >= FD0 && fd < FD0 + made && K[fd - FD0].open; }

int v_close(int fd)
{
	int k = ix(fd);
	K[k].open = false;
	live--;
	if (nd_bool()) {
		closefail++;
		errno = EIO;
		return -1;
	}
	return 0;
}
int v_socket(int d, int t, int p)
{
	(void) p;
	CHECK((t & 0xf) == SOCK_STREAM || (t & 0xf) == SOCK_DGRAM, "socket type");
	if (fails())
		return -1;
	return mk(d);
}
static const char *the_host, *the_port, *src_host, *src_port;
int v_unlink(const char *p)
{
	CHECK(p == the_host, "only the socket's own path is removed");
	unlinks++;
	errno = nd_int();
	return nd_bool() ? -1 : 0;
}

/* addresses of the remote / local name and of the source name */
#define NA 2
static struct addrinfo ai[2][NA];
static struct sockaddr_storage sa[2][NA];
static int nai[2], tried[NA];
static int fam_of(int k) { return k & 1 ? AF_INET6 : AF_INET; }
int v_getaddrinfo(const char *h, const char *p, const struct addrinfo *i, struct addrinfo **o)
{
	bool src = h == src_host && p == src_port && h != the_host;
	CHECK(src || (h == the_host && p == the_port), "the name given");
	CHECK(i->ai_socktype == SOCK_STREAM, "streams");
	if (nd_bool()) {
		failures++;
		return (int) nd_range(1, 20);
	}
	int w = src ? 1 : 0, f0 = (int) nd_range(0, 1);
	nai[w] = (int) nd_range(1, NA);
	for (int k = 0; k < NA; k++) {
		int fam = i->ai_family == AF_UNSPEC ? fam_of(f0 + k) : i->ai_family;
		ai[w][k].ai_family = fam;
		ai[w][k].ai_socktype = SOCK_STREAM;
		ai[w][k].ai_protocol = 0;
		ai[w][k].ai_addr = (struct sockaddr *) &sa[w][k];
		ai[w][k].ai_addrlen = fam == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6);
		ai[w][k].ai_next = k + 1 < nai[w] ? &ai[w][k + 1] : NULL;
	}
	*o = &ai[w][0];
	infos++;
	return 0;
}
void v_freeaddrinfo(struct addrinfo *i)
{
	if (i == NULL)
		return;
	CHECK(infos > 0 && (i == &ai[0][0] || i == &ai[1][0]), "address list freed once");
	infos--;
}
static int which(const struct sockaddr *a, int w)
{
	for (int k = 0; k < NA; k++)
		if (a == (const struct sockaddr *) &sa[w][k])
			return k;
	return -1;
}
const char *v_gai_strerror(int e)
{
	CHECK(e != 0, "resolver error");
	return "G";
}
char *v_strerror(int e)
{
	(void) e;
	return "S";
}
static bool unix_path_ok(const struct sockaddr *a, socklen_t n)
{
	const struct sockaddr_un *u = (const struct sockaddr_un *) a;
	CHECK(u->sun_family == AF_UNIX && n <= sizeof(*u), "unix address");
	bool same = true;
	for (size_t i = 0; i < sizeof(u->sun_path); i++) {
		if (u->sun_path[i] != the_host[i])
			same = false;
		if (the_host[i] == '\0')
			return same;
	}
	return false;
}
int v_bind(int fd, const struct sockaddr *a, socklen_t n)
{
	int k = ix(fd);
	if (K[k].family == AF_UNIX) {
		CHECK(unix_path_ok(a, n), "bound to exactly the path given");
	} else {
		int d = which(a, 0), s = which(a, 1);
		CHECK((d >= 0 && src_host == NULL) || s >= 0, "an address of the name");
		int w = d >= 0 ? 0 : 1, x = d >= 0 ? d : s < 0 ? 0 : s;
		CHECK(n == ai[w][x].ai_addrlen, "address length");
		if (ai[w][x].ai_family != K[k].family) {
			failures++;
			errno = EAFNOSUPPORT;
			return -1;
		}
	}
	if (fails())
		return -1;
	K[k].bound = true;
	return 0;
}
int v_listen(int fd, int n)
{
	int k = ix(fd);
	CHECK(K[k].bound && n > 0, "bound first");
	if (fails())
		return -1;
	K[k].listening = true;
	return 0;
}
int v_accept(int fd, struct sockaddr *a, socklen_t *n)
{
	(void) n;
	CHECK(a == NULL && K[ix(fd)].listening, "accepts on the listener");
	if (fails())
		return -1;
	int r = mk(K[ix(fd)].family);
	K[r - FD0].connected = true;
	return r;
}
int v_connect(int fd, const struct sockaddr *a, socklen_t n)
{
	int k = ix(fd);
	CHECK(!K[k].connected && !K[k].progress, "connected once");
	if (K[k].family == AF_UNIX) {
		CHECK(unix_path_ok(a, n), "connects to exactly the path given");
	} else {
		int d = which(a, 0);
		CHECK(d >= 0, "an address of the name");
		d = d < 0 ? 0 : d;
		CHECK(n == ai[0][d].ai_addrlen && ai[0][d].ai_family == K[k].family, "address and family");
		CHECK(tried[d]++ == 0, "each address tried once");
	}
	if (fails()) {
		K[k].progress = (errno == EINPROGRESS || (errno == EAGAIN && K[k].family != AF_UNIX)) && (K[k].flags & O_NONBLOCK);
		return -1;
	}
	K[k].connected = true;
	return 0;
}
static int64_t tv_us = -1;
int v_setsockopt(int fd, int l, int o, const void *p, socklen_t n)
{
	int k = ix(fd);
	if (l == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO)) {
		const struct timeval *t = p;
		CHECK(n == sizeof(*t) && t->tv_usec >= 0 && t->tv_usec < 1000000 && t->tv_sec >= 0, "a valid duration");
		tv_us = (int64_t) t->tv_sec * 1000000 + t->tv_usec;
		if (o == SO_SNDTIMEO)
			tv_us = -2 - tv_us;
		return fails() ? -1 : 0;
	}
	CHECK(n == sizeof(int), "option size");
	if (fails())
		return -1;
	if (l == IPPROTO_TCP && o == TCP_NODELAY)
		K[k].nodelay = *(const int *) p != 0;
	else if (l == SOL_SOCKET && o == SO_REUSEADDR)
		K[k].reuse = *(const int *) p != 0;
	else if (l == IPPROTO_IPV6 && o == IPV6_V6ONLY)
		K[k].v6only = *(const int *) p != 0;
	return 0;
}
int v_getsockopt(int fd, int l, int o, void *p, socklen_t *n)
{
	ix(fd);
	CHECK(l == SOL_SOCKET && o == SO_ERROR && *n == sizeof(int), "asks for the socket's error");
	if (fails())
		return -1;
	*(int *) p = soerr;
	return 0;
}
int v_fcntl(int fd, int cmd, ...)
{
	int k = ix(fd);
	if (cmd == F_GETFL)
		return fails() ? -1 : K[k].flags;
	CHECK(cmd == F_SETFL, "only status flags");
	va_list va;
	va_start(va, cmd);
	int f = va_arg(va, int);
	va_end(va);
	CHECK(((f ^ K[k].flags) & ~O_NONBLOCK) == 0, "other status flags preserved");
	if (fails())
		return -1;
	K[k].flags = f;
	return 0;
}
static bool nonblocking(int fd) { return (K[ix(fd)].flags & O_NONBLOCK) != 0; }

/* -------------------------------------------------- K04 listen / connect */
static const int fams[] = {SC_SOCK_INET, SC_SOCK_INET6, SC_SOCK_UNIX};
#ifndef FAM
#define FAM 0
#endif
static char path[120];
/* a unix path of a concrete length with free bytes at both ends */
static void mk_path(size_t n)
{
	for (size_t i = 0; i < sizeof(path); i++)
		path[i] = i < n ? 'p' : '\0';
	path[0] = (char) nd_range(1, 127);
	path[n - 1] = (char) nd_range(1, 127);
}
static void term(struct sc_sock *s)
{
	int c = closefail, was = is_open(s->fdt.fd);
	int rc = sc_sock_term(s);
	CHECK((rc == 0) == (closefail == c) && rc <= 0, "failure to close reported");
	CHECK(s->fdt.fd == -1 && closefail - c <= was, "closed");
	CHECK(sc_sock_term(s) == 0, "terminating again does nothing");
	CHECK(live == 0 && infos == 0, "everything released");
}

static void listen_case(struct sc_sock *s, bool blocking, bool nopath)
{
	int rc = sc_sock_listen(s, the_host, the_port);
	CHECK(infos == 0, "address list released");
	if (rc == 0) {
		CHECK(live == 1 && is_open(s->fdt.fd), "one descriptor");
		CHECK(K[ix(s->fdt.fd)].listening, "listening");
		CHECK(nonblocking(s->fdt.fd) == !blocking, "blocking mode");
		CHECK(!nopath, "a path that does not fit is refused");
	} else {
		CHECK(rc < 0 && live == 0, "nothing stays open");
		CHECK(failures > 0 || nopath, "fails only when a call failed");
		CHECK(sc_sock_error(s)[0] != '\0', "error text");
	}
	REACH_IF(rc == 0 || nopath, "listening");
	REACH_IF(rc != 0, "failed");
	term(s);
}
void h_listen(void)
{
	struct sc_sock s;
	bool blocking = nd_bool();
	sc_sock_init(&s, 1, blocking, fams[FAM]);
	CHECK(sc_sock_term(&s) == 0, "nothing to close");
	the_host = "h";
	the_port = "p";
	listen_case(&s, blocking, false);
}
#ifndef ULEN
#define ULEN 5
#endif
void h_listen_unix(void)
{
	struct sc_sock s;
	bool blocking = nd_bool();
	mk_path(ULEN);
	the_host = path;
	sc_sock_init(&s, 1, blocking, SC_SOCK_UNIX);
	listen_case(&s, blocking, ULEN >= sizeof(((struct sockaddr_un *) 0)->sun_path));
}

static void connect_case(struct sc_sock *s, bool blocking, bool nopath)
{
	int rc = sc_sock_connect(s, the_host, the_port, src_host, src_port);
	int e = errno;
	CHECK(infos == 0, "address lists released");
	bool prog = live == 1 && K[made - 1].progress;
	if (rc == 0) {
		CHECK(live == 1 && is_open(s->fdt.fd), "one descriptor");
		int k = ix(s->fdt.fd);
		CHECK(K[k].connected, "connected");
		CHECK(nonblocking(s->fdt.fd) == !blocking, "blocking mode");
		CHECK(K[k].bound == (src_host != NULL), "source address bound");
		CHECK(!nopath, "a path that does not fit is refused");
	} else if (prog) {
		CHECK(rc < 0 && e == EAGAIN && !blocking, "in progress");
		CHECK(s->fdt.fd == FD0 + made - 1, "descriptor kept");
		CHECK(K[made - 1].bound == (src_host != NULL), "source address bound");
	} else {
		CHECK(rc < 0 && live == 0, "nothing stays open");
		CHECK(failures > 0 || nopath, "fails only when a call failed");
		CHECK(sc_sock_error(s)[0] != '\0', "error text");
	}
	REACH_IF(rc == 0 || nopath, "connected");
	REACH_IF(rc != 0, "failed");
#ifndef UNIX
	REACH_IF(prog, "in progress");
	REACH_IF(rc == 0 && made == 2, "second address");
	if (prog) {
		soerr = (int) nd_range(0, 133);
		failures = 0;
		int r = sc_sock_finish_connect(s);
		CHECK(r == (failures == 0 && soerr == 0 ? 0 : -1), "result of the connection");
		CHECK(r == 0 || sc_sock_error(s)[0] != '\0', "error text");
		CHECK(live == 1, "still one descriptor");
	}
#endif
	term(s);
}
void h_connect(void)
{
	struct sc_sock s;
	bool blocking = nd_bool();
	sc_sock_init(&s, 1, blocking, fams[FAM]);
	the_host = "h";
	the_port = "p";
#ifdef SRC
	src_host = "s";
	src_port = "q";
#endif
	connect_case(&s, blocking, false);
}
void h_connect_unix(void)
{
	struct sc_sock s;
	bool blocking = nd_bool();
	mk_path(ULEN);
	the_host = path;
	sc_sock_init(&s, 1, blocking, SC_SOCK_UNIX);
	connect_case(&s, blocking, ULEN >= sizeof(((struct sockaddr_un *) 0)->sun_path));
}

void h_accept(void)
{
	struct sc_sock s, in;
	bool blocking = nd_bool();
	int fam = fams[nd_range(0, 2)];
	sc_sock_init(&s, 1, blocking, fam);
	sc_sock_init(&in, 2, blocking, fam);
	s.fdt.fd = mk(fam);
	K[0].listening = true;
	K[0].flags = blocking ? 0 : O_NONBLOCK;
	int rc = sc_sock_accept(&s, &in);
	int e = errno;
	CHECK(K[0].open && s.fdt.fd == FD0, "the listener stays");
	if (rc == 0) {
		CHECK(live == 2 && is_open(in.fdt.fd) && K[ix(in.fdt.fd)].connected, "one new descriptor");
		CHECK(in.fdt.op == SC_SOCK_NONE && in.family == fam && in.fdt.type == 2, "new socket's state");
		CHECK(nonblocking(in.fdt.fd) == !blocking, "blocking mode");
		CHECK(fam == AF_UNIX || K[ix(in.fdt.fd)].nodelay, "no delay");
		sc_sock_term(&in);
	} else {
		CHECK(rc < 0 && failures > 0 && live == 1, "nothing new stays open");
		CHECK(in.fdt.fd == -1, "not marked open");
		CHECK((made == 1 && !blocking && e == EAGAIN) || sc_sock_error(&s)[0] != '\0' || sc_sock_error(&in)[0] != '\0', "error text");
		sc_sock_term(&in);
	}
	REACH_IF(rc == 0, "accepted");
	REACH_IF(rc != 0 && made == 2, "failed late");
	REACH_IF(rc != 0 && made == 1 && e == EAGAIN, "nothing to accept");
	term(&s);
}

/* ---------------------------------------------------- K03 send / receive */
#ifndef NINTR
#define NINTR 3
#endif
static int calls, sysret, syserr;
static char *the_buf;
static size_t the_len;
static int the_flags, the_fd, intr;
static ssize_t transfer(int fd, const void *b, size_t n, int f)
{
	CHECK(fd == the_fd && b == the_buf && n == the_len && f == the_flags, "exactly the caller's request");
	CHECK(calls == intr, "only an interrupted call is repeated");
	calls++;
	if (intr < NINTR && nd_bool()) {
		intr++;
		errno = EINTR;
		return -1;
	}
	if (nd_bool()) {
		syserr = (int) nd_range(1, 133);
		ASSUME(syserr != EINTR);
		errno = syserr;
		sysret = -1;
		return -1;
	}
	sysret = (int) nd_range(0, n);
	return sysret;
}
ssize_t v_send(int fd, const void *b, size_t n, int f) { return transfer(fd, b, n, f); }
ssize_t v_recv(int fd, void *b, size_t n, int f) { return transfer(fd, b, n, f); }
ssize_t v_read(int fd, void *b, size_t n) { return transfer(fd, b, n, 0); }
ssize_t v_write(int fd, const void *b, size_t n) { return transfer(fd, b, n, 0); }

void h_transfer(void)
{
	struct sc_sock s;
	static char b[4];
	sc_sock_init(&s, 1, nd_bool(), fams[nd_range(0, 2)]);
	the_fd = s.fdt.fd = nd_int();
	the_buf = b;
	the_flags = nd_int();
	int len = nd_int();
	the_len = (size_t) len;
	bool rd = nd_bool();
	int r = rd ? sc_sock_recv(&s, b, len, the_flags) : sc_sock_send(&s, b, len, the_flags);
	int e = errno;
	if (len <= 0) {
		CHECK(calls == 0 && r == len, "nothing to do");
	} else if (sysret < 0) {
		CHECK(r == -1, "error reported");
		if (syserr == EAGAIN)
			CHECK(e == EAGAIN, "would block");
		else
			CHECK(sc_sock_error(&s)[0] != '\0', "error text");
	} else if (sysret == 0 && rd) {
		CHECK(r < 0 && e == EOF, "end of stream");
	} else {
		CHECK(r == sysret, "byte count");
	}
	CHECK(calls == intr + (len > 0), "exactly one completed call");
	REACH_IF(rd && r > 4096 && intr == NINTR, "received");
	REACH_IF(!rd && r > 0, "sent");
	REACH_IF(sysret < 0 && syserr == EAGAIN, "would block");
	REACH_IF(sysret < 0 && syserr == EPIPE, "failed");
	REACH_IF(rd && len > 0 && sysret == 0, "end of stream");
}
void h_pipe_transfer(void)
{
	static char b[4];
	struct sc_sock_pipe p;
	memset(&p, 0, sizeof(p));
	p.fds[0] = nd_int();
	p.fds[1] = nd_int();
	the_buf = b;
	unsigned n = nd_u32();
	ASSUME(n <= 0x7fffffff);
	the_len = n;
	bool rd = nd_bool();
	the_fd = p.fds[rd ? 0 : 1];
	int r = rd ? sc_sock_pipe_read(&p, b, n) : sc_sock_pipe_write(&p, b, n);
	CHECK(r == sysret && calls == intr + 1, "the system's result");
	CHECK(r >= 0 || errno == syserr, "error number");
	REACH_IF(rd && r > 100 && intr == NINTR, "read");
	REACH_IF(!rd && r == -1, "failed write");
}

/* ------------------------------------------------------ K04 pipe / poll */
int v_pipe(int *fds)
{
	if (fails())
		return -1;
	fds[0] = mk(0);
	fds[1] = mk(0);
	return 0;
}
void h_pipe(void)
{
	struct sc_sock_pipe p;
	int type = nd_int();
	int rc = sc_sock_pipe_init(&p, type);
	if (rc == 0) {
		CHECK(live == 2 && p.fds[0] == FD0 && p.fds[1] == FD0 + 1 && p.fdt.fd == FD0, "both ends");
		CHECK(p.fdt.type == type && p.fdt.op == SC_SOCK_NONE, "poll data");
	} else {
		CHECK(rc < 0 && failures == 1 && live == 0, "failed");
		CHECK(sc_sock_pipe_err(&p)[0] != '\0', "error text");
	}
	int t = sc_sock_pipe_term(&p);
	CHECK(live == 0 && (t == 0) == (closefail == 0), "both closed, failure reported");
	CHECK(t == 0 || sc_sock_pipe_err(&p)[0] != '\0', "error text");
	CHECK(sc_sock_pipe_term(&p) == 0, "again: nothing");
	REACH_IF(rc == 0 && t == 0, "fine");
	REACH_IF(rc == 0 && closefail == 2, "both fail to close");
	REACH_IF(rc != 0, "failed");
}

int v_epoll_create1(int f)
{
	(void) f;
	return fails() ? -1 : mk(0);
}
static struct epoll_event kev;   /* kernel's registration */
static bool reg;
static int the_pfd, the_sfd;
int v_epoll_ctl(int p, int op, int fd, struct epoll_event *e)
{
	CHECK(p == the_pfd && fd == the_sfd, "poll and descriptor");
	CHECK(op == EPOLL_CTL_ADD ? !reg : reg, "added once, changed and removed while registered");
	if (fails())
		return -1;
	reg = op != EPOLL_CTL_DEL;
	if (reg)
		kev = *e;
	return 0;
}
static int wait_n, wait_timeout;
static struct epoll_event want_ev[2];
int v_epoll_wait(int p, struct epoll_event *e, int n, int t)
{
	CHECK(p == the_pfd && is_open(p) && t == wait_timeout, "the poll and timeout");
	CHECK(n > 0 && (size_t) n * sizeof(*e) <= v_last_size, "room for the events");
	CHECK(calls == intr, "only an interrupted call is repeated");
	calls++;
	if (intr < NINTR && nd_bool()) {
		intr++;
		errno = EINTR;
		return -1;
	}
	if (fails()) {
		ASSUME(errno != EINTR);
		return -1;
	}
	wait_n = (int) nd_range(0, n < 2 ? n : 2);
	for (int i = 0; i < 2; i++) {
		want_ev[i].events = nd_u32();
		want_ev[i].data.ptr = (void *) (uintptr_t) nd_u64();
		if (i < wait_n)
			e[i] = want_ev[i];
	}
	return wait_n;
}
void h_poll(void)
{
	struct sc_sock_poll p;
	v_reset(0);
	v_fail_budget = 1;
	int rc = sc_sock_poll_init(&p);
	v_fail_budget = 0;
	if (rc == 0) {
		CHECK(live == 1 && v_live == 1 && is_open(p.fds), "created");
	} else {
		CHECK(rc < 0 && (failures == 1 || v_failed == 1), "failed");
		CHECK(live == 0 && v_live == 0, "nothing left");
		CHECK(sc_sock_poll_err(&p)[0] != '\0', "error text");
	}
	REACH_IF(rc == 0, "created");
	REACH_IF(rc != 0 && v_failed, "no memory");
	REACH_IF(rc != 0 && failures, "no descriptor");
	int t = sc_sock_poll_term(&p);
	CHECK((t == 0) == (closefail == 0) && live == 0 && v_live == 0, "everything released");
	CHECK(sc_sock_poll_term(&p) == 0 && live == 0 && v_live == 0, "again: nothing");
}

void h_wait(void)
{
	struct sc_sock_poll p;
	v_reset(0);
	ASSUME(sc_sock_poll_init(&p) == 0);
	failures = 0;
	the_pfd = p.fds;
	wait_timeout = nd_int();
	int n = sc_sock_poll_wait(&p, wait_timeout);
	CHECK(calls == intr + 1, "one completed call");
	if (failures) {
		CHECK(n == -1 && sc_sock_poll_err(&p)[0] != '\0', "failure reported");
	} else {
		CHECK(n == wait_n, "number of events");
		for (int i = 0; i < 2; i++) {
			if (i >= n)
				continue;
			uint32_t k = want_ev[i].events, u = sc_sock_poll_event(&p, i);
			bool err = (k & (EPOLLERR | EPOLLHUP | EPOLLRDHUP)) != 0;
			CHECK(sc_sock_poll_data(&p, i) == want_ev[i].data.ptr, "user data");
			CHECK(((u & SC_SOCK_READ) != 0) == (err || (k & EPOLLIN)), "readable, failed or hung up");
			CHECK(((u & SC_SOCK_WRITE) != 0) == (err || (k & EPOLLOUT)), "writable, failed or hung up");
			CHECK((u & ~(uint32_t) (SC_SOCK_READ | SC_SOCK_WRITE)) == 0, "nothing else");
			REACH_IF(u == SC_SOCK_READ, "readable");
			REACH_IF(u == SC_SOCK_WRITE, "writable");
			REACH_IF(u == 0, "nothing");
		}
	}
	REACH_IF(n == 2 && intr == NINTR, "two events");
	REACH_IF(n < 0, "failed");
	sc_sock_poll_term(&p);
	int c = calls;
	CHECK(sc_sock_poll_wait(&p, 0) < 0 && calls == c, "a terminated poll does not wait");
}

/* ---------------------------------------------------- K01 registrations */
#ifndef NOPS
#define NOPS 3
#endif
void h_reg(void)
{
	struct sc_sock_poll p;
	struct sc_sock_fd f;
	memset(&p, 0, sizeof(p));
	the_pfd = p.fds = nd_int();
	the_sfd = nd_int();
	int type = nd_int();
	f = (struct sc_sock_fd){.fd = the_sfd, .op = SC_SOCK_NONE, .type = type};
	uint32_t m = 0;
	void *data = NULL;
	for (int i = 0; i < NOPS; i++) {
		bool add = nd_bool();
		uint32_t ev = (uint32_t) nd_range(0, 7), n;
		void *d = (void *) (uintptr_t) nd_u64();
		failures = 0;
		bool was = reg;
		int rc = add ? sc_sock_poll_add(&p, &f, (enum sc_sock_ev) ev, d) : sc_sock_poll_del(&p, &f, (enum sc_sock_ev) ev, d);
		n = add ? m | ev : m & ~ev;
		if (n == SC_SOCK_EDGE)
			n = 0;
		if (failures) {
			CHECK(rc == -1 && sc_sock_poll_err(&p)[0] != '\0', "failure reported");
			CHECK(n != m, "no call for nothing");
			CHECK(reg == was, "unchanged");
		} else {
			CHECK(rc == 0, "done");
			if (n != m && n != 0)
				data = d;
			m = n;
		}
		CHECK(f.op == m, "recorded interest");
		CHECK(reg == (m != 0), "registered exactly while there is interest");
		CHECK(f.fd == the_sfd && f.type == type, "nothing else changed");
		if (reg) {
			CHECK(((kev.events & EPOLLIN) != 0) == ((m & SC_SOCK_READ) != 0), "read interest");
			CHECK(((kev.events & EPOLLOUT) != 0) == ((m & SC_SOCK_WRITE) != 0), "write interest");
			CHECK(((kev.events & EPOLLET) != 0) == ((m & SC_SOCK_EDGE) != 0), "edge triggering");
			CHECK((kev.events & EPOLLONESHOT) == 0, "stays registered");
			CHECK(kev.data.ptr == data, "user data");
		}
		REACH_IF(i > 0 && was && !reg, "removed");
		REACH_IF(i > 0 && was && failures, "failed");
		REACH_IF(m == 7, "everything");
	}
}

/* ---------------------------------------------------------- K05 options */
#ifndef MS0
#define MS0 0
#define MSN 5000
#endif
void h_timeo(void)
{
	struct sc_sock s;
	sc_sock_init(&s, 1, true, SC_SOCK_INET);
	s.fdt.fd = mk(AF_INET);
	int ms = (int) nd_range(MS0, MS0 + MSN);
	bool rd = nd_bool();
	int rc = rd ? sc_sock_set_rcvtimeo(&s, ms) : sc_sock_set_sndtimeo(&s, ms);
	CHECK(tv_us == (rd ? (int64_t) ms * 1000 : -2 - (int64_t) ms * 1000), "the same duration for the same direction");
	CHECK((rc == 0) == (failures == 0) && rc <= 0, "failure reported");
	CHECK(rc == 0 || sc_sock_error(&s)[0] != '\0', "error text");
	REACH_IF(rc == 0 && ms % 1000 == 250, "set");
	REACH_IF(rc != 0, "failed");
}
void h_blocking(void)
{
	struct sc_sock s;
	sc_sock_init(&s, 1, nd_bool(), SC_SOCK_INET);
	s.fdt.fd = mk(AF_INET);
	int f = nd_int();
	ASSUME(f != -1);
	K[0].flags = f;
	bool b = nd_bool();
	int rc = sc_sock_set_blocking(&s, b);
	CHECK((rc == 0) == (failures == 0) && rc <= 0, "failure reported");
	if (rc == 0)
		CHECK(K[0].flags == (b ? f & ~O_NONBLOCK : f | O_NONBLOCK), "exactly the blocking mode changes");
	REACH_IF(rc == 0 && K[0].flags != f, "changed");
	REACH_IF(rc != 0, "failed");
}

/* address text */
static int af;
static uint16_t port;
static uint8_t addr_bytes[16];
static char host_text[INET6_ADDRSTRLEN];
static size_t host_len;
static bool ntop_failed, name_failed;
#ifndef HOSTLEN
#define HOSTLEN 9
#endif
#ifndef UNLEN
#define UNLEN 6
#endif
static int name(int fd, struct sockaddr *a, socklen_t *n)
{
	ix(fd);
	CHECK(*n == sizeof(struct sockaddr_storage), "room for any address");
	if (fails()) {
		name_failed = true;
		return -1;
	}
	a->sa_family = (sa_family_t) af;
	if (af == AF_INET) {
		struct sockaddr_in *x = (struct sockaddr_in *) a;
		x->sin_port = (uint16_t) ((port >> 8) | (port << 8));
		memcpy(&x->sin_addr, addr_bytes, 4);
		*n = sizeof(*x);
	} else if (af == AF_INET6) {
		struct sockaddr_in6 *x = (struct sockaddr_in6 *) a;
		x->sin6_port = (uint16_t) ((port >> 8) | (port << 8));
		memcpy(&x->sin6_addr, addr_bytes, 16);
		*n = sizeof(*x);
	} else {
		struct sockaddr_un *x = (struct sockaddr_un *) a;
		for (int i = 0; i < UNLEN; i++)
			x->sun_path[i] = path[i];
		*n = (socklen_t) (2 + UNLEN); /* not terminated */
	}
	return 0;
}
int v_getsockname(int fd, struct sockaddr *a, socklen_t *n) { return name(fd, a, n); }
int v_getpeername(int fd, struct sockaddr *a, socklen_t *n) { return name(fd, a, n); }
const char *v_inet_ntop(int f, const void *p, char *b, socklen_t n)
{
	CHECK(f == af && n >= (f == AF_INET ? INET_ADDRSTRLEN : INET6_ADDRSTRLEN), "family and room");
	CHECK(memcmp(p, addr_bytes, f == AF_INET ? 4 : 16) == 0, "the address");
	if (fails()) {
		ntop_failed = true;
		return NULL;
	}
	for (size_t i = 0; i <= HOSTLEN; i++)
		b[i] = host_text[i];
	return b;
}
char *v_getenv(const char *n);
static void addr_setup(struct sc_sock *s, int family)
{
	exact = true;
	af = family;
	sc_sock_init(s, 1, true, family);
	s->fdt.fd = mk(family);
	port = nd_u16();
#ifdef PORTWIN
	ASSUME(port >= PORTWIN && port < PORTWIN + 256);
#endif
	for (int i = 0; i < 16; i++)
		addr_bytes[i] = nd_u8();
	for (int i = 0; i < HOSTLEN; i++) {
		host_text[i] = (char) nd_u8();
		ASSUME(host_text[i] == '.' || host_text[i] == ':' || (host_text[i] >= '0' && host_text[i] <= '9') || (host_text[i] >= 'a' && host_text[i] <= 'f'));
	}
	host_text[HOSTLEN] = '\0';
	mk_path(UNLEN > 0 ? UNLEN : 1);
	if (UNLEN == 0)
		path[0] = '\0';
}
#ifndef BUFLEN
#define BUFLEN 64
#endif
void h_name(void)
{
	struct sc_sock s;
	addr_setup(&s, fams[FAM]);
	char *buf = malloc(BUFLEN);
	for (int i = 0; i < BUFLEN; i++)
		buf[i] = 'x';
	const char *r = nd_bool() ? sc_sock_local_str(&s, buf, BUFLEN) : sc_sock_remote_str(&s, buf, BUFLEN);
	if (name_failed) {
		CHECK(r == NULL && buf[0] == '\0' && sc_sock_error(&s)[0] != '\0', "failure reported, no text");
		REACH("failed");
		return;
	}
	CHECK(r == buf, "the caller's buffer");
	size_t l = 0;
	for (size_t i = 0; i < BUFLEN; i++)
		if (l == i && buf[i] != '\0')
			l = i + 1;
	CHECK(l < BUFLEN, "terminated");
	if (ntop_failed) {
		CHECK(sc_sock_error(&s)[0] != '\0', "error text");
		return;
	}
	const char *h = fams[FAM] == AF_UNIX ? path : host_text;
	size_t hl = fams[FAM] == AF_UNIX ? UNLEN : HOSTLEN;
	for (size_t i = 0; i < BUFLEN - 1; i++)
		if (i < hl)
			CHECK(buf[i] == h[i], "host");
#if FAM == 2
	CHECK(l == (hl < BUFLEN - 1 ? hl : BUFLEN - 1), "exactly the path");
	REACH("path");
#elif BUFLEN > HOSTLEN + 6
	{
		CHECK(buf[hl] == ':' && l > hl + 1 && l <= hl + 6, "port");
		uint32_t v = 0;
		for (size_t i = 0; i < 5; i++) {
			if (hl + 1 + i >= l)
				continue;
			char c = buf[hl + 1 + i];
			CHECK(c >= '0' && c <= '9', "digits");
			v = v * 10 + (uint32_t) (c - '0');
		}
		CHECK(v == port, "the port");
		CHECK(l == hl + 2 || buf[hl + 1] != '0', "no leading zeros");
		REACH("host and port");
	}
#else
	REACH("cut");
#endif
}

/* -------------------------------------------------------- K04 systemd */
static const char *env_val, *the_msg;
static size_t env_len;
static int sent;
char *v_getenv(const char *n)
{
	CHECK(strcmp(n, "NOTIFY_SOCKET") == 0, "variable");
	return (char *) env_val;
}
ssize_t v_sendmsg(int fd, const struct msghdr *m, int f)
{
	CHECK(K[ix(fd)].family == AF_UNIX && (f & MSG_NOSIGNAL), "without SIGPIPE");
	const struct sockaddr_un *u = m->msg_name;
	size_t l = env_len;
	CHECK(m->msg_namelen == offsetof(struct sockaddr_un, sun_path) + l, "length of the name");
	CHECK(u->sun_family == AF_UNIX, "unix");
	for (size_t i = 0; i < sizeof(u->sun_path); i++)
		if (i < l)
			CHECK(u->sun_path[i] == (i == 0 && env_val[0] == '@' ? '\0' : env_val[i]), "the socket named");
	CHECK(m->msg_iovlen == 1 && m->msg_iov[0].iov_base == (void *) the_msg && m->msg_iov[0].iov_len == strlen(the_msg), "the message");
	CHECK(sent++ == 0, "sent once");
	return fails() ? -1 : (ssize_t) strlen(the_msg);
}
void h_notify(void)
{
	static char e[8];
	FOR_CASE(n, 5)
	{
		the_msg = "READY=1\n";
		for (size_t i = 0; i < n; i++)
			e[i] = (char) nd_range(1, 127);
		e[n] = '\0';
		env_len = n;
		env_val = n == 0 && nd_bool() ? NULL : e;
		bool ok = env_val != NULL && (e[0] == '@' || e[0] == '/') && n > 1;
		int rc = sc_sock_notify_systemd(the_msg);
		CHECK(live == 0, "nothing stays open");
		CHECK(rc == (ok && failures == 0 ? 0 : -1), "result");
		CHECK((sent == 1) == (made == 1) && (rc != 0 || sent == 1), "sent");
		CHECK(ok || (made == 0 && errno == EINVAL), "no valid socket name");
		REACH_IF(rc == 0, "sent");
		REACH_IF(rc != 0 && ok, "failed");
	}
}
