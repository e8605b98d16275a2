/* P01: memory maps; the operating system is the harness */
#include "verif.h"
#include "sc_mmap.h"
#include <sys/stat.h>
#include <unistd.h>
#include "nochecks.h"

static int n_fail, first_err;
static bool fails(void)
{
	if (n_fail > 0 || !nd_bool())
		return false;
	n_fail++;
	first_err = (int) nd_range(1, 133);
	ASSUME(first_err != EINTR);
	errno = first_err;
	return true;
}

#define FD 7
static int opened, closes, mapped;
static const char *the_name = "file";
static int64_t fsize;         /* size of the file */
static long page;
static int want_flags, want_prot, want_mflags, opened_flags;
static size_t want_off, want_len, map_len;
static char *region;
static int fallocs;

int v_open(const char *name, int flags, ...)
{
	CHECK(name == the_name && flags == want_flags, "the file and flags given");
	if (fails())
		return -1;
	CHECK(!opened, "opened once");
	opened = 1;
	return FD;
}
int v_close(int fd)
{
	CHECK(fd == FD && opened, "closes what is open");
	opened = 0;
	closes++;
	errno = nd_int();
	return nd_bool() ? -1 : 0;
}
static int st(struct stat *st)
{
	if (fails())
		return -1;
	memset(st, 0, sizeof(*st));
	st->st_size = (off_t) fsize;
	st->st_blksize = 4096;
	return 0;
}
int v_stat(const char *name, struct stat *s)
{
	CHECK(name == the_name, "the file given");
	return st(s);
}
int v_fstat(int fd, struct stat *s)
{
	CHECK(fd == FD && opened, "the open file");
	return st(s);
}
long v_sysconf(int n)
{
	CHECK(n == _SC_PAGESIZE, "page size");
	return fails() ? -1 : page;
}
int v_fallocate(int fd, off_t off, off_t len)
{
	CHECK(fd == FD && opened, "the open file");
	fallocs++;
	if (fallocs < 3 && nd_bool())
		return EINTR; /* interrupted */
	if (off < 0 || len <= 0) {
		n_fail++;
		first_err = EINVAL;
		return EINVAL;
	}
	if (fails()) {
		errno = nd_int();
		return first_err;
	}
	if (off > INT64_MAX - len) {
		n_fail++;
		first_err = EFBIG;
		return EFBIG;
	}
	if (off + len > fsize)
		fsize = off + len;
	return 0;
}
int v_ftruncate(int fd, off_t len)
{
	CHECK(fd == FD && opened, "the open file");
	CHECK(len >= fsize, "the file is not cut");
	if (fails())
		return -1;
	fsize = len;
	return 0;
}
void *v_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off)
{
	CHECK(a == NULL && prot == want_prot && flags == want_mflags, "mapping as requested");
	CHECK(fd == FD && opened && (size_t) off == want_off, "the open file at the offset");
	if (len == 0 || off < 0 || off % page != 0 || len > (size_t) 1 << 46) {
		n_fail++;
		first_err = EINVAL;
		errno = EINVAL;
		return MAP_FAILED;
	}
	if (fails())
		return MAP_FAILED;
	mapped++;
	map_len = len;
	return region;
}
int v_munmap(void *p, size_t len)
{
	CHECK(mapped == 1 && p == region && len == map_len, "unmaps exactly the mapped region, once");
	if (fails())
		return -1;
	mapped = 0;
	return 0;
}
static char err_text[2];
static int err_asked;
char *v_strerror(int e)
{
	err_asked = e;
	err_text[0] = (char) ('A' + (e & 15));
	err_text[1] = '\0';
	return err_text;
}
static size_t call_off, call_len;
static int calls;
static int touch(const void *p, size_t len, const char *what)
{
	/* pages touched by the system: rounded outwards where it does so itself */
	size_t o = (size_t) ((const char *) p - region);
	(void) what;
	CHECK(o <= call_off && o + len >= call_off + call_len, "covers the requested range");
	CHECK(o / (size_t) page == call_off / (size_t) page, "starts on its first page");
	CHECK(call_len == 0 ||(o + len - 1) / (size_t) page == (call_off + call_len - 1) / (size_t) page, "ends on its last page");
	calls++;
	return fails() ? -1 : 0;
}
int v_msync(void *p, size_t len, int flags)
{
	CHECK(((size_t) ((char *) p - region)) % (size_t) page == 0, "msync starts at a page");
	CHECK((flags & MS_SYNC) != 0, "waits for the data to be written");
	return touch(p, len, "msync");
}
int v_mlock(const void *p, size_t len) { return touch(p, len, "mlock"); }
int v_munlock(const void *p, size_t len) { return touch(p, len, "munlock"); }

static void err_ok(struct sc_mmap *m)
{
	CHECK(err_asked == first_err && sc_mmap_err(m)[0] == err_text[0] && sc_mmap_err(m)[1] == '\0', "error text of the failure");
}

static bool open_map(struct sc_mmap *m)
{
	static char mem[1];
	region = mem;
	page = PAGE;
	want_flags = nd_int();
	want_prot = (int) nd_range(0, 7);
	want_mflags = nd_int();
	want_off = nd_size();
	want_len = nd_size();
	fsize = (int64_t) nd_range(0, (uint64_t) 1 << 46);
	int64_t size0 = fsize;
	memset(m, 0xff, sizeof(*m));
	errno = nd_int();
	int rc = sc_mmap_init(m, the_name, want_flags, want_prot, want_mflags, want_off, want_len);
	CHECK((rc == 0) == (n_fail == 0), "reports failure");
	if (rc != 0) {
		CHECK(rc == -1, "minus one");
		CHECK(!opened && !mapped, "nothing stays open or mapped");
		err_ok(m);
		int c = closes;
		CHECK(sc_mmap_term(m) == 0 && closes == c, "terminating a failed map does nothing");
		REACH_IF(fallocs == 1 && closes == 1, "expansion failed");
		REACH_IF(closes == 0, "open failed");
		REACH_IF(fallocs == 0 && closes == 1, "stat or map failed");
		return false;
	}
	CHECK(opened && mapped == 1 && m->fd == FD && (char *) m->ptr == region && m->len == map_len, "open and mapped");
	CHECK(map_len == (want_len != 0 ? want_len : (size_t) size0 - want_off), "length");
	CHECK(want_len != 0 || want_off < (size_t) size0, "offset inside the file when the length is taken from it");
	CHECK(!(want_prot & PROT_WRITE) || want_off + map_len <= (size_t) fsize, "large enough for a writable map");
	CHECK((want_prot & PROT_WRITE) || fsize == size0, "a read-only map leaves the file alone");
	return true;
}

void h_init_term(void)
{
	struct sc_mmap m;
	if (!open_map(&m))
		return;
	REACH_IF(fallocs == 3, "expanded after interruptions");
	int rc = sc_mmap_term(&m);
	CHECK(!opened, "closed");
	CHECK(rc == (n_fail ? -1 : 0), "failure to unmap reported");
	if (rc != 0)
		err_ok(&m);
	else
		CHECK(mapped == 0, "unmapped");
	n_fail = 0;
	CHECK(sc_mmap_term(&m) == 0 && closes == 1, "terminated once");
	REACH_IF(rc != 0, "unmap failed");
	REACH_IF(rc == 0, "unmapped");
}

#ifndef REG
#define REG (1 << 14)
#endif
void h_ranges(void)
{
	struct sc_mmap m;
	static char mem[REG];
	memset(&m, 0, sizeof(m));
	region = mem;
	page = PAGE;
	m.fd = FD;
	m.page_size = PAGE;
	m.ptr = (unsigned char *) region;
	m.len = REG;
	call_off = nd_size();
	call_len = nd_size();
	ASSUME(call_off < REG && call_len > 0 && call_len <= REG - call_off);
	FOR_CASE(k, 3)
	{
		errno = nd_int();
		int rc = k == 0 ? sc_mmap_msync(&m, call_off, call_len) : k == 1 ? sc_mmap_mlock(&m, call_off, call_len) : sc_mmap_munlock(&m, call_off, call_len);
		CHECK(calls == 1, "one call");
		CHECK(rc == (n_fail ? -1 : 0), "failure reported");
		if (rc)
			err_ok(&m);
		REACH_IF(rc == 0 && call_off % PAGE == 5 && call_len == PAGE, "range across a page boundary");
	}
}
