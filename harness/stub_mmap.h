#ifndef STUB_MMAP_H
#define STUB_MMAP_H
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
int v_open(const char *name, int flags, ...);
int v_close(int fd);
int v_stat(const char *name, struct stat *st);
int v_fstat(int fd, struct stat *st);
long v_sysconf(int n);
int v_fallocate(int fd, off_t off, off_t len);
int v_ftruncate(int fd, off_t len);
void *v_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off);
int v_munmap(void *p, size_t len);
int v_msync(void *p, size_t len, int flags);
int v_mlock(const void *p, size_t len);
int v_munlock(const void *p, size_t len);
char *v_strerror(int e);
#define open(...) v_open(__VA_ARGS__)
#define close(f) v_close(f)
#define stat(n, s) v_stat(n, s)
#define fstat(n, s) v_fstat(n, s)
#define sysconf(n) v_sysconf(n)
#define getpagesize() ((int) v_sysconf(_SC_PAGESIZE))
#define posix_fallocate(f, o, l) v_fallocate(f, o, l)
#define ftruncate(f, l) v_ftruncate(f, l)
#define mmap(a, l, p, f, d, o) v_mmap(a, l, p, f, d, o)
#define munmap(p, l) v_munmap(p, l)
#define msync(p, l, f) v_msync(p, l, f)
#define mlock(p, l) v_mlock(p, l)
#define munlock(p, l) v_munlock(p, l)
#define strerror(e) v_strerror(e)
#endif
