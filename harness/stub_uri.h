#ifndef STUB_URI_H
#define STUB_URI_H
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
int v_snprintf(char *dst, size_t n, const char *fmt, ...);
int v_vsnprintf(char *dst, size_t n, const char *fmt, va_list va);
void *v_memcpy(void *d, const void *s, size_t n);
void *v_memmove(void *d, const void *s, size_t n);
#define memcpy(d, s, n) v_memcpy(d, s, n)
#define memmove(d, s, n) v_memmove(d, s, n)
#define vsnprintf(d, n, f, va) v_vsnprintf(d, n, f, va)
#define snprintf(...) v_snprintf(__VA_ARGS__)
#endif
