/* force-included into the library sources: formatting goes to the harness */
#ifndef STUB_FMT_H
#define STUB_FMT_H
#include <stdarg.h>
#include <stdio.h>
int v_vsnprintf(char *dst, size_t n, const char *fmt, va_list va);
int v_snprintf(char *dst, size_t n, const char *fmt, ...);
#define vsnprintf(d, n, f, va) v_vsnprintf(d, n, f, va)
#define snprintf(...) v_snprintf(__VA_ARGS__)
#endif
