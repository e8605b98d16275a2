#ifndef STUB_STR_H
#define STUB_STR_H
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
size_t v_strlen(const char *s);
int v_vsnprintf(char *dst, size_t n, const char *fmt, va_list va);
#define strlen(s) v_strlen(s)
#define vsnprintf(d, n, f, va) v_vsnprintf(d, n, f, va)
#endif
