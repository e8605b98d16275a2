#ifndef STUB_SC_H
#define STUB_SC_H
#include <stdarg.h>
#include <stdio.h>
int v_snprintf(char *dst, size_t n, const char *fmt, ...);
#define snprintf(...) v_snprintf(__VA_ARGS__)
#endif
