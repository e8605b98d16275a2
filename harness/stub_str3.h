#ifndef STUB_STR3_H
#define STUB_STR3_H
#include "stub_str.h"
void *v_memcpy(void *d, const void *s, size_t n);
void *v_memmove(void *d, const void *s, size_t n);
#define memcpy(d, s, n) v_memcpy(d, s, n)
#define memmove(d, s, n) v_memmove(d, s, n)
#endif
