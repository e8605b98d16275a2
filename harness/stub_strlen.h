/* strlen of a string whose length the harness fixed (its bytes are symbolic) */
#ifndef STUB_STRLEN_H
#define STUB_STRLEN_H
#include <string.h>
size_t v_strlen(const char *s);
#define strlen(s) v_strlen(s)
#endif
