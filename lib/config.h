/* Found by the library's own SC_HAVE_CONFIG_H hook: every allocation of the
 * code under test goes through the tracked allocator of the harness (each
 * harness instantiates V_TYPED for the modules it links). */
#ifndef VERIF_CONFIG_H
#define VERIF_CONFIG_H
#include <stddef.h>
#define sc_array_malloc vt_array_malloc
#define sc_array_calloc vt_array_calloc
#define sc_array_realloc vt_array_realloc
#define sc_array_free vt_array_free
void *vt_array_malloc(size_t n);
void *vt_array_calloc(size_t a, size_t b);
void *vt_array_realloc(void *p, size_t n);
void vt_array_free(void *p);
#define sc_buf_malloc vt_buf_malloc
#define sc_buf_calloc vt_buf_calloc
#define sc_buf_realloc vt_buf_realloc
#define sc_buf_free vt_buf_free
void *vt_buf_malloc(size_t n);
void *vt_buf_calloc(size_t a, size_t b);
void *vt_buf_realloc(void *p, size_t n);
void vt_buf_free(void *p);
#define sc_heap_malloc vt_heap_malloc
#define sc_heap_calloc vt_heap_calloc
#define sc_heap_realloc vt_heap_realloc
#define sc_heap_free vt_heap_free
void *vt_heap_malloc(size_t n);
void *vt_heap_calloc(size_t a, size_t b);
void *vt_heap_realloc(void *p, size_t n);
void vt_heap_free(void *p);
#define sc_queue_malloc vt_queue_malloc
#define sc_queue_calloc vt_queue_calloc
#define sc_queue_realloc vt_queue_realloc
#define sc_queue_free vt_queue_free
void *vt_queue_malloc(size_t n);
void *vt_queue_calloc(size_t a, size_t b);
void *vt_queue_realloc(void *p, size_t n);
void vt_queue_free(void *p);
#define sc_map_malloc vt_map_malloc
#define sc_map_calloc vt_map_calloc
#define sc_map_realloc vt_map_realloc
#define sc_map_free vt_map_free
void *vt_map_malloc(size_t n);
void *vt_map_calloc(size_t a, size_t b);
void *vt_map_realloc(void *p, size_t n);
void vt_map_free(void *p);
#define sc_str_malloc vt_str_malloc
#define sc_str_calloc vt_str_calloc
#define sc_str_realloc vt_str_realloc
#define sc_str_free vt_str_free
void *vt_str_malloc(size_t n);
void *vt_str_calloc(size_t a, size_t b);
void *vt_str_realloc(void *p, size_t n);
void vt_str_free(void *p);
#define sc_timer_malloc vt_timer_malloc
#define sc_timer_calloc vt_timer_calloc
#define sc_timer_realloc vt_timer_realloc
#define sc_timer_free vt_timer_free
void *vt_timer_malloc(size_t n);
void *vt_timer_calloc(size_t a, size_t b);
void *vt_timer_realloc(void *p, size_t n);
void vt_timer_free(void *p);
#define sc_uri_malloc vt_uri_malloc
#define sc_uri_calloc vt_uri_calloc
#define sc_uri_realloc vt_uri_realloc
#define sc_uri_free vt_uri_free
void *vt_uri_malloc(size_t n);
void *vt_uri_calloc(size_t a, size_t b);
void *vt_uri_realloc(void *p, size_t n);
void vt_uri_free(void *p);
#define sc_sock_malloc vt_sock_malloc
#define sc_sock_calloc vt_sock_calloc
#define sc_sock_realloc vt_sock_realloc
#define sc_sock_free vt_sock_free
void *vt_sock_malloc(size_t n);
void *vt_sock_calloc(size_t a, size_t b);
void *vt_sock_realloc(void *p, size_t n);
void vt_sock_free(void *p);
#endif
