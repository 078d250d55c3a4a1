/* linked with --wrap into the natively replayed library: counts the blocks the library holds; with FILL, fills new
   blocks, so that a result which depends on uninitialised storage differs between two fills */
#include <stddef.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
long dv_live = 0;
#ifndef FILL
#define FILL(p, n)
#endif
void *memset(void *, int, size_t);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) { FILL(p, n); } if (p) __atomic_add_fetch(&dv_live, 1, __ATOMIC_RELAXED); return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); if (p) __atomic_add_fetch(&dv_live, 1, __ATOMIC_RELAXED); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (p && !q) __atomic_add_fetch(&dv_live, 1, __ATOMIC_RELAXED); return p; }
void __wrap_free(void *p) { if (p) __atomic_sub_fetch(&dv_live, 1, __ATOMIC_RELAXED); __real_free(p); }
