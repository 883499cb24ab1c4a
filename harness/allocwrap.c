/* Allocation bookkeeping and fault injection for libisl (linked with -Wl,--wrap=...). */
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <gmp.h>
#ifdef __clang__
#define NT __attribute__((no_sanitize("thread")))   /* bookkeeping shared by the threads of a test */
#else
#define NT
#endif
void *__real_malloc(size_t n); void *__real_calloc(size_t a, size_t b); void *__real_realloc(void *p, size_t n); void __real_free(void *p);
long aw_live, aw_count, aw_fail = -1, aw_failed; int aw_fill = -1;
void (*aw_hook)(void);
NT static int deny(void) { long k = aw_count++; if (aw_fail >= 0 && k == aw_fail) { aw_failed = 1; if (aw_hook) aw_hook(); return 1; } return 0; }
NT void *__wrap_malloc(size_t n) { void *p; if (deny()) return NULL; p = __real_malloc(n); if (p) { aw_live++; if (aw_fill >= 0) memset(p, aw_fill, n); } return p; }
NT void *__wrap_calloc(size_t a, size_t b) { void *p; if (deny()) return NULL; p = __real_calloc(a, b); if (p) aw_live++; return p; }
NT void *__wrap_realloc(void *q, size_t n) { void *p; if (deny()) return NULL; p = __real_realloc(q, n); if (!q && p) aw_live++; if (q && !n && !p) aw_live--; return p; }
NT void __wrap_free(void *p) { if (p) aw_live--; __real_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
NT static void *g_alloc(size_t n) { void *p = __real_malloc(n); aw_live++; if (aw_fill >= 0 && p) memset(p, aw_fill, n); return p; }
static void *g_realloc(void *q, size_t o, size_t n) { return __real_realloc(q, n); }
NT static void g_free(void *p, size_t n) { aw_live--; __real_free(p); }
void aw_init(void) { mp_set_memory_functions(g_alloc, g_realloc, g_free); }
