/* Force-included (-include) into every library source of an instrumented build: routes the library's
 * allocations through a ledger that can leak-check, fail the n-th allocation and fill memory with garbage.
 * Function-like macros, so that taking the address of malloc or declaring members is unaffected. */
#ifndef VH_ALLOC_HOOK_H
#define VH_ALLOC_HOOK_H
#include <stdlib.h>
#include <string.h>
void* vh_malloc(size_t n);
void* vh_calloc(size_t n, size_t m);
void* vh_realloc(void* p, size_t n);
void vh_free(void* p);
#ifndef VH_IMPL
#define malloc(n) vh_malloc(n)
#define calloc(n, m) vh_calloc((n), (m))
#define realloc(p, n) vh_realloc((p), (n))
#define free(p) vh_free(p)
#endif
#endif
