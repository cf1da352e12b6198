/* Control interface of the allocation ledger. */
#ifndef VH_ALLOC_H
#define VH_ALLOC_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void vh_track(int on);                 /* start/stop recording (resets the ledger on start) */
void vh_fill(int on, uint64_t seed);   /* fill fresh memory (and freed memory) with pseudo-random garbage */
void vh_fail_at(int64_t index, int persistent); /* fail allocation number index (0-based) counted from vh_reset_count; -1 = never */
void vh_fail_mask(uint64_t seed, unsigned per1000); /* random failures */
void vh_reset_count(void);
int64_t vh_count(void);                /* allocations attempted since vh_reset_count */
int64_t vh_failed(void);               /* allocations failed since vh_reset_count */
int64_t vh_live(void);                 /* live blocks in the ledger */
size_t vh_live_bytes(void);
int64_t vh_bad_frees(void);            /* frees of pointers that are not live while tracking */
int64_t vh_total(void);
int vh_is_live(const void* p);
size_t vh_peak_bytes(void);            /* most bytes live at a time since vh_reset_count */
int64_t vh_reallocs(void);             /* calls of realloc, ever */
int vh_realloc_at(int64_t* out, int cap); /* allocation numbers of the reallocs since vh_reset_count */
size_t vh_max_request(void);           /* largest single request since vh_reset_count */
void vh_limit(size_t bytes);           /* requests larger than this fail (0 = off) */
#ifdef __cplusplus
}
#endif
#endif
