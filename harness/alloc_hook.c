#define VH_IMPL
#include "alloc_hook.h"
#include "vh_alloc.h"
#include <stdio.h>

/* Open-addressing hash set of live blocks. Single threaded when tracking is on. */
typedef struct { void* p; size_t n; } ent;
static ent* tab; static size_t cap, used; /* used counts tombstones too */
#define TOMB ((void*)1)
static int tracking; static int filling; static uint64_t fseed;
static int64_t fail_index = -1; static int fail_persist;
static uint64_t mask_seed; static unsigned mask_rate;
static int64_t cnt, failed, live, badfrees, total; static size_t live_bytes, peak_bytes, maxreq, limit_bytes;

static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }

static void tab_put_raw(ent* t, size_t c, void* p, size_t n) {
	size_t h = (size_t) mix((uint64_t)(uintptr_t) p) & (c - 1);
	while (t[h].p != NULL && t[h].p != TOMB) h = (h + 1) & (c - 1);
	t[h].p = p; t[h].n = n;
}
static void tab_add(void* p, size_t n) {
	if (cap == 0 || used * 2 >= cap) {
		size_t nc = 1024; while (nc < (size_t)(live + 1) * 4) nc *= 2;
		ent* nt = calloc(nc, sizeof(ent));
		if (!nt) { fprintf(stderr, "ledger out of memory\n"); abort(); }
		size_t nu = 0;
		for (size_t i = 0; i < cap; ++i) if (tab[i].p && tab[i].p != TOMB) { tab_put_raw(nt, nc, tab[i].p, tab[i].n); ++nu; }
		free(tab); tab = nt; cap = nc; used = nu;
	}
	tab_put_raw(tab, cap, p, n); ++used; ++live; live_bytes += n; if (live_bytes > peak_bytes) peak_bytes = live_bytes;
}
static ent* tab_find(const void* p) {
	if (!cap) return NULL;
	size_t h = (size_t) mix((uint64_t)(uintptr_t) p) & (cap - 1);
	while (tab[h].p != NULL) { if (tab[h].p == p) return &tab[h]; h = (h + 1) & (cap - 1); }
	return NULL;
}
/* Garbage of several kinds: noise, small integers of 8 to 64 bits (what stale counters, markers and labels look like), runs of one byte. */
static void fillmem(void* p, size_t n) {
	uint64_t s = mix(fseed ^ (uint64_t) cnt * 0x9e3779b97f4a7c15ULL);
	const unsigned kind = (unsigned) (s >> 7) % 8; const unsigned w = 1u << ((s >> 11) & 3); const uint64_t span = (s >> 13) % 3 ? 1 + (s >> 17) % 4 : 1 + (s >> 17) % 40, run = (s >> 23) % 4 == 0 ? UINT64_MAX : 1 + (s >> 25) % 4;
	unsigned char* c = p; uint64_t v = 0;
	if (kind < 3) { for (size_t i = 0; i < n; ++i) { if ((i & 7) == 0) s = s * 6364136223846793005ULL + 1442695040888963407ULL; c[i] = (unsigned char) (s >> (8 * (i & 7))); } return; }
	if (kind == 3) { memset(c, (s >> 29) & 1 ? 0 : 0xff, n); return; }
	uint64_t left = 0;
	for (size_t i = 0; i < n; i += w) { if (left-- == 0) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; v = (s >> 33) % (span + 1); left = run - 1; } for (size_t b = 0; b < w && i + b < n; ++b) c[i + b] = (unsigned char) (v >> (8 * b)); }
}
static int should_fail(size_t n) {
	int64_t i = cnt++;
	++total;
	if (n > maxreq) maxreq = n;
	int f = 0;
	if (limit_bytes && n > limit_bytes) f = 1;
	if (fail_index >= 0 && (i == fail_index || (fail_persist && i >= fail_index))) f = 1;
	if (mask_rate && (mix(mask_seed + (uint64_t) i) % 1000) < mask_rate) f = 1;
	if (f) ++failed;
	return f;
}
void* vh_malloc(size_t n) {
	if (!tracking) return malloc(n);
	if (should_fail(n)) return NULL;
	void* p = malloc(n);
	if (p) { tab_add(p, n); if (filling) fillmem(p, n); }
	return p;
}
void* vh_calloc(size_t n, size_t m) {
	if (!tracking) return calloc(n, m);
	if (should_fail(m && n > SIZE_MAX / m ? SIZE_MAX : n * m)) return NULL;
	void* p = calloc(n, m);
	if (p) tab_add(p, n * m);
	return p;
}
void vh_free(void* p) {
	if (!tracking) { free(p); return; }
	if (p == NULL) return;
	ent* e = tab_find(p);
	if (e) { live_bytes -= e->n; --live; if (filling) fillmem(p, e->n); e->p = TOMB; }
	else ++badfrees; /* real free below: a sanitizer reports a true double free */
	free(p);
}
static int64_t grown, re_idx[64]; static int re_n;
int vh_realloc_at(int64_t* out, int cap) { int k = re_n < cap ? re_n : cap; for (int i = 0; i < k; ++i) out[i] = re_idx[i]; return k; }
int64_t vh_reallocs(void) { return grown; }
void* vh_realloc(void* p, size_t n) {
	__atomic_fetch_add(&grown, 1, __ATOMIC_RELAXED);
	if (!tracking) return realloc(p, n);
	if (re_n < 64) re_idx[re_n++] = cnt;
	if (should_fail(n)) return NULL;
	ent* e = p ? tab_find(p) : NULL;
	if (p && !e) { ++badfrees; return realloc(p, n); }
	if (n == 0) { /* keep implementation behaviour simple: free and return a unique block */
		if (p) { live_bytes -= e->n; --live; e->p = TOMB; free(p); }
		void* z = malloc(1); if (z) tab_add(z, 0); return z;
	}
	void* q = malloc(n); /* always moves, to expose stale pointers */
	if (!q) return NULL;
	if (filling) fillmem(q, n);
	if (p) {
		size_t old = e->n;
		memcpy(q, p, old < n ? old : n);
		if (filling) fillmem(p, old);
		live_bytes -= old; --live; e->p = TOMB; free(p);
	}
	tab_add(q, n);
	return q;
}
void vh_track(int on) {
	tracking = on;
	if (on) { free(tab); tab = NULL; cap = used = 0; live = 0; live_bytes = 0; badfrees = 0; cnt = failed = 0; maxreq = 0; }
}
void vh_fill(int on, uint64_t seed) { filling = on; fseed = seed; }
void vh_fail_at(int64_t index, int persistent) { fail_index = index; fail_persist = persistent; }
void vh_fail_mask(uint64_t seed, unsigned per1000) { mask_seed = mix(seed); mask_rate = per1000; }
void vh_limit(size_t b) { limit_bytes = b; }
void vh_reset_count(void) { re_n = 0; peak_bytes = live_bytes; cnt = 0; failed = 0; maxreq = 0; }
int64_t vh_count(void) { return cnt; }
int64_t vh_failed(void) { return failed; }
int64_t vh_live(void) { return live; }
size_t vh_live_bytes(void) { return live_bytes; }
int64_t vh_bad_frees(void) { return badfrees; }
int64_t vh_total(void) { return total; }
int vh_is_live(const void* p) { return tab_find(p) != NULL; }
size_t vh_peak_bytes(void) { return peak_bytes; }
size_t vh_max_request(void) { return maxreq; }
