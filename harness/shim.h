/* Plain-C bridge to the library's internal (but externally linked, and unit-tested) layers. */
#ifndef VH_SHIM_H
#define VH_SHIM_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include "scclust.h"
#ifdef __cplusplus
extern "C" {
#endif

typedef struct ShimGraph { size_t n; size_t* tail; long long* head; size_t max_arcs; bool valid; } ShimGraph;
void shim_free_graph(ShimGraph* g);

int shim_get_nng(void* ds, size_t n, const scc_ClusterOptions* o, ShimGraph* out);
int shim_find_seeds(const ShimGraph* nng, int method, size_t capacity, long long** seeds, size_t* count);
void shim_free(void* p);

/* digraph operations: inputs are built as library digraphs, results converted back. in_unchanged reports const-ness. */
int shim_delete_loops(const ShimGraph* g, ShimGraph* out);
int shim_union(int num, const ShimGraph* gs, bool has_keep, size_t nkeep, const long long* keep, bool loops, ShimGraph* out, bool* in_unchanged);
int shim_difference(const ShimGraph* a, const ShimGraph* b, uint32_t maxdeg, ShimGraph* out, bool* in_unchanged);
int shim_transpose(const ShimGraph* a, ShimGraph* out, bool* in_unchanged);
int shim_product(const ShimGraph* a, const ShimGraph* b, bool force, ShimGraph* out, bool* in_unchanged);

/* distance layer (whatever is installed in the function table) */
bool shim_dist_matrix(void* ds, size_t n, const scc_PointIndex* idx, double* out);
bool shim_dist_rows(void* ds, size_t nq, const scc_PointIndex* q, size_t nc, const scc_PointIndex* c, double* out);
bool shim_max_dist(void* ds, size_t ns, const scc_PointIndex* s, size_t nq, const scc_PointIndex* q, scc_PointIndex* oi, double* od);
bool shim_nn_open(void* ds, size_t ns, const scc_PointIndex* s, void** obj);
bool shim_nn_search(void* obj, size_t nq, const scc_PointIndex* q, uint32_t k, bool radius, double r, size_t* nok, scc_PointIndex* oq, scc_PointIndex* onn);
bool shim_nn_close(void** obj);

uint64_t shim_pointindex_max(void);
uint64_t shim_clabel_max(void);
uint64_t shim_arcindex_max(void);
int shim_make_error(int code, const char* msg); /* msg NULL: default text */
#ifdef __cplusplus
}
#endif
#endif
