#define VH_IMPL
#include "alloc_hook.h"
#include "shim.h"
#include <string.h>
#include "clustering_struct.h"
#include "digraph_core.h"
#include "digraph_operations.h"
#include "dist_search.h"
#include "error.h"
#include "nng_core.h"
#include "nng_findseeds.h"
#include "scclust_types.h"

void shim_free(void* p) { free(p); }
void shim_free_graph(ShimGraph* g) { free(g->tail); free(g->head); g->tail = NULL; g->head = NULL; }

static void to_shim(const iscc_Digraph* d, ShimGraph* out) {
	out->n = d->vertices; out->max_arcs = d->max_arcs;
	out->valid = iscc_digraph_is_valid(d);
	out->tail = malloc(sizeof(size_t) * (d->vertices + 1));
	for (size_t i = 0; i <= d->vertices; ++i) out->tail[i] = (size_t) d->tail_ptr[i];
	size_t m = out->tail[d->vertices];
	out->head = malloc(sizeof(long long) * (m + 1));
	for (size_t i = 0; i < m; ++i) out->head[i] = (long long) d->head[i];
}
static int to_lib(const ShimGraph* g, iscc_Digraph* d) {
	size_t m = g->tail[g->n];
	int ec = iscc_init_digraph(g->n, m, d);
	if (ec) return ec;
	for (size_t i = 0; i <= g->n; ++i) d->tail_ptr[i] = (iscc_ArcIndex) g->tail[i];
	for (size_t i = 0; i < m; ++i) d->head[i] = (scc_PointIndex) g->head[i];
	return 0;
}
static bool same(const ShimGraph* g, const iscc_Digraph* d) {
	if (d->vertices != g->n) return false;
	for (size_t i = 0; i <= g->n; ++i) if ((size_t) d->tail_ptr[i] != g->tail[i]) return false;
	for (size_t i = 0; i < g->tail[g->n]; ++i) if ((long long) d->head[i] != g->head[i]) return false;
	return true;
}

int shim_get_nng(void* ds, size_t n, const scc_ClusterOptions* o, ShimGraph* out) {
	iscc_Digraph d; scc_ErrorCode ec;
	const bool rc = o->seed_radius == SCC_RM_USE_SUPPLIED;
	if (o->num_types < 2) ec = iscc_get_nng_with_size_constraint(ds, n, o->size_constraint, o->len_primary_data_points, o->primary_data_points, rc, o->seed_supplied_radius, &d);
	else ec = iscc_get_nng_with_type_constraint(ds, n, o->size_constraint, (uint_fast16_t) o->num_types, o->type_constraints, o->type_labels, o->len_primary_data_points, o->primary_data_points, rc, o->seed_supplied_radius, &d);
	if (ec != SCC_ER_OK) return (int) ec;
	to_shim(&d, out);
	iscc_free_digraph(&d);
	return 0;
}
int shim_find_seeds(const ShimGraph* g, int method, size_t capacity, long long** seeds, size_t* count) {
	iscc_Digraph d;
	if (to_lib(g, &d)) return -1;
	iscc_SeedResult r = { capacity, 0, NULL };
	scc_ErrorCode ec = iscc_find_seeds(&d, (scc_SeedMethod) method, &r);
	iscc_free_digraph(&d);
	if (ec != SCC_ER_OK) return (int) ec;
	*count = r.count;
	*seeds = malloc(sizeof(long long) * (r.count + 1));
	for (size_t i = 0; i < r.count; ++i) (*seeds)[i] = (long long) r.seeds[i];
	vh_free(r.seeds);
	return 0;
}
int shim_delete_loops(const ShimGraph* g, ShimGraph* out) {
	iscc_Digraph d; if (to_lib(g, &d)) return -1;
	int ec = (int) iscc_delete_loops(&d);
	if (!ec) to_shim(&d, out);
	iscc_free_digraph(&d);
	return ec;
}
int shim_union(int num, const ShimGraph* gs, bool has_keep, size_t nkeep, const long long* keep, bool loops, ShimGraph* out, bool* un) {
	iscc_Digraph* ds = malloc(sizeof(iscc_Digraph) * (size_t) num);
	for (int i = 0; i < num; ++i) if (to_lib(&gs[i], &ds[i])) { for (int j = 0; j < i; ++j) iscc_free_digraph(&ds[j]); free(ds); return -1; }
	scc_PointIndex* k = NULL;
	if (has_keep) { k = malloc(sizeof(scc_PointIndex) * (nkeep ? nkeep : 1)); for (size_t i = 0; i < nkeep; ++i) k[i] = (scc_PointIndex) keep[i]; }
	iscc_Digraph o;
	int ec = (int) iscc_digraph_union_and_delete((uint_fast16_t) num, ds, has_keep ? nkeep : 0, k, loops, &o);
	if (!ec) { to_shim(&o, out); iscc_free_digraph(&o); }
	*un = true;
	for (int i = 0; i < num; ++i) { *un = *un && same(&gs[i], &ds[i]); iscc_free_digraph(&ds[i]); }
	free(ds); free(k);
	return ec;
}
int shim_difference(const ShimGraph* a, const ShimGraph* b, uint32_t maxdeg, ShimGraph* out, bool* un) {
	iscc_Digraph da, db; if (to_lib(a, &da)) return -1; if (to_lib(b, &db)) { iscc_free_digraph(&da); return -1; }
	int ec = (int) iscc_digraph_difference(&da, &db, maxdeg);
	if (!ec) to_shim(&da, out);
	*un = same(b, &db);
	iscc_free_digraph(&da); iscc_free_digraph(&db);
	return ec;
}
int shim_transpose(const ShimGraph* a, ShimGraph* out, bool* un) {
	iscc_Digraph da, o; if (to_lib(a, &da)) return -1;
	int ec = (int) iscc_digraph_transpose(&da, &o);
	if (!ec) { to_shim(&o, out); iscc_free_digraph(&o); }
	*un = same(a, &da); iscc_free_digraph(&da);
	return ec;
}
int shim_product(const ShimGraph* a, const ShimGraph* b, bool force, ShimGraph* out, bool* un) {
	iscc_Digraph da, db, o; if (to_lib(a, &da)) return -1; if (to_lib(b, &db)) { iscc_free_digraph(&da); return -1; }
	int ec = (int) iscc_adjacency_product(&da, &db, force, &o);
	if (!ec) { to_shim(&o, out); iscc_free_digraph(&o); }
	*un = same(a, &da) && same(b, &db);
	iscc_free_digraph(&da); iscc_free_digraph(&db);
	return ec;
}
bool shim_dist_matrix(void* ds, size_t n, const scc_PointIndex* idx, double* out) { return iscc_get_dist_matrix(ds, n, idx, out); }
bool shim_dist_rows(void* ds, size_t nq, const scc_PointIndex* q, size_t nc, const scc_PointIndex* c, double* out) { return iscc_get_dist_rows(ds, nq, q, nc, c, out); }
bool shim_max_dist(void* ds, size_t ns, const scc_PointIndex* s, size_t nq, const scc_PointIndex* q, scc_PointIndex* oi, double* od) {
	iscc_MaxDistObject* o;
	if (!iscc_init_max_dist_object(ds, ns, s, &o)) return false;
	bool ok = iscc_get_max_dist(o, nq, q, oi, od);
	return iscc_close_max_dist_object(&o) && ok && o == NULL;
}
bool shim_nn_open(void* ds, size_t ns, const scc_PointIndex* s, void** obj) { return iscc_init_nn_search_object(ds, ns, s, (iscc_NNSearchObject**) obj); }
bool shim_nn_search(void* obj, size_t nq, const scc_PointIndex* q, uint32_t k, bool radius, double r, size_t* nok, scc_PointIndex* oq, scc_PointIndex* onn) {
	return iscc_nearest_neighbor_search((iscc_NNSearchObject*) obj, nq, q, k, radius, r, nok, oq, onn);
}
bool shim_nn_close(void** obj) { return iscc_close_nn_search_object((iscc_NNSearchObject**) obj); }
uint64_t shim_pointindex_max(void) { return (uint64_t) ISCC_POINTINDEX_MAX; }
uint64_t shim_clabel_max(void) { return (uint64_t) SCC_CLABEL_MAX; }
uint64_t shim_arcindex_max(void) { return (uint64_t) ISCC_ARCINDEX_MAX; }
int shim_make_error(int code, const char* msg) {
	if (msg) return (int) iscc_make_error_msg((scc_ErrorCode) code, msg);
	return (int) iscc_make_error((scc_ErrorCode) code);
}
