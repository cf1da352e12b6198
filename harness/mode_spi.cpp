// The distance plug-in interface (C13).
#include "core.hpp"
namespace {

// Call counters wrapped around plain reference implementations over a built-in data set, to see which overrides take effect.
static ll hits[10]; static const Prob* SP;
static int ix(const scc_PointIndex* v, size_t i) { return v ? (int) v[i] : (int) i; }
static bool w_check(void* ds) { ++hits[0]; return ds != nullptr; }
static size_t w_num(void*) { ++hits[1]; return (size_t) SP->n; }
static bool w_matrix(void*, size_t n, const scc_PointIndex* idx, double* out) { ++hits[2]; for (size_t a = 0; a < n; ++a) for (size_t b = a + 1; b < n; ++b) *out++ = SP->dist(ix(idx, a), ix(idx, b)); return true; }
static bool w_rows(void*, size_t nq, const scc_PointIndex* q, size_t nc, const scc_PointIndex* c, double* out) { ++hits[3]; for (size_t a = 0; a < nq; ++a) for (size_t b = 0; b < nc; ++b) *out++ = SP->dist(ix(q, a), ix(c, b)); return true; }
struct WO { size_t ns; const scc_PointIndex* s; };
static bool w_mxi(void*, size_t ns, const scc_PointIndex* s, iscc_MaxDistObject** o) { ++hits[4]; WO* w = (WO*) malloc(sizeof(WO)); w->ns = ns; w->s = s; *o = (iscc_MaxDistObject*) w; return true; }
static bool w_mxg(iscc_MaxDistObject* h, size_t nq, const scc_PointIndex* q, scc_PointIndex* oi, double* od) { ++hits[5]; WO* o = (WO*) h; for (size_t i = 0; i < nq; ++i) { double m = -1; for (size_t j = 0; j < o->ns; ++j) { double k = SP->key(ix(q, i), ix(o->s, j)); if (k > m) { m = k; oi[i] = (scc_PointIndex) ix(o->s, j); } } od[i] = std::sqrt(m); } return true; }
static bool w_mxc(iscc_MaxDistObject** h) { ++hits[6]; free(*h); *h = nullptr; return true; }
static bool w_nni(void*, size_t ns, const scc_PointIndex* s, iscc_NNSearchObject** o) { ++hits[7]; WO* w = (WO*) malloc(sizeof(WO)); w->ns = ns; w->s = s; *o = (iscc_NNSearchObject*) w; return true; }
static bool w_nn(iscc_NNSearchObject* h, size_t nq, const scc_PointIndex* q, uint32_t k, bool rs, double r, size_t* nok, scc_PointIndex* oq, scc_PointIndex* onn) {
	++hits[8]; WO* o = (WO*) h; size_t ok = 0; std::vector<std::pair<double, int>> v; vi qq; for (size_t i = 0; i < nq; ++i) qq.push_back(ix(q, i));
	for (size_t i = 0; i < nq; ++i) { v.clear(); for (size_t j = 0; j < o->ns; ++j) { double d = SP->key(qq[i], ix(o->s, j)); if (!rs || d <= r * r) v.push_back({ d, (int) j }); } if (v.size() < k) continue; std::sort(v.begin(), v.end()); for (uint32_t t = 0; t < k; ++t) onn[ok * k + t] = (scc_PointIndex) ix(o->s, (size_t) v[t].second); if (oq) oq[ok] = (scc_PointIndex) qq[i]; ++ok; }
	*nok = ok; return true;
}
static bool w_nnc(iscc_NNSearchObject** h) { ++hits[9]; free(*h); *h = nullptr; return true; }
static bool install(unsigned m) { return scc_set_dist_functions(m & 1 ? w_check : nullptr, m & 2 ? w_num : nullptr, m & 4 ? w_matrix : nullptr, m & 8 ? w_rows : nullptr, m & 16 ? w_mxi : nullptr, m & 32 ? w_mxg : nullptr, m & 64 ? w_mxc : nullptr, m & 128 ? w_nni : nullptr, m & 256 ? w_nn : nullptr, m & 512 ? w_nnc : nullptr); }
struct Out { Res sc, hc; int st; scc_ClusteringStats s; };
static void all(DS& d, const Prob& p, const Opt& o, uint32_t k, bool ba, Out& u) {
	u.sc = run_sc(d, p, o); u.hc = run_hc(d, p, k, ba); memset(&u.s, 0, sizeof u.s); u.st = -1;
	if (u.hc.ec == SCC_ER_OK && u.hc.m > 0) { scc_Clustering* c = nullptr; scc_init_empty_clustering((uint64_t) p.n, nullptr, &c); scc_hierarchical_clustering(d.ds, k, ba, c); u.st = scc_get_clustering_stats(d.ds, c, &u.s); scc_free_clustering(&c); }
}
static bool eq(const Out& a, const Out& b) { return a.sc.same(b.sc) && a.hc.same(b.hc) && a.st == b.st && !memcmp(&a.s, &b.s, sizeof a.s); }
static bool touched() { for (ll h : hits) if (h) return true; return false; }

static void overrides(Rng& g) {
	Prob p; Opt o; gen_prob(g, GEN_EXACT | GEN_NOCUSTOM | GEN_SMALL, p); gen_opt(g, GEN_FEASIBLE, p, o); describe(p, &o); SP = &p; DS d(p);
	uint32_t k = (uint32_t) g.in(2, std::max(2, p.n / 3)); if ((int) k > p.n) k = (uint32_t) p.n; bool ba = g.chance(50);
	Out base; all(d, p, o, k, ba, base);
	for (int rep = 0; rep < 4 && !R.violations; ++rep) {
		unsigned m = (unsigned) g.in(1, 1023); bool mx = (m & 0x70) == 0 || (m & 0x70) == 0x70, nn = (m & 0x380) == 0 || (m & 0x380) == 0x380; desc("override mask 0x%x\n", m);
		bool clean = g.chance(50); if (clean) { if (!mx) m |= 0x70; if (!nn) m |= 0x380; mx = nn = true; }
		memset(hits, 0, sizeof hits); bool ok = install(m);
		if (ok != (mx && nn)) { viol("override-accept", "override set 0x%x %s", m, ok ? "accepted although incomplete" : "refused although complete"); break; }
		if (ok) {
			Out u; all(d, p, o, k, ba, u);
			if (!eq(u, base)) { viol("override-result", "override set 0x%x of equivalent functions changes the results", m); break; }
			for (int f = 0; f < 10; ++f) { bool ins = m >> f & 1; if (!ins && hits[f]) { viol("override-foreign", "function %d called although not installed", f); break; } }
			// each installed function that the workload needs must have been used
			if ((m & 1) && !hits[0]) viol("override-unused", "check_data_set override never called");
			if ((m & 2) && !hits[1]) viol("override-unused", "num_data_points override never called");
			if ((m & 4) && base.st == SCC_ER_OK && base.s.max_cluster_size > 1 && !hits[2]) viol("override-unused", "get_dist_matrix override never called");
			if ((m & 0x380) && base.sc.ec == SCC_ER_OK && (!hits[7] || !hits[8] || !hits[9])) viol("override-unused", "nearest-neighbour overrides never called");
			if ((m & 0x70) && base.hc.ec == SCC_ER_OK && base.hc.m > 1 && (!hits[4] || !hits[5] || !hits[6])) viol("override-unused", "max-distance overrides never called");
			if ((m & 8) && base.hc.ec == SCC_ER_OK && base.hc.m > 1 && !hits[3]) viol("override-unused", "get_dist_rows override never called");
			if (hits[7] != hits[9] || hits[4] != hits[6]) viol("override-pairing", "searches opened and closed differ: nn %lld/%lld max %lld/%lld", hits[7], hits[9], hits[4], hits[6]);
			cnt("override_sets"); cntf(1, "overrides_%d", __builtin_popcount(m));
			// a later set adds to or replaces what is installed
			if (g.chance(40)) { unsigned m2 = (unsigned) g.in(1, 1023); if ((m2 & 0x70) && (m2 & 0x70) != 0x70) m2 &= ~0x70u; if ((m2 & 0x380) && (m2 & 0x380) != 0x380) m2 |= 0x380; desc("then override mask 0x%x\n", m2); memset(hits, 0, sizeof hits);
				if (!install(m2)) viol("override-accept", "override set 0x%x refused after 0x%x", m2, m); const unsigned mu = m | m2; Out u2; all(d, p, o, k, ba, u2); if (!eq(u2, base)) viol("override-result", "override sets 0x%x and 0x%x of equivalent functions change the results", m, m2);
				for (int f = 0; f < 10; ++f) if (!(mu >> f & 1) && hits[f]) { viol("override-foreign", "function %d called although in neither set", f); break; }
				if (((mu & 1) && !hits[0]) || ((mu & 2) && !hits[1]) || ((mu & 0x380) && base.sc.ec == SCC_ER_OK && (!hits[7] || !hits[8] || !hits[9])) || ((mu & 0x70) && base.hc.ec == SCC_ER_OK && base.hc.m > 1 && (!hits[4] || !hits[5] || !hits[6])) || ((mu & 4) && base.st == SCC_ER_OK && base.s.max_cluster_size > 1 && !hits[2]) || ((mu & 8) && base.hc.ec == SCC_ER_OK && base.hc.m > 1 && !hits[3])) viol("override-unused", "an override of sets 0x%x and 0x%x is never called", m, m2);
				if (hits[7] != hits[9] || hits[4] != hits[6]) viol("override-pairing", "searches opened and closed differ"); cnt("override_sequences"); }
		} else { // whatever a refused set leaves behind, the three functions of a search belong together
			Out u; all(d, p, o, k, ba, u); if (!eq(u, base)) { viol("override-refused", "a refused set 0x%x changes the results", m); break; }
			for (int f : { 4, 7 }) { bool full = f == 4 ? mx : nn; if (hits[f] != hits[f + 2] || (!full && (hits[f] || hits[f + 1] || hits[f + 2])) || (hits[f] > 0) != (hits[f + 1] > 0)) { viol("override-mixed", "after the refused set 0x%x a search mixes built-in and replaced functions", m); break; } }
			cnt("refused_sets"); }
		if (!scc_reset_dist_functions()) viol("reset", "scc_reset_dist_functions returned false");
		memset(hits, 0, sizeof hits); Out u; all(d, p, o, k, ba, u);
		if (touched()) viol("reset", "an override is still called after the reset");
		else if (!eq(u, base)) viol("reset", "results differ after the reset");
	}
	if (!scc_set_dist_functions(nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr)) viol("override-accept", "an empty set of overrides was refused");
	scc_reset_dist_functions();
	if (base.sc.m >= 2) sig(prob_hash(p, &o) ^ 0x77);
}
static void opaque(Rng& g) {
	Prob p; Opt o; int f = GEN_EXACT | GEN_CUSTOM | (g.chance(60) ? GEN_FEASIBLE : 0) | (g.chance(60) ? GEN_SMALL : 0) | (g.chance(15) ? GEN_BATCH : 0); gen_prob(g, f, p); gen_opt(g, f, p, o); describe(p, &o);
	DS d(p); Res r = run_sc(d, p, o, g.chance(50)); cntf(1, "ec_%s", ec_name(r.ec));
	if (!spi_check("scc_sc_clustering")) return;
	if (r.ec != SCC_ER_OK && r.ec != SCC_ER_NO_SOLUTION) { viol("unexpected-code", "valid problem returned %s", ec_name(r.ec)); return; }
	analyze(d, p, o, r, A_ALL); if (!spi_check("analysis")) return;
	uint32_t k = (uint32_t) g.in(2, std::max(2, p.n / 2)); if ((int) k > p.n) k = (uint32_t) p.n; Res h = run_hc(d, p, k, g.chance(50)); if (!spi_check("scc_hierarchical_clustering")) return;
	if (h.ec != SCC_ER_OK) { viol("unexpected-code", "hierarchical: %s", ec_name(h.ec)); return; }
	std::vector<ll> lab = h.lab; if (lab.size()) { Res e = run_hc_existing(d, p, 2, g.chance(50), lab, h.m, g.chance(50)); (void) e; if (!spi_check("hierarchical refinement")) return; }
	scc_Clustering* c = nullptr; scc_Clabel* lb = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) p.n); for (int i = 0; i < p.n; ++i) lb[i] = to_clabel(i % 3); scc_ClusteringStats s; scc_init_existing_clustering((uint64_t) p.n, 3, lb, false, &c); if (scc_get_clustering_stats(d.ds, c, &s) != SCC_ER_OK) viol("unexpected-code", "statistics failed"); scc_free_clustering(&c); free(lb); spi_check("scc_get_clustering_stats");
	if (g.chance(25)) { // a data set the plug-in itself rejects, or of another size, is invalid input and is not searched
		const bool rej = g.chance(50); const int off = rej ? 0 : (int) g.pick(vi{ -1, 1, 7 }); scc_Clustering *ce = nullptr, *cx = nullptr; scc_Clabel* l2 = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) p.n); for (int i = 0; i < p.n; ++i) l2[i] = to_clabel(i % 2);
		scc_init_empty_clustering((uint64_t) p.n, nullptr, &ce); scc_init_existing_clustering((uint64_t) p.n, 2, l2, false, &cx); OptC oc(o, p.n); ll before = 0, after = 0;
		for (int i = 0; i < 10; ++i) if (i != 0 && i != 1) before += SM.by_kind[i];
		SM.reject = rej; SM.num_off = off; int e1 = scc_sc_clustering(d.ds, &oc.o, ce), e2 = scc_hierarchical_clustering(d.ds, k, false, g.chance(50) ? ce : cx), e3 = scc_get_clustering_stats(d.ds, cx, &s); SM.reject = false; SM.num_off = 0;
		for (int i = 0; i < 10; ++i) if (i != 0 && i != 1) after += SM.by_kind[i];
		if (e1 != SCC_ER_INVALID_INPUT || e2 != SCC_ER_INVALID_INPUT || e3 != SCC_ER_INVALID_INPUT) viol("plugin-rejects", "the plug-in %s, but the calls return %s, %s, %s", rej ? "rejects the data set" : "reports another number of points", ec_name(e1), ec_name(e2), ec_name(e3));
		else if (before != after) viol("plugin-rejects", "a rejected data set is searched");
		for (int i = 0; i < p.n; ++i) if (l2[i] != to_clabel(i % 2)) { viol("plugin-rejects", "a rejected call changed the labels"); break; }
		scc_free_clustering(&ce); scc_free_clustering(&cx); free(l2); spi_check("rejected data set"); cnt("rejected_data_sets"); }
	for (int i = 0; i < 10; ++i) cntf(SM.by_kind[i], "callbacks_kind_%d", i); cnt("callbacks", SM.calls); cnt("nn_aliased", SM.nn_alias); cnt("nn_radius", SM.nn_radius); cnt("objects_opened", SM.opened); cntf(1, "data_%s", p.kind);
	if (r.m >= 2) sig(prob_hash(p, &o));
	if (want_sample()) sample("%s n=%d: %lld callbacks, %lld search objects opened and closed; all guarantees hold for the supplied distances", p.kind, p.n, SM.calls, SM.opened);
}
// How much is asked of the plug-in (C28).
static void work_sc(Rng& g) {
	Prob p; Opt o; int f = GEN_EXACT | GEN_CUSTOM | (g.chance(75) ? GEN_FEASIBLE : 0) | (g.chance(50) ? GEN_SMALL : 0) | (g.chance(20) ? GEN_BATCH : 0); gen_prob(g, f, p); gen_opt(g, f, p, o); describe(p, &o);
	DS d(p); const size_t n = (size_t) p.n; const bool batches = o.method == SCC_SM_BATCHES;
	Res core = batches ? Res() : run_sc(d, p, cores_only(o)), prim; if (!batches) { Opt o1 = o; o1.sum = SCC_UM_IGNORE; prim = run_sc(d, p, o1); }
	SM.work_reset(); scc_Clabel* lb = (scc_Clabel*) malloc(sizeof(scc_Clabel) * n); for (size_t i = 0; i < n; ++i) lb[i] = SCC_CLABEL_NA;
	scc_Clustering* c = nullptr; scc_init_empty_clustering(n, lb, &c); if (batches) SM.watch = lb; OptC oc(o, p.n); const int ec = scc_sc_clustering(d.ds, &oc.o, c); SM.watch = nullptr; scc_free_clustering(&c); free(lb);
	cntf(1, "ec_%s", ec_name(ec)); if (SM.nnq.empty()) SM.nnq.assign(n, 0);
	if (SM.k_max > o.k) viol("too-many-neighbours", "%u neighbours asked for, size constraint %u", SM.k_max, o.k);
	if (SM.pairs || !SM.mx.empty()) viol("foreign-search", "%lld distance-matrix pairs and %zu farthest-point searches in scc_sc_clustering", SM.pairs, SM.mx.size());
	const bool est = (o.pum != SCC_UM_IGNORE && o.pr == SCC_RM_USE_ESTIMATED) || (o.sum != SCC_UM_IGNORE && o.scr == SCC_RM_USE_ESTIMATED); const ll seeds = core.ec == SCC_ER_OK ? core.m : 0;
	if (SM.row_q > (est ? seeds : 0) || SM.row_cells > (est ? seeds : 0) * (ll) o.k) viol("distance-rows", "%lld rows of %lld distances with %lld seeds, %s", SM.row_q, SM.row_cells, seeds, est ? "estimated radius" : "no estimated radius");
	int phases = 1; if (o.typed()) { phases = o.k > o.sumtc(); for (auto t : o.tc) phases += t > 0; }
	std::vector<char> isp(n, 1); if (o.has_primary) { isp.assign(n, 0); for (int v : o.prim) isp[(size_t) v] = 1; }
	ll spare = 0; if (batches) { if (SM.requeried >= 0) viol("searched-again", "point %d is searched for although it already belongs to a cluster", SM.requeried); }
	const ll objs_max = batches ? 1 : phases + (o.pum == SCC_UM_CLOSEST_ASSIGNED || o.pum == SCC_UM_CLOSEST_SEED) + (o.sum != SCC_UM_IGNORE);
	if (SM.nn_objs > objs_max) viol("search-objects", "%lld nearest-neighbour search objects opened, at most %lld are needed", SM.nn_objs, objs_max);
	for (size_t v = 0; v < n && !R.violations; ++v) {
		int lim = isp[v] ? batches ? 1 : phases : 0;
		if (!batches && !(core.ec == SCC_ER_OK && core.lab[v] >= 0)) { if (isp[v] && (o.pum == SCC_UM_CLOSEST_ASSIGNED || o.pum == SCC_UM_CLOSEST_SEED)) ++lim; if (o.sum != SCC_UM_IGNORE && !(prim.ec == SCC_ER_OK && prim.lab[v] >= 0)) ++lim; }
		if (SM.nnq[v] > lim) viol("searched-too-often", "point %zu searched for %d times, at most %d needed (%s%s)", v, SM.nnq[v], lim, isp[v] ? "primary" : "not primary", !batches && core.ec == SCC_ER_OK && core.lab[v] >= 0 ? ", in a seed neighbourhood" : "");
		spare += lim - SM.nnq[v];
	}
	cnt("points_searched_for", SM.nn_points); cnt("searches_saved", spare); cnt("distance_rows", SM.row_q); cntf(1, "method_%s", sm_name(o.method)); if (o.typed()) cnt("typed");
	if (ec == SCC_ER_OK) sig(prob_hash(p, &o) ^ 0x28);
	if (want_sample()) sample("%s n=%d size=%u %s: %lld searches of points, %lld distance rows", p.kind, p.n, o.k, sm_name(o.method), SM.nn_points, SM.row_q);
	spi_check("scc_sc_clustering");
}
static void work_hc(Rng& g) {
	Prob p; Opt o; int f = GEN_EXACT | GEN_CUSTOM | (g.chance(30) ? GEN_SMALL : 0); gen_prob(g, f, p); describe(p, nullptr); DS d(p); const size_t n = (size_t) p.n;
	uint32_t k = (uint32_t) g.in(2, std::max(2, p.n / (int) g.in(2, 8))); if ((int) k > p.n) k = (uint32_t) p.n; const bool ba = g.chance(50), ex = g.chance(50); ll start = 1, m0 = 1; std::vector<ll> lab(n, 0);
	if (ex) { m0 = g.in(1, 6); std::vector<char> used((size_t) m0, 0); for (auto& l : lab) { l = g.chance(10) ? -1 : g.in(0, m0 - 1); if (l >= 0) used[(size_t) l] = 1; } start = 0; for (char u : used) start += u; }
	desc("hierarchical size=%u batch=%d %s\n", k, ba, ex ? "existing" : "empty"); SM.work_reset(); Res r = ex ? run_hc_existing(d, p, k, ba, lab, m0, g.chance(50)) : run_hc(d, p, k, ba);
	if (r.ec != SCC_ER_OK) { viol("unexpected-code", "hierarchical: %s", ec_name(r.ec)); return; }
	const ll splits = r.m - start; ll q = 0; size_t mem = 0;
	if (SM.nn_points || SM.nn_objs || SM.pairs) viol("foreign-search", "nearest-neighbour or matrix searches in hierarchical clustering");
	if ((ll) SM.mx.size() > splits) viol("farthest-searches", "%zu farthest-point searches opened for %lld splits", SM.mx.size(), splits);
	if (SM.mx_twice >= 0) viol("searched-again", "the farthest point from %d is asked for twice in one split", SM.mx_twice);
	if (SM.mx_stray >= 0) viol("farthest-searches", "after the starting points a split asks for point %d, which is nobody's farthest point", SM.mx_stray);
	for (auto& m : SM.mx) { q += m.queries; mem += m.ns; if (m.first > 100) viol("starting-points", "a split of %zu points starts from %zu of them", m.ns, m.first); if (m.queries > (ll) m.ns) viol("farthest-searches", "%lld farthest-point queries in a split of %zu points", m.queries, m.ns); }
	if (SM.row_q > 2 * splits || SM.row_cells > 2 * (ll) mem) viol("distance-rows", "%lld rows with %lld distances for %lld splits of groups with %zu points together", SM.row_q, SM.row_cells, splits, mem);
	cnt("splits", splits); cnt("farthest_queries", q); cnt("hierarchical"); if (splits > 0) sig(prob_hash(p, &o) ^ k ^ 0x2828); spi_check("scc_hierarchical_clustering");
	// statistics: the pairs within clusters and nothing else; checking: nothing at all
	for (auto& l : lab) l = g.chance(10) ? -1 : g.in(0, m0 - 1);
	ll want = 0; std::vector<ll> sz((size_t) m0, 0); for (ll l : lab) if (l >= 0) want += sz[(size_t) l]++;
	scc_Clabel* lb = (scc_Clabel*) malloc(sizeof(scc_Clabel) * n); for (size_t i = 0; i < n; ++i) lb[i] = to_clabel(lab[i]); scc_Clustering* c = nullptr; scc_ClusteringStats s; scc_init_existing_clustering(n, (uint64_t) m0, lb, false, &c); SM.work_reset();
	const int ec = scc_get_clustering_stats(d.ds, c, &s); scc_free_clustering(&c); free(lb);
	if (ec == SCC_ER_OK && (SM.pairs > want || SM.row_q || SM.nn_points || SM.nn_objs || !SM.mx.empty())) viol("statistics-pairs", "statistics asked for %lld pairs (%lld within clusters), %lld rows, %lld neighbour searches", SM.pairs, want, SM.row_q, SM.nn_points);
	cnt("statistics"); spi_check("scc_get_clustering_stats");
}
MODE(c28) { if (idx % 4 == 3) work_hc(g); else work_sc(g); }
MODE(c13) { if (idx % 4 == 3) overrides(g); else opaque(g); }
} // namespace
