// Work inside the library (C29): the library is compiled with edge callbacks, so executed steps are counted exactly and reproducibly.
#include "line.hpp"
static unsigned long long steps;
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t*) { ++steps; }
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { static uint32_t n; for (; a < b; ++a) if (!*a) *a = ++n; }
namespace {
// The limits are about three times the present use, so that rewritten loops and helpers stay well inside; the problems are large enough for a
// quadratic step to exceed them many times over.
// limit: `per` steps per unit of the problem's natural size, which the comments at the calls define
static void judge(const char* what, double units, double per, const char* det) {
	const double x = (double) steps / units; cntf(1, "%s_%d_tenths_of_limit", what, (int) (10.0 * x / per)); cntf((ll) steps, "steps_%s", what);
	if (getenv("VH_RATIO")) printf("RATIO %s %.3f n=%d %s\n", what, x, LN->n, det);
	if (steps == 0) viol("not-instrumented", "no step was counted in %s", what);
	else if (x > per) viol("steps", "%s took %llu steps for a problem of %.0f units (%s), limit %.0f per unit", what, steps, units, det, per);
	if (want_sample()) sample("%s n=%d %s: %llu steps, %.1f per unit, limit %.0f", what, LN->n, det, steps, x, per);
}
MODE(c29) {
	Line l; gen_line(g, l); l.builtin = false; if (g.chance(70) || l.n > 100000) { l.n = (int) std::min<ll>((ll) l.x.size(), g.chance(60) ? g.in(3000, 20000) : g.in(20000, 60000)); l.x.resize((size_t) l.n); }
	const bool hubs = g.chance(18); if (hubs) { double lo = *std::min_element(l.x.begin(), l.x.end()), hi = *std::max_element(l.x.begin(), l.x.end()); const ll parts = g.pick(std::vector<ll>{ 1, 3, 20, 400 }); for (auto& v : l.x) v = std::floor((v - lo) / (hi - lo + 1) * (double) parts); desc("%lld distinct positions\n", parts); cnt("few_distinct_positions"); } // many points share their nearest neighbours
	Use u(l); const int n = l.n; const int what = (int) g.in(0, 9); WK.reset(n); char det[200]; scc_Clustering* c = nullptr;
	if (what < 5) {
		Opt o; gen_bopt(g, o, g.chance(35)); if (o.method >= SCC_SM_EXCLUSION_ORDER) o.method -= 2; if (o.typed() && o.k > 300) { ll cut = g.in(20, 300); o.k = 0; for (auto& t : o.tc) { t = (uint32_t) std::min<ll>(t, cut / 2); o.k += t; } o.k = std::max(2u, o.k + (uint32_t) g.in(0, 5)); }
		if (o.method == SCC_SM_BATCHES && g.chance(60)) { o.batch = (uint32_t) g.in(1, 60); desc("batch size %u\n", o.batch); }
		OptC oc(o, n); scc_init_empty_clustering((uint64_t) n, nullptr, &c); steps = 0; const int ec = scc_sc_clustering(TK, &oc.o, c); const unsigned long long s0 = steps;
		if (ec == SCC_ER_OK) sig(bh(o)); uint64_t m = 0; if (ec == SCC_ER_OK) scc_get_clustering_info(c, nullptr, &m);
		// units: points, neighbours asked for, types
		ll np = o.has_primary ? (ll) o.prim.size() : n, T = 0; for (auto t : o.tc) T += t > 0; const double units = 4.0 * n + (double) np * ((double) o.k + 4.0 * (double) T) + (o.typed() ? (double) o.num_types : 0);
		snprintf(det, sizeof det, "size %u %s types %u/%lld primary %lld", o.k, sm_name(o.method), o.num_types, T, np); steps = s0;
		judge(o.method == SCC_SM_BATCHES ? "batches" : o.typed() ? "typed" : "untyped", units, o.method == SCC_SM_BATCHES ? 6 : o.typed() ? 25 : 15, det);
		if (ec == SCC_ER_OK && (double) m * (double) o.num_types < 2e7) { bool ok; steps = 0; const int e2 = scc_check_clustering(c, &oc.o, &ok); const unsigned long long s1 = steps; if (e2 != SCC_ER_OK) viol("check-code", "%s", ec_name(e2)); steps = s1; judge("check", (double) n + (o.typed() ? (double) m * (double) o.num_types + (double) o.num_types : (double) m), 20, det); }
	} else if (what < 8) {
		uint32_t k = (uint32_t) std::min<ll>(n, g.pick(std::vector<ll>{ 2, 5, 50, 300, 2000 })); const bool ba = g.chance(50); ll om = std::max<ll>(1, g.pick(std::vector<ll>{ 1, 1, 4, 40, (ll) n / 150, (ll) n / 3 })); if (g.chance(60)) om = 1;
		if (hubs) k = (uint32_t) std::min<ll>(n, std::max<ll>(k, (ll) n * n / 20000000 / om + 2));
		scc_Clabel* e = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) e[i] = to_clabel((ll) i * om / n); if (om > 1 || g.chance(50)) scc_init_existing_clustering((uint64_t) n, (uint64_t) om, e, true, &c); else scc_init_empty_clustering((uint64_t) n, nullptr, &c); free(e);
		snprintf(det, sizeof det, "size %u batch %d old clusters %lld", k, (int) ba, om); desc("hierarchical %s\n", det); steps = 0; const int ec = scc_hierarchical_clustering(TK, k, ba, c); const unsigned long long s0 = steps; if (ec) viol("hier-code", "%s", ec_name(ec));
		// units: points and old clusters, and per split its members times the depth of sorting them
		Opt o; o.k = k; o.batch = (uint32_t) om; sig(bh(o)); steps = s0; judge("hierarchical", (double) n + (double) om + WK.mxlog, 15, det);
	} else {
		ll m = std::max<ll>(1, n / g.in(1, 60)); scc_Clabel* e = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) e[i] = to_clabel(g.chance(5) ? -1 : (ll) g.in(0, m - 1)); steps = 0; scc_init_existing_clustering((uint64_t) n, (uint64_t) m, e, true, &c); scc_ClusteringStats s; snprintf(det, sizeof det, "%lld clusters", m); desc("statistics and copies of %s\n", det);
		const int ec = scc_get_clustering_stats(TK, c, &s); scc_Clustering* d = nullptr; scc_copy_clustering(c, &d); scc_get_cluster_labels(d, (size_t) n, e); scc_free_clustering(&d); const unsigned long long s0 = steps; if (ec) viol("stats-code", "%s", ec_name(ec)); free(e);
		Opt o; o.k = 3; o.batch = (uint32_t) m; sig(bh(o)); steps = s0; judge("statistics", (double) n + (double) m + (double) WK.pairs, 14, det); // units: points, clusters, pairs
	}
	scc_free_clustering(&c); WK = Work(); if (open_objs) viol("spi-unclosed", "%lld search objects left open", open_objs);
}
} // namespace
