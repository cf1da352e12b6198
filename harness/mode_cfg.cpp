// Results across integer type configurations (C20): prints one line per case for comparison between builds.
#include "core.hpp"
#include <type_traits>
namespace {
static bool info_done = false;
MODE(c20) {
	if (!info_done) { info_done = true; printf("CFGINFO clabel=%zu%c na=%s%llu typelabel=%zu%c pointindex=%zu%c arcmax=%llu pimax=%llu\n", sizeof(scc_Clabel), std::is_signed<scc_Clabel>::value ? 's' : 'u', std::is_signed<scc_Clabel>::value && (ll) SCC_CLABEL_NA < 0 ? "-" : "", (unsigned long long) (std::is_signed<scc_Clabel>::value && (ll) SCC_CLABEL_NA < 0 ? 0 - (unsigned long long) SCC_CLABEL_NA : (unsigned long long) SCC_CLABEL_NA), sizeof(scc_TypeLabel), std::is_signed<scc_TypeLabel>::value ? 's' : 'u', sizeof(scc_PointIndex), std::is_signed<scc_PointIndex>::value ? 's' : 'u', (unsigned long long) shim_arcindex_max(), (unsigned long long) shim_pointindex_max()); }
	Prob p; Opt o; int f = (g.chance(80) ? GEN_EXACT : 0) | (g.chance(60) ? GEN_SMALL : 0) | (g.chance(75) ? GEN_FEASIBLE : 0) | (g.chance(2) ? GEN_BIG : 0); gen_prob(g, f, p); gen_opt(g, f, p, o); describe(p, &o);
	uint64_t h = 0; DS d(p); Res r = run_sc(d, p, o, g.chance(50)); h = hashv(r.lab) ^ (uint64_t) r.m * 31 ^ (uint64_t) r.ec * 77; const char* e = "";
	if (r.ec == SCC_ER_OK) { e = check_labels(p, o, r, A_LABEL | A_SIZE | A_TYPE); if (*e) viol("cfg-guarantee", "%s", e); }
	uint32_t k = (uint32_t) g.in(2, std::max(2, p.n / 3)); bool ba = g.chance(50); Res b = run_hc(d, p, k, ba, g.chance(50)); h = hashv(b.lab, h) ^ (uint64_t) b.m ^ (uint64_t) b.ec * 13;
	ll m = g.in(1, 4); std::vector<ll> lab((size_t) p.n); for (auto& l : lab) l = g.chance(20) ? -1 : g.in(0, m - 1); bool deep = g.chance(50); Res x = run_hc_existing(d, p, 2, !ba, lab, m, deep); h = hashv(x.lab, h) ^ (uint64_t) x.m ^ (uint64_t) x.ec * 17;
	for (int i = 0; i < p.n && x.ec == SCC_ER_OK && !x.lab.empty(); ++i) if ((lab[(size_t) i] < 0) != (x.lab[(size_t) i] < 0)) { viol("cfg-na", "hierarchical refinement changed which points carry the NA label (point %d)", i); break; }
	{ scc_Clustering* c = nullptr; std::vector<scc_Clabel> e2((size_t) p.n); for (int i = 0; i < p.n; ++i) e2[(size_t) i] = to_clabel(lab[(size_t) i]); scc_init_existing_clustering((uint64_t) p.n, (uint64_t) m, e2.data(), deep, &c); scc_ClusteringStats s; memset(&s, 0, sizeof s); int ec = scc_get_clustering_stats(d.ds, c, &s);
		if (ec == SCC_ER_OK) { uint64_t u[] = { s.num_data_points, s.num_assigned, s.num_clusters, s.num_populated_clusters, s.min_cluster_size, s.max_cluster_size }; double q[] = { s.sum_dists, s.min_dist, s.max_dist, s.avg_dist_weighted }; h = hashb(u, sizeof u, h); h = hashb(q, sizeof q, h); }
		OptC oc(o, p.n); bool ok = false; int e3 = scc_check_clustering(c, &oc.o, &ok); h ^= (uint64_t) ec * 3 + (uint64_t) e3 * 5 + (ok ? 7 : 0);
		std::vector<scc_Clabel> pad((size_t) p.n + 3); scc_get_cluster_labels(c, pad.size(), pad.data()); for (size_t i = 0; i < 3; ++i) if (pad[(size_t) p.n + i] != SCC_CLABEL_NA) { viol("cfg-na", "padding is not the configured NA value"); break; }
		scc_free_clustering(&c); }
	printf("H %lld %016llx sc=%s/%lld hc=%s/%lld ex=%s/%lld\n", idx, (unsigned long long) h, ec_name(r.ec), r.m, ec_name(b.ec), b.m, ec_name(x.ec), x.m);
	if (r.m > 1) sig(prob_hash(p, &o)); cntf(1, "ec_%s", ec_name(r.ec)); if (d.custom) spi_check("config");
	if (want_sample()) sample("%s n=%d size=%u types=%u: %lld clusters, hierarchical %lld; compared over all type configurations", p.kind, p.n, o.k, o.num_types, r.m, b.m);
}
} // namespace
