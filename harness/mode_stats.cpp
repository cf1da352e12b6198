// Clustering statistics (C16) and the clustering checker (C17).
#include "core.hpp"
namespace {

static bool near(double a, double b, double scale) { if (a == b) return true; return std::fabs(a - b) <= 1e-9 * std::max(scale, std::max(std::fabs(a), std::fabs(b))) * 1e-1; }
static void gen_labels(Rng& g, int n, ll& m, std::vector<ll>& lab) {
	m = g.chance(60) ? g.in(1, std::max(1, std::min(n, 6))) : g.in(1, std::max(1, n)); if (g.chance(10)) m = n + g.in(1, 20);
	int na = g.chance(50) ? (int) g.in(0, 60) : 0; if (g.chance(3)) na = 100; int shape = (int) g.in(0, 4); lab.resize(n);
	for (int i = 0; i < n; ++i) { ll l; switch (shape) { case 0: l = g.in(0, m - 1); break; case 1: l = i % m; break; case 2: l = (ll) i * m / n; break; case 3: l = g.chance(85) ? m - 1 : g.in(0, m - 1); break; default: l = g.chance(80) ? 0 : g.in(0, m - 1); } lab[i] = g.chance(na) ? -1 : l; }
}
MODE(c16) {
	Prob p; gen_prob(g, GEN_EXACT | (g.chance(55) ? GEN_SMALL : 0) | (g.chance(4) ? GEN_BIG : 0), p); const int n = p.n;
	ll m; std::vector<ll> lab; gen_labels(g, n, m, lab);
	bool from_lib = g.chance(20) && n >= 4;
	if (!from_lib && g.chance(35)) { // the extreme distance of a cluster belongs to a chosen pair of its members
		vi mem; const ll cl = lab[(size_t) g.in(0, n - 1)]; for (int i = 0; i < n; ++i) if (lab[i] == cl && cl >= 0) mem.push_back(i);
		if (mem.size() >= 3) { const int w = (int) g.in(0, 4), sz = (int) mem.size(); int a = mem[(size_t) (w == 0 || w == 2 ? 0 : w == 1 ? sz - 2 : g.in(0, sz - 2))], b = w == 0 ? mem[1] : w == 1 || w == 2 || w == 3 ? mem.back() : a; if (b == a) { b = mem.back(); if (w == 4) for (int i : mem) if (i > a) { b = i; break; } }
			const bool far = g.chance(60); const size_t N = (size_t) n;
			if (p.custom) { double mx = 1, mn = DBL_MAX; for (int i : mem) for (int j : mem) if (i < j) { mx = std::max(mx, p.key(i, j)); mn = std::min(mn, p.key(i, j)); } p.K[(size_t) a * N + (size_t) b] = p.K[(size_t) b * N + (size_t) a] = far ? 2 * mx + 1 : mn / 2; p.metric = false; }
			else { const size_t D = (size_t) p.dim; if (far) { double lo = p.X[0], hi = lo; for (int i = 0; i < n; ++i) { lo = std::min(lo, p.X[(size_t) i * D]); hi = std::max(hi, p.X[(size_t) i * D]); } p.X[(size_t) a * D] = lo - 1024; p.X[(size_t) b * D] = hi + 1024; } else for (size_t t = 0; t < D; ++t) p.X[(size_t) b * D + t] = p.X[(size_t) a * D + t]; p.build_keys(); }
			cnt("placed_extremes"); } }
	describe(p, nullptr); DS d(p); scc_Clabel* ext = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); scc_Clustering* cl = nullptr;
	if (from_lib) { scc_init_empty_clustering((uint64_t) n, nullptr, &cl); Opt o; o.k = 2; OptC oc(o, n); if (scc_sc_clustering(d.ds, &oc.o, cl) != SCC_ER_OK) { viol("stats-setup", "clustering failed"); } else { Res r = fetch(cl, n); m = r.m; lab = r.lab; } }
	else { for (int i = 0; i < n; ++i) ext[i] = to_clabel(lab[i]); scc_init_existing_clustering((uint64_t) n, (uint64_t) m, ext, g.chance(50), &cl); }
	desc("clusters=%lld labels=", m); for (int i = 0; i < n && i < 150; ++i) desc("%lld,", lab[i]);
	scc_ClusteringStats s; memset(&s, 0x5b, sizeof s);
	int ec = scc_get_clustering_stats(d.ds, cl, &s);
	Res after = fetch(cl, n);
	if (ec != SCC_ER_OK) viol("stats-code", "returned %s", ec_name(ec));
	else if (after.m != m || after.lab != lab) viol("stats-changed", "the clustering changed");
	else {
		std::vector<vi> C((size_t) m); uint64_t as = 0; for (int i = 0; i < n; ++i) if (lab[i] >= 0) { C[(size_t) lab[i]].push_back(i); ++as; }
		uint64_t pop = 0, mn = UINT64_MAX, mx = 0; long double sum = 0, mind = DBL_MAX, maxd = 0, amin = 0, amax = 0, aw = 0, au = 0;
		for (auto& c : C) { if (c.empty()) continue; ++pop; mn = std::min<uint64_t>(mn, c.size()); mx = std::max<uint64_t>(mx, c.size());
			if (c.size() == 1) { mind = 0; continue; }
			long double cs = 0, c0 = DBL_MAX, c1 = 0; for (size_t a = 0; a < c.size(); ++a) for (size_t b = a + 1; b < c.size(); ++b) { long double x = p.dist(c[a], c[b]); cs += x; c0 = std::min(c0, x); c1 = std::max(c1, x); }
			long double np = (long double) c.size() * (long double) (c.size() - 1) / 2; sum += cs; mind = std::min(mind, c0); maxd = std::max(maxd, c1); amin += c0; amax += c1; aw += (long double) c.size() * cs / np; au += cs / np; }
		double sc = (double) maxd;
		#define EQ(f, e) if (s.f != (e)) viol("stats-" #f, "%s is %llu, expected %llu", #f, (unsigned long long) s.f, (unsigned long long) (e));
		#define EQD(f, e) if (!near(s.f, (double) (e), 0)) viol("stats-" #f, "%s is %.17g, expected %.17g", #f, s.f, (double) (e));
		EQ(num_data_points, (uint64_t) n) EQ(num_assigned, as) EQ(num_clusters, (uint64_t) m) EQ(num_populated_clusters, pop)
		if (pop > 0) { EQ(min_cluster_size, mn) EQ(max_cluster_size, mx) EQD(avg_cluster_size, (double) as / (double) pop) EQD(sum_dists, sum) EQD(min_dist, mind) EQD(max_dist, maxd) EQD(avg_min_dist, amin / pop) EQD(avg_max_dist, amax / pop) EQD(avg_dist_weighted, aw / as) EQD(avg_dist_unweighted, au / pop) cnt("populated"); }
		else cnt("all_unassigned");
		(void) sc; if (mx == 1) cnt("all_singletons"); if (pop < (uint64_t) m) cnt("with_empty_clusters"); if (as < (uint64_t) n) cnt("with_unassigned"); cnt("clusters", m);
		if (pop > 1 && mx > 1) sig(prob_hash(p, nullptr) ^ hashv(lab));
		if (want_sample()) sample("%s n=%d clusters=%lld assigned=%llu: 14 statistics equal an independent computation", p.kind, n, m, (unsigned long long) as);
	}
	scc_free_clustering(&cl); free(ext);
	if (d.custom) spi_check("stats");
}

MODE(c17) {
	int n = g.chance(70) ? (int) g.in(2, 14) : (int) g.in(10, 120); ll m; std::vector<ll> lab; Opt o; Prob p; bool lib = g.chance(25);
	if (lib) { // returned clusterings
		gen_prob(g, GEN_EXACT | GEN_SMALL, p); gen_opt(g, GEN_FEASIBLE, p, o); n = p.n; describe(p, &o); DS d(p); Res r = run_sc(d, p, o); if (r.ec != SCC_ER_OK) { cnt("lib_no_clustering"); return; } m = r.m; lab = r.lab; cnt("lib_clusterings");
		if (g.chance(50)) { int t = (int) g.in(1, 2); for (int i = 0; i < t; ++i) { int v = (int) g.in(0, n - 1); lab[v] = g.chance(30) ? -1 : g.in(0, m - 1); } cnt("lib_mutated"); }
	} else {
		p.n = n; p.dim = 1; p.X.assign((size_t) n, 0.0); for (int i = 0; i < n; ++i) p.X[(size_t) i] = i; p.build_keys(); gen_opt(g, 0, p, o);
		m = g.in(1, std::max(1, n / 2)); lab.resize(n); int shape = (int) g.in(0, 3);
		// near-boundary clusterings: cluster sizes around the constraint
		for (int i = 0; i < n; ++i) lab[i] = shape == 0 ? g.in(0, m - 1) : shape == 1 ? i % m : (ll) i * m / n;
		std::vector<ll> sz((size_t) m, 0); for (ll l : lab) ++sz[(size_t) l]; ll mn = *std::min_element(sz.begin(), sz.end());
		if (g.chance(75)) { ll k = std::max<ll>(2, mn + g.in(-1, 1)); o.k = (uint32_t) std::min<ll>(k, n); }
		if (o.typed() && g.chance(80)) { // type constraints around what the clusters hold
			std::vector<std::vector<ll>> ct((size_t) m, std::vector<ll>(o.num_types, 0)); for (int i = 0; i < n; ++i) ++ct[(size_t) lab[i]][(size_t) o.tl[i]];
			for (uint32_t t = 0; t < o.num_types && t < 50; ++t) { ll q = n; for (auto& c : ct) q = std::min(q, c[t]); o.tc[t] = (uint32_t) std::max<ll>(0, q + (g.chance(15) ? 1 : 0)); } }
		if (g.chance(40)) for (int i = 0; i < n; ++i) if (g.chance(6)) lab[i] = -1;
		if (g.chance(8)) { ++m; } // an empty last cluster
		if (g.chance(8)) lab[(size_t) g.in(0, n - 1)] = m + (g.chance(50) ? 0 : g.in(0, 5)); // a label that does not exist
		cnt("constructed");
	}
	scc_Clabel* ext = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) ext[i] = to_clabel(lab[i]);
	scc_Clustering* cl = nullptr; int ie = scc_init_existing_clustering((uint64_t) n, (uint64_t) m, ext, g.chance(50), &cl);
	describe(p, &o); desc("clusters=%lld labels=", m); for (int i = 0; i < n; ++i) desc("%lld,", lab[i]);
	OptC oc(o, n); bool got = !g.chance(50); bool init = got; int ec = scc_check_clustering(cl, &oc.o, &got);
	bool want = true; const char* why = "";
	std::vector<ll> sz((size_t) m, 0); std::vector<std::vector<uint32_t>> ct; if (o.typed()) ct.assign((size_t) m, std::vector<uint32_t>(o.num_types, 0));
	for (int i = 0; i < n; ++i) { if (lab[i] < 0) continue; if (lab[i] >= m) { want = false; why = "invalid label"; continue; } ++sz[(size_t) lab[i]]; if (o.typed()) ++ct[(size_t) lab[i]][(size_t) o.tl[i]]; }
	if (want && o.has_primary) for (int v : o.prim) if (lab[v] < 0) { want = false; why = "unassigned primary point"; }
	if (want) for (ll c = 0; c < m; ++c) { if (sz[(size_t) c] < (ll) o.k) { want = false; why = sz[(size_t) c] ? "small cluster" : "empty cluster"; } if (o.typed()) for (uint32_t t = 0; t < o.num_types; ++t) if (ct[(size_t) c][t] < o.tc[t]) { want = false; why = "type constraint"; } }
	if (ie != SCC_ER_OK) viol("check-setup", "init: %s", ec_name(ie));
	else if (ec != SCC_ER_OK) viol("check-code", "scc_check_clustering returned %s (n=%d size=%u types=%u)", ec_name(ec), n, o.k, o.num_types);
	else if (got != want) viol("check-verdict", "reported %s, expected %s%s%s", got ? "true" : "false", want ? "true" : "false", *why ? ": " : "", why);
	else { cntf(1, "verdict_%s%s", want ? "true" : "false_", why); if (o.typed()) cnt("typed"); if (init != got) cnt("output_overwritten"); sig(hashv(lab) ^ prob_hash(p, &o)); }
	Res now = fetch(cl, n); (void) now;
	for (int i = 0; i < n; ++i) if (ext[i] != to_clabel(lab[i])) { viol("check-changed", "labels were modified"); break; }
	if (want_sample()) sample("n=%d clusters=%lld size=%u types=%u -> %s %s", n, m, o.k, o.num_types, got ? "accepted" : "rejected", why);
	scc_free_clustering(&cl); free(ext);
}
} // namespace
