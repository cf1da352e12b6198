// Determinism (C19) and concurrent use (C19, under a race detector).
#include "core.hpp"
#include <atomic>
#include <sched.h>
#include <thread>
namespace {

struct Full { Res sc, hc, ex; int st = -1, ck = -1; bool ok = false; uint64_t sh = 0;
	bool same(const Full& b) const { return sc.same(b.sc) && hc.same(b.hc) && ex.same(b.ex) && st == b.st && ck == b.ck && ok == b.ok && sh == b.sh; } };
static uint64_t stats_hash(const scc_ClusteringStats& s) {
	uint64_t u[] = { s.num_data_points, s.num_assigned, s.num_clusters, s.num_populated_clusters, s.min_cluster_size, s.max_cluster_size }; double q[] = { s.avg_cluster_size, s.sum_dists, s.min_dist, s.max_dist, s.avg_min_dist, s.avg_max_dist, s.avg_dist_weighted, s.avg_dist_unweighted };
	return hashb(q, sizeof q, hashb(u, sizeof u));
}
struct Job { const Prob* p; void* ds; const Opt* o; const OptC* oc; uint32_t k; bool ba; std::vector<ll> lab; ll m; };
// One complete use of the library on fresh objects. Uses no harness globals, so it can run on any thread.
static Res raw(const scc_Clustering* c, int n) {
	Res r; uint64_t np = 0, nc = 0; if (scc_get_clustering_info(c, &np, &nc) != SCC_ER_OK) { r.ec = -2; return r; } r.m = (ll) nc; r.ec = 0; if (!nc) return r;
	std::vector<scc_Clabel> b((size_t) n); if (scc_get_cluster_labels(c, (size_t) n, b.data()) != SCC_ER_OK) { r.ec = -3; return r; } for (auto x : b) r.lab.push_back(from_clabel(x)); return r;
}
static Full use(const Job& j, uint64_t salt, bool yields, int which = 15) {
	Full f; const int n = j.p->n; Rng g(salt, 5, 6); auto y = [&] { if (yields && g.chance(50)) sched_yield(); };
	scc_Clustering* c = nullptr; std::vector<scc_Clabel> ext((size_t) n); for (auto& e : ext) e = to_clabel((ll) (g.next() % 7) - 1);
	if (which & 1) { scc_init_empty_clustering((uint64_t) n, g.chance(60) ? ext.data() : nullptr, &c); y(); int ec = scc_sc_clustering(j.ds, &j.oc->o, c); if (ec == SCC_ER_OK) { f.sc = raw(c, n); y(); scc_ClusteringStats s; memset(&s, 0, sizeof s); f.st = scc_get_clustering_stats(j.ds, c, &s); if (f.st == SCC_ER_OK) f.sh = stats_hash(s); f.ck = scc_check_clustering(c, &j.oc->o, &f.ok); } f.sc.ec = ec; scc_free_clustering(&c); y(); }
	if (which & 2) { for (auto& e : ext) e = to_clabel((ll) (g.next() % 7) - 1); scc_init_empty_clustering((uint64_t) n, g.chance(60) ? ext.data() : nullptr, &c); y(); int ec = scc_hierarchical_clustering(j.ds, j.k, j.ba, c); if (ec == SCC_ER_OK) f.hc = raw(c, n); f.hc.ec = ec; scc_free_clustering(&c); y(); }
	if (which & 4) { for (int i = 0; i < n; ++i) ext[(size_t) i] = to_clabel(j.lab[(size_t) i]); scc_init_existing_clustering((uint64_t) n, (uint64_t) j.m, ext.data(), g.chance(50), &c); y(); int ec = scc_hierarchical_clustering(j.ds, 2, j.ba, c); if (ec == SCC_ER_OK) f.ex = raw(c, n); f.ex.ec = ec; scc_Clustering* c2 = nullptr; scc_copy_clustering(c, &c2); scc_free_clustering(&c); scc_free_clustering(&c2); }
	return f;
}
static void interpose(const Prob& p, Rng& g) { // other calls, some failing
	for (int t = (int) g.in(1, 4); t > 0; --t) switch (g.in(0, 5)) {
	case 0: { Prob q; Opt o; gen_prob(g, GEN_EXACT | GEN_SMALL | GEN_NOCUSTOM, q); gen_opt(g, 0, q, o); if (p.custom) break; DS d(q); run_sc(d, q, o); break; }
	case 1: { scc_Clustering* c = nullptr; scc_init_empty_clustering(0, nullptr, &c); break; }
	case 2: { scc_ClusterOptions o = scc_get_default_options(); scc_sc_clustering(nullptr, &o, nullptr); break; }
	case 3: { Prob q; gen_prob(g, GEN_EXACT | GEN_SMALL | GEN_NOCUSTOM, q); if (p.custom) break; DS d(q); run_hc(d, q, (uint32_t) g.in(2, q.n + 3), g.chance(50)); break; }
	case 4: { Prob q; Opt o; gen_prob(g, GEN_EXACT | GEN_SMALL | GEN_NOCUSTOM, q); gen_opt(g, 0, q, o); if (p.custom) break; DS d(q); vh_fail_mask(g.next(), 300); run_sc(d, q, o); run_hc(d, q, 2, true); vh_fail_mask(0, 0); break; }
	default: { char b[64]; scc_get_latest_error(g.in(0, 64), b); scc_DataSet* d = nullptr; scc_init_data_set(1, 0, 0, nullptr, &d); break; }
	}
}
static void mk_job(Rng& g, const Prob& p, Job& j) {
	j.p = &p; j.k = (uint32_t) g.in(2, std::max(2, p.n / 3)); j.ba = g.chance(50); j.m = g.in(1, 4); j.lab.resize(p.n); for (auto& l : j.lab) l = g.chance(15) ? -1 : g.in(0, j.m - 1);
}
MODE(c19) {
	Prob p; Opt o; int f = (g.chance(80) ? GEN_EXACT : 0) | (g.chance(60) ? GEN_SMALL : 0) | (g.chance(60) ? GEN_FEASIBLE : 0) | (g.chance(3) ? GEN_BIG : 0); gen_prob(g, f, p); gen_opt(g, f, p, o); describe(p, &o);
	DS d(p); OptC oc(o, p.n); Job j; mk_job(g, p, j); j.ds = d.ds; j.o = &o; j.oc = &oc;
	vh_track(1); vh_fill(1, 1); Full a = use(j, 1, false); uint64_t allocs = (uint64_t) vh_count();
	static const char* how[] = { "repeating", "other heap contents", "interposed calls", "all-ones heap", "a fresh copy of the data", "no tracking" };
	for (int v = 0; v < 5; ++v) {
		if (v == 1) vh_fill(1, 2 + g.next() % 1000); if (v == 2) { vh_track(0); interpose(p, g); vh_track(1); } if (v == 3) vh_fill(0, 0);
		Full b; if (v == 4 && !p.custom) { DS d2(p); OptC oc2(o, p.n); Job k = j; k.ds = d2.ds; k.oc = &oc2; b = use(k, g.next(), false); } else b = use(j, g.next(), false);
		if (!a.same(b)) { viol("nondeterministic", "%s changes the outcome: sc %s/%s %lld/%lld clusters%s, hc %lld/%lld%s, existing%s, stats%s", how[v], ec_name(a.sc.ec), ec_name(b.sc.ec), a.sc.m, b.sc.m, a.sc.lab == b.sc.lab ? "" : " labels differ", a.hc.m, b.hc.m, a.hc.lab == b.hc.lab ? "" : " labels differ", a.ex.same(b.ex) ? " same" : " differ", a.sh == b.sh ? " same" : " differ"); break; }
		cntf(1, "compared_%s", how[v]);
	}
	// the same arrays (and often the same objects) at the same addresses with other contents: nothing may be remembered from the earlier calls
	if (!p.custom && g.chance(60) && !R.violations) {
		Prob p2 = p; int how2 = (int) g.in(0, 2); for (auto& v : p2.X) if (how2 == 0 || g.chance(30)) v = how2 == 2 ? v * 2 : (double) g.in(-50, 50); p2.build_keys(); memcpy(d.buf, p2.X.data(), sizeof(double) * p2.X.size()); scc_free_data_set((scc_DataSet**) &d.ds); if (scc_init_data_set((uint64_t) p2.n, (uint32_t) p2.dim, p2.X.size(), d.buf, (scc_DataSet**) &d.ds) != SCC_ER_OK) { viol("init", "scc_init_data_set failed"); return; } j.ds = d.ds;
		Opt o2 = o; if (g.chance(50)) { gen_opt(g, 0, p2, o2); if (o2.num_types != o.num_types || o2.has_primary != o.has_primary || o2.prim.size() != o.prim.size()) o2 = o; else { oc.o.size_constraint = o2.k; o2 = o; o2.k = oc.o.size_constraint; } }
		Job k = j; k.p = &p2; Full b = use(k, g.next(), false); DS d2(p2); OptC oc2(o2, p2.n); Job k2 = k; k2.ds = d2.ds; k2.oc = &oc2; Full c = use(k2, g.next(), false);
		if (!b.same(c)) viol("stale", "after the contents of the data matrix changed, a new data set over it gives another outcome than one over a copy: sc %s/%s %lld/%lld clusters%s, hc %lld/%lld%s, existing%s, stats%s", ec_name(b.sc.ec), ec_name(c.sc.ec), b.sc.m, c.sc.m, b.sc.lab == c.sc.lab ? "" : " labels differ", b.hc.m, c.hc.m, b.hc.lab == c.hc.lab ? "" : " labels differ", b.ex.same(c.ex) ? " same" : " differ", b.sh == c.sh ? " same" : " differ");
		cnt("compared_changed_in_place");
	}
	vh_track(0); vh_fill(0, 0); cnt("allocations", (ll) allocs); cntf(1, "ec_%s", ec_name(a.sc.ec));
	if (a.sc.m > 1 || a.hc.m > 1) sig(prob_hash(p, &o));
	if (want_sample()) sample("%s n=%d: 5 repetitions under changed heap contents, interposed calls and label garbage agree (%lld and %lld clusters)", p.kind, p.n, a.sc.m, a.hc.m);
}
static std::atomic<int> inflight, maxfl, gate; static std::atomic<ll> overlaps;
MODE(c19thr) {
	static bool fresh = true; const bool first = fresh || g.chance(35); fresh = false; int nt = (int) g.in(2, 6), np = (int) g.in(1, 3); std::vector<Prob> P((size_t) np); std::vector<DS*> D; std::vector<Opt> O((size_t) np * 2); std::vector<OptC*> OC; std::vector<Job> J; std::vector<Full> want;
	for (int i = 0; i < np; ++i) { gen_prob(g, GEN_EXACT | GEN_NOCUSTOM | (g.chance(50) ? GEN_SMALL : 0), P[(size_t) i]); }
	for (int i = 0; i < np; ++i) D.push_back(new DS(P[(size_t) i]));
	for (int i = 0; i < np * 2; ++i) { const Prob& p = P[(size_t) i / 2]; Job j; mk_job(g, p, j); int t = 0; Full w;
		if (first) { // succeeds for certain, so that the threads can make the first calls of the process
			Opt& o = O[(size_t) i]; o = Opt(); o.k = (uint32_t) std::min<ll>(p.n, g.in(2, 4)); o.method = (int) g.in(0, 5); o.pum = g.chance(50) ? SCC_UM_ANY_NEIGHBOR : o.method == SCC_SM_BATCHES ? SCC_UM_IGNORE : (int) g.in(0, 3); if (o.method != SCC_SM_BATCHES) { o.pr = o.scr = SCC_RM_NO_RADIUS; o.sum = (int) g.pick(vi{ SCC_UM_IGNORE, SCC_UM_CLOSEST_ASSIGNED, SCC_UM_CLOSEST_SEED }); if (p.n >= 8 && g.chance(40)) { o.num_types = 2; o.tc = { 1, 1 }; for (int q = 0; q < p.n; ++q) o.tl.push_back(q % 2); } }
			OptC* c = new OptC(o, p.n); j.ds = D[(size_t) i / 2]->ds; j.oc = c; j.o = &o; OC.push_back(c); J.push_back(j); continue; }
		for (;; ++t) { gen_opt(g, GEN_FEASIBLE, p, O[(size_t) i]); OptC* c = new OptC(O[(size_t) i], p.n); j.ds = D[(size_t) i / 2]->ds; j.oc = c; j.o = &O[(size_t) i]; w = use(j, 9, false); if (w.sc.ec == SCC_ER_OK && w.hc.ec == SCC_ER_OK && w.ex.ec == SCC_ER_OK) { OC.push_back(c); break; } delete c; if (t > 20) break; }
		if (t > 20) { cnt("skipped_no_solution"); continue; }
		want.push_back(w); J.push_back(j); }
	if (J.empty()) { for (auto d : D) delete d; return; }
	describe(P[0], &O[0]);
	struct Out { ll bad = 0; ll runs = 0; int job = -1; std::vector<std::pair<size_t, Full>> got; }; std::vector<Out> out((size_t) nt); std::vector<std::thread> T; inflight = 0; maxfl = 0; gate = 0; uint64_t salt = g.next();
	for (int t = 0; t < nt; ++t) T.emplace_back([&, t] {
		Rng r(salt, (uint64_t) t, 3); ++gate; while (gate.load() < nt) sched_yield();
		for (int q = 0; q < 5; ++q) { size_t x = (size_t) r.in(0, (ll) J.size() - 1); int before = inflight++; int m = maxfl.load(); while (before + 1 > m && !maxfl.compare_exchange_weak(m, before + 1)) {} if (before) ++overlaps; Full f = use(J[x], r.next(), true); --inflight; ++out[(size_t) t].runs; if (first) out[(size_t) t].got.push_back({ x, f }); else if (!f.same(want[x])) { ++out[(size_t) t].bad; out[(size_t) t].job = (int) x; } } });
	for (auto& t : T) t.join();
	if (first) { for (auto& j : J) { want.push_back(use(j, 9, false)); if (want.back().sc.ec || want.back().hc.ec || want.back().ex.ec) viol("thread-code", "a solvable problem returned %s, %s, %s", ec_name(want.back().sc.ec), ec_name(want.back().hc.ec), ec_name(want.back().ex.ec)); } for (auto& o : out) for (auto& q : o.got) if (!q.second.same(want[q.first])) { ++o.bad; o.job = (int) q.first; } cnt("threads_before_sequential"); }
	for (auto& o : out) { cnt("concurrent_uses", o.runs); if (o.bad) { viol("thread-result", "%d threads: %lld of %lld concurrent uses differ from the sequential result", nt, o.bad, o.runs); break; } }
	cntf(1, "max_in_flight_%d", maxfl.load()); cnt("overlapping_starts", overlaps.exchange(0)); cntf(1, "threads_%d", nt);
	sig(prob_hash(P[0], &O[0]) ^ (uint64_t) nt);
	if (want_sample()) sample("%d threads, %zu jobs on %d shared data sets, up to %d uses in flight: all results equal the sequential ones", nt, J.size(), np, maxfl.load());
	for (auto c : OC) delete c; for (auto d : D) delete d;
}
} // namespace
