// Size-constrained clustering: guarantees on the result of scc_sc_clustering (C01-C05, C08, C23, C24).
#include "core.hpp"
namespace {

static void note(const Prob& p, const Opt& o, const Res& r) {
	cntf(1, "ec_%s", ec_name(r.ec));
	cntf(1, "method_%s", sm_name(o.method));
	cntf(1, "data_%s", p.kind);
	if (r.ec == SCC_ER_OK) {
		if (o.typed()) cnt("ok_typed");
		if (o.has_primary) cnt("ok_primary_subset");
		if (o.sr == SCC_RM_USE_SUPPLIED) cnt("ok_seed_radius");
		cnt("clusters", r.m);
		if (r.m >= 2) sig(prob_hash(p, &o));
		if (want_sample()) sample("%s n=%d dim=%d size=%u %s primary=%s secondary=%s types=%u batch=%u -> %lld clusters", p.kind, p.n, p.dim, o.k, sm_name(o.method), um_name(o.pum), um_name(o.sum), o.num_types, o.batch, r.m);
	}
}
static void sc_run(Rng& g, const Prob& p, const Opt& o, int what);
static void sc_case(Rng& g, int flags, int what, bool pairs = false) {
	Prob p; Opt o; gen_prob(g, flags, p); gen_opt(g, flags, p, o);
	if (pairs) { o.method = SCC_SM_INWARDS_UPDATING; o.k = 2; o.has_primary = false; o.prim.clear(); o.pum = (int) g.pick(vi{ 1, 1, 2 }); o.pr = SCC_RM_NO_RADIUS; o.sum = (int) g.pick(vi{ 0, 2 }); o.scr = SCC_RM_NO_RADIUS; if (p.n < 2) return; }
	sc_run(g, p, o, what);
}
// more than a thousand seeds: the estimated radius is an average over a sample of them
static void sc_est(Rng& g, int what) {
	Prob p; p.n = g.chance(35) ? (int) g.in(4700, 5300) : (int) g.in(2300, 3300); p.dim = 1; p.kind = "many-seeds"; p.X.resize((size_t) p.n); double at = 0; int drift = (int) g.in(0, 2);
	for (int i = 0; i < p.n; ++i) { ll step = drift == 0 ? 100 : drift == 1 ? 3 + i / 8 : 3 + (p.n - i) / 8; at += (double) g.in(1, step); p.X[(size_t) i] = at; } // neighbour distances that grow or shrink along the data
	if (g.chance(40)) g.shuffle(p.X);
	p.build_keys(); Opt o; o.k = 2; o.method = (int) g.pick(vi{0, 2, 3, 4, 5}); o.pum = (int) g.pick(vi{ 2, 3 }); o.pr = SCC_RM_USE_ESTIMATED; o.sum = (int) g.pick(vi{ 0, 0, 2, 3 }); o.scr = g.chance(70) ? SCC_RM_USE_ESTIMATED : SCC_RM_NO_RADIUS;
	cnt("many_seeds_cases"); if (p.n > 4600) cnt("sampled_seeds_cases"); sc_run(g, p, o, what);
}
static void sc_run(Rng& g, const Prob& p, const Opt& o, int what) {
	describe(p, &o);
	int lm = g.chance(40);
	DS d(p);
	Res r = run_sc(d, p, o, lm);
	note(p, o, r);
	if (r.ec != SCC_ER_OK && r.ec != SCC_ER_NO_SOLUTION) { viol("unexpected-code", "valid problem returned %s", ec_name(r.ec)); return; }
	analyze(d, p, o, r, what);
	if (d.custom) spi_check("sc");
}
// many points, labels-only oracle
static void sc_large(Rng& g, int what) {
	Prob p; p.n = (int) g.in(2500, R.tier ? 14000 : 6000); p.dim = (int) g.in(1, 3); p.kind = "large"; p.X.resize((size_t) p.n * p.dim);
	ll hi = g.chance(50) ? 1000000 : g.in(5, 400); for (auto& v : p.X) v = (double) g.in(0, hi);
	Opt o; o.k = (uint32_t) (g.chance(60) ? g.in(2, 5) : g.in(6, 300)); o.method = (int) g.pick(vi{0, 1, 2, 3, 4, 5, 2, 3}); if (o.method >= 4) o.k = (uint32_t) g.in(2, 8);
	o.pum = (int) g.in(0, 3); o.sum = (int) g.pick(vi{0, 2, 3});
	if (g.chance(40)) { o.pr = SCC_RM_USE_ESTIMATED; o.scr = (int) g.in(0, 3); if (o.scr == 1) o.scrv = 3; }
	if (o.method != SCC_SM_BATCHES && g.chance(40)) { o.num_types = (uint32_t) g.in(2, 4); o.tl.resize(p.n); for (auto& t : o.tl) t = (int) g.in(0, o.num_types - 1); o.tc.assign(o.num_types, 0); for (uint32_t b = (uint32_t) g.in(1, o.k); b > 0; --b) ++o.tc[(size_t) g.in(0, o.num_types - 1)]; }
	if (o.method == SCC_SM_BATCHES) { o.pr = SCC_RM_USE_SEED_RADIUS; o.sum = SCC_UM_IGNORE; o.pum = (int) g.in(0, 1); o.batch = (uint32_t) g.pick(vi{0, 1, 100, 1000, 4096, 50000}); }
	if (g.chance(40)) { o.has_primary = true; for (int i = 0; i < p.n; ++i) if (g.chance(70)) o.prim.push_back(i); }
	describe(p, &o);
	DS d(p); Res r = run_sc(d, p, o, g.chance(50)); note(p, o, r);
	if (r.ec != SCC_ER_OK && r.ec != SCC_ER_NO_SOLUTION) { viol("unexpected-code", "valid problem returned %s", ec_name(r.ec)); return; }
	if (r.ec == SCC_ER_OK) { const char* b = check_labels(p, o, r, what); if (*b) viol("clusters", "%s", b);
		if (o.pum >= 2 && o.pr != SCC_RM_USE_ESTIMATED) for (int v = 0; v < p.n; ++v) if (is_primary(o, v) && r.lab[v] < 0) { viol("not-assigned", "primary point %d is unassigned without a radius", v); break; } }
	cnt("large_cases");
}
MODE(c01) {
	if (idx % 400 == 399) { sc_large(g, A_LABEL | A_SIZE); return; }
	int f = GEN_BIG; int c = (int) g.in(0, 99); if (c < 6) f |= GEN_EXTREME | GEN_NOCUSTOM; else if (c < 30) f |= GEN_SMALL;
	sc_case(g, f, A_LABEL | A_SIZE);
}
MODE(c02) {
	if (idx % 400 == 399) { sc_large(g, A_LABEL | A_SIZE | A_TYPE); return; }
	int f = GEN_TYPES; int c = (int) g.in(0, 99); if (c < 4) f |= GEN_EXTREME | GEN_NOCUSTOM; else if (c < 40) f |= GEN_SMALL; if (g.chance(60)) f |= GEN_FEASIBLE;
	if (g.chance(30)) f |= GEN_RADIUS;
	sc_case(g, f, A_TYPE | A_SIZE);
}
MODE(c03) {
	if (idx % 1500 == 1499) { sc_est(g, A_COMPLETE); return; }
	int f = GEN_EXACT; if (g.chance(40)) f |= GEN_SMALL; else if (g.chance(10)) f |= GEN_BIG; if (g.chance(60)) f |= GEN_FEASIBLE; if (g.chance(45)) f |= GEN_RADIUS; if (g.chance(30)) f |= GEN_PRIMARY;
	sc_case(g, f, A_COMPLETE);
}
MODE(c04) {
	if (idx % 1500 == 1499) { sc_est(g, A_RADIUS); return; }
	int f = GEN_EXACT | GEN_RADIUS; if (g.chance(40)) f |= GEN_SMALL; else if (g.chance(10)) f |= GEN_BIG; if (g.chance(70)) f |= GEN_FEASIBLE;
	sc_case(g, f, A_RADIUS);
}
MODE(c05) {
	int f = GEN_EXACT; if (g.chance(40)) f |= GEN_SMALL; else if (g.chance(10)) f |= GEN_BIG; if (g.chance(60)) f |= GEN_FEASIBLE; if (g.chance(60)) f |= GEN_NORADIUS; if (g.chance(25)) f |= GEN_TYPES;
	if (idx % 16 == 15) { sc_case(g, (f & ~(GEN_TYPES)) | GEN_NORADIUS | GEN_NOTYPES | GEN_NOBATCH, A_CLOSE, true); return; }
	sc_case(g, f, A_CLOSE);
}

// ---------------------------------------------------------------- C08: feasibility
MODE(c08) {
	int f = GEN_EXACT; if (g.chance(60)) f |= GEN_SMALL; if (g.chance(60)) f |= GEN_RADIUS;
	if (g.chance(40)) f |= GEN_TYPES;
	Prob p; Opt o; gen_prob(g, f, p); gen_opt(g, f, p, o);
	int c = (int) g.in(0, 99);
	if (c < 6) o.k = (uint32_t) p.n + (uint32_t) g.pick(vi{1, 2, 100, 1 << 30});
	else if (c < 10) o.k = (uint32_t) p.n;
	else if (c < 25 && o.typed()) { // a type whose group is about as large as its constraint
		std::vector<uint32_t> gs(o.num_types, 0); for (int x : o.tl) ++gs[x];
		uint32_t t = (uint32_t) g.in(0, o.num_types - 1); ll want = (ll) gs[t] + g.in(-1, 1);
		if (want >= 0 && want <= (ll) o.k) { std::fill(o.tc.begin(), o.tc.end(), 0u); o.tc[t] = (uint32_t) want; }
	}
	else if (c < 30 && o.typed()) { o.tl[(size_t) g.in(0, p.n - 1)] = (int) o.num_types - 1; o.tc.assign(o.num_types, 0); o.tc[(size_t) g.in(0, o.num_types - 1)] = 1; }
	if (g.chance(20) && o.method != SCC_SM_BATCHES) { o.pum = (int) g.in(0, 3); o.pr = SCC_RM_USE_ESTIMATED; if (g.chance(50)) { o.scr = SCC_RM_USE_ESTIMATED; o.sum = (int) g.pick(vi{0, 2, 3}); } }
	if (o.k < 2) o.k = 2;
	describe(p, &o);
	DS d(p); Res r = run_sc(d, p, o, g.chance(30));
	bool amb = false; bool sol = solvable(d, p, o, &amb);
	if (o.typed() && p.n >= (int) o.k && o.sumtc() > o.k) { // rejected as invalid unless a group is too small
		if (r.ec != SCC_ER_INVALID_INPUT && r.ec != SCC_ER_NO_SOLUTION) viol("feasibility", "type constraints exceed the size constraint but %s was returned", ec_name(r.ec));
		return;
	}
	cntf(1, "%s_%s", sol ? "solvable" : "unsolvable", ec_name(r.ec));
	sig(prob_hash(p, &o));
	if (want_sample()) sample("%s n=%d size=%u types=%u %s seed_radius=%s(%g): model %s, library %s", p.kind, p.n, o.k, o.num_types, sm_name(o.method), rm_name(o.sr), o.srv, sol ? "solvable" : "unsolvable", ec_name(r.ec));
	if (amb) cnt("ambiguous");
	else if (sol && r.ec != SCC_ER_OK) viol("feasibility", "a solution exists but the library returned %s", ec_name(r.ec));
	else if (!sol && r.ec != SCC_ER_NO_SOLUTION) viol("feasibility", "no solution exists but the library returned %s", ec_name(r.ec));
	// hierarchical clustering on the same data
	if (g.chance(40)) {
		uint32_t k = g.chance(30) ? (uint32_t) p.n + (uint32_t) g.in(0, 2) : (uint32_t) g.in(2, std::max(2, p.n)); if (k < 2) k = 2;
		Res h = run_hc(d, p, k, g.chance(50), g.chance(30));
		int want = (uint32_t) p.n >= k ? SCC_ER_OK : SCC_ER_NO_SOLUTION;
		cntf(1, "hier_%s", ec_name(h.ec));
		if (h.ec != want) viol("feasibility-hier", "hierarchical clustering of %d points with size %u returned %s", p.n, k, ec_name(h.ec));
	}
	if (d.custom) spi_check("c08");
}

// ---------------------------------------------------------------- C23: batch size
MODE(c23) {
	Prob p; Opt o;
	int f = GEN_EXACT | GEN_BATCH | GEN_NOTYPES; int c = (int) g.in(0, 9);
	if (c < 4) f |= GEN_SMALL; else if (c < 6) f |= GEN_TIEFREE; else if (c == 6) f |= GEN_BIG;
	if (g.chance(60)) f |= GEN_FEASIBLE;
	bool large = idx % 300 == 299;
	if (large) { p.n = (int) g.in(2000, 5000); p.dim = 2; p.kind = "large"; p.X.resize((size_t) p.n * 2); for (auto& v : p.X) v = (double) g.in(0, 500); Prob q = p; q.n = 10; q.X.resize(20); q.build_keys(); gen_opt(g, f | GEN_NORADIUS, q, o); o.prim.clear(); o.has_primary = false; o.k = (uint32_t) g.in(2, 9); }
	else { gen_prob(g, f, p); gen_opt(g, f, p, o); }
	describe(p, &o);
	DS d(p);
	o.batch = 0; Res ref = run_sc(d, p, o);
	if (ref.ec != SCC_ER_OK && ref.ec != SCC_ER_NO_SOLUTION) { viol("unexpected-code", "valid problem returned %s", ec_name(ref.ec)); return; }
	std::vector<uint32_t> bs = { 1u, 2u, 3u, (uint32_t) p.n - 1, (uint32_t) p.n, (uint32_t) p.n + 1, UINT32_MAX, (uint32_t) g.in(1, p.n), (uint32_t) g.in(1, p.n), 1u << 31, o.k, o.k - 1 };
	if (large) bs = { 1000u, (uint32_t) g.in(1, p.n), (uint32_t) p.n / 2 };
	for (uint32_t b : bs) {
		Opt q = o; q.batch = b; Res r = run_sc(d, p, q, g.chance(30)); cnt("batch_runs");
		if (!r.same(ref)) { viol("batch-size", "batch_size %u gives %s/%lld clusters, unlimited gives %s/%lld (or other labels)", b, ec_name(r.ec), r.m, ec_name(ref.ec), ref.m); return; }
	}
	if (ref.ec == SCC_ER_OK && ref.m >= 2) sig(prob_hash(p, &o));
	if (want_sample()) sample("%s n=%d size=%u primary=%s radius=%g: %zu batch sizes agree, %lld clusters", p.kind, p.n, o.k, um_name(o.pum), o.srv, bs.size(), ref.m);
	if (!large && tie_free(p)) {
		Opt l = cores_only(o); Res br = run_sc(d, p, l); l.method = SCC_SM_LEXICAL; Res lr = run_sc(d, p, l); cnt("lexical_compared");
		if (!lr.same(br)) viol("batch-vs-lexical", "batches give %s/%lld clusters, lexical %s/%lld (or other labels)", ec_name(br.ec), br.m, ec_name(lr.ec), lr.m);
	}
	if (d.custom) spi_check("c23");
}

// ---------------------------------------------------------------- C24: only distances matter
static void c24_isometry(Rng& g) {
	Prob p; Opt o; int f = GEN_EXACT | GEN_NOCUSTOM | (g.chance(50) ? GEN_SMALL : 0) | (g.chance(60) ? GEN_FEASIBLE : 0);
	gen_prob(g, f, p); gen_opt(g, f, p, o);
	describe(p, &o);
	bool hier = g.chance(25); uint32_t hk = (uint32_t) g.in(2, std::max(2, p.n / 2)); bool ba = g.chance(50);
	Res ref; { DS d(p); ref = hier ? run_hc(d, p, hk, ba) : run_sc(d, p, o); }
	double mx = 0; for (double v : p.X) mx = std::max(mx, std::fabs(v));
	bool est = !hier && (o.pr == SCC_RM_USE_ESTIMATED || o.scr == SCC_RM_USE_ESTIMATED); (void) est;
	for (int t = 0; t < 6; ++t) {
		Prob q = p; Opt oq = o; const char* nm = "";
		if (t == 0) { nm = "translation"; if (mx > 1e8 || (mx > 0 && mx < 0.5)) continue; double sh = (double) g.in(-(1 << 20), 1 << 20); bool integral = true; for (double v : p.X) if (v != std::floor(v)) integral = false; if (!integral) continue; for (auto& v : q.X) v += sh; }
		else if (t == 1) { nm = "reflection"; int dd = (int) g.in(0, p.dim - 1); for (int i = 0; i < p.n; ++i) q.X[(size_t) i * p.dim + dd] *= -1.0; }
		else if (t == 2) { nm = "coordinate permutation"; if (p.dim < 2) continue; vi pm(p.dim); for (int i = 0; i < p.dim; ++i) pm[i] = i; g.shuffle(pm); for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.dim; ++j) q.X[(size_t) i * p.dim + j] = p.X[(size_t) i * p.dim + pm[j]]; }
		else if (t == 3) { nm = "zero padding"; int ex = (int) g.in(1, 20); q.dim = p.dim + ex; q.X.assign((size_t) p.n * q.dim, 0.0); bool front = g.chance(50); for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.dim; ++j) q.X[(size_t) i * q.dim + (front ? j + ex : j)] = p.X[(size_t) i * p.dim + j]; }
		else if (t == 4) { nm = "power-of-two scaling"; int e = (int) g.in(-40, 40); double s = std::ldexp(1.0, e); for (auto& v : q.X) v *= s; oq.srv *= s; oq.prv *= s; oq.scrv *= s; if (oq.srv > 1e150 || oq.prv > 1e150 || oq.scrv > 1e150) { if (o.sr == SCC_RM_USE_SUPPLIED || o.pr == SCC_RM_USE_SUPPLIED || o.scr == SCC_RM_USE_SUPPLIED) continue; } if ((o.sr == SCC_RM_USE_SUPPLIED && o.srv < 1e-50) || (o.pr == SCC_RM_USE_SUPPLIED && o.prv < 1e-50) || (o.scr == SCC_RM_USE_SUPPLIED && o.scrv < 1e-50)) continue; }
		else { nm = "same distances through the plug-in interface"; q.build_keys(); q.custom = true; // distances as supplied by a user metric; boundary ties decided in distance rather than squared distance
			if (!hier && (o.sr == SCC_RM_USE_SUPPLIED || o.pr == SCC_RM_USE_SUPPLIED || o.scr == SCC_RM_USE_SUPPLIED || est)) continue; bool exact = true; for (auto& k : q.K) { double r = std::sqrt(k); if (r * r != k) exact = false; k = r; } if (!exact) { std::vector<double> u(p.K); std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end()); bool mono = true; for (size_t i = 1; i < u.size(); ++i) if (!(std::sqrt(u[i]) > std::sqrt(u[i - 1]))) mono = false; if (!mono) continue; } q.kind = "plug-in"; if (!hier && !tie_free(p) ) { /* lower position wins ties in both */ } }
		DS d(q); if (q.custom) SM.ties = 0; Res r = hier ? run_hc(d, q, hk, ba) : run_sc(d, q, oq);
		cntf(1, "iso_%s", nm);
		if (hier && t == 5) { if (r.ec != ref.ec) viol("isometry", "%s changes the result code", nm); continue; } // ties between equally far centres may differ
		if (!r.same(ref)) { viol("isometry", "%s: %s changes the result (%s/%lld clusters -> %s/%lld)", hier ? "hierarchical" : "sc", nm, ec_name(ref.ec), ref.m, ec_name(r.ec), r.m); return; }
	}
	if (ref.ec == SCC_ER_OK && ref.m >= 2) sig(prob_hash(p, &o));
	if (want_sample()) sample("%s n=%d dim=%d %s: unchanged under exact isometries, %lld clusters", p.kind, p.n, p.dim, hier ? "hierarchical" : sm_name(o.method), ref.m);
}
static void c24_groups(Rng& g) {
	// groups so far apart that no neighbourhood or target spans two of them
	bool hier = g.chance(30); int G = hier ? 2 : (int) g.in(2, 6); uint32_t k = (uint32_t) g.in(2, 5);
	Prob p; p.kind = "separated-groups"; p.dim = (int) g.in(1, 3); vi grp; ll spread = g.in(0, 60);
	int big = (int) g.in(0, G - 1);
	for (int a = 0; a < G; ++a) { int sz = (int) k + (int) g.in(0, g.chance(50) ? 2 : 25); if (a == big && g.chance(30)) sz += 40; for (int i = 0; i < sz; ++i) grp.push_back(a); }
	g.shuffle(grp); p.n = (int) grp.size(); p.X.resize((size_t) p.n * p.dim);
	for (int i = 0; i < p.n; ++i) for (int d = 0; d < p.dim; ++d) p.X[(size_t) i * p.dim + d] = (double) g.in(0, spread) + (d == 0 ? 100000.0 * (grp[i] + 1) * (grp[i] + 1) : 0.0);
	p.build_keys();
	Opt o; gen_opt(g, GEN_NORADIUS | GEN_NOTYPES, p, o); o.k = k; o.tc.clear(); o.tl.clear(); o.num_types = 0;
	// with a primary subset a group may lack seeds; then unassigned methods must not be able to reach over
	if (o.has_primary) { o.pum = o.method == SCC_SM_BATCHES ? o.pum : (int) g.in(0, 1); o.sum = SCC_UM_IGNORE; }
	if (!hier && g.chance(25) && o.method != SCC_SM_BATCHES) { // types present in every group
		o.num_types = 2; o.tl.assign(p.n, 0); std::vector<int> c(G, 0); for (int i = 0; i < p.n; ++i) o.tl[i] = (c[grp[i]]++) % 2; o.tc = { 1u, 1u };
	}
	describe(p, &o);
	DS d(p); Res r = hier ? run_hc(d, p, k, false) : run_sc(d, p, o);
	if (r.ec != SCC_ER_OK) { viol("groups-code", "separated groups of at least size_constraint points: %s", ec_name(r.ec)); return; }
	auto M = members(r); cnt(hier ? "hier_groups" : "sc_groups");
	for (size_t c = 0; c < M.size(); ++c) for (int x : M[c]) if (grp[x] != grp[M[c][0]]) { viol("groups-mixed", "%s: points %d and %d of far apart groups share cluster %zu", hier ? "hierarchical" : "sc", x, M[c][0], c); return; }
	sig(prob_hash(p, &o));
}
MODE(c24) { if (idx % 3 == 2) c24_groups(g); else c24_isometry(g); }
} // namespace
