// Reference oracles: what a clustering must look like, stated from the documented meaning of the options.
#include "core.hpp"

bool is_primary(const Opt& o, int v) { return !o.has_primary || std::binary_search(o.prim.begin(), o.prim.end(), v); }

bool get_nng(DS& d, const Prob& p, const Opt& o, Nng& out) {
	OptC oc(o, p.n); ShimGraph g; memset(&g, 0, sizeof g);
	out = Nng(); out.ec = shim_get_nng(d.ds, (size_t) p.n, &oc.o, &g);
	if (out.ec) return false;
	out.ok = true; out.N.resize(p.n); out.has.assign(p.n, 0);
	for (int i = 0; i < p.n; ++i) { for (size_t a = g.tail[i]; a < g.tail[i + 1]; ++a) { out.has[i] = 1; if (g.head[a] != i) out.N[i].push_back((int) g.head[a]); } }
	shim_free_graph(&g);
	return true;
}
bool get_seeds(const Nng& g, int method, size_t cap, vi& seeds, int* ec) {
	int n = (int) g.N.size(); ShimGraph s; memset(&s, 0, sizeof s); s.n = (size_t) n;
	std::vector<size_t> tail(n + 1, 0); std::vector<long long> head;
	for (int i = 0; i < n; ++i) { for (int x : g.N[i]) head.push_back(x); tail[i + 1] = head.size(); }
	if (head.empty()) head.push_back(0);
	s.tail = tail.data(); s.head = head.data();
	long long* out = nullptr; size_t c = 0;
	int e = shim_find_seeds(&s, method, cap, &out, &c);
	if (ec) *ec = e;
	if (e) return false;
	seeds.clear(); for (size_t i = 0; i < c; ++i) seeds.push_back((int) out[i]);
	shim_free(out);
	return true;
}
static double kth(std::vector<double>& v, size_t k) { std::nth_element(v.begin(), v.begin() + (ll) k - 1, v.end()); return v[k - 1]; }
double nbh_radius_key(const Prob& p, const Opt& o, int v) { // size constraint only
	std::vector<double> r(p.n); for (int j = 0; j < p.n; ++j) r[j] = j == v ? 0.0 : p.key(v, j);
	return kth(r, o.k);
}
bool feasible_point(const Prob& p, const Opt& o, int v) {
	if (o.sr != SCC_RM_USE_SUPPLIED) return true;
	double t = p.thr(o.srv);
	if (!o.typed()) return nbh_radius_key(p, o, v) <= t;
	std::vector<uint32_t> within(o.num_types, 0); uint32_t all = 0;
	for (int j = 0; j < p.n; ++j) if ((j == v ? 0.0 : p.key(v, j)) <= t) { ++within[o.tl[j]]; ++all; }
	for (uint32_t i = 0; i < o.num_types; ++i) if (within[i] < o.tc[i]) return false;
	return o.k <= o.sumtc() || all >= o.k;
}

// Legal neighbourhood of v up to ties (size, types), ignoring radius.
const char* bad_nbh(const Prob& p, const Opt& o, int v, const vi& C) {
	std::vector<char> in(p.n, 0);
	for (int x : C) in[x] = 1;
	if (!in[v]) return "the seed is not a member";
	uint32_t sum = o.typed() ? o.sumtc() : 0;
	if (!o.typed() || sum == 0) {
		if (C.size() != o.k) return "the neighbourhood does not have size_constraint members";
		double mx = 0; for (int x : C) if (x != v) mx = std::max(mx, p.key(v, x));
		for (int j = 0; j < p.n; ++j) if (!in[j] && p.key(v, j) < mx) return "a nearer point was left out";
		return "";
	}
	std::vector<char> req(p.n, 0); req[v] = 1;
	double lim = -1; uint32_t extras = 0; const uint32_t tv = (uint32_t) o.tl[v];
	std::vector<std::vector<std::pair<double, int>>> by(o.num_types);
	for (int x : C) if (x != v) by[o.tl[x]].push_back({p.key(v, x), x});
	std::vector<double> reqmax(o.num_types, -1.0);
	for (uint32_t t = 0; t < o.num_types; ++t) {
		uint32_t m = o.tc[t]; if (t == tv && m > 0) --m;
		if (by[t].size() < m) return "too few members of a type";
		std::sort(by[t].begin(), by[t].end());
		for (uint32_t i = 0; i < m; ++i) { req[by[t][i].second] = 1; reqmax[t] = by[t][i].first; }
		for (size_t i = m; i < by[t].size(); ++i) { ++extras; lim = std::max(lim, by[t][i].first); }
	}
	uint32_t slack = o.k - sum;
	if (o.tc[tv] > 0) { if (extras != slack) return "wrong number of members beyond the required types"; }
	else if (slack == 0) { if (extras != 0) return "wrong number of members beyond the required types"; }
	else if (extras != slack && extras + 1 != slack) return "wrong number of members beyond the required types";
	for (int j = 0; j < p.n; ++j) if (!in[j]) {
		double q = p.key(v, j);
		if (q < reqmax[o.tl[j]]) return "a nearer point of a required type was left out";
		if (extras && q < lim) return "a nearer point was left out";
	}
	return "";
}
std::vector<vi> members(const Res& r) {
	std::vector<vi> m((size_t) std::max<ll>(r.m, 0));
	for (size_t i = 0; i < r.lab.size(); ++i) if (r.lab[i] >= 0 && r.lab[i] < r.m) m[(size_t) r.lab[i]].push_back((int) i);
	return m;
}
static char cl_buf[256];
const char* check_labels(const Prob& p, const Opt& o, const Res& r, int what) {
	if (r.m < 1) { if (what & A_LABEL) return "success without any cluster"; return ""; }
	if ((int) r.lab.size() != p.n) return "labels missing";
	for (int i = 0; i < p.n; ++i) if (r.lab[i] != -1 && (r.lab[i] < 0 || r.lab[i] >= r.m)) { if (what & A_LABEL) { snprintf(cl_buf, sizeof cl_buf, "label %lld of point %d is not a cluster (of %lld)", r.lab[i], i, r.m); return cl_buf; } return ""; }
	auto mem = members(r);
	std::vector<uint32_t> tcnt(o.num_types, 0), req; for (uint32_t t = 0; t < o.num_types && t < o.tc.size(); ++t) if (o.tc[t]) req.push_back(t);
	for (size_t c = 0; c < mem.size(); ++c) {
		if ((what & A_SIZE) && mem[c].size() < o.k) { snprintf(cl_buf, sizeof cl_buf, "cluster %zu has %zu points, size constraint %u", c, mem[c].size(), o.k); return cl_buf; }
		if ((what & A_TYPE) && o.typed()) {
			for (int x : mem[c]) tcnt[o.tl[x]] = 0;
			for (uint32_t t : req) tcnt[t] = 0;
			for (int x : mem[c]) ++tcnt[o.tl[x]];
			for (uint32_t t : req) if (tcnt[t] < o.tc[t]) { snprintf(cl_buf, sizeof cl_buf, "cluster %zu has %u points of type %u, constraint %u", c, tcnt[t], t, o.tc[t]); return cl_buf; }
		}
	}
	return "";
}
double est_radius(const Prob& p, const Nng& g, const vi& seeds) {
	size_t step = seeds.size() > 1000 ? seeds.size() / 1000 : 1, sampled = 0; double sum = 0;
	for (size_t s = 0; s < seeds.size(); s += step) { double t = 0; for (int x : g.N[seeds[s]]) t += p.dist(seeds[s], x); sum += t / (double) g.N[seeds[s]].size(); ++sampled; }
	return sum / (double) sampled;
}

// ---------------------------------------------------------------- full oracle
struct Rad { bool on = false; double thr = 0; bool fuzzy = false; };
static bool within(double key, const Rad& r, bool* unsure) { // inclusive; *unsure when the estimate's rounding decides
	if (!r.on) return true;
	if (r.fuzzy && std::fabs(key - r.thr) <= 1e-9 * std::max(std::fabs(key), r.thr)) { *unsure = true; return true; }
	return key <= r.thr;
}
void analyze(DS& d, const Prob& p, const Opt& o, const Res& full, int what) {
	const int n = p.n;
	if (full.ec != SCC_ER_OK) return;
	{ const char* b = check_labels(p, o, full, what & (A_LABEL | A_SIZE | A_TYPE)); if (*b) { viol("clusters", "%s", b); return; }
	  if (*check_labels(p, o, full, A_LABEL)) return; }
	if (!(what & (A_COMPLETE | A_RADIUS | A_CLOSE))) return;

	Opt co = cores_only(o);
	Res core = run_sc(d, p, co);
	if (core.ec != SCC_ER_OK || core.m != full.m) { if (what & (A_COMPLETE | A_CLOSE)) viol("core-run", "with unassigned points ignored: %s, %lld clusters; with the given methods %lld clusters", ec_name(core.ec), core.m, full.m); return; }
	if (*check_labels(p, o, core, A_LABEL)) return;
	auto C = members(core);
	const bool batch = o.method == SCC_SM_BATCHES;
	if (what & A_COMPLETE) {
		for (size_t c = 0; c < C.size(); ++c) if (!o.typed() && C[c].size() != o.k) { viol("core-size", "unassigned points ignored but cluster %zu has %zu members, size constraint %u", c, C[c].size(), o.k); return; }
		for (int v = 0; v < n; ++v) if (core.lab[v] >= 0 && full.lab[v] != core.lab[v]) { viol("core-kept", "point %d is in the seed neighbourhood of cluster %lld but labelled %lld", v, core.lab[v], full.lab[v]); return; }
	}
	Nng g; vi seeds; bool have_seeds = false;
	if (!batch) {
		if (!get_nng(d, p, o, g)) { if (what & A_CLOSE) viol("nng", "clustering succeeded but the neighbour graph fails: %s", ec_name(g.ec)); return; }
		int ec = 0;
		if (!get_seeds(g, o.method, 1 + (size_t) n / o.k, seeds, &ec)) { if (what & A_CLOSE) viol("seeds", "seed finding fails: %s", ec_name(ec)); return; }
		have_seeds = (ll) seeds.size() == core.m;
		for (size_t c = 0; have_seeds && c < C.size(); ++c) { vi want = g.N[seeds[c]]; want.push_back(seeds[c]); std::sort(want.begin(), want.end()); if (want != C[c]) have_seeds = false; }
		if (!have_seeds) { if (what & A_CLOSE) viol("core-is-neighbourhood", "the clusters are not the neighbourhoods of the seeds"); }
	}
	// candidate seeds per cluster
	std::vector<vi> cand(C.size());
	for (size_t c = 0; c < C.size(); ++c) {
		const char* why = "no member is a primary point";
		if (have_seeds) { if (is_primary(o, seeds[c])) { why = bad_nbh(p, o, seeds[c], C[c]); if (!*why) cand[c].push_back(seeds[c]); } }
		else for (int v : C[c]) if (is_primary(o, v)) { const char* b = bad_nbh(p, o, v, C[c]); if (!*b) cand[c].push_back(v); else why = b; }
		if (cand[c].empty() && (what & A_CLOSE)) { viol("nearest-neighbours", "cluster %zu is not a seed with its nearest neighbours: %s", c, why); return; }
		if ((what & A_RADIUS) && o.sr == SCC_RM_USE_SUPPLIED) {
			bool ok = false; const double t = p.thr(o.srv);
			for (int v : have_seeds ? vi{seeds[c]} : C[c]) { bool in = is_primary(o, v); for (int x : C[c]) if (x != v && p.key(v, x) > t) in = false; ok = ok || in; }
			if (!ok) { viol("seed-radius", "cluster %zu has no seed with all its neighbourhood within the seed radius %.17g", c, o.srv); return; }
			cnt("radius_cores");
		}
	}
	cnt("clusters_checked", (ll) C.size());
	// effective radii
	auto eff = [&](int um, int rm, double rv, Rad& r) -> bool {
		if (um == SCC_UM_IGNORE) return true;
		if (rm == SCC_RM_USE_SEED_RADIUS) { rm = o.sr; rv = o.srv; }
		if (rm == SCC_RM_USE_SUPPLIED) { r.on = true; r.thr = p.thr(rv); return true; }
		if (rm == SCC_RM_USE_ESTIMATED) { if (!have_seeds) return false; double e = est_radius(p, g, seeds); r.on = true; r.fuzzy = true; r.thr = p.thr(e); cnt("estimated_radius"); }
		return true;
	};
	Rad pr, sr; bool pk = eff(o.pum, o.pr, o.prv, pr), sk = eff(o.sum, o.scr, o.scrv, sr);
	if (!pk || !sk) { cnt("radius_unknown"); return; }
	Rad seedr; if (o.sr == SCC_RM_USE_SUPPLIED) { seedr.on = true; seedr.thr = p.thr(o.srv); }

	for (int v = 0; v < n; ++v) if (core.lab[v] < 0) {
		const ll L = full.lab[v];
		// nearest core member / nearest seed, and whether L attains it
		double bestA = INFINITY, ownA = INFINITY, bestS = INFINITY, ownS = INFINITY;
		for (int x = 0; x < n; ++x) if (core.lab[x] >= 0) { double q = p.key(v, x); bestA = std::min(bestA, q); if (core.lab[x] == L) ownA = std::min(ownA, q); }
		for (size_t c = 0; c < cand.size(); ++c) for (int s : cand[c]) { double q = p.key(v, s); bestS = std::min(bestS, q); if ((ll) c == L) ownS = std::min(ownS, q); }
		bool unsure = false;
		auto attach = [&](int um, const Rad& r, const char* phase) -> int { // 1 handled, 0 not due
			double best = um == SCC_UM_CLOSEST_ASSIGNED ? bestA : bestS, own = um == SCC_UM_CLOSEST_ASSIGNED ? ownA : ownS;
			if (um == SCC_UM_CLOSEST_SEED && !have_seeds) { unsure = true; return 1; }
			bool in = within(best, r, &unsure);
			if (unsure) return 1;
			if (!in) return 0;
			if (L < 0) { if (what & A_COMPLETE) viol("not-assigned", "point %d has a %s target within the radius (%s) but stays unassigned", v, phase, um_name(um)); return 1; }
			if (own != best) {
				if (what & A_CLOSE) viol("not-closest", "point %d joined cluster %lld at key %.17g although key %.17g was available (%s %s)", v, L, own, best, phase, um_name(um));
				if ((what & A_RADIUS) && r.on && own > r.thr * (r.fuzzy ? 1 + 1e-9 : 1)) viol("assign-radius", "point %d joined cluster %lld beyond the %s radius (%s)", v, L, phase, um_name(um));
			}
			cntf(1, "attach_%s_%s", phase, um_name(um));
			return 1;
		};
		int done = 0;
		const bool prim = is_primary(o, v);
		if (o.pum == SCC_UM_ANY_NEIGHBOR && prim) {
			bool feas = feasible_point(p, o, v);
			if (!batch && (bool) g.has[v] != feas) { if (what & A_COMPLETE) viol("feasible", "point %d: neighbourhood within the seed radius exists=%d, library says %d", v, (int) feas, (int) g.has[v]); return; }
			if (feas) {
				done = 1;
				if (L < 0) { if (what & A_COMPLETE) viol("any-neighbor-unassigned", "primary point %d satisfies the seed radius but stays unassigned (any-neighbor)", v); }
				else {
					bool ok = false; double nearest = INFINITY;
					if (batch) { double lim = nbh_radius_key(p, o, v); for (int x = 0; x < n; ++x) if (core.lab[x] == L && p.key(v, x) <= lim) { ok = true; nearest = std::min(nearest, p.key(v, x)); } }
					else for (int x : g.N[v]) if (core.lab[x] == L) { ok = true; nearest = std::min(nearest, p.key(v, x)); }
					if (!ok && (what & A_CLOSE)) viol("any-neighbor-cluster", "point %d joined cluster %lld, which contains none of its nearest neighbours", v, L);
					if ((what & A_RADIUS) && seedr.on && ownA > seedr.thr) viol("any-neighbor-radius", "point %d joined cluster %lld, all of whose seed neighbourhood is beyond the seed radius", v, L);
					cnt("attach_any_neighbor");
				}
			}
		} else if ((o.pum == SCC_UM_CLOSEST_ASSIGNED || o.pum == SCC_UM_CLOSEST_SEED) && prim) done = attach(o.pum, pr, "primary");
		if (!done && o.sum != SCC_UM_IGNORE) done = attach(o.sum, sr, "secondary");
		if (!done && !unsure && L >= 0) {
			if (what & A_COMPLETE) viol("assigned-unexpectedly", "point %d (%s) is in no seed neighbourhood and no method calls for assigning it, but is labelled %lld", v, prim ? "primary" : "not primary", L);
			if ((what & A_RADIUS) && (o.pum >= SCC_UM_CLOSEST_ASSIGNED || o.sum != SCC_UM_IGNORE || seedr.on)) {
				// some method applied, but no target is within its radius
				bool could_any = o.pum == SCC_UM_ANY_NEIGHBOR && prim;
				if (could_any ? seedr.on && ownA > seedr.thr : true) viol("beyond-radius", "point %d labelled %lld although nothing lies within the applicable radius", v, L);
			}
		}
		if (!done && L < 0) cnt("legitimately_unassigned");
		if (R.violations >= R.max_violations) return;
	}
	// approximation bound
	if ((what & A_CLOSE) && !o.has_primary && !o.typed() && o.sr == SCC_RM_NO_RADIUS && p.metric && (!pr.on && !sr.on)) {
		double lam = 0; for (int v = 0; v < n; ++v) lam = std::max(lam, nbh_radius_key(p, o, v));
		double l = p.custom ? lam : std::sqrt(lam), lim = 4 * l * (1 + 1e-12); auto M = members(full);
		for (auto& c : M) for (size_t a = 0; a < c.size(); ++a) for (size_t b = 0; b < a; ++b) if (p.dist(c[a], c[b]) > lim) { viol("four-lambda", "points %d and %d are %.17g apart in one cluster, bound 4*%.17g", c[a], c[b], p.dist(c[a], c[b]), l); return; }
		cnt("four_lambda_checked");
		// documented: pairs with INWARDS_UPDATING are within twice the largest distance in the neighbour graph (points joining a neighbour's cluster)
		if (o.method == SCC_SM_INWARDS_UPDATING && o.k == 2 && o.sum != SCC_UM_CLOSEST_SEED && (o.pum == SCC_UM_ANY_NEIGHBOR || o.pum == SCC_UM_IGNORE || o.pum == SCC_UM_CLOSEST_ASSIGNED)) {
			if ((o.pum != SCC_UM_ANY_NEIGHBOR && (o.pum == SCC_UM_CLOSEST_ASSIGNED || o.sum == SCC_UM_CLOSEST_ASSIGNED)) && !tie_free(p)) return;
			lim = 2 * l * (1 + 1e-12);
			for (auto& c : M) for (size_t a = 0; a < c.size(); ++a) for (size_t b = 0; b < a; ++b) if (p.dist(c[a], c[b]) > lim) { viol("two-lambda", "points %d and %d are %.17g apart in one cluster, documented bound 2*%.17g", c[a], c[b], p.dist(c[a], c[b]), l); return; }
			cnt("two_lambda_checked");
		}
	}
}
void gen_chain(Rng& g, Prob& p, int n) {
	p.n = n; p.dim = 1; p.kind = "geometric-chain"; p.X.resize((size_t) n); double ratio = std::min(1.3 + 0.05 * (double) g.in(0, 8), std::exp(340.0 / n)); int ord = (int) g.in(0, 5);
	for (int i = 0; i < n; ++i) p.X[(size_t) i] = std::pow(ratio, ord & 1 ? i : n - i);
	if (ord >= 4) for (int t = 0; t < 3; ++t) std::swap(p.X[(size_t) g.in(0, n - 1)], p.X[(size_t) g.in(0, n - 1)]);
}
bool solvable(DS& d, const Prob& p, const Opt& o, bool* ambiguous) {
	*ambiguous = false;
	if (p.n < (int) o.k) return false;
	if (o.typed()) { std::vector<uint32_t> gs(o.num_types, 0); for (int x : o.tl) ++gs[x]; for (uint32_t t = 0; t < o.num_types; ++t) if (gs[t] < o.tc[t]) return false; }
	bool any = false;
	for (int v = 0; v < p.n && !any; ++v) any = is_primary(o, v) && feasible_point(p, o, v);
	if (!any) return false;
	bool need = (o.pum != SCC_UM_IGNORE && o.pr == SCC_RM_USE_ESTIMATED) || (o.sum != SCC_UM_IGNORE && o.scr == SCC_RM_USE_ESTIMATED);
	if (need) {
		Nng g; vi seeds; int ec = 0;
		if (!get_nng(d, p, o, g) || !get_seeds(g, o.method, 1 + (size_t) p.n / o.k, seeds, &ec) ) { *ambiguous = true; return true; }
		return est_radius(p, g, seeds) > 0;
	}
	return true;
}

// ---------------------------------------------------------------- seeds
void check_seeds(const Nng& g, const vi& seeds, int method, const char* where) {
	const int n = (int) g.N.size();
	std::vector<int> owner(n, -1);
	std::vector<char> isseed(n, 0);
	if (seeds.empty()) { viol("seeds-none", "%s %s: no seeds for a non-empty graph", where, sm_name(method)); return; }
	for (size_t i = 0; i < seeds.size(); ++i) {
		int s = seeds[i];
		if (s < 0 || s >= n || g.N[s].empty()) { viol("seed-unfit", "%s %s: seed %d has no neighbourhood", where, sm_name(method), s); return; }
		vi nb = g.N[s]; nb.push_back(s);
		for (int x : nb) { if (owner[x] >= 0) { viol("seeds-overlap", "%s %s: neighbourhoods of seeds %d and %d share point %d", where, sm_name(method), seeds[owner[x]], s, x); return; } owner[x] = (int) i; }
		isseed[s] = 1;
	}
	for (int v = 0; v < n; ++v) if (!g.N[v].empty() && owner[v] < 0) {
		bool blocked = false; for (int x : g.N[v]) if (owner[x] >= 0) blocked = true;
		if (!blocked) { viol("seeds-not-maximal", "%s %s: point %d could still be added as a seed", where, sm_name(method), v); return; }
	}
	cnt("seed_sets"); cnt("seeds", (ll) seeds.size());
	if (method == SCC_SM_LEXICAL || method == SCC_SM_BATCHES) {
		vi want; std::vector<char> m(n, 0);
		for (int v = 0; v < n; ++v) if (!g.N[v].empty() && !m[v]) { bool ok = true; for (int x : g.N[v]) if (m[x]) ok = false; if (ok) { want.push_back(v); m[v] = 1; for (int x : g.N[v]) m[x] = 1; } }
		if (want != seeds) viol("seed-order", "%s lexical: seeds differ from the ascending greedy choice", where);
		return;
	}
	std::vector<vi> in(n); for (int v = 0; v < n; ++v) for (int x : g.N[v]) in[x].push_back(v);
	if (method == SCC_SM_INWARDS_UPDATING) {
		std::vector<char> mark(n, 0), must(n, 0), may(n, 0); // must/may: surely / possibly considered and passed over
		for (size_t i = 0; i < seeds.size(); ++i) {
			int s = seeds[i];
			auto elig = [&](int v) { if (mark[v] || g.N[v].empty()) return false; for (int x : g.N[v]) if (mark[x]) return false; return true; };
			auto UB = [&](int v) { int c = 0; for (int q : in[v]) if (!mark[q] && !must[q]) ++c; return c; };
			auto LB = [&](int v) { int c = 0; for (int q : in[v]) if (!mark[q] && !may[q]) ++c; return c; };
			std::vector<char> el(n, 0); for (int v = 0; v < n; ++v) el[v] = (char) elig(v);
			bool ch = true;
			while (ch) { ch = false; int ub = UB(s); for (int q = 0; q < n; ++q) if (!mark[q] && !el[q] && !g.N[q].empty() && !may[q] && LB(q) <= ub) { may[q] = 1; ch = true; } }
			ch = true;
			while (ch) { ch = false; int lb = LB(s); for (int q = 0; q < n; ++q) if (!mark[q] && !el[q] && !g.N[q].empty() && !must[q] && UB(q) < lb) { must[q] = 1; may[q] = 1; ch = true; } }
			int lb = LB(s);
			for (int v = 0; v < n; ++v) if (el[v] && v != s && UB(v) < lb) { viol("seed-order", "%s inwards updating: seed %d (number %zu) has at least %d current in-arcs but eligible point %d has at most %d", where, s, i, lb, v, UB(v)); return; }
			mark[s] = 1; for (int x : g.N[s]) mark[x] = 1;
		}
		return;
	}
	if (method == SCC_SM_INWARDS_ORDER) {
		for (size_t i = 1; i < seeds.size(); ++i) if (in[seeds[i - 1]].size() > in[seeds[i]].size()) { viol("seed-order", "%s inwards order: seed %d (%zu in-arcs) precedes seed %d (%zu)", where, seeds[i - 1], in[seeds[i - 1]].size(), seeds[i], in[seeds[i]].size()); return; }
		for (int v = 0; v < n; ++v) if (!g.N[v].empty() && !isseed[v]) {
			bool ok = false; auto t = [&](int x) { if (owner[x] >= 0 && in[seeds[owner[x]]].size() <= in[v].size()) ok = true; };
			t(v); for (int x : g.N[v]) t(x);
			if (!ok) { viol("seed-order", "%s inwards order: point %d (%zu in-arcs) was passed over for seeds with more in-arcs", where, v, in[v].size()); return; }
		}
		return;
	}
	// exclusion graph among seedable points
	std::vector<vi> E(n);
	{ std::vector<int> seen(n, -1);
	  for (int v = 0; v < n; ++v) if (!g.N[v].empty()) {
		seen[v] = v; auto add = [&](int q) { if (!g.N[q].empty() && seen[q] != v) { seen[q] = v; E[v].push_back(q); } };
		for (int x : g.N[v]) { add(x); for (int q : in[x]) add(q); }
		for (int q : in[v]) add(q);
	  } }
	if (method == SCC_SM_EXCLUSION_ORDER) {
		for (size_t i = 1; i < seeds.size(); ++i) if (E[seeds[i - 1]].size() > E[seeds[i]].size()) { viol("seed-order", "%s exclusion order: seed %d (degree %zu) precedes seed %d (degree %zu)", where, seeds[i - 1], E[seeds[i - 1]].size(), seeds[i], E[seeds[i]].size()); return; }
		for (int v = 0; v < n; ++v) if (!g.N[v].empty() && !isseed[v]) { bool ok = false; for (int q : E[v]) if (isseed[q] && E[q].size() <= E[v].size()) ok = true; if (!ok) { viol("seed-order", "%s exclusion order: point %d (degree %zu) was passed over for seeds of larger degree", where, v, E[v].size()); return; } }
		return;
	}
	std::vector<char> ex(n, 0); std::vector<int> deg(n, 0);
	for (int v = 0; v < n; ++v) { if (g.N[v].empty()) ex[v] = 1; deg[v] = (int) E[v].size(); }
	for (int s : seeds) {
		for (int v = 0; v < n; ++v) if (!ex[v] && deg[v] < deg[s]) { viol("seed-order", "%s exclusion updating: seed %d has current degree %d but point %d has %d", where, s, deg[s], v, deg[v]); return; }
		ex[s] = 1; vi nw;
		for (int q : E[s]) if (!ex[q]) { ex[q] = 1; nw.push_back(q); }
		for (int q : nw) for (int r : E[q]) if (!ex[r]) --deg[r];
	}
}
