// Large problems: points on a line with fast distance callbacks, so that counts and indices beyond 16 bits
// (points, clusters, seeds, cluster sizes, members of a type) are reached in well under a second per case.
#include "core.hpp"
#include "line.hpp"
namespace {
static bool expect_ok(const Res& r, const Opt& o) {
	if (open_objs) viol("spi-unclosed", "%lld search objects left open", open_objs);
	bool est = (o.pum != SCC_UM_IGNORE && o.pr == SCC_RM_USE_ESTIMATED) || (o.sum != SCC_UM_IGNORE && o.scr == SCC_RM_USE_ESTIMATED);
	if (r.ec == SCC_ER_OK) { cnt("large_clusterings"); cnt("large_clusters", r.m); return true; }
	if (r.ec == SCC_ER_NO_SOLUTION && est) return false;
	viol("large-code", "a solvable problem of %d points returned %s", LN->n, ec_name(r.ec)); return false;
}
static Prob shell() { Prob p; p.n = LN->n; p.custom = true; return p; }
static void sizes(Rng& g, bool types) {
	Line l; gen_line(g, l); Use u(l); Opt o; gen_bopt(g, o, types); Res r = big_sc(o); if (!expect_ok(r, o)) return;
	Prob p = shell(); const char* b = check_labels(p, o, r, types ? A_LABEL | A_SIZE | A_TYPE : A_LABEL | A_SIZE); if (*b) viol("clusters", "%s", b);
	if (r.m >= 2) sig(bh(o)); if (want_sample()) sample("line n=%d size=%u %s types=%u: %lld clusters", l.n, o.k, sm_name(o.method), o.num_types, r.m);
}
MODE(c01big) { sizes(g, g.chance(20)); }
MODE(c02big) { sizes(g, true); }
// On a line without ties every neighbourhood and every assignment is determined by the cores (C05).
static void exact_line(const Line& l, const Opt& o, const Res& r) {
	const int n = l.n, k = (int) o.k; Opt co = cores_only(o); Res core = big_sc(co); if (!expect_ok(core, co) || *check_labels(shell(), co, core, A_LABEL)) return;
	vi at((size_t) n), rank((size_t) n); for (int i = 0; i < n; ++i) at[(size_t) i] = i; std::sort(at.begin(), at.end(), [&](int a, int b) { return l.x[(size_t) a] < l.x[(size_t) b]; }); for (int i = 0; i < n; ++i) rank[(size_t) at[(size_t) i]] = i;
	// the k nearest of v, itself included, are a window of the order: its first rank
	auto window = [&](int v) { int a = rank[(size_t) v], b = a; double x = l.x[(size_t) v]; while (b - a + 1 < k) { if (a == 0) ++b; else if (b == n - 1) --a; else if (x - l.x[(size_t) at[(size_t) a - 1]] < l.x[(size_t) at[(size_t) b + 1]] - x) --a; else ++b; } return a; };
	std::vector<vi> cl((size_t) core.m); for (int i = 0; i < n; ++i) if (core.lab[(size_t) at[(size_t) i]] >= 0) cl[(size_t) core.lab[(size_t) at[(size_t) i]]].push_back(i); // ranks, ascending
	std::vector<vi> seeds((size_t) core.m);
	for (size_t c = 0; c < cl.size(); ++c) {
		vi& w = cl[c]; if ((int) w.size() != k || w.back() - w.front() != k - 1) { viol("not-nearest", "cluster %zu of the neighbourhoods has %zu points over %d places of the line, size constraint %d", c, w.size(), w.empty() ? 0 : w.back() - w.front() + 1, k); return; }
		for (int q : w) if (window(at[(size_t) q]) == w.front()) seeds[c].push_back(at[(size_t) q]);
		if (seeds[c].empty()) { viol("not-nearest", "cluster %zu is the set of the %d nearest points of none of its members", c, k); return; }
	}
	for (int v = 0; v < n; ++v) if (core.lab[(size_t) v] >= 0 && r.lab[(size_t) v] != core.lab[(size_t) v]) { viol("core-moved", "point %d is in neighbourhood %lld but labelled %lld", v, core.lab[(size_t) v], r.lab[(size_t) v]); return; }
	vi prevc((size_t) n, -1), nextc((size_t) n, -1); for (int i = 0, q = -1; i < n; ++i) { prevc[(size_t) i] = q; if (core.lab[(size_t) at[(size_t) i]] >= 0) q = i; } for (int i = n - 1, q = -1; i >= 0; --i) { nextc[(size_t) i] = q; if (core.lab[(size_t) at[(size_t) i]] >= 0) q = i; }
	std::vector<std::pair<double, ll>> sole; bool onesided = true; for (size_t c = 0; c < seeds.size(); ++c) if (seeds[c].size() == 1) sole.push_back({ l.x[(size_t) seeds[c][0]], (ll) c }); else onesided = false; std::sort(sole.begin(), sole.end());
	const int um = o.pum != SCC_UM_IGNORE ? o.pum : o.sum; ll seen = 0;
	for (int v = 0; v < n; ++v) {
		const ll lab = r.lab[(size_t) v]; if (core.lab[(size_t) v] >= 0 || lab < 0) continue; const double x = l.x[(size_t) v];
		if (um == SCC_UM_ANY_NEIGHBOR) { int a = window(v); bool hit = false; for (int q = a; q < a + k; ++q) hit = hit || core.lab[(size_t) at[(size_t) q]] == lab; if (!hit) { viol("any-neighbour", "point %d got label %lld, which none of its neighbours has", v, lab); return; } ++seen; }
		else if (um == SCC_UM_CLOSEST_ASSIGNED) {
			int i = rank[(size_t) v], p = prevc[(size_t) i], q = nextc[(size_t) i]; int b = p < 0 ? q : q < 0 ? p : x - l.x[(size_t) at[(size_t) p]] < l.x[(size_t) at[(size_t) q]] - x ? p : q;
			if (core.lab[(size_t) at[(size_t) b]] != lab) { viol("closest-assigned", "point %d got label %lld, its nearest assigned point %d has %lld", v, lab, at[(size_t) b], core.lab[(size_t) at[(size_t) b]]); return; } ++seen;
		} else if (um == SCC_UM_CLOSEST_SEED) { // some seed of its cluster is no farther than every seed that is known for sure
			double d = INFINITY; for (int q : seeds[(size_t) lab]) d = std::min(d, std::fabs(l.x[(size_t) q] - x)); auto it = std::lower_bound(sole.begin(), sole.end(), std::make_pair(x, (ll) -1));
			for (auto j : { it, it == sole.begin() ? sole.end() : it - 1 }) if (j != sole.end() && j->second != lab && std::fabs(j->first - x) < d) { viol("closest-seed", "point %d got label %lld whose seed is %.17g away; the seed of cluster %lld is %.17g away", v, lab, d, j->second, std::fabs(j->first - x)); return; } ++seen;
		}
	}
	cnt("large_assignments_exact", seen); if (onesided) cnt("large_seeds_unique"); cnt("large_lines_exact");
}
// Feasibility of large problems, on both sides of the border (C08).
MODE(c08big) {
	Line l; gen_line(g, l); Use u(l); const int n = l.n; Opt o; o.method = (int) g.pick(vi{ SCC_SM_LEXICAL, SCC_SM_INWARDS_ORDER, SCC_SM_INWARDS_UPDATING }); o.pum = (int) g.in(0, 3); o.sum = (int) g.pick(vi{ SCC_UM_IGNORE, SCC_UM_CLOSEST_ASSIGNED, SCC_UM_CLOSEST_SEED }); o.pr = o.scr = SCC_RM_NO_RADIUS;
	int np = (int) g.in(1, 12); o.has_primary = true; for (int t = 0; t < np; ++t) o.prim.push_back(g.chance(50) ? n - 1 - t : (int) g.in(0, n - 1)); std::sort(o.prim.begin(), o.prim.end()); o.prim.erase(std::unique(o.prim.begin(), o.prim.end()), o.prim.end());
	bool want = true; int what = (int) g.in(0, 3);
	if (what == 0 || l.builtin) { o.k = (uint32_t) (n + g.in(-2, 2)); want = (ll) o.k <= n; if (l.builtin && want) o.k = (uint32_t) (n + 1), want = false; }
	else if (what == 1) {
		o.num_types = (uint32_t) g.pick(std::vector<ll>{ 2, 3, 300 }); std::vector<ll> gs(o.num_types, 0); o.tl.resize((size_t) n); uint32_t t1 = (uint32_t) g.in(0, (ll) o.num_types - 1); ll size = g.pick(std::vector<ll>{ 5, 255, 256, 300, 20000, 65535, 65536 }); size = std::min<ll>(size, n - 1000); uint32_t t2 = (t1 + 1) % o.num_types;
		for (int i = 0; i < n; ++i) o.tl[(size_t) i] = (int) (i % 2 == 0 && i / 2 < size ? t1 : t2); if (2 * size > n) for (int i = 0; i < n; ++i) o.tl[(size_t) i] = (int) (i < size ? t1 : t2); for (int t : o.tl) ++gs[(size_t) t];
		o.tc.assign(o.num_types, 0); o.tc[t1] = (uint32_t) (gs[t1] + g.in(-1, 1)); if (g.chance(40)) o.tc[t2] = (uint32_t) g.in(0, 3); o.k = (uint32_t) std::min<ll>(n, std::max<ll>(2, o.tc[t1] + o.tc[t2] + g.in(0, 3))); want = (ll) o.tc[t1] <= gs[t1] && o.tc[t1] + o.tc[t2] <= o.k; if (o.tc[t1] + o.tc[t2] > o.k) return;
	} else { // the seed radius at, below and above what the best primary point needs
		o.k = (uint32_t) g.pick(std::vector<ll>{ 2, 3, 10, 300, 5000, n / 2 }); o.k = std::max(2u, std::min(o.k, (uint32_t) n)); std::vector<double> srt = l.x; std::sort(srt.begin(), srt.end()); double best = INFINITY;
		for (int p : o.prim) { ll i = std::lower_bound(srt.begin(), srt.end(), l.x[(size_t) p]) - srt.begin(); ll a = i, b = i; double x = l.x[(size_t) p], d = 0; while (b - a + 1 < (ll) o.k) { double dl = a > 0 ? x - srt[(size_t) a - 1] : INFINITY, dh = b + 1 < n ? srt[(size_t) b + 1] - x : INFINITY; if (dl < dh) { --a; d = std::max(d, dl); } else { ++b; d = std::max(d, dh); } } best = std::min(best, d); }
		o.sr = SCC_RM_USE_SUPPLIED; int c = (int) g.in(0, 2); o.srv = c == 0 ? best : c == 1 ? std::nextafter(best, 0) : best * 1.5; if (!(o.srv > 0)) { o.srv = 1; c = 2; } want = o.srv >= best; if (o.pum != SCC_UM_IGNORE && g.chance(30)) o.pr = SCC_RM_USE_SEED_RADIUS;
	}
	desc("size=%u types=%u primary %zu seed radius %.17g: expected %s\n", o.k, o.num_types, o.prim.size(), o.srv, want ? "OK" : "NO_SOLUTION");
	Res r = big_sc(o); if (open_objs) viol("spi-unclosed", "%lld search objects left open", open_objs);
	if (r.ec != (want ? SCC_ER_OK : SCC_ER_NO_SOLUTION)) viol("feasible", "expected %s, got %s", want ? "OK" : "NO_SOLUTION", ec_name(r.ec)); cntf(1, "large_%s", want ? "feasible" : "infeasible");
	if (what == 0) { uint32_t k = (uint32_t) (n + g.in(-1, 1)); scc_Clustering* c = nullptr; scc_init_empty_clustering((uint64_t) n, nullptr, &c); int ec = scc_hierarchical_clustering(TK, k, g.chance(50), c); scc_free_clustering(&c); if (ec != ((ll) k <= n ? SCC_ER_OK : SCC_ER_NO_SOLUTION)) viol("feasible", "hierarchical clustering of %d points with size %u returned %s", n, k, ec_name(ec)); }
	sig(bh(o) ^ (uint64_t) want);
}
// who is assigned, and the diameter bound
static void assigned(Rng& g, bool close) {
	Line l; gen_line(g, l); Use u(l); Opt o; gen_bopt(g, o, false); if (close) { o.has_primary = false; o.prim.clear(); if (o.k > 6) o.k = 3; if (o.method != SCC_SM_BATCHES) { o.pr = SCC_RM_NO_RADIUS; o.scr = SCC_RM_NO_RADIUS; } }
	Res r = big_sc(o); if (!expect_ok(r, o)) return; Prob p = shell(); if (*check_labels(p, o, r, A_LABEL)) return; const int n = l.n;
	if (!close) {
		std::vector<ll> sz((size_t) r.m, 0); ll na = 0; for (ll x : r.lab) if (x >= 0) ++sz[(size_t) x]; else ++na;
		if (o.pum == SCC_UM_IGNORE && o.sum == SCC_UM_IGNORE) { for (size_t c = 0; c < sz.size(); ++c) if (sz[c] != o.k) { viol("core-size", "cluster %zu has %lld members, size constraint %u, unassigned points ignored", c, sz[c], o.k); return; } }
		else {
			bool pall = o.pum == SCC_UM_ANY_NEIGHBOR || (o.pum != SCC_UM_IGNORE && o.pr != SCC_RM_USE_ESTIMATED), sall = o.sum != SCC_UM_IGNORE && o.scr != SCC_RM_USE_ESTIMATED;
			if (sall && na) { viol("not-assigned", "%lld points are unassigned although the secondary method has no radius", na); return; }
			if (pall) for (int i = 0; i < n; ++i) if (r.lab[(size_t) i] < 0 && is_primary(o, i)) { viol("not-assigned", "primary point %d is unassigned although the primary method has no radius", i); return; }
			if (o.sum == SCC_UM_IGNORE && o.has_primary) { Res core = big_sc(cores_only(o)); for (int i = 0; i < n; ++i) if (!is_primary(o, i) && core.ec == 0 && core.lab[(size_t) i] < 0 && r.lab[(size_t) i] >= 0) { viol("assigned-unexpectedly", "point %d is not primary, in no neighbourhood and the secondary method is ignore", i); return; } }
		}
	} else {
		std::vector<double> s = l.x; std::sort(s.begin(), s.end()); double lam = 0; const int k = (int) o.k;
		for (int i = 0; i < n; ++i) { double b = INFINITY; for (int a = std::max(0, i - k + 1); a <= i && a + k - 1 < n; ++a) b = std::min(b, std::max(s[(size_t) i] - s[(size_t) a], s[(size_t) (a + k - 1)] - s[(size_t) i])); lam = std::max(lam, b); }
		std::vector<double> lo((size_t) r.m, INFINITY), hi((size_t) r.m, -INFINITY); for (int i = 0; i < n; ++i) if (r.lab[(size_t) i] >= 0) { size_t c = (size_t) r.lab[(size_t) i]; lo[c] = std::min(lo[c], l.x[(size_t) i]); hi[c] = std::max(hi[c], l.x[(size_t) i]); }
		for (size_t c = 0; c < lo.size(); ++c) if (hi[c] - lo[c] > 4 * lam * (1 + 1e-12)) { viol("four-lambda", "cluster %zu spans %.17g, bound 4*%.17g", c, hi[c] - lo[c], lam); return; }
		cnt("four_lambda_checked");
		if (l.tiefree) exact_line(l, o, r);
	}
	if (r.m >= 2) sig(bh(o));
}
// Radii in large problems: who is within them (C04) and who has to be assigned (C03).
static void line_radius(Rng& g, bool complete) {
	Line l; gen_line(g, l); Use u(l); const int n = l.n; Opt o; gen_bopt(g, o, g.chance(25)); const bool batches = o.method == SCC_SM_BATCHES; const int k = (int) o.k;
	std::vector<std::pair<double, int>> srt((size_t) n); for (int i = 0; i < n; ++i) srt[(size_t) i] = { l.x[(size_t) i], i }; std::sort(srt.begin(), srt.end());
	// distance to the j-th nearest point, the point itself being the first
	auto kth = [&](int v, int j) { double x = l.x[(size_t) v]; ll a = std::lower_bound(srt.begin(), srt.end(), std::make_pair(x, v)) - srt.begin(), b = a; double d = 0; while (b - a + 1 < j) { double dl = a > 0 ? x - srt[(size_t) a - 1].first : INFINITY, dh = b + 1 < n ? srt[(size_t) b + 1].first - x : INFINITY; if (dl < dh) { --a; d = dl; } else { ++b; d = dh; } } return d; };
	auto rad = [&](int j) { int v = o.has_primary && g.chance(70) ? g.pick(o.prim) : (int) g.in(0, n - 1); double d = kth(v, std::max(2, std::min(n, j))); int c = (int) g.in(0, 5); d = c == 0 ? std::nextafter(d, 0) : c == 1 ? std::nextafter(d, INFINITY) : c == 2 ? d * 1.5 : c == 3 ? d * 0.6 : d; return d > 0 ? d : 1.0; };
	if (g.chance(60)) { o.sr = SCC_RM_USE_SUPPLIED; o.srv = rad(k); }
	if (!batches) { int c = (int) g.in(0, 5); if (c < 3) { o.pr = SCC_RM_USE_SUPPLIED; o.prv = rad(k > 50 ? k : (int) g.in(2, 3 * k)); } else if (c == 3) o.pr = SCC_RM_USE_SEED_RADIUS; else if (c == 4) o.pr = SCC_RM_NO_RADIUS;
		c = (int) g.in(0, 5); if (c < 3) { o.scr = SCC_RM_USE_SUPPLIED; o.scrv = rad(k > 50 ? k : (int) g.in(2, 4 * k)); } else if (c == 3) o.scr = SCC_RM_USE_SEED_RADIUS; else if (c == 4) o.scr = SCC_RM_NO_RADIUS; }
	desc("seed radius %s %.17g, primary %s %.17g, secondary %s %.17g\n", rm_name(o.sr), o.srv, rm_name(o.pr), o.prv, rm_name(o.scr), o.scrv);
	Opt o1 = o; o1.sum = SCC_UM_IGNORE; Res r = big_sc(o), core = big_sc(cores_only(o)), prim = big_sc(o1); if (open_objs) viol("spi-unclosed", "%lld search objects left open", open_objs);
	if (r.ec != SCC_ER_OK || core.ec != SCC_ER_OK || prim.ec != SCC_ER_OK) { cnt("large_radius_no_solution"); return; } // feasibility: C08
	Prob p = shell(); if (*check_labels(p, o, r, A_LABEL) || *check_labels(p, o, core, A_LABEL) || *check_labels(p, o, prim, A_LABEL) || core.m != r.m || prim.m != r.m) return; // C01
	struct Rad { bool on; double r; double slack; }; const double sl = l.builtin ? 1 + 1e-12 : 1; const bool son = o.sr == SCC_RM_USE_SUPPLIED;
	std::vector<vi> cl((size_t) core.m); for (auto& s : srt) if (core.lab[(size_t) s.second] >= 0) cl[(size_t) core.lab[(size_t) s.second]].push_back(s.second); double widest = 0;
	std::vector<vi> cand((size_t) core.m); // possible seeds
	for (size_t c = 0; c < cl.size(); ++c) { if (cl[c].empty()) return; double lo = l.x[(size_t) cl[c].front()], hi = l.x[(size_t) cl[c].back()]; widest = std::max(widest, hi - lo);
		for (int v : cl[c]) if (is_primary(o, v) && (!son || std::max(l.x[(size_t) v] - lo, hi - l.x[(size_t) v]) <= o.srv * sl)) cand[c].push_back(v);
		if (cand[c].empty()) { if (!complete) viol("seed-radius", "neighbourhood %zu has no primary member within %.17g of all others (it spans %.17g)", c, o.srv, hi - lo); return; } }
	auto eff = [&](int m, double v) -> Rad { if (m == SCC_RM_USE_SEED_RADIUS) { m = o.sr; v = o.srv; } if (m == SCC_RM_USE_ESTIMATED) return { true, widest, 1 + 1e-9 }; return { m == SCC_RM_USE_SUPPLIED, v, sl }; };
	// the next points of neighbourhoods to the left and to the right
	vi rank((size_t) n); for (int i = 0; i < n; ++i) rank[(size_t) srt[(size_t) i].second] = i;
	vi lft((size_t) n, -1), rgt((size_t) n, -1); for (int i = 0, q = -1; i < n; ++i) { if (core.lab[(size_t) srt[(size_t) i].second] >= 0) q = srt[(size_t) i].second; lft[(size_t) i] = q; } for (int i = n - 1, q = -1; i >= 0; --i) { if (core.lab[(size_t) srt[(size_t) i].second] >= 0) q = srt[(size_t) i].second; rgt[(size_t) i] = q; }
	std::vector<double> sole; for (auto& c : cand) if (c.size() == 1) sole.push_back(l.x[(size_t) c[0]]); std::sort(sole.begin(), sole.end());
	ll joined = 0, left = 0, tight = 0;
	for (int v = 0; v < n; ++v) {
		if (core.lab[(size_t) v] >= 0) continue; const double x = l.x[(size_t) v]; const int i = rank[(size_t) v]; double near = INFINITY; if (lft[(size_t) i] >= 0) near = x - l.x[(size_t) lft[(size_t) i]]; if (rgt[(size_t) i] >= 0) near = std::min(near, l.x[(size_t) rgt[(size_t) i]] - x);
		double snear = INFINITY; { auto it = std::lower_bound(sole.begin(), sole.end(), x); if (it != sole.end()) snear = *it - x; if (it != sole.begin()) snear = std::min(snear, x - *(it - 1)); }
		for (int ph = 0; ph < 2; ++ph) {
			const bool pr = ph == 0; if (!pr && prim.lab[(size_t) v] >= 0) break; const ll lab = pr ? prim.lab[(size_t) v] : r.lab[(size_t) v]; const int um = pr ? (is_primary(o, v) ? o.pum : SCC_UM_IGNORE) : o.sum; const bool est = um >= SCC_UM_CLOSEST_ASSIGNED && (pr ? o.pr : o.scr) == SCC_RM_USE_ESTIMATED; const char* nm = pr ? "primary" : "secondary";
			Rad q = um == SCC_UM_ANY_NEIGHBOR ? Rad{ son, o.srv, sl } : pr ? eff(o.pr, o.prv) : eff(o.scr, o.scrv);
			if (lab >= 0) {
				++joined; if (complete) { if (um == SCC_UM_IGNORE) { viol("assigned-unexpectedly", "point %d is in no neighbourhood and its %s method is ignore, but it has label %lld", v, nm, lab); return; } continue; }
				double d = INFINITY; for (int w : um == SCC_UM_CLOSEST_SEED ? cand[(size_t) lab] : cl[(size_t) lab]) d = std::min(d, std::fabs(l.x[(size_t) w] - x));
				if (um != SCC_UM_IGNORE && q.on && d > q.r * q.slack) { viol("assign-radius", "point %d joined cluster %lld (%s, %s) from %.17g away, radius %.17g", v, lab, nm, um_name(um), d, q.r); return; } if (q.on && d * 1.3 > q.r) ++tight;
			} else {
				++left; if (!complete || um == SCC_UM_IGNORE || est) continue; const double in = q.r / q.slack;
				if (um == SCC_UM_CLOSEST_ASSIGNED && (!q.on || near <= in)) { viol("not-assigned", "point %d is left out by the %s method %s although point %.17g away is assigned, radius %.17g", v, nm, um_name(um), near, q.on ? q.r : INFINITY); return; }
				if (um == SCC_UM_CLOSEST_SEED && (!q.on || snear <= in)) { viol("not-assigned", "point %d is left out by the %s method %s although a seed is %.17g away, radius %.17g", v, nm, um_name(um), snear, q.on ? q.r : INFINITY); return; }
				if (um == SCC_UM_ANY_NEIGHBOR && !o.typed() && (!q.on || kth(v, k) <= in)) { viol("not-assigned", "point %d is left out although all its neighbours are within the radius", v); return; } if (q.on && near < q.r * 1.3) ++tight;
			}
		}
	}
	cnt("large_radius_joined", joined); cnt("large_radius_left_out", left); cnt("large_radius_close_calls", tight); if (r.m >= 2) sig(bh(o)); if (want_sample()) sample("line n=%d size=%u %s seed radius %s: %lld clusters, %lld points joined within their radius, %lld left out", n, o.k, sm_name(o.method), rm_name(o.sr), r.m, joined, left);
}
// The neighbourhoods of all primary points on a line without ties: per type the required number of nearest points of the
// type, then the nearest others up to the size constraint (the point itself is a member), all within the seed radius.
static Nng line_nng(const Line& l, const Opt& o, std::vector<double>* reach = nullptr) {
	const int n = l.n; Nng q; q.ok = true; q.N.resize((size_t) n); q.has.assign((size_t) n, 0); vi at((size_t) n), rank((size_t) n); for (int i = 0; i < n; ++i) at[(size_t) i] = i; std::sort(at.begin(), at.end(), [&](int a, int b) { return l.x[(size_t) a] < l.x[(size_t) b]; }); for (int i = 0; i < n; ++i) rank[(size_t) at[(size_t) i]] = i;
	const bool ty = o.typed() && o.sumtc() > 0; std::vector<vi> by; vi pos; vi req; if (ty) { by.resize(o.num_types); pos.resize((size_t) n); for (int i = 0; i < n; ++i) { const size_t t = (size_t) o.tl[(size_t) at[(size_t) i]]; by[t].push_back(at[(size_t) i]); } for (uint32_t t = 0; t < o.num_types; ++t) if (o.tc[t]) req.push_back((int) t); }
	std::vector<int> in((size_t) n, -1); std::vector<char> isp((size_t) n, 1); if (o.has_primary) { isp.assign((size_t) n, 0); for (int v : o.prim) isp[(size_t) v] = 1; } if (reach) reach->assign((size_t) n, 0);
	for (int v = 0; v < n; ++v) {
		if (!isp[(size_t) v]) continue; const double x = l.x[(size_t) v]; vi& N = q.N[(size_t) v]; double d = 0; in[(size_t) v] = v;
		// the nearest m of an ordered list that are not in the set yet
		auto nearest = [&](const vi& w, ll hi, ll m) { ll lo = hi - 1; while (m > 0) { while (lo >= 0 && in[(size_t) w[(size_t) lo]] == v) --lo; while (hi < (ll) w.size() && in[(size_t) w[(size_t) hi]] == v) ++hi; const double a = lo >= 0 ? x - l.x[(size_t) w[(size_t) lo]] : INFINITY, b = hi < (ll) w.size() ? l.x[(size_t) w[(size_t) hi]] - x : INFINITY; if (a == INFINITY && b == INFINITY) { q.ok = false; return; } const int y = a < b ? w[(size_t) lo--] : w[(size_t) hi++]; in[(size_t) y] = v; N.push_back(y); d = std::max(d, std::min(a, b)); --m; } };
		if (ty) for (int t : req) { const vi& w = by[(size_t) t]; ll hi = std::lower_bound(w.begin(), w.end(), x, [&](int a, double b) { return l.x[(size_t) a] < b; }) - w.begin(); nearest(w, hi, (ll) o.tc[(size_t) t] - (o.tl[(size_t) v] == t)); }
		ll more = (ll) o.k - (ty ? (ll) o.sumtc() : 0); if (!ty || o.tc[(size_t) o.tl[(size_t) v]] == 0) --more; // the point itself is one of the others
		if (more > 0) nearest(at, rank[(size_t) v], more);
		q.has[(size_t) v] = o.sr != SCC_RM_USE_SUPPLIED || d <= o.srv; if (!q.has[(size_t) v]) N.clear(); else std::sort(N.begin(), N.end()); if (reach) (*reach)[(size_t) v] = d;
	}
	return q;
}
static void line_radius_opt(Rng& g, const Line& l, Opt& o, Nng& q) { // the neighbourhoods under o, with a seed radius put close to what some primary point needs
	std::vector<double> reach; Opt o0 = o; o0.sr = SCC_RM_NO_RADIUS; q = line_nng(l, o0, &reach); if (!g.chance(60)) { desc("no seed radius\n"); return; }
	const double d = reach[(size_t) (o.has_primary ? g.pick(o.prim) : (int) g.in(0, l.n - 1))]; const int c = (int) g.in(0, 4); o.sr = SCC_RM_USE_SUPPLIED; o.srv = c == 0 ? std::nextafter(d, 0) : c == 1 ? d * 1.3 : c == 2 ? d * 0.9 : d; desc("seed radius %.17g\n", o.srv);
	for (int v = 0; v < l.n; ++v) if (q.has[(size_t) v] && reach[(size_t) v] > o.srv) { q.has[(size_t) v] = 0; q.N[(size_t) v].clear(); }
}
// Neighbourhoods with types, primary points and a seed radius, and every assignment made from them (C05).
static void exact_typed(Rng& g) {
	Line l; do gen_line(g, l); while (!l.tiefree); Use u(l); const int n = l.n; Opt o; gen_bopt(g, o, g.chance(65)); const bool batches = o.method == SCC_SM_BATCHES; if (!batches) o.pr = o.scr = SCC_RM_NO_RADIUS; Nng q; line_radius_opt(g, l, o, q); if (!q.ok) return;
	ll can = 0; for (char h : q.has) can += h; Res r = big_sc(o), core = big_sc(cores_only(o)); if (open_objs) viol("spi-unclosed", "%lld search objects left open", open_objs);
	if (r.ec != (can ? SCC_ER_OK : SCC_ER_NO_SOLUTION) || core.ec != r.ec) { viol("large-code", "%lld points have a neighbourhood within the radius; the outcome is %s, %s", can, ec_name(r.ec), ec_name(core.ec)); return; }
	if (!can) { cnt("large_no_neighbourhood"); return; } if (*check_labels(shell(), o, r, A_LABEL) || *check_labels(shell(), o, core, A_LABEL) || core.m != r.m) return; // C01
	auto C = members(core); std::vector<vi> seeds((size_t) core.m);
	for (size_t c = 0; c < C.size(); ++c) { for (int v : C[c]) if (q.has[(size_t) v] && q.N[(size_t) v].size() + 1 == C[c].size()) { bool same = true; for (int x : q.N[(size_t) v]) if (core.lab[(size_t) x] != (ll) c) { same = false; break; } if (same) seeds[c].push_back(v); } if (seeds[c].empty()) { viol("not-nearest", "cluster %zu of %zu points is the neighbourhood of none of its primary members", c, C[c].size()); return; } }
	for (int v = 0; v < n; ++v) if (core.lab[(size_t) v] >= 0 && r.lab[(size_t) v] != core.lab[(size_t) v]) { viol("core-moved", "point %d is in neighbourhood %lld but labelled %lld", v, core.lab[(size_t) v], r.lab[(size_t) v]); return; }
	std::vector<std::pair<double, int>> as, sd; bool sole = true; for (int v = 0; v < n; ++v) if (core.lab[(size_t) v] >= 0) as.push_back({ l.x[(size_t) v], v }); for (auto& s : seeds) { sole = sole && s.size() == 1; for (int v : s) sd.push_back({ l.x[(size_t) v], v }); } std::sort(as.begin(), as.end()); std::sort(sd.begin(), sd.end());
	auto closest = [&](const std::vector<std::pair<double, int>>& w, double x) { auto it = std::lower_bound(w.begin(), w.end(), std::make_pair(x, -1)); if (it == w.end()) return (it - 1)->second; if (it == w.begin()) return it->second; return x - (it - 1)->first < it->first - x ? (it - 1)->second : it->second; };
	std::vector<char> isp((size_t) n, 1); if (o.has_primary) { isp.assign((size_t) n, 0); for (int v : o.prim) isp[(size_t) v] = 1; } ll seen = 0;
	for (int v = 0; v < n; ++v) {
		if (core.lab[(size_t) v] >= 0) continue; const ll lab = r.lab[(size_t) v]; int um = isp[(size_t) v] ? o.pum : SCC_UM_IGNORE; if (um == SCC_UM_ANY_NEIGHBOR && !q.has[(size_t) v]) um = SCC_UM_IGNORE; if (um == SCC_UM_IGNORE) um = o.sum; const double x = l.x[(size_t) v];
		if (um == SCC_UM_IGNORE) { if (lab >= 0) { viol("assigned-unexpectedly", "point %d is in no neighbourhood and ignored, but has label %lld", v, lab); return; } continue; }
		if (lab < 0) { viol("not-assigned", "point %d is left out by %s without a radius", v, um_name(um)); return; }
		if (um == SCC_UM_ANY_NEIGHBOR) { bool hit = false; for (int y : q.N[(size_t) v]) hit = hit || core.lab[(size_t) y] == lab; if (!hit) { viol("any-neighbour", "point %d got label %lld, which none of its neighbours has", v, lab); return; } }
		else if (um == SCC_UM_CLOSEST_ASSIGNED) { const int y = closest(as, x); if (core.lab[(size_t) y] != lab) { viol("closest-assigned", "point %d got label %lld, its nearest assigned point %d has %lld", v, lab, y, core.lab[(size_t) y]); return; } }
		else if (sole) { const int y = closest(sd, x); if (core.lab[(size_t) y] != lab) { viol("closest-seed", "point %d got label %lld, its nearest seed %d has %lld", v, lab, y, core.lab[(size_t) y]); return; } }
		++seen;
	}
	cnt("large_neighbourhoods_exact", core.m); cnt("large_assignments_exact", seen); cntf(1, "exact_%s%s%s", o.typed() ? "typed" : "size", o.has_primary ? "_primary" : "", o.sr == SCC_RM_USE_SUPPLIED ? "_radius" : ""); if (r.m >= 2) sig(bh(o)); if (want_sample()) sample("line n=%d size=%u types=%u primary %zu seed radius %.6g: %lld neighbourhoods and %lld assignments exact", n, o.k, o.num_types, o.prim.size(), o.srv, core.m, seen);
}
MODE(c03big) { if (g.chance(50)) assigned(g, false); else line_radius(g, true); }
MODE(c04big) { line_radius(g, false); }
MODE(c05big) { if (g.chance(50)) assigned(g, true); else exact_typed(g); }
MODE(c06big) {
	Line l; const bool rich = g.chance(50); do gen_line(g, l); while (rich ? !l.tiefree : l.dups || (l.builtin && !l.tiefree)); Use u(l); Opt o; gen_bopt(g, o, rich && g.chance(60)); o.pr = o.scr = SCC_RM_NO_RADIUS; if (o.method == SCC_SM_BATCHES) o.pr = SCC_RM_USE_SEED_RADIUS; o = cores_only(o); const int n = l.n; Nng q;
	if (rich) { line_radius_opt(g, l, o, q); if (!q.ok) return; ll can = 0; for (char h : q.has) can += h; if (!can) { cnt("large_no_neighbourhood"); return; } cntf(1, "large_seeds_%s%s", o.typed() ? "typed" : "size", o.sr == SCC_RM_USE_SUPPLIED ? "_radius" : ""); }
	Res r = big_sc(o); if (!expect_ok(r, o)) return; Prob p = shell(); if (*check_labels(p, o, r, A_LABEL)) return;
	// independent neighbour sets, from the callbacks themselves
	if (!rich) { q.ok = true; q.N.resize((size_t) n); q.has.assign((size_t) n, 0); Srch* s = mk((size_t) n, nullptr, true); std::vector<scc_PointIndex> nn(o.k); size_t ok;
		for (int v = 0; v < n; ++v) if (is_primary(o, v)) { scc_PointIndex qi = (scc_PointIndex) v; b_nn((iscc_NNSearchObject*) s, 1, &qi, o.k, false, 0, &ok, nullptr, nn.data()); q.has[(size_t) v] = 1; bool self = false; for (auto x : nn) if ((int) x == v) self = true; if (!self) nn.back() = (scc_PointIndex) v; for (auto x : nn) if ((int) x != v) q.N[(size_t) v].push_back((int) x); }
		delete s; --open_objs; }
	auto C = members(r); vi seeds;
	for (size_t c = 0; c < C.size(); ++c) { int found = -1; int cands = 0; for (int v : C[c]) if (q.has[(size_t) v]) { vi w = q.N[(size_t) v]; w.push_back(v); std::sort(w.begin(), w.end()); if (w == C[c]) { ++cands; if (found < 0) found = v; } if (o.k > 300 && cands) break; }
		if (found < 0) { viol("core-is-neighbourhood", "cluster %zu is no point's neighbourhood", c); return; } seeds.push_back(found); }
	for (int v = 0; v < n; ++v) if (q.has[(size_t) v] && r.lab[(size_t) v] < 0) { bool bl = false; for (int x : q.N[(size_t) v]) if (r.lab[(size_t) x] >= 0) bl = true; if (!bl) { viol("seeds-not-maximal", "point %d could still be added as a seed", v); return; } }
	if (o.method == SCC_SM_LEXICAL || o.method == SCC_SM_BATCHES) check_seeds(q, seeds, o.method, "large");
	else if (o.method != SCC_SM_INWARDS_UPDATING && o.method != SCC_SM_EXCLUSION_UPDATING && o.k <= 6) { vi s2; int ec = 0; if (!get_seeds(q, o.method, 1 + (size_t) n / o.k, s2, &ec)) viol("seeds-fail", "%s", ec_name(ec)); else check_seeds(q, s2, o.method, "large"); }
	if (r.m >= 2) sig(bh(o)); if (want_sample()) sample("line n=%d size=%u %s: %lld seeds maximal and independent", n, o.k, sm_name(o.method), r.m);
}
MODE(c07big) {
	Line l; gen_line(g, l); Use u(l); const int n = l.n; uint32_t k = (uint32_t) g.pick(std::vector<ll>{ 2, 3, 7, 100, 1000, 20000, 33000, n / 2, n }); k = std::max(2u, std::min(k, (uint32_t) n)); bool ba = g.chance(50); scc_Clustering* c = nullptr; bool ex = g.chance(40); std::vector<ll> old((size_t) n, 0); ll om = 1;
	if (ex) { om = g.pick(std::vector<ll>{ 1, 2, 300, 65536, (ll) n / 3, (ll) n / 2, (ll) n, (ll) n - 100 }); om = std::max<ll>(1, std::min<ll>(om, n)); for (int i = 0; i < n; ++i) old[(size_t) i] = g.chance(5) ? -1 : (ll) i * om / n; scc_Clabel* e = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) e[i] = to_clabel(old[(size_t) i]); scc_init_existing_clustering((uint64_t) n, (uint64_t) om, e, true, &c); free(e); }
	else scc_init_empty_clustering((uint64_t) n, nullptr, &c);
	desc("hierarchical size=%u batch_assign=%d existing clusters %lld\n", k, (int) ba, ex ? om : 0);
	int ec = scc_hierarchical_clustering(TK, k, ba, c); Res r; if (!ec) r = fetch(c, n); scc_free_clustering(&c); if (open_objs) viol("spi-unclosed", "search objects left open");
	if (ec) { viol("hier-code", "%s", ec_name(ec)); return; }
	std::vector<ll> sz((size_t) std::max<ll>(1, r.m), 0), from(sz.size(), -1), os((size_t) om, 0), parts((size_t) om, 0); for (ll x : old) if (x >= 0) ++os[(size_t) x];
	for (int i = 0; i < n; ++i) { ll x = r.lab[(size_t) i], y = old[(size_t) i]; if ((x < 0) != (y < 0) || x >= r.m) { viol("hier-partition", "point %d: old label %lld, new label %lld of %lld", i, y, x, r.m); return; } if (x < 0) continue; if (from[(size_t) x] >= 0 && from[(size_t) x] != y) { viol("hier-partition", "cluster %lld mixes old clusters", x); return; } from[(size_t) x] = y; ++sz[(size_t) x]; }
	for (size_t q = 0; q < sz.size(); ++q) { if (sz[q] == 0) { viol("hier-partition", "label %zu unused", q); return; } ll w = os[(size_t) from[q]]; ++parts[(size_t) from[q]]; if (w >= 2 * (ll) k && (sz[q] < (ll) k || sz[q] > 2 * (ll) k - 1)) { viol("hier-partition", "cluster %zu has %lld points, bounds %u..%u", q, sz[q], k, 2 * k - 1); return; } }
	for (size_t q = 0; q < os.size(); ++q) if (os[q] > 0 && os[q] < 2 * (ll) k && parts[q] != 1) { viol("hier-partition", "old cluster %zu of %lld points was split", q, os[q]); return; }
	cnt("large_hierarchical"); cnt("large_clusters", r.m); if (r.m >= 2) { Opt o; o.k = k; o.batch = ba + 2 * (uint32_t) om; sig(bh(o)); }
	if (want_sample()) sample("line n=%d size=%u batch_assign=%d existing=%d -> %lld clusters", n, k, (int) ba, (int) ex, r.m);
}
// On a line the two mutually farthest points are the ends of a group and every group is an interval of the order:
// the sequence of cuts is determined unless two distances compared with each other are equal (C25).
static bool cuts(const std::vector<double>& x, ll a, ll b, ll k, bool ba, std::vector<std::pair<ll, ll>>& out, ll* splits) {
	std::vector<std::pair<ll, ll>> st{ { a, b } };
	while (!st.empty()) {
		auto [p, q] = st.back(); st.pop_back(); // the points p .. q-1
		if (q - p < 2 * k) { out.push_back({ p, q }); continue; }
		ll i = p + k, j = q - k; const double lo = x[(size_t) p], hi = x[(size_t) q - 1]; // i .. j-1 remain
		while (i < j) { const ll t = ba ? std::min(k, j - i) : 1; const double d0 = x[(size_t) (i + t - 1)] - lo, d1 = hi - x[(size_t) (j - t)]; if (d0 == d1) return false; if (d0 < d1) i += t; else j -= t; }
		++*splits; st.push_back({ p, i }); st.push_back({ i, q });
	}
	return true;
}
MODE(c25big) {
	Line l; do gen_line(g, l); while (!l.tiefree); Use u(l); const int n = l.n; uint32_t k = (uint32_t) g.pick(std::vector<ll>{ 2, 3, 7, 100, 1000, 4096, 5000, 20000, n / 4, n / 3, n / 2 }); if (g.chance(40)) k = (uint32_t) g.in(2, n / 2); k = std::max(2u, std::min(k, (uint32_t) n / 2)); const bool ba = g.chance(60), ex = g.chance(40); std::vector<ll> old((size_t) n, 0); ll om = 1; scc_Clustering* c = nullptr;
	if (ex) { om = std::max<ll>(1, g.pick(std::vector<ll>{ 1, 2, 5, 300, (ll) n / (3 * (ll) k), (ll) n / (5 * (ll) k) })); const int sh = (int) g.in(0, 2); for (int i = 0; i < n; ++i) old[(size_t) i] = g.chance(3) ? -1 : sh == 0 ? (ll) i * om / n : sh == 1 ? i % om : g.in(0, om - 1); scc_Clabel* e = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) e[i] = to_clabel(old[(size_t) i]); scc_init_existing_clustering((uint64_t) n, (uint64_t) om, e, true, &c); free(e); }
	else scc_init_empty_clustering((uint64_t) n, nullptr, &c);
	desc("hierarchical size=%u batch_assign=%d existing clusters %lld\n", k, (int) ba, ex ? om : 0);
	const int ec = scc_hierarchical_clustering(TK, k, ba, c); Res r; if (!ec) r = fetch(c, n); scc_free_clustering(&c); if (open_objs) viol("spi-unclosed", "search objects left open");
	if (ec) { viol("hier-code", "%s", ec_name(ec)); return; }
	std::vector<vi> G((size_t) om); std::vector<ll> sz((size_t) std::max<ll>(1, r.m), 0); for (int i = 0; i < n; ++i) { if ((old[(size_t) i] < 0) != (r.lab[(size_t) i] < 0) || r.lab[(size_t) i] >= r.m) { viol("hier-partition", "point %d: label %lld", i, r.lab[(size_t) i]); return; } if (old[(size_t) i] >= 0) { G[(size_t) old[(size_t) i]].push_back(i); ++sz[(size_t) r.lab[(size_t) i]]; } }
	ll splits = 0, tied = 0;
	for (auto& v : G) {
		if (v.empty()) continue; std::sort(v.begin(), v.end(), [&](int a, int b) { return l.x[(size_t) a] < l.x[(size_t) b]; }); std::vector<double> x; for (int q : v) x.push_back(l.x[(size_t) q]);
		std::vector<std::pair<ll, ll>> out; if (!cuts(x, 0, (ll) v.size(), (ll) k, ba, out, &splits)) { ++tied; continue; }
		for (auto [p, q] : out) { const ll lab = r.lab[(size_t) v[(size_t) p]]; bool ok = sz[(size_t) lab] == q - p; for (ll t = p; ok && t < q; ++t) ok = r.lab[(size_t) v[(size_t) t]] == lab;
			if (!ok) { viol("split", "a group of %zu points on a line: places %lld to %lld of it (first: point %d) should form a cluster", v.size(), p, q - 1, v[(size_t) p]); return; } }
	}
	cnt("large_splits_exact", splits); cnt("groups_with_ties", tied); if (splits) { Opt o; o.k = k; o.batch = ba + 2 * (uint32_t) om; sig(bh(o)); }
	if (want_sample()) sample("line n=%d size=%u batch_assign=%d existing=%d: %lld splits as prescribed, %lld clusters", n, k, (int) ba, (int) ex, splits, r.m);
}
// Objects with many points (C18).
MODE(c18big) {
	const int cc = (int) g.in(0, 6); const int n = cc == 0 ? 65535 : cc == 1 ? 65536 : cc == 2 ? 65537 : cc == 3 ? (int) g.in(2000, 66000) : (int) g.in(65000, 600000); const ll m = g.pick(std::vector<ll>{ 1, 255, 256, 65535, 65536, 65537, (ll) n, (ll) n / 3, 3 }); const int sh = (int) g.in(0, 2);
	desc_reset(); desc("objects of %d points, %lld clusters\n", n, m); std::vector<ll> lab((size_t) n); for (int i = 0; i < n; ++i) lab[(size_t) i] = g.chance(3) ? -1 : sh == 0 ? i % m : sh == 1 ? g.in(0, m - 1) : (ll) ((double) i * (double) m / n);
	auto same = [&](scc_Clustering* c, const std::vector<ll>& want, const char* what) {
		uint64_t a = 0, b = 0; if (scc_get_clustering_info(c, &a, &b) != SCC_ER_OK || a != (uint64_t) n || b != (uint64_t) m) { viol("obj-info", "%s: %llu points, %llu clusters, expected %d and %lld", what, (unsigned long long) a, (unsigned long long) b, n, m); return false; }
		for (size_t len : { (size_t) n, (size_t) n + (size_t) g.in(1, 70000), (size_t) g.in(1, n) }) {
			scc_Clabel* o = (scc_Clabel*) malloc(sizeof(scc_Clabel) * len); memset(o, 0x5a, sizeof(scc_Clabel) * len); int ec = scc_get_cluster_labels(c, len, o); bool ok = ec == SCC_ER_OK; if (!ok) viol("obj-labels-code", "%s: %s", what, ec_name(ec));
			for (size_t i = 0; ok && i < len; ++i) { ll w = i < (size_t) n ? want[i] : -1; if (o[i] != to_clabel(w)) { viol("obj-labels", "%s: label %zu of a buffer of %zu is %lld, expected %lld", what, i, len, from_clabel(o[i]), w); ok = false; } }
			free(o); if (!ok) return false; cnt("large_label_buffers"); }
		cnt("large_objects_compared"); return true; };
	vh_track(1); const int64_t base = vh_live(); bool ok = true; scc_Clustering* c[4] = { nullptr, nullptr, nullptr, nullptr };
	scc_Clabel* e = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) e[i] = to_clabel(lab[(size_t) i]);
	if (scc_init_existing_clustering((uint64_t) n, (uint64_t) m, e, true, &c[0]) || scc_init_existing_clustering((uint64_t) n, (uint64_t) m, e, false, &c[1]) || scc_copy_clustering(c[0], &c[2]) || scc_copy_clustering(c[1], &c[3])) { viol("obj-code", "creating or copying objects of %d points failed", n); ok = false; }
	const char* nm[4] = { "deep", "non-deep", "copy of deep", "copy of non-deep" };
	for (int q = 0; ok && q < 4; ++q) ok = same(c[q], lab, nm[q]);
	if (ok) { // the array in place is changed, the others keep their labels
		std::vector<ll> now = lab; for (int t = 0; t < 200; ++t) { size_t i = (size_t) (t == 0 ? n - 1 : t == 1 ? 0 : g.in(0, n - 1)); now[i] = g.in(-1, m - 1); e[i] = to_clabel(now[i]); }
		for (int q = 0; ok && q < 4; ++q) ok = same(c[q], q == 1 ? now : lab, nm[q]);
		for (int i = 0; ok && i < n; ++i) if (e[i] != to_clabel(now[(size_t) i])) { viol("obj-external", "external label %d changed", i); ok = false; }
		scc_free_clustering(&c[0]); for (int q = 2; ok && q < 4; ++q) ok = same(c[q], lab, nm[q]); }
	for (int q = 0; q < 4; ++q) { scc_free_clustering(&c[q]); if (c[q]) viol("obj-free-null", "handle left non-NULL"); } free(e);
	if (ok && vh_live() != base) viol("leak", "%lld library blocks still allocated", (ll) (vh_live() - base)); if (vh_bad_frees()) viol("bad-free", "the library freed %lld blocks it did not allocate", (ll) vh_bad_frees()); vh_track(0);
	sig(hashv(lab) ^ (uint64_t) m); if (want_sample()) sample("objects of %d points, %lld clusters: deep, non-deep and copies compared with all labels", n, m);
}
MODE(c16big) {
	Line l; gen_line(g, l); Use u(l); const int n = l.n; ll m = std::min<ll>(n, g.pick(std::vector<ll>{ 65535, 65536, 65537, n / 2, n / 2, n, 40000 })); if (m < n / 3000 + 1) m = n / 3000 + 1;
	std::vector<ll> lab((size_t) n); int shape = (int) g.in(0, 2); for (int i = 0; i < n; ++i) lab[(size_t) i] = g.chance(4) ? -1 : shape == 0 ? i % m : shape == 1 ? (ll) i * m / n : g.in(0, m - 1); desc("statistics of %lld clusters\n", m);
	if (g.chance(30)) { int big = (int) std::min<ll>(n, l.builtin ? 4500 : 1500); for (int i = 0; i < big; ++i) lab[(size_t) i] = m - 1; // ... whose farthest pair is a chosen one
		if (g.chance(60) && big > 3) { auto lo = std::min_element(l.x.begin(), l.x.begin() + big), hi = std::max_element(l.x.begin(), l.x.begin() + big); int a = g.chance(50) ? big - 2 : g.chance(50) ? 0 : (int) g.in(0, big - 2); if (!l.builtin && lo != hi) { std::swap(*lo, l.x[(size_t) a]); hi = std::max_element(l.x.begin(), l.x.begin() + big); std::swap(*hi, l.x[(size_t) big - 1]); } } }
	scc_Clabel* e = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) e[i] = to_clabel(lab[(size_t) i]); scc_Clustering* c = nullptr; scc_init_existing_clustering((uint64_t) n, (uint64_t) m, e, false, &c); scc_ClusteringStats s; int ec = scc_get_clustering_stats(TK, c, &s); scc_free_clustering(&c); free(e);
	if (ec) { viol("stats-code", "%s", ec_name(ec)); return; }
	std::vector<std::vector<double>> C((size_t) m); uint64_t as = 0, pop = 0, mn = UINT64_MAX, mx = 0; for (int i = 0; i < n; ++i) if (lab[(size_t) i] >= 0) { C[(size_t) lab[(size_t) i]].push_back(l.x[(size_t) i]); ++as; }
	long double sum = 0, mind = DBL_MAX, maxd = 0, amin = 0, amax = 0, aw = 0, au = 0;
	for (auto& v : C) { if (v.empty()) continue; ++pop; mn = std::min<uint64_t>(mn, v.size()); mx = std::max<uint64_t>(mx, v.size()); if (v.size() == 1) { mind = 0; continue; } std::sort(v.begin(), v.end()); long double cs = 0, c0 = DBL_MAX; for (size_t a = 0; a < v.size(); ++a) { cs += (long double) v[a] * (2.0L * (long double) a - (long double) v.size() + 1); if (a) c0 = std::min<long double>(c0, v[a] - v[a - 1]); } long double c1 = v.back() - v.front(), np = (long double) v.size() * (long double) (v.size() - 1) / 2; sum += cs; mind = std::min(mind, c0); maxd = std::max(maxd, c1); amin += c0; amax += c1; aw += (long double) v.size() * cs / np; au += cs / np; }
	auto nr = [](double a, long double b) { return std::fabs(a - (double) b) <= 1e-9 * std::max(std::fabs(a), std::fabs((double) b)); };
	#define Q(f, e) if ((uint64_t) s.f != (uint64_t) (e)) viol("stats-" #f, "%s is %llu, expected %llu", #f, (unsigned long long) s.f, (unsigned long long) (e));
	#define QD(f, e) if (!nr(s.f, (e))) viol("stats-" #f, "%s is %.17g, expected %.17g", #f, s.f, (double) (e));
	Q(num_data_points, n) Q(num_assigned, as) Q(num_clusters, m) Q(num_populated_clusters, pop) Q(min_cluster_size, mn) Q(max_cluster_size, mx)
	QD(avg_cluster_size, (long double) as / pop) QD(sum_dists, sum) QD(min_dist, mind) QD(max_dist, maxd) QD(avg_min_dist, amin / pop) QD(avg_max_dist, amax / pop) QD(avg_dist_weighted, aw / as) QD(avg_dist_unweighted, au / pop)
	cnt("large_statistics"); Opt o; o.k = (uint32_t) m; o.batch = (uint32_t) shape; sig(bh(o)); if (want_sample()) sample("line n=%d: statistics of %lld clusters", n, m);
}
MODE(c17big) {
	Line l; gen_line(g, l); const int n = l.n; uint32_t k = (uint32_t) g.pick(std::vector<ll>{ 2, 3, 300, 65536, 66000 }); if ((int) k > n) k = 2; ll m = std::max<ll>(1, n / (ll) k); Opt o; o.k = k; Use u(l); desc("check size=%u clusters=%lld\n", k, m);
	std::vector<ll> lab((size_t) n); for (int i = 0; i < n; ++i) lab[(size_t) i] = i % m; // every cluster has at least k
	bool types = g.chance(40); if (types) { o.num_types = 2; o.tl.resize((size_t) n); for (int i = 0; i < n; ++i) o.tl[(size_t) i] = (int) ((i / m) % 2); std::vector<ll> a((size_t) m, 0), b((size_t) m, 0); for (int i = 0; i < n; ++i) (o.tl[(size_t) i] ? b : a)[(size_t) lab[(size_t) i]]++; o.tc = { (uint32_t) *std::min_element(a.begin(), a.end()), (uint32_t) *std::min_element(b.begin(), b.end()) }; if (o.sumtc() > k) o.k = o.sumtc(); }
	if (o.k > (uint32_t) n) return;
	if (g.chance(30)) { o.has_primary = true; for (int i = 0; i < n; ++i) if (i % 3) o.prim.push_back(i); }
	int mut = (int) g.in(0, 5); int v = (int) g.in(0, n - 1); if (g.chance(40)) v = n - 1; if (mut == 1) lab[(size_t) v] = -1; else if (mut == 2) lab[(size_t) v] = m; else if (mut == 3) lab[(size_t) v] = (lab[(size_t) v] + 1) % m; else if (mut == 4) { ll q = m - 1; for (auto& x : lab) if (x == q) x = 0; if (m == 1) return; } else if (mut == 5 && types) o.tl[(size_t) v] ^= 1;
	bool want = true; std::vector<ll> sz((size_t) m, 0), t0((size_t) m, 0), t1((size_t) m, 0); for (int i = 0; i < n; ++i) { ll x = lab[(size_t) i]; if (x >= m) want = false; else if (x >= 0) { ++sz[(size_t) x]; if (types) (o.tl[(size_t) i] ? t1 : t0)[(size_t) x]++; } else if (o.has_primary && is_primary(o, i)) want = false; }
	for (ll q = 0; q < m; ++q) { if (sz[(size_t) q] < (ll) o.k) want = false; if (types && (t0[(size_t) q] < (ll) o.tc[0] || t1[(size_t) q] < (ll) o.tc[1])) want = false; }
	scc_Clabel* e = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) e[i] = to_clabel(lab[(size_t) i]); scc_Clustering* c = nullptr; scc_init_existing_clustering((uint64_t) n, (uint64_t) m, e, false, &c); OptC oc(o, n); bool got = !want; int ec = scc_check_clustering(c, &oc.o, &got); scc_free_clustering(&c); free(e);
	if (ec) viol("check-code", "%s", ec_name(ec)); else if (got != want) viol("check-verdict", "verdict %d, expected %d (mutation %d at point %d)", (int) got, (int) want, mut, v);
	cntf(1, "large_verdict_%d", (int) want); o.batch = (uint32_t) (mut * 1000003 + v); sig(bh(o)); if (want_sample()) sample("n=%d size=%u clusters=%lld mutation %d: verdict %d", n, o.k, m, mut, (int) got);
}
MODE(c23big) {
	Line l; gen_line(g, l, 4500); Use u(l); Opt o; do gen_bopt(g, o, false); while (o.method != SCC_SM_BATCHES); if (o.k > 300) o.k = 3; o.batch = 0; Res a = big_sc(o); if (!expect_ok(a, o)) return;
	for (uint32_t b : { (uint32_t) g.in(50, 3000), 65535u, 65536u, (uint32_t) l.n, (uint32_t) l.n - 1, UINT32_MAX }) { Opt q = o; q.batch = b; Res r = big_sc(q); if (!r.same(a)) { viol("batch-size", "batch size %u changes the clustering (%s, %lld clusters; unlimited: %lld)", b, ec_name(r.ec), r.m, a.m); return; } cnt("batch_sizes"); }
	if (o.pum == SCC_UM_IGNORE) { Opt q = o; q.method = SCC_SM_LEXICAL; q.pr = SCC_RM_NO_RADIUS; Res r = big_sc(q); if (l.tiefree && !r.same(a)) { viol("batch-lexical", "batches and lexical differ on tie-free data"); return; } }
	sig(bh(o)); if (want_sample()) sample("line n=%d size=%u: six batch sizes agree, %lld clusters", l.n, o.k, a.m);
}

// memory and work held at a time (C26)
MODE(c26) {
	Line l; l.n = (int) (g.chance(70) ? g.in(500, 6000) : g.in(6000, 30000)); const int n = l.n; l.x.resize((size_t) n); int sh = (int) g.in(0, 2); for (int i = 0; i < n; ++i) l.x[(size_t) i] = sh == 0 ? (double) g.in(0, 1000000000) : sh == 1 ? (double) g.in(0, n) : (double) i; Use u(l);
	desc_reset(); desc("line of %d points, shape %d\n", n, sh); int what = (int) g.in(0, 9); const size_t word = sizeof(scc_PointIndex) + sizeof(scc_Clabel) + 8;
	scc_Clustering* c = nullptr; size_t peak = 0, bound = 0; char nm[200]; Opt o; max_q = 0; double unit = 0;
	vh_track(1);
	if (what < 6) {
		bool batch = what < 3; o.k = (uint32_t) (g.chance(60) ? g.in(2, 8) : g.in(9, std::min(n, 60))); o.method = batch ? SCC_SM_BATCHES : (int) g.pick(vi{ SCC_SM_LEXICAL, SCC_SM_INWARDS_ORDER, SCC_SM_INWARDS_UPDATING }); o.pum = (int) g.in(0, batch ? 1 : 3); o.sum = batch ? SCC_UM_IGNORE : (int) g.pick(vi{ 0, 2, 3 }); if (!batch) { o.pr = (int) g.pick(vi{ 0, 3 }); o.scr = (int) g.pick(vi{ 0, 3 }); }
		if (batch) o.batch = (uint32_t) (g.chance(15) ? 0 : g.chance(50) ? g.in(1, 50) : g.in(1, n));
		if (g.chance(30)) { o.has_primary = true; for (int i = 0; i < n; ++i) if (i % 4) o.prim.push_back(i); }
		if (!batch && g.chance(35)) { o.num_types = (uint32_t) g.in(2, 6); o.tl.resize((size_t) n); for (auto& t : o.tl) t = (int) g.in(0, (ll) o.num_types - 1); o.tc.assign(o.num_types, 0); for (ll b = g.in(1, o.k); b > 0; --b) ++o.tc[(size_t) g.in(0, (ll) o.num_types - 1)]; }
		desc("options size=%u %s primary=%s secondary=%s batch=%u types=%u primary points %zu\n", o.k, sm_name(o.method), um_name(o.pum), um_name(o.sum), o.batch, o.num_types, o.prim.size());
		OptC oc(o, n); scc_init_empty_clustering((uint64_t) n, nullptr, &c); vh_reset_count(); int ec = scc_sc_clustering(TK, &oc.o, c); peak = vh_peak_bytes(); if (ec != SCC_ER_OK && !(ec == SCC_ER_NO_SOLUTION && (o.pr == 3 || o.scr == 3))) viol("large-code", "%s", ec_name(ec));
		size_t q = batch && o.batch && (int) o.batch < n ? o.batch : (size_t) n;
		// per point: label, marks, sorting; per searched point: its neighbours
		unit = batch ? (double) ((size_t) n * 16 + q * (o.k + 1) * sizeof(scc_PointIndex)) : (double) (2 * (size_t) n * word + (o.num_types ? 3 : 1) * 2 * q * o.k * sizeof(scc_PointIndex)); bound = (size_t) (2 * unit) + 16384;
		if (batch && max_q > q) viol("batch-limit", "a search was asked for %zu points at a time, batch_size is %u", max_q, o.batch);
		snprintf(nm, sizeof nm, "sc_clustering %s size %u batch %u types %u", sm_name(o.method), o.k, o.batch, o.num_types); cnt(batch ? "batch_calls" : "sc_calls"); if (batch && q < (size_t) n) cnt("bounded_batches");
	} else if (what < 8) {
		uint32_t k = (uint32_t) g.in(2, g.chance(70) ? 20 : n); bool ba = g.chance(50), ex = g.chance(40); if (!ex && k < 20 && n > 8000) k = 20; scc_Clabel* e = nullptr; ll m = 0;
		if (ex) { m = g.in(1, n); e = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) e[i] = to_clabel((ll) i % m); scc_init_existing_clustering((uint64_t) n, (uint64_t) m, e, true, &c); free(e); } else scc_init_empty_clustering((uint64_t) n, nullptr, &c);
		desc("hierarchical size=%u batch_assign=%d clusters=%lld\n", k, (int) ba, m);
		vh_reset_count(); int ec = scc_hierarchical_clustering(TK, k, ba, c); peak = vh_peak_bytes(); if (ec) viol("large-code", "%s", ec_name(ec));
		unit = (double) ((size_t) n * (2 * word + 8 + 2 * 24 + 16) + (size_t) m * 24 + (size_t) k * 8); bound = (size_t) (2 * unit) + 65536; snprintf(nm, sizeof nm, "hierarchical_clustering size %u, %lld old clusters", k, m); cnt("hierarchical_calls"); o.k = k; o.batch = (uint32_t) m;
	} else {
		ll per = g.in(1, 100), m = std::max<ll>(1, n / per); std::vector<ll> sz((size_t) m, 0); scc_Clabel* e = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) { e[i] = to_clabel((ll) i % m); ++sz[(size_t) (i % m)]; } scc_init_existing_clustering((uint64_t) n, (uint64_t) m, e, true, &c); free(e); ll big = *std::max_element(sz.begin(), sz.end());
		desc("statistics of %lld clusters, largest %lld\n", m, big); scc_ClusteringStats s; vh_reset_count(); int ec = what == 8 ? scc_get_clustering_stats(TK, c, &s) : 0; bool ok; o.k = 2;
		if (what == 9) { OptC oc(o, n); ec = scc_check_clustering(c, &oc.o, &ok); } peak = vh_peak_bytes(); if (ec) viol("large-code", "%s", ec_name(ec));
		unit = (double) ((size_t) n * (2 * word) + (size_t) m * 32 + (what == 8 ? (size_t) (big * big) * 4 : 0)); bound = (size_t) (2 * unit) + 65536; snprintf(nm, sizeof nm, "%s of %lld clusters, largest %lld", what == 8 ? "get_clustering_stats" : "check_clustering", m, big); cnt("utility_calls"); o.batch = (uint32_t) m;
	}
	scc_free_clustering(&c); vh_track(0);
	if (peak > bound) viol("memory", "%s over %d points held %zu bytes at a time, bound %zu", nm, n, peak, bound);
	ll pc = (ll) (100.0 * (double) peak / (double) bound); cntf(1, "peak_%s_%lld0_percent_of_bound", what < 3 ? "batch" : what < 6 ? "sc" : what < 8 ? "hier" : "util", pc / 10);
	sig(bh(o)); if (want_sample()) sample("%s, n=%d: peak %zu bytes, bound %zu", nm, n, peak, bound);
}

// the same large problems on every type configuration (C20)
MODE(c20big) {
	Line l; gen_line(g, l); Use u(l); Opt o; bool types = g.chance(35); gen_bopt(g, o, types); if (o.num_types > 300) { o.num_types = 0; o.tl.clear(); o.tc.clear(); } Res r = big_sc(o); if (!expect_ok(r, o)) r.m = 0;
	const int n = l.n; uint32_t k = (uint32_t) g.pick(std::vector<ll>{ 2, 5, 100, 40000 }); k = std::min(k, (uint32_t) n); bool ba = g.chance(50); scc_Clustering* c = nullptr; ll om = g.pick(std::vector<ll>{ 1, 300, (ll) n / 3 }); om = std::max<ll>(1, om);
	scc_Clabel* e = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) e[i] = to_clabel(g.chance(5) ? -1 : (ll) i * om / n); scc_init_existing_clustering((uint64_t) n, (uint64_t) om, e, true, &c); free(e); int ec = scc_hierarchical_clustering(TK, k, ba, c); Res x; if (!ec) x = fetch(c, n); x.ec = ec; scc_free_clustering(&c);
	if (ec) viol("hier-code", "%s", ec_name(ec));
	uint64_t h = hashv(x.lab, hashv(r.lab)) ^ (uint64_t) r.m * 31 ^ (uint64_t) r.ec * 77 ^ (uint64_t) x.m * 131;
	printf("H %lld %016llx sc=%s/%lld hc=%s/%lld\n", idx, (unsigned long long) h, ec_name(r.ec), r.m, ec_name(x.ec), x.m); if (r.m >= 2) sig(bh(o));
	cnt("large_outcomes"); if (want_sample()) sample("line n=%d size=%u types=%u: %lld clusters, hierarchical %lld; compared over all type configurations", n, o.k, o.num_types, r.m, x.m);
}

// how much is asked of the plug-in in large problems (C28)
MODE(c28big) {
	Line l; gen_line(g, l); if (l.n > 100000) { l.n = 70000; l.x.resize(70000); } l.builtin = false;
	if (g.chance(40)) { l.n = (int) g.in(2500, 24000); if ((size_t) l.n < l.x.size()) l.x.resize((size_t) l.n); else l.n = (int) l.x.size(); }
	Use u(l); const int n = l.n; WK.reset(n);
	if (g.chance(70)) {
		Opt o; gen_bopt(g, o, g.chance(30)); if (o.method != SCC_SM_BATCHES && g.chance(40)) { o.pr = SCC_RM_USE_ESTIMATED; o.scr = SCC_RM_USE_ESTIMATED; if (!o.typed() && o.k < 20) o.k = (uint32_t) g.in(2, 9); desc("size %u, estimated radii\n", o.k); } const bool batches = o.method == SCC_SM_BATCHES; Res core, prim; if (!batches) { core = big_sc(cores_only(o)); Opt o1 = o; o1.sum = SCC_UM_IGNORE; prim = big_sc(o1); }
		scc_Clabel* lb = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) lb[i] = SCC_CLABEL_NA; WK.reset(n); if (batches) WK.watch = lb;
		scc_Clustering* c = nullptr; scc_init_empty_clustering((uint64_t) n, lb, &c); OptC oc(o, n); const int ec = scc_sc_clustering(TK, &oc.o, c); WK.watch = nullptr; scc_free_clustering(&c); free(lb);
		int phases = 1; if (o.typed()) { phases = o.k > o.sumtc(); for (auto t : o.tc) phases += t > 0; }
		const bool est = (o.pum != SCC_UM_IGNORE && o.pr == SCC_RM_USE_ESTIMATED) || (o.sum != SCC_UM_IGNORE && o.scr == SCC_RM_USE_ESTIMATED), pcl = o.pum == SCC_UM_CLOSEST_ASSIGNED || o.pum == SCC_UM_CLOSEST_SEED; const ll seeds = core.ec == SCC_ER_OK ? std::min<ll>(core.m, 2000) : 0;
		if (WK.kmax > o.k) viol("too-many-neighbours", "%u neighbours asked for, size constraint %u", WK.kmax, o.k);
		if (WK.pairs || WK.mxobj) viol("foreign-search", "%lld distance-matrix pairs, %lld farthest-point searches", WK.pairs, WK.mxobj);
		if (WK.rows > (est ? seeds : 0) || WK.cells > (est ? seeds : 0) * (ll) o.k) viol("distance-rows", "%lld rows of %lld distances with %lld seeds", WK.rows, WK.cells, core.m);
		if (WK.again >= 0) viol("searched-again", "point %d is searched for although it already belongs to a cluster", WK.again);
		if (WK.nnobj > (batches ? 1 : phases + pcl + (o.sum != SCC_UM_IGNORE))) viol("search-objects", "%lld nearest-neighbour search objects", WK.nnobj);
		std::vector<char> isp((size_t) n, 1); if (o.has_primary) { isp.assign((size_t) n, 0); for (int v : o.prim) isp[(size_t) v] = 1; }
		for (size_t v = 0; v < (size_t) n; ++v) { int lim = isp[v] ? batches ? 1 : phases : 0; if (!batches && !(core.ec == SCC_ER_OK && core.lab[v] >= 0)) { if (isp[v] && pcl) ++lim; if (o.sum != SCC_UM_IGNORE && !(prim.ec == SCC_ER_OK && prim.lab[v] >= 0)) ++lim; }
			if (WK.nnq[v] > lim) { viol("searched-too-often", "point %zu searched for %d times, at most %d needed", v, WK.nnq[v], lim); break; } }
		cnt("points_searched_for", WK.nn); cnt("distance_rows", WK.rows); cntf(1, "method_%s", sm_name(o.method)); if (ec == SCC_ER_OK) sig(bh(o)); if (want_sample()) sample("line n=%d size=%u %s: %lld searches of points, %lld distance rows, %lld seeds", n, o.k, sm_name(o.method), WK.nn, WK.rows, core.m);
	} else {
		const uint32_t k = (uint32_t) std::min<ll>(n, g.pick(std::vector<ll>{ 5, 50, 100, 1000, 20000 })); const bool ba = g.chance(50); ll om = std::max<ll>(1, g.pick(std::vector<ll>{ 1, 40, 300, (ll) n / 150, (ll) n / 3 })); if (k < 50) om = std::max<ll>(om, 40); desc("hierarchical size=%u batch=%d clusters=%lld\n", k, (int) ba, om);
		scc_Clabel* e = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) e[i] = to_clabel((ll) i * om / n); scc_Clustering* c = nullptr; scc_init_existing_clustering((uint64_t) n, (uint64_t) om, e, true, &c); free(e); ll start = 0; { std::vector<char> us((size_t) om, 0); for (int i = 0; i < n; ++i) us[(size_t) ((ll) i * om / n)] = 1; for (char q : us) start += q; }
		WK.reset(n); const int ec = scc_hierarchical_clustering(TK, k, ba, c); Res r; if (!ec) r = fetch(c, n); else viol("hier-code", "%s", ec_name(ec)); const ll splits = r.m - start;
		if (WK.nn || WK.nnobj || WK.pairs) viol("foreign-search", "nearest-neighbour or matrix searches in hierarchical clustering");
		if (WK.mxobj > splits || WK.rows > 2 * splits || WK.cells > 2 * WK.mxsize) viol("farthest-searches", "%lld farthest-point searches, %lld rows with %lld distances for %lld splits", WK.mxobj, WK.rows, WK.cells, splits);
		if (WK.first > 100 || WK.per > 102) viol("starting-points", "a split starts from %zu points and asks for the farthest point %zu times; a line has two ends", WK.first, WK.per);
		ll want = 0; std::vector<ll> sz((size_t) std::max<ll>(r.m, 1), 0); for (ll v : r.lab) if (v >= 0) want += sz[(size_t) v]++;
		cnt("splits", splits); cnt("farthest_queries", WK.mxq); cnt("hierarchical"); if (splits > 0) { Opt o; o.k = k; o.batch = (uint32_t) om; sig(bh(o)); }
		if (want < 30000000) { WK.reset(n); scc_ClusteringStats s; if (scc_get_clustering_stats(TK, c, &s) == SCC_ER_OK && (WK.pairs > want || WK.rows || WK.nn || WK.mxobj)) viol("statistics-pairs", "%lld pairs asked for, %lld within clusters", WK.pairs, want); cnt("statistics"); }
		scc_free_clustering(&c);
	}
	WK = Work(); if (open_objs) viol("spi-unclosed", "%lld search objects left open", open_objs);
}
} // namespace
