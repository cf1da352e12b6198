// Hierarchical clustering (C07).
#include "core.hpp"
namespace {

static const char* old_new(int n, uint32_t k, const std::vector<ll>& old, ll om, const Res& r, char* buf, size_t bl) {
	ll nold = 0; for (ll l : old) nold += l >= 0;
	if (r.m < (nold > 0 ? 1 : 0)) return "no clusters";
	if (r.m == 0) return ""; // nothing was assigned before
	std::vector<ll> size((size_t) r.m, 0), osize((size_t) om, 0), from((size_t) r.m, -1);
	for (int i = 0; i < n; ++i) {
		if (old[i] >= 0) ++osize[(size_t) old[i]];
		if ((old[i] < 0) != (r.lab[i] < 0)) { snprintf(buf, bl, "point %d was %sassigned and is %sassigned now", i, old[i] < 0 ? "un" : "", r.lab[i] < 0 ? "un" : ""); return buf; }
		if (r.lab[i] < 0) continue;
		if (r.lab[i] >= r.m) { snprintf(buf, bl, "label %lld of point %d is not one of %lld clusters", r.lab[i], i, r.m); return buf; }
		size_t c = (size_t) r.lab[i]; ++size[c];
		if (from[c] < 0) from[c] = old[i]; else if (from[c] != old[i]) { snprintf(buf, bl, "cluster %zu mixes old clusters %lld and %lld", c, from[c], old[i]); return buf; }
	}
	std::vector<ll> parts((size_t) om, 0);
	for (size_t c = 0; c < size.size(); ++c) {
		if (size[c] == 0) { snprintf(buf, bl, "label %zu of %lld is unused", c, r.m); return buf; }
		++parts[(size_t) from[c]]; ll os = osize[(size_t) from[c]];
		if (os >= 2 * (ll) k && (size[c] < (ll) k || size[c] > 2 * (ll) k - 1)) { snprintf(buf, bl, "cluster %zu has %lld points, bounds %u..%u", c, size[c], k, 2 * k - 1); return buf; }
	}
	for (size_t c = 0; c < parts.size(); ++c) if (osize[c] > 0 && osize[c] < 2 * (ll) k && parts[c] != 1) { snprintf(buf, bl, "old cluster %zu of %lld points was split", c, osize[c]); return buf; }
	return "";
}
MODE(c07) {
	Prob p; char b[300];
	bool large = idx % 250 == 249;
	int f = GEN_NOKEYS; int c = (int) g.in(0, 99);
	bool chain = idx % 250 == 124;
	if (chain) gen_chain(g, p, (int) g.in(200, 800));
	else if (large) { p.n = (int) g.in(3000, 9000); p.dim = (int) g.in(1, 2); p.kind = "large"; p.X.resize((size_t) p.n * p.dim); ll hi = g.pick(std::vector<ll>{ 3, 50, 100000 }); for (auto& v : p.X) v = (double) g.in(0, hi); }
	else { if (c < 50) f |= GEN_SMALL; else if (c < 55) f |= GEN_EXTREME | GEN_NOCUSTOM; else f |= GEN_BIG; if (c >= 55 && c < 60) f |= GEN_NOCUSTOM; gen_prob(g, f, p); }
	uint32_t k; int kc = (int) g.in(0, 9); k = kc < 4 ? 2u : kc < 6 ? 3u : kc < 8 ? (uint32_t) g.in(2, std::max(2, p.n / 2)) : (uint32_t) g.in(2, std::max(2, p.n)); if ((int) k > p.n) k = (uint32_t) p.n;
	if (large) k = (uint32_t) g.in(2, 40);
	bool ba = g.chance(50);
	if (chain) { k = 2; ba = g.chance(20); }
	const int64_t re = vh_reallocs(); struct Grew { int64_t re; ~Grew() { if (vh_reallocs() > re) cnt("stack_grew"); } } grew{ re };
	describe(p, nullptr); desc("hierarchical size=%u batch_assign=%d\n", k, (int) ba);
	DS d(p);
	if (g.chance(chain ? 40 : 55)) {
		Res r = run_hc(d, p, k, ba, g.chance(40)); cnt("from_empty"); cntf(1, "data_%s", p.kind);
		if (r.ec != SCC_ER_OK) { viol("hier-code", "%d points, size %u: %s", p.n, k, ec_name(r.ec)); return; }
		std::vector<ll> old((size_t) p.n, 0);
		for (int i = 0; i < p.n; ++i) if (r.lab[i] < 0) { viol("hier-unassigned", "point %d is unassigned", i); return; }
		const char* w = old_new(p.n, k, old, 1, r, b, sizeof b); if (*w) { viol("hier-partition", "%s", w); return; }
		cnt("clusters", r.m); if (r.m >= 2) sig(prob_hash(p, nullptr) ^ k ^ (ba ? 0x55555 : 0));
		if (want_sample()) sample("%s n=%d size=%u batch_assign=%d -> %lld clusters, all within bounds", p.kind, p.n, k, (int) ba, r.m);
	} else {
		ll om = g.in(1, std::max<ll>(1, std::min<ll>(p.n, g.chance(50) ? 4 : 12))); std::vector<ll> old((size_t) p.n); int shape = (int) g.in(0, 4), na = g.chance(3) ? 100 : g.chance(15) ? 70 : 10;
		for (int i = 0; i < p.n; ++i) {
			if (shape == 0) old[i] = g.in(0, om - 1); else if (shape == 1) old[i] = (ll) i * om / p.n; else if (shape == 2) old[i] = g.chance(80) ? 0 : g.in(0, om - 1); else if (shape == 3) old[i] = g.chance(80) ? om - 1 : g.in(0, om - 1); else old[i] = i % om;
			if (shape != 1 && g.chance(na)) old[i] = -1;
		}
		std::vector<ll> cntv((size_t) om, 0); for (ll l : old) if (l >= 0) ++cntv[(size_t) l];
		ll need = 0; for (ll s : cntv) if (s == 0) ++need; if (need) cnt("with_empty_clusters"); if (need && g.chance(50)) { for (ll l = 0; l < om; ++l) if (cntv[(size_t) l] == 0) { for (int i = 0; i < p.n; ++i) if (old[i] < 0 || cntv[(size_t) old[i]] > 1) { if (old[i] >= 0) --cntv[(size_t) old[i]]; old[i] = l; ++cntv[(size_t) l]; break; } } }
		desc("existing clusters=%lld labels=", om); for (int i = 0; i < p.n && i < 200; ++i) desc("%lld,", old[i]); desc("\n");
		Res r = run_hc_existing(d, p, k, ba, old, om, g.chance(50)); cnt("from_existing");
		if (r.ec != SCC_ER_OK) { viol("hier-code", "refining %lld clusters of %d points, size %u: %s", om, p.n, k, ec_name(r.ec)); return; }
		const char* w = old_new(p.n, k, old, om, r, b, sizeof b); if (*w) { viol("hier-refinement", "%s", w); return; }
		if (r.m > om || (r.m > 1 && need)) { cnt("refined"); sig(prob_hash(p, nullptr) ^ hashv(old)); }
	}
	if (d.custom) spi_check("c07");
}

// ---------------------------------------------------------------- how groups are split (C25)
static bool all_distinct(const Prob& p) {
	std::vector<double> v; for (int i = 0; i < p.n; ++i) for (int j = 0; j < i; ++j) v.push_back(p.dist(i, j));
	std::sort(v.begin(), v.end()); for (size_t i = 1; i < v.size(); ++i) if (v[i] == v[i - 1]) return false; return v.empty() || v[0] > 0;
}
struct Split { // accepts a result if some legal sequence of splits leads to it (no two distances equal)
	const Prob& p; ll k; bool ba; const Res& r; std::vector<ll> csz; ll splits = 0, alternatives = 0; char why[300] = {0};
	Split(const Prob& p, ll k, bool ba, const Res& r) : p(p), k(k), ba(ba), r(r), csz((size_t) r.m, 0) { for (ll l : r.lab) if (l >= 0) ++csz[(size_t) l]; }
	bool accept(const vi& G) {
		if ((ll) G.size() < 2 * k) { ll l = r.lab[(size_t) G[0]]; bool ok = csz[(size_t) l] == (ll) G.size(); for (int x : G) ok = ok && r.lab[(size_t) x] == l; return ok; }
		const size_t S = G.size(); std::vector<size_t> far(S); std::vector<double> fd(S, -1);
		for (size_t i = 0; i < S; ++i) for (size_t j = 0; j < S; ++j) if (i != j && p.dist(G[i], G[j]) > fd[i]) { fd[i] = p.dist(G[i], G[j]); far[i] = j; }
		size_t cand = 0;
		for (size_t a = 0; a < S; ++a) { size_t b = far[a]; if (far[b] != a || b < a) continue;
			size_t lower = 0; for (size_t i = 0; i < S; ++i) lower += fd[i] <= fd[a]; if (lower < std::min<size_t>((S + 1) / 2, 100)) continue; // at least the points that were looked at
			++cand; vi A, B; split(G, a, b, A, B); ++splits; if (cand > 1) ++alternatives;
			if (!straddles(A, B) && accept(A) && accept(B)) return true; }
		if (!*why) snprintf(why, sizeof why, "a group of %zu points (first: %d) was not divided around any of its %zu pairs of mutually farthest points", S, G[0], cand);
		return false;
	}
	bool straddles(const vi& A, const vi& B) { std::vector<char> in((size_t) r.m, 0); for (int x : A) in[(size_t) r.lab[(size_t) x]] = 1; for (int x : B) if (in[(size_t) r.lab[(size_t) x]]) return true; return false; }
	void split(const vi& G, size_t ia, size_t ib, vi& A, vi& B) {
		int c[2] = { G[ia], G[ib] }; std::vector<char> used(G.size(), 0); used[ia] = used[ib] = 1; vi* out[2] = { &A, &B }; A.push_back(c[0]); B.push_back(c[1]);
		auto nearest = [&](int q, size_t cntw) { std::vector<std::pair<double, size_t>> v; for (size_t i = 0; i < G.size(); ++i) if (!used[i]) v.push_back({ p.dist(c[q], G[i]), i }); std::sort(v.begin(), v.end()); v.resize(std::min(v.size(), cntw)); return v; };
		auto take = [&](int q, const std::vector<std::pair<double, size_t>>& v) { for (auto& e : v) { used[e.second] = 1; out[q]->push_back(G[e.second]); } };
		auto n0 = nearest(0, (size_t) k - 1), n1 = nearest(1, (size_t) k - 1); int first = n0.back().first >= n1.back().first ? 0 : 1; take(first, first ? n1 : n0); take(1 - first, nearest(1 - first, (size_t) k - 1));
		for (size_t left = G.size() - 2 * (size_t) k; left > 0; ) { size_t b = ba ? std::min<size_t>(left, (size_t) k) : 1; auto m0 = nearest(0, b), m1 = nearest(1, b); int q = m0.back().first <= m1.back().first ? 0 : 1; take(q, q ? m1 : m0); left -= b; }
	}
};
// groups of [2k, 3k) points end as two clusters, whatever ties there are
static const char* two_parts(const Prob& p, ll k, bool ba, const vi& G, const Res& r, char* buf, size_t bl, bool* strict) {
	const size_t S = G.size(); vi A, B; ll la = r.lab[(size_t) G[0]]; for (int x : G) (r.lab[(size_t) x] == la ? A : B).push_back(x);
	if (B.empty() || (ll) A.size() < k || (ll) B.size() < k) return ""; // C07's business
	std::vector<double> fd(S, -1); auto fard = [&](int x) { double m = 0; for (int y : G) m = std::max(m, p.dist(x, y)); return m; };
	for (size_t i = 0; i < S; ++i) fd[i] = fard(G[i]);
	auto fdof = [&](int x) { for (size_t i = 0; i < S; ++i) if (G[i] == x) return fd[i]; return 0.0; };
	bool pairs = false;
	for (int a : A) for (int b : B) { double d = p.dist(a, b); if (fdof(a) != d || fdof(b) != d) continue;
		size_t lower = 0; for (double f : fd) lower += f <= d; if (lower < std::min<size_t>((S + 1) / 2, 100)) continue; pairs = true;
		auto kth = [&](int c) { std::vector<double> v; for (int x : G) if (x != a && x != b) v.push_back(p.dist(c, x)); std::sort(v.begin(), v.end()); return v[(size_t) k - 2]; };
		double ra = kth(a), rb = kth(b);
		for (int f = 0; f < 2; ++f) { if (f == 0 ? ra < rb : rb < ra) continue;
			int c1 = f ? b : a, c2 = f ? a : b; double r1 = f ? rb : ra; const vi& C1 = f ? B : A; const vi& C2 = f ? A : B; auto in1 = [&](int x) { return r.lab[(size_t) x] == r.lab[(size_t) c1]; };
			bool ok = true; ll close = 0, at = 0; for (int x : G) if (x != c1 && x != c2) { double q = p.dist(c1, x); if (q < r1 && !in1(x)) ok = false; if (q <= r1) { ++at; if (in1(x)) ++close; } }
			if (!ok || close < k - 1) continue;
			if (at > k - 1) { *strict = false; return ""; } // several sets of nearest points
			vi rest; for (int x : G) if (x != c1 && x != c2 && p.dist(c1, x) > r1) rest.push_back(x);
			std::vector<double> v; for (int x : rest) v.push_back(p.dist(c2, x)); std::sort(v.begin(), v.end()); double r2 = v[(size_t) k - 2]; ll close2 = 0, at2 = 0;
			for (int x : rest) { double q = p.dist(c2, x); if (q < r2 && in1(x)) ok = false; if (q <= r2) { ++at2; if (!in1(x)) ++close2; } }
			if (!ok || close2 < k - 1) continue;
			if (at2 > k - 1) { *strict = false; return ""; }
			vi last; for (int x : rest) if (p.dist(c2, x) > r2) last.push_back(x);
			if (last.empty()) return "";
			if (!ba) { for (int x : last) { double q1 = p.dist(c1, x), q2 = p.dist(c2, x); if (in1(x) ? q1 > q2 : q2 > q1) ok = false; } }
			else { double m1 = 0, m2 = 0; ll c = 0; for (int x : last) { m1 = std::max(m1, p.dist(c1, x)); m2 = std::max(m2, p.dist(c2, x)); c += in1(x); } if (c != 0 && c != (ll) last.size()) ok = false; else if (c ? m1 > m2 : m2 > m1) ok = false; }
			if (ok) return ""; }
	}
	snprintf(buf, bl, pairs ? "a group of %zu points (first: %d) is not divided into the nearest points of two mutually farthest points" : "a group of %zu points (first: %d) is not divided between two mutually farthest points", S, G[0]); return buf;
}
MODE(c25) {
	Prob p; char b[300]; int mode = (int) g.in(0, 2); // 0: free of ties, any depth; 1, 2: anything, groups that split once
	int f = mode == 0 ? GEN_TIEFREE : g.chance(70) ? GEN_EXACT : 0; int c = (int) g.in(0, 99); if (c < 50) f |= GEN_SMALL; else if (c < 60) f |= GEN_BIG;
	gen_prob(g, f, p); if (p.n < 4) return; if (mode == 0 && p.n > 260) return;
	uint32_t k = (uint32_t) g.in(2, std::max(2, p.n / 2)); if (mode == 0 && g.chance(60)) k = (uint32_t) g.in(2, std::min(5, p.n / 2)); bool ba = g.chance(50);
	std::vector<ll> old((size_t) p.n, 0); ll om = 1; bool ex = g.chance(50);
	if (mode != 0) { // groups of 2k .. 3k-1 points
		k = (uint32_t) g.in(2, std::max(2, std::min(p.n / 2, g.chance(70) ? 8 : p.n / 2)));
		vi perm((size_t) p.n); for (int i = 0; i < p.n; ++i) perm[(size_t) i] = i; if (g.chance(60)) g.shuffle(perm); std::fill(old.begin(), old.end(), -1); om = 0; size_t at = 0; ex = true;
		while (at + 2 * k <= perm.size()) { size_t s = (size_t) g.in(2 * (ll) k, 3 * (ll) k - 1); if (at + s > perm.size()) s = perm.size() - at; for (size_t i = 0; i < s; ++i) old[(size_t) perm[at++]] = om; ++om; if (g.chance(10)) break; }
		if (om == 0) return;
	} else if (ex) { om = g.in(1, 4); for (auto& l : old) l = g.chance(8) ? -1 : g.in(0, om - 1); }
	describe(p, nullptr); desc("hierarchical size=%u batch_assign=%d existing=%d clusters=%lld labels=", k, (int) ba, (int) ex, om); if (ex) for (int i = 0; i < p.n && i < 300; ++i) desc("%lld,", old[(size_t) i]); desc("\n");
	if (mode == 0 && !all_distinct(p)) { cnt("had_ties"); return; }
	DS d(p); Res r = ex ? run_hc_existing(d, p, k, ba, old, om, g.chance(50)) : run_hc(d, p, k, ba, g.chance(40));
	if (d.custom) spi_check("c25");
	if (r.ec != SCC_ER_OK) { viol("hier-code", "%s", ec_name(r.ec)); return; }
	std::vector<vi> G((size_t) om); for (int i = 0; i < p.n; ++i) { if ((old[(size_t) i] < 0) != (r.lab[(size_t) i] < 0) || r.lab[(size_t) i] >= r.m) { viol("hier-partition", "point %d: label %lld", i, r.lab[(size_t) i]); return; } if (old[(size_t) i] >= 0) G[(size_t) old[(size_t) i]].push_back(i); }
	bool some = false;
	for (auto& x : G) { if ((ll) x.size() < 2 * (ll) k) continue; some = true;
		if (mode == 0) { Split s(p, (ll) k, ba, r); bool ok = s.accept(x); cnt("tie_free_groups"); cnt("splits_followed", s.splits); cnt("alternative_pairs", s.alternatives); if (!ok) { viol("split", "%s", s.why[0] ? s.why : "no legal sequence of splits leads to this result"); return; } }
		else if ((ll) x.size() < 3 * (ll) k) { bool strict = true; const char* w = two_parts(p, (ll) k, ba, x, r, b, sizeof b, &strict); cnt(strict ? "groups_split_once" : "groups_with_ambiguous_ties"); if (*w) { viol("split", "%s", w); return; } } }
	if (some) { sig(prob_hash(p, nullptr) ^ k ^ hashv(old) ^ (ba ? 77 : 0)); cntf(1, "data_%s", p.kind); if (want_sample()) sample("%s n=%d size=%u batch_assign=%d: %zu groups, %lld clusters, every split around mutually farthest points", p.kind, p.n, k, (int) ba, G.size(), r.m); }
}
} // namespace
