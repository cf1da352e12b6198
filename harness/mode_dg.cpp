// Neighbour-graph operations against set definitions (C15).
#include "core.hpp"
namespace {

struct G { int n; std::vector<vi> a; };
// sorted vector as a set (the C++ library's trees are not instrumented under MSan)
struct VSet { vi v; void insert(int x) { auto i = std::lower_bound(v.begin(), v.end(), x); if (i == v.end() || *i != x) v.insert(i, x); } void erase(int x) { auto i = std::lower_bound(v.begin(), v.end(), x); if (i != v.end() && *i == x) v.erase(i); } vi::iterator begin() { return v.begin(); } vi::iterator end() { return v.end(); } };
static G rnd(Rng& g, int n, bool loops, int maxdeg, bool nonempty) {
	G r; r.n = n; r.a.resize(n); int empty = g.chance(30) ? (int) g.in(10, 95) : 0; int lp = loops ? (int) g.in(0, 100) : 0; int shape = (int) g.in(0, 3);
	for (int v = 0; v < n; ++v) {
		if (g.chance(empty)) continue;
		std::vector<char> u(n, 0); int d = (int) g.in(0, std::min(maxdeg, n)); if (g.chance(5)) d = n;
		if (g.chance(lp)) { u[v] = 1; r.a[v].push_back(v); }
		for (int t = 0; t < 3 * d && (int) r.a[v].size() < d; ++t) { int x = shape == 0 ? (int) g.in(0, n - 1) : shape == 1 ? (int) g.in(0, std::min(n - 1, 2)) : shape == 2 ? (v + (int) g.in(0, 3)) % n : n - 1 - (int) g.in(0, std::min(n - 1, 3)); if (!u[x] && (loops || x != v)) { u[x] = 1; r.a[v].push_back(x); } }
		g.shuffle(r.a[v]);
	}
	if (nonempty) { bool any = false; for (auto& x : r.a) any = any || !x.empty(); if (!any) r.a[(size_t) g.in(0, n - 1)].push_back((int) g.in(0, n - 1)); }
	return r;
}
struct SG { ShimGraph s; SG(const G& g) { s.n = (size_t) g.n; s.tail = (size_t*) malloc(sizeof(size_t) * (g.n + 1)); size_t m = 0; for (auto& v : g.a) m += v.size(); s.head = (long long*) malloc(sizeof(long long) * (m + 1)); m = 0; for (int v = 0; v < g.n; ++v) { s.tail[v] = m; for (int x : g.a[v]) s.head[m++] = x; } s.tail[g.n] = m; s.max_arcs = m; s.valid = true; }
	~SG() { free(s.tail); free(s.head); } SG(const SG&) = delete; };
static void dg(const char* w, const G& g) { desc("%s n=%d\n", w, g.n); if (g.n <= 40) for (int v = 0; v < g.n; ++v) if (!g.a[v].empty()) { desc(" %d:", v); for (int x : g.a[v]) desc(" %d", x); desc("\n"); } }
static bool conv(const char* op, const ShimGraph& s, int n, std::vector<vi>& out) {
	if (!s.valid || s.n != (size_t) n || s.tail[0] != 0) { viol("dg-invalid", "%s: result is not a valid digraph", op); return false; }
	out.assign(n, {}); for (int v = 0; v < n; ++v) { if (s.tail[v + 1] < s.tail[v]) { viol("dg-invalid", "%s: decreasing tail pointers", op); return false; } for (size_t i = s.tail[v]; i < s.tail[v + 1]; ++i) { if (s.head[i] < 0 || s.head[i] >= n) { viol("dg-invalid", "%s: head %lld out of range", op, s.head[i]); return false; } out[v].push_back((int) s.head[i]); } }
	if (s.tail[n] > s.max_arcs) { viol("dg-invalid", "%s: more arcs than storage", op); return false; }
	return true;
}
static void cmp(const char* op, const ShimGraph& s, int n, const std::vector<vi>& want, bool ordered) {
	std::vector<vi> got; if (!conv(op, s, n, got)) return;
	for (int v = 0; v < n; ++v) {
		vi a = got[v], b = want[v]; if (!ordered) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); }
		if (a != b) { char t[400]; int k = 0; for (int x : got[v]) if (k < 150) k += snprintf(t + k, sizeof t - (size_t) k, " %d", x); k += snprintf(t + k, sizeof t - (size_t) k, " ; expected"); for (int x : want[v]) if (k < 350) k += snprintf(t + k, sizeof t - (size_t) k, " %d", x); viol("dg-arcs", "%s: arcs of vertex %d are%s", op, v, t); return; }
	}
}
MODE(c15) {
	int n = g.chance(60) ? (int) g.in(1, 8) : g.chance(85) ? (int) g.in(5, 60) : (int) g.in(60, 400); int md = (int) g.in(1, 7);
	int op = (int) (idx % 5); static const char* nm[] = { "delete_loops", "union_and_delete", "difference", "transpose", "adjacency_product" };
	G a = rnd(g, n, true, md, op == 4), b = rnd(g, n, true, md, op == 4);
	std::vector<G> gs; vi keep; bool has_keep = false, loops = false, force = g.chance(50); uint32_t maxdeg = 1; std::vector<vi> want(n);
	desc_reset(); desc("%s\n", nm[op]); cntf(1, "op_%s", nm[op]);
	if (op == 0) { for (int v = 0; v < n; ++v) for (int x : a.a[v]) if (x != v) want[v].push_back(x); dg("a", a); }
	else if (op == 1) {
		int num = (int) g.in(1, 4); gs.push_back(a); for (int i = 1; i < num; ++i) gs.push_back(rnd(g, n, true, md, false));
		has_keep = g.chance(60); loops = g.chance(50); if (has_keep) { int pr = (int) g.in(0, 100); for (int v = 0; v < n; ++v) if (g.chance(pr)) keep.push_back(v); if (keep.empty()) keep.push_back((int) g.in(0, n - 1)); }
		for (int v = 0; v < n; ++v) { if (has_keep && !std::binary_search(keep.begin(), keep.end(), v)) continue; VSet s; for (auto& x : gs) for (int y : x.a[v]) if (loops || y != v) s.insert(y); want[v].assign(s.begin(), s.end()); }
		for (auto& x : gs) dg("in", x); desc("keep_loops=%d has_keep=%d keep=", (int) loops, (int) has_keep); for (int v : keep) desc("%d,", v);
	} else if (op == 2) {
		maxdeg = g.chance(20) ? UINT32_MAX : (uint32_t) g.in(1, 6); dg("minuend", a); dg("subtrahend", b); desc("max_out_degree=%u", maxdeg);
		for (int v = 0; v < n; ++v) for (int x : a.a[v]) if (want[v].size() < maxdeg && std::find(b.a[v].begin(), b.a[v].end(), x) == b.a[v].end()) want[v].push_back(x);
	} else if (op == 3) { dg("a", a); for (int v = 0; v < n; ++v) for (int x : a.a[v]) want[x].push_back(v); }
	else { dg("a", a); dg("b", b); desc("force_loops=%d", (int) force); for (int v = 0; v < n; ++v) { VSet s; if (force) for (int y : b.a[v]) s.insert(y); for (int x : a.a[v]) for (int y : b.a[x]) s.insert(y); s.erase(v); want[v].assign(s.begin(), s.end()); } }
	SG sa(a), sb(b); std::vector<SG*> sg; std::vector<ShimGraph> raw; for (auto& x : gs) { sg.push_back(new SG(x)); raw.push_back(sg.back()->s); }
	std::vector<long long> kp(keep.begin(), keep.end()); kp.push_back(0);
	auto run = [&](ShimGraph* out, bool* un) -> int { *un = true; switch (op) { case 0: return shim_delete_loops(&sa.s, out); case 1: return shim_union((int) raw.size(), raw.data(), has_keep, keep.size(), kp.data(), loops, out, un); case 2: return shim_difference(&sa.s, &sb.s, maxdeg, out, un); case 3: return shim_transpose(&sa.s, out, un); default: return shim_product(&sa.s, &sb.s, force, out, un); } };
	bool ordered = op == 0 || op == 2;
	vh_track(1); vh_fill(1, g.next()); vh_fail_at(-1, 0);
	ShimGraph out; bool un = true; vh_reset_count(); int ec = run(&out, &un); int64_t N = vh_count();
	if (ec != 0) viol("dg-code", "%s returned %d", nm[op], ec); else { cmp(nm[op], out, n, want, ordered); shim_free_graph(&out); }
	if (!un) viol("dg-input", "%s modified a const input", nm[op]);
	if (vh_live() != 0 || vh_bad_frees()) viol("dg-leak", "%s: %lld blocks left", nm[op], (ll) vh_live());
	if (op == 1 || op == 4) for (int64_t i = 0; i < N && !R.violations; ++i) { // memory pressure: the exact-count fallback
		vh_reset_count(); vh_fail_at(i, 0); int e = run(&out, &un); vh_fail_at(-1, 0);
		if (e == 0) { cmp(nm[op], out, n, want, ordered); cnt("recovered_from_failure"); shim_free_graph(&out); } else if (e != -1 && e != SCC_ER_NO_MEMORY) viol("dg-code", "%s returned %s when allocation %lld fails", nm[op], ec_name(e), (ll) i); else cnt("reported_failure");
		if (vh_live() != 0 || vh_bad_frees()) viol("dg-leak", "%s: allocation %lld fails: %lld blocks left", nm[op], (ll) i, (ll) vh_live());
		if (!un) viol("dg-input", "%s modified a const input", nm[op]);
	}
	// realistic memory pressure: large blocks fail
	if ((op == 1 || op == 4) && !R.violations) { size_t big = vh_max_request(); for (int t = 0; t < 3 && big > 64; ++t) { vh_limit(big * (size_t) g.in(20, 99) / 100); vh_reset_count(); int e = run(&out, &un); vh_limit(0); if (e == 0) { cmp(nm[op], out, n, want, ordered); cnt("pressure_ok"); shim_free_graph(&out); } if (vh_live() != 0) viol("dg-leak", "%s: leak under memory pressure", nm[op]); } }
	vh_track(0); vh_fill(0, 0);
	for (auto x : sg) delete x;
	uint64_t h = (uint64_t) op; for (auto& v : a.a) { h = hashv(v, h); h = hashb("|", 1, h); } for (auto& v : b.a) h = hashv(v, h); sig(h);
	cnt("graphs"); if (want_sample()) sample("%s on %d vertices equals its definition (%lld allocations failed in turn)", nm[op], n, (ll) N);
}
// graphs beyond 16-bit counts: many vertices, one vertex with very many in- or out-arcs
static G rnd_large(Rng& g, int n, int deg, int hub_in, int hub_out) { // hub_in: arcs from everywhere to one vertex; hub_out: one vertex points everywhere
	G r; r.n = n; r.a.resize((size_t) n); int shape = (int) g.in(0, 2), empty = g.chance(30) ? (int) g.in(5, 60) : 0, lp = (int) g.in(0, 100);
	int hi = g.chance(50) ? n - 1 : (int) g.in(0, n - 1), ho = g.chance(30) ? n - 1 : (int) g.in(0, n - 1);
	for (int v = 0; v < n; ++v) {
		vi& o = r.a[(size_t) v];
		if (hub_out && v == ho) { for (int x = 0; x < n; ++x) if (g.chance(hub_out)) o.push_back(x); continue; }
		if (!g.chance(empty)) {
			if (g.chance(lp)) o.push_back(v);
			int d = (int) g.in(0, deg);
			for (int t = 0; t < d; ++t) { int x = shape == 0 ? (int) g.in(0, n - 1) : shape == 1 ? (int) (((long long) v + g.in(0, 5)) % n) : n - 1 - v; if (std::find(o.begin(), o.end(), x) == o.end()) o.push_back(x); }
		}
		if (hub_in && g.chance(hub_in) && std::find(o.begin(), o.end(), hi) == o.end()) o.push_back(hi);
		g.shuffle(o);
	}
	return r;
}
MODE(c15big) {
	int n = g.chance(60) ? (int) g.in(65530, 66500) : (int) g.in(66500, 90000);
	int op = (int) (idx % 5); static const char* nm[] = { "delete_loops", "union_and_delete", "difference", "transpose", "adjacency_product" };
	int kind = (int) g.in(0, 2); // 0: neither, 1: a vertex most others point to, 2: a vertex that points to most others
	G a = rnd_large(g, n, 3, op != 4 && kind == 1 ? (int) g.in(97, 100) : 0, kind == 2 ? (int) g.in(97, 100) : 0), b = rnd_large(g, n, 2, kind == 1 ? 99 : 0, op != 4 && g.chance(50) ? 99 : 0);
	std::vector<G> gs; vi keep; bool has_keep = false, loops = false, force = g.chance(50); uint32_t maxdeg = 1; std::vector<vi> want((size_t) n);
	auto uniq = [](vi& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); };
	auto drop = [](vi& v, int x) { v.erase(std::remove(v.begin(), v.end(), x), v.end()); };
	desc_reset(); desc("%s on %d vertices, kind %d\n", nm[op], n, kind); cntf(1, "large_%s", nm[op]);
	if (op == 0) { for (int v = 0; v < n; ++v) { want[(size_t) v] = a.a[(size_t) v]; drop(want[(size_t) v], v); } }
	else if (op == 1) {
		gs.push_back(a); gs.push_back(b); has_keep = g.chance(50); loops = g.chance(50); if (has_keep) { int pr = (int) g.in(80, 100); for (int v = 0; v < n; ++v) if (g.chance(pr)) keep.push_back(v); if (keep.empty()) keep.push_back(0); }
		for (int v = 0; v < n; ++v) { if (has_keep && !std::binary_search(keep.begin(), keep.end(), v)) continue; vi& w = want[(size_t) v]; w = a.a[(size_t) v]; w.insert(w.end(), b.a[(size_t) v].begin(), b.a[(size_t) v].end()); uniq(w); if (!loops) drop(w, v); }
		desc("keep_loops=%d has_keep=%d", (int) loops, (int) has_keep);
	} else if (op == 2) {
		maxdeg = g.chance(50) ? UINT32_MAX : g.chance(50) ? (uint32_t) g.in(65530, 65545) : (uint32_t) g.in(1, 3); desc("max_out_degree=%u", maxdeg);
		for (int v = 0; v < n; ++v) { vi sub = b.a[(size_t) v]; std::sort(sub.begin(), sub.end()); for (int x : a.a[(size_t) v]) if (want[(size_t) v].size() < maxdeg && !std::binary_search(sub.begin(), sub.end(), x)) want[(size_t) v].push_back(x); }
	} else if (op == 3) { for (int v = 0; v < n; ++v) for (int x : a.a[(size_t) v]) want[(size_t) x].push_back(v); }
	else { desc("force_loops=%d", (int) force); for (int v = 0; v < n; ++v) { vi& w = want[(size_t) v]; if (force) w = b.a[(size_t) v]; for (int x : a.a[(size_t) v]) w.insert(w.end(), b.a[(size_t) x].begin(), b.a[(size_t) x].end()); uniq(w); drop(w, v); } }
	SG sa(a), sb(b); std::vector<ShimGraph> raw; if (op == 1) { raw.push_back(sa.s); raw.push_back(sb.s); }
	std::vector<long long> kp(keep.begin(), keep.end()); kp.push_back(0);
	auto run = [&](ShimGraph* out, bool* un) -> int { *un = true; switch (op) { case 0: return shim_delete_loops(&sa.s, out); case 1: return shim_union((int) raw.size(), raw.data(), has_keep, keep.size(), kp.data(), loops, out, un); case 2: return shim_difference(&sa.s, &sb.s, maxdeg, out, un); case 3: return shim_transpose(&sa.s, out, un); default: return shim_product(&sa.s, &sb.s, force, out, un); } };
	bool ordered = op == 0 || op == 2; ShimGraph out; bool un = true;
	vh_track(1); vh_fail_at(-1, 0); vh_reset_count();
	int ec = run(&out, &un);
	if (ec != 0) viol("dg-code", "%s on %d vertices returned %d", nm[op], n, ec); else { cmp(nm[op], out, n, want, ordered); shim_free_graph(&out); }
	if (!un) viol("dg-input", "%s modified a const input", nm[op]);
	if ((op == 1 || op == 4) && !R.violations) { size_t top = vh_max_request(); vh_limit(top * 60 / 100); vh_reset_count(); int e = run(&out, &un); vh_limit(0); if (e == 0) { cmp(nm[op], out, n, want, ordered); cnt("pressure_ok"); shim_free_graph(&out); } }
	if (vh_live() != 0 || vh_bad_frees()) viol("dg-leak", "%s: %lld blocks left", nm[op], (ll) vh_live());
	vh_track(0);
	size_t most = 0, total = 0; for (auto& w : want) { most = std::max(most, w.size()); total += w.size(); } cntf(1, "large_%s", most > 65535 ? "row_beyond_16_bits" : "rows_short");
	uint64_t h = (uint64_t) op; for (auto& v : a.a) { h = hashv(v, h); h = hashb("|", 1, h); } sig(h);
	cnt("graphs"); if (want_sample()) sample("%s on %d vertices (longest row %zu, %zu arcs) equals its definition", nm[op], n, most, total);
}
} // namespace
