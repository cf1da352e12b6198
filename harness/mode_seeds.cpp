// Seed selection (C06).
#include "core.hpp"
namespace {

static void random_graph(Rng& g, Nng& out, int n) {
	out = Nng(); out.ok = true; out.N.resize(n); out.has.assign(n, 0);
	int shape = (int) g.in(0, 5); int deg = (int) g.in(1, std::min(n - 1, 6)); int empty = g.chance(40) ? (int) g.in(5, 70) : 0; bool uniform = g.chance(60);
	for (int v = 0; v < n; ++v) {
		if (g.chance(empty)) continue;
		int d = uniform ? deg : (int) g.in(1, deg); std::vector<char> used(n, 0); used[v] = 1; vi& N = out.N[v];
		for (int t = 0; t < d * 6 && (int) N.size() < d; ++t) {
			int x;
			if (shape == 0) x = (int) g.in(0, n - 1);
			else if (shape == 1) x = (int) g.in(0, std::min(n - 1, 2 + n / 10));          // hubs at low ids
			else if (shape == 2) x = n - 1 - (int) g.in(0, std::min(n - 1, 2 + n / 10));  // hubs at high ids
			else if (shape == 3) x = (v + (int) g.in(1, 4)) % n;                          // ring
			else if (shape == 4) x = std::max(0, v - (int) g.in(1, 3));                   // chain towards 0
			else { int b = v / 8 * 8; x = std::min(n - 1, b + (int) g.in(0, 7)); }        // cliques
			if (!used[x]) { used[x] = 1; N.push_back(x); }
		}
		out.has[v] = !N.empty();
	}
	bool any = false; for (auto& N : out.N) any = any || !N.empty();
	if (!any) { out.N[0].push_back(n - 1); out.has[0] = 1; }
}
static uint64_t graph_hash(const Nng& g) { uint64_t h = 7; for (auto& N : g.N) { h = hashv(N, h); int z = -1; h = hashb(&z, sizeof z, h); } return h; }
static void graph_case(Rng& g) {
	int n = g.chance(45) ? (int) g.in(2, 9) : g.chance(90) ? (int) g.in(8, 90) : (int) g.in(200, 1200);
	Nng q; random_graph(g, q, n);
	desc_reset(); desc("graph n=%d\n", n); if (n <= 90) for (int v = 0; v < n; ++v) { desc("%d:", v); for (int x : q.N[v]) desc(" %d", x); desc("\n"); }
	for (int m : { SCC_SM_LEXICAL, SCC_SM_INWARDS_ORDER, SCC_SM_INWARDS_UPDATING, SCC_SM_EXCLUSION_ORDER, SCC_SM_EXCLUSION_UPDATING }) {
		vi a, b; int ec = 0; size_t cap = g.chance(50) ? (size_t) n : (size_t) g.in(1, 4);
		if (!get_seeds(q, m, cap, a, &ec)) { viol("seeds-fail", "%s: seed finding on a valid graph returned %s", sm_name(m), ec_name(ec)); return; }
		check_seeds(q, a, m, "graph"); if (R.violations) return;
		if (!get_seeds(q, m, 1, b, &ec) || a != b) { viol("seeds-capacity", "%s: the initial capacity changes the seeds", sm_name(m)); return; }
	}
	cnt("graphs"); sig(graph_hash(q));
	if (want_sample()) sample("random neighbour graph with %d vertices: 5 seed methods checked", n);
}
// clusters returned by the library against the seeds' documented order (cluster i = i-th seed)
static void data_case(Rng& g) {
	Prob p; Opt o; int f = GEN_EXACT | (g.chance(50) ? GEN_SMALL : 0) | (g.chance(70) ? GEN_FEASIBLE : 0) | (g.chance(20) ? GEN_BATCH : 0) | (g.chance(10) ? GEN_BIG : 0);
	gen_prob(g, f, p); gen_opt(g, f, p, o); o = cores_only(o); describe(p, &o);
	DS d(p); Res r = run_sc(d, p, o, g.chance(30)); cntf(1, "method_%s", sm_name(o.method)); cntf(1, "ec_%s", ec_name(r.ec));
	if (r.ec != SCC_ER_OK) return;
	if (*check_labels(p, o, r, A_LABEL)) return; // C01's business
	auto C = members(r);
	if (o.method == SCC_SM_BATCHES) {
		int last = -1;
		for (size_t c = 0; c < C.size(); ++c) { // a strictly ascending choice of possible seeds must exist
			int pick = -1; for (int v : C[c]) if (v > last && is_primary(o, v) && !*bad_nbh(p, o, v, C[c])) { pick = v; break; }
			if (pick < 0) { viol("batch-seed-order", "cluster %zu has no possible seed after seed %d: seeds are not in ascending order", c, last); return; }
			last = pick;
		}
		for (int v = 0; v < p.n; ++v) if (r.lab[v] < 0 && is_primary(o, v) && feasible_point(p, o, v)) {
			double lim = nbh_radius_key(p, o, v); bool blocked = false; for (int x = 0; x < p.n; ++x) if (r.lab[x] >= 0 && p.key(v, x) <= lim) blocked = true;
			if (!blocked) { viol("batch-maximal", "primary point %d and its nearest neighbours are all unassigned", v); return; }
		}
		cnt("batch_sets"); if (r.m >= 2) sig(prob_hash(p, &o));
		return;
	}
	Nng q; vi s; int ec = 0;
	if (!get_nng(d, p, o, q)) { viol("nng", "clustering succeeded but its neighbour graph fails: %s", ec_name(q.ec)); return; }
	// the graph holds exactly the primary points that can be seeds
	for (int v = 0; v < p.n; ++v) { bool want = is_primary(o, v) && feasible_point(p, o, v); if (want != (bool) q.has[v]) { viol("seedable", "point %d should%s be able to be a seed", v, want ? "" : " not"); return; } }
	if (!get_seeds(q, o.method, 1 + (size_t) p.n / o.k, s, &ec)) { viol("seeds-fail", "%s", ec_name(ec)); return; }
	check_seeds(q, s, o.method, "data"); if (R.violations) return;
	if (s.size() != C.size()) { viol("cluster-numbering", "%zu seeds but %zu clusters", s.size(), C.size()); return; }
	for (size_t c = 0; c < C.size(); ++c) { vi w = q.N[s[c]]; w.push_back(s[c]); std::sort(w.begin(), w.end()); if (w != C[c]) { viol("cluster-numbering", "cluster %zu is not the neighbourhood of seed number %zu", c, c); return; } }
	if (r.m >= 2) sig(prob_hash(p, &o));
	if (want_sample()) sample("%s n=%d size=%u %s: %zu seeds, maximal, independent, in order", p.kind, p.n, o.k, sm_name(o.method), s.size());
}
MODE(c06) { if (idx % 2) graph_case(g); else data_case(g); }

// exact order with ties resolved by index (library built with its SCC_STABLE_FINDSEED switch)
MODE(c06stable) {
	int n = g.chance(50) ? (int) g.in(2, 9) : (int) g.in(8, 120); Nng q; random_graph(g, q, n);
	desc_reset(); desc("graph n=%d\n", n); for (int v = 0; v < n; ++v) { desc("%d:", v); for (int x : q.N[v]) desc(" %d", x); desc("\n"); }
	std::vector<vi> in(n); for (int v = 0; v < n; ++v) for (int x : q.N[v]) in[x].push_back(v);
	{ vi got, want; int ec = 0; std::vector<char> mark(n, 0), vis(n, 0);
	  for (;;) {
		int best = -1, bc = 0;
		for (int v = 0; v < n; ++v) if (!vis[v] && !mark[v] && !q.N[v].empty()) { int c = 0; for (int u : in[v]) if (!vis[u] && !mark[u]) ++c; if (best < 0 || c < bc) { best = v; bc = c; } }
		if (best < 0) break;
		vis[best] = 1; bool ok = true; for (int x : q.N[best]) if (mark[x]) ok = false;
		if (ok) { want.push_back(best); mark[best] = 1; for (int x : q.N[best]) mark[x] = 1; }
	  }
	  if (!get_seeds(q, SCC_SM_INWARDS_UPDATING, (size_t) n, got, &ec) || got != want) { viol("stable-inwards-updating", "seeds differ from the model (%zu vs %zu seeds)", got.size(), want.size()); return; } }
	{ vi got, want; int ec = 0; std::vector<char> mark(n, 0); vi ord(n); for (int i = 0; i < n; ++i) ord[i] = i; std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return in[a].size() < in[b].size(); });
	  for (int v : ord) if (!mark[v] && !q.N[v].empty()) { bool ok = true; for (int x : q.N[v]) if (mark[x]) ok = false; if (ok) { want.push_back(v); mark[v] = 1; for (int x : q.N[v]) mark[x] = 1; } }
	  if (!get_seeds(q, SCC_SM_INWARDS_ORDER, (size_t) n, got, &ec) || got != want) { viol("stable-inwards-order", "seeds differ from the model"); return; } }
	for (int m : { SCC_SM_EXCLUSION_ORDER, SCC_SM_EXCLUSION_UPDATING }) { vi got; int ec = 0; if (!get_seeds(q, m, (size_t) n, got, &ec)) { viol("seeds-fail", "%s", ec_name(ec)); return; } check_seeds(q, got, m, "stable"); if (R.violations) return; }
	cnt("stable_graphs"); sig(graph_hash(q));
}
} // namespace
