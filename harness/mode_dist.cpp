// Built-in distance, nearest-neighbour and max-distance functions against a reference (C14).
#include "core.hpp"
namespace {

static bool close_to(double a, double b) { if (a == b) return true; double m = std::max(std::fabs(a), std::fabs(b)); return std::fabs(a - b) <= 1e-12 * m; }
// an index list as the library takes it: NULL stands for 0, 1, 2, ...
struct Idx {
	size_t len = 0; scc_PointIndex* p = nullptr;
	int at(size_t i) const { return p ? (int) p[i] : (int) i; }
	void gen(Rng& g, int n, size_t lo, bool distinct, bool sorted_ok) {
		len = (size_t) g.in((ll) lo, n); if (g.chance(25)) len = (size_t) n; if (len < lo) len = lo;
		if (g.chance(30)) { p = nullptr; return; }
		std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; g.shuffle(v); v.resize(len);
		if (sorted_ok && g.chance(40)) std::sort(v.begin(), v.end());
		if (!distinct && g.chance(40)) for (auto& x : v) x = (int) g.in(0, n - 1);
		p = (scc_PointIndex*) malloc(sizeof(scc_PointIndex) * std::max<size_t>(len, 1)); for (size_t i = 0; i < len; ++i) p[i] = (scc_PointIndex) v[i];
	}
	~Idx() { free(p); }
	void describe(const char* w) const { desc("%s(%zu)=", w, len); if (!p) desc("NULL"); else for (size_t i = 0; i < len && i < 80; ++i) desc("%lld,", (ll) p[i]); desc("\n"); }
};
static void dims(Rng& g, Prob& p) { // many dimensions, also around unrolling widths
	if (!g.chance(35)) return;
	p.dim = g.chance(90) ? (int) g.in(1, 40) : g.chance(96) ? (int) g.in(40, 600) : (int) (g.chance(50) ? g.pick(vi{ 32767, 32768, 65534, 65535 }) : g.in(600, 65535)); if (p.n > 60) p.n = (int) g.in(2, 60); if (p.dim > 600) p.n = (int) g.in(2, 5);
	p.X.assign((size_t) p.n * p.dim, 0.0); ll hi = g.in(1, 2000); bool sparse = g.chance(40); for (auto& v : p.X) v = sparse && !g.chance(5) ? 0.0 : (double) g.in(-hi, hi); p.kind = "many-dimensions"; p.build_keys();
}
MODE(c14) {
	Prob p; bool real = g.chance(8);
	gen_prob(g, GEN_EXACT | GEN_NOCUSTOM | (g.chance(60) ? GEN_SMALL : 0) | (g.chance(3) ? GEN_BIG : 0), p);
	dims(g, p);
	if (real) { for (auto& v : p.X) v = (g.unit() - 0.5) * 1000.0; p.kind = "real-valued"; p.build_keys(); }
	int n = p.n; describe(p, nullptr); DS d(p); cntf(1, "data_%s", p.kind);
	std::vector<double> orig = p.X;
	// distance matrix
	{ Idx ix; ix.gen(g, n, 2, true, true); size_t m = ix.len * (ix.len - 1) / 2; double* out = (double*) malloc(sizeof(double) * m); for (size_t i = 0; i < m; ++i) out[i] = -7;
	  desc("get_dist_matrix "); ix.describe("points");
	  if (!shim_dist_matrix(d.ds, ix.len, ix.p, out)) viol("matrix", "get_dist_matrix failed");
	  else { size_t w = 0; for (size_t a = 0; a < ix.len && !R.violations; ++a) for (size_t b = a + 1; b < ix.len; ++b, ++w) if (!close_to(out[w], p.dist(ix.at(a), ix.at(b)))) { viol("matrix", "distance of points %d and %d is %.17g, expected %.17g", ix.at(a), ix.at(b), out[w], p.dist(ix.at(a), ix.at(b))); break; } }
	  cnt("matrix_entries", (ll) m); free(out); }
	if (R.violations) return;
	// distance rows
	{ Idx q, c; q.gen(g, n, 1, false, true); c.gen(g, n, 1, false, true); size_t m = q.len * c.len; double* out = (double*) malloc(sizeof(double) * m); for (size_t i = 0; i < m; ++i) out[i] = -7;
	  desc("get_dist_rows "); q.describe("queries"); c.describe("columns");
	  if (!shim_dist_rows(d.ds, q.len, q.p, c.len, c.p, out)) viol("rows", "get_dist_rows failed");
	  else for (size_t a = 0; a < q.len && !R.violations; ++a) for (size_t b = 0; b < c.len; ++b) if (!close_to(out[a * c.len + b], p.dist(q.at(a), c.at(b)))) { viol("rows", "row %zu column %zu is %.17g, expected %.17g", a, b, out[a * c.len + b], p.dist(q.at(a), c.at(b))); break; }
	  cnt("row_entries", (ll) m); free(out); }
	if (R.violations) return;
	// max distances
	{ Idx s, q; s.gen(g, n, 1, true, true); q.gen(g, n, 1, false, true); scc_PointIndex* oi = (scc_PointIndex*) malloc(sizeof(scc_PointIndex) * q.len); double* od = (double*) malloc(sizeof(double) * q.len);
	  for (size_t i = 0; i < q.len; ++i) { oi[i] = 0; od[i] = -7; }
	  desc("get_max_dist "); s.describe("search"); q.describe("queries");
	  if (!shim_max_dist(d.ds, s.len, s.p, q.len, q.p, oi, od)) viol("max-dist", "max-distance search failed");
	  else for (size_t i = 0; i < q.len && !R.violations; ++i) {
		double m = -1; bool in = false; for (size_t j = 0; j < s.len; ++j) { m = std::max(m, p.key(q.at(i), s.at(j))); in = in || s.at(j) == (int) oi[i]; }
		if (!in) viol("max-dist", "query %d: farthest point %lld is not a search point", q.at(i), (ll) oi[i]);
		else if (!close_to(od[i], std::sqrt(m)) || !close_to(p.key(q.at(i), (int) oi[i]), m)) viol("max-dist", "query %d: farthest point %lld at %.17g, expected %.17g", q.at(i), (ll) oi[i], od[i], std::sqrt(m));
	  }
	  cnt("max_queries", (ll) q.len); free(oi); free(od); }
	if (R.violations) return;
	// nearest neighbours: one search object, several searches
	Idx s; s.gen(g, n, 1, true, true); void* obj = nullptr; desc("nn "); s.describe("search");
	if (!shim_nn_open(d.ds, s.len, s.p, &obj)) { viol("nn", "opening a search failed"); return; }
	for (int rep = 0; rep < 3 && !R.violations; ++rep) {
		Idx q; q.gen(g, n, 1, true, true);
		uint32_t k = g.chance(25) ? 1u : g.chance(20) ? (uint32_t) s.len : (uint32_t) g.in(1, std::min<ll>((ll) s.len, g.chance(70) ? 5 : (ll) s.len));
		bool rs = g.chance(55); double r = rs ? pick_radius(g, p, k) : (g.chance(50) ? 0.0 : -1.0);
		if (rs && real) r = r * (1.0 + 1e-7);
		bool oqnull = !rs && g.chance(50); bool alias = !oqnull && q.p && g.chance(50);
		desc("search k=%u radius=%d(%.17g) out_query=%s ", k, (int) rs, r, oqnull ? "NULL" : alias ? "alias" : "separate"); q.describe("queries");
		vi qq; for (size_t i = 0; i < q.len; ++i) qq.push_back(q.at(i));
		scc_PointIndex* oq = nullptr; scc_PointIndex* own = nullptr; if (alias) oq = q.p; else if (!oqnull) oq = own = (scc_PointIndex*) malloc(sizeof(scc_PointIndex) * q.len);
		scc_PointIndex* nn = (scc_PointIndex*) malloc(sizeof(scc_PointIndex) * q.len * k); size_t nok = 12345;
		if (!shim_nn_search(obj, q.len, q.p, k, rs, r, &nok, oq, nn)) { viol("nn", "nearest-neighbour search failed"); free(own); free(nn); break; }
		size_t w = 0; std::vector<std::pair<double, int>> v; double thr = r * r;
		for (size_t i = 0; i < qq.size() && !R.violations; ++i) {
			v.clear(); for (size_t j = 0; j < s.len; ++j) { double key = p.key(qq[i], s.at(j)); if (!rs || key <= thr) v.push_back({ key, (int) j }); }
			if (real && rs) { bool amb = false; for (size_t j = 0; j < s.len; ++j) { double key = p.key(qq[i], s.at(j)); if (key != 0 && std::fabs(key - thr) <= 1e-10 * thr) amb = true; } if (amb) { w = SIZE_MAX; break; } }
			if (v.size() < k) { cnt("queries_out_of_radius"); continue; }
			std::sort(v.begin(), v.end());
			if (w >= nok) { viol("nn-count", "query %d has %zu points within the radius but is not reported as successful", qq[i], v.size()); break; }
			if (oq && (int) oq[w] != qq[i]) { viol("nn-query", "successful query number %zu reported as point %lld, expected %d", w, (ll) oq[w], qq[i]); break; }
			for (uint32_t t = 0; t < k; ++t) { int got = (int) nn[w * k + t]; int want = s.at((size_t) v[t].second);
				if (got != want && (got < 0 || got >= n || !real || !close_to(p.key(qq[i], got), v[t].first))) { viol("nn", "query %d neighbour %u is %d, expected %d (squared distance %.17g)", qq[i], t, got, want, v[t].first); break; } }
			++w; cnt("queries_ok");
		}
		if (w != SIZE_MAX && !R.violations && nok != w) viol("nn-count", "%zu successful queries reported, expected %zu", nok, w);
		if (k == s.len) cnt("searches_all_points"); if (alias) cnt("searches_aliased"); if (rs) cnt("searches_radius"); cnt("searches");
		free(own); free(nn);
	}
	if (!shim_nn_close(&obj) || obj != nullptr) viol("nn-close", "closing the search object failed or left the handle set");
	if (memcmp(d.buf, orig.data(), sizeof(double) * orig.size())) viol("data-written", "the data matrix was modified");
	sig(prob_hash(p, nullptr) ^ hashb(s.p, s.p ? s.len * sizeof(scc_PointIndex) : 0));
	if (want_sample()) sample("%s n=%d dim=%d: matrix, rows, max-distance and three neighbour searches equal the reference", p.kind, n, p.dim);
}
// Thousands to tens of thousands of points, few queries: lengths, counts and indices beyond blocks and 16 bits.
MODE(c14big) {
	const int dim = (int) g.in(1, 3); int n = (int) (g.chance(30) ? g.in(300, 5000) : g.chance(60) ? g.pick(vi{ 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537 }) : g.in(5000, 70000));
	std::vector<double> x((size_t) n * dim); int shape = (int) g.in(0, 3); ll hi = shape == 0 ? 3 : shape == 1 ? 1000 : 1000000; for (auto& v : x) v = (double) g.in(-hi, hi); if (shape == 3) for (int i = 0; i < n; ++i) x[(size_t) i * dim] = (double) (g.chance(50) || dim == 1 ? i : n - i);
	if (g.chance(40)) { bool near_last = g.chance(50); for (int t = 0; t < 6; ++t) { int a = (int) g.in(0, n - 1), b = near_last ? n - 1 - t : (int) g.in(0, n - 1); if (a >= 0 && b >= 0) for (int c = 0; c < dim; ++c) x[(size_t) a * dim + c] = x[(size_t) b * dim + c]; } }
	desc_reset(); desc("n=%d dim=%d shape=%d\n", n, dim, shape); double* buf = (double*) malloc(sizeof(double) * x.size()); memcpy(buf, x.data(), sizeof(double) * x.size());
	scc_DataSet* ds = nullptr; if (scc_init_data_set((uint64_t) n, (uint32_t) dim, x.size(), buf, &ds) != SCC_ER_OK) { viol("init", "scc_init_data_set refused %d points", n); free(buf); return; }
	auto key = [&](int a, int b) { double s = 0; for (int c = 0; c < dim; ++c) { double t = x[(size_t) a * dim + c] - x[(size_t) b * dim + c]; s += t * t; } return s; }; // integers: exact
	auto list = [&](Idx& ix, size_t len, bool distinct) { ix.len = len; if (g.chance(30)) return; std::vector<int> v; if (distinct) { v.resize((size_t) n); for (int i = 0; i < n; ++i) v[(size_t) i] = i; if (g.chance(60)) { g.shuffle(v); v.resize(len); } else { size_t off = (size_t) n - len; for (size_t i = 0; i < len; ++i) v[i] = (int) (i + off); v.resize(len); } } else for (size_t i = 0; i < len; ++i) v.push_back((int) (g.chance(40) ? n - 1 - g.in(0, std::min(5, n - 1)) : g.in(0, n - 1))); ix.p = (scc_PointIndex*) malloc(sizeof(scc_PointIndex) * len); for (size_t i = 0; i < len; ++i) ix.p[i] = (scc_PointIndex) v[i]; };
	auto slen = [&] { return (size_t) (g.chance(50) ? n : g.chance(30) && n > 4097 ? g.pick(std::vector<ll>{ 4095, 4096, 4097 }) : g.in(1, n)); };
	const int what = (int) g.in(0, 9);
	if (what == 0) { // matrix
		size_t m = (size_t) std::min(n, (int) g.in(200, 1500)); Idx ix; list(ix, m, true); std::vector<double> out(m * (m - 1) / 2, -7); if (!shim_dist_matrix(ds, m, ix.p, out.data())) viol("matrix", "get_dist_matrix failed");
		size_t w = 0; for (size_t a = 0; a < m && !R.violations; ++a) for (size_t b = a + 1; b < m; ++b, ++w) if (!close_to(out[w], std::sqrt(key(ix.at(a), ix.at(b))))) { viol("matrix", "entry %zu of %zu points is %.17g, expected %.17g", w, m, out[w], std::sqrt(key(ix.at(a), ix.at(b)))); break; } cnt("big_matrix_entries", (ll) w);
	} else if (what == 1) { // rows, either side long
		size_t a = (size_t) g.in(1, 5), b = slen(); if (g.chance(50)) std::swap(a, b); Idx q, c; list(q, a, false); list(c, b, false); std::vector<double> out(a * b, -7); if (!shim_dist_rows(ds, a, q.p, b, c.p, out.data())) viol("rows", "get_dist_rows failed");
		for (size_t i = 0; i < a && !R.violations; ++i) for (size_t j = 0; j < b; ++j) if (!close_to(out[i * b + j], std::sqrt(key(q.at(i), c.at(j))))) { viol("rows", "row %zu column %zu of %zu x %zu is %.17g, expected %.17g", i, j, a, b, out[i * b + j], std::sqrt(key(q.at(i), c.at(j)))); break; } cnt("big_row_entries", (ll) (a * b));
	} else if (what == 2) { // farthest points
		bool wide = g.chance(25); Idx s, q; list(s, wide ? (size_t) g.in(1, 4) : slen(), true); list(q, wide ? slen() : (size_t) g.in(1, 5), false); std::vector<scc_PointIndex> oi(q.len, 0); std::vector<double> od(q.len, -7); if (!shim_max_dist(ds, s.len, s.p, q.len, q.p, oi.data(), od.data())) viol("max-dist", "max-distance search failed");
		for (size_t i = 0; i < q.len && !R.violations; ++i) { double m = -1; bool in = false; for (size_t j = 0; j < s.len; ++j) { m = std::max(m, key(q.at(i), s.at(j))); in = in || s.at(j) == (int) oi[i]; } if (!in || !close_to(od[i], std::sqrt(m)) || key(q.at(i), (int) oi[i]) != m) viol("max-dist", "query %d among %zu points: farthest %lld at %.17g, expected %.17g", q.at(i), s.len, (ll) oi[i], od[i], std::sqrt(m)); } cnt("big_max_queries", (ll) q.len);
	} else {
		bool wide = g.chance(15); Idx s; list(s, wide ? (size_t) g.in(1, 6) : slen(), true); void* obj = nullptr; if (!shim_nn_open(ds, s.len, s.p, &obj)) viol("nn", "opening a search failed");
		for (int rep = 0; obj && rep < 2 && !R.violations; ++rep) {
			Idx q; list(q, wide ? slen() : (size_t) g.in(1, 4), true);
			ll km = (ll) s.len; uint32_t kk = (uint32_t) (g.chance(60) ? g.in(1, std::min<ll>(km, 6)) : shape == 3 && dim == 1 && g.chance(50) ? g.in(1, km) : g.in(1, std::min<ll>(km, 1500))); if (wide) kk = (uint32_t) g.in(1, km);
			std::vector<std::vector<std::pair<double, int>>> ref(q.len); bool rs = g.chance(50); double r = 0;
			for (size_t i = 0; i < q.len; ++i) { auto& v = ref[i]; v.resize(s.len); for (size_t j = 0; j < s.len; ++j) v[j] = { key(q.at(i), s.at(j)), (int) j }; std::sort(v.begin(), v.end()); }
			if (rs) { size_t i = (size_t) g.in(0, (ll) q.len - 1); r = std::sqrt(ref[i][kk - 1].first); int c = (int) g.in(0, 2); if (r == 0) r = 1; else if (c == 1) r *= 0.999; else if (c == 2) r *= 1.5; }
			bool amb = false; auto inside = [&](double kx) { double d = std::sqrt(kx); if (kx != r * r && std::fabs(d - r) <= 1e-9 * r) amb = true; return kx <= r * r; };
			desc("search among %zu of %d: k=%u radius=%d(%.17g) queries %zu\n", s.len, n, kk, (int) rs, r, q.len);
			std::vector<scc_PointIndex> oq(q.len), nn(q.len * kk); size_t nok = 12345, w = 0; if (!shim_nn_search(obj, q.len, q.p, kk, rs, r, &nok, oq.data(), nn.data())) { viol("nn", "nearest-neighbour search failed"); break; }
			for (size_t i = 0; i < q.len && !R.violations; ++i) {
				if (rs && !inside(ref[i][kk - 1].first)) { cnt("big_queries_out_of_radius"); if (amb) break; continue; } if (amb) break;
				if (w >= nok) { viol("nn-count", "query %d is not reported as successful", q.at(i)); break; } if ((int) oq[w] != q.at(i)) { viol("nn-query", "successful query number %zu reported as point %lld, expected %d", w, (ll) oq[w], q.at(i)); break; }
				for (uint32_t t = 0; t < kk; ++t) { int got = (int) nn[w * kk + t], want = s.at((size_t) ref[i][t].second); if (got != want) { viol("nn", "query %d among %zu points: neighbour %u of %u is %d, expected %d (squared distance %.17g)", q.at(i), s.len, t, kk, got, want, ref[i][t].first); break; } }
				++w; cnt("big_queries_ok");
			}
			if (!amb && !R.violations && nok != w) viol("nn-count", "%zu successful queries reported, expected %zu", nok, w); if (s.len > 4096) cnt("searches_over_4096_points"); if (s.len > 65536) cnt("searches_over_65536_points"); if (kk > 255) cnt("searches_k_over_255");
		}
		if (obj && (!shim_nn_close(&obj) || obj != nullptr)) viol("nn-close", "closing the search object failed or left the handle set");
	}
	if (memcmp(buf, x.data(), sizeof(double) * x.size())) viol("data-written", "the data matrix was modified");
	sig(hashv(x) ^ (uint64_t) what); if (want_sample()) sample("n=%d dim=%d: %s equal the reference", n, dim, what == 0 ? "matrix" : what == 1 ? "rows" : what == 2 ? "farthest points" : "neighbours"); scc_free_data_set(&ds); free(buf);
}
} // namespace
