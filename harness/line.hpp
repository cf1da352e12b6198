// Points on a line behind fast counting distance callbacks (large problems).
#pragma once
#include "core.hpp"
namespace {
struct Line { int n = 0; std::vector<double> x; bool tiefree = false, dups = false, builtin = false; };
static Line* LN = nullptr; static void* TK = nullptr; /* the data set handed to the library */ static ll open_objs = 0; static size_t max_q = 0; static char token;
struct Srch { size_t ns; bool all; std::vector<std::pair<double, int>> v; ll asked = 0; };
// work asked of the callbacks (C28)
static struct Work { std::vector<int> nnq; double mxlog = 0; ll nn = 0, rows = 0, cells = 0, pairs = 0, nnobj = 0, mxobj = 0, mxq = 0, mxsize = 0; size_t first = 0, per = 0; uint32_t kmax = 0; const scc_Clabel* watch = nullptr; int again = -1; void reset(int n) { *this = Work(); nnq.assign((size_t) n, 0); } } WK;
// callback failures to order
static struct Faults { ll calls = 0, at = -1, injected = 0; int kind = -1; bool hit(int k) { if (calls++ != at) return false; ++injected; kind = k; return true; } } FL;
static int ix(const scc_PointIndex* a, size_t i) { return a ? (int) a[i] : (int) i; }
static bool b_check(void* d) { return d == &token; }
static size_t b_num(void*) { return (size_t) LN->n; }
static bool b_matrix(void*, size_t n, const scc_PointIndex* a, double* out) { if (FL.hit(0)) return false; size_t w = 0; WK.pairs += (ll) (n * (n - 1) / 2); for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) out[w++] = std::fabs(LN->x[ix(a, i)] - LN->x[ix(a, j)]); return true; }
static bool b_rows(void*, size_t nq, const scc_PointIndex* q, size_t nc, const scc_PointIndex* c, double* out) { if (FL.hit(1)) return false; WK.rows += (ll) nq; WK.cells += (ll) (nq * nc); for (size_t i = 0; i < nq; ++i) { double t = LN->x[ix(q, i)]; for (size_t j = 0; j < nc; ++j) *out++ = std::fabs(t - LN->x[ix(c, j)]); } return true; }
static Srch* mk(size_t ns, const scc_PointIndex* s, bool sort) {
	Srch* o = new Srch; o->ns = ns; o->v.resize(ns); for (size_t i = 0; i < ns; ++i) { int p = ix(s, i); o->v[i] = { LN->x[p], p }; }
	if (sort) std::sort(o->v.begin(), o->v.end());
	else { auto a = *std::min_element(o->v.begin(), o->v.end()), b = *std::max_element(o->v.begin(), o->v.end()); o->v = { a, b }; }
	++open_objs; return o;
}
static bool b_mxi(void*, size_t ns, const scc_PointIndex* s, iscc_MaxDistObject** o) { if (FL.hit(2)) return false; ++WK.mxobj; WK.mxsize += (ll) ns; WK.mxlog += (double) ns * std::log2((double) ns + 2); *o = (iscc_MaxDistObject*) mk(ns, s, false); return true; }
static bool b_mxg(iscc_MaxDistObject* h, size_t nq, const scc_PointIndex* q, scc_PointIndex* oi, double* od) {
	if (FL.hit(3)) return false; Srch* o = (Srch*) h; if (!o->asked) WK.first = std::max(WK.first, nq); o->asked += (ll) nq; WK.mxq += (ll) nq; WK.per = std::max(WK.per, (size_t) o->asked); for (size_t i = 0; i < nq; ++i) { double t = LN->x[ix(q, i)]; double a = std::fabs(t - o->v.front().first), b = std::fabs(o->v.back().first - t); od[i] = std::max(a, b); oi[i] = (scc_PointIndex) (a >= b ? o->v.front().second : o->v.back().second); } return true; }
static bool b_mxc(iscc_MaxDistObject** h) { delete (Srch*) *h; *h = nullptr; --open_objs; return true; }
static bool b_nni(void*, size_t ns, const scc_PointIndex* s, iscc_NNSearchObject** o) { if (FL.hit(4)) return false; ++WK.nnobj; *o = (iscc_NNSearchObject*) mk(ns, s, true); return true; }
static bool b_nn(iscc_NNSearchObject* h, size_t nq, const scc_PointIndex* q, uint32_t k, bool rs, double r, size_t* nok, scc_PointIndex* oq, scc_PointIndex* onn) {
	if (FL.hit(5)) return false; Srch* o = (Srch*) h; auto& v = o->v; size_t ok = 0; max_q = std::max(max_q, nq); WK.nn += (ll) nq; WK.kmax = std::max(WK.kmax, k); if (!WK.nnq.empty()) for (size_t i = 0; i < nq; ++i) { size_t v = (size_t) ix(q, i); ++WK.nnq[v]; if (WK.watch && from_clabel(WK.watch[v]) >= 0) WK.again = (int) v; } const ll N = (ll) v.size();
	for (size_t i = 0; i < nq; ++i) {
		int me = ix(q, i); double t = LN->x[me]; ll hi = std::lower_bound(v.begin(), v.end(), std::make_pair(t, -1)) - v.begin(), lo = hi - 1; bool good = true; scc_PointIndex* w = onn + ok * k;
		for (uint32_t c = 0; c < k; ++c) {
			double dl = lo >= 0 ? t - v[lo].first : INFINITY, dh = hi < N ? v[hi].first - t : INFINITY;
			if (std::min(dl, dh) > r && rs) { good = false; break; }
			if (dh <= dl) w[c] = (scc_PointIndex) v[hi++].second; else w[c] = (scc_PointIndex) v[lo--].second;
		}
		if (good) { if (oq) oq[ok] = (scc_PointIndex) me; ++ok; }
	}
	*nok = ok; return true;
}
static bool b_nnc(iscc_NNSearchObject** h) { delete (Srch*) *h; *h = nullptr; --open_objs; return true; }
struct Use { scc_DataSet* ds = nullptr; std::vector<double> m; Use(Line& l) { LN = &l; open_objs = 0; TK = &token;
	if (l.builtin) { const size_t dim = 1 + (size_t) l.n % 3; m.assign((size_t) l.n * dim, 0.0); for (int i = 0; i < l.n; ++i) m[(size_t) i * dim + (size_t) l.n % dim] = l.x[(size_t) i]; // the other coordinates are constant
		if (scc_init_data_set((uint64_t) l.n, (uint32_t) dim, m.size(), m.data(), &ds) != SCC_ER_OK) viol("data-set-init", "scc_init_data_set refused %d points", l.n); TK = ds; cnt("built_in_search"); return; }
	scc_set_dist_functions(b_check, b_num, b_matrix, b_rows, b_mxi, b_mxg, b_mxc, b_nni, b_nn, b_nnc); } ~Use() { if (ds) scc_free_data_set(&ds); else scc_reset_dist_functions(); TK = nullptr; } };

static void gen_line(Rng& g, Line& l, int max_builtin = 9000) {
	l.builtin = g.chance(22);
	int c = (int) g.in(0, 9); l.n = c == 0 ? 65535 : c == 1 ? 65536 : c == 2 ? 65537 : c < 8 ? (int) g.in(66000, 90000) : (int) g.in(131000, 140000);
	if (g.chance(10)) l.n = (int) g.in(300, 20000);
	if (l.builtin) l.n = std::min(max_builtin, (int) (g.chance(30) ? g.pick(vi{ 4095, 4096, 4097, 8191, 8192, 8193 }) : g.in(2300, max_builtin)));
	std::vector<double> pos((size_t) l.n); int shape = (int) g.in(0, 3); double at = 0;
	l.tiefree = shape == 0; l.dups = shape == 1; // gaps are distinct sums: no two distances between near points agree
	for (int i = 0; i < l.n; ++i) { pos[(size_t) i] = at; at += shape == 0 ? 1024.0 + std::ldexp((double) g.in(1, (1LL << 29) - 1), -20) : shape == 1 ? (double) g.in(0, 3) : shape == 2 ? 1.0 : (double) (1 + (i % 50 == 49 ? g.in(100, 5000) : g.in(0, 6))); }
	int ord = (int) g.in(0, 2); if (ord == 1) std::reverse(pos.begin(), pos.end()); if (ord == 2) g.shuffle(pos);
	l.x = pos; desc_reset(); desc("line of %d points, shape %d, order %d, %s search\n", l.n, shape, ord, l.builtin ? "built-in" : "plug-in");
}
struct BigRes { int ec = -1; Res r; };
static Res big_sc(const Opt& o) { Prob p; p.n = LN->n; p.custom = true; OptC oc(o, p.n); scc_Clustering* c = nullptr; Res r; scc_init_empty_clustering((uint64_t) p.n, nullptr, &c); int ec = scc_sc_clustering(TK, &oc.o, c); if (!ec) r = fetch(c, p.n); r.ec = ec; scc_free_clustering(&c); return r; }
static void gen_bopt(Rng& g, Opt& o, bool types) {
	o = Opt(); const int n = LN->n; o.k = (uint32_t) (g.chance(60) ? 2 : g.in(2, 6)); o.method = (int) g.in(0, 5); if (types) while (o.method == SCC_SM_BATCHES) o.method = (int) g.in(0, 5);
	o.pum = (int) g.in(0, 3); o.sum = (int) g.pick(vi{ SCC_UM_IGNORE, SCC_UM_CLOSEST_ASSIGNED, SCC_UM_CLOSEST_SEED });
	if (g.chance(30)) { o.has_primary = true; int pr = (int) g.pick(vi{ 0, 50, 97 }); for (int i = 0; i < n; ++i) if (pr == 0 ? i >= n - 20 : g.chance(pr)) o.prim.push_back(i); if (pr == 0 && !types) { o.k = (uint32_t) std::min<ll>(n, g.pick(std::vector<ll>{ 300, 66000, 65536, n })); if (LN->builtin) o.k = std::min(o.k, 2500u); if (o.method >= SCC_SM_EXCLUSION_ORDER && o.method != SCC_SM_BATCHES && o.k > 300) o.method = SCC_SM_LEXICAL; } }
	if (types) { o.num_types = (uint32_t) g.pick(std::vector<ll>{ 2, 3, 300, 65535 }); o.tl.resize((size_t) n); int lc = (int) g.in(0, 2); for (int i = 0; i < n; ++i) o.tl[(size_t) i] = lc == 0 ? (int) g.in(0, (ll) o.num_types - 1) : lc == 1 ? (g.chance(98) ? 0 : (int) g.in(0, (ll) o.num_types - 1)) : i % (int) o.num_types;
		std::vector<ll> gs(o.num_types, 0); for (int t : o.tl) ++gs[(size_t) t]; o.tc.assign(o.num_types, 0); ll b = g.in(1, o.k); for (int t = 0; t < 60 && b > 0; ++t) { size_t q = (size_t) (g.chance(40) ? g.in(0, 1) : g.in(0, (ll) o.num_types - 1)); if ((ll) o.tc[q] < gs[q] && (o.method < SCC_SM_EXCLUSION_ORDER || gs[q] > n / 4)) { // rare types give quadratic exclusion graphs
 ++o.tc[q]; --b; } } }
	if (types && g.chance(30)) { // few primary points, large constraints: counts beyond 8 and 16 bits
		o.num_types = (uint32_t) g.in(2, 4); o.method = (int) g.pick(vi{ SCC_SM_LEXICAL, SCC_SM_INWARDS_ORDER, SCC_SM_INWARDS_UPDATING }); o.has_primary = true; o.prim.clear(); const int np = (int) g.in(1, 12); for (int t = 0; t < np; ++t) o.prim.push_back(g.chance(50) ? n - 1 - t : (int) g.in(0, n - 1)); std::sort(o.prim.begin(), o.prim.end()); o.prim.erase(std::unique(o.prim.begin(), o.prim.end()), o.prim.end());
		int bias = (int) g.in(20, 80); for (int i = 0; i < n; ++i) o.tl[(size_t) i] = g.chance(bias) ? 0 : (int) g.in(1, (ll) o.num_types - 1); std::vector<ll> gs(o.num_types, 0); for (int t : o.tl) ++gs[(size_t) t];
		o.k = (uint32_t) std::min<ll>(n, LN->builtin ? g.in(200, 1200) : g.pick(std::vector<ll>{ 300, 1000, 5000, 33000, 66000, n / 2, n })); o.tc.assign(o.num_types, 0); ll left = o.k; vi ord; for (int t = 0; t < (int) o.num_types; ++t) ord.push_back(t); g.shuffle(ord); for (int t : ord) { ll m = std::min(left, gs[(size_t) t]); o.tc[(size_t) t] = (uint32_t) (g.chance(25) ? m : g.chance(50) ? std::min<ll>(m, g.pick(std::vector<ll>{ 255, 256, 257, 300, 65535, 65536, 65537 })) : g.in(0, m)); left -= o.tc[(size_t) t]; } cnt("heavy_type_constraints"); }
	if (o.method == SCC_SM_BATCHES) { o.pr = SCC_RM_USE_SEED_RADIUS; o.sum = SCC_UM_IGNORE; o.pum = g.chance(50) ? SCC_UM_IGNORE : SCC_UM_ANY_NEIGHBOR; o.batch = (uint32_t) g.pick(std::vector<ll>{ 0, 1000, 65535, 65536, n, 70000, (ll) UINT32_MAX }); if (o.k > 300) o.batch = (uint32_t) g.in(1, 20); }
	else if (g.chance(25)) { o.pr = SCC_RM_USE_ESTIMATED; o.scr = g.chance(50) ? SCC_RM_USE_ESTIMATED : SCC_RM_NO_RADIUS; }
	desc("options size=%u %s primary=%s secondary=%s primary_radius=%s secondary_radius=%s batch=%u types=%u primary points %zu\n", o.k, sm_name(o.method), um_name(o.pum), um_name(o.sum), rm_name(o.pr), rm_name(o.scr), o.batch, o.num_types, o.prim.size());
}
static uint64_t bh(const Opt& o) { Prob p; p.X = LN->x; return prob_hash(p, &o); }
} // namespace
