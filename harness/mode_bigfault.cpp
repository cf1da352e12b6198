// Failures, invalid input and repetition in large problems (C09, C11, C12, C19, C22): lines of up to 140,000 points.
#include "core.hpp"
#include "line.hpp"
#include <ctime>
namespace {
// problems that take long are repeated less often (a case has 40 s of CPU time)
struct Budget { clock_t t0 = clock(); bool spent() const { return double(clock() - t0) / CLOCKS_PER_SEC > 5.0; } };
enum { J_SC, J_HC, J_HCX, J_STATS, J_CHECK, J_COPY, J_INIT };
static const char* jn[] = { "sc_clustering", "hierarchical(empty)", "hierarchical(existing)", "get_clustering_stats", "check_clustering", "copy_clustering", "init_existing_clustering" };
struct Job { int op = J_SC; Opt o; uint32_t k = 2; bool ba = false, ext = false; std::vector<ll> old; ll om = 1; };
struct Out { int ec = -1; Res res; scc_ClusteringStats st; bool ok = false; };
struct Obj { // the clustering handed to the call
	scc_Clustering* c = nullptr; scc_Clustering* made = nullptr; scc_Clabel* e = nullptr;
	Obj(const Job& j, ll fill = 0x5a) { const size_t n = (size_t) LN->n; const bool have = j.op >= J_HCX; if (have || j.ext) { e = (scc_Clabel*) malloc(sizeof(scc_Clabel) * n); if (have) for (size_t i = 0; i < n; ++i) e[i] = to_clabel(j.old[i]); else memset(e, (int) fill, sizeof(scc_Clabel) * n); }
		if (j.op == J_INIT) return; if (have) scc_init_existing_clustering(n, (uint64_t) j.om, e, !j.ext, &c); else scc_init_empty_clustering(n, j.ext ? e : nullptr, &c); }
	~Obj() { scc_free_clustering(&c); scc_free_clustering(&made); free(e); }
};
static Out run(const Job& j, Obj& b) {
	Out r; memset(&r.st, 0, sizeof r.st); const int n = LN->n;
	switch (j.op) {
	case J_SC: { OptC oc(j.o, n); r.ec = scc_sc_clustering(TK, &oc.o, b.c); break; }
	case J_HC: case J_HCX: r.ec = scc_hierarchical_clustering(TK, j.k, j.ba, b.c); break;
	case J_STATS: r.ec = scc_get_clustering_stats(TK, b.c, &r.st); break;
	case J_CHECK: { OptC oc(j.o, n); r.ec = scc_check_clustering(b.c, &oc.o, &r.ok); break; }
	case J_COPY: r.ec = scc_copy_clustering(b.c, &b.made); break;
	default: r.ec = scc_init_existing_clustering((uint64_t) n, (uint64_t) j.om, b.e, !j.ext, &b.made);
	}
	return r;
}
static void collect(const Job& j, Obj& b, Out& r) { if (r.ec) return; if (j.op <= J_HCX) r.res = fetch(b.c, LN->n); else if (j.op >= J_COPY) r.res = fetch(b.made, LN->n); }
static bool same(const Out& a, const Out& b) { return a.ec == b.ec && a.ok == b.ok && !memcmp(&a.st, &b.st, sizeof a.st) && a.res.m == b.res.m && a.res.lab == b.res.lab; }
static void gen_job(Rng& g, Line& l, Job& j, int what) { // what: 0 any, 1 asks for distances, 2 clusters
	const int n = l.n; j.ext = g.chance(40); j.op = (int) g.pick(what == 0 ? vi{ J_SC, J_SC, J_SC, J_HC, J_HCX, J_STATS, J_CHECK, J_COPY, J_INIT } : what == 1 ? vi{ J_SC, J_SC, J_SC, J_HC, J_HCX, J_STATS } : vi{ J_SC, J_SC, J_HC, J_HCX, J_HCX });
	if (j.op == J_SC) { gen_bopt(g, j.o, g.chance(30)); if (j.o.method == SCC_SM_BATCHES && g.chance(60)) j.o.batch = (uint32_t) g.in(2000, 40000); if (j.o.method != SCC_SM_BATCHES && g.chance(25)) { j.o.sr = SCC_RM_USE_SUPPLIED; j.o.srv = g.chance(50) ? 1e300 : l.tiefree ? 3000.0 : 8.0; } }
	j.k = (uint32_t) std::min<ll>(n, g.pick(std::vector<ll>{ 20, 100, 1000, 20000, n / 2 })); j.k = std::max(2u, j.k); j.ba = g.chance(50);
	j.om = g.pick(std::vector<ll>{ 1, 300, (ll) n / 50, (ll) n / 3 }); if (j.op == J_STATS) j.om = g.pick(std::vector<ll>{ (ll) n / 50, (ll) n / 3, (ll) n / 400 }); j.om = std::max<ll>(1, j.om); const int sh = (int) g.in(0, 1); j.old.resize((size_t) n); for (int i = 0; i < n; ++i) j.old[(size_t) i] = g.chance(4) ? -1 : sh ? i % j.om : (ll) i * j.om / n;
	if (j.op == J_CHECK) { j.o = Opt(); j.o.k = 2; if (g.chance(50)) { j.o.num_types = 3; j.o.tl.resize((size_t) n); for (auto& t : j.o.tl) t = (int) g.in(0, 2); j.o.tc = { 1, 0, 1 }; } }
	desc("operation %s size=%u batch_assign=%d old clusters %lld external=%d seed radius %s %.17g\n", jn[j.op], j.k, (int) j.ba, j.op >= J_HCX ? j.om : 0, (int) j.ext, rm_name(j.o.sr), j.o.srv);
}
static void moderate(Rng& g, Line& l) { gen_line(g, l, 4500); if (!l.builtin && g.chance(60)) { l.n = (int) std::min<ll>(l.n, g.in(9000, 45000)); l.x.resize((size_t) l.n); desc("... the first %d of them\n", l.n); } }
static uint64_t jh(const Job& j) { Opt o = j.o; o.batch ^= (uint32_t) j.op << 24 ^ j.k; return bh(o) ^ hashv(j.old); }

MODE(c11big) {
	Budget bud;
	Line l; moderate(g, l); Use u(l); Job j; gen_job(g, l, j, 0); FL = Faults(); vh_track(1); vh_fail_at(-1, 0); vh_fill(1, g.next()); Out base; int64_t N, ra[8]; int nra;
	{ Obj b(j); vh_reset_count(); base = run(j, b); N = vh_count(); nra = vh_realloc_at(ra, 8); collect(j, b, base); } if (vh_live()) viol("leak", "%s: %lld blocks left without any fault", jn[j.op], (ll) vh_live());
	std::vector<int64_t> at; for (int64_t i = 0; i < N; ++i) at.push_back(i); const size_t cap = R.tier ? 24 : 8; if (at.size() > cap) { g.shuffle(at); at.resize(cap); } else cnt("fully_enumerated"); for (int i = 0; i < nra && i < 3; ++i) at.push_back(ra[i]);
	for (int64_t a : at) {
		if (R.violations || bud.spent()) break; const bool persist = g.chance(40); { Obj b(j); vh_reset_count(); vh_fail_at(a, persist); Out r = run(j, b); const int64_t fl = vh_failed(); vh_fail_at(-1, 0); if (!fl) { cnt("not_reached"); continue; } cnt("injected"); cntf(1, "fault_%s", ec_name(r.ec));
		if (r.ec == SCC_ER_OK) { collect(j, b, r); if (base.ec != SCC_ER_OK || !same(base, r)) viol("oom-result", "%s: allocation %lld of %lld fails and the call succeeds with another result", jn[j.op], (ll) a, (ll) N); else cnt("recovered"); }
		else if (r.ec != SCC_ER_NO_MEMORY && !(r.ec == SCC_ER_DIST_SEARCH_ERROR && l.builtin) && r.ec != base.ec) viol("oom-code", "%s: allocation %lld of %lld fails: returned %s", jn[j.op], (ll) a, (ll) N, ec_name(r.ec));
		if (r.ec && b.made) viol("oom-object", "%s failed but returned an object", jn[j.op]); if (r.ec && b.c && !scc_is_initialized_clustering(b.c)) viol("oom-object", "%s: clustering object unusable after the failure", jn[j.op]); }
		if (vh_live() || vh_bad_frees()) viol("oom-leak", "%s: allocation %lld of %lld fails: %lld blocks leaked, %lld bad frees", jn[j.op], (ll) a, (ll) N, (ll) vh_live(), (ll) vh_bad_frees()); if (open_objs) viol("spi-unclosed", "%s: allocation %lld fails: %lld search objects left open", jn[j.op], (ll) a, open_objs);
	}
	vh_track(0); vh_fill(0, 0); cntf(1, "op_%s", jn[j.op]); if (N) sig(jh(j)); if (want_sample()) sample("%s over %d points: %zu of %lld allocations failed", jn[j.op], l.n, at.size(), (ll) N);
}
MODE(c12big) {
	Budget bud;
	Line l; do moderate(g, l); while (l.builtin); Use u(l); Job j; gen_job(g, l, j, 1); FL = Faults(); vh_track(1); Out base; ll N; { Obj b(j); base = run(j, b); N = FL.calls; collect(j, b, base); } if (open_objs) viol("spi-unclosed", "%lld search objects left open", open_objs);
	std::vector<ll> at; for (ll i = 0; i < N; ++i) at.push_back(i); const size_t cap = R.tier ? 30 : 10; if (at.size() > cap) { ll first = at[0], last = at.back(); g.shuffle(at); at.resize(cap); at[0] = first; at[1] = last; at[2] = std::min<ll>(2, N - 1); } else cnt("fully_enumerated");
	for (ll a : at) {
		if (R.violations || bud.spent()) break; { Obj b(j); FL = Faults(); FL.at = a; Out r = run(j, b); const ll hit = FL.injected; const int kind = FL.kind; FL = Faults(); if (!hit) { viol("callback-repeat", "%s: callback number %lld of %lld is not reached in a repetition", jn[j.op], a, N); break; } cnt("injected"); cntf(1, "injected_kind_%d", kind);
		if (r.ec != SCC_ER_DIST_SEARCH_ERROR) viol("callback-failure", "%s: callback number %lld of %lld (kind %d) reports failure but the call returns %s", jn[j.op], a, N, kind, ec_name(r.ec)); }
		if (open_objs) viol("spi-unclosed", "%s: callback number %lld fails: %lld search objects left open", jn[j.op], a, open_objs); if (vh_live() || vh_bad_frees()) viol("callback-leak", "%s: callback number %lld fails: %lld blocks leaked", jn[j.op], a, (ll) vh_live());
	}
	vh_track(0); cntf(1, "op_%s", jn[j.op]); if (N) sig(jh(j)); if (want_sample()) sample("%s over %d points: %zu of %lld callback invocations failed", jn[j.op], l.n, at.size(), N);
}
MODE(c22big) {
	Budget bud;
	Line l; moderate(g, l); Use u(l); Job j; gen_job(g, l, j, 2); const int n = l.n; FL = Faults(); vh_track(1); vh_fail_at(-1, 0); Out base; ll NC; int64_t NA; { Obj b(j); vh_reset_count(); base = run(j, b); NC = FL.calls; NA = vh_count(); collect(j, b, base); }
	for (int t = 0; t < (R.tier ? 6 : 3) && !R.violations && !bud.spent(); ++t) {
		{ Obj b(j); Res before = fetch(b.c, n); bool reached = true;
		for (int f = 0, fs = (int) g.in(1, 2); f < fs && reached && !R.violations; ++f) {
			int kind = (int) g.in(0, 2); Out r; FL = Faults();
			if (kind == 1 && NC > 0) { FL.at = g.chance(30) ? NC - 1 : g.in(0, NC - 1); r = run(j, b); cnt("fault_callback"); }
			else if (kind < 2 && NA > 0) { vh_reset_count(); vh_fail_at(g.in(0, NA - 1), g.chance(50)); r = run(j, b); vh_fail_at(-1, 0); cnt("fault_memory"); }
			else { if (j.op == J_SC) { Job q = j; if (g.chance(50)) q.o.k = (uint32_t) n + 1; else { q.o.sr = SCC_RM_USE_SUPPLIED; q.o.srv = 1e-290; if (l.dups) q.o.k = (uint32_t) n + 1; } r = run(q, b); } else { Job q = j; q.k = (uint32_t) n + 1; r = run(q, b); } cnt("fault_infeasible"); }
			FL = Faults(); if (r.ec == SCC_ER_OK) { reached = false; break; } cntf(1, "failed_%s", ec_name(r.ec)); Res now = fetch(b.c, n);
			if (now.m != before.m || now.lab != before.lab) { ll d = 0; for (size_t i = 0; i < now.lab.size() && i < before.lab.size(); ++i) d += now.lab[i] != before.lab[i]; viol("failure-changed", "%s failed with %s: %lld clusters before, %lld after, %lld labels differ", jn[j.op], ec_name(r.ec), before.m, now.m, d); }
			if (!scc_is_initialized_clustering(b.c)) viol("failure-unusable", "%s: object unusable", jn[j.op]); }
		if (reached && !R.violations) { Out r = run(j, b); collect(j, b, r); cnt("retries"); if (!same(base, r)) viol("retry", "%s: the retry returns %s with %lld clusters instead of %s with %lld (or other labels)", jn[j.op], ec_name(r.ec), r.res.m, ec_name(base.ec), base.res.m); } }
		if (vh_live() || vh_bad_frees()) viol("failure-leak", "%s: %lld blocks leaked over failure and retry", jn[j.op], (ll) vh_live()); if (open_objs) viol("spi-unclosed", "%lld search objects left open", open_objs);
	}
	vh_track(0); cntf(1, "op_%s", jn[j.op]); sig(jh(j)); if (want_sample()) sample("%s over %d points: failures, comparison of the object, retry", jn[j.op], n);
}
// the same call with other heap and buffer contents and after other calls
MODE(c19big) {
	Budget bud;
	Line l; moderate(g, l); Use u(l); Job j; gen_job(g, l, j, 0); FL = Faults(); Out base; { Obj b(j); base = run(j, b); collect(j, b, base); }
	for (int t = 0; t < 3 && !bud.spent(); ++t) {
		vh_track(1); vh_fill(1, g.next()); if (t) { Job q; Rng g2 = g; const bool e = g.chance(50); q = j; q.ext = false; if (q.op == J_SC) { q.o.k = 2 + q.o.k % 5; if (q.o.sumtc() > q.o.k) q.o = Opt(), q.o.k = 3; } else q.k = q.k / 2 + 2; if (e && q.op != J_INIT) { vh_reset_count(); vh_fail_at(g.in(0, 6), 1); } Obj b(q); vh_fail_at(-1, 0); if (b.c || q.op == J_INIT) { if (e) { vh_reset_count(); vh_fail_at(g.in(0, 6), 1); } run(q, b); vh_fail_at(-1, 0); } (void) g2; cnt("interposed"); }
		Obj b(j, g.in(0, 255)); Out r = run(j, b); collect(j, b, r); vh_fill(0, 0); vh_track(0); cnt("repetitions");
		if (!same(base, r)) { viol("repeat", "%s: repetition %d returns %s with %lld clusters, first %s with %lld (or other labels)", jn[j.op], t, ec_name(r.ec), r.res.m, ec_name(base.ec), base.res.m); return; }
	}
	cntf(1, "op_%s", jn[j.op]); sig(jh(j)); if (want_sample()) sample("%s over %d points: three repetitions agree", jn[j.op], l.n);
}
// one wrong entry among many (C09)
MODE(c09big) {
	Line l; moderate(g, l); Use u(l); const int n = l.n; Opt o; gen_bopt(g, o, g.chance(50)); int what = (int) g.in(0, 5); const char* nm = ""; int want = SCC_ER_INVALID_INPUT; ll at = g.chance(30) ? n - 1 : g.chance(20) ? 0 : g.in(0, n - 1);
	if (o.k > 300) { o.k = 3; if (o.typed()) { o.tc.assign(o.num_types, 0); o.tc[0] = 1; } }
	if (what <= 1 && !o.typed()) { o.num_types = (uint32_t) g.pick(vi{ 2, 3, 300 }); o.tl.resize((size_t) n); for (auto& t : o.tl) t = (int) g.in(0, (ll) o.num_types - 1); o.tc.assign(o.num_types, 0); o.tc[(size_t) o.tl[0]] = 1; o.method = SCC_SM_LEXICAL; o.pr = o.scr = SCC_RM_NO_RADIUS; o.has_primary = false; o.prim.clear(); }
	if (what >= 2 && what <= 4) { o.has_primary = true; o.prim.clear(); const int every = (int) g.in(1, 3); for (int i = 0; i < n - 1; i += every) o.prim.push_back(i); if (o.prim.size() < 3) return; at = at % (ll) o.prim.size(); if (at == 0) at = 1; }
	OptC oc(o, n);
	switch (what) {
	case 0: nm = "type label out of range"; oc.tl[at] = (scc_TypeLabel) (o.num_types + (uint32_t) g.pick(vi{ 0, 1, 256 })); if ((uint32_t) oc.tl[at] < o.num_types) return; break;
	case 1: { nm = "more of a type needed than size constraint or points"; std::vector<ll> gs(o.num_types, 0); for (int t : o.tl) ++gs[(size_t) t]; if (g.chance(50)) { for (uint32_t t = 0; t < o.num_types; ++t) oc.tc[t] = 0; size_t t = (size_t) o.tl[(size_t) at]; oc.tc[t] = (uint32_t) gs[t] + 1; oc.o.size_constraint = std::max(o.k, (uint32_t) std::min<ll>(n, gs[t] + 1)); want = SCC_ER_NO_SOLUTION; nm = "more of a type needed than there is"; if (gs[t] + 1 > n) return; } else { uint32_t s = 0; for (uint32_t t = 0; t < o.num_types; ++t) { oc.tc[t] = (uint32_t) std::min<ll>(gs[t], o.k + 1 - std::min(o.k + 1, s)); s += oc.tc[t]; } if (s <= o.k) return; } break; }
	case 2: nm = "primary points out of order"; std::swap(oc.pp[at - 1], oc.pp[at]); break;
	case 3: nm = "a primary point given twice"; if (g.chance(50)) oc.pp[at] = oc.pp[at - 1]; else oc.pp[at - 1] = oc.pp[at]; break;
	case 4: nm = "primary point out of range"; oc.pp[oc.o.len_primary_data_points - 1] = (scc_PointIndex) (n + g.pick(vi{ 0, 1, 65536 })); break;
	default: nm = "size constraint above points"; oc.o.size_constraint = (uint32_t) n + (uint32_t) g.pick(vi{ 1, 65536, 1 << 20 }); want = SCC_ER_NO_SOLUTION; if (o.typed()) { } break; }
	desc("%s at %lld\n", nm, at); scc_Clabel* e = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) e[i] = (scc_Clabel) (i % 5); const bool keep = g.chance(50); scc_Clustering* c = nullptr; scc_init_empty_clustering((uint64_t) n, keep ? e : nullptr, &c);
	int ec = scc_sc_clustering(TK, &oc.o, c); uint64_t np = 0, nc = 9; scc_get_clustering_info(c, &np, &nc); if (ec != want) viol("invalid-code", "%s at place %lld of %d: sc_clustering returned %s, expected %s", nm, at, n, ec_name(ec), ec_name(want)); else if (nc || np != (uint64_t) n) viol("invalid-changed", "%s: rejected call left %llu clusters", nm, (unsigned long long) nc);
	if (keep && want == SCC_ER_INVALID_INPUT) for (int i = 0; i < n; ++i) if (e[i] != (scc_Clabel) (i % 5)) { viol("invalid-changed", "%s: the rejected call wrote to label %d", nm, i); break; }
	scc_free_clustering(&c); if (what != 1) { for (int i = 0; i < n; ++i) e[i] = to_clabel(i % (n / 5 + 1)); scc_init_existing_clustering((uint64_t) n, (uint64_t) (n / 5 + 1), e, false, &c); bool ok = true; ec = scc_check_clustering(c, &oc.o, &ok); if (ec != want) viol("invalid-code", "%s at place %lld of %d: check_clustering returned %s, expected %s", nm, at, n, ec_name(ec), ec_name(want)); scc_free_clustering(&c); }
	free(e); if (open_objs) viol("spi-unclosed", "%lld search objects left open", open_objs); cntf(1, "rejected_%d", what); sig(bh(o) ^ (uint64_t) at * 31 ^ (uint64_t) what << 40); if (want_sample()) sample("%s at place %lld of %d: rejected", nm, at, n);
}
} // namespace
