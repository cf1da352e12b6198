// Fault injection: allocation failure (C11), failing distance callbacks (C12), state after failures (C22).
#include "core.hpp"
namespace {

enum { OP_SC, OP_HC_EMPTY, OP_HC_EXIST, OP_STATS, OP_CHECK, OP_INIT_DS, OP_INIT_EMPTY, OP_INIT_EXIST, OP_COPY, OP_COUNT };
static const char* op_name[] = { "sc_clustering", "hierarchical(empty)", "hierarchical(existing)", "get_clustering_stats", "check_clustering", "init_data_set", "init_empty_clustering", "init_existing_clustering", "copy_clustering" };

struct Job {
	int op = 0; Prob p; Opt o; uint32_t k = 2; bool ba = false; bool ext = false; bool deep = false; std::vector<ll> old; ll om = 1;
};
static void gen_job(Rng& g, Job& j, bool custom, int only = -1) {
	int f = GEN_EXACT | GEN_SMALL | (custom ? GEN_CUSTOM : GEN_NOCUSTOM) | GEN_FEASIBLE;
	static const int w[] = { OP_SC, OP_SC, OP_SC, OP_SC, OP_SC, OP_SC, OP_HC_EMPTY, OP_HC_EXIST, OP_STATS, OP_CHECK, OP_INIT_DS, OP_INIT_EMPTY, OP_INIT_EXIST, OP_COPY };
	j.op = only >= 0 ? only : w[g.in(0, 13)];
	if (j.op == OP_SC && g.chance(35)) f |= GEN_TYPES; else if (j.op == OP_SC && g.chance(15)) f |= GEN_BATCH;
	const bool chain = (j.op == OP_HC_EMPTY || j.op == OP_HC_EXIST) && !custom && g.chance(4);
	if (chain) { gen_chain(g, j.p, (int) (j.op == OP_HC_EXIST ? g.in(180, 330) : g.in(450, 700))); j.p.build_keys(); } else
	gen_prob(g, f, j.p);
	gen_opt(g, f, j.p, j.o);
	j.k = (uint32_t) g.in(2, std::max(2, j.p.n / 3)); if ((int) j.k > j.p.n) j.k = (uint32_t) j.p.n; j.ba = g.chance(50); j.ext = g.chance(40); j.deep = g.chance(50);
	j.om = g.in(1, 3); j.old.resize(j.p.n); for (int i = 0; i < j.p.n; ++i) j.old[i] = g.chance(10) ? -1 : i % j.om;
	if (chain) { j.k = 2; j.ba = false; j.om = g.in(1, 2); for (int i = 0; i < j.p.n; ++i) j.old[i] = i < 10 ? j.om - 1 : 0; }
	describe(j.p, &j.o); desc("operation %s k=%u batch_assign=%d ext=%d deep=%d old_clusters=%lld\n", op_name[j.op], j.k, (int) j.ba, (int) j.ext, (int) j.deep, j.om);
}
// objects of one execution
struct Exec {
	scc_Clustering* cl = nullptr; scc_Clustering* out = nullptr; scc_DataSet* dout = nullptr; scc_Clabel* ext = nullptr; double* dbuf = nullptr;
	scc_ClusteringStats st; bool ok = false; int ec = -1; Res res;
};
static bool is_ctor(int op) { return op == OP_INIT_DS || op == OP_INIT_EMPTY || op == OP_INIT_EXIST || op == OP_COPY; }
static void setup(const Job& j, Exec& e) {
	const int n = j.p.n; memset(&e.st, 0, sizeof e.st);
	if (j.ext || j.op == OP_HC_EXIST || j.op == OP_STATS || j.op == OP_CHECK || j.op == OP_COPY || j.op == OP_INIT_EXIST) { e.ext = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) e.ext[i] = to_clabel(j.old[i]); }
	if (j.op == OP_SC || j.op == OP_HC_EMPTY) scc_init_empty_clustering((uint64_t) n, j.ext ? e.ext : nullptr, &e.cl);
	else if (j.op == OP_HC_EXIST || j.op == OP_STATS || j.op == OP_CHECK || j.op == OP_COPY) scc_init_existing_clustering((uint64_t) n, (uint64_t) j.om, e.ext, j.deep, &e.cl);
}
static int call(const Job& j, DS& d, const OptC& oc, Exec& e) {
	const int n = j.p.n; e.ok = false;
	switch (j.op) {
	case OP_SC: return scc_sc_clustering(d.ds, &oc.o, e.cl);
	case OP_HC_EMPTY: case OP_HC_EXIST: return scc_hierarchical_clustering(d.ds, j.k, j.ba, e.cl);
	case OP_STATS: return scc_get_clustering_stats(d.ds, e.cl, &e.st);
	case OP_CHECK: return scc_check_clustering(e.cl, &oc.o, &e.ok);
	case OP_INIT_DS: if (!e.dbuf) e.dbuf = (double*) calloc((size_t) n, sizeof(double)); return scc_init_data_set((uint64_t) n, 1, (size_t) n, e.dbuf, &e.dout);
	case OP_INIT_EMPTY: return scc_init_empty_clustering((uint64_t) n, j.ext ? e.ext : nullptr, &e.out);
	case OP_INIT_EXIST: return scc_init_existing_clustering((uint64_t) n, (uint64_t) j.om, e.ext, j.deep, &e.out);
	default: return scc_copy_clustering(e.cl, &e.out);
	}
}
static void collect(const Job& j, Exec& e) { // result of a successful call
	const int n = j.p.n;
	if (j.op <= OP_HC_EXIST) e.res = fetch(e.cl, n);
	else if (j.op == OP_INIT_EXIST || j.op == OP_COPY || j.op == OP_INIT_EMPTY) { if (e.out) e.res = fetch(e.out, n); else viol("ctor", "%s succeeded without an object", op_name[j.op]); }
	else if (j.op == OP_INIT_DS && !scc_is_initialized_data_set(e.dout)) viol("ctor", "scc_init_data_set succeeded without a usable object");
}
static void teardown(Exec& e) { scc_free_clustering(&e.cl); scc_free_clustering(&e.out); scc_free_data_set(&e.dout); free(e.ext); free(e.dbuf); e.ext = nullptr; e.dbuf = nullptr; }
static bool same_result(const Job& j, const Exec& a, const Exec& b) {
	if (j.op == OP_STATS) return !memcmp(&a.st, &b.st, sizeof a.st);
	if (j.op == OP_CHECK) return a.ok == b.ok;
	return a.res.m == b.res.m && a.res.lab == b.res.lab;
}

// ---------------------------------------------------------------- C11
MODE(c11) {
	Job j; gen_job(g, j, g.chance(25));
	DS d(j.p); OptC oc(j.o, j.p.n);
	Exec base; vh_track(1); vh_fill(1, g.next()); vh_fail_at(-1, 0); vh_fail_mask(0, 0);
	setup(j, base); vh_reset_count(); base.ec = call(j, d, oc, base); int64_t N = vh_count();
	if (base.ec == SCC_ER_OK) collect(j, base);
	teardown(base);
	if (vh_live() != 0 || vh_bad_frees() != 0) { viol("leak", "%s: %lld blocks left without any fault (%lld bad frees)", op_name[j.op], (ll) vh_live(), (ll) vh_bad_frees()); vh_track(0); return; }
	cntf(1, "op_%s", op_name[j.op]); cnt("allocation_sites_reached", N);
	if (base.ec != SCC_ER_OK) cnt("baseline_failing");
	std::vector<int64_t> idxs; for (int64_t i = 0; i < N; ++i) idxs.push_back(i);
	int64_t ra[8]; int nra = vh_realloc_at(ra, 8);
	if (nra && j.op != OP_SC) cnt("stack_grew");
	const size_t cap = j.p.n > 150 ? 12 : R.tier ? 400 : 60; if (idxs.size() > cap) { g.shuffle(idxs); idxs.resize(cap); for (int i = 0; i < nra; ++i) idxs.push_back(ra[i]); } else cnt("fully_enumerated");
	int extra = 3;
	for (size_t t = 0; t < idxs.size() * 2 + (size_t) extra; ++t) {
		bool mask = t >= idxs.size() * 2; int64_t at = mask ? -1 : idxs[t / 2]; bool persist = t & 1;
		Exec e; vh_fail_at(-1, 0); vh_fail_mask(0, 0); setup(j, e); vh_reset_count();
		if (mask) vh_fail_mask(g.next(), 150); else vh_fail_at(at, persist);
		desc("");
		e.ec = call(j, d, oc, e);
		int64_t fl = vh_failed(); vh_fail_at(-1, 0); vh_fail_mask(0, 0);
		cnt("injected", fl > 0); cnt("executions");
		if (fl > 0) cntf(1, "fault_%s", ec_name(e.ec));
		const char* how = mask ? "random failures" : persist ? "this and all later ones" : "this one only";
		if (fl > 0 && e.ec != SCC_ER_OK && e.ec != SCC_ER_NO_MEMORY && !(e.ec == SCC_ER_DIST_SEARCH_ERROR && !j.p.custom) && e.ec != base.ec)
			viol("oom-code", "%s: allocation %lld of %lld fails (%s): returned %s", op_name[j.op], (ll) at, (ll) N, how, ec_name(e.ec));
		else if (fl > 0 && e.ec != SCC_ER_OK && base.ec == SCC_ER_OK && e.ec == SCC_ER_DIST_SEARCH_ERROR && !is_ctor(j.op) && j.op == OP_CHECK) viol("oom-code", "check_clustering returned a distance error");
		else if (e.ec == SCC_ER_OK) {
			if (base.ec != SCC_ER_OK) viol("oom-ok", "%s: fails with %s normally but succeeds when allocation %lld fails", op_name[j.op], ec_name(base.ec), (ll) at);
			else { collect(j, e); if (!same_result(j, base, e)) viol("oom-result", "%s: allocation %lld of %lld fails (%s) and the call succeeds with a different result", op_name[j.op], (ll) at, (ll) N, how); else if (fl) cnt("recovered"); }
		} else {
			if (is_ctor(j.op) && (e.out || e.dout)) viol("oom-object", "%s failed but returned an object", op_name[j.op]);
			if (e.cl && !scc_is_initialized_clustering(e.cl)) viol("oom-object", "%s: clustering object unusable after the failure", op_name[j.op]);
			if (e.cl) { uint64_t a = 0, b = 0; if (scc_get_clustering_info(e.cl, &a, &b) != SCC_ER_OK || a != (uint64_t) j.p.n) viol("oom-object", "%s: clustering object unusable after the failure", op_name[j.op]); else if (b > 0) { scc_Clabel* lb = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) j.p.n); if (scc_get_cluster_labels(e.cl, (size_t) j.p.n, lb) != SCC_ER_OK) viol("oom-object", "%s: labels unavailable after the failure", op_name[j.op]); free(lb); } }
		}
		teardown(e);
		if (vh_live() != 0) { viol("oom-leak", "%s: allocation %lld of %lld fails (%s): %lld blocks (%zu bytes) leaked", op_name[j.op], (ll) at, (ll) N, how, (ll) vh_live(), vh_live_bytes()); vh_track(1); }
		if (vh_bad_frees() != 0) { viol("oom-bad-free", "%s: allocation %lld of %lld fails (%s): freed memory it does not own", op_name[j.op], (ll) at, (ll) N, how); vh_track(1); }
		if (j.p.custom && !spi_check(op_name[j.op])) break;
		if (R.violations) break;
	}
	vh_track(0); vh_fill(0, 0);
	sig(prob_hash(j.p, &j.o) ^ (uint64_t) j.op << 50);
	if (want_sample()) sample("%s n=%d: %lld allocations, each failed once and persistently; baseline %s", op_name[j.op], j.p.n, (ll) N, ec_name(base.ec));
}

// ---------------------------------------------------------------- C12
MODE(c12) {
	int only = (int) g.pick(vi{ OP_SC, OP_SC, OP_SC, OP_SC, OP_SC, OP_HC_EMPTY, OP_HC_EXIST, OP_STATS });
	Job j; gen_job(g, j, true, only);
	DS d(j.p); OptC oc(j.o, j.p.n);
	Exec base; vh_track(1); vh_fail_at(-1, 0); setup(j, base); SM.calls = SM.close_calls = 0; base.ec = call(j, d, oc, base); ll N = SM.calls; const ll NC = SM.close_calls;
	if (base.ec == SCC_ER_OK) collect(j, base);
	teardown(base); spi_check("baseline");
	cntf(1, "op_%s", op_name[j.op]); cnt("callbacks_seen", N);
	for (int i = 0; i < 10; ++i) cntf(SM.by_kind[i], "cb_kind_%d", i);
	std::vector<ll> idxs; for (ll i = 0; i < N; ++i) idxs.push_back(i);
	if (idxs.size() > 120) { g.shuffle(idxs); idxs.resize(120); } else cnt("fully_enumerated");
	for (ll at : idxs) {
		Exec e; SM.fail_at = -1; setup(j, e); SM.calls = 0; SM.injected = 0; SM.injected_kind = -1; SM.calls_after_fail = 0; SM.fail_at = at;
		Res before; if (j.op == OP_HC_EXIST || j.op == OP_STATS) before = fetch(e.cl, j.p.n);
		e.ec = call(j, d, oc, e); SM.fail_at = -1;
		if (SM.injected) {
			cntf(1, "injected_kind_%d", SM.injected_kind); cnt("injected");
			if (e.ec != SCC_ER_DIST_SEARCH_ERROR) viol("callback-failure", "%s: callback number %lld (kind %d) reports failure but the call returns %s", op_name[j.op], at, SM.injected_kind, ec_name(e.ec));
			if (SM.calls_after_fail) cnt("calls_after_failure", SM.calls_after_fail);
			char msg[300]; if (e.ec && (!scc_get_latest_error(sizeof msg, msg) || !msg[0])) viol("callback-message", "no error message after a distance failure");
		} else if (e.ec != base.ec) viol("callback-failure", "%s: result code changes without a fault", op_name[j.op]);
		teardown(e);
		if (!spi_check(op_name[j.op])) break;
		if (vh_live() != 0 || vh_bad_frees()) { viol("callback-leak", "%s: callback number %lld fails: %lld blocks leaked, %lld bad frees", op_name[j.op], at, (ll) vh_live(), (ll) vh_bad_frees()); break; }
		if (R.violations) break;
	}
	// closing a search fails: reported, or without influence
	for (ll at = 0; at < NC && at < 40 && !R.violations; ++at) {
		Exec e; SM.fail_at = -1; setup(j, e); SM.close_calls = SM.close_injected = 0; SM.close_fail_at = at;
		e.ec = call(j, d, oc, e); SM.close_fail_at = -1; cnt("injected_close", SM.close_injected); if (SM.close_injected) cntf(1, "close_fault_%s", ec_name(e.ec));
		if (e.ec != SCC_ER_DIST_SEARCH_ERROR && e.ec != base.ec) viol("close-failure", "%s: closing search %lld reports failure and the call returns %s instead of %s", op_name[j.op], at, ec_name(e.ec), ec_name(base.ec));
		else if (e.ec == SCC_ER_OK) { collect(j, e); if (!same_result(j, base, e)) viol("close-failure", "%s: closing search %lld reports failure and the call succeeds with another result", op_name[j.op], at); }
		teardown(e);
		if (!spi_check(op_name[j.op])) break;
		if (vh_live() != 0 || vh_bad_frees()) viol("callback-leak", "%s: closing search %lld fails: %lld blocks leaked, %lld bad frees", op_name[j.op], at, (ll) vh_live(), (ll) vh_bad_frees());
	}
	vh_track(0);
	sig(prob_hash(j.p, &j.o) ^ (uint64_t) j.op << 50);
	if (want_sample()) sample("%s %s n=%d: %lld callback invocations, each failed in turn", op_name[j.op], j.p.kind, j.p.n, N);
}

// ---------------------------------------------------------------- C22
MODE(c22) {
	int only = (int) g.pick(vi{ OP_SC, OP_SC, OP_SC, OP_HC_EMPTY, OP_HC_EXIST, OP_HC_EXIST });
	bool custom = g.chance(50); Job j; gen_job(g, j, custom, only); const int n = j.p.n;
	DS d(j.p); OptC oc(j.o, n);
	vh_track(1); vh_fill(1, g.next()); vh_fail_at(-1, 0);
	Exec base; setup(j, base); SM.calls = 0; vh_reset_count(); base.ec = call(j, d, oc, base); ll NC = custom ? SM.calls : 0; int64_t NA = vh_count();
	int64_t ra[8]; const int nra = vh_realloc_at(ra, 8);
	if (base.ec == SCC_ER_OK) collect(j, base);
	teardown(base);
	for (int t = 0; t < 40; ++t) {
		Exec e; setup(j, e); Res before = fetch(e.cl, n);
		int faults = (int) g.in(1, 3); bool bad = false;
		for (int f = 0; f < faults && !bad; ++f) {
			int kind = (int) g.in(0, 2); int ec;
			if (kind == 0 || (kind == 1 && !custom)) { vh_reset_count(); vh_fail_at(nra && g.chance(20) ? ra[g.in(0, nra - 1)] : NA > 0 ? (int64_t) g.in(0, NA - 1) : 0, g.chance(50)); ec = call(j, d, oc, e); vh_fail_at(-1, 0); cnt("fault_memory"); }
			else if (kind == 1) { SM.calls = 0; SM.injected = 0; SM.fail_at = NC > 0 ? g.in(0, NC - 1) : 0; ec = call(j, d, oc, e); SM.fail_at = -1; cnt("fault_callback"); }
			else { // infeasible request
				if (j.op == OP_SC) { Opt q = j.o; int w = (int) g.in(0, 3);
					if (w == 0) q.k = (uint32_t) n + 1; else if (w == 1) { q.sr = SCC_RM_USE_SUPPLIED; q.srv = 1e-290; } else if (w == 2 && q.typed()) { q.tc.assign(q.num_types, 0); q.tc[0] = (uint32_t) n; q.k = (uint32_t) n; } else q.k = 1;
					OptC qc(q, n); ec = scc_sc_clustering(d.ds, &qc.o, e.cl); }
				else ec = scc_hierarchical_clustering(d.ds, (uint32_t) n + 1, j.ba, e.cl);
				cnt("fault_infeasible"); }
			if (ec == SCC_ER_OK) { bad = true; break; } // the fault was not reached (or recovered from): nothing to check
			cntf(1, "failed_%s", ec_name(ec));
			Res now = fetch(e.cl, n);
			if (now.m != before.m || now.lab != before.lab) { viol("failure-changed", "%s failed with %s: clustering had %lld clusters before and has %lld after (or other labels)", op_name[j.op], ec_name(ec), before.m, now.m); bad = true; }
			if (!scc_is_initialized_clustering(e.cl)) { viol("failure-unusable", "%s failed with %s: clustering reported as uninitialised", op_name[j.op], ec_name(ec)); bad = true; }
			scc_Clustering* cp = nullptr; int cc = scc_copy_clustering(e.cl, &cp);
			if (cc != SCC_ER_OK) { viol("failure-unusable", "copy after failure: %s", ec_name(cc)); bad = true; } else { Res q = fetch(cp, n); if (q.m != before.m || q.lab != before.lab) { viol("failure-unusable", "copy after failure differs"); bad = true; } }
			scc_free_clustering(&cp);
			// re-using the object in another way must work as on a fresh one
			if (!bad && before.m > 0) { scc_ClusteringStats s; int sc = scc_get_clustering_stats(d.ds, e.cl, &s); if (sc != SCC_ER_OK) { viol("failure-unusable", "statistics after failure: %s", ec_name(sc)); bad = true; } }
		}
		if (!bad) { e.ec = call(j, d, oc, e); cnt("retries");
			if (e.ec != base.ec) viol("retry", "%s: retry after failure returns %s instead of %s", op_name[j.op], ec_name(e.ec), ec_name(base.ec));
			else if (e.ec == SCC_ER_OK) { collect(j, e); if (!same_result(j, base, e)) viol("retry", "%s: retry after failure gives another result", op_name[j.op]); } }
		teardown(e);
		if (vh_live() != 0 || vh_bad_frees()) { viol("failure-leak", "%s: %lld blocks leaked over failure and retry, %lld bad frees", op_name[j.op], (ll) vh_live(), (ll) vh_bad_frees()); break; }
		if (custom && !spi_check(op_name[j.op])) break;
		if (R.violations) break;
	}
	vh_track(0); vh_fill(0, 0);
	sig(prob_hash(j.p, &j.o) ^ (uint64_t) j.op << 50);
	if (want_sample()) sample("%s n=%d custom=%d: 40 failure/retry histories", op_name[j.op], n, (int) custom);
}
} // namespace
