// The bundled ANN search (examples/ann) as a plug-in, and the example programs (C27).
#include "core.hpp"
#include <new>
#include <set>
#include <unistd.h>
#include <sys/wait.h>
#include <exception>
extern "C" bool scc_set_ann_dist_search();
extern "C" int vh_example_simple(void); extern "C" int vh_example_ann(void); // main() of the example programs (renamed, so the implicit return value is lost)
namespace {
static volatile bool win = false; static ll news = 0, live = 0, fail_new = -1; static bool failed = false;
static void* get(size_t n) { if (win) { if (++news == fail_new) { failed = true; throw std::bad_alloc(); } ++live; } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static void put(void* p) { if (p && win) --live; free(p); }
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
namespace {
struct Win { Win(ll f = -1) { news = live = 0; fail_new = f; failed = false; win = true; } ~Win() { win = false; fail_new = -1; } };
struct Ann { Ann() { if (!scc_set_ann_dist_search()) viol("ann-install", "scc_set_ann_dist_search reports failure"); } ~Ann() { scc_reset_dist_functions(); } };

#ifdef SCC_M_POINTINDEX_TYPE_int
static const bool int_index = true;
#else
static const bool int_index = false;
#endif
// Runs a call in a child process with a failing allocation: 0 as it should be, 1 the failure was not reported, 2 not reached, 77 ended by an exception, other: crashed.
template<class F> static int in_child(F f) {
	fflush(stdout); fflush(stderr); pid_t pid = fork(); if (pid < 0) return 2;
	if (pid == 0) { close(2); std::set_terminate([] { _exit(77); }); _exit(f()); }
	int st = 0; while (waitpid(pid, &st, 0) < 0) {} return WIFEXITED(st) ? WEXITSTATUS(st) : 200;
}
static void judge_child(int st, const char* what, ll at) {
	cnt("forked_failures"); if (st == 2) cnt("forked_not_reached");
	if (st == 77) finding("ann-exception", "allocation %lld fails in %s: an exception leaves the ANN search and ends the process", at, what);
	else if (st != 0 && st != 2) viol("ann-swallowed", "allocation %lld fails in %s: child status %d", at, what, st);
	else if (st == 0) cnt("forked_reported");
}

static void example(int (*f)(void), const char* name) {
	char path[] = "/tmp/vh-example-XXXXXX"; int fd = mkstemp(path); if (fd < 0) return; unlink(path);
	fflush(stdout); int old = dup(1); dup2(fd, 1); f(); fflush(stdout); dup2(old, 1); close(old); scc_reset_dist_functions();
	char buf[512] = {0}; lseek(fd, 0, SEEK_SET); ssize_t n = read(fd, buf, sizeof buf - 1); close(fd); (void) n;
	std::vector<int> lab; char* s = strchr(buf, '\n'); if (s) for (char* e = s; ; s = e) { long v = strtol(s, &e, 10); if (e == s) break; lab.push_back((int) v); }
	std::vector<int> c; for (int l : lab) { if (l < 0 || l > 3) { viol("example", "%s: label %d", name, l); return; } if ((size_t) l >= c.size()) c.resize((size_t) l + 1); ++c[(size_t) l]; }
	if (lab.size() != 10) viol("example", "%s: %zu labels", name, lab.size());
	for (size_t i = 0; i < c.size(); ++i) if (c[i] < 3) viol("example", "%s: cluster %zu has %d points", name, i, c[i]);
	cnt("example_runs");
}
MODE(c27) {
	if (idx % 2000 == 0) { example(vh_example_simple, "simple_example"); example(vh_example_ann, "ann_example"); }
	Prob p; Opt o; int f = GEN_EXACT | GEN_NOCUSTOM | (g.chance(60) ? GEN_SMALL : 0); gen_prob(g, f, p); gen_opt(g, f | (g.chance(70) ? GEN_FEASIBLE : 0), p, o); int n = p.n;
	if (idx % 2 == 0) { // the search itself
		describe(p, nullptr); DS d(p); Ann a; std::vector<double> orig = p.X;
		vi s((size_t) n); for (int i = 0; i < n; ++i) s[(size_t) i] = i; bool all = g.chance(40);
		size_t ls = (size_t) g.in(1, n); if (g.chance(40)) ls = (size_t) n; if (!all) g.shuffle(s); s.resize(ls);
		scc_PointIndex* sp = all ? nullptr : (scc_PointIndex*) malloc(sizeof(scc_PointIndex) * ls); if (sp) for (size_t i = 0; i < ls; ++i) sp[i] = (scc_PointIndex) s[i];
		desc("search=%s(%zu)\n", all ? "NULL" : "list", ls);
		for (ll ff = g.chance(30) ? (ll) 2 : 0; ff >= 0; --ff) { // failing allocations 2, 1, then none
			void* obj = nullptr; bool ok; { Win w(ff ? ff : -1); ok = shim_nn_open(d.ds, ls, sp, &obj); }
			if (ff && failed && ok) viol("ann-swallowed", "opening succeeded although allocation %lld failed", ff);
			if (ff && !ok) { cnt("failed_opens"); if (live == 1 && ff == 2) finding("ann-open-leak", "opening a search fails at allocation 2 (the search object): the array of search points leaks"); else if (live > 0) viol("ann-leak", "opening fails at allocation %lld: %lld blocks leak", ff, live); if (obj) viol("ann-handle", "a failed open leaves a handle"); continue; }
			if (!ok) { viol("ann-open", "opening a search failed"); break; }
			ll base_live = live;
			for (int rep = 0; rep < 3 && !R.violations; ++rep) {
				bool qall = g.chance(40); vi q((size_t) n); for (int i = 0; i < n; ++i) q[(size_t) i] = i; if (!qall) g.shuffle(q); size_t lq = (size_t) g.in(1, n); q.resize(lq);
				scc_PointIndex* qp = qall ? nullptr : (scc_PointIndex*) malloc(sizeof(scc_PointIndex) * lq); if (qp) for (size_t i = 0; i < lq; ++i) qp[i] = (scc_PointIndex) q[i];
				uint32_t k = (uint32_t) (g.chance(20) ? (ll) ls : g.in(1, std::min<ll>((ll) ls, g.chance(70) ? 5 : (ll) ls))); bool rs = g.chance(50); double r = rs ? pick_radius(g, p, k) : 0.0, thr = r * r;
				bool oqnull = !rs && g.chance(50), alias = !oqnull && qp && g.chance(50); scc_PointIndex* own = nullptr; scc_PointIndex* oq = oqnull ? nullptr : alias ? qp : (own = (scc_PointIndex*) malloc(sizeof(scc_PointIndex) * lq));
				scc_PointIndex* nn = (scc_PointIndex*) malloc(sizeof(scc_PointIndex) * lq * k); size_t nok = 12345; ll sf = ff == 0 && g.chance(15) ? (int_index && all ? 1 : g.in(1, 2)) : -1;
				desc("search k=%u radius=%d(%.17g) queries=%s(%zu) fail=%lld\n", k, (int) rs, r, qall ? "NULL" : "list", lq, sf);
				bool sok; { Win w(sf); sok = shim_nn_search(obj, lq, qp, k, rs, r, &nok, oq, nn); } { if (sok && failed) viol("ann-swallowed", "a search succeeded although allocation %lld failed", sf); if (live == 1 && sf == 2 && !sok) finding("ann-scratch-leak", "a search fails at allocation 2 (the distance scratch): the index scratch leaks"); else if (live == 1 && sok && int_index && all && !rs) finding("ann-int-leak", "int point indices, all points searched, no radius: the distance scratch leaks and the search is done twice"); else if (live > 0) viol("ann-leak", "a search %s leaks %lld blocks", sok ? "" : "with a failing allocation", live); }
				if (sf > 0 && !sok) cnt("failed_searches");
				else if (!sok) viol("ann-search", "a search failed");
				else {
					size_t w = 0; std::vector<double> v; vi posn((size_t) n, -1); for (size_t j = 0; j < ls; ++j) posn[(size_t) s[j]] = (int) j;
					for (size_t i = 0; i < lq && !R.violations; ++i) {
						v.clear(); for (int x : s) { double key = p.key(q[i], x); if (!rs || key <= thr) v.push_back(key); }
						if (v.size() < k) { cnt("queries_out_of_radius"); continue; }
						std::sort(v.begin(), v.end());
						if (w >= nok) { viol("ann-count", "query %d has %zu points within the radius but is not reported", q[i], v.size()); break; }
						if (oq && (ll) oq[w] != q[i]) { viol("ann-query", "successful query %zu reported as %lld, expected %d", w, (ll) oq[w], q[i]); break; }
						std::set<ll> seen;
						for (uint32_t t = 0; t < k; ++t) { ll got = (ll) nn[w * k + t]; if (got < 0 || got >= n || posn[(size_t) got] < 0 || !seen.insert(got).second || p.key(q[i], (int) got) != v[t]) { viol("ann-nn", "query %d neighbour %u is %lld, expected a distinct search point at squared distance %.17g", q[i], t, got, v[t]); break; } }
						++w; cnt("queries_ok");
					}
					if (!R.violations && nok != w) viol("ann-count", "%zu successful queries reported, expected %zu", nok, w);
				}
				if (ff == 0 && (idx % 2000 == 0 || g.in(0, 199) == 0) && !R.violations) { ll at = g.in(3, 12); size_t x2 = 0; judge_child(in_child([&]() -> int { Win w(at); bool z = shim_nn_search(obj, lq, alias ? nullptr : qp, k, rs, r, &x2, own, nn); return !failed ? 2 : z ? 1 : 0; }), "a search", at); }
				cnt("searches"); if (rs) cnt("searches_radius"); if (alias) cnt("searches_aliased"); if (all) cnt("searches_sequential");
				free(own); free(nn); free(qp);
			}
			{ bool c; { Win w; c = shim_nn_close(&obj); } if (!c || obj) viol("ann-close", "closing failed or left the handle"); if (base_live + live > 0) viol("ann-leak", "opening and closing a search leaks %lld blocks", base_live + live); }
		}
		if (memcmp(d.buf, orig.data(), sizeof(double) * orig.size())) viol("data-written", "the data matrix was modified");
		free(sp); sig(prob_hash(p, nullptr) ^ ls);
		if (want_sample()) sample("%s n=%d dim=%d, %zu search points: three ANN searches equal the reference", p.kind, n, p.dim, ls);
		return;
	}
	describe(p, &o); DS d(p); Ann a; // whole clusterings
	Res r = run_sc(d, p, o, g.chance(50)); cntf(1, "ec_%s", ec_name(r.ec));
	bool amb = false; bool can = solvable(d, p, o, &amb); if (!amb && can != (r.ec == SCC_ER_OK)) viol("ann-feasible", "feasibility says %d, the library returned %s", (int) can, ec_name(r.ec));
	if (r.ec == SCC_ER_OK && !R.violations) { analyze(d, p, o, r, A_ALL); if (r.m > 1) sig(prob_hash(p, &o)); }
	if (!R.violations && g.chance(30)) { OptC oc(o, n); scc_Clustering* c = nullptr; if (scc_init_empty_clustering((uint64_t) n, nullptr, &c) == SCC_ER_OK) { int ec; ll total; { Win w; ec = scc_sc_clustering(d.ds, &oc.o, c); total = news; } { if (live > 0 && int_index && o.sr == SCC_RM_NO_RADIUS) finding("ann-int-leak", "int point indices, all points searched, no radius: the distance scratch leaks and the search is done twice"); else if (live > 0) viol("ann-leak", "scc_sc_clustering with the ANN search leaks %lld blocks", live); } scc_free_clustering(&c); (void) ec;
		if (total > 0 && g.chance(3)) for (int t = 0; t < 3 && !R.violations; ++t) { ll at = g.in(1, total); judge_child(in_child([&]() -> int { scc_Clustering* c2 = nullptr; if (scc_init_empty_clustering((uint64_t) n, nullptr, &c2) != SCC_ER_OK) return 2; int e2; { Win w(at); e2 = scc_sc_clustering(d.ds, &oc.o, c2); } if (!failed) return 2; return e2 == SCC_ER_DIST_SEARCH_ERROR ? 0 : 1; }), "scc_sc_clustering", at); } } }
	if (want_sample()) sample("%s n=%d size=%u types=%u with the ANN search: %s, %lld clusters", p.kind, n, o.k, o.num_types, ec_name(r.ec), r.m);
}
} // namespace
