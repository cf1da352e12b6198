// Object lifecycle, ownership and values (C18), and random valid API sessions for the memory and UB monitors (C10).
#include "core.hpp"
#include <sys/mman.h>
#include <unistd.h>
namespace {

// Read-only input area: inputs end right before an inaccessible page and cannot be written; the hardware reports any write or overrun.
struct RoArea {
	struct Blk { char* base; size_t len; }; std::vector<Blk> v;
	void* put(const void* src, size_t n, size_t align) {
		size_t pg = (size_t) sysconf(_SC_PAGESIZE); size_t data = ((n + pg - 1) / pg + 1) * pg; char* b = (char*) mmap(nullptr, data + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (b == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(3); }
		size_t off = data - n; off -= off % align; memcpy(b + off, src, n); mprotect(b, data, PROT_READ); mprotect(b + data, pg, PROT_NONE); v.push_back({ b, data + pg }); return b + off;
	}
	~RoArea() { for (auto& x : v) munmap(x.base, x.len); }
};
struct RoOpt { // options whose struct and arrays are write protected
	const scc_ClusterOptions* o;
	RoOpt(RoArea& a, const OptC& c) {
		scc_ClusterOptions t = c.o;
		if (c.tc) t.type_constraints = (uint32_t*) a.put(c.tc, sizeof(uint32_t) * t.num_types, 4);
		if (c.tl) t.type_labels = (scc_TypeLabel*) a.put(c.tl, sizeof(scc_TypeLabel) * t.len_type_labels, sizeof(scc_TypeLabel));
		if (c.pp) t.primary_data_points = (scc_PointIndex*) a.put(c.pp, sizeof(scc_PointIndex) * t.len_primary_data_points, sizeof(scc_PointIndex));
		o = (const scc_ClusterOptions*) a.put(&t, sizeof t, alignof(scc_ClusterOptions));
	}
};

struct Slot { scc_Clustering* c = nullptr; int n = 0; ll m = 0; std::vector<ll> lab; scc_Clabel* ext = nullptr; scc_Clabel* src = nullptr; bool live = false; };
static const char* OP = "";
static bool verify(const std::vector<Slot>& S, Rng& g) {
	for (size_t i = 0; i < S.size(); ++i) {
		const Slot& s = S[i]; if (!s.live) continue;
		if (!scc_is_initialized_clustering(s.c)) { viol("obj-uninit", "after %s: object %zu is reported as uninitialised", OP, i); return false; }
		uint64_t a = 77, b = 78; int ec = scc_get_clustering_info(s.c, &a, &b);
		if (ec != SCC_ER_OK || a != (uint64_t) s.n || b != (uint64_t) s.m) { viol("obj-info", "after %s: object %zu reports %llu points, %llu clusters (%s), expected %d and %lld", OP, i, (unsigned long long) a, (unsigned long long) b, ec_name(ec), s.n, s.m); return false; }
		if (s.m == 0) continue;
		int how = (int) g.in(0, 5); size_t len = how == 0 ? (size_t) g.in(1, s.n) : how == 1 ? (size_t) (s.n + g.in(1, 9)) : (size_t) s.n;
		scc_Clabel* o = (scc_Clabel*) malloc(sizeof(scc_Clabel) * len); memset(o, 0x5a, sizeof(scc_Clabel) * len);
		ec = scc_get_cluster_labels(s.c, len, o); bool ok = true;
		if (ec != SCC_ER_OK) { viol("obj-labels-code", "after %s: labels of object %zu: %s", OP, i, ec_name(ec)); ok = false; }
		for (size_t j = 0; ok && j < len; ++j) { ll w = j < (size_t) s.n ? s.lab[j] : -1; if (o[j] != to_clabel(w)) { viol("obj-labels", "after %s: object %zu (n=%d%s): label %zu of a buffer of %zu is %lld, expected %lld", OP, i, s.n, s.ext ? ", external" : "", j, len, from_clabel(o[j]), w); ok = false; } }
		free(o); if (!ok) return false;
		if (s.ext) for (int j = 0; j < s.n; ++j) if (s.ext[j] != to_clabel(s.lab[(size_t) j])) { viol("obj-external", "after %s: external labels of object %zu are not those of the clustering", OP, i); return false; }
		cnt("objects_compared");
	}
	return true;
}
static void drop(Slot& s, Rng& g) {
	if (s.live) { scc_free_clustering(&s.c); if (s.c) viol("obj-free-null", "scc_free_clustering left the handle non-NULL"); s.live = false; if (g.chance(50)) scc_free_clustering(&s.c); }
	if (s.ext) { for (int i = 0; i < s.n && s.m > 0; ++i) if (s.ext[i] != to_clabel(s.lab[(size_t) i])) { viol("obj-external", "freeing a clustering changed its external labels"); break; } free(s.ext); s.ext = nullptr; }
	free(s.src); s = Slot();
}
static scc_Clabel* mk_labels(Rng& g, int n, ll m, std::vector<ll>& lab) {
	int na = g.chance(40) ? (int) g.in(1, 50) : 0; lab.resize(n); scc_Clabel* e = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n);
	for (int i = 0; i < n; ++i) { lab[i] = g.chance(na) ? -1 : g.in(0, m - 1); e[i] = to_clabel(lab[i]); }
	return e;
}

MODE(c18) {
	Prob p; gen_prob(g, GEN_EXACT | GEN_SMALL | GEN_NOCUSTOM, p); describe(p, nullptr); const int n = p.n;
	RoArea ro; double* X = (double*) ro.put(p.X.data(), sizeof(double) * p.X.size(), 8);
	vh_track(1); int64_t base = vh_live();
	scc_DataSet* ds = (scc_DataSet*) (uintptr_t) 0x8; size_t extra = g.chance(20) ? 0 : 0; (void) extra;
	int ec = scc_init_data_set((uint64_t) n, (uint32_t) p.dim, p.X.size(), X, &ds);
	if (ec != SCC_ER_OK || !ds || !scc_is_initialized_data_set(ds)) { viol("ds-init", "scc_init_data_set: %s", ec_name(ec)); vh_track(0); return; }
	std::vector<Opt> os; std::vector<OptC*> oc; std::vector<RoOpt> ros;
	for (int i = 0; i < 3; ++i) { Opt o; gen_opt(g, g.chance(70) ? GEN_FEASIBLE : 0, p, o); os.push_back(o); }
	for (auto& o : os) { oc.push_back(new OptC(o, n)); ros.push_back(RoOpt(ro, *oc.back())); }
	std::vector<Slot> S(5); int nops = (int) g.in(8, R.tier ? 60 : 30); uint64_t h = prob_hash(p, nullptr); bool ok = true; int kinds = 0;
	for (int t = 0; ok && t < nops; ++t) {
		int op = t < 2 ? (int) g.in(0, 2) : g.chance(35) ? (int) g.in(9, 11) : (int) g.in(0, 14); size_t i = (size_t) g.in(0, (ll) S.size() - 1), j = (size_t) g.in(0, (ll) S.size() - 1);
		if (op >= 6 && op <= 13) for (int q = 0; q < 8 && !S[i].live; ++q) i = (size_t) g.in(0, (ll) S.size() - 1);
		Slot& s = S[i]; h = h * 31 + (uint64_t) op; desc("op %d slot %zu,%zu\n", op, i, j); kinds |= 1 << op; int ec = SCC_ER_OK;
		switch (op) {
		case 0: { OP = "init_empty"; drop(s, g); s.n = g.chance(88) ? n : (int) g.in(1, 2 * n); bool e = g.chance(50); std::vector<ll> tmp; if (e) s.ext = mk_labels(g, s.n, 4, tmp); s.c = (scc_Clustering*) (uintptr_t) 0x10;
			ec = scc_init_empty_clustering((uint64_t) s.n, s.ext, &s.c); s.live = ec == SCC_ER_OK; s.m = 0; if (s.ext) for (int q = 0; q < s.n; ++q) if (s.ext[q] != to_clabel(tmp[(size_t) q])) { viol("obj-external", "initialisation wrote to the external labels"); break; } cnt("init_empty"); break; }
		case 1: case 2: { OP = op == 1 ? "init_existing(deep)" : "init_existing(non-deep)"; drop(s, g); s.n = g.chance(88) ? n : (int) g.in(1, 2 * n); s.m = g.in(1, 6); scc_Clabel* e = mk_labels(g, s.n, s.m, s.lab); s.c = nullptr;
			ec = scc_init_existing_clustering((uint64_t) s.n, (uint64_t) s.m, e, op == 1, &s.c); s.live = ec == SCC_ER_OK; if (op == 2) s.ext = e; else s.src = e; cnt(OP); break; }
		case 3: { if (i == j || !S[j].live) break; OP = "copy"; drop(s, g); s.n = S[j].n; s.m = S[j].m; s.lab = S[j].lab; s.c = nullptr; ec = scc_copy_clustering(S[j].c, &s.c); s.live = ec == SCC_ER_OK; if (ec == SCC_ER_OK && s.c == S[j].c) viol("obj-copy-alias", "the copy is the source"); cnt("copies"); break; }
		case 4: OP = "free"; drop(s, g); cnt("frees"); break;
		case 5: { OP = "free(NULL)"; scc_free_clustering(nullptr); scc_Clustering* z = nullptr; scc_free_clustering(&z); scc_free_data_set(nullptr); scc_DataSet* y = nullptr; scc_free_data_set(&y); if (z || y) viol("obj-free-null", "freeing NULL handles produced non-NULL ones"); if (scc_is_initialized_clustering(nullptr) || scc_is_initialized_data_set(nullptr)) viol("obj-init-null", "NULL reported as initialised"); break; }
		case 6: { if (!s.live) break; OP = "info"; uint64_t a = 5, b = 6; int e1 = scc_get_clustering_info(s.c, nullptr, &b), e2 = scc_get_clustering_info(s.c, &a, nullptr), e3 = scc_get_clustering_info(s.c, nullptr, nullptr); if (e1 || e2 || e3 || a != (uint64_t) s.n || b != (uint64_t) s.m) viol("obj-info", "partial info requests failed or wrong"); break; }
		case 7: { if (!s.live) break; OP = "bad label request"; scc_Clabel z = to_clabel(1); int e1 = scc_get_cluster_labels(s.c, 0, &z), e2 = scc_get_cluster_labels(s.c, 3, nullptr); if (e1 == SCC_ER_OK || e2 == SCC_ER_OK || z != to_clabel(1)) viol("obj-labels-code", "label request without room accepted or written"); if (s.m == 0 && scc_get_cluster_labels(s.c, 1, &z) == SCC_ER_OK) viol("obj-labels-code", "labels of an empty clustering returned"); break; }
		case 8: { if (!s.live) break; if (s.src) { OP = "overwriting the source of a deep copy"; for (int q = 0; q < s.n; ++q) s.src[q] = to_clabel(g.in(-1, 9)); if (g.chance(50)) { free(s.src); s.src = nullptr; } cnt("deep_source_overwritten"); }
			else if (s.ext && s.m > 0) { OP = "changing external labels"; for (int q = 0; q < s.n; ++q) if (g.chance(30)) { s.lab[(size_t) q] = g.in(-1, s.m - 1); s.ext[q] = to_clabel(s.lab[(size_t) q]); } cnt("external_changed"); } break; }
		case 9: case 10: { if (!s.live) break; size_t k = (size_t) g.in(0, 2); OP = "sc_clustering"; ec = scc_sc_clustering(ds, ros[k].o, s.c);
			if (s.n != n) { if (ec != SCC_ER_INVALID_INPUT) viol("obj-mismatch", "clustering of %d points accepted data of %d: %s", s.n, n, ec_name(ec)); }
			else if (s.m > 0) { if (ec == SCC_ER_OK) viol("obj-nonempty", "non-empty clustering accepted"); }
			else if (ec == SCC_ER_OK) { Res r = fetch(s.c, n); s.m = r.m; s.lab = r.lab; cnt("sc_ok"); } else cnt("sc_failed"); ec = 0; break; }
		case 11: { if (!s.live) break; OP = "hierarchical"; uint32_t k = (uint32_t) g.in(2, std::max(2, n / 2)); ec = scc_hierarchical_clustering(ds, k, g.chance(50), s.c);
			if (ec == SCC_ER_OK) { if (s.n != n) viol("obj-mismatch", "hierarchical accepted mismatching sizes"); Res r = fetch(s.c, s.n); s.m = r.m; s.lab = r.lab; cnt("hc_ok"); } else cnt("hc_failed"); ec = 0; break; }
		case 12: { if (!s.live) break; OP = "stats"; scc_ClusteringStats st; scc_get_clustering_stats(ds, s.c, &st); break; }
		case 13: { if (!s.live) break; OP = "check"; bool b; scc_check_clustering(s.c, ros[(size_t) g.in(0, 2)].o, &b); break; }
		case 14: { OP = "data set"; scc_DataSet* d2 = nullptr; int e = scc_init_data_set((uint64_t) n, (uint32_t) p.dim, p.X.size() + (size_t) g.in(0, 3), X, &d2); if (e != SCC_ER_OK || d2 == ds) viol("ds-init", "second data set: %s", ec_name(e)); scc_free_data_set(&d2); if (d2) viol("obj-free-null", "scc_free_data_set left the handle non-NULL"); scc_free_data_set(&d2); if (!scc_is_initialized_data_set(ds)) viol("ds-init", "freeing one data set invalidated another");
			uint32_t a = 0, b = 0, c = 0, a2 = 1, b2 = 1, c2 = 1; scc_get_compiled_version(&a, &b, &c); scc_get_compiled_version(nullptr, nullptr, nullptr); scc_get_compiled_version(&a2, nullptr, nullptr); scc_get_compiled_version(nullptr, &b2, nullptr); scc_get_compiled_version(nullptr, nullptr, &c2); if (a != SCC_SCCLUST_MAJOR_VERSION || b != SCC_SCCLUST_MINOR_VERSION || c != SCC_SCCLUST_PATCH_VERSION || a != a2 || b != b2 || c != c2) viol("version", "compiled version differs from the header"); break; }
		}
		if (ec != SCC_ER_OK) { viol("obj-code", "%s failed: %s", OP, ec_name(ec)); break; }
		cnt("operations");
		if (R.violations || !verify(S, g)) ok = false;
	}
	bool bad = R.violations > 0;
	for (auto& s : S) drop(s, g);
	scc_free_data_set(&ds); if (ds && !bad) viol("obj-free-null", "scc_free_data_set left the handle non-NULL");
	if (!bad) { if (vh_live() != base) viol("leak", "%lld library blocks still allocated after everything was freed", (ll) (vh_live() - base)); if (vh_bad_frees()) viol("bad-free", "the library freed %lld blocks it did not allocate", (ll) vh_bad_frees()); }
	cnt("library_allocations", (ll) vh_count()); vh_track(0);
	if (memcmp(X, p.X.data(), sizeof(double) * p.X.size())) viol("input-written", "the data matrix changed");
	for (auto c : oc) delete c;
	if (__builtin_popcount((unsigned) kinds) >= 4) sig(h);
	if (want_sample()) sample("n=%d: %d operations on 5 clustering objects compared with a value model after every step; inputs in write-protected pages", n, nops);
}

// Random valid session; the deciding monitors are the sanitizers and the library's own assertions.
static uint64_t SINK;
MODE(c10) {
	int f = (g.chance(12) ? GEN_EXTREME : GEN_EXACT) | (g.chance(45) ? GEN_SMALL : 0) | (g.chance(6) ? GEN_BIG : 0); Prob p; gen_prob(g, f, p); describe(p, nullptr); const int n = p.n; DS d(p);
	std::vector<Slot> S(4); int nops = (int) g.in(5, R.tier ? 40 : 16); uint64_t h = prob_hash(p, nullptr); if (n > 300) nops = 5; int oks = 0;
	for (int t = 0; t < nops; ++t) {
		int op = (int) g.in(0, 11); size_t i = (size_t) g.in(0, 3), j = (size_t) g.in(0, 3); Slot& s = S[i]; h = h * 31 + (uint64_t) op; desc("op %d slot %zu,%zu\n", op, i, j);
		if (op <= 1) { drop(s, g); s.n = n; if (op) s.ext = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); scc_init_empty_clustering((uint64_t) n, s.ext, &s.c); s.live = true; op = 4 + (int) g.in(0, 2); }
		else if (op == 2) { drop(s, g); s.n = n; s.m = g.in(1, std::max(1, n)); scc_Clabel* e = mk_labels(g, n, s.m, s.lab); bool deep = g.chance(50); scc_init_existing_clustering((uint64_t) n, (uint64_t) s.m, e, deep, &s.c); if (deep) free(e); else s.ext = e; s.live = true; s.m = 0; }
		else if (op == 3 && S[j].live && i != j) { drop(s, g); s.n = n; scc_copy_clustering(S[j].c, &s.c); s.live = true; }
		if (!s.live) continue;
		int ec = 0;
		if (op >= 4 && op <= 6) { Opt o; gen_opt(g, g.chance(70) ? GEN_FEASIBLE : 0, p, o); OptC oc(o, n); ec = scc_sc_clustering(d.ds, &oc.o, s.c); cntf(1, "sc_%s", ec_name(ec)); cntf(1, "seed_%s", sm_name(o.method)); h = prob_hash(p, &o) * 31 + h; oks += ec == SCC_ER_OK; }
		else if (op == 7 || op == 8) { ec = scc_hierarchical_clustering(d.ds, (uint32_t) g.in(2, std::max(2, n / 2)), g.chance(50), s.c); cntf(1, "hc_%s", ec_name(ec)); oks += ec == SCC_ER_OK; }
		else if (op == 9) { scc_ClusteringStats st; memset(&st, 0, sizeof st); ec = scc_get_clustering_stats(d.ds, s.c, &st); if (ec == SCC_ER_OK) SINK ^= hashb(&st.num_data_points, 6 * 8); cntf(1, "stats_%s", ec_name(ec)); }
		else if (op == 10) { Opt o; gen_opt(g, 0, p, o); OptC oc(o, n); bool b = false; ec = scc_check_clustering(s.c, &oc.o, &b); SINK ^= b ? 3 : 5; cntf(1, "check_%s", ec_name(ec)); }
		else { char buf[300]; size_t L = (size_t) g.in(1, 300); char* q = (char*) malloc(L); if (scc_get_latest_error(L, q)) SINK ^= hashb(q, strlen(q)); free(q); (void) buf; }
		Res r = fetch(s.c, n); SINK ^= hashv(r.lab) + (uint64_t) r.m; s.m = 0; // the labels are read, so an uninitialised one is seen
		uint64_t acc = 0; for (ll l : r.lab) { if (l >= 0 && l < 4) acc += 1; } SINK += acc;
		cnt("operations");
	}
	for (auto& s : S) { s.m = 0; drop(s, g); }
	if (d.custom) spi_check("session");
	if (SINK == 0x1234567) cnt("sink");
	if (oks >= 2) sig(h);
	if (want_sample()) sample("%s n=%d dim=%d: session of %d operations, %d successful clusterings", p.kind, n, p.dim, nops, oks);
}
} // namespace
