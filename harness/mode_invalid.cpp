// Rejection of invalid input (C09) and the error-reporting interface (C21).
#include "core.hpp"
#include <malloc.h>
namespace {

// A clustering object together with a snapshot of everything observable about it.
struct Snap { uint64_t np = 0, nc = 0; std::vector<scc_Clabel> lab; };
static Snap snap(const scc_Clustering* c, int n) {
	Snap s; scc_get_clustering_info(c, &s.np, &s.nc);
	if (s.nc > 0) { s.lab.resize(n); scc_Clabel* b = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); if (scc_get_cluster_labels(c, (size_t) n, b) == SCC_ER_OK) for (int i = 0; i < n; ++i) s.lab[i] = b[i]; free(b); }
	return s;
}
static bool eq(const Snap& a, const Snap& b) { return a.np == b.np && a.nc == b.nc && a.lab == b.lab; }
template <class T> static void set_enum(T& f, int v) { memcpy(&f, &v, sizeof f < sizeof v ? sizeof f : sizeof v); }

static int pick_bad_radius_i; static double bad_radius(Rng& g) { static const double t[] = { 0.0, -0.0, -1.0, -1e-300, -INFINITY, NAN }; pick_bad_radius_i = (int) g.in(0, 5); return t[pick_bad_radius_i]; }
static int bad_enum(Rng& g, int top) { return (int) g.pick(vi{ top, top + 1, 999, -1, INT32_MAX, 127, 1 << 16 }); }

// Something that is no object of the expected kind: zeros, ones, or an object of the other kind (in ample memory).
static void junk_object(Rng& g, void* z, const void* ds, const scc_Clustering* cl, int) {
	int w = (int) g.in(0, 2);
	if (w == 1) memset(z, 0xff, 512); else if (w == 2) { const void* o = ds ? ds : (const void*) cl; memcpy(z, o, std::min<size_t>(malloc_usable_size((void*) o), 512)); cnt("confused_objects"); }
}
static void mut_sc(Rng& g) {
	Prob p; Opt o; int f = GEN_EXACT | GEN_SMALL | GEN_NOCUSTOM | (g.chance(50) ? GEN_TYPES : 0) | (g.chance(40) ? GEN_BATCH : 0) | GEN_FEASIBLE;
	gen_prob(g, f, p); gen_opt(g, f, p, o);
	if (o.typed()) for (size_t t = 0; t < o.tc.size(); ++t) { uint32_t gs = 0; for (int x : o.tl) gs += (uint32_t) x == t; o.tc[t] = std::min(o.tc[t], gs); }
	if (o.pum != SCC_UM_IGNORE && o.pr == SCC_RM_USE_ESTIMATED) o.pr = SCC_RM_USE_SEED_RADIUS;
	if (o.scr == SCC_RM_USE_ESTIMATED) o.scr = SCC_RM_USE_SEED_RADIUS;
	describe(p, &o);
	const int n = p.n;
	DS d(p); OptC oc(o, n); scc_ClusterOptions& q = oc.o; const scc_ClusterOptions* arg = &q; void* ds = d.ds;
	// the clustering handed in: empty (own or external labels)
	scc_Clabel* ext = nullptr; std::vector<scc_Clabel> extcopy;
	if (g.chance(50)) { ext = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) ext[i] = (scc_Clabel) (i % 3); extcopy.assign(ext, ext + n); }
	scc_Clustering* cl = nullptr; bool existing = false;
	int want = SCC_ER_INVALID_INPUT; const char* nm = ""; scc_DataSet* other = nullptr; double* obuf = nullptr; scc_PointIndex* pp = nullptr; scc_TypeLabel* tl = nullptr; uint32_t* tcx = nullptr; void* zero = nullptr;
	int m = (int) g.in(0, 33); bool skip = false; bool for_check = true; // for_check: also invalid for scc_check_clustering
	scc_Clustering* clarg = nullptr; bool use_clarg = false;
	auto prim_with = [&](std::vector<ll> v) { pp = (scc_PointIndex*) malloc(sizeof(scc_PointIndex) * v.size()); for (size_t i = 0; i < v.size(); ++i) pp[i] = (scc_PointIndex) v[i]; q.primary_data_points = pp; q.len_primary_data_points = v.size(); };
	switch (m) {
	case 0: nm = "NULL clustering"; use_clarg = true; clarg = nullptr; break;
	case 1: nm = "NULL data set"; ds = nullptr; for_check = false; break;
	case 2: { nm = "data set of another size"; int n2 = n + (int) g.pick(vi{ -1, 1, 5 }); if (n2 < 1) n2 = n + 1; obuf = (double*) calloc((size_t) n2, sizeof(double)); scc_init_data_set((uint64_t) n2, 1, (size_t) n2, obuf, &other); ds = other; for_check = false; break; }
	case 3: nm = "NULL options"; arg = nullptr; break;
	case 4: nm = "options version"; q.options_version += (int32_t) g.pick(vi{ 1, -1, 1000, -722678001 }); break;
	case 5: nm = "size constraint below two"; q.size_constraint = (uint32_t) g.in(0, 1); break;
	case 6: nm = "size constraint above points"; q.size_constraint = (uint32_t) n + (uint32_t) g.pick(vi{ 1, 2, 1000, 1 << 30 }); want = SCC_ER_NO_SOLUTION; break;
	case 7: if (o.typed()) { skip = true; break; } nm = "type constraints without types"; tcx = (uint32_t*) calloc(4, 4); q.type_constraints = tcx; q.num_types = (uint32_t) g.in(0, 1); break;
	case 8: if (o.typed()) { skip = true; break; } nm = "type labels without types"; tl = (scc_TypeLabel*) calloc((size_t) n, sizeof(scc_TypeLabel)); if (g.chance(50)) q.type_labels = tl; if (g.chance(60) || !q.type_labels) q.len_type_labels = (size_t) n; q.num_types = (uint32_t) g.in(0, 1); break;
	case 9: if (!o.typed()) { skip = true; break; } nm = "missing type constraints"; q.type_constraints = nullptr; break;
	case 10: if (!o.typed()) { skip = true; break; } nm = "missing type labels"; q.type_labels = nullptr; break;
	case 11: if (!o.typed()) { skip = true; break; } nm = "short type labels"; q.len_type_labels = (size_t) g.in(0, n - 1); break;
	case 12: if (!o.typed()) { skip = true; break; } nm = "too many types"; q.num_types = (uint32_t) g.pick(std::vector<ll>{ 65536, 65537, 100000, 4294967295LL }); want = SCC_ER_TOO_LARGE_PROBLEM; break;
	case 13: if (!o.typed()) { skip = true; break; } nm = "type label out of range"; { int i = (int) g.in(0, n - 1); ll hi = (ll) o.num_types + g.pick(vi{ 0, 1, 5, 1000 }); if (sizeof(scc_TypeLabel) == 1 && hi > 127) { skip = true; break; } if ((scc_TypeLabel) -1 < 0 && g.chance(30)) hi = -1; oc.tl[i] = (scc_TypeLabel) hi; } break;
	case 14: if (!o.typed()) { skip = true; break; } nm = "type constraints exceed size constraint"; { // two types with enough points each
		std::vector<uint32_t> gs(o.num_types, 0); for (int x : o.tl) ++gs[x]; uint32_t s = 0; for (size_t t = 0; t < o.tc.size(); ++t) { oc.tc[t] = std::min(gs[t], o.k + 1 - std::min(o.k + 1, s)); s += oc.tc[t]; } if (s <= o.k) skip = true; for_check = false; } break;
	case 15: nm = "unknown seed method"; set_enum(q.seed_method, bad_enum(g, 6)); break;
	case 16: nm = "primary points of length zero"; prim_with({ 0 }); q.len_primary_data_points = 0; break;
	case 17: nm = "missing primary points"; q.primary_data_points = nullptr; q.len_primary_data_points = (size_t) g.in(1, n); break;
	case 18: if (n < 3) { skip = true; break; } nm = "unsorted primary points"; { ll a = g.in(0, n - 3); if (g.chance(50)) prim_with({ a, a + 2, a + 1 }); else prim_with({ a + 1, a }); } break;
	case 19: nm = "repeated primary points"; { ll a = g.in(0, n - 1); prim_with({ a, a }); } break;
	case 20: nm = "primary point out of range"; { ll a = n + g.pick(vi{ 0, 1, 100, 1 << 20 }); if ((scc_PointIndex) -1 < 0 && g.chance(40)) prim_with({ -1, 0 }); else if (g.chance(50)) prim_with({ a }); else prim_with({ 0, a }); } break;
	case 21: nm = "unknown primary unassigned method"; set_enum(q.primary_unassigned_method, bad_enum(g, 4)); break;
	case 22: nm = "secondary any-neighbor"; q.secondary_unassigned_method = SCC_UM_ANY_NEIGHBOR; break;
	case 23: nm = "unknown secondary unassigned method"; set_enum(q.secondary_unassigned_method, bad_enum(g, 4)); break;
	case 24: nm = "seed radius method"; set_enum(q.seed_radius, g.chance(50) ? (int) g.in(2, 3) : bad_enum(g, 4)); break;
	case 25: nm = "seed radius value"; q.seed_radius = SCC_RM_USE_SUPPLIED; q.seed_supplied_radius = bad_radius(g); break;
	case 26: nm = "primary radius method"; set_enum(q.primary_radius, bad_enum(g, 4)); break;
	case 27: nm = "primary radius value"; q.primary_radius = SCC_RM_USE_SUPPLIED; q.primary_supplied_radius = bad_radius(g); break;
	case 28: nm = "secondary radius method"; set_enum(q.secondary_radius, bad_enum(g, 4)); break;
	case 29: nm = "secondary radius value"; q.secondary_radius = SCC_RM_USE_SUPPLIED; q.secondary_supplied_radius = bad_radius(g); break;
	case 30: { int w = (int) g.in(0, 3); q.seed_method = SCC_SM_BATCHES; want = SCC_ER_NOT_IMPLEMENTED; q.primary_unassigned_method = SCC_UM_IGNORE;
		if (w == 0) { if (!o.typed()) { skip = true; break; } nm = "batches with types"; q.secondary_unassigned_method = SCC_UM_IGNORE; q.primary_radius = SCC_RM_USE_SEED_RADIUS; }
		else { if (o.typed()) { skip = true; break; }
			if (w == 1) { nm = "batches with secondary method"; q.primary_radius = SCC_RM_USE_SEED_RADIUS; q.secondary_unassigned_method = g.chance(50) ? SCC_UM_CLOSEST_SEED : SCC_UM_CLOSEST_ASSIGNED; }
			else if (w == 2) { nm = "batches with primary radius"; q.secondary_unassigned_method = SCC_UM_IGNORE; set_enum(q.primary_radius, (int) g.pick(vi{ 0, 1, 3 })); q.primary_supplied_radius = 1.0; }
			else { nm = "batches with closest method"; q.secondary_unassigned_method = SCC_UM_IGNORE; q.primary_radius = SCC_RM_USE_SEED_RADIUS; q.primary_unassigned_method = g.chance(50) ? SCC_UM_CLOSEST_SEED : SCC_UM_CLOSEST_ASSIGNED; want = SCC_ER_INVALID_INPUT; for_check = false; } } break; }
	case 31: nm = "non-empty clustering"; existing = true; want = SCC_ER_NOT_IMPLEMENTED; for_check = false; break;
	case 32: nm = "uninitialised clustering object"; zero = calloc(1, 512); junk_object(g, zero, d.ds, nullptr, n); use_clarg = true; clarg = (scc_Clustering*) zero; break;
	default: { nm = "uninitialised data set object"; zero = calloc(1, 512); scc_Clabel* l2 = (scc_Clabel*) calloc((size_t) n, sizeof(scc_Clabel)); scc_Clustering* cx = nullptr; scc_init_existing_clustering((uint64_t) n, 2, l2, true, &cx); free(l2); junk_object(g, zero, nullptr, cx, n); scc_free_clustering(&cx); ds = zero; for_check = false; break; }
	}
	if (!skip) {
		desc("mutation: %s\n", nm);
		if (existing) { scc_Clabel* e = ext ? ext : (ext = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n)); for (int i = 0; i < n; ++i) e[i] = (scc_Clabel) (i % 2); extcopy.assign(e, e + n); scc_init_existing_clustering((uint64_t) n, 2, e, g.chance(50), &cl); }
		else scc_init_empty_clustering((uint64_t) n, ext, &cl);
		Snap before = snap(cl, n);
		int ec = scc_sc_clustering(ds, arg, use_clarg ? clarg : cl);
		cntf(1, "sc_%s", nm); sig(prob_hash(p, &o) ^ (uint64_t) m * 77777);
		if (ec != want) viol("reject-sc", "%s: expected %s, got %s", nm, ec_name(want), ec_name(ec));
		if (!eq(before, snap(cl, n))) viol("reject-changed", "%s: the rejected call changed the clustering object", nm);
		if (ext && memcmp(ext, extcopy.data(), sizeof(scc_Clabel) * (size_t) n)) viol("reject-changed", "%s: the rejected call wrote to the external label buffer", nm);
		scc_free_clustering(&cl);
		if (for_check) { // the same invalid options for scc_check_clustering
			scc_Clabel* e = (scc_Clabel*) calloc((size_t) n, sizeof(scc_Clabel)); scc_Clustering* c2 = nullptr; scc_init_existing_clustering((uint64_t) n, 1, e, false, &c2); bool ok = true;
			int ec2 = scc_check_clustering(use_clarg ? clarg : c2, arg, &ok);
			cnt("check_clustering_rejections");
			if (ec2 != want) viol("reject-check", "scc_check_clustering with %s: expected %s, got %s", nm, ec_name(want), ec_name(ec2));
			else if (ok) viol("reject-check", "scc_check_clustering with %s reports OK", nm);
			for (int i = 0; i < n; ++i) if (e[i] != 0) { viol("reject-changed", "scc_check_clustering changed the labels"); break; }
			scc_free_clustering(&c2); free(e);
		}
		if (want_sample()) sample("n=%d %s -> %s", n, nm, ec_name(ec));
	}
	scc_free_data_set(&other); free(obuf); free(pp); free(tl); free(tcx); free(zero); free(ext);
}
#define EXPECT(nm, call, want_) do { int ec_ = (call); cntf(1, "api_%s", nm); if (ec_ != (want_)) viol("reject-api", "%s: expected %s, got %s", nm, ec_name(want_), ec_name(ec_)); } while (0)
static void mut_api(Rng& g) {
	const int n = (int) g.in(2, 12); desc_reset(); desc("api rejections with n=%d\n", n);
	double* x = (double*) malloc(sizeof(double) * (size_t) n * 2); for (int i = 0; i < 2 * n; ++i) x[i] = (double) g.in(0, 50);
	scc_DataSet* ds = (scc_DataSet*) x; scc_DataSet* good = nullptr; scc_init_data_set((uint64_t) n, 2, (size_t) n * 2, x, &good);
	scc_Clustering* const junk = (scc_Clustering*) x; scc_Clustering* c = junk;
	const uint64_t pim = shim_pointindex_max(), clm = shim_clabel_max();
	auto nul_ds = [&](const char* w) { if (ds) viol("ctor-null", "%s: failed constructor did not set its output to NULL", w); ds = (scc_DataSet*) x; };
	auto nul_cl = [&](const char* w) { if (c) viol("ctor-null", "%s: failed constructor did not set its output to NULL", w); c = junk; };
	EXPECT("data set NULL out", scc_init_data_set((uint64_t) n, 2, (size_t) n * 2, x, nullptr), SCC_ER_INVALID_INPUT);
	EXPECT("data set no points", scc_init_data_set(0, 2, (size_t) n * 2, x, &ds), SCC_ER_INVALID_INPUT); nul_ds("no points");
	EXPECT("data set no dims", scc_init_data_set((uint64_t) n, 0, (size_t) n * 2, x, &ds), SCC_ER_INVALID_INPUT); nul_ds("no dims");
	EXPECT("data set short", scc_init_data_set((uint64_t) n, 2, (size_t) n * 2 - 1, x, &ds), SCC_ER_INVALID_INPUT); nul_ds("short");
	EXPECT("data set empty matrix", scc_init_data_set((uint64_t) n, 2, 0, x, &ds), SCC_ER_INVALID_INPUT); nul_ds("empty");
	EXPECT("data set NULL matrix", scc_init_data_set((uint64_t) n, 2, (size_t) n * 2, nullptr, &ds), SCC_ER_INVALID_INPUT); nul_ds("NULL matrix");
	EXPECT("data set many dims", scc_init_data_set((uint64_t) n, (uint32_t) g.pick(std::vector<ll>{ 65536, 70000, 4294967295LL }), SIZE_MAX, x, &ds), SCC_ER_TOO_LARGE_PROBLEM); nul_ds("dims");
	if (pim < UINT64_MAX - 1) { EXPECT("data set many points", scc_init_data_set(pim + (uint64_t) g.in(1, 5), 1, SIZE_MAX, x, &ds), SCC_ER_TOO_LARGE_PROBLEM); nul_ds("points"); }
	else { EXPECT("data set many points", scc_init_data_set(UINT64_MAX, 1, SIZE_MAX, x, &ds), SCC_ER_TOO_LARGE_PROBLEM); nul_ds("points"); }
	EXPECT("data set overflow", scc_init_data_set(std::min<uint64_t>(pim, (uint64_t) 1 << 60), 65535, (size_t) n, x, &ds), SCC_ER_INVALID_INPUT); nul_ds("overflow");
	{ // the product of points and dimensions passes a power of two that narrower arithmetic would lose
		int bits = (int) g.pick(vi{ 15, 16, 31, 32, 33 }); uint32_t dm = (uint32_t) (g.chance(50) ? (ll) 1 << g.in(0, 15) : g.in(1, 65535)); uint64_t np = (((uint64_t) 1 << bits) + dm - 1) / dm + (uint64_t) g.in(0, 3); uint64_t lo = np * dm % ((uint64_t) 1 << bits);
		if (np >= 1 && np <= pim && lo < np * dm) { size_t len = (size_t) (g.chance(50) ? lo : g.chance(50) ? np * dm - 1 : (uint64_t) g.in(0, 40)); if (len < np * dm) { EXPECT("data set short by a power of two", scc_init_data_set(np, dm, len, x, &ds), SCC_ER_INVALID_INPUT); nul_ds("power of two"); } } }
	if (pim > ((uint64_t) 1 << 61)) { EXPECT("data set overflow", scc_init_data_set((uint64_t) 1 << 61, 8, (size_t) n, x, &ds), SCC_ER_INVALID_INPUT); nul_ds("overflow"); }
	if (scc_is_initialized_data_set(nullptr)) viol("initialized", "NULL data set reported as initialised");
	if (!scc_is_initialized_data_set(good)) viol("initialized", "valid data set reported as uninitialised");
	{ void* z = calloc(1, 256); if (scc_is_initialized_data_set((scc_DataSet*) z)) viol("initialized", "zeroed data set reported as initialised"); if (scc_is_initialized_clustering((scc_Clustering*) z)) viol("initialized", "zeroed clustering reported as initialised"); free(z); }
	scc_Clabel* lab = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) lab[i] = (scc_Clabel) (i % 2);
	EXPECT("empty NULL out", scc_init_empty_clustering((uint64_t) n, nullptr, nullptr), SCC_ER_INVALID_INPUT);
	EXPECT("empty no points", scc_init_empty_clustering(0, g.chance(50) ? lab : nullptr, &c), SCC_ER_INVALID_INPUT); nul_cl("empty");
	EXPECT("empty many points", scc_init_empty_clustering(pim < UINT64_MAX - 1 ? pim + 1 : UINT64_MAX, nullptr, &c), SCC_ER_TOO_LARGE_PROBLEM); nul_cl("empty many");
	bool deep = g.chance(50);
	EXPECT("existing NULL out", scc_init_existing_clustering((uint64_t) n, 2, lab, deep, nullptr), SCC_ER_INVALID_INPUT);
	EXPECT("existing no points", scc_init_existing_clustering(0, 2, lab, deep, &c), SCC_ER_INVALID_INPUT); nul_cl("existing");
	EXPECT("existing no clusters", scc_init_existing_clustering((uint64_t) n, 0, lab, deep, &c), SCC_ER_INVALID_INPUT); nul_cl("existing");
	EXPECT("existing NULL labels", scc_init_existing_clustering((uint64_t) n, 2, nullptr, deep, &c), SCC_ER_INVALID_INPUT); nul_cl("existing");
	EXPECT("existing many points", scc_init_existing_clustering(pim < UINT64_MAX - 1 ? pim + 1 : UINT64_MAX, 2, lab, deep, &c), SCC_ER_TOO_LARGE_PROBLEM); nul_cl("existing");
	if (clm < UINT64_MAX) { EXPECT("existing many clusters", scc_init_existing_clustering((uint64_t) n, clm + 1, lab, deep, &c), SCC_ER_TOO_LARGE_PROBLEM); nul_cl("existing"); }
	if (scc_is_initialized_clustering(nullptr)) viol("initialized", "NULL clustering reported as initialised");
	scc_Clustering *e = nullptr, *f = nullptr;
	EXPECT("empty ok", scc_init_empty_clustering((uint64_t) n, nullptr, &e), SCC_ER_OK); EXPECT("existing ok", scc_init_existing_clustering((uint64_t) n, 2, lab, true, &f), SCC_ER_OK);
	if (!scc_is_initialized_clustering(e) || !scc_is_initialized_clustering(f)) viol("initialized", "valid clustering reported as uninitialised");
	Snap se = snap(e, n), sf = snap(f, n);
	EXPECT("copy NULL out", scc_copy_clustering(f, nullptr), SCC_ER_INVALID_INPUT);
	EXPECT("copy NULL in", scc_copy_clustering(nullptr, &c), SCC_ER_INVALID_INPUT); nul_cl("copy");
	uint64_t a = 77, b = 78; EXPECT("info NULL", scc_get_clustering_info(nullptr, &a, &b), SCC_ER_INVALID_INPUT); if (a != 77 || b != 78) viol("reject-wrote", "failed scc_get_clustering_info wrote its outputs");
	scc_Clabel* out = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); memset(out, 0x33, sizeof(scc_Clabel) * (size_t) n);
	EXPECT("labels NULL clustering", scc_get_cluster_labels(nullptr, (size_t) n, out), SCC_ER_INVALID_INPUT);
	EXPECT("labels of empty clustering", scc_get_cluster_labels(e, (size_t) n, out), SCC_ER_INVALID_INPUT);
	EXPECT("labels zero length", scc_get_cluster_labels(f, 0, out), SCC_ER_INVALID_INPUT);
	EXPECT("labels NULL buffer", scc_get_cluster_labels(f, (size_t) n, nullptr), SCC_ER_INVALID_INPUT);
	for (int i = 0; i < n * (int) sizeof(scc_Clabel); ++i) if (((unsigned char*) out)[i] != 0x33) { viol("reject-wrote", "failed scc_get_cluster_labels wrote to the buffer"); break; }
	bool ba = g.chance(50);
	EXPECT("hier NULL clustering", scc_hierarchical_clustering(good, 2, ba, nullptr), SCC_ER_INVALID_INPUT);
	scc_Clustering* hc = g.chance(50) ? e : f;
	EXPECT("hier NULL data", scc_hierarchical_clustering(nullptr, 2, ba, hc), SCC_ER_INVALID_INPUT);
	EXPECT("hier size", scc_hierarchical_clustering(good, (uint32_t) g.in(0, 1), ba, hc), SCC_ER_INVALID_INPUT);
	EXPECT("hier few points", scc_hierarchical_clustering(good, (uint32_t) n + (uint32_t) g.in(1, 4), ba, hc), SCC_ER_NO_SOLUTION);
	{ scc_DataSet* o2 = nullptr; { int on = g.chance(40) ? n - 1 : g.chance(50) ? n + 1 : (int) g.in(1, 2 * n); if (on == n) on = n + 1; if (on < 1) on = n + 1; scc_init_data_set((uint64_t) on, 1, (size_t) n * 2, x, &o2); } EXPECT("hier mismatch", scc_hierarchical_clustering(o2, 2, ba, hc), SCC_ER_INVALID_INPUT);
	  scc_ClusteringStats st; EXPECT("stats mismatch", scc_get_clustering_stats(o2, f, &st), SCC_ER_INVALID_INPUT); scc_free_data_set(&o2); }
	scc_ClusteringStats st;
	EXPECT("stats NULL out", scc_get_clustering_stats(good, f, nullptr), SCC_ER_INVALID_INPUT);
	EXPECT("stats NULL clustering", scc_get_clustering_stats(good, nullptr, &st), SCC_ER_INVALID_INPUT);
	EXPECT("stats empty clustering", scc_get_clustering_stats(good, e, &st), SCC_ER_INVALID_INPUT);
	EXPECT("stats NULL data", scc_get_clustering_stats(nullptr, f, &st), SCC_ER_INVALID_INPUT);
	scc_ClusterOptions op = scc_get_default_options(); op.size_constraint = 2; bool ok = true;
	EXPECT("check NULL out", scc_check_clustering(f, &op, nullptr), SCC_ER_INVALID_INPUT);
	EXPECT("check NULL clustering", scc_check_clustering(nullptr, &op, &ok), SCC_ER_INVALID_INPUT); if (ok) viol("reject-check", "failed scc_check_clustering reports OK"); ok = true;
	EXPECT("check empty clustering", scc_check_clustering(e, &op, &ok), SCC_ER_INVALID_INPUT); if (ok) viol("reject-check", "failed scc_check_clustering reports OK");
	scc_free_clustering(nullptr); { scc_Clustering* z = nullptr; scc_free_clustering(&z); } scc_free_data_set(nullptr); { scc_DataSet* z = nullptr; scc_free_data_set(&z); }
	if (!eq(se, snap(e, n)) || !eq(sf, snap(f, n))) viol("reject-changed", "a rejected call changed a clustering object");
	for (int i = 0; i < n; ++i) if (lab[i] != (scc_Clabel) (i % 2)) viol("reject-changed", "a rejected call wrote to the labels");
	scc_free_clustering(&e); scc_free_clustering(&f); scc_free_data_set(&good); free(lab); free(out); free(x);
	sig((uint64_t) n * 1000 + (uint64_t) deep * 2 + ba);
}
// More neighbours in total than the arc index type can count: refused before anything is searched.
static void too_many_arcs(Rng& g) {
	const int n = (int) g.in(65537, 72000); const uint64_t most = shim_arcindex_max(); desc_reset();
	double* x = (double*) malloc(sizeof(double) * (size_t) n); for (int i = 0; i < n; ++i) x[i] = (double) (g.next() % 1000); scc_DataSet* ds = nullptr; scc_init_data_set((uint64_t) n, 1, (size_t) n, x, &ds);
	scc_Clabel* lab = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) lab[i] = (scc_Clabel) 3; scc_Clustering* c = nullptr; scc_init_empty_clustering((uint64_t) n, g.chance(50) ? lab : nullptr, &c);
	scc_ClusterOptions o = scc_get_default_options(); o.seed_method = (scc_SeedMethod) g.pick(vi{ SCC_SM_LEXICAL, SCC_SM_INWARDS_ORDER, SCC_SM_INWARDS_UPDATING, SCC_SM_EXCLUSION_ORDER, SCC_SM_EXCLUSION_UPDATING }); if (g.chance(40)) { o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = 1e6; }
	scc_PointIndex* pp = nullptr; uint64_t q = (uint64_t) n; if (g.chance(40)) { q -= (uint64_t) g.in(1, 100); pp = (scc_PointIndex*) malloc(sizeof(scc_PointIndex) * q); for (uint64_t i = 0; i < q; ++i) pp[i] = (scc_PointIndex) (i + ((uint64_t) n - q)); o.primary_data_points = pp; o.len_primary_data_points = q; }
	uint64_t lo = most / q + 1; uint32_t* tc = nullptr; scc_TypeLabel* tl = nullptr; if (lo > (uint64_t) n) { free(pp); scc_free_clustering(&c); scc_free_data_set(&ds); free(x); free(lab); return; }
	o.size_constraint = (uint32_t) (g.chance(40) ? lo : (uint64_t) g.in((ll) lo, n));
	if (g.chance(30)) { tc = (uint32_t*) malloc(sizeof(uint32_t) * 2); tl = (scc_TypeLabel*) calloc((size_t) n, sizeof(scc_TypeLabel)); tc[0] = (uint32_t) g.in((ll) lo, o.size_constraint); tc[1] = 0; o.num_types = 2; o.type_constraints = tc; o.type_labels = tl; o.len_type_labels = (size_t) n; }
	desc("n=%d size=%u %s primary %llu types %u: %llu arcs at most\n", n, o.size_constraint, sm_name(o.seed_method), (unsigned long long) q, o.num_types, (unsigned long long) most);
	vh_track(1); int ec = scc_sc_clustering(ds, &o, c); if (ec != SCC_ER_TOO_LARGE_PROBLEM) viol("reject-code", "%llu arcs needed: expected TOO_LARGE_PROBLEM, got %s", (unsigned long long) q * o.size_constraint, ec_name(ec)); if (vh_live()) viol("reject-leak", "the refused call leaked %lld blocks", (ll) vh_live()); vh_track(0);
	uint64_t nc = 9; scc_get_clustering_info(c, nullptr, &nc); if (nc) viol("reject-changed", "the refused call left %llu clusters", (unsigned long long) nc); for (int i = 0; i < n; ++i) if (lab[i] != (scc_Clabel) 3) { viol("reject-changed", "the refused call wrote to the labels"); break; }
	char m[200]; memset(m, 0, sizeof m); if (!scc_get_latest_error(sizeof m, m) || !strstr(m, "arcs")) viol("reject-message", "too many arcs are reported as \"%s\"", m);
	cnt("too_many_arcs"); sig((uint64_t) n * 77 + o.size_constraint * 3 + (uint64_t) o.seed_method); scc_free_clustering(&c); scc_free_data_set(&ds); free(x); free(lab); free(pp); free(tc); free(tl);
}
MODE(c09) { if (idx % 1009 == 7) too_many_arcs(g); else if (idx % 12 == 11) mut_api(g); else mut_sc(g); }

// ---------------------------------------------------------------- C21
static void chk_msg(int ec, const char* part, const char* where) {
	static char buf[600]; memset(buf, 'Z', sizeof buf);
	if (!scc_get_latest_error(sizeof buf, buf)) { viol("error-report", "%s: scc_get_latest_error returned false", where); return; }
	if (!memchr(buf, 0, sizeof buf)) { viol("error-report", "%s: message is not terminated", where); return; }
	size_t len = strlen(buf); for (size_t i = len + 1; i < sizeof buf; ++i) if (buf[i] != 'Z') { viol("error-report", "%s: wrote past the message", where); return; }
	// "(scclust:<file>:<line>) <text>"
	const char* close = strchr(buf, ')'); const char* c2 = nullptr; if (close) for (const char* t = buf + 9; t < close; ++t) if (*t == ':') c2 = t;
	if (strncmp(buf, "(scclust:", 9) || !close || !c2 || atoi(c2 + 1) <= 0 || close[1] != ' ' || strlen(close) < 4) { viol("error-report", "%s: %s is reported as \"%s\"", where, ec_name(ec), buf); return; }
	{ // the location names a source file of the library
		size_t fl = (size_t) (c2 - (buf + 9)); if (fl < 3 || c2[-1] != 'c' || c2[-2] != '.') { viol("error-report", "%s: no source location in \"%s\"", where, buf); return; } }
	if (part && !strstr(close, part)) { viol("error-report", "%s: \"%s\" does not describe the latest error (expected it to mention \"%s\")", where, buf, part); return; }
	// truncation
	char* s = nullptr;
	for (size_t l : { (size_t) 1, (size_t) 2, (size_t) 10, len, len + 1, len - 1 }) {
		s = (char*) malloc(l + 8); memset(s, 'Q', l + 8);
		if (!scc_get_latest_error(l, s)) viol("error-report", "%s: buffer of length %zu refused", where, l);
		size_t want = std::min(l - 1, len);
		if (memcmp(s, buf, want) || s[want] != 0) viol("error-report", "%s: buffer of length %zu does not hold the truncated message", where, l);
		for (size_t i = l; i < l + 8; ++i) if (s[i] != 'Q') { viol("error-report", "%s: wrote beyond a buffer of length %zu", where, l); break; }
		free(s);
	}
	char z = 'Q'; if (scc_get_latest_error(0, &z) || z != 'Q') viol("error-report", "zero length accepted");
	if (scc_get_latest_error(100, nullptr)) viol("error-report", "NULL buffer accepted");
	cntf(1, "messages_%s", ec_name(ec));
}
MODE(c21) {
	static bool first = true;
	if (first) { // nothing has failed in this process yet
		first = false; char b[64]; memset(b, 'Z', sizeof b);
		if (!scc_get_latest_error(sizeof b, b) || !strstr(b, "No error")) viol("error-initial", "before any error: \"%.60s\"", b);
		char t[8]; memset(t, 'Z', sizeof t); if (!scc_get_latest_error(4, t) || t[3] != 0 || t[4] != 'Z') viol("error-initial", "short buffer not respected");
		if (scc_get_latest_error(0, t) || scc_get_latest_error(5, nullptr)) viol("error-initial", "unusable buffer accepted");
		// default texts are pairwise distinct, terminated and placed
		char d[8][300]; for (int e = 1; e <= 7; ++e) { shim_make_error(e, nullptr); chk_msg(e, nullptr, "default text"); memset(d[e], 0, 300); scc_get_latest_error(300, d[e]); }
		for (int e = 1; e <= 7; ++e) for (int f = 1; f < e; ++f) { const char* x = strchr(d[e], ')'); const char* y = strchr(d[f], ')'); if (!x || !y || !strcmp(x, y)) viol("error-default", "%s and %s share a description: %s", ec_name(e), ec_name(f), d[e]); }
		static const char* kw[] = { "", "", "invalid", "memory", "no solution", "large", "istance", "implemented" };
		for (int e = 2; e <= 7; ++e) if (!strstr(d[e], kw[e])) viol("error-default", "%s is described as \"%s\"", ec_name(e), d[e]);
		cnt("initial_checks");
	}
	// a sequence of failing and succeeding calls; the message always belongs to the most recent error
	const int n = (int) g.in(3, 20); desc_reset(); desc("error sequence n=%d\n", n);
	double* x = (double*) malloc(sizeof(double) * (size_t) n); for (int i = 0; i < n; ++i) x[i] = (double) g.in(0, 100);
	scc_DataSet* ds = nullptr; scc_init_data_set((uint64_t) n, 1, (size_t) n, x, &ds); scc_Clustering* c = nullptr; scc_init_empty_clustering((uint64_t) n, nullptr, &c);
	uint64_t h = 0; int laste = 0; const char* lastp = nullptr;
	for (int step = 0; step < 12; ++step) {
		int a = (int) g.in(0, 22); int ec = 0, want = 0; const char* part = nullptr; scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2;
		scc_Clustering* t = nullptr; scc_DataSet* td = nullptr; uint64_t np; char* mb = nullptr;
		// an older error with its own text, of the same or another code: it must not show through
		bool marked = g.chance(50); if (marked) { int me = g.chance(60) ? SCC_ER_INVALID_INPUT : (int) g.in(1, 7); static const char* const planted[] = { "zz-stale-zz", "zz-stale-zz: a description about as long as the longest that the library itself gives for any of its errors, to its end-zz" }; int pl = (int) g.in(0, 1); shim_make_error(me, planted[pl]); laste = me; lastp = planted[pl]; chk_msg(me, planted[pl], "directly after the error"); }
		if (a == 0) { o.size_constraint = 1; ec = scc_sc_clustering(ds, &o, c); want = SCC_ER_INVALID_INPUT; part = "ize constraint"; }
		else if (a == 1) { o.size_constraint = (uint32_t) n + 1; ec = scc_sc_clustering(ds, &o, c); want = SCC_ER_NO_SOLUTION; part = "ewer data points"; }
		else if (a == 2) { o.options_version = 3; ec = scc_sc_clustering(ds, &o, c); want = SCC_ER_INVALID_INPUT; part = "version"; }
		else if (a == 3) { o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = -1; ec = scc_sc_clustering(ds, &o, c); want = SCC_ER_INVALID_INPUT; part = "radius"; }
		else if (a == 4) { ec = scc_init_empty_clustering(0, nullptr, &t); want = SCC_ER_INVALID_INPUT; part = "positive number of data points"; }
		else if (a == 5) { ec = scc_init_data_set((uint64_t) n, 0, (size_t) n, x, &td); want = SCC_ER_INVALID_INPUT; part = "dimensions"; }
		else if (a == 6) { ec = scc_sc_clustering(nullptr, &o, c); want = SCC_ER_INVALID_INPUT; part = "data set"; }
		else if (a == 7) { ec = scc_sc_clustering(ds, &o, nullptr); want = SCC_ER_INVALID_INPUT; part = "lustering object"; }
		else if (a == 8) { ec = scc_get_clustering_info(nullptr, &np, nullptr); want = SCC_ER_INVALID_INPUT; part = "lustering object"; }
		else if (a == 9) { o.seed_method = SCC_SM_BATCHES; o.primary_radius = SCC_RM_NO_RADIUS; ec = scc_sc_clustering(ds, &o, c); want = SCC_ER_NOT_IMPLEMENTED; part = "SCC_RM_USE_SEED_RADIUS"; }
		else if (a == 20) { o.seed_method = SCC_SM_BATCHES; o.secondary_unassigned_method = SCC_UM_CLOSEST_SEED; ec = scc_sc_clustering(ds, &o, c); want = SCC_ER_NOT_IMPLEMENTED; part = "SCC_UM_IGNORE"; }
		else if (a == 21) { scc_Clustering* c9 = nullptr; scc_init_empty_clustering((uint64_t) n + 1, nullptr, &c9); ec = g.chance(50) ? scc_hierarchical_clustering(ds, 2, false, c9) : scc_sc_clustering(ds, &o, c9); scc_free_clustering(&c9); want = SCC_ER_INVALID_INPUT; part = "match clustering object"; }
		else if (a == 22) { uint32_t tcs[2] = { 3, 0 }; scc_TypeLabel* tl = (scc_TypeLabel*) calloc((size_t) n, sizeof(scc_TypeLabel)); o.num_types = 2; o.type_constraints = tcs; o.type_labels = tl; o.len_type_labels = (size_t) n; ec = scc_sc_clustering(ds, &o, c); free(tl); want = SCC_ER_INVALID_INPUT; part = "overall size constraint"; }
		else if (a == 10) { ec = scc_init_data_set((uint64_t) n, 70000, SIZE_MAX, x, &td); want = SCC_ER_TOO_LARGE_PROBLEM; part = "dimensions"; }
		else if (a == 11) { vh_track(1); vh_fail_at(0, 0); ec = scc_init_empty_clustering((uint64_t) n, nullptr, &t); vh_fail_at(-1, 0); vh_track(0); want = SCC_ER_NO_MEMORY; part = "memory"; }
		else if (a == 12) { double* y = (double*) malloc(sizeof(double) * 4); y[0] = 0; y[1] = 100; y[2] = 200; y[3] = 300; scc_DataSet* d4 = nullptr; scc_init_data_set(4, 1, 4, y, &d4); scc_Clustering* c4 = nullptr; scc_init_empty_clustering(4, nullptr, &c4); o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = 1; ec = scc_sc_clustering(d4, &o, c4); scc_free_clustering(&c4); scc_free_data_set(&d4); free(y); want = SCC_ER_NO_SOLUTION; part = "radius"; }
		else if (a == 13) { ec = scc_hierarchical_clustering(ds, 1, false, c); want = SCC_ER_INVALID_INPUT; part = "ize constraint"; }
		else if (a == 14) { scc_Clustering* c5 = nullptr; scc_init_empty_clustering((uint64_t) n, nullptr, &c5); ec = scc_sc_clustering(ds, &o, c5); if (ec == 0) { int e2 = scc_sc_clustering(ds, &o, c5); ec = e2; want = SCC_ER_NOT_IMPLEMENTED; part = "existing"; } scc_free_clustering(&c5); }
		else if (a == 15) { Prob p; p.n = n; p.custom = true; p.K.assign((size_t) n * n, 1.0); spi_install(p); SM.fail_at = 0; for (int k = 0; k < 40; ++k) { SM.calls = 0; SM.injected = 0; SM.fail_at = k; scc_Clustering* c6 = nullptr; scc_init_empty_clustering((uint64_t) n, nullptr, &c6); ec = scc_sc_clustering(spi_token(), &o, c6); scc_free_clustering(&c6); if (SM.injected) break; } spi_reset(); want = SCC_ER_DIST_SEARCH_ERROR; part = "istance"; }
		else if (a == 16) { scc_Clabel* l = (scc_Clabel*) calloc((size_t) n, sizeof(scc_Clabel)); scc_init_existing_clustering((uint64_t) n, 1, l, false, &t); scc_Clabel b; ec = scc_get_cluster_labels(t, 0, &b); scc_free_clustering(&t); free(l); want = SCC_ER_INVALID_INPUT; part = "invalid"; }
		else if (a == 17) { vh_track(1); vh_fail_at(0, 0); ec = scc_init_data_set((uint64_t) n, 1, (size_t) n, x, &td); vh_fail_at(-1, 0); vh_track(0); want = SCC_ER_NO_MEMORY; part = "memory"; }
		else if (a == 19) { // an allocation fails: either the call reports it, or it copes and there is nothing to report
			scc_Clustering* c8 = nullptr; scc_init_empty_clustering((uint64_t) n, nullptr, &c8); o.seed_method = (scc_SeedMethod) (g.chance(70) ? SCC_SM_EXCLUSION_ORDER : SCC_SM_EXCLUSION_UPDATING); vh_track(1); vh_reset_count(); vh_fail_at(g.in(0, 18), 0); ec = scc_sc_clustering(ds, &o, c8); ll failed = (ll) vh_failed(); vh_fail_at(-1, 0); vh_track(0); scc_free_clustering(&c8);
			want = ec == SCC_ER_OK || ec == SCC_ER_NO_MEMORY || ec == SCC_ER_DIST_SEARCH_ERROR ? ec : SCC_ER_NO_MEMORY; part = ec == SCC_ER_NO_MEMORY ? "memory" : "istance";
			if (!ec && failed) { cnt("recovered_calls"); char b[200]; memset(b, 0, sizeof b); if (!scc_get_latest_error(sizeof b, b)) viol("error-report", "no message after a recovered call"); else if (strstr(b, "No error")) { laste = 0; cnt("recovered_no_error"); } else if (!laste) viol("error-recovered", "a call that coped with a failed allocation left the message \"%s\"", b); } }
		else { // success does not disturb the message of the last failure
			scc_Clustering* c7 = nullptr; ec = scc_init_empty_clustering((uint64_t) n, nullptr, &c7); if (!ec) ec = scc_hierarchical_clustering(ds, 2, false, c7); scc_free_clustering(&c7); want = 0; }
		free(mb);
		h = h * 31 + (uint64_t) a;
		if (ec != want) { viol("error-code", "step kind %d: expected %s, got %s", a, ec_name(want), ec_name(ec)); break; }
		if (ec) { laste = ec; lastp = part;
			static char ref[24][600]; static int refe[24]; static char now[600]; memset(now, 0, sizeof now); scc_get_latest_error(sizeof now, now);
			if (strstr(now, "zz-stale-zz")) { viol("error-stale", "step kind %d (%s): the message is that of an earlier error: \"%s\"", a, ec_name(ec), now); break; }
			const char* tx = strchr(now, ')'); if (!tx) tx = now;
			if (a != 15 && a != 19) { if (!refe[a]) { refe[a] = ec; snprintf(ref[a], sizeof ref[a], "%s", tx); } else if (strcmp(ref[a], tx)) { viol("error-history", "step kind %d: the same error is described as \"%s\" and as \"%s\", depending on earlier calls", a, ref[a], tx); break; } } }
		if (laste) chk_msg(laste, lastp, ec ? "after the error" : "after a later success");
		if (R.violations) break;
	}
	scc_free_clustering(&c); scc_free_data_set(&ds); free(x); sig(h);
	if (want_sample()) sample("12-step call sequence on %d points, message checked after each step", n);
}
} // namespace
