#include "core.hpp"
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>

Run R;
SpiMon SM;

// ---------------------------------------------------------------- statistics
struct Counter { char name[64]; ll v; };
static std::vector<Counter> counters;
void cnt(const char* name, ll add) {
	for (auto& c : counters) if (!strcmp(c.name, name)) { c.v += add; return; }
	Counter c; memset(&c, 0, sizeof c); strncpy(c.name, name, 63); c.v = add; counters.push_back(c);
}
void cntf(ll add, const char* fmt, ...) { char b[64]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); cnt(b, add); }
static std::vector<uint64_t> sigs;
void sig(uint64_t h) { sigs.push_back(h); if (sigs.size() > 200000) { std::sort(sigs.begin(), sigs.end()); sigs.erase(std::unique(sigs.begin(), sigs.end()), sigs.end()); } }
static int nsamples = 0;
bool want_sample() { return nsamples < 2; }
void sample(const char* fmt, ...) { if (nsamples >= 2) return; ++nsamples; char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); for (char* c = b; *c; ++c) if (*c == '\n') *c = ' '; printf("SAMPLE case %lld: %s\n", R.idx, b); }
uint64_t hashb(const void* p, size_t n, uint64_t h) { const unsigned char* c = (const unsigned char*) p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; } return h; }

static std::vector<char> descb; // avoids std::string (uninstrumented libstdc++ under MSan)
void desc(const char* fmt, ...) {
	if (descb.size() > 60000) return;
	char b[4096]; va_list ap; va_start(ap, fmt); int k = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (k > (int) sizeof b - 1) k = sizeof b - 1;
	descb.insert(descb.end(), b, b + k);
}
void viol(const char* key, const char* fmt, ...) {
	char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	for (char* c = b; *c; ++c) if (*c == '\n') *c = ' ';
	printf("VIOL key=%s case=%lld %s\n", key, R.idx, b);
	if (R.violations < R.max_violations && !descb.empty()) { printf("DESC-BEGIN case=%lld\n", R.idx); fwrite(descb.data(), 1, descb.size(), stdout); printf("\nDESC-END\n"); }
	fflush(stdout);
	++R.violations;
}

// a recorded defect met again: reported once per run, the orchestrator compares it with KNOWN_FINDINGS.txt
void finding(const char* key, const char* fmt, ...) {
	static std::vector<std::string> seen; cntf(1, "finding_%s", key);
	for (auto& x : seen) if (x == key) return;
	seen.push_back(key);
	char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	for (char* c = b; *c; ++c) if (*c == '\n') *c = ' ';
	printf("FINDING key=%s case=%lld %s\n", key, R.idx, b); fflush(stdout);
}

const char* sm_name(int m) { static const char* t[] = {"LEXICAL", "BATCHES", "INWARDS_ORDER", "INWARDS_UPDATING", "EXCLUSION_ORDER", "EXCLUSION_UPDATING"}; return m >= 0 && m < 6 ? t[m] : "?"; }
const char* um_name(int m) { static const char* t[] = {"IGNORE", "ANY_NEIGHBOR", "CLOSEST_ASSIGNED", "CLOSEST_SEED"}; return m >= 0 && m < 4 ? t[m] : "?"; }
const char* rm_name(int m) { static const char* t[] = {"NO_RADIUS", "USE_SUPPLIED", "USE_SEED_RADIUS", "USE_ESTIMATED"}; return m >= 0 && m < 4 ? t[m] : "?"; }
const char* ec_name(int e) { static const char* t[] = {"OK", "UNKNOWN_ERROR", "INVALID_INPUT", "NO_MEMORY", "NO_SOLUTION", "TOO_LARGE_PROBLEM", "DIST_SEARCH_ERROR", "NOT_IMPLEMENTED"}; return e >= 0 && e < 8 ? t[e] : "?"; }

// ---------------------------------------------------------------- generation
void Prob::build_keys() {
	if (custom) return;
	K.assign((size_t) n * n, 0.0);
	for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) {
		double s = 0; const double* a = &X[(size_t) i * dim]; const double* b = &X[(size_t) j * dim];
		for (int d = 0; d < dim; ++d) { double v = a[d] - b[d]; s += v * v; }
		K[(size_t) i * n + j] = K[(size_t) j * n + i] = s;
	}
}
static int gen_n(Rng& g, int flags) {
	if (flags & GEN_TINY) return (int) g.in(2, 7);
	int c = (int) g.in(0, 99);
	if (flags & GEN_SMALL) return c < 50 ? (int) g.in(2, 12) : (int) g.in(5, 40);
	if (flags & GEN_BIG) { if (c < 3) return (int) g.in(1000, 2300); if (c < 10) return (int) g.in(250, 900); }
	if (c < 30) return (int) g.in(2, 12);
	if (c < 75) return (int) g.in(10, 60);
	if (c < 96) return (int) g.in(50, 150);
	return (int) g.in(150, 320);
}
void gen_prob(Rng& g, int flags, Prob& p) {
	p = Prob(); int n = p.n = gen_n(g, flags);
	bool custom = (flags & GEN_CUSTOM) || (!(flags & GEN_NOCUSTOM) && g.chance(12));
	if (custom && n > 700) n = p.n = (int) g.in(30, 300);
	if (custom) {
		p.custom = true; p.K.assign((size_t) n * n, 0.0); p.dim = 0;
		int kd = (int) g.in(0, 5);
		if (flags & GEN_TIEFREE) kd = 5;
		auto set = [&](int i, int j, double v) { p.K[(size_t) i * n + j] = p.K[(size_t) j * n + i] = v; };
		if (kd == 0) { p.kind = "custom-random-matrix"; p.metric = false; ll hi = g.in(1, 1000); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) set(i, j, (double) g.in(0, hi)); }
		else if (kd == 1) { p.kind = "custom-L1"; int dm = (int) g.in(1, 4); ll hi = g.in(1, 50); std::vector<ll> x((size_t) n * dm); for (auto& v : x) v = g.in(-hi, hi);
			for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { ll s = 0; for (int d = 0; d < dm; ++d) s += std::llabs(x[i * dm + d] - x[j * dm + d]); set(i, j, (double) s); } }
		else if (kd == 2) { p.kind = "custom-discrete"; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) set(i, j, 1.0); }
		else if (kd == 3) { p.kind = "custom-tree-ultrametric"; std::vector<ll> x(n); for (auto& v : x) v = g.in(0, 63); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { ll a = x[i] ^ x[j]; int b = 0; while (a) { ++b; a >>= 1; } set(i, j, (double) b); } }
		else if (kd == 4) { p.kind = "custom-hubs"; p.metric = false; int h = (int) g.in(1, 3); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) set(i, j, (double) ((j < h) ? 1 + g.in(0, 3) : 10 + g.in(0, 50))); }
		else { p.kind = "custom-random-tiefree"; p.metric = false; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) set(i, j, (double) g.in(1, 1LL << 50)); }
		return;
	}
	int kd = (int) g.in(0, 13);
	if (flags & GEN_TIEFREE) kd = (int) g.pick(vi{0, 0, 4, 9});
	if (flags & GEN_EXTREME) kd = 14 + (int) g.in(0, 2);
	int dim = p.dim = g.chance(3) ? (int) g.in(9, 40) : (int) g.in(1, 5);
	auto alloc = [&]() { p.X.assign((size_t) n * p.dim, 0.0); };
	alloc();
	auto& X = p.X;
	switch (kd) {
	case 0: { p.kind = "uniform-wide"; for (auto& v : X) v = (double) g.in(-1000000, 1000000); break; }
	case 1: { p.kind = "grid"; ll hi = g.in(1, 6); for (auto& v : X) v = (double) g.in(0, hi); break; }
	case 2: { p.kind = "all-identical"; double c = (double) g.in(-5, 5); for (auto& v : X) v = c; break; }
	case 3: { p.kind = "heavy-duplicates"; int distinct = (int) g.in(2, 5); std::vector<double> base((size_t) distinct * dim); for (auto& v : base) v = (double) g.in(-20, 20);
		for (int i = 0; i < n; ++i) { int b = (int) g.in(0, distinct - 1); if (g.chance(60)) b = 0; for (int d = 0; d < dim; ++d) X[(size_t) i * dim + d] = base[(size_t) b * dim + d]; } break; }
	case 4: { p.kind = "blobs"; int c = (int) g.in(2, 8); std::vector<double> base((size_t) c * dim); for (auto& v : base) v = (double) g.in(-400000, 400000);
		for (int i = 0; i < n; ++i) { int b = (int) g.in(0, c - 1); for (int d = 0; d < dim; ++d) X[(size_t) i * dim + d] = base[(size_t) b * dim + d] + (double) g.in(-3000, 3000); } break; }
	case 5: { p.kind = "line-equispaced"; p.dim = dim = 1; alloc(); vi o(n); for (int i = 0; i < n; ++i) o[i] = i; int w = (int) g.in(0, 2); if (w == 1) std::reverse(o.begin(), o.end()); if (w == 2) g.shuffle(o); ll st = g.in(1, 9); for (int i = 0; i < n; ++i) X[i] = (double) (o[i] * st); break; }
	case 6: { p.kind = "growing-gaps"; p.dim = dim = 1; alloc(); vi o(n); for (int i = 0; i < n; ++i) o[i] = i; if (g.chance(50)) g.shuffle(o); double ac = 0; std::vector<double> pos(n); for (int i = 0; i < n; ++i) { ac += (double) (i % 40 + g.in(0, 2)); pos[i] = ac; } for (int i = 0; i < n; ++i) X[i] = pos[o[i]]; break; }
	case 7: { p.kind = "equidistant-axes"; p.dim = dim = std::min(n, 24); alloc(); for (int i = 0; i < n; ++i) X[(size_t) i * dim + (i % dim)] = (double) (1 + (i / dim)); break; }
	case 8: { p.kind = "hub-and-spokes"; int h = (int) g.in(1, 4); for (int i = 0; i < n; ++i) for (int d = 0; d < dim; ++d) X[(size_t) i * dim + d] = (i % (n / h + 1) == 0) ? (double) (1000 * (i % 7)) : (double) (1000 * (i % 7)) + (double) g.in(-300, 300); break; }
	case 9: { p.kind = "offset-large"; for (auto& v : X) v = 1099511627776.0 + (double) g.in(0, 200000); break; }
	case 10: { p.kind = "scaled-pow2"; double sc = std::ldexp(1.0, (int) g.in(-60, 60)); ll hi = g.in(3, 5000); for (auto& v : X) v = sc * (double) g.in(-hi, hi); break; }
	case 11: { p.kind = "outliers"; for (auto& v : X) v = (double) g.in(0, 100); for (int t = 0; t < 1 + n / 20; ++t) { int i = (int) g.in(0, n - 1); for (int d = 0; d < dim; ++d) X[(size_t) i * dim + d] = (double) g.in(-10000000, 10000000); } break; }
	case 12: { p.kind = "pairs"; for (int i = 0; i < n; i += 2) for (int d = 0; d < dim; ++d) { double b = (double) g.in(-100000, 100000); X[(size_t) i * dim + d] = b; if (i + 1 < n) X[(size_t) (i + 1) * dim + d] = b + (double) g.in(-1, 1); }
		if (g.chance(50)) { /* shuffle rows */ for (int i = n - 1; i > 0; --i) { int j = (int) g.in(0, i); for (int d = 0; d < dim; ++d) std::swap(X[(size_t) i * dim + d], X[(size_t) j * dim + d]); } } break; }
	case 13: { p.kind = "two-far-groups"; int b = (int) g.in(1, n - 1); for (int i = 0; i < n; ++i) for (int d = 0; d < dim; ++d) X[(size_t) i * dim + d] = (double) g.in(0, 50) + (i < b ? 0.0 : 3000000.0); break; }
	case 14: { p.kind = "extreme-huge"; for (auto& v : X) { v = std::ldexp(g.unit() - 0.5, (int) g.in(500, 1023)); } break; }
	case 15: { p.kind = "extreme-tiny"; for (auto& v : X) { v = std::ldexp(g.unit() - 0.5, (int) g.in(-1074, -500)); } break; }
	default: { p.kind = "extreme-real"; for (auto& v : X) { v = std::ldexp(g.unit() - 0.5, (int) g.in(-30, 30)); } break; }
	}
	if (!(flags & GEN_NOKEYS)) p.build_keys();
}
bool tie_free(const Prob& p) {
	for (int i = 0; i < p.n; ++i) {
		std::vector<double> v; v.reserve(p.n);
		for (int j = 0; j < p.n; ++j) v.push_back(j == i ? 0.0 : p.key(i, j));
		std::sort(v.begin(), v.end());
		for (int j = 1; j < p.n; ++j) if (v[j] == v[j - 1]) return false;
	}
	return true;
}
double pick_radius(Rng& g, const Prob& p, uint32_t k) {
	// prefer values at and next to the k-th neighbour distances, where decisions change
	int c = (int) g.in(0, 99);
	if (c < 4) { int e = (int) g.in(0, 3); return e == 0 ? std::numeric_limits<double>::infinity() : e == 1 ? std::numeric_limits<double>::max() : 1e300; }
	if (c < 6) return std::ldexp(1.0, -200);
	int v = (int) g.in(0, p.n - 1);
	double q;
	if (c < 65 && (int) k <= p.n) {
		std::vector<double> r; for (int j = 0; j < p.n; ++j) r.push_back(j == v ? 0.0 : p.key(v, j));
		int pos = (int) k - 1; if (g.chance(40)) pos = (int) g.in(0, (ll) p.n - 1);
		std::nth_element(r.begin(), r.begin() + pos, r.end()); q = r[pos];
	} else q = p.key(v, (int) g.in(0, p.n - 1));
	double r = p.custom ? q : std::sqrt(q);
	bool perfect = p.custom || (r * r == q && r == std::floor(r * 1024.0) / 1024.0);
	int w = (int) g.in(0, 2);
	if (perfect && (w == 0 || g.chance(40))) { /* exactly on the boundary */ }
	else if (w == 1) r *= 1.0 - 1e-6; else r *= 1.0 + 1e-6;
	if (g.chance(10)) r *= (double) g.in(2, 4);
	if (!(r > 0.0) || !std::isfinite(r)) r = 0.5;
	return r;
}
void gen_opt(Rng& g, int flags, const Prob& p, Opt& o) {
	o = Opt(); int n = p.n;
	int c = (int) g.in(0, 99);
	ll k;
	if (c < 35) k = 2; else if (c < 60) k = 3; else if (c < 80) k = g.in(2, 6); else if (c < 88) k = g.in(2, std::max(2, n / 3)); else if (c < 92) k = n / 2; else if (c < 95) k = n - 1; else if (c < 98) k = n; else k = g.in(2, n);
	if (k < 2) k = 2;
	if (k > n) k = n;
	if (n > 900 && k > 40) k = g.in(2, 40);
	o.k = (uint32_t) k;
	o.method = (int) g.in(0, 5);
	if (flags & GEN_BATCH) o.method = SCC_SM_BATCHES;
	if ((flags & GEN_NOBATCH) || (flags & GEN_TYPES)) while (o.method == SCC_SM_BATCHES) o.method = (int) g.in(0, 5);
	bool types = (flags & GEN_TYPES) || (!(flags & GEN_NOTYPES) && o.method != SCC_SM_BATCHES && g.chance(30));
	if (types) {
		int tcase = (int) g.in(0, 99);
		uint32_t nt = tcase < 50 ? 2 : tcase < 70 ? 3 : tcase < 95 ? (uint32_t) g.in(2, 9) : tcase < 98 ? (uint32_t) g.in(200, 700) : (uint32_t) g.in(1000, 65535);
		if (sizeof(scc_TypeLabel) < 2) nt = std::min<uint32_t>(nt, 100);
		o.num_types = nt; o.tl.resize(n);
		int lc = (int) g.in(0, 4);
		uint32_t eff = std::min<uint32_t>(nt, (uint32_t) std::max(1, n));
		for (int i = 0; i < n; ++i) {
			if (lc == 0) o.tl[i] = (int) g.in(0, (ll) nt - 1);
			else if (lc == 1) o.tl[i] = g.chance(85) ? 0 : (int) g.in(0, (ll) nt - 1);
			else if (lc == 2) o.tl[i] = (int) ((unsigned) i % nt);
			else if (lc == 3) o.tl[i] = (int) ((ll) i * eff / n);
			else o.tl[i] = (int) (nt - 1 - (uint32_t) g.in(0, std::min<ll>(nt - 1, 2)));
		}
		std::vector<uint32_t> gs(nt, 0); for (int x : o.tl) ++gs[x];
		o.tc.assign(nt, 0);
		ll budget = g.chance(50) ? (ll) o.k : g.in(0, o.k);
		std::vector<uint32_t> cand; for (uint32_t t = 0; t < nt; ++t) if (gs[t] > 0) cand.push_back(t);
		for (int tries = 0; budget > 0 && tries < 200; ++tries) { uint32_t t = cand[(size_t) g.in(0, (ll) cand.size() - 1)]; if (o.tc[t] < gs[t] || (!(flags & GEN_FEASIBLE) && g.chance(1))) { ++o.tc[t]; --budget; } }
		if (g.chance(7)) std::fill(o.tc.begin(), o.tc.end(), 0u); // all-zero type constraints
	}
	if ((flags & GEN_PRIMARY) || g.chance(40)) {
		o.has_primary = true; int pc = (int) g.in(0, 7); vi& P = o.prim;
		if (pc == 0) for (int i = 0; i < n; ++i) P.push_back(i);
		else if (pc == 1) P.push_back((int) g.in(0, n - 1));
		else if (pc == 2) for (int i = 0; i < (n + 1) / 2; ++i) P.push_back(i);
		else if (pc == 3) for (int i = n / 2; i < n; ++i) P.push_back(i);
		else if (pc == 4) P.push_back(g.chance(50) ? n - 1 : 0);
		else { int pr = pc == 5 ? 15 : pc == 6 ? 50 : 85; for (int i = 0; i < n; ++i) if (g.chance(pr)) P.push_back(i); if (P.empty()) P.push_back((int) g.in(0, n - 1)); }
	}
	o.pum = (int) g.in(0, 3);
	o.sum = (int) g.pick(vi{SCC_UM_IGNORE, SCC_UM_CLOSEST_ASSIGNED, SCC_UM_CLOSEST_SEED});
	bool rad = (flags & GEN_RADIUS) || (!(flags & GEN_NORADIUS) && g.chance(40));
	if (rad) {
		if (g.chance(70)) { o.sr = SCC_RM_USE_SUPPLIED; o.srv = pick_radius(g, p, o.k); }
		o.pr = (int) g.in(0, 3); o.scr = (int) g.in(0, 3);
		o.prv = pick_radius(g, p, (uint32_t) std::min<ll>(2, n)); o.scrv = pick_radius(g, p, (uint32_t) std::min<ll>(2, n));
		if (flags & GEN_FEASIBLE) { // a seed radius that at least one point can satisfy
			if (o.sr == SCC_RM_USE_SUPPLIED) { int v = o.has_primary ? o.prim[(size_t) g.in(0, (ll) o.prim.size() - 1)] : (int) g.in(0, n - 1); std::vector<double> r; for (int j = 0; j < n; ++j) r.push_back(j == v ? 0.0 : p.key(v, j)); std::sort(r.begin(), r.end());
				double q = r[(size_t) g.in((ll) o.k - 1, std::min<ll>(n - 1, 3LL * o.k))]; double rr = p.custom ? q : std::sqrt(q); o.srv = rr * (1.0 + 1e-6); if (!(o.srv > 0)) o.srv = 1.0; }
		}
	} else { o.pr = g.chance(50) ? SCC_RM_NO_RADIUS : SCC_RM_USE_SEED_RADIUS; o.scr = g.chance(50) ? SCC_RM_NO_RADIUS : SCC_RM_USE_SEED_RADIUS; }
	if (o.method == SCC_SM_BATCHES) {
		o.pr = SCC_RM_USE_SEED_RADIUS; o.sum = SCC_UM_IGNORE; o.pum = g.chance(50) ? SCC_UM_IGNORE : SCC_UM_ANY_NEIGHBOR;
		int bc = (int) g.in(0, 9);
		o.batch = bc == 0 ? 0u : bc == 1 ? 1u : bc == 2 ? 2u : bc == 3 ? (uint32_t) n : bc == 4 ? (uint32_t) (n - 1) : bc == 5 ? UINT32_MAX : bc == 6 ? (uint32_t) n + 1 : (uint32_t) g.in(1, n);
	} else o.batch = g.chance(20) ? (uint32_t) g.in(0, n) : 0u;
}
Opt cores_only(const Opt& o) { Opt c = o; c.pum = SCC_UM_IGNORE; c.sum = SCC_UM_IGNORE; return c; }

void describe(const Prob& p, const Opt* o) {
	descb.clear();
	if (!R.desc_on) return;
	desc("problem kind=%s n=%d dim=%d custom=%d\n", p.kind, p.n, p.dim, (int) p.custom);
	if (p.n <= 60) { if (!p.custom) { desc("data="); for (int i = 0; i < p.n; ++i) { desc("["); for (int d = 0; d < p.dim && d < 12; ++d) desc("%s%.17g", d ? "," : "", p.X[(size_t) i * p.dim + d]); desc("]"); } }
		else if (p.n <= 30) { desc("dist="); for (int i = 0; i < p.n; ++i) { desc("["); for (int j = 0; j < p.n; ++j) desc("%s%.17g", j ? "," : "", p.key(i, j)); desc("]"); } } desc("\n"); }
	if (o) {
		desc("options size=%u seed_method=%s primary=%s secondary=%s seed_radius=%s(%.17g) primary_radius=%s(%.17g) secondary_radius=%s(%.17g) batch=%u types=%u\n", o->k, sm_name(o->method), um_name(o->pum), um_name(o->sum), rm_name(o->sr), o->srv, rm_name(o->pr), o->prv, rm_name(o->scr), o->scrv, o->batch, o->num_types);
		if (o->typed()) { desc("type_constraints="); for (size_t t = 0; t < o->tc.size() && t < 40; ++t) desc("%u,", o->tc[t]); desc(" type_labels="); for (int i = 0; i < p.n && i < 200; ++i) desc("%d,", o->tl[i]); desc("\n"); }
		if (o->has_primary) { desc("primary_points="); for (size_t i = 0; i < o->prim.size() && i < 200; ++i) desc("%d,", o->prim[i]); desc("\n"); }
	}
}

// ---------------------------------------------------------------- execution
scc_Clabel to_clabel(ll v) { return v < 0 ? SCC_CLABEL_NA : (scc_Clabel) v; }
ll from_clabel(scc_Clabel v) { return v == SCC_CLABEL_NA ? -1 : (ll) v; }
OptC::OptC(const Opt& s, int n) {
	o = scc_get_default_options();
	o.size_constraint = s.k; o.num_types = s.num_types; o.seed_method = (scc_SeedMethod) s.method;
	if (s.typed()) {
		tc = (uint32_t*) malloc(sizeof(uint32_t) * s.tc.size()); memcpy(tc, s.tc.data(), sizeof(uint32_t) * s.tc.size());
		tl = (scc_TypeLabel*) malloc(sizeof(scc_TypeLabel) * (size_t) n); for (int i = 0; i < n; ++i) tl[i] = (scc_TypeLabel) s.tl[i];
		o.type_constraints = tc; o.type_labels = tl; o.len_type_labels = (size_t) n;
	}
	if (s.has_primary) {
		pp = (scc_PointIndex*) malloc(sizeof(scc_PointIndex) * s.prim.size()); for (size_t i = 0; i < s.prim.size(); ++i) pp[i] = (scc_PointIndex) s.prim[i];
		o.primary_data_points = pp; o.len_primary_data_points = s.prim.size();
	}
	o.primary_unassigned_method = (scc_UnassignedMethod) s.pum; o.secondary_unassigned_method = (scc_UnassignedMethod) s.sum;
	o.seed_radius = (scc_RadiusMethod) s.sr; o.seed_supplied_radius = s.srv;
	o.primary_radius = (scc_RadiusMethod) s.pr; o.primary_supplied_radius = s.prv;
	o.secondary_radius = (scc_RadiusMethod) s.scr; o.secondary_supplied_radius = s.scrv;
	o.batch_size = s.batch;
}
DS::DS(const Prob& pr, bool) : p(&pr) {
	if (pr.custom) { custom = true; spi_install(pr); ds = spi_token(); return; }
	buf = (double*) malloc(sizeof(double) * pr.X.size()); memcpy(buf, pr.X.data(), sizeof(double) * pr.X.size());
	scc_DataSet* t = nullptr;
	int ec = scc_init_data_set((uint64_t) pr.n, (uint32_t) pr.dim, pr.X.size(), buf, &t);
	if (ec != SCC_ER_OK) { viol("data-set-init", "scc_init_data_set refused a valid data set: %s", ec_name(ec)); }
	ds = t;
}
DS::~DS() { if (custom) spi_reset(); else { scc_DataSet* t = (scc_DataSet*) ds; scc_free_data_set(&t); free(buf); } }

Res fetch(const scc_Clustering* c, int n) {
	Res r; r.ec = SCC_ER_OK; uint64_t np = 0, nc = 0;
	if (scc_get_clustering_info(c, &np, &nc) != SCC_ER_OK || np != (uint64_t) n) { viol("clustering-info", "clustering info unavailable or wrong number of points"); return r; }
	r.m = (ll) nc;
	if (nc == 0) return r;
	scc_Clabel* b = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n);
	memset(b, 0x5a, sizeof(scc_Clabel) * (size_t) n);
	if (scc_get_cluster_labels(c, (size_t) n, b) != SCC_ER_OK) { viol("labels-unavailable", "scc_get_cluster_labels failed on a non-empty clustering"); free(b); return r; }
	r.lab.resize(n); for (int i = 0; i < n; ++i) r.lab[i] = from_clabel(b[i]);
	free(b);
	return r;
}
static scc_Clabel* garbage_labels(int n) { scc_Clabel* e = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) n); for (int i = 0; i < n; ++i) e[i] = (scc_Clabel) (i * 7 % 5); return e; }
Res run_sc(DS& d, const Prob& p, const Opt& o, int lm) {
	OptC oc(o, p.n);
	scc_Clabel* ext = lm ? garbage_labels(p.n) : nullptr;
	scc_Clustering* cl = nullptr; Res r;
	if (scc_init_empty_clustering((uint64_t) p.n, ext, &cl) != SCC_ER_OK) { viol("clustering-init", "scc_init_empty_clustering refused %d points", p.n); free(ext); return r; }
	int ec = scc_sc_clustering(d.ds, &oc.o, cl);
	if (ec == SCC_ER_OK) {
		r = fetch(cl, p.n);
		if (ext && r.m > 0) for (int i = 0; i < p.n; ++i) if (from_clabel(ext[i]) != r.lab[i]) { viol("external-labels", "label of point %d differs between the external buffer and scc_get_cluster_labels", i); break; }
	}
	r.ec = ec;
	scc_free_clustering(&cl); free(ext);
	return r;
}
Res run_hc(DS& d, const Prob& p, uint32_t k, bool ba, int lm) {
	scc_Clabel* ext = lm ? garbage_labels(p.n) : nullptr;
	scc_Clustering* cl = nullptr; Res r;
	if (scc_init_empty_clustering((uint64_t) p.n, ext, &cl) != SCC_ER_OK) { viol("clustering-init", "scc_init_empty_clustering refused %d points", p.n); free(ext); return r; }
	int ec = scc_hierarchical_clustering(d.ds, k, ba, cl);
	if (ec == SCC_ER_OK) r = fetch(cl, p.n);
	r.ec = ec;
	scc_free_clustering(&cl); free(ext);
	return r;
}
Res run_hc_existing(DS& d, const Prob& p, uint32_t k, bool ba, const std::vector<ll>& lab, ll m, bool deep) {
	scc_Clabel* ext = (scc_Clabel*) malloc(sizeof(scc_Clabel) * (size_t) p.n); for (int i = 0; i < p.n; ++i) ext[i] = to_clabel(lab[i]);
	scc_Clustering* cl = nullptr; Res r;
	if (scc_init_existing_clustering((uint64_t) p.n, (uint64_t) m, ext, deep, &cl) != SCC_ER_OK) { viol("clustering-init", "scc_init_existing_clustering refused valid labels"); free(ext); return r; }
	if (deep) { memset(ext, 0x77, sizeof(scc_Clabel) * (size_t) p.n); free(ext); ext = nullptr; }
	int ec = scc_hierarchical_clustering(d.ds, k, ba, cl);
	if (ec == SCC_ER_OK) r = fetch(cl, p.n);
	r.ec = ec;
	scc_free_clustering(&cl); free(ext);
	return r;
}

// ---------------------------------------------------------------- plug-in monitor
static unsigned char token_area[64];
void* spi_token() { return SM.token; }
static void bad(const char* fmt, ...) { if (SM.bad[0]) return; va_list ap; va_start(ap, fmt); vsnprintf(SM.bad, sizeof SM.bad, fmt, ap); va_end(ap); }
enum { CB_CHECK, CB_NUM, CB_MATRIX, CB_ROWS, CB_MXINIT, CB_MXGET, CB_MXCLOSE, CB_NNINIT, CB_NNSEARCH, CB_NNCLOSE };
static bool inject(int kind) { // true: report failure now
	ll i = SM.calls++; ++SM.by_kind[kind];
	if (SM.injected && kind != CB_MXCLOSE && kind != CB_NNCLOSE && kind != CB_CHECK && kind != CB_NUM) ++SM.calls_after_fail;
	if (SM.fail_at >= 0 && i == SM.fail_at && kind != CB_CHECK && kind != CB_NUM && kind != CB_MXCLOSE && kind != CB_NNCLOSE) { ++SM.injected; SM.injected_kind = kind; return true; }
	return false;
}
static void chk_idx(const char* f, size_t len, const scc_PointIndex* v) {
	size_t n = (size_t) SM.p->n;
	if (v == nullptr) { if (len > n) bad("%s: %zu implicit indices but only %zu points", f, len, n); return; }
	for (size_t i = 0; i < len; ++i) if (!(v[i] >= 0) || (uint64_t) v[i] >= n) { bad("%s: index %lld out of range at %zu", f, (ll) v[i], i); return; }
}
static void chk_distinct(const char* f, size_t len, const scc_PointIndex* v) {
	if (!v || len < 2) return;
	std::vector<char> seen((size_t) SM.p->n, 0);
	for (size_t i = 0; i < len; ++i) { size_t x = (size_t) v[i]; if (x < seen.size()) { if (seen[x]) { bad("%s: index %zu listed twice", f, x); return; } seen[x] = 1; } }
}
static int at(const scc_PointIndex* v, size_t i) { int x = v ? (int) v[i] : (int) i; if (x < 0 || x >= SM.p->n) x = 0; return x; }
static bool tok(const char* f, void* ds) { if (ds != SM.token) { bad("%s: called with a foreign data set pointer", f); return false; } return true; }
static uint64_t tie_rank(int q, int s) { // any fixed preference among equally distant points is a valid search
	if (SM.ties == 1) return (uint64_t) (SM.p->n - s);
	if (SM.ties == 2) return q == s ? UINT64_MAX : (uint64_t) s; // the query itself comes last
	uint64_t h = (uint64_t) q * 0x9e3779b97f4a7c15ull + (uint64_t) s * 0xd1b54a32d192ed03ull + SM.ties; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return h; }
static bool cb_check(void* ds) { inject(CB_CHECK); return !SM.reject && ds == SM.token; }
static size_t cb_num(void* ds) { inject(CB_NUM); tok("num_data_points", ds); return (size_t) (SM.p->n + SM.num_off); }
static bool cb_matrix(void* ds, size_t n, const scc_PointIndex* idx, double* out) {
	bool f = inject(CB_MATRIX); if (!tok("get_dist_matrix", ds)) return false;
	if (n < 2) bad("get_dist_matrix: called for %zu points", n);
	if (!out) { bad("get_dist_matrix: NULL output"); return false; }
	chk_idx("get_dist_matrix", n, idx); chk_distinct("get_dist_matrix", n, idx);
	size_t tot = n * (n - 1) / 2; SM.pairs += (ll) tot;
	if (SM.scribble) for (size_t i = 0; i < tot; ++i) out[i] = -12345.0;
	if (f) return false;
	size_t w = 0; for (size_t a = 0; a < n; ++a) for (size_t b = a + 1; b < n; ++b) out[w++] = SM.p->dist(at(idx, a), at(idx, b));
	return true;
}
static bool cb_rows(void* ds, size_t nq, const scc_PointIndex* q, size_t nc, const scc_PointIndex* c, double* out) {
	bool f = inject(CB_ROWS); if (!tok("get_dist_rows", ds)) return false;
	if (nq == 0 || nc == 0) bad("get_dist_rows: empty request");
	if (!out) { bad("get_dist_rows: NULL output"); return false; }
	SM.row_q += (ll) nq; SM.row_cells += (ll) (nq * nc);
	chk_idx("get_dist_rows queries", nq, q); chk_idx("get_dist_rows columns", nc, c);
	if (SM.scribble) for (size_t i = 0; i < nq * nc; ++i) out[i] = -12345.0;
	if (f) return false;
	for (size_t a = 0; a < nq; ++a) for (size_t b = 0; b < nc; ++b) out[a * nc + b] = SM.p->dist(at(q, a), at(c, b));
	return true;
}
struct Obj { uint64_t magic; int kind; size_t ns; const scc_PointIndex* s; scc_PointIndex* copy; size_t serial; };
static std::vector<Obj*> objs;
static const uint64_t MG = 0xA11CE5EED5EEDULL;
static bool open_obj(const char* f, int kind, void* ds, size_t ns, const scc_PointIndex* s, void** out) {
	bool fl = inject(kind); if (!tok(f, ds)) return false;
	if (!out) { bad("%s: NULL output handle", f); return false; }
	if (ns == 0) bad("%s: no search points", f);
	chk_idx(f, ns, s); chk_distinct(f, ns, s);
	if (fl) { *out = (void*) (uintptr_t) 0xdead0; return false; } // a failed open leaves nothing usable behind
	Obj* o = (Obj*) malloc(sizeof(Obj)); o->magic = MG; o->kind = kind; o->ns = ns; o->s = s; o->copy = nullptr;
	if (s) { o->copy = (scc_PointIndex*) malloc(sizeof(scc_PointIndex) * (ns ? ns : 1)); memcpy(o->copy, s, sizeof(scc_PointIndex) * ns); }
	if (kind == CB_MXINIT) { o->serial = SM.mx.size(); SM.mx.emplace_back(); SM.mx.back().ns = ns; SM.mx.back().seen.assign((size_t) SM.p->n, 0); } else { o->serial = 0; ++SM.nn_objs; }
	objs.push_back(o); ++SM.opened; ++SM.live; *out = o;
	return true;
}
static Obj* use_obj(const char* f, int kind, void* h) {
	for (auto o : objs) if (o == h) { if (o->kind != kind) { bad("%s: object of the wrong kind", f); return nullptr; }
		if (o->s && memcmp(o->s, o->copy, sizeof(scc_PointIndex) * o->ns)) bad("%s: search points changed while the object is open", f);
		return o; }
	bad("%s: use of an object that is not open", f); return nullptr;
}
static bool close_obj(const char* f, int kind, void** h) {
	inject(kind == CB_MXINIT ? CB_MXCLOSE : CB_NNCLOSE);
	if (!h) { bad("%s: NULL handle", f); return false; }
	for (size_t i = 0; i < objs.size(); ++i) if (objs[i] == *h) {
		if (objs[i]->kind != kind) { bad("%s: wrong kind", f); return false; }
		free(objs[i]->copy); free(objs[i]); objs.erase(objs.begin() + (ll) i); ++SM.closed; --SM.live; *h = nullptr;
		if (SM.close_calls++ == SM.close_fail_at) { ++SM.close_injected; return false; } // released all the same, nothing to retry
		return true; }
	bad("%s: closing an object that is not open", f); return false;
}
static bool cb_mxinit(void* ds, size_t ns, const scc_PointIndex* s, iscc_MaxDistObject** o) { return open_obj("init_max_dist_object", CB_MXINIT, ds, ns, s, (void**) o); }
static bool cb_mxget(iscc_MaxDistObject* h, size_t nq, const scc_PointIndex* q, scc_PointIndex* oi, double* od) {
	bool f = inject(CB_MXGET); Obj* o = use_obj("get_max_dist", CB_MXINIT, h); if (!o) return false;
	if (nq == 0) bad("get_max_dist: no queries");
	if (!oi || !od) { bad("get_max_dist: NULL output"); return false; }
	chk_idx("get_max_dist", nq, q);
	std::vector<int> qq(nq); for (size_t i = 0; i < nq; ++i) qq[i] = at(q, i);
	if (o->serial < SM.mx.size()) { SpiMon::Mx& m = SM.mx[o->serial]; if (!m.queries) { m.first = nq; m.far.assign((size_t) SM.p->n, 0); } else for (int v : qq) if (!m.far[(size_t) v]) SM.mx_stray = v;
		m.queries += (ll) nq; for (int v : qq) if (m.seen[(size_t) v]++) SM.mx_twice = v; }
	if (SM.scribble) for (size_t i = 0; i < nq; ++i) { oi[i] = 0; od[i] = -12345.0; }
	if (f) return false;
	for (size_t i = 0; i < nq; ++i) { double m = -1; int bi = 0; for (size_t j = 0; j < o->ns; ++j) { int s = at(o->s, j); double v = SM.p->dist(qq[i], s); if (v > m || (SM.ties && v == m && tie_rank(qq[i], s) < tie_rank(qq[i], bi))) { m = v; bi = s; } } oi[i] = (scc_PointIndex) bi; od[i] = m; if (o->serial < SM.mx.size() && !SM.mx[o->serial].far.empty()) SM.mx[o->serial].far[(size_t) bi] = 1; }
	return true;
}
static bool cb_mxclose(iscc_MaxDistObject** h) { return close_obj("close_max_dist_object", CB_MXINIT, (void**) h); }
static bool cb_nninit(void* ds, size_t ns, const scc_PointIndex* s, iscc_NNSearchObject** o) { return open_obj("init_nn_search_object", CB_NNINIT, ds, ns, s, (void**) o); }
static bool cb_nn(iscc_NNSearchObject* h, size_t nq, const scc_PointIndex* q, uint32_t k, bool rs, double r, size_t* nok, scc_PointIndex* oq, scc_PointIndex* onn) {
	bool f = inject(CB_NNSEARCH); Obj* o = use_obj("nearest_neighbor_search", CB_NNINIT, h); if (!o) return false;
	if (nq == 0) bad("nearest_neighbor_search: no queries");
	if (k == 0 || k > o->ns) bad("nearest_neighbor_search: k=%u with %zu search points", k, o->ns);
	if (rs && !(r > 0.0)) bad("nearest_neighbor_search: radius search with radius %g", r);
	if (!nok || !onn) { bad("nearest_neighbor_search: NULL output"); return false; }
	if (rs && !oq) bad("nearest_neighbor_search: radius search without a buffer for the successful queries");
	chk_idx("nearest_neighbor_search", nq, q); chk_distinct("nearest_neighbor_search", nq, q);
	if (q && oq == q) ++SM.nn_alias;
	if (rs) ++SM.nn_radius;
	if (!q) ++SM.nn_null_query;
	SM.max_query = std::max(SM.max_query, nq);
	std::vector<int> qq(nq); for (size_t i = 0; i < nq; ++i) qq[i] = at(q, i);
	if (SM.nnq.empty()) SM.nnq.assign((size_t) SM.p->n, 0);
	for (int v : qq) { ++SM.nnq[(size_t) v]; if (SM.watch && from_clabel(SM.watch[v]) >= 0) SM.requeried = v; }
	SM.nn_points += (ll) nq; SM.k_max = std::max(SM.k_max, k);
	if (SM.scribble) { for (size_t i = 0; i < nq * k; ++i) onn[i] = (scc_PointIndex) 0; if (oq) for (size_t i = 0; i < nq; ++i) oq[i] = (scc_PointIndex) 0; }
	if (f) { *nok = 0; return false; }
	size_t ok = 0; if (k > o->ns) return false;
	std::vector<std::pair<double, int>> v(o->ns); // (distance, position)
	for (size_t i = 0; i < nq; ++i) {
		size_t m = 0;
		for (size_t j = 0; j < o->ns; ++j) { double x = SM.p->dist(qq[i], at(o->s, j)); if (!rs || x <= r) v[m++] = {x, (int) j}; }
		if (m < k) continue;
		if (!SM.ties) std::partial_sort(v.begin(), v.begin() + k, v.begin() + (ll) m);
		else std::partial_sort(v.begin(), v.begin() + k, v.begin() + (ll) m, [&](const std::pair<double, int>& a, const std::pair<double, int>& b) { return a.first != b.first ? a.first < b.first : tie_rank(qq[i], at(o->s, (size_t) a.second)) < tie_rank(qq[i], at(o->s, (size_t) b.second)); });
		for (uint32_t t = 0; t < k; ++t) onn[ok * k + t] = (scc_PointIndex) at(o->s, (size_t) v[t].second);
		if (oq) oq[ok] = (scc_PointIndex) qq[i];
		++ok;
	}
	*nok = ok;
	return true;
}
static bool cb_nnclose(iscc_NNSearchObject** h) { return close_obj("close_nn_search_object", CB_NNINIT, (void**) h); }

void spi_install(const Prob& p, unsigned mask) {
	for (auto o : objs) { free(o->copy); free(o); }
	objs.clear();
	SM = SpiMon(); SM.p = &p; SM.token = token_area + 8; (void) token_area;
	{ uint64_t h = (uint64_t) p.n; for (size_t i = 0; i < p.K.size() && i < 64; ++i) { uint64_t b; memcpy(&b, &p.K[i], 8); h = h * 0x100000001b3ull ^ b; } h ^= h >> 31; h *= 0x9e3779b97f4a7c15ull; h >>= 40; SM.ties = h % 4 == 3 ? 3 + (unsigned) (h >> 8) : (unsigned) (h % 4); }
	// An address nothing may dereference: the library must treat the data set as opaque.
	SM.token = (void*) (uintptr_t) 0x18;
	bool ok = scc_set_dist_functions(mask & 1 ? cb_check : nullptr, mask & 2 ? cb_num : nullptr, mask & 4 ? cb_matrix : nullptr, mask & 8 ? cb_rows : nullptr,
		mask & 16 ? cb_mxinit : nullptr, mask & 32 ? cb_mxget : nullptr, mask & 64 ? cb_mxclose : nullptr, mask & 128 ? cb_nninit : nullptr, mask & 256 ? cb_nn : nullptr, mask & 512 ? cb_nnclose : nullptr);
	if (!ok && mask == 0x3ff) viol("spi-install", "scc_set_dist_functions refused a complete set of functions");
}
void spi_reset() { if (!scc_reset_dist_functions()) viol("spi-reset", "scc_reset_dist_functions returned false"); }
bool spi_check(const char* where) {
	bool ok = true;
	if (SM.bad[0]) { viol("spi-protocol", "%s: %s", where, SM.bad); ok = false; }
	if (SM.live != 0) { viol("spi-unclosed", "%s: %lld search object(s) left open (opened %lld, closed %lld)", where, SM.live, SM.opened, SM.closed); ok = false; }
	SM.bad[0] = 0;
	return ok;
}

static ModeEnt mode_tab[64]; static int mode_n = 0;
void reg_mode(const char* name, mode_fn fn) { if (mode_n < 64) { mode_tab[mode_n].name = name; mode_tab[mode_n].fn = fn; ++mode_n; } }
mode_fn find_mode(const char* name) { for (int i = 0; i < mode_n; ++i) if (!strcmp(mode_tab[i].name, name)) return mode_tab[i].fn; return nullptr; }
void desc_reset() { descb.clear(); }
uint64_t prob_hash(const Prob& p, const Opt* o) {
	uint64_t h = p.custom ? hashv(p.K) : hashv(p.X); h ^= (uint64_t) p.dim * 1000003ULL;
	if (o) { ll t[] = { (ll) o->k, o->method, (ll) o->num_types, o->pum, o->sum, o->sr, o->pr, o->scr, (ll) o->batch, o->has_primary }; h = hashb(t, sizeof t, h); double r[] = { o->srv, o->prv, o->scrv }; h = hashb(r, sizeof r, h); h = hashv(o->tc, h); h = hashv(o->tl, h); h = hashv(o->prim, h); }
	return h;
}

// ---------------------------------------------------------------- main
static volatile ll* progress = nullptr;
static void dump() {
	printf("STATS-BEGIN\n"); for (auto& c : counters) printf("STAT %s %lld\n", c.name, c.v); printf("STATS-END\n");
	std::sort(sigs.begin(), sigs.end()); sigs.erase(std::unique(sigs.begin(), sigs.end()), sigs.end());
	const char* sf = getenv("VH_SIGFILE");
	if (sf) { FILE* f = fopen(sf, "wb"); if (f) { if (!sigs.empty()) fwrite(sigs.data(), 8, sigs.size(), f); fclose(f); } }
	fflush(stdout);
}
static double case_cpu_limit = 60;
static void on_vtalrm(int) { // one case used more CPU time than any legitimate case by orders of magnitude
	static const char m[] = "CASE-CPU-LIMIT\n"; (void) !write(1, m, sizeof m - 1); _exit(97);
}
int main(int argc, char** argv) {
	setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
	for (int i = 1; i < argc; ++i) {
		if (!strcmp(argv[i], "--mode")) R.mode = argv[++i];
		else if (!strcmp(argv[i], "--seed")) R.seed = strtoull(argv[++i], nullptr, 10);
		else if (!strcmp(argv[i], "--from")) R.from = atoll(argv[++i]);
		else if (!strcmp(argv[i], "--to")) R.to = atoll(argv[++i]);
		else if (!strcmp(argv[i], "--tier")) R.tier = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--cpu")) case_cpu_limit = atof(argv[++i]);
		else if (!strcmp(argv[i], "--maxviol")) R.max_violations = atoi(argv[++i]);
		else if (!strcmp(argv[i], "-v")) R.verbose = true;
		else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 3; }
	}
	mode_fn fn = find_mode(R.mode);
	if (!fn) { fprintf(stderr, "unknown mode %s\n", R.mode); return 3; }
	const char* pf = getenv("VH_PROGRESS");
	if (pf) { int fd = open(pf, O_RDWR | O_CREAT, 0644); if (fd >= 0 && ftruncate(fd, 64) == 0) { void* m = mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) progress = (volatile ll*) m; } }
	signal(SIGVTALRM, on_vtalrm);
	uint64_t mh = hashb(R.mode, strlen(R.mode));
	for (R.idx = R.from; R.idx < R.to; ++R.idx) {
		if (progress) { progress[0] = R.idx; progress[1] = 1; }
		struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long) case_cpu_limit; setitimer(ITIMER_VIRTUAL, &it, nullptr);
		descb.clear();
		Rng g(R.seed, (uint64_t) R.idx + 1, mh);
		fn(R.idx, g);
		cnt("cases");
		if (R.violations >= R.max_violations) break;
	}
	if (progress) progress[1] = 2;
	dump();
	printf("DONE violations=%d\n", R.violations);
	return R.violations ? 1 : 0;
}
