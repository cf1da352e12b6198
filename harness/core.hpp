// Shared machinery of the monitors: deterministic case generation, execution of the real library,
// the plug-in (SPI) monitor and the reference oracles.
#pragma once
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <utility>
#include <vector>
#include "scclust.h"
#include "scclust_spi.h"
#include "shim.h"
#include "vh_alloc.h"

typedef long long ll;
typedef std::vector<int> vi;

// ---------------------------------------------------------------- rng
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t a = 1, uint64_t b = 0, uint64_t c = 0) { s = 0x9e3779b97f4a7c15ULL ^ a * 0xbf58476d1ce4e5b9ULL; next(); s ^= b * 0x94d049bb133111ebULL; next(); s ^= c * 0xd6e8feb86659fd93ULL; next(); next(); }
	uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
	ll in(ll a, ll b) { return b <= a ? a : a + (ll)(next() % (uint64_t)(b - a + 1)); }
	bool chance(int pct) { return (int)(next() % 100) < pct; }
	double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[(size_t) in(0, (ll) v.size() - 1)]; }
	template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[(size_t) in(0, (ll) i - 1)]); }
};

// ---------------------------------------------------------------- run context, statistics, reports
struct Run {
	const char* mode = ""; uint64_t seed = 1; ll from = 0, to = 0, idx = 0; int tier = 0; // tier 1 = thorough
	int violations = 0, max_violations = 3; bool verbose = false;
	bool desc_on = true;
};
extern Run R;
void cnt(const char* name, ll add = 1);           // named counter, reported as evidence
void cntf(ll add, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void sig(uint64_t h);                             // signature of a distinct non-trivial case
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool want_sample();                               // true for the first few cases of a shard
// report a violation of the property being checked; key = stable class of the failure
void viol(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void finding(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
uint64_t hashb(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
template <class T> uint64_t hashv(const std::vector<T>& v, uint64_t h = 1469598103934665603ULL) { return hashb(v.data(), v.size() * sizeof(T), h); }
void desc(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // describe the current case (for replays)

// ---------------------------------------------------------------- problems
struct Prob {
	int n = 0, dim = 1; std::vector<double> X;      // row major
	bool custom = false;                            // distances supplied through the plug-in interface
	std::vector<double> K;                          // n*n comparison keys: squared distance (built-in) or distance (custom)
	bool metric = true;                             // triangle inequality holds
	const char* kind = "";
	double key(int i, int j) const { return K[(size_t) i * n + j]; }
	double thr(double r) const { return custom ? r : r * r; }
	double dist(int i, int j) const { return custom ? key(i, j) : std::sqrt(key(i, j)); }
	void build_keys();
};

struct Opt {
	uint32_t k = 2; int method = SCC_SM_LEXICAL;
	uint32_t num_types = 0; std::vector<uint32_t> tc; vi tl;
	bool has_primary = false; vi prim;
	int pum = SCC_UM_ANY_NEIGHBOR, sum = SCC_UM_IGNORE;
	int sr = SCC_RM_NO_RADIUS; double srv = 0; int pr = SCC_RM_USE_SEED_RADIUS; double prv = 0; int scr = SCC_RM_USE_SEED_RADIUS; double scrv = 0;
	uint32_t batch = 0;
	bool typed() const { return num_types >= 2; }
	uint32_t sumtc() const { uint32_t s = 0; for (auto x : tc) s += x; return s; }
};

enum { GEN_EXACT = 1,      // integer-valued (exactly representable) distances only
       GEN_SMALL = 2,      // small n
       GEN_CUSTOM = 4,     // always a custom metric through the SPI
       GEN_NOCUSTOM = 8,   // never
       GEN_BIG = 16,       // large n sometimes
       GEN_TIEFREE = 32,   // try to avoid ties
       GEN_NOTYPES = 64, GEN_TYPES = 128, GEN_BATCH = 256, GEN_NOBATCH = 512, GEN_NORADIUS = 1024, GEN_RADIUS = 2048, GEN_NOKEYS = 4096,
       GEN_FEASIBLE = 8192, GEN_EXTREME = 16384, GEN_PRIMARY = 32768, GEN_TINY = 65536 };
void gen_prob(Rng& g, int flags, Prob& p);
void gen_opt(Rng& g, int flags, const Prob& p, Opt& o);
void gen_chain(Rng& g, Prob& p, int n); // distances shrinking geometrically: hierarchical splits peel off the least possible, so the work stack gets deep
double pick_radius(Rng& g, const Prob& p, uint32_t k);
void describe(const Prob& p, const Opt* o);
bool tie_free(const Prob& p);

// C view of options with exact-size heap arrays
struct OptC {
	scc_ClusterOptions o; uint32_t* tc = nullptr; scc_TypeLabel* tl = nullptr; scc_PointIndex* pp = nullptr;
	OptC(const Opt& s, int n);
	~OptC() { free(tc); free(tl); free(pp); }
	OptC(const OptC&) = delete;
};
struct DS { // data set as handed to the library
	void* ds = nullptr; double* buf = nullptr; bool custom = false; const Prob* p;
	explicit DS(const Prob& p, bool monitored_custom = true);
	~DS();
	DS(const DS&) = delete;
};
struct Res { int ec = -1; ll m = 0; std::vector<ll> lab; // NA = -1; raw labels outside are kept as is
	bool same(const Res& b) const { return ec == b.ec && m == b.m && lab == b.lab; } };
// label mode: 0 = library allocated labels, 1 = external label buffer (garbage filled)
Res run_sc(DS& d, const Prob& p, const Opt& o, int label_mode = 0);
Res run_hc(DS& d, const Prob& p, uint32_t k, bool batch_assign, int label_mode = 0);
Res run_hc_existing(DS& d, const Prob& p, uint32_t k, bool batch_assign, const std::vector<ll>& lab, ll m, bool deep);
scc_Clabel to_clabel(ll v);
ll from_clabel(scc_Clabel v);
Res fetch(const scc_Clustering* c, int n);
Opt cores_only(const Opt& o); // same options, both unassigned methods ignored

// ---------------------------------------------------------------- plug-in monitor
struct SpiMon {
	const Prob* p = nullptr; void* token = nullptr;
	ll calls = 0, opened = 0, closed = 0, live = 0; ll fail_at = -1; ll injected = 0; ll close_calls = 0, close_fail_at = -1, close_injected = 0; bool reject = false; int num_off = 0;
	int injected_kind = -1; ll by_kind[10] = {0};
	bool scribble = true; char bad[512] = {0}; unsigned ties = 0; // which of equally distant points a search prefers: lower position, higher position, an arbitrary fixed order
	ll nn_alias = 0, nn_radius = 0, nn_null_query = 0; size_t max_query = 0;
	ll calls_after_fail = 0;
	// work asked of the plug-in (C28)
	std::vector<int> nnq; ll nn_points = 0; uint32_t k_max = 0; ll row_q = 0, row_cells = 0, pairs = 0, nn_objs = 0; const scc_Clabel* watch = nullptr; int requeried = -1;
	struct Mx { size_t ns = 0; ll queries = 0; size_t first = 0; vi seen, far; }; std::vector<Mx> mx; int mx_twice = -1, mx_stray = -1;
	void work_reset() { nnq.clear(); mx.clear(); nn_points = row_q = row_cells = pairs = nn_objs = 0; k_max = 0; watch = nullptr; requeried = mx_twice = mx_stray = -1; }
};
extern SpiMon SM;
void spi_install(const Prob& p, unsigned mask = 0x3ff);
void spi_reset();
bool spi_check(const char* where); // reports protocol violations; true when clean
void* spi_token();

// ---------------------------------------------------------------- oracles
struct Nng { bool ok = false; int ec = -1; std::vector<vi> N; std::vector<char> has; }; // N without self
bool get_nng(DS& d, const Prob& p, const Opt& o, Nng& out);
bool get_seeds(const Nng& g, int method, size_t cap, vi& seeds, int* ec = nullptr);
bool feasible_point(const Prob& p, const Opt& o, int v); // neighbourhood exists within the seed radius
double nbh_radius_key(const Prob& p, const Opt& o, int v); // largest key needed by a neighbourhood of v (no types)
// "" if C (sorted, containing v) is a legal neighbourhood of v up to ties, otherwise a reason
const char* bad_nbh(const Prob& p, const Opt& o, int v, const vi& C);
enum { A_LABEL = 1, A_SIZE = 2, A_TYPE = 4, A_COMPLETE = 8, A_RADIUS = 16, A_CLOSE = 32, A_ALL = 63 };
const char* check_labels(const Prob& p, const Opt& o, const Res& r, int what); // C01/C02 level oracle; "" when fine
// Full behavioural oracle; runs the core-only problem itself. Calls viol() for the tags in `what`.
void analyze(DS& d, const Prob& p, const Opt& o, const Res& full, int what);
bool solvable(DS& d, const Prob& p, const Opt& o, bool* ambiguous); // feasibility model (C08)
std::vector<vi> members(const Res& r);
bool is_primary(const Opt& o, int v);
double est_radius(const Prob& p, const Nng& g, const vi& seeds); // estimated assignment radius model
const char* sm_name(int m); const char* um_name(int m); const char* rm_name(int m); const char* ec_name(int e);

void check_seeds(const Nng& g, const vi& seeds, int method, const char* where); // C06 oracle on a given graph

// modes
typedef void (*mode_fn)(ll idx, Rng& g);
struct ModeEnt { const char* name; mode_fn fn; };
mode_fn find_mode(const char* name);
void reg_mode(const char* name, mode_fn fn);
struct Reg { Reg(const char* n, mode_fn f) { reg_mode(n, f); } };
#define MODE(name) static void mode_##name(ll idx, Rng& g); static Reg reg_##name(#name, mode_##name); static void mode_##name([[maybe_unused]] ll idx, [[maybe_unused]] Rng& g)
uint64_t prob_hash(const Prob& p, const Opt* o);
void desc_reset();
