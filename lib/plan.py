"""What each check runs. A run: mode, monitor sources, build variant, cases (quick, thorough), offset of the case numbers."""
from dataclasses import dataclass, field

@dataclass
class Run:
    mode: str
    files: list
    variant: str
    quick: int
    thorough: int
    first: int = 0             # first case number (so that variants see different cases)
    crash_only: bool = False   # only crashes, sanitizer reports, assertion failures and hangs count (C10)

@dataclass
class Check:
    runs: list
    rule: str
    level: str = "exploration"
    technique: str = ""
    note: str = ""
    assumptions: list = field(default_factory=list)
    compare: bool = False      # compare the H lines of the runs (C20)

SC, SEEDS, HC, INV, FAULT, DIST, DG, STATS, SPI, API, THR, CFG, BIG, ANN, STEPS, BIGFAULT = (["mode_%s.cpp" % x] for x in
    ("sc", "seeds", "hc", "invalid", "fault", "dist", "dg", "stats", "spi", "api", "thr", "cfg", "big", "ann", "steps", "bigfault"))
OFF = 50_000_000   # case numbers of the optimised builds

def big(mode, plain=(320, 6000), asan=(64, 1000), files=BIG):
    """thousands to tens of thousands of points"""
    return [Run(mode, files, "plain", plain[0], plain[1], OFF), Run(mode, files, "asan", asan[0], asan[1])]

GEN = ("Each case draws a data set (grids, lattices, duplicates, all-identical, lines, stars, clustered, two far groups, offset, "
       "custom metrics through the plug-in interface, ...), its size, dimension and options from a seeded generator; ")
SANFAM = "runtime monitoring of the real library built from the working tree with ASan+UBSan (clang) and as optimised code (gcc -O2): "
A_REP = ["data without NaN", "labels handed to scc_init_existing_clustering are NA or below the number of clusters"]

CHECKS = {
 "C01": Check([Run("c01", SC, "asan", 24000, 400000), Run("c01", SC, "plain", 48000, 900000, OFF)] + big("c01big"),
    GEN + "non-trivial: the call succeeded with at least two clusters; distinct by hash of data and options.",
    technique=SANFAM + "label and size oracle on every returned clustering"),
 "C02": Check([Run("c02", SC, "asan", 90000, 1500000), Run("c02", SC, "plain", 250000, 4000000, OFF)] + big("c02big"),
    GEN + "always with two or more types; non-trivial: the call succeeded; distinct by hash of data and options.",
    technique=SANFAM + "per-type count oracle on every returned clustering"),
 "C03": Check([Run("c03", SC, "asan", 90000, 1500000), Run("c03", SC, "plain", 250000, 4000000, OFF)] + big("c03big"),
    GEN + "the expected set of assigned points is derived from the seed-neighbourhood clustering of the same problem; non-trivial: success with at least two clusters.",
    technique=SANFAM + "reference oracle for the set of assigned points"),
 "C04": Check([Run("c04", SC, "asan", 90000, 1500000), Run("c04", SC, "plain", 200000, 3000000, OFF)] + big("c04big"),
    GEN + "radii drawn at, just below and just above actual distances; non-trivial: success with at least two clusters.",
    technique=SANFAM + "radius oracle over seeds and targets consistent with the result"),
 "C05": Check([Run("c05", SC, "asan", 54000, 600000), Run("c05", SC, "plain", 105000, 1200000, OFF)] + big("c05big"),
    GEN + "non-trivial: success with at least two clusters.",
    technique=SANFAM + "nearest-neighbour oracle (up to ties) and the factor-four bound"),
 "C06": Check([Run("c06", SEEDS, "asan", 80000, 1300000), Run("c06", SEEDS, "plain", 160000, 3000000, OFF), Run("c06stable", SEEDS, "stable", 40000, 500000)] + big("c06big"),
    "Seeds and numbering of complete clusterings, and of the seed search on generated neighbour graphs; non-trivial: at least two seeds.",
    technique=SANFAM + "independence, maximality and order oracle on the picked seeds"),
 "C07": Check([Run("c07", HC, "asan", 70000, 1200000), Run("c07", HC, "plain", 140000, 2500000, OFF)] + big("c07big"),
    GEN + "empty and existing clusterings (unassigned points, empty clusters), both assignment modes; non-trivial: a split happened.",
    technique=SANFAM + "partition and refinement oracle"),
 "C08": Check([Run("c08", SC, "asan", 300000, 1600000), Run("c08", SC, "plain", 660000, 3500000, OFF)] + big("c08big"),
    GEN + "around the feasibility border; non-trivial: distinct problem with a decided verdict.",
    technique=SANFAM + "feasibility model against the returned code, CPU-time watchdog per case for termination"),
 "C09": Check([Run("c09", INV, "asan", 360000, 2500000), Run("c09", INV, "dbg", 180000, 1000000, OFF)] + big("c09big", (1200, 20000), (200, 3000), BIGFAULT),
    "Each case mutates one valid call into an invalid one (one rule broken per case, sometimes two) and snapshots the objects; non-trivial: distinct mutation and problem.",
    technique="runtime monitoring with ASan+UBSan and assertions: error-code oracle and state snapshots around mutated calls"),
 "C10": Check([Run(m, f, v, q, t, 7_000_000, True) for v, div in (("dbg", 1), ("msan", 1)) for m, f, q, t in (
        ("c10", API, 60000, 1200000), ("c18", API, 20000, 300000), ("c01", SC, 3000, 60000), ("c02", SC, 12000, 250000), ("c04", SC, 8000, 150000), ("c23", SC, 1500, 30000),
        ("c07", HC, 10000, 200000), ("c06", SEEDS, 6000, 100000), ("c14", DIST, 12000, 200000), ("c15", DG, 12000, 200000), ("c16", STATS, 12000, 200000), ("c17", STATS, 12000, 200000),
        ("c13", SPI, 6000, 100000), ("c11", FAULT, 6000, 80000), ("c12", FAULT, 6000, 80000), ("c22", FAULT, 500, 6000), ("c09", INV, 10000, 150000), ("c21", INV, 5000, 80000), ("c01big", BIG, 16, 400), ("c02big", BIG, 16, 400), ("c07big", BIG, 16, 400))],
    "Random sessions of valid API calls, and the workloads of the other properties, run with ASan+UBSan+assertions and with MSan; only sanitizer reports, assertion failures, crashes and hangs count. Non-trivial: distinct workload case that reached a successful call.",
    technique="compiler sanitizers (AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer) and the library's own assertions over API sessions"),
 "C11": Check([Run("c11", FAULT, "asan", 40000, 500000), Run("c11", FAULT, "dbg", 20000, 250000, OFF)] + big("c11big", (400, 8000), (64, 1000), BIGFAULT),
    "Each case takes one API call and fails its allocations: every single one in turn (small problems), from the n-th on, or a random subset; non-trivial: at least one allocation was failed inside the call.",
    level="fault_enumeration", technique="runtime monitoring with allocation-fault injection at every allocation of a call, ASan+UBSan, allocation ledger and result oracle"),
 "C12": Check([Run("c12", FAULT, "asan", 150000, 800000), Run("c12", FAULT, "dbg", 60000, 250000, OFF)] + big("c12big", (400, 8000), (64, 1000), BIGFAULT),
    "Each case takes one API call over monitored callbacks and makes each callback invocation fail in turn; non-trivial: an injected failure was reached.",
    level="fault_enumeration", technique="runtime monitoring with callback-fault injection at every callback invocation, open/close ledger and ASan+UBSan"),
 "C13": Check([Run("c13", SPI, "asan", 120000, 1000000), Run("c13", SPI, "plain", 200000, 1800000, OFF)],
    "Opaque data sets (an address nothing may touch) over generated metrics and non-metrics with an online protocol monitor, and random subsets of equivalent overrides; non-trivial: at least two clusters.",
    technique="online protocol monitor in replaced callbacks, ASan+UBSan, reference oracles over the supplied distances"),
 "C14": Check([Run("c14", DIST, "asan", 90000, 1300000), Run("c14", DIST, "plain", 200000, 3000000, OFF), Run("c14big", DIST, "plain", 3200, 40000, OFF), Run("c14big", DIST, "asan", 640, 9000)],
    "Random query and search subsets, dimensions, k and radii (at, just below and above actual distances); non-trivial: more than one query and search point.",
    technique=SANFAM + "brute-force distance, neighbour and farthest-point oracle"),
 "C15": Check([Run("c15", DG, "asan", 240000, 2000000), Run("c15", DG, "plain", 600000, 5000000, OFF), Run("c15big", DG, "plain", 480, 6000, OFF), Run("c15big", DG, "asan", 64, 800)],
    "Random digraphs (empty rows, loops, dense, sparse, skewed), all five operations, also with allocation limits that force the exact-count fallback; non-trivial: the result has arcs.",
    technique=SANFAM + "set-theoretic reference implementation, input snapshots, allocation pressure"),
 "C16": Check([Run("c16", STATS, "asan", 240000, 2500000), Run("c16", STATS, "plain", 600000, 6000000, OFF)] + big("c16big"),
    GEN + "with generated labels (unassigned points, empty, singleton, huge clusters) or a returned clustering; non-trivial: two non-empty clusters, one with a pair.",
    technique=SANFAM + "independent long-double computation of all statistics"),
 "C17": Check([Run("c17", STATS, "asan", 450000, 3000000), Run("c17", STATS, "plain", 1050000, 6000000, OFF)] + big("c17big"),
    "Constructed clusterings around the constraints' border and returned or slightly changed clusterings; non-trivial: distinct clustering and options with a verdict.",
    technique=SANFAM + "independent verdict in both directions"),
 "C18": Check([Run("c18", API, "asan", 200000, 1600000), Run("c18", API, "plain", 300000, 2500000, OFF)] + big("c18big", (1200, 20000), (200, 3000)),
    "Random operation histories over five clustering objects and data sets against a value model checked after every step; non-trivial: at least four kinds of operation.",
    technique="model-based runtime monitoring of object histories: value model, allocation ledger, write-protected inputs, ASan+UBSan"),
 "C19": Check([Run("c19", THR, "asan", 18000, 300000), Run("c19", THR, "plain", 40000, 700000, OFF), Run("c19thr", THR, "tsan", 8000, 120000, 0), Run("c19thr", THR, "plain", 8000, 120000, OFF)] + big("c19big", (400, 8000), (64, 1000), BIGFAULT),
    "Repetitions of one problem under changed heap contents, interposed calls and label garbage; and 2-6 threads with yields over shared read-only inputs. Non-trivial: at least two clusters, or concurrent uses in flight.",
    technique="ThreadSanitizer over concurrent uses, and a repetition monitor with heap-content perturbation (ASan and gcc -O2 builds)"),
 "C20": Check([Run(m, f, v, q, t, a) for m, f, q, t, a in (("c20", CFG, 40000, 250000, 0), ("c20big", BIG, 48, 400, 90_000_000)) for v in ("asan", "cfg_wide", "cfg_int_max", "cfg_int_min", "cfg_neg1", "cfg_mix", "cfg_neg7")],
    GEN + "the same cases on seven builds with different integer types, whose outcomes are compared case by case; non-trivial: at least two clusters.",
    technique="differential runtime monitoring of seven type configurations under ASan+UBSan", compare=True),
 "C21": Check([Run("c21", INV, "asan", 360000, 2500000), Run("c21", INV, "dbg", 150000, 1000000, OFF)],
    "Random histories of failing and succeeding calls and of requests for the latest error with every buffer length; non-trivial: distinct history with an error.",
    technique="runtime monitoring of error histories against a model of the latest error, exact-size buffers under ASan+UBSan"),
 "C22": Check([Run("c22", FAULT, "asan", 6400, 60000), Run("c22", FAULT, "plain", 12000, 120000, OFF)] + big("c22big", (400, 8000), (64, 1000), BIGFAULT),
    "Each case fails one clustering call (infeasible, allocation or callback failures at every point in turn) and compares the object before, after and after a retry; non-trivial: a failure was observed.",
    level="fault_enumeration", technique="runtime monitoring with allocation and callback fault injection, state snapshots and retry comparison, ASan+UBSan"),
 "C23": Check([Run("c23", SC, "asan", 14000, 250000), Run("c23", SC, "plain", 30000, 600000, OFF)] + big("c23big"),
    GEN + "run with many batch sizes and with the lexical method; non-trivial: at least two clusters.",
    technique=SANFAM + "differential oracle between batch sizes and against the lexical method"),
 "C25": Check([Run("c25", HC, "asan", 80000, 1000000), Run("c25", HC, "plain", 200000, 3000000, OFF)] + big("c25big", (1200, 20000), (120, 2000)),
    GEN + "tie-free data of any depth, and groups that are split exactly once on any data; non-trivial: at least one group was split.",
    technique=SANFAM + "acceptor for the sequences of splits that can lead to the result"),
 "C26": Check([Run("c26", BIG, "plain", 16000, 250000), Run("c26", BIG, "asan", 2400, 40000, OFF)],
    "Calls over 500 to 30,000 points with an allocation ledger and query-counting callbacks; non-trivial: distinct problem whose peak was measured.",
    technique="runtime monitoring of the allocation ledger (peak bytes held) and of the number of queries per search callback"),
 "C27": Check([Run("c27", ANN, "asan", 40000, 600000), Run("c27", ANN, "plain", 80000, 1500000, OFF), Run("c27", ANN, "cfg_int_max", 30000, 400000, 2 * OFF)],
    GEN + "searched and clustered with examples/ann/ann_wrapper.cpp and the installed ANN library, with failing allocations; non-trivial: a search compared with the reference, or at least two clusters.",
    technique=SANFAM + "brute-force neighbour oracle, clustering oracles and a counting, failing operator new around the bundled ANN plug-in"),
 "C28": Check([Run("c28", SPI, "asan", 120000, 1200000), Run("c28", SPI, "plain", 300000, 4000000, OFF)] + big("c28big", (480, 8000), (64, 1000)),
    GEN + "always through counting callbacks; bounds per point from the seed-neighbourhood and primary-phase clusterings of the same problem; non-trivial: success, or a split happened.",
    technique="online work monitor in replaced distance callbacks (searches per point, search objects, rows, pairs), ASan+UBSan and optimised builds"),
 "C29": Check([Run("c29", STEPS, "steps", 3200, 60000)],
    "Calls over 2,300 to 90,000 points (lines: ordered, reversed, shuffled, with duplicates, equal gaps, clumps) with counting callbacks, the library compiled to report every executed edge; non-trivial: distinct problem whose steps were compared with the limit.",
    technique="runtime monitoring of executed control-flow edges (-fsanitize-coverage=trace-pc-guard on the library only), exact and reproducible step counts against limits in the problem's size"),
 "C24": Check([Run("c24", SC, "asan", 120000, 1000000), Run("c24", SC, "plain", 300000, 3000000, OFF)],
    GEN + "transformed by exact isometries and scalings, and built of far groups; non-trivial: at least two clusters.",
    technique=SANFAM + "metamorphic oracle under exact isometries, scalings and far groups"),
}
NOTE = "Held on everything explored; sampled inputs with hostile generators, not a proof."
