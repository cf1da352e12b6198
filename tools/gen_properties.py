#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [],
                          "hook_needed": None}})

p("C01", "Every returned cluster meets the size constraint and labels are sound",
  "Whenever scc_sc_clustering returns SCC_ER_OK, the clustering has at least one cluster, every label is either SCC_CLABEL_NA or in [0, num_clusters), and every one of the num_clusters clusters contains at least size_constraint data points. This holds for every seed method, unassigned method, radius setting, primary-point subset, batch size and data set, including data with duplicated points and tied distances.",
  ["inputs", "configurations"], "all data sets (incl. duplicates/ties), all valid option combinations, all size constraints 2..n",
  "The unit tests compare labels on one fixed 100-point data set and a few hand-made graphs; the guarantee is over every data geometry (ties, duplicates, collinear points), every n/size relation and every option combination.",
  ["src/nng_clustering.c", "src/nng_core.c", "src/nng_findseeds.c", "src/nng_batch_clustering.c"],
  [("seeds only where the whole neighbourhood is unassigned", "src/nng_findseeds.c"), ("self match enforced in neighbour graph", "src/nng_core.c"), ("batch seed check and label write", "src/nng_batch_clustering.c")],
  [{"name": "cluster labels", "meaning": "one label per point, NA when unassigned", "where": "src/clustering_struct.h"}], ["scc_sc_clustering", "scc_get_cluster_labels", "scc_get_clustering_info"])

p("C02", "Every returned cluster meets every per-type constraint",
  "Whenever scc_sc_clustering returns SCC_ER_OK for options with two or more data point types, every cluster contains at least type_constraints[t] points of each type t as well as at least size_constraint points in total. This holds whether the type constraints sum to the size constraint or leave slack, when some (or all) types have a zero constraint or no points, for many types, and in combination with radius limits and primary-point subsets.",
  ["inputs", "configurations"], "all type labelings, type constraint vectors with sum <= size_constraint, number of types 2..65535, radius/primary options",
  "Tests use two or three types on fixed data; interactions of zero constraints, empty types, ties, radius-narrowed seed candidates and slack are unsampled.",
  ["src/nng_core.c", "src/digraph_operations.c", "src/nng_findseeds.c"],
  [("per-type neighbour graphs, union and difference", "src/nng_core.c"), ("union/difference of digraphs", "src/digraph_operations.c")], None, ["scc_sc_clustering", "scc_get_cluster_labels"])

p("C03", "Exactly the points that the assignment options call for are assigned",
  "With both unassigned methods set to ignore, a point is assigned iff it belongs to a seed's neighbourhood, so without type constraints every cluster has exactly size_constraint members. With any other primary method every primary point able to satisfy the seed radius (any-neighbor) or with an assigned point or seed within the primary radius (closest methods; always, without a radius) is assigned, and a point still left over after that, primary or not, is assigned iff the secondary method is not ignore and a target lies within the secondary radius. A target exactly at the radius counts as within.",
  ["inputs", "configurations"], "all data sets, primary subsets, primary/secondary unassigned methods and radius settings",
  "Tests check a few option combinations on one data set; omissions or over-assignments need particular subset/radius/method combinations.",
  ["src/nng_core.c", "src/nng_clustering.c", "src/nng_batch_clustering.c"],
  [("assignment by neighbour graph / nearest neighbour search", "src/nng_core.c"), ("radius option resolution", "src/nng_clustering.c")], None, ["scc_sc_clustering"])

p("C04", "Radius limits are never exceeded",
  "With a supplied seed radius, every cluster has a seed such that all points of its seed neighbourhood lie no farther than that radius from it, and a point attached by the any-neighbor method lies no farther than the seed radius from a neighbourhood member of its cluster. A point attached by a closest-assigned or closest-seed method lies no farther than the applicable primary or secondary radius (supplied, inherited from the seed radius, or estimated as the average seed-to-neighbour distance) from a neighbourhood member, respectively the seed, of its cluster.",
  ["inputs", "configurations"], "all data sets and all combinations of seed/primary/secondary radius methods and values, including values exactly equal to distances",
  "Tests use few radius values; the limit must hold at every boundary and for every way the three radii combine.",
  ["src/nng_clustering.c", "src/nng_core.c", "src/dist_search_imp.c", "src/nng_batch_clustering.c"],
  [("radius resolution and estimation", "src/nng_clustering.c"), ("radius-constrained nearest neighbour search", "src/dist_search_imp.c")], None, ["scc_sc_clustering"])

p("C05", "Points are grouped with their nearest neighbours",
  "Each cluster produced by scc_sc_clustering is built around a primary seed point together with that seed's nearest neighbours (the size_constraint nearest including itself, or with types the required number nearest of each type plus the nearest remaining points), up to distance ties. A point attached by any-neighbor joins a cluster containing one of its own nearest neighbours, closest-assigned joins the cluster of a nearest point among the seed neighbourhoods, and closest-seed joins the cluster of a nearest seed. Consequently, when all points are primary and there are no types or radius limits, no two points in a cluster are farther apart than four times the largest distance from any point to its (size_constraint - 1)-th nearest other point (twice, for pairs with the inwards-updating seed method and any-neighbor assignment).",
  ["inputs", "configurations"], "all data sets and options; tie-aware",
  "Optimality-type claims quantify over all points and all data sets; tests only compare to stored label vectors on one data set.",
  ["src/nng_core.c", "src/dist_search_imp.c", "src/nng_batch_clustering.c", "src/digraph_operations.c"],
  [("k-nearest-neighbour graph construction", "src/nng_core.c"), ("k-NN search", "src/dist_search_imp.c"), ("ordered-graph shortcut for closest assigned", "src/nng_core.c")], None, ["scc_sc_clustering"])

p("C06", "Seeds are a maximal independent set picked in the documented order",
  "No two seeds have overlapping neighbourhoods, and no further primary point whose neighbourhood satisfies the constraints could be added as a seed without overlapping an existing one. Seeds follow the documented order, which cluster numbering reflects: ascending index for lexical and batches; ascending in-arc count for inwards order; ascending exclusion-graph degree for exclusion order; and for the updating variants a seed always has the smallest current (updated) count among the points still eligible.",
  ["inputs", "configurations"], "all neighbour graphs arising from data, and arbitrary digraphs, for the five graph-based seed methods, plus batches on data",
  "The updating methods maintain a bucket queue whose errors show only for particular count histories; tests use a handful of fixed graphs.",
  ["src/nng_findseeds.c", "src/nng_batch_clustering.c", "src/digraph_operations.c"],
  [("marks / not-excluded sets and bucket sort with decrease-key", "src/nng_findseeds.c"), ("exclusion graph by adjacency product", "src/nng_findseeds.c")],
  [{"name": "bucket queue", "meaning": "vertices sorted by current count", "where": "src/nng_findseeds.c"}], ["scc_sc_clustering cluster numbering"])

p("C07", "Hierarchical clustering yields a size-bounded partition or refinement",
  "When scc_hierarchical_clustering succeeds on an empty clustering, every point is assigned, the labels are exactly 0..num_clusters-1, and every cluster has between size_constraint and 2*size_constraint-1 points. On an existing clustering the result refines it: unassigned points stay unassigned, every new cluster lies inside one old cluster, old clusters with fewer than 2*size_constraint points stay whole, larger ones are split into parts within those bounds, and all labels are used. This holds for both assignment modes and for any data, including all-identical points.",
  ["inputs", "histories"], "all data sets, existing clusterings (any cluster sizes, empty clusters, NA points), size constraints, both modes",
  "Tests use one fixed data set and few initial clusterings; splitting depends on marker reuse, stack growth and tie patterns.",
  ["src/hierarchical_clustering.c"],
  [("cluster stack, marker based splitting", "src/hierarchical_clustering.c")], None, ["scc_hierarchical_clustering"])

p("C08", "Feasible problems are solved, infeasible ones reported, always terminating",
  "For valid inputs scc_sc_clustering returns SCC_ER_OK exactly when a solution exists: there are at least size_constraint points, every type has at least as many points as its constraint, at least one primary point has a complete neighbourhood within the seed radius, and an estimated assignment radius that is needed is positive; otherwise it returns SCC_ER_NO_SOLUTION. scc_hierarchical_clustering succeeds exactly when there are at least size_constraint points. Every call terminates.",
  ["inputs", "configurations"], "all data sets and valid options around the feasibility boundary",
  "Feasibility boundaries (radius exactly equal to a neighbour distance, type groups exactly at their constraint) are unbounded in number.",
  ["src/nng_core.c", "src/nng_clustering.c", "src/utilities.c", "src/nng_batch_clustering.c", "src/hierarchical_clustering.c"],
  [("empty-graph and type-count checks", "src/nng_core.c"), ("option check", "src/utilities.c")], None, ["return codes"])

p("C09", "Invalid input is rejected with the right code and changes nothing",
  "Any call whose arguments violate the API's rules (uninitialised or mismatching objects, wrong options version, size constraint below two, inconsistent or out-of-range type labels, type constraints or primary points, unknown enum values, non-positive or NaN radii, unsupported combinations, too large sizes, NULL outputs) returns the matching error code (SCC_ER_INVALID_INPUT, SCC_ER_NOT_IMPLEMENTED, SCC_ER_TOO_LARGE_PROBLEM or, for fewer points than the size constraint, SCC_ER_NO_SOLUTION), never SCC_ER_OK and never a crash. The rejected call leaves the clustering object and its labels unchanged, and constructors that fail set their output to NULL.",
  ["inputs", "histories"], "every way to invalidate one argument of an otherwise valid call, over many valid base calls and object states",
  "Tests try some invalid arguments from one base state; missing validations (e.g. out-of-range labels at one position) need particular positions and states.",
  ["src/utilities.c", "src/scclust.c", "src/data_set.c", "src/nng_clustering.c", "src/hierarchical_clustering.c", "src/nng_batch_clustering.c"],
  [("argument validation", "src/utilities.c")], None, ["return codes", "labels before/after"])

p("C10", "No memory error or undefined behaviour for any valid use",
  "For every sequence of valid API calls the library reads and writes only memory it owns or was given (within the given lengths), never uses freed or uninitialised memory, commits no C undefined behaviour (signed overflow, invalid shifts, misaligned or null access), and violates none of its own internal assertions.",
  ["inputs", "histories", "configurations"], "all valid API use, all type configurations, with exact-size caller buffers",
  "Tests run un-instrumented with small fixed inputs, so an off-by-one or an uninitialised read is usually invisible.",
  ["src/nng_core.c", "src/nng_findseeds.c", "src/nng_batch_clustering.c", "src/hierarchical_clustering.c", "src/digraph_operations.c", "src/digraph_core.c", "src/dist_search_imp.c", "src/utilities.c", "src/scclust.c"],
  [("buffer sizing arithmetic", "src/*.c")], None, ["ASan/UBSan/MSan/valgrind reports"])

p("C11", "Allocation failure at any point is survived and reported",
  "If any memory allocation made during an API call fails, the call returns SCC_ER_NO_MEMORY (SCC_ER_DIST_SEARCH_ERROR when the failing allocation belongs to the distance search layer), or recovers and returns SCC_ER_OK with the same result as without the failure; it never crashes, never returns an unusable object, and releases everything it had allocated for the call.",
  ["fault_sequences", "inputs"], "every allocation index of every API call, single and persistent failures, over diverse inputs",
  "The tests never inject allocation failures; each error path exists only for one allocation index.",
  ["src/nng_core.c", "src/nng_findseeds.c", "src/nng_batch_clustering.c", "src/hierarchical_clustering.c", "src/digraph_operations.c", "src/digraph_core.c", "src/utilities.c", "src/scclust.c", "src/data_set.c", "src/dist_search_imp.c"],
  [("NULL checks and cleanup paths", "src/*.c"), ("exact-count fallback after failed allocation", "src/digraph_operations.c")], None, ["return codes", "allocation ledger"])

p("C12", "Failing distance callbacks are reported, never swallowed",
  "If any user-supplied distance, nearest-neighbour or max-distance callback reports failure (returns false) when opening a search or computing, the API call in progress returns SCC_ER_DIST_SEARCH_ERROR rather than SCC_ER_OK. Every search object successfully opened is closed exactly once, nothing is leaked, and no further result is produced from the failed search. A search whose closing reports failure is either reported the same way or has no influence on the result, and nothing is leaked or closed twice.",
  ["fault_sequences", "inputs"], "failure injected at every callback invocation of every API call",
  "Tests never inject a failing callback; each call site has its own error path.",
  ["src/nng_core.c", "src/nng_batch_clustering.c", "src/hierarchical_clustering.c", "src/utilities.c"],
  [("checks of the callback return values", "src/nng_core.c")], None, ["callback trace", "return codes"])

p("C13", "The distance plug-in contract is honoured for opaque data and any metric",
  "With all distance functions replaced, the library never touches the data set pointer itself and calls the callbacks only as the contract allows: objects opened before use, used only until closed, closed exactly once; indices distinct where required and in range; the neighbour count at most the number of searched points; output buffers large enough for everything the callback may write, also when the query and the output-query buffers coincide. The results then satisfy all clustering guarantees in terms of the supplied distances, a data set the plug-in rejects or reports with another number of points is invalid input and is not searched, any subset of overrides takes effect, a refused (incomplete) override reports false, and a reset restores the built-in functions.",
  ["inputs", "configurations", "histories"], "arbitrary metrics and distance matrices, all API calls, all override subsets and reset histories",
  "Tests mostly use the built-in Euclidean functions; contract violations (buffer too short, double close) do not show with those.",
  ["src/scclust_spi.c", "include/scclust_spi.h", "src/dist_search.h", "src/nng_core.c", "src/hierarchical_clustering.c", "src/nng_batch_clustering.c", "src/utilities.c"],
  [("function table", "src/scclust_spi.c")], None, ["callback trace"])

p("C14", "Built-in distance and neighbour searches are exact",
  "The built-in distance functions return the Euclidean distances of exactly the requested points in the requested order; the nearest-neighbour search returns for every query the k nearest search points in ascending order of distance (lower position first on ties), restricted with a radius to exactly those queries having k search points within it (inclusive), reporting which queries succeeded in query order; the max-distance search returns a farthest search point and its distance. This holds for any subset of query and search points, any number of dimensions, and any k.",
  ["inputs"], "all data sets, index subsets (or none), k, radius; dimensions 1..65535",
  "Tests use a fixed 3-dimensional data set.",
  ["src/dist_search_imp.c", "src/data_set.c"],
  [("insertion into the sorted k-list", "src/dist_search_imp.c")], None, ["distance callbacks of the built-in table", "scc_get_clustering_stats"])

p("C15", "Neighbour-graph operations equal their set-theoretic definitions",
  "Deleting self-loops, union restricted to kept tails with or without self-loops, difference with a maximum out-degree (keeping the first arcs), transposition, and adjacency product with optional forced loops produce exactly the arc sets their definitions prescribe, without duplicates, without modifying their const inputs, and also when memory pressure forces their exact-count fallback.",
  ["inputs", "fault_sequences"], "all digraphs (empty, with loops, isolated vertices, dense), all option combinations",
  "Tests use small hand-written graphs; the fallback path is never executed by them.",
  ["src/digraph_operations.c", "src/digraph_core.c"],
  [("row-marker based set operations", "src/digraph_operations.c")], None, ["digraph operation outputs"])

p("C16", "Clustering statistics equal their definitions",
  "scc_get_clustering_stats reports for any valid clustering exactly: the numbers of points, assigned points, clusters and non-empty clusters; minimum, maximum and average size over non-empty clusters; and the sum, minimum, maximum, averages of per-cluster minimum and maximum, and size-weighted and unweighted average of within-cluster pairwise distances (singletons contributing zero). Unassigned points and empty clusters contribute nothing, and the clustering and data are unchanged.",
  ["inputs"], "all clusterings (NA labels, empty clusters, singletons, one big cluster) over all data sets and metrics",
  "Tests check a few fixed clusterings.",
  ["src/utilities.c", "src/dist_search_imp.c"],
  [("accumulation over per-cluster distance matrices", "src/utilities.c")], None, ["scc_get_clustering_stats output"])

p("C17", "scc_check_clustering accepts exactly the clusterings meeting the options",
  "For any clustering with clusters and any valid options, scc_check_clustering reports true iff every label is NA or a valid cluster, every listed primary point is assigned, every cluster (also an empty one) has at least size_constraint points, and with types at least the required number of each type. Clusterings returned with SCC_ER_OK by scc_sc_clustering pass it whenever all listed primary points were assigned.",
  ["inputs"], "all label vectors incl. corrupted ones, option sets with and without types and primary points",
  "Tests check a handful of label vectors; a wrong acceptance needs a particular violation.",
  ["src/utilities.c"],
  [("label, primary, size and type checks", "src/utilities.c")], None, ["scc_check_clustering output"])

p("C18", "Objects own exactly what they allocate and report exactly what they hold",
  "Clustering and data set objects behave as values: deep copies are independent of their source, non-deep and external label arrays are used in place and never freed by the library, label retrieval copies out the stored labels (padding with NA beyond the points, truncating to the buffer), info reports the stored counts, and freeing releases everything exactly once, nulls the handle and is harmless when repeated. Input data, type labels, constraints, primary points and options are never written.",
  ["histories", "inputs"], "all interleavings of construction, copying, clustering, querying and freeing of several objects",
  "Ownership errors appear only in particular histories of copies and frees.",
  ["src/scclust.c", "src/data_set.c", "src/nng_clustering.c", "src/hierarchical_clustering.c"],
  [("external label flag", "src/scclust.c")], None, ["allocation ledger", "read-only input pages"])

p("C19", "Results are a function of the inputs only, also across threads",
  "The outcome of a call (code, labels, number of clusters, statistics) depends only on its arguments: repeating it, interposing other calls (including failing ones), different heap contents or different initial contents of an external label buffer do not change it. Concurrent successful calls on distinct clustering objects, even sharing a read-only data set and options, are free of data races and give the same results as sequential ones.",
  ["histories", "schedules", "inputs"], "all call histories, heap states and thread interleavings",
  "Tests run every call once, single threaded, in a fresh heap.",
  ["src/nng_core.c", "src/nng_findseeds.c", "src/hierarchical_clustering.c", "src/nng_batch_clustering.c", "src/error.c", "src/scclust_spi.c"],
  [("no mutable global state on success paths", "src/error.c")], None, ["results of repeated calls", "TSan reports"])

p("C20", "Results do not depend on the configured integer types",
  "For any problem representable in both, a library configured with other label, NA value, type-label, point-index or arc-index types returns the same codes and the same clusters as the default configuration, with unassigned points carrying the configured NA value, and the generated headers declare the configured types.",
  ["configurations", "inputs"], "all supported type configurations (signed/unsigned, 32/64 bit, NA at min/max/-1)",
  "Tests are run in a few configurations against fixed expectations only; sign or width errors need particular values.",
  ["configure", "templates/scclust.h", "templates/scclust_types.h", "src/*.c"],
  [("configured typedefs and limits", "templates/scclust_types.h")], None, ["digests per configuration"])

p("C21", "The latest error is reported accurately and safely",
  "After a call returns an error code, scc_get_latest_error yields a terminated message that identifies the source location and describes that most recent error, staying within the given buffer length and truncating when short; before any error it reports that there is none, with a zero length or NULL buffer it returns false and writes nothing. A failure that a call recovers from internally, returning SCC_ER_OK, is not reported as an error. Every documented error code has a distinct default description.",
  ["inputs", "histories"], "all error-producing calls, all buffer lengths, all call histories",
  "Tests check few messages and lengths.",
  ["src/error.c", "src/error.h"],
  [("error record", "src/error.c")], None, ["scc_get_latest_error"])

p("C22", "A failed call leaves the clustering usable and unchanged in meaning",
  "When a clustering call fails for any reason (infeasible, out of memory, distance failure), an empty clustering stays empty and an existing clustering keeps its number of clusters and labels, and the object can still be queried, copied, freed and clustered again; a retry without the fault gives the same result as if the failure had never happened.",
  ["fault_sequences", "histories"], "every failure point of every clustering call followed by every subsequent use",
  "Tests never continue after an injected failure.",
  ["src/nng_clustering.c", "src/nng_core.c", "src/hierarchical_clustering.c", "src/nng_batch_clustering.c"],
  [("object update only on success", "src/nng_clustering.c")], None, ["labels/counts after failure", "retry result"])

p("C23", "Batch size is only a resource knob",
  "With the batches seed method the resulting clustering is the same for every batch_size (0 meaning unlimited), including sizes larger than the data set, and with unassigned points ignored it equals the lexical method's clustering when the nearest neighbours are unambiguous.",
  ["inputs", "configurations"], "all data sets, primary subsets, radii and batch sizes 0..UINT32_MAX",
  "Tests compare a few batch sizes on fixed data; batch boundaries relative to assigned/primary points vary without bound.",
  ["src/nng_batch_clustering.c"],
  [("batch loop with preliminary labels", "src/nng_batch_clustering.c")], None, ["scc_sc_clustering with SCC_SM_BATCHES"])

p("C24", "Clusterings depend on the data only through distances",
  "Exact isometries and scalings of the data (translation and reflection that are exact in floating point, permuting or zero-padding coordinates, scaling data and radii by a power of two) leave the clustering unchanged. Groups of points so far apart that no admissible neighbourhood or target spans two groups are never mixed within a cluster, also by hierarchical clustering of two such groups with point-wise assignment.",
  ["inputs"], "all data sets, options and exact distance-preserving transformations",
  "Metamorphic relation over pairs of inputs, which example-based tests do not compare.",
  ["src/dist_search_imp.c", "src/nng_core.c", "src/hierarchical_clustering.c", "src/nng_batch_clustering.c"],
  [("all decisions through distances", "src/dist_search_imp.c")], None, ["results on transformed inputs"])

p("C25", "Hierarchical clustering splits groups around mutually farthest points",
  "Every group that hierarchical clustering divides is divided around two of its points that are each other's farthest point in the group, at least as far apart as the farthest point of at least half of the group (of at least 100 points in large groups). The one of the two whose (size_constraint - 1) nearest group members reach farther takes those, then the other takes its (size_constraint - 1) nearest of the rest. Each remaining point joins the nearer of the two (point-wise assignment), or with batch assignment the remaining points go, up to size_constraint at a time, to the one whose nearest such batch reaches less far; ties may go either way.",
  ["inputs", "configurations"], "all data sets and distances, size constraints, group structures and both assignment modes",
  "Tests compare fixed labels on one data set; which points end together depends on the geometry of every group at every level of the recursion.",
  ["src/hierarchical_clustering.c", "src/dist_search_imp.c"],
  [("search of the two centers", "src/hierarchical_clustering.c"), ("sorted edge lists and assignment loops", "src/hierarchical_clustering.c")], None, ["scc_hierarchical_clustering labels"])

p("C26", "Memory stays proportional to the problem and batches stay within batch_size",
  "During a call the library holds memory at most proportional to the number of points times the size constraint (lexical and inwards seed methods), to the number of points plus batch_size times the size constraint (batches), to the number of points and clusters (hierarchical clustering, checking), and for statistics in addition to the number of pairs in the largest cluster, with small constant factors. With a non-zero batch_size the batches method never asks for the neighbours of more than batch_size points in one search.",
  ["inputs", "configurations"], "all problem sizes, size constraints, batch sizes, cluster structures",
  "Tests never measure memory, and use 100 points, where a quadratic or unbatched buffer goes unnoticed.",
  ["src/nng_batch_clustering.c", "src/nng_core.c", "src/nng_findseeds.c", "src/hierarchical_clustering.c", "src/utilities.c"],
  [("batch buffers", "src/nng_batch_clustering.c"), ("work area and cluster stack", "src/hierarchical_clustering.c"), ("largest distance matrix", "src/utilities.c")], None, ["allocation ledger peak", "queries per nearest-neighbour callback"])

p("C27", "The bundled ANN search is a drop-in replacement for the built-in search",
  "After scc_set_ann_dist_search a nearest-neighbour search returns for every query k distinct search points at exactly the k smallest distances in ascending order, restricted with a radius to exactly the queries having k search points within it and in query order, for any query and search subsets and point-index type; clusterings made with it meet all clustering guarantees. It leaks no memory, and a failed allocation is reported as a failed search (SCC_ER_DIST_SEARCH_ERROR), never by an exception. The two example programs print a clustering that meets their size constraint.",
  ["inputs", "faults", "configurations"], "all query and search subsets, k, radii, data, failing allocations, point-index types",
  "Tests use fixed data with 15 points and no failing allocations, and cannot see leaks.",
  ["examples/ann/ann_wrapper.cpp", "examples/ann/ann_example.c", "examples/simple/simple_example.c"],
  [("tree construction", "examples/ann/ann_wrapper.cpp"), ("searches, int and other point indices", "examples/ann/ann_wrapper.cpp")], None, ["results of every search", "blocks allocated by operator new"])

p("C28", "No more distance searches are requested than the method needs",
  "Seen from a distance plug-in, size-constrained clustering asks for the neighbours of a primary point once in total with batches (and never of a point already in a cluster), otherwise once for the size constraint or once per constrained type and once for the remaining neighbours; once more in the primary and once more in the secondary assignment phase only for points still unassigned then; never for other non-primary points; never for more neighbours at a time than the size constraint, with at most one search object per such round; distance rows only for an estimated radius, one per seed at most and fewer than 2,000. Hierarchical clustering opens at most one farthest-point search per split, starting from at most 100 of the group's points, going on only through points found farthest and asking for none twice, and at most two distance rows per split. Statistics ask for the pairs within clusters, each once, and nothing else.",
  ["inputs", "configurations"], "all data sets, options, batch sizes and cluster structures, over any distance plug-in",
  "Tests compare results only; repeated or needless searches, which dominate the running time, change no result.",
  ["src/nng_core.c", "src/nng_batch_clustering.c", "src/nng_clustering.c", "src/hierarchical_clustering.c", "src/utilities.c"],
  [("nearest-neighbour graph construction and assignment phases", "src/nng_core.c"), ("batch filling", "src/nng_batch_clustering.c"), ("search of the two centers", "src/hierarchical_clustering.c"), ("per-cluster distance matrices", "src/utilities.c")], None, ["queries, search objects, rows and pairs per call as seen by the plug-in"])

p("C29", "Work besides the distance searches grows linearly with the problem",
  "Apart from the distance searches the number of steps a call executes is at most a small constant times: the points plus, for each primary point, the neighbours asked for (size constraint, and number of constrained types) plus the number of types, for scc_sc_clustering with the lexical, inwards and batches seed methods and any assignment methods; the points and old clusters plus, summed over all splits, the members of the divided group times the logarithm of their number, for hierarchical clustering; the points plus the clusters (times the number of types), for scc_check_clustering; the points, clusters and pairs within clusters, for statistics, copies and label retrieval. No quadratic behaviour appears for any order, duplication or arrangement of the points.",
  ["inputs", "configurations"], "all problem sizes, point orders, size constraints, options and cluster structures",
  "Tests use 100 points and compare results only; a scan of all points per cluster or per split changes no result.",
  ["src/nng_core.c", "src/nng_findseeds.c", "src/nng_batch_clustering.c", "src/hierarchical_clustering.c", "src/utilities.c", "src/digraph_operations.c", "src/scclust.c"],
  [("seed search and count updates", "src/nng_findseeds.c"), ("edge lists with removal of used edges", "src/hierarchical_clustering.c"), ("graph union and difference", "src/digraph_operations.c"), ("assignment phases", "src/nng_core.c")], None, ["control-flow edges executed inside the library per call"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
