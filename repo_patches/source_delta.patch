From 6747682464f1765a7401d49256026e76b4879008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:51 +0000
Subject: [PATCH 01/19] fix: count the first cluster when sizing the
 hierarchical work area

The size of the largest existing cluster was taken over clusters 1, 2, ... only,
so refining a clustering whose first cluster is the largest overflowed the
distance and edge buffers.
---
 src/hierarchical_clustering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 910ba91..681f659 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -335,7 +335,7 @@ static scc_ErrorCode iscc_hi_init_cl_stack(const scc_Clustering* const in_cl,
 		}
 	}
 
-	size_t size_largest_cluster = 0;
+	size_t size_largest_cluster = (clusters[0].size > 1) ? clusters[0].size : 1; // At least one so the work area never is of zero size
 	clusters[0].members = out_cl_stack->pointindex_store + clusters[0].size;
 	for (size_t c = 1; c < in_cl->num_clusters; ++c) {
 		clusters[c].members = clusters[c - 1].members + clusters[c].size;
-- 
2.43.0


From 9f870bce9bbfb2acc323eadcdb069c3ae3b2ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:51 +0000
Subject: [PATCH 02/19] fix: pick two distinct centers when all points of a
 cluster are identical

With all distances zero a point can be its own farthest point, and it was then
moved to both halves of the split cluster.
---
 src/hierarchical_clustering.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 681f659..9f54e29 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -796,6 +796,11 @@ static scc_ErrorCode iscc_hi_find_centers(iscc_hi_ClusterItem* const cl,
 		return iscc_make_error(SCC_ER_DIST_SEARCH_ERROR);
 	}
 
+	if (*out_center1 == *out_center2) {
+		// All points are identical, so any other member is as good a center
+		*out_center2 = (cl->members[0] != *out_center1) ? cl->members[0] : cl->members[1];
+	}
+
 	return iscc_no_error();
 }
 
-- 
2.43.0


From 74a4fe78b2b86b98c5306320887fe2ad7a65b2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:51 +0000
Subject: [PATCH 03/19] fix: handle allocation failures in the exclusion seed
 methods

A failed allocation of the index array was reported but not returned, so freed
and NULL memory was written to; and the array leaked when the exclusion graph
could not be built.
---
 src/nng_findseeds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nng_findseeds.c b/src/nng_findseeds.c
index 45acca3..10ff499 100644
--- a/src/nng_findseeds.c
+++ b/src/nng_findseeds.c
@@ -320,7 +320,7 @@ static scc_ErrorCode iscc_findseeds_exclusion(const iscc_Digraph* const nng,
 	scc_PointIndex* tmp_index_not_excluded = malloc(sizeof(scc_PointIndex[nng->vertices]));
 	if (tmp_index_not_excluded == NULL) {
 		free(not_excluded);
-		iscc_make_error(SCC_ER_NO_MEMORY);
+		return iscc_make_error(SCC_ER_NO_MEMORY);
 	}
 	assert(nng->vertices <= ISCC_POINTINDEX_MAX);
 	const scc_PointIndex vertices_pi = (scc_PointIndex) nng->vertices; // If `scc_PointIndex` is signed
@@ -344,6 +344,7 @@ static scc_ErrorCode iscc_findseeds_exclusion(const iscc_Digraph* const nng,
 	iscc_Digraph exclusion_graph;
 	if ((ec = iscc_fs_exclusion_graph(nng, tmp_num_not_excluded, tmp_index_not_excluded, &exclusion_graph)) != SCC_ER_OK) {
 		free(not_excluded);
+		free(tmp_index_not_excluded);
 		return ec;
 	}
 
-- 
2.43.0


From aeddfd0567697820eb73ab3f9c43f5c043da68ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:08 +0000
Subject: [PATCH 04/19] fix: report allocation failure when assigning by the
 nng

The error code was returned as, and added to, the number of assigned points, so
the function went on with a wrong count and reported success.
---
 src/nng_core.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nng_core.c b/src/nng_core.c
index 358ce44..33b561c 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -482,7 +482,12 @@ scc_ErrorCode iscc_make_nng_clusters_from_seeds(scc_Clustering* const clustering
 	// (NNG already contains radius constraint.)
 	if ((unassigned_method == SCC_UM_ANY_NEIGHBOR) ||
 	        (nng_is_ordered && (unassigned_method == SCC_UM_CLOSEST_ASSIGNED))) {
-		total_assigned += iscc_assign_by_nng(clustering, nng);
+		const size_t num_assigned_by_nng = iscc_assign_by_nng(clustering, nng);
+		if (num_assigned_by_nng == SIZE_MAX) {
+			free(seed_or_neighbor);
+			return iscc_make_error(SCC_ER_NO_MEMORY);
+		}
+		total_assigned += num_assigned_by_nng;
 
 		// Ignore remaining points if SCC_UM_ANY_NEIGHBOR
 		if (unassigned_method == SCC_UM_ANY_NEIGHBOR) {
@@ -963,7 +968,7 @@ static size_t iscc_assign_by_nng(scc_Clustering* const clustering,
 	assert(!iscc_digraph_is_empty(nng));
 
 	bool* const scratch = malloc(sizeof(bool[clustering->num_data_points]));
-	if (scratch == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
+	if (scratch == NULL) return SIZE_MAX; // Never a valid number of assigned points
 	for (size_t i = 0; i < clustering->num_data_points; ++i) {
 		scratch[i] = (clustering->cluster_label[i] == SCC_CLABEL_NA);
 	}
-- 
2.43.0


From 561cb5cc19ad6e1e15231dcb1437a937e9180beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:08 +0000
Subject: [PATCH 05/19] fix: check allocation of the nearest neighbor output

The unchecked NULL pointer was passed to the search function.
---
 src/nng_core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index 33b561c..e96d9e5 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -1015,6 +1015,7 @@ static scc_ErrorCode iscc_assign_by_nn_search(scc_Clustering* const clustering,
 		out_ok_query = to_assign;
 	}
 	scc_PointIndex* const out_nn_indices = malloc(sizeof(scc_PointIndex[num_to_assign]));
+	if (out_nn_indices == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
 
 	if (!iscc_nearest_neighbor_search(nn_search_object,
 	                                  num_to_assign,
-- 
2.43.0


From 3102dd40f2f5840871acaee2d824ad2e0cccab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:08 +0000
Subject: [PATCH 06/19] fix: return the error code of the secondary assignment

A failed search for the secondary assignment was reported as success.
---
 src/nng_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nng_core.c b/src/nng_core.c
index e96d9e5..121b1fa 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -635,7 +635,7 @@ scc_ErrorCode iscc_make_nng_clusters_from_seeds(scc_Clustering* const clustering
 		iscc_close_nn_search_object(&nn_seed_search_object);
 	}
 
-	return iscc_no_error();
+	return ec;
 }
 
 
-- 
2.43.0


From c3e7e4e0bc3a64892403357f38a0bbf8e10da064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:08 +0000
Subject: [PATCH 07/19] fix: check allocation of the primary data point
 indicators

---
 src/nng_batch_clustering.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index d4644f6..31fd76a 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -141,6 +141,13 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	bool* tmp_primary_data_points = NULL;
 	if (primary_data_points != NULL) {
 		tmp_primary_data_points = calloc(clustering->num_data_points, sizeof(bool));
+		if (tmp_primary_data_points == NULL) {
+			free(batch_indices);
+			free(out_indices);
+			free(assigned);
+			iscc_close_nn_search_object(&nn_search_object);
+			return iscc_make_error(SCC_ER_NO_MEMORY);
+		}
 		for (size_t i = 0; i < len_primary_data_points; ++i) {
 			tmp_primary_data_points[primary_data_points[i]] = true;
 		}
-- 
2.43.0


From 43a0da57a8af2aabc430d0602f1cda6b967a1e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:08 +0000
Subject: [PATCH 08/19] fix: avoid overflow in the size of the batch search
 output

`size_constraint * batch_size` wrapped around in 32 bits, so the array was too
small for large batches with a large size constraint.
---
 src/nng_batch_clustering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index 31fd76a..901f658 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -115,7 +115,7 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	}
 
 	scc_PointIndex* const batch_indices = malloc(sizeof(scc_PointIndex[batch_size]));
-	scc_PointIndex* const out_indices = malloc(sizeof(scc_PointIndex[size_constraint * batch_size]));
+	scc_PointIndex* const out_indices = malloc(sizeof(scc_PointIndex[((size_t) size_constraint) * batch_size]));
 	bool* const assigned = calloc(clustering->num_data_points, sizeof(bool));
 	if ((batch_indices == NULL) || (out_indices == NULL) || (assigned == NULL)) {
 		free(batch_indices);
-- 
2.43.0


From 6aa00c3e0af9bb678c65f0420394f8bc4bc23973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:08 +0000
Subject: [PATCH 09/19] fix: reject NULL cluster options

---
 src/utilities.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utilities.c b/src/utilities.c
index b9d2028..21e6acc 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -330,6 +330,9 @@ scc_ErrorCode scc_get_clustering_stats(void* const data_set,
 scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options,
                                          const size_t num_data_points)
 {
+	if (options == NULL) {
+		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid cluster options.");
+	}
 	if (options->options_version != ISCC_OPTIONS_STRUCT_VERSION) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Incompatible scc_ClusterOptions version.");
 	}
-- 
2.43.0


From 8b8f2edc2a96274b76d2c218e211f6758b274c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:08 +0000
Subject: [PATCH 10/19] fix: reject primary data points outside the data set

They were used as indices without any check.
---
 src/utilities.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utilities.c b/src/utilities.c
index 21e6acc..a68bb17 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -388,6 +388,11 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 				return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "`primary_data_points` is not sorted.");
 			}
 		}
+		// Sorted, so it is enough to check the end points
+		if ((((uintmax_t) options->primary_data_points[0]) >= num_data_points) ||
+				(((uintmax_t) options->primary_data_points[options->len_primary_data_points - 1]) >= num_data_points)) {
+			return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid primary data points.");
+		}
 	}
 	if ((options->primary_data_points == NULL) && (options->len_primary_data_points > 0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid primary data points.");
-- 
2.43.0


From 881d7663d449b10e9dfa8302f458b939842b0df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:08 +0000
Subject: [PATCH 11/19] fix: reject type labels outside the range of types

They were used as indices without any check.
---
 src/utilities.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utilities.c b/src/utilities.c
index a68bb17..521fadc 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -369,6 +369,11 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 		if (options->type_labels == NULL) {
 			return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid type labels.");
 		}
+		for (size_t i = 0; i < num_data_points; ++i) {
+			if (((uintmax_t) options->type_labels[i]) >= options->num_types) {
+				return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid type labels.");
+			}
+		}
 	}
 
 	if ((options->seed_method != SCC_SM_LEXICAL) &&
-- 
2.43.0


From 5c6a2ffff66d0f2e51dae0d3d7a6aac73eb28c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:08 +0000
Subject: [PATCH 12/19] fix: reject NaN radii

---
 src/nng_batch_clustering.c | 2 +-
 src/utilities.c            | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index 901f658..23911a4 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -88,7 +88,7 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	if ((unassigned_method != SCC_UM_IGNORE) && (unassigned_method != SCC_UM_ANY_NEIGHBOR)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid unassigned method.");
 	}
-	if (radius_constraint && (radius <= 0.0)) {
+	if (radius_constraint && !(radius > 0.0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius.");
 	}
 	if ((primary_data_points != NULL) && (len_primary_data_points == 0)) {
diff --git a/src/utilities.c b/src/utilities.c
index 521fadc..3436f08 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -421,7 +421,7 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 			(options->seed_radius != SCC_RM_USE_SUPPLIED)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius method.");
 	}
-	if ((options->seed_radius == SCC_RM_USE_SUPPLIED) && (options->seed_supplied_radius <= 0.0)) {
+	if ((options->seed_radius == SCC_RM_USE_SUPPLIED) && !(options->seed_supplied_radius > 0.0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius.");
 	}
 	if ((options->primary_radius != SCC_RM_NO_RADIUS) &&
@@ -430,7 +430,7 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 			(options->primary_radius != SCC_RM_USE_ESTIMATED)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius method.");
 	}
-	if ((options->primary_radius == SCC_RM_USE_SUPPLIED) && (options->primary_supplied_radius <= 0.0)) {
+	if ((options->primary_radius == SCC_RM_USE_SUPPLIED) && !(options->primary_supplied_radius > 0.0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius.");
 	}
 	if ((options->secondary_radius != SCC_RM_NO_RADIUS) &&
@@ -439,7 +439,7 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 			(options->secondary_radius != SCC_RM_USE_ESTIMATED)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius method.");
 	}
-	if ((options->secondary_radius == SCC_RM_USE_SUPPLIED) && (options->secondary_supplied_radius <= 0.0)) {
+	if ((options->secondary_radius == SCC_RM_USE_SUPPLIED) && !(options->secondary_supplied_radius > 0.0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius.");
 	}
 
-- 
2.43.0


From 630f3dc8795f481e41d25b80ce849f98113efe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:08 +0000
Subject: [PATCH 13/19] fix: handle type constraints that all are zero

The union of zero digraphs was taken, with variable length arrays of length zero.
---
 src/nng_core.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index 121b1fa..a5c6d4b 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -250,6 +250,23 @@ scc_ErrorCode iscc_get_nng_with_type_constraint(void* const data_set,
 		return ec;
 	}
 
+	if (tc.sum_type_constraints == 0) {
+		// No type is constrained, i.e., only the size constraint is left
+		free(tc.type_group_size);
+		free(tc.point_store);
+		free(tc.type_groups);
+		free(seedable);
+		free(nng_by_type);
+		return iscc_get_nng_with_size_constraint(data_set,
+		                                         num_data_points,
+		                                         size_constraint,
+		                                         len_primary_data_points,
+		                                         primary_data_points,
+		                                         radius_constraint,
+		                                         radius,
+		                                         out_nng);
+	}
+
 	uint_fast16_t num_non_zero_type_constraints = 0;
 	for (uint_fast16_t i = 0; i < num_types; ++i) {
 		if (type_constraints[i] > 0) {
-- 
2.43.0


From ce4d650f9f825cb08f4faa435d344dda6420188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:08 +0000
Subject: [PATCH 14/19] fix: avoid overflow when checking the length of the
 data matrix

`num_data_points * num_dimensions` could wrap around and accept a too short matrix.
---
 src/data_set.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_set.c b/src/data_set.c
index 95d6191..5abe70f 100644
--- a/src/data_set.c
+++ b/src/data_set.c
@@ -63,7 +63,7 @@ scc_ErrorCode scc_init_data_set(const uint64_t num_data_points,
 	if (num_dimensions > UINT16_MAX) {
 		return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many data dimensions.");
 	}
-	if (len_data_matrix < num_data_points * num_dimensions) {
+	if ((len_data_matrix / num_dimensions) < num_data_points) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid data matrix.");
 	}
 	if (data_matrix == NULL) {
-- 
2.43.0


From 712e27ece174231335e86fe8bb29b44d62f91040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:08 +0000
Subject: [PATCH 15/19] fix: leave the clustering empty when the assignment of
 points fails

The clustering was left with clusters whose members partly were unassigned, and
the clustering call could not be repeated.
---
 src/nng_clustering.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nng_clustering.c b/src/nng_clustering.c
index 0dcabbf..28baf42 100644
--- a/src/nng_clustering.c
+++ b/src/nng_clustering.c
@@ -236,6 +236,10 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 	                                       (secondary_radius == SCC_RM_USE_SUPPLIED),
 	                                       secondary_supplied_radius);
 
+	if (ec != SCC_ER_OK) {
+		clustering->num_clusters = 0; // The labels are incomplete, so leave an empty clustering
+	}
+
 	free(seed_result.seeds);
 	return ec;
 }
-- 
2.43.0


From 757448bbe2dd6d4db107256e54f51ad270a1dce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:08 +0000
Subject: [PATCH 16/19] fix: restore the existing labels when hierarchical
 refinement fails

A failure left a mix of old and new labels, so clusters were merged or broken
that the caller still had labeled as before.
---
 src/hierarchical_clustering.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 9f54e29..1469d58 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -26,6 +26,7 @@
 #include <stddef.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
 #include "dist_search.h"
 #include "clustering_struct.h"
 #include "error.h"
@@ -201,6 +202,7 @@ scc_ErrorCode scc_hierarchical_clustering(void* const data_set,
 
 	scc_ErrorCode ec;
 	size_t size_largest_cluster = 0; // Initialize to avoid gcc warning
+	scc_Clabel* old_cluster_label = NULL; // Labels of an existing clustering, restored on failure
 	iscc_hi_ClusterStack cl_stack;
 	if (out_clustering->num_clusters == 0) {
 		if (out_clustering->cluster_label == NULL) {
@@ -214,7 +216,12 @@ scc_ErrorCode scc_hierarchical_clustering(void* const data_set,
 			return ec;
 		}
 	} else {
+		old_cluster_label = malloc(sizeof(scc_Clabel[out_clustering->num_data_points]));
+		if (old_cluster_label == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
+		memcpy(old_cluster_label, out_clustering->cluster_label, sizeof(scc_Clabel[out_clustering->num_data_points]));
+
 		if ((ec = iscc_hi_init_cl_stack(out_clustering, &cl_stack, &size_largest_cluster)) != SCC_ER_OK) {
+			free(old_cluster_label);
 			return ec;
 		}
 	}
@@ -249,6 +256,11 @@ scc_ErrorCode scc_hierarchical_clustering(void* const data_set,
 		                                         batch_assign);
 	}
 
+	if ((ec != SCC_ER_OK) && (old_cluster_label != NULL)) {
+		memcpy(out_clustering->cluster_label, old_cluster_label, sizeof(scc_Clabel[out_clustering->num_data_points]));
+	}
+
+	free(old_cluster_label);
 	free(work_area.pointindex_array1);
 	free(work_area.pointindex_array2);
 	free(work_area.dist_array);
-- 
2.43.0


From 9ca1cb3b74606aa07b9de80dcf5a2f1049d4b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:08 +0000
Subject: [PATCH 17/19] fix: respect the primary radius with
 SCC_UM_CLOSEST_ASSIGNED

Points were assigned through the nng, which contains the seed radius only, even
when a smaller primary radius was given.
---
 src/nng_clustering.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nng_clustering.c b/src/nng_clustering.c
index 28baf42..bca3744 100644
--- a/src/nng_clustering.c
+++ b/src/nng_clustering.c
@@ -222,11 +222,17 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 		}
 	}
 
+	// The nng contains only the seed radius, so it can stand in for a search for the
+	// closest assigned point only if the primary radius isn't stricter
+	const bool nng_is_ordered = (options->num_types < 2) &&
+	        ((primary_radius == SCC_RM_NO_RADIUS) ||
+	         ((options->seed_radius == SCC_RM_USE_SUPPLIED) && (options->seed_supplied_radius <= primary_supplied_radius)));
+
 	ec = iscc_make_nng_clusters_from_seeds(clustering,
 	                                       data_set,
 	                                       &seed_result,
 	                                       nng,
-	                                       (options->num_types < 2),
+	                                       nng_is_ordered,
 	                                       options->primary_unassigned_method,
 	                                       (primary_radius == SCC_RM_USE_SUPPLIED),
 	                                       primary_supplied_radius,
-- 
2.43.0


From 93b819d3d39390b0e8f96ab5ed8455e5deb2eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:30 +0000
Subject: [PATCH 18/19] fix: avoid zero-sized distance array when all clusters
 are singletons

The bound of the variable length array type was zero, and with a `malloc` that
returns NULL for size zero the statistics failed with SCC_ER_NO_MEMORY.
---
 src/utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities.c b/src/utilities.c
index 3436f08..36ffa1c 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -236,7 +236,7 @@ scc_ErrorCode scc_get_clustering_stats(void* const data_set,
 		return iscc_no_error();
 	}
 
-	const size_t largest_dist_matrix = (tmp_stats.max_cluster_size * (tmp_stats.max_cluster_size - 1)) / 2;
+	const size_t largest_dist_matrix = (tmp_stats.max_cluster_size > 1) ? ((tmp_stats.max_cluster_size * (tmp_stats.max_cluster_size - 1)) / 2) : 1; // At least one so the array never is of zero size
 	scc_PointIndex* const id_store = malloc(sizeof(scc_PointIndex[tmp_stats.num_assigned]));
 	scc_PointIndex** const cl_members = malloc(sizeof(scc_PointIndex*[clustering->num_clusters]));
 	double* const dist_scratch = malloc(sizeof(double[largest_dist_matrix]));
-- 
2.43.0


From 849af538bdf7c2ca8dd858b00a59d26ffd7b3e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:57 +0000
Subject: [PATCH 19/19] fix: allow an adjacency product without arcs

The output has no arc storage then, so the assertion failed although the product
is well defined; `iscc_do_union_and_delete` has the same (corrected) assertion.
---
 src/digraph_operations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/digraph_operations.c b/src/digraph_operations.c
index b19e27e..bb30d88 100644
--- a/src/digraph_operations.c
+++ b/src/digraph_operations.c
@@ -469,7 +469,6 @@ static inline uintmax_t iscc_do_adjacency_product(const iscc_Digraph* const dg_a
 
 	} else if (write) {
 		assert(out_tail_ptr != NULL);
-		assert(out_head != NULL);
 
 		out_tail_ptr[0] = 0;
 		for (scc_PointIndex v = 0; v < vertices; ++v) {
@@ -499,6 +498,7 @@ static inline uintmax_t iscc_do_adjacency_product(const iscc_Digraph* const dg_a
 				}
 			}
 			out_tail_ptr[v + 1] = (iscc_ArcIndex) counter;
+			assert((counter == 0) || (out_head != NULL));
 		}
 	}
 
-- 
2.43.0

