From 1b59edf6581436a1034a72ad86a71d3291fb12de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 001/119] fix: determinise: do not exceed the state limit by
 one

---
 src/libfsm/determinise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index 3f748ae..a568c3c 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -163,7 +163,7 @@ fsm_determinise_with_config(struct fsm *nfa,
 			} else {
 				/* not found -- add a new one and push it to the stack for processing */
 
-				if (state_limit != 0 && dfacount > state_limit) {
+				if (state_limit != 0 && dfacount >= state_limit) {
 					res = FSM_DETERMINISE_WITH_CONFIG_STATE_LIMIT_REACHED;
 					goto cleanup;
 				}
-- 
2.43.0


From 87d01373d2a6ff4c0931ff76835150f823b29d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 002/119] fix: edgeset: always initialise the label set when
 checking edges against ECs

fsm_minimise compares the label sets of states which have no transition
on the label. For states with no edges at all the sets were left
uninitialised, so equivalent end states could be kept apart.
---
 src/adt/edgeset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 178ddbc..760c9a7 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -430,6 +430,8 @@ edge_set_check_edges_with_EC_mapping(const struct edge_set *set,
 {
 	size_t i;
 
+	memset(labels, 0x00, (256/64)*sizeof(labels[0]));
+
 	if (set == NULL) {
 		return 0;
 	}
@@ -439,8 +441,6 @@ edge_set_check_edges_with_EC_mapping(const struct edge_set *set,
 	    label, (void *)set);
 #endif
 
-	memset(labels, 0x00, (256/64)*sizeof(labels[0]));
-
 	/* Find the state the label leads to, if any. */
 	const size_t offset = label/64;
 	const uint64_t bit = (uint64_t)1 << (label & 63);
-- 
2.43.0


From 8158b4257e15ad3a22782245dc423d6eee9608e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 003/119] fix: minimise: collect metadata for every state in an
 equivalence class

Stopping at the first state with neither an end nor eager outputs left
the rest of its class without metadata, so states with different eager
outputs were merged.
---
 src/libfsm/minimise.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/minimise.c b/src/libfsm/minimise.c
index a2ff1b8..eb44e2f 100644
--- a/src/libfsm/minimise.c
+++ b/src/libfsm/minimise.c
@@ -778,7 +778,8 @@ split_ecs_by_end_metadata(struct min_env *env, const struct fsm *fsm)
 			const bool has_eager_outputs = fsm_eager_output_state_has_eager_output(fsm, s);
 
 			if (!is_end && !has_eager_outputs) {
-				break; /* skip */
+				s = env->jump[s];
+				continue; /* skip */
 			}
 
 			if (!collect_end_ids(fsm, s, &e->end)) {
-- 
2.43.0


From cfa2ca5cd65b72ee14f59bf27c96bb38dc832346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 004/119] fix: union_array: shift earlier bases whenever the
 first operand's states move

The bases of operands combined so far were only shifted when the other
operand had captures, so for machines without captures bases[] pointed
at the wrong states after a larger machine was merged in.
---
 src/libfsm/union.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 4b07ca6..defd8e9 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -194,7 +194,7 @@ fsm_union_array(size_t fsm_count,
 		/* If the first argument didn't get its states put first
 		 * in the union, then shift the bases for everything
 		 * that has been combined into it so far. */
-		if (ci.capture_base_a > 0) {
+		if (ci.base_a > 0) {
 			size_t shift_i;
 			for (shift_i = 0; shift_i < i; shift_i++) {
 				bases[shift_i].state += ci.base_a;
-- 
2.43.0


From f5c060a2e68749e9d06d9a5fe4f620725a02d3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 005/119] fix: concat: only the second operand's end states
 accept

fsm_collate() leaves the original end states as end states. With more
than one, the concatenation accepted strings of the first operand alone.
---
 src/libfsm/concat.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/concat.c b/src/libfsm/concat.c
index 9f87802..897dcd6 100644
--- a/src/libfsm/concat.c
+++ b/src/libfsm/concat.c
@@ -54,7 +54,17 @@ fsm_concat(struct fsm *a, struct fsm *b,
 		return NULL;
 	}
 
-	fsm_setend(a, ea, 1);
+	/*
+	 * Collating leaves the original end states as they were. From here
+	 * on, only the end states of b are accepting.
+	 */
+	{
+		fsm_state_t i;
+
+		for (i = 0; i < a->statecount; i++) {
+			fsm_setend(a, i, 0);
+		}
+	}
 
 	q = fsm_merge(a, b, combine_info);
 	assert(q != NULL);
@@ -63,8 +73,6 @@ fsm_concat(struct fsm *a, struct fsm *b,
 	ea += combine_info->base_a;
 	sb += combine_info->base_b;
 
-	fsm_setend(q, ea, 0);
-
 	/*
 	 * The textbook approach is to create epsilon transition(s) from the end
 	 * state of one FSM to the start state of the next FSM.
-- 
2.43.0


From 7bd9019367585396c830dd2d8eaba76766a65a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 006/119] fix: epsilons: do not revive stale end ids

A state which is no longer an end state (after concatenation or reversal)
may still have end ids recorded. These came back when epsilon removal made
the state an end state again because of some other state.
---
 src/libfsm/endids.c   |  8 ++++++++
 src/libfsm/epsilons.c | 10 ++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/libfsm/endids.c b/src/libfsm/endids.c
index 6d8e885..ede0322 100644
--- a/src/libfsm/endids.c
+++ b/src/libfsm/endids.c
@@ -497,6 +497,14 @@ fsm_endid_set_bulk(struct fsm *fsm,
 		return 0;
 	}
 
+	if (num_ids == 0) {
+		if (b->state == state && op == FSM_ENDID_BULK_REPLACE) {
+			b->ids->count = 0;
+		}
+
+		return 1;
+	}
+
 	if (b->state == state) {
 		size_t prev_count;
 		size_t total_count;
diff --git a/src/libfsm/epsilons.c b/src/libfsm/epsilons.c
index 926e6d9..e22852b 100644
--- a/src/libfsm/epsilons.c
+++ b/src/libfsm/epsilons.c
@@ -207,6 +207,16 @@ fsm_remove_epsilons(struct fsm *nfa)
 #if LOG_COPYING
 				fprintf(stderr, "remove_epsilons: setting end on %d (due to %d)\n", s, es_id);
 #endif
+				/*
+				 * Any end IDs left over from when this was previously
+				 * an end state (e.g. prior to concatenation) are stale.
+				 */
+				if (!fsm_isend(nfa, s) && fsm_endid_count(nfa, s) > 0) {
+					if (!fsm_endid_set_bulk(nfa, s, 0, NULL, FSM_ENDID_BULK_REPLACE)) {
+						goto cleanup;
+					}
+				}
+
 				fsm_setend(nfa, s, 1);
 
 				/*
-- 
2.43.0


From cce11392b9065f4eee6e0381d127fe803f8bb036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 007/119] fix: concat: free an operand with no states, and set
 the combine info

As for union, the operands are consumed and combine_info is always set.
---
 src/libfsm/concat.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/concat.c b/src/libfsm/concat.c
index 897dcd6..5be5487 100644
--- a/src/libfsm/concat.c
+++ b/src/libfsm/concat.c
@@ -6,6 +6,7 @@
 
 #include <assert.h>
 #include <stddef.h>
+#include <string.h>
 #include <limits.h>
 #include <errno.h>
 
@@ -29,6 +30,8 @@ fsm_concat(struct fsm *a, struct fsm *b,
 		combine_info = &combine_info_internal;
 	}
 
+	memset(combine_info, 0x00, sizeof(*combine_info));
+
 	assert(a != NULL);
 	assert(b != NULL);
 
@@ -37,8 +40,8 @@ fsm_concat(struct fsm *a, struct fsm *b,
 		return NULL;
 	}
 
-	if (a->statecount == 0) { return b; }
-	if (b->statecount == 0) { return a; }
+	if (a->statecount == 0) { fsm_free(a); return b; }
+	if (b->statecount == 0) { fsm_free(b); return a; }
 
 	if (!fsm_has(a, fsm_isend)) {
 		errno = EINVAL;
-- 
2.43.0


From aa1680e980009163fd250af0673bd83d353abcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 008/119] fix: stateset: keep the set sorted in
 state_set_replace

Lookups bisect the array, so replacing a member in place could hide it
(or its neighbours) from later operations.
---
 src/adt/stateset.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index c2cc8b8..8ef70ca 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -662,9 +662,25 @@ state_set_replace(struct state_set **setp, fsm_state_t old, fsm_state_t new)
 		return;
 	}
 
-	for (i = 0; i < set->i; i++) {
-		if (set->a[i] == old) {
-			set->a[i] = new;
-		}
+	if (old == new || !state_set_contains(set, old)) {
+		return;
+	}
+
+	if (state_set_contains(set, new)) {
+		state_set_remove(setp, old);
+		return;
 	}
+
+	for (i = 0; set->a[i] != old; i++)
+		;
+
+	/* keep the array sorted */
+	for ( ; i > 0 && set->a[i - 1] > new; i--) {
+		set->a[i] = set->a[i - 1];
+	}
+	for ( ; i + 1 < set->i && set->a[i + 1] < new; i++) {
+		set->a[i] = set->a[i + 1];
+	}
+
+	set->a[i] = new;
 }
-- 
2.43.0


From 237371c0dc3b61940abe721fd0b430470c8e6612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 009/119] fix: endids, eager_output: account for states dropped
 by compaction

The ids of a removed state were leaked, and the bucket count was left too
high, which trips an assertion when the end id table next grows.
---
 src/libfsm/eager_output.c | 1 +
 src/libfsm/endids.c       | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/eager_output.c b/src/libfsm/eager_output.c
index a6dcdc8..adb31e3 100644
--- a/src/libfsm/eager_output.c
+++ b/src/libfsm/eager_output.c
@@ -410,6 +410,7 @@ fsm_eager_output_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_c
 		const fsm_state_t nstate = mapping[ob->state];
 		if (nstate == FSM_STATE_REMAP_NO_STATE) {
 			f_free(fsm->alloc, ob->entry);
+			eoi->htab.buckets_used--;
 			continue;
 		}
 
diff --git a/src/libfsm/endids.c b/src/libfsm/endids.c
index ede0322..f537a97 100644
--- a/src/libfsm/endids.c
+++ b/src/libfsm/endids.c
@@ -1076,7 +1076,11 @@ fsm_endid_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count)
 
 		assert(ob->state < mapping_count);
 		const fsm_state_t nstate = mapping[ob->state];
-		if (nstate == FSM_STATE_REMAP_NO_STATE) { continue; }
+		if (nstate == FSM_STATE_REMAP_NO_STATE) {
+			f_free(fsm->alloc, ob->ids);
+			ei->buckets_used--;
+			continue;
+		}
 
 		const uint64_t hash = hash_id(nstate);
 
-- 
2.43.0


From b2dc7a4c8a2274cc19701b35c6c530d9bf0b8376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 010/119] fix: removestate: keep start, end ids and eager
 outputs with their states

---
 src/libfsm/state.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 786bc3a..36afe63 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -119,10 +119,32 @@ int
 fsm_removestate(struct fsm *fsm, fsm_state_t state)
 {
 	fsm_state_t start, i;
+	fsm_state_t *mapping;
 
 	assert(fsm != NULL);
 	assert(state < fsm->statecount);
 
+	/* metadata for the removed state and the rehoused state */
+	mapping = f_malloc(fsm->alloc, fsm->statecount * sizeof *mapping);
+	if (mapping == NULL) {
+		return 0;
+	}
+
+	for (i = 0; i < fsm->statecount; i++) {
+		mapping[i] = i;
+	}
+	mapping[fsm->statecount - 1] = state;
+	mapping[state] = FSM_STATE_REMAP_NO_STATE;
+
+	if (!fsm_endid_compact(fsm, mapping, fsm->statecount)
+	 || !fsm_eager_output_compact(fsm, mapping, fsm->statecount))
+	{
+		f_free(fsm->alloc, mapping);
+		return 0;
+	}
+
+	f_free(fsm->alloc, mapping);
+
 	/* for endcount accounting */
 	fsm_setend(fsm, state, 0);
 
@@ -136,8 +158,12 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 	state_set_free(fsm->states[state].epsilons);
 	edge_set_free(fsm->alloc, fsm->states[state].edges);
 
-	if (fsm_getstart(fsm, &start) && start == state) {
-		fsm_clearstart(fsm);
+	if (fsm_getstart(fsm, &start)) {
+		if (start == state) {
+			fsm_clearstart(fsm);
+		} else if (start == fsm->statecount - 1) {
+			fsm_setstart(fsm, state);
+		}
 	}
 
 	assert(fsm->statecount >= 1);
-- 
2.43.0


From bf787289271617523c7681d50664a622908d4873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 011/119] fix: edgeset: do not read past the end when removing
 a group

---
 src/adt/edgeset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 760c9a7..054ebc2 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -803,7 +803,7 @@ edge_set_remove_state(struct edge_set **pset, fsm_state_t state)
 	while (i < set->count) {
 		const struct edge_group *eg = &set->groups[i];
 		if (eg->to == state) {
-			const size_t to_mv = set->count - i;
+			const size_t to_mv = set->count - i - 1;
 			memmove(&set->groups[i],
 			    &set->groups[i + 1],
 			    to_mv * sizeof(*eg));
@@ -1086,7 +1086,7 @@ edge_set_replace_state(struct edge_set **pset, const struct fsm_alloc *alloc,
 	for (i = 0; i < set->count; i++) {
 		struct edge_group *eg = &set->groups[i];
 		if (eg->to == old) {
-			const size_t to_mv = set->count - i;
+			const size_t to_mv = set->count - i - 1;
 			unsigned char label;
 			if (!find_first_group_label(eg, &label)) {
 				return 1; /* ignore empty group */
-- 
2.43.0


From 61214dc15259ff0c322083a773efe1e07214f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 012/119] fix: trim: nothing is removed from an fsm with no
 states

---
 src/libfsm/trim.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/trim.c b/src/libfsm/trim.c
index c37965f..9f8270e 100644
--- a/src/libfsm/trim.c
+++ b/src/libfsm/trim.c
@@ -506,7 +506,10 @@ fsm_trim(struct fsm *fsm, enum fsm_trim_mode mode,
 	assert(fsm != NULL);
 
 	if (fsm->statecount == 0) {
-		return 1;
+		if (shortest_end_distance != NULL) {
+			*shortest_end_distance = NULL;
+		}
+		return 0;
 	}
 
 	if (shortest_end_distance != NULL
-- 
2.43.0


From 0b7aa494cd5c753ff026bea8b00764fd2af23f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 013/119] fix: edgeset: copying an empty set into an existing
 one is a no-op

---
 src/adt/edgeset.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 054ebc2..52b92b8 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -708,17 +708,16 @@ edge_set_copy(struct edge_set **dst, const struct fsm_alloc *alloc,
 	    (void *)src, (void *)*dst);
 #endif
 
+	if (edge_set_empty(src)) {
+		return 1;
+	}
+
 	if (*dst != NULL) {
 		/* The other `edge_set_copy` copies in the
 		 * edges from src if *dst already exists. */
 		return edge_set_copy_into(dst, alloc, src);
 	}
 
-	if (edge_set_empty(src)) {
-		*dst = NULL;
-		return 1;
-	}
-
 	set = f_malloc(alloc, sizeof(*set));
 	if (set == NULL) {
 		return 0;
-- 
2.43.0


From 6407c158060aac2fd38009029a34614ab29ec908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 014/119] fix: stateset: keep the set sorted and unique when
 compacting

---
 src/adt/stateset.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index 8ef70ca..90a1fae 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -420,7 +420,6 @@ state_set_compact(struct state_set **setp,
 		if (new_id == FSM_STATE_REMAP_NO_STATE) {
 			*setp = NULL;
 		} else {
-			assert(new_id <= s);
 			*setp = SINGLETON_ENCODE(new_id);
 		}
 		return;
@@ -453,6 +452,19 @@ state_set_compact(struct state_set **setp,
 	set->i -= removed;
 	assert(set->i == dst);
 
+	/* remap() need not preserve order, or be injective */
+	if (set->i > 1) {
+		qsort(&set->a[0], set->i, sizeof set->a[0], state_set_cmpptr);
+
+		for (i = 1, dst = 1; i < set->i; i++) {
+			if (set->a[i] != set->a[dst - 1]) {
+				set->a[dst] = set->a[i];
+				dst++;
+			}
+		}
+		set->i = dst;
+	}
+
 #if LOG_COMPACT
 	for (i = 0; i < set->i; i++) {
 		fprintf(stderr, "state_set_compact: now set->a[%zu/%zu]: %d\n", i, set->i, set->a[i]);
-- 
2.43.0


From fc3dbb59bf7d9d8461ef5ead0a6dd2946b3f44db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 015/119] fix: mergestates: keep end, start, end ids and eager
 outputs

---
 src/libfsm/mergestates.c | 81 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 72 insertions(+), 9 deletions(-)

diff --git a/src/libfsm/mergestates.c b/src/libfsm/mergestates.c
index 77d5e2f..9d0bf63 100644
--- a/src/libfsm/mergestates.c
+++ b/src/libfsm/mergestates.c
@@ -9,6 +9,7 @@
 
 #include <fsm/fsm.h>
 
+#include <adt/alloc.h>
 #include <adt/set.h>
 #include <adt/stateset.h>
 #include <adt/edgeset.h>
@@ -19,14 +20,20 @@ int
 fsm_mergestates(struct fsm *fsm, fsm_state_t a, fsm_state_t b,
 	fsm_state_t *q)
 {
-	struct fsm_edge e;
-	struct edge_iter it;
-	fsm_state_t i;
+	fsm_state_t i, start;
+	size_t n;
 
 	assert(fsm != NULL);
 	assert(a < fsm->statecount);
 	assert(b < fsm->statecount);
 
+	if (a == b) {
+		if (q != NULL) {
+			*q = a;
+		}
+		return 1;
+	}
+
 	/* edges from b */
 	if (!state_set_copy(&fsm->states[a].epsilons, fsm->alloc, fsm->states[b].epsilons)) {
 		return 0;
@@ -45,27 +52,83 @@ fsm_mergestates(struct fsm *fsm, fsm_state_t a, fsm_state_t b,
 			}
 		}
 
-		for (edge_set_reset(fsm->states[i].edges, &it); edge_set_next(&it, &e); ) {
-			if (e.state != b) {
-				continue;
+		if (!edge_set_replace_state(&fsm->states[i].edges, fsm->alloc, b, a)) {
+			return 0;
+		}
+	}
+
+	/* end state and end ids from b */
+	if (fsm_isend(fsm, b)) {
+		fsm_setend(fsm, a, 1);
+
+		n = fsm_endid_count(fsm, b);
+		if (n > 0) {
+			fsm_end_id_t *ids;
+			size_t j;
+
+			ids = f_malloc(fsm->alloc, n * sizeof *ids);
+			if (ids == NULL) {
+				return 0;
 			}
 
-			if (!fsm_addedge_literal(fsm, i, a, e.symbol)) {
+			if (!fsm_endid_get(fsm, b, n, ids)) {
+				f_free(fsm->alloc, ids);
 				return 0;
 			}
+
+			for (j = 0; j < n; j++) {
+				if (!fsm_endid_set(fsm, a, ids[j])) {
+					f_free(fsm->alloc, ids);
+					return 0;
+				}
+			}
+
+			f_free(fsm->alloc, ids);
 		}
+	}
+
+	/* eager outputs from b */
+	n = fsm_eager_output_count(fsm, b);
+	if (n > 0) {
+		fsm_output_id_t *ids;
+		size_t j;
 
-		edge_set_remove_state(&fsm->states[i].edges, b);
+		ids = f_malloc(fsm->alloc, n * sizeof *ids);
+		if (ids == NULL) {
+			return 0;
+		}
+
+		if (!fsm_eager_output_get(fsm, b, n, ids)) {
+			f_free(fsm->alloc, ids);
+			return 0;
+		}
+
+		for (j = 0; j < n; j++) {
+			if (!fsm_eager_output_set(fsm, a, ids[j])) {
+				f_free(fsm->alloc, ids);
+				return 0;
+			}
+		}
+
+		f_free(fsm->alloc, ids);
+	}
+
+	if (fsm_getstart(fsm, &start) && start == b) {
+		fsm_setstart(fsm, a);
 	}
 
 	if (!fsm_removestate(fsm, b)) {
 		return 0;
 	}
 
+	/* fsm_removestate() rehouses the last state in place of b */
+	if (a == fsm->statecount) {
+		a = b;
+	}
+
 	if (q != NULL) {
 		*q = a;
 	}
 
 	return 1;
 }
-
-- 
2.43.0


From 8182e303c0f4327792035311f9370a40f1dd977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:43 +0000
Subject: [PATCH 016/119] fix: union_repeated_pattern_group: link global starts
 to eager_match_state

The edges copied into anchored_firsts and repeatable_firsts still led to the
group's own unanchored_end_loop, so a match on the first character (such as
/^a/) was never reported.
---
 src/libfsm/union.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index defd8e9..0e10353 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -580,6 +580,19 @@ modify_group_nfa(struct fsm *nfa, size_t id, struct analysis_info *ainfo, size_t
 			}
 		}
 
+		/* The edges collected for linking to the global start states
+		 * were copied earlier, so they need the same replacement. */
+		if (ainfo->unanchored_end_loop != NO_STATE) {
+			if (!edge_set_replace_state(&ainfo->anchored_firsts, nfa->alloc,
+				ainfo->unanchored_end_loop, ainfo->eager_match_state)) {
+				return false;
+			}
+			if (!edge_set_replace_state(&ainfo->repeatable_firsts, nfa->alloc,
+				ainfo->unanchored_end_loop, ainfo->eager_match_state)) {
+				return false;
+			}
+		}
+
 		state_set_reset(ainfo->needs_indirect_epsilon_edge_to_eager_match_state, &si);
 		fsm_state_t intermediate_i;
 		while (state_set_next(&si, &intermediate_i)) {
-- 
2.43.0


From 63e4dff9afb08ccdc081ddb8da67e24534614a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:43 +0000
Subject: [PATCH 017/119] fix: union_repeated_pattern_group: shift earlier
 bases when merging

fsm_merge may place the states merged so far second, in which case the bases
recorded for earlier NFAs need to be shifted.
---
 src/libfsm/union.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 0e10353..926651d 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -814,6 +814,13 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 		rebase_analysis_info(ainfo, combine_info.base_b);
 
 		if (bases != NULL) {
+			/* If the states merged so far were shifted forward,
+			 * then shift the bases for those NFAs to match. */
+			for (size_t shift_i = 0; shift_i < nfa_i; shift_i++) {
+				bases[shift_i].state += combine_info.base_a;
+				bases[shift_i].capture += combine_info.capture_base_a;
+			}
+
 			bases[nfa_i].state = combine_info.base_b;
 			bases[nfa_i].capture = combine_info.capture_base_b;
 		}
-- 
2.43.0


From 4db64c9b370d7056399a7a22b0bd5d5b5ce0df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 018/119] fix: union_repeated_pattern_group: distinguish
 anchored empty matches

A group matching the empty string only at an anchored end, but which also has
an unanchored end (such as /a|^$/), was reported for all inputs. Conversely the
anchored end was never linked when there was an eager match state.
---
 src/libfsm/union.c | 76 +++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 926651d..0307f68 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -37,7 +37,13 @@
 
 /* State/edge info gathered about an NFA. Used by fsm_union_repeated_pattern_group. */
 struct analysis_info {
-	bool nullable;          /* Does the NFA match the empty string? */
+	/* Does the NFA match the empty string with an unanchored end? */
+	bool nullable;
+
+	/* An anchored end in the start state's epsilon closure (for example
+	 * for /^$/, or the second alternative of /a|^$/), or NO_STATE. */
+	fsm_state_t nullable_anchored_end;
+
 	fsm_state_t start;	/* start state */
 
 	/* The states with a /./ self edge representing the unanchored
@@ -288,20 +294,6 @@ state_has_labeled_edge_to_eclosure_with_unanchored_end_loop(const struct fsm *nf
 	return false;
 }
 
-static bool
-start_state_epsilon_closure_matches_empty_string(const struct fsm *nfa, const struct state_set *eclosure)
-{
-	struct state_iter si;
-	state_set_reset(eclosure, &si);
-
-	fsm_state_t s_i;
-	while (state_set_next(&si, &s_i)) {
-		if (fsm_isend(nfa, s_i)) { return true; }
-	}
-
-	return false;
-}
-
 static const struct fsm_options dump_nfa_opt = {
 	.io = FSM_IO_STR,
 	.ambig = AMBIG_MULTIPLE,
@@ -322,6 +314,8 @@ analyze_group_nfa(const struct fsm *nfa, struct analysis_info *ainfo)
 
 	ainfo->start = NO_STATE;
 	ainfo->eager_match_state = NO_STATE;
+	ainfo->nullable = false;
+	ainfo->nullable_anchored_end = NO_STATE;
 
 	if (!fsm_getstart(nfa, &ainfo->start)) {
 		return false;
@@ -421,8 +415,24 @@ analyze_group_nfa(const struct fsm *nfa, struct analysis_info *ainfo)
 
 	/* If the start state always matches, set a flag noting that it will need special handling
 	 * later. It's arguably pointless to combine "" with other regexes, because it will always
-	 * trivially match, but otherwise it would never match. */
-	ainfo->nullable = start_state_epsilon_closure_matches_empty_string(nfa, eclosures[ainfo->start]);
+	 * trivially match, but otherwise it would never match.
+	 *
+	 * Matching the empty string at an anchored end is different, because that only matches
+	 * when there is no more input, so that is noted separately. One regex can do both. */
+	{
+		struct state_iter si_start;
+		fsm_state_t cs_i;
+		state_set_reset(eclosures[ainfo->start], &si_start);
+		while (state_set_next(&si_start, &cs_i)) {
+			if (cs_i == ainfo->unanchored_end_loop) {
+				ainfo->nullable = true;
+			}
+			if (fsm_isend(nfa, cs_i)
+			    && state_set_contains(ainfo->anchored_ends, cs_i)) {
+				ainfo->nullable_anchored_end = cs_i;
+			}
+		}
+	}
 
 	/* Collect states that lead to an anchored end or eager match. */
 	for (size_t s_i = 0; s_i < state_count; s_i++) {
@@ -662,6 +672,7 @@ rebase_analysis_info(struct analysis_info *ainfo, fsm_state_t base)
 	SHIFT(unanchored_end_loop);
 	SHIFT(unanchored_end_loop_end);
 	SHIFT(eager_match_state);
+	SHIFT(nullable_anchored_end);
 #undef SHIFT
 
 	state_set_rebase(&ainfo->anchored_ends, base);
@@ -855,28 +866,17 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 					    global_start, ainfo->eager_match_state);
 				}
 			}
-		} else {
-			/* If the NFA matches an end-anchored empty string, then add an epsilon edge from
-			 * the global start to an anchored end, which has an endid. */
-			if (ainfo->nullable && !state_set_empty(ainfo->anchored_ends)) {
-				struct state_iter si;
-				state_set_reset(ainfo->anchored_ends, &si);
-				fsm_state_t anchored_end_state;
-
-				while (state_set_next(&si, &anchored_end_state)) {
-					if (!fsm_addedge_epsilon(merged, global_start, anchored_end_state)) {
-						goto fail;
-					}
-					if (log) {
-						fprintf(stderr, "nullable & anchored ends: global_start %d -> anchored_end_state %d\n",
-						    global_start, anchored_end_state);
-					}
+		}
 
-					/* It should only be necessary to link one, since that's enough
-					 * for determinisation to carry the end id back to the start's
-					 * epsilon closure. */
-					break;
-				}
+		/* If the NFA matches an end-anchored empty string, then add an epsilon edge from
+		 * the global start to that anchored end, which has an endid. */
+		if (ainfo->nullable_anchored_end != NO_STATE) {
+			if (!fsm_addedge_epsilon(merged, global_start, ainfo->nullable_anchored_end)) {
+				goto fail;
+			}
+			if (log) {
+				fprintf(stderr, "nullable & anchored end: global_start %d -> anchored_end_state %d\n",
+				    global_start, ainfo->nullable_anchored_end);
 			}
 		}
 
-- 
2.43.0


From 47a1635caf78adec7f9f3a98b883f35f47675df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:10 +0000
Subject: [PATCH 019/119] fix: fsm_generate_matches: find the start state after
 trimming

Trimming can renumber the start state, or remove it altogether when no end
state is reachable.
---
 src/libfsm/gen.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libfsm/gen.c b/src/libfsm/gen.c
index 8b85514..965a293 100644
--- a/src/libfsm/gen.c
+++ b/src/libfsm/gen.c
@@ -323,6 +323,13 @@ gen_init(struct gen_ctx *ctx, struct fsm *fsm)
 		ctx->state_counts[i] = NO_COUNT;
 	}
 
+	/* Trimming may have renumbered the start state, or removed it
+	 * when no end state is reachable, and then nothing matches. */
+	if (!fsm_getstart(ctx->fsm, &start)) {
+		ctx->done = true;
+		return true;
+	}
+
 	if (!enter_state(ctx, start)) {
 		return false;
 	}
-- 
2.43.0


From 5ac4f102d2660e7be3973590fed19c57c7ded3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 020/119] fix: fsm_shortest: use the given start state, and
 never return an unreachable goal

The start argument was ignored, and when the goal is the first unreachable
state considered, the path returned consisted of it.
---
 src/libfsm/shortest.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index 45a441a..ee937d8 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -6,7 +6,6 @@
 
 #include <assert.h>
 #include <stddef.h>
-#include <errno.h>
 
 #include <fsm/fsm.h>
 #include <fsm/cost.h>
@@ -37,8 +36,6 @@ fsm_shortest(const struct fsm *fsm,
 	assert(goal < fsm->statecount);
 	assert(cost != NULL);
 
-	(void)start; /* unused */
-
 	/*
 	 * We find a least-cost ("shortest") path by Dijkstra's algorithm.
 	 *
@@ -64,16 +61,11 @@ fsm_shortest(const struct fsm *fsm,
 	path = NULL;
 
 	{
-		fsm_state_t qs, i;
-
-		if (!fsm_getstart(fsm, &qs)) {
-			errno = EINVAL;
-			goto error;
-		}
+		fsm_state_t i;
 
 		for (i = 0; i < fsm->statecount; i++) {
 			u = priq_push(fsm->alloc, &todo, i,
-				i == qs ? 0 : FSM_COST_INFINITY);
+				i == start ? 0 : FSM_COST_INFINITY);
 			if (u == NULL) {
 				goto error;
 			}
@@ -82,7 +74,7 @@ fsm_shortest(const struct fsm *fsm,
 			 * It's non-sensical to describe the start state as being reached
 			 * by a symbol; this field is not used.
 			 */
-			if (i == qs) {
+			if (i == start) {
 				u->c = '\0';
 			}
 		}
@@ -167,11 +159,13 @@ none:
 	 * This is slightly ugly: the idea is to return something non-NULL here;
 	 * so that the caller may distinguish this case from error.
 	 *
-	 * The state u is used just because it may never be the goal state,
-	 * (otherwise we would have been able to reach it).
+	 * The start state is used because it can't be the goal state here,
+	 * (otherwise we would have reached it).
 	 */
 
-	if (!path_push(fsm->alloc, &path, u->state, u->c)) {
+	assert(start != goal);
+
+	if (!path_push(fsm->alloc, &path, start, '\0')) {
 		goto error;
 	}
 
-- 
2.43.0


From 72775034d244e1145072e415843ab743d20f37e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 021/119] fix: fsm_shortest: consider every label between two
 states

Only the first label of each group was given to the cost function, so the path
wasn't the least-cost one when a later label is cheaper.
---
 src/libfsm/shortest.c | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index ee937d8..59ab026 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -99,7 +99,7 @@ fsm_shortest(const struct fsm *fsm,
 		while (edge_set_group_iter_next(&it, &info)) {
 			struct priq *v;
 			unsigned c;
-			unsigned symbol = (unsigned)-1;
+			unsigned symbol;
 
 			v = priq_find(todo, info.to);
 
@@ -111,29 +111,21 @@ fsm_shortest(const struct fsm *fsm,
 
 			assert(v->state == info.to);
 
-			/* find first character in bitset. */
-			for (size_t i = 0; i < 4 && symbol == (unsigned)-1; i++) {
-				const uint64_t w = info.symbols[i];
-				if (w != 0) {
-					for (size_t bit = 0; bit < 64; bit++) {
-						if (u64bitset_get(&w, bit)) {
-							symbol = 64*i + bit;
-							break;
-						}
-					}
+			for (symbol = 0; symbol < 256; symbol++) {
+				if (!u64bitset_get(info.symbols, symbol)) {
+					continue;
 				}
-			}
-			assert(symbol != (unsigned)-1); /* found */
 
-			c = cost(u->state, v->state, (char)symbol);
+				c = cost(u->state, v->state, (char)symbol);
 
-			/* relax */
-			if (v->cost > u->cost + c) {
-				v->cost = u->cost + c;
-				v->prev = u;
-				v->c    = (char)symbol;
+				/* relax */
+				if (v->cost > u->cost + c) {
+					v->cost = u->cost + c;
+					v->prev = u;
+					v->c    = (char)symbol;
 
-				priq_update(&todo, v, v->cost);
+					priq_update(&todo, v, v->cost);
+				}
 			}
 		}
 	}
-- 
2.43.0


From 6dbdb8e6ec1d18a89e8d92599f8f5e6b1443b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 022/119] fix: fsm_shortest: don't overflow when summing costs

---
 src/libfsm/shortest.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index 59ab026..a4412cf 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -5,6 +5,7 @@
  */
 
 #include <assert.h>
+#include <limits.h>
 #include <stddef.h>
 
 #include <fsm/fsm.h>
@@ -118,6 +119,11 @@ fsm_shortest(const struct fsm *fsm,
 
 				c = cost(u->state, v->state, (char)symbol);
 
+				/* the sum would be infinite */
+				if (c >= FSM_COST_INFINITY - u->cost) {
+					continue;
+				}
+
 				/* relax */
 				if (v->cost > u->cost + c) {
 					v->cost = u->cost + c;
-- 
2.43.0


From 397251b64fdd89fb4cb89fb427885e4646b6ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 023/119] fix: fsm_example: a truncated example is a prefix

When an escape doesn't fit, later printable characters could still be written.
---
 src/libfsm/example.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libfsm/example.c b/src/libfsm/example.c
index 9b30ad9..b703970 100644
--- a/src/libfsm/example.c
+++ b/src/libfsm/example.c
@@ -78,6 +78,9 @@ fsm_example(const struct fsm *fsm, fsm_state_t goal,
 				*buf++ = hx[3];
 
 				bufsz -= 4;
+			} else if (bufsz > 1) {
+				/* truncated; later characters mustn't follow */
+				bufsz = 1;
 			}
 
 			n += 4;
-- 
2.43.0


From 1420b02e7c15e9c7d3cf23471e84121bd10f1697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 024/119] fix: fsm_findmode: no mode when every target occurs
 once

Printing a DFA where some state has 256 different targets aborted.
---
 include/fsm/fsm.h     |  4 ++--
 src/libfsm/mode.c     | 10 +++++++---
 src/libfsm/print/ir.c |  6 +++---
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/fsm/fsm.h b/include/fsm/fsm.h
index a811c16..70b07ae 100644
--- a/include/fsm/fsm.h
+++ b/include/fsm/fsm.h
@@ -169,8 +169,8 @@ fsm_addedge_literal(struct fsm *fsm, fsm_state_t from, fsm_state_t to,
  * If non-NULL, the mode's frequency is written out to the freq pointer.
  *
  * A target state is only considered as a mode if it has more than one occurance.
- * Returns NULL if there is no mode (e.g. the given state has no edges),
- * and *freq is unchanged.
+ * Returns (fsm_state_t) -1 if there is no mode (e.g. the given state has no
+ * edges), and *freq is unchanged.
  */
 fsm_state_t
 fsm_findmode(const struct fsm *fsm, fsm_state_t state, unsigned int *freq);
diff --git a/src/libfsm/mode.c b/src/libfsm/mode.c
index 87af0bd..bd9cc77 100644
--- a/src/libfsm/mode.c
+++ b/src/libfsm/mode.c
@@ -43,13 +43,17 @@ fsm_findmode(const struct fsm *fsm, fsm_state_t state, unsigned int *freq)
 		}
 	}
 
+	/* no mode; *freq is unchanged */
+	if (mode.state == (fsm_state_t)-1) {
+		return mode.state;
+	}
+
 	if (freq != NULL) {
 		*freq = mode.freq;
 	}
 
-	/* It's not meaningful to call this on a state without edges. */
-	assert(mode.state != (fsm_state_t)-1);
+	assert(mode.freq > 1);
 
-	assert(mode.freq >= 1);
 	return mode.state;
 }
+
diff --git a/src/libfsm/print/ir.c b/src/libfsm/print/ir.c
index d8e29b2..95faaf0 100644
--- a/src/libfsm/print/ir.c
+++ b/src/libfsm/print/ir.c
@@ -348,11 +348,11 @@ make_state(const struct fsm *fsm, fsm_state_t state,
 		}
 	}
 
+	mode.state = 0; /* XXX: dummy */
+	mode.freq = 0;
+
 	if (fsm_iscomplete(fsm, state)) {
 		mode.state = fsm_findmode(fsm, state, &mode.freq);
-	} else {
-		mode.state = 0; /* XXX: dummy */
-		mode.freq = 0;
 	}
 
 	assert(mode.freq == 0 || mode.state < fsm->statecount);
-- 
2.43.0


From 6822b3d12f961bc50026352b89bbf2e2dfad4095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 025/119] fix: fsm_setend: treat any non-zero value as an end
 state, as documented

---
 src/libfsm/end.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/end.c b/src/libfsm/end.c
index 5a4aa0d..c0eb220 100644
--- a/src/libfsm/end.c
+++ b/src/libfsm/end.c
@@ -26,7 +26,7 @@ fsm_setend(struct fsm *fsm, fsm_state_t state, int end)
 		return;
 	}
 
-	switch (end) {
+	switch (!!end) {
 	case 0:
 		assert(fsm->endcount > 0);
 		fsm->endcount--;
-- 
2.43.0


From 4a34e5fe42ebf4ce30145501c6184c6c19a8320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 026/119] fix: parse end ids in .fsm as decimal, as they are
 printed

---
 src/libfsm/parser.act | 2 +-
 src/libfsm/parser.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/parser.act b/src/libfsm/parser.act
index 2596c3c..7b9d4f5 100644
--- a/src/libfsm/parser.act
+++ b/src/libfsm/parser.act
@@ -258,7 +258,7 @@
 
 		errno = 0;
 
-		u = strtoul(lex_state->buf.a, &e, 16);
+		u = strtoul(lex_state->buf.a, &e, 10);
 
 		if ((u == ULONG_MAX && errno == ERANGE) || u > FSM_END_ID_MAX) {
 			err(lex_state, "end id %s out of range: expected 0..%u inclusive",
diff --git a/src/libfsm/parser.c b/src/libfsm/parser.c
index ec9bf4f..2d90b41 100644
--- a/src/libfsm/parser.c
+++ b/src/libfsm/parser.c
@@ -1305,7 +1305,7 @@ p_xend_C_Cend_Hid(fsm fsm, lex_state lex_state, act_state act_state, state ZIs)
 
 		errno = 0;
 
-		u = strtoul(lex_state->buf.a, &e, 16);
+		u = strtoul(lex_state->buf.a, &e, 10);
 
 		if ((u == ULONG_MAX && errno == ERANGE) || u > FSM_END_ID_MAX) {
 			err(lex_state, "end id %s out of range: expected 0..%u inclusive",
-- 
2.43.0


From c1c7369cabd2574e3296734c5cbfd9f3f5e88926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 027/119] fix: .fsm labels may be a raw NUL byte

---
 src/libfsm/parser.act | 1 -
 src/libfsm/parser.c   | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/libfsm/parser.act b/src/libfsm/parser.act
index 7b9d4f5..f1a9964 100644
--- a/src/libfsm/parser.act
+++ b/src/libfsm/parser.act
@@ -241,7 +241,6 @@
 	@};
 
 	CHAR: () -> (c :char) = @{
-		assert(lex_state->buf.a[0] != '\0');
 		assert(lex_state->buf.a[1] == '\0');
 
 		@c = lex_state->buf.a[0];
diff --git a/src/libfsm/parser.c b/src/libfsm/parser.c
index 2d90b41..34d69fb 100644
--- a/src/libfsm/parser.c
+++ b/src/libfsm/parser.c
@@ -181,7 +181,6 @@ p_label(fsm fsm, lex_state lex_state, act_state act_state, char *ZOc)
 					{
 #line 243 "src/libfsm/parser.act"
 
-		assert(lex_state->buf.a[0] != '\0');
 		assert(lex_state->buf.a[1] == '\0');
 
 		ZIc = lex_state->buf.a[0];
-- 
2.43.0


From dbb6f9352359bfb7c40466b58cd9ad04a9cb76bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 028/119] fix: fsm_vm_match_file for an empty file

---
 src/libfsm/vm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libfsm/vm.c b/src/libfsm/vm.c
index 0eb4fa1..6df413b 100644
--- a/src/libfsm/vm.c
+++ b/src/libfsm/vm.c
@@ -212,6 +212,9 @@ fsm_vm_match_file(const struct fsm_dfavm *vm, FILE *f)
 		return 0;
 	}
 
+	/* run up to the first fetch, for when there was nothing to read */
+	vm_match(vm, &st, buf, 0);
+
 	return vm_end(vm, &st) == VM_SUCCESS;
 }
 
-- 
2.43.0


From d279c1bca643767be7d30eee9fb8092aa7feebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 029/119] fix: compiling states with no most frequent
 destination to VM ops

---
 src/libfsm/vm/ir.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/libfsm/vm/ir.c b/src/libfsm/vm/ir.c
index 4930f4b..4862148 100644
--- a/src/libfsm/vm/ir.c
+++ b/src/libfsm/vm/ir.c
@@ -709,6 +709,25 @@ initial_translate_partial(struct dfavm_assembler_ir *a, const struct ret_list *r
 	return initial_translate_table(a, retlist, &table, opp);
 }
 
+static int
+initial_translate_complete(struct dfavm_assembler_ir *a, const struct ret_list *retlist,
+	struct ir_state *st, struct dfavm_op_ir **opp)
+{
+	struct dfa_table table;
+	size_t i, ngrps;
+
+	assert(st->strategy == IR_COMPLETE);
+
+	dfa_table_init(&table, -1, st);
+
+	ngrps = st->u.complete.n;
+	for (i=0; i < ngrps; i++) {
+		group_to_table(&table, &st->u.complete.groups[i]);
+	}
+
+	return initial_translate_table(a, retlist, &table, opp);
+}
+
 static int
 initial_translate_dominant(struct dfavm_assembler_ir *a, const struct ret_list *retlist,
 	struct ir_state *st, struct dfavm_op_ir **opp)
@@ -787,6 +806,11 @@ initial_translate_state(struct dfavm_assembler_ir *a, const struct ir *ir,
 	 * transitions off of the table.  We can do this more
 	 * intelligently.
 	 */
+		if (initial_translate_complete(a, retlist, st, opp) < 0) {
+			return NULL;
+		}
+		break;
+
 	case IR_PARTIAL:
 		if (initial_translate_partial(a, retlist, st, opp) < 0) {
 			return NULL;
-- 
2.43.0


From fb915284dcf59ad58bbfdfb854b605eb8bae2dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 030/119] fix: refuse programs with more far branches than the
 fixed encoding can index

---
 src/libfsm/vm.c    | 3 ---
 src/libfsm/vm/v2.c | 6 ++++++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/vm.c b/src/libfsm/vm.c
index 6df413b..d38ee8d 100644
--- a/src/libfsm/vm.c
+++ b/src/libfsm/vm.c
@@ -120,9 +120,6 @@ fsm_vm_compile_with_options(const struct fsm *fsm,
 	free_ir(fsm, ir);
 
 	vm = dfavm_compile_vm(&a, vmopts);
-	if (vm == NULL) {
-		return NULL;
-	}
 
 	free_retlist(&retlist);
 	dfavm_opasm_finalize_op(&a);
diff --git a/src/libfsm/vm/v2.c b/src/libfsm/vm/v2.c
index e217f6d..86d7138 100644
--- a/src/libfsm/vm/v2.c
+++ b/src/libfsm/vm/v2.c
@@ -100,6 +100,11 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 					/* allocate address in address table */
 					instr_bits = VM_V2_OP_IBRANCH;
 
+					/* the index must fit in the instruction */
+					if (alen > UINT16_MAX) {
+						goto error;
+					}
+
 					if (alen >= acap) {
 						size_t new_acap;
 						uint32_t *new_abuf;
@@ -158,6 +163,7 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 
 error:
 	if (ret != NULL) {
+		dfavm_v2_finalize(&ret->u.v2);
 		free(ret);
 	}
 
-- 
2.43.0


From 1ae98e66773c533fc4cea5e1dc9e62431ba38008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 031/119] fix: call the args hook whether or not there is an
 accept hook

---
 src/libfsm/print.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print.c b/src/libfsm/print.c
index bdb092d..ab68be3 100644
--- a/src/libfsm/print.c
+++ b/src/libfsm/print.c
@@ -38,7 +38,7 @@ print_hook_args(FILE *f,
 		assert(lang_opaque == NULL);
 	}
 
-	if (hooks->accept != NULL) {
+	if (hooks->args != NULL) {
 		return hooks->args(f, opt,
 			lang_opaque, hooks->hook_opaque);
 	} else if (default_args != NULL) {
-- 
2.43.0


From 3a2a5bdc469d3a6877280c0ea3d5e9dd6fa61312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 032/119] fix: vmc strings compared by strncmp() can't contain
 a NUL

---
 src/libfsm/print/vmc.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/print/vmc.c b/src/libfsm/print/vmc.c
index b427a9c..299e0c7 100644
--- a/src/libfsm/print/vmc.c
+++ b/src/libfsm/print/vmc.c
@@ -238,6 +238,7 @@ print_fetch(FILE *f, const struct fsm_options *opt)
 
 static size_t
 walk_sequence(struct dfavm_op_ir *op,
+	enum fsm_io io,
 	enum dfavm_op_end *end_bits,
 	char *buf, size_t len,
 	struct dfavm_op_ir **tail)
@@ -304,6 +305,11 @@ walk_sequence(struct dfavm_op_ir *op,
 		goto done;
 	}
 
+	/* strncmp() wouldn't compare past a '\0' */
+	if (io == FSM_IO_STR && op->cmp_arg == '\0') {
+		goto unsuitable;
+	}
+
 	buf[n] = op->cmp_arg;
 
 	*end_bits = op->u.stop.end_bits;
@@ -356,6 +362,10 @@ walk_sequence(struct dfavm_op_ir *op,
 			break;
 		}
 
+		if (io == FSM_IO_STR && op->cmp_arg == '\0') {
+			break;
+		}
+
 		buf[n] = op->cmp_arg;
 
 		*tail = op;
@@ -462,7 +472,7 @@ fsm_print_cfrag(FILE *f,
 
 			char buf[8192];
 
-			n = walk_sequence(op, &end_bits, buf, sizeof buf, &tail);
+			n = walk_sequence(op, opt->io, &end_bits, buf, sizeof buf, &tail);
 
 			if (n > 1 && opt->io == FSM_IO_PAIR) {
 				fprintf(f, "if (e - p < %zu || 0 != memcmp(p, \"", n);
-- 
2.43.0


From 7fe7cd76a35b7d14b269e3dd24e03f17985b0eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 033/119] fix: generated code for machines with unreachable
 states besides a start which needs no input

---
 src/libfsm/print/go.c   | 10 +++++++---
 src/libfsm/print/rust.c |  9 +++++++--
 src/libfsm/print/vmc.c  | 10 +++++++---
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index 1f6b7a0..44c4a16 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -297,9 +297,13 @@ fsm_print_gofrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP) {
-		assert(ops->next == NULL);
-	} else {
+	for (op = ops; op != NULL; op = op->next) {
+		if (op->instr == VM_OP_FETCH) {
+			break;
+		}
+	}
+
+	if (op != NULL) {
 		switch (opt->io) {
 		case FSM_IO_PAIR:
 			if (ops != NULL) {
diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index c1fcf5b..acc677c 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -280,8 +280,13 @@ fsm_print_rustfrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP) {
-		assert(ops->next == NULL);
+	for (op = ops; op != NULL; op = op->next) {
+		if (op->instr == VM_OP_FETCH) {
+			break;
+		}
+	}
+
+	if (op == NULL) {
 		fprintf(f, "\n");
 	} else {
 		switch (opt->io) {
diff --git a/src/libfsm/print/vmc.c b/src/libfsm/print/vmc.c
index 299e0c7..c20bd94 100644
--- a/src/libfsm/print/vmc.c
+++ b/src/libfsm/print/vmc.c
@@ -424,9 +424,13 @@ fsm_print_cfrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP) {
-		assert(ops->next == NULL);
-	} else {
+	for (op = ops; op != NULL; op = op->next) {
+		if (op->instr == VM_OP_FETCH) {
+			break;
+		}
+	}
+
+	if (op != NULL) {
 		switch (opt->io) {
 		case FSM_IO_GETC:
 			fprintf(f, "\tint c;\n");
-- 
2.43.0


From ebc8e9f4144324a115e22280870ab7753e16aaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 034/119] fix: use the reject hook in C for machines with no
 end states

---
 src/libfsm/print/c.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/print/c.c b/src/libfsm/print/c.c
index b10cd9a..b16268e 100644
--- a/src/libfsm/print/c.c
+++ b/src/libfsm/print/c.c
@@ -368,7 +368,10 @@ print_endstates(FILE *f,
 
 	/* no end states */
 	if (!ir_hasend(ir)) {
-		fprintf(f, "\treturn 0;");
+		fprintf(f, "\t");
+		if (-1 == print_hook_reject(f, opt, hooks, NULL, default_reject, NULL)) {
+			return -1;
+		}
 		if (opt->comments) {
 			fprintf(f, " /* unexpected EOT */");
 		}
-- 
2.43.0


From 8da561c040fd014039e50d834606b3436554aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 035/119] fix: C fragments for machines with no states

---
 src/libfsm/print/c.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/libfsm/print/c.c b/src/libfsm/print/c.c
index b16268e..0f37b9e 100644
--- a/src/libfsm/print/c.c
+++ b/src/libfsm/print/c.c
@@ -490,6 +490,18 @@ fsm_print_c_body(FILE *f, const struct ir *ir,
 	assert(opt != NULL);
 	assert(hooks != NULL);
 
+	if (ir->n == 0) {
+		fprintf(f, "\t");
+		if (-1 == print_hook_reject(f, opt, hooks, NULL, default_reject, NULL)) {
+			return -1;
+		}
+		if (opt->comments) {
+			fprintf(f, " /* no matches */");
+		}
+		fprintf(f, "\n");
+		return 0;
+	}
+
 	if (hooks->cp != NULL) {
 		cp = hooks->cp;
 	} else {
@@ -645,16 +657,8 @@ fsm_print_c(FILE *f,
 			break;
 		}
 
-		if (ir->n == 0) {
-			fprintf(f, "\treturn 0;");
-			if (opt->comments) {
-				fprintf(f, " /* no matches */");
-			}
-			fprintf(f, "\n");
-		} else {
-			if (-1 == fsm_print_c_body(f, ir, opt, hooks)) {
-				return -1;
-			}
+		if (-1 == fsm_print_c_body(f, ir, opt, hooks)) {
+			return -1;
 		}
 
 		fprintf(f, "}\n");
-- 
2.43.0


From b605f51c1beaddaf2be7ddb01758bf9b9373b9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 036/119] fix: prune optional repetition after an end anchor

always_consumes_input() is never true for a REPEAT node which can be
skipped, so this test was dead and under RE_ANCHORED `$a?' matched "a".
Ask about the repeated subexpression instead.
---
 src/libre/ast_analysis.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 5a6b41b..9440d45 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -1144,7 +1144,7 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 		 * input, set its max count to 0. This should be based on the after_end_anchor
 		 * flag value *before* analyzing the repeated subtree. */
 		if (orig_after_end_anchor
-		    && always_consumes_input(n)
+		    && always_consumes_input(n->u.repeat.e)
 		    && n->u.repeat.min == 0) {
 			prune_repeat_node(n);
  		}
-- 
2.43.0


From 20d6c01c4b58f1a63a6096fa718ce81c11b1803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 037/119] fix: repetition of anchored subexpressions

(^){2} failed an assertion because the maximum count was lowered to 1
below the minimum, and under RE_ANCHORED (^a)* matched "aa".
---
 src/libre/ast_analysis.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 9440d45..833ff29 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -1122,10 +1122,25 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 			set_flags(n, AST_FLAG_MATCHES_1NEWLINE);
 		}
 
+		/* Only the last iteration can consume input before an end anchor or
+		 * after a start anchor, so repeating {0,} is the same as {0,1}. */
+		if ((n->u.repeat.e->flags & (AST_FLAG_ANCHORED_START | AST_FLAG_ANCHORED_END))
+		    && n->u.repeat.min == 0 && n->u.repeat.max > 1) {
+			n->u.repeat.max = 1;
+		}
+
 		if (n->u.repeat.e->flags & AST_FLAG_ANCHORED_START && n->u.repeat.min > 0) {
 			LOG(3 - LOG_ANCHORING,
 			    "%s: REPEAT: repeating ANCHORED_START subtree >0 times -> ANCHORED_START\n", __func__);
 			set_flags(n, AST_FLAG_ANCHORED_START);
+			if (n->u.repeat.min > 1) {
+				/* a second iteration cannot start past consumed input */
+				if (always_consumes_input(n->u.repeat.e)) {
+					set_flags(n, AST_FLAG_UNSATISFIABLE);
+					return AST_ANALYSIS_UNSATISFIABLE;
+				}
+				n->u.repeat.min = 1;
+			}
 			n->u.repeat.max = 1;
 		}
 
@@ -1137,6 +1152,14 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 			LOG(3 - LOG_ANCHORING,
 			    "%s: REPEAT: repeating ANCHORED_END subtree >0 times -> ANCHORED_END\n", __func__);
 			set_flags(n, n->u.repeat.e->flags & END_ANCHOR_FLAG_MASK);
+			if (n->u.repeat.min > 1) {
+				/* an iteration cannot be followed by consumed input */
+				if (always_consumes_input(n->u.repeat.e)) {
+					set_flags(n, AST_FLAG_UNSATISFIABLE);
+					return AST_ANALYSIS_UNSATISFIABLE;
+				}
+				n->u.repeat.min = 1;
+			}
 			n->u.repeat.max = 1;
 		}
 
-- 
2.43.0


From c0130f712fa7767ccb37a282c6c6a8bdcc8e3fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 038/119] fix: assertion for nested counted repetition

(?:a{2}){2} failed an assertion about the ranges of the two counts,
which doesn't hold.
---
 src/libre/ast_rewrite.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 592dd58..d0e68a0 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -491,14 +491,10 @@ rewrite_repeat(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags f
 		}
 
 		/*
-		 * a{h,i}{j,k} is equivalent to a{h*j,i*k} if it's possible to combine,
-		 * and it's possible iff the range of the result is not more than
-		 * the sum of the ranges of the two inputs.
+		 * For h > 1, a{h,i}{j,k} with both maximums bounded is left as it is:
+		 * it's not a{h*j,i*k} in general, because there may be gaps between
+		 * the counts which can be reached.
 		 */
-		if (i != AST_COUNT_UNBOUNDED && k != AST_COUNT_UNBOUNDED) {
-			/* I don't know why this is true */
-			assert(w - v > i - h + k - j);
-		}
 
 		/*
 		 * a{h,}{j,}
-- 
2.43.0


From 883547155f0efe4f38a331c6af564ebb7383a0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 039/119] fix: escaped NUL bytes in PCRE patterns

---
 src/libre/dialect/pcre/parser.c | 5 -----
 src/libre/parser.act            | 2 --
 2 files changed, 7 deletions(-)

diff --git a/src/libre/dialect/pcre/parser.c b/src/libre/dialect/pcre/parser.c
index e59fee0..3eee031 100644
--- a/src/libre/dialect/pcre/parser.c
+++ b/src/libre/dialect/pcre/parser.c
@@ -478,7 +478,6 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
 		assert(lex_state->buf.a[3] == '\0');
 
 		ZIc = lex_state->buf.a[2];
@@ -1073,7 +1072,6 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
 		assert(lex_state->buf.a[3] == '\0');
 
 		ZIc = lex_state->buf.a[2];
@@ -1227,7 +1225,6 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 #line 412 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
@@ -1417,7 +1414,6 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
 		assert(lex_state->buf.a[3] == '\0');
 
 		ZI310 = lex_state->buf.a[2];
@@ -1634,7 +1630,6 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 #line 412 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
diff --git a/src/libre/parser.act b/src/libre/parser.act
index 984036c..37839d6 100644
--- a/src/libre/parser.act
+++ b/src/libre/parser.act
@@ -411,7 +411,6 @@
 
 	NOESC: () -> (c :char, start :pos, end :pos) = @{
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
 		assert(lex_state->buf.a[2] == '\0');
 
 		@c = lex_state->buf.a[1];
@@ -442,7 +441,6 @@
 	CONTROL: () -> (c :char, start :pos, end :pos) = @{
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
 		assert(lex_state->buf.a[3] == '\0');
 
 		@c = lex_state->buf.a[2];
-- 
2.43.0


From 34e4892e3cc216cf6d7182414d3a79ab3f1ad76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 040/119] fix: alternation with a class which has no members

---
 src/libre/ast_rewrite.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index d0e68a0..d65c96e 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -374,6 +374,24 @@ rewrite_alt(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags flag
 	}
 
 
+	/* remove tombstone children; an alternation matches nothing
+	 * only when all of its children do */
+	for (i = 0; i < n->u.alt.count; ) {
+		if (n->u.alt.count > 1 && n->u.alt.n[i]->type == AST_EXPR_TOMBSTONE) {
+			ast_expr_free(*poolp, n->u.alt.n[i]);
+
+			if (i + 1 < n->u.alt.count) {
+				memmove(&n->u.alt.n[i], &n->u.alt.n[i + 1],
+					(n->u.alt.count - i - 1) * sizeof *n->u.alt.n);
+			}
+
+			n->u.alt.count--;
+			continue;
+		}
+
+		i++;
+	}
+
 	/* de-duplicate children */
 	if (n->u.alt.count > 1) {
 		if (!deduplicate_alt(poolp, n)) {
-- 
2.43.0


From d7ff3af09d29f769a2d0826f192f361d40147368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 041/119] fix: uninitialised error position for ranges which
 open a class

---
 src/libre/dialect/native/parser.c   | 20 ++++++++++++++++++++
 src/libre/dialect/native/parser.sid |  4 ++++
 src/libre/dialect/pcre/parser.c     | 20 ++++++++++++++++++++
 src/libre/dialect/pcre/parser.sid   |  4 ++++
 4 files changed, 48 insertions(+)

diff --git a/src/libre/dialect/native/parser.c b/src/libre/dialect/native/parser.c
index 63c5f8c..6b9fc21 100644
--- a/src/libre/dialect/native/parser.c
+++ b/src/libre/dialect/native/parser.c
@@ -1894,6 +1894,16 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 							RESTORE_LEXER;
 							goto ZL1;
 						}
+						/* BEGINNING OF ACTION: mark-range */
+						{
+#line 772 "src/libre/parser.act"
+
+		mark(&act_state->rangestart, &(ZIrstart));
+		mark(&act_state->rangeend,   &(ZIend));
+	
+#line 1905 "src/libre/dialect/native/parser.c"
+						}
+						/* END OF ACTION: mark-range */
 						/* BEGINNING OF ACTION: ast-make-range */
 						{
 #line 1004 "src/libre/parser.act"
@@ -2233,6 +2243,16 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 #line 2234 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
+			/* BEGINNING OF ACTION: mark-range */
+			{
+#line 772 "src/libre/parser.act"
+
+		mark(&act_state->rangestart, &(*ZIstart));
+		mark(&act_state->rangeend,   &(ZIend));
+	
+#line 2254 "src/libre/dialect/native/parser.c"
+			}
+			/* END OF ACTION: mark-range */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
 #line 1004 "src/libre/parser.act"
diff --git a/src/libre/dialect/native/parser.sid b/src/libre/dialect/native/parser.sid
index aeb894c..12a2678 100644
--- a/src/libre/dialect/native/parser.sid
+++ b/src/libre/dialect/native/parser.sid
@@ -255,6 +255,7 @@
 						lower = <ast-range-endpoint-literal>(c);
 						(!, !, !) = RANGE;
 						(upper,end) = range-endpoint-end;
+						<mark-range>(rstart, end);
 						node1 = <ast-make-range>(lower, rstart, upper, end);
 					||
 						node1 = <ast-make-literal>(c);
@@ -281,6 +282,7 @@
 						lower = <ast-range-endpoint-literal>(c);
 						(!, !, !) = RANGE;
 						(upper, end) = range-endpoint-end;
+						<mark-range>(rstart, end);
 						node1 = <ast-make-range>(lower, rstart, upper, end);
 					||
 						node1 = <ast-make-literal>(c);
@@ -306,6 +308,7 @@
 					(upper, end) = range-endpoint-end;
 					/* FIXME: start is off by one */
 					lower = <ast-range-endpoint-literal>(cbrak);
+					<mark-range>(start, end);
 					node1 = <ast-make-range>(lower, start, upper, end);
 				||
 					node1 = <ast-make-literal>(cbrak);
@@ -329,6 +332,7 @@
 					(upper, end) = range-endpoint-end;
 					/* FIXME: start is off by one */
 					lower = <ast-range-endpoint-literal>(cbrak);
+					<mark-range>(start, end);
 					node1 = <ast-make-range>(lower, start, upper, end);
 				||
 					node1 = <ast-make-literal>(cbrak);
diff --git a/src/libre/dialect/pcre/parser.c b/src/libre/dialect/pcre/parser.c
index 3eee031..f9106c1 100644
--- a/src/libre/dialect/pcre/parser.c
+++ b/src/libre/dialect/pcre/parser.c
@@ -2953,6 +2953,16 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 							RESTORE_LEXER;
 							goto ZL1;
 						}
+						/* BEGINNING OF ACTION: mark-range */
+						{
+#line 772 "src/libre/parser.act"
+
+		mark(&act_state->rangestart, &(ZIrstart));
+		mark(&act_state->rangeend,   &(ZIend));
+	
+#line 2964 "src/libre/dialect/pcre/parser.c"
+						}
+						/* END OF ACTION: mark-range */
 						/* BEGINNING OF ACTION: ast-make-range */
 						{
 #line 1004 "src/libre/parser.act"
@@ -3497,6 +3507,16 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 #line 3503 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
+			/* BEGINNING OF ACTION: mark-range */
+			{
+#line 772 "src/libre/parser.act"
+
+		mark(&act_state->rangestart, &(*ZIstart));
+		mark(&act_state->rangeend,   &(ZIend));
+	
+#line 3518 "src/libre/dialect/pcre/parser.c"
+			}
+			/* END OF ACTION: mark-range */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
 #line 1004 "src/libre/parser.act"
diff --git a/src/libre/dialect/pcre/parser.sid b/src/libre/dialect/pcre/parser.sid
index 377060d..28703be 100644
--- a/src/libre/dialect/pcre/parser.sid
+++ b/src/libre/dialect/pcre/parser.sid
@@ -283,6 +283,7 @@
 						lower = <ast-range-endpoint-literal>(c);
 						(!, !, !) = RANGE;
 						(upper,end) = range-endpoint-end;
+						<mark-range>(rstart, end);
 						node1 = <ast-make-range>(lower, rstart, upper, end);
 					||
 						node1 = <ast-make-literal>(c);
@@ -309,6 +310,7 @@
 						lower = <ast-range-endpoint-literal>(c);
 						(!, !, !) = RANGE;
 						(upper, end) = range-endpoint-end;
+						<mark-range>(rstart, end);
 						node1 = <ast-make-range>(lower, rstart, upper, end);
 					||
 						node1 = <ast-make-literal>(c);
@@ -334,6 +336,7 @@
 					(upper, end) = range-endpoint-end;
 					/* FIXME: start is off by one */
 					lower = <ast-range-endpoint-literal>(cbrak);
+					<mark-range>(start, end);
 					node1 = <ast-make-range>(lower, start, upper, end);
 				||
 					node1 = <ast-make-literal>(cbrak);
@@ -357,6 +360,7 @@
 					(upper, end) = range-endpoint-end;
 					/* FIXME: start is off by one */
 					lower = <ast-range-endpoint-literal>(cbrak);
+					<mark-range>(start, end);
 					node1 = <ast-make-range>(lower, start, upper, end);
 				||
 					node1 = <ast-make-literal>(cbrak);
-- 
2.43.0


From f0643896fe581dae802806fa4dad1797ba470574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 042/119] fix: alternatives which are unsupported were compiled
 anyway

---
 src/libre/ast_analysis.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 833ff29..3c62fb4 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -1009,8 +1009,6 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 					all_set_past_always_consuming &= child_env.past_always_consuming;
 					any_sat = 1;
 				}
-			} else if (res == AST_ANALYSIS_ERROR_UNSUPPORTED) {
-				continue;
 			} else {
 				return res;
 			}
-- 
2.43.0


From a4d862628bd71cc26ddb6ec16abdf6bf8f2dca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 043/119] fix: repeats of a newline before an end anchor

---
 src/libre/ast_analysis.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 3c62fb4..a54d394 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -1120,6 +1120,15 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 			set_flags(n, AST_FLAG_MATCHES_1NEWLINE);
 		}
 
+		/* One iteration can end before a trailing newline, and the next can
+		 * consume it. */
+		if (n->u.repeat.max > 1
+		    && (n->u.repeat.e->flags & AST_FLAG_ANCHORED_END)
+		    && !(env->re_flags & RE_ANCHORED)
+		    && can_consume_single_newline(n->u.repeat.e)) {
+			return AST_ANALYSIS_ERROR_UNSUPPORTED;
+		}
+
 		/* Only the last iteration can consume input before an end anchor or
 		 * after a start anchor, so repeating {0,} is the same as {0,1}. */
 		if ((n->u.repeat.e->flags & (AST_FLAG_ANCHORED_START | AST_FLAG_ANCHORED_END))
-- 
2.43.0


From 264c7ba228dc3a871505baeabcaa9014afc7fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 044/119] fix: uninitialised length and wrong error from
 re_is_literal

---
 src/libre/re.c |  3 ++-
 src/rx/main.c  | 12 ++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/libre/re.c b/src/libre/re.c
index 013e2b5..cb2340e 100644
--- a/src/libre/re.c
+++ b/src/libre/re.c
@@ -256,7 +256,7 @@ re_is_literal(enum re_dialect dialect, int (*getc)(void *opaque), void *opaque,
 	m = re_dialect(dialect);
 	if (m == NULL) {
 		if (err != NULL) { err->e = RE_EBADDIALECT; }
-		return 0;
+		return -1;
 	}
 
 	flags |= m->flags;
@@ -273,6 +273,7 @@ re_is_literal(enum re_dialect dialect, int (*getc)(void *opaque), void *opaque,
 	if (unsatisfiable) {
 		*category = RE_LITERAL_UNSATISFIABLE;
 		*s = NULL;
+		*n = 0;
 		r = 1;
 		goto done;
 	}
diff --git a/src/rx/main.c b/src/rx/main.c
index 4ac357b..128ea59 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -313,18 +313,18 @@ categorize(enum re_dialect dialect, enum re_flags flags,
 		return CATEGORY_ERROR;
 	}
 
-	/* empty string */
-	if (r == 1 && lit_n == 0) {
-		assert(lit_s == NULL);
-		return CATEGORY_EMPTY;
-	}
-
 	/* unsatisfiable */
 	if (r == 1 && category == RE_LITERAL_UNSATISFIABLE) {
 		assert(lit_s == NULL);
 		return CATEGORY_UNSATISFIABLE;
 	}
 
+	/* empty string */
+	if (r == 1 && lit_n == 0) {
+		assert(lit_s == NULL);
+		return CATEGORY_EMPTY;
+	}
+
 	/* is a literal */
 	if (r == 1) {
 		assert(lit_s != NULL);
-- 
2.43.0


From 399a7f51addb60363cd496d358059c052bd926a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 045/119] fix: strict and newline end anchors taken to be the
 same

---
 src/libre/ast.c         | 3 +++
 src/libre/ast_rewrite.c | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/libre/ast.c b/src/libre/ast.c
index 43da60e..72e4975 100644
--- a/src/libre/ast.c
+++ b/src/libre/ast.c
@@ -491,6 +491,9 @@ ast_expr_cmp(const struct ast_expr *a, const struct ast_expr *b)
 		if (a->u.anchor.type < b->u.anchor.type) { return -1; }
 		if (a->u.anchor.type > b->u.anchor.type) { return +1; }
 
+		if (a->u.anchor.is_end_nl < b->u.anchor.is_end_nl) { return -1; }
+		if (a->u.anchor.is_end_nl > b->u.anchor.is_end_nl) { return +1; }
+
 		return 0;
 
 	case AST_EXPR_SUBTRACT: {
diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index d65c96e..35bec2f 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -186,6 +186,11 @@ rewrite_concat(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags f
 					break;
 				}
 
+				/* the stricter of the two applies: $\z is just \z */
+				if (!child->u.anchor.is_end_nl) {
+					n->u.concat.n[i]->u.anchor.is_end_nl = 0;
+				}
+
 				/* delete node */
 				ast_expr_free(*poolp, n->u.concat.n[j]);
 				if (j + 1 < n->u.concat.count) {
-- 
2.43.0


From edf37cdafb7d4d3fc887a41342c91992ce270c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 046/119] fix: strings which end within another string

---
 src/libre/ac.c | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/libre/ac.c b/src/libre/ac.c
index e941260..35ebe16 100644
--- a/src/libre/ac.c
+++ b/src/libre/ac.c
@@ -174,6 +174,32 @@ trie_add_word(struct trie_graph *g, const char *w, size_t n, const fsm_end_id_t
 	return g;
 }
 
+/* whatever ends at the failure state is also a suffix of what ends here */
+static int
+inherit_output(struct trie_state *st)
+{
+	struct state_iter si;
+	fsm_state_t endid;
+
+	assert(st != NULL);
+	assert(st->fail != NULL);
+
+	if (!st->fail->output) {
+		return 1;
+	}
+
+	st->output = 1;
+
+	state_set_reset(st->fail->endids, &si);
+	while (state_set_next(&si, &endid)) {
+		if (!state_set_add(&st->endids, NULL, endid)) {
+			return 0;
+		}
+	}
+
+	return 1;
+}
+
 int
 trie_add_failure_edges(struct trie_graph *g) {
 	struct trie_state **q;
@@ -198,6 +224,11 @@ trie_add_failure_edges(struct trie_graph *g) {
 
 		st->fail = g->root;
 		q[top++] = st;
+
+		if (!inherit_output(st)) {
+			free(q);
+			return -1;
+		}
 	}
 
 	/* proceed in bfs through states */
@@ -233,7 +264,10 @@ trie_add_failure_edges(struct trie_graph *g) {
 				nx->fail = fs;
 			}
 
-			nx->output = nx->output | fs->output;
+			if (!inherit_output(nx)) {
+				free(q);
+				return -1;
+			}
 		}
 	}
 
-- 
2.43.0


From c3bd6ed5cfecfae0fca1e6d31cde83276fb640eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 047/119] fix: parenthesise nested repeats when printing PCRE

---
 src/libre/print/pcre.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 974a364..e380ded 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -100,7 +100,8 @@ pp_atomic(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags,
 	assert(f != NULL);
 	assert(opt != NULL);
 
-	if (prec(n) <= prec(parent)) {
+	/* a repeat can't be the operand of another repeat: "a{2}+" is possessive */
+	if (prec(n) <= prec(parent) && !(n->type == AST_EXPR_REPEAT && parent->type == AST_EXPR_REPEAT)) {
 		pp_iter(f, opt, re_flags, n);
 	} else {
 		enum re_flags local_flags = *re_flags;
-- 
2.43.0


From a84f3f6fdd3e906683a8a47c5e905cc6c7c2511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 048/119] fix: print end anchors which allow a newline as $ for
 PCRE

---
 src/libre/print/pcre.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index e380ded..efe2824 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -223,7 +223,11 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 
 	case AST_EXPR_ANCHOR:
 		assert(n->u.anchor.type == AST_ANCHOR_START || n->u.anchor.type == AST_ANCHOR_END);
-		fprintf(f, "%s", n->u.anchor.type == AST_ANCHOR_START ? "^" : "\\z");
+		if (n->u.anchor.type == AST_ANCHOR_START) {
+			fprintf(f, "^");
+		} else {
+			fprintf(f, "%s", n->u.anchor.is_end_nl ? "$" : "\\z");
+		}
 		break;
 
 	case AST_EXPR_SUBTRACT:
-- 
2.43.0


From cd3176ec242463940145b975a868152b7f8d9545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 049/119] fix: print the range of all bytes as "." for PCRE
 under RE_SINGLE only

---
 src/libre/print/pcre.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index efe2824..b8896c9 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -238,7 +238,9 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 		break;
 
 	case AST_EXPR_RANGE:
-		if (n->u.range.from.u.literal.c == 0x00 &&
+		/* "." would exclude \n otherwise */
+		if ((n->re_flags & RE_SINGLE) &&
+			n->u.range.from.u.literal.c == 0x00 &&
 			n->u.range.to.u.literal.c == 0xff)
 		{
 			fprintf(f, ".");
-- 
2.43.0


From a7751374522af82dfc1e711d030607aef167365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 050/119] fix: print subtracted classes for PCRE

---
 src/libre/print/pcre.c | 125 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 121 insertions(+), 4 deletions(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index b8896c9..1192461 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -9,6 +9,7 @@
 #include <stdint.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <inttypes.h>
 
@@ -93,6 +94,125 @@ print_endpoint(FILE *f, const struct fsm_options *opt, const struct ast_endpoint
 	}
 }
 
+/*
+ * The characters matched by a node which consumes exactly one,
+ * i.e. the contents of a character class.
+ */
+static void
+class_members(const struct ast_expr *n, unsigned char set[static UCHAR_MAX + 1])
+{
+	unsigned char b[UCHAR_MAX + 1];
+	size_t i;
+
+	memset(set, 0, UCHAR_MAX + 1);
+
+	switch (n->type) {
+	case AST_EXPR_TOMBSTONE:
+		return;
+
+	case AST_EXPR_LITERAL:
+		set[(unsigned char) n->u.literal.c] = 1;
+		break;
+
+	case AST_EXPR_RANGE:
+		assert(n->u.range.from.type == AST_ENDPOINT_LITERAL);
+		assert(n->u.range.to.type == AST_ENDPOINT_LITERAL);
+
+		for (i = n->u.range.from.u.literal.c; i <= n->u.range.to.u.literal.c; i++) {
+			set[i] = 1;
+		}
+		break;
+
+	case AST_EXPR_ALT: {
+		size_t j;
+
+		for (j = 0; j < n->u.alt.count; j++) {
+			class_members(n->u.alt.n[j], b);
+			for (i = 0; i <= UCHAR_MAX; i++) {
+				set[i] |= b[i];
+			}
+		}
+		return;
+	}
+
+	case AST_EXPR_SUBTRACT:
+		class_members(n->u.subtract.a, set);
+		class_members(n->u.subtract.b, b);
+		for (i = 0; i <= UCHAR_MAX; i++) {
+			set[i] &= !b[i];
+		}
+		return;
+
+	default:
+		assert(!"unreached");
+		abort();
+	}
+
+	if (n->re_flags & RE_ICASE) {
+		for (i = 0; i <= UCHAR_MAX; i++) {
+			b[i] = set[i] || set[(unsigned char) tolower((int) i)] || set[(unsigned char) toupper((int) i)];
+		}
+		memcpy(set, b, sizeof b);
+	}
+}
+
+static void
+print_member(FILE *f, const struct fsm_options *opt, unsigned char c)
+{
+	if (c == '-') {
+		fprintf(f, "\\x%02x", c);
+	} else {
+		pcre_escputc(f, opt, (char) c);
+	}
+}
+
+static void
+print_subtract(FILE *f, const struct fsm_options *opt, const struct ast_expr *n)
+{
+	unsigned char set[UCHAR_MAX + 1];
+	unsigned count, i, j;
+	int want;
+
+	class_members(n, set);
+
+	count = 0;
+	for (i = 0; i <= UCHAR_MAX; i++) {
+		count += set[i];
+	}
+
+	/* whichever is shorter; a positive class can't be empty */
+	want = count > 0 && count <= (UCHAR_MAX + 1) / 2;
+
+	/* the set of all characters is a positive class too */
+	if (count == UCHAR_MAX + 1) {
+		want = 1;
+	}
+
+	fprintf(f, want ? "[" : "[^");
+
+	for (i = 0; i <= UCHAR_MAX; i = j + 1) {
+		j = i;
+
+		if (set[i] != want) {
+			continue;
+		}
+
+		while (j < UCHAR_MAX && set[j + 1] == want) {
+			j++;
+		}
+
+		print_member(f, opt, i);
+		if (j > i) {
+			if (j > i + 1) {
+				fprintf(f, "-");
+			}
+			print_member(f, opt, j);
+		}
+	}
+
+	fprintf(f, "]");
+}
+
 static void
 pp_atomic(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags,
 	struct ast_expr *n, const struct ast_expr *parent)
@@ -231,10 +351,7 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 		break;
 
 	case AST_EXPR_SUBTRACT:
-		assert(!"unimplemented");
-		pp_iter(f, opt, re_flags, n->u.subtract.a);
-		fprintf(f, "-");
-		pp_iter(f, opt, re_flags, n->u.subtract.b);
+		print_subtract(f, opt, n);
 		break;
 
 	case AST_EXPR_RANGE:
-- 
2.43.0


From cf1c99f7278c2d7d7dd8b137dbf6883646015ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 051/119] fix: escape spaces and # when printing PCRE for
 RE_EXTENDED

---
 src/libre/print/pcre.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 1192461..f609449 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -76,6 +76,18 @@ enum {
 	RE_FLAGS_PRINTABLE = RE_ICASE | RE_TEXT | RE_MULTI | RE_REVERSE | RE_SINGLE | RE_ZONE
 };
 
+static void
+print_literal(FILE *f, const struct fsm_options *opt, enum re_flags re_flags, char c)
+{
+	/* these would be discarded as whitespace and comments outside a class */
+	if ((re_flags & RE_EXTENDED) && (c == ' ' || c == '#')) {
+		fprintf(f, "\\x%02x", (unsigned char) c);
+		return;
+	}
+
+	pcre_escputc(f, opt, c);
+}
+
 static void
 print_endpoint(FILE *f, const struct fsm_options *opt, const struct ast_endpoint *e)
 {
@@ -249,7 +261,8 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 			re_flags_print(f, *re_flags & ~n->re_flags);
 		}
 		fprintf(f, ")");
-		*re_flags = n->re_flags;
+		*re_flags &= ~(unsigned) RE_FLAGS_PRINTABLE;
+		*re_flags |= n->re_flags & RE_FLAGS_PRINTABLE;
 	}
 
 	switch (n->type) {
@@ -280,7 +293,7 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 	}
 
 	case AST_EXPR_LITERAL:
-		pcre_escputc(f, opt, n->u.literal.c);
+		print_literal(f, opt, *re_flags, n->u.literal.c);
 		break;
 
 	case AST_EXPR_CODEPOINT:
-- 
2.43.0


From 4dc9d6107cbde92776c582ec3426f221af749527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 052/119] fix: check the AST's flags rather than the regex
 flags when printing ABNF

---
 src/libre/print/abnf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libre/print/abnf.c b/src/libre/print/abnf.c
index a50771c..b472c07 100644
--- a/src/libre/print/abnf.c
+++ b/src/libre/print/abnf.c
@@ -86,7 +86,7 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 		return;
 	}
 
-	if ((n->re_flags & AST_FLAG_UNSATISFIABLE) != 0) {
+	if ((n->flags & AST_FLAG_UNSATISFIABLE) != 0) {
 		fprintf(f, "<RIP>");
 		return;
 	}
-- 
2.43.0


From 56b0e18219d848e58cee873c87f1cb95eb96f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 053/119] fix: parenthesise nested repeats when printing ABNF

---
 src/libre/print/abnf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libre/print/abnf.c b/src/libre/print/abnf.c
index b472c07..05655b1 100644
--- a/src/libre/print/abnf.c
+++ b/src/libre/print/abnf.c
@@ -66,7 +66,8 @@ pp_atomic(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags,
 	assert(f != NULL);
 	assert(opt != NULL);
 
-	if (prec(n) <= prec(parent)) {
+	/* there's no production for a repeat of a repeat, and "32%x61" would be 32 of %x61 */
+	if (prec(n) <= prec(parent) && !(n->type == AST_EXPR_REPEAT && parent->type == AST_EXPR_REPEAT)) {
 		pp_iter(f, opt, re_flags, n);
 	} else {
 		enum re_flags local_flags = *re_flags;
-- 
2.43.0


From f69b9218c5836207e2fbd654501b6994b1679787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 054/119] fix: parenthesise subtractions when printing ABNF

---
 src/libre/print/abnf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libre/print/abnf.c b/src/libre/print/abnf.c
index 05655b1..09194c8 100644
--- a/src/libre/print/abnf.c
+++ b/src/libre/print/abnf.c
@@ -213,9 +213,12 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 		break;
 
 	case AST_EXPR_SUBTRACT:
+		/* this isn't ABNF; the parentheses are for "*" and sequences */
+		fprintf(f, "(");
 		pp_atomic(f, opt, re_flags, n->u.subtract.a, n);
 		fprintf(f, " - ");
 		pp_atomic(f, opt, re_flags, n->u.subtract.b, n);
+		fprintf(f, ")");
 		break;
 
 	case AST_EXPR_RANGE: {
-- 
2.43.0


From 5874cd37144f42fdc1c2a5d90dc8606e68078ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 055/119] fix: empty nodes and alternatives when printing ABNF

---
 src/libre/print/abnf.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/libre/print/abnf.c b/src/libre/print/abnf.c
index 09194c8..b8086bb 100644
--- a/src/libre/print/abnf.c
+++ b/src/libre/print/abnf.c
@@ -98,6 +98,8 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 
 	switch (n->type) {
 	case AST_EXPR_EMPTY:
+		/* the grammar doesn't allow for () or an empty production */
+		fprintf(f, "\"\"");
 		break;
 
 	case AST_EXPR_CONCAT: {
@@ -115,16 +117,12 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 
 	case AST_EXPR_ALT: {
 		size_t i;
-		unsigned empty_count;
+		size_t empty_count;
+		const char *sep;
 
 		/*
-		 * ABNF seems to provide no way to express an empty node;
-		 * there's no core rule for it, and the grammar does not allow
-		 * for () or an empty production.
-		 *
-		 * So here we have special handling; if we have empty alts,
-		 * the entire list is wrapped with [...] and we skip the nodes
-		 * when outputting the list.
+		 * If we have empty alts, the entire list is wrapped with [...]
+		 * and we skip the nodes when outputting the list.
 		 */
 
 		empty_count = 0;
@@ -134,20 +132,24 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 			}
 		}
 
+		if (empty_count == n->u.alt.count) {
+			fprintf(f, "\"\"");
+			break;
+		}
+
 		if (empty_count > 0) {
 			fprintf(f, "[ ");
 		}
 
+		sep = "";
 		for (i = 0; i < n->u.alt.count; i++) {
 			if (n->u.alt.n[i]->type != AST_EXPR_EMPTY) {
+				fprintf(f, "%s", sep);
 				pp_atomic(f, opt, re_flags, n->u.alt.n[i], n);
-			}
-
-			if (i + 1 < n->u.alt.count - empty_count) {
-				fprintf(f, " / "); /* XXX: indent */
+				sep = " / "; /* XXX: indent */
 			}
 		}
-		
+
 		if (empty_count > 0) {
 			fprintf(f, " ]");
 		}
-- 
2.43.0


From 87f3965809fa34e2216582bae22eee062e22c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 056/119] fix: case-insensitive characters when printing ABNF

---
 src/libre/print/abnf.c | 62 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/src/libre/print/abnf.c b/src/libre/print/abnf.c
index b8086bb..9ae522a 100644
--- a/src/libre/print/abnf.c
+++ b/src/libre/print/abnf.c
@@ -10,8 +10,11 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <ctype.h>
+#include <limits.h>
 #include <inttypes.h>
 
+#include <fsm/options.h>
+
 #include <re/re.h>
 
 #include <print/esc.h>
@@ -59,6 +62,53 @@ prec(const struct ast_expr *n)
 	}
 }
 
+/*
+ * A range of characters for RE_ICASE, which is more than one range
+ * when it covers part of the alphabet in one case only.
+ */
+static void
+print_icase(FILE *f, const struct fsm_options *opt, unsigned char from, unsigned char to)
+{
+	unsigned i, j;
+	const char *sep;
+
+	if (from == to && isalpha(from) && !opt->always_hex) {
+		/* a char-val is case-insensitive */
+		fprintf(f, "\"%c\"", from);
+		return;
+	}
+
+#define INCLUDED(c) \
+	(((c) >= from && (c) <= to) \
+	|| (tolower((int) (c)) >= from && tolower((int) (c)) <= to) \
+	|| (toupper((int) (c)) >= from && toupper((int) (c)) <= to))
+
+	fprintf(f, "(");
+
+	sep = "";
+	for (i = 0; i <= UCHAR_MAX; i = j + 1) {
+		j = i;
+
+		if (!INCLUDED(i)) {
+			continue;
+		}
+
+		while (j < UCHAR_MAX && INCLUDED(j + 1)) {
+			j++;
+		}
+
+		fprintf(f, "%s%%x%02X", sep, i);
+		if (j > i) {
+			fprintf(f, "-%02X", j);
+		}
+		sep = " / ";
+	}
+
+	fprintf(f, ")");
+
+#undef INCLUDED
+}
+
 static void
 pp_atomic(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags,
 	struct ast_expr *n, const struct ast_expr *parent)
@@ -158,6 +208,11 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 	}
 
 	case AST_EXPR_LITERAL:
+		if ((n->re_flags & RE_ICASE) && isalpha((unsigned char) n->u.literal.c)) {
+			print_icase(f, opt, (unsigned char) n->u.literal.c, (unsigned char) n->u.literal.c);
+			break;
+		}
+
 		abnf_escputc(f, opt, n->u.literal.c);
 		break;
 
@@ -238,6 +293,13 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 			break;
 		}
 
+		if (n->re_flags & RE_ICASE) {
+			print_icase(f, opt,
+				(unsigned char) n->u.range.from.u.literal.c,
+				(unsigned char) n->u.range.to.u.literal.c);
+			break;
+		}
+
 		fprintf(f, "%%x%02X-%02X",
 			(unsigned char) n->u.range.from.u.literal.c,
 			(unsigned char) n->u.range.to.u.literal.c);
-- 
2.43.0


From d2efaac9ea408d9c920d34cf0cbdb81ca6c90dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 057/119] fix: assertion on printing {1} and {0} as PCRE

---
 src/libre/print/pcre.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index f609449..6098c74 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -309,11 +309,9 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 			const char *op;
 		} a[] = {
 #define _ AST_COUNT_UNBOUNDED
-			{ 0, 0, NULL },
 			{ 0, _, "*"  },
 			{ 0, 1, "?"  },
-			{ 1, _, "+"  },
-			{ 1, 1, NULL }
+			{ 1, _, "+"  }
 #undef _
 		};
 
@@ -323,7 +321,6 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 
 		for (i = 0; i < sizeof a / sizeof *a; i++) {
 			if (a[i].m == n->u.repeat.min && a[i].n == n->u.repeat.max) {
-				assert(a[i].op != NULL);
 				fprintf(f, "%s", a[i].op);
 				break;
 			}
-- 
2.43.0


From b2df8462736e26e44cd47eb6e1f5bbc257a317c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 058/119] fix: print inline flags for PCRE in the form the
 parser accepts

---
 src/libre/print/pcre.c | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 6098c74..ece1208 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -61,15 +61,19 @@ prec(const struct ast_expr *n)
 	}
 }
 
+/*
+ * Each flag is given in its own group, because
+ * we don't accept several together when parsing.
+ */
 static void
-re_flags_print(FILE *f, enum re_flags fl)
+re_flags_print(FILE *f, const char *sign, enum re_flags fl)
 {
-	if (fl & RE_ICASE  ) { fprintf(f, "i"); }
-	if (fl & RE_TEXT   ) { fprintf(f, "g"); }
-	if (fl & RE_MULTI  ) { fprintf(f, "m"); }
-	if (fl & RE_REVERSE) { fprintf(f, "r"); }
-	if (fl & RE_SINGLE ) { fprintf(f, "s"); }
-	if (fl & RE_ZONE   ) { fprintf(f, "z"); }
+	if (fl & RE_ICASE  ) { fprintf(f, "(?%si)", sign); }
+	if (fl & RE_TEXT   ) { fprintf(f, "(?%sg)", sign); }
+	if (fl & RE_MULTI  ) { fprintf(f, "(?%sm)", sign); }
+	if (fl & RE_REVERSE) { fprintf(f, "(?%sr)", sign); }
+	if (fl & RE_SINGLE ) { fprintf(f, "(?%ss)", sign); }
+	if (fl & RE_ZONE   ) { fprintf(f, "(?%sz)", sign); }
 }
 
 enum {
@@ -254,13 +258,8 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 	}
 
 	if ((n->re_flags ^ *re_flags) & RE_FLAGS_PRINTABLE) {
-		fprintf(f, "(?");
-		re_flags_print(f, n->re_flags & ~*re_flags);
-		if (*re_flags & ~n->re_flags & RE_FLAGS_PRINTABLE) {
-			fprintf(f, "-");
-			re_flags_print(f, *re_flags & ~n->re_flags);
-		}
-		fprintf(f, ")");
+		re_flags_print(f, "", n->re_flags & ~*re_flags);
+		re_flags_print(f, "-", *re_flags & ~n->re_flags);
 		*re_flags &= ~(unsigned) RE_FLAGS_PRINTABLE;
 		*re_flags |= n->re_flags & RE_FLAGS_PRINTABLE;
 	}
-- 
2.43.0


From 7dba1154d168d584617c72ac8a5ea13f861dbc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 059/119] fix: range endpoints which need escaping when
 printing PCRE

---
 src/libre/print/pcre.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index ece1208..4b64510 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -92,12 +92,33 @@ print_literal(FILE *f, const struct fsm_options *opt, enum re_flags re_flags, ch
 	pcre_escputc(f, opt, c);
 }
 
+/*
+ * Inside a class "-" is special, and the escapes for
+ * these others aren't accepted as the end of a range.
+ */
+static void
+print_member(FILE *f, const struct fsm_options *opt, unsigned char c)
+{
+	switch (c) {
+	case '-':
+	case ')':
+	case ']':
+	case '}':
+		fprintf(f, "\\x%02x", c);
+		break;
+
+	default:
+		pcre_escputc(f, opt, (char) c);
+		break;
+	}
+}
+
 static void
 print_endpoint(FILE *f, const struct fsm_options *opt, const struct ast_endpoint *e)
 {
 	switch (e->type) {
 	case AST_ENDPOINT_LITERAL:
-		pcre_escputc(f, opt, e->u.literal.c);
+		print_member(f, opt, e->u.literal.c);
 		break;
 
 	case AST_ENDPOINT_CODEPOINT:
@@ -172,16 +193,6 @@ class_members(const struct ast_expr *n, unsigned char set[static UCHAR_MAX + 1])
 	}
 }
 
-static void
-print_member(FILE *f, const struct fsm_options *opt, unsigned char c)
-{
-	if (c == '-') {
-		fprintf(f, "\\x%02x", c);
-	} else {
-		pcre_escputc(f, opt, (char) c);
-	}
-}
-
 static void
 print_subtract(FILE *f, const struct fsm_options *opt, const struct ast_expr *n)
 {
-- 
2.43.0


From 548125884e17bfb000dfb5335b52ce4f0fd26a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 060/119] fix: idmap overruns its values when the greatest is a
 multiple of 64

The words for bits 0 to max_value were counted as if for max_value bits.
---
 src/adt/idmap.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/adt/idmap.c b/src/adt/idmap.c
index e3facfa..6242aa3 100644
--- a/src/adt/idmap.c
+++ b/src/adt/idmap.c
@@ -40,12 +40,8 @@ struct idmap {
 
 static unsigned
 value_words(unsigned max_value) {
-	if (max_value == 0) {
-		/* Still allocate one word, for storing 0. */
-		return 1;
-	} else {
-		return u64bitset_words(max_value);
-	}
+	/* bits 0 to max_value inclusive */
+	return max_value/64 + 1;
 }
 
 struct idmap *
-- 
2.43.0


From d5037b54a4508cb077300d7e9a371261a0be341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:10 +0000
Subject: [PATCH 061/119] fix: bitmaps count bits past the last symbol once
 inverted

The map was eight times too large, and bm_count() took the wrong sizeof.
---
 include/adt/bitmap.h | 2 +-
 src/adt/bitmap.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/adt/bitmap.h b/include/adt/bitmap.h
index 61c4f9a..ffede47 100644
--- a/include/adt/bitmap.h
+++ b/include/adt/bitmap.h
@@ -17,7 +17,7 @@ struct fsm_state;
 struct fsm_options;
 
 struct bm {
-	uint64_t map[(UCHAR_MAX + 1)/sizeof(uint64_t)];
+	uint64_t map[(UCHAR_MAX + 1)/(CHAR_BIT * sizeof(uint64_t))];
 };
 
 int
diff --git a/src/adt/bitmap.c b/src/adt/bitmap.c
index 1fb0160..e0792c0 100644
--- a/src/adt/bitmap.c
+++ b/src/adt/bitmap.c
@@ -82,7 +82,7 @@ bm_count(const struct bm *bm)
 
 	count = 0;
 
-	for (n = 0; n < sizeof(sizeof(bm->map)/sizeof(bm->map[0])); n++) {
+	for (n = 0; n < sizeof(bm->map)/sizeof(bm->map[0]); n++) {
 		count += u64bitset_popcount(bm->map[n]);
 	}
 
-- 
2.43.0


From 52014e57ce362a6ae26183558f690b99771f81c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 062/119] fix: tuple sets are freed by free(), not by their
 allocator

---
 src/adt/set.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adt/set.inc b/src/adt/set.inc
index 58f091f..827297d 100644
--- a/src/adt/set.inc
+++ b/src/adt/set.inc
@@ -169,7 +169,7 @@ set_free(struct set *set)
 	assert(set != NULL);
 	assert(set->a != NULL);
 
-	free(set->a);
-	free(set);
+	f_free(set->alloc, set->a);
+	f_free(set->alloc, set);
 }
 
-- 
2.43.0


From 377a835754d00f7157e9e169b583823e7e86b819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 063/119] fix: a machine which could not be made is used after
 it is freed

---
 src/libfsm/fsm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/fsm.c b/src/libfsm/fsm.c
index 866650a..4072795 100644
--- a/src/libfsm/fsm.c
+++ b/src/libfsm/fsm.c
@@ -94,17 +94,17 @@ fsm_new_statealloc(const struct fsm_alloc *alloc, size_t statealloc)
 	}
 
 	if (!fsm_endid_init(new)) {
+		fsm_capture_free(new);
 		f_free(new->alloc, new->states);
 		f_free(new->alloc, new);
-		fsm_capture_free(new);
 		return NULL;
 	}
 
 	if (!fsm_eager_output_init(new)) {
-		f_free(new->alloc, new->states);
-		f_free(new->alloc, new);
 		fsm_capture_free(new);
 		fsm_endid_free(new);
+		f_free(new->alloc, new->states);
+		f_free(new->alloc, new);
 		return NULL;
 	}
 
-- 
2.43.0


From f047dc99c9ffa96e488da846612940a7bfed5e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 064/119] fix: determinising after a failed allocation uses
 freed memory or leaks the DFA

---
 src/libfsm/determinise.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index a568c3c..e5b5242 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -30,6 +30,7 @@ fsm_determinise_with_config(struct fsm *nfa,
 	struct interned_state_set_pool *issp = NULL;
 	struct map map = { NULL, 0, 0, NULL };
 	struct mapping *curr = NULL;
+	struct fsm *dfa = NULL;
 	size_t dfacount = 0;
 	const size_t state_limit = config == NULL
 	    ? 0
@@ -193,7 +194,6 @@ fsm_determinise_with_config(struct fsm *nfa,
 	{
 		struct map_iter it;
 		struct mapping *m;
-		struct fsm *dfa;
 
 		dfa = fsm_new(nfa->alloc);
 		if (dfa == NULL) {
@@ -247,6 +247,9 @@ fsm_determinise_with_config(struct fsm *nfa,
 			 * states are end states.
 			 */
 			ss = interned_state_set_get_state_set(ac_env.issp, iss_id);
+			if (ss == NULL) {
+				goto cleanup;
+			}
 			if (!state_set_has(nfa, ss, fsm_isend)) {
 				continue;
 			}
@@ -274,6 +277,7 @@ fsm_determinise_with_config(struct fsm *nfa,
 		}
 
 		fsm_move(nfa, dfa);
+		dfa = NULL;
 	}
 
 #if EXPENSIVE_CHECKS
@@ -286,6 +290,9 @@ fsm_determinise_with_config(struct fsm *nfa,
 	res = FSM_DETERMINISE_WITH_CONFIG_OK;
 
 cleanup:
+	if (dfa != NULL) {
+		fsm_free(dfa);
+	}
 	map_free(&map);
 	stack_free(stack);
 	interned_state_set_pool_free(issp);
@@ -725,6 +732,7 @@ build_reverse_mappings(const struct map *map, struct interned_state_set_pool *is
 		interned_state_set_id iss_id = m->iss;
 		assert(m->dfastate < dst_dfa->statecount);
 		ss = interned_state_set_get_state_set(issp, iss_id);
+		if (ss == NULL) { goto cleanup; }
 
 		fsm_state_t state;
 		for (state_set_reset(ss, &si); state_set_next(&si, &state); ) {
@@ -908,6 +916,7 @@ analyze_closures__pairwise_grouping(struct analyze_closures_env *env,
 	INIT_TIMERS();
 	TIME(&pre);
 	struct state_set *ss = interned_state_set_get_state_set(env->issp, iss_id);
+	if (ss == NULL) { return 0; }
 	const size_t set_count = state_set_count(ss);
 
 #if LOG_DETERMINISE_STATE_SETS || LOG_GROUPING > 1
@@ -936,13 +945,13 @@ analyze_closures__pairwise_grouping(struct analyze_closures_env *env,
 		    env->pbuf[0],
 		    nceil * sizeof(env->pbuf[0]));
 		if (a == NULL) { return 0; }
+		env->pbuf[0] = a;
 		fsm_state_t *b = f_realloc(env->alloc,
 		    env->pbuf[1],
 		    nceil * sizeof(env->pbuf[1]));
 		if (b == NULL) { return 0; }
-		env->pbuf_ceil = nceil;
-		env->pbuf[0] = a;
 		env->pbuf[1] = b;
+		env->pbuf_ceil = nceil;
 	}
 
 	{
@@ -2619,7 +2628,7 @@ remap_eager_outputs(const struct map *map, struct interned_state_set_pool *issp,
 	struct map_iter iter;
 	for (struct mapping *b = map_first(map, &iter); b != NULL; b = map_next(&iter)) {
 		struct state_set *ss = interned_state_set_get_state_set(issp, b->iss);
-		assert(ss != NULL);
+		if (ss == NULL) { return 0; }
 
 		struct state_iter it;
 		fsm_state_t s;
-- 
2.43.0


From 560616d11362e51982c9b9750241bdfbd6e5ea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 065/119] fix: a pool of interned sets without its buffer after
 a failed allocation

---
 src/adt/internedstateset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adt/internedstateset.c b/src/adt/internedstateset.c
index 990d9c9..624c64c 100644
--- a/src/adt/internedstateset.c
+++ b/src/adt/internedstateset.c
@@ -84,7 +84,7 @@ interned_state_set_pool_alloc(const struct fsm_alloc *a)
 	if (sets == NULL) { goto cleanup; }
 
 	buf = f_malloc(a, DEF_BUF * sizeof(buf[0]));
-	if (sets == NULL) { goto cleanup; }
+	if (buf == NULL) { goto cleanup; }
 
 	buckets = f_malloc(a, DEF_BUCKETS * sizeof(buckets[0]));
 	if (buckets == NULL) { goto cleanup; }
-- 
2.43.0


From d657a2cd27d103e61d07ad7f6434b5f9164b6e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 066/119] fix: sets lose their only state, or leak, when they
 cannot grow

---
 src/adt/set.inc    |  1 +
 src/adt/stateset.c | 17 +++++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/adt/set.inc b/src/adt/set.inc
index 827297d..2cf6742 100644
--- a/src/adt/set.inc
+++ b/src/adt/set.inc
@@ -97,6 +97,7 @@ set_create(const struct fsm_alloc *a,
 
 	set->a = f_malloc(a, SET_INITIAL * sizeof *set->a);
 	if (set->a == NULL) {
+		f_free(a, set);
 		return NULL;
 	}
 
diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index 90a1fae..2084879 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -193,6 +193,7 @@ state_set_create(const struct fsm_alloc *a)
 
 	set->a = f_malloc(a, SET_INITIAL * sizeof *set->a);
 	if (set->a == NULL) {
+		f_free(a, set);
 		return NULL;
 	}
 
@@ -240,9 +241,15 @@ state_set_add(struct state_set **setp, const struct fsm_alloc *alloc,
 		a[0] = SINGLETON_DECODE(*setp);
 		a[1] = state;
 
-		*setp = NULL;
+		set = NULL;
+		if (!state_set_add_bulk(&set, alloc, a, sizeof a / sizeof *a)) {
+			state_set_free(set);
+			return 0;
+		}
 
-		return state_set_add_bulk(setp, alloc, a, sizeof a / sizeof *a);
+		*setp = set;
+
+		return 1;
 	}
 
 	set = *setp;
@@ -314,11 +321,13 @@ state_set_add_bulk(struct state_set **setp, const struct fsm_alloc *alloc,
 
 		prev = SINGLETON_DECODE(*setp);
 
-		*setp = state_set_create(alloc);
-		if (*setp == NULL) {
+		set = state_set_create(alloc);
+		if (set == NULL) {
 			return 0;
 		}
 
+		*setp = set;
+
 		assert(!IS_SINGLETON(*setp));
 
 		if (!state_set_add(setp, alloc, prev)) {
-- 
2.43.0


From edf7fabe0a4e30804b6c60c120321fab9c743574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 067/119] fix: consolidating and shuffling ignore failed
 allocations

---
 src/libfsm/consolidate.c | 7 +++++--
 src/libfsm/shuffle.c     | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/consolidate.c b/src/libfsm/consolidate.c
index 55c3bfd..ca303aa 100644
--- a/src/libfsm/consolidate.c
+++ b/src/libfsm/consolidate.c
@@ -133,8 +133,10 @@ fsm_consolidate(const struct fsm *src,
 				src->states[src_i].edges)) {
 				goto cleanup;
 			}
-			edge_set_compact(&dst->states[dst_i].edges,
-			    dst->alloc, mapping_cb, &closure);
+			if (!edge_set_compact(&dst->states[dst_i].edges,
+				dst->alloc, mapping_cb, &closure)) {
+				goto cleanup;
+			}
 
 			if (fsm_isend(src, src_i)) {
 				fsm_setend(dst, dst_i, 1);
@@ -170,6 +172,7 @@ fsm_consolidate(const struct fsm *src,
 cleanup:
 
 	if (seen != NULL) { f_free(src->alloc, seen); }
+	if (dst != NULL) { fsm_free(dst); }
 	return NULL;
 }
 
diff --git a/src/libfsm/shuffle.c b/src/libfsm/shuffle.c
index 0a7269d..c89bdec 100644
--- a/src/libfsm/shuffle.c
+++ b/src/libfsm/shuffle.c
@@ -74,6 +74,8 @@ fsm_shuffle(struct fsm *fsm, unsigned seed)
 	populate_mapping(mapping, state_count, (uint32_t)seed);
 
 	dst = fsm_consolidate(fsm, mapping, state_count);
+	if (dst == NULL) { goto cleanup; }
+
 	fsm_move(fsm, dst);
 	dst = NULL;
 
-- 
2.43.0


From af95d4b1b382dd4bb9c9df3cab34caa6f3a8fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 068/119] fix: compacting states ignores failed allocations

---
 src/libfsm/state.c | 21 ++++++++++++---------
 src/libfsm/trim.c  |  3 +++
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 36afe63..ab44df9 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -255,7 +255,10 @@ fsm_compact_states(struct fsm *fsm,
 #endif
 		state_set_compact(&s->epsilons, mapping_cb, mapping);
 		if (fsm->states[i].edges != NULL) {
-			edge_set_compact(&s->edges, fsm->alloc, mapping_cb, mapping);
+			if (!edge_set_compact(&s->edges, fsm->alloc, mapping_cb, mapping)) {
+				f_free(fsm->alloc, mapping);
+				return 0;
+			}
 		}
 	}
 
@@ -285,14 +288,6 @@ fsm_compact_states(struct fsm *fsm,
 		}
 	}
 
-	/* Remap end metadata */
-	if (!fsm_endid_compact(fsm, mapping, orig_statecount)) {
-		return 0;
-	}
-	if (!fsm_eager_output_compact(fsm, mapping, orig_statecount)) {
-		return 0;
-	}
-
 	assert(dst == kept);
 	assert(kept == fsm->statecount);
 
@@ -308,6 +303,14 @@ fsm_compact_states(struct fsm *fsm,
 #endif
 	}
 
+	/* Remap end metadata */
+	if (!fsm_endid_compact(fsm, mapping, orig_statecount)
+	 || !fsm_eager_output_compact(fsm, mapping, orig_statecount))
+	{
+		f_free(fsm->alloc, mapping);
+		return 0;
+	}
+
 	if (fsm->statecount < orig_statecount/2) {
 		/* todo: resize backing array, if significantly smaller? */
 	}
diff --git a/src/libfsm/trim.c b/src/libfsm/trim.c
index 9f8270e..3abf492 100644
--- a/src/libfsm/trim.c
+++ b/src/libfsm/trim.c
@@ -526,6 +526,9 @@ fsm_trim(struct fsm *fsm, enum fsm_trim_mode mode,
 	}
 
 	if (!mark_states(fsm, mode, sed)) {
+		for (i = 0; i < fsm->statecount; i++) {
+			fsm->states[i].visited = 0;
+		}
 		goto cleanup;
 	}
 
-- 
2.43.0


From f47cc48eadeb2adacc95da806d582d040c5fd38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 069/119] fix: epsilon closures ignore failed allocations

---
 src/libfsm/closure.c  | 18 ++++++++++++++----
 src/libfsm/epsilons.c |  3 +++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/closure.c b/src/libfsm/closure.c
index 165fa49..640d686 100644
--- a/src/libfsm/closure.c
+++ b/src/libfsm/closure.c
@@ -34,7 +34,7 @@ epsilon_closure_single(const struct fsm *fsm, struct state_set **closures, fsm_s
 
 	q = queue_new(fsm->alloc, fsm->statecount);
 	if (q == NULL) {
-		return 1;
+		return 0;
 	}
 
 	fsm->states[s].visited = 1;
@@ -142,9 +142,11 @@ epsilon_closure(const struct fsm *fsm)
 	}
 
 	for (s = 0; s < fsm->statecount; s++) {
-		fsm->states[s].visited = 0;
-
 		closures[s] = NULL;
+	}
+
+	for (s = 0; s < fsm->statecount; s++) {
+		fsm->states[s].visited = 0;
 
 		/*
 		 * In the simplest case of having no epsilon transitions, the
@@ -173,11 +175,19 @@ epsilon_closure(const struct fsm *fsm)
 			continue;
 		}
 
-		epsilon_closure_single(fsm, closures, s);
+		if (!epsilon_closure_single(fsm, closures, s)) {
+			goto error_visited;
+		}
 	}
 
 	return closures;
 
+error_visited:
+
+	for (s = 0; s < fsm->statecount; s++) {
+		fsm->states[s].visited = 0;
+	}
+
 error:
 
 	for (s = 0; s < fsm->statecount; s++) {
diff --git a/src/libfsm/epsilons.c b/src/libfsm/epsilons.c
index e22852b..c9ef80e 100644
--- a/src/libfsm/epsilons.c
+++ b/src/libfsm/epsilons.c
@@ -379,6 +379,9 @@ remap_capture_actions(struct fsm *nfa, struct state_set **eclosures)
 	 * It can't be added during the iteration, because that would
 	 * modify the hash table as it's being iterated over. */
 	fsm_capture_action_iter(nfa, remap_capture_action_cb, &env);
+	if (!env.ok) {
+		goto cleanup;
+	}
 
 	/* Now that we're done iterating, add those actions. */
 	for (i = 0; i < env.count; i++) {
-- 
2.43.0


From f597e9be2f83864272d8bec03716b890db94e584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 070/119] fix: the caller's machine is freed when it cannot be
 completed

---
 src/libfsm/complement.c | 1 -
 src/libfsm/complete.c   | 3 ---
 2 files changed, 4 deletions(-)

diff --git a/src/libfsm/complement.c b/src/libfsm/complement.c
index 53d61c0..492bc21 100644
--- a/src/libfsm/complement.c
+++ b/src/libfsm/complement.c
@@ -24,7 +24,6 @@ fsm_complement(struct fsm *fsm)
 
 	if (!fsm_all(fsm, fsm_iscomplete)) {
 		if (!fsm_complete(fsm, fsm_isany)) {
-			fsm_free(fsm);
 			return 0;
 		}
 	}
diff --git a/src/libfsm/complete.c b/src/libfsm/complete.c
index d74f4d6..baeb3f5 100644
--- a/src/libfsm/complete.c
+++ b/src/libfsm/complete.c
@@ -32,7 +32,6 @@ fsm_complete(struct fsm *fsm,
 
 	if (!fsm_all(fsm, fsm_isdfa)) {
 		if (!fsm_determinise(fsm)) {
-			fsm_free(fsm);
 			return 0;
 		}
 	}
@@ -53,7 +52,6 @@ fsm_complete(struct fsm *fsm,
 	}
 
 	if (!fsm_addedge_any(fsm, new, new)) {
-		/* TODO: free stuff */
 		return 0;
 	}
 
@@ -77,7 +75,6 @@ fsm_complete(struct fsm *fsm,
 		i = -1;
 		while (i = bm_next(&bm, i, 0), i <= UCHAR_MAX) {
 			if (!fsm_addedge_literal(fsm, s, new, (char)i)) {
-				/* TODO: free stuff */
 				return 0;
 			}
 		}
-- 
2.43.0


From a4bbf5d10da5473479a95c5be5e1a4f26c482c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 071/119] fix: a failed search for end states is reported as a
 non-empty machine

---
 src/libfsm/empty.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/empty.c b/src/libfsm/empty.c
index 7039215..f89dbd5 100644
--- a/src/libfsm/empty.c
+++ b/src/libfsm/empty.c
@@ -21,6 +21,7 @@ int
 fsm_empty(const struct fsm *fsm)
 {
 	fsm_state_t start;
+	int r;
 
 	assert(fsm != NULL);
 
@@ -34,10 +35,11 @@ fsm_empty(const struct fsm *fsm)
 	 * Note this includes the empty string (when the start state matches).
 	 */
 
-	if (fsm_reachableany(fsm, start, fsm_isend)) {
-		return 0;
+	r = fsm_reachableany(fsm, start, fsm_isend);
+	if (r == -1) {
+		return -1;
 	}
 
-	return 1;
+	return !r;
 }
 
-- 
2.43.0


From ad94a757f56cfdef1f3c3d24cbec3e09ff5c9365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 072/119] fix: comparing machines reports equality when it
 fails

---
 src/libfsm/equal.c | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/equal.c b/src/libfsm/equal.c
index 02489b0..1a9083c 100644
--- a/src/libfsm/equal.c
+++ b/src/libfsm/equal.c
@@ -115,9 +115,26 @@ subsetof(const struct fsm *a, const struct fsm *b)
 	return r;
 }
 
+/* a machine with no start state matches nothing */
+static int
+matches_nothing(const struct fsm *fsm)
+{
+	fsm_state_t start;
+
+	assert(fsm != NULL);
+
+	if (!fsm_getstart(fsm, &start)) {
+		return 1;
+	}
+
+	return fsm_empty(fsm);
+}
+
 int
 fsm_equal(const struct fsm *a, const struct fsm *b)
 {
+	int ea, eb, r;
+
 	assert(a != NULL);
 	assert(b != NULL);
 
@@ -126,8 +143,18 @@ fsm_equal(const struct fsm *a, const struct fsm *b)
 		return -1;
 	}
 
-	if (fsm_empty(a) && fsm_empty(b)) {
-		return 1;
+	ea = matches_nothing(a);
+	if (ea == -1) {
+		return -1;
+	}
+
+	eb = matches_nothing(b);
+	if (eb == -1) {
+		return -1;
+	}
+
+	if (ea || eb) {
+		return ea && eb;
 	}
 
 	/*
@@ -136,6 +163,11 @@ fsm_equal(const struct fsm *a, const struct fsm *b)
 	 * This is equivalent finding that (a \ b) \u (b \ a) is empty.
 	 */
 
-	return subsetof(a, b) && subsetof(b, a);
+	r = subsetof(a, b);
+	if (r != 1) {
+		return r;
+	}
+
+	return subsetof(b, a);
 }
 
-- 
2.43.0


From 036babed18b5cce7d9c3dddeb8ee63f61ba33fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 073/119] fix: a partly built IR is freed twice, or leaks

---
 src/libfsm/print/ir.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/libfsm/print/ir.c b/src/libfsm/print/ir.c
index 95faaf0..d56ae67 100644
--- a/src/libfsm/print/ir.c
+++ b/src/libfsm/print/ir.c
@@ -144,7 +144,6 @@ make_groups(const struct fsm *fsm, fsm_state_t state,
 
 		p = f_malloc(fsm->alloc, sizeof *p * (n - i)); /* worst case */
 		if (p == NULL) {
-			j++;
 			goto error;
 		}
 
@@ -166,7 +165,7 @@ make_groups(const struct fsm *fsm, fsm_state_t state,
 
 			tmp = f_realloc(fsm->alloc, p, sizeof *p * k);
 			if (tmp == NULL) {
-				j++;
+				f_free(fsm->alloc, p);
 				goto error;
 			}
 
@@ -399,7 +398,6 @@ make_state(const struct fsm *fsm, fsm_state_t state,
 	 * where holes tend to be mostly contigious.
 	 */
 	if (hole < max.n) {
-		cs->strategy = IR_ERROR;
 		cs->u.error.mode = groups[max.j].to;
 
 		f_free(fsm->alloc, (void *) groups[max.j].ranges);
@@ -415,6 +413,7 @@ make_state(const struct fsm *fsm, fsm_state_t state,
 			return -1;
 		}
 
+		cs->strategy = IR_ERROR;
 		cs->u.error.groups = groups;
 		cs->u.error.n = n;
 		return 0;
@@ -547,6 +546,9 @@ make_ir(const struct fsm *fsm, const struct fsm_options *opt)
 
 		ir->states[i].eager_outputs = NULL;
 
+		ir->states[i].example  = NULL;
+		ir->states[i].strategy = IR_NONE;
+
 		if (fsm_isend(fsm, i)) {
 			fsm_end_id_t *ids;
 			size_t count;
@@ -587,13 +589,11 @@ make_ir(const struct fsm *fsm, const struct fsm_options *opt)
 			goto error;
 		}
 
-		if (!opt->comments) {
-			ir->states[i].example = NULL;
-		} else {
+		if (opt->comments) {
 			char *example;
 
 			if (!make_example(fsm, i, &example)) {
-				goto error_example;
+				goto error;
 			}
 
 			ir->states[i].example = example;
@@ -624,13 +624,9 @@ empty:
 
 	return ir;
 
-error_example:
-
-	i++;
-
 error:
 
-	ir->n = i;
+	ir->n = i + 1;
 	free_ir(fsm, ir);
 
 	return NULL;
-- 
2.43.0


From de7994ef3555f772033aed590d3067feda7b72e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 074/119] fix: reversing ignores failed allocations, or leaves
 half of the edges reversed

---
 src/libfsm/reverse.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/libfsm/reverse.c b/src/libfsm/reverse.c
index c709373..85c63aa 100644
--- a/src/libfsm/reverse.c
+++ b/src/libfsm/reverse.c
@@ -117,17 +117,16 @@ fsm_reverse(struct fsm *fsm)
 		fsm_setstart(fsm, start);
 	}
 
+	epsilons = NULL;
+
 	edges = f_malloc(fsm->alloc, sizeof *edges * fsm->statecount);
 	if (edges == NULL) {
-		state_set_free(endset);
-		return 0;
+		goto error;
 	}
 
 	epsilons = f_malloc(fsm->alloc, sizeof *epsilons * fsm->statecount);
-	if (edges == NULL) {
-		state_set_free(endset);
-		f_free(fsm->alloc, edges);
-		return 0;
+	if (epsilons == NULL) {
+		goto error;
 	}
 
 	/*
@@ -172,7 +171,7 @@ fsm_reverse(struct fsm *fsm)
 				assert(e.state < fsm->statecount);
 
 				if (!edge_set_add(&edges[e.state], fsm->alloc, e.symbol, i)) {
-					return 0;
+					goto error1;
 				}
 			}
 		}
@@ -225,7 +224,7 @@ fsm_reverse(struct fsm *fsm)
 			}
 
 			if (!edge_set_copy(&edges[start], fsm->alloc, edges[s])) {
-				goto error;
+				goto error1;
 			}
 		}
 	}
@@ -285,16 +284,20 @@ error1:
 		fsm_state_t i;
 
 		for (i = 0; i < fsm->statecount; i++) {
-			state_set_free(fsm->states[i].epsilons);
-			edge_set_free(fsm->alloc, fsm->states[i].edges);
-
-			fsm->states[i].epsilons = epsilons[i];
-			fsm->states[i].edges = edges[i];
+			state_set_free(epsilons[i]);
+			edge_set_free(fsm->alloc, edges[i]);
 		}
 	}
 
 error:
 
+	/* the new start state was the last added, and has no edges */
+	if (fsm->endcount != 1) {
+		fsm->statecount--;
+	}
+
+	fsm_setstart(fsm, prevstart);
+
 	state_set_free(endset);
 
 	f_free(fsm->alloc, epsilons);
-- 
2.43.0


From cf3ff050555625752ddf1685266ecef04fc4a68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 075/119] fix: re_comp() asserts an error code which a failed
 allocation does not set

---
 src/libre/re.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/libre/re.c b/src/libre/re.c
index cb2340e..e7a950f 100644
--- a/src/libre/re.c
+++ b/src/libre/re.c
@@ -216,20 +216,15 @@ re_comp(enum re_dialect dialect, int (*getc)(void *opaque), void *opaque,
 	ast_free(ast);
 
 	if (new == NULL) {
-		/* XXX: this can happen e.g. on malloc failure */
-		assert(err == NULL || err->e != RE_ESUCCESS);
-		goto error;
-	}
-
-	return new;
-
-error:
+		/* this can happen e.g. on malloc failure */
+		if (err != NULL && err->e == RE_ESUCCESS) {
+			err->e = RE_EERRNO;
+		}
 
-	if (err != NULL) {
-		err->e = RE_EERRNO;
+		return NULL;
 	}
 
-	return NULL;
+	return new;
 }
 
 /*
-- 
2.43.0


From 932f6067b1a89cc4f6306031e20c4d142739dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:29 +0000
Subject: [PATCH 076/119] fix: combining machines asserts, or leaks, when an
 allocation fails

---
 src/libfsm/concat.c     |  7 +++-
 src/libfsm/merge.c      | 37 ++++++++++---------
 src/libfsm/union.c      | 81 ++++++++++++++++++++++++++++++-----------
 src/libre/ast_compile.c | 24 +++++++-----
 4 files changed, 100 insertions(+), 49 deletions(-)

diff --git a/src/libfsm/concat.c b/src/libfsm/concat.c
index 5be5487..38ce74b 100644
--- a/src/libfsm/concat.c
+++ b/src/libfsm/concat.c
@@ -54,6 +54,8 @@ fsm_concat(struct fsm *a, struct fsm *b,
 	}
 
 	if (!fsm_collate(a, &ea, fsm_isend)) {
+		fsm_free(a);
+		fsm_free(b);
 		return NULL;
 	}
 
@@ -69,8 +71,11 @@ fsm_concat(struct fsm *a, struct fsm *b,
 		}
 	}
 
+	/* on failure, this frees both */
 	q = fsm_merge(a, b, combine_info);
-	assert(q != NULL);
+	if (q == NULL) {
+		return NULL;
+	}
 
 	sq += combine_info->base_a;
 	ea += combine_info->base_a;
diff --git a/src/libfsm/merge.c b/src/libfsm/merge.c
index 267b5b1..645eba9 100644
--- a/src/libfsm/merge.c
+++ b/src/libfsm/merge.c
@@ -43,11 +43,17 @@ copy_end_ids(struct fsm *dst, struct fsm *src, fsm_state_t base_src);
 static int
 copy_eager_output_ids(struct fsm *dst, struct fsm *src, fsm_state_t base_src);
 
+/*
+ * This is destructive: on failure src is freed, and dst is of no use other
+ * than for the caller to free.
+ */
 static struct fsm *
 merge(struct fsm *dst, struct fsm *src,
 	fsm_state_t *base_dst, fsm_state_t *base_src,
 	unsigned *capture_base_dst, unsigned *capture_base_src)
 {
+	int ok;
+
 	assert(dst != NULL);
 	assert(src != NULL);
 	assert(base_src != NULL);
@@ -62,6 +68,7 @@ merge(struct fsm *dst, struct fsm *src,
 		 * or let realloc do that internally */
 		tmp = f_realloc(dst->alloc, dst->states, newalloc * sizeof *dst->states);
 		if (tmp == NULL) {
+			fsm_free(src);
 			return NULL;
 		}
 
@@ -107,20 +114,9 @@ merge(struct fsm *dst, struct fsm *src,
 	 * NULL pointers to `struct fsm_state` increases memory usage
 	 * significantly. */
 
-	if (!copy_capture_actions(dst, src)) {
-		/* non-recoverable -- destructive operation */
-		return NULL;
-	}
-
-	if (!copy_end_ids(dst, src, *base_src)) {
-		/* non-recoverable -- destructive operation */
-		return NULL;
-	}
-
-	if (!copy_eager_output_ids(dst, src, *base_src)) {
-		/* non-recoverable -- destructive operation */
-		return NULL;
-	}
+	ok = copy_capture_actions(dst, src)
+	  && copy_end_ids(dst, src, *base_src)
+	  && copy_eager_output_ids(dst, src, *base_src);
 
 	f_free(src->alloc, src->states);
 	src->states = NULL;
@@ -132,6 +128,11 @@ merge(struct fsm *dst, struct fsm *src,
 
 	fsm_free(src);
 
+	if (!ok) {
+		/* non-recoverable -- destructive operation */
+		return NULL;
+	}
+
 	return dst;
 }
 
@@ -254,14 +255,12 @@ fsm_mergeab(struct fsm *a, struct fsm *b,
 	}
 
 	/*
-	 * We merge b into a.
+	 * We merge b into a. On failure b is freed, a is for the caller to free.
 	 */
 
 	q = merge(a, b, &dummy, base_b,
 	    &capture_base_a, &capture_base_b);
 
-	assert(dummy == 0);
-
 	return q;
 }
 
@@ -308,5 +307,9 @@ fsm_merge(struct fsm *a, struct fsm *b,
 		    &combine_info->capture_base_a);
 	}
 
+	if (res == NULL) {
+		fsm_free(a_dst ? a : b);
+	}
+
 	return res;
 }
diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 0307f68..11fb387 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -89,18 +89,18 @@ struct analysis_info {
 	struct state_set *reachable_from_nonstart_state;
 };
 
-struct fsm *
-fsm_union(struct fsm *a, struct fsm *b,
-	struct fsm_combine_info *combine_info)
+/*
+ * On failure *consumed says if a and b have been freed.
+ */
+static struct fsm *
+union_pair(struct fsm *a, struct fsm *b,
+	struct fsm_combine_info *combine_info, int *consumed)
 {
 	struct fsm *q;
 	fsm_state_t sa, sb;
 	fsm_state_t sq;
-	struct fsm_combine_info combine_info_internal;
 
-	if (combine_info == NULL) {
-		combine_info = &combine_info_internal;
-	}
+	*consumed = 0;
 
 	memset(combine_info, 0x00, sizeof(*combine_info));
 
@@ -120,8 +120,13 @@ fsm_union(struct fsm *a, struct fsm *b,
 		return NULL;
 	}
 
+	*consumed = 1;
+
+	/* on failure, this frees both */
 	q = fsm_merge(a, b, combine_info);
-	assert(q != NULL);
+	if (q == NULL) {
+		return NULL;
+	}
 
 	sa += combine_info->base_a;
 	sb += combine_info->base_b;
@@ -162,6 +167,20 @@ error:
 	return NULL;
 }
 
+struct fsm *
+fsm_union(struct fsm *a, struct fsm *b,
+	struct fsm_combine_info *combine_info)
+{
+	struct fsm_combine_info combine_info_internal;
+	int consumed;
+
+	if (combine_info == NULL) {
+		combine_info = &combine_info_internal;
+	}
+
+	return union_pair(a, b, combine_info, &consumed);
+}
+
 struct fsm *
 fsm_union_array(size_t fsm_count,
     struct fsm **fsms, struct fsm_combined_base_pair *bases)
@@ -176,17 +195,23 @@ fsm_union_array(size_t fsm_count,
 
 	for (i = 1; i < fsm_count; i++) {
 		struct fsm_combine_info ci;
-		struct fsm *combined = fsm_union(res, fsms[i], &ci);
-		fsms[i] = NULL;
+		int consumed;
+		struct fsm *combined = union_pair(res, fsms[i], &ci, &consumed);
 		if (combined == NULL) {
-			while (i < fsm_count) {
+			if (!consumed) {
+				fsm_free(res);
+				fsm_free(fsms[i]);
+			}
+			fsms[i] = NULL;
+
+			while (++i < fsm_count) {
 				fsm_free(fsms[i]);
-				i++;
+				fsms[i] = NULL;
 			}
 
-			fsm_free(res);
 			return NULL;
 		}
+		fsms[i] = NULL;
 
 		res = combined;
 
@@ -344,7 +369,7 @@ analyze_group_nfa(const struct fsm *nfa, struct analysis_info *ainfo)
 			if (eps_i == s_i) { continue; }
 
 			if (!state_set_add(&ainfo->reachable_from_nonstart_state, nfa->alloc, eps_i)) {
-				return false;
+				goto alloc_fail;
 			}
 		}
 
@@ -356,7 +381,7 @@ analyze_group_nfa(const struct fsm *nfa, struct analysis_info *ainfo)
 			if (info.to == s_i) { continue; }
 
 			if (!state_set_add(&ainfo->reachable_from_nonstart_state, nfa->alloc, info.to)) {
-				return false;
+				goto alloc_fail;
 			}
 		}
 	}
@@ -504,6 +529,7 @@ replace_labeled_edge(struct fsm *nfa, fsm_state_t from_state, fsm_state_t old_to
 		if (info.to == old_to) { *found = true; }
 		if (!edge_set_add_bulk(&new_edges, nfa->alloc, info.symbols,
 			info.to == old_to ? new_to : info.to)) {
+			edge_set_free(nfa->alloc, new_edges);
 			return false;
 		}
 	}
@@ -707,8 +733,8 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 	const struct fsm_alloc *alloc = nfas[0]->alloc;
 	const bool log = 0 || LOG_UNION_REPEATED_PATTERN_GROUP;
 
-	struct analysis_info *ainfos = f_calloc(alloc, nfa_count, sizeof(ainfos[0]));
-	if (ainfos == NULL) { goto fail; }
+	struct analysis_info *ainfos = NULL;
+	struct fsm *res = NULL;
 
 	size_t est_total_states = 0;
 	for (size_t i = 0; i < nfa_count; i++) {
@@ -731,6 +757,9 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 		est_total_states += count;
 	}
 
+	ainfos = f_calloc(alloc, nfa_count, sizeof(ainfos[0]));
+	if (ainfos == NULL) { goto fail; }
+
 	for (size_t i = 0; i < nfa_count; i++) {
 		struct fsm *fsm = nfas[i];
 
@@ -766,8 +795,8 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 
 	est_total_states += 5;	/* new start and end, new unanchored start and end loops */
 
-	struct fsm *res = fsm_new_statealloc(alloc, est_total_states);
-	if (res == NULL) { return NULL; }
+	res = fsm_new_statealloc(alloc, est_total_states);
+	if (res == NULL) { goto fail; }
 
 	/* The new overall start state */
 	fsm_state_t global_start;
@@ -808,6 +837,7 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 		/* Call fsm_merge; the argument order shouldn't matter. */
 		struct fsm_combine_info combine_info;
 		struct fsm *merged = fsm_merge(res, fsm, &combine_info);
+		res = merged;
 		if (merged == NULL) { goto fail; }
 
 		if (log) {
@@ -929,8 +959,6 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 				    global_unanchored_start_loop, ainfo->unanchored_start_loop);
 			}
 		}
-
-		res = merged;
 	}
 
 	/* Link the global start to the global unanchored start loop and anchored start states. */
@@ -995,5 +1023,16 @@ fail:
 		f_free(alloc, ainfos);
 	}
 
+	if (res != NULL) {
+		fsm_free(res);
+	}
+
+	for (size_t i = 0; i < nfa_count; i++) {
+		if (nfas[i] != NULL) {
+			fsm_free(nfas[i]);
+			nfas[i] = NULL;
+		}
+	}
+
 	return NULL;
 }
diff --git a/src/libre/ast_compile.c b/src/libre/ast_compile.c
index 5d31ef0..df9c429 100644
--- a/src/libre/ast_compile.c
+++ b/src/libre/ast_compile.c
@@ -134,6 +134,7 @@ error:
 }
 
 /* TODO: centralise as fsm_unionxy() perhaps */
+/* This frees b, on failure too. */
 static int
 fsm_unionxy(struct fsm *a, struct fsm *b, fsm_state_t x, fsm_state_t y)
 {
@@ -149,15 +150,10 @@ fsm_unionxy(struct fsm *a, struct fsm *b, fsm_state_t x, fsm_state_t y)
 	assert(x < a->statecount);
 	assert(y < a->statecount);
 
-	if (!fsm_getstart(a, &sa)) {
-		return 0;
-	}
-
-	if (!fsm_getstart(b, &sb)) {
-		return 0;
-	}
-
-	if (!fsm_collate(b, &end, fsm_isend)) {
+	if (!fsm_getstart(a, &sa)
+	 || !fsm_getstart(b, &sb)
+	 || !fsm_collate(b, &end, fsm_isend)) {
+		fsm_free(b);
 		return 0;
 	}
 
@@ -909,6 +905,7 @@ comp_iter(struct comp_env *env,
 	case AST_EXPR_SUBTRACT: {
 		struct fsm *a, *b;
 		struct fsm *q;
+		int empty;
 		enum re_flags re_flags;
 
 		re_flags = n->re_flags;
@@ -931,6 +928,8 @@ comp_iter(struct comp_env *env,
 
 		q = fsm_subtract(a, b);
 		if (q == NULL) {
+			fsm_free(a);
+			fsm_free(b);
 			return 0;
 		}
 
@@ -941,7 +940,12 @@ comp_iter(struct comp_env *env,
 		 * overall or not.
 		 */
 
-		if (fsm_empty(q)) {
+		empty = fsm_empty(q);
+		if (empty) {
+			fsm_free(q);
+			if (empty == -1) {
+				return 0;
+			}
 			EPSILON(x, y);
 			break;
 		}
-- 
2.43.0


From 7fec2ae51f0004496e1cbda57237f45f4a264a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 077/119] fix: eager outputs of renumbered states after a
 failed allocation

---
 src/libfsm/eager_output.c | 9 +++++++++
 src/libfsm/state.c        | 9 ++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/eager_output.c b/src/libfsm/eager_output.c
index adb31e3..3561676 100644
--- a/src/libfsm/eager_output.c
+++ b/src/libfsm/eager_output.c
@@ -396,6 +396,15 @@ fsm_eager_output_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_c
 	struct eager_output_bucket *nbuckets = f_calloc(fsm->alloc,
 	    eoi->htab.bucket_count, sizeof(nbuckets[0]));
 	if (nbuckets == NULL) {
+		/* The states have been renumbered, so the outputs are lost. */
+		for (size_t ob_i = 0; ob_i < eoi->htab.bucket_count; ob_i++) {
+			f_free(fsm->alloc, eoi->htab.buckets[ob_i].entry);
+			eoi->htab.buckets[ob_i].entry = NULL;
+		}
+		eoi->htab.buckets_used = 0;
+		for (size_t i = 0; i < fsm->statecount; i++) {
+			fsm->states[i].has_eager_outputs = 0;
+		}
 		return 0;
 	}
 
diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index ab44df9..27b8269 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -206,6 +206,7 @@ fsm_compact_states(struct fsm *fsm,
 {
 	fsm_state_t i, old_start = FSM_STATE_REMAP_NO_STATE;
 	fsm_state_t dst;
+	int ok;
 	size_t kept, removed_count;
 	const fsm_state_t orig_statecount = fsm->statecount;
 
@@ -304,9 +305,11 @@ fsm_compact_states(struct fsm *fsm,
 	}
 
 	/* Remap end metadata */
-	if (!fsm_endid_compact(fsm, mapping, orig_statecount)
-	 || !fsm_eager_output_compact(fsm, mapping, orig_statecount))
-	{
+	ok = fsm_endid_compact(fsm, mapping, orig_statecount);
+	if (!fsm_eager_output_compact(fsm, mapping, orig_statecount)) {
+		ok = 0;
+	}
+	if (!ok) {
 		f_free(fsm->alloc, mapping);
 		return 0;
 	}
-- 
2.43.0


From 5c5dc7bf00d29d4ac4bc7b4580921dcd8b20d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:11 +0000
Subject: [PATCH 078/119] fix: leaks of sets and ids when intersecting or
 printing fails

---
 src/libfsm/charset.c    | 2 +-
 src/libfsm/print/dot.c  | 3 +++
 src/libfsm/print/json.c | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/charset.c b/src/libfsm/charset.c
index 3f987ea..f9b6f84 100644
--- a/src/libfsm/charset.c
+++ b/src/libfsm/charset.c
@@ -73,7 +73,7 @@ fsm_intersect_charset(struct fsm *a, size_t n, const char *charset)
 	 */
 	q = fsm_walk2(a, b, FSM_WALK2_BOTH, FSM_WALK2_BOTH);
 	if (q == NULL) {
-		return NULL;
+		goto error;
 	}
 
 	fsm_free(a);
diff --git a/src/libfsm/print/dot.c b/src/libfsm/print/dot.c
index 69cce10..213332f 100644
--- a/src/libfsm/print/dot.c
+++ b/src/libfsm/print/dot.c
@@ -136,6 +136,7 @@ print_state(FILE *f,
 
 	for (edge_set_reset(fsm->states[s].edges, &it); edge_set_next(&it, &e); ) {
 		if (!state_set_add(&unique, fsm->alloc, e.state)) {
+			state_set_free(unique);
 			return -1;
 		}
 	}
@@ -267,6 +268,7 @@ print_dotfrag(FILE *f,
 				&state_metadata,
 				default_accept, &s))
 			{
+				f_free(fsm->alloc, ids);
 				return -1;
 			}
 
@@ -276,6 +278,7 @@ print_dotfrag(FILE *f,
 				if (-1 == print_hook_comment(f, opt, hooks,
 					&state_metadata))
 				{
+					f_free(fsm->alloc, ids);
 					return -1;
 				}
 			}
diff --git a/src/libfsm/print/json.c b/src/libfsm/print/json.c
index b1e9f0c..b350c8d 100644
--- a/src/libfsm/print/json.c
+++ b/src/libfsm/print/json.c
@@ -149,6 +149,7 @@ print_state(FILE *f, const struct fsm_options *opt, const struct fsm *fsm,
 
 	for (edge_set_reset(fsm->states[s].edges, &it); edge_set_next(&it, &e); ) {
 		if (!state_set_add(&unique, fsm->alloc, e.state)) {
+			state_set_free(unique);
 			return -1;
 		}
 	}
@@ -289,6 +290,7 @@ fsm_print_json(FILE *f,
 				&state_metadata,
 				NULL, NULL))
 			{
+				f_free(fsm->alloc, ids);
 				return -1;
 			}
 
-- 
2.43.0


From 52504e05530072df53cc61addb755ac329050e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:37 +0000
Subject: [PATCH 079/119] fix: the minimisation oracle overruns its groups when
 every state has its own

---
 src/libfsm/minimise_test_oracle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/minimise_test_oracle.c b/src/libfsm/minimise_test_oracle.c
index 65bd3b4..1d8baaa 100644
--- a/src/libfsm/minimise_test_oracle.c
+++ b/src/libfsm/minimise_test_oracle.c
@@ -135,7 +135,7 @@ fsm_minimise_test_oracle(const struct fsm *fsm)
 	end_md_group_assignments = calloc(state_count, sizeof(tmp_map[0]));
 	if (end_md_group_assignments == NULL) { goto cleanup; }
 
-	end_md_group_leaders = calloc(state_count, sizeof(tmp_map[0]));
+	end_md_group_leaders = calloc(state_count + 1 /* group 0 */, sizeof(tmp_map[0]));
 	if (end_md_group_leaders == NULL) { goto cleanup; }
 
 	/* macros for NxN bit table */
-- 
2.43.0


From 2dba1d44d60a94bd6c0c580a1858dc9a32a2ad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:51 +0000
Subject: [PATCH 080/119] fix: fsm -x matches the first file only

---
 src/fsm/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index f9d1bb3..7394495 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -738,7 +738,7 @@ main(int argc, char *argv[])
 			if (xfiles) {
 				FILE *f;
 
-				f = xopen(argv[0]);
+				f = xopen(argv[i]);
 
 				e = fsm_exec(fsm, fsm_fgetc, f, &state, NULL);
 
-- 
2.43.0


From a45dc6e10336bbcc7af7f8c3dd66f75f5b4e1ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:51 +0000
Subject: [PATCH 081/119] fix: fsm -G exits 1 on success, and asserts for an
 NFA

---
 src/fsm/main.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index 7394495..9fabcf0 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -770,7 +770,15 @@ main(int argc, char *argv[])
 	}
 
 	if (generate_bounds > 0) {
-		r = fsm_generate_matches(fsm, generate_bounds, 0, fsm_generate_cb_printf_escaped, &opt);
+		if (!fsm_all(fsm, fsm_isdfa)) {
+			fprintf(stderr, "-G requires a DFA\n");
+			exit(EXIT_FAILURE);
+		}
+
+		if (!fsm_generate_matches(fsm, generate_bounds, 0, fsm_generate_cb_printf_escaped, &opt)) {
+			perror("fsm_generate_matches");
+			exit(EXIT_FAILURE);
+		}
 	}
 
 	fsm_free(fsm);
-- 
2.43.0


From 38acbe3976d20547eb000ae50d6f0784029eec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:51 +0000
Subject: [PATCH 082/119] fix: assertions for queries on machines with no
 states

---
 src/fsm/main.c       | 4 +++-
 src/libfsm/closure.c | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index 9fabcf0..ed7a71b 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -696,8 +696,10 @@ main(int argc, char *argv[])
 			if (res == FSM_DETECT_REQUIRED_CHARACTERS_STEP_LIMIT_REACHED) {
 				fprintf(stderr, "fsm_detect_required_characters: step limit reached (%zd)\n", step_limit);
 				exit(EXIT_FAILURE);
+			} else if (res != FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN) {
+				fprintf(stderr, "fsm_detect_required_characters: failed\n");
+				exit(EXIT_FAILURE);
 			} else {
-				assert(res == FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN);
 				char buf[257] = {0};
 				size_t used = 0;
 				for (size_t i = 0; i < 256; i++) {
diff --git a/src/libfsm/closure.c b/src/libfsm/closure.c
index 640d686..3c6d981 100644
--- a/src/libfsm/closure.c
+++ b/src/libfsm/closure.c
@@ -134,9 +134,9 @@ epsilon_closure(const struct fsm *fsm)
 	fsm_state_t s;
 
 	assert(fsm != NULL);
-	assert(fsm->statecount > 0);
 
-	closures = f_malloc(fsm->alloc, fsm->statecount * sizeof *closures);
+	/* +1 for an fsm with no states, which has no closures but isn't an error */
+	closures = f_malloc(fsm->alloc, (fsm->statecount + 1) * sizeof *closures);
 	if (closures == NULL) {
 		return NULL;
 	}
-- 
2.43.0


From 1cbaf4971a450147277a572a641a8e346c39e40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:51 +0000
Subject: [PATCH 083/119] fix: assertion for re -uz when several patterns match

---
 src/re/main.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/re/main.c b/src/re/main.c
index 9059af9..784ec3a 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -1150,12 +1150,15 @@ main(int argc, char *argv[])
 				}
 
 				if (patterns) {
-					fsm_end_id_t ids[1];
+					fsm_end_id_t *ids;
 					size_t count, i;
 					int res;
 
+					/* more than one under -u */
 					count = fsm_endid_count(fsm, state);
-					assert(count == 1);
+					assert(count >= 1);
+
+					ids = xmalloc(count * sizeof *ids);
 
 					res = fsm_endid_get(fsm, state, count, ids);
 					assert(res == 1);
@@ -1164,6 +1167,8 @@ main(int argc, char *argv[])
 						/* TODO: print nicely */
 						printf("match: /%s/\n", matchv[ids[i]]);
 					}
+
+					free(ids);
 				}
 			}
 		}
-- 
2.43.0


From 543138473a1cfcca38e3dc011393e9f3d35eb7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:51 +0000
Subject: [PATCH 084/119] fix: re -z names the wrong patterns when they are
 followed by --

---
 src/re/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/re/main.c b/src/re/main.c
index 784ec3a..837b6a8 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -817,6 +817,8 @@ main(int argc, char *argv[])
 
 	fsm_to_cleanup = fsm;
 
+	matchv = argv;
+
 	{
 		int i;
 
@@ -925,7 +927,6 @@ main(int argc, char *argv[])
 			}
 		}
 
-		matchv = argv;
 		matchc = i;
 
 		argc -= i;
-- 
2.43.0


From 89ce0cffcca5558f1891d8a0feb35cd1d44b5bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 085/119] fix: assertion printing a Go fragment for an IO API
 it has not got

---
 src/libfsm/print/go.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index 44c4a16..9d7dda4 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -380,6 +380,11 @@ fsm_print_go(FILE *f,
 	assert(hooks != NULL);
 	assert(retlist != NULL);
 
+	if (opt->io != FSM_IO_STR && opt->io != FSM_IO_PAIR) {
+		errno = ENOTSUP;
+		return -1;
+	}
+
 	if (opt->prefix != NULL) {
 		prefix = opt->prefix;
 	} else {
-- 
2.43.0


From 2b549fbcd13ef623a81709b489fe1372c178ec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 086/119] fix: the Go return type for multiple ids goes to
 stdout

---
 src/libfsm/print/go.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index 9d7dda4..d65ac96 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -453,7 +453,7 @@ fsm_print_go(FILE *f,
 			break;
 
 		case AMBIG_MULTIPLE:
-			fprintf(stdout, "(bool, []uint)");
+			fprintf(f, "(bool, []uint)");
 			break;
 
 		default:
-- 
2.43.0


From e177f1fcc8d2422e8bcae1554e556c1e6d45cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:29 +0000
Subject: [PATCH 087/119] fix: lx gives UNKNOWN after trailing input skipped by
 the last rule

---
 src/lx/print/c.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 3340f0d..dce760f 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -175,6 +175,9 @@ endid_represents_dead_end(fsm_end_id_t endid, const struct ast *ast)
 	 * prohibitively expensive, then build a bitset of dead-end IDs upfront
 	 * in one pass. */
 	for (struct ast_zone *z = ast->zl; z != NULL; z = z->next) {
+		/* there's nothing to be in the middle of outside of a pattern pair */
+		if (z == ast->global) { continue; }
+
 		if (z->ml == m) { return true; }
 	}
 
-- 
2.43.0


From 453a26fdd09648cdd0e5eace6754e53ffad3f9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:29 +0000
Subject: [PATCH 088/119] fix: lexers give back a character they have not read,
 at the end of input

---
 src/lx/print/c.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index dce760f..406b0de 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -314,7 +314,24 @@ reject_c(FILE *f, const struct fsm_options *opt,
 	} else {
 		fprintf(f, "\n\t\t\t\tif (!has_consumed_input) { return %sEOF; }\n", prefix.tok);
 		fprintf(f, "\t\t\t\t");
+
+		/* there is no character to give back at the end of the input */
+		switch (opt->io) {
+		case FSM_IO_GETC:
+			fprintf(f, "if (c != EOF) { ");
+			break;
+
+		case FSM_IO_STR:
+			fprintf(f, "if (*p != '\\0') { ");
+			break;
+
+		case FSM_IO_PAIR:
+			fprintf(f, "if (p != e) { ");
+			break;
+		}
+
 		unget_character(f, false, env->cur_char_var);
+		fprintf(f, "} ");
 	}
 
 	/* XXX: don't need this if complete */
-- 
2.43.0


From f2109ef600bb8237e801d262ecd4ea3f95e7f3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:06 +0000
Subject: [PATCH 089/119] fix: lx assertion for an undefined variable inside a
 zone

---
 src/lx/parser.act | 2 +-
 src/lx/parser.c   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 0db0c3b..9546d7f 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -286,7 +286,7 @@
 				break;
 			}
 
-			if (@z->parent == NULL) {
+			if (z->parent == NULL) {
 				/* TODO: use *err */
 				err(lex_state, "No such variable: %s", @s);
 				@!;
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 4ab69ce..0a449b1 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -227,7 +227,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 				break;
 			}
 
-			if ((ZIz)->parent == NULL) {
+			if (z->parent == NULL) {
 				/* TODO: use *err */
 				err(lex_state, "No such variable: %s", (ZIn));
 				goto ZL1;
@@ -3224,7 +3224,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				break;
 			}
 
-			if ((*ZIz)->parent == NULL) {
+			if (z->parent == NULL) {
 				/* TODO: use *err */
 				err(lex_state, "No such variable: %s", (*ZIn));
 				goto ZL1;
-- 
2.43.0


From 8d1cc651776b761a6adc3b0e6919b565054fe529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:06 +0000
Subject: [PATCH 090/119] fix: lx uses an uninitialised AST when the first
 token is unrecognised

---
 src/lx/parser.act | 2 ++
 src/lx/parser.c   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 9546d7f..6ef4da3 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -855,6 +855,8 @@
 			act_state->zn = 0;
 		}
 
+		ast = NULL;
+
 		ADVANCE_LEXER;	/* XXX: what if the first token is unrecognised? */
 		p_lx(lex_state, act_state, &ast);
 
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 0a449b1..c62285a 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -3338,6 +3338,8 @@ ZL1:;
 			act_state->zn = 0;
 		}
 
+		ast = NULL;
+
 		ADVANCE_LEXER;	/* XXX: what if the first token is unrecognised? */
 		p_lx(lex_state, act_state, &ast);
 
-- 
2.43.0


From 0b355c1a26eb836841b35d3c31f8fb774d8657ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:06 +0000
Subject: [PATCH 091/119] fix: lx overflows a buffer for patterns over 512
 characters

---
 src/lx/parser.act | 6 +++++-
 src/lx/parser.c   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 6ef4da3..940d476 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -245,7 +245,11 @@
 %actions%
 
 	<pattern-char>: (c :char) -> () = @{
-		/* TODO */
+		if (lex_state->p == lex_state->a + sizeof lex_state->a) {
+			err(lex_state, "Pattern too long");
+			exit(EXIT_FAILURE);
+		}
+
 		*lex_state->p++ = @c;
 	@};
 
diff --git a/src/lx/parser.c b/src/lx/parser.c
index c62285a..e073b68 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -1079,7 +1079,11 @@ ZL2_pattern_C_Cbody:;
 			{
 #line 247 "src/lx/parser.act"
 
-		/* TODO */
+		if (lex_state->p == lex_state->a + sizeof lex_state->a) {
+			err(lex_state, "Pattern too long");
+			exit(EXIT_FAILURE);
+		}
+
 		*lex_state->p++ = (ZIc);
 	
 #line 1086 "src/lx/parser.c"
-- 
2.43.0


From 2e2b28265520a496a92fd4d5081c638aa3db47ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:06 +0000
Subject: [PATCH 092/119] fix: lx assertions for patterns matching nothing, and
 zones with no mappings

---
 src/lx/main.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lx/main.c b/src/lx/main.c
index 92098bf..e69eca2 100644
--- a/src/lx/main.c
+++ b/src/lx/main.c
@@ -385,7 +385,7 @@ zone_minimise(void *arg)
 
 			assert(m->fsm != NULL);
 
-			if (!keep_nfa) {
+			if (!keep_nfa && fsm_getstart(m->fsm, &ms)) {
 				if (!fsm_determinise(m->fsm)) {
 					pthread_mutex_lock(&zmtx);
 					zerror = errno;
@@ -400,6 +400,13 @@ zone_minimise(void *arg)
 				}
 			}
 
+			/* This pattern matches nothing, so the mapping is never reached */
+			if (!fsm_getstart(m->fsm, &ms)) {
+				fsm_free(m->fsm);
+				m->fsm = NULL;
+				continue;
+			}
+
 			/* Attach this mapping to each end state for this FSM */
 			if (LOG()) {
 				fprintf(stderr, "zone_minimise: ast_setendmapping(m->fsm, m: %p)\n",
@@ -884,7 +891,11 @@ main(int argc, char *argv[])
 			fsm_state_t start;
 
 			assert(z->fsm != NULL);
-			assert(z->ml  != NULL);
+
+			if (z->ml == NULL) {
+				fprintf(stderr, "zone has no mappings\n");
+				return EXIT_FAILURE;
+			}
 
 			if (print_progress) {
 				if (important(zn)) {
-- 
2.43.0


From 77f098dec9825da1876bdce98183b0f4824dd19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 093/119] fix: lexers pop a token buffer of the wrong kind, or
 when none is set

---
 src/lx/print/c.c | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 406b0de..f56d053 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -136,26 +136,20 @@ shortest_example(const struct fsm *fsm, const struct ast_token *token,
 	return 1;
 }
 
-static const char *
-buf_op_prefix(void)
-{
-	if (api_tokbuf & API_FIXEDBUF) {
-		return "fixed";
-	} else if (api_tokbuf & API_DYNBUF) {
-		return "dyn";
-	} else {
-		assert(!"buf is neither fixed nor dyn");
-		return NULL;
-	}
-}
-
 static void
 unget_character(FILE *f, bool pop, const char *cur_char_var)
 {
 	fprintf(f, "%sungetc(lx, %s); ", prefix.api, cur_char_var);
 	if (pop && (~api_exclude & API_BUF)) {
-		fprintf(f, "%s%spop(lx->buf_opaque); ",
-		    prefix.api, buf_op_prefix());
+		/* the lexer's user may have set either kind of buffer, or none */
+		if (api_tokbuf & API_FIXEDBUF) {
+			fprintf(f, "if (lx->push == %sfixedpush) { %sfixedpop(lx->buf_opaque); } ",
+			    prefix.api, prefix.api);
+		}
+		if (api_tokbuf & API_DYNBUF) {
+			fprintf(f, "if (lx->push == %sdynpush) { %sdynpop(lx->buf_opaque); } ",
+			    prefix.api, prefix.api);
+		}
 	}
 }
 
@@ -1242,7 +1236,8 @@ lx_print_c(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		if (~api_exclude & API_BUF) {
 			if (api_tokbuf & API_FIXEDBUF) {
 				fprintf(f, "\t(void)%sfixedpop;\n", prefix.api);
-			} else if (api_tokbuf & API_DYNBUF) {
+			}
+			if (api_tokbuf & API_DYNBUF) {
 				fprintf(f, "\t(void)%sdynpop;\n", prefix.api);
 			}
 		}
-- 
2.43.0


From 0eaade132ee1818d520c226e840b36e9caf47248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 094/119] fix: dgetc gives EOF for byte 0xff

---
 src/lx/print/c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index f56d053..96d75af 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -509,7 +509,7 @@ print_lgetc(FILE *f, const struct fsm_options *opt)
 		fprintf(f, "\t\td->len = r;\n");
 		fprintf(f, "\t}\n");
 		fprintf(f, "\n");
-		fprintf(f, "\treturn d->len--, *d->p++;\n");
+		fprintf(f, "\treturn d->len--, (unsigned char) *d->p++;\n");
 		fprintf(f, "}\n");
 		fprintf(f, "\n");
 	}
-- 
2.43.0


From 83da3fea654b71c6bb8c19a12d9faff85d5b91f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 095/119] fix: token buffers are never filled for strings and
 pairs without positions

---
 src/lx/print/c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 96d75af..85fc087 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -359,7 +359,7 @@ advance_c(FILE *f, const struct fsm_options *opt, const char *cur_char_var, void
 	case FSM_IO_PAIR:
 		/* When libfsm's generated code advances a character, update
 		 * lx's token name buffer and position bookkeeping. */
-		if (~api_exclude & API_POS) {
+		if ((~api_exclude & API_POS) || (~api_exclude & API_BUF)) {
 			fprintf(f, "\t\tif (!%sadvance_end(lx, %s)) { return %sERROR; }\n",
 			    prefix.api, cur_char_var, prefix.tok);
 		}
@@ -522,7 +522,7 @@ print_io(FILE *f, const struct fsm_options *opt)
 		fprintf(stderr, " io");
 	}
 
-	if (opt->io == FSM_IO_GETC || (~api_exclude & API_POS)) {
+	if (opt->io == FSM_IO_GETC || (~api_exclude & API_POS) || (~api_exclude & API_BUF)) {
 		fprintf(f, "static int\n");
 		fprintf(f, "%sadvance_end(struct %slx *lx, int c)\n", prefix.api, prefix.lx);
 		fprintf(f, "{\n");
-- 
2.43.0


From 90807ee58e41e32f053d9a1f2398f359a75e8737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 096/119] fix: lx examples are all empty strings

---
 src/lx/print/c.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 85fc087..07d104a 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -1080,15 +1080,20 @@ print_example(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		fprintf(f, "\t\tswitch (t) {\n");
 
 		for (t = ast->tl; t != NULL; t = t->next) {
-			fsm_state_t s;
+			fsm_state_t s, start;
 			char buf[50]; /* 50 looks reasonable for an on-screen limit */
 			int n;
 
+			if (!fsm_getstart(z->fsm, &start)) {
+				continue;
+			}
+
 			if (!shortest_example(z->fsm, t, &s)) {
 				return -1;
 			}
 
-			if (!fsm_getstart(z->fsm, &s)) {
+			/* the token isn't present in this zone */
+			if (s == start) {
 				continue;
 			}
 
-- 
2.43.0


From 9b8c09d9fa2b7ff8b12498db96297566f6914d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:54 +0000
Subject: [PATCH 097/119] fix: lx -C mixes up mappings between zones built at
 the same time

---
 src/lx/ast.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/lx/ast.c b/src/lx/ast.c
index a3776b6..811ad87 100644
--- a/src/lx/ast.c
+++ b/src/lx/ast.c
@@ -148,10 +148,13 @@ static struct ast_mapping **mappings = NULL;
 int
 ast_setendmapping(struct fsm *fsm, struct ast_mapping *m)
 {
-	const fsm_end_id_t id = mapping_count;
+	fsm_end_id_t id;
 	fsm_end_id_t nceil = 0;
 
+	/* Zones are built concurrently, and each id is for one mapping only */
 	lx_mutex_lock();
+	id = mapping_count;
+
 	if (mappings == NULL) {
 		nceil = DEF_MAPPINGS;
 	} else if (mapping_count == mapping_ceil) {
@@ -171,18 +174,21 @@ ast_setendmapping(struct fsm *fsm, struct ast_mapping *m)
 		mapping_ceil = nceil;
 	}
 
-	lx_mutex_unlock();
+	if (!fsm_setendid(fsm, id)) {
+		lx_mutex_unlock();
+		return 0;
+	}
 
-	if (fsm_setendid(fsm, id)) {
-		if (LOG()) {
-			fprintf(stderr, "ast_setendmapping: saving mapping %p at mappings[%d]\n",
-			    (void *)m, id);
-		}
-		mappings[id] = m;
-		mapping_count++;
-		return 1;
+	if (LOG()) {
+		fprintf(stderr, "ast_setendmapping: saving mapping %p at mappings[%d]\n",
+		    (void *)m, id);
 	}
-	return 0;
+	mappings[id] = m;
+	mapping_count++;
+
+	lx_mutex_unlock();
+
+	return 1;
 }
 
 struct ast_mapping *
-- 
2.43.0


From eb5e2482fc97fa700f743878c5326e09837962b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:55 +0000
Subject: [PATCH 098/119] fix: dot output has empty labels, which dot refuses

---
 src/libfsm/print/dot.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libfsm/print/dot.c b/src/libfsm/print/dot.c
index 213332f..e9ab465 100644
--- a/src/libfsm/print/dot.c
+++ b/src/libfsm/print/dot.c
@@ -40,6 +40,12 @@ default_accept(FILE *f, const struct fsm_options *opt,
 
 	s = * (fsm_state_t *) lang_opaque;
 
+	/* dot doesn't permit an empty HTML-like label */
+	if (opt->anonymous_states && state_metadata->end_id_count == 0) {
+		fprintf(f, "label = \"\"");
+		return 0;
+	}
+
 	fprintf(f, "label = <");
 
 	if (!opt->anonymous_states) {
-- 
2.43.0


From c37423a25a292c53fe50b2a234d98717d7250b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:55 +0000
Subject: [PATCH 099/119] fix: JSON output with an accept hook isn't JSON

---
 src/libfsm/print/json.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/json.c b/src/libfsm/print/json.c
index b350c8d..873476f 100644
--- a/src/libfsm/print/json.c
+++ b/src/libfsm/print/json.c
@@ -279,7 +279,7 @@ fsm_print_json(FILE *f,
 				fprintf(f, ", ");
 			}
 
-			fprintf(f, "{ %u, ", i);
+			fprintf(f, "[ %u, ", i);
 
 			const struct fsm_state_metadata state_metadata = {
 				.end_ids = ids,
@@ -294,7 +294,7 @@ fsm_print_json(FILE *f,
 				return -1;
 			}
 
-			fprintf(f, " }");
+			fprintf(f, " ]");
 
 			if (count > 0) {
 				f_free(fsm->alloc, ids);
-- 
2.43.0


From 18a260e31e909dd758fca0d8c3e8a0bdb74b9631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:55 +0000
Subject: [PATCH 100/119] fix: API output doesn't compile

---
 src/libfsm/print/api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/api.c b/src/libfsm/print/api.c
index 43b8cb2..0dca60e 100644
--- a/src/libfsm/print/api.c
+++ b/src/libfsm/print/api.c
@@ -126,7 +126,7 @@ fsm_print_api(FILE *f,
 	fprintf(f, "\t\t}\n");
 	fprintf(f, "\n");
 
-	fprintf(f, "\t\tif (!fsm_addstate(fsm, &s[i]) {\n");
+	fprintf(f, "\t\tif (!fsm_addstate(fsm, &s[i])) {\n");
 	fprintf(f, "\t\t\treturn 0;\n");
 	fprintf(f, "\t\t}\n");
 
-- 
2.43.0


From 70a9a728e0c8f5ad654e9519c0316ea1e56389ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:55 +0000
Subject: [PATCH 101/119] fix: API output never reaches the end state when it
 is also the start

---
 src/libfsm/print/api.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libfsm/print/api.c b/src/libfsm/print/api.c
index 0dca60e..50c73ae 100644
--- a/src/libfsm/print/api.c
+++ b/src/libfsm/print/api.c
@@ -133,6 +133,12 @@ fsm_print_api(FILE *f,
 	fprintf(f, "\t}\n");
 	fprintf(f, "\n");
 
+	/* x and y are different states, even when one state here is both */
+	if (start == end) {
+		fprintf(f, "\tif (!fsm_addedge_epsilon(fsm, *x, *y)) { return 0; }\n");
+		fprintf(f, "\n");
+	}
+
 	/* endleaf() doesn't make sense for this format */
 
 	{
-- 
2.43.0


From 4df28a24f1d4351a7ac7a8806d16c80bbb32c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 102/119] fix: labels omit the character after a range which
 was cut short

---
 src/adt/bitmap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/adt/bitmap.c b/src/adt/bitmap.c
index e0792c0..384b0b9 100644
--- a/src/adt/bitmap.c
+++ b/src/adt/bitmap.c
@@ -247,6 +247,9 @@ bm_print(FILE *f, const struct fsm_options *opt, const struct bm *bm,
 				return -1;
 			}
 			n += r;
+
+			/* hi itself may be in the set, where the endpoint was brought down */
+			hi = hi - 1;
 			break;
 		}
 	}
-- 
2.43.0


From 7332348b09cfab17d6c2e4453709ae0875bd36a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 103/119] fix: API output sets ids by their index rather than
 their value

---
 src/libfsm/print/api.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/api.c b/src/libfsm/print/api.c
index 50c73ae..3908a3e 100644
--- a/src/libfsm/print/api.c
+++ b/src/libfsm/print/api.c
@@ -158,9 +158,9 @@ fsm_print_api(FILE *f,
 			res = fsm_endid_get(fsm, end, count, ids);
 			assert(res == 1);
 
-			fprintf(f, "\tif (fsm_isend(fsm, s[%u])) {\n", end);
+			fprintf(f, "\tif (fsm_isend(fsm, *y)) {\n");
 			for (size_t id = 0; id < count; id++) {
-				fprintf(f, "\t\tif (!fsm_endid_set(fsm, s[%u], %zu)) { return 0; }\n", end, id);
+				fprintf(f, "\t\tif (!fsm_endid_set(fsm, *y, %u)) { return 0; }\n", ids[id]);
 			}
 			fprintf(f, "\t}\n");
 			fprintf(f, "\n");
-- 
2.43.0


From e8113f319b57a00416ddf01996c45f6aad5c7a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:58 +0000
Subject: [PATCH 104/119] fix: hex for NUL in LLVM output isn't valid

---
 src/print/llvm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/print/llvm.c b/src/print/llvm.c
index ab0c697..63fc48b 100644
--- a/src/print/llvm.c
+++ b/src/print/llvm.c
@@ -22,7 +22,7 @@ llvm_escputc_char(FILE *f, const struct fsm_options *opt, char c)
 	assert(opt != NULL);
 
 	if (opt->always_hex) {
-		return fprintf(f, "u%#02x", (unsigned char) c);
+		return fprintf(f, "u0x%02x", (unsigned char) c);
 	}
 
 	return fprintf(f, "%u", (unsigned char) c);
@@ -35,7 +35,7 @@ llvm_escputcharlit(FILE *f, const struct fsm_options *opt, char c)
 	assert(opt != NULL);
 
 	if (opt->always_hex || (unsigned char) c > SCHAR_MAX) {
-		fprintf(f, "u%#02x", (unsigned char) c);
+		fprintf(f, "u0x%02x", (unsigned char) c);
 		return;
 	}
 
-- 
2.43.0


From 5ead33d70d265d69d1d7eafb328453fc8d4314f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:19 +0000
Subject: [PATCH 105/119] fix: NASM takes hex above 9fh for symbols

---
 src/libfsm/print/vmasm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/vmasm.c b/src/libfsm/print/vmasm.c
index bf55514..5608632 100644
--- a/src/libfsm/print/vmasm.c
+++ b/src/libfsm/print/vmasm.c
@@ -241,7 +241,7 @@ print_asm_amd64(FILE *f,
 							break;
 
 						case AMD64_NASM:
-							fprintf(f, "\tCMP   %s,%02xh\n", chr_reg, (unsigned)op->cmp_arg);
+							fprintf(f, "\tCMP   %s,0x%02x\n", chr_reg, (unsigned)op->cmp_arg);
 							break;
 
 						case AMD64_GO:
@@ -311,7 +311,7 @@ print_asm_amd64(FILE *f,
 						break;
 
 					case AMD64_NASM:
-						fprintf(f, "\tCMP   %s, %02xh\n", chr_reg, (unsigned)op->cmp_arg);
+						fprintf(f, "\tCMP   %s,0x%02x\n", chr_reg, (unsigned)op->cmp_arg);
 						break;
 
 					case AMD64_GO:
-- 
2.43.0


From c08a5ab33669cadb46a470316071e7cc85301a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 106/119] fix: Go assembly for strings isn't named as its
 declaration

---
 src/libfsm/print/vmasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/vmasm.c b/src/libfsm/print/vmasm.c
index 5608632..bfc3d5c 100644
--- a/src/libfsm/print/vmasm.c
+++ b/src/libfsm/print/vmasm.c
@@ -168,7 +168,7 @@ print_asm_amd64(FILE *f,
 			if (opt->comments) {
 				fprintf(f, "// func %s%s(data string) int\n", prefix, "Match");
 			}
-			fprintf(f, "TEXT    ·%s(SB), NOSPLIT, $0-24\n", "Match");
+			fprintf(f, "TEXT    ·%s%s(SB), NOSPLIT, $0-24\n", prefix, "Match");
 			break;
 
 		case FSM_IO_PAIR:
-- 
2.43.0


From 9f338c3d4fe327b898a3b2ef57fb281d076145b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:28 +0000
Subject: [PATCH 107/119] fix: Rust output for unreachable states doesn't
 compile

---
 src/libfsm/print/rust.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index acc677c..03f6294 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -371,6 +371,8 @@ fsm_print_rustfrag(FILE *f,
 			}
 			if (op->cmp != VM_CMP_ALWAYS) {
 				fprintf(f, " }");
+			} else {
+				fprintf(f, ";");
 			}
 
 			if (op->u.stop.end_bits == VM_END_SUCC) {
-- 
2.43.0


From adc69468b47739028f1be432e9fa486fae48e6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:28 +0000
Subject: [PATCH 108/119] fix: Rust fragments are always reported as failing to
 print

---
 src/libfsm/print/rust.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index 03f6294..47b3d32 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -502,8 +502,7 @@ fsm_print_rust(FILE *f,
 	fprintf(f, "// generated\n");
 
 	if (opt->fragment) {
-		fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp);
-		goto error;
+		return fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp);
 	}
 
 	fprintf(f, "\n");
@@ -557,15 +556,13 @@ fsm_print_rust(FILE *f,
 	fprintf(f, " {\n");
 	fprintf(f, "    use Label::*;\n");
 
-	fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp);
+	if (-1 == fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp)) {
+		return -1;
+	}
 
 	fprintf(f, "}\n");
 	fprintf(f, "\n");
 
 	return 0;
-
-error:
-
-	return -1;
 }
 
-- 
2.43.0


From 010ed843af28d38f2f640d5aa645947e33fa5963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:28 +0000
Subject: [PATCH 109/119] fix: awk character literals for quotes, and in hex

---
 src/print/awk.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/print/awk.c b/src/print/awk.c
index ff3bf5d..6ada604 100644
--- a/src/print/awk.c
+++ b/src/print/awk.c
@@ -27,7 +27,7 @@ awk_escputc_char(FILE *f, const struct fsm_options *opt, char c)
 
 	switch (c) {
 	case '\\': return fputs("\\\\", f);
-	case '\'': return fputs("\\\'", f);
+	case '"':  return fputs("\\\"", f);
 
 	case '\a': return fputs("\\a", f);
 	case '\b': return fputs("\\b", f);
@@ -54,10 +54,6 @@ awk_escputcharlit(FILE *f, const struct fsm_options *opt, char c)
 	assert(f != NULL);
 	assert(opt != NULL);
 
-	if (opt->always_hex || (unsigned char) c > SCHAR_MAX) {
-		return fprintf(f, "0x%02x", (unsigned char) c);
-	}
-
 	fprintf(f, "\"");
 	awk_escputc_char(f, opt, c);
 	fprintf(f, "\"");
-- 
2.43.0


From a7b9990fda272ea6ccd94db8985ec8880ee052c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:28 +0000
Subject: [PATCH 110/119] fix: awk comments

---
 src/libfsm/print/awk.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/awk.c b/src/libfsm/print/awk.c
index 4d952cb..b4b5db7 100644
--- a/src/libfsm/print/awk.c
+++ b/src/libfsm/print/awk.c
@@ -248,9 +248,9 @@ fsm_print_awkfrag(FILE *f,
 			fprintf(f, ":");
 
 			if (op->example != NULL) {
-				fprintf(f, " /* e.g. \"");
+				fprintf(f, " # e.g. \"");
 				escputs(f, opt, c_escputc_str, op->example);
-				fprintf(f, "\" */");
+				fprintf(f, "\"");
 			}
 
 			fprintf(f, "\n");
-- 
2.43.0


From 6046717814bdd2179069007461bc2d9885691241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 111/119] fix: sh output for start states with incoming edges
 isn't valid

---
 src/libfsm/print/sh.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/libfsm/print/sh.c b/src/libfsm/print/sh.c
index 5322e4f..dce41b1 100644
--- a/src/libfsm/print/sh.c
+++ b/src/libfsm/print/sh.c
@@ -298,9 +298,7 @@ fsm_print_sh(FILE *f,
 
 	for (op = ops; op != NULL; op = op->next) {
 		if (op->num_incoming > 0) {
-			if (op != ops) {
-				fprintf(f, "\t\t;&\n");
-			}
+			fprintf(f, "\t\t;&\n");
 
 			fprintf(f, "\t");
 			print_label(f, op, opt);
-- 
2.43.0


From 63c3898888683dbe3c44d7f29cea7948b38c79ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 112/119] fix: sh output doesn't escape quotes

---
 src/libfsm/print/sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/sh.c b/src/libfsm/print/sh.c
index dce41b1..48697b8 100644
--- a/src/libfsm/print/sh.c
+++ b/src/libfsm/print/sh.c
@@ -179,7 +179,7 @@ print_cond(FILE *f, const struct dfavm_op_ir *op)
 			fprintf(f, " || $c %s ''", str_operator(VM_CMP_EQ));
 		}
 	} else if (c == '\'') {
-		fprintf(f, "$c %s \'", str_operator(op->cmp));
+		fprintf(f, "$c %s \\'", str_operator(op->cmp));
 		if (op->cmp == VM_CMP_LE || op->cmp == VM_CMP_GE) {
 			fprintf(f, " || $c %s \\'", str_operator(VM_CMP_EQ));
 		}
-- 
2.43.0


From cd949588f24aa20bf57e0c8f0935351c59782daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:50 +0000
Subject: [PATCH 113/119] fix: Go output places the args hook after the
 parameter list

---
 src/libfsm/print/go.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index d65ac96..943a593 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -420,11 +420,11 @@ fsm_print_go(FILE *f,
 
 		switch (opt->io) {
 		case FSM_IO_PAIR:
-			fprintf(f, "(data []byte)");
+			fprintf(f, "(data []byte");
 			break;
 
 		case FSM_IO_STR:
-			fprintf(f, "(data string)");
+			fprintf(f, "(data string");
 			break;
 
 		default:
@@ -440,7 +440,7 @@ fsm_print_go(FILE *f,
 			}
 		}
 
-		fprintf(f, " ");
+		fprintf(f, ") ");
 
 		switch (opt->ambig) {
 		case AMBIG_NONE:
-- 
2.43.0


From 313eba22f63878890b16380a17b920463e90488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:36 +0000
Subject: [PATCH 114/119] fix: sh output depends on the locale

---
 src/libfsm/print/sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/sh.c b/src/libfsm/print/sh.c
index 48697b8..81e0b41 100644
--- a/src/libfsm/print/sh.c
+++ b/src/libfsm/print/sh.c
@@ -287,7 +287,7 @@ fsm_print_sh(FILE *f,
 	fprintf(f, "\n");
 
 	fprintf(f, "l=start\n");
-	fprintf(f, "LANG=C\n");
+	fprintf(f, "LC_ALL=C\n");
 	fprintf(f, "IFS=\n");
 	fprintf(f, "\n");
 
-- 
2.43.0


From 330810e26b0ab1bce5fb734e7e7f3865ef66697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:16 +0000
Subject: [PATCH 115/119] fix: leak when the conflict hook fails

---
 src/libfsm/print.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libfsm/print.c b/src/libfsm/print.c
index ab68be3..462433c 100644
--- a/src/libfsm/print.c
+++ b/src/libfsm/print.c
@@ -199,6 +199,9 @@ print_conflicts(FILE *f, const struct fsm *fsm,
 
 		ids = f_malloc(fsm->alloc, count * sizeof *ids);
 		if (ids == NULL) {
+			if (example != NULL) {
+				f_free(fsm->alloc, example);
+			}
 			goto error;
 		}
 
@@ -220,6 +223,10 @@ print_conflicts(FILE *f, const struct fsm *fsm,
 			&state_metadata,
 			example))
 		{
+			if (example != NULL) {
+				f_free(fsm->alloc, example);
+			}
+			f_free(fsm->alloc, ids);
 			goto error;
 		}
 
-- 
2.43.0


From d7e191c22daa8e844166ebc6d5fbff8c6baa56a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:16 +0000
Subject: [PATCH 116/119] fix: examples are cut short where bytes are escaped

---
 src/libfsm/print/ir.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/libfsm/print/ir.c b/src/libfsm/print/ir.c
index d56ae67..07b4cd0 100644
--- a/src/libfsm/print/ir.c
+++ b/src/libfsm/print/ir.c
@@ -435,7 +435,7 @@ int
 make_example(const struct fsm *fsm, fsm_state_t s, char **example)
 {
 	fsm_state_t start;
-	size_t count;
+	size_t count, size;
 	char *p;
 	int n;
 
@@ -450,10 +450,11 @@ make_example(const struct fsm *fsm, fsm_state_t s, char **example)
 	count = fsm_countstates(fsm);
 
 	/*
-	 * Example lengths are approximately proportional to the number of states,
-	 * and shorter where the graph branches often.
+	 * A shortest path has fewer transitions than there are states,
+	 * and fsm_example() writes at most 4 characters ("\\xHH") for each.
 	 */
-	p = f_malloc(fsm->alloc, count + 3 + 1);
+	size = count * 4 + 1;
+	p = f_malloc(fsm->alloc, size);
 	if (p == NULL) {
 		return 0;
 	}
@@ -466,7 +467,7 @@ make_example(const struct fsm *fsm, fsm_state_t s, char **example)
 		goto done;
 	}
 
-	n = fsm_example(fsm, s, p, count + 1);
+	n = fsm_example(fsm, s, p, size);
 	if (-1 == n) {
 		goto error;
 	}
@@ -479,7 +480,7 @@ make_example(const struct fsm *fsm, fsm_state_t s, char **example)
 	if (n == 0) {
 		f_free(fsm->alloc, p);
 		p = NULL;
-	} else if ((size_t) n < count + 1) {
+	} else {
 		char *tmp;
 
 		tmp = f_realloc(fsm->alloc, p, strlen(p) + 1);
@@ -488,8 +489,6 @@ make_example(const struct fsm *fsm, fsm_state_t s, char **example)
 		}
 
 		p = tmp;
-	} else if ((size_t) n > count + 1) {
-		strcpy(p + count, "...");
 	}
 
 done:
-- 
2.43.0


From edc553ec7ecd0cfc1a9dcc5bd78cea1c250da870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:52 +0000
Subject: [PATCH 117/119] fix: reporting a conflict asserts for an NFA with
 epsilons

---
 src/libfsm/print/ir.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libfsm/print/ir.c b/src/libfsm/print/ir.c
index 07b4cd0..d6f27fa 100644
--- a/src/libfsm/print/ir.c
+++ b/src/libfsm/print/ir.c
@@ -447,6 +447,12 @@ make_example(const struct fsm *fsm, fsm_state_t s, char **example)
 		return 1;
 	}
 
+	/* fsm_example() can't traverse epsilons */
+	if (fsm_has(fsm, fsm_hasepsilons)) {
+		*example = NULL;
+		return 1;
+	}
+
 	count = fsm_countstates(fsm);
 
 	/*
-- 
2.43.0


From bb6c8bfafb607f05a3ba6359119203a0df31cb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:01 +0000
Subject: [PATCH 118/119] fix: detect_required leaks and leaves states marked
 when growing its stack fails

---
 src/libfsm/detect_required.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/detect_required.c b/src/libfsm/detect_required.c
index 8488376..c7a378f 100644
--- a/src/libfsm/detect_required.c
+++ b/src/libfsm/detect_required.c
@@ -181,7 +181,8 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 				struct stack_frame *nframes = f_realloc(dfa->alloc,
 				    env.stack.frames, nceil * sizeof(nframes[0]));
 				if (nframes == NULL) {
-					return FSM_DETECT_REQUIRED_CHARACTERS_ERROR_ALLOC;
+					res = FSM_DETECT_REQUIRED_CHARACTERS_ERROR_ALLOC;
+					goto cleanup;
 				}
 
 				env.stack.frames = nframes;
-- 
2.43.0


From fddd1d8ac00ea3608906aaab9a25a49e101e44b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:01 +0000
Subject: [PATCH 119/119] fix: programs of 256 bytes or more are loaded with
 the wrong length

---
 src/libfsm/vm/v1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/vm/v1.c b/src/libfsm/vm/v1.c
index c9af206..28a4f67 100644
--- a/src/libfsm/vm/v1.c
+++ b/src/libfsm/vm/v1.c
@@ -62,7 +62,7 @@ dfavm_load_v1(FILE *f, struct dfavm_v1 *vm)
 	}
 
 	len = ((uint32_t)ilen[0] << 0) | ((uint32_t)ilen[1] << 8) |
-		((uint32_t)ilen[1] << 16) | ((uint32_t)ilen[1] << 24);
+		((uint32_t)ilen[2] << 16) | ((uint32_t)ilen[3] << 24);
 
 	instr = malloc(len);
 	if (instr == NULL) {
-- 
2.43.0

