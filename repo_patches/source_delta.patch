From 308dab133809aaa34c2e7713fceb5c83b3014c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 001/154] fix: minimise compared uninitialised label sets for
 states without edges

edge_set_check_edges_with_EC_mapping() returned before clearing labels[] for
a NULL edge set, but try_partition() compares the label sets of states for
which there is no edge, too. Depending on what was on the stack, equivalent
states without edges were not merged, and the result was not minimal.
---
 src/adt/edgeset.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 178ddbc..7705d37 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -430,6 +430,9 @@ edge_set_check_edges_with_EC_mapping(const struct edge_set *set,
 {
 	size_t i;
 
+	/* The caller compares the label sets even when there is no edge. */
+	memset(labels, 0x00, (256/64)*sizeof(labels[0]));
+
 	if (set == NULL) {
 		return 0;
 	}
@@ -439,8 +442,6 @@ edge_set_check_edges_with_EC_mapping(const struct edge_set *set,
 	    label, (void *)set);
 #endif
 
-	memset(labels, 0x00, (256/64)*sizeof(labels[0]));
-
 	/* Find the state the label leads to, if any. */
 	const size_t offset = label/64;
 	const uint64_t bit = (uint64_t)1 << (label & 63);
-- 
2.43.0


From fa704a975341700e8dc3e68456df54539f636690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 002/154] fix: minimise merged states with different eager
 outputs

Collecting metadata for an equivalence class stopped at its first state that
is neither an end state nor has eager outputs, so eager outputs of the states
after it were taken to be empty. End states are all together at this point,
but states with eager outputs are not.
---
 src/libfsm/minimise.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/minimise.c b/src/libfsm/minimise.c
index a2ff1b8..eb44e2f 100644
--- a/src/libfsm/minimise.c
+++ b/src/libfsm/minimise.c
@@ -778,7 +778,8 @@ split_ecs_by_end_metadata(struct min_env *env, const struct fsm *fsm)
 			const bool has_eager_outputs = fsm_eager_output_state_has_eager_output(fsm, s);
 
 			if (!is_end && !has_eager_outputs) {
-				break; /* skip */
+				s = env->jump[s];
+				continue; /* skip */
 			}
 
 			if (!collect_end_ids(fsm, s, &e->end)) {
-- 
2.43.0


From 7c171bb65130e77ce7a57a6880e7ed7d02ab386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 003/154] fix: concat accepted words of a left operand with
 several end states

---
 src/libfsm/concat.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/concat.c b/src/libfsm/concat.c
index 9f87802..604d1d7 100644
--- a/src/libfsm/concat.c
+++ b/src/libfsm/concat.c
@@ -22,7 +22,7 @@ fsm_concat(struct fsm *a, struct fsm *b,
 {
 	struct fsm *q;
 	fsm_state_t ea, sb;
-	fsm_state_t sq;
+	fsm_state_t sq, i;
 	struct fsm_combine_info combine_info_internal;
 
 	if (combine_info == NULL) {
@@ -54,7 +54,13 @@ fsm_concat(struct fsm *a, struct fsm *b,
 		return NULL;
 	}
 
-	fsm_setend(a, ea, 1);
+	/*
+	 * When several end states were collated, they remain marked as end
+	 * states; only words continuing through b are to be accepted.
+	 */
+	for (i = 0; i < a->statecount; i++) {
+		fsm_setend(a, i, i == ea);
+	}
 
 	q = fsm_merge(a, b, combine_info);
 	assert(q != NULL);
-- 
2.43.0


From 333ac33d6a41b537afd793ded95ac0bb2cb51624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 004/154] fix: union_array reported stale bases when a later
 operand was placed first

---
 src/libfsm/union.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 4b07ca6..afeabe0 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -194,7 +194,7 @@ fsm_union_array(size_t fsm_count,
 		/* If the first argument didn't get its states put first
 		 * in the union, then shift the bases for everything
 		 * that has been combined into it so far. */
-		if (ci.capture_base_a > 0) {
+		if (ci.base_a > 0 || ci.capture_base_a > 0) {
 			size_t shift_i;
 			for (shift_i = 0; shift_i < i; shift_i++) {
 				bases[shift_i].state += ci.base_a;
-- 
2.43.0


From 63b45e62795b581cde7b64ec46efb0260b3ffa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 005/154] fix: complement of an automaton without a start state
 matched nothing

---
 src/libfsm/complement.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/libfsm/complement.c b/src/libfsm/complement.c
index 53d61c0..9b239a3 100644
--- a/src/libfsm/complement.c
+++ b/src/libfsm/complement.c
@@ -18,10 +18,23 @@
 int
 fsm_complement(struct fsm *fsm)
 {
+	fsm_state_t start;
 	size_t i;
 
 	assert(fsm != NULL);
 
+	/*
+	 * An FSM without a start state matches nothing, (for example, as produced
+	 * by minimising the empty language). Its complement matches everything.
+	 */
+	if (!fsm_getstart(fsm, &start)) {
+		if (!fsm_addstate(fsm, &start)) {
+			return 0;
+		}
+
+		fsm_setstart(fsm, start);
+	}
+
 	if (!fsm_all(fsm, fsm_iscomplete)) {
 		if (!fsm_complete(fsm, fsm_isany)) {
 			fsm_free(fsm);
-- 
2.43.0


From 191a59924fd35330a8ff1fea20624a537f5c4ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 006/154] fix: complement of an NFA with an edge for every
 symbol did not determinise

---
 src/libfsm/complement.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/complement.c b/src/libfsm/complement.c
index 9b239a3..520afd2 100644
--- a/src/libfsm/complement.c
+++ b/src/libfsm/complement.c
@@ -35,7 +35,8 @@ fsm_complement(struct fsm *fsm)
 		fsm_setstart(fsm, start);
 	}
 
-	if (!fsm_all(fsm, fsm_iscomplete)) {
+	/* an NFA may have every edge in every state and still need determinising */
+	if (!fsm_all(fsm, fsm_isdfa) || !fsm_all(fsm, fsm_iscomplete)) {
 		if (!fsm_complete(fsm, fsm_isany)) {
 			fsm_free(fsm);
 			return 0;
-- 
2.43.0


From 9f98324e558b4de263a6e202640185d6f0b6b149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 007/154] fix: walk2 left its visited marks on the states of
 the result

---
 src/libfsm/walk2.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libfsm/walk2.c b/src/libfsm/walk2.c
index 6d6ab02..8fa78dd 100644
--- a/src/libfsm/walk2.c
+++ b/src/libfsm/walk2.c
@@ -515,6 +515,7 @@ fsm_walk2(const struct fsm *a, const struct fsm *b,
 	struct fsm_walk2_tuple *tup0;
 	struct fsm *new;
 	int have_a, have_b;
+	size_t i;
 
 	assert(a != NULL);
 	assert(b != NULL);
@@ -590,6 +591,11 @@ fsm_walk2(const struct fsm *a, const struct fsm *b,
 	new = data.new;
 	data.new = NULL; /* avoid freeing new FSM */
 
+	/* other operations expect to find this clear */
+	for (i = 0; i < new->statecount; i++) {
+		new->states[i].visited = 0;
+	}
+
 	fsm_walk2_data_free(a, &data);
 
 	return new;
-- 
2.43.0


From 19d54b7711a3bccebd083c4121e51152ccb6d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 008/154] fix: combining nested exact repetitions aborted on a
 wrong assertion

---
 src/libre/ast_rewrite.c | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 592dd58..4b976ed 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -490,16 +490,6 @@ rewrite_repeat(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags f
 			return 1;
 		}
 
-		/*
-		 * a{h,i}{j,k} is equivalent to a{h*j,i*k} if it's possible to combine,
-		 * and it's possible iff the range of the result is not more than
-		 * the sum of the ranges of the two inputs.
-		 */
-		if (i != AST_COUNT_UNBOUNDED && k != AST_COUNT_UNBOUNDED) {
-			/* I don't know why this is true */
-			assert(w - v > i - h + k - j);
-		}
-
 		/*
 		 * a{h,}{j,}
 		 * a{h,i}{j,}
-- 
2.43.0


From 1023cbeb86e9b95ad388465f978a37ca754b5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 009/154] fix: an alternative that can never match made its
 siblings unmatchable

---
 src/libre/ast_rewrite.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 4b976ed..74f5491 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -323,6 +323,31 @@ rewrite_alt(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags flag
 		}
 	}
 
+	/*
+	 * A tombstone can never match, so it contributes nothing to an alt.
+	 * If that's all there is, then the alt can't match either.
+	 */
+	{
+		size_t live = 0;
+
+		for (i = 0; i < n->u.alt.count; i++) {
+			if (n->u.alt.n[i]->type == AST_EXPR_TOMBSTONE) {
+				ast_expr_free(*poolp, n->u.alt.n[i]);
+				continue;
+			}
+
+			n->u.alt.n[live++] = n->u.alt.n[i];
+		}
+
+		if (live == 0 && n->u.alt.count > 0) {
+			n->u.alt.count = 0;
+
+			goto tombstone;
+		}
+
+		n->u.alt.count = live;
+	}
+
 	/*
 	 * Empty children do have a semantic effect; for dialects with anchors,
 	 * they affect the anchoring. So we cannot remove those in general here.
@@ -403,6 +428,15 @@ empty:
 
 	n->type = AST_EXPR_EMPTY;
 
+	return 1;
+
+tombstone:
+
+	free(n->u.alt.n);
+	n->u.alt.n = NULL;
+
+	n->type = AST_EXPR_TOMBSTONE;
+
 	return 1;
 }
 
-- 
2.43.0


From 2d70c5939d6fdf422fc915e8a0e447899ab41226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 010/154] fix: repeating an anchored subtree more than once
 aborted

---
 src/libre/ast_analysis.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 5a6b41b..5e5eb36 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -1126,6 +1126,11 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 			LOG(3 - LOG_ANCHORING,
 			    "%s: REPEAT: repeating ANCHORED_START subtree >0 times -> ANCHORED_START\n", __func__);
 			set_flags(n, AST_FLAG_ANCHORED_START);
+			if (n->u.repeat.min > 1 && always_consumes_input(n->u.repeat.e)) {
+				/* the second repetition can't be at the start */
+				set_flags(n, AST_FLAG_UNSATISFIABLE);
+			}
+			n->u.repeat.min = 1;
 			n->u.repeat.max = 1;
 		}
 
@@ -1137,6 +1142,11 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 			LOG(3 - LOG_ANCHORING,
 			    "%s: REPEAT: repeating ANCHORED_END subtree >0 times -> ANCHORED_END\n", __func__);
 			set_flags(n, n->u.repeat.e->flags & END_ANCHOR_FLAG_MASK);
+			if (n->u.repeat.min > 1 && always_consumes_input(n->u.repeat.e)) {
+				/* nothing can be consumed after the first repetition */
+				set_flags(n, AST_FLAG_UNSATISFIABLE);
+			}
+			n->u.repeat.min = 1;
 			n->u.repeat.max = 1;
 		}
 
-- 
2.43.0


From 0e89f291334793c5421afe1c5b31c5f25c66dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 011/154] fix: alternatives set aside during anchoring analysis
 were lost

---
 src/libre/ast_analysis.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 5e5eb36..3762749 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -1001,16 +1001,9 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 				    __func__, i, (void *)n->u.alt.n[i]);
 				assert(child->flags & AST_FLAG_UNSATISFIABLE);
 			} else if (res == AST_ANALYSIS_OK) {
-				if (child->type == AST_EXPR_REPEAT
-				    && /*child->u.repeat.min == 0 &&*/ child->u.repeat.max == 0) {
-					LOG(3 - LOG_ANCHORING,
-					    "%s: ignoring pruned REPEAT node\n", __func__);
-				} else {
-					all_set_past_always_consuming &= child_env.past_always_consuming;
-					any_sat = 1;
-				}
-			} else if (res == AST_ANALYSIS_ERROR_UNSUPPORTED) {
-				continue;
+				/* A pruned REPEAT node is still satisfiable, as empty. */
+				all_set_past_always_consuming &= child_env.past_always_consuming;
+				any_sat = 1;
 			} else {
 				return res;
 			}
-- 
2.43.0


From b919ac7054c6c3cc132af3945c78a6eaf0e591af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 012/154] fix: a class matching the newline after an end anchor
 never matched

---
 src/libre/ast_analysis.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 3762749..0e62da1 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -791,6 +791,15 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 	case AST_EXPR_RANGE:
 		if (can_consume_single_newline(n)) {
 			set_flags(n, AST_FLAG_MATCHES_1NEWLINE);
+
+			/* as for LITERAL, e.g. '$\D' */
+			if (env->newline_after_end_anchor_state == NAEAS_WOULD_MATCH_ONCE) {
+				LOG(3 - LOG_ANCHORING,
+				    "%s: rejecting non-optional newline match after $ as unsupported\n",
+				    __func__);
+				set_flags(n, AST_FLAG_UNSATISFIABLE);
+				return AST_ANALYSIS_ERROR_UNSUPPORTED;
+			}
 		}
 		break;		/* handled outside switch/case */
 
@@ -1100,7 +1109,9 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 				return AST_ANALYSIS_UNSATISFIABLE;
 			}
 		} else if (res != AST_ANALYSIS_OK) {
-			if (n->u.repeat.min == 0) {
+			/* only prune when it's the child itself that's unsupported,
+			 * other alternatives inside it may still match */
+			if (n->u.repeat.min == 0 && (n->u.repeat.e->flags & AST_FLAG_UNSATISFIABLE)) {
 				LOG(3 - LOG_ANCHORING,
 				    "%s: REPEAT: analysis on child returned %d, setting repeat count to 0\n", __func__, res);
 				prune_repeat_node(n);
-- 
2.43.0


From 7bdc6e714f4373e68018b210fd0882d3156ca901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 013/154] fix: an escaped NUL in an expression aborted on an
 assertion

---
 src/libre/dialect/native/parser.c |  6 +++---
 src/libre/dialect/pcre/parser.c   | 16 ++++++++--------
 src/libre/parser.act              |  6 +++---
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/libre/dialect/native/parser.c b/src/libre/dialect/native/parser.c
index 63c5f8c..5c466d4 100644
--- a/src/libre/dialect/native/parser.c
+++ b/src/libre/dialect/native/parser.c
@@ -352,7 +352,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 #line 386 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the character escaped may be a NUL */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
@@ -878,7 +878,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 #line 386 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the character escaped may be a NUL */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
@@ -1099,7 +1099,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 #line 386 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the character escaped may be a NUL */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZI247 = lex_state->buf.a[1];
diff --git a/src/libre/dialect/pcre/parser.c b/src/libre/dialect/pcre/parser.c
index e59fee0..3f953ef 100644
--- a/src/libre/dialect/pcre/parser.c
+++ b/src/libre/dialect/pcre/parser.c
@@ -478,7 +478,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
+		/* the control character may be a NUL */
 		assert(lex_state->buf.a[3] == '\0');
 
 		ZIc = lex_state->buf.a[2];
@@ -541,7 +541,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 #line 386 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the character escaped may be a NUL */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
@@ -1073,7 +1073,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
+		/* the control character may be a NUL */
 		assert(lex_state->buf.a[3] == '\0');
 
 		ZIc = lex_state->buf.a[2];
@@ -1127,7 +1127,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 #line 386 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the character escaped may be a NUL */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
@@ -1227,7 +1227,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 #line 412 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the character escaped may be a NUL */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
@@ -1417,7 +1417,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
+		/* the control character may be a NUL */
 		assert(lex_state->buf.a[3] == '\0');
 
 		ZI310 = lex_state->buf.a[2];
@@ -1489,7 +1489,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 #line 386 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the character escaped may be a NUL */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZI294 = lex_state->buf.a[1];
@@ -1634,7 +1634,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 #line 412 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the character escaped may be a NUL */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
diff --git a/src/libre/parser.act b/src/libre/parser.act
index 984036c..161411a 100644
--- a/src/libre/parser.act
+++ b/src/libre/parser.act
@@ -385,7 +385,7 @@
 
 	ESC: () -> (c :char, start :pos, end :pos) = @{
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the character escaped may be a NUL */
 		assert(lex_state->buf.a[2] == '\0');
 
 		@c = lex_state->buf.a[1];
@@ -411,7 +411,7 @@
 
 	NOESC: () -> (c :char, start :pos, end :pos) = @{
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the character escaped may be a NUL */
 		assert(lex_state->buf.a[2] == '\0');
 
 		@c = lex_state->buf.a[1];
@@ -442,7 +442,7 @@
 	CONTROL: () -> (c :char, start :pos, end :pos) = @{
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
+		/* the control character may be a NUL */
 		assert(lex_state->buf.a[3] == '\0');
 
 		@c = lex_state->buf.a[2];
-- 
2.43.0


From 59e0330a44d19e474349b7de30ea6a25b8e080ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 014/154] fix: a negative range after a leading bracket
 reported uninitialised positions

---
 src/libre/dialect/native/parser.c | 8 ++++----
 src/libre/dialect/pcre/parser.c   | 8 ++++----
 src/libre/dialect/sql/parser.c    | 2 +-
 src/libre/parser.act              | 2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/libre/dialect/native/parser.c b/src/libre/dialect/native/parser.c
index 5c466d4..c4be1a4 100644
--- a/src/libre/dialect/native/parser.c
+++ b/src/libre/dialect/native/parser.c
@@ -1916,7 +1916,7 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 			
 			sprintf(err->set, "%s-%s",
 				escchar(a, sizeof a, lower), escchar(b, sizeof b, upper));
-			err->e = RE_ENEGRANGE;
+			mark(&act_state->rangestart, &(ZIrstart)); mark(&act_state->rangeend, &(ZIend)); err->e = RE_ENEGRANGE;
 			goto ZL1;
 		}
 
@@ -2255,7 +2255,7 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 			
 			sprintf(err->set, "%s-%s",
 				escchar(a, sizeof a, lower), escchar(b, sizeof b, upper));
-			err->e = RE_ENEGRANGE;
+			mark(&act_state->rangestart, &(*ZIstart)); mark(&act_state->rangeend, &(ZIend)); err->e = RE_ENEGRANGE;
 			goto ZL1;
 		}
 
@@ -2872,7 +2872,7 @@ p_246(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 			
 			sprintf(err->set, "%s-%s",
 				escchar(a, sizeof a, lower), escchar(b, sizeof b, upper));
-			err->e = RE_ENEGRANGE;
+			mark(&act_state->rangestart, &(*ZI244)); mark(&act_state->rangeend, &(ZIend)); err->e = RE_ENEGRANGE;
 			goto ZL1;
 		}
 
@@ -3008,7 +3008,7 @@ p_250(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 			
 			sprintf(err->set, "%s-%s",
 				escchar(a, sizeof a, lower), escchar(b, sizeof b, upper));
-			err->e = RE_ENEGRANGE;
+			mark(&act_state->rangestart, &(*ZI248)); mark(&act_state->rangeend, &(ZIend)); err->e = RE_ENEGRANGE;
 			goto ZL1;
 		}
 
diff --git a/src/libre/dialect/pcre/parser.c b/src/libre/dialect/pcre/parser.c
index 3f953ef..ecdcf00 100644
--- a/src/libre/dialect/pcre/parser.c
+++ b/src/libre/dialect/pcre/parser.c
@@ -940,7 +940,7 @@ p_293(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 			
 			sprintf(err->set, "%s-%s",
 				escchar(a, sizeof a, lower), escchar(b, sizeof b, upper));
-			err->e = RE_ENEGRANGE;
+			mark(&act_state->rangestart, &(*ZI291)); mark(&act_state->rangeend, &(ZIend)); err->e = RE_ENEGRANGE;
 			goto ZL1;
 		}
 
@@ -2467,7 +2467,7 @@ p_317(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 			
 			sprintf(err->set, "%s-%s",
 				escchar(a, sizeof a, lower), escchar(b, sizeof b, upper));
-			err->e = RE_ENEGRANGE;
+			mark(&act_state->rangestart, &(*ZI315)); mark(&act_state->rangeend, &(ZIend)); err->e = RE_ENEGRANGE;
 			goto ZL1;
 		}
 
@@ -2980,7 +2980,7 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 			
 			sprintf(err->set, "%s-%s",
 				escchar(a, sizeof a, lower), escchar(b, sizeof b, upper));
-			err->e = RE_ENEGRANGE;
+			mark(&act_state->rangestart, &(ZIrstart)); mark(&act_state->rangeend, &(ZIend)); err->e = RE_ENEGRANGE;
 			goto ZL1;
 		}
 
@@ -3524,7 +3524,7 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 			
 			sprintf(err->set, "%s-%s",
 				escchar(a, sizeof a, lower), escchar(b, sizeof b, upper));
-			err->e = RE_ENEGRANGE;
+			mark(&act_state->rangestart, &(*ZIstart)); mark(&act_state->rangeend, &(ZIend)); err->e = RE_ENEGRANGE;
 			goto ZL1;
 		}
 
diff --git a/src/libre/dialect/sql/parser.c b/src/libre/dialect/sql/parser.c
index e7a4c2e..a18b6a9 100644
--- a/src/libre/dialect/sql/parser.c
+++ b/src/libre/dialect/sql/parser.c
@@ -1283,7 +1283,7 @@ p_208(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 			
 			sprintf(err->set, "%s-%s",
 				escchar(a, sizeof a, lower), escchar(b, sizeof b, upper));
-			err->e = RE_ENEGRANGE;
+			mark(&act_state->rangestart, &(*ZI206)); mark(&act_state->rangeend, &(ZIend)); err->e = RE_ENEGRANGE;
 			goto ZL1;
 		}
 
diff --git a/src/libre/parser.act b/src/libre/parser.act
index 161411a..fe91618 100644
--- a/src/libre/parser.act
+++ b/src/libre/parser.act
@@ -1020,7 +1020,7 @@
 			
 			sprintf(err->set, "%s-%s",
 				escchar(a, sizeof a, lower), escchar(b, sizeof b, upper));
-			err->e = RE_ENEGRANGE;
+			mark(&act_state->rangestart, &@start); mark(&act_state->rangeend, &@end); err->e = RE_ENEGRANGE;
 			@!;
 		}
 
-- 
2.43.0


From d586b0bcd87ec30c3fa4ea785d223ff8c386ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 015/154] fix: print several inline flags in a form the parser
 accepts

---
 src/libre/print/pcre.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 974a364..62f1302 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -60,15 +60,16 @@ prec(const struct ast_expr *n)
 	}
 }
 
+/* one group per flag; the parser takes at most one each way */
 static void
-re_flags_print(FILE *f, enum re_flags fl)
+re_flags_print(FILE *f, const char *sign, enum re_flags fl)
 {
-	if (fl & RE_ICASE  ) { fprintf(f, "i"); }
-	if (fl & RE_TEXT   ) { fprintf(f, "g"); }
-	if (fl & RE_MULTI  ) { fprintf(f, "m"); }
-	if (fl & RE_REVERSE) { fprintf(f, "r"); }
-	if (fl & RE_SINGLE ) { fprintf(f, "s"); }
-	if (fl & RE_ZONE   ) { fprintf(f, "z"); }
+	if (fl & RE_ICASE  ) { fprintf(f, "(?%si)", sign); }
+	if (fl & RE_TEXT   ) { fprintf(f, "(?%sg)", sign); }
+	if (fl & RE_MULTI  ) { fprintf(f, "(?%sm)", sign); }
+	if (fl & RE_REVERSE) { fprintf(f, "(?%sr)", sign); }
+	if (fl & RE_SINGLE ) { fprintf(f, "(?%ss)", sign); }
+	if (fl & RE_ZONE   ) { fprintf(f, "(?%sz)", sign); }
 }
 
 enum {
@@ -121,13 +122,8 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 	}
 
 	if ((n->re_flags ^ *re_flags) & RE_FLAGS_PRINTABLE) {
-		fprintf(f, "(?");
-		re_flags_print(f, n->re_flags & ~*re_flags);
-		if (*re_flags & ~n->re_flags & RE_FLAGS_PRINTABLE) {
-			fprintf(f, "-");
-			re_flags_print(f, *re_flags & ~n->re_flags);
-		}
-		fprintf(f, ")");
+		re_flags_print(f, "", n->re_flags & ~*re_flags);
+		re_flags_print(f, "-", *re_flags & ~n->re_flags);
 		*re_flags = n->re_flags;
 	}
 
-- 
2.43.0


From 1f2ab83b582b930eec2f3ba2c88feba835e672f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 016/154] fix: escape range endpoints for a character class
 when printing an expression

---
 src/libre/print/pcre.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 62f1302..8642a9b 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -81,7 +81,12 @@ print_endpoint(FILE *f, const struct fsm_options *opt, const struct ast_endpoint
 {
 	switch (e->type) {
 	case AST_ENDPOINT_LITERAL:
-		pcre_escputc(f, opt, e->u.literal.c);
+		/* what needs escaping (and how) differs inside a character class */
+		if (isalnum(e->u.literal.c)) {
+			pcre_escputc(f, opt, e->u.literal.c);
+		} else {
+			fprintf(f, "\\x%02x", e->u.literal.c);
+		}
 		break;
 
 	case AST_ENDPOINT_CODEPOINT:
-- 
2.43.0


From ec86adff6c9a048199335913b0e4be35af46528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 017/154] fix: printing a nested repeat as PCRE lost its
 grouping

---
 src/libre/print/pcre.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 8642a9b..80f75c8 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -106,7 +106,8 @@ pp_atomic(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags,
 	assert(f != NULL);
 	assert(opt != NULL);
 
-	if (prec(n) <= prec(parent)) {
+	/* a{2}{3} and a+* aren't nested repeats */
+	if (prec(n) <= prec(parent) && !(n->type == AST_EXPR_REPEAT && parent->type == AST_EXPR_REPEAT)) {
 		pp_iter(f, opt, re_flags, n);
 	} else {
 		enum re_flags local_flags = *re_flags;
-- 
2.43.0


From 20d2aecfad05f10a2a0a3b1268e91ad24035d1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 018/154] fix: printing {0} or {1} as PCRE aborted

---
 src/libre/print/pcre.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 80f75c8..d1c96dd 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -177,11 +177,9 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 			const char *op;
 		} a[] = {
 #define _ AST_COUNT_UNBOUNDED
-			{ 0, 0, NULL },
 			{ 0, _, "*"  },
 			{ 0, 1, "?"  },
-			{ 1, _, "+"  },
-			{ 1, 1, NULL }
+			{ 1, _, "+"  }
 #undef _
 		};
 
@@ -191,7 +189,6 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 
 		for (i = 0; i < sizeof a / sizeof *a; i++) {
 			if (a[i].m == n->u.repeat.min && a[i].n == n->u.repeat.max) {
-				assert(a[i].op != NULL);
 				fprintf(f, "%s", a[i].op);
 				break;
 			}
-- 
2.43.0


From 32a989674d1286a0ae7db69b9efff38c971bdc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 019/154] fix: $ was printed as \z, losing the newline it
 allows

---
 src/libre/print/pcre.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index d1c96dd..eda4c20 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -221,7 +221,8 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 
 	case AST_EXPR_ANCHOR:
 		assert(n->u.anchor.type == AST_ANCHOR_START || n->u.anchor.type == AST_ANCHOR_END);
-		fprintf(f, "%s", n->u.anchor.type == AST_ANCHOR_START ? "^" : "\\z");
+		fprintf(f, "%s", n->u.anchor.type == AST_ANCHOR_START ? "^"
+			: n->u.anchor.is_end_nl ? "$" : "\\z");
 		break;
 
 	case AST_EXPR_SUBTRACT:
-- 
2.43.0


From 80400f6e2cf5dadc832e8bdc896238891286112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 020/154] fix: a range of every byte was printed as . without
 RE_SINGLE

---
 src/libre/print/pcre.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index eda4c20..15f6612 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -236,7 +236,8 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 		if (n->u.range.from.u.literal.c == 0x00 &&
 			n->u.range.to.u.literal.c == 0xff)
 		{
-			fprintf(f, ".");
+			/* without RE_SINGLE, . does not match a newline */
+			fprintf(f, "%s", (n->re_flags & RE_SINGLE) ? "." : "[\\x00-\\xff]");
 			break;
 		}
 
-- 
2.43.0


From bc2188fa99b2493880c1d8e67ff77413aad49225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 021/154] fix: printing a negated class as PCRE aborted

---
 src/libre/print/pcre.c | 104 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 99 insertions(+), 5 deletions(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 15f6612..dcfdf1d 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -99,6 +99,93 @@ print_endpoint(FILE *f, const struct fsm_options *opt, const struct ast_endpoint
 	}
 }
 
+/* add the bytes an expression for a single character may match; false if it isn't one */
+static int
+class_set(const struct ast_expr *n, unsigned char set[256])
+{
+	unsigned c, from, to;
+	size_t i;
+
+	switch (n->type) {
+	case AST_EXPR_TOMBSTONE:
+		return 1;
+
+	case AST_EXPR_LITERAL:
+		from = to = (unsigned char) n->u.literal.c;
+		break;
+
+	case AST_EXPR_RANGE:
+		if (n->u.range.from.type != AST_ENDPOINT_LITERAL || n->u.range.to.type != AST_ENDPOINT_LITERAL) {
+			return 0;
+		}
+		from = n->u.range.from.u.literal.c;
+		to   = n->u.range.to.u.literal.c;
+		break;
+
+	case AST_EXPR_ALT:
+		for (i = 0; i < n->u.alt.count; i++) {
+			if (!class_set(n->u.alt.n[i], set)) {
+				return 0;
+			}
+		}
+		return 1;
+
+	case AST_EXPR_SUBTRACT: {
+		unsigned char a[256], b[256];
+
+		memset(a, 0, sizeof a);
+		memset(b, 0, sizeof b);
+		if (!class_set(n->u.subtract.a, a) || !class_set(n->u.subtract.b, b)) {
+			return 0;
+		}
+		for (c = 0; c < 256; c++) {
+			set[c] |= a[c] && !b[c];
+		}
+		return 1;
+	}
+
+	default:
+		return 0;
+	}
+
+	for (c = from; c <= to; c++) {
+		set[c] = 1;
+		if (n->re_flags & RE_ICASE) {
+			set[(unsigned char) tolower(c)] = 1;
+			set[(unsigned char) toupper(c)] = 1;
+		}
+	}
+
+	return 1;
+}
+
+static void
+print_set(FILE *f, const unsigned char set[256])
+{
+	unsigned lo, hi;
+	int any = 0;
+
+	fprintf(f, "[");
+	for (lo = 0; lo < 256; lo = hi + 1) {
+		hi = lo;
+		if (!set[lo]) {
+			continue;
+		}
+		any = 1;
+		while (hi < 255 && set[hi + 1]) {
+			hi++;
+		}
+		fprintf(f, "\\x%02x", lo);
+		if (hi > lo) {
+			fprintf(f, "-\\x%02x", hi);
+		}
+	}
+	if (!any) {
+		fprintf(f, "^\\x00-\\xff");
+	}
+	fprintf(f, "]");
+}
+
 static void
 pp_atomic(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags,
 	struct ast_expr *n, const struct ast_expr *parent)
@@ -225,12 +312,19 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 			: n->u.anchor.is_end_nl ? "$" : "\\z");
 		break;
 
-	case AST_EXPR_SUBTRACT:
-		assert(!"unimplemented");
-		pp_iter(f, opt, re_flags, n->u.subtract.a);
-		fprintf(f, "-");
-		pp_iter(f, opt, re_flags, n->u.subtract.b);
+	case AST_EXPR_SUBTRACT: {
+		unsigned char set[256];
+
+		/* there's no syntax for subtraction; this comes from negated classes */
+		memset(set, 0, sizeof set);
+		if (!class_set(n, set)) {
+			assert(!"unimplemented");
+			break;
+		}
+
+		print_set(f, set);
 		break;
+	}
 
 	case AST_EXPR_RANGE:
 		if (n->u.range.from.u.literal.c == 0x00 &&
-- 
2.43.0


From 61708c34bd1c4a4444264a181d22fa233250e048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:34 +0000
Subject: [PATCH 022/154] fix: multi-string automata missed words that end
 inside a longer one

---
 src/libre/ac.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/libre/ac.c b/src/libre/ac.c
index e941260..61f613b 100644
--- a/src/libre/ac.c
+++ b/src/libre/ac.c
@@ -174,6 +174,15 @@ trie_add_word(struct trie_graph *g, const char *w, size_t n, const fsm_end_id_t
 	return g;
 }
 
+/* a word that ends at the failure state ends here too */
+static int
+inherit_output(struct trie_state *st)
+{
+	st->output = st->output | st->fail->output;
+
+	return state_set_copy(&st->endids, NULL, st->fail->endids);
+}
+
 int
 trie_add_failure_edges(struct trie_graph *g) {
 	struct trie_state **q;
@@ -197,6 +206,10 @@ trie_add_failure_edges(struct trie_graph *g) {
 		}
 
 		st->fail = g->root;
+		if (!inherit_output(st)) {
+			goto error;
+		}
+
 		q[top++] = st;
 	}
 
@@ -233,7 +246,9 @@ trie_add_failure_edges(struct trie_graph *g) {
 				nx->fail = fs;
 			}
 
-			nx->output = nx->output | fs->output;
+			if (!inherit_output(nx)) {
+				goto error;
+			}
 		}
 	}
 
@@ -242,6 +257,12 @@ trie_add_failure_edges(struct trie_graph *g) {
 	free(q);
 
 	return 0;
+
+error:
+
+	free(q);
+
+	return -1;
 }
 
 static struct trie_state *
-- 
2.43.0


From a26de1d90066a4b22f4d228cdeff23d20f0b6f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 023/154] fix: generating matches started from a stale state
 after trimming

---
 src/libfsm/gen.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libfsm/gen.c b/src/libfsm/gen.c
index 8b85514..1e8c3ee 100644
--- a/src/libfsm/gen.c
+++ b/src/libfsm/gen.c
@@ -319,6 +319,13 @@ gen_init(struct gen_ctx *ctx, struct fsm *fsm)
 		return false;
 	}
 
+	/* Trimming may have renumbered the start state, or removed
+	 * it entirely if there is no path from it to an end state. */
+	if (!fsm_getstart(ctx->fsm, &start)) {
+		ctx->done = true;	/* nothing matches */
+		return true;
+	}
+
 	for (size_t i = 0; i < count; i++) {
 		ctx->state_counts[i] = NO_COUNT;
 	}
-- 
2.43.0


From 4f61df927154284d27942bab40f9405e1ff73a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 024/154] fix: removing or replacing an edge's target read
 beyond the edge array

---
 src/adt/edgeset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 7705d37..4054ab6 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -804,7 +804,7 @@ edge_set_remove_state(struct edge_set **pset, fsm_state_t state)
 	while (i < set->count) {
 		const struct edge_group *eg = &set->groups[i];
 		if (eg->to == state) {
-			const size_t to_mv = set->count - i;
+			const size_t to_mv = set->count - i - 1;
 			memmove(&set->groups[i],
 			    &set->groups[i + 1],
 			    to_mv * sizeof(*eg));
@@ -1087,7 +1087,7 @@ edge_set_replace_state(struct edge_set **pset, const struct fsm_alloc *alloc,
 	for (i = 0; i < set->count; i++) {
 		struct edge_group *eg = &set->groups[i];
 		if (eg->to == old) {
-			const size_t to_mv = set->count - i;
+			const size_t to_mv = set->count - i - 1;
 			unsigned char label;
 			if (!find_first_group_label(eg, &label)) {
 				return 1; /* ignore empty group */
-- 
2.43.0


From e426cad5873cdbef6e4d662ecb0bd8a94ae2f3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 025/154] fix: copying an empty edge set into another
 dereferenced NULL

---
 src/adt/edgeset.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 4054ab6..7e90b10 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -651,6 +651,10 @@ edge_set_copy_into(struct edge_set **pdst, const struct fsm_alloc *alloc,
 	size_t sg_i, dg_i, w_i;	/* src/dst group index, word index */
 	struct edge_set *dst = *pdst;
 
+	if (src == NULL) {
+		return 1;
+	}
+
 	dg_i = 0;
 	sg_i = 0;
 	while (sg_i < src->count) {
-- 
2.43.0


From 3c1ee0edfd375a2231a94394418902a2e544da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 026/154] fix: renumbering states left epsilon sets unsorted

---
 src/adt/stateset.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index c2cc8b8..660fe90 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -377,6 +377,27 @@ state_set_add_bulk(struct state_set **setp, const struct fsm_alloc *alloc,
 	return 1;
 }
 
+/* Restore the order and uniqueness of a set after renumbering its contents. */
+static void
+state_set_normalise(struct state_set *set)
+{
+	size_t i, curr;
+
+	if (set->i < 2) {
+		return;
+	}
+
+	qsort(&set->a[0], set->i, sizeof set->a[0], state_set_cmpptr);
+
+	for (i = 1, curr = 1; i < set->i; i++) {
+		if (set->a[i] != set->a[i - 1]) {
+			set->a[curr++] = set->a[i];
+		}
+	}
+
+	set->i = curr;
+}
+
 int
 state_set_copy(struct state_set **dst, const struct fsm_alloc *alloc,
 	const struct state_set *src)
@@ -420,7 +441,6 @@ state_set_compact(struct state_set **setp,
 		if (new_id == FSM_STATE_REMAP_NO_STATE) {
 			*setp = NULL;
 		} else {
-			assert(new_id <= s);
 			*setp = SINGLETON_ENCODE(new_id);
 		}
 		return;
@@ -453,6 +473,9 @@ state_set_compact(struct state_set **setp,
 	set->i -= removed;
 	assert(set->i == dst);
 
+	/* the new ids aren't necessarily in the same order as the old */
+	state_set_normalise(set);
+
 #if LOG_COMPACT
 	for (i = 0; i < set->i; i++) {
 		fprintf(stderr, "state_set_compact: now set->a[%zu/%zu]: %d\n", i, set->i, set->a[i]);
@@ -667,4 +690,6 @@ state_set_replace(struct state_set **setp, fsm_state_t old, fsm_state_t new)
 			set->a[i] = new;
 		}
 	}
+
+	state_set_normalise(set);
 }
-- 
2.43.0


From 17bc3a76914dee789307d2840c477ef2f625d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 027/154] fix: fsm_setend ignored true values other than 1

---
 src/libfsm/end.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/end.c b/src/libfsm/end.c
index 5a4aa0d..c0eb220 100644
--- a/src/libfsm/end.c
+++ b/src/libfsm/end.c
@@ -26,7 +26,7 @@ fsm_setend(struct fsm *fsm, fsm_state_t state, int end)
 		return;
 	}
 
-	switch (end) {
+	switch (!!end) {
 	case 0:
 		assert(fsm->endcount > 0);
 		fsm->endcount--;
-- 
2.43.0


From 16fc7603ef4c2ca3e9554041ae9b3158b382b0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 028/154] fix: compacting leaked removed states' ids and lost
 count of the table

---
 src/libfsm/eager_output.c | 1 +
 src/libfsm/endids.c       | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/eager_output.c b/src/libfsm/eager_output.c
index a6dcdc8..adb31e3 100644
--- a/src/libfsm/eager_output.c
+++ b/src/libfsm/eager_output.c
@@ -410,6 +410,7 @@ fsm_eager_output_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_c
 		const fsm_state_t nstate = mapping[ob->state];
 		if (nstate == FSM_STATE_REMAP_NO_STATE) {
 			f_free(fsm->alloc, ob->entry);
+			eoi->htab.buckets_used--;
 			continue;
 		}
 
diff --git a/src/libfsm/endids.c b/src/libfsm/endids.c
index 6d8e885..2ce25a5 100644
--- a/src/libfsm/endids.c
+++ b/src/libfsm/endids.c
@@ -1068,7 +1068,11 @@ fsm_endid_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count)
 
 		assert(ob->state < mapping_count);
 		const fsm_state_t nstate = mapping[ob->state];
-		if (nstate == FSM_STATE_REMAP_NO_STATE) { continue; }
+		if (nstate == FSM_STATE_REMAP_NO_STATE) {
+			f_free(fsm->alloc, ob->ids);
+			ei->buckets_used--;
+			continue;
+		}
 
 		const uint64_t hash = hash_id(nstate);
 
-- 
2.43.0


From d9cb70ff101b4e7eca78e34fea3de9a3c0664cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 029/154] fix: removing a state left the start state, ids and
 outputs behind

---
 src/libfsm/state.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 786bc3a..d4314c2 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -119,10 +119,32 @@ int
 fsm_removestate(struct fsm *fsm, fsm_state_t state)
 {
 	fsm_state_t start, i;
+	fsm_state_t *mapping;
 
 	assert(fsm != NULL);
 	assert(state < fsm->statecount);
 
+	/* for metadata stored outside of struct fsm_state */
+	mapping = f_malloc(fsm->alloc, fsm->statecount * sizeof mapping[0]);
+	if (mapping == NULL) {
+		return 0;
+	}
+
+	for (i = 0; i < fsm->statecount; i++) {
+		mapping[i] = i;
+	}
+
+	mapping[fsm->statecount - 1] = state;
+	mapping[state] = FSM_STATE_REMAP_NO_STATE;
+
+	if (!fsm_endid_compact(fsm, mapping, fsm->statecount)
+	|| !fsm_eager_output_compact(fsm, mapping, fsm->statecount)) {
+		f_free(fsm->alloc, mapping);
+		return 0;
+	}
+
+	f_free(fsm->alloc, mapping);
+
 	/* for endcount accounting */
 	fsm_setend(fsm, state, 0);
 
@@ -158,6 +180,10 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 				return 0;
 			}
 		}
+
+		if (fsm_getstart(fsm, &start) && start == fsm->statecount - 1) {
+			fsm_setstart(fsm, state);
+		}
 	}
 
 	fsm->statecount--;
-- 
2.43.0


From d756bb9ad054bb3cb03e0b475e18b4f00cdfbad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 030/154] fix: merging states lost ends, ids, outputs and the
 start, and iterated over a changing set

---
 src/libfsm/mergestates.c | 92 ++++++++++++++++++++++++++++++++--------
 1 file changed, 74 insertions(+), 18 deletions(-)

diff --git a/src/libfsm/mergestates.c b/src/libfsm/mergestates.c
index 77d5e2f..0508589 100644
--- a/src/libfsm/mergestates.c
+++ b/src/libfsm/mergestates.c
@@ -6,21 +6,82 @@
 
 #include <assert.h>
 #include <stdlib.h>
+#include <stdio.h>
 
 #include <fsm/fsm.h>
+#include <fsm/pred.h>
 
+#include <adt/alloc.h>
 #include <adt/set.h>
 #include <adt/stateset.h>
 #include <adt/edgeset.h>
 
 #include "internal.h"
+#include "endids.h"
+
+/*
+ * Everything about b which isn't an edge is added to a.
+ */
+static int
+merge_metadata(struct fsm *fsm, fsm_state_t a, fsm_state_t b)
+{
+	fsm_state_t start;
+	size_t count;
+
+	if (fsm_isend(fsm, b)) {
+		count = fsm_endid_count(fsm, b);
+		if (count > 0) {
+			fsm_end_id_t *ids;
+			int r;
+
+			ids = f_malloc(fsm->alloc, count * sizeof *ids);
+			if (ids == NULL) {
+				return 0;
+			}
+
+			r = fsm_endid_get(fsm, b, count, ids)
+				&& fsm_endid_set_bulk(fsm, a, count, ids, FSM_ENDID_BULK_APPEND);
+			f_free(fsm->alloc, ids);
+			if (!r) {
+				return 0;
+			}
+		}
+
+		fsm_setend(fsm, a, 1);
+	}
+
+	count = fsm_eager_output_count(fsm, b);
+	if (count > 0) {
+		fsm_output_id_t *ids;
+		size_t i;
+		int r;
+
+		ids = f_malloc(fsm->alloc, count * sizeof *ids);
+		if (ids == NULL) {
+			return 0;
+		}
+
+		r = fsm_eager_output_get(fsm, b, count, ids);
+		for (i = 0; r && i < count; i++) {
+			r = fsm_eager_output_set(fsm, a, ids[i]);
+		}
+		f_free(fsm->alloc, ids);
+		if (!r) {
+			return 0;
+		}
+	}
+
+	if (fsm_getstart(fsm, &start) && start == b) {
+		fsm_setstart(fsm, a);
+	}
+
+	return 1;
+}
 
 int
 fsm_mergestates(struct fsm *fsm, fsm_state_t a, fsm_state_t b,
 	fsm_state_t *q)
 {
-	struct fsm_edge e;
-	struct edge_iter it;
 	fsm_state_t i;
 
 	assert(fsm != NULL);
@@ -37,31 +98,26 @@ fsm_mergestates(struct fsm *fsm, fsm_state_t a, fsm_state_t b,
 
 	/* edges to b */
 	for (i = 0; i < fsm->statecount; i++) {
-		if (state_set_contains(fsm->states[i].epsilons, b)) {
-			state_set_remove(&fsm->states[i].epsilons, b);
+		state_set_replace(&fsm->states[i].epsilons, b, a);
 
-			if (!fsm_addedge_epsilon(fsm, i, a)) {
-				return 0;
-			}
-		}
-
-		for (edge_set_reset(fsm->states[i].edges, &it); edge_set_next(&it, &e); ) {
-			if (e.state != b) {
-				continue;
-			}
-
-			if (!fsm_addedge_literal(fsm, i, a, e.symbol)) {
-				return 0;
-			}
+		if (!edge_set_replace_state(&fsm->states[i].edges, fsm->alloc, b, a)) {
+			return 0;
 		}
+	}
 
-		edge_set_remove_state(&fsm->states[i].edges, b);
+	if (!merge_metadata(fsm, a, b)) {
+		return 0;
 	}
 
 	if (!fsm_removestate(fsm, b)) {
 		return 0;
 	}
 
+	/* removing b moves the last state into its place */
+	if (a == fsm->statecount) {
+		a = b;
+	}
+
 	if (q != NULL) {
 		*q = a;
 	}
-- 
2.43.0


From ff1592acabe9ba848bf213698f7bfd0ba3081782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 031/154] fix: remapping end ids visited states which are no
 longer ends

---
 src/libfsm/endids.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/endids.c b/src/libfsm/endids.c
index 2ce25a5..1ec5bad 100644
--- a/src/libfsm/endids.c
+++ b/src/libfsm/endids.c
@@ -612,7 +612,7 @@ fsm_mapendids(struct fsm *fsm,
 	for (i = 0; i < ei->bucket_count; i++) {
 		struct endid_info_bucket *b = &ei->buckets[i];
 
-		if (b->state != BUCKET_NO_STATE) {
+		if (b->state != BUCKET_NO_STATE && fsm_isend(fsm, b->state)) {
 			int ret;
 			size_t nwritten = 0;
 
-- 
2.43.0


From 107b7560b4cda3af17cfdaf8d1d6fa6e3cc45c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 032/154] fix: fsm_vm_match_file: an empty input may match

The start state was never entered for an empty stream, so an automaton
accepting the empty string was reported as not matching.
---
 src/libfsm/vm.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/vm.c b/src/libfsm/vm.c
index 0eb4fa1..0ddda1a 100644
--- a/src/libfsm/vm.c
+++ b/src/libfsm/vm.c
@@ -193,7 +193,12 @@ fsm_vm_match_file(const struct fsm_dfavm *vm, FILE *f)
 	enum dfavm_state result;
 	char buf[4096];
 
-	result = VM_FAIL;
+	/* an empty input is also an input, it may be accepted by the start state */
+	result = vm_match(vm, &st, buf, 0);
+	if (result != VM_MATCHING) {
+		return result == VM_SUCCESS;
+	}
+
 	for (;;) {
 		size_t nb;
 
-- 
2.43.0


From 01e15d465b834dd01dad8a532af3490a232e40f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 033/154] fix: vm v1: decode far branch offsets without
 overflowing int

---
 src/libfsm/vm/v1.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/vm/v1.c b/src/libfsm/vm/v1.c
index c9af206..4e3c988 100644
--- a/src/libfsm/vm/v1.c
+++ b/src/libfsm/vm/v1.c
@@ -297,7 +297,8 @@ running_print_op_v1(const unsigned char *ops, uint32_t pc, const char *sp, const
 					uint32_t u;
 					int32_t  i;
 				} packed;
-				packed.u = ops[pc+1] | (ops[pc+2] << 8) | (ops[pc+3] << 16) | (ops[pc+4] << 24);
+				packed.u = ((uint32_t) ops[pc+1] <<  0) | ((uint32_t) ops[pc+2] <<  8)
+				         | ((uint32_t) ops[pc+3] << 16) | ((uint32_t) ops[pc+4] << 24);
 				bytes[0] = ops[pc+1];
 				bytes[1] = ops[pc+2];
 				bytes[2] = ops[pc+3];
@@ -411,7 +412,8 @@ vm_match_v1(const struct dfavm_v1 *vm, struct vm_state *st, const char *buf, siz
 						uint32_t u;
 						int32_t  i;
 					} packed;
-					packed.u = vm->ops[off+0] | (vm->ops[off+1] << 8) | (vm->ops[off+2] << 16) | (vm->ops[off+3] << 24);
+					packed.u = ((uint32_t) vm->ops[off+0] <<  0) | ((uint32_t) vm->ops[off+1] <<  8)
+					         | ((uint32_t) vm->ops[off+2] << 16) | ((uint32_t) vm->ops[off+3] << 24);
 					rel = packed.i;
 				}
 
-- 
2.43.0


From 3bb966c9e7bd366d15e9fc6a83a8b04938c35ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 034/154] fix: vm v2: share addresses between far branches

The instruction has 16 bits for the index into the address table, which
was silently truncated for programs with more than 65536 far branches.
Destinations are now shared, and running out of indexes is an error.
---
 src/libfsm/vm/v2.c | 51 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/libfsm/vm/v2.c b/src/libfsm/vm/v2.c
index e217f6d..9fc1182 100644
--- a/src/libfsm/vm/v2.c
+++ b/src/libfsm/vm/v2.c
@@ -5,6 +5,7 @@
  */
 
 #include <assert.h>
+#include <errno.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <stdio.h>
@@ -39,6 +40,11 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 	uint32_t *enc;
 	uint32_t *abuf;
 	uint32_t alen,acap;
+	uint32_t *addr; /* address table index for each destination, UINT32_MAX for none */
+
+	enc  = NULL;
+	abuf = NULL;
+	addr = NULL;
 
 	ret = malloc(sizeof *ret);
 	if (ret == NULL) {
@@ -60,10 +66,18 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 	vm->ops = enc;
 	vm->len = ninstr;
 
-	abuf = NULL;
 	alen = 0;
 	acap = 0;
 
+	addr = malloc(ninstr * sizeof *addr);
+	if (addr == NULL) {
+		goto error;
+	}
+
+	for (i = 0; i < ninstr; i++) {
+		addr[i] = UINT32_MAX;
+	}
+
 	for (i = 0; i < ninstr; i++) {
 		unsigned char cmp_bits, instr_bits, result_bit, cmp_arg;
 		const struct dfavm_vm_op *op = &instr[i];
@@ -97,10 +111,17 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 					dest_arg = (int16_t)state_diff;
 				}
 				else {
-					/* allocate address in address table */
 					instr_bits = VM_V2_OP_IBRANCH;
 
-					if (alen >= acap) {
+					/* destinations are shared, the instruction has only
+					 * 16 bits to index the address table */
+					if (addr[dest_state] == UINT32_MAX && alen > UINT16_MAX) {
+						errno = ERANGE;
+						goto error;
+					}
+
+					/* allocate address in address table */
+					if (addr[dest_state] == UINT32_MAX && alen >= acap) {
 						size_t new_acap;
 						uint32_t *new_abuf;
 
@@ -123,12 +144,17 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 						vm->abuf = new_abuf;
 					}
 
-					assert(alen < acap);
-					assert(abuf != NULL);
+					if (addr[dest_state] == UINT32_MAX) {
+						assert(alen < acap);
+						assert(abuf != NULL);
 
-					abuf[alen] = dest_state;
-					dest_arg = alen++;
-					vm->alen = alen;
+						addr[dest_state] = alen;
+						abuf[alen] = dest_state;
+						alen++;
+						vm->alen = alen;
+					}
+
+					dest_arg = addr[dest_state];
 				}
 
 				cmp_bits   = op->cmp;
@@ -154,12 +180,15 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 		enc[i] = instr;
 	}
 
+	free(addr);
+
 	return ret;
 
 error:
-	if (ret != NULL) {
-		free(ret);
-	}
+	free(addr);
+	free(abuf);
+	free(enc);
+	free(ret);
 
 	return NULL;
 }
-- 
2.43.0


From c62f1e47fb54ba54cd9730466fe25f0d4530d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:52 +0000
Subject: [PATCH 035/154] fix: fsm_shortest: consider every symbol of an edge
 group

Only the lowest symbol was costed, so the path found was not the one of
least cost where the cost depends on the symbol.
---
 src/libfsm/shortest.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index 45a441a..79beb42 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -108,6 +108,7 @@ fsm_shortest(const struct fsm *fsm,
 			struct priq *v;
 			unsigned c;
 			unsigned symbol = (unsigned)-1;
+			unsigned i;
 
 			v = priq_find(todo, info.to);
 
@@ -119,22 +120,23 @@ fsm_shortest(const struct fsm *fsm,
 
 			assert(v->state == info.to);
 
-			/* find first character in bitset. */
-			for (size_t i = 0; i < 4 && symbol == (unsigned)-1; i++) {
-				const uint64_t w = info.symbols[i];
-				if (w != 0) {
-					for (size_t bit = 0; bit < 64; bit++) {
-						if (u64bitset_get(&w, bit)) {
-							symbol = 64*i + bit;
-							break;
-						}
-					}
+			/* find the first character of least cost in bitset. */
+			c = FSM_COST_INFINITY;
+			for (i = 0; i < 256; i++) {
+				unsigned ci;
+
+				if (!u64bitset_get(info.symbols, i)) {
+					continue;
+				}
+
+				ci = cost(u->state, v->state, (char)i);
+				if (symbol == (unsigned)-1 || ci < c) {
+					symbol = i;
+					c = ci;
 				}
 			}
 			assert(symbol != (unsigned)-1); /* found */
 
-			c = cost(u->state, v->state, (char)symbol);
-
 			/* relax */
 			if (v->cost > u->cost + c) {
 				v->cost = u->cost + c;
-- 
2.43.0


From 66c74461aea09f9555c628536d552be06aab7c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:52 +0000
Subject: [PATCH 036/154] fix: fsm_shortest: don't overflow when summing costs

---
 src/libfsm/shortest.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index 79beb42..d89d511 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -137,6 +137,11 @@ fsm_shortest(const struct fsm *fsm,
 			}
 			assert(symbol != (unsigned)-1); /* found */
 
+			/* an edge of infinite cost can't be followed */
+			if (c >= FSM_COST_INFINITY - u->cost) {
+				continue;
+			}
+
 			/* relax */
 			if (v->cost > u->cost + c) {
 				v->cost = u->cost + c;
-- 
2.43.0


From c8d6661ed17dbf12a1b1c538c1dd88c9dbb06c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:52 +0000
Subject: [PATCH 037/154] fix: fsm_shortest: find the path from the given state

The start argument was ignored, paths were always found from the start
state of the FSM.
---
 src/libfsm/shortest.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index d89d511..0646a36 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -6,7 +6,6 @@
 
 #include <assert.h>
 #include <stddef.h>
-#include <errno.h>
 
 #include <fsm/fsm.h>
 #include <fsm/cost.h>
@@ -37,8 +36,6 @@ fsm_shortest(const struct fsm *fsm,
 	assert(goal < fsm->statecount);
 	assert(cost != NULL);
 
-	(void)start; /* unused */
-
 	/*
 	 * We find a least-cost ("shortest") path by Dijkstra's algorithm.
 	 *
@@ -64,16 +61,11 @@ fsm_shortest(const struct fsm *fsm,
 	path = NULL;
 
 	{
-		fsm_state_t qs, i;
-
-		if (!fsm_getstart(fsm, &qs)) {
-			errno = EINVAL;
-			goto error;
-		}
+		fsm_state_t i;
 
 		for (i = 0; i < fsm->statecount; i++) {
 			u = priq_push(fsm->alloc, &todo, i,
-				i == qs ? 0 : FSM_COST_INFINITY);
+				i == start ? 0 : FSM_COST_INFINITY);
 			if (u == NULL) {
 				goto error;
 			}
@@ -82,7 +74,7 @@ fsm_shortest(const struct fsm *fsm,
 			 * It's non-sensical to describe the start state as being reached
 			 * by a symbol; this field is not used.
 			 */
-			if (i == qs) {
+			if (i == start) {
 				u->c = '\0';
 			}
 		}
-- 
2.43.0


From 5ab82150899dc3482df18f99c7af3a0fc1833818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:52 +0000
Subject: [PATCH 038/154] fix: fsm_shortest: an unreachable goal is not part of
 the path

The state pushed was the first unreachable state found, which may well be
the goal itself.
---
 src/libfsm/shortest.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index 0646a36..71f4481 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -166,11 +166,11 @@ none:
 	 * This is slightly ugly: the idea is to return something non-NULL here;
 	 * so that the caller may distinguish this case from error.
 	 *
-	 * The state u is used just because it may never be the goal state,
+	 * The start state is used because it may never be the goal state,
 	 * (otherwise we would have been able to reach it).
 	 */
 
-	if (!path_push(fsm->alloc, &path, u->state, u->c)) {
+	if (!path_push(fsm->alloc, &path, start, '\0')) {
 		goto error;
 	}
 
-- 
2.43.0


From 1feb72fd69aa35308d07db5f0e52d94b3b90db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:52 +0000
Subject: [PATCH 039/154] fix: fsm_example: truncate at the first character
 which doesn't fit

An escape which didn't fit was skipped, and the characters after it
written, giving text which is not part of any example.
---
 src/libfsm/example.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/libfsm/example.c b/src/libfsm/example.c
index 9b30ad9..b90a53a 100644
--- a/src/libfsm/example.c
+++ b/src/libfsm/example.c
@@ -28,6 +28,7 @@ fsm_example(const struct fsm *fsm, fsm_state_t goal,
 	struct path *path;
 	fsm_state_t start;
 	size_t n;
+	int full;
 
 	assert(fsm != NULL);
 	assert(!fsm_has(fsm, fsm_hasepsilons));
@@ -50,25 +51,23 @@ fsm_example(const struct fsm *fsm, fsm_state_t goal,
 	}
 
 	n = 0;
-
-	if (path->state != start) {
-		/* no known path to goal */
-		goto done;
-	}
+	full = 0;
 
 	assert(path->c == '\0');
 
 	for (p = path->next; p != NULL; p = p->next) {
 		if (isprint((unsigned char)p->c)) {
-			if (bufsz > 1) {
+			if (!full && bufsz > 1) {
 				*buf++ = p->c;
 				bufsz--;
+			} else {
+				full = 1;
 			}
 
 			n++;
 		} else {
 			/* "\xHH", 4 chars */
-			if (bufsz > 4) {
+			if (!full && bufsz > 4) {
 				char hx[5];
 				unsigned v = (unsigned char)p->c;
 				snprintf(&hx[0],sizeof hx, "\\x%02x", v);
@@ -78,6 +77,8 @@ fsm_example(const struct fsm *fsm, fsm_state_t goal,
 				*buf++ = hx[3];
 
 				bufsz -= 4;
+			} else {
+				full = 1;
 			}
 
 			n += 4;
@@ -85,8 +86,6 @@ fsm_example(const struct fsm *fsm, fsm_state_t goal,
 
 	}
 
-done:
-
 	if (bufsz > 0) {
 		*buf++ = '\0';
 		bufsz--;
-- 
2.43.0


From 415c9b11e15c3375ba3866be0ab27542c9554720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:29 +0000
Subject: [PATCH 040/154] fix: end ids in .fsm text are decimal

They are printed in decimal, and were parsed as hexadecimal.
---
 src/libfsm/parser.act | 2 +-
 src/libfsm/parser.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/parser.act b/src/libfsm/parser.act
index 2596c3c..7b9d4f5 100644
--- a/src/libfsm/parser.act
+++ b/src/libfsm/parser.act
@@ -258,7 +258,7 @@
 
 		errno = 0;
 
-		u = strtoul(lex_state->buf.a, &e, 16);
+		u = strtoul(lex_state->buf.a, &e, 10);
 
 		if ((u == ULONG_MAX && errno == ERANGE) || u > FSM_END_ID_MAX) {
 			err(lex_state, "end id %s out of range: expected 0..%u inclusive",
diff --git a/src/libfsm/parser.c b/src/libfsm/parser.c
index ec9bf4f..2d90b41 100644
--- a/src/libfsm/parser.c
+++ b/src/libfsm/parser.c
@@ -1305,7 +1305,7 @@ p_xend_C_Cend_Hid(fsm fsm, lex_state lex_state, act_state act_state, state ZIs)
 
 		errno = 0;
 
-		u = strtoul(lex_state->buf.a, &e, 16);
+		u = strtoul(lex_state->buf.a, &e, 10);
 
 		if ((u == ULONG_MAX && errno == ERANGE) || u > FSM_END_ID_MAX) {
 			err(lex_state, "end id %s out of range: expected 0..%u inclusive",
-- 
2.43.0


From 2950a865fa815004eb7f4b81da904b08e66e76d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:32 +0000
Subject: [PATCH 041/154] fix: a NUL in a .fsm label is a character like any
 other

It failed an assertion.
---
 src/libfsm/parser.act | 2 +-
 src/libfsm/parser.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/parser.act b/src/libfsm/parser.act
index 7b9d4f5..d64fc2d 100644
--- a/src/libfsm/parser.act
+++ b/src/libfsm/parser.act
@@ -241,7 +241,7 @@
 	@};
 
 	CHAR: () -> (c :char) = @{
-		assert(lex_state->buf.a[0] != '\0');
+		/* the character itself may be NUL */
 		assert(lex_state->buf.a[1] == '\0');
 
 		@c = lex_state->buf.a[0];
diff --git a/src/libfsm/parser.c b/src/libfsm/parser.c
index 2d90b41..88c4747 100644
--- a/src/libfsm/parser.c
+++ b/src/libfsm/parser.c
@@ -181,7 +181,7 @@ p_label(fsm fsm, lex_state lex_state, act_state act_state, char *ZOc)
 					{
 #line 243 "src/libfsm/parser.act"
 
-		assert(lex_state->buf.a[0] != '\0');
+		/* the character itself may be NUL */
 		assert(lex_state->buf.a[1] == '\0');
 
 		ZIc = lex_state->buf.a[0];
-- 
2.43.0


From 86883896e4f2df1a4ccdf86107cf1ca75d1ea655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 042/154] fix: don't drop the character after a shortened range
 when printing a character class

Where a range was cut short at the end of its class (9, Z or z) or at
UCHAR_MAX, the search for the next range began one past the first
character not printed, so ':' and '[' and so on went missing.
---
 src/adt/bitmap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/adt/bitmap.c b/src/adt/bitmap.c
index 1fb0160..07d6772 100644
--- a/src/adt/bitmap.c
+++ b/src/adt/bitmap.c
@@ -247,6 +247,9 @@ bm_print(FILE *f, const struct fsm_options *opt, const struct bm *bm,
 				return -1;
 			}
 			n += r;
+
+			/* the endpoint may have been brought down, continue from there */
+			hi--;
 			break;
 		}
 	}
-- 
2.43.0


From 5769a4aa667c1584dbe796a8c9acc66775534657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 043/154] fix: print endleaf entries for JSON as objects with
 named members

{ 3, ... } isn't JSON, whatever the accept hook produces.
---
 src/libfsm/print/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/json.c b/src/libfsm/print/json.c
index b1e9f0c..7451a42 100644
--- a/src/libfsm/print/json.c
+++ b/src/libfsm/print/json.c
@@ -278,7 +278,7 @@ fsm_print_json(FILE *f,
 				fprintf(f, ", ");
 			}
 
-			fprintf(f, "{ %u, ", i);
+			fprintf(f, "{ \"state\": %u, \"endleaf\": ", i);
 
 			const struct fsm_state_metadata state_metadata = {
 				.end_ids = ids,
-- 
2.43.0


From 9a6237a8b89252157a070d5562953c7b6c25188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 044/154] fix: mark truncated examples as truncated

An example that was one character too long, or truncated before an
escape, was shown without the ellipsis, as if it were complete.
---
 src/libfsm/print/ir.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/ir.c b/src/libfsm/print/ir.c
index d8e29b2..6baedb9 100644
--- a/src/libfsm/print/ir.c
+++ b/src/libfsm/print/ir.c
@@ -489,8 +489,10 @@ make_example(const struct fsm *fsm, fsm_state_t s, char **example)
 		}
 
 		p = tmp;
-	} else if ((size_t) n > count + 1) {
-		strcpy(p + count, "...");
+	} else {
+		/* n > count, so the example was truncated. That may be to fewer than
+		 * count characters, because escapes are not split. */
+		strcpy(p + strlen(p), "...");
 	}
 
 done:
-- 
2.43.0


From cd1122646f95df2fc43a3bbba324eb51a899b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 045/154] fix: balance parentheses in the generated
 fsm_addstate() call

---
 src/libfsm/print/api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/api.c b/src/libfsm/print/api.c
index 43b8cb2..0dca60e 100644
--- a/src/libfsm/print/api.c
+++ b/src/libfsm/print/api.c
@@ -126,7 +126,7 @@ fsm_print_api(FILE *f,
 	fprintf(f, "\t\t}\n");
 	fprintf(f, "\n");
 
-	fprintf(f, "\t\tif (!fsm_addstate(fsm, &s[i]) {\n");
+	fprintf(f, "\t\tif (!fsm_addstate(fsm, &s[i])) {\n");
 	fprintf(f, "\t\t\treturn 0;\n");
 	fprintf(f, "\t\t}\n");
 
-- 
2.43.0


From db256d2313eddee59ecb4a8518fd5ed67d7baaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 046/154] fix: generate fsm_endid_set() with the end ids,
 rather than their indexes

---
 src/libfsm/print/api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/api.c b/src/libfsm/print/api.c
index 0dca60e..fdf0705 100644
--- a/src/libfsm/print/api.c
+++ b/src/libfsm/print/api.c
@@ -154,7 +154,7 @@ fsm_print_api(FILE *f,
 
 			fprintf(f, "\tif (fsm_isend(fsm, s[%u])) {\n", end);
 			for (size_t id = 0; id < count; id++) {
-				fprintf(f, "\t\tif (!fsm_endid_set(fsm, s[%u], %zu)) { return 0; }\n", end, id);
+				fprintf(f, "\t\tif (!fsm_endid_set(fsm, s[%u], %u)) { return 0; }\n", end, ids[id]);
 			}
 			fprintf(f, "\t}\n");
 			fprintf(f, "\n");
-- 
2.43.0


From 175e21aec2acf7ae80d78e0f43461c492d831001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 047/154] fix: keep start and end distinct in generated API
 code

When the only end state was also the start, *y was left unconnected and
so the automaton that was built matched nothing.
---
 src/libfsm/print/api.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/api.c b/src/libfsm/print/api.c
index fdf0705..153afd6 100644
--- a/src/libfsm/print/api.c
+++ b/src/libfsm/print/api.c
@@ -50,6 +50,7 @@ fsm_print_api(FILE *f,
 {
 	struct fsm *fsm;
 	fsm_state_t start, end;
+	fsm_state_t src; /* for end ids */
 	struct bm *a; /* indexed by "to" state number */
 	unsigned int from;
 
@@ -77,6 +78,19 @@ fsm_print_api(FILE *f,
 		goto error;
 	}
 
+	src = end;
+
+	/* the caller provides *x and *y as distinct states */
+	if (end == start) {
+		if (!fsm_addstate(fsm, &end)) {
+			goto error;
+		}
+
+		if (!fsm_addedge_epsilon(fsm, start, end)) {
+			goto error;
+		}
+	}
+
 /* TODO: leaf callback for opaques */
 
 	if (opt->fragment) {
@@ -138,7 +152,7 @@ fsm_print_api(FILE *f,
 	{
 		size_t count;
 
-		count = fsm_endid_count(fsm, end);
+		count = fsm_endid_count(fsm, src);
 		if (count > 0) {
 			fsm_end_id_t *ids;
 			int res;
@@ -149,7 +163,7 @@ fsm_print_api(FILE *f,
 				goto error;
 			}
 
-			res = fsm_endid_get(fsm, end, count, ids);
+			res = fsm_endid_get(fsm, src, count, ids);
 			assert(res == 1);
 
 			fprintf(f, "\tif (fsm_isend(fsm, s[%u])) {\n", end);
-- 
2.43.0


From 3a755aa609194d08f17a3305ea64a67e63410c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 048/154] fix: link start-anchored patterns of one character to
 their eager output

The edges to be linked from the global anchored start are copied before
edges to the unanchored end loop are redirected to the state carrying
the eager output. Where the first character of a pattern is also its
last (as for ^a), the copies bypassed that state, and the pattern never
reported a match.
---
 src/libfsm/union.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index afeabe0..163c3af 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -580,6 +580,15 @@ modify_group_nfa(struct fsm *nfa, size_t id, struct analysis_info *ainfo, size_t
 			}
 		}
 
+		/* Likewise for the copies of those edges which will be linked
+		 * from the global anchored start. */
+		if (ainfo->unanchored_end_loop != NO_STATE) {
+			if (!edge_set_replace_state(&ainfo->anchored_firsts, nfa->alloc,
+				ainfo->unanchored_end_loop, ainfo->eager_match_state)) {
+				return false;
+			}
+		}
+
 		state_set_reset(ainfo->needs_indirect_epsilon_edge_to_eager_match_state, &si);
 		fsm_state_t intermediate_i;
 		while (state_set_next(&si, &intermediate_i)) {
-- 
2.43.0


From e38f3cda3f961b1bc8b9351818aa53a0385e3953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 049/154] fix: tell anchored empty matches from unanchored ones
 per alternative in pattern groups

---
 src/libfsm/union.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 163c3af..5d90b56 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -38,6 +38,10 @@
 /* State/edge info gathered about an NFA. Used by fsm_union_repeated_pattern_group. */
 struct analysis_info {
 	bool nullable;          /* Does the NFA match the empty string? */
+
+	/* Can the NFA match the empty string anywhere, rather than only
+	 * where that's anchored at the end? This can differ per alternative. */
+	bool nullable_unanchored_end;
 	fsm_state_t start;	/* start state */
 
 	/* The states with a /./ self edge representing the unanchored
@@ -423,6 +427,8 @@ analyze_group_nfa(const struct fsm *nfa, struct analysis_info *ainfo)
 	 * later. It's arguably pointless to combine "" with other regexes, because it will always
 	 * trivially match, but otherwise it would never match. */
 	ainfo->nullable = start_state_epsilon_closure_matches_empty_string(nfa, eclosures[ainfo->start]);
+	ainfo->nullable_unanchored_end = ainfo->unanchored_end_loop != NO_STATE
+	    && state_set_contains(eclosures[ainfo->start], ainfo->unanchored_end_loop);
 
 	/* Collect states that lead to an anchored end or eager match. */
 	for (size_t s_i = 0; s_i < state_count; s_i++) {
@@ -515,8 +521,7 @@ replace_labeled_edge(struct fsm *nfa, fsm_state_t from_state, fsm_state_t old_to
 static bool
 modify_group_nfa(struct fsm *nfa, size_t id, struct analysis_info *ainfo, size_t id_base)
 {
-	const bool nullable_and_unanchored_end = ainfo->nullable
-	    && ainfo->unanchored_end_loop != NO_STATE;
+	const bool nullable_and_unanchored_end = ainfo->nullable_unanchored_end;
 	const bool log = 0 || (LOG_ANALYZE_GROUP_NFA > 0);
 
 	/* Add the eager match state if there are eager match states
@@ -834,7 +839,7 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 			/* If the NFA matches the empty string and is not anchored at the end, then
 			 * add an epsilon edge from the global start directly to its eager match state.
 			 * This ensures all inputs will match this group NFA when combined. */
-			if (ainfo->nullable) {
+			if (ainfo->nullable_unanchored_end) {
 				assert(ainfo->unanchored_end_loop != NO_STATE);
 				if (!fsm_addedge_epsilon(merged, global_start, ainfo->eager_match_state)) {
 					goto fail;
@@ -844,7 +849,9 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 					    global_start, ainfo->eager_match_state);
 				}
 			}
-		} else {
+		}
+
+		if (!ainfo->nullable_unanchored_end) {
 			/* If the NFA matches an end-anchored empty string, then add an epsilon edge from
 			 * the global start to an anchored end, which has an endid. */
 			if (ainfo->nullable && !state_set_empty(ainfo->anchored_ends)) {
-- 
2.43.0


From af65be88cb121477a8475beef568636f4b95d7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 050/154] fix: call the args hook when there is no accept hook

---
 src/libfsm/print.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print.c b/src/libfsm/print.c
index bdb092d..ab68be3 100644
--- a/src/libfsm/print.c
+++ b/src/libfsm/print.c
@@ -38,7 +38,7 @@ print_hook_args(FILE *f,
 		assert(lang_opaque == NULL);
 	}
 
-	if (hooks->accept != NULL) {
+	if (hooks->args != NULL) {
 		return hooks->args(f, opt,
 			lang_opaque, hooks->hook_opaque);
 	} else if (default_args != NULL) {
-- 
2.43.0


From f50965b02f77d1cd7b1e02c23c2a195bb4bb9d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 051/154] fix: vmc output for an unconditional match with
 unreachable states remaining

---
 src/libfsm/print/vmc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/vmc.c b/src/libfsm/print/vmc.c
index b427a9c..f4291ad 100644
--- a/src/libfsm/print/vmc.c
+++ b/src/libfsm/print/vmc.c
@@ -414,8 +414,8 @@ fsm_print_cfrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP) {
-		assert(ops->next == NULL);
+	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP && ops->next == NULL) {
+		/* nothing to fetch */
 	} else {
 		switch (opt->io) {
 		case FSM_IO_GETC:
-- 
2.43.0


From da1140d4405505917969141d479f0750ff1d0f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 052/154] fix: do not emit strncmp() for sequences containing
 NUL in vmc output

---
 src/libfsm/print/vmc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/print/vmc.c b/src/libfsm/print/vmc.c
index f4291ad..9cb195d 100644
--- a/src/libfsm/print/vmc.c
+++ b/src/libfsm/print/vmc.c
@@ -477,7 +477,9 @@ fsm_print_cfrag(FILE *f,
 				fprintf(f, "p += %zu;\n", n);
 
 				op = tail;
-			} else if (n > 1 && opt->io == FSM_IO_STR) {
+			} else if (n > 1 && opt->io == FSM_IO_STR && memchr(buf, '\0', n) == NULL) {
+				/* strncmp() stops at '\0', so it can't distinguish a sequence
+				 * which continues past there */
 				fprintf(f, "if (0 != strncmp(p, \"");
 				escputbuf(f, opt, c_escputc_str, buf, n);
 				fprintf(f, "\", %zu)) ", n);
-- 
2.43.0


From b8290f7b09332bb3a473848ade69d76914b77939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 053/154] fix: handle an FSM with no states when generating a C
 fragment

---
 src/libfsm/print/c.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/libfsm/print/c.c b/src/libfsm/print/c.c
index b10cd9a..5926f57 100644
--- a/src/libfsm/print/c.c
+++ b/src/libfsm/print/c.c
@@ -487,6 +487,15 @@ fsm_print_c_body(FILE *f, const struct ir *ir,
 	assert(opt != NULL);
 	assert(hooks != NULL);
 
+	if (ir->n == 0) {
+		fprintf(f, "\treturn 0;");
+		if (opt->comments) {
+			fprintf(f, " /* no matches */");
+		}
+		fprintf(f, "\n");
+		return 0;
+	}
+
 	if (hooks->cp != NULL) {
 		cp = hooks->cp;
 	} else {
@@ -642,16 +651,8 @@ fsm_print_c(FILE *f,
 			break;
 		}
 
-		if (ir->n == 0) {
-			fprintf(f, "\treturn 0;");
-			if (opt->comments) {
-				fprintf(f, " /* no matches */");
-			}
-			fprintf(f, "\n");
-		} else {
-			if (-1 == fsm_print_c_body(f, ir, opt, hooks)) {
-				return -1;
-			}
+		if (-1 == fsm_print_c_body(f, ir, opt, hooks)) {
+			return -1;
 		}
 
 		fprintf(f, "}\n");
-- 
2.43.0


From 39c65cc6b658548f82d940b49752d55f26f1b44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 054/154] fix: call the reject hook in C output for automata
 with no end states

---
 src/libfsm/print/c.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/c.c b/src/libfsm/print/c.c
index 5926f57..0f37b9e 100644
--- a/src/libfsm/print/c.c
+++ b/src/libfsm/print/c.c
@@ -368,7 +368,10 @@ print_endstates(FILE *f,
 
 	/* no end states */
 	if (!ir_hasend(ir)) {
-		fprintf(f, "\treturn 0;");
+		fprintf(f, "\t");
+		if (-1 == print_hook_reject(f, opt, hooks, NULL, default_reject, NULL)) {
+			return -1;
+		}
 		if (opt->comments) {
 			fprintf(f, " /* unexpected EOT */");
 		}
@@ -488,7 +491,10 @@ fsm_print_c_body(FILE *f, const struct ir *ir,
 	assert(hooks != NULL);
 
 	if (ir->n == 0) {
-		fprintf(f, "\treturn 0;");
+		fprintf(f, "\t");
+		if (-1 == print_hook_reject(f, opt, hooks, NULL, default_reject, NULL)) {
+			return -1;
+		}
 		if (opt->comments) {
 			fprintf(f, " /* no matches */");
 		}
-- 
2.43.0


From 9b34c62a6cbbbec9ccfd2c3d4ccc9b41c3230431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 055/154] fix: print the Go return type to the output stream

---
 src/libfsm/print/go.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index 1f6b7a0..723a0d6 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -444,7 +444,7 @@ fsm_print_go(FILE *f,
 			break;
 
 		case AMBIG_MULTIPLE:
-			fprintf(stdout, "(bool, []uint)");
+			fprintf(f, "(bool, []uint)");
 			break;
 
 		default:
-- 
2.43.0


From 924f8d1508f672f540564dc7d6530b18aabb22ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 056/154] fix: Go output for an unconditional match with
 unreachable states remaining

---
 src/libfsm/print/go.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index 723a0d6..a600137 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -297,8 +297,8 @@ fsm_print_gofrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP) {
-		assert(ops->next == NULL);
+	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP && ops->next == NULL) {
+		/* nothing to fetch */
 	} else {
 		switch (opt->io) {
 		case FSM_IO_PAIR:
-- 
2.43.0


From b47786fd7f8a9ed3649e7beaeee38817ad08a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 057/154] fix: Rust output for an unconditional match with
 unreachable states remaining

---
 src/libfsm/print/rust.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index c1fcf5b..81cdd87 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -280,8 +280,7 @@ fsm_print_rustfrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP) {
-		assert(ops->next == NULL);
+	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP && ops->next == NULL) {
 		fprintf(f, "\n");
 	} else {
 		switch (opt->io) {
@@ -366,6 +365,8 @@ fsm_print_rustfrag(FILE *f,
 			}
 			if (op->cmp != VM_CMP_ALWAYS) {
 				fprintf(f, " }");
+			} else {
+				fprintf(f, ";");
 			}
 
 			if (op->u.stop.end_bits == VM_END_SUCC) {
-- 
2.43.0


From b769bf75a79e1ce6466d2535f33b1cd8ba78a774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 058/154] fix: printing a Rust fragment always failed

---
 src/libfsm/print/rust.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index 81cdd87..6ef0239 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -496,8 +496,7 @@ fsm_print_rust(FILE *f,
 	fprintf(f, "// generated\n");
 
 	if (opt->fragment) {
-		fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp);
-		goto error;
+		return fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp);
 	}
 
 	fprintf(f, "\n");
@@ -551,15 +550,13 @@ fsm_print_rust(FILE *f,
 	fprintf(f, " {\n");
 	fprintf(f, "    use Label::*;\n");
 
-	fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp);
+	if (-1 == fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp)) {
+		return -1;
+	}
 
 	fprintf(f, "}\n");
 	fprintf(f, "\n");
 
 	return 0;
-
-error:
-
-	return -1;
 }
 
-- 
2.43.0


From eaf8433b31473ce4e63b11002471e52d9bc1292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 059/154] fix: place the args hook inside the Go parameter list

---
 src/libfsm/print/go.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index a600137..01f85a1 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -411,11 +411,11 @@ fsm_print_go(FILE *f,
 
 		switch (opt->io) {
 		case FSM_IO_PAIR:
-			fprintf(f, "(data []byte)");
+			fprintf(f, "(data []byte");
 			break;
 
 		case FSM_IO_STR:
-			fprintf(f, "(data string)");
+			fprintf(f, "(data string");
 			break;
 
 		default:
@@ -431,7 +431,7 @@ fsm_print_go(FILE *f,
 			}
 		}
 
-		fprintf(f, " ");
+		fprintf(f, ") ");
 
 		switch (opt->ambig) {
 		case AMBIG_NONE:
-- 
2.43.0


From f89714b7fcb96728a9f826a64e39555829de6fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 060/154] fix: include the prefix in the Go assembly symbol for
 strings

---
 src/libfsm/print/vmasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/vmasm.c b/src/libfsm/print/vmasm.c
index bf55514..e1c6f61 100644
--- a/src/libfsm/print/vmasm.c
+++ b/src/libfsm/print/vmasm.c
@@ -168,7 +168,7 @@ print_asm_amd64(FILE *f,
 			if (opt->comments) {
 				fprintf(f, "// func %s%s(data string) int\n", prefix, "Match");
 			}
-			fprintf(f, "TEXT    ·%s(SB), NOSPLIT, $0-24\n", "Match");
+			fprintf(f, "TEXT    ·%s%s(SB), NOSPLIT, $0-24\n", prefix, "Match");
 			break;
 
 		case FSM_IO_PAIR:
-- 
2.43.0


From f84086a5fb8cf2028d752fa389fa315bc5a3d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 061/154] fix: hex constants for nasm which would start with a
 letter

---
 src/libfsm/print/vmasm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/vmasm.c b/src/libfsm/print/vmasm.c
index e1c6f61..0362018 100644
--- a/src/libfsm/print/vmasm.c
+++ b/src/libfsm/print/vmasm.c
@@ -241,7 +241,7 @@ print_asm_amd64(FILE *f,
 							break;
 
 						case AMD64_NASM:
-							fprintf(f, "\tCMP   %s,%02xh\n", chr_reg, (unsigned)op->cmp_arg);
+							fprintf(f, "\tCMP   %s,0x%02x\n", chr_reg, (unsigned)op->cmp_arg);
 							break;
 
 						case AMD64_GO:
@@ -311,7 +311,7 @@ print_asm_amd64(FILE *f,
 						break;
 
 					case AMD64_NASM:
-						fprintf(f, "\tCMP   %s, %02xh\n", chr_reg, (unsigned)op->cmp_arg);
+						fprintf(f, "\tCMP   %s, 0x%02x\n", chr_reg, (unsigned)op->cmp_arg);
 						break;
 
 					case AMD64_GO:
-- 
2.43.0


From e464e0944ba8f9841a908dae43d6af87d71db896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 062/154] fix: quoting for a single quote in shell output

---
 src/libfsm/print/sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/sh.c b/src/libfsm/print/sh.c
index 5322e4f..d0ef061 100644
--- a/src/libfsm/print/sh.c
+++ b/src/libfsm/print/sh.c
@@ -179,7 +179,7 @@ print_cond(FILE *f, const struct dfavm_op_ir *op)
 			fprintf(f, " || $c %s ''", str_operator(VM_CMP_EQ));
 		}
 	} else if (c == '\'') {
-		fprintf(f, "$c %s \'", str_operator(op->cmp));
+		fprintf(f, "$c %s \\'", str_operator(op->cmp));
 		if (op->cmp == VM_CMP_LE || op->cmp == VM_CMP_GE) {
 			fprintf(f, " || $c %s \\'", str_operator(VM_CMP_EQ));
 		}
-- 
2.43.0


From 18d51470c041444c24985fcfc3bfa1ca7fcde846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 063/154] fix: shell output could not read a newline

---
 src/libfsm/print/sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/sh.c b/src/libfsm/print/sh.c
index d0ef061..a496f78 100644
--- a/src/libfsm/print/sh.c
+++ b/src/libfsm/print/sh.c
@@ -242,7 +242,7 @@ print_branch(FILE *f, const struct dfavm_op_ir *op)
 static void
 print_fetch(FILE *f)
 {
-	fprintf(f, "read -rn 1 c || ");
+	fprintf(f, "read -rN 1 c || ");
 }
 
 int
-- 
2.43.0


From cc4f470bcea9459c73546271f37bcba462cdc0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 064/154] fix: shell output with a branch to the start

---
 src/libfsm/print/sh.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/libfsm/print/sh.c b/src/libfsm/print/sh.c
index a496f78..774d475 100644
--- a/src/libfsm/print/sh.c
+++ b/src/libfsm/print/sh.c
@@ -298,9 +298,7 @@ fsm_print_sh(FILE *f,
 
 	for (op = ops; op != NULL; op = op->next) {
 		if (op->num_incoming > 0) {
-			if (op != ops) {
-				fprintf(f, "\t\t;&\n");
-			}
+			fprintf(f, "\t\t;&\n");
 
 			fprintf(f, "\t");
 			print_label(f, op, opt);
-- 
2.43.0


From 8901202d43c0111dd83ffb8583a89a7ebe944fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 065/154] fix: hex constant for NUL in LLVM output

---
 src/print/llvm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/print/llvm.c b/src/print/llvm.c
index ab0c697..63fc48b 100644
--- a/src/print/llvm.c
+++ b/src/print/llvm.c
@@ -22,7 +22,7 @@ llvm_escputc_char(FILE *f, const struct fsm_options *opt, char c)
 	assert(opt != NULL);
 
 	if (opt->always_hex) {
-		return fprintf(f, "u%#02x", (unsigned char) c);
+		return fprintf(f, "u0x%02x", (unsigned char) c);
 	}
 
 	return fprintf(f, "%u", (unsigned char) c);
@@ -35,7 +35,7 @@ llvm_escputcharlit(FILE *f, const struct fsm_options *opt, char c)
 	assert(opt != NULL);
 
 	if (opt->always_hex || (unsigned char) c > SCHAR_MAX) {
-		fprintf(f, "u%#02x", (unsigned char) c);
+		fprintf(f, "u0x%02x", (unsigned char) c);
 		return;
 	}
 
-- 
2.43.0


From d39b7f549686ae54ba21a6f1358488adf65e24c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 066/154] fix: awk output compared characters with numbers

---
 src/print/awk.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/print/awk.c b/src/print/awk.c
index ff3bf5d..41c2737 100644
--- a/src/print/awk.c
+++ b/src/print/awk.c
@@ -54,10 +54,7 @@ awk_escputcharlit(FILE *f, const struct fsm_options *opt, char c)
 	assert(f != NULL);
 	assert(opt != NULL);
 
-	if (opt->always_hex || (unsigned char) c > SCHAR_MAX) {
-		return fprintf(f, "0x%02x", (unsigned char) c);
-	}
-
+	/* awk compares a number with a string as text, so this is always a string */
 	fprintf(f, "\"");
 	awk_escputc_char(f, opt, c);
 	fprintf(f, "\"");
-- 
2.43.0


From 71a94ff62c2b6b08754f7213d80e811f965a2317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 067/154] fix: escape double quotes in awk string literals

---
 src/print/awk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/print/awk.c b/src/print/awk.c
index 41c2737..c4680c2 100644
--- a/src/print/awk.c
+++ b/src/print/awk.c
@@ -27,7 +27,7 @@ awk_escputc_char(FILE *f, const struct fsm_options *opt, char c)
 
 	switch (c) {
 	case '\\': return fputs("\\\\", f);
-	case '\'': return fputs("\\\'", f);
+	case '\"': return fputs("\\\"", f);
 
 	case '\a': return fputs("\\a", f);
 	case '\b': return fputs("\\b", f);
-- 
2.43.0


From 1246bf5e81a9c2c25d6882596d0dff2330856b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 068/154] fix: comment syntax in awk output

---
 src/libfsm/print/awk.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/awk.c b/src/libfsm/print/awk.c
index 4d952cb..b4b5db7 100644
--- a/src/libfsm/print/awk.c
+++ b/src/libfsm/print/awk.c
@@ -248,9 +248,9 @@ fsm_print_awkfrag(FILE *f,
 			fprintf(f, ":");
 
 			if (op->example != NULL) {
-				fprintf(f, " /* e.g. \"");
+				fprintf(f, " # e.g. \"");
 				escputs(f, opt, c_escputc_str, op->example);
-				fprintf(f, "\" */");
+				fprintf(f, "\"");
 			}
 
 			fprintf(f, "\n");
-- 
2.43.0


From a75cc0f1e188b9e105cc515d8009165a32f70aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 069/154] fix: shell output depended on LC_ALL and LC_CTYPE

---
 src/libfsm/print/sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/sh.c b/src/libfsm/print/sh.c
index 774d475..3474fa1 100644
--- a/src/libfsm/print/sh.c
+++ b/src/libfsm/print/sh.c
@@ -287,7 +287,7 @@ fsm_print_sh(FILE *f,
 	fprintf(f, "\n");
 
 	fprintf(f, "l=start\n");
-	fprintf(f, "LANG=C\n");
+	fprintf(f, "LC_ALL=C\n");
 	fprintf(f, "IFS=\n");
 	fprintf(f, "\n");
 
-- 
2.43.0


From 7bf146fddae5fc4eb7173ea50687990e9d31c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 070/154] fix: fsm_exec: allow a NULL capture buffer when the
 FSM has captures

---
 src/libfsm/exec.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/exec.c b/src/libfsm/exec.c
index d8cebd8..4d04637 100644
--- a/src/libfsm/exec.c
+++ b/src/libfsm/exec.c
@@ -114,9 +114,11 @@ fsm_exec(const struct fsm *fsm,
 	}
 	const fsm_state_t start = state;
 
-	for (i = 0; i < capture_count; i++) {
-		captures[i].pos[0] = FSM_CAPTURE_NO_POS;
-		captures[i].pos[1] = FSM_CAPTURE_NO_POS;
+	if (captures != NULL) {
+		for (i = 0; i < capture_count; i++) {
+			captures[i].pos[0] = FSM_CAPTURE_NO_POS;
+			captures[i].pos[1] = FSM_CAPTURE_NO_POS;
+		}
 	}
 
 #if LOG_EXEC
@@ -160,7 +162,9 @@ fsm_exec(const struct fsm *fsm,
 		    offset, captures);
 	}
 
-	fsm_capture_finalize_captures(fsm, capture_count, captures);
+	if (captures != NULL) {
+		fsm_capture_finalize_captures(fsm, capture_count, captures);
+	}
 
 	*end = state;
 	return 1;
-- 
2.43.0


From 1193d5387d79b49636b6ee491b56b7b1b67eeab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 071/154] fix: fsm_compact_states: renumber capture actions
 along with states

---
 src/libfsm/capture.c | 64 ++++++++++++++++++++++++++++++++++++++++++++
 src/libfsm/capture.h |  6 +++++
 src/libfsm/state.c   |  6 +++++
 3 files changed, 76 insertions(+)

diff --git a/src/libfsm/capture.c b/src/libfsm/capture.c
index d928a7b..a8f3a3c 100644
--- a/src/libfsm/capture.c
+++ b/src/libfsm/capture.c
@@ -633,6 +633,70 @@ fsm_capture_rebase_capture_action_states(struct fsm *fsm, fsm_state_t base)
 	}
 }
 
+int
+fsm_capture_compact(struct fsm *fsm,
+    const fsm_state_t *mapping, size_t mapping_count)
+{
+	struct fsm_capture_info *ci = fsm->capture_info;
+	struct fsm_capture_action_bucket *obuckets;
+	unsigned obucket_count;
+	size_t i;
+	assert(ci != NULL);
+
+	if (ci->buckets_used == 0) {
+		return 1;	/* nothing to do */
+	}
+
+	obuckets = ci->buckets;
+	obucket_count = ci->bucket_count;
+
+	/* Build a new table, because buckets are placed by state. */
+	ci->buckets = f_malloc(fsm->alloc,
+	    obucket_count * sizeof(ci->buckets[0]));
+	if (ci->buckets == NULL) {
+		ci->buckets = obuckets;
+		return 0;
+	}
+
+	for (i = 0; i < obucket_count; i++) {
+		ci->buckets[i].state = CAPTURE_NO_STATE;
+	}
+	ci->buckets_used = 0;
+
+	for (i = 0; i < fsm->statecount; i++) {
+		fsm->states[i].has_capture_actions = 0;
+	}
+
+	for (i = 0; i < obucket_count; i++) {
+		struct fsm_capture_action_bucket *b = &obuckets[i];
+		if (b->state == CAPTURE_NO_STATE) {
+			continue;
+		}
+
+		assert(b->state < mapping_count);
+		if (mapping[b->state] == FSM_STATE_REMAP_NO_STATE) {
+			continue;
+		}
+
+		if (b->action.to != CAPTURE_NO_STATE) {
+			assert(b->action.to < mapping_count);
+			if (mapping[b->action.to] == FSM_STATE_REMAP_NO_STATE) {
+				continue;
+			}
+			b->action.to = mapping[b->action.to];
+		}
+
+		if (!add_capture_action(fsm, ci,
+			mapping[b->state], &b->action)) {
+			f_free(fsm->alloc, obuckets);
+			return 0;
+		}
+	}
+
+	f_free(fsm->alloc, obuckets);
+	return 1;
+}
+
 struct fsm_capture *
 fsm_capture_alloc(const struct fsm *fsm)
 {
diff --git a/src/libfsm/capture.h b/src/libfsm/capture.h
index 4c0ba47..e4cbed0 100644
--- a/src/libfsm/capture.h
+++ b/src/libfsm/capture.h
@@ -53,6 +53,12 @@ fsm_capture_add_action(struct fsm *fsm,
     fsm_state_t state, enum capture_action_type type,
     unsigned id, fsm_state_t to);
 
+/* Update capture actions after states have been renumbered. Actions
+ * for states that were removed (or which lead to them) are discarded. */
+int
+fsm_capture_compact(struct fsm *fsm,
+    const fsm_state_t *mapping, size_t mapping_count);
+
 /* Callback for iterating over capture actions.
  * Return 1 to continue, return 0 to halt.
  * If TO is not meaningful for a particular type, it will be
diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index d4314c2..488a57a 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -20,6 +20,7 @@
 #include "internal.h"
 #include "endids.h"
 #include "eager_output.h"
+#include "capture.h"
 
 int
 fsm_addstate(struct fsm *fsm, fsm_state_t *state)
@@ -293,6 +294,11 @@ fsm_compact_states(struct fsm *fsm,
 		return 0;
 	}
 
+	/* Remap capture actions */
+	if (!fsm_capture_compact(fsm, mapping, orig_statecount)) {
+		return 0;
+	}
+
 	assert(dst == kept);
 	assert(kept == fsm->statecount);
 
-- 
2.43.0


From 031faa68772a8536a041f543ce08547e4fe07b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 072/154] fix: fsm_capture_set_path: explore each destination
 once, not once per label

---
 src/libfsm/capture.c          | 22 ++++++++++++----------
 src/libfsm/capture_internal.h |  2 +-
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/libfsm/capture.c b/src/libfsm/capture.c
index a8f3a3c..1732c46 100644
--- a/src/libfsm/capture.c
+++ b/src/libfsm/capture.c
@@ -496,7 +496,7 @@ step_trail_start(struct capture_set_path_env *env)
 	fprintf(stderr, " -- marking %u as seen\n", cur);
 #endif
 
-	edge_set_reset(edge_set, &tc->iter);
+	edge_set_group_iter_reset(edge_set, EDGE_GROUP_ITER_ALL, &tc->iter);
 	tc->step = TRAIL_STEP_ITER_EDGES;
 	return 1;
 }
@@ -507,9 +507,11 @@ step_trail_iter_edges(struct capture_set_path_env *env)
 	struct trail_cell *tc = &env->trail[env->trail_i - 1];
 	struct trail_cell *next_tc = NULL;
 
-	struct fsm_edge e;
+	/* Iterate over edge groups rather than individual labels, because
+	 * it only matters which states are reached. */
+	struct edge_group_iter_info e;
 
-	if (!edge_set_next(&tc->iter, &e)) {
+	if (!edge_set_group_iter_next(&tc->iter, &e)) {
 #if LOG_CAPTURE > 0
 		fprintf(stderr, " -- ITER_EDGE_NEXT: DONE %u\n", tc->state);
 #endif
@@ -519,10 +521,10 @@ step_trail_iter_edges(struct capture_set_path_env *env)
 
 #if LOG_CAPTURE > 0
 	fprintf(stderr, " -- ITER_EDGE_NEXT: %u -- NEXT %u\n",
-	    tc->state, e.state);
+	    tc->state, e.to);
 #endif
 
-	if (tc->state == e.state) {
+	if (tc->state == e.to) {
 #if LOG_CAPTURE > 0
 		fprintf(stderr, "    -- special case, self-edge\n");
 #endif
@@ -531,7 +533,7 @@ step_trail_iter_edges(struct capture_set_path_env *env)
 		 * self-edge later, if necessary. */
 		tc->has_self_edge = 1;
 		return 1;
-	} else if (CHECK_SEEN(env, e.state)) {
+	} else if (CHECK_SEEN(env, e.to)) {
 #if LOG_CAPTURE > 0
 		fprintf(stderr, "    -- seen, skipping\n");
 #endif
@@ -545,16 +547,16 @@ step_trail_iter_edges(struct capture_set_path_env *env)
 	}
 
 #if LOG_CAPTURE > 0
-	fprintf(stderr, " -- marking %u as seen\n", e.state);
+	fprintf(stderr, " -- marking %u as seen\n", e.to);
 #endif
-	MARK_SEEN(env, e.state);
+	MARK_SEEN(env, e.to);
 
 #if LOG_CAPTURE > 0
-	fprintf(stderr, "    -- not seen (%u), exploring\n", e.state);
+	fprintf(stderr, "    -- not seen (%u), exploring\n", e.to);
 #endif
 	env->trail_i++;
 	next_tc = &env->trail[env->trail_i - 1];
-	next_tc->state = e.state;
+	next_tc->state = e.to;
 	next_tc->step = TRAIL_STEP_START;
 	next_tc->has_self_edge = 0;
 	return 1;
diff --git a/src/libfsm/capture_internal.h b/src/libfsm/capture_internal.h
index 70418b9..ef47d4c 100644
--- a/src/libfsm/capture_internal.h
+++ b/src/libfsm/capture_internal.h
@@ -75,7 +75,7 @@ struct capture_set_path_env {
 		fsm_state_t state;
 		enum trail_step step;
 		char has_self_edge;
-		struct edge_iter iter;
+		struct edge_group_iter iter;
 	} *trail;
 
 	/* bitset for which states have already been seen. */
-- 
2.43.0


From 93a70ea781d529136a1ae8790a96bde909bdf561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 073/154] fix: fsm_minimise: don't merge states which have
 capture actions

---
 src/libfsm/minimise.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/libfsm/minimise.c b/src/libfsm/minimise.c
index eb44e2f..8dedfde 100644
--- a/src/libfsm/minimise.c
+++ b/src/libfsm/minimise.c
@@ -61,6 +61,8 @@ struct end_metadata {
 		unsigned count;
 		fsm_output_id_t *ids;
 	} eager_outputs;
+
+	bool has_capture_actions;
 };
 
 static int
@@ -705,6 +707,12 @@ incremental_hash_of_ids(uint64_t *accum, fsm_end_id_t id)
 static int
 same_end_metadata(const struct end_metadata *a, const struct end_metadata *b)
 {
+	/* Capture actions depend on the specific states along a path, so
+	 * states with capture actions are distinguishable from all others. */
+	if (a->has_capture_actions || b->has_capture_actions) {
+		return 0;
+	}
+
 	if (a->end.count != b->end.count) {
 		return 0;
 	}
@@ -777,6 +785,8 @@ split_ecs_by_end_metadata(struct min_env *env, const struct fsm *fsm)
 			const bool is_end = fsm_isend(fsm, s);
 			const bool has_eager_outputs = fsm_eager_output_state_has_eager_output(fsm, s);
 
+			e->has_capture_actions = fsm_capture_has_capture_actions(fsm, s);
+
 			if (!is_end && !has_eager_outputs) {
 				s = env->jump[s];
 				continue; /* skip */
@@ -825,6 +835,10 @@ split_ecs_by_end_metadata(struct min_env *env, const struct fsm *fsm)
 				incremental_hash_of_ids(&hash, s_md->eager_outputs.ids[eo_i]);
 			}
 
+			if (s_md->has_capture_actions) {
+				incremental_hash_of_ids(&hash, s);
+			}
+
 			for (size_t b_i = 0; b_i < bucket_count; b_i++) {
 				fsm_state_t *b = &htab[(b_i + hash) & mask];
 				const fsm_state_t other = *b;
-- 
2.43.0


From 994427c3788815c1a689e4625a033ed7dc1a9b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 074/154] fix: fsm_exec: don't end a capture which hasn't
 started

---
 src/libfsm/capture.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libfsm/capture.c b/src/libfsm/capture.c
index 1732c46..915fc65 100644
--- a/src/libfsm/capture.c
+++ b/src/libfsm/capture.c
@@ -806,6 +806,11 @@ fsm_capture_update_captures(const struct fsm *fsm,
 			fprintf(stderr, "COMMIT [%u]\n",
 			    b->action.id);
 #endif
+			/* Ignore when not started: this state can also be reached
+			 * by other paths, and pos[1] must not precede pos[0]. */
+			if (captures[capture_id].pos[0] == FSM_CAPTURE_NO_POS) {
+				break;
+			}
 			captures[capture_id].pos[1] = offset | COMMITTED_CAPTURE_FLAG;
 #if LOG_CAPTURE > 0
 			fprintf(stderr, " -- set capture[%u].[1] to %lu (with COMMIT flag)\n", b->action.id, offset);
-- 
2.43.0


From 10943c83fcc7b9c5e6f52329d9f873e0af458f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 075/154] fix: idmap: make room for the largest value itself,
 not one bit less

---
 src/adt/idmap.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/adt/idmap.c b/src/adt/idmap.c
index e3facfa..a639831 100644
--- a/src/adt/idmap.c
+++ b/src/adt/idmap.c
@@ -40,12 +40,8 @@ struct idmap {
 
 static unsigned
 value_words(unsigned max_value) {
-	if (max_value == 0) {
-		/* Still allocate one word, for storing 0. */
-		return 1;
-	} else {
-		return u64bitset_words(max_value);
-	}
+	/* max_value itself must fit, and it's counted from 0. */
+	return u64bitset_words((size_t) max_value + 1);
 }
 
 struct idmap *
-- 
2.43.0


From 921f511520fd299de070e8f96f1b6e84f607781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 076/154] fix: bm_count: count exactly the bits of the map,
 which holds one per character

---
 include/adt/bitmap.h | 2 +-
 src/adt/bitmap.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/adt/bitmap.h b/include/adt/bitmap.h
index 61c4f9a..ffede47 100644
--- a/include/adt/bitmap.h
+++ b/include/adt/bitmap.h
@@ -17,7 +17,7 @@ struct fsm_state;
 struct fsm_options;
 
 struct bm {
-	uint64_t map[(UCHAR_MAX + 1)/sizeof(uint64_t)];
+	uint64_t map[(UCHAR_MAX + 1)/(CHAR_BIT * sizeof(uint64_t))];
 };
 
 int
diff --git a/src/adt/bitmap.c b/src/adt/bitmap.c
index 07d6772..e8df836 100644
--- a/src/adt/bitmap.c
+++ b/src/adt/bitmap.c
@@ -82,7 +82,7 @@ bm_count(const struct bm *bm)
 
 	count = 0;
 
-	for (n = 0; n < sizeof(sizeof(bm->map)/sizeof(bm->map[0])); n++) {
+	for (n = 0; n < sizeof(bm->map)/sizeof(bm->map[0]); n++) {
 		count += u64bitset_popcount(bm->map[n]);
 	}
 
-- 
2.43.0


From 28db7860942591e2f9e7e5f2b30af427e3abf506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 077/154] fix: bm_print: return the number of characters
 written for the set of everything

---
 src/adt/bitmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adt/bitmap.c b/src/adt/bitmap.c
index e8df836..d0f1022 100644
--- a/src/adt/bitmap.c
+++ b/src/adt/bitmap.c
@@ -150,7 +150,7 @@ bm_print(FILE *f, const struct fsm_options *opt, const struct bm *bm,
 	/* XXX: all literal characters here really should go through escputc */
 
 	if (mode == MODE_ANY) {
-		return fputs("/./", f);
+		return fprintf(f, "/./");
 	}
 
 	n = 0;
-- 
2.43.0


From b4d0e064fdf67b6ab00a0d140f2a58e6fa15dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 078/154] fix: state_set_cmp: order sets by the value of their
 states, consistently with singletons

---
 src/adt/stateset.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index 660fe90..de27172 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -86,6 +86,7 @@ int
 state_set_cmp(const struct state_set *a, const struct state_set *b)
 {
 	size_t count_a, count_b;
+	size_t i;
 
 	assert(a != NULL);
 	assert(b != NULL);
@@ -134,7 +135,14 @@ state_set_cmp(const struct state_set *a, const struct state_set *b)
 	assert(b->a != NULL);
 	assert(a->i == b->i);
 
-	return memcmp(a->a, b->a, a->i * sizeof *a->a);
+	/* the order is by value, as it is for singletons */
+	for (i = 0; i < a->i; i++) {
+		if (a->a[i] != b->a[i]) {
+			return state_set_cmpval(a->a[i], b->a[i]);
+		}
+	}
+
+	return 0;
 }
 
 /*
-- 
2.43.0


From 83c8ff4a2f09545b22c0c7af8d3158002cea90be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 079/154] fix: lx: clone a zone's exit pattern before adding
 its mapping, which may free it

---
 src/lx/parser.c   | 32 ++++++++++++++++----------------
 src/lx/parser.sid |  4 ++--
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/lx/parser.c b/src/lx/parser.c
index 4ab69ce..de7605c 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -2431,6 +2431,21 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			RESTORE_LEXER;
 			goto ZL1;
 		}
+		/* BEGINNING OF ACTION: clone */
+		{
+#line 755 "src/lx/parser.act"
+
+		assert((ZIr) != NULL);
+
+		(ZIexit) = fsm_clone((ZIr));
+		if ((ZIexit) == NULL) {
+			perror("fsm_clone");
+			goto ZL1;
+		}
+	
+#line 2447 "src/lx/parser.c"
+		}
+		/* END OF ACTION: clone */
 		/* BEGINNING OF ACTION: add-mapping */
 		{
 #line 449 "src/lx/parser.act"
@@ -2466,24 +2481,9 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			nmappings++;
 		}
 	
-#line 2470 "src/lx/parser.c"
-		}
-		/* END OF ACTION: add-mapping */
-		/* BEGINNING OF ACTION: clone */
-		{
-#line 755 "src/lx/parser.act"
-
-		assert((ZIr) != NULL);
-
-		(ZIexit) = fsm_clone((ZIr));
-		if ((ZIexit) == NULL) {
-			perror("fsm_clone");
-			goto ZL1;
-		}
-	
 #line 2485 "src/lx/parser.c"
 		}
-		/* END OF ACTION: clone */
+		/* END OF ACTION: add-mapping */
 	}
 	goto ZL0;
 ZL1:;
diff --git a/src/lx/parser.sid b/src/lx/parser.sid
index 3c375e2..2950113 100644
--- a/src/lx/parser.sid
+++ b/src/lx/parser.sid
@@ -372,9 +372,9 @@
 			zone-to-mapping: (a :ast, parent :zone, child :zone) -> (exit :fsm) = {
 				(r, t) = token-mapping(parent);
 
-				<add-mapping>(a, child, parent, r, t);
-
 				exit = <clone>(r);
+
+				<add-mapping>(a, child, parent, r, t);
 			};
 
 			list-of-zone-to-mappings: (a :ast, parent :zone, child :zone) -> (exit :fsm) [
-- 
2.43.0


From c0b905beef806c816672adc2978b97879b977e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 080/154] fix: lx: report an undefined variable in a nested
 zone

---
 src/lx/parser.act | 2 +-
 src/lx/parser.c   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 0db0c3b..9546d7f 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -286,7 +286,7 @@
 				break;
 			}
 
-			if (@z->parent == NULL) {
+			if (z->parent == NULL) {
 				/* TODO: use *err */
 				err(lex_state, "No such variable: %s", @s);
 				@!;
diff --git a/src/lx/parser.c b/src/lx/parser.c
index de7605c..6d8f89c 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -227,7 +227,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 				break;
 			}
 
-			if ((ZIz)->parent == NULL) {
+			if (z->parent == NULL) {
 				/* TODO: use *err */
 				err(lex_state, "No such variable: %s", (ZIn));
 				goto ZL1;
@@ -3224,7 +3224,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				break;
 			}
 
-			if ((*ZIz)->parent == NULL) {
+			if (z->parent == NULL) {
 				/* TODO: use *err */
 				err(lex_state, "No such variable: %s", (*ZIn));
 				goto ZL1;
-- 
2.43.0


From 5527309f4519fc6cb68cb67453927fa5a1da6664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 081/154] fix: lx: refuse a pattern too long for the pattern
 buffer, rather than overflow it

---
 src/lx/parser.act |   5 +
 src/lx/parser.c   | 255 +++++++++++++++++++++++-----------------------
 src/lx/parser.h   |   2 +-
 3 files changed, 136 insertions(+), 126 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 9546d7f..580a24b 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -245,6 +245,11 @@
 %actions%
 
 	<pattern-char>: (c :char) -> () = @{
+		if (lex_state->p == lex_state->a + sizeof lex_state->a) {
+			err(lex_state, "Pattern too long: expected at most %zu characters", sizeof lex_state->a);
+			exit(EXIT_FAILURE);
+		}
+
 		/* TODO */
 		*lex_state->p++ = @c;
 	@};
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 6d8f89c..1dcd042 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -182,7 +182,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-list */
 		{
-#line 814 "src/lx/parser.act"
+#line 819 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
@@ -214,7 +214,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-var */
 			{
-#line 277 "src/lx/parser.act"
+#line 282 "src/lx/parser.act"
 
 		struct ast_zone *z;
 
@@ -263,7 +263,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-token */
 			{
-#line 304 "src/lx/parser.act"
+#line 309 "src/lx/parser.act"
 
 		const struct ast_mapping *m;
 		fsm_state_t start;
@@ -374,7 +374,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-reverse */
 			{
-#line 676 "src/lx/parser.act"
+#line 681 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -398,7 +398,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 740 "src/lx/parser.act"
 
 		assert((ZI231) != NULL);
 
@@ -449,7 +449,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-complete */
 			{
-#line 667 "src/lx/parser.act"
+#line 672 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -473,7 +473,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 740 "src/lx/parser.act"
 
 		assert((ZI239) != NULL);
 
@@ -563,7 +563,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 740 "src/lx/parser.act"
 
 		assert((ZI248) != NULL);
 
@@ -614,7 +614,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-complement */
 			{
-#line 658 "src/lx/parser.act"
+#line 663 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -638,7 +638,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 740 "src/lx/parser.act"
 
 		assert((ZI223) != NULL);
 
@@ -696,7 +696,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-token */
 			{
-#line 304 "src/lx/parser.act"
+#line 309 "src/lx/parser.act"
 
 		const struct ast_mapping *m;
 		fsm_state_t start;
@@ -769,7 +769,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 740 "src/lx/parser.act"
 
 		assert((ZI259) != NULL);
 
@@ -829,7 +829,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 740 "src/lx/parser.act"
 
 		assert((ZI268) != NULL);
 
@@ -869,7 +869,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-thing */
 		{
-#line 810 "src/lx/parser.act"
+#line 815 "src/lx/parser.act"
 
 		err_expected(lex_state, "mapping, binding or zone");
 	
@@ -899,7 +899,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-open */
 		{
-#line 798 "src/lx/parser.act"
+#line 803 "src/lx/parser.act"
 
 		err_expected(lex_state, "'{'");
 	
@@ -929,7 +929,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-close */
 		{
-#line 802 "src/lx/parser.act"
+#line 807 "src/lx/parser.act"
 
 		err_expected(lex_state, "'}'");
 	
@@ -1079,10 +1079,15 @@ ZL2_pattern_C_Cbody:;
 			{
 #line 247 "src/lx/parser.act"
 
+		if (lex_state->p == lex_state->a + sizeof lex_state->a) {
+			err(lex_state, "Pattern too long: expected at most %zu characters", sizeof lex_state->a);
+			exit(EXIT_FAILURE);
+		}
+
 		/* TODO */
 		*lex_state->p++ = (ZIc);
 	
-#line 1086 "src/lx/parser.c"
+#line 1091 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-char */
 			/* BEGINNING OF INLINE: pattern::body */
@@ -1211,7 +1216,7 @@ ZL2_180:;
 			}
 			/* BEGINNING OF ACTION: op-alt */
 			{
-#line 724 "src/lx/parser.act"
+#line 729 "src/lx/parser.act"
 
 		assert((ZI177) != NULL);
 		assert((ZIb) != NULL);
@@ -1222,7 +1227,7 @@ ZL2_180:;
 			goto ZL1;
 		}
 	
-#line 1226 "src/lx/parser.c"
+#line 1231 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-alt */
 			/* BEGINNING OF INLINE: 180 */
@@ -1291,7 +1296,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-reverse */
 			{
-#line 676 "src/lx/parser.act"
+#line 681 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1300,7 +1305,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1304 "src/lx/parser.c"
+#line 1309 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-reverse */
 		}
@@ -1315,7 +1320,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-complete */
 			{
-#line 667 "src/lx/parser.act"
+#line 672 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1324,7 +1329,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1328 "src/lx/parser.c"
+#line 1333 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complete */
 		}
@@ -1339,7 +1344,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-complement */
 			{
-#line 658 "src/lx/parser.act"
+#line 663 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1348,7 +1353,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1352 "src/lx/parser.c"
+#line 1357 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complement */
 		}
@@ -1398,7 +1403,7 @@ ZL2_186:;
 			}
 			/* BEGINNING OF ACTION: op-intersect */
 			{
-#line 713 "src/lx/parser.act"
+#line 718 "src/lx/parser.act"
 
 		assert((ZI183) != NULL);
 		assert((ZIb) != NULL);
@@ -1409,7 +1414,7 @@ ZL2_186:;
 			goto ZL1;
 		}
 	
-#line 1413 "src/lx/parser.c"
+#line 1418 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-intersect */
 			/* BEGINNING OF INLINE: 186 */
@@ -1455,7 +1460,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hto_Hmappings_C_Clist_Hof_
 			}
 			/* BEGINNING OF ACTION: op-alt */
 			{
-#line 724 "src/lx/parser.act"
+#line 729 "src/lx/parser.act"
 
 		assert((ZIold_Hexit) != NULL);
 		assert((ZInew_Hexit) != NULL);
@@ -1466,7 +1471,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hto_Hmappings_C_Clist_Hof_
 			goto ZL1;
 		}
 	
-#line 1470 "src/lx/parser.c"
+#line 1475 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-alt */
 			/* BEGINNING OF INLINE: list-of-things::zone-thing::list-of-zone-to-mappings::list-of-zone-to-mappings-x */
@@ -1554,7 +1559,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-cross */
 						{
-#line 568 "src/lx/parser.act"
+#line 573 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1599,7 +1604,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1603 "src/lx/parser.c"
+#line 1608 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-cross */
 						/* BEGINNING OF INLINE: 197 */
@@ -1613,7 +1618,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-qmark */
 						{
-#line 613 "src/lx/parser.act"
+#line 618 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1658,7 +1663,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1662 "src/lx/parser.c"
+#line 1667 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-qmark */
 						/* BEGINNING OF INLINE: 197 */
@@ -1672,7 +1677,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-star */
 						{
-#line 518 "src/lx/parser.act"
+#line 523 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1722,7 +1727,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1726 "src/lx/parser.c"
+#line 1731 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-star */
 						/* BEGINNING OF INLINE: 197 */
@@ -1795,7 +1800,7 @@ p_204(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI202, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-subtract */
 			{
-#line 702 "src/lx/parser.act"
+#line 707 "src/lx/parser.act"
 
 		assert((*ZI202) != NULL);
 		assert((ZIb) != NULL);
@@ -1806,7 +1811,7 @@ p_204(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI202, fsm *ZOq)
 			goto ZL1;
 		}
 	
-#line 1810 "src/lx/parser.c"
+#line 1815 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-subtract */
 		}
@@ -1870,7 +1875,7 @@ p_208(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI206, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-concat */
 			{
-#line 685 "src/lx/parser.act"
+#line 690 "src/lx/parser.act"
 
 		assert((*ZI206) != NULL);
 		assert((ZIb) != NULL);
@@ -1881,7 +1886,7 @@ p_208(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI206, fsm *ZOq)
 			goto ZL1;
 		}
 	
-#line 1885 "src/lx/parser.c"
+#line 1890 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-concat */
 		}
@@ -1920,13 +1925,13 @@ p_212(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI210, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-product */
 			{
-#line 696 "src/lx/parser.act"
+#line 701 "src/lx/parser.act"
 
 		fprintf(stderr, "unimplemented\n");
 		(ZIq) = NULL;
 		goto ZL1;
 	
-#line 1930 "src/lx/parser.c"
+#line 1935 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-product */
 		}
@@ -1974,13 +1979,13 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		ZIf |= RE_ANCHORED; /* regexps in lx are implicitly anchored */
 		ZIf |= RE_SINGLE;   /* we can't assume we're lexing text */
 	
-#line 1978 "src/lx/parser.c"
+#line 1983 "src/lx/parser.c"
 			}
 			/* END OF EXTRACT: RE */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: pattern-buffer */
 			{
-#line 252 "src/lx/parser.act"
+#line 257 "src/lx/parser.act"
 
 		size_t len;
 
@@ -2005,12 +2010,12 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		lex_state->p = lex_state->a;
 	
-#line 2009 "src/lx/parser.c"
+#line 2014 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-regex */
 			{
-#line 376 "src/lx/parser.act"
+#line 381 "src/lx/parser.act"
 
 		struct re_err err;
 
@@ -2025,16 +2030,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2029 "src/lx/parser.c"
+#line 2034 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-regex */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 765 "src/lx/parser.act"
+#line 770 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2038 "src/lx/parser.c"
+#line 2043 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2046,7 +2051,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: pattern-buffer */
 			{
-#line 252 "src/lx/parser.act"
+#line 257 "src/lx/parser.act"
 
 		size_t len;
 
@@ -2071,12 +2076,12 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		lex_state->p = lex_state->a;
 	
-#line 2075 "src/lx/parser.c"
+#line 2080 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-literal */
 			{
-#line 361 "src/lx/parser.act"
+#line 366 "src/lx/parser.act"
 
 		struct re_err err;
 
@@ -2091,16 +2096,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2095 "src/lx/parser.c"
+#line 2100 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-literal */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 765 "src/lx/parser.act"
+#line 770 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2104 "src/lx/parser.c"
+#line 2109 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2164,7 +2169,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 740 "src/lx/parser.act"
 
 		assert((ZIr) != NULL);
 
@@ -2184,12 +2189,12 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			}
 		}
 	
-#line 2188 "src/lx/parser.c"
+#line 2193 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 449 "src/lx/parser.act"
+#line 454 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2222,7 +2227,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			nmappings++;
 		}
 	
-#line 2226 "src/lx/parser.c"
+#line 2231 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: list-of-things::zone-thing::list-of-zone-from-mappings::list-of-zone-from-mappings-x */
@@ -2256,16 +2261,16 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 
 		/* BEGINNING OF ACTION: no-zone */
 		{
-#line 514 "src/lx/parser.act"
+#line 519 "src/lx/parser.act"
 
 		(ZIparent) = NULL;
 	
-#line 2264 "src/lx/parser.c"
+#line 2269 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-zone */
 		/* BEGINNING OF ACTION: make-ast */
 		{
-#line 423 "src/lx/parser.act"
+#line 428 "src/lx/parser.act"
 
 		(ZIa) = ast_new();
 		if ((ZIa) == NULL) {
@@ -2273,12 +2278,12 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2277 "src/lx/parser.c"
+#line 2282 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: make-zone */
 		{
-#line 431 "src/lx/parser.act"
+#line 436 "src/lx/parser.act"
 
 		assert((ZIa) != NULL);
 
@@ -2296,28 +2301,28 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2300 "src/lx/parser.c"
+#line 2305 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-zone */
 		/* BEGINNING OF ACTION: no-exit */
 		{
-#line 510 "src/lx/parser.act"
+#line 515 "src/lx/parser.act"
 
 		(ZIexit) = NULL;
 	
-#line 2309 "src/lx/parser.c"
+#line 2314 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-exit */
 		/* BEGINNING OF ACTION: set-globalzone */
 		{
-#line 499 "src/lx/parser.act"
+#line 504 "src/lx/parser.act"
 
 		assert((ZIa) != NULL);
 		assert((ZIz) != NULL);
 
 		(ZIa)->global = (ZIz);
 	
-#line 2321 "src/lx/parser.c"
+#line 2326 "src/lx/parser.c"
 		}
 		/* END OF ACTION: set-globalzone */
 		p_list_Hof_Hthings (lex_state, act_state, ZIa, ZIz, ZIexit);
@@ -2341,11 +2346,11 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			{
 				/* BEGINNING OF ACTION: err-expected-eof */
 				{
-#line 806 "src/lx/parser.act"
+#line 811 "src/lx/parser.act"
 
 		err_expected(lex_state, "EOF");
 	
-#line 2349 "src/lx/parser.c"
+#line 2354 "src/lx/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -2358,7 +2363,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: make-ast */
 		{
-#line 423 "src/lx/parser.act"
+#line 428 "src/lx/parser.act"
 
 		(ZIa) = ast_new();
 		if ((ZIa) == NULL) {
@@ -2366,17 +2371,17 @@ ZL1:;
 			goto ZL4;
 		}
 	
-#line 2370 "src/lx/parser.c"
+#line 2375 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: err-syntax */
 		{
-#line 773 "src/lx/parser.act"
+#line 778 "src/lx/parser.act"
 
 		err(lex_state, "Syntax error");
 		exit(EXIT_FAILURE);
 	
-#line 2380 "src/lx/parser.c"
+#line 2385 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-syntax */
 	}
@@ -2433,7 +2438,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 		}
 		/* BEGINNING OF ACTION: clone */
 		{
-#line 755 "src/lx/parser.act"
+#line 760 "src/lx/parser.act"
 
 		assert((ZIr) != NULL);
 
@@ -2443,12 +2448,12 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			goto ZL1;
 		}
 	
-#line 2447 "src/lx/parser.c"
+#line 2452 "src/lx/parser.c"
 		}
 		/* END OF ACTION: clone */
 		/* BEGINNING OF ACTION: add-mapping */
 		{
-#line 449 "src/lx/parser.act"
+#line 454 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2481,7 +2486,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			nmappings++;
 		}
 	
-#line 2485 "src/lx/parser.c"
+#line 2490 "src/lx/parser.c"
 		}
 		/* END OF ACTION: add-mapping */
 	}
@@ -2517,11 +2522,11 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 				{
 					/* BEGINNING OF ACTION: err-expected-map */
 					{
-#line 782 "src/lx/parser.act"
+#line 787 "src/lx/parser.act"
 
 		err_expected(lex_state, "'->'");
 	
-#line 2525 "src/lx/parser.c"
+#line 2530 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-map */
 				}
@@ -2537,7 +2542,7 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 		/* TODO: submatch addressing */
 		ZIt = xstrdup(lex_state->buf.a + 1); /* +1 for '$' prefix */
 	
-#line 2541 "src/lx/parser.c"
+#line 2546 "src/lx/parser.c"
 				}
 				/* END OF EXTRACT: TOKEN */
 				break;
@@ -2551,11 +2556,11 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 		{
 			/* BEGINNING OF ACTION: no-token */
 			{
-#line 506 "src/lx/parser.act"
+#line 511 "src/lx/parser.act"
 
 		(ZIt) = NULL;
 	
-#line 2559 "src/lx/parser.c"
+#line 2564 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-token */
 		}
@@ -2644,11 +2649,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-semi */
 		{
-#line 790 "src/lx/parser.act"
+#line 795 "src/lx/parser.act"
 
 		err_expected(lex_state, "';'");
 	
-#line 2652 "src/lx/parser.c"
+#line 2657 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-semi */
 	}
@@ -2695,16 +2700,16 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: no-zone */
 			{
-#line 514 "src/lx/parser.act"
+#line 519 "src/lx/parser.act"
 
 		(ZIto) = NULL;
 	
-#line 2703 "src/lx/parser.c"
+#line 2708 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 449 "src/lx/parser.act"
+#line 454 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2737,7 +2742,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2741 "src/lx/parser.c"
+#line 2746 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 		}
@@ -2749,7 +2754,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: make-zone */
 			{
-#line 431 "src/lx/parser.act"
+#line 436 "src/lx/parser.act"
 
 		assert((*ZIa) != NULL);
 
@@ -2767,12 +2772,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 2771 "src/lx/parser.c"
+#line 2776 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 449 "src/lx/parser.act"
+#line 454 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2805,7 +2810,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2809 "src/lx/parser.c"
+#line 2814 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			p_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Hof_Hzone_Hfrom_Hmappings_Hx (lex_state, act_state, *ZIa, *ZIz, ZIchild, *ZIexit);
@@ -2829,11 +2834,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-to */
 					{
-#line 794 "src/lx/parser.act"
+#line 799 "src/lx/parser.act"
 
 		err_expected(lex_state, "'..'");
 	
-#line 2837 "src/lx/parser.c"
+#line 2842 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-to */
 				}
@@ -2858,25 +2863,25 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 						}
 						/* BEGINNING OF ACTION: no-zone */
 						{
-#line 514 "src/lx/parser.act"
+#line 519 "src/lx/parser.act"
 
 		(ZIx) = NULL;
 	
-#line 2866 "src/lx/parser.c"
+#line 2871 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-zone */
 						/* BEGINNING OF ACTION: no-token */
 						{
-#line 506 "src/lx/parser.act"
+#line 511 "src/lx/parser.act"
 
 		(ZIy) = NULL;
 	
-#line 2875 "src/lx/parser.c"
+#line 2880 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-token */
 						/* BEGINNING OF ACTION: regex-any */
 						{
-#line 392 "src/lx/parser.act"
+#line 397 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 
@@ -2907,12 +2912,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		fsm_setstart((ZIw), start);
 		fsm_setend((ZIw), end, 1);
 	
-#line 2911 "src/lx/parser.c"
+#line 2916 "src/lx/parser.c"
 						}
 						/* END OF ACTION: regex-any */
 						/* BEGINNING OF ACTION: subtract-exit */
 						{
-#line 735 "src/lx/parser.act"
+#line 740 "src/lx/parser.act"
 
 		assert((ZIw) != NULL);
 
@@ -2932,12 +2937,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 		}
 	
-#line 2936 "src/lx/parser.c"
+#line 2941 "src/lx/parser.c"
 						}
 						/* END OF ACTION: subtract-exit */
 						/* BEGINNING OF ACTION: add-mapping */
 						{
-#line 449 "src/lx/parser.act"
+#line 454 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2970,7 +2975,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2974 "src/lx/parser.c"
+#line 2979 "src/lx/parser.c"
 						}
 						/* END OF ACTION: add-mapping */
 					}
@@ -2997,11 +3002,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 814 "src/lx/parser.act"
+#line 819 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3005 "src/lx/parser.c"
+#line 3010 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3017,16 +3022,16 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: no-exit */
 			{
-#line 510 "src/lx/parser.act"
+#line 515 "src/lx/parser.act"
 
 		(ZIr2) = NULL;
 	
-#line 3025 "src/lx/parser.c"
+#line 3030 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-exit */
 			/* BEGINNING OF ACTION: make-zone */
 			{
-#line 431 "src/lx/parser.act"
+#line 436 "src/lx/parser.act"
 
 		assert((*ZIa) != NULL);
 
@@ -3044,12 +3049,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3048 "src/lx/parser.c"
+#line 3053 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 449 "src/lx/parser.act"
+#line 454 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -3082,7 +3087,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 3086 "src/lx/parser.c"
+#line 3091 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: 131 */
@@ -3101,11 +3106,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 814 "src/lx/parser.act"
+#line 819 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3109 "src/lx/parser.c"
+#line 3114 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3149,11 +3154,11 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-bind */
 					{
-#line 786 "src/lx/parser.act"
+#line 791 "src/lx/parser.act"
 
 		err_expected(lex_state, "'='");
 	
-#line 3157 "src/lx/parser.c"
+#line 3162 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-bind */
 				}
@@ -3168,7 +3173,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: add-binding */
 			{
-#line 482 "src/lx/parser.act"
+#line 487 "src/lx/parser.act"
 
 		struct var *v;
 
@@ -3185,7 +3190,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3189 "src/lx/parser.c"
+#line 3194 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-binding */
 		}
@@ -3211,7 +3216,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: deref-var */
 			{
-#line 277 "src/lx/parser.act"
+#line 282 "src/lx/parser.act"
 
 		struct ast_zone *z;
 
@@ -3238,7 +3243,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3242 "src/lx/parser.c"
+#line 3247 "src/lx/parser.c"
 			}
 			/* END OF ACTION: deref-var */
 			p_197 (lex_state, act_state, ZI273, &ZI210);
@@ -3254,7 +3259,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 740 "src/lx/parser.act"
 
 		assert((ZI278) != NULL);
 
@@ -3274,7 +3279,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 		}
 	
-#line 3278 "src/lx/parser.c"
+#line 3283 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, ZIa, ZIz, ZIexit, &ZI279, &ZI280);
@@ -3297,7 +3302,7 @@ ZL1:;
 
 /* BEGINNING OF TRAILER */
 
-#line 818 "src/lx/parser.act"
+#line 823 "src/lx/parser.act"
 
 
 	struct ast *lx_parse(FILE *f, const struct fsm_alloc *alloc) {
@@ -3360,6 +3365,6 @@ ZL1:;
 		return ast;
 	}
 
-#line 3364 "src/lx/parser.c"
+#line 3369 "src/lx/parser.c"
 
 /* END OF FILE */
diff --git a/src/lx/parser.h b/src/lx/parser.h
index 947b194..b30dcb4 100644
--- a/src/lx/parser.h
+++ b/src/lx/parser.h
@@ -29,7 +29,7 @@
 extern void p_lx(lex_state, act_state, ast *);
 /* BEGINNING OF TRAILER */
 
-#line 880 "src/lx/parser.act"
+#line 885 "src/lx/parser.act"
 
 
 #line 36 "src/lx/parser.h"
-- 
2.43.0


From 1c821a5b3b4087b0f8af3e194d2edbb33335d763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 082/154] fix: lx: only pop from the token buffer when the
 caller provided one

---
 src/lx/print/c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 3340f0d..f957803 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -154,7 +154,7 @@ unget_character(FILE *f, bool pop, const char *cur_char_var)
 {
 	fprintf(f, "%sungetc(lx, %s); ", prefix.api, cur_char_var);
 	if (pop && (~api_exclude & API_BUF)) {
-		fprintf(f, "%s%spop(lx->buf_opaque); ",
+		fprintf(f, "if (lx->push != NULL) { %s%spop(lx->buf_opaque); } ",
 		    prefix.api, buf_op_prefix());
 	}
 }
-- 
2.43.0


From 295da20e6f88476af04e7534707f7a17af32a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 083/154] fix: lx: do not unget a character at the end of the
 input

---
 src/lx/print/c.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index f957803..4179ac4 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -311,7 +311,17 @@ reject_c(FILE *f, const struct fsm_options *opt,
 	} else {
 		fprintf(f, "\n\t\t\t\tif (!has_consumed_input) { return %sEOF; }\n", prefix.tok);
 		fprintf(f, "\t\t\t\t");
+
+		/* there is no character to unget at the end of the input */
+		switch (opt->io) {
+		case FSM_IO_GETC: fprintf(f, "if (%s != EOF) ",     env->cur_char_var); break;
+		case FSM_IO_STR:  fprintf(f, "if (%s != '\\0') ", env->cur_char_var); break;
+		case FSM_IO_PAIR: fprintf(f, "if (p != e) ");                             break;
+		}
+
+		fprintf(f, "{ ");
 		unget_character(f, false, env->cur_char_var);
+		fprintf(f, "} ");
 	}
 
 	/* XXX: don't need this if complete */
-- 
2.43.0


From 2578c8af95daa7b55870025c5f7aa62c4b9897cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 084/154] fix: lx: treat skipped input at EOF as a dead end for
 pattern pairs only

---
 src/lx/print/c.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 4179ac4..ae7d00f 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -170,12 +170,28 @@ endid_represents_dead_end(fsm_end_id_t endid, const struct ast *ast)
 	/* For each zone, check if this endid is associated with its z->ml zone.
 	 * If so, that endid is the "dead end" for that zone.
 	 *
+	 * This only applies for a zone made for a pattern pair, where the body is
+	 * the last mapping added, and every other mapping exits the zone. The last
+	 * mapping of any other zone may be a plain skip.
+	 *
 	 * The total number of zones and end ids (each corresponding to mapping)
 	 * should stay small enough that linear search is fine. If this becomes
 	 * prohibitively expensive, then build a bitset of dead-end IDs upfront
 	 * in one pass. */
 	for (struct ast_zone *z = ast->zl; z != NULL; z = z->next) {
-		if (z->ml == m) { return true; }
+		const struct ast_mapping *p;
+
+		if (z->ml != m || z->parent == NULL || m->next == NULL) {
+			continue;
+		}
+
+		for (p = m->next; p != NULL; p = p->next) {
+			if (p->to != z->parent) {
+				break;
+			}
+		}
+
+		if (p == NULL) { return true; }
 	}
 
 	return false;
-- 
2.43.0


From 908e8b466f3d1f91ddf2629b4b006c8a3ff2dd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 085/154] fix: lx: keep the token buffer for -k str and -k pair
 when -x pos is given

---
 src/lx/print/c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index ae7d00f..689045a 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -371,7 +371,7 @@ advance_c(FILE *f, const struct fsm_options *opt, const char *cur_char_var, void
 	case FSM_IO_PAIR:
 		/* When libfsm's generated code advances a character, update
 		 * lx's token name buffer and position bookkeeping. */
-		if (~api_exclude & API_POS) {
+		if (~api_exclude & (API_POS | API_BUF)) {
 			fprintf(f, "\t\tif (!%sadvance_end(lx, %s)) { return %sERROR; }\n",
 			    prefix.api, cur_char_var, prefix.tok);
 		}
@@ -534,7 +534,7 @@ print_io(FILE *f, const struct fsm_options *opt)
 		fprintf(stderr, " io");
 	}
 
-	if (opt->io == FSM_IO_GETC || (~api_exclude & API_POS)) {
+	if (opt->io == FSM_IO_GETC || (~api_exclude & (API_POS | API_BUF))) {
 		fprintf(f, "static int\n");
 		fprintf(f, "%sadvance_end(struct %slx *lx, int c)\n", prefix.api, prefix.lx);
 		fprintf(f, "{\n");
-- 
2.43.0


From fa5250b1d5e8e743ab5a6358a66646aca0604cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 086/154] fix: lx: read characters from a file descriptor as
 unsigned, so that 0xff is not EOF

---
 src/lx/print/c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 689045a..99f4a98 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -521,7 +521,7 @@ print_lgetc(FILE *f, const struct fsm_options *opt)
 		fprintf(f, "\t\td->len = r;\n");
 		fprintf(f, "\t}\n");
 		fprintf(f, "\n");
-		fprintf(f, "\treturn d->len--, *d->p++;\n");
+		fprintf(f, "\treturn d->len--, (unsigned char) *d->p++;\n");
 		fprintf(f, "}\n");
 		fprintf(f, "\n");
 	}
-- 
2.43.0


From d29aea881ac6585a3c6a19d391d0935622f055a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 087/154] fix: lx: generate valid C for -l dump without the
 name api

---
 src/lx/print/dump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lx/print/dump.c b/src/lx/print/dump.c
index e693f90..d5dfb3f 100644
--- a/src/lx/print/dump.c
+++ b/src/lx/print/dump.c
@@ -295,7 +295,7 @@ lx_print_dump(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		fprintf(f, "\t\t\tdump_buf(q, l);\n");
 		fprintf(f, "\t\t\tprintf(\">\\n\");\n");
 	} else {
-		fprintf(f, "\t\t\tprintf(\"<#%%u>\\n\");\n");
+		fprintf(f, "\t\t\tprintf(\"<#%%u>\\n\",\n");
 		fprintf(f, "\t\t\t\t(unsigned) t);\n");
 	}
 	fprintf(f, "\t\t\tbreak;\n");
-- 
2.43.0


From 18a2dc360736ace3303adbbc6c26baf698795b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 088/154] fix: lx: allocate mapping ids under the lock, for -C

---
 src/lx/ast.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lx/ast.c b/src/lx/ast.c
index a3776b6..6d5f533 100644
--- a/src/lx/ast.c
+++ b/src/lx/ast.c
@@ -148,10 +148,14 @@ static struct ast_mapping **mappings = NULL;
 int
 ast_setendmapping(struct fsm *fsm, struct ast_mapping *m)
 {
-	const fsm_end_id_t id = mapping_count;
+	fsm_end_id_t id;
 	fsm_end_id_t nceil = 0;
+	int r;
 
 	lx_mutex_lock();
+
+	id = mapping_count;
+
 	if (mappings == NULL) {
 		nceil = DEF_MAPPINGS;
 	} else if (mapping_count == mapping_ceil) {
@@ -171,18 +175,19 @@ ast_setendmapping(struct fsm *fsm, struct ast_mapping *m)
 		mapping_ceil = nceil;
 	}
 
-	lx_mutex_unlock();
-
-	if (fsm_setendid(fsm, id)) {
+	r = fsm_setendid(fsm, id);
+	if (r) {
 		if (LOG()) {
 			fprintf(stderr, "ast_setendmapping: saving mapping %p at mappings[%d]\n",
 			    (void *)m, id);
 		}
 		mappings[id] = m;
 		mapping_count++;
-		return 1;
 	}
-	return 0;
+
+	lx_mutex_unlock();
+
+	return r;
 }
 
 struct ast_mapping *
-- 
2.43.0


From 8d78736b05283a066f3a164d3be6e494234066ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 089/154] fix: lx: give an example of the token, rather than of
 the start state, in lx_example()

---
 src/lx/print/c.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 99f4a98..9f81a1d 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -1092,7 +1092,7 @@ print_example(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		fprintf(f, "\t\tswitch (t) {\n");
 
 		for (t = ast->tl; t != NULL; t = t->next) {
-			fsm_state_t s;
+			fsm_state_t s, start;
 			char buf[50]; /* 50 looks reasonable for an on-screen limit */
 			int n;
 
@@ -1100,7 +1100,8 @@ print_example(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 				return -1;
 			}
 
-			if (!fsm_getstart(z->fsm, &s)) {
+			/* no such token in this zone */
+			if (!fsm_getstart(z->fsm, &start) || s == start) {
 				continue;
 			}
 
-- 
2.43.0


From ad857b80a922f7f4e8510dd682bf9ab87cb37559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 090/154] fix: lx: generate code when no token buffer is asked
 for

---
 src/lx/print/c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 9f81a1d..383b72c 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -153,7 +153,7 @@ static void
 unget_character(FILE *f, bool pop, const char *cur_char_var)
 {
 	fprintf(f, "%sungetc(lx, %s); ", prefix.api, cur_char_var);
-	if (pop && (~api_exclude & API_BUF)) {
+	if (pop && (~api_exclude & API_BUF) && api_tokbuf != 0) {
 		fprintf(f, "if (lx->push != NULL) { %s%spop(lx->buf_opaque); } ",
 		    prefix.api, buf_op_prefix());
 	}
-- 
2.43.0


From aa2b6d784531147457af6b6f596d58bae7d56042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 091/154] fix: lx: permit a mapping for a pattern which matches
 nothing

---
 src/lx/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lx/main.c b/src/lx/main.c
index 92098bf..50adb01 100644
--- a/src/lx/main.c
+++ b/src/lx/main.c
@@ -410,7 +410,10 @@ zone_minimise(void *arg)
 				assert(!"failed");
 			}
 
-			(void) fsm_getstart(m->fsm, &ms);
+			/* minimising a pattern which matches nothing leaves no states */
+			if (!fsm_getstart(m->fsm, &ms)) {
+				continue;
+			}
 
 			z->fsm = fsm_merge(z->fsm, m->fsm, &combine_info);
 			if (z->fsm == NULL) {
-- 
2.43.0


From 05885d7468796d962e05af0ab8df73e1e76ab4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 092/154] fix: lx: leave the exit pattern alone when
 subtracting it, as it is used again

---
 src/lx/parser.act |  6 +++---
 src/lx/parser.c   | 54 +++++++++++++++++++++++------------------------
 2 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 580a24b..16f7d5d 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -743,13 +743,13 @@
 		if (@b == NULL) {
 			@q = @a;
 		} else {
-			@b = fsm_clone(@b);
-			if (@b == NULL) {
+			struct fsm *b = fsm_clone(@b);
+			if (b == NULL) {
 				perror("fsm_clone");
 				@!;
 			}
 
-			@q = fsm_subtract(@a, @b);
+			@q = fsm_subtract(@a, b);
 			if (@q == NULL) {
 				perror("fsm_subtract");
 				@!;
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 1dcd042..ee98a06 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -405,13 +405,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI233) = (ZI231);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI233) = fsm_subtract((ZI231), (ZIexit));
+			(ZI233) = fsm_subtract((ZI231), b);
 			if ((ZI233) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -480,13 +480,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI241) = (ZI239);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI241) = fsm_subtract((ZI239), (ZIexit));
+			(ZI241) = fsm_subtract((ZI239), b);
 			if ((ZI241) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -570,13 +570,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI250) = (ZI248);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI250) = fsm_subtract((ZI248), (ZIexit));
+			(ZI250) = fsm_subtract((ZI248), b);
 			if ((ZI250) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -645,13 +645,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI225) = (ZI223);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI225) = fsm_subtract((ZI223), (ZIexit));
+			(ZI225) = fsm_subtract((ZI223), b);
 			if ((ZI225) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -776,13 +776,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI261) = (ZI259);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI261) = fsm_subtract((ZI259), (ZIexit));
+			(ZI261) = fsm_subtract((ZI259), b);
 			if ((ZI261) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -836,13 +836,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI270) = (ZI268);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI270) = fsm_subtract((ZI268), (ZIexit));
+			(ZI270) = fsm_subtract((ZI268), b);
 			if ((ZI270) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -2176,13 +2176,13 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 		if ((ZIexit) == NULL) {
 			(ZIq) = (ZIr);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZIq) = fsm_subtract((ZIr), (ZIexit));
+			(ZIq) = fsm_subtract((ZIr), b);
 			if ((ZIq) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -2924,13 +2924,13 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		if ((ZIchild_Hexit) == NULL) {
 			(ZIv) = (ZIw);
 		} else {
-			(ZIchild_Hexit) = fsm_clone((ZIchild_Hexit));
-			if ((ZIchild_Hexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIchild_Hexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL5;
 			}
 
-			(ZIv) = fsm_subtract((ZIw), (ZIchild_Hexit));
+			(ZIv) = fsm_subtract((ZIw), b);
 			if ((ZIv) == NULL) {
 				perror("fsm_subtract");
 				goto ZL5;
@@ -3266,13 +3266,13 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		if ((*ZIexit) == NULL) {
 			(ZI280) = (ZI278);
 		} else {
-			(*ZIexit) = fsm_clone((*ZIexit));
-			if ((*ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((*ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI280) = fsm_subtract((ZI278), (*ZIexit));
+			(ZI280) = fsm_subtract((ZI278), b);
 			if ((ZI280) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
-- 
2.43.0


From 7ac76d74770edbb2749d02561e37d8b5767b0dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 093/154] fix: lx: terminate the pattern text shown in error
 messages

---
 src/lx/parser.act |   3 +-
 src/lx/parser.c   | 224 +++++++++++++++++++++++-----------------------
 2 files changed, 115 insertions(+), 112 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 16f7d5d..f373eef 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -265,7 +265,7 @@
 
 		len = lex_state->p - lex_state->a;
 
-		@a = malloc(sizeof *@a + len);
+		@a = malloc(sizeof *@a + len + 1); /* +1 for '\0' */
 		if (@a == NULL) {
 			perror("malloc");
 			exit(EXIT_FAILURE);
@@ -275,6 +275,7 @@
 		@a->p   = (char *) @a + sizeof *@a;
 
 		memcpy(@a->p, lex_state->a, @a->len);
+		@a->p[@a->len] = '\0'; /* for error messages */
 
 		lex_state->p = lex_state->a;
 	@};
diff --git a/src/lx/parser.c b/src/lx/parser.c
index ee98a06..761c9d5 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -182,7 +182,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-list */
 		{
-#line 819 "src/lx/parser.act"
+#line 820 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
@@ -214,7 +214,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-var */
 			{
-#line 282 "src/lx/parser.act"
+#line 283 "src/lx/parser.act"
 
 		struct ast_zone *z;
 
@@ -263,7 +263,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-token */
 			{
-#line 309 "src/lx/parser.act"
+#line 310 "src/lx/parser.act"
 
 		const struct ast_mapping *m;
 		fsm_state_t start;
@@ -374,7 +374,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-reverse */
 			{
-#line 681 "src/lx/parser.act"
+#line 682 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -398,7 +398,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 740 "src/lx/parser.act"
+#line 741 "src/lx/parser.act"
 
 		assert((ZI231) != NULL);
 
@@ -449,7 +449,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-complete */
 			{
-#line 672 "src/lx/parser.act"
+#line 673 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -473,7 +473,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 740 "src/lx/parser.act"
+#line 741 "src/lx/parser.act"
 
 		assert((ZI239) != NULL);
 
@@ -563,7 +563,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 740 "src/lx/parser.act"
+#line 741 "src/lx/parser.act"
 
 		assert((ZI248) != NULL);
 
@@ -614,7 +614,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-complement */
 			{
-#line 663 "src/lx/parser.act"
+#line 664 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -638,7 +638,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 740 "src/lx/parser.act"
+#line 741 "src/lx/parser.act"
 
 		assert((ZI223) != NULL);
 
@@ -696,7 +696,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-token */
 			{
-#line 309 "src/lx/parser.act"
+#line 310 "src/lx/parser.act"
 
 		const struct ast_mapping *m;
 		fsm_state_t start;
@@ -769,7 +769,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 740 "src/lx/parser.act"
+#line 741 "src/lx/parser.act"
 
 		assert((ZI259) != NULL);
 
@@ -829,7 +829,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 740 "src/lx/parser.act"
+#line 741 "src/lx/parser.act"
 
 		assert((ZI268) != NULL);
 
@@ -869,7 +869,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-thing */
 		{
-#line 815 "src/lx/parser.act"
+#line 816 "src/lx/parser.act"
 
 		err_expected(lex_state, "mapping, binding or zone");
 	
@@ -899,7 +899,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-open */
 		{
-#line 803 "src/lx/parser.act"
+#line 804 "src/lx/parser.act"
 
 		err_expected(lex_state, "'{'");
 	
@@ -929,7 +929,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-close */
 		{
-#line 807 "src/lx/parser.act"
+#line 808 "src/lx/parser.act"
 
 		err_expected(lex_state, "'}'");
 	
@@ -1216,7 +1216,7 @@ ZL2_180:;
 			}
 			/* BEGINNING OF ACTION: op-alt */
 			{
-#line 729 "src/lx/parser.act"
+#line 730 "src/lx/parser.act"
 
 		assert((ZI177) != NULL);
 		assert((ZIb) != NULL);
@@ -1296,7 +1296,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-reverse */
 			{
-#line 681 "src/lx/parser.act"
+#line 682 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1320,7 +1320,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-complete */
 			{
-#line 672 "src/lx/parser.act"
+#line 673 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1344,7 +1344,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-complement */
 			{
-#line 663 "src/lx/parser.act"
+#line 664 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1403,7 +1403,7 @@ ZL2_186:;
 			}
 			/* BEGINNING OF ACTION: op-intersect */
 			{
-#line 718 "src/lx/parser.act"
+#line 719 "src/lx/parser.act"
 
 		assert((ZI183) != NULL);
 		assert((ZIb) != NULL);
@@ -1460,7 +1460,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hto_Hmappings_C_Clist_Hof_
 			}
 			/* BEGINNING OF ACTION: op-alt */
 			{
-#line 729 "src/lx/parser.act"
+#line 730 "src/lx/parser.act"
 
 		assert((ZIold_Hexit) != NULL);
 		assert((ZInew_Hexit) != NULL);
@@ -1559,7 +1559,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-cross */
 						{
-#line 573 "src/lx/parser.act"
+#line 574 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1618,7 +1618,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-qmark */
 						{
-#line 618 "src/lx/parser.act"
+#line 619 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1677,7 +1677,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-star */
 						{
-#line 523 "src/lx/parser.act"
+#line 524 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1800,7 +1800,7 @@ p_204(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI202, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-subtract */
 			{
-#line 707 "src/lx/parser.act"
+#line 708 "src/lx/parser.act"
 
 		assert((*ZI202) != NULL);
 		assert((ZIb) != NULL);
@@ -1875,7 +1875,7 @@ p_208(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI206, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-concat */
 			{
-#line 690 "src/lx/parser.act"
+#line 691 "src/lx/parser.act"
 
 		assert((*ZI206) != NULL);
 		assert((ZIb) != NULL);
@@ -1925,7 +1925,7 @@ p_212(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI210, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-product */
 			{
-#line 701 "src/lx/parser.act"
+#line 702 "src/lx/parser.act"
 
 		fprintf(stderr, "unimplemented\n");
 		(ZIq) = NULL;
@@ -1997,7 +1997,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		len = lex_state->p - lex_state->a;
 
-		(ZIa) = malloc(sizeof *(ZIa) + len);
+		(ZIa) = malloc(sizeof *(ZIa) + len + 1); /* +1 for '\0' */
 		if ((ZIa) == NULL) {
 			perror("malloc");
 			exit(EXIT_FAILURE);
@@ -2007,15 +2007,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		(ZIa)->p   = (char *) (ZIa) + sizeof *(ZIa);
 
 		memcpy((ZIa)->p, lex_state->a, (ZIa)->len);
+		(ZIa)->p[(ZIa)->len] = '\0'; /* for error messages */
 
 		lex_state->p = lex_state->a;
 	
-#line 2014 "src/lx/parser.c"
+#line 2015 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-regex */
 			{
-#line 381 "src/lx/parser.act"
+#line 382 "src/lx/parser.act"
 
 		struct re_err err;
 
@@ -2030,16 +2031,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2034 "src/lx/parser.c"
+#line 2035 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-regex */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 770 "src/lx/parser.act"
+#line 771 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2043 "src/lx/parser.c"
+#line 2044 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2063,7 +2064,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		len = lex_state->p - lex_state->a;
 
-		(ZIa) = malloc(sizeof *(ZIa) + len);
+		(ZIa) = malloc(sizeof *(ZIa) + len + 1); /* +1 for '\0' */
 		if ((ZIa) == NULL) {
 			perror("malloc");
 			exit(EXIT_FAILURE);
@@ -2073,15 +2074,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		(ZIa)->p   = (char *) (ZIa) + sizeof *(ZIa);
 
 		memcpy((ZIa)->p, lex_state->a, (ZIa)->len);
+		(ZIa)->p[(ZIa)->len] = '\0'; /* for error messages */
 
 		lex_state->p = lex_state->a;
 	
-#line 2080 "src/lx/parser.c"
+#line 2082 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-literal */
 			{
-#line 366 "src/lx/parser.act"
+#line 367 "src/lx/parser.act"
 
 		struct re_err err;
 
@@ -2096,16 +2098,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2100 "src/lx/parser.c"
+#line 2102 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-literal */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 770 "src/lx/parser.act"
+#line 771 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2109 "src/lx/parser.c"
+#line 2111 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2169,7 +2171,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 740 "src/lx/parser.act"
+#line 741 "src/lx/parser.act"
 
 		assert((ZIr) != NULL);
 
@@ -2189,12 +2191,12 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			}
 		}
 	
-#line 2193 "src/lx/parser.c"
+#line 2195 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 454 "src/lx/parser.act"
+#line 455 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2227,7 +2229,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			nmappings++;
 		}
 	
-#line 2231 "src/lx/parser.c"
+#line 2233 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: list-of-things::zone-thing::list-of-zone-from-mappings::list-of-zone-from-mappings-x */
@@ -2261,16 +2263,16 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 
 		/* BEGINNING OF ACTION: no-zone */
 		{
-#line 519 "src/lx/parser.act"
+#line 520 "src/lx/parser.act"
 
 		(ZIparent) = NULL;
 	
-#line 2269 "src/lx/parser.c"
+#line 2271 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-zone */
 		/* BEGINNING OF ACTION: make-ast */
 		{
-#line 428 "src/lx/parser.act"
+#line 429 "src/lx/parser.act"
 
 		(ZIa) = ast_new();
 		if ((ZIa) == NULL) {
@@ -2278,12 +2280,12 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2282 "src/lx/parser.c"
+#line 2284 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: make-zone */
 		{
-#line 436 "src/lx/parser.act"
+#line 437 "src/lx/parser.act"
 
 		assert((ZIa) != NULL);
 
@@ -2301,28 +2303,28 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2305 "src/lx/parser.c"
+#line 2307 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-zone */
 		/* BEGINNING OF ACTION: no-exit */
 		{
-#line 515 "src/lx/parser.act"
+#line 516 "src/lx/parser.act"
 
 		(ZIexit) = NULL;
 	
-#line 2314 "src/lx/parser.c"
+#line 2316 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-exit */
 		/* BEGINNING OF ACTION: set-globalzone */
 		{
-#line 504 "src/lx/parser.act"
+#line 505 "src/lx/parser.act"
 
 		assert((ZIa) != NULL);
 		assert((ZIz) != NULL);
 
 		(ZIa)->global = (ZIz);
 	
-#line 2326 "src/lx/parser.c"
+#line 2328 "src/lx/parser.c"
 		}
 		/* END OF ACTION: set-globalzone */
 		p_list_Hof_Hthings (lex_state, act_state, ZIa, ZIz, ZIexit);
@@ -2346,11 +2348,11 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			{
 				/* BEGINNING OF ACTION: err-expected-eof */
 				{
-#line 811 "src/lx/parser.act"
+#line 812 "src/lx/parser.act"
 
 		err_expected(lex_state, "EOF");
 	
-#line 2354 "src/lx/parser.c"
+#line 2356 "src/lx/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -2363,7 +2365,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: make-ast */
 		{
-#line 428 "src/lx/parser.act"
+#line 429 "src/lx/parser.act"
 
 		(ZIa) = ast_new();
 		if ((ZIa) == NULL) {
@@ -2371,17 +2373,17 @@ ZL1:;
 			goto ZL4;
 		}
 	
-#line 2375 "src/lx/parser.c"
+#line 2377 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: err-syntax */
 		{
-#line 778 "src/lx/parser.act"
+#line 779 "src/lx/parser.act"
 
 		err(lex_state, "Syntax error");
 		exit(EXIT_FAILURE);
 	
-#line 2385 "src/lx/parser.c"
+#line 2387 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-syntax */
 	}
@@ -2438,7 +2440,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 		}
 		/* BEGINNING OF ACTION: clone */
 		{
-#line 760 "src/lx/parser.act"
+#line 761 "src/lx/parser.act"
 
 		assert((ZIr) != NULL);
 
@@ -2448,12 +2450,12 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			goto ZL1;
 		}
 	
-#line 2452 "src/lx/parser.c"
+#line 2454 "src/lx/parser.c"
 		}
 		/* END OF ACTION: clone */
 		/* BEGINNING OF ACTION: add-mapping */
 		{
-#line 454 "src/lx/parser.act"
+#line 455 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2486,7 +2488,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			nmappings++;
 		}
 	
-#line 2490 "src/lx/parser.c"
+#line 2492 "src/lx/parser.c"
 		}
 		/* END OF ACTION: add-mapping */
 	}
@@ -2522,11 +2524,11 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 				{
 					/* BEGINNING OF ACTION: err-expected-map */
 					{
-#line 787 "src/lx/parser.act"
+#line 788 "src/lx/parser.act"
 
 		err_expected(lex_state, "'->'");
 	
-#line 2530 "src/lx/parser.c"
+#line 2532 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-map */
 				}
@@ -2542,7 +2544,7 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 		/* TODO: submatch addressing */
 		ZIt = xstrdup(lex_state->buf.a + 1); /* +1 for '$' prefix */
 	
-#line 2546 "src/lx/parser.c"
+#line 2548 "src/lx/parser.c"
 				}
 				/* END OF EXTRACT: TOKEN */
 				break;
@@ -2556,11 +2558,11 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 		{
 			/* BEGINNING OF ACTION: no-token */
 			{
-#line 511 "src/lx/parser.act"
+#line 512 "src/lx/parser.act"
 
 		(ZIt) = NULL;
 	
-#line 2564 "src/lx/parser.c"
+#line 2566 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-token */
 		}
@@ -2649,11 +2651,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-semi */
 		{
-#line 795 "src/lx/parser.act"
+#line 796 "src/lx/parser.act"
 
 		err_expected(lex_state, "';'");
 	
-#line 2657 "src/lx/parser.c"
+#line 2659 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-semi */
 	}
@@ -2700,16 +2702,16 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: no-zone */
 			{
-#line 519 "src/lx/parser.act"
+#line 520 "src/lx/parser.act"
 
 		(ZIto) = NULL;
 	
-#line 2708 "src/lx/parser.c"
+#line 2710 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 454 "src/lx/parser.act"
+#line 455 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2742,7 +2744,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2746 "src/lx/parser.c"
+#line 2748 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 		}
@@ -2754,7 +2756,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: make-zone */
 			{
-#line 436 "src/lx/parser.act"
+#line 437 "src/lx/parser.act"
 
 		assert((*ZIa) != NULL);
 
@@ -2772,12 +2774,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 2776 "src/lx/parser.c"
+#line 2778 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 454 "src/lx/parser.act"
+#line 455 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2810,7 +2812,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2814 "src/lx/parser.c"
+#line 2816 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			p_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Hof_Hzone_Hfrom_Hmappings_Hx (lex_state, act_state, *ZIa, *ZIz, ZIchild, *ZIexit);
@@ -2834,11 +2836,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-to */
 					{
-#line 799 "src/lx/parser.act"
+#line 800 "src/lx/parser.act"
 
 		err_expected(lex_state, "'..'");
 	
-#line 2842 "src/lx/parser.c"
+#line 2844 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-to */
 				}
@@ -2863,25 +2865,25 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 						}
 						/* BEGINNING OF ACTION: no-zone */
 						{
-#line 519 "src/lx/parser.act"
+#line 520 "src/lx/parser.act"
 
 		(ZIx) = NULL;
 	
-#line 2871 "src/lx/parser.c"
+#line 2873 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-zone */
 						/* BEGINNING OF ACTION: no-token */
 						{
-#line 511 "src/lx/parser.act"
+#line 512 "src/lx/parser.act"
 
 		(ZIy) = NULL;
 	
-#line 2880 "src/lx/parser.c"
+#line 2882 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-token */
 						/* BEGINNING OF ACTION: regex-any */
 						{
-#line 397 "src/lx/parser.act"
+#line 398 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 
@@ -2912,12 +2914,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		fsm_setstart((ZIw), start);
 		fsm_setend((ZIw), end, 1);
 	
-#line 2916 "src/lx/parser.c"
+#line 2918 "src/lx/parser.c"
 						}
 						/* END OF ACTION: regex-any */
 						/* BEGINNING OF ACTION: subtract-exit */
 						{
-#line 740 "src/lx/parser.act"
+#line 741 "src/lx/parser.act"
 
 		assert((ZIw) != NULL);
 
@@ -2937,12 +2939,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 		}
 	
-#line 2941 "src/lx/parser.c"
+#line 2943 "src/lx/parser.c"
 						}
 						/* END OF ACTION: subtract-exit */
 						/* BEGINNING OF ACTION: add-mapping */
 						{
-#line 454 "src/lx/parser.act"
+#line 455 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2975,7 +2977,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2979 "src/lx/parser.c"
+#line 2981 "src/lx/parser.c"
 						}
 						/* END OF ACTION: add-mapping */
 					}
@@ -3002,11 +3004,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 819 "src/lx/parser.act"
+#line 820 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3010 "src/lx/parser.c"
+#line 3012 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3022,16 +3024,16 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: no-exit */
 			{
-#line 515 "src/lx/parser.act"
+#line 516 "src/lx/parser.act"
 
 		(ZIr2) = NULL;
 	
-#line 3030 "src/lx/parser.c"
+#line 3032 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-exit */
 			/* BEGINNING OF ACTION: make-zone */
 			{
-#line 436 "src/lx/parser.act"
+#line 437 "src/lx/parser.act"
 
 		assert((*ZIa) != NULL);
 
@@ -3049,12 +3051,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3053 "src/lx/parser.c"
+#line 3055 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 454 "src/lx/parser.act"
+#line 455 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -3087,7 +3089,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 3091 "src/lx/parser.c"
+#line 3093 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: 131 */
@@ -3106,11 +3108,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 819 "src/lx/parser.act"
+#line 820 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3114 "src/lx/parser.c"
+#line 3116 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3154,11 +3156,11 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-bind */
 					{
-#line 791 "src/lx/parser.act"
+#line 792 "src/lx/parser.act"
 
 		err_expected(lex_state, "'='");
 	
-#line 3162 "src/lx/parser.c"
+#line 3164 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-bind */
 				}
@@ -3173,7 +3175,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: add-binding */
 			{
-#line 487 "src/lx/parser.act"
+#line 488 "src/lx/parser.act"
 
 		struct var *v;
 
@@ -3190,7 +3192,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3194 "src/lx/parser.c"
+#line 3196 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-binding */
 		}
@@ -3216,7 +3218,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: deref-var */
 			{
-#line 282 "src/lx/parser.act"
+#line 283 "src/lx/parser.act"
 
 		struct ast_zone *z;
 
@@ -3243,7 +3245,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3247 "src/lx/parser.c"
+#line 3249 "src/lx/parser.c"
 			}
 			/* END OF ACTION: deref-var */
 			p_197 (lex_state, act_state, ZI273, &ZI210);
@@ -3259,7 +3261,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 740 "src/lx/parser.act"
+#line 741 "src/lx/parser.act"
 
 		assert((ZI278) != NULL);
 
@@ -3279,7 +3281,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 		}
 	
-#line 3283 "src/lx/parser.c"
+#line 3285 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, ZIa, ZIz, ZIexit, &ZI279, &ZI280);
@@ -3302,7 +3304,7 @@ ZL1:;
 
 /* BEGINNING OF TRAILER */
 
-#line 823 "src/lx/parser.act"
+#line 824 "src/lx/parser.act"
 
 
 	struct ast *lx_parse(FILE *f, const struct fsm_alloc *alloc) {
@@ -3365,6 +3367,6 @@ ZL1:;
 		return ast;
 	}
 
-#line 3369 "src/lx/parser.c"
+#line 3371 "src/lx/parser.c"
 
 /* END OF FILE */
-- 
2.43.0


From 667d6afe74a9a4a1872b06f80fd8360ea1325856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:29 +0000
Subject: [PATCH 094/154] fix: lx: permit a reference to a token whose pattern
 matches nothing

---
 src/lx/parser.act |   6 +-
 src/lx/parser.c   | 290 ++++++++++++++++++++++++----------------------
 src/lx/parser.h   |   2 +-
 3 files changed, 155 insertions(+), 143 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index f373eef..196c80b 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -344,7 +344,11 @@
 				@!;
 			}
 
-			(void) fsm_getstart(fsm, &ms);
+			/* a pattern which matches nothing may have no states */
+			if (!fsm_getstart(fsm, &ms)) {
+				fsm_free(fsm);
+				continue;
+			}
 
 			@r = fsm_merge(@r, fsm, &combine_info);
 			if (@r == NULL) {
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 761c9d5..08b25b3 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -182,7 +182,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-list */
 		{
-#line 820 "src/lx/parser.act"
+#line 824 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
@@ -301,7 +301,11 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 				goto ZL1;
 			}
 
-			(void) fsm_getstart(fsm, &ms);
+			/* a pattern which matches nothing may have no states */
+			if (!fsm_getstart(fsm, &ms)) {
+				fsm_free(fsm);
+				continue;
+			}
 
 			(ZIr) = fsm_merge((ZIr), fsm, &combine_info);
 			if ((ZIr) == NULL) {
@@ -320,7 +324,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 
 		fsm_setstart((ZIr), start);
 	
-#line 324 "src/lx/parser.c"
+#line 328 "src/lx/parser.c"
 			}
 			/* END OF ACTION: deref-token */
 		}
@@ -374,7 +378,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-reverse */
 			{
-#line 682 "src/lx/parser.act"
+#line 686 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -383,7 +387,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			goto ZL1;
 		}
 	
-#line 387 "src/lx/parser.c"
+#line 391 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-reverse */
 			p_212 (lex_state, act_state, &ZIz, &ZI210, &ZI206);
@@ -398,7 +402,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 741 "src/lx/parser.act"
+#line 745 "src/lx/parser.act"
 
 		assert((ZI231) != NULL);
 
@@ -418,7 +422,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 		}
 	
-#line 422 "src/lx/parser.c"
+#line 426 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI232, &ZI233);
@@ -449,7 +453,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-complete */
 			{
-#line 673 "src/lx/parser.act"
+#line 677 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -458,7 +462,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			goto ZL1;
 		}
 	
-#line 462 "src/lx/parser.c"
+#line 466 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complete */
 			p_212 (lex_state, act_state, &ZIz, &ZI210, &ZI206);
@@ -473,7 +477,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 741 "src/lx/parser.act"
+#line 745 "src/lx/parser.act"
 
 		assert((ZI239) != NULL);
 
@@ -493,7 +497,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 		}
 	
-#line 497 "src/lx/parser.c"
+#line 501 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI240, &ZI241);
@@ -513,7 +517,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 
 		ZIn = xstrdup(lex_state->buf.a);
 	
-#line 517 "src/lx/parser.c"
+#line 521 "src/lx/parser.c"
 			}
 			/* END OF EXTRACT: IDENT */
 			ADVANCE_LEXER;
@@ -563,7 +567,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 741 "src/lx/parser.act"
+#line 745 "src/lx/parser.act"
 
 		assert((ZI248) != NULL);
 
@@ -583,7 +587,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 		}
 	
-#line 587 "src/lx/parser.c"
+#line 591 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI249, &ZI250);
@@ -614,7 +618,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-complement */
 			{
-#line 664 "src/lx/parser.act"
+#line 668 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -623,7 +627,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			goto ZL1;
 		}
 	
-#line 627 "src/lx/parser.c"
+#line 631 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complement */
 			p_212 (lex_state, act_state, &ZIz, &ZI210, &ZI206);
@@ -638,7 +642,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 741 "src/lx/parser.act"
+#line 745 "src/lx/parser.act"
 
 		assert((ZI223) != NULL);
 
@@ -658,7 +662,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 		}
 	
-#line 662 "src/lx/parser.c"
+#line 666 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI224, &ZI225);
@@ -690,7 +694,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		/* TODO: submatch addressing */
 		ZI253 = xstrdup(lex_state->buf.a + 1); /* +1 for '$' prefix */
 	
-#line 694 "src/lx/parser.c"
+#line 698 "src/lx/parser.c"
 			}
 			/* END OF EXTRACT: TOKEN */
 			ADVANCE_LEXER;
@@ -734,7 +738,11 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 				goto ZL1;
 			}
 
-			(void) fsm_getstart(fsm, &ms);
+			/* a pattern which matches nothing may have no states */
+			if (!fsm_getstart(fsm, &ms)) {
+				fsm_free(fsm);
+				continue;
+			}
 
 			(ZI254) = fsm_merge((ZI254), fsm, &combine_info);
 			if ((ZI254) == NULL) {
@@ -753,7 +761,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 
 		fsm_setstart((ZI254), start);
 	
-#line 757 "src/lx/parser.c"
+#line 765 "src/lx/parser.c"
 			}
 			/* END OF ACTION: deref-token */
 			p_197 (lex_state, act_state, ZI254, &ZI210);
@@ -769,7 +777,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 741 "src/lx/parser.act"
+#line 745 "src/lx/parser.act"
 
 		assert((ZI259) != NULL);
 
@@ -789,7 +797,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 		}
 	
-#line 793 "src/lx/parser.c"
+#line 801 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI260, &ZI261);
@@ -829,7 +837,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 741 "src/lx/parser.act"
+#line 745 "src/lx/parser.act"
 
 		assert((ZI268) != NULL);
 
@@ -849,7 +857,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 		}
 	
-#line 853 "src/lx/parser.c"
+#line 861 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI269, &ZI270);
@@ -869,11 +877,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-thing */
 		{
-#line 816 "src/lx/parser.act"
+#line 820 "src/lx/parser.act"
 
 		err_expected(lex_state, "mapping, binding or zone");
 	
-#line 877 "src/lx/parser.c"
+#line 885 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-thing */
 	}
@@ -899,11 +907,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-open */
 		{
-#line 804 "src/lx/parser.act"
+#line 808 "src/lx/parser.act"
 
 		err_expected(lex_state, "'{'");
 	
-#line 907 "src/lx/parser.c"
+#line 915 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-open */
 	}
@@ -929,11 +937,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-close */
 		{
-#line 808 "src/lx/parser.act"
+#line 812 "src/lx/parser.act"
 
 		err_expected(lex_state, "'}'");
 	
-#line 937 "src/lx/parser.c"
+#line 945 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-close */
 	}
@@ -962,7 +970,7 @@ ZL2_pattern_C_Cbody:;
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 966 "src/lx/parser.c"
+#line 974 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: CHAR */
 						ADVANCE_LEXER;
@@ -990,7 +998,7 @@ ZL2_pattern_C_Cbody:;
 		default:   ZIc = '\0'; break; /* TODO: handle error */
 		}
 	
-#line 994 "src/lx/parser.c"
+#line 1002 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: ESC */
 						ADVANCE_LEXER;
@@ -1027,7 +1035,7 @@ ZL2_pattern_C_Cbody:;
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 1031 "src/lx/parser.c"
+#line 1039 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: HEX */
 						ADVANCE_LEXER;
@@ -1064,7 +1072,7 @@ ZL2_pattern_C_Cbody:;
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 1068 "src/lx/parser.c"
+#line 1076 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: OCT */
 						ADVANCE_LEXER;
@@ -1087,7 +1095,7 @@ ZL2_pattern_C_Cbody:;
 		/* TODO */
 		*lex_state->p++ = (ZIc);
 	
-#line 1091 "src/lx/parser.c"
+#line 1099 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-char */
 			/* BEGINNING OF INLINE: pattern::body */
@@ -1216,7 +1224,7 @@ ZL2_180:;
 			}
 			/* BEGINNING OF ACTION: op-alt */
 			{
-#line 730 "src/lx/parser.act"
+#line 734 "src/lx/parser.act"
 
 		assert((ZI177) != NULL);
 		assert((ZIb) != NULL);
@@ -1227,7 +1235,7 @@ ZL2_180:;
 			goto ZL1;
 		}
 	
-#line 1231 "src/lx/parser.c"
+#line 1239 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-alt */
 			/* BEGINNING OF INLINE: 180 */
@@ -1296,7 +1304,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-reverse */
 			{
-#line 682 "src/lx/parser.act"
+#line 686 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1305,7 +1313,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1309 "src/lx/parser.c"
+#line 1317 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-reverse */
 		}
@@ -1320,7 +1328,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-complete */
 			{
-#line 673 "src/lx/parser.act"
+#line 677 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1329,7 +1337,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1333 "src/lx/parser.c"
+#line 1341 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complete */
 		}
@@ -1344,7 +1352,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-complement */
 			{
-#line 664 "src/lx/parser.act"
+#line 668 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1353,7 +1361,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1357 "src/lx/parser.c"
+#line 1365 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complement */
 		}
@@ -1403,7 +1411,7 @@ ZL2_186:;
 			}
 			/* BEGINNING OF ACTION: op-intersect */
 			{
-#line 719 "src/lx/parser.act"
+#line 723 "src/lx/parser.act"
 
 		assert((ZI183) != NULL);
 		assert((ZIb) != NULL);
@@ -1414,7 +1422,7 @@ ZL2_186:;
 			goto ZL1;
 		}
 	
-#line 1418 "src/lx/parser.c"
+#line 1426 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-intersect */
 			/* BEGINNING OF INLINE: 186 */
@@ -1460,7 +1468,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hto_Hmappings_C_Clist_Hof_
 			}
 			/* BEGINNING OF ACTION: op-alt */
 			{
-#line 730 "src/lx/parser.act"
+#line 734 "src/lx/parser.act"
 
 		assert((ZIold_Hexit) != NULL);
 		assert((ZInew_Hexit) != NULL);
@@ -1471,7 +1479,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hto_Hmappings_C_Clist_Hof_
 			goto ZL1;
 		}
 	
-#line 1475 "src/lx/parser.c"
+#line 1483 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-alt */
 			/* BEGINNING OF INLINE: list-of-things::zone-thing::list-of-zone-to-mappings::list-of-zone-to-mappings-x */
@@ -1559,7 +1567,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-cross */
 						{
-#line 574 "src/lx/parser.act"
+#line 578 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1604,7 +1612,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1608 "src/lx/parser.c"
+#line 1616 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-cross */
 						/* BEGINNING OF INLINE: 197 */
@@ -1618,7 +1626,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-qmark */
 						{
-#line 619 "src/lx/parser.act"
+#line 623 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1663,7 +1671,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1667 "src/lx/parser.c"
+#line 1675 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-qmark */
 						/* BEGINNING OF INLINE: 197 */
@@ -1677,7 +1685,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-star */
 						{
-#line 524 "src/lx/parser.act"
+#line 528 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1727,7 +1735,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1731 "src/lx/parser.c"
+#line 1739 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-star */
 						/* BEGINNING OF INLINE: 197 */
@@ -1800,7 +1808,7 @@ p_204(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI202, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-subtract */
 			{
-#line 708 "src/lx/parser.act"
+#line 712 "src/lx/parser.act"
 
 		assert((*ZI202) != NULL);
 		assert((ZIb) != NULL);
@@ -1811,7 +1819,7 @@ p_204(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI202, fsm *ZOq)
 			goto ZL1;
 		}
 	
-#line 1815 "src/lx/parser.c"
+#line 1823 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-subtract */
 		}
@@ -1875,7 +1883,7 @@ p_208(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI206, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-concat */
 			{
-#line 691 "src/lx/parser.act"
+#line 695 "src/lx/parser.act"
 
 		assert((*ZI206) != NULL);
 		assert((ZIb) != NULL);
@@ -1886,7 +1894,7 @@ p_208(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI206, fsm *ZOq)
 			goto ZL1;
 		}
 	
-#line 1890 "src/lx/parser.c"
+#line 1898 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-concat */
 		}
@@ -1925,13 +1933,13 @@ p_212(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI210, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-product */
 			{
-#line 702 "src/lx/parser.act"
+#line 706 "src/lx/parser.act"
 
 		fprintf(stderr, "unimplemented\n");
 		(ZIq) = NULL;
 		goto ZL1;
 	
-#line 1935 "src/lx/parser.c"
+#line 1943 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-product */
 		}
@@ -1979,7 +1987,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		ZIf |= RE_ANCHORED; /* regexps in lx are implicitly anchored */
 		ZIf |= RE_SINGLE;   /* we can't assume we're lexing text */
 	
-#line 1983 "src/lx/parser.c"
+#line 1991 "src/lx/parser.c"
 			}
 			/* END OF EXTRACT: RE */
 			ADVANCE_LEXER;
@@ -2011,12 +2019,12 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		lex_state->p = lex_state->a;
 	
-#line 2015 "src/lx/parser.c"
+#line 2023 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-regex */
 			{
-#line 382 "src/lx/parser.act"
+#line 386 "src/lx/parser.act"
 
 		struct re_err err;
 
@@ -2031,16 +2039,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2035 "src/lx/parser.c"
+#line 2043 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-regex */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 771 "src/lx/parser.act"
+#line 775 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2044 "src/lx/parser.c"
+#line 2052 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2078,12 +2086,12 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		lex_state->p = lex_state->a;
 	
-#line 2082 "src/lx/parser.c"
+#line 2090 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-literal */
 			{
-#line 367 "src/lx/parser.act"
+#line 371 "src/lx/parser.act"
 
 		struct re_err err;
 
@@ -2098,16 +2106,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2102 "src/lx/parser.c"
+#line 2110 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-literal */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 771 "src/lx/parser.act"
+#line 775 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2111 "src/lx/parser.c"
+#line 2119 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2171,7 +2179,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 741 "src/lx/parser.act"
+#line 745 "src/lx/parser.act"
 
 		assert((ZIr) != NULL);
 
@@ -2191,12 +2199,12 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			}
 		}
 	
-#line 2195 "src/lx/parser.c"
+#line 2203 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 455 "src/lx/parser.act"
+#line 459 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2229,7 +2237,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			nmappings++;
 		}
 	
-#line 2233 "src/lx/parser.c"
+#line 2241 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: list-of-things::zone-thing::list-of-zone-from-mappings::list-of-zone-from-mappings-x */
@@ -2263,16 +2271,16 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 
 		/* BEGINNING OF ACTION: no-zone */
 		{
-#line 520 "src/lx/parser.act"
+#line 524 "src/lx/parser.act"
 
 		(ZIparent) = NULL;
 	
-#line 2271 "src/lx/parser.c"
+#line 2279 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-zone */
 		/* BEGINNING OF ACTION: make-ast */
 		{
-#line 429 "src/lx/parser.act"
+#line 433 "src/lx/parser.act"
 
 		(ZIa) = ast_new();
 		if ((ZIa) == NULL) {
@@ -2280,12 +2288,12 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2284 "src/lx/parser.c"
+#line 2292 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: make-zone */
 		{
-#line 437 "src/lx/parser.act"
+#line 441 "src/lx/parser.act"
 
 		assert((ZIa) != NULL);
 
@@ -2303,28 +2311,28 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2307 "src/lx/parser.c"
+#line 2315 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-zone */
 		/* BEGINNING OF ACTION: no-exit */
 		{
-#line 516 "src/lx/parser.act"
+#line 520 "src/lx/parser.act"
 
 		(ZIexit) = NULL;
 	
-#line 2316 "src/lx/parser.c"
+#line 2324 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-exit */
 		/* BEGINNING OF ACTION: set-globalzone */
 		{
-#line 505 "src/lx/parser.act"
+#line 509 "src/lx/parser.act"
 
 		assert((ZIa) != NULL);
 		assert((ZIz) != NULL);
 
 		(ZIa)->global = (ZIz);
 	
-#line 2328 "src/lx/parser.c"
+#line 2336 "src/lx/parser.c"
 		}
 		/* END OF ACTION: set-globalzone */
 		p_list_Hof_Hthings (lex_state, act_state, ZIa, ZIz, ZIexit);
@@ -2348,11 +2356,11 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			{
 				/* BEGINNING OF ACTION: err-expected-eof */
 				{
-#line 812 "src/lx/parser.act"
+#line 816 "src/lx/parser.act"
 
 		err_expected(lex_state, "EOF");
 	
-#line 2356 "src/lx/parser.c"
+#line 2364 "src/lx/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -2365,7 +2373,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: make-ast */
 		{
-#line 429 "src/lx/parser.act"
+#line 433 "src/lx/parser.act"
 
 		(ZIa) = ast_new();
 		if ((ZIa) == NULL) {
@@ -2373,17 +2381,17 @@ ZL1:;
 			goto ZL4;
 		}
 	
-#line 2377 "src/lx/parser.c"
+#line 2385 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: err-syntax */
 		{
-#line 779 "src/lx/parser.act"
+#line 783 "src/lx/parser.act"
 
 		err(lex_state, "Syntax error");
 		exit(EXIT_FAILURE);
 	
-#line 2387 "src/lx/parser.c"
+#line 2395 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-syntax */
 	}
@@ -2440,7 +2448,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 		}
 		/* BEGINNING OF ACTION: clone */
 		{
-#line 761 "src/lx/parser.act"
+#line 765 "src/lx/parser.act"
 
 		assert((ZIr) != NULL);
 
@@ -2450,12 +2458,12 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			goto ZL1;
 		}
 	
-#line 2454 "src/lx/parser.c"
+#line 2462 "src/lx/parser.c"
 		}
 		/* END OF ACTION: clone */
 		/* BEGINNING OF ACTION: add-mapping */
 		{
-#line 455 "src/lx/parser.act"
+#line 459 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2488,7 +2496,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			nmappings++;
 		}
 	
-#line 2492 "src/lx/parser.c"
+#line 2500 "src/lx/parser.c"
 		}
 		/* END OF ACTION: add-mapping */
 	}
@@ -2524,11 +2532,11 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 				{
 					/* BEGINNING OF ACTION: err-expected-map */
 					{
-#line 788 "src/lx/parser.act"
+#line 792 "src/lx/parser.act"
 
 		err_expected(lex_state, "'->'");
 	
-#line 2532 "src/lx/parser.c"
+#line 2540 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-map */
 				}
@@ -2544,7 +2552,7 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 		/* TODO: submatch addressing */
 		ZIt = xstrdup(lex_state->buf.a + 1); /* +1 for '$' prefix */
 	
-#line 2548 "src/lx/parser.c"
+#line 2556 "src/lx/parser.c"
 				}
 				/* END OF EXTRACT: TOKEN */
 				break;
@@ -2558,11 +2566,11 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 		{
 			/* BEGINNING OF ACTION: no-token */
 			{
-#line 512 "src/lx/parser.act"
+#line 516 "src/lx/parser.act"
 
 		(ZIt) = NULL;
 	
-#line 2566 "src/lx/parser.c"
+#line 2574 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-token */
 		}
@@ -2651,11 +2659,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-semi */
 		{
-#line 796 "src/lx/parser.act"
+#line 800 "src/lx/parser.act"
 
 		err_expected(lex_state, "';'");
 	
-#line 2659 "src/lx/parser.c"
+#line 2667 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-semi */
 	}
@@ -2702,16 +2710,16 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: no-zone */
 			{
-#line 520 "src/lx/parser.act"
+#line 524 "src/lx/parser.act"
 
 		(ZIto) = NULL;
 	
-#line 2710 "src/lx/parser.c"
+#line 2718 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 455 "src/lx/parser.act"
+#line 459 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2744,7 +2752,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2748 "src/lx/parser.c"
+#line 2756 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 		}
@@ -2756,7 +2764,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: make-zone */
 			{
-#line 437 "src/lx/parser.act"
+#line 441 "src/lx/parser.act"
 
 		assert((*ZIa) != NULL);
 
@@ -2774,12 +2782,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 2778 "src/lx/parser.c"
+#line 2786 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 455 "src/lx/parser.act"
+#line 459 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2812,7 +2820,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2816 "src/lx/parser.c"
+#line 2824 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			p_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Hof_Hzone_Hfrom_Hmappings_Hx (lex_state, act_state, *ZIa, *ZIz, ZIchild, *ZIexit);
@@ -2836,11 +2844,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-to */
 					{
-#line 800 "src/lx/parser.act"
+#line 804 "src/lx/parser.act"
 
 		err_expected(lex_state, "'..'");
 	
-#line 2844 "src/lx/parser.c"
+#line 2852 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-to */
 				}
@@ -2865,25 +2873,25 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 						}
 						/* BEGINNING OF ACTION: no-zone */
 						{
-#line 520 "src/lx/parser.act"
+#line 524 "src/lx/parser.act"
 
 		(ZIx) = NULL;
 	
-#line 2873 "src/lx/parser.c"
+#line 2881 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-zone */
 						/* BEGINNING OF ACTION: no-token */
 						{
-#line 512 "src/lx/parser.act"
+#line 516 "src/lx/parser.act"
 
 		(ZIy) = NULL;
 	
-#line 2882 "src/lx/parser.c"
+#line 2890 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-token */
 						/* BEGINNING OF ACTION: regex-any */
 						{
-#line 398 "src/lx/parser.act"
+#line 402 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 
@@ -2914,12 +2922,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		fsm_setstart((ZIw), start);
 		fsm_setend((ZIw), end, 1);
 	
-#line 2918 "src/lx/parser.c"
+#line 2926 "src/lx/parser.c"
 						}
 						/* END OF ACTION: regex-any */
 						/* BEGINNING OF ACTION: subtract-exit */
 						{
-#line 741 "src/lx/parser.act"
+#line 745 "src/lx/parser.act"
 
 		assert((ZIw) != NULL);
 
@@ -2939,12 +2947,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 		}
 	
-#line 2943 "src/lx/parser.c"
+#line 2951 "src/lx/parser.c"
 						}
 						/* END OF ACTION: subtract-exit */
 						/* BEGINNING OF ACTION: add-mapping */
 						{
-#line 455 "src/lx/parser.act"
+#line 459 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2977,7 +2985,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2981 "src/lx/parser.c"
+#line 2989 "src/lx/parser.c"
 						}
 						/* END OF ACTION: add-mapping */
 					}
@@ -3004,11 +3012,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 820 "src/lx/parser.act"
+#line 824 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3012 "src/lx/parser.c"
+#line 3020 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3024,16 +3032,16 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: no-exit */
 			{
-#line 516 "src/lx/parser.act"
+#line 520 "src/lx/parser.act"
 
 		(ZIr2) = NULL;
 	
-#line 3032 "src/lx/parser.c"
+#line 3040 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-exit */
 			/* BEGINNING OF ACTION: make-zone */
 			{
-#line 437 "src/lx/parser.act"
+#line 441 "src/lx/parser.act"
 
 		assert((*ZIa) != NULL);
 
@@ -3051,12 +3059,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3055 "src/lx/parser.c"
+#line 3063 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 455 "src/lx/parser.act"
+#line 459 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -3089,7 +3097,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 3093 "src/lx/parser.c"
+#line 3101 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: 131 */
@@ -3108,11 +3116,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 820 "src/lx/parser.act"
+#line 824 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3116 "src/lx/parser.c"
+#line 3124 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3156,11 +3164,11 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-bind */
 					{
-#line 792 "src/lx/parser.act"
+#line 796 "src/lx/parser.act"
 
 		err_expected(lex_state, "'='");
 	
-#line 3164 "src/lx/parser.c"
+#line 3172 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-bind */
 				}
@@ -3175,7 +3183,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: add-binding */
 			{
-#line 488 "src/lx/parser.act"
+#line 492 "src/lx/parser.act"
 
 		struct var *v;
 
@@ -3192,7 +3200,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3196 "src/lx/parser.c"
+#line 3204 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-binding */
 		}
@@ -3245,7 +3253,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3249 "src/lx/parser.c"
+#line 3257 "src/lx/parser.c"
 			}
 			/* END OF ACTION: deref-var */
 			p_197 (lex_state, act_state, ZI273, &ZI210);
@@ -3261,7 +3269,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 741 "src/lx/parser.act"
+#line 745 "src/lx/parser.act"
 
 		assert((ZI278) != NULL);
 
@@ -3281,7 +3289,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 		}
 	
-#line 3285 "src/lx/parser.c"
+#line 3293 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, ZIa, ZIz, ZIexit, &ZI279, &ZI280);
@@ -3304,7 +3312,7 @@ ZL1:;
 
 /* BEGINNING OF TRAILER */
 
-#line 824 "src/lx/parser.act"
+#line 828 "src/lx/parser.act"
 
 
 	struct ast *lx_parse(FILE *f, const struct fsm_alloc *alloc) {
@@ -3367,6 +3375,6 @@ ZL1:;
 		return ast;
 	}
 
-#line 3371 "src/lx/parser.c"
+#line 3379 "src/lx/parser.c"
 
 /* END OF FILE */
diff --git a/src/lx/parser.h b/src/lx/parser.h
index b30dcb4..292b0e8 100644
--- a/src/lx/parser.h
+++ b/src/lx/parser.h
@@ -29,7 +29,7 @@
 extern void p_lx(lex_state, act_state, ast *);
 /* BEGINNING OF TRAILER */
 
-#line 885 "src/lx/parser.act"
+#line 890 "src/lx/parser.act"
 
 
 #line 36 "src/lx/parser.h"
-- 
2.43.0


From f584ddb059de2d5e5fa7c4bd83fe4b47f38c0398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:43 +0000
Subject: [PATCH 095/154] fix: fsm(1) -x opens each text file rather than the
 first one every time

---
 src/fsm/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index f9d1bb3..7394495 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -738,7 +738,7 @@ main(int argc, char *argv[])
 			if (xfiles) {
 				FILE *f;
 
-				f = xopen(argv[0]);
+				f = xopen(argv[i]);
 
 				e = fsm_exec(fsm, fsm_fgetc, f, &state, NULL);
 
-- 
2.43.0


From f75f6cbc17fcdde70ed054b8f979af69b318d026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 096/154] fix: fsm(1) -U no longer determinises NULL after -t
 equal

---
 src/fsm/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index 7394495..3e70746 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -588,7 +588,7 @@ main(int argc, char *argv[])
 		 * We can't include \0 here because optarg is a string, and I don't
 		 * want to invent a syntax for character sets.
 		 */
-		if (charset != NULL) {
+		if (charset != NULL && q != NULL) {
 			if (!fsm_determinise(q)) {
 				perror("fsm_determinise");
 				exit(EXIT_FAILURE);
-- 
2.43.0


From a7b6a214803f847ebcf064d6802d425260cf582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 097/154] fix: fsm(1) -G succeeds when the matches have been
 generated

---
 src/fsm/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index 3e70746..3169108 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -770,7 +770,10 @@ main(int argc, char *argv[])
 	}
 
 	if (generate_bounds > 0) {
-		r = fsm_generate_matches(fsm, generate_bounds, 0, fsm_generate_cb_printf_escaped, &opt);
+		if (!fsm_generate_matches(fsm, generate_bounds, 0, fsm_generate_cb_printf_escaped, &opt)) {
+			perror("fsm_generate_matches");
+			exit(EXIT_FAILURE);
+		}
 	}
 
 	fsm_free(fsm);
-- 
2.43.0


From a08e97c51af8317cac79279a137d53b150148c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 098/154] fix: fsm(1) -G determinises, as
 fsm_generate_matches() requires a DFA

---
 src/fsm/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index 3169108..49a1f07 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -770,6 +770,11 @@ main(int argc, char *argv[])
 	}
 
 	if (generate_bounds > 0) {
+		if (!fsm_all(fsm, fsm_isdfa) && !fsm_determinise(fsm)) {
+			perror("fsm_determinise");
+			exit(EXIT_FAILURE);
+		}
+
 		if (!fsm_generate_matches(fsm, generate_bounds, 0, fsm_generate_cb_printf_escaped, &opt)) {
 			perror("fsm_generate_matches");
 			exit(EXIT_FAILURE);
-- 
2.43.0


From e78838ff1da3a4e8e3e20cc4480f0399c67b13f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 099/154] fix: fsm(1) -q epsilonclosure prints nothing for an
 automaton of no states

---
 src/fsm/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index 49a1f07..6492cc8 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -663,13 +663,16 @@ main(int argc, char *argv[])
 			size_t n;
 			struct state_iter it;
 
+			n = fsm_countstates(fsm);
+			if (n == 0) {
+				return 0;
+			}
+
 			closures = epsilon_closure(fsm);
 			if (closures == NULL) {
 				return -1;
 			}
 
-			n = fsm_countstates(fsm);
-
 			for (i = 0; i < n; i++) {
 				int first = 1;
 				if (!opt.anonymous_states) {
-- 
2.43.0


From 0ebb8d8d0f0e09659d9dd398f19a3478cfa40f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 100/154] fix: fsm(1) -q requiredchars reports an error rather
 than asserting success

---
 src/fsm/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index 6492cc8..204c3a2 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -699,8 +699,10 @@ main(int argc, char *argv[])
 			if (res == FSM_DETECT_REQUIRED_CHARACTERS_STEP_LIMIT_REACHED) {
 				fprintf(stderr, "fsm_detect_required_characters: step limit reached (%zd)\n", step_limit);
 				exit(EXIT_FAILURE);
+			} else if (res != FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN) {
+				perror("fsm_detect_required_characters");
+				exit(EXIT_FAILURE);
 			} else {
-				assert(res == FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN);
 				char buf[257] = {0};
 				size_t used = 0;
 				for (size_t i = 0; i < 256; i++) {
-- 
2.43.0


From a161ab951aac369674d8a22c66b25e9ef50de8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 101/154] fix: re(1) -q compares each pattern with the previous
 ones rather than with a union including itself

---
 src/re/main.c | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/re/main.c b/src/re/main.c
index 9059af9..2bf8ea2 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -822,7 +822,7 @@ main(int argc, char *argv[])
 
 		for (i = 0; i < argc - !(fsm_lang != FSM_PRINT_NONE || example || isliteral || !!query || argc <= 1); i++) {
 			struct re_err err;
-			struct fsm *new, *q;
+			struct fsm *new;
 
 			/* TODO: handle possible "dialect:" prefix */
 
@@ -892,26 +892,10 @@ main(int argc, char *argv[])
 			/* TODO: implement concatenating patterns for -s in conjunction with -z.
 			 * Note that depends on the regexp dialect */
 
-			if (query != NULL) {
-				q = fsm_clone(new);
-				if (q == NULL) {
-					perror("fsm_clone");
-					return EXIT_FAILURE;
-				}
-			}
-
-			fsm = join(fsm, new, NULL);
-			if (fsm == NULL) {
-				perror("fsm_union/concat");
-				return EXIT_FAILURE;
-			}
-
-			fsm_to_cleanup = fsm;
-
-			if (query != NULL) {
+			if (query != NULL && i > 0) {
 				int r;
 
-				r = query(fsm, q);
+				r = query(fsm, new);
 				if (r == -1) {
 					perror("query");
 					return EXIT_FAILURE;
@@ -920,9 +904,15 @@ main(int argc, char *argv[])
 				if (r == 0) {
 					return EXIT_FAILURE;
 				}
+			}
 
-				fsm_free(q);
+			fsm = join(fsm, new, NULL);
+			if (fsm == NULL) {
+				perror("fsm_union/concat");
+				return EXIT_FAILURE;
 			}
+
+			fsm_to_cleanup = fsm;
 		}
 
 		matchv = argv;
-- 
2.43.0


From e78ff2a2c4e7ebf48014d42c40732ec5446c4bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 102/154] fix: re(1) names the right patterns when they are
 followed by --

---
 src/re/main.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/re/main.c b/src/re/main.c
index 2bf8ea2..7b9becf 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -818,7 +818,9 @@ main(int argc, char *argv[])
 	fsm_to_cleanup = fsm;
 
 	{
-		int i;
+		int i, sep;
+
+		sep = 0;
 
 		for (i = 0; i < argc - !(fsm_lang != FSM_PRINT_NONE || example || isliteral || !!query || argc <= 1); i++) {
 			struct re_err err;
@@ -827,9 +829,7 @@ main(int argc, char *argv[])
 			/* TODO: handle possible "dialect:" prefix */
 
 			if (0 == strcmp(argv[i], "--")) {
-				argc--;
-				argv++;
-
+				sep = 1;
 				break;
 			}
 
@@ -918,8 +918,8 @@ main(int argc, char *argv[])
 		matchv = argv;
 		matchc = i;
 
-		argc -= i;
-		argv += i;
+		argc -= i + sep;
+		argv += i + sep;
 	}
 
 	if (query) {
-- 
2.43.0


From 80647e5095fb0957b4a0ee106e555da0d6d1f017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 103/154] fix: re(1) -z lists every matching pattern when
 executing

---
 src/re/main.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/re/main.c b/src/re/main.c
index 7b9becf..91aa762 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -1140,12 +1140,14 @@ main(int argc, char *argv[])
 				}
 
 				if (patterns) {
-					fsm_end_id_t ids[1];
+					fsm_end_id_t *ids;
 					size_t count, i;
 					int res;
 
 					count = fsm_endid_count(fsm, state);
-					assert(count == 1);
+					assert(count >= 1);
+
+					ids = xmalloc(count * sizeof *ids);
 
 					res = fsm_endid_get(fsm, state, count, ids);
 					assert(res == 1);
@@ -1154,6 +1156,8 @@ main(int argc, char *argv[])
 						/* TODO: print nicely */
 						printf("match: /%s/\n", matchv[ids[i]]);
 					}
+
+					free(ids);
 				}
 			}
 		}
-- 
2.43.0


From 26c5cb3d476f41857ac41f1eefc5aa55f82f739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 104/154] fix: re(1) rejects -M with -z, as the VM does not
 give the end state

---
 src/re/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/re/main.c b/src/re/main.c
index 91aa762..5f4057f 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -636,6 +636,11 @@ main(int argc, char *argv[])
 		return EXIT_FAILURE;
 	}
 
+	if (makevm && patterns) {
+		fprintf(stderr, "-M cannot be used with -z\n");
+		return EXIT_FAILURE;
+	}
+
 	if (patterns && !!query) {
 		fprintf(stderr, "-z does not apply for querying\n");
 		return EXIT_FAILURE;
-- 
2.43.0


From 61bb86303eb92885ce00e2013dfd4845ec000310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 105/154] fix: re(1) lists the AST languages, not the FSM
 languages twice

---
 src/re/main.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/re/main.c b/src/re/main.c
index 5f4057f..5f6b4d4 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -165,10 +165,10 @@ lang_name(const char *name, enum fsm_print_lang *fsm_lang, enum ast_print_lang *
 			", ");
 	}
 
-	for (i = 0; i < sizeof a / sizeof *a; i++) {
+	for (i = 0; i < sizeof b / sizeof *b; i++) {
 		fprintf(stderr, "%s%s",
-			a[i].name,
-			i + 1 < sizeof a / sizeof *a ? ", " : "\n");
+			b[i].name,
+			i + 1 < sizeof b / sizeof *b ? ", " : "\n");
 	}
 
 	exit(EXIT_FAILURE);
-- 
2.43.0


From f2d75a07d4320ff07f80800ccd9dbb4714f3fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 106/154] fix: removing epsilons from an automaton of no states
 does nothing

---
 src/libfsm/epsilons.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libfsm/epsilons.c b/src/libfsm/epsilons.c
index 926e6d9..7543714 100644
--- a/src/libfsm/epsilons.c
+++ b/src/libfsm/epsilons.c
@@ -141,6 +141,10 @@ fsm_remove_epsilons(struct fsm *nfa)
 
 	assert(nfa != NULL);
 
+	if (state_count == 0) {
+		return 1;
+	}
+
 	TIME(&pre);
 	eclosures = epsilon_closure(nfa);
 	TIME(&post);
-- 
2.43.0


From 086aa704e93a304a5a31f9e860e1ddc7904bd4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 107/154] fix: rx(1) accepts a last line which has no newline

---
 src/rx/main.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index 4ac357b..0822e81 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -124,9 +124,8 @@ xgetline(FILE *f)
 		exit(EXIT_FAILURE);
 	}
 
-	/* n == 0 for an empty line */
-	if (n > 0) {
-		assert(buf[n - 1] == '\n');
+	/* the last line need not end with a newline */
+	if (n > 0 && buf[n - 1] == '\n') {
 		buf[n - 1] = '\0';
 	}
 
-- 
2.43.0


From 4bd007094c1640a03ae7e44cce7228210b9a328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 108/154] fix: rx(1) fails when it reports ambiguous patterns

---
 src/rx/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index 0822e81..7a8f26c 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -1376,7 +1376,8 @@ main(int argc, char *argv[])
 			fprintf(stderr, "dfa: %u states\n", fsm_countstates(fsm));
 		}
 
-		if (-1 == fsm_print(stdout, fsm, &opt, &hooks, fsm_lang)) {
+		/* -1 is an error, 1 is for a conflict */
+		if (0 != fsm_print(stdout, fsm, &opt, &hooks, fsm_lang)) {
 			exit(EXIT_FAILURE);
 		}
 
-- 
2.43.0


From 1e04e1cea102a24534da5f6bb72ee456c8321510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 109/154] fix: rx(1) finds the pattern for a conflict by its
 own index

---
 src/rx/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index 7a8f26c..5a434f3 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -609,10 +609,10 @@ conflict(FILE *f, const struct fsm_options *opt,
 
 		for (size_t j = 0; j < env->general->count; j++) {
 			// TODO: delimiters per dialect, centralise with libre's re_perror()
-			if (env->general->a[i].id == state_metadata->end_ids[i]) {
+			if (env->general->a[j].id == state_metadata->end_ids[i]) {
 				fprintf(stderr, "#%u: /%s/\n",
 					state_metadata->end_ids[i],
-					env->general->a[i].s);
+					env->general->a[j].s);
 				goto next;
 			}
 		}
-- 
2.43.0


From 9838fb8892c4e3ac5890ac23fcb20bf588554d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 110/154] fix: rx(1) gives a pattern declined at compilation
 its own id, and frees it once

---
 src/rx/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index 5a434f3..4b986a8 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -609,7 +609,8 @@ conflict(FILE *f, const struct fsm_options *opt,
 
 		for (size_t j = 0; j < env->general->count; j++) {
 			// TODO: delimiters per dialect, centralise with libre's re_perror()
-			if (env->general->a[j].id == state_metadata->end_ids[i]) {
+			/* no spelling means it was declined */
+			if (env->general->a[j].s != NULL && env->general->a[j].id == state_metadata->end_ids[i]) {
 				fprintf(stderr, "#%u: /%s/\n",
 					state_metadata->end_ids[i],
 					env->general->a[j].s);
@@ -1252,7 +1253,9 @@ main(int argc, char *argv[])
 				general.a[i].dialect, strict,
 				general.a[i].s, flags, general.a[i].id);
 			if (fsm == NULL) {
-				append_pattern(&declined, i, general.a[i].dialect, general.a[i].s);
+				append_pattern(&declined, general.a[i].id, general.a[i].dialect, general.a[i].s);
+				/* the declined set owns the string now */
+				general.a[i].s = NULL;
 				continue;
 			}
 
-- 
2.43.0


From 29442a8c2b20fdf89020a8e69fdfbfd3f6ebf8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 111/154] fix: rx(1) checks for an unsatisfiable pattern before
 reading the length of its literal

---
 src/rx/main.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index 4b986a8..6c07ff8 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -312,18 +312,17 @@ categorize(enum re_dialect dialect, enum re_flags flags,
 		return CATEGORY_ERROR;
 	}
 
+	/* unsatisfiable, which sets neither lit_s nor lit_n */
+	if (r == 1 && category == RE_LITERAL_UNSATISFIABLE) {
+		return CATEGORY_UNSATISFIABLE;
+	}
+
 	/* empty string */
 	if (r == 1 && lit_n == 0) {
 		assert(lit_s == NULL);
 		return CATEGORY_EMPTY;
 	}
 
-	/* unsatisfiable */
-	if (r == 1 && category == RE_LITERAL_UNSATISFIABLE) {
-		assert(lit_s == NULL);
-		return CATEGORY_UNSATISFIABLE;
-	}
-
 	/* is a literal */
 	if (r == 1) {
 		assert(lit_s != NULL);
-- 
2.43.0


From fcde0e2735de74a668b69d09ca8d3f267ac81a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 112/154] fix: Go fragments for the getc IO API are refused
 rather than asserted against

---
 src/libfsm/print/go.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index 01f85a1..0598cde 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -376,6 +376,12 @@ fsm_print_go(FILE *f,
 	assert(hooks != NULL);
 	assert(retlist != NULL);
 
+	/* before the fragment too, which has nothing to fetch characters by */
+	if (opt->io == FSM_IO_GETC) {
+		errno = ENOTSUP;
+		return -1;
+	}
+
 	if (opt->prefix != NULL) {
 		prefix = opt->prefix;
 	} else {
-- 
2.43.0


From 86eacd504791f98c59d177fc4929a549e6e46ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:40 +0000
Subject: [PATCH 113/154] fix: intersecting a charset with an automaton which
 has no start state gives that automaton, which matches nothing

---
 src/libfsm/charset.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libfsm/charset.c b/src/libfsm/charset.c
index 3f987ea..a6fbc91 100644
--- a/src/libfsm/charset.c
+++ b/src/libfsm/charset.c
@@ -55,6 +55,16 @@ fsm_intersect_charset(struct fsm *a, size_t n, const char *charset)
 		fsm_setstart(b, state);
 	}
 
+	/* nothing to walk; this matches nothing already */
+	{
+		fsm_state_t start;
+
+		if (!fsm_getstart(a, &start)) {
+			fsm_free(b);
+			return a;
+		}
+	}
+
 	assert(fsm_all(a, fsm_isdfa));
 	assert(fsm_all(b, fsm_isdfa));
 
-- 
2.43.0


From 4ecb33381bec4f176310f56101cba155b70be9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 114/154] fix: fsm_new frees its parts before the automaton
 itself when an allocation fails

---
 src/libfsm/fsm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/fsm.c b/src/libfsm/fsm.c
index 866650a..4072795 100644
--- a/src/libfsm/fsm.c
+++ b/src/libfsm/fsm.c
@@ -94,17 +94,17 @@ fsm_new_statealloc(const struct fsm_alloc *alloc, size_t statealloc)
 	}
 
 	if (!fsm_endid_init(new)) {
+		fsm_capture_free(new);
 		f_free(new->alloc, new->states);
 		f_free(new->alloc, new);
-		fsm_capture_free(new);
 		return NULL;
 	}
 
 	if (!fsm_eager_output_init(new)) {
-		f_free(new->alloc, new->states);
-		f_free(new->alloc, new);
 		fsm_capture_free(new);
 		fsm_endid_free(new);
+		f_free(new->alloc, new->states);
+		f_free(new->alloc, new);
 		return NULL;
 	}
 
-- 
2.43.0


From 1ef1c86e0325a6afd226b59f411b97a67460d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 115/154] fix: fsm_shuffle reports a failure to consolidate

---
 src/libfsm/shuffle.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libfsm/shuffle.c b/src/libfsm/shuffle.c
index 0a7269d..c89bdec 100644
--- a/src/libfsm/shuffle.c
+++ b/src/libfsm/shuffle.c
@@ -74,6 +74,8 @@ fsm_shuffle(struct fsm *fsm, unsigned seed)
 	populate_mapping(mapping, state_count, (uint32_t)seed);
 
 	dst = fsm_consolidate(fsm, mapping, state_count);
+	if (dst == NULL) { goto cleanup; }
+
 	fsm_move(fsm, dst);
 	dst = NULL;
 
-- 
2.43.0


From ee13dae9883631976cb947aa19afaec1f5ce8135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 116/154] fix: fsm_consolidate checks edge_set_compact(), and
 frees the new automaton on failure

---
 src/libfsm/consolidate.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/consolidate.c b/src/libfsm/consolidate.c
index 55c3bfd..9fc430d 100644
--- a/src/libfsm/consolidate.c
+++ b/src/libfsm/consolidate.c
@@ -133,8 +133,10 @@ fsm_consolidate(const struct fsm *src,
 				src->states[src_i].edges)) {
 				goto cleanup;
 			}
-			edge_set_compact(&dst->states[dst_i].edges,
-			    dst->alloc, mapping_cb, &closure);
+			if (!edge_set_compact(&dst->states[dst_i].edges,
+			    dst->alloc, mapping_cb, &closure)) {
+				goto cleanup;
+			}
 
 			if (fsm_isend(src, src_i)) {
 				fsm_setend(dst, dst_i, 1);
@@ -170,6 +172,7 @@ fsm_consolidate(const struct fsm *src,
 cleanup:
 
 	if (seen != NULL) { f_free(src->alloc, seen); }
+	if (dst != NULL) { fsm_free(dst); }
 	return NULL;
 }
 
-- 
2.43.0


From c81235ecd72368b211fcbca5009ba642035c725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 117/154] fix: fsm_reverse handles each of its allocations
 failing

---
 src/libfsm/reverse.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/libfsm/reverse.c b/src/libfsm/reverse.c
index c709373..43b67e3 100644
--- a/src/libfsm/reverse.c
+++ b/src/libfsm/reverse.c
@@ -124,7 +124,7 @@ fsm_reverse(struct fsm *fsm)
 	}
 
 	epsilons = f_malloc(fsm->alloc, sizeof *epsilons * fsm->statecount);
-	if (edges == NULL) {
+	if (epsilons == NULL) {
 		state_set_free(endset);
 		f_free(fsm->alloc, edges);
 		return 0;
@@ -164,7 +164,7 @@ fsm_reverse(struct fsm *fsm)
 
 				for (state_set_reset(fsm->states[i].epsilons, &jt); state_set_next(&jt, &se); ) {
 					if (!state_set_add(&epsilons[se], fsm->alloc, i)) {
-						goto error1;
+						goto error;
 					}
 				}
 			}
@@ -172,7 +172,7 @@ fsm_reverse(struct fsm *fsm)
 				assert(e.state < fsm->statecount);
 
 				if (!edge_set_add(&edges[e.state], fsm->alloc, e.symbol, i)) {
-					return 0;
+					goto error;
 				}
 			}
 		}
@@ -208,7 +208,7 @@ fsm_reverse(struct fsm *fsm)
 			}
 
 			if (!state_set_add(&epsilons[start], fsm->alloc, s)) {
-				goto error1;
+				goto error;
 			}
 		}
 	} else {
@@ -279,22 +279,17 @@ fsm_reverse(struct fsm *fsm)
 
 	return 1;
 
-error1:
+error:
 
 	{
 		fsm_state_t i;
 
 		for (i = 0; i < fsm->statecount; i++) {
-			state_set_free(fsm->states[i].epsilons);
-			edge_set_free(fsm->alloc, fsm->states[i].edges);
-
-			fsm->states[i].epsilons = epsilons[i];
-			fsm->states[i].edges = edges[i];
+			state_set_free(epsilons[i]);
+			edge_set_free(fsm->alloc, edges[i]);
 		}
 	}
 
-error:
-
 	state_set_free(endset);
 
 	f_free(fsm->alloc, epsilons);
-- 
2.43.0


From a234d585092ce2574491f7468b4f682282ff6538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 118/154] fix: fsm_determinise handles allocation failure when
 grouping closures, and frees the unfinished DFA

---
 src/libfsm/determinise.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index 3f748ae..5af9b50 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -222,6 +222,7 @@ fsm_determinise_with_config(struct fsm *nfa,
 		}
 #endif
 		if (!fsm_addstate_bulk(dfa, dfacount)) {
+			fsm_free(dfa);
 			goto cleanup;
 		}
 
@@ -261,15 +262,18 @@ fsm_determinise_with_config(struct fsm *nfa,
 			 * known to have been an end state.
 			 */
 			if (!fsm_endid_carry(nfa, ss, dfa, m->dfastate)) {
+				fsm_free(dfa);
 				goto cleanup;
 			}
 		}
 
 		if (!remap_capture_actions(&map, issp, dfa, nfa)) {
+			fsm_free(dfa);
 			goto cleanup;
 		}
 
 		if (!remap_eager_outputs(&map, issp, dfa, nfa)) {
+			fsm_free(dfa);
 			goto cleanup;
 		}
 
@@ -903,11 +907,16 @@ analyze_closures__pairwise_grouping(struct analyze_closures_env *env,
 	fprintf(stderr, "%s: iss_id %lu\n", __func__, iss_id);
 #endif
 
-	analyze_closures__init_groups(env);
+	if (!analyze_closures__init_groups(env)) {
+		return 0;
+	}
 
 	INIT_TIMERS();
 	TIME(&pre);
 	struct state_set *ss = interned_state_set_get_state_set(env->issp, iss_id);
+	if (ss == NULL) {
+		return 0;
+	}
 	const size_t set_count = state_set_count(ss);
 
 #if LOG_DETERMINISE_STATE_SETS || LOG_GROUPING > 1
@@ -936,13 +945,13 @@ analyze_closures__pairwise_grouping(struct analyze_closures_env *env,
 		    env->pbuf[0],
 		    nceil * sizeof(env->pbuf[0]));
 		if (a == NULL) { return 0; }
+		env->pbuf[0] = a;
 		fsm_state_t *b = f_realloc(env->alloc,
 		    env->pbuf[1],
 		    nceil * sizeof(env->pbuf[1]));
 		if (b == NULL) { return 0; }
-		env->pbuf_ceil = nceil;
-		env->pbuf[0] = a;
 		env->pbuf[1] = b;
+		env->pbuf_ceil = nceil;
 	}
 
 	{
@@ -1073,7 +1082,9 @@ cache_single_state_analysis(struct analyze_closures_env *env, fsm_state_t state_
 	struct edge_group_iter iter;
 	struct edge_group_iter_info info;
 
-	analyze_closures__init_groups(env);
+	if (!analyze_closures__init_groups(env)) {
+		return 0;
+	}
 	assert(env->group_count == 0);
 
 	/* collect groups */
-- 
2.43.0


From cdba3a2d72da15c7f840d8f2455dc9e987eb9e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 119/154] fix: the interned state set pool checks the
 allocation of its buffer

---
 src/adt/internedstateset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adt/internedstateset.c b/src/adt/internedstateset.c
index 990d9c9..dffefe0 100644
--- a/src/adt/internedstateset.c
+++ b/src/adt/internedstateset.c
@@ -84,7 +84,7 @@ interned_state_set_pool_alloc(const struct fsm_alloc *a)
 	if (sets == NULL) { goto cleanup; }
 
 	buf = f_malloc(a, DEF_BUF * sizeof(buf[0]));
-	if (sets == NULL) { goto cleanup; }
+	if (buf == NULL) { goto cleanup; }
 
 	buckets = f_malloc(a, DEF_BUCKETS * sizeof(buckets[0]));
 	if (buckets == NULL) { goto cleanup; }
@@ -488,7 +488,7 @@ interned_state_set_get_state_set(struct interned_state_set_pool *pool,
 		struct state_set *dst = NULL;
 		const fsm_state_t s = MASK_SINGLETON(iss_id);
 		if (!state_set_add(&dst, pool->alloc, s)) {
-			return false;
+			return NULL;
 		}
 		return dst;	/* also a singleton */
 	}
-- 
2.43.0


From b021debd25f28c95fd385e1d07695fd2636c94de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 120/154] fix: epsilon_closure reports allocation failure, and
 leaves no state marked as visited

---
 src/libfsm/closure.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/closure.c b/src/libfsm/closure.c
index 165fa49..875a5df 100644
--- a/src/libfsm/closure.c
+++ b/src/libfsm/closure.c
@@ -34,7 +34,7 @@ epsilon_closure_single(const struct fsm *fsm, struct state_set **closures, fsm_s
 
 	q = queue_new(fsm->alloc, fsm->statecount);
 	if (q == NULL) {
-		return 1;
+		return 0;
 	}
 
 	fsm->states[s].visited = 1;
@@ -122,6 +122,10 @@ start:
 
 error:
 
+	for (p = 0; p < fsm->statecount; p++) {
+		fsm->states[p].visited = 0;
+	}
+
 	queue_free(q);
 
 	return 0;
@@ -145,7 +149,9 @@ epsilon_closure(const struct fsm *fsm)
 		fsm->states[s].visited = 0;
 
 		closures[s] = NULL;
+	}
 
+	for (s = 0; s < fsm->statecount; s++) {
 		/*
 		 * In the simplest case of having no epsilon transitions, the
 		 * epsilon closure contains only itself. We populate that case
@@ -173,7 +179,9 @@ epsilon_closure(const struct fsm *fsm)
 			continue;
 		}
 
-		epsilon_closure_single(fsm, closures, s);
+		if (!epsilon_closure_single(fsm, closures, s)) {
+			goto error;
+		}
 	}
 
 	return closures;
-- 
2.43.0


From 096d7dc8ca3be58483fa0a59008f80f26667f442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 121/154] fix: fsm_remove_epsilons reports failure to collect
 capture actions

---
 src/libfsm/epsilons.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libfsm/epsilons.c b/src/libfsm/epsilons.c
index 7543714..4977fce 100644
--- a/src/libfsm/epsilons.c
+++ b/src/libfsm/epsilons.c
@@ -373,6 +373,9 @@ remap_capture_actions(struct fsm *nfa, struct state_set **eclosures)
 	 * It can't be added during the iteration, because that would
 	 * modify the hash table as it's being iterated over. */
 	fsm_capture_action_iter(nfa, remap_capture_action_cb, &env);
+	if (!env.ok) {
+		goto cleanup;
+	}
 
 	/* Now that we're done iterating, add those actions. */
 	for (i = 0; i < env.count; i++) {
-- 
2.43.0


From 5a39e5ce3007b3b2a93850a5ed8ef3bd11a8adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 122/154] fix: fsm_complete and fsm_complement leave the
 automaton to the caller on error

---
 src/libfsm/complement.c | 1 -
 src/libfsm/complete.c   | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/libfsm/complement.c b/src/libfsm/complement.c
index 520afd2..b1fa099 100644
--- a/src/libfsm/complement.c
+++ b/src/libfsm/complement.c
@@ -38,7 +38,6 @@ fsm_complement(struct fsm *fsm)
 	/* an NFA may have every edge in every state and still need determinising */
 	if (!fsm_all(fsm, fsm_isdfa) || !fsm_all(fsm, fsm_iscomplete)) {
 		if (!fsm_complete(fsm, fsm_isany)) {
-			fsm_free(fsm);
 			return 0;
 		}
 	}
diff --git a/src/libfsm/complete.c b/src/libfsm/complete.c
index d74f4d6..786dd8a 100644
--- a/src/libfsm/complete.c
+++ b/src/libfsm/complete.c
@@ -32,7 +32,6 @@ fsm_complete(struct fsm *fsm,
 
 	if (!fsm_all(fsm, fsm_isdfa)) {
 		if (!fsm_determinise(fsm)) {
-			fsm_free(fsm);
 			return 0;
 		}
 	}
-- 
2.43.0


From 9ab90bfa34b524a3bcc219c2400df4d316862ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 123/154] fix: sets are freed through the allocator that made
 them

---
 src/adt/set.inc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/adt/set.inc b/src/adt/set.inc
index 58f091f..2cf6742 100644
--- a/src/adt/set.inc
+++ b/src/adt/set.inc
@@ -97,6 +97,7 @@ set_create(const struct fsm_alloc *a,
 
 	set->a = f_malloc(a, SET_INITIAL * sizeof *set->a);
 	if (set->a == NULL) {
+		f_free(a, set);
 		return NULL;
 	}
 
@@ -169,7 +170,7 @@ set_free(struct set *set)
 	assert(set != NULL);
 	assert(set->a != NULL);
 
-	free(set->a);
-	free(set);
+	f_free(set->alloc, set->a);
+	f_free(set->alloc, set);
 }
 
-- 
2.43.0


From 8b1d226ab4a61e703d72902d9b98fff501db6c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 124/154] fix: fsm_trim clears the marks on states when it
 fails

---
 src/libfsm/trim.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libfsm/trim.c b/src/libfsm/trim.c
index c37965f..5bf16f8 100644
--- a/src/libfsm/trim.c
+++ b/src/libfsm/trim.c
@@ -566,6 +566,9 @@ fsm_trim(struct fsm *fsm, enum fsm_trim_mode mode,
 	return ret;
 
 cleanup:
+	for (i = 0; i < fsm->statecount; i++) {
+		fsm->states[i].visited = 0;
+	}
 	if (marks != NULL) {
 		f_free(fsm->alloc, marks);
 	}
-- 
2.43.0


From 8f0594f30018a8a788da8429c54c2d7aead2f4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 125/154] fix: fsm_compact_states reports an edge set which
 could not be compacted

---
 src/libfsm/state.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 488a57a..ecb80b4 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -256,7 +256,9 @@ fsm_compact_states(struct fsm *fsm,
 #endif
 		state_set_compact(&s->epsilons, mapping_cb, mapping);
 		if (fsm->states[i].edges != NULL) {
-			edge_set_compact(&s->edges, fsm->alloc, mapping_cb, mapping);
+			if (!edge_set_compact(&s->edges, fsm->alloc, mapping_cb, mapping)) {
+				goto error;
+			}
 		}
 	}
 
@@ -288,15 +290,15 @@ fsm_compact_states(struct fsm *fsm,
 
 	/* Remap end metadata */
 	if (!fsm_endid_compact(fsm, mapping, orig_statecount)) {
-		return 0;
+		goto error;
 	}
 	if (!fsm_eager_output_compact(fsm, mapping, orig_statecount)) {
-		return 0;
+		goto error;
 	}
 
 	/* Remap capture actions */
 	if (!fsm_capture_compact(fsm, mapping, orig_statecount)) {
-		return 0;
+		goto error;
 	}
 
 	assert(dst == kept);
@@ -324,4 +326,8 @@ fsm_compact_states(struct fsm *fsm,
 		*removed = removed_count;
 	}
 	return 1;
+
+error:
+	f_free(fsm->alloc, mapping);
+	return 0;
 }
-- 
2.43.0


From 99dabbf98e26d77c15fba7c9d264d1d10269dbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 126/154] fix: fsm_empty and fsm_equal report errors rather
 than taking them for an answer

---
 src/libfsm/empty.c      | 11 ++++++++---
 src/libfsm/equal.c      | 44 +++++++++++++++++++++++++++++++++--------
 src/libre/ast_rewrite.c |  4 ++++
 3 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/src/libfsm/empty.c b/src/libfsm/empty.c
index 7039215..3ca0464 100644
--- a/src/libfsm/empty.c
+++ b/src/libfsm/empty.c
@@ -34,10 +34,15 @@ fsm_empty(const struct fsm *fsm)
 	 * Note this includes the empty string (when the start state matches).
 	 */
 
-	if (fsm_reachableany(fsm, start, fsm_isend)) {
+	switch (fsm_reachableany(fsm, start, fsm_isend)) {
+	case -1:
+		return -1;
+
+	case 0:
+		return 1;
+
+	default:
 		return 0;
 	}
-
-	return 1;
 }
 
diff --git a/src/libfsm/equal.c b/src/libfsm/equal.c
index 02489b0..159d9b3 100644
--- a/src/libfsm/equal.c
+++ b/src/libfsm/equal.c
@@ -90,6 +90,24 @@ subtract(const struct fsm *a, const struct fsm *b)
 	return q;
 }
 
+/*
+ * Unlike fsm_empty(), an FSM with no start state is not an error here,
+ * it matches nothing.
+ */
+static int
+empty(const struct fsm *fsm)
+{
+	fsm_state_t start;
+
+	assert(fsm != NULL);
+
+	if (!fsm_getstart(fsm, &start)) {
+		return 1;
+	}
+
+	return fsm_empty(fsm);
+}
+
 static int
 subsetof(const struct fsm *a, const struct fsm *b)
 {
@@ -104,20 +122,18 @@ subsetof(const struct fsm *a, const struct fsm *b)
 		return -1;
 	}
 
-	r = fsm_empty(q);
+	r = empty(q);
 
 	fsm_free(q);
 
-	if (r == -1) {
-		return -1;
-	}
-
 	return r;
 }
 
 int
 fsm_equal(const struct fsm *a, const struct fsm *b)
 {
+	int r;
+
 	assert(a != NULL);
 	assert(b != NULL);
 
@@ -126,8 +142,15 @@ fsm_equal(const struct fsm *a, const struct fsm *b)
 		return -1;
 	}
 
-	if (fsm_empty(a) && fsm_empty(b)) {
-		return 1;
+	r = empty(a);
+	if (r == 1) {
+		r = empty(b);
+		if (r == 1) {
+			return 1;
+		}
+	}
+	if (r == -1) {
+		return -1;
 	}
 
 	/*
@@ -136,6 +159,11 @@ fsm_equal(const struct fsm *a, const struct fsm *b)
 	 * This is equivalent finding that (a \ b) \u (b \ a) is empty.
 	 */
 
-	return subsetof(a, b) && subsetof(b, a);
+	r = subsetof(a, b);
+	if (r != 1) {
+		return r;
+	}
+
+	return subsetof(b, a);
 }
 
diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 74f5491..9ed7aa9 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -674,6 +674,10 @@ rewrite_subtract(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags
 		empty = fsm_empty(q);
 
 		fsm_free(q);
+
+		if (empty == -1) {
+			return 0;
+		}
 	}
 
 	if (empty) {
-- 
2.43.0


From 452523eaa5d30fa04e1df8f39d7e3ef90fe1cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:31 +0000
Subject: [PATCH 127/154] fix: make_ir frees what it has made, and only that,
 when an allocation fails

---
 src/libfsm/print/ir.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/libfsm/print/ir.c b/src/libfsm/print/ir.c
index 6baedb9..83e2187 100644
--- a/src/libfsm/print/ir.c
+++ b/src/libfsm/print/ir.c
@@ -144,7 +144,6 @@ make_groups(const struct fsm *fsm, fsm_state_t state,
 
 		p = f_malloc(fsm->alloc, sizeof *p * (n - i)); /* worst case */
 		if (p == NULL) {
-			j++;
 			goto error;
 		}
 
@@ -166,7 +165,7 @@ make_groups(const struct fsm *fsm, fsm_state_t state,
 
 			tmp = f_realloc(fsm->alloc, p, sizeof *p * k);
 			if (tmp == NULL) {
-				j++;
+				f_free(fsm->alloc, p);
 				goto error;
 			}
 
@@ -399,7 +398,6 @@ make_state(const struct fsm *fsm, fsm_state_t state,
 	 * where holes tend to be mostly contigious.
 	 */
 	if (hole < max.n) {
-		cs->strategy = IR_ERROR;
 		cs->u.error.mode = groups[max.j].to;
 
 		f_free(fsm->alloc, (void *) groups[max.j].ranges);
@@ -415,6 +413,7 @@ make_state(const struct fsm *fsm, fsm_state_t state,
 			return -1;
 		}
 
+		cs->strategy = IR_ERROR;
 		cs->u.error.groups = groups;
 		cs->u.error.n = n;
 		return 0;
@@ -549,6 +548,10 @@ make_ir(const struct fsm *fsm, const struct fsm_options *opt)
 
 		ir->states[i].eager_outputs = NULL;
 
+		/* the state is freed as this if we don't get any further */
+		ir->states[i].example  = NULL;
+		ir->states[i].strategy = IR_NONE;
+
 		if (fsm_isend(fsm, i)) {
 			fsm_end_id_t *ids;
 			size_t count;
@@ -589,13 +592,11 @@ make_ir(const struct fsm *fsm, const struct fsm_options *opt)
 			goto error;
 		}
 
-		if (!opt->comments) {
-			ir->states[i].example = NULL;
-		} else {
+		if (opt->comments) {
 			char *example;
 
 			if (!make_example(fsm, i, &example)) {
-				goto error_example;
+				goto error;
 			}
 
 			ir->states[i].example = example;
@@ -626,13 +627,10 @@ empty:
 
 	return ir;
 
-error_example:
-
-	i++;
-
 error:
 
-	ir->n = i;
+	/* including the state in progress */
+	ir->n = i + 1;
 	free_ir(fsm, ir);
 
 	return NULL;
-- 
2.43.0


From fdb8e993a28e9299e1835f24d310c8e5e2b9ca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:31 +0000
Subject: [PATCH 128/154] fix: dfavm_compile_ir reports allocation failure

---
 src/libfsm/vm/ir.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/vm/ir.c b/src/libfsm/vm/ir.c
index 4930f4b..f4ca58a 100644
--- a/src/libfsm/vm/ir.c
+++ b/src/libfsm/vm/ir.c
@@ -630,9 +630,15 @@ initial_translate_table(struct dfavm_assembler_ir *a, const struct ret_list *ret
 
 	best_op = NULL;
 	best_count = xlate_table_ranges(a, retlist, table, &best_op);
+	if (best_count < 0) {
+		return -1;
+	}
 
 	op = NULL;
 	count = xlate_table_cases(a, retlist, table, &op);
+	if (count < 0) {
+		return -1;
+	}
 
 	if (count < best_count) {
 		opasm_free_list(a,best_op);
@@ -766,17 +772,26 @@ initial_translate_state(struct dfavm_assembler_ir *a, const struct ir *ir,
 	}
 
 	*opp = opasm_new_fetch(a, retlist, ind, (st->isend) ? VM_END_SUCC : VM_END_FAIL, st);
+	if (*opp == NULL) {
+		return NULL;
+	}
 	opp = &(*opp)->next;
 	assert(*opp == NULL);
 
 	switch (st->strategy) {
 	case IR_NONE:
 		*opp = opasm_new_stop(a, retlist, VM_CMP_ALWAYS, 0, VM_END_FAIL, st);
+		if (*opp == NULL) {
+			return NULL;
+		}
 		opp = &(*opp)->next;
 		break;
 
 	case IR_SAME:
 		*opp = opasm_new_branch(a, retlist, VM_CMP_ALWAYS, 0, st->u.same.to, st);
+		if (*opp == NULL) {
+			return NULL;
+		}
 		opp = &(*opp)->next;
 		break;
 
@@ -1089,6 +1104,9 @@ dfavm_compile_ir(struct dfavm_assembler_ir *a, const struct ir *ir, const struct
 
 	for (i=0; i < a->nstates; i++) {
 		a->ops[i] = initial_translate_state(a, ir, retlist, i);
+		if (a->ops[i] == NULL) {
+			return 0;
+		}
 	}
 
 	fixup_dests(a);
@@ -1130,7 +1148,7 @@ empty:
 
 	a->ops[0] = opasm_new_stop(a, retlist, VM_CMP_ALWAYS, 0, VM_END_FAIL, NULL);
 	if (a->ops[0] == NULL) {
-		return -1;
+		return 0;
 	}
 
 	a->linked = a->ops[0];
-- 
2.43.0


From 571f0e87bb83e81e23f0b1d6a09a7d8784672cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:08 +0000
Subject: [PATCH 129/154] fix: operands which could not be merged can each be
 freed, and union and concat free them

---
 src/libfsm/concat.c |  8 +++++++-
 src/libfsm/merge.c  | 27 +++++++++++++--------------
 src/libfsm/union.c  | 27 ++++++++++++++++++++++-----
 3 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/src/libfsm/concat.c b/src/libfsm/concat.c
index 604d1d7..e09456f 100644
--- a/src/libfsm/concat.c
+++ b/src/libfsm/concat.c
@@ -51,6 +51,8 @@ fsm_concat(struct fsm *a, struct fsm *b,
 	}
 
 	if (!fsm_collate(a, &ea, fsm_isend)) {
+		fsm_free(a);
+		fsm_free(b);
 		return NULL;
 	}
 
@@ -63,7 +65,11 @@ fsm_concat(struct fsm *a, struct fsm *b,
 	}
 
 	q = fsm_merge(a, b, combine_info);
-	assert(q != NULL);
+	if (q == NULL) {
+		fsm_free(a);
+		fsm_free(b);
+		return NULL;
+	}
 
 	sq += combine_info->base_a;
 	ea += combine_info->base_a;
diff --git a/src/libfsm/merge.c b/src/libfsm/merge.c
index 267b5b1..3aa444d 100644
--- a/src/libfsm/merge.c
+++ b/src/libfsm/merge.c
@@ -48,6 +48,8 @@ merge(struct fsm *dst, struct fsm *src,
 	fsm_state_t *base_dst, fsm_state_t *base_src,
 	unsigned *capture_base_dst, unsigned *capture_base_src)
 {
+	bool ok;
+
 	assert(dst != NULL);
 	assert(src != NULL);
 	assert(base_src != NULL);
@@ -107,25 +109,22 @@ merge(struct fsm *dst, struct fsm *src,
 	 * NULL pointers to `struct fsm_state` increases memory usage
 	 * significantly. */
 
-	if (!copy_capture_actions(dst, src)) {
-		/* non-recoverable -- destructive operation */
-		return NULL;
-	}
-
-	if (!copy_end_ids(dst, src, *base_src)) {
-		/* non-recoverable -- destructive operation */
-		return NULL;
-	}
-
-	if (!copy_eager_output_ids(dst, src, *base_src)) {
-		/* non-recoverable -- destructive operation */
-		return NULL;
-	}
+	ok = copy_capture_actions(dst, src)
+	    && copy_end_ids(dst, src, *base_src)
+	    && copy_eager_output_ids(dst, src, *base_src);
 
+	/* The contents of these states belong to dst now. */
 	f_free(src->alloc, src->states);
 	src->states = NULL;
 	src->statealloc = 0;
 	src->statecount = 0;
+	src->endcount = 0;
+
+	if (!ok) {
+		/* non-recoverable -- destructive operation,
+		 * the caller can only free what remains of both */
+		return NULL;
+	}
 
 	fsm_clearstart(src);
 	fsm_clearstart(dst);
diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 5d90b56..766e585 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -119,7 +119,11 @@ fsm_union(struct fsm *a, struct fsm *b,
 	}
 
 	q = fsm_merge(a, b, combine_info);
-	assert(q != NULL);
+	if (q == NULL) {
+		fsm_free(a);
+		fsm_free(b);
+		return NULL;
+	}
 
 	sa += combine_info->base_a;
 	sb += combine_info->base_b;
@@ -174,15 +178,28 @@ fsm_union_array(size_t fsm_count,
 
 	for (i = 1; i < fsm_count; i++) {
 		struct fsm_combine_info ci;
-		struct fsm *combined = fsm_union(res, fsms[i], &ci);
-		fsms[i] = NULL;
+		struct fsm *combined;
+		fsm_state_t start;
+
+		/* fsm_union() would leave these for us */
+		if (res->statecount > 0 && fsms[i]->statecount > 0
+		    && (!fsm_getstart(res, &start) || !fsm_getstart(fsms[i], &start))) {
+			errno = EINVAL;
+			fsm_free(res);
+			combined = NULL;
+		} else {
+			combined = fsm_union(res, fsms[i], &ci);
+			fsms[i] = NULL;
+		}
+
 		if (combined == NULL) {
 			while (i < fsm_count) {
-				fsm_free(fsms[i]);
+				if (fsms[i] != NULL) {
+					fsm_free(fsms[i]);
+				}
 				i++;
 			}
 
-			fsm_free(res);
 			return NULL;
 		}
 
-- 
2.43.0


From 23f175866c108acd0cc78f7f9bd4b4871750a2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:08 +0000
Subject: [PATCH 130/154] fix: trie_add_word reports an end id it could not
 store

---
 src/libre/ac.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libre/ac.c b/src/libre/ac.c
index 61f613b..d05d9d2 100644
--- a/src/libre/ac.c
+++ b/src/libre/ac.c
@@ -169,8 +169,11 @@ trie_add_word(struct trie_graph *g, const char *w, size_t n, const fsm_end_id_t
 	}
 
 	if (endid != NULL) {
-		state_set_add(&st->endids, NULL, (fsm_state_t)*endid);
+		if (!state_set_add(&st->endids, NULL, (fsm_state_t)*endid)) {
+			return NULL;
+		}
 	}
+
 	return g;
 }
 
-- 
2.43.0


From 0b5525f159a7042c14c16171742b50905f55bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 131/154] fix: failing to lex or to allocate an AST node is
 reported as an error when parsing

---
 src/libre/dialect/glob/parser.c    | 117 +++--
 src/libre/dialect/like/parser.c    | 117 +++--
 src/libre/dialect/literal/parser.c |  93 ++--
 src/libre/dialect/native/parser.c  | 441 ++++++++++---------
 src/libre/dialect/pcre/parser.c    | 669 +++++++++++++++--------------
 src/libre/dialect/sql/parser.c     | 341 ++++++++-------
 src/libre/parser.act               |  47 +-
 7 files changed, 1035 insertions(+), 790 deletions(-)

diff --git a/src/libre/dialect/glob/parser.c b/src/libre/dialect/glob/parser.c
index b20798f..bd1408b 100644
--- a/src/libre/dialect/glob/parser.c
+++ b/src/libre/dialect/glob/parser.c
@@ -124,6 +124,9 @@
 		/* TODO: use lx's generated conveniences for the pattern buffer */
 		char a[512];
 		char *p;
+
+		/* A failure to lex, rather than something the lexer doesn't recognise. */
+		int error;
 	};
 
 	static void
@@ -202,6 +205,10 @@
 		mark(&act_state->synstart, &lex_state->lx.start);
 		mark(&act_state->synend,   &lex_state->lx.end);
 		act_state->lex_tok = LX_NEXT(&lex_state->lx);
+
+		if (act_state->lex_tok == TOK_ERROR) {
+			lex_state->error = 1;
+		}
 	}
 
 	static enum LX_TOKEN
@@ -269,7 +276,7 @@
 	                              act_state->lex_tok = tok;                     } while (0)
 	#define RESTORE_LEXER    do { act_state->lex_tok = act_state->lex_tok_save; } while (0)
 
-#line 273 "src/libre/dialect/glob/parser.c"
+#line 280 "src/libre/dialect/glob/parser.c"
 
 
 #ifndef ERROR_TERMINAL
@@ -304,13 +311,13 @@ ZL2_list_Hof_Hatoms:;
 		}
 		/* BEGINNING OF ACTION: ast-add-concat */
 		{
-#line 1040 "src/libre/parser.act"
+#line 1047 "src/libre/parser.act"
 
 		if (!ast_add_expr_concat((ZIcat), (ZIa))) {
 			goto ZL1;
 		}
 	
-#line 314 "src/libre/dialect/glob/parser.c"
+#line 321 "src/libre/dialect/glob/parser.c"
 		}
 		/* END OF ACTION: ast-add-concat */
 		/* BEGINNING OF INLINE: 115 */
@@ -348,24 +355,24 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: class-any */
 			{
-#line 782 "src/libre/parser.act"
+#line 789 "src/libre/parser.act"
 
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 357 "src/libre/dialect/glob/parser.c"
+#line 364 "src/libre/dialect/glob/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1040 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_named(act_state->poolp, *flags, (ZIa));
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 369 "src/libre/dialect/glob/parser.c"
+#line 376 "src/libre/dialect/glob/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 		}
@@ -378,7 +385,7 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 
 			/* BEGINNING OF EXTRACT: CHAR */
 			{
-#line 575 "src/libre/parser.act"
+#line 582 "src/libre/parser.act"
 
 		/* the first byte may be '\x00' */
 		assert(lex_state->buf.a[1] == '\0');
@@ -391,20 +398,20 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 395 "src/libre/dialect/glob/parser.c"
+#line 402 "src/libre/dialect/glob/parser.c"
 			}
 			/* END OF EXTRACT: CHAR */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 408 "src/libre/dialect/glob/parser.c"
+#line 415 "src/libre/dialect/glob/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -418,38 +425,38 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: class-any */
 			{
-#line 782 "src/libre/parser.act"
+#line 789 "src/libre/parser.act"
 
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 427 "src/libre/dialect/glob/parser.c"
+#line 434 "src/libre/dialect/glob/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1040 "src/libre/parser.act"
 
 		(ZIg) = ast_make_expr_named(act_state->poolp, *flags, (ZIa));
 		if ((ZIg) == NULL) {
 			goto ZL1;
 		}
 	
-#line 439 "src/libre/dialect/glob/parser.c"
+#line 446 "src/libre/dialect/glob/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 			/* BEGINNING OF ACTION: count-zero-or-more */
 			{
-#line 808 "src/libre/parser.act"
+#line 815 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(0, AST_COUNT_UNBOUNDED);
 	
-#line 448 "src/libre/dialect/glob/parser.c"
+#line 455 "src/libre/dialect/glob/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-more */
 			/* BEGINNING OF ACTION: ast-make-piece */
 			{
-#line 897 "src/libre/parser.act"
+#line 904 "src/libre/parser.act"
 
 		if ((ZIc).min == 0 && (ZIc).max == 0) {
 			(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
@@ -463,7 +470,7 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 			goto ZL1;
 		}
 	
-#line 467 "src/libre/dialect/glob/parser.c"
+#line 474 "src/libre/dialect/glob/parser.c"
 			}
 			/* END OF ACTION: ast-make-piece */
 		}
@@ -478,26 +485,26 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-atom */
 		{
-#line 704 "src/libre/parser.act"
+#line 711 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXATOM;
 		}
 		goto ZL2;
 	
-#line 489 "src/libre/dialect/glob/parser.c"
+#line 496 "src/libre/dialect/glob/parser.c"
 		}
 		/* END OF ACTION: err-expected-atom */
 		/* BEGINNING OF ACTION: ast-make-empty */
 		{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
 			goto ZL2;
 		}
 	
-#line 501 "src/libre/dialect/glob/parser.c"
+#line 508 "src/libre/dialect/glob/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -523,11 +530,11 @@ p_re__glob(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 
 		/* BEGINNING OF ACTION: make-group-id */
 		{
-#line 881 "src/libre/parser.act"
+#line 888 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 531 "src/libre/dialect/glob/parser.c"
+#line 538 "src/libre/dialect/glob/parser.c"
 		}
 		/* END OF ACTION: make-group-id */
 		/* BEGINNING OF INLINE: 119 */
@@ -537,14 +544,14 @@ p_re__glob(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 				{
 					/* BEGINNING OF ACTION: ast-make-concat */
 					{
-#line 860 "src/libre/parser.act"
+#line 867 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_concat(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 548 "src/libre/dialect/glob/parser.c"
+#line 555 "src/libre/dialect/glob/parser.c"
 					}
 					/* END OF ACTION: ast-make-concat */
 					p_list_Hof_Hatoms (flags, lex_state, act_state, err, ZIe);
@@ -558,14 +565,14 @@ p_re__glob(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 				{
 					/* BEGINNING OF ACTION: ast-make-empty */
 					{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 569 "src/libre/dialect/glob/parser.c"
+#line 576 "src/libre/dialect/glob/parser.c"
 					}
 					/* END OF ACTION: ast-make-empty */
 				}
@@ -575,14 +582,14 @@ p_re__glob(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 		/* END OF INLINE: 119 */
 		/* BEGINNING OF ACTION: ast-make-group */
 		{
-#line 911 "src/libre/parser.act"
+#line 918 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_group(act_state->poolp, *flags, (ZIe), (ZIid));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 586 "src/libre/dialect/glob/parser.c"
+#line 593 "src/libre/dialect/glob/parser.c"
 		}
 		/* END OF ACTION: ast-make-group */
 		/* BEGINNING OF INLINE: 120 */
@@ -601,14 +608,14 @@ p_re__glob(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 			{
 				/* BEGINNING OF ACTION: err-expected-eof */
 				{
-#line 753 "src/libre/parser.act"
+#line 760 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXEOF;
 		}
 		goto ZL1;
 	
-#line 612 "src/libre/dialect/glob/parser.c"
+#line 619 "src/libre/dialect/glob/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -626,7 +633,7 @@ ZL0:;
 
 /* BEGINNING OF TRAILER */
 
-#line 1052 "src/libre/parser.act"
+#line 1059 "src/libre/parser.act"
 
 
 	static int
@@ -644,6 +651,23 @@ ZL0:;
 		return lex_state->f(lex_state->opaque);
 	}
 
+	/* The lexer presents a failure to push as if it were EOF. */
+	static int
+	lpush(void *buf_opaque, char c)
+	{
+		struct lex_state *lex_state;
+
+		assert(buf_opaque != NULL);
+
+		if (-1 == CAT(LX_PREFIX, _dynpush)(buf_opaque, c)) {
+			lex_state = (struct lex_state *) ((char *) buf_opaque - offsetof(struct lex_state, buf));
+			lex_state->error = 1;
+			return -1;
+		}
+
+		return 0;
+	}
+
 	struct ast *
 	DIALECT_PARSE(re_getchar_fun *f, void *opaque,
 		enum re_flags flags, int overlap,
@@ -662,12 +686,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -684,10 +712,12 @@ ZL0:;
 		lex_state->buf.a   = NULL;
 		lex_state->buf.len = 0;
 
+		lex_state->error   = 0;
+
 		/* XXX: unneccessary since we're lexing from a string */
 		/* (except for pushing "[" and "]" around ::group-$dialect) */
 		lx->buf_opaque = &lex_state->buf;
-		lx->push       = CAT(LX_PREFIX, _dynpush);
+		lx->push       = lpush;
 		lx->clear      = CAT(LX_PREFIX, _dynclear);
 		lx->free       = CAT(LX_PREFIX, _dynfree);
 
@@ -719,15 +749,20 @@ ZL0:;
 
 		lx->free(lx->buf_opaque);
 
+		/* this takes precedence over whatever the parser made of it */
+		if (lex_state->error) {
+			err->e = RE_EERRNO;
+		}
+
 		if (err->e != RE_ESUCCESS) {
 			/* TODO: free internals allocated during parsing (are there any?) */
 			goto error;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* An action failed with no error of its own to report,
+			 * which is to say for want of memory. */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -782,6 +817,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 786 "src/libre/dialect/glob/parser.c"
+#line 821 "src/libre/dialect/glob/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/like/parser.c b/src/libre/dialect/like/parser.c
index 008bd2b..e07b6b6 100644
--- a/src/libre/dialect/like/parser.c
+++ b/src/libre/dialect/like/parser.c
@@ -124,6 +124,9 @@
 		/* TODO: use lx's generated conveniences for the pattern buffer */
 		char a[512];
 		char *p;
+
+		/* A failure to lex, rather than something the lexer doesn't recognise. */
+		int error;
 	};
 
 	static void
@@ -202,6 +205,10 @@
 		mark(&act_state->synstart, &lex_state->lx.start);
 		mark(&act_state->synend,   &lex_state->lx.end);
 		act_state->lex_tok = LX_NEXT(&lex_state->lx);
+
+		if (act_state->lex_tok == TOK_ERROR) {
+			lex_state->error = 1;
+		}
 	}
 
 	static enum LX_TOKEN
@@ -269,7 +276,7 @@
 	                              act_state->lex_tok = tok;                     } while (0)
 	#define RESTORE_LEXER    do { act_state->lex_tok = act_state->lex_tok_save; } while (0)
 
-#line 273 "src/libre/dialect/like/parser.c"
+#line 280 "src/libre/dialect/like/parser.c"
 
 
 #ifndef ERROR_TERMINAL
@@ -304,13 +311,13 @@ ZL2_list_Hof_Hatoms:;
 		}
 		/* BEGINNING OF ACTION: ast-add-concat */
 		{
-#line 1040 "src/libre/parser.act"
+#line 1047 "src/libre/parser.act"
 
 		if (!ast_add_expr_concat((ZIcat), (ZIa))) {
 			goto ZL1;
 		}
 	
-#line 314 "src/libre/dialect/like/parser.c"
+#line 321 "src/libre/dialect/like/parser.c"
 		}
 		/* END OF ACTION: ast-add-concat */
 		/* BEGINNING OF INLINE: 115 */
@@ -348,24 +355,24 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: class-any */
 			{
-#line 782 "src/libre/parser.act"
+#line 789 "src/libre/parser.act"
 
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 357 "src/libre/dialect/like/parser.c"
+#line 364 "src/libre/dialect/like/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1040 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_named(act_state->poolp, *flags, (ZIa));
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 369 "src/libre/dialect/like/parser.c"
+#line 376 "src/libre/dialect/like/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 		}
@@ -378,7 +385,7 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 
 			/* BEGINNING OF EXTRACT: CHAR */
 			{
-#line 575 "src/libre/parser.act"
+#line 582 "src/libre/parser.act"
 
 		/* the first byte may be '\x00' */
 		assert(lex_state->buf.a[1] == '\0');
@@ -391,20 +398,20 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 395 "src/libre/dialect/like/parser.c"
+#line 402 "src/libre/dialect/like/parser.c"
 			}
 			/* END OF EXTRACT: CHAR */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 408 "src/libre/dialect/like/parser.c"
+#line 415 "src/libre/dialect/like/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -418,38 +425,38 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: class-any */
 			{
-#line 782 "src/libre/parser.act"
+#line 789 "src/libre/parser.act"
 
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 427 "src/libre/dialect/like/parser.c"
+#line 434 "src/libre/dialect/like/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1040 "src/libre/parser.act"
 
 		(ZIg) = ast_make_expr_named(act_state->poolp, *flags, (ZIa));
 		if ((ZIg) == NULL) {
 			goto ZL1;
 		}
 	
-#line 439 "src/libre/dialect/like/parser.c"
+#line 446 "src/libre/dialect/like/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 			/* BEGINNING OF ACTION: count-zero-or-more */
 			{
-#line 808 "src/libre/parser.act"
+#line 815 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(0, AST_COUNT_UNBOUNDED);
 	
-#line 448 "src/libre/dialect/like/parser.c"
+#line 455 "src/libre/dialect/like/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-more */
 			/* BEGINNING OF ACTION: ast-make-piece */
 			{
-#line 897 "src/libre/parser.act"
+#line 904 "src/libre/parser.act"
 
 		if ((ZIc).min == 0 && (ZIc).max == 0) {
 			(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
@@ -463,7 +470,7 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 			goto ZL1;
 		}
 	
-#line 467 "src/libre/dialect/like/parser.c"
+#line 474 "src/libre/dialect/like/parser.c"
 			}
 			/* END OF ACTION: ast-make-piece */
 		}
@@ -478,26 +485,26 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-atom */
 		{
-#line 704 "src/libre/parser.act"
+#line 711 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXATOM;
 		}
 		goto ZL2;
 	
-#line 489 "src/libre/dialect/like/parser.c"
+#line 496 "src/libre/dialect/like/parser.c"
 		}
 		/* END OF ACTION: err-expected-atom */
 		/* BEGINNING OF ACTION: ast-make-empty */
 		{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
 			goto ZL2;
 		}
 	
-#line 501 "src/libre/dialect/like/parser.c"
+#line 508 "src/libre/dialect/like/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -523,11 +530,11 @@ p_re__like(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 
 		/* BEGINNING OF ACTION: make-group-id */
 		{
-#line 881 "src/libre/parser.act"
+#line 888 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 531 "src/libre/dialect/like/parser.c"
+#line 538 "src/libre/dialect/like/parser.c"
 		}
 		/* END OF ACTION: make-group-id */
 		/* BEGINNING OF INLINE: 119 */
@@ -537,14 +544,14 @@ p_re__like(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 				{
 					/* BEGINNING OF ACTION: ast-make-concat */
 					{
-#line 860 "src/libre/parser.act"
+#line 867 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_concat(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 548 "src/libre/dialect/like/parser.c"
+#line 555 "src/libre/dialect/like/parser.c"
 					}
 					/* END OF ACTION: ast-make-concat */
 					p_list_Hof_Hatoms (flags, lex_state, act_state, err, ZIe);
@@ -558,14 +565,14 @@ p_re__like(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 				{
 					/* BEGINNING OF ACTION: ast-make-empty */
 					{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 569 "src/libre/dialect/like/parser.c"
+#line 576 "src/libre/dialect/like/parser.c"
 					}
 					/* END OF ACTION: ast-make-empty */
 				}
@@ -575,14 +582,14 @@ p_re__like(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 		/* END OF INLINE: 119 */
 		/* BEGINNING OF ACTION: ast-make-group */
 		{
-#line 911 "src/libre/parser.act"
+#line 918 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_group(act_state->poolp, *flags, (ZIe), (ZIid));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 586 "src/libre/dialect/like/parser.c"
+#line 593 "src/libre/dialect/like/parser.c"
 		}
 		/* END OF ACTION: ast-make-group */
 		/* BEGINNING OF INLINE: 120 */
@@ -601,14 +608,14 @@ p_re__like(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 			{
 				/* BEGINNING OF ACTION: err-expected-eof */
 				{
-#line 753 "src/libre/parser.act"
+#line 760 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXEOF;
 		}
 		goto ZL1;
 	
-#line 612 "src/libre/dialect/like/parser.c"
+#line 619 "src/libre/dialect/like/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -626,7 +633,7 @@ ZL0:;
 
 /* BEGINNING OF TRAILER */
 
-#line 1052 "src/libre/parser.act"
+#line 1059 "src/libre/parser.act"
 
 
 	static int
@@ -644,6 +651,23 @@ ZL0:;
 		return lex_state->f(lex_state->opaque);
 	}
 
+	/* The lexer presents a failure to push as if it were EOF. */
+	static int
+	lpush(void *buf_opaque, char c)
+	{
+		struct lex_state *lex_state;
+
+		assert(buf_opaque != NULL);
+
+		if (-1 == CAT(LX_PREFIX, _dynpush)(buf_opaque, c)) {
+			lex_state = (struct lex_state *) ((char *) buf_opaque - offsetof(struct lex_state, buf));
+			lex_state->error = 1;
+			return -1;
+		}
+
+		return 0;
+	}
+
 	struct ast *
 	DIALECT_PARSE(re_getchar_fun *f, void *opaque,
 		enum re_flags flags, int overlap,
@@ -662,12 +686,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -684,10 +712,12 @@ ZL0:;
 		lex_state->buf.a   = NULL;
 		lex_state->buf.len = 0;
 
+		lex_state->error   = 0;
+
 		/* XXX: unneccessary since we're lexing from a string */
 		/* (except for pushing "[" and "]" around ::group-$dialect) */
 		lx->buf_opaque = &lex_state->buf;
-		lx->push       = CAT(LX_PREFIX, _dynpush);
+		lx->push       = lpush;
 		lx->clear      = CAT(LX_PREFIX, _dynclear);
 		lx->free       = CAT(LX_PREFIX, _dynfree);
 
@@ -719,15 +749,20 @@ ZL0:;
 
 		lx->free(lx->buf_opaque);
 
+		/* this takes precedence over whatever the parser made of it */
+		if (lex_state->error) {
+			err->e = RE_EERRNO;
+		}
+
 		if (err->e != RE_ESUCCESS) {
 			/* TODO: free internals allocated during parsing (are there any?) */
 			goto error;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* An action failed with no error of its own to report,
+			 * which is to say for want of memory. */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -782,6 +817,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 786 "src/libre/dialect/like/parser.c"
+#line 821 "src/libre/dialect/like/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/literal/parser.c b/src/libre/dialect/literal/parser.c
index 5d1dc82..d04cff7 100644
--- a/src/libre/dialect/literal/parser.c
+++ b/src/libre/dialect/literal/parser.c
@@ -124,6 +124,9 @@
 		/* TODO: use lx's generated conveniences for the pattern buffer */
 		char a[512];
 		char *p;
+
+		/* A failure to lex, rather than something the lexer doesn't recognise. */
+		int error;
 	};
 
 	static void
@@ -202,6 +205,10 @@
 		mark(&act_state->synstart, &lex_state->lx.start);
 		mark(&act_state->synend,   &lex_state->lx.end);
 		act_state->lex_tok = LX_NEXT(&lex_state->lx);
+
+		if (act_state->lex_tok == TOK_ERROR) {
+			lex_state->error = 1;
+		}
 	}
 
 	static enum LX_TOKEN
@@ -269,7 +276,7 @@
 	                              act_state->lex_tok = tok;                     } while (0)
 	#define RESTORE_LEXER    do { act_state->lex_tok = act_state->lex_tok_save; } while (0)
 
-#line 273 "src/libre/dialect/literal/parser.c"
+#line 280 "src/libre/dialect/literal/parser.c"
 
 
 #ifndef ERROR_TERMINAL
@@ -304,13 +311,13 @@ ZL2_list_Hof_Hatoms:;
 		}
 		/* BEGINNING OF ACTION: ast-add-concat */
 		{
-#line 1040 "src/libre/parser.act"
+#line 1047 "src/libre/parser.act"
 
 		if (!ast_add_expr_concat((ZIcat), (ZIa))) {
 			goto ZL1;
 		}
 	
-#line 314 "src/libre/dialect/literal/parser.c"
+#line 321 "src/libre/dialect/literal/parser.c"
 		}
 		/* END OF ACTION: ast-add-concat */
 		/* BEGINNING OF INLINE: 114 */
@@ -349,11 +356,11 @@ p_re__literal(flags flags, lex_state lex_state, act_state act_state, err err, t_
 
 		/* BEGINNING OF ACTION: make-group-id */
 		{
-#line 881 "src/libre/parser.act"
+#line 888 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 357 "src/libre/dialect/literal/parser.c"
+#line 364 "src/libre/dialect/literal/parser.c"
 		}
 		/* END OF ACTION: make-group-id */
 		/* BEGINNING OF INLINE: 117 */
@@ -363,14 +370,14 @@ p_re__literal(flags flags, lex_state lex_state, act_state act_state, err err, t_
 				{
 					/* BEGINNING OF ACTION: ast-make-concat */
 					{
-#line 860 "src/libre/parser.act"
+#line 867 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_concat(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 374 "src/libre/dialect/literal/parser.c"
+#line 381 "src/libre/dialect/literal/parser.c"
 					}
 					/* END OF ACTION: ast-make-concat */
 					p_list_Hof_Hatoms (flags, lex_state, act_state, err, ZIe);
@@ -384,14 +391,14 @@ p_re__literal(flags flags, lex_state lex_state, act_state act_state, err err, t_
 				{
 					/* BEGINNING OF ACTION: ast-make-empty */
 					{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 395 "src/libre/dialect/literal/parser.c"
+#line 402 "src/libre/dialect/literal/parser.c"
 					}
 					/* END OF ACTION: ast-make-empty */
 				}
@@ -401,14 +408,14 @@ p_re__literal(flags flags, lex_state lex_state, act_state act_state, err err, t_
 		/* END OF INLINE: 117 */
 		/* BEGINNING OF ACTION: ast-make-group */
 		{
-#line 911 "src/libre/parser.act"
+#line 918 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_group(act_state->poolp, *flags, (ZIe), (ZIid));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 412 "src/libre/dialect/literal/parser.c"
+#line 419 "src/libre/dialect/literal/parser.c"
 		}
 		/* END OF ACTION: ast-make-group */
 		/* BEGINNING OF INLINE: 119 */
@@ -427,14 +434,14 @@ p_re__literal(flags flags, lex_state lex_state, act_state act_state, err err, t_
 			{
 				/* BEGINNING OF ACTION: err-expected-eof */
 				{
-#line 753 "src/libre/parser.act"
+#line 760 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXEOF;
 		}
 		goto ZL1;
 	
-#line 438 "src/libre/dialect/literal/parser.c"
+#line 445 "src/libre/dialect/literal/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -467,7 +474,7 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 		case (TOK_CHAR):
 			/* BEGINNING OF EXTRACT: CHAR */
 			{
-#line 575 "src/libre/parser.act"
+#line 582 "src/libre/parser.act"
 
 		/* the first byte may be '\x00' */
 		assert(lex_state->buf.a[1] == '\0');
@@ -480,7 +487,7 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 484 "src/libre/dialect/literal/parser.c"
+#line 491 "src/libre/dialect/literal/parser.c"
 			}
 			/* END OF EXTRACT: CHAR */
 			break;
@@ -490,14 +497,14 @@ p_list_Hof_Hatoms_C_Catom(flags flags, lex_state lex_state, act_state act_state,
 		ADVANCE_LEXER;
 		/* BEGINNING OF ACTION: ast-make-literal */
 		{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 501 "src/libre/dialect/literal/parser.c"
+#line 508 "src/libre/dialect/literal/parser.c"
 		}
 		/* END OF ACTION: ast-make-literal */
 	}
@@ -506,26 +513,26 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-atom */
 		{
-#line 704 "src/libre/parser.act"
+#line 711 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXATOM;
 		}
 		goto ZL2;
 	
-#line 517 "src/libre/dialect/literal/parser.c"
+#line 524 "src/libre/dialect/literal/parser.c"
 		}
 		/* END OF ACTION: err-expected-atom */
 		/* BEGINNING OF ACTION: ast-make-empty */
 		{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL2;
 		}
 	
-#line 529 "src/libre/dialect/literal/parser.c"
+#line 536 "src/libre/dialect/literal/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -539,7 +546,7 @@ ZL0:;
 
 /* BEGINNING OF TRAILER */
 
-#line 1052 "src/libre/parser.act"
+#line 1059 "src/libre/parser.act"
 
 
 	static int
@@ -557,6 +564,23 @@ ZL0:;
 		return lex_state->f(lex_state->opaque);
 	}
 
+	/* The lexer presents a failure to push as if it were EOF. */
+	static int
+	lpush(void *buf_opaque, char c)
+	{
+		struct lex_state *lex_state;
+
+		assert(buf_opaque != NULL);
+
+		if (-1 == CAT(LX_PREFIX, _dynpush)(buf_opaque, c)) {
+			lex_state = (struct lex_state *) ((char *) buf_opaque - offsetof(struct lex_state, buf));
+			lex_state->error = 1;
+			return -1;
+		}
+
+		return 0;
+	}
+
 	struct ast *
 	DIALECT_PARSE(re_getchar_fun *f, void *opaque,
 		enum re_flags flags, int overlap,
@@ -575,12 +599,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -597,10 +625,12 @@ ZL0:;
 		lex_state->buf.a   = NULL;
 		lex_state->buf.len = 0;
 
+		lex_state->error   = 0;
+
 		/* XXX: unneccessary since we're lexing from a string */
 		/* (except for pushing "[" and "]" around ::group-$dialect) */
 		lx->buf_opaque = &lex_state->buf;
-		lx->push       = CAT(LX_PREFIX, _dynpush);
+		lx->push       = lpush;
 		lx->clear      = CAT(LX_PREFIX, _dynclear);
 		lx->free       = CAT(LX_PREFIX, _dynfree);
 
@@ -632,15 +662,20 @@ ZL0:;
 
 		lx->free(lx->buf_opaque);
 
+		/* this takes precedence over whatever the parser made of it */
+		if (lex_state->error) {
+			err->e = RE_EERRNO;
+		}
+
 		if (err->e != RE_ESUCCESS) {
 			/* TODO: free internals allocated during parsing (are there any?) */
 			goto error;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* An action failed with no error of its own to report,
+			 * which is to say for want of memory. */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -695,6 +730,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 699 "src/libre/dialect/literal/parser.c"
+#line 734 "src/libre/dialect/literal/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/native/parser.c b/src/libre/dialect/native/parser.c
index c4be1a4..5b0dba0 100644
--- a/src/libre/dialect/native/parser.c
+++ b/src/libre/dialect/native/parser.c
@@ -124,6 +124,9 @@
 		/* TODO: use lx's generated conveniences for the pattern buffer */
 		char a[512];
 		char *p;
+
+		/* A failure to lex, rather than something the lexer doesn't recognise. */
+		int error;
 	};
 
 	static void
@@ -202,6 +205,10 @@
 		mark(&act_state->synstart, &lex_state->lx.start);
 		mark(&act_state->synend,   &lex_state->lx.end);
 		act_state->lex_tok = LX_NEXT(&lex_state->lx);
+
+		if (act_state->lex_tok == TOK_ERROR) {
+			lex_state->error = 1;
+		}
 	}
 
 	static enum LX_TOKEN
@@ -269,7 +276,7 @@
 	                              act_state->lex_tok = tok;                     } while (0)
 	#define RESTORE_LEXER    do { act_state->lex_tok = act_state->lex_tok_save; } while (0)
 
-#line 273 "src/libre/dialect/native/parser.c"
+#line 280 "src/libre/dialect/native/parser.c"
 
 
 #ifndef ERROR_TERMINAL
@@ -326,7 +333,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 				{
 					/* BEGINNING OF EXTRACT: CHAR */
 					{
-#line 575 "src/libre/parser.act"
+#line 582 "src/libre/parser.act"
 
 		/* the first byte may be '\x00' */
 		assert(lex_state->buf.a[1] == '\0');
@@ -339,7 +346,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 343 "src/libre/dialect/native/parser.c"
+#line 350 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: CHAR */
 					ADVANCE_LEXER;
@@ -349,7 +356,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 				{
 					/* BEGINNING OF EXTRACT: ESC */
 					{
-#line 386 "src/libre/parser.act"
+#line 393 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
 		/* the character escaped may be a NUL */
@@ -375,7 +382,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 		(void) ZIstart;
 		(void) ZIend;
 	
-#line 379 "src/libre/dialect/native/parser.c"
+#line 386 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: ESC */
 					ADVANCE_LEXER;
@@ -385,7 +392,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 				{
 					/* BEGINNING OF EXTRACT: HEX */
 					{
-#line 527 "src/libre/parser.act"
+#line 534 "src/libre/parser.act"
 
 		unsigned long u;
 		char *s, *e;
@@ -433,7 +440,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 437 "src/libre/dialect/native/parser.c"
+#line 444 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: HEX */
 					ADVANCE_LEXER;
@@ -443,7 +450,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 				{
 					/* BEGINNING OF EXTRACT: OCT */
 					{
-#line 484 "src/libre/parser.act"
+#line 491 "src/libre/parser.act"
 
 		unsigned long u;
 		char *s, *e;
@@ -486,7 +493,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 490 "src/libre/dialect/native/parser.c"
+#line 497 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: OCT */
 					ADVANCE_LEXER;
@@ -499,12 +506,12 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 		/* END OF INLINE: 141 */
 		/* BEGINNING OF ACTION: ast-range-endpoint-literal */
 		{
-#line 839 "src/libre/parser.act"
+#line 846 "src/libre/parser.act"
 
 		(ZIr).type = AST_ENDPOINT_LITERAL;
 		(ZIr).u.literal.c = (unsigned char) (ZIc);
 	
-#line 508 "src/libre/dialect/native/parser.c"
+#line 515 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-range-endpoint-literal */
 	}
@@ -531,7 +538,7 @@ p_265(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 
 			/* BEGINNING OF EXTRACT: CLOSECOUNT */
 			{
-#line 378 "src/libre/parser.act"
+#line 385 "src/libre/parser.act"
 
 		ZI216 = lex_state->lx.start;
 		ZIend   = lex_state->lx.end;
@@ -539,23 +546,23 @@ p_265(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 		(void) ZI216;
 		(void) ZIend;
 	
-#line 543 "src/libre/dialect/native/parser.c"
+#line 550 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: CLOSECOUNT */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: mark-count */
 			{
-#line 777 "src/libre/parser.act"
+#line 784 "src/libre/parser.act"
 
 		mark(&act_state->countstart, &(*ZI263));
 		mark(&act_state->countend,   &(ZIend));
 	
-#line 554 "src/libre/dialect/native/parser.c"
+#line 561 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: mark-count */
 			/* BEGINNING OF ACTION: count-range */
 			{
-#line 824 "src/libre/parser.act"
+#line 831 "src/libre/parser.act"
 
 		if ((*ZIm) < (*ZIm)) {
 			err->e = RE_ENEGCOUNT;
@@ -570,7 +577,7 @@ p_265(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 
 		(ZIc) = ast_make_count((*ZIm), (*ZIm));
 	
-#line 574 "src/libre/dialect/native/parser.c"
+#line 581 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: count-range */
 		}
@@ -586,7 +593,7 @@ p_265(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 			case (TOK_COUNT):
 				/* BEGINNING OF EXTRACT: COUNT */
 				{
-#line 627 "src/libre/parser.act"
+#line 634 "src/libre/parser.act"
 
 		unsigned long u;
 		char *e;
@@ -606,7 +613,7 @@ p_265(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 
 		ZIn = (unsigned int) u;
 	
-#line 610 "src/libre/dialect/native/parser.c"
+#line 617 "src/libre/dialect/native/parser.c"
 				}
 				/* END OF EXTRACT: COUNT */
 				break;
@@ -618,7 +625,7 @@ p_265(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 			case (TOK_CLOSECOUNT):
 				/* BEGINNING OF EXTRACT: CLOSECOUNT */
 				{
-#line 378 "src/libre/parser.act"
+#line 385 "src/libre/parser.act"
 
 		ZI219 = lex_state->lx.start;
 		ZIend   = lex_state->lx.end;
@@ -626,7 +633,7 @@ p_265(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 		(void) ZI219;
 		(void) ZIend;
 	
-#line 630 "src/libre/dialect/native/parser.c"
+#line 637 "src/libre/dialect/native/parser.c"
 				}
 				/* END OF EXTRACT: CLOSECOUNT */
 				break;
@@ -636,17 +643,17 @@ p_265(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: mark-count */
 			{
-#line 777 "src/libre/parser.act"
+#line 784 "src/libre/parser.act"
 
 		mark(&act_state->countstart, &(*ZI263));
 		mark(&act_state->countend,   &(ZIend));
 	
-#line 645 "src/libre/dialect/native/parser.c"
+#line 652 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: mark-count */
 			/* BEGINNING OF ACTION: count-range */
 			{
-#line 824 "src/libre/parser.act"
+#line 831 "src/libre/parser.act"
 
 		if ((ZIn) < (*ZIm)) {
 			err->e = RE_ENEGCOUNT;
@@ -661,7 +668,7 @@ p_265(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 
 		(ZIc) = ast_make_count((*ZIm), (ZIn));
 	
-#line 665 "src/libre/dialect/native/parser.c"
+#line 672 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: count-range */
 		}
@@ -696,13 +703,13 @@ ZL2_expr_C_Ccharacter_Hclass_C_Clist_Hof_Hclass_Hterms:;
 			}
 			/* BEGINNING OF ACTION: ast-add-alt */
 			{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZIclass), (ZInode))) {
 			goto ZL1;
 		}
 	
-#line 706 "src/libre/dialect/native/parser.c"
+#line 713 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 			/* BEGINNING OF INLINE: expr::character-class::list-of-class-terms */
@@ -736,7 +743,7 @@ p_154(flags flags, lex_state lex_state, act_state act_state, err err)
 		case (TOK_RANGE):
 			/* BEGINNING OF EXTRACT: RANGE */
 			{
-#line 308 "src/libre/parser.act"
+#line 315 "src/libre/parser.act"
 
 		ZI155 = '-';
 		ZI156 = lex_state->lx.start;
@@ -746,7 +753,7 @@ p_154(flags flags, lex_state lex_state, act_state act_state, err err)
 		(void) ZI156;
 		(void) ZI157;
 	
-#line 750 "src/libre/dialect/native/parser.c"
+#line 757 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			break;
@@ -760,14 +767,14 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-range */
 		{
-#line 718 "src/libre/parser.act"
+#line 725 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXRANGE;
 		}
 		goto ZL2;
 	
-#line 771 "src/libre/dialect/native/parser.c"
+#line 778 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: err-expected-range */
 	}
@@ -795,13 +802,13 @@ ZL2_expr_C_Clist_Hof_Hpieces:;
 		}
 		/* BEGINNING OF ACTION: ast-add-concat */
 		{
-#line 1040 "src/libre/parser.act"
+#line 1047 "src/libre/parser.act"
 
 		if (!ast_add_expr_concat((ZIcat), (ZIa))) {
 			goto ZL1;
 		}
 	
-#line 805 "src/libre/dialect/native/parser.c"
+#line 812 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-add-concat */
 		/* BEGINNING OF INLINE: 223 */
@@ -849,7 +856,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 					/* BEGINNING OF EXTRACT: CHAR */
 					{
-#line 575 "src/libre/parser.act"
+#line 582 "src/libre/parser.act"
 
 		/* the first byte may be '\x00' */
 		assert(lex_state->buf.a[1] == '\0');
@@ -862,7 +869,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 866 "src/libre/dialect/native/parser.c"
+#line 873 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: CHAR */
 					ADVANCE_LEXER;
@@ -875,7 +882,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 					/* BEGINNING OF EXTRACT: ESC */
 					{
-#line 386 "src/libre/parser.act"
+#line 393 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
 		/* the character escaped may be a NUL */
@@ -901,7 +908,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 		(void) ZI111;
 		(void) ZI112;
 	
-#line 905 "src/libre/dialect/native/parser.c"
+#line 912 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: ESC */
 					ADVANCE_LEXER;
@@ -914,7 +921,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 					/* BEGINNING OF EXTRACT: HEX */
 					{
-#line 527 "src/libre/parser.act"
+#line 534 "src/libre/parser.act"
 
 		unsigned long u;
 		char *s, *e;
@@ -962,7 +969,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 966 "src/libre/dialect/native/parser.c"
+#line 973 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: HEX */
 					ADVANCE_LEXER;
@@ -975,7 +982,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 					/* BEGINNING OF EXTRACT: OCT */
 					{
-#line 484 "src/libre/parser.act"
+#line 491 "src/libre/parser.act"
 
 		unsigned long u;
 		char *s, *e;
@@ -1018,7 +1025,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 1022 "src/libre/dialect/native/parser.c"
+#line 1029 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: OCT */
 					ADVANCE_LEXER;
@@ -1031,14 +1038,14 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 		/* END OF INLINE: 109 */
 		/* BEGINNING OF ACTION: ast-make-literal */
 		{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1042 "src/libre/dialect/native/parser.c"
+#line 1049 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-make-literal */
 	}
@@ -1064,7 +1071,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 			/* BEGINNING OF EXTRACT: CHAR */
 			{
-#line 575 "src/libre/parser.act"
+#line 582 "src/libre/parser.act"
 
 		/* the first byte may be '\x00' */
 		assert(lex_state->buf.a[1] == '\0');
@@ -1077,7 +1084,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		ZI259 = lex_state->buf.a[0];
 	
-#line 1081 "src/libre/dialect/native/parser.c"
+#line 1088 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: CHAR */
 			ADVANCE_LEXER;
@@ -1096,7 +1103,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 			/* BEGINNING OF EXTRACT: ESC */
 			{
-#line 386 "src/libre/parser.act"
+#line 393 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
 		/* the character escaped may be a NUL */
@@ -1122,7 +1129,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 		(void) ZI248;
 		(void) ZI249;
 	
-#line 1126 "src/libre/dialect/native/parser.c"
+#line 1133 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: ESC */
 			ADVANCE_LEXER;
@@ -1141,7 +1148,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 			/* BEGINNING OF EXTRACT: HEX */
 			{
-#line 527 "src/libre/parser.act"
+#line 534 "src/libre/parser.act"
 
 		unsigned long u;
 		char *s, *e;
@@ -1189,7 +1196,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		ZI255 = (char) (unsigned char) u;
 	
-#line 1193 "src/libre/dialect/native/parser.c"
+#line 1200 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: HEX */
 			ADVANCE_LEXER;
@@ -1208,7 +1215,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 			/* BEGINNING OF EXTRACT: NAMED_CLASS */
 			{
-#line 647 "src/libre/parser.act"
+#line 654 "src/libre/parser.act"
 
 		ZI243 = DIALECT_CLASS(lex_state->buf.a);
 		if (ZI243 == NULL) {
@@ -1222,7 +1229,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 		(void) ZI244;
 		(void) ZI245;
 	
-#line 1226 "src/libre/dialect/native/parser.c"
+#line 1233 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: NAMED_CLASS */
 			ADVANCE_LEXER;
@@ -1241,7 +1248,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 			/* BEGINNING OF EXTRACT: OCT */
 			{
-#line 484 "src/libre/parser.act"
+#line 491 "src/libre/parser.act"
 
 		unsigned long u;
 		char *s, *e;
@@ -1284,7 +1291,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		ZI251 = (char) (unsigned char) u;
 	
-#line 1288 "src/libre/dialect/native/parser.c"
+#line 1295 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: OCT */
 			ADVANCE_LEXER;
@@ -1325,7 +1332,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hclass(flags fl
 		case (TOK_NAMED__CLASS):
 			/* BEGINNING OF EXTRACT: NAMED_CLASS */
 			{
-#line 647 "src/libre/parser.act"
+#line 654 "src/libre/parser.act"
 
 		ZIid = DIALECT_CLASS(lex_state->buf.a);
 		if (ZIid == NULL) {
@@ -1339,7 +1346,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hclass(flags fl
 		(void) ZIstart;
 		(void) ZIend;
 	
-#line 1343 "src/libre/dialect/native/parser.c"
+#line 1350 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: NAMED_CLASS */
 			break;
@@ -1349,12 +1356,12 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hclass(flags fl
 		ADVANCE_LEXER;
 		/* BEGINNING OF ACTION: ast-range-endpoint-class */
 		{
-#line 844 "src/libre/parser.act"
+#line 851 "src/libre/parser.act"
 
 		(ZIr).type = AST_ENDPOINT_NAMED;
 		(ZIr).u.named.class = (ZIid);
 	
-#line 1358 "src/libre/dialect/native/parser.c"
+#line 1365 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-range-endpoint-class */
 	}
@@ -1389,7 +1396,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 					/* BEGINNING OF EXTRACT: OPENGROUP */
 					{
-#line 318 "src/libre/parser.act"
+#line 325 "src/libre/parser.act"
 
 		ZIstart = lex_state->lx.start;
 		ZI167   = lex_state->lx.end;
@@ -1397,20 +1404,20 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIstart;
 		(void) ZI167;
 	
-#line 1401 "src/libre/dialect/native/parser.c"
+#line 1408 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: OPENGROUP */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 874 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1414 "src/libre/dialect/native/parser.c"
+#line 1421 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZItmp = ZInode;
@@ -1430,7 +1437,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 					/* BEGINNING OF EXTRACT: OPENGROUPCB */
 					{
-#line 334 "src/libre/parser.act"
+#line 341 "src/libre/parser.act"
 
 		ZIstart = lex_state->lx.start;
 		ZI186   = lex_state->lx.end;
@@ -1438,30 +1445,30 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIstart;
 		(void) ZI186;
 	
-#line 1442 "src/libre/dialect/native/parser.c"
+#line 1449 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: OPENGROUPCB */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 874 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1455 "src/libre/dialect/native/parser.c"
+#line 1462 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZItmp = ZInode;
 					/* BEGINNING OF ACTION: make-literal-cbrak */
 					{
-#line 885 "src/libre/parser.act"
+#line 892 "src/libre/parser.act"
 
 		(ZIcbrak) = ']';
 	
-#line 1465 "src/libre/dialect/native/parser.c"
+#line 1472 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: make-literal-cbrak */
 					p_195 (flags, lex_state, act_state, err, &ZIstart, &ZIcbrak, &ZInode1);
@@ -1471,13 +1478,13 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 					}
 					/* BEGINNING OF ACTION: ast-add-alt */
 					{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZItmp), (ZInode1))) {
 			goto ZL1;
 		}
 	
-#line 1481 "src/libre/dialect/native/parser.c"
+#line 1488 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-add-alt */
 					p_expr_C_Ccharacter_Hclass_C_Clist_Hof_Hclass_Hterms (flags, lex_state, act_state, err, ZItmp);
@@ -1493,7 +1500,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 					/* BEGINNING OF EXTRACT: OPENGROUPINV */
 					{
-#line 326 "src/libre/parser.act"
+#line 333 "src/libre/parser.act"
 
 		ZIstart = lex_state->lx.start;
 		ZI178   = lex_state->lx.end;
@@ -1501,26 +1508,26 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIstart;
 		(void) ZI178;
 	
-#line 1505 "src/libre/dialect/native/parser.c"
+#line 1512 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: OPENGROUPINV */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 874 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1518 "src/libre/dialect/native/parser.c"
+#line 1525 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZItmp = ZInode;
 					/* BEGINNING OF ACTION: ast-make-invert */
 					{
-#line 966 "src/libre/parser.act"
+#line 973 "src/libre/parser.act"
 
 		struct ast_expr *any;
 
@@ -1558,7 +1565,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 			goto ZL1;
 		}
 	
-#line 1562 "src/libre/dialect/native/parser.c"
+#line 1569 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-make-invert */
 					p_180 (flags, lex_state, act_state, err, &ZItmp);
@@ -1577,7 +1584,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 					/* BEGINNING OF EXTRACT: OPENGROUPINVCB */
 					{
-#line 342 "src/libre/parser.act"
+#line 349 "src/libre/parser.act"
 
 		ZIstart = lex_state->lx.start;
 		ZI193   = lex_state->lx.end;
@@ -1585,26 +1592,26 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIstart;
 		(void) ZI193;
 	
-#line 1589 "src/libre/dialect/native/parser.c"
+#line 1596 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: OPENGROUPINVCB */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 874 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1602 "src/libre/dialect/native/parser.c"
+#line 1609 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZItmp = ZInode;
 					/* BEGINNING OF ACTION: ast-make-invert */
 					{
-#line 966 "src/libre/parser.act"
+#line 973 "src/libre/parser.act"
 
 		struct ast_expr *any;
 
@@ -1642,16 +1649,16 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 			goto ZL1;
 		}
 	
-#line 1646 "src/libre/dialect/native/parser.c"
+#line 1653 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-make-invert */
 					/* BEGINNING OF ACTION: make-literal-cbrak */
 					{
-#line 885 "src/libre/parser.act"
+#line 892 "src/libre/parser.act"
 
 		(ZIcbrak) = ']';
 	
-#line 1655 "src/libre/dialect/native/parser.c"
+#line 1662 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: make-literal-cbrak */
 					p_195 (flags, lex_state, act_state, err, &ZIstart, &ZIcbrak, &ZInode1);
@@ -1661,13 +1668,13 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 					}
 					/* BEGINNING OF ACTION: ast-add-alt */
 					{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZItmp), (ZInode1))) {
 			goto ZL1;
 		}
 	
-#line 1671 "src/libre/dialect/native/parser.c"
+#line 1678 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-add-alt */
 					p_expr_C_Ccharacter_Hclass_C_Clist_Hof_Hclass_Hterms (flags, lex_state, act_state, err, ZItmp);
@@ -1693,7 +1700,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 					/* BEGINNING OF EXTRACT: CLOSEGROUP */
 					{
-#line 350 "src/libre/parser.act"
+#line 357 "src/libre/parser.act"
 
 		ZI200 = ']';
 		ZI201 = lex_state->lx.start;
@@ -1703,18 +1710,18 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZI201;
 		(void) ZIend;
 	
-#line 1707 "src/libre/dialect/native/parser.c"
+#line 1714 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: CLOSEGROUP */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: mark-group */
 					{
-#line 767 "src/libre/parser.act"
+#line 774 "src/libre/parser.act"
 
 		mark(&act_state->groupstart, &(ZIstart));
 		mark(&act_state->groupend,   &(ZIend));
 	
-#line 1718 "src/libre/dialect/native/parser.c"
+#line 1725 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: mark-group */
 				}
@@ -1728,7 +1735,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 					/* BEGINNING OF EXTRACT: CLOSEGROUPRANGE */
 					{
-#line 360 "src/libre/parser.act"
+#line 367 "src/libre/parser.act"
 
 		ZIcrange = '-';
 		ZI203 = lex_state->lx.start;
@@ -1738,41 +1745,41 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZI203;
 		(void) ZIend;
 	
-#line 1742 "src/libre/dialect/native/parser.c"
+#line 1749 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: CLOSEGROUPRANGE */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-literal */
 					{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZIrange) = ast_make_expr_literal(act_state->poolp, *flags, (ZIcrange));
 		if ((ZIrange) == NULL) {
 			goto ZL4;
 		}
 	
-#line 1755 "src/libre/dialect/native/parser.c"
+#line 1762 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-make-literal */
 					/* BEGINNING OF ACTION: ast-add-alt */
 					{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZItmp), (ZIrange))) {
 			goto ZL4;
 		}
 	
-#line 1766 "src/libre/dialect/native/parser.c"
+#line 1773 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-add-alt */
 					/* BEGINNING OF ACTION: mark-group */
 					{
-#line 767 "src/libre/parser.act"
+#line 774 "src/libre/parser.act"
 
 		mark(&act_state->groupstart, &(ZIstart));
 		mark(&act_state->groupend,   &(ZIend));
 	
-#line 1776 "src/libre/dialect/native/parser.c"
+#line 1783 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: mark-group */
 				}
@@ -1785,14 +1792,14 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 			{
 				/* BEGINNING OF ACTION: err-expected-closegroup */
 				{
-#line 725 "src/libre/parser.act"
+#line 732 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXCLOSEGROUP;
 		}
 		goto ZL1;
 	
-#line 1796 "src/libre/dialect/native/parser.c"
+#line 1803 "src/libre/dialect/native/parser.c"
 				}
 				/* END OF ACTION: err-expected-closegroup */
 			}
@@ -1821,7 +1828,7 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 
 			/* BEGINNING OF EXTRACT: RANGE */
 			{
-#line 308 "src/libre/parser.act"
+#line 315 "src/libre/parser.act"
 
 		ZIc = '-';
 		ZIrstart = lex_state->lx.start;
@@ -1831,7 +1838,7 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 		(void) ZIrstart;
 		(void) ZI181;
 	
-#line 1835 "src/libre/dialect/native/parser.c"
+#line 1842 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			ADVANCE_LEXER;
@@ -1842,14 +1849,14 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 					{
 						/* BEGINNING OF ACTION: ast-make-literal */
 						{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZInode1) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZInode1) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1853 "src/libre/dialect/native/parser.c"
+#line 1860 "src/libre/dialect/native/parser.c"
 						}
 						/* END OF ACTION: ast-make-literal */
 					}
@@ -1865,17 +1872,17 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 
 						/* BEGINNING OF ACTION: ast-range-endpoint-literal */
 						{
-#line 839 "src/libre/parser.act"
+#line 846 "src/libre/parser.act"
 
 		(ZIlower).type = AST_ENDPOINT_LITERAL;
 		(ZIlower).u.literal.c = (unsigned char) (ZIc);
 	
-#line 1874 "src/libre/dialect/native/parser.c"
+#line 1881 "src/libre/dialect/native/parser.c"
 						}
 						/* END OF ACTION: ast-range-endpoint-literal */
 						/* BEGINNING OF EXTRACT: RANGE */
 						{
-#line 308 "src/libre/parser.act"
+#line 315 "src/libre/parser.act"
 
 		ZI183 = '-';
 		ZI184 = lex_state->lx.start;
@@ -1885,7 +1892,7 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 		(void) ZI184;
 		(void) ZI185;
 	
-#line 1889 "src/libre/dialect/native/parser.c"
+#line 1896 "src/libre/dialect/native/parser.c"
 						}
 						/* END OF EXTRACT: RANGE */
 						ADVANCE_LEXER;
@@ -1896,7 +1903,7 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 						}
 						/* BEGINNING OF ACTION: ast-make-range */
 						{
-#line 1004 "src/libre/parser.act"
+#line 1011 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -1925,7 +1932,7 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 			goto ZL1;
 		}
 	
-#line 1929 "src/libre/dialect/native/parser.c"
+#line 1936 "src/libre/dialect/native/parser.c"
 						}
 						/* END OF ACTION: ast-make-range */
 					}
@@ -1935,13 +1942,13 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 			/* END OF INLINE: 182 */
 			/* BEGINNING OF ACTION: ast-add-alt */
 			{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((*ZItmp), (ZInode1))) {
 			goto ZL1;
 		}
 	
-#line 1945 "src/libre/dialect/native/parser.c"
+#line 1952 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 		}
@@ -1977,7 +1984,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_Hend(flags flags, lex_state lex_st
 
 					/* BEGINNING OF EXTRACT: RANGE */
 					{
-#line 308 "src/libre/parser.act"
+#line 315 "src/libre/parser.act"
 
 		ZIc = '-';
 		ZI149 = lex_state->lx.start;
@@ -1987,18 +1994,18 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_Hend(flags flags, lex_state lex_st
 		(void) ZI149;
 		(void) ZIend;
 	
-#line 1991 "src/libre/dialect/native/parser.c"
+#line 1998 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: RANGE */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-range-endpoint-literal */
 					{
-#line 839 "src/libre/parser.act"
+#line 846 "src/libre/parser.act"
 
 		(ZIr).type = AST_ENDPOINT_LITERAL;
 		(ZIr).u.literal.c = (unsigned char) (ZIc);
 	
-#line 2002 "src/libre/dialect/native/parser.c"
+#line 2009 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-range-endpoint-literal */
 				}
@@ -2050,7 +2057,7 @@ p_expr_C_Cpiece(flags flags, lex_state lex_state, act_state act_state, err err,
 		}
 		/* BEGINNING OF ACTION: ast-make-piece */
 		{
-#line 897 "src/libre/parser.act"
+#line 904 "src/libre/parser.act"
 
 		if ((ZIc).min == 0 && (ZIc).max == 0) {
 			(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
@@ -2064,7 +2071,7 @@ p_expr_C_Cpiece(flags flags, lex_state lex_state, act_state act_state, err err,
 			goto ZL1;
 		}
 	
-#line 2068 "src/libre/dialect/native/parser.c"
+#line 2075 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-make-piece */
 	}
@@ -2088,14 +2095,14 @@ p_expr(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__ex
 		{
 			/* BEGINNING OF ACTION: ast-make-alt */
 			{
-#line 867 "src/libre/parser.act"
+#line 874 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 2099 "src/libre/dialect/native/parser.c"
+#line 2106 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-alt */
 			p_expr_C_Clist_Hof_Halts (flags, lex_state, act_state, err, ZInode);
@@ -2109,14 +2116,14 @@ p_expr(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__ex
 		{
 			/* BEGINNING OF ACTION: ast-make-empty */
 			{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 2120 "src/libre/dialect/native/parser.c"
+#line 2127 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-empty */
 		}
@@ -2129,26 +2136,26 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-alts */
 		{
-#line 711 "src/libre/parser.act"
+#line 718 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXALTS;
 		}
 		goto ZL2;
 	
-#line 2140 "src/libre/dialect/native/parser.c"
+#line 2147 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: err-expected-alts */
 		/* BEGINNING OF ACTION: ast-make-empty */
 		{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL2;
 		}
 	
-#line 2152 "src/libre/dialect/native/parser.c"
+#line 2159 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -2170,14 +2177,14 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		{
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZInode1) = ast_make_expr_literal(act_state->poolp, *flags, (*ZIcbrak));
 		if ((ZInode1) == NULL) {
 			goto ZL1;
 		}
 	
-#line 2181 "src/libre/dialect/native/parser.c"
+#line 2188 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -2194,17 +2201,17 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 
 			/* BEGINNING OF ACTION: ast-range-endpoint-literal */
 			{
-#line 839 "src/libre/parser.act"
+#line 846 "src/libre/parser.act"
 
 		(ZIr).type = AST_ENDPOINT_LITERAL;
 		(ZIr).u.literal.c = (unsigned char) (*ZIcbrak);
 	
-#line 2203 "src/libre/dialect/native/parser.c"
+#line 2210 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			/* BEGINNING OF EXTRACT: RANGE */
 			{
-#line 308 "src/libre/parser.act"
+#line 315 "src/libre/parser.act"
 
 		ZI196 = '-';
 		ZI197 = lex_state->lx.start;
@@ -2214,7 +2221,7 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		(void) ZI197;
 		(void) ZI198;
 	
-#line 2218 "src/libre/dialect/native/parser.c"
+#line 2225 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			ADVANCE_LEXER;
@@ -2225,17 +2232,17 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 			}
 			/* BEGINNING OF ACTION: ast-range-endpoint-literal */
 			{
-#line 839 "src/libre/parser.act"
+#line 846 "src/libre/parser.act"
 
 		(ZIlower).type = AST_ENDPOINT_LITERAL;
 		(ZIlower).u.literal.c = (unsigned char) (*ZIcbrak);
 	
-#line 2234 "src/libre/dialect/native/parser.c"
+#line 2241 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
-#line 1004 "src/libre/parser.act"
+#line 1011 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -2264,7 +2271,7 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 			goto ZL1;
 		}
 	
-#line 2268 "src/libre/dialect/native/parser.c"
+#line 2275 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -2294,11 +2301,11 @@ p_re__native(flags flags, lex_state lex_state, act_state act_state, err err, t_a
 
 		/* BEGINNING OF ACTION: make-group-id */
 		{
-#line 881 "src/libre/parser.act"
+#line 888 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 2302 "src/libre/dialect/native/parser.c"
+#line 2309 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: make-group-id */
 		p_expr (flags, lex_state, act_state, err, &ZIe);
@@ -2308,14 +2315,14 @@ p_re__native(flags flags, lex_state lex_state, act_state act_state, err err, t_a
 		}
 		/* BEGINNING OF ACTION: ast-make-group */
 		{
-#line 911 "src/libre/parser.act"
+#line 918 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_group(act_state->poolp, *flags, (ZIe), (ZIid));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 2319 "src/libre/dialect/native/parser.c"
+#line 2326 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-make-group */
 		/* BEGINNING OF INLINE: 231 */
@@ -2334,14 +2341,14 @@ p_re__native(flags flags, lex_state lex_state, act_state act_state, err err, t_a
 			{
 				/* BEGINNING OF ACTION: err-expected-eof */
 				{
-#line 753 "src/libre/parser.act"
+#line 760 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXEOF;
 		}
 		goto ZL1;
 	
-#line 2345 "src/libre/dialect/native/parser.c"
+#line 2352 "src/libre/dialect/native/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -2422,13 +2429,13 @@ ZL2_expr_C_Clist_Hof_Halts:;
 		}
 		/* BEGINNING OF ACTION: ast-add-alt */
 		{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZIalts), (ZIa))) {
 			goto ZL1;
 		}
 	
-#line 2432 "src/libre/dialect/native/parser.c"
+#line 2439 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-add-alt */
 		/* BEGINNING OF INLINE: 229 */
@@ -2453,14 +2460,14 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-alts */
 		{
-#line 711 "src/libre/parser.act"
+#line 718 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXALTS;
 		}
 		goto ZL4;
 	
-#line 2464 "src/libre/dialect/native/parser.c"
+#line 2471 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: err-expected-alts */
 	}
@@ -2485,7 +2492,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 			/* BEGINNING OF EXTRACT: OPENCOUNT */
 			{
-#line 370 "src/libre/parser.act"
+#line 377 "src/libre/parser.act"
 
 		ZI263 = lex_state->lx.start;
 		ZI264   = lex_state->lx.end;
@@ -2493,7 +2500,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 		(void) ZI263;
 		(void) ZI264;
 	
-#line 2497 "src/libre/dialect/native/parser.c"
+#line 2504 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: OPENCOUNT */
 			ADVANCE_LEXER;
@@ -2501,7 +2508,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 			case (TOK_COUNT):
 				/* BEGINNING OF EXTRACT: COUNT */
 				{
-#line 627 "src/libre/parser.act"
+#line 634 "src/libre/parser.act"
 
 		unsigned long u;
 		char *e;
@@ -2521,7 +2528,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		ZIm = (unsigned int) u;
 	
-#line 2525 "src/libre/dialect/native/parser.c"
+#line 2532 "src/libre/dialect/native/parser.c"
 				}
 				/* END OF EXTRACT: COUNT */
 				break;
@@ -2541,11 +2548,11 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: count-zero-or-one */
 			{
-#line 816 "src/libre/parser.act"
+#line 823 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(0, 1);
 	
-#line 2549 "src/libre/dialect/native/parser.c"
+#line 2556 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-one */
 		}
@@ -2555,11 +2562,11 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: count-one-or-more */
 			{
-#line 812 "src/libre/parser.act"
+#line 819 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(1, AST_COUNT_UNBOUNDED);
 	
-#line 2563 "src/libre/dialect/native/parser.c"
+#line 2570 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: count-one-or-more */
 		}
@@ -2569,11 +2576,11 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: count-zero-or-more */
 			{
-#line 808 "src/libre/parser.act"
+#line 815 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(0, AST_COUNT_UNBOUNDED);
 	
-#line 2577 "src/libre/dialect/native/parser.c"
+#line 2584 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-more */
 		}
@@ -2582,11 +2589,11 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 		{
 			/* BEGINNING OF ACTION: count-one */
 			{
-#line 820 "src/libre/parser.act"
+#line 827 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(1, 1);
 	
-#line 2590 "src/libre/dialect/native/parser.c"
+#line 2597 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: count-one */
 		}
@@ -2599,23 +2606,23 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-count */
 		{
-#line 697 "src/libre/parser.act"
+#line 704 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXCOUNT;
 		}
 		goto ZL2;
 	
-#line 2610 "src/libre/dialect/native/parser.c"
+#line 2617 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: err-expected-count */
 		/* BEGINNING OF ACTION: count-one */
 		{
-#line 820 "src/libre/parser.act"
+#line 827 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(1, 1);
 	
-#line 2619 "src/libre/dialect/native/parser.c"
+#line 2626 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: count-one */
 	}
@@ -2640,24 +2647,24 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: class-any */
 			{
-#line 782 "src/libre/parser.act"
+#line 789 "src/libre/parser.act"
 
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 2649 "src/libre/dialect/native/parser.c"
+#line 2656 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1040 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_named(act_state->poolp, *flags, (ZIa));
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 2661 "src/libre/dialect/native/parser.c"
+#line 2668 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 		}
@@ -2667,14 +2674,14 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-anchor-end */
 			{
-#line 942 "src/libre/parser.act"
+#line 949 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_anchor(act_state->poolp, *flags, AST_ANCHOR_END);
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 2678 "src/libre/dialect/native/parser.c"
+#line 2685 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-anchor-end */
 		}
@@ -2687,11 +2694,11 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: make-group-id */
 			{
-#line 881 "src/libre/parser.act"
+#line 888 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 2695 "src/libre/dialect/native/parser.c"
+#line 2702 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: make-group-id */
 			p_expr (flags, lex_state, act_state, err, &ZIg);
@@ -2701,14 +2708,14 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			}
 			/* BEGINNING OF ACTION: ast-make-group */
 			{
-#line 911 "src/libre/parser.act"
+#line 918 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_group(act_state->poolp, *flags, (ZIg), (ZIid));
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 2712 "src/libre/dialect/native/parser.c"
+#line 2719 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-group */
 			switch (CURRENT_TERMINAL) {
@@ -2725,14 +2732,14 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-anchor-start */
 			{
-#line 935 "src/libre/parser.act"
+#line 942 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_anchor(act_state->poolp, *flags, AST_ANCHOR_START);
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 2736 "src/libre/dialect/native/parser.c"
+#line 2743 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-anchor-start */
 		}
@@ -2765,26 +2772,26 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-atom */
 		{
-#line 704 "src/libre/parser.act"
+#line 711 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXATOM;
 		}
 		goto ZL2;
 	
-#line 2776 "src/libre/dialect/native/parser.c"
+#line 2783 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: err-expected-atom */
 		/* BEGINNING OF ACTION: ast-make-empty */
 		{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
 			goto ZL2;
 		}
 	
-#line 2788 "src/libre/dialect/native/parser.c"
+#line 2795 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -2806,14 +2813,14 @@ p_246(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 		{
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1040 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_named(act_state->poolp, *flags, (*ZI243));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 2817 "src/libre/dialect/native/parser.c"
+#line 2824 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 		}
@@ -2826,12 +2833,12 @@ p_246(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 
 			/* BEGINNING OF ACTION: ast-range-endpoint-class */
 			{
-#line 844 "src/libre/parser.act"
+#line 851 "src/libre/parser.act"
 
 		(ZIlower).type = AST_ENDPOINT_NAMED;
 		(ZIlower).u.named.class = (*ZI243);
 	
-#line 2835 "src/libre/dialect/native/parser.c"
+#line 2842 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-class */
 			p_154 (flags, lex_state, act_state, err);
@@ -2842,17 +2849,17 @@ p_246(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 			}
 			/* BEGINNING OF ACTION: mark-range */
 			{
-#line 772 "src/libre/parser.act"
+#line 779 "src/libre/parser.act"
 
 		mark(&act_state->rangestart, &(*ZI244));
 		mark(&act_state->rangeend,   &(ZIend));
 	
-#line 2851 "src/libre/dialect/native/parser.c"
+#line 2858 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: mark-range */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
-#line 1004 "src/libre/parser.act"
+#line 1011 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -2881,7 +2888,7 @@ p_246(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 			goto ZL1;
 		}
 	
-#line 2885 "src/libre/dialect/native/parser.c"
+#line 2892 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -2908,14 +2915,14 @@ p_expr_C_Calt(flags flags, lex_state lex_state, act_state act_state, err err, t_
 	{
 		/* BEGINNING OF ACTION: ast-make-concat */
 		{
-#line 860 "src/libre/parser.act"
+#line 867 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_concat(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 2919 "src/libre/dialect/native/parser.c"
+#line 2926 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-make-concat */
 		p_expr_C_Clist_Hof_Hpieces (flags, lex_state, act_state, err, ZInode);
@@ -2942,14 +2949,14 @@ p_250(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 		{
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (*ZI247));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 2953 "src/libre/dialect/native/parser.c"
+#line 2960 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -2962,12 +2969,12 @@ p_250(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 
 			/* BEGINNING OF ACTION: ast-range-endpoint-literal */
 			{
-#line 839 "src/libre/parser.act"
+#line 846 "src/libre/parser.act"
 
 		(ZIlower).type = AST_ENDPOINT_LITERAL;
 		(ZIlower).u.literal.c = (unsigned char) (*ZI247);
 	
-#line 2971 "src/libre/dialect/native/parser.c"
+#line 2978 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			p_154 (flags, lex_state, act_state, err);
@@ -2978,17 +2985,17 @@ p_250(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 			}
 			/* BEGINNING OF ACTION: mark-range */
 			{
-#line 772 "src/libre/parser.act"
+#line 779 "src/libre/parser.act"
 
 		mark(&act_state->rangestart, &(*ZI248));
 		mark(&act_state->rangeend,   &(ZIend));
 	
-#line 2987 "src/libre/dialect/native/parser.c"
+#line 2994 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: mark-range */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
-#line 1004 "src/libre/parser.act"
+#line 1011 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -3017,7 +3024,7 @@ p_250(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 			goto ZL1;
 		}
 	
-#line 3021 "src/libre/dialect/native/parser.c"
+#line 3028 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -3035,7 +3042,7 @@ ZL0:;
 
 /* BEGINNING OF TRAILER */
 
-#line 1052 "src/libre/parser.act"
+#line 1059 "src/libre/parser.act"
 
 
 	static int
@@ -3053,6 +3060,23 @@ ZL0:;
 		return lex_state->f(lex_state->opaque);
 	}
 
+	/* The lexer presents a failure to push as if it were EOF. */
+	static int
+	lpush(void *buf_opaque, char c)
+	{
+		struct lex_state *lex_state;
+
+		assert(buf_opaque != NULL);
+
+		if (-1 == CAT(LX_PREFIX, _dynpush)(buf_opaque, c)) {
+			lex_state = (struct lex_state *) ((char *) buf_opaque - offsetof(struct lex_state, buf));
+			lex_state->error = 1;
+			return -1;
+		}
+
+		return 0;
+	}
+
 	struct ast *
 	DIALECT_PARSE(re_getchar_fun *f, void *opaque,
 		enum re_flags flags, int overlap,
@@ -3071,12 +3095,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -3093,10 +3121,12 @@ ZL0:;
 		lex_state->buf.a   = NULL;
 		lex_state->buf.len = 0;
 
+		lex_state->error   = 0;
+
 		/* XXX: unneccessary since we're lexing from a string */
 		/* (except for pushing "[" and "]" around ::group-$dialect) */
 		lx->buf_opaque = &lex_state->buf;
-		lx->push       = CAT(LX_PREFIX, _dynpush);
+		lx->push       = lpush;
 		lx->clear      = CAT(LX_PREFIX, _dynclear);
 		lx->free       = CAT(LX_PREFIX, _dynfree);
 
@@ -3128,15 +3158,20 @@ ZL0:;
 
 		lx->free(lx->buf_opaque);
 
+		/* this takes precedence over whatever the parser made of it */
+		if (lex_state->error) {
+			err->e = RE_EERRNO;
+		}
+
 		if (err->e != RE_ESUCCESS) {
 			/* TODO: free internals allocated during parsing (are there any?) */
 			goto error;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* An action failed with no error of its own to report,
+			 * which is to say for want of memory. */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -3191,6 +3226,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 3195 "src/libre/dialect/native/parser.c"
+#line 3230 "src/libre/dialect/native/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/pcre/parser.c b/src/libre/dialect/pcre/parser.c
index ecdcf00..c69e3be 100644
--- a/src/libre/dialect/pcre/parser.c
+++ b/src/libre/dialect/pcre/parser.c
@@ -124,6 +124,9 @@
 		/* TODO: use lx's generated conveniences for the pattern buffer */
 		char a[512];
 		char *p;
+
+		/* A failure to lex, rather than something the lexer doesn't recognise. */
+		int error;
 	};
 
 	static void
@@ -202,6 +205,10 @@
 		mark(&act_state->synstart, &lex_state->lx.start);
 		mark(&act_state->synend,   &lex_state->lx.end);
 		act_state->lex_tok = LX_NEXT(&lex_state->lx);
+
+		if (act_state->lex_tok == TOK_ERROR) {
+			lex_state->error = 1;
+		}
 	}
 
 	static enum LX_TOKEN
@@ -269,7 +276,7 @@
 	                              act_state->lex_tok = tok;                     } while (0)
 	#define RESTORE_LEXER    do { act_state->lex_tok = act_state->lex_tok_save; } while (0)
 
-#line 273 "src/libre/dialect/pcre/parser.c"
+#line 280 "src/libre/dialect/pcre/parser.c"
 
 
 #ifndef ERROR_TERMINAL
@@ -325,21 +332,21 @@ p_expr_C_Cflags_C_Cflag__set(flags flags, lex_state lex_state, act_state act_sta
 
 			/* BEGINNING OF EXTRACT: FLAG_EXTENDED */
 			{
-#line 665 "src/libre/parser.act"
+#line 672 "src/libre/parser.act"
 
 		ZIc = RE_EXTENDED;
 	
-#line 333 "src/libre/dialect/pcre/parser.c"
+#line 340 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: FLAG_EXTENDED */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: re-flag-union */
 			{
-#line 800 "src/libre/parser.act"
+#line 807 "src/libre/parser.act"
 
 		(ZIo) = (ZIi) | (ZIc);
 	
-#line 343 "src/libre/dialect/pcre/parser.c"
+#line 350 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: re-flag-union */
 		}
@@ -356,21 +363,21 @@ p_expr_C_Cflags_C_Cflag__set(flags flags, lex_state lex_state, act_state act_sta
 
 			/* BEGINNING OF EXTRACT: FLAG_INSENSITIVE */
 			{
-#line 661 "src/libre/parser.act"
+#line 668 "src/libre/parser.act"
 
 		ZIc = RE_ICASE;
 	
-#line 364 "src/libre/dialect/pcre/parser.c"
+#line 371 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: FLAG_INSENSITIVE */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: re-flag-union */
 			{
-#line 800 "src/libre/parser.act"
+#line 807 "src/libre/parser.act"
 
 		(ZIo) = (ZIi) | (ZIc);
 	
-#line 374 "src/libre/dialect/pcre/parser.c"
+#line 381 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: re-flag-union */
 		}
@@ -381,21 +388,21 @@ p_expr_C_Cflags_C_Cflag__set(flags flags, lex_state lex_state, act_state act_sta
 
 			/* BEGINNING OF EXTRACT: FLAG_SINGLE */
 			{
-#line 669 "src/libre/parser.act"
+#line 676 "src/libre/parser.act"
 
 		ZIc = RE_SINGLE;
 	
-#line 389 "src/libre/dialect/pcre/parser.c"
+#line 396 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: FLAG_SINGLE */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: re-flag-union */
 			{
-#line 800 "src/libre/parser.act"
+#line 807 "src/libre/parser.act"
 
 		(ZIo) = (ZIi) | (ZIc);
 	
-#line 399 "src/libre/dialect/pcre/parser.c"
+#line 406 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: re-flag-union */
 		}
@@ -406,14 +413,14 @@ p_expr_C_Cflags_C_Cflag__set(flags flags, lex_state lex_state, act_state act_sta
 			ZIo = ZIi;
 			/* BEGINNING OF ACTION: err-unknown-flag */
 			{
-#line 739 "src/libre/parser.act"
+#line 746 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EFLAG;
 		}
 		goto ZL1;
 	
-#line 417 "src/libre/dialect/pcre/parser.c"
+#line 424 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: err-unknown-flag */
 		}
@@ -451,7 +458,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 				{
 					/* BEGINNING OF EXTRACT: CHAR */
 					{
-#line 575 "src/libre/parser.act"
+#line 582 "src/libre/parser.act"
 
 		/* the first byte may be '\x00' */
 		assert(lex_state->buf.a[1] == '\0');
@@ -464,7 +471,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 468 "src/libre/dialect/pcre/parser.c"
+#line 475 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: CHAR */
 					ADVANCE_LEXER;
@@ -474,7 +481,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 				{
 					/* BEGINNING OF EXTRACT: CONTROL */
 					{
-#line 442 "src/libre/parser.act"
+#line 449 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
@@ -516,20 +523,20 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 		(void) ZIstart;
 		(void) ZIend;
 	
-#line 520 "src/libre/dialect/pcre/parser.c"
+#line 527 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: CONTROL */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: err-unsupported */
 					{
-#line 760 "src/libre/parser.act"
+#line 767 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EUNSUPPORTED;
 		}
 		goto ZL1;
 	
-#line 533 "src/libre/dialect/pcre/parser.c"
+#line 540 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: err-unsupported */
 				}
@@ -538,7 +545,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 				{
 					/* BEGINNING OF EXTRACT: ESC */
 					{
-#line 386 "src/libre/parser.act"
+#line 393 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
 		/* the character escaped may be a NUL */
@@ -564,7 +571,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 		(void) ZIstart;
 		(void) ZIend;
 	
-#line 568 "src/libre/dialect/pcre/parser.c"
+#line 575 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: ESC */
 					ADVANCE_LEXER;
@@ -574,7 +581,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 				{
 					/* BEGINNING OF EXTRACT: HEX */
 					{
-#line 527 "src/libre/parser.act"
+#line 534 "src/libre/parser.act"
 
 		unsigned long u;
 		char *s, *e;
@@ -622,7 +629,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 626 "src/libre/dialect/pcre/parser.c"
+#line 633 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: HEX */
 					ADVANCE_LEXER;
@@ -632,7 +639,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 				{
 					/* BEGINNING OF EXTRACT: OCT */
 					{
-#line 484 "src/libre/parser.act"
+#line 491 "src/libre/parser.act"
 
 		unsigned long u;
 		char *s, *e;
@@ -675,7 +682,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 679 "src/libre/dialect/pcre/parser.c"
+#line 686 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: OCT */
 					ADVANCE_LEXER;
@@ -685,7 +692,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 				{
 					/* BEGINNING OF EXTRACT: UNSUPPORTED */
 					{
-#line 426 "src/libre/parser.act"
+#line 433 "src/libre/parser.act"
 
 		/* handle \1-\9 back references */
 		if (lex_state->buf.a[0] == '\\' && lex_state->buf.a[1] != '\0' && lex_state->buf.a[2] == '\0') {
@@ -701,20 +708,20 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 		(void) ZIstart;
 		(void) ZIend;
 	
-#line 705 "src/libre/dialect/pcre/parser.c"
+#line 712 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: UNSUPPORTED */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: err-unsupported */
 					{
-#line 760 "src/libre/parser.act"
+#line 767 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EUNSUPPORTED;
 		}
 		goto ZL1;
 	
-#line 718 "src/libre/dialect/pcre/parser.c"
+#line 725 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: err-unsupported */
 				}
@@ -726,12 +733,12 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 		/* END OF INLINE: 155 */
 		/* BEGINNING OF ACTION: ast-range-endpoint-literal */
 		{
-#line 839 "src/libre/parser.act"
+#line 846 "src/libre/parser.act"
 
 		(ZIr).type = AST_ENDPOINT_LITERAL;
 		(ZIr).u.literal.c = (unsigned char) (ZIc);
 	
-#line 735 "src/libre/dialect/pcre/parser.c"
+#line 742 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-range-endpoint-literal */
 	}
@@ -762,13 +769,13 @@ ZL2_expr_C_Ccharacter_Hclass_C_Clist_Hof_Hclass_Hterms:;
 			}
 			/* BEGINNING OF ACTION: ast-add-alt */
 			{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZIclass), (ZInode))) {
 			goto ZL1;
 		}
 	
-#line 772 "src/libre/dialect/pcre/parser.c"
+#line 779 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 			/* BEGINNING OF INLINE: expr::character-class::list-of-class-terms */
@@ -822,13 +829,13 @@ ZL2_expr_C_Clist_Hof_Hpieces:;
 					}
 					/* BEGINNING OF ACTION: ast-add-concat */
 					{
-#line 1040 "src/libre/parser.act"
+#line 1047 "src/libre/parser.act"
 
 		if (!ast_add_expr_concat((ZIcat), (ZIa))) {
 			goto ZL1;
 		}
 	
-#line 832 "src/libre/dialect/pcre/parser.c"
+#line 839 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-add-concat */
 				}
@@ -874,14 +881,14 @@ p_293(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 		{
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1040 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_named(act_state->poolp, *flags, (*ZI290));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 885 "src/libre/dialect/pcre/parser.c"
+#line 892 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 		}
@@ -894,12 +901,12 @@ p_293(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 
 			/* BEGINNING OF ACTION: ast-range-endpoint-class */
 			{
-#line 844 "src/libre/parser.act"
+#line 851 "src/libre/parser.act"
 
 		(ZIlower).type = AST_ENDPOINT_NAMED;
 		(ZIlower).u.named.class = (*ZI290);
 	
-#line 903 "src/libre/dialect/pcre/parser.c"
+#line 910 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-class */
 			p_168 (flags, lex_state, act_state, err);
@@ -910,17 +917,17 @@ p_293(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 			}
 			/* BEGINNING OF ACTION: mark-range */
 			{
-#line 772 "src/libre/parser.act"
+#line 779 "src/libre/parser.act"
 
 		mark(&act_state->rangestart, &(*ZI291));
 		mark(&act_state->rangeend,   &(ZIend));
 	
-#line 919 "src/libre/dialect/pcre/parser.c"
+#line 926 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: mark-range */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
-#line 1004 "src/libre/parser.act"
+#line 1011 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -949,7 +956,7 @@ p_293(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 			goto ZL1;
 		}
 	
-#line 953 "src/libre/dialect/pcre/parser.c"
+#line 960 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -980,7 +987,7 @@ p_168(flags flags, lex_state lex_state, act_state act_state, err err)
 		case (TOK_RANGE):
 			/* BEGINNING OF EXTRACT: RANGE */
 			{
-#line 308 "src/libre/parser.act"
+#line 315 "src/libre/parser.act"
 
 		ZI169 = '-';
 		ZI170 = lex_state->lx.start;
@@ -990,7 +997,7 @@ p_168(flags flags, lex_state lex_state, act_state act_state, err err)
 		(void) ZI170;
 		(void) ZI171;
 	
-#line 994 "src/libre/dialect/pcre/parser.c"
+#line 1001 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			break;
@@ -1004,14 +1011,14 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-range */
 		{
-#line 718 "src/libre/parser.act"
+#line 725 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXRANGE;
 		}
 		goto ZL2;
 	
-#line 1015 "src/libre/dialect/pcre/parser.c"
+#line 1022 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: err-expected-range */
 	}
@@ -1043,7 +1050,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 					/* BEGINNING OF EXTRACT: CHAR */
 					{
-#line 575 "src/libre/parser.act"
+#line 582 "src/libre/parser.act"
 
 		/* the first byte may be '\x00' */
 		assert(lex_state->buf.a[1] == '\0');
@@ -1056,7 +1063,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 1060 "src/libre/dialect/pcre/parser.c"
+#line 1067 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: CHAR */
 					ADVANCE_LEXER;
@@ -1069,7 +1076,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 					/* BEGINNING OF EXTRACT: CONTROL */
 					{
-#line 442 "src/libre/parser.act"
+#line 449 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
@@ -1111,7 +1118,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 		(void) ZI123;
 		(void) ZI124;
 	
-#line 1115 "src/libre/dialect/pcre/parser.c"
+#line 1122 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: CONTROL */
 					ADVANCE_LEXER;
@@ -1124,7 +1131,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 					/* BEGINNING OF EXTRACT: ESC */
 					{
-#line 386 "src/libre/parser.act"
+#line 393 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
 		/* the character escaped may be a NUL */
@@ -1150,7 +1157,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 		(void) ZI113;
 		(void) ZI114;
 	
-#line 1154 "src/libre/dialect/pcre/parser.c"
+#line 1161 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: ESC */
 					ADVANCE_LEXER;
@@ -1163,7 +1170,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 					/* BEGINNING OF EXTRACT: HEX */
 					{
-#line 527 "src/libre/parser.act"
+#line 534 "src/libre/parser.act"
 
 		unsigned long u;
 		char *s, *e;
@@ -1211,7 +1218,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 1215 "src/libre/dialect/pcre/parser.c"
+#line 1222 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: HEX */
 					ADVANCE_LEXER;
@@ -1224,7 +1231,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 					/* BEGINNING OF EXTRACT: NOESC */
 					{
-#line 412 "src/libre/parser.act"
+#line 419 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
 		/* the character escaped may be a NUL */
@@ -1238,7 +1245,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 		(void) ZI115;
 		(void) ZI116;
 	
-#line 1242 "src/libre/dialect/pcre/parser.c"
+#line 1249 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: NOESC */
 					ADVANCE_LEXER;
@@ -1251,7 +1258,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 					/* BEGINNING OF EXTRACT: OCT */
 					{
-#line 484 "src/libre/parser.act"
+#line 491 "src/libre/parser.act"
 
 		unsigned long u;
 		char *s, *e;
@@ -1294,7 +1301,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 1298 "src/libre/dialect/pcre/parser.c"
+#line 1305 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: OCT */
 					ADVANCE_LEXER;
@@ -1307,7 +1314,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 					/* BEGINNING OF EXTRACT: UNSUPPORTED */
 					{
-#line 426 "src/libre/parser.act"
+#line 433 "src/libre/parser.act"
 
 		/* handle \1-\9 back references */
 		if (lex_state->buf.a[0] == '\\' && lex_state->buf.a[1] != '\0' && lex_state->buf.a[2] == '\0') {
@@ -1323,20 +1330,20 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 		(void) ZI125;
 		(void) ZI126;
 	
-#line 1327 "src/libre/dialect/pcre/parser.c"
+#line 1334 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: UNSUPPORTED */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: err-unsupported */
 					{
-#line 760 "src/libre/parser.act"
+#line 767 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EUNSUPPORTED;
 		}
 		goto ZL1;
 	
-#line 1340 "src/libre/dialect/pcre/parser.c"
+#line 1347 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: err-unsupported */
 				}
@@ -1348,14 +1355,14 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 		/* END OF INLINE: 111 */
 		/* BEGINNING OF ACTION: ast-make-literal */
 		{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1359 "src/libre/dialect/pcre/parser.c"
+#line 1366 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-literal */
 	}
@@ -1381,7 +1388,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 			/* BEGINNING OF EXTRACT: CHAR */
 			{
-#line 575 "src/libre/parser.act"
+#line 582 "src/libre/parser.act"
 
 		/* the first byte may be '\x00' */
 		assert(lex_state->buf.a[1] == '\0');
@@ -1394,7 +1401,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		ZI306 = lex_state->buf.a[0];
 	
-#line 1398 "src/libre/dialect/pcre/parser.c"
+#line 1405 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: CHAR */
 			ADVANCE_LEXER;
@@ -1413,7 +1420,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 			/* BEGINNING OF EXTRACT: CONTROL */
 			{
-#line 442 "src/libre/parser.act"
+#line 449 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
@@ -1455,20 +1462,20 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 		(void) ZI311;
 		(void) ZI312;
 	
-#line 1459 "src/libre/dialect/pcre/parser.c"
+#line 1466 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: CONTROL */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: err-unsupported */
 			{
-#line 760 "src/libre/parser.act"
+#line 767 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EUNSUPPORTED;
 		}
 		goto ZL1;
 	
-#line 1472 "src/libre/dialect/pcre/parser.c"
+#line 1479 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: err-unsupported */
 			p_317 (flags, lex_state, act_state, err, &ZI310, &ZI311, &ZInode);
@@ -1486,7 +1493,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 			/* BEGINNING OF EXTRACT: ESC */
 			{
-#line 386 "src/libre/parser.act"
+#line 393 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
 		/* the character escaped may be a NUL */
@@ -1512,7 +1519,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 		(void) ZI295;
 		(void) ZI296;
 	
-#line 1516 "src/libre/dialect/pcre/parser.c"
+#line 1523 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: ESC */
 			ADVANCE_LEXER;
@@ -1531,7 +1538,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 			/* BEGINNING OF EXTRACT: HEX */
 			{
-#line 527 "src/libre/parser.act"
+#line 534 "src/libre/parser.act"
 
 		unsigned long u;
 		char *s, *e;
@@ -1579,7 +1586,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		ZI302 = (char) (unsigned char) u;
 	
-#line 1583 "src/libre/dialect/pcre/parser.c"
+#line 1590 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: HEX */
 			ADVANCE_LEXER;
@@ -1598,7 +1605,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 			/* BEGINNING OF EXTRACT: NAMED_CLASS */
 			{
-#line 647 "src/libre/parser.act"
+#line 654 "src/libre/parser.act"
 
 		ZI290 = DIALECT_CLASS(lex_state->buf.a);
 		if (ZI290 == NULL) {
@@ -1612,7 +1619,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 		(void) ZI291;
 		(void) ZI292;
 	
-#line 1616 "src/libre/dialect/pcre/parser.c"
+#line 1623 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: NAMED_CLASS */
 			ADVANCE_LEXER;
@@ -1631,7 +1638,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 			/* BEGINNING OF EXTRACT: NOESC */
 			{
-#line 412 "src/libre/parser.act"
+#line 419 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
 		/* the character escaped may be a NUL */
@@ -1645,20 +1652,20 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 		(void) ZI134;
 		(void) ZI135;
 	
-#line 1649 "src/libre/dialect/pcre/parser.c"
+#line 1656 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: NOESC */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1662 "src/libre/dialect/pcre/parser.c"
+#line 1669 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -1671,7 +1678,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 			/* BEGINNING OF EXTRACT: OCT */
 			{
-#line 484 "src/libre/parser.act"
+#line 491 "src/libre/parser.act"
 
 		unsigned long u;
 		char *s, *e;
@@ -1714,7 +1721,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		ZI298 = (char) (unsigned char) u;
 	
-#line 1718 "src/libre/dialect/pcre/parser.c"
+#line 1725 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: OCT */
 			ADVANCE_LEXER;
@@ -1733,7 +1740,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 			/* BEGINNING OF EXTRACT: UNSUPPORTED */
 			{
-#line 426 "src/libre/parser.act"
+#line 433 "src/libre/parser.act"
 
 		/* handle \1-\9 back references */
 		if (lex_state->buf.a[0] == '\\' && lex_state->buf.a[1] != '\0' && lex_state->buf.a[2] == '\0') {
@@ -1749,20 +1756,20 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 		(void) ZI315;
 		(void) ZI316;
 	
-#line 1753 "src/libre/dialect/pcre/parser.c"
+#line 1760 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: UNSUPPORTED */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: err-unsupported */
 			{
-#line 760 "src/libre/parser.act"
+#line 767 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EUNSUPPORTED;
 		}
 		goto ZL1;
 	
-#line 1766 "src/libre/dialect/pcre/parser.c"
+#line 1773 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: err-unsupported */
 			p_317 (flags, lex_state, act_state, err, &ZI314, &ZI315, &ZInode);
@@ -1801,14 +1808,14 @@ p_expr_C_Ccomment(flags flags, lex_state lex_state, act_state act_state, err err
 		ADVANCE_LEXER;
 		/* BEGINNING OF ACTION: err-invalid-comment */
 		{
-#line 683 "src/libre/parser.act"
+#line 690 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EBADCOMMENT;
 		}
 		goto ZL1;
 	
-#line 1812 "src/libre/dialect/pcre/parser.c"
+#line 1819 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: err-invalid-comment */
 	}
@@ -1835,7 +1842,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hclass(flags fl
 		case (TOK_NAMED__CLASS):
 			/* BEGINNING OF EXTRACT: NAMED_CLASS */
 			{
-#line 647 "src/libre/parser.act"
+#line 654 "src/libre/parser.act"
 
 		ZIid = DIALECT_CLASS(lex_state->buf.a);
 		if (ZIid == NULL) {
@@ -1849,7 +1856,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hclass(flags fl
 		(void) ZIstart;
 		(void) ZIend;
 	
-#line 1853 "src/libre/dialect/pcre/parser.c"
+#line 1860 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: NAMED_CLASS */
 			break;
@@ -1859,12 +1866,12 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hclass(flags fl
 		ADVANCE_LEXER;
 		/* BEGINNING OF ACTION: ast-range-endpoint-class */
 		{
-#line 844 "src/libre/parser.act"
+#line 851 "src/libre/parser.act"
 
 		(ZIr).type = AST_ENDPOINT_NAMED;
 		(ZIr).u.named.class = (ZIid);
 	
-#line 1868 "src/libre/dialect/pcre/parser.c"
+#line 1875 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-range-endpoint-class */
 	}
@@ -1899,7 +1906,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 					/* BEGINNING OF EXTRACT: OPENGROUP */
 					{
-#line 318 "src/libre/parser.act"
+#line 325 "src/libre/parser.act"
 
 		ZIstart = lex_state->lx.start;
 		ZI181   = lex_state->lx.end;
@@ -1907,20 +1914,20 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIstart;
 		(void) ZI181;
 	
-#line 1911 "src/libre/dialect/pcre/parser.c"
+#line 1918 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: OPENGROUP */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 874 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1924 "src/libre/dialect/pcre/parser.c"
+#line 1931 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZItmp = ZInode;
@@ -1940,7 +1947,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 					/* BEGINNING OF EXTRACT: OPENGROUPCB */
 					{
-#line 334 "src/libre/parser.act"
+#line 341 "src/libre/parser.act"
 
 		ZIstart = lex_state->lx.start;
 		ZI200   = lex_state->lx.end;
@@ -1948,30 +1955,30 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIstart;
 		(void) ZI200;
 	
-#line 1952 "src/libre/dialect/pcre/parser.c"
+#line 1959 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: OPENGROUPCB */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 874 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1965 "src/libre/dialect/pcre/parser.c"
+#line 1972 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZItmp = ZInode;
 					/* BEGINNING OF ACTION: make-literal-cbrak */
 					{
-#line 885 "src/libre/parser.act"
+#line 892 "src/libre/parser.act"
 
 		(ZIcbrak) = ']';
 	
-#line 1975 "src/libre/dialect/pcre/parser.c"
+#line 1982 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: make-literal-cbrak */
 					p_209 (flags, lex_state, act_state, err, &ZIstart, &ZIcbrak, &ZInode1);
@@ -1981,13 +1988,13 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 					}
 					/* BEGINNING OF ACTION: ast-add-alt */
 					{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZItmp), (ZInode1))) {
 			goto ZL1;
 		}
 	
-#line 1991 "src/libre/dialect/pcre/parser.c"
+#line 1998 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-add-alt */
 					p_expr_C_Ccharacter_Hclass_C_Clist_Hof_Hclass_Hterms (flags, lex_state, act_state, err, ZItmp);
@@ -2003,7 +2010,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 					/* BEGINNING OF EXTRACT: OPENGROUPINV */
 					{
-#line 326 "src/libre/parser.act"
+#line 333 "src/libre/parser.act"
 
 		ZIstart = lex_state->lx.start;
 		ZI192   = lex_state->lx.end;
@@ -2011,26 +2018,26 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIstart;
 		(void) ZI192;
 	
-#line 2015 "src/libre/dialect/pcre/parser.c"
+#line 2022 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: OPENGROUPINV */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 874 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 2028 "src/libre/dialect/pcre/parser.c"
+#line 2035 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZItmp = ZInode;
 					/* BEGINNING OF ACTION: ast-make-invert */
 					{
-#line 966 "src/libre/parser.act"
+#line 973 "src/libre/parser.act"
 
 		struct ast_expr *any;
 
@@ -2068,7 +2075,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 			goto ZL1;
 		}
 	
-#line 2072 "src/libre/dialect/pcre/parser.c"
+#line 2079 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-invert */
 					p_194 (flags, lex_state, act_state, err, &ZItmp);
@@ -2087,7 +2094,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 					/* BEGINNING OF EXTRACT: OPENGROUPINVCB */
 					{
-#line 342 "src/libre/parser.act"
+#line 349 "src/libre/parser.act"
 
 		ZIstart = lex_state->lx.start;
 		ZI207   = lex_state->lx.end;
@@ -2095,26 +2102,26 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIstart;
 		(void) ZI207;
 	
-#line 2099 "src/libre/dialect/pcre/parser.c"
+#line 2106 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: OPENGROUPINVCB */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 874 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 2112 "src/libre/dialect/pcre/parser.c"
+#line 2119 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZItmp = ZInode;
 					/* BEGINNING OF ACTION: ast-make-invert */
 					{
-#line 966 "src/libre/parser.act"
+#line 973 "src/libre/parser.act"
 
 		struct ast_expr *any;
 
@@ -2152,16 +2159,16 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 			goto ZL1;
 		}
 	
-#line 2156 "src/libre/dialect/pcre/parser.c"
+#line 2163 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-invert */
 					/* BEGINNING OF ACTION: make-literal-cbrak */
 					{
-#line 885 "src/libre/parser.act"
+#line 892 "src/libre/parser.act"
 
 		(ZIcbrak) = ']';
 	
-#line 2165 "src/libre/dialect/pcre/parser.c"
+#line 2172 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: make-literal-cbrak */
 					p_209 (flags, lex_state, act_state, err, &ZIstart, &ZIcbrak, &ZInode1);
@@ -2171,13 +2178,13 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 					}
 					/* BEGINNING OF ACTION: ast-add-alt */
 					{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZItmp), (ZInode1))) {
 			goto ZL1;
 		}
 	
-#line 2181 "src/libre/dialect/pcre/parser.c"
+#line 2188 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-add-alt */
 					p_expr_C_Ccharacter_Hclass_C_Clist_Hof_Hclass_Hterms (flags, lex_state, act_state, err, ZItmp);
@@ -2203,7 +2210,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 					/* BEGINNING OF EXTRACT: CLOSEGROUP */
 					{
-#line 350 "src/libre/parser.act"
+#line 357 "src/libre/parser.act"
 
 		ZI214 = ']';
 		ZI215 = lex_state->lx.start;
@@ -2213,18 +2220,18 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZI215;
 		(void) ZIend;
 	
-#line 2217 "src/libre/dialect/pcre/parser.c"
+#line 2224 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: CLOSEGROUP */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: mark-group */
 					{
-#line 767 "src/libre/parser.act"
+#line 774 "src/libre/parser.act"
 
 		mark(&act_state->groupstart, &(ZIstart));
 		mark(&act_state->groupend,   &(ZIend));
 	
-#line 2228 "src/libre/dialect/pcre/parser.c"
+#line 2235 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: mark-group */
 				}
@@ -2238,7 +2245,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 					/* BEGINNING OF EXTRACT: CLOSEGROUPRANGE */
 					{
-#line 360 "src/libre/parser.act"
+#line 367 "src/libre/parser.act"
 
 		ZIcrange = '-';
 		ZI217 = lex_state->lx.start;
@@ -2248,41 +2255,41 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZI217;
 		(void) ZIend;
 	
-#line 2252 "src/libre/dialect/pcre/parser.c"
+#line 2259 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: CLOSEGROUPRANGE */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-literal */
 					{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZIrange) = ast_make_expr_literal(act_state->poolp, *flags, (ZIcrange));
 		if ((ZIrange) == NULL) {
 			goto ZL4;
 		}
 	
-#line 2265 "src/libre/dialect/pcre/parser.c"
+#line 2272 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-literal */
 					/* BEGINNING OF ACTION: ast-add-alt */
 					{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZItmp), (ZIrange))) {
 			goto ZL4;
 		}
 	
-#line 2276 "src/libre/dialect/pcre/parser.c"
+#line 2283 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-add-alt */
 					/* BEGINNING OF ACTION: mark-group */
 					{
-#line 767 "src/libre/parser.act"
+#line 774 "src/libre/parser.act"
 
 		mark(&act_state->groupstart, &(ZIstart));
 		mark(&act_state->groupend,   &(ZIend));
 	
-#line 2286 "src/libre/dialect/pcre/parser.c"
+#line 2293 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: mark-group */
 				}
@@ -2295,14 +2302,14 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 			{
 				/* BEGINNING OF ACTION: err-expected-closegroup */
 				{
-#line 725 "src/libre/parser.act"
+#line 732 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXCLOSEGROUP;
 		}
 		goto ZL1;
 	
-#line 2306 "src/libre/dialect/pcre/parser.c"
+#line 2313 "src/libre/dialect/pcre/parser.c"
 				}
 				/* END OF ACTION: err-expected-closegroup */
 			}
@@ -2338,7 +2345,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_Hend(flags flags, lex_state lex_st
 
 					/* BEGINNING OF EXTRACT: RANGE */
 					{
-#line 308 "src/libre/parser.act"
+#line 315 "src/libre/parser.act"
 
 		ZIc = '-';
 		ZI163 = lex_state->lx.start;
@@ -2348,18 +2355,18 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_Hend(flags flags, lex_state lex_st
 		(void) ZI163;
 		(void) ZIend;
 	
-#line 2352 "src/libre/dialect/pcre/parser.c"
+#line 2359 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF EXTRACT: RANGE */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-range-endpoint-literal */
 					{
-#line 839 "src/libre/parser.act"
+#line 846 "src/libre/parser.act"
 
 		(ZIr).type = AST_ENDPOINT_LITERAL;
 		(ZIr).u.literal.c = (unsigned char) (ZIc);
 	
-#line 2363 "src/libre/dialect/pcre/parser.c"
+#line 2370 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-range-endpoint-literal */
 				}
@@ -2401,14 +2408,14 @@ p_317(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 		{
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (*ZI314));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 2412 "src/libre/dialect/pcre/parser.c"
+#line 2419 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -2421,12 +2428,12 @@ p_317(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 
 			/* BEGINNING OF ACTION: ast-range-endpoint-literal */
 			{
-#line 839 "src/libre/parser.act"
+#line 846 "src/libre/parser.act"
 
 		(ZIlower).type = AST_ENDPOINT_LITERAL;
 		(ZIlower).u.literal.c = (unsigned char) (*ZI314);
 	
-#line 2430 "src/libre/dialect/pcre/parser.c"
+#line 2437 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			p_168 (flags, lex_state, act_state, err);
@@ -2437,17 +2444,17 @@ p_317(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 			}
 			/* BEGINNING OF ACTION: mark-range */
 			{
-#line 772 "src/libre/parser.act"
+#line 779 "src/libre/parser.act"
 
 		mark(&act_state->rangestart, &(*ZI315));
 		mark(&act_state->rangeend,   &(ZIend));
 	
-#line 2446 "src/libre/dialect/pcre/parser.c"
+#line 2453 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: mark-range */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
-#line 1004 "src/libre/parser.act"
+#line 1011 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -2476,7 +2483,7 @@ p_317(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 			goto ZL1;
 		}
 	
-#line 2480 "src/libre/dialect/pcre/parser.c"
+#line 2487 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -2522,16 +2529,16 @@ p_expr_C_Cpiece(flags flags, lex_state lex_state, act_state act_state, err err,
 
 					/* BEGINNING OF ACTION: count-one */
 					{
-#line 820 "src/libre/parser.act"
+#line 827 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(1, 1);
 	
-#line 2530 "src/libre/dialect/pcre/parser.c"
+#line 2537 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: count-one */
 					/* BEGINNING OF ACTION: ast-make-piece */
 					{
-#line 897 "src/libre/parser.act"
+#line 904 "src/libre/parser.act"
 
 		if ((ZIc).min == 0 && (ZIc).max == 0) {
 			(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
@@ -2545,7 +2552,7 @@ p_expr_C_Cpiece(flags flags, lex_state lex_state, act_state act_state, err err,
 			goto ZL1;
 		}
 	
-#line 2549 "src/libre/dialect/pcre/parser.c"
+#line 2556 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-piece */
 				}
@@ -2578,7 +2585,7 @@ p_320(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 
 			/* BEGINNING OF EXTRACT: CLOSECOUNT */
 			{
-#line 378 "src/libre/parser.act"
+#line 385 "src/libre/parser.act"
 
 		ZI256 = lex_state->lx.start;
 		ZIend   = lex_state->lx.end;
@@ -2586,23 +2593,23 @@ p_320(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 		(void) ZI256;
 		(void) ZIend;
 	
-#line 2590 "src/libre/dialect/pcre/parser.c"
+#line 2597 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: CLOSECOUNT */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: mark-count */
 			{
-#line 777 "src/libre/parser.act"
+#line 784 "src/libre/parser.act"
 
 		mark(&act_state->countstart, &(*ZI318));
 		mark(&act_state->countend,   &(ZIend));
 	
-#line 2601 "src/libre/dialect/pcre/parser.c"
+#line 2608 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: mark-count */
 			/* BEGINNING OF ACTION: count-range */
 			{
-#line 824 "src/libre/parser.act"
+#line 831 "src/libre/parser.act"
 
 		if ((*ZIm) < (*ZIm)) {
 			err->e = RE_ENEGCOUNT;
@@ -2617,7 +2624,7 @@ p_320(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 
 		(ZIc) = ast_make_count((*ZIm), (*ZIm));
 	
-#line 2621 "src/libre/dialect/pcre/parser.c"
+#line 2628 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: count-range */
 		}
@@ -2656,14 +2663,14 @@ p_expr(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__ex
 	{
 		/* BEGINNING OF ACTION: ast-make-alt */
 		{
-#line 867 "src/libre/parser.act"
+#line 874 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 2667 "src/libre/dialect/pcre/parser.c"
+#line 2674 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-alt */
 		p_expr_C_Clist_Hof_Halts (flags, lex_state, act_state, err, ZInode);
@@ -2677,26 +2684,26 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-alts */
 		{
-#line 711 "src/libre/parser.act"
+#line 718 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXALTS;
 		}
 		goto ZL2;
 	
-#line 2688 "src/libre/dialect/pcre/parser.c"
+#line 2695 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: err-expected-alts */
 		/* BEGINNING OF ACTION: ast-make-empty */
 		{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL2;
 		}
 	
-#line 2700 "src/libre/dialect/pcre/parser.c"
+#line 2707 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -2722,7 +2729,7 @@ p_321(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 
 			/* BEGINNING OF EXTRACT: CLOSECOUNT */
 			{
-#line 378 "src/libre/parser.act"
+#line 385 "src/libre/parser.act"
 
 		ZI261 = lex_state->lx.start;
 		ZIend   = lex_state->lx.end;
@@ -2730,32 +2737,32 @@ p_321(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 		(void) ZI261;
 		(void) ZIend;
 	
-#line 2734 "src/libre/dialect/pcre/parser.c"
+#line 2741 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: CLOSECOUNT */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: mark-count */
 			{
-#line 777 "src/libre/parser.act"
+#line 784 "src/libre/parser.act"
 
 		mark(&act_state->countstart, &(*ZI318));
 		mark(&act_state->countend,   &(ZIend));
 	
-#line 2745 "src/libre/dialect/pcre/parser.c"
+#line 2752 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: mark-count */
 			/* BEGINNING OF ACTION: count-unbounded */
 			{
-#line 804 "src/libre/parser.act"
+#line 811 "src/libre/parser.act"
 
 		(ZIn) = AST_COUNT_UNBOUNDED;
 	
-#line 2754 "src/libre/dialect/pcre/parser.c"
+#line 2761 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: count-unbounded */
 			/* BEGINNING OF ACTION: count-range */
 			{
-#line 824 "src/libre/parser.act"
+#line 831 "src/libre/parser.act"
 
 		if ((ZIn) < (*ZIm)) {
 			err->e = RE_ENEGCOUNT;
@@ -2770,7 +2777,7 @@ p_321(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 
 		(ZIc) = ast_make_count((*ZIm), (ZIn));
 	
-#line 2774 "src/libre/dialect/pcre/parser.c"
+#line 2781 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: count-range */
 		}
@@ -2783,7 +2790,7 @@ p_321(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 
 			/* BEGINNING OF EXTRACT: COUNT */
 			{
-#line 627 "src/libre/parser.act"
+#line 634 "src/libre/parser.act"
 
 		unsigned long u;
 		char *e;
@@ -2803,7 +2810,7 @@ p_321(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 
 		ZIn = (unsigned int) u;
 	
-#line 2807 "src/libre/dialect/pcre/parser.c"
+#line 2814 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: COUNT */
 			ADVANCE_LEXER;
@@ -2811,7 +2818,7 @@ p_321(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 			case (TOK_CLOSECOUNT):
 				/* BEGINNING OF EXTRACT: CLOSECOUNT */
 				{
-#line 378 "src/libre/parser.act"
+#line 385 "src/libre/parser.act"
 
 		ZI259 = lex_state->lx.start;
 		ZIend   = lex_state->lx.end;
@@ -2819,7 +2826,7 @@ p_321(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 		(void) ZI259;
 		(void) ZIend;
 	
-#line 2823 "src/libre/dialect/pcre/parser.c"
+#line 2830 "src/libre/dialect/pcre/parser.c"
 				}
 				/* END OF EXTRACT: CLOSECOUNT */
 				break;
@@ -2829,17 +2836,17 @@ p_321(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: mark-count */
 			{
-#line 777 "src/libre/parser.act"
+#line 784 "src/libre/parser.act"
 
 		mark(&act_state->countstart, &(*ZI318));
 		mark(&act_state->countend,   &(ZIend));
 	
-#line 2838 "src/libre/dialect/pcre/parser.c"
+#line 2845 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: mark-count */
 			/* BEGINNING OF ACTION: count-range */
 			{
-#line 824 "src/libre/parser.act"
+#line 831 "src/libre/parser.act"
 
 		if ((ZIn) < (*ZIm)) {
 			err->e = RE_ENEGCOUNT;
@@ -2854,7 +2861,7 @@ p_321(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI3
 
 		(ZIc) = ast_make_count((*ZIm), (ZIn));
 	
-#line 2858 "src/libre/dialect/pcre/parser.c"
+#line 2865 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: count-range */
 		}
@@ -2885,7 +2892,7 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 
 			/* BEGINNING OF EXTRACT: RANGE */
 			{
-#line 308 "src/libre/parser.act"
+#line 315 "src/libre/parser.act"
 
 		ZIc = '-';
 		ZIrstart = lex_state->lx.start;
@@ -2895,7 +2902,7 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 		(void) ZIrstart;
 		(void) ZI195;
 	
-#line 2899 "src/libre/dialect/pcre/parser.c"
+#line 2906 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			ADVANCE_LEXER;
@@ -2906,14 +2913,14 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 					{
 						/* BEGINNING OF ACTION: ast-make-literal */
 						{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZInode1) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZInode1) == NULL) {
 			goto ZL1;
 		}
 	
-#line 2917 "src/libre/dialect/pcre/parser.c"
+#line 2924 "src/libre/dialect/pcre/parser.c"
 						}
 						/* END OF ACTION: ast-make-literal */
 					}
@@ -2929,17 +2936,17 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 
 						/* BEGINNING OF ACTION: ast-range-endpoint-literal */
 						{
-#line 839 "src/libre/parser.act"
+#line 846 "src/libre/parser.act"
 
 		(ZIlower).type = AST_ENDPOINT_LITERAL;
 		(ZIlower).u.literal.c = (unsigned char) (ZIc);
 	
-#line 2938 "src/libre/dialect/pcre/parser.c"
+#line 2945 "src/libre/dialect/pcre/parser.c"
 						}
 						/* END OF ACTION: ast-range-endpoint-literal */
 						/* BEGINNING OF EXTRACT: RANGE */
 						{
-#line 308 "src/libre/parser.act"
+#line 315 "src/libre/parser.act"
 
 		ZI197 = '-';
 		ZI198 = lex_state->lx.start;
@@ -2949,7 +2956,7 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 		(void) ZI198;
 		(void) ZI199;
 	
-#line 2953 "src/libre/dialect/pcre/parser.c"
+#line 2960 "src/libre/dialect/pcre/parser.c"
 						}
 						/* END OF EXTRACT: RANGE */
 						ADVANCE_LEXER;
@@ -2960,7 +2967,7 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 						}
 						/* BEGINNING OF ACTION: ast-make-range */
 						{
-#line 1004 "src/libre/parser.act"
+#line 1011 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -2989,7 +2996,7 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 			goto ZL1;
 		}
 	
-#line 2993 "src/libre/dialect/pcre/parser.c"
+#line 3000 "src/libre/dialect/pcre/parser.c"
 						}
 						/* END OF ACTION: ast-make-range */
 					}
@@ -2999,13 +3006,13 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 			/* END OF INLINE: 196 */
 			/* BEGINNING OF ACTION: ast-add-alt */
 			{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((*ZItmp), (ZInode1))) {
 			goto ZL1;
 		}
 	
-#line 3009 "src/libre/dialect/pcre/parser.c"
+#line 3016 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 		}
@@ -3044,20 +3051,20 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 		ADVANCE_LEXER;
 		/* BEGINNING OF ACTION: re-flag-none */
 		{
-#line 796 "src/libre/parser.act"
+#line 803 "src/libre/parser.act"
 
 		(ZIempty__pos) = RE_FLAGS_NONE;
 	
-#line 3052 "src/libre/dialect/pcre/parser.c"
+#line 3059 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: re-flag-none */
 		/* BEGINNING OF ACTION: re-flag-none */
 		{
-#line 796 "src/libre/parser.act"
+#line 803 "src/libre/parser.act"
 
 		(ZIempty__neg) = RE_FLAGS_NONE;
 	
-#line 3061 "src/libre/dialect/pcre/parser.c"
+#line 3068 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: re-flag-none */
 		/* BEGINNING OF INLINE: 231 */
@@ -3110,7 +3117,7 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-mask-re-flags */
 					{
-#line 926 "src/libre/parser.act"
+#line 933 "src/libre/parser.act"
 
 		/*
 		 * Note: in cases like `(?i-i)`, the negative is
@@ -3119,19 +3126,19 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 		*flags |= (ZIpos);
 		*flags &= ~(ZIneg);
 	
-#line 3123 "src/libre/dialect/pcre/parser.c"
+#line 3130 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-mask-re-flags */
 					/* BEGINNING OF ACTION: ast-make-empty */
 					{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL5;
 		}
 	
-#line 3135 "src/libre/dialect/pcre/parser.c"
+#line 3142 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-empty */
 				}
@@ -3144,16 +3151,16 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-get-re-flags */
 					{
-#line 918 "src/libre/parser.act"
+#line 925 "src/libre/parser.act"
 
 		(ZIflags) = *flags;
 	
-#line 3152 "src/libre/dialect/pcre/parser.c"
+#line 3159 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-get-re-flags */
 					/* BEGINNING OF ACTION: ast-mask-re-flags */
 					{
-#line 926 "src/libre/parser.act"
+#line 933 "src/libre/parser.act"
 
 		/*
 		 * Note: in cases like `(?i-i)`, the negative is
@@ -3162,7 +3169,7 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 		*flags |= (ZIpos);
 		*flags &= ~(ZIneg);
 	
-#line 3166 "src/libre/dialect/pcre/parser.c"
+#line 3173 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-mask-re-flags */
 					p_expr (flags, lex_state, act_state, err, &ZIe);
@@ -3172,11 +3179,11 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 					}
 					/* BEGINNING OF ACTION: ast-set-re-flags */
 					{
-#line 922 "src/libre/parser.act"
+#line 929 "src/libre/parser.act"
 
 		*flags = (ZIflags);
 	
-#line 3180 "src/libre/dialect/pcre/parser.c"
+#line 3187 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-set-re-flags */
 					switch (CURRENT_TERMINAL) {
@@ -3197,26 +3204,26 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 			{
 				/* BEGINNING OF ACTION: err-expected-closeflags */
 				{
-#line 746 "src/libre/parser.act"
+#line 753 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXCLOSEFLAGS;
 		}
 		goto ZL1;
 	
-#line 3208 "src/libre/dialect/pcre/parser.c"
+#line 3215 "src/libre/dialect/pcre/parser.c"
 				}
 				/* END OF ACTION: err-expected-closeflags */
 				/* BEGINNING OF ACTION: ast-make-empty */
 				{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 3220 "src/libre/dialect/pcre/parser.c"
+#line 3227 "src/libre/dialect/pcre/parser.c"
 				}
 				/* END OF ACTION: ast-make-empty */
 			}
@@ -3250,7 +3257,7 @@ p_expr_C_Cpiece_C_Clist_Hof_Hcounts(flags flags, lex_state lex_state, act_state
 		}
 		/* BEGINNING OF ACTION: ast-make-piece */
 		{
-#line 897 "src/libre/parser.act"
+#line 904 "src/libre/parser.act"
 
 		if ((ZIc).min == 0 && (ZIc).max == 0) {
 			(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
@@ -3264,7 +3271,7 @@ p_expr_C_Cpiece_C_Clist_Hof_Hcounts(flags flags, lex_state lex_state, act_state
 			goto ZL1;
 		}
 	
-#line 3268 "src/libre/dialect/pcre/parser.c"
+#line 3275 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-piece */
 		/* BEGINNING OF INLINE: 264 */
@@ -3275,14 +3282,14 @@ p_expr_C_Cpiece_C_Clist_Hof_Hcounts(flags flags, lex_state lex_state, act_state
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: err-unsupported */
 					{
-#line 760 "src/libre/parser.act"
+#line 767 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EUNSUPPORTED;
 		}
 		goto ZL1;
 	
-#line 3286 "src/libre/dialect/pcre/parser.c"
+#line 3293 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: err-unsupported */
 				}
@@ -3292,14 +3299,14 @@ p_expr_C_Cpiece_C_Clist_Hof_Hcounts(flags flags, lex_state lex_state, act_state
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: err-unsupported */
 					{
-#line 760 "src/libre/parser.act"
+#line 767 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EUNSUPPORTED;
 		}
 		goto ZL1;
 	
-#line 3303 "src/libre/dialect/pcre/parser.c"
+#line 3310 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: err-unsupported */
 				}
@@ -3384,7 +3391,7 @@ p_class_Hnamed(flags flags, lex_state lex_state, act_state act_state, err err, t
 		case (TOK_NAMED__CLASS):
 			/* BEGINNING OF EXTRACT: NAMED_CLASS */
 			{
-#line 647 "src/libre/parser.act"
+#line 654 "src/libre/parser.act"
 
 		ZIid = DIALECT_CLASS(lex_state->buf.a);
 		if (ZIid == NULL) {
@@ -3398,7 +3405,7 @@ p_class_Hnamed(flags flags, lex_state lex_state, act_state act_state, err err, t
 		(void) ZIstart;
 		(void) ZIend;
 	
-#line 3402 "src/libre/dialect/pcre/parser.c"
+#line 3409 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: NAMED_CLASS */
 			break;
@@ -3408,14 +3415,14 @@ p_class_Hnamed(flags flags, lex_state lex_state, act_state act_state, err err, t
 		ADVANCE_LEXER;
 		/* BEGINNING OF ACTION: ast-make-named */
 		{
-#line 1033 "src/libre/parser.act"
+#line 1040 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_named(act_state->poolp, *flags, (ZIid));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 3419 "src/libre/dialect/pcre/parser.c"
+#line 3426 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-named */
 	}
@@ -3439,14 +3446,14 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		{
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZInode1) = ast_make_expr_literal(act_state->poolp, *flags, (*ZIcbrak));
 		if ((ZInode1) == NULL) {
 			goto ZL1;
 		}
 	
-#line 3450 "src/libre/dialect/pcre/parser.c"
+#line 3457 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -3463,17 +3470,17 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 
 			/* BEGINNING OF ACTION: ast-range-endpoint-literal */
 			{
-#line 839 "src/libre/parser.act"
+#line 846 "src/libre/parser.act"
 
 		(ZIr).type = AST_ENDPOINT_LITERAL;
 		(ZIr).u.literal.c = (unsigned char) (*ZIcbrak);
 	
-#line 3472 "src/libre/dialect/pcre/parser.c"
+#line 3479 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			/* BEGINNING OF EXTRACT: RANGE */
 			{
-#line 308 "src/libre/parser.act"
+#line 315 "src/libre/parser.act"
 
 		ZI210 = '-';
 		ZI211 = lex_state->lx.start;
@@ -3483,7 +3490,7 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		(void) ZI211;
 		(void) ZI212;
 	
-#line 3487 "src/libre/dialect/pcre/parser.c"
+#line 3494 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			ADVANCE_LEXER;
@@ -3494,17 +3501,17 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 			}
 			/* BEGINNING OF ACTION: ast-range-endpoint-literal */
 			{
-#line 839 "src/libre/parser.act"
+#line 846 "src/libre/parser.act"
 
 		(ZIlower).type = AST_ENDPOINT_LITERAL;
 		(ZIlower).u.literal.c = (unsigned char) (*ZIcbrak);
 	
-#line 3503 "src/libre/dialect/pcre/parser.c"
+#line 3510 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
-#line 1004 "src/libre/parser.act"
+#line 1011 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -3533,7 +3540,7 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 			goto ZL1;
 		}
 	
-#line 3537 "src/libre/dialect/pcre/parser.c"
+#line 3544 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -3566,13 +3573,13 @@ ZL2_expr_C_Clist_Hof_Halts:;
 		}
 		/* BEGINNING OF ACTION: ast-add-alt */
 		{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZIalts), (ZIa))) {
 			goto ZL1;
 		}
 	
-#line 3576 "src/libre/dialect/pcre/parser.c"
+#line 3583 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-add-alt */
 		/* BEGINNING OF INLINE: 278 */
@@ -3597,14 +3604,14 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-alts */
 		{
-#line 711 "src/libre/parser.act"
+#line 718 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXALTS;
 		}
 		goto ZL4;
 	
-#line 3608 "src/libre/dialect/pcre/parser.c"
+#line 3615 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: err-expected-alts */
 	}
@@ -3629,7 +3636,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 			/* BEGINNING OF EXTRACT: OPENCOUNT */
 			{
-#line 370 "src/libre/parser.act"
+#line 377 "src/libre/parser.act"
 
 		ZI318 = lex_state->lx.start;
 		ZI319   = lex_state->lx.end;
@@ -3637,7 +3644,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 		(void) ZI318;
 		(void) ZI319;
 	
-#line 3641 "src/libre/dialect/pcre/parser.c"
+#line 3648 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: OPENCOUNT */
 			ADVANCE_LEXER;
@@ -3645,7 +3652,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 			case (TOK_COUNT):
 				/* BEGINNING OF EXTRACT: COUNT */
 				{
-#line 627 "src/libre/parser.act"
+#line 634 "src/libre/parser.act"
 
 		unsigned long u;
 		char *e;
@@ -3665,7 +3672,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		ZIm = (unsigned int) u;
 	
-#line 3669 "src/libre/dialect/pcre/parser.c"
+#line 3676 "src/libre/dialect/pcre/parser.c"
 				}
 				/* END OF EXTRACT: COUNT */
 				break;
@@ -3685,11 +3692,11 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: count-zero-or-one */
 			{
-#line 816 "src/libre/parser.act"
+#line 823 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(0, 1);
 	
-#line 3693 "src/libre/dialect/pcre/parser.c"
+#line 3700 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-one */
 		}
@@ -3699,11 +3706,11 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: count-one-or-more */
 			{
-#line 812 "src/libre/parser.act"
+#line 819 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(1, AST_COUNT_UNBOUNDED);
 	
-#line 3707 "src/libre/dialect/pcre/parser.c"
+#line 3714 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: count-one-or-more */
 		}
@@ -3713,11 +3720,11 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: count-zero-or-more */
 			{
-#line 808 "src/libre/parser.act"
+#line 815 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(0, AST_COUNT_UNBOUNDED);
 	
-#line 3721 "src/libre/dialect/pcre/parser.c"
+#line 3728 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-more */
 		}
@@ -3732,23 +3739,23 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-count */
 		{
-#line 697 "src/libre/parser.act"
+#line 704 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXCOUNT;
 		}
 		goto ZL2;
 	
-#line 3743 "src/libre/dialect/pcre/parser.c"
+#line 3750 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: err-expected-count */
 		/* BEGINNING OF ACTION: count-one */
 		{
-#line 820 "src/libre/parser.act"
+#line 827 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(1, 1);
 	
-#line 3752 "src/libre/dialect/pcre/parser.c"
+#line 3759 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: count-one */
 	}
@@ -3774,11 +3781,11 @@ p_re__pcre(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 
 		/* BEGINNING OF ACTION: make-group-id */
 		{
-#line 881 "src/libre/parser.act"
+#line 888 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 3782 "src/libre/dialect/pcre/parser.c"
+#line 3789 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: make-group-id */
 		p_expr (flags, lex_state, act_state, err, &ZIe);
@@ -3788,14 +3795,14 @@ p_re__pcre(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 		}
 		/* BEGINNING OF ACTION: ast-make-group */
 		{
-#line 911 "src/libre/parser.act"
+#line 918 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_group(act_state->poolp, *flags, (ZIe), (ZIid));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 3799 "src/libre/dialect/pcre/parser.c"
+#line 3806 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-group */
 		/* BEGINNING OF INLINE: 280 */
@@ -3814,14 +3821,14 @@ p_re__pcre(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 			{
 				/* BEGINNING OF ACTION: err-expected-eof */
 				{
-#line 753 "src/libre/parser.act"
+#line 760 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXEOF;
 		}
 		goto ZL1;
 	
-#line 3825 "src/libre/dialect/pcre/parser.c"
+#line 3832 "src/libre/dialect/pcre/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -3850,24 +3857,24 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: class-any */
 			{
-#line 782 "src/libre/parser.act"
+#line 789 "src/libre/parser.act"
 
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 3859 "src/libre/dialect/pcre/parser.c"
+#line 3866 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1040 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_named(act_state->poolp, *flags, (ZIa));
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 3871 "src/libre/dialect/pcre/parser.c"
+#line 3878 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 		}
@@ -3877,14 +3884,14 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-anchor-end */
 			{
-#line 942 "src/libre/parser.act"
+#line 949 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_anchor(act_state->poolp, *flags, AST_ANCHOR_END);
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 3888 "src/libre/dialect/pcre/parser.c"
+#line 3895 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-anchor-end */
 		}
@@ -3894,7 +3901,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-anchor-end-nl */
 			{
-#line 949 "src/libre/parser.act"
+#line 956 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_anchor(act_state->poolp, *flags, AST_ANCHOR_END);
 		if ((ZIe) == NULL) {
@@ -3904,7 +3911,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			(ZIe)->u.anchor.is_end_nl = 1;
 		}
 	
-#line 3908 "src/libre/dialect/pcre/parser.c"
+#line 3915 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-anchor-end-nl */
 		}
@@ -3922,134 +3929,134 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: class-bsr */
 			{
-#line 787 "src/libre/parser.act"
+#line 794 "src/libre/parser.act"
 
 		/* TODO: or the unicode equivalent */
 		(ZIclass__bsr) = &class_bsr;
 	
-#line 3931 "src/libre/dialect/pcre/parser.c"
+#line 3938 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: class-bsr */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1040 "src/libre/parser.act"
 
 		(ZIbsr) = ast_make_expr_named(act_state->poolp, *flags, (ZIclass__bsr));
 		if ((ZIbsr) == NULL) {
 			goto ZL1;
 		}
 	
-#line 3943 "src/libre/dialect/pcre/parser.c"
+#line 3950 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 			/* BEGINNING OF ACTION: ast-make-concat */
 			{
-#line 860 "src/libre/parser.act"
+#line 867 "src/libre/parser.act"
 
 		(ZIcrlf) = ast_make_expr_concat(act_state->poolp, *flags);
 		if ((ZIcrlf) == NULL) {
 			goto ZL1;
 		}
 	
-#line 3955 "src/libre/dialect/pcre/parser.c"
+#line 3962 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-concat */
 			/* BEGINNING OF ACTION: make-literal-cr */
 			{
-#line 889 "src/libre/parser.act"
+#line 896 "src/libre/parser.act"
 
 		(ZIcr) = '\r';
 	
-#line 3964 "src/libre/dialect/pcre/parser.c"
+#line 3971 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: make-literal-cr */
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZIecr) = ast_make_expr_literal(act_state->poolp, *flags, (ZIcr));
 		if ((ZIecr) == NULL) {
 			goto ZL1;
 		}
 	
-#line 3976 "src/libre/dialect/pcre/parser.c"
+#line 3983 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 			/* BEGINNING OF ACTION: make-literal-nl */
 			{
-#line 893 "src/libre/parser.act"
+#line 900 "src/libre/parser.act"
 
 		(ZInl) = '\n';
 	
-#line 3985 "src/libre/dialect/pcre/parser.c"
+#line 3992 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: make-literal-nl */
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZIenl) = ast_make_expr_literal(act_state->poolp, *flags, (ZInl));
 		if ((ZIenl) == NULL) {
 			goto ZL1;
 		}
 	
-#line 3997 "src/libre/dialect/pcre/parser.c"
+#line 4004 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 			/* BEGINNING OF ACTION: ast-add-concat */
 			{
-#line 1040 "src/libre/parser.act"
+#line 1047 "src/libre/parser.act"
 
 		if (!ast_add_expr_concat((ZIcrlf), (ZIecr))) {
 			goto ZL1;
 		}
 	
-#line 4008 "src/libre/dialect/pcre/parser.c"
+#line 4015 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-add-concat */
 			/* BEGINNING OF ACTION: ast-add-concat */
 			{
-#line 1040 "src/libre/parser.act"
+#line 1047 "src/libre/parser.act"
 
 		if (!ast_add_expr_concat((ZIcrlf), (ZIenl))) {
 			goto ZL1;
 		}
 	
-#line 4019 "src/libre/dialect/pcre/parser.c"
+#line 4026 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-add-concat */
 			/* BEGINNING OF ACTION: ast-make-alt */
 			{
-#line 867 "src/libre/parser.act"
+#line 874 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 4031 "src/libre/dialect/pcre/parser.c"
+#line 4038 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-alt */
 			/* BEGINNING OF ACTION: ast-add-alt */
 			{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZIe), (ZIcrlf))) {
 			goto ZL1;
 		}
 	
-#line 4042 "src/libre/dialect/pcre/parser.c"
+#line 4049 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 			/* BEGINNING OF ACTION: ast-add-alt */
 			{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZIe), (ZIbsr))) {
 			goto ZL1;
 		}
 	
-#line 4053 "src/libre/dialect/pcre/parser.c"
+#line 4060 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 		}
@@ -4063,20 +4070,20 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-get-re-flags */
 			{
-#line 918 "src/libre/parser.act"
+#line 925 "src/libre/parser.act"
 
 		(ZIflags) = *flags;
 	
-#line 4071 "src/libre/dialect/pcre/parser.c"
+#line 4078 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-get-re-flags */
 			/* BEGINNING OF ACTION: make-group-id */
 			{
-#line 881 "src/libre/parser.act"
+#line 888 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 4080 "src/libre/dialect/pcre/parser.c"
+#line 4087 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: make-group-id */
 			p_expr (flags, lex_state, act_state, err, &ZIg);
@@ -4086,23 +4093,23 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			}
 			/* BEGINNING OF ACTION: ast-set-re-flags */
 			{
-#line 922 "src/libre/parser.act"
+#line 929 "src/libre/parser.act"
 
 		*flags = (ZIflags);
 	
-#line 4094 "src/libre/dialect/pcre/parser.c"
+#line 4101 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-set-re-flags */
 			/* BEGINNING OF ACTION: ast-make-group */
 			{
-#line 911 "src/libre/parser.act"
+#line 918 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_group(act_state->poolp, *flags, (ZIg), (ZIid));
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 4106 "src/libre/dialect/pcre/parser.c"
+#line 4113 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-group */
 			switch (CURRENT_TERMINAL) {
@@ -4119,14 +4126,14 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-anchor-start */
 			{
-#line 935 "src/libre/parser.act"
+#line 942 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_anchor(act_state->poolp, *flags, AST_ANCHOR_START);
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 4130 "src/libre/dialect/pcre/parser.c"
+#line 4137 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-anchor-start */
 		}
@@ -4178,26 +4185,26 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-atom */
 		{
-#line 704 "src/libre/parser.act"
+#line 711 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXATOM;
 		}
 		goto ZL2;
 	
-#line 4189 "src/libre/dialect/pcre/parser.c"
+#line 4196 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: err-expected-atom */
 		/* BEGINNING OF ACTION: ast-make-empty */
 		{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
 			goto ZL2;
 		}
 	
-#line 4201 "src/libre/dialect/pcre/parser.c"
+#line 4208 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -4223,14 +4230,14 @@ p_expr_C_Calt(flags flags, lex_state lex_state, act_state act_state, err err, t_
 		{
 			/* BEGINNING OF ACTION: ast-make-concat */
 			{
-#line 860 "src/libre/parser.act"
+#line 867 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_concat(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 4234 "src/libre/dialect/pcre/parser.c"
+#line 4241 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-concat */
 			p_expr_C_Clist_Hof_Hpieces (flags, lex_state, act_state, err, ZInode);
@@ -4244,14 +4251,14 @@ p_expr_C_Calt(flags flags, lex_state lex_state, act_state act_state, err err, t_
 		{
 			/* BEGINNING OF ACTION: ast-make-empty */
 			{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 4255 "src/libre/dialect/pcre/parser.c"
+#line 4262 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-empty */
 		}
@@ -4287,25 +4294,25 @@ p_expr_C_Ctype(flags flags, lex_state lex_state, act_state act_state, err err, t
 		}
 		/* BEGINNING OF ACTION: ast-make-alt */
 		{
-#line 867 "src/libre/parser.act"
+#line 874 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 4298 "src/libre/dialect/pcre/parser.c"
+#line 4305 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-alt */
 		/* BEGINNING OF ACTION: ast-add-alt */
 		{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZInode), (ZIclass))) {
 			goto ZL1;
 		}
 	
-#line 4309 "src/libre/dialect/pcre/parser.c"
+#line 4316 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-add-alt */
 	}
@@ -4319,7 +4326,7 @@ ZL0:;
 
 /* BEGINNING OF TRAILER */
 
-#line 1052 "src/libre/parser.act"
+#line 1059 "src/libre/parser.act"
 
 
 	static int
@@ -4337,6 +4344,23 @@ ZL0:;
 		return lex_state->f(lex_state->opaque);
 	}
 
+	/* The lexer presents a failure to push as if it were EOF. */
+	static int
+	lpush(void *buf_opaque, char c)
+	{
+		struct lex_state *lex_state;
+
+		assert(buf_opaque != NULL);
+
+		if (-1 == CAT(LX_PREFIX, _dynpush)(buf_opaque, c)) {
+			lex_state = (struct lex_state *) ((char *) buf_opaque - offsetof(struct lex_state, buf));
+			lex_state->error = 1;
+			return -1;
+		}
+
+		return 0;
+	}
+
 	struct ast *
 	DIALECT_PARSE(re_getchar_fun *f, void *opaque,
 		enum re_flags flags, int overlap,
@@ -4355,12 +4379,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -4377,10 +4405,12 @@ ZL0:;
 		lex_state->buf.a   = NULL;
 		lex_state->buf.len = 0;
 
+		lex_state->error   = 0;
+
 		/* XXX: unneccessary since we're lexing from a string */
 		/* (except for pushing "[" and "]" around ::group-$dialect) */
 		lx->buf_opaque = &lex_state->buf;
-		lx->push       = CAT(LX_PREFIX, _dynpush);
+		lx->push       = lpush;
 		lx->clear      = CAT(LX_PREFIX, _dynclear);
 		lx->free       = CAT(LX_PREFIX, _dynfree);
 
@@ -4412,15 +4442,20 @@ ZL0:;
 
 		lx->free(lx->buf_opaque);
 
+		/* this takes precedence over whatever the parser made of it */
+		if (lex_state->error) {
+			err->e = RE_EERRNO;
+		}
+
 		if (err->e != RE_ESUCCESS) {
 			/* TODO: free internals allocated during parsing (are there any?) */
 			goto error;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* An action failed with no error of its own to report,
+			 * which is to say for want of memory. */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -4475,6 +4510,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 4479 "src/libre/dialect/pcre/parser.c"
+#line 4514 "src/libre/dialect/pcre/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/sql/parser.c b/src/libre/dialect/sql/parser.c
index a18b6a9..06c4929 100644
--- a/src/libre/dialect/sql/parser.c
+++ b/src/libre/dialect/sql/parser.c
@@ -124,6 +124,9 @@
 		/* TODO: use lx's generated conveniences for the pattern buffer */
 		char a[512];
 		char *p;
+
+		/* A failure to lex, rather than something the lexer doesn't recognise. */
+		int error;
 	};
 
 	static void
@@ -202,6 +205,10 @@
 		mark(&act_state->synstart, &lex_state->lx.start);
 		mark(&act_state->synend,   &lex_state->lx.end);
 		act_state->lex_tok = LX_NEXT(&lex_state->lx);
+
+		if (act_state->lex_tok == TOK_ERROR) {
+			lex_state->error = 1;
+		}
 	}
 
 	static enum LX_TOKEN
@@ -269,7 +276,7 @@
 	                              act_state->lex_tok = tok;                     } while (0)
 	#define RESTORE_LEXER    do { act_state->lex_tok = act_state->lex_tok_save; } while (0)
 
-#line 273 "src/libre/dialect/sql/parser.c"
+#line 280 "src/libre/dialect/sql/parser.c"
 
 
 #ifndef ERROR_TERMINAL
@@ -311,13 +318,13 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hhead(flags flags, lex_state lex_state, act_
 
 			/* BEGINNING OF EXTRACT: INVERT */
 			{
-#line 302 "src/libre/parser.act"
+#line 309 "src/libre/parser.act"
 
 		ZI203 = '^';
 
 		(void) ZI203;
 	
-#line 321 "src/libre/dialect/sql/parser.c"
+#line 328 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: INVERT */
 			ADVANCE_LEXER;
@@ -337,7 +344,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hhead(flags flags, lex_state lex_state, act_
 
 			/* BEGINNING OF EXTRACT: RANGE */
 			{
-#line 308 "src/libre/parser.act"
+#line 315 "src/libre/parser.act"
 
 		ZIc = '-';
 		ZI114 = lex_state->lx.start;
@@ -347,31 +354,31 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hhead(flags flags, lex_state lex_state, act_
 		(void) ZI114;
 		(void) ZI115;
 	
-#line 351 "src/libre/dialect/sql/parser.c"
+#line 358 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 364 "src/libre/dialect/sql/parser.c"
+#line 371 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 			/* BEGINNING OF ACTION: ast-add-alt */
 			{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((*ZIclass), (ZInode))) {
 			goto ZL1;
 		}
 	
-#line 375 "src/libre/dialect/sql/parser.c"
+#line 382 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 		}
@@ -401,11 +408,11 @@ p_re__sql(flags flags, lex_state lex_state, act_state act_state, err err, t_ast_
 
 		/* BEGINNING OF ACTION: make-group-id */
 		{
-#line 881 "src/libre/parser.act"
+#line 888 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 409 "src/libre/dialect/sql/parser.c"
+#line 416 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: make-group-id */
 		p_expr (flags, lex_state, act_state, err, &ZIe);
@@ -415,14 +422,14 @@ p_re__sql(flags flags, lex_state lex_state, act_state act_state, err err, t_ast_
 		}
 		/* BEGINNING OF ACTION: ast-make-group */
 		{
-#line 911 "src/libre/parser.act"
+#line 918 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_group(act_state->poolp, *flags, (ZIe), (ZIid));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 426 "src/libre/dialect/sql/parser.c"
+#line 433 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-make-group */
 		/* BEGINNING OF INLINE: 191 */
@@ -441,14 +448,14 @@ p_re__sql(flags flags, lex_state lex_state, act_state act_state, err err, t_ast_
 			{
 				/* BEGINNING OF ACTION: err-expected-eof */
 				{
-#line 753 "src/libre/parser.act"
+#line 760 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXEOF;
 		}
 		goto ZL1;
 	
-#line 452 "src/libre/dialect/sql/parser.c"
+#line 459 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -484,13 +491,13 @@ ZL2_expr_C_Ccharacter_Hclass_C_Clist_Hof_Hclass_Hterms:;
 				}
 				/* BEGINNING OF ACTION: ast-add-alt */
 				{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZIclass), (ZInode))) {
 			goto ZL4;
 		}
 	
-#line 494 "src/libre/dialect/sql/parser.c"
+#line 501 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF ACTION: ast-add-alt */
 			}
@@ -499,14 +506,14 @@ ZL2_expr_C_Ccharacter_Hclass_C_Clist_Hof_Hclass_Hterms:;
 			{
 				/* BEGINNING OF ACTION: err-expected-term */
 				{
-#line 690 "src/libre/parser.act"
+#line 697 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXTERM;
 		}
 		goto ZL1;
 	
-#line 510 "src/libre/dialect/sql/parser.c"
+#line 517 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF ACTION: err-expected-term */
 			}
@@ -560,13 +567,13 @@ ZL2_expr_C_Clist_Hof_Hpieces:;
 		}
 		/* BEGINNING OF ACTION: ast-add-concat */
 		{
-#line 1040 "src/libre/parser.act"
+#line 1047 "src/libre/parser.act"
 
 		if (!ast_add_expr_concat((ZIcat), (ZIa))) {
 			goto ZL1;
 		}
 	
-#line 570 "src/libre/dialect/sql/parser.c"
+#line 577 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-add-concat */
 		/* BEGINNING OF INLINE: 183 */
@@ -606,7 +613,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 			/* BEGINNING OF EXTRACT: CHAR */
 			{
-#line 575 "src/libre/parser.act"
+#line 582 "src/libre/parser.act"
 
 		/* the first byte may be '\x00' */
 		assert(lex_state->buf.a[1] == '\0');
@@ -619,7 +626,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		ZI205 = lex_state->buf.a[0];
 	
-#line 623 "src/libre/dialect/sql/parser.c"
+#line 630 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: CHAR */
 			ADVANCE_LEXER;
@@ -670,7 +677,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		case (TOK_OPENGROUP):
 			/* BEGINNING OF EXTRACT: OPENGROUP */
 			{
-#line 318 "src/libre/parser.act"
+#line 325 "src/libre/parser.act"
 
 		ZIopen__start = lex_state->lx.start;
 		ZIopen__end   = lex_state->lx.end;
@@ -678,7 +685,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIopen__start;
 		(void) ZIopen__end;
 	
-#line 682 "src/libre/dialect/sql/parser.c"
+#line 689 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: OPENGROUP */
 			break;
@@ -688,14 +695,14 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		ADVANCE_LEXER;
 		/* BEGINNING OF ACTION: ast-make-alt */
 		{
-#line 867 "src/libre/parser.act"
+#line 874 "src/libre/parser.act"
 
 		(ZIclass) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZIclass) == NULL) {
 			goto ZL1;
 		}
 	
-#line 699 "src/libre/dialect/sql/parser.c"
+#line 706 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-make-alt */
 		ZItmp = ZIclass;
@@ -713,7 +720,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 					/* BEGINNING OF EXTRACT: CLOSEGROUP */
 					{
-#line 350 "src/libre/parser.act"
+#line 357 "src/libre/parser.act"
 
 		ZI154 = ']';
 		ZIclose__start = lex_state->lx.start;
@@ -723,18 +730,18 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIclose__start;
 		(void) ZIclose__end;
 	
-#line 727 "src/libre/dialect/sql/parser.c"
+#line 734 "src/libre/dialect/sql/parser.c"
 					}
 					/* END OF EXTRACT: CLOSEGROUP */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: mark-group */
 					{
-#line 767 "src/libre/parser.act"
+#line 774 "src/libre/parser.act"
 
 		mark(&act_state->groupstart, &(ZIopen__start));
 		mark(&act_state->groupend,   &(ZIclose__end));
 	
-#line 738 "src/libre/dialect/sql/parser.c"
+#line 745 "src/libre/dialect/sql/parser.c"
 					}
 					/* END OF ACTION: mark-group */
 					ZInode = ZIclass;
@@ -748,26 +755,26 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 
 					/* BEGINNING OF EXTRACT: INVERT */
 					{
-#line 302 "src/libre/parser.act"
+#line 309 "src/libre/parser.act"
 
 		ZI158 = '^';
 
 		(void) ZI158;
 	
-#line 758 "src/libre/dialect/sql/parser.c"
+#line 765 "src/libre/dialect/sql/parser.c"
 					}
 					/* END OF EXTRACT: INVERT */
 					ADVANCE_LEXER;
 					/* BEGINNING OF ACTION: ast-make-alt */
 					{
-#line 867 "src/libre/parser.act"
+#line 874 "src/libre/parser.act"
 
 		(ZImask) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZImask) == NULL) {
 			goto ZL3;
 		}
 	
-#line 771 "src/libre/dialect/sql/parser.c"
+#line 778 "src/libre/dialect/sql/parser.c"
 					}
 					/* END OF ACTION: ast-make-alt */
 					ZImask__tmp = ZImask;
@@ -789,7 +796,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 							case (TOK_CLOSEGROUP):
 								/* BEGINNING OF EXTRACT: CLOSEGROUP */
 								{
-#line 350 "src/libre/parser.act"
+#line 357 "src/libre/parser.act"
 
 		ZI163 = ']';
 		ZIclose__start = lex_state->lx.start;
@@ -799,7 +806,7 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 		(void) ZIclose__start;
 		(void) ZIclose__end;
 	
-#line 803 "src/libre/dialect/sql/parser.c"
+#line 810 "src/libre/dialect/sql/parser.c"
 								}
 								/* END OF EXTRACT: CLOSEGROUP */
 								break;
@@ -809,12 +816,12 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 							ADVANCE_LEXER;
 							/* BEGINNING OF ACTION: mark-group */
 							{
-#line 767 "src/libre/parser.act"
+#line 774 "src/libre/parser.act"
 
 		mark(&act_state->groupstart, &(ZIopen__start));
 		mark(&act_state->groupend,   &(ZIclose__end));
 	
-#line 818 "src/libre/dialect/sql/parser.c"
+#line 825 "src/libre/dialect/sql/parser.c"
 							}
 							/* END OF ACTION: mark-group */
 						}
@@ -823,14 +830,14 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 						{
 							/* BEGINNING OF ACTION: err-expected-closegroup */
 							{
-#line 725 "src/libre/parser.act"
+#line 732 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXCLOSEGROUP;
 		}
 		goto ZL3;
 	
-#line 834 "src/libre/dialect/sql/parser.c"
+#line 841 "src/libre/dialect/sql/parser.c"
 							}
 							/* END OF ACTION: err-expected-closegroup */
 						}
@@ -839,14 +846,14 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 					/* END OF INLINE: 162 */
 					/* BEGINNING OF ACTION: ast-make-subtract */
 					{
-#line 959 "src/libre/parser.act"
+#line 966 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_subtract(act_state->poolp, *flags, (ZIclass), (ZImask));
 		if ((ZInode) == NULL) {
 			goto ZL3;
 		}
 	
-#line 850 "src/libre/dialect/sql/parser.c"
+#line 857 "src/libre/dialect/sql/parser.c"
 					}
 					/* END OF ACTION: ast-make-subtract */
 				}
@@ -862,26 +869,26 @@ p_expr_C_Ccharacter_Hclass(flags flags, lex_state lex_state, act_state act_state
 			{
 				/* BEGINNING OF ACTION: err-expected-closegroup */
 				{
-#line 725 "src/libre/parser.act"
+#line 732 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXCLOSEGROUP;
 		}
 		goto ZL1;
 	
-#line 873 "src/libre/dialect/sql/parser.c"
+#line 880 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF ACTION: err-expected-closegroup */
 				/* BEGINNING OF ACTION: ast-make-empty */
 				{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 885 "src/libre/dialect/sql/parser.c"
+#line 892 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF ACTION: ast-make-empty */
 			}
@@ -917,7 +924,7 @@ p_expr_C_Cpiece(flags flags, lex_state lex_state, act_state act_state, err err,
 		}
 		/* BEGINNING OF ACTION: ast-make-piece */
 		{
-#line 897 "src/libre/parser.act"
+#line 904 "src/libre/parser.act"
 
 		if ((ZIc).min == 0 && (ZIc).max == 0) {
 			(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
@@ -931,7 +938,7 @@ p_expr_C_Cpiece(flags flags, lex_state lex_state, act_state act_state, err err,
 			goto ZL1;
 		}
 	
-#line 935 "src/libre/dialect/sql/parser.c"
+#line 942 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-make-piece */
 	}
@@ -954,14 +961,14 @@ p_expr(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__ex
 	{
 		/* BEGINNING OF ACTION: ast-make-alt */
 		{
-#line 867 "src/libre/parser.act"
+#line 874 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_alt(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 965 "src/libre/dialect/sql/parser.c"
+#line 972 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-make-alt */
 		p_expr_C_Clist_Hof_Halts (flags, lex_state, act_state, err, ZInode);
@@ -975,26 +982,26 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-alts */
 		{
-#line 711 "src/libre/parser.act"
+#line 718 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXALTS;
 		}
 		goto ZL2;
 	
-#line 986 "src/libre/dialect/sql/parser.c"
+#line 993 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: err-expected-alts */
 		/* BEGINNING OF ACTION: ast-make-empty */
 		{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL2;
 		}
 	
-#line 998 "src/libre/dialect/sql/parser.c"
+#line 1005 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -1019,7 +1026,7 @@ p_204(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 
 			/* BEGINNING OF EXTRACT: RANGE */
 			{
-#line 308 "src/libre/parser.act"
+#line 315 "src/libre/parser.act"
 
 		ZIc = '-';
 		ZI117 = lex_state->lx.start;
@@ -1029,36 +1036,36 @@ p_204(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 		(void) ZI117;
 		(void) ZI118;
 	
-#line 1033 "src/libre/dialect/sql/parser.c"
+#line 1040 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (ZIc));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1046 "src/libre/dialect/sql/parser.c"
+#line 1053 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 			/* BEGINNING OF ACTION: ast-add-alt */
 			{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((*ZIclass), (ZInode))) {
 			goto ZL1;
 		}
 	
-#line 1057 "src/libre/dialect/sql/parser.c"
+#line 1064 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 			/* BEGINNING OF ACTION: ast-make-invert */
 			{
-#line 966 "src/libre/parser.act"
+#line 973 "src/libre/parser.act"
 
 		struct ast_expr *any;
 
@@ -1096,7 +1103,7 @@ p_204(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 			goto ZL1;
 		}
 	
-#line 1100 "src/libre/dialect/sql/parser.c"
+#line 1107 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-invert */
 		}
@@ -1105,7 +1112,7 @@ p_204(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 		{
 			/* BEGINNING OF ACTION: ast-make-invert */
 			{
-#line 966 "src/libre/parser.act"
+#line 973 "src/libre/parser.act"
 
 		struct ast_expr *any;
 
@@ -1143,7 +1150,7 @@ p_204(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 			goto ZL1;
 		}
 	
-#line 1147 "src/libre/dialect/sql/parser.c"
+#line 1154 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-invert */
 		}
@@ -1167,14 +1174,14 @@ p_208(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 		{
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_literal(act_state->poolp, *flags, (*ZI205));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1178 "src/libre/dialect/sql/parser.c"
+#line 1185 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -1192,17 +1199,17 @@ p_208(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 
 			/* BEGINNING OF ACTION: ast-range-endpoint-literal */
 			{
-#line 839 "src/libre/parser.act"
+#line 846 "src/libre/parser.act"
 
 		(ZIa).type = AST_ENDPOINT_LITERAL;
 		(ZIa).u.literal.c = (unsigned char) (*ZI205);
 	
-#line 1201 "src/libre/dialect/sql/parser.c"
+#line 1208 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			/* BEGINNING OF EXTRACT: RANGE */
 			{
-#line 308 "src/libre/parser.act"
+#line 315 "src/libre/parser.act"
 
 		ZI136 = '-';
 		ZI137 = lex_state->lx.start;
@@ -1212,7 +1219,7 @@ p_208(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 		(void) ZI137;
 		(void) ZI138;
 	
-#line 1216 "src/libre/dialect/sql/parser.c"
+#line 1223 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			ADVANCE_LEXER;
@@ -1220,7 +1227,7 @@ p_208(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 			case (TOK_CHAR):
 				/* BEGINNING OF EXTRACT: CHAR */
 				{
-#line 575 "src/libre/parser.act"
+#line 582 "src/libre/parser.act"
 
 		/* the first byte may be '\x00' */
 		assert(lex_state->buf.a[1] == '\0');
@@ -1233,7 +1240,7 @@ p_208(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 
 		ZIcz = lex_state->buf.a[0];
 	
-#line 1237 "src/libre/dialect/sql/parser.c"
+#line 1244 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF EXTRACT: CHAR */
 				break;
@@ -1243,27 +1250,27 @@ p_208(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-range-endpoint-literal */
 			{
-#line 839 "src/libre/parser.act"
+#line 846 "src/libre/parser.act"
 
 		(ZIz).type = AST_ENDPOINT_LITERAL;
 		(ZIz).u.literal.c = (unsigned char) (ZIcz);
 	
-#line 1252 "src/libre/dialect/sql/parser.c"
+#line 1259 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			/* BEGINNING OF ACTION: mark-range */
 			{
-#line 772 "src/libre/parser.act"
+#line 779 "src/libre/parser.act"
 
 		mark(&act_state->rangestart, &(*ZI206));
 		mark(&act_state->rangeend,   &(ZIend));
 	
-#line 1262 "src/libre/dialect/sql/parser.c"
+#line 1269 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: mark-range */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
-#line 1004 "src/libre/parser.act"
+#line 1011 "src/libre/parser.act"
 
 		unsigned char lower, upper;
 
@@ -1292,7 +1299,7 @@ p_208(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 			goto ZL1;
 		}
 	
-#line 1296 "src/libre/dialect/sql/parser.c"
+#line 1303 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -1321,7 +1328,7 @@ p_211(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 
 			/* BEGINNING OF EXTRACT: CLOSECOUNT */
 			{
-#line 378 "src/libre/parser.act"
+#line 385 "src/libre/parser.act"
 
 		ZI176 = lex_state->lx.start;
 		ZIend   = lex_state->lx.end;
@@ -1329,23 +1336,23 @@ p_211(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 		(void) ZI176;
 		(void) ZIend;
 	
-#line 1333 "src/libre/dialect/sql/parser.c"
+#line 1340 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: CLOSECOUNT */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: mark-count */
 			{
-#line 777 "src/libre/parser.act"
+#line 784 "src/libre/parser.act"
 
 		mark(&act_state->countstart, &(*ZI209));
 		mark(&act_state->countend,   &(ZIend));
 	
-#line 1344 "src/libre/dialect/sql/parser.c"
+#line 1351 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: mark-count */
 			/* BEGINNING OF ACTION: count-range */
 			{
-#line 824 "src/libre/parser.act"
+#line 831 "src/libre/parser.act"
 
 		if ((*ZIm) < (*ZIm)) {
 			err->e = RE_ENEGCOUNT;
@@ -1360,7 +1367,7 @@ p_211(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 
 		(ZIc) = ast_make_count((*ZIm), (*ZIm));
 	
-#line 1364 "src/libre/dialect/sql/parser.c"
+#line 1371 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: count-range */
 		}
@@ -1376,7 +1383,7 @@ p_211(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 			case (TOK_COUNT):
 				/* BEGINNING OF EXTRACT: COUNT */
 				{
-#line 627 "src/libre/parser.act"
+#line 634 "src/libre/parser.act"
 
 		unsigned long u;
 		char *e;
@@ -1396,7 +1403,7 @@ p_211(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 
 		ZIn = (unsigned int) u;
 	
-#line 1400 "src/libre/dialect/sql/parser.c"
+#line 1407 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF EXTRACT: COUNT */
 				break;
@@ -1408,7 +1415,7 @@ p_211(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 			case (TOK_CLOSECOUNT):
 				/* BEGINNING OF EXTRACT: CLOSECOUNT */
 				{
-#line 378 "src/libre/parser.act"
+#line 385 "src/libre/parser.act"
 
 		ZI179 = lex_state->lx.start;
 		ZIend   = lex_state->lx.end;
@@ -1416,7 +1423,7 @@ p_211(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 		(void) ZI179;
 		(void) ZIend;
 	
-#line 1420 "src/libre/dialect/sql/parser.c"
+#line 1427 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF EXTRACT: CLOSECOUNT */
 				break;
@@ -1426,17 +1433,17 @@ p_211(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: mark-count */
 			{
-#line 777 "src/libre/parser.act"
+#line 784 "src/libre/parser.act"
 
 		mark(&act_state->countstart, &(*ZI209));
 		mark(&act_state->countend,   &(ZIend));
 	
-#line 1435 "src/libre/dialect/sql/parser.c"
+#line 1442 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: mark-count */
 			/* BEGINNING OF ACTION: count-range */
 			{
-#line 824 "src/libre/parser.act"
+#line 831 "src/libre/parser.act"
 
 		if ((ZIn) < (*ZIm)) {
 			err->e = RE_ENEGCOUNT;
@@ -1451,7 +1458,7 @@ p_211(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZI2
 
 		(ZIc) = ast_make_count((*ZIm), (ZIn));
 	
-#line 1455 "src/libre/dialect/sql/parser.c"
+#line 1462 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: count-range */
 		}
@@ -1486,13 +1493,13 @@ ZL2_expr_C_Clist_Hof_Halts:;
 		}
 		/* BEGINNING OF ACTION: ast-add-alt */
 		{
-#line 1046 "src/libre/parser.act"
+#line 1053 "src/libre/parser.act"
 
 		if (!ast_add_expr_alt((ZIalts), (ZIa))) {
 			goto ZL1;
 		}
 	
-#line 1496 "src/libre/dialect/sql/parser.c"
+#line 1503 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-add-alt */
 		/* BEGINNING OF INLINE: 189 */
@@ -1517,14 +1524,14 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-alts */
 		{
-#line 711 "src/libre/parser.act"
+#line 718 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXALTS;
 		}
 		goto ZL4;
 	
-#line 1528 "src/libre/dialect/sql/parser.c"
+#line 1535 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: err-expected-alts */
 	}
@@ -1549,7 +1556,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 			/* BEGINNING OF EXTRACT: OPENCOUNT */
 			{
-#line 370 "src/libre/parser.act"
+#line 377 "src/libre/parser.act"
 
 		ZI209 = lex_state->lx.start;
 		ZI210   = lex_state->lx.end;
@@ -1557,7 +1564,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 		(void) ZI209;
 		(void) ZI210;
 	
-#line 1561 "src/libre/dialect/sql/parser.c"
+#line 1568 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: OPENCOUNT */
 			ADVANCE_LEXER;
@@ -1565,7 +1572,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 			case (TOK_COUNT):
 				/* BEGINNING OF EXTRACT: COUNT */
 				{
-#line 627 "src/libre/parser.act"
+#line 634 "src/libre/parser.act"
 
 		unsigned long u;
 		char *e;
@@ -1585,7 +1592,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		ZIm = (unsigned int) u;
 	
-#line 1589 "src/libre/dialect/sql/parser.c"
+#line 1596 "src/libre/dialect/sql/parser.c"
 				}
 				/* END OF EXTRACT: COUNT */
 				break;
@@ -1605,11 +1612,11 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: count-zero-or-one */
 			{
-#line 816 "src/libre/parser.act"
+#line 823 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(0, 1);
 	
-#line 1613 "src/libre/dialect/sql/parser.c"
+#line 1620 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-one */
 		}
@@ -1619,11 +1626,11 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: count-one-or-more */
 			{
-#line 812 "src/libre/parser.act"
+#line 819 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(1, AST_COUNT_UNBOUNDED);
 	
-#line 1627 "src/libre/dialect/sql/parser.c"
+#line 1634 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: count-one-or-more */
 		}
@@ -1633,11 +1640,11 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: count-zero-or-more */
 			{
-#line 808 "src/libre/parser.act"
+#line 815 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(0, AST_COUNT_UNBOUNDED);
 	
-#line 1641 "src/libre/dialect/sql/parser.c"
+#line 1648 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-more */
 		}
@@ -1646,11 +1653,11 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 		{
 			/* BEGINNING OF ACTION: count-one */
 			{
-#line 820 "src/libre/parser.act"
+#line 827 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(1, 1);
 	
-#line 1654 "src/libre/dialect/sql/parser.c"
+#line 1661 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: count-one */
 		}
@@ -1663,23 +1670,23 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-count */
 		{
-#line 697 "src/libre/parser.act"
+#line 704 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXCOUNT;
 		}
 		goto ZL2;
 	
-#line 1674 "src/libre/dialect/sql/parser.c"
+#line 1681 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: err-expected-count */
 		/* BEGINNING OF ACTION: count-one */
 		{
-#line 820 "src/libre/parser.act"
+#line 827 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(1, 1);
 	
-#line 1683 "src/libre/dialect/sql/parser.c"
+#line 1690 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: count-one */
 	}
@@ -1704,24 +1711,24 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: class-any */
 			{
-#line 782 "src/libre/parser.act"
+#line 789 "src/libre/parser.act"
 
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 1713 "src/libre/dialect/sql/parser.c"
+#line 1720 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1040 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_named(act_state->poolp, *flags, (ZIa));
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1725 "src/libre/dialect/sql/parser.c"
+#line 1732 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 		}
@@ -1734,7 +1741,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 
 			/* BEGINNING OF EXTRACT: CHAR */
 			{
-#line 575 "src/libre/parser.act"
+#line 582 "src/libre/parser.act"
 
 		/* the first byte may be '\x00' */
 		assert(lex_state->buf.a[1] == '\0');
@@ -1747,20 +1754,20 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 
 		ZIa = lex_state->buf.a[0];
 	
-#line 1751 "src/libre/dialect/sql/parser.c"
+#line 1758 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: CHAR */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: ast-make-literal */
 			{
-#line 874 "src/libre/parser.act"
+#line 881 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_literal(act_state->poolp, *flags, (ZIa));
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1764 "src/libre/dialect/sql/parser.c"
+#line 1771 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -1774,38 +1781,38 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: class-any */
 			{
-#line 782 "src/libre/parser.act"
+#line 789 "src/libre/parser.act"
 
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 1783 "src/libre/dialect/sql/parser.c"
+#line 1790 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
 			{
-#line 1033 "src/libre/parser.act"
+#line 1040 "src/libre/parser.act"
 
 		(ZIg) = ast_make_expr_named(act_state->poolp, *flags, (ZIa));
 		if ((ZIg) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1795 "src/libre/dialect/sql/parser.c"
+#line 1802 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 			/* BEGINNING OF ACTION: count-zero-or-more */
 			{
-#line 808 "src/libre/parser.act"
+#line 815 "src/libre/parser.act"
 
 		(ZIc) = ast_make_count(0, AST_COUNT_UNBOUNDED);
 	
-#line 1804 "src/libre/dialect/sql/parser.c"
+#line 1811 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-more */
 			/* BEGINNING OF ACTION: ast-make-piece */
 			{
-#line 897 "src/libre/parser.act"
+#line 904 "src/libre/parser.act"
 
 		if ((ZIc).min == 0 && (ZIc).max == 0) {
 			(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
@@ -1819,7 +1826,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 1823 "src/libre/dialect/sql/parser.c"
+#line 1830 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-piece */
 		}
@@ -1832,11 +1839,11 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: make-group-id */
 			{
-#line 881 "src/libre/parser.act"
+#line 888 "src/libre/parser.act"
 
 		(ZIid) = act_state->group_id++;
 	
-#line 1840 "src/libre/dialect/sql/parser.c"
+#line 1847 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: make-group-id */
 			p_expr (flags, lex_state, act_state, err, &ZIg);
@@ -1846,14 +1853,14 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			}
 			/* BEGINNING OF ACTION: ast-make-group */
 			{
-#line 911 "src/libre/parser.act"
+#line 918 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_group(act_state->poolp, *flags, (ZIg), (ZIid));
 		if ((ZIe) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1857 "src/libre/dialect/sql/parser.c"
+#line 1864 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-group */
 			switch (CURRENT_TERMINAL) {
@@ -1884,26 +1891,26 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-atom */
 		{
-#line 704 "src/libre/parser.act"
+#line 711 "src/libre/parser.act"
 
 		if (err->e == RE_ESUCCESS) {
 			err->e = RE_EXATOM;
 		}
 		goto ZL2;
 	
-#line 1895 "src/libre/dialect/sql/parser.c"
+#line 1902 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: err-expected-atom */
 		/* BEGINNING OF ACTION: ast-make-empty */
 		{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZIe) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZIe) == NULL) {
 			goto ZL2;
 		}
 	
-#line 1907 "src/libre/dialect/sql/parser.c"
+#line 1914 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -1932,7 +1939,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hnamed(flags flags, lex_state lex_state, act
 		case (TOK_NAMED__CLASS):
 			/* BEGINNING OF EXTRACT: NAMED_CLASS */
 			{
-#line 647 "src/libre/parser.act"
+#line 654 "src/libre/parser.act"
 
 		ZIid = DIALECT_CLASS(lex_state->buf.a);
 		if (ZIid == NULL) {
@@ -1946,7 +1953,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hnamed(flags flags, lex_state lex_state, act
 		(void) ZI128;
 		(void) ZI129;
 	
-#line 1950 "src/libre/dialect/sql/parser.c"
+#line 1957 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF EXTRACT: NAMED_CLASS */
 			break;
@@ -1956,14 +1963,14 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hnamed(flags flags, lex_state lex_state, act
 		ADVANCE_LEXER;
 		/* BEGINNING OF ACTION: ast-make-named */
 		{
-#line 1033 "src/libre/parser.act"
+#line 1040 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_named(act_state->poolp, *flags, (ZIid));
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1967 "src/libre/dialect/sql/parser.c"
+#line 1974 "src/libre/dialect/sql/parser.c"
 		}
 		/* END OF ACTION: ast-make-named */
 	}
@@ -1986,14 +1993,14 @@ p_expr_C_Calt(flags flags, lex_state lex_state, act_state act_state, err err, t_
 		{
 			/* BEGINNING OF ACTION: ast-make-concat */
 			{
-#line 860 "src/libre/parser.act"
+#line 867 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_concat(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 1997 "src/libre/dialect/sql/parser.c"
+#line 2004 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-concat */
 			p_expr_C_Clist_Hof_Hpieces (flags, lex_state, act_state, err, ZInode);
@@ -2007,14 +2014,14 @@ p_expr_C_Calt(flags flags, lex_state lex_state, act_state act_state, err err, t_
 		{
 			/* BEGINNING OF ACTION: ast-make-empty */
 			{
-#line 853 "src/libre/parser.act"
+#line 860 "src/libre/parser.act"
 
 		(ZInode) = ast_make_expr_empty(act_state->poolp, *flags);
 		if ((ZInode) == NULL) {
 			goto ZL1;
 		}
 	
-#line 2018 "src/libre/dialect/sql/parser.c"
+#line 2025 "src/libre/dialect/sql/parser.c"
 			}
 			/* END OF ACTION: ast-make-empty */
 		}
@@ -2032,7 +2039,7 @@ ZL0:;
 
 /* BEGINNING OF TRAILER */
 
-#line 1052 "src/libre/parser.act"
+#line 1059 "src/libre/parser.act"
 
 
 	static int
@@ -2050,6 +2057,23 @@ ZL0:;
 		return lex_state->f(lex_state->opaque);
 	}
 
+	/* The lexer presents a failure to push as if it were EOF. */
+	static int
+	lpush(void *buf_opaque, char c)
+	{
+		struct lex_state *lex_state;
+
+		assert(buf_opaque != NULL);
+
+		if (-1 == CAT(LX_PREFIX, _dynpush)(buf_opaque, c)) {
+			lex_state = (struct lex_state *) ((char *) buf_opaque - offsetof(struct lex_state, buf));
+			lex_state->error = 1;
+			return -1;
+		}
+
+		return 0;
+	}
+
 	struct ast *
 	DIALECT_PARSE(re_getchar_fun *f, void *opaque,
 		enum re_flags flags, int overlap,
@@ -2068,12 +2092,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -2090,10 +2118,12 @@ ZL0:;
 		lex_state->buf.a   = NULL;
 		lex_state->buf.len = 0;
 
+		lex_state->error   = 0;
+
 		/* XXX: unneccessary since we're lexing from a string */
 		/* (except for pushing "[" and "]" around ::group-$dialect) */
 		lx->buf_opaque = &lex_state->buf;
-		lx->push       = CAT(LX_PREFIX, _dynpush);
+		lx->push       = lpush;
 		lx->clear      = CAT(LX_PREFIX, _dynclear);
 		lx->free       = CAT(LX_PREFIX, _dynfree);
 
@@ -2125,15 +2155,20 @@ ZL0:;
 
 		lx->free(lx->buf_opaque);
 
+		/* this takes precedence over whatever the parser made of it */
+		if (lex_state->error) {
+			err->e = RE_EERRNO;
+		}
+
 		if (err->e != RE_ESUCCESS) {
 			/* TODO: free internals allocated during parsing (are there any?) */
 			goto error;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* An action failed with no error of its own to report,
+			 * which is to say for want of memory. */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -2188,6 +2223,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 2192 "src/libre/dialect/sql/parser.c"
+#line 2227 "src/libre/dialect/sql/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/parser.act b/src/libre/parser.act
index fe91618..a06113d 100644
--- a/src/libre/parser.act
+++ b/src/libre/parser.act
@@ -133,6 +133,9 @@
 		/* TODO: use lx's generated conveniences for the pattern buffer */
 		char a[512];
 		char *p;
+
+		/* A failure to lex, rather than something the lexer doesn't recognise. */
+		int error;
 	};
 
 	static void
@@ -211,6 +214,10 @@
 		mark(&act_state->synstart, &lex_state->lx.start);
 		mark(&act_state->synend,   &lex_state->lx.end);
 		act_state->lex_tok = LX_NEXT(&lex_state->lx);
+
+		if (act_state->lex_tok == TOK_ERROR) {
+			lex_state->error = 1;
+		}
 	}
 
 	static enum LX_TOKEN
@@ -1066,6 +1073,23 @@
 		return lex_state->f(lex_state->opaque);
 	}
 
+	/* The lexer presents a failure to push as if it were EOF. */
+	static int
+	lpush(void *buf_opaque, char c)
+	{
+		struct lex_state *lex_state;
+
+		assert(buf_opaque != NULL);
+
+		if (-1 == CAT(LX_PREFIX, _dynpush)(buf_opaque, c)) {
+			lex_state = (struct lex_state *) ((char *) buf_opaque - offsetof(struct lex_state, buf));
+			lex_state->error = 1;
+			return -1;
+		}
+
+		return 0;
+	}
+
 	struct ast *
 	DIALECT_PARSE(re_getchar_fun *f, void *opaque,
 		enum re_flags flags, int overlap,
@@ -1084,12 +1108,16 @@
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -1106,10 +1134,12 @@
 		lex_state->buf.a   = NULL;
 		lex_state->buf.len = 0;
 
+		lex_state->error   = 0;
+
 		/* XXX: unneccessary since we're lexing from a string */
 		/* (except for pushing "[" and "]" around ::group-$dialect) */
 		lx->buf_opaque = &lex_state->buf;
-		lx->push       = CAT(LX_PREFIX, _dynpush);
+		lx->push       = lpush;
 		lx->clear      = CAT(LX_PREFIX, _dynclear);
 		lx->free       = CAT(LX_PREFIX, _dynfree);
 
@@ -1141,15 +1171,20 @@
 
 		lx->free(lx->buf_opaque);
 
+		/* this takes precedence over whatever the parser made of it */
+		if (lex_state->error) {
+			err->e = RE_EERRNO;
+		}
+
 		if (err->e != RE_ESUCCESS) {
 			/* TODO: free internals allocated during parsing (are there any?) */
 			goto error;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* An action failed with no error of its own to report,
+			 * which is to say for want of memory. */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
-- 
2.43.0


From e0b20160212950fac90ac4c096c6ebad860c0aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:15 +0000
Subject: [PATCH 132/154] fix: re_comp and re_parse report running out of
 memory while rewriting or compiling

---
 src/libre/re.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libre/re.c b/src/libre/re.c
index 013e2b5..41005de 100644
--- a/src/libre/re.c
+++ b/src/libre/re.c
@@ -116,6 +116,9 @@ re_parse(enum re_dialect dialect, int (*getc)(void *opaque), void *opaque,
 
 	if (!ast_rewrite(ast, flags)) {
 		ast_free(ast);
+		if (err != NULL && err->e == RE_ESUCCESS) {
+			err->e = RE_EERRNO;
+		}
 		return NULL;
 	}
 
@@ -216,8 +219,6 @@ re_comp(enum re_dialect dialect, int (*getc)(void *opaque), void *opaque,
 	ast_free(ast);
 
 	if (new == NULL) {
-		/* XXX: this can happen e.g. on malloc failure */
-		assert(err == NULL || err->e != RE_ESUCCESS);
 		goto error;
 	}
 
-- 
2.43.0


From 8c76d02df0034139c8f5d56e8507ec412c7f4741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 133/154] fix: failing to decide if a subtraction is empty is
 an error, not an empty subtraction

---
 src/libre/ast_compile.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libre/ast_compile.c b/src/libre/ast_compile.c
index 5d31ef0..b9f0c37 100644
--- a/src/libre/ast_compile.c
+++ b/src/libre/ast_compile.c
@@ -910,6 +910,7 @@ comp_iter(struct comp_env *env,
 		struct fsm *a, *b;
 		struct fsm *q;
 		enum re_flags re_flags;
+		int r;
 
 		re_flags = n->re_flags;
 
@@ -941,7 +942,14 @@ comp_iter(struct comp_env *env,
 		 * overall or not.
 		 */
 
-		if (fsm_empty(q)) {
+		r = fsm_empty(q);
+		if (r == -1) {
+			fsm_free(q);
+			return 0;
+		}
+
+		if (r) {
+			fsm_free(q);
 			EPSILON(x, y);
 			break;
 		}
-- 
2.43.0


From a1d24e574b5523a208516428ef3f713154762113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 134/154] fix: fsm_capture_set_path checks the allocation of
 its visited set

---
 src/libfsm/capture.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libfsm/capture.c b/src/libfsm/capture.c
index 915fc65..db4d16b 100644
--- a/src/libfsm/capture.c
+++ b/src/libfsm/capture.c
@@ -148,6 +148,9 @@ fsm_capture_set_path(struct fsm *fsm, unsigned capture_id,
 	seen_words = fsm->statecount/64 + 1;
 	env.seen = f_malloc(fsm->alloc,
 	    seen_words * sizeof(env.seen[0]));
+	if (env.seen == NULL) {
+		goto cleanup;
+	}
 
 	if (!mark_capture_path(&env)) {
 		goto cleanup;
-- 
2.43.0


From 94e5058fa042fad771de56c1123d37e47e4abcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 135/154] fix: name the root node in DOT output for expressions

---
 src/libre/print/dot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libre/print/dot.c b/src/libre/print/dot.c
index 435b568..2cb4a48 100644
--- a/src/libre/print/dot.c
+++ b/src/libre/print/dot.c
@@ -240,7 +240,7 @@ ast_print_dot(FILE *f, const struct fsm_options *opt,
 	fprintf(f, "digraph G {\n");
 	fprintf(f, "\tnode [ shape = Mrecord ];\n");
 	fprintf(f, "\tedge [ dir = none ];\n");
-	fprintf(f, "\troot = n%p;\n", (void *) ast);
+	fprintf(f, "\troot = n%p;\n", (void *) ast->expr);
 	fprintf(f, "\tsplines = false;\n");
 	fprintf(f, "\n");
 
-- 
2.43.0


From 1a163a72ab47785b6d890a9267d34613b0188ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 136/154] fix: parenthesise nested repetition and subtraction
 in ABNF output

---
 src/libre/print/abnf.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libre/print/abnf.c b/src/libre/print/abnf.c
index a50771c..0a25a82 100644
--- a/src/libre/print/abnf.c
+++ b/src/libre/print/abnf.c
@@ -30,7 +30,6 @@ prec(const struct ast_expr *n)
 	case AST_EXPR_LITERAL:
 	case AST_EXPR_CODEPOINT:
 	case AST_EXPR_RANGE:
-	case AST_EXPR_SUBTRACT:
 	case AST_EXPR_GROUP:
 	case AST_EXPR_TOMBSTONE:
 		return 1;
@@ -38,6 +37,10 @@ prec(const struct ast_expr *n)
 	case AST_EXPR_REPEAT:
 		return 1;
 
+	case AST_EXPR_SUBTRACT:
+		/* "*a - b" is the exception of b from *a */
+		return 2;
+
 	case AST_EXPR_ANCHOR:
 	case AST_EXPR_EMPTY:
 		/* anchor and empty are special: although they take no
@@ -66,7 +69,10 @@ pp_atomic(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags,
 	assert(f != NULL);
 	assert(opt != NULL);
 
-	if (prec(n) <= prec(parent)) {
+	/* the operand of a repetition or subtraction can't be another */
+	if (prec(n) < prec(parent) || (prec(n) == prec(parent)
+	    && !(n->type == parent->type && (n->type == AST_EXPR_REPEAT || n->type == AST_EXPR_SUBTRACT))))
+	{
 		pp_iter(f, opt, re_flags, n);
 	} else {
 		enum re_flags local_flags = *re_flags;
-- 
2.43.0


From d4bbfb33719dee9f13db27e776eca417907931a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 137/154] fix: empty expressions in ABNF output

---
 src/libre/print/abnf.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/libre/print/abnf.c b/src/libre/print/abnf.c
index 0a25a82..d00258d 100644
--- a/src/libre/print/abnf.c
+++ b/src/libre/print/abnf.c
@@ -103,6 +103,7 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 
 	switch (n->type) {
 	case AST_EXPR_EMPTY:
+		fprintf(f, "\"\"");
 		break;
 
 	case AST_EXPR_CONCAT: {
@@ -121,15 +122,15 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 	case AST_EXPR_ALT: {
 		size_t i;
 		unsigned empty_count;
+		const char *sep;
 
 		/*
-		 * ABNF seems to provide no way to express an empty node;
-		 * there's no core rule for it, and the grammar does not allow
-		 * for () or an empty production.
+		 * ABNF's grammar does not allow for () or an empty production,
+		 * an empty node is the empty string.
 		 *
-		 * So here we have special handling; if we have empty alts,
-		 * the entire list is wrapped with [...] and we skip the nodes
-		 * when outputting the list.
+		 * That's rather obscure, so here we have special handling;
+		 * if we have empty alts, the entire list is wrapped with [...]
+		 * and we skip the nodes when outputting the list.
 		 */
 
 		empty_count = 0;
@@ -139,20 +140,26 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 			}
 		}
 
+		if (empty_count == n->u.alt.count) {
+			fprintf(f, "\"\"");
+			break;
+		}
+
 		if (empty_count > 0) {
 			fprintf(f, "[ ");
 		}
 
+		sep = "";
 		for (i = 0; i < n->u.alt.count; i++) {
-			if (n->u.alt.n[i]->type != AST_EXPR_EMPTY) {
-				pp_atomic(f, opt, re_flags, n->u.alt.n[i], n);
+			if (n->u.alt.n[i]->type == AST_EXPR_EMPTY) {
+				continue;
 			}
 
-			if (i + 1 < n->u.alt.count - empty_count) {
-				fprintf(f, " / "); /* XXX: indent */
-			}
+			fprintf(f, "%s", sep); /* XXX: indent */
+			pp_atomic(f, opt, re_flags, n->u.alt.n[i], n);
+			sep = " / ";
 		}
-		
+
 		if (empty_count > 0) {
 			fprintf(f, " ]");
 		}
-- 
2.43.0


From 14c292c329033a5c8eb4557646d03882013773c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 138/154] fix: case-insensitivity in ABNF output

---
 src/libre/print/abnf.c | 50 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/libre/print/abnf.c b/src/libre/print/abnf.c
index d00258d..6dec720 100644
--- a/src/libre/print/abnf.c
+++ b/src/libre/print/abnf.c
@@ -12,6 +12,8 @@
 #include <ctype.h>
 #include <inttypes.h>
 
+#include <fsm/options.h>
+
 #include <re/re.h>
 
 #include <print/esc.h>
@@ -82,6 +84,40 @@ pp_atomic(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags,
 	}
 }
 
+/* the bytes from..to, and their other cases */
+static void
+pp_icase_range(FILE *f, unsigned char from, unsigned char to)
+{
+	unsigned char set[256];
+	const char *sep;
+	unsigned lo, hi;
+
+	memset(set, 0, sizeof set);
+	for (lo = from; lo <= to; lo++) {
+		set[lo] = 1;
+		set[(unsigned char) tolower((int) lo)] = 1;
+		set[(unsigned char) toupper((int) lo)] = 1;
+	}
+
+	sep = "";
+	fprintf(f, "(");
+	for (lo = 0; lo < 256; lo = hi + 1) {
+		hi = lo;
+		if (!set[lo]) {
+			continue;
+		}
+		while (hi < 255 && set[hi + 1]) {
+			hi++;
+		}
+		fprintf(f, "%s%%x%02X", sep, lo);
+		if (hi > lo) {
+			fprintf(f, "-%02X", hi);
+		}
+		sep = " / ";
+	}
+	fprintf(f, ")");
+}
+
 static void
 pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct ast_expr *n)
 {
@@ -168,6 +204,15 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 	}
 
 	case AST_EXPR_LITERAL:
+		if ((n->re_flags & RE_ICASE) && isalpha((unsigned char) n->u.literal.c)) {
+			if (opt->always_hex) {
+				pp_icase_range(f, n->u.literal.c, n->u.literal.c);
+			} else {
+				fprintf(f, "%%i\"%c\"", n->u.literal.c);
+			}
+			break;
+		}
+
 		abnf_escputc(f, opt, n->u.literal.c);
 		break;
 
@@ -245,6 +290,11 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 			break;
 		}
 
+		if (n->re_flags & RE_ICASE) {
+			pp_icase_range(f, n->u.range.from.u.literal.c, n->u.range.to.u.literal.c);
+			break;
+		}
+
 		fprintf(f, "%%x%02X-%02X",
 			(unsigned char) n->u.range.from.u.literal.c,
 			(unsigned char) n->u.range.to.u.literal.c);
-- 
2.43.0


From fc634bc3f59be384ad179e96a04a835c824486b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:00 +0000
Subject: [PATCH 139/154] fix: unsynchronised counters in determinisation

---
 src/libfsm/determinise.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index 5af9b50..4dd54c1 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -2051,8 +2051,6 @@ analysis_cache_save_pair(struct analyze_closures_env *env,
 	return pair_cache_save(env, RPBT_PAIR, a | RESULT_BIT, b | RESULT_BIT, result_id);
 }
 
-static size_t pair_cache_hit, pair_cache_miss;
-
 static int
 combine_pair(struct analyze_closures_env *env, fsm_state_t pa, fsm_state_t pb,
 	fsm_state_t *result_id)
@@ -2089,14 +2087,12 @@ combine_pair(struct analyze_closures_env *env, fsm_state_t pa, fsm_state_t pb,
 		fprintf(stderr, "%s: cache hit for { %d%s %d%s }: %d\n",
 		    __func__, ID_WITH_SUFFIX(pa), ID_WITH_SUFFIX(pb), *result_id);
 #endif
-		pair_cache_hit++;
 		return 1;
 	} else {
 #if LOG_GROUPING
 		fprintf(stderr, "%s: cache miss for { %d%s %d%s }\n",
 		    __func__, ID_WITH_SUFFIX(pa), ID_WITH_SUFFIX(pb));
 #endif
-		pair_cache_miss++;
 	}
 
 	assert((pa & RESULT_BIT) && (pb & RESULT_BIT));
-- 
2.43.0


From e7ea7634f32e0d209801ef1e9c12802fbfb51449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:00 +0000
Subject: [PATCH 140/154] fix: write to the shared tombstone for every
 expression

---
 src/libre/ast.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/libre/ast.c b/src/libre/ast.c
index 43da60e..90f59b8 100644
--- a/src/libre/ast.c
+++ b/src/libre/ast.c
@@ -26,7 +26,7 @@
  * Note: this is a single-instance node, which other functions
  * should not modify.
  */
-static struct ast_expr the_tombstone;
+static struct ast_expr the_tombstone = { .type = AST_EXPR_TOMBSTONE };
 struct ast_expr *ast_expr_tombstone = &the_tombstone;
 
 struct ast_expr *
@@ -89,9 +89,6 @@ ast_new(void)
 
 	*res = zero;
 
-	/* XXX: not thread-safe */
-	the_tombstone.type = AST_EXPR_TOMBSTONE;
-
 	return res;
 }
 
-- 
2.43.0


From e87c8db8fff918b30dc1c769f02f6302eacec88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:53 +0000
Subject: [PATCH 141/154] fix: errors from hooks in Go and Rust output

---
 src/libfsm/print/go.c   | 8 ++++++--
 src/libfsm/print/rust.c | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index 0598cde..3553b0e 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -334,12 +334,16 @@ fsm_print_gofrag(FILE *f,
 		switch (op->instr) {
 		case VM_OP_STOP:
 			print_cond(f, op, opt);
-			print_end(f, op, opt, hooks, retlist, op->u.stop.end_bits);
+			if (-1 == print_end(f, op, opt, hooks, retlist, op->u.stop.end_bits)) {
+				return -1;
+			}
 			break;
 
 		case VM_OP_FETCH:
 			print_fetch(f, opt);
-			print_end(f, op, opt, hooks, retlist, op->u.fetch.end_bits);
+			if (-1 == print_end(f, op, opt, hooks, retlist, op->u.fetch.end_bits)) {
+				return -1;
+			}
 			break;
 
 		case VM_OP_BRANCH:
diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index 6ef0239..e8c63ae 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -422,7 +422,9 @@ fsm_print_rustfrag(FILE *f,
 
 				fprintf(f, "                    ");
 				fprintf(f, "None => ");
-				print_end(f, op, opt, hooks, retlist, op->u.fetch.end_bits);
+				if (-1 == print_end(f, op, opt, hooks, retlist, op->u.fetch.end_bits)) {
+					return -1;
+				}
 				fprintf(f, ",\n");
 				fprintf(f, "                    ");
 
-- 
2.43.0


From 6e9d4adeafc33d7ad484d1f33c282fe560e746e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:31 +0000
Subject: [PATCH 142/154] fix: conflicts in an NFA with epsilon transitions

---
 src/libfsm/print.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/print.c b/src/libfsm/print.c
index ab68be3..f5339ec 100644
--- a/src/libfsm/print.c
+++ b/src/libfsm/print.c
@@ -11,6 +11,7 @@
 
 #include <fsm/fsm.h>
 #include <fsm/pred.h>
+#include <fsm/walk.h>
 #include <fsm/print.h>
 #include <fsm/options.h>
 #include <fsm/vm.h>
@@ -193,7 +194,10 @@ print_conflicts(FILE *f, const struct fsm *fsm,
 		 * we can't move all output formats to use the ir.
 		 */
 
-		if (!make_example(fsm, s, &example)) {
+		/* there is no example for an NFA with epsilons, see fsm_example() */
+		if (fsm_has(fsm, fsm_hasepsilons)) {
+			example = NULL;
+		} else if (!make_example(fsm, s, &example)) {
 			goto error;
 		}
 
-- 
2.43.0


From c1635082898f06529c85cbc331c05396a766ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:31 +0000
Subject: [PATCH 143/154] fix: leaks when a hook fails

---
 src/libfsm/print.c      | 3 +++
 src/libfsm/print/dot.c  | 2 ++
 src/libfsm/print/fsm.c  | 2 ++
 src/libfsm/print/json.c | 1 +
 4 files changed, 8 insertions(+)

diff --git a/src/libfsm/print.c b/src/libfsm/print.c
index f5339ec..5d5f898 100644
--- a/src/libfsm/print.c
+++ b/src/libfsm/print.c
@@ -203,6 +203,7 @@ print_conflicts(FILE *f, const struct fsm *fsm,
 
 		ids = f_malloc(fsm->alloc, count * sizeof *ids);
 		if (ids == NULL) {
+			f_free(fsm->alloc, example);
 			goto error;
 		}
 
@@ -224,6 +225,8 @@ print_conflicts(FILE *f, const struct fsm *fsm,
 			&state_metadata,
 			example))
 		{
+			f_free(fsm->alloc, example);
+			f_free(fsm->alloc, ids);
 			goto error;
 		}
 
diff --git a/src/libfsm/print/dot.c b/src/libfsm/print/dot.c
index 69cce10..ca28a0f 100644
--- a/src/libfsm/print/dot.c
+++ b/src/libfsm/print/dot.c
@@ -267,6 +267,7 @@ print_dotfrag(FILE *f,
 				&state_metadata,
 				default_accept, &s))
 			{
+				f_free(fsm->alloc, ids);
 				return -1;
 			}
 
@@ -276,6 +277,7 @@ print_dotfrag(FILE *f,
 				if (-1 == print_hook_comment(f, opt, hooks,
 					&state_metadata))
 				{
+					f_free(fsm->alloc, ids);
 					return -1;
 				}
 			}
diff --git a/src/libfsm/print/fsm.c b/src/libfsm/print/fsm.c
index 0275315..07f50e2 100644
--- a/src/libfsm/print/fsm.c
+++ b/src/libfsm/print/fsm.c
@@ -371,12 +371,14 @@ fsm_print_fsm(FILE *f,
 			default_accept,
 			NULL))
 		{
+			f_free(fsm->alloc, ids);
 			return -1;
 		}
 
 		if (-1 == print_hook_comment(f, opt, hooks,
 			&state_metadata))
 		{
+			f_free(fsm->alloc, ids);
 			return -1;
 		}
 
diff --git a/src/libfsm/print/json.c b/src/libfsm/print/json.c
index 7451a42..aeae956 100644
--- a/src/libfsm/print/json.c
+++ b/src/libfsm/print/json.c
@@ -289,6 +289,7 @@ fsm_print_json(FILE *f,
 				&state_metadata,
 				NULL, NULL))
 			{
+				f_free(fsm->alloc, ids);
 				return -1;
 			}
 
-- 
2.43.0


From 7a9b5ce27f87ce9126896d94a60c0aed69b231c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:19 +0000
Subject: [PATCH 144/154] fix: record end anchors that match no newline for
 pattern groups

For \z, and for dialects whose $ takes no trailing newline, the end state
was never added to the linkage info, so a group accepted without reporting
the pattern.
---
 src/libre/ast_compile.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libre/ast_compile.c b/src/libre/ast_compile.c
index b9f0c37..052b6c7 100644
--- a/src/libre/ast_compile.c
+++ b/src/libre/ast_compile.c
@@ -718,6 +718,13 @@ comp_iter(struct comp_env *env,
 			y = env->end_nl;
 		} else {
 			y = env->end;
+
+			if (env->fsm->linkage_info != NULL) {
+				if (!state_set_add(&env->fsm->linkage_info->anchored_ends,
+					env->fsm->alloc, env->end)) {
+					return 0;
+				}
+			}
 		}
 		break;
 	case LINK_GLOBAL_SELF_LOOP:
-- 
2.43.0


From 161aa47fccfaa2cee51b4c3f39587df0cf07cb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:01 +0000
Subject: [PATCH 145/154] fix: record the ends of implicitly anchored
 expressions for pattern groups

With RE_ANCHORED, and for the dialects that imply it, no linkage was saved,
so a group built from such expressions never matched them.
---
 src/libre/ast_compile.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libre/ast_compile.c b/src/libre/ast_compile.c
index 052b6c7..3170190 100644
--- a/src/libre/ast_compile.c
+++ b/src/libre/ast_compile.c
@@ -1055,6 +1055,14 @@ ast_compile(const struct ast *ast,
 		env.start = x;
 		env.end = y;
 
+		if (fsm->linkage_info != NULL && (re_flags & RE_ANCHORED)) {
+			/* Implicitly anchored at both sides, linking is always top-down. */
+			if (!state_set_add(&fsm->linkage_info->anchored_starts, alloc, x)
+			    || !state_set_add(&fsm->linkage_info->anchored_ends, alloc, y)) {
+				goto error;
+			}
+		}
+
 		if (!comp_iter(&env, x, y, ast->expr, NULL)) {
 			goto error;
 		}
-- 
2.43.0


From 678dcc9f6d5345f11569797444eb10b30aa271da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:25 +0000
Subject: [PATCH 146/154] fix: don't deduplicate \z with $

---
 src/libre/ast.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libre/ast.c b/src/libre/ast.c
index 90f59b8..7249e02 100644
--- a/src/libre/ast.c
+++ b/src/libre/ast.c
@@ -488,6 +488,9 @@ ast_expr_cmp(const struct ast_expr *a, const struct ast_expr *b)
 		if (a->u.anchor.type < b->u.anchor.type) { return -1; }
 		if (a->u.anchor.type > b->u.anchor.type) { return +1; }
 
+		if (a->u.anchor.is_end_nl < b->u.anchor.is_end_nl) { return -1; }
+		if (a->u.anchor.is_end_nl > b->u.anchor.is_end_nl) { return +1; }
+
 		return 0;
 
 	case AST_EXPR_SUBTRACT: {
-- 
2.43.0


From 99f076908f0c3a42151c7e3402c477462750ea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:25 +0000
Subject: [PATCH 147/154] fix: keep the strictest of adjacent end anchors

---
 src/libre/ast_rewrite.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 9ed7aa9..ea4852d 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -186,6 +186,12 @@ rewrite_concat(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags f
 					break;
 				}
 
+				/* the strictest end anchor is the one that remains;
+				 * \z doesn't match before a trailing newline. */
+				if (!child->u.anchor.is_end_nl) {
+					n->u.concat.n[i]->u.anchor.is_end_nl = 0;
+				}
+
 				/* delete node */
 				ast_expr_free(*poolp, n->u.concat.n[j]);
 				if (j + 1 < n->u.concat.count) {
-- 
2.43.0


From 657d7f9fd5dc84a24f14fbdf5226bd1eec2f6aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:25 +0000
Subject: [PATCH 148/154] fix: don't carry anchors seen in one alternative into
 its siblings

---
 src/libre/ast_analysis.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 0e62da1..0ba6a80 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -2168,6 +2168,13 @@ analysis_iter_pincer_anchors(struct ast_expr *expr, struct pincer_anchors_env *e
 		int has_non_consuming_anchored_start = 0;
 		int has_non_consuming_anchored_end = 0;
 
+		/* What's seen inside one child says nothing about its siblings,
+		 * but what follows the ALT may come after any of them. */
+		const unsigned int before_start = env->always_consumes_or_anchored_start;
+		const unsigned int before_end = env->always_consumes_or_anchored_end;
+		unsigned int after_start = before_start;
+		unsigned int after_end = before_end;
+
 		if (dir == AD_FORWARD) {
 			for (size_t i = 0; i < expr->u.alt.count; i++) {
 				struct ast_expr *child = expr->u.alt.n[i];
@@ -2176,7 +2183,11 @@ analysis_iter_pincer_anchors(struct ast_expr *expr, struct pincer_anchors_env *e
 				    __func__, i, expr->u.alt.count, (void *)child);
 				if (is_unsatisfiable_or_skipped(child)) { continue; }
 
+				env->always_consumes_or_anchored_start = before_start;
+				env->always_consumes_or_anchored_end = before_end;
 				analysis_iter_pincer_anchors(child, env, dir);
+				after_start |= env->always_consumes_or_anchored_start;
+				after_end |= env->always_consumes_or_anchored_end;
 				if (child->flags & AST_FLAG_ALWAYS_CONSUMES) {
 					has_always_consuming = 1;
 				} else {
@@ -2211,7 +2222,11 @@ analysis_iter_pincer_anchors(struct ast_expr *expr, struct pincer_anchors_env *e
 				    __func__, i, expr->u.alt.count, (void *)child);
 				if (is_unsatisfiable_or_skipped(child)) { continue; }
 
+				env->always_consumes_or_anchored_start = before_start;
+				env->always_consumes_or_anchored_end = before_end;
 				analysis_iter_pincer_anchors(child, env, dir);
+				after_start |= env->always_consumes_or_anchored_start;
+				after_end |= env->always_consumes_or_anchored_end;
 				if (child->flags & AST_FLAG_ALWAYS_CONSUMES) {
 					has_always_consuming = 1;
 				} else {
@@ -2240,6 +2255,9 @@ analysis_iter_pincer_anchors(struct ast_expr *expr, struct pincer_anchors_env *e
 			}
 		}
 
+		env->always_consumes_or_anchored_start = after_start;
+		env->always_consumes_or_anchored_end = after_end;
+
 		if (has_always_consuming
 		    && has_non_consuming_anchored_start
 		    && all_always_consume_or_anchored_start) {
-- 
2.43.0


From 2f6fc506da9b1a91d140f5d7232ade9112726ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:05 +0000
Subject: [PATCH 149/154] fix: restore retest options once, after the next test
 case

---
 src/retest/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/retest/main.c b/src/retest/main.c
index 0885032..9c19b44 100644
--- a/src/retest/main.c
+++ b/src/retest/main.c
@@ -832,6 +832,7 @@ process_test_file(const char *filename,
 
 			if (restore_runner_opts) {
 				runner_opts = saved_opts;
+				restore_runner_opts = 0;
 			}
 
 			continue;
-- 
2.43.0


From 521cc8557a899ef4242d4dac5acba4959cc4f090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:33 +0000
Subject: [PATCH 150/154] fix: cvtpcre reads an empty pattern as empty, not as
 the one before it

---
 src/retest/cvtpcre.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/retest/cvtpcre.c b/src/retest/cvtpcre.c
index d35b845..7056daf 100644
--- a/src/retest/cvtpcre.c
+++ b/src/retest/cvtpcre.c
@@ -59,6 +59,10 @@ static void
 str_clear(struct str *str)
 {
 	assert(str != NULL);
+
+	/* an empty string is still a string */
+	str->len = 0;
+	str_append(str, '\0');
 	str->len = 0;
 }
 
@@ -450,6 +454,7 @@ main(int argc, char **argv)
 	(void)state_name;
 
 	l = init_str;
+	str_clear(&regexp);
 	state = ST_DEFAULT;
 
 	count   = 0;
-- 
2.43.0


From 0ab6a6b9039d8c3e43ff3f5d6382f479cf994cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:33 +0000
Subject: [PATCH 151/154] fix: cvtpcre escapes patterns which retest would read
 as control lines

---
 src/retest/cvtpcre.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/retest/cvtpcre.c b/src/retest/cvtpcre.c
index 7056daf..97f6a40 100644
--- a/src/retest/cvtpcre.c
+++ b/src/retest/cvtpcre.c
@@ -683,6 +683,11 @@ restart:
 								}
 								fputc('\n', out);
 							} else {
+								/* retest would take these for a control line */
+								if (regexp.s[0] == '\0' || strchr("#~ROM", regexp.s[0]) != NULL) {
+									fputc('~', out);
+								}
+
 								fprintf(out,"%s\n", regexp.s);
 							}
 						} else {
-- 
2.43.0


From 34eeb331923e535a19cde72155ab3cb56c9eeec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:33 +0000
Subject: [PATCH 152/154] fix: cvtpcre keeps \v escapes in subjects

---
 src/retest/cvtpcre.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/retest/cvtpcre.c b/src/retest/cvtpcre.c
index 97f6a40..82fa273 100644
--- a/src/retest/cvtpcre.c
+++ b/src/retest/cvtpcre.c
@@ -164,6 +164,7 @@ decode_escapes(char *s, char **mods)
 		case 'n':
 		case 'r':
 		case 't':
+		case 'v':
 		case 'x':
 		case '0': case '1': case '2': case '3': case '4':
 		case '5': case '6': case '7': case '8': case '9':
-- 
2.43.0


From 9084d46e1b2794a24dc1714a1aa9ab4e85a3042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:33 +0000
Subject: [PATCH 153/154] fix: fsm_union_repeated_pattern_group frees its
 analysis when it refuses its operands

---
 src/libfsm/union.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 766e585..9ce8dde 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -722,7 +722,7 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 		assert(nfas[i]);
 		if (nfas[i]->alloc != alloc) {
 			errno = EINVAL;
-			return NULL;
+			goto fail;
 		}
 
 		/* Any NFAs passed to this function must be built with
@@ -731,7 +731,7 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 		 * linking. */
 		if (nfas[i]->linkage_info == NULL) {
 			errno = EINVAL;
-			return NULL;
+			goto fail;
 		}
 
 		const size_t count = fsm_countstates(nfas[i]);
@@ -774,7 +774,7 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 	est_total_states += 5;	/* new start and end, new unanchored start and end loops */
 
 	struct fsm *res = fsm_new_statealloc(alloc, est_total_states);
-	if (res == NULL) { return NULL; }
+	if (res == NULL) { goto fail; }
 
 	/* The new overall start state */
 	fsm_state_t global_start;
-- 
2.43.0


From 68928b02d62154a6d700e41270f75555ea2405a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:55 +0000
Subject: [PATCH 154/154] fix: clean up when fsm_detect_required_characters
 cannot grow its stack

---
 src/libfsm/detect_required.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/detect_required.c b/src/libfsm/detect_required.c
index 8488376..73d23ce 100644
--- a/src/libfsm/detect_required.c
+++ b/src/libfsm/detect_required.c
@@ -181,7 +181,7 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 				struct stack_frame *nframes = f_realloc(dfa->alloc,
 				    env.stack.frames, nceil * sizeof(nframes[0]));
 				if (nframes == NULL) {
-					return FSM_DETECT_REQUIRED_CHARACTERS_ERROR_ALLOC;
+					goto cleanup;
 				}
 
 				env.stack.frames = nframes;
-- 
2.43.0

