From 15b6ace715c64d72be0f2ce78cada581cdb51c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 01/91] fix: isl_set_lift: do not access the first disjunct of
 a set without disjuncts

---
 isl_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_map.c b/isl_map.c
index 5cb7a56..ebe0fc5 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -11376,7 +11376,7 @@ __isl_give isl_set *isl_set_lift(__isl_take isl_set *set)
 	if (!set)
 		return NULL;
 
-	n_div = set->p[0]->n_div;
+	n_div = set->n > 0 ? set->p[0]->n_div : 0;
 	space = isl_set_get_space(set);
 	space = isl_space_lift(space, n_div);
 	if (!space)
-- 
2.43.0


From 7d1be80a73e17c5014ad1e71b56e5668735fc373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:22 +0000
Subject: [PATCH 02/91] fix: isl_map_coalesce: also wrap constraints fixing
 constant divs

fix_constant_divs represents an integer division with a fixed value
by a pair of opposite inequality constraints and selects the facet
of one of them, such that the other becomes redundant in the tableau.
Do not skip the latter during wrapping, since the pair is the only
representation of the equality constraint.  Without it, the result
of the coalescing may contain points outside of the union.
---
 isl_coalesce.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/isl_coalesce.c b/isl_coalesce.c
index 5d0d173..5b50f3c 100644
--- a/isl_coalesce.c
+++ b/isl_coalesce.c
@@ -1305,6 +1305,21 @@ static int add_wrap(struct isl_wraps *wraps, int w, isl_int *bound,
 	return 1;
 }
 
+/* Is inequality constraint "l" of "bmap" one of a pair of two consecutive,
+ * opposite inequality constraints, i.e., of the kind that is used
+ * by fix_constant_divs to represent an equality constraint?
+ */
+static int is_fixing_ineq(__isl_keep isl_basic_map *bmap, int l, unsigned len)
+{
+	if (l > 0 &&
+	    isl_seq_is_neg(bmap->ineq[l - 1], bmap->ineq[l], len))
+		return 1;
+	if (l + 1 < bmap->n_ineq &&
+	    isl_seq_is_neg(bmap->ineq[l + 1], bmap->ineq[l], len))
+		return 1;
+	return 0;
+}
+
 /* This function has two modes of operations.
  *
  * If "add_valid" is set, then all the constraints of info->bmap
@@ -1325,6 +1340,13 @@ static int add_wrap(struct isl_wraps *wraps, int w, isl_int *bound,
  *
  * Only consider constraints that are not redundant (as determined
  * by info->tab) and that are valid or invalid depending on "add_valid".
+ * The exception is a constraint that is part of a pair
+ * of inequality constraints representing an equality constraint.
+ * The facet of the other constraint of the pair has been selected
+ * in info->tab (see fix_constant_divs), such that this constraint
+ * may be considered redundant there, even though it is needed
+ * for expressing the equality constraint.  It therefore needs to be wrapped
+ * just like any actual equality constraint.
  * Wrap each constraint around "bound" such that it includes the whole
  * set "set" and append the resulting constraint to "wraps".
  * "wraps" is assumed to have been pre-allocated to the appropriate size.
@@ -1363,7 +1385,8 @@ static isl_stat add_selected_wraps(struct isl_wraps *wraps,
 			continue;
 		if (isl_seq_eq(bound, bmap->ineq[l], len))
 			continue;
-		if (isl_tab_is_redundant(info->tab, bmap->n_eq + l))
+		if (isl_tab_is_redundant(info->tab, bmap->n_eq + l) &&
+		    (is_valid || !is_fixing_ineq(bmap, l, len)))
 			continue;
 
 		added = add_wrap(wraps, w, bound, bmap->ineq[l], len, set, 0);
-- 
2.43.0


From ab3b32ba013e2090bd8b5a4af6bd876f35017640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:14 +0000
Subject: [PATCH 03/91] fix: cut_to_hyperplane: do not use stale pointer to
 constraint variable

isl_tab_extend_cons may reallocate tab->con, in which case "var"
no longer points to the constraint variable.
---
 isl_tab.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/isl_tab.c b/isl_tab.c
index 5f528f9..b6bf149 100644
--- a/isl_tab.c
+++ b/isl_tab.c
@@ -2675,19 +2675,23 @@ static isl_stat drop_last_con_in_row(struct isl_tab *tab, int r)
 	return isl_stat_ok;
 }
 
-/* Given a non-negative variable "var", temporarily add a new non-negative
- * variable that is the opposite of "var", ensuring that "var" can only attain
- * the value zero.  The new variable is removed again before this function
+/* Given a non-negative (constraint) variable "var", temporarily add
+ * a new non-negative variable that is the opposite of "var",
+ * ensuring that "var" can only attain the value zero.  The new variable is removed again before this function
  * returns.  However, the effect of forcing "var" to be zero remains.
  * If var = n/d is a row variable, then the new variable = -n/d.
  * If var is a column variables, then the new variable = -var.
  * If the new variable cannot attain non-negative values, then
  * the resulting tableau is empty.
  * Otherwise, we know the value will be zero and we close the row.
+ *
+ * Note that making room for the new variable may move the constraint variables,
+ * including "var".
  */
 static isl_stat cut_to_hyperplane(struct isl_tab *tab, struct isl_tab_var *var)
 {
 	unsigned r;
+	int con;
 	isl_int *row;
 	int sgn;
 	unsigned off = 2 + tab->M;
@@ -2699,8 +2703,10 @@ static isl_stat cut_to_hyperplane(struct isl_tab *tab, struct isl_tab_var *var)
 			"expecting non-redundant non-negative variable",
 			return isl_stat_error);
 
+	con = var - tab->con;
 	if (isl_tab_extend_cons(tab, 1) < 0)
 		return isl_stat_error;
+	var = &tab->con[con];
 
 	r = tab->n_con;
 	tab->con[r].index = tab->n_row;
-- 
2.43.0


From 6ef5e40ca451b1ca797f7bc59e6d1ea2ab1c392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:04 +0000
Subject: [PATCH 04/91] fix: cut_to_hyperplane: mark constraint forced to zero
 as being zero

If the constraint is (still) a row variable, then closing the row of
its opposite does not mark the constraint itself as zero, while it may
have been marked redundant by the pivoting.  The equality is then
dropped as a redundant constraint by, e.g., isl_basic_set_gist.
---
 isl_tab.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/isl_tab.c b/isl_tab.c
index b6bf149..97642d2 100644
--- a/isl_tab.c
+++ b/isl_tab.c
@@ -2685,6 +2685,12 @@ static isl_stat drop_last_con_in_row(struct isl_tab *tab, int r)
  * the resulting tableau is empty.
  * Otherwise, we know the value will be zero and we close the row.
  *
+ * If "var" is (still) a row variable at this point, then it has not been
+ * marked zero by closing the row.  Since it may have been marked redundant
+ * while looking for the maximal value of its opposite,
+ * it may then not be recognized as an equality constraint anymore.
+ * Mark it as being zero explicitly.
+ *
  * Note that making room for the new variable may move the constraint variables,
  * including "var".
  */
@@ -2748,6 +2754,11 @@ static isl_stat cut_to_hyperplane(struct isl_tab *tab, struct isl_tab_var *var)
 		return isl_stat_error;
 	if (drop_last_con_in_row(tab, r) < 0)
 		return isl_stat_error;
+	if (var->is_zero)
+		return isl_stat_ok;
+	var->is_zero = 1;
+	if (tab->need_undo)
+		return isl_tab_push_var(tab, isl_tab_undo_zero, var);
 
 	return isl_stat_ok;
 }
-- 
2.43.0


From 0db317b4d084d5559a0cc6bf550387b2577cfeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:40 +0000
Subject: [PATCH 05/91] fix: isl_basic_set_gist: handle compressed context that
 turns out to be empty

The tableau of an empty context does not contain all constraints,
so accessing them is out of bounds.
---
 isl_map_simplify.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/isl_map_simplify.c b/isl_map_simplify.c
index 72e0e9b..218342f 100644
--- a/isl_map_simplify.c
+++ b/isl_map_simplify.c
@@ -2518,6 +2518,9 @@ static __isl_give isl_basic_set *update_ineq_free(
  *
  * If there are any inequalities left, we construct a tableau for
  * the context and then add the inequalities of "bset".
+ * If the tableau turns out to be empty (without "context" being plainly empty),
+ * then it may not contain all constraints, but "bset" and "context"
+ * are known not to intersect and the empty set is returned.
  * Before adding these inequalities, we freeze all constraints such that
  * they won't be considered redundant in terms of the constraints of "bset".
  * Then we detect all redundant constraints (among the
@@ -2567,6 +2570,10 @@ static __isl_give isl_basic_set *uset_gist_full(__isl_take isl_basic_set *bset,
 	combined = isl_basic_set_cow(isl_basic_set_copy(context));
 	combined = isl_basic_set_extend_constraints(combined, 0, bset->n_ineq);
 	tab = isl_tab_from_basic_set(combined, 0);
+	if (tab && tab->empty) {
+		isl_basic_set_free(combined);
+		return update_ineq_free(bset, ineq, context, row, tab);
+	}
 	for (i = 0; i < context_ineq; ++i)
 		if (isl_tab_freeze_constraint(tab, n_eq + i) < 0)
 			goto error;
-- 
2.43.0


From ad165b91d32bd35d859b15d1bc3a47e4f33f61fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:34 +0000
Subject: [PATCH 06/91] fix: isl_set_count_val: do not ignore failure to scan
 the set

Without a limit on the count, any error during the scan (such as
the set being unbounded or the operation limit being exceeded)
was ignored and the partial count was returned.
---
 isl_scan.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/isl_scan.c b/isl_scan.c
index c4666ed..827a26f 100644
--- a/isl_scan.c
+++ b/isl_scan.c
@@ -262,7 +262,7 @@ int isl_basic_set_count_upto(__isl_keep isl_basic_set *bset,
 	isl_int_set_si(cnt.count, 0);
 	isl_int_set(cnt.max, max);
 	if (isl_basic_set_scan(isl_basic_set_copy(bset), &cnt.callback) < 0 &&
-	    isl_int_lt(cnt.count, cnt.max))
+	    (isl_int_is_zero(cnt.max) || isl_int_lt(cnt.count, cnt.max)))
 		goto error;
 
 	isl_int_set(*count, cnt.count);
@@ -271,6 +271,7 @@ int isl_basic_set_count_upto(__isl_keep isl_basic_set *bset,
 
 	return 0;
 error:
+	isl_int_clear(cnt.max);
 	isl_int_clear(cnt.count);
 	return -1;
 }
@@ -288,7 +289,7 @@ int isl_set_count_upto(__isl_keep isl_set *set, isl_int max, isl_int *count)
 	isl_int_set_si(cnt.count, 0);
 	isl_int_set(cnt.max, max);
 	if (isl_set_scan(isl_set_copy(set), &cnt.callback) < 0 &&
-	    isl_int_lt(cnt.count, cnt.max))
+	    (isl_int_is_zero(cnt.max) || isl_int_lt(cnt.count, cnt.max)))
 		goto error;
 
 	isl_int_set(*count, cnt.count);
@@ -297,6 +298,7 @@ int isl_set_count_upto(__isl_keep isl_set *set, isl_int max, isl_int *count)
 
 	return 0;
 error:
+	isl_int_clear(cnt.max);
 	isl_int_clear(cnt.count);
 	return -1;
 }
-- 
2.43.0


From 8cd08f1a8459184fd7a1eca291819b99bb424f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:40 +0000
Subject: [PATCH 07/91] fix: isl_pw_aff_{lt,gt,ne}_set: handle rational
 expressions

Subtract 1 from the numerator of the difference rather than
from the difference itself, such that differences strictly between
0 and 1 are considered to be positive as well.
---
 isl_aff.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/isl_aff.c b/isl_aff.c
index 6f3e7d7..ff84c63 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -2990,12 +2990,20 @@ __isl_give isl_set *isl_pw_aff_bind_id(__isl_take isl_pw_aff *pa,
 	return bound;
 }
 
+/* Subtract 1 from the numerator of "aff".
+ */
+static __isl_give isl_aff *aff_decrement_num(__isl_take isl_aff *aff)
+{
+	return isl_aff_add_constant_num_si(aff, -1);
+}
+
 /* Return a set containing those elements in the shared domain
  * of pwaff1 and pwaff2 where pwaff1 is greater than (or equal) to pwaff2.
  *
  * We compute the difference on the shared domain and then construct
  * the set of values where this difference is non-negative.
- * If strict is set, we first subtract 1 from the difference.
+ * If strict is set, we first subtract 1 from the numerator
+ * of (each piece of) the difference.
  * If equal is set, we only return the elements where pwaff1 and pwaff2
  * are equal.
  */
@@ -3011,14 +3019,10 @@ static __isl_give isl_set *pw_aff_gte_set(__isl_take isl_pw_aff *pwaff1,
 	pwaff2 = isl_pw_aff_intersect_domain(pwaff2, isl_set_copy(set1));
 	pwaff1 = isl_pw_aff_add(pwaff1, isl_pw_aff_neg(pwaff2));
 
-	if (strict) {
-		isl_space *space = isl_set_get_space(set1);
-		isl_aff *aff;
-		aff = isl_aff_zero_on_domain(isl_local_space_from_space(space));
-		aff = isl_aff_add_constant_si(aff, -1);
-		pwaff1 = isl_pw_aff_add(pwaff1, isl_pw_aff_alloc(set1, aff));
-	} else
-		isl_set_free(set1);
+	isl_set_free(set1);
+
+	if (strict)
+		pwaff1 = isl_pw_aff_un_op(pwaff1, &aff_decrement_num);
 
 	if (equal)
 		return isl_pw_aff_zero_set(pwaff1);
-- 
2.43.0


From db9a0fdd747f46cf9616da7c48216557770eeca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:12 +0000
Subject: [PATCH 08/91] fix: isl_pw_{aff,multi_aff}_is_equal: handle rational
 values

The functions were compared through their (integer) graphs,
which do not contain the elements that are mapped to
non-integer values.  Scale the functions first.
---
 isl_aff.c | 61 +++++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 4 deletions(-)

diff --git a/isl_aff.c b/isl_aff.c
index ff84c63..dc4845d 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -7121,10 +7121,23 @@ __isl_give isl_multi_pw_aff *isl_pw_multi_aff_to_multi_pw_aff(
 	return isl_multi_pw_aff_from_pw_multi_aff(pma);
 }
 
+/* Replace "den" by the least common multiple of "den" and
+ * the denominators of the expressions in "pa".
+ */
+static void pw_aff_extend_denominator(__isl_keep isl_pw_aff *pa, isl_int *den)
+{
+	int i;
+
+	for (i = 0; i < pa->n; ++i)
+		isl_int_lcm(*den, *den, pa->p[i].aff->v->el[0]);
+}
+
 /* Do "pa1" and "pa2" represent the same function?
  *
  * We first check if they are obviously equal.
  * If not, we convert them to maps and check if those are equal.
+ * Since a map only relates integer points, the functions are first scaled
+ * such that they only attain integer values.
  *
  * If "pa1" or "pa2" contain any NaNs, then they are considered
  * not to be the same.  A NaN is not equal to anything, not even
@@ -7136,6 +7149,7 @@ isl_bool isl_pw_aff_is_equal(__isl_keep isl_pw_aff *pa1,
 	isl_bool equal;
 	isl_bool has_nan;
 	isl_map *map1, *map2;
+	isl_int den;
 
 	if (!pa1 || !pa2)
 		return isl_bool_error;
@@ -7149,8 +7163,15 @@ isl_bool isl_pw_aff_is_equal(__isl_keep isl_pw_aff *pa1,
 	if (has_nan)
 		return isl_bool_false;
 
-	map1 = isl_map_from_pw_aff_internal(isl_pw_aff_copy(pa1));
-	map2 = isl_map_from_pw_aff_internal(isl_pw_aff_copy(pa2));
+	isl_int_init(den);
+	isl_int_set_si(den, 1);
+	pw_aff_extend_denominator(pa1, &den);
+	pw_aff_extend_denominator(pa2, &den);
+	pa1 = isl_pw_aff_scale(isl_pw_aff_copy(pa1), den);
+	pa2 = isl_pw_aff_scale(isl_pw_aff_copy(pa2), den);
+	isl_int_clear(den);
+	map1 = isl_map_from_pw_aff_internal(pa1);
+	map2 = isl_map_from_pw_aff_internal(pa2);
 	equal = isl_map_is_equal(map1, map2);
 	isl_map_free(map1);
 	isl_map_free(map2);
@@ -7206,10 +7227,34 @@ isl_bool isl_multi_pw_aff_is_equal(__isl_keep isl_multi_pw_aff *mpa1,
 	return isl_bool_true;
 }
 
+/* Return the least common multiple of "den" and
+ * the denominators of the expressions in "pma".
+ */
+static __isl_give isl_val *pw_multi_aff_extend_denominator(
+	__isl_keep isl_pw_multi_aff *pma, __isl_take isl_val *den)
+{
+	int i, j;
+
+	den = isl_val_cow(den);
+	if (!den)
+		return NULL;
+
+	for (i = 0; i < pma->n; ++i) {
+		isl_multi_aff *ma = pma->p[i].maff;
+
+		for (j = 0; j < ma->n; ++j)
+			isl_int_lcm(den->n, den->n, ma->u.p[j]->v->el[0]);
+	}
+
+	return den;
+}
+
 /* Do "pma1" and "pma2" represent the same function?
  *
  * First check if they are obviously equal.
  * If not, then convert them to maps and check if those are equal.
+ * Since a map only relates integer points, the functions are first scaled
+ * such that they only attain integer values.
  *
  * If "pa1" or "pa2" contain any NaNs, then they are considered
  * not to be the same.  A NaN is not equal to anything, not even
@@ -7221,6 +7266,7 @@ isl_bool isl_pw_multi_aff_is_equal(__isl_keep isl_pw_multi_aff *pma1,
 	isl_bool equal;
 	isl_bool has_nan;
 	isl_map *map1, *map2;
+	isl_val *den;
 
 	if (!pma1 || !pma2)
 		return isl_bool_error;
@@ -7234,8 +7280,15 @@ isl_bool isl_pw_multi_aff_is_equal(__isl_keep isl_pw_multi_aff *pma1,
 	if (has_nan < 0 || has_nan)
 		return isl_bool_not(has_nan);
 
-	map1 = isl_map_from_pw_multi_aff_internal(isl_pw_multi_aff_copy(pma1));
-	map2 = isl_map_from_pw_multi_aff_internal(isl_pw_multi_aff_copy(pma2));
+	den = isl_val_one(isl_pw_multi_aff_get_ctx(pma1));
+	den = pw_multi_aff_extend_denominator(pma1, den);
+	den = pw_multi_aff_extend_denominator(pma2, den);
+	pma1 = isl_pw_multi_aff_copy(pma1);
+	pma2 = isl_pw_multi_aff_copy(pma2);
+	pma1 = isl_pw_multi_aff_scale_val(pma1, isl_val_copy(den));
+	pma2 = isl_pw_multi_aff_scale_val(pma2, den);
+	map1 = isl_map_from_pw_multi_aff_internal(pma1);
+	map2 = isl_map_from_pw_multi_aff_internal(pma2);
 	equal = isl_map_is_equal(map1, map2);
 	isl_map_free(map1);
 	isl_map_free(map2);
-- 
2.43.0


From b18565543f72b4f3f6d41d18ef6829ac848e6297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:38 +0000
Subject: [PATCH 09/91] fix: isl_ast_graft_list_insert_pending_guard_nodes:
 only extend actual if nodes

If the user does not want disjunctions in if conditions, then a guard
with several disjuncts gives rise to a block of if nodes.  Such a block
was subsequently handled as if it were a single if node, with later
grafts added to a non-existing then branch, and therefore lost.
---
 isl_ast_graft.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/isl_ast_graft.c b/isl_ast_graft.c
index b5c9f54..b6b155c 100644
--- a/isl_ast_graft.c
+++ b/isl_ast_graft.c
@@ -564,6 +564,10 @@ static int clear_if_nodes(struct isl_if_node *if_node, int first, int n)
  * Otherwise, the current graft is appended to the list.
  *
  * We only construct else branches if allowed by the user.
+ *
+ * If the user does not want any disjunctions in the if conditions,
+ * then a disjunctive guard gets turned into a block of if nodes.
+ * Such a block is not an if node and can therefore not be extended.
  */
 static __isl_give isl_ast_graft_list *insert_pending_guard_nodes(
 	__isl_take isl_ast_graft_list *list,
@@ -645,7 +649,8 @@ static __isl_give isl_ast_graft_list *insert_pending_guard_nodes(
 		if (!graft->guard)
 			graft = isl_ast_graft_free(graft);
 		graft = insert_pending_guard_node(graft, build);
-		if (graft && graft->node != node && i != n - 1) {
+		if (graft && graft->node != node && i != n - 1 &&
+		    isl_ast_node_get_type(graft->node) == isl_ast_node_if) {
 			isl_set *set;
 			if_node[n_if].node = graft->node;
 			if_node[n_if].guard = guard;
-- 
2.43.0


From 487598fe0f29a635b64e4fdc012498abc99752bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:04 +0000
Subject: [PATCH 10/91] fix: isl_ast_codegen.c: generate_domain: do not
 generate code for inactive domains

The domain of the inverse schedule was only compared to
a single-disjunct approximation of the build domain.
If the two overlap while no element is active in the build domain itself,
then the construction of the call expression fails because
the arguments do not have any pieces left on the build domain.
---
 isl_ast_codegen.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/isl_ast_codegen.c b/isl_ast_codegen.c
index b3c2541..9041e3b 100644
--- a/isl_ast_codegen.c
+++ b/isl_ast_codegen.c
@@ -183,6 +183,10 @@ static isl_stat add_domain(__isl_take isl_map *executed,
 /* Generate an AST for a single domain based on
  * the inverse schedule "executed" and add it to data->list.
  *
+ * If no element of "executed" is active on the domain of data->build,
+ * then no code needs to be generated.  Note that this needs to be checked
+ * on the actual domain rather than on the approximation below.
+ *
  * If there is more than one domain element associated to the current
  * schedule "time", then we need to continue the generation process
  * in generate_non_single_valued.
@@ -220,12 +224,15 @@ static isl_stat generate_domain(__isl_take isl_map *executed, void *user)
 	struct isl_generate_domain_data *data = user;
 	isl_set *domain;
 	isl_map *map = NULL;
+	isl_set *active;
 	int empty, sv;
 
 	domain = isl_ast_build_get_domain(data->build);
+	active = isl_map_domain(isl_map_copy(executed));
+	empty = isl_set_is_disjoint(active, domain);
+	isl_set_free(active);
 	domain = isl_set_from_basic_set(isl_set_simple_hull(domain));
 	executed = isl_map_intersect_domain(executed, domain);
-	empty = isl_map_is_empty(executed);
 	if (empty < 0)
 		goto error;
 	if (empty) {
-- 
2.43.0


From 9338b42c5fbd55945b5bd24acd15dd1388a9a305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:25 +0000
Subject: [PATCH 11/91] fix: isl_schedule_read.c: read_mark: allow mark nodes
 without an explicit child

A mark node inserted on top of a leaf is printed without a child and
such a printed schedule tree should be readable, as is the case
for other types of schedule tree nodes.
---
 isl_schedule_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/isl_schedule_read.c b/isl_schedule_read.c
index 81570b3..489589f 100644
--- a/isl_schedule_read.c
+++ b/isl_schedule_read.c
@@ -424,8 +424,8 @@ static __isl_give isl_schedule_tree *read_mark(isl_stream *s)
 	if (more < 0)
 		goto error;
 	if (!more) {
-		isl_die(ctx, isl_error_invalid, "expecting child",
-			goto error);
+		tree = isl_schedule_tree_leaf(ctx);
+		tree = isl_schedule_tree_insert_mark(tree, mark);
 	} else {
 		key = get_key(s);
 		if (key != isl_schedule_key_child)
-- 
2.43.0


From 30985a513c220854bf667913a838198ce2a11444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:06 +0000
Subject: [PATCH 12/91] fix: isl_union_pw_multi_aff_scale_multi_val: free the
 multi_val argument

---
 isl_aff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_aff.c b/isl_aff.c
index dc4845d..78bd4a9 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -6920,7 +6920,7 @@ __isl_give isl_union_pw_multi_aff *isl_union_pw_multi_aff_scale_multi_val(
 	if (!upma || !mv)
 		goto error;
 
-	return isl_union_pw_multi_aff_transform(upma, &control);
+	upma = isl_union_pw_multi_aff_transform(upma, &control);
 
 	isl_multi_val_free(mv);
 	return upma;
-- 
2.43.0


From aef1690b7e473b2c8e768d4e5a5769cc2b491aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:06 +0000
Subject: [PATCH 13/91] fix: isl_multi_union_pw_aff_extract_multi_pw_aff: keep
 the explicit domain

---
 isl_aff.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/isl_aff.c b/isl_aff.c
index 78bd4a9..b788622 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -9887,11 +9887,41 @@ error:
 	return NULL;
 }
 
+/* Restrict "mpa" with domain space "space" to the part of
+ * the explicit domain of "mupa" in this space.
+ * If the explicit domain only keeps track of constraints on the parameters,
+ * then only those constraints are taken into account.
+ */
+static __isl_give isl_multi_pw_aff *restrict_to_explicit_domain(
+	__isl_take isl_multi_pw_aff *mpa,
+	__isl_keep isl_multi_union_pw_aff *mupa, __isl_keep isl_space *space)
+{
+	isl_bool is_params;
+	isl_set *set;
+	isl_union_set *dom;
+
+	dom = isl_multi_union_pw_aff_get_explicit_domain(mupa);
+	is_params = isl_union_set_is_params(dom);
+	if (is_params < 0) {
+		isl_union_set_free(dom);
+		return isl_multi_pw_aff_free(mpa);
+	}
+	if (is_params) {
+		set = isl_set_from_union_set(dom);
+		return isl_multi_pw_aff_intersect_params(mpa, set);
+	}
+	set = isl_union_set_extract_set(dom, isl_space_copy(space));
+	isl_union_set_free(dom);
+	return isl_multi_pw_aff_intersect_domain(mpa, set);
+}
+
 /* Extract the sequence of elements in "mupa" with domain space "space"
  * (ignoring parameters).
  *
  * For the elements of "mupa" that are not defined on the specified space,
  * the corresponding element in the result is empty.
+ * If "mupa" has an explicit domain, then the result is restricted
+ * to the part of this explicit domain in the specified space.
  */
 __isl_give isl_multi_pw_aff *isl_multi_union_pw_aff_extract_multi_pw_aff(
 	__isl_keep isl_multi_union_pw_aff *mupa, __isl_take isl_space *space)
@@ -9911,6 +9941,9 @@ __isl_give isl_multi_pw_aff *isl_multi_union_pw_aff_extract_multi_pw_aff(
 							space_mpa);
 	mpa = isl_multi_pw_aff_alloc(space_mpa);
 
+	if (isl_multi_union_pw_aff_has_explicit_domain(mupa))
+		mpa = restrict_to_explicit_domain(mpa, mupa, space);
+
 	space = isl_space_from_domain(space);
 	space = isl_space_add_dims(space, isl_dim_out, 1);
 	for (i = 0; i < n; ++i) {
-- 
2.43.0


From c343a212dc56c2d1c4e49b2387b78ab811cf6ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:16 +0000
Subject: [PATCH 14/91] fix: isl_val_gcd: return the absolute value of equal
 negative arguments

---
 isl_val.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_val.c b/isl_val.c
index 8b77622..c95d462 100644
--- a/isl_val.c
+++ b/isl_val.c
@@ -1022,7 +1022,7 @@ __isl_give isl_val *isl_val_gcd(__isl_take isl_val *v1, __isl_take isl_val *v2)
 			"expecting two integers", goto error);
 	if (isl_val_eq(v1, v2)) {
 		isl_val_free(v2);
-		return v1;
+		return isl_val_abs(v1);
 	}
 	if (isl_val_is_one(v1)) {
 		isl_val_free(v2);
-- 
2.43.0


From a395d92e0736089014f267c40a39d83374a919d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:43 +0000
Subject: [PATCH 15/91] fix: isl_ast_expr: do not print two consecutive minus
 signs

---
 isl_ast.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/isl_ast.c b/isl_ast.c
index ae4c156..6f0b28a 100644
--- a/isl_ast.c
+++ b/isl_ast.c
@@ -1623,7 +1623,10 @@ static __isl_give isl_printer *print_ast_expr_c(__isl_take isl_printer *p,
  * an "op" operation?  If "left" is set, then "expr" is the left-most
  * operand.
  *
- * We only need parentheses if "expr" represents an operation.
+ * We only need parentheses if "expr" represents an operation or
+ * if it is a negative integer that is being negated.
+ * In the latter case and if a negation is being negated,
+ * parentheses are needed since "--" would be interpreted as a decrement.
  *
  * If op has a higher precedence than expr->u.op.op, then we need
  * parentheses.
@@ -1640,9 +1643,14 @@ static __isl_give isl_printer *print_ast_expr_c(__isl_take isl_printer *p,
 static int sub_expr_need_parens(enum isl_ast_expr_op_type op,
 	__isl_keep isl_ast_expr *expr, int left)
 {
+	if (expr->type == isl_ast_expr_int)
+		return op == isl_ast_expr_op_minus && isl_val_is_neg(expr->u.v);
 	if (expr->type != isl_ast_expr_op)
 		return 0;
 
+	if (op == isl_ast_expr_op_minus &&
+	    expr->u.op.op == isl_ast_expr_op_minus)
+		return 1;
 	if (op_prec[expr->u.op.op] > op_prec[op])
 		return 1;
 	if (op_prec[expr->u.op.op] == op_prec[op] && left != op_left[op])
-- 
2.43.0


From ea7e2a1ea528955a90d51da9d778421067d365d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:03 +0000
Subject: [PATCH 16/91] fix: sort_divs: also reorder columns when reordering
 integer divisions

The integer divisions of an isl_qpolynomial may refer to each other.
Only reordering the rows makes such references point
to the wrong integer division.
---
 isl_polynomial.c | 67 ++++++++++++++++++------------------------------
 1 file changed, 25 insertions(+), 42 deletions(-)

diff --git a/isl_polynomial.c b/isl_polynomial.c
index 45c598f..bf813e6 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -1479,29 +1479,21 @@ static int cmp_row(__isl_keep isl_mat *div, int i, int j)
 	return isl_seq_cmp(div->row[i], div->row[j], div->n_col);
 }
 
-struct isl_div_sort_info {
-	isl_mat	*div;
-	int	 row;
-};
-
-static int div_sort_cmp(const void *p1, const void *p2)
-{
-	const struct isl_div_sort_info *i1, *i2;
-	i1 = (const struct isl_div_sort_info *) p1;
-	i2 = (const struct isl_div_sort_info *) p2;
-
-	return cmp_row(i1->div, i1->row, i2->row);
-}
-
 /* Sort divs and remove duplicates.
+ *
+ * Note that the integer divisions may refer to earlier integer divisions,
+ * such that the columns corresponding to the integer divisions
+ * need to be reordered along with the rows.
+ * Only adjacent integer divisions are interchanged.  Since the second of
+ * the two then has no later final non-zero coefficient than the first,
+ * neither of them depends on the other.
  */
 static __isl_give isl_qpolynomial *sort_divs(__isl_take isl_qpolynomial *qp)
 {
-	int i;
+	int i, j;
 	int skip;
 	int len;
-	struct isl_div_sort_info *array = NULL;
-	int *pos = NULL, *at = NULL;
+	int *at = NULL;
 	int *reordering = NULL;
 	isl_size div_pos;
 
@@ -1514,36 +1506,31 @@ static __isl_give isl_qpolynomial *sort_divs(__isl_take isl_qpolynomial *qp)
 	if (div_pos < 0)
 		return isl_qpolynomial_free(qp);
 
-	array = isl_alloc_array(qp->div->ctx, struct isl_div_sort_info,
-				qp->div->n_row);
-	pos = isl_alloc_array(qp->div->ctx, int, qp->div->n_row);
 	at = isl_alloc_array(qp->div->ctx, int, qp->div->n_row);
 	len = qp->div->n_col - 2;
 	reordering = isl_alloc_array(qp->div->ctx, int, len);
-	if (!array || !pos || !at || !reordering)
+	if (!at || !reordering)
 		goto error;
 
-	for (i = 0; i < qp->div->n_row; ++i) {
-		array[i].div = qp->div;
-		array[i].row = i;
-		pos[i] = i;
+	for (i = 0; i < qp->div->n_row; ++i)
 		at[i] = i;
-	}
-
-	qsort(array, qp->div->n_row, sizeof(struct isl_div_sort_info),
-		div_sort_cmp);
 
 	for (i = 0; i < div_pos; ++i)
 		reordering[i] = i;
 
-	for (i = 0; i < qp->div->n_row; ++i) {
-		if (pos[array[i].row] == i)
-			continue;
-		qp->div = isl_mat_swap_rows(qp->div, i, pos[array[i].row]);
-		pos[at[i]] = pos[array[i].row];
-		at[pos[array[i].row]] = at[i];
-		at[i] = array[i].row;
-		pos[array[i].row] = i;
+	for (i = 1; i < len - div_pos; ++i) {
+		for (j = i; j > 0 && cmp_row(qp->div, j - 1, j) > 0; --j) {
+			int t;
+
+			qp->div = isl_mat_swap_rows(qp->div, j - 1, j);
+			qp->div = isl_mat_swap_cols(qp->div,
+				    2 + div_pos + j - 1, 2 + div_pos + j);
+			if (!qp->div)
+				goto error;
+			t = at[j - 1];
+			at[j - 1] = at[j];
+			at[j] = t;
+		}
 	}
 
 	skip = 0;
@@ -1558,7 +1545,7 @@ static __isl_give isl_qpolynomial *sort_divs(__isl_take isl_qpolynomial *qp)
 						    2 + div_pos + i - skip, 1);
 			skip++;
 		}
-		reordering[div_pos + array[i].row] = div_pos + i - skip;
+		reordering[div_pos + at[i]] = div_pos + i - skip;
 	}
 
 	qp->poly = reorder(qp->poly, reordering);
@@ -1567,15 +1554,11 @@ static __isl_give isl_qpolynomial *sort_divs(__isl_take isl_qpolynomial *qp)
 		goto error;
 
 	free(at);
-	free(pos);
-	free(array);
 	free(reordering);
 
 	return qp;
 error:
 	free(at);
-	free(pos);
-	free(array);
 	free(reordering);
 	isl_qpolynomial_free(qp);
 	return NULL;
-- 
2.43.0


From fa8f3fbe41eef198617b96f753fac6c40c795359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:01 +0000
Subject: [PATCH 17/91] fix: isl_pw_*_split_dims: iterate over all pieces

Iterate over the pieces rather than over the number of dimensions.
---
 isl_pw_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_pw_templ.c b/isl_pw_templ.c
index 4dd403f..1415084 100644
--- a/isl_pw_templ.c
+++ b/isl_pw_templ.c
@@ -1571,7 +1571,7 @@ __isl_give PW *FN(PW,split_dims)(__isl_take PW *pw,
 	if (type == isl_dim_in)
 		type = isl_dim_set;
 
-	for (i = 0; i < n; ++i) {
+	for (i = 0; i < n_piece; ++i) {
 		isl_set *domain;
 
 		domain = FN(PW,take_domain_at)(pw, i);
-- 
2.43.0


From 2fc02bdcdb493c92500d06aa79a55f6730d59d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:33 +0000
Subject: [PATCH 18/91] fix: isl_qpolynomial_aff_sign: do not round fractional
 optima

isl_set_solve_lp rounds the optimal value to an integer,
but the value of the quasipolynomial is not necessarily an integer.
---
 isl_fold.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/isl_fold.c b/isl_fold.c
index 2d7f85c..3ed7759 100644
--- a/isl_fold.c
+++ b/isl_fold.c
@@ -468,6 +468,18 @@ static int isl_qpolynomial_cst_sign(__isl_keep isl_qpolynomial *qp)
 	return isl_int_sgn(cst->n) < 0 ? -1 : 1;
 }
 
+/* Determine, if possible, the sign of the affine quasipolynomial "qp" on
+ * the domain "set".
+ *
+ * Ignore the (positive) denominator of "qp" since the value of "qp"
+ * is not necessarily an integer while isl_set_solve_lp rounds
+ * the optimal value to an integer.
+ *
+ * Return
+ *	-1 if qp <= 0
+ *	 1 if qp >= 0
+ *	 0 if unknown
+ */
 static int isl_qpolynomial_aff_sign(__isl_keep isl_set *set,
 	__isl_keep isl_qpolynomial *qp)
 {
@@ -479,6 +491,7 @@ static int isl_qpolynomial_aff_sign(__isl_keep isl_set *set,
 	aff = isl_qpolynomial_extract_affine(qp);
 	if (!aff)
 		return 0;
+	isl_int_set_si(aff->el[0], 1);
 
 	isl_int_init(opt);
 
-- 
2.43.0


From c4cc0f0d6d48e1f7160753e9dc220f6cb1a685a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:32 +0000
Subject: [PATCH 19/91] fix: isl_range: do not plug fractional bounds into
 non-linear monotonic polynomials

Monotonicity is only established for integer values of the variable.
A polynomial with monotonic values at integers is not necessarily monotonic
in between, so a fractional bound may only be plugged in
if the polynomial is linear in the variable.
---
 isl_range.c | 82 +++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 64 insertions(+), 18 deletions(-)

diff --git a/isl_range.c b/isl_range.c
index 5bcfcff..718eac7 100644
--- a/isl_range.c
+++ b/isl_range.c
@@ -86,6 +86,47 @@ error:
 	return isl_bool_error;
 }
 
+/* Return the difference between the value of "poly" at one more than
+ * the value of the set variable at position "pos" and
+ * the value of "poly" itself, i.e., p(x+1)-p(x).
+ */
+static __isl_give isl_qpolynomial *forward_difference(
+	__isl_keep isl_qpolynomial *poly, unsigned pos)
+{
+	isl_ctx *ctx;
+	isl_space *space;
+	isl_qpolynomial *sub, *diff;
+
+	ctx = isl_qpolynomial_get_ctx(poly);
+	space = isl_qpolynomial_get_domain_space(poly);
+
+	sub = isl_qpolynomial_var_on_domain(isl_space_copy(space),
+						isl_dim_set, pos);
+	sub = isl_qpolynomial_add(sub,
+		isl_qpolynomial_rat_cst_on_domain(space, ctx->one, ctx->one));
+
+	diff = isl_qpolynomial_substitute(isl_qpolynomial_copy(poly),
+			isl_dim_in, pos, 1, &sub);
+	diff = isl_qpolynomial_sub(diff, isl_qpolynomial_copy(poly));
+	isl_qpolynomial_free(sub);
+
+	return diff;
+}
+
+/* Is "poly" (at most) linear in the set variable at position "pos"?
+ */
+static isl_bool is_linear_at_pos(__isl_keep isl_qpolynomial *poly, unsigned pos)
+{
+	isl_qpolynomial *diff;
+	isl_bool involves;
+
+	diff = forward_difference(poly, pos);
+	involves = isl_qpolynomial_involves_dims(diff, isl_dim_in, pos, 1);
+	isl_qpolynomial_free(diff);
+
+	return isl_bool_not(involves);
+}
+
 /* Return  1 if poly is monotonically increasing in the last set variable,
  *        -1 if poly is monotonically decreasing in the last set variable,
  *	   0 if no conclusion,
@@ -96,9 +137,6 @@ error:
 static int monotonicity(__isl_keep isl_basic_set *bset,
 	__isl_keep isl_qpolynomial *poly, struct range_data *data)
 {
-	isl_ctx *ctx;
-	isl_space *space;
-	isl_qpolynomial *sub = NULL;
 	isl_qpolynomial *diff = NULL;
 	int result = 0;
 	isl_bool s;
@@ -108,17 +146,7 @@ static int monotonicity(__isl_keep isl_basic_set *bset,
 	if (nvar < 0)
 		return -2;
 
-	ctx = isl_qpolynomial_get_ctx(poly);
-	space = isl_qpolynomial_get_domain_space(poly);
-
-	sub = isl_qpolynomial_var_on_domain(isl_space_copy(space),
-						isl_dim_set, nvar - 1);
-	sub = isl_qpolynomial_add(sub,
-		isl_qpolynomial_rat_cst_on_domain(space, ctx->one, ctx->one));
-
-	diff = isl_qpolynomial_substitute(isl_qpolynomial_copy(poly),
-			isl_dim_in, nvar - 1, 1, &sub);
-	diff = isl_qpolynomial_sub(diff, isl_qpolynomial_copy(poly));
+	diff = forward_difference(poly, nvar - 1);
 
 	s = has_sign(bset, diff, 1, data->signs);
 	if (s < 0)
@@ -134,12 +162,10 @@ static int monotonicity(__isl_keep isl_basic_set *bset,
 	}
 
 	isl_qpolynomial_free(diff);
-	isl_qpolynomial_free(sub);
 
 	return result;
 error:
 	isl_qpolynomial_free(diff);
-	isl_qpolynomial_free(sub);
 	return -2;
 }
 
@@ -342,6 +368,9 @@ error:
  * If the current polynomial is tight and if this bound is integer,
  * then the result is still tight.  In all other cases, the results
  * may not be tight.
+ * Note that the monotonicity only applies to the integer values
+ * of the variable, so if the bound is not integer, then it can only
+ * be plugged in if the polynomial is linear in the variable.
  * Otherwise, plug in the largest bound (in absolute value) in
  * the positive terms (if an upper bound is wanted) or the negative terms
  * (if a lower bounded is wanted) and the other bound in the other terms.
@@ -358,16 +387,33 @@ static isl_stat propagate_on_bound_pair(__isl_take isl_constraint *lower,
 	isl_qpolynomial *poly;
 	isl_stat r;
 	isl_size nvar, nparam;
+	int monotonicity;
 
 	nvar = isl_basic_set_dim(bset, isl_dim_set);
 	nparam = isl_basic_set_dim(bset, isl_dim_param);
 	if (nvar < 0 || nparam < 0)
 		goto error;
 
-	if (data->monotonicity) {
+	monotonicity = data->monotonicity;
+	if (monotonicity) {
+		isl_constraint *bound;
+
+		bound = monotonicity * data->sign > 0 ? upper : lower;
+		if (!bound_is_integer(bound, nvar)) {
+			isl_bool linear;
+
+			linear = is_linear_at_pos(data->poly, nvar);
+			if (linear < 0)
+				goto error;
+			if (!linear)
+				monotonicity = 0;
+		}
+	}
+
+	if (monotonicity) {
 		isl_qpolynomial *sub;
 		isl_space *space = isl_qpolynomial_get_domain_space(data->poly);
-		if (data->monotonicity * data->sign > 0) {
+		if (monotonicity * data->sign > 0) {
 			if (data->tight)
 				data->tight = bound_is_integer(upper, nvar);
 			sub = bound2poly(upper, space, nvar, 1);
-- 
2.43.0


From 1de8d5a680ed7260984d81ea7fb2eb62b5667b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:34 +0000
Subject: [PATCH 20/91] fix: isl_qpolynomial_substitute_equalities: do not
 modify shared equalities

In particular, when applied to all polynomials in a reduction,
the equalities are reused for each of the polynomials.
---
 isl_polynomial.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_polynomial.c b/isl_polynomial.c
index bf813e6..bd40203 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -2973,7 +2973,8 @@ static __isl_give isl_qpolynomial *isl_qpolynomial_substitute_equalities_lifted(
 	if (!qp)
 		goto error;
 	qp->div = isl_mat_cow(qp->div);
-	if (!qp->div)
+	eq = isl_basic_set_cow(eq);
+	if (!qp->div || !eq)
 		goto error;
 
 	total = isl_basic_set_offset(eq, isl_dim_div);
-- 
2.43.0


From b1c18b854e9cb18397a4f6d04a4196546c5bbd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:41 +0000
Subject: [PATCH 21/91] fix: isl_bernstein: avoid infinite recursion on local
 variables

When bernstein expansion is applied recursively on each dimension,
projecting out a dimension that does not appear in the polynomial
may result in the same problem again.
---
 isl_bernstein.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/isl_bernstein.c b/isl_bernstein.c
index eddea83..7e75f7a 100644
--- a/isl_bernstein.c
+++ b/isl_bernstein.c
@@ -545,6 +545,10 @@ error:
  * on the factors.
  * If bernstein_recurse is set to ISL_BERNSTEIN_INTERVALS, we apply
  * bernstein expansion recursively on each dimension.
+ * However, if the last dimension does not appear in the polynomial,
+ * then it may be a local variable that would only get projected out and
+ * introduced again in the recursion, so the entire polytope
+ * is handled directly in this case.
  * Otherwise, we apply bernstein expansion on the entire polytope.
  */
 isl_stat isl_qpolynomial_bound_on_domain_bernstein(
@@ -556,17 +560,23 @@ isl_stat isl_qpolynomial_bound_on_domain_bernstein(
 	isl_size nvar;
 	isl_bool tight = isl_bool_false;
 	isl_bool *tp = bound->check_tight ? &tight : NULL;
+	isl_bool involves = isl_bool_false;
 
 	nvar = isl_basic_set_dim(bset, isl_dim_set);
 	if (nvar < 0 || !poly)
 		goto error;
+	if (nvar > 1)
+		involves = isl_qpolynomial_involves_dims(poly, isl_dim_in,
+							nvar - 1, 1);
+	if (involves < 0)
+		goto error;
 
 	data.type = bound->type;
 	data.check_tight = bound->check_tight;
 
 	if (bset->ctx->opt->bernstein_recurse & ISL_BERNSTEIN_FACTORS)
 		pwf = bernstein_coefficients_factors(bset, poly, &data, tp);
-	else if (nvar > 1 &&
+	else if (involves &&
 	    (bset->ctx->opt->bernstein_recurse & ISL_BERNSTEIN_INTERVALS))
 		pwf = bernstein_coefficients_full_recursive(bset, poly, &data, tp);
 	else
-- 
2.43.0


From 4a59bc0ee2c94d3aac2b2d31fb38e51a002b26f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:44 +0000
Subject: [PATCH 22/91] fix: isl_input: take into account zero terms in
 reductions

The reader would ignore zero arguments of min and max
because the zero piecewise quasipolynomial does not have any domain.
---
 isl_input.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/isl_input.c b/isl_input.c
index e0eb2bf..83eed5a 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -2747,6 +2747,32 @@ static struct isl_obj obj_read_poly(__isl_keep isl_stream *s,
 	return obj;
 }
 
+/* Construct a reduction of type "fold" from "pwqp",
+ * one of several terms in a reduction.
+ *
+ * If "pwqp" is zero, then it does not have any explicit domain, but
+ * zero does need to be taken into account along with the other terms.
+ */
+static __isl_give isl_pw_qpolynomial_fold *fold_from_term(enum isl_fold fold,
+	__isl_take isl_pw_qpolynomial *pwqp)
+{
+	isl_bool is_zero;
+	isl_space *space;
+	isl_qpolynomial *qp;
+
+	is_zero = isl_pw_qpolynomial_is_zero(pwqp);
+	if (is_zero < 0)
+		pwqp = isl_pw_qpolynomial_free(pwqp);
+	if (is_zero < 0 || !is_zero)
+		return isl_pw_qpolynomial_fold_from_pw_qpolynomial(fold, pwqp);
+
+	space = isl_pw_qpolynomial_get_domain_space(pwqp);
+	isl_pw_qpolynomial_free(pwqp);
+	qp = isl_qpolynomial_zero_on_domain(space);
+	return isl_pw_qpolynomial_fold_from_qpolynomial_fold(
+				    isl_qpolynomial_fold_alloc(fold, qp));
+}
+
 static struct isl_obj obj_read_poly_or_fold(__isl_keep isl_stream *s,
 	__isl_take isl_set *set, struct vars *v, int n)
 {
@@ -2766,12 +2792,15 @@ static struct isl_obj obj_read_poly_or_fold(__isl_keep isl_stream *s,
 		goto error;
 
 	pwqp = read_term(s, set, v);
-	pwf = isl_pw_qpolynomial_fold_from_pw_qpolynomial(fold, pwqp);
+	if (isl_stream_next_token_is(s, ','))
+		pwf = fold_from_term(fold, pwqp);
+	else
+		pwf = isl_pw_qpolynomial_fold_from_pw_qpolynomial(fold, pwqp);
 
 	while (isl_stream_eat_if_available(s, ',')) {
 		isl_pw_qpolynomial_fold *pwf_i;
 		pwqp = read_term(s, set, v);
-		pwf_i = isl_pw_qpolynomial_fold_from_pw_qpolynomial(fold, pwqp);
+		pwf_i = fold_from_term(fold, pwqp);
 		pwf = isl_pw_qpolynomial_fold_fold(pwf, pwf_i);
 	}
 
-- 
2.43.0


From ba3263bd29b9fdecba2909ed8d62c6f91d1068e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:03 +0000
Subject: [PATCH 23/91] fix: lexopt: handle duplicate integer divisions in the
 context domain

If the domain has two copies of the same known integer division and
this integer division also appears in the basic map, then both were
matched to the same position, resulting in a negative offset for
the shared integer divisions and an out-of-bounds access.
---
 isl_tab_pip.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/isl_tab_pip.c b/isl_tab_pip.c
index 5a3148b..089f5d6 100644
--- a/isl_tab_pip.c
+++ b/isl_tab_pip.c
@@ -4312,6 +4312,9 @@ error:
 /* Check if integer division "div" of "dom" also occurs in "bmap".
  * If so, return its position within the divs.
  * Otherwise, return a position beyond the integer divisions.
+ * If "div" is a copy of an earlier integer division of "dom",
+ * then any occurrence in "bmap" is matched to this earlier integer division and
+ * "div" itself is considered not to occur in "bmap".
  */
 static int find_context_div(__isl_keep isl_basic_map *bmap,
 	__isl_keep isl_basic_set *dom, unsigned div)
@@ -4331,6 +4334,10 @@ static int find_context_div(__isl_keep isl_basic_map *bmap,
 	if (isl_seq_first_non_zero(dom->div[div] + 2 + d_v_div,
 				    dom->n_div) != -1)
 		return n_div;
+	for (i = 0; i < div; ++i)
+		if (isl_seq_eq(dom->div[i], dom->div[div],
+				2 + d_v_div + dom->n_div))
+			return n_div;
 
 	for (i = 0; i < n_div; ++i) {
 		if (isl_int_is_zero(bmap->div[i][0]))
-- 
2.43.0


From c4848d36e4e06ec9f85052afab0e63964ebf95e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:03 +0000
Subject: [PATCH 24/91] fix: isl_union_map_compute_flow: return may dependences
 without accessed elements

The must dependences no longer include the accessed data elements,
while the may dependences still did, such that the two results
lived in different spaces.
---
 isl_flow.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/isl_flow.c b/isl_flow.c
index 92d2266..997975c 100644
--- a/isl_flow.c
+++ b/isl_flow.c
@@ -2174,14 +2174,18 @@ __isl_give isl_union_map *isl_union_flow_get_may_dependence(
 	return isl_union_map_range_factor_domain(dep);
 }
 
-/* Return the non-definite dependences in "flow".
+/* Return the non-definite dependences in "flow",
+ * without the accessed elements.
  */
 static __isl_give isl_union_map *isl_union_flow_get_non_must_dependence(
 	__isl_keep isl_union_flow *flow)
 {
+	isl_union_map *dep;
+
 	if (!flow)
 		return NULL;
-	return isl_union_map_copy(flow->may_dep);
+	dep = isl_union_map_copy(flow->may_dep);
+	return isl_union_map_range_factor_domain(dep);
 }
 
 /* Return the subset of the sink accesses for which definitely
-- 
2.43.0


From 8985b932f7a0d7e9363d1e45b5f6fd401c39beb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:03 +0000
Subject: [PATCH 25/91] fix: dependence analysis: consider all sources
 coscheduled with a last source

Sources coscheduled with a must-source were only looked for if
the dependence on the must-source was (still) a must-dependence and
other instances of the same source were not considered at all.
May-dependences on coscheduled sources were therefore missing and
dependences on one of several coscheduled instances were incorrectly
reported as must-dependences.
---
 isl_flow.c | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/isl_flow.c b/isl_flow.c
index 997975c..0e158b7 100644
--- a/isl_flow.c
+++ b/isl_flow.c
@@ -947,6 +947,20 @@ static __isl_give isl_map *coscheduled_source(__isl_keep isl_access_info *acc,
 	return map;
 }
 
+/* Given a relation "map" of the form [T -> S] -> K, with T and S
+ * (coscheduled) instances of the same source, remove those elements
+ * where T and S are equal to each other.
+ */
+static __isl_give isl_map *drop_self_coscheduled(__isl_take isl_map *map)
+{
+	isl_space *space;
+	isl_set *self;
+
+	space = isl_space_unwrap(isl_space_domain(isl_map_get_space(map)));
+	self = isl_map_wrap(isl_map_identity(space));
+	return isl_map_subtract_domain(map, self);
+}
+
 /* After the dependences derived from a must-source have been computed
  * at a certain level, check if any of the sources of the must-dependences
  * may be coscheduled with other sources.
@@ -965,16 +979,17 @@ static __isl_give isl_map *coscheduled_source(__isl_keep isl_access_info *acc,
  * dependences derived from may-sources.
  *
  * In particular, consider all the must-sources with a non-empty
- * dependence relation in "must_rel".  They are considered in reverse
- * order because that is the order in which they are considered in the caller.
+ * dependence relation in "must_rel" or "may_rel".
+ * They are considered in reverse order because
+ * that is the order in which they are considered in the caller.
  * If any of the must-sources are coscheduled, then the last one
  * is the one that will have a corresponding dependence relation.
- * For each must-source i, consider both all the previous must-sources
- * and all the may-sources.  If any of those may be coscheduled with
- * must-source i, then compute the coscheduled instances that access
+ * For each must-source i, consider the other instances of this must-source,
+ * all the previous must-sources and all the may-sources.
+ * If any of those may be coscheduled with must-source i, then compute the coscheduled instances that access
  * the same memory elements.  The result is a relation [T -> S] -> K.
- * The projection onto T -> K is a subset of the must-dependence relation
- * that needs to be turned into may-dependences.
+ * The projection onto T -> K is a subset of the dependence relation
+ * of which the must-dependences need to be turned into may-dependences.
  * The projection onto S -> K needs to be added to the may-dependences
  * of source S.
  * Since a given must-source instance may be coscheduled with several
@@ -991,12 +1006,15 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 	if (!acc->coscheduled)
 		return flow;
 	for (i = acc->n_must - 1; i >= 0; --i) {
-		isl_map *move;
+		isl_map *move, *rel;
 
-		if (isl_map_plain_is_empty(must_rel[i]))
+		if (isl_map_plain_is_empty(must_rel[i]) &&
+		    isl_map_plain_is_empty(may_rel[i]))
 			continue;
+		rel = isl_map_union(isl_map_copy(must_rel[i]),
+					isl_map_copy(may_rel[i]));
 		move = isl_map_empty(isl_map_get_space(must_rel[i]));
-		for (j = i - 1; j >= 0; --j) {
+		for (j = i; j >= 0; --j) {
 			int depth;
 			isl_bool coscheduled;
 			isl_map *map, *factor;
@@ -1005,13 +1023,16 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 							acc->source[j].data);
 			if (coscheduled < 0) {
 				isl_map_free(move);
+				isl_map_free(rel);
 				return isl_flow_free(flow);
 			}
 			if (!coscheduled)
 				continue;
 			depth = acc->level_before(acc->source[i].data,
 						acc->source[j].data) / 2;
-			map = coscheduled_source(acc, must_rel[i], j, depth);
+			map = coscheduled_source(acc, rel, j, depth);
+			if (j == i)
+				map = drop_self_coscheduled(map);
 			factor = isl_map_domain_factor_range(isl_map_copy(map));
 			may_rel[j] = isl_map_union(may_rel[j], factor);
 			map = isl_map_domain_factor_domain(map);
@@ -1027,13 +1048,14 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 							acc->source[pos].data);
 			if (coscheduled < 0) {
 				isl_map_free(move);
+				isl_map_free(rel);
 				return isl_flow_free(flow);
 			}
 			if (!coscheduled)
 				continue;
 			depth = acc->level_before(acc->source[i].data,
 						acc->source[pos].data) / 2;
-			map = coscheduled_source(acc, must_rel[i], pos, depth);
+			map = coscheduled_source(acc, rel, pos, depth);
 			factor = isl_map_domain_factor_range(isl_map_copy(map));
 			pos = 2 * acc->n_must + j;
 			flow->dep[pos].map = isl_map_union(flow->dep[pos].map,
@@ -1041,6 +1063,7 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 			map = isl_map_domain_factor_domain(map);
 			move = isl_map_union(move, map);
 		}
+		isl_map_free(rel);
 		must_rel[i] = isl_map_subtract(must_rel[i], isl_map_copy(move));
 		may_rel[i] = isl_map_union(may_rel[i], move);
 	}
-- 
2.43.0


From 3ceef124f6b65106e223fae18d204c7031a44a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:31 +0000
Subject: [PATCH 26/91] fix: isl_aff_set_coefficient_val: free value on invalid
 position

---
 isl_aff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_aff.c b/isl_aff.c
index b788622..31d6124 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -1199,7 +1199,7 @@ __isl_give isl_aff *isl_aff_set_coefficient_val(__isl_take isl_aff *aff,
 		type = isl_dim_set;
 
 	if (isl_local_space_check_range(aff->ls, type, pos, 1) < 0)
-		return isl_aff_free(aff);
+		goto error;
 
 	if (isl_aff_is_nan(aff)) {
 		isl_val_free(v);
-- 
2.43.0


From a6d7ea4a3ddf2cea18e3d057581e616de01ee8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:31 +0000
Subject: [PATCH 27/91] fix: isl_vec_sort, isl_vec_normalize: do not modify a
 shared vector

---
 isl_vec.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_vec.c b/isl_vec.c
index 323015b..4045bc1 100644
--- a/isl_vec.c
+++ b/isl_vec.c
@@ -455,6 +455,7 @@ __isl_give isl_vec *isl_vec_ceil(__isl_take isl_vec *vec)
 
 __isl_give isl_vec *isl_vec_normalize(__isl_take isl_vec *vec)
 {
+	vec = isl_vec_cow(vec);
 	if (!vec)
 		return NULL;
 	isl_seq_normalize(vec->ctx, vec->el, vec->size);
@@ -524,6 +525,7 @@ static int qsort_int_cmp(const void *p1, const void *p2)
 
 __isl_give isl_vec *isl_vec_sort(__isl_take isl_vec *vec)
 {
+	vec = isl_vec_cow(vec);
 	if (!vec)
 		return NULL;
 	
-- 
2.43.0


From 9c5514b825d435a34f084f327442aec3202d2bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:31 +0000
Subject: [PATCH 28/91] fix: isl_map_fixed_power_val: do not modify a shared
 exponent

---
 isl_power_templ.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_power_templ.c b/isl_power_templ.c
index 65253bd..a723cf7 100644
--- a/isl_power_templ.c
+++ b/isl_power_templ.c
@@ -71,6 +71,9 @@ __isl_give TYPE *FN(TYPE,fixed_power_val)(__isl_take TYPE *map,
 	if (!isl_val_is_int(exp))
 		isl_die(FN(TYPE,get_ctx)(map), isl_error_invalid,
 			"expecting integer exponent", goto error);
+	exp = isl_val_cow(exp);
+	if (!exp)
+		goto error;
 	map = FN(TYPE,fixed_power)(map, exp->n);
 	isl_val_free(exp);
 	return map;
-- 
2.43.0


From 1f166e8e63d6f047bc14d0b51b4aea6a8347e527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:31 +0000
Subject: [PATCH 29/91] fix: piecewise add_disjoint: do not add pieces to a
 shared object

---
 isl_pw_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_pw_templ.c b/isl_pw_templ.c
index 1415084..ad6fb8a 100644
--- a/isl_pw_templ.c
+++ b/isl_pw_templ.c
@@ -761,7 +761,7 @@ static __isl_give PW *FN(PW,grow)(__isl_take PW *pw, int n)
 
 	if (!pw)
 		return NULL;
-	if (pw->n + n <= pw->size)
+	if (pw->ref == 1 && pw->n + n <= pw->size)
 		return pw;
 	ctx = FN(PW,get_ctx)(pw);
 	n += pw->n;
-- 
2.43.0


From 625da6b97552b7fd30ebdc7b4024ce6b3d056f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:31 +0000
Subject: [PATCH 30/91] fix: isl_val_mod: reject zero modulo

---
 isl_val.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_val.c b/isl_val.c
index c95d462..f4228e8 100644
--- a/isl_val.c
+++ b/isl_val.c
@@ -983,6 +983,9 @@ __isl_give isl_val *isl_val_mod(__isl_take isl_val *v1, __isl_take isl_val *v2)
 	if (!isl_val_is_int(v1) || !isl_val_is_int(v2))
 		isl_die(isl_val_get_ctx(v1), isl_error_invalid,
 			"expecting two integers", goto error);
+	if (isl_val_is_zero(v2))
+		isl_die(isl_val_get_ctx(v1), isl_error_invalid,
+			"expecting non-zero modulo", goto error);
 	if (isl_val_is_nonneg(v1) && isl_val_lt(v1, v2)) {
 		isl_val_free(v2);
 		return v1;
-- 
2.43.0


From 9e50c84ef12e1dc868d4994e09cc6af08fac765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:50 +0000
Subject: [PATCH 31/91] fix: isl_basic_map_{domain,range}_product: reject
 incompatible arguments

---
 isl_map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index ebe0fc5..9f4e0f0 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -10785,6 +10785,8 @@ __isl_give isl_basic_map *isl_basic_map_domain_product(
 	space1 = isl_basic_map_get_space(bmap1);
 	space2 = isl_basic_map_get_space(bmap2);
 	space_result = isl_space_domain_product(space1, space2);
+	if (!space_result)
+		goto error;
 
 	total = nparam + in1 + in2 + out + bmap1->n_div + bmap2->n_div;
 	dim_map1 = isl_dim_map_alloc(bmap1->ctx, total);
@@ -10837,6 +10839,8 @@ __isl_give isl_basic_map *isl_basic_map_range_product(
 
 	space_result = isl_space_range_product(isl_space_copy(bmap1->dim),
 					   isl_space_copy(bmap2->dim));
+	if (!space_result)
+		goto error;
 
 	total = nparam + in + out1 + out2 + bmap1->n_div + bmap2->n_div;
 	dim_map1 = isl_dim_map_alloc(bmap1->ctx, total);
-- 
2.43.0


From 4e99f4e9263907ec7f9ef1e3211b930808c46459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:50 +0000
Subject: [PATCH 32/91] fix: isl_map_product: do not treat error as empty basic
 map

---
 isl_map.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/isl_map.c b/isl_map.c
index 9f4e0f0..ca8ec90 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -10921,9 +10921,14 @@ static __isl_give isl_map *map_product(__isl_take isl_map *map1,
 	for (i = 0; i < map1->n; ++i)
 		for (j = 0; j < map2->n; ++j) {
 			struct isl_basic_map *part;
+			isl_bool empty;
+
 			part = basic_map_product(isl_basic_map_copy(map1->p[i]),
 						 isl_basic_map_copy(map2->p[j]));
-			if (isl_basic_map_is_empty(part))
+			empty = isl_basic_map_is_empty(part);
+			if (empty < 0)
+				result = isl_map_free(result);
+			if (empty < 0 || empty)
 				isl_basic_map_free(part);
 			else
 				result = isl_map_add_basic_map(result, part);
-- 
2.43.0


From d066f0a01d2b47dea0b40fa253a434c9f96f8359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:51 +0000
Subject: [PATCH 33/91] fix: isl_map_gist, isl_basic_map_gist: check that
 spaces match

---
 isl_map_simplify.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_map_simplify.c b/isl_map_simplify.c
index 218342f..a4db202 100644
--- a/isl_map_simplify.c
+++ b/isl_map_simplify.c
@@ -3272,7 +3272,7 @@ __isl_give isl_basic_map *isl_basic_map_gist(__isl_take isl_basic_map *bmap,
 	isl_size total, n_div, n_div_bmap;
 	unsigned extra, n_eq, n_ineq;
 
-	if (!bmap || !context)
+	if (isl_basic_map_check_equal_space(bmap, context) < 0)
 		goto error;
 
 	if (isl_basic_map_plain_is_universe(bmap)) {
@@ -3696,6 +3696,8 @@ __isl_give isl_map *isl_map_gist(__isl_take isl_map *map,
 	}
 
 	isl_map_align_params_bin(&map, &context);
+	if (isl_map_check_equal_space(map, context) < 0)
+		goto error;
 	equal = isl_map_plain_is_equal(map, context);
 	if (equal < 0)
 		goto error;
-- 
2.43.0


From 5cfaaa5ea288801ce0b504797c34e3472384ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:45 +0000
Subject: [PATCH 34/91] fix: isl_set_insert_domain: free arguments on invalid
 input

---
 isl_map.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/isl_map.c b/isl_map.c
index ca8ec90..7f4413a 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -12877,10 +12877,10 @@ __isl_give isl_map *isl_set_insert_domain(__isl_take isl_set *set,
 	isl_map *map;
 
 	if (isl_set_check_is_set(set) < 0 || isl_space_check_is_set(domain) < 0)
-		domain = isl_space_free(domain);
+		goto error;
 	dim = isl_space_dim(domain, isl_dim_set);
 	if (dim < 0)
-		domain = isl_space_free(domain);
+		goto error;
 	space = isl_set_get_space(set);
 	domain = isl_space_replace_params(domain, space);
 	space = isl_space_map_from_domain_and_range(domain, space);
@@ -12890,6 +12890,10 @@ __isl_give isl_map *isl_set_insert_domain(__isl_take isl_set *set,
 	map = isl_map_reset_space(map, space);
 
 	return map;
+error:
+	isl_set_free(set);
+	isl_space_free(domain);
+	return NULL;
 }
 
 __isl_give isl_mat *isl_basic_map_equalities_matrix(
-- 
2.43.0


From e532af7d81a44237bab10fd8cebea2c3a87171af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:45 +0000
Subject: [PATCH 35/91] fix: isl_map_move_dims: check destination position

---
 isl_map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index 7f4413a..eddbbfa 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4235,6 +4235,8 @@ __isl_give isl_basic_map *isl_basic_map_move_dims(
 
 	if (isl_basic_map_check_range(bmap, src_type, src_pos, n) < 0)
 		return isl_basic_map_free(bmap);
+	if (isl_basic_map_check_range(bmap, dst_type, dst_pos, 0) < 0)
+		return isl_basic_map_free(bmap);
 
 	if (dst_type == src_type && dst_pos == src_pos)
 		return bmap;
@@ -4347,6 +4349,8 @@ __isl_give isl_map *isl_map_move_dims(__isl_take isl_map *map,
 
 	if (isl_map_check_range(map, src_type, src_pos, n))
 		return isl_map_free(map);
+	if (isl_map_check_range(map, dst_type, dst_pos, 0))
+		return isl_map_free(map);
 
 	if (dst_type == src_type && dst_pos == src_pos)
 		return map;
-- 
2.43.0


From 03ffa6ed422f7ad3be452a242976bc0656b095fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:45 +0000
Subject: [PATCH 36/91] fix: isl_basic_map_sum: free dim_maps on error

---
 isl_map.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/isl_map.c b/isl_map.c
index eddbbfa..dae1835 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4878,8 +4878,10 @@ __isl_give isl_basic_map *isl_basic_map_sum(__isl_take isl_basic_map *bmap1,
 			bmap1->n_ineq + bmap2->n_ineq);
 	for (i = 0; i < n_out; ++i) {
 		int j = isl_basic_map_alloc_equality(bmap);
-		if (j < 0)
-			goto error;
+		if (j < 0) {
+			bmap = isl_basic_map_free(bmap);
+			break;
+		}
 		isl_seq_clr(bmap->eq[j], 1+total);
 		isl_int_set_si(bmap->eq[j][1+nparam+n_in+i], -1);
 		isl_int_set_si(bmap->eq[j][1+pos+i], 1);
-- 
2.43.0


From af18f815c118526d6096632c2113dd1dd2ee5852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:45 +0000
Subject: [PATCH 37/91] fix: isl_map_sum: do not treat error as empty basic map

---
 isl_map.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/isl_map.c b/isl_map.c
index dae1835..3e803be 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4919,10 +4919,15 @@ __isl_give isl_map *isl_map_sum(__isl_take isl_map *map1,
 	for (i = 0; i < map1->n; ++i)
 		for (j = 0; j < map2->n; ++j) {
 			struct isl_basic_map *part;
+			isl_bool empty;
+
 			part = isl_basic_map_sum(
 				    isl_basic_map_copy(map1->p[i]),
 				    isl_basic_map_copy(map2->p[j]));
-			if (isl_basic_map_is_empty(part))
+			empty = isl_basic_map_is_empty(part);
+			if (empty < 0)
+				result = isl_map_free(result);
+			if (empty < 0 || empty)
 				isl_basic_map_free(part);
 			else
 				result = isl_map_add_basic_map(result, part);
-- 
2.43.0


From 5fcb22792be25e8c1d9edde996da8d8a295bd875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:45 +0000
Subject: [PATCH 38/91] fix: isl_map_unshifted_simple_hull_from_map_list: check
 that spaces match

---
 isl_convex_hull.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/isl_convex_hull.c b/isl_convex_hull.c
index a15092e..f06c686 100644
--- a/isl_convex_hull.c
+++ b/isl_convex_hull.c
@@ -2949,6 +2949,7 @@ error:
 static __isl_give isl_basic_map *map_unshifted_simple_hull_from_basic_map_list(
 	__isl_take isl_map *map, __isl_take isl_basic_map_list *list)
 {
+	int i;
 	isl_size n;
 	isl_basic_map *model;
 	isl_basic_map *hull;
@@ -2958,6 +2959,16 @@ static __isl_give isl_basic_map *map_unshifted_simple_hull_from_basic_map_list(
 	n = isl_basic_map_list_n_basic_map(list);
 	if (!map || n < 0)
 		goto error;
+	for (i = 0; i < n; ++i) {
+		isl_basic_map *bmap;
+		isl_stat equal;
+
+		bmap = isl_basic_map_list_get_basic_map(list, i);
+		equal = isl_map_basic_map_check_equal_space(map, bmap);
+		isl_basic_map_free(bmap);
+		if (equal < 0)
+			goto error;
+	}
 
 	if (n == 0) {
 		isl_space *space;
-- 
2.43.0


From 850aedd0646000586ac3c04a1d70f0d2aa164b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:45 +0000
Subject: [PATCH 39/91] fix: isl_printer_print_ast_node: handle NULL node

---
 isl_ast.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/isl_ast.c b/isl_ast.c
index 6f0b28a..3f1f2a2 100644
--- a/isl_ast.c
+++ b/isl_ast.c
@@ -2593,8 +2593,8 @@ __isl_give isl_printer *isl_printer_print_ast_node(__isl_take isl_printer *p,
 	int format;
 	isl_ast_print_options *options;
 
-	if (!p)
-		return NULL;
+	if (!p || !node)
+		return isl_printer_free(p);
 
 	format = isl_printer_get_output_format(p);
 	switch (format) {
-- 
2.43.0


From 6c83c4402e6bb4f92ef5341aa5bce4eda607bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:45 +0000
Subject: [PATCH 40/91] fix: isl_schedule_constraints_copy: handle NULL
 argument

---
 isl_schedule_constraints.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_schedule_constraints.c b/isl_schedule_constraints.c
index f87235b..d2915ce 100644
--- a/isl_schedule_constraints.c
+++ b/isl_schedule_constraints.c
@@ -52,6 +52,9 @@ __isl_give isl_schedule_constraints *isl_schedule_constraints_copy(
 	isl_schedule_constraints *sc_copy;
 	enum isl_edge_type i;
 
+	if (!sc)
+		return NULL;
+
 	ctx = isl_union_set_get_ctx(sc->domain);
 	sc_copy = isl_calloc_type(ctx, struct isl_schedule_constraints);
 	if (!sc_copy)
-- 
2.43.0


From 27f613df7f366d23bdc7b80c79cf58287f586fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:45 +0000
Subject: [PATCH 41/91] fix: isl_set_plain_cmp: handle NULL argument

---
 isl_map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index 3e803be..2586a4e 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -10411,6 +10411,10 @@ int isl_set_plain_cmp(__isl_keep isl_set *set1, __isl_keep isl_set *set2)
 
 	if (set1 == set2)
 		return 0;
+	if (!set1)
+		return -1;
+	if (!set2)
+		return 1;
 	if (set1->n != set2->n)
 		return set1->n - set2->n;
 
-- 
2.43.0


From c8e7c7e7272353fdab6eec040343d6719e2f3d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:46 +0000
Subject: [PATCH 42/91] fix: isl_printer_print_point: report failure on NULL
 point

---
 isl_point.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_point.c b/isl_point.c
index f315b3d..f04e9a3 100644
--- a/isl_point.c
+++ b/isl_point.c
@@ -840,7 +840,7 @@ __isl_give isl_printer *isl_printer_print_point(
 	isl_size nparam;
 
 	if (!pnt)
-		return p;
+		return isl_printer_free(p);
 	if (isl_point_is_void(pnt)) {
 		p = isl_printer_print_str(p, "void");
 		return p;
-- 
2.43.0


From 5cfd873f070b43cd79f8e6f46608a82c087fa152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:46 +0000
Subject: [PATCH 43/91] fix: isl_access_info_add_source: report failure on NULL
 source

---
 isl_flow.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_flow.c b/isl_flow.c
index 0e158b7..bf3b4c0 100644
--- a/isl_flow.c
+++ b/isl_flow.c
@@ -286,7 +286,7 @@ __isl_give isl_access_info *isl_access_info_add_source(
 {
 	isl_ctx *ctx;
 
-	if (!acc)
+	if (!acc || !source)
 		goto error;
 	ctx = isl_map_get_ctx(acc->sink.map);
 	isl_assert(ctx, acc->n_must + acc->n_may < acc->max_source, goto error);
-- 
2.43.0


From 0429d758277d4f382fe8400a80367b0431108343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:46 +0000
Subject: [PATCH 44/91] fix: isl_basic_map_from_aff_list: free space if list is
 NULL

---
 isl_aff_map.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_aff_map.c b/isl_aff_map.c
index 3f46d86..ced68c7 100644
--- a/isl_aff_map.c
+++ b/isl_aff_map.c
@@ -269,8 +269,10 @@ __isl_give isl_basic_map *isl_basic_map_from_aff_list(
 	isl_space *space;
 	isl_basic_map *bmap;
 
-	if (!list)
+	if (!list) {
+		isl_space_free(domain_space);
 		return NULL;
+	}
 
 	space = isl_space_from_domain(domain_space);
 	bmap = isl_basic_map_universe(space);
-- 
2.43.0


From 96b3e207ba5b3ce5c56cd4820e50306fc7a47b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:46 +0000
Subject: [PATCH 45/91] fix: isl_space_is_domain, isl_space_is_range: report
 error on NULL first argument

---
 isl_space.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/isl_space.c b/isl_space.c
index 16c7d64..414f84d 100644
--- a/isl_space.c
+++ b/isl_space.c
@@ -2614,7 +2614,7 @@ isl_bool isl_space_is_domain_internal(__isl_keep isl_space *space1,
 isl_bool isl_space_is_domain(__isl_keep isl_space *space1,
 	__isl_keep isl_space *space2)
 {
-	if (!space2)
+	if (!space1 || !space2)
 		return isl_bool_error;
 	if (!isl_space_is_map(space2))
 		return isl_bool_false;
@@ -2644,7 +2644,7 @@ isl_bool isl_space_is_range_internal(__isl_keep isl_space *space1,
 isl_bool isl_space_is_range(__isl_keep isl_space *space1,
 	__isl_keep isl_space *space2)
 {
-	if (!space2)
+	if (!space1 || !space2)
 		return isl_bool_error;
 	if (!isl_space_is_map(space2))
 		return isl_bool_false;
-- 
2.43.0


From 1413a67dc08389692ae27c9a8b8187581fbd7fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 46/91] fix: isl_union_*_add_*: handle failure of parameter
 alignment

---
 isl_union_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_union_templ.c b/isl_union_templ.c
index 784e8c3..6c1edab 100644
--- a/isl_union_templ.c
+++ b/isl_union_templ.c
@@ -184,7 +184,7 @@ static __isl_give UNION *FN(UNION,add_part_generic)(__isl_take UNION *u,
 
 	u = FN(UNION,cow)(u);
 
-	if (!u)
+	if (!u || !part)
 		goto error;
 
 	if (FN(UNION,check_disjoint_domain_other)(u, part) < 0)
-- 
2.43.0


From 0fcececba980508f89ba16262d495e4a769cca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 47/91] fix: isl_set_dim_residue_class_val: do not leave
 dangling pointers on error

---
 isl_equalities.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/isl_equalities.c b/isl_equalities.c
index 90dfb77..2698821 100644
--- a/isl_equalities.c
+++ b/isl_equalities.c
@@ -891,7 +891,7 @@ isl_stat isl_set_dim_residue_class_val(__isl_keep isl_set *set,
 	isl_int_set_si((*residue)->d, 1);
 	return isl_stat_ok;
 error:
-	isl_val_free(*modulo);
-	isl_val_free(*residue);
+	*modulo = isl_val_free(*modulo);
+	*residue = isl_val_free(*residue);
 	return isl_stat_error;
 }
-- 
2.43.0


From ac9479b7cdee50436101e5f4600b0171f664091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 48/91] fix: isl_poly_sum: handle failure of recursive call

---
 isl_polynomial.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_polynomial.c b/isl_polynomial.c
index bd40203..d82212a 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -869,6 +869,8 @@ __isl_give isl_poly *isl_poly_sum(__isl_take isl_poly *poly1,
 		if (!rec)
 			goto error;
 		rec->p[0] = isl_poly_sum(rec->p[0], poly2);
+		if (!rec->p[0])
+			return isl_poly_free(poly1);
 		if (rec->n == 1)
 			poly1 = replace_by_constant_term(poly1);
 		return poly1;
-- 
2.43.0


From bf0299b63a37b8c3cae2288b1ee6b9cf3ea4ab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 49/91] fix: isl_pw_qpolynomial_mul: do not treat error as
 empty domain

---
 isl_polynomial.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/isl_polynomial.c b/isl_polynomial.c
index d82212a..b8665be 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -3172,9 +3172,14 @@ __isl_give isl_pw_qpolynomial *isl_pw_qpolynomial_mul(
 		for (j = 0; j < pwqp2->n; ++j) {
 			struct isl_set *common;
 			struct isl_qpolynomial *prod;
+			isl_bool empty;
+
 			common = isl_set_intersect(isl_set_copy(pwqp1->p[i].set),
 						isl_set_copy(pwqp2->p[j].set));
-			if (isl_set_plain_is_empty(common)) {
+			empty = isl_set_plain_is_empty(common);
+			if (empty < 0)
+				res = isl_pw_qpolynomial_free(res);
+			if (empty < 0 || empty) {
 				isl_set_free(common);
 				continue;
 			}
-- 
2.43.0


From 42c48d55c764c06ab3ef873ac90ba9f7367b5441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 50/91] fix: piecewise union_add: do not treat error as empty
 domain

---
 isl_pw_templ.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/isl_pw_templ.c b/isl_pw_templ.c
index ad6fb8a..b6db1e1 100644
--- a/isl_pw_templ.c
+++ b/isl_pw_templ.c
@@ -712,9 +712,14 @@ static __isl_give PW *FN(PW,union_add_)(__isl_take PW *pw1, __isl_take PW *pw2)
 		for (j = 0; j < pw2->n; ++j) {
 			struct isl_set *common;
 			EL *sum;
+			isl_bool empty;
+
 			common = isl_set_intersect(isl_set_copy(pw1->p[i].set),
 						isl_set_copy(pw2->p[j].set));
-			if (isl_set_plain_is_empty(common)) {
+			empty = isl_set_plain_is_empty(common);
+			if (empty < 0)
+				res = FN(PW,free)(res);
+			if (empty < 0 || empty) {
 				isl_set_free(common);
 				continue;
 			}
-- 
2.43.0


From ef6226971c0c53c80d6cff90fc7a2ad8dd6286b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 51/91] fix: isl_pw_qpolynomial_fold_fold: do not treat error
 as empty domain

---
 isl_fold.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/isl_fold.c b/isl_fold.c
index 3ed7759..8936d89 100644
--- a/isl_fold.c
+++ b/isl_fold.c
@@ -1160,11 +1160,16 @@ __isl_give isl_pw_qpolynomial_fold *isl_pw_qpolynomial_fold_fold(
 		for (j = 0; j < pw2->n; ++j) {
 			struct isl_set *common;
 			isl_qpolynomial_fold *sum;
+			isl_bool empty;
+
 			set = isl_set_subtract(set,
 					isl_set_copy(pw2->p[j].set));
 			common = isl_set_intersect(isl_set_copy(pw1->p[i].set),
 						isl_set_copy(pw2->p[j].set));
-			if (isl_set_plain_is_empty(common)) {
+			empty = isl_set_plain_is_empty(common);
+			if (empty < 0)
+				res = isl_pw_qpolynomial_fold_free(res);
+			if (empty < 0 || empty) {
 				isl_set_free(common);
 				continue;
 			}
-- 
2.43.0


From f30b425691b03efa672c9070b1f1bdd9f5129905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 52/91] fix:
 isl_union_pw_qpolynomial_fold_add_union_pw_qpolynomial: report failure

---
 isl_fold.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/isl_fold.c b/isl_fold.c
index 8936d89..5de735d 100644
--- a/isl_fold.c
+++ b/isl_fold.c
@@ -1834,9 +1834,11 @@ static isl_stat add_pwqp(__isl_take isl_pw_qpolynomial *pwqp, void *user)
 		goto error;
 
 	pwf = isl_pw_qpolynomial_fold_from_pw_qpolynomial((*upwf)->type, pwqp);
-	if (!entry->data)
+	if (!entry->data) {
 		entry->data = pwf;
-	else {
+		if (!entry->data)
+			return isl_stat_error;
+	} else {
 		entry->data = isl_pw_qpolynomial_fold_add(entry->data, pwf);
 		if (!entry->data)
 			return isl_stat_error;
-- 
2.43.0


From 33287314bdd649679bcd9c655a1f5bf9ddd5b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 53/91] fix: isl_basic_map_has_defining_equality: report
 failure to construct constraint

---
 isl_constraint.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/isl_constraint.c b/isl_constraint.c
index 4fc7aba..2af75ee 100644
--- a/isl_constraint.c
+++ b/isl_constraint.c
@@ -779,9 +779,12 @@ isl_bool isl_basic_map_has_defining_equality(
 		    isl_seq_first_non_zero(bmap->eq[i]+offset+pos+1,
 					   1+total-offset-pos-1) != -1)
 			continue;
-		if (c)
+		if (c) {
 			*c = isl_basic_map_constraint(isl_basic_map_copy(bmap),
 								&bmap->eq[i]);
+			if (!*c)
+				return isl_bool_error;
+		}
 		return isl_bool_true;
 	}
 	return isl_bool_false;
-- 
2.43.0


From e46e4b11fa57a52185c33e1e3a350bc52fb104f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 54/91] fix: printer: handle failure in the middle of YAML
 output

---
 isl_printer.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/isl_printer.c b/isl_printer.c
index f58a8a7..365b365 100644
--- a/isl_printer.c
+++ b/isl_printer.c
@@ -72,6 +72,8 @@ static int grow_buf(__isl_keep isl_printer *p, int extra)
 static __isl_give isl_printer *str_print(__isl_take isl_printer *p,
 	const char *s, int len)
 {
+	if (!p)
+		return NULL;
 	if (p->buf_n + len + 1 >= p->buf_size && grow_buf(p, len))
 		goto error;
 	memcpy(p->buf + p->buf_n, s, len);
@@ -89,6 +91,8 @@ static __isl_give isl_printer *str_print_indent(__isl_take isl_printer *p,
 {
 	int i;
 
+	if (!p)
+		return NULL;
 	if (p->buf_n + indent + 1 >= p->buf_size && grow_buf(p, indent))
 		goto error;
 	for (i = 0; i < indent; ++i)
@@ -102,9 +106,15 @@ error:
 
 static __isl_give isl_printer *str_start_line(__isl_take isl_printer *p)
 {
+	if (!p)
+		return NULL;
 	if (p->indent_prefix)
 		p = str_print(p, p->indent_prefix, strlen(p->indent_prefix));
+	if (!p)
+		return NULL;
 	p = str_print_indent(p, p->indent);
+	if (!p)
+		return NULL;
 	if (p->prefix)
 		p = str_print(p, p->prefix, strlen(p->prefix));
 	return p;
@@ -112,6 +122,8 @@ static __isl_give isl_printer *str_start_line(__isl_take isl_printer *p)
 
 static __isl_give isl_printer *str_end_line(__isl_take isl_printer *p)
 {
+	if (!p)
+		return NULL;
 	if (p->suffix)
 		p = str_print(p, p->suffix, strlen(p->suffix));
 	p = str_print(p, "\n", strlen("\n"));
@@ -587,13 +599,15 @@ static __isl_give isl_printer *enter_state(__isl_take isl_printer *p,
 			p = p->ops->print_str(p, ", ");
 		else {
 			p = p->ops->end_line(p);
-			p = p->ops->start_line(p);
+			p = isl_printer_start_line(p);
 		}
 		p = update_state(p, isl_yaml_mapping_key);
 	} else if (state == isl_yaml_sequence_first_start) {
 		if (p->yaml_style != ISL_YAML_STYLE_FLOW) {
 			p = p->ops->end_line(p);
-			p = p->ops->start_line(p);
+			p = isl_printer_start_line(p);
+			if (!p)
+				return NULL;
 			p = p->ops->print_str(p, "- ");
 			p = isl_printer_indent(p, 2);
 		}
@@ -604,7 +618,9 @@ static __isl_give isl_printer *enter_state(__isl_take isl_printer *p,
 		else {
 			p = p->ops->end_line(p);
 			p = isl_printer_indent(p, -2);
-			p = p->ops->start_line(p);
+			p = isl_printer_start_line(p);
+			if (!p)
+				return NULL;
 			p = p->ops->print_str(p, "- ");
 			p = isl_printer_indent(p, 2);
 		}
@@ -720,7 +736,7 @@ __isl_give isl_printer *isl_printer_yaml_start_mapping(
 	else if (state != isl_yaml_none && state != isl_yaml_sequence) {
 		p = p->ops->end_line(p);
 		p = isl_printer_indent(p, 2);
-		p = p->ops->start_line(p);
+		p = isl_printer_start_line(p);
 	}
 	p = push_state(p, isl_yaml_mapping_first_key_start);
 	return p;
-- 
2.43.0


From 4c16b5e48f9eae010ae3ec56edc84c7c6b7aef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 55/91] fix: isl_printer_print_schedule_tree: handle failing
 printer

---
 isl_schedule_tree.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/isl_schedule_tree.c b/isl_schedule_tree.c
index 8dfe1d7..fa8357d 100644
--- a/isl_schedule_tree.c
+++ b/isl_schedule_tree.c
@@ -2777,6 +2777,9 @@ __isl_give isl_printer *isl_printer_print_schedule_tree_mark(
 	int sequence = 0;
 	int block;
 
+	if (!p || !tree)
+		return isl_printer_free(p);
+
 	block = isl_printer_get_yaml_style(p) == ISL_YAML_STYLE_BLOCK;
 
 	p = isl_printer_yaml_start_mapping(p);
@@ -2843,7 +2846,8 @@ __isl_give isl_printer *isl_printer_print_schedule_tree_mark(
 
 			p = isl_printer_print_str(p, "child");
 			p = isl_printer_yaml_next(p);
-			leaf = isl_schedule_tree_leaf(isl_printer_get_ctx(p));
+			leaf = isl_schedule_tree_leaf(
+					isl_schedule_tree_get_ctx(tree));
 			p = isl_printer_print_schedule_tree_mark(p,
 					leaf, 0, NULL);
 			isl_schedule_tree_free(leaf);
-- 
2.43.0


From f318db99d9e714c73efecbbf6ee5fdfc494a5515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 56/91] fix: isl_fixed_box_invalidate: handle failure to set
 extent

---
 isl_box.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_box.c b/isl_box.c
index 34a49ea..284889e 100644
--- a/isl_box.c
+++ b/isl_box.c
@@ -151,7 +151,7 @@ static __isl_give isl_fixed_box *isl_fixed_box_invalidate(
 	isl_aff_free(nan);
 	isl_val_free(infty);
 
-	if (!box->offset || !box->size)
+	if (!box || !box->offset || !box->size)
 		return isl_fixed_box_free(box);
 	return box;
 }
-- 
2.43.0


From 3bb81f6cf6ddba08c14e09681558d3a90543b919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 57/91] fix: isl_set_foreach_orthant: check allocation failure

---
 isl_map.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index 2586a4e..2259cbf 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -9082,6 +9082,8 @@ isl_stat isl_set_foreach_orthant(__isl_keep isl_set *set,
 		return isl_stat_error;
 
 	signs = isl_alloc_array(set->ctx, int, nparam + nvar);
+	if (!signs && nparam + nvar > 0)
+		return isl_stat_error;
 
 	r = foreach_orthant(isl_set_copy(set), signs, 0, nparam + nvar,
 			    fn, user);
-- 
2.43.0


From 47d27f6b9b953affabc573fd2dd61376c86d291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:57 +0000
Subject: [PATCH 58/91] fix: print map: handle failure to combine disjuncts

---
 isl_output.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_output.c b/isl_output.c
index 9839a52..bc4115d 100644
--- a/isl_output.c
+++ b/isl_output.c
@@ -1372,6 +1372,8 @@ static __isl_give struct isl_aff_split *split_aff(__isl_keep isl_map *map)
 		split[n - 1].aff = NULL;
 		split[n - 1].map = NULL;
 		--n;
+		if (!split[i - 1].map)
+			goto error;
 	}
 
 	return split;
-- 
2.43.0


From 2fc17ff8b812791be1718f72d55a8ffc85497ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:21 +0000
Subject: [PATCH 59/91] fix: isl_multi_pw_aff_pullback: use result of restoring
 space

---
 isl_multi_pw_aff_pullback_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_multi_pw_aff_pullback_templ.c b/isl_multi_pw_aff_pullback_templ.c
index fc5aed2..9a3e59f 100644
--- a/isl_multi_pw_aff_pullback_templ.c
+++ b/isl_multi_pw_aff_pullback_templ.c
@@ -63,7 +63,7 @@ __isl_give isl_multi_pw_aff *FN(isl_multi_pw_aff_pullback,BASE)(
 	}
 
 	FN(TYPE,free)(fn);
-	isl_multi_pw_aff_restore_space(mpa, space);
+	mpa = isl_multi_pw_aff_restore_space(mpa, space);
 	return mpa;
 error:
 	isl_space_free(space);
-- 
2.43.0


From db0cd2f45d3bbeed847bd3816f9231aef069ba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:21 +0000
Subject: [PATCH 60/91] fix: next_is_domain_colon: check allocation failure

---
 isl_input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_input.c b/isl_input.c
index 83eed5a..3c9c68d 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -2995,7 +2995,7 @@ static int next_is_domain_colon(__isl_keep isl_stream *s)
 	}
 
 	name = isl_token_get_str(s->ctx, tok);
-	res = !strcmp(name, "domain") && isl_stream_next_token_is(s, ':');
+	res = name && !strcmp(name, "domain") && isl_stream_next_token_is(s, ':');
 	free(name);
 
 	isl_stream_push_token(s, tok);
-- 
2.43.0


From e3d0a5a6831bab21d31631b0c15231ebf84cd227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:21 +0000
Subject: [PATCH 61/91] fix: print_disjunct: check allocation failure

---
 isl_output.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_output.c b/isl_output.c
index bc4115d..695ded0 100644
--- a/isl_output.c
+++ b/isl_output.c
@@ -1001,6 +1001,8 @@ static __isl_give isl_printer *print_disjunct(__isl_keep isl_basic_map *bmap,
 		return NULL;
 	dump = p->dump;
 	div = isl_basic_map_get_divs(bmap);
+	if (!div)
+		return isl_printer_free(p);
 	exists = need_exists(p, div);
 	if (exists >= 0 && exists)
 		p = open_exists(p, space, div, latex);
-- 
2.43.0


From 0bbf417799f9c9dba5c09dfbbfed194d51889fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:21 +0000
Subject: [PATCH 62/91] fix: isl_tab_compute_reduced_basis: check for failures

---
 basis_reduction_tab.c   | 2 +-
 basis_reduction_templ.c | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/basis_reduction_tab.c b/basis_reduction_tab.c
index b42f677..5cdcb92 100644
--- a/basis_reduction_tab.c
+++ b/basis_reduction_tab.c
@@ -156,7 +156,7 @@ static struct tab_lp *init_lp(struct isl_tab *tab)
 	lp->stack = isl_alloc_array(lp->ctx, struct isl_tab_undo *, lp->dim);
 
 	lp->row = isl_vec_alloc(lp->ctx, 1 + 2 * lp->dim);
-	if (!lp->row)
+	if (!lp->row || (lp->dim && !lp->stack))
 		goto error;
 	lp->tab = gbr_tab(tab, lp->row);
 	if (!lp->tab)
diff --git a/basis_reduction_templ.c b/basis_reduction_templ.c
index 290da7d..5625442 100644
--- a/basis_reduction_templ.c
+++ b/basis_reduction_templ.c
@@ -162,6 +162,8 @@ struct isl_tab *isl_tab_compute_reduced_basis(struct isl_tab *tab)
 			GBR_set(alpha, alpha_saved[i]);
 		} else {
 			row = GBR_lp_add_row(lp, B->row[1+i]+1, dim);
+			if (row < 0)
+				goto error;
 			GBR_lp_set_obj(lp, B->row[1+i+1]+1, dim);
 			ctx->stats->gbr_solved_lps++;
 			if (GBR_lp_solve(lp) < 0)
@@ -258,7 +260,8 @@ struct isl_tab *isl_tab_compute_reduced_basis(struct isl_tab *tab)
 				}
 			}
 		} else {
-			GBR_lp_add_row(lp, B->row[1+i]+1, dim);
+			if (GBR_lp_add_row(lp, B->row[1+i]+1, dim) < 0)
+				goto error;
 			++i;
 		}
 	} while (i < n_bounded - 1);
@@ -274,7 +277,7 @@ error:
 
 	GBR_lp_delete(lp);
 
-	if (alpha_buffer[1])
+	if (F && alpha_buffer[0] && alpha_buffer[1])
 		for (i = 0; i < n_bounded; ++i) {
 			GBR_clear(F[i]);
 			GBR_clear(alpha_buffer[0][i]);
-- 
2.43.0


From 2acb981507fcfa174b6a4547189ca533398113ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:21 +0000
Subject: [PATCH 63/91] fix: lexopt: do not treat a failed context as an empty
 context

---
 isl_tab_pip.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/isl_tab_pip.c b/isl_tab_pip.c
index 089f5d6..5b40284 100644
--- a/isl_tab_pip.c
+++ b/isl_tab_pip.c
@@ -3630,6 +3630,8 @@ static struct isl_context *isl_context_gbr_alloc(__isl_keep isl_basic_set *dom)
 	if (!cgbr->tab)
 		goto error;
 	check_gbr_integer_feasible(cgbr);
+	if (!cgbr->tab)
+		goto error;
 
 	return &cgbr->context;
 error:
@@ -4093,6 +4095,7 @@ static void find_solutions(struct isl_sol *sol, struct isl_tab *tab)
 {
 	struct isl_context *context;
 	int r;
+	int is_empty;
 
 	if (!tab || sol->error)
 		goto error;
@@ -4101,7 +4104,10 @@ static void find_solutions(struct isl_sol *sol, struct isl_tab *tab)
 
 	if (tab->empty)
 		goto done;
-	if (context->op->is_empty(context))
+	is_empty = context->op->is_empty(context);
+	if (is_empty < 0)
+		goto error;
+	if (is_empty)
 		goto done;
 
 	for (r = 0; r >= 0 && tab && !tab->empty; r = restore_lexmin(tab)) {
-- 
2.43.0


From 367640d5c786cdbcc9bb73b57dc3045e4538d026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:21 +0000
Subject: [PATCH 64/91] fix: isl_ast_expr_add_term: release coefficient on
 failure

---
 isl_ast_build_expr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_ast_build_expr.c b/isl_ast_build_expr.c
index aaf8985..c1d1ffe 100644
--- a/isl_ast_build_expr.c
+++ b/isl_ast_build_expr.c
@@ -436,8 +436,10 @@ static __isl_give isl_ast_expr *isl_ast_expr_add_term(
 {
 	isl_ast_expr *term;
 
-	if (!expr)
+	if (!expr) {
+		isl_val_free(v);
 		return NULL;
+	}
 
 	data->v = v;
 	term = var(data, type, pos);
-- 
2.43.0


From 8144529f6db5cd8d811c274abd5c9f72adf5c685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:21 +0000
Subject: [PATCH 65/91] fix: isl_qpolynomial_sign: check for failures

---
 isl_fold.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/isl_fold.c b/isl_fold.c
index 5de735d..47a1952 100644
--- a/isl_fold.c
+++ b/isl_fold.c
@@ -586,6 +586,7 @@ static int isl_qpolynomial_sign(__isl_keep isl_set *set,
 		isl_qpolynomial *base;
 		isl_qpolynomial *r, *q;
 		isl_qpolynomial *t;
+		isl_bool q_zero, r_zero;
 
 		min = isl_qpolynomial_cst_on_domain(isl_space_copy(qp->dim), l);
 		base = isl_qpolynomial_var_pow_on_domain(isl_space_copy(qp->dim),
@@ -606,9 +607,13 @@ static int isl_qpolynomial_sign(__isl_keep isl_set *set,
 			q = isl_qpolynomial_add(q, isl_qpolynomial_copy(r));
 		}
 
-		if (isl_qpolynomial_is_zero(q))
+		q_zero = isl_qpolynomial_is_zero(q);
+		r_zero = isl_qpolynomial_is_zero(r);
+		if (q_zero < 0 || r_zero < 0)
+			sgn = 0;
+		else if (q_zero)
 			sgn = isl_qpolynomial_sign(set, r);
-		else if (isl_qpolynomial_is_zero(r))
+		else if (r_zero)
 			sgn = isl_qpolynomial_sign(set, q);
 		else {
 			int sgn_q, sgn_r;
-- 
2.43.0


From 73738c84a487b57b00004bdd87ec49ac357de63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:21 +0000
Subject: [PATCH 66/91] fix: isl_multi_pw_aff_apply_aff: check for failures

---
 isl_aff.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/isl_aff.c b/isl_aff.c
index 31d6124..5b0adad 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -7342,8 +7342,12 @@ static __isl_give isl_pw_aff *isl_multi_pw_aff_apply_aff_aligned(
 
 	for (i = 0; i < n_in; ++i) {
 		isl_pw_aff *pa_i;
+		isl_bool involves;
 
-		if (!isl_aff_involves_dims(aff, isl_dim_in, i, 1))
+		involves = isl_aff_involves_dims(aff, isl_dim_in, i, 1);
+		if (involves < 0)
+			pa = isl_pw_aff_free(pa);
+		if (!involves)
 			continue;
 		v = isl_aff_get_coefficient_val(aff, isl_dim_in, i);
 		pa_i = isl_multi_pw_aff_get_pw_aff(mpa, i);
@@ -7354,8 +7358,12 @@ static __isl_give isl_pw_aff *isl_multi_pw_aff_apply_aff_aligned(
 	for (i = 0; i < n_div; ++i) {
 		isl_aff *div;
 		isl_pw_aff *pa_i;
+		isl_bool involves;
 
-		if (!isl_aff_involves_dims(aff, isl_dim_div, i, 1))
+		involves = isl_aff_involves_dims(aff, isl_dim_div, i, 1);
+		if (involves < 0)
+			pa = isl_pw_aff_free(pa);
+		if (!involves)
 			continue;
 		div = isl_aff_get_div(aff, i);
 		pa_i = isl_multi_pw_aff_apply_aff_aligned(
-- 
2.43.0


From b0c09133a2b1c6396d033470a05b03da27f23585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:37 +0000
Subject: [PATCH 67/91] fix: isl_stream_free: free all pending tokens

---
 isl_stream.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_stream.c b/isl_stream.c
index 862015b..d270237 100644
--- a/isl_stream.c
+++ b/isl_stream.c
@@ -805,6 +805,8 @@ void isl_stream_free(__isl_take isl_stream *s)
 		isl_stream_error(s, tok, "unexpected token");
 		isl_token_free(tok);
 	}
+	while (s->n_token > 0)
+		isl_token_free(s->tokens[--s->n_token]);
 	if (s->keywords) {
 		isl_hash_table_foreach(s->ctx, s->keywords, &free_keyword, NULL);
 		isl_hash_table_free(s->ctx, s->keywords);
-- 
2.43.0


From f1044d8661fcb2ce9da8592fed79a518618c5a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:37 +0000
Subject: [PATCH 68/91] fix: isl_stream: do not skip tokens that cannot be
 allocated

---
 isl_stream.c | 57 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/isl_stream.c b/isl_stream.c
index d270237..7f41b6a 100644
--- a/isl_stream.c
+++ b/isl_stream.c
@@ -375,6 +375,21 @@ int isl_stream_skip_line(__isl_keep isl_stream *s)
 	return c == -1 ? -1 : 0;
 }
 
+/* Create a new token for use in "s".
+ * If this fails, then the token is lost, so no further tokens
+ * can be read from "s".
+ */
+static struct isl_token *new_token(__isl_keep isl_stream *s, int line, int col,
+	unsigned on_new_line)
+{
+	struct isl_token *tok;
+
+	tok = isl_token_new(s->ctx, line, col, on_new_line);
+	if (!tok)
+		s->eof = 1;
+	return tok;
+}
+
 static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 {
 	int c;
@@ -428,7 +443,7 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 	    c == ']' ||
 	    c == '{' ||
 	    c == '}') {
-		tok = isl_token_new(s->ctx, line, col, old_line != line);
+		tok = new_token(s, line, col, old_line != line);
 		if (!tok)
 			return NULL;
 		tok->type = (enum isl_token_type)c;
@@ -437,7 +452,7 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 	if (c == '-') {
 		int c;
 		if ((c = isl_stream_getc(s)) == '>') {
-			tok = isl_token_new(s->ctx, line, col, old_line != line);
+			tok = new_token(s, line, col, old_line != line);
 			if (!tok)
 				return NULL;
 			tok->u.s = strdup("->");
@@ -447,7 +462,7 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 		if (c != -1)
 			isl_stream_ungetc(s, c);
 		if (!isdigit(c)) {
-			tok = isl_token_new(s->ctx, line, col, old_line != line);
+			tok = new_token(s, line, col, old_line != line);
 			if (!tok)
 				return NULL;
 			tok->type = (enum isl_token_type) '-';
@@ -456,7 +471,7 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 	}
 	if (c == '-' || isdigit(c)) {
 		int minus = c == '-';
-		tok = isl_token_new(s->ctx, line, col, old_line != line);
+		tok = new_token(s, line, col, old_line != line);
 		if (!tok)
 			return NULL;
 		tok->type = ISL_TOKEN_VALUE;
@@ -474,7 +489,7 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 			tok->col++;
 			tok->on_new_line = 0;
 			isl_stream_push_token(s, tok);
-			tok = isl_token_new(s->ctx, line, col, old_line != line);
+			tok = new_token(s, line, col, old_line != line);
 			if (!tok)
 				return NULL;
 			tok->type = (enum isl_token_type) '-';
@@ -482,7 +497,7 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 		return tok;
 	}
 	if (isalpha(c) || c == '_') {
-		tok = isl_token_new(s->ctx, line, col, old_line != line);
+		tok = new_token(s, line, col, old_line != line);
 		if (!tok)
 			return NULL;
 		isl_stream_push_char(s, c);
@@ -500,12 +515,14 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 		if (tok->type != ISL_TOKEN_IDENT)
 			tok->is_keyword = 1;
 		tok->u.s = strdup(s->buffer);
-		if (!tok->u.s)
+		if (!tok->u.s) {
+			s->eof = 1;
 			goto error;
+		}
 		return tok;
 	}
 	if (c == '"') {
-		tok = isl_token_new(s->ctx, line, col, old_line != line);
+		tok = new_token(s, line, col, old_line != line);
 		if (!tok)
 			return NULL;
 		tok->type = ISL_TOKEN_STRING;
@@ -518,11 +535,15 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 		}
 		isl_stream_push_char(s, '\0');
 		tok->u.s = strdup(s->buffer);
+		if (!tok->u.s) {
+			s->eof = 1;
+			goto error;
+		}
 		return tok;
 	}
 	if (c == '=') {
 		int c;
-		tok = isl_token_new(s->ctx, line, col, old_line != line);
+		tok = new_token(s, line, col, old_line != line);
 		if (!tok)
 			return NULL;
 		if ((c = isl_stream_getc(s)) == '=') {
@@ -537,7 +558,7 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 	}
 	if (c == ':') {
 		int c;
-		tok = isl_token_new(s->ctx, line, col, old_line != line);
+		tok = new_token(s, line, col, old_line != line);
 		if (!tok)
 			return NULL;
 		if ((c = isl_stream_getc(s)) == '=') {
@@ -552,7 +573,7 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 	}
 	if (c == '>') {
 		int c;
-		tok = isl_token_new(s->ctx, line, col, old_line != line);
+		tok = new_token(s, line, col, old_line != line);
 		if (!tok)
 			return NULL;
 		if ((c = isl_stream_getc(s)) == '=') {
@@ -577,7 +598,7 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 	}
 	if (c == '<') {
 		int c;
-		tok = isl_token_new(s->ctx, line, col, old_line != line);
+		tok = new_token(s, line, col, old_line != line);
 		if (!tok)
 			return NULL;
 		if ((c = isl_stream_getc(s)) == '=') {
@@ -601,7 +622,7 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 		return tok;
 	}
 	if (c == '&') {
-		tok = isl_token_new(s->ctx, line, col, old_line != line);
+		tok = new_token(s, line, col, old_line != line);
 		if (!tok)
 			return NULL;
 		tok->type = ISL_TOKEN_AND;
@@ -613,7 +634,7 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 		return tok;
 	}
 	if (c == '|') {
-		tok = isl_token_new(s->ctx, line, col, old_line != line);
+		tok = new_token(s, line, col, old_line != line);
 		if (!tok)
 			return NULL;
 		tok->type = ISL_TOKEN_OR;
@@ -625,7 +646,7 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 		return tok;
 	}
 	if (c == '/') {
-		tok = isl_token_new(s->ctx, line, col, old_line != line);
+		tok = new_token(s, line, col, old_line != line);
 		if (!tok)
 			return NULL;
 		if ((c = isl_stream_getc(s)) == '\\') {
@@ -644,7 +665,7 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 		return tok;
 	}
 	if (c == '\\') {
-		tok = isl_token_new(s->ctx, line, col, old_line != line);
+		tok = new_token(s, line, col, old_line != line);
 		if (!tok)
 			return NULL;
 		if ((c = isl_stream_getc(s)) != '/' && c != -1) {
@@ -657,7 +678,7 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 		return tok;
 	}
 	if (c == '!') {
-		tok = isl_token_new(s->ctx, line, col, old_line != line);
+		tok = new_token(s, line, col, old_line != line);
 		if (!tok)
 			return NULL;
 		if ((c = isl_stream_getc(s)) == '=') {
@@ -673,7 +694,7 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 		return tok;
 	}
 
-	tok = isl_token_new(s->ctx, line, col, old_line != line);
+	tok = new_token(s, line, col, old_line != line);
 	if (!tok)
 		return NULL;
 	tok->type = ISL_TOKEN_UNKNOWN;
-- 
2.43.0


From 14f4ecff1a48f1823fc5eb53f3cde94809981495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:37 +0000
Subject: [PATCH 69/91] fix: isl_input.c: variable_new: check allocation
 failure

---
 isl_input.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_input.c b/isl_input.c
index 3c9c68d..c717226 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -102,6 +102,10 @@ static struct variable *variable_new(struct vars *v, const char *name, int len,
 	if (!var)
 		goto error;
 	var->name = strdup(name);
+	if (!var->name) {
+		free(var);
+		goto error;
+	}
 	var->name[len] = '\0';
 	var->pos = pos;
 	var->next = v->v;
-- 
2.43.0


From 388b04dcd51e3d609f63bf0b833534beeed1c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:09 +0000
Subject: [PATCH 70/91] fix: isl_stream: do not treat a token that cannot be
 allocated as end of file

---
 isl_stream.c         | 26 +++++++++++++++++---------
 isl_stream_private.h |  1 +
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/isl_stream.c b/isl_stream.c
index 7f41b6a..02c25cf 100644
--- a/isl_stream.c
+++ b/isl_stream.c
@@ -190,6 +190,7 @@ static __isl_give isl_stream* isl_stream_new(struct isl_ctx *ctx)
 	s->line = 1;
 	s->col = 1;
 	s->eof = 0;
+	s->lost = 0;
 	s->last_line = 0;
 	s->c = -1;
 	s->n_un = 0;
@@ -375,9 +376,16 @@ int isl_stream_skip_line(__isl_keep isl_stream *s)
 	return c == -1 ? -1 : 0;
 }
 
+/* A token could not be allocated.
+ * This means the token is lost, so no further tokens can be read from "s".
+ */
+static void lost_token(__isl_keep isl_stream *s)
+{
+	s->eof = 1;
+	s->lost = 1;
+}
+
 /* Create a new token for use in "s".
- * If this fails, then the token is lost, so no further tokens
- * can be read from "s".
  */
 static struct isl_token *new_token(__isl_keep isl_stream *s, int line, int col,
 	unsigned on_new_line)
@@ -386,7 +394,7 @@ static struct isl_token *new_token(__isl_keep isl_stream *s, int line, int col,
 
 	tok = isl_token_new(s->ctx, line, col, on_new_line);
 	if (!tok)
-		s->eof = 1;
+		lost_token(s);
 	return tok;
 }
 
@@ -516,7 +524,7 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 			tok->is_keyword = 1;
 		tok->u.s = strdup(s->buffer);
 		if (!tok->u.s) {
-			s->eof = 1;
+			lost_token(s);
 			goto error;
 		}
 		return tok;
@@ -536,7 +544,7 @@ static struct isl_token *next_token(__isl_keep isl_stream *s, int same_line)
 		isl_stream_push_char(s, '\0');
 		tok->u.s = strdup(s->buffer);
 		if (!tok->u.s) {
-			s->eof = 1;
+			lost_token(s);
 			goto error;
 		}
 		return tok;
@@ -1023,7 +1031,7 @@ isl_bool isl_stream_yaml_next(__isl_keep isl_stream *s)
 		}
 		tok = isl_stream_next_token(s);
 		if (!tok)
-			return isl_bool_false;
+			return s->lost ? isl_bool_error : isl_bool_false;
 		indent = tok->col - 1;
 		isl_stream_push_token(s, tok);
 		if (indent < get_yaml_indent(s))
@@ -1059,7 +1067,7 @@ isl_bool isl_stream_yaml_next(__isl_keep isl_stream *s)
 			return isl_bool_ok(isl_stream_eat_if_available(s, ','));
 		tok = isl_stream_next_token(s);
 		if (!tok)
-			return isl_bool_false;
+			return s->lost ? isl_bool_error : isl_bool_false;
 		indent = tok->col - 1;
 		if (indent < get_yaml_indent(s) || tok->type != '-') {
 			isl_stream_push_token(s, tok);
@@ -1128,7 +1136,7 @@ isl_stat isl_stream_yaml_read_end_mapping(__isl_keep isl_stream *s)
 
 	tok = isl_stream_next_token(s);
 	if (!tok)
-		return pop_state(s);
+		return s->lost ? isl_stat_error : pop_state(s);
 
 	indent = tok->col - 1;
 	isl_stream_push_token(s, tok);
@@ -1199,7 +1207,7 @@ isl_stat isl_stream_yaml_read_end_sequence(__isl_keep isl_stream *s)
 
 	tok = isl_stream_next_token(s);
 	if (!tok)
-		return pop_state(s);
+		return s->lost ? isl_stat_error : pop_state(s);
 
 	indent = tok->col - 1;
 	dash = tok->type == '-';
diff --git a/isl_stream_private.h b/isl_stream_private.h
index b199ec6..49c7a98 100644
--- a/isl_stream_private.h
+++ b/isl_stream_private.h
@@ -48,6 +48,7 @@ struct isl_stream {
 	int		start_col;
 	int		last_line;
 	int	    	eof;
+	int	    	lost;
 
 	char	    	*buffer;
 	size_t	    	size;
-- 
2.43.0


From 13b1c09f06b1fe3d406180697f9e16fc567de796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:49 +0000
Subject: [PATCH 71/91] fix: isl_schedule_read.c: read_children: stop reading
 on failure

---
 isl_schedule_read.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_schedule_read.c b/isl_schedule_read.c
index 489589f..04f809a 100644
--- a/isl_schedule_read.c
+++ b/isl_schedule_read.c
@@ -624,6 +624,8 @@ static __isl_give isl_schedule_tree *read_children(isl_stream *s,
 
 		tree = isl_stream_read_schedule_tree(s);
 		list = isl_schedule_tree_list_add(list, tree);
+		if (!list)
+			return NULL;
 	}
 
 	if (more < 0 || isl_stream_yaml_read_end_sequence(s) < 0)
-- 
2.43.0


From f05799040e9aff0224606643dfe6757a14bdd584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:49 +0000
Subject: [PATCH 72/91] fix: isl_stream_read_val: check for lost token

---
 isl_input.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_input.c b/isl_input.c
index c717226..656e156 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -234,6 +234,8 @@ __isl_give isl_val *isl_stream_read_val(__isl_keep isl_stream *s)
 	} else {
 		val = isl_val_int_from_isl_int(s->ctx, tok->u.v);
 	}
+	if (s->lost)
+		val = isl_val_free(val);
 
 	isl_token_free(tok);
 	isl_token_free(tok2);
-- 
2.43.0


From 2763cccdd14b972069eb79388da35e6a20dd4317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:40 +0000
Subject: [PATCH 73/91] fix: isl_mat_unimodular_complete: do not modify shared
 matrix

---
 isl_mat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_mat.c b/isl_mat.c
index 37468ee..636792b 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -1739,6 +1739,7 @@ __isl_give isl_mat *isl_mat_unimodular_complete(__isl_take isl_mat *M, int row)
 	int r;
 	struct isl_mat *H = NULL, *Q = NULL;
 
+	M = isl_mat_cow(M);
 	if (!M)
 		return NULL;
 
-- 
2.43.0


From dfe1b5bf95d8175425c9d2dae2972f5c2f7f72c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:23 +0000
Subject: [PATCH 74/91] fix: isl_mat_normalize: leave zero matrix alone

---
 isl_mat.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_mat.c b/isl_mat.c
index 636792b..4fa96f0 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -1995,7 +1995,8 @@ __isl_give isl_mat *isl_mat_normalize(__isl_take isl_mat *mat)
 
 	isl_int_init(gcd);
 	isl_mat_gcd(mat, &gcd);
-	mat = isl_mat_scale_down(mat, gcd);
+	if (!isl_int_is_zero(gcd))
+		mat = isl_mat_scale_down(mat, gcd);
 	isl_int_clear(gcd);
 
 	return mat;
-- 
2.43.0


From f340787adf06a938892de34656da490b7c8f8af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:21 +0000
Subject: [PATCH 75/91] fix: isl_schedule_tree: update anchored flag when
 removing children

---
 isl_schedule_tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/isl_schedule_tree.c b/isl_schedule_tree.c
index fa8357d..ec7a01a 100644
--- a/isl_schedule_tree.c
+++ b/isl_schedule_tree.c
@@ -764,7 +764,7 @@ __isl_give isl_schedule_tree *isl_schedule_tree_reset_children(
 	if (!tree)
 		return NULL;
 	tree->children = isl_schedule_tree_list_free(tree->children);
-	return tree;
+	return isl_schedule_tree_update_anchored(tree);
 }
 
 /* Remove the child at position "pos" from the children of "tree".
@@ -795,7 +795,7 @@ __isl_give isl_schedule_tree *isl_schedule_tree_drop_child(
 	if (!tree->children)
 		return isl_schedule_tree_free(tree);
 
-	return tree;
+	return isl_schedule_tree_update_anchored(tree);
 }
 
 /* Replace the child at position "pos" of "tree" by "child".
-- 
2.43.0


From e4bd60b8a05a964b35eec8d9dade27ec1298c403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:38 +0000
Subject: [PATCH 76/91] fix: isl_schedule_node_get_universe_domain: only
 include spaces of the domain

---
 isl_schedule_node.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/isl_schedule_node.c b/isl_schedule_node.c
index 9d140e5..f9aca1c 100644
--- a/isl_schedule_node.c
+++ b/isl_schedule_node.c
@@ -525,8 +525,8 @@ static isl_stat collect_filter_prefix_init(__isl_keep isl_schedule_tree *tree,
  *
  * Return 0 on success and -1 on error.
  *
- * If "tree" is a domain and data->universe_domain is not set, then
- * intersect data->filter with the domain.
+ * If "tree" is a domain, then intersect data->filter with the domain
+ * (or its universe if data->universe_domain is set).
  * If "tree" is a filter, then we intersect data->filter with this filter
  * (or its universe).
  * If "tree" is a band with at least one member and data->collect_prefix
@@ -571,9 +571,9 @@ static isl_stat collect_filter_prefix_update(__isl_keep isl_schedule_tree *tree,
 	case isl_schedule_node_set:
 		break;
 	case isl_schedule_node_domain:
-		if (data->universe_domain)
-			break;
 		filter = isl_schedule_tree_domain_get_domain(tree);
+		if (data->universe_domain)
+			filter = isl_union_set_universe(filter);
 		data->filter = isl_union_set_intersect(data->filter, filter);
 		break;
 	case isl_schedule_node_band:
-- 
2.43.0


From fc370629128b5950aeed7c79b4ed36de1f6021bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:45 +0000
Subject: [PATCH 77/91] fix: isl_schedule_node_get_subtree_contraction: respect
 expansion

---
 isl_schedule_node.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/isl_schedule_node.c b/isl_schedule_node.c
index f9aca1c..d3784fd 100644
--- a/isl_schedule_node.c
+++ b/isl_schedule_node.c
@@ -4010,6 +4010,7 @@ static __isl_give isl_schedule_node *subtree_contraction_enter(
 		enum isl_schedule_node_type type;
 		isl_union_set *filter;
 		isl_union_pw_multi_aff *inner, *contraction;
+		isl_union_map *expansion;
 		isl_size n;
 
 		switch (isl_schedule_node_get_type(node)) {
@@ -4045,6 +4046,12 @@ static __isl_give isl_schedule_node *subtree_contraction_enter(
 							    data->contractions);
 			contraction =
 			    isl_schedule_node_expansion_get_contraction(node);
+			expansion =
+			    isl_schedule_node_expansion_get_expansion(node);
+			contraction =
+			    isl_union_pw_multi_aff_intersect_domain_union_set(
+						contraction,
+						isl_union_map_range(expansion));
 			inner =
 			    isl_union_pw_multi_aff_list_get_union_pw_multi_aff(
 						data->contractions, n - 1);
-- 
2.43.0


From b73aab749c18422553714a8ba9be6c8722b2e5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:54 +0000
Subject: [PATCH 78/91] fix: isl_token_get_str: reject tokens that do not hold
 a string

---
 isl_stream.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_stream.c b/isl_stream.c
index 02c25cf..264f775 100644
--- a/isl_stream.c
+++ b/isl_stream.c
@@ -107,7 +107,8 @@ __isl_give char *isl_token_get_str(isl_ctx *ctx, struct isl_token *tok)
 {
 	if (!tok)
 		return NULL;
-	if (!tok->u.s)
+	if (tok->type == ISL_TOKEN_VALUE || tok->type == ISL_TOKEN_MAP ||
+	    tok->type == ISL_TOKEN_AFF || !tok->u.s)
 		isl_die(ctx, isl_error_invalid,
 			"token does not have a string representation",
 			return NULL);
-- 
2.43.0


From 8d95ff9a6b678008702961ff85b2934e614fd3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:56 +0000
Subject: [PATCH 79/91] fix: isl_vec_read_from_file: reject invalid vector
 lengths

---
 isl_input.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/isl_input.c b/isl_input.c
index 656e156..6af395f 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -15,6 +15,7 @@
  */
 
 #include <ctype.h>
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 #include <isl_ctx_private.h>
@@ -3493,11 +3494,18 @@ static __isl_give isl_vec *isl_vec_read_polylib(__isl_keep isl_stream *s)
 		isl_stream_error(s, tok, "expecting vector length");
 		goto error;
 	}
+	if (isl_int_is_neg(tok->u.v) || isl_int_cmp_si(tok->u.v, INT_MAX) > 0) {
+		isl_stream_error(s, tok, "invalid vector length");
+		goto error;
+	}
 
 	size = isl_int_get_si(tok->u.v);
 	isl_token_free(tok);
+	tok = NULL;
 
 	vec = isl_vec_alloc(s->ctx, size);
+	if (!vec)
+		goto error;
 
 	for (j = 0; j < size; ++j) {
 		tok = isl_stream_next_token(s);
-- 
2.43.0


From b3609b6a5b23fb0b4114086882a1c5f93cf8898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:27 +0000
Subject: [PATCH 80/91] fix: isl_pw_qpolynomial_read: reject invalid exponents

---
 isl_input.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/isl_input.c b/isl_input.c
index 6af395f..9f61495 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -2535,6 +2535,9 @@ static __isl_give isl_map *map_read_polylib(__isl_keep isl_stream *s)
 	return map;
 }
 
+/* Read an optional exponent, returning 1 if there is none and
+ * -1 on error.
+ */
 static int optional_power(__isl_keep isl_stream *s)
 {
 	int pow;
@@ -2549,11 +2552,13 @@ static int optional_power(__isl_keep isl_stream *s)
 	}
 	isl_token_free(tok);
 	tok = isl_stream_next_token(s);
-	if (!tok || tok->type != ISL_TOKEN_VALUE) {
+	if (!tok || tok->type != ISL_TOKEN_VALUE ||
+	    isl_int_is_neg(tok->u.v) ||
+	    isl_int_cmp_si(tok->u.v, INT_MAX) > 0) {
 		isl_stream_error(s, tok, "expecting exponent");
 		if (tok)
 			isl_stream_push_token(s, tok);
-		return 1;
+		return -1;
 	}
 	pow = isl_int_get_si(tok->u.v);
 	isl_token_free(tok);
@@ -2584,6 +2589,8 @@ static __isl_give isl_pw_qpolynomial *read_factor(__isl_keep isl_stream *s,
 		if (isl_stream_eat(s, ')'))
 			goto error;
 		pow = optional_power(s);
+		if (pow < 0)
+			goto error;
 		pwqp = isl_pw_qpolynomial_pow(pwqp, pow);
 	} else if (tok->type == ISL_TOKEN_VALUE) {
 		struct isl_token *tok2;
@@ -2636,6 +2643,8 @@ static __isl_give isl_pw_qpolynomial *read_factor(__isl_keep isl_stream *s,
 		}
 		isl_token_free(tok);
 		pow = optional_power(s);
+		if (pow < 0)
+			return NULL;
 		qp = isl_qpolynomial_var_pow_on_domain(isl_map_get_space(map), pos, pow);
 		pwqp = isl_pw_qpolynomial_from_qpolynomial(qp);
 	} else if (is_start_of_div(tok)) {
@@ -2646,6 +2655,8 @@ static __isl_give isl_pw_qpolynomial *read_factor(__isl_keep isl_stream *s,
 		pwaff = accept_div(s, isl_map_get_space(map), v);
 		pow = optional_power(s);
 		pwqp = isl_pw_qpolynomial_from_pw_aff(pwaff);
+		if (pow < 0)
+			goto error;
 		pwqp = isl_pw_qpolynomial_pow(pwqp, pow);
 	} else if (tok->type == '-') {
 		isl_token_free(tok);
-- 
2.43.0


From 041df0679d85b04e73f6cca25a7edfbe499f73d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:27 +0000
Subject: [PATCH 81/91] fix: next_token: reject negative exponents

---
 isl_input.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_input.c b/isl_input.c
index 9f61495..7b0e3c9 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -168,6 +168,10 @@ static struct isl_token *next_token(__isl_keep isl_stream *s)
 		isl_stream_error(s, tok2, "expecting constant value");
 		goto error;
 	}
+	if (isl_int_is_neg(tok2->u.v)) {
+		isl_stream_error(s, tok2, "expecting non-negative exponent");
+		goto error;
+	}
 
 	isl_int_pow_ui(tok->u.v, tok->u.v, isl_int_get_ui(tok2->u.v));
 
-- 
2.43.0


From 06562d4c4c123223b8601d4ad07447451c678155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:52 +0000
Subject: [PATCH 82/91] fix: isl_map_transitive_closure: fix exactness check on
 unbounded path lengths

---
 isl_transitive_closure.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/isl_transitive_closure.c b/isl_transitive_closure.c
index 2733cee..98fa818 100644
--- a/isl_transitive_closure.c
+++ b/isl_transitive_closure.c
@@ -713,25 +713,38 @@ error:
 }
 
 /* Check whether "path" is acyclic, where the last coordinates of domain
- * and range of path encode the number of steps taken.
+ * and range of path encode the number of steps taken, and
+ * whether the number of steps is bounded for any difference
+ * of the remaining coordinates.
  * That is, check whether
  *
  *	{ d | d = y - x and (x,y) in path }
  *
  * does not contain any element with positive last coordinate (positive length)
- * and zero remaining coordinates (cycle).
+ * and zero remaining coordinates (cycle) and whether the last coordinate
+ * is bounded from above in terms of the remaining coordinates.
+ * Without such a bound, there could be an infinite sequence
+ * of paths between two elements, even if none of them is a cycle.
  */
 static isl_bool is_acyclic(__isl_take isl_map *path)
 {
 	int i;
-	isl_bool acyclic;
+	isl_bool acyclic, bounded;
 	isl_size dim;
 	struct isl_set *delta;
+	isl_set *hull;
 
 	delta = isl_map_deltas(path);
 	dim = isl_set_dim(delta, isl_dim_set);
 	if (dim < 0)
 		delta = isl_set_free(delta);
+	hull = isl_set_remove_divs(isl_set_copy(delta));
+	bounded = isl_set_dim_has_upper_bound(hull, isl_dim_set, dim - 1);
+	isl_set_free(hull);
+	if (bounded < 0 || !bounded) {
+		isl_set_free(delta);
+		return bounded;
+	}
 	for (i = 0; i < dim; ++i) {
 		if (i == dim -1)
 			delta = isl_set_lower_bound_si(delta, isl_dim_set, i, 1);
-- 
2.43.0


From f68926f377db4f522b37a87100fe55a9cbe1f5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:52 +0000
Subject: [PATCH 83/91] fix: isl_union_map_power: handle single map between
 different spaces

---
 isl_transitive_closure.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/isl_transitive_closure.c b/isl_transitive_closure.c
index 98fa818..e609300 100644
--- a/isl_transitive_closure.c
+++ b/isl_transitive_closure.c
@@ -2905,6 +2905,16 @@ static isl_stat power(__isl_take isl_map *map, void *user)
 	return isl_stat_error;
 }
 
+/* Does "map" map a space to itself?
+ */
+static isl_bool is_transformation(__isl_keep isl_map *map, void *user)
+{
+	isl_space *space;
+
+	space = isl_map_peek_space(map);
+	return isl_space_tuple_is_equal(space, isl_dim_in, space, isl_dim_out);
+}
+
 /* Construct a map [[x]->[y]] -> [y-x], with parameters prescribed by "space".
  */
 static __isl_give isl_union_map *deltas_map(__isl_take isl_space *space)
@@ -2922,11 +2932,15 @@ static __isl_give isl_union_map *deltas_map(__isl_take isl_space *space)
 /* Compute the positive powers of "map", or an overapproximation.
  * The result maps the exponent to a nested copy of the corresponding power.
  * If the result is exact, then *exact is set to 1.
+ *
+ * If "umap" consists of a single map from a space to itself,
+ * then the computation can be performed on this map.
  */
 __isl_give isl_union_map *isl_union_map_power(__isl_take isl_union_map *umap,
 	isl_bool *exact)
 {
 	isl_size n;
+	isl_bool single;
 	isl_union_map *inc;
 	isl_union_map *dm;
 
@@ -2935,7 +2949,13 @@ __isl_give isl_union_map *isl_union_map_power(__isl_take isl_union_map *umap,
 		return isl_union_map_free(umap);
 	if (n == 0)
 		return umap;
-	if (n == 1) {
+	single = isl_bool_ok(n == 1);
+	if (single)
+		single = isl_union_map_every_map(umap,
+						&is_transformation, NULL);
+	if (single < 0)
+		return isl_union_map_free(umap);
+	if (single) {
 		struct isl_union_power up = { NULL, exact };
 		isl_union_map_foreach_map(umap, &power, &up);
 		isl_union_map_free(umap);
-- 
2.43.0


From e511478255ce398a8e7431dec70c87385957aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:52 +0000
Subject: [PATCH 84/91] fix: isl_union_map_transitive_closure: handle missing
 exact argument

---
 isl_transitive_closure.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/isl_transitive_closure.c b/isl_transitive_closure.c
index e609300..b0f7248 100644
--- a/isl_transitive_closure.c
+++ b/isl_transitive_closure.c
@@ -2778,6 +2778,8 @@ static __isl_give isl_union_map *union_components(
 	struct isl_tarjan_graph *g = NULL;
 	int c, l;
 	int recheck = 0;
+	isl_bool *orig_exact;
+	isl_bool local_exact = isl_bool_true;
 
 	n = 0;
 	if (isl_union_map_foreach_map(umap, inc_count, &n) < 0)
@@ -2803,6 +2805,10 @@ static __isl_give isl_union_map *union_components(
 	if (!g)
 		goto error;
 
+	orig_exact = exact;
+	if (data.check_closed && !exact)
+		exact = &local_exact;
+
 	c = 0;
 	i = 0;
 	l = n;
@@ -2844,7 +2850,7 @@ static __isl_give isl_union_map *union_components(
 
 	if (recheck) {
 		isl_union_map_free(path);
-		return union_floyd_warshall(umap, exact);
+		return union_floyd_warshall(umap, orig_exact);
 	}
 
 	isl_union_map_free(umap);
-- 
2.43.0


From 3500b9c62d59c25d31b9c0ce277041466885de7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:55 +0000
Subject: [PATCH 85/91] fix: isl_space_range_reverse: also swap dimension
 identifiers

---
 isl_space.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/isl_space.c b/isl_space.c
index 414f84d..b35971e 100644
--- a/isl_space.c
+++ b/isl_space.c
@@ -2014,6 +2014,38 @@ error:
 	return NULL;
 }
 
+/* Given a space "space" with a wrapped range [A -> B]
+ * where the identifiers of the output dimensions are still
+ * in the order corresponding to [B -> A],
+ * put them in the order corresponding to [A -> B].
+ */
+static __isl_give isl_space *swap_range_ids(__isl_take isl_space *space)
+{
+	isl_space *nested;
+	isl_id **ids;
+	unsigned n1, n2;
+
+	if (!space || !space->ids || space->n_out == 0)
+		return space;
+
+	space = isl_space_cow(space);
+	if (!space)
+		return NULL;
+
+	nested = isl_space_peek_nested(space, 1);
+	n1 = nested->n_in;
+	n2 = nested->n_out;
+	ids = isl_alloc_array(space->ctx, isl_id *, n1 + n2);
+	if (!ids)
+		return isl_space_free(space);
+	get_ids(space, isl_dim_out, 0, n2, ids + n1);
+	get_ids(space, isl_dim_out, n2, n1, ids);
+	space = set_ids(space, isl_dim_out, 0, n1 + n2, ids);
+	free(ids);
+
+	return space;
+}
+
 /* Given a space A -> (B -> C), return the corresponding space
  * A -> (C -> B).
  *
@@ -2038,6 +2070,7 @@ __isl_give isl_space *isl_space_range_reverse(__isl_take isl_space *space)
 	nested = isl_space_take_nested(space, 1);
 	nested = isl_space_reverse(nested);
 	space = isl_space_restore_nested(space, 1, nested);
+	space = swap_range_ids(space);
 	if (!equal)
 		space = isl_space_reset_tuple_id(space, isl_dim_out);
 
-- 
2.43.0


From 1a7419bdf8e9ee1660a65d3b38ebb99469cf581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:19 +0000
Subject: [PATCH 86/91] fix: isl_pw_qpolynomial_mul: align parameters

---
 isl_polynomial.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_polynomial.c b/isl_polynomial.c
index b8665be..9d7b8d4 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -3139,6 +3139,7 @@ __isl_give isl_pw_qpolynomial *isl_pw_qpolynomial_mul(
 	int i, j, n;
 	struct isl_pw_qpolynomial *res;
 
+	isl_pw_qpolynomial_align_params_bin(&pwqp1, &pwqp2);
 	if (!pwqp1 || !pwqp2)
 		goto error;
 
-- 
2.43.0


From b34109f15e06d7a7938ad48e73a2f2276b127a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:20 +0000
Subject: [PATCH 87/91] fix: isl_pw_qpolynomial_fold_fold: align parameters

---
 isl_fold.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_fold.c b/isl_fold.c
index 47a1952..9bd62bb 100644
--- a/isl_fold.c
+++ b/isl_fold.c
@@ -1137,6 +1137,7 @@ __isl_give isl_pw_qpolynomial_fold *isl_pw_qpolynomial_fold_fold(
 	struct isl_pw_qpolynomial_fold *res;
 	isl_set *set;
 
+	isl_pw_qpolynomial_fold_align_params_bin(&pw1, &pw2);
 	if (!pw1 || !pw2)
 		goto error;
 
-- 
2.43.0


From a9bf69410387e6192dedabc77a0bd3fbb15025ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:12 +0000
Subject: [PATCH 88/91] fix: isl_map_apply_pw_qpolynomial_fold: align
 parameters

---
 isl_fold.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_fold.c b/isl_fold.c
index 9bd62bb..6783eec 100644
--- a/isl_fold.c
+++ b/isl_fold.c
@@ -1920,6 +1920,9 @@ __isl_give isl_pw_qpolynomial_fold *isl_map_apply_pw_qpolynomial_fold(
 	if (!ctx)
 		goto error;
 
+	pwf = isl_pw_qpolynomial_fold_align_params(pwf, isl_map_get_space(map));
+	map = isl_map_align_params(map,
+				    isl_pw_qpolynomial_fold_get_space(pwf));
 	map_space = isl_map_get_space(map);
 	pwf_space = isl_pw_qpolynomial_fold_get_space(pwf);
 	ok = join_compatible(map_space, pwf_space);
-- 
2.43.0


From 59e1ea63e4dac78d9f045944b1bee5feba7b1d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:20 +0000
Subject: [PATCH 89/91] fix: isl_args_parse: do not use stale arguments as
 option arguments

---
 isl_arg.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/isl_arg.c b/isl_arg.c
index 8a9e26d..8351f27 100644
--- a/isl_arg.c
+++ b/isl_arg.c
@@ -1211,12 +1211,20 @@ static void print_version_and_exit(struct isl_arg *decl)
 	exit(0);
 }
 
+/* Remove the "n" arguments starting at position "drop" from "argv",
+ * making sure that the remaining arguments are followed by
+ * a null pointer, such that the last of them is not considered
+ * to be followed by a stale argument.
+ */
 static int drop_argument(int argc, char **argv, int drop, int n)
 {
 	for (; drop + n < argc; ++drop)
 		argv[drop] = argv[drop + n];
 
-	return argc - n;
+	argc -= n;
+	argv[argc] = NULL;
+
+	return argc;
 }
 
 static int n_arg(struct isl_arg *arg)
-- 
2.43.0


From f9ee16eae427e06fe018b7397bf867f6509d2c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:52 +0000
Subject: [PATCH 90/91] fix: isl_arg.c: do not read the value of a phantom
 option for --help

---
 isl_arg.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/isl_arg.c b/isl_arg.c
index 8351f27..2fca3ce 100644
--- a/isl_arg.c
+++ b/isl_arg.c
@@ -435,7 +435,8 @@ static void print_choice_help(struct isl_arg *decl,
 	}
 
 	pos = print_help_msg(decl, pos);
-	print_default_choice(decl, opt, pos);
+	if (decl->offset != ISL_ARG_OFFSET_NONE)
+		print_default_choice(decl, opt, pos);
 
 	printf("\n");
 }
@@ -517,7 +518,9 @@ static void print_bool_help(struct isl_arg *decl,
 	struct isl_prefixes *prefixes, void *opt)
 {
 	int pos;
-	unsigned *p = opt ? (unsigned *)(((char *) opt) + decl->offset) : NULL;
+	int has_value = opt && decl->offset != ISL_ARG_OFFSET_NONE;
+	unsigned *p = has_value ? (unsigned *)(((char *) opt) + decl->offset) :
+				  NULL;
 	int no = p ? *p == 1 : 0;
 	pos = print_arg_help(decl, prefixes, no);
 	pos = print_help_msg(decl, pos);
-- 
2.43.0


From 5b84856f19a0295dfb012d1c801f83c3a327cd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:46 +0000
Subject: [PATCH 91/91] fix: isl_args_parse: do not reassign arguments to
 initial parameters

---
 isl_arg.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/isl_arg.c b/isl_arg.c
index 2fca3ce..bb45935 100644
--- a/isl_arg.c
+++ b/isl_arg.c
@@ -1284,9 +1284,10 @@ int isl_args_parse(struct isl_args *args, int argc, char **argv, void *opt,
 	while (argc > 1 + skip) {
 		int parsed;
 		if (argv[1 + skip][0] != '-') {
-			a = next_arg(args->args, a);
-			if (a >= 0) {
+			int next = next_arg(args->args, a);
+			if (next >= 0) {
 				char **p;
+				a = next;
 				p = (char **)(((char *)opt)+args->args[a].offset);
 				free(*p);
 				*p = strdup(argv[1 + skip]);
-- 
2.43.0

