From 5f7a3fb22457a04d67b96591ecaef523f8a0b9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:32 +0000
Subject: [PATCH 1/4] fix: do not combine constraints whose factors' ranges
 stem from the constraints themselves

The rule replacing x * a = 0 and x * b = 0 by x * (a + b) = 0 relies on range
constraints for a and b. For e.g. x * (1 - x) = 0 the range constraint on 1 - x
is implied by the very constraint that is removed, so the combined constraint
admitted new solutions (x = 1 + b).
---
 constraint-solver/src/rule_based_optimizer/environment.rs | 8 ++++++++
 constraint-solver/src/rule_based_optimizer/rules.rs       | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/constraint-solver/src/rule_based_optimizer/environment.rs b/constraint-solver/src/rule_based_optimizer/environment.rs
index 660cb78..0ac6f1e 100644
--- a/constraint-solver/src/rule_based_optimizer/environment.rs
+++ b/constraint-solver/src/rule_based_optimizer/environment.rs
@@ -119,6 +119,14 @@ impl<T: FieldElement> Environment<T> {
         self.single_occurrence_variables.iter()
     }
 
+    /// Returns true if no variable is referenced by both expressions.
+    pub fn have_disjoint_variables(&self, expr1: Expr, expr2: Expr) -> bool {
+        let db = self.expressions.borrow();
+        let vars1: HashSet<_> = db[expr1].referenced_unknown_variables().collect();
+        let vars2: HashSet<_> = db[expr2].referenced_unknown_variables().collect();
+        vars1.is_disjoint(&vars2)
+    }
+
     /// Split Expr into head and tail, i.e., expr = head + tail
     pub fn try_split_into_head_tail(&self, expr: Expr) -> Option<(Expr, Expr)> {
         let db = self.expressions.borrow();
diff --git a/constraint-solver/src/rule_based_optimizer/rules.rs b/constraint-solver/src/rule_based_optimizer/rules.rs
index b4a0752..957165d 100644
--- a/constraint-solver/src/rule_based_optimizer/rules.rs
+++ b/constraint-solver/src/rule_based_optimizer/rules.rs
@@ -546,6 +546,9 @@ crepe! {
       ProductConstraint(e1, x, a),
       ProductConstraint(e2, x, b),
       (e1 < e2),
+      // The range constraints on `a` and `b` must not stem from `e1` or `e2` (which are about to
+      // be removed), as is the case for e.g. `x * (1 - x) = 0`.
+      (env.have_disjoint_variables(x, a) && env.have_disjoint_variables(x, b)),
       RangeConstraintOnExpression(a, rc_a),
       RangeConstraintOnExpression(b, rc_b),
       (rc_a.range().0 == T::zero()
-- 
2.43.0


From e9c07f06fc7afeb037a13cee0187f1bbdf1f43f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:21 +0000
Subject: [PATCH 2/4] fix: only remove bus interactions whose field can be
 solved for the free variable

---
 autoprecompiles/src/constraint_optimizer.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/autoprecompiles/src/constraint_optimizer.rs b/autoprecompiles/src/constraint_optimizer.rs
index 47347ad..a0fd867 100644
--- a/autoprecompiles/src/constraint_optimizer.rs
+++ b/autoprecompiles/src/constraint_optimizer.rs
@@ -288,7 +288,7 @@ fn try_replace_by_number<T: FieldElement, V: Clone + Ord + Hash + Display>(
 /// Motivation: Suppose there is a constraint `2 * foo = bar` and `foo` only appears in this constraint.
 /// Then, if we assume that all constraints are satisfiable, the prover would be able to satisfy it for
 /// any value of `bar` by solving for `foo`. Therefore, the constraint can be removed.
-/// The same would be true for a *stateless* bus interaction, e.g. `[foo * bar] in [BYTES]`.
+/// The same would be true for a *stateless* bus interaction, e.g. `[foo + bar] in [BYTES]`.
 ///
 /// This function removes *some* constraints like this (see TODOs below).
 fn remove_free_variables<T: FieldElement, V: Clone + Ord + Eq + Hash + Display>(
@@ -334,14 +334,20 @@ fn remove_free_variables<T: FieldElement, V: Clone + Ord + Eq + Hash + Display>(
                     .filter(|field| field.try_to_number().is_none())
                     .count()
                     == 1;
-                // If the expression is linear in the free variable, the prover would be able to solve for it
-                // to satisfy the constraint. Otherwise, this is not necessarily the case.
-                // Note that if the above check is true, there will only be one field of degree > 0.
-                let all_degrees_at_most_one = bus_interaction
+                // If the unknown field can be solved for the free variable (regardless of the values of
+                // other variables), the prover can set the field to any value to satisfy the constraint.
+                // Otherwise, this is not necessarily the case: For example, the prover cannot change the
+                // value of `foo * bar + 300` via `foo` if `bar` is zero.
+                let can_solve_for_variable = bus_interaction
                     .payload
                     .iter()
-                    .all(|field| field.degree_of_variable(variable) <= 1);
-                is_stateless && has_one_unknown_field && all_degrees_at_most_one
+                    .filter(|field| field.try_to_number().is_none())
+                    .all(|field| {
+                        AlgebraicConstraint::assert_zero(field)
+                            .try_solve_for(variable)
+                            .is_some()
+                    });
+                is_stateless && has_one_unknown_field && can_solve_for_variable
             }
         })
         .map(|(variable, _constraint)| variable.clone())
-- 
2.43.0


From f85f4a4de5649991805d58e53ca5bf77cd40d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:54 +0000
Subject: [PATCH 3/4] fix: filter block column ranges by their column index

BlockEmpiricalConstraints::filtered passed the position of a range within the
map to the predicate instead of its column index. The two differ once some
column has no range, for example after filtering a first time.
---
 autoprecompiles/src/empirical_constraints.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/autoprecompiles/src/empirical_constraints.rs b/autoprecompiles/src/empirical_constraints.rs
index 7fc8d54..8526a03 100644
--- a/autoprecompiles/src/empirical_constraints.rs
+++ b/autoprecompiles/src/empirical_constraints.rs
@@ -183,13 +183,11 @@ impl BlockEmpiricalConstraints {
                     .collect_vec();
                 let ranges = ranges
                     .into_iter()
-                    .enumerate()
-                    .filter_map(|(col_idx, range)| {
+                    .filter(|(col_idx, _)| {
                         // check that the predicate holds in all matching instructions
                         pc_instruction_indices
                             .iter()
-                            .all(|idx| predicate(&BlockCell::new(*idx, col_idx)))
-                            .then_some(range)
+                            .all(|idx| predicate(&BlockCell::new(*idx, *col_idx)))
                     })
                     .collect();
                 (pc, ranges)
-- 
2.43.0


From eb58323c9dd4bf774268a3ce76772dd16eec45f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:42 +0000
Subject: [PATCH 4/4] fix: only use independent range constraints when
 combining constraints

The rule replacing x * a = 0 and x * b = 0 by x * (a + b) = 0 requires a and b to
be non-negative, but the range constraints it used could stem from the
constraints it removes. For two is-zero gadgets on the same value
(g * i = 0, g * j = 1 - i, g * s = 0, g * t = 1 - s), i and s are only known to be
boolean because of g * i = 0 and g * s = 0, and the combined constraint
g * (i + s) = 0 allows i = -s for nonzero g. Use only range constraints that follow
from single bus interactions or single-variable constraints instead.
---
 .../src/rule_based_optimizer/driver.rs        | 39 ++++++++++++++++++-
 .../src/rule_based_optimizer/environment.rs   | 14 +++++++
 .../src/rule_based_optimizer/rules.rs         |  4 +-
 3 files changed, 54 insertions(+), 3 deletions(-)

diff --git a/constraint-solver/src/rule_based_optimizer/driver.rs b/constraint-solver/src/rule_based_optimizer/driver.rs
index ef2975e..742e1cc 100644
--- a/constraint-solver/src/rule_based_optimizer/driver.rs
+++ b/constraint-solver/src/rule_based_optimizer/driver.rs
@@ -12,7 +12,8 @@ use crate::{
     constraint_system::{
         BusInteraction, BusInteractionHandler, ComputationMethod, ConstraintSystem, DerivedVariable,
     },
-    grouped_expression::{GroupedExpression, RangeConstraintProvider},
+    effect::Effect,
+    grouped_expression::{GroupedExpression, NoRangeConstraints, RangeConstraintProvider},
     indexed_constraint_system::IndexedConstraintSystem,
     inliner::DegreeBound,
     rule_based_optimizer::{
@@ -93,6 +94,10 @@ pub fn rule_based_optimization<T: FieldElement, V: Hash + Eq + Ord + Clone + Dis
                 .map(|(id, var)| (id, var.to_string()))
                 .collect(),
             single_occurrence_vars,
+            independent_range_constraints(&system, &bus_interaction_handler)
+                .into_iter()
+                .map(|(var, rc)| (var_mapper.id(&var), rc))
+                .collect(),
             // The NewVarGenerator will be used to generate fresh variables.
             // because of lifetime and determinism issues, we pass the next ID that
             // the var_mapper would use here and then re-create the
@@ -248,6 +253,38 @@ pub fn rule_based_optimization<T: FieldElement, V: Hash + Eq + Ord + Clone + Dis
     (system, assignments)
 }
 
+/// Returns range constraints on variables that are implied by single bus interactions or by
+/// single algebraic constraints about just that variable. In contrast to the general
+/// range constraints, they do not stem from a combination of constraints.
+fn independent_range_constraints<T: FieldElement, V: Hash + Eq + Ord + Clone + Display>(
+    system: &IndexedConstraintSystem<T, V>,
+    bus_interaction_handler: &impl BusInteractionHandler<T>,
+) -> HashMap<V, RangeConstraint<T>> {
+    let bus_effects = system
+        .bus_interactions()
+        .iter()
+        .filter_map(|bus_inter| {
+            bus_inter
+                .solve(bus_interaction_handler, &NoRangeConstraints)
+                .ok()
+        })
+        .flatten();
+    let algebraic_effects = system
+        .algebraic_constraints()
+        .iter()
+        .filter(|constr| constr.referenced_unknown_variables().all_equal())
+        .filter_map(|constr| constr.as_ref().solve(&NoRangeConstraints).ok())
+        .flat_map(|result| result.effects);
+    bus_effects
+        .chain(algebraic_effects)
+        .filter_map(|effect| match effect {
+            Effect::RangeConstraint(var, rc) => Some((var, rc)),
+            _ => None,
+        })
+        .into_grouping_map()
+        .reduce(|rc1, _, rc2| rc1.conjunction(&rc2))
+}
+
 /// Mainly transforms a `GroupedExpression<T, Var>` back into a `GroupedExpression<T, V>`, but also re-creates
 /// any variables that were newly generated inside the expression and adds potential computation methods
 /// to the constraint system.
diff --git a/constraint-solver/src/rule_based_optimizer/environment.rs b/constraint-solver/src/rule_based_optimizer/environment.rs
index 0ac6f1e..27a864e 100644
--- a/constraint-solver/src/rule_based_optimizer/environment.rs
+++ b/constraint-solver/src/rule_based_optimizer/environment.rs
@@ -10,6 +10,7 @@ use powdr_number::FieldElement;
 use crate::{
     constraint_system::ComputationMethod,
     grouped_expression::GroupedExpression,
+    range_constraint::RangeConstraint,
     rule_based_optimizer::{
         item_db::ItemDB,
         new_var_generator::NewVarGenerator,
@@ -30,6 +31,10 @@ pub struct Environment<T: FieldElement> {
     /// Variables that only occurr once in the system
     /// (also only once in the constraint they occur in).
     single_occurrence_variables: HashSet<Var>,
+
+    /// Range constraints that are each implied by single bus interactions or by
+    /// single algebraic constraints about just that variable.
+    independent_range_constraints: HashMap<Var, RangeConstraint<T>>,
     new_var_generator: RefCell<NewVarGenerator<T>>,
 }
 
@@ -68,12 +73,14 @@ impl<T: FieldElement> Environment<T> {
         expressions: ItemDB<GroupedExpression<T, Var>, Expr>,
         var_to_string: HashMap<Var, String>,
         single_occurrence_variables: HashSet<Var>,
+        independent_range_constraints: HashMap<Var, RangeConstraint<T>>,
         new_var_generator: NewVarGenerator<T>,
     ) -> Self {
         Self {
             expressions: RefCell::new(expressions),
             var_to_string,
             single_occurrence_variables,
+            independent_range_constraints,
             new_var_generator: RefCell::new(new_var_generator),
         }
     }
@@ -119,6 +126,13 @@ impl<T: FieldElement> Environment<T> {
         self.single_occurrence_variables.iter()
     }
 
+    /// Returns a range constraint on the expression that does not rely on
+    /// algebraic constraints about more than one variable.
+    pub fn independent_range_constraint(&self, expr: Expr) -> RangeConstraint<T> {
+        let db = self.expressions.borrow();
+        db[expr].range_constraint(&self.independent_range_constraints)
+    }
+
     /// Returns true if no variable is referenced by both expressions.
     pub fn have_disjoint_variables(&self, expr1: Expr, expr2: Expr) -> bool {
         let db = self.expressions.borrow();
diff --git a/constraint-solver/src/rule_based_optimizer/rules.rs b/constraint-solver/src/rule_based_optimizer/rules.rs
index 957165d..82748bd 100644
--- a/constraint-solver/src/rule_based_optimizer/rules.rs
+++ b/constraint-solver/src/rule_based_optimizer/rules.rs
@@ -549,8 +549,8 @@ crepe! {
       // The range constraints on `a` and `b` must not stem from `e1` or `e2` (which are about to
       // be removed), as is the case for e.g. `x * (1 - x) = 0`.
       (env.have_disjoint_variables(x, a) && env.have_disjoint_variables(x, b)),
-      RangeConstraintOnExpression(a, rc_a),
-      RangeConstraintOnExpression(b, rc_b),
+      let rc_a = env.independent_range_constraint(a),
+      let rc_b = env.independent_range_constraint(b),
       (rc_a.range().0 == T::zero()
         && rc_b.range().0 == T::zero() && !rc_a.combine_sum(&rc_b).is_unconstrained()),
       let replacement = extend_by_none([env.insert_owned(env.extract(x) * (env.extract(a) + env.extract(b)))]);
-- 
2.43.0

