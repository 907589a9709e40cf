From 11c8d0cd3c2314cd3cd3639c42eeeff7eea4722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:34 +0000
Subject: [PATCH 01/15] fix: print Mersenne31/plonky3 field elements in
 canonical form

The Display impl was derived from the inner plonky3 type, which for Mersenne31 can hold
the modulus as a second representation of zero (e.g. -0), printing 2147483647 instead of 0.
---
 number/src/plonky3_macros.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/number/src/plonky3_macros.rs b/number/src/plonky3_macros.rs
index 0b0169f..da56de7 100644
--- a/number/src/plonky3_macros.rs
+++ b/number/src/plonky3_macros.rs
@@ -33,7 +33,6 @@ macro_rules! powdr_field_plonky3 {
             PartialOrd,
             Serialize,
             Deserialize,
-            derive_more::Display,
         )]
         // Serialize/deserialize through canonical u32 so the on-disk format
         // does not depend on the inner plonky3 type's internal representation
@@ -128,6 +127,14 @@ macro_rules! powdr_field_plonky3 {
             }
         }
 
+        impl fmt::Display for $name {
+            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+                // Do not rely on the inner type here, its internal representation
+                // might not be canonical.
+                fmt::Display::fmt(&self.to_canonical_u32(), f)
+            }
+        }
+
         impl LowerHex for $name {
             fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
                 LowerHex::fmt(&self.to_canonical_u32(), f)
-- 
2.43.0


From 5490685e0eea368f7df66e5eaaaf8cb36f85e508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:34 +0000
Subject: [PATCH 02/15] fix: report out-of-range text as error instead of
 panicking in plonky3 fields

from_str_radix returns a Result, but panicked for numbers between the modulus and 2^32.
---
 number/src/plonky3_macros.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/number/src/plonky3_macros.rs b/number/src/plonky3_macros.rs
index da56de7..70815fc 100644
--- a/number/src/plonky3_macros.rs
+++ b/number/src/plonky3_macros.rs
@@ -99,9 +99,10 @@ macro_rules! powdr_field_plonky3 {
             }
 
             fn from_str_radix(s: &str, radix: u32) -> Result<Self, String> {
-                u32::from_str_radix(s, radix)
-                    .map(Self::from_canonical_u32)
-                    .map_err(|e| e.to_string())
+                let n = u32::from_str_radix(s, radix).map_err(|e| e.to_string())?;
+                <$p3_type>::from_canonical_checked(n)
+                    .map(Self)
+                    .ok_or_else(|| format!("Number \"{s}\" too large for field."))
             }
 
             fn checked_from(value: ibig::UBig) -> Option<Self> {
-- 
2.43.0


From 10a67e34e728b718b597f5dce2777aec17ae0fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:13 +0000
Subject: [PATCH 03/15] fix: reject non-canonical integers when deserializing
 field elements

Goldilocks silently created a non-canonical element (which compares unequal to its canonical
twin), the plonky3 fields panicked instead of returning an error.
---
 number/src/goldilocks.rs     | 15 ++++++++++++++-
 number/src/plonky3_macros.rs | 14 ++++++++++++--
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/number/src/goldilocks.rs b/number/src/goldilocks.rs
index 47a5259..3165480 100644
--- a/number/src/goldilocks.rs
+++ b/number/src/goldilocks.rs
@@ -32,13 +32,26 @@ const EPSILON: u64 = (1 << 32) - 1;
     Ord,
     Hash,
     Serialize,
-    Deserialize,
     JsonSchema,
     derive_more::Display,
 )]
 #[repr(transparent)]
 pub struct GoldilocksField(u64);
 
+impl<'de> Deserialize<'de> for GoldilocksField {
+    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        // Only accept canonical values, all operations rely on that.
+        let n = u64::deserialize(deserializer)?;
+        if n < Self::ORDER {
+            Ok(Self(n))
+        } else {
+            Err(serde::de::Error::custom(format!(
+                "number {n} too large for field"
+            )))
+        }
+    }
+}
+
 impl GoldilocksField {
     const ORDER: u64 = 0xFFFFFFFF00000001;
 
diff --git a/number/src/plonky3_macros.rs b/number/src/plonky3_macros.rs
index 70815fc..296cf40 100644
--- a/number/src/plonky3_macros.rs
+++ b/number/src/plonky3_macros.rs
@@ -32,14 +32,24 @@ macro_rules! powdr_field_plonky3 {
             Ord,
             PartialOrd,
             Serialize,
-            Deserialize,
         )]
         // Serialize/deserialize through canonical u32 so the on-disk format
         // does not depend on the inner plonky3 type's internal representation
         // (which is Montgomery form for BabyBear/KoalaBear).
-        #[serde(into = "u32", from = "u32")]
+        #[serde(into = "u32")]
         pub struct $name($p3_type);
 
+        impl<'de> Deserialize<'de> for $name {
+            fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+                let n = u32::deserialize(deserializer)?;
+                <$p3_type>::from_canonical_checked(n)
+                    .map(Self)
+                    .ok_or_else(|| {
+                        serde::de::Error::custom(format!("number {n} too large for field"))
+                    })
+            }
+        }
+
         impl From<$name> for u32 {
             fn from(n: $name) -> u32 {
                 n.to_canonical_u32()
-- 
2.43.0


From 78fc6bf73719d580099d3ab317932db63dbb6988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:13 +0000
Subject: [PATCH 04/15] fix: do not merge product constraints whose own range
 knowledge they provide

If `x` shares variables with `a`, then the range constraint of `a` may be a
consequence of `x * a = 0` itself (e.g. the boolean constraint
`(v - 1) * v = 0`), and merging it into `x * (a + b) = 0` loses it.
---
 .../src/rule_based_optimizer/environment.rs            | 10 ++++++++++
 constraint-solver/src/rule_based_optimizer/rules.rs    |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/constraint-solver/src/rule_based_optimizer/environment.rs b/constraint-solver/src/rule_based_optimizer/environment.rs
index 660cb78..8be24a9 100644
--- a/constraint-solver/src/rule_based_optimizer/environment.rs
+++ b/constraint-solver/src/rule_based_optimizer/environment.rs
@@ -137,6 +137,16 @@ impl<T: FieldElement> Environment<T> {
         expr.is_affine().then(|| expr.linear_components().len())
     }
 
+    /// Returns true if there is no variable that occurs in both expressions.
+    pub fn have_disjoint_variables(&self, e1: Expr, e2: Expr) -> bool {
+        let vars: HashSet<Var> = self.on_expr(e1, (), |e, _| {
+            e.referenced_unknown_variables().copied().collect()
+        });
+        self.on_expr(e2, vars, |e, vars| {
+            !e.referenced_unknown_variables().any(|v| vars.contains(v))
+        })
+    }
+
     /// If this returns Some((coeff, var, offset)) then the expression is affine
     /// and equals `coeff * var + offset`.
     pub fn try_to_affine(&self, expr: Expr) -> Option<(T, Var, T)> {
diff --git a/constraint-solver/src/rule_based_optimizer/rules.rs b/constraint-solver/src/rule_based_optimizer/rules.rs
index b4a0752..b9e3ed1 100644
--- a/constraint-solver/src/rule_based_optimizer/rules.rs
+++ b/constraint-solver/src/rule_based_optimizer/rules.rs
@@ -541,11 +541,14 @@ crepe! {
     // If we have `x * a = 0` and `x * b = 0` and `a` and `b` are
     // both non-negative and their sum is constrained, then we can replace
     // both constraints by `x * (a + b) = 0`.
+    // If `x` shares variables with `a` or `b`, the range constraints might only follow
+    // from the constraints we remove (e.g. `x * (1 - x) = 0`), so we cannot use them.
     ReplaceAlgebraicConstraintsBy(extend_by_none([e1, e2]), replacement) <-
       Env(env),
       ProductConstraint(e1, x, a),
       ProductConstraint(e2, x, b),
       (e1 < e2),
+      (env.have_disjoint_variables(x, a) && env.have_disjoint_variables(x, b)),
       RangeConstraintOnExpression(a, rc_a),
       RangeConstraintOnExpression(b, rc_b),
       (rc_a.range().0 == T::zero()
-- 
2.43.0


From 0c5f05b7b2a7c55968ff39a9891000058ccd99c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:42 +0000
Subject: [PATCH 05/15] fix: avoid divergence of rule-based range propagation
 on constant zero

A bus interaction with a constant zero field (e.g. `x ^ 0 = y`) provides a
range constraint for the expression `0`. Each single-variable expression is the
sum of itself and `0`, so its range constraint was extended until the whole
field was exhausted.
---
 constraint-solver/src/rule_based_optimizer/rules.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/constraint-solver/src/rule_based_optimizer/rules.rs b/constraint-solver/src/rule_based_optimizer/rules.rs
index b9e3ed1..033a440 100644
--- a/constraint-solver/src/rule_based_optimizer/rules.rs
+++ b/constraint-solver/src/rule_based_optimizer/rules.rs
@@ -256,6 +256,9 @@ crepe! {
       RangeConstraintOnVar(v, v_rc);
     RangeConstraintOnExpression(e, head_rc.combine_sum(&tail_rc)) <-
       ExpressionSumHeadTail(e, head, tail),
+      // If the tail is zero, `head` is `e` itself and a range constraint on the constant zero
+      // (bus interactions can provide those) would be added to the one of `e` over and over.
+      (head != e),
       RangeConstraintOnExpression(head, head_rc),
       RangeConstraintOnExpression(tail, tail_rc);
     RangeConstraintOnExpression(e, RangeConstraint::from_value(value)) <-
-- 
2.43.0


From 0034f616687227e79f40e7367243117d8783a588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:59 +0000
Subject: [PATCH 06/15] fix: no integer overflow in the no-wrap rule for 64-bit
 fields

---
 constraint-solver/src/rule_based_optimizer/rules.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/constraint-solver/src/rule_based_optimizer/rules.rs b/constraint-solver/src/rule_based_optimizer/rules.rs
index 033a440..8b38fdc 100644
--- a/constraint-solver/src/rule_based_optimizer/rules.rs
+++ b/constraint-solver/src/rule_based_optimizer/rules.rs
@@ -589,7 +589,7 @@ crepe! {
       RangeConstraintOnExpression(tail, rc_tail),
       (rc_head.range().0 == T::from(0)),
       (rc_tail.range().0 == T::from(0)),
-      (rc_head.range().1.to_integer() + rc_tail.range().1.to_integer() < T::from(-1).to_integer());
+      (rc_head.range().1.to_arbitrary_integer() + rc_tail.range().1.to_arbitrary_integer() < T::from(-1).to_arbitrary_integer());
 
     EqualZero(head) <- EntailsZeroHeadAndTail(head,_);
     EqualZero(tail) <- EntailsZeroHeadAndTail(_, tail);
-- 
2.43.0


From 107d3723ba26c22f3c133e0865f6864df0474e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:25 +0000
Subject: [PATCH 07/15] fix: keep derived variables computable when inlining

Inlining x = d * e where the derived variable d is itself computed from x made the
computation of d refer to d (or to a derived variable that is computed later).
---
 constraint-solver/src/inliner.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/constraint-solver/src/inliner.rs b/constraint-solver/src/inliner.rs
index fb06dcc..e6a7d91 100644
--- a/constraint-solver/src/inliner.rs
+++ b/constraint-solver/src/inliner.rs
@@ -38,7 +38,9 @@ pub fn replace_constrained_witness_columns<
             let constraint = &constraint_system.algebraic_constraints()[curr_idx];
 
             for (var, expr) in find_inlinable_variables(constraint) {
-                if should_inline(&var, &expr, &constraint_system) {
+                if should_inline(&var, &expr, &constraint_system)
+                    && derived_variables_stay_computable(&var, &expr, &constraint_system)
+                {
                     log::trace!("Substituting {var} = {expr}");
                     log::trace!("  (from identity {constraint})");
 
@@ -111,6 +113,29 @@ pub fn substitution_would_not_violate_degree_bound<T: FieldElement, V: Ord + Clo
         })
 }
 
+/// Derived variables are computed in order, so each of them can only depend on derived variables
+/// that precede it. Returns true if this is still the case after substituting `var` by `expr`.
+fn derived_variables_stay_computable<T: FieldElement, V: Ord + Clone + Hash + Eq>(
+    var: &V,
+    expr: &GroupedExpression<T, V>,
+    constraint_system: &IndexedConstraintSystem<T, V>,
+) -> bool {
+    let variables_in_expr: HashSet<_> = expr.referenced_unknown_variables().collect();
+    // Skip all derived variables that do not depend on `var`. The remaining ones might be
+    // computed using `expr` after the substitution.
+    constraint_system
+        .system()
+        .derived_variables
+        .iter()
+        .skip_while(|derived| {
+            !derived
+                .computation_method
+                .referenced_unknown_variables()
+                .contains(var)
+        })
+        .all(|derived| !variables_in_expr.contains(&derived.variable))
+}
+
 /// Returns substitutions of variables that appear linearly and do not depend on themselves.
 fn find_inlinable_variables<T: FieldElement, V: Ord + Clone + Hash + Eq + Display>(
     constraint: &AlgebraicConstraint<GroupedExpression<T, V>>,
-- 
2.43.0


From 3e19fd4a7fe75fca93f6d696a1a679337a339df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 08/15] fix: do not remove lookups whose free variable may have
 a zero coefficient

A stateless bus interaction was dropped if its only unknown field was linear
in a variable not used anywhere else, even if the coefficient of that variable
can be zero, in which case the lookup does constrain the other variables.
---
 autoprecompiles/src/constraint_optimizer.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/autoprecompiles/src/constraint_optimizer.rs b/autoprecompiles/src/constraint_optimizer.rs
index 47347ad..d621694 100644
--- a/autoprecompiles/src/constraint_optimizer.rs
+++ b/autoprecompiles/src/constraint_optimizer.rs
@@ -334,14 +334,20 @@ fn remove_free_variables<T: FieldElement, V: Clone + Ord + Eq + Hash + Display>(
                     .filter(|field| field.try_to_number().is_none())
                     .count()
                     == 1;
-                // If the expression is linear in the free variable, the prover would be able to solve for it
-                // to satisfy the constraint. Otherwise, this is not necessarily the case.
-                // Note that if the above check is true, there will only be one field of degree > 0.
-                let all_degrees_at_most_one = bus_interaction
+                // If the field can be solved for the free variable (i.e. it is linear in it with
+                // a coefficient that cannot be zero), the prover is able to set the field to any value,
+                // regardless of the values of the other variables. Otherwise, this is not necessarily the case.
+                // Note that if the above check is true, there will only be one field that is not a constant.
+                let can_set_unknown_field = bus_interaction
                     .payload
                     .iter()
-                    .all(|field| field.degree_of_variable(variable) <= 1);
-                is_stateless && has_one_unknown_field && all_degrees_at_most_one
+                    .filter(|field| field.try_to_number().is_none())
+                    .all(|field| {
+                        AlgebraicConstraint::assert_zero(field)
+                            .try_solve_for(variable)
+                            .is_some()
+                    });
+                is_stateless && has_one_unknown_field && can_set_unknown_field
             }
         })
         .map(|(variable, _constraint)| variable.clone())
-- 
2.43.0


From 224259ec486c058a4ca0a045f2593130a5d629b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:11 +0000
Subject: [PATCH 09/15] fix: variable range checker: bit widths beyond the
 table are not pure range checks

A lookup with a bit width above the maximum can never succeed, but it was extracted as
an ordinary (satisfiable) range check, and range checks of up to 29 bits were turned into
lookups outside of the table. From 64 bits on, the extraction overflowed.
---
 openvm-bus-interaction-handler/src/lib.rs     |  4 +++-
 .../src/variable_range_checker.rs             | 20 +++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/openvm-bus-interaction-handler/src/lib.rs b/openvm-bus-interaction-handler/src/lib.rs
index 7d8e162..e68051a 100644
--- a/openvm-bus-interaction-handler/src/lib.rs
+++ b/openvm-bus-interaction-handler/src/lib.rs
@@ -246,7 +246,9 @@ impl<T: FieldElement> RangeConstraintHandler<T> for OpenVmBusInteractionHandler<
                 // Use the variable range checker to range-check expressions:
                 // See: https://github.com/openvm-org/openvm/blob/v1.0.0/crates/circuits/primitives/src/var_range/bus.rs
                 // Expects (x, bits), where `x` is in the range [0, 2^bits - 1]
-                let Some(num_bits) = range_constraint_to_num_bits(&rc) else {
+                let Some(num_bits) = range_constraint_to_num_bits(&rc)
+                    .filter(|num_bits| *num_bits as u64 <= variable_range_checker::MAX_BITS)
+                else {
                     return Err(MakeRangeConstraintsError(format!(
                         "Failed to get number of bits from range constraint: {rc:?}"
                     )));
diff --git a/openvm-bus-interaction-handler/src/variable_range_checker.rs b/openvm-bus-interaction-handler/src/variable_range_checker.rs
index 7b687d8..1b4fbeb 100644
--- a/openvm-bus-interaction-handler/src/variable_range_checker.rs
+++ b/openvm-bus-interaction-handler/src/variable_range_checker.rs
@@ -6,7 +6,7 @@ use powdr_number::{FieldElement, LargeInt};
 
 /// The maximum number of bits that can be checked by the variable range checker.
 // TODO: This should be configurable
-const MAX_BITS: u64 = 25;
+pub const MAX_BITS: u64 = 25;
 
 /// Implements [BusInteractionHandler::handle_bus_interaction] for the variable range checker bus,
 /// tightening the currently known range constraints.
@@ -41,13 +41,17 @@ pub fn variable_range_checker_pure_range_constraints<T: FieldElement, V: Ord + C
     let [x, bits] = payload else {
         panic!("Expected arguments (x, bits)");
     };
-    bits.try_to_number().map(|bits| {
-        [(
-            x.clone(),
-            RangeConstraint::from_mask((1u64 << bits.to_degree()) - 1),
-        )]
-        .into()
-    })
+    // Bit widths beyond the maximum are not in the table, so the lookup cannot succeed,
+    // which is not expressible as a range constraint on `x`.
+    bits.try_to_number()
+        .filter(|bits| bits.to_integer() <= T::Integer::from(MAX_BITS))
+        .map(|bits| {
+            [(
+                x.clone(),
+                RangeConstraint::from_mask((1u64 << bits.to_degree()) - 1),
+            )]
+            .into()
+        })
 }
 
 #[cfg(test)]
-- 
2.43.0


From aed75224f7ced7e7eb7e5af61ad430e1b849c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:55 +0000
Subject: [PATCH 10/15] fix: bitwise lookup model: an invalid operation makes
 the interaction impossible

It used to panic, also when the solver only tried out values for the operation field.
---
 openvm-bus-interaction-handler/src/bitwise_lookup.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openvm-bus-interaction-handler/src/bitwise_lookup.rs b/openvm-bus-interaction-handler/src/bitwise_lookup.rs
index f957f63..ca4ca4a 100644
--- a/openvm-bus-interaction-handler/src/bitwise_lookup.rs
+++ b/openvm-bus-interaction-handler/src/bitwise_lookup.rs
@@ -53,15 +53,15 @@ pub fn handle_bitwise_lookup<T: FieldElement>(
                 ]
             }
         }
-        // Operation is unknown, but we know that x, y, and z are bytes
+        // Operation is unknown (or invalid, in which case the constraint on op
+        // makes the interaction impossible), but we know that x, y, and z are bytes
         // and that op is 0 or 1
-        None => vec![
+        _ => vec![
             byte_constraint(),
             byte_constraint(),
             byte_constraint(),
             RangeConstraint::from_mask(0x1u64),
         ],
-        _ => panic!("Invalid operation"),
     }
 }
 
-- 
2.43.0


From fe98c9f57d3476e99ada8872675c849ea72d5428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:36 +0000
Subject: [PATCH 11/15] fix: filter empirical column ranges by their column,
 not by their position

---
 autoprecompiles/src/empirical_constraints.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/autoprecompiles/src/empirical_constraints.rs b/autoprecompiles/src/empirical_constraints.rs
index 7fc8d54..8526a03 100644
--- a/autoprecompiles/src/empirical_constraints.rs
+++ b/autoprecompiles/src/empirical_constraints.rs
@@ -183,13 +183,11 @@ impl BlockEmpiricalConstraints {
                     .collect_vec();
                 let ranges = ranges
                     .into_iter()
-                    .enumerate()
-                    .filter_map(|(col_idx, range)| {
+                    .filter(|(col_idx, _)| {
                         // check that the predicate holds in all matching instructions
                         pc_instruction_indices
                             .iter()
-                            .all(|idx| predicate(&BlockCell::new(*idx, col_idx)))
-                            .then_some(range)
+                            .all(|idx| predicate(&BlockCell::new(*idx, *col_idx)))
                     })
                     .collect();
                 (pc, ranges)
-- 
2.43.0


From cca07dd56684144a11a9e20ae3d687a9a3a0845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:06 +0000
Subject: [PATCH 12/15] fix: read optimistic constraints back from an exported
 APC candidate (map keys below a flattened field)

---
 autoprecompiles/src/execution/evaluator.rs | 36 +++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/autoprecompiles/src/execution/evaluator.rs b/autoprecompiles/src/execution/evaluator.rs
index c4b6d01..9e5f61b 100644
--- a/autoprecompiles/src/execution/evaluator.rs
+++ b/autoprecompiles/src/execution/evaluator.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 
 use itertools::Itertools;
-use serde::{Deserialize, Serialize};
+use serde::{de::Error, Deserialize, Deserializer, Serialize};
 
 use crate::{
     execution::{
@@ -15,13 +15,47 @@ use crate::{
 
 /// A collection of optimistic constraints over the intermediate execution states of a block, to be accessed in chronological order
 #[derive(Debug, Serialize, Deserialize, deepsize2::DeepSizeOf, PartialEq, Clone, Default)]
+#[serde(bound(deserialize = "A: Deserialize<'de>, V: Deserialize<'de>"))]
 pub struct OptimisticConstraints<A, V> {
     /// For each step, the execution values we need to remember for future constraints, excluding this step
+    #[serde(deserialize_with = "deserialize_map_by_step")]
     fetches_by_step: HashMap<usize, Vec<LocalFetch<A>>>,
     /// For each step, the constraints that must be satisfied
+    #[serde(deserialize_with = "deserialize_map_by_step")]
     constraints_to_check_by_step: HashMap<usize, Vec<OptimisticConstraint<A, V>>>,
 }
 
+/// Deserializes a map whose keys are step indices.
+/// In JSON, the keys are strings. The derived implementation only turns them back into numbers
+/// if it directly reads from the JSON deserializer, but not below a `#[serde(flatten)]` field.
+fn deserialize_map_by_step<'de, D, T>(deserializer: D) -> Result<HashMap<usize, T>, D::Error>
+where
+    D: Deserializer<'de>,
+    T: Deserialize<'de>,
+{
+    #[derive(Deserialize, PartialEq, Eq, Hash)]
+    #[serde(untagged)]
+    enum Step {
+        Number(usize),
+        String(String),
+    }
+
+    if !deserializer.is_human_readable() {
+        // Binary formats have proper integer keys (and might not support untagged enums).
+        return HashMap::deserialize(deserializer);
+    }
+    HashMap::<Step, T>::deserialize(deserializer)?
+        .into_iter()
+        .map(|(step, value)| {
+            let step = match step {
+                Step::Number(step) => step,
+                Step::String(step) => step.parse().map_err(D::Error::custom)?,
+            };
+            Ok((step, value))
+        })
+        .collect()
+}
+
 impl<A, V> OptimisticConstraints<A, V> {
     pub fn empty() -> Self {
         Self {
-- 
2.43.0


From c9f5275a521706573dc5d0cb51253f407648ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:06 +0000
Subject: [PATCH 13/15] fix: riscv-elf: la writes the destination register of
 the addi

---
 riscv-elf/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riscv-elf/src/lib.rs b/riscv-elf/src/lib.rs
index dc177e3..0a9e8ba 100644
--- a/riscv-elf/src/lib.rs
+++ b/riscv-elf/src/lib.rs
@@ -761,7 +761,8 @@ impl InstructionLifter<'_> {
         Some((
             op,
             HighLevelArgs {
-                rd: Some(rd_ui as u32),
+                // This is also right for "li", where rd_ui == rd_addi.
+                rd: Some(rd_addi as u32),
                 imm,
                 ..Default::default()
             },
-- 
2.43.0


From 1746c29ef9e3699c4132bd400f0e641cd41171b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:06 +0000
Subject: [PATCH 14/15] fix: riscv-elf: compute jump targets modulo 2^32

---
 riscv-elf/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riscv-elf/src/lib.rs b/riscv-elf/src/lib.rs
index 0a9e8ba..47b5fea 100644
--- a/riscv-elf/src/lib.rs
+++ b/riscv-elf/src/lib.rs
@@ -984,7 +984,7 @@ impl TwoOrOneMapper<MaybeInstruction, HighLevelInsn> for InstructionLifter<'_> {
         let mut imm = match insn.opc {
             // All jump instructions that have an address as immediate
             Op::JAL | Op::BEQ | Op::BNE | Op::BLT | Op::BGE | Op::BLTU | Op::BGEU => {
-                let addr = (insn.imm.unwrap() + loc.address as i32) as u32;
+                let addr = loc.address.wrapping_add_signed(insn.imm.unwrap());
                 if let ReadOrWrite::Write(refs) = &mut self.referenced_text_addrs {
                     refs.insert(addr);
                 }
-- 
2.43.0


From 52f1e997a93b9d5ca4defe760c30dfdce556adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:06 +0000
Subject: [PATCH 15/15] fix: riscv-elf: resolve AUIPC+JALR pairs of 64-bit
 binaries

---
 riscv-elf/src/rv64.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/riscv-elf/src/rv64.rs b/riscv-elf/src/rv64.rs
index 1800866..a4c155b 100644
--- a/riscv-elf/src/rv64.rs
+++ b/riscv-elf/src/rv64.rs
@@ -136,13 +136,13 @@ fn scan_for_jump_targets(
                 .decode(Isa::Rv64)
                 .expect("Failed to decode instruction")
         })
-        // Remember the `rs1` and `imm` of the previous instruction if it was AUIPC, used to propagate it to the next JALR
+        // Remember the `rd` and `imm` of the previous instruction if it was AUIPC, used to propagate it to the next JALR
         .scan(None, |previous_if_auipc, insn| {
-            let previous_auipc_rs1 = std::mem::replace(
+            let previous_auipc_rd = std::mem::replace(
                 previous_if_auipc,
-                matches!(insn.opc, Op::AUIPC).then_some((insn.rs1, insn.imm)),
+                matches!(insn.opc, Op::AUIPC).then_some((insn.rd, insn.imm)),
             );
-            Some((insn, previous_auipc_rs1))
+            Some((insn, previous_auipc_rd))
         })
         .enumerate()
         .for_each(|(instruction_index, (insn, previous_if_auipc))| {
@@ -205,13 +205,16 @@ fn scan_for_jump_targets(
                     }
                 }
                 Op::JALR => {
-                    if let Some((rs1, imm)) = previous_if_auipc {
+                    if let Some((auipc_rd, imm)) = previous_if_auipc {
                         // JALR with a preceding AUIPC
-                        if insn.rd == rs1 {
+                        if insn.rs1 == auipc_rd {
                             // This is an AUIPC+JALR pair, we can resolve it statically
                             if let (Some(auipc_imm), Some(jalr_imm)) = (imm, insn.imm) {
+                                // The immediates are relative to the AUIPC, and JALR clears the lowest bit.
+                                let auipc_addr = addr - 4;
                                 let target =
-                                    (addr as i64 + auipc_imm as i64 + jalr_imm as i64) as u64;
+                                    (auipc_addr as i64 + auipc_imm as i64 + jalr_imm as i64) as u64
+                                        & !1;
                                 jumpdests.insert(target);
 
                                 // Track non-symbol jumpdests
-- 
2.43.0

