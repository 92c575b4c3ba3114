From 7502128e48b02b4df4729ddf07e97862f6c2c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 01/71] cfg(carcara_sym): hooks to materialise terms lazily and
 a door to single rules

---
 carcara/src/ast/rc.rs           | 79 +++++++++++++++++++++++++++++++++
 carcara/src/checker/mod.rs      |  2 +
 carcara/src/checker/sym_door.rs | 50 +++++++++++++++++++++
 carcara/src/lib.rs              |  1 +
 4 files changed, 132 insertions(+)
 create mode 100644 carcara/src/checker/sym_door.rs

diff --git a/carcara/src/ast/rc.rs b/carcara/src/ast/rc.rs
index 63d9458..5b42fce 100644
--- a/carcara/src/ast/rc.rs
+++ b/carcara/src/ast/rc.rs
@@ -2,6 +2,55 @@
 
 use std::{fmt, hash::Hash, ops::Deref, sync};
 
+/// Only compiled with `--cfg carcara_sym`: calls through which a symbolic executor materialises
+/// terms when they are first looked at, and decides whether two references denote the same term.
+#[cfg(carcara_sym)]
+mod sym {
+    extern "C" {
+        fn __carcara_sym_touch(p: *const u8);
+        fn __carcara_sym_eq(a: *const u8, b: *const u8) -> bool;
+        fn __carcara_sym_rep(p: *const u8) -> *const u8;
+    }
+
+    #[inline(always)]
+    fn is_term<T: ?Sized>() -> bool {
+        std::any::type_name::<T>() == "carcara::ast::term::Term"
+    }
+
+    #[inline(always)]
+    pub(super) fn touch<T: ?Sized>(p: *const T) {
+        if is_term::<T>() {
+            // SAFETY: the executor provides this function
+            unsafe { __carcara_sym_touch(p.cast()) }
+        }
+    }
+
+    #[inline(always)]
+    pub(super) fn eq<T: ?Sized>(a: *const T, b: *const T) -> Option<bool> {
+        if is_term::<T>() {
+            // SAFETY: the executor provides this function
+            Some(unsafe { __carcara_sym_eq(a.cast(), b.cast()) })
+        } else {
+            None
+        }
+    }
+
+    #[inline(always)]
+    pub(super) fn rep<T>(p: *const T) -> *const T {
+        if is_term::<T>() {
+            // SAFETY: the executor provides this function
+            unsafe { __carcara_sym_rep(p.cast()).cast() }
+        } else {
+            p
+        }
+    }
+
+    #[inline(always)]
+    pub(super) fn no_hash<T: ?Sized>() -> bool {
+        is_term::<T>()
+    }
+}
+
 /// A wrapper for `std::rc::Rc` where equality and hashing are done by reference, instead of by
 /// value.
 ///
@@ -41,12 +90,20 @@ impl<T: ?Sized> Clone for Rc<T> {
 
 impl<T: ?Sized> PartialEq for Rc<T> {
     fn eq(&self, other: &Self) -> bool {
+        #[cfg(carcara_sym)]
+        if let Some(result) = sym::eq(sync::Arc::as_ptr(&self.0), sync::Arc::as_ptr(&other.0)) {
+            return result;
+        }
         sync::Arc::ptr_eq(&self.0, &other.0)
     }
 }
 
 impl<T: ?Sized> Hash for Rc<T> {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        #[cfg(carcara_sym)]
+        if sym::no_hash::<T>() {
+            return;
+        }
         sync::Arc::as_ptr(&self.0).hash(state);
     }
 }
@@ -55,6 +112,8 @@ impl<T: ?Sized> Deref for Rc<T> {
     type Target = T;
 
     fn deref(&self) -> &Self::Target {
+        #[cfg(carcara_sym)]
+        sym::touch(sync::Arc::as_ptr(&self.0));
         self.0.as_ref()
     }
 }
@@ -63,6 +122,8 @@ impl<T: ?Sized> Deref for Rc<T> {
 // _cannot_ implement `Borrow<T>` for `Rc<T>`
 impl<T: ?Sized> AsRef<T> for Rc<T> {
     fn as_ref(&self) -> &T {
+        #[cfg(carcara_sym)]
+        sym::touch(sync::Arc::as_ptr(&self.0));
         self.0.as_ref()
     }
 }
@@ -113,6 +174,24 @@ impl<T> Rc<T> {
 
     /// Provides a raw pointer to the data.
     pub fn as_ptr(rc: &Self) -> *const T {
+        #[cfg(carcara_sym)]
+        return sym::rep(sync::Arc::as_ptr(&rc.0));
+        #[cfg(not(carcara_sym))]
+        sync::Arc::as_ptr(&rc.0)
+    }
+
+    /// Constructs a new `Rc<T>`, as `new_raw`.
+    ///
+    /// # Safety
+    /// As for `new_raw`.
+    #[cfg(carcara_sym)]
+    pub unsafe fn sym_new(value: T) -> Self {
+        Self::new_raw(value)
+    }
+
+    /// The address of the data, without any canonicalisation.
+    #[cfg(carcara_sym)]
+    pub fn sym_addr(rc: &Self) -> *const T {
         sync::Arc::as_ptr(&rc.0)
     }
 }
diff --git a/carcara/src/checker/mod.rs b/carcara/src/checker/mod.rs
index 678eb02..f0c94b9 100644
--- a/carcara/src/checker/mod.rs
+++ b/carcara/src/checker/mod.rs
@@ -2,6 +2,8 @@ pub mod error;
 mod parallel;
 mod rules;
 mod shared;
+#[cfg(carcara_sym)]
+pub mod sym_door;
 
 use crate::{
     ast::{rare_rules::Rules, *},
diff --git a/carcara/src/checker/sym_door.rs b/carcara/src/checker/sym_door.rs
new file mode 100644
index 0000000..025cf0c
--- /dev/null
+++ b/carcara/src/checker/sym_door.rs
@@ -0,0 +1,50 @@
+//! Only compiled with `--cfg carcara_sym`: a door through which a harness outside this crate can
+//! call a single rule.
+
+use super::{
+    error::CheckerError,
+    rules::{Premise, RuleArgs},
+    shared::get_rule_shared,
+};
+use crate::ast::{rare_rules::Rules, *};
+use std::time::Duration;
+
+pub struct Step<'a> {
+    pub rule: &'a str,
+    pub elaborated: bool,
+    pub conclusion: &'a [Rc<Term>],
+    pub premises: &'a [(&'a str, &'a [Rc<Term>])],
+    pub args: &'a [Rc<Term>],
+    pub previous_command: Option<(&'a str, &'a [Rc<Term>])>,
+    pub discharge: &'a [&'a ProofCommand],
+}
+
+/// Looks a rule up and calls it. Returns `None` if there is no such rule.
+pub fn run_rule(
+    step: &Step,
+    pool: &mut dyn TermPool,
+    context: &mut ContextStack,
+    rare_rules: &Rules,
+) -> Option<Result<(), CheckerError>> {
+    let rule = get_rule_shared(step.rule, step.elaborated)?;
+    let premises: Vec<_> = step
+        .premises
+        .iter()
+        .enumerate()
+        .map(|(i, (id, clause))| Premise { id, clause, index: (0, i) })
+        .collect();
+    let mut polyeq_time = Duration::ZERO;
+    Some(rule(RuleArgs {
+        conclusion: step.conclusion,
+        premises: &premises,
+        args: step.args,
+        pool,
+        context,
+        rare_rules,
+        previous_command: step
+            .previous_command
+            .map(|(id, clause)| Premise { id, clause, index: (1, 0) }),
+        discharge: step.discharge,
+        polyeq_time: &mut polyeq_time,
+    }))
+}
diff --git a/carcara/src/lib.rs b/carcara/src/lib.rs
index 0ba29bd..8fce2df 100644
--- a/carcara/src/lib.rs
+++ b/carcara/src/lib.rs
@@ -32,6 +32,7 @@
 #![warn(clippy::unnecessary_wraps)]
 #![warn(clippy::unnested_or_patterns)]
 #![warn(clippy::unused_self)]
+#![allow(unexpected_cfgs)]
 
 #[macro_use]
 pub mod ast;
-- 
2.43.0


From 4f51e0b45f1387c69765b111be91444e33ffdd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 02/71] fix: resolution accepted steps where a clause
 eliminated its own literals

The greedy search for pivots let a literal of a premise be eliminated by another literal of the
same premise, and forgot that a pivot that was already eliminated is introduced again by a later
premise. Both allowed concluding the empty clause from satisfiable premises, e.g. from
(cl a (not a)) and (cl a).
---
 carcara/src/resolution.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/carcara/src/resolution.rs b/carcara/src/resolution.rs
index e8dc80c..082c6cc 100644
--- a/carcara/src/resolution.rs
+++ b/carcara/src/resolution.rs
@@ -115,6 +115,11 @@ pub fn greedy_resolution(
         //     (step t2 (cl (= false true) false true) :rule equiv_neg2)
         //     (step t3 (cl (= false true)) :rule resolution :premises (t1 t2))
         let mut eliminated_clause_pivot = false;
+
+        // The pivots encountered in this premise only become available for the premises that
+        // follow it: a clause cannot be resolved with itself
+        let mut new_pivots = Vec::new();
+
         for term in premise {
             let (n, inner) = term.remove_all_negations();
             let n = n as i32;
@@ -166,12 +171,15 @@ pub fn greedy_resolution(
             } else if conclusion.contains(&(n, inner)) {
                 working_clause.insert((n, inner));
             } else {
-                // If the term is not in the conclusion clause, it must be a pivot. If it was
-                // not already in the pivots set, we insert `false`, to indicate that it was
-                // not yet eliminated
-                pivots.entry((n, inner)).or_insert(false);
+                // If the term is not in the conclusion clause, it must be a pivot
+                new_pivots.push((n, inner));
             }
         }
+        for pivot in new_pivots {
+            // We insert `false` to indicate that this occurrence of the pivot was not yet
+            // eliminated. That is also the case if an earlier occurrence of it was
+            pivots.insert(pivot, false);
+        }
     }
 
     // There are some special cases in the resolution rules that are valid, but leave a pivot
-- 
2.43.0


From 2d921f935661fdcb5ec37098d9124ce24767f3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 03/71] fix: aci_simp removed duplicate arguments of operators
 that are not idempotent

Sums, products, bvadd, bvmul, bvxor and concatenations lost repeated arguments, so that steps
such as (= (+ x x) x) were accepted.
---
 carcara/src/checker/rules/simplification.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/carcara/src/checker/rules/simplification.rs b/carcara/src/checker/rules/simplification.rs
index 230667f..e28a76d 100644
--- a/carcara/src/checker/rules/simplification.rs
+++ b/carcara/src/checker/rules/simplification.rs
@@ -757,6 +757,14 @@ fn is_assoc(op: Operator) -> bool {
     )
 }
 
+// Among the operators considered in aci_simp, those for which duplicate arguments can be removed
+fn is_idempotent(op: Operator) -> bool {
+    matches!(
+        op,
+        Operator::And | Operator::Or | Operator::BvAnd | Operator::BvOr
+    )
+}
+
 // Term is given as argument as well because if the operator is
 // parametric, such as a BV operator, the width of the arguments will
 // be relevant.
@@ -859,9 +867,9 @@ fn apply_aci_simp(
         return t.clone();
     }
     let result = match term.as_ref() {
-        // flatten and remove duplicate on the result
+        // flatten and, if the operator is idempotent, remove duplicates on the result
         Term::Op(opp, args) if *opp == op => {
-            let args: Vec<_> = args
+            let mut args: Vec<_> = args
                 .iter()
                 .flat_map(|term| {
                     let term = apply_aci_simp(pool, cache, term, op, identity);
@@ -870,9 +878,11 @@ fn apply_aci_simp(
                         _ => vec![term.clone()],
                     }
                 })
-                .dedup()
                 .filter(|t| identity.is_none() || *t.as_ref() != identity.clone().unwrap())
                 .collect();
+            if is_idempotent(op) {
+                args = args.into_iter().dedup().collect();
+            }
             if args.len() == 1 {
                 args[0].clone()
             } else {
-- 
2.43.0


From 2cd226390e3a8e4281c9a96bc97b7e28509cd2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 04/71] fix: fractions read from terms treated integer division
 as exact and crashed on zero divisors

`Term::as_fraction` gave (div 7 2) the value 7/2, so arithmetic rules accepted false equations, and
panicked on (/ 1.0 0.0). The coefficients of la_generic can still be written with div.
---
 carcara/src/ast/term.rs                        | 18 +++++++++++++++---
 carcara/src/checker/rules/linear_arithmetic.rs |  8 +++++++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/carcara/src/ast/term.rs b/carcara/src/ast/term.rs
index d1ee88d..2640970 100644
--- a/carcara/src/ast/term.rs
+++ b/carcara/src/ast/term.rs
@@ -888,13 +888,25 @@ impl Term {
     /// `Some` if the term is:
     ///
     /// - A real or integer constant
-    /// - An application of the `/` or `div` operators on two real or integer constants
+    /// - An application of the `/` or `div` operators on two real or integer constants, where the
+    ///   second one is not zero
     /// - An application of the unary `-` operator on one of the two previous cases
     pub fn as_fraction(&self) -> Option<Rational> {
         fn as_unsigned_fraction(term: &Term) -> Option<Rational> {
             match term {
-                Term::Op(Operator::IntDiv | Operator::RealDiv, args) if args.len() == 2 => {
-                    Some(args[0].as_signed_number()? / args[1].as_signed_number()?)
+                Term::Op(op @ (Operator::IntDiv | Operator::RealDiv), args) if args.len() == 2 => {
+                    let [numer, denom] = [args[0].as_signed_number()?, args[1].as_signed_number()?];
+                    if denom.is_zero() {
+                        return None;
+                    }
+                    if *op == Operator::RealDiv {
+                        return Some(numer / denom);
+                    }
+                    if !numer.is_integer() || !denom.is_integer() {
+                        return None;
+                    }
+                    let [numer, denom] = [numer, denom].map(|n| n.into_numer_denom().0);
+                    Some(numer.div_rem_euc(denom).0.into())
                 }
                 _ => term.as_number(),
             }
diff --git a/carcara/src/checker/rules/linear_arithmetic.rs b/carcara/src/checker/rules/linear_arithmetic.rs
index 6b6718f..2ed26db 100644
--- a/carcara/src/checker/rules/linear_arithmetic.rs
+++ b/carcara/src/checker/rules/linear_arithmetic.rs
@@ -266,7 +266,13 @@ pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
     let args: Vec<_> = args
         .iter()
         .map(|a| {
-            a.as_fraction()
+            // Some solvers write rational coefficients using the integer division operator
+            let quotient = match_term!((div n d) = a)
+                .and_then(|(n, d)| Some((n.as_signed_number()?, d.as_signed_number()?)))
+                .filter(|(_, d)| !d.is_zero())
+                .map(|(n, d)| n / d);
+            quotient
+                .or_else(|| a.as_fraction())
                 .ok_or_else(|| CheckerError::ExpectedAnyNumber(a.clone()))
         })
         .collect::<Result<_, _>>()?;
-- 
2.43.0


From 7ff74caa8a2ccb4272b99c90291e949dfa313238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 05/71] fix: la_generic strengthened disequalities over the
 reals

Strengthening is only valid if the left side can only take integer values, but the sorts of the
terms were not looked at, so clauses such as (cl (<= x 0.0) (>= x 1.0)) were accepted. The sum of
the disequalities is now strict if any of them is.
---
 .../src/checker/rules/linear_arithmetic.rs    | 38 ++++++++++++++++---
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/carcara/src/checker/rules/linear_arithmetic.rs b/carcara/src/checker/rules/linear_arithmetic.rs
index 2ed26db..bc12056 100644
--- a/carcara/src/checker/rules/linear_arithmetic.rs
+++ b/carcara/src/checker/rules/linear_arithmetic.rs
@@ -178,6 +178,14 @@ impl LinearComb {
         self.add(other)
     }
 
+    /// Returns `true` if the non-constant part of the linear combination only takes integer values.
+    fn is_integral(&self, pool: &mut dyn TermPool) -> bool {
+        self.0.iter().all(|(term, coeff)| {
+            let term = match_term!((to_real t) = term).unwrap_or(term);
+            coeff.is_integer() && pool.sort(term).as_sort() == Some(&Sort::Int)
+        })
+    }
+
     /// Finds the greatest common divisor of the coefficients in the linear combination. Returns
     /// 1 if the linear combination is empty, or if any of the coefficients is not an integer.
     fn coefficients_gcd(&self) -> Integer {
@@ -203,7 +211,17 @@ impl LinearComb {
     }
 }
 
-fn strengthen(op: Operator, disequality: &mut LinearComb, a: &Rational) -> Operator {
+fn strengthen(
+    pool: &mut dyn TermPool,
+    op: Operator,
+    disequality: &mut LinearComb,
+    a: &Rational,
+) -> Operator {
+    // Strengthening is only valid if the left side can only take integer values
+    if !disequality.is_integral(pool) {
+        return op;
+    }
+
     // Multiplications are expensive, so we avoid them if we can
     let is_integer = if *a == 0 {
         true
@@ -260,7 +278,7 @@ fn strengthen(op: Operator, disequality: &mut LinearComb, a: &Rational) -> Opera
     }
 }
 
-pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
+pub fn la_generic(RuleArgs { conclusion, args, pool, .. }: RuleArgs) -> RuleResult {
     assert_num_args(args, conclusion.len())?;
 
     let args: Vec<_> = args
@@ -299,7 +317,7 @@ pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
             }
 
             // Step 4: Apply strengthening rules
-            let op = strengthen(op, &mut disequality, &a);
+            op = strengthen(pool, op, &mut disequality, &a);
 
             // Step 5: Multiply disequality by a
             let a = match op {
@@ -308,6 +326,11 @@ pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
             };
             disequality.mul(&a);
 
+            // Multiplying by zero leaves only the equality 0 = 0
+            if a.is_zero() {
+                op = Operator::Equals;
+            }
+
             Ok((op, disequality))
         })
         .try_fold(
@@ -315,10 +338,13 @@ pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
             |(acc_op, acc), item| -> Result<_, CheckerError> {
                 let (op, diseq) = item?;
                 let new_acc = acc.add(diseq);
+                // The sum is strict if any of the disequalities is
                 let new_op = match (acc_op, op) {
-                    (_, Operator::GreaterEq) => Operator::GreaterEq,
-                    (Operator::Equals, Operator::GreaterThan) => Operator::GreaterThan,
-                    _ => acc_op,
+                    (Operator::GreaterThan, _) | (_, Operator::GreaterThan) => {
+                        Operator::GreaterThan
+                    }
+                    (Operator::GreaterEq, _) | (_, Operator::GreaterEq) => Operator::GreaterEq,
+                    _ => Operator::Equals,
                 };
                 Ok((new_op, new_acc))
             },
-- 
2.43.0


From 5205449a71d20162a367e29539129078dd77abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:54 +0000
Subject: [PATCH 06/71] fix: pbblast rules accepted summations that leave out
 bits or repeat the sign bit

---
 carcara/src/checker/rules/pb_blasting.rs | 70 +++++++++++++-----------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index fecddb2..9cb0904 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -16,22 +16,15 @@ fn get_bit_width(x: &Rc<Term>, pool: &mut dyn TermPool) -> Result<usize, Checker
     Ok(n)
 }
 
-// Helper to check that a summation has the expected shape
-fn check_pbblast_sum(
-    pool: &mut dyn TermPool,
-    bitvector: &Rc<Term>,
-    sum: &[Rc<Term>],
-) -> RuleResult {
-    // Obtain the bitvector width from the pool.
-    let width = get_bit_width(bitvector, pool)?;
-
-    // The summation must have at most as many summands as the bitvector has bits.
+// Helper to check that a summation has the expected shape, with one summand for each of the `width`
+// least significant bits of the bitvector
+fn check_pbblast_sum(bitvector: &Rc<Term>, sum: &[Rc<Term>], width: usize) -> RuleResult {
     rassert!(
-        width >= sum.len(),
+        width == sum.len(),
         CheckerError::Explanation(format!(
             "Mismatched number of summands {} and bits {}",
-            width,
-            sum.len()
+            sum.len(),
+            width
         ))
     );
 
@@ -81,14 +74,17 @@ fn check_pbblast_sum(
 
 // Helper to check that a summation has the expected shape
 // when the bitvector is a @pbbterm application "short-circuiting"
-fn check_pbblast_sum_short_circuit(pbbterm: &[Rc<Term>], sum: &[Rc<Term>]) -> RuleResult {
-    // The summation must have at most as many summands as the bitvector has bits.
+fn check_pbblast_sum_short_circuit(
+    pbbterm: &[Rc<Term>],
+    sum: &[Rc<Term>],
+    width: usize,
+) -> RuleResult {
     rassert!(
-        pbbterm.len() >= sum.len(),
+        width == sum.len(),
         CheckerError::Explanation(format!(
             "Mismatched number of summands {} and bits {}",
-            pbbterm.len(),
-            sum.len()
+            sum.len(),
+            width
         ))
     );
 
@@ -121,21 +117,22 @@ fn check_pbblast_sum_short_circuit(pbbterm: &[Rc<Term>], sum: &[Rc<Term>]) -> Ru
 /// A helper that checks the two summations that occur in a pseudo–Boolean constraint.
 /// Here, `left_sum` and `right_sum` come from two bitvectors `left_bv` and `right_bv` respectively.
 /// (The overall constraint is something like `(>= (- (+ left_sum) (+ right_sum)) constant)`.)
+/// Each summation covers the `width` least significant bits of its bitvector.
 fn check_pbblast_constraint(
-    pool: &mut dyn TermPool,
     left_bv: &Rc<Term>,
     right_bv: &Rc<Term>,
     left_sum: &[Rc<Term>],
     right_sum: &[Rc<Term>],
+    width: usize,
 ) -> RuleResult {
     if let Some(pbb_l) = match_term!((pbbterm ...) = left_bv) {
         // Case when x is application of `@pbbterm` so we must short-circuit the indexing
         let pbb_r = match_term_err!((pbbterm ...) = right_bv)?;
-        check_pbblast_sum_short_circuit(pbb_l, left_sum)?;
-        check_pbblast_sum_short_circuit(pbb_r, right_sum)
+        check_pbblast_sum_short_circuit(pbb_l, left_sum, width)?;
+        check_pbblast_sum_short_circuit(pbb_r, right_sum, width)
     } else {
-        check_pbblast_sum(pool, left_bv, left_sum)?;
-        check_pbblast_sum(pool, right_bv, right_sum)
+        check_pbblast_sum(left_bv, left_sum, width)?;
+        check_pbblast_sum(right_bv, right_sum, width)
     }
 }
 
@@ -152,7 +149,8 @@ pub fn pbblast_bveq(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
 
     // Check that the summations have the correct structure.
     // (For equality the order is: sum_x for x and sum_y for y.)
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    let n = get_bit_width(x, pool)?;
+    check_pbblast_constraint(x, y, sum_x, sum_y, n)
 }
 
 /// Implements the unsigned-less-than rule.
@@ -167,7 +165,8 @@ pub fn pbblast_bvult(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_y = split_summation(sum_y);
 
     // For bvult the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    let n = get_bit_width(x, pool)?;
+    check_pbblast_constraint(y, x, sum_y, sum_x, n)
 }
 
 /// Implements the unsigned-greater-than rule.
@@ -183,7 +182,8 @@ pub fn pbblast_bvugt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_y = split_summation(sum_y);
 
     // For bvugt the summations appear in the same order as in equality.
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    let n = get_bit_width(x, pool)?;
+    check_pbblast_constraint(x, y, sum_x, sum_y, n)
 }
 
 /// Implements the unsigned-greater-or-equal rule.
@@ -198,7 +198,8 @@ pub fn pbblast_bvuge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_x = split_summation(sum_x);
     let sum_y = split_summation(sum_y);
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    let n = get_bit_width(x, pool)?;
+    check_pbblast_constraint(x, y, sum_x, sum_y, n)
 }
 
 /// Implements the unsigned-less-or-equal rule.
@@ -213,7 +214,8 @@ pub fn pbblast_bvule(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_x = split_summation(sum_x);
     let sum_y = split_summation(sum_y);
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    let n = get_bit_width(x, pool)?;
+    check_pbblast_constraint(x, y, sum_x, sum_y, n)
 }
 
 /// Helper that checks the the `sign` term has the format -(2<sup>n-1</sup>) x<sub>n-1</sub>
@@ -278,7 +280,8 @@ pub fn pbblast_bvslt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
 
     // For bvult the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    // The sign bit is not part of the summations
+    check_pbblast_constraint(y, x, sum_y, sum_x, n - 1)
 }
 
 /// Implements the signed-greater-than rule.
@@ -299,7 +302,8 @@ pub fn pbblast_bvsgt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
     check_pbblast_signed_relation(n, sign_y, y)?;
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    // The sign bit is not part of the summations
+    check_pbblast_constraint(x, y, sum_x, sum_y, n - 1)
 }
 
 /// Implements the signed-greater-equal rule.
@@ -320,7 +324,8 @@ pub fn pbblast_bvsge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
     check_pbblast_signed_relation(n, sign_y, y)?;
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    // The sign bit is not part of the summations
+    check_pbblast_constraint(x, y, sum_x, sum_y, n - 1)
 }
 
 /// Implements the signed-less-equal rule.
@@ -342,7 +347,8 @@ pub fn pbblast_bvsle(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
 
     // For bvsle the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    // The sign bit is not part of the summations
+    check_pbblast_constraint(y, x, sum_y, sum_x, n - 1)
 }
 
 /// Implements the blasting of a bitvector variable
-- 
2.43.0


From 844860b31026730fab0cdfb0cf7efb21ae2770d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 07/71] fix: cutting-planes rules dropped all but the last
 summand of a repeated literal

---
 carcara/src/checker/rules/cutting_planes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 7d61d65..68fa4c9 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -48,7 +48,8 @@ fn get_pb_hashmap(pbsum: &Rc<Term>) -> Result<PbHash, CheckerError> {
             };
 
         let coeff = coeff.as_integer_err()?;
-        hm.insert(literal, coeff);
+        // The same literal may occur in more than one summand
+        *hm.entry(literal).or_default() += coeff;
     }
     Ok(hm)
 }
-- 
2.43.0


From 9572e040134f30e9d2e14f12bdcc057d77e34b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 08/71] fix: cp_multiplication accepted negative scalars

---
 carcara/src/checker/rules/cutting_planes.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 68fa4c9..917a88c 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -240,6 +240,12 @@ pub fn cp_multiplication(RuleArgs { premises, args, conclusion, .. }: RuleArgs)
     assert_num_args(args, 1)?;
     let scalar: Integer = args[0].as_integer_err()?;
 
+    // Multiplying by a negative number would reverse the inequality
+    rassert!(
+        scalar >= 0,
+        CheckerError::ExpectedNonnegInteger(args[0].clone())
+    );
+
     // Check there is exactly one conclusion
     assert_clause_len(conclusion, 1)?;
     let conclusion = &conclusion[0];
-- 
2.43.0


From 5996b9ce3bf82db27d0ea8157803d76c8c09095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:48 +0000
Subject: [PATCH 09/71] fix: cutting-planes rules read only the first literal
 of clauses of any length

---
 carcara/src/checker/rules/cutting_planes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 917a88c..63d96c9 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -280,6 +280,7 @@ pub fn cp_multiplication(RuleArgs { premises, args, conclusion, .. }: RuleArgs)
 
 pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_premises(premises, 1)?;
+    assert_clause_len(premises[0].clause, 1)?;
     let clause = &premises[0].clause[0];
 
     // Check there is exactly one arg
@@ -330,6 +331,7 @@ pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
 
 pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_premises(premises, 1)?;
+    assert_clause_len(premises[0].clause, 1)?;
     assert_num_args(args, 0)?;
     let clause = &premises[0].clause[0];
 
@@ -368,6 +370,7 @@ pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> R
 
 pub fn cp_literal(RuleArgs { pool, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_args(args, 1)?;
+    assert_clause_len(conclusion, 1)?;
     // TODO: Set args type to FF 2
 
     if let Some(((c, (_, l)), _)) = match_term!((>= (* c (- 1 l)) 0) = &conclusion[0]) {
-- 
2.43.0


From 7022d50ba16cd637745d1490fc6c825cd45c4936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 10/71] fix: cp_saturation accepted inequalities with negative
 coefficients or constant

---
 carcara/src/checker/rules/cutting_planes.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 63d96c9..62fe4c8 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -354,6 +354,14 @@ pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> R
     // Verify premise and conclusion share same keys
     assert_pbsum_same_keys(&pbsum_p, &pbsum_c)?;
 
+    // Saturation is only sound for normalized inequalities
+    rassert!(
+        constant_p >= 0 && pbsum_p.values().all(|coeff| *coeff >= 0),
+        CheckerError::Explanation(
+            "Expected an inequality without negative coefficients or constant".into()
+        )
+    );
+
     // Verify saturation of variables match
     for (literal, coeff_p) in pbsum_p {
         if let Some(coeff_c) = pbsum_c.get(&literal) {
-- 
2.43.0


From 9b6cf0e838c2371f114c367130b9a639778d5a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 11/71] fix: cp_normalize dropped unary minus

---
 carcara/src/checker/rules/cutting_planes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 62fe4c8..bd0ce8a 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -579,6 +579,11 @@ fn flatten_addition_tree(
 ) -> Result<(Vec<CoeffTimesVar<'_>>, Integer), CheckerError> {
     match term.as_ref() {
         Term::Op(Operator::Add, args) => accumulate_sum(args),
+        Term::Op(Operator::Sub, args) if args.len() == 1 => {
+            let (mut va, ca) = flatten_addition_tree(&args[0])?;
+            negate_sum(&mut va);
+            Ok((va, -ca))
+        }
         Term::Op(Operator::Sub, args) => {
             let (mut va, ca) = flatten_addition_tree(&args[0])?;
             let (mut vb, cb) = accumulate_sum(&args[1..])?;
-- 
2.43.0


From 5fa26ba72dde9aeced020537bb332982bd190605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:26 +0000
Subject: [PATCH 12/71] fix: cutting-planes rules confused a variable named ~x
 with the negation of x

---
 carcara/src/checker/rules/cutting_planes.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index bd0ce8a..917435a 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -9,6 +9,10 @@ use std::collections::HashMap;
 
 type PbHash = HashMap<String, Integer>;
 
+/// What the keys of negated literals start with. The space keeps them apart from variables whose
+/// name starts with `~`.
+const NEGATION_PREFIX: &str = "~ ";
+
 // Helper to unwrap a summation list
 pub fn split_summation(sum_term: &Rc<Term>) -> &[Rc<Term>] {
     if let Some(summation) = match_term!((+ ...) = sum_term) {
@@ -39,7 +43,7 @@ fn get_pb_hashmap(pbsum: &Rc<Term>) -> Result<PbHash, CheckerError> {
         let (coeff, literal) =
             // Negated literal  (* c (- 1 x1))
             if let Some((coeff, (_, literal))) = match_term!((* coeff (- 1 literal)) = term) {
-                (coeff, format!("~{}",literal))
+                (coeff, format!("{NEGATION_PREFIX}{literal}"))
             // Plain literal    (* c x1)
             } else if let Some((coeff, literal)) = match_term!((* coeff literal) = term) {
                 (coeff, format!("{}",literal))
@@ -72,7 +76,7 @@ fn add_pbsums(pbsum_a: &PbHash, pbsum_b: &PbHash) -> PbHash {
 }
 
 fn is_negated_literal(lit: &str) -> bool {
-    lit.starts_with('~')
+    lit.starts_with(NEGATION_PREFIX)
 }
 
 trait NegatedLiterals {
@@ -81,10 +85,10 @@ trait NegatedLiterals {
 
 impl NegatedLiterals for PbHash {
     fn get_opposite(&self, lit: &str) -> Option<&Integer> {
-        if let Some(plain_lit) = lit.strip_prefix('~') {
+        if let Some(plain_lit) = lit.strip_prefix(NEGATION_PREFIX) {
             self.get(plain_lit)
         } else {
-            self.get(&format!("~{}", lit))
+            self.get(&format!("{NEGATION_PREFIX}{lit}"))
         }
     }
 }
@@ -113,11 +117,11 @@ fn reduce_pbsum(pbsum: &PbHash) -> (PbHash, Integer) {
         if pos > neg {
             let diff = pos.clone() - neg;
             changes.push((lit.clone(), diff)); // Update lit to diff
-            changes.push((format!("~{lit}"), Integer::from(0))); // Set ~lit to 0
+            changes.push((format!("{NEGATION_PREFIX}{lit}"), Integer::from(0))); // Set ~lit to 0
         } else {
             let diff = neg.clone() - pos;
             changes.push((lit.clone(), Integer::from(0))); // Set lit to 0
-            changes.push((format!("~{lit}"), diff)); // Update ~lit to neg - pos
+            changes.push((format!("{NEGATION_PREFIX}{lit}"), diff)); // Update ~lit to neg - pos
         }
     }
 
-- 
2.43.0


From 0cdc86c425bee28e185564599403216284ce3de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 13/71] fix: pbblast rules for bvxor and bvand ignored capture
 by the choice variable

---
 carcara/src/checker/rules/pb_blasting.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index 9cb0904..ff382bf 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -451,11 +451,27 @@ fn get_bitvector_terms(bv: &Rc<Term>, pool: &mut dyn TermPool) -> Vec<Rc<Term>>
     }
 }
 
+/// Checks that the variable bound by the `choice` terms of a step does not occur free in the terms
+/// that the step places under that binder.
+fn assert_not_captured(pool: &mut dyn TermPool, name: &str, terms: [&Rc<Term>; 2]) -> RuleResult {
+    for term in terms {
+        rassert!(
+            !pool
+                .free_vars(term)
+                .iter()
+                .any(|var| var.as_var() == Some(name)),
+            CheckerError::Explanation(format!("Variable {name} occurs free in {term}"))
+        );
+    }
+    Ok(())
+}
+
 /// Implements the bitwise exclusive or operation.
 pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
     let ((x, y), bit_constraints) =
         match_term_err!((= (bvxor x y) (pbbterm ...)) = &conclusion[0])?;
 
+    assert_not_captured(pool, "z", [x, y])?;
     let xs = get_bitvector_terms(x, pool);
     let ys = get_bitvector_terms(y, pool);
 
@@ -519,6 +535,7 @@ pub fn pbblast_bvand(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let ((x, y), bit_constraints) =
         match_term_err!((= (bvand x y) (pbbterm ...)) = &conclusion[0])?;
 
+    assert_not_captured(pool, "z", [x, y])?;
     let xs = get_bitvector_terms(x, pool);
     let ys = get_bitvector_terms(y, pool);
 
@@ -575,6 +592,7 @@ pub fn pbblast_bvxor_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs)
     assert_num_args(args, 2)?;
     let x = &args[0];
     let y = &args[1];
+    assert_not_captured(pool, "z", [x, y])?;
     let (c1, c2, c3, c4) = match_term_err!((and c1 c2 c3 c4) = &conclusion[0])?;
 
     // Build the expected choice term
@@ -621,6 +639,7 @@ pub fn pbblast_bvand_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs)
     assert_num_args(args, 2)?;
     let x = &args[0];
     let y = &args[1];
+    assert_not_captured(pool, "z", [x, y])?;
     let (c1, c2, c3) = match_term_err!((and c1 c2 c3) = &conclusion[0])?;
 
     // Build the expected choice term
-- 
2.43.0


From 652c5afdc10ea4af72efe662667461554bf332fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 14/71] fix: pbblast_pbbconst read bit values modulo 2^32

---
 carcara/src/checker/rules/pb_blasting.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index ff382bf..fc228ed 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -401,12 +401,11 @@ pub fn pbblast_pbbconst(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
                 .ok_or(CheckerError::Explanation(format!(
                     "Non-integer term at position {}",
                     i
-                )))?
-                .to_i32_wrapping();
+                )))?;
 
-            match pb {
-                0 => Ok(acc),
-                1 => {
+            match pb.to_i32() {
+                Some(0) => Ok(acc),
+                Some(1) => {
                     let exponent = i.try_into().unwrap();
                     let increment = Integer::i_pow_u(2, exponent);
                     Ok(&acc + Integer::from(increment))
-- 
2.43.0


From 5d41814f24b983947206302a6d26f9e84d595ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 15/71] fix: cp_addition accepted any sum for literals with
 coefficient zero in the conclusion

---
 carcara/src/checker/rules/cutting_planes.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 917435a..0c89c3a 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -211,9 +211,6 @@ pub fn cp_addition(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
 
     // Verify pseudo-boolean sums match
     for (literal, coeff_c) in &pbsum_c {
-        if *coeff_c == 0 {
-            continue;
-        }
         match pbsum_lr_reduced.get(literal) {
             Some(coeff_lr_reduced) => {
                 rassert!(
@@ -221,6 +218,8 @@ pub fn cp_addition(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
                     CheckerError::ExpectedInteger(coeff_lr_reduced.clone(), conclusion.clone())
                 );
             }
+            // A literal that was cancelled out may still appear with coefficient zero
+            None if *coeff_c == 0 => (),
             // ¬∃ x, (x ∈ C) ∧ ¬(x ∈ L) ∧ ¬(x ∈ R)
             _ => {
                 return Err(CheckerError::Explanation(format!(
-- 
2.43.0


From 55aa1656516a02c010f89eac0401d9f7b0b17a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 16/71] fix: cp_literal accepted terms that can be negative as
 literals

---
 carcara/src/checker/rules/cutting_planes.rs | 37 +++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 0c89c3a..4ec58b4 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -379,10 +379,47 @@ pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> R
     Ok(())
 }
 
+/// Checks that a term cannot be negative when its literals are 0 or 1
+fn assert_non_negative(term: &Rc<Term>) -> RuleResult {
+    let non_negative = match term.as_ref() {
+        Term::Const(Constant::Integer(value)) => *value >= 0,
+        Term::Op(Operator::Add | Operator::Mult, args) => {
+            return args.iter().try_for_each(assert_non_negative);
+        }
+        Term::Op(Operator::Sub, args) => match args.as_slice() {
+            [one, l] => one.as_integer().is_some_and(|n| n == 1) && is_literal(l),
+            _ => false,
+        },
+        _ => is_literal(term),
+    };
+    rassert!(
+        non_negative,
+        CheckerError::Explanation(format!("Expected a pseudo-boolean literal, got {term}"))
+    );
+    Ok(())
+}
+
+/// The terms taken as variables of a pseudo-boolean problem, that is, all that are not arithmetic
+fn is_literal(term: &Rc<Term>) -> bool {
+    !matches!(
+        term.as_ref(),
+        Term::Const(_)
+            | Term::Op(
+                Operator::Add
+                    | Operator::Sub
+                    | Operator::Mult
+                    | Operator::IntDiv
+                    | Operator::Mod,
+                _
+            )
+    )
+}
+
 pub fn cp_literal(RuleArgs { pool, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_args(args, 1)?;
     assert_clause_len(conclusion, 1)?;
     // TODO: Set args type to FF 2
+    assert_non_negative(&args[0])?;
 
     if let Some(((c, (_, l)), _)) = match_term!((>= (* c (- 1 l)) 0) = &conclusion[0]) {
         rassert!(
-- 
2.43.0


From 49434e85fa3307934bdd7b7209248d48faf7a76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 17/71] fix: read negative bitvectors in two's complement when
 evaluating

as_signed_bitvec computed 2^w - v instead of v - 2^w, so that signed
comparisons, bvsdiv, bvsrem, bvsub, sign_extend and sbv_to_int evaluated
to wrong values.
---
 carcara/src/ast/evaluate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 8dc3c25..7d847e0 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -77,7 +77,7 @@ impl Value {
         let (val, w) = self.as_bitvec()?;
         let val = if val.get_bit((w - 1) as u32) {
             let m = Integer::from(1) << w;
-            m.clone() - val
+            val.clone() - m
         } else {
             val.clone()
         };
-- 
2.43.0


From 1b7388f5755eb55add2db0a89c43a83ec86c2d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 18/71] fix: keep the topmost bit when evaluating extract

---
 carcara/src/ast/evaluate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 7d847e0..2c3e0a1 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -505,7 +505,7 @@ fn eval_param_op(op: ParamOperator, op_args: &[Rc<Term>], args: &[Rc<Term>]) ->
             let i = op_args[0].as_int()?.to_usize().unwrap();
             let j = op_args[1].as_int()?.to_usize().unwrap();
             let (bits, _) = args[0].as_bitvec()?;
-            let bits = bits.clone().keep_bits(i as u32) >> j;
+            let bits = bits.clone().keep_bits(i as u32 + 1) >> j;
             Value::new_bitvec(bits, i - j + 1)
         }
         ParamOperator::ZeroExtend => {
-- 
2.43.0


From f0953cca409a607ad094a586ad3c4a62bf072370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 19/71] fix: evaluate div as Euclidean division, and don't
 divide by zero

---
 carcara/src/ast/evaluate.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 2c3e0a1..de60bea 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -1,5 +1,5 @@
 use super::{Constant, Operator, ParamOperator, Rc, Term, TermPool};
-use rug::{Integer, Rational};
+use rug::{ops::DivRounding, Integer, Rational};
 use std::collections::{HashMap, HashSet};
 
 /// A representation of the value of an SMT-LIB/Alethe term. This is constructed by evaluating a
@@ -278,9 +278,31 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
         },
         Operator::Sub => arith_op!(-, args),
         Operator::Mult => arith_op!(*, args),
-        Operator::IntDiv => arith_op!(/, args),
-        Operator::RealDiv => arith_op!(/, args, "real"),
-        Operator::Mod => Value::Integer(args[0].as_int()? % args[1].as_int()?),
+        // The value of a division by zero is not fixed, so we leave the term as it is
+        Operator::IntDiv => {
+            let first = args[0].as_int()?;
+            Value::Integer(args[1..].iter().try_fold(first, |acc, arg| {
+                let arg = arg.as_int()?;
+                (!arg.is_zero()).then(|| acc.div_euc(arg))
+            })?)
+        }
+        Operator::RealDiv => {
+            if args[1..].iter().any(|arg| match arg {
+                Value::Integer(i) => i.is_zero(),
+                Value::Real(r) => r.is_zero(),
+                _ => false,
+            }) {
+                return None;
+            }
+            arith_op!(/, args, "real")
+        }
+        Operator::Mod => {
+            let divisor = args[1].as_int()?;
+            if divisor.is_zero() {
+                return None;
+            }
+            Value::Integer(args[0].as_int()? % divisor)
+        }
         Operator::Abs => match &args[0] {
             Value::Integer(i) => Value::Integer(i.clone().abs()),
             Value::Real(r) => Value::Real(r.clone().abs()),
-- 
2.43.0


From 7cecba6d7fbff93d3c9c0867378e0e575644db37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 20/71] fix: evaluate bvsmod as the floored modulus

---
 carcara/src/ast/evaluate.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index de60bea..f2d1b78 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -1,5 +1,8 @@
 use super::{Constant, Operator, ParamOperator, Rc, Term, TermPool};
-use rug::{ops::DivRounding, Integer, Rational};
+use rug::{
+    ops::{DivRounding, RemRounding},
+    Integer, Rational,
+};
 use std::collections::{HashMap, HashSet};
 
 /// A representation of the value of an SMT-LIB/Alethe term. This is constructed by evaluating a
@@ -423,11 +426,13 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
             if b.is_zero() {
                 return None;
             }
-            let signum: Integer = if op == Operator::BvSRem { &a } else { &b }
-                .signum_ref()
-                .into();
-            let value = a.abs() % b.abs();
-            Value::new_bitvec(value * signum, w)
+            // The sign of the result follows the dividend in `bvsrem` and the divisor in `bvsmod`
+            let value = if op == Operator::BvSRem {
+                a % b
+            } else {
+                a.rem_floor(b)
+            };
+            Value::new_bitvec(value, w)
         }
         Operator::BvShl => {
             let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-- 
2.43.0


From 4db34c53e9740c741121e00dd52b4b680234b3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 21/71] fix: evaluate shifts and rotations by more than the
 width

bvashr and rotate_left underflowed, and bvshl allocated the shifted value
before truncating it.
---
 carcara/src/ast/evaluate.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index f2d1b78..f1cb10e 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -436,15 +436,18 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
         }
         Operator::BvShl => {
             let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-            Value::new_bitvec(a.clone() << b.to_usize()?, w)
+            // Shifting by the width or more leaves nothing of the operand
+            let b = b.to_usize().map_or(w, |b| b.min(w));
+            Value::new_bitvec(a.clone() << b, w)
         }
         Operator::BvLShr => {
             let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-            Value::new_bitvec(a.clone() >> b.to_usize()?, w)
+            let b = b.to_usize().map_or(w, |b| b.min(w));
+            Value::new_bitvec(a.clone() >> b, w)
         }
         Operator::BvAShr => {
             let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-            let b = b.to_usize().unwrap();
+            let b = b.to_usize().map_or(w, |b| b.min(w));
             let mut result = a.clone() >> b;
             if a.get_bit((w - 1) as u32) {
                 // If the leading bit is 1, we have to fill the new bits with 1s. The mask is b 1s
@@ -549,7 +552,7 @@ fn eval_param_op(op: ParamOperator, op_args: &[Rc<Term>], args: &[Rc<Term>]) ->
             let i = op_args[0].as_int()?.to_usize().unwrap();
             let (value, w) = args[0].as_bitvec()?;
             // A left rotation by i bits is just a right rotation by w - i bits
-            Value::new_bitvec(rotate_right(value, w, w - i), w)
+            Value::new_bitvec(rotate_right(value, w, w - i % w), w)
         }
         ParamOperator::RotateRight => {
             let i = op_args[0].as_int()?.to_usize().unwrap();
-- 
2.43.0


From 030613d3bf4ba4b1606939903e2f1c3801e38e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 22/71] fix: polyeq identifies (- a) with a modulo n-ary
 expansion

---
 carcara/src/ast/polyeq.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 72bbc24..e80e662 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -537,6 +537,8 @@ impl PolyeqComparable for Term {
                 if comp.is_mod_nary
                     && args.len() == 1
                     && op.nary_case() == Some(NaryCase::LeftAssoc)
+                    // A unary `-` is a negation, not a singleton subtraction
+                    && *op != Operator::Sub
                     // We have to check with `==` first because we are calling into `comp.eq` with
                     // `&Term`s directly (instead of `Rc<Term>`s), so the `==` check is skipped
                     && (args[0].as_ref() == other || comp.eq(args[0].as_ref(), other)) =>
-- 
2.43.0


From e4b9603b87bb9678bf3eaa40dcbeeba5357bc23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 23/71] fix: polyeq flattens a negation into a subtraction

---
 carcara/src/ast/polyeq.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index e80e662..67779ae 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -311,7 +311,8 @@ impl Polyeq {
                 return None;
             };
             let (term_op, args) = term.as_op()?;
-            if term_op == op {
+            // A unary `-` is a negation, not a singleton subtraction
+            if term_op == op && !(op == Operator::Sub && args.len() == 1) {
                 Some(args)
             } else {
                 None
-- 
2.43.0


From 874a34cc3fec20f9d0af95b770332f5064c31e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 24/71] fix: alpha-equivalence ignores the number of bound
 variables

---
 carcara/src/ast/polyeq.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 67779ae..90aacdb 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -202,6 +202,10 @@ impl Polyeq {
         b_inner: &Rc<Term>,
     ) -> bool {
         if let Some(de_bruijn_map) = self.de_bruijn_map.as_mut() {
+            if a_binds.len() != b_binds.len() {
+                return false;
+            }
+
             // First, we push new scopes into the De Bruijn map and the cache stack
             de_bruijn_map.push();
             self.cache.push_scope();
-- 
2.43.0


From 8fd7cbd0426dfb38fba46f789f098058ba606fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 25/71] fix: alpha-equivalence compares let values in the scope
 of the let's variables

---
 carcara/src/ast/polyeq.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 90aacdb..26d90ef 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -201,30 +201,29 @@ impl Polyeq {
         a_inner: &Rc<Term>,
         b_inner: &Rc<Term>,
     ) -> bool {
-        if let Some(de_bruijn_map) = self.de_bruijn_map.as_mut() {
+        if self.de_bruijn_map.is_some() {
             if a_binds.len() != b_binds.len() {
                 return false;
             }
 
-            // First, we push new scopes into the De Bruijn map and the cache stack
-            de_bruijn_map.push();
-            self.cache.push_scope();
-
-            // Then, we check that the binding lists and the inner terms are equivalent
+            // First, we check that the sorts (or, for a `let`, the values) of the variables are
+            // equivalent. They are outside the scope of the variables, so we do this before
+            // inserting any of them into the De Bruijn map
             for (a_var, b_var) in a_binds.iter().zip(b_binds.iter()) {
                 if !self.eq(&a_var.1, &b_var.1) {
-                    // We must remember to pop the frames from the De Bruijn map and cache stack
-                    // here, so as not to leave them in a corrupted state
-                    self.de_bruijn_map.as_mut().unwrap().pop();
-                    self.cache.pop_scope();
                     return false;
                 }
-                // We also insert each variable in the binding lists into the De Bruijn map
-                self.de_bruijn_map
-                    .as_mut()
-                    .unwrap()
-                    .insert(a_var.0.clone(), b_var.0.clone());
             }
+
+            // Then, we push new scopes into the De Bruijn map and the cache stack, and insert each
+            // variable in the binding lists into the De Bruijn map
+            let de_bruijn_map = self.de_bruijn_map.as_mut().unwrap();
+            de_bruijn_map.push();
+            for (a_var, b_var) in a_binds.iter().zip(b_binds.iter()) {
+                de_bruijn_map.insert(a_var.0.clone(), b_var.0.clone());
+            }
+            self.cache.push_scope();
+
             let result = self.eq(a_inner, b_inner);
 
             // Finally, we pop the scopes we pushed
-- 
2.43.0


From b5a364fb5a0224e389aaaabe9636e0ac5c48355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 26/71] fix: alpha-equivalence uses cache entries from outside
 a binder

---
 carcara/src/ast/polyeq.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 26d90ef..bafa925 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -483,8 +483,11 @@ impl PolyeqComparable for Rc<Term> {
             return true;
         }
 
-        // We first check the cache to see if these terms were already determined to be equal
-        if comp.cache.get(&(a.clone(), b.clone())).is_some() {
+        // We first check the cache to see if these terms were already determined to be equal. We
+        // can only use entries of the current scope: in outer scopes, the variables in the terms may
+        // have different meanings
+        let cached = comp.cache.get_with_depth(&(a.clone(), b.clone()));
+        if cached.is_some_and(|(depth, ())| depth + 1 == comp.cache.height()) {
             return true;
         }
 
-- 
2.43.0


From accf4db4fe561ecea55606255e86b18bde6d28cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 27/71] fix: polyeq ignores the denominator of a negated real
 constant

---
 carcara/src/ast/polyeq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index bafa925..18a8493 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -603,7 +603,7 @@ impl PolyeqComparable for Term {
                 if let Term::Const(Constant::Integer(i2)) = args[0].as_ref() {
                     i1.clone().abs() == i2.clone()
                 } else if let Term::Const(Constant::Real(r2)) = args[0].as_ref() {
-                    i1.clone().abs() == r2.numer().clone()
+                    i1.clone().abs() == r2.clone()
                 } else {
                     false
                 }
-- 
2.43.0


From 050044b1e1abb1e852f6ddb99712a428b2efada2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 28/71] fix: polyeq of a constant and a quotient with a zero or
 swapped operand

---
 carcara/src/ast/polyeq.rs | 64 +++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 18a8493..0f840d4 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -37,6 +37,21 @@ fn to_concat(args: &[Rc<Term>]) -> Vec<Concat> {
         .collect()
 }
 
+/// If the arguments of a `/` operation are two integral real literals, returns their quotient.
+fn literal_quotient(args: &[Rc<Term>]) -> Option<Rational> {
+    let [a, b] = args else {
+        return None;
+    };
+    match (a.as_ref(), b.as_ref()) {
+        (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
+            if r1.is_integer() && r2.is_integer() && *r2 != 0 =>
+        {
+            Some(Rational::from((r1.numer(), r2.numer())))
+        }
+        _ => None,
+    }
+}
+
 /// A trait that represents objects that can be compared for equality modulo reordering of
 /// equalities or alpha equivalence.
 pub trait PolyeqComparable {
@@ -565,35 +580,27 @@ impl PolyeqComparable for Term {
             (Term::Const(Constant::Real(r)), Term::Op(Operator::RealDiv, args)) => {
                 // if a is a rational and b a division literal, check
                 // if they are the same
-                match (args[0].as_ref(), args[1].as_ref()) {
-                    (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                        if r1.is_integer() && r2.is_integer() =>
-                    {
-                        Rational::from((r1.numer(), r2.numer())) == r.clone()
-                    }
-                    _ => false,
-                }
+                literal_quotient(args).is_some_and(|q| q == *r)
             }
             (Term::Op(Operator::RealDiv, args), Term::Const(Constant::Real(r))) => {
                 // if a is a rational and b a division literal, check
                 // if they are the same
-                match (args[0].as_ref(), args[1].as_ref()) {
-                    (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                        if r.is_positive() && r1.is_integer() && r2.is_integer() =>
-                    {
-                        Rational::from((r1.numer(), r2.numer())) == r.clone()
-                    }
-                    (Term::Op(Operator::Sub, args), Term::Const(Constant::Integer(r2)))
-                    | (Term::Const(Constant::Integer(r2)), Term::Op(Operator::Sub, args))
-                        if r.is_negative() && args.len() == 1 =>
-                    {
-                        if let Term::Const(Constant::Integer(r1)) = args[0].as_ref() {
-                            Rational::from((r1, r2)) == r.clone().abs()
-                        } else {
-                            false
-                        }
+                match args.as_slice() {
+                    [a, b] if r.is_negative() => {
+                        // In this case, one of the arguments must be a negated literal
+                        let negated = |t: &Rc<Term>| match t.as_ref() {
+                            Term::Op(Operator::Sub, args) if args.len() == 1 => {
+                                args[0].as_integer()
+                            }
+                            _ => None,
+                        };
+                        let negated_num = negated(a).zip(b.as_integer());
+                        let negated_den = a.as_integer().zip(negated(b));
+                        negated_num.or(negated_den).is_some_and(|(num, den)| {
+                            den != 0 && Rational::from((num, den)) == r.clone().abs()
+                        })
                     }
-                    _ => false,
+                    _ => r.is_positive() && literal_quotient(args).is_some_and(|q| q == *r),
                 }
             }
             (Term::Const(Constant::Integer(i1)), Term::Op(Operator::Sub, args))
@@ -614,14 +621,7 @@ impl PolyeqComparable for Term {
             {
                 match args[0].as_ref() {
                     Term::Op(Operator::RealDiv, sub_args) => {
-                        match (sub_args[0].as_ref(), sub_args[1].as_ref()) {
-                            (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                                if r1.is_integer() && r2.is_integer() =>
-                            {
-                                Rational::from((r1.numer(), r2.numer())) == r.clone().abs()
-                            }
-                            _ => false,
-                        }
+                        literal_quotient(sub_args).is_some_and(|q| q == r.clone().abs())
                     }
                     Term::Const(Constant::Real(r1)) => r1.clone() == r.clone().abs(),
                     _ => false,
-- 
2.43.0


From fcfbce7dade1f59c8ce0e2e40065d4e7c7a25cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:11 +0000
Subject: [PATCH 29/71] fix: polyeq modulo string concatenation ignores the
 operators

---
 carcara/src/ast/polyeq.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 0f840d4..852c355 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -259,7 +259,10 @@ impl Polyeq {
         args_b: &[Rc<Term>],
     ) -> bool {
         // Modulo string concatenation
-        if self.is_mod_string_concat {
+        if self.is_mod_string_concat
+            && op_a == Operator::StrConcat
+            && op_b == Operator::StrConcat
+        {
             let concat_args_a: Vec<Concat> = to_concat(args_a);
             let concat_args_b: Vec<Concat> = to_concat(args_b);
             return self.compare_strings(concat_args_a, concat_args_b);
-- 
2.43.0


From 9903b6b2946dacce4bcf52e200851b6ecb7e7798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 30/71] fix: polyeq modulo string concatenation panics on
 non-ASCII strings

---
 carcara/src/ast/polyeq.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 852c355..fd94d05 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -366,15 +366,14 @@ impl Polyeq {
             (None | Some(_), None) | (None, Some(_)) => (a, b),
             (Some(a_head), Some(b_head)) => match (a_head, b_head) {
                 (Concat::Constant(a_constant), Concat::Constant(b_constant)) => {
-                    let prefix_length = std::cmp::min(a_constant.len(), b_constant.len());
-                    for i in 0..prefix_length {
-                        if a_constant.chars().nth(i).unwrap() != b_constant.chars().nth(i).unwrap()
-                        {
+                    let (a_const_rem, b_const_rem) =
+                        if let Some(rem) = a_constant.strip_prefix(b_constant.as_str()) {
+                            (rem, "")
+                        } else if let Some(rem) = b_constant.strip_prefix(a_constant.as_str()) {
+                            ("", rem)
+                        } else {
                             return (a, b);
-                        }
-                    }
-                    let a_const_rem = &a_constant[prefix_length..];
-                    let b_const_rem = &b_constant[prefix_length..];
+                        };
                     let mut new_a = a[1..].to_vec();
                     let mut new_b = b[1..].to_vec();
                     if !a_const_rem.is_empty() {
-- 
2.43.0


From f6805c314854ced52b3753433b50853131bdf3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:10 +0000
Subject: [PATCH 31/71] fix: removing a mapping from a substitution keeps
 cached results that used it

---
 carcara/src/ast/substitution.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 8360ea0..8d6e9cf 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -138,6 +138,8 @@ impl Substitution {
         let was_present = self.map.swap_remove(x).is_some();
         if was_present {
             self.should_be_renamed = None;
+            // The cached results may have been computed using the removed mapping
+            self.cache.clear();
         }
     }
 
-- 
2.43.0


From 6d6a9ba2bf9752b2f70fbd974fe1048c1885f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 32/71] fix: free variables of the values bound by a let term
 are not counted

---
 carcara/src/ast/pool/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index cdeed27..b3dcd42 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -428,6 +428,10 @@ impl PrimitivePool {
                     let term = self.add_with_priorities((var.clone(), sort).into(), prior_pools);
                     vars.swap_remove(&term);
                 }
+                // The bound values are outside of the scope of the bound variables
+                for (_, value) in bindings {
+                    vars.extend(self.free_vars_with_priorities(value, prior_pools));
+                }
                 vars
             }
             Term::Var(..) => {
-- 
2.43.0


From b92b86b74643d98f2ec29843965532532f40dfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 33/71] fix: applying a substitution of a sort variable to a
 binder panics

---
 carcara/src/ast/substitution.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 8d6e9cf..32b5fea 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -283,7 +283,9 @@ impl Substitution {
         if self.map.len() != 1 {
             return false;
         }
-        let x = self.map.iter().next().unwrap().0.as_var().unwrap();
+        let Some(x) = self.map.iter().next().unwrap().0.as_var() else {
+            return false;
+        };
 
         let mut should_be_renamed = binding_list
             .iter()
-- 
2.43.0


From d587c66e032a7e86a6614ad5cf171afc8ade24c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 34/71] fix: applying a substitution to a let term panics or
 does not reach its values

---
 carcara/src/ast/substitution.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 32b5fea..d353f22 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -215,6 +215,8 @@ impl Substitution {
                 self.apply_to_binder(pool, term, *binder, binding_list.as_ref(), inner)
             }
             Term::Let(binding_list, inner) => {
+                self.compute_should_be_renamed(pool);
+
                 let (new_bindings, mut renaming) =
                     self.rename_binding_list(pool, binding_list, true);
                 let new_term = if renaming.is_empty() {
@@ -385,10 +387,11 @@ impl Substitution {
                     new_vars.insert(new_var.clone());
                 }
 
-                // If the binding list is a "value" list, we need to apply the current substitution
-                // to each variable's value
+                // If the binding list is a "value" list, we need to apply this substitution to each
+                // variable's value. The values are outside of the scope of the bound variables, so
+                // the renaming does not apply to them
                 let new_value = if is_value_list {
-                    new_substitution.apply(pool, value)
+                    self.apply(pool, value)
                 } else {
                     value.clone()
                 };
-- 
2.43.0


From 8e6ca21511c5bf96814afd54227d878f42fdbd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 35/71] fix: renaming a bound variable may capture another
 variable of the term

---
 carcara/src/ast/substitution.rs | 41 +++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index d353f22..bbf92af 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -218,7 +218,7 @@ impl Substitution {
                 self.compute_should_be_renamed(pool);
 
                 let (new_bindings, mut renaming) =
-                    self.rename_binding_list(pool, binding_list, true);
+                    self.rename_binding_list(pool, term, binding_list, true);
                 let new_term = if renaming.is_empty() {
                     self.apply(pool, inner)
                 } else {
@@ -324,7 +324,8 @@ impl Substitution {
             return original_term.clone();
         }
 
-        let (new_bindings, mut renaming) = self.rename_binding_list(pool, binding_list, false);
+        let (new_bindings, mut renaming) =
+            self.rename_binding_list(pool, original_term, binding_list, false);
         let new_term = if renaming.is_empty() {
             self.apply(pool, inner)
         } else {
@@ -336,8 +337,8 @@ impl Substitution {
         pool.add(Term::Binder(binder, new_bindings, new_term))
     }
 
-    /// Creates a new substitution that renames all variables in the binding list that may be
-    /// captured by this substitution to a new, arbitrary name. Returns that substitution, and the
+    /// Creates a new substitution that renames all variables in the binding list of `original_term`
+    /// that may be captured by this substitution to a new name. Returns that substitution, and the
     /// new binding list, with the bindings renamed. If no variable needs to be renamed, this just
     /// returns a clone of the binding list and an empty substitution. The name chosen when renaming
     /// a variable is the old name with `'` appended. If the binding list is a "value" list, like in
@@ -345,11 +346,16 @@ impl Substitution {
     fn rename_binding_list(
         &mut self,
         pool: &mut dyn TermPool,
+        original_term: &Rc<Term>,
         binding_list: &[SortedVar],
         is_value_list: bool,
     ) -> (BindingList, Self) {
         let mut new_substitution = Self::empty();
+        // The names given to renamed variables, the names of the variables that are not renamed, and
+        // the names of the free variables of the term. A new name must be different from all of them
         let mut new_vars = IndexSet::new();
+        let mut kept_vars = IndexSet::new();
+        let mut free_vars: Option<IndexSet<Rc<Term>>> = None;
         let new_binding_list = binding_list
             .iter()
             .map(|(var, value)| {
@@ -361,21 +367,24 @@ impl Substitution {
                     value.clone()
                 };
 
-                let mut changed = false;
                 let mut new_var = var.clone();
+                let should_be_renamed = self.should_be_renamed.as_ref().unwrap();
+                let changed = new_vars.contains(var) || should_be_renamed.contains(var);
 
-                // We keep adding `'`s to the variable name as long as it is necessary
-                loop {
-                    if !new_vars.contains(&new_var)
-                        && !self.should_be_renamed.as_ref().unwrap().contains(&new_var)
-                    {
-                        break;
+                if changed {
+                    // We keep adding `'`s to the variable name as long as it is necessary
+                    let free_vars = free_vars.get_or_insert_with(|| pool.free_vars(original_term));
+                    loop {
+                        new_var.push('\'');
+                        if !new_vars.contains(&new_var)
+                            && !kept_vars.contains(&new_var)
+                            && !should_be_renamed.contains(&new_var)
+                            && !free_vars.iter().any(|v| v.as_var() == Some(&new_var))
+                        {
+                            break;
+                        }
                     }
-                    new_var.push('\'');
-                    changed = true;
-                }
 
-                if changed {
                     // If the variable was renamed, we have to add this renaming to the resulting
                     // substitution
                     let old = pool.add((var.clone(), sort.clone()).into());
@@ -385,6 +394,8 @@ impl Substitution {
                     // same sort
                     new_substitution.insert(pool, old, new).unwrap();
                     new_vars.insert(new_var.clone());
+                } else {
+                    kept_vars.insert(new_var.clone());
                 }
 
                 // If the binding list is a "value" list, we need to apply this substitution to each
-- 
2.43.0


From df9e2175f14262f71c13a711a4d74a029037cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 36/71] fix: context mappings are used where a variable of
 their value is shadowed

---
 carcara/src/ast/context.rs      | 12 ++++++++++++
 carcara/src/ast/substitution.rs | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/carcara/src/ast/context.rs b/carcara/src/ast/context.rs
index 5c38f74..8f2ebd4 100644
--- a/carcara/src/ast/context.rs
+++ b/carcara/src/ast/context.rs
@@ -180,10 +180,22 @@ impl ContextStack {
                     AnchorArg::Variable((name, sort)) => {
                         let var_term = pool.add(Term::new_var(name, sort.clone()));
                         substitution.remove(&var_term);
+                        // The values of the remaining mappings can only refer to the variable that
+                        // this one is shadowing
+                        substitution.remove_uses(pool, &var_term);
                     }
                     AnchorArg::Assign(var, value) => {
                         let var_term = pool.add(var.clone().into());
                         let new_value = substitution.apply(pool, value);
+                        if new_value != var_term {
+                            substitution.remove_uses(pool, &var_term);
+                            // If the value refers to the variable that this one is shadowing, it
+                            // can't be written inside this context
+                            if pool.free_vars(&new_value).contains(&var_term) {
+                                substitution.remove(&var_term);
+                                continue;
+                            }
+                        }
                         // It is safe to unwrap here because we ensure by contruction that
                         // `var_term` is a variable term, with he same sort as `value`
                         substitution
diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index bbf92af..8f19262 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -143,6 +143,18 @@ impl Substitution {
         }
     }
 
+    /// Removes all mappings whose values refer to the variable `x`, other than `x -> x`. This should
+    /// be used when `x` starts to denote something else than it does in these values.
+    pub(super) fn remove_uses(&mut self, pool: &mut dyn TermPool, x: &Rc<Term>) {
+        let old_len = self.map.len();
+        self.map
+            .retain(|k, v| (k == x && v == x) || !pool.free_vars(v).contains(x));
+        if self.map.len() != old_len {
+            self.should_be_renamed = None;
+            self.cache.clear();
+        }
+    }
+
     /// Computes which binder variables will need to be renamed, and stores the result in
     /// `self.should_be_renamed`.
     fn compute_should_be_renamed(&mut self, pool: &mut dyn TermPool) {
-- 
2.43.0


From cfed3533357b62892061e932088e2b42cac1b2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:44 +0000
Subject: [PATCH 37/71] fix: qnt_cnf may capture a free variable when moving a
 quantifier out

---
 carcara/src/checker/rules/quantifier.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/carcara/src/checker/rules/quantifier.rs b/carcara/src/checker/rules/quantifier.rs
index a7a925e..cce230e 100644
--- a/carcara/src/checker/rules/quantifier.rs
+++ b/carcara/src/checker/rules/quantifier.rs
@@ -294,6 +294,23 @@ pub fn qnt_cnf(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
         )));
     }
 
+    // A variable that was bound inside the term can't be moved out of it if that would capture a
+    // different variable, free in the original term
+    let original = pool.add(Term::Binder(
+        Binder::Forall,
+        l_bindings.clone(),
+        phi.clone(),
+    ));
+    let original_free_vars = pool.free_vars(&original);
+    if let Some((var, _)) = r_bindings
+        .iter()
+        .find(|&b| original_free_vars.contains(&pool.add(b.clone().into())))
+    {
+        return Err(CheckerError::Quant(QuantifierError::NewBindingIntroduced(
+            var.clone(),
+        )));
+    }
+
     let selected_clause = clauses
         .iter()
         .find(|&clause| clause == phi_prime)
-- 
2.43.0


From 3bf020befef00e730ca0245d3f4277df19535b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 38/71] fix: subproof accepts conclusions with variables
 assigned in the context

---
 carcara/src/checker/error.rs          |  3 +++
 carcara/src/checker/rules/subproof.rs | 38 +++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/carcara/src/checker/error.rs b/carcara/src/checker/error.rs
index 98a25af..b054d3d 100644
--- a/carcara/src/checker/error.rs
+++ b/carcara/src/checker/error.rs
@@ -393,6 +393,9 @@ pub enum SubproofError {
     #[error("unexpected anchor argument: '{0}'")]
     BindUnexpectedVarArgument(String),
 
+    #[error("variable '{0}', that is assigned a value in the subproof's context, can't be used here")]
+    AssignedVarIsUsed(String),
+
     #[error("right and left quantifiers have different number of bindings: {0} and {1}")]
     BindDifferentNumberOfBindings(usize, usize),
 
diff --git a/carcara/src/checker/rules/subproof.rs b/carcara/src/checker/rules/subproof.rs
index 2544335..26a9807 100644
--- a/carcara/src/checker/rules/subproof.rs
+++ b/carcara/src/checker/rules/subproof.rs
@@ -6,10 +6,43 @@ use crate::{ast::*, checker::error::SubproofError};
 use indexmap::{IndexMap, IndexSet};
 use std::collections::{HashMap, HashSet};
 
+/// Returns the variables to which the innermost context assigns a value other than themselves.
+fn assigned_vars(pool: &mut dyn TermPool, context: &ContextStack) -> IndexSet<Rc<Term>> {
+    let Some(context) = context.last() else {
+        return IndexSet::new();
+    };
+    let args = context.as_ref().unwrap().args.iter();
+    args.filter_map(|arg| match arg {
+        AnchorArg::Variable(_) => None,
+        AnchorArg::Assign(var, value) => {
+            let var = pool.add(var.clone().into());
+            (var != *value).then_some(var)
+        }
+    })
+    .collect()
+}
+
+/// Outside of the subproof, a variable no longer stands for the value its context assigned to it,
+/// so any term that is carried out of the subproof can't use it.
+fn assert_vars_are_unused<'a>(
+    pool: &mut dyn TermPool,
+    vars: impl IntoIterator<Item = &'a Rc<Term>>,
+    term: &Rc<Term>,
+) -> Result<(), SubproofError> {
+    let free_vars = pool.free_vars(term);
+    match vars.into_iter().find(|&v| free_vars.contains(v)) {
+        Some(v) => Err(SubproofError::AssignedVarIsUsed(
+            v.as_var().unwrap().to_owned(),
+        )),
+        None => Ok(()),
+    }
+}
+
 pub fn subproof(
     RuleArgs {
         conclusion,
         pool,
+        context,
         previous_command,
         discharge,
         polyeq_time,
@@ -44,6 +77,11 @@ pub fn subproof(
         }
     };
 
+    let assigned = assigned_vars(pool, context);
+    for t in conclusion {
+        assert_vars_are_unused(pool, &assigned, t)?;
+    }
+
     assert_polyeq(conclusion.last().unwrap(), &phi, polyeq_time)
 }
 
-- 
2.43.0


From 032065c46ca0e8aa43962011c2bc3caa331af32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 39/71] fix: bind accepts bindings that do not correspond to
 each other

---
 carcara/src/checker/error.rs          |  3 ++
 carcara/src/checker/rules/subproof.rs | 60 ++++++++++++++++++++-------
 2 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/carcara/src/checker/error.rs b/carcara/src/checker/error.rs
index b054d3d..fd4482e 100644
--- a/carcara/src/checker/error.rs
+++ b/carcara/src/checker/error.rs
@@ -393,6 +393,9 @@ pub enum SubproofError {
     #[error("unexpected anchor argument: '{0}'")]
     BindUnexpectedVarArgument(String),
 
+    #[error("binding '{0}' does not correspond to a binding on the other side")]
+    BindingsDontCorrespond(String),
+
     #[error("variable '{0}', that is assigned a value in the subproof's context, can't be used here")]
     AssignedVarIsUsed(String),
 
diff --git a/carcara/src/checker/rules/subproof.rs b/carcara/src/checker/rules/subproof.rs
index 26a9807..1842188 100644
--- a/carcara/src/checker/rules/subproof.rs
+++ b/carcara/src/checker/rules/subproof.rs
@@ -106,11 +106,13 @@ pub fn bind(
     let (r_binder, r_bindings, right) = right.as_binder_err()?;
     assert_eq(&l_binder, &r_binder)?;
 
-    let [l_bindings, r_bindings] = [l_bindings, r_bindings].map(|b| {
+    let [l_list, r_list] = [l_bindings, r_bindings].map(|b| {
         b.iter()
             .map(|var| pool.add(var.clone().into()))
-            .collect::<IndexSet<_>>()
+            .collect::<Vec<_>>()
     });
+    let [l_bindings, r_bindings] =
+        [&l_list, &r_list].map(|b| b.iter().cloned().collect::<IndexSet<_>>());
 
     // The terms in the quantifiers must be phi and phi'
     assert_eq(left, phi)?;
@@ -131,8 +133,8 @@ pub fn bind(
     let context = context.last().unwrap();
     let context = context.as_ref().unwrap();
 
-    let (xs, ys): (IndexSet<_>, IndexSet<_>) = {
-        let (mut xs, mut ys) = (IndexSet::new(), IndexSet::new());
+    let (xs, ys): (IndexMap<_, _>, IndexSet<_>) = {
+        let (mut xs, mut ys) = (IndexMap::new(), IndexSet::new());
         for arg in &context.args {
             match arg {
                 AnchorArg::Variable((name, _)) if !xs.is_empty() => {
@@ -141,8 +143,12 @@ pub fn bind(
                 AnchorArg::Variable(var) => {
                     ys.insert(pool.add(var.clone().into()));
                 }
-                AnchorArg::Assign(var, _) => {
-                    xs.insert(pool.add(var.clone().into()));
+                AnchorArg::Assign(var, value) => {
+                    let var = pool.add(var.clone().into());
+                    if var != *value && xs.insert(var, value.clone()).is_some() {
+                        let name = arg.as_assign().unwrap().0.clone();
+                        return Err(SubproofError::BindUnexpectedVarArgument(name).into());
+                    }
                 }
             }
         }
@@ -154,20 +160,44 @@ pub fn bind(
         SubproofError::BindDifferentNumberOfBindings(l_bindings.len(), r_bindings.len())
     );
 
-    let (l_bindings, r_bindings): (IndexSet<_>, IndexSet<_>) = (
-        l_bindings.difference(&r_bindings).cloned().collect(),
-        r_bindings.difference(&r_bindings).cloned().collect(),
-    );
+    // The bindings on the right side must be variables that were introduced in the context, so
+    // that the previous command holds for all of their values
+    if let Some(y) = r_bindings
+        .iter()
+        .find(|&y| !ys.contains(y) || xs.contains_key(y))
+    {
+        let y = y.as_var().unwrap().to_owned();
+        return Err(SubproofError::BindingIsNotInContext(y).into());
+    }
 
-    // `l_bindings` should be a subset of `xs` and `r_bindigns` should be a subset of `ys`
-    if let Some(x) = l_bindings.iter().find(|&x| !xs.contains(x)) {
+    // Each of the bindings on the left side must stand for a different binding on the right side.
+    // In `choice` and `lambda` terms, the position of the bindings is also relevant
+    let images: Vec<_> = l_list.iter().map(|x| xs.get(x).unwrap_or(x)).collect();
+    if let Some((x, _)) = l_list
+        .iter()
+        .zip(&images)
+        .find(|(_, image)| !r_bindings.contains(**image))
+    {
         let x = x.as_var().unwrap().to_owned();
         return Err(SubproofError::BindingIsNotInContext(x).into());
     }
-    if let Some(y) = r_bindings.iter().find(|&y| !ys.contains(y)) {
-        let y = y.as_var().unwrap().to_owned();
-        return Err(SubproofError::BindingIsNotInContext(y).into());
+    let is_permutation = match l_binder {
+        Binder::Forall | Binder::Exists => {
+            images.iter().collect::<IndexSet<_>>().len() == r_bindings.len()
+        }
+        Binder::Choice | Binder::Lambda => {
+            l_list.len() == l_bindings.len() && images.into_iter().eq(&r_list)
+        }
+    };
+    if !is_permutation {
+        let x = l_list[0].as_var().unwrap().to_owned();
+        return Err(SubproofError::BindingsDontCorrespond(x).into());
     }
+
+    // The remaining variables that are assigned in the context can't be used
+    let others: Vec<_> = xs.keys().filter(|&x| !l_bindings.contains(x)).collect();
+    assert_vars_are_unused(pool, others, phi)?;
+    assert_vars_are_unused(pool, xs.keys(), phi_prime)?;
     Ok(())
 }
 
-- 
2.43.0


From 8ecacbf47168760ef27fda7309c0a0a407f46b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 40/71] fix: let accepts assigned variables outside of their
 scope

---
 carcara/src/checker/rules/subproof.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/carcara/src/checker/rules/subproof.rs b/carcara/src/checker/rules/subproof.rs
index 1842188..5691329 100644
--- a/carcara/src/checker/rules/subproof.rs
+++ b/carcara/src/checker/rules/subproof.rs
@@ -215,6 +215,8 @@ pub fn r#let(
 
     assert_clause_len(conclusion, 1)?;
 
+    let assigned = assigned_vars(pool, context);
+
     // Since we are closing a subproof, we only care about the mappings that were introduced in it
     let context = context.last().unwrap();
     let args = &context.as_ref().unwrap().args;
@@ -245,6 +247,24 @@ pub fn r#let(
         SubproofError::WrongNumberOfLetBindings(mappings.len(), let_bindings.len())
     );
 
+    // Each binding must be assigned exactly once
+    let mut names = HashSet::new();
+    if let Some((x, _)) = let_bindings.iter().find(|(x, _)| !names.insert(x)) {
+        return Err(SubproofError::BindingsDontCorrespond(x.clone()).into());
+    }
+    let num_assigns = args.iter().filter(|arg| arg.as_assign().is_some()).count();
+    rassert!(
+        num_assigns == mappings.len(),
+        SubproofError::WrongNumberOfLetBindings(num_assigns, let_bindings.len())
+    );
+
+    // The variables assigned in the context have no value outside of it, and the values given to
+    // them in the `let` term don't refer to each other
+    assert_vars_are_unused(pool, &assigned, u_prime)?;
+    for value in mappings.values() {
+        assert_vars_are_unused(pool, &assigned, value)?;
+    }
+
     let mut pairs: Vec<_> = let_bindings
         .iter()
         .map(|(x, t)| {
-- 
2.43.0


From 42b6f209f6d044ec0dd4a6aed0dc3d817a413f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 41/71] fix: onepoint accepts points that do not determine the
 variable

---
 carcara/src/checker/rules/subproof.rs | 87 ++++++++++++++++++++++-----
 1 file changed, 71 insertions(+), 16 deletions(-)

diff --git a/carcara/src/checker/rules/subproof.rs b/carcara/src/checker/rules/subproof.rs
index 5691329..6272247 100644
--- a/carcara/src/checker/rules/subproof.rs
+++ b/carcara/src/checker/rules/subproof.rs
@@ -293,8 +293,13 @@ pub fn r#let(
     Ok(())
 }
 
-fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)> {
+fn extract_points(
+    pool: &mut dyn TermPool,
+    quant: Binder,
+    term: &Rc<Term>,
+) -> HashSet<(String, Rc<Term>)> {
     fn find_points(
+        pool: &mut dyn TermPool,
         acc: &mut HashSet<(String, Rc<Term>)>,
         seen: &mut HashSet<(Rc<Term>, bool)>,
         polarity: bool,
@@ -307,10 +312,26 @@ fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)>
         seen.insert(key);
 
         if let Some(inner) = term.remove_negation() {
-            return find_points(acc, seen, !polarity, inner);
+            return find_points(pool, acc, seen, !polarity, inner);
         }
-        if let Some((_, _, inner)) = term.as_quant() {
-            return find_points(acc, seen, polarity, inner);
+        if let Some((_, bindings, inner)) = term.as_quant() {
+            // Equalities that involve the variables bound by this inner quantifier are not points
+            // of the outer one
+            let mut inner_acc = HashSet::new();
+            find_points(pool, &mut inner_acc, &mut HashSet::new(), polarity, inner);
+            let bound: Vec<_> = bindings
+                .iter()
+                .map(|var| pool.add(var.clone().into()))
+                .collect();
+            for (x, t) in inner_acc {
+                let sort = pool.sort(&t);
+                let x_term = pool.add(Term::new_var(&x, sort));
+                let free_vars = pool.free_vars(&t);
+                if !bound.iter().any(|v| *v == x_term || free_vars.contains(v)) {
+                    acc.insert((x, t));
+                }
+            }
+            return;
         }
         match polarity {
             true => {
@@ -323,17 +344,17 @@ fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)>
                     }
                 } else if let Some(args) = match_term!((and ...) = term) {
                     for a in args {
-                        find_points(acc, seen, true, a);
+                        find_points(pool, acc, seen, true, a);
                     }
                 }
             }
             false => {
                 if let Some((p, q)) = match_term!((=> p q) = term) {
-                    find_points(acc, seen, true, p);
-                    find_points(acc, seen, false, q);
+                    find_points(pool, acc, seen, true, p);
+                    find_points(pool, acc, seen, false, q);
                 } else if let Some(args) = match_term!((or ...) = term) {
                     for a in args {
-                        find_points(acc, seen, false, a);
+                        find_points(pool, acc, seen, false, a);
                     }
                 }
             }
@@ -342,7 +363,7 @@ fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)>
 
     let mut result = HashSet::new();
     let mut seen = HashSet::new();
-    find_points(&mut result, &mut seen, quant == Binder::Exists, term);
+    find_points(pool, &mut result, &mut seen, quant == Binder::Exists, term);
     result
 }
 
@@ -381,23 +402,54 @@ pub fn onepoint(
         }
     );
 
-    let points = extract_points(quant, left);
+    let points = extract_points(pool, quant, left);
 
     // Since a substitution may use a variable introduced in a previous substitution, we apply the
     // substitution to the points in order to replace these variables by their value.
-    let points: HashSet<_> = points
+    let points: Vec<_> = points
         .into_iter()
-        .map(|(x, t)| (x, context.apply(pool, &t)))
+        .map(|(x, t)| {
+            let value = context.apply(pool, &t);
+            (x, t, value)
+        })
         .collect();
 
     let context = context.last().unwrap();
     let context = context.as_ref().unwrap();
-    let mut mappings = context.args.iter().filter_map(AnchorArg::as_assign);
+    let assigned: IndexSet<_> = context
+        .args
+        .iter()
+        .filter_map(AnchorArg::as_assign)
+        .map(|(x, t)| {
+            let var = Term::new_var(x, pool.sort(t));
+            pool.add(var)
+        })
+        .collect();
 
-    // For each substitution (:= x t) in the context, the equality (= x t) must appear in phi
-    if let Some((k, v)) = mappings.find(|&(k, v)| !points.contains(&(k.clone(), v.clone()))) {
-        return Err(SubproofError::NoPointForSubstitution(k.clone(), v.clone()).into());
+    // For each substitution (:= x t) in the context, the equality (= x t) must appear in phi. That
+    // equality may only refer to the variables that were eliminated by previous substitutions, and
+    // the value of a substitution can't refer to variables introduced after it
+    let mut remaining = assigned.clone();
+    for (i, arg) in context.args.iter().enumerate() {
+        let Some((k, v)) = arg.as_assign() else {
+            continue;
+        };
+        let has_point = points.iter().any(|(x, t, value)| {
+            let free_vars = pool.free_vars(t);
+            x == k && value == v && !remaining.iter().any(|r| free_vars.contains(r))
+        });
+        let mut later = context.args[i + 1..].iter().filter_map(AnchorArg::as_variable);
+        let free_vars = pool.free_vars(v);
+        if !has_point || later.any(|var| free_vars.contains(&pool.add(var.clone().into()))) {
+            return Err(SubproofError::NoPointForSubstitution(k.clone(), v.clone()).into());
+        }
+        let k_term = Term::new_var(k, pool.sort(v));
+        remaining.shift_remove(&pool.add(k_term));
     }
+    for v in context.args.iter().filter_map(AnchorArg::as_assign) {
+        assert_vars_are_unused(pool, &assigned, v.1)?;
+    }
+    assert_vars_are_unused(pool, &assigned, right)?;
 
     // Here we check that the right variables were eliminated. Using the notation in the
     // specification, we have that:
@@ -426,6 +478,9 @@ pub fn onepoint(
         .collect();
     let point_vars: HashSet<_> = point_vars.iter().collect();
 
+    if let Some((x, _)) = var_args.iter().find(|&var| point_vars.contains(var)) {
+        return Err(SubproofError::AssignedVarIsUsed(x.clone()).into());
+    }
     if var_args != r_bindings.as_ref() {
         return Err(SubproofError::OnepointWrongRightBindings(BindingList(var_args)).into());
     }
-- 
2.43.0


From 51221b76288b9cebcf40d8139ad6dc69f92657f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:31 +0000
Subject: [PATCH 42/71] fix: skolemization rules accept variables outside of
 their scope

---
 carcara/src/checker/rules/subproof.rs | 35 ++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/carcara/src/checker/rules/subproof.rs b/carcara/src/checker/rules/subproof.rs
index 6272247..56a135e 100644
--- a/carcara/src/checker/rules/subproof.rs
+++ b/carcara/src/checker/rules/subproof.rs
@@ -524,13 +524,35 @@ fn generic_skolemization_rule(
     assert_eq(previous_equality.0, phi)?;
     assert_eq(previous_equality.1, psi)?;
 
-    let mut current_phi = phi.clone();
-    if context.len() >= 2 {
-        current_phi = context.apply_previous(pool, &current_phi);
+    // The substitutions of the outer contexts don't apply to the variables bound by the quantifier,
+    // so we must apply them to the quantified term. This may rename its bindings
+    let outer = context.apply_previous(pool, left);
+    let (_, outer_bindings, outer_phi) = outer.as_quant_err()?;
+    let mut current_phi = outer_phi.clone();
+
+    // The bindings, and only them, are assigned in the context, and they can't appear outside it
+    let binding_terms: IndexSet<_> = bindings
+        .iter()
+        .map(|x| pool.add(Term::from(x.clone())))
+        .collect();
+    if let Some(x) = assigned_vars(pool, context)
+        .iter()
+        .find(|&x| !binding_terms.contains(x))
+    {
+        let x = x.as_var().unwrap().to_owned();
+        return Err(SubproofError::AssignedVarIsUsed(x).into());
     }
+    assert_vars_are_unused(pool, &binding_terms, psi)?;
 
     let context = context.last().unwrap();
     let args = context.as_ref().unwrap().args.iter();
+    if let Some((x, _)) = args
+        .clone()
+        .filter_map(AnchorArg::as_variable)
+        .find(|&var| bindings.iter().any(|b| b == var))
+    {
+        return Err(SubproofError::BindUnexpectedVarArgument(x.clone()).into());
+    }
 
     let substitution: HashMap<Rc<Term>, Rc<Term>> = args
         .filter_map(AnchorArg::as_assign)
@@ -540,10 +562,11 @@ fn generic_skolemization_rule(
         })
         .collect();
 
-    for (i, x) in bindings.iter().enumerate() {
+    for (i, (original, x)) in bindings.iter().zip(outer_bindings).enumerate() {
+        let original = pool.add(Term::from(original.clone()));
         let x_term = pool.add(Term::from(x.clone()));
         let t = substitution
-            .get(&x_term)
+            .get(&original)
             .ok_or_else(|| SubproofError::BindingIsNotInContext(x.0.clone()))?;
 
         // To check that `t` is of the correct form, we construct the expected term and compare
@@ -556,7 +579,7 @@ fn generic_skolemization_rule(
             if i < bindings.len() - 1 {
                 inner = pool.add(Term::Binder(
                     rule_type,
-                    BindingList(bindings.0[i + 1..].to_vec()),
+                    BindingList(outer_bindings.0[i + 1..].to_vec()),
                     inner,
                 ));
             }
-- 
2.43.0


From 583cf4aadc169d15bc8d05b4c28d86c5c2bee293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:33 +0000
Subject: [PATCH 43/71] fix: any rule can end a subproof whose context assigns
 variables

---
 carcara/src/checker/error.rs  |  3 +++
 carcara/src/checker/shared.rs | 22 ++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/carcara/src/checker/error.rs b/carcara/src/checker/error.rs
index fd4482e..e2239b0 100644
--- a/carcara/src/checker/error.rs
+++ b/carcara/src/checker/error.rs
@@ -399,6 +399,9 @@ pub enum SubproofError {
     #[error("variable '{0}', that is assigned a value in the subproof's context, can't be used here")]
     AssignedVarIsUsed(String),
 
+    #[error("rule can't end a subproof whose context assigns a value to '{0}'")]
+    RuleCantEndSubproof(String),
+
     #[error("right and left quantifiers have different number of bindings: {0} and {1}")]
     BindDifferentNumberOfBindings(usize, usize),
 
diff --git a/carcara/src/checker/shared.rs b/carcara/src/checker/shared.rs
index 0cfc64d..17e90ac 100644
--- a/carcara/src/checker/shared.rs
+++ b/carcara/src/checker/shared.rs
@@ -126,6 +126,20 @@ pub fn check_step_core<CR: CollectResults + Send + Default>(
         *context.is_holey = true;
     }
 
+    // The variables that are assigned in the context of a subproof have no value outside of it, so
+    // only the rules that take this into account can end the subproof
+    if context.is_end_step && !can_end_subproof(&step.rule) {
+        let guard = rule_args.context.last();
+        let anchor = guard.as_ref().and_then(|c| c.as_ref());
+        let assigned = anchor.and_then(|c| c.args.iter().find_map(AnchorArg::as_assign));
+        if let Some((var, _)) = assigned {
+            use crate::checker::error::{CheckerError, SubproofError};
+            return Err(CheckerError::Subproof(SubproofError::RuleCantEndSubproof(
+                var.clone(),
+            )));
+        }
+    }
+
     // Execute the rule with the provided arguments
     rule(rule_args)?;
 
@@ -144,6 +158,14 @@ pub fn check_step_core<CR: CollectResults + Send + Default>(
     Ok(())
 }
 
+/// Returns `true` if the rule can end a subproof whose context assigns values to variables.
+fn can_end_subproof(rule: &str) -> bool {
+    matches!(
+        rule,
+        "subproof" | "bind" | "let" | "onepoint" | "sko_ex" | "sko_forall" | "hole" | "lia_generic"
+    )
+}
+
 /// Shared discharge checking logic
 pub fn check_discharge_shared(
     subproof: &[ProofCommand],
-- 
2.43.0


From ded461e186fb5662d6e64d9bb439622907c2a706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 44/71] fix: bind_let does not require its variables to be in
 the context

---
 carcara/src/checker/rules/extras.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/extras.rs b/carcara/src/checker/rules/extras.rs
index 3fa759e..c07617b 100644
--- a/carcara/src/checker/rules/extras.rs
+++ b/carcara/src/checker/rules/extras.rs
@@ -6,7 +6,10 @@ use super::{
 };
 use crate::{
     ast::*,
-    checker::{error::CongruenceError, rules::assert_operation_len},
+    checker::{
+        error::{CongruenceError, SubproofError},
+        rules::assert_operation_len,
+    },
     utils::{MultiSet, MultiSetDifference},
 };
 
@@ -114,6 +117,8 @@ pub fn bind_let(
     RuleArgs {
         conclusion,
         premises,
+        pool,
+        context,
         previous_command,
         ..
     }: RuleArgs,
@@ -152,6 +157,21 @@ pub fn bind_let(
         }
     }
 
+    // The previous command must hold for all values of the variables bound by the `let` terms, so
+    // these must have been introduced in the context of the subproof
+    let context = context.last().unwrap();
+    let args = &context.as_ref().unwrap().args;
+    let free_vars = [pool.free_vars(left), pool.free_vars(right)];
+    for (name, value) in l_bindings.iter().chain(r_bindings) {
+        let var: SortedVar = (name.clone(), pool.sort(value));
+        let term = pool.add(var.clone().into());
+        if free_vars.iter().any(|vars| vars.contains(&term))
+            && !args.iter().any(|arg| arg.as_variable() == Some(&var))
+        {
+            return Err(SubproofError::BindingIsNotInContext(name.clone()).into());
+        }
+    }
+
     assert_eq(left, phi)?;
     assert_eq(right, phi_prime)
 }
-- 
2.43.0


From 89bf212c41a68c29838fe7f2aba66c74fe258893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 45/71] fix: parallel checker ignored an empty clause that ends
 an outermost subproof

---
 carcara/src/checker/parallel/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/parallel/mod.rs b/carcara/src/checker/parallel/mod.rs
index 1a8325d..b9d45ef 100644
--- a/carcara/src/checker/parallel/mod.rs
+++ b/carcara/src/checker/parallel/mod.rs
@@ -290,7 +290,10 @@ impl<'c> ParallelProofChecker<'c> {
                             }
                         })?;
 
-                    if step.clause.is_empty() && self.context.is_empty() {
+                    // The step that ends a subproof is not inside of it, even though its context is
+                    // only popped before the next command
+                    let depth = iter.depth() - usize::from(iter.is_end_step());
+                    if step.clause.is_empty() && depth == 0 {
                         self.reached_empty_clause = true;
                     }
                 }
-- 
2.43.0


From 9f3b413d6f35bbdafd3b7bfbe93c7c7e98a45515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:40 +0000
Subject: [PATCH 46/71] fix: scheduler panicked on a worker whose only commands
 were useless context insertions

---
 carcara/src/checker/parallel/scheduler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/parallel/scheduler.rs b/carcara/src/checker/parallel/scheduler.rs
index 16a0cd5..0d807c5 100644
--- a/carcara/src/checker/parallel/scheduler.rs
+++ b/carcara/src/checker/parallel/scheduler.rs
@@ -121,7 +121,11 @@ impl Scheduler {
                 top.id == top.cmds.len()
             } {
                 for schedule_id in &stack.last().unwrap().used_by {
-                    let last = loads[*schedule_id].last().unwrap();
+                    // If the only commands of this schedule were useless context insertions, there
+                    // is nothing left in it to close
+                    let Some(last) = loads[*schedule_id].last() else {
+                        continue;
+                    };
                     // If it's an useless context insertion
                     if last.0 < stack.len()
                         && matches!(stack[last.0].cmds[last.1], ProofCommand::Subproof(_))
-- 
2.43.0


From d9583733a8d1cf39cad31562c3ed2578108e2189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 47/71] fix: threads of the parallel checker allocate equal
 terms and sorts more than once

---
 carcara/src/ast/pool/advanced.rs | 44 ++++++++++----------------------
 carcara/src/ast/pool/mod.rs      | 43 ++++++++++++++++++++++++++++---
 2 files changed, 52 insertions(+), 35 deletions(-)

diff --git a/carcara/src/ast/pool/advanced.rs b/carcara/src/ast/pool/advanced.rs
index 086b12b..834944b 100644
--- a/carcara/src/ast/pool/advanced.rs
+++ b/carcara/src/ast/pool/advanced.rs
@@ -16,16 +16,13 @@ impl Default for ContextPool {
 
 impl ContextPool {
     pub fn new() -> Self {
-        Self {
-            global_pool: Arc::new(PrimitivePool::new()),
-            inner: Arc::new(RwLock::new(PrimitivePool::new())),
-        }
+        Self::from_global(&Arc::new(PrimitivePool::new()))
     }
 
     pub fn from_global(global_pool: &Arc<PrimitivePool>) -> Self {
         Self {
             global_pool: global_pool.clone(),
-            inner: Arc::new(RwLock::new(PrimitivePool::new())),
+            inner: Arc::new(RwLock::new(PrimitivePool::with_base(global_pool.clone()))),
         }
     }
 
@@ -40,22 +37,22 @@ impl ContextPool {
 impl TermPool for ContextPool {
     fn add(&mut self, term: Term) -> Rc<Term> {
         // If the global pool has the term
-        if let Some(entry) = self.global_pool.storage.get(&term) {
+        if let Some(entry) = self.global_pool.get_sorted(&term) {
             return entry.clone();
         }
-        let mut ctx_guard = self.inner.write().unwrap();
-        let term = ctx_guard.storage.add(term);
-        ctx_guard.compute_sort(&term);
-        term
+        if let Some(entry) = self.inner.read().unwrap().get_sorted(&term) {
+            return entry.clone();
+        }
+        self.inner.write().unwrap().add(term)
     }
 
     fn sort(&self, term: &Rc<Term>) -> Rc<Term> {
-        if let Some(sort) = self.global_pool.sorts_cache.get(term) {
+        if let Some(sort) = self.global_pool.get_sort(term) {
             sort.clone()
         }
         // A sort inserted by context
         else {
-            self.inner.read().unwrap().sorts_cache[term].clone()
+            self.inner.read().unwrap().sort(term)
         }
     }
 
@@ -100,28 +97,13 @@ impl LocalPool {
 
 impl TermPool for LocalPool {
     fn add(&mut self, term: Term) -> Rc<Term> {
-        // If there is a constant pool and has the term
-        if let Some(entry) = self.ctx_pool.global_pool.storage.get(&term) {
-            entry.clone()
-        }
-        // If this term was inserted by the context
-        else if let Some(entry) = self.ctx_pool.inner.read().unwrap().storage.get(&term) {
-            entry.clone()
-        } else {
-            self.inner.add(term)
-        }
+        // The terms are compared by reference, and the ones that a thread creates can reach the
+        // others through the context, so all threads must allocate them in the same pool
+        self.ctx_pool.add(term)
     }
 
     fn sort(&self, term: &Rc<Term>) -> Rc<Term> {
-        if let Some(sort) = self.ctx_pool.global_pool.sorts_cache.get(term) {
-            sort.clone()
-        }
-        // A sort inserted by context
-        else if let Some(entry) = self.ctx_pool.inner.read().unwrap().storage.get(term) {
-            entry.clone()
-        } else {
-            self.inner.sorts_cache[term].clone()
-        }
+        self.ctx_pool.sort(term)
     }
 
     fn free_vars(&mut self, term: &Rc<Term>) -> IndexSet<Rc<Term>> {
diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index b3dcd42..1fe90bf 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -6,6 +6,7 @@ mod storage;
 use super::{Binder, Operator, Rc, Sort, Substitution, Term};
 use crate::ast::{Constant, ParamOperator};
 use indexmap::{IndexMap, IndexSet};
+use std::sync::Arc;
 use storage::Storage;
 
 pub trait TermPool {
@@ -60,6 +61,8 @@ pub struct PrimitivePool {
     pub(crate) storage: Storage,
     pub(crate) free_vars_cache: IndexMap<Rc<Term>, IndexSet<Rc<Term>>>,
     pub(crate) sorts_cache: IndexMap<Rc<Term>, Rc<Term>>,
+    /// A pool whose terms and sorts are reused by this one.
+    base: Option<Arc<PrimitivePool>>,
 }
 
 impl PrimitivePool {
@@ -69,9 +72,33 @@ impl PrimitivePool {
         Self::default()
     }
 
+    /// Constructs a new pool that only allocates the terms that are not already in `base`.
+    pub(crate) fn with_base(base: Arc<PrimitivePool>) -> Self {
+        Self { base: Some(base), ..Self::default() }
+    }
+
+    /// Returns the allocation of the given term, if it is in this pool or in its base.
+    fn get(&self, term: &Term) -> Option<&Rc<Term>> {
+        let base = self.base.as_ref();
+        base.and_then(|b| b.get(term))
+            .or_else(|| self.storage.get(term))
+    }
+
+    /// Returns the sort of a term, if it was already computed by this pool or by its base.
+    fn get_sort(&self, term: &Rc<Term>) -> Option<&Rc<Term>> {
+        let base = self.base.as_ref();
+        base.and_then(|b| b.get_sort(term))
+            .or_else(|| self.sorts_cache.get(term))
+    }
+
+    /// Returns the allocation of the given term, if its sort was also already computed.
+    fn get_sorted(&self, term: &Term) -> Option<&Rc<Term>> {
+        self.get(term).filter(|term| self.get_sort(term).is_some())
+    }
+
     /// Computes the sort of a term and adds it to the sort cache.
     fn compute_sort(&mut self, term: &Rc<Term>) -> Rc<Term> {
-        if let Some(sort) = self.sorts_cache.get(term) {
+        if let Some(sort) = self.get_sort(term) {
             return sort.clone();
         }
 
@@ -350,7 +377,11 @@ impl PrimitivePool {
                 sort
             }
         };
-        let sort = self.storage.add(Term::Sort(result));
+        let sort = Term::Sort(result);
+        let sort = match self.get(&sort) {
+            Some(sort) => sort.clone(),
+            None => self.storage.add(sort),
+        };
         self.sorts_cache.insert(term.clone(), sort);
         self.sorts_cache[term].clone()
     }
@@ -455,13 +486,17 @@ impl PrimitivePool {
 
 impl TermPool for PrimitivePool {
     fn add(&mut self, term: Term) -> Rc<Term> {
-        let term = self.storage.add(term);
+        let known = self.base.as_ref().and_then(|base| base.get(&term));
+        let term = match known {
+            Some(known) => known.clone(),
+            None => self.storage.add(term),
+        };
         self.compute_sort(&term);
         term
     }
 
     fn sort(&self, term: &Rc<Term>) -> Rc<Term> {
-        self.sorts_cache[term].clone()
+        self.get_sort(term).unwrap().clone()
     }
 
     fn free_vars(&mut self, term: &Rc<Term>) -> IndexSet<Rc<Term>> {
-- 
2.43.0


From a014bc6711246ad5424b29a5a54b848559dd45d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:09 +0000
Subject: [PATCH 48/71] fix: only different constants make two strings
 incompatible

The overlap used by the concat_cprop rules treated two different variables, or a variable and a
constant, as a mismatch, so it skipped shifts at which the strings may well match.
---
 carcara/src/checker/rules/strings.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 1bc6fbb..ac73a5e 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -58,12 +58,16 @@ fn concat_extract(term: Rc<Term>) -> Vec<Rc<Term>> {
     flattened
 }
 
+/// Returns `false` only if no values of `s` and `t` (both in flat form) have a common prefix. Nothing
+/// is known about the value, or the length, of a component that is not a String constant.
 fn is_compatible(s: Vec<Rc<Term>>, t: Vec<Rc<Term>>) -> bool {
     match (&s[..], &t[..]) {
         (_, []) => true,
         ([], _) => true,
         ([h1, t1 @ ..], [h2, t2 @ ..]) => {
-            if h1 == h2 {
+            if !h1.is_const() || !h2.is_const() {
+                true
+            } else if h1 == h2 {
                 is_compatible(t1.to_vec(), t2.to_vec())
             } else {
                 false
-- 
2.43.0


From 1ff1c30c68af67e3a863902fcf18c6a10eb276bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:09 +0000
Subject: [PATCH 49/71] fix: reject concat_cprop_prefix when the string is
 empty instead of panicking

---
 carcara/src/checker/rules/strings.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index ac73a5e..e3ff6ba 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -1056,6 +1056,9 @@ pub fn concat_cprop_prefix(RuleArgs { premises, conclusion, pool, .. }: RuleArgs
     };
 
     let sc = string_concat_flatten(pool, ss[0].clone());
+    if sc.is_empty() {
+        return Err(CheckerError::ExpectedToNotBeEmpty(ss[0].clone()));
+    }
     let sc_tail = sc[1..].to_vec();
 
     let t_2_flat = string_concat_flatten(pool, args_t[1].clone());
-- 
2.43.0


From 6979d4a6d444ce7d66eaec77ac7f058d1f2c3cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:09 +0000
Subject: [PATCH 50/71] fix: use the last string of the concatenation in
 concat_cprop_suffix

The rule used the second argument, which may be missing (panic) or not be the last one, and sliced
an empty list when that string was empty.
---
 carcara/src/checker/rules/strings.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index e3ff6ba..169ff3e 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -1104,7 +1104,11 @@ pub fn concat_cprop_suffix(RuleArgs { premises, conclusion, pool, .. }: RuleArgs
         _ => return Err(CheckerError::TermOfWrongForm("(str.++ s1 s2)", s.clone())),
     };
 
-    let mut sc = string_concat_flatten(pool, ss[1].clone());
+    let s_2 = ss.last().unwrap();
+    let mut sc = string_concat_flatten(pool, s_2.clone());
+    if sc.is_empty() {
+        return Err(CheckerError::ExpectedToNotBeEmpty(s_2.clone()));
+    }
     sc.reverse();
     let sc_tail = &sc[1..];
 
@@ -1113,7 +1117,7 @@ pub fn concat_cprop_suffix(RuleArgs { premises, conclusion, pool, .. }: RuleArgs
 
     let v = 1 + overlap(sc_tail.to_vec(), t_2_flat.clone());
     let v = pool.add(Term::new_int(v));
-    let oc = build_str_suffix_len(pool, ss[1].clone(), v);
+    let oc = build_str_suffix_len(pool, s_2.clone(), v);
 
     let rhs = build_term!(pool, (- (strlen {t_2.clone()}) (strlen {oc.clone()})));
     let r = build_skolem_prefix(pool, t_2.clone(), rhs.clone());
-- 
2.43.0


From 573725396a064fd27362a66370ad672c5123bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:09 +0000
Subject: [PATCH 51/71] fix: reject string_decompose when the length may be
 negative

The decomposition only exists if the length is not negative.
---
 carcara/src/checker/rules/strings.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 169ff3e..75fdbc2 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -1147,6 +1147,12 @@ pub fn string_decompose(
     let rev = args[0].as_bool_err()?;
     let (t, n) = match_term_err!((>= (strlen t) n) = term)?;
 
+    // The decomposition only exists if `n` is not negative
+    let is_length = match_term!((strlen x) = n).is_some();
+    if !is_length && n.as_integer().map_or(true, |n| n < 0) {
+        return Err(CheckerError::ExpectedNonnegInteger(n.clone()));
+    }
+
     match_term_err!(
         (and
             (= t x)
-- 
2.43.0


From 8566994c411d9488560245266395fb71471bb72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:09 +0000
Subject: [PATCH 52/71] fix: do not print debugging output when checking
 re_concat_unfold_pos

---
 carcara/src/checker/rules/strings.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 75fdbc2..1a56cb7 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -1340,9 +1340,6 @@ pub fn re_concat_unfold_pos(RuleArgs { premises, conclusion, pool, .. }: RuleArg
         _ => Err(CheckerError::TermOfWrongForm("(re.++ ...)", r.clone())),
     }?;
 
-    println!("concluded: {}", &conclusion[0]);
-    println!("epxanded: {}", &expanded);
-
     assert_eq(&conclusion[0], &expanded)
 }
 
-- 
2.43.0


From 8f7341511e27a9224c68e83a6ad0fa5ca7a6fcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:09 +0000
Subject: [PATCH 53/71] fix: reject re_unfold_neg if the new variable would
 capture a free one

---
 carcara/src/checker/rules/strings.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 1a56cb7..2a03037 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -1352,6 +1352,11 @@ pub fn re_unfold_neg(RuleArgs { premises, conclusion, pool, .. }: RuleArgs) -> R
 
     let int_sort = pool.add(Term::Sort(Sort::Int));
     let l = pool.add(Term::new_var("L", int_sort.clone()));
+    if pool.free_vars(t).contains(&l) || pool.free_vars(r).contains(&l) {
+        return Err(CheckerError::Explanation(format!(
+            "variable 'L' of term '{term}' would be captured"
+        )));
+    }
     let pref = build_skolem_prefix(pool, t.clone(), l.clone());
     let suff = build_skolem_suffix_rem(pool, t.clone(), l.clone());
 
-- 
2.43.0


From 959312a59f86e82e2c5680151e71f76cb14e91db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:09 +0000
Subject: [PATCH 54/71] fix: keep everything a sliced proof needs

The slice dropped the discharged assumptions and other premises of the last step of an enclosing
subproof, and the assumptions that do not come first. A subproof with only one command made it
underflow, as did the largest distance, and the search was exponential.
---
 carcara/src/slice.rs | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/carcara/src/slice.rs b/carcara/src/slice.rs
index 31f46bf..ba1d28b 100644
--- a/carcara/src/slice.rs
+++ b/carcara/src/slice.rs
@@ -45,8 +45,9 @@ fn get_step_to_premises(
         premises.append(&mut discharge);
 
         if iter.is_end_step() {
-            let previous = iter.current_subproof().unwrap().iter().nth_back(1).unwrap();
-            premises.push((previous.id().to_owned(), PremiseType::SubproofEnd));
+            if let Some(previous) = iter.current_subproof().unwrap().iter().nth_back(1) {
+                premises.push((previous.id().to_owned(), PremiseType::SubproofEnd));
+            }
             num_open_subproofs -= 1;
         }
         map.insert(step.id.clone(), premises);
@@ -71,12 +72,15 @@ fn get_transitive_premises(
     // Output
     let mut id_to_keep_premises: HashMap<String, bool> = HashMap::new();
 
-    queue.push_back((step_id, max_distance + 1)); // Different use of distance than in interface. Here it is the number of steps to include after this one
+    queue.push_back((step_id, max_distance.saturating_add(1))); // Different use of distance than in interface. Here it is the number of steps to include after this one
     while let Some((step_id, d)) = queue.pop_front() {
+        // The first time that we reach a step is along a shortest path, so if it is already in the map,
+        // there is nothing that this path can add.
+        if id_to_keep_premises.contains_key(&step_id) {
+            continue;
+        }
         let last = d == 0;
-        // We should always default to needing premises if there's a conflict between what's already in the map and what would be added.
-        let keep_premises = !last || *id_to_keep_premises.get(&step_id).unwrap_or(&false);
-        id_to_keep_premises.insert(step_id.clone(), keep_premises);
+        id_to_keep_premises.insert(step_id.clone(), !last);
         if !last {
             for (premise, _) in step_to_premises.get(&step_id).unwrap_or(&Vec::new()) {
                 queue.push_back((premise.to_owned(), d - 1));
@@ -154,14 +158,13 @@ fn get_slice_body(
                         break;
                     }
                 }
-                // Get second to last step
-                let penult = &sp.commands[sp.commands.len() - 2];
-                if !to_keep.contains_key(penult.id()) {
-                    to_keep.insert(penult.id().to_owned(), false);
-                }
-
                 // Get last step
                 let ult = &sp.commands[sp.commands.len() - 1];
+
+                // Get everything the last step refers to, including the second to last step
+                for (premise, _) in id_to_premise_ids.get(ult.id()).unwrap_or(&Vec::new()) {
+                    to_keep.entry(premise.to_owned()).or_insert(false);
+                }
                 to_keep.insert(ult.id().to_owned(), true); // We always need the "premises" of the last step of a subproof
             }
         }
@@ -206,8 +209,10 @@ fn get_slice_body(
                         let current_subproof = copy_iter
                             .current_subproof()
                             .expect("is_in_subproof is true, but current_subproof() is None");
-                        let penult = &current_subproof[current_subproof.len() - 2];
-                        proof_step.id == penult.id()
+                        current_subproof
+                            .iter()
+                            .nth_back(1)
+                            .is_some_and(|penult| proof_step.id == penult.id())
                     };
 
                     let step = if need_premises {
@@ -344,9 +349,8 @@ pub fn slice(
     let mut asserts = Vec::new();
 
     for command in &new_proof.commands {
-        match command {
-            ProofCommand::Assume { term, .. } => asserts.push(term.clone()),
-            _ => break,
+        if let ProofCommand::Assume { term, .. } = command {
+            asserts.push(term.clone());
         }
     }
 
-- 
2.43.0


From 9830e01d0b75b16f7ad08004a0be64a7e74a4dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:12 +0000
Subject: [PATCH 55/71] fix: report a fraction without denominator as a lexer
 error

---
 carcara/src/parser/lexer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/carcara/src/parser/lexer.rs b/carcara/src/parser/lexer.rs
index 0323dc9..d0099a4 100644
--- a/carcara/src/parser/lexer.rs
+++ b/carcara/src/parser/lexer.rs
@@ -384,6 +384,11 @@ impl<R: BufRead> Lexer<R> {
                 return Err(Error::Parser(e, self.position));
             }
             let r = match delimiter {
+                '/' if second_part.is_empty() => {
+                    // A fraction must have a denominator
+                    let e = ParserError::UnexpectedChar(delimiter);
+                    return Err(Error::Parser(e, self.position));
+                }
                 '/' => {
                     let [numer, denom] =
                         [first_part, second_part].map(|s| s.parse::<Integer>().unwrap());
-- 
2.43.0


From 6707ff4f8d74133ca3033ad5e1c34290fa9935bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 56/71] fix: elaborate subproofs whose last command is an
 assumption or a subproof

---
 carcara/src/elaborator/subproof.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carcara/src/elaborator/subproof.rs b/carcara/src/elaborator/subproof.rs
index 6610d20..2019446 100644
--- a/carcara/src/elaborator/subproof.rs
+++ b/carcara/src/elaborator/subproof.rs
@@ -8,9 +8,9 @@ pub fn subproof(
 ) -> Result<Rc<ProofNode>, CheckerError> {
     let unchanged = || Ok(Rc::new(ProofNode::Step(step.clone())));
 
-    let previous_step = &step.previous_step.as_ref().unwrap().as_step().unwrap();
+    let previous_step = step.previous_step.as_ref().unwrap();
 
-    let [previous] = previous_step.clause.as_slice() else {
+    let [previous] = previous_step.clause() else {
         return unchanged();
     };
     let last_term = step.clause.last().unwrap();
-- 
2.43.0


From 798a1b7c4de0a61f45f4b32fdf202d33cd53351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 57/71] fix: keep repeated literals when a reordered
 contraction is recomputed

---
 carcara/src/elaborator/reordering.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/carcara/src/elaborator/reordering.rs b/carcara/src/elaborator/reordering.rs
index 6267e7f..7585121 100644
--- a/carcara/src/elaborator/reordering.rs
+++ b/carcara/src/elaborator/reordering.rs
@@ -1,5 +1,5 @@
 use super::*;
-use crate::utils::DedupIterator;
+use crate::utils::MultiSet;
 
 pub fn remove_reorderings(proof: ProofNodeForest) -> ProofNodeForest {
     proof.mutate(|_, node, premises_changed| {
@@ -47,7 +47,16 @@ fn recompute_weakening(step: &StepNode) -> Vec<Rc<Term>> {
 }
 
 fn recompute_contraction(step: &StepNode) -> Vec<Rc<Term>> {
-    let new: Vec<_> = step.premises[0].clause().iter().dedup().cloned().collect();
+    // A contraction doesn't necessarily remove all duplicates, so we must keep as many copies of each
+    // term as there are in the original conclusion
+    let mut remaining: MultiSet<_> = step.clause.iter().collect();
+    let mut new = Vec::with_capacity(step.clause.len());
+    for term in step.premises[0].clause() {
+        if remaining.get(&term) > 0 {
+            remaining.remove(&term);
+            new.push(term.clone());
+        }
+    }
     assert_eq!(step.clause.len(), new.len());
     new
 }
-- 
2.43.0


From dee981794399d6874c844170c0ee1fd0af13a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 58/71] fix: resolve nothing when a single premise is left
 while uncrowding

---
 carcara/src/elaborator/uncrowding.rs | 30 ++++++++++++++++++----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/carcara/src/elaborator/uncrowding.rs b/carcara/src/elaborator/uncrowding.rs
index 4bf64f5..be96ba5 100644
--- a/carcara/src/elaborator/uncrowding.rs
+++ b/carcara/src/elaborator/uncrowding.rs
@@ -147,7 +147,12 @@ fn add_partial_resolution_step<'a>(
     premises: &[ResolutionPremise<'a>],
     final_target: &[Rc<Term>],
 ) -> (Rc<ProofNode>, Vec<Literal<'a>>) {
-    let conclusion = apply_naive_resolution(premises);
+    // If there is only one premise, there is nothing to resolve, but its clause may still need to be
+    // contracted
+    let conclusion = match premises {
+        [single] => single.clause.clone(),
+        _ => apply_naive_resolution(premises),
+    };
     let contracted_conclusion: Vec<_> = conclusion.iter().dedup().copied().collect();
 
     let needs_contraction = contracted_conclusion.len() != conclusion.len();
@@ -160,16 +165,19 @@ fn add_partial_resolution_step<'a>(
         })
         .collect();
 
-    let resolution_step = Rc::new(ProofNode::Step(StepNode {
-        id: ids.next_id(),
-        depth,
-        clause: literals_to_clause(pool, &conclusion),
-        rule: "resolution".to_owned(),
-        premises: premises.iter().map(|p| p.node.clone()).collect(),
-        args,
-        discharge: Vec::new(),
-        previous_step: None,
-    }));
+    let resolution_step = match premises {
+        [single] => single.node.clone(),
+        _ => Rc::new(ProofNode::Step(StepNode {
+            id: ids.next_id(),
+            depth,
+            clause: literals_to_clause(pool, &conclusion),
+            rule: "resolution".to_owned(),
+            premises: premises.iter().map(|p| p.node.clone()).collect(),
+            args,
+            discharge: Vec::new(),
+            previous_step: None,
+        })),
+    };
 
     if resolution_step.clause() == final_target {
         return (resolution_step, conclusion);
-- 
2.43.0


From 534230fdac80c62ff938b7e6a0a6ade496f5d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 59/71] fix: derive eq_transitive with fewer than two
 equalities by other rules

---
 carcara/src/elaborator/transitivity.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/carcara/src/elaborator/transitivity.rs b/carcara/src/elaborator/transitivity.rs
index 8f9579b..f0f2f60 100644
--- a/carcara/src/elaborator/transitivity.rs
+++ b/carcara/src/elaborator/transitivity.rs
@@ -1,4 +1,4 @@
-use super::{add_symm_step, IdHelper};
+use super::{add_refl_step, add_symm_step, IdHelper};
 use crate::{ast::*, checker::error::CheckerError};
 
 /// Similar to `find_chain`, but reorders a premises vector to match the found chain. In `trans`,
@@ -137,12 +137,27 @@ pub fn eq_transitive(
 
     let mut ids = IdHelper::new(&step.id);
 
+    // An `eq_transitive` step needs at least two inequalities. If fewer than that are needed to prove
+    // the conclusion, we derive it with other rules:
+    // - if none is needed, the conclusion is `(= t t)`, which is derived with `refl`;
+    // - if only one is needed, the clause is `(cl (not (= t u)) (= t u))`, which is derived by
+    //   applying `equiv1` to `(= (= t u) (= t u))`.
+    let (rule, premises) = match num_needed {
+        0 => ("refl", Vec::new()),
+        1 => {
+            let term = new_clause[1].clone();
+            let refl_step =
+                add_refl_step(pool, term.clone(), term, ids.next_id(), step.depth);
+            ("equiv1", vec![refl_step])
+        }
+        _ => ("eq_transitive", Vec::new()),
+    };
     let new_eq_transitive_step = Rc::new(ProofNode::Step(StepNode {
         id: ids.next_id(),
         depth: step.depth,
         clause: new_clause,
-        rule: "eq_transitive".to_owned(),
-        premises: Vec::new(),
+        rule: rule.to_owned(),
+        premises,
         args: Vec::new(),
         discharge: Vec::new(),
         previous_step: None,
-- 
2.43.0


From c9b858b68fcab6a54bc28fe4dc8b55d6baf2112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 60/71] fix: repeated conclusions in the not-not case of
 resolution

---
 carcara/src/elaborator/resolution.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/carcara/src/elaborator/resolution.rs b/carcara/src/elaborator/resolution.rs
index bccf76f..a95364f 100644
--- a/carcara/src/elaborator/resolution.rs
+++ b/carcara/src/elaborator/resolution.rs
@@ -96,8 +96,9 @@ pub fn resolution(
         //     :args (c true (not (not (not (not c)))) true))
         // ```
 
-        assert!(resolution_step.clause.len() == 1);
+        // The conclusion may repeat this term
         let original_conclusion = resolution_step.clause;
+        assert!(original_conclusion.iter().all(|t| *t == original_conclusion[0]));
         let double_not_c = original_conclusion[0].clone();
         let single_not_c = double_not_c.remove_negation().unwrap().clone();
         let c = single_not_c.remove_negation().unwrap().clone();
@@ -134,7 +135,7 @@ pub fn resolution(
         Ok(Rc::new(ProofNode::Step(StepNode {
             id: ids.next_id(),
             depth: step.depth,
-            clause: vec![double_not_c],
+            clause: original_conclusion,
             rule: "resolution".to_owned(),
             premises: vec![resolution_step, first_not_not_step, second_not_not_step],
             args,
-- 
2.43.0


From 0786f88227e53674d6ed3f82060a1e66713c2a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 61/71] fix: elaborate n-ary polyequalities of every arity, and
 accept nary_elim for the operators they need

---
 carcara/src/checker/rules/clausification.rs |  21 ++-
 carcara/src/elaborator/polyeq.rs            | 178 ++++++++++----------
 2 files changed, 110 insertions(+), 89 deletions(-)

diff --git a/carcara/src/checker/rules/clausification.rs b/carcara/src/checker/rules/clausification.rs
index b2ecf2d..f34f11d 100644
--- a/carcara/src/checker/rules/clausification.rs
+++ b/carcara/src/checker/rules/clausification.rs
@@ -244,8 +244,25 @@ pub fn nary_elim(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     };
 
     let case = match op {
-        Operator::Equals => Case::Chainable,
-        Operator::Add | Operator::Sub | Operator::Mult => Case::LeftAssoc,
+        Operator::Equals
+        | Operator::LessThan
+        | Operator::GreaterThan
+        | Operator::LessEq
+        | Operator::GreaterEq => Case::Chainable,
+        Operator::Xor
+        | Operator::Add
+        | Operator::Sub
+        | Operator::Mult
+        | Operator::IntDiv
+        | Operator::RealDiv
+        | Operator::StrConcat
+        | Operator::ReConcat
+        | Operator::ReUnion
+        | Operator::ReIntersection
+        | Operator::BvAnd
+        | Operator::BvOr
+        | Operator::BvAdd
+        | Operator::BvMul => Case::LeftAssoc,
         Operator::Implies => Case::RightAssoc,
         _ => return Err(CheckerError::NotValidNaryTerm(original.clone())),
     };
diff --git a/carcara/src/elaborator/polyeq.rs b/carcara/src/elaborator/polyeq.rs
index f4885d9..d30eccc 100644
--- a/carcara/src/elaborator/polyeq.rs
+++ b/carcara/src/elaborator/polyeq.rs
@@ -20,6 +20,7 @@ impl<'a> PolyeqElaborator<'a> {
             cache: HashMapStack::new(),
             checker: Polyeq::new()
                 .mod_reordering(true)
+                .mod_nary(true)
                 .alpha_equiv(is_alpha_equivalence),
             context: is_alpha_equivalence.then(ContextStack::new),
         }
@@ -72,19 +73,8 @@ impl<'a> PolyeqElaborator<'a> {
                 self.build_cong(pool, (&a, &b), (a_args, b_args))
             }
             (Term::Op(a_op, a_args), Term::Op(b_op, b_args)) => {
-                if a_op != b_op {
-                    todo!("elaborate chainable nary")
-                } else if a_args.len() != b_args.len() {
-                    let (nary, binary) = if a_args.len() == 2 {
-                        assert!(b_args.len() > 2);
-                        (b_args, &a)
-                    } else if b_args.len() == 2 {
-                        assert!(a_args.len() > 2);
-                        (a_args, &b)
-                    } else {
-                        panic!("invalid associative nary case")
-                    };
-                    self.elaborate_assoc(pool, *a_op, nary, binary)
+                if a_op != b_op || a_args.len() != b_args.len() {
+                    self.elaborate_nary(pool, &a, &b)
                 } else {
                     self.build_cong(pool, (&a, &b), (a_args, b_args))
                 }
@@ -383,94 +373,108 @@ impl<'a> PolyeqElaborator<'a> {
         }
     }
 
-    fn elaborate_assoc(
+    /// Elaborates a polyequality between two applications of different operators, or with different
+    /// numbers of arguments, which are equal modulo the expansion of n-ary operators. We expand the
+    /// applications that have more than two arguments, and prove that the results are equal.
+    fn elaborate_nary(
         &mut self,
         pool: &mut PrimitivePool,
-        op: Operator,
-        nary: &[Rc<Term>],
-        binary: &Rc<Term>,
+        a: &Rc<Term>,
+        b: &Rc<Term>,
     ) -> Rc<ProofNode> {
-        assert!(matches!(
-            op.nary_case(),
-            Some(NaryCase::RightAssoc | NaryCase::LeftAssoc)
-        ));
-        let mut premises = Vec::new();
-        let mut normalized_args = self.get_assoc_premises(pool, &mut premises, op, nary, binary);
-
-        if premises.is_empty() {
-            let nary = pool.add(Term::Op(op, nary.to_vec()));
-            return Rc::new(ProofNode::Step(StepNode {
-                id: self.ids.next_id(),
-                depth: self.depth(),
-                clause: vec![build_term!(pool, (= {nary} {binary.clone()}))],
-                rule: "nary_elim".to_owned(),
-                ..Default::default()
-            }));
-        }
+        let [(a_op, a_args), (b_op, b_args)] = [a, b].map(|t| t.as_op().unwrap());
+
+        // If only one of the operators is chainable, the other must be a conjunction, and only the
+        // chainable application is expanded
+        let [a_step, b_step] = if a_op == b_op {
+            [self.expand_nary(pool, a_op, a_args), self.expand_nary(pool, b_op, b_args)]
+        } else if a_op.nary_case() == Some(NaryCase::Chainable) {
+            [self.expand_chainable(pool, a_op, a_args), None]
+        } else {
+            [None, self.expand_chainable(pool, b_op, b_args)]
+        };
+        assert!(a_step.is_some() || b_step.is_some(), "invalid n-ary case");
 
-        if op.nary_case() == Some(NaryCase::RightAssoc) {
-            normalized_args.reverse();
-        }
+        let expanded = |step: &Option<Rc<ProofNode>>, t: &Rc<Term>| match step {
+            Some(step) => match_term!((= x y) = step.clause()[0]).unwrap().1.clone(),
+            None => t.clone(),
+        };
+        let (new_a, new_b) = (expanded(&a_step, a), expanded(&b_step, b));
 
-        let nary = pool.add(Term::Op(op, nary.to_vec()));
-        let normalized = pool.add(Term::Op(op, normalized_args));
-        let cong_step = Rc::new(ProofNode::Step(StepNode {
-            id: self.ids.next_id(),
-            depth: self.depth(),
-            clause: vec![build_term!(pool, (= {nary.clone()} {normalized.clone()}))],
-            rule: "cong".to_owned(),
-            premises,
-            ..Default::default()
-        }));
-        let nary_elim_step = Rc::new(ProofNode::Step(StepNode {
-            id: self.ids.next_id(),
-            depth: self.depth(),
-            clause: vec![build_term!(pool, (= {normalized.clone()} {binary.clone()}))],
-            rule: "nary_elim".to_owned(),
-            ..Default::default()
-        }));
+        let mut steps: Vec<_> = a_step.into_iter().collect();
+        if new_a != new_b {
+            steps.push(self.elaborate(pool, new_a, new_b));
+        }
+        if let Some(b_step) = b_step {
+            steps.push(add_symm_step(pool, &b_step, self.ids.next_id()));
+        }
 
-        add_trans_step(pool, [cong_step, nary_elim_step], self.ids.next_id())
+        if let [single] = steps.as_slice() {
+            single.clone()
+        } else {
+            add_trans_step(pool, steps, self.ids.next_id())
+        }
     }
 
-    fn get_assoc_premises(
+    /// Expands an application of an associative operator that has more than two arguments
+    fn expand_nary(
         &mut self,
         pool: &mut PrimitivePool,
-        premises: &mut Vec<Rc<ProofNode>>,
         op: Operator,
-        nary: &[Rc<Term>],
-        binary: &Rc<Term>,
-    ) -> Vec<Rc<Term>> {
-        let is_right = op.nary_case() == Some(NaryCase::RightAssoc);
-        let (nary_head, nary_tail) = match nary {
-            [] => panic!("invalid associative nary case"),
-            [single] => {
-                if single != binary {
-                    premises.push(self.elaborate(pool, single.clone(), binary.clone()));
-                }
-                return vec![binary.clone()];
-            }
-            [first, rest @ ..] if is_right => (first, rest),
-            [rest @ .., last] => (last, rest),
-        };
-
-        let (binary_head, binary_tail) = match binary.as_op() {
-            Some((inner_op, [l, r])) if inner_op == op => {
-                if is_right {
-                    (l, r)
-                } else {
-                    (r, l)
-                }
+        args: &[Rc<Term>],
+    ) -> Option<Rc<ProofNode>> {
+        if args.len() <= 2 {
+            return None;
+        }
+        let expanded = match op.nary_case() {
+            Some(NaryCase::LeftAssoc) => args[1..].iter().fold(args[0].clone(), |acc, t| {
+                pool.add(Term::Op(op, vec![acc, t.clone()]))
+            }),
+            Some(NaryCase::RightAssoc) => {
+                let (last, rest) = args.split_last().unwrap();
+                rest.iter().rev().fold(last.clone(), |acc, t| {
+                    pool.add(Term::Op(op, vec![t.clone(), acc]))
+                })
             }
-            _ => panic!("invalid associative nary case"),
+            _ => panic!("invalid associative n-ary case"),
         };
+        Some(self.nary_elim_step(pool, op, args, expanded))
+    }
 
-        if nary_head != binary_head {
-            premises.push(self.elaborate(pool, nary_head.clone(), binary_head.clone()));
-        }
+    /// Expands an application of a chainable operator into a conjunction
+    fn expand_chainable(
+        &mut self,
+        pool: &mut PrimitivePool,
+        op: Operator,
+        args: &[Rc<Term>],
+    ) -> Option<Rc<ProofNode>> {
+        let chain = args
+            .windows(2)
+            .map(|window| pool.add(Term::Op(op, window.to_vec())))
+            .collect();
+        let expanded = pool.add(Term::Op(Operator::And, chain));
+        Some(self.nary_elim_step(pool, op, args, expanded))
+    }
 
-        let mut args = self.get_assoc_premises(pool, premises, op, nary_tail, binary_tail);
-        args.push(binary_head.clone());
-        args
+    fn nary_elim_step(
+        &mut self,
+        pool: &mut PrimitivePool,
+        op: Operator,
+        args: &[Rc<Term>],
+        expanded: Rc<Term>,
+    ) -> Rc<ProofNode> {
+        let nary = pool.add(Term::Op(op, args.to_vec()));
+        // The `nary_elim` rule doesn't apply to conjunctions and disjunctions
+        let rule = match op {
+            Operator::And | Operator::Or => "aci_simp",
+            _ => "nary_elim",
+        };
+        Rc::new(ProofNode::Step(StepNode {
+            id: self.ids.next_id(),
+            depth: self.depth(),
+            clause: vec![build_term!(pool, (= {nary} {expanded}))],
+            rule: rule.to_owned(),
+            ..Default::default()
+        }))
     }
 }
-- 
2.43.0


From e654cfb9ee2cb805822476adf4fbc4cdeba1830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:29 +0000
Subject: [PATCH 62/71] fix: quote printed symbols that start with '-' and a
 digit

---
 carcara/src/ast/printer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index ba79f0d..d29a697 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -444,11 +444,15 @@ fn quote_symbol(symbol: &str) -> Cow<'_, str> {
     // Any symbol that:
     // - is an empty string,
     // - starts with a digit,
+    // - starts with '-' followed by a digit, which would be read as a number,
     // - is a reserved word, or
     // - contains non-symbol characters
     // must be quoted
     if symbol.is_empty()
-        || symbol.chars().next().unwrap().is_ascii_digit()
+        || symbol
+            .strip_prefix('-')
+            .unwrap_or(symbol)
+            .starts_with(|c: char| c.is_ascii_digit())
         || Reserved::from_str(symbol).is_ok()
         || symbol.chars().any(|c| !is_symbol_character(c))
     {
-- 
2.43.0


From f9b4d0d2373b0912340d463b33f3d29a01fa34a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:31 +0000
Subject: [PATCH 63/71] fix: quote the first discharged premise of a printed
 step

---
 carcara/src/ast/printer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index d29a697..965e102 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -401,7 +401,7 @@ impl<'a> AlethePrinter<'a> {
 
         if let [head, tail @ ..] = step.discharge.as_slice() {
             let id = iter.get_premise(*head).id();
-            write!(self.inner, " :discharge ({}", id)?;
+            write!(self.inner, " :discharge ({}", quote_symbol(id))?;
             for discharge in tail {
                 let id = iter.get_premise(*discharge).id();
                 write!(self.inner, " {}", quote_symbol(id))?;
-- 
2.43.0


From 1c34b8d8a7691c0ddb7ad8da0268abbb4e735f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:33 +0000
Subject: [PATCH 64/71] fix: quote printed rule names

---
 carcara/src/ast/printer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 965e102..bc9a165 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -10,6 +10,7 @@ use std::{
     borrow::Cow,
     collections::{HashMap, HashSet},
     fmt, io,
+    str::FromStr,
     sync::atomic::{AtomicBool, Ordering},
 };
 
@@ -377,7 +378,12 @@ impl<'a> AlethePrinter<'a> {
         }
         write!(self.inner, ")")?;
 
-        write!(self.inner, " :rule {}", step.rule)?;
+        // Unlike other symbols, the name of a rule can be a reserved word
+        if crate::parser::Reserved::from_str(&step.rule).is_ok() {
+            write!(self.inner, " :rule {}", step.rule)?;
+        } else {
+            write!(self.inner, " :rule {}", quote_symbol(&step.rule))?;
+        }
 
         if let [head, tail @ ..] = step.premises.as_slice() {
             let id = iter.get_premise(*head).id();
@@ -437,7 +443,6 @@ where
 
 fn quote_symbol(symbol: &str) -> Cow<'_, str> {
     use crate::parser::Reserved;
-    use std::str::FromStr;
 
     assert!(symbol.chars().all(|c| c != '|'));
 
-- 
2.43.0


From 728e424556f469938f0c1d34103979c75729ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:35 +0000
Subject: [PATCH 65/71] fix: escape printed backslashes that would be read as
 escape sequences

---
 carcara/src/ast/printer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index bc9a165..97c9ab6 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -468,8 +468,10 @@ fn quote_symbol(symbol: &str) -> Cow<'_, str> {
 }
 
 fn escape_string(string: &str) -> Cow<'_, str> {
-    if string.contains('"') {
-        Cow::Owned(string.replace('"', "\"\""))
+    // Besides duplicating quotes, we escape any backslash that could be read as the start of an escape
+    // sequence
+    if string.contains('"') || string.contains("\\u") {
+        Cow::Owned(string.replace("\\u", "\\u{5c}u").replace('"', "\"\""))
     } else {
         Cow::Borrowed(string)
     }
-- 
2.43.0


From 023cbd046e1d371feed71db5a77aa92fd9421299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:36 +0000
Subject: [PATCH 66/71] fix: print constant arrays with 'as const'

---
 carcara/src/ast/printer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 97c9ab6..3033743 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -355,6 +355,15 @@ impl<'a> AlethePrinter<'a> {
                 term.print_with_sharing(self)?;
                 write!(self.inner, ")")
             }
+            Term::ParamOp {
+                op: ParamOperator::ArrayConst,
+                op_args,
+                args,
+            } => {
+                write!(self.inner, "((as const")?;
+                self.write_s_expr_tail(op_args)?;
+                self.write_s_expr_tail(args)
+            }
             Term::ParamOp { op, op_args, args } => {
                 if !args.is_empty() {
                     write!(self.inner, "(")?;
-- 
2.43.0


From b8bb28de26ae85a94987f0b8c71ffd7bf03665b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:38 +0000
Subject: [PATCH 67/71] fix: print empty clauses as terms with parentheses

---
 carcara/src/ast/printer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 3033743..e6df0df 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -334,7 +334,8 @@ impl<'a> AlethePrinter<'a> {
             Term::Var(name, _) => write!(self.inner, "{}", quote_symbol(name)),
             Term::App(func, args) => self.write_s_expr(func, args),
             Term::Op(op, args) => {
-                if args.is_empty() {
+                // An empty clause still needs the parentheses, as `cl` is a reserved word
+                if args.is_empty() && *op != Operator::Cl {
                     write!(self.inner, "{}", op)
                 } else {
                     self.write_s_expr(op, args)
-- 
2.43.0


From e7711d21e37ba3c7bb8681c9e7f4a42146e1af31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:40 +0000
Subject: [PATCH 68/71] fix: check the number of arguments of '@d' before their
 sorts

---
 carcara/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 6c01a0a..e04f333 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -474,8 +474,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
             }
             Operator::Cl => {}
             Operator::Delete => {
-                SortError::assert_eq(&Sort::Bool, sorts[0])?;
                 assert_num_args(&args, 1)?;
+                SortError::assert_eq(&Sort::Bool, sorts[0])?;
             }
             Operator::BvAdd
             | Operator::BvMul
-- 
2.43.0


From 6f3a6be9e2de8560ebd8767fe87e19056ae90e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:42 +0000
Subject: [PATCH 69/71] fix: do not let a command with an empty id end the root
 proof

---
 carcara/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index e04f333..fc92421 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -927,9 +927,10 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 ));
             }
 
+            let is_inside_subproof = stack.len() > 1;
             let (top_subproof, top_end_step, _) = stack.last_mut().unwrap();
             top_subproof.commands.push(command);
-            if top_end_step == id.as_ref() {
+            if is_inside_subproof && top_end_step == id.as_ref() {
                 // If this is the last step in a subproof, we need to pop all the subproof data off
                 // of the stacks and build the subproof command with it
                 self.state.symbol_table.pop_scope();
-- 
2.43.0


From 0555b56ed873b7c9d38d49826aa3520735db80a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:29 +0000
Subject: [PATCH 70/71] fix: declare the functions that a problem defines when
 printing it

---
 carcara/src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index fc92421..7d3260f 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -773,6 +773,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                         let sort = self.pool.sort(&lambda_term);
                         let var = (name, sort);
                         self.insert_sorted_var(var.clone());
+                        self.prelude().function_declarations.push(var.clone());
                         let var_term = self.pool.add(var.into());
                         let assertion_term = self
                             .pool
@@ -1264,7 +1265,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 Sort::Function(param_sorts)
             };
             let sort = self.pool.add(Term::Sort(sort));
-            self.insert_sorted_var((name.clone(), sort));
+            self.insert_sorted_var((name.clone(), sort.clone()));
+            self.prelude().function_declarations.push((name.clone(), sort));
         }
 
         if is_multiple {
-- 
2.43.0


From 26cae7dd250eeb4ff05358b60f6f662c5e98a221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:31 +0000
Subject: [PATCH 71/71] fix: choose names for shared terms that no declared
 function has

---
 carcara/src/ast/printer.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index e6df0df..310f062 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -54,7 +54,7 @@ pub fn write_lia_smt_instance(
     let mut printer = AlethePrinter::new(pool, prelude, use_sharing, dest);
     // We have to override the default prefix "@p_" because symbols starting with "@" are reserved
     // in SMT-LIB.
-    printer.term_sharing_variable_prefix = "p_";
+    printer.term_sharing_variable_prefix = smt_lib_prefix(prelude);
     // Since we are printing an SMT-LIB problem, we have to be
     // compliant. For Carcara, this means that arithmetic constants
     // cannot use the GMP notation
@@ -72,7 +72,7 @@ pub fn write_asserts(
     let mut printer = AlethePrinter::new(pool, prelude, use_sharing, dest);
     // We have to override the default prefix "@p_" because symbols starting with "@" are reserved
     // in SMT-LIB.
-    printer.term_sharing_variable_prefix = "p_";
+    printer.term_sharing_variable_prefix = smt_lib_prefix(prelude);
     // Since we are printing an SMT-LIB problem, we have to be
     // compliant. For Carcara, this means that arithmetic constants
     // cannot use the GMP notation
@@ -86,6 +86,20 @@ pub fn write_asserts(
     Ok(())
 }
 
+/// Finds a prefix for the names of shared terms that can be used in an SMT-LIB problem, such that no
+/// name can clash with a function declared by the problem.
+fn smt_lib_prefix(prelude: &ProblemPrelude) -> String {
+    let mut prefix = "p_".to_owned();
+    while prelude
+        .function_declarations
+        .iter()
+        .any(|(name, _)| name.starts_with(&prefix))
+    {
+        prefix.push('_');
+    }
+    prefix
+}
+
 trait PrintProof {
     fn write_proof(&mut self, proof: &Proof) -> io::Result<()>;
 }
@@ -181,7 +195,7 @@ struct AlethePrinter<'a> {
     pool: &'a mut PrimitivePool,
     inner: &'a mut dyn io::Write,
     term_indices: Option<IndexMap<Rc<Term>, usize>>,
-    term_sharing_variable_prefix: &'static str,
+    term_sharing_variable_prefix: String,
     global_vars: HashSet<Rc<Term>>,
     defined_constants: HashMap<Rc<Term>, String>,
     smt_lib_strict: bool,
@@ -271,7 +285,7 @@ impl<'a> AlethePrinter<'a> {
             pool,
             inner: dest,
             term_indices: use_sharing.then(IndexMap::new),
-            term_sharing_variable_prefix: "@p_",
+            term_sharing_variable_prefix: "@p_".to_owned(),
             global_vars: global_variables,
             defined_constants: HashMap::new(),
             smt_lib_strict: false,
@@ -499,7 +513,7 @@ impl fmt::Display for Term {
             pool: &mut pool,
             inner: &mut buf,
             term_indices: use_sharing.then(IndexMap::new),
-            term_sharing_variable_prefix: "@p_",
+            term_sharing_variable_prefix: "@p_".to_owned(),
             global_vars: HashSet::new(),
             defined_constants: HashMap::new(),
             smt_lib_strict: false,
-- 
2.43.0

