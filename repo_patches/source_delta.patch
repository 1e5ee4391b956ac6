From 7be4e7dd3f999171ae72697d2476462088c1a16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 01/29] fix: sums and constraints whose variables cancel out

x - x (and 0 * x) was canonicalized to x, so e.g. (>= (- x x) 1) was reported
satisfiable with x = 1. Drop the cancelled variable, keep an empty sum a
well-sorted 0, and let the statistics pass accept the constant constraints
that result (they panicked or were rejected before).
---
 amzn-smt-eager-arithmetic/src/canonicalize.rs |  6 +++++-
 amzn-smt-eager-arithmetic/src/stats.rs        | 12 +++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index d6486f0..edc646b 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -111,6 +111,8 @@ impl<'a> Canonicalizer<'a> {
             use std::cmp::Ordering::*;
             res.extend(
                 map.into_iter()
+                    // the occurrences of a variable that cancel out contribute nothing to the sum
+                    .filter(|(_, (pos, neg))| pos != neg)
                     .map(|(HashOrdered(v), (pos, neg))| match pos.cmp(&neg) {
                         Less => {
                             let x = neg - pos;
@@ -129,7 +131,7 @@ impl<'a> Canonicalizer<'a> {
                                 Mul([Constant::Numeral(x).into(), v.into()].into()).into()
                             }
                         }
-                        Equal => v.into(),
+                        Equal => unreachable!("cancelled variables are filtered out"),
                     }),
             );
             res
@@ -172,6 +174,8 @@ impl<'a> Canonicalizer<'a> {
         match c_pos.cmp(&c_neg) {
             Less => args.push(Self::negate(Constant::Numeral(c_neg - c_pos).into())),
             Greater => args.push(Constant::Numeral(c_pos - c_neg).into()),
+            // a sum whose summands all cancelled out is still an integer term: 0
+            Equal if args.is_empty() => args.push(Constant::Numeral(Numeral::zero()).into()),
             Equal => (),
         }
         Plus(args).into()
diff --git a/amzn-smt-eager-arithmetic/src/stats.rs b/amzn-smt-eager-arithmetic/src/stats.rs
index 47152eb..3c9303f 100644
--- a/amzn-smt-eager-arithmetic/src/stats.rs
+++ b/amzn-smt-eager-arithmetic/src/stats.rs
@@ -311,11 +311,12 @@ impl<'a> StatsVisitor<'a> {
             [l, r] => {
                 self.expecting = Expecting::Sum;
                 try_break!(l.visit_with(self));
-                debug_assert!(
-                    self.current_partition.is_some(),
-                    "constraints contain at least one variable: {}",
-                    t
-                );
+                if self.current_partition.is_none() {
+                    // A constraint without variables (e.g. `(>= 5 3)` or `(= x x)`) is a constant:
+                    // it belongs to no partition and constrains no solution.
+                    self.expecting = Expecting::Formula;
+                    return ControlFlow::CONTINUE;
+                }
                 try_break!(self.with_stats(|stats| stats.constraints.insert(t)));
                 self.expecting = Expecting::Rhs;
                 try_break!(r.visit_with(self));
@@ -408,6 +409,7 @@ impl Visitor<ALL> for StatsVisitor<'_> {
                 self.visit_constraint(op.into(), args)
             }
             (Expecting::Formula, BitVec(..)) => ControlFlow::CONTINUE,
+            (Expecting::Sum, Arith(Plus(args))) if args.is_empty() => ControlFlow::CONTINUE,
             (Expecting::Sum, Arith(Plus(args))) => {
                 self.expecting = Expecting::Summand;
                 try_break!(args.visit_with(self));
-- 
2.43.0


From a20d0d794b4f8ede54fe9656449e5d411e57dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 02/29] fix: constraints with a summand on the right-hand side
 are not all separation constraints

Normalization moves a summand to the right-hand side when the constant is
zero, e.g. x - 5y = 0 becomes (= (+ x) (* 5 y)). Only the left-hand side was
inspected to classify constraints and to measure their width, so k and w, and
with them the solution size bound, were too small: satisfiable formulas were
reported unsatisfiable.
---
 amzn-smt-eager-arithmetic/src/stats.rs | 53 +++++++++++++++++---------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/stats.rs b/amzn-smt-eager-arithmetic/src/stats.rs
index 3c9303f..8b3fddc 100644
--- a/amzn-smt-eager-arithmetic/src/stats.rs
+++ b/amzn-smt-eager-arithmetic/src/stats.rs
@@ -1,7 +1,7 @@
 //! Validation of quantifier-free ALL arithmetic SMT formulas.
 // Copyright Amazon.com, Inc. or its affiliates. All Rights Reserved.
 // SPDX-License-Identifier: Apache-2.0
-use super::Constant;
+use super::{int_term, Constant};
 use anyhow::anyhow;
 use aws_smt_ir::{
     logic::{
@@ -88,28 +88,34 @@ impl Stats {
                 },
                 _ => bad(),
             };
-            let lhs = match args.first() {
-                Some(Term::OtherOp(op)) => match op.as_ref() {
-                    Arith(Plus(args)) => args.as_slice(),
-                    _ => bad(),
+            let (lhs, rhs) = match args.as_slice() {
+                [Term::OtherOp(op), rhs] => match op.as_ref() {
+                    Arith(Plus(args)) => (args, rhs),
+                    _ => (bad(), rhs),
                 },
-                _ => bad(),
+                _ => (bad(), t),
+            };
+            let is_const = |t: &Term| int_term(t).is_some();
+            let is_var = |t: &Term| matches!(t, Term::Variable(_));
+            let is_neg_var = |t: &Term| {
+                matches!(t, Term::OtherOp(op) if matches!(op.as_ref(), Arith(Neg(Term::Variable(_)))))
             };
-            // Check if this is the LHS of a separation constraint (SC)
-            match lhs {
-                // x >= c (SC)
-                [Term::Variable(_)] => {}
-                // -x >= c === x <= -c (SC)
-                [Term::OtherOp(op)]
+            // Check if this is a separation constraint (SC). Normalization may have moved one of
+            // the summands to the RHS, in which case that summand counts as well.
+            let separation = match lhs.as_slice() {
+                // x >= c (SC) or x >= y (SC)
+                [x] if is_var(x) => is_const(rhs) || is_var(rhs),
+                // -x >= c === x <= -c (SC) or -x >= -y === y >= x (SC)
+                [x] if is_neg_var(x) => is_const(rhs) || is_neg_var(rhs),
                 // x - y >= c (SC)
-                | [Term::Variable(_), Term::OtherOp(op)]
+                [x, y] if is_var(x) && is_neg_var(y) => is_const(rhs),
                 // y - x >= c (SC)
-                | [Term::OtherOp(op), Term::Variable(_)]
-                    if matches!(op.as_ref(), Arith(Neg(Term::Variable(_)))) => {}
+                [x, y] if is_neg_var(x) && is_var(y) => is_const(rhs),
                 // Not a separation constraint
-                _ => {
-                    k += 1;
-                }
+                _ => false,
+            };
+            if !separation {
+                k += 1;
             }
         }
         match NonZeroU32::new(k) {
@@ -320,6 +326,17 @@ impl<'a> StatsVisitor<'a> {
                 try_break!(self.with_stats(|stats| stats.constraints.insert(t)));
                 self.expecting = Expecting::Rhs;
                 try_break!(r.visit_with(self));
+                if int_term(r).is_none() {
+                    // Normalization moved a summand to the RHS: it counts towards the width
+                    let lhs_width = match l {
+                        Term::OtherOp(op) => match op.as_ref() {
+                            Op::Arith(ArithOp::Plus(args)) => args.len(),
+                            _ => 1,
+                        },
+                        _ => 1,
+                    };
+                    try_break!(self.with_stats(|stats| stats.w = stats.w.max(lhs_width + 1)));
+                }
                 self.expecting = Expecting::Formula;
                 self.current_partition = None;
                 ControlFlow::CONTINUE
-- 
2.43.0


From 4707cb58d9f36a37037adff0a4e01fe772ae84ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 03/29] fix: decode integers of 64 bits and more

The value of an integer variable was summed up in an isize, which overflowed
for solutions that need 64 bits or more (e.g. (>= x 73786976294838206465)).
---
 amzn-smt-eager-arithmetic/src/encoding.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 5e819d3..16ed0e3 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -21,7 +21,7 @@ use aws_smt_ir::{
 };
 use either::Either;
 use itertools::Itertools;
-use num_traits::{ToPrimitive, Zero};
+use num_traits::{One, ToPrimitive, Zero};
 use std::{collections::HashMap, num::NonZeroU64};
 
 #[derive(Clone, Copy, Default, Debug, Hash, PartialEq, Eq)]
@@ -569,22 +569,22 @@ impl Encoder {
                 Variable::Int(v) => {
                     let bits = self.int_var_bits(v);
                     let len = bits.len();
-                    let val = bits
+                    // The most-significant bit of a 2's complement integer has negative weight
+                    let (pos, neg) = bits
                         .enumerate()
                         .filter(|(_, bit)| bit.evaluate(assignment).unwrap())
-                        .map(|(bit, _)| {
-                            let x = 2isize.pow(bit as u32);
+                        .fold((Numeral::zero(), Numeral::zero()), |(pos, neg), (bit, _)| {
+                            let x = Numeral::one() << bit;
                             if bit == len - 1 {
-                                -x
+                                (pos, neg + x)
                             } else {
-                                x
+                                (pos + x, neg)
                             }
-                        })
-                        .sum::<isize>();
-                    let abs = Constant::Numeral(Numeral::from(val.unsigned_abs())).into();
-                    let val = if val >= 0 {
-                        abs
+                        });
+                    let val = if pos >= neg {
+                        Constant::Numeral(pos - neg).into()
                     } else {
+                        let abs = Constant::Numeral(neg - pos).into();
                         Op::Arith(ArithOp::Neg(abs)).into()
                     };
                     (symbol, val)
-- 
2.43.0


From 580ed96ec52e50e9efe86fd46c6e235ad3cbe364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 04/29] fix: bit order of binary literals

The parser and printer write binary literals most-significant bit first, but
constant_bits() and decode() treated them as least-significant bit first, so
#b literals in bvule and bit-vector values in models were reversed. Only
(_ bvX n) literals, which are generated least-significant bit first, were
compared correctly.
---
 amzn-smt-eager-arithmetic/src/encoding.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 16ed0e3..c8b1d36 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -69,7 +69,13 @@ impl InterLogicFolder<ALL> for Encoder {
 
     fn fold_var(&mut self, var: IVar<QualIdentifier>) -> Result<Term<Self::U>, Self::Error> {
         if let Some(bv) = var.to_bitvec_literal() {
-            Ok(bv.into())
+            match bv {
+                // `to_bitvec_literal()` produces the least-significant bit first
+                Constant::Binary(bits) => {
+                    Ok(Constant::Binary(bits.into_iter().rev().collect()).into())
+                }
+                c => Ok(c.into()),
+            }
         } else {
             Ok(Term::from(IVar::from(self.var(&var)?)))
         }
@@ -245,7 +251,8 @@ impl Encoder {
     > {
         match c {
             Constant::Numeral(n) => Ok(Either::Left(Self::int_const_bits(n.clone()))),
-            Constant::Binary(bits) => Ok(Either::Right(bits.iter().copied().map_into())),
+            // Binary literals are written most-significant bit first
+            Constant::Binary(bits) => Ok(Either::Right(bits.iter().rev().copied().map_into())),
             Constant::Hexadecimal(_) => {
                 todo!("hexadecimal bit iterator")
             }
@@ -591,8 +598,10 @@ impl Encoder {
                 }
                 Variable::Bool(v) => (symbol, assignment[&v].into()),
                 Variable::Bv(bv) => {
+                    // Binary literals are written most-significant bit first
                     let bits = self
                         .bit_vec_bits(&bv)
+                        .rev()
                         .map(|bit| bit.evaluate(assignment).unwrap());
                     (bv.sym().clone(), Constant::Binary(bits.collect()).into())
                 }
-- 
2.43.0


From 1cdb26097bba4fe34551866c07b74dd5a43d9036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:34 +0000
Subject: [PATCH 05/29] fix: n-ary xor under negation

aws-smt-ir's CNF transformation encodes (not (xor a b c)) as (xor a b c), so
models violated such assertions and satisfiable formulas were reported
unsatisfiable. Pass on binary applications of xor only.
---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index edc646b..16dc30b 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -276,6 +276,11 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                     CoreOp::Distinct(args).into()
                 }
             }
+            // The CNF transformation misencodes negated applications of `xor` to an odd number of
+            // arguments (n > 2), so only binary applications are passed on.
+            CoreOp::Xor(args) if args.len() > 2 => (args.into_iter())
+                .reduce(|l, r| l ^ r)
+                .expect("at least three arguments"),
             op => op.into(),
         })
     }
-- 
2.43.0


From 737c2bc9046e014cab281499474faa1eb167f3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:48 +0000
Subject: [PATCH 06/29] fix: panic on scripts that only set options

modernize_string_fcts() looked for the first command that is not a set-option
without checking that there is one.
---
 amzn-smt-string-fct-updater/src/transpiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 6e1fe22..0e0c232 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -234,7 +234,7 @@ pub fn modernize_string_fcts(commands: impl Iterator<Item = Command>) -> Vec<Com
             "QF_S"
         };
         let mut i = 0;
-        while let Command::SetOption { .. } = v[i] {
+        while let Some(Command::SetOption { .. }) = v.get(i) {
             i += 1;
         }
         v.insert(
-- 
2.43.0


From e7401ffaf97cff75b35c6817358eaa3d1d1535b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 07/29] fix: arithmetic was never seen when guessing the logic

Arithmetic applications are parsed as theory operations, not as uninterpreted
functions, so has_arith stayed false and QF_S was guessed for every script.
---
 amzn-smt-string-fct-updater/src/transpiler.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 0e0c232..aef4908 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -8,7 +8,7 @@ use aws_smt_ir::fold::IntraLogicFolder;
 use aws_smt_ir::fold::SuperFold;
 use aws_smt_ir::smt2parser::concrete::*;
 use aws_smt_ir::{fold::Fold, logic::*, Command as IRCommand, ParseError, Script, Term as IRTerm};
-use aws_smt_ir::{IConst, ISymbol, IVar, Index, IUF};
+use aws_smt_ir::{IConst, IOp, ISymbol, IVar, Index, IUF};
 
 use std::convert::Infallible;
 use std::convert::TryInto;
@@ -200,14 +200,22 @@ impl IntraLogicFolder<ALL> for ModernizeStringsBuilder {
 
                 StringOp::ReLoop(indices, t.args[0].clone()).into()
             }
-            "+" | "-" | ">" | "<" | ">=" | "<=" | "*" => {
-                self.has_arith = true;
-                t.into()
-            }
             _ => t.into(),
         })
     }
 
+    /// note whether the script uses arithmetic (to guess its logic)
+    fn fold_theory_op(&mut self, op: IOp<ALL>) -> Result<Term, Self::Error> {
+        use ArithOp::*;
+        if let all::Op::Arith(
+            Plus(..) | Neg(..) | Minus(..) | Mul(..) | Gte(..) | Gt(..) | Lte(..) | Lt(..),
+        ) = op.as_ref()
+        {
+            self.has_arith = true;
+        }
+        op.super_fold_with(self).map(Into::into)
+    }
+
     fn fold_set_logic(&mut self, logic: ISymbol) -> Result<Command, Self::Error> {
         self.logic = Some(logic.0.clone());
         Ok(Command::SetLogic { symbol: logic })
-- 
2.43.0


From 7201230ccf0effb03e53376f9bc989ccf26f298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:19 +0000
Subject: [PATCH 08/29] fix: z3 escape right after an incomplete \x escape

In \x\n or \x4\n, the backslash that ends the incomplete escape starts
another one, which was left unconverted.
---
 amzn-smt-string-fct-updater/src/transpiler.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index aef4908..79aebaf 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -109,7 +109,12 @@ fn convert_z3escapes(s: &str) -> String {
                 } else {
                     new_string.push('x');
                     new_string.push(c);
-                    state = State::Base;
+                    // a backslash starts another escape sequence
+                    state = if c == '\\' {
+                        State::Esc
+                    } else {
+                        State::Base
+                    };
                 }
             }
 
@@ -119,12 +124,18 @@ fn convert_z3escapes(s: &str) -> String {
                     new_string.push(x);
                     new_string.push(c);
                     new_string.push('}');
+                    state = State::Base;
                 } else {
                     new_string.push('x');
                     new_string.push(x);
                     new_string.push(c);
+                    // a backslash starts another escape sequence
+                    state = if c == '\\' {
+                        State::Esc
+                    } else {
+                        State::Base
+                    };
                 };
-                state = State::Base;
             }
         }
     }
-- 
2.43.0


From ff02c667ac7dcf832688d9d3cf6e730cf8d608e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:45 +0000
Subject: [PATCH 09/29] fix: arguments of a string function keep their own
 function and literals

add_direct_siblings overwrote the data of every argument with a NO_OP node holding
only the sibling literals, so a nested string function lost its requirements
(ranges, exact ints) and its literals (a panic when they were replaced).
---
 amzn-smt-string-transformer/src/callgraph.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/amzn-smt-string-transformer/src/callgraph.rs b/amzn-smt-string-transformer/src/callgraph.rs
index dcef018..949bfdf 100644
--- a/amzn-smt-string-transformer/src/callgraph.rs
+++ b/amzn-smt-string-transformer/src/callgraph.rs
@@ -252,18 +252,26 @@ impl CallGraph {
         }
         // update siblings with the new sibling nodes, and new sibling strings
         for sib_id in &sib_ids {
+            let cur_data = self.get_data_for_ind(sib_id)?;
+            // only constraint vars take on the literals: a string function keeps its own
+            // function and literals (it gets to the sibling literals through its parent)
+            let data = if !sib_strings.is_empty() && cur_data.string_fct == StringFct::NO_OP {
+                // adding to the string_lits_built_from
+                let mut new_data = cur_data.clone();
+                new_data
+                    .string_lits_built_from
+                    .extend(sib_strings.iter().cloned());
+                Some(new_data)
+            } else {
+                None
+            };
             self.forest.update_node_at_index(
                 *sib_id,
                 NodeModStruct::<NodeId, CallnodeData> {
                     parent: None,
                     child: None,
                     siblings: Some(sib_ids.clone()),
-                    data: if !sib_strings.is_empty() {
-                        // adding to the string_lits_built_from
-                        Some(CallnodeData::new(StringFct::NO_OP, sib_strings.clone()))
-                    } else {
-                        None
-                    },
+                    data,
                 },
             )?;
         }
-- 
2.43.0


From 52e1d821694bba81f7651fe5d3a3d3e0343dccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 10/29] fix: assertions about a string function are not its
 definition

When the original query shape was restored, an assertion of the query that equates a
string function with a term was taken for the definition of the variable introduced
for the function: the assertion was dropped (or the definition became recursive).
---
 amzn-smt-string-transformer/src/subformula_parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/subformula_parser.rs b/amzn-smt-string-transformer/src/subformula_parser.rs
index 5df5c1d..c47f16f 100644
--- a/amzn-smt-string-transformer/src/subformula_parser.rs
+++ b/amzn-smt-string-transformer/src/subformula_parser.rs
@@ -75,7 +75,11 @@ impl IntraLogicFolder<ALL> for StringSubformulaCountBuilder {
                         if let [Term::Variable(v), f @ (Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..))] =
                             args.as_slice()
                         {
-                            if v.sym_str().starts_with("new_var") {
+                            // the first assertion is the definition; any later one comes from
+                            // the query itself and has to stay
+                            if v.sym_str().starts_with("new_var")
+                                && !self.string_fct_calls.contains_key(v.sym())
+                            {
                                 self.string_fct_calls.insert(v.sym().clone(), f.clone());
                                 useless_command = true;
                             }
-- 
2.43.0


From d66a6c5ff67f7588f9aae44b6dc06fba685f4fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 11/29] fix: char mapping of overlapping ranges

Ranges that share characters were mapped one by one, each moving the endpoints of the
others, so the mapped ranges could be inverted or lose the digits that had to be kept.
A range could also start on an illegal char, and only one illegal char was skipped.
---
 amzn-smt-string-transformer/src/transpiler.rs | 72 +++++++++++++++++--
 1 file changed, 67 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index f2c8e2a..7c30475 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -779,10 +779,32 @@ fn initialize_charmap_with_ranges(
         }
     }
 
-    // if we hit an int range and it's already been mapped, no problem
-    // that range will just be skipped
-    for (c1, c2) in ranges {
-        if !char_map.has_range(c1, c2) {
+    // overlapping ranges share characters, so they have to be mapped together.
+    // if the ints are kept, anything overlapping them is kept too
+    let keep_ints = char_map.has_range('0', '9');
+    if keep_ints {
+        ranges.insert(('0', '9'));
+    }
+    let (int_groups, groups): (Vec<_>, Vec<_>) = group_overlapping_ranges(ranges)
+        .into_iter()
+        .partition(|group| keep_ints && group.contains(&('0', '9')));
+    for group in int_groups.iter().filter(|group| group.len() > 1) {
+        for (c1, c2) in group {
+            for c in *c1..=*c2 {
+                char_map.char_map.insert(c, c);
+            }
+            offset = std::cmp::max(offset, (*c2 as u32) + 1);
+            if !char_map.has_range(*c1, *c2) {
+                let cur_range = RangeParams::new(*c1, *c2, (*c1 as u32) + 1);
+                char_map.ranges.push(cur_range);
+            }
+        }
+    }
+
+    for group in groups {
+        // don't start a range on an illegal char
+        offset = skip_illegal_char(char_map, offset);
+        if let [(c1, c2)] = group[..] {
             let orig_offset = offset;
             let cur_range = RangeParams::new(c1, c2, offset + 1);
             char_map
@@ -792,7 +814,6 @@ fn initialize_charmap_with_ranges(
             for illegal_char in &char_map.illegal_chars {
                 if (*illegal_char as u32) <= offset && (*illegal_char as u32) > orig_offset {
                     offset += 1;
-                    break;
                 }
             }
             char_map
@@ -800,11 +821,52 @@ fn initialize_charmap_with_ranges(
                 .insert(c2, char::from_u32(offset).unwrap());
             offset += 1;
             char_map.ranges.push(cur_range);
+        } else {
+            // map every character in these ranges now, keeping their order
+            for (c1, c2) in &group {
+                for c in *c1..=*c2 {
+                    if char_map.char_map.get(&c).is_none() {
+                        offset = skip_illegal_char(char_map, offset);
+                        char_map.char_map.insert(c, char::from_u32(offset).unwrap());
+                        offset += 1;
+                    }
+                }
+                let range_offset = char_map.char_map[c1] as u32 + 1;
+                let cur_range = RangeParams::new(*c1, *c2, range_offset);
+                char_map.ranges.push(cur_range);
+            }
         }
     }
     offset
 }
 
+/// get the given offset, or the next one if it is an illegal char
+fn skip_illegal_char(char_map: &CharMap, offset: u32) -> u32 {
+    if char_map
+        .illegal_chars
+        .contains(&char::from_u32(offset).unwrap())
+    {
+        offset + 1
+    } else {
+        offset
+    }
+}
+
+/// group the ranges, such that ranges in different groups have no character in common
+fn group_overlapping_ranges(ranges: BTreeSet<(char, char)>) -> Vec<Vec<(char, char)>> {
+    let mut groups: Vec<Vec<(char, char)>> = Vec::new();
+    let mut group_end = None;
+    // the ranges are sorted by their first character
+    for (c1, c2) in ranges {
+        match groups.last_mut() {
+            Some(group) if Some(c1) <= group_end => group.push((c1, c2)),
+            _ => groups.push(vec![(c1, c2)]),
+        }
+        group_end = std::cmp::max(group_end, Some(c2));
+    }
+    groups
+}
+
 /// populate the rest of the ranges.
 /// we'll just map the characters in the mapped range to one of the unused range chars
 /// the purpose: so when we remap, everything in the range gets mapped back to the range
-- 
2.43.0


From 0db264ae94ea31ac102ed49351ed5428063fa9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:58 +0000
Subject: [PATCH 12/29] fix: different characters of a model are mapped back to
 different characters

The unused characters of a range were all mapped back to the same character, and
characters the mapping never produces were left unchanged even if they are original
characters of the query, so the reconstructed strings could violate the query.
---
 amzn-smt-string-transformer/src/mapping_tools.rs | 13 +++++++++++++
 amzn-smt-string-transformer/src/transpiler.rs    | 13 ++++---------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/amzn-smt-string-transformer/src/mapping_tools.rs b/amzn-smt-string-transformer/src/mapping_tools.rs
index f5f11e5..8e18ad5 100644
--- a/amzn-smt-string-transformer/src/mapping_tools.rs
+++ b/amzn-smt-string-transformer/src/mapping_tools.rs
@@ -216,6 +216,19 @@ impl Mapping {
         for (c1, c2) in &self.char_map {
             re_map.insert(*c2, *c1);
         }
+        // a model can also contain original characters that nothing is mapped to.
+        // these can't be left unchanged (the query tells them apart from the characters it
+        // doesn't mention), so swap them with mapped characters that are not original ones
+        let forward_map: HashMap<char, char> = self.char_map.iter().cloned().collect();
+        for (c1, _) in &self.char_map {
+            if !re_map.contains_key(c1) {
+                let mut unused_char = *c1;
+                for _ in &self.char_map {
+                    unused_char = *forward_map.get(&unused_char).unwrap_or(&unused_char);
+                }
+                re_map.insert(*c1, unused_char);
+            }
+        }
         re_map
     }
 
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 7c30475..1fc5e56 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -868,8 +868,9 @@ fn group_overlapping_ranges(ranges: BTreeSet<(char, char)>) -> Vec<Vec<(char, ch
 }
 
 /// populate the rest of the ranges.
-/// we'll just map the characters in the mapped range to one of the unused range chars
-/// the purpose: so when we remap, everything in the range gets mapped back to the range
+/// we'll just map the unused characters in the range to the rest of the mapped range
+/// the purpose: so when we remap, everything in the range gets mapped back to the range,
+/// and different characters get mapped back to different characters
 /// (this is really only relevant for char-to-char remapping)
 fn populate_ranges(char_map: &CharMap) -> Vec<(char, char)> {
     let mut char_vec = char_map
@@ -880,8 +881,6 @@ fn populate_ranges(char_map: &CharMap) -> Vec<(char, char)> {
 
     for range in char_map.ranges.iter() {
         let mut offset = range.cur_offset; // start offset
-        let mut placeholder_char = range.start_char;
-        let mut found_char = false;
         for range_char in range.start_char..range.end_char {
             if char_map.char_map.get(&range_char).is_none() {
                 if char_map
@@ -890,11 +889,7 @@ fn populate_ranges(char_map: &CharMap) -> Vec<(char, char)> {
                 {
                     offset += 1;
                 }
-                if !found_char {
-                    placeholder_char = range_char;
-                    found_char = true;
-                }
-                char_vec.push((placeholder_char, char::from_u32(offset).unwrap()));
+                char_vec.push((range_char, char::from_u32(offset).unwrap()));
                 offset += 1;
             }
         }
-- 
2.43.0


From bc8234dc9b1cad0e7908630286aac5e3f1968fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 13/29] fix: digits of a mapped string do not end it

gen_string_keep_ranges dropped everything after the first digit when integers had to
be kept, so for instance "12" was mapped to "1".
---
 amzn-smt-string-transformer/src/string_mappings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 61ac689..84a7203 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -125,11 +125,11 @@ pub fn gen_string_keep_ranges(
         match (keep_ints, c.is_ascii_digit()) {
             (KeepInts::AsInts, true) => {
                 to_ret.push('0');
-                break;
+                continue;
             }
             (KeepInts::ExactInts, true) => {
                 to_ret.push(c);
-                break;
+                continue;
             }
             _ => {}
         }
-- 
2.43.0


From 29121eaa07e154926bef61ef49ac9712b1e3e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:04 +0000
Subject: [PATCH 14/29] fix: give up on a string that can't be mapped instead
 of retrying for ever

The retry counter only counted modifications, so with nothing left to modify the loop
ran until it panicked on an invalid character; strings between two substrings can't
fall back on char-to-char mapping either (they have no properties).
---
 .../src/string_mappings.rs                     | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 84a7203..c890f95 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -116,7 +116,7 @@ pub fn gen_string_keep_ranges(
     len_bool: bool,
     keep_ints: KeepInts,
     consider_substrings: bool,
-) -> String {
+) -> Result<String, StringMapError> {
     let mut to_ret = "".to_string();
     let mut cur_range: Option<&RangeParams> = None;
     // iterate over the string to be mapped, character by character
@@ -181,10 +181,10 @@ pub fn gen_string_keep_ranges(
         consider_substrings,
         len_bool,
     );
-    if let Ok(to_ret) = repeat_fix {
-        to_ret
-    } else {
-        map_string_char_to_char(s, char_map).unwrap()
+    match repeat_fix {
+        // only string literals can be mapped char-to-char (not the gaps between substrings)
+        Err(_) if char_map.string_lit_props.contains_key(s) => map_string_char_to_char(s, char_map),
+        repeat_fix => repeat_fix,
     }
 }
 
@@ -238,6 +238,10 @@ fn fix_repeated_string(
             None => true,
             Some(c) => !c.is_ascii(),
         } {
+            if retry_add > 127 {
+                // there is no ascii character left to try at any index
+                return Err(StringMapError::RemapRetryCountExceeded);
+            }
             retry_ind = 0;
             retry_char = to_ret.chars().nth(retry_ind).unwrap();
             retry_add += 1;
@@ -695,7 +699,7 @@ fn gen_gap_mapped(
     len_bool: bool,
     keep_ints: KeepInts,
 ) -> Result<String, StringMapError> {
-    let gap_mapped = gen_string_keep_ranges(&gap_string, char_map, len_bool, keep_ints, true);
+    let gap_mapped = gen_string_keep_ranges(&gap_string, char_map, len_bool, keep_ints, true)?;
     // last bool is consider_substrings
     let gap_mapped = fix_repeated_string(
         gap_string, gap_mapped, char_map, 100u8, keep_ints, true, len_bool,
@@ -843,7 +847,7 @@ pub fn map_string_no_reconstruct(
                         to_ret = gen_string_freeforall(s, char_map)?;
                     } else if !keep_substrings {
                         // range case! keep ranges (if there's none, that is fine)
-                        to_ret = gen_string_keep_ranges(s, char_map, len_bool, keep_ints, false);
+                        to_ret = gen_string_keep_ranges(s, char_map, len_bool, keep_ints, false)?;
                     } else {
                         // keep substrings should have already been mapped, so now bail and map with char-to-char
                         to_ret = map_string_char_to_char(s, char_map).unwrap();
-- 
2.43.0


From 9c316b0f14b68e2d73996eb421877d156ff65ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 15/29] fix: substrings put together to the wrong length or to
 a string already used

Without reconstruction, two literals could be mapped to the same string, and a literal
whose length matters to a shorter one; fall back on char-to-char mapping instead.
---
 amzn-smt-string-transformer/src/string_mappings.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index c890f95..bfb75e0 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -31,6 +31,9 @@ pub enum StringMapError {
     SuffixPrefixOverlap,
     /// required substrings partially overlap (an edge case we don't handle)
     MidstringPartialOverlap,
+    /// the mapped substrings make up a string of a different length, or one that another
+    /// string is mapped to (an edge case we don't handle)
+    MappedSubstringsConflict,
 }
 
 /// update the given CharMap so the next non-range (i.e. not in any of the tracked ranges) character
@@ -655,6 +658,17 @@ pub fn gen_string_keep_substrings(
 
     to_ret.push_str(&mapped_suffix);
 
+    // the substrings may be mapped without considering the length, and different strings can
+    // be put together from the same mapped pieces
+    if (len_bool && to_ret.chars().count() != s.chars().count())
+        || char_map
+            .string_map
+            .iter()
+            .any(|(key, val)| key != s && val == &to_ret)
+    {
+        return Err(StringMapError::MappedSubstringsConflict);
+    }
+
     // add the mapped string to the string map and the persistent map
     char_map.string_map.insert(s.to_string(), to_ret.clone());
 
-- 
2.43.0


From 26530ad06724aa98cdcfbb8ba337e1177c9b0737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:09 +0000
Subject: [PATCH 16/29] fix: strings mapped to the same character as a range
 endpoint

---
 .../src/string_mappings.rs                    | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index bfb75e0..6813915 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -191,6 +191,16 @@ pub fn gen_string_keep_ranges(
     }
 }
 
+/// check if this is what an endpoint of a range (other than the original string) is mapped to.
+/// endpoints have their mapping from the start, even if they aren't in the string map
+fn is_range_endpoint(orig_string: &str, mapped_string: &str, char_map: &CharMap) -> bool {
+    char_map.ranges.iter().any(|r| {
+        [r.start_char, r.end_char].iter().any(|c| {
+            c.to_string() != orig_string && char_map.char_map[c].to_string() == mapped_string
+        })
+    })
+}
+
 /// check to see if a mapped string is already in the map.
 /// if it is, attempt to fix this (i.e., generate a new string) by perturbing the mapped
 /// string passed in, while respecting the properties specified (keep_ints, substrings, length, ranges).
@@ -211,9 +221,10 @@ fn fix_repeated_string(
     let mut retry_char = to_ret.chars().nth(retry_ind).unwrap(); // character we're perturbing
     let mut reps = 1; // number of repetitions of the current char we're adding in the perturbation
                       // (this stays 1 if the length or substrings properties need to be maintained)
-    while char_map.string_map.iter().any(|(key, val)| {
-        // can't map to a string we already used
-        val == &to_ret
+    while is_range_endpoint(&orig_string, &to_ret, char_map)
+        || char_map.string_map.iter().any(|(key, val)| {
+            // can't map to a string we already used
+            val == &to_ret
             // more checks required if we need to keep substrings
             || (consider_substrings
                 && ((!orig_string.contains(key) && to_ret.contains(val))
@@ -229,7 +240,8 @@ fn fix_repeated_string(
                         keep_prefix_suffix: _,
                     })
                 )))
-    }) {
+        })
+    {
         // get next non-range char in the charmap
         let next_char = char::from_u32(update_and_get_next_char(
             char_map,
@@ -661,6 +673,7 @@ pub fn gen_string_keep_substrings(
     // the substrings may be mapped without considering the length, and different strings can
     // be put together from the same mapped pieces
     if (len_bool && to_ret.chars().count() != s.chars().count())
+        || is_range_endpoint(s, &to_ret, char_map)
         || char_map
             .string_map
             .iter()
-- 
2.43.0


From ae84c08b3d2d303c575aaea28d349e3bdb8e524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 17/29] fix: common prefixes and suffixes of non-ascii strings

---
 amzn-smt-string-transformer/src/transpiler.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 1fc5e56..9f4a915 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -507,8 +507,11 @@ impl CharMap {
         for i in (1..std::cmp::min(s1.len(), s2.len())).rev() {
             // if they're never not equal then the entire string
             // is contained, so already in the map (return None)
-            if s1[0..i] == s2[s2.len() - i..s2.len()] {
-                return Some(&s1[0..i]);
+            // (only compare on char boundaries: the strings may not be ascii)
+            if let (Some(prefix), Some(suffix)) = (s1.get(..i), s2.get(s2.len() - i..)) {
+                if prefix == suffix {
+                    return Some(prefix);
+                }
             }
         }
         None
-- 
2.43.0


From c78d8c8cdcc72d96ecf81bff3c999fd89305e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:26 +0000
Subject: [PATCH 18/29] Add verification hooks behind --cfg verif_hooks

---
 amzn-smt-eager-arithmetic/src/encoding.rs | 26 +++++++++++++++++++++++
 amzn-smt-eager-arithmetic/src/lib.rs      | 23 ++++++++++++++++++++
 2 files changed, 49 insertions(+)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index c8b1d36..09e5636 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -610,6 +610,32 @@ impl Encoder {
     }
 }
 
+#[cfg(verif_hooks)]
+impl Encoder {
+    /// First bit and width of every unknown: `(kind, name, first bit, width)`. Integers that are
+    /// not constants of the script (sums) are named by their number.
+    pub(super) fn verif_layout(&self) -> Vec<(char, String, u64, u64)> {
+        let mut res = vec![];
+        for (var, (BoolVariable(first), width)) in &self.bit_vars {
+            res.push(('i', var.0.to_string(), first.get(), *width));
+        }
+        for (var, (BoolVariable(first), width)) in &self.bv_bit_vars {
+            res.push(('v', var.sym().to_string(), first.get(), *width));
+        }
+        for (sym, var) in &self.var_map {
+            match var {
+                Variable::Bool(BoolVariable(bit)) => res.push(('b', sym.to_string(), bit.get(), 1)),
+                Variable::Int(var) => {
+                    let (BoolVariable(first), width) = self.bit_vars[var];
+                    res.push(('c', sym.to_string(), first.get(), width));
+                }
+                Variable::Bv(_) => (),
+            }
+        }
+        res
+    }
+}
+
 #[allow(clippy::many_single_char_names)]
 #[allow(clippy::nonminimal_bool)]
 fn adder(x: Reduced, y: Reduced, carry_in: Reduced) -> (Reduced, Reduced) {
diff --git a/amzn-smt-eager-arithmetic/src/lib.rs b/amzn-smt-eager-arithmetic/src/lib.rs
index d580e37..b0aedc5 100644
--- a/amzn-smt-eager-arithmetic/src/lib.rs
+++ b/amzn-smt-eager-arithmetic/src/lib.rs
@@ -360,6 +360,29 @@ impl DoubleEndedIterator for ConstantBits {
 }
 impl ExactSizeIterator for ConstantBits {}
 
+/// Access to intermediate results for verification harnesses (built with `--cfg verif_hooks`).
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+
+    /// The script after normalization, as it is passed on to the encoder.
+    pub fn normalized(smt: impl io::BufRead) -> anyhow::Result<String> {
+        let mut ctx = Ctx::default();
+        let script = eliminate_lets(&mut ctx, Script::<Term>::parse(smt)?)?;
+        let (script, _) = ackermannize(&mut ctx, script)?;
+        let mut canonicalizer = canonicalize::Canonicalizer::new(&mut ctx);
+        let mut script = script.try_fold(&mut canonicalizer)?;
+        script.add_asserts(std::mem::take(&mut canonicalizer.new_asserts));
+        Ok(script.to_string())
+    }
+
+    /// First bit and width of every unknown: `(kind, name, first bit, width)`.
+    pub fn layout(smt: impl io::BufRead) -> anyhow::Result<Vec<(char, String, u64, u64)>> {
+        let (_, _, encoder, _) = encode_inner(smt)?;
+        Ok(encoder.verif_layout())
+    }
+}
+
 #[test]
 fn numeral_bits() {
     assert_eq!(ConstantBits::new(0u8.into()).len(), 1);
-- 
2.43.0


From 51e6b9e5d5dfb81dbcaef2524fe9b7edf86c3f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:26 +0000
Subject: [PATCH 19/29] fix: never map an unconstrained string to one that is
 already used

---
 amzn-smt-string-transformer/src/string_mappings.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 6813915..1fc63df 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -774,7 +774,8 @@ pub fn gen_string_freeforall(_s: &str, char_map: &mut CharMap) -> Result<String,
         cur_offset += 1;
         cur_tries += 1;
     }
-    if cur_tries > retries {
+    // out of retries, and the last string tried is used as well
+    if char_map.string_map.values().any(|val| val == &to_ret) {
         return Err(StringMapError::RemapRetryCountExceeded);
     }
     Ok(to_ret)
-- 
2.43.0


From e2f4b8037e2cd5138b85398bd98f24e94413e7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:22 +0000
Subject: [PATCH 20/29] fix: keep the known properties of strings that others
 overlap in

---
 amzn-smt-string-transformer/src/transpiler.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 9f4a915..62563bd 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -550,10 +550,17 @@ impl CharMap {
                                 Self::get_prefix_suffix(string_lit, sub_string_lit)
                             {
                                 if !new_rel_string.is_empty() {
-                                    suffix_prefixes.insert(
-                                        new_rel_string.to_string(),
-                                        sub_props.clone().update_with_truths(props.clone()),
-                                    );
+                                    let mut rel_props =
+                                        sub_props.clone().update_with_truths(props.clone());
+                                    // the string may be a literal itself, or shared by other strings
+                                    if let Some(known_props) = suffix_prefixes
+                                        .get(new_rel_string)
+                                        .or_else(|| self.string_lit_props.get(new_rel_string))
+                                    {
+                                        rel_props =
+                                            rel_props.update_with_truths(known_props.clone());
+                                    }
+                                    suffix_prefixes.insert(new_rel_string.to_string(), rel_props);
                                 }
                             }
                         }
-- 
2.43.0


From 149ed03fa9d61067b9c500cb6b5ac2e7a0716474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:29 +0000
Subject: [PATCH 21/29] fix: variables of subformulas are renamed by appearance

---
 amzn-smt-string-transformer/src/subformula_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/subformula_parser.rs b/amzn-smt-string-transformer/src/subformula_parser.rs
index c47f16f..639d766 100644
--- a/amzn-smt-string-transformer/src/subformula_parser.rs
+++ b/amzn-smt-string-transformer/src/subformula_parser.rs
@@ -205,7 +205,9 @@ impl IntraLogicFolder<ALL> for VariableNameNormalizer {
 
     fn fold_term(&mut self, term: Term) -> Result<Term, Self::Error> {
         match term {
-            Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..) => term.super_fold_with(self),
+            Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..) | Term::Variable(..) => {
+                term.super_fold_with(self)
+            }
             _ => Ok(term),
         }
     }
-- 
2.43.0


From beb642cbac237e1b995b9e1cf81b2d4eb4712fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:08 +0000
Subject: [PATCH 22/29] fix: substrings keep their own required length and ints

---
 .../src/string_mappings.rs                    | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 1fc63df..2baab5a 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -324,6 +324,17 @@ fn fix_repeated_string(
     Ok(to_ret)
 }
 
+/// check that the mapped string has the ints of the original string that need to be kept
+fn same_ints(orig_string: &str, mapped_string: &str, keep_ints: KeepInts) -> bool {
+    let orig_ints = orig_string.chars().filter(char::is_ascii_digit);
+    let mapped_ints = mapped_string.chars().filter(char::is_ascii_digit);
+    match keep_ints {
+        KeepInts::No => true,
+        KeepInts::AsInts => orig_ints.count() == mapped_ints.count(),
+        KeepInts::ExactInts => orig_ints.eq(mapped_ints),
+    }
+}
+
 /// get the longest string in a set of strings;
 /// if there are multiple strings of max length this gets the first instance
 fn get_longest_string(string_list: Vec<&String>) -> String {
@@ -485,6 +496,20 @@ pub fn gen_string_keep_substrings(
             return Ok(mapped_string.clone());
         }
     }
+    // a substring can have more required properties than the string it is a part of
+    let (len_bool, keep_ints, keep_ranges) = match char_map.string_lit_props.get(s) {
+        Some(StringSetProperties::Some {
+            len,
+            ranges,
+            keep_ints: lit_keep_ints,
+            ..
+        }) => (
+            len_bool || *len,
+            KeepInts::merge(lit_keep_ints, keep_ints),
+            keep_ranges || !ranges.is_empty(),
+        ),
+        _ => (len_bool, keep_ints, keep_ranges),
+    };
     let (prefix_strings, mid_substrings, suffix_strings) = get_string_subsets(s, char_map);
     // collect midpoint ranges
     // clone the midpoint strings to get rid of the stupid borrow error
@@ -670,9 +695,10 @@ pub fn gen_string_keep_substrings(
 
     to_ret.push_str(&mapped_suffix);
 
-    // the substrings may be mapped without considering the length, and different strings can
-    // be put together from the same mapped pieces
+    // the substrings may be mapped without considering the length or the ints, and different
+    // strings can be put together from the same mapped pieces
     if (len_bool && to_ret.chars().count() != s.chars().count())
+        || !same_ints(s, &to_ret, keep_ints)
         || is_range_endpoint(s, &to_ret, char_map)
         || char_map
             .string_map
-- 
2.43.0


From f44132d29c2ef48f8640951891938e15812fb4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:10 +0000
Subject: [PATCH 23/29] fix: link string literals of ground terms to the
 functions the terms are used in

---
 amzn-smt-string-transformer/src/callgraph.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/callgraph.rs b/amzn-smt-string-transformer/src/callgraph.rs
index 949bfdf..773d3fd 100644
--- a/amzn-smt-string-transformer/src/callgraph.rs
+++ b/amzn-smt-string-transformer/src/callgraph.rs
@@ -548,7 +548,9 @@ impl CallGraph {
 
     /// function to construct all the cliques in the callgraph.
     /// for each constraint var, we construct a clique of linked nodes in the graph
-    /// this is the set of, for each constraint var cvar,
+    /// (and so for each node that is not built from other nodes, only from string literals:
+    /// these literals have to be linked to the functions they are used in too)
+    /// this is the set of, for each such node cvar,
     ///       everything that was used_to_build what cvar was used_to_build
     /// computed as: foreach var in cvar.used_to_build:
     ///                  collect var.built_from
@@ -561,7 +563,11 @@ impl CallGraph {
     ) -> Result<HashMap<NodeId, NodeSetData>, AffectErr> {
         let mut constraint_cliques: HashMap<NodeId, NodeSetData> =
             HashMap::with_capacity(self.constraint_vars.len());
-        for cvar in &self.constraint_vars {
+        let nodes = self.forest.nodes();
+        let leaves = nodes.iter().filter(|(_, node)| node.children().is_empty());
+        let mut clique_bases = self.constraint_vars.clone();
+        clique_bases.extend(leaves.map(|(id, _)| *id));
+        for cvar in &clique_bases {
             if let Some(cvar_utbs) = &self.get_data_for_ind(cvar)?.used_to_build {
                 let mut clique_vars: BTreeSet<NodeId> =
                     cvar_utbs.vars.iter().cloned().collect::<BTreeSet<_>>();
-- 
2.43.0


From 4b0cdf5fa9b7f83f16ff6381924e53d7a2e8f317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 24/29] fix: do not reuse a global mapping that is the image of
 a range endpoint

---
 amzn-smt-string-transformer/src/string_mappings.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 2baab5a..7ea38b7 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -591,6 +591,7 @@ pub fn gen_string_keep_substrings(
     }) = char_map.persist_string_map.get(s)
     {
         if !char_map.string_map.iter().any(|(_key, val)| { val == mapped_to }) // is it already in the string map
+            && !is_range_endpoint(s, mapped_to, char_map)
          	&& prefix == &s_prefix
             && suffix == &s_suffix
             && mid_strings == &mid_substrings
@@ -874,6 +875,7 @@ pub fn map_string_no_reconstruct(
                     }) = char_map.persist_string_map.get(s)
                     {
                         if !char_map.string_map.iter().any(|(_key, val)| { val == mapped_to }) // is it already in the string map
+                            && !is_range_endpoint(s, mapped_to, char_map)
 				            && ranges
 				                .iter()
 				                .all(|r| req_ranges.contains(r))
-- 
2.43.0


From be34d9ef777c02ec6a6b901e94b195306a3da4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 25/29] fix: perturb the character at the current index when a
 mapped string is repeated

---
 .../src/string_mappings.rs                    | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 7ea38b7..4d5776b 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -215,10 +215,11 @@ fn fix_repeated_string(
     len_bool: bool,
 ) -> Result<String, StringMapError> {
     let mut to_ret = to_ret; // string to return
+    let mut base = to_ret.clone(); // unperturbed character at every index of it
     let mut retry_ind: usize = 0; // index of the mapped string we're perturbing
     let mut retry_add = 1; // offset to be applied on the current char
     let mut cur_try = 0; // number of attempts
-    let mut retry_char = to_ret.chars().nth(retry_ind).unwrap(); // character we're perturbing
+    let mut retry_char = base.chars().nth(retry_ind).unwrap(); // character we're perturbing
     let mut reps = 1; // number of repetitions of the current char we're adding in the perturbation
                       // (this stays 1 if the length or substrings properties need to be maintained)
     while is_range_endpoint(&orig_string, &to_ret, char_map)
@@ -258,7 +259,7 @@ fn fix_repeated_string(
                 return Err(StringMapError::RemapRetryCountExceeded);
             }
             retry_ind = 0;
-            retry_char = to_ret.chars().nth(retry_ind).unwrap();
+            retry_char = base.chars().nth(retry_ind).unwrap();
             retry_add += 1;
             continue;
         }
@@ -278,7 +279,7 @@ fn fix_repeated_string(
                 if retry_ind == 0 {
                     retry_add += 1;
                 }
-                retry_char = to_ret.chars().nth(retry_ind).unwrap();
+                retry_char = base.chars().nth(retry_ind).unwrap();
                 continue;
             }
         }
@@ -290,7 +291,7 @@ fn fix_repeated_string(
             if retry_ind == 0 {
                 retry_add += 1;
             }
-            retry_char = to_ret.chars().nth(retry_ind).unwrap();
+            retry_char = base.chars().nth(retry_ind).unwrap();
             continue;
         }
         cur_try += 1;
@@ -301,16 +302,19 @@ fn fix_repeated_string(
 
         // actually modify the string
         // at this point we're guaranteed the modification will maintain relevant properties
+        let cur_reps = if consider_substrings && (retry_ind == 0 || retry_ind + 1 == to_ret.len()) {
+            // only repeat if not first/last char
+            1 // if we care about substrings
+        } else {
+            reps
+        };
         to_ret.replace_range(
             retry_ind..(retry_ind + 1),
-            &next_char.to_string().repeat(
-                if consider_substrings && (retry_ind == 0 || retry_ind + 1 == to_ret.len()) {
-                    // only repeat if not first/last char
-                    1 // if we care about substrings
-                } else {
-                    reps
-                },
-            ),
+            &next_char.to_string().repeat(cur_reps),
+        );
+        base.replace_range(
+            retry_ind..(retry_ind + 1),
+            &retry_char.to_string().repeat(cur_reps),
         );
         retry_ind = (retry_ind + 1) % to_ret.len();
         if retry_ind == 0 {
@@ -320,6 +324,7 @@ fn fix_repeated_string(
                 reps += 1;
             }
         }
+        retry_char = base.chars().nth(retry_ind).unwrap();
     }
     Ok(to_ret)
 }
-- 
2.43.0


From 4fbc4d7cec91023dfc53565e2c7f7f5d17bb25b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 26/29] fix: do not map a string char to char onto a string
 that is already used

---
 amzn-smt-string-transformer/src/string_mappings.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 4d5776b..2f390ec 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -186,7 +186,19 @@ pub fn gen_string_keep_ranges(
     );
     match repeat_fix {
         // only string literals can be mapped char-to-char (not the gaps between substrings)
-        Err(_) if char_map.string_lit_props.contains_key(s) => map_string_char_to_char(s, char_map),
+        Err(_) if char_map.string_lit_props.contains_key(s) => {
+            let mapped = map_string_char_to_char(s, char_map)?;
+            // another string may already be mapped to this one
+            if is_range_endpoint(s, &mapped, char_map)
+                || char_map
+                    .string_map
+                    .iter()
+                    .any(|(key, val)| key != s && val == &mapped)
+            {
+                return Err(StringMapError::RemapRetryCountExceeded);
+            }
+            Ok(mapped)
+        }
         repeat_fix => repeat_fix,
     }
 }
-- 
2.43.0


From 3f09a47d2c64391f7609d9419e79a1a8347ba3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 27/29] fix: check that a perturbed string keeps its digits

---
 amzn-smt-string-transformer/src/string_mappings.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 2f390ec..45ff178 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -183,7 +183,15 @@ pub fn gen_string_keep_ranges(
         keep_ints,
         consider_substrings,
         len_bool,
-    );
+    )
+    .and_then(|fixed| {
+        // perturbed characters can turn into digits
+        if same_ints(s, &fixed, keep_ints) {
+            Ok(fixed)
+        } else {
+            Err(StringMapError::MappedSubstringsConflict)
+        }
+    });
     match repeat_fix {
         // only string literals can be mapped char-to-char (not the gaps between substrings)
         Err(_) if char_map.string_lit_props.contains_key(s) => {
-- 
2.43.0


From d5c62a8e67f3541045b9eb0c202b41d8786f5d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:34 +0000
Subject: [PATCH 28/29] fix: name variables that are declared again after a pop
 apart

---
 amzn-smt-string-transformer/src/transpiler_visitors.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 361e7d7..b54557a 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -45,6 +45,9 @@ pub struct IdentifyStringsBuilder {
     pub callgraph: CallGraph,
     /// mapping of symbols to new symbols (for alpha renaming)
     pub alpha_renaming_map: HashMap<ISymbol, ISymbol>,
+    /// number of declarations seen; a symbol may be declared again after a pop, and then it
+    /// gets another name
+    num_renamed: usize,
     /// list of original constraint variables that appear in a context that implies
     /// that all characters in string literals used with are all characters need to be respected
     pub char_level_substring_vars: HashSet<ISymbol>,
@@ -196,7 +199,8 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
     /// these are all the original variables in the query
     /// rename them to aX (where X is an int referring to this being the nth var declared)
     fn fold_declare_const(&mut self, symbol: ISymbol, sort: ISort) -> Result<Command, Self::Error> {
-        let new_var_name = format!("a{}", self.alpha_renaming_map.len());
+        let new_var_name = format!("a{}", self.num_renamed);
+        self.num_renamed += 1;
         let new_sym = ISymbol::from(new_var_name);
         self.alpha_renaming_map.insert(symbol, new_sym.clone());
 
@@ -223,7 +227,8 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         parameters: Vec<ISort>,
         sort: ISort,
     ) -> Result<Command, Self::Error> {
-        let new_var_name = format!("a{}", self.alpha_renaming_map.len());
+        let new_var_name = format!("a{}", self.num_renamed);
+        self.num_renamed += 1;
         let new_sym = ISymbol::from(new_var_name);
         self.alpha_renaming_map.insert(symbol, new_sym.clone());
 
-- 
2.43.0


From fce043edbbff38f4289647cb0a0d95a0bdcaa4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:34 +0000
Subject: [PATCH 29/29] fix: rename applications of declared functions like
 their declarations

---
 .../src/transpiler_visitors.rs                       | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index b54557a..2ebb9ff 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -12,7 +12,7 @@ use aws_smt_ir::args::Arguments;
 use aws_smt_ir::fold::{IntraLogicFolder, SuperFold};
 use aws_smt_ir::logic::ALL;
 use aws_smt_ir::smt2parser::concrete::*;
-use aws_smt_ir::{CoreOp, IConst, ISort, ISymbol, IVar};
+use aws_smt_ir::{CoreOp, IConst, ISort, ISymbol, IVar, IUF};
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeSet, HashMap, HashSet};
 use std::convert::Infallible;
@@ -259,6 +259,16 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         Ok(v.into())
     }
 
+    /// visit applications of uninterpreted functions
+    /// if the function is one of those we have renamed, then replace its name with the new one
+    fn fold_uninterpreted_func(&mut self, func: IUF<ALL>) -> Result<Term, Self::Error> {
+        let mut uf = func.super_fold_with(self)?;
+        if let Some(sym) = self.alpha_renaming_map.get(&uf.func) {
+            uf.func = sym.clone();
+        }
+        Ok(IUF::<ALL>::from(uf).into())
+    }
+
     /// visit constants
     /// if it's a string constant, add it to the list of string constants
     fn fold_const(&mut self, constant: IConst) -> Result<Term, Self::Error> {
-- 
2.43.0

