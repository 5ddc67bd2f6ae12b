From f99e4e07089c79c30aac2eed3f255bf412db6218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 01/56] fix: prefix operators must not apply the operators
 waiting for their operand

Seating a prefix operator of lower precedence than the operator on top of
the stack applied that operator before its right operand had been read, so
it consumed operands from its left instead: with prefix precedence between
those of + and *, 'a + b * -c' was grouped '(a * b) + (-c)'.
---
 src/core/cook/shunt.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/cook/shunt.rs b/src/core/cook/shunt.rs
index 0bfce89..fba1b46 100644
--- a/src/core/cook/shunt.rs
+++ b/src/core/cook/shunt.rs
@@ -114,6 +114,14 @@ impl<'smap> Shunter<'smap> {
                 return;
             }
 
+            // Prefix operators take nothing from their left, so they never
+            // complete a waiting operator: whatever is on the stack is still
+            // waiting for the operand this prefix operator begins.
+            if *this_fixity == Fixity::UnaryPrefix {
+                self.push_op(op);
+                return;
+            }
+
             let top = self.peek_op().cloned();
 
             match top {
-- 
2.43.0


From bd4a707dcd87290d520cfb82d76a86c88979e5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 02/56] fix: a call's arguments and a looked-up name are
 complete before any operator

An operator of higher precedence than call and lookup (90) took the argument
tuple or the name as its own operand: 'f(x) ## y' panicked in the compiler and
'b.k ## y' failed with an internal error for '##' of precedence 95.
---
 src/core/cook/shunt.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/cook/shunt.rs b/src/core/cook/shunt.rs
index fba1b46..3756cb2 100644
--- a/src/core/cook/shunt.rs
+++ b/src/core/cook/shunt.rs
@@ -127,8 +127,14 @@ impl<'smap> Shunter<'smap> {
             match top {
                 None => self.push_op(op),
                 Some(top) => match &*top.inner {
-                    Expr::Operator(_, top_fixity, top_prec, _) => {
-                        if *top_fixity == Fixity::InfixLeft {
+                    Expr::Operator(_, top_fixity, top_prec, top_body) => {
+                        if top_body.is_pseudocall() || top_body.is_pseudodot() {
+                            // An argument tuple or looked-up name is never
+                            // itself an operand, however tightly `op` binds.
+                            self.drop_op();
+                            self.apply_op(top.clone());
+                            self.seat_op(op);
+                        } else if *top_fixity == Fixity::InfixLeft {
                             if this_prec <= top_prec {
                                 self.drop_op();
                                 self.apply_op(top.clone());
-- 
2.43.0


From f04fbe7b42d5ffacefe729e1d9be3dfa300c5cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 03/56] fix: a lone anaphor or operator in parentheses or a
 declaration is an expression of its own

A declaration body or parenthesised group consisting of a single anaphor was
not wrapped in a lambda: {x: _} failed to compile and v (_) let the anaphor
escape the parentheses. A parenthesised lone operator was taken for an infix
operator of the surrounding expression: x (+) y.
---
 src/core/cook/mod.rs          |  7 +++++++
 src/core/desugar/rowan_ast.rs | 16 +++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/core/cook/mod.rs b/src/core/cook/mod.rs
index d22b2ca..027a3c1 100644
--- a/src/core/cook/mod.rs
+++ b/src/core/cook/mod.rs
@@ -202,6 +202,13 @@ impl<'smap> Cooker<'smap> {
     /// their own lambda — their anaphors propagate to the outer scope
     /// (subsumption).
     fn cook_soup(&mut self, exprs: &[RcExpr], bracket: bool) -> Result<RcExpr, CoreError> {
+        // A lone operator stands for the operator's function
+        if let ([op], false) = (exprs, bracket) {
+            if let Expr::Operator(_, _, _, body) = &*op.inner {
+                return self.cook_(body.clone());
+            }
+        }
+
         let (filled, naked_anaphora) = self.insert_anaphora(exprs)?;
 
         let wrap_lambda = !self.in_expr_anaphor_scope && !naked_anaphora.is_empty();
diff --git a/src/core/desugar/rowan_ast.rs b/src/core/desugar/rowan_ast.rs
index 4f5dc0c..3dbc614 100644
--- a/src/core/desugar/rowan_ast.rs
+++ b/src/core/desugar/rowan_ast.rs
@@ -1443,7 +1443,18 @@ impl Desugarable for Element {
             Element::ParenExpr(paren) => {
                 // ParenExpr contains a soup
                 if let Some(soup) = paren.soup() {
-                    soup.desugar(desugarer)
+                    let expr = soup.desugar(desugarer)?;
+                    if soup
+                        .singleton()
+                        .is_some_and(|e| e.as_operator_identifier().is_some())
+                    {
+                        // A lone operator in parentheses is a section and not
+                        // an operator of the surrounding expression
+                        let smid = expr.smid();
+                        Ok(RcExpr::from(Expr::Soup(smid, vec![expr], false)))
+                    } else {
+                        Ok(expr)
+                    }
                 } else {
                     let span = text_range_to_span(paren.syntax().text_range());
                     Err(CoreError::InvalidEmbedding(
@@ -2147,6 +2158,9 @@ impl Desugarable for rowan_ast::Soup {
         // If there's only one element, desugar it and apply variable resolution
         if elements.len() == 1 {
             let expr = elements[0].desugar(desugarer)?;
+            // A lone anaphor is an expression in its own right and may need
+            // to be wrapped in a lambda
+            let expr = ensure_anaphor_in_soup(expr);
             // Apply varify to ensure Name expressions become Var expressions
             Ok(desugarer.varify(expr))
         } else {
-- 
2.43.0


From 142bbd0a185bbe912d401ef82f135c4ff18678c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 04/56] fix: only what an expression is certain to evaluate may
 be evaluated early

Demand analysis took a value placed in a block or list, captured by a
function, used by an unneeded binding, given as lookup fallback or held by a
partial application as evaluated once and for certain, so that unneeded
values were evaluated (raising their errors, or reporting a cycle) and shared
ones evaluated again at every use.
---
 src/core/analyse_demand.rs | 43 ++++++++++++++++++++++++++++++--------
 src/eval/stg/compiler.rs   |  4 +++-
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/core/analyse_demand.rs b/src/core/analyse_demand.rs
index 10c8e58..c84191c 100644
--- a/src/core/analyse_demand.rs
+++ b/src/core/analyse_demand.rs
@@ -307,6 +307,11 @@ fn merge_envs(a: &DemandEnv, b: &DemandEnv) -> DemandEnv {
     result
 }
 
+/// Scale every demand in an environment by the demand of its context.
+fn scale_env(env: &DemandEnv, outer: Demand) -> DemandEnv {
+    env.iter().map(|(&k, &d)| (k, d.scale(outer))).collect()
+}
+
 /// The demand analyser.
 pub struct DemandAnalyser {
     /// Intrinsic seed signatures.
@@ -382,8 +387,10 @@ impl DemandAnalyser {
                 let mut env = DemandEnv::new();
                 let mut new_xs = Vec::with_capacity(xs.len());
                 for x in xs {
+                    // Building the sequence does not evaluate its elements,
+                    // and each may be evaluated any number of times later.
                     let (new_x, x_env) = self.analyse_expr(x);
-                    env = merge_envs(&env, &x_env);
+                    env = merge_envs(&env, &scale_env(&x_env, Demand::lazy_multi()));
                     new_xs.push(new_x);
                 }
                 (RcExpr::from(Expr::List(*s, new_xs)), env)
@@ -393,8 +400,10 @@ impl DemandAnalyser {
                 let mut env = DemandEnv::new();
                 let mut new_entries = Vec::new();
                 for (k, v) in block_map.iter() {
+                    // Building the block does not evaluate its values, and
+                    // each may be evaluated any number of times later.
                     let (new_v, v_env) = self.analyse_expr(v);
-                    env = merge_envs(&env, &v_env);
+                    env = merge_envs(&env, &scale_env(&v_env, Demand::lazy_multi()));
                     new_entries.push((k.clone(), new_v));
                 }
                 (
@@ -406,7 +415,7 @@ impl DemandAnalyser {
             Expr::Meta(s, e, m) => {
                 let (new_e, e_env) = self.analyse_expr(e);
                 let (new_m, m_env) = self.analyse_expr(m);
-                let env = merge_envs(&e_env, &m_env);
+                let env = merge_envs(&e_env, &scale_env(&m_env, Demand::lazy_multi()));
                 (RcExpr::from(Expr::Meta(*s, new_e, new_m)), env)
             }
 
@@ -414,8 +423,10 @@ impl DemandAnalyser {
                 let mut env = DemandEnv::new();
                 let mut new_xs = Vec::with_capacity(xs.len());
                 for x in xs {
+                    // Building the sequence does not evaluate its elements,
+                    // and each may be evaluated any number of times later.
                     let (new_x, x_env) = self.analyse_expr(x);
-                    env = merge_envs(&env, &x_env);
+                    env = merge_envs(&env, &scale_env(&x_env, Demand::lazy_multi()));
                     new_xs.push(new_x);
                 }
                 (RcExpr::from(Expr::ArgTuple(*s, new_xs)), env)
@@ -614,7 +625,16 @@ impl DemandAnalyser {
             if binding_demand.cardinality != Cardinality::Absent
                 && binding_demand.cardinality != Cardinality::Unknown
             {
-                let shifted = unshift_env(&rhs_envs[i]);
+                // An alias passes all its uses on; any other right-hand side
+                // is evaluated once at most, and only if the binding is.
+                let rhs_demand = match &*peel_meta(&binding.expr).inner {
+                    Expr::Var(_, _) => binding_demand,
+                    _ => Demand {
+                        strictness: binding_demand.strictness,
+                        ..Demand::at_most_once()
+                    },
+                };
+                let shifted = scale_env(&unshift_env(&rhs_envs[i]), rhs_demand);
                 outer_env = merge_envs(&outer_env, &shifted);
             }
 
@@ -677,8 +697,10 @@ impl DemandAnalyser {
         let sig_key = Rc::as_ptr(&new_body.inner) as usize;
         self.signatures.insert(sig_key, sig);
 
-        // The outer env is the body env with scope-0 entries removed
-        let outer_env = unshift_env(&body_env);
+        // The outer env is the body env with scope-0 entries removed. Building
+        // the closure does not evaluate the body, which then runs once per
+        // call, however many there are.
+        let outer_env = scale_env(&unshift_env(&body_env), Demand::lazy_multi());
 
         let new_scope = Scope {
             pattern: scope.pattern.clone(),
@@ -694,8 +716,11 @@ impl DemandAnalyser {
         let (new_f, f_env) = self.analyse_expr(f);
         let mut env = f_env;
 
-        // Try to find the function's signature
-        let sig = self.lookup_signature(f);
+        // Try to find the function's signature. It says nothing about a
+        // partial application, which only holds on to its arguments.
+        let sig = self
+            .lookup_signature(f)
+            .filter(|sig| sig.len() <= args.len());
 
         // Analyse each argument with the demand from the signature
         let mut new_args = Vec::with_capacity(args.len());
diff --git a/src/eval/stg/compiler.rs b/src/eval/stg/compiler.rs
index 0447329..9b5782b 100644
--- a/src/eval/stg/compiler.rs
+++ b/src/eval/stg/compiler.rs
@@ -1178,7 +1178,9 @@ impl ProtoSyntax for ProtoAppGroup {
                 callee_name
                     .and_then(|name| compiler.prelude_demand_sigs.get(name))
                     .map(|v| v.as_slice())
-            });
+            })
+            // A partial application only holds on to its arguments.
+            .filter(|sigs| sigs.len() <= self.args.len());
 
         // Detect self-recursive call: callee name matches the
         // enclosing recursive binding.  The VM will resolve Ref::L
-- 
2.43.0


From bbc356c65e0e4cd8ff04c2dc4c1bed7808d01934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 05/56] fix: a function's evaluation of its arguments says
 nothing about its namesakes

Demand signatures are found by name at call sites; with several binders of
one name, the last signature recorded was applied to calls of all of them.
---
 src/core/analyse_demand.rs | 45 ++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/core/analyse_demand.rs b/src/core/analyse_demand.rs
index c84191c..2a2414f 100644
--- a/src/core/analyse_demand.rs
+++ b/src/core/analyse_demand.rs
@@ -7,7 +7,7 @@
 //! Also produces a signature side-table mapping lambda body pointers
 //! to per-argument demand vectors for use by the STG compiler.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
 
 use crate::common::sourcemap::Smid;
@@ -320,6 +320,9 @@ pub struct DemandAnalyser {
     signatures: SignatureTable,
     /// Name-keyed signatures for user function calls.
     named_signatures: NamedSignatureTable,
+    /// Names which some binder gives to a value without a signature of the
+    /// recorded arity; a call by such a name may be to either.
+    ambiguous_names: HashSet<String>,
 }
 
 impl Default for DemandAnalyser {
@@ -334,6 +337,7 @@ impl DemandAnalyser {
             intrinsic_sigs: build_intrinsic_signatures(),
             signatures: HashMap::new(),
             named_signatures: HashMap::new(),
+            ambiguous_names: HashSet::new(),
         }
     }
 
@@ -342,6 +346,9 @@ impl DemandAnalyser {
     /// name-keyed signature table for user function calls.
     pub fn analyse(mut self, expr: &RcExpr) -> (RcExpr, SignatureTable, NamedSignatureTable) {
         let (new_expr, _env) = self.analyse_expr(expr);
+        let ambiguous = self.ambiguous_names;
+        self.named_signatures
+            .retain(|name, _| !ambiguous.contains(name));
         (new_expr, self.signatures, self.named_signatures)
     }
 
@@ -653,13 +660,14 @@ impl DemandAnalyser {
             // blob path never hits this: `inlinable_bindings` are peeled at
             // blob-gen time (`xtask`), so their injected values are already
             // bare `Lam`s here.
-            if let Expr::Lam(_, _, ref lam_scope) = &*peel_meta(&new_rhs_exprs[i]).inner {
-                let key = Rc::as_ptr(&lam_scope.body.inner) as usize;
-                if let Some(sig) = self.signatures.get(&key) {
-                    self.named_signatures
-                        .insert(binding.name.clone(), sig.clone());
+            let sig = match &*peel_meta(&new_rhs_exprs[i]).inner {
+                Expr::Lam(_, _, ref lam_scope) => {
+                    let key = Rc::as_ptr(&lam_scope.body.inner) as usize;
+                    self.signatures.get(&key).cloned()
                 }
-            }
+                _ => None,
+            };
+            self.record_named(&binding.name, sig);
 
             new_bindings.push(CoreBinding::with_demand(
                 binding.name.clone(),
@@ -676,10 +684,33 @@ impl DemandAnalyser {
         (RcExpr::from(Expr::Let(s, new_scope, let_type)), outer_env)
     }
 
+    /// Record the signature of a binder under its name. A call site knows its
+    /// callee by name alone, so binders of one name share what holds for all
+    /// of them.
+    fn record_named(&mut self, name: &str, sig: Option<DemandSignature>) {
+        match (self.named_signatures.get_mut(name), sig) {
+            (Some(known), Some(sig)) if known.len() == sig.len() => {
+                for (k, d) in known.iter_mut().zip(sig) {
+                    *k = k.lub(d);
+                }
+            }
+            (None, Some(sig)) => {
+                self.named_signatures.insert(name.to_string(), sig);
+            }
+            _ => {
+                self.ambiguous_names.insert(name.to_string());
+            }
+        }
+    }
+
     /// Analyse a `Lam` expression.
     fn analyse_lam(&mut self, s: Smid, inl: bool, scope: &LamScope<RcExpr>) -> (RcExpr, DemandEnv) {
         let num_params = scope.pattern.len();
 
+        for param in &scope.pattern {
+            self.record_named(param, None);
+        }
+
         // Analyse the body
         let (new_body, body_env) = self.analyse_expr(&scope.body);
 
-- 
2.43.0


From 7d14b29d78c205ae77861aeb519fc59edaff3612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 06/56] fix: an alias of a single-use binding must not be
 evaluated ahead of its use

The forced alias discarded the value, which was computed again at the use.
---
 src/eval/stg/compiler.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/eval/stg/compiler.rs b/src/eval/stg/compiler.rs
index 9b5782b..3464e32 100644
--- a/src/eval/stg/compiler.rs
+++ b/src/eval/stg/compiler.rs
@@ -967,8 +967,13 @@ impl ProtoSyntax for ProtoLet {
                 b.demand,
                 binding_self_recurse,
             )?;
-            // Mark strict non-recursive bindings for eager Seq evaluation
-            if b.demand.strictness == Strictness::Strict && !b.demand.recursive {
+            // Mark strict non-recursive bindings for eager Seq evaluation.
+            // Not an alias: it holds nothing of its own to memoise, and
+            // what it stands for may itself be compiled for a single use.
+            if b.demand.strictness == Strictness::Strict
+                && !b.demand.recursive
+                && !matches!(&*b.expr.inner, Expr::Var(_, _))
+            {
                 if let Ref::L(n) = index {
                     binder.mark_strict(n);
                 }
-- 
2.43.0


From 7fd4075edd69c4cf148654e4674dc6c3497ed519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 07/56] fix: row unification must not bind rows in a circle

---
 src/core/typecheck/unify.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/typecheck/unify.rs b/src/core/typecheck/unify.rs
index a8a396a..60ba145 100644
--- a/src/core/typecheck/unify.rs
+++ b/src/core/typecheck/unify.rs
@@ -414,6 +414,10 @@ pub fn unify(t1: &Type, t2: &Type, subst: &mut Substitution) -> Result<(), Unify
                             rows: rows2.clone(),
                         }
                     };
+                    // Unifying the common fields, or binding an earlier row, may
+                    // have bound variables that `extra_ty` mentions: only the
+                    // resolved type shows whether the binding is circular.
+                    let extra_ty = apply_subst(&extra_ty, subst);
                     if !occurs(r1, &extra_ty) {
                         subst.insert(r1.clone(), extra_ty);
                     }
@@ -451,6 +455,10 @@ pub fn unify(t1: &Type, t2: &Type, subst: &mut Substitution) -> Result<(), Unify
                             rows: rows1.clone(),
                         }
                     };
+                    // Unifying the common fields, or binding an earlier row, may
+                    // have bound variables that `extra_ty` mentions: only the
+                    // resolved type shows whether the binding is circular.
+                    let extra_ty = apply_subst(&extra_ty, subst);
                     if !occurs(r2, &extra_ty) {
                         subst.insert(r2.clone(), extra_ty);
                     }
-- 
2.43.0


From 2423375b9d3ff02ad148ac9a2a1876ed2505ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 08/56] fix: type predicates must recognise unboxed results

---
 src/eval/stg/list.rs | 64 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/src/eval/stg/list.rs b/src/eval/stg/list.rs
index 9f2e3e5..b01b366 100644
--- a/src/eval/stg/list.rs
+++ b/src/eval/stg/list.rs
@@ -8,9 +8,13 @@ use crate::{
         emit::Emitter,
         error::ExecutionError,
         machine::intrinsic::{
-            CallGlobal0, CallGlobal1, CallGlobal2, Const, IntrinsicMachine, StgIntrinsic,
+            AbiClosure, CallGlobal0, CallGlobal1, CallGlobal2, Const, IntrinsicMachine,
+            StgIntrinsic,
+        },
+        memory::{
+            mutator::MutatorHeapView,
+            syntax::{Native, Ref},
         },
-        memory::{mutator::MutatorHeapView, syntax::Ref},
     },
 };
 
@@ -231,6 +235,26 @@ impl StgIntrinsic for IsList {
 
 impl CallGlobal1 for IsList {}
 
+/// Whether a value is a scalar of a given kind, in either representation.
+///
+/// A literal is boxed (tagged `boxed`) but the result of an arithmetic or
+/// string intrinsic may be returned as a bare native, so the tag alone
+/// does not settle the question.
+fn is_scalar(
+    machine: &dyn IntrinsicMachine,
+    view: MutatorHeapView<'_>,
+    closure: &AbiClosure,
+    boxed: DataConstructor,
+    is_kind: fn(&Native) -> bool,
+) -> bool {
+    match machine.data_tag(view, closure) {
+        Some(tag) => tag == boxed.tag(),
+        None => machine
+            .value_native(view, closure)
+            .is_some_and(|native| is_kind(&native)),
+    }
+}
+
 /// ISNUMBER(value)
 ///
 /// Return true if the value is a number, false otherwise
@@ -249,9 +273,12 @@ impl StgIntrinsic for IsNumber {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let closure = machine.resolve_closure(view, &args[0])?;
-        let result = matches!(
-            machine.data_tag(view, &closure),
-            Some(tag) if tag == DataConstructor::BoxedNumber.tag()
+        let result = is_scalar(
+            machine,
+            view,
+            &closure,
+            DataConstructor::BoxedNumber,
+            |native| matches!(native, Native::Num(_)),
         );
         machine_return_bool(machine, view, result)
     }
@@ -277,9 +304,12 @@ impl StgIntrinsic for IsString {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let closure = machine.resolve_closure(view, &args[0])?;
-        let result = matches!(
-            machine.data_tag(view, &closure),
-            Some(tag) if tag == DataConstructor::BoxedString.tag()
+        let result = is_scalar(
+            machine,
+            view,
+            &closure,
+            DataConstructor::BoxedString,
+            |native| matches!(native, Native::Str(_)),
         );
         machine_return_bool(machine, view, result)
     }
@@ -305,9 +335,12 @@ impl StgIntrinsic for IsSymbol {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let closure = machine.resolve_closure(view, &args[0])?;
-        let result = matches!(
-            machine.data_tag(view, &closure),
-            Some(tag) if tag == DataConstructor::BoxedSymbol.tag()
+        let result = is_scalar(
+            machine,
+            view,
+            &closure,
+            DataConstructor::BoxedSymbol,
+            |native| matches!(native, Native::Sym(_)),
         );
         machine_return_bool(machine, view, result)
     }
@@ -391,9 +424,12 @@ impl StgIntrinsic for IsZdt {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let closure = machine.resolve_closure(view, &args[0])?;
-        let result = matches!(
-            machine.data_tag(view, &closure),
-            Some(tag) if tag == DataConstructor::BoxedZdt.tag()
+        let result = is_scalar(
+            machine,
+            view,
+            &closure,
+            DataConstructor::BoxedZdt,
+            |native| matches!(native, Native::Zdt(_)),
         );
         machine_return_bool(machine, view, result)
     }
-- 
2.43.0


From 3f2596afc7420d5422b87839bb1bacdc66db36dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 09/56] fix: array arithmetic must accept a boxed scalar
 operand

---
 src/eval/stg/array.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eval/stg/array.rs b/src/eval/stg/array.rs
index 942b9ae..5c4f0fd 100644
--- a/src/eval/stg/array.rs
+++ b/src/eval/stg/array.rs
@@ -27,7 +27,7 @@ use super::{
     force::SeqNumList,
     support::{
         machine_return_bool, machine_return_ndarray, machine_return_num,
-        machine_return_num_list_of_lists, ndarray_arg, num_arg,
+        machine_return_num_list_of_lists, ndarray_arg, num_arg, resolve_native_unboxing,
     },
     syntax::{
         dsl::{app_bif, data, force, lambda, let_, local, lref, unbox_num, value},
@@ -794,8 +794,8 @@ pub(crate) fn array_binop<F: Fn(f64, f64) -> f64>(
     b_ref: &Ref,
     f: F,
 ) -> Result<(), ExecutionError> {
-    let a_native = machine.resolve_native(view, a_ref)?;
-    let b_native = machine.resolve_native(view, b_ref)?;
+    let a_native = resolve_native_unboxing(machine, view, a_ref)?;
+    let b_native = resolve_native_unboxing(machine, view, b_ref)?;
 
     let smid = machine.annotation();
     match (a_native, b_native) {
-- 
2.43.0


From 2463367fd7c95e806625657601b984d44bb7f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 10/56] fix: lookup-or's demand signature must follow its
 argument order

---
 src/core/analyse_demand.rs | 17 ++++++-----------
 src/eval/intrinsics.rs     |  4 ++--
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/core/analyse_demand.rs b/src/core/analyse_demand.rs
index 2a2414f..84d43b6 100644
--- a/src/core/analyse_demand.rs
+++ b/src/core/analyse_demand.rs
@@ -104,17 +104,12 @@ pub fn build_intrinsic_signatures() -> HashMap<String, DemandSignature> {
         vec![Demand::strict_once(), Demand::lazy_once()],
     );
 
-    // LOOKUPOR: obj strict+once, key strict+once, fallback lazy+once, (extra arg)
-    if let Some(sig) = sigs.get_mut("LOOKUPOR") {
-        // LOOKUPOR has 4 args: object(0), key(1), fallback(2), extra(3)
-        // object and key are strict; fallback is lazy+once
-        if sig.len() >= 3 {
-            sig[2] = Demand::lazy_once();
-        }
-    }
-    if let Some(sig) = sigs.get_mut("LOOKUPOR#") {
-        if sig.len() >= 3 {
-            sig[2] = Demand::lazy_once();
+    // LOOKUPOR(key, fallback, obj): key and obj strict+once, fallback lazy+once
+    for name in ["LOOKUPOR", "LOOKUPOR#"] {
+        if let Some(sig) = sigs.get_mut(name) {
+            if sig.len() >= 3 {
+                sig[1] = Demand::lazy_once();
+            }
         }
     }
 
diff --git a/src/eval/intrinsics.rs b/src/eval/intrinsics.rs
index 2ceb9c4..4041317 100644
--- a/src/eval/intrinsics.rs
+++ b/src/eval/intrinsics.rs
@@ -56,7 +56,7 @@ lazy_static! {
         Intrinsic { // 1
             name: "LOOKUPOR", // boxed sym
             ty: function(vec![block(), unk(), unk(), unk()]).unwrap(),
-            strict: vec![0, 1],
+            strict: vec![0, 2],
         },
         Intrinsic { // 2
             name: "RENDER",
@@ -252,7 +252,7 @@ lazy_static! {
         Intrinsic { // 39
             name: "LOOKUPOR#",
             ty: function(vec![block(), unk(), unk(), unk()]).unwrap(),
-            strict: vec![0, 1],
+            strict: vec![0, 2],
         },
         Intrinsic { // 40
             name: "CONS",
-- 
2.43.0


From f4d9465a2d149115dfc7cc45637d03ae018248e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 11/56] fix: order the symbols of a set by name, not by order
 of interning

set.to-list is documented to return a sorted list; symbols came out in the
order in which the program happened to intern them.
---
 src/eval/memory/set.rs | 13 ++++++++++++-
 src/eval/stg/emit.rs   |  2 +-
 src/eval/stg/set.rs    |  4 ++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/eval/memory/set.rs b/src/eval/memory/set.rs
index dda6a45..91ec3e2 100644
--- a/src/eval/memory/set.rs
+++ b/src/eval/memory/set.rs
@@ -10,7 +10,7 @@ use ordered_float::OrderedFloat;
 use serde_json::Number;
 
 use super::alloc::StgObject;
-use super::symbol::SymbolId;
+use super::symbol::{SymbolId, SymbolPool};
 
 /// A hashable primitive value that can be stored in a set.
 ///
@@ -157,6 +157,17 @@ impl HeapSet {
         elems.sort();
         elems
     }
+
+    /// Return elements sorted as by `sorted_elements` but with symbols
+    /// ordered by name: their ids only reflect the order of interning.
+    pub fn sorted_elements_by_name(&self, pool: &SymbolPool) -> Vec<&Primitive> {
+        let mut elems: Vec<_> = self.elements.iter().collect();
+        elems.sort_by(|a, b| match (a, b) {
+            (Primitive::Sym(x), Primitive::Sym(y)) => pool.resolve(*x).cmp(pool.resolve(*y)),
+            _ => a.cmp(b),
+        });
+        elems
+    }
 }
 
 impl Clone for HeapSet {
diff --git a/src/eval/stg/emit.rs b/src/eval/stg/emit.rs
index 3247201..14c256c 100644
--- a/src/eval/stg/emit.rs
+++ b/src/eval/stg/emit.rs
@@ -114,7 +114,7 @@ fn emit_set(
         emitter,
         Event::OutputSequenceStart(metadata.clone()),
     )?;
-    for elem in set.sorted_elements() {
+    for elem in set.sorted_elements_by_name(machine.symbol_pool()) {
         let prim = set_primitive_to_render_primitive(elem, machine);
         emit_scalar(machine, emitter, &RenderMetadata::empty(), &prim)?;
     }
diff --git a/src/eval/stg/set.rs b/src/eval/stg/set.rs
index 5c30fa3..2db7fac 100644
--- a/src/eval/stg/set.rs
+++ b/src/eval/stg/set.rs
@@ -165,7 +165,7 @@ impl StgIntrinsic for SetToList {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let set = set_arg(machine, view, &args[0])?;
-        let sorted = set.sorted_elements();
+        let sorted = set.sorted_elements_by_name(machine.symbol_pool());
 
         // Box each element and assemble the (sorted) list via the neutral ABI.
         let mut items = Vec::with_capacity(sorted.len());
@@ -437,7 +437,7 @@ impl StgIntrinsic for SetSample {
 
         let floats = collect_num_list(machine, view, args[0].clone())?;
         let s = set_arg(machine, view, &args[1])?;
-        let elements = s.sorted_elements();
+        let elements = s.sorted_elements_by_name(machine.symbol_pool());
         let len = elements.len();
         let count = floats.len().min(len);
 
-- 
2.43.0


From 3463a301d490243174c4b13a277347386d814ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 12/56] fix: floor division and bitwise operations on 2^63 as a
 float no longer yield 2^63-1

---
 src/eval/stg/arith.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eval/stg/arith.rs b/src/eval/stg/arith.rs
index 5f57315..430983a 100644
--- a/src/eval/stg/arith.rs
+++ b/src/eval/stg/arith.rs
@@ -62,9 +62,10 @@ fn floor_mod_i64(a: i64, b: i64) -> Option<i64> {
 }
 
 /// Convert a floored/truncated f64 to an integer Number when possible,
-/// falling back to f64 representation for values outside i64 range.
+/// falling back to f64 representation for values outside i64 range
+/// (`i64::MAX as f64` rounds up to 2^63, which is already outside).
 fn num_from_floored(val: f64) -> Option<Number> {
-    if val.is_finite() && val >= i64::MIN as f64 && val <= i64::MAX as f64 {
+    if val.is_finite() && val >= i64::MIN as f64 && val < i64::MAX as f64 {
         let i = val as i64;
         if (i as f64) == val {
             return Some(Number::from(i));
@@ -1005,7 +1006,7 @@ fn require_i64(n: &Number, smid: crate::common::sourcemap::Smid) -> Result<i64,
             )
         })
     } else if let Some(f) = n.as_f64() {
-        if f.fract() == 0.0 && f >= i64::MIN as f64 && f <= i64::MAX as f64 {
+        if f.fract() == 0.0 && f >= i64::MIN as f64 && f < i64::MAX as f64 {
             Ok(f as i64)
         } else {
             Err(ExecutionError::BitwiseIntegerRequired(
-- 
2.43.0


From 107cade7c732a61939f98610919a91c156ff712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 13/56] fix: the remainder of -2^63 by -1 is 0, not a range
 error

---
 src/eval/stg/arith.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/eval/stg/arith.rs b/src/eval/stg/arith.rs
index 430983a..00b58b5 100644
--- a/src/eval/stg/arith.rs
+++ b/src/eval/stg/arith.rs
@@ -48,12 +48,18 @@ fn floor_div_i64(a: i64, b: i64) -> Option<i64> {
     }
 }
 
+/// Truncation remainder for signed integers; `i64::MIN rem -1` is 0
+/// although the matching quotient is out of range.
+fn rem_i64(a: i64, b: i64) -> Option<i64> {
+    (b != 0).then(|| a.wrapping_rem(b))
+}
+
 /// Floor modulus for signed integers (result has same sign as divisor).
 ///
 /// Differs from Rust's truncating `%` for negative dividends:
 /// `-7 floor_mod 3 = 2` vs `-7 % 3 = -1`.
 fn floor_mod_i64(a: i64, b: i64) -> Option<i64> {
-    let r = a.checked_rem(b)?;
+    let r = rem_i64(a, b)?;
     if r != 0 && ((r ^ b) < 0) {
         Some(r + b)
     } else {
@@ -958,7 +964,7 @@ impl StgIntrinsic for Rem {
         }
 
         if let (Some(l), Some(r)) = (x.as_i64(), y.as_i64()) {
-            let result = l.checked_rem(r).ok_or(ExecutionError::NumericRangeError(
+            let result = rem_i64(l, r).ok_or(ExecutionError::NumericRangeError(
                 machine.annotation(),
                 x,
                 y,
-- 
2.43.0


From 3bc1e9ceb5f78d276ae415395a16c33c9a9302c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 14/56] fix: read floats correctly rounded, so that a float
 written out reads back as itself

---
 src/common/mod.rs       |  1 +
 src/common/number.rs    | 20 ++++++++++++++++++++
 src/core/expr.rs        |  4 ++--
 src/eval/stg/string.rs  |  4 ++--
 src/eval/stg/syntax.rs  |  4 ++--
 src/import/yaml.rs      |  5 +++--
 src/syntax/rowan/ast.rs |  2 +-
 7 files changed, 31 insertions(+), 9 deletions(-)
 create mode 100644 src/common/number.rs

diff --git a/src/common/mod.rs b/src/common/mod.rs
index 5a28197..eee06bb 100644
--- a/src/common/mod.rs
+++ b/src/common/mod.rs
@@ -1,5 +1,6 @@
 pub mod diagnostic_json;
 pub mod environment;
+pub mod number;
 pub mod prettify;
 pub mod serde_sorted;
 pub mod sourcemap;
diff --git a/src/common/number.rs b/src/common/number.rs
new file mode 100644
index 0000000..ce3e504
--- /dev/null
+++ b/src/common/number.rs
@@ -0,0 +1,20 @@
+//! Reading numbers from text
+
+use serde_json::{Error, Number};
+use std::str::FromStr;
+
+/// Read a number in JSON syntax.
+///
+/// `serde_json`'s own parser may miss the nearest double by one unit in
+/// the last place, so that a float written out by eucalypt would not
+/// read back as itself; floats are therefore read by the standard
+/// library, which rounds correctly.
+pub fn parse_number(text: &str) -> Result<Number, Error> {
+    let number = Number::from_str(text)?;
+    if number.is_f64() {
+        if let Some(exact) = text.parse().ok().and_then(Number::from_f64) {
+            return Ok(exact);
+        }
+    }
+    Ok(number)
+}
diff --git a/src/core/expr.rs b/src/core/expr.rs
index 0734705..1b79e8a 100644
--- a/src/core/expr.rs
+++ b/src/core/expr.rs
@@ -16,9 +16,9 @@ use serde_json::Number;
 /// works for JSON-like formats.  Binary formats such as postcard cannot
 /// encode it.  We therefore serialise numbers as their string representation.
 mod number_serde {
+    use crate::common::number::parse_number;
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
     use serde_json::Number;
-    use std::str::FromStr;
 
     pub fn serialize<S: Serializer>(n: &Number, s: S) -> Result<S::Ok, S::Error> {
         n.to_string().serialize(s)
@@ -26,7 +26,7 @@ mod number_serde {
 
     pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Number, D::Error> {
         let text = String::deserialize(d)?;
-        Number::from_str(&text).map_err(serde::de::Error::custom)
+        parse_number(&text).map_err(serde::de::Error::custom)
     }
 }
 use std::collections::HashMap;
diff --git a/src/eval/stg/string.rs b/src/eval/stg/string.rs
index 8db957c..a4523bc 100644
--- a/src/eval/stg/string.rs
+++ b/src/eval/stg/string.rs
@@ -1,7 +1,7 @@
 //! String and regex intrinsics
 
 use crate::{
-    common::sourcemap::Smid,
+    common::{number::parse_number, sourcemap::Smid},
     eval::{
         emit::Emitter,
         error::ExecutionError,
@@ -299,7 +299,7 @@ impl StgIntrinsic for NumParse {
     ) -> Result<(), ExecutionError> {
         let string = str_arg(machine, view, &args[0])?;
 
-        if let Ok(num) = str::parse::<Number>(&string) {
+        if let Ok(num) = parse_number(&string) {
             machine_return_num(machine, view, num)
         } else {
             Err(ExecutionError::BadNumberFormat(
diff --git a/src/eval/stg/syntax.rs b/src/eval/stg/syntax.rs
index 0d76286..c7a9a0e 100644
--- a/src/eval/stg/syntax.rs
+++ b/src/eval/stg/syntax.rs
@@ -18,9 +18,9 @@ use serde_json::Number;
 /// We therefore serialise numbers as their string representation and
 /// parse them back, which is unambiguous and compact.
 mod number_serde {
+    use crate::common::number::parse_number;
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
     use serde_json::Number;
-    use std::str::FromStr;
 
     pub fn serialize<S: Serializer>(n: &Number, s: S) -> Result<S::Ok, S::Error> {
         n.to_string().serialize(s)
@@ -28,7 +28,7 @@ mod number_serde {
 
     pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Number, D::Error> {
         let text = String::deserialize(d)?;
-        Number::from_str(&text).map_err(serde::de::Error::custom)
+        parse_number(&text).map_err(serde::de::Error::custom)
     }
 }
 
diff --git a/src/import/yaml.rs b/src/import/yaml.rs
index 2c6e1f9..6488f87 100644
--- a/src/import/yaml.rs
+++ b/src/import/yaml.rs
@@ -1,4 +1,5 @@
 //! Import YAML and transform into core syntax
+use crate::common::number::parse_number;
 use crate::core::{desugar::Desugarer, expr::*};
 use crate::import::error::SourceError;
 use crate::{
@@ -10,8 +11,8 @@ use codespan::{ByteIndex, ByteOffset, Span};
 use codespan_reporting::files::SimpleFiles;
 use lazy_static::lazy_static;
 use regex::{Regex, RegexSet};
+use std::convert::TryInto;
 use std::{collections::HashMap, iter};
-use std::{convert::TryInto, str::FromStr};
 use yaml_rust::parser::{Event, MarkedEventReceiver, Parser};
 use yaml_rust::scanner::{Marker, TScalarStyle, TokenType};
 
@@ -274,7 +275,7 @@ impl<'smap> Receiver<'smap> {
             Tag::Null => Ok(core::null(smid)),
             Tag::Bool => Ok(core::bool_(smid, parse_bool(&text))),
             Tag::Str => Ok(core::str(smid, text)),
-            Tag::Int | Tag::Float => serde_json::Number::from_str(&text)
+            Tag::Int | Tag::Float => parse_number(&text)
                 .map_err(|_e| SourceError::InvalidNumber(text, self.file_id, span))
                 .map(|n| core::num(smid, n)),
             Tag::Timestamp => {
diff --git a/src/syntax/rowan/ast.rs b/src/syntax/rowan/ast.rs
index 3622362..9e14773 100644
--- a/src/syntax/rowan/ast.rs
+++ b/src/syntax/rowan/ast.rs
@@ -221,7 +221,7 @@ ast_token!(Num, NUMBER);
 
 impl Num {
     pub fn value(&self) -> Option<Number> {
-        self.text().parse().ok()
+        crate::common::number::parse_number(self.text()).ok()
     }
 }
 
-- 
2.43.0


From 9faa1eeab18db129d34688218a98e373dfa2ecad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 15/56] fix: sets, vecs and arrays are equal by content

---
 src/eval/stg/eq.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eval/stg/eq.rs b/src/eval/stg/eq.rs
index c3deaf8..9f56291 100644
--- a/src/eval/stg/eq.rs
+++ b/src/eval/stg/eq.rs
@@ -280,6 +280,10 @@ impl StgIntrinsic for Eq {
             (Native::Num(ref nx), Native::Num(ref ny)) => num_eq(nx, ny),
             (Native::Str(sx), Native::Str(sy)) => str_eq(view, sx, sy),
             (Native::Sym(id_x), Native::Sym(id_y)) => id_x == id_y,
+            // Collections are equal by content, not by identity
+            (Native::Set(sx), Native::Set(sy)) => *view.scoped(sx) == *view.scoped(sy),
+            (Native::Vec(vx), Native::Vec(vy)) => *view.scoped(vx) == *view.scoped(vy),
+            (Native::NdArray(ax), Native::NdArray(ay)) => *view.scoped(ax) == *view.scoped(ay),
             (l, r) => l == r,
         };
         machine_return_bool(machine, view, eq)
-- 
2.43.0


From c9a95f2e0998222fb126c084c4234b0b1905df4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 16/56] fix: a timestamp out of the calendar's range is an
 error, not a panic

---
 src/eval/stg/time.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/eval/stg/time.rs b/src/eval/stg/time.rs
index 97d6882..0d795b0 100644
--- a/src/eval/stg/time.rs
+++ b/src/eval/stg/time.rs
@@ -249,12 +249,11 @@ impl StgIntrinsic for ZdtFromEpoch {
     ) -> Result<(), ExecutionError> {
         let unix = num_arg(machine, view, &args[0])?;
         if let Some(ts) = unix.as_i64() {
-            let zdt = DateTime::from(
-                Utc.timestamp_opt(ts, 0)
-                    .single()
-                    .expect("timestamp with zero nanoseconds is always valid"),
-            );
-            machine_return_zdt(machine, view, zdt)
+            // Timestamps beyond the calendar have no date
+            let Some(zdt) = Utc.timestamp_opt(ts, 0).single() else {
+                return Err(ExecutionError::BadTimestamp(machine.annotation(), unix));
+            };
+            machine_return_zdt(machine, view, DateTime::from(zdt))
         } else {
             Err(ExecutionError::BadTimestamp(machine.annotation(), unix))
         }
-- 
2.43.0


From 99ea127810cd77a1483256ba0ddd1d896a5ec47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 17/56] fix: cal.datetime accepts the seconds that cal.fields
 gives

---
 src/eval/stg/time.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/eval/stg/time.rs b/src/eval/stg/time.rs
index 0d795b0..cde8fb2 100644
--- a/src/eval/stg/time.rs
+++ b/src/eval/stg/time.rs
@@ -77,6 +77,19 @@ fn offset_from_tz_str(smid: Smid, tz_str: &str) -> Result<FixedOffset, Execution
     Err(ExecutionError::BadTimeZone(smid, tz_str.to_string()))
 }
 
+/// Whole seconds and milliseconds of a seconds component, which
+/// `ZDT.FIELDS` gives as a float with millisecond resolution
+fn seconds_and_millis(sec: &Number) -> Option<(u32, u32)> {
+    if let Some(s) = sec.as_u64() {
+        return Some((s.try_into().ok()?, 0));
+    }
+    let millis = sec
+        .as_f64()
+        .filter(|s| (0.0..60.0).contains(s))
+        .map(|s| (s * 1000.0).round() as u32)?;
+    Some((millis / 1000, millis % 1000))
+}
+
 /// ZDT(y, m, d, h, M, s, Z) - create a zoned date time
 pub struct Zdt;
 
@@ -116,13 +129,13 @@ impl StgIntrinsic for Zdt {
             )
         };
 
-        if let (Some(yy), Some(mm), Some(dd), Some(hours), Some(mins), Some(secs)) = (
+        if let (Some(yy), Some(mm), Some(dd), Some(hours), Some(mins), Some((secs, millis))) = (
             y.as_i64(),
             m.as_u64(),
             d.as_u64(),
             hour.as_u64(),
             min.as_u64(),
-            sec.as_u64(),
+            seconds_and_millis(&sec),
         ) {
             let date = NaiveDate::from_ymd_opt(
                 yy.try_into().ok().ok_or_else(err)?,
@@ -131,10 +144,11 @@ impl StgIntrinsic for Zdt {
             )
             .ok_or_else(err)?;
 
-            let time = NaiveTime::from_hms_opt(
+            let time = NaiveTime::from_hms_milli_opt(
                 hours.try_into().ok().ok_or_else(err)?,
                 mins.try_into().ok().ok_or_else(err)?,
-                secs.try_into().ok().ok_or_else(err)?,
+                secs,
+                millis,
             )
             .ok_or_else(err)?;
 
-- 
2.43.0


From 72660517e4e272051265701c81aa23c1429fa95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 18/56] fix: a named time zone's offset is that of the date
 given

---
 src/eval/stg/time.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/eval/stg/time.rs b/src/eval/stg/time.rs
index cde8fb2..ca65a2e 100644
--- a/src/eval/stg/time.rs
+++ b/src/eval/stg/time.rs
@@ -3,7 +3,7 @@
 use std::convert::TryInto;
 
 use chrono::{
-    DateTime, Datelike, FixedOffset, LocalResult, NaiveDate, NaiveDateTime, NaiveTime, Offset,
+    DateTime, Datelike, FixedOffset, NaiveDate, NaiveDateTime, NaiveTime, Offset,
     TimeZone, Timelike, Utc,
 };
 use chrono_tz::Tz;
@@ -153,8 +153,17 @@ impl StgIntrinsic for Zdt {
             .ok_or_else(err)?;
 
             let datetime = NaiveDateTime::new(date, time);
-            let offset = offset_from_tz_str(smid, &tz)?;
-            if let LocalResult::Single(zdt) = offset.from_local_datetime(&datetime) {
+            // A named zone's offset depends on the date (and where clocks
+            // going back repeat a time, the earlier is meant)
+            let zdt = if let Ok(zone) = tz.parse::<Tz>() {
+                zone.from_local_datetime(&datetime)
+                    .earliest()
+                    .map(|zoned| zoned.fixed_offset())
+            } else {
+                let offset = offset_from_tz_str(smid, &tz)?;
+                offset.from_local_datetime(&datetime).single()
+            };
+            if let Some(zdt) = zdt {
                 machine_return_zdt(machine, view, zdt)
             } else {
                 Err(err())
-- 
2.43.0


From 7647597d71ebded9925b8f34540c9dd7ccb8b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 19/56] fix: integers beyond 2^53 are formatted exactly

---
 src/eval/stg/printf.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eval/stg/printf.rs b/src/eval/stg/printf.rs
index 659a7e6..c07e626 100644
--- a/src/eval/stg/printf.rs
+++ b/src/eval/stg/printf.rs
@@ -369,7 +369,12 @@ fn write_numeric(
                     }
                 },
                 _ => {
-                    if let Some(f) = num.as_f64() {
+                    // integers are written exactly, not by way of a double
+                    if let (Some(i), None) = (num.as_i64(), precision) {
+                        write_using!($flags, "", precision, i)
+                    } else if let (Some(u), None) = (num.as_u64(), precision) {
+                        write_using!($flags, "", precision, u)
+                    } else if let Some(f) = num.as_f64() {
                         write_using!($flags, "", precision, f)
                     } else {
                         Err(PrintfError::ConversionError)
-- 
2.43.0


From 66ae39b218a852cce2de9b8d3a26d1aa541b2f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 20/56] fix: formatting long strings and overlong widths no
 longer panics

---
 src/eval/stg/printf.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/eval/stg/printf.rs b/src/eval/stg/printf.rs
index c07e626..325571f 100644
--- a/src/eval/stg/printf.rs
+++ b/src/eval/stg/printf.rs
@@ -149,7 +149,11 @@ fn parse_width(mut sub: &[u8]) -> (usize, &[u8]) {
     while let Some(&ch) = sub.first() {
         match ch {
             // https://rust-malaysia.github.io/code/2020/07/11/faster-integer-parsing.html#the-bytes-solution
-            b'0'..=b'9' => width = width * 10 + (ch & 0x0f) as usize,
+            b'0'..=b'9' => {
+                width = width
+                    .saturating_mul(10)
+                    .saturating_add((ch & 0x0f) as usize)
+            }
             _ => break,
         }
         sub = next_char(sub);
@@ -217,6 +221,11 @@ fn parse_format(format: &str) -> Option<Argument> {
     let (flags, sub) = parse_flags(sub);
     let (width, sub) = parse_width(sub);
     let (precision, sub) = parse_precision(sub);
+    // formatting supports no wider fields
+    let limit = u16::MAX as usize;
+    if width > limit || precision.is_some_and(|p| p > limit) {
+        return None;
+    }
     let (length, sub) = parse_length(sub);
     let ch = sub.first().unwrap_or(&0);
 
@@ -282,11 +291,16 @@ fn write_str(
     precision: Option<usize>,
     string: &str,
 ) -> Result<(), PrintfError> {
-    let precision = precision.unwrap_or(string.len());
+    // a precision truncates; format arguments are limited to 16 bits, so
+    // none is given where none is asked for
+    let end = precision
+        .and_then(|p| string.char_indices().nth(p))
+        .map_or(string.len(), |(i, _)| i);
+    let string = &string[..end];
     if flags.contains(Flags::LEFT_ALIGN) {
-        write!(w, "{string:width$.precision$}").map_err(PrintfError::FmtError)
+        write!(w, "{string:width$}").map_err(PrintfError::FmtError)
     } else {
-        write!(w, "{string:>width$.precision$}").map_err(PrintfError::FmtError)
+        write!(w, "{string:>width$}").map_err(PrintfError::FmtError)
     }
 }
 
-- 
2.43.0


From 057a0eff1e1713b924aae60823889c7baf5e9fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 21/56] fix: str.starts-with? and ends-with? anchor every
 alternative of the regex

---
 lib/prelude.eu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/prelude.eu b/lib/prelude.eu
index b597d58..2009297 100644
--- a/lib/prelude.eu
+++ b/lib/prelude.eu
@@ -1144,11 +1144,11 @@ str: {
 
   ` { doc: "`starts-with?(re, s)` - true if string `s` starts with a match for regex `re`."
       type: s"string → string → bool" }
-  starts-with?(re, s): __STR_CONTAINS(["^", re] join-on(""), s)
+  starts-with?(re, s): __STR_CONTAINS(["^(?:", re, ")"] join-on(""), s)
 
   ` { doc: "`ends-with?(re, s)` - true if string `s` ends with a match for regex `re`."
       type: s"string → string → bool" }
-  ends-with?(re, s): __STR_CONTAINS([re, "$"] join-on(""), s)
+  ends-with?(re, s): __STR_CONTAINS(["(?:", re, ")$"] join-on(""), s)
 
   ` { doc: "`shell-escape(s)` - wrap string in single quotes for safe shell use. Embedded single quotes are escaped."
       type: s"string → string" }
-- 
2.43.0


From 210b651ceeec98f4d2d1815b7717ff17dfac4fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:17 +0000
Subject: [PATCH 22/56] fix: str.join accepts a computed separator

---
 src/eval/stg/string.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/eval/stg/string.rs b/src/eval/stg/string.rs
index a4523bc..a47c07d 100644
--- a/src/eval/stg/string.rs
+++ b/src/eval/stg/string.rs
@@ -154,10 +154,14 @@ impl StgIntrinsic for Join {
                 // [seqlist] [list sep]
                 unbox_str(
                     local(2),
-                    // [unbox-sep] [sl] [l] [s]
-                    let_(
-                        vec![value(call::bif::join(lref(1), lref(0)))],
-                        data(DataConstructor::BoxedString.tag(), vec![lref(0)]),
+                    // [sep-inner] [sl] [l] [s]
+                    force(
+                        local(0),
+                        // [sep-value] [sep-inner] [sl] [l] [s]
+                        let_(
+                            vec![value(call::bif::join(lref(2), lref(0)))],
+                            data(DataConstructor::BoxedString.tag(), vec![lref(0)]),
+                        ),
                     ),
                 ),
             ),
-- 
2.43.0


From cdc3223cfa7dde1e2448e013556b30422eb7e9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:17 +0000
Subject: [PATCH 23/56] fix: str.dq-escape doubles a backslash once

---
 lib/prelude.eu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/prelude.eu b/lib/prelude.eu
index 2009297..8c82919 100644
--- a/lib/prelude.eu
+++ b/lib/prelude.eu
@@ -1156,7 +1156,7 @@ str: {
 
   ` { doc: "dq-escape(s) - escape string for use inside double quotes in shell commands. Escapes backslash, dollar, backtick, and double quote."
       type: s"string → string" }
-  dq-escape(s): s replace(c"\\\\", c"\\\\\\\\") replace("[$]", c"\\$") replace("[`]", c"\\`") replace(ch.dq, [c"\\", ch.dq] join-on(""))
+  dq-escape(s): s replace(c"\\\\", c"\\\\") replace("[$]", c"\\$") replace("[`]", c"\\`") replace(ch.dq, [c"\\", ch.dq] join-on(""))
 }
 
 ##
-- 
2.43.0


From d19bef2eb1d2c8f1d46c9e9c9f2778d3e14ac6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 24/56] fix: an interpolation ends at its brace where an
 escaped brace follows

---
 src/syntax/rowan/string_lex.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/syntax/rowan/string_lex.rs b/src/syntax/rowan/string_lex.rs
index 96edbdd..37a8a69 100644
--- a/src/syntax/rowan/string_lex.rs
+++ b/src/syntax/rowan/string_lex.rs
@@ -150,15 +150,11 @@ impl<'text> Iterator for StringPatternLexer<'text> {
             }
             '}' => {
                 if self.in_interpolation {
-                    // Check for escaped }}
-                    if let Some(&'}') = self.peek() {
-                        Some(self.escaped_close(start))
-                    } else {
-                        // End interpolation
-                        self.in_interpolation = false;
-                        self.in_format_spec = false;
-                        Some((CLOSE_BRACE, self.make_span(start, self.position), "}"))
-                    }
+                    // End interpolation (even where another } follows: an
+                    // escape cannot begin inside an interpolation)
+                    self.in_interpolation = false;
+                    self.in_format_spec = false;
+                    Some((CLOSE_BRACE, self.make_span(start, self.position), "}"))
                 } else {
                     // Outside interpolation, check for escaped }}
                     if let Some(&'}') = self.peek() {
-- 
2.43.0


From 9ff6cc9711260e44af41b88b7119a06166747feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 25/56] fix: a c-string part may begin with a backslash escape

---
 src/syntax/rowan/string_lex.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/syntax/rowan/string_lex.rs b/src/syntax/rowan/string_lex.rs
index 37a8a69..2ff132b 100644
--- a/src/syntax/rowan/string_lex.rs
+++ b/src/syntax/rowan/string_lex.rs
@@ -362,6 +362,11 @@ impl<'text> Iterator for CStringPatternLexer<'text> {
                     Some(self.interpolation_content(start))
                 }
             }
+            '\\' => {
+                // A chunk may begin with an escape: consume the escaped char
+                self.bump();
+                Some(self.literal_content(start))
+            }
             _ => {
                 // Regular literal content (includes handling backslash escapes)
                 Some(self.literal_content(start))
-- 
2.43.0


From e319357eaf87b21a4459982ac141344544330a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:19 +0000
Subject: [PATCH 26/56] fix: datetimes can be converted to strings, formatted
 and interpolated

---
 src/eval/stg/string.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/eval/stg/string.rs b/src/eval/stg/string.rs
index a47c07d..8fcd77d 100644
--- a/src/eval/stg/string.rs
+++ b/src/eval/stg/string.rs
@@ -99,6 +99,10 @@ impl StgIntrinsic for Str {
                             DataConstructor::BoxedSymbol.tag(),
                             force(local(0), call::bif::str(lref(0))),
                         ),
+                        (
+                            DataConstructor::BoxedZdt.tag(),
+                            force(local(0), call::bif::str(lref(0))),
+                        ),
                         (DataConstructor::BoxedString.tag(), local(0)),
                         (DataConstructor::BoolFalse.tag(), atom(str("false"))),
                         (DataConstructor::BoolTrue.tag(), atom(str("true"))),
@@ -393,6 +397,15 @@ impl StgIntrinsic for Fmt {
                                 unbox_fmt_and_call(3, 0),
                             ),
                         ),
+                        (
+                            DataConstructor::BoxedZdt.tag(),
+                            // [z] [x fmtstring]
+                            force(
+                                local(0),
+                                // [z'] [z] [x fmtstring]
+                                unbox_fmt_and_call(3, 0),
+                            ),
+                        ),
                         (DataConstructor::BoolFalse.tag(), atom(str("false"))),
                         (DataConstructor::BoolTrue.tag(), atom(str("true"))),
                         (DataConstructor::Unit.tag(), atom(str("null"))),
-- 
2.43.0


From 7eeccbd286d51b2e0948b9c6252cc80367244fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 27/56] fix: a block of key-value lists renders as the block it
 is

An entry built as a two-element list (block([[k, v]])) was rendered
without checking that its value renders at all: a suppressed value left
its key behind, so every later key and value swapped places, and a
function value was an error where a declared one is omitted.
---
 src/eval/stg/render.rs | 58 ++++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/eval/stg/render.rs b/src/eval/stg/render.rs
index d8f5d30..f450d1a 100644
--- a/src/eval/stg/render.rs
+++ b/src/eval/stg/render.rs
@@ -408,18 +408,20 @@ impl StgIntrinsic for RenderKv {
     }
 
     fn wrapper(&self, _annotation: Smid) -> LambdaForm {
-        let value_renderable = lambda(
-            1,
-            letrec_(
-                // [saturated suppresses unsuppressed] [v]
-                vec![
-                    value(Saturated.global(lref(3))),
-                    value(demeta(local(3), Suppresses.global(lref(0)), f())),
-                    value(Not.global(lref(1))),
-                ],
-                And.global(lref(0), lref(2)),
-            ),
-        );
+        let value_renderable = || {
+            lambda(
+                1,
+                letrec_(
+                    // [saturated suppresses unsuppressed] [v]
+                    vec![
+                        value(Saturated.global(lref(3))),
+                        value(demeta(local(3), Suppresses.global(lref(0)), f())),
+                        value(Not.global(lref(1))),
+                    ],
+                    And.global(lref(0), lref(2)),
+                ),
+            )
+        };
 
         lambda(
             1, // [kv]
@@ -430,7 +432,7 @@ impl StgIntrinsic for RenderKv {
                         DataConstructor::BlockPair.tag(), // [k v] [kv]
                         switch(
                             let_(
-                                vec![value_renderable],
+                                vec![value_renderable()],
                                 // [v_r] [k v] [kv]
                                 app(lref(0), vec![lref(2)]),
                             ),
@@ -448,7 +450,35 @@ impl StgIntrinsic for RenderKv {
                     ),
                     (
                         DataConstructor::BlockKvList.tag(), // [cons] [kv]
-                        RenderItems.global(lref(0)),
+                        switch(
+                            local(0),
+                            vec![(
+                                DataConstructor::ListCons.tag(), // [k t] [cons] [kv]
+                                switch(
+                                    local(1),
+                                    vec![(
+                                        DataConstructor::ListCons.tag(), // [v t] [k t] [cons] [kv]
+                                        switch(
+                                            let_(
+                                                vec![value_renderable()],
+                                                // [v_r] [v t] [k t] [cons] [kv]
+                                                app(lref(0), vec![lref(1)]),
+                                            ),
+                                            vec![
+                                                (
+                                                    DataConstructor::BoolTrue.tag(),
+                                                    force(
+                                                        Render.global(lref(2)), // [()] [v t] [k t]
+                                                        Render.global(lref(1)),
+                                                    ),
+                                                ),
+                                                (DataConstructor::BoolFalse.tag(), unit()),
+                                            ],
+                                        ),
+                                    )],
+                                ),
+                            )],
+                        ),
                     ),
                 ],
                 unit(),
-- 
2.43.0


From af3b5874f3d45b07a8bee90e2004fed3f552dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 28/56] fix: eucalypt export writes text, names and numbers
 that read back

Strings were JSON-escaped in plain literals, which process no escapes and
interpolate at a brace; keys and symbols which are not identifiers were
written unquoted; and large floats with an exponent the lexer lacks.
---
 src/export/eu.rs | 61 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 6 deletions(-)

diff --git a/src/export/eu.rs b/src/export/eu.rs
index c0d2bca..7dc0782 100644
--- a/src/export/eu.rs
+++ b/src/export/eu.rs
@@ -7,6 +7,7 @@
 
 use crate::eval::emit::{Emitter, Event, Rejection, RenderMetadata};
 use crate::eval::primitive::Primitive;
+use crate::syntax::rowan::lex::is_normal_continuation;
 use pretty::RcDoc;
 use std::io::Write;
 
@@ -65,10 +66,58 @@ impl FromPairs<String, EuValue> for EuValue {
 
 /// Escape and quote a string as a eucalypt string literal.
 ///
-/// Eucalypt uses JSON-compatible string syntax, so we delegate to
-/// `serde_json` for correct escaping.
+/// A plain literal processes no escapes and a brace starts an interpolation,
+/// so anything a plain literal cannot hold verbatim is written as a c-string.
 fn eu_quote_str(s: &str) -> String {
-    serde_json::to_string(s).unwrap_or_else(|_| format!("{s:?}"))
+    if !s
+        .chars()
+        .any(|c| matches!(c, '"' | '\\' | '{' | '}') || c.is_control())
+    {
+        return format!("\"{s}\"");
+    }
+    let mut quoted = String::from("c\"");
+    for c in s.chars() {
+        match c {
+            '\n' => quoted.push_str("\\n"),
+            '\r' => quoted.push_str("\\r"),
+            '\t' => quoted.push_str("\\t"),
+            '"' | '\\' | '{' | '}' => {
+                quoted.push('\\');
+                quoted.push(c);
+            }
+            c if c.is_control() => quoted.push_str(&format!("\\u{:04x}", c as u32)),
+            c => quoted.push(c),
+        }
+    }
+    quoted.push('"');
+    quoted
+}
+
+/// Write a name — a block key or the text of a symbol — quoting it unless it
+/// is a normal identifier.
+fn eu_quote_name(s: &str) -> String {
+    let mut chars = s.chars();
+    if chars.next().is_some_and(char::is_alphabetic) && chars.all(is_normal_continuation) {
+        s.to_string()
+    } else {
+        format!("'{s}'")
+    }
+}
+
+/// Write a number as a eucalypt literal, which has no exponent.
+fn eu_number(n: &serde_json::Number) -> String {
+    let text = n.to_string();
+    match n.as_f64() {
+        Some(f) if text.contains(['e', 'E']) => {
+            let decimal = format!("{f}");
+            if decimal.contains('.') {
+                decimal
+            } else {
+                format!("{decimal}.0")
+            }
+        }
+        _ => text,
+    }
 }
 
 /// Convert an `EuValue` to a `pretty` document for rendering.
@@ -76,9 +125,9 @@ fn eu_to_doc(val: &EuValue) -> RcDoc<'static> {
     match val {
         EuValue::Null => RcDoc::text("null"),
         EuValue::Bool(b) => RcDoc::text(if *b { "true" } else { "false" }),
-        EuValue::Sym(s) => RcDoc::text(format!(":{s}")),
+        EuValue::Sym(s) => RcDoc::text(format!(":{}", eu_quote_name(s))),
         EuValue::Str(s) => RcDoc::text(eu_quote_str(s)),
-        EuValue::Num(n) => RcDoc::text(format!("{n}")),
+        EuValue::Num(n) => RcDoc::text(eu_number(n)),
         EuValue::ZonedDateTime(dt) => RcDoc::text(eu_quote_str(&format!("{dt}"))),
         EuValue::Array(items) => {
             if items.is_empty() {
@@ -98,7 +147,7 @@ fn eu_to_doc(val: &EuValue) -> RcDoc<'static> {
             let docs: Vec<RcDoc<'static>> = pairs
                 .iter()
                 .map(|(k, v)| {
-                    RcDoc::text(format!("{k}:"))
+                    RcDoc::text(format!("{}:", eu_quote_name(k)))
                         .append(RcDoc::space())
                         .append(eu_to_doc(v))
                 })
-- 
2.43.0


From ffd1d83729fc5895223e5fb6956044f2a2d1422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:53 +0000
Subject: [PATCH 29/56] fix: html export writes void elements without a closing
 tag

Elements were serialised outside the HTML namespace, so the serialiser
closed void elements (<br></br>, which browsers read as two breaks) and
escaped the text of style and script elements.
---
 src/export/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/export/html.rs b/src/export/html.rs
index dd8dfd8..0376cb4 100644
--- a/src/export/html.rs
+++ b/src/export/html.rs
@@ -18,7 +18,7 @@ impl Serialize for Element {
     where
         S: Serializer,
     {
-        let tag_name = QualName::new(None, ns!(), LocalName::from(self.tag()));
+        let tag_name = QualName::new(None, ns!(html), LocalName::from(self.tag()));
         let keys: Vec<_> = self
             .attrs()
             .iter()
-- 
2.43.0


From a2eaa66a3b5eee95036d905f5ac39722cde27eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:53 +0000
Subject: [PATCH 30/56] fix: edn export writes symbols that have no keyword as
 strings

A symbol with a space, quote, bracket or comma in its name was written
as a keyword that reads back as something else.
---
 src/export/edn.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/export/edn.rs b/src/export/edn.rs
index 022af00..033ca06 100644
--- a/src/export/edn.rs
+++ b/src/export/edn.rs
@@ -15,12 +15,30 @@ impl AsKey<Value> for Value {
     }
 }
 
+/// Whether `name` can be written as an EDN keyword
+fn is_keyword_name(name: &str) -> bool {
+    fn part(text: &str) -> bool {
+        !text.is_empty()
+            && !text.starts_with(':')
+            && text
+                .chars()
+                .all(|c| c.is_alphanumeric() || ".*+!-_?$%&=<>:".contains(c))
+    }
+    match name.split_once('/') {
+        Some((namespace, name)) => part(namespace) && part(name),
+        None => part(name),
+    }
+}
+
 impl FromPrimitive for Value {
     fn from_primitive(_metadata: RenderMetadata, primitive: &Primitive) -> Self {
         match primitive {
             Primitive::Null => Value::Nil,
             Primitive::Bool(b) => Value::Boolean(*b),
-            Primitive::Sym(s) => Value::Keyword(Keyword::from_name(s)),
+            Primitive::Sym(s) if is_keyword_name(s) => Value::Keyword(Keyword::from_name(s)),
+            // Not every name has a keyword: written as one, `:x y` would read
+            // back as a keyword and then a symbol.
+            Primitive::Sym(s) => Value::String(s.clone()),
             Primitive::Str(s) => Value::String(s.clone()),
             Primitive::Num(n) => {
                 if let Some(i) = n.as_i64() {
-- 
2.43.0


From e2d4de6b86726aa5809cc15400089dd0bb0970ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 31/56] fix: a tagged symbol or string computed by a call
 renders

The tagged branch of RENDER passed the box's content unevaluated to the
emit intrinsic, which failed with 'expected a primitive value'.
---
 src/eval/stg/render.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/eval/stg/render.rs b/src/eval/stg/render.rs
index f450d1a..b22ab42 100644
--- a/src/eval/stg/render.rs
+++ b/src/eval/stg/render.rs
@@ -57,6 +57,18 @@ impl StgIntrinsic for Render {
             ),
         );
 
+        // [tag] [content] with the content of either box not yet evaluated,
+        // as when the box was filled by a call
+        let emit_tagged = || {
+            force(
+                local(0), // [tag'] [tag] [content]
+                force(
+                    local(2), // [content'] [tag'] [tag] [content]
+                    force(call::bif::emit_tag_native(lref(1), lref(0)), unit()),
+                ),
+            )
+        };
+
         let render = lambda(
             1,
             letrec_(
@@ -73,7 +85,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tag] [num] [tagfn tag] [boxnum]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    emit_tagged(),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [num] [tagfn tag] [boxnum]
                             ),
@@ -84,7 +96,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tag] [sym] [tagfn tag] [boxsym]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    emit_tagged(),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [sym] [tagfn tag] [boxsym]
                             ),
@@ -95,7 +107,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tagstr] [str] [tagfn tag] [boxstr]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    emit_tagged(),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [str] [boxstr] [tagfn tag]
                             ),
@@ -106,7 +118,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tagstr] [str] [tagfn tag] [boxtd]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    emit_tagged(),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [str] [boxtd] [tagfn tag]
                             ),
@@ -117,7 +129,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tag] [zdt] [tagfn tag] [boxzdt]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    emit_tagged(),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [zdt] [tagfn tag] [boxzdt]
                             ),
-- 
2.43.0


From c3187378025cf20f444b0450bf3879d5d8316def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 32/56] fix: toml export writes arrays of mixed values inline

An array holding tables beside other values, or arrays of tables, was
written with a [[key]] header inside its brackets.
---
 src/export/toml.rs | 72 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 71 insertions(+), 1 deletion(-)

diff --git a/src/export/toml.rs b/src/export/toml.rs
index d3b1cd0..5e0afe5 100644
--- a/src/export/toml.rs
+++ b/src/export/toml.rs
@@ -119,6 +119,76 @@ impl FromPairs<String, Value> for Value {
     }
 }
 
+/// Whether `value` is an array which tables can't be written inside as
+/// `[[key]]` headers: one of mixed tables and other values, or of arrays
+/// which themselves hold tables.
+fn needs_inline(value: &Value) -> bool {
+    fn holds_table(value: &Value) -> bool {
+        match value {
+            Value::Table(_) => true,
+            Value::Array(items) => items.iter().any(holds_table),
+            _ => false,
+        }
+    }
+    match value {
+        Value::Array(items) if items.iter().all(Value::is_table) => items.iter().any(needs_inline),
+        Value::Array(items) => items.iter().any(holds_table),
+        Value::Table(entries) => entries.iter().any(|(_, v)| needs_inline(v)),
+        _ => false,
+    }
+}
+
+fn inline_key(key: &str) -> String {
+    let bare = |c: char| c.is_ascii_alphanumeric() || c == '-' || c == '_';
+    if !key.is_empty() && key.chars().all(bare) {
+        key.to_string()
+    } else {
+        Value::String(key.to_string()).to_string()
+    }
+}
+
+/// Write `value` on one line, with tables as inline tables.
+fn inline(value: &Value) -> String {
+    match value {
+        Value::Array(items) => {
+            let items: Vec<_> = items.iter().map(inline).collect();
+            format!("[{}]", items.join(", "))
+        }
+        Value::Table(entries) if entries.is_empty() => "{}".to_string(),
+        Value::Table(entries) => {
+            let entries: Vec<_> = entries
+                .iter()
+                .map(|(k, v)| format!("{} = {}", inline_key(k), inline(v)))
+                .collect();
+            format!("{{ {} }}", entries.join(", "))
+        }
+        scalar => scalar.to_string(),
+    }
+}
+
+/// The text of a TOML document for `value`.
+///
+/// The serialiser writes any table within an array under a `[[key]]`
+/// header, which for an array of anything but tables is not TOML. Such
+/// entries are written inline, ahead of the others' headers.
+fn document(value: Value) -> String {
+    match value {
+        Value::Table(entries) => {
+            let (inlined, rest): (Vec<_>, Vec<_>) =
+                entries.into_iter().partition(|(_, v)| needs_inline(v));
+            let mut text: String = inlined
+                .iter()
+                .map(|(k, v)| format!("{} = {}\n", inline_key(k), inline(v)))
+                .collect();
+            if !rest.is_empty() || inlined.is_empty() {
+                text.push_str(&Value::Table(rest.into_iter().collect()).to_string());
+            }
+            text
+        }
+        other => other.to_string(),
+    }
+}
+
 /// Currently basic TOML emitter (no tags yet) for bootstrapping
 pub struct TomlEmitter<'a> {
     accum: TableAccumulator<String, Value>,
@@ -150,7 +220,7 @@ impl Emitter for TomlEmitter<'_> {
     fn emit(&mut self, event: Event) -> Result<(), RenderError> {
         self.accum.consume(event);
         if let Some(result) = self.accum.result() {
-            writeln!(self.out, "{result}")?;
+            writeln!(self.out, "{}", document(result.clone()))?;
         }
         Ok(())
     }
-- 
2.43.0


From 66d5add2a59702c349bc452fa2cf34b4afb44f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 33/56] fix: inlining keeps the metadata of a binding used as a
 value

Bindings whose value is an intrinsic or a small function were substituted
for their names without their metadata, so that a suppressed 'x: true'
was rendered, and meta(f) of a documented function was empty. Only
applications are now expanded where the binding has metadata.
---
 src/core/inline/reduce.rs | 70 ++++++++++++++++++++++++++++++++-------
 1 file changed, 58 insertions(+), 12 deletions(-)

diff --git a/src/core/inline/reduce.rs b/src/core/inline/reduce.rs
index 4039908..804d2fb 100644
--- a/src/core/inline/reduce.rs
+++ b/src/core/inline/reduce.rs
@@ -118,6 +118,41 @@ fn peel_meta(expr: &RcExpr) -> RcExpr {
     }
 }
 
+/// A binding to substitute for its name
+#[derive(Clone)]
+struct Inline {
+    name: String,
+    /// The binding's value, less any metadata
+    value: RcExpr,
+    /// Whether the binding has metadata, which its uses as a value (other
+    /// than as the function of an application) must then still find
+    has_meta: bool,
+}
+
+/// Substitute `inlines` for their names throughout `expr`, leaving names of
+/// bindings with metadata wherever they aren't applied.
+fn substs_inlines(expr: &RcExpr, inlines: &[Inline]) -> RcExpr {
+    let find = |e: &RcExpr| match &*e.inner {
+        Expr::Var(_, Var::Free(name)) => inlines.iter().find(|i| i.name == *name),
+        _ => None,
+    };
+    match &*expr.inner {
+        Expr::Var(_, _) => match find(expr) {
+            Some(inline) if !inline.has_meta => inline.value.clone(),
+            _ => expr.clone(),
+        },
+        Expr::App(s, f, xs) => match find(f) {
+            Some(inline) => RcExpr::from(Expr::App(
+                *s,
+                inline.value.clone(),
+                xs.iter().map(|x| substs_inlines(x, inlines)).collect(),
+            )),
+            None => expr.try_walk(&|e: &RcExpr| substs_inlines(e, inlines)),
+        },
+        _ => expr.try_walk(&|e: &RcExpr| substs_inlines(e, inlines)),
+    }
+}
+
 /// Pre-expand a Let scope's inlinable bindings against each other, to a
 /// fixed point, before they are substituted into call sites.
 ///
@@ -143,19 +178,25 @@ fn peel_meta(expr: &RcExpr) -> RcExpr {
 /// Bounded to `inlines.len()` rounds: monotonic (each round can only
 /// resolve more references, never fewer), so this is enough for any DAG of
 /// dependencies among the scope's own inlinable members.
-fn pre_expand_inlines(mut inlines: Vec<(String, RcExpr)>) -> Vec<(String, RcExpr)> {
+fn pre_expand_inlines(mut inlines: Vec<Inline>) -> Vec<Inline> {
     for _ in 0..inlines.len() {
         let mut changed = false;
-        let next: Vec<(String, RcExpr)> = inlines
+        let next: Vec<Inline> = inlines
             .iter()
-            .map(|(name, v)| {
-                let siblings: Vec<(String, RcExpr)> =
-                    inlines.iter().filter(|(n, _)| n != name).cloned().collect();
-                let expanded = v.substs(&siblings);
-                if !expanded.ptr_eq(v) {
+            .map(|inline| {
+                let siblings: Vec<Inline> = inlines
+                    .iter()
+                    .filter(|i| i.name != inline.name)
+                    .cloned()
+                    .collect();
+                let expanded = substs_inlines(&inline.value, &siblings);
+                if !expanded.ptr_eq(&inline.value) {
                     changed = true;
                 }
-                (name.clone(), expanded)
+                Inline {
+                    value: expanded,
+                    ..inline.clone()
+                }
             })
             .collect();
         inlines = next;
@@ -180,11 +221,16 @@ fn distribute(expr: &RcExpr) -> Result<RcExpr, CoreError> {
             // — substituting the original `Meta`-wrapped value would leave
             // `beta_reduce`'s `Expr::Lam(_, true, scope)` match unable to see
             // through the wrapper at the call site.
-            let inlines: Vec<(String, RcExpr)> = open_bindings
+            // A use as a value keeps the name, and with it the metadata.
+            let inlines: Vec<Inline> = open_bindings
                 .iter()
                 .filter_map(|(name, v)| {
                     let peeled = peel_meta(v);
-                    inlinable(&peeled).then(|| (name.clone(), peeled))
+                    inlinable(&peeled).then(|| Inline {
+                        name: name.clone(),
+                        has_meta: matches!(&*v.inner, Expr::Meta(_, _, _)),
+                        value: peeled,
+                    })
                 })
                 .collect();
 
@@ -196,7 +242,7 @@ fn distribute(expr: &RcExpr) -> Result<RcExpr, CoreError> {
                 let bindings = open_bindings
                     .iter()
                     .map(|(name, v)| {
-                        let substituted = v.substs(&inlines);
+                        let substituted = substs_inlines(v, &inlines);
                         match distribute(&substituted) {
                             Ok(e) => Ok((name.clone(), e)),
                             Err(e) => Err(e),
@@ -204,7 +250,7 @@ fn distribute(expr: &RcExpr) -> Result<RcExpr, CoreError> {
                     })
                     .collect::<Result<Vec<(String, RcExpr)>, CoreError>>()?;
 
-                let new_body = distribute(&body.substs(&inlines))?;
+                let new_body = distribute(&substs_inlines(&body, &inlines))?;
 
                 Ok(RcExpr::from(Expr::Let(
                     *s,
-- 
2.43.0


From 388339e87020fa6e0a896b9445c920f387c8ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 34/56] fix: edn export writes symbols with a colon in them as
 strings

A colon within a keyword is not EDN, and our own reader refuses it.
---
 src/export/edn.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/export/edn.rs b/src/export/edn.rs
index 033ca06..7c2f411 100644
--- a/src/export/edn.rs
+++ b/src/export/edn.rs
@@ -19,10 +19,9 @@ impl AsKey<Value> for Value {
 fn is_keyword_name(name: &str) -> bool {
     fn part(text: &str) -> bool {
         !text.is_empty()
-            && !text.starts_with(':')
             && text
                 .chars()
-                .all(|c| c.is_alphanumeric() || ".*+!-_?$%&=<>:".contains(c))
+                .all(|c| c.is_alphanumeric() || ".*+!-_?$%&=<>".contains(c))
     }
     match name.split_once('/') {
         Some((namespace, name)) => part(namespace) && part(name),
-- 
2.43.0


From 1141de2aff27c80eff9c38de8ea7ae9c1142f761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 35/56] fix: html export keeps an element's contents or refuses
 them

Contents of an element without an attribute block were dropped, as were
blocks and lists out of place, all without an error. An attribute block
may now be left out, and what is not markup is refused.
---
 src/export/markup.rs | 63 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 61 insertions(+), 2 deletions(-)

diff --git a/src/export/markup.rs b/src/export/markup.rs
index a0b409b..d30d535 100644
--- a/src/export/markup.rs
+++ b/src/export/markup.rs
@@ -88,6 +88,14 @@ impl Expectation {
     pub fn feed_str(&mut self, value: String) {
         match self {
             Expectation::EmptyElement => *self = Expectation::TaggedElement(value),
+            // The attribute block may be left out
+            Expectation::TaggedElement(tag) => {
+                *self = Expectation::OpenElement(Element::new(
+                    tag.clone(),
+                    vec![],
+                    vec![Item::Content(value)],
+                ))
+            }
             Expectation::OpenElement(e) => e.content.push(Item::Content(value)),
             Expectation::EvenAttrAccumulation(attrs) => {
                 *self = Expectation::OddAttrAccumulation(attrs.clone(), value)
@@ -111,8 +119,16 @@ impl Expectation {
 
     /// Feed a child element to the current expectation
     pub fn feed_element(&mut self, element: Element) {
-        if let Expectation::OpenElement(e) = self {
-            e.content.push(Item::Element(element))
+        match self {
+            Expectation::OpenElement(e) => e.content.push(Item::Element(element)),
+            Expectation::TaggedElement(tag) => {
+                *self = Expectation::OpenElement(Element::new(
+                    tag.clone(),
+                    vec![],
+                    vec![Item::Element(element)],
+                ))
+            }
+            _ => {}
         }
     }
 }
@@ -164,6 +180,49 @@ where
                 "the value to render is a single scalar, but markup output \
                  needs a hiccup element — a list whose first item is the tag",
             )),
+            Event::OutputBlockStart(_)
+                if !matches!(self.stack.last(), Some(Expectation::TaggedElement(_))) =>
+            {
+                Some(markup_rejection(
+                    "a block is found where markup output expected contents; \
+                     an element has one attribute block, after its tag",
+                ))
+            }
+            Event::OutputSequenceStart(_)
+                if matches!(self.stack.last(), Some(Expectation::EmptyElement)) =>
+            {
+                Some(markup_rejection(
+                    "a list is found where markup output expected a tag",
+                ))
+            }
+            Event::OutputSequenceStart(_)
+                if matches!(
+                    self.stack.last(),
+                    Some(Expectation::EvenAttrAccumulation(_))
+                        | Some(Expectation::OddAttrAccumulation(_, _))
+                ) =>
+            {
+                Some(markup_rejection(
+                    "a list is found where markup output expected an attribute",
+                ))
+            }
+            Event::OutputScalar(_, prim)
+                if matches!(self.stack.last(), Some(Expectation::EmptyElement))
+                    && !matches!(prim, Primitive::Sym(_) | Primitive::Str(_)) =>
+            {
+                Some(markup_rejection(
+                    "the first item of a list is no name for a tag",
+                ))
+            }
+            Event::OutputSequenceEnd
+                if self.stack.len() == 1
+                    && matches!(self.stack.last(), Some(Expectation::EmptyElement)) =>
+            {
+                Some(markup_rejection(
+                    "the value to render is an empty list, but markup output \
+                     needs a hiccup element — a list whose first item is the tag",
+                ))
+            }
             // Guards for the two shapes that previously reached a panic!
             // inside `emit`. Both mean an attribute block was left open
             // where an element was expected.
-- 
2.43.0


From c609366533fe04a67ccf061fc05356b07d195de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:35 +0000
Subject: [PATCH 36/56] fix: random.int with a bound beyond 2^63 stays within
 [0,n)

---
 src/eval/stg/stream_prng.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval/stg/stream_prng.rs b/src/eval/stg/stream_prng.rs
index a01e362..d0899fb 100644
--- a/src/eval/stg/stream_prng.rs
+++ b/src/eval/stg/stream_prng.rs
@@ -103,7 +103,7 @@ fn machine_return_int_stream(
     int_val: u64,
     stream_state: u64,
 ) -> Result<(), ExecutionError> {
-    let num = machine.native_value(view, Native::Num(Number::from(int_val as i64)))?;
+    let num = machine.native_value(view, Native::Num(Number::from(int_val)))?;
     let boxed = machine.data_value(view, DataConstructor::BoxedNumber.tag(), &[num])?;
     let stream = machine.native_value(view, Native::Prng(stream_state))?;
     machine.return_closure_list(view, vec![boxed, stream])
-- 
2.43.0


From 7e0e338b6f5bd03c23816498f4ef1fb505c332f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:35 +0000
Subject: [PATCH 37/56] fix: vec.shuffle of an empty vec gives an empty vec

---
 lib/prelude.eu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/prelude.eu b/lib/prelude.eu
index 8c82919..c702b80 100644
--- a/lib/prelude.eu
+++ b/lib/prelude.eu
@@ -2076,7 +2076,7 @@ vec: {
   ` { doc: "`vec.shuffle(v)` - random monad action: return vec `v` in random order."
       type: s"vec → any → {..}" }
   shuffle(v, stream): {
-    needed: (v vec.len) - 1
+    needed: max(0, (v vec.len) - 1)
     floats: (stream random.as-list) take(needed)
     value: v shuffle-raw(floats)
     rest: stream-advance(needed, stream)
-- 
2.43.0


From d7834d6b34740dab6d6c1435af84d3bd6f2810e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 38/56] fix: an import is suppressed only where the names it
 binds are in scope

---
 src/core/desugar/desugarer.rs | 37 ++++++++++++++++++++++++++++++++++-
 src/core/desugar/rowan_ast.rs |  7 +++++++
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/core/desugar/desugarer.rs b/src/core/desugar/desugarer.rs
index ffc594a..bdba196 100644
--- a/src/core/desugar/desugarer.rs
+++ b/src/core/desugar/desugarer.rs
@@ -122,6 +122,14 @@ pub struct Desugarer<'smap> {
     named_import_depth: usize,
 }
 
+/// What the import guard had recorded on entry to a lexical scope, to be
+/// reinstated by [`Desugarer::leave_import_scope`] on leaving it.
+pub struct ImportScope {
+    seen_direct: HashSet<(usize, Option<String>)>,
+    seen_nested: HashSet<(usize, Option<String>)>,
+    first_direct: HashMap<usize, String>,
+}
+
 impl<'smap> Desugarer<'smap> {
     /// Construct a Desugarer from a SourceMap and the desugarable contents
     #[allow(clippy::redundant_closure)]
@@ -341,7 +349,10 @@ impl<'smap> Desugarer<'smap> {
                 }
             } else {
                 self.import_seen_direct.insert(guard_key);
-                // Record the first direct named import for Rule 3 alias resolution.
+                // Record the first direct named import for Rule 3 alias resolution,
+                // forgetting those whose name this import (may) bind afresh.
+                self.import_first_direct
+                    .retain(|_, name| import_name.as_ref().is_some_and(|new| new != name));
                 if let Some(ref name) = import_name {
                     self.import_first_direct
                         .entry(file_id)
@@ -380,6 +391,30 @@ impl<'smap> Desugarer<'smap> {
         }
     }
 
+    /// Enter a lexical scope which may have imports of its own (a
+    /// declaration or a block, as opposed to a unit).
+    ///
+    /// The import guard suppresses an import because the names it would
+    /// bind are in scope already, which holds only as long as that scope
+    /// lasts: once it is left, the imports it made are forgotten.
+    ///
+    /// Names which imports outside the scope were given are not aliased
+    /// inside it, where they may mean something else.
+    pub fn enter_import_scope(&mut self) -> ImportScope {
+        ImportScope {
+            seen_direct: self.import_seen_direct.clone(),
+            seen_nested: self.import_seen_nested.clone(),
+            first_direct: std::mem::take(&mut self.import_first_direct),
+        }
+    }
+
+    /// Leave a scope entered by [`Self::enter_import_scope`]
+    pub fn leave_import_scope(&mut self, scope: ImportScope) {
+        self.import_seen_direct = scope.seen_direct;
+        self.import_seen_nested = scope.seen_nested;
+        self.import_first_direct = scope.first_direct;
+    }
+
     /// Translate a chunk of parsed AST that has no imports
     pub fn translate_simple(
         &mut self,
diff --git a/src/core/desugar/rowan_ast.rs b/src/core/desugar/rowan_ast.rs
index 3dbc614..e109892 100644
--- a/src/core/desugar/rowan_ast.rs
+++ b/src/core/desugar/rowan_ast.rs
@@ -2647,8 +2647,12 @@ fn rowan_declaration_to_binding(
     }
 
     // Handle imports
+    //
+    // They wrap this declaration's body only (which is desugared already), so
+    // what they bring in is out of scope again once they are translated.
     let mut imports = Vec::new();
     if let Some(inputs) = metadata.imports {
+        let import_scope = desugarer.enter_import_scope();
         for input in inputs {
             let import_smid = desugarer.new_smid(components.span);
             // Propagate rather than panic (eu-mqlkv): see the note on the
@@ -2657,6 +2661,7 @@ fn rowan_declaration_to_binding(
                 imports.push(import_expr);
             }
         }
+        desugarer.leave_import_scope(import_scope);
     }
 
     // Register monad spec from BracketBlockDef body (new-style: ⟦{}⟧: { :monad bind: f return: r })
@@ -2833,6 +2838,7 @@ impl Desugarable for rowan_ast::Block {
         };
 
         // Handle imports
+        let import_scope = desugarer.enter_import_scope();
         let mut imports = Vec::new();
         if let Some(inputs) = block_meta.imports {
             let meta_smid = metadata.as_ref().unwrap().smid();
@@ -2929,6 +2935,7 @@ impl Desugarable for rowan_ast::Block {
 
         // Embed in imports if required
         expr = imports.iter().rfold(expr, |acc, import| import.rebody(acc));
+        desugarer.leave_import_scope(import_scope);
 
         desugarer.env_mut().pop();
         Ok(expr)
-- 
2.43.0


From 7af8eda24a1f95050f55654109697e263158a4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 39/56] fix: one file imported in two formats is read in each

---
 src/core/desugar/desugarer.rs | 29 +++++++++++++++++------------
 src/driver/source.rs          |  6 +++---
 src/syntax/import.rs          | 10 +++++-----
 3 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/core/desugar/desugarer.rs b/src/core/desugar/desugarer.rs
index bdba196..0274f8c 100644
--- a/src/core/desugar/desugarer.rs
+++ b/src/core/desugar/desugarer.rs
@@ -99,22 +99,22 @@ pub struct Desugarer<'smap> {
     /// suppressed if encountered again as a *nested* import (depth > 1), which
     /// is the classic diamond-dependency case.
     ///
-    /// The key is `(file_id, import_name)`.
-    import_seen_direct: HashSet<(usize, Option<String>)>,
+    /// The key is `(file_id, format, import_name)`.
+    import_seen_direct: HashSet<ImportKey>,
     /// Import guard — nested (transitive) imports (depth > 1).
     ///
     /// Files in this set are suppressed unconditionally on any subsequent
     /// encounter, whether direct or nested.  This handles the case where a
     /// transitive dependency is pulled in first and a later direct import of
     /// the same file would create a duplicate.
-    import_seen_nested: HashSet<(usize, Option<String>)>,
+    import_seen_nested: HashSet<ImportKey>,
     /// Rule 3 — alias table for same-file-different-name direct imports.
     ///
     /// When a file is imported directly (depth == 1) under a name for the
-    /// first time, its `(file_id → name)` is recorded here.  A subsequent
+    /// first time, its `((file_id, format) → name)` is recorded here.  A subsequent
     /// direct import of the same file under a *different* name emits an
     /// alias binding `let { new_name = old_name }` instead of re-desugaring.
-    import_first_direct: HashMap<usize, String>,
+    import_first_direct: HashMap<(usize, String), String>,
     /// Nesting depth of named imports.  Incremented when entering a named
     /// import (`a=a.eu`), decremented on exit.  When > 0, transitive
     /// imports are "namespaced" — their bindings won't be visible at the
@@ -122,12 +122,16 @@ pub struct Desugarer<'smap> {
     named_import_depth: usize,
 }
 
+/// What identifies an import to the import guard: the file, the format it is
+/// read as and the name it is imported under
+type ImportKey = (usize, String, Option<String>);
+
 /// What the import guard had recorded on entry to a lexical scope, to be
 /// reinstated by [`Desugarer::leave_import_scope`] on leaving it.
 pub struct ImportScope {
-    seen_direct: HashSet<(usize, Option<String>)>,
-    seen_nested: HashSet<(usize, Option<String>)>,
-    first_direct: HashMap<usize, String>,
+    seen_direct: HashSet<ImportKey>,
+    seen_nested: HashSet<ImportKey>,
+    first_direct: HashMap<(usize, String), String>,
 }
 
 impl<'smap> Desugarer<'smap> {
@@ -301,13 +305,14 @@ impl<'smap> Desugarer<'smap> {
         let source_lookup = self.contents.get(&import).or_else(|| {
             self.contents
                 .iter()
-                .find(|(k, _)| k.locator() == import.locator())
+                .find(|(k, _)| k.locator() == import.locator() && k.format() == import.format())
                 .map(|(_, v)| v)
         });
         if let Some(source) = source_lookup {
             let file_id = source.file_id();
             let import_name = import.name().clone();
-            let guard_key = (file_id, import_name.clone());
+            let content_key = (file_id, import.format().to_string());
+            let guard_key = (file_id, import.format().to_string(), import_name.clone());
 
             // `file.len()` is the current nesting depth:
             //   1 = direct import from the top-level unit
@@ -319,7 +324,7 @@ impl<'smap> Desugarer<'smap> {
             // This avoids duplicating content and prevents nested imports from
             // being incorrectly suppressed on the second pass.
             if !is_nested {
-                if let Some(first_name) = self.import_first_direct.get(&file_id).cloned() {
+                if let Some(first_name) = self.import_first_direct.get(&content_key).cloned() {
                     if let Some(new_name) = &import_name {
                         if &first_name != new_name {
                             let alias_rhs =
@@ -355,7 +360,7 @@ impl<'smap> Desugarer<'smap> {
                     .retain(|_, name| import_name.as_ref().is_some_and(|new| new != name));
                 if let Some(ref name) = import_name {
                     self.import_first_direct
-                        .entry(file_id)
+                        .entry(content_key)
                         .or_insert_with(|| name.clone());
                 }
             }
diff --git a/src/driver/source.rs b/src/driver/source.rs
index 18d2bb7..9922759 100644
--- a/src/driver/source.rs
+++ b/src/driver/source.rs
@@ -800,11 +800,11 @@ impl SourceLoader {
 
         for input in inputs {
             if let Some(file_id) = self.locators.get(input.locator()) {
-                if let Some(ast) = self.asts.get(file_id) {
-                    desugarables.insert(input.clone(), Content::new(*file_id, ast));
-                } else if let Some(core_expr) = self.cores.get(input) {
+                if let Some(core_expr) = self.cores.get(input) {
                     // Include core expressions (from non-eucalypt file formats) in desugarables
                     desugarables.insert(input.clone(), Content::new(*file_id, core_expr));
+                } else if let Some(ast) = self.asts.get(file_id) {
+                    desugarables.insert(input.clone(), Content::new(*file_id, ast));
                 }
             }
         }
diff --git a/src/syntax/import.rs b/src/syntax/import.rs
index 33ad3dc..8127798 100644
--- a/src/syntax/import.rs
+++ b/src/syntax/import.rs
@@ -104,12 +104,12 @@ impl ImportGraph {
     /// Find the node index for the specified input by locator identity.
     ///
     /// Two inputs with the same locator (file path / URL) but different names
-    /// are treated as the same graph node — the locator is the stable identity
-    /// after resolution.
+    /// are treated as the same graph node — the locator, and the format which
+    /// the content is read as, are the stable identity after resolution.
     fn find_index(&self, input: &Input) -> Option<NodeIndex> {
-        self.graph
-            .node_indices()
-            .find(|&i| self.graph[i].locator() == input.locator())
+        self.graph.node_indices().find(|&i| {
+            self.graph[i].locator() == input.locator() && self.graph[i].format() == input.format()
+        })
     }
 
     /// Add an input to the graph if it isn't already there and return
-- 
2.43.0


From 13e728f84ed9afc8864a2ca5136f3249f02c7aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:12 +0000
Subject: [PATCH 40/56] fix: an import path means a file beside the importing
 file first

---
 src/core/desugar/desugarer.rs | 28 +++++++++++
 src/driver/source.rs          | 92 ++++++++++++++++++++++++++---------
 2 files changed, 98 insertions(+), 22 deletions(-)

diff --git a/src/core/desugar/desugarer.rs b/src/core/desugar/desugarer.rs
index 0274f8c..9d01f1b 100644
--- a/src/core/desugar/desugarer.rs
+++ b/src/core/desugar/desugarer.rs
@@ -120,6 +120,9 @@ pub struct Desugarer<'smap> {
     /// imports are "namespaced" — their bindings won't be visible at the
     /// top level, so they must not suppress later unnamed encounters.
     named_import_depth: usize,
+    /// Imports whose path means something particular to the file that has
+    /// them: `(importing file, locator as written) → locator of the content`
+    resolved_imports: Option<&'smap HashMap<(usize, Locator), Locator>>,
 }
 
 /// What identifies an import to the import guard: the file, the format it is
@@ -160,9 +163,19 @@ impl<'smap> Desugarer<'smap> {
             import_seen_nested: HashSet::new(),
             import_first_direct: HashMap::new(),
             named_import_depth: 0,
+            resolved_imports: None,
         }
     }
 
+    /// Use these resolutions of the imports in the contents
+    pub fn with_resolved_imports(
+        mut self,
+        resolved: &'smap HashMap<(usize, Locator), Locator>,
+    ) -> Self {
+        self.resolved_imports = Some(resolved);
+        self
+    }
+
     /// Register a monad spec for a bracket pair.
     ///
     /// Called when a bracket pair declaration with `bind` and `return` metadata
@@ -269,6 +282,19 @@ impl<'smap> Desugarer<'smap> {
         }
     }
 
+    /// The import as the file being translated means it
+    fn resolve_import(&self, import: Input) -> Input {
+        let importer = self.file.last().copied();
+        match self
+            .resolved_imports
+            .zip(importer)
+            .and_then(|(resolved, id)| resolved.get(&(id, import.locator().clone())))
+        {
+            Some(locator) => Input::new(locator.clone(), import.name().clone(), import.format()),
+            None => import,
+        }
+    }
+
     /// Used during translation to switch context and desugar an
     /// import.
     ///
@@ -298,6 +324,8 @@ impl<'smap> Desugarer<'smap> {
         smid: Smid,
         import: Input,
     ) -> Result<Option<RcExpr>, CoreError> {
+        let import = self.resolve_import(import);
+
         // Look up content by exact Input key, falling back to locator match.
         // The fallback is needed when the same file is imported under multiple
         // names (eu-v0t6): the ImportGraph deduplicates by locator, so only the
diff --git a/src/driver/source.rs b/src/driver/source.rs
index 9922759..b376fb1 100644
--- a/src/driver/source.rs
+++ b/src/driver/source.rs
@@ -148,6 +148,11 @@ pub struct SourceLoader {
     source_map: SourceMap,
     /// Paths to search for FS resources
     lib_path: Vec<PathBuf>,
+    /// Directories of the files whose imports are being loaded
+    import_dirs: Vec<PathBuf>,
+    /// Relative imports which the global lib path does not lead to, by the
+    /// file that has them and the locator it writes: where they resolve to
+    resolved_imports: HashMap<(usize, Locator), Locator>,
     /// Command-line arguments passed after -- separator (for __ARGS)
     args: Vec<String>,
     /// Seed for random number generation
@@ -194,7 +199,7 @@ pub struct SourceLoader {
     git_context: HashMap<PathBuf, GitContext>,
     /// The git context active while loading the transitive imports of the
     /// file currently being processed by `load_tree`, if any. Saved and
-    /// restored around that file's import loop, exactly like `lib_path`'s
+    /// restored around that file's import loop, exactly like `import_dirs`'
     /// push/pop of the importing file's directory — see [`GitContext`].
     #[cfg(not(target_arch = "wasm32"))]
     current_git_context: Option<GitContext>,
@@ -213,6 +218,8 @@ impl Default for SourceLoader {
             core: TranslationUnit::default(),
             source_map: SourceMap::new(),
             lib_path: Vec::new(),
+            import_dirs: Vec::new(),
+            resolved_imports: HashMap::new(),
             args: Vec::new(),
             seed: None,
             deterministic_io: false,
@@ -244,6 +251,8 @@ impl SourceLoader {
             core: TranslationUnit::default(),
             source_map: SourceMap::new(),
             lib_path,
+            import_dirs: Vec::new(),
+            resolved_imports: HashMap::new(),
             args: Vec::new(),
             seed: None,
             deterministic_io: false,
@@ -503,16 +512,11 @@ impl SourceLoader {
     ) -> Result<usize, EucalyptError> {
         let file_id = self.load_eucalypt(content_locator)?;
 
-        // Implement import analysis for Rowan AST
-        let ast = self.asts.get(&file_id).expect("AST was just loaded");
-        let inputs = self.imports.analyse_rowan_ast(graph_input.clone(), ast)?;
-        self.imports.check_for_cycles()?;
-
         // If this file was itself fetched from a git repository, set up its
         // `GitContext` for the duration of loading its transitive imports —
         // `load()` consults `current_git_context` to redirect plain
         // relative `Locator::Fs` imports to the git cache instead of the
-        // local filesystem. Saved and restored exactly like the `lib_path`
+        // local filesystem. Saved and restored exactly like the `import_dirs`
         // push/pop below. (`driver::source` is excluded entirely from
         // wasm32 builds — see `driver::mod` — so no wasm32 fallback is
         // needed here.)
@@ -528,28 +532,71 @@ impl SourceLoader {
         // Resolve imports relative to the importing file's directory.
         //
         // When a file at `dir/foo.eu` imports `sub/bar.eu`, the path
-        // `sub/bar.eu` should be resolved relative to `dir/` in addition
-        // to the global lib_path. We achieve this by temporarily extending
-        // the lib_path with the importing file's directory whilst loading
-        // its transitive imports.
+        // `sub/bar.eu` should be resolved relative to `dir/` in preference
+        // to the global lib_path.
         let import_dir = self.find_source_dir(content_locator);
-        if let Some(dir) = import_dir {
-            self.lib_path.push(dir);
-            for import_input in inputs {
-                self.load(&import_input)?;
-            }
-            self.lib_path.pop();
-        } else {
-            for import_input in inputs {
-                self.load(&import_input)?;
-            }
+
+        // Implement import analysis for Rowan AST
+        let ast = self.asts.get(&file_id).expect("AST was just loaded");
+        let mut inputs = ImportGraph::scrape_rowan_ast_imports(ast)?;
+        if self.current_git_context.is_none() {
+            inputs = inputs
+                .into_iter()
+                .map(|i| self.resolve_import(file_id, import_dir.as_deref(), i))
+                .collect();
         }
+        let inputs = self.imports.register_imports(graph_input.clone(), inputs)?;
+        self.imports.check_for_cycles()?;
+
+        let import_depth = self.import_dirs.len();
+        self.import_dirs.extend(import_dir);
+        for import_input in inputs {
+            self.load(&import_input)?;
+        }
+        self.import_dirs.truncate(import_depth);
 
         self.current_git_context = saved_git_context;
 
         Ok(file_id)
     }
 
+    /// Resolve an import of the file `file_id`, which lives in `dir`.
+    ///
+    /// A relative path leads to a file in the importing file's directory if
+    /// there is one, then to whatever the global lib path offers, then to a
+    /// file in the directory of one of the files importing this one. Only in
+    /// the second case does the path alone say which file is meant: otherwise
+    /// the result has an absolute path, and is recorded for desugaring, which
+    /// reads the import again from the source text.
+    fn resolve_import(&mut self, file_id: usize, dir: Option<&Path>, input: Input) -> Input {
+        let path = match input.locator() {
+            Locator::Fs(path) if path.is_relative() => path.clone(),
+            _ => return input,
+        };
+        let existing = |p: PathBuf| Some(p).filter(|p| p.is_file());
+        let find = |dirs: &[PathBuf]| dirs.iter().find_map(|d| existing(d.join(&path)));
+        let canonical = |p: PathBuf| fs::canonicalize(&p).unwrap_or(p);
+
+        let global = find(&self.lib_path)
+            .or_else(|| existing(path.clone()))
+            .map(canonical);
+        let found = dir
+            .and_then(|d| existing(d.join(&path)))
+            .map(canonical)
+            .or_else(|| global.clone())
+            .or_else(|| find(&self.import_dirs).map(canonical));
+
+        match found {
+            Some(found) if Some(&found) != global.as_ref() => {
+                let locator = Locator::Fs(found);
+                self.resolved_imports
+                    .insert((file_id, input.locator().clone()), locator.clone());
+                Input::new(locator, input.name().clone(), input.format())
+            }
+            _ => input,
+        }
+    }
+
     /// Find the directory containing the source file identified by `locator`,
     /// searching the lib_path. Returns `None` for non-filesystem locators.
     fn find_source_dir(&self, locator: &Locator) -> Option<PathBuf> {
@@ -812,7 +859,8 @@ impl SourceLoader {
         // Desugar all the content starting from the input specified.
         // Seed the desugarer with the persisted monad namespace registry
         // so that `-e` expressions see `monad: true` from the prelude.
-        let mut desugarer = Desugarer::new(&desugarables, &mut self.source_map);
+        let mut desugarer = Desugarer::new(&desugarables, &mut self.source_map)
+            .with_resolved_imports(&self.resolved_imports);
         self.unit_interface
             .seed_desugarer_monad_registries(&mut desugarer);
         let unit = desugarer.translate_unit(input)?;
-- 
2.43.0


From 1c906a37f83754f17e1bb5ddd7f796fbc8b15a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:12 +0000
Subject: [PATCH 41/56] fix: an operator with an import of its own stays an
 operator

---
 src/core/desugar/rowan_ast.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/desugar/rowan_ast.rs b/src/core/desugar/rowan_ast.rs
index e109892..b520f6c 100644
--- a/src/core/desugar/rowan_ast.rs
+++ b/src/core/desugar/rowan_ast.rs
@@ -2772,8 +2772,10 @@ fn rowan_declaration_to_binding(
         );
     }
 
-    // Wrap in operator if this is an operator declaration
+    // Wrap in operator if this is an operator declaration. The operator has
+    // to stay in view for fixity resolution, so imports go inside it.
     if components.is_operator {
+        expr = imports.drain(..).rfold(expr, |acc, import| import.rebody(acc));
         expr = RcExpr::from(Expr::Operator(
             desugarer.new_smid(components.span),
             components
-- 
2.43.0


From fc2428304199174817eb062ecc8c833b6ed78111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:13 +0000
Subject: [PATCH 42/56] fix: an internal name of an imported unit hides no
 other name

---
 src/core/desugar/desugarer.rs |  4 ++++
 src/core/expr.rs              | 28 ++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/core/desugar/desugarer.rs b/src/core/desugar/desugarer.rs
index 9d01f1b..decc410 100644
--- a/src/core/desugar/desugarer.rs
+++ b/src/core/desugar/desugarer.rs
@@ -412,6 +412,10 @@ impl<'smap> Desugarer<'smap> {
             let newly_added = self.targets.difference(&targets_before).cloned();
             self.imported_targets.extend(newly_added);
 
+            // The importer cannot see internal bindings, so its names mean
+            // whatever they would without them.
+            expr = hide_internal_bindings(&expr);
+
             if let Some(name) = import.name() {
                 self.named_import_depth -= 1;
                 expr = expr.apply_name(smid, name);
diff --git a/src/core/expr.rs b/src/core/expr.rs
index 1b79e8a..884bb74 100644
--- a/src/core/expr.rs
+++ b/src/core/expr.rs
@@ -1764,6 +1764,34 @@ pub fn mask_internal_free_vars(internal_names: &[String], expr: &RcExpr) -> RcEx
     })
 }
 
+/// Rename the internal bindings of a unit (see [`has_internal_export`]) to
+/// names that cannot appear in user source, so that nothing in a body merged
+/// into the unit can refer to them, nor be taken to.
+pub fn hide_internal_bindings(expr: &RcExpr) -> RcExpr {
+    match &*expr.inner {
+        Expr::Let(smid, scope, let_type) => {
+            let mut pattern = scope.pattern.clone();
+            for b in &mut pattern {
+                if has_internal_export(&b.expr) && !b.name.starts_with(INTERNAL_FREE_VAR_PREFIX) {
+                    b.name = format!("{}{}", INTERNAL_FREE_VAR_PREFIX, b.name);
+                }
+            }
+            RcExpr::from(Expr::Let(
+                *smid,
+                Scope {
+                    pattern,
+                    body: hide_internal_bindings(&scope.body),
+                },
+                *let_type,
+            ))
+        }
+        Expr::Meta(smid, e, m) => {
+            RcExpr::from(Expr::Meta(*smid, hide_internal_bindings(e), m.clone()))
+        }
+        _ => expr.clone(),
+    }
+}
+
 /// Collect all free variable names in an expression.
 pub fn free_vars(expr: &RcExpr) -> std::collections::HashSet<String> {
     let mut result = std::collections::HashSet::new();
-- 
2.43.0


From 36a8a9b9907456f7043749d37094e4c1a12b1c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:13 +0000
Subject: [PATCH 43/56] fix: unnamed imports of toml and edn bring their keys
 into scope

---
 src/driver/source.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/driver/source.rs b/src/driver/source.rs
index b376fb1..d6932ed 100644
--- a/src/driver/source.rs
+++ b/src/driver/source.rs
@@ -433,6 +433,18 @@ impl SourceLoader {
             file_id,
         )
         .map_err(|e| EucalyptError::Source(Box::new(e)))?;
+        // The keys of a block are the names it brings into scope, whichever
+        // format it comes from.
+        let core = match &*core.inner {
+            Expr::Block(smid, entries) => crate::core::expr::core::default_let(
+                *smid,
+                entries
+                    .iter()
+                    .map(|(k, v)| (k.clone(), v.clone()))
+                    .collect(),
+            ),
+            _ => core,
+        };
         self.imports.add_leaf(input.clone())?;
         self.cores.insert(input.clone(), core);
         Ok(file_id)
-- 
2.43.0


From 885b5cec3d833c57c114cab39e0f64a560d3612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:23 +0000
Subject: [PATCH 44/56] fix: leave no unused import and no unreachable arm
 behind

---
 src/eval/stg/string.rs | 1 -
 src/export/markup.rs   | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/eval/stg/string.rs b/src/eval/stg/string.rs
index 8fcd77d..f1e6c24 100644
--- a/src/eval/stg/string.rs
+++ b/src/eval/stg/string.rs
@@ -31,7 +31,6 @@ use super::{
 };
 
 use regex::Regex;
-use serde_json::Number;
 
 /// Get (or store and get) regex from machine rcache
 ///
diff --git a/src/export/markup.rs b/src/export/markup.rs
index d30d535..169ea02 100644
--- a/src/export/markup.rs
+++ b/src/export/markup.rs
@@ -106,7 +106,6 @@ impl Expectation {
                     Expectation::EvenAttrAccumulation(attrs.to_vec())
                 }
             }
-            _ => {}
         }
     }
 
-- 
2.43.0


From 3766f1cb3cc4746fc3d2f67601c6b54388f1eb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:32 +0000
Subject: [PATCH 45/56] fix: a declaration without a body or a head of trivia
 keeps the parser's token accounts

---
 src/syntax/rowan/parse.rs | 70 +++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 29 deletions(-)

diff --git a/src/syntax/rowan/parse.rs b/src/syntax/rowan/parse.rs
index f0368f9..2abf34f 100644
--- a/src/syntax/rowan/parse.rs
+++ b/src/syntax/rowan/parse.rs
@@ -84,7 +84,11 @@ impl<'text> Parser<'text> {
         for (_, s) in &self.tokens[0..self.next_token] {
             ch += TextSize::of(*s);
         }
-        TextRange::at(ch, TextSize::of(self.tokens[self.next_token].1))
+        // at the end of the text there is no token left
+        let len = self
+            .peek()
+            .map_or_else(TextSize::default, |(_, text)| TextSize::of(text));
+        TextRange::at(ch, len)
     }
 
     /// Calculate a text range covering the last consumed token and the next token.
@@ -1218,18 +1222,18 @@ impl EventSink for BlockEventSink {
         if self.depth == 0 {
             match kind {
                 BACKTICK => {
-                    if !self.buffer.is_empty() {
-                        match self.declaration {
-                            Some(ref mut d) => {
-                                swap(&mut d.body, &mut self.buffer);
-                                self.commit_declaration();
-                                self.decl_start_offset = None;
-                            }
-                            None => {
-                                swap(&mut self.block_meta, &mut self.buffer);
-                                self.commit_meta();
-                            }
+                    match self.declaration {
+                        Some(ref mut d) => {
+                            // a declaration may end here without a body
+                            swap(&mut d.body, &mut self.buffer);
+                            self.commit_declaration();
+                            self.decl_start_offset = None;
+                        }
+                        None if !self.buffer.is_empty() => {
+                            swap(&mut self.block_meta, &mut self.buffer);
+                            self.commit_meta();
                         }
+                        None => {}
                     }
                     self.declaration = Some(PendingDeclaration {
                         meta: Some(vec![]), // expect meta
@@ -1245,25 +1249,25 @@ impl EventSink for BlockEventSink {
                 COLON => {
                     let mut head_nodes = self.split_off_head();
 
-                    if !self.buffer.is_empty() {
-                        match self.declaration {
-                            Some(ref mut d) => {
-                                // if meta is set and empty it is
-                                // expecting metadata
-                                if d.meta.as_ref().is_some_and(|m| m.is_empty()) {
-                                    swap(d.meta.as_mut().unwrap(), &mut self.buffer);
-                                } else {
-                                    // expecting body of last block
-                                    swap(&mut d.body, &mut self.buffer);
-                                    self.commit_declaration();
-                                    self.decl_start_offset = None;
-                                }
-                            }
-                            None => {
-                                swap(&mut self.block_meta, &mut self.buffer);
-                                self.commit_meta();
+                    match self.declaration {
+                        Some(ref mut d) => {
+                            // if meta is set and empty it is
+                            // expecting metadata
+                            if d.meta.as_ref().is_some_and(|m| m.is_empty()) {
+                                swap(d.meta.as_mut().unwrap(), &mut self.buffer);
+                            } else {
+                                // expecting body of last block (which may
+                                // be missing)
+                                swap(&mut d.body, &mut self.buffer);
+                                self.commit_declaration();
+                                self.decl_start_offset = None;
                             }
                         }
+                        None if !self.buffer.is_empty() => {
+                            swap(&mut self.block_meta, &mut self.buffer);
+                            self.commit_meta();
+                        }
+                        None => {}
                     }
 
                     // If we have empty head but we have a declaration with metadata,
@@ -1521,6 +1525,14 @@ impl BlockEventSink {
                 _ => {}
             }
         }
+
+        // space and comments alone are no head
+        if self.buffer[idx..]
+            .iter()
+            .all(|e| matches!(e, ParseEvent::Token(k) if k.is_trivial()))
+        {
+            return vec![];
+        }
         self.buffer.split_off(idx)
     }
 
-- 
2.43.0


From 12466fa3d0ff5db6d516409582ec692040927e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:32 +0000
Subject: [PATCH 46/56] fix: white space inside a string interpolation stays in
 the syntax tree

---
 src/syntax/rowan/parse.rs      | 13 ++++++++++++-
 src/syntax/rowan/string_lex.rs | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/syntax/rowan/parse.rs b/src/syntax/rowan/parse.rs
index 2abf34f..a27811d 100644
--- a/src/syntax/rowan/parse.rs
+++ b/src/syntax/rowan/parse.rs
@@ -1014,8 +1014,11 @@ impl<'text> Parser<'text> {
                     self.sink().finish_node(); // end STRING_INTERPOLATION
                 }
                 _ => {
-                    // Unexpected token - consume and continue
+                    // Unexpected token - keep its text and continue
                     self.next();
+                    self.sink().start_node(ERROR_STOWAWAYS);
+                    self.sink().token(kind, tok_len);
+                    self.sink().finish_node();
                 }
             }
         }
@@ -1033,6 +1036,7 @@ impl<'text> Parser<'text> {
             .take_while(|(kind, _)| *kind != CLOSE_BRACE && *kind != COLON)
             .any(|(kind, _)| *kind == OPERATOR_IDENTIFIER);
 
+        self.add_trivia();
         if has_dots {
             // Create a soup to hold the interpolation expression
             self.sink().start_node(SOUP);
@@ -1047,6 +1051,7 @@ impl<'text> Parser<'text> {
             }
 
             // Parse alternating dots and targets
+            self.add_trivia();
             while let Some((OPERATOR_IDENTIFIER, text)) = self.peek() {
                 if text == "." {
                     let dot_len = TextSize::of(text);
@@ -1055,6 +1060,7 @@ impl<'text> Parser<'text> {
                     self.sink().start_node(NAME);
                     self.sink().token(OPERATOR_IDENTIFIER, dot_len);
                     self.sink().finish_node(); // end NAME
+                    self.add_trivia();
 
                     // Parse the following target
                     if let Some((STRING_INTERPOLATION_TARGET, tgt_text)) = self.peek() {
@@ -1063,6 +1069,7 @@ impl<'text> Parser<'text> {
                         self.sink().start_node(NAME);
                         self.sink().token(STRING_INTERPOLATION_TARGET, tgt_len);
                         self.sink().finish_node(); // end NAME
+                        self.add_trivia();
                     } else {
                         // Malformed - dot without following target
                         break;
@@ -1084,11 +1091,14 @@ impl<'text> Parser<'text> {
             }
         }
 
+        self.add_trivia();
+
         // Check for format spec (colon followed by format)
         if let Some((COLON, colon_text)) = self.peek() {
             let colon_len = TextSize::of(colon_text);
             self.next(); // consume :
             self.sink().token(COLON, colon_len);
+            self.add_trivia();
 
             if let Some((STRING_FORMAT_SPEC, spec_text)) = self.peek() {
                 let spec_len = TextSize::of(spec_text);
@@ -1097,6 +1107,7 @@ impl<'text> Parser<'text> {
                 self.sink().token(STRING_FORMAT_SPEC, spec_len);
                 self.sink().finish_node();
             }
+            self.add_trivia();
         }
     }
 }
diff --git a/src/syntax/rowan/string_lex.rs b/src/syntax/rowan/string_lex.rs
index 2ff132b..98c7250 100644
--- a/src/syntax/rowan/string_lex.rs
+++ b/src/syntax/rowan/string_lex.rs
@@ -129,9 +129,13 @@ impl<'text> Iterator for StringPatternLexer<'text> {
     type Item = (SyntaxKind, Span, &'text str);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Skip whitespace in interpolation contexts but preserve in literals
+        // Inside an interpolation whitespace is a token of its own
         if self.in_interpolation {
-            self.skip_whitespace();
+            let start = self.position;
+            if self.skip_whitespace() {
+                let end = self.position;
+                return Some((WHITESPACE, self.make_span(start, end), self.slice(start, end)));
+            }
         }
 
         let (start, ch) = self.bump()?;
@@ -320,9 +324,13 @@ impl<'text> Iterator for CStringPatternLexer<'text> {
     type Item = (SyntaxKind, Span, &'text str);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Skip whitespace in interpolation contexts but preserve in literals
+        // Inside an interpolation whitespace is a token of its own
         if self.in_interpolation {
-            self.skip_whitespace();
+            let start = self.position;
+            if self.skip_whitespace() {
+                let end = self.position;
+                return Some((WHITESPACE, self.make_span(start, end), self.slice(start, end)));
+            }
         }
 
         let (start, ch) = self.bump()?;
-- 
2.43.0


From ec7a7cde762d56aff8133eaaa64bcbe364217c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:32 +0000
Subject: [PATCH 47/56] fix: a list or string still open at the end of the text
 is an error

---
 src/syntax/rowan/ast.rs      |  4 ++++
 src/syntax/rowan/validate.rs | 33 ++++++++++++++++++++++++++-------
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/syntax/rowan/ast.rs b/src/syntax/rowan/ast.rs
index 9e14773..28a5193 100644
--- a/src/syntax/rowan/ast.rs
+++ b/src/syntax/rowan/ast.rs
@@ -1022,6 +1022,10 @@ impl List {
         support::children::<Soup>(&self.0)
     }
 
+    pub fn close_square(&self) -> Option<SyntaxToken> {
+        support::syntax_token(self.syntax(), SyntaxKind::CLOSE_SQUARE)
+    }
+
     /// Returns true if this list contains a `:` head/tail separator.
     ///
     /// Used to detect `[x : xs]` and `[a, b : rest]` patterns in
diff --git a/src/syntax/rowan/validate.rs b/src/syntax/rowan/validate.rs
index 3b5c18c..342c5ea 100644
--- a/src/syntax/rowan/validate.rs
+++ b/src/syntax/rowan/validate.rs
@@ -62,6 +62,12 @@ mod support {
         }
     }
 
+    /// Does a literal opening with `open` end with a closing `quote` of its own?
+    pub fn closed(text: &str, open: &str, quote: char) -> bool {
+        text.strip_prefix(open)
+            .is_some_and(|rest| rest.ends_with(quote))
+    }
+
     pub fn non_empty(node: &SyntaxNode, errors: &mut Vec<ParseError>) {
         for child in node.children() {
             if !child.kind().is_trivial() {
@@ -77,7 +83,8 @@ mod support {
 impl Validatable for Sym {
     /// If a symbol is quoted, it must be quoted correctly
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with('\'') && !self.text().ends_with('\'') {
+        let name = self.text().strip_prefix(':').unwrap_or(self.text());
+        if name.starts_with('\'') && !support::closed(name, "'", '\'') {
             errors.push(ParseError::UnclosedSingleQuote {
                 range: self.syntax().text_range(),
             })
@@ -88,7 +95,7 @@ impl Validatable for Sym {
 impl Validatable for Str {
     /// String quotes must be closed
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with('"') && !self.text().ends_with('"') {
+        if self.text().starts_with('"') && !support::closed(self.text(), "\"", '"') {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             })
@@ -99,7 +106,13 @@ impl Validatable for Str {
 impl Validatable for CStr {
     /// C-string quotes must be closed
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with("c\"") && !self.text().ends_with('"') {
+        // an escaped quote closes nothing
+        let closed = self
+            .text()
+            .strip_prefix("c\"")
+            .and_then(|rest| rest.strip_suffix('"'))
+            .is_some_and(|body| body.bytes().rev().take_while(|b| *b == b'\\').count() % 2 == 0);
+        if self.text().starts_with("c\"") && !closed {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             })
@@ -110,7 +123,7 @@ impl Validatable for CStr {
 impl Validatable for RawStr {
     /// Raw string quotes must be closed
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with("r\"") && !self.text().ends_with('"') {
+        if self.text().starts_with("r\"") && !support::closed(self.text(), "r\"", '"') {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             })
@@ -121,7 +134,7 @@ impl Validatable for RawStr {
 impl Validatable for TStr {
     /// ZDT literal must contain a valid timestamp
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with("t\"") && !self.text().ends_with('"') {
+        if self.text().starts_with("t\"") && !support::closed(self.text(), "t\"", '"') {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             });
@@ -142,7 +155,7 @@ impl Validatable for TStr {
 impl Validatable for SStr {
     /// Type-data literal — only validate that it is properly closed
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with("s\"") && !self.text().ends_with('"') {
+        if self.text().starts_with("s\"") && !support::closed(self.text(), "s\"", '"') {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             });
@@ -184,7 +197,7 @@ impl Validatable for OperatorIdentifier {}
 
 impl Validatable for SingleQuoteIdentifier {
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with('\'') && !self.text().ends_with('\'') {
+        if self.text().starts_with('\'') && !support::closed(self.text(), "'", '\'') {
             errors.push(ParseError::UnclosedSingleQuote {
                 range: self.syntax().text_range(),
             })
@@ -385,6 +398,12 @@ impl Validatable for List {
             item.validate(errors);
         }
 
+        if self.close_square().is_none() {
+            errors.push(ParseError::UnclosedBracketExpr {
+                range: self.syntax().text_range(),
+            });
+        }
+
         support::no_error_children(self.syntax(), errors);
     }
 }
-- 
2.43.0


From d6cd240ad992a2da256bd5d760078eed32b8ec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:32 +0000
Subject: [PATCH 48/56] fix: the formatter keeps metadata, comments and the
 tree, and is idempotent

---
 src/syntax/export/format.rs | 473 ++++++++++++++++++++++--------------
 1 file changed, 292 insertions(+), 181 deletions(-)

diff --git a/src/syntax/export/format.rs b/src/syntax/export/format.rs
index df9d58c..21e3e06 100644
--- a/src/syntax/export/format.rs
+++ b/src/syntax/export/format.rs
@@ -127,108 +127,68 @@ impl Formatter {
     // Full Reformatting Mode
     // ========================================================================
 
-    /// Extract leading comments (including shebang) from a syntax node
-    fn extract_leading_comments(&self, node: &SyntaxNode) -> Vec<String> {
-        let mut comments = Vec::new();
-        for child in node.children_with_tokens() {
-            match child {
-                rowan::NodeOrToken::Token(t) => {
-                    if t.kind() == SyntaxKind::COMMENT {
-                        comments.push(t.text().to_string());
-                    } else if t.kind() != SyntaxKind::WHITESPACE {
-                        // Stop at first non-trivia token
-                        break;
-                    }
-                }
-                rowan::NodeOrToken::Node(_) => {
-                    // Stop at first node (declarations, metadata, etc.)
-                    break;
+    /// Lay out the unit's metadata and declarations, a blank line apart, with
+    /// every comment that stands between them where it stood: at the end of
+    /// its line, directly above what it precedes, or apart from both.
+    fn reformat_unit(&self, unit: &rowan_ast::Unit) -> RcDoc<'static, ()> {
+        let mut result = RcDoc::nil();
+        let mut prev: Option<Laid> = None;
+        let mut newlines = 0;
+
+        for item in unit_items(unit.syntax()) {
+            let (laid, doc) = match item {
+                UnitItem::Space(ws) => {
+                    newlines += ws.matches('\n').count();
+                    continue;
                 }
-            }
-        }
-        comments
-    }
-
-    /// Extract comments that precede a declaration
-    fn extract_declaration_leading_comments(&self, decl: &rowan_ast::Declaration) -> Vec<String> {
-        let mut found_comments = Vec::new();
-        // Look at the previous siblings to find comments
-        let mut prev = decl.syntax().prev_sibling_or_token();
-
-        while let Some(sibling) = prev {
-            match &sibling {
-                rowan::NodeOrToken::Token(t) => {
-                    if t.kind() == SyntaxKind::COMMENT {
-                        found_comments.push(t.text().to_string());
-                    } else if t.kind() == SyntaxKind::WHITESPACE {
-                        // Check if whitespace contains blank line (resets comment association)
-                        if t.text().chars().filter(|&c| c == '\n').count() > 1 {
-                            break;
-                        }
+                UnitItem::Comment(text) => {
+                    let same_line = newlines == 0 && prev == Some(Laid::Content);
+                    let laid = if same_line {
+                        Laid::EndOfLine
+                    } else if matches!(prev, None | Some(Laid::Header)) {
+                        // Leading comments (including shebang)
+                        Laid::Header
                     } else {
-                        break;
-                    }
+                        Laid::Comment
+                    };
+                    (laid, RcDoc::text(text))
                 }
-                rowan::NodeOrToken::Node(_) => break,
-            }
-            prev = sibling.prev_sibling_or_token();
+                UnitItem::Content(node) => (Laid::Content, self.reformat_unit_content(&node)),
+            };
+            let blank = RcDoc::hardline().append(RcDoc::hardline());
+            result = result.append(match (prev, laid) {
+                (None, _) => RcDoc::nil(),
+                (_, Laid::EndOfLine) => RcDoc::space(),
+                (Some(Laid::Header), Laid::Header) if newlines < 2 => RcDoc::hardline(),
+                (Some(Laid::Comment), _) if newlines < 2 => RcDoc::hardline(),
+                _ => blank,
+            });
+            result = result.append(doc);
+            prev = Some(laid);
+            newlines = 0;
         }
 
-        // Reverse since we collected in reverse order
-        found_comments.reverse();
-        found_comments
+        result
     }
 
-    fn reformat_unit(&self, unit: &rowan_ast::Unit) -> RcDoc<'static, ()> {
-        let mut result = RcDoc::nil();
-
-        // Preserve leading comments (including shebang) as a single header block
-        let leading_comments = self.extract_leading_comments(unit.syntax());
-        if !leading_comments.is_empty() {
-            for comment in &leading_comments {
-                result = result
-                    .append(RcDoc::text(comment.clone()))
-                    .append(RcDoc::hardline());
-            }
-            // Add blank line after leading comments section
-            result = result.append(RcDoc::hardline());
-        }
-
-        // Handle metadata if present
-        if let Some(meta) = unit.meta() {
-            result = result.append(self.reformat_block_metadata(&meta));
-            result = result.append(RcDoc::hardline()).append(RcDoc::hardline());
+    /// Format one of the unit's own children (metadata or declaration)
+    fn reformat_unit_content(&self, node: &SyntaxNode) -> RcDoc<'static, ()> {
+        if let Some(decl) = rowan_ast::Declaration::cast(node.clone()) {
+            return self.reformat_declaration(&decl);
         }
-
-        // Format each declaration with its leading comments
-        let declarations: Vec<_> = unit.declarations().collect();
-        for (i, decl) in declarations.iter().enumerate() {
-            if i > 0 {
-                // Blank line between declarations
-                result = result.append(RcDoc::hardline());
-
-                // Extract and add comments that precede this declaration (not the first one,
-                // as those are already handled by extract_leading_comments)
-                let decl_comments = self.extract_declaration_leading_comments(decl);
-                for comment in &decl_comments {
-                    result = result
-                        .append(RcDoc::text(comment.clone()))
-                        .append(RcDoc::hardline());
-                }
-            }
-
-            result = result.append(self.reformat_declaration(decl));
-            if i < declarations.len() - 1 {
-                result = result.append(RcDoc::hardline());
-            }
+        match rowan_ast::BlockMetadata::cast(node.clone()).and_then(|m| m.soup()) {
+            Some(soup) => self.reformat_soup(&soup),
+            None => verbatim(node),
         }
-
-        result
     }
 
     fn reformat_declaration(&self, decl: &rowan_ast::Declaration) -> RcDoc<'static, ()> {
         let mut doc = RcDoc::nil();
 
+        if has_loose_comment(decl.syntax()) {
+            return verbatim(decl.syntax());
+        }
+
         // Handle metadata
         if let Some(meta) = decl.meta() {
             doc = doc
@@ -255,6 +215,9 @@ impl Formatter {
     }
 
     fn reformat_decl_head(&self, head: &rowan_ast::DeclarationHead) -> RcDoc<'static, ()> {
+        if has_comment(head.syntax()) {
+            return verbatim(head.syntax());
+        }
         match head.classify_declaration() {
             rowan_ast::DeclarationKind::Property(id) => RcDoc::text(id.syntax().text().to_string()),
             rowan_ast::DeclarationKind::Function(name, args) => {
@@ -269,16 +232,27 @@ impl Formatter {
                     .append(RcDoc::text(")"))
             }
             rowan_ast::DeclarationKind::Prefix(_, op, operand) => {
-                // Format: (op operand) - no space between operator and operand
+                // Format: (op operand) - with a space between operator and
+                // operand only if there was one
                 RcDoc::text("(")
                     .append(RcDoc::text(op.syntax().text().to_string()))
+                    .append(source_gap(
+                        op.syntax().text_range(),
+                        operand.syntax().text_range(),
+                    ))
                     .append(RcDoc::text(operand.syntax().text().to_string()))
                     .append(RcDoc::text(")"))
             }
             rowan_ast::DeclarationKind::Postfix(_, operand, op) => {
-                // Format: (operand op) - no space between operand and operator
+                // Format: (operand op) - with a space between operand and
+                // operator only if there was one: an operand may run on into
+                // the characters of the operator
                 RcDoc::text("(")
                     .append(RcDoc::text(operand.syntax().text().to_string()))
+                    .append(source_gap(
+                        operand.syntax().text_range(),
+                        op.syntax().text_range(),
+                    ))
                     .append(RcDoc::text(op.syntax().text().to_string()))
                     .append(RcDoc::text(")"))
             }
@@ -321,22 +295,24 @@ impl Formatter {
             return RcDoc::nil();
         }
 
+        if has_loose_comment(soup.syntax()) {
+            return verbatim(soup.syntax());
+        }
+
         let mut docs = Vec::new();
 
         for (i, elem) in elements.iter().enumerate() {
             // Check spacing between elements
             if i > 0 {
+                let tight_in_source =
+                    elements[i - 1].syntax().text_range().end() == elem.syntax().text_range().start();
+
                 // ApplyTuple is a function call - no space before it (tight binding)
                 let is_apply_tuple = matches!(elem, rowan_ast::Element::ApplyTuple(_));
 
                 // Check if this is a dot-connected expression (lookup)
-                let is_dot_op = elem
-                    .as_operator_identifier()
-                    .is_some_and(|op| op.syntax().text() == ".");
-
-                let prev_was_dot = elements[i - 1]
-                    .as_operator_identifier()
-                    .is_some_and(|op| op.syntax().text() == ".");
+                let is_dot_op = is_dot(elem);
+                let prev_was_dot = is_dot(&elements[i - 1]);
 
                 // Check for unary operators - no space after prefix ops, no space before postfix ops
                 let prev_is_prefix_op = self.is_prefix_operator(&elements, i - 1);
@@ -345,14 +321,16 @@ impl Formatter {
 
                 // Add space unless:
                 // - This is an ApplyTuple (function call, no space before)
-                // - This or previous element is a dot operator
-                // - Previous element is a prefix operator (tight binding)
-                // - This element is a postfix operator (tight binding)
+                // - This or previous element is a dot operator that looks up a name
+                // - There was no space in the source and this or the previous
+                //   element is a dot operator, the previous element is a prefix
+                //   operator or this element is a postfix operator. (Where there
+                //   was a space, its removal could make one token of two.)
                 let need_space = !is_apply_tuple
-                    && !is_dot_op
-                    && !prev_was_dot
-                    && !prev_is_prefix_op
-                    && !is_postfix_op;
+                    && !(is_dot_op && self.is_lookup(&elements, i))
+                    && !(prev_was_dot && self.is_lookup(&elements, i - 1))
+                    && !(tight_in_source
+                        && (is_dot_op || prev_was_dot || prev_is_prefix_op || is_postfix_op));
 
                 if need_space {
                     docs.push(RcDoc::space());
@@ -365,6 +343,20 @@ impl Formatter {
         RcDoc::concat(docs)
     }
 
+    /// Check if the dot at a given position looks up a name and neither the
+    /// name nor what it is looked up in can run on into the dot.
+    fn is_lookup(&self, elements: &[rowan_ast::Element], idx: usize) -> bool {
+        idx > 0
+            && match &elements[idx - 1] {
+                rowan_ast::Element::Lit(_) => false,
+                e => e.as_operator_identifier().is_none(),
+            }
+            && elements
+                .get(idx + 1)
+                .and_then(|e| e.as_normal_identifier())
+                .is_some_and(|id| id.text().starts_with(|c: char| c.is_alphabetic() || c == '_'))
+    }
+
     /// Check if an element at a given position is likely a prefix operator.
     ///
     /// Uses positional heuristics since we don't have operator metadata at this phase.
@@ -444,37 +436,35 @@ impl Formatter {
     fn reformat_block(&self, block: &rowan_ast::Block) -> RcDoc<'static, ()> {
         let decls: Vec<_> = block.declarations().collect();
 
+        // Comments and block metadata keep the layout they have
+        if block.meta().is_some() || has_comment(block.syntax()) {
+            return verbatim(block.syntax());
+        }
+
         if decls.is_empty() {
             return RcDoc::text("{ }");
         }
 
-        // Check if block can be single line (short enough, no nested blocks)
-        let single_line_len = self.estimate_block_single_line_len(block);
-        let can_single_line = single_line_len
-            <= self.config.line_width.saturating_sub(SINGLE_LINE_MARGIN)
-            && decls.len() <= MAX_SINGLE_LINE_DECLS
-            && !self.has_nested_block(block);
+        let inner_docs: Vec<_> = decls.iter().map(|d| self.reformat_declaration(d)).collect();
 
-        if can_single_line {
+        // Check if block can be single line (short enough, no nested blocks,
+        // no declaration metadata)
+        let single_line = (decls.len() <= MAX_SINGLE_LINE_DECLS
+            && !self.has_nested_block(block)
+            && decls.iter().all(|d| d.meta().is_none()))
+        .then(|| {
             // Single line: { a: 1, b: 2 }
-            let mut docs = vec![RcDoc::text("{ ")];
-            for (i, decl) in decls.iter().enumerate() {
-                if i > 0 {
-                    docs.push(RcDoc::text(", "));
-                }
-                docs.push(self.reformat_declaration_inline(decl));
-            }
-            docs.push(RcDoc::text(" }"));
-            RcDoc::concat(docs)
+            RcDoc::text("{ ")
+                .append(RcDoc::intersperse(inner_docs.clone(), RcDoc::text(", ")))
+                .append(RcDoc::text(" }"))
+        })
+        .filter(|doc| self.fits_single_line(doc));
+
+        if let Some(doc) = single_line {
+            doc
         } else {
             // Multi-line block
             let indent = self.config.indent_size;
-            let mut inner_docs = Vec::new();
-
-            for decl in &decls {
-                inner_docs.push(self.reformat_declaration(decl));
-            }
-
             let inner = RcDoc::intersperse(inner_docs, RcDoc::hardline());
 
             // Nest includes the leading hardline so first line gets indented too
@@ -485,27 +475,13 @@ impl Formatter {
         }
     }
 
-    fn reformat_declaration_inline(&self, decl: &rowan_ast::Declaration) -> RcDoc<'static, ()> {
-        let mut doc = RcDoc::nil();
-
-        if let Some(head) = decl.head() {
-            doc = doc.append(self.reformat_decl_head(&head));
-        }
-
-        doc = doc.append(RcDoc::text(": "));
-
-        if let Some(body) = decl.body() {
-            if let Some(soup) = body.soup() {
-                doc = doc.append(self.reformat_soup(&soup));
-            }
-        }
-
-        doc
-    }
-
     fn reformat_list(&self, list: &rowan_ast::List) -> RcDoc<'static, ()> {
         let items: Vec<_> = list.items().collect();
 
+        if has_comment(list.syntax()) {
+            return verbatim(list.syntax());
+        }
+
         if items.is_empty() {
             return RcDoc::text("[]");
         }
@@ -513,33 +489,39 @@ impl Formatter {
         // Preserve cons patterns: `[x : xs]` or `[a, b : rest]`.
         // These have different semantics from fixed-length lists and must NOT be
         // reformatted as `[x, xs]`.
-        if list.is_cons_pattern() && items.len() >= 2 {
-            let (heads, tail_slice) = items.split_at(items.len() - 1);
-            let tail = &tail_slice[0];
-            let head_docs: Vec<_> = heads.iter().map(|s| self.reformat_soup(s)).collect();
-            return RcDoc::text("[")
-                .append(RcDoc::intersperse(head_docs, RcDoc::text(", ")))
-                .append(RcDoc::text(" : "))
-                .append(self.reformat_soup(tail))
+        if list.is_cons_pattern() {
+            let mut doc = RcDoc::text("[");
+            let mut separator = None;
+            for child in list.syntax().children_with_tokens() {
+                match child.kind() {
+                    SyntaxKind::COMMA => separator = Some(", "),
+                    SyntaxKind::COLON => separator = Some(" : "),
+                    SyntaxKind::SOUP => {
+                        if let Some(soup) = child.into_node().and_then(rowan_ast::Soup::cast) {
+                            doc = doc
+                                .append(RcDoc::text(separator.take().unwrap_or("")))
+                                .append(self.reformat_soup(&soup));
+                        }
+                    }
+                    _ => {}
+                }
+            }
+            return doc
+                .append(RcDoc::text(separator.map_or("", str::trim_end)))
                 .append(RcDoc::text("]"));
         }
 
-        // Estimate single-line length
-        let single_line_len: usize = items
-            .iter()
-            .map(|s| usize::from(s.syntax().text().len()) + 2)
-            .sum();
+        // Single line: [a, b, c]
+        let docs: Vec<_> = items.iter().map(|s| self.reformat_soup(s)).collect();
+        let single_line = RcDoc::text("[")
+            .append(RcDoc::intersperse(docs.clone(), RcDoc::text(", ")))
+            .append(RcDoc::text("]"));
 
-        if single_line_len <= self.config.line_width.saturating_sub(10) {
-            // Single line: [a, b, c]
-            let docs: Vec<_> = items.iter().map(|s| self.reformat_soup(s)).collect();
-            RcDoc::text("[")
-                .append(RcDoc::intersperse(docs, RcDoc::text(", ")))
-                .append(RcDoc::text("]"))
+        if self.fits_single_line(&single_line) {
+            single_line
         } else {
             // Multi-line - same pattern as blocks for consistent indentation
             let indent = self.config.indent_size;
-            let docs: Vec<_> = items.iter().map(|s| self.reformat_soup(s)).collect();
             let inner = RcDoc::intersperse(docs, RcDoc::text(",").append(RcDoc::hardline()));
 
             RcDoc::text("[")
@@ -550,6 +532,9 @@ impl Formatter {
     }
 
     fn reformat_paren_expr(&self, pe: &rowan_ast::ParenExpr) -> RcDoc<'static, ()> {
+        if has_comment(pe.syntax()) {
+            return verbatim(pe.syntax());
+        }
         let inner = pe
             .soup()
             .map(|s| self.reformat_soup(&s))
@@ -560,6 +545,10 @@ impl Formatter {
     fn reformat_apply_tuple(&self, at: &rowan_ast::ApplyTuple) -> RcDoc<'static, ()> {
         let items: Vec<_> = at.items().collect();
 
+        if has_comment(at.syntax()) {
+            return verbatim(at.syntax());
+        }
+
         if items.is_empty() {
             return RcDoc::text("()");
         }
@@ -584,14 +573,6 @@ impl Formatter {
         RcDoc::text(sp.syntax().text().to_string())
     }
 
-    fn reformat_block_metadata(&self, meta: &rowan_ast::BlockMetadata) -> RcDoc<'static, ()> {
-        if let Some(soup) = meta.soup() {
-            RcDoc::text("` ").append(self.reformat_soup(&soup))
-        } else {
-            RcDoc::nil()
-        }
-    }
-
     fn reformat_decl_metadata(&self, meta: &rowan_ast::DeclarationMetadata) -> RcDoc<'static, ()> {
         if let Some(soup) = meta.soup() {
             RcDoc::text("` ").append(self.reformat_soup(&soup))
@@ -649,7 +630,7 @@ impl Formatter {
         let kind = token.kind();
 
         match kind {
-            SyntaxKind::WHITESPACE => {
+            SyntaxKind::WHITESPACE if !in_string(token) => {
                 // Convert tabs to spaces and normalize excessive whitespace
                 let normalized = self.normalize_whitespace(text, *line_col);
                 // Update line_col based on normalized output
@@ -673,6 +654,11 @@ impl Formatter {
                 *line_col += text.len();
             }
             _ => {
+                // The CR of a CRLF line ending is lexed into the comment before it
+                let text = match kind {
+                    SyntaxKind::COMMENT => text.trim_end_matches('\r'),
+                    _ => text,
+                };
                 // Update line_col tracking
                 for c in text.chars() {
                     if c == '\n' {
@@ -691,11 +677,12 @@ impl Formatter {
     fn normalize_whitespace(&self, ws: &str, line_col: usize) -> String {
         let mut result = String::new();
         let mut col = line_col;
+        let mut chars = ws.chars().peekable();
 
         // Standard tab width for alignment preservation
         const TAB_WIDTH: usize = 8;
 
-        for c in ws.chars() {
+        while let Some(c) = chars.next() {
             match c {
                 '\n' => {
                     result.push('\n');
@@ -716,8 +703,13 @@ impl Formatter {
                     col += 1;
                 }
                 '\r' => {
-                    // Normalize line endings to LF by discarding CR characters.
+                    // Normalize line endings to LF: CR before LF is discarded, CR on
+                    // its own becomes LF.
                     // This standardizes output regardless of input line ending style.
+                    if chars.peek() != Some(&'\n') {
+                        result.push('\n');
+                        col = 0;
+                    }
                 }
                 _ => {
                     result.push(c);
@@ -736,12 +728,11 @@ impl Formatter {
     // Helper Methods
     // ========================================================================
 
-    fn estimate_block_single_line_len(&self, block: &rowan_ast::Block) -> usize {
-        let mut len = 4; // "{ " and " }"
-        for decl in block.declarations() {
-            len += usize::from(decl.syntax().text().len()) + 2; // ", " separator
-        }
-        len
+    /// Whether a layout stays on one line and leaves the margin free
+    fn fits_single_line(&self, doc: &RcDoc<'static, ()>) -> bool {
+        let limit = self.config.line_width.saturating_sub(SINGLE_LINE_MARGIN);
+        self.render_doc(doc.clone())
+            .is_ok_and(|text| !text.contains('\n') && text.chars().count() <= limit)
     }
 
     fn has_nested_block(&self, block: &rowan_ast::Block) -> bool {
@@ -760,6 +751,126 @@ impl Formatter {
     }
 }
 
+/// What stands at the top level of a unit, in source order
+enum UnitItem {
+    Space(String),
+    Comment(String),
+    Content(SyntaxNode),
+}
+
+/// How an item of a unit has been laid out
+#[derive(Clone, Copy, PartialEq)]
+enum Laid {
+    Header,
+    Comment,
+    EndOfLine,
+    Content,
+}
+
+/// The metadata, declarations, comments and space of a unit. Space and
+/// comments after the last token of a declaration follow it.
+fn unit_items(unit: &SyntaxNode) -> Vec<UnitItem> {
+    let mut items = Vec::new();
+    for child in unit.children_with_tokens() {
+        match child {
+            rowan::NodeOrToken::Token(t) => items.push(trivia_item(&t)),
+            rowan::NodeOrToken::Node(n) => {
+                items.push(UnitItem::Content(n.clone()));
+                let mut trailing: Vec<_> = n
+                    .descendants_with_tokens()
+                    .filter_map(|it| it.into_token())
+                    .collect();
+                let end = trailing
+                    .iter()
+                    .rposition(|t| !is_trivia(t))
+                    .map_or(0, |i| i + 1);
+                items.extend(trailing.drain(..).skip(end).map(|t| trivia_item(&t)));
+            }
+        }
+    }
+    items
+}
+
+fn trivia_item(token: &SyntaxToken) -> UnitItem {
+    if token.kind() == SyntaxKind::COMMENT {
+        UnitItem::Comment(token.text().trim_end().to_string())
+    } else {
+        UnitItem::Space(token.text().to_string())
+    }
+}
+
+fn is_trivia(token: &SyntaxToken) -> bool {
+    matches!(token.kind(), SyntaxKind::COMMENT | SyntaxKind::WHITESPACE)
+}
+
+/// The tokens of a node without the space and comments around it
+fn inner_tokens(node: &SyntaxNode) -> Vec<SyntaxToken> {
+    let mut tokens: Vec<_> = node
+        .descendants_with_tokens()
+        .filter_map(|it| it.into_token())
+        .skip_while(is_trivia)
+        .collect();
+    while tokens.last().is_some_and(is_trivia) {
+        tokens.pop();
+    }
+    tokens
+}
+
+/// The source text of a node without the space and comments around it
+fn verbatim(node: &SyntaxNode) -> RcDoc<'static, ()> {
+    let tokens = inner_tokens(node);
+    RcDoc::text(tokens.iter().map(|t| t.text()).collect::<String>())
+}
+
+/// Is this a token of a string (whose text stays as it is)?
+fn in_string(token: &SyntaxToken) -> bool {
+    token
+        .parent_ancestors()
+        .any(|n| n.kind() == SyntaxKind::STRING_INTERPOLATION)
+}
+
+/// Is there a comment in the node?
+fn has_comment(node: &SyntaxNode) -> bool {
+    inner_tokens(node)
+        .iter()
+        .any(|t| t.kind() == SyntaxKind::COMMENT)
+}
+
+/// Is there a comment in the node which is not enclosed in brackets?
+fn has_loose_comment(node: &SyntaxNode) -> bool {
+    inner_tokens(node).iter().any(|t| {
+        t.kind() == SyntaxKind::COMMENT
+            && t.parent_ancestors()
+                .take_while(|n| n != node)
+                .all(|n| !is_bracketed(&n))
+    })
+}
+
+/// Is the node one whose brackets enclose everything in it?
+fn is_bracketed(node: &SyntaxNode) -> bool {
+    let delimiter = |it: Option<rowan::NodeOrToken<SyntaxNode, SyntaxToken>>| {
+        it.and_then(|it| it.into_token())
+            .is_some_and(|t| !is_trivia(&t))
+    };
+    node.kind() != SyntaxKind::SOUP
+        && delimiter(node.first_child_or_token())
+        && delimiter(node.last_child_or_token())
+}
+
+/// A space where the source has anything between the two ranges
+fn source_gap(left: rowan::TextRange, right: rowan::TextRange) -> RcDoc<'static, ()> {
+    if left.end() == right.start() {
+        RcDoc::nil()
+    } else {
+        RcDoc::space()
+    }
+}
+
+fn is_dot(elem: &rowan_ast::Element) -> bool {
+    elem.as_operator_identifier()
+        .is_some_and(|op| op.syntax().text() == ".")
+}
+
 /// Format a source file
 pub fn format_source(source: &str, config: &FormatterConfig) -> Result<String, String> {
     use crate::syntax::rowan::parse_unit;
-- 
2.43.0


From 673beb463588d603f2e6a9e9c32c0c29fb618633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:42 +0000
Subject: [PATCH 49/56] fix: rustfmt the lines above

---
 src/core/desugar/rowan_ast.rs  |  4 +++-
 src/eval/stg/time.rs           |  4 ++--
 src/syntax/export/format.rs    |  9 ++++++---
 src/syntax/rowan/string_lex.rs | 12 ++++++++++--
 4 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/core/desugar/rowan_ast.rs b/src/core/desugar/rowan_ast.rs
index b520f6c..bd90876 100644
--- a/src/core/desugar/rowan_ast.rs
+++ b/src/core/desugar/rowan_ast.rs
@@ -2775,7 +2775,9 @@ fn rowan_declaration_to_binding(
     // Wrap in operator if this is an operator declaration. The operator has
     // to stay in view for fixity resolution, so imports go inside it.
     if components.is_operator {
-        expr = imports.drain(..).rfold(expr, |acc, import| import.rebody(acc));
+        expr = imports
+            .drain(..)
+            .rfold(expr, |acc, import| import.rebody(acc));
         expr = RcExpr::from(Expr::Operator(
             desugarer.new_smid(components.span),
             components
diff --git a/src/eval/stg/time.rs b/src/eval/stg/time.rs
index ca65a2e..3e5ee05 100644
--- a/src/eval/stg/time.rs
+++ b/src/eval/stg/time.rs
@@ -3,8 +3,8 @@
 use std::convert::TryInto;
 
 use chrono::{
-    DateTime, Datelike, FixedOffset, NaiveDate, NaiveDateTime, NaiveTime, Offset,
-    TimeZone, Timelike, Utc,
+    DateTime, Datelike, FixedOffset, NaiveDate, NaiveDateTime, NaiveTime, Offset, TimeZone,
+    Timelike, Utc,
 };
 use chrono_tz::Tz;
 use indexmap::IndexMap;
diff --git a/src/syntax/export/format.rs b/src/syntax/export/format.rs
index 21e3e06..159f16b 100644
--- a/src/syntax/export/format.rs
+++ b/src/syntax/export/format.rs
@@ -304,8 +304,8 @@ impl Formatter {
         for (i, elem) in elements.iter().enumerate() {
             // Check spacing between elements
             if i > 0 {
-                let tight_in_source =
-                    elements[i - 1].syntax().text_range().end() == elem.syntax().text_range().start();
+                let tight_in_source = elements[i - 1].syntax().text_range().end()
+                    == elem.syntax().text_range().start();
 
                 // ApplyTuple is a function call - no space before it (tight binding)
                 let is_apply_tuple = matches!(elem, rowan_ast::Element::ApplyTuple(_));
@@ -354,7 +354,10 @@ impl Formatter {
             && elements
                 .get(idx + 1)
                 .and_then(|e| e.as_normal_identifier())
-                .is_some_and(|id| id.text().starts_with(|c: char| c.is_alphabetic() || c == '_'))
+                .is_some_and(|id| {
+                    id.text()
+                        .starts_with(|c: char| c.is_alphabetic() || c == '_')
+                })
     }
 
     /// Check if an element at a given position is likely a prefix operator.
diff --git a/src/syntax/rowan/string_lex.rs b/src/syntax/rowan/string_lex.rs
index 98c7250..46d7c32 100644
--- a/src/syntax/rowan/string_lex.rs
+++ b/src/syntax/rowan/string_lex.rs
@@ -134,7 +134,11 @@ impl<'text> Iterator for StringPatternLexer<'text> {
             let start = self.position;
             if self.skip_whitespace() {
                 let end = self.position;
-                return Some((WHITESPACE, self.make_span(start, end), self.slice(start, end)));
+                return Some((
+                    WHITESPACE,
+                    self.make_span(start, end),
+                    self.slice(start, end),
+                ));
             }
         }
 
@@ -329,7 +333,11 @@ impl<'text> Iterator for CStringPatternLexer<'text> {
             let start = self.position;
             if self.skip_whitespace() {
                 let end = self.position;
-                return Some((WHITESPACE, self.make_span(start, end), self.slice(start, end)));
+                return Some((
+                    WHITESPACE,
+                    self.make_span(start, end),
+                    self.slice(start, end),
+                ));
             }
         }
 
-- 
2.43.0


From 9cfede76e8b5b04b043de71293515f6128536a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:36 +0000
Subject: [PATCH 50/56] fix: io.exec passes every element of a computed
 argument list

The driver walked the args list without forcing its tail, so the arguments
after the first unevaluated cell were dropped silently.
---
 src/driver/bytecode_io_run.rs | 23 +++++++------
 src/eval/bytecode/machine.rs  | 62 +++++++++++++----------------------
 2 files changed, 35 insertions(+), 50 deletions(-)

diff --git a/src/driver/bytecode_io_run.rs b/src/driver/bytecode_io_run.rs
index 4a7999a..5bf6d0b 100644
--- a/src/driver/bytecode_io_run.rs
+++ b/src/driver/bytecode_io_run.rs
@@ -86,21 +86,24 @@ fn evaluate_spec_block(
         // List-valued fields (e.g. `args`) need each element forced and
         // rendered, then joined with NUL as a separator.
         let value_str = if machine.value_is_list(&whnf) {
-            let elements = machine
-                .list_element_values(&whnf)
-                .map_err(IoRunError::from)?;
-            // Stash all element closures before the loop (same GC reason as the
-            // fields above); push in reverse for forward pop order.
-            for e in elements.iter().rev() {
-                machine.stash_push(e.clone());
-            }
             let mut parts: Vec<String> = Vec::new();
-            for _ in 0..elements.len() {
-                let elem = machine.stash_pop();
+            let mut current = whnf;
+            // Walk the list one cell at a time, forcing the tail as well as the
+            // element: a computed list is not built until it is demanded. The
+            // tail is stashed while the element is forced (same GC reason as
+            // the fields above).
+            while let Some((elem, tail)) =
+                machine.list_uncons(&current).map_err(IoRunError::from)?
+            {
+                machine.stash_push(tail);
                 let elem_whnf = force_field(machine, elem)?;
                 if let Some(s) = machine.whnf_scalar_string(&elem_whnf) {
                     parts.push(s);
                 }
+                let tail = machine.stash_pop();
+                current = machine
+                    .evaluate_to_whnf_for_io(tail)
+                    .map_err(IoRunError::from)?;
             }
             if parts.is_empty() {
                 None
diff --git a/src/eval/bytecode/machine.rs b/src/eval/bytecode/machine.rs
index 58d3524..eec721c 100644
--- a/src/eval/bytecode/machine.rs
+++ b/src/eval/bytecode/machine.rs
@@ -4091,52 +4091,34 @@ impl BytecodeMachine<'_> {
         }
     }
 
-    /// Collect the raw (unevaluated) element values of a `ListCons` chain.
-    /// Mirrors `io_run::CollectListElements`.
-    pub fn list_element_values(&self, value: &BcValue) -> Result<Vec<BcValue>, ExecutionError> {
+    /// The raw (unevaluated) head and tail of a `ListCons` in WHNF, or `None`
+    /// at the end of the list. The tail may itself be a thunk, so the caller
+    /// forces it before looking for the next element.
+    pub fn list_uncons(
+        &self,
+        value: &BcValue,
+    ) -> Result<Option<(BcValue, BcValue)>, ExecutionError> {
         let view = MutatorHeapView::new(&self.heap);
         let code = self.program.code.as_slice();
-        let mut out = Vec::new();
-        let mut current = value.clone();
-        while let BcValue::Closure(c) = current.clone() {
-            let Some((tag, offsets)) = decode_cons(&self.program, &self.decoded, &c) else {
-                break;
-            };
-            if tag == DataConstructor::ListNil.tag() {
-                break;
-            }
-            if tag != DataConstructor::ListCons.tag() {
-                break;
-            }
-            let head_ref = arg_ref(
-                code,
-                *offsets.first().ok_or_else(|| {
-                    ExecutionError::Panic(self.state.annotation, "malformed list cons".to_string())
-                })?,
-            )?;
-            let head = resolve_ref(
-                view,
-                &self.state.constants,
-                c.env(),
-                self.state.globals,
-                head_ref,
-            )?;
-            out.push(head);
-            let tail_ref = arg_ref(
+        let BcValue::Closure(c) = value else {
+            return Ok(None);
+        };
+        let Some((tag, offsets)) = decode_cons(&self.program, &self.decoded, c) else {
+            return Ok(None);
+        };
+        if tag != DataConstructor::ListCons.tag() {
+            return Ok(None);
+        }
+        let field = |i: usize| {
+            let r = arg_ref(
                 code,
-                *offsets.get(1).ok_or_else(|| {
+                *offsets.get(i).ok_or_else(|| {
                     ExecutionError::Panic(self.state.annotation, "malformed list cons".to_string())
                 })?,
             )?;
-            current = resolve_ref(
-                view,
-                &self.state.constants,
-                c.env(),
-                self.state.globals,
-                tail_ref,
-            )?;
-        }
-        Ok(out)
+            resolve_ref(view, &self.state.constants, c.env(), self.state.globals, r)
+        };
+        Ok(Some((field(0)?, field(1)?)))
     }
 
     /// If `value` is a boxed scalar whose inner field is still an unevaluated
-- 
2.43.0


From 97a2943bde31b422fa17842a2b0533a9f5883cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:36 +0000
Subject: [PATCH 51/56] fix: io.exec keeps an only argument that is the empty
 string

---
 src/driver/io_common.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/driver/io_common.rs b/src/driver/io_common.rs
index f3c9639..e607820 100644
--- a/src/driver/io_common.rs
+++ b/src/driver/io_common.rs
@@ -189,13 +189,10 @@ fn require_cmd(
 
 /// Split a rendered list field into its elements. Both drivers join list
 /// elements with NUL (`\x00`) before handing the field to this policy, so the
-/// inverse split lives here too.
+/// inverse split lives here too. An empty list has no rendering at all, so an
+/// empty string stands for a single empty element.
 fn split_nul_args(s: String) -> Vec<String> {
-    if s.is_empty() {
-        vec![]
-    } else {
-        s.split('\x00').map(|x| x.to_string()).collect()
-    }
+    s.split('\x00').map(|x| x.to_string()).collect()
 }
 
 // ─── Shell execution ──────────────────────────────────────────────────────────
-- 
2.43.0


From b10a61c4cdfc96c0613fe02385755212a3e35df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:36 +0000
Subject: [PATCH 52/56] fix: the text "null" can be piped to a command

---
 src/driver/io_common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/driver/io_common.rs b/src/driver/io_common.rs
index e607820..756d529 100644
--- a/src/driver/io_common.rs
+++ b/src/driver/io_common.rs
@@ -87,7 +87,7 @@ pub enum ActionSpec {
 /// all the actual *policy*:
 ///
 /// - `timeout` defaults to 30 seconds when absent or unparseable;
-/// - `stdin` is dropped when empty or the literal `"null"`;
+/// - `stdin` is dropped when empty (`null` renders as the empty string);
 /// - the action is chosen by the meta **tag** when present, falling back to
 ///   field inference only when the tag is genuinely unavailable (App-thunk spec
 ///   blocks — `io.shell-with` / `io.exec-with` — whose `Meta` wrapper is
@@ -111,7 +111,7 @@ pub fn action_spec_from_fields(
     let stdin = fields
         .get("stdin")
         .and_then(|opt| opt.clone())
-        .filter(|s| !s.is_empty() && s != "null");
+        .filter(|s| !s.is_empty());
 
     // Prefer the meta tag; fall back to field inference only when unavailable.
     let resolved = tag.map(str::to_string).or_else(|| infer_action_tag(fields));
-- 
2.43.0


From a15d54d561b3cabbbb05eb80f3a8d7c477e68b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:13 +0000
Subject: [PATCH 53/56] fix: a command's stdin cannot deadlock with its output

The whole input was written before any output was read and outside the
timeout, so a command echoing more than a pipe buffer hung for ever, and one
that exited without reading its input failed with a broken pipe.
---
 src/driver/io_common.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/driver/io_common.rs b/src/driver/io_common.rs
index 756d529..2775dde 100644
--- a/src/driver/io_common.rs
+++ b/src/driver/io_common.rs
@@ -267,12 +267,14 @@ fn run_command(
         }
     };
 
-    if let Some(input) = stdin_data {
-        if let Some(mut pipe) = child.stdin.take() {
-            pipe.write_all(input.as_bytes())
-                .map_err(|e| IoRunError::CommandError(call_smid, e.to_string()))?;
-            // Drop `pipe` to close stdin and signal EOF to the child
-        }
+    if let (Some(input), Some(mut pipe)) = (stdin_data, child.stdin.take()) {
+        // Written from its own thread: the command may produce output before
+        // it has read all of its input, and may exit without reading it.
+        // Dropping `pipe` closes stdin and signals EOF to the child.
+        let input = input.as_bytes().to_vec();
+        thread::spawn(move || {
+            let _ = pipe.write_all(&input);
+        });
     }
 
     // Use a worker thread to implement timeout, since `wait_timeout` is not a
-- 
2.43.0


From 63a4ae1523b85ead08e968872253634fb03b878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:15 +0000
Subject: [PATCH 54/56] fix: a command that times out is killed

It was left running, so its later effects still happened after the program
had failed.
---
 src/driver/io_common.rs | 72 +++++++++++++++++++++++++++++++++--------
 1 file changed, 58 insertions(+), 14 deletions(-)

diff --git a/src/driver/io_common.rs b/src/driver/io_common.rs
index 2775dde..9cb5a3d 100644
--- a/src/driver/io_common.rs
+++ b/src/driver/io_common.rs
@@ -10,11 +10,11 @@
 
 use std::{
     collections::HashMap,
-    io::Write as IoWrite,
-    process::{Command, Stdio},
+    io::{Read, Write as IoWrite},
+    process::{Child, Command, Output, Stdio},
     sync::mpsc,
     thread,
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 use crate::common::sourcemap::Smid;
@@ -277,15 +277,8 @@ fn run_command(
         });
     }
 
-    // Use a worker thread to implement timeout, since `wait_timeout` is not a
-    // project dependency.
-    let (tx, rx) = mpsc::channel();
-    thread::spawn(move || {
-        let _ = tx.send(child.wait_with_output());
-    });
-
-    match rx.recv_timeout(Duration::from_secs(timeout_secs)) {
-        Ok(Ok(output)) => {
+    match wait_for_output(&mut child, Duration::from_secs(timeout_secs)) {
+        Ok(Some(output)) => {
             let exit_code = output.status.code().unwrap_or(-1) as i64;
             let stdout = String::from_utf8_lossy(&output.stdout).into_owned();
             let stderr = String::from_utf8_lossy(&output.stderr).into_owned();
@@ -295,11 +288,62 @@ fn run_command(
                 exit_code,
             })
         }
-        Ok(Err(e)) => Err(IoRunError::CommandError(call_smid, e.to_string())),
-        Err(_timeout) => Err(IoRunError::Timeout(call_smid, timeout_secs)),
+        Ok(None) => {
+            let _ = child.kill();
+            let _ = child.wait();
+            Err(IoRunError::Timeout(call_smid, timeout_secs))
+        }
+        Err(e) => Err(IoRunError::CommandError(call_smid, e.to_string())),
     }
 }
 
+/// Wait for the child to close its output and exit; `None` when it has not
+/// done so within `timeout`. Worker threads read the output, since
+/// `wait_timeout` is not a project dependency.
+fn wait_for_output(child: &mut Child, timeout: Duration) -> std::io::Result<Option<Output>> {
+    let started = Instant::now();
+    let left = || timeout.saturating_sub(started.elapsed());
+
+    let stdout = read_in_background(child.stdout.take());
+    let stderr = read_in_background(child.stderr.take());
+    let Ok(stdout) = stdout.recv_timeout(left()) else {
+        return Ok(None);
+    };
+    let Ok(stderr) = stderr.recv_timeout(left()) else {
+        return Ok(None);
+    };
+
+    loop {
+        if let Some(status) = child.try_wait()? {
+            return Ok(Some(Output {
+                status,
+                stdout: stdout?,
+                stderr: stderr?,
+            }));
+        }
+        if left().is_zero() {
+            return Ok(None);
+        }
+        thread::sleep(left().min(Duration::from_millis(1)));
+    }
+}
+
+/// Read a pipe to its end on a worker thread.
+fn read_in_background<R: Read + Send + 'static>(
+    pipe: Option<R>,
+) -> mpsc::Receiver<std::io::Result<Vec<u8>>> {
+    let (tx, rx) = mpsc::channel();
+    thread::spawn(move || {
+        let mut bytes = Vec::new();
+        let result = match pipe {
+            Some(mut pipe) => pipe.read_to_end(&mut bytes).map(|_| bytes),
+            None => Ok(bytes),
+        };
+        let _ = tx.send(result);
+    });
+    rx
+}
+
 /// Whether IO tracing is enabled (cached from `EU_IO_TRACE` env var).
 static IO_TRACE: std::sync::LazyLock<bool> =
     std::sync::LazyLock::new(|| std::env::var("EU_IO_TRACE").is_ok());
-- 
2.43.0


From ef70f216469d098b092a5f0ece9ae030d50044ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:30 +0000
Subject: [PATCH 55/56] fix: types keep their parentheses when displayed
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A partial, an application or a quantified part of a larger type lost the
parentheses it needs, so s"(number → string)?" was read back as
number → (string?), and m (forall a. a) not at all.
---
 src/core/typecheck/parse.rs |  1 +
 src/core/typecheck/types.rs | 75 ++++++++++++++++++++++++++++++++-----
 2 files changed, 66 insertions(+), 10 deletions(-)

diff --git a/src/core/typecheck/parse.rs b/src/core/typecheck/parse.rs
index 420f6c5..8076b28 100644
--- a/src/core/typecheck/parse.rs
+++ b/src/core/typecheck/parse.rs
@@ -574,6 +574,7 @@ impl<'a> Parser<'a> {
                 | Token::Datetime
                 | Token::Any
                 | Token::Top
+                | Token::ExecutionError
                 | Token::Never
                 | Token::Set
                 | Token::Vec
diff --git a/src/core/typecheck/types.rs b/src/core/typecheck/types.rs
index 34d49fa..6d19783 100644
--- a/src/core/typecheck/types.rs
+++ b/src/core/typecheck/types.rs
@@ -671,8 +671,14 @@ impl fmt::Display for Type {
             // Recursive type: print just the alias name — never unfold.
             Type::Mu(x, _) => write!(f, "{x}"),
             Type::Function(a, b) => {
-                let lhs_needs_parens = matches!(a.as_ref(), Type::Function(_, _) | Type::Union(_));
-                let rhs_needs_parens = matches!(b.as_ref(), Type::Union(_));
+                let lhs_needs_parens = matches!(
+                    a.as_ref(),
+                    Type::Function(_, _) | Type::Union(_) | Type::Forall(_, _) | Type::Lam(_, _)
+                );
+                let rhs_needs_parens = matches!(
+                    b.as_ref(),
+                    Type::Union(_) | Type::Forall(_, _) | Type::Lam(_, _)
+                );
                 match (lhs_needs_parens, rhs_needs_parens) {
                     (true, true) => write!(f, "({a}) → ({b})"),
                     (true, false) => write!(f, "({a}) → {b}"),
@@ -684,18 +690,17 @@ impl fmt::Display for Type {
                 // Re-sugar `T | ExecutionError` or `ExecutionError | T` → `T?`.
                 if variants.len() == 2 {
                     if variants[1] == Type::ExecutionError {
-                        return write!(f, "{}?", variants[0]);
+                        return fmt_partial(f, &variants[0]);
                     }
                     if variants[0] == Type::ExecutionError {
-                        return write!(f, "{}?", variants[1]);
+                        return fmt_partial(f, &variants[1]);
                     }
                 }
-                let mut iter = variants.iter();
-                if let Some(first) = iter.next() {
-                    write!(f, "{first}")?;
-                    for t in iter {
-                        write!(f, " | {t}")?;
+                for (i, t) in variants.iter().enumerate() {
+                    if i > 0 {
+                        write!(f, " | ")?;
                     }
+                    fmt_operand(f, t, matches!(t, Type::Forall(_, _) | Type::Lam(_, _)))?;
                 }
                 Ok(())
             }
@@ -741,7 +746,57 @@ fn fmt_app(f: &mut fmt::Formatter<'_>, head: &Type, arg: &Type) -> fmt::Result {
         }
     }
     // Generic application by juxtaposition.
-    write!(f, "{head} {arg}")
+    let loose = |ty: &Type| {
+        matches!(
+            ty,
+            Type::Function(_, _) | Type::Union(_) | Type::Forall(_, _) | Type::Lam(_, _)
+        )
+    };
+    fmt_operand(f, head, loose(head) && !is_partial(head))?;
+    write!(f, " ")?;
+    fmt_operand(f, arg, loose(arg) || is_juxtaposition(arg))
+}
+
+/// `T?`, with `T` in parentheses when the `?` would otherwise bind to its last
+/// part only.
+fn fmt_partial(f: &mut fmt::Formatter<'_>, inner: &Type) -> fmt::Result {
+    let loose = matches!(
+        inner,
+        Type::Function(_, _) | Type::Union(_) | Type::Forall(_, _) | Type::Lam(_, _)
+    );
+    fmt_operand(f, inner, loose && !is_partial(inner))?;
+    write!(f, "?")
+}
+
+fn fmt_operand(f: &mut fmt::Formatter<'_>, ty: &Type, parens: bool) -> fmt::Result {
+    if parens {
+        write!(f, "({ty})")
+    } else {
+        write!(f, "{ty}")
+    }
+}
+
+/// Does this type display with a trailing `?`?
+fn is_partial(ty: &Type) -> bool {
+    matches!(ty, Type::Union(ts) if ts.len() == 2 && ts.contains(&Type::ExecutionError))
+}
+
+/// Does this type display as an application by juxtaposition?
+fn is_juxtaposition(ty: &Type) -> bool {
+    match ty {
+        Type::App(head, _) => match head.as_ref() {
+            Type::Con(name) => !matches!(
+                name.as_str(),
+                "List" | "IO" | "Dict" | "NonEmpty" | "Random" | "State"
+            ),
+            Type::App(inner, _) => !matches!(
+                inner.as_ref(),
+                Type::Con(name) if matches!(name.as_str(), "Lens" | "Traversal")
+            ),
+            _ => true,
+        },
+        _ => false,
+    }
 }
 
 // ── humanise ─────────────────────────────────────────────────────────────────
-- 
2.43.0


From 153a67933e11a75e7703c1221e23e4e12e40bbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:38 +0000
Subject: [PATCH 56/56] fix: type-str writes types that read back as the same
 type

---
 lib/reflect.eu | 50 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/lib/reflect.eu b/lib/reflect.eu
index a484a39..e8cb3b3 100644
--- a/lib/reflect.eu
+++ b/lib/reflect.eu
@@ -25,9 +25,29 @@ type-str(td):
 
     prim-str(name-sym): prim-names lookup-or(name-sym, str.of(name-sym))
 
-    needs-parens: set.from-list[:t-fn, :t-union, :t-partial]
-
-    wrap(td, s): (td first) ∈ needs-parens then("({s})", s)
+    loose: set.from-list[:t-fn, :t-union, :t-forall, :t-lam]
+
+    # The operands of an arrow, of a postfix `?` and of an application keep
+    # the parentheses they need.
+    parens-if(c, s): c then("({s})", s)
+    loose?(td): (td first) ∈ loose
+    wrap(td, s): parens-if(loose?(td) ∨ ((td first) = :t-partial), s)
+    wrap-loose(td, s): parens-if(loose?(td), s)
+    wrap-arg(td, s): parens-if(loose?(td) ∨ ((td first) = :t-partial) ∨ juxtaposed?(td), s)
+
+    # Is an application written with a space, rather than like a call?
+    pair-con?(f): ((f first) = :t-app) ∧ (((f second) = [:t-con, :Lens]) ∨ ((f second) = [:t-con, :Traversal]))
+    named-con?(f): (f = [:t-con, :IO]) ∨ (f = [:t-con, :Dict]) ∨ (f = [:t-con, :NonEmpty])
+    juxtaposed?(td): ((td first) = :t-app) ∧ ((named-con?(td second) ∨ pair-con?(td second)) not)
+
+    forall-str(vs, s): {
+      names: vs list? then(vs map(str.of) str.join-on(" "), str.of(vs))
+    }."forall {names}. {s}"
+
+    lit-str(s): {
+      slashed: s str.replace("\\", c"\\\\")
+      quoted: slashed str.replace(c"\"", c"\\\"")
+    }.c"\"{quoted}\""
 
     fn-str(a, b): {
       a-r: wrap(a, a to-str)
@@ -57,20 +77,30 @@ type-str(td):
 
     app-str(f, x):
       { x-str: to-str(x)
-        f-str: to-str(f)
+        f-str: wrap-loose(f, to-str(f))
+        arg-str: wrap-arg(x, x-str)
+        first-str: to-str(f !! 2)
+        con-str: (f second) second
       }.(cond[
           f = [:t-con, :IO]       => "IO({x-str})"
         , f = [:t-con, :Dict]     => "Dict({x-str})"
         , f = [:t-con, :NonEmpty] => "NonEmpty([{x-str}])"
-        , "{f-str} {x-str}"
+        , pair-con?(f)          => "{con-str}({first-str}, {x-str})"
+        , "{f-str} {arg-str}"
         ])
 
-    tuple-str(ts): ts map(to-str) str.join-on(", ") "({})"
+    tuple-str(ts): {
+      body: ts map(to-str) str.join-on(", ")
+      tail: ((ts count) = 1) then(",", "")
+    }."({body}{tail})"
 
     prefix-list-str(prefix, tail):
       { tail-str: to-str(tail)
       }.(prefix map(to-str) snoc("{tail-str}…") str.join-on(", ") "[{}]")
 
+    quantified: set.from-list[:t-forall, :t-lam]
+    alt-str(td): parens-if((td first) ∈ quantified, to-str(td))
+
     to-str[tag : rest]:
       { r0: rest first
         r1: rest second
@@ -82,16 +112,16 @@ type-str(td):
         , tag = :t-fn      => fn-str(r0, r1)
         , tag = :t-con     => "{r0}"
         , tag = :t-app     => app-str(r0, r1)
-        , tag = :t-union   => rest map(to-str) str.join-on(" | ")
-        , tag = :t-partial => "{s0}?"
+        , tag = :t-union   => rest map(alt-str) str.join-on(" | ")
+        , tag = :t-partial => wrap-loose(r0, s0) str.suffix("?")
         , tag = :t-tuple   => tuple-str(rest)
         , tag = :t-prefix-list => prefix-list-str(r0, r1)
         , tag = :t-record  => record-str(r0, open-flag(rest))
         , tag = :t-var     => "{r0}"
         , tag = :t-lit-sym => ":{r0}"
-        , tag = :t-lit-str => c"\"{r0}\""
+        , tag = :t-lit-str => lit-str(r0)
         , tag = :t-mu      => "{r0}"
-        , tag = :t-forall  => "forall {r0}. {s1}"
+        , tag = :t-forall  => forall-str(r0, s1)
         , tag = :t-lam     => "λ{r0}. {s1}"
         , "any"
         ])
-- 
2.43.0

