From cc9d62a0054d073189d15568c87e76a2dc4611c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 01/11] fix: don't try the separator once a repetition has
 reached its maximum

The separator was matched before the upper bound was checked, so a full
repetition like `e **<2> sep` still tried another `sep`, reported its
tokens as expected, and could move the error location past the end of the
match.
---
 peg-macros/translate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index 326fa53..a4d8fa6 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -733,8 +733,8 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
                 loop {
                     let __pos = __repeat_pos;
 
-                    #match_sep
                     #max_check
+                    #match_sep
 
                     let __step_res = #inner;
                     match __step_res {
-- 
2.43.0


From e2a94a4dabc70cc59b3f8c0ccb442582800bd5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 02/11] fix: bind labels on literals

The label of `x:"lit"` was ignored, so using `x` in the action was a
compile error or silently referred to an earlier binding of the same name.
---
 peg-macros/translate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index a4d8fa6..9aad125 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -457,7 +457,7 @@ fn compile_expr_continuation(
 
     let result_pat = name_or_ignore(result_name);
     match e.expr {
-        LiteralExpr(ref s) => compile_literal_expr(s, continuation),
+        LiteralExpr(ref s) if result_name.is_none() => compile_literal_expr(s, continuation),
 
         PatternExpr(ref pattern) => {
             let result_name = result_name
-- 
2.43.0


From b093cce8fa4b9c811e473b90fcad3db41ab2a1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 03/11] fix: don't lose failures of a cached rule first tried
 inside quiet!{} or a lookahead

A cache hit on a result that was computed while failures were suppressed
skipped reporting the rule's failures, giving a wrong error location and
expected set. Remember for each cached result whether its failures were
reported. grammar.rs regenerated.
---
 peg-macros/grammar.rs   | 13 ++++++++++---
 peg-macros/translate.rs | 32 ++++++++++++++++++++------------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/peg-macros/grammar.rs b/peg-macros/grammar.rs
index b77dbe3..c5b1549 100644
--- a/peg-macros/grammar.rs
+++ b/peg-macros/grammar.rs
@@ -7,7 +7,7 @@ pub mod peg {
     #[allow(unused_parens)]
     struct ParseState<'input> {
         _phantom: ::core::marker::PhantomData<(&'input ())>,
-        primary_cache: ::std::collections::HashMap<usize, ::peg::RuleResult<SpannedExpr>>,
+        primary_cache: ::std::collections::HashMap<(usize, bool), ::peg::RuleResult<SpannedExpr>>,
     }
     impl<'input> ParseState<'input> {
         fn new() -> ParseState<'input> {
@@ -3468,7 +3468,12 @@ pub mod peg {
         __pos: usize,
     ) -> ::peg::RuleResult<SpannedExpr> {
         #![allow(non_snake_case, unused, clippy::redundant_closure_call)]
-        if let Some(entry) = __state.primary_cache.get(&__pos) {
+        let __quiet = __err_state.suppress_fail > 0;
+        let mut __entry = __state.primary_cache.get(&(__pos, false));
+        if __entry.is_none() && __quiet {
+            __entry = __state.primary_cache.get(&(__pos, true));
+        }
+        if let Some(entry) = __entry {
             return entry.clone();
         }
         let __rule_result = {
@@ -3776,7 +3781,9 @@ pub mod peg {
                 }
             }
         };
-        __state.primary_cache.insert(__pos, __rule_result.clone());
+        __state
+            .primary_cache
+            .insert((__pos, __quiet), __rule_result.clone());
         __rule_result
     }
     fn __parse_rule_arg<'input>(
diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index 9aad125..053bb2e 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -163,7 +163,7 @@ fn make_parse_state(grammar: &Grammar) -> TokenStream {
             let name = format_ident!("{}_cache", rule.name);
             let ret_ty = rule.ret_type.clone().unwrap_or_else(|| quote!(()));
             cache_fields_def.push(
-                quote_spanned! { span =>  #name: ::std::collections::HashMap<usize, ::peg::RuleResult<#ret_ty>> },
+                quote_spanned! { span =>  #name: ::std::collections::HashMap<(usize, bool), ::peg::RuleResult<#ret_ty>> },
             );
             cache_fields.push(name);
         }
@@ -275,15 +275,26 @@ fn compile_rule(context: &Context, rule: &Rule) -> TokenStream {
                 quote!()
             };
 
+            // A result found while failures are suppressed has not reported its failures, so it
+            // must not be used where they are reported. The opposite is fine.
+            let cache_lookup = quote_spanned! { span =>
+                let __quiet = __err_state.suppress_fail > 0;
+                let mut __entry = __state.#cache_field.get(&(__pos, false));
+                if __entry.is_none() && __quiet {
+                    __entry = __state.#cache_field.get(&(__pos, true));
+                }
+                if let Some(entry) = __entry {
+                    #cache_trace
+                    return entry.clone();
+                }
+            };
+
             match cache_type {
                 Cache::Simple => quote_spanned! { span =>
-                    if let Some(entry) = __state.#cache_field.get(&__pos) {
-                        #cache_trace
-                        return entry.clone();
-                    }
+                    #cache_lookup
 
                     let __rule_result = #wrapped_body;
-                    __state.#cache_field.insert(__pos, __rule_result.clone());
+                    __state.#cache_field.insert((__pos, __quiet), __rule_result.clone());
                     __rule_result
                 },
                 Cache::Recursive =>
@@ -291,12 +302,9 @@ fn compile_rule(context: &Context, rule: &Rule) -> TokenStream {
                 // <https://medium.com/@gvanrossum_83706/left-recursive-peg-grammars-65dab3c580e1>
                 {
                     quote_spanned! { span =>
-                        if let Some(entry) = __state.#cache_field.get(&__pos) {
-                            #cache_trace
-                            return entry.clone();
-                        }
+                        #cache_lookup
 
-                        __state.#cache_field.insert(__pos, ::peg::RuleResult::Failed);
+                        __state.#cache_field.insert((__pos, __quiet), ::peg::RuleResult::Failed);
                         let mut __last_result = ::peg::RuleResult::Failed;
                         loop {
                             let __current_result = { #wrapped_body };
@@ -306,7 +314,7 @@ fn compile_rule(context: &Context, rule: &Rule) -> TokenStream {
                                     match __last_result {
                                         ::peg::RuleResult::Matched(__last_endpos, _) if __current_endpos <= __last_endpos => break,
                                         _ => {
-                                            __state.#cache_field.insert(__pos, __current_result.clone());
+                                            __state.#cache_field.insert((__pos, __quiet), __current_result.clone());
                                             __last_result = __current_result;
                                         },
                                     }
-- 
2.43.0


From 4e915203b56941c25247e04b9cc7274aedd94109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 04/11] fix: parse generic arguments of an unlabeled rule call

`list::<T>(..)` was read as a label `list:` followed by a stray `:`, so a
call with generic arguments was a syntax error unless it was labeled.
grammar.rs regenerated.
---
 peg-macros/grammar.rs      | 37 +++++++++++++++++++++++++++++++------
 peg-macros/grammar.rustpeg |  2 +-
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/peg-macros/grammar.rs b/peg-macros/grammar.rs
index c5b1549..caef881 100644
--- a/peg-macros/grammar.rs
+++ b/peg-macros/grammar.rs
@@ -2905,14 +2905,39 @@ pub mod peg {
                 let __seq_res = __parse_IDENT(__input, __state, __err_state, __pos);
                 match __seq_res {
                     ::peg::RuleResult::Matched(__pos, l) => {
-                        match ::peg::ParseLiteral::parse_string_literal(__input, __pos, ":") {
-                            ::peg::RuleResult::Matched(__pos, __val) => {
-                                ::peg::RuleResult::Matched(__pos, (|| l)())
+                        let __seq_res = {
+                            __err_state.suppress_fail += 1;
+                            let __assert_res = match ::peg::ParseLiteral::parse_string_literal(
+                                __input, __pos, "::",
+                            ) {
+                                ::peg::RuleResult::Matched(__pos, __val) => {
+                                    ::peg::RuleResult::Matched(__pos, __val)
+                                }
+                                ::peg::RuleResult::Failed => {
+                                    __err_state.mark_failure(__pos, "\"::\"");
+                                    ::peg::RuleResult::Failed
+                                }
+                            };
+                            __err_state.suppress_fail -= 1;
+                            match __assert_res {
+                                ::peg::RuleResult::Failed => ::peg::RuleResult::Matched(__pos, ()),
+                                ::peg::RuleResult::Matched(..) => ::peg::RuleResult::Failed,
                             }
-                            ::peg::RuleResult::Failed => {
-                                __err_state.mark_failure(__pos, "\":\"");
-                                ::peg::RuleResult::Failed
+                        };
+                        match __seq_res {
+                            ::peg::RuleResult::Matched(__pos, _) => {
+                                match ::peg::ParseLiteral::parse_string_literal(__input, __pos, ":")
+                                {
+                                    ::peg::RuleResult::Matched(__pos, __val) => {
+                                        ::peg::RuleResult::Matched(__pos, (|| l)())
+                                    }
+                                    ::peg::RuleResult::Failed => {
+                                        __err_state.mark_failure(__pos, "\":\"");
+                                        ::peg::RuleResult::Failed
+                                    }
+                                }
                             }
+                            ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                         }
                     }
                     ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
diff --git a/peg-macros/grammar.rustpeg b/peg-macros/grammar.rustpeg
index e4dfd4d..eb083c1 100644
--- a/peg-macros/grammar.rustpeg
+++ b/peg-macros/grammar.rustpeg
@@ -113,7 +113,7 @@ rule sequence() -> SpannedExpr
     }
 
 rule labeled() -> TaggedExpr
-    = label:(l:IDENT() ":" {l})? expression:suffixed()
+    = label:(l:IDENT() !"::" ":" {l})? expression:suffixed()
         { TaggedExpr{ name: label, expr: expression } }
 
 rule suffixed() -> SpannedExpr
-- 
2.43.0


From 74387cd746d801332f924bd6e12b4c74ce427a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 05/11] fix: detect left recursion through the separator of a
 repetition

When the repeated expression can match without consuming input, the
separator is reached at the same position.
---
 peg-macros/analysis.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 0e2409a..558d334 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -138,8 +138,11 @@ impl<'a> LeftRecursionVisitor<'a> {
                 true
             }
 
-            Repeat { ref inner, ref bound, .. } => {
+            Repeat { ref inner, ref bound, ref sep } => {
                 let inner_nullable = self.walk_expr(inner);
+                if let (true, Some(sep)) = (inner_nullable, sep) {
+                    self.walk_expr(sep);
+                }
                 inner_nullable | !bound.has_lower_bound()
             }
 
-- 
2.43.0


From b08f14412a1df5cb3b913ec4783f47c7b0d435dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 06/11] fix: detect infinite loops inside rule arguments

A repetition whose body can match without consuming input was accepted
when written inside a `<..>` argument of a rule call.
---
 peg-macros/analysis.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 558d334..cda4c9a 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -224,7 +224,13 @@ impl<'a> LoopNullabilityVisitor<'a> {
     fn walk_expr(&mut self, this_expr: &SpannedExpr) -> bool {
         use self::Expr::*;
         match this_expr.expr {
-            RuleExpr(ref rule_ident, _, _) => {
+            RuleExpr(ref rule_ident, _, ref rule_args) => {
+                for arg in rule_args {
+                    if let RuleArg::Peg(expr) = arg {
+                        self.walk_expr(expr);
+                    }
+                }
+
                 let name = rule_ident.to_string();
                 *self.rule_nullability.get(&name).unwrap_or(&false)
             }
-- 
2.43.0


From 17a14b728796b7a4139c09f6ddf56dbec774889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 07/11] fix: a rule parameter hides a rule of the same name in
 the analysis

The left recursion and loop checks looked up calls of a rule-valued
parameter as calls of the global rule with that name and could reject a
valid grammar.
---
 peg-macros/analysis.rs | 15 +++++++++++++++
 peg-macros/ast.rs      |  6 ++++++
 2 files changed, 21 insertions(+)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index cda4c9a..3b9cbd9 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -33,6 +33,7 @@ pub fn check<'a>(grammar: &'a Grammar) -> GrammarAnalysis<'a> {
 /// recurse until the stack overflows.
 struct LeftRecursionVisitor<'a> {
     stack: Vec<String>,
+    rule: Option<&'a Rule>,
     rules: &'a HashMap<String, &'a Rule>,
     errors: Vec<LeftRecursionError>,
 }
@@ -57,6 +58,7 @@ impl<'a> LeftRecursionVisitor<'a> {
             rules,
             errors: Vec::new(),
             stack: Vec::new(),
+            rule: None,
         };
 
         let mut rule_nullability: HashMap<String, bool> = HashMap::new();
@@ -72,7 +74,9 @@ impl<'a> LeftRecursionVisitor<'a> {
 
     fn walk_rule(&mut self, rule: &'a Rule) -> bool {
         self.stack.push(rule.name.to_string());
+        let caller = self.rule.replace(rule);
         let res = self.walk_expr(&rule.expr);
+        self.rule = caller;
         self.stack.pop().unwrap();
         res
     }
@@ -89,6 +93,11 @@ impl<'a> LeftRecursionVisitor<'a> {
             RuleExpr(ref rule_ident, _, _) => {
                 let name = rule_ident.to_string();
 
+                if self.rule.map_or(false, |rule| rule.has_param(&name)) {
+                    // A parameter of the current rule, whatever other rule has that name
+                    return false;
+                }
+
                 if let Some(rule) = self.rules.get(&name) {
                     if let Some(loop_start) = self
                         .stack
@@ -182,6 +191,7 @@ impl<'a> LeftRecursionVisitor<'a> {
 /// Check for loops whose body can succeed without consuming any input, which
 /// will loop infinitely.
 struct LoopNullabilityVisitor<'a> {
+    rule: Option<&'a Rule>,
     rule_nullability: &'a HashMap<String, bool>,
     errors: Vec<LoopNullabilityError>,
 }
@@ -200,11 +210,13 @@ impl LoopNullabilityError {
 impl<'a> LoopNullabilityVisitor<'a> {
     fn check(grammar: &'a Grammar, rule_nullability: &HashMap<String, bool>) -> Vec<LoopNullabilityError> {
         let mut visitor = LoopNullabilityVisitor {
+            rule: None,
             rule_nullability,
             errors: Vec::new(),
         };
 
         for rule in grammar.iter_rules() {
+            visitor.rule = Some(rule);
             visitor.walk_expr(&rule.expr);
         }
 
@@ -232,6 +244,9 @@ impl<'a> LoopNullabilityVisitor<'a> {
                 }
 
                 let name = rule_ident.to_string();
+                if self.rule.map_or(false, |rule| rule.has_param(&name)) {
+                    return false;
+                }
                 *self.rule_nullability.get(&name).unwrap_or(&false)
             }
 
diff --git a/peg-macros/ast.rs b/peg-macros/ast.rs
index d5f7e8a..6b59702 100644
--- a/peg-macros/ast.rs
+++ b/peg-macros/ast.rs
@@ -47,6 +47,12 @@ pub struct Rule {
     pub no_eof: bool,
 }
 
+impl Rule {
+    pub fn has_param(&self, name: &str) -> bool {
+        self.params.iter().any(|param| param.name == name)
+    }
+}
+
 #[derive(Debug)]
 pub struct RuleParam {
     pub name: Ident,
-- 
2.43.0


From 917a353bc61ef399a7bb1c487ccffbc22e470153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 08/11] fix: detect infinite loops through empty operators of
 precedence!{}

---
 peg-macros/analysis.rs | 27 ++++++++++++++++++++++++---
 peg-macros/ast.rs      | 10 ++++++++++
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 3b9cbd9..defdba3 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -287,17 +287,38 @@ impl<'a> LoopNullabilityVisitor<'a> {
 
             PrecedenceExpr { ref levels } => {
                 let mut nullable = false;
+                let mut empty_unary = Vec::new();
+                let mut empty_infix = Vec::new();
 
                 for level in levels {
                     for operator in &level.operators {
-                        let mut operator_nullable = true;
+                        let mut operands = 0;
+                        let mut rest_nullable = true;
                         for element in &operator.elements {
-                            operator_nullable &= self.walk_expr(&element.expr);
+                            match element.expr.expr {
+                                MarkerExpr(_) => operands += 1,
+                                _ => rest_nullable &= self.walk_expr(&element.expr),
+                            }
+                        }
+
+                        if rest_nullable {
+                            match (operands, operator.is_span_capture()) {
+                                (0, _) => nullable = true,
+                                (1, true) => (),
+                                (1, false) => empty_unary.push(operator.span),
+                                _ => empty_infix.push(operator.span),
+                            }
                         }
-                        nullable |= operator_nullable;
                     }
                 }
 
+                // A prefix or postfix operator that matches without consuming input can be
+                // applied forever, and so can an infix operator between such operands.
+                if nullable {
+                    empty_unary.append(&mut empty_infix);
+                }
+                self.errors.extend(empty_unary.into_iter().map(|span| LoopNullabilityError { span }));
+
                 nullable
             }
 
diff --git a/peg-macros/ast.rs b/peg-macros/ast.rs
index 6b59702..dc2c19e 100644
--- a/peg-macros/ast.rs
+++ b/peg-macros/ast.rs
@@ -123,6 +123,16 @@ pub struct PrecedenceOperator {
     pub action: Group,
 }
 
+impl PrecedenceOperator {
+    /// Is this `l:position!() n:@ r:position!()`?
+    pub fn is_span_capture(&self) -> bool {
+        match self.elements.as_slice() {
+            [l, _, r] => matches!((&l.expr.expr, &r.expr.expr), (Expr::PositionExpr, Expr::PositionExpr)),
+            _ => false,
+        }
+    }
+}
+
 #[derive(Debug, Clone)]
 pub enum BoundedRepeat {
     None,
-- 
2.43.0


From df980598ebe6e324be8fe86c3318e161b4daf0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 09/11] fix: detect left recursion through operators that
 follow an empty operand

---
 peg-macros/analysis.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index defdba3..33e5598 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -81,6 +81,11 @@ impl<'a> LeftRecursionVisitor<'a> {
         res
     }
 
+    /// Walk the elements of a sequence up to the first one that consumes input.
+    fn walk_elements(&mut self, elems: &[TaggedExpr]) -> bool {
+        elems.iter().all(|elem| self.walk_expr(&elem.expr))
+    }
+
     /// Walk the prefix of an expression that can be reached without consuming
     /// input.
     ///
@@ -124,15 +129,7 @@ impl<'a> LeftRecursionVisitor<'a> {
                 }
             }
 
-            ActionExpr(ref elems, ..) => {
-                for elem in elems {
-                    if !self.walk_expr(&elem.expr) {
-                        return false;
-                    }
-                }
-
-                true
-            }
+            ActionExpr(ref elems, ..) => self.walk_elements(elems),
 
             ChoiceExpr(ref choices) => {
                 let mut nullable = false;
@@ -162,14 +159,18 @@ impl<'a> LeftRecursionVisitor<'a> {
 
                 for level in levels {
                     for operator in &level.operators {
-                        let mut operator_nullable = true;
-                        for element in &operator.elements {
-                            if !self.walk_expr(&element.expr) {
-                                operator_nullable = false;
-                                break;
+                        nullable |= self.walk_elements(&operator.elements);
+                    }
+                }
+
+                // Infix and postfix operators follow an operand, which may be empty
+                if nullable {
+                    for level in levels {
+                        for operator in &level.operators {
+                            if let Some((TaggedExpr { expr: SpannedExpr { expr: MarkerExpr(_), .. }, .. }, rest)) = operator.elements.split_first() {
+                                self.walk_elements(rest);
                             }
                         }
-                        nullable |= operator_nullable;
                     }
                 }
 
-- 
2.43.0


From 1af759cdaccf67930b0a67d48d7fc4d78f460027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 10/11] fix: detect left recursion behind an empty match of a
 left-recursive rule

---
 peg-macros/analysis.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 33e5598..1dd32c1 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -35,6 +35,7 @@ struct LeftRecursionVisitor<'a> {
     stack: Vec<String>,
     rule: Option<&'a Rule>,
     rules: &'a HashMap<String, &'a Rule>,
+    rule_nullability: HashMap<String, bool>,
     errors: Vec<LeftRecursionError>,
 }
 
@@ -59,17 +60,25 @@ impl<'a> LeftRecursionVisitor<'a> {
             errors: Vec::new(),
             stack: Vec::new(),
             rule: None,
+            rule_nullability: HashMap::new(),
         };
 
-        let mut rule_nullability: HashMap<String, bool> = HashMap::new();
+        // What follows a recursive call that matches without consuming input can be reached only
+        // once the nullability of the rules is known, so walk the grammar a second time.
+        for _ in 0..2 {
+            visitor.errors.clear();
+            let mut rule_nullability: HashMap<String, bool> = HashMap::new();
 
-        for rule in grammar.iter_rules() {
-            let nullable = visitor.walk_rule(rule);
-            debug_assert!(visitor.stack.is_empty());
-            rule_nullability.entry(rule.name.to_string()).or_insert(nullable);
+            for rule in grammar.iter_rules() {
+                let nullable = visitor.walk_rule(rule);
+                debug_assert!(visitor.stack.is_empty());
+                rule_nullability.entry(rule.name.to_string()).or_insert(nullable);
+            }
+
+            visitor.rule_nullability = rule_nullability;
         }
 
-        (rule_nullability, visitor.errors)
+        (visitor.rule_nullability, visitor.errors)
     }
 
     fn walk_rule(&mut self, rule: &'a Rule) -> bool {
@@ -120,7 +129,7 @@ impl<'a> LeftRecursionVisitor<'a> {
                             _ => ()
 
                         }
-                        return false;
+                        return self.rule_nullability.get(&name).map_or(false, |nullable| *nullable);
                     }
                     self.walk_rule(rule)
                 } else {
-- 
2.43.0


From d0ae1e207ac41c9648ff1ad9ed1eca20b96e5442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:15 +0000
Subject: [PATCH 11/11] fix: report @ outside precedence!{} and misshapen
 operators as such wherever they are written

The error was emitted as a statement where an expression is expected, so inside most
expressions rustc complained about the generated code instead.
---
 peg-macros/translate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index 053bb2e..bd8ca0a 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -848,7 +848,7 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
                     let op_span = op.span.resolved_at(Span::mixed_site());
 
                     if op.elements.is_empty() {
-                        return report_error(op_span, "incomplete rule".to_string());
+                        return report_error_expr(op_span, "incomplete rule".to_string());
                     }
 
                     let left_arg = &op.elements[0];
@@ -875,7 +875,7 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
                             match &op.elements[1].expr.expr {
                                 &MarkerExpr(..) => (),
                                 _ => {
-                                    return report_error(op_span, "span capture rule must be `l:position!() n:@ r:position!()".to_string());
+                                    return report_error_expr(op_span, "span capture rule must be `l:position!() n:@ r:position!()".to_string());
                                 }
                             }
 
@@ -891,7 +891,7 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
                             let new_prec = match (la, ra) {
                                 (true, false) => prec + 1, // left associative
                                 (false, true) => prec,     // right associative
-                                _ => return report_error(op_span, "precedence rules must use `@` and `(@)` to indicate associativity".to_string())
+                                _ => return report_error_expr(op_span, "precedence rules must use `@` and `(@)` to indicate associativity".to_string())
                             };
 
                             post_rules.push(
@@ -1035,7 +1035,7 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
             }}
         }
         MarkerExpr { .. } => {
-            report_error(span, "`@` is only allowed in `precedence!{}`".to_string())
+            report_error_expr(span, "`@` is only allowed in `precedence!{}`".to_string())
         }
     }
 }
-- 
2.43.0

