From afc4bacbd557b25bb8e87d8ab42ff0c6fe025c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 1/9] fix: do not implement a shared dependency twice in
 enum_derive

`#[enum_derive(DoubleEndedIterator, ExactSizeIterator)]` added `Iterator` once
per dependent trait, so the generated impls conflicted.
---
 src/enum_derive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index dd85f65..df0b8df 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -266,7 +266,7 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
     let args = args.iter().fold(vec![], |mut v, (s, arg)| {
         if let Some(traits) = get_trait_deps(s) {
             for s in traits.iter().filter(|&x| !args.iter().any(|(s, _)| s == x)) {
-                if !exists_alias(s, &v) {
+                if !exists_alias(s, &v) && !v.iter().any(|(x, _)| x == s) {
                     v.push((s, None));
                 }
             }
-- 
2.43.0


From a4a7bc95324a6f6afd66a3e80cdd5594a14b5e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 2/9] fix: do not treat return and ? in async blocks as
 branches of the enclosing function

---
 src/auto_enum/visitor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index b046fd8..8950bdc 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -13,7 +13,7 @@ use crate::utils::{Attrs, Node, replace_expr};
 
 #[derive(Clone, Copy, Default)]
 struct Scope {
-    /// in closures
+    /// in closures or async blocks
     closure: bool,
     /// in try blocks
     try_block: bool,
@@ -25,7 +25,8 @@ impl Scope {
     // check this scope is in closures or try blocks.
     fn check_expr(&mut self, expr: &Expr) {
         match expr {
-            Expr::Closure(_) => self.closure = true,
+            // `return` and `?` in async blocks belong to the async block.
+            Expr::Closure(_) | Expr::Async(_) => self.closure = true,
             // `?` operator in try blocks are not supported.
             Expr::TryBlock(_) => self.try_block = true,
             _ => {}
-- 
2.43.0


From c7bca8369056c4d7a54f751342c7904bec4924a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 3/9] fix: do not collect the same trait twice from nested impl
 Trait

---
 src/auto_enum/type_analysis.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auto_enum/type_analysis.rs b/src/auto_enum/type_analysis.rs
index 7948b02..3d52eeb 100644
--- a/src/auto_enum/type_analysis.rs
+++ b/src/auto_enum/type_analysis.rs
@@ -28,7 +28,9 @@ pub(super) fn collect_impl_trait(args: &[Path], traits: &mut Vec<Path>, ty: &mut
                         && !self.args.iter().any(|x| x.to_token_stream().to_string() == ty_str)
                     {
                         self.has_impl_trait = true;
-                        self.traits.push(ty);
+                        if !self.traits.iter().any(|x| x.to_token_stream().to_string() == ty_str) {
+                            self.traits.push(ty);
+                        }
                     }
                 }
             }
-- 
2.43.0


From e4afe67efd03ff918b1ca4b1c0fc32c99fe43ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 4/9] fix: implement error::Error collected by type analysis

`error::Error` is collected from `impl error::Error`, but enum_derive did not
know the name and passed it to `#[derive]`.
---
 src/derive/std/error.rs | 2 +-
 src/enum_derive.rs      | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/derive/std/error.rs b/src/derive/std/error.rs
index d892df9..81e49a7 100644
--- a/src/derive/std/error.rs
+++ b/src/derive/std/error.rs
@@ -2,7 +2,7 @@
 
 use crate::derive::prelude::*;
 
-pub(crate) const NAME: &[&str] = &["Error"];
+pub(crate) const NAME: &[&str] = &["Error", "error::Error"];
 
 pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
     let ident = &data.ident;
diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index df0b8df..8ac6ef4 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -217,7 +217,7 @@ fn get_trait_deps(s: &str) -> Option<&'static [&'static str]> {
         #[cfg(feature = "std")]
         "BufRead" | "io::BufRead" => &["Read"],
         #[cfg(feature = "std")]
-        "Error" => &["Display", "Debug"],
+        "Error" | "error::Error" => &["Display", "Debug"],
         #[cfg(feature = "rayon")]
         "rayon::IndexedParallelIterator" => &["rayon::ParallelIterator"],
         _ => return None,
@@ -252,6 +252,8 @@ fn exists_alias(s: &str, v: &[(&str, Option<&Path>)]) -> bool {
             std::io::seek,
             #[cfg(feature = "std")]
             std::io::write,
+            #[cfg(feature = "std")]
+            std::error,
         }
 
         None
-- 
2.43.0


From 2725da9c88e3626e9d6365d97a77c2bd073f2124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:51 +0000
Subject: [PATCH 5/9] fix: add missing trait dependencies of async I/O traits
 in enum_derive

---
 src/enum_derive.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index 8ac6ef4..7f6f61e 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -220,6 +220,18 @@ fn get_trait_deps(s: &str) -> Option<&'static [&'static str]> {
         "Error" | "error::Error" => &["Display", "Debug"],
         #[cfg(feature = "rayon")]
         "rayon::IndexedParallelIterator" => &["rayon::ParallelIterator"],
+        #[cfg(feature = "futures03")]
+        "futures03::AsyncBufRead" => &["futures03::AsyncRead"],
+        #[cfg(feature = "tokio1")]
+        "tokio1::AsyncBufRead" => &["tokio1::AsyncRead"],
+        #[cfg(feature = "tokio03")]
+        "tokio03::AsyncBufRead" => &["tokio03::AsyncRead"],
+        #[cfg(feature = "tokio02")]
+        "tokio02::AsyncBufRead" => &["tokio02::AsyncRead"],
+        #[cfg(all(feature = "std", feature = "tokio01"))]
+        "tokio01::AsyncRead" => &["Read"],
+        #[cfg(all(feature = "std", feature = "tokio01"))]
+        "tokio01::AsyncWrite" => &["Write"],
         _ => return None,
     })
 }
-- 
2.43.0


From 926c5261e01f098f9c24bc656f214cd035b83973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:13 +0000
Subject: [PATCH 6/9] fix: do not wrap break to a shadowing label

In `'a: loop { 'a: loop { break 'a x } .. }` the inner break leaves the inner loop.
---
 src/auto_enum/expr.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index 3c277fc..99fbfab 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -1,9 +1,9 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use syn::{
-    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprIf, ExprLoop, ExprMacro, ExprMatch,
-    ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, Item, Label, Lifetime, LocalInit,
-    Macro, Stmt, StmtMacro, Token,
+    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprForLoop, ExprIf, ExprLoop, ExprMacro,
+    ExprMatch, ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, ExprWhile, Item, Label,
+    Lifetime, LocalInit, Macro, Stmt, StmtMacro, Token,
     visit_mut::{self, VisitMut},
 };
 
@@ -173,12 +173,23 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
                 // Stop at closure / async block bounds
                 Expr::Closure(_) | Expr::Async(_) => return,
                 // Other loop bounds
-                Expr::Loop(_) | Expr::ForLoop(_) | Expr::While(_) => {
-                    if self.label.is_none() {
+                Expr::Loop(ExprLoop { label, .. })
+                | Expr::ForLoop(ExprForLoop { label, .. })
+                | Expr::While(ExprWhile { label, .. }) => {
+                    // The label may be shadowed by the label of the other loop.
+                    if self.label.is_none()
+                        || self.compare_labels(label.as_ref().map(|label| &label.name))
+                    {
                         return;
                     }
                     self.nested = true;
                 }
+                // The label may be shadowed by the label of the block.
+                Expr::Block(ExprBlock { label: Some(label), .. })
+                    if self.compare_labels(Some(&label.name)) =>
+                {
+                    return;
+                }
                 // Desugar `break <expr>` into `break Enum::VariantN(<expr>)`.
                 Expr::Break(ExprBreak { label, expr, .. }) => {
                     if !self.nested && label.is_none() || self.compare_labels(label.as_ref()) {
-- 
2.43.0


From 5e092e92a62c4ed4717f3a77bdeb33f3c844d79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 7/9] fix: do not wrap branches of a #[nested] value expression
 twice

---
 src/auto_enum/expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index 99fbfab..f8f6d85 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -14,7 +14,8 @@ use crate::utils::{Attrs as _, expr_block, path_eq, replace_block, replace_expr}
 ///
 /// Note that do not use this after `cx.visitor()`.
 pub(super) fn child_expr(cx: &mut Context, expr: &mut Expr) {
-    if !cx.visit_last() || is_unreachable(cx, expr) {
+    // Expressions with `#[nested]` are visited later by `cx.visitor()`.
+    if !cx.visit_last() || expr.any_empty_attr(NESTED) || is_unreachable(cx, expr) {
         return;
     }
 
-- 
2.43.0


From 4b1f8d6eefd9819ea0781ec87d0094e89f57173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 8/9] fix: do not wrap #[nested] values of break and return
 themselves

---
 src/auto_enum/context.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/auto_enum/context.rs b/src/auto_enum/context.rs
index d98aeb1..cb07645 100644
--- a/src/auto_enum/context.rs
+++ b/src/auto_enum/context.rs
@@ -14,8 +14,11 @@ use syn::{
     parse_quote,
 };
 
-use super::visitor::{Dummy, Visitor};
-use crate::utils::{Node, expr_call, path, replace_expr, unit};
+use super::{
+    NESTED,
+    visitor::{Dummy, Visitor},
+};
+use crate::utils::{Attrs as _, Node, expr_call, path, replace_expr, unit};
 
 // -----------------------------------------------------------------------------
 // Context
@@ -220,8 +223,8 @@ impl Context {
 
     pub(super) fn replace_boxed_expr(&mut self, expr: &mut Option<Box<Expr>>) {
         replace_expr(expr.get_or_insert_with(|| Box::new(unit())), |expr| {
-            if self.is_marker_expr(&expr) {
-                // Skip if `<expr>` is a marker macro.
+            if self.is_marker_expr(&expr) || expr.any_empty_attr(NESTED) {
+                // Skip if `<expr>` is a marker macro or has `#[nested]`.
                 expr
             } else {
                 self.next_expr(expr)
-- 
2.43.0


From 501956caafd89f02cb0212970589a325deb0709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:07 +0000
Subject: [PATCH 9/9] fix: wrap break in the iterated expression of a for loop

---
 src/auto_enum/expr.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index f8f6d85..3e0a819 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -173,10 +173,21 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
             match node {
                 // Stop at closure / async block bounds
                 Expr::Closure(_) | Expr::Async(_) => return,
+                // The iterated expression of `for` is evaluated outside of that loop.
+                Expr::ForLoop(ExprForLoop { label, expr, body, .. }) => {
+                    self.visit_expr_mut(expr);
+                    // The label may be shadowed by the label of the other loop.
+                    if self.label.is_some()
+                        && !self.compare_labels(label.as_ref().map(|label| &label.name))
+                    {
+                        self.nested = true;
+                        self.visit_block_mut(body);
+                        self.nested = tmp;
+                    }
+                    return;
+                }
                 // Other loop bounds
-                Expr::Loop(ExprLoop { label, .. })
-                | Expr::ForLoop(ExprForLoop { label, .. })
-                | Expr::While(ExprWhile { label, .. }) => {
+                Expr::Loop(ExprLoop { label, .. }) | Expr::While(ExprWhile { label, .. }) => {
                     // The label may be shadowed by the label of the other loop.
                     if self.label.is_none()
                         || self.compare_labels(label.as_ref().map(|label| &label.name))
-- 
2.43.0

