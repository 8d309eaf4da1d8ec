From 187ec8f3eb5fa384a5a90467372e436dd803f99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:40 +0000
Subject: [PATCH 01/37] fix: what a mutable reference owns through a Box (or
 points to through a raw pointer) is writeable

A place such as `*r.b` with `r: &mut S` and `b: Box<i32>` was reported as never
writeable because the binding `r` is not `mut`, and `*p` with `p: *mut i32` likewise.
---
 .../src/analysis/permissions/output.rs        | 47 ++++++++++---------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/output.rs b/crates/aquascope/src/analysis/permissions/output.rs
index 18e86ef..94b07f3 100644
--- a/crates/aquascope/src/analysis/permissions/output.rs
+++ b/crates/aquascope/src/analysis/permissions/output.rs
@@ -18,7 +18,7 @@ use rustc_hir::{BodyId, Mutability};
 use rustc_index::IndexVec;
 use rustc_middle::{
   mir::{Place, ProjectionElem},
-  ty::{TyCtxt, TypingEnv},
+  ty::{self, TyCtxt, TypingEnv},
 };
 use rustc_mir_dataflow::move_paths::MoveData;
 use rustc_utils::{BodyExt, PlaceExt};
@@ -360,29 +360,30 @@ pub fn derive_permission_facts(ctxt: &mut PermissionsCtxt) {
 
   let is_never_write = |path: Path| {
     let place = &ctxt.path_to_place(path);
-    (!place.is_indirect() && ctxt.is_declared_readonly(place)) || {
-      // Iff there exists an immutable prefix it is also `never_write`
-      place
-        .iter_projections()
-        .filter_map(|(prefix, elem)| {
-          matches!(elem, ProjectionElem::Deref).then_some(prefix)
-        })
-        .any(|prefix| {
-          // For a given path `*x` we could be looking at the prefix of
-          // `x`. This could be a reference, in which case we simply check
-          // the mutability of the type.
-          let ty = prefix.ty(&body.local_decls, tcx).ty;
-          if let Some(mutability) = ty.ref_mutability() {
-            return mutability == Mutability::Not;
-          }
-
-          // In the above example of `*x`, example `x` could also be a
-          // `Box`, or for a different base path an array. These cases
-          // would require us to check the mutability binding of the local.
-          let local_place = Place::from_local(prefix.local, tcx);
-          ctxt.is_declared_readonly(&local_place)
-        })
+    let mut behind_mut_ref = false;
+
+    // Look at the dereferences from the outermost one inwards, as the
+    // borrow checker does.
+    let projections = place.iter_projections().collect::<Vec<_>>();
+    for (prefix, elem) in projections.into_iter().rev() {
+      if !matches!(elem, ProjectionElem::Deref) {
+        continue;
+      }
+
+      match prefix.ty(&body.local_decls, tcx).ty.kind() {
+        // Iff there exists an immutable prefix it is also `never_write`
+        ty::Ref(_, _, Mutability::Not) => return true,
+        ty::Ref(_, _, Mutability::Mut) => behind_mut_ref = true,
+        // What lies before a raw pointer has no influence.
+        ty::RawPtr(_, mutability) => return *mutability == Mutability::Not,
+        // A `Box` is as mutable as the place it is stored in.
+        _ => {}
+      }
     }
+
+    // The mutability of the binding matters only for what is not behind a
+    // mutable reference.
+    !behind_mut_ref && ctxt.is_declared_readonly(place)
   };
 
   // .decl loan_conflicts_with(Loan, Path)
-- 
2.43.0


From 707e046da7c5cda9f3a3fe87c5a150e38a04acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 02/37] fix: analysing moves and uses deep inside a recursive
 type does not panic

The analysis domain holds only the places that `all_places` unfolds; a move out of,
or a use of, a deeper place of a recursive type (e.g. the second node of a list)
made `place_to_path` panic.
---
 .../src/analysis/permissions/context.rs       | 24 +++++++++++--------
 .../src/analysis/permissions/output.rs        | 17 +++++++++----
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/context.rs b/crates/aquascope/src/analysis/permissions/context.rs
index 4ed2366..51828d9 100644
--- a/crates/aquascope/src/analysis/permissions/context.rs
+++ b/crates/aquascope/src/analysis/permissions/context.rs
@@ -83,19 +83,23 @@ impl<'tcx> PermissionsCtxt<'tcx> {
 
   /// Convert and normalize a rustc [`Place`] into a [`Path`] understood by Aquascope.
   pub fn place_to_path(&self, p: &Place<'tcx>) -> Path {
+    self.try_place_to_path(p).unwrap_or_else(|| {
+      panic!(
+        "Could not find path for place {p:?}\n Acceptable places are: {:#?}",
+        self.place_data.iter().collect::<Vec<_>>()
+      )
+    })
+  }
+
+  /// The [`Path`] of a rustc [`Place`], if it is part of the analysis domain.
+  pub fn try_place_to_path(&self, p: &Place<'tcx>) -> Option<Path> {
     let p = p.normalize(self.tcx, self.def_id);
-    *self
+    self
       .rev_lookup
-      .get(&p.local)
-      .unwrap()
+      .get(&p.local)?
       .iter()
-      .find(|path| self.path_to_place(**path) == p)
-      .unwrap_or_else(|| {
-        panic!(
-          "Could not find path for place {p:?}\n Acceptable places are: {:#?}",
-          self.place_data.iter().collect::<Vec<_>>()
-        )
-      })
+      .copied()
+      .find(|path| self.path_to_place(*path) == p)
   }
 
   pub fn path_to_place(&self, p: Path) -> Place<'tcx> {
diff --git a/crates/aquascope/src/analysis/permissions/output.rs b/crates/aquascope/src/analysis/permissions/output.rs
index 94b07f3..f1a3b76 100644
--- a/crates/aquascope/src/analysis/permissions/output.rs
+++ b/crates/aquascope/src/analysis/permissions/output.rs
@@ -17,11 +17,11 @@ use rustc_data_structures::fx::{FxHashMap as HashMap, FxHashSet as HashSet};
 use rustc_hir::{BodyId, Mutability};
 use rustc_index::IndexVec;
 use rustc_middle::{
-  mir::{Place, ProjectionElem},
+  mir::{visit::Visitor, ProjectionElem},
   ty::{self, TyCtxt, TypingEnv},
 };
 use rustc_mir_dataflow::move_paths::MoveData;
-use rustc_utils::{BodyExt, PlaceExt};
+use rustc_utils::{mir::place::PlaceCollector, BodyExt, PlaceExt};
 
 use super::{
   context::PermissionsCtxt, flow, AquascopeFacts, Loan, Move, Path, Point,
@@ -180,9 +180,14 @@ pub fn derive_permission_facts(ctxt: &mut PermissionsCtxt) {
   // We consider all place that are either:
   // 1. Internal to a local declaration.
   // 2. A path considered moveable by rustc.
+  // 3. Mentioned in the body: `all_places` does not unfold recursive types
+  //    any further, but programs do.
+  let mut mentioned = PlaceCollector::default();
+  mentioned.visit_body(body);
   let places = body
     .all_places(tcx, def_id.to_def_id())
     .chain(ctxt.move_data.move_paths.iter().map(|v| v.place))
+    .chain(mentioned.0)
     .collect::<Vec<_>>();
 
   // Normalize all places and get the associated AquascopeFacts::Point,
@@ -237,9 +242,11 @@ pub fn derive_permission_facts(ctxt: &mut PermissionsCtxt) {
         place
           .interior_paths(tcx, body, def_id.to_def_id())
           .into_iter()
-          .map(move |place| {
-            let path = ictxt.place_to_path(&place);
-            (move_idx, path)
+          // In a recursive type, not every interior path is of interest.
+          .filter_map(move |place| {
+            ictxt
+              .try_place_to_path(&place)
+              .map(|path| (move_idx, path))
           })
           // Moving a path makes its parent *moveable* paths partially initialized.
           .chain(move_path.parents(&ictxt.move_data.move_paths).map(
-- 
2.43.0


From 21d164dd380888b4f856d5cb36b1f60d679b668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 03/37] fix: the contents of a Box are owned by the place that
 holds the Box

Moving out of `*b` is allowed for a Box, but was shown as missing own permission.
---
 crates/aquascope/src/analysis/permissions/context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/permissions/context.rs b/crates/aquascope/src/analysis/permissions/context.rs
index 51828d9..7075065 100644
--- a/crates/aquascope/src/analysis/permissions/context.rs
+++ b/crates/aquascope/src/analysis/permissions/context.rs
@@ -249,7 +249,12 @@ impl<'tcx> PermissionsCtxt<'tcx> {
   /// <https://doc.rust-lang.org/nightly/nightly-rustc/src/rustc_mir_dataflow/move_paths/builder.rs.html#100>
   pub fn is_path_drop_enabled(&self, path: Path) -> bool {
     let place = self.path_to_place(path);
-    let is_indirect = place.is_indirect();
+    // A value can be moved out of a `Box`, but not out of a reference.
+    let is_indirect = place.iter_projections().any(|(prefix, elem)| {
+      let body = &self.body_with_facts.body;
+      matches!(elem, ProjectionElem::Deref)
+        && !prefix.ty(&body.local_decls, self.tcx).ty.is_box()
+    });
     let contains_array_index = place.iter_projections().any(|(_, elem)| {
       matches!(
         elem,
-- 
2.43.0


From 567a27d9ec8f915c5581cf33d21832bc411b2eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 04/37] fix: using a field asks for what that field needs, not
 for its whole base

`let y = p.x` with `x: i32` in a struct that is not Copy was shown as a move of `p`.
---
 .../src/analysis/boundaries/path_visitor.rs   | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/crates/aquascope/src/analysis/boundaries/path_visitor.rs b/crates/aquascope/src/analysis/boundaries/path_visitor.rs
index fe83386..2d50965 100644
--- a/crates/aquascope/src/analysis/boundaries/path_visitor.rs
+++ b/crates/aquascope/src/analysis/boundaries/path_visitor.rs
@@ -230,6 +230,21 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
         self.data.push(pb);
       }
 
+      // Using a field is a use of just that field: the rest of the base is
+      // neither copied nor moved.
+      ExprKind::Field(..)
+        if is_local_field(expr) && !expr.span.from_expansion() =>
+      {
+        let pb = PathBoundary {
+          hir_id,
+          flow_context,
+          is_lhs: false,
+          location: expr.span.shrink_to_lo(),
+          expected: self.get_adjusted_permissions(expr),
+        };
+        self.data.push(pb);
+      }
+
       // We only want to attach permissions to path resolved to `Local` ids.
       ExprKind::Path(QPath::Resolved(
         _,
@@ -255,6 +270,20 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
   }
 }
 
+/// Is the expression a (nested) field of a local variable, or of what a local
+/// variable points to?
+fn is_local_field(expr: &Expr) -> bool {
+  match expr.kind {
+    ExprKind::Field(base, _) | ExprKind::Unary(UnOp::Deref, base) => {
+      is_local_field(base)
+    }
+    ExprKind::Path(QPath::Resolved(_, path)) => {
+      matches!(path.res, Res::Local(_))
+    }
+    _ => false,
+  }
+}
+
 pub(super) fn get_path_boundaries(
   ctxt: &PermissionsCtxt<'_>,
 ) -> Result<Vec<PathBoundary>> {
-- 
2.43.0


From 1e19343370af95e065b621f2c73666e1c19228fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 05/37] fix: `if let` and `while let` inspect a place, as
 `match` does

The scrutinee was taken for a plain use of the whole place: a move, if its type is
not Copy, even where the pattern only borrows from it.
---
 .../src/analysis/boundaries/path_visitor.rs    | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/boundaries/path_visitor.rs b/crates/aquascope/src/analysis/boundaries/path_visitor.rs
index 2d50965..01bb333 100644
--- a/crates/aquascope/src/analysis/boundaries/path_visitor.rs
+++ b/crates/aquascope/src/analysis/boundaries/path_visitor.rs
@@ -5,7 +5,7 @@ use fluid_let::{fluid_let, fluid_set};
 use rustc_hir::{
   def::Res,
   intravisit::{self, Visitor},
-  Block, Body, Expr, ExprKind, HirId, Path, QPath, Stmt, UnOp,
+  Block, Body, Expr, ExprKind, HirId, LetExpr, Path, QPath, Stmt, UnOp,
 };
 use rustc_middle::{
   hir::nested_filter::OnlyBodies,
@@ -124,6 +124,22 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
         }
       }
 
+      // An `if let` or `while let` inspects its place just as a match does.
+      ExprKind::Let(LetExpr { init, .. })
+        if init.is_place_expr(|e| !matches!(e.kind, ExprKind::Lit(_)))
+          && !init.span.from_expansion() =>
+      {
+        let pb = PathBoundary {
+          location: init.span,
+          hir_id: init.hir_id,
+          flow_context,
+          is_lhs: false,
+          expected: ExpectedPermissions::from_discriminant(),
+        };
+
+        self.data.push(pb);
+      }
+
       ExprKind::MethodCall(_, rcvr, args, fn_span)
         if !fn_span.from_expansion()
           && rcvr.is_place_expr(|e| !matches!(e.kind, ExprKind::Lit(_))) =>
-- 
2.43.0


From bb01d0068df7201036fc39f72d215dd734696677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 06/37] fix: resolve compound assignments that call an operator
 method on the assigned place

For `s += "a"` with a String or `v[0] += 1` with a Vec, no MIR assignment has the
place on its left, and the boundary showed the state of an unrelated place.
---
 .../src/analysis/boundaries/path_visitor.rs     | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/aquascope/src/analysis/boundaries/path_visitor.rs b/crates/aquascope/src/analysis/boundaries/path_visitor.rs
index 01bb333..00495ee 100644
--- a/crates/aquascope/src/analysis/boundaries/path_visitor.rs
+++ b/crates/aquascope/src/analysis/boundaries/path_visitor.rs
@@ -59,6 +59,18 @@ impl HirExprScraper<'_> {
       ExpectedPermissions::from_move()
     }
   }
+
+  /// Is a method (`index_mut` or `deref_mut`) called to reach the place? Such
+  /// a place is borrowed, and not the target of an assignment in the MIR.
+  fn is_overloaded_place(&self, expr: &Expr) -> bool {
+    match expr.kind {
+      ExprKind::Field(base, _) => self.is_overloaded_place(base),
+      ExprKind::Index(base, ..) | ExprKind::Unary(UnOp::Deref, base) => {
+        self.typeck_res.is_method_call(expr) || self.is_overloaded_place(base)
+      }
+      _ => false,
+    }
+  }
 }
 
 impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
@@ -192,7 +204,7 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
           location: lhs.span.shrink_to_lo(),
           hir_id: lhs.hir_id,
           flow_context,
-          is_lhs: true,
+          is_lhs: !self.is_overloaded_place(lhs),
           expected: ExpectedPermissions::from_assignment(),
         };
         self.data.push(pb);
@@ -224,7 +236,8 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
           location: lhs.span.shrink_to_lo(),
           hir_id: lhs.hir_id,
           flow_context,
-          is_lhs: true,
+          is_lhs: !self.typeck_res.is_method_call(expr)
+            && !self.is_overloaded_place(lhs),
           expected: ExpectedPermissions::from_assignment(),
         };
 
-- 
2.43.0


From 56b7fb9c45691eae5ba76318f1e27554db99a977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 07/37] fix: find the uses inside the indices of a place, and
 only places of local variables

`i` in `&v[i]`, `v[i] += 1` or `v[i].len()` got no boundary, while places which are
not reached from a local variable, like `*m.lock().unwrap()`, got one of some
other variable instead of one for `m`.
---
 .../src/analysis/boundaries/path_visitor.rs   | 58 +++++++++++++------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/crates/aquascope/src/analysis/boundaries/path_visitor.rs b/crates/aquascope/src/analysis/boundaries/path_visitor.rs
index 00495ee..aa698b3 100644
--- a/crates/aquascope/src/analysis/boundaries/path_visitor.rs
+++ b/crates/aquascope/src/analysis/boundaries/path_visitor.rs
@@ -31,7 +31,7 @@ struct HirExprScraper<'tcx> {
   unsupported_feature: Option<(Span, String)>,
 }
 
-impl HirExprScraper<'_> {
+impl<'tcx> HirExprScraper<'tcx> {
   fn get_adjusted_permissions(&self, expr: &Expr) -> ExpectedPermissions {
     let ty_adj = self.typeck_res.expr_ty_adjusted(expr);
     let adjs = self.typeck_res.expr_adjustments(expr);
@@ -60,6 +60,20 @@ impl HirExprScraper<'_> {
     }
   }
 
+  /// Visit the expressions used to select a place: the indices.
+  fn visit_place_operands(&mut self, expr: &'tcx Expr) {
+    match expr.kind {
+      ExprKind::Field(base, _) | ExprKind::Unary(UnOp::Deref, base) => {
+        self.visit_place_operands(base);
+      }
+      ExprKind::Index(base, index, _) => {
+        self.visit_place_operands(base);
+        self.visit_expr(index);
+      }
+      _ => {}
+    }
+  }
+
   /// Is a method (`index_mut` or `deref_mut`) called to reach the place? Such
   /// a place is borrowed, and not the target of an assignment in the MIR.
   fn is_overloaded_place(&self, expr: &Expr) -> bool {
@@ -118,7 +132,7 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
       // rely on the adjusted permissions rather than needing to
       // inspect the function signature.
       ExprKind::Match(discr, arms, _)
-        if discr.is_place_expr(|e| !matches!(e.kind, ExprKind::Lit(_))) =>
+        if is_local_place(discr) =>
       {
         let expected = ExpectedPermissions::from_discriminant();
         let pb = PathBoundary {
@@ -130,6 +144,7 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
         };
 
         self.data.push(pb);
+        self.visit_place_operands(discr);
 
         for a in arms.iter() {
           self.visit_arm(a);
@@ -138,8 +153,7 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
 
       // An `if let` or `while let` inspects its place just as a match does.
       ExprKind::Let(LetExpr { init, .. })
-        if init.is_place_expr(|e| !matches!(e.kind, ExprKind::Lit(_)))
-          && !init.span.from_expansion() =>
+        if is_local_place(init) && !init.span.from_expansion() =>
       {
         let pb = PathBoundary {
           location: init.span,
@@ -150,11 +164,11 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
         };
 
         self.data.push(pb);
+        self.visit_place_operands(init);
       }
 
       ExprKind::MethodCall(_, rcvr, args, fn_span)
-        if !fn_span.from_expansion()
-          && rcvr.is_place_expr(|e| !matches!(e.kind, ExprKind::Lit(_))) =>
+        if !fn_span.from_expansion() && is_local_place(rcvr) =>
       {
         let expected = self.get_adjusted_permissions(rcvr);
         let pb = PathBoundary {
@@ -166,6 +180,7 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
         };
 
         self.data.push(pb);
+        self.visit_place_operands(rcvr);
 
         for a in args.iter() {
           self.visit_expr(a);
@@ -173,7 +188,7 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
       }
 
       ExprKind::AddrOf(_, mutability, inner)
-        if inner.is_syntactic_place_expr() && !inner.span.from_expansion() =>
+        if is_local_place(inner) && !inner.span.from_expansion() =>
       {
         // We don't have to account for adjusted types because
         // taking a borrow provides explicit types.
@@ -186,6 +201,7 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
         };
 
         self.data.push(pb);
+        self.visit_place_operands(inner);
       }
 
       // If the left-hand-side of the assignment is a deref, then we would
@@ -199,7 +215,7 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
         },
         rhs,
         _,
-      ) => {
+      ) if is_local_place(lhs) => {
         let pb = PathBoundary {
           location: lhs.span.shrink_to_lo(),
           hir_id: lhs.hir_id,
@@ -208,6 +224,7 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
           expected: ExpectedPermissions::from_assignment(),
         };
         self.data.push(pb);
+        self.visit_place_operands(lhs);
         self.visit_expr(rhs);
       }
 
@@ -225,10 +242,15 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
       // For now, the LHS is simply ignored from the boundaries analysis.
       ExprKind::Assign(lhs, rhs, _) => {
         log::debug!("ASSIGN: ignoring LHS {lhs:#?}");
+        if is_local_place(lhs) {
+          self.visit_place_operands(lhs);
+        } else {
+          self.visit_expr(lhs);
+        }
         self.visit_expr(rhs);
       }
 
-      ExprKind::AssignOp(_, lhs, rhs) => {
+      ExprKind::AssignOp(_, lhs, rhs) if is_local_place(lhs) => {
         let lhs_ty = self.typeck_res.expr_ty_adjusted(lhs);
         log::debug!("Type of LHS: {:#?}", lhs_ty);
 
@@ -242,11 +264,12 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
         };
 
         self.data.push(pb);
+        self.visit_place_operands(lhs);
         self.visit_expr(rhs);
       }
 
       ExprKind::Unary(UnOp::Deref, inner)
-        if inner.is_syntactic_place_expr() && !inner.span.from_expansion() =>
+        if is_local_place(inner) && !inner.span.from_expansion() =>
       {
         let pb = PathBoundary {
           hir_id,
@@ -257,12 +280,13 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
           expected: self.get_adjusted_permissions(expr),
         };
         self.data.push(pb);
+        self.visit_place_operands(inner);
       }
 
       // Using a field is a use of just that field: the rest of the base is
       // neither copied nor moved.
       ExprKind::Field(..)
-        if is_local_field(expr) && !expr.span.from_expansion() =>
+        if is_local_place(expr) && !expr.span.from_expansion() =>
       {
         let pb = PathBoundary {
           hir_id,
@@ -272,6 +296,7 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
           expected: self.get_adjusted_permissions(expr),
         };
         self.data.push(pb);
+        self.visit_place_operands(expr);
       }
 
       // We only want to attach permissions to path resolved to `Local` ids.
@@ -299,13 +324,12 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
   }
 }
 
-/// Is the expression a (nested) field of a local variable, or of what a local
-/// variable points to?
-fn is_local_field(expr: &Expr) -> bool {
+/// Is the expression a local variable, or a place reached from one?
+fn is_local_place(expr: &Expr) -> bool {
   match expr.kind {
-    ExprKind::Field(base, _) | ExprKind::Unary(UnOp::Deref, base) => {
-      is_local_field(base)
-    }
+    ExprKind::Field(base, _)
+    | ExprKind::Index(base, ..)
+    | ExprKind::Unary(UnOp::Deref, base) => is_local_place(base),
     ExprKind::Path(QPath::Resolved(_, path)) => {
       matches!(path.res, Res::Local(_))
     }
-- 
2.43.0


From ad0a64d37b389755178221e2d823f64a421ead1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 08/37] fix: reading an element of a slice is not a move of the
 slice

`let k = s[0]` with `s: &[i32]` was shown as a move, since `[i32]` is not Copy.
---
 .../aquascope/src/analysis/boundaries/path_visitor.rs  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/aquascope/src/analysis/boundaries/path_visitor.rs b/crates/aquascope/src/analysis/boundaries/path_visitor.rs
index aa698b3..6ffec2a 100644
--- a/crates/aquascope/src/analysis/boundaries/path_visitor.rs
+++ b/crates/aquascope/src/analysis/boundaries/path_visitor.rs
@@ -283,10 +283,12 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
         self.visit_place_operands(inner);
       }
 
-      // Using a field is a use of just that field: the rest of the base is
-      // neither copied nor moved.
-      ExprKind::Field(..)
-        if is_local_place(expr) && !expr.span.from_expansion() =>
+      // Using a field or an array element is a use of just that part: the
+      // rest of the base is neither copied nor moved.
+      ExprKind::Field(..) | ExprKind::Index(..)
+        if is_local_place(expr)
+          && !self.typeck_res.is_method_call(expr)
+          && !expr.span.from_expansion() =>
       {
         let pb = PathBoundary {
           hir_id,
-- 
2.43.0


From 768b21406535b2a6f51698bbd15b8f8d0730df0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:26 +0000
Subject: [PATCH 09/37] fix: a two-phase borrow does not remove read permission
 before it is activated

In `v.push(v.len())`, accepted by the borrow checker, the inner `v` was shown
without read permission.
---
 .../src/analysis/permissions/context.rs       | 19 ++++++++++++++++++-
 .../src/analysis/permissions/output.rs        |  4 +++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/context.rs b/crates/aquascope/src/analysis/permissions/context.rs
index 7075065..f133cd4 100644
--- a/crates/aquascope/src/analysis/permissions/context.rs
+++ b/crates/aquascope/src/analysis/permissions/context.rs
@@ -13,7 +13,7 @@
 use polonius_engine::{AllFacts, FactTypes, Output as PEOutput};
 use rustc_borrowck::consumers::{
   BodyWithBorrowckFacts, BorrowData, BorrowSet, LocationTable, RichLocation,
-  RustcFacts,
+  RustcFacts, TwoPhaseActivation,
 };
 use rustc_data_structures::fx::{FxHashMap as HashMap, FxHashSet as HashSet};
 use rustc_hir::{def_id::DefId, BodyId, Mutability};
@@ -207,6 +207,23 @@ impl<'tcx> PermissionsCtxt<'tcx> {
     self.is_mutable_borrow(&self.borrow_set[loan])
   }
 
+  /// Is the loan a two-phase borrow that is not activated yet at the point?
+  /// Such a mutable loan still lets others read.
+  pub fn is_reserved_loan_at(&self, loan: Loan, point: Point) -> bool {
+    let brw = &self.borrow_set[loan];
+    let location = self.point_to_location(point);
+    let dominators = self.body_with_facts.body.basic_blocks.dominators();
+    match brw.activation_location() {
+      TwoPhaseActivation::NotTwoPhase => false,
+      TwoPhaseActivation::NotActivated => true,
+      TwoPhaseActivation::ActivatedAt(activation) => {
+        let reserved = brw.reserve_location().successor_within_block();
+        reserved.dominates(location, dominators)
+          && !activation.dominates(location, dominators)
+      }
+    }
+  }
+
   pub fn is_declared_readonly(&self, place: &Place<'tcx>) -> bool {
     self.body_with_facts.body.local_decls[place.local].mutability
       != Mutability::Mut
diff --git a/crates/aquascope/src/analysis/permissions/output.rs b/crates/aquascope/src/analysis/permissions/output.rs
index f1a3b76..4cc8f46 100644
--- a/crates/aquascope/src/analysis/permissions/output.rs
+++ b/crates/aquascope/src/analysis/permissions/output.rs
@@ -425,7 +425,9 @@ pub fn derive_permission_facts(ctxt: &mut PermissionsCtxt) {
       &loan_conflicts_with,
       (
         loan_live_at.extend_with(|&(loan, _path)| loan),
-        ValueFilter::from(|&(loan, _path), _point| ctxt.is_mutable_loan(loan)),
+        ValueFilter::from(|&(loan, _path), &point| {
+          ctxt.is_mutable_loan(loan) && !ctxt.is_reserved_loan_at(loan, point)
+        }),
       ),
       |&(loan, path), &point| (path, loan, point),
     );
-- 
2.43.0


From 0d124933cc31de0efe5291ea39ec11291dce0ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 10/37] fix: a while loop whose condition needs temporaries
 does not panic the stepper

---
 .../src/analysis/stepper/hir_steps.rs         | 26 ++++++++++++++++---
 .../src/analysis/stepper/segmented_mir.rs     |  6 +++++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/crates/aquascope/src/analysis/stepper/hir_steps.rs b/crates/aquascope/src/analysis/stepper/hir_steps.rs
index 4db84e9..eb1f46c 100644
--- a/crates/aquascope/src/analysis/stepper/hir_steps.rs
+++ b/crates/aquascope/src/analysis/stepper/hir_steps.rs
@@ -295,18 +295,32 @@ impl<'a, 'tcx: 'a> HirStepPoints<'a, 'tcx> {
     &mut self,
     cnd: &'tcx hir::Expr,
     expr: &'tcx hir::Expr,
+    targets: &HashMap<Location, Span>,
   ) -> Option<Location> {
     // NOTE: first we need to walk and split the condition. In the
     // case of a more complex condition expression, splitting this
     // first will result in a split location closest to the `SwitchInt`.
     self.visit_expr(cnd);
-    let Some(cnd_exit) = self.get_node_exit(cnd.hir_id).or_else(|| {
+    let mapper = self.ir_mapper;
+    let cnd_exit_opt = self.get_node_exit(cnd.hir_id).or_else(|| {
       log::warn!(
         "EXPR condition has no exit {} looking at expr entry",
         self.prettify_node(cnd.hir_id)
       );
       self.get_node_entry(expr.hir_id)
-    }) else {
+    });
+
+    // The temporaries of a condition die inside of the branches. In a loop,
+    // one branch leaves and the other comes back, so the condition can seem to
+    // exit within the former. The branch has to open before all its targets.
+    let before_targets =
+      |exit: &Location| targets.keys().all(|&to| mapper.ldominates(*exit, to));
+
+    let Some(cnd_exit) = cnd_exit_opt
+      .filter(before_targets)
+      .or_else(|| self.get_node_entry(cnd.hir_id))
+      .or(cnd_exit_opt)
+    else {
       log::warn!("cannot do EXPR prelude, aborting");
       return None;
     };
@@ -389,7 +403,9 @@ impl<'a, 'tcx: 'a> HirStepPoints<'a, 'tcx> {
       else_opt.map_or(String::from("<NONE>"), |e| self.prettify_node(e.hir_id))
     );
     let expr_id = expr.hir_id;
-    let Some(cnd_exit) = self.expr_condition_prelude(cnd, expr) else {
+    let Some(cnd_exit) =
+      self.expr_condition_prelude(cnd, expr, &entry_locs_to_spans)
+    else {
       return;
     };
 
@@ -453,7 +469,9 @@ impl<'a, 'tcx: 'a> HirStepPoints<'a, 'tcx> {
     entry_locs_to_spans: HashMap<Location, Span>,
   ) {
     let expr_id = expr.hir_id;
-    let Some(cnd_exit) = self.expr_condition_prelude(cnd, expr) else {
+    let Some(cnd_exit) =
+      self.expr_condition_prelude(cnd, expr, &entry_locs_to_spans)
+    else {
       return;
     };
     let mapper = self.ir_mapper;
diff --git a/crates/aquascope/src/analysis/stepper/segmented_mir.rs b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
index 05d01da..65f8d53 100644
--- a/crates/aquascope/src/analysis/stepper/segmented_mir.rs
+++ b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
@@ -623,6 +623,12 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
       // 1. insert the split segment into the branch
       let mut to = sblock.start_location();
       let span = get_span(&mut to);
+      // A branch ends where the paths converge.
+      if let Some(phi) = phi_opt
+        && phi.block == to.block
+      {
+        to = to.min(phi);
+      }
       let sid = self.segments.push(SegmentData {
         segment: MirSegment::new(location, to),
         span,
-- 
2.43.0


From 023a52e5532fad4cc66fde92e39cb39590285c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 11/37] fix: a boundary shows the place of the very variable
 that is used

---
 .../aquascope/src/analysis/boundaries/mod.rs  | 164 ++++++++++++++++--
 1 file changed, 154 insertions(+), 10 deletions(-)

diff --git a/crates/aquascope/src/analysis/boundaries/mod.rs b/crates/aquascope/src/analysis/boundaries/mod.rs
index bf4d5f7..df9efb8 100644
--- a/crates/aquascope/src/analysis/boundaries/mod.rs
+++ b/crates/aquascope/src/analysis/boundaries/mod.rs
@@ -178,13 +178,16 @@ pub(crate) mod path_visitor;
 use anyhow::Result;
 use either::Either;
 use path_visitor::get_path_boundaries;
-use rustc_hir::HirId;
+use rustc_hir::{def::Res, Expr, ExprKind, HirId, QPath, UnOp};
 use rustc_middle::{
   mir::{
-    Body, Location, Mutability, Operand, Place, Rvalue, Statement,
-    StatementKind,
+    Body, Local, Location, Mutability, Operand, Place, ProjectionElem, Rvalue,
+    Statement, StatementKind, VarDebugInfoContents,
+  },
+  ty::{
+    adjustment::{Adjust, AutoBorrowMutability},
+    TyCtxt, TypeckResults,
   },
-  ty::{adjustment::AutoBorrowMutability, TyCtxt},
 };
 use rustc_span::Span;
 use rustc_utils::{
@@ -347,7 +350,6 @@ fn locals_by_visible_distance<'tcx>(
   body: &Body<'tcx>,
 ) -> Option<Place<'tcx>> {
   use fuzzy_match::fuzzy_match;
-  use rustc_middle::mir::VarDebugInfoContents;
 
   let map = tcx.hir();
   // Get a textual representation of the path we're dealing with. Note, that this
@@ -368,6 +370,112 @@ fn locals_by_visible_distance<'tcx>(
   fuzzy_match(&node_str, all_local_places)
 }
 
+/// The shape of a place expression: what is projected from its local variable.
+#[derive(Copy, Clone, Debug, PartialEq, Eq)]
+enum PlaceStep {
+  Deref,
+  Field(usize),
+  Index,
+}
+
+/// The variable that a place expression is rooted in, and how the place is
+/// reached from there, up to the first call of an overloaded operator.
+fn hir_place_shape(
+  typeck_res: &TypeckResults<'_>,
+  expr: &Expr,
+) -> Option<(HirId, Vec<PlaceStep>)> {
+  // Returns whether the place continues after `expr`.
+  fn go(
+    typeck_res: &TypeckResults<'_>,
+    expr: &Expr,
+    steps: &mut Vec<PlaceStep>,
+  ) -> Option<(HirId, bool)> {
+    let (root, goes_on) = match expr.kind {
+      ExprKind::Path(QPath::Resolved(_, path)) => match path.res {
+        Res::Local(id) => (id, true),
+        _ => return None,
+      },
+      ExprKind::Field(base, _) => {
+        let (root, goes_on) = go(typeck_res, base, steps)?;
+        let field = typeck_res.opt_field_index(expr.hir_id);
+        if let Some(field) = field
+          && goes_on
+        {
+          steps.push(PlaceStep::Field(field.as_usize()));
+        }
+        (root, goes_on && field.is_some())
+      }
+      ExprKind::Index(base, ..) | ExprKind::Unary(UnOp::Deref, base) => {
+        let (root, goes_on) = go(typeck_res, base, steps)?;
+        let goes_on = goes_on && !typeck_res.is_method_call(expr);
+        if goes_on {
+          steps.push(match expr.kind {
+            ExprKind::Index(..) => PlaceStep::Index,
+            _ => PlaceStep::Deref,
+          });
+        }
+        (root, goes_on)
+      }
+      _ => return None,
+    };
+
+    for adj in typeck_res.expr_adjustments(expr) {
+      match adj.kind {
+        Adjust::Deref(None) if goes_on => steps.push(PlaceStep::Deref),
+        _ => return Some((root, false)),
+      }
+    }
+
+    Some((root, goes_on))
+  }
+
+  let inner = match expr.kind {
+    ExprKind::AddrOf(_, _, inner) => inner,
+    _ => expr,
+  };
+
+  let mut steps = Vec::default();
+  let (root, _) = go(typeck_res, inner, &mut steps)?;
+  Some((root, steps))
+}
+
+fn mir_place_shape(place: Place<'_>) -> Vec<PlaceStep> {
+  place
+    .projection
+    .iter()
+    .filter_map(|elem| match elem {
+      ProjectionElem::Deref => Some(PlaceStep::Deref),
+      ProjectionElem::Field(field, _) => {
+        Some(PlaceStep::Field(field.as_usize()))
+      }
+      ProjectionElem::Index(_)
+      | ProjectionElem::ConstantIndex { .. }
+      | ProjectionElem::Subslice { .. } => Some(PlaceStep::Index),
+      _ => None,
+    })
+    .collect()
+}
+
+/// The MIR locals that stand for the variable bound at `binding`.
+fn locals_of_binding(
+  tcx: TyCtxt<'_>,
+  body: &Body<'_>,
+  binding: HirId,
+) -> Vec<Local> {
+  let hir = tcx.hir();
+  let name = hir.name(binding);
+  let span = hir.span(binding);
+  body
+    .var_debug_info
+    .iter()
+    .filter(|info| info.name == name && info.source_info.span == span)
+    .filter_map(|info| match info.value {
+      VarDebugInfoContents::Place(p) => p.as_local(),
+      VarDebugInfoContents::Const(_) => None,
+    })
+    .collect()
+}
+
 // HACK: this is unsatisfying. Ideally, we would be able to take a (resolved) hir::Path
 // and turn it directly into its corresponding mir::Place, I (gavin)
 // haven't found a great way to do this, so for now, we consider all
@@ -384,9 +492,32 @@ fn select_candidate_location<'tcx>(
   tcx: TyCtxt<'tcx>,
   body: &Body<'tcx>,
   hir_id: HirId,
+  shape: Option<&(HirId, Vec<PlaceStep>)>,
   //subtract_from: impl FnOnce() -> Vec<(Location, Place<'tcx>)>,
   candidates: &[(Location, Place<'tcx>)],
 ) -> Option<(Location, Place<'tcx>)> {
+  // If the variable is known, pick the place that looks most like the one used.
+  if let Some((binding, shape)) = shape {
+    let locals = locals_of_binding(tcx, body, *binding);
+    if !locals.is_empty() {
+      // As below, we need the first of the candidates that are as good.
+      return candidates
+        .iter()
+        .filter(|(_, p)| locals.contains(&p.local))
+        .rev()
+        .max_by_key(|(_, p)| {
+          let common = mir_place_shape(*p)
+            .iter()
+            .zip(shape)
+            .take_while(|(a, b)| a == b)
+            .count();
+          let others = mir_place_shape(*p).len() - common;
+          (common, std::cmp::Reverse(others))
+        })
+        .copied();
+    }
+  }
+
   if candidates.len() <= 1 {
     return candidates.first().copied();
   }
@@ -693,8 +824,11 @@ fn paths_at_hir_id<'tcx>(
     }
   };
 
-  let mir_locations = mir_locations_opt?
-    .values()
+  let mut mir_locations = mir_locations_opt?.values().collect::<Vec<_>>();
+  mir_locations.sort_unstable();
+
+  let used_places = mir_locations
+    .into_iter()
     .flat_map(|loc| {
       log::debug!("looking at {loc:?}");
       match body.stmt_at(loc) {
@@ -704,7 +838,7 @@ fn paths_at_hir_id<'tcx>(
     })
     .collect::<Vec<_>>();
 
-  Some(mir_locations)
+  Some(used_places)
 }
 
 fn path_to_perm_boundary(
@@ -723,12 +857,22 @@ fn path_to_perm_boundary(
     hir.node_to_string(path_boundary.hir_id)
   );
 
+  let shape = hir_place_shape(
+    tcx.typeck_body(ctxt.body_id),
+    hir.expect_expr(path_boundary.hir_id),
+  );
+
   let search_at_hir_id = |hir_id| {
     let path_locations =
       paths_at_hir_id(tcx, body, ir_mapper, hir_id, path_boundary.is_lhs)?;
 
-    let (loc, place) =
-      select_candidate_location(tcx, body, hir_id, &path_locations)?;
+    let (loc, place) = select_candidate_location(
+      tcx,
+      body,
+      hir_id,
+      shape.as_ref(),
+      &path_locations,
+    )?;
 
     let point = ctxt.location_to_point(loc);
     let path = ctxt.place_to_path(&place);
-- 
2.43.0


From 971bfe597e5af1600a27accccb54869256d4bbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 12/37] fix: report the regions of moves with a visible source
 range

---
 crates/aquascope/src/analysis/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/aquascope/src/analysis/mod.rs b/crates/aquascope/src/analysis/mod.rs
index 3b2ded7..b65afc4 100644
--- a/crates/aquascope/src/analysis/mod.rs
+++ b/crates/aquascope/src/analysis/mod.rs
@@ -321,7 +321,7 @@ impl<'tcx> AquascopeAnalysis<'tcx> {
 
   pub fn is_span_visible(&self, span: Span) -> bool {
     // let source_map = self.permissions.tcx.sess.source_map();
-    span.is_dummy() || span.is_empty() // || !span.is_visible(source_map)
+    !(span.is_dummy() || span.is_empty()) // && span.is_visible(source_map)
   }
 
   pub fn span_to_range(&self, span: Span) -> CharRange {
@@ -424,12 +424,14 @@ impl<'tcx> AquascopeAnalysis<'tcx> {
   // be abstracted away better into one generic algorithm.
   fn construct_move_info(&self) -> (MovePoints, MoveRegions) {
     let ctxt = &self.permissions;
+    let body_span = ctxt.body_with_facts.body.span;
     let move_points = ctxt
       .move_data
       .moves
       .iter_enumerated()
       .filter_map(|(movep, move_out)| {
-        let span = ctxt.location_to_span(move_out.source);
+        let span =
+          ctxt.location_to_span(move_out.source).as_local(body_span)?;
         let move_key: MoveKey = movep.into();
         self.is_span_visible(span).then_some((move_key, span))
       })
@@ -459,6 +461,7 @@ impl<'tcx> AquascopeAnalysis<'tcx> {
               .filter(|point| ctxt.is_point_operational(*point)),
           )
           .into_iter()
+          .filter_map(|span| span.as_local(body_span))
           .filter(|span| lo <= span.lo())
           .collect::<Vec<_>>();
         let smoothed = smooth_elements(points);
-- 
2.43.0


From 3ef077e6f5aafb6371d976be864b4a611de5f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 13/37] fix: a place inside something uninitialized is not
 permitted to be used

---
 .../aquascope/src/analysis/boundaries/mod.rs  |  3 ++-
 .../src/analysis/permissions/context.rs       | 26 ++++++++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/crates/aquascope/src/analysis/boundaries/mod.rs b/crates/aquascope/src/analysis/boundaries/mod.rs
index df9efb8..66bb63d 100644
--- a/crates/aquascope/src/analysis/boundaries/mod.rs
+++ b/crates/aquascope/src/analysis/boundaries/mod.rs
@@ -894,7 +894,8 @@ fn path_to_perm_boundary(
       })
     })
     .map(|(point, path)| {
-      let data = ctxt.permissions_data_at_point(path, point);
+      let mut data = ctxt.permissions_data_at_point(path, point);
+      data.path_uninitialized |= ctxt.is_inside_uninitialized(path, point);
       let expected = path_boundary.expected;
       let actual = data.permissions_ignore_liveness();
 
diff --git a/crates/aquascope/src/analysis/permissions/context.rs b/crates/aquascope/src/analysis/permissions/context.rs
index f133cd4..0285f92 100644
--- a/crates/aquascope/src/analysis/permissions/context.rs
+++ b/crates/aquascope/src/analysis/permissions/context.rs
@@ -22,7 +22,7 @@ use rustc_middle::{
   mir::{BorrowKind, Local, Location, Place, ProjectionElem},
   ty::{self, Ty, TyCtxt, TypingEnv},
 };
-use rustc_mir_dataflow::move_paths::MoveData;
+use rustc_mir_dataflow::move_paths::{LookupResult, MoveData};
 use rustc_span::Span;
 use rustc_utils::{BodyExt, PlaceExt, SpanExt, TyExt};
 use smallvec::{smallvec, SmallVec};
@@ -229,6 +229,30 @@ impl<'tcx> PermissionsCtxt<'tcx> {
       != Mutability::Mut
   }
 
+  /// Is the place part of something that may be uninitialized, without being
+  /// moveable by itself (because it lies behind a reference, say)?
+  pub(crate) fn is_inside_uninitialized(
+    &self,
+    path: Path,
+    point: Point,
+  ) -> bool {
+    let place = self.path_to_place(path);
+    let LookupResult::Parent(Some(mp)) =
+      self.move_data.rev_lookup.find(place.as_ref())
+    else {
+      return false;
+    };
+
+    self.polonius_input_facts.cfg_edge.iter().any(|(from, to)| {
+      *to == point
+        && self
+          .polonius_output
+          .path_maybe_uninitialized_on_exit
+          .get(from)
+          .is_some_and(|paths| paths.contains(&mp))
+    })
+  }
+
   pub fn is_path_live_at(&self, path: Path, point: Point) -> bool {
     let var = self.path_to_variable(path);
     self
-- 
2.43.0


From 2749f1fa647a8dce975a0ecbb39e32395a6670a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 14/37] fix: positions of interpreter marks count characters,
 not bytes

---
 crates/mdbook-aquascope/src/annotations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mdbook-aquascope/src/annotations.rs b/crates/mdbook-aquascope/src/annotations.rs
index 200ef3b..86f6dd4 100644
--- a/crates/mdbook-aquascope/src/annotations.rs
+++ b/crates/mdbook-aquascope/src/annotations.rs
@@ -90,7 +90,7 @@ pub fn parse_annotations(code: &str) -> Result<(String, AquascopeAnnotations)> {
     macro_rules! add_fragment {
       ($s:expr) => {
         fragments.push($s);
-        idx += $s.len();
+        idx += $s.chars().count();
       };
     }
     if let Some(suffix) = line.strip_prefix('#') {
-- 
2.43.0


From 15e97ce2a12f51bcf2cc5b4465ece33942ab6bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 15/37] fix: marks in hidden lines and in lines with an escaped
 # are parsed

---
 crates/mdbook-aquascope/src/annotations.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/mdbook-aquascope/src/annotations.rs b/crates/mdbook-aquascope/src/annotations.rs
index 86f6dd4..3fc9544 100644
--- a/crates/mdbook-aquascope/src/annotations.rs
+++ b/crates/mdbook-aquascope/src/annotations.rs
@@ -95,11 +95,12 @@ pub fn parse_annotations(code: &str) -> Result<(String, AquascopeAnnotations)> {
     }
     if let Some(suffix) = line.strip_prefix('#') {
       annots.hidden_lines.push(line_pos);
-      add_fragment!(suffix);
+      line = suffix;
     } else if let Some(suffix) = line.strip_prefix("\\#") {
       add_fragment!("#");
-      add_fragment!(suffix);
-    } else {
+      line = suffix;
+    }
+    {
       while let Some(cap) = re.captures(line) {
         let matched = cap.get(0).unwrap();
         add_fragment!(&line[0 .. matched.start()]);
-- 
2.43.0


From 1ba42d683dc1086bbec853a4c896ec70a7566b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 16/37] fix: a carriage return is not part of a block's
 operation or setting

---
 crates/mdbook-aquascope/src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mdbook-aquascope/src/block.rs b/crates/mdbook-aquascope/src/block.rs
index 4c83399..b034a7d 100644
--- a/crates/mdbook-aquascope/src/block.rs
+++ b/crates/mdbook-aquascope/src/block.rs
@@ -26,7 +26,7 @@ pub struct AquascopeBlock {
 impl AquascopeBlock {
   fn parse(i: LocatedSpan<&str>) -> IResult<LocatedSpan<&str>, Self> {
     fn parse_sym(i: LocatedSpan<&str>) -> IResult<LocatedSpan<&str>, String> {
-      let (i, v) = many0(none_of(",=\n+"))(i)?;
+      let (i, v) = many0(none_of(",=\r\n+"))(i)?;
       Ok((i, v.into_iter().collect::<String>()))
     }
 
-- 
2.43.0


From 3078e9a1cb5b91a79f07fe11908ed2e08a74ac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 17/37] fix: what cannot be read of a block's opening line is
 not part of its code

---
 crates/mdbook-aquascope/src/block.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mdbook-aquascope/src/block.rs b/crates/mdbook-aquascope/src/block.rs
index b034a7d..5aa1dd5 100644
--- a/crates/mdbook-aquascope/src/block.rs
+++ b/crates/mdbook-aquascope/src/block.rs
@@ -5,7 +5,7 @@ use std::{hash::Hash, ops::Range};
 use nom::{
   branch::alt,
   bytes::complete::{tag, take_until},
-  character::complete::{anychar, char, none_of},
+  character::complete::{anychar, char, line_ending, none_of},
   combinator::map,
   multi::{many0, separated_list1},
   sequence::{preceded, separated_pair, tuple},
@@ -40,7 +40,7 @@ impl AquascopeBlock {
           map(parse_sym, |s| (s, String::from("true"))),
         )),
       )),
-      take_until("```"),
+      preceded(line_ending, take_until("```")),
       tag("```"),
     ));
     let (i, (_, operations, config, code, _)) = parser(i)?;
-- 
2.43.0


From c70a7b717699090b91a8a87ad20cd17db48e2492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 18/37] fix: an unknown option of a permission mark is an
 error, not a panic

---
 crates/mdbook-aquascope/src/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mdbook-aquascope/src/permissions.rs b/crates/mdbook-aquascope/src/permissions.rs
index 487a9b8..a2274da 100644
--- a/crates/mdbook-aquascope/src/permissions.rs
+++ b/crates/mdbook-aquascope/src/permissions.rs
@@ -33,7 +33,7 @@ pub fn parse_perms(
             r#"<span class="perm-diff-sub-container"><div class="perm-diff-sub"></div>{perm_html}</span>"#
           ),
           "[missing]" => format!(r#"<span class="perm missing {perm}">{letter}</span>"#),
-          _ => unimplemented!(),
+          options => bail!("Invalid permission option: {options}"),
         },
         None => perm_html,
       };
-- 
2.43.0


From 50129fc90a08f57d07b2ee1222e5877b0238b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 19/37] fix: permission marks inside of Aquascope blocks are
 not replaced

---
 crates/mdbook-aquascope/src/preprocessor.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/mdbook-aquascope/src/preprocessor.rs b/crates/mdbook-aquascope/src/preprocessor.rs
index 7665a6e..75f122d 100644
--- a/crates/mdbook-aquascope/src/preprocessor.rs
+++ b/crates/mdbook-aquascope/src/preprocessor.rs
@@ -177,13 +177,27 @@ impl AquascopePreprocessor {
     content: &str,
   ) -> Result<Vec<(std::ops::Range<usize>, String)>> {
     let to_process = AquascopeBlock::parse_all(content);
+
+    // Permission marks are only replaced outside of the blocks.
+    let mut perms = Vec::new();
+    let mut start = 0;
+    let ends = to_process.iter().map(|(range, _)| range.clone());
+    for block in ends.chain([content.len() .. content.len()]) {
+      for perm in crate::permissions::parse_perms(&content[start .. block.start]) {
+        perms.push(
+          perm.map(|(r, html)| (start + r.start .. start + r.end, html)),
+        );
+      }
+      start = block.end;
+    }
+
     to_process
       .into_par_iter()
       .map(|(range, block)| {
         let html = self.process_code(block)?;
         Ok((range, html))
       })
-      .chain(crate::permissions::parse_perms(content).par_bridge())
+      .chain(perms)
       .collect()
   }
 
-- 
2.43.0


From 619e08e2706e9237f8b58be3ac738eb812a12985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 20/37] fix: analysis results that do not fit into a pipe do
 not time out

---
 crates/mdbook-aquascope/src/preprocessor.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/mdbook-aquascope/src/preprocessor.rs b/crates/mdbook-aquascope/src/preprocessor.rs
index 75f122d..bc83116 100644
--- a/crates/mdbook-aquascope/src/preprocessor.rs
+++ b/crates/mdbook-aquascope/src/preprocessor.rs
@@ -4,7 +4,7 @@ use std::{
   collections::HashMap,
   fs,
   path::PathBuf,
-  process::{Command, Stdio},
+  process::{Command, Output, Stdio},
   sync::RwLock,
   time::Duration,
 };
@@ -83,14 +83,24 @@ impl AquascopePreprocessor {
         cmd.arg("--show-flows");
       }
 
-      let mut child =
-        cmd.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn()?;
+      // The output goes to files: nobody would empty a pipe while waiting.
+      let (stdout_path, stderr_path) =
+        (root.join("stdout"), root.join("stderr"));
+      let mut child = cmd
+        .stdout(fs::File::create(&stdout_path)?)
+        .stderr(fs::File::create(&stderr_path)?)
+        .spawn()?;
       if child.wait_timeout(Duration::from_secs(10))?.is_none() {
         child.kill()?;
+        child.wait()?;
         bail!("Aquascope timed out on program:\n{}", block.code)
       };
 
-      let output = child.wait_with_output()?;
+      let output = Output {
+        status: child.wait()?,
+        stdout: fs::read(stdout_path)?,
+        stderr: fs::read(stderr_path)?,
+      };
 
       if !output.status.success() {
         let error = String::from_utf8(output.stderr)?;
-- 
2.43.0


From f512ae5e7d1d70b4b750ae2bce9cabfd618ab18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 21/37] fix: showFlows does not make the other operations of a
 block fail

---
 crates/mdbook-aquascope/src/preprocessor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mdbook-aquascope/src/preprocessor.rs b/crates/mdbook-aquascope/src/preprocessor.rs
index bc83116..4ee966d 100644
--- a/crates/mdbook-aquascope/src/preprocessor.rs
+++ b/crates/mdbook-aquascope/src/preprocessor.rs
@@ -79,7 +79,8 @@ impl AquascopePreprocessor {
       cmd.arg(operation);
 
       let show_flows = block.config.iter().any(|(k, _)| k == "showFlows");
-      if show_flows {
+      // Only the permissions command knows this flag.
+      if show_flows && operation == "permissions" {
         cmd.arg("--show-flows");
       }
 
-- 
2.43.0


From 83d561387669a52f74692e7ddc64b8423292fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 22/37] fix: messages that are not UTF-8 do not hide the error
 of a block

---
 crates/mdbook-aquascope/src/preprocessor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mdbook-aquascope/src/preprocessor.rs b/crates/mdbook-aquascope/src/preprocessor.rs
index 4ee966d..5cda68f 100644
--- a/crates/mdbook-aquascope/src/preprocessor.rs
+++ b/crates/mdbook-aquascope/src/preprocessor.rs
@@ -104,7 +104,7 @@ impl AquascopePreprocessor {
       };
 
       if !output.status.success() {
-        let error = String::from_utf8(output.stderr)?;
+        let error = String::from_utf8_lossy(&output.stderr);
         bail!(
           "Aquascope failed for program:\n{}\nwith error:\n{error}",
           block.code
@@ -119,7 +119,7 @@ impl AquascopePreprocessor {
         _ => false,
       };
       if is_err {
-        let stderr = String::from_utf8(output.stderr)?;
+        let stderr = String::from_utf8_lossy(&output.stderr);
         bail!(
           "Aquascope failed for program:\n{}\nwith error:\n{stderr}",
           block.code,
-- 
2.43.0


From 6fd80fba1c9614637d138c731aafa560d03a7440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 23/37] fix: output of the analysis that is not UTF-8 does not
 panic the server

---
 crates/aquascope_serve/src/container.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aquascope_serve/src/container.rs b/crates/aquascope_serve/src/container.rs
index 56bb89f..854bbb3 100644
--- a/crates/aquascope_serve/src/container.rs
+++ b/crates/aquascope_serve/src/container.rs
@@ -97,8 +97,8 @@ impl Container {
 
     let output = timed_out.context(CommandExecTimedOutSnafu { timeout })?;
 
-    let stdout = String::from_utf8(output.stdout).unwrap();
-    let stderr = String::from_utf8(output.stderr).unwrap();
+    let stdout = String::from_utf8_lossy(&output.stdout).into_owned();
+    let stderr = String::from_utf8_lossy(&output.stderr).into_owned();
     log::info!("{}", stderr);
 
     Ok((stdout, stderr))
-- 
2.43.0


From 3f6fc4c1c06be73b165a18946f779042e83dc8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 24/37] fix: a project that cannot be created is answered with
 an error, not a panic

---
 crates/aquascope_serve/src/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aquascope_serve/src/container.rs b/crates/aquascope_serve/src/container.rs
index 854bbb3..aebe5d6 100644
--- a/crates/aquascope_serve/src/container.rs
+++ b/crates/aquascope_serve/src/container.rs
@@ -119,7 +119,7 @@ impl Container {
 
     if !stderr.trim().is_empty() {
       log::error!("{}", stderr);
-      panic!("`cargo new` failed {stderr}");
+      return Err(anyhow::anyhow!("`cargo new` failed {stderr}").into());
     }
 
     log::debug!("Cargo output {}", output_s);
-- 
2.43.0


From a9d44a3a9c70abee8bfd31e18efb3191b69e7938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 25/37] fix: an analysis that exceeds the time limit is ended,
 with what it started

---
 crates/aquascope_serve/src/container.rs | 34 ++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/crates/aquascope_serve/src/container.rs b/crates/aquascope_serve/src/container.rs
index aebe5d6..6294be9 100644
--- a/crates/aquascope_serve/src/container.rs
+++ b/crates/aquascope_serve/src/container.rs
@@ -1,5 +1,6 @@
 use std::{
-  fs, io, os::unix::fs::PermissionsExt, path::PathBuf, str, time::Duration,
+  fs, io, os::unix::fs::PermissionsExt, path::PathBuf, process::Stdio, str,
+  time::Duration,
 };
 
 use aquascope_workspace_utils::miri_sysroot;
@@ -41,6 +42,23 @@ const DEFAULT_PROJECT_PATH: &str = "aquascope_tmp_proj";
 
 const COMMAND_TIMEOUT: Duration = Duration::from_secs(20);
 
+/// Kills a command that is still running, and all that it started, when nobody
+/// waits for it any more.
+struct ProcessGroup(Option<u32>);
+
+impl Drop for ProcessGroup {
+  fn drop(&mut self) {
+    if let Some(id) = self.0 {
+      let killed = std::process::Command::new("kill")
+        .args(["-KILL", "--", &format!("-{id}")])
+        .status();
+      if let Err(e) = killed {
+        log::error!("Could not kill process group {id}: {e}");
+      }
+    }
+  }
+}
+
 pub struct Container {
   project_dir: Option<String>,
   workspace: TempDir,
@@ -84,8 +102,17 @@ impl Container {
     cmd: &mut Command,
   ) -> Result<(String, String)> {
     let timeout = COMMAND_TIMEOUT;
-    let cmd = cmd.current_dir(self.cwd());
-    let timed_out = match time::timeout(timeout, cmd.output()).await {
+    let child = cmd
+      .current_dir(self.cwd())
+      .process_group(0)
+      .stdin(Stdio::null())
+      .stdout(Stdio::piped())
+      .stderr(Stdio::piped())
+      .spawn()
+      .context(UnableToExecCommandSnafu)?;
+    let mut group = ProcessGroup(child.id());
+    let timed_out = match time::timeout(timeout, child.wait_with_output()).await
+    {
       Ok(Ok(output)) => Ok(output),
       // failure
       Ok(e @ Err(_)) => {
@@ -96,6 +123,7 @@ impl Container {
     };
 
     let output = timed_out.context(CommandExecTimedOutSnafu { timeout })?;
+    group.0 = None;
 
     let stdout = String::from_utf8_lossy(&output.stdout).into_owned();
     let stderr = String::from_utf8_lossy(&output.stderr).into_owned();
-- 
2.43.0


From 85f498b4072a032728394712ea1c7cefc0a2ff69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 26/37] fix: blocks that are analysed at the same time do not
 crash the preprocessor

---
 crates/mdbook-aquascope/src/preprocessor.rs | 28 +++++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/crates/mdbook-aquascope/src/preprocessor.rs b/crates/mdbook-aquascope/src/preprocessor.rs
index 5cda68f..2d69d9b 100644
--- a/crates/mdbook-aquascope/src/preprocessor.rs
+++ b/crates/mdbook-aquascope/src/preprocessor.rs
@@ -2,11 +2,12 @@
 
 use std::{
   collections::HashMap,
-  fs,
+  fs, io,
   path::PathBuf,
-  process::{Command, Output, Stdio},
+  process::{Child, Command, ExitStatus, Output, Stdio},
   sync::RwLock,
-  time::Duration,
+  thread,
+  time::{Duration, Instant},
 };
 
 use anyhow::{bail, Result};
@@ -14,10 +15,27 @@ use aquascope_workspace_utils::{miri_sysroot, run_and_get_output, rustc};
 use mdbook_preprocessor_utils::HtmlElementBuilder;
 use rayon::prelude::*;
 use tempfile::tempdir;
-use wait_timeout::ChildExt;
 
 use crate::{block::AquascopeBlock, cache::Cache};
 
+/// Waits until the child has ended, or the time is over.
+///
+/// The crate `wait_timeout` is not used because its handler for SIGCHLD is
+/// installed before it is ready, and blocks are processed in parallel.
+fn wait_timeout(
+  child: &mut Child,
+  timeout: Duration,
+) -> io::Result<Option<ExitStatus>> {
+  let start = Instant::now();
+  loop {
+    let status = child.try_wait()?;
+    if status.is_some() || start.elapsed() >= timeout {
+      return Ok(status);
+    }
+    thread::sleep(Duration::from_millis(10));
+  }
+}
+
 pub struct AquascopePreprocessor {
   miri_sysroot: PathBuf,
   target_libdir: PathBuf,
@@ -91,7 +109,7 @@ impl AquascopePreprocessor {
         .stdout(fs::File::create(&stdout_path)?)
         .stderr(fs::File::create(&stderr_path)?)
         .spawn()?;
-      if child.wait_timeout(Duration::from_secs(10))?.is_none() {
+      if wait_timeout(&mut child, Duration::from_secs(10))?.is_none() {
         child.kill()?;
         child.wait()?;
         bail!("Aquascope timed out on program:\n{}", block.code)
-- 
2.43.0


From e0fb32f43aaf828d0f6379e0082cae7627c7a1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 27/37] fix: the rows of a permission table come in the same
 order every time

---
 .../src/analysis/stepper/table_builder.rs         | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/aquascope/src/analysis/stepper/table_builder.rs b/crates/aquascope/src/analysis/stepper/table_builder.rs
index b88b4c7..72188a6 100644
--- a/crates/aquascope/src/analysis/stepper/table_builder.rs
+++ b/crates/aquascope/src/analysis/stepper/table_builder.rs
@@ -1,5 +1,7 @@
 //! Convert permissions steps into tables viewable by the frontend.
 
+use std::collections::BTreeMap;
+
 use rustc_data_structures::{
   self,
   fx::{FxHashMap as HashMap, FxHashSet as HashSet},
@@ -227,7 +229,7 @@ pub(super) fn prettify_permission_steps<'tcx>(
       .and_then(|s| s.as_local(ctxt.body_with_facts.body.span));
   let source_map = tcx.sess.source_map();
 
-  let mut semi_filtered = HashMap::<
+  let mut semi_filtered = BTreeMap::<
     usize,
     Vec<(MirSegment, Span, Vec<(Place<'tcx>, PermissionsDataDiff)>)>,
   >::default();
@@ -353,8 +355,15 @@ pub(super) fn prettify_permission_steps<'tcx>(
         .into_iter()
         .collect::<Vec<_>>();
 
-      master_table_vec
-            .sort_by_key(|(place, _)| (place.local.as_usize(), place.projection.len()));
+      // NOTE: several places of a local can be of the same length (`x.a` and `x.b`),
+      // and the order in which they come out of the map is not fixed.
+      master_table_vec.sort_by_cached_key(|(place, _)| {
+        (
+          place.local.as_usize(),
+          place.projection.len(),
+          place_to_string!(place),
+        )
+      });
 
       let master_table = PermissionsStepTable {
         from,
-- 
2.43.0


From 5c3200c0c6560c02f44a68c779189d67bfe5dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 28/37] fix: the first error of a body does not depend on the
 bodies around it

---
 .../aquascope/src/analysis/boundaries/mod.rs  |  8 +--
 .../src/analysis/stepper/table_builder.rs     | 10 ++--
 crates/aquascope/src/errors/mod.rs            | 52 ++++++++++++++-----
 3 files changed, 50 insertions(+), 20 deletions(-)

diff --git a/crates/aquascope/src/analysis/boundaries/mod.rs b/crates/aquascope/src/analysis/boundaries/mod.rs
index 66bb63d..0f061b8 100644
--- a/crates/aquascope/src/analysis/boundaries/mod.rs
+++ b/crates/aquascope/src/analysis/boundaries/mod.rs
@@ -950,9 +950,11 @@ pub fn compute_permission_boundaries(
   // FIXME: we need a more robust way of filtering by "first error".
   // here (and in the stepper) we do this by diagnostic span from rustc
   // but that can sometimes be a little earlier than we might want.
-  let first_error_span_opt =
-    errors::get_span_of_first_error(ctxt.def_id.expect_local())
-      .and_then(|s| s.as_local(ctxt.body_with_facts.body.span));
+  let first_error_span_opt = errors::get_span_of_first_error(
+    ctxt.tcx,
+    ctxt.def_id.expect_local(),
+    ctxt.body_with_facts.body.span,
+  );
 
   let boundaries = path_use_points
     .filter(|pb| {
diff --git a/crates/aquascope/src/analysis/stepper/table_builder.rs b/crates/aquascope/src/analysis/stepper/table_builder.rs
index 72188a6..5e5f309 100644
--- a/crates/aquascope/src/analysis/stepper/table_builder.rs
+++ b/crates/aquascope/src/analysis/stepper/table_builder.rs
@@ -8,7 +8,7 @@ use rustc_data_structures::{
 };
 use rustc_middle::mir::{Local, Location, Place};
 use rustc_span::Span;
-use rustc_utils::{test_utils::DUMMY_CHAR_RANGE, PlaceExt, SpanExt};
+use rustc_utils::{test_utils::DUMMY_CHAR_RANGE, PlaceExt};
 
 use super::{segmented_mir::*, *};
 use crate::{analysis::permissions::PermissionsCtxt, errors};
@@ -224,9 +224,11 @@ pub(super) fn prettify_permission_steps<'tcx>(
     };
   }
 
-  let first_error_span_opt =
-    errors::get_span_of_first_error(ctxt.def_id.expect_local())
-      .and_then(|s| s.as_local(ctxt.body_with_facts.body.span));
+  let first_error_span_opt = errors::get_span_of_first_error(
+    ctxt.tcx,
+    ctxt.def_id.expect_local(),
+    ctxt.body_with_facts.body.span,
+  );
   let source_map = tcx.sess.source_map();
 
   let mut semi_filtered = BTreeMap::<
diff --git a/crates/aquascope/src/errors/mod.rs b/crates/aquascope/src/errors/mod.rs
index 77fd0f9..bea3ad5 100644
--- a/crates/aquascope/src/errors/mod.rs
+++ b/crates/aquascope/src/errors/mod.rs
@@ -4,7 +4,9 @@ use std::cell::RefCell;
 
 use rustc_errors::{DiagInner, TRACK_DIAGNOSTIC};
 use rustc_hir::def_id::LocalDefId;
+use rustc_middle::ty::TyCtxt;
 use rustc_span::Span;
+use rustc_utils::SpanExt;
 
 thread_local! {
     static BODY_DIAGNOSTICS: RefCell<Vec<DiagnosticInfo>> = RefCell::new(Vec::default());
@@ -39,12 +41,17 @@ fn track_diagnostic<R>(d: DiagInner, f: &mut dyn FnMut(DiagInner) -> R) -> R {
 /// This should be called before analysing a new crate.
 pub fn initialize_error_tracking() {
   log::debug!("Track diagnostics updated");
+  BODY_DIAGNOSTICS.with(|diagnostics| diagnostics.borrow_mut().clear());
   TRACK_DIAGNOSTIC.swap(&(track_diagnostic as _));
 }
 
 /// Initialize the error tracking for a given routine. It's recommended
 /// to call this on start of every new analysis. In Aquascope, this would
 /// be per-body analyzed.
+///
+/// The diagnostics of bodies analyzed before are kept: to analyze a body the
+/// compiler may have to check others (for the type behind an `impl Trait`, say),
+/// and as it does so only once it doesn't repeat what it had to say about those.
 pub fn track_body_diagnostics(def_id: LocalDefId) {
   // Update the current LocalDefId
   CURRENT_BODY.with(|id| {
@@ -52,35 +59,54 @@ pub fn track_body_diagnostics(def_id: LocalDefId) {
     let old_value = id.replace(def_id);
     log::debug!("Replacing tracked body id {old_value:?} with {def_id:?}");
   });
-  BODY_DIAGNOSTICS.with(|diagnostics| {
-    let mut diagnostics = diagnostics.borrow_mut();
-    // FIXME(gavinleroy): we should really be caching the diagnostics by
-    // LocalDefId, meaning that we don't have to clean them after
-    // each analysis. This also has the added benefic of caching
-    // in case we ever reuse processes for server queries.
-    diagnostics.clear();
-  });
 }
 
 pub fn errors_exist() -> bool {
   BODY_DIAGNOSTICS.with(|diagnostics| !diagnostics.borrow().is_empty())
 }
 
-pub fn get_span_of_first_error(def_id: LocalDefId) -> Option<Span> {
+/// The span of the first error within the body of `def_id`, not counting the
+/// errors of other functions, be they declared inside of the body.
+pub fn get_span_of_first_error(
+  tcx: TyCtxt,
+  def_id: LocalDefId,
+  body_span: Span,
+) -> Option<Span> {
   // A security check that the body expected by the caller is
   // in sync with that of the error diagnostics.
   CURRENT_BODY.with(|id| {
     assert_eq!(def_id, id.borrow().unwrap());
   });
 
-  BODY_DIAGNOSTICS.with(|diagnostics| {
+  let spans = BODY_DIAGNOSTICS.with(|diagnostics| {
     let diagnostics = diagnostics.borrow();
 
     log::debug!("Diagnostics {:?}", diagnostics);
 
     diagnostics
       .iter()
-      .filter_map(|d| d.is_error.then_some(d.primary_span))
-      .min_by_key(|s| s.lo())
-  })
+      .filter_map(|d| {
+        d.is_error
+          .then(|| d.primary_span.as_local(body_span))
+          .flatten()
+      })
+      .collect::<Vec<_>>()
+  });
+
+  if spans.is_empty() {
+    return None;
+  }
+
+  let nested = tcx
+    .hir()
+    .body_owners()
+    .filter(|owner| *owner != def_id && !tcx.is_typeck_child(owner.to_def_id()))
+    .map(|owner| tcx.hir().body_owned_by(owner).value.span)
+    .filter(|span| body_span.contains(*span) && *span != body_span)
+    .collect::<Vec<_>>();
+
+  spans
+    .into_iter()
+    .filter(|s| !nested.iter().any(|n| n.contains(*s)))
+    .min_by_key(|s| s.lo())
 }
-- 
2.43.0


From 46e517230891f0d889dacc094927c6461cf4a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 29/37] fix: the parts of something uninitialized are not shown
 with permissions

---
 crates/aquascope/src/analysis/permissions/context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/permissions/context.rs b/crates/aquascope/src/analysis/permissions/context.rs
index 0285f92..5e93d9f 100644
--- a/crates/aquascope/src/analysis/permissions/context.rs
+++ b/crates/aquascope/src/analysis/permissions/context.rs
@@ -482,7 +482,10 @@ impl<'tcx> PermissionsCtxt<'tcx> {
       .into_iter()
       .fold(HashMap::default(), |mut acc, place| {
         let path = self.place_to_path(&place);
-        let perms = self.permissions_data_at_point(path, point);
+        let mut perms = self.permissions_data_at_point(path, point);
+        // A place that isn't live has no permissions in any case.
+        perms.path_uninitialized |=
+          perms.is_live && self.is_inside_uninitialized(path, point);
         acc.insert(place, perms);
         acc
       })
-- 
2.43.0


From 410297500f73b277c83c808abe6fdf33c793082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 30/37] fix: the region of a borrow that is not used any more
 contains the borrow

---
 crates/aquascope/src/analysis/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/aquascope/src/analysis/mod.rs b/crates/aquascope/src/analysis/mod.rs
index b65afc4..76e80d4 100644
--- a/crates/aquascope/src/analysis/mod.rs
+++ b/crates/aquascope/src/analysis/mod.rs
@@ -385,6 +385,14 @@ impl<'tcx> AquascopeAnalysis<'tcx> {
           start_span
         };
 
+        // The same goes for the end: the last point of a borrow that
+        // isn't used any more is the one where it gets its name.
+        let end_span = if end_span.hi() < loan_span.hi() {
+          *loan_span
+        } else {
+          end_span
+        };
+
         let loan_live_at = &self.permissions.polonius_output.loan_live_at;
         let active_nodes = self
           .key_to_spans(
-- 
2.43.0


From 5019fc81086b67a1aa29ac4445126d049a040694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 31/37] fix: regions are not stretched or cut where spans come
 from a desugaring

---
 crates/aquascope/src/analysis/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/mod.rs b/crates/aquascope/src/analysis/mod.rs
index 76e80d4..8e696a3 100644
--- a/crates/aquascope/src/analysis/mod.rs
+++ b/crates/aquascope/src/analysis/mod.rs
@@ -162,7 +162,11 @@ impl Bounded for Span {
   }
 
   fn to(&self, other: Self) -> Self {
-    Span::to(*self, other)
+    // NOTE: not `Span::to`, which gives just one of the two spans if they
+    // have different contexts (e.g., a desugared `while` and an `if` around it).
+    self
+      .with_lo(std::cmp::min(Span::lo(*self), Span::lo(other)))
+      .with_hi(std::cmp::max(Span::hi(*self), Span::hi(other)))
   }
 }
 
-- 
2.43.0


From d75b49a1ecf1da968451302cb9787515d9b98f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 32/37] fix: a region contains the parts of a statement that
 reaches beyond it

---
 crates/aquascope/src/analysis/mod.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/aquascope/src/analysis/mod.rs b/crates/aquascope/src/analysis/mod.rs
index 8e696a3..f8b7e04 100644
--- a/crates/aquascope/src/analysis/mod.rs
+++ b/crates/aquascope/src/analysis/mod.rs
@@ -511,7 +511,22 @@ impl<'tcx> AquascopeAnalysis<'tcx> {
       .iter()
       .filter_map(|(point, loans)| loans.contains(&loan).then_some(*point));
 
-    let mut spans = self.points_to_spans(points);
+    let within =
+      |span: &Span| min_span.lo() <= span.lo() && span.hi() <= max_span.hi();
+
+    // The statement of a point can be more than what is between the two spans,
+    // then it's only what happens at the point that counts.
+    let mut spans = points
+      .flat_map(|point| {
+        let spans = self.points_to_spans([point]);
+        if spans.iter().all(within) {
+          spans
+        } else {
+          let loc = self.permissions.point_to_location(point);
+          vec![self.permissions.location_to_span(loc)]
+        }
+      })
+      .collect::<Vec<_>>();
 
     // Pushing the `min_span` and `max_span` is also a HACK I should
     // get rid of. Only after there are unit tests to make sure the change
@@ -543,7 +558,7 @@ impl<'tcx> AquascopeAnalysis<'tcx> {
     // is included in the returned ranges.
     let spans = spans
       .into_iter()
-      .filter(|span| (min_span.lo() <= span.lo() && span.hi() <= max_span.hi()))
+      .filter(|span| !span.is_empty() && within(span))
       .map(|span| {
         span
           .as_local(self.permissions.body_with_facts.body.span)
-- 
2.43.0


From 7e5cdb465756f9d55c7d66cdf61604b164642dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 33/37] fix: a local that goes out of scope is not moved

---
 .../src/analysis/permissions/output.rs        | 43 ++++++++++++++++---
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/output.rs b/crates/aquascope/src/analysis/permissions/output.rs
index 4cc8f46..0dec92f 100644
--- a/crates/aquascope/src/analysis/permissions/output.rs
+++ b/crates/aquascope/src/analysis/permissions/output.rs
@@ -17,7 +17,7 @@ use rustc_data_structures::fx::{FxHashMap as HashMap, FxHashSet as HashSet};
 use rustc_hir::{BodyId, Mutability};
 use rustc_index::IndexVec;
 use rustc_middle::{
-  mir::{visit::Visitor, ProjectionElem},
+  mir::{visit::Visitor, Local, ProjectionElem, StatementKind},
   ty::{self, TyCtxt, TypingEnv},
 };
 use rustc_mir_dataflow::move_paths::MoveData;
@@ -271,6 +271,18 @@ pub fn derive_permission_facts(ctxt: &mut PermissionsCtxt) {
       },
     ));
 
+  let local_out_of_scope_at: HashSet<(Local, Point)> = body
+    .all_locations()
+    .filter_map(|location| {
+      match body.stmt_at(location).left()?.kind {
+        StatementKind::StorageDead(local) => {
+          Some((local, ctxt.location_to_point(location)))
+        }
+        _ => None,
+      }
+    })
+    .collect();
+
   // We only need iteration for crawling across child paths
   // Paths that are partially moved can not have R/O permissions,
   // thus, if a child path is uninitialized (moved or non-initialized),
@@ -283,12 +295,25 @@ pub fn derive_permission_facts(ctxt: &mut PermissionsCtxt) {
 
   // move_live_at(Move, Point) :-
   //   move_out(Move, Point).
-  move_live_at.extend(ctxt.move_data.moves.iter_enumerated().map(
-    |(move_idx, &move_out)| {
-      let point = ctxt.location_to_point(move_out.source);
-      (move_idx, point)
-    },
-  ));
+  //
+  // A local that goes out of scope isn't moved, although it is left
+  // uninitialized; and no earlier move of it matters any more.
+  move_live_at.extend(
+    ctxt
+      .move_data
+      .moves
+      .iter_enumerated()
+      .map(|(move_idx, move_out)| {
+        (move_idx, ctxt.location_to_point(move_out.source))
+      })
+      .filter(|(move_idx, point)| {
+        let local = ctxt.move_data.move_paths
+          [ctxt.move_data.moves[*move_idx].path]
+          .place
+          .local;
+        !local_out_of_scope_at.contains(&(local, *point))
+      }),
+  );
 
   // path_maybe_uninitialized_on_entry(Point1, Path) :-
   //    path_maybe_uninitialized_on_exit(Point0, Path)
@@ -314,6 +339,10 @@ pub fn derive_permission_facts(ctxt: &mut PermissionsCtxt) {
           let mp = ctxt.moveable_path_to_path(mpath);
           let place2 = ctxt.path_to_place(mp);
 
+          if local_out_of_scope_at.contains(&(place2.local, point2)) {
+            return false;
+          }
+
           // TODO: we can pull this out into its own rule. I'm
           //       hesitant to pre-compute everything over the
           //       entire domain because I'm not sure it's worth
-- 
2.43.0


From 9f4b8804d8dc85dba9a6c2290bf22b3d6926c0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 34/37] fix: what else flows into a region of the signature is
 no flow of its own

---
 .../aquascope/src/analysis/permissions/flow.rs  | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/flow.rs b/crates/aquascope/src/analysis/permissions/flow.rs
index c7636d6..2798a00 100644
--- a/crates/aquascope/src/analysis/permissions/flow.rs
+++ b/crates/aquascope/src/analysis/permissions/flow.rs
@@ -224,18 +224,23 @@ impl RegionFlows {
 
     // If both regions contain abstract, we check that all regions in `from`
     // are known to outlive those in `to`. Otherwise, there is a
-    // missing constraint that needs to be specified.
+    // missing constraint that needs to be specified. (For an abstract `to`
+    // only the region itself matters, not what else may flow into it.)
+    let to_abstracts = if self.is_abstract_member(to) {
+      vec![scc_to]
+    } else {
+      self.contains_abstract.reachable_from(scc_to)
+    };
+
     if !self
       .contains_abstract
       .reachable_from(scc_from)
       .into_iter()
       .all(|from| {
-        self
-          .contains_abstract
-          .reachable_from(scc_to)
-          .into_iter()
+        to_abstracts
+          .iter()
           // was `'from: 'to` user-specified?
-          .all(|to| self.specified_flows.contains(to, from))
+          .all(|&to| self.specified_flows.contains(to, from))
       })
     {
       return FlowEdgeKind::MissingUniversalConstraint;
-- 
2.43.0


From 52dac2ad277dec99b4159e62c632af7abbe953f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 35/37] fix: lifetimes are known to outlive each other through
 ones that the body does not use

---
 .../src/analysis/permissions/flow.rs          | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/flow.rs b/crates/aquascope/src/analysis/permissions/flow.rs
index 2798a00..6c04a6c 100644
--- a/crates/aquascope/src/analysis/permissions/flow.rs
+++ b/crates/aquascope/src/analysis/permissions/flow.rs
@@ -401,15 +401,27 @@ pub fn compute_flows(ctxt: &mut PermissionsCtxt) {
 
   log::debug!("Abstract sources(placeholders):\n{placeholders:#?}");
 
+  // What is known transitively: the way from one region that appears in the body
+  // to another can go through regions that do not appear in it.
+  let mut known_subset = TransitiveRelationBuilder::default();
+  for &(f, t) in ctxt.polonius_input_facts.known_placeholder_subset.iter() {
+    known_subset.add(f, t);
+  }
+  let known_subset = known_subset.freeze();
+
   // We filter the placeholders because the `known_placeholder_subset` contains a
   // top and bottom of the abstract lattice, but we only care about those
   // that actually appear in the body.
-  let placeholder_edges = ctxt
-    .polonius_input_facts
-    .known_placeholder_subset
+  let placeholder_edges = vertices
     .iter()
-    .filter(|(f, t)| vertices.contains(f) && vertices.contains(t))
-    .map(|&(f, t)| (scc_constraints.scc(f), scc_constraints.scc(t)))
+    .flat_map(|&f| {
+      known_subset
+        .reachable_from(f)
+        .into_iter()
+        .map(move |t| (f, t))
+    })
+    .filter(|(_, t)| vertices.contains(t))
+    .map(|(f, t)| (scc_constraints.scc(f), scc_constraints.scc(t)))
     .chain(placeholders.iter().map(|&o| (o, o)))
     .collect::<Vec<_>>();
 
-- 
2.43.0


From 659785d3d60b6dbd7c638649a2da579c603a3159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 36/37] fix: flows into a region of the signature by way of
 other regions are found

---
 .../aquascope/src/analysis/boundaries/mod.rs  | 49 +++++++++++++------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/crates/aquascope/src/analysis/boundaries/mod.rs b/crates/aquascope/src/analysis/boundaries/mod.rs
index 0f061b8..bacf3bf 100644
--- a/crates/aquascope/src/analysis/boundaries/mod.rs
+++ b/crates/aquascope/src/analysis/boundaries/mod.rs
@@ -658,25 +658,44 @@ fn get_flow_permission(
     );
   }
 
-  let mut flow_violations =
-    context_constraints.iter().filter_map(|&(from, to, _)| {
-      let fk = region_flows.flow_kind(from, to);
+  // Follow a region through the constraints of the context, up to the
+  // abstract regions it flows into.
+  let flows_into_abstract = |origin: Origin| {
+    let mut reached = vec![origin];
+    let mut next = 0;
+    while let Some(&from) = reached.get(next) {
+      next += 1;
+      if region_flows.is_abstract_member(from) {
+        continue;
+      }
+      for &(f, t, _) in context_constraints.iter() {
+        if f == from && !reached.contains(&t) {
+          reached.push(t);
+        }
+      }
+    }
+    reached
+      .into_iter()
+      .filter(|&o| region_flows.is_abstract_member(o))
+      .collect::<Vec<_>>()
+  };
 
+  let mut flow_violations =
+    specific_constraints.iter().flat_map(|&(from, via, _)| {
       // We want to look specifically for flows that:
       // - flow to an abstract region (XXX: a current design constraint to be lifter)
       // - are invalid
-      // - the local constraints create a context constraint involved in the violation.
-      if region_flows.is_abstract_member(to)
-        && !fk.is_valid_flow()
-        && specific_constraints
-          .iter()
-          .any(|&(_f, t, _)| t == from || t == to)
-      {
-        log::debug!("found flow violation: {fk:?} @ {from:?} -> {to:?}");
-        Some(fk)
-      } else {
-        None
-      }
+      // - start at the local constraints.
+      flows_into_abstract(via)
+        .into_iter()
+        .filter_map(|to| {
+          let fk = region_flows.flow_kind(from, to);
+          (!fk.is_valid_flow()).then(|| {
+            log::debug!("found flow violation: {fk:?} @ {from:?} -> {to:?}");
+            fk
+          })
+        })
+        .collect::<Vec<_>>()
     });
 
   // In theory there could be multiple violations that occur in the context. Multiple could also
-- 
2.43.0


From db7a899de7854eb99e3e4e6ae9b0fe4ee945d2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 37/37] fix: a reborrow of the value of a block belongs to the
 flow of that value

---
 .../aquascope/src/analysis/boundaries/mod.rs  | 51 ++++++++++++++++---
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/crates/aquascope/src/analysis/boundaries/mod.rs b/crates/aquascope/src/analysis/boundaries/mod.rs
index bacf3bf..0f233d2 100644
--- a/crates/aquascope/src/analysis/boundaries/mod.rs
+++ b/crates/aquascope/src/analysis/boundaries/mod.rs
@@ -178,7 +178,7 @@ pub(crate) mod path_visitor;
 use anyhow::Result;
 use either::Either;
 use path_visitor::get_path_boundaries;
-use rustc_hir::{def::Res, Expr, ExprKind, HirId, QPath, UnOp};
+use rustc_hir::{def::Res, Expr, ExprKind, HirId, Node, QPath, UnOp};
 use rustc_middle::{
   mir::{
     Body, Local, Location, Mutability, Operand, Place, ProjectionElem, Rvalue,
@@ -570,9 +570,9 @@ fn flow_constraints_at_hir_id<'tcx>(
   ctxt: &PermissionsCtxt<'tcx>,
   ir_mapper: &IRMapper<'tcx>,
   hir_id: HirId,
+  depth: GatherDepth,
 ) -> Option<Vec<(Origin, Origin, Point)>> {
-  let mir_locations =
-    ir_mapper.get_mir_locations(hir_id, GatherDepth::Nested)?;
+  let mir_locations = ir_mapper.get_mir_locations(hir_id, depth)?;
 
   let all_constraints = mir_locations
     .values()
@@ -625,8 +625,41 @@ fn get_flow_permission(
       .any(|&(_, t, _)| region_flows.is_abstract_member(t))
   };
 
-  let context_constraints =
-    flow_constraints_at_hir_id(ctxt, ir_mapper, flow_context)?;
+  let mut context_constraints = flow_constraints_at_hir_id(
+    ctxt,
+    ir_mapper,
+    flow_context,
+    GatherDepth::Nested,
+  )?;
+
+  // If the context is the value of a block, then the blocks and branches around
+  // it can have adjusted (e.g., reborrowed) that value before they pass it on.
+  if matches!(
+    hir.parent_iter(flow_context).next(),
+    Some((_, Node::Block(block)))
+      if block.expr.is_some_and(|e| e.hir_id == flow_context)
+  ) {
+    let around = hir.parent_iter(flow_context).take_while(|(_, node)| {
+      matches!(
+        node,
+        Node::Block(_)
+          | Node::Arm(_)
+          | Node::Expr(Expr {
+            kind: ExprKind::Block(..)
+              | ExprKind::If(..)
+              | ExprKind::Match(..)
+              | ExprKind::DropTemps(..),
+            ..
+          })
+      )
+    });
+    for (id, _) in around {
+      context_constraints.extend(
+        flow_constraints_at_hir_id(ctxt, ir_mapper, id, GatherDepth::Outer)
+          .unwrap_or_default(),
+      );
+    }
+  }
 
   // FIXME: current restriction, only look at constraints when
   // an abstract equivalent region is on the right-hand-side.
@@ -639,8 +672,12 @@ fn get_flow_permission(
   }
 
   // Search for relevant flows and flow violations.
-  let specific_constraints =
-    flow_constraints_at_hir_id(ctxt, ir_mapper, hir_id)?;
+  let specific_constraints = flow_constraints_at_hir_id(
+    ctxt,
+    ir_mapper,
+    hir_id,
+    GatherDepth::Nested,
+  )?;
 
   {
     let format_with_scc = |v: &[(Origin, Origin, Point)]| {
-- 
2.43.0

