From 0cef337fd8498f3ed52cbcea134fd037f2159485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 01/39] fix: expect the permissions of the accessed field, not
 of its base

Reading a Copy field of a non-Copy struct (p.x, (*r).f) required Own at the
base, so programs accepted by rustc were shown with a missing permission.
---
 .../src/analysis/boundaries/path_visitor.rs   | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/crates/aquascope/src/analysis/boundaries/path_visitor.rs b/crates/aquascope/src/analysis/boundaries/path_visitor.rs
index fe83386..3612583 100644
--- a/crates/aquascope/src/analysis/boundaries/path_visitor.rs
+++ b/crates/aquascope/src/analysis/boundaries/path_visitor.rs
@@ -31,6 +31,22 @@ struct HirExprScraper<'tcx> {
   unsupported_feature: Option<(Span, String)>,
 }
 
+/// Is the expression a local variable, possibly followed by derefs and field projections?
+fn is_local_place(expr: &Expr) -> bool {
+  match expr.kind {
+    ExprKind::Field(base, _) | ExprKind::Unary(UnOp::Deref, base) => {
+      is_local_place(base)
+    }
+    ExprKind::Path(QPath::Resolved(
+      _,
+      Path {
+        res: Res::Local(_), ..
+      },
+    )) => true,
+    _ => false,
+  }
+}
+
 impl HirExprScraper<'_> {
   fn get_adjusted_permissions(&self, expr: &Expr) -> ExpectedPermissions {
     let ty_adj = self.typeck_res.expr_ty_adjusted(expr);
@@ -230,6 +246,21 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
         self.data.push(pb);
       }
 
+      // A field access only uses the place of the field, thus it's the type of
+      // the *field* which determines if the use is a move or a copy.
+      ExprKind::Field(base, _)
+        if is_local_place(base) && !expr.span.from_expansion() =>
+      {
+        let pb = PathBoundary {
+          hir_id,
+          flow_context,
+          is_lhs: false,
+          location: expr.span.shrink_to_lo(),
+          expected: self.get_adjusted_permissions(expr),
+        };
+        self.data.push(pb);
+      }
+
       // We only want to attach permissions to path resolved to `Local` ids.
       ExprKind::Path(QPath::Resolved(
         _,
-- 
2.43.0


From e0de60a2ca49739a1409117808d638fd1b3322f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 02/39] fix: root the branches of a loop before its exit

The storage of a temporary of a while condition is also dead at the loop
exit, which was then taken for the exit of the condition. The stepper either
panicked (no switch after it), failed with 'no open collection dominates root
location', or computed the steps from the wrong location.
---
 .../src/analysis/stepper/hir_steps.rs         | 26 ++++++++++++++++---
 .../src/analysis/stepper/segmented_mir.rs     |  7 +++++
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/crates/aquascope/src/analysis/stepper/hir_steps.rs b/crates/aquascope/src/analysis/stepper/hir_steps.rs
index 4db84e9..81ce8de 100644
--- a/crates/aquascope/src/analysis/stepper/hir_steps.rs
+++ b/crates/aquascope/src/analysis/stepper/hir_steps.rs
@@ -295,12 +295,30 @@ impl<'a, 'tcx: 'a> HirStepPoints<'a, 'tcx> {
     &mut self,
     cnd: &'tcx hir::Expr,
     expr: &'tcx hir::Expr,
+    branch_entries: &HashMap<Location, Span>,
   ) -> Option<Location> {
     // NOTE: first we need to walk and split the condition. In the
     // case of a more complex condition expression, splitting this
     // first will result in a split location closest to the `SwitchInt`.
     self.visit_expr(cnd);
-    let Some(cnd_exit) = self.get_node_exit(cnd.hir_id).or_else(|| {
+
+    // NOTE: the temporaries of a condition can be dead only *after* the branch, e.g.
+    // with `while x > 0 { ... }` the storage of a copy of `x` is also dead at the loop
+    // exit. The exit of the condition needs to come before all of the branches.
+    let is_before_branches = |exit: &Location| {
+      branch_entries
+        .keys()
+        .all(|&entry| self.ir_mapper.ldominates(*exit, entry))
+    };
+
+    let cnd_exit_opt = match self.get_node_exit(cnd.hir_id) {
+      Some(exit) if !is_before_branches(&exit) => {
+        self.get_node_entry(cnd.hir_id)
+      }
+      exit => exit,
+    };
+
+    let Some(cnd_exit) = cnd_exit_opt.or_else(|| {
       log::warn!(
         "EXPR condition has no exit {} looking at expr entry",
         self.prettify_node(cnd.hir_id)
@@ -389,7 +407,8 @@ impl<'a, 'tcx: 'a> HirStepPoints<'a, 'tcx> {
       else_opt.map_or(String::from("<NONE>"), |e| self.prettify_node(e.hir_id))
     );
     let expr_id = expr.hir_id;
-    let Some(cnd_exit) = self.expr_condition_prelude(cnd, expr) else {
+    let Some(cnd_exit) = self.expr_condition_prelude(cnd, expr, &entry_locs_to_spans)
+    else {
       return;
     };
 
@@ -453,7 +472,8 @@ impl<'a, 'tcx: 'a> HirStepPoints<'a, 'tcx> {
     entry_locs_to_spans: HashMap<Location, Span>,
   ) {
     let expr_id = expr.hir_id;
-    let Some(cnd_exit) = self.expr_condition_prelude(cnd, expr) else {
+    let Some(cnd_exit) = self.expr_condition_prelude(cnd, expr, &entry_locs_to_spans)
+    else {
       return;
     };
     let mapper = self.ir_mapper;
diff --git a/crates/aquascope/src/analysis/stepper/segmented_mir.rs b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
index 05d01da..0b21269 100644
--- a/crates/aquascope/src/analysis/stepper/segmented_mir.rs
+++ b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
@@ -623,6 +623,13 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
       // 1. insert the split segment into the branch
       let mut to = sblock.start_location();
       let span = get_span(&mut to);
+      // A segment that leads directly to the join point cannot step past it.
+      if let Some(phi) = phi_opt
+        && phi.block == to.block
+        && phi.statement_index < to.statement_index
+      {
+        to = phi;
+      }
       let sid = self.segments.push(SegmentData {
         segment: MirSegment::new(location, to),
         span,
-- 
2.43.0


From ab7c3d691dbd0513ecf85b96832c3ce2306bfa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 03/39] fix: show the permissions of the variable that is used

The place of a boundary was looked up by the similarity of names, over the
text of ever larger nodes, so that a similar name, a shadowed variable, or a
match on a variable could show the permissions of another variable. The base
of a path resolves to its declaration, use that one, and its first use.
---
 .../aquascope/src/analysis/boundaries/mod.rs  | 84 ++++++++++++++++++-
 1 file changed, 82 insertions(+), 2 deletions(-)

diff --git a/crates/aquascope/src/analysis/boundaries/mod.rs b/crates/aquascope/src/analysis/boundaries/mod.rs
index bf4d5f7..dd746ae 100644
--- a/crates/aquascope/src/analysis/boundaries/mod.rs
+++ b/crates/aquascope/src/analysis/boundaries/mod.rs
@@ -186,7 +186,7 @@ use rustc_middle::{
   },
   ty::{adjustment::AutoBorrowMutability, TyCtxt},
 };
-use rustc_span::Span;
+use rustc_span::{symbol::Ident, Span};
 use rustc_utils::{
   source_map::range::{BytePos, ByteRange, CharPos, CharRange},
   OperandExt, PlaceExt, SpanExt,
@@ -340,6 +340,63 @@ impl std::fmt::Debug for PathBoundary {
   }
 }
 
+/// The identifier, at its declaration, of the local variable that is the base of a place expression.
+fn base_binding(tcx: TyCtxt, id: HirId) -> Option<Ident> {
+  use rustc_hir::{def::Res, ExprKind, Node, Path, PatKind, QPath, UnOp};
+
+  let Node::Expr(mut expr) = tcx.hir_node(id) else {
+    return None;
+  };
+
+  loop {
+    match expr.kind {
+      ExprKind::AddrOf(_, _, base)
+      | ExprKind::Unary(UnOp::Deref, base)
+      | ExprKind::Field(base, _)
+      | ExprKind::Index(base, _, _)
+      | ExprKind::DropTemps(base) => expr = base,
+      ExprKind::Path(QPath::Resolved(
+        _,
+        Path {
+          res: Res::Local(binding),
+          ..
+        },
+      )) => {
+        return match tcx.hir_node(*binding) {
+          Node::Pat(pat) => match pat.kind {
+            PatKind::Binding(_, _, ident, _) => Some(ident),
+            _ => None,
+          },
+          _ => None,
+        };
+      }
+      _ => return None,
+    }
+  }
+}
+
+/// Get the place declared by the local variable that is the base of the `HirId` place.
+fn declared_base_place<'tcx>(
+  tcx: TyCtxt<'tcx>,
+  id: HirId,
+  body: &Body<'tcx>,
+) -> Option<Place<'tcx>> {
+  use rustc_middle::mir::VarDebugInfoContents;
+
+  let ident = base_binding(tcx, id)?;
+  body.var_debug_info.iter().find_map(|debug_info| {
+    match debug_info.value {
+      VarDebugInfoContents::Place(p)
+        if debug_info.name == ident.name
+          && debug_info.source_info.span.contains(ident.span) =>
+      {
+        Some(p)
+      }
+      _ => None,
+    }
+  })
+}
+
 /// Get all local places within the body, sorted by their similarity to the given `HirId` place.
 fn locals_by_visible_distance<'tcx>(
   tcx: TyCtxt<'tcx>,
@@ -383,10 +440,32 @@ fn locals_by_visible_distance<'tcx>(
 fn select_candidate_location<'tcx>(
   tcx: TyCtxt<'tcx>,
   body: &Body<'tcx>,
+  ir_mapper: &IRMapper<'tcx>,
+  base_place: Option<Place<'tcx>>,
   hir_id: HirId,
   //subtract_from: impl FnOnce() -> Vec<(Location, Place<'tcx>)>,
   candidates: &[(Location, Place<'tcx>)],
 ) -> Option<(Location, Place<'tcx>)> {
+  // If we know the declaration of the base then pick its first use.
+  if let Some(base) = base_place {
+    let matching = candidates
+      .iter()
+      .filter(|(_, p)| {
+        p.local == base.local && p.projection.starts_with(base.projection)
+      })
+      .copied()
+      .collect::<Vec<_>>();
+    return matching
+      .iter()
+      .find(|(loc, _)| {
+        matching
+          .iter()
+          .all(|(other, _)| ir_mapper.ldominates(*loc, *other))
+      })
+      .or(matching.first())
+      .copied();
+  }
+
   if candidates.len() <= 1 {
     return candidates.first().copied();
   }
@@ -723,12 +802,13 @@ fn path_to_perm_boundary(
     hir.node_to_string(path_boundary.hir_id)
   );
 
+  let base_place = declared_base_place(tcx, hir_id, body);
   let search_at_hir_id = |hir_id| {
     let path_locations =
       paths_at_hir_id(tcx, body, ir_mapper, hir_id, path_boundary.is_lhs)?;
 
     let (loc, place) =
-      select_candidate_location(tcx, body, hir_id, &path_locations)?;
+      select_candidate_location(tcx, body, ir_mapper, base_place, hir_id, &path_locations)?;
 
     let point = ctxt.location_to_point(loc);
     let path = ctxt.place_to_path(&place);
-- 
2.43.0


From 649150be39d1ac63658535e9e3b0888f86f98747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 04/39] fix: don't panic on non-ASCII text when matching names

fuzzy_match indexes characters by bytes, a string literal with a multibyte
character close to a path crashed the analysis of the whole crate.
---
 .../aquascope/src/analysis/boundaries/mod.rs  | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/aquascope/src/analysis/boundaries/mod.rs b/crates/aquascope/src/analysis/boundaries/mod.rs
index dd746ae..d880574 100644
--- a/crates/aquascope/src/analysis/boundaries/mod.rs
+++ b/crates/aquascope/src/analysis/boundaries/mod.rs
@@ -409,18 +409,26 @@ fn locals_by_visible_distance<'tcx>(
   let map = tcx.hir();
   // Get a textual representation of the path we're dealing with. Note, that this
   // may be something like `*x` or `&x[0]` and not just `x`.
-  let node_str = tcx
+  let mut node_str = tcx
     .sess
     .source_map()
     .span_to_snippet(map.span(id))
     .unwrap_or_default();
 
-  let all_local_places = body.var_debug_info.iter().filter_map(|debug_info| {
-    let VarDebugInfoContents::Place(p) = debug_info.value else {
-      return None;
-    };
-    Some((debug_info.name.as_str(), p))
-  });
+  // NOTE: `fuzzy_match` panics if there's nothing to match, or with text that isn't ASCII.
+  node_str.retain(|c| c.is_ascii());
+  let mut all_local_places = body
+    .var_debug_info
+    .iter()
+    .filter_map(|debug_info| {
+      let VarDebugInfoContents::Place(p) = debug_info.value else {
+        return None;
+      };
+      Some((debug_info.name.as_str(), p))
+    })
+    .filter(|(name, _)| name.is_ascii())
+    .peekable();
+  all_local_places.peek()?;
 
   fuzzy_match(&node_str, all_local_places)
 }
-- 
2.43.0


From 36f89ddf76450b95c265af169650d3aa3b6ded72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 05/39] fix: a mutable reference to a box allows writing to its
 contents

The contents of a box were writeable only if the local at the base of the
path is declared mutable, even with a &mut in between (**r for r: &mut Box<T>).
---
 .../src/analysis/permissions/output.rs        | 49 ++++++++++---------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/output.rs b/crates/aquascope/src/analysis/permissions/output.rs
index 18e86ef..1c2118f 100644
--- a/crates/aquascope/src/analysis/permissions/output.rs
+++ b/crates/aquascope/src/analysis/permissions/output.rs
@@ -17,8 +17,8 @@ use rustc_data_structures::fx::{FxHashMap as HashMap, FxHashSet as HashSet};
 use rustc_hir::{BodyId, Mutability};
 use rustc_index::IndexVec;
 use rustc_middle::{
-  mir::{Place, ProjectionElem},
-  ty::{TyCtxt, TypingEnv},
+  mir::ProjectionElem,
+  ty::{self, TyCtxt, TypingEnv},
 };
 use rustc_mir_dataflow::move_paths::MoveData;
 use rustc_utils::{BodyExt, PlaceExt};
@@ -360,29 +360,30 @@ pub fn derive_permission_facts(ctxt: &mut PermissionsCtxt) {
 
   let is_never_write = |path: Path| {
     let place = &ctxt.path_to_place(path);
-    (!place.is_indirect() && ctxt.is_declared_readonly(place)) || {
-      // Iff there exists an immutable prefix it is also `never_write`
-      place
-        .iter_projections()
-        .filter_map(|(prefix, elem)| {
-          matches!(elem, ProjectionElem::Deref).then_some(prefix)
-        })
-        .any(|prefix| {
-          // For a given path `*x` we could be looking at the prefix of
-          // `x`. This could be a reference, in which case we simply check
-          // the mutability of the type.
-          let ty = prefix.ty(&body.local_decls, tcx).ty;
-          if let Some(mutability) = ty.ref_mutability() {
-            return mutability == Mutability::Not;
-          }
-
-          // In the above example of `*x`, example `x` could also be a
-          // `Box`, or for a different base path an array. These cases
-          // would require us to check the mutability binding of the local.
-          let local_place = Place::from_local(prefix.local, tcx);
-          ctxt.is_declared_readonly(&local_place)
-        })
+    let mut behind_pointer = false;
+
+    for (prefix, elem) in place.iter_projections() {
+      if !matches!(elem, ProjectionElem::Deref) {
+        continue;
+      }
+
+      // For a given path `*x` we could be looking at the prefix of
+      // `x`. This could be a reference, in which case we simply check
+      // the mutability of the type. Iff there exists an immutable prefix
+      // the path is `never_write`.
+      match prefix.ty(&body.local_decls, tcx).ty.kind() {
+        ty::Ref(_, _, Mutability::Not) | ty::RawPtr(_, Mutability::Not) => {
+          return true
+        }
+        ty::Ref(..) | ty::RawPtr(..) => behind_pointer = true,
+        _ => {}
+      }
     }
+
+    // In the above example of `*x`, example `x` could also be a `Box`, which owns
+    // its contents. Memory that is owned by the local requires us to check the
+    // mutability binding of the local.
+    !behind_pointer && ctxt.is_declared_readonly(place)
   };
 
   // .decl loan_conflicts_with(Loan, Path)
-- 
2.43.0


From e8cf784dbcba76befda9fb7ef84e31c43df9ad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 06/39] fix: the contents of a box can be moved

A move out of a box (*b for b: Box<T>) was shown with a missing O permission,
as if the box was a reference.
---
 crates/aquascope/src/analysis/permissions/context.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/context.rs b/crates/aquascope/src/analysis/permissions/context.rs
index 4ed2366..9e3deeb 100644
--- a/crates/aquascope/src/analysis/permissions/context.rs
+++ b/crates/aquascope/src/analysis/permissions/context.rs
@@ -245,7 +245,14 @@ impl<'tcx> PermissionsCtxt<'tcx> {
   /// <https://doc.rust-lang.org/nightly/nightly-rustc/src/rustc_mir_dataflow/move_paths/builder.rs.html#100>
   pub fn is_path_drop_enabled(&self, path: Path) -> bool {
     let place = self.path_to_place(path);
-    let is_indirect = place.is_indirect();
+    // NOTE: it's possible to move out of a `Box`, but not through a reference.
+    let is_behind_pointer = place.iter_projections().any(|(prefix, elem)| {
+      matches!(elem, ProjectionElem::Deref)
+        && prefix
+          .ty(&self.body_with_facts.body.local_decls, self.tcx)
+          .ty
+          .is_any_ptr()
+    });
     let contains_array_index = place.iter_projections().any(|(_, elem)| {
       matches!(
         elem,
@@ -272,7 +279,7 @@ impl<'tcx> PermissionsCtxt<'tcx> {
       })
     };
 
-    !is_indirect && !contains_array_index && !has_adt_prefix_with_dtor()
+    !is_behind_pointer && !contains_array_index && !has_adt_prefix_with_dtor()
   }
 
   // Permission utilities
-- 
2.43.0


From 35be2c9b0f44d8530a44a7f493efc02262948efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 07/39] fix: count characters, not bytes, in interpreter marker
 positions

---
 crates/mdbook-aquascope/src/annotations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mdbook-aquascope/src/annotations.rs b/crates/mdbook-aquascope/src/annotations.rs
index 200ef3b..86f6dd4 100644
--- a/crates/mdbook-aquascope/src/annotations.rs
+++ b/crates/mdbook-aquascope/src/annotations.rs
@@ -90,7 +90,7 @@ pub fn parse_annotations(code: &str) -> Result<(String, AquascopeAnnotations)> {
     macro_rules! add_fragment {
       ($s:expr) => {
         fragments.push($s);
-        idx += $s.len();
+        idx += $s.chars().count();
       };
     }
     if let Some(suffix) = line.strip_prefix('#') {
-- 
2.43.0


From 83ac7e505482cb6312c64bfe0a0bd5a83b7f5f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 08/39] fix: report an unknown inline permission option instead
 of panicking

---
 crates/mdbook-aquascope/src/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mdbook-aquascope/src/permissions.rs b/crates/mdbook-aquascope/src/permissions.rs
index 487a9b8..a2274da 100644
--- a/crates/mdbook-aquascope/src/permissions.rs
+++ b/crates/mdbook-aquascope/src/permissions.rs
@@ -33,7 +33,7 @@ pub fn parse_perms(
             r#"<span class="perm-diff-sub-container"><div class="perm-diff-sub"></div>{perm_html}</span>"#
           ),
           "[missing]" => format!(r#"<span class="perm missing {perm}">{letter}</span>"#),
-          _ => unimplemented!(),
+          options => bail!("Invalid permission option: {options}"),
         },
         None => perm_html,
       };
-- 
2.43.0


From 21eff52505091f6270c92cffc83f9cc2fb0079f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 09/39] fix: don't take the carriage return into the last word
 of a block header

---
 crates/mdbook-aquascope/src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mdbook-aquascope/src/block.rs b/crates/mdbook-aquascope/src/block.rs
index 4c83399..b034a7d 100644
--- a/crates/mdbook-aquascope/src/block.rs
+++ b/crates/mdbook-aquascope/src/block.rs
@@ -26,7 +26,7 @@ pub struct AquascopeBlock {
 impl AquascopeBlock {
   fn parse(i: LocatedSpan<&str>) -> IResult<LocatedSpan<&str>, Self> {
     fn parse_sym(i: LocatedSpan<&str>) -> IResult<LocatedSpan<&str>, String> {
-      let (i, v) = many0(none_of(",=\n+"))(i)?;
+      let (i, v) = many0(none_of(",=\r\n+"))(i)?;
       Ok((i, v.into_iter().collect::<String>()))
     }
 
-- 
2.43.0


From d6bd5151cb4007c9be089ff82dceb4df66ce3674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 10/39] fix: read the analysis output while waiting for it

---
 crates/mdbook-aquascope/src/preprocessor.rs | 27 ++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/mdbook-aquascope/src/preprocessor.rs b/crates/mdbook-aquascope/src/preprocessor.rs
index 7665a6e..bd3b494 100644
--- a/crates/mdbook-aquascope/src/preprocessor.rs
+++ b/crates/mdbook-aquascope/src/preprocessor.rs
@@ -3,9 +3,11 @@
 use std::{
   collections::HashMap,
   fs,
+  io::{self, Read},
   path::PathBuf,
-  process::{Command, Stdio},
+  process::{Command, Output, Stdio},
   sync::RwLock,
+  thread::{self, JoinHandle},
   time::Duration,
 };
 
@@ -24,6 +26,16 @@ pub struct AquascopePreprocessor {
   cache: RwLock<Cache<AquascopeBlock, String>>,
 }
 
+fn read_in_background(
+  mut reader: impl Read + Send + 'static,
+) -> JoinHandle<io::Result<Vec<u8>>> {
+  thread::spawn(move || {
+    let mut buf = Vec::new();
+    reader.read_to_end(&mut buf)?;
+    Ok(buf)
+  })
+}
+
 impl AquascopePreprocessor {
   pub fn new() -> Result<Self> {
     let miri_sysroot = miri_sysroot()?;
@@ -85,12 +97,21 @@ impl AquascopePreprocessor {
 
       let mut child =
         cmd.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn()?;
-      if child.wait_timeout(Duration::from_secs(10))?.is_none() {
+      // Drain the pipes while waiting, otherwise the child would block on a
+      // full pipe and look like it timed out.
+      let stdout = read_in_background(child.stdout.take().unwrap());
+      let stderr = read_in_background(child.stderr.take().unwrap());
+      let Some(status) = child.wait_timeout(Duration::from_secs(10))? else {
         child.kill()?;
+        child.wait()?;
         bail!("Aquascope timed out on program:\n{}", block.code)
       };
 
-      let output = child.wait_with_output()?;
+      let output = Output {
+        status,
+        stdout: stdout.join().unwrap()?,
+        stderr: stderr.join().unwrap()?,
+      };
 
       if !output.status.success() {
         let error = String::from_utf8(output.stderr)?;
-- 
2.43.0


From 17bdbbed9d253b650b7cd71b4a6034be94145217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 11/39] fix: leave inline permissions within an Aquascope block
 alone

---
 crates/mdbook-aquascope/src/preprocessor.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/mdbook-aquascope/src/preprocessor.rs b/crates/mdbook-aquascope/src/preprocessor.rs
index bd3b494..26a79a2 100644
--- a/crates/mdbook-aquascope/src/preprocessor.rs
+++ b/crates/mdbook-aquascope/src/preprocessor.rs
@@ -198,13 +198,21 @@ impl AquascopePreprocessor {
     content: &str,
   ) -> Result<Vec<(std::ops::Range<usize>, String)>> {
     let to_process = AquascopeBlock::parse_all(content);
+
+    // The text of a block is not prose, so an inline permission within it
+    // must be left alone. Blanking the blocks keeps the byte ranges valid.
+    let mut prose = content.to_owned();
+    for (range, _) in &to_process {
+      prose.replace_range(range.clone(), &" ".repeat(range.len()));
+    }
+
     to_process
       .into_par_iter()
       .map(|(range, block)| {
         let html = self.process_code(block)?;
         Ok((range, html))
       })
-      .chain(crate::permissions::parse_perms(content).par_bridge())
+      .chain(crate::permissions::parse_perms(&prose).par_bridge())
       .collect()
   }
 
-- 
2.43.0


From c4c3a4331879e0e0aa2004749a73379318b2f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 12/39] fix: don't drop a request when a command prints invalid
 UTF-8

---
 crates/aquascope_serve/src/container.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aquascope_serve/src/container.rs b/crates/aquascope_serve/src/container.rs
index 56bb89f..854bbb3 100644
--- a/crates/aquascope_serve/src/container.rs
+++ b/crates/aquascope_serve/src/container.rs
@@ -97,8 +97,8 @@ impl Container {
 
     let output = timed_out.context(CommandExecTimedOutSnafu { timeout })?;
 
-    let stdout = String::from_utf8(output.stdout).unwrap();
-    let stderr = String::from_utf8(output.stderr).unwrap();
+    let stdout = String::from_utf8_lossy(&output.stdout).into_owned();
+    let stderr = String::from_utf8_lossy(&output.stderr).into_owned();
     log::info!("{}", stderr);
 
     Ok((stdout, stderr))
-- 
2.43.0


From b74e040596728be519a9a9f30302a0820e24b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 13/39] fix: end a command that timed out

---
 crates/aquascope_serve/src/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aquascope_serve/src/container.rs b/crates/aquascope_serve/src/container.rs
index 854bbb3..7f255d9 100644
--- a/crates/aquascope_serve/src/container.rs
+++ b/crates/aquascope_serve/src/container.rs
@@ -84,7 +84,7 @@ impl Container {
     cmd: &mut Command,
   ) -> Result<(String, String)> {
     let timeout = COMMAND_TIMEOUT;
-    let cmd = cmd.current_dir(self.cwd());
+    let cmd = cmd.current_dir(self.cwd()).kill_on_drop(true);
     let timed_out = match time::timeout(timeout, cmd.output()).await {
       Ok(Ok(output)) => Ok(output),
       // failure
-- 
2.43.0


From ba8cc4efeec4e2f2f2454a47a2ad78f42a9fcd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 14/39] fix: what lies within an uninitialized path is
 uninitialized

---
 .../aquascope/src/analysis/boundaries/mod.rs  |  3 ++-
 .../src/analysis/permissions/context.rs       | 19 ++++++++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/aquascope/src/analysis/boundaries/mod.rs b/crates/aquascope/src/analysis/boundaries/mod.rs
index d880574..ef78e73 100644
--- a/crates/aquascope/src/analysis/boundaries/mod.rs
+++ b/crates/aquascope/src/analysis/boundaries/mod.rs
@@ -838,7 +838,8 @@ fn path_to_perm_boundary(
       })
     })
     .map(|(point, path)| {
-      let data = ctxt.permissions_data_at_point(path, point);
+      let mut data = ctxt.permissions_data_at_point(path, point);
+      data.path_uninitialized |= ctxt.is_within_uninitialized(path, point);
       let expected = path_boundary.expected;
       let actual = data.permissions_ignore_liveness();
 
diff --git a/crates/aquascope/src/analysis/permissions/context.rs b/crates/aquascope/src/analysis/permissions/context.rs
index 9e3deeb..4f64946 100644
--- a/crates/aquascope/src/analysis/permissions/context.rs
+++ b/crates/aquascope/src/analysis/permissions/context.rs
@@ -22,7 +22,7 @@ use rustc_middle::{
   mir::{BorrowKind, Local, Location, Place, ProjectionElem},
   ty::{self, Ty, TyCtxt, TypingEnv},
 };
-use rustc_mir_dataflow::move_paths::MoveData;
+use rustc_mir_dataflow::move_paths::{LookupResult, MoveData};
 use rustc_span::Span;
 use rustc_utils::{BodyExt, PlaceExt, SpanExt, TyExt};
 use smallvec::{smallvec, SmallVec};
@@ -401,6 +401,23 @@ impl<'tcx> PermissionsCtxt<'tcx> {
     }
   }
 
+  /// Is this place within a moveable path that is uninitialized as a whole?
+  ///
+  /// The facts of initialization are about moveable paths only. A place which isn't
+  /// one (e.g., `*b` of a never assigned box) has the state of the closest
+  /// moveable path it lies within.
+  pub fn is_within_uninitialized(&self, path: Path, point: Point) -> bool {
+    let place = self.path_to_place(path);
+    match self.move_data.rev_lookup.find(place.as_ref()) {
+      LookupResult::Exact(mpath) | LookupResult::Parent(Some(mpath)) => self
+        .polonius_output
+        .path_maybe_uninitialized_on_exit
+        .get(&point)
+        .is_some_and(|mpaths| mpaths.contains(&mpath)),
+      LookupResult::Parent(None) => false,
+    }
+  }
+
   pub fn domain_places(&self) -> HashSet<Place<'tcx>> {
     let def_id = self.def_id;
     let tcx = self.tcx;
-- 
2.43.0


From 05361146745ce3e969fbfdce1bba0ef78fd91fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:45 +0000
Subject: [PATCH 15/39] fix: show a change next to a table where the place is
 unchanged

---
 crates/aquascope/src/analysis/stepper/table_builder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/aquascope/src/analysis/stepper/table_builder.rs b/crates/aquascope/src/analysis/stepper/table_builder.rs
index b88b4c7..87894b6 100644
--- a/crates/aquascope/src/analysis/stepper/table_builder.rs
+++ b/crates/aquascope/src/analysis/stepper/table_builder.rs
@@ -327,6 +327,11 @@ pub(super) fn prettify_permission_steps<'tcx>(
               log::debug!("- Place: {place:?} Segment {segment:?}\n\t\t{diff:?}");
               o.insert(diff);
             }
+            // A table where nothing changes doesn't hide a change of another.
+            Entry::Occupied(_) if diff.is_empty() => {}
+            Entry::Occupied(mut o) if o.get().is_empty() => {
+              o.insert(diff);
+            }
             Entry::Occupied(o) => {
               let old_diff = o.get();
               if diff.is_symmetric_diff(old_diff) {
-- 
2.43.0


From 8d8c91c452ca5b180107ef63d9769949a01fc2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:29 +0000
Subject: [PATCH 16/39] fix: report where paths are moved

---
 crates/aquascope/src/analysis/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/aquascope/src/analysis/mod.rs b/crates/aquascope/src/analysis/mod.rs
index 3b2ded7..caeb633 100644
--- a/crates/aquascope/src/analysis/mod.rs
+++ b/crates/aquascope/src/analysis/mod.rs
@@ -320,8 +320,8 @@ impl<'tcx> AquascopeAnalysis<'tcx> {
   }
 
   pub fn is_span_visible(&self, span: Span) -> bool {
-    // let source_map = self.permissions.tcx.sess.source_map();
-    span.is_dummy() || span.is_empty() // || !span.is_visible(source_map)
+    let body_span = self.permissions.body_with_facts.body.span;
+    !span.is_dummy() && !span.is_empty() && body_span.contains(span)
   }
 
   pub fn span_to_range(&self, span: Span) -> CharRange {
@@ -459,7 +459,7 @@ impl<'tcx> AquascopeAnalysis<'tcx> {
               .filter(|point| ctxt.is_point_operational(*point)),
           )
           .into_iter()
-          .filter(|span| lo <= span.lo())
+          .filter(|span| lo <= span.lo() && self.is_span_visible(*span))
           .collect::<Vec<_>>();
         let smoothed = smooth_elements(points);
         let refined_ranges = smoothed
-- 
2.43.0


From 9faee0fce2c2871268cc52877b1c6057be2954b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:17 +0000
Subject: [PATCH 17/39] fix: list the fields of a place in a stable order

---
 .../aquascope/src/analysis/stepper/table_builder.rs   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/aquascope/src/analysis/stepper/table_builder.rs b/crates/aquascope/src/analysis/stepper/table_builder.rs
index 87894b6..abf0968 100644
--- a/crates/aquascope/src/analysis/stepper/table_builder.rs
+++ b/crates/aquascope/src/analysis/stepper/table_builder.rs
@@ -358,8 +358,15 @@ pub(super) fn prettify_permission_steps<'tcx>(
         .into_iter()
         .collect::<Vec<_>>();
 
-      master_table_vec
-            .sort_by_key(|(place, _)| (place.local.as_usize(), place.projection.len()));
+      // NOTE: the places of one local come from a hash table, their order
+      //       has to be fixed down to the last field.
+      master_table_vec.sort_by_cached_key(|(place, _)| {
+        (
+          place.local.as_usize(),
+          place.projection.len(),
+          place_to_string!(place),
+        )
+      });
 
       let master_table = PermissionsStepTable {
         from,
-- 
2.43.0


From 021fa949cb7ff68a473bddb4f1a009d152aeaf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 18/39] fix: show what a closure assigns with the permissions
 at its capture

---
 crates/aquascope/src/analysis/boundaries/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/boundaries/mod.rs b/crates/aquascope/src/analysis/boundaries/mod.rs
index ef78e73..43c46fe 100644
--- a/crates/aquascope/src/analysis/boundaries/mod.rs
+++ b/crates/aquascope/src/analysis/boundaries/mod.rs
@@ -811,9 +811,15 @@ fn path_to_perm_boundary(
   );
 
   let base_place = declared_base_place(tcx, hir_id, body);
+
+  // NOTE: a place that is assigned within a closure is used in this body where
+  //       the closure captures it, that isn't the left-hand side of an assignment.
+  let is_lhs = path_boundary.is_lhs
+    && hir.enclosing_body_owner(hir_id) == ctxt.def_id.expect_local();
+
   let search_at_hir_id = |hir_id| {
     let path_locations =
-      paths_at_hir_id(tcx, body, ir_mapper, hir_id, path_boundary.is_lhs)?;
+      paths_at_hir_id(tcx, body, ir_mapper, hir_id, is_lhs)?;
 
     let (loc, place) =
       select_candidate_location(tcx, body, ir_mapper, base_place, hir_id, &path_locations)?;
-- 
2.43.0


From b80097aa5118ffe43a969aa337196bea4277f988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 19/39] fix: don't panic on a branch nested in an implicit
 branch

---
 .../src/analysis/stepper/segmented_mir.rs       | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/aquascope/src/analysis/stepper/segmented_mir.rs b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
index 0b21269..6a6cbf7 100644
--- a/crates/aquascope/src/analysis/stepper/segmented_mir.rs
+++ b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
@@ -72,6 +72,8 @@
 //! feel free to start at the [`SegmentedMirBuilder::insert`] function and explore
 //! from there.
 
+use std::rc::Rc;
+
 use anyhow::{anyhow, bail, ensure, Result};
 use rustc_data_structures::{
   frozen::Frozen,
@@ -213,7 +215,7 @@ enum FindResult {
 struct OpenCollections(Vec<CollectionBuilder>);
 
 type BranchSpannerMap<'a> =
-  HashMap<BranchId, Box<dyn Fn(&mut Location) -> Span + 'a>>;
+  HashMap<BranchId, Rc<dyn Fn(&mut Location) -> Span + 'a>>;
 
 pub(super) struct SegmentedMirBuilder<'a, 'tcx: 'a> {
   mapper: &'a IRMapper<'tcx>,
@@ -352,7 +354,7 @@ impl SegmentedMir {
 
 enum GetSpanner<'a> {
   GetFrom(BranchId),
-  InsertNew(Box<dyn Fn(&mut Location) -> Span + 'a>),
+  InsertNew(Rc<dyn Fn(&mut Location) -> Span + 'a>),
 }
 
 impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
@@ -589,13 +591,12 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
     let branch = &mut self.branches[bid];
 
     // Save the Location -> Span mappings under this root BranchId.
+    // An implicit branch shares that of its parent, its own children need it too.
     let get_span = match get_span {
-      GetSpanner::InsertNew(b) => {
-        self.root_mappings.insert(bid, b);
-        &self.root_mappings[&bid]
-      }
-      GetSpanner::GetFrom(bid) => &self.root_mappings[&bid],
+      GetSpanner::InsertNew(spanner) => spanner,
+      GetSpanner::GetFrom(parent) => Rc::clone(&self.root_mappings[&parent]),
     };
+    self.root_mappings.insert(bid, Rc::clone(&get_span));
 
     // Push the new Branch as a control flow kind on
     // the current collection's data set.
@@ -669,7 +670,7 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
     log::debug!("opening user initiated branch at {location:?}");
     log::debug!("open branches BEFORE {:#?}", self.processing);
 
-    let r = self.mk_branch(location, GetSpanner::InsertNew(Box::new(get_span)));
+    let r = self.mk_branch(location, GetSpanner::InsertNew(Rc::new(get_span)));
 
     log::debug!("open branches AFTER {:#?}", self.processing);
     r
-- 
2.43.0


From 6520a8837c5ce61f8c52e637c7e55711ea11bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 20/39] fix: don't recurse forever on an implicit branch
 without a join point

---
 .../aquascope/src/analysis/stepper/segmented_mir.rs   | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/aquascope/src/analysis/stepper/segmented_mir.rs b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
index 6a6cbf7..93fee17 100644
--- a/crates/aquascope/src/analysis/stepper/segmented_mir.rs
+++ b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
@@ -818,6 +818,17 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
       //      that compile to a series of `switchInt`s.
       FindResult::NonLinear(parent, branch_loc) => {
         self.open_child_branch(parent, branch_loc)?;
+
+        // Without a join point, the collection remains at the root of the branch.
+        let is_stuck = matches!(
+          self.find_suitable_collection(location),
+          FindResult::NonLinear(_, loc) if loc == branch_loc
+        );
+        ensure!(
+          !is_stuck,
+          "the implicit branch at {branch_loc:?} does not lead to {location:?}"
+        );
+
         self.insert(location, path_hint, span)
       }
 
-- 
2.43.0


From 7c0da757458f8c5047420903dde650309a52857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:02 +0000
Subject: [PATCH 21/39] fix: don't borrow-check ill-typed bodies

---
 crates/aquascope/src/analysis/mod.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/aquascope/src/analysis/mod.rs b/crates/aquascope/src/analysis/mod.rs
index caeb633..9fa337f 100644
--- a/crates/aquascope/src/analysis/mod.rs
+++ b/crates/aquascope/src/analysis/mod.rs
@@ -286,14 +286,23 @@ impl<'tcx> AquascopeAnalysis<'tcx> {
     tcx: TyCtxt<'tcx>,
     body_id: BodyId,
   ) -> AquascopeResult<AnalysisOutput> {
+    let build_error = |span| {
+      let source_map = tcx.sess.source_map();
+      let range = CharRange::from_span(span, source_map).unwrap().into();
+      Err(AquascopeError::BuildError { range })
+    };
+
+    // NOTE: the borrow checker panics on the bodies of some ill-typed coroutines.
+    let def_id = tcx.hir().body_owner_def_id(body_id);
+    if tcx.typeck(def_id).tainted_by_errors.is_some() {
+      return build_error(tcx.def_span(def_id));
+    }
+
     let analysis_ctxt = Self::new(tcx, body_id);
     let body = &analysis_ctxt.permissions.body_with_facts.body;
 
     if body.tainted_by_errors.is_some() {
-      let span = body.span;
-      let source_map = tcx.sess.source_map();
-      let range = CharRange::from_span(span, source_map).unwrap().into();
-      return Err(AquascopeError::BuildError { range });
+      return build_error(body.span);
     }
 
     crate::analysis::permissions::utils::dump_mir_debug(
-- 
2.43.0


From 3f413fbd7614fd55ed7458f44a966810b3c26099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:02 +0000
Subject: [PATCH 22/39] fix: report a misplaced break instead of an internal
 error

---
 crates/aquascope_front/src/plugin.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/aquascope_front/src/plugin.rs b/crates/aquascope_front/src/plugin.rs
index e62bb52..f823af0 100644
--- a/crates/aquascope_front/src/plugin.rs
+++ b/crates/aquascope_front/src/plugin.rs
@@ -238,6 +238,12 @@ impl<A: AquascopeAnalysis> rustc_driver::Callbacks for AquascopeCallbacks<A> {
 
     let _start = Instant::now();
 
+    // NOTE: a misplaced `break` or `continue` is only reported by this check,
+    //       without it building the MIR of the body would be an internal error.
+    tcx.hir().for_each_module(|module| {
+      tcx.ensure().check_mod_loops(module);
+    });
+
     let mut analysis = self.analysis.take().unwrap();
     find_bodies(tcx).into_iter().for_each(|(_, body_id)| {
       // Track diagnostics for the analysis of the current body
-- 
2.43.0


From 106d107b178ba0d8b5a8225259454bfe065a359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 23/39] fix: end the search for a branch in an infinite loop

---
 crates/aquascope/src/analysis/stepper/segmented_mir.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/stepper/segmented_mir.rs b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
index 93fee17..b5bbd0d 100644
--- a/crates/aquascope/src/analysis/stepper/segmented_mir.rs
+++ b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
@@ -529,8 +529,10 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
     };
 
     let mut current = Some(current.block);
+    let mut visited = HashSet::default();
     let mut linear_blocks = std::iter::from_fn(move || {
-      let previous = current?;
+      // NOTE: an infinite loop, `loop {}`, leads back to itself.
+      let previous = current.filter(|&block| visited.insert(block))?;
       let ss = self
         .mapper
         .cleaned_graph
-- 
2.43.0


From 5a54f4a95c6066db7d2ffe78f795b341635611d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 24/39] fix: combine the tables of a line in a fixed order

---
 crates/aquascope/src/analysis/stepper/table_builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/stepper/table_builder.rs b/crates/aquascope/src/analysis/stepper/table_builder.rs
index abf0968..835f382 100644
--- a/crates/aquascope/src/analysis/stepper/table_builder.rs
+++ b/crates/aquascope/src/analysis/stepper/table_builder.rs
@@ -1,5 +1,6 @@
 //! Convert permissions steps into tables viewable by the frontend.
 
+use itertools::Itertools;
 use rustc_data_structures::{
   self,
   fx::{FxHashMap as HashMap, FxHashSet as HashSet},
@@ -237,7 +238,8 @@ pub(super) fn prettify_permission_steps<'tcx>(
   // after the first error span.
   // Group these intermediate tables by line numbers to make
   // collapsing them easier.
-  for (_, v) in perm_steps.into_iter() {
+  // NOTE: how tables collapse depends on their order, so that needs to be fixed.
+  for (_, v) in perm_steps.into_iter().sorted_by_key(|(to, _)| *to) {
     for Table {
       segment,
       span,
-- 
2.43.0


From 5586e652083fa84005821f0f26ca7062e196f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 25/39] fix: don't open a branch for a match with a single arm

Such a match, for instance in the expansion of println! or dbg!, may have
a condition that branches while the match itself doesn't: opening it as
a branch failed.
---
 .../src/analysis/stepper/hir_steps.rs         | 30 ++++---------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/crates/aquascope/src/analysis/stepper/hir_steps.rs b/crates/aquascope/src/analysis/stepper/hir_steps.rs
index 81ce8de..4b306da 100644
--- a/crates/aquascope/src/analysis/stepper/hir_steps.rs
+++ b/crates/aquascope/src/analysis/stepper/hir_steps.rs
@@ -374,21 +374,6 @@ impl<'a, 'tcx: 'a> HirStepPoints<'a, 'tcx> {
     }
   }
 
-  fn condition_produced_switchint(&self, expr: &'tcx hir::Expr) -> bool {
-    if let Some(exit) = self.get_node_exit(expr.hir_id) {
-      log::debug!(
-        "checking location {exit:?} to see if terminator is switchInt"
-      );
-      self.ir_mapper.is_terminator_switchint(exit)
-    } else {
-      // If the IRMapper can't determine a single exit location that
-      // is most often caused by branching, in this case we just assume
-      // that a switchInt was produced. We can do something more robust
-      // if we see the need for it.
-      true
-    }
-  }
-
   // Factored out of the Visitor because this same logic is needed for
   // EK::If and while loop desugarings, just with a different location
   // to span mapping.
@@ -561,7 +546,7 @@ impl<'a, 'tcx: 'a> HirVisitor<'tcx> for HirStepPoints<'a, 'tcx> {
   }
 
   fn visit_expr(&mut self, expr: &'tcx hir::Expr) {
-    use hir::{ExprKind as EK, LoopSource, MatchSource, StmtKind as SK};
+    use hir::{ExprKind as EK, LoopSource, StmtKind as SK};
     match expr.kind {
       EK::If(cnd, then, else_opt) => {
         // For the generic case we can take the use the opening brace of each branch
@@ -683,14 +668,11 @@ impl<'a, 'tcx: 'a> HirVisitor<'tcx> for HirStepPoints<'a, 'tcx> {
         self.handle_expr_match(expr, cnd, &arms, entry_to_spans);
       }
 
-      // NOTE: if a match condition doesn't produce a `switchInt`, there
-      //       is no need to open a scope for this case. This most
-      //       commonly happens when there is a single arm (common for desugarings)
-      //       but it can also happen if future arms are elided. However, we
-      //       still want to show the steps at the arm locations.
-      EK::Match(cnd, [_], MatchSource::ForLoopDesugar)
-        if !self.condition_produced_switchint(cnd) =>
-      {
+      // NOTE: a single arm, common for desugarings and the expansion of macros
+      //       such as `println` and `dbg`, matches everything and there is no
+      //       `switchInt`. There is no need to open a scope for this case,
+      //       however, we still want to show the steps at the arm locations.
+      EK::Match(cnd, [_], _) => {
         log::debug!(
           "Match condition didn't produce switchInt {}",
           self.prettify_node(cnd.hir_id)
-- 
2.43.0


From 86f112e61e1a57c6ad0b2df144081320f73300e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 26/39] fix: don't crash when several blocks are built at the
 same time

wait-timeout installs its SIGCHLD handler before the state the handler
uses: a child of another thread ending in between crashed the build.
---
 crates/mdbook-aquascope/src/preprocessor.rs | 27 ++++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/crates/mdbook-aquascope/src/preprocessor.rs b/crates/mdbook-aquascope/src/preprocessor.rs
index 26a79a2..c3973b1 100644
--- a/crates/mdbook-aquascope/src/preprocessor.rs
+++ b/crates/mdbook-aquascope/src/preprocessor.rs
@@ -5,10 +5,10 @@ use std::{
   fs,
   io::{self, Read},
   path::PathBuf,
-  process::{Command, Output, Stdio},
+  process::{Child, Command, ExitStatus, Output, Stdio},
   sync::RwLock,
   thread::{self, JoinHandle},
-  time::Duration,
+  time::{Duration, Instant},
 };
 
 use anyhow::{bail, Result};
@@ -16,7 +16,6 @@ use aquascope_workspace_utils::{miri_sysroot, run_and_get_output, rustc};
 use mdbook_preprocessor_utils::HtmlElementBuilder;
 use rayon::prelude::*;
 use tempfile::tempdir;
-use wait_timeout::ChildExt;
 
 use crate::{block::AquascopeBlock, cache::Cache};
 
@@ -26,6 +25,9 @@ pub struct AquascopePreprocessor {
   cache: RwLock<Cache<AquascopeBlock, String>>,
 }
 
+/// How long a program may take to run through Aquascope.
+const TIMEOUT: Duration = Duration::from_secs(10);
+
 fn read_in_background(
   mut reader: impl Read + Send + 'static,
 ) -> JoinHandle<io::Result<Vec<u8>>> {
@@ -36,6 +38,23 @@ fn read_in_background(
   })
 }
 
+/// Waits for `child` to end, at most until `deadline`.
+///
+/// This polls rather than using `wait_timeout`, whose SIGCHLD handler crashes
+/// when another thread's child ends while the handler is being installed.
+fn wait_until(
+  child: &mut Child,
+  deadline: Instant,
+) -> io::Result<Option<ExitStatus>> {
+  loop {
+    let status = child.try_wait()?;
+    if status.is_some() || Instant::now() >= deadline {
+      return Ok(status);
+    }
+    thread::sleep(Duration::from_millis(5));
+  }
+}
+
 impl AquascopePreprocessor {
   pub fn new() -> Result<Self> {
     let miri_sysroot = miri_sysroot()?;
@@ -101,7 +120,7 @@ impl AquascopePreprocessor {
       // full pipe and look like it timed out.
       let stdout = read_in_background(child.stdout.take().unwrap());
       let stderr = read_in_background(child.stderr.take().unwrap());
-      let Some(status) = child.wait_timeout(Duration::from_secs(10))? else {
+      let Some(status) = wait_until(&mut child, Instant::now() + TIMEOUT)? else {
         child.kill()?;
         child.wait()?;
         bail!("Aquascope timed out on program:\n{}", block.code)
-- 
2.43.0


From 1577b5b14ef3af55178b10bb74c44c7396cac9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 27/39] fix: answer a request when cargo new fails

---
 crates/aquascope_serve/src/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aquascope_serve/src/container.rs b/crates/aquascope_serve/src/container.rs
index 7f255d9..c372ff9 100644
--- a/crates/aquascope_serve/src/container.rs
+++ b/crates/aquascope_serve/src/container.rs
@@ -119,7 +119,7 @@ impl Container {
 
     if !stderr.trim().is_empty() {
       log::error!("{}", stderr);
-      panic!("`cargo new` failed {stderr}");
+      return Err(anyhow::anyhow!("`cargo new` failed {stderr}").into());
     }
 
     log::debug!("Cargo output {}", output_s);
-- 
2.43.0


From e82014956b43ab4c8ff4aefb50b27821fcc46eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 28/39] fix: don't show flows of unrelated lifetimes into a
 common one as violated

---
 .../src/analysis/permissions/flow.rs          | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/flow.rs b/crates/aquascope/src/analysis/permissions/flow.rs
index c7636d6..5c2e063 100644
--- a/crates/aquascope/src/analysis/permissions/flow.rs
+++ b/crates/aquascope/src/analysis/permissions/flow.rs
@@ -222,21 +222,16 @@ impl RegionFlows {
       return FlowEdgeKind::LocalOutlivesUniversal;
     }
 
-    // If both regions contain abstract, we check that all regions in `from`
-    // are known to outlive those in `to`. Otherwise, there is a
-    // missing constraint that needs to be specified.
-    if !self
-      .contains_abstract
-      .reachable_from(scc_from)
-      .into_iter()
-      .all(|from| {
-        self
-          .contains_abstract
-          .reachable_from(scc_to)
-          .into_iter()
-          // was `'from: 'to` user-specified?
-          .all(|to| self.specified_flows.contains(to, from))
-      })
+    // An abstract region accepts exactly the regions known to outlive it. What else
+    // flows into it is irrelevant: with `'a: 'c` and `'b: 'c` both can flow into `'c`
+    // even though neither of `'a` and `'b` outlives the other.
+    if self.is_abstract_member(to)
+      && !self
+        .contains_abstract
+        .reachable_from(scc_from)
+        .into_iter()
+        // was `'from: 'to` user-specified?
+        .all(|from| self.specified_flows.contains(scc_to, from))
     {
       return FlowEdgeKind::MissingUniversalConstraint;
     }
-- 
2.43.0


From ba0f33370bf004d5aaced013abb9c99e652c9cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 29/39] fix: count bounds through lifetimes that don't occur in
 the body

---
 .../aquascope/src/analysis/permissions/flow.rs   | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/flow.rs b/crates/aquascope/src/analysis/permissions/flow.rs
index 5c2e063..0d59018 100644
--- a/crates/aquascope/src/analysis/permissions/flow.rs
+++ b/crates/aquascope/src/analysis/permissions/flow.rs
@@ -359,8 +359,12 @@ pub fn compute_flows(ctxt: &mut PermissionsCtxt) {
 
   // Graph of constraints that need to be satisfied. This shows
   // us how data flows from one region into another.
-  let constraint_graph =
-    VecGraph::<_, false>::new(count_nodes(&constraints), constraints);
+  //
+  // The known subset relation is only transitively complete with the regions
+  // that don't occur in the body, so they need to be nodes too.
+  let known_subset = &ctxt.polonius_input_facts.known_placeholder_subset;
+  let num_nodes = count_nodes(&constraints).max(count_nodes(known_subset));
+  let constraint_graph = VecGraph::<_, false>::new(num_nodes, constraints);
 
   let scc_constraints = Sccs::<Origin, SccIdx>::new(&constraint_graph);
   let num_sccs = scc_constraints.num_sccs();
@@ -391,14 +395,8 @@ pub fn compute_flows(ctxt: &mut PermissionsCtxt) {
 
   log::debug!("Abstract sources(placeholders):\n{placeholders:#?}");
 
-  // We filter the placeholders because the `known_placeholder_subset` contains a
-  // top and bottom of the abstract lattice, but we only care about those
-  // that actually appear in the body.
-  let placeholder_edges = ctxt
-    .polonius_input_facts
-    .known_placeholder_subset
+  let placeholder_edges = known_subset
     .iter()
-    .filter(|(f, t)| vertices.contains(f) && vertices.contains(t))
     .map(|&(f, t)| (scc_constraints.scc(f), scc_constraints.scc(t)))
     .chain(placeholders.iter().map(|&o| (o, o)))
     .collect::<Vec<_>>();
-- 
2.43.0


From 67965bb823d7ea2c2a2c6f67e73bb7cf74353f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 30/39] fix: treat what is in a local box as local to the body

---
 .../aquascope/src/analysis/permissions/flow.rs  | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/flow.rs b/crates/aquascope/src/analysis/permissions/flow.rs
index 0d59018..32f8d50 100644
--- a/crates/aquascope/src/analysis/permissions/flow.rs
+++ b/crates/aquascope/src/analysis/permissions/flow.rs
@@ -85,6 +85,7 @@ use rustc_data_structures::{
   transitive_relation::{TransitiveRelation, TransitiveRelationBuilder},
 };
 use rustc_index::{bit_set::ChunkedBitSet, Idx};
+use rustc_middle::mir::ProjectionElem;
 use rustc_utils::BodyExt;
 use serde::Serialize;
 use ts_rs::TS;
@@ -297,7 +298,7 @@ fn check_for_invalidation_at_exit<'tcx>(
   ctxt: &PermissionsCtxt<'tcx>,
   borrow: &BorrowData<'tcx>,
 ) -> bool {
-  use rustc_middle::mir::{PlaceRef, ProjectionElem};
+  use rustc_middle::mir::PlaceRef;
 
   let place = borrow.borrowed_place();
   let tcx = ctxt.tcx;
@@ -414,11 +415,19 @@ pub fn compute_flows(ctxt: &mut PermissionsCtxt) {
     flow_from_sources(placeholders.iter().copied(), &specified_flows_graph);
 
   // Compute local sources:
-  // If `Place::is_indirect` returns false, the caller knows
-  // that the Place refers to the same region of memory as its base.
+  // A place is owned by the body unless it is behind a reference or a pointer,
+  // what is in a `Box` belongs to the owner of the box.
   let mut local_sources = ChunkedBitSet::new_empty(num_sccs);
   for (_, bd) in ctxt.borrow_set.location_map().iter() {
-    if !bd.borrowed_place().is_indirect() {
+    let is_indirect =
+      bd.borrowed_place()
+        .as_ref()
+        .iter_projections()
+        .any(|(base, elem)| {
+          matches!(elem, ProjectionElem::Deref)
+            && !base.ty(body, tcx).ty.is_box()
+        });
+    if !is_indirect {
       let scc = scc_constraints.scc(PoloniusRegionVid::from(bd.region()));
       local_sources.insert(scc);
     }
-- 
2.43.0


From 23fac909c2f8d97160f8b2b651e42e3beba011ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 31/39] fix: place decorations by characters, not by UTF-16
 code units

The analysis counts the columns of a line in characters, but a position in
the editor counts UTF-16 code units. After a character outside of the basic
plane, every stack, table, marker and highlighted region was displaced.
---
 .../aquascope-editor/src/editor-utils/misc.tsx        | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/frontend/packages/aquascope-editor/src/editor-utils/misc.tsx b/frontend/packages/aquascope-editor/src/editor-utils/misc.tsx
index d0014e8..6c97398 100644
--- a/frontend/packages/aquascope-editor/src/editor-utils/misc.tsx
+++ b/frontend/packages/aquascope-editor/src/editor-utils/misc.tsx
@@ -324,5 +324,12 @@ export let makeDecorationField = () => {
   return { setEffect, field };
 };
 
-export let linecolToPosition = (p: CharPos, t: Text): number =>
-  t.line(p.line + 1).from + p.column;
+/** Length in the UTF-16 code units of the editor of the first `chars` characters. */
+export let charsToUnits = (s: string, chars: number): number =>
+  Array.from(s).slice(0, chars).join("").length;
+
+export let linecolToPosition = (p: CharPos, t: Text): number => {
+  let line = t.line(p.line + 1);
+  // A column counts characters, but a position counts UTF-16 code units.
+  return line.from + charsToUnits(line.text, p.column);
+};
-- 
2.43.0


From 38ae2e10aad1899f6db5283aa425548d88720813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 32/39] fix: count the characters before a state location

The preprocessor counts the characters before a mark of a state, but the
editor counts UTF-16 code units, so that after a character outside of the
basic plane the marks were displaced and could choose another state.
---
 .../aquascope-editor/src/editor-utils/interpreter.tsx      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/frontend/packages/aquascope-editor/src/editor-utils/interpreter.tsx b/frontend/packages/aquascope-editor/src/editor-utils/interpreter.tsx
index 9c3ac81..3fc4d4c 100644
--- a/frontend/packages/aquascope-editor/src/editor-utils/interpreter.tsx
+++ b/frontend/packages/aquascope-editor/src/editor-utils/interpreter.tsx
@@ -29,6 +29,7 @@ import type {
   MValue
 } from "../types.js";
 import {
+  charsToUnits,
   evenlySpaceAround,
   linecolToPosition,
   makeDecorationField
@@ -823,7 +824,11 @@ export function renderInterpreter(
   annotations?: InterpAnnotations
 ) {
   let root = ReactDOM.createRoot(container);
-  let marks = annotations?.state_locations || [];
+  // Annotations count characters, but the editor counts UTF-16 code units.
+  let text = view.state.doc.toString();
+  let marks = (annotations?.state_locations || []).map(idx =>
+    charsToUnits(text, idx)
+  );
   let widgetRanges;
   if (marks.length > 0) {
     let [sortedMarks, filteredSteps] = filterSteps(view, trace.steps, marks);
-- 
2.43.0


From cb639f865865475751e6c1d79a098f939c3ba3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 33/39] fix: draw characters outside of the basic plane

String.fromCharCode keeps only the lower 16 bits of a code point.
---
 .../packages/aquascope-editor/src/editor-utils/interpreter.tsx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/aquascope-editor/src/editor-utils/interpreter.tsx b/frontend/packages/aquascope-editor/src/editor-utils/interpreter.tsx
index 3fc4d4c..9ce512d 100644
--- a/frontend/packages/aquascope-editor/src/editor-utils/interpreter.tsx
+++ b/frontend/packages/aquascope-editor/src/editor-utils/interpreter.tsx
@@ -296,7 +296,7 @@ let ValueView = ({ value }: { value: MValue }) => {
       value.type === "Float" ? (
         value.value.toString()
       ) : value.type === "Char" ? (
-        String.fromCharCode(value.value).replace(" ", "\u00A0")
+        String.fromCodePoint(value.value).replace(" ", "\u00A0")
       ) : value.type === "Tuple" ? (
         <>
           <table>
-- 
2.43.0


From a898dda62d9e11a04062371fd2a98927b9b30e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 34/39] fix: show the answer of the server after a refresh

The refresh button of an embedded block did not pass on the configuration
of the block, so that neither steps nor boundaries were shown, and the
server did not get the configuration either.
---
 frontend/packages/aquascope-embed/src/main.tsx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frontend/packages/aquascope-embed/src/main.tsx b/frontend/packages/aquascope-embed/src/main.tsx
index db3abba..9095f09 100644
--- a/frontend/packages/aquascope-embed/src/main.tsx
+++ b/frontend/packages/aquascope-embed/src/main.tsx
@@ -263,7 +263,9 @@ window.initAquascopeBlocks = (root: HTMLElement) => {
     }
 
     computePermBtn?.addEventListener("click", _ => {
-      operations!.forEach(operation => ed.renderOperation(operation!, {}));
+      operations!.forEach(operation =>
+        ed.renderOperation(operation!, { config })
+      );
     });
   });
 };
-- 
2.43.0


From c946097da3e18307efe31ffb15acf0eb6d25553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 35/39] fix: redraw the table of a line when its contents
 change

Two tables were taken for the same when they were on the same line, so
that the editor kept the table of an older answer.
---
 .../packages/aquascope-editor/src/editor-utils/stepper.tsx    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frontend/packages/aquascope-editor/src/editor-utils/stepper.tsx b/frontend/packages/aquascope-editor/src/editor-utils/stepper.tsx
index 18043f9..db6b6b1 100644
--- a/frontend/packages/aquascope-editor/src/editor-utils/stepper.tsx
+++ b/frontend/packages/aquascope-editor/src/editor-utils/stepper.tsx
@@ -398,8 +398,8 @@ class PermissionStepLineWidget extends WidgetType {
   }
 
   eq(other: PermissionStepLineWidget): boolean {
-    // Only one table widget can (should) be on a line.
-    return this.line.number === other.line.number;
+    // A table of another answer has other contents, even on the same line.
+    return this.step === other.step;
   }
 
   toDOM() {
-- 
2.43.0


From 6110c3133820061a4bb77416ed5e3630b4f233d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 36/39] fix: accept an embedded block without code

An empty program is falsy: it was reported as a missing attribute, and the
blocks after it were not initialized.
---
 frontend/packages/aquascope-embed/src/main.tsx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frontend/packages/aquascope-embed/src/main.tsx b/frontend/packages/aquascope-embed/src/main.tsx
index 9095f09..f01e535 100644
--- a/frontend/packages/aquascope-embed/src/main.tsx
+++ b/frontend/packages/aquascope-embed/src/main.tsx
@@ -200,7 +200,8 @@ window.initAquascopeBlocks = (root: HTMLElement) => {
     }
 
     let initialCode = maybeParseJson<string>(elem.dataset.code);
-    if (!initialCode) throw new Error("Missing data-code attribute");
+    if (initialCode === undefined)
+      throw new Error("Missing data-code attribute");
 
     if (window.telemetry && showBugReporter) {
       let extraInfo = document.createElement("div");
-- 
2.43.0


From 510216822b383271abf879892aecafb93cf6cff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 37/39] fix: do not show an older answer when the analysis
 fails

Editor.renderPermissions rendered the decorations once more after the
operation had. When the server could not analyze the code, these were of an
older version of the code, at positions that need not even exist any more.
---
 frontend/packages/aquascope-editor/src/lib.tsx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/frontend/packages/aquascope-editor/src/lib.tsx b/frontend/packages/aquascope-editor/src/lib.tsx
index 94f05f1..520855f 100644
--- a/frontend/packages/aquascope-editor/src/lib.tsx
+++ b/frontend/packages/aquascope-editor/src/lib.tsx
@@ -229,8 +229,6 @@ export class Editor {
       config: cfg
     });
     // }
-
-    renderPermissions(this.view, this.permissionsDecos, cfg);
   }
 
   public destroy() {
-- 
2.43.0


From 26b447d74c804ec0c3b38b62779eff44ac691b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 38/39] fix: run a program that has to pass without
 --should-fail

The playground sends {"shouldFail": false} when the program must pass the
borrow checker, but the server looked only at whether there is such a key.
---
 crates/aquascope_serve/src/container.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope_serve/src/container.rs b/crates/aquascope_serve/src/container.rs
index c372ff9..6c18c44 100644
--- a/crates/aquascope_serve/src/container.rs
+++ b/crates/aquascope_serve/src/container.rs
@@ -215,7 +215,11 @@ impl Container {
       .env("MIRI_SYSROOT", miri_sysroot()?);
 
     if let Some(config) = req.config.as_ref().and_then(|cfg| cfg.as_object()) {
-      if config.contains_key("shouldFail") {
+      // The playground always sends the key, with a boolean.
+      let should_fail = config
+        .get("shouldFail")
+        .is_some_and(|v| !v.is_null() && v.as_bool() != Some(false));
+      if should_fail {
         cmd.arg("--should-fail");
       }
     }
-- 
2.43.0


From c735dfc3b07873b92a70fbadc5b22f9343ee6d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:49 +0000
Subject: [PATCH 39/39] fix: end what a command has started along with the
 command

The server only killed the command itself when a request was abandoned or took
too long. cargo aquascope starts cargo, which starts the compiler: these went
on running.
---
 crates/aquascope_serve/src/container.rs | 45 +++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/crates/aquascope_serve/src/container.rs b/crates/aquascope_serve/src/container.rs
index 6c18c44..d63d898 100644
--- a/crates/aquascope_serve/src/container.rs
+++ b/crates/aquascope_serve/src/container.rs
@@ -1,5 +1,10 @@
 use std::{
-  fs, io, os::unix::fs::PermissionsExt, path::PathBuf, str, time::Duration,
+  fs, io,
+  os::unix::fs::PermissionsExt,
+  path::PathBuf,
+  process::{Output, Stdio},
+  str,
+  time::Duration,
 };
 
 use aquascope_workspace_utils::miri_sysroot;
@@ -41,6 +46,40 @@ const DEFAULT_PROJECT_PATH: &str = "aquascope_tmp_proj";
 
 const COMMAND_TIMEOUT: Duration = Duration::from_secs(20);
 
+const SIGKILL: i32 = 9;
+
+extern "C" {
+  fn kill(pid: i32, sig: i32) -> i32;
+}
+
+/// The process group of a command, which is killed on drop.
+///
+/// `cargo aquascope` starts cargo, which starts the compiler. Killing just the
+/// command would leave these running.
+struct ProcessGroup(i32);
+
+impl Drop for ProcessGroup {
+  fn drop(&mut self) {
+    // SAFETY: this only sends a signal, to the group that we created.
+    unsafe { kill(-self.0, SIGKILL) };
+  }
+}
+
+/// Like [`Command::output`], but nothing that the command
+/// started is running anymore once the future is dropped.
+async fn group_output(cmd: &mut Command) -> io::Result<Output> {
+  let child = cmd
+    .stdout(Stdio::piped())
+    .stderr(Stdio::piped())
+    .process_group(0)
+    .kill_on_drop(true)
+    .spawn()?;
+  let pid = child.id();
+  let output = child.wait_with_output();
+  let _group = pid.map(|pid| ProcessGroup(pid as i32));
+  output.await
+}
+
 pub struct Container {
   project_dir: Option<String>,
   workspace: TempDir,
@@ -84,8 +123,8 @@ impl Container {
     cmd: &mut Command,
   ) -> Result<(String, String)> {
     let timeout = COMMAND_TIMEOUT;
-    let cmd = cmd.current_dir(self.cwd()).kill_on_drop(true);
-    let timed_out = match time::timeout(timeout, cmd.output()).await {
+    let cmd = cmd.current_dir(self.cwd());
+    let timed_out = match time::timeout(timeout, group_output(cmd)).await {
       Ok(Ok(output)) => Ok(output),
       // failure
       Ok(e @ Err(_)) => {
-- 
2.43.0

