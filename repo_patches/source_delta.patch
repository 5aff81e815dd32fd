From 8bb1dd8b27ea5dc5b2b1525a213cc9b329105c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:36 +0000
Subject: [PATCH 01/49] fix: names of values in generated Verilog clashing with
 ports, instances and anonymous expressions

---
 spade-mir/src/renaming.rs  | 81 ++++++++++++++++++++++++++++++++------
 spade-mir/src/unit_name.rs | 16 ++++++--
 2 files changed, 83 insertions(+), 14 deletions(-)

diff --git a/spade-mir/src/renaming.rs b/spade-mir/src/renaming.rs
index a371af2..22cb529 100644
--- a/spade-mir/src/renaming.rs
+++ b/spade-mir/src/renaming.rs
@@ -1,4 +1,4 @@
-use rustc_hash::FxHashMap as HashMap;
+use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};
 use serde::{Deserialize, Serialize};
 use spade_common::{
     id_tracker::ExprID,
@@ -6,7 +6,8 @@ use spade_common::{
     name::NameID,
 };
 
-use crate::{Binding, Entity, MirInput, Register, ValueName};
+use crate::codegen::{mangle_input, mangle_output};
+use crate::{Binding, Entity, MirInput, Operator, Register, ValueName};
 
 /// Mapping from verilog name back to the corresponding NameID
 #[derive(Serialize, Deserialize, Debug, Clone)]
@@ -31,9 +32,7 @@ impl VerilogNameMap {
     /// verilog escape characters (\\<name> ), those are removed
     pub fn insert(&mut self, from: &str, to: VerilogNameSource) {
         self.inner.insert(
-            from.trim_start_matches('\\')
-                .trim_end_matches(' ')
-                .to_string(),
+            unescape(from).to_string(),
             to,
         );
     }
@@ -43,6 +42,11 @@ impl VerilogNameMap {
     }
 }
 
+/// Removes the verilog escape characters (\\<name> ) from a name
+fn unescape(name: &str) -> &str {
+    name.trim_start_matches('\\').trim_end_matches(' ')
+}
+
 #[derive(Serialize, Deserialize, Debug, Clone)]
 pub enum VerilogNameSource {
     ForwardName(NameID),
@@ -55,6 +59,8 @@ pub enum VerilogNameSource {
 pub struct NameState {
     /// Mapping between names and the amount of copies of that name we've seen so far
     names: HashMap<String, u64>,
+    /// All identifiers which are already used in the generated verilog module
+    used: HashSet<String>,
     /// Mapping between ValueName and predictable name
     name_map: HashMap<Loc<ValueName>, Loc<ValueName>>,
 }
@@ -69,20 +75,34 @@ impl NameState {
     pub fn new() -> NameState {
         Self {
             names: HashMap::default(),
+            used: HashSet::default(),
             name_map: HashMap::default(),
         }
     }
 
+    /// Marks `identifier` as being used for something else than a value in the generated
+    /// verilog module, such as a port.
+    fn reserve(&mut self, identifier: impl Into<String>) {
+        self.used.insert(identifier.into());
+    }
+
     pub fn push(&mut self, name: &Loc<ValueName>) {
         let new_name = match &name.inner {
             ValueName::Named(_, name_str, source) => {
-                let id = self
-                    .names
-                    .entry(name_str.clone())
-                    .and_modify(|v| *v += 1)
-                    .or_insert(0);
+                let mut id = self.names.get(name_str).map(|id| id + 1).unwrap_or(0);
+                loop {
+                    let candidate = ValueName::Named(id, name_str.clone(), source.clone());
+                    let fwd = candidate.unescaped_var_name();
+                    let back = unescape(&candidate.backward_var_name()).to_string();
 
-                ValueName::Named(*id, name_str.clone(), source.clone())
+                    if !self.used.contains(&fwd) && !self.used.contains(&back) {
+                        self.used.insert(fwd);
+                        self.used.insert(back);
+                        self.names.insert(name_str.clone(), id);
+                        break candidate;
+                    }
+                    id += 1;
+                }
             }
             v @ ValueName::Expr(_) => v.clone(),
         }
@@ -114,6 +134,45 @@ pub fn make_names_predictable(e: &mut Entity) -> NameState {
             inline: _,
         } = e;
 
+        state.reserve("output__");
+        state.reserve("input__");
+        for input in inputs.iter() {
+            // no_mangle ports share their name with the value, so they must not be reserved
+            if input.no_mangle.is_none() {
+                state.reserve(mangle_input(&input.no_mangle, &input.name));
+                state.reserve(mangle_output(&input.no_mangle, &input.name));
+            }
+        }
+
+        // Instances and anonymous expressions live in the same namespace as named values
+        let mut instance_counts = HashMap::default();
+        for stmt in statements.iter() {
+            let name = match &stmt.inner {
+                crate::Statement::Binding(Binding { name, operator, .. }) => {
+                    if let Operator::Instance {
+                        name: unit_name, ..
+                    } = operator
+                    {
+                        let count = instance_counts
+                            .entry(unit_name.instance_base_name().to_string())
+                            .or_insert(0);
+                        state.reserve(format!("{}_{count}", unit_name.instance_base_name()));
+                        *count += 1;
+                    }
+                    name
+                }
+                crate::Statement::Register(Register { name, .. }) => name,
+                crate::Statement::Constant(name, _, _) => name,
+                crate::Statement::Assert(_)
+                | crate::Statement::Set { .. }
+                | crate::Statement::Error => continue,
+            };
+            if let ValueName::Expr(_) = &name.inner {
+                state.reserve(name.unescaped_var_name());
+                state.reserve(name.backward_var_name());
+            }
+        }
+
         for input in inputs {
             state.push(&input.clone().val_name);
         }
diff --git a/spade-mir/src/unit_name.rs b/spade-mir/src/unit_name.rs
index a48f1f0..ea9325e 100644
--- a/spade-mir/src/unit_name.rs
+++ b/spade-mir/src/unit_name.rs
@@ -151,11 +151,21 @@ impl UnitName {
         instance_map: &mut InstanceMap,
         names: &mut InstanceNameTracker,
     ) -> String {
-        let name = match &self.kind {
+        names.use_name(
+            self.source.clone(),
+            self.instance_base_name(),
+            inside,
+            instance_map,
+        )
+    }
+
+    /// The human readable part of the names of instances of this unit. A `_<number>` is added to
+    /// it by [InstanceNameTracker] to make it unique
+    pub fn instance_base_name(&self) -> &str {
+        match &self.kind {
             UnitNameKind::Escaped { name, path } => path.last().unwrap_or(name),
             UnitNameKind::Unescaped(name) => name,
-        };
-        names.use_name(self.source.clone(), name, inside, instance_map)
+        }
     }
 
     /// The \ and ' ' are not part of the actual identifier when escaping. So when we check
-- 
2.43.0


From e93486e6c2bfe7b8290ccb58653b7678a2840100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 02/49] fix: exhaustiveness check treating the largest value of
 an integer as covered by its predecessor

---
 spade-hir-lowering/src/pattern.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index 4927d02..829164c 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -31,8 +31,9 @@ fn split_int_range(
 ) -> Vec<Constructor> {
     let mut edges = other_ctors
         .flat_map(|other| {
+            // Ranges are inclusive, so the next range starts one past the end
             let (min, max) = other.as_range();
-            [min, max]
+            [min, max + 1u32.to_bigint()]
         })
         .collect::<Vec<_>>();
     edges.sort();
@@ -41,7 +42,7 @@ fn split_int_range(
     let mut result = vec![];
     let mut current_low = min.clone();
 
-    for edge in edges.into_iter().filter(|e| e > &min && e < &max) {
+    for edge in edges.into_iter().filter(|e| e > &min && e <= &max) {
         result.push(Constructor::IntRange {
             min: current_low,
             max: &edge - 1u32.to_bigint(),
@@ -191,6 +192,7 @@ pub enum Constructor {
     Bool(bool),
     /// Enum variant constructor
     Variant(usize),
+    /// All integers between `min` and `max`, both inclusive
     IntRange {
         min: BigInt,
         max: BigInt,
@@ -327,7 +329,7 @@ impl DeconstructedPattern {
             spade_hir::PatternKind::Integer(val) => (
                 Constructor::IntRange {
                     min: val.clone(),
-                    max: (val + 1),
+                    max: val.clone(),
                 },
                 vec![],
             ),
-- 
2.43.0


From e3e05d001e88c63272f4fc92a9c39dea34544b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:34 +0000
Subject: [PATCH 03/49] fix: selects of single-bit values and of single-bit
 members of single-variant enums

---
 spade-mir/src/codegen/mod.rs | 37 ++++++++++++++++++++++--------------
 spade-mir/src/type_list.rs   |  5 +++++
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index b057787..632143d 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -347,11 +347,19 @@ fn forward_expression_code(
             }.to_string()
         }
         Operator::Truncate => {
-            format!(
-                "{}[{}:0]",
-                op_names[0],
-                binding.ty.size() - 1u32.to_biguint()
-            )
+            let is_single_bit = types
+                .get(&ops[0])
+                .is_some_and(|ty| ty.size() == 1u32.to_biguint());
+            if is_single_bit {
+                // Single bits are scalars, which can't be indexed
+                op_names[0].clone()
+            } else {
+                format!(
+                    "{}[{}:0]",
+                    op_names[0],
+                    binding.ty.size() - 1u32.to_biguint()
+                )
+            }
         }
         Operator::Concat => {
             format!(
@@ -367,18 +375,18 @@ fn forward_expression_code(
             let self_size = self_type.size();
             if self_size > operand_size {
                 let extra_bits = self_size - &operand_size;
+                let sign_bit = if operand_size == 1u32.to_biguint() {
+                    // Single bits are scalars, which can't be indexed
+                    op_names[0].clone()
+                } else {
+                    format!("{}[{}]", op_names[0], operand_size - 1u32.to_biguint())
+                };
                 match extra_bits.to_u32() {
                     Some(0) => unreachable!(),
-                    Some(1) => format!(
-                        "{{{}[{}], {}}}",
-                        op_names[0],
-                        operand_size - 1u32.to_biguint(),
-                        op_names[0]
-                    ),
+                    Some(1) => format!("{{{sign_bit}, {}}}", op_names[0]),
                     _ => format!(
-                        "#[#[ {extra_bits} #[ {op}[{last_index}] #]#], {op}#]",
+                        "#[#[ {extra_bits} #[ {sign_bit} #]#], {op}#]",
                         op = op_names[0],
-                        last_index = operand_size - 1u32.to_biguint(),
                     )
                     // For readability with the huge amount of braces that both
                     // rust and verilog want here, we'll insert them at the end
@@ -706,7 +714,8 @@ fn forward_expression_code(
 
             let upper_idx = &full_size - &member_start - 1u32.to_biguint();
             let lower_idx = full_size - &member_end;
-            if upper_idx == lower_idx && tag_size == 0 {
+            if enum_type.size() == 1u32.to_biguint() {
+                // Single bits are scalars, which can't be indexed
                 op_names[0].clone()
             } else {
                 format!("{}[{}:{}]", op_names[0], upper_idx, lower_idx)
diff --git a/spade-mir/src/type_list.rs b/spade-mir/src/type_list.rs
index 8aa7c15..3fadc45 100644
--- a/spade-mir/src/type_list.rs
+++ b/spade-mir/src/type_list.rs
@@ -53,6 +53,11 @@ impl MirTypeList {
         }
     }
 
+    /// The type of `v`, if it is known
+    pub fn get(&self, v: &ValueName) -> Option<&Type> {
+        self.inner.get(v)
+    }
+
     /// Allows in place construction of a type list
     #[cfg(test)]
     pub fn with(mut self, v: ValueName, t: Type) -> Self {
-- 
2.43.0


From 80dfd47be1ad9f197ac048880d8183d15b15bae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:22 +0000
Subject: [PATCH 04/49] fix: stall conditions of pipeline stages reading values
 of the first stage instead of their own

---
 spade-hir-lowering/src/pipelines.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spade-hir-lowering/src/pipelines.rs b/spade-hir-lowering/src/pipelines.rs
index b4a46bc..7147670 100644
--- a/spade-hir-lowering/src/pipelines.rs
+++ b/spade-hir-lowering/src/pipelines.rs
@@ -116,8 +116,13 @@ pub fn handle_statement(
         Statement::PipelineRegMarker(extra) => {
             let local_cond = match extra {
                 Some(spade_hir::PipelineRegMarkerExtra::Condition(cond)) => {
+                    // The condition is evaluated in the stage which ends here, not in the
+                    // one the lowering of the pipeline body, which has yet to start, is in
+                    let outer_stage = std::mem::replace(&mut ctx.subs.current_stage, *current_stage);
                     statements.append(cond.lower(ctx)?);
-                    Some(cond.variable(ctx)?)
+                    let local_cond = cond.variable(ctx)?;
+                    ctx.subs.current_stage = outer_stage;
+                    Some(local_cond)
                 }
                 Some(spade_hir::PipelineRegMarkerExtra::Count {
                     count,
-- 
2.43.0


From c593e422e4c2f212f4e19c0bb7cb81867d5b8708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:49 +0000
Subject: [PATCH 05/49] fix: internal error when the condition of a pipeline
 stage uses stage.valid or stage.ready

---
 spade-hir-lowering/src/pipelines.rs | 53 ++++++++++++++++-------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/spade-hir-lowering/src/pipelines.rs b/spade-hir-lowering/src/pipelines.rs
index 7147670..7003f16 100644
--- a/spade-hir-lowering/src/pipelines.rs
+++ b/spade-hir-lowering/src/pipelines.rs
@@ -281,6 +281,29 @@ pub fn lower_pipeline<'a>(
     // We generated these in reverse order, so we need to reverse them back
     stage_enable_names.reverse();
 
+    let mut ready_signals = stage_enable_names.clone();
+    // NOTE: The last stage needs a ready signal because you *can* use `stage.ready`
+    // after the last `reg` in the final output expression, but it will be `None` because
+    // there is no way to for it to be disabled
+    ready_signals.push(None);
+
+    // The first stage, before any `reg` statement is always valid. The other ones are too, unless
+    // something in the pipeline can stall
+    let mut valid_signals = vec![None];
+    for i in 0..num_stages {
+        valid_signals.push(has_enable.then(|| {
+            ctx.symtab
+                .new_name(Path::from_strs(&[&format!("#s{}_valid", i + 1)]))
+                .value_name()
+        }))
+    }
+
+    // The conditions on the stages can also use the ready and valid signals
+    *ctx.pipeline_context = MaybePipelineContext::Pipeline(PipelineContext {
+        ready_signals: ready_signals.clone(),
+        valid_signals: valid_signals.clone(),
+    });
+
     let mut current_stage = 0;
     let mut local_conds = vec![];
     for statement in body_statements {
@@ -356,12 +379,6 @@ pub fn lower_pipeline<'a>(
         }
     }
 
-    let mut ready_signals = stage_enable_names.into_iter().collect::<Vec<_>>();
-    // NOTE: The last stage needs a ready signal because you *can* use `stage.ready`
-    // after the last `reg` in the final output expression, but it will be `None` because
-    // there is no way to for it to be disabled
-    ready_signals.push(None);
-
     /*
     The full logic for a a stage's validity looks like this
 
@@ -402,18 +419,15 @@ pub fn lower_pipeline<'a>(
     */
 
     // Codegen valid signals
-    // The first stage, before any `reg` statement is valid, so we can initialize the vector
-    // with `None`
-    let mut valid_signals = vec![None];
     let mut prev_valid: Option<ValueName> = None;
     for (i, local_cond) in local_conds.into_iter().enumerate() {
         let downstream_enable = ready_signals.get(i + 1).cloned().flatten().or_const_true();
         let valid_select = &ready_signals[i];
 
-        let valid_name = ctx
-            .symtab
-            .new_name(Path::from_strs(&[&format!("#s{}_valid", i + 1)]))
-            .value_name();
+        // Without a valid signal, the stage is always valid
+        let Some(valid_name) = valid_signals[i + 1].clone() else {
+            continue;
+        };
 
         let valid_mux = constexpr_select(
             &().near_loc(&body),
@@ -460,21 +474,14 @@ pub fn lower_pipeline<'a>(
                     })
                     .near_loc(&body),
                 );
-                prev_valid = Some(valid_name.clone());
-                valid_signals.push(Some(valid_name))
+                prev_valid = Some(valid_name);
             }
-            MaybeConst::Const(true) => valid_signals.push(None),
-            MaybeConst::Const(false) => {
-                diag_bail!(body, "Found a stage which is always invalid")
+            MaybeConst::Const(_) => {
+                diag_bail!(body, "Found a stage with a stall but constant validity")
             }
         }
     }
 
-    *ctx.pipeline_context = MaybePipelineContext::Pipeline(PipelineContext {
-        ready_signals,
-        valid_signals,
-    });
-
     let result_latency = body.available_in(ctx)?.unwrap_or(0);
     if result_latency != 0 {
         let ExprKind::Block(block) = &body.kind else {
-- 
2.43.0


From 4ecd7c380997b7b95c67c376f10568d27a960b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:29 +0000
Subject: [PATCH 06/49] fix: internal error when reporting an uncovered integer
 next to a guarded wildcard

---
 spade-hir-lowering/src/pattern.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index 829164c..cdc5c50 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -215,7 +215,12 @@ impl Constructor {
     ) -> Vec<Self> {
         match self {
             Self::Wildcard => split_wildcard(ty, other_ctors),
-            Self::IntRange { min, max } => split_int_range(min.clone(), max.clone(), other_ctors),
+            Self::IntRange { min, max } => split_int_range(
+                min.clone(),
+                max.clone(),
+                // A wildcard covers the whole range, so it does not add any edges
+                other_ctors.filter(|ctor| !matches!(ctor, Constructor::Wildcard)),
+            ),
             _ => vec![self.clone()],
         }
     }
-- 
2.43.0


From d68bba0e96f265c3aaab7bfd306f00351518b333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:29 +0000
Subject: [PATCH 07/49] fix: reject enum variant patterns in let and reg when
 other variants exist

---
 spade-hir-lowering/src/lib.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/spade-hir-lowering/src/lib.rs b/spade-hir-lowering/src/lib.rs
index 647896d..bc031ac 100644
--- a/spade-hir-lowering/src/lib.rs
+++ b/spade-hir-lowering/src/lib.rs
@@ -877,19 +877,25 @@ impl PatternLocal for Loc<Pattern> {
         }
     }
 
-    fn is_trivially_irrefutable(&self) -> bool {
+    fn is_trivially_irrefutable(&self, ctx: &Context) -> bool {
         match &self.kind {
             spade_hir::PatternKind::Integer(_) => false,
             spade_hir::PatternKind::Bool(_) => false,
             spade_hir::PatternKind::Bound { inner, .. } => inner
                 .as_ref()
-                .map(|pat| pat.is_trivially_irrefutable())
+                .map(|pat| pat.is_trivially_irrefutable(ctx))
                 .unwrap_or(true),
             spade_hir::PatternKind::Tuple(inner) | spade_hir::PatternKind::Array(inner) => {
-                inner.iter().all(Self::is_trivially_irrefutable)
-            }
-            spade_hir::PatternKind::Type(_, inner) => {
-                inner.iter().all(|arg| arg.value.is_trivially_irrefutable())
+                inner.iter().all(|pat| pat.is_trivially_irrefutable(ctx))
+            }
+            spade_hir::PatternKind::Type(path, inner) => {
+                // An enum variant only covers part of its enum
+                matches!(
+                    ctx.symtab.symtab().patternable_type_by_id(path).kind,
+                    spade_hir::symbol_table::PatternableKind::Struct
+                ) && inner
+                    .iter()
+                    .all(|arg| arg.value.is_trivially_irrefutable(ctx))
             }
         }
     }
@@ -917,7 +923,7 @@ impl PatternLocal for Loc<Pattern> {
     }
 
     fn check_irrefutable(&self, binding_kind: &str, ctx: &Context) -> Result<()> {
-        if self.is_trivially_irrefutable() {
+        if self.is_trivially_irrefutable(ctx) {
             return Ok(());
         }
 
-- 
2.43.0


From a51b216cc27f425385cb4eda1f02c956de49d2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 08/49] fix: do not visit the same trait bound twice when
 creating generic lists

A where clause with a generic trait on an impl block reaches the generic list
both as a where clause and as an inline bound. Each visit creates new type
variables for the parameters of the trait, so the bound ended up duplicated
and every method call through it was rejected as ambiguous.
---
 spade-typeinference/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index 2bedefe..928bb79 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -1926,6 +1926,10 @@ impl TypeState {
 
         let token = self.add_mapped_generic_list(source.clone(), new_list.clone());
 
+        // The same bound can reach us both as a where clause and as an inline bound. Visiting it
+        // twice would create two copies of generic traits which look ambiguous in method lookups
+        let mut visited_bounds: HashMap<Generic, HashSet<Loc<TraitSpec>>> = HashMap::default();
+
         for constraint in where_clauses.iter().chain(inline_trait_bounds.iter()) {
             match &constraint.inner {
                 WhereClause::Type { target, traits } => {
@@ -1944,6 +1948,9 @@ impl TypeState {
 
                     all_transitive_traits.extend(traits.iter().cloned());
 
+                    let visited = visited_bounds.entry(target.clone()).or_default();
+                    all_transitive_traits.retain(|spec| visited.insert(spec.clone()));
+
                     self.visit_trait_bounds(
                         target,
                         Vec::from_iter(all_transitive_traits).as_slice(),
-- 
2.43.0


From 846b893ad40776c0658a36e1e4c0c9f0501c1c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 09/49] fix: keep outer type parameters of lambdas defined
 inside other lambdas

When a lambda is defined in another lambda in a generic unit, the body of the
outer lambda is type checked again after the inner lambda has been replaced by
its struct. The parameters of the surrounding unit could not be inferred then,
so the program was rejected.
---
 .../src/passes/lower_lambda_defs.rs           | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/spade-hir-lowering/src/passes/lower_lambda_defs.rs b/spade-hir-lowering/src/passes/lower_lambda_defs.rs
index 29bf78b..70b9706 100644
--- a/spade-hir-lowering/src/passes/lower_lambda_defs.rs
+++ b/spade-hir-lowering/src/passes/lower_lambda_defs.rs
@@ -9,7 +9,7 @@ use spade_common::{
 use spade_diagnostics::{Diagnostic, diag_anyhow};
 use spade_hir::{
     ArgumentList, ExprKind, Expression, Generic, Input, Parameter, ParameterList, Pattern,
-    PatternKind, Statement, TypeParam, TypeSpec, Unit, UnitHead,
+    PatternKind, Statement, TypeExpression, TypeParam, TypeSpec, Unit, UnitHead,
     expression::{CallKind, Safety},
     pretty_print::PrettyPrint,
 };
@@ -321,6 +321,25 @@ impl<'a> Pass for LowerLambdaDefs<'a> {
                 },
             );
 
+            // The generic parameters of the surrounding unit are not part of the captures, so they
+            // cannot be inferred if this ends up inside another lambda whose body is type checked
+            // again. Therefore, specify those explicitly.
+            let turbofish = if outer_generic_params.is_empty() {
+                None
+            } else {
+                let inferred = type_params.all().count() - outer_generic_params.len();
+                let params = (0..inferred)
+                    .map(|_| TypeSpec::Wildcard(expression.loc()))
+                    .chain(
+                        outer_generic_params
+                            .iter()
+                            .map(|p| TypeSpec::Generic(Generic::Named(p.name_in_body.clone()))),
+                    )
+                    .map(|spec| TypeExpression::TypeSpec(spec).at_loc(expression))
+                    .collect();
+                Some(ArgumentList::Positional(params).at_loc(expression))
+            };
+
             *expression = ExprKind::Call {
                 kind: CallKind::Function,
                 callee: lambda_type.clone().at_loc(expression),
@@ -342,7 +361,7 @@ impl<'a> Pass for LowerLambdaDefs<'a> {
                         .collect(),
                 )
                 .at_loc(expression),
-                turbofish: None,
+                turbofish,
                 safety: Safety::Default,
                 verilog_attr_groups: vec![],
             }
-- 
2.43.0


From c7605ab0b799707d340ddf453aa01b7ee3471407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 10/49] fix: a member of a copy view is a copy view, not a
 linear resource of its own

---
 spade-hir-lowering/src/linear_check/linear_state.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spade-hir-lowering/src/linear_check/linear_state.rs b/spade-hir-lowering/src/linear_check/linear_state.rs
index 379bac6..94e8d0c 100644
--- a/spade-hir-lowering/src/linear_check/linear_state.rs
+++ b/spade-hir-lowering/src/linear_check/linear_state.rs
@@ -545,12 +545,19 @@ impl LinearState {
         );
 
         let mut base_tree = base_tree_rc;
+        let mut is_view = false;
 
         while let LinearTreeKind::CopyView(inner) = &base_tree.clone().borrow().kind {
             base_tree = inner.clone();
+            is_view = true;
         }
 
-        let subtree = idx(&base_tree.borrow());
+        let mut subtree = idx(&base_tree.borrow());
+
+        // A member of a view is a view of that member, and is not linear
+        if is_view {
+            subtree = Rc::new(RefCell::new(LinearTree::copy_view(subtree)));
+        }
 
         let new_alias = ItemReference::Anonymous(to.inner).at_loc(&to);
         subtree.borrow_mut().add_alias(new_alias.clone());
-- 
2.43.0


From 464b8c3c51edd4bc9610e870600d14cb8ba6f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 11/49] fix: deduplicate inverted wires that go through equal
 constants, such as p[0].a and p[0].b

---
 spade-mir/src/passes/deduplicate_mut_wires.rs | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/spade-mir/src/passes/deduplicate_mut_wires.rs b/spade-mir/src/passes/deduplicate_mut_wires.rs
index 5cdab6b..d62e6d4 100644
--- a/spade-mir/src/passes/deduplicate_mut_wires.rs
+++ b/spade-mir/src/passes/deduplicate_mut_wires.rs
@@ -108,11 +108,22 @@ fn op_needs_deduplication(op: &Operator) -> bool {
 
 fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>> {
     let mut seen_statements: HashMap<
-        (&Operator, &Vec<Loc<ValueName>>, &crate::types::Type),
+        (&Operator, Vec<&ValueName>, &crate::types::Type),
         ValueName,
     > = HashMap::default();
     let mut replaced_names = HashMap::default();
 
+    // Every literal is its own constant. Statements that only differ in which of several
+    // equal constants they use, for example indexing of the same array element, are duplicates
+    let mut constant_values = HashMap::default();
+    let mut canonical_constants: HashMap<&ValueName, &ValueName> = HashMap::default();
+    for stmt in stmts {
+        if let Statement::Constant(name, ty, value) = &stmt.inner {
+            let first = *constant_values.entry((ty, value)).or_insert(&name.inner);
+            canonical_constants.insert(&name.inner, first);
+        }
+    }
+
     for stmt in stmts {
         match &stmt.inner {
             Statement::Binding(Binding {
@@ -122,9 +133,15 @@ fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>>
                 ty,
                 loc: _,
             }) => {
+                let operands = operands
+                    .iter()
+                    .map(|op| *canonical_constants.get(&op.inner).unwrap_or(&&op.inner))
+                    .collect::<Vec<_>>();
+
                 // We're only interested in mut wires
                 if ty.backward_size() != BigUint::ZERO && op_needs_deduplication(operator) {
-                    if let Some(prev_name) = seen_statements.get(&(operator, operands, ty)) {
+                    if let Some(prev_name) = seen_statements.get(&(operator, operands.clone(), ty))
+                    {
                         replaced_names.insert(
                             name.clone(),
                             recursive_lookup(&replaced_names, prev_name.clone().at_loc(stmt))
-- 
2.43.0


From bed3d9a0d3e3aaa85e8231a05dbc1d104cec8d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:19 +0000
Subject: [PATCH 12/49] fix: report inst(n) of an entity or function instead of
 panicking when its latency is looked up

---
 spade-typeinference/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index 928bb79..e45d032 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -1454,6 +1454,19 @@ impl TypeState {
                         self,
                     )?;
             }
+            (
+                _,
+                CallKind::Pipeline {
+                    inst_loc: _,
+                    depth: cdepth,
+                    depth_typeexpr_id: cdepth_typeexpr_id,
+                },
+            ) => {
+                // NOTE: Instantiating something else than a pipeline with a depth is reported
+                // later, but what runs before that looks up the depth
+                let call_depth = self.hir_type_expr_to_var(cdepth, generic_list, ctx)?;
+                self.add_equation(TypedExpression::Id(*cdepth_typeexpr_id), call_depth);
+            }
             _ => {}
         }
 
-- 
2.43.0


From 90796c4a2e0ed5e1495a6969307e330beee6882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:54 +0000
Subject: [PATCH 13/49] fix: count the condition of an if and the scrutinee of
 a match when checking that delays agree

---
 spade-hir-lowering/src/pipelines.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spade-hir-lowering/src/pipelines.rs b/spade-hir-lowering/src/pipelines.rs
index 7003f16..3d2c40c 100644
--- a/spade-hir-lowering/src/pipelines.rs
+++ b/spade-hir-lowering/src/pipelines.rs
@@ -713,11 +713,12 @@ impl PipelineAvailability for Expression {
                 try_compute_availability(&[lhs.as_ref(), rhs.as_ref()], ctx)
             }
             ExprKind::UnaryOperator(_, val) => val.inner.available_in(ctx),
-            ExprKind::Match(_, values) => try_compute_availability(
+            ExprKind::Match(cond, values) => try_compute_availability(
                 &values
                     .iter()
                     .flat_map(|(_, if_cond, expr)| [if_cond.as_ref(), Some(expr)])
                     .flatten()
+                    .chain(std::iter::once(cond.as_ref()))
                     .collect::<Vec<_>>(),
                 ctx,
             ),
@@ -776,10 +777,13 @@ impl PipelineAvailability for Expression {
                 }
             }
             ExprKind::If {
-                cond: _,
+                cond,
                 on_true,
                 on_false,
-            } => try_compute_availability(&[on_true.as_ref(), on_false.as_ref()], ctx),
+            } => try_compute_availability(
+                &[on_true.as_ref(), on_false.as_ref(), cond.as_ref()],
+                ctx,
+            ),
             ExprKind::PipelineRef { .. } => Ok(Some(0)),
             ExprKind::Incomplete(_, _) => Ok(None),
             ExprKind::TypeLevelIf { cond, .. } => diag_bail!(
-- 
2.43.0


From 97986416e446dd463ae00a3e9b1d54959d55b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 14/49] fix: report a pipeline label that is used twice, or as
 a value, instead of panicking or giving an internal error

---
 spade-ast-lowering/src/pipelines.rs   | 20 +++++++++++++++++---
 spade-typeinference/src/expression.rs |  6 +++++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/spade-ast-lowering/src/pipelines.rs b/spade-ast-lowering/src/pipelines.rs
index 928d73e..7e4cbbd 100644
--- a/spade-ast-lowering/src/pipelines.rs
+++ b/spade-ast-lowering/src/pipelines.rs
@@ -1,8 +1,10 @@
+use rustc_hash::FxHashMap as HashMap;
+
 use hir::symbol_table::TypeSymbol;
 use spade_ast as ast;
 use spade_common::location_info::Loc;
 use spade_common::location_info::WithLocation;
-use spade_common::name::Path;
+use spade_common::name::{Identifier, Path};
 use spade_diagnostics::Diagnostic;
 use spade_hir as hir;
 use spade_types::meta_types::MetaType;
@@ -15,9 +17,20 @@ pub struct PipelineContext {
     pub scope: usize,
 }
 
-fn visit_pipeline_statement(statement: &ast::Statement, ctx: &mut Context) -> Result<()> {
+fn visit_pipeline_statement(
+    statement: &ast::Statement,
+    labels: &mut HashMap<Identifier, Loc<()>>,
+    ctx: &mut Context,
+) -> Result<()> {
     match &statement {
         ast::Statement::Label(name) => {
+            if let Some(prev) = labels.insert(name.inner, name.loc()) {
+                return Err(
+                    Diagnostic::error(name, "Multiple stages with the same label")
+                        .primary_label(format!("'{name} is used multiple times"))
+                        .secondary_label(prev, "Previous use here"),
+                );
+            }
             ctx.symtab.add_unique_type(
                 Path::ident_with_loc(*name),
                 TypeSymbol::GenericMeta(MetaType::Int).at_loc(name),
@@ -70,8 +83,9 @@ pub fn maybe_perform_pipelining_tasks(
                 .note("All pipelines need to take at least a clock as an argument"));
             }
 
+            let mut labels = HashMap::default();
             for statement in &body.as_ref().unwrap().assume_block().statements {
-                visit_pipeline_statement(statement, ctx)?;
+                visit_pipeline_statement(statement, &mut labels, ctx)?;
             }
 
             Ok(Some(context))
diff --git a/spade-typeinference/src/expression.rs b/spade-typeinference/src/expression.rs
index 645e097..516edfc 100644
--- a/spade-typeinference/src/expression.rs
+++ b/spade-typeinference/src/expression.rs
@@ -89,7 +89,11 @@ impl TypeState {
             let generic = generic_list
                 .get(&Generic::Named(value.clone().nowhere()))
                 .ok_or_else(|| {
-                    diag_anyhow!(expression, "Found no entry for {value:?} in generic list. It has {generic_list:?}")
+                    // Besides type parameters, which are always in the generic list, only
+                    // pipeline labels are type level integers
+                    Diagnostic::error(expression, format!("The pipeline label {value} can not be used as a value"))
+                        .primary_label("Expected a value")
+                        .help(format!("Use `stage({value}).<name>` to access a value in the stage"))
                 })?;
             Requirement::FitsIntLiteral {
                 value: ConstantInt::Generic(generic.clone()),
-- 
2.43.0


From 52eb9f7fae746ae767c4b1d53b81fb9538357566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 15/49] fix: check registers, inst and stage references in a
 lambda against the kind of the lambda, and stage.valid and stage.ready
 against the unit

---
 spade-parser/src/expression.rs | 45 ++++++++++++++++++++++------------
 spade-parser/src/lib.rs        |  2 ++
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/spade-parser/src/expression.rs b/spade-parser/src/expression.rs
index 91e5817..910cb71 100644
--- a/spade-parser/src/expression.rs
+++ b/spade-parser/src/expression.rs
@@ -2,7 +2,7 @@ use num::ToPrimitive;
 use spade_ast::token::TokenKind;
 use spade_ast::{
     ArgumentList, BinaryOperator, Block, CallKind, Expression, IncompleteExpression, IntLiteral,
-    UnaryOperator,
+    UnaryOperator, UnitKind,
 };
 use spade_common::location_info::{Loc, WithLocation};
 use spade_diagnostics::Diagnostic;
@@ -374,11 +374,35 @@ impl<'a> Parser<'a> {
 
         let args = args.at_loc(&args_loc);
 
-        let body = if self.peek_kind(&TokenKind::OpenBrace)? {
+        // What is allowed in the body depends on the kind of the lambda, not on the
+        // unit it is written in
+        let outer_context = self.unit_context.replace(unit_kind.clone());
+        let body = self.lambda_body(&unit_kind, args_loc);
+        self.unit_context = outer_context;
+        let body = body?;
+
+        let loc = ().between(self.file_id(), &start_token, &body);
+
+        Ok(Some(
+            Expression::Lambda {
+                unit_kind,
+                args,
+                body: Box::new(body),
+            }
+            .at_loc(&loc),
+        ))
+    }
+
+    fn lambda_body(
+        &mut self,
+        unit_kind: &Loc<UnitKind>,
+        args_loc: Loc<()>,
+    ) -> Result<Loc<Block>> {
+        if self.peek_kind(&TokenKind::OpenBrace)? {
             // It is safe to unwrap the value, as it can only be `None` if
             // there is no opening brace but it is guaranteed by the `if`
             // condition.
-            self.block(unit_kind.is_pipeline())?.unwrap()
+            Ok(self.block(unit_kind.is_pipeline())?.unwrap())
         } else {
             let expr = self.expression().map_err(|diag| {
                 diag.primary_label("expected lambda body here")
@@ -396,19 +420,8 @@ impl<'a> Parser<'a> {
                 result: Some(expr),
             };
 
-            block.at_loc(&loc)
-        };
-
-        let loc = ().between(self.file_id(), &start_token, &body);
-
-        Ok(Some(
-            Expression::Lambda {
-                unit_kind,
-                args,
-                body: Box::new(body),
-            }
-            .at_loc(&loc),
-        ))
+            Ok(block.at_loc(&loc))
+        }
     }
 
     #[trace_parser]
diff --git a/spade-parser/src/lib.rs b/spade-parser/src/lib.rs
index 5251a0f..5e5b469 100644
--- a/spade-parser/src/lib.rs
+++ b/spade-parser/src/lib.rs
@@ -1087,6 +1087,8 @@ impl<'a> Parser<'a> {
     ) -> Result<Option<Loc<Expression>>> {
         peek_for!(self, &TokenKind::Dot);
 
+        self.unit_context.allows_pipeline_ref(stage_keyword.loc())?;
+
         let ident = self.identifier()?;
 
         match ident.inner.as_str() {
-- 
2.43.0


From 8000a3c0bda2feb4ec5242b4b2f72990b81dac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:51 +0000
Subject: [PATCH 16/49] fix: the delay of a name bound in a block or a match
 arm is that of its value

---
 spade-hir-lowering/src/pipelines.rs | 100 ++++++++++++++++++++--------
 1 file changed, 72 insertions(+), 28 deletions(-)

diff --git a/spade-hir-lowering/src/pipelines.rs b/spade-hir-lowering/src/pipelines.rs
index 3d2c40c..036cb7f 100644
--- a/spade-hir-lowering/src/pipelines.rs
+++ b/spade-hir-lowering/src/pipelines.rs
@@ -1,6 +1,7 @@
 use std::collections::BTreeMap;
 
 use num::ToPrimitive;
+use rustc_hash::FxHashMap as HashMap;
 
 use local_impl::local_impl;
 use mir::ValueName;
@@ -482,7 +483,13 @@ pub fn lower_pipeline<'a>(
         }
     }
 
-    let result_latency = body.available_in(ctx)?.unwrap_or(0);
+    let result_latency = if let ExprKind::Block(block) = &body.kind
+        && let Some(result) = &block.result
+    {
+        result.available_in(ctx)?.unwrap_or(0)
+    } else {
+        0
+    };
     if result_latency != 0 {
         let ExprKind::Block(block) = &body.kind else {
             diag_bail!(body, "Unit result was not a block")
@@ -643,15 +650,27 @@ pub fn constexpr_inv(
     }
 }
 
+/// The availability of names that are bound inside an expression. `None` if the name is
+/// always available
+type LocalAvailability = HashMap<NameID, Option<usize>>;
+
+fn add_pattern(pattern: &Pattern, time: Option<usize>, locals: &mut LocalAvailability) {
+    for (name, wire) in pattern.get_names_and_wireness() {
+        let time = if wire.is_none() { time } else { None };
+        locals.insert(name.inner, time);
+    }
+}
+
 /// Computes the time at which the specified expressions will be available. If there
 /// is a mismatch, an error is returned
 pub fn try_compute_availability(
     exprs: &[impl std::borrow::Borrow<Loc<Expression>>],
+    locals: &LocalAvailability,
     ctx: &Context,
 ) -> Result<Option<usize>> {
     let mut result = None;
     for expr in exprs {
-        let a = expr.borrow().available_in(ctx)?;
+        let a = expr.borrow().available_with(locals, ctx)?;
 
         result = match (a, result) {
             (a, None) => a,
@@ -678,8 +697,15 @@ impl PipelineAvailability for Expression {
     // Computes the availability of an expression. Returns `None` if the expression is always
     // available, i.e. it is constant or a port
     fn available_in(&self, ctx: &Context) -> Result<Option<usize>> {
+        self.available_with(&LocalAvailability::default(), ctx)
+    }
+
+    // Like `available_in`, but with the availability of the names that are bound in the
+    // blocks and match branches around the expression
+    fn available_with(&self, locals: &LocalAvailability, ctx: &Context) -> Result<Option<usize>> {
         match &self.kind {
             ExprKind::Error => Ok(None),
+            ExprKind::Identifier(name) if locals.contains_key(name) => Ok(locals[name]),
             ExprKind::Identifier(name) => match ctx.subs.lookup(name) {
                 crate::substitution::Substitution::Undefined => Ok(Some(0)),
                 crate::substitution::Substitution::Waiting { .. } => Ok(Some(0)),
@@ -693,44 +719,60 @@ impl PipelineAvailability for Expression {
             ExprKind::TypeLevelBool(_) => Ok(None),
             ExprKind::TriLiteral(_) => Ok(None),
             ExprKind::StageReady | ExprKind::StageValid => Ok(Some(0)),
-            ExprKind::TupleLiteral(inner) => try_compute_availability(inner, ctx),
-            ExprKind::ArrayLiteral(elems) => try_compute_availability(elems, ctx),
+            ExprKind::TupleLiteral(inner) => try_compute_availability(inner, locals, ctx),
+            ExprKind::ArrayLiteral(elems) => try_compute_availability(elems, locals, ctx),
             ExprKind::ArrayShorthandLiteral(inner, _) => {
-                try_compute_availability(&[inner.as_ref()], ctx)
+                try_compute_availability(&[inner.as_ref()], locals, ctx)
             }
             ExprKind::Index(lhs, idx) => {
-                try_compute_availability(&[lhs.as_ref(), idx.as_ref()], ctx)
+                try_compute_availability(&[lhs.as_ref(), idx.as_ref()], locals, ctx)
             }
             ExprKind::RangeIndex {
                 target,
                 start: _,
                 end: _,
-            } => try_compute_availability(&[target.as_ref()], ctx),
-            ExprKind::TupleIndex(lhs, _) => lhs.inner.available_in(ctx),
-            ExprKind::FieldAccess(lhs, _) => lhs.inner.available_in(ctx),
-            ExprKind::TypeCast(lhs, _) => lhs.inner.available_in(ctx),
+            } => try_compute_availability(&[target.as_ref()], locals, ctx),
+            ExprKind::TupleIndex(lhs, _) => lhs.inner.available_with(locals, ctx),
+            ExprKind::FieldAccess(lhs, _) => lhs.inner.available_with(locals, ctx),
+            ExprKind::TypeCast(lhs, _) => lhs.inner.available_with(locals, ctx),
             ExprKind::BinaryOperator(lhs, _, rhs) => {
-                try_compute_availability(&[lhs.as_ref(), rhs.as_ref()], ctx)
+                try_compute_availability(&[lhs.as_ref(), rhs.as_ref()], locals, ctx)
+            }
+            ExprKind::UnaryOperator(_, val) => val.inner.available_with(locals, ctx),
+            ExprKind::Match(cond, values) => {
+                let mut locals = locals.clone();
+                let time = cond.available_with(&locals, ctx)?;
+                for (pattern, _, _) in values {
+                    add_pattern(pattern, time, &mut locals);
+                }
+                try_compute_availability(
+                    &values
+                        .iter()
+                        .flat_map(|(_, if_cond, expr)| [if_cond.as_ref(), Some(expr)])
+                        .flatten()
+                        .chain(std::iter::once(cond.as_ref()))
+                        .collect::<Vec<_>>(),
+                    &locals,
+                    ctx,
+                )
             }
-            ExprKind::UnaryOperator(_, val) => val.inner.available_in(ctx),
-            ExprKind::Match(cond, values) => try_compute_availability(
-                &values
-                    .iter()
-                    .flat_map(|(_, if_cond, expr)| [if_cond.as_ref(), Some(expr)])
-                    .flatten()
-                    .chain(std::iter::once(cond.as_ref()))
-                    .collect::<Vec<_>>(),
-                ctx,
-            ),
             ExprKind::Block(inner) => {
-                // NOTE: Do we want to allow delayed values inside blocks? That could lead to some
-                // strange issues like
-                // {
-                //      let x = inst(10) subpipe();
-                //      x // Will appear as having availability 1
-                // }
+                let mut locals = locals.clone();
+                for statement in &inner.statements {
+                    match &statement.inner {
+                        Statement::Binding(binding) => {
+                            let time = binding.value.available_with(&locals, ctx)?;
+                            add_pattern(&binding.pattern, time, &mut locals);
+                        }
+                        Statement::Register(reg) => {
+                            let time = reg.value.available_with(&locals, ctx)?.unwrap_or(0);
+                            add_pattern(&reg.pattern, Some(time), &mut locals);
+                        }
+                        _ => {}
+                    }
+                }
                 if let Some(result) = &inner.result {
-                    result.available_in(ctx)
+                    result.available_with(&locals, ctx)
                 } else {
                     Ok(None)
                 }
@@ -743,6 +785,7 @@ impl PipelineAvailability for Expression {
                         .iter()
                         .map(|arg| *arg)
                         .collect::<Vec<_>>(),
+                    locals,
                     ctx,
                 )?;
                 match &kind {
@@ -782,6 +825,7 @@ impl PipelineAvailability for Expression {
                 on_false,
             } => try_compute_availability(
                 &[on_true.as_ref(), on_false.as_ref(), cond.as_ref()],
+                locals,
                 ctx,
             ),
             ExprKind::PipelineRef { .. } => Ok(Some(0)),
-- 
2.43.0


From 444bd8943bc360b97a27b483b2617fb43de1d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 17/49] fix: evaluate every constant accepted as initial value,
 leave out registers of size zero

---
 spade-hir-lowering/src/lib.rs |  8 +++++++-
 spade-mir/src/codegen/mod.rs  |  2 ++
 spade-mir/src/eval.rs         | 32 ++++++++++++++++++++++++++++----
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/spade-hir-lowering/src/lib.rs b/spade-hir-lowering/src/lib.rs
index bc031ac..e67605b 100644
--- a/spade-hir-lowering/src/lib.rs
+++ b/spade-hir-lowering/src/lib.rs
@@ -2624,7 +2624,13 @@ impl ExprLocal for Loc<Expression> {
 
                     Some(vec![value; amount])
                 }
-                _ => diag_bail!(initial_arg.value, "Memory initial value was not array"),
+                _ => {
+                    return Err(Diagnostic::error(
+                        initial_arg.value,
+                        "Memory initial values must be given as an array literal",
+                    )
+                    .primary_label("Expected an array literal"));
+                }
             }
         } else {
             None
diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 632143d..e1bfa8a 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -1125,6 +1125,8 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                 [0] &assignment
             }
         }
+        // Registers of size zero are not declared and have no value to store
+        Statement::Register(reg) if reg.ty.size() == BigUint::ZERO => code! {},
         Statement::Register(reg) => {
             let name = reg.name.var_name();
             let main_body = if let Some((rst_trig, rst_val)) = &reg.reset {
diff --git a/spade-mir/src/eval.rs b/spade-mir/src/eval.rs
index d1a6552..937859d 100644
--- a/spade-mir/src/eval.rs
+++ b/spade-mir/src/eval.rs
@@ -38,9 +38,18 @@ impl Value {
     pub fn assume_uint(&self) -> BigUint {
         match self {
             Value::UInt { val, .. } => val.clone(),
+            // Integer constants are evaluated to `Int`s regardless of their signedness
+            Value::Int { val, .. } if *val >= 0i64.into() => val.to_biguint().unwrap(),
             other => panic!("Assumed value to be uint, was {other:?}"),
         }
     }
+    /// The elements of a tuple, struct or array
+    pub fn assume_concat(&self) -> &[Value] {
+        match self {
+            Value::Concat(inner) => inner,
+            other => panic!("Assumed value to be a concatenation, was {other:?}"),
+        }
+    }
 
     pub fn as_string(&self) -> String {
         match self {
@@ -159,7 +168,7 @@ impl Value {
                 let mut current = 0u32.to_biguint();
 
                 for next in inner {
-                    current = (current << next.width().to_u64().unwrap()) + next.as_u64()
+                    current = (current << next.width().to_u64().unwrap()) + next.as_u32_chunks()
                 }
                 current
             }
@@ -240,7 +249,12 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
                     },
                     Operator::UnsignedSub => Value::UInt {
                         size: ty.size(),
-                        val: name_vals[&ops[0]].assume_uint() - name_vals[&ops[1]].assume_uint(),
+                        // The result wraps around, like it does in hardware
+                        val: {
+                            let modulus = BigUint::from(1u32) << ty.size().to_u64().unwrap();
+                            let rhs = name_vals[&ops[1]].assume_uint() % &modulus;
+                            (name_vals[&ops[0]].assume_uint() + &modulus - rhs) % &modulus
+                        },
                     },
                     Operator::Mul => todo!(),
                     Operator::UnsignedMul => todo!(),
@@ -288,7 +302,15 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
                         Value::Concat(ops.iter().rev().map(|op| name_vals[op].clone()).collect())
                     }
                     Operator::DeclClockedMemory { .. } => todo!(),
-                    Operator::IndexArray => todo!(),
+                    Operator::IndexArray => {
+                        let elements = name_vals[&ops[0]].assume_concat();
+                        // Element 0 is placed in the least significant bits
+                        name_vals[&ops[1]]
+                            .assume_uint()
+                            .to_usize()
+                            .and_then(|idx| elements.iter().rev().nth(idx).cloned())
+                            .unwrap_or_else(|| Value::Undef(ty.size()))
+                    }
                     Operator::IndexMemory => todo!(),
                     Operator::RangeIndexArray { .. } => todo!(),
                     Operator::RangeIndexBits { .. } => todo!(),
@@ -331,7 +353,9 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
                     }
                     Operator::IsEnumVariant { .. } => todo!(),
                     Operator::EnumMember { .. } => todo!(),
-                    Operator::IndexTuple(_) => todo!(),
+                    Operator::IndexTuple(idx) => {
+                        name_vals[&ops[0]].assume_concat()[*idx as usize].clone()
+                    }
                     Operator::ReadPort => todo!(),
                     Operator::ReadWriteItemsInOut(_) => todo!(),
                     Operator::FlipPort => todo!(),
-- 
2.43.0


From 32278e989ef5170a999a0cce2c348d206c235644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:58 +0000
Subject: [PATCH 18/49] fix: initial values of integers of size zero and of
 negated smallest values

---
 spade-mir/src/eval.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spade-mir/src/eval.rs b/spade-mir/src/eval.rs
index 937859d..be0abb2 100644
--- a/spade-mir/src/eval.rs
+++ b/spade-mir/src/eval.rs
@@ -53,6 +53,7 @@ impl Value {
 
     pub fn as_string(&self) -> String {
         match self {
+            Value::Int { size, .. } | Value::UInt { size, .. } if size.is_zero() => String::new(),
             Value::Bit(val) => format!("{}", if *val { 1 } else { 0 }),
             Value::Int { size, val } => {
                 if *val >= 0i64.into() {
@@ -284,7 +285,12 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
                     Operator::BitwiseXor => todo!(),
                     Operator::USub => Value::Int {
                         size: ty.size(),
-                        val: -name_vals[&ops[0]].assume_int(),
+                        // The negation of the smallest value wraps around, like it does in hardware
+                        val: {
+                            let operand = name_vals[&ops[0]].assume_int();
+                            let max = BigInt::from(1) << ty.size().to_usize().unwrap() >> 1usize;
+                            if operand == -&max { operand } else { -operand }
+                        },
                     },
                     Operator::Not => todo!(),
                     Operator::BitwiseNot => todo!(),
-- 
2.43.0


From 59b8c114879ea11920cca1839a52291ccc69cf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 19/49] fix: escape the source text in assertion messages

---
 spade-mir/src/codegen/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index e1bfa8a..0c95bd5 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -1187,6 +1187,12 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                 .unwrap_or_else(|_| String::new())
                 .lines()
                 .map(|line| {
+                    // The message quotes the source code, which can contain characters
+                    // that are special in a Verilog format string
+                    let line = line
+                        .replace('\\', "\\\\")
+                        .replace('"', "\\\"")
+                        .replace('%', "%%");
                     format!(r#"$display("{line}");"#)
                 })
                 .join("\n");
-- 
2.43.0


From a4fa71ef7038edc7eb90007a05c86029629d0203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 20/49] fix: report failed assertions at the asserted
 expression

---
 spade-hir-lowering/src/inline.rs | 4 +++-
 spade-hir-lowering/src/lib.rs    | 5 ++++-
 spade-mir/src/renaming.rs        | 3 ++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/spade-hir-lowering/src/inline.rs b/spade-hir-lowering/src/inline.rs
index 1e85c0d..7a67681 100644
--- a/spade-hir-lowering/src/inline.rs
+++ b/spade-hir-lowering/src/inline.rs
@@ -74,7 +74,9 @@ impl<'a> InlinedStatements<'a> {
                             ty.clone(),
                             constant_value.clone(),
                         ),
-                        Statement::Assert(val) => Statement::Assert(get_final_name(val)),
+                        Statement::Assert(val) => {
+                            Statement::Assert(get_final_name(val).inner.at_loc(val))
+                        }
                         Statement::Set { target, value } => Statement::Set {
                             target: get_final_name(target),
                             value: get_final_name(value),
diff --git a/spade-hir-lowering/src/lib.rs b/spade-hir-lowering/src/lib.rs
index e67605b..8c4ff92 100644
--- a/spade-hir-lowering/src/lib.rs
+++ b/spade-hir-lowering/src/lib.rs
@@ -1086,7 +1086,10 @@ impl StatementLocal for Loc<Statement> {
             Statement::Label(_) => {}
             Statement::Assert(expr) => {
                 result.append(expr.lower(ctx)?);
-                result.push_anonymous(mir::Statement::Assert(expr.variable(ctx)?).at_loc(&self))
+                // The location is reported when the assertion fails. It should be that of the
+                // asserted expression, even if its value has another name
+                let value = expr.variable(ctx)?.inner.at_loc(expr);
+                result.push_anonymous(mir::Statement::Assert(value).at_loc(&self))
             }
             Statement::Set { target, value } => {
                 result.append(target.lower(ctx)?);
diff --git a/spade-mir/src/renaming.rs b/spade-mir/src/renaming.rs
index 22cb529..b08b15b 100644
--- a/spade-mir/src/renaming.rs
+++ b/spade-mir/src/renaming.rs
@@ -263,7 +263,8 @@ pub fn make_names_predictable(e: &mut Entity) -> NameState {
                     *value = state.get(value);
                 }
                 crate::Statement::Constant(name, _, _) => *name = state.get(name),
-                crate::Statement::Assert(val) => *val = state.get(val),
+                // Only the name is replaced, the location is that of the asserted expression
+                crate::Statement::Assert(val) => val.inner = state.get(val).inner,
                 crate::Statement::Set { target, value } => {
                     *target = state.get(target);
                     *value = state.get(value);
-- 
2.43.0


From e88a45d7367e1f8470f4e8624a1b755328d0f476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 21/49] fix: read sized suffixes of octal literals

---
 spade-ast/src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spade-ast/src/token.rs b/spade-ast/src/token.rs
index 3a6e9c1..5f70ebe 100644
--- a/spade-ast/src/token.rs
+++ b/spade-ast/src/token.rs
@@ -57,7 +57,7 @@ pub enum TokenKind {
         parse_int(&lex.slice()[2..], 16)
     })]
     HexInteger((BigUint, LiteralKind)),
-    #[regex(r"0o[0-7][0-7_]*([uUiI][0-7]*)?", |lex| {
+    #[regex(r"0o[0-7][0-7_]*([uUiI][0-9]*)?", |lex| {
         parse_int(&lex.slice()[2..], 8)
     })]
     OctInteger((BigUint, LiteralKind)),
-- 
2.43.0


From 29c9315b8ee815a1e9cbe62d6a26dd4c179b05a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 22/49] fix: skip block comments as plain text

---
 spade-parser/src/lib.rs | 102 ++++++++++++++++++++++++++--------------
 1 file changed, 66 insertions(+), 36 deletions(-)

diff --git a/spade-parser/src/lib.rs b/spade-parser/src/lib.rs
index 5e5b469..e3aa343 100644
--- a/spade-parser/src/lib.rs
+++ b/spade-parser/src/lib.rs
@@ -116,6 +116,20 @@ impl<'source> TokenSource<'source> {
             TokenSource::Slice([]) => 0..0,
         }
     }
+
+    /// Skips the rest of a block comment whose `/*` was the last token, returns false if it does
+    /// not end. What is in it is plain text, not tokens: a quote or `//` must not hide its end
+    fn skip_block_comment(&mut self) -> bool {
+        match self {
+            TokenSource::Lexer(l) => {
+                let length = block_comment_length(l.remainder());
+                l.bump(length.unwrap_or(l.remainder().len()));
+                length.is_some()
+            }
+            // Comments are not part of macros
+            TokenSource::Slice(_) => false,
+        }
+    }
 }
 
 // Clone for when you want to call a parse function but maybe discard the new parser state
@@ -3146,10 +3160,6 @@ impl<'a> Parser<'a> {
     }
 
     fn next_token(&mut self) -> Result<Token> {
-        self.next_token_helper(0)
-    }
-
-    fn next_token_helper(&mut self, block_comment_depth: usize) -> Result<Token> {
         let lex_dot_next = {
             let mut break_value: Option<std::result::Result<_, _>> = None;
             while let Some(next) = self.lex.next() {
@@ -3173,46 +3183,66 @@ impl<'a> Parser<'a> {
                 Loc::new((), lspan(self.lex.span()), self.file_id()),
                 "Lexer error, unexpected symbol",
             )),
-            None => Ok(match &self.last_token {
-                Some(last) => Token {
-                    kind: TokenKind::Eof,
-                    span: last.span.end..last.span.end,
-                    file_id: last.file_id,
-                },
-                None => Token {
-                    kind: TokenKind::Eof,
-                    span: logos::Span { start: 0, end: 0 },
-                    file_id: self.file_id(),
-                },
-            }),
+            None => Ok(self.eof_token()),
         }?;
 
         match out.kind {
-            TokenKind::BlockCommentStart => loop {
-                let next = match self.next_token_helper(block_comment_depth + 1) {
-                    Ok(next) => next,
-                    // We don't actually care about lexer errors inside block comments,
-                    // so let's just continue.
-                    Err(_) => continue,
-                };
-                match next.kind {
-                    TokenKind::BlockCommentEnd => {
-                        if block_comment_depth == 0 {
-                            self.comments.push(Comment::Block(out, next));
-                        }
-                        break self.next_token_helper(block_comment_depth);
-                    }
-                    TokenKind::Eof => {
-                        break Err(Diagnostic::error(next, "Unterminated block comment")
+            TokenKind::BlockCommentStart => {
+                if !self.lex.skip_block_comment() {
+                    return Err(
+                        Diagnostic::error(self.eof_token(), "Unterminated block comment")
                             .primary_label("Expected */")
-                            .secondary_label(out, "to close this block comment"));
-                    }
-                    _ => {}
+                            .secondary_label(out, "to close this block comment"),
+                    );
                 }
-            },
+                let end = self.lex.span().end;
+                self.comments.push(Comment::Block(
+                    out,
+                    Token::new(TokenKind::BlockCommentEnd, end - 2..end, self.file_id()),
+                ));
+                self.next_token()
+            }
             _ => Ok(out),
         }
     }
+
+    fn eof_token(&self) -> Token {
+        match &self.last_token {
+            Some(last) => Token {
+                kind: TokenKind::Eof,
+                span: last.span.end..last.span.end,
+                file_id: last.file_id,
+            },
+            None => Token {
+                kind: TokenKind::Eof,
+                span: logos::Span { start: 0, end: 0 },
+                file_id: self.file_id(),
+            },
+        }
+    }
+}
+
+/// The length of a block comment after its initial `/*`, including the final `*/`
+fn block_comment_length(text: &str) -> Option<usize> {
+    let mut depth = 1;
+    let mut chars = text.char_indices().peekable();
+    while let Some((i, c)) = chars.next() {
+        match (c, chars.peek()) {
+            ('/', Some((_, '*'))) => {
+                chars.next();
+                depth += 1;
+            }
+            ('*', Some((_, '/'))) => {
+                chars.next();
+                depth -= 1;
+                if depth == 0 {
+                    return Some(i + 2);
+                }
+            }
+            _ => {}
+        }
+    }
+    None
 }
 
 impl<'a> Parser<'a> {
-- 
2.43.0


From c2b1bb417daea9395e56ec25d83046efe4ec065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 23/49] fix: report empty char literals as an error

---
 spade-parser/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spade-parser/src/lib.rs b/spade-parser/src/lib.rs
index e3aa343..9a7d7f7 100644
--- a/spade-parser/src/lib.rs
+++ b/spade-parser/src/lib.rs
@@ -556,7 +556,10 @@ impl<'a> Parser<'a> {
         } else if val.len() == 1 {
             val.chars().next().unwrap()
         } else {
-            return Err(Diagnostic::bug(next.loc(), "Found an empty char literal"));
+            return Err(Diagnostic::error(
+                next,
+                "ASCII char literals must contain a character.",
+            ));
         };
 
         let mut byte = [0; 1];
-- 
2.43.0


From 10fa2a8a11a438f326d3f6e42da53660ee63edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 24/49] fix: look modules up by their name within their parent

---
 spade-ast-lowering/src/lib.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index ffc4d59..9348fc4 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -1596,15 +1596,11 @@ pub fn visit_item(item: &ast::Item, ctx: &mut Context) -> Result<Vec<hir::Item>>
 
 #[tracing::instrument(skip_all, fields(module.name = %module.name.inner))]
 pub fn visit_module(module: &ast::Module, ctx: &mut Context) -> Result<()> {
-    let path = &ctx
-        .symtab
-        .current_namespace()
-        .clone()
-        .at_loc(&module.name.loc());
+    let path = &Path::ident_with_loc(module.name.clone());
 
     let (id, thing) = ctx
         .symtab
-        .lookup_thing(path, true)
+        .lookup_thing(path, false)
         .map_err(|_| diag_anyhow!(module.name, "Failed to find {path} in symtab"))?;
 
     if !matches!(thing, Thing::Module(_, _)) {
-- 
2.43.0


From bf965d0c57d6b495c316ccdd051dcafdcb4e952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 25/49] fix: resolve aliases in the scope they are defined in

---
 spade-hir/src/symbol_table.rs | 55 ++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/spade-hir/src/symbol_table.rs b/spade-hir/src/symbol_table.rs
index 1c8d773..02969c5 100644
--- a/spade-hir/src/symbol_table.rs
+++ b/spade-hir/src/symbol_table.rs
@@ -1029,16 +1029,12 @@ macro_rules! thing_accessors {
             ) -> Result<(NameID, Loc<$result>), LookupError> {
                 let (id, thing) =
                     self.lookup_thing_in_namespace(name, namespace, ignore_metadata)?;
+                let (name, id, thing) = self.follow_aliases(name, id, thing, ignore_metadata)?;
 
                 match thing {
                     $(
                         $thing => {Ok((id, $conversion))}
                     )*,
-                    Thing::Alias { path, in_namespace, .. } => self.$lookup_in_ns_name(
-                        &path,
-                        &in_namespace,
-                        ignore_metadata,
-                    ),
                     other => Err(LookupError::$err(name.clone(), other.clone())),
                 }
             }
@@ -1229,12 +1225,23 @@ impl SymbolTable {
         name: &Loc<Path>,
         namespace: &Path,
         check_metadata: bool,
+    ) -> Result<NameID, LookupError> {
+        self.lookup_id_from_scope(name, namespace, 0, check_metadata)
+    }
+
+    /// Like `lookup_id_in_namespace` but without the innermost `from_scope` scopes
+    fn lookup_id_from_scope(
+        &self,
+        name: &Loc<Path>,
+        namespace: &Path,
+        from_scope: usize,
+        check_metadata: bool,
     ) -> Result<NameID, LookupError> {
         let (offset, path, deprecation_note) = self.canonicalize_in_namespace(
             name,
             namespace,
             &Default::default(),
-            0,
+            from_scope,
             check_metadata,
         )?;
 
@@ -1282,6 +1289,38 @@ impl SymbolTable {
         Ok(id)
     }
 
+    /// If `thing` is an alias, look up what it refers to. As with aliases in paths, that depends on
+    /// the scope in which the alias is defined, not on the one in which it is used
+    fn follow_aliases<'a>(
+        &'a self,
+        mut name: &'a Loc<Path>,
+        mut id: NameID,
+        mut thing: &'a Thing,
+        check_metadata: bool,
+    ) -> Result<(&'a Loc<Path>, NameID, &'a Thing), LookupError> {
+        while let Thing::Alias {
+            path, in_namespace, ..
+        } = thing
+        {
+            let offset = self
+                .symbols
+                .iter()
+                .rev()
+                .position(|scope| scope.vars.get(&id.1) == Some(&id))
+                .unwrap_or(0);
+            id = self.lookup_id_from_scope(path, in_namespace, offset, check_metadata)?;
+            name = path;
+            thing = match self.things.get(&id) {
+                Some(thing) => thing,
+                None => match self.types.get(&id) {
+                    Some(ty) => return Err(LookupError::IsAType(path.clone(), ty.loc())),
+                    None => return Err(LookupError::NotAThing(path.clone())),
+                },
+            };
+        }
+        Ok((name, id, thing))
+    }
+
     fn item_loc_by_id(&self, id: &NameID) -> Option<Loc<()>> {
         self.thing_by_id(id)
             .map(Thing::loc)
@@ -1477,7 +1516,9 @@ impl SymbolTable {
                             alias_path,
                             in_namespace,
                             &local_forbidden,
-                            offset,
+                            // What an alias refers to depends on where it is defined, not on
+                            // what is in scope where it is used
+                            offset.max(scope_offset),
                             check_metadata,
                         )?;
 
-- 
2.43.0


From 1986461632e27f7152823f0cf83a5dc3cb3812a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 26/49] fix: resolve lib and pub(lib) relative to the library
 they are written in

---
 spade-common/src/name.rs      |  2 +-
 spade-hir/src/symbol_table.rs | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/spade-common/src/name.rs b/spade-common/src/name.rs
index a5777c3..5b4bf41 100644
--- a/spade-common/src/name.rs
+++ b/spade-common/src/name.rs
@@ -250,7 +250,7 @@ impl Path {
     }
 
     pub fn starts_with(&self, other: &Path) -> bool {
-        self.0.iter().zip(&other.0).all(|(l, r)| l == r)
+        self.0.starts_with(&other.0)
     }
 }
 
diff --git a/spade-hir/src/symbol_table.rs b/spade-hir/src/symbol_table.rs
index 02969c5..fc5211b 100644
--- a/spade-hir/src/symbol_table.rs
+++ b/spade-hir/src/symbol_table.rs
@@ -549,6 +549,8 @@ pub struct SymbolTable {
     namespace: Path,
     /// The namespace which `lib` refers to currently.
     base_namespace: Path,
+    /// The base namespaces of all libraries
+    base_namespaces: HashSet<Path>,
     #[serde(skip)]
     diags: Arc<Mutex<DiagList>>,
 }
@@ -569,6 +571,7 @@ impl SymbolTable {
             lang_items: HashMap::default(),
             namespace: Path(vec![]),
             base_namespace: Path(vec![]),
+            base_namespaces: HashSet::default(),
             diags,
         };
 
@@ -642,9 +645,20 @@ impl SymbolTable {
     }
 
     pub fn set_base_namespace(&mut self, base_namespace: Path) {
+        self.base_namespaces.insert(base_namespace.clone());
         self.base_namespace = base_namespace
     }
 
+    /// The base namespace of the library which `namespace` is part of
+    fn base_namespace_of(&self, namespace: &Path) -> Path {
+        self.base_namespaces
+            .iter()
+            .filter(|base| namespace.starts_with(base))
+            .max_by_key(|base| base.0.len())
+            .cloned()
+            .unwrap_or(Path(vec![]))
+    }
+
     /// Adds a thing to the scope at `current_scope - offset`. Panics if there is no such scope
     pub fn add_thing_with_id_at_offset(
         &mut self,
@@ -1342,7 +1356,7 @@ impl SymbolTable {
             (PathPrefix::FromLib, lib_relative_path) => {
                 let segments = lib_relative_path.0.clone();
                 let off = self.current_scope();
-                let ns = self.base_namespace.clone();
+                let ns = self.base_namespace_of(namespace);
 
                 (off, ns, segments)
             }
@@ -1445,7 +1459,7 @@ impl SymbolTable {
                         let vis_path = match visibility.inner {
                             Visibility::Public => Path(vec![]),
                             Visibility::Implicit => working_path.prelude(),
-                            Visibility::AtLib => self.base_namespace.clone(),
+                            Visibility::AtLib => self.base_namespace_of(&working_path.prelude()),
                             Visibility::AtSelf => working_path.prelude(),
                             Visibility::AtSuper => working_path.prelude().prelude(),
                             Visibility::AtSuperSuper => working_path.prelude().prelude().prelude(),
-- 
2.43.0


From 0a5636ef13c80d1f301d03393bf5c8f57f704359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 27/49] fix: report inaccessible enum variants instead of
 panicking

---
 spade-hir/src/symbol_table.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spade-hir/src/symbol_table.rs b/spade-hir/src/symbol_table.rs
index fc5211b..119ded4 100644
--- a/spade-hir/src/symbol_table.rs
+++ b/spade-hir/src/symbol_table.rs
@@ -1494,7 +1494,10 @@ impl SymbolTable {
                                 invisible_segment: segment.clone(),
                                 target_item,
                                 invisible_item: invisible_item.map(Thing::loc),
-                                visibility_marker: if visibility.inner != Visibility::Implicit {
+                                // Enum variants have the visibility of their enum, and no marker
+                                visibility_marker: if visibility.inner != Visibility::Implicit
+                                    && visibility.span.start() != visibility.span.end()
+                                {
                                     Some(visibility.loc())
                                 } else {
                                     None
-- 
2.43.0


From 99d569d7e1d07e9268fb8100c850437c43f12500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 28/49] fix: escape file names in source location attributes

---
 spade-mir/src/codegen/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 0c95bd5..81b4a2d 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -37,7 +37,11 @@ struct Context<'a> {
 /// Produces a source location verilog attribute if the loc and code bundle are defined
 fn source_attribute(loc: &Option<Loc<()>>, code: &Option<CodeBundle>) -> Option<String> {
     match (loc, code) {
-        (Some(l), Some(c)) => Some(format!(r#"(* src = "{}" *)"#, c.source_loc(l))),
+        (Some(l), Some(c)) => {
+            // File names can contain characters that are special in Verilog strings
+            let source_loc = c.source_loc(l).replace('\\', "\\\\").replace('"', "\\\"");
+            Some(format!(r#"(* src = "{source_loc}" *)"#))
+        }
         _ => None,
     }
 }
-- 
2.43.0


From 22adccfaf0bef99e0cf09baade2abf590c740c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 29/49] fix: keep the simulation interface usable after an
 error

---
 spade-simulation-ext/src/lib.rs | 119 +++++++++++++++++++++-----------
 1 file changed, 78 insertions(+), 41 deletions(-)

diff --git a/spade-simulation-ext/src/lib.rs b/spade-simulation-ext/src/lib.rs
index 6dee545..6a436da 100644
--- a/spade-simulation-ext/src/lib.rs
+++ b/spade-simulation-ext/src/lib.rs
@@ -25,8 +25,8 @@ use spade_diagnostics::emitter::CodespanEmitter;
 use spade_diagnostics::{CodeBundle, CompilationError, DiagHandler, Diagnostic};
 use spade_hir::expression::Safety;
 use spade_hir::symbol_table::{LookupError, SymbolTable};
+use spade_hir::{Expression, Parameter, TypeSpec, UnitHead};
 use spade_hir::{ItemList, symbol_table::FrozenSymtab};
-use spade_hir::{Parameter, TypeSpec, UnitHead};
 use spade_hir_lowering::monomorphisation::MonoState;
 use spade_hir_lowering::pipelines::MaybePipelineContext;
 use spade_hir_lowering::substitution::Substitutions;
@@ -424,20 +424,17 @@ impl Spade {
             return Ok(cached.clone());
         }
 
-        // Create a new variable which is guaranteed to have the output type
-        let owned_state = self.take_owned();
-        let mut code = self.code.write().unwrap();
-        let mut symtab = owned_state.symtab.unfreeze();
-
-        symtab.new_scope();
-        let o_name = symtab.add_local_variable(Identifier::intern("o").nowhere());
-
         let ty = &field.ty;
         let ty_id = ty.insert(&mut self.type_state);
 
-        let concrete =
-            self.type_state
-                .ungenerify_type(&ty_id, &symtab, &owned_state.item_list.types);
+        // NOTE: This has to be checked before we take the owned state, since it must still be
+        // there when we are used again after an error
+        let owned_state = self.owned.as_ref().unwrap();
+        let concrete = self.type_state.ungenerify_type(
+            &ty_id,
+            owned_state.symtab.symtab(),
+            &owned_state.item_list.types,
+        );
         let has_field = concrete
             .map(|c| concrete_ty_has_field(&c, next))
             .unwrap_or_default();
@@ -449,6 +446,15 @@ impl Spade {
                 path: full_path.clone(),
             });
         }
+
+        // Create a new variable which is guaranteed to have the output type
+        let owned_state = self.take_owned();
+        let mut code = self.code.write().unwrap();
+        let mut symtab = owned_state.symtab.unfreeze();
+
+        symtab.new_scope();
+        let o_name = symtab.add_local_variable(Identifier::intern("o").nowhere());
+
         // Even though we made sure the field exists, we don't know the non-concrete type of
         // the field which we need later. So we'll need to invent an expression and infer the
         // appropriate type
@@ -872,8 +878,8 @@ impl Spade {
             symtab,
             item_list,
             macros,
-            code,
-            mut idtracker,
+            code: _,
+            idtracker,
             impl_idtracker,
             generic_idtracker,
             pipeline_ctx: _,
@@ -882,15 +888,50 @@ impl Spade {
             diags,
             safety: _,
         } = ast_ctx;
+
+        // NOTE: This has to be returned before we report any errors, since it must still be
+        // there when we are used again after an error
+        self.return_owned(OwnedState {
+            symtab: symtab.freeze(),
+            item_list,
+            macros,
+            trait_impls,
+            idtracker,
+            impl_idtracker,
+            generic_idtracker,
+        });
+
         self.handle_diags(&mut diags.lock().unwrap())?;
 
+        // Failing to compile this expression must not affect the ones which are compiled later
+        let previous_type_state = self.type_state.owned.clone();
+        let mir = match self.typecheck_and_lower(hir, ty) {
+            Ok(mir) => mir,
+            Err(e) => {
+                self.type_state.owned = previous_type_state;
+                return Err(e);
+            }
+        };
+
+        let result = eval_statements(&mir);
+        self.compilation_cache.insert(cache_key, result.clone());
+        Ok(result)
+    }
+
+    /// Type checks the expression as a value of the specified type and lowers it to MIR
+    fn typecheck_and_lower(
+        &mut self,
+        hir: Loc<Expression>,
+        ty: &KnownTypeVar,
+    ) -> Result<Vec<Loc<spade_mir::Statement>>> {
+        let code = Arc::clone(&self.code);
         let code = code.read().unwrap();
-        let symtab = symtab.freeze();
 
+        let owned_state = self.owned.as_ref().unwrap();
         let type_ctx = spade_typeinference::Context {
-            symtab: symtab.symtab(),
-            items: &item_list,
-            trait_impls: &trait_impls,
+            symtab: owned_state.symtab.symtab(),
+            items: &owned_state.item_list,
+            trait_impls: &owned_state.trait_impls,
         };
         let generic_list = self
             .type_state
@@ -902,6 +943,14 @@ impl Spade {
         let mut diags = self.type_state.owned.diags.drain_to_new();
         self.handle_diags(&mut diags)?;
 
+        let OwnedState {
+            symtab,
+            item_list,
+            trait_impls,
+            idtracker,
+            ..
+        } = self.owned.as_mut().unwrap();
+
         let ty_id = ty.insert(&mut self.type_state);
         self.type_state
             .unify_expression_generic_error(
@@ -909,8 +958,8 @@ impl Spade {
                 &ty_id,
                 &spade_typeinference::Context {
                     symtab: symtab.symtab(),
-                    items: &item_list,
-                    trait_impls: &trait_impls,
+                    items: item_list,
+                    trait_impls,
                 },
             )
             .report_and_convert(&mut self.error_buffer, &code, &mut self.diag_handler)?;
@@ -918,24 +967,24 @@ impl Spade {
             .check_requirements(
                 true,
                 &spade_typeinference::Context {
-                    items: &item_list,
+                    items: item_list,
                     symtab: symtab.symtab(),
-                    trait_impls: &trait_impls,
+                    trait_impls,
                 },
             )
             .report_and_convert(&mut self.error_buffer, &code, &mut self.diag_handler)?;
 
         let type_ctx = &spade_typeinference::Context {
             symtab: symtab.symtab(),
-            items: &item_list,
-            trait_impls: &trait_impls,
+            items: item_list,
+            trait_impls,
         };
         let mut hir_ctx = spade_hir_lowering::Context {
-            symtab: &symtab,
-            idtracker: &mut idtracker,
+            symtab,
+            idtracker,
             types: &mut self.type_state,
             type_ctx,
-            item_list: &item_list,
+            item_list,
             unit_generic_list: &None,
             // NOTE: This requires changes if we end up wanting to write tests
             // for generic units
@@ -943,7 +992,7 @@ impl Spade {
             subs: &mut Substitutions::new(),
             pipeline_context: &mut MaybePipelineContext::NotPipeline,
             self_mono_item: None,
-            trait_impls: &trait_impls,
+            trait_impls,
         };
 
         let mir = expr_to_mir(hir, &mut hir_ctx).report_and_convert(
@@ -952,19 +1001,7 @@ impl Spade {
             &mut self.diag_handler,
         )?;
 
-        self.return_owned(OwnedState {
-            symtab,
-            item_list,
-            macros,
-            trait_impls,
-            idtracker,
-            impl_idtracker,
-            generic_idtracker,
-        });
-
-        let result = eval_statements(&mir.to_vec_no_source_map());
-        self.compilation_cache.insert(cache_key, result.clone());
-        Ok(result)
+        Ok(mir.to_vec_no_source_map())
     }
 
     /// Return the output type of uut
-- 
2.43.0


From a25611d3d60e1c65ec6c60aeecd5899f3fa99320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:42 +0000
Subject: [PATCH 30/49] fix: report misplaced instantiations, where clauses and
 missing bodies as errors

---
 spade-parser/src/item_type.rs | 14 ++++++--------
 spade-parser/src/items.rs     | 13 ++++---------
 spade-parser/src/lib.rs       | 10 +++++-----
 3 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/spade-parser/src/item_type.rs b/spade-parser/src/item_type.rs
index b1c66e6..3e36e13 100644
--- a/spade-parser/src/item_type.rs
+++ b/spade-parser/src/item_type.rs
@@ -11,11 +11,9 @@ fn not_allowed_in_function(message: &str, at: Loc<()>, what: &str, kw_loc: Loc<(
         .span_suggest_replace("consider making the function an entity", kw_loc, "entity")
 }
 
-fn bug_no_item_context(at: Loc<()>) -> Diagnostic {
-    Diagnostic::bug(
-        at,
-        "attempted to parse something which requires an item context, but no item context exists",
-    )
+fn not_allowed_outside_unit(what: &str, at: Loc<()>) -> Diagnostic {
+    Diagnostic::error(at, format!("{what} outside the body of a unit"))
+        .primary_label(format!("{what} not allowed here"))
 }
 
 fn stage_ref_in(what: &str, at: Loc<()>, kw_loc: Loc<()>) -> Diagnostic {
@@ -41,7 +39,7 @@ impl UnitKindLocal for Option<Loc<UnitKind>> {
                 kw_loc,
             )),
             Some((UnitKind::Entity | UnitKind::Pipeline(_), _)) => Ok(()),
-            None => Err(bug_no_item_context(at)),
+            None => Err(not_allowed_outside_unit("register", at)),
         }
     }
 
@@ -55,7 +53,7 @@ impl UnitKindLocal for Option<Loc<UnitKind>> {
                 kw_loc,
             )),
             Some((UnitKind::Entity | UnitKind::Pipeline(_), _)) => Ok(()),
-            None => Err(bug_no_item_context(at)),
+            None => Err(not_allowed_outside_unit("instantiation", at)),
         }
     }
 
@@ -64,7 +62,7 @@ impl UnitKindLocal for Option<Loc<UnitKind>> {
             Some((UnitKind::Function, kw_loc)) => Err(stage_ref_in("function", at, kw_loc)),
             Some((UnitKind::Entity, kw_loc)) => Err(stage_ref_in("entity", at, kw_loc)),
             Some((UnitKind::Pipeline(_), _)) => Ok(()),
-            None => Err(bug_no_item_context(at)),
+            None => Err(not_allowed_outside_unit("pipeline stage reference", at)),
         }
     }
 }
diff --git a/spade-parser/src/items.rs b/spade-parser/src/items.rs
index 73ca77a..bedd2dc 100644
--- a/spade-parser/src/items.rs
+++ b/spade-parser/src/items.rs
@@ -65,13 +65,10 @@ impl KeywordPeekingParser<Loc<Unit>> for UnitParser {
             }
         })();
 
-        let (block, block_span) = match block_result {
-            Ok(inner) => inner,
-            Err(e) => {
-                parser.clear_item_context();
-                return Err(e);
-            }
-        };
+        // The context must be cleared regardless of the result, otherwise the next unit fails
+        // to set it
+        parser.clear_item_context();
+        let (block, block_span) = block_result?;
 
         if head.extern_token.is_some() && block.is_some() {
             return Err(Diagnostic::error(
@@ -96,8 +93,6 @@ impl KeywordPeekingParser<Loc<Unit>> for UnitParser {
             ));
         }
 
-        parser.clear_item_context();
-
         Ok(Unit {
             head: head.inner.clone(),
             body: block.map(|inner| inner.map(|inner| Expression::Block(Box::new(inner)))),
diff --git a/spade-parser/src/lib.rs b/spade-parser/src/lib.rs
index 9a7d7f7..64c032b 100644
--- a/spade-parser/src/lib.rs
+++ b/spade-parser/src/lib.rs
@@ -2037,7 +2037,7 @@ impl<'a> Parser<'a> {
     }
 
     fn where_clauses(&mut self) -> Result<Vec<WhereClause>> {
-        if let Some(where_kw) = self.peek_and_eat(&TokenKind::Where)? {
+        if self.peek_and_eat(&TokenKind::Where)?.is_some() {
             let clauses = self
                 .token_separated(
                     |s| {
@@ -2131,10 +2131,10 @@ impl<'a> Parser<'a> {
                                 })
                             }
                         } else {
-                            Err(Diagnostic::bug(
-                                ().at(s.file_id(), &where_kw),
-                                "Comma separated should not show this error",
-                            ))
+                            Err(Diagnostic::from(UnexpectedToken {
+                                got: s.peek()?,
+                                expected: vec!["identifier"],
+                            }))
                         }
                     },
                     &TokenKind::Comma,
-- 
2.43.0


From 78a0dca97d2dd7afc0d0b9625e13cf8ce88f36e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 31/49] fix: require the type parameters of primitive types

---
 spade-ast-lowering/src/builtins.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spade-ast-lowering/src/builtins.rs b/spade-ast-lowering/src/builtins.rs
index f5389db..ecebf94 100644
--- a/spade-ast-lowering/src/builtins.rs
+++ b/spade-ast-lowering/src/builtins.rs
@@ -22,8 +22,12 @@ pub fn populate_symtab(symtab: &mut SymbolTable, item_list: &mut ItemList) {
                 .add_type_with_id(
                     id,
                     path,
-                    TypeSymbol::Declared(args.clone(), 0, TypeDeclKind::Primitive { is_inout })
-                        .nowhere(),
+                    TypeSymbol::Declared(
+                        args.clone(),
+                        args.len(),
+                        TypeDeclKind::Primitive { is_inout },
+                    )
+                    .nowhere(),
                     None,
                     None,
                 )
-- 
2.43.0


From 682d40a5484f9c5430f94be0fb8fa71859a3b6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 32/49] fix: check the kinds of type parameters where types are
 named

---
 spade-ast-lowering/src/builtins.rs |  8 ++++-
 spade-ast-lowering/src/lib.rs      | 48 ++++++++++++++++++++++++++++--
 spade-typeinference/src/lib.rs     | 36 +++++++++++++++-------
 3 files changed, 77 insertions(+), 15 deletions(-)

diff --git a/spade-ast-lowering/src/builtins.rs b/spade-ast-lowering/src/builtins.rs
index ecebf94..b7308aa 100644
--- a/spade-ast-lowering/src/builtins.rs
+++ b/spade-ast-lowering/src/builtins.rs
@@ -127,7 +127,13 @@ pub fn populate_symtab(symtab: &mut SymbolTable, item_list: &mut ItemList) {
     add_type("tri", vec![], PrimitiveType::Bool, false);
     add_type(
         "inout",
-        vec![GenericArg::uint(Identifier::intern("T")).nowhere()],
+        vec![
+            GenericArg::TypeName {
+                name: Identifier::intern("T"),
+                traits: vec![],
+            }
+            .nowhere(),
+        ],
         PrimitiveType::InOut,
         true,
     );
diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index 9348fc4..176d97f 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -22,7 +22,7 @@ use global_symbols::visit_meta_type;
 use impls::visit_impl;
 use itertools::Itertools;
 use lambda::visit_lambda;
-use num::{BigInt, BigUint, FromPrimitive, Zero};
+use num::{BigInt, BigUint, FromPrimitive, Signed, Zero};
 use pipelines::PipelineContext;
 use recursive::recursive;
 use spade_diagnostics::diag_list::{DiagList, ResultExt};
@@ -30,7 +30,7 @@ use spade_diagnostics::diagnostic::SuggestionParts;
 use spade_diagnostics::{CodeBundle, Diagnostic, codespan::Span, diag_anyhow, diag_bail};
 use spade_hir::{Selfness, expression::Safety, symbol_table::TypeDeclKind};
 use spade_parser::Parser;
-use spade_types::meta_types::MetaType;
+use spade_types::meta_types::{MetaType, unify_meta};
 use tracing::{Level, event};
 use type_level_if::expand_type_level_if;
 
@@ -45,7 +45,7 @@ use ast::{Binding, CallKind, ParameterList};
 use hir::expression::{BinaryOperator, IntLiteralKind};
 use hir::param_util::ArgumentError;
 use hir::symbol_table::DeclarationState;
-use hir::symbol_table::{LookupError, SymbolTable, Thing, TypeSymbol};
+use hir::symbol_table::{GenericArg, LookupError, SymbolTable, Thing, TypeSymbol};
 use hir::{ConstGeneric, ExecutableItem, PatternKind, TraitName};
 use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};
 use spade_ast::{self as ast, Attribute, Expression, MacroRules, TypeParam, WhereClause};
@@ -365,6 +365,40 @@ pub fn visit_type_expression(
     }
 }
 
+/// Checks that a type expression whose kind is apparent from its syntax is of the expected
+/// kind. Generic parameters and const generics are checked by type inference, and so are the
+/// numbers in the types of bindings
+fn check_type_expression_meta(
+    expr: &Loc<hir::TypeExpression>,
+    expected: &MetaType,
+    kind: &TypeSpecKind,
+) -> Result<()> {
+    let actual = match &expr.inner {
+        hir::TypeExpression::Bool(_) => MetaType::Bool,
+        hir::TypeExpression::String(_) => MetaType::Str,
+        hir::TypeExpression::Integer(val)
+            if val.is_negative() && !matches!(kind, TypeSpecKind::BindingType) =>
+        {
+            MetaType::Int
+        }
+        hir::TypeExpression::Integer(_) => MetaType::Number,
+        hir::TypeExpression::ConstGeneric(_)
+        | hir::TypeExpression::TypeSpec(TypeSpec::Generic(_) | TypeSpec::Wildcard(_)) => {
+            return Ok(());
+        }
+        hir::TypeExpression::TypeSpec(_) => MetaType::Type,
+    };
+
+    if unify_meta(&actual, expected).is_some() {
+        Ok(())
+    } else {
+        Err(
+            Diagnostic::error(expr, format!("Expected {expected}, found {actual}"))
+                .primary_label(format!("Expected {expected}")),
+        )
+    }
+}
+
 pub fn visit_type_spec(
     t: &Loc<ast::TypeSpec>,
     kind: &TypeSpecKind,
@@ -403,6 +437,13 @@ pub fn visit_type_spec(
                     if visited_params.len() >= *min_required_params
                         && visited_params.len() <= generic_args.len()
                     {
+                        for (param, arg) in visited_params.iter().zip(generic_args) {
+                            let expected = match &arg.inner {
+                                GenericArg::TypeName { .. } => &MetaType::Type,
+                                GenericArg::TypeWithMeta { name: _, meta } => meta,
+                            };
+                            check_type_expression_meta(param, expected, kind)?;
+                        }
                         Ok(hir::TypeSpec::Declared(
                             base_id.at_loc(path),
                             visited_params,
@@ -476,6 +517,7 @@ pub fn visit_type_spec(
                 }
             };
             let size = Box::new(visit_type_expression(size, kind, ctx)?.at_loc(size));
+            check_type_expression_meta(&size, &MetaType::Uint, kind)?;
 
             Ok(hir::TypeSpec::Array { inner, size })
         }
diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index e45d032..bbd1dcf 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -292,7 +292,7 @@ impl TypeState {
         generic_list_token: &GenericListToken,
         ctx: &Context,
     ) -> Result<TypeVarID> {
-        self.hir_type_expr_to_var_with_obligations(e, generic_list_token, ctx)?
+        self.hir_type_expr_to_var_with_obligations(e, &MetaType::Any, generic_list_token, ctx)?
             .resolve_obligations(self, ctx)
     }
 
@@ -301,6 +301,7 @@ impl TypeState {
     fn hir_type_expr_to_var_with_obligations<'a>(
         &'a mut self,
         e: &Loc<hir::TypeExpression>,
+        expected_meta: &MetaType,
         generic_list_token: &GenericListToken,
         ctx: &Context,
     ) -> Result<WithObligations<TypeVarID>> {
@@ -332,7 +333,7 @@ impl TypeState {
             hir::TypeExpression::ConstGeneric(g) => {
                 let constraint = self.visit_const_generic(g, generic_list_token)?;
 
-                let tvar = self.new_generic_any();
+                let tvar = self.new_generic_with_meta(g.loc(), expected_meta.clone());
                 self.add_constraint(
                     tvar.clone(),
                     constraint,
@@ -365,21 +366,27 @@ impl TypeState {
         let generic_list = self.get_generic_list(generic_list_token);
         let var = match &hir_type {
             hir::TypeSpec::Declared(base, params) => {
+                let TypeDeclaration {
+                    name: _,
+                    kind,
+                    generic_args,
+                } = &ctx.items.types.get(base).unwrap().inner;
+
                 let params = params
                     .iter()
-                    .map(|e| {
+                    .zip(generic_args)
+                    .map(|(e, arg)| {
                         Ok(self
-                            .hir_type_expr_to_var_with_obligations(e, generic_list_token, ctx)?
+                            .hir_type_expr_to_var_with_obligations(
+                                e,
+                                &arg.meta,
+                                generic_list_token,
+                                ctx,
+                            )?
                             .absorb_obligations(&mut obligations))
                     })
                     .collect::<Result<Vec<_>>>()?;
 
-                let TypeDeclaration {
-                    name: _,
-                    kind,
-                    generic_args,
-                } = &ctx.items.types.get(base).unwrap().inner;
-
                 for (
                     TypeParam {
                         name: _,
@@ -452,7 +459,12 @@ impl TypeState {
                     .type_var_from_hir_with_obligations(loc, inner, generic_list_token, ctx)?
                     .absorb_obligations(&mut obligations);
                 let size = self
-                    .hir_type_expr_to_var_with_obligations(size, generic_list_token, ctx)?
+                    .hir_type_expr_to_var_with_obligations(
+                        size,
+                        &MetaType::Uint,
+                        generic_list_token,
+                        ctx,
+                    )?
                     .absorb_obligations(&mut obligations);
 
                 self.add_type_var(TypeVar::array(loc, inner, size))
@@ -2124,6 +2136,7 @@ impl TypeState {
                                         Ok(TemplateTypeVarID::new(
                                             self.hir_type_expr_to_var_with_obligations(
                                                 &param.clone().at_loc(&loc),
+                                                &MetaType::Any,
                                                 &generic_list,
                                                 ctx,
                                             )?
@@ -2138,6 +2151,7 @@ impl TypeState {
                                         let var = self
                                             .hir_type_expr_to_var_with_obligations(
                                                 &param.clone().at_loc(&loc),
+                                                &MetaType::Any,
                                                 &generic_list,
                                                 ctx,
                                             )?
-- 
2.43.0


From 44a0d4ec89686e17f50516171d500fb696788ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:56 +0000
Subject: [PATCH 33/49] fix: check the kinds of generic parameters where types
 are named

---
 spade-ast-lowering/src/global_symbols.rs     |  3 +
 spade-ast-lowering/src/lib.rs                | 52 +++++++++++++---
 spade-typeinference/src/mir_type_lowering.rs | 65 ++++++++++++++++++--
 spade-typeinference/src/requirements.rs      |  4 +-
 4 files changed, 110 insertions(+), 14 deletions(-)

diff --git a/spade-ast-lowering/src/global_symbols.rs b/spade-ast-lowering/src/global_symbols.rs
index 166e4f8..a4c0611 100644
--- a/spade-ast-lowering/src/global_symbols.rs
+++ b/spade-ast-lowering/src/global_symbols.rs
@@ -18,6 +18,7 @@ use spade_types::meta_types::MetaType;
 use crate::{
     Context, Result, TypeSpecKind,
     attributes::{AttributeListExt, LocAttributeExt},
+    check_is_type,
     data_requirements::new_data_trait_spec,
     impls::create_trait_from_unit_heads,
     types::IsInOut,
@@ -778,6 +779,7 @@ pub fn re_visit_type_declaration(
                     }
 
                     let ty = visit_type_spec(&ty, &TypeSpecKind::EnumMember, ctx)?;
+                    check_is_type(&ty, &TypeSpecKind::EnumMember, ctx)?;
 
                     add_type_spec_name_ids_to_graph(
                         &ty.inner,
@@ -880,6 +882,7 @@ pub fn re_visit_type_declaration(
                     .primary_label("Wire in type"));
                 }
                 let hir_ty = visit_type_spec(ty, &TypeSpecKind::StructMember, ctx)?;
+                check_is_type(&hir_ty, &TypeSpecKind::StructMember, ctx)?;
                 if hir_ty.is_inout(ctx)? {
                     return Err(Diagnostic::error(ty, "Inout in struct")
                         .primary_label("This is an inout")
diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index 176d97f..093630b 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -365,13 +365,13 @@ pub fn visit_type_expression(
     }
 }
 
-/// Checks that a type expression whose kind is apparent from its syntax is of the expected
-/// kind. Generic parameters and const generics are checked by type inference, and so are the
-/// numbers in the types of bindings
-fn check_type_expression_meta(
+/// Checks that a type expression is of the expected kind. Const generics and aliases are checked
+/// by type inference, and so are the numbers in the types of bindings
+pub fn check_type_expression_meta(
     expr: &Loc<hir::TypeExpression>,
     expected: &MetaType,
     kind: &TypeSpecKind,
+    ctx: &Context,
 ) -> Result<()> {
     let actual = match &expr.inner {
         hir::TypeExpression::Bool(_) => MetaType::Bool,
@@ -383,9 +383,27 @@ fn check_type_expression_meta(
         }
         hir::TypeExpression::Integer(_) => MetaType::Number,
         hir::TypeExpression::ConstGeneric(_)
-        | hir::TypeExpression::TypeSpec(TypeSpec::Generic(_) | TypeSpec::Wildcard(_)) => {
+        | hir::TypeExpression::TypeSpec(TypeSpec::Wildcard(_)) => return Ok(()),
+        hir::TypeExpression::TypeSpec(TypeSpec::Declared(name, _))
+            if matches!(
+                ctx.symtab.type_symbol_by_id(name).inner,
+                TypeSymbol::Declared(_, _, TypeDeclKind::Alias)
+            ) =>
+        {
             return Ok(());
         }
+        hir::TypeExpression::TypeSpec(TypeSpec::Generic(Generic::Named(name))) => {
+            match (&ctx.symtab.type_symbol_by_id(name).inner, kind) {
+                // The parameters of an `impl` block take the kinds of the parameters of its target
+                (_, TypeSpecKind::ImplTarget) => return Ok(()),
+                // The sign of an integer is only known once it has a value
+                (TypeSymbol::GenericMeta(MetaType::Int), _) => MetaType::Number,
+                (TypeSymbol::GenericMeta(meta), _) => meta.clone(),
+                (TypeSymbol::GenericArg { .. } | TypeSymbol::Declared(_, _, _), _) => {
+                    MetaType::Type
+                }
+            }
+        }
         hir::TypeExpression::TypeSpec(_) => MetaType::Type,
     };
 
@@ -399,6 +417,12 @@ fn check_type_expression_meta(
     }
 }
 
+/// Checks that a type specification is not a type-level value
+pub fn check_is_type(spec: &Loc<TypeSpec>, kind: &TypeSpecKind, ctx: &Context) -> Result<()> {
+    let expr = spec.map_ref(|s| hir::TypeExpression::TypeSpec(s.clone()));
+    check_type_expression_meta(&expr, &MetaType::Type, kind, ctx)
+}
+
 pub fn visit_type_spec(
     t: &Loc<ast::TypeSpec>,
     kind: &TypeSpecKind,
@@ -442,7 +466,7 @@ pub fn visit_type_spec(
                                 GenericArg::TypeName { .. } => &MetaType::Type,
                                 GenericArg::TypeWithMeta { name: _, meta } => meta,
                             };
-                            check_type_expression_meta(param, expected, kind)?;
+                            check_type_expression_meta(param, expected, kind, ctx)?;
                         }
                         Ok(hir::TypeSpec::Declared(
                             base_id.at_loc(path),
@@ -517,7 +541,8 @@ pub fn visit_type_spec(
                 }
             };
             let size = Box::new(visit_type_expression(size, kind, ctx)?.at_loc(size));
-            check_type_expression_meta(&size, &MetaType::Uint, kind)?;
+            check_type_expression_meta(&size, &MetaType::Uint, kind, ctx)?;
+            check_is_type(&inner, kind, ctx)?;
 
             Ok(hir::TypeSpec::Array { inner, size })
         }
@@ -572,6 +597,7 @@ pub fn visit_type_spec(
                 }
             };
 
+            check_is_type(&inner, kind, ctx)?;
             Ok(hir::TypeSpec::Inverted(Box::new(inner)))
         }
         ast::TypeSpec::CopyView(inner) => {
@@ -586,6 +612,7 @@ pub fn visit_type_spec(
                 }
             };
 
+            check_is_type(&inner, kind, ctx)?;
             Ok(hir::TypeSpec::CopyView(Box::new(inner)))
         }
         ast::TypeSpec::Impl(specs) => {
@@ -855,6 +882,10 @@ pub fn visit_type_params(
 pub fn associated_type(ty: &Loc<ast::AssocType>, ctx: &mut Context) -> Result<hir::AssocType> {
     let visited_type_params = visit_type_params(&ty.type_params, ctx)?;
     let visited_generic_args = visit_generic_args(&ty.type_params, ctx)?;
+    let min_required_params = visited_type_params
+        .iter()
+        .take_while(|p| p.default.is_none())
+        .count();
 
     ctx.symtab
         .add_dummy(PathSegment::Named(Identifier::intern("Self").nowhere()));
@@ -862,7 +893,12 @@ pub fn associated_type(ty: &Loc<ast::AssocType>, ctx: &mut Context) -> Result<hi
     let name_id = ctx.in_named_namespace(Identifier::intern("Self").nowhere(), |ctx| {
         ctx.symtab.add_unique_type(
             Path::ident_with_loc(ty.name),
-            TypeSymbol::Declared(visited_generic_args, 0, TypeDeclKind::Alias).at_loc(ty),
+            TypeSymbol::Declared(
+                visited_generic_args,
+                min_required_params,
+                TypeDeclKind::Alias,
+            )
+            .at_loc(ty),
             None,
             None,
         )
diff --git a/spade-typeinference/src/mir_type_lowering.rs b/spade-typeinference/src/mir_type_lowering.rs
index b5c91c6..45bd91b 100644
--- a/spade-typeinference/src/mir_type_lowering.rs
+++ b/spade-typeinference/src/mir_type_lowering.rs
@@ -1,3 +1,4 @@
+use num::Signed;
 use rustc_hash::FxHashMap as HashMap;
 
 use hir::symbol_table::SymbolTable;
@@ -80,6 +81,57 @@ impl HasConcreteType for Loc<NameID> {
     }
 }
 
+/// Returns a part of the type which no value can have: a type-level value in the place of a
+/// type, or something with a negative size
+fn unrealisable_part(ty: &ConcreteType) -> Option<&ConcreteType> {
+    let is_size =
+        |t: &ConcreteType| matches!(t, ConcreteType::Integer(size) if !size.is_negative());
+
+    match ty {
+        ConcreteType::Error => None,
+        ConcreteType::Integer(_) | ConcreteType::Bool(_) | ConcreteType::String(_) => Some(ty),
+        ConcreteType::Tuple(inner) => inner.iter().find_map(unrealisable_part),
+        ConcreteType::Struct { members, .. } => {
+            members.iter().find_map(|(_, ty)| unrealisable_part(ty))
+        }
+        ConcreteType::Enum { options } => options
+            .iter()
+            .flat_map(|(_, members)| members)
+            .find_map(|(_, ty)| unrealisable_part(ty)),
+        ConcreteType::Array { inner, size } => {
+            if size.is_negative() {
+                Some(ty)
+            } else {
+                unrealisable_part(inner)
+            }
+        }
+        ConcreteType::Single { base, params } => match (base, params.as_slice()) {
+            (PrimitiveType::Int | PrimitiveType::Uint, [size]) if is_size(size) => None,
+            (PrimitiveType::Memory, [inner, size]) if is_size(size) => unrealisable_part(inner),
+            (PrimitiveType::Int | PrimitiveType::Uint | PrimitiveType::Memory, _) => Some(ty),
+            (PrimitiveType::InOut, [inner]) => unrealisable_part(inner),
+            _ => None,
+        },
+        ConcreteType::Backward(inner) | ConcreteType::CopyView(inner) => unrealisable_part(inner),
+    }
+}
+
+fn check_realisable<T>(ty: ConcreteType, loc: &Loc<T>) -> Result<ConcreteType, Diagnostic> {
+    match unrealisable_part(&ty) {
+        None => Ok(ty),
+        Some(part) => Err(
+            Diagnostic::error(loc, format!("No value can have type {ty}"))
+                .primary_label(format!("This has type {ty}"))
+                .note(match part {
+                    ConcreteType::Integer(_) | ConcreteType::Bool(_) | ConcreteType::String(_) => {
+                        format!("{part} is a type-level value, not a type")
+                    }
+                    _ => format!("The size in {part} must be a non-negative number"),
+                }),
+        ),
+    }
+}
+
 impl TypeState {
     pub fn type_decl_to_concrete(
         decl: &TypeDeclaration,
@@ -382,8 +434,13 @@ impl TypeState {
         let id = id.into_typed_expression();
         let t = self.type_of(&id.inner);
 
-        if let Some(t) = self.ungenerify_type(&t, symtab, types) {
-            Ok(t)
+        if let Some(concrete) = self.ungenerify_type(&t, symtab, types) {
+            match concrete {
+                ConcreteType::Integer(_) | ConcreteType::Bool(_) | ConcreteType::String(_) => {
+                    Ok(concrete)
+                }
+                _ => check_realisable(concrete, &id),
+            }
         } else {
             if std::env::var("SPADE_TRACE_TYPEINFERENCE").is_ok() {
                 println!("The incomplete type is {}", t.debug_resolve(self))
@@ -406,8 +463,8 @@ impl TypeState {
     ) -> Result<ConcreteType, Diagnostic> {
         let t = self.type_of(&TypedExpression::Name(name.inner.clone()));
 
-        if let Some(t) = self.ungenerify_type(&t, symtab, types) {
-            Ok(t)
+        if let Some(concrete) = self.ungenerify_type(&t, symtab, types) {
+            check_realisable(concrete, name)
         } else {
             Err(
                 Diagnostic::error(name, format!("Type of {name} is not fully known"))
diff --git a/spade-typeinference/src/requirements.rs b/spade-typeinference/src/requirements.rs
index 71b6563..fe750ef 100644
--- a/spade-typeinference/src/requirements.rs
+++ b/spade-typeinference/src/requirements.rs
@@ -360,11 +360,11 @@ impl Requirement {
                                 let two = 2.to_bigint();
 
                                 let size_u32 = size.to_u32().ok_or_else(|| {
-                                    Diagnostic::bug(
+                                    Diagnostic::error(
                                         target_type,
                                         "Integer size does not fit in 32-bit unsigned number",
                                     )
-                                    .note("How did you manage to trigger this 🤔")
+                                    .primary_label("This integer is too large")
                                 })?;
 
                                 let value = match value {
-- 
2.43.0


From 47645368e9f1226892a4049a2f5b426d2d9c1914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 34/49] fix: memories without bits and with addresses without
 bits

---
 spade-mir/src/codegen/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 81b4a2d..6450280 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -522,7 +522,14 @@ fn forward_expression_code(
             }
         }
         Operator::IndexMemory => {
-            format!("{}[{}]", op_names[0], op_names[1])
+            if types[&ops[0]].size() == BigUint::zero() {
+                // A memory without elements has no value to read
+                format!("{}'bX", self_type.size())
+            } else if types[&ops[1]].size() == BigUint::zero() {
+                format!("{}[0]", op_names[0])
+            } else {
+                format!("{}[{}]", op_names[0], op_names[1])
+            }
         }
         Operator::RangeIndexBits {
             start,
@@ -574,7 +581,9 @@ fn forward_expression_code(
                         &full_port_width * (port + 1u32.to_biguint()) - 1u32.to_biguint();
 
                     let addr_start = &full_port_width * port + &inner_w;
-                    let addr = if *addr_w == 1u32.to_biguint() {
+                    let addr = if *addr_w == BigUint::zero() {
+                        "0".to_string()
+                    } else if *addr_w == 1u32.to_biguint() {
                         format!("{}[{}]", op_names[1], addr_start)
                     } else {
                         format!(
@@ -1064,7 +1073,8 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                     }
                     .to_string()
                 }
-                Operator::DeclClockedMemory { .. } => forward_expression.unwrap(),
+                // A memory without bits is not declared
+                Operator::DeclClockedMemory { .. } => forward_expression.unwrap_or_default(),
                 Operator::ReadWriteItemsInOut(num_items) => {
                     // NOTE(repr): this code relies on the bit representation of `Option` to use the
                     // MSB as the discriminant, with 0 indicating a `None` value and 1 indicating a
-- 
2.43.0


From c7c63b82939da740ac4a7e94df11f8f5cbc09b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 35/49] fix: leave the kinds of const generics to the check of
 the finished type

---
 spade-typeinference/src/lib.rs | 36 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index bbd1dcf..e45d032 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -292,7 +292,7 @@ impl TypeState {
         generic_list_token: &GenericListToken,
         ctx: &Context,
     ) -> Result<TypeVarID> {
-        self.hir_type_expr_to_var_with_obligations(e, &MetaType::Any, generic_list_token, ctx)?
+        self.hir_type_expr_to_var_with_obligations(e, generic_list_token, ctx)?
             .resolve_obligations(self, ctx)
     }
 
@@ -301,7 +301,6 @@ impl TypeState {
     fn hir_type_expr_to_var_with_obligations<'a>(
         &'a mut self,
         e: &Loc<hir::TypeExpression>,
-        expected_meta: &MetaType,
         generic_list_token: &GenericListToken,
         ctx: &Context,
     ) -> Result<WithObligations<TypeVarID>> {
@@ -333,7 +332,7 @@ impl TypeState {
             hir::TypeExpression::ConstGeneric(g) => {
                 let constraint = self.visit_const_generic(g, generic_list_token)?;
 
-                let tvar = self.new_generic_with_meta(g.loc(), expected_meta.clone());
+                let tvar = self.new_generic_any();
                 self.add_constraint(
                     tvar.clone(),
                     constraint,
@@ -366,27 +365,21 @@ impl TypeState {
         let generic_list = self.get_generic_list(generic_list_token);
         let var = match &hir_type {
             hir::TypeSpec::Declared(base, params) => {
-                let TypeDeclaration {
-                    name: _,
-                    kind,
-                    generic_args,
-                } = &ctx.items.types.get(base).unwrap().inner;
-
                 let params = params
                     .iter()
-                    .zip(generic_args)
-                    .map(|(e, arg)| {
+                    .map(|e| {
                         Ok(self
-                            .hir_type_expr_to_var_with_obligations(
-                                e,
-                                &arg.meta,
-                                generic_list_token,
-                                ctx,
-                            )?
+                            .hir_type_expr_to_var_with_obligations(e, generic_list_token, ctx)?
                             .absorb_obligations(&mut obligations))
                     })
                     .collect::<Result<Vec<_>>>()?;
 
+                let TypeDeclaration {
+                    name: _,
+                    kind,
+                    generic_args,
+                } = &ctx.items.types.get(base).unwrap().inner;
+
                 for (
                     TypeParam {
                         name: _,
@@ -459,12 +452,7 @@ impl TypeState {
                     .type_var_from_hir_with_obligations(loc, inner, generic_list_token, ctx)?
                     .absorb_obligations(&mut obligations);
                 let size = self
-                    .hir_type_expr_to_var_with_obligations(
-                        size,
-                        &MetaType::Uint,
-                        generic_list_token,
-                        ctx,
-                    )?
+                    .hir_type_expr_to_var_with_obligations(size, generic_list_token, ctx)?
                     .absorb_obligations(&mut obligations);
 
                 self.add_type_var(TypeVar::array(loc, inner, size))
@@ -2136,7 +2124,6 @@ impl TypeState {
                                         Ok(TemplateTypeVarID::new(
                                             self.hir_type_expr_to_var_with_obligations(
                                                 &param.clone().at_loc(&loc),
-                                                &MetaType::Any,
                                                 &generic_list,
                                                 ctx,
                                             )?
@@ -2151,7 +2138,6 @@ impl TypeState {
                                         let var = self
                                             .hir_type_expr_to_var_with_obligations(
                                                 &param.clone().at_loc(&loc),
-                                                &MetaType::Any,
                                                 &generic_list,
                                                 ctx,
                                             )?
-- 
2.43.0


From 91dbf33918034d013db82df811d769016f1f4cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 36/49] fix: close the scopes an error leaves open

---
 spade-ast-lowering/src/impls.rs | 6 ++++--
 spade-ast-lowering/src/lib.rs   | 4 ++++
 spade-compiler/src/lib.rs       | 4 ++++
 spade-hir/src/symbol_table.rs   | 8 ++++++++
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/spade-ast-lowering/src/impls.rs b/spade-ast-lowering/src/impls.rs
index a0c2dec..0e1b6fd 100644
--- a/spade-ast-lowering/src/impls.rs
+++ b/spade-ast-lowering/src/impls.rs
@@ -25,9 +25,10 @@ use crate::{
 
 pub fn visit_impl(block: &Loc<ast::ImplBlock>, ctx: &mut Context) -> Result<Vec<hir::Item>> {
     let old_self_ctx = ctx.self_ctx.clone();
+    let scope = ctx.symtab.current_scope();
     ctx.symtab.new_scope();
     let result = visit_impl_inner(block, ctx);
-    ctx.symtab.close_scope();
+    ctx.symtab.close_scopes_after(scope);
     ctx.self_ctx = old_self_ctx;
     result
 }
@@ -402,6 +403,7 @@ pub fn create_trait_from_unit_heads(
     ctx: &mut Context,
 ) -> Result<()> {
     let old_self_ctx = ctx.self_ctx.clone();
+    let scope = ctx.symtab.current_scope();
     ctx.symtab.new_scope();
 
     let result = create_trait_from_unit_heads_inner(
@@ -416,7 +418,7 @@ pub fn create_trait_from_unit_heads(
         ctx,
     );
 
-    ctx.symtab.close_scope();
+    ctx.symtab.close_scopes_after(scope);
     ctx.self_ctx = old_self_ctx;
     result
 }
diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index 093630b..bf0b187 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -2085,9 +2085,11 @@ fn try_visit_statement(
 
 #[recursive]
 fn visit_statement(s: &Loc<ast::Statement>, ctx: &mut Context) -> Vec<Loc<hir::Statement>> {
+    let scope = ctx.symtab.current_scope();
     match try_visit_statement(s, ctx) {
         Ok(result) => result,
         Err(e) => {
+            ctx.symtab.close_scopes_after(scope);
             ctx.diags.lock().unwrap().errors.push(e);
             vec![hir::Statement::Error.at_loc(s)]
         }
@@ -2841,9 +2843,11 @@ fn check_for_undefined(ctx: &mut Context) {
 pub fn visit_expression(e: &ast::Expression, ctx: &mut Context) -> hir::Expression {
     let new_id = ctx.idtracker.next();
 
+    let scope = ctx.symtab.current_scope();
     let kind = match visit_expression_result(e, ctx) {
         Ok(kind) => kind,
         Err(e) => {
+            ctx.symtab.close_scopes_after(scope);
             ctx.diags.lock().unwrap().errors.push(e);
             ExprKind::Error
         }
diff --git a/spade-compiler/src/lib.rs b/spade-compiler/src/lib.rs
index 20a2f5e..f8f2744 100644
--- a/spade-compiler/src/lib.rs
+++ b/spade-compiler/src/lib.rs
@@ -638,7 +638,9 @@ pub fn do_in_namespace(
     }
     ctx.symtab
         .set_base_namespace(namespace.base_namespace.clone());
+    let scope = ctx.symtab.current_scope();
     to_do(ctx);
+    ctx.symtab.close_scopes_after(scope);
     ctx.symtab.set_base_namespace(SpadePath(vec![]));
     for _ in &namespace.namespace.0 {
         ctx.symtab.pop_namespace();
@@ -711,7 +713,9 @@ fn lower_ast(
         }
         ctx.symtab
             .set_base_namespace(namespace.base_namespace.clone());
+        let scope = ctx.symtab.current_scope();
         visit_module_body(module_ast, ctx).or_report(errors);
+        ctx.symtab.close_scopes_after(scope);
         ctx.symtab.set_base_namespace(SpadePath(vec![]));
         for _ in &namespace.namespace.0 {
             ctx.symtab.pop_namespace();
diff --git a/spade-hir/src/symbol_table.rs b/spade-hir/src/symbol_table.rs
index 119ded4..62e8296 100644
--- a/spade-hir/src/symbol_table.rs
+++ b/spade-hir/src/symbol_table.rs
@@ -612,6 +612,14 @@ impl SymbolTable {
         self.symbols.len() - 1
     }
 
+    /// Closes all scopes that were opened after `scope` was the `current_scope`, for example
+    /// those which an error kept from being closed
+    pub fn close_scopes_after(&mut self, scope: usize) {
+        while self.current_scope() > scope {
+            self.close_scope();
+        }
+    }
+
     pub fn things_and_types<'a>(&'a self) -> Vec<(&'a NameID, ThingOrType<'a>)> {
         self.things
             .iter()
-- 
2.43.0


From 10b13df3eefdbf8c80cf4683c7d471e888e51cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:13 +0000
Subject: [PATCH 37/49] fix: report incomplete field accesses in units that are
 never used

---
 spade-typeinference/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index e45d032..15c224c 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -1254,13 +1254,15 @@ impl TypeState {
                 self.visit_array_shorthand_literal(expression, ctx, generic_list)?
             }
             ExprKind::Incomplete(
-                _,
+                diag,
                 IncompleteExpression::IncompleteDot {
                     base,
                     has_inst: _,
                     has_depth: _,
                 },
             ) => {
+                // Generic units that are never instantiated are not lowered, report this here
+                self.owned.diags.errors.push(diag.clone());
                 self.visit_expression(base, ctx, generic_list);
 
                 new_type
-- 
2.43.0


From 744a4b0e7cd08ccb64e2f1e02277337d21b75daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 38/49] fix: compute undefined initial values from undefined
 operands

---
 spade-mir/src/eval.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/spade-mir/src/eval.rs b/spade-mir/src/eval.rs
index be0abb2..72a3046 100644
--- a/spade-mir/src/eval.rs
+++ b/spade-mir/src/eval.rs
@@ -235,7 +235,23 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
 
                 name_types.insert(name.inner.clone(), ty.clone());
 
+                let has_undef = ops
+                    .iter()
+                    .any(|op| matches!(name_vals.get(op), Some(Value::Undef(_))));
+
                 let val = match operator {
+                    // What is computed from an undefined value is undefined
+                    Operator::Add
+                    | Operator::UnsignedAdd
+                    | Operator::Sub
+                    | Operator::UnsignedSub
+                    | Operator::USub
+                    | Operator::IndexArray
+                    | Operator::IndexTuple(_)
+                        if has_undef =>
+                    {
+                        Value::Undef(ty.size())
+                    }
                     Operator::Add => Value::Int {
                         size: ty.size(),
                         val: name_vals[&ops[0]].assume_int() + name_vals[&ops[1]].assume_int(),
-- 
2.43.0


From 1245b060efd5a528e17e89d785a590255487953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 39/49] fix: check the use of wires in asserted expressions

---
 spade-hir-lowering/src/linear_check/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spade-hir-lowering/src/linear_check/mod.rs b/spade-hir-lowering/src/linear_check/mod.rs
index 6cec91d..40bac75 100644
--- a/spade-hir-lowering/src/linear_check/mod.rs
+++ b/spade-hir-lowering/src/linear_check/mod.rs
@@ -136,7 +136,10 @@ pub fn visit_statement(
             None => {}
         },
         Statement::Label(_) => {}
-        Statement::Assert(_) => {}
+        Statement::Assert(expr) => {
+            visit_expression(expr, linear_state, ctx)?;
+            linear_state.consume_expression(expr)?;
+        }
         Statement::Set { target, value } => {
             visit_expression(target, linear_state, ctx)?;
             visit_expression(value, linear_state, ctx)?;
-- 
2.43.0


From 5d7057b50ad4808745abfeb1ab6462d922d0374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:22 +0000
Subject: [PATCH 40/49] fix: drive the sliced elements of an array of inverted
 wires, and no others

---
 .../src/linear_check/linear_state.rs          | 16 +++++++
 spade-hir-lowering/src/linear_check/mod.rs    | 48 +++++++++++++++----
 spade-mir/src/codegen/mod.rs                  |  2 +-
 3 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/spade-hir-lowering/src/linear_check/linear_state.rs b/spade-hir-lowering/src/linear_check/linear_state.rs
index 94e8d0c..1bc014e 100644
--- a/spade-hir-lowering/src/linear_check/linear_state.rs
+++ b/spade-hir-lowering/src/linear_check/linear_state.rs
@@ -594,6 +594,22 @@ impl LinearState {
         })
     }
 
+    /// Adds `from` as an alias to the elements `start..end` of the array `base_expr`. Panics if
+    /// base_expr is not an array with at least `end` elements
+    pub fn alias_array_range(
+        &mut self,
+        to: Loc<ExprID>,
+        base_expr: ExprID,
+        start: Option<usize>,
+        end: Option<usize>,
+    ) -> Result<(), Diagnostic> {
+        self.alias_subtree(to, base_expr, |base_tree| {
+            let subtrees = base_tree.assume_array();
+            let range = start.unwrap_or(0)..end.unwrap_or(subtrees.len());
+            Rc::new(RefCell::new(LinearTree::array(subtrees[range].to_vec())))
+        })
+    }
+
     /// Adds `from` as an alias to the tree at `base_expr.struct_member`. Panics if base_expr is not
     /// a struct with at least idx elements
     pub fn alias_struct_member(
diff --git a/spade-hir-lowering/src/linear_check/mod.rs b/spade-hir-lowering/src/linear_check/mod.rs
index 40bac75..ac40b07 100644
--- a/spade-hir-lowering/src/linear_check/mod.rs
+++ b/spade-hir-lowering/src/linear_check/mod.rs
@@ -8,12 +8,13 @@ use spade_common::{
 use spade_diagnostics::diagnostic::Subdiagnostic;
 use spade_diagnostics::{Diagnostic, diag_bail};
 use spade_hir::{
-    ArgumentList, Binding, ExprKind, Expression, Input, PipelineRegMarkerExtra, Register,
-    Statement, TypeList,
+    ArgumentList, Binding, ConstGenericWithId, ExprKind, Expression, Input, PipelineRegMarkerExtra,
+    Register, Statement, TypeList,
     expression::{NamedArgument, UnaryOperator},
     symbol_table::SymbolTable,
 };
 use spade_typeinference::TypeState;
+use spade_types::ConcreteType;
 
 use self::linear_state::{LinearState, is_linear};
 use crate::error::Result;
@@ -284,15 +285,42 @@ fn visit_expression(
 
             linear_state.consume_expression(idx_expr)?;
         }
-        spade_hir::ExprKind::RangeIndex {
-            target,
-            start: _,
-            end: _,
-        } => {
+        spade_hir::ExprKind::RangeIndex { target, start, end } => {
             visit_expression(target, linear_state, ctx)?;
-            // We don't track individual elements of arrays, so we'll have to consume the
-            // whole thing here
-            linear_state.consume_expression(target)?;
+
+            if is_linear(
+                &ctx.type_state
+                    .concrete_type_of(target, ctx.symtab, ctx.types)?,
+            ) {
+                let resolve = |bound: &Option<Loc<ConstGenericWithId>>| {
+                    bound
+                        .as_ref()
+                        .map(|bound| {
+                            match ctx
+                                .type_state
+                                .concrete_type_of(bound, ctx.symtab, ctx.types)?
+                            {
+                                ConcreteType::Integer(val) => val.to_usize().ok_or_else(|| {
+                                    Diagnostic::error(bound, "Range index is out of bounds")
+                                        .primary_label(format!("Inferred range bound {val}"))
+                                }),
+                                other => {
+                                    diag_bail!(bound, "Inferred {other} for type level integer")
+                                }
+                            }
+                        })
+                        .transpose()
+                };
+
+                linear_state.alias_array_range(
+                    expr.id.at_loc(expr),
+                    target.id,
+                    resolve(start)?,
+                    resolve(end)?,
+                )?;
+            } else {
+                linear_state.consume_expression(target)?;
+            }
         }
         spade_hir::ExprKind::TupleIndex(base, idx) => {
             visit_expression(base, linear_state, ctx)?;
diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 6450280..bbbf85a 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -877,7 +877,7 @@ fn backward_expression_code(
             end_exclusive: end,
         } => {
             let (member_size, input_length) = match &types[&ops[0]] {
-                Type::Array { inner, length } => (inner.size(), length),
+                Type::Array { inner, length } => (inner.backward_size(), length),
                 _ => panic!("Range index with non-array input"),
             };
             let elems = end - start;
-- 
2.43.0


From c011f72dd9617ab1580160189c6390ad5e92b749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:36 +0000
Subject: [PATCH 41/49] fix: slice the payload's bits in enum_clock_gating

---
 spade-mir/src/codegen/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index bbbf85a..c00fd82 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -538,7 +538,11 @@ fn forward_expression_code(
             if end_exclusive - start == 1u32.to_biguint() {
                 format!("{}[{start}]", op_names[0])
             } else {
-                format!("{}[{end_exclusive}:{start}]", op_names[0])
+                format!(
+                    "{}[{end}:{start}]",
+                    op_names[0],
+                    end = end_exclusive - 1u32.to_biguint()
+                )
             }
         }
         Operator::DeclClockedMemory { initial } => {
-- 
2.43.0


From d51f323b0a585f61142aaf9d421d8fda44c7770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:36 +0000
Subject: [PATCH 42/49] fix: leave enums without a payload to themselves in
 enum_clock_gating

---
 spade-mir/src/passes/auto_clock_gating.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spade-mir/src/passes/auto_clock_gating.rs b/spade-mir/src/passes/auto_clock_gating.rs
index 6000e9e..edf3436 100644
--- a/spade-mir/src/passes/auto_clock_gating.rs
+++ b/spade-mir/src/passes/auto_clock_gating.rs
@@ -69,7 +69,11 @@ impl RegExt for Loc<&Register> {
         }
         match &self.ty {
             crate::types::Type::Enum(variants) => {
-                if variants.len() == 2 && variants[0].len() == 0 {
+                // Without a payload there is nothing to gate
+                let has_payload = variants
+                    .get(1)
+                    .is_some_and(|v| v.iter().any(|ty| ty.size() != 0u32.to_biguint()));
+                if variants.len() == 2 && variants[0].len() == 0 && has_payload {
                     let mut new_statements = vec![];
 
                     let tag_reg_name = ValueName::Expr(expr_idtracker.next()).at_loc(self);
-- 
2.43.0


From 8bcce579a9dce6f3e662eb211a6eac145052ae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:36 +0000
Subject: [PATCH 43/49] fix: reset the parts of a split register to their parts
 of the value

---
 spade-mir/src/passes/split_compound_regs.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/spade-mir/src/passes/split_compound_regs.rs b/spade-mir/src/passes/split_compound_regs.rs
index 5d101d4..eac3a61 100644
--- a/spade-mir/src/passes/split_compound_regs.rs
+++ b/spade-mir/src/passes/split_compound_regs.rs
@@ -55,12 +55,30 @@ fn generate_split_code(
                 loc: None,
             });
 
+            let (reset, reset_stmt) = match &reg.reset {
+                Some((trigger, value)) => {
+                    let reset_name = ValueName::Expr(expr_idtracker.next()).at_loc(reg);
+                    let reset_stmt = Statement::Binding(Binding {
+                        name: reset_name.clone(),
+                        operator: Operator::IndexTuple(i as u64),
+                        operands: vec![value.clone()],
+                        ty: member.clone(),
+                        loc: None,
+                    });
+                    (
+                        Some((trigger.clone(), reset_name)),
+                        Some(reset_stmt.at_loc(reg)),
+                    )
+                }
+                None => (None, None),
+            };
+
             let reg_stmts = split_compound_reg(
                 &Register {
                     name: reg_name.clone(),
                     ty: member.clone(),
                     clock: reg.clock.clone(),
-                    reset: reg.reset.clone(),
+                    reset,
                     initial: None,
                     value: split_name.clone(),
                     loc: None,
@@ -71,6 +89,7 @@ fn generate_split_code(
 
             let split_stmts = vec![split_stmt.at_loc(reg)]
                 .into_iter()
+                .chain(reset_stmt)
                 .chain(reg_stmts)
                 .collect::<Vec<_>>();
 
-- 
2.43.0


From 057236d9cca75ab07a61fee97b7822f1f4607f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:07 +0000
Subject: [PATCH 44/49] fix: leave type level divisions by zero unevaluated
 instead of panicking

---
 spade-typeinference/src/constraints.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spade-typeinference/src/constraints.rs b/spade-typeinference/src/constraints.rs
index d142e8e..ebb18d0 100644
--- a/spade-typeinference/src/constraints.rs
+++ b/spade-typeinference/src/constraints.rs
@@ -207,6 +207,15 @@ impl ConstraintExpr {
             ConstraintExpr::Sum(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l + r),
             ConstraintExpr::Difference(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l - r),
             ConstraintExpr::Product(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l * r),
+            // Division by zero has no value, so those expressions are left unevaluated
+            ConstraintExpr::Div(_, rhs) | ConstraintExpr::Mod(_, rhs)
+                if matches!(
+                    rhs.evaluate(type_state),
+                    ConstraintExpr::Integer(divisor) if divisor == BigInt::ZERO
+                ) =>
+            {
+                self.clone()
+            }
             ConstraintExpr::Div(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l / r),
             ConstraintExpr::Mod(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l % r),
             ConstraintExpr::Sub(inner) => match inner.evaluate(type_state) {
-- 
2.43.0


From b1c0a26fba303065c3a96c09d0a6e52607797218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 45/49] fix: extend and reduce values of size zero, which have
 no name in the Verilog

---
 spade-mir/src/codegen/mod.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index c00fd82..bea232c 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -271,12 +271,20 @@ fn forward_expression_code(
     }
 
     macro_rules! unop {
-        ($verilog:expr) => {{
+        ($verilog:expr $(; zst => $on_zero:expr)?) => {{
             assert!(
                 binding.operands.len() == 1,
                 "expected 1 operands to binary operator"
             );
-            format!("{}{}", $verilog, op_names[0])
+            #[allow(unused_mut)]
+            let mut result = format!("{}{}", $verilog, op_names[0]);
+
+            $(
+                if types[&ops[0]].size() == BigUint::ZERO {
+                    result = $on_zero.to_string();
+                }
+            )?
+            result
         }};
     }
 
@@ -326,9 +334,9 @@ fn forward_expression_code(
         Operator::BitwiseXor => binop!("^"),
         Operator::USub => unop!("-"),
         Operator::Not => unop!("!"),
-        Operator::ReduceAnd => unop!("&"),
-        Operator::ReduceOr => unop!("|"),
-        Operator::ReduceXor => unop!("^"),
+        Operator::ReduceAnd => unop!("&"; zst => "1'b1"),
+        Operator::ReduceOr => unop!("|"; zst => "1'b0"),
+        Operator::ReduceXor => unop!("^"; zst => "1'b0"),
         Operator::DivPow2 => {
             // Split into 3 cases: if the division amount is 2^0, nothing should
             // be done. Must be handled as a special case of the rest of the computation
@@ -377,7 +385,10 @@ fn forward_expression_code(
         Operator::SignExtend => {
             let operand_size = types[&ops[0]].size();
             let self_size = self_type.size();
-            if self_size > operand_size {
+            if operand_size == BigUint::ZERO {
+                // Zero size operands have no bits to copy, nor a name in the Verilog
+                format!("{self_size}'b0")
+            } else if self_size > operand_size {
                 let extra_bits = self_size - &operand_size;
                 let sign_bit = if operand_size == 1u32.to_biguint() {
                     // Single bits are scalars, which can't be indexed
@@ -405,7 +416,10 @@ fn forward_expression_code(
         Operator::ZeroExtend => {
             let operand_size = types[&ops[0]].size();
             let self_size = self_type.size();
-            if self_size > operand_size {
+            if operand_size == BigUint::ZERO {
+                // Zero size operands have no name in the Verilog
+                format!("{self_size}'b0")
+            } else if self_size > operand_size {
                 let extra_bits = self_size - operand_size;
                 format!("{{{}'b0, {}}}", extra_bits, op_names[0])
             } else {
-- 
2.43.0


From 46af62302ee9e8307045f85358d1922a2c5e9c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 46/49] fix: report types and texts used as integers in const
 generics and where clauses as errors

---
 spade-ast-lowering/src/impls.rs         | 18 ++++++++++++++----
 spade-typeinference/src/requirements.rs | 12 ++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/spade-ast-lowering/src/impls.rs b/spade-ast-lowering/src/impls.rs
index 0e1b6fd..faa535f 100644
--- a/spade-ast-lowering/src/impls.rs
+++ b/spade-ast-lowering/src/impls.rs
@@ -1102,6 +1102,16 @@ fn map_trait_method_parameters(
     })
 }
 
+/// A type is given for a parameter which the trait uses as a value
+fn type_in_const_generic(
+    cg: &Loc<hir::ConstGeneric>,
+    given: &Loc<hir::TypeExpression>,
+) -> Diagnostic {
+    Diagnostic::error(given, "Expected a value, got a type")
+        .primary_label("Expected a value")
+        .secondary_label(cg, "The parameter is used as a value here")
+}
+
 fn map_const_generic_to_trait(
     cg: &Loc<hir::ConstGeneric>,
     trait_type_params: &[Loc<hir::TypeParam>],
@@ -1137,9 +1147,9 @@ fn map_const_generic_to_trait(
                             "Cannot substitute hidden type generic into const generic",
                         )),
                     },
-                    hir::TypeExpression::TypeSpec(_) => Err(Diagnostic::bug(
+                    hir::TypeExpression::TypeSpec(_) => Err(type_in_const_generic(
                         cg,
-                        "Cannot substitute type spec into const generic",
+                        &impl_type_params[param_idx],
                     )),
                     hir::TypeExpression::Bool(b) => Ok(hir::ConstGeneric::Bool(*b)),
                     hir::TypeExpression::Integer(i) => Ok(hir::ConstGeneric::Int(i.clone())),
@@ -1161,9 +1171,9 @@ fn map_const_generic_to_trait(
                                 "Cannot substitute hidden type generic into const generic",
                             )),
                         },
-                        hir::TypeExpression::TypeSpec(_) => Err(Diagnostic::bug(
+                        hir::TypeExpression::TypeSpec(_) => Err(type_in_const_generic(
                             cg,
-                            "Cannot substitute type spec into const generic",
+                            &impl_method_type_params[param_idx],
                         )),
                         hir::TypeExpression::Bool(b) => Ok(hir::ConstGeneric::Bool(*b)),
                         hir::TypeExpression::Integer(i) => Ok(hir::ConstGeneric::Int(i.clone())),
diff --git a/spade-typeinference/src/requirements.rs b/spade-typeinference/src/requirements.rs
index fe750ef..7bb3180 100644
--- a/spade-typeinference/src/requirements.rs
+++ b/spade-typeinference/src/requirements.rs
@@ -638,11 +638,9 @@ impl Requirement {
                     Ok(RequirementResult::NoChange)
                 }
                 (TypeVar::Known(_, KnownType::Integer(_), _), _) => {
-                    diag_bail!(rhs, "Found non-integer in where clause inequality")
-                }
-                (_, TypeVar::Known(_, _, _)) => {
-                    diag_bail!(lhs, "Found non-integer in where clause inequality")
+                    Err(non_integer_inequality(rhs))
                 }
+                (_, TypeVar::Known(_, _, _)) => Err(non_integer_inequality(lhs)),
             },
             Requirement::SharedBase(types) => {
                 let first_known = types
@@ -711,6 +709,12 @@ impl Requirement {
     }
 }
 
+/// Only integers can be compared by the inequalities of where clauses
+fn non_integer_inequality(loc: &Loc<TypeVarID>) -> Diagnostic {
+    Diagnostic::error(loc, "Expected an integer in a where clause inequality")
+        .primary_label("This is not an integer")
+}
+
 pub struct Replacement {
     pub from: Loc<TypeVarID>,
     pub to: TypeVarID,
-- 
2.43.0


From 0ff1e0cda33d9502ebff702a5ca9bd554b3a810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 47/49] fix: check exhaustiveness without visiting all values
 of columns that no pattern looks into

---
 spade-hir-lowering/src/usefulness.rs | 74 +++++++++++++++++++++++++++-
 1 file changed, 73 insertions(+), 1 deletion(-)

diff --git a/spade-hir-lowering/src/usefulness.rs b/spade-hir-lowering/src/usefulness.rs
index 246be49..aefd33c 100644
--- a/spade-hir-lowering/src/usefulness.rs
+++ b/spade-hir-lowering/src/usefulness.rs
@@ -4,7 +4,8 @@
 // See https://github.com/rust-lang/rust/blob/da895e7938e8d6f8d221fce2876d225bf58df865/COPYRIGHT for the rustc copyright
 
 use itertools::Itertools;
-use spade_types::ConcreteType;
+use num::ToPrimitive;
+use spade_types::{ConcreteType, PrimitiveType};
 
 use crate::pattern::{Constructor, DeconstructedPattern};
 
@@ -194,6 +195,26 @@ impl Usefulness {
         }
     }
 
+    /// The only witness is a wildcard
+    fn new_wildcard(ty: &ConcreteType) -> Self {
+        Self {
+            witnesses: vec![Witness(vec![DeconstructedPattern::wildcard(ty)])],
+        }
+    }
+
+    /// All combinations of a witness of `self` for the first pattern and one of `rest` for the
+    /// patterns after it
+    fn prepend_to(self, rest: &Self) -> Self {
+        let with_rest = |head: Witness| {
+            rest.witnesses
+                .iter()
+                .map(move |rest| Witness([rest.0.clone(), head.0.clone()].concat()))
+        };
+        Self {
+            witnesses: self.witnesses.into_iter().flat_map(with_rest).collect(),
+        }
+    }
+
     fn extend(&mut self, other: Self) {
         match (self.witnesses.is_empty(), other.witnesses.is_empty()) {
             (_, true) => {}
@@ -213,6 +234,35 @@ impl std::fmt::Display for Usefulness {
     }
 }
 
+/// More witnesses than this are grouped
+const MAX_WITNESSES: usize = 256;
+
+/// The number of witnesses that cover every value of `ty`
+fn num_witnesses(ty: &ConcreteType) -> usize {
+    let product = |types: Vec<ConcreteType>| {
+        types
+            .iter()
+            .map(num_witnesses)
+            .fold(1, usize::saturating_mul)
+    };
+    match ty {
+        ConcreteType::Array { inner, size } => {
+            num_witnesses(inner).saturating_pow(size.to_u32().unwrap_or(u32::MAX))
+        }
+        ConcreteType::Single {
+            base: PrimitiveType::Bool,
+            ..
+        } => 2,
+        ConcreteType::Tuple(_) | ConcreteType::Struct { .. } => {
+            product(Constructor::Single.fields(ty))
+        }
+        ConcreteType::Enum { options } => (0..options.len())
+            .map(|option| product(Constructor::Variant(option).fields(ty)))
+            .fold(0, usize::saturating_add),
+        _ => 1,
+    }
+}
+
 /// Checks if `pattern` is useful with respect to `prev_patterns`, that is, if the
 /// pattern matches some value which is not matched by any pattern in `prev_patterns`
 pub(crate) fn is_useful(pattern: &PatStack, prev_patterns: &Matrix) -> Usefulness {
@@ -227,6 +277,28 @@ pub(crate) fn is_useful(pattern: &PatStack, prev_patterns: &Matrix) -> Usefulnes
     let v_ctor = &pattern.head().ctor;
 
     let ty = &pattern.head().ty;
+
+    // When no pattern looks into this column, all its values are useful or none are. Visiting
+    // the rest once for each of them would take time exponential in the number of such columns
+    let is_wildcard = |stack: &PatStack| matches!(stack.head().ctor, Constructor::Wildcard);
+    if matches!(ty, ConcreteType::Enum { .. } | ConcreteType::Array { .. })
+        && is_wildcard(pattern)
+        && prev_patterns.rows().iter().all(is_wildcard)
+    {
+        let rest = |stack: &PatStack| PatStack::new(stack.pats[1..].to_vec());
+        let prev_rest = prev_patterns.rows().iter().map(rest).collect::<Vec<_>>();
+        let rest = is_useful(&rest(pattern), &Matrix::new(&prev_rest));
+
+        if !rest.is_useful() {
+            return rest;
+        } else if num_witnesses(ty).saturating_mul(rest.witnesses.len()) > MAX_WITNESSES {
+            return Usefulness::new_wildcard(ty).prepend_to(&rest);
+        } else if pattern.pats.len() > 1 {
+            let head = PatStack::new(vec![pattern.head().clone()]);
+            return is_useful(&head, &Matrix::empty()).prepend_to(&rest);
+        }
+    }
+
     let split_ctors = v_ctor.split(
         ty,
         prev_patterns
-- 
2.43.0


From a90990aa20577ef53e2535edbec91257de6ee198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 48/49] fix: check matches on copy views, clocks and tristate
 values for exhaustiveness

---
 spade-hir-lowering/src/pattern.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index cdc5c50..53224ff 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -130,13 +130,13 @@ pub(crate) fn split_wildcard(
 
                 group_missing_constructors(all_ctors, other_ctors)
             }
-            // Bit literals can't be matched on because you can't compare against z in hardware
-            spade_types::PrimitiveType::Tri => vec![],
-            // Special types for which there are no constructors which makes matching
-            // on them impossible
-            spade_types::PrimitiveType::Clock
+            // Bit literals can't be matched on because you can't compare against z in hardware,
+            // and the special types have no patterns. Wildcards are all that match them, but
+            // they do have values
+            spade_types::PrimitiveType::Tri
+            | spade_types::PrimitiveType::Clock
             | spade_types::PrimitiveType::Memory
-            | spade_types::PrimitiveType::InOut => vec![],
+            | spade_types::PrimitiveType::InOut => vec![Constructor::Single],
         },
         ConcreteType::Backward(_) => vec![Constructor::Single],
         ConcreteType::CopyView(_) => vec![Constructor::Single],
@@ -275,7 +275,8 @@ impl Constructor {
                 ConcreteType::Bool(_) => unreachable!("Pattern matching on type level bool"),
                 ConcreteType::String(_) => unreachable!("Pattern matching on type level string"),
                 ConcreteType::Backward(_) => vec![],
-                ConcreteType::CopyView(inner) => self.fields(inner),
+                // Patterns can't look through copy views
+                ConcreteType::CopyView(_) => vec![],
             },
             Constructor::Variant(idx) => match ty {
                 ConcreteType::Enum { options } => {
@@ -442,8 +443,7 @@ impl std::fmt::Display for DeconstructedPattern {
                 ConcreteType::Integer(_) => unreachable!("Pattern on type level integer"),
                 ConcreteType::Bool(_) => unreachable!("Pattern on type level bool"),
                 ConcreteType::String(_) => unreachable!("Pattern on a type level string"),
-                ConcreteType::Backward(_) => unreachable!("Pattern on backward type"),
-                ConcreteType::CopyView(_) => unreachable!("Pattern on copy view"),
+                ConcreteType::Backward(_) | ConcreteType::CopyView(_) => write!(f, "_"),
             },
             Constructor::Variant(idx) => match &self.ty {
                 ConcreteType::Enum { options } => {
-- 
2.43.0


From fb249309feab527453eabb5177672c9a4f350583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:05 +0000
Subject: [PATCH 49/49] fix: accept values for trait parameters used in the
 types of methods, report types and values mixed up

---
 spade-ast-lowering/src/impls.rs | 60 ++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/spade-ast-lowering/src/impls.rs b/spade-ast-lowering/src/impls.rs
index faa535f..5d4c686 100644
--- a/spade-ast-lowering/src/impls.rs
+++ b/spade-ast-lowering/src/impls.rs
@@ -604,10 +604,11 @@ fn check_generic_params_match_trait_def(
                 let mut diag =
                     Diagnostic::error(generic_spec, "Wrong number of generic type parameters")
                         .secondary_label(
-                            ().between_locs(
-                                &generic_params[0],
-                                &generic_params[generic_params.len() - 1],
-                            ),
+                            match generic_params.as_slice() {
+                                [] => generic_params.loc(),
+                                [first, .., last] => ().between_locs(first, last),
+                                [only] => only.loc(),
+                            },
                             format!(
                                 "Because this has {} type parameter{}",
                                 generic_params.len(),
@@ -1112,6 +1113,13 @@ fn type_in_const_generic(
         .secondary_label(cg, "The parameter is used as a value here")
 }
 
+/// A value is given for a parameter which the trait uses as a type
+fn value_in_type(ty: &Loc<hir::TypeSpec>, given: &Loc<hir::TypeExpression>) -> Diagnostic {
+    Diagnostic::error(given, "Expected a type, got a value")
+        .primary_label("Expected a type")
+        .secondary_label(ty, "The parameter is used as a type here")
+}
+
 fn map_const_generic_to_trait(
     cg: &Loc<hir::ConstGeneric>,
     trait_type_params: &[Loc<hir::TypeParam>],
@@ -1268,6 +1276,16 @@ fn map_type_expr_to_trait(
         hir::TypeExpression::Integer(_) => Ok(te.clone()),
         hir::TypeExpression::String(_) => Ok(te.clone()),
         hir::TypeExpression::TypeSpec(s) => {
+            // Parameters of the trait can stand for values
+            if let hir::TypeSpec::Generic(name) = s {
+                let param_idx = trait_type_params.iter().position(|tp| &tp.name == name);
+                if let Some(value) = param_idx.map(|idx| &impl_type_params[idx])
+                    && !matches!(value.inner, hir::TypeExpression::TypeSpec(_))
+                {
+                    return Ok(value.inner.clone().at_loc(te));
+                }
+            }
+
             let (inner, loc) = map_type_spec_to_trait(
                 &s.clone().at_loc(te),
                 trait_type_params,
@@ -1328,18 +1346,11 @@ fn map_type_spec_to_trait(
             if let Some(param_idx) = param_idx {
                 impl_type_params[param_idx].try_map_ref(|te| match &te {
                     hir::TypeExpression::TypeSpec(spec) => Ok(spec.clone()),
-                    hir::TypeExpression::Bool(_) => Err(Diagnostic::bug(
-                        &impl_type_params[param_idx],
-                        "Expected a TypeExpression::TypeSpec, found TypeExpression::Bool",
-                    )),
-                    hir::TypeExpression::Integer(_) => Err(Diagnostic::bug(
-                        &impl_type_params[param_idx],
-                        "Expected a TypeExpression::TypeSpec, found TypeExpression::Integer",
-                    )),
-                    hir::TypeExpression::String(_) => Err(Diagnostic::bug(
-                        &impl_type_params[param_idx],
-                        "Expected a TypeExpression::TypeSpec, found TypeExpression::String",
-                    )),
+                    hir::TypeExpression::Bool(_)
+                    | hir::TypeExpression::Integer(_)
+                    | hir::TypeExpression::String(_) => {
+                        Err(value_in_type(ty, &impl_type_params[param_idx]))
+                    }
                     hir::TypeExpression::ConstGeneric(_) => {
                         diag_bail!(ty, "Const generic in impl head")
                     }
@@ -1353,18 +1364,11 @@ fn map_type_spec_to_trait(
                 if let Some(param_idx) = param_idx {
                     impl_method_type_params[param_idx].try_map_ref(|te| match &te {
                         hir::TypeExpression::TypeSpec(spec) => Ok(spec.clone()),
-                        hir::TypeExpression::Bool(_) => Err(Diagnostic::bug(
-                            &impl_type_params[param_idx],
-                            "Expected a TypeExpression::TypeSpec, found TypeExpression::Bool",
-                        )),
-                        hir::TypeExpression::Integer(_) => Err(Diagnostic::bug(
-                            &impl_method_type_params[param_idx],
-                            "Expected a TypeExpression::TypeSpec, found TypeExpression::Integer",
-                        )),
-                        hir::TypeExpression::String(_) => Err(Diagnostic::bug(
-                            &impl_method_type_params[param_idx],
-                            "Expected a TypeExpression::TypeSpec, found TypeExpression::String",
-                        )),
+                        hir::TypeExpression::Bool(_)
+                        | hir::TypeExpression::Integer(_)
+                        | hir::TypeExpression::String(_) => {
+                            Err(value_in_type(ty, &impl_method_type_params[param_idx]))
+                        }
                         hir::TypeExpression::ConstGeneric(_) => {
                             diag_bail!(ty, "Const generic in impl head")
                         }
-- 
2.43.0

