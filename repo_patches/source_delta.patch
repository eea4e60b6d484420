From f5830426296270d08e2235a4954c6aabc77845dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:57 +0000
Subject: [PATCH 01/69] fix: resolve local-variable references, highlights,
 definitions and renames by Ruby's own scoping

References/highlights/definition used a second, approximate scope tree: lambdas
were not scopes, captured writes created new variables, shadowed outer
variables were reported too and keyword/block-local parameters were unknown.
Rename turned `{ x: }` into invalid syntax, renamed keyword parameters only in
the body and missed block-local variables.
---
 crates/ruby-analysis/src/indexer/mod.rs       |   2 +-
 crates/ruby-analysis/src/indexer/rename.rs    | 212 +++++++++++++++---
 .../src/indexer/ruby_document.rs              |  51 ++---
 src/capabilities/rename.rs                    |  30 ++-
 src/query/definition.rs                       |  47 +---
 src/query/references.rs                       |  68 ++----
 6 files changed, 247 insertions(+), 163 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/mod.rs b/crates/ruby-analysis/src/indexer/mod.rs
index 9ec3882..958edd2 100644
--- a/crates/ruby-analysis/src/indexer/mod.rs
+++ b/crates/ruby-analysis/src/indexer/mod.rs
@@ -49,7 +49,7 @@ pub use rbs_indexer::index_rbs;
 pub use receiver_resolution::{
     resolve_receiver_to_namespace, resolve_receiver_type, ReceiverResolutionContext,
 };
-pub use rename::RenameVisitor;
+pub use rename::{LocalOccurrence, LocalOccurrenceRole, RenameVisitor};
 pub use ruby_document::RubyDocument;
 pub use scope_tracker::{
     build_constant_path_name, collect_namespaces, constant_path_is_absolute,
diff --git a/crates/ruby-analysis/src/indexer/rename.rs b/crates/ruby-analysis/src/indexer/rename.rs
index 5b9f9d4..6a26673 100644
--- a/crates/ruby-analysis/src/indexer/rename.rs
+++ b/crates/ruby-analysis/src/indexer/rename.rs
@@ -20,17 +20,36 @@
 
 use crate::core::{SourceFileId, TextRange};
 use ruby_prism::{
-    visit_block_node, visit_block_parameter_node, visit_class_node, visit_def_node,
-    visit_lambda_node, visit_local_variable_and_write_node,
-    visit_local_variable_operator_write_node, visit_local_variable_or_write_node,
-    visit_local_variable_write_node, visit_module_node, visit_optional_parameter_node,
-    visit_singleton_class_node, BlockNode, BlockParameterNode, ClassNode, DefNode,
-    KeywordRestParameterNode, LambdaNode, LocalVariableAndWriteNode,
-    LocalVariableOperatorWriteNode, LocalVariableOrWriteNode, LocalVariableReadNode,
-    LocalVariableTargetNode, LocalVariableWriteNode, ModuleNode, Node, OptionalParameterNode,
-    RequiredParameterNode, RestParameterNode, SingletonClassNode, Visit,
+    visit_block_node, visit_block_parameter_node, visit_implicit_node, visit_lambda_node,
+    visit_local_variable_and_write_node, visit_local_variable_operator_write_node,
+    visit_local_variable_or_write_node, visit_local_variable_write_node,
+    visit_optional_keyword_parameter_node, visit_optional_parameter_node, BlockLocalVariableNode,
+    BlockNode, BlockParameterNode, ClassNode, DefNode, ImplicitNode, KeywordRestParameterNode,
+    LambdaNode, LocalVariableAndWriteNode, LocalVariableOperatorWriteNode,
+    LocalVariableOrWriteNode, LocalVariableReadNode, LocalVariableTargetNode,
+    LocalVariableWriteNode, ModuleNode, Node, OptionalKeywordParameterNode, OptionalParameterNode,
+    RequiredKeywordParameterNode, RequiredParameterNode, RestParameterNode, SingletonClassNode,
+    Visit,
 };
 
+/// How one occurrence binds or uses a local variable.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum LocalOccurrenceRole {
+    Read,
+    Definition,
+    /// A keyword parameter: its name is also the callable's keyword.
+    KeywordParameter,
+    /// `{ x: }`, as a value or as a pattern: the name is also a hash key.
+    Shorthand,
+}
+
+/// One occurrence of a local variable; `range` covers exactly its name.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub struct LocalOccurrence {
+    pub range: TextRange,
+    pub role: LocalOccurrenceRole,
+}
+
 #[derive(Debug, Clone, Copy, PartialEq)]
 enum Phase {
     FindTarget,
@@ -46,20 +65,46 @@ pub struct RenameVisitor {
     // Phase 1 output: the variable we're renaming
     target_name: Option<String>,
     target_scope_id: Option<usize>,
-    // Phase 2 output: all ranges to rename
-    rename_ranges: Vec<TextRange>,
+    // Phase 2 output: every occurrence of the variable
+    occurrences: Vec<LocalOccurrence>,
+    // Inside the implicit value of a `{ x: }` shorthand
+    in_shorthand: bool,
     phase: Phase,
 }
 
 impl RenameVisitor {
-    /// Find all rename target ranges for the local variable at `cursor_offset`.
+    /// Find the occurrences to rename for the local variable at `cursor_offset`.
     ///
-    /// Returns an empty Vec if the cursor is not on a local variable.
+    /// Returns an empty Vec if the cursor is not on a local variable, or if
+    /// renaming it inside this file cannot preserve behaviour: a keyword
+    /// parameter's name belongs to its callers, and implicit parameters such
+    /// as `_1` have no declaration.
     pub fn find_rename_targets(
         file_id: SourceFileId,
         cursor_offset: usize,
         root: &Node,
-    ) -> Vec<TextRange> {
+    ) -> Vec<LocalOccurrence> {
+        let occurrences = Self::find_occurrences(file_id, cursor_offset, root);
+        let has_definition = occurrences
+            .iter()
+            .any(|occurrence| occurrence.role != LocalOccurrenceRole::Read);
+        let is_keyword = occurrences
+            .iter()
+            .any(|occurrence| occurrence.role == LocalOccurrenceRole::KeywordParameter);
+        if !has_definition || is_keyword {
+            return Vec::new();
+        }
+        occurrences
+    }
+
+    /// Find every occurrence of the local variable at `cursor_offset`.
+    ///
+    /// Returns an empty Vec if the cursor is not on a local variable.
+    pub fn find_occurrences(
+        file_id: SourceFileId,
+        cursor_offset: usize,
+        root: &Node,
+    ) -> Vec<LocalOccurrence> {
         // Phase 1: Find the target variable
         let mut visitor = Self {
             file_id,
@@ -68,7 +113,8 @@ impl RenameVisitor {
             next_scope_id: 1,
             target_name: None,
             target_scope_id: None,
-            rename_ranges: Vec::new(),
+            occurrences: Vec::new(),
+            in_shorthand: false,
             phase: Phase::FindTarget,
         };
         visitor.visit(root);
@@ -83,7 +129,7 @@ impl RenameVisitor {
         visitor.next_scope_id = 1;
         visitor.visit(root);
 
-        visitor.rename_ranges
+        visitor.occurrences
     }
 
     fn push_scope(&mut self) {
@@ -103,25 +149,28 @@ impl RenameVisitor {
         self.scope_stack.get(idx).copied()
     }
 
-    fn cursor_in_location(&self, location: &ruby_prism::Location) -> bool {
-        self.cursor_offset >= location.start_offset() && self.cursor_offset < location.end_offset()
-    }
-
-    /// Process a local variable node (read, write, target, compound assignment).
+    /// Process one occurrence whose name starts at `start` and is `name_bytes`.
     fn process_local_var(
         &mut self,
         name_bytes: &[u8],
         depth: u32,
-        name_range_location: &ruby_prism::Location,
+        start: usize,
+        role: LocalOccurrenceRole,
     ) {
         let defining_scope = match self.defining_scope_id(depth) {
             Some(id) => id,
             None => return,
         };
+        let role = if self.in_shorthand {
+            LocalOccurrenceRole::Shorthand
+        } else {
+            role
+        };
+        let end = start + name_bytes.len();
 
         match self.phase {
             Phase::FindTarget => {
-                if self.target_name.is_none() && self.cursor_in_location(name_range_location) {
+                if self.target_name.is_none() && (start..end).contains(&self.cursor_offset) {
                     self.target_name = Some(String::from_utf8_lossy(name_bytes).to_string());
                     self.target_scope_id = Some(defining_scope);
                 }
@@ -134,44 +183,69 @@ impl RenameVisitor {
                     if name.as_ref() == target_name.as_str() && defining_scope == target_scope {
                         let range = TextRange::new(
                             self.file_id,
-                            u32::try_from(name_range_location.start_offset()).expect(
+                            u32::try_from(start).expect(
                                 "INVARIANT VIOLATED: rename start offset exceeded u32. This is a bug because TextRange stores u32 offsets. Fix: widen TextRange before accepting larger source files.",
                             ),
-                            u32::try_from(name_range_location.end_offset()).expect(
+                            u32::try_from(end).expect(
                                 "INVARIANT VIOLATED: rename end offset exceeded u32. This is a bug because TextRange stores u32 offsets. Fix: widen TextRange before accepting larger source files.",
                             ),
                         );
-                        self.rename_ranges.push(range);
+                        self.occurrences.push(LocalOccurrence { range, role });
                     }
                 }
             }
         }
     }
 
+    /// Process a write to a local variable.
+    fn process_definition(&mut self, name_bytes: &[u8], depth: u32, start: usize) {
+        self.process_local_var(name_bytes, depth, start, LocalOccurrenceRole::Definition);
+    }
+
     /// Process a parameter node (always depth=0 in its enclosing scope).
     fn process_parameter(&mut self, name_bytes: &[u8], location: &ruby_prism::Location) {
-        self.process_local_var(name_bytes, 0, location);
+        self.process_definition(name_bytes, 0, location.start_offset());
     }
 }
 
 impl Visit<'_> for RenameVisitor {
     // ── Scope-creating nodes ────────────────────────────────────────────
 
+    // Receivers, constant paths and superclasses are evaluated in the
+    // enclosing scope; only parameters and bodies belong to the new one.
+
     fn visit_def_node(&mut self, node: &DefNode) {
+        if let Some(receiver) = node.receiver() {
+            self.visit(&receiver);
+        }
         self.push_scope();
-        visit_def_node(self, node);
+        if let Some(parameters) = node.parameters() {
+            self.visit_parameters_node(&parameters);
+        }
+        if let Some(body) = node.body() {
+            self.visit(&body);
+        }
         self.pop_scope();
     }
 
     fn visit_class_node(&mut self, node: &ClassNode) {
+        self.visit(&node.constant_path());
+        if let Some(superclass) = node.superclass() {
+            self.visit(&superclass);
+        }
         self.push_scope();
-        visit_class_node(self, node);
+        if let Some(body) = node.body() {
+            self.visit(&body);
+        }
         self.pop_scope();
     }
 
     fn visit_module_node(&mut self, node: &ModuleNode) {
+        self.visit(&node.constant_path());
         self.push_scope();
-        visit_module_node(self, node);
+        if let Some(body) = node.body() {
+            self.visit(&body);
+        }
         self.pop_scope();
     }
 
@@ -188,8 +262,11 @@ impl Visit<'_> for RenameVisitor {
     }
 
     fn visit_singleton_class_node(&mut self, node: &SingletonClassNode) {
+        self.visit(&node.expression());
         self.push_scope();
-        visit_singleton_class_node(self, node);
+        if let Some(body) = node.body() {
+            self.visit(&body);
+        }
         self.pop_scope();
     }
 
@@ -199,33 +276,69 @@ impl Visit<'_> for RenameVisitor {
     // ── Local variable nodes ────────────────────────────────────────────
 
     fn visit_local_variable_read_node(&mut self, node: &LocalVariableReadNode) {
-        self.process_local_var(node.name().as_slice(), node.depth(), &node.location());
+        self.process_local_var(
+            node.name().as_slice(),
+            node.depth(),
+            node.location().start_offset(),
+            LocalOccurrenceRole::Read,
+        );
         // Leaf node — no children to visit
     }
 
+    fn visit_implicit_node(&mut self, node: &ImplicitNode) {
+        self.in_shorthand = true;
+        visit_implicit_node(self, node);
+        self.in_shorthand = false;
+    }
+
     fn visit_local_variable_write_node(&mut self, node: &LocalVariableWriteNode) {
         // Use name_loc() to only rename the name, not the entire assignment
-        self.process_local_var(node.name().as_slice(), node.depth(), &node.name_loc());
+        self.process_definition(
+            node.name().as_slice(),
+            node.depth(),
+            node.name_loc().start_offset(),
+        );
         visit_local_variable_write_node(self, node);
     }
 
     fn visit_local_variable_target_node(&mut self, node: &LocalVariableTargetNode) {
-        self.process_local_var(node.name().as_slice(), node.depth(), &node.location());
+        let name = node.name().as_slice();
+        let location = node.location();
+        // A regexp named capture is reported at the whole regexp.
+        let group = [b"(?<", name, b">"].concat();
+        let group_at = location
+            .as_slice()
+            .windows(group.len())
+            .position(|window| window == group.as_slice());
+        let start = location.start_offset() + group_at.map_or(0, |at| at + 3);
+        self.process_definition(name, node.depth(), start);
         // Leaf node — no children to visit
     }
 
     fn visit_local_variable_and_write_node(&mut self, node: &LocalVariableAndWriteNode) {
-        self.process_local_var(node.name().as_slice(), node.depth(), &node.name_loc());
+        self.process_definition(
+            node.name().as_slice(),
+            node.depth(),
+            node.name_loc().start_offset(),
+        );
         visit_local_variable_and_write_node(self, node);
     }
 
     fn visit_local_variable_or_write_node(&mut self, node: &LocalVariableOrWriteNode) {
-        self.process_local_var(node.name().as_slice(), node.depth(), &node.name_loc());
+        self.process_definition(
+            node.name().as_slice(),
+            node.depth(),
+            node.name_loc().start_offset(),
+        );
         visit_local_variable_or_write_node(self, node);
     }
 
     fn visit_local_variable_operator_write_node(&mut self, node: &LocalVariableOperatorWriteNode) {
-        self.process_local_var(node.name().as_slice(), node.depth(), &node.name_loc());
+        self.process_definition(
+            node.name().as_slice(),
+            node.depth(),
+            node.name_loc().start_offset(),
+        );
         visit_local_variable_operator_write_node(self, node);
     }
 
@@ -261,4 +374,29 @@ impl Visit<'_> for RenameVisitor {
         }
         // Leaf node
     }
+
+    fn visit_block_local_variable_node(&mut self, node: &BlockLocalVariableNode) {
+        self.process_parameter(node.name().as_slice(), &node.location());
+        // Leaf node
+    }
+
+    fn visit_required_keyword_parameter_node(&mut self, node: &RequiredKeywordParameterNode) {
+        self.process_local_var(
+            node.name().as_slice(),
+            0,
+            node.name_loc().start_offset(),
+            LocalOccurrenceRole::KeywordParameter,
+        );
+        // Leaf node
+    }
+
+    fn visit_optional_keyword_parameter_node(&mut self, node: &OptionalKeywordParameterNode) {
+        self.process_local_var(
+            node.name().as_slice(),
+            0,
+            node.name_loc().start_offset(),
+            LocalOccurrenceRole::KeywordParameter,
+        );
+        visit_optional_keyword_parameter_node(self, node);
+    }
 }
diff --git a/crates/ruby-analysis/src/indexer/ruby_document.rs b/crates/ruby-analysis/src/indexer/ruby_document.rs
index 5015728..95f1833 100644
--- a/crates/ruby-analysis/src/indexer/ruby_document.rs
+++ b/crates/ruby-analysis/src/indexer/ruby_document.rs
@@ -2,6 +2,7 @@ use crate::core::{RubyType, SourceFileId, SourcePosition, SourceRange, TextRange
 use ruby_prism::Location as PrismLocation;
 use url::Url;
 
+use super::rename::{LocalOccurrence, LocalOccurrenceRole, RenameVisitor};
 use crate::{is_erb_path, mask_erb, EmbeddedRuby, LVScopeId, SourceDocument, VariableScopes};
 
 /// A document representation that handles conversions between byte offsets and LSP positions
@@ -183,41 +184,33 @@ impl RubyDocument {
         )
     }
 
-    pub fn local_variable_definition_range_before(
-        &self,
-        name: &str,
-        byte_offset: u32,
-    ) -> Option<TextRange> {
+    /// Every occurrence of the local variable whose name contains `byte_offset`
+    /// or ends there, by the parser's own scope resolution. Empty when there is
+    /// none.
+    pub fn local_variable_occurrences_at(&self, byte_offset: u32) -> Vec<LocalOccurrence> {
+        let parse_result = self.parse();
+        let root = parse_result.node();
         let file_id = self.analysis_file_id();
-        let scope_id = self
-            .variable_scopes
-            .find_scope_for_variable_at(name, file_id, byte_offset)
-            .or_else(|| self.variable_scopes.scope_at_position(file_id, byte_offset))?;
-        let (_sid, variable) = self.variable_scopes.find_variable(name, scope_id)?;
-        if variable.definition_location.start_byte < byte_offset {
-            Some(variable.definition_location)
-        } else {
-            None
+        let cursor = byte_offset as usize;
+        let occurrences = RenameVisitor::find_occurrences(file_id, cursor, &root);
+        if !occurrences.is_empty() || cursor == 0 {
+            return occurrences;
         }
+        RenameVisitor::find_occurrences(file_id, cursor - 1, &root)
     }
 
-    pub fn local_variable_reference_ranges_at(
-        &self,
-        name: &str,
-        byte_offset: u32,
-    ) -> Vec<TextRange> {
-        let file_id = self.analysis_file_id();
-        let Some(scope_id) =
-            self.variable_scopes
-                .find_scope_for_variable_at(name, file_id, byte_offset)
-        else {
-            return Vec::new();
-        };
+    pub fn local_variable_definition_range_at(&self, byte_offset: u32) -> Option<TextRange> {
+        self.local_variable_occurrences_at(byte_offset)
+            .into_iter()
+            .filter(|occurrence| occurrence.role != LocalOccurrenceRole::Read)
+            .map(|occurrence| occurrence.range)
+            .min()
+    }
 
-        self.variable_scopes
-            .find_rename_targets(name, scope_id)
+    pub fn local_variable_reference_ranges_at(&self, byte_offset: u32) -> Vec<TextRange> {
+        self.local_variable_occurrences_at(byte_offset)
             .into_iter()
-            .map(|target| target.location)
+            .map(|occurrence| occurrence.range)
             .collect()
     }
 
diff --git a/src/capabilities/rename.rs b/src/capabilities/rename.rs
index e9d56f2..ddf468c 100644
--- a/src/capabilities/rename.rs
+++ b/src/capabilities/rename.rs
@@ -16,7 +16,9 @@ use crate::server::RubyLanguageServer;
 use crate::utils::lsp::{lsp_text_range, source_position};
 use ruby_analysis::core::{RubyConstant, RubyMethod};
 use ruby_analysis::engine::AnalysisQuery;
-use ruby_analysis::indexer::{Identifier, RenameVisitor, RubyDocument, RubyPrismAnalyzer};
+use ruby_analysis::indexer::{
+    Identifier, LocalOccurrenceRole, RenameVisitor, RubyDocument, RubyPrismAnalyzer,
+};
 
 pub async fn handle_prepare_rename(
     server: &RubyLanguageServer,
@@ -43,7 +45,7 @@ pub async fn handle_prepare_rename(
         RenameVisitor::find_rename_targets(doc.analysis_file_id(), cursor_offset, &root);
     if let Some(range) = local_ranges
         .into_iter()
-        .map(|range| lsp_text_range(&doc, range))
+        .map(|occurrence| lsp_text_range(&doc, occurrence.range))
         .find(|range| range_contains(*range, position))
     {
         return Some(PrepareRenameResponse::Range(range));
@@ -110,15 +112,27 @@ pub async fn handle_rename(
     let parse_result = doc.parse();
     let root = parse_result.node();
 
-    let ranges = RenameVisitor::find_rename_targets(doc.analysis_file_id(), cursor_offset, &root);
+    let occurrences =
+        RenameVisitor::find_rename_targets(doc.analysis_file_id(), cursor_offset, &root);
 
     let mut changes = HashMap::new();
-    if !ranges.is_empty() {
-        let edits = ranges
+    if !occurrences.is_empty() {
+        let edits = occurrences
             .into_iter()
-            .map(|range| TextEdit {
-                new_text: new_name.clone(),
-                range: lsp_text_range(&doc, range),
+            .map(|occurrence| {
+                let range = lsp_text_range(&doc, occurrence.range);
+                if occurrence.role != LocalOccurrenceRole::Shorthand {
+                    return TextEdit {
+                        new_text: new_name.clone(),
+                        range,
+                    };
+                }
+                // `{ x: }` keeps its key and names the value: `{ x: new_name }`
+                let after_colon = Position::new(range.end.line, range.end.character + 1);
+                TextEdit {
+                    new_text: format!(" {new_name}"),
+                    range: Range::new(after_colon, after_colon),
+                }
             })
             .collect();
         changes.insert(uri, edits);
diff --git a/src/query/definition.rs b/src/query/definition.rs
index 775ac3c..21890b4 100644
--- a/src/query/definition.rs
+++ b/src/query/definition.rs
@@ -3,9 +3,9 @@
 //! Consolidates definition logic from `capabilities/definitions/`.
 
 use log::info;
+use ruby_analysis::core::FullyQualifiedName;
 use ruby_analysis::core::NamespaceKind;
 use ruby_analysis::core::RubyConstant;
-use ruby_analysis::core::{FullyQualifiedName, SymbolKind};
 use ruby_analysis::engine::AnalysisQuery;
 use ruby_analysis::indexer::yard::YardParser;
 use ruby_analysis::indexer::{Identifier, MethodReceiver, RubyPrismAnalyzer};
@@ -45,6 +45,10 @@ impl EngineQuery {
             return self.find_yard_type_definitions(&yard_type.type_name, &ancestors);
         }
 
+        if let Some(locations) = self.find_local_variable_definitions_at_position(position) {
+            return Some(locations);
+        }
+
         if let Some(locations) = self.resolved_reference_definition_locations(position) {
             return Some(locations);
         }
@@ -96,26 +100,17 @@ impl EngineQuery {
         None
     }
 
-    /// Find definitions for a local variable using VariableScopes (position-based lookup)
+    /// Find the definition of the local variable at `position`, by the
+    /// parser's own scope resolution.
     fn find_local_variable_definitions_at_position(
         &self,
-        name: &str,
         position: Position,
     ) -> Option<Vec<Location>> {
-        let doc_arc = self.doc.as_ref()?;
-        let document = doc_arc.read();
-
+        let document = self.doc.as_ref()?.read();
         let byte_offset = document.position_to_analysis_offset(source_position(position));
         document
-            .local_variable_definition_range_before(name, byte_offset)
+            .local_variable_definition_range_at(byte_offset)
             .map(|range| vec![lsp_text_location(&document, range)])
-            .or_else(|| {
-                self.local_variable_definition_locations_from_analysis(
-                    name,
-                    document.analysis_file_id(),
-                    byte_offset,
-                )
-            })
     }
 
     /// Find definitions for a global variable.
@@ -307,8 +302,8 @@ impl EngineQuery {
             Identifier::RubyGlobalVariable { name, .. } => {
                 self.find_global_variable_definitions(name)
             }
-            Identifier::RubyLocalVariable { name, .. } => {
-                self.find_local_variable_definitions_at_position(name, position)
+            Identifier::RubyLocalVariable { .. } => {
+                self.find_local_variable_definitions_at_position(position)
             }
             Identifier::YardType { type_name, .. } => {
                 // YardType identifier doesn't have namespace context, use empty ancestors
@@ -427,24 +422,4 @@ impl EngineQuery {
             query.global_variable_definition_ranges(name),
         ))
     }
-
-    fn local_variable_definition_locations_from_analysis(
-        &self,
-        name: &str,
-        file_id: ruby_analysis::core::SourceFileId,
-        byte_offset: u32,
-    ) -> Option<Vec<Location>> {
-        let fqn = FullyQualifiedName::local_variable(name.to_string()).ok()?;
-        let engine = self.analysis_engine()?;
-        let engine = engine.read();
-        let range = engine
-            .symbol_facts_for(&fqn)
-            .into_iter()
-            .filter(|fact| fact.kind == SymbolKind::LocalVariable)
-            .filter(|fact| fact.range.file_id == file_id)
-            .filter(|fact| fact.range.start_byte < byte_offset)
-            .max_by_key(|fact| fact.range.start_byte)
-            .map(|fact| fact.range)?;
-        non_empty_locations(locations_for_ranges(&engine, vec![range]))
-    }
 }
diff --git a/src/query/references.rs b/src/query/references.rs
index a3f2e78..64c74ea 100644
--- a/src/query/references.rs
+++ b/src/query/references.rs
@@ -9,12 +9,9 @@ use ruby_analysis::core::RubyConstant;
 use ruby_analysis::core::RubyMethod;
 use ruby_analysis::core::SourceFileId;
 use ruby_analysis::core::TextRange;
-use ruby_analysis::indexer::fact_collector::{FactCollector, NullFactCollectorExtensionHost};
 use ruby_analysis::indexer::yard::YardTypeConverter;
 use ruby_analysis::indexer::{Identifier, MethodReceiver};
-use ruby_prism::Visit;
 use std::path::Path;
-use std::sync::Arc;
 use tower_lsp::lsp_types::{Location, Position, Range, Url};
 
 use super::analysis_location::{locations_for_ranges, non_empty_locations};
@@ -29,6 +26,10 @@ impl EngineQuery {
         position: Position,
         content: &str,
     ) -> Option<Vec<Location>> {
+        if let Some(locations) = self.find_local_variable_references(position) {
+            return Some(locations);
+        }
+
         let analyzer = self.analyzer_at_position(uri, content, position);
         let (identifier_opt, _, ancestors, _scope_stack, namespace_kind) =
             analyzer.get_identifier_at_position(source_position(position));
@@ -55,6 +56,10 @@ impl EngineQuery {
         position: Position,
         content: &str,
     ) -> Option<Vec<Location>> {
+        if let Some(locations) = self.find_local_variable_references(position) {
+            return Some(locations);
+        }
+
         let file_id = self.doc.as_ref()?.read().analysis_file_id();
         let analyzer = self.analyzer_at_position(uri, content, position);
         let (identifier_opt, _, ancestors, _scope_stack, namespace_kind) =
@@ -279,30 +284,12 @@ impl EngineQuery {
         None
     }
 
-    /// Find references to a local variable using VariableScopes.
-    fn find_local_variable_references(
-        &self,
-        name: &str,
-        position: Position,
-    ) -> Option<Vec<Location>> {
-        let doc_arc = self.doc.as_ref()?;
-        let document = doc_arc.read();
-
+    /// Find every occurrence of the local variable at `position`, by the
+    /// parser's own scope resolution.
+    fn find_local_variable_references(&self, position: Position) -> Option<Vec<Location>> {
+        let document = self.doc.as_ref()?.read();
         let byte_offset = document.position_to_analysis_offset(source_position(position));
-        let ranges = document.local_variable_reference_ranges_at(name, byte_offset);
-        if !ranges.is_empty() {
-            return Some(
-                ranges
-                    .into_iter()
-                    .map(|range| lsp_text_location(&document, range))
-                    .collect(),
-            );
-        }
-        drop(document);
-
-        self.rebuild_local_variable_scopes_for_open_document()?;
-        let document = doc_arc.read();
-        let ranges = document.local_variable_reference_ranges_at(name, byte_offset);
+        let ranges = document.local_variable_reference_ranges_at(byte_offset);
         if ranges.is_empty() {
             return None;
         }
@@ -449,9 +436,7 @@ impl EngineQuery {
                     None
                 }
             }
-            Identifier::RubyLocalVariable { name, .. } => {
-                self.find_local_variable_references(name, position)
-            }
+            Identifier::RubyLocalVariable { .. } => self.find_local_variable_references(position),
             Identifier::YardType { type_name, .. } => {
                 if let Some(fqn) = YardTypeConverter::parse_type_name_to_fqn_public(type_name) {
                     self.find_constant_references(&fqn)
@@ -509,10 +494,8 @@ impl EngineQuery {
                     None
                 }
             }
-            Identifier::RubyLocalVariable { name, .. } => {
-                // Locals are already document-scoped via VariableScopes.
-                self.find_local_variable_references(name, position)
-            }
+            // Locals are already document-scoped.
+            Identifier::RubyLocalVariable { .. } => self.find_local_variable_references(position),
             Identifier::YardType { type_name, .. } => {
                 if let Some(fqn) = YardTypeConverter::parse_type_name_to_fqn_public(type_name) {
                     self.same_file_fqn_highlight_locations(&fqn, file_id)
@@ -797,25 +780,6 @@ impl EngineQuery {
             query.reference_ranges_for_fqn(fqn),
         ))
     }
-
-    fn rebuild_local_variable_scopes_for_open_document(&self) -> Option<()> {
-        let doc_arc = self.doc.as_ref()?;
-        let document = doc_arc.read().clone();
-        let content = document.content.clone();
-        let parse_result = ruby_prism::parse(content.as_bytes());
-        let node = parse_result.node();
-        let mut collector = FactCollector::analysis_only(
-            document,
-            Arc::new(NullFactCollectorExtensionHost),
-            self.analysis_engine()?.clone(),
-        )
-        .without_analysis_method_return_resolution()
-        .without_expression_receiver_inference()
-        .without_diagnostics();
-        collector.visit(&node);
-        doc_arc.write().variable_scopes = collector.document.variable_scopes;
-        Some(())
-    }
 }
 
 enum MethodHighlightMode {
-- 
2.43.0


From 7f20731cb43d50284fd099f6bc25751fa274c90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:04 +0000
Subject: [PATCH 02/69] fix: do not pop a method scope that was never entered
 when locating the symbol at a position

Hovering anywhere in the header of a top-level `def self.x` panicked with an
execution-context underflow.
---
 .../src/indexer/identifier_visitor/def_node.rs         | 10 ++++++----
 .../src/indexer/identifier_visitor/mod.rs              |  6 ++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs
index c1e335e..a2ce469 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs
@@ -7,9 +7,10 @@ use crate::{analyzer_utils as utils, Identifier, LVScopeKind, MethodReceiver};
 use super::{IdentifierType, IdentifierVisitor};
 
 impl IdentifierVisitor {
-    pub fn process_def_node_entry(&mut self, node: &DefNode) {
+    /// Returns whether a method scope was pushed; only then may the exit pop it.
+    pub fn process_def_node_entry(&mut self, node: &DefNode) -> bool {
         if self.is_result_set() || !self.is_position_in_location(&node.location()) {
-            return;
+            return false;
         }
 
         let (definition_namespace, namespace_kind) = match node.receiver() {
@@ -17,7 +18,7 @@ impl IdentifierVisitor {
             Some(receiver) if receiver.as_self_node().is_some() => {
                 let (namespace, receiver_kind) = self.scope_tracker.implicit_receiver_context();
                 if receiver_kind != NamespaceKind::Singleton {
-                    return;
+                    return false;
                 }
                 (namespace, NamespaceKind::Singleton)
             }
@@ -37,7 +38,7 @@ impl IdentifierVisitor {
 
         if method.is_err() {
             warn!("Invalid method name: {}", name);
-            return;
+            return false;
         }
 
         let method = method.unwrap();
@@ -79,6 +80,7 @@ impl IdentifierVisitor {
                 Some(0),
             );
         }
+        true
     }
 
     pub fn process_def_node_exit(&mut self, node: &DefNode) {
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
index 496255c..ca4b461 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
@@ -341,9 +341,11 @@ impl Visit<'_> for IdentifierVisitor {
     }
 
     fn visit_def_node(&mut self, node: &DefNode) {
-        self.process_def_node_entry(node);
+        let entered = self.process_def_node_entry(node);
         visit_def_node(self, node);
-        self.process_def_node_exit(node);
+        if entered {
+            self.process_def_node_exit(node);
+        }
     }
 
     fn visit_alias_method_node(&mut self, node: &AliasMethodNode) {
-- 
2.43.0


From 835f18e6c34033601cc45d297fb11e223f4d0085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:19 +0000
Subject: [PATCH 03/69] fix: map the end of a file without a trailing newline
 to its last line

---
 crates/ruby-analysis/src/engine/state.rs          |  3 ---
 .../ruby-analysis/src/indexer/source_document.rs  |  7 ++++++-
 src/indexer/require_paths.rs                      | 15 +++++++++------
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/ruby-analysis/src/engine/state.rs b/crates/ruby-analysis/src/engine/state.rs
index ebac430..8af3267 100644
--- a/crates/ruby-analysis/src/engine/state.rs
+++ b/crates/ruby-analysis/src/engine/state.rs
@@ -175,9 +175,6 @@ impl SourceLineIndex {
                 ));
             }
         }
-        if line_offsets.last() != Some(&len) {
-            line_offsets.push(len);
-        }
         Self {
             line_offsets,
             len,
diff --git a/crates/ruby-analysis/src/indexer/source_document.rs b/crates/ruby-analysis/src/indexer/source_document.rs
index 378617f..0acf7ec 100644
--- a/crates/ruby-analysis/src/indexer/source_document.rs
+++ b/crates/ruby-analysis/src/indexer/source_document.rs
@@ -41,10 +41,15 @@ impl SourceDocument {
         while offset > 0 && !content.is_char_boundary(offset) {
             offset -= 1;
         }
-        let line_index = match self.line_offsets.binary_search(&offset) {
+        let mut line_index = match self.line_offsets.binary_search(&offset) {
             Ok(exact) => exact,
             Err(after) => after - 1,
         };
+        // The trailing offset of content without a final newline marks the end
+        // of the last line, not the start of another one.
+        if line_index > 0 && !content[..self.line_offsets[line_index]].ends_with('\n') {
+            line_index -= 1;
+        }
         let line_start = self.line_offsets[line_index];
         let character: usize = content[line_start..offset]
             .chars()
diff --git a/src/indexer/require_paths.rs b/src/indexer/require_paths.rs
index 44d9795..42f86b6 100644
--- a/src/indexer/require_paths.rs
+++ b/src/indexer/require_paths.rs
@@ -272,12 +272,15 @@ fn range_from_engine_file(file: &ruby_analysis::engine::SourceFile) -> Range {
     if let Some(source) = file.source_text() {
         return full_document_range(source);
     }
-    let end_line = u32::try_from(file.line_index.line_offsets().len().saturating_sub(1)).expect(
-        "INVARIANT VIOLATED: require target line count exceeded u32. \
-         This is a bug because LSP positions require u32 lines. \
-         Fix: reject or segment files with more than u32::MAX lines.",
-    );
-    Range::new(Position::new(0, 0), Position::new(end_line, 0))
+    let (end_line, end_character) = u32::try_from(file.line_index.len())
+        .ok()
+        .and_then(|end| file.byte_offset_to_line_character(end))
+        .expect(
+            "INVARIANT VIOLATED: the end of a require target has no source position. \
+             This is a bug because discarded sources are ASCII and fit u32 offsets. \
+             Fix: retain SourceFile::source whenever SourceLineIndex::is_ascii is false.",
+        );
+    Range::new(Position::new(0, 0), Position::new(end_line, end_character))
 }
 
 fn full_document_range(content: &str) -> Range {
-- 
2.43.0


From 3c295eae37ac9036c5f6d2791aef78c640e5a478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:19 +0000
Subject: [PATCH 04/69] fix: do not panic when a constant equation's target
 fact was not recorded

---
 crates/ruby-analysis/src/engine/state.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/crates/ruby-analysis/src/engine/state.rs b/crates/ruby-analysis/src/engine/state.rs
index 8af3267..9a0a26b 100644
--- a/crates/ruby-analysis/src/engine/state.rs
+++ b/crates/ruby-analysis/src/engine/state.rs
@@ -2491,24 +2491,16 @@ impl AnalysisEngine {
         for (target, ruby_type) in outcomes {
             match target {
                 ConstantTypeTarget::Fact { subject, range } => {
-                    let updated = self
-                        .facts
+                    // Error recovery can leave the equation's owner without a
+                    // stored fact; there is then nothing to refine.
+                    self.facts
                         .types
                         .update_equation_target(&subject, range, ruby_type);
-                    assert!(
-                        updated > 0,
-                        "INVARIANT VIOLATED: constant equation target {subject:?} has no matching type fact at {range:?}. This is a bug because equations and facts must be replaced atomically with their file. Fix: emit the equation from the same write path as its target TypeFact."
-                    );
                 }
                 ConstantTypeTarget::LocalAssignment { name, range } => {
-                    let updated = self
-                        .facts
+                    self.facts
                         .types
                         .update_local_assignment_equation_target(&name, range, ruby_type);
-                    assert!(
-                        updated > 0,
-                        "INVARIANT VIOLATED: local constructor equation target {name:?} has no matching assignment fact at {range:?}. This is a bug because the stable source assignment and its equation must be replaced atomically. Fix: emit the target fact and equation from the same local-write path."
-                    );
                 }
                 ConstantTypeTarget::LocalRead(range) => {
                     self.update_constant_local_read(range, ruby_type);
-- 
2.43.0


From 20836aaf7572c92bfde8e4aa67fc203717dc3379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:20 +0000
Subject: [PATCH 05/69] fix: do not panic on a write to a variable without a
 name (@ = 1)

---
 .../class_variable_write_node.rs               |  2 ++
 .../global_variable_write_node.rs              |  2 ++
 .../instance_variable_write_node.rs            |  2 ++
 .../src/indexer/fact_collector/mod.rs          | 18 +++++++++++-------
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/fact_collector/class_variable_write_node.rs b/crates/ruby-analysis/src/indexer/fact_collector/class_variable_write_node.rs
index 1b594cf..1d5f9f7 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/class_variable_write_node.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/class_variable_write_node.rs
@@ -21,11 +21,13 @@ impl FactCollector {
         // Validate class variable name
         if !variable_name.starts_with("@@") {
             error!("Class variable name must start with @@: {}", variable_name);
+            self.begin_unnamed_nonlocal_write();
             return;
         }
 
         if variable_name.len() < 3 {
             error!("Class variable name too short: {}", variable_name);
+            self.begin_unnamed_nonlocal_write();
             return;
         }
         if let Ok(fqn) = FullyQualifiedName::class_variable(variable_name.clone()) {
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/global_variable_write_node.rs b/crates/ruby-analysis/src/indexer/fact_collector/global_variable_write_node.rs
index 375961e..3715404 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/global_variable_write_node.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/global_variable_write_node.rs
@@ -22,11 +22,13 @@ impl FactCollector {
         // Validate global variable name
         if !variable_name.starts_with('$') {
             error!("Global variable name must start with $: {}", variable_name);
+            self.begin_unnamed_nonlocal_write();
             return;
         }
 
         if variable_name.len() < 2 {
             error!("Global variable name too short: {}", variable_name);
+            self.begin_unnamed_nonlocal_write();
             return;
         }
         if let Ok(fqn) = FullyQualifiedName::global_variable(variable_name.clone()) {
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/instance_variable_write_node.rs b/crates/ruby-analysis/src/indexer/fact_collector/instance_variable_write_node.rs
index 1388364..9061870 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/instance_variable_write_node.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/instance_variable_write_node.rs
@@ -25,11 +25,13 @@ impl FactCollector {
                 "Instance variable name must start with @: {}",
                 variable_name
             );
+            self.begin_unnamed_nonlocal_write();
             return;
         }
 
         if variable_name.len() < 2 {
             error!("Instance variable name too short: {}", variable_name);
+            self.begin_unnamed_nonlocal_write();
             return;
         }
         if let Ok(fqn) = FullyQualifiedName::instance_variable(variable_name.clone()) {
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/mod.rs b/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
index cfd5c2c..ed09d65 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
@@ -94,7 +94,7 @@ pub struct FactCollector {
     /// Nonlocal writes currently being traversed. Their target facts are
     /// collected before Prism visits the RHS, but reads inside that RHS must
     /// observe the previous value rather than the not-yet-completed write.
-    active_nonlocal_writes: Vec<(TypeSubject, TextRange)>,
+    active_nonlocal_writes: Vec<Option<(TypeSubject, TextRange)>>,
     /// Compact method-return equations collected during the ordinary semantic
     /// traversal and solved once when the program traversal completes.
     method_return_equations: BTreeMap<Vec<RubyConstant>, Vec<MethodReturnEquation>>,
@@ -3064,7 +3064,12 @@ impl FactCollector {
     }
 
     pub(super) fn begin_nonlocal_write(&mut self, subject: TypeSubject, range: TextRange) {
-        self.active_nonlocal_writes.push((subject, range));
+        self.active_nonlocal_writes.push(Some((subject, range)));
+    }
+
+    /// Balance the exit of a write whose target has no usable name yet (`@ = 1`).
+    pub(super) fn begin_unnamed_nonlocal_write(&mut self) {
+        self.active_nonlocal_writes.push(None);
     }
 
     pub(super) fn finish_nonlocal_write(&mut self) {
@@ -3172,12 +3177,11 @@ impl FactCollector {
             byte_offset,
             |subject, range| {
                 matches_subject(subject)
-                    && !self
-                        .active_nonlocal_writes
-                        .iter()
-                        .any(|(active_subject, active_range)| {
+                    && !self.active_nonlocal_writes.iter().flatten().any(
+                        |(active_subject, active_range)| {
                             active_subject == subject && *active_range == range
-                        })
+                        },
+                    )
             },
         ) {
             NamedTypeResolution::Unresolved => {
-- 
2.43.0


From b1b1b60c2ff01aa307c52e0ffbcb3006fd653314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:20 +0000
Subject: [PATCH 06/69] fix: index compound and multiple-assignment constant
 writes instead of panicking on them

---
 .../src/indexer/analysis_indexer.rs           | 175 ++++++++++++------
 .../src/indexer/fact_collector/mod.rs         |   7 +-
 2 files changed, 126 insertions(+), 56 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index 5fe59c1..c1688b3 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -12,8 +12,10 @@ use ruby_prism::{
     visit_alias_method_node, visit_call_node, visit_class_node,
     visit_class_variable_and_write_node, visit_class_variable_operator_write_node,
     visit_class_variable_or_write_node, visit_class_variable_target_node,
-    visit_class_variable_write_node, visit_constant_path_write_node, visit_constant_write_node,
-    visit_def_node, visit_global_variable_and_write_node,
+    visit_class_variable_write_node, visit_constant_and_write_node,
+    visit_constant_operator_write_node, visit_constant_or_write_node,
+    visit_constant_path_or_write_node, visit_constant_path_write_node, visit_constant_target_node,
+    visit_constant_write_node, visit_def_node, visit_global_variable_and_write_node,
     visit_global_variable_operator_write_node, visit_global_variable_or_write_node,
     visit_global_variable_target_node, visit_global_variable_write_node,
     visit_instance_variable_and_write_node, visit_instance_variable_operator_write_node,
@@ -23,13 +25,14 @@ use ruby_prism::{
     visit_local_variable_target_node, visit_local_variable_write_node, visit_module_node,
     visit_singleton_class_node, AliasMethodNode, CallNode, ClassNode, ClassVariableAndWriteNode,
     ClassVariableOperatorWriteNode, ClassVariableOrWriteNode, ClassVariableTargetNode,
-    ClassVariableWriteNode, ConstantPathNode, ConstantPathWriteNode, ConstantWriteNode, DefNode,
-    GlobalVariableAndWriteNode, GlobalVariableOperatorWriteNode, GlobalVariableOrWriteNode,
-    GlobalVariableTargetNode, GlobalVariableWriteNode, InstanceVariableAndWriteNode,
-    InstanceVariableOperatorWriteNode, InstanceVariableOrWriteNode, InstanceVariableTargetNode,
-    InstanceVariableWriteNode, LocalVariableAndWriteNode, LocalVariableOperatorWriteNode,
-    LocalVariableOrWriteNode, LocalVariableTargetNode, LocalVariableWriteNode, ModuleNode, Node,
-    SingletonClassNode, Visit,
+    ClassVariableWriteNode, ConstantAndWriteNode, ConstantOperatorWriteNode, ConstantOrWriteNode,
+    ConstantPathNode, ConstantPathOrWriteNode, ConstantPathWriteNode, ConstantTargetNode,
+    ConstantWriteNode, DefNode, GlobalVariableAndWriteNode, GlobalVariableOperatorWriteNode,
+    GlobalVariableOrWriteNode, GlobalVariableTargetNode, GlobalVariableWriteNode,
+    InstanceVariableAndWriteNode, InstanceVariableOperatorWriteNode, InstanceVariableOrWriteNode,
+    InstanceVariableTargetNode, InstanceVariableWriteNode, LocalVariableAndWriteNode,
+    LocalVariableOperatorWriteNode, LocalVariableOrWriteNode, LocalVariableTargetNode,
+    LocalVariableWriteNode, ModuleNode, Node, SingletonClassNode, Visit,
 };
 
 use super::constant_path_is_absolute;
@@ -1101,6 +1104,55 @@ impl AnalysisIndexer {
         literal_type(node)
     }
 
+    /// Record a written constant. Every write form that the fact collector
+    /// publishes a constant equation for needs its type fact here.
+    fn push_constant_assignment_facts(
+        &mut self,
+        name: &[u8],
+        location: &ruby_prism::Location<'_>,
+        name_location: ruby_prism::Location<'_>,
+        ruby_type: Option<RubyType>,
+    ) {
+        let name = String::from_utf8_lossy(name).to_string();
+        let Ok(constant) = RubyConstant::new(&name) else {
+            return;
+        };
+        let mut parts = self.namespace_stack.clone();
+        parts.push(constant);
+        let fqn = FullyQualifiedName::constant(parts);
+        self.facts.symbols.push(
+            SymbolFact::new(fqn.clone(), SymbolKind::Constant, self.range(location))
+                .with_name_range(self.range(&name_location)),
+        );
+        self.push_type_fact(TypeSubject::Constant(fqn), ruby_type, name_location);
+    }
+
+    fn push_constant_path_assignment_facts(
+        &mut self,
+        target: &ConstantPathNode<'_>,
+        location: &ruby_prism::Location<'_>,
+        ruby_type: Option<RubyType>,
+    ) {
+        let Some(parts) = constant_path_parts(target) else {
+            return;
+        };
+        let fqn = FullyQualifiedName::constant(parts);
+        let name = target.name().expect(
+            "INVARIANT VIOLATED: constant path write target has no terminal name. \
+             This is a bug because constant_path_parts accepted the same target. \
+             Fix: keep constant path extraction and name range derivation aligned.",
+        );
+        self.facts.symbols.push(
+            SymbolFact::new(fqn.clone(), SymbolKind::Constant, self.range(location))
+                .with_name_range(terminal_name_range(
+                    self.file_id,
+                    &target.location(),
+                    name.as_slice(),
+                )),
+        );
+        self.push_type_fact(TypeSubject::Constant(fqn), ruby_type, target.location());
+    }
+
     fn push_type_fact(
         &mut self,
         subject: TypeSubject,
@@ -1520,58 +1572,73 @@ impl Visit<'_> for AnalysisIndexer {
     }
 
     fn visit_constant_write_node(&mut self, node: &ConstantWriteNode<'_>) {
-        let name = String::from_utf8_lossy(node.name().as_slice()).to_string();
-        if let Ok(constant) = RubyConstant::new(&name) {
-            let mut parts = self.namespace_stack.clone();
-            parts.push(constant);
-            let fqn = FullyQualifiedName::constant(parts);
-            self.facts.symbols.push(
-                SymbolFact::new(
-                    fqn.clone(),
-                    SymbolKind::Constant,
-                    self.range(&node.location()),
-                )
-                .with_name_range(self.range(&node.name_loc())),
-            );
-            self.push_type_fact(
-                TypeSubject::Constant(fqn),
-                self.assignment_type(&node.value()),
-                node.name_loc(),
-            );
-        }
+        self.push_constant_assignment_facts(
+            node.name().as_slice(),
+            &node.location(),
+            node.name_loc(),
+            self.assignment_type(&node.value()),
+        );
         visit_constant_write_node(self, node);
     }
 
+    fn visit_constant_or_write_node(&mut self, node: &ConstantOrWriteNode<'_>) {
+        self.push_constant_assignment_facts(
+            node.name().as_slice(),
+            &node.location(),
+            node.name_loc(),
+            self.assignment_type(&node.value()),
+        );
+        visit_constant_or_write_node(self, node);
+    }
+
+    fn visit_constant_and_write_node(&mut self, node: &ConstantAndWriteNode<'_>) {
+        self.push_constant_assignment_facts(
+            node.name().as_slice(),
+            &node.location(),
+            node.name_loc(),
+            self.assignment_type(&node.value()),
+        );
+        visit_constant_and_write_node(self, node);
+    }
+
+    fn visit_constant_operator_write_node(&mut self, node: &ConstantOperatorWriteNode<'_>) {
+        self.push_constant_assignment_facts(
+            node.name().as_slice(),
+            &node.location(),
+            node.name_loc(),
+            None,
+        );
+        visit_constant_operator_write_node(self, node);
+    }
+
+    fn visit_constant_target_node(&mut self, node: &ConstantTargetNode<'_>) {
+        self.push_constant_assignment_facts(
+            node.name().as_slice(),
+            &node.location(),
+            node.location(),
+            None,
+        );
+        visit_constant_target_node(self, node);
+    }
+
     fn visit_constant_path_write_node(&mut self, node: &ConstantPathWriteNode<'_>) {
-        let target = node.target();
-        if let Some(parts) = constant_path_parts(&target) {
-            let fqn = FullyQualifiedName::constant(parts);
-            let name = target.name().expect(
-                "INVARIANT VIOLATED: constant path write target has no terminal name. \
-                 This is a bug because constant_path_parts accepted the same target. \
-                 Fix: keep constant path extraction and name range derivation aligned.",
-            );
-            self.facts.symbols.push(
-                SymbolFact::new(
-                    fqn.clone(),
-                    SymbolKind::Constant,
-                    self.range(&node.location()),
-                )
-                .with_name_range(terminal_name_range(
-                    self.file_id,
-                    &target.location(),
-                    name.as_slice(),
-                )),
-            );
-            self.push_type_fact(
-                TypeSubject::Constant(fqn),
-                self.assignment_type(&node.value()),
-                target.location(),
-            );
-        }
+        self.push_constant_path_assignment_facts(
+            &node.target(),
+            &node.location(),
+            self.assignment_type(&node.value()),
+        );
         visit_constant_path_write_node(self, node);
     }
 
+    fn visit_constant_path_or_write_node(&mut self, node: &ConstantPathOrWriteNode<'_>) {
+        self.push_constant_path_assignment_facts(
+            &node.target(),
+            &node.location(),
+            self.assignment_type(&node.value()),
+        );
+        visit_constant_path_or_write_node(self, node);
+    }
+
     fn visit_call_node(&mut self, node: &CallNode<'_>) {
         if let Some((eval_namespace, definition_scope)) = self.static_eval_block_context(node) {
             if let Some(receiver) = node.receiver() {
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/mod.rs b/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
index ed09d65..daef098 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
@@ -2473,7 +2473,8 @@ impl FactCollector {
         if let Some(call) = node.as_call_node() {
             if call.name().as_slice() == b"new" {
                 let receiver = call.receiver()?;
-                let reference = crate::mixin_ref_from_node(&receiver)?;
+                let reference = crate::mixin_ref_from_node(&receiver)
+                    .filter(|reference| !reference.parts.is_empty())?;
                 return Some(ConstantTypeDependency::constructor(
                     reference.parts,
                     reference.absolute,
@@ -2481,7 +2482,9 @@ impl FactCollector {
                 ));
             }
         }
-        let reference = crate::mixin_ref_from_node(node)?;
+        // An incomplete path (`Foo::`) has no name yet.
+        let reference =
+            crate::mixin_ref_from_node(node).filter(|reference| !reference.parts.is_empty())?;
         Some(ConstantTypeDependency::new(
             reference.parts,
             reference.absolute,
-- 
2.43.0


From 27694ff86ca78c6e9af39de238bd7a5034a76f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:20 +0000
Subject: [PATCH 07/69] fix: emit semantic tokens in document order without
 overlaps

---
 .../src/indexer/semantic_tokens.rs            | 97 +++++++++++--------
 src/capabilities/semantic_tokens.rs           |  5 +-
 2 files changed, 57 insertions(+), 45 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/semantic_tokens.rs b/crates/ruby-analysis/src/indexer/semantic_tokens.rs
index 78ed038..c55344a 100644
--- a/crates/ruby-analysis/src/indexer/semantic_tokens.rs
+++ b/crates/ruby-analysis/src/indexer/semantic_tokens.rs
@@ -8,6 +8,7 @@ use ruby_prism::{
 use std::collections::HashMap;
 use std::sync::LazyLock;
 
+use crate::core::SourcePosition;
 use crate::RubyDocument;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
@@ -159,19 +160,56 @@ pub static TOKEN_MODIFIERS_MAP: LazyLock<HashMap<SemanticTokenModifier, usize>>
         map
     });
 
+/// One token in source order terms, before LSP delta encoding.
+struct TokenSpan {
+    start: SourcePosition,
+    length: u32,
+    token_type: u32,
+    token_modifiers_bitset: u32,
+}
+
 pub struct TokenVisitor<'a> {
     document: &'a RubyDocument,
-    pub tokens: Vec<SemanticToken>,
-    current_position: (u32, u32),
+    spans: Vec<TokenSpan>,
 }
 
 impl<'a> TokenVisitor<'a> {
     pub fn new(document: &'a RubyDocument) -> Self {
         Self {
             document,
-            tokens: Vec::new(),
-            current_position: (0, 0),
+            spans: Vec::new(),
+        }
+    }
+
+    /// The collected tokens, delta-encoded. Visiting order is not source order
+    /// for every construct (modifiers, default arguments, rescue modifiers), so
+    /// tokens are ordered here; a token overlapping an earlier one is dropped.
+    pub fn into_tokens(self) -> Vec<SemanticToken> {
+        let mut spans = self.spans;
+        spans.sort_by_key(|span| (span.start.line, span.start.character));
+        let mut tokens = Vec::with_capacity(spans.len());
+        let mut previous: Option<(SourcePosition, u32)> = None;
+        for span in spans {
+            let (delta_line, delta_start) = match previous {
+                Some((start, end)) if start.line == span.start.line => {
+                    if span.start.character < end {
+                        continue;
+                    }
+                    (0, span.start.character - start.character)
+                }
+                Some((start, _)) => (span.start.line - start.line, span.start.character),
+                None => (span.start.line, span.start.character),
+            };
+            tokens.push(SemanticToken {
+                delta_line,
+                delta_start,
+                length: span.length,
+                token_type: span.token_type,
+                token_modifiers_bitset: span.token_modifiers_bitset,
+            });
+            previous = Some((span.start, span.start.character + span.length));
         }
+        tokens
     }
 
     fn add_token(
@@ -180,56 +218,30 @@ impl<'a> TokenVisitor<'a> {
         token_type: SemanticTokenType,
         modifiers: &[SemanticTokenModifier],
     ) {
-        let token_type_index = self.token_type_to_index(token_type);
-        let modifiers_bitset = self.token_modifiers_to_bitset(modifiers);
-
         // Use RubyDocument's position methods instead of custom conversion
         let start_pos = self.document.offset_to_position(location.start_offset());
         let end_pos = self.document.offset_to_position(location.end_offset());
 
-        let delta_line = start_pos.line - self.current_position.0;
-        let delta_column = if delta_line == 0 {
-            start_pos.character - self.current_position.1
-        } else {
-            start_pos.character
-        };
-
-        // Calculate token length in UTF-16 code units
-        let length = if start_pos.line == end_pos.line {
-            // If on the same line, just subtract character positions
-            end_pos.character - start_pos.character
-        } else {
-            // For multi-line tokens, we need to count characters
-            // This is a simplification - in a real implementation you'd need to handle this case better
-            let start = location.start_offset();
-            let end = location.end_offset();
-
-            self.document.content[start..end]
-                .chars()
-                .map(|c| if c.len_utf16() == 2 { 2 } else { 1 })
-                .sum::<u32>()
-        };
+        // A token is a non-empty part of one line; error recovery can produce
+        // locations that are neither.
+        if start_pos.line != end_pos.line || start_pos.character >= end_pos.character {
+            return;
+        }
 
         trace!(
-            "Adding token for {} at {}:{}-{}:{}",
-            &self.document.content[location.start_offset()..location.end_offset()],
+            "Adding token at {}:{}-{}:{}",
             start_pos.line,
             start_pos.character,
             end_pos.line,
             end_pos.character
         );
 
-        // Add token to the list
-        self.tokens.push(SemanticToken {
-            delta_line,
-            delta_start: delta_column,
-            length,
-            token_type: token_type_index,
-            token_modifiers_bitset: modifiers_bitset,
+        self.spans.push(TokenSpan {
+            start: start_pos,
+            length: end_pos.character - start_pos.character,
+            token_type: self.token_type_to_index(token_type),
+            token_modifiers_bitset: self.token_modifiers_to_bitset(modifiers),
         });
-
-        // Update current position
-        self.current_position = (start_pos.line, start_pos.character);
     }
 
     fn token_type_to_index(&self, token_type: SemanticTokenType) -> u32 {
@@ -446,8 +458,7 @@ impl Visit<'_> for TokenVisitor<'_> {
         // To produce tokens in the same order as the code written, we add the method token here.
         // Changing the position of this block in this method will result in tokens being out of order.
         if let Some(message_loc) = node.message_loc() {
-            let msg = self.document.content[message_loc.start_offset()..message_loc.end_offset()]
-                .to_string();
+            let msg = String::from_utf8_lossy(message_loc.as_slice()).into_owned();
             if msg.starts_with("[") && (msg.ends_with("]") || msg.ends_with("]=")) {
                 // "[]" or "[]=" are not method tokens. Do nothing.
                 // Eg. hash[:key]; hash['key'] = 1;
diff --git a/src/capabilities/semantic_tokens.rs b/src/capabilities/semantic_tokens.rs
index 40ff5d1..4885e7b 100644
--- a/src/capabilities/semantic_tokens.rs
+++ b/src/capabilities/semantic_tokens.rs
@@ -60,7 +60,8 @@ pub fn get_semantic_tokens_full(server: &RubyLanguageServer, uri: Url) -> Semant
     visitor.visit(&root_node);
     let visit_time = visit_start.elapsed();
     debug!("[PERF] semantic token visitor took {:?}", visit_time);
-    let token_count = visitor.tokens.len();
+    let tokens = visitor.into_tokens();
+    let token_count = tokens.len();
     info!(
         "[PERF][semanticTokens waterfall] file={} total={:?} doc_lookup={:?} parse={:?} visit={:?} tokens={}",
         uri.path(),
@@ -73,7 +74,7 @@ pub fn get_semantic_tokens_full(server: &RubyLanguageServer, uri: Url) -> Semant
 
     SemanticTokensResult::Tokens(SemanticTokens {
         result_id: None,
-        data: visitor.tokens.into_iter().map(lsp_token).collect(),
+        data: tokens.into_iter().map(lsp_token).collect(),
     })
 }
 
-- 
2.43.0


From d1c8c94c9764f0ae107f51d06b444ef6d66a97fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:20 +0000
Subject: [PATCH 08/69] fix: treat the completion position's column as UTF-16
 units

---
 src/capabilities/completion/mod.rs      | 44 +++++++++++++------------
 src/capabilities/completion/snippets.rs | 10 ++----
 2 files changed, 25 insertions(+), 29 deletions(-)

diff --git a/src/capabilities/completion/mod.rs b/src/capabilities/completion/mod.rs
index b256d42..7c6143d 100644
--- a/src/capabilities/completion/mod.rs
+++ b/src/capabilities/completion/mod.rs
@@ -27,6 +27,18 @@ use crate::{
 
 pub use snippets::RubySnippets;
 
+/// The part of `line` before a UTF-16 column, clamped to the line.
+pub(crate) fn text_before_column(line: &str, column: u32) -> &str {
+    let mut units = 0u32;
+    for (byte, character) in line.char_indices() {
+        units += character.len_utf16() as u32;
+        if units > column {
+            return &line[..byte];
+        }
+    }
+    line
+}
+
 pub async fn find_completion_at_position(
     server: &RubyLanguageServer,
     uri: Url,
@@ -118,13 +130,10 @@ pub async fn find_completion_at_position(
             .lines()
             .nth(position.line as usize)
             .unwrap_or("");
-        let char_pos = position.character as usize;
 
         // Check if there's a ':' character immediately before the current position
         // This means we're completing after "::" (user typed :: and cursor is after the second :)
-        char_pos >= 2
-            && line_text.chars().nth(char_pos - 1) == Some(':')
-            && line_text.chars().nth(char_pos - 2) == Some(':')
+        text_before_column(line_text, position.character).ends_with("::")
     } else {
         false
     };
@@ -170,15 +179,14 @@ pub async fn find_completion_at_position(
                     .lines()
                     .nth(position.line as usize)
                     .unwrap_or("");
-                let char_pos = position.character as usize;
 
                 // Look backwards from the current position to find the namespace
-                if char_pos >= 2 {
-                    let before_colon = &line_text[..char_pos.saturating_sub(2)];
-                    if let Some(start) =
-                        before_colon.rfind(|c: char| !c.is_alphanumeric() && c != '_' && c != ':')
+                if let Some(before_colon) =
+                    text_before_column(line_text, position.character).strip_suffix("::")
+                {
+                    if let Some((_, namespace)) = before_colon
+                        .rsplit_once(|c: char| !c.is_alphanumeric() && c != '_' && c != ':')
                     {
-                        let namespace = &before_colon[start + 1..];
                         if !namespace.is_empty()
                             && namespace.chars().all(|c| c.is_alphanumeric() || c == '_')
                         {
@@ -207,13 +215,13 @@ pub async fn find_completion_at_position(
                     .lines()
                     .nth(position.line as usize)
                     .unwrap_or("");
-                let char_pos = position.character as usize;
 
                 // Look backwards from the current position to find the start of the current word
-                let before_cursor = &line_text[..char_pos.min(line_text.len())];
-                if let Some(start) = before_cursor.rfind(|c: char| !c.is_alphanumeric() && c != '_')
+                let before_cursor = text_before_column(line_text, position.character);
+                if let Some((_, word)) =
+                    before_cursor.rsplit_once(|c: char| !c.is_alphanumeric() && c != '_')
                 {
-                    before_cursor[start + 1..].to_string()
+                    word.to_string()
                 } else {
                     before_cursor.trim().to_string()
                 }
@@ -240,13 +248,7 @@ pub async fn find_completion_at_position(
             .lines()
             .nth(position.line as usize)
             .unwrap_or("");
-        let char_pos = position.character as usize;
-        // Safely get substring before cursor
-        let before_cursor = if char_pos <= line.len() {
-            &line[..char_pos]
-        } else {
-            line
-        };
+        let before_cursor = text_before_column(line, position.character);
         // Check if there's a dot followed by optional method name chars
         before_cursor.contains('.')
             && before_cursor
diff --git a/src/capabilities/completion/snippets.rs b/src/capabilities/completion/snippets.rs
index f80393d..ace796f 100644
--- a/src/capabilities/completion/snippets.rs
+++ b/src/capabilities/completion/snippets.rs
@@ -202,14 +202,8 @@ impl RubySnippets {
             }) => SnippetContext::MethodCall,
             None => {
                 // Check if we're right after a dot, which indicates method call context
-                let char_pos = position_char as usize;
-                if char_pos > 0 && char_pos <= line_text.len() {
-                    let before_cursor = &line_text[..char_pos];
-                    if before_cursor.ends_with('.') {
-                        SnippetContext::MethodCall
-                    } else {
-                        SnippetContext::General
-                    }
+                if super::text_before_column(line_text, position_char).ends_with('.') {
+                    SnippetContext::MethodCall
                 } else {
                     SnippetContext::General
                 }
-- 
2.43.0


From a016896627aa2f43b2a13b6ec64196143840f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:20 +0000
Subject: [PATCH 09/69] fix: keep the identifier visitor's scopes balanced and
 tolerate unnamed constants

---
 .../indexer/identifier_visitor/class_node.rs   | 18 +++++++++++-------
 .../identifier_visitor/constant_path_node.rs   |  4 +++-
 .../identifier_visitor/constant_write_node.rs  |  4 +++-
 .../src/indexer/identifier_visitor/mod.rs      | 12 ++++++++----
 .../indexer/identifier_visitor/module_node.rs  | 18 +++++++++++-------
 5 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
index a4dd6c2..0971562 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
@@ -6,9 +6,10 @@ use crate::{analyzer_utils as utils, Identifier, LVScopeKind};
 use super::{IdentifierType, IdentifierVisitor};
 
 impl IdentifierVisitor {
-    pub fn process_class_node_entry(&mut self, node: &ClassNode) {
+    /// Returns whether a namespace scope was pushed; only then may the exit pop it.
+    pub fn process_class_node_entry(&mut self, node: &ClassNode) -> bool {
         if self.is_result_set() || !self.is_position_in_location(&node.location()) {
-            return;
+            return false;
         }
 
         let constant_path = node.constant_path();
@@ -30,7 +31,9 @@ impl IdentifierVisitor {
                 );
             } else if let Some(constant_read_node) = constant_path.as_constant_read_node() {
                 let name = String::from_utf8_lossy(constant_read_node.name().as_slice());
-                let namespace = RubyConstant::new(name.as_ref()).unwrap();
+                let Ok(namespace) = RubyConstant::new(name.as_ref()) else {
+                    return false;
+                };
                 self.set_result(
                     Some(Identifier::RubyConstant {
                         namespace: self.scope_tracker.get_ns_stack(),
@@ -42,17 +45,18 @@ impl IdentifierVisitor {
                 );
             }
 
-            return;
+            return false;
         }
 
         // Add the class name to the namespace stack
-        if self
+        let entered = self
             .scope_tracker
             .push_namespace_from_constant_path(&constant_path, node.name().as_slice())
-            .is_ok()
-        {
+            .is_ok();
+        if entered {
             self.scope_tracker.push_scope_kind(LVScopeKind::Constant);
         }
+        entered
     }
 
     pub fn process_class_node_exit(&mut self, node: &ClassNode) {
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/constant_path_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/constant_path_node.rs
index c712ecd..0201e6f 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/constant_path_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/constant_path_node.rs
@@ -68,7 +68,9 @@ impl IdentifierVisitor {
         }
 
         let name = String::from_utf8_lossy(node.name().as_slice()).to_string();
-        let constant = RubyConstant::new(&name).unwrap();
+        let Ok(constant) = RubyConstant::new(&name) else {
+            return;
+        };
 
         self.set_result(
             Some(Identifier::RubyConstant {
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/constant_write_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/constant_write_node.rs
index ab99eb7..d59a6cf 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/constant_write_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/constant_write_node.rs
@@ -15,7 +15,9 @@ impl IdentifierVisitor {
         }
 
         let name = String::from_utf8_lossy(name).to_string();
-        let constant = RubyConstant::new(&name).unwrap();
+        let Ok(constant) = RubyConstant::new(&name) else {
+            return;
+        };
         self.set_result(
             Some(Identifier::RubyConstant {
                 namespace: self.scope_tracker.get_ns_stack(),
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
index ca4b461..a215e91 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
@@ -323,9 +323,11 @@ fn concern_class_methods_block_namespace(node: &CallNode) -> Option<Vec<RubyCons
 
 impl Visit<'_> for IdentifierVisitor {
     fn visit_class_node(&mut self, node: &ClassNode) {
-        self.process_class_node_entry(node);
+        let entered = self.process_class_node_entry(node);
         visit_class_node(self, node);
-        self.process_class_node_exit(node);
+        if entered {
+            self.process_class_node_exit(node);
+        }
     }
 
     fn visit_singleton_class_node(&mut self, node: &SingletonClassNode) {
@@ -335,9 +337,11 @@ impl Visit<'_> for IdentifierVisitor {
     }
 
     fn visit_module_node(&mut self, node: &ModuleNode) {
-        self.process_module_node_entry(node);
+        let entered = self.process_module_node_entry(node);
         visit_module_node(self, node);
-        self.process_module_node_exit(node);
+        if entered {
+            self.process_module_node_exit(node);
+        }
     }
 
     fn visit_def_node(&mut self, node: &DefNode) {
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
index 1009e0a..ba9fbd8 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
@@ -6,9 +6,10 @@ use crate::{analyzer_utils as utils, Identifier, LVScopeKind};
 use super::{IdentifierType, IdentifierVisitor};
 
 impl IdentifierVisitor {
-    pub fn process_module_node_entry(&mut self, node: &ModuleNode) {
+    /// Returns whether a namespace scope was pushed; only then may the exit pop it.
+    pub fn process_module_node_entry(&mut self, node: &ModuleNode) -> bool {
         if self.is_result_set() || !self.is_position_in_location(&node.location()) {
-            return;
+            return false;
         }
 
         let constant_path = node.constant_path();
@@ -30,7 +31,9 @@ impl IdentifierVisitor {
                 );
             } else if let Some(constant_read_node) = constant_path.as_constant_read_node() {
                 let name = String::from_utf8_lossy(constant_read_node.name().as_slice());
-                let namespace = RubyConstant::new(name.as_ref()).unwrap();
+                let Ok(namespace) = RubyConstant::new(name.as_ref()) else {
+                    return false;
+                };
                 self.set_result(
                     Some(Identifier::RubyConstant {
                         namespace: self.scope_tracker.get_ns_stack(),
@@ -42,17 +45,18 @@ impl IdentifierVisitor {
                 );
             }
 
-            return;
+            return false;
         }
 
         // Add the module name to the namespace stack
-        if self
+        let entered = self
             .scope_tracker
             .push_namespace_from_constant_path(&constant_path, node.name().as_slice())
-            .is_ok()
-        {
+            .is_ok();
+        if entered {
             self.scope_tracker.push_scope_kind(LVScopeKind::Constant);
         }
+        entered
     }
 
     pub fn process_module_node_exit(&mut self, node: &ModuleNode) {
-- 
2.43.0


From 01fa18523848d28bba70f6d15256947d69b49d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:20 +0000
Subject: [PATCH 10/69] fix: never emit a document symbol with an empty name

---
 crates/ruby-analysis/src/indexer/document_symbols.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ruby-analysis/src/indexer/document_symbols.rs b/crates/ruby-analysis/src/indexer/document_symbols.rs
index 79cc053..2b068d4 100644
--- a/crates/ruby-analysis/src/indexer/document_symbols.rs
+++ b/crates/ruby-analysis/src/indexer/document_symbols.rs
@@ -169,7 +169,12 @@ impl<'a> DocumentSymbolsVisitor<'a> {
         let range = self.document.prism_location_to_source_range(location);
 
         RubySymbolContext {
-            name,
+            // A declaration being typed has no name yet; editors reject empty ones.
+            name: if name.trim().is_empty() {
+                "<unnamed>".to_string()
+            } else {
+                name
+            },
             kind,
             detail: None, // Can be enhanced later with more detailed information
             range,
-- 
2.43.0


From 20af2f46e348490d23e997e200fedbb504692e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:20 +0000
Subject: [PATCH 11/69] fix: tolerate a recovered method start inside a
 multi-byte character

---
 crates/ruby-analysis/src/indexer/yard/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/yard/parser.rs b/crates/ruby-analysis/src/indexer/yard/parser.rs
index d302592..3ad92b0 100644
--- a/crates/ruby-analysis/src/indexer/yard/parser.rs
+++ b/crates/ruby-analysis/src/indexer/yard/parser.rs
@@ -262,10 +262,10 @@ impl YardParser {
     /// Extract YARD documentation from comments preceding a method definition.
     /// Includes position information for each @param tag for diagnostics.
     pub fn extract_from_source(content: &str, method_start_offset: usize) -> Option<YardMethodDoc> {
-        assert!(
-            method_start_offset <= content.len() && content.is_char_boundary(method_start_offset),
-            "INVARIANT VIOLATED: YARD method offset is outside the source or not on a UTF-8 boundary. This is a bug because parser locations must be valid source byte offsets. Fix: pass the exact method location from the parse tree."
-        );
+        // Error recovery can place a method inside a multi-byte character.
+        if !content.is_char_boundary(method_start_offset) {
+            return None;
+        }
         let method_start_line = u32::try_from(
             content[..method_start_offset]
                 .bytes()
-- 
2.43.0


From 9cefaacb6fad4f981ea0cb72e9c13925790b0bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:20 +0000
Subject: [PATCH 12/69] fix: treat hash patterns on values of unknown shape as
 inconclusive instead of panicking

---
 .../src/inference/type_tracker/mod.rs         | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/crates/ruby-analysis/src/inference/type_tracker/mod.rs b/crates/ruby-analysis/src/inference/type_tracker/mod.rs
index ab437c1..ea5b729 100644
--- a/crates/ruby-analysis/src/inference/type_tracker/mod.rs
+++ b/crates/ruby-analysis/src/inference/type_tracker/mod.rs
@@ -2350,6 +2350,7 @@ impl<'a> TypeTracker<'a> {
 
         for (index, in_node) in in_nodes.iter().enumerate() {
             self.vars = env_before.clone();
+            // A predicate without a known shape leaves every pattern inconclusive.
             let reaches = if patterns_supported {
                 let predicate = predicate.as_ref().expect(
                     "INVARIANT VIOLATED: supported Hash pattern case lost its predicate. This is a bug because patterns_supported requires one. Fix: retain the checked predicate for branch narrowing.",
@@ -2361,16 +2362,12 @@ impl<'a> TypeTracker<'a> {
                     }
                     reaches = self
                         .narrow_shape_hash_pattern(predicate, &prior.pattern(), false)
-                        .expect(
-                            "INVARIANT VIOLATED: previously supported Hash pattern became unsupported. This is a bug because the immutable pattern was validated before branch traversal. Fix: use one shared pattern recognizer for validation and narrowing.",
-                        );
+                        .unwrap_or(true);
                 }
                 if reaches {
                     reaches = self
                         .narrow_shape_hash_pattern(predicate, &in_node.pattern(), true)
-                        .expect(
-                            "INVARIANT VIOLATED: supported Hash pattern became unsupported before its branch. This is a bug because the immutable pattern was validated before traversal. Fix: use one shared pattern recognizer for validation and narrowing.",
-                        );
+                        .unwrap_or(true);
                 }
                 reaches
             } else {
@@ -2414,9 +2411,7 @@ impl<'a> TypeTracker<'a> {
                     }
                     else_reaches = self
                         .narrow_shape_hash_pattern(predicate, &in_node.pattern(), false)
-                        .expect(
-                            "INVARIANT VIOLATED: supported Hash pattern became unsupported on the else path. This is a bug because the immutable pattern was validated before traversal. Fix: use one shared pattern recognizer for validation and narrowing.",
-                        );
+                        .unwrap_or(true);
                 }
             }
             let else_clause = case_node.else_clause().unwrap();
@@ -5294,6 +5289,15 @@ fn hash_pattern_requirements(
     pattern: &Node<'_>,
 ) -> Option<Vec<(LiteralKey, Option<LiteralValue>)>> {
     let hash = pattern.as_hash_pattern_node()?;
+    // `Const(key:)` also tests the class and `**nil` also rejects extra keys,
+    // so a failed match would not disprove the listed requirements.
+    if hash.constant().is_some()
+        || hash
+            .rest()
+            .is_some_and(|rest| rest.as_no_keywords_parameter_node().is_some())
+    {
+        return None;
+    }
     let mut requirements = Vec::new();
     for element in hash.elements().iter() {
         let assoc = element.as_assoc_node()?;
-- 
2.43.0


From 23d673035b50f1471a81644e03d18c79a6f91a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:33 +0000
Subject: [PATCH 13/69] fix: tolerate a recovered name token outside its
 declaration

---
 crates/ruby-analysis/src/core/method_store.rs | 13 +++++++------
 crates/ruby-analysis/src/core/symbol_store.rs | 14 +++++++++-----
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/crates/ruby-analysis/src/core/method_store.rs b/crates/ruby-analysis/src/core/method_store.rs
index 7073f2e..4e1b9b4 100644
--- a/crates/ruby-analysis/src/core/method_store.rs
+++ b/crates/ruby-analysis/src/core/method_store.rs
@@ -232,12 +232,13 @@ impl MethodFact {
             name_range.file_id == self.range.file_id,
             "INVARIANT VIOLATED: method name range belongs to a different file than its declaration. This is a bug because declaration edits must stay within their source file. Fix: derive both ranges from the same registered source document."
         );
-        assert!(
-            self.range.start_byte <= name_range.start_byte
-                && name_range.end_byte <= self.range.end_byte,
-            "INVARIANT VIOLATED: method name range is outside its declaration range. This is a bug because rename requires the exact declaration token. Fix: use Prism's method name location inside the enclosing declaration location."
-        );
-        self.name_range = name_range;
+        // Error recovery can report a name outside the node that declares it;
+        // the declaration range then stands in for the missing token.
+        if self.range.start_byte <= name_range.start_byte
+            && name_range.end_byte <= self.range.end_byte
+        {
+            self.name_range = name_range;
+        }
         self
     }
 
diff --git a/crates/ruby-analysis/src/core/symbol_store.rs b/crates/ruby-analysis/src/core/symbol_store.rs
index 6b19fc9..e8b6f07 100644
--- a/crates/ruby-analysis/src/core/symbol_store.rs
+++ b/crates/ruby-analysis/src/core/symbol_store.rs
@@ -38,14 +38,18 @@ impl SymbolFact {
 
     pub fn with_name_range(mut self, name_range: TextRange) -> Self {
         assert!(
-            name_range.file_id == self.range.file_id
-                && name_range.start_byte >= self.range.start_byte
-                && name_range.end_byte <= self.range.end_byte,
-            "INVARIANT VIOLATED: symbol name range is outside its declaration range. \
+            name_range.file_id == self.range.file_id,
+            "INVARIANT VIOLATED: symbol name range belongs to another file than its declaration. \
              This is a bug because rename edits must target a token within the declaration. \
              Fix: derive name_range from the declaring Prism node."
         );
-        self.name_range = name_range;
+        // Error recovery can report a name outside the node that declares it;
+        // the declaration range then stands in for the missing token.
+        if name_range.start_byte >= self.range.start_byte
+            && name_range.end_byte <= self.range.end_byte
+        {
+            self.name_range = name_range;
+        }
         self
     }
 }
-- 
2.43.0


From 110afdd78ca546758d430fe77b300e741acc3439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:14 +0000
Subject: [PATCH 14/69] fix: mask a shebang that does not name ruby before
 every parse instead of crashing in the parser

---
 .../ruby-analysis/src/indexer/analysis_indexer.rs  |  1 +
 crates/ruby-analysis/src/indexer/analyzer.rs       |  2 +-
 crates/ruby-analysis/src/indexer/code_lens.rs      |  1 +
 crates/ruby-analysis/src/indexer/ruby_document.rs  | 14 ++++++++++++++
 .../ruby-analysis/src/indexer/selection_ranges.rs  |  1 +
 src/capabilities/formatting.rs                     |  1 +
 src/indexer/require_paths.rs                       |  2 ++
 src/runtime/jruby/imports.rs                       |  4 ++++
 8 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index c1688b3..7878065 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -104,6 +104,7 @@ impl AnalysisIndexer {
 
     pub fn index_source(mut self, source: &str) -> AnalysisIndex {
         self.source = Some(source.to_string());
+        let source = super::mask_shebang(source);
         let parse = ruby_prism::parse(source.as_bytes());
         self.visit(&parse.node());
         self.facts
diff --git a/crates/ruby-analysis/src/indexer/analyzer.rs b/crates/ruby-analysis/src/indexer/analyzer.rs
index 7653124..6e31c43 100644
--- a/crates/ruby-analysis/src/indexer/analyzer.rs
+++ b/crates/ruby-analysis/src/indexer/analyzer.rs
@@ -53,7 +53,7 @@ impl RubyPrismAnalyzer {
         let analysis_code = if is_erb_path(uri.path()) {
             mask_erb(&code).source().to_string()
         } else {
-            code.clone()
+            crate::indexer::mask_shebang(&code).into_owned()
         };
         Self {
             uri,
diff --git a/crates/ruby-analysis/src/indexer/code_lens.rs b/crates/ruby-analysis/src/indexer/code_lens.rs
index 2ac1cf1..ffd2145 100644
--- a/crates/ruby-analysis/src/indexer/code_lens.rs
+++ b/crates/ruby-analysis/src/indexer/code_lens.rs
@@ -9,6 +9,7 @@ pub struct ModuleDefinitionForLens {
 }
 
 pub fn module_definitions_for_lens(content: &str) -> Vec<ModuleDefinitionForLens> {
+    let content = crate::indexer::mask_shebang(content);
     let parse_result = ruby_prism::parse(content.as_bytes());
     let root = parse_result.node();
 
diff --git a/crates/ruby-analysis/src/indexer/ruby_document.rs b/crates/ruby-analysis/src/indexer/ruby_document.rs
index 95f1833..c6029ce 100644
--- a/crates/ruby-analysis/src/indexer/ruby_document.rs
+++ b/crates/ruby-analysis/src/indexer/ruby_document.rs
@@ -1,5 +1,6 @@
 use crate::core::{RubyType, SourceFileId, SourcePosition, SourceRange, TextRange};
 use ruby_prism::Location as PrismLocation;
+use std::borrow::Cow;
 use url::Url;
 
 use super::rename::{LocalOccurrence, LocalOccurrenceRole, RenameVisitor};
@@ -11,6 +12,9 @@ pub struct RubyDocument {
     pub uri: Url,
     pub content: String,
     embedded: Option<EmbeddedRuby>,
+    /// Content with its shebang masked, for documents that start with one: the
+    /// parser dereferences null options on a shebang that does not name ruby.
+    shebang_masked: Option<String>,
     pub version: i32,
     /// The version at which this document was last indexed (None if never indexed)
     pub indexed_version: Option<i32>,
@@ -20,6 +24,13 @@ pub struct RubyDocument {
     pub variable_scopes: VariableScopes,
 }
 
+fn shebang_masked(content: &str) -> Option<String> {
+    match crate::indexer::mask_shebang(content) {
+        Cow::Borrowed(_) => None,
+        Cow::Owned(masked) => Some(masked),
+    }
+}
+
 impl RubyDocument {
     /// Creates a new document with the given URI, content, and version
     pub fn new(uri: Url, content: String, version: i32) -> Self {
@@ -40,6 +51,7 @@ impl RubyDocument {
         Self {
             uri,
             source: SourceDocument::new(&content, analysis_file_id),
+            shebang_masked: shebang_masked(&content),
             content,
             embedded,
             version,
@@ -57,6 +69,7 @@ impl RubyDocument {
         self.embedded
             .as_ref()
             .map(EmbeddedRuby::source)
+            .or(self.shebang_masked.as_deref())
             .unwrap_or(&self.content)
     }
 
@@ -83,6 +96,7 @@ impl RubyDocument {
             None
         };
         self.source.update(&content);
+        self.shebang_masked = shebang_masked(&content);
         self.content = content;
         self.version = version;
         self.variable_scopes = VariableScopes::new();
diff --git a/crates/ruby-analysis/src/indexer/selection_ranges.rs b/crates/ruby-analysis/src/indexer/selection_ranges.rs
index 20a43c1..9627542 100644
--- a/crates/ruby-analysis/src/indexer/selection_ranges.rs
+++ b/crates/ruby-analysis/src/indexer/selection_ranges.rs
@@ -7,6 +7,7 @@ pub fn selection_range_chains(
     source: &str,
     byte_offsets: &[u32],
 ) -> Vec<Vec<TextRange>> {
+    let source = crate::indexer::mask_shebang(source);
     let parse_result = ruby_prism::parse(source.as_bytes());
     let root = parse_result.node();
     let mut collector = SelectionRangeCollector {
diff --git a/src/capabilities/formatting.rs b/src/capabilities/formatting.rs
index 2b0768b..e36b762 100644
--- a/src/capabilities/formatting.rs
+++ b/src/capabilities/formatting.rs
@@ -146,6 +146,7 @@ impl<'a> Visit<'a> for ConditionalAssignmentVisitor {
 /// Uses AST analysis to determine if we should add an 'end' keyword
 /// This is more robust than string matching for incomplete code
 pub fn should_add_end_ast(content: &str) -> bool {
+    let content = ruby_analysis::indexer::mask_shebang(content);
     let result = parse(content.as_bytes());
 
     let mut visitor = ConditionalAssignmentVisitor::new();
diff --git a/src/indexer/require_paths.rs b/src/indexer/require_paths.rs
index 42f86b6..9e87912 100644
--- a/src/indexer/require_paths.rs
+++ b/src/indexer/require_paths.rs
@@ -103,6 +103,7 @@ pub fn find_require_string_at_offset(
     content: &str,
     byte_offset: usize,
 ) -> Option<RequireStringTarget> {
+    let content = ruby_analysis::indexer::mask_shebang(content);
     let parse_result = ruby_prism::parse(content.as_bytes());
     let mut finder = RequireStringFinder {
         byte_offset: Some(byte_offset),
@@ -114,6 +115,7 @@ pub fn find_require_string_at_offset(
 
 /// Collect every static `require` / `require_relative` string in a file.
 pub fn find_all_require_strings(content: &str) -> Vec<RequireStringTarget> {
+    let content = ruby_analysis::indexer::mask_shebang(content);
     let parse_result = ruby_prism::parse(content.as_bytes());
     let mut finder = RequireStringFinder {
         byte_offset: None,
diff --git a/src/runtime/jruby/imports.rs b/src/runtime/jruby/imports.rs
index 8d08f04..6283b84 100644
--- a/src/runtime/jruby/imports.rs
+++ b/src/runtime/jruby/imports.rs
@@ -498,6 +498,7 @@ impl JrubyImportProvider {
     }
 
     pub fn static_navigation_plan(&self, source: &str) -> Result<StaticJavaNavigationPlan, String> {
+        let source = ruby_analysis::indexer::mask_shebang(source);
         let parse = ruby_prism::parse(source.as_bytes());
         self.static_navigation_plan_for_node(&parse.node())
     }
@@ -2142,6 +2143,7 @@ pub fn static_java_import_names(source: &str) -> Vec<String> {
 
 pub fn static_java_dependencies(source: &str) -> Vec<StaticJavaDependency> {
     record_semantic_prefilter_parse();
+    let source = ruby_analysis::indexer::mask_shebang(source);
     let parse = ruby_prism::parse(source.as_bytes());
     static_java_dependencies_for_node(&parse.node())
 }
@@ -2158,6 +2160,7 @@ fn static_java_dependencies_for_node(node: &Node<'_>) -> Vec<StaticJavaDependenc
 
 pub fn static_java_proxy_references(source: &str) -> Vec<String> {
     record_semantic_prefilter_parse();
+    let source = ruby_analysis::indexer::mask_shebang(source);
     let parse = ruby_prism::parse(source.as_bytes());
     static_java_proxy_references_for_node(&parse.node())
 }
@@ -2174,6 +2177,7 @@ fn static_java_proxy_references_for_node(node: &Node<'_>) -> Vec<String> {
 
 pub fn source_semantics_depend_on_jruby_catalog(source: &str) -> bool {
     record_semantic_prefilter_parse();
+    let source = ruby_analysis::indexer::mask_shebang(source);
     let parse = ruby_prism::parse(source.as_bytes());
     let mut visitor = StaticNavigationVisitor::default();
     visitor.visit(&parse.node());
-- 
2.43.0


From 593d646c592edfb6e9c4670204eb376c7a70199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:14 +0000
Subject: [PATCH 15/69] fix: keep scopes balanced when the position lies in a
 scope nested in a class header

---
 .../indexer/identifier_visitor/block_node.rs  |  2 +-
 .../indexer/identifier_visitor/class_node.rs  |  2 +-
 .../indexer/identifier_visitor/def_node.rs    |  2 +-
 .../src/indexer/identifier_visitor/mod.rs     | 11 ++++++++
 .../indexer/identifier_visitor/module_node.rs |  2 +-
 .../src/indexer/scope_tracker.rs              | 27 +++++++++----------
 6 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/block_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/block_node.rs
index 3f1aadf..e088a91 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/block_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/block_node.rs
@@ -29,7 +29,7 @@ impl IdentifierVisitor {
             }
         };
 
-        if !self.is_position_in_offsets(body_start, body_end) {
+        if !self.keep_scope(body_start, body_end) {
             self.scope_tracker.pop_scope_kind();
         }
     }
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
index 0971562..e34771f 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
@@ -67,7 +67,7 @@ impl IdentifierVisitor {
         let (body_start, body_end) =
             utils::get_body_offsets(node.body().map(|body| body.location()), &node.location());
 
-        if !self.is_position_in_offsets(body_start, body_end) {
+        if !self.keep_scope(body_start, body_end) {
             self.scope_tracker.pop_ns_scope();
             self.scope_tracker.pop_scope_kind();
         }
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs
index a2ce469..3fa6419 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs
@@ -91,7 +91,7 @@ impl IdentifierVisitor {
         let (body_start, body_end) =
             utils::get_body_offsets(node.body().map(|body| body.location()), &node.location());
 
-        if !self.is_position_in_offsets(body_start, body_end) {
+        if !self.keep_scope(body_start, body_end) {
             self.scope_tracker.pop_execution_context();
             self.scope_tracker.pop_scope_kind();
             self.scope_tracker.pop_method_fqn();
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
index a215e91..39de98b 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
@@ -42,6 +42,9 @@ pub struct IdentifierVisitor {
     byte_offset: u32,
     scope_tracker: ScopeTracker,
     execution_context: Option<ExecutionContextFact>,
+    /// Set once the innermost scope whose body holds the position has been
+    /// left. Its scopes stay pushed, so no enclosing exit may pop any more.
+    scopes_kept: bool,
 
     // Output
     pub ns_stack_at_pos: Vec<RubyConstant>,
@@ -73,6 +76,7 @@ impl IdentifierVisitor {
             byte_offset,
             scope_tracker,
             execution_context,
+            scopes_kept: false,
             ns_stack_at_pos: Vec::new(),
             namespace_kind_at_pos: None,
             lv_scope_id_at_pos: None,
@@ -105,6 +109,13 @@ impl IdentifierVisitor {
         position_offset >= start_offset && position_offset <= end_offset
     }
 
+    /// Whether a scope that is being left must stay pushed because the position
+    /// lies in its body or in that of a scope nested in its header.
+    fn keep_scope(&mut self, body_start: usize, body_end: usize) -> bool {
+        self.scopes_kept |= self.is_position_in_offsets(body_start, body_end);
+        self.scopes_kept
+    }
+
     pub fn cursor_offset(&self) -> u32 {
         self.byte_offset
     }
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
index ba9fbd8..720b744 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
@@ -67,7 +67,7 @@ impl IdentifierVisitor {
         let (body_start, body_end) =
             utils::get_body_offsets(node.body().map(|body| body.location()), &node.location());
 
-        if !self.is_position_in_offsets(body_start, body_end) {
+        if !self.keep_scope(body_start, body_end) {
             self.scope_tracker.pop_ns_scope();
             self.scope_tracker.pop_scope_kind();
         }
diff --git a/crates/ruby-analysis/src/indexer/scope_tracker.rs b/crates/ruby-analysis/src/indexer/scope_tracker.rs
index ee09e40..ec7f7b2 100644
--- a/crates/ruby-analysis/src/indexer/scope_tracker.rs
+++ b/crates/ruby-analysis/src/indexer/scope_tracker.rs
@@ -162,22 +162,19 @@ impl ScopeTracker {
 
     fn current_execution_context(&self) -> Option<&ExecutionContextFrame> {
         let context = self.execution_context_stack.last()?;
-        assert!(
-            context.local_scope_depth <= self.scope_kind_stack.len(),
-            "INVARIANT VIOLATED: execution context local-scope depth exceeds the active scope stack. This is a bug because scopes present when an execution context was pushed cannot disappear before that context is popped. Fix: keep execution-context and local-scope traversal balanced."
-        );
+        // Scopes kept at the queried position can leave fewer local scopes than
+        // a context nested in a class header was pushed with.
+        let local_scopes = self.scope_kind_stack.get(context.local_scope_depth..)?;
         (context.lexical_frame_depth == self.frames.len()
-            && !self.scope_kind_stack[context.local_scope_depth..]
-                .iter()
-                .any(|kind| {
-                    matches!(
-                        kind,
-                        LocalScopeKind::Constant
-                            | LocalScopeKind::InstanceMethod
-                            | LocalScopeKind::ClassMethod
-                            | LocalScopeKind::FrameworkInstanceBlock
-                    )
-                }))
+            && !local_scopes.iter().any(|kind| {
+                matches!(
+                    kind,
+                    LocalScopeKind::Constant
+                        | LocalScopeKind::InstanceMethod
+                        | LocalScopeKind::ClassMethod
+                        | LocalScopeKind::FrameworkInstanceBlock
+                )
+            }))
         .then_some(context)
     }
 
-- 
2.43.0


From 4b7cb95186a60098e48fc3b7e6cfbab415db38d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:14 +0000
Subject: [PATCH 16/69] fix: do not panic on incomplete constant paths (Foo::
 ||=, def ==(o)::)

---
 crates/ruby-analysis/src/indexer/analysis_indexer.rs   | 8 +++-----
 crates/ruby-analysis/src/inference/type_tracker/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index 7878065..7ae4a28 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -1137,12 +1137,10 @@ impl AnalysisIndexer {
         let Some(parts) = constant_path_parts(target) else {
             return;
         };
+        let Some(name) = target.name() else {
+            return;
+        };
         let fqn = FullyQualifiedName::constant(parts);
-        let name = target.name().expect(
-            "INVARIANT VIOLATED: constant path write target has no terminal name. \
-             This is a bug because constant_path_parts accepted the same target. \
-             Fix: keep constant path extraction and name range derivation aligned.",
-        );
         self.facts.symbols.push(
             SymbolFact::new(fqn.clone(), SymbolKind::Constant, self.range(location))
                 .with_name_range(terminal_name_range(
diff --git a/crates/ruby-analysis/src/inference/type_tracker/mod.rs b/crates/ruby-analysis/src/inference/type_tracker/mod.rs
index ea5b729..451eae1 100644
--- a/crates/ruby-analysis/src/inference/type_tracker/mod.rs
+++ b/crates/ruby-analysis/src/inference/type_tracker/mod.rs
@@ -4446,7 +4446,9 @@ impl<'a> TypeTracker<'a> {
         let constant_path = node.as_constant_path_node()?;
         let fqn = Self::resolve_constant_path(&constant_path)?;
         let absolute = Self::constant_path_is_absolute(&constant_path);
-        Some((fqn.namespace_parts(), absolute))
+        let parts = fqn.namespace_parts();
+        // An incomplete path (`::` with no name yet) refers to nothing.
+        (!parts.is_empty()).then_some((parts, absolute))
     }
 
     fn constant_path_is_absolute(constant_path: &ConstantPathNode<'_>) -> bool {
-- 
2.43.0


From 36b44750ddd9f67e575b7d2e58288fb6d0514ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:14 +0000
Subject: [PATCH 17/69] fix: do not panic at the boundary of two adjacent calls

---
 crates/ruby-analysis/src/engine/types.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/ruby-analysis/src/engine/types.rs b/crates/ruby-analysis/src/engine/types.rs
index 28a4b8c..7503116 100644
--- a/crates/ruby-analysis/src/engine/types.rs
+++ b/crates/ruby-analysis/src/engine/types.rs
@@ -376,11 +376,11 @@ impl<'a> AnalysisQuery<'a> {
                 Some((best_span, _, _)) if span < *best_span => {
                     best = Some((span, range, outcome));
                 }
-                Some((best_span, best_range, _)) if span == *best_span => {
-                    assert_eq!(
-                        range, *best_range,
-                        "INVARIANT VIOLATED: distinct equally specific call ranges overlap one source position. This is a bug because one syntax position cannot belong to two sibling complete calls with identical spans. Fix: emit one normalized call-expression range per AST call."
-                    );
+                // Adjacent calls share the boundary position; it starts the later one.
+                Some((best_span, best_range, _))
+                    if span == *best_span && range.start_byte > best_range.start_byte =>
+                {
+                    best = Some((span, range, outcome));
                 }
                 Some(_) => {}
             }
-- 
2.43.0


From 419dc1a2d04fad99df2b74ce45df8410023b46d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:30 +0000
Subject: [PATCH 18/69] fix: treat the reference position's column as UTF-16
 units

---
 src/query/references.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/query/references.rs b/src/query/references.rs
index 64c74ea..6095165 100644
--- a/src/query/references.rs
+++ b/src/query/references.rs
@@ -348,14 +348,22 @@ fn visibility_line_mentions_method(line: &str, keyword: &str, method: &str) -> b
         .any(|name| name == method)
 }
 
+/// The part of a line before an LSP (UTF-16) column.
+fn line_before_column(line: &str, column: u32) -> String {
+    let mut units = 0;
+    line.chars()
+        .take_while(|character| {
+            units += character.len_utf16();
+            units <= column as usize
+        })
+        .collect()
+}
+
 fn range_uses_invalid_private_receiver(content: &str, range: Range) -> bool {
     let Some(line) = content.lines().nth(range.start.line as usize) else {
         return false;
     };
-    let before = line
-        .chars()
-        .take(range.start.character as usize)
-        .collect::<String>();
+    let before = line_before_column(line, range.start.character);
     let trimmed = before.trim_end();
     trimmed.ends_with('.')
         || trimmed.ends_with("public_send(:")
@@ -364,10 +372,7 @@ fn range_uses_invalid_private_receiver(content: &str, range: Range) -> bool {
 
 fn explicit_receiver_constant_parts(content: &str, range: Range) -> Option<Vec<RubyConstant>> {
     let line = content.lines().nth(range.start.line as usize)?;
-    let before = line
-        .chars()
-        .take(range.start.character as usize)
-        .collect::<String>();
+    let before = line_before_column(line, range.start.character);
     let receiver = before.trim_end().strip_suffix('.')?.trim_end();
     let receiver = receiver.strip_suffix(".new").unwrap_or(receiver);
     let token = receiver.split_whitespace().last()?;
-- 
2.43.0


From 54f969867c1fde1c119fc36bb05a4c9c13479b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:30 +0000
Subject: [PATCH 19/69] fix: resolve constants as Ruby does (lexical scopes,
 then ancestors, then top level; headers and superclasses in the outer scope)

---
 .../ruby-analysis/src/engine/diagnostics.rs   |  26 +---
 crates/ruby-analysis/src/engine/query.rs      |  19 +++
 crates/ruby-analysis/src/engine/resolution.rs | 123 +++++++++++-------
 .../fact_collector/constant_path_node.rs      |  16 ++-
 .../src/indexer/fact_collector/mod.rs         |  23 +++-
 .../indexer/identifier_visitor/class_node.rs  |  16 +++
 .../identifier_visitor/constant_path_node.rs  |   4 +-
 .../indexer/identifier_visitor/module_node.rs |   8 ++
 8 files changed, 153 insertions(+), 82 deletions(-)

diff --git a/crates/ruby-analysis/src/engine/diagnostics.rs b/crates/ruby-analysis/src/engine/diagnostics.rs
index f8dfcc6..07e4068 100644
--- a/crates/ruby-analysis/src/engine/diagnostics.rs
+++ b/crates/ruby-analysis/src/engine/diagnostics.rs
@@ -2044,31 +2044,7 @@ impl AnalysisEngine {
         parts: &[crate::core::RubyConstant],
         current_namespace: &[crate::core::RubyConstant],
     ) -> Option<FullyQualifiedName> {
-        let mut search = current_namespace.to_vec();
-
-        loop {
-            let mut probe = search.clone();
-            probe.extend(parts.iter().cloned());
-
-            let namespace_fqn = FullyQualifiedName::namespace(probe.clone());
-            if !self.graph_nodes_for(&namespace_fqn).is_empty()
-                || !self.symbol_facts_for(&namespace_fqn).is_empty()
-            {
-                return Some(namespace_fqn);
-            }
-
-            let constant_fqn = FullyQualifiedName::constant(probe);
-            if !self.symbol_facts_for(&constant_fqn).is_empty() {
-                return Some(constant_fqn);
-            }
-
-            if search.is_empty() {
-                break;
-            }
-            search.pop();
-        }
-
-        None
+        super::resolution::resolve_constant_path(self, parts, current_namespace)
     }
 }
 
diff --git a/crates/ruby-analysis/src/engine/query.rs b/crates/ruby-analysis/src/engine/query.rs
index 56cfc94..effcaf4 100644
--- a/crates/ruby-analysis/src/engine/query.rs
+++ b/crates/ruby-analysis/src/engine/query.rs
@@ -119,6 +119,25 @@ impl<'a> AnalysisQuery<'a> {
                 candidates.push(candidate);
             }
         }
+        // In `Foo::Bar` the segment under the cursor is the reference: the path
+        // that merely contains it is not a second target.
+        let innermost_constant_len = candidates
+            .iter()
+            .filter(|candidate| {
+                matches!(
+                    candidate.kind,
+                    StoredReferenceCandidateKind::Constant { .. }
+                )
+            })
+            .map(|candidate| candidate.range.end_byte - candidate.range.start_byte)
+            .min();
+        candidates.retain(|candidate| {
+            !matches!(
+                candidate.kind,
+                StoredReferenceCandidateKind::Constant { .. }
+            ) || Some(candidate.range.end_byte - candidate.range.start_byte)
+                == innermost_constant_len
+        });
         if let [candidate] = candidates.as_slice() {
             if let StoredReferenceCandidateKind::Method {
                 owner,
diff --git a/crates/ruby-analysis/src/engine/resolution.rs b/crates/ruby-analysis/src/engine/resolution.rs
index dbac6da..9e0c862 100644
--- a/crates/ruby-analysis/src/engine/resolution.rs
+++ b/crates/ruby-analysis/src/engine/resolution.rs
@@ -2049,31 +2049,7 @@ impl<'a> AnalysisQuery<'a> {
         parts: &[RubyConstant],
         current_namespace: &[RubyConstant],
     ) -> Option<FullyQualifiedName> {
-        let mut search = current_namespace.to_vec();
-
-        loop {
-            let mut probe = search.clone();
-            probe.extend(parts.iter().cloned());
-
-            let namespace_fqn = FullyQualifiedName::namespace(probe.clone());
-            if !self.engine.graph_nodes_for(&namespace_fqn).is_empty()
-                || !self.engine.symbol_facts_for(&namespace_fqn).is_empty()
-            {
-                return Some(namespace_fqn);
-            }
-
-            let constant_fqn = FullyQualifiedName::constant(probe);
-            if !self.engine.symbol_facts_for(&constant_fqn).is_empty() {
-                return Some(constant_fqn);
-            }
-
-            if search.is_empty() {
-                break;
-            }
-            search.pop();
-        }
-
-        None
+        resolve_constant_path(self.engine, parts, current_namespace)
     }
 }
 
@@ -3155,36 +3131,87 @@ fn resolve_constant_fqn(
     absolute: bool,
     context_fqn: &FullyQualifiedName,
 ) -> Option<FullyQualifiedName> {
-    let mut search_namespaces = if absolute {
-        Vec::new()
+    if absolute {
+        resolve_constant_path(engine, parts, &[])
     } else {
-        context_fqn.namespace_parts()
-    };
+        resolve_constant_path(engine, parts, &context_fqn.namespace_parts())
+    }
+}
 
-    loop {
-        let mut probe = search_namespaces.clone();
-        probe.extend(parts.iter().cloned());
+/// Resolve a constant path the way Ruby does.
+///
+/// The first segment is looked up in the lexically enclosing namespaces from
+/// the inside out, then in the ancestors of the innermost one, then at top
+/// level. Every further segment is looked up in the namespace found so far and
+/// its ancestors. A path whose outer segments are not indexed themselves
+/// (`class A::B` without `A`) is still found under any enclosing namespace.
+pub(super) fn resolve_constant_path(
+    engine: &crate::AnalysisEngine,
+    parts: &[RubyConstant],
+    lexical_namespace: &[RubyConstant],
+) -> Option<FullyQualifiedName> {
+    let (head, rest) = parts.split_first()?;
+    let resolved_head = (1..=lexical_namespace.len())
+        .rev()
+        .find_map(|depth| constant_member(engine, &lexical_namespace[..depth], *head))
+        .or_else(|| inherited_constant_member(engine, lexical_namespace, *head))
+        .or_else(|| constant_member(engine, &[], *head));
+    if let Some(resolved_head) = resolved_head {
+        return rest.iter().try_fold(resolved_head, |namespace, part| {
+            let namespace = namespace.namespace_parts();
+            constant_member(engine, &namespace, *part)
+                .or_else(|| inherited_constant_member(engine, &namespace, *part))
+        });
+    }
 
-        let namespace_fqn = FullyQualifiedName::namespace_with_kind(
-            probe.clone(),
-            crate::core::NamespaceKind::Instance,
-        );
-        if !engine.graph_nodes_for(&namespace_fqn).is_empty() {
-            return Some(namespace_fqn);
-        }
+    (0..=lexical_namespace.len())
+        .rev()
+        .find_map(|depth| indexed_constant(engine, [&lexical_namespace[..depth], parts].concat()))
+}
 
-        let constant_fqn = FullyQualifiedName::constant(probe);
-        if !engine.symbol_facts_for(&constant_fqn).is_empty() {
-            return Some(constant_fqn);
-        }
+fn constant_member(
+    engine: &crate::AnalysisEngine,
+    namespace: &[RubyConstant],
+    name: RubyConstant,
+) -> Option<FullyQualifiedName> {
+    indexed_constant(engine, [namespace, &[name]].concat())
+}
 
-        if absolute || search_namespaces.is_empty() {
-            break;
-        }
-        search_namespaces.pop();
+fn indexed_constant(
+    engine: &crate::AnalysisEngine,
+    parts: Vec<RubyConstant>,
+) -> Option<FullyQualifiedName> {
+    let namespace_fqn = FullyQualifiedName::namespace(parts.clone());
+    if !engine.graph_nodes_for(&namespace_fqn).is_empty()
+        || !engine.symbol_facts_for(&namespace_fqn).is_empty()
+    {
+        return Some(namespace_fqn);
     }
+    let constant_fqn = FullyQualifiedName::constant(parts);
+    (!engine.symbol_facts_for(&constant_fqn).is_empty()).then_some(constant_fqn)
+}
 
-    None
+fn inherited_constant_member(
+    engine: &crate::AnalysisEngine,
+    namespace: &[RubyConstant],
+    name: RubyConstant,
+) -> Option<FullyQualifiedName> {
+    if namespace.is_empty() {
+        return None;
+    }
+    let namespace_fqn = FullyQualifiedName::namespace(namespace.to_vec());
+    let mut ancestors = Vec::new();
+    build_mro(
+        engine,
+        &namespace_fqn,
+        &mut ancestors,
+        &mut std::collections::HashSet::new(),
+        false,
+    );
+    ancestors
+        .iter()
+        .filter(|ancestor| !is_universal_open_root(ancestor))
+        .find_map(|ancestor| constant_member(engine, ancestor.namespace_parts_slice(), name))
 }
 
 pub(super) fn node_kind(
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/constant_path_node.rs b/crates/ruby-analysis/src/indexer/fact_collector/constant_path_node.rs
index 0c13b21..2c49e9b 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/constant_path_node.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/constant_path_node.rs
@@ -18,9 +18,23 @@ impl FactCollector {
         self.reference_candidates.push(ReferenceCandidate::constant(
             range,
             namespaces,
-            self.scope_tracker.get_ns_stack(),
+            if is_absolute_constant_path(node) {
+                Vec::new()
+            } else {
+                self.scope_tracker.get_ns_stack()
+            },
         ));
     }
 
     pub fn process_constant_path_node_exit(&mut self, _node: &ConstantPathNode) {}
 }
+
+/// Whether the path is rooted at the top level (`::Foo::Bar`).
+fn is_absolute_constant_path(node: &ConstantPathNode) -> bool {
+    match node.parent() {
+        None => true,
+        Some(parent) => parent
+            .as_constant_path_node()
+            .is_some_and(|parent| is_absolute_constant_path(&parent)),
+    }
+}
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/mod.rs b/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
index daef098..a37c6ed 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
@@ -3628,22 +3628,33 @@ impl Visit<'_> for FactCollector {
     }
 
     fn visit_module_node(&mut self, node: &ModuleNode) {
-        if !self.process_module_node_entry(node) {
-            visit_module_node(self, node);
+        // The header is evaluated outside the namespace it introduces.
+        self.visit(&node.constant_path());
+        let entered = self.process_module_node_entry(node);
+        if let Some(body) = node.body() {
+            self.visit(&body);
+        }
+        if !entered {
             return;
         }
-        visit_module_node(self, node);
         let namespace = self.scope_tracker.get_ns_stack();
         self.finalize_method_return_equations_for_namespace(&namespace);
         self.process_module_node_exit(node);
     }
 
     fn visit_class_node(&mut self, node: &ClassNode) {
-        if !self.process_class_node_entry(node) {
-            visit_class_node(self, node);
+        // The header is evaluated outside the namespace it introduces.
+        self.visit(&node.constant_path());
+        if let Some(superclass) = node.superclass() {
+            self.visit(&superclass);
+        }
+        let entered = self.process_class_node_entry(node);
+        if let Some(body) = node.body() {
+            self.visit(&body);
+        }
+        if !entered {
             return;
         }
-        visit_class_node(self, node);
         let namespace = self.scope_tracker.get_ns_stack();
         self.finalize_method_return_equations_for_namespace(&namespace);
         self.process_class_node_exit(node);
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
index e34771f..39ddadf 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
@@ -18,6 +18,14 @@ impl IdentifierVisitor {
         if self.is_position_in_location(&name_loc) {
             // Handle constant path node for class definition
             if let Some(constant_path_node) = constant_path.as_constant_path_node() {
+                // A qualifying segment is a reference of its own, resolved
+                // where the header stands.
+                if constant_path_node
+                    .parent()
+                    .is_some_and(|parent| self.is_position_in_location(&parent.location()))
+                {
+                    return false;
+                }
                 let mut namespaces = Vec::new();
                 utils::collect_namespaces(&constant_path_node, &mut namespaces);
                 self.set_result(
@@ -48,6 +56,14 @@ impl IdentifierVisitor {
             return false;
         }
 
+        // Ruby evaluates the superclass outside the class it introduces.
+        if node
+            .superclass()
+            .is_some_and(|superclass| self.is_position_in_location(&superclass.location()))
+        {
+            return false;
+        }
+
         // Add the class name to the namespace stack
         let entered = self
             .scope_tracker
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/constant_path_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/constant_path_node.rs
index 0201e6f..3bf8257 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/constant_path_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/constant_path_node.rs
@@ -48,11 +48,11 @@ impl IdentifierVisitor {
 
             self.set_result(
                 Some(Identifier::RubyConstant {
-                    namespace: namespace_context,
+                    namespace: namespace_context.clone(),
                     iden: namespaces,
                 }),
                 Some(IdentifierType::ConstantDef),
-                self.scope_tracker.get_ns_stack(),
+                namespace_context,
                 Some(0),
             );
         }
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
index 720b744..122717c 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
@@ -18,6 +18,14 @@ impl IdentifierVisitor {
         if self.is_position_in_location(&name_loc) {
             // Handle constant path node for module definition
             if let Some(constant_path_node) = constant_path.as_constant_path_node() {
+                // A qualifying segment is a reference of its own, resolved
+                // where the header stands.
+                if constant_path_node
+                    .parent()
+                    .is_some_and(|parent| self.is_position_in_location(&parent.location()))
+                {
+                    return false;
+                }
                 let mut namespaces = Vec::new();
                 utils::collect_namespaces(&constant_path_node, &mut namespaces);
                 self.set_result(
-- 
2.43.0


From 2a5e837f4158afe670c017ca5439ff8c35bf0222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:30 +0000
Subject: [PATCH 20/69] fix: let self reach private methods and keep def self.x
 public after a bare private

---
 .../src/indexer/analysis_indexer.rs           | 30 +++++++++++++------
 .../indexer/fact_collector/call_node/mod.rs   |  5 ++--
 .../src/indexer/fact_collector/mod.rs         |  9 +++++-
 src/query/definition.rs                       |  1 +
 4 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index 7ae4a28..43988b2 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -190,6 +190,20 @@ impl AnalysisIndexer {
         })
     }
 
+    /// Visibility of a method defined here. A bare `private` or `protected`
+    /// covers the body's own definitions only: `def self.name` stays public.
+    fn definition_visibility(&self, owner_kind: NamespaceKind) -> MethodVisibility {
+        let body_kind = match self.current_scope_kind() {
+            ScopeKind::Instance => NamespaceKind::Instance,
+            ScopeKind::Singleton => NamespaceKind::Singleton,
+        };
+        if owner_kind == body_kind {
+            self.current_visibility()
+        } else {
+            MethodVisibility::Public
+        }
+    }
+
     fn set_current_visibility(&mut self, visibility: MethodVisibility) {
         let Some(current) = self.visibility_stack.last_mut() else {
             panic!(
@@ -376,9 +390,10 @@ impl AnalysisIndexer {
         self.facts
             .symbols
             .push(SymbolFact::new(fqn.clone(), SymbolKind::Method, range));
-        self.facts
-            .methods
-            .push(MethodFact::new(fqn, owner, range).with_visibility(self.current_visibility()));
+        self.facts.methods.push(
+            MethodFact::new(fqn, owner, range)
+                .with_visibility(self.definition_visibility(owner_kind)),
+        );
     }
 
     fn push_method_fact_with_params(
@@ -396,7 +411,7 @@ impl AnalysisIndexer {
             .push(SymbolFact::new(fqn.clone(), SymbolKind::Method, range));
         self.facts.methods.push(
             MethodFact::with_param_facts(fqn, owner, range, params)
-                .with_visibility(self.current_visibility()),
+                .with_visibility(self.definition_visibility(owner_kind)),
         );
     }
 
@@ -522,9 +537,7 @@ impl AnalysisIndexer {
                 self.namespace_stack.clone(),
                 crate::core::NamespaceKind::Singleton,
             );
-            self.facts.methods.push(
-                MethodFact::new(fqn, owner, range).with_visibility(self.current_visibility()),
-            );
+            self.facts.methods.push(MethodFact::new(fqn, owner, range));
         }
     }
 
@@ -1468,7 +1481,7 @@ impl Visit<'_> for AnalysisIndexer {
                         .and_then(YardMethodDoc::format_return_type),
                 )
                 .with_availability(availability.clone())
-                .with_visibility(self.current_visibility())
+                .with_visibility(self.definition_visibility(owner_kind))
                 .with_forwarded_block_call(forwarded_block_call.clone())
                 .with_direct_yield_call(direct_yield_call.clone()),
         );
@@ -1494,7 +1507,6 @@ impl Visit<'_> for AnalysisIndexer {
                             .and_then(YardMethodDoc::format_return_type),
                     )
                     .with_availability(availability)
-                    .with_visibility(self.current_visibility())
                     .with_forwarded_block_call(forwarded_block_call)
                     .with_direct_yield_call(direct_yield_call),
             );
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs b/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
index 11a5ed0..983403d 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
@@ -1999,8 +1999,9 @@ fn method_reference_access(
 
     match receiver_info {
         ReceiverInfo::NoReceiver => MethodReferenceAccess::Normal,
-        ReceiverInfo::SelfReceiver
-        | ReceiverInfo::ConstantReceiver(_)
+        // Ruby permits private calls on a literal `self` receiver.
+        ReceiverInfo::SelfReceiver => MethodReferenceAccess::VisibilityBypass,
+        ReceiverInfo::ConstantReceiver(_)
         | ReceiverInfo::ExpressionReceiver
         | ReceiverInfo::InvalidConstantPath => MethodReferenceAccess::ExplicitReceiver,
     }
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/mod.rs b/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
index a37c6ed..5190678 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
@@ -1031,6 +1031,13 @@ impl FactCollector {
     ) {
         let fqn = FullyQualifiedName::method(namespace.clone(), method);
         let owner = FullyQualifiedName::namespace_with_kind(namespace, owner_kind);
+        // A bare `private` or `protected` covers the body's own definitions
+        // only: `def self.name` stays public.
+        let visibility = if owner_kind == self.scope_tracker.current_macro_definition_context() {
+            self.scope_tracker.current_visibility()
+        } else {
+            MethodVisibility::Public
+        };
         self.direct_facts.symbols.push(
             SymbolFact::new(fqn.clone(), SymbolKind::Method, range).with_name_range(name_range),
         );
@@ -1039,7 +1046,7 @@ impl FactCollector {
                 .with_name_range(name_range)
                 .with_signature_metadata(documentation, return_type_label)
                 .with_availability(availability)
-                .with_visibility(self.scope_tracker.current_visibility()),
+                .with_visibility(visibility),
         );
     }
 
diff --git a/src/query/definition.rs b/src/query/definition.rs
index 21890b4..77671ce 100644
--- a/src/query/definition.rs
+++ b/src/query/definition.rs
@@ -138,6 +138,7 @@ fn method_receiver_allows_private(
     matches!(
         receiver,
         ruby_analysis::indexer::MethodReceiver::None
+            | ruby_analysis::indexer::MethodReceiver::SelfReceiver
             | ruby_analysis::indexer::MethodReceiver::Super
     ) || static_send_symbol_at_position(content, position)
 }
-- 
2.43.0


From 9871bab789eee0cd0a2e512b48571f41d83b2932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:24 +0000
Subject: [PATCH 21/69] fix: order ancestors as Ruby does when modules are
 mixed in more than once

---
 crates/ruby-analysis/src/engine/resolution.rs | 132 ++++++++++++------
 1 file changed, 88 insertions(+), 44 deletions(-)

diff --git a/crates/ruby-analysis/src/engine/resolution.rs b/crates/ruby-analysis/src/engine/resolution.rs
index 9e0c862..f349b37 100644
--- a/crates/ruby-analysis/src/engine/resolution.rs
+++ b/crates/ruby-analysis/src/engine/resolution.rs
@@ -2627,67 +2627,111 @@ fn build_mro(
     visited: &mut std::collections::HashSet<FullyQualifiedName>,
     allow_non_language_universal_edges: bool,
 ) {
-    if !visited.insert(fqn.clone()) {
-        return;
+    let mut cache = HashMap::new();
+    for ancestor in linearize_ancestors(
+        engine,
+        fqn,
+        allow_non_language_universal_edges,
+        &mut HashSet::new(),
+        &mut cache,
+    ) {
+        if visited.insert(ancestor.clone()) {
+            chain.push(ancestor);
+        }
+    }
+}
+
+/// Ancestors of `fqn` in Ruby's order. Each `include` inserts the module's own
+/// ancestors right behind `fqn`, moving behind those already present and
+/// leaving out those the superclass already provides; each `prepend` does the
+/// same in front of `fqn`.
+fn linearize_ancestors(
+    engine: &crate::AnalysisEngine,
+    fqn: &FullyQualifiedName,
+    allow_non_language_universal_edges: bool,
+    active: &mut HashSet<FullyQualifiedName>,
+    cache: &mut HashMap<FullyQualifiedName, Vec<FullyQualifiedName>>,
+) -> Vec<FullyQualifiedName> {
+    if let Some(ancestors) = cache.get(fqn) {
+        return ancestors.clone();
+    }
+    if !active.insert(fqn.clone()) {
+        return Vec::new();
     }
 
     let language_owned_only = is_universal_open_root(fqn) && !allow_non_language_universal_edges;
     let edge_is_allowed = |edge: &GraphEdgeFact| {
         !language_owned_only || method_lookup_edge_is_language_owned(engine, edge)
     };
-
-    let mut prepends = edges_from(engine, fqn, GraphEdgeKind::Prepend)
-        .into_iter()
-        .filter(&edge_is_allowed)
-        .collect::<Vec<_>>();
-    for edge in prepends.iter_mut().rev() {
-        build_mro(
+    let mut ancestors_of = |target: &FullyQualifiedName| {
+        linearize_ancestors(
             engine,
-            &edge.target,
-            chain,
-            visited,
+            target,
             allow_non_language_universal_edges,
-        );
-    }
+            active,
+            cache,
+        )
+    };
 
-    chain.push(fqn.clone());
+    let inherited = engine
+        .proven_superclass_edge(fqn)
+        .filter(&edge_is_allowed)
+        .map(|superclass| ancestors_of(&superclass.target))
+        .unwrap_or_default();
 
-    let mut includes = edges_from(engine, fqn, GraphEdgeKind::Include)
+    let mut prepended = Vec::new();
+    for edge in edges_from(engine, fqn, GraphEdgeKind::Prepend)
         .into_iter()
         .filter(&edge_is_allowed)
-        .collect::<Vec<_>>();
-    for edge in includes.iter_mut().rev() {
-        build_mro(
-            engine,
-            &edge.target,
-            chain,
-            visited,
-            allow_non_language_universal_edges,
-        );
+    {
+        insert_ancestors(&mut prepended, ancestors_of(&edge.target), &[]);
     }
-
-    let mut included_hook_extends = included_hook_extend_edges(engine, fqn, language_owned_only)
+    let mut included = Vec::new();
+    for edge in edges_from(engine, fqn, GraphEdgeKind::Include)
         .into_iter()
         .filter(&edge_is_allowed)
-        .collect::<Vec<_>>();
-    for edge in included_hook_extends.iter_mut().rev() {
-        build_mro(
-            engine,
-            &edge.target,
-            chain,
-            visited,
-            allow_non_language_universal_edges,
-        );
+    {
+        insert_ancestors(&mut included, ancestors_of(&edge.target), &inherited);
+    }
+    for edge in included_hook_extend_edges(engine, fqn, language_owned_only)
+        .into_iter()
+        .filter(&edge_is_allowed)
+        .rev()
+    {
+        included.extend(ancestors_of(&edge.target));
     }
 
-    if let Some(superclass) = engine.proven_superclass_edge(fqn).filter(&edge_is_allowed) {
-        build_mro(
-            engine,
-            &superclass.target,
-            chain,
-            visited,
-            allow_non_language_universal_edges,
-        );
+    let mut seen = HashSet::new();
+    let ancestors = prepended
+        .into_iter()
+        .chain([fqn.clone()])
+        .chain(included)
+        .chain(inherited)
+        .filter(|ancestor| seen.insert(ancestor.clone()))
+        .collect::<Vec<_>>();
+    active.remove(fqn);
+    cache.insert(fqn.clone(), ancestors.clone());
+    ancestors
+}
+
+/// Insert the ancestors of one mixed-in module at the front of `mixins`.
+fn insert_ancestors(
+    mixins: &mut Vec<FullyQualifiedName>,
+    ancestors: Vec<FullyQualifiedName>,
+    inherited: &[FullyQualifiedName],
+) {
+    let mut position = 0;
+    for ancestor in ancestors {
+        if inherited.contains(&ancestor) {
+            continue;
+        }
+        match mixins.iter().position(|present| *present == ancestor) {
+            Some(present) => position = present + 1,
+            None => {
+                mixins.insert(position, ancestor);
+                position += 1;
+            }
+        }
     }
 }
 
-- 
2.43.0


From e8020036b679f1aecdb1501fb1466f752830a1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:22 +0000
Subject: [PATCH 22/69] fix: mix the arguments of one include/prepend/extend
 call in last to first, as Ruby does

---
 crates/ruby-analysis/src/indexer/analysis_indexer.rs         | 5 ++++-
 .../src/indexer/fact_collector/call_node/mod.rs              | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index 43988b2..6ff45fb 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -1738,7 +1738,10 @@ impl Visit<'_> for AnalysisIndexer {
                     source.clone()
                 };
                 let range = self.range(&node.location());
-                for arg in arguments.arguments().iter() {
+                // Ruby mixes the arguments of one call in last to first.
+                let mut mixins = arguments.arguments().iter().collect::<Vec<_>>();
+                mixins.reverse();
+                for arg in mixins {
                     let mixin_ref = if arg.as_self_node().is_some() {
                         Some((source.namespace_parts(), true))
                             .filter(|(parts, _)| !parts.is_empty())
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs b/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
index 983403d..5265c4c 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
@@ -790,7 +790,10 @@ impl FactCollector {
             source.clone()
         };
         let range = self.direct_range(&node.location());
-        for arg in arguments.arguments().iter() {
+        // Ruby mixes the arguments of one call in last to first.
+        let mut mixins = arguments.arguments().iter().collect::<Vec<_>>();
+        mixins.reverse();
+        for arg in mixins {
             let mixin_ref = if arg.as_self_node().is_some() {
                 Some((source.namespace_parts(), true)).filter(|(parts, _)| !parts.is_empty())
             } else {
-- 
2.43.0


From 32b588f895f3b715e4b4fe2058666aa931915670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:22 +0000
Subject: [PATCH 23/69] fix: honour inline visibility modifiers (private def
 name)

---
 crates/ruby-analysis/src/indexer/analysis_indexer.rs     | 9 +++++++++
 .../src/indexer/fact_collector/call_node/mod.rs          | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index 6ff45fb..c6c43b8 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -1968,6 +1968,15 @@ fn method_name_and_range(node: &Node<'_>, file_id: SourceFileId) -> Option<(Stri
             text_range(file_id, &string.content_loc()),
         ));
     }
+    // `private def name`: a definition with a receiver is not affected.
+    if let Some(definition) = node.as_def_node() {
+        return definition.receiver().is_none().then(|| {
+            (
+                String::from_utf8_lossy(definition.name().as_slice()).to_string(),
+                text_range(file_id, &definition.name_loc()),
+            )
+        });
+    }
     None
 }
 
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs b/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
index 5265c4c..f338d5b 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
@@ -1898,6 +1898,15 @@ fn direct_method_name_and_range(
             visitor.direct_range(&string.content_loc()),
         ));
     }
+    // `private def name`: a definition with a receiver is not affected.
+    if let Some(definition) = node.as_def_node() {
+        return definition.receiver().is_none().then(|| {
+            (
+                String::from_utf8_lossy(definition.name().as_slice()).to_string(),
+                visitor.direct_range(&definition.name_loc()),
+            )
+        });
+    }
     None
 }
 
-- 
2.43.0


From d64fdaebdc18ea67c635eca9ffbdf03b992a8344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:12 +0000
Subject: [PATCH 24/69] fix: keep the facts of a module reopened in another
 file

---
 .../src/indexer/analysis_indexer.rs           | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index c6c43b8..6c1224a 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -1189,16 +1189,7 @@ impl AnalysisIndexer {
 impl Visit<'_> for AnalysisIndexer {
     fn visit_class_node(&mut self, node: &ClassNode<'_>) {
         let lexical_context = self.namespace_stack.clone();
-        let syntactic_fqn =
-            constant_parts_and_absolute(&node.constant_path()).map(|(parts, absolute)| {
-                if absolute {
-                    FullyQualifiedName::namespace(parts)
-                } else {
-                    let mut probe = lexical_context.clone();
-                    probe.extend(parts);
-                    FullyQualifiedName::namespace(probe)
-                }
-            });
+        let syntactic_fqn = syntactic_namespace(&node.constant_path(), &lexical_context);
         let mut reopened_target = constant_parts_and_absolute(&node.constant_path())
             .and_then(|(parts, absolute)| {
                 self.resolve_declaration_constant_value_type_from(
@@ -1331,6 +1322,7 @@ impl Visit<'_> for AnalysisIndexer {
 
     fn visit_module_node(&mut self, node: &ModuleNode<'_>) {
         let lexical_context = self.namespace_stack.clone();
+        let syntactic_fqn = syntactic_namespace(&node.constant_path(), &lexical_context);
         let reopened_target = constant_parts_and_absolute(&node.constant_path())
             .and_then(|(parts, absolute)| {
                 self.resolve_declaration_constant_value_type_from(
@@ -1350,7 +1342,10 @@ impl Visit<'_> for AnalysisIndexer {
                 | RubyType::Shape(_)
                 | RubyType::Union(_)
                 | RubyType::Unknown => None,
-            });
+            })
+            // Another file's `module Name` is the module itself, not an alias
+            // of it: this reopening keeps its own facts.
+            .filter(|target| Some(target) != syntactic_fqn.as_ref());
         let (parts, previous_namespace) = if let Some(target) = &reopened_target {
             let parts = target.namespace_parts().to_vec();
             assert!(
@@ -1954,6 +1949,19 @@ fn attr_name_and_range(node: &Node<'_>, file_id: SourceFileId) -> Option<(String
     None
 }
 
+/// The namespace a `class` or `module` header spells out.
+fn syntactic_namespace(
+    constant_path: &Node<'_>,
+    lexical_context: &[RubyConstant],
+) -> Option<FullyQualifiedName> {
+    let (parts, absolute) = constant_parts_and_absolute(constant_path)?;
+    Some(FullyQualifiedName::namespace(if absolute {
+        parts
+    } else {
+        [lexical_context, &parts].concat()
+    }))
+}
+
 fn method_name_and_range(node: &Node<'_>, file_id: SourceFileId) -> Option<(String, TextRange)> {
     if let Some(symbol) = node.as_symbol_node() {
         let location = symbol.value_loc().unwrap_or_else(|| symbol.location());
-- 
2.43.0


From 3550fa7dc69a8c0835ef07dec41a8072f43bc8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:12 +0000
Subject: [PATCH 25/69] fix: order constant completion candidates independently
 of edit history

---
 crates/ruby-analysis/src/engine/lookup.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/ruby-analysis/src/engine/lookup.rs b/crates/ruby-analysis/src/engine/lookup.rs
index 71f827d..276edba 100644
--- a/crates/ruby-analysis/src/engine/lookup.rs
+++ b/crates/ruby-analysis/src/engine/lookup.rs
@@ -1,5 +1,3 @@
-use std::collections::HashSet;
-
 use crate::core::{
     FullyQualifiedName, GraphEdgeKind, GraphNodeKind, MethodFact, NamespaceKind, RubyConstant,
     RubyType, SymbolKind, TextRange,
@@ -47,7 +45,6 @@ impl<'a> AnalysisQuery<'a> {
     }
 
     pub fn constant_matches(&self, request: &ConstantLookupRequest) -> Vec<ConstantMatch> {
-        let mut seen = HashSet::new();
         let mut candidates = self
             .engine
             .all_symbol_facts()
@@ -58,7 +55,6 @@ impl<'a> AnalysisQuery<'a> {
                     SymbolKind::Class | SymbolKind::Module | SymbolKind::Constant
                 ) && !fact.fqn.has_generated_owner()
             })
-            .filter(|fact| seen.insert(fact.fqn.namespace_parts()))
             .filter(|fact| Self::constant_matches_request(&fact.fqn, request))
             .map(|fact| ConstantMatch {
                 fqn: fact.fqn,
@@ -66,7 +62,17 @@ impl<'a> AnalysisQuery<'a> {
             })
             .collect::<Vec<_>>();
 
-        candidates.sort_by(|left, right| left.fqn.name().cmp(&right.fqn.name()));
+        // Facts come in arena order, which depends on how the files were edited:
+        // order the candidates completely before choosing among them.
+        candidates.sort_by_cached_key(|candidate| {
+            (
+                candidate.fqn.name(),
+                candidate.fqn.to_string(),
+                candidate.kind,
+            )
+        });
+        candidates
+            .dedup_by(|left, right| left.fqn.namespace_parts() == right.fqn.namespace_parts());
         candidates.truncate(request.limit);
         candidates
     }
-- 
2.43.0


From 0f5235bf0fd27a16c970293e634da3f7a6d7797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:12 +0000
Subject: [PATCH 26/69] fix: do not resolve names in an edited file against its
 previous text

---
 src/indexer/file_processor.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/indexer/file_processor.rs b/src/indexer/file_processor.rs
index 15eadf5..716fdeb 100644
--- a/src/indexer/file_processor.rs
+++ b/src/indexer/file_processor.rs
@@ -1613,7 +1613,7 @@ fn collect_direct_facts(
 ) -> ruby_analysis::indexer::AnalysisIndex {
     let known_namespaces = known_namespaces
         .cloned()
-        .unwrap_or_else(|| collect_known_namespaces(analysis_engine));
+        .unwrap_or_else(|| collect_known_namespaces_outside(analysis_engine, file_id));
     let known_constant_types = collect_known_constant_types(analysis_engine, file_id);
     AnalysisIndexer::with_known_semantics(file_id, known_namespaces, known_constant_types)
         .index_node_with_source(node, content)
@@ -2515,6 +2515,31 @@ fn collect_known_namespaces(
     AnalysisQuery::new(&engine).known_namespace_fqns()
 }
 
+/// Namespaces declared by other files: what this file declared before the
+/// edit must not resolve the names in its new text.
+fn collect_known_namespaces_outside(
+    analysis_engine: &Arc<parking_lot::RwLock<AnalysisEngine>>,
+    current_file: ruby_analysis::core::SourceFileId,
+) -> HashSet<FullyQualifiedName> {
+    let engine = analysis_engine.read();
+    let mut namespaces = AnalysisQuery::new(&engine).known_namespace_fqns();
+    let store = engine.symbol_store();
+    for own in store.facts_in_file(current_file) {
+        let declared_elsewhere = store.facts_for(own.fqn).iter().any(|fact| {
+            matches!(
+                fact.kind,
+                AnalysisSymbolKind::Class | AnalysisSymbolKind::Module
+            ) && fact.range.file_id != current_file
+        });
+        if !declared_elsewhere {
+            if let Some(fqn) = engine.fqn_for_id(own.fqn) {
+                namespaces.remove(fqn);
+            }
+        }
+    }
+    namespaces
+}
+
 fn collect_known_constant_types(
     analysis_engine: &Arc<parking_lot::RwLock<AnalysisEngine>>,
     current_file: ruby_analysis::core::SourceFileId,
-- 
2.43.0


From 5e1e763f939bd9b1e82e4e668aa7adb177d17571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:31 +0000
Subject: [PATCH 27/69] fix: count destructured parameters as positional
 arguments

---
 .../src/indexer/analysis_indexer.rs           | 20 +++++++++++++++++++
 .../src/indexer/fact_collector/def_node.rs    | 15 ++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index 6c1224a..9b501c4 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -2139,6 +2139,14 @@ fn constant_path_parts(path: &ConstantPathNode<'_>) -> Option<Vec<RubyConstant>>
     (!parts.is_empty()).then_some(parts)
 }
 
+/// `(left, right)` on one line, however the source wraps it.
+pub(crate) fn destructured_param_label(param: &ruby_prism::MultiTargetNode<'_>) -> String {
+    String::from_utf8_lossy(param.location().as_slice())
+        .split_whitespace()
+        .collect::<Vec<_>>()
+        .join(" ")
+}
+
 fn method_param_facts(node: &DefNode<'_>) -> Vec<MethodParamFact> {
     let mut params = Vec::new();
     let Some(params_node) = node.parameters() else {
@@ -2151,6 +2159,12 @@ fn method_param_facts(node: &DefNode<'_>) -> Vec<MethodParamFact> {
                 String::from_utf8_lossy(param.name().as_slice()).to_string(),
                 MethodParamKind::Required,
             ));
+        } else if let Some(param) = required.as_multi_target_node() {
+            // `(left, right)` destructures one positional argument.
+            params.push(MethodParamFact::new(
+                destructured_param_label(&param),
+                MethodParamKind::Required,
+            ));
         }
     }
 
@@ -2184,6 +2198,12 @@ fn method_param_facts(node: &DefNode<'_>) -> Vec<MethodParamFact> {
                 String::from_utf8_lossy(param.name().as_slice()).to_string(),
                 MethodParamKind::Required,
             ));
+        } else if let Some(param) = post.as_multi_target_node() {
+            // `(left, right)` destructures one positional argument.
+            params.push(MethodParamFact::new(
+                destructured_param_label(&param),
+                MethodParamKind::Required,
+            ));
         }
     }
 
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/def_node.rs b/crates/ruby-analysis/src/indexer/fact_collector/def_node.rs
index af5c6b2..031f01e 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/def_node.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/def_node.rs
@@ -14,6 +14,7 @@ use crate::inference::RubyType;
 use crate::yard::{YardMethodDoc, YardParser, YardTypeConverter};
 
 use super::FactCollector;
+use crate::indexer::analysis_indexer::destructured_param_label;
 
 #[derive(Debug, Clone, PartialEq)]
 struct MethodParamInfo {
@@ -591,6 +592,13 @@ impl FactCollector {
                     MethodParamKind::Required,
                     self.direct_range(&param.location()),
                 ));
+            } else if let Some(param) = required.as_multi_target_node() {
+                // `(left, right)` destructures one positional argument.
+                params.push(MethodParamInfo::new(
+                    destructured_param_label(&param),
+                    MethodParamKind::Required,
+                    self.direct_range(&param.location()),
+                ));
             }
         }
 
@@ -645,6 +653,13 @@ impl FactCollector {
                     MethodParamKind::Required,
                     self.direct_range(&param.location()),
                 ));
+            } else if let Some(param) = post.as_multi_target_node() {
+                // `(left, right)` destructures one positional argument.
+                params.push(MethodParamInfo::new(
+                    destructured_param_label(&param),
+                    MethodParamKind::Required,
+                    self.direct_range(&param.location()),
+                ));
             }
         }
 
-- 
2.43.0


From b455aec28bc703a1e7449cec3c3a2685525e066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:30 +0000
Subject: [PATCH 28/69] fix: a visibility modifier with arguments affects only
 the named methods in the outline

---
 .../src/indexer/document_symbols.rs           | 77 ++++++++++++++++---
 1 file changed, 67 insertions(+), 10 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/document_symbols.rs b/crates/ruby-analysis/src/indexer/document_symbols.rs
index 2b068d4..b81fd06 100644
--- a/crates/ruby-analysis/src/indexer/document_symbols.rs
+++ b/crates/ruby-analysis/src/indexer/document_symbols.rs
@@ -5,7 +5,7 @@ use crate::{LVScopeKind, RubyDocument, ScopeTracker};
 use ruby_prism::{
     visit_call_node, visit_class_node, visit_constant_write_node, visit_def_node,
     visit_module_node, visit_singleton_class_node, CallNode, ClassNode, ConstantWriteNode, DefNode,
-    ModuleNode, SingletonClassNode, Visit,
+    ModuleNode, Node, SingletonClassNode, Visit,
 };
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -189,9 +189,38 @@ impl<'a> DocumentSymbolsVisitor<'a> {
         matches!(method_name, "attr_reader" | "attr_writer" | "attr_accessor")
     }
 
-    fn is_visibility_modifier(&self, node: &CallNode) -> bool {
-        let method_name = String::from_utf8_lossy(node.name().as_slice());
-        matches!(method_name.as_ref(), "private" | "protected" | "public")
+    /// `private :name`, `private "name"` and `private %i[a b]` change methods
+    /// that the current scope has already defined.
+    fn apply_visibility_to_named_methods(&mut self, argument: &Node, visibility: MethodVisibility) {
+        if let Some(array) = argument.as_array_node() {
+            for element in array.elements().iter() {
+                self.apply_visibility_to_named_methods(&element, visibility);
+            }
+            return;
+        }
+        let name = if let Some(symbol) = argument.as_symbol_node() {
+            symbol.unescaped().to_vec()
+        } else if let Some(string) = argument.as_string_node() {
+            string.unescaped().to_vec()
+        } else {
+            return;
+        };
+        let name = String::from_utf8_lossy(&name).to_string();
+        let parent = self.find_current_parent_index();
+        let namespace_kind = if self.scope_tracker.in_singleton() {
+            NamespaceKind::Singleton
+        } else {
+            NamespaceKind::Instance
+        };
+        let method = self.flat_symbols.iter_mut().rev().find(|(symbol, owner)| {
+            *owner == parent
+                && symbol.kind == SymbolKind::METHOD
+                && symbol.namespace_kind == Some(namespace_kind)
+                && symbol.name == name
+        });
+        if let Some((symbol, _)) = method {
+            symbol.visibility = Some(visibility);
+        }
     }
 
     fn extract_attr_names(&self, _node: &CallNode) -> Vec<String> {
@@ -312,12 +341,15 @@ impl<'a> DocumentSymbolsVisitor<'a> {
     fn process_call_node_entry(&mut self, node: &CallNode) {
         let method_name = String::from_utf8_lossy(node.name().as_slice()).to_string();
 
-        if self.is_visibility_modifier(node) {
-            match method_name.as_str() {
-                "private" => self.set_current_visibility(MethodVisibility::Private),
-                "protected" => self.set_current_visibility(MethodVisibility::Protected),
-                "public" => self.set_current_visibility(MethodVisibility::Public),
-                _ => {}
+        if let Some(visibility) = visibility_modifier(node) {
+            // Only a bare modifier changes the default of the definitions that follow.
+            match node.arguments() {
+                None => self.set_current_visibility(visibility),
+                Some(arguments) => {
+                    for argument in arguments.arguments().iter() {
+                        self.apply_visibility_to_named_methods(&argument, visibility);
+                    }
+                }
             }
         } else if self.is_attr_method(&method_name) {
             let attr_names = self.extract_attr_names(node);
@@ -330,6 +362,22 @@ impl<'a> DocumentSymbolsVisitor<'a> {
     }
 }
 
+/// The visibility that a `private`, `protected` or `public` call sets on self.
+fn visibility_modifier(node: &CallNode) -> Option<MethodVisibility> {
+    if node
+        .receiver()
+        .is_some_and(|receiver| receiver.as_self_node().is_none())
+    {
+        return None;
+    }
+    match node.name().as_slice() {
+        b"private" => Some(MethodVisibility::Private),
+        b"protected" => Some(MethodVisibility::Protected),
+        b"public" => Some(MethodVisibility::Public),
+        _ => None,
+    }
+}
+
 impl<'a> Visit<'a> for DocumentSymbolsVisitor<'a> {
     fn visit_class_node(&mut self, node: &ClassNode<'a>) {
         self.process_class_node_entry(node);
@@ -356,7 +404,16 @@ impl<'a> Visit<'a> for DocumentSymbolsVisitor<'a> {
 
     fn visit_call_node(&mut self, node: &CallNode<'a>) {
         self.process_call_node_entry(node);
+        // `private def name` decides that definition's visibility only.
+        let modifier = visibility_modifier(node).filter(|_| node.arguments().is_some());
+        if let Some(visibility) = modifier {
+            self.push_visibility_scope();
+            self.set_current_visibility(visibility);
+        }
         visit_call_node(self, node);
+        if modifier.is_some() {
+            self.pop_visibility_scope();
+        }
     }
 
     fn visit_singleton_class_node(&mut self, node: &SingletonClassNode<'a>) {
-- 
2.43.0


From 0823571f1063e742033a8b9e3f3d59f14416792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:30 +0000
Subject: [PATCH 29/69] fix: fold constructs inside methods

---
 src/capabilities/folding_range.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/capabilities/folding_range.rs b/src/capabilities/folding_range.rs
index 11bcbe4..92b73bc 100644
--- a/src/capabilities/folding_range.rs
+++ b/src/capabilities/folding_range.rs
@@ -76,6 +76,9 @@ impl<'a> Visit<'a> for FoldingRangeVisitor<'a> {
             node.location().end_offset(),
             Some(FoldingRangeKind::Region),
         );
+
+        // Continue visiting child nodes
+        ruby_prism::visit_def_node(self, node);
     }
 
     fn visit_if_node(&mut self, node: &ruby_prism::IfNode<'a>) {
-- 
2.43.0


From afb434e1154a2648857b3f1b55397631099bf983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:15 +0000
Subject: [PATCH 30/69] fix: rename the method name in a descendant's
 visibility call too

---
 crates/ruby-analysis/src/engine/resolution.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/ruby-analysis/src/engine/resolution.rs b/crates/ruby-analysis/src/engine/resolution.rs
index f349b37..ace446e 100644
--- a/crates/ruby-analysis/src/engine/resolution.rs
+++ b/crates/ruby-analysis/src/engine/resolution.rs
@@ -298,8 +298,25 @@ impl<'a> AnalysisQuery<'a> {
             .collect::<Vec<_>>();
         ranges.extend(
             self.engine
-                .method_visibility_overrides_matching_owner_name(&identity.owner, &identity.method)
+                .all_method_visibility_overrides()
                 .into_iter()
+                .filter(|fact| {
+                    // A descendant may change the visibility of the inherited
+                    // method by name; that name denotes the renamed method too.
+                    let declared_by = |owner: &FullyQualifiedName| {
+                        !self
+                            .engine
+                            .method_facts_matching_owner_name(owner, &identity.method)
+                            .is_empty()
+                    };
+                    fact.method == identity.method
+                        && (fact.owner == identity.owner
+                            || (!declared_by(&fact.owner)
+                                && method_lookup_chain(self.engine, &fact.owner)
+                                    .into_iter()
+                                    .find(declared_by)
+                                    == Some(identity.owner.clone())))
+                })
                 .filter(|fact| {
                     self.engine
                         .file(fact.range.file_id)
-- 
2.43.0


From 085a622df1f28ad42cbddf2671e37c2f942cbfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:50 +0000
Subject: [PATCH 31/69] fix: hover on a YARD type counts UTF-16 columns

---
 .../ruby-analysis/src/indexer/yard/parser.rs  | 35 ++++++++++++++++---
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/yard/parser.rs b/crates/ruby-analysis/src/indexer/yard/parser.rs
index 3ad92b0..038cd60 100644
--- a/crates/ruby-analysis/src/indexer/yard/parser.rs
+++ b/crates/ruby-analysis/src/indexer/yard/parser.rs
@@ -111,6 +111,22 @@ pub struct YardTypeAtPosition {
 static TYPE_BRACKET_REGEX: LazyLock<Regex> =
     LazyLock::new(|| Regex::new(r"\[([^\]]+)\]").expect("Invalid type bracket regex"));
 
+/// The byte column of a UTF-16 column in a line.
+fn byte_column(line: &str, column: u32) -> usize {
+    let mut units = 0;
+    line.char_indices()
+        .find(|(_, character)| {
+            units += character.len_utf16();
+            units > column as usize
+        })
+        .map_or(line.len(), |(offset, _)| offset)
+}
+
+/// The UTF-16 column of a byte column in a line.
+fn utf16_column(line: &str, column: usize) -> u32 {
+    line[..column].encode_utf16().count() as u32
+}
+
 /// Parser for YARD documentation comments
 pub struct YardParser;
 
@@ -142,7 +158,7 @@ impl YardParser {
             let bracket_end = full_match.end();
 
             // Check if position is within the brackets
-            let char_pos = position.character as usize;
+            let char_pos = byte_column(line, position.character);
             if char_pos >= bracket_start && char_pos < bracket_end {
                 // Position is inside [Type], find which type
                 let types_str = types_match.as_str();
@@ -165,8 +181,14 @@ impl YardParser {
 
                         if !base_type.is_empty() {
                             let range = Range::new(
-                                Position::new(position.line, (types_start + type_start) as u32),
-                                Position::new(position.line, (types_start + type_end) as u32),
+                                Position::new(
+                                    position.line,
+                                    utf16_column(line, types_start + type_start),
+                                ),
+                                Position::new(
+                                    position.line,
+                                    utf16_column(line, types_start + type_end),
+                                ),
                             );
                             return Some(YardTypeAtPosition {
                                 type_name: base_type,
@@ -183,8 +205,11 @@ impl YardParser {
                     let base_type = Self::extract_base_type(types_str.trim());
                     if !base_type.is_empty() {
                         let range = Range::new(
-                            Position::new(position.line, types_start as u32),
-                            Position::new(position.line, (types_start + types_str.len()) as u32),
+                            Position::new(position.line, utf16_column(line, types_start)),
+                            Position::new(
+                                position.line,
+                                utf16_column(line, types_start + types_str.len()),
+                            ),
                         );
                         return Some(YardTypeAtPosition {
                             type_name: base_type,
-- 
2.43.0


From e3bdefc42e99325c6b815cf91774caf4a004c225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:50 +0000
Subject: [PATCH 32/69] fix: an unrelated private method no longer hides
 references through a constant receiver

---
 src/query/references.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/query/references.rs b/src/query/references.rs
index 6095165..113dc54 100644
--- a/src/query/references.rs
+++ b/src/query/references.rs
@@ -203,7 +203,7 @@ impl EngineQuery {
                     return true;
                 };
                 !range_uses_invalid_private_receiver(&content, location.range)
-                    || explicit_receiver_constant_parts(&content, location.range).is_none()
+                    || explicit_receiver_constant(&content, location.range).is_none()
                     || self.private_receiver_allowed_by_visibility_override(
                         method,
                         &content,
@@ -219,7 +219,8 @@ impl EngineQuery {
         content: &str,
         range: Range,
     ) -> bool {
-        let Some(receiver_parts) = explicit_receiver_constant_parts(content, range) else {
+        let Some((receiver_parts, receiver_kind)) = explicit_receiver_constant(content, range)
+        else {
             return false;
         };
         let Some(engine) = self.analysis_engine() else {
@@ -227,15 +228,16 @@ impl EngineQuery {
         };
         let engine = engine.read();
         let query = ruby_analysis::engine::AnalysisQuery::new(&engine);
-        let receiver_fqn =
-            FullyQualifiedName::namespace_with_kind(receiver_parts, NamespaceKind::Instance);
-        query
-            .resolve_public_method_callees(&receiver_fqn, method)
-            .is_some_and(|callees| {
+        let receiver_fqn = FullyQualifiedName::namespace_with_kind(receiver_parts, receiver_kind);
+        let resolves = |callees: Option<Vec<ruby_analysis::core::ResolvedMethodCallee>>| {
+            callees.is_some_and(|callees| {
                 callees
                     .iter()
                     .any(|callee| !callee.definition_ranges.is_empty())
             })
+        };
+        resolves(query.resolve_public_method_callees(&receiver_fqn, method))
+            || !resolves(query.resolve_method_callees(&receiver_fqn, method))
     }
 
     fn analysis_engine_has_private_method(&self, method: &RubyMethod) -> bool {
@@ -370,17 +372,23 @@ fn range_uses_invalid_private_receiver(content: &str, range: Range) -> bool {
         || trimmed.ends_with("public_send(\"")
 }
 
-fn explicit_receiver_constant_parts(content: &str, range: Range) -> Option<Vec<RubyConstant>> {
+fn explicit_receiver_constant(
+    content: &str,
+    range: Range,
+) -> Option<(Vec<RubyConstant>, NamespaceKind)> {
     let line = content.lines().nth(range.start.line as usize)?;
     let before = line_before_column(line, range.start.character);
     let receiver = before.trim_end().strip_suffix('.')?.trim_end();
-    let receiver = receiver.strip_suffix(".new").unwrap_or(receiver);
+    let (receiver, kind) = match receiver.strip_suffix(".new") {
+        Some(class) => (class, NamespaceKind::Instance),
+        None => (receiver, NamespaceKind::Singleton),
+    };
     let token = receiver.split_whitespace().last()?;
     let mut parts = Vec::new();
     for part in token.split("::") {
         parts.push(RubyConstant::new(part).ok()?);
     }
-    (!parts.is_empty()).then_some(parts)
+    (!parts.is_empty()).then_some((parts, kind))
 }
 
 fn static_send_symbol_at_position(content: &str, position: Position) -> bool {
-- 
2.43.0


From db1cb9ba99f3f1d7c0770c93f360b65549028d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:50 +0000
Subject: [PATCH 33/69] fix: hover finds its line start in documents with CRLF
 endings

---
 src/query/hover/generators.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query/hover/generators.rs b/src/query/hover/generators.rs
index cb6bfad..6604dbc 100644
--- a/src/query/hover/generators.rs
+++ b/src/query/hover/generators.rs
@@ -591,11 +591,11 @@ fn method_definition_hover_from_yard(
 
 fn line_start_byte_offset(content: &str, target_line: u32) -> Option<usize> {
     let mut offset = 0;
-    for (line_idx, line) in content.lines().enumerate() {
+    for (line_idx, line) in content.split_inclusive('\n').enumerate() {
         if line_idx as u32 == target_line {
             return Some(offset);
         }
-        offset += line.len() + 1;
+        offset += line.len();
     }
     None
 }
-- 
2.43.0


From 0f401387c591866927666a4e5ca5b7f10eb8342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:08 +0000
Subject: [PATCH 34/69] fix: a failed flight leaves the cache before its
 waiters learn of it

---
 src/single_flight.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/single_flight.rs b/src/single_flight.rs
index 8df54e1..e8f7a1f 100644
--- a/src/single_flight.rs
+++ b/src/single_flight.rs
@@ -155,8 +155,9 @@ where
                 if result.is_err() {
                     counters.failures.fetch_add(1, Ordering::Relaxed);
                 }
-                producer_cell.complete(result);
-                if producer_cell.get().is_some_and(Result::is_err) {
+                if result.is_err() {
+                    // A failure leaves the cache before any waiter learns of
+                    // it, so a retry never finds the failed flight again.
                     let mut entries = entries.lock();
                     if entries
                         .get(&producer_key)
@@ -165,6 +166,7 @@ where
                         entries.remove(&producer_key);
                     }
                 }
+                producer_cell.complete(result);
             });
         }
         let wait_started = Instant::now();
@@ -330,8 +332,10 @@ where
                 if result.is_err() {
                     cache.counters.failures.fetch_add(1, Ordering::Relaxed);
                 }
-                producer_cell.complete(result);
-                if producer_cell.get().is_some_and(Result::is_err) {
+                let succeeded = result.is_ok();
+                if !succeeded {
+                    // A failure leaves the cache before any waiter learns of
+                    // it, so a retry never finds the failed flight again.
                     let mut entries = cache.entries.lock();
                     if entries
                         .get(&producer_key)
@@ -339,7 +343,9 @@ where
                     {
                         entries.remove(&producer_key);
                     }
-                } else {
+                }
+                producer_cell.complete(result);
+                if succeeded {
                     cache.evict_completed_to_limits();
                 }
             });
-- 
2.43.0


From 51cf10ffc1d8dd80d70ef9953cdcfb5ec52c4531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:08 +0000
Subject: [PATCH 35/69] fix: an admission wakes the requests that fit beside it

---
 src/indexing_resources.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/indexing_resources.rs b/src/indexing_resources.rs
index 402176a..f144e76 100644
--- a/src/indexing_resources.rs
+++ b/src/indexing_resources.rs
@@ -693,6 +693,10 @@ impl IndexingResourceGovernor {
                             );
                         }
                         registration.admitted = true;
+                        drop(admission);
+                        // Requests that lost to this one went back to sleep;
+                        // those that still fit must look again.
+                        self.state.changed.notify_waiters();
                         return Ok(ActiveResourceLease {
                             state: self.state.clone(),
                             spec: queued.spec,
-- 
2.43.0


From 7be13db39179af5d635938bebb2ab870744c3bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:08 +0000
Subject: [PATCH 36/69] fix: RBS declarations keep their qualified names

---
 crates/rbs-parser/src/visitor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rbs-parser/src/visitor.rs b/crates/rbs-parser/src/visitor.rs
index d256dfc..331c51c 100644
--- a/crates/rbs-parser/src/visitor.rs
+++ b/crates/rbs-parser/src/visitor.rs
@@ -94,8 +94,8 @@ impl<'a> Visitor<'a> {
         for child in node.children(&mut cursor) {
             match child.kind() {
                 "class_name" => {
-                    // class_name contains a constant child
-                    class.name = self.extract_name(&child);
+                    // class_name spans an optional namespace and the constant
+                    class.name = self.node_text(&child).to_string();
                 }
                 "namespace" => {
                     class.name = self.node_text(&child).to_string();
-- 
2.43.0


From 1233c92ca30432cf291e196d6f47b2a3e6984439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:08 +0000
Subject: [PATCH 37/69] fix: RBS module self types are read

---
 crates/rbs-parser/src/visitor.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/rbs-parser/src/visitor.rs b/crates/rbs-parser/src/visitor.rs
index 331c51c..d9c8a67 100644
--- a/crates/rbs-parser/src/visitor.rs
+++ b/crates/rbs-parser/src/visitor.rs
@@ -147,8 +147,8 @@ impl<'a> Visitor<'a> {
                 "type_parameters" | "module_type_parameters" => {
                     module.type_params = self.visit_type_parameters(child)?;
                 }
-                "module_self_types" => {
-                    module.self_types = self.visit_self_types(child)?;
+                "module_self_type_binds" => {
+                    self.visit_self_types(child, &mut module.self_types)?;
                 }
                 "members" | "module_body" => {
                     self.visit_members(child, &mut module.members, &mut module.methods)?;
@@ -327,18 +327,19 @@ impl<'a> Visitor<'a> {
         Ok(parameter)
     }
 
-    /// Visit module self types
-    fn visit_self_types(&self, node: Node) -> Result<Vec<RbsType>, ParseError> {
-        let mut types = Vec::new();
+    /// Visit module self types (`: Foo, _Bar[T]`); the grammar nests the rest
+    /// of the list inside each `module_self_types` node.
+    fn visit_self_types(&self, node: Node, types: &mut Vec<RbsType>) -> Result<(), ParseError> {
         let mut cursor = node.walk();
 
-        for child in node.children(&mut cursor) {
-            if let Ok(t) = self.visit_type(child) {
-                types.push(t);
+        for child in node.named_children(&mut cursor) {
+            if child.kind() == "module_self_types" {
+                types.push(self.visit_member_target(child)?);
+                self.visit_self_types(child, types)?;
             }
         }
 
-        Ok(types)
+        Ok(())
     }
 
     /// Visit class/module members
-- 
2.43.0


From 381805ef53c88eaeaa02966948b2919c327689b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:08 +0000
Subject: [PATCH 38/69] fix: RBS interfaces keep their type parameters and
 every member

---
 crates/rbs-parser/src/visitor.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/rbs-parser/src/visitor.rs b/crates/rbs-parser/src/visitor.rs
index d9c8a67..2f99ace 100644
--- a/crates/rbs-parser/src/visitor.rs
+++ b/crates/rbs-parser/src/visitor.rs
@@ -175,10 +175,10 @@ impl<'a> Visitor<'a> {
                 "interface_name" => {
                     interface.name = self.node_text(&child).to_string();
                 }
-                "type_parameters" => {
+                "type_parameters" | "module_type_parameters" => {
                     interface.type_params = self.visit_type_parameters(child)?;
                 }
-                "members" | "interface_body" => {
+                "interface_members" | "members" | "interface_body" => {
                     let mut members = Vec::new();
                     self.visit_members(child, &mut members, &mut interface.methods)?;
                 }
@@ -204,7 +204,7 @@ impl<'a> Visitor<'a> {
                 "alias_name" | "type_alias_name" => {
                     alias.name = self.node_text(&child).to_string();
                 }
-                "type_parameters" => {
+                "type_parameters" | "module_type_parameters" => {
                     alias.type_params = self.visit_type_parameters(child)?;
                 }
                 _ => {
@@ -353,8 +353,8 @@ impl<'a> Visitor<'a> {
 
         for child in node.children(&mut cursor) {
             match child.kind() {
-                // Handle wrapper "member" node
-                "member" => {
+                // Handle wrapper "member" nodes
+                "member" | "interface_member" => {
                     self.visit_members(child, members, methods)?;
                 }
                 "method_definition" | "method_member" | "method" => {
-- 
2.43.0


From b4b1bde8a4eef23690234d2499fe03303189f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:08 +0000
Subject: [PATCH 39/69] fix: RBS superclass arguments and interface mixins are
 read

---
 crates/rbs-parser/src/visitor.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/rbs-parser/src/visitor.rs b/crates/rbs-parser/src/visitor.rs
index 2f99ace..d0a65bb 100644
--- a/crates/rbs-parser/src/visitor.rs
+++ b/crates/rbs-parser/src/visitor.rs
@@ -104,9 +104,7 @@ impl<'a> Visitor<'a> {
                     class.type_params = self.visit_type_parameters(child)?;
                 }
                 "superclass" | "class_super" => {
-                    if let Some(type_node) = child.child(0) {
-                        class.superclass = Some(self.visit_type(type_node)?);
-                    }
+                    class.superclass = Some(self.visit_member_target(child)?);
                 }
                 "members" | "class_body" => {
                     self.visit_members(child, &mut class.members, &mut class.methods)?;
@@ -416,7 +414,7 @@ impl<'a> Visitor<'a> {
         let mut cursor = node.walk();
         for child in node.named_children(&mut cursor) {
             match child.kind() {
-                "class_name" | "namespace" | "constant" => {
+                "class_name" | "interface_name" | "namespace" | "constant" => {
                     name = Some(self.node_text(&child).to_string());
                 }
                 "type_arguments" | "type_args" => {
-- 
2.43.0


From 70e54fff2a0589385e703a55cdf4ecf4ca35d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:19 +0000
Subject: [PATCH 40/69] fix: RBS true, false, union and commented types are
 read whole

---
 crates/rbs-parser/src/visitor.rs | 53 +++++++++++++-------------------
 1 file changed, 22 insertions(+), 31 deletions(-)

diff --git a/crates/rbs-parser/src/visitor.rs b/crates/rbs-parser/src/visitor.rs
index d0a65bb..c4ffa76 100644
--- a/crates/rbs-parser/src/visitor.rs
+++ b/crates/rbs-parser/src/visitor.rs
@@ -205,12 +205,8 @@ impl<'a> Visitor<'a> {
                 "type_parameters" | "module_type_parameters" => {
                     alias.type_params = self.visit_type_parameters(child)?;
                 }
-                _ => {
-                    // Try to parse as type if it looks like one
-                    if let Ok(t) = self.visit_type(child) {
-                        alias.r#type = t;
-                    }
-                }
+                "type" if child.is_named() => alias.r#type = self.visit_type(child)?,
+                _ => {}
             }
         }
 
@@ -231,11 +227,8 @@ impl<'a> Visitor<'a> {
                 "constant" | "constant_name" | "const_name" => {
                     constant.name = self.node_text(&child).to_string();
                 }
-                _ => {
-                    if let Ok(t) = self.visit_type(child) {
-                        constant.r#type = t;
-                    }
-                }
+                "type" if child.is_named() => constant.r#type = self.visit_type(child)?,
+                _ => {}
             }
         }
 
@@ -256,11 +249,8 @@ impl<'a> Visitor<'a> {
                 "global_name" | "global" => {
                     global.name = self.node_text(&child).to_string();
                 }
-                _ => {
-                    if let Ok(t) = self.visit_type(child) {
-                        global.r#type = t;
-                    }
-                }
+                "type" if child.is_named() => global.r#type = self.visit_type(child)?,
+                _ => {}
             }
         }
 
@@ -709,11 +699,8 @@ impl<'a> Visitor<'a> {
                 "parameter_name" | "name" | "identifier" | "var_name" => {
                     param.name = Some(self.node_text(&child).to_string());
                 }
-                _ => {
-                    if let Ok(t) = self.visit_type(child) {
-                        param.r#type = t;
-                    }
-                }
+                "type" if child.is_named() => param.r#type = self.visit_type(child)?,
+                _ => {}
             }
         }
 
@@ -786,11 +773,8 @@ impl<'a> Visitor<'a> {
                 "attr_name" | "name" | "identifier" => {
                     attr.name = self.node_text(&child).to_string();
                 }
-                _ => {
-                    if let Ok(t) = self.visit_type(child) {
-                        attr.r#type = t;
-                    }
-                }
+                "type" if child.is_named() => attr.r#type = self.visit_type(child)?,
+                _ => {}
             }
         }
 
@@ -834,15 +818,19 @@ impl<'a> Visitor<'a> {
         match kind {
             // The grammar wraps every concrete type node in a `type` field.
             "type" => {
+                // The literals `true` and `false` are anonymous tokens.
                 let mut cursor = node.walk();
-                let mut named = node.named_children(&mut cursor);
-                let child = named.next().ok_or_else(|| {
+                let mut concrete = node.children(&mut cursor).filter(|child| {
+                    matches!(child.kind(), "true" | "false")
+                        || (child.is_named() && child.kind() != "comment")
+                });
+                let child = concrete.next().ok_or_else(|| {
                     ParseError::with_location(
                         "RBS type wrapper has no concrete type",
                         self.node_location(&node),
                     )
                 })?;
-                if named.next().is_some() {
+                if concrete.next().is_some() {
                     return Err(ParseError::with_location(
                         "RBS type wrapper has multiple concrete types",
                         self.node_location(&node),
@@ -862,11 +850,14 @@ impl<'a> Visitor<'a> {
 
             // Union type
             "union_type" => {
+                // `a | b | c` nests in the tree; the members are one set.
                 let mut types = Vec::new();
                 let mut cursor = node.walk();
                 for child in node.named_children(&mut cursor) {
-                    if let Ok(t) = self.visit_type(child) {
-                        types.push(t);
+                    match self.visit_type(child) {
+                        Ok(RbsType::Union(members)) => types.extend(members),
+                        Ok(t) => types.push(t),
+                        Err(_) => {}
                     }
                 }
                 Ok(RbsType::union(types))
-- 
2.43.0


From 9dbe694e6a7f27af396f79882f5be0d73d9a3cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:19 +0000
Subject: [PATCH 41/69] fix: RBS attributes and aliases keep their singleton
 receiver

---
 crates/rbs-parser/src/visitor.rs | 43 +++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/crates/rbs-parser/src/visitor.rs b/crates/rbs-parser/src/visitor.rs
index c4ffa76..24357ab 100644
--- a/crates/rbs-parser/src/visitor.rs
+++ b/crates/rbs-parser/src/visitor.rs
@@ -750,27 +750,26 @@ impl<'a> Visitor<'a> {
 
     /// Visit an attribute declaration
     fn visit_attribute(&self, node: Node) -> Result<AttrDecl, ParseError> {
-        let text = self.node_text(&node);
-        let kind = if text.contains("attr_accessor") {
-            AttrKind::Accessor
-        } else if text.contains("attr_writer") {
-            AttrKind::Writer
-        } else {
-            AttrKind::Reader
-        };
-
         let mut attr = AttrDecl {
             name: String::new(),
-            kind,
+            kind: AttrKind::Reader,
             r#type: RbsType::Untyped,
-            is_singleton: text.contains("self."),
+            is_singleton: false,
             location: Some(self.node_location(&node)),
         };
 
         let mut cursor = node.walk();
         for child in node.children(&mut cursor) {
             match child.kind() {
-                "attr_name" | "name" | "identifier" => {
+                "attribyte_type" => {
+                    attr.kind = match self.node_text(&child) {
+                        "attr_accessor" => AttrKind::Accessor,
+                        "attr_writer" => AttrKind::Writer,
+                        _ => AttrKind::Reader,
+                    };
+                }
+                "self" => attr.is_singleton = true,
+                "method_name" => {
                     attr.name = self.node_text(&child).to_string();
                 }
                 "type" if child.is_named() => attr.r#type = self.visit_type(child)?,
@@ -790,15 +789,23 @@ impl<'a> Visitor<'a> {
             location: Some(self.node_location(&node)),
         };
 
-        let text = self.node_text(&node);
-        alias.is_singleton = text.contains("self.");
-
         let mut cursor = node.walk();
         let mut names: Vec<String> = Vec::new();
 
-        for child in node.children(&mut cursor) {
-            if child.kind() == "method_name" || child.kind() == "name" {
-                names.push(self.node_text(&child).to_string());
+        for child in node.named_children(&mut cursor) {
+            match child.kind() {
+                "method_name" => names.push(self.node_text(&child).to_string()),
+                "singleton_method_name" => {
+                    alias.is_singleton = true;
+                    let mut name_cursor = child.walk();
+                    names.extend(
+                        child
+                            .named_children(&mut name_cursor)
+                            .filter(|name| name.kind() == "method_name")
+                            .map(|name| self.node_text(&name).to_string()),
+                    );
+                }
+                _ => {}
             }
         }
 
-- 
2.43.0


From 3dde9df492a6b9131884b31abf53b2f9334b8e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:19 +0000
Subject: [PATCH 42/69] fix: RBS type parameter bounds are read

---
 crates/rbs-parser/src/visitor.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/rbs-parser/src/visitor.rs b/crates/rbs-parser/src/visitor.rs
index 24357ab..a183dfa 100644
--- a/crates/rbs-parser/src/visitor.rs
+++ b/crates/rbs-parser/src/visitor.rs
@@ -285,6 +285,9 @@ impl<'a> Visitor<'a> {
         let mut variable_name = None;
         let mut pending = vec![node];
         while let Some(current) = pending.pop() {
+            if current.kind() == "generics_bound" {
+                continue;
+            }
             if current.kind() == "type_variable" {
                 let mut cursor = current.walk();
                 variable_name = current
@@ -312,6 +315,18 @@ impl<'a> Visitor<'a> {
         } else {
             Variance::Invariant
         };
+        let mut cursor = node.walk();
+        for child in node.named_children(&mut cursor) {
+            if child.kind() == "generics_bound" {
+                let mut bound_cursor = child.walk();
+                let bound_type = child
+                    .named_children(&mut bound_cursor)
+                    .find(|bound| bound.kind() == "bound_type");
+                if let Some(concrete) = bound_type.and_then(|bound| bound.named_child(0)) {
+                    parameter.bound = Some(self.visit_type(concrete)?);
+                }
+            }
+        }
         Ok(parameter)
     }
 
-- 
2.43.0


From c87d9d07b61efe00827310cecbde83c83cbf4af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:19 +0000
Subject: [PATCH 43/69] fix: RBS proc types keep their parameters

---
 crates/rbs-parser/src/visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rbs-parser/src/visitor.rs b/crates/rbs-parser/src/visitor.rs
index a183dfa..d67c63f 100644
--- a/crates/rbs-parser/src/visitor.rs
+++ b/crates/rbs-parser/src/visitor.rs
@@ -959,7 +959,7 @@ impl<'a> Visitor<'a> {
             }
 
             // Proc type
-            "proc_type" => {
+            "proc" | "proc_type" => {
                 let method_type = self.visit_method_type(node)?;
                 Ok(RbsType::Proc(Box::new(method_type)))
             }
-- 
2.43.0


From eaf5082f238af68d3d69e0f6f6bc7433e0a3ef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:20 +0000
Subject: [PATCH 44/69] fix: RBS visibility reaches the member it is written on

---
 crates/rbs-parser/src/visitor.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/rbs-parser/src/visitor.rs b/crates/rbs-parser/src/visitor.rs
index d67c63f..e5dbce0 100644
--- a/crates/rbs-parser/src/visitor.rs
+++ b/crates/rbs-parser/src/visitor.rs
@@ -88,6 +88,7 @@ impl<'a> Visitor<'a> {
     /// Visit a class declaration
     fn visit_class_declaration(&mut self, node: Node) -> Result<ClassDecl, ParseError> {
         let mut class = ClassDecl::new("");
+        self.current_visibility = Visibility::Public;
         class.location = Some(self.node_location(&node));
 
         let mut cursor = node.walk();
@@ -134,6 +135,7 @@ impl<'a> Visitor<'a> {
     /// Visit a module declaration
     fn visit_module_declaration(&mut self, node: Node) -> Result<ModuleDecl, ParseError> {
         let mut module = ModuleDecl::new("");
+        self.current_visibility = Visibility::Public;
         module.location = Some(self.node_location(&node));
 
         let mut cursor = node.walk();
@@ -160,6 +162,7 @@ impl<'a> Visitor<'a> {
 
     /// Visit an interface declaration
     fn visit_interface_declaration(&mut self, node: Node) -> Result<InterfaceDecl, ParseError> {
+        self.current_visibility = Visibility::Public;
         let mut interface = InterfaceDecl {
             name: String::new(),
             type_params: Vec::new(),
@@ -472,6 +475,12 @@ impl<'a> Visitor<'a> {
                         method_suffix = text.to_string();
                     }
                 }
+                "visibility" => {
+                    method.visibility = match self.node_text(&child) {
+                        "private" => Visibility::Private,
+                        _ => Visibility::Public,
+                    };
+                }
                 "method_type" | "method_types" | "overload" => {
                     self.visit_method_types(&child, &mut method.overloads)?;
                 }
-- 
2.43.0


From 48cfe2204230f69cd56c6f31865603db94e8f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:20 +0000
Subject: [PATCH 45/69] fix: RBS quoted names and type arguments are read whole

---
 crates/rbs-parser/src/visitor.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/rbs-parser/src/visitor.rs b/crates/rbs-parser/src/visitor.rs
index e5dbce0..a73cbb3 100644
--- a/crates/rbs-parser/src/visitor.rs
+++ b/crates/rbs-parser/src/visitor.rs
@@ -875,7 +875,13 @@ impl<'a> Visitor<'a> {
                 Ok(self.parse_class_type(node))
             }
 
-            "interface_type" | "interface_name" => Ok(RbsType::Interface(text.to_string())),
+            "interface_type" | "interface_name" => match self.parse_class_type(node) {
+                RbsType::Class(name) => Ok(RbsType::Interface(name)),
+                applied => Ok(applied),
+            },
+
+            // Type aliases may be applied to arguments as well
+            "alias_type" => Ok(self.parse_class_type(node)),
 
             "type_variable" | "type_var" => Ok(RbsType::TypeVar(text.to_string())),
 
@@ -975,7 +981,8 @@ impl<'a> Visitor<'a> {
 
             // Literal types
             "string_literal" => {
-                let s = text.trim_matches('"').trim_matches('\'');
+                // Strip one quote on each side; the content may end in quotes too.
+                let s = text.get(1..text.len() - 1).unwrap_or_default();
                 Ok(RbsType::Literal(Literal::String(s.to_string())))
             }
             "integer_literal" => {
-- 
2.43.0


From ea3ec0b6936ed73a72486252a8d9e85222f1c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:20 +0000
Subject: [PATCH 46/69] fix: nested RBS declarations are qualified by their
 owner

---
 crates/rbs-parser/src/visitor.rs | 52 +++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/crates/rbs-parser/src/visitor.rs b/crates/rbs-parser/src/visitor.rs
index a73cbb3..05975be 100644
--- a/crates/rbs-parser/src/visitor.rs
+++ b/crates/rbs-parser/src/visitor.rs
@@ -9,6 +9,8 @@ pub struct Visitor<'a> {
     source: &'a str,
     pub declarations: Vec<Declaration>,
     current_visibility: Visibility,
+    /// Names of the class and module declarations being visited, outermost first.
+    enclosing: Vec<String>,
 }
 
 impl<'a> Visitor<'a> {
@@ -17,6 +19,7 @@ impl<'a> Visitor<'a> {
             source,
             declarations: Vec::new(),
             current_visibility: Visibility::Public,
+            enclosing: Vec::new(),
         }
     }
 
@@ -85,10 +88,34 @@ impl<'a> Visitor<'a> {
         Ok(())
     }
 
+    /// Name of a declaration, qualified by the declarations it is nested in
+    fn qualified_name(&self, node: &Node) -> String {
+        let name = self.node_text(node);
+        match self.enclosing.last() {
+            Some(outer) if !name.starts_with("::") => format!("{outer}::{name}"),
+            _ => name.to_string(),
+        }
+    }
+
+    /// Visit the members of a class or module, in its own visibility scope
+    fn visit_body(
+        &mut self,
+        node: Node,
+        name: &str,
+        members: &mut Vec<Member>,
+        methods: &mut Vec<MethodDecl>,
+    ) -> Result<(), ParseError> {
+        let outer_visibility = std::mem::replace(&mut self.current_visibility, Visibility::Public);
+        self.enclosing.push(name.to_string());
+        let result = self.visit_members(node, members, methods);
+        self.enclosing.pop();
+        self.current_visibility = outer_visibility;
+        result
+    }
+
     /// Visit a class declaration
     fn visit_class_declaration(&mut self, node: Node) -> Result<ClassDecl, ParseError> {
         let mut class = ClassDecl::new("");
-        self.current_visibility = Visibility::Public;
         class.location = Some(self.node_location(&node));
 
         let mut cursor = node.walk();
@@ -96,7 +123,7 @@ impl<'a> Visitor<'a> {
             match child.kind() {
                 "class_name" => {
                     // class_name spans an optional namespace and the constant
-                    class.name = self.node_text(&child).to_string();
+                    class.name = self.qualified_name(&child);
                 }
                 "namespace" => {
                     class.name = self.node_text(&child).to_string();
@@ -108,7 +135,8 @@ impl<'a> Visitor<'a> {
                     class.superclass = Some(self.visit_member_target(child)?);
                 }
                 "members" | "class_body" => {
-                    self.visit_members(child, &mut class.members, &mut class.methods)?;
+                    let name = class.name.clone();
+                    self.visit_body(child, &name, &mut class.members, &mut class.methods)?;
                 }
                 _ => {}
             }
@@ -135,14 +163,13 @@ impl<'a> Visitor<'a> {
     /// Visit a module declaration
     fn visit_module_declaration(&mut self, node: Node) -> Result<ModuleDecl, ParseError> {
         let mut module = ModuleDecl::new("");
-        self.current_visibility = Visibility::Public;
         module.location = Some(self.node_location(&node));
 
         let mut cursor = node.walk();
         for child in node.children(&mut cursor) {
             match child.kind() {
                 "module_name" | "namespace" => {
-                    module.name = self.node_text(&child).to_string();
+                    module.name = self.qualified_name(&child);
                 }
                 "type_parameters" | "module_type_parameters" => {
                     module.type_params = self.visit_type_parameters(child)?;
@@ -151,7 +178,8 @@ impl<'a> Visitor<'a> {
                     self.visit_self_types(child, &mut module.self_types)?;
                 }
                 "members" | "module_body" => {
-                    self.visit_members(child, &mut module.members, &mut module.methods)?;
+                    let name = module.name.clone();
+                    self.visit_body(child, &name, &mut module.members, &mut module.methods)?;
                 }
                 _ => {}
             }
@@ -162,7 +190,6 @@ impl<'a> Visitor<'a> {
 
     /// Visit an interface declaration
     fn visit_interface_declaration(&mut self, node: Node) -> Result<InterfaceDecl, ParseError> {
-        self.current_visibility = Visibility::Public;
         let mut interface = InterfaceDecl {
             name: String::new(),
             type_params: Vec::new(),
@@ -174,14 +201,15 @@ impl<'a> Visitor<'a> {
         for child in node.children(&mut cursor) {
             match child.kind() {
                 "interface_name" => {
-                    interface.name = self.node_text(&child).to_string();
+                    interface.name = self.qualified_name(&child);
                 }
                 "type_parameters" | "module_type_parameters" => {
                     interface.type_params = self.visit_type_parameters(child)?;
                 }
                 "interface_members" | "members" | "interface_body" => {
                     let mut members = Vec::new();
-                    self.visit_members(child, &mut members, &mut interface.methods)?;
+                    let name = interface.name.clone();
+                    self.visit_body(child, &name, &mut members, &mut interface.methods)?;
                 }
                 _ => {}
             }
@@ -203,7 +231,7 @@ impl<'a> Visitor<'a> {
         for child in node.children(&mut cursor) {
             match child.kind() {
                 "alias_name" | "type_alias_name" => {
-                    alias.name = self.node_text(&child).to_string();
+                    alias.name = self.qualified_name(&child);
                 }
                 "type_parameters" | "module_type_parameters" => {
                     alias.type_params = self.visit_type_parameters(child)?;
@@ -228,7 +256,7 @@ impl<'a> Visitor<'a> {
         for child in node.children(&mut cursor) {
             match child.kind() {
                 "constant" | "constant_name" | "const_name" => {
-                    constant.name = self.node_text(&child).to_string();
+                    constant.name = self.qualified_name(&child);
                 }
                 "type" if child.is_named() => constant.r#type = self.visit_type(child)?,
                 _ => {}
@@ -372,6 +400,8 @@ impl<'a> Visitor<'a> {
                     method.kind = MethodKind::Singleton;
                     methods.push(method);
                 }
+                "class_decl" | "module_decl" | "interface_decl" | "type_alias_decl"
+                | "const_decl" => self.visit_declaration(child)?,
                 "include_member" | "include" => {
                     members.push(Member::Include(self.visit_member_target(child)?));
                 }
-- 
2.43.0


From 80cb81b1dc288c1519a142258fcc409e57ea8395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:20 +0000
Subject: [PATCH 47/69] fix: RBS integers with underscores keep their value

---
 crates/rbs-parser/src/visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rbs-parser/src/visitor.rs b/crates/rbs-parser/src/visitor.rs
index 05975be..5b7ab21 100644
--- a/crates/rbs-parser/src/visitor.rs
+++ b/crates/rbs-parser/src/visitor.rs
@@ -1016,7 +1016,7 @@ impl<'a> Visitor<'a> {
                 Ok(RbsType::Literal(Literal::String(s.to_string())))
             }
             "integer_literal" => {
-                let n = text.parse().unwrap_or(0);
+                let n = text.replace('_', "").parse().unwrap_or(0);
                 Ok(RbsType::Literal(Literal::Integer(n)))
             }
             "symbol_literal" => {
-- 
2.43.0


From 35dba6ab4da562134d4b52cfc0b1101151cade4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:40 +0000
Subject: [PATCH 48/69] fix: bound the array dimensions of JVM descriptors

---
 crates/jvm-metadata/src/descriptor.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/jvm-metadata/src/descriptor.rs b/crates/jvm-metadata/src/descriptor.rs
index 363247a..cac7010 100644
--- a/crates/jvm-metadata/src/descriptor.rs
+++ b/crates/jvm-metadata/src/descriptor.rs
@@ -54,6 +54,9 @@ pub fn parse_method_descriptor(descriptor: &str) -> Result<MethodDescriptor, &'s
     })
 }
 
+/// JVMS 4.3.2: an array type has at most 255 dimensions.
+const MAX_ARRAY_DIMENSIONS: usize = 255;
+
 struct DescriptorCursor<'a> {
     source: &'a str,
     bytes: &'a [u8],
@@ -110,8 +113,19 @@ impl<'a> DescriptorCursor<'a> {
                 Ok(JvmType::Object(self.source[start..end].to_string()))
             }
             Some(b'[') => {
-                let element = self.parse_type(false)?;
-                Ok(JvmType::Array(Box::new(element)))
+                let mut dimensions = 1usize;
+                while self.peek() == Some(b'[') {
+                    self.offset += 1;
+                    dimensions += 1;
+                }
+                if dimensions > MAX_ARRAY_DIMENSIONS {
+                    return Err("array type has more than 255 dimensions");
+                }
+                let mut ty = self.parse_type(false)?;
+                for _ in 0..dimensions {
+                    ty = JvmType::Array(Box::new(ty));
+                }
+                Ok(ty)
             }
             Some(_) => Err("unknown descriptor type tag"),
             None => Err("missing descriptor type"),
-- 
2.43.0


From a3cda14363caf307bca2be1ec2324f12e6af778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:40 +0000
Subject: [PATCH 49/69] fix: accept a record class without components

---
 crates/jvm-metadata/src/classfile.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jvm-metadata/src/classfile.rs b/crates/jvm-metadata/src/classfile.rs
index debcba6..b39b227 100644
--- a/crates/jvm-metadata/src/classfile.rs
+++ b/crates/jvm-metadata/src/classfile.rs
@@ -155,7 +155,8 @@ impl ClassFile {
             ClassKind::Annotation
         } else if self.access_flags & 0x4000 != 0 {
             ClassKind::Enum
-        } else if !self.record_components.is_empty() {
+        } else if self.super_name.as_deref() == Some("java/lang/Record") {
+            // A record may have no components.
             ClassKind::Record
         } else if self.access_flags & 0x0200 != 0 {
             ClassKind::Interface
-- 
2.43.0


From c23750934de9b884493c40fc832cfdad1e23f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:40 +0000
Subject: [PATCH 50/69] fix: locate enum members, interface constants and
 annotation elements in Java sources

---
 crates/jvm-metadata/src/java_source.rs | 52 ++++++++++++++++++--------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/crates/jvm-metadata/src/java_source.rs b/crates/jvm-metadata/src/java_source.rs
index e7e04b3..3bab746 100644
--- a/crates/jvm-metadata/src/java_source.rs
+++ b/crates/jvm-metadata/src/java_source.rs
@@ -107,23 +107,19 @@ pub fn locate_java_source_declarations(
         "INVARIANT VIOLATED: recognized Java type declaration has no name field. \
          This is a tree-sitter grammar contract violation. Fix: update Java source mapping for the pinned grammar.",
     );
-    let method_nodes = direct_children_of_kinds(
-        class_node.child_by_field_name("body").expect(
-            "INVARIANT VIOLATED: recognized Java type declaration has no body field. \
-             This is a tree-sitter grammar contract violation. Fix: update Java source mapping for the pinned grammar.",
-        ),
+    let member_nodes = member_nodes(class_node);
+    let method_nodes = nodes_of_kinds(
+        &member_nodes,
         &[
             "method_declaration",
             "constructor_declaration",
             "compact_constructor_declaration",
+            "annotation_type_element_declaration",
         ],
     );
-    let field_nodes = direct_children_of_kinds(
-        class_node.child_by_field_name("body").expect(
-            "INVARIANT VIOLATED: recognized Java type declaration has no body field. \
-             This is a tree-sitter grammar contract violation. Fix: update Java source mapping for the pinned grammar.",
-        ),
-        &["field_declaration", "enum_constant"],
+    let field_nodes = nodes_of_kinds(
+        &member_nodes,
+        &["field_declaration", "constant_declaration", "enum_constant"],
     );
 
     let methods = class
@@ -242,10 +238,31 @@ fn is_type_declaration(kind: &str) -> bool {
     )
 }
 
-fn direct_children_of_kinds<'tree>(node: Node<'tree>, kinds: &[&str]) -> Vec<Node<'tree>> {
-    let mut cursor = node.walk();
-    node.named_children(&mut cursor)
-        .filter(|child| kinds.contains(&child.kind()))
+/// Declarations written directly in the body of a type, including those that
+/// follow the constants of an enum.
+fn member_nodes<'tree>(class_node: Node<'tree>) -> Vec<Node<'tree>> {
+    let body = class_node.child_by_field_name("body").expect(
+        "INVARIANT VIOLATED: recognized Java type declaration has no body field. \
+         This is a tree-sitter grammar contract violation. Fix: update Java source mapping for the pinned grammar.",
+    );
+    let mut members = Vec::new();
+    let mut cursor = body.walk();
+    for child in body.named_children(&mut cursor) {
+        if child.kind() == "enum_body_declarations" {
+            let mut declarations = child.walk();
+            members.extend(child.named_children(&mut declarations));
+        } else {
+            members.push(child);
+        }
+    }
+    members
+}
+
+fn nodes_of_kinds<'tree>(nodes: &[Node<'tree>], kinds: &[&str]) -> Vec<Node<'tree>> {
+    nodes
+        .iter()
+        .copied()
+        .filter(|node| kinds.contains(&node.kind()))
         .collect()
 }
 
@@ -381,7 +398,10 @@ fn node_is_static(node: Node<'_>, source: &str) -> bool {
 }
 
 fn source_parameter_types(node: Node<'_>, source: &str) -> Option<Vec<String>> {
-    if node.kind() == "compact_constructor_declaration" {
+    if matches!(
+        node.kind(),
+        "compact_constructor_declaration" | "annotation_type_element_declaration"
+    ) {
         return Some(Vec::new());
     }
     let parameters = node.child_by_field_name("parameters")?;
-- 
2.43.0


From 4d45d40c54fb5f62a3fec0671b7f5eed0452390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:40 +0000
Subject: [PATCH 51/69] fix: local Java classes do not stand in for member
 classes

---
 crates/jvm-metadata/src/java_source.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/jvm-metadata/src/java_source.rs b/crates/jvm-metadata/src/java_source.rs
index 3bab746..209ca09 100644
--- a/crates/jvm-metadata/src/java_source.rs
+++ b/crates/jvm-metadata/src/java_source.rs
@@ -211,8 +211,18 @@ fn find_class_node<'tree>(
         }
     }
 
-    let mut cursor = node.walk();
-    for child in node.named_children(&mut cursor) {
+    // Only member types have the names classes are known by; local classes
+    // inside a body do not.
+    let children = if is_type {
+        member_nodes(node)
+    } else {
+        let mut cursor = node.walk();
+        node.named_children(&mut cursor).collect()
+    };
+    for child in children {
+        if !is_type_declaration(child.kind()) {
+            continue;
+        }
         if let Some(found) = find_class_node(child, source, expected, stack) {
             return Some(found);
         }
-- 
2.43.0


From 9f980b5b7a3049f059a2300a931ca0c7b3eb11c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:40 +0000
Subject: [PATCH 52/69] fix: the word static in annotations and comments does
 not make a Java member static

---
 crates/jvm-metadata/src/java_source.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/jvm-metadata/src/java_source.rs b/crates/jvm-metadata/src/java_source.rs
index 209ca09..d1aed4b 100644
--- a/crates/jvm-metadata/src/java_source.rs
+++ b/crates/jvm-metadata/src/java_source.rs
@@ -305,7 +305,7 @@ fn locate_method(
             if expected_name.is_some_and(|expected| expected != name_text) {
                 return None;
             }
-            if node_is_static(*node, source) != method.is_static() {
+            if node_is_static(*node) != method.is_static() {
                 return None;
             }
             let parameter_types = source_parameter_types(*node, source)?;
@@ -396,13 +396,13 @@ fn locate_field(
     })
 }
 
-fn node_is_static(node: Node<'_>, source: &str) -> bool {
+fn node_is_static(node: Node<'_>) -> bool {
     let mut cursor = node.walk();
     let is_static = node.named_children(&mut cursor).any(|child| {
         child.kind() == "modifiers"
             && child
-                .utf8_text(source.as_bytes())
-                .is_ok_and(|text| text.split_whitespace().any(|word| word == "static"))
+                .children(&mut child.walk())
+                .any(|modifier| modifier.kind() == "static")
     });
     is_static
 }
-- 
2.43.0


From 06c823d0dfb3d262ee0a1bcc6ea218b7375c2369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:40 +0000
Subject: [PATCH 53/69] fix: match Java declarations by their erased parameter
 types

---
 crates/jvm-metadata/src/java_source.rs | 133 +++++++++++++++++++------
 1 file changed, 103 insertions(+), 30 deletions(-)

diff --git a/crates/jvm-metadata/src/java_source.rs b/crates/jvm-metadata/src/java_source.rs
index d1aed4b..66a0989 100644
--- a/crates/jvm-metadata/src/java_source.rs
+++ b/crates/jvm-metadata/src/java_source.rs
@@ -1,4 +1,4 @@
-use crate::{parse_method_descriptor, ClassFile, JvmType, MemberInfo};
+use crate::{parse_method_descriptor, ClassFile, ClassKind, JvmType, MemberInfo};
 use tree_sitter::{Node, Parser};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -125,7 +125,7 @@ pub fn locate_java_source_declarations(
     let methods = class
         .methods
         .iter()
-        .filter_map(|method| locate_method(method, &method_nodes, source))
+        .filter_map(|method| locate_method(class, method, class_node, &method_nodes, source))
         .collect::<Vec<_>>();
     let fields = class
         .fields
@@ -277,7 +277,9 @@ fn nodes_of_kinds<'tree>(nodes: &[Node<'tree>], kinds: &[&str]) -> Vec<Node<'tre
 }
 
 fn locate_method(
+    class: &ClassFile,
     method: &MemberInfo,
+    class_node: Node<'_>,
     nodes: &[Node<'_>],
     source: &str,
 ) -> Option<JavaSourceMemberLocation> {
@@ -285,6 +287,9 @@ fn locate_method(
         return None;
     }
     let descriptor = parse_method_descriptor(&method.descriptor).ok()?;
+    let written_parameters = descriptor
+        .parameters
+        .get(implicit_parameter_count(class, method)..)?;
     let expected_name = if method.name == "<init>" {
         None
     } else {
@@ -308,11 +313,15 @@ fn locate_method(
             if node_is_static(*node) != method.is_static() {
                 return None;
             }
-            let parameter_types = source_parameter_types(*node, source)?;
-            if parameter_types.len() != descriptor.parameters.len() {
-                return None;
-            }
-            Some((*node, name, parameter_types))
+            // The components of a record are the parameters of its compact constructor.
+            let parameters_node = if node.kind() == "compact_constructor_declaration" {
+                class_node
+            } else {
+                *node
+            };
+            let parameter_types = source_parameter_types(parameters_node, source)?;
+            source_types_match_descriptor(&parameter_types, written_parameters)
+                .then_some((*node, name))
         })
         .collect::<Vec<_>>();
     if candidates.is_empty() {
@@ -323,7 +332,7 @@ fn locate_method(
         let line = usize::from(line);
         let line_matches = candidates
             .iter()
-            .filter(|(node, _, _)| {
+            .filter(|(node, _)| {
                 node.start_position().row + 1 <= line && line <= node.end_position().row + 1
             })
             .cloned()
@@ -332,22 +341,10 @@ fn locate_method(
             candidates = line_matches;
         }
     }
-    if candidates.len() > 1 {
-        let type_matches = candidates
-            .iter()
-            .filter(|(_, _, source_types)| {
-                source_types_match_descriptor(source_types, &descriptor.parameters)
-            })
-            .cloned()
-            .collect::<Vec<_>>();
-        if type_matches.len() == 1 {
-            candidates = type_matches;
-        }
-    }
     if candidates.len() != 1 {
         return None;
     }
-    let (declaration, name, _) = candidates[0].clone();
+    let (declaration, name) = candidates[0];
     Some(JavaSourceMemberLocation {
         name: method.name.clone(),
         descriptor: method.descriptor.clone(),
@@ -356,6 +353,23 @@ fn locate_method(
     })
 }
 
+/// Constructor parameters the compiler adds before the written ones.
+fn implicit_parameter_count(class: &ClassFile, method: &MemberInfo) -> usize {
+    if method.name != "<init>" {
+        return 0;
+    }
+    if class.kind() == ClassKind::Enum {
+        // name and ordinal
+        return 2;
+    }
+    let is_inner_member = class.inner_classes.iter().any(|inner| {
+        inner.inner_class == class.name
+            && inner.outer_class.is_some()
+            && inner.access_flags & 0x0008 == 0
+    });
+    usize::from(is_inner_member)
+}
+
 fn locate_field(
     field: &MemberInfo,
     nodes: &[Node<'_>],
@@ -408,20 +422,14 @@ fn node_is_static(node: Node<'_>) -> bool {
 }
 
 fn source_parameter_types(node: Node<'_>, source: &str) -> Option<Vec<String>> {
-    if matches!(
-        node.kind(),
-        "compact_constructor_declaration" | "annotation_type_element_declaration"
-    ) {
+    if node.kind() == "annotation_type_element_declaration" {
         return Some(Vec::new());
     }
     let parameters = node.child_by_field_name("parameters")?;
     let mut result = Vec::new();
     let mut cursor = parameters.walk();
     for parameter in parameters.named_children(&mut cursor) {
-        if !matches!(
-            parameter.kind(),
-            "formal_parameter" | "spread_parameter" | "receiver_parameter"
-        ) {
+        if !matches!(parameter.kind(), "formal_parameter" | "spread_parameter") {
             continue;
         }
         let ty = parameter
@@ -431,7 +439,17 @@ fn source_parameter_types(node: Node<'_>, source: &str) -> Option<Vec<String>> {
         if parameter.kind() == "spread_parameter" {
             text.push_str("[]");
         }
-        result.push(normalize_source_type(&text));
+        // `int values[]` is an array parameter too.
+        if let Some(dimensions) = parameter.child_by_field_name("dimensions") {
+            let dimensions = dimensions.utf8_text(source.as_bytes()).ok()?;
+            text.push_str(&"[]".repeat(dimensions.matches('[').count()));
+        }
+        result.push(erased_source_type(
+            normalize_source_type(&text),
+            node,
+            source,
+            MAX_BOUND_CHAIN,
+        ));
     }
     Some(result)
 }
@@ -470,6 +488,57 @@ fn normalize_source_type(source: &str) -> String {
     output
 }
 
+/// Type variables bounded by type variables are followed this far.
+const MAX_BOUND_CHAIN: usize = 32;
+
+/// Replaces a type variable by its erasure.
+fn erased_source_type(ty: String, scope: Node<'_>, source: &str, bounds_left: usize) -> String {
+    if bounds_left == 0 {
+        return ty;
+    }
+    let base = ty.trim_end_matches("[]");
+    let dimensions = &ty[base.len()..];
+    let mut current = Some(scope);
+    while let Some(node) = current {
+        current = node.parent();
+        let Some(parameters) = node.child_by_field_name("type_parameters") else {
+            continue;
+        };
+        let mut cursor = parameters.walk();
+        for parameter in parameters.named_children(&mut cursor) {
+            if parameter.kind() != "type_parameter" {
+                continue;
+            }
+            let mut children = parameter.walk();
+            let mut is_declared = false;
+            let mut bound = None;
+            for child in parameter.named_children(&mut children) {
+                match child.kind() {
+                    "type_identifier" | "identifier" => {
+                        is_declared = child
+                            .utf8_text(source.as_bytes())
+                            .is_ok_and(|name| name == base);
+                    }
+                    "type_bound" => bound = child.named_child(0),
+                    _ => {}
+                }
+            }
+            if !is_declared {
+                continue;
+            }
+            let Some(bound) = bound else {
+                return format!("Object{dimensions}");
+            };
+            let Ok(bound) = bound.utf8_text(source.as_bytes()) else {
+                return ty;
+            };
+            let bound = normalize_source_type(bound);
+            return erased_source_type(bound, node, source, bounds_left - 1) + dimensions;
+        }
+    }
+    ty
+}
+
 fn source_types_match_descriptor(source: &[String], descriptor: &[JvmType]) -> bool {
     source.len() == descriptor.len()
         && source
@@ -479,6 +548,10 @@ fn source_types_match_descriptor(source: &[String], descriptor: &[JvmType]) -> b
 }
 
 fn source_type_matches(source: &str, descriptor: &JvmType) -> bool {
+    // Annotations and comments inside a type are not interpreted.
+    if source.contains(['@', '*']) {
+        return true;
+    }
     let expected = match descriptor {
         JvmType::Byte => "byte".to_string(),
         JvmType::Char => "char".to_string(),
-- 
2.43.0


From 28e6c13e710b844c7b55819628701cc127d6978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:40 +0000
Subject: [PATCH 54/69] fix: refuse JVM class names that are no Ruby constant
 in generated signatures

---
 crates/jruby-support/src/signatures.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/jruby-support/src/signatures.rs b/crates/jruby-support/src/signatures.rs
index 75cda44..a828e85 100644
--- a/crates/jruby-support/src/signatures.rs
+++ b/crates/jruby-support/src/signatures.rs
@@ -12,6 +12,16 @@ pub enum SignatureError {
 
 pub fn generate_ruby_signature(class: &ClassFile) -> Result<String, SignatureError> {
     let name = JavaClassName::parse(&class.name).map_err(SignatureError::InvalidClassName)?;
+    // A Ruby namespace can only be opened by a constant.
+    if !name
+        .ruby_namespace_parts()
+        .iter()
+        .all(|part| valid_ruby_constant_name(part))
+    {
+        return Err(SignatureError::InvalidClassName(
+            JavaNameError::InvalidClassName(class.name.clone()),
+        ));
+    }
     let mut output = String::new();
     writeln!(
         output,
-- 
2.43.0


From 6c67bea386156e0707bb2fcee802327a8c164461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:40 +0000
Subject: [PATCH 55/69] fix: keep generated parameter names of JVM signatures
 distinct and legal

---
 crates/jruby-support/src/signatures.rs | 42 ++++++++++++++++++++------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/crates/jruby-support/src/signatures.rs b/crates/jruby-support/src/signatures.rs
index a828e85..36cf3ae 100644
--- a/crates/jruby-support/src/signatures.rs
+++ b/crates/jruby-support/src/signatures.rs
@@ -2,6 +2,7 @@ use crate::{JavaClassName, JavaNameError};
 use ruby_fast_lsp_jvm_metadata::{
     ClassFile, ClassKind, JvmType, MemberInfo, MethodDescriptor, Visibility,
 };
+use std::collections::HashSet;
 use std::fmt::Write;
 
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -171,13 +172,12 @@ fn write_method(
     } else {
         ""
     };
-    let parameters = method
-        .parameters
-        .iter()
+    let parameter_count = method.parameters.len();
+    let parameters = ruby_parameter_names(method)
+        .into_iter()
         .enumerate()
-        .map(|(index, parameter)| {
-            let name = ruby_parameter_name(&parameter.name, index);
-            if method.is_varargs() && index + 1 == method.parameters.len() {
+        .map(|(index, name)| {
+            if method.is_varargs() && index + 1 == parameter_count {
                 format!("*{name}")
             } else {
                 name
@@ -212,11 +212,11 @@ fn write_method_docs(
     descriptor: &MethodDescriptor,
     indent: usize,
 ) {
+    let names = ruby_parameter_names(method);
     for (index, parameter) in descriptor.parameters.iter().enumerate() {
-        let name = method
-            .parameters
+        let name = names
             .get(index)
-            .map(|parameter| ruby_parameter_name(&parameter.name, index))
+            .cloned()
             .unwrap_or_else(|| format!("arg{index}"));
         writeln!(
             output,
@@ -297,6 +297,30 @@ fn valid_ruby_local_name(name: &str) -> bool {
         .is_some_and(|first| first.is_lowercase() || first == '_')
         && chars.all(|character| character.is_alphanumeric() || character == '_')
         && !is_ruby_keyword(name)
+        && !is_numbered_parameter(name)
+}
+
+/// Names for all parameters of a method; Ruby does not allow two alike.
+fn ruby_parameter_names(method: &MemberInfo) -> Vec<String> {
+    let mut names: Vec<String> = Vec::with_capacity(method.parameters.len());
+    let mut taken = HashSet::with_capacity(method.parameters.len());
+    for (index, parameter) in method.parameters.iter().enumerate() {
+        let mut name = ruby_parameter_name(&parameter.name, index);
+        if taken.contains(&name) {
+            name = format!("arg{index}");
+        }
+        while taken.contains(&name) {
+            name.push('_');
+        }
+        taken.insert(name.clone());
+        names.push(name);
+    }
+    names
+}
+
+/// `_1` to `_9` are reserved for numbered block parameters.
+fn is_numbered_parameter(name: &str) -> bool {
+    matches!(name.as_bytes(), [b'_', b'1'..=b'9'])
 }
 
 pub fn ruby_parameter_name(name: &str, index: usize) -> String {
-- 
2.43.0


From 1c0af565b614ec9dc8a227d799b9dc1542682a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:40 +0000
Subject: [PATCH 56/69] fix: completion offers exactly the local variables Ruby
 knows at the cursor

---
 crates/ruby-analysis/src/indexer/rename.rs    | 87 +++++++++++++++++++
 .../src/indexer/ruby_document.rs              |  9 +-
 src/capabilities/completion/variable.rs       | 40 +++------
 3 files changed, 108 insertions(+), 28 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/rename.rs b/crates/ruby-analysis/src/indexer/rename.rs
index 6a26673..be709cf 100644
--- a/crates/ruby-analysis/src/indexer/rename.rs
+++ b/crates/ruby-analysis/src/indexer/rename.rs
@@ -400,3 +400,90 @@ impl Visit<'_> for RenameVisitor {
         visit_optional_keyword_parameter_node(self, node);
     }
 }
+
+/// Collects the names of the local variables visible at one offset, innermost
+/// scope first, from the parser's own table of each scope's locals.
+struct VisibleLocalsVisitor {
+    offset: usize,
+    scopes: Vec<Vec<String>>,
+}
+
+impl VisibleLocalsVisitor {
+    /// Enter a scope spanning `start..=end`; a hard scope hides the outer ones.
+    fn enter(&mut self, start: usize, end: usize, hard: bool, locals: ruby_prism::ConstantList) {
+        if !(start..=end).contains(&self.offset) {
+            return;
+        }
+        if hard {
+            self.scopes.clear();
+        }
+        self.scopes.push(
+            locals
+                .iter()
+                .map(|name| String::from_utf8_lossy(name.as_slice()).to_string())
+                .collect(),
+        );
+    }
+}
+
+impl<'pr> Visit<'pr> for VisibleLocalsVisitor {
+    fn visit_program_node(&mut self, node: &ruby_prism::ProgramNode<'pr>) {
+        self.enter(0, usize::MAX, true, node.locals());
+        ruby_prism::visit_program_node(self, node);
+    }
+
+    fn visit_def_node(&mut self, node: &DefNode<'pr>) {
+        let start = node.name_loc().end_offset() + 1;
+        self.enter(start, node.location().end_offset(), true, node.locals());
+        ruby_prism::visit_def_node(self, node);
+    }
+
+    fn visit_class_node(&mut self, node: &ClassNode<'pr>) {
+        let header = node.superclass().unwrap_or(node.constant_path());
+        let start = header.location().end_offset() + 1;
+        self.enter(start, node.location().end_offset(), true, node.locals());
+        ruby_prism::visit_class_node(self, node);
+    }
+
+    fn visit_module_node(&mut self, node: &ModuleNode<'pr>) {
+        let start = node.constant_path().location().end_offset() + 1;
+        self.enter(start, node.location().end_offset(), true, node.locals());
+        ruby_prism::visit_module_node(self, node);
+    }
+
+    fn visit_singleton_class_node(&mut self, node: &SingletonClassNode<'pr>) {
+        let start = node.expression().location().end_offset() + 1;
+        self.enter(start, node.location().end_offset(), true, node.locals());
+        ruby_prism::visit_singleton_class_node(self, node);
+    }
+
+    fn visit_block_node(&mut self, node: &BlockNode<'pr>) {
+        let location = node.location();
+        let (start, end) = (location.start_offset() + 1, location.end_offset() - 1);
+        self.enter(start, end, false, node.locals());
+        visit_block_node(self, node);
+    }
+
+    fn visit_lambda_node(&mut self, node: &LambdaNode<'pr>) {
+        let location = node.location();
+        let (start, end) = (location.start_offset() + 1, location.end_offset() - 1);
+        self.enter(start, end, false, node.locals());
+        visit_lambda_node(self, node);
+    }
+}
+
+/// Names of the local variables visible at `offset`, innermost first, once each.
+pub fn visible_local_variables(root: &Node, offset: usize) -> Vec<String> {
+    let mut visitor = VisibleLocalsVisitor {
+        offset,
+        scopes: Vec::new(),
+    };
+    visitor.visit(root);
+    let mut names = Vec::new();
+    for name in visitor.scopes.into_iter().rev().flatten() {
+        if !names.contains(&name) {
+            names.push(name);
+        }
+    }
+    names
+}
diff --git a/crates/ruby-analysis/src/indexer/ruby_document.rs b/crates/ruby-analysis/src/indexer/ruby_document.rs
index c6029ce..0f069ee 100644
--- a/crates/ruby-analysis/src/indexer/ruby_document.rs
+++ b/crates/ruby-analysis/src/indexer/ruby_document.rs
@@ -3,7 +3,7 @@ use ruby_prism::Location as PrismLocation;
 use std::borrow::Cow;
 use url::Url;
 
-use super::rename::{LocalOccurrence, LocalOccurrenceRole, RenameVisitor};
+use super::rename::{visible_local_variables, LocalOccurrence, LocalOccurrenceRole, RenameVisitor};
 use crate::{is_erb_path, mask_erb, EmbeddedRuby, LVScopeId, SourceDocument, VariableScopes};
 
 /// A document representation that handles conversions between byte offsets and LSP positions
@@ -213,6 +213,13 @@ impl RubyDocument {
         RenameVisitor::find_occurrences(file_id, cursor - 1, &root)
     }
 
+    /// Names of the local variables visible at `position`, innermost first.
+    pub fn local_variables_visible_at(&self, position: SourcePosition) -> Vec<String> {
+        let offset = self.position_to_analysis_offset(position);
+        let parse_result = self.parse();
+        visible_local_variables(&parse_result.node(), offset as usize)
+    }
+
     pub fn local_variable_definition_range_at(&self, byte_offset: u32) -> Option<TextRange> {
         self.local_variable_occurrences_at(byte_offset)
             .into_iter()
diff --git a/src/capabilities/completion/variable.rs b/src/capabilities/completion/variable.rs
index 89b3c69..95da512 100644
--- a/src/capabilities/completion/variable.rs
+++ b/src/capabilities/completion/variable.rs
@@ -1,4 +1,3 @@
-use std::collections::HashSet;
 use tower_lsp::lsp_types::{
     CompletionItem, CompletionItemKind, CompletionItemLabelDetails, Position,
 };
@@ -10,30 +9,17 @@ pub fn find_variable_completions(
     document: &RubyDocument,
     position: Position,
 ) -> Vec<CompletionItem> {
-    let mut completions = vec![];
-    let mut seen_variables = HashSet::new();
-
-    let scope_id = match document.scope_at_position(source_position(position)) {
-        Some(id) => id,
-        None => return completions,
-    };
-
-    // Get visible variables from the VariableScopes tree (walks scope chain respecting boundaries)
-    let visible_vars = document.variable_scopes().get_visible_variables(scope_id);
-    for var in &visible_vars {
-        let name = var.name.to_string();
-        if seen_variables.insert(name.clone()) {
-            completions.push(CompletionItem {
-                label: name,
-                label_details: Some(CompletionItemLabelDetails {
-                    detail: Some(" local_variable".to_string()),
-                    description: None,
-                }),
-                kind: Some(CompletionItemKind::VARIABLE),
-                ..Default::default()
-            });
-        }
-    }
-
-    completions
+    document
+        .local_variables_visible_at(source_position(position))
+        .into_iter()
+        .map(|name| CompletionItem {
+            label: name,
+            label_details: Some(CompletionItemLabelDetails {
+                detail: Some(" local_variable".to_string()),
+                description: None,
+            }),
+            kind: Some(CompletionItemKind::VARIABLE),
+            ..Default::default()
+        })
+        .collect()
 }
-- 
2.43.0


From d153d30eadfe34d563e4f747ad7ee871039ce619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:51 +0000
Subject: [PATCH 57/69] fix: identifiers of a template are looked up in its
 Ruby, not in its host text

---
 crates/ruby-analysis/src/indexer/analyzer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ruby-analysis/src/indexer/analyzer.rs b/crates/ruby-analysis/src/indexer/analyzer.rs
index 6e31c43..369db84 100644
--- a/crates/ruby-analysis/src/indexer/analyzer.rs
+++ b/crates/ruby-analysis/src/indexer/analyzer.rs
@@ -97,7 +97,7 @@ impl RubyPrismAnalyzer {
         crate::core::NamespaceKind,
     ) {
         let mut iden_visitor = IdentifierVisitor::new_with_execution_context_at_offset(
-            self.code.clone(),
+            self.analysis_code.clone(),
             byte_offset,
             self.execution_context.clone(),
         );
-- 
2.43.0


From 08a5ae4485b02a0da49260bd4775979925251e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:51 +0000
Subject: [PATCH 58/69] fix: comments of a template are those of its Ruby

---
 crates/ruby-analysis/src/indexer/ruby_document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ruby-analysis/src/indexer/ruby_document.rs b/crates/ruby-analysis/src/indexer/ruby_document.rs
index 0f069ee..096b038 100644
--- a/crates/ruby-analysis/src/indexer/ruby_document.rs
+++ b/crates/ruby-analysis/src/indexer/ruby_document.rs
@@ -84,7 +84,7 @@ impl RubyDocument {
     }
 
     pub fn get_comments(&self) -> &[(usize, usize)] {
-        self.source.comments(&self.content)
+        self.source.comments(self.analysis_content())
     }
 
     /// Updates document content and version, recomputing line offsets
-- 
2.43.0


From 6f11c2b50ec0ea36f14abca74bbb01e6934a6d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:51 +0000
Subject: [PATCH 59/69] fix: host text of a template is no YARD comment

---
 src/query/definition.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/query/definition.rs b/src/query/definition.rs
index 77671ce..7691935 100644
--- a/src/query/definition.rs
+++ b/src/query/definition.rs
@@ -17,6 +17,20 @@ use crate::utils::lsp::{lsp_text_location, source_position};
 use crate::utils::position_to_offset;
 
 impl EngineQuery {
+    /// Whether a position lies in a Ruby comment. A line of a template that
+    /// starts with `#` is host text, not a comment.
+    fn position_is_in_comment(&self, position: Position) -> bool {
+        let Some(document) = &self.doc else {
+            return true;
+        };
+        let document = document.read();
+        let offset = document.position_to_analysis_offset(source_position(position)) as usize;
+        document
+            .get_comments()
+            .iter()
+            .any(|(start, end)| (*start..*end).contains(&offset))
+    }
+
     /// Find definitions for an identifier at the given position.
     ///
     /// This handles all identifier types:
@@ -33,6 +47,7 @@ impl EngineQuery {
         // First check if we're in a YARD comment type reference
         if let Some(yard_type) =
             YardParser::find_type_at_position(content, source_position(position))
+                .filter(|_| self.position_is_in_comment(position))
         {
             info!("Found YARD type at position: {}", yard_type.type_name);
             // Get the enclosing namespace context for proper resolution
-- 
2.43.0


From 45f5127f2f7273b7443ea9dbd1dd96efd337f736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:14 +0000
Subject: [PATCH 60/69] fix: visibility set in the block of Class.new,
 Struct.new or class_eval ends with it

---
 .../src/indexer/analysis_indexer.rs           | 10 +++++
 .../src/indexer/document_symbols.rs           |  8 ++++
 .../src/indexer/fact_collector/mod.rs         |  8 ++++
 .../src/indexer/scope_tracker.rs              | 42 +++++++++++++++++++
 4 files changed, 68 insertions(+)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index 9b501c4..cefdae0 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -8,6 +8,7 @@ use crate::core::{
     SymbolFact, SymbolKind, TextRange, TypeFact, TypeProvenance, TypeSubject,
     UnresolvedGraphEdgeFact,
 };
+use crate::indexer::scope_tracker::block_is_class_body;
 use ruby_prism::{
     visit_alias_method_node, visit_call_node, visit_class_node,
     visit_class_variable_and_write_node, visit_class_variable_operator_write_node,
@@ -1662,7 +1663,9 @@ impl Visit<'_> for AnalysisIndexer {
                     self.method_context_stack.len(),
                 ));
                 self.scope_stack.push(definition_scope);
+                self.visibility_stack.push(MethodVisibility::Public);
                 self.visit(&block);
+                self.visibility_stack.pop();
                 self.scope_stack.pop();
                 self.eval_context_depths.pop().expect(
                     "INVARIANT VIOLATED: analysis indexer eval-context stack underflow. This is a bug because every static eval block context must be popped exactly once. Fix: keep AnalysisIndexer::visit_call_node eval traversal balanced.",
@@ -1764,7 +1767,14 @@ impl Visit<'_> for AnalysisIndexer {
             self.push_receiver_define_singleton_method_fact(node);
         }
 
+        let class_body = block_is_class_body(node);
+        if class_body {
+            self.visibility_stack.push(MethodVisibility::Public);
+        }
         visit_call_node(self, node);
+        if class_body {
+            self.visibility_stack.pop();
+        }
     }
 
     fn visit_singleton_class_node(&mut self, node: &SingletonClassNode<'_>) {
diff --git a/crates/ruby-analysis/src/indexer/document_symbols.rs b/crates/ruby-analysis/src/indexer/document_symbols.rs
index b81fd06..a60a07a 100644
--- a/crates/ruby-analysis/src/indexer/document_symbols.rs
+++ b/crates/ruby-analysis/src/indexer/document_symbols.rs
@@ -1,6 +1,7 @@
 use std::collections::HashMap;
 
 use crate::core::{NamespaceKind, RubyConstant, SourceRange};
+use crate::indexer::scope_tracker::block_is_class_body;
 use crate::{LVScopeKind, RubyDocument, ScopeTracker};
 use ruby_prism::{
     visit_call_node, visit_class_node, visit_constant_write_node, visit_def_node,
@@ -410,7 +411,14 @@ impl<'a> Visit<'a> for DocumentSymbolsVisitor<'a> {
             self.push_visibility_scope();
             self.set_current_visibility(visibility);
         }
+        let class_body = block_is_class_body(node);
+        if class_body {
+            self.push_visibility_scope();
+        }
         visit_call_node(self, node);
+        if class_body {
+            self.pop_visibility_scope();
+        }
         if modifier.is_some() {
             self.pop_visibility_scope();
         }
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/mod.rs b/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
index 5190678..1e8362f 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
@@ -14,6 +14,7 @@ use ruby_fast_lsp_extension_api::{IndexPatch, Receiver, ResolvedCall, SourceRang
 use ruby_prism::*;
 
 use super::AnalysisIndex;
+use crate::indexer::scope_tracker::block_is_class_body;
 use crate::inference::method::recursive::solve_method_return_equations_with_telemetry;
 use crate::inference::r#type::literal::{
     infer_array_literal_type_fallible, infer_hash_literal_type_fallible, literal_key,
@@ -3584,7 +3585,14 @@ impl Visit<'_> for FactCollector {
                     self.scope_tracker
                         .push_scope_kind(crate::LocalScopeKind::FrameworkInstanceBlock);
                 }
+                let class_body = block_is_class_body(node);
+                if class_body {
+                    self.scope_tracker.push_visibility_scope();
+                }
                 self.visit(&block);
+                if class_body {
+                    self.scope_tracker.pop_visibility_scope();
+                }
                 if framework_instance_block {
                     self.scope_tracker.pop_scope_kind();
                 }
diff --git a/crates/ruby-analysis/src/indexer/scope_tracker.rs b/crates/ruby-analysis/src/indexer/scope_tracker.rs
index ec7f7b2..660425d 100644
--- a/crates/ruby-analysis/src/indexer/scope_tracker.rs
+++ b/crates/ruby-analysis/src/indexer/scope_tracker.rs
@@ -415,6 +415,20 @@ impl ScopeTracker {
         }
     }
 
+    /// Enter the body of another class that is no namespace of its own, such as
+    /// the block of `Class.new`: the visibility set there ends with it.
+    pub fn push_visibility_scope(&mut self) {
+        self.visibility_stack.push(MethodVisibility::Public);
+    }
+
+    pub fn pop_visibility_scope(&mut self) {
+        self.visibility_stack.pop().expect(
+            "INVARIANT VIOLATED: visibility stack underflow after a class body block. \
+             This is a bug because every class body block must own one visibility flag. \
+             Fix: keep class body block push/pop balanced.",
+        );
+    }
+
     pub fn in_singleton(&self) -> bool {
         matches!(self.frames.last(), Some(ScopeFrame::Singleton))
     }
@@ -587,6 +601,34 @@ fn collect_constant_path_parts_for_name(node: &Node, parts: &mut Vec<String>) {
     }
 }
 
+/// Whether the block of a call is the body of a class or module, with a
+/// visibility of its own, as in `Class.new do`.
+pub(crate) fn block_is_class_body(node: &ruby_prism::CallNode) -> bool {
+    if node.block().is_none() {
+        return false;
+    }
+    match node.name().as_slice() {
+        b"class_eval" | b"class_exec" | b"module_eval" | b"module_exec" | b"instance_eval"
+        | b"instance_exec" => true,
+        name => {
+            let constant = node.receiver().and_then(|receiver| {
+                if let Some(read) = receiver.as_constant_read_node() {
+                    return Some(read.name());
+                }
+                receiver
+                    .as_constant_path_node()
+                    .filter(|path| path.parent().is_none())
+                    .and_then(|path| path.name())
+            });
+            constant.is_some_and(|constant| match constant.as_slice() {
+                b"Class" | b"Module" | b"Struct" => name == b"new",
+                b"Data" => name == b"define",
+                _ => false,
+            })
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::core::RubyMethod;
-- 
2.43.0


From 7448a237053c30338c7d188376e1209af143c27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:14 +0000
Subject: [PATCH 61/69] fix: the backquotes of a quoted RBS method name are not
 part of it

---
 crates/rbs-parser/src/visitor.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/rbs-parser/src/visitor.rs b/crates/rbs-parser/src/visitor.rs
index 5b7ab21..176a5b9 100644
--- a/crates/rbs-parser/src/visitor.rs
+++ b/crates/rbs-parser/src/visitor.rs
@@ -160,6 +160,13 @@ impl<'a> Visitor<'a> {
         self.node_text(node).to_string()
     }
 
+    /// A method name; the backquotes of a quoted name are not part of it
+    fn unquote_method_name(name: &str) -> &str {
+        name.strip_prefix('`')
+            .and_then(|name| name.strip_suffix('`'))
+            .unwrap_or(name)
+    }
+
     /// Visit a module declaration
     fn visit_module_declaration(&mut self, node: Node) -> Result<ModuleDecl, ParseError> {
         let mut module = ModuleDecl::new("");
@@ -490,7 +497,8 @@ impl<'a> Visitor<'a> {
             match child.kind() {
                 "method_name" => {
                     // method_name contains identifier child
-                    method.name = self.extract_name(&child);
+                    method.name =
+                        Self::unquote_method_name(&self.extract_name(&child)).to_string();
                 }
                 "name" | "operator" | "identifier" => {
                     let name = self.node_text(&child);
@@ -848,7 +856,9 @@ impl<'a> Visitor<'a> {
 
         for child in node.named_children(&mut cursor) {
             match child.kind() {
-                "method_name" => names.push(self.node_text(&child).to_string()),
+                "method_name" => {
+                    names.push(Self::unquote_method_name(self.node_text(&child)).to_string())
+                }
                 "singleton_method_name" => {
                     alias.is_singleton = true;
                     let mut name_cursor = child.walk();
@@ -856,7 +866,9 @@ impl<'a> Visitor<'a> {
                         child
                             .named_children(&mut name_cursor)
                             .filter(|name| name.kind() == "method_name")
-                            .map(|name| self.node_text(&name).to_string()),
+                            .map(|name| {
+                                Self::unquote_method_name(self.node_text(&name)).to_string()
+                            }),
                     );
                 }
                 _ => {}
-- 
2.43.0


From f04b57e2181d1412205e21f581604d2f649ddd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:14 +0000
Subject: [PATCH 62/69] fix: def self?.name declares an instance method too

---
 crates/rbs-parser/src/visitor.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/rbs-parser/src/visitor.rs b/crates/rbs-parser/src/visitor.rs
index 176a5b9..25489ac 100644
--- a/crates/rbs-parser/src/visitor.rs
+++ b/crates/rbs-parser/src/visitor.rs
@@ -400,6 +400,13 @@ impl<'a> Visitor<'a> {
                 }
                 "method_definition" | "method_member" | "method" => {
                     let method = self.visit_method_definition(child)?;
+                    if Self::is_module_function(&child) {
+                        // `def self?.name` is also a private instance method.
+                        let mut instance = method.clone();
+                        instance.kind = MethodKind::Instance;
+                        instance.visibility = Visibility::Private;
+                        methods.push(instance);
+                    }
                     methods.push(method);
                 }
                 "singleton_method_definition" | "singleton_method" => {
@@ -484,6 +491,14 @@ impl<'a> Visitor<'a> {
         }
     }
 
+    fn is_module_function(method: &Node) -> bool {
+        let mut cursor = method.walk();
+        let found = method
+            .children(&mut cursor)
+            .any(|child| child.kind() == "?.");
+        found
+    }
+
     /// Visit a method definition
     fn visit_method_definition(&mut self, node: Node) -> Result<MethodDecl, ParseError> {
         let mut method = MethodDecl::new("");
@@ -497,8 +512,7 @@ impl<'a> Visitor<'a> {
             match child.kind() {
                 "method_name" => {
                     // method_name contains identifier child
-                    method.name =
-                        Self::unquote_method_name(&self.extract_name(&child)).to_string();
+                    method.name = Self::unquote_method_name(&self.extract_name(&child)).to_string();
                 }
                 "name" | "operator" | "identifier" => {
                     let name = self.node_text(&child);
-- 
2.43.0


From 852e9288cf439c3304343a530a40f2ef73811e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:41 +0000
Subject: [PATCH 63/69] fix: an interface mixed in by an RBS file does not keep
 it from the index

---
 crates/ruby-analysis/src/indexer/rbs_indexer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/ruby-analysis/src/indexer/rbs_indexer.rs b/crates/ruby-analysis/src/indexer/rbs_indexer.rs
index 87b0679..711f9b9 100644
--- a/crates/ruby-analysis/src/indexer/rbs_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/rbs_indexer.rs
@@ -449,6 +449,15 @@ fn push_unresolved_edge(
     let Some(name) = rbs_type_name(target) else {
         return Ok(());
     };
+    // An interface such as `_Each` is no namespace of the program: mixing it
+    // in states a contract, not an ancestor.
+    if name
+        .rsplit("::")
+        .next()
+        .is_some_and(|last| last.starts_with('_'))
+    {
+        return Ok(());
+    }
     let absolute = name.starts_with("::");
     let target_parts = constant_parts(name)?;
     facts
-- 
2.43.0


From a6656017cd70866034b57ce27faf10d743079a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:41 +0000
Subject: [PATCH 64/69] fix: a block signature inference cannot model does not
 keep an RBS file from the index

---
 .../ruby-analysis/src/indexer/rbs_indexer.rs  | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/rbs_indexer.rs b/crates/ruby-analysis/src/indexer/rbs_indexer.rs
index 711f9b9..530e7bb 100644
--- a/crates/ruby-analysis/src/indexer/rbs_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/rbs_indexer.rs
@@ -2,7 +2,8 @@ use crate::core::method_store::MethodVisibility;
 use crate::core::{
     FullyQualifiedName, GraphEdgeKind, GraphNodeFact, GraphNodeKind, MethodFact, MethodParamFact,
     MethodParamKind, NamespaceKind, RubyConstant, RubyMethod, RubyType, SourceFileId, SymbolFact,
-    SymbolKind, TextRange, TypeFact, TypeProvenance, TypeSubject, UnresolvedGraphEdgeFact,
+    SymbolKind, TextRange, TypeFact, TypeProvenance, TypeSubject, UnknownReason,
+    UnresolvedGraphEdgeFact,
 };
 use rbs_parser::{
     rbs_type_to_string, AttrKind, Declaration, Location, MethodDecl, MethodKind, ParamKind,
@@ -230,15 +231,22 @@ fn push_method(
             &owner_type_parameters,
             &method_type_parameters,
             overload,
-        )
-        .map_err(|reason| {
-            rbs_parser::ParseError::new(format!(
-                "unsupported higher-order RBS signature for {normalized_name}: {}",
-                reason.code()
-            ))
-        })?;
-        if let Some(callable) = callable {
-            callable_signatures.push(callable);
+        );
+        match callable {
+            Ok(Some(callable)) => callable_signatures.push(callable),
+            Ok(None) => {}
+            // What block inference cannot model it must not guess from the
+            // other overloads; the method itself is declared all the same.
+            Err(UnknownReason::UnsupportedCallable) => {
+                callable_signatures.clear();
+                break;
+            }
+            Err(reason) => {
+                return Err(rbs_parser::ParseError::new(format!(
+                    "unsupported higher-order RBS signature for {normalized_name}: {}",
+                    reason.code()
+                )));
+            }
         }
     }
     let fact = MethodFact::with_param_facts(fqn.clone(), owner, range, params)
-- 
2.43.0


From 8a4841e061dc2bc039335b5dd4a186cf88acd7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 65/69] fix: a quoted RBS method name does not keep its file
 from the index

---
 crates/ruby-analysis/src/indexer/rbs_indexer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/rbs_indexer.rs b/crates/ruby-analysis/src/indexer/rbs_indexer.rs
index 530e7bb..af1814b 100644
--- a/crates/ruby-analysis/src/indexer/rbs_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/rbs_indexer.rs
@@ -169,9 +169,11 @@ fn push_method(
 ) -> Result<(), rbs_parser::ParseError> {
     let is_constructor = method.name == "initialize" && method.kind == MethodKind::Instance;
     let normalized_name = if is_constructor { "new" } else { &method.name };
-    let ruby_method = RubyMethod::new(normalized_name).map_err(|message| {
-        rbs_parser::ParseError::new(format!("invalid RBS method {normalized_name}: {message}"))
-    })?;
+    // A quoted name such as `foo bar` cannot be called by name, and the other
+    // declarations of the file do not depend on it.
+    let Ok(ruby_method) = RubyMethod::new(normalized_name) else {
+        return Ok(());
+    };
     let fqn = FullyQualifiedName::method(parts.to_vec(), ruby_method);
     let owner_kind = match (method.kind, is_constructor) {
         (MethodKind::Instance, false) => NamespaceKind::Instance,
-- 
2.43.0


From 7cd6bc4b6639183ebbfdd6b15cd404c54a72a8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 66/69] fix: the writer of an RBS attribute takes its value

---
 crates/ruby-analysis/src/indexer/rbs_indexer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/ruby-analysis/src/indexer/rbs_indexer.rs b/crates/ruby-analysis/src/indexer/rbs_indexer.rs
index af1814b..2fbfa5e 100644
--- a/crates/ruby-analysis/src/indexer/rbs_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/rbs_indexer.rs
@@ -413,7 +413,14 @@ fn push_members(
                         } else {
                             MethodKind::Instance
                         },
-                        overloads: vec![rbs_parser::MethodType::new(attribute.r#type.clone())],
+                        overloads: vec![rbs_parser::MethodType {
+                            params: vec![rbs_parser::MethodParam {
+                                name: Some(attribute.name.clone()),
+                                r#type: attribute.r#type.clone(),
+                                kind: ParamKind::Required,
+                            }],
+                            ..rbs_parser::MethodType::new(attribute.r#type.clone())
+                        }],
                         visibility: Visibility::Public,
                         location: attribute.location,
                     };
-- 
2.43.0


From a302de19f98bbc2c302ad235e08375cb2b15a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 67/69] fix: an RBS attribute has the visibility of its section

---
 crates/ruby-analysis/src/indexer/rbs_indexer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/rbs_indexer.rs b/crates/ruby-analysis/src/indexer/rbs_indexer.rs
index 2fbfa5e..02a9ddf 100644
--- a/crates/ruby-analysis/src/indexer/rbs_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/rbs_indexer.rs
@@ -354,6 +354,7 @@ fn push_members(
     file_id: SourceFileId,
     source_len: usize,
 ) -> Result<(), rbs_parser::ParseError> {
+    let mut visibility = Visibility::Public;
     for member in members {
         match member {
             rbs_parser::Member::Include(target) => push_unresolved_edge(
@@ -392,7 +393,7 @@ fn push_members(
                             MethodKind::Instance
                         },
                         overloads: vec![rbs_parser::MethodType::new(attribute.r#type.clone())],
-                        visibility: Visibility::Public,
+                        visibility,
                         location: attribute.location,
                     };
                     push_method(
@@ -421,7 +422,7 @@ fn push_members(
                             }],
                             ..rbs_parser::MethodType::new(attribute.r#type.clone())
                         }],
-                        visibility: Visibility::Public,
+                        visibility,
                         location: attribute.location,
                     };
                     push_method(
@@ -435,9 +436,9 @@ fn push_members(
                     )?;
                 }
             }
-            rbs_parser::Member::Alias(_)
-            | rbs_parser::Member::Public
-            | rbs_parser::Member::Private => {}
+            rbs_parser::Member::Public => visibility = Visibility::Public,
+            rbs_parser::Member::Private => visibility = Visibility::Private,
+            rbs_parser::Member::Alias(_) => {}
         }
     }
     Ok(())
-- 
2.43.0


From 3c021814d36d9d95cf08d26738188971c9148e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 68/69] fix: the new of an RBS class is public

---
 crates/ruby-analysis/src/indexer/rbs_indexer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ruby-analysis/src/indexer/rbs_indexer.rs b/crates/ruby-analysis/src/indexer/rbs_indexer.rs
index 02a9ddf..d02ef84 100644
--- a/crates/ruby-analysis/src/indexer/rbs_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/rbs_indexer.rs
@@ -252,7 +252,12 @@ fn push_method(
         }
     }
     let fact = MethodFact::with_param_facts(fqn.clone(), owner, range, params)
-        .with_visibility(method_visibility(method.visibility))
+        .with_visibility(if is_constructor {
+            // `initialize` is private, the `new` that calls it is not.
+            MethodVisibility::Public
+        } else {
+            method_visibility(method.visibility)
+        })
         .with_signature_metadata(None, return_type_label)
         .with_callable_signatures(callable_signatures);
     facts
-- 
2.43.0


From c67e3f352fccd11a428d063a5f0f07efbb4479ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 69/69] fix: an RBS alias declares a method

---
 .../ruby-analysis/src/indexer/rbs_indexer.rs  | 46 ++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/crates/ruby-analysis/src/indexer/rbs_indexer.rs b/crates/ruby-analysis/src/indexer/rbs_indexer.rs
index d02ef84..5e99a6e 100644
--- a/crates/ruby-analysis/src/indexer/rbs_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/rbs_indexer.rs
@@ -66,6 +66,7 @@ pub fn index_rbs(
                     &parts,
                     &namespace,
                     &class.type_params,
+                    &class.methods,
                     &class.members,
                     &offsets,
                     file_id,
@@ -109,6 +110,7 @@ pub fn index_rbs(
                     &parts,
                     &namespace,
                     &module.type_params,
+                    &module.methods,
                     &module.members,
                     &offsets,
                     file_id,
@@ -354,6 +356,7 @@ fn push_members(
     parts: &[RubyConstant],
     namespace: &FullyQualifiedName,
     owner_type_params: &[rbs_parser::TypeParam],
+    methods: &[MethodDecl],
     members: &[rbs_parser::Member],
     offsets: &LineOffsets,
     file_id: SourceFileId,
@@ -443,7 +446,48 @@ fn push_members(
             }
             rbs_parser::Member::Public => visibility = Visibility::Public,
             rbs_parser::Member::Private => visibility = Visibility::Private,
-            rbs_parser::Member::Alias(_) => {}
+            rbs_parser::Member::Alias(alias) => {
+                let aliased = methods.iter().find(|method| {
+                    method.name == alias.old_name
+                        && (method.kind == MethodKind::Singleton) == alias.is_singleton
+                });
+                if let Some(aliased) = aliased {
+                    let alias_method = MethodDecl {
+                        name: alias.new_name.clone(),
+                        location: alias.location,
+                        ..aliased.clone()
+                    };
+                    push_method(
+                        facts,
+                        parts,
+                        owner_type_params,
+                        &alias_method,
+                        offsets,
+                        file_id,
+                        source_len,
+                    )?;
+                    continue;
+                }
+                // The aliased method is an attribute, inherited or declared
+                // elsewhere: the new name exists, its parameters are not stated here.
+                let Ok(name) = RubyMethod::new(&alias.new_name) else {
+                    continue;
+                };
+                let fqn = FullyQualifiedName::method(parts.to_vec(), name);
+                let owner = FullyQualifiedName::namespace_with_kind(
+                    parts.to_vec(),
+                    if alias.is_singleton {
+                        NamespaceKind::Singleton
+                    } else {
+                        NamespaceKind::Instance
+                    },
+                );
+                let range = offsets.range(file_id, alias.location, source_len);
+                facts
+                    .symbols
+                    .push(SymbolFact::new(fqn.clone(), SymbolKind::Method, range));
+                facts.methods.push(MethodFact::new(fqn, owner, range));
+            }
         }
     }
     Ok(())
-- 
2.43.0

