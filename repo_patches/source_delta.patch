From 1f706b291514c4084cd2713cf09e4a1d31a7e78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 01/32] fix: count outstanding work so that no worker quits
 while work remains

Workers decided to stop by counting waiting and quitting workers. A stale
Quit message let all of them leave while one was about to send more work,
losing documents; and a worker that panicked, or that could not be spawned,
left the others waiting for ever.
---
 src/worker_pool.rs | 109 +++++++++++----------------------------------
 1 file changed, 27 insertions(+), 82 deletions(-)

diff --git a/src/worker_pool.rs b/src/worker_pool.rs
index fe1dbfb..aba061b 100644
--- a/src/worker_pool.rs
+++ b/src/worker_pool.rs
@@ -9,12 +9,6 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 use std::thread;
 use std::time::Duration;
 
-#[derive(Debug)]
-enum Message {
-    Work(Work),
-    Quit,
-}
-
 #[derive(Debug)]
 enum WorkResult {
     MoreWork(Vec<Work>),
@@ -119,20 +113,28 @@ impl Work {
     }
 }
 
+/// Marks a piece of work as done when dropped, even if a panic unwinds through it.
+struct DoneOnDrop<'a>(&'a AtomicUsize);
+
+impl Drop for DoneOnDrop<'_> {
+    fn drop(&mut self) {
+        self.0.fetch_sub(1, Ordering::SeqCst);
+    }
+}
+
 struct Worker<'a> {
     pool: &'a WorkerPool,
-    is_waiting: bool,
-    is_quitting: bool,
     aggregate: WorkAggregateResult,
-    num_waiting: &'a AtomicUsize,
-    num_quitting: &'a AtomicUsize,
-    tx: channel::Sender<Message>,
-    rx: channel::Receiver<Message>,
+    /// Amount of work that is queued or being run, by any worker.
+    num_outstanding: &'a AtomicUsize,
+    tx: channel::Sender<Work>,
+    rx: channel::Receiver<Work>,
 }
 
 impl<'a> Worker<'a> {
     fn run(mut self) -> WorkAggregateResult {
         while let Some(work) = self.pop_work() {
+            let _done = DoneOnDrop(self.num_outstanding);
             match work.run(&self.pool.compile_config, &self.pool.schema) {
                 WorkResult::CompileResult {
                     global_types_used,
@@ -143,7 +145,8 @@ impl<'a> Worker<'a> {
                 }
                 WorkResult::MoreWork(additional_work) => {
                     for work in additional_work {
-                        self.tx.send(Message::Work(work)).unwrap();
+                        self.num_outstanding.fetch_add(1, Ordering::SeqCst);
+                        self.tx.send(work).unwrap();
                     }
                 }
                 WorkResult::DirIoError(io_error, path) => {
@@ -159,74 +162,20 @@ impl<'a> Worker<'a> {
     fn pop_work(&mut self) -> Option<Work> {
         loop {
             match self.rx.try_recv() {
-                Ok(Message::Work(work)) => {
-                    self.set_waiting(false);
-                    self.set_quitting(false);
-                    return Some(work);
-                }
-                Ok(Message::Quit) => {
-                    self.set_waiting(true);
-                    self.set_quitting(true);
-                    loop {
-                        let nwait = self.num_waiting();
-                        let nquit = self.num_quitting();
-                        let threads = self.pool.thread_count;
-                        // If the number of waiting workers dropped, then abort our attempt to quit.
-                        // Sometimes work will come back.
-                        if nwait < threads {
-                            break;
-                        }
-                        // If all workers are in this quit loop, then we can stop.
-                        if nquit == threads {
-                            return None;
-                        }
-                    }
-                }
+                Ok(work) => return Some(work),
                 Err(_) => {
-                    let threads = self.pool.thread_count;
-                    self.set_waiting(true);
-                    self.set_quitting(false);
-                    if self.num_waiting() == threads {
-                        for _ in 0..threads {
-                            self.tx.send(Message::Quit).unwrap();
-                        }
-                    } else {
-                        // This is a bit weird, I know, but we want producers to catch up
-                        // without burning the CPU too hard.
-                        thread::sleep(Duration::from_millis(1));
+                    // Work is counted before it is sent and until it is done, so once nothing
+                    // is outstanding no more work can come.
+                    if self.num_outstanding.load(Ordering::SeqCst) == 0 {
+                        return None;
                     }
+                    // This is a bit weird, I know, but we want producers to catch up
+                    // without burning the CPU too hard.
+                    thread::sleep(Duration::from_millis(1));
                 }
             }
         }
     }
-
-    fn num_waiting(&self) -> usize {
-        self.num_waiting.load(Ordering::SeqCst)
-    }
-
-    fn num_quitting(&self) -> usize {
-        self.num_quitting.load(Ordering::SeqCst)
-    }
-
-    fn set_waiting(&mut self, desired: bool) {
-        if desired && !self.is_waiting {
-            self.is_waiting = true;
-            self.num_waiting.fetch_add(1, Ordering::SeqCst);
-        } else if !desired && self.is_waiting {
-            self.is_waiting = false;
-            self.num_waiting.fetch_sub(1, Ordering::SeqCst);
-        }
-    }
-
-    fn set_quitting(&mut self, desired: bool) {
-        if desired && !self.is_quitting {
-            self.is_quitting = true;
-            self.num_quitting.fetch_add(1, Ordering::SeqCst);
-        } else if !desired && self.is_quitting {
-            self.is_quitting = false;
-            self.num_quitting.fetch_sub(1, Ordering::SeqCst);
-        }
-    }
 }
 
 pub struct WorkerPool {
@@ -247,23 +196,19 @@ impl WorkerPool {
     }
 
     pub fn work(&self) -> impl ExitInformation {
-        let num_waiting = AtomicUsize::new(0);
-        let num_quitting = AtomicUsize::new(0);
+        let num_outstanding = AtomicUsize::new(1);
 
         let mut aggregate = thread::scope(|s| {
             let (tx, rx) = channel::unbounded();
-            let initial_work = Message::Work(Work::DirEntry(self.root_dir_path.clone()));
+            let initial_work = Work::DirEntry(self.root_dir_path.clone());
             tx.send(initial_work).unwrap();
 
             let handles = (0..self.thread_count)
                 .map(|_| {
                     let worker = Worker {
                         pool: self,
-                        num_quitting: &num_quitting,
-                        num_waiting: &num_waiting,
                         aggregate: WorkAggregateResult::new(),
-                        is_quitting: false,
-                        is_waiting: false,
+                        num_outstanding: &num_outstanding,
                         tx: tx.clone(),
                         rx: rx.clone(),
                     };
-- 
2.43.0


From 35595b0f7de0bbf37bf1a2c89fef4e6de84c1c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 02/32] fix: do not panic on an import without a closing quote

The opening quote was taken for the closing one, making an inverted range.
---
 src/graphql.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index a07afad..69a244b 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -104,10 +104,11 @@ fn get_file_path_of_fragment(
     import_comment: &str,
     current_dir: &Path,
 ) -> PathBuf {
-    let last_quote = import_comment
+    let quoted_import_path = &import_comment[IMPORT_START.len()..];
+    let last_quote = quoted_import_path
         .rfind('"')
-        .unwrap_or(import_comment.len() - 1);
-    let import_path = &import_comment[IMPORT_START.len()..last_quote];
+        .unwrap_or(quoted_import_path.len());
+    let import_path = &quoted_import_path[..last_quote];
 
     config
         .root_dir_import_prefix
-- 
2.43.0


From f5814a716e8e4d6a640fac6f175cbc48d68a5d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 03/32] fix: read every imported document once

Import cycles recursed until the stack overflowed, and documents reachable
along many import paths were read once for each path.
---
 src/graphql.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 69a244b..e1ef5fa 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -148,6 +148,11 @@ fn add_imported_fragments(
         let location =
             LocationInformation::new_from_line_and_column(line_index + 1, line, IMPORT_START.len());
         let file_path = get_file_path_of_fragment(config, line, &current_dir);
+        // The same file may be imported many times, or import itself, under different spellings.
+        let import_key = std::fs::canonicalize(&file_path).unwrap_or_else(|_| file_path.clone());
+        if import_contents.contains_key(&import_key) {
+            continue;
+        }
         let other_file_contents = match read_graphql_file(&file_path) {
             Ok(c) => c,
             Err(mut sub_message) => {
@@ -156,6 +161,7 @@ fn add_imported_fragments(
                 continue;
             }
         };
+        import_contents.insert(import_key, (other_file_contents.clone(), location));
         add_imported_fragments(
             config,
             &file_path,
@@ -163,7 +169,6 @@ fn add_imported_fragments(
             import_contents,
             messages,
         );
-        import_contents.insert(file_path, (other_file_contents, location));
     }
 }
 
-- 
2.43.0


From 99972e415cff0917141e6cd11c573408ad684e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:25 +0000
Subject: [PATCH 04/32] fix: report a non-fragment import where it is

The error named the compiled document instead of the imported one, and for an
import inside an imported document it gave the line of that document with the
path of the compiled one.
---
 src/graphql.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index e1ef5fa..71507f7 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -124,11 +124,19 @@ fn get_file_path_of_fragment(
         })
 }
 
+struct ImportedDocument {
+    path: PathBuf,
+    contents: String,
+    /// Document containing the import, which is not necessarily the one being compiled
+    importer_path: PathBuf,
+    location: LocationInformation,
+}
+
 fn add_imported_fragments(
     config: &CompileConfig,
     current_file: &Path,
     current_file_contents: &str,
-    import_contents: &mut HashMap<PathBuf, (String, LocationInformation)>,
+    import_contents: &mut HashMap<PathBuf, ImportedDocument>,
     messages: &mut Vec<PrintableMessage>,
 ) {
     let mut current_dir = current_file.to_owned();
@@ -161,7 +169,15 @@ fn add_imported_fragments(
                 continue;
             }
         };
-        import_contents.insert(import_key, (other_file_contents.clone(), location));
+        import_contents.insert(
+            import_key,
+            ImportedDocument {
+                path: file_path.clone(),
+                contents: other_file_contents.clone(),
+                importer_path: current_file.to_owned(),
+                location,
+            },
+        );
         add_imported_fragments(
             config,
             &file_path,
@@ -173,13 +189,12 @@ fn add_imported_fragments(
 }
 
 fn parse_foreign_fragments<'a>(
-    path: &Path,
-    imported_contents: &'a HashMap<PathBuf, (String, LocationInformation)>,
+    imported_contents: &'a HashMap<PathBuf, ImportedDocument>,
     messages: &mut Vec<PrintableMessage>,
 ) -> HashMap<String, FragmentDefinition<'a, ParsedTextType>> {
     let mut parsed_imported_fragments = HashMap::new();
-    for (other_path, (contents, location)) in imported_contents.iter() {
-        if let Ok(mut parsed) = parse_graphql_file(contents, other_path) {
+    for imported in imported_contents.values() {
+        if let Ok(mut parsed) = parse_graphql_file(&imported.contents, &imported.path) {
             // We already know there is exactly one definition since read_graphql_file
             // throws away documents that contain more or less than one defintion.
             for def in parsed.definitions.drain(0..1) {
@@ -191,11 +206,11 @@ fn parse_foreign_fragments<'a>(
                     _ => {
                         let mut message = PrintableMessage::new_simple_compile_error(&format!(
                             "cannot import non-fragment GraphQL document `{}`",
-                            path.display()
+                            imported.path.display()
                         ));
-                        let mut location = location.clone();
+                        let mut location = imported.location.clone();
                         location.with_help_text("This document is not a fragment, and importing it is probably a mistake.");
-                        message.with_source_information(path, Some(location));
+                        message.with_source_information(&imported.importer_path, Some(location));
                         messages.push(message);
                     }
                 }
@@ -222,8 +237,7 @@ pub fn compile_file(
         &mut imported_contents,
         &mut messages,
     );
-    let parsed_imported_fragments =
-        parse_foreign_fragments(path, &imported_contents, &mut messages);
+    let parsed_imported_fragments = parse_foreign_fragments(&imported_contents, &mut messages);
 
     let (op_ir, warnings) = match ir::Operation::compile(
         &parsed.definitions[0],
-- 
2.43.0


From cabab96834a4d2d1a498dd78463259a1773b63e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 05/32] fix: do not let hash order choose messages, fragments
 or field types

Suggestions, possible types of over narrowed fragments, the one of several
imported fragments with the same name, and the fields with the same alias
came in the order of a randomly seeded hash map.
---
 src/cli.rs        |  4 +++-
 src/graphql.rs    |  8 ++++----
 src/graphql/ir.rs | 21 ++++++++++++---------
 src/typescript.rs | 10 ++++++++--
 4 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index bb46df6..c16d2ed 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -503,11 +503,13 @@ pub fn similar_help_suggestions(
     possible_names: impl Iterator<Item = String>,
 ) -> Option<String> {
     let comparison_name = comparison_name.as_ref();
-    let similar_names: Vec<_> = possible_names
+    let mut similar_names: Vec<_> = possible_names
         .filter(|possible_field_name| {
             generic_damerau_levenshtein(comparison_name, possible_field_name.as_ref()) < 3
         })
         .collect();
+    // For message stability
+    similar_names.sort_unstable();
     if similar_names.is_empty() {
         None
     } else {
diff --git a/src/graphql.rs b/src/graphql.rs
index 71507f7..7790248 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -2,7 +2,7 @@ use super::cli::{LocationInformation, PrintableMessage, RuntimeConfig};
 use crate::typescript;
 use graphql_parser::query::{Definition, Document, FragmentDefinition, OperationDefinition};
 use schema::Schema;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::fs::File;
 use std::io::{BufReader, Read};
 use std::path::{Path, PathBuf};
@@ -136,7 +136,7 @@ fn add_imported_fragments(
     config: &CompileConfig,
     current_file: &Path,
     current_file_contents: &str,
-    import_contents: &mut HashMap<PathBuf, ImportedDocument>,
+    import_contents: &mut BTreeMap<PathBuf, ImportedDocument>,
     messages: &mut Vec<PrintableMessage>,
 ) {
     let mut current_dir = current_file.to_owned();
@@ -189,7 +189,7 @@ fn add_imported_fragments(
 }
 
 fn parse_foreign_fragments<'a>(
-    imported_contents: &'a HashMap<PathBuf, ImportedDocument>,
+    imported_contents: &'a BTreeMap<PathBuf, ImportedDocument>,
     messages: &mut Vec<PrintableMessage>,
 ) -> HashMap<String, FragmentDefinition<'a, ParsedTextType>> {
     let mut parsed_imported_fragments = HashMap::new();
@@ -229,7 +229,7 @@ pub fn compile_file(
     let parsed = parse_graphql_file(&contents, path).map_err(|e| vec![e])?;
 
     let mut messages = Vec::new();
-    let mut imported_contents = HashMap::new();
+    let mut imported_contents = BTreeMap::new();
     add_imported_fragments(
         config,
         path,
diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index c726853..9a0155b 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -5,8 +5,8 @@ use crate::graphql::schema::field as schema_field;
 use crate::graphql::variable;
 use graphql_parser::query as parsed_query;
 use graphql_parser::Pos;
-use std::collections::hash_map::Entry;
-use std::collections::HashMap;
+use std::collections::btree_map::Entry;
+use std::collections::{BTreeMap, HashMap};
 use std::convert::{TryFrom, TryInto};
 use std::path::Path;
 
@@ -228,13 +228,13 @@ type FieldId<'a> = (&'a str, &'a str);
 
 #[derive(Debug, Clone)]
 struct UniqueFields<'a> {
-    collection: HashMap<FieldId<'a>, (&'a schema_field::Field, FieldTraversal<'a>)>,
+    collection: BTreeMap<FieldId<'a>, (&'a schema_field::Field, FieldTraversal<'a>)>,
 }
 
 impl<'a> UniqueFields<'a> {
     fn new() -> Self {
         UniqueFields {
-            collection: HashMap::new(),
+            collection: BTreeMap::new(),
         }
     }
 
@@ -319,13 +319,16 @@ impl<'a, 'b> ComplexTraversal<'a> {
             base.concrete_objects
                 .retain(|type_name, _| self.concrete_objects.contains_key(type_name));
             if !jump_state.is_fully_jumped() && base.concrete_objects.is_empty() {
+                let mut possible_types: Vec<String> = self
+                    .concrete_objects
+                    .keys()
+                    .map(|key| key.to_string())
+                    .collect();
+                // For message stability
+                possible_types.sort_unstable();
                 context.push_warning(Warning::OverFragmentNarrowing {
                     position,
-                    possible_types: self
-                        .concrete_objects
-                        .keys()
-                        .map(|key| key.to_string())
-                        .collect(),
+                    possible_types,
                     spread_type_name: spread_type_name.to_string(),
                 });
             }
diff --git a/src/typescript.rs b/src/typescript.rs
index 8ac2104..c807746 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -151,7 +151,10 @@ fn add_sub_input_objects<'a>(
     current_type: &'a schema::Type,
 ) -> Result<()> {
     if let schema::TypeDefinition::InputObject(input_object_type) = &current_type.definition {
-        for field in input_object_type.fields.values() {
+        let mut fields = input_object_type.fields.values().collect::<Vec<_>>();
+        // For message stability
+        fields.sort_unstable_by(|a, b| a.name.cmp(&b.name));
+        for field in fields {
             add_sub_input_object_field(name_to_type, schema, &field.type_description, &field.name)?;
         }
     }
@@ -198,7 +201,10 @@ fn global_types_from_names(
 ) -> Result<Vec<String>> {
     // We want to add names that are referenced by input objects, recursively.
     let mut name_to_type = HashMap::with_capacity(global_names.len());
-    for name in global_names {
+    // For message stability
+    let mut sorted_global_names = global_names.iter().collect::<Vec<_>>();
+    sorted_global_names.sort_unstable();
+    for name in sorted_global_names {
         let global_type = schema
             .get_type_for_name(name)
             .ok_or_else(|| Error::MissingType(name.to_string()))?;
-- 
2.43.0


From d30f0005c1be903311f7b7476eafbae767e8880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 06/32] fix: report fragments that spread themselves

Spreading them recursed until the stack overflowed.
---
 src/graphql/ir.rs | 65 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 64 insertions(+), 1 deletion(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index 9a0155b..cc66c13 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -6,7 +6,7 @@ use crate::graphql::variable;
 use graphql_parser::query as parsed_query;
 use graphql_parser::Pos;
 use std::collections::btree_map::Entry;
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::convert::{TryFrom, TryInto};
 use std::path::Path;
 
@@ -89,6 +89,7 @@ impl ForeignFragmentJumpState {
 pub enum Error {
     SelectionSetAsOperationUnsupported(Pos),
     UnknownFragment(String, Pos, Vec<String>),
+    FragmentCycle(String, Pos),
     MissingTypeConditionOnInlineFragment(Pos),
     SelectionSetOnWrongType(String, Pos),
     MissingSelectionSetOnType(String, Pos),
@@ -134,6 +135,13 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                     Some(&format!("This fragment name doesn't appear to be in scope.{extra}")),
                 )
             }
+            Error::FragmentCycle(name, position) => PrintableMessage::new_compile_error(
+                &format!("endless spread of fragment `{name}`"),
+                file_path,
+                contents,
+                &position,
+                Some("Fragments cannot spread themselves, neither directly nor through other fragments."),
+            ),
             Error::MissingTypeConditionOnInlineFragment(position) => PrintableMessage::new_compile_error(
                 "fragment missing type condition on inline fragment",
                 file_path,
@@ -710,6 +718,47 @@ fn insert_field<'a, 'b>(
     Ok(())
 }
 
+/// Whether spreading an imported fragment would never end
+fn has_fragment_cycle<'a>(
+    imported_fragments: &'a ImportedFragments<'_>,
+    fragment_name: &'a str,
+    spreading: &mut Vec<&'a str>,
+    without_cycle: &mut HashSet<&'a str>,
+) -> bool {
+    if spreading.contains(&fragment_name) {
+        return true;
+    }
+    let fragment_def = match imported_fragments.get(fragment_name) {
+        Some(fragment_def) if !without_cycle.contains(fragment_name) => fragment_def,
+        _ => return false,
+    };
+    spreading.push(fragment_name);
+    let mut selection_sets = vec![&fragment_def.selection_set];
+    while let Some(selection_set) = selection_sets.pop() {
+        for selection in &selection_set.items {
+            match selection {
+                parsed_query::Selection::Field(field) => selection_sets.push(&field.selection_set),
+                parsed_query::Selection::InlineFragment(inline_fragment) => {
+                    selection_sets.push(&inline_fragment.selection_set)
+                }
+                parsed_query::Selection::FragmentSpread(spread) => {
+                    if has_fragment_cycle(
+                        imported_fragments,
+                        &spread.fragment_name,
+                        spreading,
+                        without_cycle,
+                    ) {
+                        return true;
+                    }
+                }
+            }
+        }
+    }
+    spreading.pop();
+    without_cycle.insert(fragment_name);
+    false
+}
+
 fn collect_fields_from_selection_set<'a, 'b>(
     context: &'a CompileContext<'a, 'b>,
     selection_set: &'a parsed_query::SelectionSet<'b, ParsedTextType>,
@@ -745,6 +794,20 @@ fn collect_fields_from_selection_set<'a, 'b>(
                 }
             }
             parsed_query::Selection::FragmentSpread(spread) => {
+                if jump_state.is_local()
+                    && has_fragment_cycle(
+                        &context.imported_fragments,
+                        &spread.fragment_name,
+                        &mut Vec::new(),
+                        &mut HashSet::new(),
+                    )
+                {
+                    errors.push(Error::FragmentCycle(
+                        spread.fragment_name.clone(),
+                        spread.position,
+                    ));
+                    continue;
+                }
                 match context.imported_fragments.get(&spread.fragment_name) {
                     Some(fragment_def) => {
                         let parsed_query::TypeCondition::On(ref type_name) =
-- 
2.43.0


From 9911feb1cf16177f4299c4076bc0513a1b474bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 07/32] fix: do not follow recursive input objects for ever

Collecting the input objects that are reachable from a variable recursed until
the stack overflowed when one refers to itself, directly or through others.
---
 src/typescript.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index c807746..e81c05f 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -174,8 +174,10 @@ fn add_sub_input_object_field<'a>(
             let global_type = schema
                 .get_type_for_name(type_name)
                 .ok_or_else(|| Error::MissingType(type_name.to_string()))?;
-            name_to_type.insert(type_name, global_type);
-            add_sub_input_objects(name_to_type, schema, global_type)?;
+            // Input objects may refer to themselves, so only follow a type once.
+            if name_to_type.insert(type_name, global_type).is_none() {
+                add_sub_input_objects(name_to_type, schema, global_type)?;
+            }
         }
         schema_field::FieldTypeDefinition::Enum => {
             let global_type = schema
@@ -208,8 +210,9 @@ fn global_types_from_names(
         let global_type = schema
             .get_type_for_name(name)
             .ok_or_else(|| Error::MissingType(name.to_string()))?;
-        add_sub_input_objects(&mut name_to_type, schema, global_type)?;
-        name_to_type.insert(name, global_type);
+        if name_to_type.insert(name.as_str(), global_type).is_none() {
+            add_sub_input_objects(&mut name_to_type, schema, global_type)?;
+        }
     }
     // For test and file signature stability
     let mut sorted_names = name_to_type.iter().collect::<Vec<_>>();
-- 
2.43.0


From ce437e928e69ae2d258f00684f9a048b0e373f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:31 +0000
Subject: [PATCH 08/32] fix: compile with at least one thread

With zero threads nothing was compiled, and nothing was reported.
---
 src/worker_pool.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/worker_pool.rs b/src/worker_pool.rs
index aba061b..9587496 100644
--- a/src/worker_pool.rs
+++ b/src/worker_pool.rs
@@ -191,7 +191,8 @@ impl WorkerPool {
             compile_config: CompileConfig::from(&runtime_config),
             root_dir_path: runtime_config.root_dir_path(),
             schema,
-            thread_count: runtime_config.thread_count(),
+            // Without any thread nothing would be compiled
+            thread_count: std::cmp::max(runtime_config.thread_count(), 1),
         }
     }
 
-- 
2.43.0


From 6780bf7c4b2f1631c67d85f441a13b4ebedd2f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:31 +0000
Subject: [PATCH 09/32] fix: name the globals file when it cannot be written

The error named the root directory.
---
 src/graphql.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 7790248..d71948b 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -310,8 +310,8 @@ pub fn compile_global_types_file(
     } else {
         output_path.with_extension("ts")
     };
-    std::fs::write(output_path_with_ext, the_compile.contents).map_err(|io_error| {
-        PrintableMessage::new_compile_error_from_write_io_error(&io_error, root_path)
+    std::fs::write(&output_path_with_ext, the_compile.contents).map_err(|io_error| {
+        PrintableMessage::new_compile_error_from_write_io_error(&io_error, &output_path_with_ext)
     })?;
     Ok(())
 }
-- 
2.43.0


From 3cbf258a49975c81deb46ea0d72710bdf89681ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 10/32] fix: choose the plural of warnings by the number of
 warnings

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index c16d2ed..810f7a6 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -546,7 +546,7 @@ pub fn print_exit_info(exit_info: impl ExitInformation) -> ! {
         );
     }
     if warning_count > 0 {
-        let plural = if error_count > 1 { "s" } else { "" };
+        let plural = if warning_count > 1 { "s" } else { "" };
         println!(
             "{}",
             PrintableMessage::new_simple_compile_warning(&format!(
-- 
2.43.0


From 2910725a4896c07efe7d01dd5b3ec8390c43a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 11/32] fix: name the document that has no definition

---
 src/graphql.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index d71948b..6d4747e 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -76,8 +76,9 @@ fn parse_graphql_file<'a>(
     })?;
     let num_defintions = parsed.definitions.len();
     if num_defintions == 0 {
-        let message =
+        let mut message =
             PrintableMessage::new_simple_compile_error("missing defintion in the document");
+        message.with_source_information(file_path, None);
         return Err(message);
     } else if num_defintions > 1 {
         let mut message =
-- 
2.43.0


From 2fab23596abf8fb8cb6da340ef5ac28711bcf73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 12/32] fix: keep every dimension of a nullable list of
 non-nullable lists

The inner list of `[[T]!]` was forgotten.
---
 src/graphql/schema/field.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 6bd21e4..59c427b 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -119,9 +119,10 @@ impl ModifierBuilder {
                     .push(FieldTypeModifier::NullableListOfNullable);
                 FieldTypeModifier::NullableListOfNullable
             }
-            old_concrete => {
-                self.higher_order_modifiers.push(old_concrete.clone());
-                FieldTypeModifier::new()
+            FieldTypeModifier::NullableList => {
+                self.higher_order_modifiers
+                    .push(FieldTypeModifier::NullableList);
+                FieldTypeModifier::ListOfNullable
             }
         };
     }
-- 
2.43.0


From b8150d909d205806280dbf4bea27f4325c4a3170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 13/32] fix: keep every dimension of nested lists in input
 object fields

Only the innermost list of a field was declared, and only its modifier decided
whether the field is optional.
---
 src/typescript.rs | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index e81c05f..6ffdbf4 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -102,24 +102,23 @@ fn input_def_from_type(
     for (name, field) in sorted.into_iter() {
         let doc = compile_documentation(&field.documentation, field.deprecated, 2);
         let field_type = from_input_def_field_def(config, name, field)?;
-        let ts_field = match field.type_description.type_modifiers().last() {
-            schema_field::FieldTypeModifier::None => format!("  {doc}{name}: {field_type};"),
-            schema_field::FieldTypeModifier::Nullable => {
-                format!("  {doc}{name}?: {field_type} | null;")
-            }
-            schema_field::FieldTypeModifier::NullableList => {
-                format!("  {doc}{name}?: {field_type}[] | null;")
-            }
-            schema_field::FieldTypeModifier::List => {
-                format!("  {doc}{name}: {field_type}[];")
-            }
-            schema_field::FieldTypeModifier::ListOfNullable => {
-                format!("  {doc}{name}: ({field_type} | null)[];")
-            }
-            schema_field::FieldTypeModifier::NullableListOfNullable => {
-                format!("  {doc}{name}?: ({field_type} | null)[] | null;")
-            }
+        let type_modifiers = field.type_description.type_modifiers();
+        let outermost_modifier = type_modifiers
+            .rest_modifiers_iter()
+            .last()
+            .unwrap_or_else(|| type_modifiers.last());
+        let optional_marker = match outermost_modifier {
+            schema_field::FieldTypeModifier::Nullable
+            | schema_field::FieldTypeModifier::NullableList
+            | schema_field::FieldTypeModifier::NullableListOfNullable => "?",
+            _ => EMPTY,
         };
+        let type_def = prop_type_def(
+            type_modifiers.rest_modifiers_iter(),
+            type_modifiers.last(),
+            field_type,
+        );
+        let ts_field = format!("  {doc}{name}{optional_marker}: {type_def};");
         fields.push(ts_field);
     }
     Ok(format!(
-- 
2.43.0


From e396b9cb7f514c3f4d46d99970893039a9b2e870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 14/32] fix: only merge possible types whose properties have
 the same types

Possible types were declared together when their properties had the same names,
with the types and sub selections of one of them.
---
 src/graphql/ir.rs           |  8 ++++----
 src/graphql/schema/field.rs |  6 +++---
 src/typescript.rs           | 14 ++++++++++----
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index cc66c13..22e12b1 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -468,7 +468,7 @@ impl<'a> FieldTraversal<'a> {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub struct Field {
     pub prop_name: String,
     pub documentation: schema::Documentation,
@@ -477,7 +477,7 @@ pub struct Field {
     pub type_ir: FieldType,
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub enum FieldType {
     TypeName,
     Complex(ComplexCollection),
@@ -485,13 +485,13 @@ pub enum FieldType {
     Scalar(schema_field::ScalarType),
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub struct Complex {
     pub name: String,
     pub fields: Vec<Field>,
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub struct ComplexCollection {
     pub possibilities: Vec<Complex>,
 }
diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 59c427b..954a7b1 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -1,7 +1,7 @@
 use super::{json, Documentation, Error};
 use std::convert::{TryFrom, TryInto};
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub enum ScalarType {
     Custom(String),
     Boolean,
@@ -44,7 +44,7 @@ impl FieldTypeDefinition {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub enum FieldTypeModifier {
     /// No modifier or "flat"
     None,
@@ -128,7 +128,7 @@ impl ModifierBuilder {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub struct FieldTypeModifiers {
     last: FieldTypeModifier,
     rest: Vec<FieldTypeModifier>,
diff --git a/src/typescript.rs b/src/typescript.rs
index 6ffdbf4..5a2a4f9 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -359,18 +359,24 @@ fn type_definitions_from_complex_field_collection(
     // of common/completely repeated properties, since this is so common for interface types.
     let mut common_props = field_ids_for_complex_ir(first_possiblity);
     let mut all_fields = Vec::with_capacity(collection.possibilities.len());
-    all_fields.push((&first_possiblity.name[..], common_props.clone()));
+    all_fields.push((first_possiblity, common_props.clone()));
     for possibility in &collection.possibilities[1..] {
         let pos_props = field_ids_for_complex_ir(possibility);
         common_props.retain(|prop_name| pos_props.contains(prop_name));
-        all_fields.push((&possibility.name[..], pos_props));
+        all_fields.push((possibility, pos_props));
     }
 
-    // These will represent all the types can can be smooshed down
+    // These will represent all the types can can be smooshed down, the names of properties are not
+    // enough for that: they can have different types or sub selections for each possibility.
+    let mut repeated_fields: Option<&[ir::Field]> = None;
     let repeated_possiblities: HashSet<&str> = all_fields
         .into_iter()
         .filter(|(_, fields)| common_props == *fields)
-        .map(|(name, _)| name)
+        .map(|(possibility, _)| possibility)
+        .filter(|possibility| {
+            *repeated_fields.get_or_insert(&possibility.fields) == possibility.fields
+        })
+        .map(|possibility| &possibility.name[..])
         .collect();
 
     let num_repeats = repeated_possiblities.len();
-- 
2.43.0


From a3acd8d60f41035f3b607a02e7c020ab3d77f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 15/32] fix: tell where an unknown type is used

The error named neither the document nor the position.
---
 src/graphql/ir.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index 22e12b1..851934d 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -100,7 +100,7 @@ pub enum Error {
         possible_field_names: Vec<String>,
     },
     Variable(variable::Error),
-    MissingType(String),
+    MissingType(String, Pos),
     UnexpectedComplexTravseral(String),
     InputObjectOnSelection {
         field_name: String,
@@ -183,8 +183,12 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
             Error::Variable(var_error) => {
                 PrintableMessage::from((contents, file_path, var_error))
             }
-            Error::MissingType(type_name) => PrintableMessage::new_simple_program_error(
+            Error::MissingType(type_name, position) => PrintableMessage::new_program_error(
                 &format!("failed lookup of type `{type_name}`"),
+                file_path,
+                contents,
+                &position,
+                None,
             ),
             Error::InputObjectOnSelection { type_name, field_name } => {
                 PrintableMessage::new_simple_program_error(
@@ -413,7 +417,7 @@ impl<'a, 'b> TryFrom<(&'a CompileContext<'a, 'b>, &'a str, Pos)> for ComplexTrav
         let schema_type = context
             .schema
             .get_type_for_name(type_name)
-            .ok_or_else(|| Error::MissingType(type_name.to_string()))?;
+            .ok_or_else(|| Error::MissingType(type_name.to_string(), position))?;
         let fields_lookup = schema_type
             .definition
             .get_fields_lookup()
-- 
2.43.0


From 3a3c9c66374d5e6674310bdb5bd11a604173f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 16/32] fix: reject variables of output types in their document

Such a type was declared as used, so that the globals file could not be written
for any document, with an error that told neither the document nor the variable.
---
 src/graphql/variable.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/graphql/variable.rs b/src/graphql/variable.rs
index 94d75e0..f8dea54 100644
--- a/src/graphql/variable.rs
+++ b/src/graphql/variable.rs
@@ -1,7 +1,7 @@
 use super::ParsedTextType;
 use crate::cli::PrintableMessage;
 use crate::graphql::ir::CompileContext;
-use crate::graphql::schema::field as schema_field;
+use crate::graphql::schema::{self, field as schema_field};
 use graphql_parser::query as parsed_query;
 use graphql_parser::Pos;
 use std::convert::TryFrom;
@@ -10,6 +10,7 @@ use std::path::Path;
 #[derive(Debug)]
 pub enum Error {
     UnknownCustomeVariableType(String, Pos),
+    NonInputVariableType(String, Pos),
     UnprocessableVariableType(String, Pos),
     ListOfListNotSupported(String, Pos),
 }
@@ -42,7 +43,19 @@ impl<'a, 'b, 'c> TryFrom<(&'a CompileContext<'a, 'b>, &'c str, Pos)> for Variabl
                         from.2,
                     ))
                 }
-                Some(_) => VariableType::Custom(custom_type_name),
+                Some(schema::Type {
+                    definition:
+                        schema::TypeDefinition::Enum(_)
+                        | schema::TypeDefinition::InputObject(_)
+                        | schema::TypeDefinition::Scalar(_),
+                    ..
+                }) => VariableType::Custom(custom_type_name),
+                Some(_) => {
+                    return Err(Error::NonInputVariableType(
+                        custom_type_name.to_string(),
+                        from.2,
+                    ))
+                }
             },
         };
         Ok(var)
@@ -61,6 +74,15 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                     None,
                 )
             }
+            Error::NonInputVariableType(name, position) => {
+                PrintableMessage::new_compile_error(
+                    &format!("unexpected non-input type for variable `{name}`"),
+                    file_path,
+                    contents,
+                    &position,
+                    Some("Variables must be enums, scalars, or input objects."),
+                )
+            }
             Error::UnprocessableVariableType(name, position) => {
                 PrintableMessage::new_program_error(
                     &format!("failed to process variable `{name}`"),
-- 
2.43.0


From 2d0a0da90bdd57d863285285d792627c5db85f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 17/32] fix: keep the messages about a document whose output
 cannot be written

---
 src/graphql.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 6d4747e..7b70331 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -275,12 +275,13 @@ pub fn compile_file(
     };
 
     let output_path = path.with_extension("graphql.d.ts");
-    std::fs::write(&output_path, the_compile.contents).map_err(|io_error| {
-        vec![PrintableMessage::new_compile_error_from_write_io_error(
+    if let Err(io_error) = std::fs::write(&output_path, the_compile.contents) {
+        messages.push(PrintableMessage::new_compile_error_from_write_io_error(
             &io_error,
             &output_path,
-        )]
-    })?;
+        ));
+        return Err(messages);
+    }
 
     Ok(CompileReport {
         messages,
-- 
2.43.0


From 6deda823fbdf0e0395bc8ce8611a8fd2671ddc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 18/32] fix: use the configured scalar prefix with
 --use-custom-scalars

The customScalarPrefix of the configuration file was ignored when custom scalars
were enabled on the command line only.
---
 src/cli.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 810f7a6..046baf0 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -434,11 +434,9 @@ impl RuntimeConfig {
                 || config_file_args.use_custom_scalars.unwrap_or(false),
             disable_readonly_types: cli_args.disable_readonly_types
                 || config_file_args.disable_readonly_types.unwrap_or(false),
-            custom_scalar_prefix: cli_args.custom_scalar_prefix.or_else(|| {
-                config_file_args
-                    .use_custom_scalars
-                    .and(config_file_args.custom_scalar_prefix)
-            }),
+            custom_scalar_prefix: cli_args
+                .custom_scalar_prefix
+                .or(config_file_args.custom_scalar_prefix),
             number_threads: cli_args
                 .num_threads
                 .or(config_file_args.num_threads)
-- 
2.43.0


From 47e229107285d3c4cf9a484bdb25ba7b34c59126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 19/32] fix: remove every end of a comment from documentation

Removing the inner one of `**//` left another, which ended the comment early.
---
 src/typescript.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index 5a2a4f9..106290a 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -252,9 +252,14 @@ fn compile_documentation(
     let tab = " ".repeat(tab_width);
 
     let processed_documentation = documentation.as_deref().map(|docs| {
-        docs.replace('\n', &format!("\n {tab}* "))
-            .replace("/*", EMPTY)
-            .replace("*/", EMPTY)
+        let mut docs = docs
+            .replace('\n', &format!("\n {tab}* "))
+            .replace("/*", EMPTY);
+        // Removing the end of a comment may bring another one together
+        while docs.contains("*/") {
+            docs = docs.replace("*/", EMPTY);
+        }
+        docs
     });
 
     let wrap = |content: &str| format!("/**\n {tab}* {content}\n {tab}*/\n{tab}");
-- 
2.43.0


From a560e46763e1dc8c59a954f7e10fa69cc2c5b7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 20/32] fix: tell the right line in documents with CRLF line
 endings

The parser counts every line ending after a comment, and so after an import,
twice in such documents, which moved messages down by that many lines.
---
 src/graphql.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 7b70331..c00a00c 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -59,7 +59,8 @@ fn read_graphql_file(path: &Path) -> Result<String, PrintableMessage> {
             let mut buf_reader = BufReader::new(file);
             let mut contents = String::new();
             buf_reader.read_to_string(&mut contents)?;
-            Ok(contents)
+            // The parser counts the end of a comment as two lines with other line endings
+            Ok(contents.replace("\r\n", "\n"))
         })
         .map_err(|io_error| PrintableMessage::new_compile_error_from_read_io_error(&io_error, path))
 }
-- 
2.43.0


From c314326b5d06f01ef3760202900ae020dc856edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 21/32] fix: fail schema downloads that are cut off or cannot
 be written

---
 pkg/npm/lib/download.js | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index c812f4d..4556d27 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -89,11 +89,26 @@ function download() {
   }
   const outFilePath = outFilePathRaw || "schema.json";
   return new Promise((resolve, reject) => {
-    const outFile = createWriteStream(outFilePath);
-    const cleanup = (err) => {
+    let outFile = null;
+    let failure = null;
+    const fail = (err) => {
+      failure = failure || err;
+      if (outFile) {
+        outFile.destroy();
+      } else {
+        reject(failure);
+      }
+    };
+    // Only once the file is closed it is complete, or can be removed for good
+    const finish = () => {
+      if (!failure) {
+        return resolve();
+      }
       return unlink(outFilePath, (deleteErr) => {
-        console.error(deleteErr);
-        reject(err);
+        if (deleteErr && deleteErr.code !== "ENOENT") {
+          console.error(deleteErr);
+        }
+        reject(failure);
       });
     };
     const parsedUrl = new URL(endpoint);
@@ -105,12 +120,12 @@ function download() {
     requestModule
       .request(parsedUrl, opts, (response) => {
         if (response.statusCode !== 200) {
-          return cleanup(new Error(`Download failed with ${response.statusCode}`));
+          return fail(new Error(`Download failed with ${response.statusCode}`));
         }
-        response.pipe(outFile);
-        outFile.on("finish", resolve);
+        outFile = createWriteStream(outFilePath).on("error", fail).on("close", finish);
+        response.on("error", fail).pipe(outFile);
       })
-      .on("error", cleanup)
+      .on("error", fail)
       .end(JSON.stringify({ query: introspectionQuery }));
   });
 }
-- 
2.43.0


From ecf9cc7d7f43f30b56d7b8658a5f95090de33f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:46 +0000
Subject: [PATCH 22/32] fix: fail the installation when the download is cut off

---
 pkg/npm/lib/postinstall.js | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index 7ee3192..83bc839 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -39,6 +39,16 @@ function download(fullUrl, dest) {
         .finally(() => {
           reject(err);
         });
+    let file = null;
+    let failure = null;
+    const fail = (err) => {
+      failure = failure || err;
+      if (file) {
+        file.destroy();
+      } else {
+        cleanup(failure);
+      }
+    };
     const opts = {
       ...url.parse(fullUrl),
       timeout: 20000,
@@ -47,7 +57,11 @@ function download(fullUrl, dest) {
     httpsGet(opts, (response) => {
       switch (response.statusCode) {
         case 200:
-          return response.pipe(createWriteStream(dest).on("finish", resolve));
+          // Only once the file is closed it is complete, or can be removed for good
+          file = createWriteStream(dest)
+            .on("error", fail)
+            .on("close", () => (failure ? cleanup(failure) : resolve()));
+          return response.on("error", fail).pipe(file);
         case 302:
           return download(response.headers.location, dest)
             .then(resolve)
@@ -58,7 +72,7 @@ function download(fullUrl, dest) {
           );
       }
     })
-      .on("error", cleanup)
+      .on("error", fail)
       .end();
   });
 }
-- 
2.43.0


From 0a9f924936bd296c6389bef4843210b8da060867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:53 +0000
Subject: [PATCH 23/32] fix: report every import of a document that is not a
 fragment

---
 src/graphql.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index c00a00c..eebbff2 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -129,9 +129,9 @@ fn get_file_path_of_fragment(
 struct ImportedDocument {
     path: PathBuf,
     contents: String,
-    /// Document containing the import, which is not necessarily the one being compiled
-    importer_path: PathBuf,
-    location: LocationInformation,
+    /// Every import of this document, and the document containing it, which is not necessarily the
+    /// one being compiled
+    imports: Vec<(PathBuf, LocationInformation)>,
 }
 
 fn add_imported_fragments(
@@ -160,7 +160,8 @@ fn add_imported_fragments(
         let file_path = get_file_path_of_fragment(config, line, &current_dir);
         // The same file may be imported many times, or import itself, under different spellings.
         let import_key = std::fs::canonicalize(&file_path).unwrap_or_else(|_| file_path.clone());
-        if import_contents.contains_key(&import_key) {
+        if let Some(imported) = import_contents.get_mut(&import_key) {
+            imported.imports.push((current_file.to_owned(), location));
             continue;
         }
         let other_file_contents = match read_graphql_file(&file_path) {
@@ -176,8 +177,7 @@ fn add_imported_fragments(
             ImportedDocument {
                 path: file_path.clone(),
                 contents: other_file_contents.clone(),
-                importer_path: current_file.to_owned(),
-                location,
+                imports: vec![(current_file.to_owned(), location)],
             },
         );
         add_imported_fragments(
@@ -206,14 +206,16 @@ fn parse_foreign_fragments<'a>(
                         parsed_imported_fragments.insert(fragment_name, f_def);
                     }
                     _ => {
-                        let mut message = PrintableMessage::new_simple_compile_error(&format!(
-                            "cannot import non-fragment GraphQL document `{}`",
-                            imported.path.display()
-                        ));
-                        let mut location = imported.location.clone();
-                        location.with_help_text("This document is not a fragment, and importing it is probably a mistake.");
-                        message.with_source_information(&imported.importer_path, Some(location));
-                        messages.push(message);
+                        for (importer_path, location) in &imported.imports {
+                            let mut message = PrintableMessage::new_simple_compile_error(&format!(
+                                "cannot import non-fragment GraphQL document `{}`",
+                                imported.path.display()
+                            ));
+                            let mut location = location.clone();
+                            location.with_help_text("This document is not a fragment, and importing it is probably a mistake.");
+                            message.with_source_information(importer_path, Some(location));
+                            messages.push(message);
+                        }
                     }
                 }
             }
-- 
2.43.0


From bb84125c38cd8e7e18fc5992936cc1a776eddee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:46 +0000
Subject: [PATCH 24/32] fix: fail the installation when the download stalls

---
 pkg/npm/lib/postinstall.js | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index 83bc839..d5b85e9 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -54,7 +54,7 @@ function download(fullUrl, dest) {
       timeout: 20000,
       headers: { Accept: "application/octet-stream" },
     };
-    httpsGet(opts, (response) => {
+    const request = httpsGet(opts, (response) => {
       switch (response.statusCode) {
         case 200:
           // Only once the file is closed it is complete, or can be removed for good
@@ -63,6 +63,7 @@ function download(fullUrl, dest) {
             .on("close", () => (failure ? cleanup(failure) : resolve()));
           return response.on("error", fail).pipe(file);
         case 302:
+          response.destroy();
           return download(response.headers.location, dest)
             .then(resolve)
             .catch(reject);
@@ -71,8 +72,10 @@ function download(fullUrl, dest) {
             new Error(`Download failed with ${response.statusCode}`),
           );
       }
-    })
+    });
+    request
       .on("error", fail)
+      .on("timeout", () => request.destroy(new Error("Download timed out")))
       .end();
   });
 }
-- 
2.43.0


From f2ff9e2779ebb37d2c154ddc8f60080ba01ae30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 25/32] fix: fail the installation when the download is
 redirected without end

---
 pkg/npm/lib/postinstall.js | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index d5b85e9..1d59509 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -14,6 +14,7 @@ const {
   checksumConfig: CHECKSUMS,
 } = require("../package.json");
 const BIN_PATH = join(__dirname, "../bin");
+const MAX_REDIRECTS = 10;
 
 function getTarget() {
   const id = `${platform()}-${arch()}`;
@@ -31,7 +32,7 @@ function getTarget() {
   }
 }
 
-function download(fullUrl, dest) {
+function download(fullUrl, dest, redirects = 0) {
   return new Promise((resolve, reject) => {
     const cleanup = (err) =>
       unlink(dest)
@@ -64,7 +65,10 @@ function download(fullUrl, dest) {
           return response.on("error", fail).pipe(file);
         case 302:
           response.destroy();
-          return download(response.headers.location, dest)
+          if (redirects >= MAX_REDIRECTS) {
+            return cleanup(new Error("Download redirected too many times"));
+          }
+          return download(response.headers.location, dest, redirects + 1)
             .then(resolve)
             .catch(reject);
         default:
-- 
2.43.0


From 50b8d4297163d7243866fa144dfa82145d06010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:30 +0000
Subject: [PATCH 26/32] fix: ask for deprecations when downloading the schema

---
 pkg/npm/lib/download.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index 4556d27..2a2c5c4 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -27,6 +27,7 @@ const introspectionQuery = `
       type {
         ...TypeRef
       }
+      isDeprecated
     }
     inputFields {
       ...InputValue
-- 
2.43.0


From 2b569a6af5234ba1ffedef520d71bbf0d99444d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 27/32] fix: collect a fragment once, not once per path of
 spreads to it

---
 src/graphql/ir.rs | 52 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index 851934d..885d91f 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -214,6 +214,8 @@ type ResultMany<T> = std::result::Result<T, Vec<Error>>;
 type OperationResult<'a> =
     std::result::Result<(Operation<'a>, Vec<Warning>), (Vec<Error>, Vec<Warning>)>;
 type ImportedFragments<'a> = HashMap<String, parsed_query::FragmentDefinition<'a, ParsedTextType>>;
+/// What spreading a fragment on some concrete object types collects, unless it has errors
+type CollectedFragments<'a> = HashMap<(&'a str, Vec<&'a str>), Option<ComplexTraversal<'a>>>;
 
 pub struct CompileContext<'a, 'b> {
     pub schema: &'a schema::Schema,
@@ -563,6 +565,7 @@ impl<'a, 'b> Operation<'a> {
                     &frag_def.selection_set,
                     &mut parent,
                     ForeignFragmentJumpState::RootLocal,
+                    &mut CollectedFragments::new(),
                 ) {
                     return Err((errors, context.warnings.into_inner()));
                 }
@@ -621,7 +624,13 @@ fn build_from_operation<'a>(
         }
     };
     let mut parent = ComplexTraversal::try_from((context, op_type_name, position))?;
-    collect_fields_from_selection_set(context, selection_set, &mut parent, jump_state)?;
+    collect_fields_from_selection_set(
+        context,
+        selection_set,
+        &mut parent,
+        jump_state,
+        &mut CollectedFragments::new(),
+    )?;
     Ok(Operation {
         name: op_name
             .as_ref()
@@ -667,6 +676,7 @@ fn insert_field<'a, 'b>(
     selection_field: &'a parsed_query::Field<'b, ParsedTextType>,
     traversal: &mut ComplexTraversal<'a>,
     jump_state: ForeignFragmentJumpState,
+    collected_fragments: &mut CollectedFragments<'a>,
 ) -> ResultMany<()> {
     let name = &selection_field.name;
     let alias = selection_field.alias.as_ref().unwrap_or(name);
@@ -706,6 +716,7 @@ fn insert_field<'a, 'b>(
                 &selection_field.selection_set,
                 &mut sub_parent,
                 jump_state,
+                collected_fragments,
             )?;
             traversal.insert_complex(alias, field_type_name, field, sub_parent)?;
         }
@@ -768,15 +779,20 @@ fn collect_fields_from_selection_set<'a, 'b>(
     selection_set: &'a parsed_query::SelectionSet<'b, ParsedTextType>,
     complex_parent: &mut ComplexTraversal<'a>,
     jump_state: ForeignFragmentJumpState,
+    collected_fragments: &mut CollectedFragments<'a>,
 ) -> ResultMany<()> {
     let mut errors = Vec::new();
     for selection in &selection_set.items {
         let (spread_type_name, spread_position, sub_selection_set, new_jump_state) = match selection
         {
             parsed_query::Selection::Field(selection_field) => {
-                if let Err(sub_messages) =
-                    insert_field(context, selection_field, complex_parent, jump_state)
-                {
+                if let Err(sub_messages) = insert_field(
+                    context,
+                    selection_field,
+                    complex_parent,
+                    jump_state,
+                    collected_fragments,
+                ) {
                     errors.extend(sub_messages);
                 }
                 continue;
@@ -850,12 +866,36 @@ fn collect_fields_from_selection_set<'a, 'b>(
                 continue;
             }
         };
-        match collect_fields_from_selection_set(
+        // Collecting a fragment anew for every path of spreads to it could take forever.
+        let fragment_key = match selection {
+            parsed_query::Selection::FragmentSpread(spread) => {
+                let mut type_names: Vec<&str> =
+                    sub_parent.concrete_objects.keys().copied().collect();
+                type_names.sort_unstable();
+                Some((spread.fragment_name.as_str(), type_names))
+            }
+            _ => None,
+        };
+        if let Some(collected) = fragment_key
+            .as_ref()
+            .and_then(|key| collected_fragments.get(key))
+        {
+            if let Some(sub_parent) = collected.clone() {
+                complex_parent.extend_from(sub_parent)?;
+            }
+            continue;
+        }
+        let sub_result = collect_fields_from_selection_set(
             context,
             sub_selection_set,
             &mut sub_parent,
             new_jump_state,
-        ) {
+            collected_fragments,
+        );
+        if let Some(key) = fragment_key {
+            collected_fragments.insert(key, sub_result.is_ok().then(|| sub_parent.clone()));
+        }
+        match sub_result {
             Ok(_) => {
                 complex_parent.extend_from(sub_parent)?;
             }
-- 
2.43.0


From 23724fb39b59e59167b24e4e6b67736fc8c68726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 28/32] fix: merge selections of a field whose type an object
 narrows

---
 src/graphql/ir.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index 885d91f..752558d 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -237,7 +237,8 @@ impl From<Error> for Vec<Error> {
     }
 }
 
-/// Alias and field name
+/// Alias and type name, which is empty for complex fields: an object may narrow the complex type that
+/// its interface has for a field
 type FieldId<'a> = (&'a str, &'a str);
 
 #[derive(Debug, Clone)]
@@ -371,12 +372,11 @@ impl<'a, 'b> ComplexTraversal<'a> {
     fn insert_complex(
         &mut self,
         alias: &'a str,
-        name: &'a str,
         field: &'a schema_field::Field,
         complex: ComplexTraversal<'a>,
     ) -> Result<()> {
         for uniques in self.concrete_objects.values_mut() {
-            uniques.insert(alias, name, field, FieldTraversal::Complex(complex.clone()))?;
+            uniques.insert(alias, "", field, FieldTraversal::Complex(complex.clone()))?;
         }
         Ok(())
     }
@@ -389,6 +389,13 @@ impl<'a, 'b> ComplexTraversal<'a> {
         }
         Ok(())
     }
+
+    /// Like `extend_from`, for another selection of the same value
+    fn merge_from(&mut self, other: Self) -> Result<()> {
+        self.concrete_objects
+            .retain(|type_name, _| other.concrete_objects.contains_key(type_name));
+        self.extend_from(other)
+    }
 }
 
 impl<'a> TryFrom<ComplexTraversal<'a>> for ComplexCollection {
@@ -457,7 +464,7 @@ impl<'a> FieldTraversal<'a> {
     fn extend_from(&mut self, other: Self) -> Result<()> {
         match self {
             Self::Complex(self_complex) => match other {
-                Self::Complex(other_complex) => self_complex.extend_from(other_complex),
+                Self::Complex(other_complex) => self_complex.merge_from(other_complex),
                 Self::Terminal(other_terminal) => Err(Error::MixedTerminalAndComplexFields {
                     complex_type_name: self_complex.type_name.to_string(),
                     terminal_type_name: other_terminal.type_name.to_string(),
@@ -718,7 +725,7 @@ fn insert_field<'a, 'b>(
                 jump_state,
                 collected_fragments,
             )?;
-            traversal.insert_complex(alias, field_type_name, field, sub_parent)?;
+            traversal.insert_complex(alias, field, sub_parent)?;
         }
     };
 
-- 
2.43.0


From 2cc1bac740f2275dfc19b85dd48c3def6a94ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 29/32] fix: list only the archives in checksums.txt

The pattern was expanded while tee may have created checksums.txt already, so the
list could contain itself, with a checksum that is wrong when it is complete.
---
 .circleci/bin/make-github-release.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/.circleci/bin/make-github-release.sh b/.circleci/bin/make-github-release.sh
index 5e6a395..b743844 100755
--- a/.circleci/bin/make-github-release.sh
+++ b/.circleci/bin/make-github-release.sh
@@ -13,7 +13,7 @@ do
   tar czf "$ARCHIVES_DIR/qlc-$QLC_VERSION-$PLATFORM.tar.gz" qlc
 done
 
-sha256sum "$ARCHIVES_DIR"/* | tee "$ARCHIVES_DIR/checksums.txt"
+sha256sum "$ARCHIVES_DIR"/*.tar.gz | tee "$ARCHIVES_DIR/checksums.txt"
 
 echo "*** Making release out of $ARCHIVES_DIR ***"
 ls -l "$ARCHIVES_DIR"
-- 
2.43.0


From 8c35ef8b1583e742cf849c7817bf2016c74a5d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 30/32] fix: infer data and variables of all kinds of
 documents, not only queries

The typed document nodes differ in an optional property only, so every
document node extends QueryDocumentNode<infer Data, infer Variables>, and
DataOf and VariablesOf of mutations, subscriptions and fragments were the
constraint, Record<string, unknown>. Look at the property itself instead.
---
 pkg/npm/lib/typed-documentnode.d.ts | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pkg/npm/lib/typed-documentnode.d.ts b/pkg/npm/lib/typed-documentnode.d.ts
index d58a7fa..70b9bc5 100644
--- a/pkg/npm/lib/typed-documentnode.d.ts
+++ b/pkg/npm/lib/typed-documentnode.d.ts
@@ -42,13 +42,17 @@ export type FragmentDocumentNode<Data extends BasicObject> = DocumentNode & {
  * // MyQuery is QueryDocumentNode<D, V>
  * type MyQuerysData = DataOf<typeof MyQuery>; // MyQuerysData is now type D
  */
-export type DataOf<T> = T extends QueryDocumentNode<infer Data, infer Variables>
+export type DataOf<T> = T extends {
+  readonly __typedDocumentNodeQuery?: (v: never) => infer Data;
+}
   ? Data
-  : T extends MutationDocumentNode<infer Data, infer Variables>
+  : T extends { readonly __typedDocumentNodeMutation?: (v: never) => infer Data }
   ? Data
-  : T extends SubscriptionDocumentNode<infer Data, infer Variables>
+  : T extends {
+      readonly __typedDocumentNodeSubscription?: (v: never) => infer Data;
+    }
   ? Data
-  : T extends FragmentDocumentNode<infer Data>
+  : T extends { readonly __typedDocumentNodeFragment?: () => infer Data }
   ? Data
   : never;
 
@@ -59,13 +63,16 @@ export type DataOf<T> = T extends QueryDocumentNode<infer Data, infer Variables>
  * // MyMutation is MutationDocumentNode<D, V>
  * type MyMutationsVars = VariablesOf<typeof MyMutation>; // MyMutationsVars is now type V
  */
-export type VariablesOf<T> = T extends QueryDocumentNode<
-  infer Data,
-  infer Variables
->
+export type VariablesOf<T> = T extends {
+  readonly __typedDocumentNodeQuery?: (v: infer Variables) => unknown;
+}
   ? Variables
-  : T extends MutationDocumentNode<infer Data, infer Variables>
+  : T extends {
+      readonly __typedDocumentNodeMutation?: (v: infer Variables) => unknown;
+    }
   ? Variables
-  : T extends SubscriptionDocumentNode<infer Data, infer Variables>
+  : T extends {
+      readonly __typedDocumentNodeSubscription?: (v: infer Variables) => unknown;
+    }
   ? Variables
   : never;
-- 
2.43.0


From d7a84da43f31e1eebe1ecc05d85771af90fcc7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:40 +0000
Subject: [PATCH 31/32] fix: imports of documents with a byte order mark or
 carriage returns as line ends were ignored

---
 src/graphql.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index eebbff2..5288d9b 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -59,8 +59,10 @@ fn read_graphql_file(path: &Path) -> Result<String, PrintableMessage> {
             let mut buf_reader = BufReader::new(file);
             let mut contents = String::new();
             buf_reader.read_to_string(&mut contents)?;
-            // The parser counts the end of a comment as two lines with other line endings
-            Ok(contents.replace("\r\n", "\n"))
+            // A byte order mark means nothing, but would hide an import on the first line. The parser
+            // counts the end of a comment as two lines with "\r\n", and only there knows "\r"
+            let contents = contents.strip_prefix('\u{feff}').unwrap_or(&contents);
+            Ok(contents.replace("\r\n", "\n").replace('\r', "\n"))
         })
         .map_err(|io_error| PrintableMessage::new_compile_error_from_read_io_error(&io_error, path))
 }
-- 
2.43.0


From 43ade726530f432f4cd43ac84e1286286d6e8f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:32 +0000
Subject: [PATCH 32/32] fix: say where a fragment on an input object is, as for
 other types without selections

---
 src/graphql/ir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index 752558d..d48d901 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -444,7 +444,7 @@ impl<'a, 'b> TryFrom<(&'a CompileContext<'a, 'b>, &'a str, Pos)> for ComplexTrav
                     .map(|possible_type| (possible_type.as_ref(), UniqueFields::new()))
                     .collect()
             }
-            _ => return Err(Error::UnexpectedComplexTravseral(type_name.to_string())),
+            _ => return Err(Error::SelectionSetOnWrongType(type_name.to_string(), position)),
         };
         Ok(ComplexTraversal {
             type_name,
-- 
2.43.0

