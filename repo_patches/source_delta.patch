From 94591cee7dcc88248af4f35000bc36f2271b0edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 01/48] fix: exit with a non-zero status when a command fails

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index b97e8f7..aa8d24f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -87,6 +87,7 @@ fn main() {
     };
     if let Err(e) = res {
         eprintln!("{}", e);
+        std::process::exit(1);
     }
 }
 
-- 
2.43.0


From 2d7a825a0b48889bf11a629fbcbfd1dd5b4e9e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 02/48] fix: report failing statements of up and down as errors
 instead of panicking

---
 src/cmd/down.rs | 6 +++---
 src/cmd/up.rs   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cmd/down.rs b/src/cmd/down.rs
index 58b3f3d..5b73fc5 100644
--- a/src/cmd/down.rs
+++ b/src/cmd/down.rs
@@ -37,13 +37,13 @@ pub fn down(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     }
 
     for name in versions {
-        let v = dbh.get_version(&mut tx, &name).unwrap();
+        let v = dbh.get_version(&mut tx, &name)?;
         println!("  Reverting version {}", v.name.green());
         for stmt in &v.down {
-            tx.execute(stmt, &[]).unwrap();
+            tx.execute(stmt, &[])?;
             println!("    {}", stmt.dimmed());
         }
-        dbh.delete_version(&mut tx, &v).unwrap();
+        dbh.delete_version(&mut tx, &v)?;
     }
 
     tx.commit()?;
diff --git a/src/cmd/up.rs b/src/cmd/up.rs
index 4bc8edf..47448aa 100644
--- a/src/cmd/up.rs
+++ b/src/cmd/up.rs
@@ -42,10 +42,10 @@ pub fn up(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
         let v = fsh.get_version(&version_name)?;
         println!("  Applying version {}", v.name.green());
         for stmt in &v.up {
-            tx.execute(stmt, &[]).unwrap();
+            tx.execute(stmt, &[])?;
             println!("    {}", stmt.dimmed(),);
         }
-        dbh.save_version(&mut tx, &v).unwrap();
+        dbh.save_version(&mut tx, &v)?;
     }
 
     tx.commit()?;
-- 
2.43.0


From bf72738dfa225ed32df62b0e682d7717bbefa54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 03/48] fix: give clone the --profile argument it reads

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index aa8d24f..28d9dce 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -58,6 +58,7 @@ fn main() {
         .subcommand(
           Command::new("clone")
           .about("inspects the database and creates snapshot and the initial migration")
+          .arg(clap::arg!(--"profile" <String>).default_value("database"))
         )
         .subcommand(
           Command::new("print")
-- 
2.43.0


From 63d0b8d5cd8582a703539faabdd1c75091b9456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 04/48] fix: up, status and clone use the directories of the
 selected profile

---
 src/cmd/clone.rs  | 2 +-
 src/cmd/status.rs | 4 ++--
 src/cmd/up.rs     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cmd/clone.rs b/src/cmd/clone.rs
index 143d505..3c780cb 100644
--- a/src/cmd/clone.rs
+++ b/src/cmd/clone.rs
@@ -8,7 +8,7 @@ pub fn clone(profile_name: &str) -> Result<(), AnyError> {
     let cwd: std::path::PathBuf = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
     let database_url = project.resolve_database_url(profile_name)?;
-    let definition_dir = project.resolve_default_definitions_dir()?;
+    let definition_dir = project.resolve_definitions_dir(profile_name)?;
 
     let mut pg_client = Client::connect(&database_url, NoTls)?;
     let mut tx = pg_client.transaction()?;
diff --git a/src/cmd/status.rs b/src/cmd/status.rs
index 46b53b0..ec1197a 100644
--- a/src/cmd/status.rs
+++ b/src/cmd/status.rs
@@ -15,8 +15,8 @@ use postgres::{Client, NoTls};
 pub fn status(profile_name: &str) -> Result<(), AnyError> {
     let cwd = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
-    let history_dir = project.resolve_default_history_dir()?;
-    let definition_dir = project.resolve_default_definitions_dir()?;
+    let history_dir = project.resolve_history_dir(profile_name)?;
+    let definition_dir = project.resolve_definitions_dir(profile_name)?;
     let database_url = project.resolve_database_url(profile_name)?;
 
     let fsh = FSHistory::from_dir(&history_dir)?;
diff --git a/src/cmd/up.rs b/src/cmd/up.rs
index 47448aa..482cb2c 100644
--- a/src/cmd/up.rs
+++ b/src/cmd/up.rs
@@ -9,7 +9,7 @@ use postgres::{Client, NoTls};
 pub fn up(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     let cwd: std::path::PathBuf = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
-    let history_dir = project.resolve_default_history_dir()?;
+    let history_dir = project.resolve_history_dir(profile_name)?;
     let database_url = project.resolve_database_url(profile_name)?;
     let metadata_schema = project.resolve_metadata_schema(&profile_name)?;
 
-- 
2.43.0


From 241b8019b3dc00c7cfc8c5189ff5283a4b8b591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 05/48] fix: ADD COLUMN renders NOT NULL for columns that are
 not null, not for the others

---
 src/snapshot/changes/column/add_column_change.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snapshot/changes/column/add_column_change.rs b/src/snapshot/changes/column/add_column_change.rs
index bb62237..1fc3800 100644
--- a/src/snapshot/changes/column/add_column_change.rs
+++ b/src/snapshot/changes/column/add_column_change.rs
@@ -49,7 +49,7 @@ impl AddColumnChange {
             sql_qn(&self.column),
             self.data_type,
         )];
-        if !self.not_null {
+        if self.not_null {
             tokens.push("NOT NULL".to_string());
         }
         if let Some(default) = &self.default {
-- 
2.43.0


From bc501291f0215df4958054c9309a4d230e7144d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 06/48] fix: CREATE TABLE renders NOT NULL

---
 src/snapshot/changes/table/create_table_change.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/changes/table/create_table_change.rs b/src/snapshot/changes/table/create_table_change.rs
index a16fcf7..d7fb00f 100644
--- a/src/snapshot/changes/table/create_table_change.rs
+++ b/src/snapshot/changes/table/create_table_change.rs
@@ -68,7 +68,9 @@ impl CreateTableChange {
             sql_qa(&self.schema, &self.table),
             sql_l(self.columns.iter().map(|c| {
                 let mut tokens = vec![sql_qn(&c.name), c.data_type.clone()];
-                if !c.not_null {
+                if c.not_null {
+                    tokens.push("NOT NULL".to_string());
+                } else {
                     tokens.push("NULL".to_string());
                 }
                 if let Some(default) = &c.default {
-- 
2.43.0


From f65431600aaab1246b183fcb80422b98403d894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 07/48] fix: ADD FOREIGN KEY renders its options with their
 keywords and its deferrability

---
 .../changes/foreignkey/add_foreign_key_change.rs     | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/changes/foreignkey/add_foreign_key_change.rs b/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
index 940c8ac..db5f5ae 100644
--- a/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
+++ b/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
@@ -64,7 +64,7 @@ impl AddForeignKeyChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ADD CONSTRAINT {} FOREIGN KEY ({}) REFERENCES {} ({}) {} {} {}",
+            "ALTER TABLE {} ADD CONSTRAINT {} FOREIGN KEY ({}) REFERENCES {} ({}) MATCH {} ON UPDATE {} ON DELETE {} {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             sql_ql(&self.columns),
@@ -73,6 +73,16 @@ impl AddForeignKeyChange {
             self.match_option,
             self.update_rule,
             self.delete_rule,
+            if self.deferrable {
+                "DEFERRABLE"
+            } else {
+                "NOT DEFERRABLE"
+            },
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
+            },
         ) + ";"
     }
 
-- 
2.43.0


From 0346165d56db4959c81d5d7bbedd6cb491628dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 08/48] fix: altering a foreign key keeps DEFERRABLE INITIALLY
 IMMEDIATE apart from INITIALLY DEFERRED

---
 .../changes/foreignkey/alter_foreign_key_change.rs    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs b/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
index 90f56e3..6a4757e 100644
--- a/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
+++ b/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
@@ -38,13 +38,18 @@ impl AlterForeignKeyChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ALTER CONSTRAINT {} {}",
+            "ALTER TABLE {} ALTER CONSTRAINT {} {} {};",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             if self.deferrable {
-                "DEFERRABLE INITIALLY DEFERRED"
+                "DEFERRABLE"
             } else {
-                "NOT DEFERRABLE INITIALLY IMMEDIATE"
+                "NOT DEFERRABLE"
+            },
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
             },
         )
     }
-- 
2.43.0


From bad7dd76f33c2e0e76da35815fad73d5e5a13fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 09/48] fix: ADD CHECK puts the expression in parentheses

---
 src/snapshot/changes/check/add_check_change.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snapshot/changes/check/add_check_change.rs b/src/snapshot/changes/check/add_check_change.rs
index 2d7338f..19514bd 100644
--- a/src/snapshot/changes/check/add_check_change.rs
+++ b/src/snapshot/changes/check/add_check_change.rs
@@ -46,7 +46,7 @@ impl AddCheckChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ADD CONSTRAINT {} CHECK {} {} {}",
+            "ALTER TABLE {} ADD CONSTRAINT {} CHECK ({}) {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             self.expression,
-- 
2.43.0


From 9e60139b447a947dc092d6808b1cade21cd56509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 10/48] fix: quote the schema name in CREATE SCHEMA and DROP
 SCHEMA

---
 src/snapshot/changes/schema/create_schema_change.rs | 3 ++-
 src/snapshot/changes/schema/drop_schema_change.rs   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/snapshot/changes/schema/create_schema_change.rs b/src/snapshot/changes/schema/create_schema_change.rs
index 0d6a1dd..8d0b6ba 100644
--- a/src/snapshot/changes/schema/create_schema_change.rs
+++ b/src/snapshot/changes/schema/create_schema_change.rs
@@ -1,5 +1,6 @@
 use super::DropSchemaChange;
 use crate::snapshot::{changes::Change, Database, Schema, SnapshotError};
+use crate::util::sqlfmt::sql_qn;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -20,7 +21,7 @@ impl CreateSchemaChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("CREATE SCHEMA {};", self.schema_name)
+        format!("CREATE SCHEMA {};", sql_qn(&self.schema_name))
     }
 
     pub fn revert(&self, source: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/snapshot/changes/schema/drop_schema_change.rs b/src/snapshot/changes/schema/drop_schema_change.rs
index 5bc92e8..8650e99 100644
--- a/src/snapshot/changes/schema/drop_schema_change.rs
+++ b/src/snapshot/changes/schema/drop_schema_change.rs
@@ -1,5 +1,6 @@
 use super::CreateSchemaChange;
 use crate::snapshot::{changes::Change, Database, Schema, SnapshotError};
+use crate::util::sqlfmt::sql_qn;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -20,7 +21,7 @@ impl DropSchemaChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("DROP SCHEMA {};", self.schema_name)
+        format!("DROP SCHEMA {};", sql_qn(&self.schema_name))
     }
 
     pub fn revert(&self, source: &Database) -> Result<Change, SnapshotError> {
-- 
2.43.0


From d65d3dd8d5aa2a34d93cf9c742fc4be21023e425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 11/48] fix: CREATE FUNCTION and DROP FUNCTION render a valid
 signature and body

---
 .../changes/function/create_functon_change.rs |  8 ++++----
 .../changes/function/drop_function_change.rs  |  4 ++--
 src/util/sqlfmt.rs                            | 19 +++++++++++++++++++
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/snapshot/changes/function/create_functon_change.rs b/src/snapshot/changes/function/create_functon_change.rs
index d747d14..fda44ae 100644
--- a/src/snapshot/changes/function/create_functon_change.rs
+++ b/src/snapshot/changes/function/create_functon_change.rs
@@ -1,6 +1,6 @@
 use super::{super::Change, DropFunctionChange};
 use crate::snapshot::{Database, Function, SnapshotError};
-use crate::util::sqlfmt::sql_qa;
+use crate::util::sqlfmt::{sql_dq, sql_qf};
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -41,12 +41,12 @@ impl CreateFunctionChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "CREATE FUNCTION {} {} RETURNS {} LANGUAGE {} {}",
-            sql_qa(&self.schema, &self.function),
-            self.body,
+            "CREATE FUNCTION {} RETURNS {} LANGUAGE {} {} AS {}",
+            sql_qf(&self.schema, &self.function),
             self.returns,
             self.language,
             self.volatility,
+            sql_dq(&self.body),
         ) + ";"
     }
 
diff --git a/src/snapshot/changes/function/drop_function_change.rs b/src/snapshot/changes/function/drop_function_change.rs
index a5e2dd9..fcf52bb 100644
--- a/src/snapshot/changes/function/drop_function_change.rs
+++ b/src/snapshot/changes/function/drop_function_change.rs
@@ -1,6 +1,6 @@
 use super::{super::Change, CreateFunctionChange};
 use crate::snapshot::{Database, Function, SnapshotError};
-use crate::util::sqlfmt::sql_qa;
+use crate::util::sqlfmt::sql_qf;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -25,7 +25,7 @@ impl DropFunctionChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("DROP FUNCTION {}", sql_qa(&self.schema, &self.function),) + ";"
+        format!("DROP FUNCTION {}", sql_qf(&self.schema, &self.function),) + ";"
     }
 
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/util/sqlfmt.rs b/src/util/sqlfmt.rs
index eae728d..60d22fa 100644
--- a/src/util/sqlfmt.rs
+++ b/src/util/sqlfmt.rs
@@ -8,6 +8,25 @@ pub fn sql_qa(schema: &str, relation: &str) -> String {
     format!("{}.{}", sql_qn(schema), sql_qn(relation))
 }
 
+// quoted function signature: `f(a int)` -> `"schema"."f"(a int)`, `f` -> `"schema"."f"()`
+pub fn sql_qf(schema: &str, function: &str) -> String {
+    match function.find('(') {
+        Some(at) => format!("{}{}", sql_qa(schema, function[..at].trim()), &function[at..]),
+        None => format!("{}()", sql_qa(schema, function)),
+    }
+}
+
+// dollar quoted string, with a tag that does not occur in the string
+pub fn sql_dq(s: &str) -> String {
+    let mut tag = "$$".to_owned();
+    let mut n = 0;
+    while format!("{}$", s).contains(&tag) {
+        n += 1;
+        tag = format!("$podo{}$", n);
+    }
+    format!("{}{}{}", tag, s, tag)
+}
+
 // quoted list
 pub fn sql_ql<I, S>(names: I) -> String
 where
-- 
2.43.0


From fc311add129a0901be8e52e3ff94a82d1af98989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 12/48] fix: recreate a primary key whose deferrability changes

---
 src/snapshot/diff.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 56a32fe..b0a2136 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -277,11 +277,13 @@ fn diff_primary_key_create(t: &PrimaryKey) -> Changeset {
 fn diff_primary_key_update(s: &PrimaryKey, t: &PrimaryKey) -> Changeset {
     let mut changes = Changeset::new();
 
-    if s.columns != t.columns {
+    // PostgreSQL can not alter the deferrability of a primary key in place.
+    if s.columns != t.columns
+        || s.deferrable != t.deferrable
+        || s.initially_deferred != t.initially_deferred
+    {
         changes.push(DropPrimaryKeyChange::new(s));
         changes.push(AddPrimaryKeyChange::new(t));
-    } else if s.deferrable != t.deferrable || s.initially_deferred != t.initially_deferred {
-        changes.push(AlterPrimaryKeyChange::new(t));
     }
 
     return changes;
-- 
2.43.0


From 6e2dcd78bdb71ee22e3af817cdd626c998e20450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 13/48] fix: an index whose table, uniqueness or method changes
 is recreated

---
 src/snapshot/diff.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index b0a2136..8178982 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -450,7 +450,11 @@ fn diff_index_create(t: &Index) -> Changeset {
 fn diff_index_update(s: &Index, t: &Index) -> Changeset {
     let mut changes = Changeset::new();
 
-    if s.key_expressions != t.key_expressions {
+    if s.table_name != t.table_name
+        || s.unique != t.unique
+        || s.method != t.method
+        || s.key_expressions != t.key_expressions
+    {
         changes.push(DropIndexChange::new(s));
         changes.push(CreateIndexChange::new(t));
     }
-- 
2.43.0


From 33eeaa82474469708f162b593c94816e897aec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 14/48] fix: reverting a dropped table brings its constraints
 back

---
 src/snapshot/diff.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 8178982..1fdfeb3 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -200,6 +200,10 @@ fn diff_table_update(s: &Table, t: &Table) -> Changeset {
 fn diff_table_drop(s: &Table) -> Changeset {
     let mut changes = Changeset::new();
 
+    // Drop the constraints first, so that reverting brings them back.
+    for si in s.iter_constraints() {
+        changes.append(&mut diff_constraint_drop(si));
+    }
     changes.push(DropTableChange::new(s));
 
     return changes;
-- 
2.43.0


From 5b9756e001edb114eed10047432d45c63a21664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 15/48] fix: order the changes of a migration by their
 dependencies, not by hash order

---
 src/snapshot/diff.rs | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 1fdfeb3..bbb51f1 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -18,7 +18,49 @@ impl Changeset {
 }
 
 pub fn compare_diff(s: &Database, t: &Database) -> Vec<Change> {
-    return diff_database_update(s, t).changes;
+    let mut changes = diff_database_update(s, t).changes;
+    changes.sort_by(|a, b| change_order(a).cmp(&change_order(b)));
+    return changes;
+}
+
+/// The position of a change in a migration. Objects are dropped before the objects they depend on
+/// and created after them; changes of the same kind are ordered by the names of their objects, so
+/// that the order does not depend on the iteration order of the snapshots. The sort is stable and
+/// columns have no name here, they keep the order of their definition.
+fn change_order(change: &Change) -> (u8, &str, &str, &str) {
+    match change {
+        Change::DropViewChange(c) => (0, &c.schema, &c.view, ""),
+        Change::DropForeignKeyChange(c) => (1, &c.schema, &c.table, &c.constraint),
+        Change::DropIndexChange(c) => (2, &c.schema, &c.index, ""),
+        Change::DropCheckChange(c) => (3, &c.schema, &c.table, &c.constraint),
+        Change::DropUniqueChange(c) => (4, &c.schema, &c.table, &c.constraint),
+        Change::DropPrimaryKeyChange(c) => (5, &c.schema, &c.table, &c.constraint),
+        Change::DropColumnChange(c) => (6, &c.schema, &c.table, ""),
+        Change::DropTableChange(c) => (7, &c.schema, &c.table, ""),
+        Change::DropFunctionChange(c) => (8, &c.schema, &c.function, ""),
+        Change::DropSequenceChange(c) => (9, &c.schema, &c.sequence, ""),
+        Change::DropSchemaChange(c) => (10, &c.schema_name, "", ""),
+
+        Change::CreateSchemaChange(c) => (11, &c.schema_name, "", ""),
+        Change::CreateSequenceChange(c) => (12, &c.schema, &c.sequence, ""),
+        Change::CreateTableChange(c) => (13, &c.schema, &c.table, ""),
+        Change::RenameColumnChange(c) => (14, &c.from_schema, &c.from_table, ""),
+        Change::AddColumnChange(c) => (15, &c.schema, &c.table, ""),
+        Change::AlterColumnSetDataTypeChange(c) => (16, &c.schema, &c.table, ""),
+        Change::AlterColumnSetDefaultChange(c) => (17, &c.schema, &c.table, ""),
+        Change::AlterColumnSetNotNullChange(c) => (18, &c.schema, &c.table, ""),
+        Change::AddPrimaryKeyChange(c) => (19, &c.schema, &c.table, &c.constraint),
+        Change::AddUniqueChange(c) => (20, &c.schema, &c.table, &c.constraint),
+        Change::AlterPrimaryKeyChange(c) => (21, &c.schema, &c.table, &c.constraint),
+        Change::AlterUniqueChange(c) => (21, &c.schema, &c.table, &c.constraint),
+        Change::AddCheckChange(c) => (22, &c.schema, &c.table, &c.constraint),
+        Change::AlterCheckChange(c) => (23, &c.schema, &c.table, &c.constraint),
+        Change::CreateIndexChange(c) => (24, &c.schema, &c.index, ""),
+        Change::AddForeignKeyChange(c) => (25, &c.schema, &c.table, &c.constraint),
+        Change::AlterForeignKeyChange(c) => (26, &c.schema, &c.table, &c.constraint),
+        Change::CreateFunctionChange(c) => (27, &c.schema, &c.function, ""),
+        Change::CreateViewChange(c) => (28, &c.schema, &c.view, ""),
+    }
 }
 
 fn diff_database_update(s: &Database, t: &Database) -> Changeset {
-- 
2.43.0


From a2d898665a87da72aea547263b517a80a0fbcb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 16/48] fix: accept the increment and using keys in definitions

---
 src/definition/base/yaml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index a2cd5e1..3f12c6d 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -5,7 +5,7 @@ use super::{
     error::Error,
 };
 
-static KEYWORDS: [&str; 33] = [
+static KEYWORDS: [&str; 35] = [
     "foreign key",
     "initially deferred",
     "not null",
@@ -23,6 +23,7 @@ static KEYWORDS: [&str; 33] = [
     "deferrable",
     "function",
     "volatility",
+    "increment",
     "index",
     "language",
     "match",
@@ -38,6 +39,7 @@ static KEYWORDS: [&str; 33] = [
     "table",
     "type",
     "unique",
+    "using",
     "view",
 ];
 
-- 
2.43.0


From 8910cfc6f02a2d8acd15a901e450a5bdef980008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 17/48] fix: do not take a longer word for the definition
 keyword it starts with

---
 src/definition/base/yaml.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index 3f12c6d..bd1d524 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -78,7 +78,14 @@ fn create_node_from_mapping_key(key: &str) -> Result<Node, Error> {
 
     let mut found = false;
     for keyword in KEYWORDS.iter() {
-        if key.to_lowercase().starts_with(keyword) {
+        let is_match = match (key.get(..keyword.len()), key.get(keyword.len()..)) {
+            (Some(head), Some(rest)) => {
+                head.eq_ignore_ascii_case(keyword)
+                    && (rest.is_empty() || rest.starts_with(char::is_whitespace))
+            }
+            _ => false,
+        };
+        if is_match {
             node.r#type = keyword;
             found = true;
             break;
-- 
2.43.0


From 3d02b3b94dc3b2fb4d20ed53c56bdebc5c5f4de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 18/48] fix: report malformed definitions as errors instead of
 panicking

---
 src/definition/base/yaml.rs      |  2 +-
 src/definition/ddl/constraint.rs |  7 +++++--
 src/definition/ddl/error.rs      | 17 +++++++++++++++++
 src/definition/ddl/index.rs      |  4 ++++
 src/definition/ddl/schema.rs     | 12 +++++++++---
 src/definition/ddl/sequence.rs   |  5 ++++-
 src/definition/ddl/table.rs      |  8 ++++++--
 src/snapshot/error.rs            | 16 +++++++++++++++-
 8 files changed, 61 insertions(+), 10 deletions(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index bd1d524..8cd025b 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -123,7 +123,7 @@ fn parse_serde_value_to_ddl_value(val: &serde_yaml::Value) -> Result<Value, Erro
             return Ok(Value::Boolean(*val_bool));
         }
         serde_yaml::Value::Mapping(_) => {
-            unreachable!()
+            return Err(Error::new(format!("Invalid value: {:?}", val)));
         }
         serde_yaml::Value::Sequence(val_sequence) => {
             let parsed = parse_serde_sequence_to_ddl_list(val_sequence)?;
diff --git a/src/definition/ddl/constraint.rs b/src/definition/ddl/constraint.rs
index d1a4560..b07ff17 100644
--- a/src/definition/ddl/constraint.rs
+++ b/src/definition/ddl/constraint.rs
@@ -42,10 +42,13 @@ pub fn parse_constraint_definition(
                 let def = parse_check_constraint_definition(schema_name, table_name, n)?;
                 return Ok(Constraint::Check(def));
             }
-            _ => unreachable!(),
+            _ => continue,
         }
     }
-    unreachable!()
+    Err(Error::new_attribute_required(
+        n,
+        "primary key, unique, foreign key or check",
+    ))
 }
 
 pub fn render_constraint_definition(ctx: &Context, c: &Constraint) -> Node {
diff --git a/src/definition/ddl/error.rs b/src/definition/ddl/error.rs
index 04c5782..4d7d4da 100644
--- a/src/definition/ddl/error.rs
+++ b/src/definition/ddl/error.rs
@@ -1,4 +1,5 @@
 use super::super::base::Node;
+use crate::snapshot::SnapshotError;
 
 #[derive(Debug, PartialEq)]
 pub enum Error {
@@ -28,6 +29,10 @@ pub enum Error {
     InvalidColumnReference {
         column_reference: String,
     },
+    Duplicated {
+        node_display_string: String,
+        error: SnapshotError,
+    },
     HasErrors {
         node_display_string: String,
         errors: Vec<Error>,
@@ -71,6 +76,12 @@ impl Error {
     pub fn new_invalid_column_reference(column_reference: String) -> Error {
         Error::InvalidColumnReference { column_reference }
     }
+    pub fn new_duplicated(node: &Node, error: SnapshotError) -> Error {
+        Error::Duplicated {
+            node_display_string: node.display_string(),
+            error,
+        }
+    }
     pub fn new_has_errors(node: &Node, errors: Vec<Error>) -> Error {
         Error::HasErrors {
             node_display_string: node.display_string(),
@@ -126,6 +137,12 @@ impl std::fmt::Display for Error {
             Error::InvalidColumnReference { column_reference } => {
                 write!(f, "invalid column reference: {}", column_reference)
             }
+            Error::Duplicated {
+                node_display_string,
+                error,
+            } => {
+                write!(f, "duplicated in {}: {}", node_display_string, error)
+            }
             Error::HasErrors {
                 node_display_string,
                 errors,
diff --git a/src/definition/ddl/index.rs b/src/definition/ddl/index.rs
index 198cbc9..1e4f901 100644
--- a/src/definition/ddl/index.rs
+++ b/src/definition/ddl/index.rs
@@ -49,6 +49,10 @@ pub fn parse_index_definition(ctx: &Context, n: &Node) -> Result<Index, Error> {
         errors.push(Error::new_attribute_required(n, "on"));
     }
 
+    if !errors.is_empty() {
+        return Err(Error::new_has_errors(n, errors));
+    }
+
     Ok(Index {
         schema_name: ctx.schema_name.clone(),
         table_name: table_name.unwrap(),
diff --git a/src/definition/ddl/schema.rs b/src/definition/ddl/schema.rs
index 9419292..22f04a9 100644
--- a/src/definition/ddl/schema.rs
+++ b/src/definition/ddl/schema.rs
@@ -21,7 +21,9 @@ use super::{
 };
 
 pub fn parse_schema_definition(n: &Node) -> Result<Schema, Error> {
-    assert_eq!(n.r#type, "schema");
+    if n.r#type != "schema" {
+        return Err(Error::new_unexpected_node(n));
+    }
 
     let name = coerce_name(n)?;
     let child_nodes = coerce_nodes(n)?;
@@ -61,10 +63,14 @@ pub fn parse_schema_definition(n: &Node) -> Result<Schema, Error> {
 
     let mut schema = Schema::new(&name);
     for relation in relations {
-        schema.add_relation(relation).unwrap();
+        schema
+            .add_relation(relation)
+            .map_err(|e| Error::new_duplicated(n, e))?;
     }
     for function in functions {
-        schema.add_function(function).unwrap();
+        schema
+            .add_function(function)
+            .map_err(|e| Error::new_duplicated(n, e))?;
     }
 
     Ok(schema)
diff --git a/src/definition/ddl/sequence.rs b/src/definition/ddl/sequence.rs
index 33ac05f..b7970b6 100644
--- a/src/definition/ddl/sequence.rs
+++ b/src/definition/ddl/sequence.rs
@@ -31,7 +31,10 @@ pub fn parse_sequence_definition(ctx: &Context, n: &Node) -> Result<Sequence, Er
 
     for d in child_nodes {
         if let Err(e) = match d.r#type {
-            "as" => coerce_string_value(d).and_then(|v| Ok(data_type = Some(v))),
+            "as" => coerce_string_value(d).and_then(|v| match v.as_str() {
+                "int2" | "int4" | "int8" => Ok(data_type = Some(v)),
+                _ => Err(Error::new_invalid_type_attribute(d, "int2, int4 or int8")),
+            }),
             "increment" => coerce_integer_value(d).and_then(|v| Ok(increment = Some(v))),
             "minvalue" => coerce_integer_value(d).and_then(|v| Ok(min_value = Some(v))),
             "maxvalue" => coerce_integer_value(d).and_then(|v| Ok(max_value = Some(v))),
diff --git a/src/definition/ddl/table.rs b/src/definition/ddl/table.rs
index 3477ff7..722633e 100644
--- a/src/definition/ddl/table.rs
+++ b/src/definition/ddl/table.rs
@@ -43,10 +43,14 @@ pub fn parse_table_definition(schema_name: &str, n: &Node) -> Result<Table, Erro
 
     let mut table = Table::new(schema_name, &name);
     for column in columns {
-        table.add_column(column).unwrap();
+        table
+            .add_column(column)
+            .map_err(|e| Error::new_duplicated(n, e))?;
     }
     for pk in constraints {
-        table.add_constraint(pk).unwrap();
+        table
+            .add_constraint(pk)
+            .map_err(|e| Error::new_duplicated(n, e))?;
     }
 
     Ok(table)
diff --git a/src/snapshot/error.rs b/src/snapshot/error.rs
index 5f30cbd..abf05b1 100644
--- a/src/snapshot/error.rs
+++ b/src/snapshot/error.rs
@@ -104,7 +104,21 @@ impl SnapshotError {
 
 impl std::fmt::Display for SnapshotError {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        panic!("unimplemented")
+        match self {
+            SnapshotError::ObjectNotFound { path, r#type } => {
+                write!(f, "{} not found: {}", r#type, path.join("."))
+            }
+            SnapshotError::ObjectAlreadyExists { path, r#type } => {
+                write!(f, "{} already exists: {}", r#type, path.join("."))
+            }
+            SnapshotError::ObjectHasUnexpectedType {
+                path,
+                expected,
+                actual,
+            } => {
+                write!(f, "{} is not a {} but a {}", path.join("."), expected, actual)
+            }
+        }
     }
 }
 
-- 
2.43.0


From 1c9deaedb7b913f5e37d2673ceb6989be0f55046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 19/48] fix: do not skip a definitions directory whose type can
 not be determined

---
 src/definition/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/definition/mod.rs b/src/definition/mod.rs
index 7f6c0ef..ed7e49a 100644
--- a/src/definition/mod.rs
+++ b/src/definition/mod.rs
@@ -72,8 +72,15 @@ pub fn load_yaml_string(s: &str) -> Result<Database, AnyError> {
 fn collect_yaml_file(dir_path: &PathBuf) -> Result<Vec<PathBuf>, AnyError> {
     let mut paths: Vec<PathBuf> = Vec::new();
     for entry in std::fs::read_dir(dir_path)? {
-        let path = entry?.path();
-        if path.is_dir() {
+        let entry = entry?;
+        let path = entry.path();
+        let file_type = entry.file_type()?;
+        let is_dir = if file_type.is_symlink() {
+            path.is_dir()
+        } else {
+            file_type.is_dir()
+        };
+        if is_dir {
             let mut sub_paths = collect_yaml_file(&path)?;
             paths.append(&mut sub_paths);
         } else if path.extension().is_some_and(|ext| ext == "yaml") {
-- 
2.43.0


From adf919e5d98669d218d2758eb8a209943bef689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 20/48] fix: concurrent migrations of one database wait for
 each other

---
 src/cmd/down.rs    |  1 +
 src/cmd/up.rs      |  1 +
 src/history/dbh.rs | 12 ++++++++++++
 3 files changed, 14 insertions(+)

diff --git a/src/cmd/down.rs b/src/cmd/down.rs
index 5b73fc5..8d70878 100644
--- a/src/cmd/down.rs
+++ b/src/cmd/down.rs
@@ -15,6 +15,7 @@ pub fn down(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     let mut dbh = DBHistory::new(&metadata_schema);
 
     dbh.ensure_initialized(&mut tx)?;
+    dbh.lock(&mut tx)?;
 
     let current_version = dbh.get_current_version(&mut tx)?;
 
diff --git a/src/cmd/up.rs b/src/cmd/up.rs
index 482cb2c..3b941c2 100644
--- a/src/cmd/up.rs
+++ b/src/cmd/up.rs
@@ -20,6 +20,7 @@ pub fn up(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     let mut dbh = DBHistory::new(&metadata_schema);
 
     dbh.ensure_initialized(&mut tx)?;
+    dbh.lock(&mut tx)?;
 
     let current_version = dbh.get_current_version(&mut tx)?;
 
diff --git a/src/history/dbh.rs b/src/history/dbh.rs
index 10efbd8..fce4b44 100644
--- a/src/history/dbh.rs
+++ b/src/history/dbh.rs
@@ -108,6 +108,12 @@ impl DBHistory {
         Ok(())
     }
 
+    /// Holds off other migrations of this database until the end of the transaction.
+    pub fn lock(&mut self, tx: &mut Transaction) -> Result<(), DBHistoryError> {
+        tx.execute(&format_lock_sql(&self.metadata_schema), &[])?;
+        Ok(())
+    }
+
     fn create_meta_schema(&mut self, tx: &mut Transaction) -> Result<(), DBHistoryError> {
         tx.execute(&format_create_schema_sql(&self.metadata_schema), &[])?;
         tx.execute(&format_create_table_sql(&self.metadata_schema), &[])?;
@@ -174,6 +180,12 @@ fn format_create_table_sql(schema: &str) -> String {
         schema, schema,
     )
 }
+fn format_lock_sql(schema: &str) -> String {
+    format!(
+        "LOCK TABLE {}.version IN SHARE ROW EXCLUSIVE MODE",
+        schema
+    )
+}
 fn format_insert_version_sql(schema: &str) -> String {
     format!(
         "INSERT INTO {}.version (name, previous, changes, up, down) VALUES ($1, $2, $3::TEXT::JSON, $4, $5)",
-- 
2.43.0


From 8b881671ea518987f5e9826db6405d6a8a1048c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:43 +0000
Subject: [PATCH 21/48] fix: do not skip a linked definitions directory whose
 type can not be determined

---
 src/definition/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/definition/mod.rs b/src/definition/mod.rs
index ed7e49a..d0b0dbf 100644
--- a/src/definition/mod.rs
+++ b/src/definition/mod.rs
@@ -76,7 +76,11 @@ fn collect_yaml_file(dir_path: &PathBuf) -> Result<Vec<PathBuf>, AnyError> {
         let path = entry.path();
         let file_type = entry.file_type()?;
         let is_dir = if file_type.is_symlink() {
-            path.is_dir()
+            match std::fs::metadata(&path) {
+                Ok(metadata) => metadata.is_dir(),
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => false,
+                Err(e) => return Err(e.into()),
+            }
         } else {
             file_type.is_dir()
         };
-- 
2.43.0


From 55708fe4d564ed8a837124fb2bc61de0bd0dd74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:43 +0000
Subject: [PATCH 22/48] fix: make refuses to overwrite a version made in the
 same second

---
 src/cmd/make.rs    | 5 ++++-
 src/history/fsh.rs | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cmd/make.rs b/src/cmd/make.rs
index e6f9502..67424a6 100644
--- a/src/cmd/make.rs
+++ b/src/cmd/make.rs
@@ -1,6 +1,6 @@
 use crate::{
     error::AnyError,
-    history::{FSHistory, Version},
+    history::{FSHistory, FSHistoryError, Version},
     project::discover_project,
 };
 use colored::Colorize;
@@ -23,6 +23,9 @@ pub fn make(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
         chrono::Local::now().format("%Y%m%d_%H%M%S"),
         version.unwrap_or("auto"),
     );
+    if fsh.has_version(&to_make.name)? {
+        return Err(FSHistoryError::VersionAlreadyExists(to_make.name).into());
+    }
     let new_stage = Version::new_stage(&to_make.name);
 
     println!("Made version: {}", &to_make.name.green());
diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 4463aa7..27c49d6 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -98,6 +98,10 @@ impl FSHistory {
         return Ok(versions);
     }
 
+    pub fn has_version(&self, version_name: &str) -> Result<bool, FSHistoryError> {
+        Ok(self.get_version_file_path(version_name).try_exists()?)
+    }
+
     pub fn save_version(&mut self, version: Version) -> Result<(), FSHistoryError> {
         // TODO: 인 메모리 변경 안해도 되나?...
         let version_file_path = self.get_version_file_path(&version.name);
@@ -123,6 +127,7 @@ pub enum FSHistoryError {
         high: String,
         low: String,
     },
+    VersionAlreadyExists(String),
     FileSystemError(std::io::Error),
     SerdeYAMLError(serde_yaml::Error),
 }
@@ -158,6 +163,9 @@ impl Display for FSHistoryError {
                 "version \"{}\" is not reachable from version \"{}\"",
                 high, low
             ),
+            FSHistoryError::VersionAlreadyExists(name) => {
+                write!(f, "version \"{}\" already exists", name)
+            }
             FSHistoryError::FileSystemError(err) => write!(f, "{}", err),
             FSHistoryError::SerdeYAMLError(err) => write!(f, "{}", err),
         }
-- 
2.43.0


From 81dfd584b3c547253bfafa7f8eb6ba5e3de52c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 23/48] fix: make refuses a version name that the version table
 can not hold

---
 src/cmd/make.rs        |  5 ++++-
 src/history/fsh.rs     | 13 ++++++++++++-
 src/history/version.rs |  3 +++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/cmd/make.rs b/src/cmd/make.rs
index 67424a6..271ba9e 100644
--- a/src/cmd/make.rs
+++ b/src/cmd/make.rs
@@ -1,6 +1,6 @@
 use crate::{
     error::AnyError,
-    history::{FSHistory, FSHistoryError, Version},
+    history::{FSHistory, FSHistoryError, Version, MAX_VERSION_NAME_LENGTH},
     project::discover_project,
 };
 use colored::Colorize;
@@ -23,6 +23,9 @@ pub fn make(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
         chrono::Local::now().format("%Y%m%d_%H%M%S"),
         version.unwrap_or("auto"),
     );
+    if to_make.name.chars().count() > MAX_VERSION_NAME_LENGTH {
+        return Err(FSHistoryError::VersionNameTooLong(to_make.name).into());
+    }
     if fsh.has_version(&to_make.name)? {
         return Err(FSHistoryError::VersionAlreadyExists(to_make.name).into());
     }
diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 27c49d6..441d115 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -5,7 +5,10 @@ use std::{
     path::PathBuf,
 };
 
-use super::{version::INIT, Version};
+use super::{
+    version::{INIT, MAX_VERSION_NAME_LENGTH},
+    Version,
+};
 
 pub struct FSHistory {
     pub dir: PathBuf,
@@ -128,6 +131,7 @@ pub enum FSHistoryError {
         low: String,
     },
     VersionAlreadyExists(String),
+    VersionNameTooLong(String),
     FileSystemError(std::io::Error),
     SerdeYAMLError(serde_yaml::Error),
 }
@@ -166,6 +170,13 @@ impl Display for FSHistoryError {
             FSHistoryError::VersionAlreadyExists(name) => {
                 write!(f, "version \"{}\" already exists", name)
             }
+            FSHistoryError::VersionNameTooLong(name) => {
+                write!(
+                    f,
+                    "version name \"{}\" is longer than {} characters",
+                    name, MAX_VERSION_NAME_LENGTH
+                )
+            }
             FSHistoryError::FileSystemError(err) => write!(f, "{}", err),
             FSHistoryError::SerdeYAMLError(err) => write!(f, "{}", err),
         }
diff --git a/src/history/version.rs b/src/history/version.rs
index 7079ef1..4973af4 100644
--- a/src/history/version.rs
+++ b/src/history/version.rs
@@ -4,6 +4,9 @@ use serde::{Deserialize, Serialize};
 pub const STAGE: &str = "stage";
 pub const INIT: &str = "init";
 
+/// The length of the name column of the version table.
+pub const MAX_VERSION_NAME_LENGTH: usize = 128;
+
 #[derive(Debug, Serialize, Deserialize)]
 pub struct Version {
     pub name: String,
-- 
2.43.0


From d8416bb3287ab1dced81e9184c920f04c98636f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 24/48] fix: read versions whose label ends with .yaml

---
 src/history/fsh.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 441d115..358631a 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -38,12 +38,15 @@ impl FSHistory {
             let filetype = entry.file_type()?;
             let filename = entry.file_name().to_str().unwrap().to_owned();
 
-            if filetype.is_dir() || !filename.ends_with(".yaml") {
+            if filetype.is_dir() {
                 continue;
             }
-            let version_name = filename.trim_end_matches(".yaml").to_owned();
+            let version_name = match filename.strip_suffix(".yaml") {
+                Some(version_name) => version_name,
+                None => continue,
+            };
 
-            let v = history.get_version(&version_name)?;
+            let v = history.get_version(version_name)?;
 
             if let Some(previous) = v.previous {
                 if let Some(existing) = history.next_map.get(&previous) {
-- 
2.43.0


From a86d161789462e01097e7fd90d07db4efccf975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 25/48] fix: an interrupted command does not leave truncated
 project files

---
 src/definition/mod.rs |  3 ++-
 src/history/fsh.rs    |  6 ++++--
 src/project/mod.rs    |  4 ++--
 src/util/fs.rs        | 29 +++++++++++++++++++++++++++++
 src/util/mod.rs       |  1 +
 5 files changed, 38 insertions(+), 5 deletions(-)
 create mode 100644 src/util/fs.rs

diff --git a/src/definition/mod.rs b/src/definition/mod.rs
index d0b0dbf..71b5a0f 100644
--- a/src/definition/mod.rs
+++ b/src/definition/mod.rs
@@ -7,6 +7,7 @@ use crate::{
     },
     error::AnyError,
     snapshot::Database,
+    util::fs::write_atomic,
 };
 
 use self::{base::yaml::parse_mapping_to_nodes, ddl::parse_schema_definition};
@@ -25,7 +26,7 @@ pub fn save_snapshot(file_path: &Path, snapshot: &Database) -> Result<(), AnyErr
     let mapping = render_nodes_to_mapping(&nodes);
     let got = serde_yaml::to_string(&mapping).unwrap();
 
-    std::fs::write(file_path, got)?;
+    write_atomic(file_path, got.as_bytes())?;
 
     return Ok(());
 }
diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 358631a..35691a9 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -5,6 +5,8 @@ use std::{
     path::PathBuf,
 };
 
+use crate::util::fs::write_atomic;
+
 use super::{
     version::{INIT, MAX_VERSION_NAME_LENGTH},
     Version,
@@ -111,8 +113,8 @@ impl FSHistory {
     pub fn save_version(&mut self, version: Version) -> Result<(), FSHistoryError> {
         // TODO: 인 메모리 변경 안해도 되나?...
         let version_file_path = self.get_version_file_path(&version.name);
-        let version_file = File::create(version_file_path)?;
-        serde_yaml::to_writer(version_file, &version)?;
+        let content = serde_yaml::to_string(&version)?;
+        write_atomic(&version_file_path, content.as_bytes())?;
 
         Ok(())
     }
diff --git a/src/project/mod.rs b/src/project/mod.rs
index d49bb3e..983d691 100644
--- a/src/project/mod.rs
+++ b/src/project/mod.rs
@@ -1,4 +1,4 @@
-use crate::util::expand::expand_envvar;
+use crate::util::{expand::expand_envvar, fs::write_atomic};
 use serde::{Deserialize, Serialize};
 use std::{collections::HashMap, fmt::Display, fs, path::PathBuf};
 
@@ -124,7 +124,7 @@ pub fn initialize_project(base_dir: PathBuf) -> Result<Project, ProjectError> {
     let yaml_project = create_base_yaml_project();
     let s = serde_yaml::to_string(&yaml_project).unwrap();
     let config_file = base_dir.join(CONFIG_FILE);
-    fs::write(config_file, &s).unwrap();
+    write_atomic(&config_file, s.as_bytes())?;
     load_project_from_str(base_dir, &s)
 }
 
diff --git a/src/util/fs.rs b/src/util/fs.rs
new file mode 100644
index 0000000..6f50027
--- /dev/null
+++ b/src/util/fs.rs
@@ -0,0 +1,29 @@
+use std::{
+    ffi::OsString,
+    fs::{self, File},
+    io::{self, Write},
+    path::Path,
+};
+
+/// Replaces the content of a file so that, whatever happens meanwhile, the file has either its old
+/// or its complete new content.
+pub fn write_atomic(path: &Path, content: &[u8]) -> io::Result<()> {
+    let dir = path.parent().unwrap_or(Path::new("."));
+    let mut temp_name = OsString::from(".");
+    temp_name.push(path.file_name().unwrap_or_default());
+    temp_name.push(".tmp");
+    let temp_path = dir.join(temp_name);
+
+    let res = write_synced(&temp_path, content).and_then(|_| fs::rename(&temp_path, path));
+    if res.is_err() {
+        let _ = fs::remove_file(&temp_path);
+        return res;
+    }
+    File::open(dir)?.sync_all()
+}
+
+fn write_synced(path: &Path, content: &[u8]) -> io::Result<()> {
+    let mut file = File::create(path)?;
+    file.write_all(content)?;
+    file.sync_all()
+}
diff --git a/src/util/mod.rs b/src/util/mod.rs
index c1fb72c..5e5ca49 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -1,3 +1,4 @@
 pub mod sqlfmt;
 pub mod test;
 pub mod expand;
+pub mod fs;
-- 
2.43.0


From 39133ea374075940063b1fe7a50bead8b0ec8bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 26/48] fix: init leaves a project alone whose configuration
 can not be read

---
 src/cmd/init.rs    | 12 ++++++++----
 src/project/mod.rs |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cmd/init.rs b/src/cmd/init.rs
index 640bb2f..534609b 100644
--- a/src/cmd/init.rs
+++ b/src/cmd/init.rs
@@ -1,15 +1,19 @@
 use crate::definition;
 use crate::error::AnyError;
 use crate::history::{FSHistory, Version};
-use crate::project::{discover_project, initialize_project};
+use crate::project::{discover_project, initialize_project, ProjectError};
 use crate::snapshot::Database;
 
 pub fn init() -> Result<(), AnyError> {
     let cwd = std::env::current_dir()?;
 
-    if let Ok(proj) = discover_project(cwd.clone()) {
-        println!("Project already exists at: {}", proj.base_dir.display());
-        return Ok(());
+    match discover_project(cwd.clone()) {
+        Ok(proj) => {
+            println!("Project already exists at: {}", proj.base_dir.display());
+            return Ok(());
+        }
+        Err(ProjectError::ProjectNotFound { .. }) => {}
+        Err(e) => return Err(e.into()),
     }
 
     let project = initialize_project(cwd)?;
diff --git a/src/project/mod.rs b/src/project/mod.rs
index 983d691..ab061b4 100644
--- a/src/project/mod.rs
+++ b/src/project/mod.rs
@@ -106,7 +106,7 @@ pub fn discover_project(current_dir: PathBuf) -> Result<Project, ProjectError> {
     let mut current_dir = current_dir;
     loop {
         let config_file = current_dir.join(CONFIG_FILE);
-        if config_file.exists() {
+        if config_file.try_exists()? {
             let project = load_project_from_file(current_dir, config_file)?;
             return Ok(project);
         }
-- 
2.43.0


From 4cb1f568342d0dce431b03485abd1bc5b49b8a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 27/48] fix: init can be completed after it was interrupted and
 keeps files that are already there

---
 src/cmd/init.rs    | 18 +++++++++++++-----
 src/project/mod.rs | 13 +++++++++----
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/cmd/init.rs b/src/cmd/init.rs
index 534609b..41c6cd6 100644
--- a/src/cmd/init.rs
+++ b/src/cmd/init.rs
@@ -1,7 +1,7 @@
 use crate::definition;
 use crate::error::AnyError;
 use crate::history::{FSHistory, Version};
-use crate::project::{discover_project, initialize_project, ProjectError};
+use crate::project::{discover_project, initialize_project, new_project, ProjectError};
 use crate::snapshot::Database;
 
 pub fn init() -> Result<(), AnyError> {
@@ -16,7 +16,7 @@ pub fn init() -> Result<(), AnyError> {
         Err(e) => return Err(e.into()),
     }
 
-    let project = initialize_project(cwd)?;
+    let project = new_project(cwd.clone())?;
     let history_dir = project.resolve_default_history_dir()?;
     let definition_dir = project.resolve_default_definitions_dir()?;
 
@@ -36,10 +36,18 @@ pub fn init() -> Result<(), AnyError> {
     }
 
     let mut fsh = FSHistory::new(history_dir.clone());
-    fsh.save_version(init)?;
-    fsh.save_version(stage)?;
+    for version in [init, stage] {
+        if !fsh.has_version(&version.name)? {
+            fsh.save_version(version)?;
+        }
+    }
+    let definition_file = definition_dir.join("public.yaml");
+    if !definition_file.try_exists()? {
+        definition::save_snapshot(&definition_file, &snapshot)?;
+    }
 
-    definition::save_snapshot(&definition_dir.join("public.yaml"), &snapshot)?;
+    // The configuration makes it a project, so it comes last.
+    initialize_project(cwd)?;
 
     Ok(())
 }
diff --git a/src/project/mod.rs b/src/project/mod.rs
index ab061b4..ac02605 100644
--- a/src/project/mod.rs
+++ b/src/project/mod.rs
@@ -120,12 +120,17 @@ pub fn discover_project(current_dir: PathBuf) -> Result<Project, ProjectError> {
     }
 }
 
-pub fn initialize_project(base_dir: PathBuf) -> Result<Project, ProjectError> {
-    let yaml_project = create_base_yaml_project();
-    let s = serde_yaml::to_string(&yaml_project).unwrap();
+/// The project `initialize_project` creates.
+pub fn new_project(base_dir: PathBuf) -> Result<Project, ProjectError> {
+    let s = serde_yaml::to_string(&create_base_yaml_project())?;
+    load_project_from_str(base_dir, &s)
+}
+
+pub fn initialize_project(base_dir: PathBuf) -> Result<(), ProjectError> {
+    let s = serde_yaml::to_string(&create_base_yaml_project())?;
     let config_file = base_dir.join(CONFIG_FILE);
     write_atomic(&config_file, s.as_bytes())?;
-    load_project_from_str(base_dir, &s)
+    Ok(())
 }
 
 fn load_project_from_file(
-- 
2.43.0


From b28871998101e7637541f0f5ea6935f70b7cfc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 28/48] fix: refuse a history that is not a chain from init to
 stage

---
 src/history/fsh.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 35691a9..6a31c3b 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -8,7 +8,7 @@ use std::{
 use crate::util::fs::write_atomic;
 
 use super::{
-    version::{INIT, MAX_VERSION_NAME_LENGTH},
+    version::{INIT, MAX_VERSION_NAME_LENGTH, STAGE},
     Version,
 };
 
@@ -34,6 +34,7 @@ impl FSHistory {
             current_version: INIT.to_owned(),
         };
 
+        let mut version_count = 0;
         let dir_entries = std::fs::read_dir(&dir)?;
         for entry in dir_entries {
             let entry = entry?;
@@ -49,6 +50,13 @@ impl FSHistory {
             };
 
             let v = history.get_version(version_name)?;
+            if v.name != version_name {
+                return Err(FSHistoryError::NameMismatch {
+                    file: filename.clone(),
+                    name: v.name,
+                });
+            }
+            version_count += 1;
 
             if let Some(previous) = v.previous {
                 if let Some(existing) = history.next_map.get(&previous) {
@@ -62,10 +70,15 @@ impl FSHistory {
             }
         }
 
-        let mut curr_version = "init".to_string();
+        let mut chained = 1;
+        let mut curr_version = INIT.to_owned();
         while let Some(next) = history.next_map.get(&curr_version) {
             history.current_version = curr_version.clone();
             curr_version = next.clone();
+            chained += 1;
+        }
+        if curr_version != STAGE || chained != version_count {
+            return Err(FSHistoryError::BrokenChain { end: curr_version });
         }
 
         Ok(history)
@@ -135,6 +148,13 @@ pub enum FSHistoryError {
         high: String,
         low: String,
     },
+    BrokenChain {
+        end: String,
+    },
+    NameMismatch {
+        file: String,
+        name: String,
+    },
     VersionAlreadyExists(String),
     VersionNameTooLong(String),
     FileSystemError(std::io::Error),
@@ -172,6 +192,14 @@ impl Display for FSHistoryError {
                 "version \"{}\" is not reachable from version \"{}\"",
                 high, low
             ),
+            FSHistoryError::BrokenChain { end } => write!(
+                f,
+                "the versions do not form a single chain from \"{}\" to \"{}\": it ends at \"{}\"",
+                INIT, STAGE, end
+            ),
+            FSHistoryError::NameMismatch { file, name } => {
+                write!(f, "file \"{}\" holds version \"{}\"", file, name)
+            }
             FSHistoryError::VersionAlreadyExists(name) => {
                 write!(f, "version \"{}\" already exists", name)
             }
-- 
2.43.0


From 055bb2e95a5c0f41608859766de02a2fb6d49ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 29/48] fix: a make that was interrupted before it reset the
 stage does not wedge the history

---
 src/history/fsh.rs | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 6a31c3b..c03980b 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -16,6 +16,9 @@ pub struct FSHistory {
     pub dir: PathBuf,
     pub next_map: HashMap<String, String>,
     pub current_version: String,
+    /// The version that holds the content of the stage file already, if `make` was interrupted
+    /// before it wrote the new stage.
+    made_stage: Option<String>,
 }
 
 impl FSHistory {
@@ -24,6 +27,7 @@ impl FSHistory {
             dir,
             next_map: HashMap::new(),
             current_version: INIT.to_owned(),
+            made_stage: None,
         }
     }
 
@@ -32,6 +36,7 @@ impl FSHistory {
             dir: dir.clone(),
             next_map: HashMap::new(),
             current_version: INIT.to_owned(),
+            made_stage: None,
         };
 
         let mut version_count = 0;
@@ -59,17 +64,36 @@ impl FSHistory {
             version_count += 1;
 
             if let Some(previous) = v.previous {
-                if let Some(existing) = history.next_map.get(&previous) {
+                if let Some(existing) = history.next_map.get(&previous).cloned() {
+                    if history.made_stage.is_none()
+                        && history.is_made_from_stage(&existing, &v.name)?
+                    {
+                        let made = if existing == STAGE { v.name } else { existing };
+                        history.made_stage = Some(made.clone());
+                        history.next_map.insert(previous, made);
+                        continue;
+                    }
                     return Err(FSHistoryError::Branched {
-                        parent: previous.clone(),
-                        child_a: existing.clone(),
-                        child_b: v.name.clone(),
+                        parent: previous,
+                        child_a: existing,
+                        child_b: v.name,
                     });
                 }
                 history.next_map.insert(previous, v.name.clone());
             }
         }
 
+        if let Some(made) = &history.made_stage {
+            if let Some(next) = history.next_map.get(made) {
+                return Err(FSHistoryError::Branched {
+                    parent: made.clone(),
+                    child_a: next.clone(),
+                    child_b: STAGE.to_owned(),
+                });
+            }
+            history.next_map.insert(made.clone(), STAGE.to_owned());
+        }
+
         let mut chained = 1;
         let mut curr_version = INIT.to_owned();
         while let Some(next) = history.next_map.get(&curr_version) {
@@ -88,7 +112,19 @@ impl FSHistory {
         self.get_version(&self.current_version)
     }
 
+    fn is_made_from_stage(&self, a: &str, b: &str) -> Result<bool, FSHistoryError> {
+        if a != STAGE && b != STAGE {
+            return Ok(false);
+        }
+        let a = self.get_version(a)?;
+        let b = self.get_version(b)?;
+        Ok(a.changes == b.changes && a.up == b.up && a.down == b.down)
+    }
+
     pub fn get_version(&self, version_name: &str) -> Result<Version, FSHistoryError> {
+        if let (STAGE, Some(made)) = (version_name, &self.made_stage) {
+            return Ok(Version::new_stage(made));
+        }
         let version_file_path = self.get_version_file_path(version_name);
         let version_file = File::open(version_file_path)?;
         let version: Version = serde_yaml::from_reader(version_file)?;
-- 
2.43.0


From 0de6331b00eefbf6141a00f703789f5157736c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 30/48] fix: clone keeps the order of the columns

---
 src/introspection/column.sql | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 8dc09bd..999b489 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -53,4 +53,5 @@ WHERE NOT pg_is_other_temp_schema(nc.oid)
     AND a.attnum > 0
     AND NOT a.attisdropped
     AND c.relkind = 'r'
-    AND nc.nspname = ANY($1);
+    AND nc.nspname = ANY($1)
+ORDER BY nc.nspname, c.relname, a.attnum;
-- 
2.43.0


From 858e373a911cac3d0f322a84b10a8e7469655b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 31/48] fix: clone reads the referenced columns of a foreign
 key in the order of its columns

---
 src/introspection/foreignkey.sql | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/introspection/foreignkey.sql b/src/introspection/foreignkey.sql
index a304ac2..d83f595 100644
--- a/src/introspection/foreignkey.sql
+++ b/src/introspection/foreignkey.sql
@@ -12,17 +12,8 @@ SELECT
     fc.relname AS target_table_name,
 	(
 		SELECT array_agg(pa.attname)
-		FROM pg_catalog.pg_attribute pa
-		WHERE fc.oid = pa.attrelid
-		AND fc.oid =
-			CASE pkc.contype
-				WHEN 'f' THEN pkc.confrelid
-				ELSE pkc.conrelid
-			END AND (pa.attnum = ANY (
-			CASE pkc.contype
-				WHEN 'f' THEN pkc.confkey
-			ELSE pkc.conkey
-		END)) AND NOT pa.attisdropped 
+		FROM UNNEST(con.confkey) ck(attnum)
+		JOIN pg_catalog.pg_attribute pa ON pa.attrelid = con.confrelid AND pa.attnum = ck.attnum
 	) AS target_columns,
 	con.condeferrable AS constraint_deferrable,
 	con.condeferred AS constraint_deferred,
-- 
2.43.0


From 13c57cfc877e44e7b959105d85f4ac519f2ab44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:15 +0000
Subject: [PATCH 32/48] fix: refuse a history whose versions form a cycle

---
 src/history/fsh.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index c03980b..fd1fd62 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -100,6 +100,9 @@ impl FSHistory {
             history.current_version = curr_version.clone();
             curr_version = next.clone();
             chained += 1;
+            if chained > version_count {
+                break;
+            }
         }
         if curr_version != STAGE || chained != version_count {
             return Err(FSHistoryError::BrokenChain { end: curr_version });
-- 
2.43.0


From 5ae7597390189d9b71311a3cba5fa2ef362e6ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:15 +0000
Subject: [PATCH 33/48] fix: clone writes the match option of a foreign key the
 way it is rendered

---
 src/introspection/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index ad34283..dee303a 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -180,7 +180,11 @@ fn load_foreign_keys(
             target_columns: ifk.target_table_columns,
             deferrable: ifk.deferrable,
             initially_deferred: ifk.initially_deferred,
-            match_option: ifk.match_option,
+            // The information schema calls it NONE.
+            match_option: match ifk.match_option.as_str() {
+                "NONE" => "SIMPLE".to_owned(),
+                _ => ifk.match_option,
+            },
             update_rule: ifk.update_rule,
             delete_rule: ifk.delete_rule,
         };
-- 
2.43.0


From f455e71471e19993dd31dd97f3b63fb54008030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 34/48] fix: clone keeps the arguments of functions

---
 src/introspection/function.sql | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/introspection/function.sql b/src/introspection/function.sql
index 2331ce4..353e639 100644
--- a/src/introspection/function.sql
+++ b/src/introspection/function.sql
@@ -1,6 +1,9 @@
 SELECT
     n.nspname AS schema,
-    p.proname AS name,
+    p.proname || CASE
+        WHEN p.pronargs > 0 THEN '(' || pg_get_function_arguments(p.oid) || ')'
+        ELSE ''
+    END AS name,
     p.prosrc AS body,
     l.lanname AS language,
     CASE
-- 
2.43.0


From 9244ad13bdb638177c3b7fe7dd7499e185e96848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 35/48] fix: clone keeps the expressions, quoting and ordering
 of index keys

---
 src/introspection/index.sql |  7 ++-----
 src/introspection/mod.rs    | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index 6bb2b10..8e58101 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -12,11 +12,8 @@ SELECT
     pi.indnatts
         AS key_length,
     (
-        SELECT array_agg(pa.attname) 
-        FROM unnest(pi.indkey) AS key(i)
-            JOIN pg_catalog.pg_attribute pa
-                ON pa.attrelid = pi.indrelid
-                    AND pa.attnum = i 
+        SELECT array_agg(pg_get_indexdef(pi.indexrelid, i, true) ORDER BY i)
+        FROM generate_series(1, pi.indnkeyatts::int) AS key(i)
     ) AS key_columns,
     ( 
         SELECT array_agg(o)
diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index dee303a..311b1c8 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -227,11 +227,18 @@ fn load_indexes(
     schemas: &[&str],
 ) -> Result<(), AnyError> {
     for iindex in index::introspect_indexes(tx, schemas)? {
-        let key_expressions = if let Some(expressions) = iindex.expressions {
-            vec![expressions] //
-        } else {
-            iindex.key_columns.unwrap()
-        };
+        let key_expressions = iindex
+            .key_columns
+            .unwrap_or_default()
+            .iter()
+            .zip(&iindex.key_options)
+            .map(|(key, option)| match option & 3 {
+                0 => key.clone(),
+                1 => format!("{} DESC NULLS LAST", key),
+                2 => format!("{} NULLS FIRST", key),
+                _ => format!("{} DESC", key),
+            })
+            .collect();
 
         let index = Index {
             name: iindex.index_name,
-- 
2.43.0


From 3474c349e268c30f400d13d2b36baae6326c4aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 36/48] fix: clone keeps a unique index that a foreign key
 references

---
 src/introspection/foreignkey.sql | 9 +++------
 src/introspection/index.sql      | 3 ++-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/introspection/foreignkey.sql b/src/introspection/foreignkey.sql
index d83f595..8b26642 100644
--- a/src/introspection/foreignkey.sql
+++ b/src/introspection/foreignkey.sql
@@ -8,7 +8,7 @@ SELECT
 			JOIN pg_catalog.pg_attribute pa ON pa.attrelid = con.conrelid AND pa.attnum = ck.attnum
 		) AS table_columns,
 
-    npkc.nspname AS target_schema,
+    nfc.nspname AS target_schema,
     fc.relname AS target_table_name,
 	(
 		SELECT array_agg(pa.attname)
@@ -42,10 +42,7 @@ SELECT
 FROM pg_namespace ncon
     JOIN pg_constraint con ON ncon.oid = con.connamespace
     JOIN pg_class c ON con.conrelid = c.oid AND con.contype = 'f'::"char"
-    LEFT JOIN pg_depend d1 ON d1.objid = con.oid AND d1.classid = 'pg_constraint'::regclass::oid AND d1.refclassid = 'pg_class'::regclass::oid AND d1.refobjsubid = 0
-    LEFT JOIN pg_depend d2 ON d2.refclassid = 'pg_constraint'::regclass::oid AND d2.classid = 'pg_class'::regclass::oid AND d2.objid = d1.refobjid AND d2.objsubid = 0 AND d2.deptype = 'i'::"char"
-    LEFT JOIN pg_class fc ON con.confrelid = fc.oid
-    LEFT JOIN pg_constraint pkc ON pkc.oid = d2.refobjid AND (pkc.contype = ANY (ARRAY['p'::"char", 'u'::"char"])) AND pkc.conrelid = con.confrelid
-    LEFT JOIN pg_namespace npkc ON pkc.connamespace = npkc.oid
+    JOIN pg_class fc ON con.confrelid = fc.oid
+    JOIN pg_namespace nfc ON fc.relnamespace = nfc.oid
 WHERE (pg_has_role(c.relowner, 'USAGE') OR has_table_privilege(c.oid, 'INSERT, UPDATE, DELETE, TRUNCATE, REFERENCES, TRIGGER') OR has_any_column_privilege(c.oid, 'INSERT, UPDATE, REFERENCES'))
   AND ncon.nspname = ANY($1);
diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index 8e58101..aa12470 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -26,6 +26,7 @@ FROM pg_catalog.pg_index pi
     JOIN pg_catalog.pg_namespace pn ON pc_index.relnamespace = pn.oid
     JOIN pg_catalog.pg_class pc_table ON pc_table.oid = pi.indrelid
     JOIN pg_am am ON am.oid=pc_index.relam
-    LEFT JOIN pg_catalog.pg_constraint pc ON pc.conindid = pc_index.oid
+    LEFT JOIN pg_catalog.pg_constraint pc
+        ON pc.conindid = pc_index.oid AND pc.contype IN ('p', 'u', 'x')
 WHERE pc.oid IS NULL
     AND pn.nspname = ANY($1);
-- 
2.43.0


From be46f4a6ed828d3f25f6633f2042292c92206b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 37/48] fix: clone does not take fixed-length types with
 elements for arrays

---
 src/introspection/column.sql | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 999b489..c6241f6 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -12,7 +12,7 @@ SELECT
     a.attnotnull OR t.typtype = 'd' AND t.typnotnull
         AS "not_null",
     CASE
-        WHEN t.typelem <> 0 THEN (SELECT eltype.typname FROM pg_type eltype WHERE eltype.oid = t.typelem) 
+        WHEN t.typelem <> 0 AND t.typlen = -1 THEN (SELECT eltype.typname FROM pg_type eltype WHERE eltype.oid = t.typelem) 
         ELSE t.typname
     END 
     ||
@@ -43,7 +43,7 @@ SELECT
     ELSE ''
     END
     ||
-    CASE WHEN t.typelem <> 0 THEN '[]' ELSE '' END
+    CASE WHEN t.typelem <> 0 AND t.typlen = -1 THEN '[]' ELSE '' END
         AS "data_type"
 FROM pg_attribute a
     LEFT JOIN pg_attrdef ad ON a.attrelid = ad.adrelid AND a.attnum = ad.adnum
-- 
2.43.0


From 5c25ffc508994da003be6f4fd4bb35dd3f49af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 38/48] fix: clone writes valid types for timestamptz and
 timetz columns with a precision

---
 src/introspection/column.sql | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index c6241f6..d1dd2b6 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -17,7 +17,7 @@ SELECT
     END 
     ||
     CASE WHEN a.atttypmod != -1 THEN
-        CASE t.typname
+        replace(CASE t.typname
                 WHEN 'bpchar' THEN bpchartypmodout(a.atttypmod)
                 WHEN '_bpchar' THEN bpchartypmodout(a.atttypmod)
                 WHEN 'varchar' THEN varchartypmodout(a.atttypmod)
@@ -39,7 +39,7 @@ SELECT
                 WHEN 'numeric' THEN numerictypmodout(a.atttypmod)
                 WHEN '_numeric' THEN numerictypmodout(a.atttypmod)
                 ELSE null
-        END::TEXT
+        END::TEXT, ' with time zone', '')
     ELSE ''
     END
     ||
-- 
2.43.0


From 045c67535a05c7a7011163bb26eea4cf7813abe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 39/48] fix: quote the metadata schema

It is looked up by its exact name but was created unquoted, so with a name like "Podo" the second run found no schema of that name and tried to create it again.
---
 src/history/dbh.rs | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/history/dbh.rs b/src/history/dbh.rs
index fce4b44..032838d 100644
--- a/src/history/dbh.rs
+++ b/src/history/dbh.rs
@@ -1,6 +1,7 @@
 use postgres::Transaction;
 
 use crate::snapshot::changes::Change;
+use crate::util::sqlfmt::{sql_qa, sql_qn};
 
 use super::Version;
 
@@ -164,64 +165,68 @@ impl DBHistory {
 }
 
 fn format_create_schema_sql(schema: &str) -> String {
-    format!("CREATE SCHEMA {}", schema)
+    format!("CREATE SCHEMA {}", sql_qn(schema))
 }
 fn format_create_table_sql(schema: &str) -> String {
     format!(
-        "CREATE TABLE {}.version (
+        "CREATE TABLE {} (
     name VARCHAR(128) NOT NULL PRIMARY KEY,
-    previous VARCHAR(128) REFERENCES {}.version(name),
+    previous VARCHAR(128) REFERENCES {}(name),
     changes JSON NOT NULL,
     up TEXT[] NOT NULL,
     down TEXT[] NOT NULL,
     applied_at TIMESTAMP NOT NULL DEFAULT now(),
     applied_order SERIAL NOT NULL UNIQUE
 )",
-        schema, schema,
+        sql_qa(schema, "version"),
+        sql_qa(schema, "version"),
     )
 }
 fn format_lock_sql(schema: &str) -> String {
     format!(
-        "LOCK TABLE {}.version IN SHARE ROW EXCLUSIVE MODE",
-        schema
+        "LOCK TABLE {} IN SHARE ROW EXCLUSIVE MODE",
+        sql_qa(schema, "version")
     )
 }
 fn format_insert_version_sql(schema: &str) -> String {
     format!(
-        "INSERT INTO {}.version (name, previous, changes, up, down) VALUES ($1, $2, $3::TEXT::JSON, $4, $5)",
-        schema
+        "INSERT INTO {} (name, previous, changes, up, down) VALUES ($1, $2, $3::TEXT::JSON, $4, $5)",
+        sql_qa(schema, "version")
     )
 }
 
 fn format_current_version_sql(schema: &str) -> String {
     format!(
-        "SELECT name, previous, changes::TEXT, up, down, applied_at FROM {}.version ORDER BY applied_order DESC LIMIT 1",
-        schema
+        "SELECT name, previous, changes::TEXT, up, down, applied_at FROM {} ORDER BY applied_order DESC LIMIT 1",
+        sql_qa(schema, "version")
     )
 }
 
 fn format_delete_version_sql(schema: &str) -> String {
-    format!("DELETE FROM {}.version WHERE name = $1", schema)
+    format!(
+        "DELETE FROM {} WHERE name = $1",
+        sql_qa(schema, "version")
+    )
 }
 
 fn format_get_downward_range_sql(schema: &str) -> String {
     format!(
-        "SELECT name FROM {}.version WHERE $1 >= applied_order AND applied_order > $2 ORDER BY applied_order DESC",
-        schema
+        "SELECT name FROM {} WHERE $1 >= applied_order AND applied_order > $2 ORDER BY applied_order DESC",
+        sql_qa(schema, "version")
     )
 }
 
 fn format_get_applied_order_sql(schema: &str) -> String {
     format!(
-        "SELECT applied_order FROM {}.version WHERE name = $1",
-        schema
+        "SELECT applied_order FROM {} WHERE name = $1",
+        sql_qa(schema, "version")
     )
 }
 
 fn format_get_version_sql(schema: &str) -> String {
     format!(
-        "SELECT name, previous, changes::TEXT, up, down FROM {}.version WHERE name = $1",
-        schema
+        "SELECT name, previous, changes::TEXT, up, down FROM {} WHERE name = $1",
+        sql_qa(schema, "version")
     )
 }
 
-- 
2.43.0


From 5580cf4103acbfd992c652eb5180c5e46a8ce4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 40/48] fix: escape quotes in quoted names

---
 src/util/sqlfmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/sqlfmt.rs b/src/util/sqlfmt.rs
index 60d22fa..bdb4976 100644
--- a/src/util/sqlfmt.rs
+++ b/src/util/sqlfmt.rs
@@ -1,6 +1,6 @@
 // quoted name
 pub fn sql_qn(schema: &str) -> String {
-    format!("\"{}\"", schema)
+    format!("\"{}\"", schema.replace('"', "\"\""))
 }
 
 // quoted accessor
-- 
2.43.0


From 55230bbb38f62ecab5565cf2a122ebd7ec88478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 41/48] fix: drop a column default before the sequence it uses

---
 src/snapshot/diff.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index bbb51f1..4439cd8 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -36,6 +36,10 @@ fn change_order(change: &Change) -> (u8, &str, &str, &str) {
         Change::DropUniqueChange(c) => (4, &c.schema, &c.table, &c.constraint),
         Change::DropPrimaryKeyChange(c) => (5, &c.schema, &c.table, &c.constraint),
         Change::DropColumnChange(c) => (6, &c.schema, &c.table, ""),
+        // The default may have used a sequence that is dropped as well.
+        Change::AlterColumnSetDefaultChange(c) if c.default.is_none() => {
+            (6, &c.schema, &c.table, "")
+        }
         Change::DropTableChange(c) => (7, &c.schema, &c.table, ""),
         Change::DropFunctionChange(c) => (8, &c.schema, &c.function, ""),
         Change::DropSequenceChange(c) => (9, &c.schema, &c.sequence, ""),
-- 
2.43.0


From 307a41418a6c6931043fb7acff0c477a597aea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 42/48] fix: clone keeps the order of the columns of composite
 keys

The aggregated column names had no defined order.
---
 src/introspection/foreignkey.sql | 8 ++++----
 src/introspection/primarykey.sql | 4 ++--
 src/introspection/unique.sql     | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/introspection/foreignkey.sql b/src/introspection/foreignkey.sql
index 8b26642..ec667ce 100644
--- a/src/introspection/foreignkey.sql
+++ b/src/introspection/foreignkey.sql
@@ -3,16 +3,16 @@ SELECT
     con.conname AS constraint_name,
     c.relname AS constraint_table_name,
     (
-			SELECT array_agg(pa.attname)
-			FROM UNNEST(con.conkey) ck(attnum)
+			SELECT array_agg(pa.attname ORDER BY ck.ord)
+			FROM UNNEST(con.conkey) WITH ORDINALITY ck(attnum, ord)
 			JOIN pg_catalog.pg_attribute pa ON pa.attrelid = con.conrelid AND pa.attnum = ck.attnum
 		) AS table_columns,
 
     nfc.nspname AS target_schema,
     fc.relname AS target_table_name,
 	(
-		SELECT array_agg(pa.attname)
-		FROM UNNEST(con.confkey) ck(attnum)
+		SELECT array_agg(pa.attname ORDER BY ck.ord)
+		FROM UNNEST(con.confkey) WITH ORDINALITY ck(attnum, ord)
 		JOIN pg_catalog.pg_attribute pa ON pa.attrelid = con.confrelid AND pa.attnum = ck.attnum
 	) AS target_columns,
 	con.condeferrable AS constraint_deferrable,
diff --git a/src/introspection/primarykey.sql b/src/introspection/primarykey.sql
index fe4e228..f370f0b 100644
--- a/src/introspection/primarykey.sql
+++ b/src/introspection/primarykey.sql
@@ -4,8 +4,8 @@ SELECT
     nr.nspname AS table_schema,
     r.relname AS table_name,
     (
-        SELECT array_agg(pa.attname)
-        FROM UNNEST(c.conkey) ck(attnum)
+        SELECT array_agg(pa.attname ORDER BY ck.ord)
+        FROM UNNEST(c.conkey) WITH ORDINALITY ck(attnum, ord)
         JOIN pg_catalog.pg_attribute pa ON pa.attrelid = c.conrelid AND pa.attnum = ck.attnum
     ) AS table_columns,
     c.condeferrable
diff --git a/src/introspection/unique.sql b/src/introspection/unique.sql
index afa267a..7b12ffa 100644
--- a/src/introspection/unique.sql
+++ b/src/introspection/unique.sql
@@ -4,8 +4,8 @@ SELECT
     nr.nspname AS table_schema,
     r.relname AS table_name,
     (
-        SELECT array_agg(pa.attname)
-        FROM UNNEST(c.conkey) ck(attnum)
+        SELECT array_agg(pa.attname ORDER BY ck.ord)
+        FROM UNNEST(c.conkey) WITH ORDINALITY ck(attnum, ord)
         JOIN pg_catalog.pg_attribute pa ON pa.attrelid = c.conrelid AND pa.attnum = ck.attnum
     ) AS table_columns,
     c.condeferrable
-- 
2.43.0


From 910adfb865313403ff73f4dd85f75b6e4ddf929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:41 +0000
Subject: [PATCH 43/48] fix: status lists what the stage will execute

Statements a user added to the stage were not listed, and a stage with
nothing else was reported as 'No changes.'.
---
 src/cmd/status.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cmd/status.rs b/src/cmd/status.rs
index ec1197a..0e9aa15 100644
--- a/src/cmd/status.rs
+++ b/src/cmd/status.rs
@@ -33,10 +33,10 @@ pub fn status(profile_name: &str) -> Result<(), AnyError> {
         Err(e) => println!("On database version: {}", e.to_string().red()),
     }
 
-    if fsh_stage_version.changes.len() > 0 {
+    if !fsh_stage_version.is_empty() {
         println!("Changes staged:");
-        for change in &fsh_stage_version.changes {
-            println!("    {}", change.render_sql().green());
+        for stmt in &fsh_stage_version.up {
+            println!("    {}", stmt.green());
         }
     }
 
@@ -48,7 +48,7 @@ pub fn status(profile_name: &str) -> Result<(), AnyError> {
         }
     }
 
-    if fsh_stage_version.changes.len() == 0 && changes_not_staged.len() == 0 {
+    if fsh_stage_version.is_empty() && changes_not_staged.len() == 0 {
         println!("No changes.");
     }
 
-- 
2.43.0


From cf0f3c1616a430f6da42a6f8bf3999244064bd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:36 +0000
Subject: [PATCH 44/48] fix: files whose names are not UTF-8 do not crash
 commands

---
 src/history/fsh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index fd1fd62..bcee1a7 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -44,7 +44,7 @@ impl FSHistory {
         for entry in dir_entries {
             let entry = entry?;
             let filetype = entry.file_type()?;
-            let filename = entry.file_name().to_str().unwrap().to_owned();
+            let filename = entry.file_name().to_string_lossy().into_owned();
 
             if filetype.is_dir() {
                 continue;
-- 
2.43.0


From 9665a915ff60fe958736c630d06b9a1c889f836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:29 +0000
Subject: [PATCH 45/48] fix: keys and indexes over no column are refused like
 unique constraints

---
 src/definition/ddl/foreignkey.rs | 2 +-
 src/definition/ddl/index.rs      | 2 +-
 src/definition/ddl/primarykey.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/definition/ddl/foreignkey.rs b/src/definition/ddl/foreignkey.rs
index 58e0526..91620ab 100644
--- a/src/definition/ddl/foreignkey.rs
+++ b/src/definition/ddl/foreignkey.rs
@@ -56,7 +56,7 @@ pub fn parse_foreign_key_constraint_definition(
             errors.push(e);
         }
     }
-    if columns.is_none() {
+    if columns.as_ref().map_or(true, |v| v.is_empty()) {
         errors.push(Error::new_attribute_required(n, "columns"));
     }
     if target_schema.is_none() || target_table.is_none() || target_columns.is_empty() {
diff --git a/src/definition/ddl/index.rs b/src/definition/ddl/index.rs
index 1e4f901..0da926d 100644
--- a/src/definition/ddl/index.rs
+++ b/src/definition/ddl/index.rs
@@ -45,7 +45,7 @@ pub fn parse_index_definition(ctx: &Context, n: &Node) -> Result<Index, Error> {
     if method.is_none() {
         method = Some(defaults::get_default_index_method());
     }
-    if table_name.is_none() || key_expressions.is_none() {
+    if table_name.is_none() || key_expressions.as_ref().map_or(true, |v| v.is_empty()) {
         errors.push(Error::new_attribute_required(n, "on"));
     }
 
diff --git a/src/definition/ddl/primarykey.rs b/src/definition/ddl/primarykey.rs
index 6922d28..d6616cc 100644
--- a/src/definition/ddl/primarykey.rs
+++ b/src/definition/ddl/primarykey.rs
@@ -39,7 +39,7 @@ pub fn parse_primary_key_definition(
         }
     }
 
-    if columns.is_none() {
+    if columns.as_ref().map_or(true, |v| v.is_empty()) {
         errors.push(Error::new_attribute_required(n, "primary key"));
     }
     if deferrable.is_none() {
-- 
2.43.0


From e3dc6be05671f60542e5d8a70d579ac5040c5be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:29 +0000
Subject: [PATCH 46/48] fix: checks without expression and views without query
 are refused

---
 src/definition/ddl/check.rs | 2 +-
 src/definition/ddl/view.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/definition/ddl/check.rs b/src/definition/ddl/check.rs
index b6eab1f..4d24f45 100644
--- a/src/definition/ddl/check.rs
+++ b/src/definition/ddl/check.rs
@@ -41,7 +41,7 @@ pub fn parse_check_constraint_definition(
         }
     }
 
-    if expression.is_none() {
+    if expression.as_ref().map_or(true, |v| v.trim().is_empty()) {
         errors.push(Error::new_attribute_required(n, "expression"));
     }
     if deferrable.is_none() {
diff --git a/src/definition/ddl/view.rs b/src/definition/ddl/view.rs
index 75eeba5..47358fe 100644
--- a/src/definition/ddl/view.rs
+++ b/src/definition/ddl/view.rs
@@ -26,7 +26,7 @@ pub fn parse_view_definition(ctx: &Context, n: &Node) -> Result<View, Error> {
         }
     }
 
-    if query.is_none() {
+    if query.as_ref().map_or(true, |v| v.trim().is_empty()) {
         errors.push(Error::new_attribute_required(n, "as"));
     }
 
-- 
2.43.0


From 4f9636126e23fa715f552eb97c0fc12e1b1974d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:03 +0000
Subject: [PATCH 47/48] fix: files that are links stay links and keep their
 permissions when they are replaced

---
 src/util/fs.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/util/fs.rs b/src/util/fs.rs
index 6f50027..93ef61c 100644
--- a/src/util/fs.rs
+++ b/src/util/fs.rs
@@ -1,20 +1,22 @@
 use std::{
     ffi::OsString,
-    fs::{self, File},
+    fs::{self, File, Permissions},
     io::{self, Write},
     path::Path,
 };
 
 /// Replaces the content of a file so that, whatever happens meanwhile, the file has either its old
-/// or its complete new content.
+/// or its complete new content. A link to a file stays a link, and the permissions stay the same.
 pub fn write_atomic(path: &Path, content: &[u8]) -> io::Result<()> {
+    let path = &fs::canonicalize(path).unwrap_or(path.to_path_buf());
     let dir = path.parent().unwrap_or(Path::new("."));
     let mut temp_name = OsString::from(".");
     temp_name.push(path.file_name().unwrap_or_default());
     temp_name.push(".tmp");
     let temp_path = dir.join(temp_name);
 
-    let res = write_synced(&temp_path, content).and_then(|_| fs::rename(&temp_path, path));
+    let permissions = fs::metadata(path).map(|m| m.permissions()).ok();
+    let res = write_synced(&temp_path, content, permissions).and_then(|_| fs::rename(&temp_path, path));
     if res.is_err() {
         let _ = fs::remove_file(&temp_path);
         return res;
@@ -22,8 +24,11 @@ pub fn write_atomic(path: &Path, content: &[u8]) -> io::Result<()> {
     File::open(dir)?.sync_all()
 }
 
-fn write_synced(path: &Path, content: &[u8]) -> io::Result<()> {
+fn write_synced(path: &Path, content: &[u8], permissions: Option<Permissions>) -> io::Result<()> {
     let mut file = File::create(path)?;
+    if let Some(permissions) = permissions {
+        file.set_permissions(permissions)?;
+    }
     file.write_all(content)?;
     file.sync_all()
 }
-- 
2.43.0


From 7b6bbc8410698014a1d73c8ffa4f1af871bfa0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:51 +0000
Subject: [PATCH 48/48] fix: DROP FUNCTION leaves out the defaults of the
 arguments

---
 .../changes/function/drop_function_change.rs  |  7 ++-
 src/util/sqlfmt.rs                            | 47 +++++++++++++++++++
 2 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/src/snapshot/changes/function/drop_function_change.rs b/src/snapshot/changes/function/drop_function_change.rs
index fcf52bb..23fbdcb 100644
--- a/src/snapshot/changes/function/drop_function_change.rs
+++ b/src/snapshot/changes/function/drop_function_change.rs
@@ -1,6 +1,6 @@
 use super::{super::Change, CreateFunctionChange};
 use crate::snapshot::{Database, Function, SnapshotError};
-use crate::util::sqlfmt::sql_qf;
+use crate::util::sqlfmt::sql_qf_without_defaults;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -25,7 +25,10 @@ impl DropFunctionChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("DROP FUNCTION {}", sql_qf(&self.schema, &self.function),) + ";"
+        format!(
+            "DROP FUNCTION {}",
+            sql_qf_without_defaults(&self.schema, &self.function),
+        ) + ";"
     }
 
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/util/sqlfmt.rs b/src/util/sqlfmt.rs
index bdb4976..2f7d4ed 100644
--- a/src/util/sqlfmt.rs
+++ b/src/util/sqlfmt.rs
@@ -16,6 +16,53 @@ pub fn sql_qf(schema: &str, function: &str) -> String {
     }
 }
 
+// quoted function signature without the defaults of the arguments, which DROP FUNCTION does not take
+pub fn sql_qf_without_defaults(schema: &str, function: &str) -> String {
+    let mut kept = String::new();
+    let mut word = String::new();
+    let mut quote = None;
+    let mut depth = 0;
+    let mut in_default = false;
+
+    for c in sql_qf(schema, function).chars() {
+        let in_args = depth == 1 && quote.is_none();
+        let in_word = c.is_alphanumeric() || c == '_' || c == '$';
+
+        if in_args && (c == ',' || c == ')') {
+            in_default = false;
+        } else if in_args && !in_default {
+            if !in_word && word.eq_ignore_ascii_case("default") {
+                kept.truncate(kept.len() - word.len());
+                in_default = true;
+            }
+            if in_default || c == '=' {
+                kept.truncate(kept.trim_end().len());
+                in_default = true;
+            }
+        }
+
+        if in_args && in_word {
+            word.push(c);
+        } else {
+            word.clear();
+        }
+        match quote {
+            Some(q) if q == c => quote = None,
+            Some(_) => {}
+            None => match c {
+                '\'' | '"' => quote = Some(c),
+                '(' | '[' => depth += 1,
+                ')' | ']' => depth -= 1,
+                _ => {}
+            },
+        }
+        if !in_default {
+            kept.push(c);
+        }
+    }
+    kept
+}
+
 // dollar quoted string, with a tag that does not occur in the string
 pub fn sql_dq(s: &str) -> String {
     let mut tag = "$$".to_owned();
-- 
2.43.0

