From 8f968b44f4c979795e25c57c5e163081da82eeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 01/54] fix: detect changes of an index's table, uniqueness and
 method

---
 src/snapshot/diff.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 56a32fe..029639c 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -448,7 +448,11 @@ fn diff_index_create(t: &Index) -> Changeset {
 fn diff_index_update(s: &Index, t: &Index) -> Changeset {
     let mut changes = Changeset::new();
 
-    if s.key_expressions != t.key_expressions {
+    if s.table_name != t.table_name
+        || s.unique != t.unique
+        || s.method != t.method
+        || s.key_expressions != t.key_expressions
+    {
         changes.push(DropIndexChange::new(s));
         changes.push(CreateIndexChange::new(t));
     }
-- 
2.43.0


From a57b1bcca64a67fd7b90d8cff278fcbab9dc26d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 02/54] fix: ADD COLUMN emits NOT NULL for not-null columns
 only

---
 src/snapshot/changes/column/add_column_change.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snapshot/changes/column/add_column_change.rs b/src/snapshot/changes/column/add_column_change.rs
index bb62237..1fc3800 100644
--- a/src/snapshot/changes/column/add_column_change.rs
+++ b/src/snapshot/changes/column/add_column_change.rs
@@ -49,7 +49,7 @@ impl AddColumnChange {
             sql_qn(&self.column),
             self.data_type,
         )];
-        if !self.not_null {
+        if self.not_null {
             tokens.push("NOT NULL".to_string());
         }
         if let Some(default) = &self.default {
-- 
2.43.0


From 71de432ebafb2932ea44fa248af033bb70cf85b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 03/54] fix: CREATE TABLE emits NOT NULL for not-null columns

---
 src/snapshot/changes/table/create_table_change.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/snapshot/changes/table/create_table_change.rs b/src/snapshot/changes/table/create_table_change.rs
index a16fcf7..014bbd2 100644
--- a/src/snapshot/changes/table/create_table_change.rs
+++ b/src/snapshot/changes/table/create_table_change.rs
@@ -68,8 +68,8 @@ impl CreateTableChange {
             sql_qa(&self.schema, &self.table),
             sql_l(self.columns.iter().map(|c| {
                 let mut tokens = vec![sql_qn(&c.name), c.data_type.clone()];
-                if !c.not_null {
-                    tokens.push("NULL".to_string());
+                if c.not_null {
+                    tokens.push("NOT NULL".to_string());
                 }
                 if let Some(default) = &c.default {
                     tokens.push(format!("DEFAULT {}", default));
-- 
2.43.0


From 94b200c78c18114a793ed94944c91e976822d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 04/54] fix: ADD FOREIGN KEY renders MATCH, ON UPDATE, ON
 DELETE and deferrability

---
 .../changes/foreignkey/add_foreign_key_change.rs     | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/changes/foreignkey/add_foreign_key_change.rs b/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
index 940c8ac..db5f5ae 100644
--- a/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
+++ b/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
@@ -64,7 +64,7 @@ impl AddForeignKeyChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ADD CONSTRAINT {} FOREIGN KEY ({}) REFERENCES {} ({}) {} {} {}",
+            "ALTER TABLE {} ADD CONSTRAINT {} FOREIGN KEY ({}) REFERENCES {} ({}) MATCH {} ON UPDATE {} ON DELETE {} {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             sql_ql(&self.columns),
@@ -73,6 +73,16 @@ impl AddForeignKeyChange {
             self.match_option,
             self.update_rule,
             self.delete_rule,
+            if self.deferrable {
+                "DEFERRABLE"
+            } else {
+                "NOT DEFERRABLE"
+            },
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
+            },
         ) + ";"
     }
 
-- 
2.43.0


From 3f8c21b9fc12af5ec1c172bb7d92258d78314372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 05/54] fix: ALTER CONSTRAINT renders the recorded
 initially-deferred setting

---
 src/snapshot/changes/check/alter_check_change.rs      | 11 ++++++++---
 .../changes/foreignkey/alter_foreign_key_change.rs    | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/snapshot/changes/check/alter_check_change.rs b/src/snapshot/changes/check/alter_check_change.rs
index a9b15c9..440c462 100644
--- a/src/snapshot/changes/check/alter_check_change.rs
+++ b/src/snapshot/changes/check/alter_check_change.rs
@@ -36,13 +36,18 @@ impl AlterCheckChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ALTER CONSTRAINT {} {}",
+            "ALTER TABLE {} ALTER CONSTRAINT {} {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             if self.deferrable {
-                "DEFERRABLE INITIALLY DEFERRED"
+                "DEFERRABLE"
             } else {
-                "NOT DEFERRABLE INITIALLY IMMEDIATE"
+                "NOT DEFERRABLE"
+            },
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
             },
         )
     }
diff --git a/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs b/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
index 90f56e3..e73b8ce 100644
--- a/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
+++ b/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
@@ -38,13 +38,18 @@ impl AlterForeignKeyChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ALTER CONSTRAINT {} {}",
+            "ALTER TABLE {} ALTER CONSTRAINT {} {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             if self.deferrable {
-                "DEFERRABLE INITIALLY DEFERRED"
+                "DEFERRABLE"
             } else {
-                "NOT DEFERRABLE INITIALLY IMMEDIATE"
+                "NOT DEFERRABLE"
+            },
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
             },
         )
     }
-- 
2.43.0


From 7398dc4f1bacb9608b7abd0624a6b2f7de1e6098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 06/54] fix: escape double quotes inside quoted identifiers

---
 src/util/sqlfmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/sqlfmt.rs b/src/util/sqlfmt.rs
index eae728d..7173458 100644
--- a/src/util/sqlfmt.rs
+++ b/src/util/sqlfmt.rs
@@ -1,6 +1,6 @@
 // quoted name
 pub fn sql_qn(schema: &str) -> String {
-    format!("\"{}\"", schema)
+    format!("\"{}\"", schema.replace('"', "\"\""))
 }
 
 // quoted accessor
-- 
2.43.0


From 6792e463fcc544cc92f73c4c5d32cc1f098a4dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 07/54] fix: quote the schema name in CREATE/DROP SCHEMA

---
 src/snapshot/changes/schema/create_schema_change.rs | 7 +++++--
 src/snapshot/changes/schema/drop_schema_change.rs   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/snapshot/changes/schema/create_schema_change.rs b/src/snapshot/changes/schema/create_schema_change.rs
index 0d6a1dd..a07f402 100644
--- a/src/snapshot/changes/schema/create_schema_change.rs
+++ b/src/snapshot/changes/schema/create_schema_change.rs
@@ -1,5 +1,8 @@
 use super::DropSchemaChange;
-use crate::snapshot::{changes::Change, Database, Schema, SnapshotError};
+use crate::{
+    snapshot::{changes::Change, Database, Schema, SnapshotError},
+    util::sqlfmt::sql_qn,
+};
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -20,7 +23,7 @@ impl CreateSchemaChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("CREATE SCHEMA {};", self.schema_name)
+        format!("CREATE SCHEMA {};", sql_qn(&self.schema_name))
     }
 
     pub fn revert(&self, source: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/snapshot/changes/schema/drop_schema_change.rs b/src/snapshot/changes/schema/drop_schema_change.rs
index 5bc92e8..49daf31 100644
--- a/src/snapshot/changes/schema/drop_schema_change.rs
+++ b/src/snapshot/changes/schema/drop_schema_change.rs
@@ -1,5 +1,8 @@
 use super::CreateSchemaChange;
-use crate::snapshot::{changes::Change, Database, Schema, SnapshotError};
+use crate::{
+    snapshot::{changes::Change, Database, Schema, SnapshotError},
+    util::sqlfmt::sql_qn,
+};
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -20,7 +23,7 @@ impl DropSchemaChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("DROP SCHEMA {};", self.schema_name)
+        format!("DROP SCHEMA {};", sql_qn(&self.schema_name))
     }
 
     pub fn revert(&self, source: &Database) -> Result<Change, SnapshotError> {
-- 
2.43.0


From 63f17e46aee768bdf293b8b035340ebe1d168e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 08/54] fix: quote the metadata schema in history SQL

---
 src/history/dbh.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/history/dbh.rs b/src/history/dbh.rs
index 10efbd8..ab60538 100644
--- a/src/history/dbh.rs
+++ b/src/history/dbh.rs
@@ -1,6 +1,6 @@
 use postgres::Transaction;
 
-use crate::snapshot::changes::Change;
+use crate::{snapshot::changes::Change, util::sqlfmt::sql_qn};
 
 use super::Version;
 
@@ -158,7 +158,7 @@ impl DBHistory {
 }
 
 fn format_create_schema_sql(schema: &str) -> String {
-    format!("CREATE SCHEMA {}", schema)
+    format!("CREATE SCHEMA {}", sql_qn(schema))
 }
 fn format_create_table_sql(schema: &str) -> String {
     format!(
@@ -171,45 +171,46 @@ fn format_create_table_sql(schema: &str) -> String {
     applied_at TIMESTAMP NOT NULL DEFAULT now(),
     applied_order SERIAL NOT NULL UNIQUE
 )",
-        schema, schema,
+        sql_qn(schema),
+        sql_qn(schema),
     )
 }
 fn format_insert_version_sql(schema: &str) -> String {
     format!(
         "INSERT INTO {}.version (name, previous, changes, up, down) VALUES ($1, $2, $3::TEXT::JSON, $4, $5)",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_current_version_sql(schema: &str) -> String {
     format!(
         "SELECT name, previous, changes::TEXT, up, down, applied_at FROM {}.version ORDER BY applied_order DESC LIMIT 1",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_delete_version_sql(schema: &str) -> String {
-    format!("DELETE FROM {}.version WHERE name = $1", schema)
+    format!("DELETE FROM {}.version WHERE name = $1", sql_qn(schema))
 }
 
 fn format_get_downward_range_sql(schema: &str) -> String {
     format!(
         "SELECT name FROM {}.version WHERE $1 >= applied_order AND applied_order > $2 ORDER BY applied_order DESC",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_get_applied_order_sql(schema: &str) -> String {
     format!(
         "SELECT applied_order FROM {}.version WHERE name = $1",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_get_version_sql(schema: &str) -> String {
     format!(
         "SELECT name, previous, changes::TEXT, up, down FROM {}.version WHERE name = $1",
-        schema
+        sql_qn(schema)
     )
 }
 
-- 
2.43.0


From fd979ec313b9d4bb675409bd259d2e58758e5c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 09/54] fix: render CREATE/DROP FUNCTION as valid SQL

---
 .../changes/function/create_functon_change.rs       |  8 ++++----
 .../changes/function/drop_function_change.rs        |  4 ++--
 src/util/sqlfmt.rs                                  | 13 +++++++++++++
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/snapshot/changes/function/create_functon_change.rs b/src/snapshot/changes/function/create_functon_change.rs
index d747d14..2762a8c 100644
--- a/src/snapshot/changes/function/create_functon_change.rs
+++ b/src/snapshot/changes/function/create_functon_change.rs
@@ -1,6 +1,6 @@
 use super::{super::Change, DropFunctionChange};
 use crate::snapshot::{Database, Function, SnapshotError};
-use crate::util::sqlfmt::sql_qa;
+use crate::util::sqlfmt::{sql_qf, sql_str};
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -41,12 +41,12 @@ impl CreateFunctionChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "CREATE FUNCTION {} {} RETURNS {} LANGUAGE {} {}",
-            sql_qa(&self.schema, &self.function),
-            self.body,
+            "CREATE FUNCTION {} RETURNS {} LANGUAGE {} {} AS {}",
+            sql_qf(&self.schema, &self.function),
             self.returns,
             self.language,
             self.volatility,
+            sql_str(&self.body),
         ) + ";"
     }
 
diff --git a/src/snapshot/changes/function/drop_function_change.rs b/src/snapshot/changes/function/drop_function_change.rs
index a5e2dd9..fcf52bb 100644
--- a/src/snapshot/changes/function/drop_function_change.rs
+++ b/src/snapshot/changes/function/drop_function_change.rs
@@ -1,6 +1,6 @@
 use super::{super::Change, CreateFunctionChange};
 use crate::snapshot::{Database, Function, SnapshotError};
-use crate::util::sqlfmt::sql_qa;
+use crate::util::sqlfmt::sql_qf;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -25,7 +25,7 @@ impl DropFunctionChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("DROP FUNCTION {}", sql_qa(&self.schema, &self.function),) + ";"
+        format!("DROP FUNCTION {}", sql_qf(&self.schema, &self.function),) + ";"
     }
 
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/util/sqlfmt.rs b/src/util/sqlfmt.rs
index 7173458..8ba9498 100644
--- a/src/util/sqlfmt.rs
+++ b/src/util/sqlfmt.rs
@@ -8,6 +8,19 @@ pub fn sql_qa(schema: &str, relation: &str) -> String {
     format!("{}.{}", sql_qn(schema), sql_qn(relation))
 }
 
+// quoted function accessor: the definition name carries the argument list
+pub fn sql_qf(schema: &str, function: &str) -> String {
+    match function.split_once('(') {
+        Some((name, args)) => format!("{}({}", sql_qa(schema, name.trim_end()), args),
+        None => format!("{}()", sql_qa(schema, function)),
+    }
+}
+
+// string literal
+pub fn sql_str(s: &str) -> String {
+    format!("'{}'", s.replace('\'', "''"))
+}
+
 // quoted list
 pub fn sql_ql<I, S>(names: I) -> String
 where
-- 
2.43.0


From 55fb24988248e1f9afe0a0339b62317245cce461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 10/54] fix: recognise the "increment" and "using" definition
 keywords

---
 src/definition/base/yaml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index a2cd5e1..3f12c6d 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -5,7 +5,7 @@ use super::{
     error::Error,
 };
 
-static KEYWORDS: [&str; 33] = [
+static KEYWORDS: [&str; 35] = [
     "foreign key",
     "initially deferred",
     "not null",
@@ -23,6 +23,7 @@ static KEYWORDS: [&str; 33] = [
     "deferrable",
     "function",
     "volatility",
+    "increment",
     "index",
     "language",
     "match",
@@ -38,6 +39,7 @@ static KEYWORDS: [&str; 33] = [
     "table",
     "type",
     "unique",
+    "using",
     "view",
 ];
 
-- 
2.43.0


From 27a7ee7aeb30526834e0396d80db05ef0df8ef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 11/54] fix: report malformed index definitions instead of
 panicking

---
 src/definition/ddl/index.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/definition/ddl/index.rs b/src/definition/ddl/index.rs
index 198cbc9..1e4f901 100644
--- a/src/definition/ddl/index.rs
+++ b/src/definition/ddl/index.rs
@@ -49,6 +49,10 @@ pub fn parse_index_definition(ctx: &Context, n: &Node) -> Result<Index, Error> {
         errors.push(Error::new_attribute_required(n, "on"));
     }
 
+    if !errors.is_empty() {
+        return Err(Error::new_has_errors(n, errors));
+    }
+
     Ok(Index {
         schema_name: ctx.schema_name.clone(),
         table_name: table_name.unwrap(),
-- 
2.43.0


From 406388232f522ea478933a1bf9c79e032a868fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 12/54] fix: report constraints without a kind instead of
 panicking

---
 src/definition/ddl/constraint.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/definition/ddl/constraint.rs b/src/definition/ddl/constraint.rs
index d1a4560..b07ff17 100644
--- a/src/definition/ddl/constraint.rs
+++ b/src/definition/ddl/constraint.rs
@@ -42,10 +42,13 @@ pub fn parse_constraint_definition(
                 let def = parse_check_constraint_definition(schema_name, table_name, n)?;
                 return Ok(Constraint::Check(def));
             }
-            _ => unreachable!(),
+            _ => continue,
         }
     }
-    unreachable!()
+    Err(Error::new_attribute_required(
+        n,
+        "primary key, unique, foreign key or check",
+    ))
 }
 
 pub fn render_constraint_definition(ctx: &Context, c: &Constraint) -> Node {
-- 
2.43.0


From 8f6944535f2fab7e63e7916788c7d44b651ff6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 13/54] fix: render snapshot errors instead of panicking

---
 src/snapshot/error.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/error.rs b/src/snapshot/error.rs
index 5f30cbd..251dfc0 100644
--- a/src/snapshot/error.rs
+++ b/src/snapshot/error.rs
@@ -104,7 +104,25 @@ impl SnapshotError {
 
 impl std::fmt::Display for SnapshotError {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        panic!("unimplemented")
+        match self {
+            SnapshotError::ObjectNotFound { path, r#type } => {
+                write!(f, "{} not found: {}", r#type, path.join("."))
+            }
+            SnapshotError::ObjectAlreadyExists { path, r#type } => {
+                write!(f, "{} already exists: {}", r#type, path.join("."))
+            }
+            SnapshotError::ObjectHasUnexpectedType {
+                path,
+                expected,
+                actual,
+            } => write!(
+                f,
+                "{} is not a {} but a {}",
+                path.join("."),
+                expected,
+                actual
+            ),
+        }
     }
 }
 
-- 
2.43.0


From f4526a3f6e60822b7714235ee87d6b2ac44bb957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 14/54] fix: report duplicate objects in a definition instead
 of panicking

---
 src/definition/ddl/error.rs  | 13 +++++++++++++
 src/definition/ddl/schema.rs |  4 ++--
 src/definition/ddl/table.rs  |  4 ++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/definition/ddl/error.rs b/src/definition/ddl/error.rs
index 04c5782..bc3976b 100644
--- a/src/definition/ddl/error.rs
+++ b/src/definition/ddl/error.rs
@@ -1,4 +1,5 @@
 use super::super::base::Node;
+use crate::snapshot::SnapshotError;
 
 #[derive(Debug, PartialEq)]
 pub enum Error {
@@ -32,6 +33,15 @@ pub enum Error {
         node_display_string: String,
         errors: Vec<Error>,
     },
+    Snapshot {
+        error: SnapshotError,
+    },
+}
+
+impl From<SnapshotError> for Error {
+    fn from(error: SnapshotError) -> Self {
+        Error::Snapshot { error }
+    }
 }
 
 impl Error {
@@ -136,6 +146,9 @@ impl std::fmt::Display for Error {
                 }
                 Ok(())
             }
+            Error::Snapshot { error } => {
+                write!(f, "{}", error)
+            }
         }
     }
 }
diff --git a/src/definition/ddl/schema.rs b/src/definition/ddl/schema.rs
index 9419292..ca79357 100644
--- a/src/definition/ddl/schema.rs
+++ b/src/definition/ddl/schema.rs
@@ -61,10 +61,10 @@ pub fn parse_schema_definition(n: &Node) -> Result<Schema, Error> {
 
     let mut schema = Schema::new(&name);
     for relation in relations {
-        schema.add_relation(relation).unwrap();
+        schema.add_relation(relation)?;
     }
     for function in functions {
-        schema.add_function(function).unwrap();
+        schema.add_function(function)?;
     }
 
     Ok(schema)
diff --git a/src/definition/ddl/table.rs b/src/definition/ddl/table.rs
index 3477ff7..b00a9e6 100644
--- a/src/definition/ddl/table.rs
+++ b/src/definition/ddl/table.rs
@@ -43,10 +43,10 @@ pub fn parse_table_definition(schema_name: &str, n: &Node) -> Result<Table, Erro
 
     let mut table = Table::new(schema_name, &name);
     for column in columns {
-        table.add_column(column).unwrap();
+        table.add_column(column)?;
     }
     for pk in constraints {
-        table.add_constraint(pk).unwrap();
+        table.add_constraint(pk)?;
     }
 
     Ok(table)
-- 
2.43.0


From bef0c9d0c2bf406dbca1970398c389462282bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 15/54] fix: report a non-schema top-level definition instead
 of panicking

---
 src/definition/ddl/schema.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/definition/ddl/schema.rs b/src/definition/ddl/schema.rs
index ca79357..c5ef0e7 100644
--- a/src/definition/ddl/schema.rs
+++ b/src/definition/ddl/schema.rs
@@ -21,7 +21,9 @@ use super::{
 };
 
 pub fn parse_schema_definition(n: &Node) -> Result<Schema, Error> {
-    assert_eq!(n.r#type, "schema");
+    if n.r#type != "schema" {
+        return Err(Error::new_unexpected_node(n));
+    }
 
     let name = coerce_name(n)?;
     let child_nodes = coerce_nodes(n)?;
-- 
2.43.0


From 7b359dbbb0b13e6dde90951c0f819e4c10701941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 16/54] fix: report a mapping inside a list instead of
 panicking

---
 src/definition/base/yaml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index 3f12c6d..af885dd 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -116,7 +116,7 @@ fn parse_serde_value_to_ddl_value(val: &serde_yaml::Value) -> Result<Value, Erro
             return Ok(Value::Boolean(*val_bool));
         }
         serde_yaml::Value::Mapping(_) => {
-            unreachable!()
+            return Err(Error::new(format!("Invalid value: {:?}", val)));
         }
         serde_yaml::Value::Sequence(val_sequence) => {
             let parsed = parse_serde_sequence_to_ddl_list(val_sequence)?;
-- 
2.43.0


From 1fd9046d70e6d1f18ab8a6c5d68cfb26fad28973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 17/54] fix: match definition keywords without slicing inside a
 character

---
 src/definition/base/yaml.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index af885dd..67edfee 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -78,7 +78,10 @@ fn create_node_from_mapping_key(key: &str) -> Result<Node, Error> {
 
     let mut found = false;
     for keyword in KEYWORDS.iter() {
-        if key.to_lowercase().starts_with(keyword) {
+        let matches = key
+            .get(..keyword.len())
+            .is_some_and(|head| head.eq_ignore_ascii_case(keyword));
+        if matches {
             node.r#type = keyword;
             found = true;
             break;
-- 
2.43.0


From 235b996f0e37f460ae0662bf99cbc3a1bf07b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 18/54] fix: report an unknown sequence type instead of
 panicking

---
 src/definition/ddl/sequence.rs | 28 ++++++++++++++++++----------
 src/definition/defaults.rs     | 24 ++++++++++++------------
 2 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/definition/ddl/sequence.rs b/src/definition/ddl/sequence.rs
index 33ac05f..83c570c 100644
--- a/src/definition/ddl/sequence.rs
+++ b/src/definition/ddl/sequence.rs
@@ -56,23 +56,31 @@ pub fn parse_sequence_definition(ctx: &Context, n: &Node) -> Result<Sequence, Er
         increment = Some(defaults::get_sequence_increment());
     }
     if min_value.is_none() {
-        min_value = Some(defaults::get_sequence_min_value(
+        min_value = defaults::get_sequence_min_value(
             increment.unwrap(),
             data_type.as_ref().unwrap(),
-        ));
+        );
     }
     if max_value.is_none() {
-        max_value = Some(defaults::get_sequence_max_value(
+        max_value = defaults::get_sequence_max_value(
             increment.unwrap(),
             data_type.as_ref().unwrap(),
+        );
+    }
+    if min_value.is_none() || max_value.is_none() {
+        errors.push(Error::new_invalid_type_attribute(
+            n,
+            "int2, int4 or int8 when minvalue and maxvalue are omitted",
         ));
     }
     if start.is_none() {
-        start = Some(defaults::get_sequence_start(
-            increment.unwrap(),
-            min_value.unwrap(),
-            max_value.unwrap(),
-        ));
+        if let (Some(min_value), Some(max_value)) = (min_value, max_value) {
+            start = Some(defaults::get_sequence_start(
+                increment.unwrap(),
+                min_value,
+                max_value,
+            ));
+        }
     }
     if cache.is_none() {
         cache = Some(defaults::get_sequence_cache());
@@ -109,10 +117,10 @@ pub fn render_sequence_definition(_ctx: &Context, def: &Sequence) -> Node {
     if def.increment != defaults::get_sequence_increment() {
         subnodes.push(Node::new("increment").with_number_integer_value(def.increment));
     }
-    if def.min_value != defaults::get_sequence_min_value(def.increment, &def.data_type) {
+    if Some(def.min_value) != defaults::get_sequence_min_value(def.increment, &def.data_type) {
         subnodes.push(Node::new("minvalue").with_number_integer_value(def.min_value));
     }
-    if def.max_value != defaults::get_sequence_max_value(def.increment, &def.data_type) {
+    if Some(def.max_value) != defaults::get_sequence_max_value(def.increment, &def.data_type) {
         subnodes.push(Node::new("maxvalue").with_number_integer_value(def.max_value));
     }
     if def.start != defaults::get_sequence_start(def.increment, def.min_value, def.max_value) {
diff --git a/src/definition/defaults.rs b/src/definition/defaults.rs
index ca8a973..f42b8f7 100644
--- a/src/definition/defaults.rs
+++ b/src/definition/defaults.rs
@@ -74,27 +74,27 @@ pub fn get_sequence_cycle() -> bool {
     false
 }
 
-pub fn get_sequence_min_value(increment: i64, data_type: &str) -> i64 {
+pub fn get_sequence_min_value(increment: i64, data_type: &str) -> Option<i64> {
     if increment >= 0 {
-        return 1;
+        return Some(1);
     }
     return match data_type {
-        "int2" => -32768,
-        "int4" => -2147483648,
-        "int8" => -9223372036854775808,
-        _ => panic!(r#"invalid sequence datatype: "{}""#, data_type),
+        "int2" => Some(-32768),
+        "int4" => Some(-2147483648),
+        "int8" => Some(-9223372036854775808),
+        _ => None,
     };
 }
 
-pub fn get_sequence_max_value(increment: i64, data_type: &str) -> i64 {
+pub fn get_sequence_max_value(increment: i64, data_type: &str) -> Option<i64> {
     if increment < 0 {
-        return -1;
+        return Some(-1);
     }
     return match data_type {
-        "int2" => 32767,
-        "int4" => 2147483647,
-        "int8" => 9223372036854775807,
-        _ => panic!(r#"invalid sequence datatype: "{}""#, data_type),
+        "int2" => Some(32767),
+        "int4" => Some(2147483647),
+        "int8" => Some(9223372036854775807),
+        _ => None,
     };
 }
 
-- 
2.43.0


From cf268ee5563438f660f608e8675717e1409a95c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 19/54] fix: render a sequence owner only when both parts are
 known

---
 src/definition/ddl/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definition/ddl/sequence.rs b/src/definition/ddl/sequence.rs
index 83c570c..6a16757 100644
--- a/src/definition/ddl/sequence.rs
+++ b/src/definition/ddl/sequence.rs
@@ -132,7 +132,7 @@ pub fn render_sequence_definition(_ctx: &Context, def: &Sequence) -> Node {
     if def.cycle != defaults::get_sequence_cycle() {
         subnodes.push(Node::new("cycle").with_boolean_value(def.cycle));
     }
-    if def.owned_by_table.is_some() && def.owned_by_table.is_some() {
+    if def.owned_by_table.is_some() && def.owned_by_column.is_some() {
         subnodes.push(
             Node::new("owned by")
                 .with_name(def.owned_by_table.as_ref().unwrap().clone())
-- 
2.43.0


From f1477067fe3e8fda207b3bc3f89039df6025dea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 20/54] fix: exit with a failure status when a command fails

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index b97e8f7..aa8d24f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -87,6 +87,7 @@ fn main() {
     };
     if let Err(e) = res {
         eprintln!("{}", e);
+        std::process::exit(1);
     }
 }
 
-- 
2.43.0


From 6f25981c6fd3a235c3d049ad24d74de98534e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 21/54] fix: declare --profile for the clone command

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index aa8d24f..28d9dce 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -58,6 +58,7 @@ fn main() {
         .subcommand(
           Command::new("clone")
           .about("inspects the database and creates snapshot and the initial migration")
+          .arg(clap::arg!(--"profile" <String>).default_value("database"))
         )
         .subcommand(
           Command::new("print")
-- 
2.43.0


From 976affe7c58e194823bf014dda725ed02bd9dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 22/54] fix: propagate database errors from up and down

---
 src/cmd/down.rs | 6 +++---
 src/cmd/up.rs   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cmd/down.rs b/src/cmd/down.rs
index 58b3f3d..5b73fc5 100644
--- a/src/cmd/down.rs
+++ b/src/cmd/down.rs
@@ -37,13 +37,13 @@ pub fn down(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     }
 
     for name in versions {
-        let v = dbh.get_version(&mut tx, &name).unwrap();
+        let v = dbh.get_version(&mut tx, &name)?;
         println!("  Reverting version {}", v.name.green());
         for stmt in &v.down {
-            tx.execute(stmt, &[]).unwrap();
+            tx.execute(stmt, &[])?;
             println!("    {}", stmt.dimmed());
         }
-        dbh.delete_version(&mut tx, &v).unwrap();
+        dbh.delete_version(&mut tx, &v)?;
     }
 
     tx.commit()?;
diff --git a/src/cmd/up.rs b/src/cmd/up.rs
index 4bc8edf..47448aa 100644
--- a/src/cmd/up.rs
+++ b/src/cmd/up.rs
@@ -42,10 +42,10 @@ pub fn up(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
         let v = fsh.get_version(&version_name)?;
         println!("  Applying version {}", v.name.green());
         for stmt in &v.up {
-            tx.execute(stmt, &[]).unwrap();
+            tx.execute(stmt, &[])?;
             println!("    {}", stmt.dimmed(),);
         }
-        dbh.save_version(&mut tx, &v).unwrap();
+        dbh.save_version(&mut tx, &v)?;
     }
 
     tx.commit()?;
-- 
2.43.0


From 8aeb74e0516dff29a7e4533af7fac0af2bb4d631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 23/54] fix: propagate revert errors from stage

---
 src/cmd/stage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd/stage.rs b/src/cmd/stage.rs
index a1164b6..f9675eb 100644
--- a/src/cmd/stage.rs
+++ b/src/cmd/stage.rs
@@ -30,7 +30,7 @@ pub fn stage(profile_name: &str) -> Result<(), AnyError> {
         );
 
         let up = change.render_sql();
-        let down = change.revert(&source_snapshot).unwrap().render_sql();
+        let down = change.revert(&source_snapshot)?.render_sql();
         change.apply(&mut source_snapshot)?;
 
         stage.add_change(change);
-- 
2.43.0


From f62d2d4aa1a2056c226f8b304cf88db78c71a9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 24/54] fix: revert a column rename from the pre-rename state

---
 src/snapshot/changes/column/rename_column_change.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/snapshot/changes/column/rename_column_change.rs b/src/snapshot/changes/column/rename_column_change.rs
index 2650e85..20b4d3b 100644
--- a/src/snapshot/changes/column/rename_column_change.rs
+++ b/src/snapshot/changes/column/rename_column_change.rs
@@ -44,13 +44,13 @@ impl RenameColumnChange {
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
         let schema = target.get_schema(&self.from_schema)?;
         let table = schema.get_relation(&self.from_table)?.as_table()?;
-        let column = table.get_column(&self.to_column)?;
+        let column = table.get_column(&self.from_column)?;
 
         Ok(RenameColumnChange {
             from_schema: schema.name.clone(),
             from_table: table.name.clone(),
-            from_column: column.name.clone(),
-            to_column: self.from_column.clone(),
+            from_column: self.to_column.clone(),
+            to_column: column.name.clone(),
         }
         .into())
     }
-- 
2.43.0


From 243dcfdea5e0479667f8e5d59ae4570343b78e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 25/54] fix: keep snapshot objects in a deterministic order

---
 src/snapshot/types/database.rs |  6 +++---
 src/snapshot/types/schema.rs   | 10 +++++-----
 src/snapshot/types/table.rs    |  6 +++---
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/snapshot/types/database.rs b/src/snapshot/types/database.rs
index 9ab1550..7bdfa10 100644
--- a/src/snapshot/types/database.rs
+++ b/src/snapshot/types/database.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::snapshot::error::SnapshotError;
 
@@ -6,13 +6,13 @@ use super::Schema;
 
 #[derive(PartialEq, Debug)]
 pub struct Database {
-    pub schemas: HashMap<String, Schema>,
+    pub schemas: BTreeMap<String, Schema>,
 }
 
 impl Database {
     pub fn new() -> Self {
         Database {
-            schemas: HashMap::new(),
+            schemas: BTreeMap::new(),
         }
     }
 
diff --git a/src/snapshot/types/schema.rs b/src/snapshot/types/schema.rs
index c4e8e07..92ef51e 100644
--- a/src/snapshot/types/schema.rs
+++ b/src/snapshot/types/schema.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::snapshot::error::SnapshotError;
 
@@ -7,16 +7,16 @@ use super::{Function, Relation};
 #[derive(PartialEq, Debug)]
 pub struct Schema {
     pub name: String,
-    pub relations: HashMap<String, Relation>,
-    pub functions: HashMap<String, Function>,
+    pub relations: BTreeMap<String, Relation>,
+    pub functions: BTreeMap<String, Function>,
 }
 
 impl Schema {
     pub fn new(name: &str) -> Self {
         Self {
             name: name.to_string(),
-            relations: HashMap::new(),
-            functions: HashMap::new(),
+            relations: BTreeMap::new(),
+            functions: BTreeMap::new(),
         }
     }
 
diff --git a/src/snapshot/types/table.rs b/src/snapshot/types/table.rs
index 923d5ea..5a66266 100644
--- a/src/snapshot/types/table.rs
+++ b/src/snapshot/types/table.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::snapshot::error::SnapshotError;
 
@@ -10,7 +10,7 @@ pub struct Table {
     pub name: String,
 
     pub columns: Vec<Column>,
-    pub constraints: HashMap<String, Constraint>,
+    pub constraints: BTreeMap<String, Constraint>,
 }
 
 impl Table {
@@ -19,7 +19,7 @@ impl Table {
             schema_name: schema_name.to_string(),
             name: name.to_string(),
             columns: Vec::new(),
-            constraints: HashMap::new(),
+            constraints: BTreeMap::new(),
         }
     }
 
-- 
2.43.0


From 73d15dd1885d49b6cfc074c3a18bbc5fd8a7e1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 26/54] fix: drop a table's constraints before the table so
 that the revert restores them

---
 src/snapshot/diff.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 029639c..6494b4a 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -200,6 +200,11 @@ fn diff_table_update(s: &Table, t: &Table) -> Changeset {
 fn diff_table_drop(s: &Table) -> Changeset {
     let mut changes = Changeset::new();
 
+    // constraints
+    for si in s.iter_constraints() {
+        changes.append(&mut diff_constraint_drop(si));
+    }
+
     changes.push(DropTableChange::new(s));
 
     return changes;
-- 
2.43.0


From 7a14597573447513b1d39cf74f2e6ac9fa75c1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 27/54] fix: order staged changes by dependency

---
 src/snapshot/diff.rs | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 6494b4a..c7da1ab 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -18,7 +18,46 @@ impl Changeset {
 }
 
 pub fn compare_diff(s: &Database, t: &Database) -> Vec<Change> {
-    return diff_database_update(s, t).changes;
+    let mut changes = diff_database_update(s, t).changes;
+    changes.sort_by_key(execution_phase);
+    return changes;
+}
+
+/// Changes are executed in dependency order: dependents are dropped before
+/// what they depend on, and created after it.
+fn execution_phase(change: &Change) -> u8 {
+    match change {
+        Change::DropViewChange(_) => 0,
+        Change::DropIndexChange(_) => 1,
+        Change::DropForeignKeyChange(_) => 2,
+        Change::DropCheckChange(_)
+        | Change::DropPrimaryKeyChange(_)
+        | Change::DropUniqueChange(_) => 3,
+        Change::DropColumnChange(_) => 4,
+        Change::DropTableChange(_) => 5,
+        Change::DropSequenceChange(_) => 6,
+        Change::DropFunctionChange(_) => 7,
+        Change::DropSchemaChange(_) => 8,
+        Change::CreateSchemaChange(_) => 9,
+        Change::CreateFunctionChange(_) => 10,
+        Change::CreateSequenceChange(_) => 11,
+        Change::CreateTableChange(_) => 12,
+        Change::RenameColumnChange(_) => 13,
+        Change::AddColumnChange(_) => 14,
+        Change::AlterColumnSetDataTypeChange(_)
+        | Change::AlterColumnSetDefaultChange(_)
+        | Change::AlterColumnSetNotNullChange(_) => 15,
+        Change::AddCheckChange(_)
+        | Change::AddPrimaryKeyChange(_)
+        | Change::AddUniqueChange(_) => 16,
+        Change::AlterCheckChange(_)
+        | Change::AlterForeignKeyChange(_)
+        | Change::AlterPrimaryKeyChange(_)
+        | Change::AlterUniqueChange(_) => 17,
+        Change::AddForeignKeyChange(_) => 18,
+        Change::CreateIndexChange(_) => 19,
+        Change::CreateViewChange(_) => 20,
+    }
 }
 
 fn diff_database_update(s: &Database, t: &Database) -> Changeset {
-- 
2.43.0


From 6bf6a6a1e8e03ee0acac4db600dcc443756d58c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 28/54] fix: load views when introspecting a database

---
 src/introspection/mod.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index ad34283..9a2ecdf 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -4,7 +4,7 @@ use crate::{
     error::AnyError,
     snapshot::{
         Check, Column, Constraint, Database, ForeignKey, Function, Index, PrimaryKey, Relation,
-        Schema, Sequence, Table, Unique,
+        Schema, Sequence, Table, Unique, View,
     },
 };
 
@@ -33,6 +33,7 @@ pub fn introspect(tx: &mut Transaction, schemas: &[&str]) -> Result<Database, An
     load_unique(tx, &mut database, schemas)?;
     load_checks(tx, &mut database, schemas)?;
     load_indexes(tx, &mut database, schemas)?;
+    load_views(tx, &mut database, schemas)?;
 
     Ok(database)
 }
@@ -264,3 +265,21 @@ fn load_functions(
     }
     Ok(())
 }
+
+fn load_views(
+    tx: &mut Transaction,
+    database: &mut Database,
+    schemas: &[&str],
+) -> Result<(), AnyError> {
+    for iview in view::introspect_views(tx, schemas)? {
+        let view = View {
+            name: iview.name,
+            schema_name: iview.schema,
+            query: iview.view_definition,
+        };
+        database
+            .get_schema_mut(&view.schema_name)?
+            .add_relation(Relation::View(view))?;
+    }
+    Ok(())
+}
-- 
2.43.0


From cce3aec068635f150a2a1693d5a99b522d4da139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 29/54] fix: map the catalog's unnamed match option to SIMPLE

---
 src/introspection/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index 9a2ecdf..bd25d05 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -181,7 +181,11 @@ fn load_foreign_keys(
             target_columns: ifk.target_table_columns,
             deferrable: ifk.deferrable,
             initially_deferred: ifk.initially_deferred,
-            match_option: ifk.match_option,
+            match_option: if ifk.match_option == "NONE" {
+                "SIMPLE".to_string()
+            } else {
+                ifk.match_option
+            },
             update_rule: ifk.update_rule,
             delete_rule: ifk.delete_rule,
         };
-- 
2.43.0


From b98b28d66c4d6c912550166b9cb22bf4c9a92832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 30/54] fix: keep the sort order of introspected index keys

---
 src/introspection/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index bd25d05..549ea61 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -231,7 +231,13 @@ fn load_indexes(
         let key_expressions = if let Some(expressions) = iindex.expressions {
             vec![expressions] //
         } else {
-            iindex.key_columns.unwrap()
+            iindex
+                .key_columns
+                .unwrap_or_default()
+                .iter()
+                .zip(iindex.key_options.iter())
+                .map(|(column, option)| render_index_key(column, *option))
+                .collect()
         };
 
         let index = Index {
@@ -249,6 +255,16 @@ fn load_indexes(
     Ok(())
 }
 
+/// `option` holds the bits of pg_index.indoption: 1 = DESC, 2 = NULLS FIRST
+fn render_index_key(column: &str, option: i16) -> String {
+    match option & 3 {
+        1 => format!("{} DESC NULLS LAST", column),
+        2 => format!("{} NULLS FIRST", column),
+        3 => format!("{} DESC", column),
+        _ => column.to_string(),
+    }
+}
+
 fn load_functions(
     tx: &mut Transaction,
     database: &mut Database,
-- 
2.43.0


From 8f6b37bb98073e960209b209efb0c302ef0d434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 31/54] fix: read key columns and table columns in catalog
 order

---
 src/introspection/column.sql     |  3 ++-
 src/introspection/foreignkey.sql | 19 +++++--------------
 src/introspection/index.sql      |  8 ++++----
 src/introspection/primarykey.sql |  4 ++--
 src/introspection/unique.sql     |  4 ++--
 5 files changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 8dc09bd..6f21945 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -53,4 +53,5 @@ WHERE NOT pg_is_other_temp_schema(nc.oid)
     AND a.attnum > 0
     AND NOT a.attisdropped
     AND c.relkind = 'r'
-    AND nc.nspname = ANY($1);
+    AND nc.nspname = ANY($1)
+ORDER BY a.attrelid, a.attnum;
diff --git a/src/introspection/foreignkey.sql b/src/introspection/foreignkey.sql
index a304ac2..b430bdf 100644
--- a/src/introspection/foreignkey.sql
+++ b/src/introspection/foreignkey.sql
@@ -3,26 +3,17 @@ SELECT
     con.conname AS constraint_name,
     c.relname AS constraint_table_name,
     (
-			SELECT array_agg(pa.attname)
-			FROM UNNEST(con.conkey) ck(attnum)
+			SELECT array_agg(pa.attname ORDER BY ck.ord)
+			FROM UNNEST(con.conkey) WITH ORDINALITY ck(attnum, ord)
 			JOIN pg_catalog.pg_attribute pa ON pa.attrelid = con.conrelid AND pa.attnum = ck.attnum
 		) AS table_columns,
 
     npkc.nspname AS target_schema,
     fc.relname AS target_table_name,
 	(
-		SELECT array_agg(pa.attname)
-		FROM pg_catalog.pg_attribute pa
-		WHERE fc.oid = pa.attrelid
-		AND fc.oid =
-			CASE pkc.contype
-				WHEN 'f' THEN pkc.confrelid
-				ELSE pkc.conrelid
-			END AND (pa.attnum = ANY (
-			CASE pkc.contype
-				WHEN 'f' THEN pkc.confkey
-			ELSE pkc.conkey
-		END)) AND NOT pa.attisdropped 
+		SELECT array_agg(pa.attname ORDER BY ck.ord)
+		FROM UNNEST(con.confkey) WITH ORDINALITY ck(attnum, ord)
+		JOIN pg_catalog.pg_attribute pa ON pa.attrelid = con.confrelid AND pa.attnum = ck.attnum
 	) AS target_columns,
 	con.condeferrable AS constraint_deferrable,
 	con.condeferred AS constraint_deferred,
diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index 6bb2b10..b362d2a 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -12,15 +12,15 @@ SELECT
     pi.indnatts
         AS key_length,
     (
-        SELECT array_agg(pa.attname) 
-        FROM unnest(pi.indkey) AS key(i)
+        SELECT array_agg(pa.attname ORDER BY key.ord) 
+        FROM unnest(pi.indkey) WITH ORDINALITY AS key(i, ord)
             JOIN pg_catalog.pg_attribute pa
                 ON pa.attrelid = pi.indrelid
                     AND pa.attnum = i 
     ) AS key_columns,
     ( 
-        SELECT array_agg(o)
-        FROM unnest(pi.indoption) AS ko(o)
+        SELECT array_agg(ko.o ORDER BY ko.ord)
+        FROM unnest(pi.indoption) WITH ORDINALITY AS ko(o, ord)
     ) AS key_options,
     pg_catalog.pg_get_expr(pi.indexprs, pi.indrelid)
         AS expressions
diff --git a/src/introspection/primarykey.sql b/src/introspection/primarykey.sql
index fe4e228..f370f0b 100644
--- a/src/introspection/primarykey.sql
+++ b/src/introspection/primarykey.sql
@@ -4,8 +4,8 @@ SELECT
     nr.nspname AS table_schema,
     r.relname AS table_name,
     (
-        SELECT array_agg(pa.attname)
-        FROM UNNEST(c.conkey) ck(attnum)
+        SELECT array_agg(pa.attname ORDER BY ck.ord)
+        FROM UNNEST(c.conkey) WITH ORDINALITY ck(attnum, ord)
         JOIN pg_catalog.pg_attribute pa ON pa.attrelid = c.conrelid AND pa.attnum = ck.attnum
     ) AS table_columns,
     c.condeferrable
diff --git a/src/introspection/unique.sql b/src/introspection/unique.sql
index afa267a..7b12ffa 100644
--- a/src/introspection/unique.sql
+++ b/src/introspection/unique.sql
@@ -4,8 +4,8 @@ SELECT
     nr.nspname AS table_schema,
     r.relname AS table_name,
     (
-        SELECT array_agg(pa.attname)
-        FROM UNNEST(c.conkey) ck(attnum)
+        SELECT array_agg(pa.attname ORDER BY ck.ord)
+        FROM UNNEST(c.conkey) WITH ORDINALITY ck(attnum, ord)
         JOIN pg_catalog.pg_attribute pa ON pa.attrelid = c.conrelid AND pa.attnum = ck.attnum
     ) AS table_columns,
     c.condeferrable
-- 
2.43.0


From c0a14e37510ef34036ee8f729b49a178abdf1173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 32/54] fix: status, up and clone use the directories of the
 selected profile

---
 src/cmd/clone.rs  | 2 +-
 src/cmd/status.rs | 4 ++--
 src/cmd/up.rs     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cmd/clone.rs b/src/cmd/clone.rs
index 143d505..3c780cb 100644
--- a/src/cmd/clone.rs
+++ b/src/cmd/clone.rs
@@ -8,7 +8,7 @@ pub fn clone(profile_name: &str) -> Result<(), AnyError> {
     let cwd: std::path::PathBuf = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
     let database_url = project.resolve_database_url(profile_name)?;
-    let definition_dir = project.resolve_default_definitions_dir()?;
+    let definition_dir = project.resolve_definitions_dir(profile_name)?;
 
     let mut pg_client = Client::connect(&database_url, NoTls)?;
     let mut tx = pg_client.transaction()?;
diff --git a/src/cmd/status.rs b/src/cmd/status.rs
index 46b53b0..ec1197a 100644
--- a/src/cmd/status.rs
+++ b/src/cmd/status.rs
@@ -15,8 +15,8 @@ use postgres::{Client, NoTls};
 pub fn status(profile_name: &str) -> Result<(), AnyError> {
     let cwd = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
-    let history_dir = project.resolve_default_history_dir()?;
-    let definition_dir = project.resolve_default_definitions_dir()?;
+    let history_dir = project.resolve_history_dir(profile_name)?;
+    let definition_dir = project.resolve_definitions_dir(profile_name)?;
     let database_url = project.resolve_database_url(profile_name)?;
 
     let fsh = FSHistory::from_dir(&history_dir)?;
diff --git a/src/cmd/up.rs b/src/cmd/up.rs
index 47448aa..482cb2c 100644
--- a/src/cmd/up.rs
+++ b/src/cmd/up.rs
@@ -9,7 +9,7 @@ use postgres::{Client, NoTls};
 pub fn up(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     let cwd: std::path::PathBuf = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
-    let history_dir = project.resolve_default_history_dir()?;
+    let history_dir = project.resolve_history_dir(profile_name)?;
     let database_url = project.resolve_database_url(profile_name)?;
     let metadata_schema = project.resolve_metadata_schema(&profile_name)?;
 
-- 
2.43.0


From 98870ba6ecea3d93e2f96fb549dd710d4fde66a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 33/54] fix: save history versions atomically

---
 src/history/fsh.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 4463aa7..ca769a1 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -2,6 +2,7 @@ use std::{
     collections::HashMap,
     fmt::{Display, Formatter},
     fs::File,
+    io::Write,
     path::PathBuf,
 };
 
@@ -101,8 +102,15 @@ impl FSHistory {
     pub fn save_version(&mut self, version: Version) -> Result<(), FSHistoryError> {
         // TODO: 인 메모리 변경 안해도 되나?...
         let version_file_path = self.get_version_file_path(&version.name);
-        let version_file = File::create(version_file_path)?;
-        serde_yaml::to_writer(version_file, &version)?;
+        let serialized = serde_yaml::to_string(&version)?;
+
+        // Write to a temporary file first, so that a failure never leaves a
+        // truncated version file behind.
+        let temp_file_path = self.dir.join(format!("{}.yaml.tmp", version.name));
+        let mut temp_file = File::create(&temp_file_path)?;
+        temp_file.write_all(serialized.as_bytes())?;
+        temp_file.sync_all()?;
+        std::fs::rename(&temp_file_path, &version_file_path)?;
 
         Ok(())
     }
-- 
2.43.0


From cb28f5cb41e812e7741332c4f1a4631ba7eba527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 34/54] fix: report a failure to write the project file

---
 src/project/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/project/mod.rs b/src/project/mod.rs
index d49bb3e..e9a217c 100644
--- a/src/project/mod.rs
+++ b/src/project/mod.rs
@@ -124,7 +124,7 @@ pub fn initialize_project(base_dir: PathBuf) -> Result<Project, ProjectError> {
     let yaml_project = create_base_yaml_project();
     let s = serde_yaml::to_string(&yaml_project).unwrap();
     let config_file = base_dir.join(CONFIG_FILE);
-    fs::write(config_file, &s).unwrap();
+    fs::write(config_file, &s)?;
     load_project_from_str(base_dir, &s)
 }
 
-- 
2.43.0


From adb26743d141f69a0d1159f919c5a7a36cf8bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 35/54] fix: init does not overwrite a project file it cannot
 read

---
 src/cmd/init.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cmd/init.rs b/src/cmd/init.rs
index 640bb2f..534609b 100644
--- a/src/cmd/init.rs
+++ b/src/cmd/init.rs
@@ -1,15 +1,19 @@
 use crate::definition;
 use crate::error::AnyError;
 use crate::history::{FSHistory, Version};
-use crate::project::{discover_project, initialize_project};
+use crate::project::{discover_project, initialize_project, ProjectError};
 use crate::snapshot::Database;
 
 pub fn init() -> Result<(), AnyError> {
     let cwd = std::env::current_dir()?;
 
-    if let Ok(proj) = discover_project(cwd.clone()) {
-        println!("Project already exists at: {}", proj.base_dir.display());
-        return Ok(());
+    match discover_project(cwd.clone()) {
+        Ok(proj) => {
+            println!("Project already exists at: {}", proj.base_dir.display());
+            return Ok(());
+        }
+        Err(ProjectError::ProjectNotFound { .. }) => {}
+        Err(e) => return Err(e.into()),
     }
 
     let project = initialize_project(cwd)?;
-- 
2.43.0


From 07c1bcc2f6594ab39656a5df86b41d706798d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 36/54] fix: derive version names from history file names
 without panicking

---
 src/history/fsh.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index ca769a1..7cb9d56 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -34,12 +34,12 @@ impl FSHistory {
         for entry in dir_entries {
             let entry = entry?;
             let filetype = entry.file_type()?;
-            let filename = entry.file_name().to_str().unwrap().to_owned();
+            let filename = entry.file_name().to_string_lossy().into_owned();
 
-            if filetype.is_dir() || !filename.ends_with(".yaml") {
-                continue;
-            }
-            let version_name = filename.trim_end_matches(".yaml").to_owned();
+            let version_name = match filename.strip_suffix(".yaml") {
+                Some(version_name) if !filetype.is_dir() => version_name.to_owned(),
+                _ => continue,
+            };
 
             let v = history.get_version(&version_name)?;
 
-- 
2.43.0


From b46d8c245dc363abc393729500cd5db92565ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 37/54] fix: report a cyclic version chain instead of looping
 forever

---
 src/history/fsh.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 7cb9d56..279f06f 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     fmt::{Display, Formatter},
     fs::File,
     io::Write,
@@ -56,7 +56,13 @@ impl FSHistory {
         }
 
         let mut curr_version = "init".to_string();
+        let mut visited = HashSet::from([curr_version.clone()]);
         while let Some(next) = history.next_map.get(&curr_version) {
+            if !visited.insert(next.clone()) {
+                return Err(FSHistoryError::Cyclic {
+                    version: next.clone(),
+                });
+            }
             history.current_version = curr_version.clone();
             curr_version = next.clone();
         }
@@ -79,8 +85,12 @@ impl FSHistory {
     pub fn get_upward_range(&self, from: &str, to: &str) -> Result<Vec<String>, FSHistoryError> {
         let mut versions = vec![];
         let mut curr = to.to_owned();
+        let mut visited = HashSet::new();
 
         loop {
+            if !visited.insert(curr.clone()) {
+                return Err(FSHistoryError::Cyclic { version: curr });
+            }
             let v = self.get_version(&curr)?;
 
             if curr == from {
@@ -131,6 +141,9 @@ pub enum FSHistoryError {
         high: String,
         low: String,
     },
+    Cyclic {
+        version: String,
+    },
     FileSystemError(std::io::Error),
     SerdeYAMLError(serde_yaml::Error),
 }
@@ -166,6 +179,9 @@ impl Display for FSHistoryError {
                 "version \"{}\" is not reachable from version \"{}\"",
                 high, low
             ),
+            FSHistoryError::Cyclic { version } => {
+                write!(f, "version \"{}\" precedes itself", version)
+            }
             FSHistoryError::FileSystemError(err) => write!(f, "{}", err),
             FSHistoryError::SerdeYAMLError(err) => write!(f, "{}", err),
         }
-- 
2.43.0


From 2fc3c05d9f200fcb5f8c61e4576c080e7b702532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 38/54] fix: expand environment variables in metadata_schema

---
 src/project/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/project/mod.rs b/src/project/mod.rs
index e9a217c..18a4d2a 100644
--- a/src/project/mod.rs
+++ b/src/project/mod.rs
@@ -146,7 +146,7 @@ fn load_project_from_str(base_dir: PathBuf, s: &str) -> Result<Project, ProjectE
             database_url: expand_envvar(&profile.database_url),
             history: base_dir.join(expand_envvar(&profile.history)),
             definitions: base_dir.join(expand_envvar(&profile.definitions)),
-            metadata_schema: profile.metadata_schema.clone(),
+            metadata_schema: expand_envvar(&profile.metadata_schema),
         });
     }
 
-- 
2.43.0


From 73e857cf7167fff2ecf1d1107581593548ac0e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 39/54] fix: ADD CHECK parenthesises the check expression

---
 src/snapshot/changes/check/add_check_change.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snapshot/changes/check/add_check_change.rs b/src/snapshot/changes/check/add_check_change.rs
index 2d7338f..19514bd 100644
--- a/src/snapshot/changes/check/add_check_change.rs
+++ b/src/snapshot/changes/check/add_check_change.rs
@@ -46,7 +46,7 @@ impl AddCheckChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ADD CONSTRAINT {} CHECK {} {} {}",
+            "ALTER TABLE {} ADD CONSTRAINT {} CHECK ({}) {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             self.expression,
-- 
2.43.0


From 345b5b8b2911d1aec467f36f98e45ffdf667088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:42 +0000
Subject: [PATCH 40/54] fix: accept column defaults that span several lines

---
 src/definition/ddl/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definition/ddl/column.rs b/src/definition/ddl/column.rs
index 4253a37..ad2c5c5 100644
--- a/src/definition/ddl/column.rs
+++ b/src/definition/ddl/column.rs
@@ -33,7 +33,7 @@ pub fn render_column_definition(ctx: &Context, def: &Column) -> Node {
 }
 
 fn parse_column_expression(input: &str) -> Result<(String, bool, Option<String>), Error> {
-    let re = Regex::new(r"^(?P<type>[^=!]+)(?P<notnull>!)?(?:\s*=\s*(?P<default>.+))?$").unwrap();
+    let re = Regex::new(r"^(?P<type>[^=!]+)(?P<notnull>!)?(?:\s*=\s*(?P<default>(?s:.+)))?$").unwrap();
     if let Some(caps) = re.captures(input) {
         let data_type = caps.name("type").unwrap().as_str().trim().to_string();
         let not_null = caps.name("notnull").is_some();
-- 
2.43.0


From 81a362170261daccf0c2a3e5402636432d4f3b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:52 +0000
Subject: [PATCH 41/54] fix: match definition keywords as whole words

---
 src/definition/base/yaml.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index 67edfee..a2a1bc4 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -78,9 +78,13 @@ fn create_node_from_mapping_key(key: &str) -> Result<Node, Error> {
 
     let mut found = false;
     for keyword in KEYWORDS.iter() {
+        // The keyword has to be followed by white space or nothing: an index
+        // "on updates" is an "on" node named "updates", not an "on update" one.
         let matches = key
             .get(..keyword.len())
-            .is_some_and(|head| head.eq_ignore_ascii_case(keyword));
+            .is_some_and(|head| head.eq_ignore_ascii_case(keyword))
+            && (key.len() == keyword.len()
+                || key[keyword.len()..].starts_with(char::is_whitespace));
         if matches {
             node.r#type = keyword;
             found = true;
-- 
2.43.0


From 5c7c5de2955055493816a9fef92af0614d8275b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 42/54] fix: introspect unique indexes that a foreign key
 refers to

pg_constraint.conindid of a foreign key is the index of the referenced key,
so such an index was taken for the index of a constraint and left out.
---
 src/introspection/index.sql | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index b362d2a..5dd9187 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -30,5 +30,6 @@ FROM pg_catalog.pg_index pi
     JOIN pg_catalog.pg_class pc_table ON pc_table.oid = pi.indrelid
     JOIN pg_am am ON am.oid=pc_index.relam
     LEFT JOIN pg_catalog.pg_constraint pc ON pc.conindid = pc_index.oid
+        AND pc.contype <> 'f'
 WHERE pc.oid IS NULL
     AND pn.nspname = ANY($1);
-- 
2.43.0


From 0fc49c4be4f8063821eb80dce7b8161760e1b47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 43/54] fix: introspect foreign keys that refer to a unique
 index

The target schema was taken from the referenced constraint. There is none when
the key is a unique index, and reading the missing value panicked.
---
 src/introspection/foreignkey.sql | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/introspection/foreignkey.sql b/src/introspection/foreignkey.sql
index b430bdf..bb63fcf 100644
--- a/src/introspection/foreignkey.sql
+++ b/src/introspection/foreignkey.sql
@@ -42,10 +42,7 @@ SELECT
 FROM pg_namespace ncon
     JOIN pg_constraint con ON ncon.oid = con.connamespace
     JOIN pg_class c ON con.conrelid = c.oid AND con.contype = 'f'::"char"
-    LEFT JOIN pg_depend d1 ON d1.objid = con.oid AND d1.classid = 'pg_constraint'::regclass::oid AND d1.refclassid = 'pg_class'::regclass::oid AND d1.refobjsubid = 0
-    LEFT JOIN pg_depend d2 ON d2.refclassid = 'pg_constraint'::regclass::oid AND d2.classid = 'pg_class'::regclass::oid AND d2.objid = d1.refobjid AND d2.objsubid = 0 AND d2.deptype = 'i'::"char"
     LEFT JOIN pg_class fc ON con.confrelid = fc.oid
-    LEFT JOIN pg_constraint pkc ON pkc.oid = d2.refobjid AND (pkc.contype = ANY (ARRAY['p'::"char", 'u'::"char"])) AND pkc.conrelid = con.confrelid
-    LEFT JOIN pg_namespace npkc ON pkc.connamespace = npkc.oid
+    LEFT JOIN pg_namespace npkc ON fc.relnamespace = npkc.oid
 WHERE (pg_has_role(c.relowner, 'USAGE') OR has_table_privilege(c.oid, 'INSERT, UPDATE, DELETE, TRUNCATE, REFERENCES, TRIGGER') OR has_any_column_privilege(c.oid, 'INSERT, UPDATE, REFERENCES'))
   AND ncon.nspname = ANY($1);
-- 
2.43.0


From 02ed1398a12ffa422a708e0e2d8563fc34ca43e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 44/54] fix: introspect point, box and name columns with their
 own type

Fixed-length types such as point also have typelem set, and were taken for
arrays: a point column was cloned as float8[].
---
 src/introspection/column.sql | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 6f21945..6a9ed6b 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -12,7 +12,7 @@ SELECT
     a.attnotnull OR t.typtype = 'd' AND t.typnotnull
         AS "not_null",
     CASE
-        WHEN t.typelem <> 0 THEN (SELECT eltype.typname FROM pg_type eltype WHERE eltype.oid = t.typelem) 
+        WHEN t.typelem <> 0 AND t.typlen = -1 THEN (SELECT eltype.typname FROM pg_type eltype WHERE eltype.oid = t.typelem) 
         ELSE t.typname
     END 
     ||
@@ -43,7 +43,7 @@ SELECT
     ELSE ''
     END
     ||
-    CASE WHEN t.typelem <> 0 THEN '[]' ELSE '' END
+    CASE WHEN t.typelem <> 0 AND t.typlen = -1 THEN '[]' ELSE '' END
         AS "data_type"
 FROM pg_attribute a
     LEFT JOIN pg_attrdef ad ON a.attrelid = ad.adrelid AND a.attnum = ad.adnum
-- 
2.43.0


From 60a4fe43428543392450d1d9280d0fd6b082bc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 45/54] fix: introspect type modifiers of timestamptz, timetz
 and extension types

timestamptz(3) came out as "timestamptz(3) with time zone", which is no type, and
the data type of any other type with a modifier, like vector(3), was NULL, which
panicked when it was read.
---
 src/introspection/column.sql | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 6a9ed6b..759ebe1 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -17,7 +17,7 @@ SELECT
     END 
     ||
     CASE WHEN a.atttypmod != -1 THEN
-        CASE t.typname
+        COALESCE(CASE t.typname
                 WHEN 'bpchar' THEN bpchartypmodout(a.atttypmod)
                 WHEN '_bpchar' THEN bpchartypmodout(a.atttypmod)
                 WHEN 'varchar' THEN varchartypmodout(a.atttypmod)
@@ -26,12 +26,8 @@ SELECT
                 WHEN '_time' THEN timetypmodout(a.atttypmod)
                 WHEN 'timestamp' THEN timestamptypmodout(a.atttypmod)
                 WHEN '_timestamp' THEN timestamptypmodout(a.atttypmod)
-                WHEN 'timestamptz' THEN timestamptztypmodout(a.atttypmod)
-                WHEN '_timestamptz' THEN timestamptztypmodout(a.atttypmod)
                 WHEN 'interval' THEN intervaltypmodout(a.atttypmod)
                 WHEN '_interval' THEN intervaltypmodout(a.atttypmod)
-                WHEN 'timetz' THEN timetztypmodout(a.atttypmod)
-                WHEN '_timetz' THEN timetztypmodout(a.atttypmod)
                 WHEN 'bit' THEN bittypmodout(a.atttypmod)
                 WHEN '_bit' THEN bittypmodout(a.atttypmod)
                 WHEN 'varbit' THEN varbittypmodout(a.atttypmod)
@@ -39,7 +35,7 @@ SELECT
                 WHEN 'numeric' THEN numerictypmodout(a.atttypmod)
                 WHEN '_numeric' THEN numerictypmodout(a.atttypmod)
                 ELSE null
-        END::TEXT
+        END::TEXT, SUBSTRING(format_type(a.atttypid, a.atttypmod) FROM '[(].*[)]'), '')
     ELSE ''
     END
     ||
-- 
2.43.0


From 545f91840ce41815a4585ed2e1e0dc7a64814761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 46/54] fix: introspect columns of partitioned tables

Partitioned tables and their constraints are introspected, their columns were not.
---
 src/introspection/column.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 759ebe1..40faee1 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -48,6 +48,6 @@ FROM pg_attribute a
 WHERE NOT pg_is_other_temp_schema(nc.oid)
     AND a.attnum > 0
     AND NOT a.attisdropped
-    AND c.relkind = 'r'
+    AND c.relkind = ANY (ARRAY['r'::"char", 'p'::"char"])
     AND nc.nspname = ANY($1)
 ORDER BY a.attrelid, a.attnum;
-- 
2.43.0


From 07473bdad720465464eb41fbd28b2b3dffcdc32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 47/54] fix: introspect views owned by another role

The definition was NULL for them, which panicked when it was read.
---
 src/introspection/view.sql | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/introspection/view.sql b/src/introspection/view.sql
index 869cd65..4e13d52 100644
--- a/src/introspection/view.sql
+++ b/src/introspection/view.sql
@@ -3,10 +3,7 @@ SELECT
         AS schema,
     c.relname
         AS name,
-    CASE
-        WHEN pg_has_role(c.relowner, 'USAGE'::text) THEN left(trim(pg_get_viewdef(c.oid)), -1)
-        ELSE NULL::text
-    END
+    left(trim(pg_get_viewdef(c.oid)), -1)
         AS view_definition,
     CASE
         WHEN 'check_option=cascaded'::text = ANY (c.reloptions) THEN 'CASCADED'::text
-- 
2.43.0


From b7759af61a1cd8bb8dda5a76fec9f058db362c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 48/54] fix: introspect only the expression of a check

The text after CHECK also held NO INHERIT and NOT VALID, which is not valid inside
the parentheses of the check.
---
 src/introspection/check.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/introspection/check.sql b/src/introspection/check.sql
index 282aab9..20fa15d 100644
--- a/src/introspection/check.sql
+++ b/src/introspection/check.sql
@@ -5,7 +5,7 @@ SELECT
         table_name,
     con.conname
         constraint_name,
-    SUBSTRING(pg_get_constraintdef(con.oid), 7)
+    '(' || pg_get_expr(con.conbin, con.conrelid) || ')'
         check_clause,
     con.condeferrable
         is_deferrable,
-- 
2.43.0


From 9706c2bcc26fe3e60a72c44eb35c67a3af1fdcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 49/54] fix: introspect every key of an index with expressions

The plain columns of an index that also has expressions were dropped, several
expressions became one key, and their DESC and NULLS options were lost.
---
 src/introspection/index.sql |  5 +----
 src/introspection/mod.rs    | 18 +++++++-----------
 2 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index 5dd9187..4858864 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -12,11 +12,8 @@ SELECT
     pi.indnatts
         AS key_length,
     (
-        SELECT array_agg(pa.attname ORDER BY key.ord) 
+        SELECT array_agg(pg_get_indexdef(pi.indexrelid, key.ord::int, false) ORDER BY key.ord)
         FROM unnest(pi.indkey) WITH ORDINALITY AS key(i, ord)
-            JOIN pg_catalog.pg_attribute pa
-                ON pa.attrelid = pi.indrelid
-                    AND pa.attnum = i 
     ) AS key_columns,
     ( 
         SELECT array_agg(ko.o ORDER BY ko.ord)
diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index 549ea61..dbb29da 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -228,17 +228,13 @@ fn load_indexes(
     schemas: &[&str],
 ) -> Result<(), AnyError> {
     for iindex in index::introspect_indexes(tx, schemas)? {
-        let key_expressions = if let Some(expressions) = iindex.expressions {
-            vec![expressions] //
-        } else {
-            iindex
-                .key_columns
-                .unwrap_or_default()
-                .iter()
-                .zip(iindex.key_options.iter())
-                .map(|(column, option)| render_index_key(column, *option))
-                .collect()
-        };
+        let key_expressions = iindex
+            .key_columns
+            .unwrap_or_default()
+            .iter()
+            .zip(iindex.key_options.iter())
+            .map(|(column, option)| render_index_key(column, *option))
+            .collect();
 
         let index = Index {
             name: iindex.index_name,
-- 
2.43.0


From 2ca0340e802be0826ad4716a2b811d29404a668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:12 +0000
Subject: [PATCH 50/54] fix: introspect schemas with a foreign table that has a
 check

Foreign tables are not introspected, so their checks had no table to be added to
and introspection failed.
---
 src/introspection/check.sql | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/introspection/check.sql b/src/introspection/check.sql
index 20fa15d..cf37b11 100644
--- a/src/introspection/check.sql
+++ b/src/introspection/check.sql
@@ -17,4 +17,5 @@ FROM pg_constraint con
     LEFT JOIN pg_type t ON t.oid = con.contypid
 WHERE pg_has_role(COALESCE(c.relowner, t.typowner), 'USAGE') AND con.contype = 'c'
     AND con.conrelid != 0
+    AND c.relkind = ANY (ARRAY['r'::"char", 'p'::"char"])
     AND rs.nspname = ANY($1);
-- 
2.43.0


From f455920369dd30cef7a33fc518c7a132557fb26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:12 +0000
Subject: [PATCH 51/54] fix: do not introspect indexes of materialized views

Materialized views are not introspected, so creating such an index failed.
---
 src/introspection/index.sql | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index 4858864..e1cd906 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -29,4 +29,5 @@ FROM pg_catalog.pg_index pi
     LEFT JOIN pg_catalog.pg_constraint pc ON pc.conindid = pc_index.oid
         AND pc.contype <> 'f'
 WHERE pc.oid IS NULL
+    AND pc_table.relkind = ANY (ARRAY['r'::"char", 'p'::"char"])
     AND pn.nspname = ANY($1);
-- 
2.43.0


From 7afe33ad5739b4f38c5e6dc95243625197b31fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:01 +0000
Subject: [PATCH 52/54] fix: name the missing attribute of a function as it is
 written

---
 src/definition/ddl/function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definition/ddl/function.rs b/src/definition/ddl/function.rs
index 141e984..b48fe7d 100644
--- a/src/definition/ddl/function.rs
+++ b/src/definition/ddl/function.rs
@@ -34,7 +34,7 @@ pub fn parse_function_definition(ctx: &Context, n: &Node) -> Result<Function, Er
     }
 
     if body.is_none() {
-        errors.push(Error::new_attribute_required(n, "body"));
+        errors.push(Error::new_attribute_required(n, "as"));
     }
     if language.is_none() {
         language = Some(defaults::get_function_language());
-- 
2.43.0


From 8c04ed4421d808dd3190b2aa2aa1da9f077f5ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 53/54] fix: make overwrote a version made in the same second,
 and the history with it

---
 src/cmd/make.rs    |  2 +-
 src/history/fsh.rs | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/cmd/make.rs b/src/cmd/make.rs
index e6f9502..becf7da 100644
--- a/src/cmd/make.rs
+++ b/src/cmd/make.rs
@@ -27,7 +27,7 @@ pub fn make(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
 
     println!("Made version: {}", &to_make.name.green());
 
-    fsh.save_version(to_make)?;
+    fsh.add_version(to_make)?;
     fsh.save_version(new_stage)?;
 
     Ok(())
diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 279f06f..d7de212 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -125,6 +125,16 @@ impl FSHistory {
         Ok(())
     }
 
+    /// Saves a version that must not be in the history yet.
+    pub fn add_version(&mut self, version: Version) -> Result<(), FSHistoryError> {
+        if self.get_version_file_path(&version.name).try_exists()? {
+            return Err(FSHistoryError::AlreadyExists {
+                version: version.name,
+            });
+        }
+        self.save_version(version)
+    }
+
     fn get_version_file_path(&self, version_name: &str) -> PathBuf {
         self.dir.join(format!("{}.yaml", version_name))
     }
@@ -144,6 +154,9 @@ pub enum FSHistoryError {
     Cyclic {
         version: String,
     },
+    AlreadyExists {
+        version: String,
+    },
     FileSystemError(std::io::Error),
     SerdeYAMLError(serde_yaml::Error),
 }
@@ -182,6 +195,9 @@ impl Display for FSHistoryError {
             FSHistoryError::Cyclic { version } => {
                 write!(f, "version \"{}\" precedes itself", version)
             }
+            FSHistoryError::AlreadyExists { version } => {
+                write!(f, "version \"{}\" already exists", version)
+            }
             FSHistoryError::FileSystemError(err) => write!(f, "{}", err),
             FSHistoryError::SerdeYAMLError(err) => write!(f, "{}", err),
         }
-- 
2.43.0


From f15f34ef612c5d0a024444512a9ae7ca47d84e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:01 +0000
Subject: [PATCH 54/54] fix: make says that a version was made only once it is

The name was shown before the version was written, also when that failed.
---
 src/cmd/make.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cmd/make.rs b/src/cmd/make.rs
index becf7da..f948bc2 100644
--- a/src/cmd/make.rs
+++ b/src/cmd/make.rs
@@ -25,9 +25,11 @@ pub fn make(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     );
     let new_stage = Version::new_stage(&to_make.name);
 
-    println!("Made version: {}", &to_make.name.green());
+    let name = to_make.name.clone();
 
     fsh.add_version(to_make)?;
+    println!("Made version: {}", name.green());
+
     fsh.save_version(new_stage)?;
 
     Ok(())
-- 
2.43.0

