From 0a596d05ad87eeacee879c5bf7cfb2b20a340ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:55 +0000
Subject: [PATCH 01/47] fix: an attribute alteration that does not mention
 uniqueness keeps it

---
 db/src/schema.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/db/src/schema.rs b/db/src/schema.rs
index fdbed5a..e64fce5 100644
--- a/db/src/schema.rs
+++ b/db/src/schema.rs
@@ -226,9 +226,6 @@ impl AttributeBuilder {
                 attribute.unique = *unique;
                 mutations.push(AttributeAlteration::Unique);
             }
-        } else if attribute.unique != None {
-            attribute.unique = None;
-            mutations.push(AttributeAlteration::Unique);
         }
 
         if let Some(index) = self.index {
-- 
2.43.0


From ee9a90c881afde5bc12055f350f2d21afde9381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 02/47] fix: allow :db.cardinality/many to become
 :db.cardinality/one when no entity has several values

---
 db/src/db.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 8b7401e..2cf80ae 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1284,8 +1284,9 @@ SELECT EXISTS
                     // TODO: improve the failure message.  Perhaps try to mimic what Datomic says in
                     // this case?
                     if !attribute.multival {
-                        let mut rows = cardinality_stmt.query(&[&entid as &dyn ToSql])?;
-                        if rows.next()?.is_some() {
+                        let conflicts: bool =
+                            cardinality_stmt.query_row(&[&entid as &dyn ToSql], |row| row.get(0))?;
+                        if conflicts {
                             bail!(DbErrorKind::SchemaAlterationFailed(format!(
                                 "Cannot alter schema attribute {} to be :db.cardinality/one",
                                 entid
-- 
2.43.0


From 4bd9f3639fba083a0b06429f8b17a88b66e5ec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:30 +0000
Subject: [PATCH 03/47] fix: an ident that passes to another entity in one
 transaction keeps its new mapping

---
 db/src/metadata.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/db/src/metadata.rs b/db/src/metadata.rs
index ac43939..37b62a2 100644
--- a/db/src/metadata.rs
+++ b/db/src/metadata.rs
@@ -412,24 +412,28 @@ where
 
     let mut idents_altered: BTreeMap<Entid, IdentAlteration> = BTreeMap::new();
 
-    // Asserted, altered, or retracted :db/idents update the relevant entids.
-    for (entid, ident) in ident_set.asserted {
-        schema.entid_map.insert(entid, ident.clone());
-        schema.ident_map.insert(ident.clone(), entid);
-        idents_altered.insert(entid, IdentAlteration::Ident(ident.clone()));
+    // Asserted, altered, or retracted :db/idents update the relevant entids.  An ident can pass from
+    // one entid to another, so every old mapping goes before any new mapping is made.
+    for (entid, ident) in &ident_set.retracted {
+        schema.entid_map.remove(entid);
+        schema.ident_map.remove(ident);
+        idents_altered.insert(*entid, IdentAlteration::Ident(ident.clone()));
+    }
+
+    for (old_ident, _new_ident) in ident_set.altered.values() {
+        schema.ident_map.remove(old_ident); // Remove old.
     }
 
-    for (entid, (old_ident, new_ident)) in ident_set.altered {
+    for (entid, (_old_ident, new_ident)) in ident_set.altered {
         schema.entid_map.insert(entid, new_ident.clone()); // Overwrite existing.
-        schema.ident_map.remove(&old_ident); // Remove old.
         schema.ident_map.insert(new_ident.clone(), entid); // Insert new.
         idents_altered.insert(entid, IdentAlteration::Ident(new_ident.clone()));
     }
 
-    for (entid, ident) in &ident_set.retracted {
-        schema.entid_map.remove(entid);
-        schema.ident_map.remove(ident);
-        idents_altered.insert(*entid, IdentAlteration::Ident(ident.clone()));
+    for (entid, ident) in ident_set.asserted {
+        schema.entid_map.insert(entid, ident.clone());
+        schema.ident_map.insert(ident.clone(), entid);
+        idents_altered.insert(entid, IdentAlteration::Ident(ident.clone()));
     }
 
     // Component attributes need to change if either:
-- 
2.43.0


From bdd1284bf2516c0011ceeb27cf0829ab70b6798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 04/47] fix: :db/noHistory is part of an attribute's schema

---
 db/src/entids.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/db/src/entids.rs b/db/src/entids.rs
index 6308926..3c07974 100644
--- a/db/src/entids.rs
+++ b/db/src/entids.rs
@@ -72,6 +72,7 @@ pub fn might_update_metadata(attribute: Entid) -> bool {
         DB_FULLTEXT |
         DB_INDEX |
         DB_IS_COMPONENT |
+        DB_NO_HISTORY |
         DB_UNIQUE |
         DB_VALUE_TYPE
     )
@@ -86,6 +87,7 @@ pub fn is_a_schema_attribute(attribute: Entid) -> bool {
             | DB_FULLTEXT
             | DB_INDEX
             | DB_IS_COMPONENT
+            | DB_NO_HISTORY
             | DB_UNIQUE
             | DB_VALUE_TYPE
     )
@@ -100,23 +102,25 @@ lazy_static! {
 
     /// Attributes that are "schema related".  These might change the "schema" materialized view.
     pub static ref SCHEMA_SQL_LIST: String = {
-        format!("({}, {}, {}, {}, {}, {})",
+        format!("({}, {}, {}, {}, {}, {}, {})",
                 DB_CARDINALITY,
                 DB_FULLTEXT,
                 DB_INDEX,
                 DB_IS_COMPONENT,
+                DB_NO_HISTORY,
                 DB_UNIQUE,
                 DB_VALUE_TYPE)
     };
 
     /// Attributes that are "metadata" related.  These might change one of the materialized views.
     pub static ref METADATA_SQL_LIST: String = {
-        format!("({}, {}, {}, {}, {}, {}, {})",
+        format!("({}, {}, {}, {}, {}, {}, {}, {})",
                 DB_CARDINALITY,
                 DB_FULLTEXT,
                 DB_IDENT,
                 DB_INDEX,
                 DB_IS_COMPONENT,
+                DB_NO_HISTORY,
                 DB_UNIQUE,
                 DB_VALUE_TYPE)
     };
-- 
2.43.0


From bc9217faacb4cb4ad59b818849f4ee6beffc80bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 05/47] fix: a full chunk of bound values is not one too many

---
 db/src/db.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 2cf80ae..1e30d30 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -795,7 +795,7 @@ impl MentatStoring for rusqlite::Connection {
             // querying against `all_datoms`.  We know all the attributes, and in the common case,
             // where most unique attributes will not be fulltext-indexed, we'll be querying just
             // `datoms`, which will be much faster.ˇ
-            assert!(bindings_per_statement * count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, count, max_vars);
+            assert!(bindings_per_statement * count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, count, max_vars);
 
             let values: String = repeat_values(bindings_per_statement, count);
             let s: String = format!("WITH t(search_id, a, v, value_type_tag) AS (VALUES {}) SELECT t.search_id, d.e \
@@ -937,7 +937,7 @@ impl MentatStoring for rusqlite::Connection {
             }).collect();
 
             // TODO: cache this for selected values of count.
-            assert!(bindings_per_statement * count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, count, max_vars);
+            assert!(bindings_per_statement * count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, count, max_vars);
             let values: String = repeat_values(bindings_per_statement, count);
             let s: String = if search_type == SearchType::Exact {
                 format!("INSERT INTO temp.exact_searches (e0, a0, v0, value_type_tag0, added0, flags0) VALUES {}", values)
@@ -1058,7 +1058,7 @@ impl MentatStoring for rusqlite::Connection {
             }).collect();
 
             // TODO: cache this for selected values of count.
-            assert!(bindings_per_statement * datom_count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, datom_count, max_vars);
+            assert!(bindings_per_statement * datom_count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, datom_count, max_vars);
             let inner = "(?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?)".to_string();
             // Like "(?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?), (?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?)".
             let fts_values: String = repeat(inner).take(datom_count).join(", ");
-- 
2.43.0


From 75d5a5c1f0d2fbf524c9f9db28210ad2471ec3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:31 +0000
Subject: [PATCH 06/47] fix: sum over no rows is empty, not a decoding error

---
 query-projector-traits/aggregates.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/query-projector-traits/aggregates.rs b/query-projector-traits/aggregates.rs
index e0b5831..16133a7 100644
--- a/query-projector-traits/aggregates.rs
+++ b/query-projector-traits/aggregates.rs
@@ -153,8 +153,8 @@ impl SimpleAggregate {
     pub fn use_static_value(&self) -> bool {
         use self::SimpleAggregationOp::*;
         match self.op {
-            Avg | Max | Min => true,
-            Count | Sum => false,
+            Avg | Max | Min | Sum => true,
+            Count => false,
         }
     }
 
@@ -162,8 +162,8 @@ impl SimpleAggregate {
     pub fn is_nullable(&self) -> bool {
         use self::SimpleAggregationOp::*;
         match self.op {
-            Avg | Max | Min => true,
-            Count | Sum => false,
+            Avg | Max | Min | Sum => true,
+            Count => false,
         }
     }
 }
-- 
2.43.0


From 6d561ab5b5ff7045129eb300bf34004d3c6986de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 07/47] fix: an error while stepping through query results is
 returned, not a panic

---
 query-projector/src/projectors/pull_two_stage.rs | 8 ++++----
 query-projector/src/projectors/simple.rs         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/query-projector/src/projectors/pull_two_stage.rs b/query-projector/src/projectors/pull_two_stage.rs
index f286232..4f5bf07 100644
--- a/query-projector/src/projectors/pull_two_stage.rs
+++ b/query-projector/src/projectors/pull_two_stage.rs
@@ -69,7 +69,7 @@ impl Projector for ScalarTwoStagePullProjector {
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
         // Scalar is pretty straightforward -- zero or one entity, do the pull directly.
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let entity: Entid = row.get(0).unwrap(); // This will always be 0 and a ref.
             let bindings = self.puller.pull(schema, sqlite, once(entity))?;
@@ -153,7 +153,7 @@ impl Projector for TupleTwoStagePullProjector {
         sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
 
             // Keeping the compiler happy.
@@ -280,7 +280,7 @@ impl Projector for RelTwoStagePullProjector {
         let mut pull_consumers = pull_consumers?;
 
         // Collect the usual bindings and accumulate entity IDs for pull.
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             for p in pull_consumers.iter_mut() {
                 p.collect_entity(&row);
@@ -347,7 +347,7 @@ impl Projector for CollTwoStagePullProjector {
     ) -> Result<QueryOutput> {
         let mut pull_consumer = PullConsumer::for_operation(schema, &self.pull)?;
 
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             pull_consumer.collect_entity(&row);
         }
diff --git a/query-projector/src/projectors/simple.rs b/query-projector/src/projectors/simple.rs
index 213d75a..7e43cc7 100644
--- a/query-projector/src/projectors/simple.rs
+++ b/query-projector/src/projectors/simple.rs
@@ -50,7 +50,7 @@ impl Projector for ScalarProjector {
         _sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let binding = self.template.lookup(&row)?;
             QueryResults::Scalar(Some(binding))
@@ -122,7 +122,7 @@ impl Projector for TupleProjector {
         _sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let bindings = self.collect_bindings(row)?;
             QueryResults::Tuple(Some(bindings))
@@ -207,7 +207,7 @@ impl Projector for RelProjector {
         let width = self.len;
         let mut values: Vec<_> = Vec::with_capacity(5 * width);
 
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             self.collect_bindings_into(row, &mut values)?;
         }
@@ -263,7 +263,7 @@ impl Projector for CollProjector {
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
         let mut out: Vec<_> = vec![];
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             let binding = self.template.lookup(&row)?;
             out.push(binding);
-- 
2.43.0


From 01ce563471fb2a7998cf5c6864df903b47dc79c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:01 +0000
Subject: [PATCH 08/47] fix: registering or removing an observer does not drop
 queued notifications

---
 db/src/tx_observer.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/db/src/tx_observer.rs b/db/src/tx_observer.rs
index ebc42af..e09145c 100644
--- a/db/src/tx_observer.rs
+++ b/db/src/tx_observer.rs
@@ -8,7 +8,7 @@
 // CONDITIONS OF ANY KIND, either express or implied. See the License for the
 // specific language governing permissions and limitations under the License.
 
-use std::sync::{Arc, Weak};
+use std::sync::Arc;
 
 use std::sync::mpsc::{channel, Receiver, RecvError, Sender};
 
@@ -66,7 +66,7 @@ pub trait Command {
 
 pub struct TxCommand {
     reports: IndexMap<Entid, AttributeSet>,
-    observers: Weak<IndexMap<String, Arc<TxObserver>>>,
+    observers: Arc<IndexMap<String, Arc<TxObserver>>>,
 }
 
 impl TxCommand {
@@ -76,19 +76,17 @@ impl TxCommand {
     ) -> Self {
         TxCommand {
             reports,
-            observers: Arc::downgrade(observers),
+            observers: observers.clone(),
         }
     }
 }
 
 impl Command for TxCommand {
     fn execute(&mut self) {
-        if let Some(observers) = self.observers.upgrade() {
-            for (key, observer) in observers.iter() {
-                let applicable_reports = observer.applicable_reports(&self.reports);
-                if !applicable_reports.is_empty() {
-                    observer.notify(&key, applicable_reports);
-                }
+        for (key, observer) in self.observers.iter() {
+            let applicable_reports = observer.applicable_reports(&self.reports);
+            if !applicable_reports.is_empty() {
+                observer.notify(&key, applicable_reports);
             }
         }
     }
-- 
2.43.0


From 6f5eaedc0072c757fa549fe93c20535fa4cea7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 09/47] fix: value_at_index returns null for the index just
 past the end

---
 ffi/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ffi/src/lib.rs b/ffi/src/lib.rs
index 61ebd65..4666727 100644
--- a/ffi/src/lib.rs
+++ b/ffi/src/lib.rs
@@ -1931,7 +1931,7 @@ pub unsafe extern "C" fn typed_value_list_iter_next(iter: *mut BindingIterator)
 pub unsafe extern "C" fn value_at_index(values: *mut Vec<Binding>, index: c_int) -> *mut Binding {
     assert_not_null!(values);
     let values = &*values;
-    if index < 0 || (index as usize) > values.len() {
+    if index < 0 || (index as usize) >= values.len() {
         std::ptr::null_mut()
     } else {
         // TODO: an older version of this function returned a reference into values. This
-- 
2.43.0


From 4bd69add08835926428839f95f719d3cd30d0a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 10/47] fix: typed_value_value_type checks its pointer like its
 siblings

---
 ffi/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ffi/src/lib.rs b/ffi/src/lib.rs
index 4666727..bb7e7e5 100644
--- a/ffi/src/lib.rs
+++ b/ffi/src/lib.rs
@@ -1825,6 +1825,7 @@ pub unsafe extern "C" fn typed_value_into_uuid(typed_value: *mut Binding) -> *mu
 /// Returns the [ValueType](mentat::ValueType) of this [Binding](mentat::Binding).
 #[no_mangle]
 pub unsafe extern "C" fn typed_value_value_type(typed_value: *mut Binding) -> ValueType {
+    assert_not_null!(typed_value);
     let typed_value = &*typed_value;
     typed_value
         .value_type()
-- 
2.43.0


From 2ab814397836c103fa9691346fc9f185479a41bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 11/47] fix: retracting a value a cardinality-one attribute
 does not have does nothing

---
 db/src/db.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 1e30d30..96a08c9 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -644,7 +644,8 @@ pub trait MentatStoring {
 /// See https://github.com/mozilla/mentat/wiki/Transacting:-entity-to-SQL-translation.
 fn search(conn: &rusqlite::Connection) -> Result<()> {
     // First is fast, only one table walk: lookup by exact eav.
-    // Second is slower, but still only one table walk: lookup old value by ea.
+    // Second is slower, but still only one table walk: lookup old value by ea.  (A retraction still
+    // names the value it retracts: retracting a value that isn't there does nothing.)
     let s = r#"
       INSERT INTO temp.search_results
       SELECT t.e0, t.a0, t.v0, t.value_type_tag0, t.added0, t.flags0, ':db.cardinality/many', d.rowid, d.v
@@ -661,7 +662,10 @@ fn search(conn: &rusqlite::Connection) -> Result<()> {
       FROM temp.inexact_searches AS t
       LEFT JOIN datoms AS d
       ON t.e0 = d.e AND
-         t.a0 = d.a"#;
+         t.a0 = d.a AND
+         (t.added0 IS 1 OR
+          (t.value_type_tag0 = d.value_type_tag AND
+           t.v0 = d.v))"#;
 
     let mut stmt = conn.prepare_cached(s)?;
     stmt.execute(rusqlite::params![])
-- 
2.43.0


From 1221857065bbe689e9bd5ab531f92865b2184b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 12/47] fix: a failed transact leaves no trace in its
 InProgress

---
 db/src/tx.rs           |  5 +++--
 transaction/src/lib.rs | 43 ++++++++++++++++++++++++++++++------------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 8b0a65a..87dbf95 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -929,8 +929,6 @@ where
             }
         }
 
-        self.watcher.done(&self.tx_id, self.schema)?;
-
         if tx_might_update_metadata {
             // Extract changes to metadata from the store.
             let metadata_assertions = match action {
@@ -961,6 +959,9 @@ where
             }
         }
 
+        // Nothing that can fail comes after this: a watcher is never told of a failed transact.
+        self.watcher.done(&self.tx_id, self.schema)?;
+
         Ok(TxReport {
             tx_id: self.tx_id,
             tx_instant,
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index f30ca7b..465db13 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -81,6 +81,9 @@ pub enum CacheAction {
     Deregister,
 }
 
+/// The savepoint around each transact: see `InProgress::conclude_transact`.
+const TRANSACT_SAVEPOINT: &str = "transact";
+
 /// Represents an in-progress, not yet committed, set of changes to the store.
 /// Call `commit` to commit your changes, or `rollback` to discard them.
 /// A transaction is held open until you do so.
@@ -165,11 +168,11 @@ impl<'a, 'c> InProgress<'a, 'c> {
     where
         I: IntoIterator<Item = TermWithTempIds>,
     {
-        let w = InProgressTransactWatcher::new(
-            &mut self.tx_observer_watcher,
-            self.cache.transact_watcher(),
-        );
-        let (report, next_partition_map, next_schema, _watcher) = transact_terms(
+        self.savepoint(TRANSACT_SAVEPOINT)?;
+        let mut observer_watcher = InProgressObserverTransactWatcher::new();
+        let w =
+            InProgressTransactWatcher::new(&mut observer_watcher, self.cache.transact_watcher());
+        let result = transact_terms(
             &self.transaction,
             self.partition_map.clone(),
             &self.schema,
@@ -177,7 +180,10 @@ impl<'a, 'c> InProgress<'a, 'c> {
             w,
             terms,
             tempid_set,
-        )?;
+        )
+        .map(|(report, partition_map, schema, _watcher)| (report, partition_map, schema));
+        let (report, next_partition_map, next_schema) = self.conclude_transact(result)?;
+        self.tx_observer_watcher.txes.extend(observer_watcher.txes);
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
             self.schema = schema;
@@ -197,18 +203,21 @@ impl<'a, 'c> InProgress<'a, 'c> {
         //    `Metadata` on return. If we used `Cell` or other mechanisms, we'd be using
         //    `Default::default` in those situations to extract the partition map, and so there
         //    would still be some cost.
-        let w = InProgressTransactWatcher::new(
-            &mut self.tx_observer_watcher,
-            self.cache.transact_watcher(),
-        );
-        let (report, next_partition_map, next_schema, _watcher) = transact(
+        self.savepoint(TRANSACT_SAVEPOINT)?;
+        let mut observer_watcher = InProgressObserverTransactWatcher::new();
+        let w =
+            InProgressTransactWatcher::new(&mut observer_watcher, self.cache.transact_watcher());
+        let result = transact(
             &self.transaction,
             self.partition_map.clone(),
             &self.schema,
             &self.schema,
             w,
             entities,
-        )?;
+        )
+        .map(|(report, partition_map, schema, _watcher)| (report, partition_map, schema));
+        let (report, next_partition_map, next_schema) = self.conclude_transact(result)?;
+        self.tx_observer_watcher.txes.extend(observer_watcher.txes);
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
             self.schema = schema;
@@ -216,6 +225,16 @@ impl<'a, 'c> InProgress<'a, 'c> {
         Ok(report)
     }
 
+    /// A transact that fails part of the way through must leave no trace: this `InProgress` can
+    /// still be used, and committed.
+    fn conclude_transact<T>(&self, result: ::db_traits::errors::Result<T>) -> Result<T> {
+        if result.is_err() {
+            self.rollback_savepoint(TRANSACT_SAVEPOINT)?;
+        }
+        self.release_savepoint(TRANSACT_SAVEPOINT)?;
+        result.map_err(|e| e.into())
+    }
+
     pub fn transact<B>(&mut self, transaction: B) -> Result<TxReport>
     where
         B: Borrow<str>,
-- 
2.43.0


From b22e637df0e1fee42618ec72f017b37b7ab10276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:27 +0000
Subject: [PATCH 13/47] fix: an instant before 1970 with a fraction of a second
 reads back as itself

---
 edn/src/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edn/src/types.rs b/edn/src/types.rs
index c1f4b07..ae85aa0 100644
--- a/edn/src/types.rs
+++ b/edn/src/types.rs
@@ -653,7 +653,11 @@ pub trait FromMicros {
 
 impl FromMicros for DateTime<Utc> {
     fn from_micros(ts: i64) -> Self {
-        Utc.timestamp(ts / 1_000_000, ((ts % 1_000_000).abs() as u32) * 1_000)
+        // Round towards the past: a time before the epoch still has a non-negative fraction.
+        Utc.timestamp(
+            ts.div_euclid(1_000_000),
+            (ts.rem_euclid(1_000_000) as u32) * 1_000,
+        )
     }
 }
 
-- 
2.43.0


From 97ff8355d068c659d2eedd6980765bb0094905a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 14/47] fix: the nil UUID reads back, and a malformed one is an
 error

---
 db/src/db.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 96a08c9..fc021d8 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -422,15 +422,14 @@ impl TypedSQLValue for TypedValue {
             (5, rusqlite::types::Value::Real(x)) => Ok(TypedValue::Double(x.into())),
             (10, rusqlite::types::Value::Text(x)) => Ok(x.into()),
             (11, rusqlite::types::Value::Blob(x)) => {
-                let u = Uuid::from_bytes(x.as_slice().try_into().unwrap());
-                if u.is_nil() {
-                    // Rather than exposing Uuid's ParseError…
-                    bail!(DbErrorKind::BadSQLValuePair(
+                match x.as_slice().try_into() {
+                    Ok(bytes) => Ok(TypedValue::Uuid(Uuid::from_bytes(bytes))),
+                    // Rather than exposing the conversion's error…
+                    Err(_) => bail!(DbErrorKind::BadSQLValuePair(
                         rusqlite::types::Value::Blob(x),
                         value_type_tag
-                    ));
+                    )),
                 }
-                Ok(TypedValue::Uuid(u))
             }
             (13, rusqlite::types::Value::Text(x)) => to_namespaced_keyword(&x).map(|k| k.into()),
             (_, value) => bail!(DbErrorKind::BadSQLValuePair(value, value_type_tag)),
-- 
2.43.0


From 06e854c6a49dfba365ce38719d2f65be262d8b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 15/47] fix: a stored keyword without a namespace reads back

---
 db/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/src/lib.rs b/db/src/lib.rs
index 07ce4ee..26459e2 100644
--- a/db/src/lib.rs
+++ b/db/src/lib.rs
@@ -92,6 +92,10 @@ pub fn to_namespaced_keyword(s: &str) -> Result<symbols::Keyword> {
         (Some(""), Some(namespace), Some(name), None) => {
             Some(symbols::Keyword::namespaced(namespace, name))
         }
+        // A keyword value need not have a namespace.
+        (Some(""), Some(name), None, None) if !name.is_empty() => {
+            Some(symbols::Keyword::plain(name))
+        }
         _ => None,
     };
 
-- 
2.43.0


From af83bd53c608fb428782865fbc52d53d61fb8df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:21 +0000
Subject: [PATCH 16/47] fix: truncate transacted instants to the microseconds
 that are stored

---
 db/src/db.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index fc021d8..0b04d64 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -446,7 +446,7 @@ impl TypedSQLValue for TypedValue {
     fn from_edn_value(value: &Value) -> Option<TypedValue> {
         match value {
             Value::Boolean(x) => Some(TypedValue::Boolean(*x)),
-            Value::Instant(x) => Some(TypedValue::Instant(*x)),
+            Value::Instant(x) => Some((*x).into()),
             Value::Integer(x) => Some(TypedValue::Long(*x)),
             Value::Uuid(x) => Some(TypedValue::Uuid(*x)),
             Value::Float(ref x) => Some(TypedValue::Double(*x)),
-- 
2.43.0


From 13b40153e32c3963e4b5e132a4b18993d87c8ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 17/47] fix: transact a repeated fulltext string when a whole
 chunk has no new string

---
 db/src/db.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 0b04d64..6a5de84 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1040,12 +1040,15 @@ impl MentatStoring for rusqlite::Connection {
                      }).collect();
 
             // TODO: make this maximally efficient. It's not terribly inefficient right now.
-            let fts_values: String = repeat_values(2, string_count);
-            let fts_s: String = format!("INSERT INTO fulltext_values_view (text, searchid) VALUES {}", fts_values);
-
-            // TODO: consider ensuring we inserted the expected number of rows.
-            let mut stmt = self.prepare_cached(fts_s.as_str())?;
-            stmt.execute(&fts_params).context(DbErrorKind::FtsInsertionFailed)?;
+            // Every string of this chunk may have been inserted by an earlier chunk.
+            if string_count > 0 {
+                let fts_values: String = repeat_values(2, string_count);
+                let fts_s: String = format!("INSERT INTO fulltext_values_view (text, searchid) VALUES {}", fts_values);
+
+                // TODO: consider ensuring we inserted the expected number of rows.
+                let mut stmt = self.prepare_cached(fts_s.as_str())?;
+                stmt.execute(&fts_params).context(DbErrorKind::FtsInsertionFailed)?;
+            }
 
             // Second, insert searches.
             // `params` reference computed values in `block`.
-- 
2.43.0


From 6596dec40b5d96df8f283ea16a056630520ea747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 18/47] fix: rewinding several transactions returns the schema
 after all of them

---
 db/src/timelines.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 38fb178..a7adea9 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -156,16 +156,18 @@ pub fn move_from_main_timeline(
 
     let txs_to_move = collect_ordered_txs_to_move(conn, txs_from, crate::TIMELINE_MAIN)?;
 
-    let mut last_schema = None;
+    // Each rewind starts from the schema that the previous one produced.
+    let mut last_schema: Option<Schema> = None;
     for tx_id in &txs_to_move {
         let reversed_terms = reversed_terms_for(conn, *tx_id)?;
+        let current_schema = last_schema.as_ref().unwrap_or(schema);
 
         // Rewind schema and datoms.
         let (report, _, new_schema, _) = transact_terms_with_action(
             conn,
             partition_map.clone(),
-            schema,
-            schema,
+            current_schema,
+            current_schema,
             NullWatcher(),
             reversed_terms.into_iter().map(|t| t.rewrap()),
             InternSet::new(),
@@ -182,7 +184,7 @@ pub fn move_from_main_timeline(
         // A quick workaround is to just remove the bad txInstant datom.
         // See test_clashing_tx_instants test case.
         remove_tx_from_datoms(conn, report.tx_id)?;
-        last_schema = new_schema;
+        last_schema = new_schema.or(last_schema);
     }
 
     // Move transactions over to the target timeline.
-- 
2.43.0


From 2767e221d48d28af06b4ff0e869838f975e4d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 19/47] fix: keep the attribute cache in step with no-op and
 replacing assertions

Retracting a value that isn't present no longer clears the cached value, asserting a
present cardinality-many value no longer duplicates it, and asserting a new
cardinality-one value drops the replaced value from the reverse cache.
---
 db/src/cache.rs | 123 ++++++++++++++++++++++++++++++------------------
 1 file changed, 76 insertions(+), 47 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 008ff0a..11239b8 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -284,16 +284,9 @@ impl RemoveFromCache for SingleValAttributeCache {
     fn remove(&mut self, e: Entid, v: &TypedValue) {
         match self.e_v.entry(e) {
             Occupied(mut entry) => {
-                let removed = entry.insert(None);
-                match removed {
-                    None => {}                  // Already removed.
-                    Some(ref r) if r == v => {} // We removed it!
-                    r => {
-                        eprintln!(
-                            "Cache inconsistency: should be ({}, {:?}), was ({}, {:?}).",
-                            e, v, e, r
-                        );
-                    }
+                // Retracting a value that isn't present changes nothing.
+                if entry.get().as_ref() == Some(v) {
+                    entry.insert(None);
                 }
             }
             Vacant(entry) => {
@@ -354,26 +347,20 @@ impl ClearCache for MultiValAttributeCache {
 
 impl RemoveFromCache for MultiValAttributeCache {
     fn remove(&mut self, e: Entid, v: &TypedValue) {
+        // Retracting a value that isn't present changes nothing.
         if let Some(vec) = self.e_vs.get_mut(&e) {
-            let removed = vec.remove_every(v);
-            if removed == 0 {
-                eprintln!(
-                    "Cache inconsistency: tried to remove ({}, {:?}), was not present.",
-                    e, v
-                );
-            }
-        } else {
-            eprintln!(
-                "Cache inconsistency: tried to remove ({}, {:?}), was empty.",
-                e, v
-            );
+            vec.remove_every(v);
         }
     }
 }
 
 impl CardinalityManyCache for MultiValAttributeCache {
     fn acc(&mut self, e: Entid, v: TypedValue) {
-        self.e_vs.entry(e).or_insert_with(Vec::new).push(v)
+        // Asserting a value that's already present changes nothing.
+        let vs = self.e_vs.entry(e).or_insert_with(Vec::new);
+        if !vs.contains(&v) {
+            vs.push(v)
+        }
     }
 
     fn set(&mut self, e: Entid, vs: Vec<TypedValue>) {
@@ -409,16 +396,9 @@ impl RemoveFromCache for UniqueReverseAttributeCache {
         match self.v_e.entry(v.clone()) {
             // Future: better entry API!
             Occupied(mut entry) => {
-                let removed = entry.insert(None);
-                match removed {
-                    None => {}              // Already removed.
-                    Some(r) if r == e => {} // We removed it!
-                    r => {
-                        eprintln!(
-                            "Cache inconsistency: should be ({}, {:?}), was ({}, {:?}).",
-                            e, v, e, r
-                        );
-                    }
+                // Retracting a value that isn't present changes nothing.
+                if *entry.get() == Some(e) {
+                    entry.insert(None);
                 }
             }
             Vacant(entry) => {
@@ -471,19 +451,9 @@ impl ClearCache for NonUniqueReverseAttributeCache {
 
 impl RemoveFromCache for NonUniqueReverseAttributeCache {
     fn remove(&mut self, e: Entid, v: &TypedValue) {
+        // Retracting a value that isn't present changes nothing.
         if let Some(vec) = self.v_es.get_mut(&v) {
-            let removed = vec.remove(&e);
-            if !removed {
-                eprintln!(
-                    "Cache inconsistency: tried to remove ({}, {:?}), was not present.",
-                    e, v
-                );
-            }
-        } else {
-            eprintln!(
-                "Cache inconsistency: tried to remove ({}, {:?}), was empty.",
-                e, v
-            );
+            vec.remove(&e);
         }
     }
 }
@@ -546,6 +516,55 @@ fn accumulate_non_unique_evs_reverse<I>(
     with_aev_iter(a, iter, |e, v| r.acc(e, v))
 }
 
+/// Asserting a new value for a cardinality-one attribute replaces the old one without retracting it.
+fn remove_replaced<C, R>(e: Entid, v: &TypedValue, f: &C, r: &mut R)
+where
+    C: CardinalityOneCache,
+    R: RemoveFromCache,
+{
+    if let Some(old) = f.get(e) {
+        if old != v {
+            r.remove(e, old);
+        }
+    }
+}
+
+/// As `accumulate_unique_evs_reverse`, but each value replaces the entity's old one, if any.
+fn accumulate_single_val_unique_evs_reverse<I>(
+    a: Entid,
+    r: &mut UniqueReverseAttributeCache,
+    iter: &mut Peekable<I>,
+) where
+    I: Iterator<Item = Aev>,
+{
+    with_aev_iter(a, iter, |e, v| {
+        for (old, entid) in r.v_e.iter_mut() {
+            if *entid == Some(e) && *old != v {
+                *entid = None;
+            }
+        }
+        r.set(e, v)
+    })
+}
+
+/// As `accumulate_non_unique_evs_reverse`, but each value replaces the entity's old one, if any.
+fn accumulate_single_val_non_unique_evs_reverse<I>(
+    a: Entid,
+    r: &mut NonUniqueReverseAttributeCache,
+    iter: &mut Peekable<I>,
+) where
+    I: Iterator<Item = Aev>,
+{
+    with_aev_iter(a, iter, |e, v| {
+        for (old, entids) in r.v_es.iter_mut() {
+            if *old != v {
+                entids.remove(&e);
+            }
+        }
+        r.acc(e, v)
+    })
+}
+
 fn accumulate_single_val_unique_evs_both<I, C>(
     a: Entid,
     f: &mut C,
@@ -556,6 +575,7 @@ fn accumulate_single_val_unique_evs_both<I, C>(
     C: CardinalityOneCache,
 {
     with_aev_iter(a, iter, |e, v| {
+        remove_replaced(e, &v, f, r);
         f.set(e, v.clone());
         r.set(e, v);
     })
@@ -586,6 +606,7 @@ fn accumulate_single_val_non_unique_evs_both<I, C>(
     C: CardinalityOneCache,
 {
     with_aev_iter(a, iter, |e, v| {
+        remove_replaced(e, &v, f, r);
         f.set(e, v.clone());
         r.acc(e, v);
     })
@@ -934,7 +955,11 @@ impl AttributeCaches {
                                 if replacing {
                                     r.clear();
                                 }
-                                accumulate_unique_evs_reverse(a, r, iter);
+                                if multi || replacing {
+                                    accumulate_unique_evs_reverse(a, r, iter);
+                                } else {
+                                    accumulate_single_val_unique_evs_reverse(a, r, iter);
+                                }
                             }
                             AccumulationBehavior::Remove => accumulate_removal_one(a, r, iter),
                         }
@@ -946,7 +971,11 @@ impl AttributeCaches {
                                 if replacing {
                                     r.clear();
                                 }
-                                accumulate_non_unique_evs_reverse(a, r, iter);
+                                if multi || replacing {
+                                    accumulate_non_unique_evs_reverse(a, r, iter);
+                                } else {
+                                    accumulate_single_val_non_unique_evs_reverse(a, r, iter);
+                                }
                             }
                             AccumulationBehavior::Remove => accumulate_removal_one(a, r, iter),
                         }
-- 
2.43.0


From 7caa8a0aa7f83bb78b3f65d485ce84b978a51a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 20/47] fix: answer a pattern from the cache only if the cache
 can answer it

A keyword value was looked up in a reverse cache that might not exist, and the
values of a cardinality-many attribute were looked up among cardinality-one
values: either way the query was wrongly known to be empty.
---
 query-algebrizer/src/clauses/pattern.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/query-algebrizer/src/clauses/pattern.rs b/query-algebrizer/src/clauses/pattern.rs
index 154acde..c0f5206 100644
--- a/query-algebrizer/src/clauses/pattern.rs
+++ b/query-algebrizer/src/clauses/pattern.rs
@@ -371,8 +371,11 @@ impl ConjoiningClauses {
                                             return false;
                                         }
                                         ValueType::Keyword => {
-                                            let tv: TypedValue = TypedValue::Keyword(kw.clone());
-                                            return self.reverse_lookup(known, var, attr, &tv);
+                                            if cached_reverse {
+                                                let tv: TypedValue =
+                                                    TypedValue::Keyword(kw.clone());
+                                                return self.reverse_lookup(known, var, attr, &tv);
+                                            }
                                         }
                                         t => {
                                             let tv: TypedValue = TypedValue::Keyword(kw.clone());
@@ -397,7 +400,8 @@ impl ConjoiningClauses {
                         EvolvedNonValuePlace::Entid(entity) => {
                             match pattern.value {
                                 EvolvedValuePlace::Variable(ref var) => {
-                                    if cached_forward {
+                                    // TODO: handle multiple values.
+                                    if cached_forward && !attribute.multival {
                                         match known.get_value_for_entid(known.schema, attr, entity)
                                         {
                                             None => {
-- 
2.43.0


From 2daf1de862453cebc1aa1fcbee37c765fffe655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 21/47] fix: look a cached attribute's values up according to
 its cardinality

---
 transaction/src/query.rs | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/transaction/src/query.rs b/transaction/src/query.rs
index 9f017c5..edf988f 100644
--- a/transaction/src/query.rs
+++ b/transaction/src/query.rs
@@ -196,6 +196,13 @@ fn lookup_attribute(schema: &Schema, attribute: &Keyword) -> Result<KnownEntid>
         .ok_or_else(|| MentatError::UnknownAttribute(attribute.name().into()))
 }
 
+/// The cache holds cardinality-many attributes apart from cardinality-one attributes.
+fn is_multival(schema: &Schema, attribute: Entid) -> bool {
+    schema
+        .attribute_for_entid(attribute)
+        .map_or(false, |attr| attr.multival)
+}
+
 /// Return a single value for the provided entity and attribute.
 /// If the attribute is multi-valued, an arbitrary value is returned.
 /// If no value is present for that entity, `None` is returned.
@@ -215,9 +222,16 @@ where
     let attrid = attribute.into();
 
     if known.is_attribute_cached_forward(attrid) {
-        Ok(known
-            .get_value_for_entid(known.schema, attrid, entid)
-            .cloned())
+        if is_multival(known.schema, attrid) {
+            Ok(known
+                .get_values_for_entid(known.schema, attrid, entid)
+                .and_then(|vs| vs.first())
+                .cloned())
+        } else {
+            Ok(known
+                .get_value_for_entid(known.schema, attrid, entid)
+                .cloned())
+        }
     } else {
         fetch_values(sqlite, known, entid, attrid, true)
             .into_scalar_result()
@@ -240,10 +254,18 @@ where
     let attrid = attribute.into();
 
     if known.is_attribute_cached_forward(attrid) {
-        Ok(known
-            .get_values_for_entid(known.schema, attrid, entid)
-            .cloned()
-            .unwrap_or_else(Vec::new))
+        if is_multival(known.schema, attrid) {
+            Ok(known
+                .get_values_for_entid(known.schema, attrid, entid)
+                .cloned()
+                .unwrap_or_else(Vec::new))
+        } else {
+            Ok(known
+                .get_value_for_entid(known.schema, attrid, entid)
+                .cloned()
+                .into_iter()
+                .collect())
+        }
     } else {
         fetch_values(sqlite, known, entid, attrid, false)
             .into_coll_result()
-- 
2.43.0


From cd7378a830ab85e800afb416b076239373a1c411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 22/47] fix: don't show values that an open transaction has
 deleted or refilled through its cache

The in-progress cache copies an attribute's whole cache before it changes it, but fell
through to the stale original for each value it had deleted, or never loaded.
---
 db/src/cache.rs | 112 ++++++++++++++++++++----------------------------
 1 file changed, 46 insertions(+), 66 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 11239b8..13108db 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -124,21 +124,23 @@ where
 }
 
 trait ExtendByAbsorbing {
-    /// Just like `extend`, but rather than replacing our value with the other, the other is
-    /// absorbed into ours.
+    /// Just like `extend`, but rather than replacing our value with the other, it is replaced
+    /// with whatever the other leaves once its in-place deletions are folded in.
     fn extend_by_absorbing(&mut self, other: Self);
 }
 
 impl<K, V> ExtendByAbsorbing for BTreeMap<K, V>
 where
     K: Ord,
-    V: Absorb,
+    V: Absorb + Default,
 {
     fn extend_by_absorbing(&mut self, other: Self) {
         for (k, v) in other.into_iter() {
             match self.entry(k) {
                 Occupied(mut entry) => {
-                    entry.get_mut().absorb(v);
+                    let mut replacement = V::default();
+                    replacement.absorb(v);
+                    entry.insert(replacement);
                 }
                 Vacant(entry) => {
                     entry.insert(v);
@@ -417,10 +419,6 @@ impl UniqueReverseAttributeCache {
     fn get_e(&self, v: &TypedValue) -> Option<Entid> {
         self.v_e.get(v).and_then(|o| *o)
     }
-
-    fn lookup(&self, v: &TypedValue) -> Option<Option<Entid>> {
-        self.v_e.get(v).cloned()
-    }
 }
 
 #[derive(Clone, Debug, Default)]
@@ -1031,39 +1029,6 @@ impl AttributeCaches {
     }
 }
 
-// We need this block for fall-back.
-impl AttributeCaches {
-    fn get_entid_for_value_if_present(
-        &self,
-        attribute: Entid,
-        value: &TypedValue,
-    ) -> Option<Option<Entid>> {
-        if self.is_attribute_cached_reverse(attribute) {
-            self.unique_reverse
-                .get(&attribute)
-                .and_then(|c| c.lookup(value))
-        } else {
-            None
-        }
-    }
-
-    fn get_value_for_entid_if_present(
-        &self,
-        schema: &Schema,
-        attribute: Entid,
-        entid: Entid,
-    ) -> Option<Option<&TypedValue>> {
-        if let Some(&Some(ref tv)) = self
-            .value_pairs(schema, attribute)
-            .and_then(|c| c.get(&entid))
-        {
-            Some(Some(tv))
-        } else {
-            None
-        }
-    }
-}
-
 /// SQL stuff.
 impl AttributeCaches {
     fn repopulate(
@@ -1075,6 +1040,26 @@ impl AttributeCaches {
         let is_fulltext = schema
             .attribute_for_entid(attribute)
             .map_or(false, |s| s.fulltext);
+
+        // There might be no values at all, so be sure to begin with a fresh cache.
+        if let Some(attr) = schema.attribute_for_entid(attribute) {
+            if self.is_attribute_cached_forward(attribute) {
+                if attr.multival {
+                    self.multi_vals.insert(attribute, Default::default());
+                } else {
+                    self.single_vals.insert(attribute, Default::default());
+                }
+            }
+            if self.is_attribute_cached_reverse(attribute) {
+                if attr.unique.is_some() {
+                    self.unique_reverse.insert(attribute, Default::default());
+                } else {
+                    self.non_unique_reverse
+                        .insert(attribute, Default::default());
+                }
+            }
+        }
+
         let table = if is_fulltext {
             "fulltext_datoms"
         } else {
@@ -1784,12 +1769,12 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_forward.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the values were deleted, there will be an empty
-            // array in `overlay` -- `Some(vec![])` -- and we won't fall through.
-            // We can safely use `or_else`.
-            self.overlay
-                .get_values_for_entid(schema, attribute, entid)
-                .or_else(|| self.inner.get_values_for_entid(schema, attribute, entid))
+            // `overlay` holds all of an attribute's values or none of them, so only fall through
+            // if it knows nothing about the attribute.
+            match self.overlay.values_pairs(schema, attribute) {
+                Some(pairs) => pairs.get(&entid),
+                None => self.inner.get_values_for_entid(schema, attribute, entid),
+            }
         }
     }
 
@@ -1802,14 +1787,10 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_forward.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the value was deleted, there will be `Some(None)`
-            // in `overlay`, and we won't fall through.
-            // We can safely use `or_else`.
-            match self
-                .overlay
-                .get_value_for_entid_if_present(schema, attribute, entid)
-            {
-                Some(present) => present,
+            // `overlay` holds all of an attribute's values or none of them, so only fall through
+            // if it knows nothing about the attribute.
+            match self.overlay.value_pairs(schema, attribute) {
+                Some(pairs) => pairs.get(&entid).and_then(|v| v.as_ref()),
                 None => self.inner.get_value_for_entid(schema, attribute, entid),
             }
         }
@@ -1862,9 +1843,12 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_reverse.contains(&attribute) {
             None
         } else {
-            self.overlay
-                .get_entids_for_value(attribute, value)
-                .or_else(|| self.inner.get_entids_for_value(attribute, value))
+            // `overlay` holds all of an attribute's values or none of them, so only fall through
+            // if it knows nothing about the attribute.
+            match self.overlay.non_unique_reverse.get(&attribute) {
+                Some(cache) => cache.get_es(value),
+                None => self.inner.get_entids_for_value(attribute, value),
+            }
         }
     }
 
@@ -1872,14 +1856,10 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_reverse.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the value was deleted, there will be `Some(None)`
-            // in `overlay`, and we won't fall through.
-            // We can safely use `or_else`.
-            match self
-                .overlay
-                .get_entid_for_value_if_present(attribute, value)
-            {
-                Some(present) => present,
+            // `overlay` holds all of an attribute's values or none of them, so only fall through
+            // if it knows nothing about the attribute.
+            match self.overlay.unique_reverse.get(&attribute) {
+                Some(cache) => cache.get_e(value),
                 None => self.inner.get_entid_for_value(attribute, value),
             }
         }
-- 
2.43.0


From 2efb85f1e7b697b87e191cf4007fd63ed8359adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 23/47] fix: commit a cache that somebody still holds a
 reference to

This panicked, after the SQLite commit and with the metadata locked.
---
 db/src/cache.rs | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 13108db..68cc866 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1905,29 +1905,20 @@ impl InProgressSQLiteAttributeCache {
         }
 
         // If we have exclusive write access to the destination cache, update it in place.
-        // Because the `Conn` also contains an `Arc`, this will ordinarily never be the case.
-        // In order to hit this code block, we need to eliminate our reference… do so by dropping
-        // our copy of the `Arc`.
+        // Drop our copy of the `Arc` so that it doesn't prevent that. Anybody else who's still
+        // looking at the old cache keeps it, and we update a copy.
         ::std::mem::drop(self.inner);
-        if let Some(dest) = Arc::get_mut(&mut destination.inner) {
-            // Yeah, we unregister in both directions. The only way
-            // `unregistered_forward` won't be the same as `unregistered_reverse` is if
-            // our `overlay` added one direction back in.
-            for unregistered in self.unregistered_forward.union(&self.unregistered_reverse) {
-                dest.unregister_attribute(*unregistered);
-            }
+        let dest = destination.make_mut();
 
-            // Now replace each attribute's entry with `overlay`.
-            dest.absorb(self.overlay);
-            return;
+        // Yeah, we unregister in both directions. The only way
+        // `unregistered_forward` won't be the same as `unregistered_reverse` is if
+        // our `overlay` added one direction back in.
+        for unregistered in self.unregistered_forward.union(&self.unregistered_reverse) {
+            dest.unregister_attribute(*unregistered);
         }
 
-        // If we don't, populate `self.overlay` with whatever we didn't overwrite,
-        // and then shim it into `destination.`
-        // We haven't implemented this because it does not currently occur.
-        // TODO: do this! Then do this:
-        // destination.inner = Arc::new(self.overlay);
-        unimplemented!();
+        // Now replace each attribute's entry with `overlay`.
+        dest.absorb(self.overlay);
     }
 }
 
-- 
2.43.0


From a65a4058d86b41acf01112837155181f8d61f74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 24/47] fix: refuse to cache an unknown attribute in both
 directions

---
 db/src/cache.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 68cc866..de76c26 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1523,6 +1523,11 @@ impl SQLiteAttributeCache {
     {
         let a = attribute.into();
 
+        // The attribute must exist!
+        let _ = schema
+            .attribute_for_entid(a)
+            .ok_or_else(|| DbErrorKind::UnknownAttribute(a))?;
+
         // TODO: reverse-index unique by default?
 
         let caches = self.make_mut();
-- 
2.43.0


From 847c89d70be0363ba6f6d701bdee77f3977d0e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 25/47] fix: skip the values of a former attribute when filling
 a cache

This looped forever.
---
 db/src/cache.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index de76c26..700846d 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -982,6 +982,9 @@ impl AttributeCaches {
                         unreachable!(); // Must be cached in at least one direction!
                     }
                 }
+            } else {
+                // There's nothing to cache if it's no longer an attribute.
+                with_aev_iter(a, iter, |_, _| ());
             }
         }
     }
-- 
2.43.0


From 9d38826ffe9bec5bcd0736e00f7d57fa003a93be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 26/47] fix: refetch a cached attribute whose definition
 changes

The cache kept the values of an attribute under the old cardinality and uniqueness,
and so found none of them under the new.
---
 db/src/cache.rs        | 21 +++++++++++++++++++++
 transaction/src/lib.rs | 13 +++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 700846d..223904c 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1748,6 +1748,27 @@ impl InProgressSQLiteAttributeCache {
         self.unregistered_reverse.insert(a);
     }
 
+    /// Fetch the cached attributes picked by `stale` from the store again, following a change that
+    /// we weren't told about value by value. An attribute that can't be fetched is unregistered.
+    pub fn refresh<P>(&mut self, schema: &Schema, sqlite: &rusqlite::Connection, stale: P)
+    where
+        P: Fn(Entid) -> bool,
+    {
+        let forward = self.overlay.forward_cached_attributes.clone();
+        let reverse = self.overlay.reverse_cached_attributes.clone();
+        for &a in forward.union(&reverse).filter(|&&a| stale(a)) {
+            self.unregister(a);
+            let fetched = match (forward.contains(&a), reverse.contains(&a)) {
+                (true, false) => self.register_forward(schema, sqlite, a),
+                (false, true) => self.register_reverse(schema, sqlite, a),
+                _ => self.register(schema, sqlite, a),
+            };
+            if fetched.is_err() {
+                self.unregister(a);
+            }
+        }
+    }
+
     pub fn unregister_all(&mut self) {
         self.overlay.unregister_all_attributes();
         self.unregistered_forward
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index 465db13..732ce71 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -186,7 +186,7 @@ impl<'a, 'c> InProgress<'a, 'c> {
         self.tx_observer_watcher.txes.extend(observer_watcher.txes);
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
-            self.schema = schema;
+            self.change_schema(schema);
         }
         Ok(report)
     }
@@ -220,11 +220,20 @@ impl<'a, 'c> InProgress<'a, 'c> {
         self.tx_observer_watcher.txes.extend(observer_watcher.txes);
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
-            self.schema = schema;
+            self.change_schema(schema);
         }
         Ok(report)
     }
 
+    /// The cache holds an attribute's values according to its definition.
+    fn change_schema(&mut self, schema: Schema) {
+        let old = std::mem::replace(&mut self.schema, schema);
+        let (cache, new) = (&mut self.cache, &self.schema);
+        cache.refresh(new, &self.transaction, |a| {
+            old.attribute_for_entid(a) != new.attribute_for_entid(a)
+        });
+    }
+
     /// A transact that fails part of the way through must leave no trace: this `InProgress` can
     /// still be used, and committed.
     fn conclude_transact<T>(&self, result: ::db_traits::errors::Result<T>) -> Result<T> {
-- 
2.43.0


From f6d693c0a53b2a0c20be829d9a28976c47cd0b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 27/47] fix: fail a sync that is given a transaction without a
 partition map

By the time it was noticed, local transactions had been rewound or remote ones applied;
it was reported as if nothing had changed, and then committed.
---
 tolstoy/src/syncer.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index 4ad34e9..7c805b4 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -337,12 +337,12 @@ impl Syncer {
             // and with the txInstant datom rewriting.
             // Figure out how to combine these operations into a resuable primitive(s).
             // See notes in 'merge' for why we're doing this stuff.
-            let mut partition_map = match tx.parts[0].partitions.clone() {
+            let mut partition_map = match tx.parts.first().and_then(|p| p.partitions.clone()) {
                 Some(parts) => parts,
                 None => {
-                    return Ok(SyncReport::BadRemoteState(
+                    bail!(TolstoyError::BadRemoteState(
                         "Missing partition map in incoming transaction".to_string(),
-                    ));
+                    ))
                 }
             };
 
@@ -401,12 +401,12 @@ impl Syncer {
         for remote_tx in incoming_txs {
             let mut builder = TermBuilder::new();
 
-            let partition_map = match remote_tx.parts[0].partitions.clone() {
+            let partition_map = match remote_tx.parts.first().and_then(|p| p.partitions.clone()) {
                 Some(parts) => parts,
                 None => {
-                    return Ok(SyncReport::BadRemoteState(
+                    bail!(TolstoyError::BadRemoteState(
                         "Missing partition map in incoming transaction".to_string(),
-                    ));
+                    ))
                 }
             };
 
-- 
2.43.0


From a7341769efec15e8b15a330a10abc1bbff62fc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 28/47] fix: refetch cached attributes once a merge has rewound
 the local transactions

---
 tolstoy/src/syncer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index 7c805b4..68b1756 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -393,6 +393,9 @@ impl Syncer {
         };
         ip.partition_map = new_partition_map;
 
+        // The cache wasn't told about any of this.
+        ip.cache.refresh(&ip.schema, &ip.transaction, |_| true);
+
         // 2) Transact incoming.
         // 2.1) Prepare remote tx tuples (TermBuilder, PartitionMap, Uuid), which represent
         // a remote transaction, its global identifier and partitions after it's applied.
-- 
2.43.0


From 9c1c805c7e6a1a639177c44d71f9d87fa5a1f234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 29/47] fix: forget a local transaction that a merge rolls back
 as a no-op

---
 tolstoy/src/syncer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index 68b1756..755477c 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -626,6 +626,7 @@ impl Syncer {
 
             d(&"Savepoint before transacting a local tx...".to_string());
             ip.savepoint("speculative_local")?;
+            let partition_map = ip.partition_map.clone();
 
             d(&format!(
                 "Transacting builder filled with local txs... {:?}",
@@ -664,6 +665,10 @@ impl Syncer {
                     report.tx_id
                 ));
                 ip.rollback_savepoint("speculative_local")?;
+                // Forget the transaction in memory, too: it allocated entids, and would be reported
+                // to observers on commit.
+                ip.partition_map = partition_map;
+                ip.tx_observer_watcher.txes.remove(&report.tx_id);
             }
         }
 
-- 
2.43.0


From d76d372fe64bbfe225eca4489aeb64bf76aa1b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 30/47] fix: fail an upload that the remote refuses

The transactions were recorded as uploaded.
---
 tolstoy/src/remote_client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tolstoy/src/remote_client.rs b/tolstoy/src/remote_client.rs
index 9c62071..5030ebb 100644
--- a/tolstoy/src/remote_client.rs
+++ b/tolstoy/src/remote_client.rs
@@ -19,6 +19,7 @@ use uuid::Uuid;
 
 use crate::logger::d;
 use public_traits::errors::Result;
+use tolstoy_traits::errors::TolstoyError;
 
 use crate::types::{GlobalTransactionLog, Tx, TxPart};
 
@@ -116,6 +117,7 @@ impl RemoteClient {
 
             if status_code != expected {
                 d(&format!("bad put response: {:?}", status_code));
+                bail!(TolstoyError::BadRemoteResponse(status_code.to_string()));
             }
             Ok(())
         };
-- 
2.43.0


From 7a7f4bb014d637756970687903d9b9ff0022c77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:58 +0000
Subject: [PATCH 31/47] fix: an or whose patterns all turn out empty yields no
 results rather than panicking

---
 query-algebrizer/src/clauses/or.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 1376fa6..c3627a3 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -354,12 +354,14 @@ impl ConjoiningClauses {
 
         assert!(patterns.len() >= 2);
 
+        let mut empty_because: Option<EmptyBecause> = None;
         let patterns: Vec<EvolvedPattern> = patterns
             .into_iter()
             .filter_map(|pattern| {
                 match self.make_evolved_pattern(known, pattern) {
-                    PlaceOrEmpty::Empty(_e) => {
-                        // Never mind.
+                    PlaceOrEmpty::Empty(e) => {
+                        // Never mind, unless no arm is left.
+                        empty_because = Some(e);
                         None
                     }
                     PlaceOrEmpty::Place(p) => Some(p),
@@ -367,6 +369,12 @@ impl ConjoiningClauses {
             })
             .collect();
 
+        // If no arm can match, neither can the `or`.
+        if patterns.is_empty() {
+            self.mark_known_empty(empty_because.expect("empty for a reason"));
+            return Ok(());
+        }
+
         // Begin by building a base CC that we'll use to produce constraints from each pattern.
         // Populate this base CC with whatever variables are already known from the CC to which
         // we're applying this `or`.
-- 
2.43.0


From 0bbc9afcb31b59986441e81db0d63ca4b3793765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:58 +0000
Subject: [PATCH 32/47] fix: an or arm whose type requirements can't be met
 doesn't empty the other arms

---
 query-algebrizer/src/clauses/or.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index c3627a3..cfaeafd 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -585,12 +585,15 @@ impl ConjoiningClauses {
                     receptacle.apply_clause(known, clause)?;
                 }
             }
-            if receptacle.is_known_empty() {
-                empty_because = receptacle.empty_because;
-            } else {
+            if !receptacle.is_known_empty() {
                 receptacle.expand_column_bindings();
                 receptacle.prune_extracted_types();
                 receptacle.process_required_types()?;
+            }
+            // The arm might only now be found to be empty.
+            if receptacle.is_known_empty() {
+                empty_because = receptacle.empty_because;
+            } else {
                 acc.push(receptacle);
             }
         }
-- 
2.43.0


From 98811f4fb242659b3b6168dfc20f040d7abad5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:35 +0000
Subject: [PATCH 33/47] fix: types of variables local to an or-join's arms
 don't leak to the enclosing query

---
 query-algebrizer/src/clauses/or.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index cfaeafd..72212e8 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -18,7 +18,7 @@ use edn::query::{
     WhereClause,
 };
 
-use crate::clauses::{ConjoiningClauses, PushComputed};
+use crate::clauses::{ConjoiningClauses, Intersection, PushComputed};
 
 use query_algebrizer_traits::errors::Result;
 
@@ -679,6 +679,8 @@ impl ConjoiningClauses {
             for cc in clauses {
                 union_types(&mut additional_types, &cc.known_types);
             }
+            // Only what's projected is the same variable outside of the arms.
+            additional_types.keep_intersected_keys(&projection);
             self.broaden_types(additional_types);
         }
 
-- 
2.43.0


From 366a790fdd909e60eb88e4297c805aa4f419a2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 34/47] fix: a variable whose type differs between the arms of
 an or can be projected

---
 query-algebrizer/src/clauses/or.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 72212e8..6a93d55 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -392,6 +392,9 @@ impl ConjoiningClauses {
         // This is where we'll collect everything we eventually add to the destination CC.
         let mut folded = ConjoiningClauses::default();
 
+        // Where the type of each bound variable can be found, should the arms disagree about it.
+        let mut type_tags: BTreeMap<Variable, QualifiedAlias> = BTreeMap::default();
+
         // Scoped borrow of source_alias.
         {
             // Clone this CC once for each pattern.
@@ -441,6 +444,9 @@ impl ConjoiningClauses {
             // we know that we can blindly merge: collisions aren't possible.
             if let Some(first) = receptacles.peek() {
                 for (v, cols) in &first.column_bindings {
+                    if let Some(tag) = cols.iter().find_map(|c| c.for_associated_type_tag()) {
+                        type_tags.insert(v.clone(), tag);
+                    }
                     match self.column_bindings.entry(v.clone()) {
                         Entry::Vacant(e) => {
                             e.insert(cols.clone());
@@ -494,6 +500,12 @@ impl ConjoiningClauses {
             }
         }
 
+        for (v, tag) in type_tags {
+            if folded.known_type(&v).is_none() && self.known_type(&v).is_none() {
+                self.extracted_types.entry(v).or_insert(tag);
+            }
+        }
+
         // Collect the source alias: we use a single table join to represent the entire `or`.
         self.from.push(source_alias);
 
@@ -652,8 +664,10 @@ impl ConjoiningClauses {
 
         // For any variable which has an imprecise type anywhere in the UNION, add it to the
         // set that needs type extraction. All UNION arms must project the same columns.
+        // The same goes for a variable that has a precise type in each arm, but not the same one.
         for var in projection.iter() {
-            if acc.iter().any(|cc| cc.known_type(var).is_none()) {
+            let expected = acc[0].known_type(var);
+            if expected.is_none() || acc.iter().any(|cc| cc.known_type(var) != expected) {
                 type_needed.insert(var.clone());
             }
         }
-- 
2.43.0


From 893376b2162a5aab4ba385098247816f2ee0fff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:37 +0000
Subject: [PATCH 35/47] fix: an or-join arm that doesn't bind a projected
 variable is an error rather than a panic

---
 query-algebrizer/src/clauses/or.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 6a93d55..423a123 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -20,7 +20,7 @@ use edn::query::{
 
 use crate::clauses::{ConjoiningClauses, Intersection, PushComputed};
 
-use query_algebrizer_traits::errors::Result;
+use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
 use crate::types::{
     ColumnAlternation, ColumnConstraintOrAlternation, ColumnIntersection, ComputedTable,
@@ -606,6 +606,14 @@ impl ConjoiningClauses {
             if receptacle.is_known_empty() {
                 empty_because = receptacle.empty_because;
             } else {
+                // Every arm must give each projected variable a value.
+                for var in projected.iter() {
+                    if !receptacle.is_value_bound(var)
+                        && !receptacle.column_bindings.contains_key(var)
+                    {
+                        bail!(AlgebrizerError::UnboundVariable(var.name()));
+                    }
+                }
                 acc.push(receptacle);
             }
         }
-- 
2.43.0


From debb54745cb90d92acef98ebb2b788849484252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 36/47] fix: write doubles that aren't finite as SQL

---
 sql/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sql/src/lib.rs b/sql/src/lib.rs
index 65dd6bc..8d4b8d2 100644
--- a/sql/src/lib.rs
+++ b/sql/src/lib.rs
@@ -148,7 +148,15 @@ impl QueryBuilder for SQLiteQueryBuilder {
                 // We format with 'e' -- scientific notation -- so that SQLite treats them as
                 // floats and not integers. This is most noticeable for fulltext scores, which
                 // will currently (2017-06) always be 0, and need to round-trip as doubles.
-                self.push_sql(format!("{:e}", v).as_str());
+                // SQL has no names for the values that aren't finite: a literal that overflows is
+                // infinite, and SQLite stores NaN as NULL.
+                if v.is_nan() {
+                    self.push_sql("NULL");
+                } else if v.is_infinite() {
+                    self.push_sql(if *v > 0.0 { "9e999" } else { "-9e999" });
+                } else {
+                    self.push_sql(format!("{:e}", v).as_str());
+                }
             }
             Instant(dt) => {
                 self.push_sql(format!("{}", dt.to_micros()).as_str()); // TODO: argument instead?
-- 
2.43.0


From 6e34e9dfe6f408e02132589a43e0eba4d85908ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:19 +0000
Subject: [PATCH 37/47] fix: retract rather than assert a datom when retracting
 by a reversed attribute

---
 db/src/tx.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 87dbf95..7fc8685 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -468,12 +468,7 @@ where
                         let reversed_e = in_process.entity_v_into_term_e(v, &a)?;
                         let reversed_a = in_process.entity_a_into_term_a(reversed_a)?;
                         let reversed_v = in_process.entity_e_into_term_v(e)?;
-                        terms.push(Term::AddOrRetract(
-                            OpType::Add,
-                            reversed_e,
-                            reversed_a,
-                            reversed_v,
-                        ));
+                        terms.push(Term::AddOrRetract(op, reversed_e, reversed_a, reversed_v));
                     } else {
                         let a = in_process.entity_a_into_term_a(a)?;
                         let attribute = self.schema.require_attribute_for_entid(a)?;
-- 
2.43.0


From 0adc36ae0f20e9ce567b01bf65665dcabd454e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:53 +0000
Subject: [PATCH 38/47] fix: assert a complex upsert of entities that upserted
 by themselves instead of panicking

---
 db/src/tx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 7fc8685..12e403c 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -730,6 +730,9 @@ where
         // Now we can collect upsert populations.
         let (mut generation, inert_terms) = Generation::from(terms, &self.schema)?;
 
+        // Every tempid that has resolved via upsert so far.
+        let mut resolved_temp_ids = TempIdMap::default();
+
         // And evolve them forward.
         while generation.can_evolve() {
             debug!("generation {:?}", generation);
@@ -750,6 +753,7 @@ where
 
             // Report each tempid that resolves via upsert.
             for (tempid, entid) in temp_id_map {
+                resolved_temp_ids.insert(tempid.clone(), entid);
                 // Since `UpsertEV` instances always transition to `UpsertE` instances, it might be
                 // that a tempid resolves in two generations, and those resolutions might conflict.
                 if let Some(previous) = tempids.insert((*tempid).clone(), entid) {
@@ -773,6 +777,10 @@ where
             debug!("tempids {:?}", tempids);
         }
 
+        // A complex upsert whose tempids resolved to different entities than any that has its [a v]
+        // is an ordinary assertion by now, about a tempid that resolved in an earlier generation.
+        generation = generation.evolve_one_step(&resolved_temp_ids);
+
         generation.allocate_unresolved_upserts()?;
 
         debug!("final generation {:?}", generation);
-- 
2.43.0


From c548e2ae0dbbf4b13c1f5f3328034aed1944571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:32 +0000
Subject: [PATCH 39/47] fix: assert what an upserted tempid could have upserted
 by but didn't

---
 db/src/tx.rs                | 19 +++++++++++--------
 db/src/upsert_resolution.rs | 23 +++++++++++++++++++----
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 12e403c..1b6b261 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -46,7 +46,7 @@
 //! keep everything straight.
 
 use std::borrow::Cow;
-use std::collections::{BTreeMap, BTreeSet, VecDeque};
+use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
 use std::iter::once;
 
 use crate::db;
@@ -174,13 +174,14 @@ where
 
     /// Given a collection of tempids and the [a v] pairs that they might upsert to, resolve exactly
     /// which [a v] pairs do upsert to entids, and map each tempid that upserts to the upserted
-    /// entid.  The keys of the resulting map are exactly those tempids that upserted.
+    /// entid.  The keys of the resulting map are exactly those tempids that upserted, and the pairs
+    /// are exactly those that some entity has in the store.
     pub(crate) fn resolve_temp_id_avs<'b>(
         &self,
         temp_id_avs: &'b [(TempIdHandle, AVPair)],
-    ) -> Result<TempIdMap> {
+    ) -> Result<(TempIdMap, HashSet<AVPair>)> {
         if temp_id_avs.is_empty() {
-            return Ok(TempIdMap::default());
+            return Ok((TempIdMap::default(), HashSet::default()));
         }
 
         // Map [a v]->entid.
@@ -227,7 +228,9 @@ where
             ));
         }
 
-        Ok(tempids)
+        let upserted_avs = av_map.keys().map(|av_pair| (*av_pair).clone()).collect();
+
+        Ok((tempids, upserted_avs))
     }
 
     /// Pipeline stage 1: convert `Entity` instances into `Term` instances, ready for term
@@ -741,11 +744,11 @@ where
             debug!("trying to resolve avs {:?}", tempid_avs);
 
             // Evolve further.
-            let temp_id_map: TempIdMap = self.resolve_temp_id_avs(&tempid_avs[..])?;
+            let (temp_id_map, upserted_avs) = self.resolve_temp_id_avs(&tempid_avs[..])?;
 
             debug!("resolved avs for tempids {:?}", temp_id_map);
 
-            generation = generation.evolve_one_step(&temp_id_map);
+            generation = generation.evolve_one_step(&temp_id_map, &upserted_avs);
 
             // Errors.  BTree* since we want deterministic results.
             let mut conflicting_upserts: BTreeMap<TempId, BTreeSet<KnownEntid>> =
@@ -779,7 +782,7 @@ where
 
         // A complex upsert whose tempids resolved to different entities than any that has its [a v]
         // is an ordinary assertion by now, about a tempid that resolved in an earlier generation.
-        generation = generation.evolve_one_step(&resolved_temp_ids);
+        generation = generation.evolve_one_step(&resolved_temp_ids, &HashSet::default());
 
         generation.allocate_unresolved_upserts()?;
 
diff --git a/db/src/upsert_resolution.rs b/db/src/upsert_resolution.rs
index f656425..42134e6 100644
--- a/db/src/upsert_resolution.rs
+++ b/db/src/upsert_resolution.rs
@@ -13,7 +13,7 @@
 //! This module implements the upsert resolution algorithm described at
 //! https://github.com/mozilla/mentat/wiki/Transacting:-upsert-resolution-algorithm.
 
-use std::collections::{BTreeMap, BTreeSet};
+use std::collections::{BTreeMap, BTreeSet, HashSet};
 
 use indexmap;
 use petgraph::unionfind;
@@ -139,10 +139,14 @@ impl Generation {
     }
 
     /// Evolve this generation one step further by rewriting the existing :db/add entities using the
-    /// given temporary IDs.
+    /// given temporary IDs.  `upserted_avs` are the [a v] pairs that some entity has in the store.
     ///
     /// TODO: Considering doing this in place; the function already consumes `self`.
-    pub(crate) fn evolve_one_step(self, temp_id_map: &TempIdMap) -> Generation {
+    pub(crate) fn evolve_one_step(
+        self,
+        temp_id_map: &TempIdMap,
+        upserted_avs: &HashSet<AVPair>,
+    ) -> Generation {
         let mut next = Generation::default();
 
         // We'll iterate our own allocations to resolve more things, but terms that have already
@@ -151,7 +155,18 @@ impl Generation {
 
         for UpsertE(t, a, v) in self.upserts_e {
             match temp_id_map.get(&*t) {
-                Some(&n) => next.upserted.push(Term::AddOrRetract(OpType::Add, n, a, v)),
+                Some(&n) => {
+                    // Only the [a v] that upserted is in the store: the tempid might have other
+                    // [a v] that could have upserted but didn't.
+                    let av_pair = (a, v);
+                    let upserted = upserted_avs.contains(&av_pair);
+                    let term = Term::AddOrRetract(OpType::Add, n, a, av_pair.1);
+                    if upserted {
+                        next.upserted.push(term)
+                    } else {
+                        next.resolved.push(term)
+                    }
+                }
                 None => {
                     next.allocations
                         .push(Term::AddOrRetract(OpType::Add, Right(t), a, Left(v)))
-- 
2.43.0


From 2193e03346c50e24a39b922aa2baa8401bb5fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:12 +0000
Subject: [PATCH 40/47] fix: ask the store about tables that nothing constrains
 even if every result is known

---
 query-algebrizer/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 36cdbe7..20d47fa 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -183,7 +183,9 @@ impl AlgebraicQuery {
     /// Return true if every variable in the find spec is fully bound to a single value,
     /// and evaluating the query doesn't require running SQL.
     pub fn is_fully_unit_bound(&self) -> bool {
-        self.cc.wheres.is_empty() && self.is_fully_bound()
+        // A table can have no rows even if nothing constrains it (e.g., it can be the union of the
+        // arms of an `or`), and then the query has no results.
+        self.cc.from.is_empty() && self.cc.wheres.is_empty() && self.is_fully_bound()
     }
 
     /// Return a set of the input variables mentioned in the `:in` clause that have not yet been
-- 
2.43.0


From b5971419f937958f55e3c7517024c70218ee16b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:20 +0000
Subject: [PATCH 41/47] fix: order by a numeric variable whose type isn't known
 without asking for its type tag

---
 query-algebrizer/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 20d47fa..0f0dd6e 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -26,7 +26,7 @@ mod validate;
 
 use core_traits::{Entid, TypedValue, ValueType};
 
-use mentat_core::{parse_query, CachedAttributes, Schema};
+use mentat_core::{parse_query, CachedAttributes, SQLValueTypeSet, Schema};
 
 use mentat_core::counter::RcCounter;
 
@@ -234,8 +234,9 @@ fn validate_and_simplify_order(
                     bail!(AlgebrizerError::UnboundVariable(var.name()))
                 }
 
-                // Otherwise, determine if we also need to order by type…
-                if cc.known_type(&var).is_none() {
+                // Otherwise, determine if we also need to order by type… The type tag is only
+                // projected if there can be more than one: Long and Double share theirs.
+                if !cc.known_type_set(&var).has_unique_type_tag() {
                     order_bys.push(OrderBy(
                         direction.clone(),
                         VariableColumn::VariableTypeTag(var.clone()),
-- 
2.43.0


From c70158432922162f467c64d0274127b4f78fff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:47 +0000
Subject: [PATCH 42/47] fix: ordering by a variable in `the` doesn't group by
 it

---
 query-projector/src/project.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/query-projector/src/project.rs b/query-projector/src/project.rs
index 4b036a0..be0152a 100644
--- a/query-projector/src/project.rs
+++ b/query-projector/src/project.rs
@@ -372,7 +372,8 @@ pub(crate) fn project_elements<'a, I: IntoIterator<Item = &'a Element>>(
     // If a variable is of a non-fixed type, also project the type tag column, so we don't
     // accidentally unify across types when considering uniqueness!
     for var in query.named_projection.iter() {
-        if outer_variables.contains(var) {
+        // `(the ?x)` already projects its variable, and ordering by it mustn't group by it.
+        if outer_variables.contains(var) || corresponded_variables.contains(var) {
             continue;
         }
 
-- 
2.43.0


From 4eb36b56ff2facfa47e108ef86c5c1d5768037bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:27 +0000
Subject: [PATCH 43/47] fix: aggregate a value that's known instead of passing
 it through

---
 query-projector-traits/aggregates.rs | 32 +++++++++-------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/query-projector-traits/aggregates.rs b/query-projector-traits/aggregates.rs
index 16133a7..8ebb23a 100644
--- a/query-projector-traits/aggregates.rs
+++ b/query-projector-traits/aggregates.rs
@@ -150,14 +150,6 @@ impl SimpleAggregate {
         format!("({} {})", self.op.to_sql(), self.var.name())
     }
 
-    pub fn use_static_value(&self) -> bool {
-        use self::SimpleAggregationOp::*;
-        match self.op {
-            Avg | Max | Min | Sum => true,
-            Count => false,
-        }
-    }
-
     /// Return `true` if this aggregate can be `NULL` over 0 rows.
     pub fn is_nullable(&self) -> bool {
         use self::SimpleAggregationOp::*;
@@ -195,21 +187,17 @@ pub fn projected_column_for_simple_aggregate(
     let known_types = cc.known_type_set(&simple.var);
     let return_type = simple.op.is_applicable_to_types(known_types)?;
     let projected_column_or_expression = if let Some(value) = cc.bound_value(&simple.var) {
-        // Oh, we already know the value!
-        if simple.use_static_value() {
-            // We can statically compute the aggregate result for some operators -- not count or
-            // sum, but avg/max/min are OK.
-            ColumnOrExpression::Value(value)
+        // Oh, we already know the value! We can't use it as it is: the number of rows that we
+        // aggregate matters to the result (for `sum`), and to whether there is one at all, and
+        // aggregating is what makes a single row of all of them.
+        let expression = Expression::Unary {
+            sql_op: simple.op.to_sql(),
+            arg: ColumnOrExpression::Value(value),
+        };
+        if simple.is_nullable() {
+            ColumnOrExpression::NullableAggregate(Box::new(expression), return_type)
         } else {
-            let expression = Expression::Unary {
-                sql_op: simple.op.to_sql(),
-                arg: ColumnOrExpression::Value(value),
-            };
-            if simple.is_nullable() {
-                ColumnOrExpression::NullableAggregate(Box::new(expression), return_type)
-            } else {
-                ColumnOrExpression::Expression(Box::new(expression), return_type)
-            }
+            ColumnOrExpression::Expression(Box::new(expression), return_type)
         }
     } else {
         // The common case: the values are bound during execution.
-- 
2.43.0


From a8b2d95301a4dbdc3cd8e968a09b000b940fb392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:45 +0000
Subject: [PATCH 44/47] fix: pull what is named along with a wildcard

A wildcard stopped looking at the rest of the pattern, so an attribute named
after it (:db/id, or one with an alias) was ignored, and one named before it
lost its alias.
---
 query-pull/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/query-pull/src/lib.rs b/query-pull/src/lib.rs
index 138d2a5..16decc4 100644
--- a/query-pull/src/lib.rs
+++ b/query-pull/src/lib.rs
@@ -162,10 +162,11 @@ impl Puller {
                 PullAttributeSpec::Wildcard => {
                     let attribute_ids = schema.attribute_map.keys();
                     for id in attribute_ids {
-                        names.insert(*id, lookup_name(id)?);
-                        attrs.insert(*id);
+                        // An alias given for an attribute stays.
+                        if attrs.insert(*id) {
+                            names.insert(*id, lookup_name(id)?);
+                        }
                     }
-                    break;
                 }
                 PullAttributeSpec::Attribute(NamedPullAttribute {
                     ref attribute,
-- 
2.43.0


From e173a37cb3a5e6b756325be338c0029373d9f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:42 +0000
Subject: [PATCH 45/47] fix: check the value pointer in entity_builder_add_uuid

---
 ffi/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ffi/src/lib.rs b/ffi/src/lib.rs
index bb7e7e5..fe815b1 100644
--- a/ffi/src/lib.rs
+++ b/ffi/src/lib.rs
@@ -1066,7 +1066,7 @@ pub unsafe extern "C" fn entity_builder_add_uuid(
     value: *const [u8; 16],
     error: *mut ExternError,
 ) {
-    assert_not_null!(builder);
+    assert_not_null!(builder, value);
     let builder = &mut *builder;
     let kw = kw_from_string(c_char_to_string(kw));
     let value = &*value;
-- 
2.43.0


From f8abbcc03253466ab8fc4b4f93f897d2e8e430ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:35 +0000
Subject: [PATCH 46/47] fix: let a negative number be ground to a variable that
 could be a ref or a long

---
 query-algebrizer/src/clauses/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/clauses/convert.rs b/query-algebrizer/src/clauses/convert.rs
index 9448229..219eb4b 100644
--- a/query-algebrizer/src/clauses/convert.rs
+++ b/query-algebrizer/src/clauses/convert.rs
@@ -138,11 +138,11 @@ impl ConjoiningClauses {
                         // This can only be a ref.
                         Ok(Val(TypedValue::Ref(x)))
                     }
-                    (_, false, true) => {
+                    (_, false, true) | (false, true, true) => {
                         // This can only be a long.
                         Ok(Val(TypedValue::Long(x)))
                     }
-                    (false, true, _) => {
+                    (false, true, false) => {
                         // This isn't a valid ref, but that's the type to which this must conform!
                         Ok(Impossible(EmptyBecause::TypeMismatch {
                             var: var.clone(),
-- 
2.43.0


From 4c47f60cd36d47823e912f5f79bf4e6bbf2a66d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:35 +0000
Subject: [PATCH 47/47] fix: refuse a big integer given to ground instead of
 panicking

---
 query-algebrizer/src/clauses/convert.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/convert.rs b/query-algebrizer/src/clauses/convert.rs
index 219eb4b..b98eaa1 100644
--- a/query-algebrizer/src/clauses/convert.rs
+++ b/query-algebrizer/src/clauses/convert.rs
@@ -206,7 +206,9 @@ impl ConjoiningClauses {
             }
 
             // This isn't implemented yet.
-            FnArg::Constant(NonIntegerConstant::BigInteger(_)) => unimplemented!(),
+            FnArg::Constant(NonIntegerConstant::BigInteger(_)) => {
+                bail!(AlgebrizerError::UnsupportedArgument)
+            }
 
             // These don't make sense here.
             FnArg::Vector(_) | FnArg::SrcVar(_) => bail!(AlgebrizerError::InvalidGroundConstant),
-- 
2.43.0

