From d47b7c97a149aeaf6ada47ad2984b45cf02922c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:14 +0000
Subject: [PATCH 01/58] fix: make the layer fingerprint commit to the stored
 key-value pairs

The XOR of the changes was accumulated in a local variable and never stored,
so fingerprints alternated between two constants whatever was written.
---
 crates/host/state/src/storage.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 71a8ce3..078f52b 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -23,11 +23,8 @@ pub use crate::error::{StorageError, StorageResult as Result};
 
 type Changes = HashMap<State, Vec<u8>>;
 
-// When initializing [`State`]'s on the database, we zero all bits. In
-// memory, however, the initial [`State`] is always filled with 1's (by
-// XOR-ing them together, we still get 0).
+// The fingerprint of an empty key-value store.
 const STATE_ZEROS: State = State([0; 32]);
-const STATE_ONES: State = State([std::u8::MAX; 32]);
 
 const SQL_SCHEMA: &str = include_str!("resources/schema.sql");
 
@@ -40,7 +37,6 @@ const INITIAL_LAYER_STATE: State = STATE_ZEROS;
 struct NextLayer {
     id: i64,
     changes: Changes,
-    changes_xor_fingerprint: State,
 }
 
 /// A SQLite-backed key-value store that supports root fingerprinting and
@@ -76,7 +72,6 @@ impl Storage {
             next_layer: NextLayer {
                 id: next_layer_id.unwrap_or(INITIAL_LAYER_ID + 1),
                 changes: HashMap::new(),
-                changes_xor_fingerprint: INITIAL_LAYER_STATE,
             },
         };
         storage
@@ -237,15 +232,8 @@ impl Storage {
     }
 
     pub async fn checkpoint(&mut self) -> Result<()> {
-        let mut fingerprint = self.next_layer.changes_xor_fingerprint;
         let dirty_changes = std::mem::take(&mut self.dirty_changes);
-
-        for change in dirty_changes {
-            let xor = hash_key_value_pair(&change.0, &change.1);
-            xor_fingerprint(&mut fingerprint, &xor);
-
-            self.next_layer.changes.insert(change.0, change.1);
-        }
+        self.next_layer.changes.extend(dirty_changes);
 
         Ok(())
     }
@@ -258,7 +246,18 @@ impl Storage {
         let layer_id = self.next_layer.id;
         let layer_changes = std::mem::take(&mut self.next_layer.changes);
         let mut fingerprint = self.layer_fingerprint(layer_id - 1, true).await?;
-        xor_fingerprint(&mut fingerprint, &self.next_layer.changes_xor_fingerprint);
+
+        // The fingerprint is the XOR of the hashes of all current key-value
+        // pairs: the pairs that get overwritten by this layer must thus be
+        // removed from it.
+        for (key_hash, value) in layer_changes.iter() {
+            let old_value = self.get_by_hash_historical(key_hash, layer_id - 1).await?;
+            if let Some(old_value) = old_value {
+                xor_fingerprint(&mut fingerprint, &hash_key_value_pair(key_hash, &old_value));
+            }
+            xor_fingerprint(&mut fingerprint, &hash_key_value_pair(key_hash, value));
+        }
+
         self.insert_layer(layer_id, fingerprint, false).await?;
 
         // Note: SQLx 0.5 doesn't support bulk inserts. So, we must resort to
@@ -293,8 +292,6 @@ impl Storage {
         .execute(&self.sqlite)
         .await?;
 
-        // Reset layer-specific information to default values.
-        self.next_layer.changes_xor_fingerprint = STATE_ONES;
         self.next_layer.id += 1;
 
         Ok((layer_id, fingerprint))
@@ -371,7 +368,6 @@ impl Storage {
         // We must now bring `self.next_layer` in a good state.
         self.next_layer.id = layer_id + 1;
         self.next_layer.changes.clear();
-        self.next_layer.changes_xor_fingerprint = STATE_ONES;
 
         Ok(())
     }
-- 
2.43.0


From 58de3e316c8cdcb51e7d74b50462a6c12e9c2c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:04 +0000
Subject: [PATCH 02/58] fix: reopen an existing global state database

Opening a non-empty database failed on the UNIQUE constraint of the initial
layer; the next layer was numbered as the last one; and rows of layers whose
commit was interrupted were left behind and blocked the next commit.
---
 crates/host/state/src/global_state.rs |  3 ++-
 crates/host/state/src/storage.rs      | 26 +++++++++++++++++++-------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index fbeb9c4..a097ece 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -51,7 +51,8 @@ impl GlobalState {
         tracing::debug!("Initializing genesis configuration.");
 
         let genesis_fingerprint = self.storage().genesis_fingerprint().await?;
-        if genesis_fingerprint.is_some() {
+        if let Some(genesis_fingerprint) = genesis_fingerprint {
+            self.genesis_state = genesis_fingerprint;
             tracing::debug!("The database is not empty. Genesis is assumed to have been configured already. Skipping.");
             return Ok(());
         }
diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 078f52b..192106c 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -64,22 +64,25 @@ impl Storage {
     async fn new_with_pool(sqlite: Pool<Sqlite>) -> Result<Self> {
         sqlx::query(SQL_SCHEMA).execute(&sqlite).await?;
 
-        let next_layer_id = max_layer_id(&sqlite).await?;
-
-        let storage = Self {
+        let mut storage = Self {
             sqlite,
             dirty_changes: HashMap::new(),
             next_layer: NextLayer {
-                id: next_layer_id.unwrap_or(INITIAL_LAYER_ID + 1),
+                id: INITIAL_LAYER_ID + 1,
                 changes: HashMap::new(),
             },
         };
-        storage
-            .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
-            .await?;
 
         storage.delete_bad_layers().await?;
 
+        if let Some(last_layer_id) = storage.last_layer_id().await? {
+            storage.next_layer.id = last_layer_id + 1;
+        } else {
+            storage
+                .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
+                .await?;
+        }
+
         Ok(storage)
     }
 
@@ -109,6 +112,15 @@ impl Storage {
         .await?
         .rows_affected();
 
+        sqlx::query(
+            r#"
+            DELETE FROM "layers"
+            WHERE "complete" = 0
+            "#,
+        )
+        .execute(&self.sqlite)
+        .await?;
+
         if count_rows > 0 {
             tracing::warn!(
                 affected_rows = count_rows,
-- 
2.43.0


From 7aab5bf1ef3587394bab16382190465d0fc0c659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:04 +0000
Subject: [PATCH 03/58] fix: join stored values with their own layer when
 reading

Without the join condition, values of incomplete layers were considered.
---
 crates/host/state/src/storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 192106c..47c0f67 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -186,6 +186,8 @@ impl Storage {
                 SELECT "value"
                 FROM "values"
                 INNER JOIN "layers" ON
+                    "layers"."id" = "layer_id"
+                    AND
                     "complete" = 1
                     AND
                     "key_hash" = ?1
@@ -207,6 +209,8 @@ impl Storage {
             SELECT "value"
             FROM "values"
             INNER JOIN "layers" ON
+                "layers"."id" = "layer_id"
+                AND
                 "layer_id" <= ?1
                 AND
                 "complete" = 1
-- 
2.43.0


From 2415d8111510aace319e848b05bf1b76d2006018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:42 +0000
Subject: [PATCH 04/58] fix: commit a layer atomically and keep its changes
 when that fails

---
 crates/host/state/src/storage.rs | 94 ++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 42 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 47c0f67..71dd67e 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -78,9 +78,13 @@ impl Storage {
         if let Some(last_layer_id) = storage.last_layer_id().await? {
             storage.next_layer.id = last_layer_id + 1;
         } else {
-            storage
-                .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
-                .await?;
+            insert_layer(
+                &storage.sqlite,
+                INITIAL_LAYER_ID,
+                INITIAL_LAYER_STATE,
+                true,
+            )
+            .await?;
         }
 
         Ok(storage)
@@ -260,13 +264,12 @@ impl Storage {
         }
 
         let layer_id = self.next_layer.id;
-        let layer_changes = std::mem::take(&mut self.next_layer.changes);
         let mut fingerprint = self.layer_fingerprint(layer_id - 1, true).await?;
 
         // The fingerprint is the XOR of the hashes of all current key-value
         // pairs: the pairs that get overwritten by this layer must thus be
         // removed from it.
-        for (key_hash, value) in layer_changes.iter() {
+        for (key_hash, value) in self.next_layer.changes.iter() {
             let old_value = self.get_by_hash_historical(key_hash, layer_id - 1).await?;
             if let Some(old_value) = old_value {
                 xor_fingerprint(&mut fingerprint, &hash_key_value_pair(key_hash, &old_value));
@@ -274,27 +277,26 @@ impl Storage {
             xor_fingerprint(&mut fingerprint, &hash_key_value_pair(key_hash, value));
         }
 
-        self.insert_layer(layer_id, fingerprint, false).await?;
-
-        // Note: SQLx 0.5 doesn't support bulk inserts. So, we must resort to
-        // "futures" magic instead.
-        let mut inserts = Vec::with_capacity(layer_changes.len());
-        for (key_hash, value) in layer_changes {
-            inserts.push(
-                sqlx::query(
-                    r#"
-                    INSERT INTO "values" ("key_hash", "value", "layer_id")
-                    VALUES (?1, ?2, ?3)
-                    "#,
-                )
-                .bind(key_hash.0.to_vec())
-                .bind(value)
-                .bind(layer_id)
-                .execute(&self.sqlite),
-            );
-        }
 
-        futures::future::try_join_all(inserts).await?;
+        // In case of errors, the whole layer is rolled back and saved changes
+        // are kept in memory.
+        let mut transaction = self.sqlite.begin().await?;
+        insert_layer(&mut transaction, layer_id, fingerprint, false).await?;
+
+        // Note: SQLx 0.5 doesn't support bulk inserts.
+        for (key_hash, value) in self.next_layer.changes.iter() {
+            sqlx::query(
+                r#"
+                INSERT INTO "values" ("key_hash", "value", "layer_id")
+                VALUES (?1, ?2, ?3)
+                "#,
+            )
+            .bind(&key_hash.0[..])
+            .bind(&value[..])
+            .bind(layer_id)
+            .execute(&mut transaction)
+            .await?;
+        }
 
         sqlx::query(
             r#"
@@ -305,9 +307,12 @@ impl Storage {
         )
         .bind(&fingerprint.0[..])
         .bind(layer_id)
-        .execute(&self.sqlite)
+        .execute(&mut transaction)
         .await?;
 
+        transaction.commit().await?;
+
+        self.next_layer.changes.clear();
         self.next_layer.id += 1;
 
         Ok((layer_id, fingerprint))
@@ -332,22 +337,6 @@ impl Storage {
         }
     }
 
-    /// Creates a new [`State`]-ed layer with the given `id`.
-    async fn insert_layer(&self, id: i64, fingerprint: State, complete: bool) -> Result<()> {
-        sqlx::query(
-            r#"
-            INSERT INTO "layers" ("id", "fingerprint", "complete")
-            VALUES (?1, ?2, ?3)
-            "#,
-        )
-        .bind(id)
-        .bind(&fingerprint.0[..])
-        .bind(if complete { 1 } else { 0 })
-        .execute(&self.sqlite)
-        .await?;
-        Ok(())
-    }
-
     /// Queries the current [`State`] value of `layer_id`.
     async fn layer_fingerprint(&self, layer_id: i64, complete: bool) -> Result<State> {
         let bytes: (Vec<u8>,) = sqlx::query_as(
@@ -398,6 +387,27 @@ impl Storage {
     }
 }
 
+/// Creates a new [`State`]-ed layer with the given `id`.
+async fn insert_layer<'e>(
+    executor: impl sqlx::Executor<'e, Database = Sqlite>,
+    id: i64,
+    fingerprint: State,
+    complete: bool,
+) -> Result<()> {
+    sqlx::query(
+        r#"
+        INSERT INTO "layers" ("id", "fingerprint", "complete")
+        VALUES (?1, ?2, ?3)
+        "#,
+    )
+    .bind(id)
+    .bind(&fingerprint.0[..])
+    .bind(if complete { 1 } else { 0 })
+    .execute(executor)
+    .await?;
+    Ok(())
+}
+
 async fn max_layer_id(pool: &SqlitePool) -> Result<Option<i64>> {
     let max_layer_id: Option<(i64,)> = sqlx::query_as(
         r#"
-- 
2.43.0


From 0de29452219dfa7279c5ee637500677c118234e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:01 +0000
Subject: [PATCH 05/58] fix: honour the historical query parameter when reading
 account variables

---
 crates/host/state/src/account_storage.rs |  3 +--
 crates/host/state/src/global_state.rs    | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/host/state/src/account_storage.rs b/crates/host/state/src/account_storage.rs
index e310a74..daf586d 100644
--- a/crates/host/state/src/account_storage.rs
+++ b/crates/host/state/src/account_storage.rs
@@ -132,8 +132,7 @@ impl AccountStorage {
         for segment in segments.into_iter() {
             let bytes: [u8; SEGMENT_SIZE] = self
                 .gs
-                .storage()
-                .get(segment.key.as_bytes(), None)
+                .read(&segment.key)
                 .await?
                 .unwrap_or(vec![0; SEGMENT_SIZE])
                 .try_into()
diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index a097ece..9cd801e 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -168,16 +168,21 @@ impl GlobalState {
             .expect("Poisoned lock on global state storage")
     }
 
+    pub(crate) async fn read(&self, key: &str) -> Result<Option<Vec<u8>>> {
+        self.storage()
+            .get(
+                key.as_bytes(),
+                self.layer_query_parameter.map(|layer| layer.0 as i64),
+            )
+            .await
+    }
+
     pub(crate) async fn read_and_decode<T>(&self, key: &str) -> Result<T>
     where
         T: Codec,
     {
         let bytes = self
-            .storage()
-            .get(
-                key.as_bytes(),
-                self.layer_query_parameter.map(|layer| layer.0 as i64),
-            )
+            .read(key)
             .await?
             .ok_or(StorageError::NotFound {
                 key_hash: State(Blake3Hasher::hash(key.as_bytes())),
-- 
2.43.0


From ef4b4a2a7f0e1f2211f054779e60568d09ec8a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:26 +0000
Subject: [PATCH 06/58] fix: don't mint coins on self-transfers and don't debit
 the sender of an overflowing transfer

---
 crates/host/runtime/src/runtime/runtime.rs  | 13 +++++++++++--
 crates/host/runtime/src/vmcalls/transfer.rs | 12 ++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 53a8f9e..c7a60a3 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -783,11 +783,20 @@ impl Runtime {
         if src_bal < amount {
             panic!("Not enough balance to execute transfer");
         }
+
+        if src_addr == dst_addr {
+            return;
+        }
+
+        // Both balances are computed before changing any of the accounts.
+        let src_bal = src_bal.checked_sub(amount).unwrap();
+        let dst_bal = dst_bal.checked_add(amount).unwrap();
+
         self.tokio_rt
-            .block_on(src_account.set_balance(src_bal.checked_sub(amount).unwrap()))
+            .block_on(src_account.set_balance(src_bal))
             .unwrap();
         self.tokio_rt
-            .block_on(dst_account.set_balance(dst_bal.checked_add(amount).unwrap()))
+            .block_on(dst_account.set_balance(dst_bal))
             .unwrap();
     }
 }
diff --git a/crates/host/runtime/src/vmcalls/transfer.rs b/crates/host/runtime/src/vmcalls/transfer.rs
index 2594f4a..a396783 100644
--- a/crates/host/runtime/src/vmcalls/transfer.rs
+++ b/crates/host/runtime/src/vmcalls/transfer.rs
@@ -44,10 +44,14 @@ pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, a
         panic!("Not enough balance to execute transfer")
     }
 
-    rt.block_on(src_account.set_balance(src_balance - amount))
-        .unwrap();
-    rt.block_on(dst_account.set_balance(dst_balance.checked_add(amount).unwrap()))
-        .unwrap();
+    if src_addr != dst_addr {
+        // Both balances are computed before changing any of the accounts.
+        let src_balance = src_balance - amount;
+        let dst_balance = dst_balance.checked_add(amount).unwrap();
+
+        rt.block_on(src_account.set_balance(src_balance)).unwrap();
+        rt.block_on(dst_account.set_balance(dst_balance)).unwrap();
+    }
 
     borrow.touch_account(src_addr);
     borrow.touch_account(dst_addr);
-- 
2.43.0


From 8ac57a6b3d49d343811caeb2a14fb7077a53071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:26 +0000
Subject: [PATCH 07/58] fix: let svm_transfer spend only the coins of the
 executing account

---
 crates/host/runtime/src/vmcalls/transfer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/vmcalls/transfer.rs b/crates/host/runtime/src/vmcalls/transfer.rs
index a396783..01e6ee4 100644
--- a/crates/host/runtime/src/vmcalls/transfer.rs
+++ b/crates/host/runtime/src/vmcalls/transfer.rs
@@ -15,7 +15,8 @@ fn read_addr(env: &FuncEnv, ptr: WasmPtr<Address>) -> Option<Address> {
 ///
 /// # Panics
 ///
-/// Panics when the destination account does not exist.
+/// Panics when the destination account does not exist, or when the source
+/// account isn't the current executing account.
 pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, amount: u64) {
     if amount == 0 {
         return;
@@ -28,6 +29,10 @@ pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, a
     let src_addr = read_addr(env, src_addr_ptr).expect(NOT_FOUND_ERR);
     let dst_addr = read_addr(env, dst_addr_ptr).expect(NOT_FOUND_ERR);
 
+    if src_addr != env.target_addr {
+        panic!("Coins can only be sent from the current executing account");
+    }
+
     let mut borrow = env.borrow_mut();
     let gs = borrow.storage().gs.clone();
 
-- 
2.43.0


From cab10fe0a351cca7ec647357fc27e460db557f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:03 +0000
Subject: [PATCH 08/58] fix: roll back the changes of failed transactions

Changes made before a call, spawn or verify are saved first, so that only the
failed transaction is undone.
---
 crates/host/runtime/src/runtime/runtime.rs | 18 +++++++++++++++++-
 crates/host/state/src/global_state.rs      |  4 ++--
 crates/host/state/src/storage.rs           |  2 +-
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index c7a60a3..6b3b5f7 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -82,7 +82,17 @@ impl Runtime {
 
     fn exec_call<'a, Args, Rets>(&'a mut self, call: &Call<'a>) -> CallReceipt {
         let result = self.exec::<(), (), _, _>(&call, |env, out| outcome_to_receipt(env, out));
-        result.unwrap_or_else(|fail| CallReceipt::from_err(fail.err, fail.logs))
+        result.unwrap_or_else(|fail| {
+            // A failed transaction must leave no trace on the `Global State`.
+            self.tokio_rt.block_on(self.gs.rollback()).unwrap();
+            CallReceipt::from_err(fail.err, fail.logs)
+        })
+    }
+
+    /// Saves the changes made so far, so that they survive the failure of the
+    /// transaction that's about to be executed.
+    fn save_changes(&mut self) {
+        self.tokio_rt.block_on(self.gs.checkpoint()).unwrap();
     }
 
     fn exec<Args, Rets, F, R>(&self, call: &Call, f: F) -> Result<R>
@@ -651,6 +661,8 @@ impl Runtime {
         let account = spawn.account();
         let target = compute_account_addr(&spawn);
 
+        self.save_changes();
+
         self.create_account(
             &target,
             template_addr.clone(),
@@ -673,6 +685,8 @@ impl Runtime {
         let tx = Transaction::decode_bytes(message).expect(ERR_VALIDATE_CALL);
         let gas_left = GasTank::new(envelope.gas_limit());
 
+        self.save_changes();
+
         // ### Important:
         //
         // Right now we disallow any `Storage` access while running `svm_verify`.
@@ -700,6 +714,8 @@ impl Runtime {
     pub fn call(&mut self, envelope: &Envelope, message: &[u8], context: &Context) -> CallReceipt {
         let tx = Transaction::decode_bytes(message).expect(ERR_VALIDATE_CALL);
 
+        self.save_changes();
+
         let call = self.build_call(
             &tx,
             envelope,
diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index 9cd801e..e900f8e 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -153,8 +153,8 @@ impl GlobalState {
         Ok(())
     }
 
-    /// Returns [`true`] iff there are any dirty changes in memory; [`false`]
-    /// otherwise.
+    /// Returns [`true`] iff there are any dirty or saved changes in memory;
+    /// [`false`] otherwise.
     pub fn has_uncommitted_changes(&self) -> bool {
         self.storage().has_uncommitted_changes()
     }
diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 71dd67e..061c7db 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -151,7 +151,7 @@ impl Storage {
     }
 
     pub fn has_uncommitted_changes(&self) -> bool {
-        !self.dirty_changes.is_empty()
+        !self.dirty_changes.is_empty() || !self.next_layer.changes.is_empty()
     }
 
     /// Fetches the value associated with the Blake3 hash of `key`. See
-- 
2.43.0


From 33ec41775e6e1b33896b6a51361e3c644efc2c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:03 +0000
Subject: [PATCH 09/58] fix: let Runtime::commit commit the changes that no
 transaction has saved yet

---
 crates/host/runtime/src/runtime/runtime.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 6b3b5f7..75ae6b0 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -739,6 +739,7 @@ impl Runtime {
 
     /// Creates a new layer with the given changes.
     pub fn commit(&mut self) -> Result<()> {
+        self.save_changes();
         self.tokio_rt
             .block_on(self.gs.commit())
             .map_err(|_e| RuntimeFailure::new(RuntimeError::OOG, vec![]))?;
-- 
2.43.0


From a5043e28ea244034f779b582ddfcbfb094303433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:42 +0000
Subject: [PATCH 10/58] fix: report a panicking host function as a failed
 transaction

The panic unwound out of the runtime: no receipt was produced.
---
 crates/host/runtime/src/func_env.rs        | 10 ++-----
 crates/host/runtime/src/runtime/runtime.rs | 34 ++++++++++++++++++++--
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/crates/host/runtime/src/func_env.rs b/crates/host/runtime/src/func_env.rs
index 4a7fb0b..a67d651 100644
--- a/crates/host/runtime/src/func_env.rs
+++ b/crates/host/runtime/src/func_env.rs
@@ -4,7 +4,7 @@ use tokio::runtime::Runtime as TokioRuntime;
 use wasmer::Memory;
 
 use std::collections::HashSet;
-use std::sync::{Arc, RwLock, RwLockReadGuard, RwLockWriteGuard};
+use std::sync::{Arc, PoisonError, RwLock, RwLockReadGuard, RwLockWriteGuard};
 
 use svm_state::AccountStorage;
 use svm_types::{Address, Context, Envelope, ReceiptLog, TemplateAddr};
@@ -78,17 +78,13 @@ impl FuncEnv {
     /// Borrows the `FuncEnv`
     #[inline]
     pub fn borrow(&self) -> RwLockReadGuard<Inner> {
-        self.inner
-            .read()
-            .expect("Attempted read but RwLock is poisoned")
+        self.inner.read().unwrap_or_else(PoisonError::into_inner)
     }
 
     /// Mutably Borrows the `FuncEnv`
     #[inline]
     pub fn borrow_mut(&self) -> RwLockWriteGuard<Inner> {
-        self.inner
-            .write()
-            .expect("Attempted write but RwLock is poisoned")
+        self.inner.write().unwrap_or_else(PoisonError::into_inner)
     }
 
     /// Sets the [`AccessMode`] and overrides the existing value.
diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 75ae6b0..7c7bcad 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -2,6 +2,8 @@ use log::info;
 use tokio::runtime::Runtime as TokioRuntime;
 use wasmer::{Instance, Module, WasmPtr, WasmTypeList};
 
+use std::any::Any;
+use std::panic::{self, AssertUnwindSafe};
 use std::sync::Arc;
 
 use svm_codec::Codec;
@@ -120,8 +122,13 @@ impl Runtime {
         let store = crate::wasm_store::new_store();
         let import_object = self.create_import_object(&store, &mut env);
 
-        let res = self.run::<Args, Rets>(&call, &store, &env, &template, &import_object);
-        res.map(|rets| f(&env, rets))
+        // Host functions panic when they're misused, e.g. when there aren't
+        // enough coins for a transfer. That's a failure of the transaction.
+        panic::catch_unwind(AssertUnwindSafe(|| {
+            let res = self.run::<Args, Rets>(&call, &store, &env, &template, &import_object);
+            res.map(|rets| f(&env, rets))
+        }))
+        .unwrap_or_else(|payload| Err(err::func_panicked(&env, call.func_name, payload)))
     }
 
     fn run<Args, Rets>(
@@ -988,6 +995,29 @@ mod err {
         RuntimeFailure::new(err, logs)
     }
 
+    pub fn func_panicked(
+        env: &FuncEnv,
+        func_name: &str,
+        payload: Box<dyn Any + Send>,
+    ) -> RuntimeFailure {
+        let msg = if let Some(msg) = payload.downcast_ref::<&str>() {
+            msg.to_string()
+        } else if let Some(msg) = payload.downcast_ref::<String>() {
+            msg.clone()
+        } else {
+            "Host function panicked".to_string()
+        };
+
+        let err = RuntimeError::FuncFailed {
+            target: env.target_addr.clone(),
+            template: env.template_addr.clone(),
+            func: func_name.to_string(),
+            msg,
+        };
+
+        RuntimeFailure::new(err, env.borrow_mut().take_logs())
+    }
+
     pub fn compilation_failed(env: &FuncEnv, err: wasmer::CompileError) -> RuntimeFailure {
         RuntimeError::CompilationFailed {
             target: env.target_addr.clone(),
-- 
2.43.0


From 565579fb65a19d7d78c206bd1e967b7ad2302ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:11 +0000
Subject: [PATCH 11/58] fix: report missing templates and accounts in receipts
 instead of panicking

---
 crates/host/runtime/src/runtime/runtime.rs | 29 +++++++++++++---------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 7c7bcad..7cdb664 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -333,13 +333,10 @@ impl Runtime {
         &self,
         account_addr: &Address,
     ) -> std::result::Result<Template, RuntimeFailure> {
-        // TODO:
-        //
-        // * Return a `RuntimeFailure` when `account_addr` doesn't exist.
         let account = self
             .tokio_rt
             .block_on(AccountStorage::load(self.gs.clone(), account_addr))
-            .unwrap();
+            .map_err(|_| RuntimeError::AccountNotFound(account_addr.clone()))?;
         let template_addr = self.tokio_rt.block_on(account.template_addr()).unwrap();
         self.load_template(&template_addr)
     }
@@ -349,12 +346,14 @@ impl Runtime {
         template_addr: &TemplateAddr,
     ) -> std::result::Result<Template, RuntimeFailure> {
         let template_storage = TemplateStorage::load(self.gs.clone(), &template_addr).unwrap();
-        let sections = self.tokio_rt.block_on(template_storage.sections()).unwrap();
+        let sections = self
+            .tokio_rt
+            .block_on(template_storage.sections())
+            .map_err(|_| RuntimeError::TemplateNotFound(template_addr.clone()))?;
         let template = Template::from_sections(sections);
 
         // TODO:
         //
-        // * Return a `RuntimeFailure` when `Template` doesn't exist.
         // * Fetch only the `Core Sections`.
         // * Add `non_core` sections to be fetched as a param (optional)
         Ok(template)
@@ -472,19 +471,19 @@ impl Runtime {
         func_name: &'a str,
         func_input: &'a [u8],
         gas_left: GasTank,
-    ) -> Call<'a> {
+    ) -> Result<Call<'a>> {
         let target = tx.target();
         let account_storage = self
             .tokio_rt
             .block_on(AccountStorage::load(self.gs.clone(), target))
-            .unwrap();
+            .map_err(|_| RuntimeError::AccountNotFound(target.clone()))?;
 
         let template = self
             .tokio_rt
             .block_on(account_storage.template_addr())
             .unwrap();
 
-        Call {
+        Ok(Call {
             func_name,
             func_input,
             target: target.clone(),
@@ -495,7 +494,7 @@ impl Runtime {
             within_spawn: false,
             envelope,
             context,
-        }
+        })
     }
 
     /// Returns the [`State`] root hash and [`Layer`] of the last layer.
@@ -712,7 +711,10 @@ impl Runtime {
         );
 
         // TODO: override the `call.gas_limit` with `VERIFY_MAX_GAS`
-        self.exec_call::<(), ()>(&call)
+        match call {
+            Ok(call) => self.exec_call::<(), ()>(&call),
+            Err(fail) => CallReceipt::from_err(fail.err, fail.logs),
+        }
     }
 
     /// Executes a [`Transaction`](svm_types::Transaction) and returns its output [`CallReceipt`].
@@ -733,7 +735,10 @@ impl Runtime {
             GasTank::new(envelope.gas_limit()),
         );
 
-        self.exec_call::<(), ()>(&call)
+        match call {
+            Ok(call) => self.exec_call::<(), ()>(&call),
+            Err(fail) => CallReceipt::from_err(fail.err, fail.logs),
+        }
     }
 
     /// Moves the internal state of this [`Runtime`] back to the time of
-- 
2.43.0


From 33d0bdec4adb84d50e19fa11cf4e5421584764dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:12 +0000
Subject: [PATCH 12/58] fix: report a constructor that isn't exported in the
 spawn receipt

---
 crates/host/runtime/src/runtime/runtime.rs | 23 ++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 7cdb664..ca383b2 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -436,13 +436,14 @@ impl Runtime {
 
     fn check_gas_for_func(
         &self,
+        target: &Address,
         template_addr: &TemplateAddr,
         template: &Template,
         func_name: &str,
         gas_left: GasTank,
-    ) -> GasTank {
+    ) -> Result<GasTank> {
         if gas_left.is_empty() {
-            return GasTank::Empty;
+            return Ok(GasTank::Empty);
         }
 
         let code_section = template.code_section();
@@ -452,11 +453,17 @@ impl Runtime {
 
         match gas_mode {
             GasMode::Fixed => {
-                let func_index = program.exports().get(func_name).unwrap();
+                let func_index = program.exports().get(func_name).ok_or_else(|| {
+                    RuntimeError::FuncNotFound {
+                        target: target.clone(),
+                        template: template_addr.clone(),
+                        func: func_name.to_string(),
+                    }
+                })?;
                 let func_price = self.template_price.price_of(&template_addr, &program);
 
                 let price = func_price.get(func_index) as u64;
-                gas_left.consume(price)
+                Ok(gas_left.consume(price))
             }
             GasMode::Metering => unreachable!("Not supported yet... (TODO)"),
         }
@@ -658,14 +665,18 @@ impl Runtime {
         }
 
         let gas_left = self.check_gas_for_payload(envelope, message, gas_left);
-        let gas_left = self.check_gas_for_func(&template_addr, &template, ctor, gas_left);
+        let target = compute_account_addr(&spawn);
+        let gas_left =
+            match self.check_gas_for_func(&target, &template_addr, &template, ctor, gas_left) {
+                Ok(gas_left) => gas_left,
+                Err(fail) => return SpawnReceipt::from_err(fail.err, fail.logs),
+            };
 
         if gas_left.is_empty() {
             return SpawnReceipt::new_oog(Vec::new());
         }
 
         let account = spawn.account();
-        let target = compute_account_addr(&spawn);
 
         self.save_changes();
 
-- 
2.43.0


From ab8c3c7e8fe7ef8bb07637581f1e48ea40088060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:12 +0000
Subject: [PATCH 13/58] fix: admit spawns whose gas limit is exactly their
 price

---
 crates/host/runtime/src/runtime/gas_tank.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/runtime/gas_tank.rs b/crates/host/runtime/src/runtime/gas_tank.rs
index 76f4dd0..dc5bdab 100644
--- a/crates/host/runtime/src/runtime/gas_tank.rs
+++ b/crates/host/runtime/src/runtime/gas_tank.rs
@@ -25,7 +25,7 @@ impl GasTank {
         match self {
             GasTank::Empty => GasTank::Empty,
             GasTank::NonEmpty(left) => {
-                if left > gas {
+                if left >= gas {
                     GasTank::NonEmpty(left - gas)
                 } else {
                     GasTank::Empty
-- 
2.43.0


From 03f1c90f442abed0834f82ef45077b51ddb4021f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:12 +0000
Subject: [PATCH 14/58] fix: svm_get32 reads 32-bit variables only, as
 documented

---
 crates/host/runtime/src/vmcalls/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/vmcalls/storage.rs b/crates/host/runtime/src/vmcalls/storage.rs
index 6f46843..ebf22ed 100644
--- a/crates/host/runtime/src/vmcalls/storage.rs
+++ b/crates/host/runtime/src/vmcalls/storage.rs
@@ -11,7 +11,7 @@ pub fn get32(env: &FuncEnv, var_id: u32) -> u32 {
     let rt = env.tokio_rt.clone();
     let borrow = env.borrow();
     let storage = borrow.storage();
-    rt.block_on(storage.get_var_i64(var_id)).unwrap() as u32
+    rt.block_on(storage.get_var_i32(var_id)).unwrap() as u32
 }
 
 /// Sets the data of variable `var_id` to Little-Endian representation of `value`.
-- 
2.43.0


From 97e92c58fa63993047ae01adeac5731cade7618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:03 +0000
Subject: [PATCH 15/58] fix: encode the touched accounts of a receipt in a
 deterministic order

---
 crates/host/codec/src/receipt/touched_accounts.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/host/codec/src/receipt/touched_accounts.rs b/crates/host/codec/src/receipt/touched_accounts.rs
index 7d5e4cc..f3b4551 100644
--- a/crates/host/codec/src/receipt/touched_accounts.rs
+++ b/crates/host/codec/src/receipt/touched_accounts.rs
@@ -10,8 +10,12 @@ impl Codec for HashSet<Address> {
     fn encode(&self, w: &mut impl WriteExt) {
         u16::try_from(self.len()).unwrap().encode(w);
 
-        for addr in self.iter() {
-            w.write_bytes(addr.as_slice());
+        // The iteration order of a `HashSet` is arbitrary; equal receipts must have equal encodings.
+        let mut addrs: Vec<&[u8]> = self.iter().map(|addr| addr.as_slice()).collect();
+        addrs.sort_unstable();
+
+        for addr in addrs {
+            w.write_bytes(addr);
         }
     }
 
-- 
2.43.0


From 72618ca86fa8009a2e09b4576ddf86cf1620c69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:15 +0000
Subject: [PATCH 16/58] fix: report malformed receipts as parse errors instead
 of panicking

---
 crates/host/codec/src/receipt/call.rs   |   4 +-
 crates/host/codec/src/receipt/deploy.rs |   4 +-
 crates/host/codec/src/receipt/error.rs  | 128 ++++++++++++------------
 crates/host/codec/src/receipt/mod.rs    |  18 +++-
 crates/host/codec/src/receipt/spawn.rs  |   6 +-
 5 files changed, 88 insertions(+), 72 deletions(-)

diff --git a/crates/host/codec/src/receipt/call.rs b/crates/host/codec/src/receipt/call.rs
index 1582bea..57b0266 100644
--- a/crates/host/codec/src/receipt/call.rs
+++ b/crates/host/codec/src/receipt/call.rs
@@ -60,10 +60,10 @@ impl Codec for CallReceipt {
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, crate::receipt::TY_CALL);
+        super::expect_byte(ty, crate::receipt::TY_CALL)?;
 
         let version = u16::decode(reader)?;
-        debug_assert_eq!(0, version);
+        super::expect_version(version)?;
 
         let is_success = bool::decode(reader)?;
 
diff --git a/crates/host/codec/src/receipt/deploy.rs b/crates/host/codec/src/receipt/deploy.rs
index 9c5e9fd..75a9f24 100644
--- a/crates/host/codec/src/receipt/deploy.rs
+++ b/crates/host/codec/src/receipt/deploy.rs
@@ -40,10 +40,10 @@ impl Codec for DeployReceipt {
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, TY_DEPLOY);
+        super::expect_byte(ty, TY_DEPLOY)?;
 
         let version = u16::decode(reader)?;
-        debug_assert_eq!(version, 0);
+        super::expect_version(version)?;
 
         let is_success = bool::decode(reader)?;
 
diff --git a/crates/host/codec/src/receipt/error.rs b/crates/host/codec/src/receipt/error.rs
index e8ea82b..f59f63a 100644
--- a/crates/host/codec/src/receipt/error.rs
+++ b/crates/host/codec/src/receipt/error.rs
@@ -162,22 +162,22 @@ impl Codec for RuntimeFailure {
     }
 
     fn decode(cursor: &mut impl ReadExt) -> std::result::Result<Self, Self::Error> {
-        let ty = cursor.read_byte().unwrap();
-        let logs = <Vec<ReceiptLog>>::decode(cursor).unwrap();
+        let ty = cursor.read_byte()?;
+        let logs = <Vec<ReceiptLog>>::decode(cursor)?;
 
         let err = {
             match ty {
-                0 => oog(cursor),
-                1 => template_not_found(cursor),
-                2 => account_not_found(cursor),
-                3 => compilation_error(cursor),
-                4 => instantiation_error(cursor),
-                5 => func_not_found(cursor),
-                6 => func_failed(cursor),
-                7 => func_not_ctor(cursor),
-                8 => func_not_allowed(cursor),
-                9 => func_invalid_sig(cursor),
-                _ => unreachable!(),
+                0 => oog(cursor)?,
+                1 => template_not_found(cursor)?,
+                2 => account_not_found(cursor)?,
+                3 => compilation_error(cursor)?,
+                4 => instantiation_error(cursor)?,
+                5 => func_not_found(cursor)?,
+                6 => func_failed(cursor)?,
+                7 => func_not_ctor(cursor)?,
+                8 => func_not_allowed(cursor)?,
+                9 => func_invalid_sig(cursor)?,
+                byte => return Err(ParseError::BadByte(byte)),
             }
         };
 
@@ -212,104 +212,104 @@ fn encode_err_type(err: &RuntimeError, w: &mut impl WriteExt) {
     w.write_byte(ty);
 }
 
-fn oog(_cursor: &mut impl ReadExt) -> RuntimeError {
-    RuntimeError::OOG
+fn oog(_cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    Ok(RuntimeError::OOG)
 }
 
-fn template_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    RuntimeError::TemplateNotFound(template_addr)
+fn template_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    Ok(RuntimeError::TemplateNotFound(template_addr))
 }
 
-fn account_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let account = Address::decode(cursor).unwrap();
-    RuntimeError::AccountNotFound(account)
+fn account_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let account = Address::decode(cursor)?;
+    Ok(RuntimeError::AccountNotFound(account))
 }
 
-fn compilation_error(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn compilation_error(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::CompilationFailed {
+    Ok(RuntimeError::CompilationFailed {
         template: template_addr,
         target: account_addr,
         msg,
-    }
+    })
 }
 
-fn instantiation_error(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn instantiation_error(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::InstantiationFailed {
+    Ok(RuntimeError::InstantiationFailed {
         template: template_addr,
         target: account_addr,
         msg,
-    }
+    })
 }
 
-fn func_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncNotFound {
+    Ok(RuntimeError::FuncNotFound {
         template: template_addr,
         target: account_addr,
         func,
-    }
+    })
 }
 
-fn func_failed(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn func_failed(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::FuncFailed {
+    Ok(RuntimeError::FuncFailed {
         template: template_addr,
         target: account_addr,
         func,
         msg,
-    }
+    })
 }
 
-fn func_not_ctor(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_not_ctor(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncNotCtor {
+    Ok(RuntimeError::FuncNotCtor {
         template: template_addr,
         func,
-    }
+    })
 }
 
-fn func_not_allowed(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn func_not_allowed(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::FuncNotAllowed {
+    Ok(RuntimeError::FuncNotAllowed {
         template: template_addr,
         target: account_addr,
         func,
         msg,
-    }
+    })
 }
 
-fn func_invalid_sig(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_invalid_sig(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncInvalidSignature {
+    Ok(RuntimeError::FuncInvalidSignature {
         template: template_addr,
         target: account_addr,
         func,
-    }
+    })
 }
 
 #[cfg(test)]
diff --git a/crates/host/codec/src/receipt/mod.rs b/crates/host/codec/src/receipt/mod.rs
index d084b91..6b59e6a 100644
--- a/crates/host/codec/src/receipt/mod.rs
+++ b/crates/host/codec/src/receipt/mod.rs
@@ -30,7 +30,7 @@ impl Codec for Receipt {
     }
 
     fn decode(cursor: &mut impl ReadExt) -> Result<Self, Self::Error> {
-        Ok(match cursor.peek_byte().unwrap() {
+        Ok(match cursor.peek_byte().ok_or(ParseError::Eof)? {
             TY_DEPLOY => {
                 let receipt = DeployReceipt::decode(cursor)?;
                 Receipt::Deploy(receipt)
@@ -51,3 +51,19 @@ impl Codec for Receipt {
 const TY_DEPLOY: u8 = 0;
 const TY_SPAWN: u8 = 1;
 const TY_CALL: u8 = 2;
+
+fn expect_byte(byte: u8, expected: u8) -> Result<(), ParseError> {
+    if byte == expected {
+        Ok(())
+    } else {
+        Err(ParseError::BadByte(byte))
+    }
+}
+
+/// The only receipts' version is currently `0`.
+fn expect_version(version: u16) -> Result<(), ParseError> {
+    version
+        .to_be_bytes()
+        .iter()
+        .try_for_each(|byte| expect_byte(*byte, 0))
+}
diff --git a/crates/host/codec/src/receipt/spawn.rs b/crates/host/codec/src/receipt/spawn.rs
index d96b5f7..bbe1053 100644
--- a/crates/host/codec/src/receipt/spawn.rs
+++ b/crates/host/codec/src/receipt/spawn.rs
@@ -61,10 +61,10 @@ impl Codec for SpawnReceipt {
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, TY_SPAWN);
+        super::expect_byte(ty, TY_SPAWN)?;
 
         let version = u16::decode(reader)?;
-        debug_assert_eq!(0, version);
+        super::expect_version(version)?;
 
         let is_success = bool::decode(reader)?;
 
@@ -88,7 +88,7 @@ impl Codec for SpawnReceipt {
                 logs,
             })
         } else {
-            let x = RuntimeFailure::decode(reader).unwrap();
+            let x = RuntimeFailure::decode(reader)?;
             Ok(SpawnReceipt::from_err(x.err, x.logs))
         }
     }
-- 
2.43.0


From cd0aa4bdad2e35cbf96e5a1dd31a3d1e18f8d1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:15 +0000
Subject: [PATCH 17/58] fix: truncate every error message of a receipt, at a
 character boundary

---
 crates/host/codec/src/receipt/error.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/host/codec/src/receipt/error.rs b/crates/host/codec/src/receipt/error.rs
index f59f63a..634ed89 100644
--- a/crates/host/codec/src/receipt/error.rs
+++ b/crates/host/codec/src/receipt/error.rs
@@ -112,7 +112,7 @@ impl Codec for RuntimeFailure {
             } => {
                 template.encode(w);
                 target.encode(w);
-                msg.encode(w);
+                encode_msg(msg, w);
             }
             RuntimeError::FuncNotFound {
                 target,
@@ -186,13 +186,12 @@ impl Codec for RuntimeFailure {
 }
 
 fn encode_msg(msg: &str, w: &mut impl WriteExt) {
-    if msg.len() > 255 {
-        let bytes = &msg.as_bytes()[0..255];
-        let msg = String::from_utf8(bytes.to_vec()).unwrap();
-        msg.encode(w);
-    } else {
-        msg.to_string().encode(w);
+    let mut len = msg.len().min(255);
+    while !msg.is_char_boundary(len) {
+        len -= 1;
     }
+
+    msg[..len].to_string().encode(w);
 }
 
 fn encode_err_type(err: &RuntimeError, w: &mut impl WriteExt) {
-- 
2.43.0


From e367357bfb0b089a994162dc3212703cc2f4c5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:15 +0000
Subject: [PATCH 18/58] fix: keep the logs of a failed deploy when encoding its
 receipt

---
 crates/host/codec/src/receipt/deploy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/codec/src/receipt/deploy.rs b/crates/host/codec/src/receipt/deploy.rs
index 75a9f24..3a2f3e8 100644
--- a/crates/host/codec/src/receipt/deploy.rs
+++ b/crates/host/codec/src/receipt/deploy.rs
@@ -34,7 +34,7 @@ impl Codec for DeployReceipt {
             self.gas_used.encode(w);
             self.logs.encode(w);
         } else {
-            RuntimeFailure::new(self.error().clone(), vec![]).encode(w);
+            RuntimeFailure::new(self.error().clone(), self.logs.clone()).encode(w);
         };
     }
 
-- 
2.43.0


From 85394b8b33a3cb6213bb08ca258efccfa923b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:35 +0000
Subject: [PATCH 19/58] fix: report unsupported template sections as parse
 errors instead of panicking

---
 crates/host/codec/src/section/sections/api.rs    | 3 ++-
 crates/host/codec/src/section/sections/code.rs   | 2 +-
 crates/host/codec/src/section/sections/data.rs   | 8 +++++++-
 crates/host/codec/src/section/sections/schema.rs | 3 ++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/host/codec/src/section/sections/api.rs b/crates/host/codec/src/section/sections/api.rs
index 6c963d0..2b748f0 100644
--- a/crates/host/codec/src/section/sections/api.rs
+++ b/crates/host/codec/src/section/sections/api.rs
@@ -10,6 +10,7 @@ impl Codec for ApiSection {
     }
 
     fn decode(_cursor: &mut impl ReadExt) -> Result<Self, ParseError> {
-        todo!("will be implemented in a future PR...");
+        // Will be implemented in a future PR...
+        Err(ParseError::InvalidSection)
     }
 }
diff --git a/crates/host/codec/src/section/sections/code.rs b/crates/host/codec/src/section/sections/code.rs
index db3d921..a4cb12e 100644
--- a/crates/host/codec/src/section/sections/code.rs
+++ b/crates/host/codec/src/section/sections/code.rs
@@ -70,7 +70,7 @@ impl Codec for GasMode {
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         match u64::decode(reader)? {
             GAS_MODE_FIXED => Ok(GasMode::Fixed),
-            _ => unreachable!(),
+            _ => Err(ParseError::InvalidSection),
         }
     }
 }
diff --git a/crates/host/codec/src/section/sections/data.rs b/crates/host/codec/src/section/sections/data.rs
index 1dcfb14..4c93f24 100644
--- a/crates/host/codec/src/section/sections/data.rs
+++ b/crates/host/codec/src/section/sections/data.rs
@@ -121,6 +121,12 @@ impl Codec for Layout {
                 if var_count > 0 {
                     first_var_id = u32::decode(reader)?;
 
+                    // The ids of the variables are consecutive
+                    let last_var_offset = u32::from(var_count - 1);
+                    if first_var_id.checked_add(last_var_offset).is_none() {
+                        return Err(ParseError::InvalidSection);
+                    }
+
                     // Decoding each `var`
                     for _ in 0..var_count {
                         let byte_size = decode_var_byte_size(reader)?;
@@ -150,7 +156,7 @@ impl Codec for LayoutKind {
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         match u16::decode(reader)? {
             FIXED => Ok(LayoutKind::Fixed),
-            _ => unreachable!(),
+            _ => Err(ParseError::InvalidSection),
         }
     }
 }
diff --git a/crates/host/codec/src/section/sections/schema.rs b/crates/host/codec/src/section/sections/schema.rs
index 96d69be..834c17d 100644
--- a/crates/host/codec/src/section/sections/schema.rs
+++ b/crates/host/codec/src/section/sections/schema.rs
@@ -29,7 +29,8 @@ impl Codec for SchemaSection {
     }
 
     fn decode(_reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
-        todo!("will be implemented in a future PR...");
+        // Will be implemented in a future PR...
+        Err(ParseError::InvalidSection)
     }
 }
 
-- 
2.43.0


From 211ff652400ef94760f1002b434021ccf19d6ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:36 +0000
Subject: [PATCH 20/58] fix: don't allocate memory for bytes that aren't there
 when decoding

---
 crates/host/codec/src/ext.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/host/codec/src/ext.rs b/crates/host/codec/src/ext.rs
index a596f1e..6adfe88 100644
--- a/crates/host/codec/src/ext.rs
+++ b/crates/host/codec/src/ext.rs
@@ -24,8 +24,11 @@ pub trait ReadExt: Sized {
 
     /// Reads `length` bytes
     fn read_bytes(&mut self, length: usize) -> Result<Vec<u8>, ParseError> {
-        let mut buf = vec![0; length];
-        self.read_fill(&mut buf[..])?;
+        // `length` may come from untrusted input, so nothing is allocated ahead of the bytes.
+        let mut buf = Vec::new();
+        for _ in 0..length {
+            buf.push(self.read_byte()?);
+        }
         Ok(buf)
     }
 }
-- 
2.43.0


From 8de0da648e65306e1212d75250fdf90d0c0f7405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:27 +0000
Subject: [PATCH 21/58] fix: report malformed transactions and receipts as JSON
 errors instead of panicking

---
 crates/host/codec/src/api/json/call.rs    | 9 ++-------
 crates/host/codec/src/api/json/receipt.rs | 6 +++---
 crates/host/codec/src/api/json/spawn.rs   | 6 ++++--
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/crates/host/codec/src/api/json/call.rs b/crates/host/codec/src/api/json/call.rs
index 4fbf9b8..a3f45ac 100644
--- a/crates/host/codec/src/api/json/call.rs
+++ b/crates/host/codec/src/api/json/call.rs
@@ -65,13 +65,8 @@ pub fn decode_call(json: &str) -> Result<Json, JsonError> {
         path: json.to_string(),
     })?;
 
-    let verifydata = EncodedOrDecodedCalldata::Decoded(
-        DecodedInputData::new(&decode_raw_input(tx.verifydata()).unwrap().to_string()).unwrap(),
-    );
-
-    let calldata = EncodedOrDecodedCalldata::Decoded(
-        DecodedInputData::new(&decode_raw_input(tx.calldata()).unwrap().to_string()).unwrap(),
-    );
+    let verifydata = decode_raw_input(tx.verifydata())?;
+    let calldata = decode_raw_input(tx.calldata())?;
 
     Ok(json!({
         "version": tx.version,
diff --git a/crates/host/codec/src/api/json/receipt.rs b/crates/host/codec/src/api/json/receipt.rs
index 720968b..dd38d27 100644
--- a/crates/host/codec/src/api/json/receipt.rs
+++ b/crates/host/codec/src/api/json/receipt.rs
@@ -13,9 +13,9 @@ pub fn decode_receipt(json: &str) -> Result<Value, JsonError> {
     let json = &mut parse_json(json)?;
     let encoded_data = get_field::<HexBlob<Vec<u8>>>(json, "data")?.0;
 
-    assert!(encoded_data.len() > 0);
-
-    let receipt = Receipt::decode_bytes(encoded_data).unwrap();
+    let receipt = Receipt::decode_bytes(encoded_data).map_err(|_| JsonError::InvalidField {
+        path: "data".to_string(),
+    })?;
     let ty = receipt_type(&receipt);
 
     let json = if receipt.success() {
diff --git a/crates/host/codec/src/api/json/spawn.rs b/crates/host/codec/src/api/json/spawn.rs
index db0582b..6dcd836 100644
--- a/crates/host/codec/src/api/json/spawn.rs
+++ b/crates/host/codec/src/api/json/spawn.rs
@@ -42,8 +42,10 @@ pub fn decode_spawn(json: &str) -> Result<Json, JsonError> {
     let json = &mut parse_json(json)?;
     let encoded_data = get_field::<HexBlob<Vec<u8>>>(json, "data")?.0;
 
-    let spawn = SpawnAccount::decode_bytes(encoded_data).unwrap();
-    let decoded_calldata = decode_raw_input(&spawn.calldata).unwrap();
+    let spawn = SpawnAccount::decode_bytes(encoded_data).map_err(|_| JsonError::InvalidField {
+        path: "data".to_string(),
+    })?;
+    let decoded_calldata = decode_raw_input(&spawn.calldata)?;
 
     Ok(json!({
         "version": spawn.version,
-- 
2.43.0


From 585f63a01be93bb045562f46c2888702d341178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:27 +0000
Subject: [PATCH 22/58] fix: report input that isn't UTF-8 in the result of the
 WASM API

---
 crates/host/codec/src/api/wasm/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/host/codec/src/api/wasm/mod.rs b/crates/host/codec/src/api/wasm/mod.rs
index 4e3c8b2..5943584 100644
--- a/crates/host/codec/src/api/wasm/mod.rs
+++ b/crates/host/codec/src/api/wasm/mod.rs
@@ -175,8 +175,9 @@ where
     F: Fn(&str) -> Result<Vec<u8>, JsonError>,
 {
     let buf = Buffer::from_ptr(ptr);
-    let json_s = std::str::from_utf8(buf.as_ref()).expect("Invalid UTF-8");
-    let result = f(json_s);
+    let result = std::str::from_utf8(buf.as_ref())
+        .map_err(JsonError::from)
+        .and_then(f);
 
     result
         .map(|bytes| Buffer::alloc_ok(&bytes))
-- 
2.43.0


From f299fe6adbfbe65a4c7cf6d85f430cb2a74a13f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:27 +0000
Subject: [PATCH 23/58] fix: show large gas amounts and binary logs in JSON
 receipts

---
 crates/host/codec/src/api/json/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/host/codec/src/api/json/mod.rs b/crates/host/codec/src/api/json/mod.rs
index 842fab5..2539fdc 100644
--- a/crates/host/codec/src/api/json/mod.rs
+++ b/crates/host/codec/src/api/json/mod.rs
@@ -18,18 +18,18 @@ use serde_json::{json, Value as Json};
 
 use svm_types::{Gas, ReceiptLog};
 
-fn gas_to_json(gas: &Gas) -> i64 {
+fn gas_to_json(gas: &Gas) -> Json {
     if gas.is_some() {
-        gas.unwrap() as _
+        json!(gas.unwrap())
     } else {
-        -1
+        json!(-1)
     }
 }
 
 fn logs_to_json(logs: &[ReceiptLog]) -> Vec<Json> {
     logs.iter()
         .map(|log| {
-            let data = std::str::from_utf8(log.as_bytes()).expect("Invalid UTF-8");
+            let data = String::from_utf8_lossy(log.as_bytes());
 
             json!({
                 "data": data,
-- 
2.43.0


From 2ef9f2b8679da0900b1de29e95d7baa40e71ac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:59 +0000
Subject: [PATCH 24/58] fix: report JSON values that have no encoding as errors
 instead of panicking

---
 crates/host/codec/src/api/json/call.rs      | 23 ++++++++++-----
 crates/host/codec/src/api/json/inputdata.rs | 31 +++++++++++++++------
 crates/host/codec/src/api/json/mod.rs       | 13 +++++++++
 crates/host/codec/src/api/json/spawn.rs     |  8 +++---
 4 files changed, 56 insertions(+), 19 deletions(-)

diff --git a/crates/host/codec/src/api/json/call.rs b/crates/host/codec/src/api/json/call.rs
index a3f45ac..7dc0bc9 100644
--- a/crates/host/codec/src/api/json/call.rs
+++ b/crates/host/codec/src/api/json/call.rs
@@ -5,7 +5,7 @@ use svm_types::Transaction;
 
 use super::inputdata::{decode_raw_input, DecodedInputData};
 use super::serde_types::*;
-use super::{get_field, parse_json, JsonError};
+use super::{get_field, get_string, parse_json, JsonError};
 use crate::Codec;
 
 /// Transforms a user-friendly `call` into an encoded form:
@@ -42,9 +42,9 @@ pub fn encode_call_raw(json: &str) -> Result<Vec<u8>, JsonError> {
     Ok(Transaction {
         version: get_field(json, "version")?,
         target: get_field::<AddressWrapper>(json, "target")?.into(),
-        func_name: get_field(json, "func_name")?,
-        verifydata: get_field::<EncodedOrDecodedCalldata>(json, "verifydata")?.encode(),
-        calldata: get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode(),
+        func_name: get_string(json, "func_name")?,
+        verifydata: get_field::<EncodedOrDecodedCalldata>(json, "verifydata")?.encode("verifydata")?,
+        calldata: get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode("calldata")?,
     }
     .encode_to_vec())
 }
@@ -87,10 +87,19 @@ pub(crate) enum EncodedOrDecodedCalldata {
 }
 
 impl EncodedOrDecodedCalldata {
-    pub fn encode(self) -> Vec<u8> {
-        match self {
+    /// The input data of a transaction is prefixed by its length as a single byte.
+    pub fn encode(self, field_name: &str) -> Result<Vec<u8>, JsonError> {
+        let bytes = match self {
             Self::Encoded(encoded) => encoded.0,
-            Self::Decoded(decoded) => decoded.encode().unwrap(),
+            Self::Decoded(decoded) => decoded.encode()?,
+        };
+
+        if bytes.len() > u8::MAX as usize {
+            Err(JsonError::InvalidField {
+                path: field_name.to_string(),
+            })
+        } else {
+            Ok(bytes)
         }
     }
 }
diff --git a/crates/host/codec/src/api/json/inputdata.rs b/crates/host/codec/src/api/json/inputdata.rs
index d7fca6a..6cabcb2 100644
--- a/crates/host/codec/src/api/json/inputdata.rs
+++ b/crates/host/codec/src/api/json/inputdata.rs
@@ -24,7 +24,7 @@ use crate::api::json::JsonError;
 /// ```
 pub fn encode_inputdata(json: &str) -> Result<Json, JsonError> {
     let decoded = DecodedInputData::new(json)?;
-    let calldata = HexBlob(decoded.encode().unwrap());
+    let calldata = HexBlob(decoded.encode()?);
     Ok(json!({ "data": calldata }))
 }
 
@@ -211,9 +211,7 @@ impl TySig {
     fn value_byte_size(&self, value: &Json) -> Result<usize, JsonError> {
         let byte_size = match self {
             TySig::Array(types) => {
-                assert_eq!(types.len(), 1);
-
-                let ty = &types[0];
+                let ty = array_elem_type(types)?;
 
                 // we initialize `byte_size` for the `length` marker.
                 let mut byte_size = 1;
@@ -289,17 +287,34 @@ fn encode_value(ty: TySig, value: Json) -> Result<SdkValue, JsonError> {
     }
 }
 
-fn encode_array(types: &[TySig], mut value: Json) -> Result<SdkValue, JsonError> {
-    assert_eq!(types.len(), 1);
+/// The ABI supports arrays of up to 10 elements.
+const MAX_ARRAY_LEN: usize = 10;
+
+/// The signature of an array consists of the signature of its elements.
+fn array_elem_type(types: &[TySig]) -> Result<&TySig, JsonError> {
+    match types {
+        [ty] => Ok(ty),
+        _ => Err(JsonError::InvalidField {
+            path: "abi".to_string(),
+        }),
+    }
+}
 
-    let ty = &types[0];
+fn encode_array(types: &[TySig], mut value: Json) -> Result<SdkValue, JsonError> {
+    let ty = array_elem_type(types)?;
 
     let mut value = value.take();
     let elems = value.as_array_mut().ok_or(JsonError::InvalidField {
         path: "calldata".to_string(),
     })?;
 
-    let mut vec = svm_sdk_std::Vec::with_capacity(10);
+    if elems.len() > MAX_ARRAY_LEN {
+        return Err(JsonError::InvalidField {
+            path: "calldata".to_string(),
+        });
+    }
+
+    let mut vec = svm_sdk_std::Vec::with_capacity(MAX_ARRAY_LEN);
 
     for elem in elems.iter_mut() {
         let elem = encode_value(ty.clone(), elem.take())?;
diff --git a/crates/host/codec/src/api/json/mod.rs b/crates/host/codec/src/api/json/mod.rs
index 2539fdc..66e9b25 100644
--- a/crates/host/codec/src/api/json/mod.rs
+++ b/crates/host/codec/src/api/json/mod.rs
@@ -54,6 +54,19 @@ where
     })
 }
 
+/// Encoded strings are prefixed by their length as a single byte.
+fn get_string(json: &mut Json, name: &str) -> Result<String, JsonError> {
+    let string: String = get_field(json, name)?;
+
+    if string.len() > u8::MAX as usize {
+        Err(JsonError::InvalidField {
+            path: name.to_string(),
+        })
+    } else {
+        Ok(string)
+    }
+}
+
 fn parse_json(json_str: &str) -> Result<Json, JsonError> {
     let json_deserializer = &mut serde_json::Deserializer::from_str(json_str);
     let value = serde_path_to_error::deserialize(json_deserializer)?;
diff --git a/crates/host/codec/src/api/json/spawn.rs b/crates/host/codec/src/api/json/spawn.rs
index 6dcd836..1087bf0 100644
--- a/crates/host/codec/src/api/json/spawn.rs
+++ b/crates/host/codec/src/api/json/spawn.rs
@@ -5,7 +5,7 @@ use svm_types::{Account, SpawnAccount};
 use super::call::EncodedOrDecodedCalldata;
 use super::inputdata::decode_raw_input;
 use super::serde_types::{HexBlob, TemplateAddrWrapper};
-use super::{get_field, parse_json, JsonError};
+use super::{get_field, get_string, parse_json, JsonError};
 use crate::Codec;
 
 ///
@@ -23,9 +23,9 @@ pub fn encode_spawn(json: &str) -> Result<Vec<u8>, JsonError> {
 
     let version = get_field(json, "version")?;
     let template_addr = get_field::<TemplateAddrWrapper>(json, "template")?.into();
-    let name = get_field(json, "name")?;
-    let ctor_name = get_field(json, "ctor_name")?;
-    let calldata = get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode();
+    let name = get_string(json, "name")?;
+    let ctor_name = get_string(json, "ctor_name")?;
+    let calldata = get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode("calldata")?;
 
     Ok(SpawnAccount {
         version,
-- 
2.43.0


From b22ac6987d6c257d1200106b78b1f5b72307a8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:23 +0000
Subject: [PATCH 25/58] fix: decode arrays of eight elements

---
 crates/wasm/abi-decoder/src/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/wasm/abi-decoder/src/decoder.rs b/crates/wasm/abi-decoder/src/decoder.rs
index 677a2b2..101ba1a 100644
--- a/crates/wasm/abi-decoder/src/decoder.rs
+++ b/crates/wasm/abi-decoder/src/decoder.rs
@@ -265,8 +265,6 @@ impl Decoder {
 
         let len = self.read_byte(cursor)?;
 
-        let mut values: Vec<Value> = Vec::with_capacity(len as usize);
-
         let len = match len {
             layout::ARR_0 => 0,
             layout::ARR_1 => 1,
@@ -281,6 +279,9 @@ impl Decoder {
             layout::ARR_10 => 10,
             _ => svm_sdk_std::panic(),
         };
+
+        let mut values: Vec<Value> = Vec::with_capacity(len);
+
         seq_macro::seq!(n in 0..11 {
             if len > n {
                 let value = self.decode_primitive(cursor)?;
-- 
2.43.0


From 09264912b256a3a8f34903395c01ffb7bd47d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:23 +0000
Subject: [PATCH 26/58] fix: compute the exact byte-size of an encoded array

---
 crates/wasm/abi-encoder/src/types/small_array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wasm/abi-encoder/src/types/small_array.rs b/crates/wasm/abi-encoder/src/types/small_array.rs
index 2ffd233..4a2a67f 100644
--- a/crates/wasm/abi-encoder/src/types/small_array.rs
+++ b/crates/wasm/abi-encoder/src/types/small_array.rs
@@ -40,7 +40,7 @@ where
             // The compiler complains, but it's wrong! The following comparison
             // might be useless or not, depending on the array const generic.
             #[allow(unused_comparisons)]
-            if N >= i {
+            if N > i {
                 payload_size += self[i].byte_size();
             }
         });
-- 
2.43.0


From a6006839068d2e1cdd203f004e00a4269bc427d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:38 +0000
Subject: [PATCH 27/58] fix: abort on overflowing Amount arithmetic instead of
 wrapping in release builds

---
 crates/wasm/sdk-types/src/amount.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/crates/wasm/sdk-types/src/amount.rs b/crates/wasm/sdk-types/src/amount.rs
index 86eeed3..2e3eeea 100644
--- a/crates/wasm/sdk-types/src/amount.rs
+++ b/crates/wasm/sdk-types/src/amount.rs
@@ -1,7 +1,7 @@
 use core::cmp::{Ordering, PartialOrd};
 use core::ops::{Add, AddAssign, Mul, MulAssign, Sub, SubAssign};
 
-use svm_sdk_std::{ensure, String, StringBuilder, ToString};
+use svm_sdk_std::{ensure, panic, String, StringBuilder, ToString};
 
 use crate::types::PrimitiveMarker;
 
@@ -25,11 +25,20 @@ impl core::fmt::Debug for Amount {
     }
 }
 
+/// Coins are never created by an overflowing arithmetic operation.
+#[inline]
+fn checked(result: Option<u64>) -> u64 {
+    match result {
+        Some(value) => value,
+        None => panic(),
+    }
+}
+
 impl Add for Amount {
     type Output = Self;
 
     fn add(self, rhs: Self) -> Self::Output {
-        Self(self.0 + rhs.0)
+        Self(checked(self.0.checked_add(rhs.0)))
     }
 }
 
@@ -37,7 +46,7 @@ impl Add<u64> for Amount {
     type Output = Self;
 
     fn add(self, rhs: u64) -> Self::Output {
-        Self(self.0 + rhs)
+        Self(checked(self.0.checked_add(rhs)))
     }
 }
 
@@ -65,7 +74,7 @@ impl Mul for Amount {
     type Output = Self;
 
     fn mul(self, rhs: Self) -> Self::Output {
-        Amount(self.0 * rhs.0)
+        Amount(checked(self.0.checked_mul(rhs.0)))
     }
 }
 
@@ -73,19 +82,19 @@ impl Mul<u64> for Amount {
     type Output = Self;
 
     fn mul(self, rhs: u64) -> Self::Output {
-        Amount(self.0 * rhs)
+        Amount(checked(self.0.checked_mul(rhs)))
     }
 }
 
 impl AddAssign for Amount {
     fn add_assign(&mut self, rhs: Self) {
-        *self = Amount(self.0 + rhs.0)
+        *self = Amount(checked(self.0.checked_add(rhs.0)))
     }
 }
 
 impl AddAssign<u64> for Amount {
     fn add_assign(&mut self, rhs: u64) {
-        *self = Amount(self.0 + rhs)
+        *self = Amount(checked(self.0.checked_add(rhs)))
     }
 }
 
@@ -107,13 +116,13 @@ impl SubAssign<u64> for Amount {
 
 impl MulAssign for Amount {
     fn mul_assign(&mut self, rhs: Self) {
-        *self = Amount(self.0 * rhs.0)
+        *self = Amount(checked(self.0.checked_mul(rhs.0)))
     }
 }
 
 impl MulAssign<u64> for Amount {
     fn mul_assign(&mut self, rhs: u64) {
-        *self = Amount(self.0 * rhs)
+        *self = Amount(checked(self.0.checked_mul(rhs)))
     }
 }
 
-- 
2.43.0


From fd278dc1a272fb555539efede1216072c9007b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:18 +0000
Subject: [PATCH 28/58] fix: prune chains of unreachable blocks when pricing a
 function

---
 crates/host/gas/src/graph/weight.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/host/gas/src/graph/weight.rs b/crates/host/gas/src/graph/weight.rs
index dd68b1c..0fb04ff 100644
--- a/crates/host/gas/src/graph/weight.rs
+++ b/crates/host/gas/src/graph/weight.rs
@@ -54,13 +54,17 @@ fn prune_unreachable_nodes<L>(graph: &WeightedGraph<L>, start: L)
 where
     L: NodeLabel,
 {
-    graph
-        .source_nodes()
-        .iter()
-        .filter(|node| node.label() != start)
-        .for_each(|source| {
-            graph.remove_node(source);
-        });
+    let mut unreachable = graph.source_nodes();
+    unreachable.retain(|node| node.label() != start);
+
+    // Removing an unreachable `Node` may leave its neighbors without incoming edges.
+    while let Some(node) = unreachable.pop() {
+        let neighbors = node.outgoing();
+
+        graph.remove_node(&node);
+
+        unreachable.extend(neighbors.into_iter().filter(|node| node.is_source()));
+    }
 }
 
 fn construct_path<L>(graph: &WeightedGraph<L>, start: L, end: L) -> WeightedPath<L>
-- 
2.43.0


From a081450deb140dcab2effdafac8430c66fa0c78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:22 +0000
Subject: [PATCH 29/58] fix: spawn accounts of templates that have no storage

---
 crates/host/state/src/account_storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/host/state/src/account_storage.rs b/crates/host/state/src/account_storage.rs
index daf586d..045e3b4 100644
--- a/crates/host/state/src/account_storage.rs
+++ b/crates/host/state/src/account_storage.rs
@@ -334,8 +334,9 @@ async fn template_layout(
     let template_storage = TemplateStorage::load(gs, &template_addr)?;
     let sections = template_storage.sections().await?;
     let data_section = sections.get(SectionKind::Data).as_data();
-    let layout = data_section.layouts()[0].as_fixed().clone();
-    Ok(layout)
+    // A template may have no storage at all.
+    let layout = data_section.layouts().first();
+    Ok(layout.map_or_else(FixedLayout::default, |layout| layout.as_fixed().clone()))
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 52440550c362631da5bd3c76f1d2f5a09ed38f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:52 +0000
Subject: [PATCH 30/58] fix: encode every template that can be decoded

---
 crates/host/codec/src/section/sections/ctors.rs | 2 +-
 crates/host/codec/src/section/sections/data.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/host/codec/src/section/sections/ctors.rs b/crates/host/codec/src/section/sections/ctors.rs
index 3199822..d9caced 100644
--- a/crates/host/codec/src/section/sections/ctors.rs
+++ b/crates/host/codec/src/section/sections/ctors.rs
@@ -21,7 +21,7 @@ impl Codec for CtorsSection {
         // `#Ctors`
         let count = self.ctors().len();
 
-        assert!(count < std::u8::MAX as usize);
+        assert!(count <= std::u8::MAX as usize);
 
         w.write_byte(count as u8);
 
diff --git a/crates/host/codec/src/section/sections/data.rs b/crates/host/codec/src/section/sections/data.rs
index 4c93f24..3aba30f 100644
--- a/crates/host/codec/src/section/sections/data.rs
+++ b/crates/host/codec/src/section/sections/data.rs
@@ -91,7 +91,7 @@ impl Codec for Layout {
 
                 // `#Vars`
                 let var_count = layout.len();
-                assert!(var_count < std::u16::MAX as usize);
+                assert!(var_count <= std::u16::MAX as usize);
                 (var_count as u16).encode(w);
 
                 if var_count > 0 {
-- 
2.43.0


From ea0b7c828c581cd077f896a05aecc787d518a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:08 +0000
Subject: [PATCH 31/58] fix: keep the logs when returndata is out of the memory
 bounds

The range was only checked after the function had returned, when its logs
had already been taken, so the receipt of the failed call had none.
---
 crates/host/runtime/src/vmcalls/returndata.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/host/runtime/src/vmcalls/returndata.rs b/crates/host/runtime/src/vmcalls/returndata.rs
index 717ceaa..5c465a1 100644
--- a/crates/host/runtime/src/vmcalls/returndata.rs
+++ b/crates/host/runtime/src/vmcalls/returndata.rs
@@ -2,9 +2,18 @@ use crate::FuncEnv;
 
 /// Signals the host that the data that resides at offset `offset` of length `length`
 /// holds the `Returndata` of the executed function.
+///
+/// # Panics
+///
+/// Panics when the data isn't within the memory of the running instance.
 pub fn set_returndata(env: &FuncEnv, offset: u32, length: u32) {
     dbg!("set_returndata (offset = {}, length = {})", offset, length);
 
+    let end = offset as u64 + length as u64;
+    if end > env.borrow().allocated_memory() {
+        panic!("`Returndata` is out of the memory bounds")
+    }
+
     env.borrow_mut()
         .set_returndata(offset as usize, length as usize)
 }
-- 
2.43.0


From 5b5ed3496d1ab670ebebf4f72737cbbe64a563db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:22 +0000
Subject: [PATCH 32/58] fix: reject templates whose code isn't valid Wasm

---
 crates/host/runtime/src/runtime/runtime.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index ca383b2..2f9f62a 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -8,7 +8,7 @@ use std::sync::Arc;
 
 use svm_codec::Codec;
 use svm_hash::{Blake3Hasher, Hasher};
-use svm_program::Program;
+use svm_program::{Program, ProgramError};
 use svm_state::{AccountStorage, GlobalState, TemplateStorage};
 use svm_types::{
     Address, BytesPrimitive, CallReceipt, Context, DeployReceipt, Envelope, Gas, GasMode, Layer,
@@ -585,6 +585,10 @@ impl Runtime {
         let program = Program::new(code, true)?;
         svm_gas::validate_wasm(&program, false)?;
 
+        // [`Program`] only parses the code. Pricing relies on it being valid Wasm.
+        let store = crate::wasm_store::new_store();
+        Module::validate(&store, code).map_err(|_| ProgramError::InvalidWasm)?;
+
         Ok(())
     }
 
-- 
2.43.0


From fb184f1a266d4755c20ce64ce6cb961980396738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:49 +0000
Subject: [PATCH 33/58] fix: report invalid svm_alloc and svm_verify exports as
 errors

---
 crates/host/program/src/program.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/host/program/src/program.rs b/crates/host/program/src/program.rs
index 5171e83..2da3489 100644
--- a/crates/host/program/src/program.rs
+++ b/crates/host/program/src/program.rs
@@ -284,15 +284,15 @@ fn export_func_signature<'p>(
     module_types: &'p [pwasm::Type],
 ) -> Result<&'p pwasm::Type, ProgramError> {
     if let pwasm::Internal::Function(global) = entry.internal() {
-        let global = *global as usize;
-        debug_assert!(global >= import_count);
-
-        let local = global - import_count;
-        let func = &module_functions[local];
-        let type_ref = func.type_ref() as usize;
-        let sig = &module_types[type_ref];
-
-        Ok(sig)
+        // An import function that's exported again has no code within the module.
+        let local = (*global as usize)
+            .checked_sub(import_count)
+            .ok_or(ProgramError::InvalidExportKind)?;
+
+        module_functions
+            .get(local)
+            .and_then(|func| module_types.get(func.type_ref() as usize))
+            .ok_or(ProgramError::InvalidWasm)
     } else {
         Err(ProgramError::InvalidExportKind)
     }
-- 
2.43.0


From edf62f768a235cb3bb21b830d621c188cc5498aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:27 +0000
Subject: [PATCH 34/58] fix: reject conversions from floats

---
 crates/host/program/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/host/program/src/lib.rs b/crates/host/program/src/lib.rs
index 342b412..fe5db72 100644
--- a/crates/host/program/src/lib.rs
+++ b/crates/host/program/src/lib.rs
@@ -90,6 +90,16 @@ fn validate_opcode(op: &Op) -> Result<(), ProgramError> {
         | Instruction::F64ConvertSI64
         | Instruction::F64ConvertUI64
         | Instruction::F64PromoteF32
+        | Instruction::I32TruncSF32
+        | Instruction::I32TruncUF32
+        | Instruction::I32TruncSF64
+        | Instruction::I32TruncUF64
+        | Instruction::I64TruncSF32
+        | Instruction::I64TruncUF32
+        | Instruction::I64TruncSF64
+        | Instruction::I64TruncUF64
+        | Instruction::I32ReinterpretF32
+        | Instruction::I64ReinterpretF64
         | Instruction::F32ReinterpretI32
         | Instruction::F64ReinterpretI64 => Err(ProgramError::FloatsNotAllowed),
         _ => Ok(()),
-- 
2.43.0


From 59d9717085aae84142afa9004e10f49ea6761cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:27 +0000
Subject: [PATCH 35/58] fix: import functions can't be constructors

---
 crates/host/runtime/src/runtime/runtime.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 2f9f62a..b3c4deb 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -453,13 +453,16 @@ impl Runtime {
 
         match gas_mode {
             GasMode::Fixed => {
-                let func_index = program.exports().get(func_name).ok_or_else(|| {
-                    RuntimeError::FuncNotFound {
+                // An import function that's exported again isn't a function of the template.
+                let func_index = program
+                    .exports()
+                    .get(func_name)
+                    .filter(|func_index| !program.is_imported(*func_index))
+                    .ok_or_else(|| RuntimeError::FuncNotFound {
                         target: target.clone(),
                         template: template_addr.clone(),
                         func: func_name.to_string(),
-                    }
-                })?;
+                    })?;
                 let func_price = self.template_price.price_of(&template_addr, &program);
 
                 let price = func_price.get(func_index) as u64;
-- 
2.43.0


From e8a4a1dfff9738200c9b64c4e72496d68029b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:04 +0000
Subject: [PATCH 36/58] fix: report a call cycle also when other functions
 follow from it

---
 crates/host/gas/src/graph/sort.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/crates/host/gas/src/graph/sort.rs b/crates/host/gas/src/graph/sort.rs
index 57e6d30..ac3b257 100644
--- a/crates/host/gas/src/graph/sort.rs
+++ b/crates/host/gas/src/graph/sort.rs
@@ -96,16 +96,14 @@ where
         .collect::<Vec<_>>();
 
     // We order so that the tests will be deterministic.
-    // So we always pick the first node out of the sorted `candidates`
+    // So we always pick the first suitable node out of the sorted `candidates`
     candidates.sort_by_key(|node| node.label());
 
-    let start = candidates.first().unwrap();
-    let cycle = find_cycle(&start);
-
-    Some(cycle)
+    // A candidate may merely lie on a path that leaves a cycle.
+    candidates.iter().find_map(find_cycle)
 }
 
-fn find_cycle<L, D>(start: &NodeRef<L, D>) -> Vec<L>
+fn find_cycle<L, D>(start: &NodeRef<L, D>) -> Option<Vec<L>>
 where
     L: NodeLabel,
     D: NodeData,
@@ -113,11 +111,11 @@ where
     let mut cycle = Vec::new();
     let mut visited = HashSet::new();
 
-    let found = recur_find_cycle(start, &mut cycle, &mut visited);
-
-    debug_assert!(found);
-
-    cycle
+    if recur_find_cycle(start, &mut cycle, &mut visited) {
+        Some(cycle)
+    } else {
+        None
+    }
 }
 
 fn recur_find_cycle<L, D>(
-- 
2.43.0


From 4adab1e7e7bb3e8a802dfb27094f7f02da3af1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:00 +0000
Subject: [PATCH 37/58] fix: refuse calldata with a mismatching number of types
 and values

The length check of encode_inputdata didn't apply to the calldata and
verifydata given inline to encode_call and encode_spawn, whose surplus
values were dropped.
---
 crates/host/codec/src/api/json/inputdata.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/host/codec/src/api/json/inputdata.rs b/crates/host/codec/src/api/json/inputdata.rs
index 6cabcb2..1b0b13f 100644
--- a/crates/host/codec/src/api/json/inputdata.rs
+++ b/crates/host/codec/src/api/json/inputdata.rs
@@ -54,13 +54,7 @@ impl DecodedInputData {
         let abi = get_field::<Vec<TySig>>(json, "abi")?;
         let data = get_field::<Vec<Json>>(json, "data")?;
 
-        if abi.len() != data.len() {
-            Err(JsonError::InvalidField {
-                path: "data".to_string(),
-            })
-        } else {
-            Ok(Self { abi, data })
-        }
+        Ok(Self { abi, data })
     }
 
     /// Like `Self::zip`, but in borrowed form.
@@ -79,6 +73,12 @@ impl DecodedInputData {
     }
 
     pub fn encode(self) -> Result<Vec<u8>, JsonError> {
+        if self.abi.len() != self.data.len() {
+            return Err(JsonError::InvalidField {
+                path: "data".to_string(),
+            });
+        }
+
         let cap = self.cap()?;
         let mut buf = svm_sdk_std::Vec::with_capacity(cap);
 
-- 
2.43.0


From cc434f39f3bcc4bcbe733340289d08e5c73e899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:17 +0000
Subject: [PATCH 38/58] fix: hash SDK addresses by their contents

Equal addresses had different hashes (those of their pointers), so that
MockHost took copies of an address for distinct accounts.
---
 crates/wasm/sdk-types/src/blob.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/wasm/sdk-types/src/blob.rs b/crates/wasm/sdk-types/src/blob.rs
index 0825819..f2376ff 100644
--- a/crates/wasm/sdk-types/src/blob.rs
+++ b/crates/wasm/sdk-types/src/blob.rs
@@ -8,7 +8,7 @@ macro_rules! impl_blob_type {
 
         #[allow(missing_docs)]
         #[repr(transparent)]
-        #[derive(Copy, Hash)]
+        #[derive(Copy)]
         pub struct $ty(*const u8);
 
         impl $crate::types::PrimitiveMarker for $ty {}
@@ -134,6 +134,12 @@ macro_rules! impl_blob_type {
 
         impl Eq for $ty {}
 
+        impl core::hash::Hash for $ty {
+            fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+                self.as_slice().hash(state);
+            }
+        }
+
         impl svm_sdk_std::ToString for $ty {
             fn to_string(&self) -> svm_sdk_std::String {
                 use svm_sdk_std::{HexDigit, StringBuilder, String};
-- 
2.43.0


From aa510b290b5cf5dd3e4dbc392da4c27e07ea6480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:17 +0000
Subject: [PATCH 39/58] fix: allocate enough space for the string of a layer

Formatting layers of 19 digits and more used to abort.
---
 crates/wasm/sdk-types/src/layer_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wasm/sdk-types/src/layer_id.rs b/crates/wasm/sdk-types/src/layer_id.rs
index 7c71ae2..2fa4f56 100644
--- a/crates/wasm/sdk-types/src/layer_id.rs
+++ b/crates/wasm/sdk-types/src/layer_id.rs
@@ -14,7 +14,7 @@ impl core::fmt::Debug for LayerId {
 
 impl ToString for LayerId {
     fn to_string(&self) -> String {
-        let mut sb = StringBuilder::with_capacity(20 + " coins".len());
+        let mut sb = StringBuilder::with_capacity("[Layer 18446744073709551615]".len());
 
         let s = self.0.to_string();
         sb.push_str(&String::new_short("[Layer ".as_bytes()));
-- 
2.43.0


From be8c23d4b8fe0a57d7b05a37b58bed68ef060504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:17 +0000
Subject: [PATCH 40/58] fix: don't mint coins when the mock host transfers to
 the same account

---
 crates/wasm/sdk-host-mock/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/wasm/sdk-host-mock/src/lib.rs b/crates/wasm/sdk-host-mock/src/lib.rs
index 1325351..f291227 100644
--- a/crates/wasm/sdk-host-mock/src/lib.rs
+++ b/crates/wasm/sdk-host-mock/src/lib.rs
@@ -323,13 +323,18 @@ impl Host for InnerHost {
 
         assert!(target_balance >= amount);
 
+        let src = self.target();
+
+        // A transfer to oneself leaves the balance as is.
+        if src == *dst {
+            return;
+        }
+
         let dst_balance = self.balance_of(dst);
 
         let src_balance = target_balance - amount;
         let dst_balance = dst_balance + amount;
 
-        let src = self.target();
-
         self.accounts.insert(src, src_balance);
         self.accounts.insert(dst.clone(), dst_balance);
     }
-- 
2.43.0


From 0034971e37db16661cea646146f954cecb3daf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:17 +0000
Subject: [PATCH 41/58] fix: abort on array indices that exceed 32 bits

They were truncated before being compared with the array's length (by
64-bit hosts).
---
 crates/wasm/sdk-storage/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/wasm/sdk-storage/src/lib.rs b/crates/wasm/sdk-storage/src/lib.rs
index c591dff..eecd0b7 100644
--- a/crates/wasm/sdk-storage/src/lib.rs
+++ b/crates/wasm/sdk-storage/src/lib.rs
@@ -172,11 +172,9 @@ pub fn array_set_addr<S: Storage>(var_id: u32, index: usize, length: u32, value:
 
 #[inline]
 fn cell_offset(var_id: u32, index: usize, length: u32) -> u32 {
-    let index = index as u32;
-
-    if (index >= length) {
+    if (index >= length as usize) {
         svm_sdk_std::panic();
     }
 
-    var_id + index
+    var_id + index as u32
 }
-- 
2.43.0


From beb659d84ef90481a037d1289c61e03da32ebd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:10 +0000
Subject: [PATCH 42/58] fix: don't free the memory of FFI results twice

---
 crates/host/runtime-ffi/src/result.rs | 28 ++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/crates/host/runtime-ffi/src/result.rs b/crates/host/runtime-ffi/src/result.rs
index 4795515..9e9db23 100644
--- a/crates/host/runtime-ffi/src/result.rs
+++ b/crates/host/runtime-ffi/src/result.rs
@@ -23,7 +23,7 @@ use std::ops::FromResidual;
 /// free(result->error);
 /// ```
 #[allow(non_camel_case_types)]
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, PartialEq, Eq)]
 #[repr(C)]
 pub struct svm_result_t {
     receipt: *mut u8,
@@ -69,9 +69,8 @@ impl svm_result_t {
         if self.error.is_null() && self.receipt.is_null() {
             None
         } else if self.error.is_null() {
-            Some(unsafe {
-                Vec::from_raw_parts(self.receipt, self.buf_size as usize, self.buf_size as usize)
-            })
+            // `self` frees its own memory.
+            self.receipt().map(|bytes| bytes.to_vec())
         } else {
             let err_bytes =
                 unsafe { std::slice::from_raw_parts(self.error, self.buf_size as usize) };
@@ -125,9 +124,24 @@ impl svm_result_t {
 impl std::ops::Drop for svm_result_t {
     fn drop(&mut self) {
         let len = self.buf_size as usize;
-        unsafe {
-            let _error = Vec::from_raw_parts(self.error, len, len);
-            let _receipt = Vec::from_raw_parts(self.receipt, len, len);
+        for ptr in [self.error, self.receipt] {
+            if !ptr.is_null() {
+                let _ = unsafe { Vec::from_raw_parts(ptr, len, len) };
+            }
+        }
+    }
+}
+
+impl Clone for svm_result_t {
+    fn clone(&self) -> Self {
+        if let Some(receipt) = self.receipt() {
+            Self::new_receipt(receipt)
+        } else if self.is_err() {
+            let error =
+                unsafe { std::slice::from_raw_parts(self.error, self.buf_size as usize) };
+            Self::new_error(error)
+        } else {
+            Self::OK
         }
     }
 }
-- 
2.43.0


From cd21370bc035345bcf6f4b666b2a625d55e6641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:10 +0000
Subject: [PATCH 43/58] fix: release the resources of a destroyed FFI runtime

---
 crates/host/runtime-ffi/src/resource_tracker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/host/runtime-ffi/src/resource_tracker.rs b/crates/host/runtime-ffi/src/resource_tracker.rs
index 491e022..77fb6e5 100644
--- a/crates/host/runtime-ffi/src/resource_tracker.rs
+++ b/crates/host/runtime-ffi/src/resource_tracker.rs
@@ -39,6 +39,7 @@ impl<T> ResourceTracker<T> {
         let found = self.pointers.lock().unwrap().remove(&(ptr as usize));
 
         if found {
+            drop(unsafe { Box::<T>::from_raw(ptr.cast()) });
             Some(())
         } else {
             None
-- 
2.43.0


From 1377664bb6208faabe152d4b1627417db7d025a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:10 +0000
Subject: [PATCH 44/58] fix: fill in the address of svm_get_account and report
 missing accounts

---
 crates/host/runtime-ffi/src/c_api.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/host/runtime-ffi/src/c_api.rs b/crates/host/runtime-ffi/src/c_api.rs
index 0b95840..e2013e5 100644
--- a/crates/host/runtime-ffi/src/c_api.rs
+++ b/crates/host/runtime-ffi/src/c_api.rs
@@ -534,8 +534,14 @@ pub unsafe extern "C" fn svm_get_account(
     catch_unwind_or_fail(|| {
         let runtime = get_runtime(runtime_ptr);
         let account_addr = Address::new(std::slice::from_raw_parts(account_addr, Address::N));
-        let account_data = runtime.get_account(&account_addr).unwrap();
+        let account_data = match runtime.get_account(&account_addr) {
+            Some(data) => data,
+            None => return svm_result_t::new_error(b"There is no account at the given address."),
+        };
 
+        (*account)
+            .address
+            .clone_from_slice(account_addr.as_slice());
         (*account).balance = account_data.0;
         (*account).counter_upper_bits = (account_data.1 >> 64) as u64;
         (*account).counter_lower_bits = account_data.1 as u64;
-- 
2.43.0


From edd32d3f711a63f755bdb2898e7c5768db95244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:44 +0000
Subject: [PATCH 45/58] fix: allocate FFI results with the system allocator, as
 documented

---
 crates/host/runtime-ffi/src/result.rs | 28 ++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/crates/host/runtime-ffi/src/result.rs b/crates/host/runtime-ffi/src/result.rs
index 9e9db23..01d2804 100644
--- a/crates/host/runtime-ffi/src/result.rs
+++ b/crates/host/runtime-ffi/src/result.rs
@@ -1,3 +1,4 @@
+use std::alloc::{GlobalAlloc, Layout, System};
 use std::convert::{Infallible, TryInto};
 use std::ops::FromResidual;
 
@@ -41,23 +42,17 @@ impl svm_result_t {
 
     /// Creates a new [`svm_result_t`] which contains an error.
     pub fn new_error(data: &[u8]) -> Self {
-        let mut new_data = Vec::with_capacity(data.len());
-        new_data.extend_from_slice(data);
-
         Self {
             receipt: std::ptr::null_mut(),
-            error: new_data.leak().as_mut_ptr(),
+            error: system_copy(data),
             buf_size: data.len().try_into().unwrap(),
         }
     }
 
     /// Creates a new [`svm_result_t`] which contains a receipt.
     pub fn new_receipt(data: &[u8]) -> Self {
-        let mut new_data = Vec::with_capacity(data.len());
-        new_data.extend_from_slice(data);
-
         Self {
-            receipt: new_data.leak().as_mut_ptr(),
+            receipt: system_copy(data),
             error: std::ptr::null_mut(),
             buf_size: data.len().try_into().unwrap(),
         }
@@ -121,12 +116,27 @@ impl svm_result_t {
     }
 }
 
+/// Copies `data` into memory of the system allocator, regardless of the global one.
+fn system_copy(data: &[u8]) -> *mut u8 {
+    unsafe {
+        let ptr = System.alloc(system_layout(data.len()));
+        assert!(!ptr.is_null(), "Out of memory");
+        std::ptr::copy_nonoverlapping(data.as_ptr(), ptr, data.len());
+        ptr
+    }
+}
+
+fn system_layout(len: usize) -> Layout {
+    // Allocations must not be zero-sized.
+    Layout::array::<u8>(len.max(1)).unwrap()
+}
+
 impl std::ops::Drop for svm_result_t {
     fn drop(&mut self) {
         let len = self.buf_size as usize;
         for ptr in [self.error, self.receipt] {
             if !ptr.is_null() {
-                let _ = unsafe { Vec::from_raw_parts(ptr, len, len) };
+                unsafe { System.dealloc(ptr, system_layout(len)) };
             }
         }
     }
-- 
2.43.0


From c37c93e9636d72f07ab0441612ef217636e6a688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:16 +0000
Subject: [PATCH 46/58] fix: svm_static_alloc hands out blocks that do not
 overlap

It returned the end of the block instead of its start, so every block
overlapped the next one and the last one could lie outside of the memory.
---
 crates/host/runtime/src/vmcalls/alloc.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/host/runtime/src/vmcalls/alloc.rs b/crates/host/runtime/src/vmcalls/alloc.rs
index 6f1a01a..c16fbb4 100644
--- a/crates/host/runtime/src/vmcalls/alloc.rs
+++ b/crates/host/runtime/src/vmcalls/alloc.rs
@@ -4,6 +4,9 @@ use std::convert::TryFrom;
 
 use crate::FuncEnv;
 
+/// The first offset to be handed out. Offset `0` is left aside since Templates take it for a null pointer.
+const FIRST_OFFSET: u64 = 8;
+
 /// Statistically allocate `size` bytes within a [`FuncEnv`] `env`.
 /// Returns the offset of the newly allocated memory.
 pub fn static_alloc(env: &FuncEnv, size: u32) -> u32 {
@@ -11,8 +14,8 @@ pub fn static_alloc(env: &FuncEnv, size: u32) -> u32 {
 
     assert!(size > 0);
 
-    let used = used_memory(env);
-    let new_used = used + size as u64;
+    let offset = used_memory(env).max(FIRST_OFFSET);
+    let new_used = offset + size as u64;
 
     let allocated = allocated_memory(env);
 
@@ -22,7 +25,7 @@ pub fn static_alloc(env: &FuncEnv, size: u32) -> u32 {
 
     set_used_memory(env, new_used);
 
-    new_used as u32
+    offset as u32
 }
 
 #[allow(unused)]
-- 
2.43.0


From be534602b84bd55dcc082b2cdeeab30956320d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:16 +0000
Subject: [PATCH 47/58] fix: svm-cli validate refuses programs that deployment
 refuses

Programs with loops, recursion or indirect calls were called valid and
pricing them then panicked.
---
 crates/host/cli/src/subcmd_validate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/host/cli/src/subcmd_validate.rs b/crates/host/cli/src/subcmd_validate.rs
index 400d0a1..565d734 100644
--- a/crates/host/cli/src/subcmd_validate.rs
+++ b/crates/host/cli/src/subcmd_validate.rs
@@ -3,7 +3,7 @@ use clap::ArgMatches;
 use std::io;
 use std::rc::Rc;
 
-use svm_gas::{resolvers::ExampleResolver, ProgramPricing};
+use svm_gas::{resolvers::ExampleResolver, validate_wasm, ProgramPricing};
 use svm_program::{Program, ProgramVisitor};
 
 use crate::Error;
@@ -42,6 +42,12 @@ pub fn subcmd_validate(args: &ArgMatches) -> anyhow::Result<()> {
 
     match program_res {
         Ok(program) => {
+            // Only programs that obey the fixed-gas rules have a price.
+            if let Err(e) = validate_wasm(&program, false) {
+                println!("{}", e);
+                return Ok(());
+            }
+
             println!("The given file contains a valid smWasm module.");
 
             let resolver = ExampleResolver::default();
-- 
2.43.0


From 26f996d18c85dcfc0fa65921c980f789594e1837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:33 +0000
Subject: [PATCH 48/58] fix: in-memory state is not lost when its connection
 expires

---
 crates/host/state/src/storage.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 061c7db..0f8f98b 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -57,7 +57,13 @@ impl Storage {
     /// The SQLite database may or may not be an empty database. If it's empty,
     /// then it will be initialized with the appropriate schema.
     pub async fn new(sqlite_uri: &str) -> Result<Self> {
-        let sqlite = sqlx::SqlitePool::connect(sqlite_uri).await?;
+        // An in-memory database is gone as soon as its last connection is
+        // closed, so connections must not expire.
+        let sqlite = sqlx::sqlite::SqlitePoolOptions::new()
+            .idle_timeout(None)
+            .max_lifetime(None)
+            .connect(sqlite_uri)
+            .await?;
         Self::new_with_pool(sqlite).await
     }
 
-- 
2.43.0


From 8e1fab9d750e17d4049ccea7e46650df1d20fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:33 +0000
Subject: [PATCH 49/58] fix: a failed svm_runtime_create doesn't poison the
 library

---
 crates/host/runtime-ffi/src/c_api.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/host/runtime-ffi/src/c_api.rs b/crates/host/runtime-ffi/src/c_api.rs
index e2013e5..4cd9ca4 100644
--- a/crates/host/runtime-ffi/src/c_api.rs
+++ b/crates/host/runtime-ffi/src/c_api.rs
@@ -65,11 +65,11 @@ pub unsafe extern "C" fn svm_runtime_create(
     path_len: u32,
 ) -> svm_result_t {
     catch_unwind_or_fail(|| {
-        let mut initialized = INITIALIZED.lock().unwrap();
-        if !*initialized {
+        // The lock must not be held any longer: a panic below would poison it.
+        let initialized = *INITIALIZED.lock().unwrap();
+        if !initialized {
             return svm_result_t::new_error(b"`svm_init` not called beforehand.");
         }
-        *initialized = true;
 
         let genesis = GenesisConfig::mainnet();
         let tokio_rt = TokioRuntime::new().unwrap();
-- 
2.43.0


From 47555bf666b073ff2ca5fe92e059bef5a33cbe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:33 +0000
Subject: [PATCH 50/58] fix: imported functions count towards the limit on
 functions

---
 crates/host/program/src/program.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/host/program/src/program.rs b/crates/host/program/src/program.rs
index 2da3489..49af568 100644
--- a/crates/host/program/src/program.rs
+++ b/crates/host/program/src/program.rs
@@ -60,7 +60,8 @@ impl Program {
         if validate_exports {
             module_validate_exports(&module)?;
         }
-        if count_functions_in_program(&program) > u16::MAX as u64 {
+        let imports_count = program.imports().count() as u64;
+        if imports_count + count_functions_in_program(&program) > u16::MAX as u64 {
             return Err(ProgramError::FunctionIndexTooLarge);
         }
 
-- 
2.43.0


From afb4732f72ebd0578c0b5d2edde66bc5457b6548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:33 +0000
Subject: [PATCH 51/58] fix: prices that don't fit 64 bits don't wrap around

---
 crates/host/gas/src/graph/weight.rs | 4 +++-
 crates/host/gas/src/pricing/cfg.rs  | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/host/gas/src/graph/weight.rs b/crates/host/gas/src/graph/weight.rs
index 0fb04ff..4930aaf 100644
--- a/crates/host/gas/src/graph/weight.rs
+++ b/crates/host/gas/src/graph/weight.rs
@@ -277,10 +277,12 @@ where
     /// The `total weight` is the sum of:  
     /// * `Node`'s weight    
     /// * `Node`*s dependency weight
+    ///
+    /// A sum that's too large saturates.
     pub fn total_weight(&self) -> usize {
         let dep_weight = self.try_dep_weight().unwrap();
 
-        dep_weight + self.weight()
+        dep_weight.saturating_add(self.weight())
     }
 
     fn label(&self) -> L {
diff --git a/crates/host/gas/src/pricing/cfg.rs b/crates/host/gas/src/pricing/cfg.rs
index 46d3d6c..d80b9c1 100644
--- a/crates/host/gas/src/pricing/cfg.rs
+++ b/crates/host/gas/src/pricing/cfg.rs
@@ -63,8 +63,9 @@ fn compute_block_price(
     imports: &Imports,
     func_price: &FuncPrice,
 ) -> usize {
-    block.ops().iter().fold(0, |acc, op| {
-        acc + resolve_op(op, resolver, imports, func_price)
+    // Prices grow exponentially with chains of calls. They must not wrap around.
+    block.ops().iter().fold(0usize, |acc, op| {
+        acc.saturating_add(resolve_op(op, resolver, imports, func_price))
     })
 }
 
-- 
2.43.0


From 6965b48b07bed60b3ef26c1509b2cc0ecd96040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:33 +0000
Subject: [PATCH 52/58] fix: a variable too large for its encoding is refused

---
 crates/host/codec/src/section/sections/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/host/codec/src/section/sections/data.rs b/crates/host/codec/src/section/sections/data.rs
index 3aba30f..4ed5c9c 100644
--- a/crates/host/codec/src/section/sections/data.rs
+++ b/crates/host/codec/src/section/sections/data.rs
@@ -100,6 +100,7 @@ impl Codec for Layout {
 
                     // Encoding each `Var Byte-Size`
                     for var in layout.iter() {
+                        assert!(var.byte_size <= std::u16::MAX as u32);
                         (var.byte_size as u16).encode(w);
                     }
                 }
-- 
2.43.0


From 4d1b78e520351a7faa91f453af23a5f90751ef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:33 +0000
Subject: [PATCH 53/58] fix: logs and returndata that a receipt can't hold fail
 the transaction

---
 crates/host/runtime/src/vmcalls/logs.rs       | 14 ++++++++++++++
 crates/host/runtime/src/vmcalls/returndata.rs |  7 ++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/vmcalls/logs.rs b/crates/host/runtime/src/vmcalls/logs.rs
index 16e23c5..526052a 100644
--- a/crates/host/runtime/src/vmcalls/logs.rs
+++ b/crates/host/runtime/src/vmcalls/logs.rs
@@ -2,8 +2,22 @@ use svm_types::ReceiptLog;
 
 use crate::FuncEnv;
 
+/// The number of logs that a receipt can hold.
+const MAX_LOGS: usize = u8::MAX as usize;
+
+/// The number of bytes that a single log within a receipt can hold.
+const MAX_LOG_LENGTH: u32 = u16::MAX as u32;
+
 /// Logs the log entry given in a form of blob (offset and length).
+///
+/// # Panics
+///
+/// Panics when the data isn't within the memory of the running instance,
+/// or when there's no room for it in the receipt.
 pub fn log(env: &FuncEnv, offset: u32, length: u32) {
+    assert!(length <= MAX_LOG_LENGTH, "Log is too long");
+    assert!(env.borrow().logs().len() < MAX_LOGS, "Too many logs");
+
     let start = offset as usize;
     let end = start + length as usize;
 
diff --git a/crates/host/runtime/src/vmcalls/returndata.rs b/crates/host/runtime/src/vmcalls/returndata.rs
index 5c465a1..1764ead 100644
--- a/crates/host/runtime/src/vmcalls/returndata.rs
+++ b/crates/host/runtime/src/vmcalls/returndata.rs
@@ -5,7 +5,8 @@ use crate::FuncEnv;
 ///
 /// # Panics
 ///
-/// Panics when the data isn't within the memory of the running instance.
+/// Panics when the data isn't within the memory of the running instance,
+/// or when it's more than a receipt can hold.
 pub fn set_returndata(env: &FuncEnv, offset: u32, length: u32) {
     dbg!("set_returndata (offset = {}, length = {})", offset, length);
 
@@ -14,6 +15,10 @@ pub fn set_returndata(env: &FuncEnv, offset: u32, length: u32) {
         panic!("`Returndata` is out of the memory bounds")
     }
 
+    if length > u16::MAX as u32 {
+        panic!("`Returndata` is too long")
+    }
+
     env.borrow_mut()
         .set_returndata(offset as usize, length as usize)
 }
-- 
2.43.0


From 8ec741167e1641ac857ba713054377c99e948e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:33 +0000
Subject: [PATCH 54/58] fix: a refused rewind doesn't make the global state
 unusable

---
 crates/host/state/src/global_state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index e900f8e..7ea5c45 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -1,4 +1,4 @@
-use std::sync::{Arc, Mutex, MutexGuard};
+use std::sync::{Arc, Mutex, MutexGuard, PoisonError};
 
 use svm_codec::Codec;
 use svm_genesis_config::GenesisConfig;
@@ -163,9 +163,11 @@ impl GlobalState {
     // -----------------------
 
     pub(crate) fn storage(&self) -> MutexGuard<Storage> {
+        // A panic while holding the lock (e.g. rewinding to a layer that doesn't
+        // exist) happens before anything is changed.
         self.storage
             .lock()
-            .expect("Poisoned lock on global state storage")
+            .unwrap_or_else(PoisonError::into_inner)
     }
 
     pub(crate) async fn read(&self, key: &str) -> Result<Option<Vec<u8>>> {
-- 
2.43.0


From f88f1bd65934a9e008f30d919b2e3bfe93af1a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:44 +0000
Subject: [PATCH 55/58] fix: code that isn't valid Wasm is refused as such

---
 crates/host/runtime/src/runtime/runtime.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index b3c4deb..6b6b736 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -586,12 +586,13 @@ impl Runtime {
         // There's no reason to also do it when spawning new `Account`
         // over already-validated [`Template`]s
         let program = Program::new(code, true)?;
-        svm_gas::validate_wasm(&program, false)?;
 
-        // [`Program`] only parses the code. Pricing relies on it being valid Wasm.
+        // [`Program`] only parses the code. The fixed-gas rules and pricing rely on it being valid Wasm.
         let store = crate::wasm_store::new_store();
         Module::validate(&store, code).map_err(|_| ProgramError::InvalidWasm)?;
 
+        svm_gas::validate_wasm(&program, false)?;
+
         Ok(())
     }
 
-- 
2.43.0


From e45b3ede082daf072099e947d2b2e24cda10e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:44 +0000
Subject: [PATCH 56/58] fix: the instance of an executed transaction is
 released

---
 crates/host/runtime/src/func_env.rs        | 4 ++++
 crates/host/runtime/src/runtime/runtime.rs | 9 +++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/host/runtime/src/func_env.rs b/crates/host/runtime/src/func_env.rs
index a67d651..574780d 100644
--- a/crates/host/runtime/src/func_env.rs
+++ b/crates/host/runtime/src/func_env.rs
@@ -217,6 +217,10 @@ impl Inner {
         self.memory = Some(memory);
     }
 
+    pub fn take_memory(&mut self) -> Option<Memory> {
+        self.memory.take()
+    }
+
     pub fn memory(&self) -> &Memory {
         debug_assert!(self.memory.is_some());
         self.memory.as_ref().unwrap()
diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 6b6b736..45cce59 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -124,11 +124,16 @@ impl Runtime {
 
         // Host functions panic when they're misused, e.g. when there aren't
         // enough coins for a transfer. That's a failure of the transaction.
-        panic::catch_unwind(AssertUnwindSafe(|| {
+        let result = panic::catch_unwind(AssertUnwindSafe(|| {
             let res = self.run::<Args, Rets>(&call, &store, &env, &template, &import_object);
             res.map(|rets| f(&env, rets))
         }))
-        .unwrap_or_else(|payload| Err(err::func_panicked(&env, call.func_name, payload)))
+        .unwrap_or_else(|payload| Err(err::func_panicked(&env, call.func_name, payload)));
+
+        // The memory keeps its instance alive, and the instance keeps `env` alive.
+        env.borrow_mut().take_memory();
+
+        result
     }
 
     fn run<Args, Rets>(
-- 
2.43.0


From 3e2b9936db5bbdd40b9f51f1a128fea66dc3c28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:04 +0000
Subject: [PATCH 57/58] fix: connections to an in-memory state don't lock each
 other out

---
 crates/host/state/src/storage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 0f8f98b..e9efb8f 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -58,8 +58,10 @@ impl Storage {
     /// then it will be initialized with the appropriate schema.
     pub async fn new(sqlite_uri: &str) -> Result<Self> {
         // An in-memory database is gone as soon as its last connection is
-        // closed, so connections must not expire.
+        // closed, so connections must not expire. Several connections to it
+        // would lock each other's tables.
         let sqlite = sqlx::sqlite::SqlitePoolOptions::new()
+            .max_connections(1)
             .idle_timeout(None)
             .max_lifetime(None)
             .connect(sqlite_uri)
-- 
2.43.0


From 9759e585ab866d4a49cad10dd895957e70ffbf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:49 +0000
Subject: [PATCH 58/58] fix: render balances, and no panic for bytes that do
 not fit their variable

---
 crates/host/query/src/render.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/crates/host/query/src/render.rs b/crates/host/query/src/render.rs
index 1eb6f71..efb7e9d 100644
--- a/crates/host/query/src/render.rs
+++ b/crates/host/query/src/render.rs
@@ -33,37 +33,35 @@ impl JsonVarRenderer {
     fn render_int(var: &Var, bytes: &[u8], is_signed: bool) -> Option<Value> {
         let length = var.layout.length;
 
-        if length > 8 {
+        if length == 0 || length > 8 {
             // Currently, an integer can be at most 8 bytes
             return None;
         }
 
-        let nbytes = bytes.len();
-        let mut buf = vec![0; nbytes];
-
-        (&mut buf[..length]).clone_from_slice(&bytes[..length]);
+        if bytes.len() != length {
+            // The raw data isn't in-sync with the Schema
+            return None;
+        }
 
         let num = if is_signed {
-            let num: i64 = BigEndian::read_int(&buf[..], nbytes);
+            let num: i64 = BigEndian::read_int(bytes, length);
             num.into()
         } else {
-            let num: u64 = BigEndian::read_uint(&buf[..], nbytes);
+            let num: u64 = BigEndian::read_uint(bytes, length);
             num.into()
         };
 
         Some(Value::Number(num))
     }
 
-    fn render_balance(_var: &Var, _bytes: &[u8]) -> Option<Value> {
-        todo!()
+    fn render_balance(var: &Var, bytes: &[u8]) -> Option<Value> {
+        Self::render_int(var, bytes, false)
     }
 
     fn render_bool(_var: &Var, bytes: &[u8]) -> Option<Value> {
-        assert_eq!(bytes.len(), 1);
-
-        let value = match bytes[0] {
-            0 => false,
-            1 => true,
+        let value = match bytes {
+            [0] => false,
+            [1] => true,
             _ => return None,
         };
 
-- 
2.43.0

