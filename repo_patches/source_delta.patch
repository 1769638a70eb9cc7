From ee04588f87b353dc65a05f0816d20bf0ddb32464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:51 +0000
Subject: [PATCH 1/9] verif hooks (cfg-guarded): schedulable mutex in the
 in-memory store, small compaction batch

---
 src/edx/mod.rs    |  5 ++-
 src/index/mod.rs  |  3 ++
 src/lib.rs        |  5 +++
 src/verif_sync.rs | 83 +++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 95 insertions(+), 1 deletion(-)
 create mode 100644 src/verif_sync.rs

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index 0f64cae..d433bbe 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -156,11 +156,12 @@ pub trait DbInterface<const VALUE_LENGTH: usize> {
 
 #[cfg(any(test, feature = "in_memory"))]
 pub mod in_memory {
+    #[cfg(not(findex_verif))]
+    use std::sync::{Arc, Mutex};
     use std::{
         collections::HashMap,
         fmt::{Debug, Display},
         ops::Deref,
-        sync::{Arc, Mutex},
     };
 
     use async_trait::async_trait;
@@ -173,6 +174,8 @@ pub mod in_memory {
     };
     #[cfg(feature = "in_memory")]
     use crate::parameters::{MAC_LENGTH, NONCE_LENGTH};
+    #[cfg(findex_verif)]
+    use crate::verif_sync::{Arc, Mutex};
     use crate::{error::DbInterfaceErrorTrait, EncryptedValue};
 
     #[derive(Debug)]
diff --git a/src/index/mod.rs b/src/index/mod.rs
index 442cc95..14d4d82 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -344,7 +344,10 @@ impl<
     /// the memory used by the compact operation is:
     ///
     /// N * 32 + BS * EB + f * BS * LB
+    #[cfg(not(findex_verif_small_batch))]
     const COMPACT_BATCH_SIZE: usize = 1_000_000;
+    #[cfg(findex_verif_small_batch)]
+    const COMPACT_BATCH_SIZE: usize = 2;
 
     /// Draw `n` tokens at random among the given `tokens`. The same token may
     /// be drawn several times, thus the number of tokens returned may be
diff --git a/src/lib.rs b/src/lib.rs
index f72e9d2..3a2318e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,6 +8,9 @@
 //! The `Index` traits is not a cryptographic one. It is used to simplify the interface and to hide
 //! the details of the cryptographic implementation when it is possible.
 
+// The `findex_verif*` flags guard verification hooks. They are never set by a normal build.
+#![allow(unexpected_cfgs)]
+
 // Macro declarations should come first.
 #[macro_use]
 pub mod macros;
@@ -18,6 +21,8 @@ mod findex_graph;
 mod findex_mm;
 mod index;
 mod parameters;
+#[cfg(findex_verif)]
+pub mod verif_sync;
 
 #[cfg(any(test, feature = "in_memory"))]
 pub use edx::in_memory::{InMemoryDb, InMemoryDbError};
diff --git a/src/verif_sync.rs b/src/verif_sync.rs
new file mode 100644
index 0000000..b35a790
--- /dev/null
+++ b/src/verif_sync.rs
@@ -0,0 +1,83 @@
+//! Verification hook (only compiled with `--cfg findex_verif`): a mutex that announces its lock and
+//! unlock operations to an external controlled scheduler.
+
+pub use std::sync::Arc;
+use std::{
+    fmt::Debug,
+    ops::{Deref, DerefMut},
+    sync::{LockResult, OnceLock, PoisonError},
+};
+
+/// Event announced to the scheduler along with the address of the mutex.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Event {
+    /// The current thread is about to lock the mutex. The hook may block the thread until it is
+    /// scheduled, and should only return once the mutex is free.
+    BeforeLock,
+    /// The current thread released the mutex.
+    AfterUnlock,
+}
+
+static HOOK: OnceLock<fn(Event, usize)> = OnceLock::new();
+
+/// Installs the scheduler hook. Only the first call has an effect.
+pub fn set_hook(hook: fn(Event, usize)) {
+    let _ = HOOK.set(hook);
+}
+
+fn notify(event: Event, addr: usize) {
+    if let Some(hook) = HOOK.get() {
+        hook(event, addr);
+    }
+}
+
+#[derive(Debug, Default)]
+pub struct Mutex<T>(std::sync::Mutex<T>);
+
+impl<T> Mutex<T> {
+    pub const fn new(value: T) -> Self {
+        Self(std::sync::Mutex::new(value))
+    }
+
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        let addr = std::ptr::from_ref(self) as usize;
+        notify(Event::BeforeLock, addr);
+        match self.0.lock() {
+            Ok(guard) => Ok(MutexGuard {
+                guard: Some(guard),
+                addr,
+            }),
+            Err(err) => Err(PoisonError::new(MutexGuard {
+                guard: Some(err.into_inner()),
+                addr,
+            })),
+        }
+    }
+}
+
+#[derive(Debug)]
+pub struct MutexGuard<'a, T> {
+    guard: Option<std::sync::MutexGuard<'a, T>>,
+    addr: usize,
+}
+
+impl<T> Deref for MutexGuard<'_, T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        self.guard.as_ref().expect("only taken on drop")
+    }
+}
+
+impl<T> DerefMut for MutexGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.guard.as_mut().expect("only taken on drop")
+    }
+}
+
+impl<T> Drop for MutexGuard<'_, T> {
+    fn drop(&mut self) {
+        drop(self.guard.take());
+        notify(Event::AfterUnlock, self.addr);
+    }
+}
-- 
2.43.0


From 85132c0677c6cb6cde41900b8898cb2e305e0029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:17 +0000
Subject: [PATCH 2/9] fix: accept empty indexed values when reading them back

An empty data or pointer is accepted by add and delete but is serialized as its
lone type byte, which was rejected on the read side: every later search or
compaction of the keyword failed.
---
 src/findex_graph/structs.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/findex_graph/structs.rs b/src/findex_graph/structs.rs
index 00481d3..1ca3a47 100644
--- a/src/findex_graph/structs.rs
+++ b/src/findex_graph/structs.rs
@@ -64,11 +64,10 @@ impl<Tag: From<Vec<u8>>, Data: From<Vec<u8>>> TryFrom<&[u8]> for IndexedValue<Ta
     type Error = CoreError;
 
     fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
-        if value.len() < 2 {
-            return Err(Self::Error::Conversion(format!(
-                "indexed values should be at least two bytes long, {} given",
-                value.len()
-            )));
+        if value.is_empty() {
+            return Err(Self::Error::Conversion(
+                "indexed values should be at least one byte long".to_string(),
+            ));
         }
         // TODO: change the leading value in v.7
         match value[0] {
-- 
2.43.0


From 019448a2061f3eb2d5b7b90f649422ef2400d6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 3/9] fix: walk the graph of a search without recursion

Searching a long enough path of pointers overflowed the stack and aborted the
process.
---
 src/findex_graph/graph.rs | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/findex_graph/graph.rs b/src/findex_graph/graph.rs
index b6a7915..121a74e 100644
--- a/src/findex_graph/graph.rs
+++ b/src/findex_graph/graph.rs
@@ -132,32 +132,27 @@ impl<
     ///
     /// In order not to enter cycles, the same node is not visited twice. This
     /// is ensured by maintaining a set of visited nodes.
-    #[allow(clippy::only_used_in_recursion)]
     pub fn walk<'a, Tag: Hash + Eq + Clone, Item: Clone + Hash + Eq>(
         &self,
         graph: &'a HashMap<Tag, HashSet<IndexedValue<Tag, Item>>>,
         entry: &'a Tag,
         visited: &mut HashSet<&'a Tag>,
     ) -> HashSet<Item> {
-        if visited.contains(&entry) {
-            // Results associated to this tag have already been recovered.
-            return HashSet::new();
-        }
-
-        visited.insert(entry);
-
-        let indexed_values = match graph.get(entry) {
-            Some(values) => values,
-            None => return HashSet::new(),
-        };
-
-        let mut res = HashSet::with_capacity(indexed_values.len());
-
-        for value in indexed_values {
-            match value {
-                IndexedValue::Pointer(child) => res.extend(self.walk(graph, child, visited)),
-                IndexedValue::Data(data) => {
-                    res.insert(data.clone());
+        let mut res = HashSet::new();
+        // An explicit stack is used since the length of the paths is not bounded.
+        let mut stack = vec![entry];
+
+        while let Some(tag) = stack.pop() {
+            if !visited.insert(tag) {
+                // Results associated to this tag have already been recovered.
+                continue;
+            }
+            for value in graph.get(tag).into_iter().flatten() {
+                match value {
+                    IndexedValue::Pointer(child) => stack.push(child),
+                    IndexedValue::Data(data) => {
+                        res.insert(data.clone());
+                    }
                 }
             }
         }
-- 
2.43.0


From 0eed8b2a1476648a66439f3b28ede2da4474ba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 4/9] fix: fetch all the rows of a request at once in the
 in-memory store

The lock was taken for each token, so that a fetch could return some of the rows
inserted by a concurrent request and not the others: a search could see a part
of a concurrent addition.
---
 src/edx/mod.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index d433bbe..30677e9 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -309,16 +309,12 @@ pub mod in_memory {
             &self,
             tokens: Tokens,
         ) -> Result<TokenWithEncryptedValueList<VALUE_LENGTH>, InMemoryDbError> {
+            // The lock is held for the entire request: all the rows are read at the same time.
+            let edx = &*self.lock().expect("couldn't lock the table");
             Ok(TokenWithEncryptedValueList::from(
                 tokens
                     .into_iter()
-                    .filter_map(|token| {
-                        self.lock()
-                            .expect("couldn't lock the table")
-                            .get(&token)
-                            .cloned()
-                            .map(|v| (token, v))
-                    })
+                    .filter_map(|token| edx.get(&token).cloned().map(|v| (token, v)))
                     .collect::<Vec<_>>(),
             ))
         }
-- 
2.43.0


From 5935ac20ceb4afefafa4251878d229486797d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:29 +0000
Subject: [PATCH 5/9] fix: keep the entries that are already stored when a
 compaction is refused

---
 src/edx/mod.rs           |  2 +-
 src/findex_mm/compact.rs | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index 30677e9..0496e00 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -39,7 +39,7 @@ pub trait DxEnc<const VALUE_LENGTH: usize> {
     type Error: std::error::Error;
 
     /// Fixed length encrypted value stored inside the encrypted dictionary.
-    type EncryptedValue: Debug + Sized + Clone;
+    type EncryptedValue: Debug + Sized + Clone + PartialEq;
 
     /// Backend storage.
     type Database: DbInterface<VALUE_LENGTH>;
diff --git a/src/findex_mm/compact.rs b/src/findex_mm/compact.rs
index 32d5d42..bacbb76 100644
--- a/src/findex_mm/compact.rs
+++ b/src/findex_mm/compact.rs
@@ -205,7 +205,6 @@ impl<
             }
         }
         let new_links_tokens = new_links.keys().copied().collect();
-        let new_entry_tokens = new_entries.keys().copied().collect();
 
         debug!(
             "Step 3: tries applying modifications, reverts modifications upon failure or removes \
@@ -221,7 +220,7 @@ impl<
             )));
         };
 
-        let res = self.entry_table.insert(new_entries).await.map_err(|e| {
+        let res = self.entry_table.insert(new_entries.clone()).await.map_err(|e| {
             Error::Crypto(format!(
                 "An error occurred during the `insert` operation, all modifications were reverted: {e}"
             ))
@@ -231,8 +230,18 @@ impl<
             self.chain_table.delete(old_links).await?;
             self.entry_table.delete(old_entries).await?;
         } else {
+            // The insertion may have been refused because some tokens are already used: the entries
+            // stored under these tokens should not be removed.
+            let inserted_tokens = self
+                .entry_table
+                .get(new_entries.keys().copied().collect())
+                .await?
+                .into_iter()
+                .filter(|(token, value)| new_entries.get(token) == Some(value))
+                .map(|(token, _)| token)
+                .collect();
             self.chain_table.delete(new_links_tokens).await?;
-            self.entry_table.delete(new_entry_tokens).await?;
+            self.entry_table.delete(inserted_tokens).await?;
         }
 
         res
-- 
2.43.0


From 6accd23fe593b07abe91269f08c3ac6bc1b1b815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:49 +0000
Subject: [PATCH 6/9] fix: remove entries before their chains when ending a
 compaction

---
 src/findex_mm/compact.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/findex_mm/compact.rs b/src/findex_mm/compact.rs
index bacbb76..c72fe67 100644
--- a/src/findex_mm/compact.rs
+++ b/src/findex_mm/compact.rs
@@ -226,9 +226,10 @@ impl<
             ))
         });
 
+        // Remove the entries first: an interruption should not leave entries without their chain.
         if res.is_ok() {
-            self.chain_table.delete(old_links).await?;
             self.entry_table.delete(old_entries).await?;
+            self.chain_table.delete(old_links).await?;
         } else {
             // The insertion may have been refused because some tokens are already used: the entries
             // stored under these tokens should not be removed.
@@ -240,8 +241,8 @@ impl<
                 .filter(|(token, value)| new_entries.get(token) == Some(value))
                 .map(|(token, _)| token)
                 .collect();
-            self.chain_table.delete(new_links_tokens).await?;
             self.entry_table.delete(inserted_tokens).await?;
+            self.chain_table.delete(new_links_tokens).await?;
         }
 
         res
-- 
2.43.0


From a8f8aede680831a652b7b07a34b46f4c32e90fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:24 +0000
Subject: [PATCH 7/9] fix: write the size of the values of a serialized
 in-memory table

It was expected by the reader, so that no table written could be read back.
---
 src/edx/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index 0496e00..68fdad2 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -167,7 +167,10 @@ pub mod in_memory {
     use async_trait::async_trait;
     use cosmian_crypto_core::CryptoCoreError;
     #[cfg(feature = "in_memory")]
-    use cosmian_crypto_core::{bytes_ser_de::Serializable, Nonce};
+    use cosmian_crypto_core::{
+        bytes_ser_de::{to_leb128_len, Serializable},
+        Nonce,
+    };
 
     use super::{
         DbInterface, Token, TokenToEncryptedValueMap, TokenWithEncryptedValueList, Tokens,
@@ -245,8 +248,11 @@ pub mod in_memory {
         type Error = InMemoryDbError;
 
         fn length(&self) -> usize {
-            (self.lock().expect("could not lock mutex").deref()).len()
-                * (Token::LENGTH + NONCE_LENGTH + MAC_LENGTH + VALUE_LENGTH)
+            let n = self.lock().expect("could not lock mutex").len();
+            to_leb128_len(n)
+                + n * (Token::LENGTH
+                    + to_leb128_len(EncryptedValue::<VALUE_LENGTH>::LENGTH)
+                    + EncryptedValue::<VALUE_LENGTH>::LENGTH)
         }
 
         fn write(
@@ -257,6 +263,8 @@ pub mod in_memory {
             let mut n = ser.write_leb128_u64(table.len() as u64)?;
             for (k, v) in table.iter() {
                 n += ser.write_array(k)?;
+                // The size of the value is part of the format.
+                n += ser.write_leb128_u64(EncryptedValue::<VALUE_LENGTH>::LENGTH as u64)?;
                 n += ser.write_array(&v.nonce.0)?;
                 n += ser.write_array(&v.ciphertext)?;
                 n += ser.write_array(&v.tag)?;
@@ -271,7 +279,7 @@ pub mod in_memory {
             let mut table = HashMap::with_capacity(n);
             for _ in 0..n {
                 let k = de.read_array::<{ Token::LENGTH }>()?;
-                // previous version used to write the size of the value.
+                // The size of the value is already known.
                 let _ = de.read_leb128_u64();
                 let nonce = Nonce::from(de.read_array::<NONCE_LENGTH>()?);
                 let ciphertext = de.read_array::<VALUE_LENGTH>()?;
-- 
2.43.0


From 84f7121163c21875254419fd0300ad7e1c43687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 8/9] fix: reject malformed serialized tables instead of
 panicking

---
 src/edx/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index 68fdad2..d70bc48 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -276,11 +276,19 @@ pub mod in_memory {
             de: &mut cosmian_crypto_core::bytes_ser_de::Deserializer,
         ) -> Result<Self, Self::Error> {
             let n = de.read_leb128_u64()? as usize;
-            let mut table = HashMap::with_capacity(n);
+            // The number of rows is not trusted: do not allocate for more rows than can be read.
+            let row_length = Token::LENGTH + EncryptedValue::<VALUE_LENGTH>::LENGTH;
+            let mut table = HashMap::with_capacity(n.min(de.value().len() / row_length));
             for _ in 0..n {
                 let k = de.read_array::<{ Token::LENGTH }>()?;
                 // The size of the value is already known.
-                let _ = de.read_leb128_u64();
+                let length = de.read_leb128_u64()?;
+                if length != EncryptedValue::<VALUE_LENGTH>::LENGTH as u64 {
+                    return Err(InMemoryDbError(format!(
+                        "wrong value length: {length} instead of {}",
+                        EncryptedValue::<VALUE_LENGTH>::LENGTH
+                    )));
+                }
                 let nonce = Nonce::from(de.read_array::<NONCE_LENGTH>()?);
                 let ciphertext = de.read_array::<VALUE_LENGTH>()?;
                 let tag = de.read_array::<MAC_LENGTH>()?;
-- 
2.43.0


From f06f06f648f40e0e544b1453a29af4a67296ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 9/9] fix: refuse a chain row whose block length is impossible
 instead of panicking

---
 src/findex_mm/structs.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/findex_mm/structs.rs b/src/findex_mm/structs.rs
index 4ed0a82..c958596 100644
--- a/src/findex_mm/structs.rs
+++ b/src/findex_mm/structs.rs
@@ -146,7 +146,13 @@ impl Link {
         if block[0] == 255 {
             Ok((false, &block[1..]))
         } else {
-            Ok((true, &block[1..=usize::from(block[0])]))
+            let data = block.get(1..=usize::from(block[0])).ok_or_else(|| {
+                CoreError::Crypto(format!(
+                    "invalid block length {}: should be at most {BLOCK_LENGTH}",
+                    block[0]
+                ))
+            })?;
+            Ok((true, data))
         }
     }
 
-- 
2.43.0

