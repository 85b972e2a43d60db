From e0791014baabe247e8b60bedcc0bd19add195bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 01/36] fix: merging pacts lost or duplicated interactions that
 were not sorted, or that only differ in their provider states

---
 rust/pact_models/src/interaction.rs  | 10 ++++
 rust/pact_models/src/message_pact.rs | 15 ++----
 rust/pact_models/src/sync_pact.rs    | 15 ++----
 rust/pact_models/src/v4/pact.rs      | 68 +++++++++++++---------------
 4 files changed, 50 insertions(+), 58 deletions(-)

diff --git a/rust/pact_models/src/interaction.rs b/rust/pact_models/src/interaction.rs
index b8944d0..5316b79 100644
--- a/rust/pact_models/src/interaction.rs
+++ b/rust/pact_models/src/interaction.rs
@@ -1,5 +1,6 @@
 //! Models for Pact interactions
 
+use std::cmp::Ordering;
 use std::fmt::{self, Debug, Display, Formatter};
 use std::panic::RefUnwindSafe;
 use std::sync::{Arc, Mutex};
@@ -27,6 +28,15 @@ pub struct PactConflict {
   pub description: String
 }
 
+/// Order of the interactions in a merged Pact: by description and then by the names of the provider
+/// states. Interactions that compare as equal are considered the same interaction (for V4 interactions,
+/// the type and key are also considered).
+pub(crate) fn merge_order(a: &dyn Interaction, b: &dyn Interaction) -> Ordering {
+  let states = |i: &dyn Interaction| i.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>();
+  Ord::cmp(&a.description(), &b.description())
+    .then_with(|| Ord::cmp(&states(a), &states(b)))
+}
+
 /// Interaction Trait
 pub trait Interaction: Debug {
   /// The type of the interaction
diff --git a/rust/pact_models/src/message_pact.rs b/rust/pact_models/src/message_pact.rs
index a7e75bc..a79debc 100644
--- a/rust/pact_models/src/message_pact.rs
+++ b/rust/pact_models/src/message_pact.rs
@@ -1,7 +1,6 @@
 //! The `message_pact` module defines a Pact
 //! that contains Messages instead of Interactions.
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap};
 use std::fs;
 use std::fs::File;
@@ -20,7 +19,7 @@ use tracing::debug;
 use crate::{Consumer, PactSpecification, Provider};
 #[cfg(not(target_family = "wasm"))] use crate::file_utils::with_read_lock;
 #[cfg(not(target_family = "wasm"))] use crate::http_utils::{self, HttpAuth};
-use crate::interaction::Interaction;
+use crate::interaction::{Interaction, merge_order};
 use crate::message::Message;
 use crate::pact::{determine_spec_version, Pact, parse_meta_data, ReadWritePact};
 use crate::PACT_RUST_VERSION;
@@ -306,15 +305,9 @@ impl ReadWritePact for MessagePact {
   fn merge(&self, pact: &dyn Pact) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
     if self.consumer.name == pact.consumer().name && self.provider.name == pact.provider().name {
       let messages: Vec<Result<Message, String>> = self.messages.iter()
-        .merge_join_by(pact.interactions().iter(), |a, b| {
-          let cmp = Ord::cmp(&a.description, &b.description());
-          if cmp == Ordering::Equal && ! &a.provider_states().is_empty(){
-            Ord::cmp(&a.provider_states.iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                     &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>())
-          } else {
-            cmp
-          }
-        })
+        .sorted_by(|a, b| merge_order(*a, *b))
+        .merge_join_by(pact.interactions().iter().sorted_by(|a, b| merge_order(a.as_ref(), b.as_ref())),
+          |a, b| merge_order(*a, b.as_ref()))
         .map(|either| match either {
           Left(i) => Ok(i.clone()),
           Right(i) => i.as_message()
diff --git a/rust/pact_models/src/sync_pact.rs b/rust/pact_models/src/sync_pact.rs
index a4fd8b4..79c663d 100644
--- a/rust/pact_models/src/sync_pact.rs
+++ b/rust/pact_models/src/sync_pact.rs
@@ -1,6 +1,5 @@
 //! Synchronous HTTP Request/Response Pact
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap};
 use std::panic::RefUnwindSafe;
 use std::path::Path;
@@ -16,7 +15,7 @@ use tracing::warn;
 use crate::{Consumer, PactSpecification, Provider};
 #[cfg(not(target_family = "wasm"))] use crate::file_utils::with_read_lock;
 #[cfg(not(target_family = "wasm"))] use crate::http_utils::{self, HttpAuth};
-use crate::interaction::{Interaction, PactConflict, parse_interactions};
+use crate::interaction::{Interaction, merge_order, PactConflict, parse_interactions};
 use crate::iterator_utils::CartesianProductIterator;
 use crate::message_pact::MessagePact;
 use crate::pact::{determine_spec_version, metadata_schema, Pact, parse_meta_data, ReadWritePact, verify_metadata};
@@ -300,15 +299,9 @@ impl ReadWritePact for RequestResponsePact {
                     num_conflicts))
       } else {
         let interactions: Vec<Result<RequestResponseInteraction, String>> = self.interactions.iter()
-          .merge_join_by(pact.interactions().iter(), |a, b| {
-            let cmp = Ord::cmp(&a.description, &b.description());
-            if cmp == Ordering::Equal && ! &a.provider_states().is_empty(){
-              Ord::cmp(&a.provider_states.iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                       &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>())
-            } else {
-              cmp
-            }
-          })
+          .sorted_by(|a, b| merge_order(*a, *b))
+          .merge_join_by(pact.interactions().iter().sorted_by(|a, b| merge_order(a.as_ref(), b.as_ref())),
+            |a, b| merge_order(*a, b.as_ref()))
           .map(|either| match either {
             Left(i) => Ok(i.clone()),
             Right(i) => i.as_request_response()
diff --git a/rust/pact_models/src/v4/pact.rs b/rust/pact_models/src/v4/pact.rs
index 92548af..af79bf1 100644
--- a/rust/pact_models/src/v4/pact.rs
+++ b/rust/pact_models/src/v4/pact.rs
@@ -7,7 +7,6 @@ use std::path::Path;
 use std::sync::{Arc, Mutex};
 
 use anyhow::{anyhow, Context};
-use itertools::EitherOrBoth::{Both, Left, Right};
 use itertools::Itertools;
 use maplit::btreemap;
 use serde_json::{json, Map, Value};
@@ -15,7 +14,7 @@ use tracing::{trace, warn};
 
 use crate::{Consumer, PactSpecification, Provider};
 #[cfg(not(target_family = "wasm"))] use crate::file_utils::with_read_lock;
-use crate::interaction::Interaction;
+use crate::interaction::{Interaction, merge_order};
 use crate::json_utils::json_to_string;
 use crate::message_pact::MessagePact;
 use crate::pact::{Pact, ReadWritePact};
@@ -333,6 +332,22 @@ impl Pact for V4Pact {
   }
 }
 
+/// If both interactions have a key, they are the same interaction if the keys are equal. Otherwise,
+/// the type, description and provider states are used. Interactions where only one has a key are
+/// only considered if `mixed_keys` is set.
+fn same_interaction(
+  a: &Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>,
+  b: &Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>,
+  mixed_keys: bool
+) -> bool {
+  match (a.key(), b.key()) {
+    (Some(key_a), Some(key_b)) => key_a == key_b,
+    (key_a, key_b) => (key_a.is_some() != key_b.is_some()) == mixed_keys &&
+      a.v4_type() == b.v4_type() &&
+      merge_order(a.to_super(), b.to_super()) == Ordering::Equal
+  }
+}
+
 impl Default for V4Pact {
   fn default() -> Self {
     V4Pact {
@@ -357,43 +372,24 @@ impl ReadWritePact for V4Pact {
 
   fn merge(&self, other: &dyn Pact) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
     if self.consumer.name == other.consumer().name && self.provider.name == other.provider().name {
+      // Pair the interactions from the other pact with the ones from this pact (which are kept)
+      let mut unpaired: Vec<_> = self.interactions.iter().collect();
+      let mut others: Vec<_> = other.interactions().iter().map(|i| i.as_v4().unwrap()).collect();
+      for mixed_keys in [false, true] {
+        others.retain(|other| {
+          match unpaired.iter().position(|i| same_interaction(i, other, mixed_keys)) {
+            Some(index) => { unpaired.remove(index); false },
+            None => true
+          }
+        });
+      }
+
       let mut new_pact = V4Pact {
         consumer: self.consumer.clone(),
         provider: self.provider.clone(),
-        interactions: self.interactions.iter()
-          .merge_join_by(other.interactions().iter().map(|i| i.as_v4().unwrap()), |a, b| {
-            match (a.key(), b.key()) {
-              (Some(key_a), Some(key_b)) => Ord::cmp(&key_a, &key_b),
-              (_, _) => {
-                let type_a = a.type_of();
-                let type_b = b.type_of();
-                let cmp = Ord::cmp(&a.description(), &b.description());
-                if cmp == Ordering::Equal && !a.provider_states().is_empty() {
-                  let cmp = Ord::cmp(&a.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                  &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>());
-                  if cmp == Ordering::Equal {
-                       Ord::cmp(&type_a, &type_b)
-                  } else
-                  {
-                    cmp
-                  }
-                }
-                else if cmp == Ordering::Equal && a.provider_states().is_empty() {
-                  Ord::cmp(&type_a, &type_b)
-                } 
-                 else {
-                  cmp
-                }
-              }
-            }
-          })
-          .map(|either| {
-            match either {
-              Left(i) => i.clone(),
-              Right(i) => i.boxed_v4(),
-              Both(i, _) => i.clone()
-            }
-          })
+        interactions: self.interactions.iter().chain(others.iter())
+          .sorted_by(|a, b| merge_order(a.to_super(), b.to_super()))
+          .map(|i| i.boxed_v4())
           .collect(),
         metadata: self.metadata.clone(),
         plugin_data: self.plugin_data.clone()
-- 
2.43.0


From 2027815937f91396c618050746f5443287b91b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 02/36] fix: writing a pact file could lose the interactions
 written by another process, as the file was not locked between being read and
 updated

---
 rust/pact_models/src/pact.rs | 61 +++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/rust/pact_models/src/pact.rs b/rust/pact_models/src/pact.rs
index f030933..74ae482 100644
--- a/rust/pact_models/src/pact.rs
+++ b/rust/pact_models/src/pact.rs
@@ -148,7 +148,12 @@ pub fn read_pact_from_file(file: &mut File, path: &Path) -> anyhow::Result<Box<d
     f.read_to_string(&mut buf)?;
     Ok(buf)
   })?;
-  let pact_json = serde_json::from_str(&buf)
+  pact_from_file_contents(buf.as_str(), path)
+}
+
+#[cfg(not(target_family = "wasm"))]
+fn pact_from_file_contents(buf: &str, path: &Path) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
+  let pact_json = serde_json::from_str(buf)
     .context("Failed to parse Pact JSON")
     .map_err(|err| {
       error!("read_pact_from_file: {}", err);
@@ -223,34 +228,38 @@ pub fn write_pact(
 ) -> anyhow::Result<()> {
   fs::create_dir_all(path.parent().unwrap())?;
   let _lock = WRITE_LOCK.lock().unwrap();
-  if !overwrite && path.exists() {
-    debug!("Merging pact with file {:?}", path);
-    let mut f = fs::OpenOptions::new().read(true).write(true).open(&path)?;
-    let existing_pact = read_pact_from_file(&mut f, path)?;
-
-    if existing_pact.specification_version() < pact.specification_version() {
-      warn!("Note: Existing pact is an older specification version ({:?}), and will be upgraded",
-            existing_pact.specification_version());
+  let new_pact_json = serde_json::to_string_pretty(&pact.to_json(pact_spec)?)?;
+  // The lock needs to be held from before the existing pact is read until the file has been
+  // updated, and the file must not be truncated until the lock is acquired.
+  let mut f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path)?;
+  with_write_lock(path, &mut f, 3, &mut |f| {
+    let mut buf = String::new();
+    if !overwrite {
+      f.read_to_string(&mut buf)?;
     }
 
-    let merged_pact = pact.merge(existing_pact.deref())?;
-    let pact_json = serde_json::to_string_pretty(&merged_pact.to_json(pact_spec)?)?;
+    // An empty file has just been created, so there is nothing to merge with
+    let pact_json = if buf.is_empty() {
+      debug!("Writing new pact file to {:?}", path);
+      new_pact_json.clone()
+    } else {
+      debug!("Merging pact with file {:?}", path);
+      let existing_pact = pact_from_file_contents(buf.as_str(), path)?;
 
-    with_write_lock(path, &mut f, 3, &mut |f| {
-      f.set_len(0)?;
-      f.seek(SeekFrom::Start(0))?;
-      f.write_all(pact_json.as_bytes())?;
-      Ok(())
-    })
-  } else {
-    debug!("Writing new pact file to {:?}", path);
-    let result = serde_json::to_string_pretty(&pact.to_json(pact_spec)?)?;
-    let mut file = File::create(path)?;
-    with_write_lock(path, &mut file, 3, &mut |f| {
-      f.write_all(result.as_bytes())?;
-      Ok(())
-    })
-  }
+      if existing_pact.specification_version() < pact.specification_version() {
+        warn!("Note: Existing pact is an older specification version ({:?}), and will be upgraded",
+              existing_pact.specification_version());
+      }
+
+      let merged_pact = pact.merge(existing_pact.deref())?;
+      serde_json::to_string_pretty(&merged_pact.to_json(pact_spec)?)?
+    };
+
+    f.set_len(0)?;
+    f.seek(SeekFrom::Start(0))?;
+    f.write_all(pact_json.as_bytes())?;
+    Ok(())
+  })
 }
 
 
-- 
2.43.0


From e59ac6004b1e53710cd410a186ca5eef5961fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 03/36] fix: path expressions with escaped quotes or
 backslashes were not parsed back, and invalid indices panicked

---
 rust/pact_models/src/path_exp.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index a6e3e88..7467494 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -195,7 +195,7 @@ impl DocPath {
       if path.len() >= self.len() {
         (
           self.path_tokens.iter().zip(path.iter())
-          .fold(1, |acc, (token, fragment)| acc * matches_token(fragment, token)),
+          .fold(1_usize, |acc, (token, fragment)| acc.saturating_mul(matches_token(fragment, token))),
           self.len()
         )
       } else {
@@ -593,7 +593,7 @@ fn path_identifier<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path
   }
 }
 
-// string_path -> [^']+
+// string_path -> ([^'\\] | \\' | \\\\ | \\)+
 fn string_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &str, index: usize) -> Result<(), String>
   where I: Iterator<Item=(usize, char)> {
   let mut id = String::new();
@@ -603,6 +603,15 @@ fn string_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &s
     let mut ch = next_char.unwrap();
     next_char = peek(chars);
     while ch.1 != '\'' && next_char.is_some() {
+      if ch.1 == '\\' && next_char.map(|(_, c)| c == '\\' || c == '\'').unwrap_or(false) {
+        // escaped quote or backslash (see write_obj_key_for_path)
+        chars.next();
+        ch = next_char.unwrap();
+        next_char = peek(chars);
+        if next_char.is_none() {
+          return Err(format!("Unterminated string in path expression \"{}\" at index {}", path, ch.0));
+        }
+      }
       id.push(ch.1);
       chars.next();
       ch = next_char.unwrap();
@@ -632,7 +641,7 @@ fn index_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &st
   next_char = peek(chars);
   while next_char.is_some() {
     let ch = next_char.unwrap();
-    if ch.1.is_numeric() {
+    if ch.1.is_ascii_digit() {
       id.push(ch.1);
       chars.next();
     } else {
@@ -648,7 +657,9 @@ fn index_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &st
     }
   }
 
-  tokens.push(PathToken::Index(id.parse().unwrap()));
+  let index = id.parse()
+    .map_err(|err| format!("\"{}\" is not a valid index in path expression \"{}\": {}", id, path, err))?;
+  tokens.push(PathToken::Index(index));
   Ok(())
 }
 
@@ -661,7 +672,7 @@ fn bracket_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &
       if c.1 == '\'' {
         chars.next();
         string_path(chars, tokens, path, c.0)?
-      } else if c.1.is_numeric() {
+      } else if c.1.is_ascii_digit() {
         index_path(chars, tokens, path)?
       } else if c.1 == '*' {
         chars.next();
-- 
2.43.0


From 8ecb7b52976c46c1a470cefc84d121dff048682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 04/36] fix: the matching rule selected for a path was
 arbitrary when several applied

---
 rust/pact_models/src/matchingrules/mod.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index cc358e7..8ca43e5 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -991,11 +991,18 @@ impl MatchingRuleCategory {
     }
   }
 
-  fn max_by_path(&self, path: &[&str]) -> RuleList {
+  /// Entry with the greatest weight for the path. Entries with equal weights are ordered by their
+  /// path expression, so that the result does not depend on the iteration order of the map.
+  fn best_by_path(&self, path: &[&str]) -> Option<(&DocPath, &RuleList)> {
     self.rules.iter().map(|(k, v)| (k, v, k.path_weight(path)))
       .filter(|&(_, _, (w, _))| w > 0)
-      .max_by_key(|&(_, _, (w, t))| w * t)
-      .map(|(_, v, (_, t))| v.as_cascaded(t != path.len()))
+      .max_by_key(|&(k, _, (w, t))| (w.saturating_mul(t), k))
+      .map(|(k, v, _)| (k, v))
+  }
+
+  fn max_by_path(&self, path: &[&str]) -> RuleList {
+    self.best_by_path(path)
+      .map(|(k, v)| v.as_cascaded(k.len() != path.len()))
       .unwrap_or_default()
   }
 
@@ -1074,13 +1081,19 @@ impl MatchingRuleCategory {
   pub fn select_best_matcher(&self, path: &[&str]) -> RuleList {
     match self.name {
       Category::BODY | Category::METADATA => self.max_by_path(path),
-      _ => self.resolve_matchers_for_path(path).as_rule_list()
+      Category::HEADER | Category::QUERY | Category::CONTENTS => self.best_by_path(path)
+        .map(|(_, v)| v.clone())
+        .unwrap_or_default(),
+      _ => self.as_rule_list()
     }
   }
 
   /// Returns this category as a matching rule list. Returns a None if there are no rules
   pub fn as_rule_list(&self) -> RuleList {
-    self.rules.values().next().cloned().unwrap_or_default()
+    self.rules.iter()
+      .min_by_key(|&(k, _)| k)
+      .map(|(_, v)| v.clone())
+      .unwrap_or_default()
   }
 
   /// Adds the rules to the category from the provided JSON
-- 
2.43.0


From f9f30c0035f3267d83e4f283cb94376900cefd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 05/36] fix: query parameter names were not encoded, and
 non-ASCII characters of a query string were decoded wrongly or crashed the
 encoder

---
 rust/pact_models/src/query_strings.rs | 52 ++++++++++++++++++---------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 7df3f94..7204011 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -34,21 +34,21 @@ pub fn decode_query(query: &str) -> Result<String, String> {
             Err(err) => {
               error!("Failed to decode '%{}{}' to as HEX - {}", v1, v2, err);
               buffer.push('%' as u8);
-              buffer.push(v1 as u8);
-              buffer.push(v2 as u8);
+              push_char(&mut buffer, v1);
+              push_char(&mut buffer, v2);
             }
           }
         },
         (Some(v1), None) => {
           buffer.push('%' as u8);
-          buffer.push(v1 as u8);
+          push_char(&mut buffer, v1);
         },
         _ => buffer.push('%' as u8)
       }
     } else if c == '+' {
       buffer.push(' ' as u8);
     } else {
-      buffer.push(c as u8);
+      push_char(&mut buffer, c);
     }
 
     ch = chars.next();
@@ -63,6 +63,16 @@ pub fn decode_query(query: &str) -> Result<String, String> {
   }
 }
 
+fn push_char(buffer: &mut Vec<u8>, ch: char) {
+  buffer.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
+}
+
+fn percent_encode(ch: char) -> String {
+  ch.encode_utf8(&mut [0; 4]).bytes()
+    .map(|b| format!("%{:02x}", b))
+    .collect()
+}
+
 /// Encodes the query string using a percent-encoding scheme
 pub fn encode_query(query: &str) -> String {
   query.chars().map(|ch| {
@@ -72,16 +82,24 @@ pub fn encode_query(query: &str) -> String {
       'a'..='z' => ch.to_string(),
       'A'..='Z' => ch.to_string(),
       '0'..='9' => ch.to_string(),
-      _ => ch.escape_unicode()
-        .filter(|u| u.is_digit(16))
-        .batching(|it| {
-          match it.next() {
-            None => None,
-            Some(x) => Some((x, it.next().unwrap()))
-          }
-        })
-        .map(|u| format!("%{}{}", u.0, u.1))
-        .collect()
+      _ if ch.is_ascii() => percent_encode(ch),
+      _ => {
+        let hex = format!("{:x}", ch as u32);
+        let hex = if hex.len() % 2 == 0 { hex } else { format!("0{}", hex) };
+        hex.chars().tuples().map(|(a, b)| format!("%{}{}", a, b)).collect()
+      }
+    }
+  }).collect()
+}
+
+/// Encodes the characters of a parameter name that have a meaning in a query string
+fn encode_name(name: &str) -> String {
+  name.chars().map(|ch| {
+    match ch {
+      ' ' => "+".to_string(),
+      '%' | '+' | '&' | '=' | '#' => percent_encode(ch),
+      _ if ch.is_ascii_graphic() => ch.to_string(),
+      _ => percent_encode(ch)
     }
   }).collect()
 }
@@ -126,8 +144,8 @@ pub fn build_query_string(query: HashMap<String, Vec<Option<String>>>) -> String
     .flat_map(|kv| {
       kv.1.iter()
         .map(|v| match v {
-          None => kv.0.clone(),
-          Some(s) => format!("{}={}", kv.0, encode_query(s))
+          None => encode_name(&kv.0),
+          Some(s) => format!("{}={}", encode_name(&kv.0), encode_query(s))
         })
         .collect_vec()
     })
@@ -159,7 +177,7 @@ pub fn v3_query_from_json(
         Value::Array(array) => array.iter().map(|item| match item {
           Value::String(s) => Some(s.clone()),
           Value::Null => None,
-          _ => Some(v.to_string())
+          _ => Some(item.to_string())
         }).collect(),
         _ => {
           warn!("Query parameter value '{}' is not valid, ignoring", v);
-- 
2.43.0


From b57416ea51478a104467d24b1e404bd5d9c8563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 06/36] fix: provider state expressions with a brace before the
 expression crashed, and values outside of the range of the requested type
 were wrapped around or crashed

---
 rust/pact_models/src/expression_parser.rs | 51 ++++++++++++++---------
 rust/pact_models/src/generators/mod.rs    |  9 +++-
 2 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index 617fada..30c82f1 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -7,7 +7,7 @@ use std::fmt::{Display, Formatter};
 use anyhow::anyhow;
 use itertools::Itertools;
 use serde::{Deserialize, Serialize};
-use serde_json::{json, Value};
+use serde_json::{json, Number, Value};
 use tracing::error;
 
 use crate::json_utils::json_to_string;
@@ -102,11 +102,12 @@ impl DataValue {
         } else if let Some(n) = n.as_i64() {
           Ok(json!(n))
         } else if let Some(n) = n.as_f64() {
-          Ok(json!(n as i64))
+          float_to_int::<i64>(n).map(|n| json!(n))
         } else {
           Err(anyhow!("Internal Error: Number is neither u64, i64, or f64"))
         }
-        Value::String(s) => s.parse::<usize>().map(|val| json!(val))
+        Value::String(s) => s.parse::<u64>().map(|val| json!(val))
+          .or_else(|_| s.parse::<i64>().map(|val| json!(val)))
           .map_err(|err| anyhow!("Number can not be generated from '{}' - {}", self.wrapped, err)),
         Value::Array(_) | Value::Object(_) => Err(anyhow!("Number can not be generated from '{}'", self.wrapped))
       },
@@ -126,8 +127,10 @@ impl DataValue {
         } else {
           Err(anyhow!("Internal Error: Number is neither u64, i64, or f64"))
         },
-        Value::String(s) => s.parse::<f64>().map(|val| json!(val))
-          .map_err(|err| anyhow!("Floating point number can not be generated from '{}' - {}", self.wrapped, err)),
+        Value::String(s) => s.parse::<f64>()
+          .map_err(|err| anyhow!("Floating point number can not be generated from '{}' - {}", self.wrapped, err))
+          .and_then(|val| Number::from_f64(val).map(Value::Number)
+            .ok_or_else(|| anyhow!("Floating point number can not be generated from '{}'", self.wrapped))),
         Value::Array(_) | Value::Object(_) => Err(anyhow!("Number can not be generated from '{}'", self.wrapped))
       },
       DataType::RAW => Ok(self.wrapped.clone()),
@@ -151,6 +154,15 @@ impl DataValue {
   }
 }
 
+/// Integer part of a floating point number, or an error if the integer type can not hold it
+fn float_to_int<T: TryFrom<i128>>(val: f64) -> anyhow::Result<T> {
+  if val.is_finite() {
+    T::try_from(val as i128).map_err(|_| anyhow!("{} is out of range for an integer", val))
+  } else {
+    Err(anyhow!("An integer can not be generated from {}", val))
+  }
+}
+
 impl TryFrom<DataValue> for u16 {
   type Error = anyhow::Error;
 
@@ -163,11 +175,11 @@ impl TryFrom<DataValue> for u16 {
         Ok(0)
       }
       Value::Number(n) => if let Some(n) = n.as_u64() {
-        Ok(n as u16)
+        u16::try_from(n).map_err(|err| anyhow!("u16 can not be generated from {} - {}", n, err))
       } else if let Some(n) = n.as_i64() {
-        Ok(n as u16)
+        u16::try_from(n).map_err(|err| anyhow!("u16 can not be generated from {} - {}", n, err))
       } else if let Some(n) = n.as_f64() {
-        Ok(n as u16)
+        float_to_int(n)
       } else {
         Ok(0)
       }
@@ -175,8 +187,8 @@ impl TryFrom<DataValue> for u16 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<u16>()
           .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as u16)
-          .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err))
+          .and_then(float_to_int),
         _ => Err(anyhow!("u16 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("u16 can not be generated from {}", value.wrapped))
@@ -198,9 +210,9 @@ impl TryFrom<DataValue> for u64 {
       Value::Number(n) => if let Some(n) = n.as_u64() {
         Ok(n)
       } else if let Some(n) = n.as_i64() {
-        Ok(n as u64)
+        u64::try_from(n).map_err(|err| anyhow!("u64 can not be generated from {} - {}", n, err))
       } else if let Some(n) = n.as_f64() {
-        Ok(n as u64)
+        float_to_int(n)
       } else {
         Ok(0)
       }
@@ -208,8 +220,8 @@ impl TryFrom<DataValue> for u64 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<u64>()
           .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as u64)
-          .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err))
+          .and_then(float_to_int),
         _ => Err(anyhow!("u64 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("u64 can not be generated from {}", value.wrapped))
@@ -229,11 +241,11 @@ impl TryFrom<DataValue> for i64 {
         Ok(0)
       }
       Value::Number(n) => if let Some(n) = n.as_u64() {
-        Ok(n as i64)
+        i64::try_from(n).map_err(|err| anyhow!("i64 can not be generated from {} - {}", n, err))
       } else if let Some(n) = n.as_i64() {
         Ok(n)
       } else if let Some(n) = n.as_f64() {
-        Ok(n as i64)
+        float_to_int(n)
       } else {
         Ok(0)
       }
@@ -241,8 +253,8 @@ impl TryFrom<DataValue> for i64 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<i64>()
           .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as i64)
-          .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err))
+          .and_then(float_to_int),
         _ => Err(anyhow!("i64 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("i64 can not be generated from {}", value.wrapped))
@@ -382,7 +394,8 @@ fn replace_expressions(value: &str, value_resolver: &dyn ValueResolver<Value>) -
     if index > 0 {
       result.push(json!(&buffer[0..index]));
     }
-    let end_position = buffer.find('}')
+    let end_position = buffer[index..].find('}')
+      .map(|end| index + end)
       .ok_or_else(|| anyhow!("Missing closing brace in expression string '{}'", value))?;
     if end_position - index > 2 {
       let lookup_key = &buffer[(index + 2)..end_position];
diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 7abba1e..b89addb 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -2,7 +2,7 @@
 
 use std::collections::HashMap;
 use std::convert::TryFrom;
-use std::fmt::{Debug, Display, Formatter};
+use std::fmt::{Debug, Display, Formatter, Write};
 use std::hash::{Hash, Hasher};
 use std::mem;
 use std::str::FromStr;
@@ -996,7 +996,12 @@ impl GenerateValue<String> for Generator {
         } else {
           context.clone()
         };
-        generate_value_from_context(exp, &provider_state_config, dt).map(|val| val.to_string())
+        generate_value_from_context(exp, &provider_state_config, dt).and_then(|val| {
+          let mut text = String::new();
+          write!(text, "{}", val)
+            .map_err(|_| anyhow!("{:?} can not be generated from {}", val.data_type, val.wrapped))?;
+          Ok(text)
+        })
       }
       Generator::MockServerURL(example, regex) => if let Some(mock_server_details) = context.get("mockServer") {
         debug!("Generating URL from Mock Server details");
-- 
2.43.0


From 9f7097f527a9b37e64de22f1bb13c093fbdc5416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 07/36] fix: date and time expressions accepted trailing text,
 crashed on large values, and did not accept 12 o'clock

---
 .../src/generators/date_expression_parser.rs  |  50 ++++---
 .../src/generators/datetime_expressions.rs    | 122 +++++++++++-------
 .../src/generators/time_expression_parser.rs  |  63 ++++-----
 3 files changed, 126 insertions(+), 109 deletions(-)

diff --git a/rust/pact_models/src/generators/date_expression_parser.rs b/rust/pact_models/src/generators/date_expression_parser.rs
index 044942c..8e3c43e 100644
--- a/rust/pact_models/src/generators/date_expression_parser.rs
+++ b/rust/pact_models/src/generators/date_expression_parser.rs
@@ -170,13 +170,8 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
   if let Some(Ok(token)) = lex.next() {
     if token.is_base() {
       date_base = base(lex, exp, &token)?;
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
-          adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
-        }
-      }
+      let next = lex.next();
+      adj.extend_from_slice(&*optional_adjustments(lex, exp, next)?);
     } else if token.is_op() {
       adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
     } else if token == DateExpressionToken::Next {
@@ -186,13 +181,8 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
         value: v,
         operation: Operation::PLUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
-          adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
-        }
-      }
+      let next = lex.next();
+      adj.extend_from_slice(&*optional_adjustments(lex, exp, next)?);
     } else if token == DateExpressionToken::Last {
       let (t, v) = offset(lex, exp)?;
       adj.push(Adjustment {
@@ -200,13 +190,8 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
         value: v,
         operation: Operation::MINUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
-          adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
-        }
-      }
+      let next = lex.next();
+      adj.extend_from_slice(&*optional_adjustments(lex, exp, next)?);
     } else {
       return Err(error(exp, "one of now, today, yesterday, tomorrow, +, -, next or last", Some(lex.span().clone())));
     }
@@ -225,16 +210,29 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
   }
 }
 
+// ( op duration )* starting with the next token. Any other token is an error.
+fn optional_adjustments(
+  lex: &mut Lexer<DateExpressionToken>,
+  exp: &str,
+  next: Option<Result<DateExpressionToken, ()>>
+) -> anyhow::Result<Vec<Adjustment<DateOffsetType>>> {
+  match next {
+    Some(Ok(token)) if token.is_op() => adjustments(lex, exp, &token),
+    Some(Ok(_)) => Err(error(exp, "+ or -", Some(lex.span().clone()))),
+    Some(Err(_)) => Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+    None => Ok(vec![])
+  }
+}
+
 // op duration { if ($duration.d != null) $adj.add($duration.d.withOperation($op.o)); } ( op duration { if ($duration.d != null) $adj.add($duration.d.withOperation($op.o)); } )*
 fn adjustments(lex: &mut Lexer<DateExpressionToken>, exp: &str, token: &DateExpressionToken) -> anyhow::Result<Vec<Adjustment<DateOffsetType>>> {
   let mut results = vec![];
 
   results.push(adjustment(lex, exp, token)?);
-  while let Some(Ok(token)) = lex.next() {
-    if token.is_op() {
-      results.push(adjustment(lex, exp, &token)?);
-    } else {
-      break
+  while let Some(next) = lex.next() {
+    match next {
+      Ok(token) if token.is_op() => results.push(adjustment(lex, exp, &token)?),
+      _ => return Err(error(exp, "no more tokens", Some(lex.span().clone())))
     }
   }
 
diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index d22c6aa..9ea84ce 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -62,7 +62,7 @@ use std::str::from_utf8;
 use anyhow::anyhow;
 use ariadne::{Config, Label, Report, ReportKind, Source};
 use bytes::{BytesMut, BufMut};
-use chrono::Duration;
+use chrono::{Duration, Months};
 use chrono::prelude::*;
 use logos::{Logos, Span};
 
@@ -184,9 +184,9 @@ pub fn execute_time_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression: &str
       TimeBase::Midnight => time.with_hour(0).unwrap_or(dt.clone()),
       TimeBase::Noon => time.with_hour(12).unwrap_or(dt.clone()),
       TimeBase::Am { hour } => time.with_hour(hour as u32).unwrap_or(dt.clone()),
-      TimeBase::Pm { hour } => time.with_hour((12 + hour) as u32).unwrap_or(dt.clone()),
+      TimeBase::Pm { hour } => time.with_hour((12 + hour % 12) as u32).unwrap_or(dt.clone()),
       TimeBase::Next { hour } => if dt.hour() < 12 {
-        time.with_hour((12 + hour) as u32).unwrap_or(dt.clone())
+        time.with_hour((12 + hour % 12) as u32).unwrap_or(dt.clone())
       } else {
         time.with_hour(hour as u32).unwrap_or(dt.clone())
       }
@@ -194,28 +194,14 @@ pub fn execute_time_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression: &str
 
     let mut date_time = base_time.clone();
     for adjustment in &result.adjustments {
-      date_time = match adjustment.operation {
-        Operation::PLUS => match adjustment.adjustment_type {
-          TimeOffsetType::HOUR => date_time.add(Duration::try_hours(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MINUTE => date_time.add(Duration::try_minutes(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::SECOND => date_time.add(Duration::try_seconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MILLISECOND => date_time.add(Duration::try_milliseconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?)
-        },
-        Operation::MINUS => match adjustment.adjustment_type {
-          TimeOffsetType::HOUR => date_time.sub(Duration::try_hours(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MINUTE => date_time.sub(Duration::try_minutes(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::SECOND => date_time.sub(Duration::try_seconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MILLISECOND => date_time.sub(Duration::try_milliseconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?)
-        }
-      }
+      let value = adjustment_value(adjustment)?;
+      let duration = match adjustment.adjustment_type {
+        TimeOffsetType::HOUR => Duration::try_hours(value),
+        TimeOffsetType::MINUTE => Duration::try_minutes(value),
+        TimeOffsetType::SECOND => Duration::try_seconds(value),
+        TimeOffsetType::MILLISECOND => Duration::try_milliseconds(value)
+      };
+      date_time = adjust_by(&date_time, duration, adjustment)?;
     }
 
     Ok(date_time)
@@ -245,18 +231,67 @@ pub fn execute_datetime_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression:
   }
 }
 
+fn overflow_error<T>(adjustment: &Adjustment<T>) -> anyhow::Error {
+  anyhow!("Adjustment value {} overflows the bounds", adjustment.value)
+}
+
+fn adjustment_value<T>(adjustment: &Adjustment<T>) -> anyhow::Result<i64> {
+  i64::try_from(adjustment.value).map_err(|_| overflow_error(adjustment))
+}
+
+/// Adds or subtracts the duration, returning an error if the result is out of bounds
+fn adjust_by<Tz: TimeZone, T>(
+  date: &DateTime<Tz>,
+  duration: Option<Duration>,
+  adjustment: &Adjustment<T>
+) -> anyhow::Result<DateTime<Tz>> {
+  duration
+    .and_then(|duration| match adjustment.operation {
+      Operation::PLUS => date.clone().checked_add_signed(duration),
+      Operation::MINUS => date.clone().checked_sub_signed(duration)
+    })
+    .ok_or_else(|| overflow_error(adjustment))
+}
+
+/// Moves the date by a number of months, returning an error if the result is out of bounds
+fn adjust_month<Tz: TimeZone>(
+  date: &DateTime<Tz>,
+  months: i64,
+  adjustment: &Adjustment<DateOffsetType>
+) -> anyhow::Result<DateTime<Tz>> {
+  let in_bounds = u32::try_from(months.unsigned_abs()).ok()
+    // The bounds are checked with an additional month, as the date is moved one day at a time
+    .and_then(|m| m.checked_add(1))
+    .and_then(|m| if months > 0 {
+      date.clone().checked_add_months(Months::new(m))
+    } else {
+      date.clone().checked_sub_months(Months::new(m))
+    });
+  in_bounds.map(|_| roll_month(date, months)).ok_or_else(|| overflow_error(adjustment))
+}
+
+/// Changes the year of the date. The 29th of February becomes the 28th if the year is not a leap year.
+fn adjust_year<Tz: TimeZone>(
+  date: &DateTime<Tz>,
+  years: i64,
+  adjustment: &Adjustment<DateOffsetType>
+) -> anyhow::Result<DateTime<Tz>> {
+  i32::try_from(years).ok()
+    .and_then(|years| date.year().checked_add(years))
+    .and_then(|year| date.with_year(year)
+      .or_else(|| date.with_day(28).and_then(|date| date.with_year(year))))
+    .ok_or_else(|| overflow_error(adjustment))
+}
+
 fn forward_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
+  let value = adjustment_value(adjustment)?;
   Ok(match adjustment.adjustment_type {
-    DateOffsetType::DAY => date.clone().add(Duration::try_days(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::WEEK => date.clone().add(Duration::try_weeks(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::MONTH => roll_month(date, adjustment.value as i64),
-    DateOffsetType::YEAR => {
-      let date = date.clone();
-      let year = date.year();
-      date.with_year(year + adjustment.value as i32).unwrap_or(date)
-    },
+    DateOffsetType::DAY => date.clone().checked_add_signed(Duration::try_days(value)
+      .ok_or_else(|| overflow_error(adjustment))?).ok_or_else(|| overflow_error(adjustment))?,
+    DateOffsetType::WEEK => date.clone().checked_add_signed(Duration::try_weeks(value)
+      .ok_or_else(|| overflow_error(adjustment))?).ok_or_else(|| overflow_error(adjustment))?,
+    DateOffsetType::MONTH => adjust_month(date, value, adjustment)?,
+    DateOffsetType::YEAR => adjust_year(date, value, adjustment)?,
     DateOffsetType::MONDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Mon),
     DateOffsetType::TUESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Tue),
     DateOffsetType::WEDNESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Wed),
@@ -350,17 +385,14 @@ fn roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> DateTime<Tz> {
 }
 
 fn reverse_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
+  let value = adjustment_value(adjustment)?;
   Ok(match adjustment.adjustment_type {
-    DateOffsetType::DAY => date.clone().sub(Duration::try_days(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::WEEK => date.clone().sub(Duration::try_weeks(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::MONTH => roll_month(date, -(adjustment.value as i64)),
-    DateOffsetType::YEAR => {
-      let date = date.clone();
-      let year = date.year();
-      date.with_year(year - adjustment.value as i32).unwrap_or(date)
-    },
+    DateOffsetType::DAY => date.clone().checked_sub_signed(Duration::try_days(value)
+      .ok_or_else(|| overflow_error(adjustment))?).ok_or_else(|| overflow_error(adjustment))?,
+    DateOffsetType::WEEK => date.clone().checked_sub_signed(Duration::try_weeks(value)
+      .ok_or_else(|| overflow_error(adjustment))?).ok_or_else(|| overflow_error(adjustment))?,
+    DateOffsetType::MONTH => adjust_month(date, -value, adjustment)?,
+    DateOffsetType::YEAR => adjust_year(date, -value, adjustment)?,
     DateOffsetType::MONDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Mon),
     DateOffsetType::TUESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Tue),
     DateOffsetType::WEDNESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Wed),
diff --git a/rust/pact_models/src/generators/time_expression_parser.rs b/rust/pact_models/src/generators/time_expression_parser.rs
index c6d4ecd..339b43b 100644
--- a/rust/pact_models/src/generators/time_expression_parser.rs
+++ b/rust/pact_models/src/generators/time_expression_parser.rs
@@ -103,14 +103,8 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
     if token.is_base() {
       let (tb, next) = base(lex, exp, token)?;
       time_base = tb;
-      if let Some(Ok(token)) = next.map(|next| Ok(next)).or_else(|| lex.next()) {
-        if token.is_op() {
-          let a = adjustments(lex, exp, token)?;
-          adj.extend_from_slice(&*a);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
-        }
-      }
+      let next = next.map(|next| Ok(next)).or_else(|| lex.next());
+      adj.extend_from_slice(&*optional_adjustments(lex, exp, next)?);
     } else if token.is_op() {
       let a = adjustments(lex, exp, token)?;
       adj.extend_from_slice(&*a);
@@ -121,14 +115,8 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
         value: 1,
         operation: Operation::PLUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
-          let a = adjustments(lex, exp, token)?;
-          adj.extend_from_slice(&*a);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
-        }
-      }
+      let next = lex.next();
+      adj.extend_from_slice(&*optional_adjustments(lex, exp, next)?);
     } else if token == TimeExpressionToken::Last {
       let t = offset(lex, exp)?;
       adj.push(Adjustment {
@@ -136,14 +124,8 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
         value: 1,
         operation: Operation::MINUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
-          let a = adjustments(lex, exp, token)?;
-          adj.extend_from_slice(&*a);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
-        }
-      }
+      let next = lex.next();
+      adj.extend_from_slice(&*optional_adjustments(lex, exp, next)?);
     } else {
       return Err(error(exp, "one of now, midnight, noon, 1-12 o'clock, +, -, next or last", Some(lex.span().clone())));
     }
@@ -219,6 +201,20 @@ fn oclock(
   }
 }
 
+// ( op duration )* starting with the next token. Any other token is an error.
+fn optional_adjustments(
+  lex: &mut Lexer<TimeExpressionToken>,
+  exp: &str,
+  next: Option<Result<TimeExpressionToken, ()>>
+) -> anyhow::Result<Vec<Adjustment<TimeOffsetType>>> {
+  match next {
+    Some(Ok(token)) if token.is_op() => adjustments(lex, exp, token),
+    Some(Ok(_)) => Err(error(exp, "+ or -", Some(lex.span().clone()))),
+    Some(Err(_)) => Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+    None => Ok(vec![])
+  }
+}
+
 // adjustments: op duration ( op duration )*
 fn adjustments(
   lex: &mut Lexer<TimeExpressionToken>,
@@ -227,20 +223,11 @@ fn adjustments(
 ) -> anyhow::Result<Vec<Adjustment<TimeOffsetType>>> {
   let mut results = vec![];
 
-  let mut token = token.clone();
-  loop {
-    if token.is_op() {
-      let adj = adjustment(lex, exp, token)?;
-      results.push(adj);
-    } else {
-      break
-    }
-
-    if let Some(Ok(t)) = lex.next() {
-      // loop
-      token = t.clone();
-    } else {
-      break
+  results.push(adjustment(lex, exp, token)?);
+  while let Some(next) = lex.next() {
+    match next {
+      Ok(token) if token.is_op() => results.push(adjustment(lex, exp, token)?),
+      _ => return Err(error(exp, "no more tokens", Some(lex.span().clone())))
     }
   }
 
-- 
2.43.0


From 49b9b69098d4ce049163731cd1df6167cbafa64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 08/36] fix: date-times generated with a pattern were not valid
 for it, or crashed, and valid or invalid values were not recognised

---
 rust/pact_models/src/generators/mod.rs |  20 ++--
 rust/pact_models/src/time_utils.rs     | 140 +++++++++++++++++--------
 2 files changed, 104 insertions(+), 56 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index b89addb..634949b 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -28,7 +28,7 @@ use crate::json_utils::{get_field_as_string, json_to_string, JsonToNum, resolve_
 use crate::matchingrules::{Category, MatchingRuleCategory};
 use crate::PactSpecification;
 use crate::path_exp::DocPath;
-#[cfg(feature = "datetime")] use crate::time_utils::{parse_pattern, to_chrono_pattern};
+#[cfg(feature = "datetime")] use crate::time_utils::{format_datetime, parse_pattern};
 
 #[cfg(feature = "datetime")] pub mod datetime_expressions;
 #[cfg(feature = "datetime")] mod date_expression_parser;
@@ -920,10 +920,7 @@ impl GenerateValue<String> for Generator {
           let date = execute_date_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => {
-                #[allow(deprecated)]
-                Ok(date.date().format(&to_chrono_pattern(&tokens)).to_string())
-              },
+              Ok(tokens) => Ok(format_datetime(&date, &tokens)),
               Err(err) => {
                 warn!("Date format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Date format {} is not valid - {}", pattern, err))
@@ -947,7 +944,7 @@ impl GenerateValue<String> for Generator {
           let time = execute_time_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => Ok(time.format(&to_chrono_pattern(&tokens)).to_string()),
+              Ok(tokens) => Ok(format_datetime(&time, &tokens)),
               Err(err) => {
                 warn!("Time format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Time format {} is not valid - {}", pattern, err))
@@ -971,7 +968,7 @@ impl GenerateValue<String> for Generator {
           let date_time = execute_datetime_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => Ok(date_time.format(&to_chrono_pattern(&tokens)).to_string()),
+              Ok(tokens) => Ok(format_datetime(&date_time, &tokens)),
               Err(err) => {
                 warn!("DateTime format {} is not valid - {}", pattern, err);
                 Err(anyhow!("DateTime format {} is not valid - {}", pattern, err))
@@ -1102,10 +1099,7 @@ impl GenerateValue<Value> for Generator {
           let date = execute_date_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => {
-                #[allow(deprecated)]
-                Ok(json!(date.date().format(&to_chrono_pattern(&tokens)).to_string()))
-              },
+              Ok(tokens) => Ok(json!(format_datetime(&date, &tokens))),
               Err(err) => {
                 warn!("Date format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Could not generate a random date from {} - {}", pattern, err))
@@ -1129,7 +1123,7 @@ impl GenerateValue<Value> for Generator {
           let time = execute_time_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => Ok(json!(time.format(&to_chrono_pattern(&tokens)).to_string())),
+              Ok(tokens) => Ok(json!(format_datetime(&time, &tokens))),
               Err(err) => {
                 warn!("Time format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Could not generate a random time from {} - {}", pattern, err))
@@ -1153,7 +1147,7 @@ impl GenerateValue<Value> for Generator {
           let date_time = execute_datetime_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => Ok(json!(date_time.format(&to_chrono_pattern(&tokens)).to_string())),
+              Ok(tokens) => Ok(json!(format_datetime(&date_time, &tokens))),
               Err(err) => {
                 warn!("DateTime format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Could not generate a random date-time from {} - {}", pattern, err))
diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index e5578e9..19e0f76 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -38,18 +38,17 @@
 use std::fmt::{Display, Formatter};
 
 use anyhow::anyhow;
-use chrono::Local;
+use chrono::{DateTime, Datelike, Local, TimeZone, Timelike};
 use gregorian::Month;
-use itertools::Itertools;
 use nom::branch::alt;
-use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while_m_n};
-use nom::character::complete::{alphanumeric1, char, digit1};
+use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while, take_while_m_n};
+use nom::character::complete::{char, digit1, one_of};
 use nom::combinator::{opt, value};
 use nom::Err::{Error, Failure};
 use nom::error::{ErrorKind, ParseError};
 use nom::IResult;
 use nom::multi::many1;
-use nom::sequence::{delimited, preceded, separated_pair, terminated, tuple};
+use nom::sequence::{delimited, preceded, terminated, tuple};
 use tracing::{debug, error, trace, warn};
 
 use crate::timezone_db::*;
@@ -292,11 +291,9 @@ fn quarter_pattern(s: &str) -> IResult<&str, DateTimePatternToken, DateTimePatte
 }
 
 fn quoted_text_pattern(s: &str) -> IResult<&str, DateTimePatternToken, DateTimePatternError<&str>> {
-  delimited(char('\''), many1(alt((tag("''"), is_not("'")))), char('\''))(s)
+  delimited(char('\''), many1(alt((value("'", tag("''")), is_not("'")))), char('\''))(s)
     .map(|(remaining, result)| {
-      (remaining, DateTimePatternToken::Text(result.join("").chars().coalesce(|x, y| {
-        if x == '\'' && y == '\'' { Ok('\'') } else { Err((x, y)) }
-      }).collect()))
+      (remaining, DateTimePatternToken::Text(result.concat()))
     })
 }
 
@@ -420,7 +417,9 @@ fn ampm(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn year(s: &str, count: usize) -> IResult<&str, String, DateTimeError<&str>> {
-  take_while_m_n(1, count, is_digit)(s)
+  // All counts other than two letters are for the full year
+  let max_digits = if count == 2 { 2 } else { count.max(4) };
+  take_while_m_n(1, max_digits, is_digit)(s)
     .map(|(remaining, result)| (remaining, result.into()))
 }
 
@@ -574,16 +573,24 @@ fn second(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn second_fraction(s: &str, count: usize) -> IResult<&str, String, DateTimeError<&str>> {
-  take_while_m_n(1, count, is_digit)(s).and_then(|(remaining, result)|{
-    match validate_number(result, "fraction of a second".into(), 0, usize::pow(10, count as u32) - 1) {
+  // Any number of digits up to the count is a valid fraction
+  take_while_m_n(1, count, is_digit)(s)
+    .map(|(remaining, result)| (remaining, result.into()))
+    .map_err(|_: nom::Err<DateTimeError<&str>>| Error(DateTimeError::InvalidSecondFraction(s.to_string())))
+}
+
+// Hours of a timezone offset, which can be up to 18 hours
+fn offset_hour(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
+  take_while_m_n(1, 2, is_digit)(s).and_then(|(remaining, result)|{
+    match validate_number(result, "timezone offset hour".into(), 0, 18) {
       Ok(_) => Ok((remaining, result.into())),
-      Err(_err) => Err(Error(DateTimeError::InvalidSecondFraction(result.to_string())))
+      Err(_err) => Err(Error(DateTimeError::InvalidTimezone(result.to_string())))
     }
   })
 }
 
 fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
-  tuple((is_a("+-"), hour_12_0, tag(":"), minute))(s)
+  tuple((one_of("+-"), offset_hour, tag(":"), minute))(s)
     .map(|(remaining, _result)| {
       (remaining, "")
     })
@@ -591,23 +598,23 @@ fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
 
 fn timezone_long_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1 => preceded(is_a("+-"), tuple((hour_12_0, opt(minute))))(s)
+    1 => preceded(one_of("+-"), tuple((offset_hour, opt(minute))))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1.unwrap_or_else(|| "".to_string()))
         }),
-    2 => preceded(is_a("+-"), tuple((hour_12_0, minute)))(s)
+    2 => preceded(one_of("+-"), tuple((offset_hour, minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1)
         }),
-    3 => preceded(is_a("+-"), tuple((hour_12_0, tag(":"), minute)))(s)
+    3 => preceded(one_of("+-"), tuple((offset_hour, tag(":"), minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + result.1 + &result.2)
         }),
-    4 => preceded(is_a("+-"), tuple((hour_12_0, minute, opt(second))))(s)
+    4 => preceded(one_of("+-"), tuple((offset_hour, minute, opt(second))))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1 + &result.2.unwrap_or_else(|| "".to_string()))
         }),
-    _ => preceded(is_a("+-"), tuple((hour_12_0, tag(":"), minute, opt(tuple((tag(":"), second))))))(s)
+    _ => preceded(one_of("+-"), tuple((offset_hour, tag(":"), minute, opt(tuple((tag(":"), second))))))(s)
         .map(|(remaining, result)| {
           let seconds = match &result.3 {
             Some((c, s)) => c.to_string() + s,
@@ -640,19 +647,19 @@ fn timezone(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn timezone_id(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
-  separated_pair(alphanumeric1, char('/'), alphanumeric1)(s).and_then(|(remaining, result)| {
-    let tz = format!("{}/{}", result.0, result.1);
-    if ZONES.contains(tz.as_str()) {
-      Ok((remaining, tz))
-    } else {
-      Err(Error(DateTimeError::InvalidTimezone(tz)))
-    }
-  })
+  let (_, id): (&str, &str) = take_while(
+    |ch: char| ch.is_ascii_alphanumeric() || "/_+-".contains(ch))(s)?;
+  match (1..=id.len()).rev().find(|end| ZONES.contains(&id[..*end])) {
+    Some(end) => Ok((&s[end..], id[..end].to_string())),
+    // Otherwise it can be an offset
+    None => timezone_long_offset_with_z(s, 3)
+      .map_err(|_| Error(DateTimeError::InvalidTimezone(id.to_string())))
+  }
 }
 
 fn timezone_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1..=3 => preceded(is_a("+-"), tuple((hour_12_0, minute)))(s)
+    1..=3 => preceded(one_of("+-"), tuple((offset_hour, minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1)
         }),
@@ -673,7 +680,7 @@ fn timezone_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&st
 
 fn timezone_offset_gmt(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1..=3 => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), hour_12_0, opt(preceded(tag(":"), minute)))))(s)
+    1..=3 => preceded(alt((tag("GMT"), tag("UTC"))), tuple((one_of("+-"), offset_hour, opt(preceded(tag(":"), minute)))))(s)
         .map(|(remaining, result)| {
           let minute = match result.2 {
             Some(result) => result,
@@ -681,7 +688,7 @@ fn timezone_offset_gmt(s: &str, d: usize) -> IResult<&str, String, DateTimeError
           };
           (remaining, result.1 + &minute)
         }),
-    _ => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), hour_12_0, tag(":"), minute)))(s)
+    _ => preceded(alt((tag("GMT"), tag("UTC"))), tuple((one_of("+-"), offset_hour, tag(":"), minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.1 + result.2 + &result.3)
         })
@@ -834,7 +841,7 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
     });
   let month = matched_values.iter()
     .find(|(token, _)| match token {
-      DateTimePatternToken::Month(_) => true,
+      DateTimePatternToken::Month(_) | DateTimePatternToken::MonthNum(_) => true,
       _ => false
     });
   let year = matched_values.iter()
@@ -846,10 +853,12 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
     // should be safe to unwrap here, as the value should have already been validated
     let day = day.parse::<u8>().unwrap();
     if let Some((_, year)) = year {
-      let year = year.parse::<i16>().unwrap();
+      // Leap years repeat every 400 years, so only the last four digits are needed
+      let year_start = year.len().saturating_sub(4);
+      let year_value = year[year_start..].parse::<i16>().unwrap();
       if let Some((_, month_str)) = month {
         // should be safe to unwrap here, as the value should have already been validated
-        let month = month_value(month_str).unwrap().with_year(year);
+        let month = month_value(month_str).unwrap().with_year(year_value);
         if day > month.total_days() {
           Err(format!("'{}' is not a valid day for month '{}' in year {}", day, month_str, year))
         } else {
@@ -861,7 +870,8 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
       }
     } else if let Some((_, month_str)) = month {
       // should be safe to unwrap here, as the value should have already been validated
-      let month = month_value(month_str).unwrap().with_year(2001);
+      // With no year, the date could be in a leap year
+      let month = month_value(month_str).unwrap().with_year(2000);
       if day > month.total_days() {
         Err(format!("'{}' is not a valid day for month '{}'", day, month_str))
       } else {
@@ -908,12 +918,12 @@ pub fn to_chrono_pattern(tokens: &[DateTimePatternToken]) -> String {
       DateTimePatternToken::Hour12ZeroBased => buffer.push_str("%I"),
       DateTimePatternToken::Minute => buffer.push_str("%M"),
       DateTimePatternToken::Second => buffer.push_str("%S"),
-      DateTimePatternToken::Millisecond(d) => if *d < 3 {
-        // something in chrono panics
-        buffer.push_str("%3f")
-      } else {
-        buffer.push_str(&format!("%{}f", *d))
-      },
+      // chrono only supports 3, 6 or 9 digits, and will panic with any other value
+      DateTimePatternToken::Millisecond(d) => buffer.push_str(match *d {
+        0..=3 => "%3f",
+        4..=6 => "%6f",
+        _ => "%9f"
+      }),
       DateTimePatternToken::Nanosecond(_d) => buffer.push_str("%f"),
       DateTimePatternToken::TimezoneName(_d) => buffer.push_str("%Z"),
       DateTimePatternToken::TimezoneId(_d) => buffer.push_str("%Z"),
@@ -928,15 +938,59 @@ pub fn to_chrono_pattern(tokens: &[DateTimePatternToken]) -> String {
   buffer
 }
 
+/// Formats the date/time with the date time pattern tokens, so that the result is valid for the
+/// pattern. Note that names of timezones are not supported.
+pub fn format_datetime<Tz>(date_time: &DateTime<Tz>, tokens: &[DateTimePatternToken]) -> String
+  where Tz: TimeZone, Tz::Offset: Display
+{
+  let format = |pattern: &str| date_time.format(pattern).to_string();
+  let quarter = date_time.month0() / 3 + 1;
+  let nanos = date_time.nanosecond() % 1_000_000_000;
+  let nanos_of_day = date_time.num_seconds_from_midnight() as u64 * 1_000_000_000 + nanos as u64;
+
+  tokens.iter().map(|token| {
+    match token {
+      DateTimePatternToken::WeekInYear => format("%V"),
+      DateTimePatternToken::WeekInMonth(from_one) => format!("{:02}", date_time.day0() / 7 + *from_one as u32),
+      DateTimePatternToken::DayOfWeek(d) if *d > 2 => format(if *d > 3 { "%A" } else { "%a" }),
+      DateTimePatternToken::Hour24 => format!("{:02}", (date_time.hour() + 23) % 24 + 1),
+      DateTimePatternToken::Hour12ZeroBased => format!("{:02}", date_time.hour() % 12),
+      DateTimePatternToken::Millisecond(d) => {
+        let mut fraction = format!("{:0<width$}", format!("{:09}", nanos), width = *d);
+        fraction.truncate(*d);
+        fraction
+      },
+      DateTimePatternToken::TimezoneOffset(d) => format(match *d {
+        0..=3 => "%z",
+        4 => "GMT%:z",
+        _ => "%:z"
+      }),
+      DateTimePatternToken::TimezoneOffsetX(d) |
+      DateTimePatternToken::TimezoneOffsetXZZero(d) => format(if *d == 3 || *d > 4 { "%:z" } else { "%z" }),
+      DateTimePatternToken::TimezoneOffsetGmt(_) => format("GMT%:z"),
+      DateTimePatternToken::QuarterOfYear(3) => format!("Q{}", quarter),
+      DateTimePatternToken::QuarterOfYear(d) if *d > 3 => match quarter {
+        1 => "1st quarter",
+        2 => "2nd quarter",
+        3 => "3rd quarter",
+        _ => "4th quarter"
+      }.to_string(),
+      DateTimePatternToken::QuarterOfYear(d) |
+      DateTimePatternToken::QuarterOfYearNum(d) => format!("{:0width$}", quarter, width = *d),
+      DateTimePatternToken::MillisecondOfDay => (nanos_of_day / 1_000_000).to_string(),
+      DateTimePatternToken::NanosecondOfDay => nanos_of_day.to_string(),
+      _ => format(to_chrono_pattern(std::slice::from_ref(token)).as_str())
+    }
+  }).collect()
+}
+
 /// Generates a date/time string from the current system clock using the provided format string
 pub fn generate_string(format: &str) -> Result<String, String> {
   trace!("generating date/time from '{}'", format);
   match parse_pattern(format) {
     Ok(pattern_tokens) => {
       trace!("parsed date/time patterns: {:?}", pattern_tokens);
-      let chrono_pattern = to_chrono_pattern(&pattern_tokens);
-      trace!("Chrono pattern: {}", chrono_pattern);
-      Ok(Local::now().format(chrono_pattern.as_str()).to_string())
+      Ok(format_datetime(&Local::now(), &pattern_tokens))
     },
     Err(err) => {
       error!("Error parsing '{}': {:?}", format, err);
-- 
2.43.0


From 5a280b97f7a01fe33498a236e69f69bfd45d8c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 09/36] fix: matching rules that did not survive being written
 as pact JSON and loaded again

---
 rust/pact_models/src/lib.rs               |  9 ++---
 rust/pact_models/src/matchingrules/mod.rs | 47 +++++++++++++++--------
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/rust/pact_models/src/lib.rs b/rust/pact_models/src/lib.rs
index e4efabe..6b94173 100644
--- a/rust/pact_models/src/lib.rs
+++ b/rust/pact_models/src/lib.rs
@@ -377,12 +377,11 @@ impl HttpStatus {
       },
       Value::Array(a) => {
         let status_codes = a.iter().map(|status| match status {
-          Value::Number(n) => if n.is_u64() {
-            Ok(n.as_u64().unwrap() as u16)
-          } else if n.is_i64() {
-            Ok(n.as_i64().unwrap() as u16)
-          } else {
+          Value::Number(n) => if n.is_f64() {
             Ok(n.as_f64().unwrap() as u16)
+          } else {
+            n.as_u64().and_then(|n| u16::try_from(n).ok())
+              .ok_or_else(|| anyhow!("'{}' is not a valid HTTP Status code", n))
           },
           Value::String(s) => s.parse::<u16>().map_err(|err| anyhow!(err)),
           _ => Err(anyhow!("'{}' is not a valid JSON value for an HTTP Status", status))
diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 8ca43e5..14f586b 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -57,6 +57,18 @@ fn rules_from_json(attributes: &Map<String, Value>) -> anyhow::Result<Vec<Either
   }
 }
 
+/// Path to a header or parameter with the given name, which may not be a path expression on its own
+fn path_for_name(name: String) -> DocPath {
+  match DocPath::new(&name) {
+    Ok(path) if *path.tokens() == [PathToken::Root, PathToken::Field(name.clone())] => path,
+    _ => {
+      let mut path = DocPath::root();
+      path.push_field(name);
+      path
+    }
+  }
+}
+
 /// Set of all matching rules
 #[derive(Debug, Clone, Eq)]
 pub enum MatchingRule {
@@ -299,13 +311,7 @@ impl MatchingRule {
       MatchingRule::Decimal => empty,
       MatchingRule::Null => empty,
       MatchingRule::ContentType(ct) => hashmap!{ "value" => Value::String(ct.clone()) },
-      MatchingRule::ArrayContains(variants) => hashmap! { "variants" =>
-        variants.iter().map(|(variant, rules, gens)| {
-          Value::Array(vec![json!(variant), rules.to_v3_json(), Value::Object(gens.iter().map(|(key, g)| {
-            (key.to_string(), g.to_json().unwrap())
-          }).collect())])
-        }).collect()
-      },
+      MatchingRule::ArrayContains(_) => hashmap! { "variants" => self.to_json()["variants"].clone() },
       MatchingRule::Values => empty,
       MatchingRule::Boolean => empty,
       MatchingRule::StatusCode(sc) => hashmap!{ "status" => sc.to_json() },
@@ -379,6 +385,10 @@ impl MatchingRule {
         Some(max) => Ok(MatchingRule::MaxType(max)),
         None => Err(anyhow!("Max matcher missing 'max' field")),
       },
+      "min-max-type" => match (json_to_num(attributes.get("min").cloned()), json_to_num(attributes.get("max").cloned())) {
+        (Some(min), Some(max)) => Ok(MatchingRule::MinMaxType(min, max)),
+        _ => Err(anyhow!("MinMax matcher missing 'min' or 'max' field")),
+      },
       "timestamp" | "datetime" => match attributes.get("format").or_else(|| attributes.get(rule_type)) {
         Some(s) => Ok(MatchingRule::Timestamp(json_to_string(s))),
         None => Ok(MatchingRule::Timestamp(String::default())),
@@ -1032,17 +1042,20 @@ impl MatchingRuleCategory {
         map.insert("$.path".to_string(), v.to_v2_json());
       }
       Category::BODY => for (k, v) in self.rules.clone() {
-        map.insert(String::from(k).replace("$", "$.body"), v.to_v2_json());
+        let path = String::from(k);
+        let key = match path.strip_prefix('$') {
+          Some(rest) => format!("$.body{}", rest),
+          None if path.is_empty() => "$.body".to_string(),
+          None => format!("$.body.{}", path)
+        };
+        map.insert(key, v.to_v2_json());
       }
-      Category::HEADER | Category::QUERY => for (k, v) in &self.rules {
+      _ => for (k, v) in &self.rules {
         let mut path = DocPath::root();
         path.push_field(self.name.v2_form());
         path.push_path(k);
         map.insert(path.to_string(), v.to_v2_json());
       }
-      _ => for (k, v) in &self.rules {
-        map.insert(format!("$.{}.{}", self.name.v2_form(), k), v.to_v2_json());
-      }
     };
 
     map
@@ -1145,9 +1158,11 @@ impl MatchingRuleCategory {
         }
       }
     } else if let Value::Object(m) = rules {
-      if m.contains_key("matchers") {
+      let by_name = self.name == Category::QUERY || self.name == Category::HEADER;
+      // a header or query parameter can also have the name "matchers"
+      if m.get("matchers").map(|matchers| !by_name || matchers.is_array()).unwrap_or(false) {
         self.add_rule_list(DocPath::empty(), rules)?;
-      } else if self.name == Category::QUERY || self.name == Category::HEADER {
+      } else if by_name {
         for (k, v) in m {
           let mut path = DocPath::root();
           path.push_field(k);
@@ -1367,7 +1382,7 @@ impl MatchingRules {
           _ => None
         }).skip(1).next();
         let header = header_name.ok_or_else(|| anyhow!("'{}' is not a valid path value for a matching rule", key))?;
-        self.add_v2_rule("header", DocPath::new(header)?, v)?;
+        self.add_v2_rule("header", path_for_name(header), v)?;
       } else {
         let path = DocPath::new(key)?;
         let mut names = path.tokens().iter().filter_map(|t| match t {
@@ -1378,7 +1393,7 @@ impl MatchingRules {
         let name = names.next();
         self.add_v2_rule(
           category,
-          if let Some(name) = name { DocPath::new(name)? } else { DocPath::empty() },
+          name.map(path_for_name).unwrap_or_else(DocPath::empty),
           v,
         )?;
       }
-- 
2.43.0


From 5fc160ef3108a2c82a77d4ff7c0a3ad67d9dc3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 10/36] fix: generators that crashed, gave values not of their
 kind, or changed another part of the document

---
 .../src/generators/form_urlencoded.rs         |  3 +-
 rust/pact_models/src/generators/mod.rs        | 73 +++++++++++--------
 rust/pact_models/src/json_utils.rs            |  9 ++-
 3 files changed, 51 insertions(+), 34 deletions(-)

diff --git a/rust/pact_models/src/generators/form_urlencoded.rs b/rust/pact_models/src/generators/form_urlencoded.rs
index 09ae0f2..80361f4 100644
--- a/rust/pact_models/src/generators/form_urlencoded.rs
+++ b/rust/pact_models/src/generators/form_urlencoded.rs
@@ -48,7 +48,8 @@ impl ContentTypeHandler<String> for FormUrlEncodedHandler {
     let mut map: HashMap<String, usize> = HashMap::new();
     for (param_key, param_value) in self.params.iter_mut() {
       let index = map.entry(param_key.clone()).or_insert(0);
-      if key.eq(&DocPath::root().join(param_key.clone())) || key.eq(&DocPath::root().join(param_key.clone()).join_index(*index)) {
+      let param_path = DocPath::root().join_field(param_key.clone());
+      if key.tokens() == param_path.tokens() || key.tokens() == param_path.join_index(*index).tokens() {
         return match generator.generate_value(&param_value, context, matcher) {
           Ok(new_value) => *param_value = new_value,
           Err(_) => ()
diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 634949b..24c7496 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -270,7 +270,7 @@ impl Generator {
       }
       Generator::RandomDecimal(digits) => hashmap!{ "digits" => json!(digits) },
       Generator::RandomHexadecimal(digits) => hashmap!{ "digits" => json!(digits) },
-      Generator::RandomString(digits) => hashmap!{ "digits" => json!(digits) },
+      Generator::RandomString(size) => hashmap!{ "size" => json!(size) },
       Generator::Regex(r) => hashmap!{ "regex" => json!(r) },
       Generator::Date(format, exp) => {
         match (format, exp) {
@@ -298,7 +298,7 @@ impl Generator {
       }
       Generator::RandomBoolean => empty,
       Generator::ProviderStateGenerator(exp, data_type) => if let Some(data_type) = data_type {
-        hashmap!{ "expression" => Value::String(exp.clone()), "data_type" => data_type.into() }
+        hashmap!{ "expression" => Value::String(exp.clone()), "dataType" => data_type.into() }
       } else {
         hashmap!{ "expression" => Value::String(exp.clone()) }
       }
@@ -816,7 +816,16 @@ pub fn generate_decimal(digits: usize) -> String {
 const HEX_CHARSET: &str = "0123456789ABCDEF";
 pub fn generate_hexadecimal(digits: usize) -> String {
   let mut rnd = rand::thread_rng();
-  HEX_CHARSET.chars().choose_multiple(&mut rnd, digits).iter().join("")
+  let chars: Vec<char> = HEX_CHARSET.chars().collect();
+  (0..digits).map(|_| *chars.choose(&mut rnd).unwrap()).collect()
+}
+
+fn random_int(min: i32, max: i32) -> anyhow::Result<i32> {
+  if min <= max {
+    Ok(rand::thread_rng().gen_range(min..=max))
+  } else {
+    Err(anyhow!("Can not generate a random integer, as there is none from {} to {}", min, max))
+  }
 }
 
 impl GenerateValue<u16> for Generator {
@@ -827,7 +836,7 @@ impl GenerateValue<u16> for Generator {
     _matcher: &Box<dyn VariantMatcher + Send + Sync>
   ) -> anyhow::Result<u16> {
     match self {
-      &Generator::RandomInt(min, max) => Ok(rand::thread_rng().gen_range(min as u16..(max as u16).saturating_add(1))),
+      &Generator::RandomInt(min, max) => random_int(min.max(0), max.min(u16::MAX as i32)).map(|val| val as u16),
       &Generator::ProviderStateGenerator(ref exp, ref dt) => {
         // Provider state values may come under a "providerState" key
         let provider_state_config = if let Some(Object(psc)) = context.get("providerState") {
@@ -853,24 +862,32 @@ pub fn generate_ascii_string(size: usize) -> String {
 }
 
 fn strip_anchors(regex: &str) -> &str {
-  regex
-    .strip_prefix('^').unwrap_or(regex)
-    .strip_suffix('$').unwrap_or(regex)
+  let regex = regex.strip_prefix('^').unwrap_or(regex);
+  match regex.strip_suffix('$') {
+    // the anchor may be an escaped dollar sign
+    Some(stripped) if stripped.chars().rev().take_while(|ch| *ch == '\\').count() % 2 == 0 => stripped,
+    _ => regex
+  }
 }
 
 #[cfg(not(target_family = "wasm"))]
-fn replace_with_regex(example: &String, url: String, re: Regex) -> String {
-  re.replace(example, |caps: &Captures| {
-    format!("{}{}", url, caps.at(1).unwrap())
-  }).to_string()
+fn replace_with_regex(example: &String, url: String, re: Regex) -> anyhow::Result<String> {
+  match re.captures(example) {
+    Some(caps) if caps.at(1).is_none() => Err(anyhow!("MockServerURL: '{}' has no path from the regular expression", example)),
+    _ => Ok(re.replace(example, |caps: &Captures| {
+      format!("{}{}", url, caps.at(1).unwrap_or_default())
+    }).to_string())
+  }
 }
 
 #[cfg(target_family = "wasm")]
-fn replace_with_regex(example: &String, url: String, re: Regex) -> String {
-  re.replace(example, |caps: &Captures| {
-    let m = caps.get(1).unwrap();
-    format!("{}{}", url, m.as_str())
-  }).to_string()
+fn replace_with_regex(example: &String, url: String, re: Regex) -> anyhow::Result<String> {
+  match re.captures(example) {
+    Some(caps) if caps.get(1).is_none() => Err(anyhow!("MockServerURL: '{}' has no path from the regular expression", example)),
+    _ => Ok(re.replace(example, |caps: &Captures| {
+      format!("{}{}", url, caps.get(1).map(|m| m.as_str()).unwrap_or_default())
+    }).to_string())
+  }
 }
 
 impl GenerateValue<String> for Generator {
@@ -882,7 +899,7 @@ impl GenerateValue<String> for Generator {
   ) -> anyhow::Result<String> {
     let mut rnd = rand::thread_rng();
     let result = match self {
-      Generator::RandomInt(min, max) => Ok(format!("{}", rnd.gen_range(*min..max.saturating_add(1)))),
+      Generator::RandomInt(min, max) => random_int(*min, *max).map(|val| val.to_string()),
       Generator::Uuid(format) => match format.unwrap_or_default() {
         UuidFormat::Simple => Ok(Uuid::new_v4().as_simple().to_string()),
         UuidFormat::LowerCaseHyphenated => Ok(Uuid::new_v4().as_hyphenated().to_string()),
@@ -1004,9 +1021,10 @@ impl GenerateValue<String> for Generator {
         debug!("Generating URL from Mock Server details");
         match mock_server_details.as_object() {
           Some(mock_server_details) => {
-            match get_field_as_string("url", mock_server_details) {
+            match get_field_as_string("url", mock_server_details)
+              .or_else(|| get_field_as_string("href", mock_server_details)) {
               Some(url) => match Regex::new(regex) {
-                Ok(re) => Ok(replace_with_regex(example, url, re)),
+                Ok(re) => replace_with_regex(example, url, re),
                 Err(err) => Err(anyhow!("MockServerURL: Failed to generate value: {}", err))
               },
               None => Err(anyhow!("MockServerURL: can not generate a value as there is no mock server 'url' in the test context {:?}", context))
@@ -1045,21 +1063,18 @@ impl GenerateValue<Value> for Generator {
     debug!(context = ?context, "Generating value from {:?}", self);
     let result = match self {
       Generator::RandomInt(min, max) => {
-        let rand_int = rand::thread_rng().gen_range(*min..max.saturating_add(1));
+        let rand_int = random_int(*min, *max)?;
         match value {
           Value::String(_) => Ok(json!(format!("{}", rand_int))),
           Value::Number(_) => Ok(json!(rand_int)),
           _ => Ok(json!(rand_int))
         }
       },
-      Generator::Uuid(format) => match value {
-        Value::String(_) => match format.unwrap_or_default() {
-          UuidFormat::Simple => Ok(json!(Uuid::new_v4().as_simple().to_string())),
-          UuidFormat::LowerCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string())),
-          UuidFormat::UpperCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string().to_uppercase())),
-          UuidFormat::Urn => Ok(json!(Uuid::new_v4().as_urn().to_string()))
-        },
-        _ => Ok(json!(Uuid::new_v4().as_hyphenated().to_string()))
+      Generator::Uuid(format) => match format.unwrap_or_default() {
+        UuidFormat::Simple => Ok(json!(Uuid::new_v4().as_simple().to_string())),
+        UuidFormat::LowerCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string())),
+        UuidFormat::UpperCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string().to_uppercase())),
+        UuidFormat::Urn => Ok(json!(Uuid::new_v4().as_urn().to_string()))
       },
       Generator::RandomDecimal(digits) => match value {
         Value::String(_) => Ok(json!(generate_decimal(*digits as usize))),
@@ -1185,7 +1200,7 @@ impl GenerateValue<Value> for Generator {
               match get_field_as_string("url", mock_server_details)
                 .or_else(|| get_field_as_string("href", mock_server_details)) {
                 Some(url) => match Regex::new(regex) {
-                  Ok(re) => Ok(Value::String(replace_with_regex(example, url, re))),
+                  Ok(re) => replace_with_regex(example, url, re).map(Value::String),
                   Err(err) => Err(anyhow!("MockServerURL: Failed to generate value: {}", err))
                 },
                 None => Err(anyhow!("MockServerURL: can not generate a value as there is no mock server URL in the test context"))
diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 53f2d12..e1ea6d7 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -28,7 +28,7 @@ impl JsonToNum<i32> for i32 {
     match map.get(field) {
       Some(Value::Number(num)) => {
          match num.as_i64() {
-          Some(num) => num as i32,
+          Some(num) => i32::try_from(num).unwrap_or(default),
           None => default
         }
       },
@@ -42,7 +42,7 @@ impl JsonToNum<u16> for u16 {
     match map.get(field) {
       Some(Value::Number(num)) => {
         match num.as_u64() {
-          Some(num) => num as u16,
+          Some(num) => u16::try_from(num).unwrap_or(default),
           None => default
         }
       },
@@ -239,8 +239,9 @@ pub fn resolve_path(value: &Value, expression: &DocPath) -> Vec<String> {
   query_object_graph(expression.tokens(), &mut tree, root, value.clone());
   let expanded_paths = root.descendants(&tree).fold(Vec::<String>::new(), |mut acc, node_id| {
     let node = tree.index(node_id);
-    if !node.get().is_empty() && node.first_child().is_none() {
-      let path: Vec<String> = node_id.ancestors(&tree).map(|n| format!("{}", tree.index(n).get())).collect();
+    if node.parent().is_some() && node.first_child().is_none() {
+      let path: Vec<String> = node_id.ancestors(&tree)
+        .map(|n| tree.index(n).get().replace('~', "~0").replace('/', "~1")).collect();
       if path.len() == expression.len() {
         acc.push(path.iter().rev().join("/"));
       }
-- 
2.43.0


From 271450f6e460c735ae85df1be8792316b4a56d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:14 +0000
Subject: [PATCH 11/36] fix: matching rule definitions: decimals, quotes and
 escapes in strings, errors at the end, atLeast and atMost

---
 .../src/matchingrules/expressions.rs          | 85 ++++++-------------
 1 file changed, 28 insertions(+), 57 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index f6de6eb..c088b38 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -253,7 +253,7 @@ impl MatchingRuleDefinition {
   }
 }
 
-#[derive(Logos, Debug, PartialEq)]
+#[derive(Logos, Clone, Debug, PartialEq)]
 #[logos(skip r"[ \t\n\f]+")]
 enum MatcherDefinitionToken {
   #[token("matching")]
@@ -283,7 +283,7 @@ enum MatcherDefinitionToken {
   #[token(",")]
   Comma,
 
-  #[regex(r"'(?:[^']|\\')*'")]
+  #[regex(r"'(?:[^'\\]|\\[^']|\\')*\\?'")]
   String,
 
   #[regex("[a-zA-Z]+")]
@@ -295,7 +295,7 @@ enum MatcherDefinitionToken {
   #[regex("[0-9]+", |lex| lex.slice().parse().ok())]
   Num(usize),
 
-  #[regex(r"-?[0-9]\.[0-9]+")]
+  #[regex(r"-?[0-9]+\.[0-9]+")]
   Decimal,
 
   #[regex(r"\.[0-9]+")]
@@ -337,7 +337,8 @@ pub fn is_matcher_def(v: &str) -> bool {
     let next = lex.next();
     if let Some(Ok(token)) = next {
       if token == MatcherDefinitionToken::Matching || token == MatcherDefinitionToken::NotEmpty ||
-        token == MatcherDefinitionToken::EachKey || token == MatcherDefinitionToken::EachValue {
+        token == MatcherDefinitionToken::EachKey || token == MatcherDefinitionToken::EachValue ||
+        token == MatcherDefinitionToken::AtLeast || token == MatcherDefinitionToken::AtMost {
         true
       } else {
         false
@@ -353,8 +354,8 @@ pub fn is_matcher_def(v: &str) -> bool {
 //     ;
 fn matching_definition(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<MatchingRuleDefinition> {
   let mut value = matching_definition_exp(lex, v)?;
-  while let Some(Ok(next)) = lex.next() {
-    if next == MatcherDefinitionToken::Comma {
+  while let Some(next) = lex.next() {
+    if let Ok(MatcherDefinitionToken::Comma) = next {
       value = value.merge(&matching_definition_exp(lex, v)?);
     } else {
       return Err(anyhow!("expected comma, got '{}'", lex.slice()));
@@ -711,14 +712,18 @@ fn parse_type(
   Ok((value, value_type, Some(MatchingRule::Type), generator, None))
 }
 
+fn is_provider_state_next(lex: &Lexer<MatcherDefinitionToken>) -> bool {
+  let mut lookahead = lex.clone();
+  lookahead.next() == Some(Ok(MatcherDefinitionToken::Id)) && lookahead.slice() == "fromProviderState"
+}
+
 // COMMA format=string COMMA s=(string | 'fromProviderState' fromProviderState)
 fn parse_datetime(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<(String, ValueType, Option<MatchingRule>, Option<Generator>, Option<MatchingReference>)> {
   parse_comma(lex, v)?;
   let format = parse_string(lex, v)?;
   parse_comma(lex, v)?;
 
-  let remainder = lex.remainder().trim_start();
-  let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
+  let (value, value_type, generator) = if is_provider_state_next(lex) {
     lex.next();
     from_provider_state(lex, v)?
   } else {
@@ -734,8 +739,7 @@ fn parse_date(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Resul
   let format = parse_string(lex, v)?;
   parse_comma(lex, v)?;
 
-  let remainder = lex.remainder().trim_start();
-  let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
+  let (value, value_type, generator) = if is_provider_state_next(lex) {
     lex.next();
     from_provider_state(lex, v)?
   } else {
@@ -751,8 +755,7 @@ fn parse_time(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Resul
   let format = parse_string(lex, v)?;
   parse_comma(lex, v)?;
 
-  let remainder = lex.remainder().trim_start();
-  let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
+  let (value, value_type, generator) = if is_provider_state_next(lex) {
     lex.next();
     from_provider_state(lex, v)?
   } else {
@@ -797,30 +800,10 @@ fn parse_primitive_value(
 ) -> anyhow::Result<(String, ValueType, Option<Generator>)> {
   let next = lex.next().ok_or_else(|| end_of_expression(v, "expected a primitive value"))?;
   match next {
-    Ok(MatcherDefinitionToken::String) => Ok((lex.slice().trim_matches('\'').to_string(), ValueType::String, None)),
+    Ok(MatcherDefinitionToken::String) => Ok((string_contents(lex, v)?, ValueType::String, None)),
     Ok(MatcherDefinitionToken::Null) => Ok((String::new(), ValueType::String, None)),
-    Ok(MatcherDefinitionToken::Int(_)) => {
-      // Logos is returning an INT token when a Decimal should match. We need to now parse the
-      // remaining pattern if it is a decimal
-      if lex.remainder().starts_with('.') {
-        let int_part = lex.slice();
-        let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
-        Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, None))
-      } else {
-        Ok((lex.slice().to_string(), ValueType::Integer, None))
-      }
-    },
-    Ok(MatcherDefinitionToken::Num(_)) => {
-      // Logos is returning an NUM token when a Decimal should match. We need to now parse the
-      // remaining pattern if it is a decimal
-      if lex.remainder().starts_with('.') {
-        let int_part = lex.slice();
-        let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
-        Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, None))
-      } else {
-        Ok((lex.slice().to_string(), ValueType::Integer, None))
-      }
-    },
+    Ok(MatcherDefinitionToken::Int(_)) => Ok((lex.slice().to_string(), ValueType::Integer, None)),
+    Ok(MatcherDefinitionToken::Num(_)) => Ok((lex.slice().to_string(), ValueType::Integer, None)),
     Ok(MatcherDefinitionToken::Decimal) => Ok((lex.slice().to_string(), ValueType::Decimal, None)),
     Ok(MatcherDefinitionToken::Boolean) => Ok((lex.slice().to_string(), ValueType::Boolean, None)),
     Ok(MatcherDefinitionToken::Id) if lex.slice() == "fromProviderState" && !already_called => {
@@ -838,15 +821,7 @@ fn parse_number(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
   if let Ok(MatcherDefinitionToken::Decimal) = next {
     Ok((lex.slice().to_string(), ValueType::Number,  Some(MatchingRule::Number), None, None))
   } else if let Ok(MatcherDefinitionToken::Int(_) | MatcherDefinitionToken::Num(_)) = next {
-    // Logos is returning an INT token when a Decimal should match. We need to now parse the
-    // remaining pattern if it is a decimal
-    if lex.remainder().starts_with('.') {
-      let int_part = lex.slice();
-      let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
-      Ok((format!("{}{}", int_part, lex.slice()), ValueType::Number, Some(MatchingRule::Number), None, None))
-    } else {
-      Ok((lex.slice().to_string(), ValueType::Number, Some(MatchingRule::Number), None, None))
-    }
+    Ok((lex.slice().to_string(), ValueType::Number, Some(MatchingRule::Number), None, None))
   } else if let Ok(MatcherDefinitionToken::Id) = next {
     if lex.slice() == "fromProviderState" {
       let (value, value_type, generator) = from_provider_state(lex, v)?;
@@ -883,21 +858,13 @@ fn parse_decimal(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Re
   parse_comma(lex, v)?;
   let next = lex.next().ok_or_else(|| end_of_expression(v, "expected a decimal number"))?;
   if let Ok(MatcherDefinitionToken::Int(_) | MatcherDefinitionToken::Num(_)) = next {
-    // Logos is returning an INT token when a Decimal should match. We need to now parse the
-    // remaining pattern if it is a decimal
-    if lex.remainder().starts_with('.') {
-      let int_part = lex.slice();
-      let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
-      Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
-    } else {
-      Ok((lex.slice().to_string(), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
-    }
+    Ok((lex.slice().to_string(), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
   } else if let Ok(MatcherDefinitionToken::Decimal) = next {
     Ok((lex.slice().to_string(), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
   } else if let Ok(MatcherDefinitionToken::Id) = next {
     if lex.slice() == "fromProviderState" {
       let (value, value_type, generator) = from_provider_state(lex, v)?;
-      Ok((value, value_type, Some(MatchingRule::Number), generator, None))
+      Ok((value, value_type, Some(MatchingRule::Decimal), generator, None))
     } else {
       Err(anyhow!(error_message(lex, v, "Expected a decimal number", "Expected a decimal number here")?))
     }
@@ -920,9 +887,7 @@ fn parse_boolean(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Re
 fn parse_string(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<String> {
   let next = lex.next().ok_or_else(|| end_of_expression(v, "a string"))?;
   if let Ok(MatcherDefinitionToken::String) = next {
-    let span = lex.span();
-    let raw_str = lex.slice().trim_matches('\'');
-    process_raw_string(raw_str, span, v)
+    string_contents(lex, v)
   } else {
     let mut buffer = BytesMut::new().writer();
     let span = lex.span();
@@ -938,6 +903,12 @@ fn parse_string(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
   }
 }
 
+// Contents of the current string token, without the surrounding quotes
+fn string_contents(lex: &Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<String> {
+  let slice = lex.slice();
+  process_raw_string(&slice[1..slice.len() - 1], lex.span(), v)
+}
+
 fn process_raw_string(raw_str: &str, span: Span, v: &str) -> anyhow::Result<String> {
   let mut buffer = String::with_capacity(raw_str.len());
   let mut chars = raw_str.chars();
-- 
2.43.0


From 9b8da265fa128b63d95b164b08dd9ecc2bef8c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:15 +0000
Subject: [PATCH 12/36] fix: content types: attributes that need quotes,
 detection at the start of the content, message metadata, bytes in hexadecimal

---
 rust/pact_models/src/bodies.rs           |  4 ++--
 rust/pact_models/src/content_types.rs    | 25 ++++++++++++++++++++----
 rust/pact_models/src/json_utils.rs       |  7 +------
 rust/pact_models/src/message.rs          |  5 ++++-
 rust/pact_models/src/v4/http_parts.rs    |  8 ++++----
 rust/pact_models/src/v4/message_parts.rs | 10 ++++++++--
 rust/pact_models/src/v4/mod.rs           |  2 +-
 7 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/rust/pact_models/src/bodies.rs b/rust/pact_models/src/bodies.rs
index 60e0628..d831e5a 100644
--- a/rust/pact_models/src/bodies.rs
+++ b/rust/pact_models/src/bodies.rs
@@ -189,13 +189,13 @@ impl OptionalBody {
   pub(crate) fn display_bytes(&self, max_bytes: usize) -> String {
     if let OptionalBody::Present(bytes, _, _) = self {
       if bytes.len() <= max_bytes {
-        let b_str: String = bytes.iter().map(|b| format!("{:0X}", b)).collect();
+        let b_str: String = bytes.iter().map(|b| format!("{:02X}", b)).collect();
         format!("{} ({} bytes)", b_str, bytes.len())
       } else {
         let b_str: String = bytes
           .slice(0..max_bytes)
           .iter()
-          .map(|b| format!("{:0X}", b))
+          .map(|b| format!("{:02X}", b))
           .collect();
         format!("{}... ({} bytes)", b_str, bytes.len())
       }
diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index 38442d3..88184d6 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -63,7 +63,7 @@ lazy_static! {
   };
 
   static ref XMLREGEXP: Regex = Regex::new(r"^\s*<\?xml\s*version.*").unwrap();
-  static ref HTMLREGEXP: Regex = Regex::new(r"^\s*(<!DOCTYPE)|(<HTML>).*").unwrap();
+  static ref HTMLREGEXP: Regex = Regex::new(r"^\s*((<!DOCTYPE)|(<HTML>)).*").unwrap();
   static ref JSONREGEXP: Regex = Regex::new(r#"^\s*(true|false|null|[0-9]+|"\w*|\{\s*(}|"\w+)|\[\s*)"#).unwrap();
   static ref XMLREGEXP2: Regex = Regex::new(r#"^\s*<\w+\s*(:\w+=["”][^"”]+["”])?.*"#).unwrap();
 }
@@ -148,7 +148,8 @@ impl ContentType {
       self.attributes.is_empty() || self.attributes == other.attributes
     }
     else if self.attributes.is_empty() {
-      self.main_type == other.main_type && self.sub_type == other.sub_type
+      self.main_type == other.main_type && self.sub_type == other.sub_type &&
+        self.suffix == other.suffix
     } else {
       self == other
     }
@@ -177,6 +178,12 @@ impl Default for ContentType {
   }
 }
 
+/// If the character can be part of a token (RFC 9110). Attribute values with any other characters
+/// have to be quoted.
+fn is_token_char(ch: u8) -> bool {
+  ch.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&ch)
+}
+
 impl Display for ContentType {
   fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
     let base = if let Some(suffix) = &self.suffix {
@@ -188,7 +195,11 @@ impl Display for ContentType {
       write!(f, "{}", base)
     } else {
       write!(f, "{};{}", base, self.attributes.iter()
-        .map(|(key, value)| format!("{}={}", key, value)).join(";"))
+        .map(|(key, value)| if value.bytes().all(is_token_char) {
+          format!("{}={}", key, value)
+        } else {
+          format!("{}=\"{}\"", key, value)
+        }).join(";"))
     }
   }
 }
@@ -293,7 +304,13 @@ pub fn detect_content_type_from_bytes(s: &[u8]) -> Option<ContentType> {
   } else {
     s
   };
-  match from_utf8(header) {
+  let text = from_utf8(header).or_else(|err| if s.len() > 32 && err.error_len().is_none() {
+    // the last character was cut off
+    from_utf8(&header[..err.valid_up_to()])
+  } else {
+    Err(err)
+  });
+  match text {
     Ok(s) => {
       if is_match(&XMLREGEXP, s) {
         Some(XML.clone())
diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index e1ea6d7..aabfcf1 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -151,12 +151,7 @@ enum JsonParsable {
 pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap<String, Vec<String>>>) -> OptionalBody {
   let content_type = match headers {
     Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-      Some(kv) => {
-        match ContentType::parse(kv.1[0].as_str()) {
-          Ok(v) => Some(v),
-          Err(_) => None
-        }
-      },
+      Some(kv) => kv.1.first().and_then(|v| ContentType::parse(v.as_str()).ok()),
       None => None
     },
     None => None
diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index 77daa56..6d697ea 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -350,7 +350,10 @@ impl HttpPart for Message {
     self.metadata.iter().find(|(k, _)| {
       let key = k.to_ascii_lowercase();
       key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(&v[0]))
+    }).map(|(_, v)| match v {
+      Value::Array(values) => values.first().map(json_to_string).unwrap_or_default(),
+      _ => json_to_string(v)
+    })
   }
 
   fn add_header(&mut self, key: &str, val: Vec<&str>) {
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index 0630fcd..d6cb6eb 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -397,15 +397,15 @@ fn content_type_from_json(headers: &Option<HashMap<String, Vec<String>>>, body_a
       debug!("Body has no content type set, will default to any headers or metadata");
       match headers {
         Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-          Some((_, v)) => {
-            match ContentType::parse(v[0].as_str()) {
+          Some((_, v)) => v.first().and_then(|v| {
+            match ContentType::parse(v.as_str()) {
               Ok(v) => Some(v),
               Err(err) => {
-                warn!("Failed to parse body content type '{}' - {}", v[0], err);
+                warn!("Failed to parse body content type '{}' - {}", v, err);
                 None
               }
             }
-          },
+          }),
           None => None
         },
         None => None
diff --git a/rust/pact_models/src/v4/message_parts.rs b/rust/pact_models/src/v4/message_parts.rs
index 8e9ef9b..b1ee759 100644
--- a/rust/pact_models/src/v4/message_parts.rs
+++ b/rust/pact_models/src/v4/message_parts.rs
@@ -170,12 +170,18 @@ impl HttpPart for MessageContents {
     self.metadata.iter().find(|(k, _)| {
       let key = k.to_ascii_lowercase();
       key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(&v[0]))
+    }).map(|(_, v)| match v {
+      Value::Array(values) => values.first().map(json_to_string).unwrap_or_default(),
+      _ => json_to_string(v)
+    })
   }
 }
 
 pub(crate) fn metadata_to_headers(metadata: &HashMap<String, Value>) -> Option<HashMap<String, Vec<String>>> {
-  metadata.get("contentType").map(|content_type| {
+  metadata.iter().find(|(k, _)| {
+    let key = k.to_ascii_lowercase();
+    key == "contenttype" || key == "content-type"
+  }).map(|(_, content_type)| {
     hashmap! {
       "Content-Type".to_string() => vec![ json_to_string(content_type) ]
     }
diff --git a/rust/pact_models/src/v4/mod.rs b/rust/pact_models/src/v4/mod.rs
index 2ecd476..4ad33ab 100644
--- a/rust/pact_models/src/v4/mod.rs
+++ b/rust/pact_models/src/v4/mod.rs
@@ -65,7 +65,7 @@ pub fn calc_content_type(body: &OptionalBody, headers: &Option<HashMap<String, V
   body.content_type()
     .or_else(|| headers.as_ref().map(|h| {
       match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-        Some((_, v)) => ContentType::parse(v[0].as_str()).ok(),
+        Some((_, v)) => v.first().and_then(|v| ContentType::parse(v.as_str()).ok()),
         None => None
       }
     }).flatten())
-- 
2.43.0


From 0c347ba6233fbf77170ea56a033b5aef5c1db6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:27 +0000
Subject: [PATCH 13/36] fix: generators of V3 messages are read; messages in a
 pact of an unknown specification version are read as V3

---
 rust/pact_models/src/message.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index 6d697ea..b5ada00 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -15,7 +15,7 @@ use tracing::warn;
 
 use crate::bodies::OptionalBody;
 use crate::content_types::ContentType;
-use crate::generators::{Generators, generators_to_json};
+use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
 use crate::interaction::Interaction;
 use crate::json_utils::{body_from_json, json_to_string};
@@ -184,7 +184,7 @@ impl Message {
     /// Constructs a `Message` from the `Json` struct.
     pub fn from_json(index: usize, json: &Value, spec_version: &PactSpecification) -> anyhow::Result<Message> {
         match spec_version {
-            PactSpecification::V3 => {
+            PactSpecification::V3 | PactSpecification::Unknown => {
                 let id = json.get("_id").map(|id| json_to_string(id));
                 let description = match json.get("description") {
                     Some(v) => match *v {
@@ -226,7 +226,7 @@ impl Message {
                   contents: body,
                   matching_rules: matchers_from_json(json, &None)?,
                   metadata,
-                  generators: Generators::default(),
+                  generators: generators_from_json(json)?,
                 })
             },
             _ => Err(anyhow!("Messages require Pact Specification version 3"))
-- 
2.43.0


From d48bddcb2cf2212590cd3eb0203c447ba3bcbd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 14/36] fix: bodies and query strings that were lost or changed
 when a pact was written and loaded

---
 rust/pact_models/src/bodies.rs           |  3 +++
 rust/pact_models/src/json_utils.rs       | 17 +++++++++++++++--
 rust/pact_models/src/request.rs          | 12 ++++--------
 rust/pact_models/src/response.rs         |  8 ++------
 rust/pact_models/src/v4/async_message.rs |  3 ++-
 rust/pact_models/src/v4/http_parts.rs    |  3 ++-
 6 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/rust/pact_models/src/bodies.rs b/rust/pact_models/src/bodies.rs
index d831e5a..a0e06f5 100644
--- a/rust/pact_models/src/bodies.rs
+++ b/rust/pact_models/src/bodies.rs
@@ -144,6 +144,9 @@ impl OptionalBody {
         let content_type_override = ct_override.unwrap_or_default();
         let (contents, encoded) = if content_type.is_json() {
           match serde_json::from_slice(bytes) {
+            // An empty string or null as the content is read as an empty or null body
+            Ok(Value::Null) => (Value::String("null".to_string()), Value::String("json".to_string())),
+            Ok(Value::String(s)) if s.is_empty() => (Value::String("\"\"".to_string()), Value::String("json".to_string())),
             Ok(json_body) => (json_body, Value::Bool(false)),
             Err(err) => {
               warn!("Failed to parse json body: {}", err);
diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index aabfcf1..1ef7e0e 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -3,7 +3,7 @@
 use std::collections::{BTreeMap, HashMap};
 use std::hash::{Hash, Hasher};
 use std::ops::Index;
-use std::str::FromStr;
+use std::str::{from_utf8, FromStr};
 
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
@@ -169,7 +169,7 @@ pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap
           if content_type.is_json() {
             match serde_json::from_str::<JsonParsable>(s) {
               Ok(_) => OptionalBody::Present(s.clone().into(), Some(content_type), None),
-              Err(_) => OptionalBody::Present(format!("\"{}\"", s).into(), Some(content_type), None)
+              Err(_) => OptionalBody::Present(v.to_string().into(), Some(content_type), None)
             }
           } else if content_type.is_text() {
             OptionalBody::Present(s.clone().into(), Some(content_type), None)
@@ -188,6 +188,19 @@ pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap
   }
 }
 
+/// Converts a body which is not JSON to a JSON string. Strings are decoded when the body is loaded
+/// if the content type header is for a binary type, so any that look encoded must be encoded as well.
+pub(crate) fn text_body_to_json(body: &[u8], content_type_header: Option<String>) -> Value {
+  let binary = content_type_header
+    .and_then(|header| ContentType::parse(header.as_str()).ok())
+    .map(|content_type| content_type.is_binary())
+    .unwrap_or_default();
+  match from_utf8(body) {
+    Ok(s) if !(binary && BASE64.decode(s).is_ok()) => Value::String(s.to_string()),
+    _ => Value::String(BASE64.encode(body))
+  }
+}
+
 /// Deep merges the other value into the given value
 pub fn json_deep_merge(value: &Value, other: &Value) -> Value {
   match (value, other) {
diff --git a/rust/pact_models/src/request.rs b/rust/pact_models/src/request.rs
index 4a12198..6027a97 100644
--- a/rust/pact_models/src/request.rs
+++ b/rust/pact_models/src/request.rs
@@ -3,7 +3,6 @@
 use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
 use std::hash::{Hash, Hasher};
-use std::str::from_utf8;
 
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
@@ -16,7 +15,7 @@ use crate::{DifferenceType, PactSpecification};
 use crate::bodies::OptionalBody;
 use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
-use crate::json_utils::{body_from_json, headers_from_json, headers_to_json};
+use crate::json_utils::{body_from_json, headers_from_json, headers_to_json, text_body_to_json};
 use crate::matchingrules::{matchers_from_json, matchers_to_json, MatchingRules};
 use crate::query_strings::{query_from_json, query_to_json, v3_query_from_json};
 use crate::v4::http_parts::HttpRequest;
@@ -158,8 +157,8 @@ impl Request {
     };
     let query_val = match request_json.get("query") {
       Some(v) => match spec_version {
-        &PactSpecification::V3 => v3_query_from_json(v, spec_version),
-        _ => query_from_json(v, spec_version)
+        &PactSpecification::V1 | &PactSpecification::V1_1 | &PactSpecification::V2 => query_from_json(v, spec_version),
+        _ => v3_query_from_json(v, spec_version)
       },
       None => None
     };
@@ -202,10 +201,7 @@ impl Request {
             }
           }
         } else {
-          match from_utf8(body) {
-            Ok(s) => map.insert("body".to_string(), Value::String(s.to_string())),
-            Err(_) => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
-          };
+          map.insert("body".to_string(), text_body_to_json(body, self.lookup_content_type()));
         },
         OptionalBody::Empty => { map.insert("body".to_string(), Value::String(String::default())); },
         OptionalBody::Missing => (),
diff --git a/rust/pact_models/src/response.rs b/rust/pact_models/src/response.rs
index 7fb6f3f..1779ad8 100644
--- a/rust/pact_models/src/response.rs
+++ b/rust/pact_models/src/response.rs
@@ -1,7 +1,6 @@
 use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
 use std::hash::{Hash, Hasher};
-use std::str::from_utf8;
 
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
@@ -14,7 +13,7 @@ use crate::{DifferenceType, PactSpecification};
 use crate::bodies::OptionalBody;
 use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
-use crate::json_utils::{body_from_json, headers_from_json, headers_to_json};
+use crate::json_utils::{body_from_json, headers_from_json, headers_to_json, text_body_to_json};
 use crate::matchingrules::{matchers_from_json, matchers_to_json, MatchingRules};
 use crate::v4::http_parts::HttpResponse;
 
@@ -80,10 +79,7 @@ impl Response {
               }
             }
           } else {
-            match from_utf8(body) {
-              Ok(s) => map.insert("body".to_string(), Value::String(s.to_string())),
-              Err(_) => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
-            };
+            map.insert("body".to_string(), text_body_to_json(body, self.lookup_content_type()));
           }
         },
         OptionalBody::Empty => { map.insert("body".to_string(), Value::String("".to_string())); },
diff --git a/rust/pact_models/src/v4/async_message.rs b/rust/pact_models/src/v4/async_message.rs
index 7cc8495..4c02bad 100644
--- a/rust/pact_models/src/v4/async_message.rs
+++ b/rust/pact_models/src/v4/async_message.rs
@@ -164,7 +164,8 @@ impl V4Interaction for AsynchronousMessage {
       map.insert("key".to_string(), Value::String(key.clone()));
     }
 
-    if let Value::Object(body) = self.contents.contents.to_v4_json() {
+    let contents = self.contents.contents.with_content_type_if_not_set(self.message_content_type());
+    if let Value::Object(body) = contents.to_v4_json() {
       map.insert("contents".to_string(), Value::Object(body));
     }
 
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index d6cb6eb..f3880a7 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -530,7 +530,8 @@ impl HttpResponse {
         ));
       }
 
-      if let Value::Object(body) = self.body.to_v4_json() {
+      let body = self.body.with_content_type_if_not_set(self.content_type());
+      if let Value::Object(body) = body.to_v4_json() {
         map.insert("body".to_string(), Value::Object(body));
       }
 
-- 
2.43.0


From 0e401d4b8b0810601d875753ffa8285731cf95ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 15/36] fix: a response status that is not a number from 0 to
 65535 is an error

---
 rust/pact_models/src/response.rs      | 4 +++-
 rust/pact_models/src/v4/http_parts.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/response.rs b/rust/pact_models/src/response.rs
index 1779ad8..e825bdb 100644
--- a/rust/pact_models/src/response.rs
+++ b/rust/pact_models/src/response.rs
@@ -2,6 +2,7 @@ use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
 use std::hash::{Hash, Hasher};
 
+use anyhow::anyhow;
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
 use itertools::Itertools;
@@ -38,7 +39,8 @@ impl Response {
   pub fn from_json(response: &Value, _: &PactSpecification
   ) -> anyhow::Result<Response> {
     let status_val = match response.get("status") {
-      Some(v) => v.as_u64().unwrap() as u16,
+      Some(v) => v.as_u64().and_then(|status| u16::try_from(status).ok())
+        .ok_or_else(|| anyhow!("Expected a HTTP status code for the response status, got '{}'", v))?,
       None => 200
     };
     let headers = headers_from_json(response);
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index f3880a7..0c76701 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -6,6 +6,7 @@ use std::convert::TryFrom;
 use std::fmt::{Display, Formatter};
 use std::hash::{Hash, Hasher};
 
+use anyhow::anyhow;
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
 use bytes::BytesMut;
@@ -500,7 +501,8 @@ impl HttpResponse {
   /// Build an `HttpResponse` from a JSON `Value` struct.
   pub fn from_json(response: &Value) -> anyhow::Result<Self> {
     let status_val = match response.get("status") {
-      Some(v) => v.as_u64().unwrap() as u16,
+      Some(v) => v.as_u64().and_then(|status| u16::try_from(status).ok())
+        .ok_or_else(|| anyhow!("Expected a HTTP status code for the response status, got '{}'", v))?,
       None => 200
     };
     let headers = headers_from_json(response);
-- 
2.43.0


From 10d5dca259ce8de38bf5658e4f00b59ecaa11d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:28 +0000
Subject: [PATCH 16/36] fix: a message body whose content type does not parse
 gets the detected content type

---
 rust/pact_models/src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index b5ada00..9376802 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -296,7 +296,8 @@ impl Message {
         let key = k.to_ascii_lowercase();
         key == "contenttype" || key == "content-type"
       }) {
-        Some((_, v)) => ContentType::parse(json_to_string(&v).as_str()).ok(),
+        Some((_, v)) => ContentType::parse(json_to_string(&v).as_str()).ok()
+          .or_else(|| self.detect_content_type()),
         None => self.detect_content_type()
       }
     }
-- 
2.43.0


From e865535e164dd818952ce82b32256ab3324d82ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:16 +0000
Subject: [PATCH 17/36] fix: V4 synchronous messages can be displayed and
 cloned as interactions

---
 rust/pact_models/src/interaction.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_models/src/interaction.rs b/rust/pact_models/src/interaction.rs
index 5316b79..c11f09b 100644
--- a/rust/pact_models/src/interaction.rs
+++ b/rust/pact_models/src/interaction.rs
@@ -163,6 +163,8 @@ impl Display for dyn Interaction {
       std::fmt::Display::fmt(&mp, f)
     } else if let Some(mp) = self.as_v4_async_message() {
       std::fmt::Display::fmt(&mp, f)
+    } else if let Some(mp) = self.as_v4_sync_message() {
+      std::fmt::Display::fmt(&mp, f)
     } else {
       Err(fmt::Error)
     }
@@ -176,6 +178,8 @@ impl Clone for Box<dyn Interaction> {
         Box::new(http)
       } else if let Some(message) = self.as_v4_async_message() {
         Box::new(message)
+      } else if let Some(message) = self.as_v4_sync_message() {
+        Box::new(message)
       } else {
         panic!("Internal Error - Tried to clone an interaction that was not valid")
       }
-- 
2.43.0


From 1c3569449562247aa89ab2c6930f08b2b34f207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 18/36] fix: a V4 pact converted to a message pact has the V3
 version in its metadata

---
 rust/pact_models/src/v4/pact.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/v4/pact.rs b/rust/pact_models/src/v4/pact.rs
index af79bf1..b8c3e93 100644
--- a/rust/pact_models/src/v4/pact.rs
+++ b/rust/pact_models/src/v4/pact.rs
@@ -247,10 +247,14 @@ impl Pact for V4Pact {
       .flatten()
       .collect();
     let metadata = self.metadata.iter().map(|(k, v)| {
-      match v {
-        Value::Object(map) => Some((k.clone(), map.iter()
-          .map(|(k, v)| (k.clone(), json_to_string(v))).collect())),
-        _ => None
+      if k == "pactSpecification" {
+        Some((k.clone(), btreemap!{"version".to_string() => PactSpecification::V3.version_str()}))
+      } else {
+        match v {
+          Value::Object(map) => Some((k.clone(), map.iter()
+            .map(|(k, v)| (k.clone(), json_to_string(v))).collect())),
+          _ => None
+        }
       }
     }).flatten()
       .collect();
-- 
2.43.0


From f6e928a6741eae16dc6ca93d17f14f5188060b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:20 +0000
Subject: [PATCH 19/36] fix: the hash of a model, and so the key of an
 interaction, does not depend on the order of a hash map

---
 rust/pact_models/src/generators/mod.rs    |  2 +-
 rust/pact_models/src/matchingrules/mod.rs |  5 +++--
 rust/pact_models/src/provider_states.rs   |  3 ++-
 rust/pact_models/src/v4/async_message.rs  | 10 ++--------
 4 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 24c7496..1c2b92c 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -361,7 +361,7 @@ impl Hash for Generator {
         for (index, rules, generators) in variants {
           index.hash(state);
           rules.hash(state);
-          for (s, g) in generators {
+          for (s, g) in generators.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
             s.hash(state);
             g.hash(state);
           }
diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 14f586b..56b9e49 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -610,7 +610,7 @@ impl Hash for MatchingRule {
         for (index, rules, generators) in variants {
           index.hash(state);
           rules.hash(state);
-          for (s, g) in generators {
+          for (s, g) in generators.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
             s.hash(state);
             g.hash(state);
           }
@@ -1484,7 +1484,8 @@ impl MatchingRules {
 impl Hash for MatchingRules {
   fn hash<H: Hasher>(&self, state: &mut H) {
     for (k, v) in self.rules.iter()
-      .filter(|(_, cat)| cat.is_not_empty()) {
+      .filter(|(_, cat)| cat.is_not_empty())
+      .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       v.hash(state);
     }
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index e218bac..6f4ad9d 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -5,6 +5,7 @@ use std::cmp::Eq;
 use std::collections::HashMap;
 use std::hash::{Hash, Hasher};
 
+use itertools::Itertools;
 use maplit::*;
 use serde::{Deserialize, Serialize};
 use serde_json::*;
@@ -100,7 +101,7 @@ impl ProviderState {
 impl Hash for ProviderState {
   fn hash<H: Hasher>(&self, state: &mut H) {
     self.name.hash(state);
-    for (k, v) in self.params.clone() {
+    for (k, v) in self.params.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       match v {
         Value::Number(n) => if n.is_u64() {
diff --git a/rust/pact_models/src/v4/async_message.rs b/rust/pact_models/src/v4/async_message.rs
index 4c02bad..15d1c68 100644
--- a/rust/pact_models/src/v4/async_message.rs
+++ b/rust/pact_models/src/v4/async_message.rs
@@ -18,7 +18,7 @@ use crate::content_types::ContentType;
 use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
 use crate::interaction::Interaction;
-use crate::json_utils::{hash_json, is_empty, json_to_string};
+use crate::json_utils::{is_empty, json_to_string};
 use crate::matchingrules::{matchers_from_json, matchers_to_json, MatchingRules};
 use crate::message::Message;
 use crate::PactSpecification;
@@ -447,13 +447,7 @@ impl Hash for AsynchronousMessage {
   fn hash<H: Hasher>(&self, state: &mut H) {
     self.description.hash(state);
     self.provider_states.hash(state);
-    self.contents.contents.hash(state);
-    for (k, v) in &self.contents.metadata {
-      k.hash(state);
-      hash_json(v, state);
-    }
-    self.contents.matching_rules.hash(state);
-    self.contents.generators.hash(state);
+    self.contents.hash(state);
     self.pending.hash(state);
   }
 }
-- 
2.43.0


From a315947d3ad73a9f78a433f32972bd5dbe681eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:20 +0000
Subject: [PATCH 20/36] fix: models that are equal hash the same when one has
 -0.0 where the other has 0.0

---
 rust/pact_models/src/json_utils.rs      | 3 ++-
 rust/pact_models/src/provider_states.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 1ef7e0e..dfbaf6c 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -85,7 +85,8 @@ pub fn hash_json<H: Hasher>(v: &Value, state: &mut H) {
         num.hash(state);
       }
       if let Some(num) = n.as_f64() {
-        num.to_string().hash(state);
+        // adding zero makes -0.0 and 0.0, which are equal, the same value
+        (num + 0.0).to_string().hash(state);
       }
       if let Some(num) = n.as_i64() {
         num.hash(state);
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index 6f4ad9d..a2d9da4 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -109,7 +109,8 @@ impl Hash for ProviderState {
         } else if n.is_i64() {
           n.as_i64().unwrap().hash(state)
         } else if n.is_f64() {
-          n.as_f64().unwrap().to_string().hash(state)
+          // adding zero makes -0.0 and 0.0, which are equal, the same value
+          (n.as_f64().unwrap() + 0.0).to_string().hash(state)
         },
         Value::String(s) => s.hash(state),
         Value::Bool(b) => b.hash(state),
-- 
2.43.0


From c5c306cc330d64fe0bd169a729aba2ad2b64e5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:27 +0000
Subject: [PATCH 21/36] fix: matching rules for different status codes are not
 equal

---
 rust/pact_models/src/matchingrules/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 56b9e49..b1be75b 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -636,6 +636,7 @@ impl PartialEq for MatchingRule {
       (MatchingRule::ArrayContains(variants1), MatchingRule::ArrayContains(variants2)) => variants1 == variants2,
       (MatchingRule::EachKey(definition1), MatchingRule::EachKey(definition2)) => definition1 == definition2,
       (MatchingRule::EachValue(definition1), MatchingRule::EachValue(definition2)) => definition1 == definition2,
+      (MatchingRule::StatusCode(status1), MatchingRule::StatusCode(status2)) => status1 == status2,
       _ => mem::discriminant(self) == mem::discriminant(other)
     }
   }
-- 
2.43.0


From d02ff9de0446a637d2646a2cee5f2b84c8bda970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:18 +0000
Subject: [PATCH 22/36] fix: rules combined with OR apply to objects in a JSON
 body

---
 rust/pact_matching/src/json.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rust/pact_matching/src/json.rs b/rust/pact_matching/src/json.rs
index 84dede9..b3b41c6 100644
--- a/rust/pact_matching/src/json.rs
+++ b/rust/pact_matching/src/json.rs
@@ -12,7 +12,7 @@ use serde_json::{json, Value};
 
 use pact_models::http_parts::HttpPart;
 use pact_models::json_utils::json_to_string;
-use pact_models::matchingrules::MatchingRule;
+use pact_models::matchingrules::{MatchingRule, RuleLogic};
 use pact_models::path_exp::DocPath;
 #[cfg(feature = "datetime")] use pact_models::time_utils::validate_datetime;
 use tracing::debug;
@@ -431,11 +431,15 @@ fn compare_maps(
     if context.matcher_is_defined(path) {
       debug!("compare_maps: Matcher is defined for path {}", path);
       let rule_list = context.select_best_matcher(path);
-      for matcher in rule_list.rules {
-        let result1 = compare_maps_with_matchingrule(&matcher, rule_list.cascaded, path, &expected, &actual, context, &mut |p, expected, actual, context| {
+      let results = rule_list.rules.iter().map(|matcher| {
+        compare_maps_with_matchingrule(matcher, rule_list.cascaded, path, &expected, &actual, context, &mut |p, expected, actual, context| {
           compare_json(p, expected, actual, context)
-        });
-        result = merge_result(result, result1);
+        })
+      }).collect::<Vec<_>>();
+      if rule_list.rule_logic == RuleLogic::And || results.iter().all(|result| result.is_err()) {
+        for result1 in results {
+          result = merge_result(result, result1);
+        }
       }
     } else {
       let expected_keys = expected.keys().cloned().collect();
-- 
2.43.0


From 2e8784366029c03a99a298055b75ffe5dc89d135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:57 +0000
Subject: [PATCH 23/36] fix: rules about a list apply when the example list is
 empty

---
 rust/pact_matching/src/matchingrules.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rust/pact_matching/src/matchingrules.rs b/rust/pact_matching/src/matchingrules.rs
index 9c38012..891bf91 100644
--- a/rust/pact_matching/src/matchingrules.rs
+++ b/rust/pact_matching/src/matchingrules.rs
@@ -451,6 +451,13 @@ pub fn compare_lists_with_matchingrule<T: Display + Debug + PartialEq + Clone +
         result.extend(match_list_contents(path, expected, actual, context, callback));
       }
     }
+  } else if let Err(mismatch) = expected.matches_with(actual, rule, cascaded) {
+    result.push(CommonMismatch {
+      path: path.to_string(),
+      expected: expected.for_mismatch(),
+      actual: actual.for_mismatch(),
+      description: mismatch.to_string()
+    });
   }
 
   if result.is_empty() {
-- 
2.43.0


From ad35a10d569ab0939f3adb5e12517cb7c2031993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 24/36] fix: the keys of an object are checked by the rule that
 applies to it

---
 rust/pact_matching/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index 44bb6e7..59a04e8 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -567,7 +567,10 @@ impl MatchingContext for CoreMatchingContext {
     if matchers.is_empty() {
       actual.is_not_empty()
     } else {
-      actual.as_rule_list().rules.iter().any(|r| matchers.contains(r.name().as_str()))
+      let path = path.to_vec();
+      let path_slice = path.iter().map(|p| p.as_str()).collect_vec();
+      actual.select_best_matcher(path_slice.as_slice()).rules.iter()
+        .any(|r| matchers.contains(r.name().as_str()))
     }
   }
 
-- 
2.43.0


From 272bd5d85c44d4b0aec4608184651b8def79250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 25/36] fix: texts like NaN and inf are no numbers

---
 rust/pact_matching/src/matchers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/matchers.rs b/rust/pact_matching/src/matchers.rs
index 7cf878e..07038fa 100644
--- a/rust/pact_matching/src/matchers.rs
+++ b/rust/pact_matching/src/matchers.rs
@@ -196,8 +196,8 @@ impl Matches<&str> for &str {
       },
       MatchingRule::Number | MatchingRule::Decimal => {
         match actual.parse::<f64>() {
-          Ok(_) => Ok(()),
-          Err(_) => Err(anyhow!("Expected '{}' to match a number", actual))
+          Ok(number) if number.is_finite() => Ok(()),
+          _ => Err(anyhow!("Expected '{}' to match a number", actual))
         }
       },
       MatchingRule::Integer => {
-- 
2.43.0


From 5c486f6a1d0ed351553d586d1bd8ea92bc2c280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 26/36] fix: a text with a negative whole number is an integer

---
 rust/pact_matching/src/matchers.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rust/pact_matching/src/matchers.rs b/rust/pact_matching/src/matchers.rs
index 07038fa..1673e24 100644
--- a/rust/pact_matching/src/matchers.rs
+++ b/rust/pact_matching/src/matchers.rs
@@ -201,9 +201,10 @@ impl Matches<&str> for &str {
         }
       },
       MatchingRule::Integer => {
-        match actual.parse::<u64>() {
-          Ok(_) => Ok(()),
-          Err(_) => Err(anyhow!("Expected '{}' to match an integer number", actual))
+        if actual.parse::<i64>().is_ok() || actual.parse::<u64>().is_ok() {
+          Ok(())
+        } else {
+          Err(anyhow!("Expected '{}' to match an integer number", actual))
         }
       },
       #[allow(unused_variables)]
-- 
2.43.0


From 81695c229bdea981db5cbff540d9697cb80009aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:23 +0000
Subject: [PATCH 27/36] fix: pact file verification names the type of the value
 that is wrong

---
 rust/pact_models/src/lib.rs              | 4 ++--
 rust/pact_models/src/provider_states.rs  | 4 ++--
 rust/pact_models/src/sync_interaction.rs | 2 +-
 rust/pact_models/src/sync_pact.rs        | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/lib.rs b/rust/pact_models/src/lib.rs
index 6b94173..2e420a9 100644
--- a/rust/pact_models/src/lib.rs
+++ b/rust/pact_models/src/lib.rs
@@ -228,7 +228,7 @@ impl PactJsonVerifier for Consumer {
         if let Some(name) = values.get("name") {
           if !name.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/name", ResultLevel::ERROR,
-              format!("Must be a String, got {}", json_type_of(pact_json))))
+              format!("Must be a String, got {}", json_type_of(name))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path.to_owned() + "/name",
@@ -298,7 +298,7 @@ impl PactJsonVerifier for Provider {
         if let Some(name) = values.get("name") {
           if !name.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/name", ResultLevel::ERROR,
-                                                         format!("Must be a String, got {}", json_type_of(pact_json))))
+                                                         format!("Must be a String, got {}", json_type_of(name))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path.to_owned() + "/name",
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index a2d9da4..22f03af 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -138,14 +138,14 @@ impl PactJsonVerifier for ProviderState {
             "Provider state 'name' is required")),
           Some(name) => if !name.is_string() {
             results.push(PactFileVerificationResult::new(path, ResultLevel::ERROR,
-              format!("Provider state 'name' must be a String, got {}", json_type_of(pact_json))))
+              format!("Provider state 'name' must be a String, got {}", json_type_of(name))))
           }
         }
 
         if let Some(params) = values.get("params") {
           if !params.is_object() {
             results.push(PactFileVerificationResult::new(path, ResultLevel::ERROR,
-              format!("Provider state 'params' must be an Object, got {}", json_type_of(pact_json))))
+              format!("Provider state 'params' must be an Object, got {}", json_type_of(params))))
           }
         }
 
diff --git a/rust/pact_models/src/sync_interaction.rs b/rust/pact_models/src/sync_interaction.rs
index e865e0a..6707f3c 100644
--- a/rust/pact_models/src/sync_interaction.rs
+++ b/rust/pact_models/src/sync_interaction.rs
@@ -273,7 +273,7 @@ impl PactJsonVerifier for RequestResponseInteraction {
         if let Some(description) = values.get("description") {
           if !description.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/description", ResultLevel::ERROR,
-                                                         format!("Must be a String, got {}", json_type_of(pact_json))))
+                                                         format!("Must be a String, got {}", json_type_of(description))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path,
diff --git a/rust/pact_models/src/sync_pact.rs b/rust/pact_models/src/sync_pact.rs
index 79c663d..4e9cc30 100644
--- a/rust/pact_models/src/sync_pact.rs
+++ b/rust/pact_models/src/sync_pact.rs
@@ -372,7 +372,7 @@ impl PactJsonVerifier for RequestResponsePact {
                 }))
             }
             _ => results.push(PactFileVerificationResult::new("/interactions", ResultLevel::ERROR,
-                                                              &format!("Must be an Object, got {}", json_type_of(pact_json))))
+                                                              &format!("Must be an Array, got {}", json_type_of(interactions))))
           }
         } else {
           results.push(PactFileVerificationResult::new("/interactions", ResultLevel::WARNING, "Missing interactions"))
-- 
2.43.0


From b408dee4f147b8267e7d11d313e8971a4cb0fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:06 +0000
Subject: [PATCH 28/36] fix: bodies shorter than ten bytes no longer panic when
 a rule does not match them

---
 rust/pact_matching/src/matchers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/matchers.rs b/rust/pact_matching/src/matchers.rs
index 1673e24..431dea8 100644
--- a/rust/pact_matching/src/matchers.rs
+++ b/rust/pact_matching/src/matchers.rs
@@ -736,7 +736,7 @@ impl Matches<&Bytes> for Bytes {
           Ok(())
         } else {
           Err(anyhow!("Expected '{:?}...' ({} bytes) to be equal to '{:?}...' ({} bytes)",
-                      self.split_at(10).0, self.len(), actual.split_at(10).0, actual.len()))
+                      self.slice(..self.len().min(10)), self.len(), actual.slice(..actual.len().min(10)), actual.len()))
         }
       },
       MatchingRule::Type |
@@ -762,7 +762,7 @@ impl Matches<&Bytes> for Bytes {
         }
       }
       _ => if !cascaded || matcher.can_cascade() {
-        Err(anyhow!("Unable to match '{:?}...' ({} bytes) using {:?}", actual.split_at(10).0, actual.len(), matcher))
+        Err(anyhow!("Unable to match '{:?}...' ({} bytes) using {:?}", actual.slice(..actual.len().min(10)), actual.len(), matcher))
       } else {
         Ok(())
       }
-- 
2.43.0


From 43aadde79337d168d8269bf5f28b1c70484a9921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:17 +0000
Subject: [PATCH 29/36] fix: the score of a request with more than 127 parts no
 longer overflows

---
 rust/pact_matching/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index 59a04e8..324a812 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -1290,7 +1290,7 @@ impl RequestMatchResult {
 
   /// Returns a score based on what was matched
   pub fn score(&self) -> i8 {
-    let mut score = 0;
+    let mut score: i32 = 0;
     if self.method.is_none() {
       score += 1;
     } else {
@@ -1330,7 +1330,7 @@ impl RequestMatchResult {
       },
       _ => ()
     }
-    score
+    score.clamp(i8::MIN as i32, i8::MAX as i32) as i8
   }
 
   /// If all the things matched OK
-- 
2.43.0


From 4164864299f49f6f37b690a35cf543ff4a0d7bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:17 +0000
Subject: [PATCH 30/36] fix: an each value rule on a header with one value
 applies to that value

---
 rust/pact_matching/src/headers.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/headers.rs b/rust/pact_matching/src/headers.rs
index 3409442..546dd02 100644
--- a/rust/pact_matching/src/headers.rs
+++ b/rust/pact_matching/src/headers.rs
@@ -147,16 +147,19 @@ fn match_header_maps(
           mismatch: format!("Expected an empty header '{}' but actual value was '{}'", key, actual_values.join(", ")) }]);
       } else {
         let mut mismatches = vec![];
+        let path = DocPath::root().join(key.to_lowercase());
+        // The rules of an each value matcher apply to the items, so it always needs the list of values
+        let each_value = context.select_best_matcher(&path).rules.iter()
+          .any(|rule| matches!(rule, MatchingRule::EachValue(_)));
 
         // Special case when the headers only have 1 value to improve messaging
-        if value.len() == 1 && actual_values.len() == 1 {
+        if value.len() == 1 && actual_values.len() == 1 && !each_value {
           let comparison_result = match_header_value(key, 0, value.first().unwrap(),
             actual_values.first().unwrap(), context, true)
             .err()
             .unwrap_or_default();
           mismatches.extend(comparison_result.iter().cloned());
         } else {
-          let path = DocPath::root().join(key.to_lowercase());
           if context.matcher_is_defined(&path) {
             debug!("match_header_maps: Matcher is defined for path {}", path);
             let values_result = compare_lists_with_matchingrules(&path, &context.select_best_matcher(&path), value, &actual_values, context.clone_with(context.matchers()).as_ref(), &mut |_, expected, actual, context| {
-- 
2.43.0


From f03fab1c48449d76d5e6713e2197e115f0bf701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 31/36] fix: pacts in the subdirectories of a directory source
 are verified too

---
 rust/pact_verifier/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index 042e7f5..2ed3c61 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -753,7 +753,7 @@ fn walkdir(
         let entry = entry?;
         let path = entry.path();
         if path.is_dir() {
-            walkdir(&path, provider)?;
+            pacts.extend(walkdir(&path, provider)?);
         } else {
           match timeit(|| read_pact(&path)) {
             Ok((pact, tm)) => {
-- 
2.43.0


From b9bb8d69d7aa0355144d28868ea5b2212cb2b335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 32/36] fix: a custom header replaces the header of the request
 whatever its case

---
 rust/pact_verifier/src/provider_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/provider_client.rs b/rust/pact_verifier/src/provider_client.rs
index 28385a8..38c332a 100644
--- a/rust/pact_verifier/src/provider_client.rs
+++ b/rust/pact_verifier/src/provider_client.rs
@@ -106,7 +106,7 @@ fn create_native_request(
   if let Some(headers) = &request.headers {
     let mut header_map = HeaderMap::new();
     for (k, vals) in headers {
-      if !custom_headers.contains_key(k) {
+      if !custom_headers.keys().any(|name| name.eq_ignore_ascii_case(k)) {
         for header_value in vals {
           let header_name = HeaderName::try_from(k)
             .map_err(|err| ProviderClientError::RequestHeaderNameError(
-- 
2.43.0


From 524a6f7c4ff21a4c5557b19b294e812f9a3b5038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 33/36] fix: query parameters without a value are sent to the
 provider

---
 rust/pact_verifier/src/provider_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/provider_client.rs b/rust/pact_verifier/src/provider_client.rs
index 38c332a..b5895d6 100644
--- a/rust/pact_verifier/src/provider_client.rs
+++ b/rust/pact_verifier/src/provider_client.rs
@@ -99,7 +99,7 @@ fn create_native_request(
     builder = builder.query(&query.iter()
       .sorted_by(|a, b| Ord::cmp(&a.0, &b.0))
       .flat_map(|(k, v)| {
-        v.iter().map(|v| (k, v)).collect_vec()
+        v.iter().map(|v| (k, v.clone().unwrap_or_default())).collect_vec()
       }).collect_vec());
   }
 
-- 
2.43.0


From 88da7b25eebb6336e98221c7a005d1649c2246ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 34/36] fix: no retries means that the request is sent once

---
 rust/pact_verifier/src/utils.rs | 156 ++++++++++++++++----------------
 1 file changed, 78 insertions(+), 78 deletions(-)

diff --git a/rust/pact_verifier/src/utils.rs b/rust/pact_verifier/src/utils.rs
index 5c6840d..00d300b 100644
--- a/rust/pact_verifier/src/utils.rs
+++ b/rust/pact_verifier/src/utils.rs
@@ -1,78 +1,78 @@
-//! Utility functions
-
-use std::panic::RefUnwindSafe;
-use std::time::Duration;
-
-use futures::StreamExt;
-use pact_models::interaction::Interaction;
-use reqwest::RequestBuilder;
-use tokio::time::sleep;
-use tracing::{trace, warn};
-
-/// Retries a request on failure
-pub(crate) async fn with_retries(retries: u8, request: RequestBuilder) -> Result<reqwest::Response, reqwest::Error> {
-  match &request.try_clone() {
-    None => {
-      warn!("with_retries: Could not retry the request as it is not cloneable");
-      request.send().await
-    }
-    Some(rb) => {
-      futures::stream::iter((1..=retries).step_by(1))
-        .fold((None::<Result<reqwest::Response, reqwest::Error>>, rb.try_clone()), |(response, request), attempt| {
-          async move {
-            match request {
-              Some(request_builder) => match response {
-                None => {
-                  let next = request_builder.try_clone();
-                  (Some(request_builder.send().await), next)
-                },
-                Some(response) => {
-                  trace!("with_retries: attempt {}/{} is {:?}", attempt, retries, response);
-                  match response {
-                    Ok(ref res) => if res.status().is_server_error() {
-                      match request_builder.try_clone() {
-                        None => (Some(response), None),
-                        Some(rb) => {
-                          sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
-                          (Some(request_builder.send().await), Some(rb))
-                        }
-                      }
-                    } else {
-                      (Some(response), None)
-                    },
-                    Err(ref err) => if err.is_status() {
-                      if err.status().unwrap_or_default().is_server_error() {
-                        match request_builder.try_clone() {
-                          None => (Some(response), None),
-                          Some(rb) => {
-                            sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
-                            (Some(request_builder.send().await), Some(rb))
-                          }
-                        }
-                      } else {
-                        (Some(response), None)
-                      }
-                    } else {
-                      (Some(response), None)
-                    }
-                  }
-                }
-              }
-              None => (response, None)
-            }
-          }
-        }).await.0.unwrap()
-    }
-  }
-}
-
-pub(crate) fn as_safe_ref(interaction: &dyn Interaction) -> Box<dyn Interaction + Send + Sync + RefUnwindSafe> {
-  if let Some(v4) = interaction.as_v4_sync_message() {
-    Box::new(v4)
-  } else if let Some(v4) = interaction.as_v4_async_message() {
-    Box::new(v4)
-  } else {
-    let v4 = interaction.as_v4_http().unwrap();
-    Box::new(v4)
-  }
-}
+//! Utility functions
+
+use std::panic::RefUnwindSafe;
+use std::time::Duration;
+
+use futures::StreamExt;
+use pact_models::interaction::Interaction;
+use reqwest::RequestBuilder;
+use tokio::time::sleep;
+use tracing::{trace, warn};
+
+/// Retries a request on failure
+pub(crate) async fn with_retries(retries: u8, request: RequestBuilder) -> Result<reqwest::Response, reqwest::Error> {
+  match &request.try_clone() {
+    None => {
+      warn!("with_retries: Could not retry the request as it is not cloneable");
+      request.send().await
+    }
+    Some(rb) => {
+      futures::stream::iter((1..=retries.max(1)).step_by(1))
+        .fold((None::<Result<reqwest::Response, reqwest::Error>>, rb.try_clone()), |(response, request), attempt| {
+          async move {
+            match request {
+              Some(request_builder) => match response {
+                None => {
+                  let next = request_builder.try_clone();
+                  (Some(request_builder.send().await), next)
+                },
+                Some(response) => {
+                  trace!("with_retries: attempt {}/{} is {:?}", attempt, retries, response);
+                  match response {
+                    Ok(ref res) => if res.status().is_server_error() {
+                      match request_builder.try_clone() {
+                        None => (Some(response), None),
+                        Some(rb) => {
+                          sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
+                          (Some(request_builder.send().await), Some(rb))
+                        }
+                      }
+                    } else {
+                      (Some(response), None)
+                    },
+                    Err(ref err) => if err.is_status() {
+                      if err.status().unwrap_or_default().is_server_error() {
+                        match request_builder.try_clone() {
+                          None => (Some(response), None),
+                          Some(rb) => {
+                            sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
+                            (Some(request_builder.send().await), Some(rb))
+                          }
+                        }
+                      } else {
+                        (Some(response), None)
+                      }
+                    } else {
+                      (Some(response), None)
+                    }
+                  }
+                }
+              }
+              None => (response, None)
+            }
+          }
+        }).await.0.unwrap()
+    }
+  }
+}
+
+pub(crate) fn as_safe_ref(interaction: &dyn Interaction) -> Box<dyn Interaction + Send + Sync + RefUnwindSafe> {
+  if let Some(v4) = interaction.as_v4_sync_message() {
+    Box::new(v4)
+  } else if let Some(v4) = interaction.as_v4_async_message() {
+    Box::new(v4)
+  } else {
+    let v4 = interaction.as_v4_http().unwrap();
+    Box::new(v4)
+  }
+}
-- 
2.43.0


From ebf1ba4b8abc7ed34d3b5fd89f65436e67a89eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:38 +0000
Subject: [PATCH 35/36] fix: the report shows a header that was compared as a
 list as failed

---
 rust/pact_verifier/src/request_response.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/request_response.rs b/rust/pact_verifier/src/request_response.rs
index 950cb02..068ed48 100644
--- a/rust/pact_verifier/src/request_response.rs
+++ b/rust/pact_verifier/src/request_response.rs
@@ -2,10 +2,19 @@ use ansi_term::Colour::*;
 use ansi_term::Style;
 
 use pact_matching::Mismatch;
+use pact_models::path_exp::DocPath;
 use pact_models::sync_interaction::RequestResponseInteraction;
 
 use crate::{generate_display_for_result, MismatchResult};
 
+/// If the key of a header mismatch is for the header. The key is either the name of the header or
+/// the path to its values (when the values have been compared as a list)
+fn is_header(header: &str, key: &str) -> bool {
+  key.eq_ignore_ascii_case(header) || key.starts_with('$') && DocPath::new(key)
+    .map(|path| path.first_field().unwrap_or_default().eq_ignore_ascii_case(header))
+    .unwrap_or_default()
+}
+
 pub fn process_request_response_result(
   interaction: &RequestResponseInteraction,
   match_result: &Result<Option<String>, MismatchResult>,
@@ -42,7 +51,7 @@ pub fn process_request_response_result(
           Some(ref h) => Some(h.iter().map(|(k, v)| {
             (k.clone(), v.join(", "), if mismatches.iter().any(|m| {
               match *m {
-                Mismatch::HeaderMismatch { ref key, .. } => k == key,
+                Mismatch::HeaderMismatch { ref key, .. } => is_header(k, key),
                 _ => false
               }
             }) {
-- 
2.43.0


From 461dda1d00615976e26dab4917aa938b918e2108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:30 +0000
Subject: [PATCH 36/36] fix: no retries means that the request is sent once
 (line endings as they were)

---
 rust/pact_verifier/src/utils.rs | 156 ++++++++++++++++----------------
 1 file changed, 78 insertions(+), 78 deletions(-)

diff --git a/rust/pact_verifier/src/utils.rs b/rust/pact_verifier/src/utils.rs
index 00d300b..bf9ecd8 100644
--- a/rust/pact_verifier/src/utils.rs
+++ b/rust/pact_verifier/src/utils.rs
@@ -1,78 +1,78 @@
-//! Utility functions
-
-use std::panic::RefUnwindSafe;
-use std::time::Duration;
-
-use futures::StreamExt;
-use pact_models::interaction::Interaction;
-use reqwest::RequestBuilder;
-use tokio::time::sleep;
-use tracing::{trace, warn};
-
-/// Retries a request on failure
-pub(crate) async fn with_retries(retries: u8, request: RequestBuilder) -> Result<reqwest::Response, reqwest::Error> {
-  match &request.try_clone() {
-    None => {
-      warn!("with_retries: Could not retry the request as it is not cloneable");
-      request.send().await
-    }
-    Some(rb) => {
-      futures::stream::iter((1..=retries.max(1)).step_by(1))
-        .fold((None::<Result<reqwest::Response, reqwest::Error>>, rb.try_clone()), |(response, request), attempt| {
-          async move {
-            match request {
-              Some(request_builder) => match response {
-                None => {
-                  let next = request_builder.try_clone();
-                  (Some(request_builder.send().await), next)
-                },
-                Some(response) => {
-                  trace!("with_retries: attempt {}/{} is {:?}", attempt, retries, response);
-                  match response {
-                    Ok(ref res) => if res.status().is_server_error() {
-                      match request_builder.try_clone() {
-                        None => (Some(response), None),
-                        Some(rb) => {
-                          sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
-                          (Some(request_builder.send().await), Some(rb))
-                        }
-                      }
-                    } else {
-                      (Some(response), None)
-                    },
-                    Err(ref err) => if err.is_status() {
-                      if err.status().unwrap_or_default().is_server_error() {
-                        match request_builder.try_clone() {
-                          None => (Some(response), None),
-                          Some(rb) => {
-                            sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
-                            (Some(request_builder.send().await), Some(rb))
-                          }
-                        }
-                      } else {
-                        (Some(response), None)
-                      }
-                    } else {
-                      (Some(response), None)
-                    }
-                  }
-                }
-              }
-              None => (response, None)
-            }
-          }
-        }).await.0.unwrap()
-    }
-  }
-}
-
-pub(crate) fn as_safe_ref(interaction: &dyn Interaction) -> Box<dyn Interaction + Send + Sync + RefUnwindSafe> {
-  if let Some(v4) = interaction.as_v4_sync_message() {
-    Box::new(v4)
-  } else if let Some(v4) = interaction.as_v4_async_message() {
-    Box::new(v4)
-  } else {
-    let v4 = interaction.as_v4_http().unwrap();
-    Box::new(v4)
-  }
-}
+//! Utility functions
+
+use std::panic::RefUnwindSafe;
+use std::time::Duration;
+
+use futures::StreamExt;
+use pact_models::interaction::Interaction;
+use reqwest::RequestBuilder;
+use tokio::time::sleep;
+use tracing::{trace, warn};
+
+/// Retries a request on failure
+pub(crate) async fn with_retries(retries: u8, request: RequestBuilder) -> Result<reqwest::Response, reqwest::Error> {
+  match &request.try_clone() {
+    None => {
+      warn!("with_retries: Could not retry the request as it is not cloneable");
+      request.send().await
+    }
+    Some(rb) => {
+      futures::stream::iter((1..=retries.max(1)).step_by(1))
+        .fold((None::<Result<reqwest::Response, reqwest::Error>>, rb.try_clone()), |(response, request), attempt| {
+          async move {
+            match request {
+              Some(request_builder) => match response {
+                None => {
+                  let next = request_builder.try_clone();
+                  (Some(request_builder.send().await), next)
+                },
+                Some(response) => {
+                  trace!("with_retries: attempt {}/{} is {:?}", attempt, retries, response);
+                  match response {
+                    Ok(ref res) => if res.status().is_server_error() {
+                      match request_builder.try_clone() {
+                        None => (Some(response), None),
+                        Some(rb) => {
+                          sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
+                          (Some(request_builder.send().await), Some(rb))
+                        }
+                      }
+                    } else {
+                      (Some(response), None)
+                    },
+                    Err(ref err) => if err.is_status() {
+                      if err.status().unwrap_or_default().is_server_error() {
+                        match request_builder.try_clone() {
+                          None => (Some(response), None),
+                          Some(rb) => {
+                            sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
+                            (Some(request_builder.send().await), Some(rb))
+                          }
+                        }
+                      } else {
+                        (Some(response), None)
+                      }
+                    } else {
+                      (Some(response), None)
+                    }
+                  }
+                }
+              }
+              None => (response, None)
+            }
+          }
+        }).await.0.unwrap()
+    }
+  }
+}
+
+pub(crate) fn as_safe_ref(interaction: &dyn Interaction) -> Box<dyn Interaction + Send + Sync + RefUnwindSafe> {
+  if let Some(v4) = interaction.as_v4_sync_message() {
+    Box::new(v4)
+  } else if let Some(v4) = interaction.as_v4_async_message() {
+    Box::new(v4)
+  } else {
+    let v4 = interaction.as_v4_http().unwrap();
+    Box::new(v4)
+  }
+}
-- 
2.43.0

