From aea7e4f5632edb87a3276e5f3e1dfac382ee1f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 01/15] fix: report failures to create files while extracting
 an engine archive

extract_nlu_engine_zip_archive unwrapped the result of File::create, so a
full disk, a descriptor limit or an archive holding both a file and a
directory of the same name made from_zip panic (and abort the process when
called through the C interface) instead of returning an error.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8e3c00f..91826f0 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -79,7 +79,7 @@ pub fn extract_nlu_engine_zip_archive<R: io::Read + io::Seek>(
                     fs::create_dir_all(&p)?;
                 }
             }
-            let mut outfile = fs::File::create(&outpath).unwrap();
+            let mut outfile = fs::File::create(&outpath)?;
             io::copy(&mut file, &mut outfile)?;
         }
     }
-- 
2.43.0


From f3dbfacc6714018c6c4c93ccf50694d95872731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 02/15] fix: break ties between intents deterministically

Intents with equal scores were ordered by the iteration order of hash maps
(in get_intents and in the deterministic and lookup parsers), so the same
call on the same model gave different rankings, alternatives and, through
the order of a floating point sum, different scores from one engine
instance to another. Order ties by intent name.
---
 src/intent_parser/deterministic_intent_parser.rs | 6 ++++--
 src/intent_parser/lookup_intent_parser.rs        | 5 +++--
 src/nlu_engine.rs                                | 8 +++++++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/intent_parser/deterministic_intent_parser.rs b/src/intent_parser/deterministic_intent_parser.rs
index 0ee4ca7..7040463 100644
--- a/src/intent_parser/deterministic_intent_parser.rs
+++ b/src/intent_parser/deterministic_intent_parser.rs
@@ -164,7 +164,7 @@ impl IntentParser for DeterministicIntentParser {
             .iter()
             .filter_map(|res| res.intent_name.clone())
             .collect();
-        for intent in self.regexes_per_intent.keys() {
+        for intent in self.regexes_per_intent.keys().sorted() {
             if !matched_intents.contains(intent) {
                 top_intents.push(IntentClassifierResult {
                     intent_name: Some(intent.to_string()),
@@ -211,7 +211,9 @@ impl DeterministicIntentParser {
         let filtered_entity_scopes = self
             .entity_scopes
             .iter()
-            .filter(|(intent, _)| intents_set.contains(&***intent));
+            .filter(|(intent, _)| intents_set.contains(&***intent))
+            // The order of the results must not depend on the hash map iteration order
+            .sorted_by(|(intent_a, _), (intent_b, _)| intent_a.cmp(intent_b));
 
         for (intent, (builtin_scope, custom_scope)) in filtered_entity_scopes {
             let builtin_entities = self
diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index 32f5e08..a62471c 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -16,7 +16,7 @@ use snips_nlu_utils::string::{
     hash_str_to_i32, normalize, substring_with_char_range, suffix_from_char_index,
 };
 use snips_nlu_utils::token::tokenize_light;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::fs::File;
 use std::path::Path;
 use std::str::FromStr;
@@ -167,7 +167,8 @@ impl LookupIntentParser {
         top_n: usize,
         intents: Option<&[&str]>,
     ) -> Result<Vec<InternalParsingResult>> {
-        let mut results_per_intent = HashMap::<String, Vec<InternalParsingResult>>::new();
+        // Ordered by intent name, so that the order of the results is deterministic
+        let mut results_per_intent = BTreeMap::<String, Vec<InternalParsingResult>>::new();
         for (text_candidate, entities) in self.get_candidates(input, intents)? {
             let candidate_key = hash_str_to_i32(&text_candidate);
             if let Some(result) = self
diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 6b995e8..8e9929b 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -305,7 +305,13 @@ impl SnipsNluEngine {
         Ok(results
             .into_iter()
             .map(|(_, res)| res)
-            .sorted_by(|a, b| b.confidence_score.partial_cmp(&a.confidence_score).unwrap())
+            .sorted_by(|a, b| {
+                b.confidence_score
+                    .partial_cmp(&a.confidence_score)
+                    .unwrap()
+                    // Ties must not be broken by the hash map iteration order
+                    .then_with(|| a.intent_name.cmp(&b.intent_name))
+            })
             .collect())
     }
 
-- 
2.43.0


From 4a5472b30e27391b2ec1f6f920dc5015c5c6fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 03/15] fix: refuse malformed classifier coefficients and word
 clusters when loading

A word clusters line with a single column, or a coefficients matrix with no
row or with rows of different lengths, made the loading of a (truncated or
damaged) engine panic with an index out of bounds. Return an error instead.
---
 src/intent_classifier/log_reg_intent_classifier.rs | 9 +++++++--
 src/resources/word_clusterer.rs                    | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index 19f88b3..a290448 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -4,7 +4,7 @@ use std::iter::FromIterator;
 use std::path::Path;
 use std::sync::Arc;
 
-use failure::ResultExt;
+use failure::{bail, ResultExt};
 use itertools::Itertools;
 use log::{debug, info};
 use ndarray::prelude::*;
@@ -53,7 +53,12 @@ impl LogRegIntentClassifier {
         let logreg = if let (Some(intercept), Some(coeffs)) = (model.intercept, model.coeffs) {
             let arr_intercept = Array::from_vec(intercept);
             let nb_classes = arr_intercept.dim();
-            let nb_features = coeffs[0].len();
+            let nb_features = coeffs.first().map(|row| row.len()).unwrap_or(0);
+            if coeffs.len() != nb_classes || coeffs.iter().any(|row| row.len() != nb_features) {
+                bail!(
+                    "Invalid LogRegIntentClassifier model: inconsistent shape of the coefficients"
+                );
+            }
             // Note: the deserialized coeffs matrix is transposed
             let arr_weights =
                 Array::from_shape_fn((nb_features, nb_classes), |(i, j)| coeffs[j][i]);
diff --git a/src/resources/word_clusterer.rs b/src/resources/word_clusterer.rs
index 3c7ff03..753afc6 100644
--- a/src/resources/word_clusterer.rs
+++ b/src/resources/word_clusterer.rs
@@ -1,4 +1,5 @@
 use crate::errors::*;
+use failure::bail;
 use itertools::Either;
 use snips_nlu_ontology::Language;
 use snips_nlu_utils::string::hash_str_to_i32;
@@ -30,6 +31,9 @@ impl HashMapWordClusterer {
         let mut str_values = HashMap::new();
         for record in csv_reader.records() {
             let elements = record?;
+            if elements.len() < 2 {
+                bail!("Invalid word clusters record: {:?}", elements);
+            }
             let hashed_key = hash_str_to_i32(elements[0].as_ref());
             // Casting into u16 is attempted only when all previous clusters were converted
             // successfully
-- 
2.43.0


From 5c53dfe0816ba5f40637eaf7697467c9ca3c6943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 04/15] fix: report an unreadable engine file under a non UTF-8
 path as an error

Loading an engine from a directory whose path is not valid UTF-8 panicked
while building the error for a missing or wrong nlu_engine.json.
---
 src/nlu_engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 8e9929b..0212ea6 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -68,7 +68,7 @@ impl SnipsNluEngine {
     fn load_model<P: AsRef<Path>>(path: P) -> Result<NluEngineModel> {
         let engine_model_path = path.as_ref().join("nlu_engine.json");
         Self::check_model_version(&engine_model_path).with_context(|_| {
-            SnipsNluError::ModelLoad(engine_model_path.to_str().unwrap().to_string())
+            SnipsNluError::ModelLoad(engine_model_path.to_string_lossy().into_owned())
         })?;
         let model_file = fs::File::open(&engine_model_path)
             .with_context(|_| format!("Could not open nlu engine file {:?}", &engine_model_path))?;
-- 
2.43.0


From 4efee53cee44b8dba40a97288cea59e2959de6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 05/15] fix: replace entity parsers atomically when injecting
 values

The injector removed the directory of the parser before writing the new one,
so a crash or an error (full disk, ...) in between destroyed the entity
parser, with its trained values, and the engine could not be loaded anymore.
An engine loaded meanwhile could also see a half written parser. Dump the
new parser aside and switch to it with an atomic rename.
---
 src/injection/injection.rs | 64 +++++++++++++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 8 deletions(-)

diff --git a/src/injection/injection.rs b/src/injection/injection.rs
index 541981c..c40febc 100644
--- a/src/injection/injection.rs
+++ b/src/injection/injection.rs
@@ -5,7 +5,7 @@ use std::path::{Path, PathBuf};
 use std::str::FromStr;
 use std::sync::Arc;
 
-use failure::ResultExt;
+use failure::{format_err, ResultExt};
 use itertools::Itertools;
 use log::info;
 use snips_nlu_ontology::{BuiltinGazetteerEntityKind, GrammarEntityKind};
@@ -18,6 +18,7 @@ use snips_nlu_utils::token::tokenize_light;
 
 use crate::entity_parser::custom_entity_parser::CustomEntityParserMetadata;
 use crate::entity_parser::custom_entity_parser::CustomEntityParserUsage;
+use crate::errors;
 use crate::models::nlu_engine::NluEngineModel;
 use crate::resources::loading::load_engine_shared_resources;
 use crate::resources::stemmer::Stemmer;
@@ -151,13 +152,7 @@ impl<P: AsRef<Path>> NluInjector<P> {
                     msg: format!("could not inject values for entity '{}'", entity),
                 })?;
 
-            fs::remove_dir_all(parser_dir.clone()).with_context(|_| {
-                NluInjectionErrorKind::InternalInjectionError {
-                    msg: format!("could not remove previous parser at {:?}", parser_dir),
-                }
-            })?;
-
-            gazetteer_parser.dump(&parser_dir).with_context(|_| {
+            replace_parser(&gazetteer_parser, parser_dir).with_context(|_| {
                 NluInjectionErrorKind::InternalInjectionError {
                     msg: format!("failed to dump gazetteer parser in {:?}", parser_dir),
                 }
@@ -169,6 +164,59 @@ impl<P: AsRef<Path>> NluInjector<P> {
     }
 }
 
+/// Replaces the parser stored in `parser_dir`, which contains a complete and consistent parser at
+/// any time: either the previous one or the new one.
+///
+/// The new parser is first dumped aside, its data file is then moved next to the one of the
+/// previous parser, and the atomic replacement of the metadata file, which points to the data
+/// file, switches from the previous parser to the new one.
+fn replace_parser(parser: &GazetteerEntityParser, parser_dir: &Path) -> errors::Result<()> {
+    let parent_dir = parser_dir
+        .parent()
+        .ok_or_else(|| format_err!("{:?} has no parent directory", parser_dir))?;
+    let tmp_dir = tempfile::Builder::new()
+        .prefix(".injection_")
+        .tempdir_in(parent_dir)?;
+    let dump_dir = tmp_dir.path().join("parser");
+    parser.dump(&dump_dir)?;
+
+    let metadata_path = parser_dir.join("metadata.json");
+    let new_metadata_path = dump_dir.join("metadata.json");
+    let (_, previous_filename) = read_parser_metadata(&metadata_path)?;
+    let (mut new_metadata, dumped_filename) = read_parser_metadata(&new_metadata_path)?;
+    let new_filename = tmp_dir
+        .path()
+        .file_name()
+        .map(|name| name.to_string_lossy().replace(".injection_", "parser_"))
+        .ok_or_else(|| format_err!("Invalid temporary directory {:?}", tmp_dir.path()))?;
+
+    new_metadata["parser_filename"] = new_filename.clone().into();
+    fs::write(&new_metadata_path, serde_json::to_string(&new_metadata)?)?;
+    fs::File::open(&new_metadata_path)?.sync_all()?;
+    let dumped_path = dump_dir.join(dumped_filename);
+    fs::File::open(&dumped_path)?.sync_all()?;
+
+    let new_path = parser_dir.join(new_filename);
+    fs::rename(&dumped_path, &new_path)?;
+    if let Err(e) = fs::rename(&new_metadata_path, &metadata_path) {
+        let _ = fs::remove_file(&new_path);
+        return Err(e.into());
+    }
+
+    // The new parser is in place: failing to remove the previous one is harmless
+    let _ = fs::remove_file(parser_dir.join(previous_filename));
+    Ok(())
+}
+
+fn read_parser_metadata(metadata_path: &Path) -> errors::Result<(serde_json::Value, String)> {
+    let metadata: serde_json::Value = serde_json::from_slice(&fs::read(metadata_path)?)?;
+    let parser_filename = metadata["parser_filename"]
+        .as_str()
+        .map(|filename| filename.to_string())
+        .ok_or_else(|| format_err!("No parser filename in {:?}", metadata_path))?;
+    Ok((metadata, parser_filename))
+}
+
 fn get_entity_parsers_dirs(
     engine_info: &NluEngineInfo,
     maybe_builtin_parser_info: &Option<BuiltinGazetteerParserInfo>,
-- 
2.43.0


From a449c61ec8d52188943a50eed8f13b75eaa90ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 06/15] fix: extract_slot reports the text found at the slot's
 range as raw value

---
 src/nlu_engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 0212ea6..2c44873 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -460,7 +460,7 @@ fn extract_custom_slot(
     )?;
     Ok(if let Some(matched_entity) = custom_entities.pop() {
         Some(Slot {
-            raw_value: matched_entity.value,
+            raw_value: substring_with_char_range(input, &matched_entity.range),
             value: SlotValue::Custom(matched_entity.resolved_value.into()),
             alternatives: matched_entity
                 .alternative_resolved_values
-- 
2.43.0


From 2b2e204da2281fbe55dbe1c35461175b9202f6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 07/15] fix: ranges of entities stay right when lowercasing
 changes the number of characters

---
 src/entity_parser/builtin_entity_parser.rs | 48 ++++++++++++----------
 src/entity_parser/custom_entity_parser.rs  | 15 ++++---
 src/entity_parser/utils.rs                 | 38 +++++++++++++++++
 3 files changed, 74 insertions(+), 27 deletions(-)

diff --git a/src/entity_parser/builtin_entity_parser.rs b/src/entity_parser/builtin_entity_parser.rs
index 01416b8..73ca781 100644
--- a/src/entity_parser/builtin_entity_parser.rs
+++ b/src/entity_parser/builtin_entity_parser.rs
@@ -5,7 +5,7 @@ use log::info;
 use snips_nlu_ontology::{BuiltinEntity, BuiltinEntityKind};
 use snips_nlu_parsers::BuiltinEntityParser as _BuiltinEntityParser;
 
-use super::utils::Cache;
+use super::utils::{Cache, LowercasedSentence};
 use crate::errors::*;
 
 pub trait BuiltinEntityParser: Send + Sync {
@@ -38,30 +38,34 @@ impl BuiltinEntityParser for CachingBuiltinEntityParser {
         use_cache: bool,
         max_alternative_resolved_values: usize,
     ) -> Result<Vec<BuiltinEntity>> {
-        let lowercased_sentence = sentence.to_lowercase();
-        if !use_cache {
-            return self.parser.extract_entities(
-                &lowercased_sentence,
+        let lowercased_sentence = LowercasedSentence::new(sentence);
+        let mut entities = if use_cache {
+            let cache_key = CacheKey {
+                input: lowercased_sentence.value.clone(),
+                kinds: filter_entity_kinds.map(|entity_kinds| entity_kinds.to_vec()),
+                max_alternative_resolved_values,
+            };
+            self.cache
+                .lock()
+                .unwrap()
+                .try_cache(&cache_key, |cache_key| {
+                    self.parser.extract_entities(
+                        &cache_key.input,
+                        filter_entity_kinds,
+                        max_alternative_resolved_values,
+                    )
+                })
+        } else {
+            self.parser.extract_entities(
+                &lowercased_sentence.value,
                 filter_entity_kinds,
                 max_alternative_resolved_values,
-            );
+            )
+        }?;
+        for entity in entities.iter_mut() {
+            entity.range = lowercased_sentence.original_range(&entity.range);
         }
-        let cache_key = CacheKey {
-            input: lowercased_sentence,
-            kinds: filter_entity_kinds.map(|entity_kinds| entity_kinds.to_vec()),
-            max_alternative_resolved_values,
-        };
-
-        self.cache
-            .lock()
-            .unwrap()
-            .try_cache(&cache_key, |cache_key| {
-                self.parser.extract_entities(
-                    &cache_key.input,
-                    filter_entity_kinds,
-                    max_alternative_resolved_values,
-                )
-            })
+        Ok(entities)
     }
 }
 
diff --git a/src/entity_parser/custom_entity_parser.rs b/src/entity_parser/custom_entity_parser.rs
index 98d3585..f8e81cc 100644
--- a/src/entity_parser/custom_entity_parser.rs
+++ b/src/entity_parser/custom_entity_parser.rs
@@ -14,7 +14,7 @@ use snips_nlu_parsers::{GazetteerEntityMatch, GazetteerParser};
 use snips_nlu_utils::language::Language as NluUtilsLanguage;
 use snips_nlu_utils::token::*;
 
-use crate::entity_parser::utils::Cache;
+use crate::entity_parser::utils::{Cache, LowercasedSentence};
 use crate::errors::*;
 use crate::language::FromLanguage;
 use crate::utils::EntityName;
@@ -72,14 +72,15 @@ impl CustomEntityParser for CachingCustomEntityParser {
         filter_entity_kinds: Option<&[String]>,
         max_alternative_resolved_values: usize,
     ) -> Result<Vec<CustomEntity>> {
-        let lowercased_sentence = sentence.to_lowercase();
+        let lowercased_sentence = LowercasedSentence::new(sentence);
         let cache_key = CacheKey {
-            input: lowercased_sentence,
+            input: lowercased_sentence.value.clone(),
             kinds: filter_entity_kinds.map(|entity_kinds| entity_kinds.to_vec()),
             max_alternative_resolved_values,
         };
 
-        self.cache
+        let mut entities = self
+            .cache
             .lock()
             .unwrap()
             .try_cache(&cache_key, |cache_key| {
@@ -88,7 +89,11 @@ impl CustomEntityParser for CachingCustomEntityParser {
                     filter_entity_kinds,
                     max_alternative_resolved_values,
                 )
-            })
+            })?;
+        for entity in entities.iter_mut() {
+            entity.range = lowercased_sentence.original_range(&entity.range);
+        }
+        Ok(entities)
     }
 }
 
diff --git a/src/entity_parser/utils.rs b/src/entity_parser/utils.rs
index 265e42c..9763177 100644
--- a/src/entity_parser/utils.rs
+++ b/src/entity_parser/utils.rs
@@ -1,4 +1,5 @@
 use std::hash::Hash;
+use std::ops::Range;
 
 use lru_cache::LruCache;
 
@@ -28,3 +29,40 @@ where
         Ok(value)
     }
 }
+
+/// A lowercased sentence, along with what is needed to express ranges of the lowercased
+/// sentence as ranges of the original one: lowercasing may change the number of characters,
+/// e.g. 'İ' is lowercased into two characters.
+pub struct LowercasedSentence {
+    pub value: String,
+    // Index of the original character for each lowercased character, when they differ
+    original_indexes: Option<Vec<usize>>,
+}
+
+impl LowercasedSentence {
+    pub fn new(sentence: &str) -> Self {
+        let value = sentence.to_lowercase();
+        let original_indexes = if value.chars().count() == sentence.chars().count() {
+            None
+        } else {
+            Some(
+                sentence
+                    .chars()
+                    .enumerate()
+                    .flat_map(|(index, c)| c.to_lowercase().map(move |_| index))
+                    .collect(),
+            )
+        };
+        Self {
+            value,
+            original_indexes,
+        }
+    }
+
+    pub fn original_range(&self, range: &Range<usize>) -> Range<usize> {
+        match self.original_indexes.as_ref() {
+            Some(indexes) if !range.is_empty() => indexes[range.start]..indexes[range.end - 1] + 1,
+            _ => range.clone(),
+        }
+    }
+}
-- 
2.43.0


From 73c8c43d41588b1a7e06656c34359aeb91316192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 08/15] fix: replacing entities beyond 32767 characters no
 longer gives wrong ranges

---
 src/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 91826f0..7ea8858 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -142,17 +142,17 @@ where
 
     let mut range_mapping: HashMap<Range<usize>, Range<usize>> = HashMap::new();
     let mut processed_text = "".to_string();
-    let mut offset = 0;
+    let mut offset: isize = 0;
     let mut current_ix = 0;
 
     for matched_entity in dedup_matches {
-        let range_start = (matched_entity.range.start as i16 + offset) as usize;
+        let range_start = (matched_entity.range.start as isize + offset) as usize;
         let prefix_text =
             substring_with_char_range(text.to_string(), &(current_ix..matched_entity.range.start));
         let entity_text = placeholder_fn(&*matched_entity.entity_name);
         processed_text = format!("{}{}{}", processed_text, prefix_text, entity_text);
-        offset += entity_text.chars().count() as i16 - matched_entity.range.clone().count() as i16;
-        let range_end = (matched_entity.range.end as i16 + offset) as usize;
+        offset += entity_text.chars().count() as isize - matched_entity.range.clone().count() as isize;
+        let range_end = (matched_entity.range.end as isize + offset) as usize;
         let new_range = range_start..range_end;
         current_ix = matched_entity.range.end;
         range_mapping.insert(new_range, matched_entity.range);
-- 
2.43.0


From e83793bfcc85395c5c64ccebbd39b2da5ed734bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 09/15] fix: the intents filter applies to classifiers without
 trained features

---
 .../log_reg_intent_classifier.rs              | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index a290448..2b83c20 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -108,11 +108,27 @@ impl LogRegIntentClassifier {
         input: &str,
         intents_whitelist: Option<&[&str]>,
     ) -> Result<Vec<IntentClassifierResult>> {
+        let opt_intents_set: Option<HashSet<&str>> =
+            intents_whitelist.map(|intent_list| HashSet::from_iter(intent_list.iter().cloned()));
+        let is_allowed = |res: &IntentClassifierResult| {
+            if let Some(intent) = res.intent_name.as_ref() {
+                opt_intents_set
+                    .as_ref()
+                    .map(|intents| intents.contains(&**intent))
+                    .unwrap_or(true)
+            } else {
+                true
+            }
+        };
+
         if self.intent_list.len() <= 1 {
             return Ok(vec![IntentClassifierResult {
                 intent_name: self.intent_list.first().cloned().unwrap_or(None),
                 confidence_score: 1.0,
-            }]);
+            }]
+            .into_iter()
+            .filter(is_allowed)
+            .collect());
         }
 
         if input.is_empty() || self.featurizer.is_none() || self.logreg.is_none() {
@@ -123,13 +139,11 @@ impl LogRegIntentClassifier {
                     intent_name: intent_name.clone(),
                     confidence_score: if intent_name.is_none() { 1.0 } else { 0.0 },
                 })
+                .filter(is_allowed)
                 .sorted_by(|a, b| b.confidence_score.partial_cmp(&a.confidence_score).unwrap())
                 .collect());
         }
 
-        let opt_intents_set: Option<HashSet<&str>> =
-            intents_whitelist.map(|intent_list| HashSet::from_iter(intent_list.iter().cloned()));
-
         let featurizer = self.featurizer.as_ref().unwrap(); // Checked above
         let logreg = self.logreg.as_ref().unwrap(); // Checked above
 
@@ -144,16 +158,7 @@ impl LogRegIntentClassifier {
                 intent_name: intent_name.clone(),
                 confidence_score: *score,
             })
-            .filter(|res| {
-                if let Some(intent) = res.intent_name.as_ref() {
-                    opt_intents_set
-                        .as_ref()
-                        .map(|intents| intents.contains(&**intent))
-                        .unwrap_or(true)
-                } else {
-                    true
-                }
-            })
+            .filter(is_allowed)
             .sorted_by(|a, b| b.confidence_score.partial_cmp(&a.confidence_score).unwrap())
             .collect())
     }
-- 
2.43.0


From 3d7fbc66381aca58525d97c7de0fa5718e6175ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 10/15] fix: bound the entity subsets tried by the lookup
 parser

Every subset of the entities found in a sentence was built in advance: a
sentence with 25 entity values took gigabytes of memory and minutes, one
with 40 never returned. Subsets larger than the number of slots of any
known utterance cannot match and are no longer built.
---
 src/intent_parser/lookup_intent_parser.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index a62471c..fe18a9b 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -223,6 +223,14 @@ impl LookupIntentParser {
         intents_whitelist: Option<&[&str]>,
     ) -> Result<Vec<(String, Vec<MatchedEntity>)>> {
         let mut candidates: Vec<(String, Vec<MatchedEntity>)> = Vec::new();
+        // Subsets with more entities than any known utterance has slots cannot match, leaving them
+        // out keeps the number of candidates reasonable when the input contains many entities
+        let max_nb_slots = self
+            .map
+            .values()
+            .map(|(_, slots_ids)| slots_ids.len())
+            .max()
+            .unwrap_or(0);
         for entity_scope in self.entity_scopes.iter() {
             let intent_group: Vec<&String> = entity_scope
                 .intent_group
@@ -239,7 +247,7 @@ impl LookupIntentParser {
             let all_entities = self.get_all_entities(input, &entity_scope.entity_scope)?;
             // We generate all subsets of entities to match utterances containing ambivalent
             // words which can be both entity values or random words
-            for entities in get_items_combinations(all_entities) {
+            for entities in get_bounded_items_combinations(all_entities, max_nb_slots) {
                 let processed_text = replace_entities_with_placeholders(input, entities.as_ref());
                 for intent in intent_group.iter() {
                     let cleaned_text = self.preprocess_text(input, intent);
@@ -372,11 +380,20 @@ fn replace_entities_with_placeholders(text: &str, entities: &[MatchedEntity]) ->
     }
 }
 
+#[cfg(test)]
 fn get_items_combinations<T>(items: Vec<T>) -> Vec<Vec<T>>
 where
     T: Clone,
 {
-    let mut combinations: Vec<Vec<T>> = (1..items.len() + 1)
+    let nb_items = items.len();
+    get_bounded_items_combinations(items, nb_items)
+}
+
+fn get_bounded_items_combinations<T>(items: Vec<T>, max_nb_items: usize) -> Vec<Vec<T>>
+where
+    T: Clone,
+{
+    let mut combinations: Vec<Vec<T>> = (1..items.len().min(max_nb_items) + 1)
         .rev()
         .flat_map(|nb_entities| items.clone().into_iter().combinations(nb_entities))
         .collect();
-- 
2.43.0


From cb15aad17084d0711eb6479414239fbe58b77e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:53 +0000
Subject: [PATCH 11/15] fix: refuse to classify when the scores of a damaged
 model are not numbers

Sorting or comparing NaN scores panicked in the middle of a query.
---
 src/intent_classifier/log_reg_intent_classifier.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index 2b83c20..eed5abf 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -149,6 +149,9 @@ impl LogRegIntentClassifier {
 
         let features = featurizer.transform(input)?;
         let scores = logreg.run(&features.view())?;
+        if scores.iter().any(|score| score.is_nan()) {
+            bail!("Invalid LogRegIntentClassifier model: scores cannot be computed");
+        }
 
         Ok(self
             .intent_list
-- 
2.43.0


From 08f225e1325ea8e32c2166d63408e3c43d3655bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:53 +0000
Subject: [PATCH 12/15] fix: check the indexes of the vectorizers when loading
 a classifier

A vocabulary or word pair index out of range made queries panic (or loop
over a huge vector) on a model which had been loaded without an error.
---
 src/intent_classifier/featurizer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/intent_classifier/featurizer.rs b/src/intent_classifier/featurizer.rs
index 36cb84f..38f9298 100644
--- a/src/intent_classifier/featurizer.rs
+++ b/src/intent_classifier/featurizer.rs
@@ -5,7 +5,7 @@ use std::path::Path;
 use std::str::FromStr;
 use std::sync::Arc;
 
-use failure::{format_err, ResultExt};
+use failure::{bail, format_err, ResultExt};
 use itertools::Itertools;
 use ndarray::prelude::*;
 use snips_nlu_ontology::{BuiltinEntityKind, Language};
@@ -122,6 +122,9 @@ impl TfidfVectorizer {
     ) -> Result<Self> {
         let vocabulary = model.vectorizer.vocab;
         let idf_diag = model.vectorizer.idf_diag;
+        if vocabulary.values().any(|idx| *idx >= idf_diag.len()) {
+            bail!("Invalid TfidfVectorizer model: missing idf weights");
+        }
 
         let ontology_language = Language::from_str(model.language_code.as_ref())?;
         let language = NluUtilsLanguage::from_language(ontology_language);
@@ -217,7 +220,7 @@ impl TfidfVectorizer {
             word_clusters,
         ];
 
-        let vocabulary_size = self.vocabulary.values().max().unwrap() + 1;
+        let vocabulary_size = self.vocabulary.values().max().map_or(0, |idx| idx + 1);
         let mut features: Vec<f32> = vec![0.; vocabulary_size];
         let mut match_idx: HashSet<usize> = HashSet::new();
         for extracted_features in features_it.iter() {
@@ -284,11 +287,14 @@ impl CooccurrenceVectorizer {
             })
             .collect::<Result<Vec<BuiltinEntityKind>>>()?;
 
-        let word_pairs = model
+        let word_pairs: HashMap<WordPair, usize> = model
             .word_pairs
             .into_iter()
             .map(|(index, pairs)| (pairs, index))
             .collect();
+        if word_pairs.values().any(|idx| *idx >= word_pairs.len()) {
+            bail!("Invalid CooccurrenceVectorizer model: inconsistent word pairs indexes");
+        }
 
         let filter_stop_words = model.config.filter_stop_words;
         let window_size = model.config.window_size;
-- 
2.43.0


From cc329ea6fd7fef3e45490187c9ebfb2969db7975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:53 +0000
Subject: [PATCH 13/15] fix: check the intent and slot ids of a lookup parser
 when loading it

An id out of range made a query panic on a model which had been loaded
without an error.
---
 src/intent_parser/lookup_intent_parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index fe18a9b..ded4c09 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -7,7 +7,7 @@ use crate::slot_utils::*;
 use crate::utils::{deduplicate_overlapping_entities, IntentName, MatchedEntity, SlotName};
 use crate::IntentParser;
 use crate::{EntityScope, GroupedEntityScope, InputHash, IntentId, SlotId};
-use failure::ResultExt;
+use failure::{bail, ResultExt};
 use itertools::Itertools;
 use log::debug;
 use snips_nlu_ontology::{BuiltinEntityKind, IntentClassifierResult, Language};
@@ -61,6 +61,15 @@ impl LookupIntentParser {
     /// create a parser instance
     pub fn new(model: LookupParserModel, shared_resources: Arc<SharedResources>) -> Result<Self> {
         let language = Language::from_str(&model.language_code)?;
+        let is_valid_id = |id: i32, nb_items: usize| id >= 0 && (id as usize) < nb_items;
+        if !model.map.values().all(|(intent_id, slots_ids)| {
+            is_valid_id(*intent_id, model.intents_names.len())
+                && slots_ids
+                    .iter()
+                    .all(|slot_id| is_valid_id(*slot_id, model.slots_names.len()))
+        }) {
+            bail!("Invalid LookupIntentParser model: unknown intent or slot id");
+        }
         let stop_words = if model.config.ignore_stop_words {
             shared_resources.stop_words.clone()
         } else {
-- 
2.43.0


From d7ce8951f73f3f3f4d8042389d7b36f0922ce34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:53 +0000
Subject: [PATCH 14/15] fix: check the slot mappings of a deterministic parser
 when loading it

A regex group without slot name or entity made a matching query panic on
a model which had been loaded without an error.
---
 src/intent_parser/deterministic_intent_parser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/intent_parser/deterministic_intent_parser.rs b/src/intent_parser/deterministic_intent_parser.rs
index 7040463..d0c1b72 100644
--- a/src/intent_parser/deterministic_intent_parser.rs
+++ b/src/intent_parser/deterministic_intent_parser.rs
@@ -109,9 +109,21 @@ impl DeterministicIntentParser {
                 )
             })
             .collect();
+        let regexes_per_intent = compile_regexes_per_intent(model.patterns)?;
+        let slot_names = &model.group_names_to_slot_names;
+        let entities = &model.slot_names_to_entities;
+        for (intent, regexes) in regexes_per_intent.iter() {
+            for group_name in regexes.iter().flat_map(|r| r.capture_names()).flatten() {
+                let group_name = group_name.split('_').collect::<Vec<&str>>()[0];
+                slot_names
+                    .get(group_name)
+                    .and_then(|slot_name| entities.get(intent)?.get(slot_name))
+                    .ok_or_else(|| format_err!("No associated slot for group '{}'", group_name))?;
+            }
+        }
         Ok(DeterministicIntentParser {
             language,
-            regexes_per_intent: compile_regexes_per_intent(model.patterns)?,
+            regexes_per_intent,
             group_names_to_slot_names: model.group_names_to_slot_names,
             slot_names_to_entities: model.slot_names_to_entities,
             stop_words,
-- 
2.43.0


From 2aeef2fe432f801478524ab4b8c26d8b50ceca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:53 +0000
Subject: [PATCH 15/15] fix: no overflow for a huge ngram size of a CRF feature

---
 src/slot_filler/features.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slot_filler/features.rs b/src/slot_filler/features.rs
index b7f9657..cd29861 100644
--- a/src/slot_filler/features.rs
+++ b/src/slot_filler/features.rs
@@ -149,7 +149,7 @@ impl Feature for NgramFeature {
 
     fn compute(&self, tokens: &[Token], token_index: usize) -> Result<Option<String>> {
         // TODO we should precompute the lowercase value somewhere, perhaps use NormalizedToken ?
-        if token_index + self.ngram_size > tokens.len() {
+        if self.ngram_size > tokens.len() - token_index {
             return Ok(None);
         }
         let result = tokens[token_index..token_index + self.ngram_size]
-- 
2.43.0

