From f08b0c1cf41d3dbefe8af12a525f6291758416d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 01/29] fix: keep path costs in 64 bits so that long sentences
 cannot overflow them

---
 lindera-core/src/viterbi.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lindera-core/src/viterbi.rs b/lindera-core/src/viterbi.rs
index 7c66bcc..2558285 100644
--- a/lindera-core/src/viterbi.rs
+++ b/lindera-core/src/viterbi.rs
@@ -28,7 +28,7 @@ pub struct Edge {
     pub edge_type: EdgeType,
     pub word_entry: WordEntry,
 
-    pub path_cost: i32,
+    pub path_cost: i64,
     pub left_edge: Option<EdgeId>,
 
     pub start_index: u32,
@@ -126,7 +126,7 @@ impl Lattice {
                         left_edge: None,
                         start_index: start as u32,
                         stop_index: (start + prefix_len) as u32,
-                        path_cost: i32::max_value(),
+                        path_cost: i64::max_value(),
                         kanji_only: is_kanji_only(&suffix[..prefix_len]),
                     };
                     self.add_edge_in_lattice(edge);
@@ -143,7 +143,7 @@ impl Lattice {
                     left_edge: None,
                     start_index: start as u32,
                     stop_index: (start + prefix_len) as u32,
-                    path_cost: i32::max_value(),
+                    path_cost: i64::max_value(),
                     kanji_only: is_kanji_only(&suffix[..prefix_len]),
                 };
                 self.add_edge_in_lattice(edge);
@@ -214,7 +214,7 @@ impl Lattice {
                     left_edge: None,
                     start_index: start as u32,
                     stop_index: (start + unknown_word.len()) as u32,
-                    path_cost: i32::max_value(),
+                    path_cost: i64::max_value(),
                     kanji_only: is_kanji_only(&unknown_word[..]),
                 };
                 self.add_edge_in_lattice(edge);
@@ -257,15 +257,16 @@ impl Lattice {
                         let left_edge = self.edge(left_edge_id);
                         let mut path_cost = left_edge.path_cost
                             + cost_matrix
-                                .cost(left_edge.word_entry.right_id(), right_word_entry.left_id());
-                        path_cost += mode.penalty_cost(left_edge);
+                                .cost(left_edge.word_entry.right_id(), right_word_entry.left_id())
+                                as i64;
+                        path_cost += mode.penalty_cost(left_edge) as i64;
                         (path_cost, left_edge_id)
                     })
                     .min_by_key(|&(cost, _)| cost);
                 if let Some((best_cost, best_left)) = best_path {
                     let edge = &mut self.edges[right_edge_id.0 as usize];
                     edge.left_edge = Some(best_left);
-                    edge.path_cost = right_word_entry.word_cost as i32 + best_cost;
+                    edge.path_cost = right_word_entry.word_cost as i64 + best_cost;
                 }
             }
         }
-- 
2.43.0


From 4f37ad1555656a75c1a727b0e79a49fb1f2fb349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 02/29] fix: refuse dictionary rows with too few fields instead
 of panicking

---
 lindera-dictionary-builder/src/dict.rs      |  6 ++--
 lindera-dictionary-builder/src/user_dict.rs | 32 ++++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index c0d8f17..7b34801 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -120,7 +120,7 @@ impl DictBuilder {
         let mut word_entry_map: BTreeMap<String, Vec<WordEntry>> = BTreeMap::new();
 
         for (row_id, row) in rows.iter().enumerate() {
-            let word_cost = match i16::from_str(row[3].trim()) {
+            let word_cost = match i16::from_str(row.get(3).unwrap_or_default().trim()) {
                 Ok(wc) => wc,
                 Err(_err) => {
                     if self.skip_invalid_cost_or_id {
@@ -132,7 +132,7 @@ impl DictBuilder {
                     }
                 }
             };
-            let left_id = match u16::from_str(row[1].trim()) {
+            let left_id = match u16::from_str(row.get(1).unwrap_or_default().trim()) {
                 Ok(lid) => lid,
                 Err(_err) => {
                     if self.skip_invalid_cost_or_id {
@@ -144,7 +144,7 @@ impl DictBuilder {
                     }
                 }
             };
-            let right_id = match u16::from_str(row[2].trim()) {
+            let right_id = match u16::from_str(row.get(2).unwrap_or_default().trim()) {
                 Ok(rid) => rid,
                 Err(_err) => {
                     if self.skip_invalid_cost_or_id {
diff --git a/lindera-dictionary-builder/src/user_dict.rs b/lindera-dictionary-builder/src/user_dict.rs
index d4a1f4d..36b651e 100644
--- a/lindera-dictionary-builder/src/user_dict.rs
+++ b/lindera-dictionary-builder/src/user_dict.rs
@@ -62,22 +62,32 @@ impl UserDictBuilder {
             let word_cost = if row.len() == self.simple_userdic_fields_num {
                 self.simple_word_cost
             } else {
-                row[3].parse::<i16>().map_err(|_err| {
-                    LinderaErrorKind::Parse.with_error(anyhow::anyhow!("failed to parse word cost"))
-                })?
+                row.get(3)
+                    .unwrap_or_default()
+                    .parse::<i16>()
+                    .map_err(|_err| {
+                        LinderaErrorKind::Parse
+                            .with_error(anyhow::anyhow!("failed to parse word cost"))
+                    })?
             };
             let (left_id, right_id) = if row.len() == self.simple_userdic_fields_num {
                 (self.simple_context_id, self.simple_context_id)
             } else {
                 (
-                    row[1].parse::<u16>().map_err(|_err| {
-                        LinderaErrorKind::Parse
-                            .with_error(anyhow::anyhow!("failed to parse left context id"))
-                    })?,
-                    row[2].parse::<u16>().map_err(|_err| {
-                        LinderaErrorKind::Parse
-                            .with_error(anyhow::anyhow!("failed to parse left context id"))
-                    })?,
+                    row.get(1)
+                        .unwrap_or_default()
+                        .parse::<u16>()
+                        .map_err(|_err| {
+                            LinderaErrorKind::Parse
+                                .with_error(anyhow::anyhow!("failed to parse left context id"))
+                        })?,
+                    row.get(2)
+                        .unwrap_or_default()
+                        .parse::<u16>()
+                        .map_err(|_err| {
+                            LinderaErrorKind::Parse
+                                .with_error(anyhow::anyhow!("failed to parse left context id"))
+                        })?,
                 )
             };
 
-- 
2.43.0


From 23cf31cf2fada0f1da45c35384f825ecc03e1ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 03/29] fix: report ko-dic and CC-CEDICT build errors instead
 of panicking

---
 lindera-cc-cedict-builder/src/cc_cedict_builder.rs | 8 ++++----
 lindera-ko-dic-builder/src/ko_dic_builder.rs       | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lindera-cc-cedict-builder/src/cc_cedict_builder.rs b/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
index d1845eb..bb92ff6 100644
--- a/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
+++ b/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
@@ -36,10 +36,10 @@ impl DictionaryBuilder for CcCedictBuilder {
         fs::create_dir_all(output_dir)
             .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
 
-        let chardef = self.build_chardef(input_dir, output_dir).unwrap();
-        self.build_unk(input_dir, &chardef, output_dir).unwrap();
-        self.build_dict(input_dir, output_dir).unwrap();
-        self.build_cost_matrix(input_dir, output_dir).unwrap();
+        let chardef = self.build_chardef(input_dir, output_dir)?;
+        self.build_unk(input_dir, &chardef, output_dir)?;
+        self.build_dict(input_dir, output_dir)?;
+        self.build_cost_matrix(input_dir, output_dir)?;
 
         Ok(())
     }
diff --git a/lindera-ko-dic-builder/src/ko_dic_builder.rs b/lindera-ko-dic-builder/src/ko_dic_builder.rs
index 67d0142..123e5f1 100644
--- a/lindera-ko-dic-builder/src/ko_dic_builder.rs
+++ b/lindera-ko-dic-builder/src/ko_dic_builder.rs
@@ -36,10 +36,10 @@ impl DictionaryBuilder for KoDicBuilder {
         fs::create_dir_all(output_dir)
             .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
 
-        let chardef = self.build_chardef(input_dir, output_dir).unwrap();
-        self.build_unk(input_dir, &chardef, output_dir).unwrap();
-        self.build_dict(input_dir, output_dir).unwrap();
-        self.build_cost_matrix(input_dir, output_dir).unwrap();
+        let chardef = self.build_chardef(input_dir, output_dir)?;
+        self.build_unk(input_dir, &chardef, output_dir)?;
+        self.build_dict(input_dir, output_dir)?;
+        self.build_cost_matrix(input_dir, output_dir)?;
 
         Ok(())
     }
-- 
2.43.0


From cbdd549c53fc2e79a0940cd47ab490035c4b9d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 04/29] fix: refuse malformed lines and ids outside the table
 in matrix.def

---
 lindera-dictionary-builder/src/cost_matrix.rs | 36 +++++++++++++++----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/lindera-dictionary-builder/src/cost_matrix.rs b/lindera-dictionary-builder/src/cost_matrix.rs
index 53367a1..c0efee8 100644
--- a/lindera-dictionary-builder/src/cost_matrix.rs
+++ b/lindera-dictionary-builder/src/cost_matrix.rs
@@ -43,17 +43,39 @@ impl CostMatrixBuilder {
         let header = lines_it.next().ok_or_else(|| {
             LinderaErrorKind::Content.with_error(anyhow::anyhow!("unknown error"))
         })?;
-        let forward_size = header[0] as u32;
-        let backward_size = header[1] as u32;
-        let len = 2 + (forward_size * backward_size) as usize;
+        let (forward_size, backward_size) = match header[..] {
+            [forward_size, backward_size, ..] => (
+                u16::try_from(forward_size)
+                    .map_err(|err| LinderaErrorKind::Content.with_error(err))?,
+                u16::try_from(backward_size)
+                    .map_err(|err| LinderaErrorKind::Content.with_error(err))?,
+            ),
+            _ => {
+                return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
+                    "the first line of matrix.def should state two sizes"
+                )))
+            }
+        };
+        let len = 2 + forward_size as usize * backward_size as usize;
         let mut costs = vec![i16::MAX; len];
         costs[0] = forward_size as i16;
         costs[1] = backward_size as i16;
         for fields in lines_it {
-            let forward_id = fields[0] as u32;
-            let backward_id = fields[1] as u32;
-            let cost = fields[2] as u16;
-            costs[2 + (backward_id + forward_id * backward_size) as usize] = cost as i16;
+            let (forward_id, backward_id, cost) = match fields[..] {
+                [forward_id, backward_id, cost]
+                    if (0..forward_size as i32).contains(&forward_id)
+                        && (0..backward_size as i32).contains(&backward_id) =>
+                {
+                    let cost = i16::try_from(cost)
+                        .map_err(|err| LinderaErrorKind::Content.with_error(err))?;
+                    (forward_id as usize, backward_id as usize, cost)
+                }
+                _ => {
+                    return Err(LinderaErrorKind::Content
+                        .with_error(anyhow::anyhow!("invalid line in matrix.def: {:?}", fields)))
+                }
+            };
+            costs[2 + backward_id + forward_id * backward_size as usize] = cost;
         }
 
         let wtr_matrix_mtx_path = output_dir.join(Path::new("matrix.mtx"));
-- 
2.43.0


From bb011a8a068b5eb64ddb4c0c58a9a6b66043bbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 05/29] fix: read the connection table width as the unsigned
 number it is

---
 lindera-core/src/connection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lindera-core/src/connection.rs b/lindera-core/src/connection.rs
index 707f503..3145887 100644
--- a/lindera-core/src/connection.rs
+++ b/lindera-core/src/connection.rs
@@ -11,7 +11,7 @@ pub struct ConnectionCostMatrix {
 
 impl ConnectionCostMatrix {
     pub fn load_static(conn_data: &'static [u8]) -> ConnectionCostMatrix {
-        let backward_size = LittleEndian::read_i16(&conn_data[2..4]);
+        let backward_size = LittleEndian::read_u16(&conn_data[2..4]);
         ConnectionCostMatrix {
             costs_data: Cow::Borrowed(&conn_data[4..]),
             backward_size: backward_size as u32,
@@ -19,7 +19,7 @@ impl ConnectionCostMatrix {
     }
 
     pub fn load(conn_data: &[u8]) -> ConnectionCostMatrix {
-        let backward_size = LittleEndian::read_i16(&conn_data[2..4]);
+        let backward_size = LittleEndian::read_u16(&conn_data[2..4]);
         ConnectionCostMatrix {
             costs_data: Cow::Owned(conn_data[4..].to_vec()),
             backward_size: backward_size as u32,
-- 
2.43.0


From d0a315ce9bb3f7453200b256e26683fb1f5d8cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 06/29] fix: attach char.def flags to the category they are
 stated for

---
 lindera-core/src/character_definition.rs  | 37 ++++++++++++++++++-----
 lindera-dictionary-builder/src/chardef.rs |  2 +-
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/lindera-core/src/character_definition.rs b/lindera-core/src/character_definition.rs
index c3fb3dd..223fce2 100644
--- a/lindera-core/src/character_definition.rs
+++ b/lindera-core/src/character_definition.rs
@@ -1,4 +1,4 @@
-use std::collections::{BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 
 use byteorder::{ByteOrder, LittleEndian};
 use encoding_rs::UTF_16LE;
@@ -101,7 +101,7 @@ impl CharacterDefinitions {
 
 #[derive(Default)]
 pub struct CharacterDefinitionsBuilder {
-    category_definition: Vec<CategoryData>,
+    category_definition: BTreeMap<CategoryId, CategoryData>,
     category_index: HashMap<String, CategoryId>,
     char_ranges: Vec<(u32, u32, Vec<CategoryId>)>,
 }
@@ -222,25 +222,46 @@ impl CharacterDefinitionsBuilder {
             length,
         };
         // force a category_id allocation
-        self.category_id(fields[0]);
-        self.category_definition.push(category_data);
+        let category_id = self.category_id(fields[0]);
+        if self
+            .category_definition
+            .insert(category_id, category_data)
+            .is_some()
+        {
+            return Err(LinderaErrorKind::Content
+                .with_error(anyhow::anyhow!("Category defined twice: {}", line)));
+        }
 
         Ok(())
     }
 
-    pub fn build(self) -> CharacterDefinitions {
+    pub fn build(self) -> LinderaResult<CharacterDefinitions> {
         let mut category_names: Vec<String> = (0..self.category_index.len())
             .map(|_| String::new())
             .collect();
         for (category_name, category_id) in &self.category_index {
             category_names[category_id.0] = category_name.clone();
         }
+        // category ids are allocated in order of first mention, which may be in a range
+        let category_definitions = category_names
+            .iter()
+            .enumerate()
+            .map(|(id, name)| {
+                self.category_definition
+                    .get(&CategoryId(id))
+                    .copied()
+                    .ok_or_else(|| {
+                        LinderaErrorKind::Content
+                            .with_error(anyhow::anyhow!("Undefined category: {}", name))
+                    })
+            })
+            .collect::<LinderaResult<Vec<CategoryData>>>()?;
         let mapping = self.build_lookup_table();
-        CharacterDefinitions {
-            category_definitions: self.category_definition,
+        Ok(CharacterDefinitions {
+            category_definitions,
             category_names,
             mapping,
-        }
+        })
     }
 }
 
diff --git a/lindera-dictionary-builder/src/chardef.rs b/lindera-dictionary-builder/src/chardef.rs
index 3a83d45..583f8b9 100644
--- a/lindera-dictionary-builder/src/chardef.rs
+++ b/lindera-dictionary-builder/src/chardef.rs
@@ -35,7 +35,7 @@ impl CharDefBuilder {
 
         let mut char_definitions_builder = CharacterDefinitionsBuilder::default();
         char_definitions_builder.parse(&char_def)?;
-        let char_definitions = char_definitions_builder.build();
+        let char_definitions = char_definitions_builder.build()?;
 
         let mut chardef_buffer = Vec::new();
         bincode::serialize_into(&mut chardef_buffer, &char_definitions)
-- 
2.43.0


From b9ef8eaf685297b7f59b7f7faccca04510aaf626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 07/29] fix: refuse unk.def numbers that do not fit instead of
 truncating them

---
 lindera-core/src/unknown_dictionary.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lindera-core/src/unknown_dictionary.rs b/lindera-core/src/unknown_dictionary.rs
index 996f64c..8a8ca1c 100644
--- a/lindera-core/src/unknown_dictionary.rs
+++ b/lindera-core/src/unknown_dictionary.rs
@@ -51,18 +51,18 @@ fn parse_dictionary_entry(
         )));
     }
     let surface = fields[0];
-    let left_id = u32::from_str(fields[1])
+    let left_id = u16::from_str(fields[1])
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
-    let right_id = u32::from_str(fields[2])
+    let right_id = u16::from_str(fields[2])
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
-    let word_cost = i32::from_str(fields[3])
+    let word_cost = i16::from_str(fields[3])
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
 
     Ok(UnknownDictionaryEntry {
         surface: surface.to_string(),
-        left_id,
-        right_id,
-        word_cost,
+        left_id: left_id.into(),
+        right_id: right_id.into(),
+        word_cost: word_cost.into(),
     })
 }
 
-- 
2.43.0


From a30b7d9b126578afedfc105d4194bc9fec8eb18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 08/29] fix: refuse reversed ranges in char.def

---
 lindera-core/src/character_definition.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lindera-core/src/character_definition.rs b/lindera-core/src/character_definition.rs
index 223fce2..0cf5cc5 100644
--- a/lindera-core/src/character_definition.rs
+++ b/lindera-core/src/character_definition.rs
@@ -185,6 +185,11 @@ impl CharacterDefinitionsBuilder {
                 );
             }
         }
+        if higher_bound < lower_bound {
+            return Err(
+                LinderaErrorKind::Content.with_error(anyhow::anyhow!("Invalid range: {}", line))
+            );
+        }
         let category_ids: Vec<CategoryId> = fields[1..]
             .iter()
             .map(|category| self.category_id(category))
-- 
2.43.0


From be287a8431ab53e74be36604a26e8a36c3a8b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 09/29] fix: accept a mapping filter without keys and refuse
 keys with NUL instead of panicking

---
 .../src/character_filter/mapping.rs           | 26 ++++++++++++++++---
 lindera-filter/src/token_filter/mapping.rs    | 26 ++++++++++++++++---
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/lindera-filter/src/character_filter/mapping.rs b/lindera-filter/src/character_filter/mapping.rs
index d76f063..ace8e5c 100644
--- a/lindera-filter/src/character_filter/mapping.rs
+++ b/lindera-filter/src/character_filter/mapping.rs
@@ -41,7 +41,8 @@ impl MappingCharacterFilterConfig {
 #[derive(Clone)]
 pub struct MappingCharacterFilter {
     config: MappingCharacterFilterConfig,
-    trie: DoubleArray<Vec<u8>>,
+    /// `None` if there is nothing to map.
+    trie: Option<DoubleArray<Vec<u8>>>,
 }
 
 impl MappingCharacterFilter {
@@ -53,11 +54,24 @@ impl MappingCharacterFilter {
             keyset.push((key.as_bytes(), value as u32));
         }
 
+        // The double array uses NUL as the terminator of a key.
+        if let Some((key, _)) = keyset.iter().find(|(key, _)| key.contains(&0)) {
+            return Err(LinderaErrorKind::Args.with_error(anyhow::anyhow!(
+                "mapping key must not contain NUL: {:?}",
+                String::from_utf8_lossy(key)
+            )));
+        }
+
+        // The double array cannot be built without keys.
+        if keyset.is_empty() {
+            return Ok(Self { config, trie: None });
+        }
+
         let data = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
         })?;
 
-        let trie = DoubleArray::new(data);
+        let trie = Some(DoubleArray::new(data));
 
         Ok(Self { config, trie })
     }
@@ -76,14 +90,18 @@ impl CharacterFilter for MappingCharacterFilter {
         let mut offsets: Vec<usize> = Vec::new();
         let mut diffs: Vec<i64> = Vec::new();
 
+        let trie = match &self.trie {
+            Some(trie) => trie,
+            None => return Ok((text.to_string(), offsets, diffs)),
+        };
+
         let mut result = String::new();
         let mut input_start = 0_usize;
         let len = text.len();
 
         while input_start < len {
             let suffix = &text[input_start..];
-            match self
-                .trie
+            match trie
                 .common_prefix_search(suffix.as_bytes())
                 .last()
                 .map(|(_offset_len, prefix_len)| prefix_len)
diff --git a/lindera-filter/src/token_filter/mapping.rs b/lindera-filter/src/token_filter/mapping.rs
index 8de2470..d442e63 100644
--- a/lindera-filter/src/token_filter/mapping.rs
+++ b/lindera-filter/src/token_filter/mapping.rs
@@ -38,7 +38,8 @@ impl MappingTokenFilterConfig {
 #[derive(Clone)]
 pub struct MappingTokenFilter {
     config: MappingTokenFilterConfig,
-    trie: DoubleArray<Vec<u8>>,
+    /// `None` if there is nothing to map.
+    trie: Option<DoubleArray<Vec<u8>>>,
 }
 
 impl MappingTokenFilter {
@@ -50,11 +51,24 @@ impl MappingTokenFilter {
             keyset.push((key.as_bytes(), value as u32));
         }
 
+        // The double array uses NUL as the terminator of a key.
+        if let Some((key, _)) = keyset.iter().find(|(key, _)| key.contains(&0)) {
+            return Err(LinderaErrorKind::Args.with_error(anyhow::anyhow!(
+                "mapping key must not contain NUL: {:?}",
+                String::from_utf8_lossy(key)
+            )));
+        }
+
+        // The double array cannot be built without keys.
+        if keyset.is_empty() {
+            return Ok(Self { config, trie: None });
+        }
+
         let data = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
         })?;
 
-        let trie = DoubleArray::new(data);
+        let trie = Some(DoubleArray::new(data));
 
         Ok(Self { config, trie })
     }
@@ -70,6 +84,11 @@ impl TokenFilter for MappingTokenFilter {
     }
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
+        let trie = match &self.trie {
+            Some(trie) => trie,
+            None => return Ok(()),
+        };
+
         for token in tokens.iter_mut() {
             let mut result = String::new();
             let mut start = 0_usize;
@@ -77,8 +96,7 @@ impl TokenFilter for MappingTokenFilter {
 
             while start < len {
                 let suffix = &token.text[start..];
-                match self
-                    .trie
+                match trie
                     .common_prefix_search(suffix.as_bytes())
                     .last()
                     .map(|(_offset_len, prefix_len)| prefix_len)
-- 
2.43.0


From a9c74513186a67fec75e6fd3a4755d57b66209e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 10/29] fix: normalize text parts together where their
 characters interact

---
 .../src/character_filter/unicode_normalize.rs | 78 +++++++++++++++++--
 1 file changed, 70 insertions(+), 8 deletions(-)

diff --git a/lindera-filter/src/character_filter/unicode_normalize.rs b/lindera-filter/src/character_filter/unicode_normalize.rs
index eaaf4fc..36f7d72 100644
--- a/lindera-filter/src/character_filter/unicode_normalize.rs
+++ b/lindera-filter/src/character_filter/unicode_normalize.rs
@@ -1,6 +1,9 @@
 use serde::{Deserialize, Serialize};
 use serde_json::Value;
-use unicode_normalization::UnicodeNormalization;
+use unicode_normalization::char::{
+    canonical_combining_class, decompose_canonical, decompose_compatible,
+};
+use unicode_normalization::{is_nfc_quick, IsNormalized, UnicodeNormalization};
 use unicode_segmentation::UnicodeSegmentation;
 
 use lindera_core::error::LinderaErrorKind;
@@ -60,6 +63,71 @@ impl UnicodeNormalizeCharacterFilter {
             UnicodeNormalizeCharacterFilterConfig::from_slice(data)?,
         ))
     }
+
+    /// Tells whether a text that starts with `c` can be normalized independently of the text
+    /// before it, i.e. `c` is neither reordered with nor composed with preceding characters.
+    fn is_boundary(&self, c: char) -> bool {
+        let mut first = None;
+        let compose = match self.config.kind {
+            UnicodeNormalizeKind::NFC | UnicodeNormalizeKind::NFD => {
+                decompose_canonical(c, |d| {
+                    first.get_or_insert(d);
+                });
+                self.config.kind == UnicodeNormalizeKind::NFC
+            }
+            UnicodeNormalizeKind::NFKC | UnicodeNormalizeKind::NFKD => {
+                decompose_compatible(c, |d| {
+                    first.get_or_insert(d);
+                });
+                self.config.kind == UnicodeNormalizeKind::NFKC
+            }
+        };
+        let first = first.unwrap_or(c);
+
+        canonical_combining_class(first) == 0
+            && (!compose || is_nfc_quick(std::iter::once(first)) == IsNormalized::Yes)
+    }
+
+    fn normalize(&self, text: &str) -> String {
+        match self.config.kind {
+            UnicodeNormalizeKind::NFC => text.nfc().collect::<String>(),
+            UnicodeNormalizeKind::NFD => text.nfd().collect::<String>(),
+            UnicodeNormalizeKind::NFKC => text.nfkc().collect::<String>(),
+            UnicodeNormalizeKind::NFKD => text.nfkd().collect::<String>(),
+        }
+    }
+
+    /// Splits the text into parts that can be normalized independently, which are grapheme
+    /// clusters, or several of them if they interact. Returns the parts with their normal forms.
+    fn split<'a>(&self, text: &'a str) -> Vec<(&'a str, String)> {
+        let mut parts = Vec::new();
+        let mut graphemes = text.graphemes(true).peekable();
+        let mut start = 0;
+        while let Some(first) = graphemes.next() {
+            // The graphemes up to the next boundary.
+            let mut group = vec![first];
+            while let Some(grapheme) =
+                graphemes.next_if(|g| g.chars().next().is_some_and(|c| !self.is_boundary(c)))
+            {
+                group.push(grapheme);
+            }
+            let end = start + group.iter().map(|g| g.len()).sum::<usize>();
+
+            let normalized = self.normalize(&text[start..end]);
+            let group = group
+                .into_iter()
+                .map(|g| (g, self.normalize(g)))
+                .collect::<Vec<_>>();
+            if group.iter().map(|(_, n)| n.as_str()).collect::<String>() == normalized {
+                parts.extend(group);
+            } else {
+                parts.push((&text[start..end], normalized));
+            }
+            start = end;
+        }
+
+        parts
+    }
 }
 
 impl CharacterFilter for UnicodeNormalizeCharacterFilter {
@@ -74,14 +142,8 @@ impl CharacterFilter for UnicodeNormalizeCharacterFilter {
         let mut result = String::new();
         let mut input_start = 0;
 
-        for c in text.graphemes(true) {
+        for (c, replacement_text) in self.split(text) {
             let input_len = c.len();
-            let replacement_text = match self.config.kind {
-                UnicodeNormalizeKind::NFC => c.nfc().collect::<String>(),
-                UnicodeNormalizeKind::NFD => c.nfd().collect::<String>(),
-                UnicodeNormalizeKind::NFKC => c.nfkc().collect::<String>(),
-                UnicodeNormalizeKind::NFKD => c.nfkd().collect::<String>(),
-            };
             let replacement_len = replacement_text.len();
             let diff_len = input_len as i64 - replacement_len as i64;
             let input_offset = input_start + input_len;
-- 
2.43.0


From d9408c8c53fbcc3423cdef83bacaec570e8857fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 11/29] fix: keep analyzer offsets within replacements on
 character boundaries

---
 lindera-analyzer/src/analyzer.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/lindera-analyzer/src/analyzer.rs b/lindera-analyzer/src/analyzer.rs
index a1749ad..cbdd4b3 100644
--- a/lindera-analyzer/src/analyzer.rs
+++ b/lindera-analyzer/src/analyzer.rs
@@ -30,6 +30,17 @@ impl AnalyzerConfig {
     }
 }
 
+/// The last character boundary of the text at or before the offset.
+/// An offset within a replacement may correspond to the inside of a character of the text.
+fn floor_char_boundary(text: &str, offset: usize) -> usize {
+    let mut offset = offset.min(text.len());
+    while !text.is_char_boundary(offset) {
+        offset -= 1;
+    }
+
+    offset
+}
+
 pub struct Analyzer {
     /// Character filters
     pub character_filters: Vec<BoxCharacterFilter>,
@@ -102,6 +113,7 @@ impl Analyzer {
     pub fn analyze(&self, text: &str) -> LinderaResult<Vec<Token>> {
         let mut normalized_text = text.to_string();
 
+        let mut text_vec: Vec<String> = Vec::new();
         let mut text_len_vec: Vec<usize> = Vec::new();
         let mut offsets_vec: Vec<Vec<usize>> = Vec::new();
         let mut diffs_vec: Vec<Vec<i64>> = Vec::new();
@@ -110,7 +122,7 @@ impl Analyzer {
         for character_filter in &self.character_filters {
             let (new_text, offsets, diffs) = character_filter.apply(normalized_text.as_str())?;
 
-            if !offsets.is_empty() {
+            if !offsets.is_empty() || new_text != normalized_text {
                 // Record the offsets of each character filter.
                 offsets_vec.insert(0, offsets);
 
@@ -119,6 +131,9 @@ impl Analyzer {
 
                 // Record the length of the text after each character filter is applied.
                 text_len_vec.insert(0, new_text.len());
+
+                // Record the text before each character filter is applied.
+                text_vec.insert(0, normalized_text);
             }
 
             normalized_text = new_text;
@@ -158,12 +173,16 @@ impl Analyzer {
             // Override details.
             for (i, offsets) in offsets_vec.iter().enumerate() {
                 // Override start.
-                token.byte_start =
-                    correct_offset(token.byte_start, offsets, &diffs_vec[i], text_len_vec[i]);
+                token.byte_start = floor_char_boundary(
+                    &text_vec[i],
+                    correct_offset(token.byte_start, offsets, &diffs_vec[i], text_len_vec[i]),
+                );
 
                 // Override end.
-                token.byte_end =
-                    correct_offset(token.byte_end, offsets, &diffs_vec[i], text_len_vec[i]);
+                token.byte_end = floor_char_boundary(
+                    &text_vec[i],
+                    correct_offset(token.byte_end, offsets, &diffs_vec[i], text_len_vec[i]),
+                );
             }
         }
 
-- 
2.43.0


From 4d8ce9d100c0d1c2c9713cac8c981230dfdb4886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 12/29] fix: compute regex filter offsets from the expanded
 replacement and for empty matches

---
 lindera-filter/src/character_filter/regex.rs | 38 +++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/lindera-filter/src/character_filter/regex.rs b/lindera-filter/src/character_filter/regex.rs
index ba4f66e..dd036f4 100644
--- a/lindera-filter/src/character_filter/regex.rs
+++ b/lindera-filter/src/character_filter/regex.rs
@@ -64,14 +64,25 @@ impl CharacterFilter for RegexCharacterFilter {
         let mut offsets: Vec<usize> = Vec::new();
         let mut diffs: Vec<i64> = Vec::new();
 
-        self.regex.find_iter(text).for_each(|mat| {
-            let input_start = mat.start();
-            let input_text = mat.as_str();
-            let input_len = input_text.len();
-            let replacement_text = self.config.replacement.as_str();
-            let replacement_len = replacement_text.len();
+        let mut new_text = String::with_capacity(text.len());
+        let mut last_end = 0;
+
+        for captures in self.regex.captures_iter(text) {
+            let mat = match captures.get(0) {
+                Some(mat) => mat,
+                None => continue,
+            };
+            let input_len = mat.len();
+            let input_offset = mat.end();
+
+            new_text.push_str(&text[last_end..mat.start()]);
+            last_end = mat.end();
+
+            // Expand the capture references of the replacement.
+            let output_start = new_text.len();
+            captures.expand(&self.config.replacement, &mut new_text);
+            let replacement_len = new_text.len() - output_start;
             let diff_len = input_len as i64 - replacement_len as i64;
-            let input_offset = input_start + input_len;
 
             if diff_len != 0 {
                 let prev_diff = *diffs.last().unwrap_or(&0);
@@ -83,7 +94,11 @@ impl CharacterFilter for RegexCharacterFilter {
                     add_offset_diff(&mut offsets, &mut diffs, offset, diff);
                 } else {
                     // Replacement is longer than matched surface.
-                    let output_start = (input_offset as i64 + -prev_diff) as usize;
+                    let mut output_start = (input_offset as i64 + -prev_diff) as usize;
+                    if input_len == 0 {
+                        // The offset before an insertion is not changed by it.
+                        output_start += 1;
+                    }
                     for extra_idx in 0..diff_len.unsigned_abs() as usize {
                         let offset = output_start + extra_idx;
                         let diff = prev_diff - extra_idx as i64 - 1;
@@ -91,12 +106,9 @@ impl CharacterFilter for RegexCharacterFilter {
                     }
                 }
             }
-        });
+        }
 
-        let new_text = self
-            .regex
-            .replace_all(text, &self.config.replacement)
-            .to_string();
+        new_text.push_str(&text[last_end..]);
 
         Ok((new_text, offsets, diffs))
     }
-- 
2.43.0


From 31185ff3ad1f06f26269d5047d6ea0f10a2bb25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 13/29] fix: report offsets when iteration marks expand to
 characters of another length

---
 .../japanese_iteration_mark.rs                | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/lindera-filter/src/character_filter/japanese_iteration_mark.rs b/lindera-filter/src/character_filter/japanese_iteration_mark.rs
index 6bb46e5..b7b4638 100644
--- a/lindera-filter/src/character_filter/japanese_iteration_mark.rs
+++ b/lindera-filter/src/character_filter/japanese_iteration_mark.rs
@@ -6,7 +6,7 @@ use serde_json::Value;
 use lindera_core::error::LinderaErrorKind;
 use lindera_core::LinderaResult;
 
-use crate::character_filter::CharacterFilter;
+use crate::character_filter::{add_offset_diff, CharacterFilter};
 
 pub const JAPANESE_ITERATION_MARK_CHARACTER_FILTER_NAME: &str = "japanese_iteration_mark";
 
@@ -186,7 +186,28 @@ impl CharacterFilter for JapaneseIterationMarkCharacterFilter {
             filterd_text.push_str(&self.normalize(&iter_marks, &text_chars));
         }
 
-        Ok((filterd_text, Vec::new(), Vec::new()))
+        // Each character is replaced by one character, which may differ in length.
+        let mut offsets: Vec<usize> = Vec::new();
+        let mut diffs: Vec<i64> = Vec::new();
+        let mut output_start = 0;
+        for (input, output) in text_chars.iter().zip(filterd_text.chars()) {
+            let (input_len, output_len) = (input.len_utf8(), output.len_utf8());
+            let prev_diff = *diffs.last().unwrap_or(&0);
+
+            if input_len > output_len {
+                let diff = prev_diff + (input_len - output_len) as i64;
+                add_offset_diff(&mut offsets, &mut diffs, output_start + output_len, diff);
+            } else {
+                for extra_idx in 0..output_len - input_len {
+                    let offset = output_start + input_len + extra_idx;
+                    let diff = prev_diff - extra_idx as i64 - 1;
+                    add_offset_diff(&mut offsets, &mut diffs, offset, diff);
+                }
+            }
+            output_start += output_len;
+        }
+
+        Ok((filterd_text, offsets, diffs))
     }
 }
 
@@ -200,7 +221,7 @@ mod tests {
         hiragana_add_dakuon, hiragana_remove_dakuon, katakana_add_dakuon, katakana_remove_dakuon,
         JapaneseIterationMarkCharacterFilter, JapaneseIterationMarkCharacterFilterConfig,
     };
-    use crate::character_filter::CharacterFilter;
+    use crate::character_filter::{add_offset_diff, CharacterFilter};
 
     fn hiragana_has_dakuon(c: &char) -> bool {
         let codepoint = *c as u32;
-- 
2.43.0


From f844747135b2af6de66ea08eb5041916e516e24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 14/29] fix: katakana stem filter must not panic on characters
 outside every Unicode block

---
 lindera-filter/src/token_filter/japanese_katakana_stem.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_katakana_stem.rs b/lindera-filter/src/token_filter/japanese_katakana_stem.rs
index 63e44f0..843710c 100644
--- a/lindera-filter/src/token_filter/japanese_katakana_stem.rs
+++ b/lindera-filter/src/token_filter/japanese_katakana_stem.rs
@@ -91,8 +91,7 @@ impl TokenFilter for JapaneseKatakanaStemTokenFilter {
 
 fn is_katakana(text: &str) -> bool {
     for ch in text.chars() {
-        let block = unicode_blocks::find_unicode_block(ch).unwrap();
-        if block != unicode_blocks::KATAKANA {
+        if unicode_blocks::find_unicode_block(ch) != Some(unicode_blocks::KATAKANA) {
             return false;
         }
     }
-- 
2.43.0


From 9084fff65b52b19be4a501d85eca176c4a4533b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 15/29] fix: Japanese number filter must convert each numeral
 of a text and not panic

---
 .../src/token_filter/japanese_number.rs       | 31 ++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index f25007d..b6c6555 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -129,7 +129,7 @@ impl TokenFilter for JapaneseNumberTokenFilter {
 
 fn adjust_digits(num: &str, base: &str, digit: &str) -> String {
     let zero_str = format!("{}{}", base, digit);
-    let zero_len = zero_str.len() - num.len();
+    let zero_len = zero_str.len().saturating_sub(num.len());
     let zeros = &zero_str[0..zero_len];
 
     let mut num_str = num.to_owned();
@@ -137,7 +137,12 @@ fn adjust_digits(num: &str, base: &str, digit: &str) -> String {
     num_str
 }
 
+fn is_numeral(c: &char) -> bool {
+    "0123456789０１２３４５６７８９〇零一壱二弐三参四五六七八九十拾百千万億兆京垓".contains(*c)
+}
+
 fn to_arabic_numerals(from_str: &str) -> String {
+    let mut result = String::new();
     let mut num_buf = String::new();
     let mut digit = String::new();
 
@@ -159,7 +164,7 @@ fn to_arabic_numerals(from_str: &str) -> String {
             '十' | '拾' => {
                 num_buf = adjust_digits(&num_buf, "0", &digit);
 
-                match i.peek() {
+                match i.peek().filter(|c| is_numeral(c)) {
                     Some('百') | Some('千') | Some('万') | Some('億') | Some('兆') | Some('京')
                     | Some('垓') | None => {
                         // If the first character is a '0', the '1' has been omitted.
@@ -174,7 +179,7 @@ fn to_arabic_numerals(from_str: &str) -> String {
             '百' => {
                 num_buf = adjust_digits(&num_buf, "00", &digit);
 
-                match i.peek() {
+                match i.peek().filter(|c| is_numeral(c)) {
                     Some('千') | Some('万') | Some('億') | Some('兆') | Some('京') | Some('垓')
                     | None => {
                         // If the first character is a '0', the '1' has been omitted.
@@ -189,7 +194,7 @@ fn to_arabic_numerals(from_str: &str) -> String {
             '千' => {
                 num_buf = adjust_digits(&num_buf, "000", &digit);
 
-                match i.peek() {
+                match i.peek().filter(|c| is_numeral(c)) {
                     Some('万') | Some('億') | Some('兆') | Some('京') | Some('垓') | None => {
                         // If the first character is a '0', the '1' has been omitted.
                         // Therefore, insert a leading '1'.
@@ -205,7 +210,7 @@ fn to_arabic_numerals(from_str: &str) -> String {
 
                 num_buf = adjust_digits(&num_buf, "", &digit);
 
-                match i.peek() {
+                match i.peek().filter(|c| is_numeral(c)) {
                     Some('億') | Some('兆') | Some('京') | Some('垓') | None => {
                         // If the first character is a '0', the '1' has been omitted.
                         // Therefore, insert a leading '1'.
@@ -221,7 +226,7 @@ fn to_arabic_numerals(from_str: &str) -> String {
 
                 num_buf = adjust_digits(&num_buf, "", &digit);
 
-                match i.peek() {
+                match i.peek().filter(|c| is_numeral(c)) {
                     Some('兆') | Some('京') | Some('垓') | None => {
                         // If the first character is a '0', the '1' has been omitted.
                         // Therefore, insert a leading '1'.
@@ -237,7 +242,7 @@ fn to_arabic_numerals(from_str: &str) -> String {
 
                 num_buf = adjust_digits(&num_buf, "", &digit);
 
-                match i.peek() {
+                match i.peek().filter(|c| is_numeral(c)) {
                     Some('京') | Some('垓') | None => {
                         // If the first character is a '0', the '1' has been omitted.
                         // Therefore, insert a leading '1'.
@@ -253,7 +258,7 @@ fn to_arabic_numerals(from_str: &str) -> String {
 
                 num_buf = adjust_digits(&num_buf, "", &digit);
 
-                match i.peek() {
+                match i.peek().filter(|c| is_numeral(c)) {
                     Some('垓') | None => {
                         // If the first character is a '0', the '1' has been omitted.
                         // Therefore, insert a leading '1'.
@@ -269,20 +274,24 @@ fn to_arabic_numerals(from_str: &str) -> String {
 
                 num_buf = adjust_digits(&num_buf, "", &digit);
 
-                if i.peek().is_none() {
+                if !i.peek().is_some_and(|c| is_numeral(c)) {
                     // If the first character is a '0', the '1' has been omitted.
                     // Therefore, insert a leading '1'.
                     num_buf.insert(0, '1');
                 }
             }
             _ => {
-                num_buf.insert(0, *c);
+                // The numeral that follows this character is complete.
+                result.insert_str(0, &num_buf);
+                result.insert(0, *c);
+                num_buf.clear();
                 digit.clear();
             }
         }
     }
 
-    num_buf
+    result.insert_str(0, &num_buf);
+    result
 }
 
 #[cfg(test)]
-- 
2.43.0


From 283eb2d241beee344fef7930b4327e602462e13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 16/29] fix: reading and base form filters must not panic on
 words with few details

---
 .../src/token_filter/japanese_base_form.rs           | 12 +++++++++---
 .../src/token_filter/japanese_reading_form.rs        | 12 +++++++++---
 .../src/token_filter/korean_reading_form.rs          |  4 +++-
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_base_form.rs b/lindera-filter/src/token_filter/japanese_base_form.rs
index baf713f..7ef6ebf 100644
--- a/lindera-filter/src/token_filter/japanese_base_form.rs
+++ b/lindera-filter/src/token_filter/japanese_base_form.rs
@@ -65,15 +65,21 @@ impl TokenFilter for JapaneseBaseFormTokenFilter {
             match self.config.kind {
                 #[cfg(feature = "ipadic")]
                 DictionaryKind::IPADIC => {
-                    token.text = token.details[6].to_string();
+                    if let Some(text) = token.details.get(6) {
+                        token.text = text.to_string();
+                    }
                 }
                 #[cfg(feature = "ipadic-neologd")]
                 DictionaryKind::IPADICNEologd => {
-                    token.text = token.details[6].to_string();
+                    if let Some(text) = token.details.get(6) {
+                        token.text = text.to_string();
+                    }
                 }
                 #[cfg(feature = "unidic")]
                 DictionaryKind::UniDic => {
-                    token.text = token.details[10].to_string();
+                    if let Some(text) = token.details.get(10) {
+                        token.text = text.to_string();
+                    }
                 }
                 _ => {
                     // NOOP
diff --git a/lindera-filter/src/token_filter/japanese_reading_form.rs b/lindera-filter/src/token_filter/japanese_reading_form.rs
index 03fab89..6119047 100644
--- a/lindera-filter/src/token_filter/japanese_reading_form.rs
+++ b/lindera-filter/src/token_filter/japanese_reading_form.rs
@@ -64,15 +64,21 @@ impl TokenFilter for JapaneseReadingFormTokenFilter {
             match self.config.kind {
                 #[cfg(feature = "ipadic")]
                 DictionaryKind::IPADIC => {
-                    token.text = token.details[7].to_string();
+                    if let Some(text) = token.details.get(7) {
+                        token.text = text.to_string();
+                    }
                 }
                 #[cfg(feature = "ipadic-neologd")]
                 DictionaryKind::IPADICNEologd => {
-                    token.text = token.details[7].to_string();
+                    if let Some(text) = token.details.get(7) {
+                        token.text = text.to_string();
+                    }
                 }
                 #[cfg(feature = "unidic")]
                 DictionaryKind::UniDic => {
-                    token.text = token.details[6].to_string();
+                    if let Some(text) = token.details.get(6) {
+                        token.text = text.to_string();
+                    }
                 }
                 _ => {
                     // NOOP
diff --git a/lindera-filter/src/token_filter/korean_reading_form.rs b/lindera-filter/src/token_filter/korean_reading_form.rs
index fb8df2a..d1c5268 100644
--- a/lindera-filter/src/token_filter/korean_reading_form.rs
+++ b/lindera-filter/src/token_filter/korean_reading_form.rs
@@ -30,7 +30,9 @@ impl TokenFilter for KoreanReadingFormTokenFilter {
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
             if token.details[0] != "UNK" {
-                token.text = token.details[3].to_string();
+                if let Some(text) = token.details.get(3) {
+                    token.text = text.to_string();
+                }
             }
         }
 
-- 
2.43.0


From 585a9dbc4fc894c016bf20d2ad76dc9964d26833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 17/29] fix: refuse part-of-speech tags of more than four
 levels instead of panicking

---
 lindera-filter/src/token_filter.rs                     | 10 ++++++++++
 .../src/token_filter/japanese_compound_word.rs         |  4 +++-
 lindera-filter/src/token_filter/japanese_keep_tags.rs  |  9 +++++++--
 lindera-filter/src/token_filter/japanese_number.rs     |  9 +++++++--
 lindera-filter/src/token_filter/japanese_stop_tags.rs  |  9 +++++++--
 5 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/lindera-filter/src/token_filter.rs b/lindera-filter/src/token_filter.rs
index 75039dd..53d06b3 100644
--- a/lindera-filter/src/token_filter.rs
+++ b/lindera-filter/src/token_filter.rs
@@ -78,6 +78,16 @@ use crate::token_filter::stop_words::{
 };
 use crate::token_filter::uppercase::{UppercaseTokenFilter, UPPERCASE_TOKEN_FILTER_NAME};
 
+/// Checks a part-of-speech tag of a setting, which has up to four levels.
+pub(crate) fn parse_tag(tag: &str) -> LinderaResult<String> {
+    if tag.split(',').count() > 4 {
+        return Err(LinderaErrorKind::Deserialize
+            .with_error(anyhow::anyhow!("tag has more than four levels: {}", tag)));
+    }
+
+    Ok(tag.to_string())
+}
+
 pub trait TokenFilter: 'static + Send + Sync + TokenFilterClone {
     fn name(&self) -> &str;
     fn apply(&self, tokens: &mut Vec<Token>) -> LinderaResult<()>;
diff --git a/lindera-filter/src/token_filter/japanese_compound_word.rs b/lindera-filter/src/token_filter/japanese_compound_word.rs
index 3403c13..8067fca 100644
--- a/lindera-filter/src/token_filter/japanese_compound_word.rs
+++ b/lindera-filter/src/token_filter/japanese_compound_word.rs
@@ -8,7 +8,7 @@ use lindera_core::LinderaResult;
 use lindera_dictionary::DictionaryKind;
 
 use crate::token::Token;
-use crate::token_filter::TokenFilter;
+use crate::token_filter::{parse_tag, TokenFilter};
 
 pub const JAPANESE_COMPOUND_WORD_TOKEN_FILTER_NAME: &str = "japanese_compound_word";
 
@@ -27,6 +27,7 @@ impl JapaneseCompoundWordTokenFilterConfig {
     ) -> LinderaResult<Self> {
         let mut formatted_tags: HashSet<String> = HashSet::new();
         for tag in tags.iter() {
+            let tag = parse_tag(tag)?;
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = tag.split(',').collect();
@@ -38,6 +39,7 @@ impl JapaneseCompoundWordTokenFilterConfig {
         }
 
         let formatted_new_tag = if let Some(new_tag_str) = new_tag {
+            let new_tag_str = parse_tag(&new_tag_str)?;
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = new_tag_str.split(',').collect();
diff --git a/lindera-filter/src/token_filter/japanese_keep_tags.rs b/lindera-filter/src/token_filter/japanese_keep_tags.rs
index 16a5f63..acb646e 100644
--- a/lindera-filter/src/token_filter/japanese_keep_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_keep_tags.rs
@@ -7,7 +7,7 @@ use lindera_core::error::LinderaErrorKind;
 use lindera_core::LinderaResult;
 
 use crate::token::Token;
-use crate::token_filter::TokenFilter;
+use crate::token_filter::{parse_tag, TokenFilter};
 
 pub const JAPANESE_KEEP_TAGS_TOKEN_FILTER_NAME: &str = "japanese_keep_tags";
 
@@ -23,6 +23,11 @@ impl JapaneseKeepTagsTokenFilterConfig {
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = tag.split(',').collect();
+            if tag_array.len() > formatted_tag.len() {
+                // No token has a tag of more levels.
+                formatted_tags.insert(tag.to_string());
+                continue;
+            }
             for (i, j) in tag_array.iter().enumerate() {
                 formatted_tag[i] = j;
             }
@@ -54,7 +59,7 @@ impl JapaneseKeepTagsTokenFilterConfig {
                         LinderaErrorKind::Deserialize
                             .with_error(anyhow::anyhow!("tag must be string"))
                     })
-                    .map(|s| s.to_string())
+                    .and_then(parse_tag)
             })
             .collect::<LinderaResult<HashSet<String>>>()?;
         Ok(Self::new(tags))
diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index b6c6555..572dfaf 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -7,7 +7,7 @@ use lindera_core::error::LinderaErrorKind;
 use lindera_core::LinderaResult;
 
 use crate::token::Token;
-use crate::token_filter::TokenFilter;
+use crate::token_filter::{parse_tag, TokenFilter};
 
 pub const JAPANESE_NUMBER_TOKEN_FILTER_NAME: &str = "japanese_number";
 
@@ -25,6 +25,11 @@ impl JapaneseNumberTokenFilterConfig {
                     let mut formatted_tag = ["*", "*", "*", "*"];
 
                     let tag_array: Vec<&str> = tag.split(',').collect();
+                    if tag_array.len() > formatted_tag.len() {
+                        // No token has a tag of more levels.
+                        formatted_tags.insert(tag.to_string());
+                        continue;
+                    }
                     for (i, j) in tag_array.iter().enumerate() {
                         formatted_tag[i] = j;
                     }
@@ -62,7 +67,7 @@ impl JapaneseNumberTokenFilterConfig {
                                     LinderaErrorKind::Deserialize
                                         .with_error(anyhow::anyhow!("tag must be string"))
                                 })
-                                .map(|s| s.to_string())
+                                .and_then(parse_tag)
                         })
                         .collect::<LinderaResult<HashSet<String>>>()?,
                 )
diff --git a/lindera-filter/src/token_filter/japanese_stop_tags.rs b/lindera-filter/src/token_filter/japanese_stop_tags.rs
index 9e657e1..cbbf70a 100644
--- a/lindera-filter/src/token_filter/japanese_stop_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_stop_tags.rs
@@ -7,7 +7,7 @@ use lindera_core::error::LinderaErrorKind;
 use lindera_core::LinderaResult;
 
 use crate::token::Token;
-use crate::token_filter::TokenFilter;
+use crate::token_filter::{parse_tag, TokenFilter};
 
 pub const JAPANESE_STOP_TAGS_TOKEN_FILTER_NAME: &str = "japanese_stop_tags";
 
@@ -23,6 +23,11 @@ impl JapaneseStopTagsTokenFilterConfig {
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = tag.split(',').collect();
+            if tag_array.len() > formatted_tag.len() {
+                // No token has a tag of more levels.
+                formatted_tags.insert(tag.to_string());
+                continue;
+            }
             for (i, j) in tag_array.iter().enumerate() {
                 formatted_tag[i] = j;
             }
@@ -54,7 +59,7 @@ impl JapaneseStopTagsTokenFilterConfig {
                         LinderaErrorKind::Deserialize
                             .with_error(anyhow::anyhow!("tag must be string"))
                     })
-                    .map(|s| s.to_string())
+                    .and_then(parse_tag)
             })
             .collect::<LinderaResult<HashSet<String>>>()?;
         Ok(Self::new(tags))
-- 
2.43.0


From 9b57223a3744e89eef0a5e95618b8ce957acf51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 18/29] fix: refuse Japanese number filter tags that are not an
 array instead of ignoring them

---
 lindera-filter/src/token_filter/japanese_number.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index 572dfaf..7bc6dd6 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -71,8 +71,12 @@ impl JapaneseNumberTokenFilterConfig {
                         })
                         .collect::<LinderaResult<HashSet<String>>>()?,
                 )
-            } else {
+            } else if t.is_null() {
                 None
+            } else {
+                return Err(
+                    LinderaErrorKind::Deserialize.with_error(anyhow::anyhow!("tags must be array"))
+                );
             }
         } else {
             None
-- 
2.43.0


From ab01d701cde2e4781585ebaf8684b974e8637b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 19/29] fix: refuse analyzer filter settings without a kind
 instead of ignoring them

---
 lindera-analyzer/src/analyzer.rs | 46 ++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/lindera-analyzer/src/analyzer.rs b/lindera-analyzer/src/analyzer.rs
index cbdd4b3..9cc1bc2 100644
--- a/lindera-analyzer/src/analyzer.rs
+++ b/lindera-analyzer/src/analyzer.rs
@@ -57,17 +57,15 @@ impl Analyzer {
         let value = &config.inner;
 
         let mut character_filters: Vec<BoxCharacterFilter> = Vec::new();
-        let character_filter_settings = value["character_filters"].as_array();
+        let character_filter_settings = Self::filter_settings(value, "character_filters")?;
         if let Some(character_filter_settings) = character_filter_settings {
             for character_filter_setting in character_filter_settings {
-                let character_filter_name = character_filter_setting["kind"].as_str();
-                if let Some(character_filter_name) = character_filter_name {
-                    let character_filter = CharacterFilterLoader::load_from_value(
-                        character_filter_name,
-                        &character_filter_setting["args"],
-                    )?;
-                    character_filters.push(character_filter);
-                }
+                let character_filter_name = Self::filter_kind(character_filter_setting)?;
+                let character_filter = CharacterFilterLoader::load_from_value(
+                    character_filter_name,
+                    &character_filter_setting["args"],
+                )?;
+                character_filters.push(character_filter);
             }
         }
 
@@ -82,22 +80,36 @@ impl Analyzer {
         let tokenizer = Tokenizer::from_config(tokenizer_config)?;
 
         let mut token_filters: Vec<BoxTokenFilter> = Vec::new();
-        let token_filter_settings = value["token_filters"].as_array();
+        let token_filter_settings = Self::filter_settings(value, "token_filters")?;
         if let Some(token_filter_settings) = token_filter_settings {
             for token_filter_setting in token_filter_settings {
-                let token_filter_name = token_filter_setting["kind"].as_str();
-                if let Some(token_filter_name) = token_filter_name {
-                    token_filters.push(TokenFilterLoader::load_from_value(
-                        token_filter_name,
-                        &token_filter_setting["args"],
-                    )?);
-                }
+                let token_filter_name = Self::filter_kind(token_filter_setting)?;
+                token_filters.push(TokenFilterLoader::load_from_value(
+                    token_filter_name,
+                    &token_filter_setting["args"],
+                )?);
             }
         }
 
         Ok(Self::new(character_filters, tokenizer, token_filters))
     }
 
+    /// The settings of the filters, which may be omitted.
+    fn filter_settings<'a>(value: &'a Value, name: &str) -> LinderaResult<Option<&'a Vec<Value>>> {
+        match &value[name] {
+            Value::Null => Ok(None),
+            Value::Array(settings) => Ok(Some(settings)),
+            _ => Err(LinderaErrorKind::Deserialize
+                .with_error(anyhow::anyhow!("{} must be array.", name))),
+        }
+    }
+
+    fn filter_kind(setting: &Value) -> LinderaResult<&str> {
+        setting["kind"].as_str().ok_or_else(|| {
+            LinderaErrorKind::Deserialize.with_error(anyhow::anyhow!("missing filter kind."))
+        })
+    }
+
     pub fn new(
         character_filters: Vec<BoxCharacterFilter>,
         tokenizer: Tokenizer,
-- 
2.43.0


From b28719aabbfa5239ee2874012dfd97720f49f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 20/29] fix: accept filters without settings as command line
 flags

---
 lindera-filter/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lindera-filter/src/lib.rs b/lindera-filter/src/lib.rs
index c3e0d1f..6fb48b2 100644
--- a/lindera-filter/src/lib.rs
+++ b/lindera-filter/src/lib.rs
@@ -8,7 +8,8 @@ pub mod token;
 pub mod token_filter;
 
 fn parse_cli_flag(cli_flag: &str) -> LinderaResult<(&str, Value)> {
-    let (kind, json) = cli_flag.split_once(':').unwrap_or((cli_flag, ""));
+    // A filter without settings can be given by its kind alone.
+    let (kind, json) = cli_flag.split_once(':').unwrap_or((cli_flag, "null"));
 
     let args: Value = serde_json::from_str(json)
         .map_err(|err| LinderaErrorKind::Content.with_error(anyhow::anyhow!(err)))?;
-- 
2.43.0


From fa6390ee7a7ec7517e06e4ac910815185e765714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 21/29] fix: refuse dictionaries without words or with NUL in a
 surface instead of panicking

---
 lindera-dictionary-builder/src/dict.rs      |  7 ++-----
 lindera-dictionary-builder/src/user_dict.rs |  7 +++----
 lindera-dictionary-builder/src/utils.rs     | 19 +++++++++++++++++++
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index 7b34801..29f60dc 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -14,14 +14,13 @@ use encoding_rs::{Encoding, UTF_8};
 use encoding_rs_io::DecodeReaderBytesBuilder;
 use glob::glob;
 use log::{debug, warn};
-use yada::builder::DoubleArrayBuilder;
 
 use lindera_core::error::LinderaErrorKind;
 use lindera_core::word_entry::{WordEntry, WordId};
 use lindera_core::LinderaResult;
 use lindera_decompress::Algorithm;
 
-use crate::utils::compress_write;
+use crate::utils::{build_double_array, compress_write};
 
 #[derive(Builder, Debug)]
 #[builder(name = "DictBuilderOptions")]
@@ -232,9 +231,7 @@ impl DictBuilder {
             id += len;
         }
 
-        let da_bytes = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
-            LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
-        })?;
+        let da_bytes = build_double_array(&keyset)?;
 
         compress_write(&da_bytes, self.compress_algorithm, &mut wtr_da)?;
 
diff --git a/lindera-dictionary-builder/src/user_dict.rs b/lindera-dictionary-builder/src/user_dict.rs
index 36b651e..f19b509 100644
--- a/lindera-dictionary-builder/src/user_dict.rs
+++ b/lindera-dictionary-builder/src/user_dict.rs
@@ -14,9 +14,10 @@ use lindera_core::prefix_dict::PrefixDict;
 use lindera_core::word_entry::{WordEntry, WordId};
 use lindera_core::LinderaResult;
 use log::debug;
-use yada::builder::DoubleArrayBuilder;
 use yada::DoubleArray;
 
+use crate::utils::build_double_array;
+
 #[derive(Builder)]
 #[builder(pattern = "owned")]
 #[builder(name = "UserDictBuilderOptions")]
@@ -143,9 +144,7 @@ impl UserDictBuilder {
             keyset.push((key.as_bytes(), val));
             id += len;
         }
-        let da_bytes = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
-            LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
-        })?;
+        let da_bytes = build_double_array(&keyset)?;
 
         // building values
         let mut vals_data = Vec::<u8>::new();
diff --git a/lindera-dictionary-builder/src/utils.rs b/lindera-dictionary-builder/src/utils.rs
index 5feeacd..8366084 100644
--- a/lindera-dictionary-builder/src/utils.rs
+++ b/lindera-dictionary-builder/src/utils.rs
@@ -9,6 +9,7 @@ use lindera_core::error::LinderaErrorKind;
 use lindera_core::file_util::read_file;
 use lindera_core::LinderaResult;
 use lindera_decompress::Algorithm;
+use yada::builder::DoubleArrayBuilder;
 
 #[cfg(feature = "compress")]
 pub fn compress_write<W: Write>(
@@ -46,3 +47,21 @@ pub fn read_file_with_encoding(filepath: &Path, encoding_name: &str) -> LinderaR
     let buffer = read_file(&filepath)?;
     Ok(encoding.decode(&buffer).0.into_owned())
 }
+
+/// Builds the double array of the surfaces, which must be sorted.
+pub fn build_double_array(keyset: &[(&[u8], u32)]) -> LinderaResult<Vec<u8>> {
+    // A double array needs a key, and ends every key with NUL.
+    if keyset.is_empty() {
+        return Err(
+            LinderaErrorKind::Content.with_error(anyhow!("the dictionary does not have any words"))
+        );
+    }
+    if keyset.iter().any(|(key, _)| key.contains(&0)) {
+        return Err(
+            LinderaErrorKind::Content.with_error(anyhow!("the surface of a word contains NUL"))
+        );
+    }
+
+    DoubleArrayBuilder::build(keyset)
+        .ok_or_else(|| LinderaErrorKind::Io.with_error(anyhow!("DoubleArray build error.")))
+}
-- 
2.43.0


From 35d49b5d1ea554bbba064fe201192c7f66577994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 22/29] fix: refuse Japanese number filter settings that are
 not an object instead of ignoring them

---
 lindera-filter/src/token_filter/japanese_number.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index 7bc6dd6..0aab3ab 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -52,6 +52,11 @@ impl JapaneseNumberTokenFilterConfig {
     }
 
     pub fn from_value(value: &serde_json::Value) -> LinderaResult<Self> {
+        if !value.is_object() && !value.is_null() {
+            return Err(LinderaErrorKind::Deserialize
+                .with_error(anyhow::anyhow!("settings must be object")));
+        }
+
         let tags = if let Some(t) = value.get("tags") {
             if t.is_array() {
                 Some(
-- 
2.43.0


From 2fdd711800a4eec0e8f58b8749b9f13f16903b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 23/29] fix: read back tokenizer configurations without a user
 dictionary

---
 lindera-tokenizer/src/tokenizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lindera-tokenizer/src/tokenizer.rs b/lindera-tokenizer/src/tokenizer.rs
index 88c2952..76c42f5 100644
--- a/lindera-tokenizer/src/tokenizer.rs
+++ b/lindera-tokenizer/src/tokenizer.rs
@@ -138,6 +138,8 @@ impl<'de> Deserialize<'de> for TokenizerConfig {
                 }
                 let dictionary =
                     dictionary.ok_or_else(|| de::Error::missing_field("dictionary"))?;
+                // A config without user dictionary is written with a null.
+                let user_dictionary = user_dictionary.unwrap_or(None);
                 let mode = mode.unwrap_or(Mode::Normal);
                 Ok(TokenizerConfig {
                     dictionary,
-- 
2.43.0


From b566a414c5b97276c292a4a552a1ba0c97e9a46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 24/29] fix: charge length penalties by the threshold of the
 word's kind and without overflow

---
 lindera-core/src/mode.rs    | 29 ++++++++++++++---------------
 lindera-core/src/viterbi.rs |  2 +-
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/lindera-core/src/mode.rs b/lindera-core/src/mode.rs
index 0902557..9d376fa 100644
--- a/lindera-core/src/mode.rs
+++ b/lindera-core/src/mode.rs
@@ -27,20 +27,19 @@ impl Default for Penalty {
 }
 
 impl Penalty {
-    pub fn penalty(&self, edge: &Edge) -> i32 {
-        let num_chars = edge.num_chars();
-        if num_chars <= self.kanji_penalty_length_threshold {
-            return 0;
-        }
-        if edge.kanji_only {
-            ((num_chars - self.kanji_penalty_length_threshold) as i32)
-                * self.kanji_penalty_length_penalty
-        } else if num_chars > self.other_penalty_length_threshold {
-            ((num_chars - self.other_penalty_length_threshold) as i32)
-                * self.other_penalty_length_penalty
+    pub fn penalty(&self, edge: &Edge) -> i64 {
+        let (threshold, penalty) = if edge.kanji_only {
+            (
+                self.kanji_penalty_length_threshold,
+                self.kanji_penalty_length_penalty,
+            )
         } else {
-            0
-        }
+            (
+                self.other_penalty_length_threshold,
+                self.other_penalty_length_penalty,
+            )
+        };
+        edge.num_chars().saturating_sub(threshold) as i64 * penalty as i64
     }
 }
 
@@ -59,9 +58,9 @@ impl Mode {
             Mode::Decompose(_penalty) => true,
         }
     }
-    pub fn penalty_cost(&self, edge: &Edge) -> i32 {
+    pub fn penalty_cost(&self, edge: &Edge) -> i64 {
         match self {
-            Mode::Normal => 0i32,
+            Mode::Normal => 0i64,
             Mode::Decompose(penalty) => penalty.penalty(edge),
         }
     }
diff --git a/lindera-core/src/viterbi.rs b/lindera-core/src/viterbi.rs
index 2558285..3d88d37 100644
--- a/lindera-core/src/viterbi.rs
+++ b/lindera-core/src/viterbi.rs
@@ -259,7 +259,7 @@ impl Lattice {
                             + cost_matrix
                                 .cost(left_edge.word_entry.right_id(), right_word_entry.left_id())
                                 as i64;
-                        path_cost += mode.penalty_cost(left_edge) as i64;
+                        path_cost += mode.penalty_cost(left_edge);
                         (path_cost, left_edge_id)
                     })
                     .min_by_key(|&(cost, _)| cost);
-- 
2.43.0


From 1ff49e227f30a0ff1676dda45a0272a92b987472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:38 +0000
Subject: [PATCH 25/29] fix: match tags of tokens with two or three details on
 all their levels

---
 lindera-filter/src/token_filter/japanese_compound_word.rs | 2 +-
 lindera-filter/src/token_filter/japanese_keep_tags.rs     | 2 +-
 lindera-filter/src/token_filter/japanese_number.rs        | 2 +-
 lindera-filter/src/token_filter/japanese_stop_tags.rs     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_compound_word.rs b/lindera-filter/src/token_filter/japanese_compound_word.rs
index 8067fca..4425645 100644
--- a/lindera-filter/src/token_filter/japanese_compound_word.rs
+++ b/lindera-filter/src/token_filter/japanese_compound_word.rs
@@ -135,7 +135,7 @@ impl TokenFilter for JapaneseCompoundWordTokenFilter {
         let mut compound_token_opt = None;
         for token in tokens.iter_mut() {
             let mut formatted_tags = ["*", "*", "*", "*"];
-            let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
+            let tags_len = token.details.len().min(4);
             for (i, j) in token.details[0..tags_len].iter().enumerate() {
                 formatted_tags[i] = j;
             }
diff --git a/lindera-filter/src/token_filter/japanese_keep_tags.rs b/lindera-filter/src/token_filter/japanese_keep_tags.rs
index acb646e..83763e3 100644
--- a/lindera-filter/src/token_filter/japanese_keep_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_keep_tags.rs
@@ -93,7 +93,7 @@ impl TokenFilter for JapaneseKeepTagsTokenFilter {
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         tokens.retain(|token| {
             let mut formatted_tags = ["*", "*", "*", "*"];
-            let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
+            let tags_len = token.details.len().min(4);
             for (i, j) in token.details[0..tags_len].iter().enumerate() {
                 formatted_tags[i] = j;
             }
diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index 0aab3ab..5612779 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -118,7 +118,7 @@ impl TokenFilter for JapaneseNumberTokenFilter {
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
             let mut tag_vec = ["*", "*", "*", "*"];
-            let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
+            let tags_len = token.details.len().min(4);
             for (i, j) in token.details[0..tags_len].iter().enumerate() {
                 tag_vec[i] = j;
             }
diff --git a/lindera-filter/src/token_filter/japanese_stop_tags.rs b/lindera-filter/src/token_filter/japanese_stop_tags.rs
index cbbf70a..d22cd2c 100644
--- a/lindera-filter/src/token_filter/japanese_stop_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_stop_tags.rs
@@ -93,7 +93,7 @@ impl TokenFilter for JapaneseStopTagsTokenFilter {
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         tokens.retain(|token| {
             let mut formatted_tags = ["*", "*", "*", "*"];
-            let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
+            let tags_len = token.details.len().min(4);
             for (i, j) in token.details[0..tags_len].iter().enumerate() {
                 formatted_tags[i] = j;
             }
-- 
2.43.0


From fadcd6e5dc206aa3b1d856883a8e9d76ff5b8d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:04 +0000
Subject: [PATCH 26/29] fix: do not find dictionary words across a NUL of the
 text

---
 lindera-core/src/prefix_dict.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lindera-core/src/prefix_dict.rs b/lindera-core/src/prefix_dict.rs
index d077164..33ededd 100644
--- a/lindera-core/src/prefix_dict.rs
+++ b/lindera-core/src/prefix_dict.rs
@@ -36,6 +36,8 @@ impl<D: Deref<Target = [u8]>> PrefixDict<D> {
     pub fn prefix<'a>(&'a self, s: &'a str) -> impl Iterator<Item = (usize, WordEntry)> + 'a {
         self.da
             .common_prefix_search(s)
+            // No surface contains NUL, which the double array uses as its terminator.
+            .take_while(move |(_, prefix_len)| !s.as_bytes()[..*prefix_len].contains(&0))
             .flat_map(move |(offset_len, prefix_len)| {
                 let len = offset_len & ((1u32 << 5) - 1u32);
                 let offset = offset_len >> 5u32;
@@ -55,6 +57,10 @@ impl<D: Deref<Target = [u8]>> PrefixDict<D> {
 
     /// Find `WordEntry`s with surface
     pub fn find_surface(&self, surface: &str) -> Vec<WordEntry> {
+        // No surface contains NUL, which the double array uses as its terminator.
+        if surface.contains('\0') {
+            return vec![];
+        }
         match self.da.exact_match_search(surface) {
             Some(offset_len) => {
                 let offset = offset_len >> 5u32;
-- 
2.43.0


From 468825fee50ed547e5a6f96de2e5d2209859086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 27/29] fix: do not match mapping keys across a NUL of the text

---
 lindera-filter/src/character_filter/mapping.rs | 2 ++
 lindera-filter/src/token_filter/mapping.rs     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lindera-filter/src/character_filter/mapping.rs b/lindera-filter/src/character_filter/mapping.rs
index ace8e5c..c47866e 100644
--- a/lindera-filter/src/character_filter/mapping.rs
+++ b/lindera-filter/src/character_filter/mapping.rs
@@ -103,6 +103,8 @@ impl CharacterFilter for MappingCharacterFilter {
             let suffix = &text[input_start..];
             match trie
                 .common_prefix_search(suffix.as_bytes())
+                // No key contains NUL, which the double array uses as its terminator.
+                .take_while(|(_, prefix_len)| !suffix.as_bytes()[..*prefix_len].contains(&0))
                 .last()
                 .map(|(_offset_len, prefix_len)| prefix_len)
             {
diff --git a/lindera-filter/src/token_filter/mapping.rs b/lindera-filter/src/token_filter/mapping.rs
index d442e63..09b10dc 100644
--- a/lindera-filter/src/token_filter/mapping.rs
+++ b/lindera-filter/src/token_filter/mapping.rs
@@ -98,6 +98,8 @@ impl TokenFilter for MappingTokenFilter {
                 let suffix = &token.text[start..];
                 match trie
                     .common_prefix_search(suffix.as_bytes())
+                    // No key contains NUL, which the double array uses as its terminator.
+                    .take_while(|(_, prefix_len)| !suffix.as_bytes()[..*prefix_len].contains(&0))
                     .last()
                     .map(|(_offset_len, prefix_len)| prefix_len)
                 {
-- 
2.43.0


From 0da4970142ec1cfb0e6c2308ec17eed78f22931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 28/29] fix: report failing writes of the double array of a
 dictionary

---
 lindera-dictionary-builder/src/dict.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index 29f60dc..b78b3c4 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -235,6 +235,10 @@ impl DictBuilder {
 
         compress_write(&da_bytes, self.compress_algorithm, &mut wtr_da)?;
 
+        wtr_da
+            .flush()
+            .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
+
         let mut vals_buffer = Vec::new();
         for word_entries in word_entry_map.values() {
             for word_entry in word_entries {
-- 
2.43.0


From e860a76bec70a7f05ec02bfdce75aa89deb0a1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 29/29] fix: take the name of the source directory of a
 dictionary literally

---
 lindera-dictionary-builder/src/dict.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index b78b3c4..84cd3e4 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -12,7 +12,7 @@ use csv::StringRecord;
 use derive_builder::Builder;
 use encoding_rs::{Encoding, UTF_8};
 use encoding_rs_io::DecodeReaderBytesBuilder;
-use glob::glob;
+use glob::{glob, Pattern};
 use log::{debug, warn};
 
 use lindera_core::error::LinderaErrorKind;
@@ -42,7 +42,7 @@ pub struct DictBuilder {
 impl DictBuilder {
     pub fn build(&self, input_dir: &Path, output_dir: &Path) -> LinderaResult<()> {
         let pattern = if let Some(path) = input_dir.to_str() {
-            format!("{}/*.csv", path)
+            format!("{}/*.csv", Pattern::escape(path))
         } else {
             return Err(
                 LinderaErrorKind::Io.with_error(anyhow::anyhow!("Failed to convert path to &str."))
-- 
2.43.0

