From 4c32171586562227673fff2b751fdbc176970b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 01/13] fix: return the input as the final text when no
 modifier ran

ModifiedRecords::text() unwrapped the last record, so normalize_with_positions
(and normalize with debug logging on) panicked for a normalizer without
modifiers.
---
 src/chanoma.rs  |  5 +++--
 src/modifier.rs | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/chanoma.rs b/src/chanoma.rs
index e0d7ddb..836c674 100644
--- a/src/chanoma.rs
+++ b/src/chanoma.rs
@@ -139,8 +139,9 @@ impl Chanoma {
     /// assert_eq!(chanoma.normalize_with_positions("ﾁｬﾉﾏ").text(), "チャノマ");
     /// ```
     pub fn normalize_with_positions(&self, text: &str) -> ModifiedRecords {
+        let input = text;
         let mut v = Vec::new();
-        let mut text = text.to_string();
+        let mut text = input.to_string();
         for m in self.modifiers.iter() {
             let result = m.modify_with_positions(&text);
             if log_enabled!(log::Level::Debug) {
@@ -149,7 +150,7 @@ impl Chanoma {
             v.push(result.clone());
             text = result.text;
         }
-        ModifiedRecords::new(v)
+        ModifiedRecords::from_input(input, v)
     }
 
     /// 一文字から一文字の置換テーブルを定義した [Table] 構造体を使用するように [Chanoma] 構造体を初期化します。
diff --git a/src/modifier.rs b/src/modifier.rs
index 4ffb993..11a3080 100644
--- a/src/modifier.rs
+++ b/src/modifier.rs
@@ -48,6 +48,7 @@ pub trait ModifierFromYamlValue {
 /// 実行された正規化処理の途中経過を保存する構造体です。
 #[derive(Debug)]
 pub struct ModifiedRecords {
+    input: String,
     records: Vec<ModifiedRecord>,
 }
 
@@ -60,7 +61,16 @@ impl ModifiedRecords {
     // let modified = ModifiedRecords::new(vec![]);
     // ```
     pub fn new(records: Vec<ModifiedRecord>) -> Self {
-        Self { records }
+        Self::from_input("", records)
+    }
+
+    // 正規化処理前の文字列を指定して [ModifiedRecords] 構造体を初期化します。
+    // 実行された処理がひとつもない場合、最終結果の文字列は正規化処理前の文字列になります。
+    pub(crate) fn from_input(input: &str, records: Vec<ModifiedRecord>) -> Self {
+        Self {
+            input: input.to_string(),
+            records,
+        }
     }
 
     // [ModifiedResult] 構造体から最終結果の文字列を取得します。
@@ -72,7 +82,7 @@ impl ModifiedRecords {
     // assert_eq!(modified.text(), "");
     // ```
     pub fn text(&self) -> &str {
-        &self.records.last().unwrap().text
+        self.records.last().map_or(&self.input, |r| &r.text)
     }
 
     // [ModifiedRecords] 構造体からすべての途中経過を取得します。
-- 
2.43.0


From 8fba51db1186e823a77fc82d7472761e756e573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 02/13] fix: report byte and character indices of converted
 characters the right way round

CharacterConverter stored the character index in Position::index and the byte
index in Position::utf8_index, the opposite of the lengths beside them and of
the other modifiers.
---
 src/modifier/character_converter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 5c2c687..40174f1 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -65,11 +65,11 @@ impl Modifier for CharacterConverter {
         // 配列から元の文字列に直していく
         let mut refs = Vec::new();
         let mut map = HashMap::new();
-        for (index, (i, c)) in input.char_indices().enumerate() {
+        for (utf8_index, (index, c)) in input.char_indices().enumerate() {
             refs.push(c);
             map.entry(c)
                 .or_insert_with(|| CharPos::new(c.len_utf8()))
-                .push_indexes(index, i);
+                .push_indexes(index, utf8_index);
         }
 
         let mut positions = Vec::new();
@@ -77,13 +77,13 @@ impl Modifier for CharacterConverter {
             if let Some(to) = self.items_map.get(c) {
                 // 変換テーブルに該当の文字があったら、HashSetの該当の文字を変換後の文字に入れ替える
                 // mem::replace で参照先の中身を入れ替えることでrefsの参照先を変えない
-                for (i, c_index) in char_pos.indices.iter().enumerate() {
+                for (i, c_index) in char_pos.utf8_indices.iter().enumerate() {
                     let _ = mem::replace(&mut refs[*c_index], *to);
                     positions.push(Position::new(
                         c.to_string(),
                         to.to_string(),
+                        char_pos.indices[i],
                         *c_index,
-                        char_pos.utf8_indices[i],
                         char_pos.length,
                         CharPos::UTF8_LEN,
                     ));
-- 
2.43.0


From 6dd672634c0017a08f1ca3db22f52d0438154269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 03/13] fix: point reduced runs at where they start in the
 input

ConsecutiveCharacterReducer took the byte index from the output text (after
the run) and the character index from the end of the run, and at the end of
the text subtracted a character count from a byte length.
---
 src/modifier/consecutive_character_reducer.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/modifier/consecutive_character_reducer.rs b/src/modifier/consecutive_character_reducer.rs
index 0a07671..3882abf 100644
--- a/src/modifier/consecutive_character_reducer.rs
+++ b/src/modifier/consecutive_character_reducer.rs
@@ -40,21 +40,23 @@ impl Modifier for ConsecutiveCharacterReducer {
         let mut text = String::new(); // 返却する文字列用のバッファ
         let mut positions = Vec::new(); // 変更された位置情報
         let mut buffer = [0u8; 4]; // char型から&strに変換する際に.to_string()でString型を経由するとメモリの動的確保によるオーバーヘッドがかかるので、直接&strに変換するためのバッファ
-        for (i, ch) in input.chars().enumerate() {
+        let mut start = (0, 0); // 連続する文字の先頭の位置(バイト, 文字)
+        for (utf8_index, (index, ch)) in input.char_indices().enumerate() {
             if self.c == ch {
                 if counter > 0 {
                     counter += 1;
                     continue;
                 } else {
                     counter = 1;
+                    start = (index, utf8_index);
                 }
             } else if counter > 0 {
                 positions.push(Position {
                     from: self.c.to_string().repeat(counter),
                     to: self.c.to_string(),
-                    index: text.len(),
+                    index: start.0,
                     length: c_len * counter,
-                    utf8_index: i,
+                    utf8_index: start.1,
                     utf8_length: counter,
                 });
                 counter = 0;
@@ -66,9 +68,9 @@ impl Modifier for ConsecutiveCharacterReducer {
             positions.push(Position {
                 from: self.c.to_string().repeat(counter),
                 to: self.c.to_string(),
-                index: text.len(),
+                index: start.0,
                 length: c_len * counter,
-                utf8_index: input.len() - counter,
+                utf8_index: start.1,
                 utf8_length: counter,
             });
         }
-- 
2.43.0


From 34dfc0c41ce05f170fed407137c9525f7ed93308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 04/13] fix: read YAML items written as a list and report
 malformed items

The documented list form of items (- from/to) panicked, as did null items and
values of the wrong type, and empty strings panicked later when the table was
turned into a converter.
---
 src/error.rs |  2 ++
 src/file.rs  | 61 ++++++++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 56 insertions(+), 7 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 08936ab..95e66c2 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -13,6 +13,8 @@ pub enum Error {
     RcFileLoadError(std::path::PathBuf),
     #[error("未対応のファイル拡張子が指定されています: {0}")]
     UnsupportedFileExtensionError(String),
+    #[error("設定ファイルの内容が正しくありません: {0}")]
+    InvalidConfigurationError(String),
     #[error("存在しない Modifier が指定されています: {0}")]
     ModifierKindParseError(String),
     #[error("指定したパスに拡張子が含まれていません: {0}")]
diff --git a/src/file.rs b/src/file.rs
index 85c3883..00301d7 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -51,6 +51,32 @@ pub fn to_csv_writer<T: Corr, W: Write>(corr: &Correspondence<T>, writer: W) ->
     wtr
 }
 
+/// YAML のルートから key の値を取得します。値が指定されていなければ None を返します。
+fn root_value<'a>(
+    data: &'a serde_yaml::Value,
+    key: &str,
+) -> Result<Option<&'a serde_yaml::Value>, Error> {
+    if !data.is_mapping() && !data.is_null() {
+        return Err(Error::InvalidConfigurationError(
+            "root must be a mapping.".to_string(),
+        ));
+    }
+    Ok(data.get(key).filter(|value| !value.is_null()))
+}
+
+/// YAML の値から空ではない文字列を取得します。
+fn non_empty_str(value: Option<&serde_yaml::Value>) -> Result<&str, Error> {
+    value
+        .and_then(|v| v.as_str())
+        .filter(|s| !s.is_empty())
+        .ok_or_else(|| {
+            Error::InvalidConfigurationError(format!(
+                "{:?} specified where a non-empty string is required.",
+                value
+            ))
+        })
+}
+
 /// 設定ファイルの YAML ファイルのパスから置換テーブルを生成する関数です。
 ///
 /// ```
@@ -62,16 +88,37 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     let path = path.as_ref();
     let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
     let mut items = Vec::new();
-    if let Some(map) = data.get("items") {
-        for (key, value) in map.as_mapping().unwrap().iter() {
-            if value.is_sequence() {
-                for v in value.as_sequence().unwrap().iter() {
-                    items.push(Item::new(v.as_str().unwrap(), key.as_str().unwrap()));
+    match root_value(&data, "items")? {
+        None => {}
+        // - from: a
+        //   to: A
+        Some(serde_yaml::Value::Sequence(seq)) => {
+            for v in seq.iter() {
+                items.push(Item::new(
+                    non_empty_str(v.get("from"))?,
+                    non_empty_str(v.get("to"))?,
+                ));
+            }
+        }
+        // A: a
+        // B: [b, c]
+        Some(serde_yaml::Value::Mapping(map)) => {
+            for (key, value) in map.iter() {
+                let to = non_empty_str(Some(key))?;
+                if let Some(seq) = value.as_sequence() {
+                    for v in seq.iter() {
+                        items.push(Item::new(non_empty_str(Some(v))?, to));
+                    }
+                } else {
+                    items.push(Item::new(non_empty_str(Some(value))?, to));
                 }
-            } else {
-                items.push(Item::new(value.as_str().unwrap(), key.as_str().unwrap()));
             }
         }
+        Some(_) => {
+            return Err(Error::InvalidConfigurationError(
+                "items must be a sequence or a mapping.".to_string(),
+            ))
+        }
     }
     Ok(Table::from_corr(
         Correspondence::new(Synthesized::new(items)),
-- 
2.43.0


From eb2598b5275a79a048e6507ce320f1472549666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 05/13] fix: report malformed modifiers in a YAML configuration
 instead of panicking

A value of the wrong type, an empty string where a character is required, a
key that is not a string and modifiers that are not a mapping all hit unwrap().
---
 src/file.rs                                   |  7 ++--
 src/modifier.rs                               | 36 +++++++++++++++++++
 src/modifier/character_converter.rs           | 14 +++-----
 src/modifier/character_eliminator.rs          | 10 +++---
 src/modifier/consecutive_character_reducer.rs | 10 +++---
 src/modifier/ligature_translator.rs           | 14 +++-----
 src/modifier_kind.rs                          |  7 ++--
 7 files changed, 64 insertions(+), 34 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 00301d7..174ec8f 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -137,8 +137,11 @@ pub fn modifiers_from_yaml_path(path: impl AsRef<Path>) -> Result<Vec<ModifierKi
     let path = path.as_ref();
     let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
     let mut modifiers = Vec::new();
-    if let Some(map) = data.get("modifiers") {
-        for (key, value) in map.as_mapping().unwrap().iter() {
+    if let Some(value) = root_value(&data, "modifiers")? {
+        let map = value.as_mapping().ok_or_else(|| {
+            Error::InvalidConfigurationError("modifiers must be a mapping.".to_string())
+        })?;
+        for (key, value) in map.iter() {
             modifiers.push(ModifierKind::from_yaml_key_value(key, value)?);
         }
     }
diff --git a/src/modifier.rs b/src/modifier.rs
index 11a3080..7b6d02c 100644
--- a/src/modifier.rs
+++ b/src/modifier.rs
@@ -45,6 +45,42 @@ pub trait ModifierFromYamlValue {
         Self: Sized;
 }
 
+/// YAML の値を mapping として取得します。
+fn yaml_mapping(value: &serde_yaml::Value) -> Result<&serde_yaml::Mapping, Error> {
+    value
+        .as_mapping()
+        .ok_or_else(|| unexpected_yaml_value(value, "a mapping"))
+}
+
+/// YAML の値を sequence として取得します。
+fn yaml_sequence(value: &serde_yaml::Value) -> Result<&serde_yaml::Sequence, Error> {
+    value
+        .as_sequence()
+        .ok_or_else(|| unexpected_yaml_value(value, "a sequence"))
+}
+
+/// YAML の値を文字列として取得します。
+fn yaml_str(value: &serde_yaml::Value) -> Result<&str, Error> {
+    value
+        .as_str()
+        .ok_or_else(|| unexpected_yaml_value(value, "a string"))
+}
+
+/// YAML の値の先頭の文字を取得します。
+fn yaml_char(value: &serde_yaml::Value) -> Result<char, Error> {
+    yaml_str(value)?
+        .chars()
+        .next()
+        .ok_or_else(|| unexpected_yaml_value(value, "a character"))
+}
+
+fn unexpected_yaml_value(value: &serde_yaml::Value, expected: &str) -> Error {
+    Error::InvalidConfigurationError(format!(
+        "{:?} specified where {} is required.",
+        value, expected
+    ))
+}
+
 /// 実行された正規化処理の途中経過を保存する構造体です。
 #[derive(Debug)]
 pub struct ModifiedRecords {
diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 40174f1..bd3f720 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -1,4 +1,4 @@
-use super::{ModifiedRecord, Modifier};
+use super::{yaml_char, yaml_mapping, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -101,16 +101,10 @@ impl Modifier for CharacterConverter {
 
 impl ModifierFromYamlValue for CharacterConverter {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
-        let map = value
-            .as_mapping()
-            .unwrap()
+        let map = yaml_mapping(value)?
             .iter()
-            .map(|(key, value)| {
-                let k = key.as_str().unwrap().chars().next().unwrap();
-                let v = value.as_str().unwrap().chars().next().unwrap();
-                (k, v)
-            })
-            .collect::<HashMap<char, char>>();
+            .map(|(key, value)| Ok((yaml_char(key)?, yaml_char(value)?)))
+            .collect::<Result<HashMap<char, char>, Error>>()?;
         Ok(Self::from_map(map))
     }
 }
diff --git a/src/modifier/character_eliminator.rs b/src/modifier/character_eliminator.rs
index 9307a40..3071105 100644
--- a/src/modifier/character_eliminator.rs
+++ b/src/modifier/character_eliminator.rs
@@ -1,4 +1,4 @@
-use super::{ModifiedRecord, Modifier};
+use super::{yaml_char, yaml_sequence, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -37,12 +37,10 @@ impl Modifier for CharacterEliminator {
 
 impl ModifierFromYamlValue for CharacterEliminator {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
-        let map = value
-            .as_sequence()
-            .unwrap()
+        let map = yaml_sequence(value)?
             .iter()
-            .map(|v| v.as_str().unwrap().chars().next().unwrap())
-            .collect::<Vec<char>>();
+            .map(yaml_char)
+            .collect::<Result<Vec<char>, Error>>()?;
         Ok(Self::from_chars(map))
     }
 }
diff --git a/src/modifier/consecutive_character_reducer.rs b/src/modifier/consecutive_character_reducer.rs
index 3882abf..daf570f 100644
--- a/src/modifier/consecutive_character_reducer.rs
+++ b/src/modifier/consecutive_character_reducer.rs
@@ -1,6 +1,6 @@
 //! 連続する同じ文字を一つにする Modifier のモジュールです。
 
-use super::{ModifiedRecord, Modifier};
+use super::{yaml_char, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -84,15 +84,17 @@ impl Modifier for ConsecutiveCharacterReducer {
 
 impl ModifierFromYamlValue for ConsecutiveCharacterReducer {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
-        Self::from_str(value.as_str().unwrap())
+        Ok(Self::new(yaml_char(value)?))
     }
 }
 
 impl FromStr for ConsecutiveCharacterReducer {
     type Err = Error;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let c = s.chars().next().unwrap();
-        Ok(Self::new(c))
+        match s.chars().next() {
+            Some(c) => Ok(Self::new(c)),
+            None => Err(Error::ModifierKindParseError("require value.".to_string())),
+        }
     }
 }
 
diff --git a/src/modifier/ligature_translator.rs b/src/modifier/ligature_translator.rs
index 2b33831..1b32fb4 100644
--- a/src/modifier/ligature_translator.rs
+++ b/src/modifier/ligature_translator.rs
@@ -1,4 +1,4 @@
-use super::{ModifiedRecord, Modifier};
+use super::{yaml_mapping, yaml_str, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -33,16 +33,10 @@ impl Modifier for LigatureTranslator {
 
 impl ModifierFromYamlValue for LigatureTranslator {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
-        let map = value
-            .as_mapping()
-            .unwrap()
+        let map = yaml_mapping(value)?
             .iter()
-            .map(|(key, value)| {
-                let k = key.as_str().unwrap().to_string();
-                let v = value.as_str().unwrap().to_string();
-                (k, v)
-            })
-            .collect::<HashMap<String, String>>();
+            .map(|(key, value)| Ok((yaml_str(key)?.to_string(), yaml_str(value)?.to_string())))
+            .collect::<Result<HashMap<String, String>, Error>>()?;
         Ok(Self::from_map(map))
     }
 }
diff --git a/src/modifier_kind.rs b/src/modifier_kind.rs
index 234bb84..e87067c 100644
--- a/src/modifier_kind.rs
+++ b/src/modifier_kind.rs
@@ -116,7 +116,10 @@ impl ModifierKind {
         key: &serde_yaml::Value,
         value: &serde_yaml::Value,
     ) -> Result<Self, Error> {
-        match key.as_str().unwrap() {
+        let key = key.as_str().ok_or_else(|| {
+            Error::ModifierKindParseError(format!("specified key {:?} is not a string.", key))
+        })?;
+        match key {
             "character_converter" => Ok(Self::CharacterConverter(
                 CharacterConverter::from_yaml_value(value)?,
             )),
@@ -136,7 +139,7 @@ impl ModifierKind {
             "neologdn" => Ok(Self::Neologdn(Neologdn::from_yaml_value(value)?)),
             _ => Err(Error::ModifierKindParseError(format!(
                 "specified key {} does not exists.",
-                key.as_str().unwrap()
+                key
             ))),
         }
     }
-- 
2.43.0


From 2ed11f772b9fdb7a2ead8850f00478e1e70780a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 06/13] fix: do not panic on empty cells in CSV files and empty
 items in tables

CharacterConverter::from_tables unwrapped the first character of every item,
so a CSV row with an empty cell, and a table built with an empty item,
panicked. The former is now reported as an error when the file is loaded.
---
 src/file.rs                         | 6 ++++++
 src/modifier/character_converter.rs | 8 ++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 174ec8f..3fcbde6 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -25,6 +25,12 @@ pub fn table_from_csv_path(path: impl AsRef<Path>) -> Result<Table, Error> {
         let record = result?;
         let to = record.iter().last().unwrap();
         let last_index = record.len() - 1;
+        if last_index > 0 && record.iter().any(|cell| cell.is_empty()) {
+            return Err(Error::InvalidConfigurationError(format!(
+                "empty cell in {:?}.",
+                record
+            )));
+        }
         for i in 0..last_index {
             items.push(Item::new(&record[i], to));
         }
diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index bd3f720..48d3cea 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -151,10 +151,10 @@ impl CharacterConverter {
         let mut items_map = HashMap::new();
         for table in tables.iter() {
             for item in table.items().iter() {
-                items_map.insert(
-                    item.from.chars().next().unwrap(),
-                    item.to.chars().next().unwrap(),
-                );
+                // 空文字列を含む Item は一文字から一文字の置換にならないので無視する
+                if let (Some(from), Some(to)) = (item.from.chars().next(), item.to.chars().next()) {
+                    items_map.insert(from, to);
+                }
             }
         }
         Self { items_map }
-- 
2.43.0


From 220cf2c36d558312579b24beb71693da4a98bd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 07/13] fix: accept .yml and report a missing extension in
 CHANOMARC

valid_file_path panicked on a path without an extension (or with one that is
not UTF-8) and rejected .yml, which is documented as supported.
---
 src/configuration.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 4f1998c..c94b8c9 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -109,10 +109,7 @@ fn valid_file_path(path: PathBuf) -> Result<Vec<PathBuf>, Error> {
     if !path.is_file() {
         return Err(crate::error::Error::RcFileLoadError(path));
     }
-    let extension = String::from(path.extension().unwrap().to_str().unwrap());
-    if FileExtension::iter().all(|ext| ext.to_string() != extension) {
-        return Err(crate::error::Error::RcFileLoadError(path));
-    }
+    FileExtension::from_path(&path)?;
     Ok(vec![path])
 }
 
-- 
2.43.0


From 5194ca3b8713accce290aaa0d0018ed0a76afd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 08/13] fix: discover chanomarc.yml and .chanomarc.yml

The documentation lists .yml beside .yaml, but only .csv and .yaml files were
looked for.
---
 src/configuration.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index c94b8c9..ab89456 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -58,10 +58,12 @@ impl Configuration {
             return valid_file_path(path);
         }
 
-        Ok(exists_file_paths(
-            auto_load_dirs(),
-            auto_load_paths_from_dir,
-        ))
+        Ok(exists_file_paths(auto_load_dirs(), |dir| {
+            auto_load_paths_from_dir(dir)
+                .into_iter()
+                .flat_map(with_yml_path)
+                .collect()
+        }))
     }
 
     fn load_items_to_character_converter(
@@ -146,6 +148,16 @@ fn auto_load_paths_from_dir(dir: &PathBuf) -> Vec<PathBuf> {
         .collect()
 }
 
+/// .yaml のパスの次に .yml のパスを追加する
+fn with_yml_path(path: PathBuf) -> Vec<PathBuf> {
+    if path.extension().map_or(false, |ext| ext == "yaml") {
+        let yml = path.with_extension("yml");
+        vec![path, yml]
+    } else {
+        vec![path]
+    }
+}
+
 /// 存在するパスに絞り込む
 fn exists_file_paths<F>(load_dirs: Vec<PathBuf>, expand: F) -> Vec<PathBuf>
 where
-- 
2.43.0


From 16f60d926987830353960560f92845944fb6a531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 09/13] fix: load a discovered configuration file only once

With the current directory being $HOME (or $HOME/.config/chanoma) every file
found there was loaded, and its modifiers applied, twice.
---
 src/configuration.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index ab89456..869703f 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -4,6 +4,7 @@ use super::modifier::CharacterConverter;
 use super::modifier_kind::ModifierKind;
 use crate::error::Error;
 use log::log_enabled;
+use std::collections::HashSet;
 use std::env;
 use std::path::{Path, PathBuf};
 use strum::IntoEnumIterator;
@@ -58,12 +59,13 @@ impl Configuration {
             return valid_file_path(path);
         }
 
-        Ok(exists_file_paths(auto_load_dirs(), |dir| {
+        let file_paths = exists_file_paths(auto_load_dirs(), |dir| {
             auto_load_paths_from_dir(dir)
                 .into_iter()
                 .flat_map(with_yml_path)
                 .collect()
-        }))
+        });
+        Ok(unique_file_paths(file_paths))
     }
 
     fn load_items_to_character_converter(
@@ -170,6 +172,15 @@ where
         .collect()
 }
 
+/// 同じファイルを指すパスを一つにする
+fn unique_file_paths(paths: Vec<PathBuf>) -> Vec<PathBuf> {
+    let mut seen = HashSet::new();
+    paths
+        .into_iter()
+        .filter(|path| seen.insert(path.canonicalize().unwrap_or_else(|_| path.clone())))
+        .collect()
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From fb8053aa51fac5030eeb6ad1feebed82aeacf043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 10/13] fix: do not ignore a CHANOMARC that is not valid UTF-8

env::var() fails for such a value, so the variable was treated as unset and
other files were loaded instead of the one it names.
---
 src/configuration.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 869703f..16fab45 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -101,11 +101,8 @@ impl Configuration {
 
 /// 環境変数が指定されていたらパスを返す
 fn file_path_from_env(env_name: &str) -> Option<PathBuf> {
-    if let Ok(path) = env::var(env_name) {
-        // Configuration::ENV_NAME
-        return Some(PathBuf::from(path));
-    }
-    None
+    // Configuration::ENV_NAME
+    env::var_os(env_name).map(PathBuf::from)
 }
 
 /// 指定したファイルが設定ファイルとして使用可能であればパス情報を返す
-- 
2.43.0


From dddb5391b6b4e9b98c69fe8564190bc0bc3fff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 11/13] fix: apply ligature entries in a fixed order

LigatureTranslator replaced its entries in HashMap iteration order, which
differs from one instance to the next, so the same configuration and text gave
different results when entries interact (ab -> x, abc -> y).
---
 src/modifier/ligature_translator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modifier/ligature_translator.rs b/src/modifier/ligature_translator.rs
index 1b32fb4..47e3fcd 100644
--- a/src/modifier/ligature_translator.rs
+++ b/src/modifier/ligature_translator.rs
@@ -3,6 +3,7 @@ use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
 use crate::position::Position;
+use std::cmp::Reverse;
 use std::collections::HashMap;
 use std::str::FromStr;
 
@@ -15,7 +16,10 @@ pub struct LigatureTranslator {
 impl Modifier for LigatureTranslator {
     fn modify(&self, input: &str) -> String {
         let mut text = input.to_string();
-        for (from, to) in self.map.iter() {
+        // HashMap の順序は不定なので、長いものから順に置換して常に同じ結果になるようにする
+        let mut entries = self.map.iter().collect::<Vec<_>>();
+        entries.sort_by_key(|(from, _)| (Reverse(from.len()), *from));
+        for (from, to) in entries {
             text = text.replace(from, to);
         }
         text
-- 
2.43.0


From 5c6200c8381804cf7ecdf06e7daf64be8bb2c981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 12/13] fix: correct three CJK compatibility entries

SQUARE_MM_SQUARED mapped to mm, SQUARE_CM_CUBED was keyed on the cubed
millimetre U+33A3 and SQUARE_KK mapped to K., all against the comments (and
the Unicode decompositions) beside them.
---
 src/characters_set/cjk_compatibilities.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/characters_set/cjk_compatibilities.rs b/src/characters_set/cjk_compatibilities.rs
index a192adf..035904a 100644
--- a/src/characters_set/cjk_compatibilities.rs
+++ b/src/characters_set/cjk_compatibilities.rs
@@ -461,12 +461,12 @@ pub const SQUARE_MU_M: Correspondence<Linear> = Linear::new("\u{339B}", "µm").c
 pub const SQUARE_MM: Correspondence<Linear> = Linear::new("\u{339C}", "mm").corr(); // U+339C  ㎜  SQUARE MM   mm
 pub const SQUARE_CM: Correspondence<Linear> = Linear::new("\u{339D}", "cm").corr(); // U+339D  ㎝  SQUARE CM   cm
 pub const SQUARE_KM: Correspondence<Linear> = Linear::new("\u{339E}", "km").corr(); // U+339E  ㎞  SQUARE KM   km
-pub const SQUARE_MM_SQUARED: Correspondence<Linear> = Linear::new("\u{339F}", "mm").corr(); // U+339F  ㎟  SQUARE MM SQUARED   mm2     平方ミリメートル
+pub const SQUARE_MM_SQUARED: Correspondence<Linear> = Linear::new("\u{339F}", "mm2").corr(); // U+339F  ㎟  SQUARE MM SQUARED   mm2     平方ミリメートル
 pub const SQUARE_CM_SQUARED: Correspondence<Linear> = Linear::new("\u{33A0}", "cm2").corr(); // U+33A0  ㎠  SQUARE CM SQUARED   cm2     平方センチメートル
 pub const SQUARE_M_SQUARED: Correspondence<Linear> = Linear::new("\u{33A1}", "m2").corr(); // U+33A1  ㎡  SQUARE M SQUARED    m2  平方メートル
 pub const SQUARE_KM_SQUARED: Correspondence<Linear> = Linear::new("\u{33A2}", "km2").corr(); // U+33A2  ㎢  SQUARE KM SQUARED   km2     平方キロメートル
 pub const SQUARE_MM_CUBED: Correspondence<Linear> = Linear::new("\u{33A3}", "mm3").corr(); // U+33A3  ㎣  SQUARE MM CUBED     mm3     立方ミリメートル
-pub const SQUARE_CM_CUBED: Correspondence<Linear> = Linear::new("\u{33A3}", "cm3").corr(); // U+33A4  ㎤  SQUARE CM CUBED     cm3     立方センチメートル
+pub const SQUARE_CM_CUBED: Correspondence<Linear> = Linear::new("\u{33A4}", "cm3").corr(); // U+33A4  ㎤  SQUARE CM CUBED     cm3     立方センチメートル
 pub const SQUARE_M_CUBED: Correspondence<Linear> = Linear::new("\u{33A5}", "m3").corr(); // U+33A5  ㎥  SQUARE M CUBED  m3  立方メートル
 pub const SQUARE_KM_CUBED: Correspondence<Linear> = Linear::new("\u{33A6}", "km3").corr(); // U+33A6  ㎦  SQUARE KM CUBED     km3     立方キロメートル
 pub const SQUARE_M_OVER_S: Correspondence<Linear> = Linear::new("\u{33A7}", "m/s").corr(); // U+33A7  ㎧  SQUARE M OVER S     m/s     メートル毎
@@ -508,7 +508,7 @@ pub const SQUARE_GY: Correspondence<Linear> = Linear::new("\u{33C9}", "Gy").corr
 pub const SQUARE_HA: Correspondence<Linear> = Linear::new("\u{33CA}", "ha").corr(); // U+33CA  ㏊  SQUARE HA   ha
 pub const SQUARE_HP: Correspondence<Linear> = Linear::new("\u{33CB}", "HP").corr(); // U+33CB  ㏋  SQUARE HP   HP
 pub const SQUARE_IN: Correspondence<Linear> = Linear::new("\u{33CC}", "in").corr(); // U+33CC  ㏌  SQUARE IN   in
-pub const SQUARE_KK: Correspondence<Linear> = Linear::new("\u{33CD}", "K.").corr(); // U+33CD  ㏍  SQUARE KK   K.K.
+pub const SQUARE_KK: Correspondence<Linear> = Linear::new("\u{33CD}", "K.K.").corr(); // U+33CD  ㏍  SQUARE KK   K.K.
 pub const SQUARE_KM_CAPITAL: Correspondence<Linear> = Linear::new("\u{33CE}", "KM").corr(); // U+33CE  ㏎  SQUARE KM CAPITAL   KM
 pub const SQUARE_KT: Correspondence<Linear> = Linear::new("\u{33CF}", "kt").corr(); // U+33CF  ㏏  SQUARE KT   kt
 pub const SQUARE_LM: Correspondence<Linear> = Linear::new("\u{33D0}", "lm").corr(); // U+33D0  ㏐  SQUARE LM   lm
-- 
2.43.0


From 63c43847c633ba522a620aea1ded4478c8669b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:43 +0000
Subject: [PATCH 13/13] fix: read a YAML configuration only once while loading
 it

---
 src/configuration.rs | 36 ++++++++++--------------------------
 src/file.rs          | 24 +++++++++++++++++++-----
 2 files changed, 29 insertions(+), 31 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 16fab45..34d142c 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -68,33 +68,17 @@ impl Configuration {
         Ok(unique_file_paths(file_paths))
     }
 
-    fn load_items_to_character_converter(
-        &self,
-        path: &Path,
-        ext: &FileExtension,
-    ) -> Result<CharacterConverter, Error> {
-        let table = match ext {
-            FileExtension::Csv => table_from_csv_path(path)?,
-            FileExtension::Yaml => table_from_yaml_path(path)?,
-            //FileExtension::Json => from_json_path(path),
-        };
-        Ok(CharacterConverter::from_tables(vec![table]))
-    }
-
-    fn load_modifiers(&self, path: &Path, ext: &FileExtension) -> Result<Vec<ModifierKind>, Error> {
-        let modifier_kinds = match ext {
-            FileExtension::Yaml => modifiers_from_yaml_path(path)?,
-            //FileExtension::Json => modifiers_from_json_path(path)?,
-            _ => Vec::new(),
-        };
-        Ok(modifier_kinds)
-    }
-
     fn load_file_with_ext(&self, path: &Path) -> Result<Vec<ModifierKind>, Error> {
-        let ext = FileExtension::from_path(&path)?;
-        let character_converter = self.load_items_to_character_converter(path, &ext)?;
-        let mut modifiers = self.load_modifiers(path, &ext)?;
-        modifiers.push(character_converter.into());
+        let (mut modifiers, table) = match FileExtension::from_path(&path)? {
+            FileExtension::Csv => (Vec::new(), table_from_csv_path(path)?),
+            FileExtension::Yaml => {
+                // 途中でファイルが置き換えられても混ざらないように、一度だけ読み込む
+                let data = yaml_value_from_path(path)?;
+                let table = table_from_yaml_value(&data, path)?;
+                (modifiers_from_yaml_value(&data)?, table)
+            } //FileExtension::Json => from_json_path(path),
+        };
+        modifiers.push(CharacterConverter::from_tables(vec![table]).into());
         Ok(modifiers)
     }
 }
diff --git a/src/file.rs b/src/file.rs
index 3fcbde6..f231e5e 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -92,9 +92,18 @@ fn non_empty_str(value: Option<&serde_yaml::Value>) -> Result<&str, Error> {
 /// ```
 pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     let path = path.as_ref();
-    let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
+    table_from_yaml_value(&yaml_value_from_path(path)?, path)
+}
+
+/// YAML ファイルを読み込みます。
+pub(crate) fn yaml_value_from_path(path: &Path) -> Result<serde_yaml::Value, Error> {
+    Ok(serde_yaml::from_reader(File::open(path)?)?)
+}
+
+/// 読み込み済みの YAML ファイルの内容から置換テーブルを生成します。
+pub(crate) fn table_from_yaml_value(data: &serde_yaml::Value, path: &Path) -> Result<Table, Error> {
     let mut items = Vec::new();
-    match root_value(&data, "items")? {
+    match root_value(data, "items")? {
         None => {}
         // - from: a
         //   to: A
@@ -140,10 +149,15 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
 /// let result = modifiers_from_yaml_path("/path/to/foo.yaml");
 /// ```
 pub fn modifiers_from_yaml_path(path: impl AsRef<Path>) -> Result<Vec<ModifierKind>, Error> {
-    let path = path.as_ref();
-    let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
+    modifiers_from_yaml_value(&yaml_value_from_path(path.as_ref())?)
+}
+
+/// 読み込み済みの YAML ファイルの内容から Modifier を生成します。
+pub(crate) fn modifiers_from_yaml_value(
+    data: &serde_yaml::Value,
+) -> Result<Vec<ModifierKind>, Error> {
     let mut modifiers = Vec::new();
-    if let Some(value) = root_value(&data, "modifiers")? {
+    if let Some(value) = root_value(data, "modifiers")? {
         let map = value.as_mapping().ok_or_else(|| {
             Error::InvalidConfigurationError("modifiers must be a mapping.".to_string())
         })?;
-- 
2.43.0

