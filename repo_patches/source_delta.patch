From 7951cc4f3c752662db2575af8aa7ca32fefdfb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 01/30] fix: range maps of characters at the start of the range
 and after the surrogate gap

---
 nanvm-lib/src/range_map.rs | 43 +++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/nanvm-lib/src/range_map.rs b/nanvm-lib/src/range_map.rs
index 7732c09..cf29392 100644
--- a/nanvm-lib/src/range_map.rs
+++ b/nanvm-lib/src/range_map.rs
@@ -162,45 +162,40 @@ where
     res
 }
 
-pub fn from_range<T>(range: RangeInclusive<char>, value: T) -> RangeMap<char, State<T>> {
-    RangeMap {
-        list: [
-            Entry {
-                key: char::from_u32(*range.start() as u32 - 1).unwrap_or(*range.start()),
-                value: State { value: None },
-            },
-            Entry {
-                key: *range.end(),
-                value: State { value: Some(value) },
-            },
-        ]
-        .cast(),
+/// The character before `c`, if there is one.
+fn pred(c: char) -> Option<char> {
+    match c {
+        '\0' => None,
+        // surrogate code points are not characters
+        '\u{E000}' => Some('\u{D7FF}'),
+        _ => char::from_u32(c as u32 - 1),
     }
 }
 
-pub fn from_one<T>(c: char, value: T) -> RangeMap<char, State<T>> {
+pub fn from_range<T>(range: RangeInclusive<char>, value: T) -> RangeMap<char, State<T>> {
+    let end = Entry {
+        key: *range.end(),
+        value: State { value: Some(value) },
+    };
     RangeMap {
-        list: match char::from_u32(c as u32 - 1) {
+        list: match pred(*range.start()) {
             Some(p) => [
                 Entry {
                     key: p,
                     value: State { value: None },
                 },
-                Entry {
-                    key: c,
-                    value: State { value: Some(value) },
-                },
+                end,
             ]
             .cast(),
-            None => [Entry {
-                key: c,
-                value: State { value: Some(value) },
-            }]
-            .cast(),
+            None => [end].cast(),
         },
     }
 }
 
+pub fn from_one<T>(c: char, value: T) -> RangeMap<char, State<T>> {
+    from_range(c..=c, value)
+}
+
 #[cfg(test)]
 mod test {
 
-- 
2.43.0


From 32448c98262a0323cc6744418ead00d1666c17b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 02/30] fix: path joining keeps absolute paths, drops
 current-directory components and keeps an empty first path relative

---
 nanvm-lib/src/parser/path.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/nanvm-lib/src/parser/path.rs b/nanvm-lib/src/parser/path.rs
index 79f97e7..1820df9 100644
--- a/nanvm-lib/src/parser/path.rs
+++ b/nanvm-lib/src/parser/path.rs
@@ -1,17 +1,20 @@
 use crate::common::default::default;
 
 pub fn normalize(path: &str) -> String {
+    let absolute = path.starts_with('/');
     let path_split: Vec<_> = path.split('/').collect();
     let mut result_split: Vec<&str> = Vec::new();
     for &dir in path_split.iter() {
         match dir {
-            "" => {}
+            "" | "." => {}
             ".." => {
                 let last = result_split.last();
                 match last {
                     Some(x) if x != &".." => {
                         result_split.pop();
                     }
+                    // there is nothing above the root
+                    None if absolute => {}
                     _ => {
                         result_split.push(dir);
                     }
@@ -22,20 +25,30 @@ pub fn normalize(path: &str) -> String {
             }
         }
     }
-    result_split.join("/")
+    let result = result_split.join("/");
+    match absolute {
+        true => "/".to_string() + &result,
+        false => result,
+    }
 }
 
 pub fn concat(a: &str, b: &str) -> String {
+    if a.is_empty() || b.starts_with('/') {
+        return normalize(b);
+    }
     let mut concat = a.to_string();
     concat.push('/');
     concat.push_str(b);
     normalize(&concat)
 }
 
+/// Splits a path into its directory and the name in it. The directory of a name in the root is
+/// the root.
 pub fn split(path: &str) -> (&str, &str) {
-    match path.rsplit_once('/') {
+    match path.rfind('/') {
         None => (default(), path),
-        Some(t) => t,
+        Some(0) => ("/", &path[1..]),
+        Some(i) => (&path[..i], &path[i + 1..]),
     }
 }
 
-- 
2.43.0


From 32b50008cc7d40ca112d11a3ace0d8202ae6c430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 03/30] fix: resolve a module's imports against its own
 directory and detect cycles through the entry file

---
 nanvm-lib/src/parser/parser.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index ef2584d..b6ead63 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -2,7 +2,7 @@ use super::{
     any_state::{AnyResult, AnyState},
     const_state::ConstState,
     json_state::JsonState,
-    path::{concat, split},
+    path::{concat, normalize, split},
     root_state::{RootState, RootStatus},
     shared::{JsonElement, ModuleCache, ParseError, ParseResult, ParsingStatus},
 };
@@ -12,6 +12,7 @@ use crate::{
     tokenizer::{tokenize, JsonToken},
 };
 use io_trait::Io;
+use std::mem::replace;
 
 pub struct Context<'a, M: Manager, I: Io> {
     manager: M,
@@ -103,7 +104,10 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
             match read_result {
                 Ok(s) => {
                     let tokens = tokenize(context.manager, s);
+                    // the module's own imports are relative to the module
+                    let importer = replace(&mut context.path, current_path.clone());
                     let res = parse_with_tokens(context, tokens.into_iter());
+                    context.path = importer;
                     match res {
                         Ok(r) => {
                             context.module_cache.progress.remove(&current_path);
@@ -176,7 +180,10 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                 match read_result {
                     Ok(s) => {
                         let tokens = tokenize(context.manager, s);
+                        // the module's own imports are relative to the module
+                        let importer = replace(&mut context.path, current_path.clone());
                         let res = parse_with_tokens(context, tokens.into_iter());
+                        context.path = importer;
                         match res {
                             Ok(r) => {
                                 context.module_cache.progress.remove(&current_path);
@@ -225,7 +232,11 @@ fn json_state_push<M: Manager + 'static, I: Io>(
 pub fn parse<M: Manager + 'static, I: Io>(
     context: &mut Context<M, I>,
 ) -> Result<ParseResult<M::Dealloc>, ParseError> {
-    context.module_cache.progress.insert(context.path.clone());
+    // modules are known by their normalized paths
+    context
+        .module_cache
+        .progress
+        .insert(normalize(&context.path));
     let read_result = context.io.read_to_string(context.path.as_str());
     match read_result {
         Ok(s) => {
-- 
2.43.0


From f8a9731b2ea1ab2948095505f6f5260ae8b89967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 04/30] fix: a semicolon ends a statement instead of crashing
 the parser

---
 nanvm-lib/src/parser/const_state.rs | 3 ++-
 nanvm-lib/src/parser/parser.rs      | 2 +-
 nanvm-lib/src/parser/root_state.rs  | 8 ++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/const_state.rs b/nanvm-lib/src/parser/const_state.rs
index 9f9b057..ff44c2f 100644
--- a/nanvm-lib/src/parser/const_state.rs
+++ b/nanvm-lib/src/parser/const_state.rs
@@ -2,6 +2,7 @@ use super::{
     any_state::{AnyResult, AnyState},
     json_state::JsonState,
     root_state::{RootState, RootStatus},
+    shared::ParseError,
 };
 use crate::{mem::manager::Manager, tokenizer::JsonToken};
 
@@ -13,7 +14,7 @@ pub struct ConstState<M: Manager> {
 impl<M: Manager> ConstState<M> {
     pub fn parse(self, manager: M, token: JsonToken<M::Dealloc>) -> JsonState<M> {
         match token {
-            JsonToken::Semicolon => todo!(),
+            JsonToken::Semicolon => JsonState::Error(ParseError::UnexpectedToken),
             _ => {
                 // TODO: use import_path in place of _ below to track possible errors -
                 // or provide an explanation on why it's not necessary.
diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index b6ead63..7f0c45b 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -43,7 +43,7 @@ fn const_state_parse<M: Manager + 'static, I: Io>(
     token: JsonToken<M::Dealloc>,
 ) -> JsonState<M> {
     match token {
-        JsonToken::Semicolon => todo!(),
+        JsonToken::Semicolon => JsonState::Error(ParseError::UnexpectedToken),
         _ => {
             let result = any_state_parse(const_state.state, context, token);
             match result {
diff --git a/nanvm-lib/src/parser/root_state.rs b/nanvm-lib/src/parser/root_state.rs
index 1b6c122..93bbd12 100644
--- a/nanvm-lib/src/parser/root_state.rs
+++ b/nanvm-lib/src/parser/root_state.rs
@@ -41,6 +41,14 @@ impl<M: Manager> RootState<M> {
                     }),
                     None,
                 ),
+                // a statement ends with a new line or a semicolon
+                JsonToken::Semicolon if !self.new_line => (
+                    JsonState::ParseRoot(RootState {
+                        new_line: true,
+                        ..self
+                    }),
+                    None,
+                ),
                 JsonToken::Id(s) => match self.new_line {
                     true => match s.as_ref() {
                         "const" => (
-- 
2.43.0


From 68046d5db5ce4531397c5bc5f349ce31dcce67f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 05/30] fix: accept require as the first and as later items of
 an array alike

---
 nanvm-lib/src/parser/any_state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 59716bb..a48c7b1 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -262,7 +262,7 @@ impl<M: Manager> AnyState<M> {
         match token {
             JsonToken::ArrayBegin => self.begin_array(),
             JsonToken::ObjectBegin => self.begin_object(),
-            JsonToken::Id(s) if self.data_type == DataType::Cjs && s == "require" => {
+            JsonToken::Id(s) if self.data_type.is_cjs_compatible() && s == "require" => {
                 self.begin_import()
             }
             JsonToken::ArrayEnd => self.end_array(manager),
@@ -281,6 +281,9 @@ impl<M: Manager> AnyState<M> {
             JsonToken::ArrayBegin => self.begin_array(),
             JsonToken::ArrayEnd => self.end_array(manager),
             JsonToken::ObjectBegin => self.begin_object(),
+            JsonToken::Id(s) if self.data_type.is_cjs_compatible() && s == "require" => {
+                self.begin_import()
+            }
             _ => {
                 let option_any = token.try_to_any(manager, &self.consts);
                 match option_any {
-- 
2.43.0


From adfd6bfb404d23bec6b80551761a9e4ca200cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 06/30] fix: accept unquoted keys after a comma too

---
 nanvm-lib/src/parser/any_state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index a48c7b1..6863ec2 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -355,6 +355,7 @@ impl<M: Manager> AnyState<M> {
     pub fn parse_object_comma(self, manager: M, token: JsonToken<M::Dealloc>) -> AnyResult<M> {
         match token {
             JsonToken::String(s) => self.push_key(s),
+            JsonToken::Id(s) if self.data_type.is_djs() => self.push_key(s),
             JsonToken::ObjectEnd => self.end_object(manager),
             _ => AnyResult::Error(ParseError::UnexpectedToken),
         }
-- 
2.43.0


From d410532a0dc3a2f9c3a25e9143c01553073dec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 07/30] fix: a constant does not turn an ES module back into
 plain data

---
 nanvm-lib/src/parser/any_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 6863ec2..efb6578 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -48,7 +48,7 @@ impl<M: Manager> Default for AnyState<M> {
 impl<M: Manager> AnyState<M> {
     pub fn set_djs(self) -> Self {
         AnyState {
-            data_type: DataType::Djs,
+            data_type: self.data_type.to_djs(),
             ..self
         }
     }
-- 
2.43.0


From f26872280de433dd7e032451c40408a75327a5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 08/30] fix: dropping the last handle to a big integer value
 frees it instead of crashing

---
 nanvm-lib/src/js/any_internal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nanvm-lib/src/js/any_internal.rs b/nanvm-lib/src/js/any_internal.rs
index dfc1ace..44b553d 100644
--- a/nanvm-lib/src/js/any_internal.rs
+++ b/nanvm-lib/src/js/any_internal.rs
@@ -13,6 +13,7 @@ use crate::{
 use super::{
     bitset::{ref_type, REF, REF_SUBSET_SUPERPOSITION},
     js_array::JsArray,
+    js_bigint::JsBigint,
     js_object::JsObject,
     js_string::JsString,
 };
@@ -71,6 +72,7 @@ impl<D: Dealloc> OptionalBlock for AnyInternal<D> {
             bitset::REF_TYPE_STRING => p.block::<JsString, D>().delete(),
             bitset::REF_TYPE_OBJECT => p.block::<JsObject<D>, D>().delete(),
             bitset::REF_TYPE_ARRAY => p.block::<JsArray<D>, D>().delete(),
+            bitset::REF_TYPE_BIGINT => p.block::<JsBigint, D>().delete(),
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From c669f4c0de19845214117380cec39fb91a34a08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 09/30] fix: a NaN with any sign and payload stays a number

---
 nanvm-lib/src/js/number.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nanvm-lib/src/js/number.rs b/nanvm-lib/src/js/number.rs
index 114a2c9..1cd72b9 100644
--- a/nanvm-lib/src/js/number.rs
+++ b/nanvm-lib/src/js/number.rs
@@ -2,6 +2,9 @@ use crate::mem::manager::Dealloc;
 
 use super::{any_cast::AnyCast, bitset::EXTENSION};
 
+/// The only bit pattern of NaN in a value.
+const NAN: u64 = 0x7FF8_0000_0000_0000;
+
 impl<D: Dealloc> AnyCast<D> for f64 {
     #[inline(always)]
     unsafe fn has_same_type(u: u64) -> bool {
@@ -9,6 +12,10 @@ impl<D: Dealloc> AnyCast<D> for f64 {
     }
     #[inline(always)]
     unsafe fn move_to_any_internal(self) -> u64 {
+        // a NaN with other sign and payload bits would read as another type
+        if self.is_nan() {
+            return NAN;
+        }
         self.to_bits()
     }
     #[inline(always)]
-- 
2.43.0


From 26547e73f0a4977da484fc336e9f22f6e1b24c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 10/30] fix: order negative big integers by value

---
 nanvm-lib/src/big_numbers/big_int.rs | 5 ++++-
 nanvm-lib/src/js/js_bigint.rs        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index 78ee4be..f78b4be 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -164,7 +164,10 @@ impl Ord for BigInt {
             return self.sign.cmp(&other.sign);
         }
 
-        self.value.cmp(&other.value)
+        match self.sign {
+            Sign::Positive => self.value.cmp(&other.value),
+            Sign::Negative => other.value.cmp(&self.value),
+        }
     }
 }
 
diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 8d86358..9c5972c 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -129,7 +129,10 @@ pub fn is_zero(value: &JsBigint) -> bool {
 impl JsBigint {
     pub fn compare(&self, other: &Self) -> Ordering {
         match self.header_len().cmp(&other.header_len()) {
-            Ordering::Equal => cmp_vec(self.items(), other.items()),
+            Ordering::Equal => match self.sign() {
+                Sign::Positive => cmp_vec(self.items(), other.items()),
+                Sign::Negative => cmp_vec(other.items(), self.items()),
+            },
             Ordering::Less => Ordering::Less,
             Ordering::Greater => Ordering::Greater,
         }
-- 
2.43.0


From 6140edb63b94f22fa7092c29afd0431728dbf06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 11/30] fix: right shifts of big integers keep all the bits
 carried between digits and round down

---
 nanvm-lib/src/big_numbers/big_uint.rs |  6 +++++-
 nanvm-lib/src/js/js_bigint.rs         | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index a474620..df09456 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -323,6 +323,10 @@ impl Shr for &BigUint {
             return self.clone();
         }
 
+        if rhs.len() != 1 {
+            return BigUint::ZERO;
+        }
+
         let number_to_remove = (rhs.value[0] / 64) as usize;
         if number_to_remove >= self.len() {
             return BigUint::ZERO;
@@ -333,7 +337,7 @@ impl Shr for &BigUint {
         let shift_mod = rhs.value[0] & ((1 << 6) - 1);
         if shift_mod > 0 {
             let len = value.len();
-            let mask = 1 << (shift_mod - 1);
+            let mask = (1 << shift_mod) - 1;
             let mut i = 0;
             loop {
                 value[i] >>= shift_mod;
diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 9c5972c..c00cc85 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -551,6 +551,10 @@ fn cmp_vec(lhs: &[u64], rhs: &[u64]) -> Ordering {
 }
 
 pub fn shl_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<M::Dealloc> {
+    if is_zero(lhs) {
+        return zero(m);
+    }
+
     let mut vec = lhs.items().to_vec();
     let shift_mod = rhs & ((1 << 6) - 1);
     if shift_mod > 0 {
@@ -582,11 +586,15 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
     }
 
     let mut vec = lhs.items().to_vec();
-    vec = vec.split_off(number_to_remove);
     let shift_mod = rhs & ((1 << 6) - 1);
+    // a negative number is rounded down when anything but zeros is shifted out
+    let round_down = lhs.sign() == Sign::Negative
+        && (vec[..number_to_remove].iter().any(|&d| d != 0)
+            || vec[number_to_remove] & ((1 << shift_mod) - 1) != 0);
+    vec = vec.split_off(number_to_remove);
     if shift_mod > 0 {
         let len = vec.len();
-        let mask = 1 << (shift_mod - 1);
+        let mask = (1 << shift_mod) - 1;
         let mut i = 0;
         loop {
             vec[i] >>= shift_mod;
@@ -599,8 +607,8 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
     }
 
     vec = normalize_vec(vec);
-    if vec.is_empty() && lhs.sign() == Sign::Negative {
-        return from_u64(m, Sign::Negative, 1);
+    if round_down {
+        vec = add_vec(&vec, &[1]);
     }
     new_bigint(m, lhs.sign(), vec)
 }
-- 
2.43.0


From 57fd4f9babd53239b7fa4668a71df8ff97e4fcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 12/30] fix: long division of big integers estimates quotient
 digits that are never too low and at most two too high

---
 nanvm-lib/src/big_numbers/big_uint.rs | 35 ++++++++++++-----------
 nanvm-lib/src/js/js_bigint.rs         | 41 ++++++++++++++++-----------
 2 files changed, 43 insertions(+), 33 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index df09456..5e14efa 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -108,36 +108,39 @@ impl BigUint {
             Ordering::Less => (default(), self.clone()),
             Ordering::Equal => (BigUint { value: [1].cast() }, default()),
             Ordering::Greater => {
-                let mut a = self.clone();
+                // The estimate of a quotient digit is at most two too high when the high bit of
+                // the divisor is set, so both numbers are shifted and the remainder is shifted back.
+                let shift = b.value[b.len() - 1].leading_zeros() as u64;
+                let shift = BigUint::from_u64(shift);
+                let mut a = self << &shift;
+                let b = &(b << &shift);
                 let mut result = BigUint::ZERO;
                 loop {
                     if a.cmp(b) == Ordering::Less {
-                        return (result, a);
+                        return (result, &a >> &shift);
                     }
                     let a_high_digit = a.len() - 1;
                     let b_high_digit = b.len() - 1;
                     let a_high = a.value[a_high_digit];
                     let b_high = b.value[b_high_digit];
-                    let (q_index, q_digit) = match b_high.cmp(&a_high) {
-                        Ordering::Less | Ordering::Equal => {
-                            (a_high_digit - b_high_digit, a_high / b_high)
-                        }
-                        Ordering::Greater => {
-                            let a_high_2 =
-                                ((a_high as u128) << 64) + a.value[a_high_digit - 1] as u128;
-                            (
-                                a_high_digit - b_high_digit - 1,
-                                (a_high_2 / b_high as u128) as u64,
-                            )
-                        }
+                    let (q_index, mut q_digit) = if a_high > b_high || a_high_digit == b_high_digit
+                    {
+                        (a_high_digit - b_high_digit, 1)
+                    } else {
+                        let a_high_2 = ((a_high as u128) << 64) + a.value[a_high_digit - 1] as u128;
+                        (
+                            a_high_digit - b_high_digit - 1,
+                            (a_high_2 / b_high as u128).min(u64::MAX as u128) as u64,
+                        )
                     };
                     let mut q = BigUint {
                         value: new_resize(q_index + 1),
                     };
                     q.value[q_index] = q_digit;
                     let mut m = b * &q;
-                    if a.cmp(&m) == Ordering::Less {
-                        q.value[q_index] = q_digit - 1;
+                    while a.cmp(&m) == Ordering::Less {
+                        q_digit -= 1;
+                        q.value[q_index] = q_digit;
                         m = b * &q;
                     }
                     a = &a - &m;
diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index c00cc85..e26609f 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -1,4 +1,4 @@
-use std::{cmp::Ordering, iter};
+use std::{cmp::Ordering, iter, ops::Deref};
 
 use crate::{
     common::{bit_subset64::BitSubset64, default::default, vec::new_resize},
@@ -226,34 +226,41 @@ pub fn div_mod<M: Manager>(
         Ordering::Less => (zero(m), new_bigint(m, sign, rhs.items().to_vec())),
         Ordering::Equal => (from_u64(m, sign, 1), zero(m)),
         Ordering::Greater => {
-            let mut a = lhs.items().to_vec();
-            let b = rhs.items();
+            // The estimate of a quotient digit is at most two too high when the high bit of the
+            // divisor is set, so both numbers are shifted and the remainder is shifted back.
+            let shift = rhs.items()[rhs.items().len() - 1].leading_zeros() as u64;
+            let mut a = shl_on_u64(m, lhs, shift).items().to_vec();
+            let b_shifted = shl_on_u64(m, rhs, shift);
+            let b = b_shifted.items();
             let mut result: Vec<u64> = default();
             loop {
                 if cmp_vec(&a, b) == Ordering::Less {
-                    return (new_bigint(m, sign, result), new_bigint(m, sign, a));
+                    let reminder = new_bigint(m, Sign::Positive, a);
+                    let reminder = shr_on_u64(m, reminder.deref(), shift);
+                    return (
+                        new_bigint(m, sign, result),
+                        new_bigint(m, sign, reminder.items().to_vec()),
+                    );
                 }
                 let a_high_digit = a.len() - 1;
                 let b_high_digit = b.len() - 1;
                 let a_high = a[a_high_digit];
                 let b_high = b[b_high_digit];
-                let (q_index, q_digit) = match b_high.cmp(&a_high) {
-                    Ordering::Less | Ordering::Equal => {
-                        (a_high_digit - b_high_digit, a_high / b_high)
-                    }
-                    Ordering::Greater => {
-                        let a_high_2 = ((a_high as u128) << 64) + a[a_high_digit - 1] as u128;
-                        (
-                            a_high_digit - b_high_digit - 1,
-                            (a_high_2 / b_high as u128) as u64,
-                        )
-                    }
+                let (q_index, mut q_digit) = if a_high > b_high || a_high_digit == b_high_digit {
+                    (a_high_digit - b_high_digit, 1)
+                } else {
+                    let a_high_2 = ((a_high as u128) << 64) + a[a_high_digit - 1] as u128;
+                    (
+                        a_high_digit - b_high_digit - 1,
+                        (a_high_2 / b_high as u128).min(u64::MAX as u128) as u64,
+                    )
                 };
                 let mut q = new_resize(q_index + 1);
                 q[q_index] = q_digit;
                 let mut m = mul_vec(b, &q);
-                if a.cmp(&m) == Ordering::Less {
-                    q[q_index] = q_digit - 1;
+                while cmp_vec(&a, &m) == Ordering::Less {
+                    q_digit -= 1;
+                    q[q_index] = q_digit;
                     m = mul_vec(b, &q);
                 }
                 a = sub_vec(&a, &m);
-- 
2.43.0


From 2feb6eaeb21ac88c87f6cbca4f9d5f85f61e98b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 13/30] fix: bitwise operations with a negative result keep its
 high digits

---
 nanvm-lib/src/js/js_bigint.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index e26609f..9398a6d 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -410,18 +410,13 @@ fn to_twos_complement(value: &JsBigint) -> TwosComplement {
 
 fn from_twos_complement<M: Manager>(m: M, value: TwosComplement) -> JsBigintMutRef<M::Dealloc> {
     match value.sign {
-        Sign::Positive => new_bigint(m, Sign::Positive, value.vec),
+        Sign::Positive => new_bigint(m, Sign::Positive, normalize_vec(value.vec)),
         Sign::Negative => {
-            let sub = sub_vec(&value.vec, &[1]);
             let mut res: Vec<u64> = default();
-            for d in sub {
+            for d in value.vec {
                 res.push(!d);
             }
-            res = normalize_vec(res);
-            if res.is_empty() {
-                return from_u64(m, Sign::Negative, 1);
-            }
-            new_bigint(m, Sign::Negative, res)
+            new_bigint(m, Sign::Negative, normalize_vec(add_vec(&res, &[1])))
         }
     }
 }
@@ -435,7 +430,6 @@ fn and_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosCompleme
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a & b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
@@ -448,7 +442,6 @@ fn or_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosComplemen
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a | b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
@@ -461,7 +454,6 @@ fn xor_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosCompleme
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a ^ b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
-- 
2.43.0


From e095d639f1f4fef533bfd8cafef2e01d35815f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 14/30] fix: powers of minus one and of zero, without a
 needless last squaring

---
 nanvm-lib/src/big_numbers/big_uint.rs |  4 +++-
 nanvm-lib/src/js/js_bigint.rs         | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index 5e14efa..876ab2f 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -83,7 +83,9 @@ impl BigUint {
                 res = &res * &b;
             }
             exp >>= 1;
-            b = &b * &b;
+            if exp > 0 {
+                b = &b * &b;
+            }
         }
     }
 
diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 9398a6d..6017bb0 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -277,7 +277,12 @@ pub fn pow<M: Manager>(m: M, lhs: &JsBigint, rhs: &JsBigint) -> JsBigintMutRef<M
     }
 
     if lhs.items().len() == 1 && lhs.items()[0] == 1 {
-        return from_u64(m, Sign::Positive, 1);
+        let sign = if rhs.get_last_bit() == 0 {
+            Sign::Positive
+        } else {
+            lhs.sign()
+        };
+        return from_u64(m, sign, 1);
     }
 
     if is_zero(lhs) {
@@ -302,6 +307,9 @@ pub fn pow<M: Manager>(m: M, lhs: &JsBigint, rhs: &JsBigint) -> JsBigintMutRef<M
 pub fn pow_u64<M: Manager>(m: M, lhs: &JsBigint, mut rhs: u64) -> JsBigintMutRef<M::Dealloc> {
     let mut res = [1].to_vec();
     let mut b = lhs.items().to_vec();
+    if b.is_empty() && rhs > 0 {
+        return zero(m);
+    }
     let sign = if lhs.sign() == Sign::Positive || rhs & 1 == 0 {
         Sign::Positive
     } else {
@@ -315,7 +323,9 @@ pub fn pow_u64<M: Manager>(m: M, lhs: &JsBigint, mut rhs: u64) -> JsBigintMutRef
             res = mul_vec(&res, &b);
         }
         rhs >>= 1;
-        b = mul_vec(&b, &b);
+        if rhs > 0 {
+            b = mul_vec(&b, &b);
+        }
     }
 }
 
-- 
2.43.0


From 6b7e789f9c1107f7e250981a91154376f647755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 15/30] fix: big integers made from machine integers are
 canonical and exact for the least integer

---
 nanvm-lib/src/big_numbers/big_int.rs  | 8 ++------
 nanvm-lib/src/big_numbers/big_uint.rs | 4 +++-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index f78b4be..8c4138a 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -3,8 +3,6 @@ use std::{
     ops::{Add, Div, Mul, Neg, Sub},
 };
 
-use crate::common::cast::Cast;
-
 use super::big_uint::BigUint;
 
 #[derive(Debug, PartialEq, Clone, Eq, Default)]
@@ -49,7 +47,7 @@ impl BigInt {
     pub fn from_u64(n: u64) -> Self {
         BigInt {
             sign: Sign::Positive,
-            value: BigUint { value: [n].cast() },
+            value: BigUint::from_u64(n),
         }
     }
 
@@ -71,9 +69,7 @@ impl BigInt {
         };
         BigInt {
             sign,
-            value: BigUint {
-                value: [(n * sign as i64) as u64].cast(),
-            },
+            value: BigUint::from_u64(n.unsigned_abs()),
         }
     }
 
diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index 876ab2f..a20760d 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -45,7 +45,9 @@ impl BigUint {
     }
 
     pub fn from_u64(n: u64) -> Self {
-        BigUint { value: [n].cast() }
+        let mut result = BigUint { value: [n].cast() };
+        result.normalize();
+        result
     }
 
     pub fn pow(&self, exp: &BigUint) -> BigUint {
-- 
2.43.0


From 310523814cb6b88ddbca439f45bf2f158d7fde3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 16/30] fix: signed division yields no negative zero and a
 remainder with the sign of the dividend

---
 nanvm-lib/src/big_numbers/big_int.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index 8c4138a..8f930c8 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -84,7 +84,15 @@ impl BigInt {
         };
 
         let (q, r) = self.value.div_mod(&d.value);
-        (BigInt { sign, value: q }, BigInt { sign, value: r })
+        let mut q = BigInt { sign, value: q };
+        q.normalize();
+        // the remainder has the sign of the dividend
+        let mut r = BigInt {
+            sign: self.sign,
+            value: r,
+        };
+        r.normalize();
+        (q, r)
     }
 }
 
@@ -199,7 +207,9 @@ impl Div for &BigInt {
         };
 
         let value = &self.value / &d.value;
-        BigInt { sign, value }
+        let mut result = BigInt { sign, value };
+        result.normalize();
+        result
     }
 }
 
-- 
2.43.0


From 20e4aa7dd5562d702c4e1888588613e7c5a8bda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 17/30] fix: round numbers between half and all of the least
 double up to it

---
 nanvm-lib/src/big_numbers/big_float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index 77e01ad..b6c965f 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -210,7 +210,7 @@ impl<M: Manager> BigFloat<2, M> {
                 bits |= frac_bits;
                 bits
             }
-            -1074..=-1023 => {
+            -1075..=-1023 => {
                 let subnormal_precision = (f64_exp + 1076) as u64;
                 value.decrease_significand(subnormal_precision);
                 let frac = value.get_frac_round();
-- 
2.43.0


From 25f3dccc6a649b6b3eea66c9cd7336ade527a5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 18/30] fix: a zero keeps its sign

---
 nanvm-lib/src/big_numbers/big_float.rs |  5 ++++-
 nanvm-lib/src/tokenizer/mod.rs         | 13 ++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index b6c965f..e37fdae 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -83,7 +83,10 @@ impl<const BASE: u32, M: Manager> BigFloat<BASE, M> {
 impl<M: Manager> BigFloat<10, M> {
     pub fn to_bin(self, precision: u8) -> BigFloat<2, M> {
         if is_zero(self.significand.deref()) {
-            return float_zero(self.manager);
+            return BigFloat {
+                sign: self.sign,
+                ..float_zero(self.manager)
+            };
         }
 
         if self.exp == 0 {
diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 97ade5c..4961995 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -158,7 +158,7 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             | TokenizerState::ParseMultilineCommentAsterix => {
                 [JsonToken::ErrorToken(ErrorType::CommentClosingExpected)].cast()
             }
-            TokenizerState::ParseZero(_) => [JsonToken::Number(default())].cast(),
+            TokenizerState::ParseZero(s) => [zero_token(s)].cast(),
             TokenizerState::ParseInt(s) => [int_state_into_number_token(manager, s)].cast(),
             TokenizerState::ParseFrac(s) => [float_state_into_token(manager, s)].cast(),
             TokenizerState::ParseExp(s) => [exp_state_into_token(manager, s)].cast(),
@@ -212,6 +212,13 @@ pub fn bigfloat_to_f64<M: Manager>(bf_10: BigFloat<10, M>) -> f64 {
     bf_2.to_f64()
 }
 
+fn zero_token<D: Dealloc>(s: Sign) -> JsonToken<D> {
+    JsonToken::Number(match s {
+        Sign::Positive => 0.0,
+        Sign::Negative => -0.0,
+    })
+}
+
 pub struct IntState<D: Dealloc> {
     b: JsBigintMutRef<D>,
     s: Sign,
@@ -694,10 +701,10 @@ fn create_zero_transactions<M: Manager + 'static>() -> TransitionMap<Sign, M> {
                         )
                     }) as Func<M>,
                 ),
-                create_range_map(terminal_for_number(), |manager, _, c, maps| {
+                create_range_map(terminal_for_number(), |manager, s, c, maps| {
                     transfer_state(
                         manager,
-                        [JsonToken::Number(default())].cast(),
+                        [zero_token(s)].cast(),
                         TokenizerState::Initial,
                         c,
                         maps,
-- 
2.43.0


From 748a89427f187931d1650b9751a146ef3aa4fba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 19/30] fix: decimal exponents of any size neither overflow nor
 take time

---
 nanvm-lib/src/tokenizer/mod.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 4961995..251b2fb 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -208,6 +208,22 @@ impl ParseUnicodeCharState {
 }
 
 pub fn bigfloat_to_f64<M: Manager>(bf_10: BigFloat<10, M>) -> f64 {
+    // Numbers far outside of the range of doubles (from 10^-324 to 10^309) need no powers of ten.
+    // A digit of the significand is less than 10^20.
+    let digits = bf_10.significand.items().len() as i64;
+    let magnitude = if digits > 0 && bf_10.exp > 400 {
+        Some(f64::INFINITY)
+    } else if bf_10.exp < -400 - 20 * digits {
+        Some(0.0)
+    } else {
+        None
+    };
+    if let Some(magnitude) = magnitude {
+        return match bf_10.sign {
+            Sign::Positive => magnitude,
+            Sign::Negative => -magnitude,
+        };
+    }
     let bf_2 = bf_10.to_bin(54);
     bf_2.to_f64()
 }
@@ -325,7 +341,10 @@ pub struct ExpState<D: Dealloc> {
 
 impl<D: Dealloc> ExpState<D> {
     const fn add_digit(mut self, c: char) -> ExpState<D> {
-        self.e = self.e * 10 + digit_to_number(c) as i64;
+        self.e = self
+            .e
+            .saturating_mul(10)
+            .saturating_add(digit_to_number(c) as i64);
         self
     }
 }
@@ -334,11 +353,10 @@ fn exp_state_into_token<M: Manager>(
     manager: M,
     state: ExpState<M::Dealloc>,
 ) -> JsonToken<M::Dealloc> {
-    let exp = state.fe
-        + match state.es {
-            Sign::Positive => state.e,
-            Sign::Negative => -state.e,
-        };
+    let exp = state.fe.saturating_add(match state.es {
+        Sign::Positive => state.e,
+        Sign::Negative => -state.e,
+    });
     JsonToken::Number(bigfloat_to_f64(BigFloat {
         manager,
         significand: state.b,
-- 
2.43.0


From 5b18316f47af49158df32018e6040819d0c8f117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 20/30] fix: an exponent without digits is not a number

---
 nanvm-lib/src/tokenizer/mod.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 251b2fb..1572cad 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -108,9 +108,10 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseExpBegin(s) => {
                 get_next_state(manager, s, c, &maps.exp_begin, maps)
             }
-            TokenizerState::ParseExpSign(s) | TokenizerState::ParseExp(s) => {
-                get_next_state(manager, s, c, &maps.exp, maps)
+            TokenizerState::ParseExpSign(s) => {
+                get_next_state(manager, s, c, &maps.exp_sign, maps)
             }
+            TokenizerState::ParseExp(s) => get_next_state(manager, s, c, &maps.exp, maps),
             TokenizerState::ParseBigInt(s) => get_next_state(manager, s, c, &maps.big_int, maps),
             TokenizerState::ParseNewLine => get_next_state(manager, (), c, &maps.new_line, maps),
             TokenizerState::ParseCommentStart => {
@@ -463,6 +464,7 @@ pub struct TransitionMaps<M: Manager> {
     frac_begin: TransitionMap<IntState<M::Dealloc>, M>,
     frac: TransitionMap<FloatState<M::Dealloc>, M>,
     exp_begin: TransitionMap<ExpState<M::Dealloc>, M>,
+    exp_sign: TransitionMap<ExpState<M::Dealloc>, M>,
     exp: TransitionMap<ExpState<M::Dealloc>, M>,
     big_int: TransitionMap<JsBigintMutRef<M::Dealloc>, M>,
     new_line: TransitionMap<(), M>,
@@ -486,6 +488,7 @@ pub fn create_transition_maps<M: Manager + 'static>() -> TransitionMaps<M> {
         frac_begin: create_frac_begin_transactions(),
         frac: create_frac_transactions(),
         exp_begin: create_exp_begin_transactions(),
+        exp_sign: create_exp_sign_transactions(),
         exp: create_exp_transactions(),
         big_int: create_big_int_transactions(),
         new_line: create_new_line_transactions(),
@@ -867,21 +870,23 @@ fn create_exp_begin_transactions<M: Manager + 'static>() -> TransitionMap<ExpSta
                         TokenizerState::ParseExpSign(s)
                     })
                 }),
-                create_range_map(terminal_for_number(), |manager, s, c, maps| {
-                    transfer_state(
-                        manager,
-                        [exp_state_into_token(manager, s)].cast(),
-                        TokenizerState::Initial,
-                        c,
-                        maps,
-                    )
-                }),
             ]
             .cast(),
         ),
     }
 }
 
+fn create_exp_sign_transactions<M: Manager + 'static>() -> TransitionMap<ExpState<M::Dealloc>, M> {
+    type Func<M> = TransitionFunc<M, ExpState<<M as Manager>::Dealloc>>;
+    TransitionMap {
+        def: (|manager, _, c, maps| tokenize_invalid_number(manager, c, maps)) as Func<M>,
+        rm: from_range(
+            '0'..='9',
+            (|_, s, c, _| (default(), TokenizerState::ParseExp(s.add_digit(c)))) as Func<M>,
+        ),
+    }
+}
+
 fn create_exp_transactions<M: Manager + 'static>() -> TransitionMap<ExpState<M::Dealloc>, M> {
     type Func<M> = TransitionFunc<M, ExpState<<M as Manager>::Dealloc>>;
     TransitionMap {
-- 
2.43.0


From 78e36041c3d3b6e24940eba296ea26997520b4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:49 +0000
Subject: [PATCH 21/30] fix: decode surrogate pairs written as two escapes

---
 nanvm-lib/src/tokenizer/mod.rs | 91 +++++++++++++++++++++++++++++++++-
 1 file changed, 89 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 1572cad..4ebaf9e 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -64,6 +64,8 @@ pub enum TokenizerState<D: Dealloc> {
     ParseString(String),
     ParseEscapeChar(String),
     ParseUnicodeChar(ParseUnicodeCharState),
+    ParseSurrogate(SurrogateState),
+    ParseSurrogateEscape(SurrogateState),
     ParseMinus,
     ParseZero(Sign),
     ParseInt(IntState<D>),
@@ -98,6 +100,12 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseUnicodeChar(s) => {
                 get_next_state(manager, s, c, &maps.unicode_char, maps)
             }
+            TokenizerState::ParseSurrogate(s) => {
+                get_next_state(manager, s, c, &maps.surrogate, maps)
+            }
+            TokenizerState::ParseSurrogateEscape(s) => {
+                get_next_state(manager, s, c, &maps.surrogate_escape, maps)
+            }
             TokenizerState::ParseZero(s) => get_next_state(manager, s, c, &maps.zero, maps),
             TokenizerState::ParseInt(s) => get_next_state(manager, s, c, &maps.int, maps),
             TokenizerState::ParseMinus => get_next_state(manager, (), c, &maps.minus, maps),
@@ -149,7 +157,9 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseId(s) => [JsonToken::Id(s)].cast(),
             TokenizerState::ParseString(_)
             | TokenizerState::ParseEscapeChar(_)
-            | TokenizerState::ParseUnicodeChar(_) => {
+            | TokenizerState::ParseUnicodeChar(_)
+            | TokenizerState::ParseSurrogate(_)
+            | TokenizerState::ParseSurrogateEscape(_) => {
                 [JsonToken::ErrorToken(ErrorType::MissingQuotes)].cast()
             }
             TokenizerState::ParseCommentStart => {
@@ -175,12 +185,22 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
     }
 }
 
+/// A string and the high surrogate that was escaped after it.
+pub struct SurrogateState {
+    s: String,
+    high: u32,
+}
+
 pub struct ParseUnicodeCharState {
     s: String,
+    high: Option<u32>,
     unicode: u32,
     index: u8,
 }
 
+const HIGH_SURROGATE: RangeInclusive<u32> = 0xD800..=0xDBFF;
+const LOW_SURROGATE: RangeInclusive<u32> = 0xDC00..=0xDFFF;
+
 impl ParseUnicodeCharState {
     fn push<M: Manager>(
         mut self,
@@ -189,7 +209,24 @@ impl ParseUnicodeCharState {
         let new_unicode = self.unicode | (i << ((3 - self.index) * 4));
         match self.index {
             3 => {
-                let c = char::from_u32(new_unicode);
+                let c = match self.high {
+                    None if HIGH_SURROGATE.contains(&new_unicode) => {
+                        return (
+                            default(),
+                            TokenizerState::ParseSurrogate(SurrogateState {
+                                s: self.s,
+                                high: new_unicode,
+                            }),
+                        )
+                    }
+                    None => char::from_u32(new_unicode),
+                    Some(high) if LOW_SURROGATE.contains(&new_unicode) => char::from_u32(
+                        0x10000
+                            + ((high - HIGH_SURROGATE.start()) << 10)
+                            + (new_unicode - LOW_SURROGATE.start()),
+                    ),
+                    Some(_) => None,
+                };
                 match c {
                     Some(c) => continue_string_state::<M>(self.s, c),
                     None => (
@@ -458,6 +495,8 @@ pub struct TransitionMaps<M: Manager> {
     string: TransitionMap<String, M>,
     escape_char: TransitionMap<String, M>,
     unicode_char: TransitionMap<ParseUnicodeCharState, M>,
+    surrogate: TransitionMap<SurrogateState, M>,
+    surrogate_escape: TransitionMap<SurrogateState, M>,
     zero: TransitionMap<Sign, M>,
     int: TransitionMap<IntState<M::Dealloc>, M>,
     minus: TransitionMap<(), M>,
@@ -482,6 +521,8 @@ pub fn create_transition_maps<M: Manager + 'static>() -> TransitionMaps<M> {
         string: create_string_transactions(),
         escape_char: create_escape_char_transactions(),
         unicode_char: create_unicode_char_transactions(),
+        surrogate: create_surrogate_transitions(),
+        surrogate_escape: create_surrogate_escape_transitions(),
         zero: create_zero_transactions(),
         int: create_int_transactions(),
         minus: create_minus_transactions(),
@@ -639,6 +680,7 @@ fn create_escape_char_transactions<M: Manager + 'static>() -> TransitionMap<Stri
                         default(),
                         TokenizerState::ParseUnicodeChar(ParseUnicodeCharState {
                             s,
+                            high: None,
                             unicode: 0,
                             index: 0,
                         }),
@@ -683,6 +725,51 @@ fn create_unicode_char_transactions<M: Manager + 'static>(
     }
 }
 
+/// After an escaped high surrogate: only the escape of a low one may follow.
+fn create_surrogate_transitions<M: Manager + 'static>() -> TransitionMap<SurrogateState, M> {
+    type Func<M> = TransitionFunc<M, SurrogateState>;
+    TransitionMap {
+        def: (|manager, state, c, maps| {
+            transfer_state(
+                manager,
+                [JsonToken::ErrorToken(ErrorType::InvalidHex)].cast(),
+                TokenizerState::ParseString(state.s),
+                c,
+                maps,
+            )
+        }) as Func<M>,
+        rm: from_one('\\', |_, state, _, _| {
+            (default(), TokenizerState::ParseSurrogateEscape(state))
+        }),
+    }
+}
+
+fn create_surrogate_escape_transitions<M: Manager + 'static>() -> TransitionMap<SurrogateState, M> {
+    type Func<M> = TransitionFunc<M, SurrogateState>;
+    TransitionMap {
+        def: (|manager, state, c, maps| {
+            transfer_state(
+                manager,
+                [JsonToken::ErrorToken(ErrorType::InvalidHex)].cast(),
+                TokenizerState::ParseEscapeChar(state.s),
+                c,
+                maps,
+            )
+        }) as Func<M>,
+        rm: from_one('u', |_, state, _, _| {
+            (
+                default(),
+                TokenizerState::ParseUnicodeChar(ParseUnicodeCharState {
+                    s: state.s,
+                    high: Some(state.high),
+                    unicode: 0,
+                    index: 0,
+                }),
+            )
+        }),
+    }
+}
+
 fn create_zero_transactions<M: Manager + 'static>() -> TransitionMap<Sign, M> {
     type Func<M> = TransitionFunc<M, Sign>;
     TransitionMap {
-- 
2.43.0


From f41cdc06023afa746b33694b3532bc30b5ec1f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 22/30] fix: module output walks through each shared part once,
 in an order given by the value alone

---
 nanvm-lib/src/serializer/to_djs.rs | 38 +++++++++---------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/nanvm-lib/src/serializer/to_djs.rs b/nanvm-lib/src/serializer/to_djs.rs
index 4df0d51..dfb61ea 100644
--- a/nanvm-lib/src/serializer/to_djs.rs
+++ b/nanvm-lib/src/serializer/to_djs.rs
@@ -67,11 +67,15 @@ impl<D: Dealloc> ConstTracker<D> {
 fn write_compound_const<D: Dealloc>(
     write_json: &mut (impl WriteJson + ?Sized),
     any: &Any<D>,
-    to_be_consts: &mut HashMap<Any<D>, Seen>,
+    visited: &mut HashMap<Any<D>, Seen>,
     const_refs: &mut HashMap<Any<D>, usize>,
 ) -> fmt::Result {
-    any.for_each(|_k, v| write_consts_and_any(write_json, v, to_be_consts, const_refs))?;
-    if to_be_consts.remove(any).is_some() {
+    // every compound value is walked through once
+    let Some(seen) = visited.remove(any) else {
+        return fmt::Result::Ok(());
+    };
+    any.for_each(|_k, v| write_consts_and_any(write_json, v, visited, const_refs))?;
+    if seen == Seen::Repeatedly {
         let id = const_refs.len();
         write_json.write_str("const _")?;
         write_json.write_str(id.to_string().as_str())?;
@@ -90,36 +94,18 @@ fn write_compound_const<D: Dealloc>(
 fn write_consts_and_any<D: Dealloc>(
     write_json: &mut (impl WriteJson + ?Sized),
     any: &Any<D>,
-    to_be_consts: &mut HashMap<Any<D>, Seen>,
+    visited: &mut HashMap<Any<D>, Seen>,
     const_refs: &mut HashMap<Any<D>, usize>,
 ) -> fmt::Result {
     match any.get_type() {
         Type::Array | Type::Object => {
-            write_compound_const(write_json, any, to_be_consts, const_refs)?;
+            write_compound_const(write_json, any, visited, const_refs)?;
         }
         _ => {}
     }
     fmt::Result::Ok(())
 }
 
-/// Peeks one value from a hash map. This helper resolves a borrowing issue in write_consts - that
-/// function needs to iterate through a hash map while mutating that hash map.
-fn peek<D: Dealloc>(hash_map: &HashMap<Any<D>, Seen>) -> Option<Any<D>> {
-    Some(hash_map.iter().next()?.0.clone())
-}
-
-/// Writes const definitions for objects, arrays in the right order (with no forward references).
-fn write_consts<D: Dealloc>(
-    write_json: &mut (impl WriteJson + ?Sized),
-    to_be_consts: &mut HashMap<Any<D>, Seen>,
-    const_refs: &mut HashMap<Any<D>, usize>,
-) -> fmt::Result {
-    while let Some(any) = peek(to_be_consts) {
-        write_consts_and_any(write_json, &any, to_be_consts, const_refs)?;
-    }
-    fmt::Result::Ok(())
-}
-
 /// Writes `any` using const references.
 fn write_with_const_refs<D: Dealloc>(
     write_json: &mut (impl WriteJson + ?Sized),
@@ -170,10 +156,8 @@ pub trait WriteDjs: WriteJson {
             visited: HashMap::new(),
         };
         const_tracker.track_consts_for_any(&any)?;
-        const_tracker
-            .visited
-            .retain(|_, seen| *seen == Seen::Repeatedly);
-        write_consts(self, &mut const_tracker.visited, &mut const_refs)?;
+        // in the order of the value itself, so equal values are written alike
+        write_consts_and_any(self, &any, &mut const_tracker.visited, &mut const_refs)?;
         if common_js {
             self.write_str("module.exports=")?;
         } else {
-- 
2.43.0


From e6bda11bc5fe281390580e6141dde343daa459db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 23/30] fix: an infinity is written as a number that reads back
 as it

---
 nanvm-lib/src/serializer/to_json.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nanvm-lib/src/serializer/to_json.rs b/nanvm-lib/src/serializer/to_json.rs
index cf18014..4f47f9c 100644
--- a/nanvm-lib/src/serializer/to_json.rs
+++ b/nanvm-lib/src/serializer/to_json.rs
@@ -75,6 +75,9 @@ pub trait WriteJson: Write {
     fn write_json(&mut self, any: Any<impl Dealloc>) -> fmt::Result {
         match to_visitor(any) {
             // TODO: replace with proper JSON number serializer.
+            // an infinity has no literal but is what a number out of the range reads as
+            Visitor::Number(f64::INFINITY) => self.write_str("1e1000"),
+            Visitor::Number(f64::NEG_INFINITY) => self.write_str("-1e1000"),
             Visitor::Number(n) => self.write_str(n.to_string().as_str()),
             Visitor::Null => self.write_str("null"),
             Visitor::Bool(b) => self.write_str(if b { "true" } else { "false" }),
-- 
2.43.0


From 38538ae7cc5722ba03dd53f6bf84614ab2866817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 24/30] fix: big integers are written as literals in modules
 and refused in JSON

---
 nanvm-lib/src/serializer/to_djs.rs  | 37 ++++++++++++++++++++++++++++-
 nanvm-lib/src/serializer/to_json.rs |  3 ++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/serializer/to_djs.rs b/nanvm-lib/src/serializer/to_djs.rs
index dfb61ea..2a16bbf 100644
--- a/nanvm-lib/src/serializer/to_djs.rs
+++ b/nanvm-lib/src/serializer/to_djs.rs
@@ -1,5 +1,11 @@
 use crate::{
-    js::{any::Any, js_array::JsArrayRef, js_object::JsObjectRef, type_::Type},
+    js::{
+        any::Any,
+        js_array::JsArrayRef,
+        js_bigint::{JsBigint, JsBigintRef, Sign},
+        js_object::JsObjectRef,
+        type_::Type,
+    },
     mem::manager::Dealloc,
 };
 
@@ -106,6 +112,34 @@ fn write_consts_and_any<D: Dealloc>(
     fmt::Result::Ok(())
 }
 
+/// Writes a big integer literal.
+fn write_bigint(write_json: &mut (impl WriteJson + ?Sized), value: &JsBigint) -> fmt::Result {
+    const CHUNK: u128 = 10_000_000_000_000_000_000;
+    // groups of 19 decimal digits, the lowest first
+    let mut chunks = Vec::new();
+    let mut digits = value.items().to_vec();
+    while !digits.is_empty() {
+        let mut reminder = 0;
+        for digit in digits.iter_mut().rev() {
+            let dividend = (reminder << 64) + *digit as u128;
+            *digit = (dividend / CHUNK) as u64;
+            reminder = dividend % CHUNK;
+        }
+        chunks.push(reminder as u64);
+        while let Some(&0) = digits.last() {
+            digits.pop();
+        }
+    }
+    if value.sign() == Sign::Negative {
+        write_json.write_char('-')?;
+    }
+    write_json.write_str(chunks.pop().unwrap_or(0).to_string().as_str())?;
+    for chunk in chunks.iter().rev() {
+        write_json.write_str(format!("{chunk:019}").as_str())?;
+    }
+    write_json.write_char('n')
+}
+
 /// Writes `any` using const references.
 fn write_with_const_refs<D: Dealloc>(
     write_json: &mut (impl WriteJson + ?Sized),
@@ -143,6 +177,7 @@ fn write_with_const_refs<D: Dealloc>(
                 )
             }
         }
+        Type::Bigint => write_bigint(write_json, &any.try_move::<JsBigintRef<D>>().unwrap()),
         _ => write_json.write_json(any),
     }
 }
diff --git a/nanvm-lib/src/serializer/to_json.rs b/nanvm-lib/src/serializer/to_json.rs
index 4f47f9c..ddc1d61 100644
--- a/nanvm-lib/src/serializer/to_json.rs
+++ b/nanvm-lib/src/serializer/to_json.rs
@@ -88,7 +88,8 @@ pub trait WriteJson: Write {
                 w.write_json(v.clone())
             }),
             Visitor::Array(a) => self.write_list('[', ']', a, |w, i| w.write_json(i.clone())),
-            Visitor::Bigint(_) => todo!(),
+            // there are no big integers in JSON
+            Visitor::Bigint(_) => Err(fmt::Error),
         }
     }
 }
-- 
2.43.0


From 69857f58fce300a43cbd3bddde298f03293588d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 25/30] fix: the conversion command reports its errors

---
 nanvm-lib/src/app/mod.rs | 8 +++++---
 nanvm/src/main.rs        | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/nanvm-lib/src/app/mod.rs b/nanvm-lib/src/app/mod.rs
index b574a57..37b4d13 100644
--- a/nanvm-lib/src/app/mod.rs
+++ b/nanvm-lib/src/app/mod.rs
@@ -13,9 +13,11 @@ use crate::{
 
 pub fn run(io: &impl Io) -> io::Result<()> {
     let mut a = io.args();
-    a.next().unwrap();
-    let input = a.next().unwrap();
-    let output = a.next().unwrap();
+    a.next();
+    let (input, output) = match (a.next(), a.next()) {
+        (Some(input), Some(output)) => (input, output),
+        _ => return Err(Error::other("input and output file names expected")),
+    };
 
     let mc = &mut default();
     let mut context = Context::new(GLOBAL, io, input, mc);
diff --git a/nanvm/src/main.rs b/nanvm/src/main.rs
index 3662f75..e9573ad 100644
--- a/nanvm/src/main.rs
+++ b/nanvm/src/main.rs
@@ -1,6 +1,6 @@
 use io_impl::RealIo;
 use nanvm_lib::app::run;
 
-fn main() {
-    let _ = run(&RealIo::default());
+fn main() -> std::io::Result<()> {
+    run(&RealIo::default())
 }
-- 
2.43.0


From 0ea5f56076c813bfb2482f5d1bffa45dbdcdc444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 26/30] Verification hook: run a generic user on an arena (cfg
 nanvm_verif)

---
 nanvm-lib/src/lib.rs       |  1 +
 nanvm-lib/src/mem/arena.rs | 13 +++++++++++++
 nanvm-lib/src/mem/mod.rs   |  3 +++
 3 files changed, 17 insertions(+)

diff --git a/nanvm-lib/src/lib.rs b/nanvm-lib/src/lib.rs
index 273f790..1cc9ca0 100644
--- a/nanvm-lib/src/lib.rs
+++ b/nanvm-lib/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 #![allow(clippy::assertions_on_constants)]
 #![allow(clippy::missing_safety_doc)]
 pub mod app;
diff --git a/nanvm-lib/src/mem/arena.rs b/nanvm-lib/src/mem/arena.rs
index f2554e4..c77d798 100644
--- a/nanvm-lib/src/mem/arena.rs
+++ b/nanvm-lib/src/mem/arena.rs
@@ -58,6 +58,19 @@ impl Manager for &Arena<'_> {
     }
 }
 
+/// What verification runs on an arena.
+#[cfg(nanvm_verif)]
+pub trait ArenaUser {
+    type Result;
+    fn run<M: Manager>(self, m: M) -> Self::Result;
+}
+
+/// Runs `u` on a new arena over `buffer`.
+#[cfg(nanvm_verif)]
+pub fn with_arena<U: ArenaUser>(buffer: &mut [u8], u: U) -> U::Result {
+    u.run(&Arena::new(buffer))
+}
+
 #[cfg(test)]
 mod test {
     use wasm_bindgen_test::wasm_bindgen_test;
diff --git a/nanvm-lib/src/mem/mod.rs b/nanvm-lib/src/mem/mod.rs
index 43636f2..a5079e0 100644
--- a/nanvm-lib/src/mem/mod.rs
+++ b/nanvm-lib/src/mem/mod.rs
@@ -15,6 +15,9 @@ pub mod optional_ref;
 pub mod ref_;
 mod ref_counter_update;
 
+#[cfg(nanvm_verif)]
+pub use arena::{with_arena, ArenaUser};
+
 #[cfg(test)]
 mod test {
     use std::mem::{align_of, size_of};
-- 
2.43.0


From c31bc4cd9ad4c579d1f4257f6eb298e6b36c5a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:31 +0000
Subject: [PATCH 27/30] fix: a module cache can be used again after its file,
 or a module that failed, is parsed

The entry file and modules that could not be read or parsed stayed in
ModuleCache::progress, so that importing them later, in another parse with
the same cache, was reported as a circular dependency.
---
 nanvm-lib/src/parser/parser.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index 7f0c45b..1c6a7ca 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -108,9 +108,9 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
                     let importer = replace(&mut context.path, current_path.clone());
                     let res = parse_with_tokens(context, tokens.into_iter());
                     context.path = importer;
+                    context.module_cache.progress.remove(&current_path);
                     match res {
                         Ok(r) => {
-                            context.module_cache.progress.remove(&current_path);
                             context
                                 .module_cache
                                 .complete
@@ -124,7 +124,10 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
                         Err(e) => AnyResult::Error(e),
                     }
                 }
-                Err(_) => AnyResult::<M>::Error(ParseError::CannotReadFile),
+                Err(_) => {
+                    context.module_cache.progress.remove(&current_path);
+                    AnyResult::<M>::Error(ParseError::CannotReadFile)
+                }
             }
         }
         _ => AnyResult::Error(ParseError::WrongRequireStatement),
@@ -184,9 +187,9 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                         let importer = replace(&mut context.path, current_path.clone());
                         let res = parse_with_tokens(context, tokens.into_iter());
                         context.path = importer;
+                        context.module_cache.progress.remove(&current_path);
                         match res {
                             Ok(r) => {
-                                context.module_cache.progress.remove(&current_path);
                                 context
                                     .module_cache
                                     .complete
@@ -201,7 +204,10 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                             Err(e) => JsonState::Error(e),
                         }
                     }
-                    Err(_) => JsonState::Error(ParseError::CannotReadFile),
+                    Err(_) => {
+                        context.module_cache.progress.remove(&current_path);
+                        JsonState::Error(ParseError::CannotReadFile)
+                    }
                 }
             }
             _ => panic!("JsonState::ParseRoot expected when root_state.parse returns import"),
@@ -233,18 +239,18 @@ pub fn parse<M: Manager + 'static, I: Io>(
     context: &mut Context<M, I>,
 ) -> Result<ParseResult<M::Dealloc>, ParseError> {
     // modules are known by their normalized paths
-    context
-        .module_cache
-        .progress
-        .insert(normalize(&context.path));
+    let current_path = normalize(&context.path);
+    context.module_cache.progress.insert(current_path.clone());
     let read_result = context.io.read_to_string(context.path.as_str());
-    match read_result {
+    let result = match read_result {
         Ok(s) => {
             let tokens = tokenize(context.manager, s);
             parse_with_tokens(context, tokens.into_iter())
         }
         Err(_) => Err(ParseError::CannotReadFile),
-    }
+    };
+    context.module_cache.progress.remove(&current_path);
+    result
 }
 
 pub fn parse_with_tokens<M: Manager + 'static, I: Io>(
-- 
2.43.0


From 3f69158152e7a7e305b31903c88a0b26ab3f9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 28/30] fix: a dynamic value, whose counter may be not atomic,
 cannot go to another thread

---
 nanvm-lib/src/js/any_internal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/any_internal.rs b/nanvm-lib/src/js/any_internal.rs
index 44b553d..fdb7ac3 100644
--- a/nanvm-lib/src/js/any_internal.rs
+++ b/nanvm-lib/src/js/any_internal.rs
@@ -20,7 +20,8 @@ use super::{
 
 #[repr(transparent)]
 #[derive(Debug)]
-pub struct AnyInternal<D: Dealloc = Global>(pub u64, PhantomData<D>);
+// The pointer keeps a value, like any other reference, in one thread: its counter may be not atomic.
+pub struct AnyInternal<D: Dealloc = Global>(pub u64, PhantomData<*const D>);
 
 impl<D: Dealloc> PartialEq for AnyInternal<D> {
     #[inline(always)]
-- 
2.43.0


From c478a57e814d727c08383e8bcbdbc8697250f7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:43 +0000
Subject: [PATCH 29/30] fix: a length whose block would not fit in memory is
 refused, not given a smaller block

---
 nanvm-lib/src/mem/field_layout.rs       | 7 ++++++-
 nanvm-lib/src/mem/flexible_array/mod.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/mem/field_layout.rs b/nanvm-lib/src/mem/field_layout.rs
index 91eb098..78411e5 100644
--- a/nanvm-lib/src/mem/field_layout.rs
+++ b/nanvm-lib/src/mem/field_layout.rs
@@ -42,7 +42,12 @@ impl<T, A> FieldLayout<T, A> {
     }
     #[inline(always)]
     pub const fn layout(&self, a_size: usize) -> Layout {
-        unsafe { Layout::from_size_align_unchecked(self.size + a_size, self.align) }
+        if let Some(size) = self.size.checked_add(a_size) {
+            if let Ok(layout) = Layout::from_size_align(size, self.align) {
+                return layout;
+            }
+        }
+        panic!("too large")
     }
 }
 
diff --git a/nanvm-lib/src/mem/flexible_array/mod.rs b/nanvm-lib/src/mem/flexible_array/mod.rs
index 8468d4c..abc2ad5 100644
--- a/nanvm-lib/src/mem/flexible_array/mod.rs
+++ b/nanvm-lib/src/mem/flexible_array/mod.rs
@@ -40,7 +40,12 @@ impl<I, T: FlexibleArrayHeader> FlexibleArray<I, T> {
     }
     #[inline(always)]
     pub const fn flexible_size(len: usize) -> usize {
-        Self::FLEXIBLE_HEADER_LAYOUT.size + len * size_of::<I>()
+        if let Some(items_size) = len.checked_mul(size_of::<I>()) {
+            if let Some(size) = Self::FLEXIBLE_HEADER_LAYOUT.size.checked_add(items_size) {
+                return size;
+            }
+        }
+        panic!("too many items")
     }
 }
 
-- 
2.43.0


From 8a0eebaaebeb5e32f847bf1673f7c902a6a8232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:47 +0000
Subject: [PATCH 30/30] fix: running out of memory is reported, the block is
 not written at address zero

---
 nanvm-lib/src/mem/global.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/mem/global.rs b/nanvm-lib/src/mem/global.rs
index 289a234..53fdff5 100644
--- a/nanvm-lib/src/mem/global.rs
+++ b/nanvm-lib/src/mem/global.rs
@@ -1,5 +1,5 @@
 use core::{alloc::Layout, cell::Cell};
-use std::alloc::{alloc, dealloc};
+use std::alloc::{alloc, dealloc, handle_alloc_error};
 
 use super::manager::{Dealloc, Manager};
 
@@ -20,7 +20,11 @@ impl Manager for Global {
     type Dealloc = Global;
     #[inline(always)]
     unsafe fn alloc(self, layout: Layout) -> *mut u8 {
-        alloc(layout)
+        let result = alloc(layout);
+        if result.is_null() {
+            handle_alloc_error(layout)
+        }
+        result
     }
 }
 
-- 
2.43.0

