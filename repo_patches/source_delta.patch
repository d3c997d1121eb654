From c1f68470e836e6556b7aea0d1beee78e93d2def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 1/3] fix: bound header property nesting so malicious replays
 cannot exhaust the stack

Struct and array properties recurse, and nothing limited how deep. A header
with a few thousand nested structs (34 bytes per level) overflowed the stack
and aborted the process. Nesting deeper than 64 levels is now reported as an
unexpected property.
---
 src/header.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index c92479f..817ec40 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -78,9 +78,21 @@ enum ParserMode {
     Quirks,
 }
 
+/// Structs and arrays nest property lists inside of a property. No known replay nests more than a
+/// couple levels deep, so bound the recursion to keep malicious input from exhausting the stack.
+const MAX_PROPERTY_DEPTH: usize = 64;
+
 fn parse_rdict(
     rlp: &mut CoreParser,
     mode: ParserMode,
+) -> Result<Vec<(String, HeaderProp)>, ParseError> {
+    parse_nested_rdict(rlp, mode, 0)
+}
+
+fn parse_nested_rdict(
+    rlp: &mut CoreParser,
+    mode: ParserMode,
+    depth: usize,
 ) -> Result<Vec<(String, HeaderProp)>, ParseError> {
     // The return type of this function is a key value vector because since there is no format
     // specification, we can't rule out duplicate keys.
@@ -121,7 +133,10 @@ fn parse_rdict(
                     .parse_text()
                     .map(|kind| HeaderProp::Byte { kind, value: None }),
             },
-            "ArrayProperty" => array_property(rlp, mode),
+            "ArrayProperty" | "StructProperty" if depth >= MAX_PROPERTY_DEPTH => {
+                Err(ParseError::UnexpectedProperty(String::from(kind)))
+            }
+            "ArrayProperty" => array_property(rlp, mode, depth + 1),
             "FloatProperty" => rlp
                 .take_bytes::<4>()
                 .map(f32::from_le_bytes)
@@ -138,7 +153,7 @@ fn parse_rdict(
             "StrProperty" => rlp.parse_text().map(HeaderProp::Str),
             "StructProperty" => {
                 let name = rlp.parse_str()?;
-                let fields = parse_rdict(rlp, mode)?;
+                let fields = parse_nested_rdict(rlp, mode, depth + 1)?;
                 Ok(HeaderProp::Struct {
                     name: String::from(name),
                     fields,
@@ -157,9 +172,13 @@ fn bool_prop(data: &[u8]) -> HeaderProp {
     HeaderProp::Bool(data[0] == 1)
 }
 
-fn array_property(rlp: &mut CoreParser, mode: ParserMode) -> Result<HeaderProp, ParseError> {
+fn array_property(
+    rlp: &mut CoreParser,
+    mode: ParserMode,
+    depth: usize,
+) -> Result<HeaderProp, ParseError> {
     let size = rlp.take_i32("array property size")?;
-    let arr = CoreParser::repeat(size as usize, || parse_rdict(rlp, mode))?;
+    let arr = CoreParser::repeat(size as usize, || parse_nested_rdict(rlp, mode, depth))?;
     Ok(HeaderProp::Array(arr))
 }
 
-- 
2.43.0


From 590be23ab8d5bc6408b3ce2afe6769f3b27821e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 2/3] fix: a rigid body that ends before its velocities is an
 error, not a body without them

`Some(decode(..))?` discards the failure of the inner decode, so truncated
network data produced a moving rigid body whose velocity is None.
---
 src/network/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/network/attributes.rs b/src/network/attributes.rs
index 8230eae..f5cd96f 100644
--- a/src/network/attributes.rs
+++ b/src/network/attributes.rs
@@ -1267,8 +1267,8 @@ impl AttributeDecoder {
         let mut angular_velocity = None;
 
         if !sleeping {
-            linear_velocity = Some(Vector3f::decode(bits, self.version.net_version()))?;
-            angular_velocity = Some(Vector3f::decode(bits, self.version.net_version()))?;
+            linear_velocity = Some(Vector3f::decode(bits, self.version.net_version())?);
+            angular_velocity = Some(Vector3f::decode(bits, self.version.net_version())?);
         }
 
         Some(RigidBody {
-- 
2.43.0


From 62d0b19c4cc9b0b6acf5bbce4ca591e653166f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:21 +0000
Subject: [PATCH 3/3] fix: offsets past 2 GiB overflowed the parser's position

With overflow checks on, a replay whose network data reaches past the
largest 32 bit offset made the parser panic. The position now stops at the
largest offset.
---
 src/core_parser.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core_parser.rs b/src/core_parser.rs
index d033734..e283607 100644
--- a/src/core_parser.rs
+++ b/src/core_parser.rs
@@ -18,6 +18,13 @@ impl<'a> CoreParser<'a> {
         self.col
     }
 
+    /// Offsets past what an `i32` can hold are reported as the largest one
+    fn advance(&mut self, size: usize) {
+        self.col = self
+            .col
+            .saturating_add(i32::try_from(size).unwrap_or(i32::MAX));
+    }
+
     /// Returns a slice of the replay after ensuring there is enough space for the requested slice
     pub fn view_data(&self, size: usize) -> Result<&'a [u8], ParseError> {
         self.data.get(..size).ok_or(ParseError::InsufficientData(
@@ -34,7 +41,7 @@ impl<'a> CoreParser<'a> {
                     N as i32,
                     self.data.len() as i32,
                 ))?;
-        self.col += N as i32;
+        self.advance(N);
         self.data = tail;
         Ok(*result)
     }
@@ -47,7 +54,7 @@ impl<'a> CoreParser<'a> {
                 size as i32,
                 self.data.len() as i32,
             ))?;
-        self.col += size as i32;
+        self.advance(size);
         self.data = tail;
         Ok(head)
     }
@@ -61,7 +68,7 @@ impl<'a> CoreParser<'a> {
                     N as i32,
                     self.data.len() as i32,
                 ))?;
-        self.col += N as i32;
+        self.advance(N);
         self.data = tail;
         Ok(*head)
     }
-- 
2.43.0

