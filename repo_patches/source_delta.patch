From 87c6e88cc8fb31ef48f05c03c4f562df8f6aef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:50 +0000
Subject: [PATCH 1/9] fix: require every character of a FROM digest to be
 hexadecimal

The digest pattern was not anchored, so any 64-character string containing at
least one hex digit was accepted.
---
 src/instructions/from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/from.rs b/src/instructions/from.rs
index 8118bc5..8ae14af 100644
--- a/src/instructions/from.rs
+++ b/src/instructions/from.rs
@@ -73,7 +73,7 @@ impl FromInstruction {
   pub(crate) fn from_record(record: Pair, index: usize) -> Result<FromInstruction> {
     lazy_static! {
       static ref HEX: Regex =
-          Regex::new(r"[0-9a-fA-F]+").unwrap();
+          Regex::new(r"^[0-9a-fA-F]+$").unwrap();
     }
 
     let span = Span::from_pair(&record);
-- 
2.43.0


From aa9669dace63ae53ae7fdefd314fb11cf27ae09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:50 +0000
Subject: [PATCH 2/9] fix: allow comments after a line break following RUN, CMD
 and ENTRYPOINT

A comment line between the keyword and the operand was taken for the operand
and reported as an unexpected token.
---
 src/instructions/cmd.rs        | 4 +++-
 src/instructions/entrypoint.rs | 4 +++-
 src/instructions/run.rs        | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/instructions/cmd.rs b/src/instructions/cmd.rs
index 523a71c..59b0e42 100644
--- a/src/instructions/cmd.rs
+++ b/src/instructions/cmd.rs
@@ -23,7 +23,9 @@ pub struct CmdInstruction {
 impl CmdInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<CmdInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::cmd_exec => Ok(CmdInstruction {
diff --git a/src/instructions/entrypoint.rs b/src/instructions/entrypoint.rs
index 9d68fce..8d3f22d 100644
--- a/src/instructions/entrypoint.rs
+++ b/src/instructions/entrypoint.rs
@@ -23,7 +23,9 @@ pub struct EntrypointInstruction {
 impl EntrypointInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<EntrypointInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::entrypoint_exec => Ok(EntrypointInstruction {
diff --git a/src/instructions/run.rs b/src/instructions/run.rs
index 36a8991..3267514 100644
--- a/src/instructions/run.rs
+++ b/src/instructions/run.rs
@@ -23,7 +23,9 @@ pub struct RunInstruction {
 impl RunInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<RunInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::run_exec => Ok(RunInstruction {
-- 
2.43.0


From b9b632f16c9135c7925ed7b6d7bcd1a7bbd8d4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:50 +0000
Subject: [PATCH 3/9] fix: remove escaped CRLF line breaks from quoted LABEL
 strings

Only LF breaks were removed, so the same LABEL failed to parse with CRLF line
endings.
---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e5c66c1..4b5f1b8 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -46,11 +46,11 @@ pub(crate) fn parse_string(field: &Pair) -> Result<SpannedString> {
   })
 }
 
-/// Removes escaped line breaks (\\\n) from a string
+/// Removes escaped line breaks (\\\n or \\\r\n) from a string
 ///
 /// This should be used to clean any input from the any_breakable rule
 pub(crate) fn clean_escaped_breaks(s: &str) -> String {
-  s.replace("\\\n", "")
+  s.replace("\\\r\n", "").replace("\\\n", "")
 }
 
 /// A string that may be broken across many lines or an array of strings.
-- 
2.43.0


From 90032347784355a294b871056bc84845df1b7837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:50 +0000
Subject: [PATCH 4/9] fix: find global ARGs preceded by other instructions in
 get_global_arg

The search stopped at the first instruction that is not an ARG instead of at
the first FROM, and so missed entries of global_args.
---
 src/dockerfile_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dockerfile_parser.rs b/src/dockerfile_parser.rs
index 6387e39..06b42aa 100644
--- a/src/dockerfile_parser.rs
+++ b/src/dockerfile_parser.rs
@@ -408,7 +408,8 @@ impl Dockerfile {
             continue
           }
         },
-        _ => return None
+        Instruction::From(_) => return None,
+        _ => continue
       }
     }
 
-- 
2.43.0


From cdbcd2379806fb6a0fa028446a2e6da803c70ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:07 +0000
Subject: [PATCH 5/9] fix: only treat '#' as a comment at the start of a
 continued line

A '#' directly after the blanks following an instruction keyword (or the name
in ENV name value) was taken for a comment line, which dropped the text and
made the next line, e.g. a FROM, part of the instruction.
---
 src/dockerfile_parser.pest | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index 39da77e..8f7995a 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -68,14 +68,13 @@ any_content = @{
   )+
 }
 any_breakable = ${
-  (
-    // can be any comment string (no line continuation required)
-    comment_line ~ any_breakable?
-  ) | (
-    // ... OR some piece of content, requiring a continuation EXCEPT on the
-    // final line
-    any_content ~ (line_continuation ~ any_breakable)?
-  )
+  // some piece of content, requiring a continuation EXCEPT on the final line
+  any_content ~ (line_continuation ~ any_breakable_next)?
+}
+any_breakable_next = _{
+  // after a line continuation: any comment line (no further line continuation
+  // required) OR another piece of content
+  comment_line ~ any_breakable_next? | any_breakable
 }
 
 // consumes any character until the end of the line
-- 
2.43.0


From 27d08ef38ca4830b77961191175d0dc00ba99043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:07 +0000
Subject: [PATCH 6/9] fix: keep splices correct after a span was replaced by an
 empty string

Offsets were compared in the coordinates of the rewritten buffer, in which a
deleted span coincides with the one following it: splicing the deleted span
again corrupted later splices of the adjacent span or of the span itself.
---
 src/splicer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/splicer.rs b/src/splicer.rs
index 90182bb..f21f7bc 100644
--- a/src/splicer.rs
+++ b/src/splicer.rs
@@ -9,6 +9,7 @@ use crate::dockerfile_parser::Dockerfile;
 /// An offset used to adjust proceeding Spans after content has been spliced
 #[derive(Debug)]
 struct SpliceOffset {
+  /// The start of the spliced span in the original document
   position: usize,
   offset: isize
 }
@@ -39,10 +40,10 @@ impl Span {
     let mut end = self.end as isize;
 
     for splice in offsets {
-      if splice.position < start as usize {
+      if splice.position < self.start {
         start += splice.offset;
         end += splice.offset;
-      } else if splice.position < end as usize {
+      } else if splice.position < self.end {
         end += splice.offset;
       }
     }
@@ -161,6 +162,7 @@ impl Splicer {
   /// Span offsets are recalculated at call-time to account for previous calls
   /// to `splice(...)` that may have shifted one or both of the span bounds.
   pub fn splice(&mut self, span: &Span, replacement: &str) {
+    let position = span.start;
     let span = span.adjust_offsets(&self.splice_offsets);
 
     // determine the splice offset (only used on subsequent splices)
@@ -168,7 +170,7 @@ impl Splicer {
     let new_len = replacement.len();
     let offset = new_len as isize - prev_len as isize;
     self.splice_offsets.push(
-      SpliceOffset { position: span.start, offset }
+      SpliceOffset { position, offset }
     );
 
     // split and rebuild the content with the replacement instead
-- 
2.43.0


From 681ca3fe252c375bce70c0ad509f6940be202a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:29 +0000
Subject: [PATCH 7/9] fix: keep parser recursion independent of the number of
 continued lines

A long continued instruction overflowed the stack, or was rejected with a
syntax error, depending on the stack size of the calling thread.
---
 src/dockerfile_parser.pest | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index 8f7995a..7d7e257 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -68,13 +68,14 @@ any_content = @{
   )+
 }
 any_breakable = ${
-  // some piece of content, requiring a continuation EXCEPT on the final line
-  any_content ~ (line_continuation ~ any_breakable_next)?
-}
-any_breakable_next = _{
-  // after a line continuation: any comment line (no further line continuation
-  // required) OR another piece of content
-  comment_line ~ any_breakable_next? | any_breakable
+  // some piece of content, requiring a continuation EXCEPT on the final line;
+  // after a line continuation: any comment lines (no further line continuation
+  // required) and another piece of content, if there is any
+  // note: nested rules here would make the recursion depth of the parser depend
+  // on the number of lines
+  any_content ~
+  (line_continuation ~ comment_line* ~ any_content)* ~
+  (line_continuation ~ comment_line+)?
 }
 
 // consumes any character until the end of the line
-- 
2.43.0


From 4fc8a4f929f94e1fd91f40c7fcf292f2fa62f454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 8/9] fix: keep parser recursion independent of the number of
 escapes in a string

A quoted string with many escapes was rejected with a syntax error, depending
on the stack size of the calling thread.
---
 src/dockerfile_parser.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index 7d7e257..b5b91d0 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -37,12 +37,12 @@ comment_line = _{ ws* ~ comment ~ NEWLINE? }
 empty_line = _{ ws* ~ NEWLINE }
 
 double_quoted_string  = @{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
 single_quoted_string = @{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 
 string = ${ single_quoted_string | double_quoted_string }
 
-- 
2.43.0


From 1a03dddc5cef77c4433227d7e958993b1d410ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:42 +0000
Subject: [PATCH 9/9] fix: let a line continuation directly after a LABEL name
 end the name

---
 src/dockerfile_parser.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index b5b91d0..a1a9f7a 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -88,7 +88,7 @@ any_whitespace = _{ (!(NEWLINE | EOI | arg_ws) ~ ANY)+ }
 identifier_whitespace = _{ (!ws ~ (ASCII_ALPHANUMERIC | "_" | "-"))+ }
 
 // consumes until whitespace or = (for key in key=value pairs)
-any_equals = _{ (!(NEWLINE | ws | "=") ~ ANY)+ }
+any_equals = _{ (!(NEWLINE | arg_ws | "=") ~ ANY)+ }
 
 // parses ["foo", "bar", "baz"] with excessive escaping
 string_array = _{
-- 
2.43.0

