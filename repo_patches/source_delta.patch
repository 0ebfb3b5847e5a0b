From 7f0bcf6759f2051e2b45f8f211e2d92dfe3da442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 1/7] fix: do not read a bracket inside a value as an array
 header

A line whose unquoted key is followed by a value containing '[n]:' was parsed
as an array header, so {"key": "foo[1]: bar"} did not survive a round trip.
---
 src/decode/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index 33af40a..a3843ba 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -50,7 +50,11 @@ pub fn parse_array_header_line(
             .find(OPEN_BRACKET)
             .map(|idx| key_end + idx)
     } else {
-        content.find(OPEN_BRACKET)
+        // An unquoted key ends at the first colon; a bracket after it is value text.
+        match (content.find(OPEN_BRACKET), content.find(COLON)) {
+            (Some(bracket), Some(colon)) if colon < bracket => None,
+            (bracket, _) => bracket,
+        }
     };
 
     let Some(bracket_start) = bracket_start else {
-- 
2.43.0


From 2823ad916cad797aed8d9f0556a3afdbc430aeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 2/7] fix: honour quoting when locating the end of an array
 header field list

A quoted field name containing '}' ended the field list early, so a tabular
array with such a key could be encoded but not decoded.
---
 src/decode/parser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index a3843ba..7228c17 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -76,9 +76,8 @@ pub fn parse_array_header_line(
 
     if let (Some(brace_start), Some(colon_after_bracket)) = (brace_start, colon_after_bracket)
         && brace_start < colon_after_bracket
-        && let Some(found_end) = content[brace_start..].find(CLOSE_BRACE)
+        && let Some(found_end) = find_unquoted_char(content, CLOSE_BRACE, brace_start)
     {
-        let found_end = brace_start + found_end;
         brace_end = found_end + 1;
     }
 
@@ -118,9 +117,8 @@ pub fn parse_array_header_line(
     let mut fields: Option<Vec<FieldName>> = None;
     if let Some(brace_start) = brace_start
         && brace_start < colon_index
-        && let Some(found_end) = content[brace_start..].find(CLOSE_BRACE)
+        && let Some(found_end) = find_unquoted_char(content, CLOSE_BRACE, brace_start)
     {
-        let found_end = brace_start + found_end;
         if found_end < colon_index {
             let fields_content = &content[brace_start + 1..found_end];
             let parsed_fields = parse_delimited_values(fields_content, delimiter)
-- 
2.43.0


From a68e911a8d06fb008d2fa22399a8eb4110015750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 3/7] fix: report write errors when output goes to a file

The BufWriter was dropped without a flush, which swallows errors: writing to a
full device printed the success message and exited 0.
---
 src/cli/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 2eaa758..dada348 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -172,6 +172,10 @@ fn write_lines(args: &Args, lines: &[String]) -> Result<()> {
         writer
             .write_all(b"\n")
             .map_err(|e| ToonError::file_write(path.clone(), e))?;
+        // Dropping a BufWriter discards write errors, so flush explicitly
+        writer
+            .flush()
+            .map_err(|e| ToonError::file_write(path.clone(), e))?;
     } else {
         let stdout = io::stdout();
         let mut handle = stdout.lock();
@@ -204,6 +208,10 @@ fn write_chunks(args: &Args, chunks: &[String]) -> Result<()> {
         writer
             .write_all(b"\n")
             .map_err(|e| ToonError::file_write(path.clone(), e))?;
+        // Dropping a BufWriter discards write errors, so flush explicitly
+        writer
+            .flush()
+            .map_err(|e| ToonError::file_write(path.clone(), e))?;
     } else {
         let stdout = io::stdout();
         let mut handle = stdout.lock();
-- 
2.43.0


From 9e29099c692daaf1849799ae5c0e3c64cad9641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:07 +0000
Subject: [PATCH 4/7] fix: reject an extra bare "-" list item in strict mode

---
 src/decode/validation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decode/validation.rs b/src/decode/validation.rs
index 30e0ffe..301c193 100644
--- a/src/decode/validation.rs
+++ b/src/decode/validation.rs
@@ -1,7 +1,7 @@
 use crate::decode::parser::ArrayHeaderInfo;
 use crate::decode::scanner::{BlankLineInfo, Depth, ParsedLine};
 use crate::error::{Result, ToonError};
-use crate::shared::constants::{COLON, LIST_ITEM_PREFIX};
+use crate::shared::constants::{COLON, LIST_ITEM_MARKER, LIST_ITEM_PREFIX};
 use crate::shared::string_utils::find_unquoted_char;
 
 /// Assert the expected count in strict mode.
@@ -37,7 +37,7 @@ pub fn validate_no_extra_list_items(
     if strict
         && let Some(line) = next_line
         && line.depth == item_depth
-        && line.content.starts_with(LIST_ITEM_PREFIX)
+        && (line.content.starts_with(LIST_ITEM_PREFIX) || line.content == LIST_ITEM_MARKER)
     {
         return Err(ToonError::message(format!(
             "Expected {expected_count} list array items, but found more"
-- 
2.43.0


From 28427a89a78bb9a1d438d5438bcc8e92392bcfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:35 +0000
Subject: [PATCH 5/7] fix: keep the first member of a list-item object among
 the siblings key folding checks

---
 src/encode/encoders.rs | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/encode/encoders.rs b/src/encode/encoders.rs
index 210720d..bc72a8a 100644
--- a/src/encode/encoders.rs
+++ b/src/encode/encoders.rs
@@ -366,11 +366,6 @@ fn encode_object_as_list_item_lines(
     }
 
     let first = obj[0].clone();
-    let rest = if obj.len() > 1 {
-        obj[1..].to_vec()
-    } else {
-        Vec::new()
-    };
     let (first_key, first_value) = first;
 
     if let JsonValue::Array(items) = &first_value
@@ -385,8 +380,8 @@ fn encode_object_as_list_item_lines(
         );
         out.push(indented_list_item(depth, &formatted, options.indent));
         write_tabular_rows_lines(items, &header, depth + 2, options, out);
-        if !rest.is_empty() {
-            encode_object_lines(&rest, depth + 1, options, None, None, None, out);
+        if obj.len() > 1 {
+            encode_list_item_rest_lines(obj, depth + 1, options, out);
         }
         return;
     }
@@ -445,8 +440,32 @@ fn encode_object_as_list_item_lines(
         }
     }
 
-    if !rest.is_empty() {
-        encode_object_lines(&rest, depth + 1, options, None, None, None, out);
+    if obj.len() > 1 {
+        encode_list_item_rest_lines(obj, depth + 1, options, out);
+    }
+}
+
+/// Writes the members after the first one of an object in a list item. The first member is
+/// already on the hyphen line, but it is still a sibling when key folding looks for collisions.
+fn encode_list_item_rest_lines(
+    obj: &JsonObject,
+    depth: usize,
+    options: &ResolvedEncodeOptions,
+    out: &mut Vec<String>,
+) {
+    let keys: Vec<&str> = obj.iter().map(|(key, _)| key.as_str()).collect();
+    for (key, val) in &obj[1..] {
+        encode_key_value_pair_lines(
+            key,
+            val,
+            depth,
+            options,
+            &keys,
+            None,
+            None,
+            options.flatten_depth,
+            out,
+        );
     }
 }
 
-- 
2.43.0


From e92e8069ad9d50d6caedc077404defef4ba6fad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:40 +0000
Subject: [PATCH 6/7] fix: refuse an object or array start without a key inside
 an object when streaming JSON

---
 src/cli/json_stream.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cli/json_stream.rs b/src/cli/json_stream.rs
index 59dadee..8fbe0f1 100644
--- a/src/cli/json_stream.rs
+++ b/src/cli/json_stream.rs
@@ -42,7 +42,13 @@ pub fn json_stream_from_events(
                                 out.push(" ".repeat(depth * indent));
                             }
                         }
-                        JsonContext::Object { .. } => {}
+                        JsonContext::Object { expect_value, .. } => {
+                            if !*expect_value {
+                                return Err(ToonError::message(
+                                    "Object start event in object without preceding key",
+                                ));
+                            }
+                        }
                     }
                 }
 
@@ -97,7 +103,13 @@ pub fn json_stream_from_events(
                                 out.push(" ".repeat(depth * indent));
                             }
                         }
-                        JsonContext::Object { .. } => {}
+                        JsonContext::Object { expect_value, .. } => {
+                            if !*expect_value {
+                                return Err(ToonError::message(
+                                    "Array start event in object without preceding key",
+                                ));
+                            }
+                        }
                     }
                 }
 
-- 
2.43.0


From 7399e51d1ea30ef0fa90b7d474366e65ca371d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:36 +0000
Subject: [PATCH 7/7] fix: make AsyncDecodeStream yield the events of the
 synchronous decoder

---
 src/decode/async_decode.rs | 239 ++++++++++---------------------------
 1 file changed, 61 insertions(+), 178 deletions(-)

diff --git a/src/decode/async_decode.rs b/src/decode/async_decode.rs
index 2d4241e..5e75bcd 100644
--- a/src/decode/async_decode.rs
+++ b/src/decode/async_decode.rs
@@ -25,11 +25,10 @@
 use crate::JsonStreamEvent;
 use crate::decode::decoders as decoder_impl;
 use crate::decode::parser::{
-    is_array_header_content, is_key_value_content, parse_array_header_line, parse_key_token,
-    parse_primitive_token,
+    is_key_value_content, parse_array_header_line, parse_key_token, parse_primitive_token,
 };
 use crate::decode::scanner::{
-    Depth, ParsedLine, StreamingScanState, create_scan_state, parse_line_incremental,
+    ParsedLine, StreamingScanState, create_scan_state, parse_line_incremental,
 };
 use crate::error::{Result, ToonError};
 use crate::options::DecodeStreamOptions;
@@ -46,17 +45,13 @@ enum DecoderState {
     /// Haven't seen any lines yet
     Initial,
     /// Processing simple key-value pairs (can emit incrementally)
-    SimpleObject { base_depth: Depth },
-    /// Saw an array header, need to process array specially
+    SimpleObject,
+    /// Saw an array or a nested object, the rest is decoded as a batch
     ArrayMode,
     /// Processing is complete
     Finished,
 }
 
-/// Context for tracking nested object structures.
-/// Arrays fall back to batch processing, so we only track object depth incrementally.
-type ObjectDepth = Depth;
-
 /// Async stream that yields `JsonStreamEvent` items from TOON input lines.
 ///
 /// This stream processes TOON input line-by-line, yielding events as they are
@@ -67,8 +62,7 @@ type ObjectDepth = Depth;
 ///
 /// The stream emits events incrementally when possible:
 /// - Simple flat objects emit Key + Primitive events as lines arrive
-/// - Nested objects push/pop context and emit events at structure boundaries
-/// - Arrays with headers require buffering until all items are processed
+/// - Nested objects and arrays require buffering until all lines are read
 pub struct AsyncDecodeStream<I: Iterator<Item = String>> {
     /// The underlying line iterator
     lines: I,
@@ -80,16 +74,14 @@ pub struct AsyncDecodeStream<I: Iterator<Item = String>> {
     event_queue: VecDeque<JsonStreamEvent>,
     /// Decoder state machine
     state: DecoderState,
-    /// Stack of object depths for tracking nested structures
-    context_stack: Vec<ObjectDepth>,
-    /// Buffer for lines that need batch processing (arrays)
-    line_buffer: Vec<ParsedLine>,
+    /// Lines read so far, for batch processing (nested objects and arrays)
+    line_buffer: Vec<String>,
+    /// Number of events queued so far
+    emitted: usize,
     /// Whether we've finished reading all lines
     lines_exhausted: bool,
     /// Error encountered during processing
     error: Option<ToonError>,
-    /// Last emitted depth for tracking structure boundaries
-    last_depth: Option<Depth>,
 }
 
 impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
@@ -102,11 +94,10 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             scan_state: create_scan_state(),
             event_queue: VecDeque::new(),
             state: DecoderState::Initial,
-            context_stack: Vec::new(),
             line_buffer: Vec::new(),
+            emitted: 0,
             lines_exhausted: false,
             error: None,
-            last_depth: None,
         }
     }
 
@@ -120,8 +111,17 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
         self.options.strict.unwrap_or(true)
     }
 
-    /// Process the next available event or line
+    /// Process the next available event or line; an error ends the stream
     fn process_next(&mut self) -> Result<Option<JsonStreamEvent>> {
+        let result = self.advance();
+        if result.is_err() {
+            self.event_queue.clear();
+            self.state = DecoderState::Finished;
+        }
+        result
+    }
+
+    fn advance(&mut self) -> Result<Option<JsonStreamEvent>> {
         // Return queued events first
         if let Some(event) = self.event_queue.pop_front() {
             return Ok(Some(event));
@@ -152,6 +152,7 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
         let indent_size = self.indent_size();
         let strict = self.strict();
         let parsed = parse_line_incremental(&raw_line, &mut self.scan_state, indent_size, strict)?;
+        self.line_buffer.push(raw_line);
 
         // Skip blank lines
         let Some(line) = parsed else {
@@ -160,126 +161,44 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
 
         // Process based on current state
         match self.state {
-            DecoderState::Initial => self.process_initial_line(line),
-            DecoderState::SimpleObject { base_depth } => {
-                self.process_simple_object_line(line, base_depth)
-            }
-            DecoderState::ArrayMode => {
-                // In array mode, buffer lines for batch processing
-                self.line_buffer.push(line);
-                Ok(None)
-            }
-            DecoderState::Finished => Ok(None),
+            DecoderState::Initial => self.process_line(&line, true),
+            DecoderState::SimpleObject => self.process_line(&line, false),
+            // The line is buffered for batch processing
+            DecoderState::ArrayMode | DecoderState::Finished => Ok(None),
         }
     }
 
-    /// Process the first line to determine document structure
-    fn process_initial_line(&mut self, line: ParsedLine) -> Result<Option<JsonStreamEvent>> {
-        // Check if it's an array header at root level
-        if is_array_header_content(&line.content)
-            && parse_array_header_line(&line.content, DEFAULT_DELIMITER)?.is_some()
-        {
-            // Array at root - need batch processing
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line);
-            return Ok(None);
-        }
-
-        // Check if it's a key-value line (object)
-        if Self::is_key_value_line(&line) {
-            let depth = line.depth;
-            self.state = DecoderState::SimpleObject { base_depth: 0 };
-            self.context_stack.push(0);
-            self.event_queue.push_back(JsonStreamEvent::StartObject);
-            self.process_key_value_line(&line)?;
-            self.last_depth = Some(depth);
-            return Ok(self.event_queue.pop_front());
-        }
-
-        // Single primitive value
-        self.state = DecoderState::Finished;
-        Ok(Some(JsonStreamEvent::Primitive {
-            value: parse_primitive_token(line.content.trim())?,
-        }))
-    }
+    /// Emit the events of a `key: value` line of the root object, or leave the line and all
+    /// that follow to batch processing
+    fn process_line(&mut self, line: &ParsedLine, first: bool) -> Result<Option<JsonStreamEvent>> {
+        let content = &line.content;
 
-    /// Process a line in simple object mode
-    fn process_simple_object_line(
-        &mut self,
-        line: ParsedLine,
-        base_depth: Depth,
-    ) -> Result<Option<JsonStreamEvent>> {
-        let current_depth = line.depth;
-
-        // Handle depth changes - emit EndObject for decreased depth
-        if let Some(last_depth) = self.last_depth
-            && current_depth < last_depth
+        if (first || line.depth == 0)
+            && Self::is_key_value_line(line)
+            && parse_array_header_line(content, DEFAULT_DELIMITER)?.is_none()
         {
-            // Pop contexts until we match the current depth
-            while let Some(&obj_depth) = self.context_stack.last() {
-                if obj_depth >= current_depth && obj_depth > base_depth {
-                    self.context_stack.pop();
-                    // Emit EndObject for closed nested object
-                    self.event_queue.push_back(JsonStreamEvent::EndObject);
-                } else {
-                    break;
+            let (key, end, is_quoted) = parse_key_token(content, 0)?;
+            let rest = content[end..].trim();
+
+            // Without an inline value nested content follows
+            if !rest.is_empty() {
+                let value = parse_primitive_token(rest)?;
+                if first {
+                    self.state = DecoderState::SimpleObject;
+                    self.event_queue.push_back(JsonStreamEvent::StartObject);
                 }
+                self.event_queue.push_back(JsonStreamEvent::Key {
+                    key,
+                    was_quoted: is_quoted,
+                });
+                self.event_queue.push_back(JsonStreamEvent::Primitive { value });
+                self.emitted += self.event_queue.len();
+                return Ok(self.event_queue.pop_front());
             }
         }
 
-        // Check if this line starts an array
-        if is_array_header_content(&line.content)
-            && parse_array_header_line(&line.content, DEFAULT_DELIMITER)?.is_some()
-        {
-            // Switch to array mode for batch processing
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line);
-            // Return any pending EndObject events first
-            return Ok(self.event_queue.pop_front());
-        }
-
-        // Process key-value line
-        self.process_key_value_line(&line)?;
-        self.last_depth = Some(current_depth);
-
-        Ok(self.event_queue.pop_front())
-    }
-
-    /// Process a key-value line and queue events
-    fn process_key_value_line(&mut self, line: &ParsedLine) -> Result<()> {
-        let content = &line.content;
-
-        // Handle list items specially
-        if content.starts_with(LIST_ITEM_PREFIX) {
-            // List items indicate we need batch processing for proper array handling
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line.clone());
-            return Ok(());
-        }
-
-        // Parse key-value
-        let (key, end, is_quoted) = parse_key_token(content, 0)?;
-        let rest = content[end..].trim();
-
-        if rest.is_empty() {
-            // Key without value - nested content follows
-            // We can't know yet if it's an array or object, so switch to batch mode
-            // This ensures correct Start{Array,Object} emission
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line.clone());
-            return Ok(());
-        }
-
-        // Key with inline value - can emit incrementally
-        self.event_queue.push_back(JsonStreamEvent::Key {
-            key,
-            was_quoted: is_quoted,
-        });
-        self.event_queue.push_back(JsonStreamEvent::Primitive {
-            value: parse_primitive_token(rest)?,
-        });
-
-        Ok(())
+        self.state = DecoderState::ArrayMode;
+        Ok(None)
     }
 
     /// Check if a line is a key-value line
@@ -305,58 +224,22 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
 
     /// Finalize decoding when all lines are read
     fn finalize(&mut self) -> Result<Option<JsonStreamEvent>> {
-        // If we have buffered lines (array mode), do batch processing
-        if !self.line_buffer.is_empty() || self.state == DecoderState::ArrayMode {
-            return self.batch_decode_remaining();
-        }
-
-        // Close any remaining open object contexts
-        while self.context_stack.pop().is_some() {
-            self.event_queue.push_back(JsonStreamEvent::EndObject);
-        }
-
-        // If we haven't emitted anything for an empty document
-        if self.state == DecoderState::Initial {
-            self.state = DecoderState::Finished;
-            self.event_queue.push_back(JsonStreamEvent::StartObject);
+        if self.state == DecoderState::SimpleObject {
             self.event_queue.push_back(JsonStreamEvent::EndObject);
         } else {
-            self.state = DecoderState::Finished;
+            // Decode the whole document; the events emitted so far are the first of it
+            let lines = std::mem::take(&mut self.line_buffer);
+            let mut events = decoder_impl::decode_stream_sync(
+                lines,
+                Some(DecodeStreamOptions {
+                    indent: self.options.indent,
+                    strict: self.options.strict,
+                }),
+            )?;
+            self.event_queue.extend(events.split_off(self.emitted));
         }
 
-        Ok(self.event_queue.pop_front())
-    }
-
-    /// Fall back to batch decoding for complex structures
-    fn batch_decode_remaining(&mut self) -> Result<Option<JsonStreamEvent>> {
-        // Collect all remaining lines (capture values before borrowing scan_state)
-        let indent_size = self.indent_size();
-        let strict = self.strict();
-        for raw_line in self.lines.by_ref() {
-            if let Some(line) =
-                parse_line_incremental(&raw_line, &mut self.scan_state, indent_size, strict)?
-            {
-                self.line_buffer.push(line);
-            }
-        }
-
-        // Use sync decoder on buffered lines
-        let raw_lines: Vec<String> = self.line_buffer.iter().map(|p| p.raw.clone()).collect();
-
-        let events = decoder_impl::decode_stream_sync(
-            raw_lines,
-            Some(DecodeStreamOptions {
-                indent: self.options.indent,
-                strict: self.options.strict,
-            }),
-        )?;
-
-        // Queue all events
-        self.event_queue.extend(events);
-        self.line_buffer.clear();
-        self.context_stack.clear();
         self.state = DecoderState::Finished;
-
         Ok(self.event_queue.pop_front())
     }
 }
-- 
2.43.0

