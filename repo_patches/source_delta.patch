From 095929652afe3e723271b4719a21b03d5ae860f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 01/86] fix: detect duplicate and reopened keys at the document
 root

Root keys were forgotten once another root key appeared, so 'a 1 / b 2 / a 3' was
accepted, as was redefining a prefix ('a.b 1 / a 2'). Root keys were also compared
by text, so '@t"x"' and '@t"y"' (or '@' and '"@"') were taken for duplicates.
---
 crates/styx-parse/src/parser/mod.rs | 61 +++++++++++++++++++----------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 7fd353a..5b0a436 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -493,8 +493,7 @@ impl<'src> Parser<'src> {
 
         if let ParserState::DocumentRoot { path_state, .. } = &mut self.state {
             // Check path state - this handles duplicates for us
-            let key_text = key_value.to_key_string();
-            let path = vec![key_text];
+            let path = vec![key_value];
             let value_kind = if atoms.len() >= 2 {
                 match &atoms[1].content {
                     AtomContent::Object { .. } | AtomContent::Attributes(_) => {
@@ -1040,7 +1039,10 @@ impl<'src> Parser<'src> {
             let first_key_value = KeyValue::Scalar(segments[0].to_string());
             seen_keys.entry(first_key_value).or_insert(path_span);
 
-            let path: Vec<String> = segments.iter().map(|s| s.to_string()).collect();
+            let path: Vec<KeyValue> = segments
+                .iter()
+                .map(|s| KeyValue::Scalar(s.to_string()))
+                .collect();
             let value_kind = if atoms.len() >= 2 {
                 match &atoms[1].content {
                     AtomContent::Object { .. } | AtomContent::Attributes(_) => {
@@ -1649,13 +1651,13 @@ enum PathError {
 /// - Which child keys have been "closed" (can't be reopened)
 #[derive(Debug, Clone)]
 struct PathSegment {
-    key: String,
+    key: KeyValue,
     span: Span,
     value_kind: PathValueKind,
     /// Keys that have been closed at this level. When we move from a.b.c to a.b.d,
     /// we add "c" to the closed_children of the "b" segment. This is O(siblings at this level)
     /// rather than O(all paths ever seen).
-    closed_children: HashMap<String, Span>,
+    closed_children: HashMap<KeyValue, Span>,
 }
 
 /// Path state tracker with O(depth) memory usage.
@@ -1669,12 +1671,14 @@ struct PathSegment {
 struct PathState {
     /// The current path, as a stack of segments. Length is O(max depth).
     segments: Vec<PathSegment>,
+    /// Root keys that have been closed (the root has no parent segment to hold them).
+    closed_roots: HashMap<KeyValue, Span>,
 }
 
 impl PathState {
     fn check_and_update(
         &mut self,
-        path: &[String],
+        path: &[KeyValue],
         span: Span,
         value_kind: PathValueKind,
     ) -> Result<(), PathError> {
@@ -1691,14 +1695,12 @@ impl PathState {
             .count();
 
         // Special case: if the entire path matches, check for duplicate
-        // This happens when we see `a 1` then `a 2` - the path ["a"] fully matches
-        if common_len == path.len()
-            && common_len == self.segments.len()
-            && !self.segments.is_empty()
-        {
-            // Exact same path - this is a duplicate
+        // This happens when we see `a 1` then `a 2` - the path ["a"] fully matches -
+        // and when we see `a.b 1` then `a 2` - "a" already has a value
+        if common_len == path.len() {
+            // Path already defined - this is a duplicate
             return Err(PathError::Duplicate {
-                original: self.segments.last().unwrap().span,
+                original: self.segments[common_len - 1].span,
             });
         }
 
@@ -1707,12 +1709,15 @@ impl PathState {
         while self.segments.len() > common_len {
             let closed_segment = self.segments.pop().unwrap();
 
-            // Add this key to parent's closed_children (if there is a parent)
-            if let Some(parent) = self.segments.last_mut() {
-                parent
+            // Add this key to parent's closed_children (or to the closed roots)
+            match self.segments.last_mut() {
+                Some(parent) => parent
                     .closed_children
-                    .insert(closed_segment.key, closed_segment.span);
-            }
+                    .insert(closed_segment.key, closed_segment.span),
+                None => self
+                    .closed_roots
+                    .insert(closed_segment.key, closed_segment.span),
+            };
         }
 
         // Now process each new segment of the path
@@ -1749,6 +1754,16 @@ impl PathState {
                     // Continue using existing segment
                     continue;
                 }
+                // Check if this root key was already closed by another root key
+                if let Some(&original) = self.closed_roots.get(key) {
+                    return Err(if is_last {
+                        PathError::Duplicate { original }
+                    } else {
+                        PathError::Reopened {
+                            closed_path: vec![key.to_key_string()],
+                        }
+                    });
+                }
                 // New root segment
                 self.segments.push(PathSegment {
                     key: key.clone(),
@@ -1763,7 +1778,11 @@ impl PathState {
                 // Check if parent is terminal (can't nest into it)
                 if parent.value_kind == PathValueKind::Terminal {
                     return Err(PathError::NestIntoTerminal {
-                        terminal_path: self.segments.iter().map(|s| s.key.clone()).collect(),
+                        terminal_path: self
+                            .segments
+                            .iter()
+                            .map(|s| s.key.to_key_string())
+                            .collect(),
                     });
                 }
 
@@ -1772,8 +1791,8 @@ impl PathState {
                     return Err(PathError::Reopened {
                         closed_path: self.segments[..i]
                             .iter()
-                            .map(|s| s.key.clone())
-                            .chain(std::iter::once(key.clone()))
+                            .map(|s| s.key.to_key_string())
+                            .chain(std::iter::once(key.to_key_string()))
                             .collect(),
                     });
                 }
-- 
2.43.0


From cd147e78d13cc638b013266867d16008cec596ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 02/86] fix: treat '{' as the explicit root only when it starts
 the document

After root content or a doc comment, '{' opened a second root object and the
event stream ended with two unbalanced objects and no error.
---
 crates/styx-parse/src/parser/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 5b0a436..16141fb 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -280,7 +280,15 @@ impl<'src> Parser<'src> {
                     });
                     return self.event_queue.pop_front();
                 }
-                Lexeme::ObjectStart { span } => {
+                Lexeme::ObjectStart { span }
+                    if !matches!(
+                        &self.state,
+                        ParserState::DocumentRoot {
+                            emitted_object_start: true,
+                            ..
+                        }
+                    ) =>
+                {
                     // Explicit root object - after it closes, document is done
                     self.state = ParserState::InObject {
                         start_span: span,
-- 
2.43.0


From ed3dd62ce527d8c3a0d41455b1dfd0cae34a6df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 03/86] fix: report duplicate keys in attribute syntax

'a b>1 b>2' built an object with two 'b' entries without any error.
---
 crates/styx-parse/src/parser/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 16141fb..8f2d238 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1449,7 +1449,18 @@ impl<'src> Parser<'src> {
                     kind: EventKind::ObjectStart,
                 });
 
+                let mut seen_keys: HashMap<&str, Span> = HashMap::new();
                 for attr in attrs {
+                    if let Some(&original) = seen_keys.get(attr.key) {
+                        self.event_queue.push_back(Event {
+                            span: attr.key_span,
+                            kind: EventKind::Error {
+                                kind: ParseErrorKind::DuplicateKey { original },
+                            },
+                        });
+                    } else {
+                        seen_keys.insert(attr.key, attr.key_span);
+                    }
                     self.event_queue.push_back(Event {
                         span: attr.key_span,
                         kind: EventKind::EntryStart,
-- 
2.43.0


From 0c475034c337d7a26a87aa5ddb008af2c51f8ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 04/86] fix: accept a heredoc as a tag payload

parser[tag.payload] lists '<<HEREDOC' as a payload; '@t<<EOF' was rejected as an
entry with too many atoms.
---
 crates/styx-parse/src/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/lexer.rs b/crates/styx-parse/src/lexer.rs
index ecc01e0..f5f9c66 100644
--- a/crates/styx-parse/src/lexer.rs
+++ b/crates/styx-parse/src/lexer.rs
@@ -192,7 +192,7 @@ impl<'src> Lexer<'src> {
                 let is_chained = name.contains("/@");
 
                 // Check if payload follows immediately (no whitespace)
-                // Payload can be: { ( " r#" @ or Tag
+                // Payload can be: { ( " r#" <<HEREDOC @ or Tag
                 let payload_tok = self.peek_token();
                 let is_adjacent = payload_tok.span.start == tok.span.end;
                 let is_valid_payload = matches!(
@@ -201,6 +201,7 @@ impl<'src> Lexer<'src> {
                         | TokenKind::LParen
                         | TokenKind::QuotedScalar
                         | TokenKind::RawScalar
+                        | TokenKind::HeredocStart
                         | TokenKind::At
                         | TokenKind::Tag
                 );
-- 
2.43.0


From 4aca0e8c6a70ec20576dc851e6a5a38cfb7a97e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 05/86] fix: count the hashes of a raw string without
 saturating

With more than 255 hashes the tokenizer closed the string early and the lexer
then sliced out of bounds and panicked.
---
 crates/styx-tokenizer/src/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/styx-tokenizer/src/tokenizer.rs b/crates/styx-tokenizer/src/tokenizer.rs
index 5f1cdac..9956468 100644
--- a/crates/styx-tokenizer/src/tokenizer.rs
+++ b/crates/styx-tokenizer/src/tokenizer.rs
@@ -533,9 +533,9 @@ impl<'src> Tokenizer<'src> {
         self.advance();
 
         // Count and consume `#` marks
-        let mut hash_count: u8 = 0;
+        let mut hash_count: usize = 0;
         while self.peek() == Some('#') {
-            hash_count = hash_count.saturating_add(1);
+            hash_count += 1;
             self.advance();
         }
 
@@ -556,7 +556,7 @@ impl<'src> Tokenizer<'src> {
                 }
                 Some('"') => {
                     // Check for closing sequence
-                    let mut matched_hashes = 0u8;
+                    let mut matched_hashes = 0usize;
                     let mut lookahead = 1;
                     while matched_hashes < hash_count {
                         if self.peek_nth(lookahead) == Some('#') {
-- 
2.43.0


From 38c6eb5744770565edc49acae130e4d6e6e8b833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 06/86] fix: reject heredoc keys in nested objects as at the
 root

---
 crates/styx-parse/src/parser/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 8f2d238..c035e15 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1378,6 +1378,18 @@ impl<'src> Parser<'src> {
                             },
                         });
                     }
+                    if let AtomContent::Scalar {
+                        kind: ScalarKind::Heredoc,
+                        ..
+                    } = &entry.key.content
+                    {
+                        self.event_queue.push_back(Event {
+                            span: self.heredoc_start_span(entry.key.span),
+                            kind: EventKind::Error {
+                                kind: ParseErrorKind::InvalidKey,
+                            },
+                        });
+                    }
                     self.event_queue.push_back(Event {
                         span: entry.key.span,
                         kind: EventKind::EntryStart,
-- 
2.43.0


From cf555f3abf5b967a6118b92860675b2d3e2a1e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:01 +0000
Subject: [PATCH 07/86] fix: report every invalid unicode escape

'\u{}', a code point that overflows u32 and a three-digit '\u123' produced neither
an error nor a character, and truncating the reported text could split a UTF-8
character and panic.
---
 crates/styx-parse/src/parser/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index c035e15..08ebe8c 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1992,25 +1992,26 @@ fn validate_escapes(text: &str) -> Vec<(usize, String)> {
                 Some((_, 'u')) => match chars.peek() {
                     Some((_, '{')) => {
                         chars.next();
-                        let mut valid = true;
+                        let mut hex = String::new();
                         let mut found_close = false;
                         for (_, c) in chars.by_ref() {
                             if c == '}' {
                                 found_close = true;
                                 break;
                             }
-                            if !c.is_ascii_hexdigit() {
-                                valid = false;
-                            }
+                            hex.push(c);
                         }
+                        let valid = hex.chars().all(|c| c.is_ascii_hexdigit())
+                            && u32::from_str_radix(&hex, 16)
+                                .is_ok_and(|n| char::from_u32(n).is_some());
                         if !found_close || !valid {
                             let end = chars.peek().map(|(i, _)| *i).unwrap_or(text.len());
-                            let seq = &text[escape_start..end.min(escape_start + 12)];
-                            errors.push((escape_start, seq.to_string()));
+                            let seq = text[escape_start..end].chars().take(12).collect();
+                            errors.push((escape_start, seq));
                         }
                     }
                     Some((_, c)) if c.is_ascii_hexdigit() => {
-                        let mut count = 1;
+                        let mut count = 0;
                         while count < 4 {
                             match chars.peek() {
                                 Some((_, c)) if c.is_ascii_hexdigit() => {
-- 
2.43.0


From 071afac71db0f62ce30da9775ddc5fe78eee6a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:08 +0000
Subject: [PATCH 08/86] fix: attach a doc comment after a value to the
 following entry

A doc comment on the same line as a value was emitted before that value's entry, so
it documented the wrong entry - from inside a nested object, even the enclosing one.
---
 crates/styx-parse/src/parser/mod.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 08ebe8c..0270863 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -630,7 +630,9 @@ impl<'src> Parser<'src> {
                 | Lexeme::Newline { .. }
                 | Lexeme::Comma { .. }
                 | Lexeme::ObjectEnd { .. }
-                | Lexeme::SeqEnd { .. } => {
+                | Lexeme::SeqEnd { .. }
+                // A doc comment attaches to the following entry, not to this one
+                | Lexeme::DocComment { .. } => {
                     self.source.stash(lexeme);
                     break;
                 }
@@ -641,18 +643,6 @@ impl<'src> Parser<'src> {
                     });
                     break;
                 }
-                Lexeme::DocComment { span, text } => {
-                    // Strip `/// ` or `///` prefix
-                    let line = text
-                        .strip_prefix("/// ")
-                        .or_else(|| text.strip_prefix("///"))
-                        .unwrap_or(text);
-                    self.event_queue.push_back(Event {
-                        span,
-                        kind: EventKind::DocComment { lines: vec![line] },
-                    });
-                    break;
-                }
                 Lexeme::ObjectStart { span } | Lexeme::SeqStart { span } => {
                     // Check for MissingWhitespaceBeforeBlock: bare scalar immediately
                     // followed by { or ( with no whitespace
-- 
2.43.0


From 3ff3febd64ec835fc2c5a082c611cd68bdd7efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:39 +0000
Subject: [PATCH 09/86] fix: check key paths in an explicit root object as at
 the implicit root

Dotted keys inside a root '{...}' were never checked: '{a.b 1, a.b 2}' and
'{a 1, a.b 2}' were accepted.
---
 crates/styx-parse/src/parser/mod.rs | 77 ++++++++++-------------------
 1 file changed, 26 insertions(+), 51 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 0270863..79bf226 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -60,7 +60,6 @@ enum ParserState {
 
     /// At implicit document root.
     DocumentRoot {
-        seen_keys: HashMap<KeyValue, Span>,
         pending_doc_comment: Option<Span>,
         path_state: PathState,
         /// Whether we've emitted ObjectStart for the implicit root object.
@@ -70,7 +69,7 @@ enum ParserState {
     /// Inside explicit object { ... }.
     InObject {
         start_span: Span,
-        seen_keys: HashMap<KeyValue, Span>,
+        path_state: PathState,
         pending_doc_comment: Option<Span>,
         /// Parent state to restore when we pop.
         parent: Box<ParserState>,
@@ -139,7 +138,6 @@ impl<'src> Parser<'src> {
         match &self.state {
             ParserState::BeforeDocument => {
                 self.state = ParserState::DocumentRoot {
-                    seen_keys: HashMap::new(),
                     pending_doc_comment: None,
                     path_state: PathState::default(),
                     emitted_object_start: false,
@@ -292,7 +290,7 @@ impl<'src> Parser<'src> {
                     // Explicit root object - after it closes, document is done
                     self.state = ParserState::InObject {
                         start_span: span,
-                        seen_keys: HashMap::new(),
+                        path_state: PathState::default(),
                         pending_doc_comment: None,
                         parent: Box::new(ParserState::AfterDocument),
                     };
@@ -491,7 +489,7 @@ impl<'src> Parser<'src> {
         } = &key_atom.content
             && value.contains('.')
         {
-            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms, true);
+            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms);
             return;
         }
 
@@ -502,16 +500,7 @@ impl<'src> Parser<'src> {
         if let ParserState::DocumentRoot { path_state, .. } = &mut self.state {
             // Check path state - this handles duplicates for us
             let path = vec![key_value];
-            let value_kind = if atoms.len() >= 2 {
-                match &atoms[1].content {
-                    AtomContent::Object { .. } | AtomContent::Attributes(_) => {
-                        PathValueKind::Object
-                    }
-                    _ => PathValueKind::Terminal,
-                }
-            } else {
-                PathValueKind::Terminal
-            };
+            let value_kind = PathValueKind::of_entry(atoms);
 
             if let Err(err) = path_state.check_and_update(&path, key_atom.span, value_kind) {
                 self.emit_path_error(err, key_atom.span);
@@ -521,7 +510,7 @@ impl<'src> Parser<'src> {
         self.emit_simple_entry(atoms);
     }
 
-    /// Emit entry inside an object (no path state).
+    /// Emit entry inside the explicit root object.
     fn emit_entry_in_object(&mut self, atoms: &[Atom<'src>]) {
         if atoms.is_empty() {
             return;
@@ -550,25 +539,18 @@ impl<'src> Parser<'src> {
         } = &key_atom.content
             && value.contains('.')
         {
-            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms, false);
+            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms);
             return;
         }
 
-        // Simple key - check for duplicates
+        // Simple key - check for duplicates, with the same rules as at the implicit root
         let key_value = KeyValue::from_atom(key_atom);
 
-        if let ParserState::InObject { seen_keys, .. } = &mut self.state {
-            if let Some(&original_span) = seen_keys.get(&key_value) {
-                self.event_queue.push_back(Event {
-                    span: key_atom.span,
-                    kind: EventKind::Error {
-                        kind: ParseErrorKind::DuplicateKey {
-                            original: original_span,
-                        },
-                    },
-                });
-            } else {
-                seen_keys.insert(key_value, key_atom.span);
+        if let ParserState::InObject { path_state, .. } = &mut self.state {
+            let path = vec![key_value];
+            let value_kind = PathValueKind::of_entry(atoms);
+            if let Err(err) = path_state.check_and_update(&path, key_atom.span, value_kind) {
+                self.emit_path_error(err, key_atom.span);
             }
         }
 
@@ -1004,7 +986,6 @@ impl<'src> Parser<'src> {
         path_text: Cow<'src, str>,
         path_span: Span,
         atoms: &[Atom<'src>],
-        check_path_state: bool,
     ) {
         let segments: Vec<&str> = path_text.split('.').collect();
 
@@ -1026,31 +1007,15 @@ impl<'src> Parser<'src> {
             return;
         }
 
-        // Check path state at root
-        if check_path_state
-            && let ParserState::DocumentRoot {
-                seen_keys,
-                path_state,
-                ..
-            } = &mut self.state
+        // Check path state at root (implicit or explicit)
+        if let ParserState::DocumentRoot { path_state, .. }
+        | ParserState::InObject { path_state, .. } = &mut self.state
         {
-            let first_key_value = KeyValue::Scalar(segments[0].to_string());
-            seen_keys.entry(first_key_value).or_insert(path_span);
-
             let path: Vec<KeyValue> = segments
                 .iter()
                 .map(|s| KeyValue::Scalar(s.to_string()))
                 .collect();
-            let value_kind = if atoms.len() >= 2 {
-                match &atoms[1].content {
-                    AtomContent::Object { .. } | AtomContent::Attributes(_) => {
-                        PathValueKind::Object
-                    }
-                    _ => PathValueKind::Terminal,
-                }
-            } else {
-                PathValueKind::Terminal
-            };
+            let value_kind = PathValueKind::of_entry(atoms);
 
             if let Err(err) = path_state.check_and_update(&path, path_span, value_kind) {
                 self.emit_path_error(err, path_span);
@@ -1657,6 +1622,16 @@ enum PathValueKind {
     Terminal,
 }
 
+impl PathValueKind {
+    /// The kind of the value of an entry made of these atoms.
+    fn of_entry(atoms: &[Atom<'_>]) -> Self {
+        match atoms.get(1).map(|value| &value.content) {
+            Some(AtomContent::Object { .. } | AtomContent::Attributes(_)) => Self::Object,
+            _ => Self::Terminal,
+        }
+    }
+}
+
 #[derive(Debug, Clone)]
 enum PathError {
     Duplicate { original: Span },
-- 
2.43.0


From 09b2a7ec04c062ed384b3e970c8b40a142bb1260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 10/86] fix: quote written scalars containing '>' and written
 keys containing '.'

'a>b' came out bare and was read back as an attribute object, and a key 'a.b' came
out bare and was read back as a dotted path.
---
 crates/styx-format/src/lib.rs    |  4 +++-
 crates/styx-format/src/scalar.rs | 14 +++++++++++---
 crates/styx-format/src/writer.rs |  6 +++---
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/styx-format/src/lib.rs b/crates/styx-format/src/lib.rs
index 6f0b349..af1f9c4 100644
--- a/crates/styx-format/src/lib.rs
+++ b/crates/styx-format/src/lib.rs
@@ -12,6 +12,8 @@ mod writer;
 
 pub use cst_format::{format_cst, format_source};
 pub use options::FormatOptions;
-pub use scalar::{can_be_bare, count_escapes, count_newlines, escape_quoted, unescape_quoted};
+pub use scalar::{
+    can_be_bare, can_be_bare_key, count_escapes, count_newlines, escape_quoted, unescape_quoted,
+};
 pub use value_format::{format_object_braced, format_value, format_value_default};
 pub use writer::StyxWriter;
diff --git a/crates/styx-format/src/scalar.rs b/crates/styx-format/src/scalar.rs
index 0fb0a1a..e4ccf5e 100644
--- a/crates/styx-format/src/scalar.rs
+++ b/crates/styx-format/src/scalar.rs
@@ -10,7 +10,7 @@ use std::borrow::Cow;
 /// A bare scalar is valid when:
 /// 1. It's not empty
 /// 2. It doesn't start with characters that look like other syntax (`//`, `r#`, `<<`)
-/// 3. It doesn't contain special characters: `{}(),"=@` or whitespace
+/// 3. It doesn't contain special characters: `{}(),"=@>` or whitespace
 pub fn can_be_bare(s: &str) -> bool {
     if s.is_empty() {
         return false;
@@ -20,8 +20,16 @@ pub fn can_be_bare(s: &str) -> bool {
         return false;
     }
     // Cannot contain special characters
-    !s.chars()
-        .any(|c| matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@') || c.is_whitespace())
+    !s.chars().any(|c| {
+        matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@' | '>') || c.is_whitespace()
+    })
+}
+
+/// Check if a string can be written as a bare key.
+///
+/// Like a bare scalar, but without `.`, which would make it a dotted path.
+pub fn can_be_bare_key(s: &str) -> bool {
+    can_be_bare(s) && !s.contains('.')
 }
 
 /// Count escape sequences needed for a quoted string.
diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 23cab09..ed3fd41 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -4,7 +4,7 @@
 //! independent of any serialization framework.
 
 use crate::options::{ForceStyle, FormatOptions};
-use crate::scalar::{can_be_bare, count_escapes, count_newlines, escape_quoted};
+use crate::scalar::{can_be_bare, can_be_bare_key, count_escapes, count_newlines, escape_quoted};
 
 /// Context for tracking serialization state.
 #[derive(Debug, Clone)]
@@ -356,7 +356,7 @@ impl StyxWriter {
         }
 
         // Write the key - keys are typically bare identifiers
-        if can_be_bare(key) {
+        if can_be_bare_key(key) {
             self.out.extend_from_slice(key.as_bytes());
         } else {
             self.write_quoted_string(key);
@@ -614,7 +614,7 @@ impl StyxWriter {
         }
 
         // Write the key
-        if can_be_bare(key) {
+        if can_be_bare_key(key) {
             self.out.extend_from_slice(key.as_bytes());
         } else {
             self.write_quoted_string(key);
-- 
2.43.0


From 20158b83d84c343f6664b0aae50513fdec0a2e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 11/86] fix: expand dotted keys in nested objects

parser[entry.path] applies to every entry, but a dotted key inside a nested object
was kept as one key, unlike at the root (and unlike the Go, JS and Python parsers).
---
 crates/styx-parse/src/parser/mod.rs | 120 ++++++++++++++++++++++------
 1 file changed, 94 insertions(+), 26 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 79bf226..c6887cc 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -798,8 +798,8 @@ impl<'src> Parser<'src> {
     /// Parse an object atom.
     fn parse_object_atom(&mut self, start_span: Span) -> Atom<'src> {
         let mut entries: Vec<ObjectEntry<'src>> = Vec::new();
-        let mut seen_keys: HashMap<KeyValue, Span> = HashMap::new();
-        let mut duplicate_key_spans: Vec<(Span, Span)> = Vec::new();
+        let mut path_state = PathState::default();
+        let mut key_errors: Vec<(ParseErrorKind, Span)> = Vec::new();
         let mut dangling_doc_comment_spans: Vec<Span> = Vec::new();
         let mut pending_doc_comments: Vec<(Span, &'src str)> = Vec::new();
         let mut unclosed = false;
@@ -851,12 +851,18 @@ impl<'src> Parser<'src> {
 
                     if !entry_atoms.is_empty() {
                         let key = entry_atoms[0].clone();
-                        let key_value = KeyValue::from_atom(&key);
-
-                        if let Some(&original_span) = seen_keys.get(&key_value) {
-                            duplicate_key_spans.push((original_span, key.span));
-                        } else {
-                            seen_keys.insert(key_value, key.span);
+                        let segments = dotted_segments(&key);
+                        let path = match &segments {
+                            Some(segments) => segments.iter().map(KeyValue::from_atom).collect(),
+                            None => vec![KeyValue::from_atom(&key)],
+                        };
+                        let value_kind = PathValueKind::of_entry(&entry_atoms);
+                        if path.contains(&KeyValue::Scalar(String::new())) && segments.is_some() {
+                            key_errors.push((ParseErrorKind::InvalidKey, key.span));
+                        } else if let Err(err) =
+                            path_state.check_and_update(&path, key.span, value_kind)
+                        {
+                            key_errors.push((err.into_kind(), key.span));
                         }
 
                         let (value, too_many_atoms_span) = if entry_atoms.len() == 1 {
@@ -873,6 +879,10 @@ impl<'src> Parser<'src> {
                             (entry_atoms[1].clone(), Some(entry_atoms[2].span))
                         };
 
+                        let (key, value) = match segments {
+                            Some(segments) => nest_dotted_entry(segments, key.span, value),
+                            None => (key, value),
+                        };
                         entries.push(ObjectEntry {
                             key,
                             value,
@@ -888,7 +898,7 @@ impl<'src> Parser<'src> {
             span: Span::new(start_span.start, end_span.end),
             content: AtomContent::Object {
                 entries,
-                duplicate_key_spans,
+                key_errors,
                 dangling_doc_comment_spans,
                 unclosed,
             },
@@ -1089,16 +1099,11 @@ impl<'src> Parser<'src> {
 
     /// Emit path error.
     fn emit_path_error(&mut self, err: PathError, span: Span) {
-        let kind = match err {
-            PathError::Duplicate { original } => ParseErrorKind::DuplicateKey { original },
-            PathError::Reopened { closed_path } => ParseErrorKind::ReopenedPath { closed_path },
-            PathError::NestIntoTerminal { terminal_path } => {
-                ParseErrorKind::NestIntoTerminal { terminal_path }
-            }
-        };
         self.event_queue.push_back(Event {
             span,
-            kind: EventKind::Error { kind },
+            kind: EventKind::Error {
+                kind: err.into_kind(),
+            },
         });
     }
 
@@ -1286,7 +1291,7 @@ impl<'src> Parser<'src> {
             }
             AtomContent::Object {
                 entries,
-                duplicate_key_spans,
+                key_errors,
                 dangling_doc_comment_spans,
                 unclosed,
             } => {
@@ -1304,14 +1309,10 @@ impl<'src> Parser<'src> {
                     });
                 }
 
-                for (original, dup) in duplicate_key_spans {
+                for (kind, span) in key_errors {
                     self.event_queue.push_back(Event {
-                        span: *dup,
-                        kind: EventKind::Error {
-                            kind: ParseErrorKind::DuplicateKey {
-                                original: *original,
-                            },
-                        },
+                        span: *span,
+                        kind: EventKind::Error { kind: kind.clone() },
                     });
                 }
 
@@ -1533,7 +1534,8 @@ enum AtomContent<'src> {
     },
     Object {
         entries: Vec<ObjectEntry<'src>>,
-        duplicate_key_spans: Vec<(Span, Span)>,
+        /// Duplicate, reopened and otherwise invalid keys.
+        key_errors: Vec<(ParseErrorKind, Span)>,
         dangling_doc_comment_spans: Vec<Span>,
         unclosed: bool,
     },
@@ -1639,6 +1641,18 @@ enum PathError {
     NestIntoTerminal { terminal_path: Vec<String> },
 }
 
+impl PathError {
+    fn into_kind(self) -> ParseErrorKind {
+        match self {
+            PathError::Duplicate { original } => ParseErrorKind::DuplicateKey { original },
+            PathError::Reopened { closed_path } => ParseErrorKind::ReopenedPath { closed_path },
+            PathError::NestIntoTerminal { terminal_path } => {
+                ParseErrorKind::NestIntoTerminal { terminal_path }
+            }
+        }
+    }
+}
+
 /// A single segment in the current path.
 ///
 /// Each segment tracks:
@@ -1816,6 +1830,60 @@ impl PathState {
 // Helpers
 // ============================================================================
 
+/// The segments of a dotted bare key, or None for any other key.
+fn dotted_segments<'src>(key: &Atom<'src>) -> Option<Vec<Atom<'src>>> {
+    let AtomContent::Scalar {
+        value,
+        kind: ScalarKind::Bare,
+    } = &key.content
+    else {
+        return None;
+    };
+    if !value.contains('.') {
+        return None;
+    }
+    let mut start = key.span.start;
+    let mut segments = Vec::new();
+    for segment in value.split('.') {
+        let span = Span::new(start, start + segment.len() as u32);
+        start = span.end + 1;
+        segments.push(Atom {
+            span,
+            content: AtomContent::Scalar {
+                value: Cow::Owned(segment.to_string()),
+                kind: ScalarKind::Bare,
+            },
+        });
+    }
+    Some(segments)
+}
+
+/// Turn `a.b.c value` into the key `a` and the value `{b {c value}}`.
+fn nest_dotted_entry<'src>(
+    mut segments: Vec<Atom<'src>>,
+    path_span: Span,
+    mut value: Atom<'src>,
+) -> (Atom<'src>, Atom<'src>) {
+    let first = segments.remove(0);
+    for key in segments.into_iter().rev() {
+        value = Atom {
+            span: Span::new(key.span.start, path_span.end),
+            content: AtomContent::Object {
+                entries: vec![ObjectEntry {
+                    key,
+                    value,
+                    doc_comment: None,
+                    too_many_atoms_span: None,
+                }],
+                key_errors: Vec::new(),
+                dangling_doc_comment_spans: Vec::new(),
+                unclosed: false,
+            },
+        };
+    }
+    (first, value)
+}
+
 fn split_chained_tag_name(name: &str, start: u32) -> Vec<(&str, Span)> {
     let mut segments = Vec::new();
     let mut tag_start = start;
-- 
2.43.0


From 977368256eed208de520c9fc50cac96269580442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:02 +0000
Subject: [PATCH 12/86] fix: read '@err"text"' as the tag 'err'

A tag name was cut before any 'r"', so a quoted payload after a name ending in 'r'
(the documented '@outer/@inner"payload"') was read as a shorter name with a raw
payload. Raw payloads need a '#', which the writer now always emits after a tag.
---
 crates/styx-format/src/writer.rs       | 12 +++++++-----
 crates/styx-tokenizer/src/tokenizer.rs |  5 +++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index ed3fd41..1c36bff 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -892,7 +892,7 @@ impl StyxWriter {
 
         // Rule 2: Use raw strings for complex escaping (> 3 escapes)
         if escape_count > 3 && !s.contains("\"#") {
-            self.write_raw_string(s);
+            self.write_raw_string(s, force_quote);
             return;
         }
 
@@ -909,13 +909,15 @@ impl StyxWriter {
     }
 
     /// Write a raw string (r#"..."#).
-    fn write_raw_string(&mut self, s: &str) {
+    ///
+    /// After a tag at least one `#` is needed: in `@tagr"..."` the `r` is part of the name.
+    fn write_raw_string(&mut self, s: &str, after_tag: bool) {
         // Find the minimum number of # needed
-        let mut hashes = 0;
-        let mut check = String::from("\"");
+        let mut hashes = usize::from(after_tag);
+        let mut check = format!("\"{}", "#".repeat(hashes));
         while s.contains(&check) {
             hashes += 1;
-            check = format!("\"{}#", "#".repeat(hashes - 1));
+            check = format!("\"{}", "#".repeat(hashes));
         }
 
         self.out.push(b'r');
diff --git a/crates/styx-tokenizer/src/tokenizer.rs b/crates/styx-tokenizer/src/tokenizer.rs
index 9956468..bed77bd 100644
--- a/crates/styx-tokenizer/src/tokenizer.rs
+++ b/crates/styx-tokenizer/src/tokenizer.rs
@@ -252,10 +252,11 @@ impl<'src> Tokenizer<'src> {
     /// Consume one tag name segment after the leading `@`.
     fn consume_tag_segment(&mut self) {
         // Tag name: consume [A-Za-z0-9_-]*
-        // But stop before `r#` or `r"` which starts a raw string payload.
+        // But stop before `r#` which starts a raw string payload. A bare `r"` does not:
+        // in `@err"text"` the `r` belongs to the name.
         self.advance();
         while let Some(c) = self.peek() {
-            if c == 'r' && matches!(self.peek_nth(1), Some('#' | '"')) {
+            if c == 'r' && self.peek_nth(1) == Some('#') {
                 break;
             }
             if c.is_ascii_alphanumeric() || c == '_' || c == '-' {
-- 
2.43.0


From a957ad24face9cbdd9c03b40393e06f04204c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 13/86] fix: write a heredoc only where it reads back as the
 same string

A heredoc always ends with a newline and its closing delimiter must end the line, so
one written for text without a trailing newline, inside a sequence or before a comma
changed the text or did not parse.
---
 crates/styx-format/src/writer.rs | 38 +++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 1c36bff..f6ceb49 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -885,7 +885,10 @@ impl StyxWriter {
         let escape_count = count_escapes(s);
 
         // Rule 3: Use heredocs for multi-line text
-        if newline_count >= self.options.heredoc_line_threshold {
+        if newline_count >= self.options.heredoc_line_threshold
+            && self.ends_line_after_value()
+            && can_be_heredoc(s)
+        {
             self.write_heredoc(s);
             return;
         }
@@ -932,14 +935,24 @@ impl StyxWriter {
         }
     }
 
+    /// Whether the value being written is followed by a newline, as a closing heredoc
+    /// delimiter must be.
+    fn ends_line_after_value(&self) -> bool {
+        match self.stack.last() {
+            None => true,
+            Some(Context::Struct {
+                is_root,
+                force_multiline,
+                ..
+            }) => *is_root || *force_multiline,
+            Some(Context::Seq { .. }) => false,
+        }
+    }
+
     /// Write a heredoc string.
     fn write_heredoc(&mut self, s: &str) {
         // Find a delimiter that doesn't appear in the string
-        let delimiters = ["TEXT", "END", "HEREDOC", "DOC", "STR", "CONTENT"];
-        let delimiter = delimiters
-            .iter()
-            .find(|d| !s.contains(*d))
-            .unwrap_or(&"TEXT");
+        let delimiter = heredoc_delimiter(s).unwrap_or("TEXT");
 
         self.out.extend_from_slice(b"<<");
         self.out.extend_from_slice(delimiter.as_bytes());
@@ -952,6 +965,19 @@ impl StyxWriter {
     }
 }
 
+/// A heredoc delimiter that doesn't appear in the string.
+fn heredoc_delimiter(s: &str) -> Option<&'static str> {
+    ["TEXT", "END", "HEREDOC", "DOC", "STR", "CONTENT"]
+        .into_iter()
+        .find(|d| !s.contains(d))
+}
+
+/// Whether a heredoc can hold exactly this string: heredoc content always ends with a
+/// newline, and has no escapes.
+fn can_be_heredoc(s: &str) -> bool {
+    s.ends_with('\n') && !s.contains('\r') && heredoc_delimiter(s).is_some()
+}
+
 impl Default for StyxWriter {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 9a86ecd8160713977866ad9b72c464180239df03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 14/86] fix: separate units and payload-less tags when
 formatting a sequence, quote tagged keys

'(a @)' was written '(a@)' and '(@a @b)' '(@a@b)', and a key '@t"x"' was written
'@tx': all three read back as something else.
---
 crates/styx-format/src/value_format.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/styx-format/src/value_format.rs b/crates/styx-format/src/value_format.rs
index f4240ae..99135ed 100644
--- a/crates/styx-format/src/value_format.rs
+++ b/crates/styx-format/src/value_format.rs
@@ -79,9 +79,10 @@ impl ValueFormatter {
             None => {
                 // No payload - if no tag either, this is unit (@)
                 if !has_tag {
-                    self.writer.write_str("@");
+                    self.writer.write_null();
                 }
                 // If there's a tag but no payload, tag was already written
+                self.writer.clear_skip_before_value();
             }
             Some(Payload::Scalar(s)) => {
                 // If tagged, wrap scalar in parens: @tag(scalar)
@@ -187,7 +188,8 @@ impl ValueFormatter {
             }
             Some(Payload::Scalar(s)) => {
                 // Always check if the text can be bare, regardless of original ScalarKind
-                if crate::scalar::can_be_bare(&s.text) {
+                // (a tag's payload never can, nor can a dotted key)
+                if key.tag.is_none() && crate::scalar::can_be_bare_key(&s.text) {
                     result.push_str(&s.text);
                 } else {
                     result.push('"');
-- 
2.43.0


From a74f4a876e3d0c0a93a923895d64f154a4366b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 15/86] fix: do not look for escapes in the unescaped payload
 of a tagged key

'@t"a\\b" 1' was rejected because the already unescaped text contains a backslash.
---
 crates/styx-parse/src/parser/mod.rs | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index c6887cc..1856d4c 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1166,9 +1166,6 @@ impl<'src> Parser<'src> {
                     }
                     Some(inner) => match &inner.content {
                         AtomContent::Scalar { value, kind } => {
-                            if *kind == ScalarKind::Quoted {
-                                self.emit_escape_errors(value, inner.span);
-                            }
                             self.event_queue.push_back(Event {
                                 span: atom.span,
                                 kind: EventKind::Key {
@@ -1491,20 +1488,6 @@ impl<'src> Parser<'src> {
             }
         }
     }
-
-    /// Emit escape errors.
-    fn emit_escape_errors(&mut self, text: &str, span: Span) {
-        for (offset, seq) in validate_escapes(text) {
-            let error_start = span.start + offset as u32;
-            let error_span = Span::new(error_start, error_start + seq.len() as u32);
-            self.event_queue.push_back(Event {
-                span: error_span,
-                kind: EventKind::Error {
-                    kind: ParseErrorKind::InvalidEscape(seq),
-                },
-            });
-        }
-    }
 }
 
 // ============================================================================
-- 
2.43.0


From 7f7af6e177f8c7025cd57a15109fc2512e26be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:08 +0000
Subject: [PATCH 16/86] fix: leave a document with syntax errors alone when
 formatting

---
 crates/styx-format/src/cst_format.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index 541307a..f3fc6e0 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -24,13 +24,33 @@ pub fn format_cst(node: &SyntaxNode, options: FormatOptions) -> String {
 /// Returns the original source if parsing fails.
 pub fn format_source(source: &str, options: FormatOptions) -> String {
     let parsed = styx_cst::parse(source);
-    if !parsed.is_ok() {
+    if !parsed.is_ok() || has_malformed_tokens(source) {
         // Don't format documents with parse errors
         return source.to_string();
     }
     format_cst(&parsed.syntax(), options)
 }
 
+/// Whether the event parser rejects part of the text that the more lenient CST
+/// parser takes apart differently (`@9`, `@a.b`, ...). Spacing is significant
+/// there, so reformatting would change the document. Complaints about the
+/// entries themselves (duplicate keys and the like) don't prevent formatting.
+fn has_malformed_tokens(source: &str) -> bool {
+    use styx_parse::{EventKind, ParseErrorKind as Kind};
+
+    let mut parser = styx_parse::Parser::new(source);
+    std::iter::from_fn(|| parser.next_event()).any(|event| match event.kind {
+        EventKind::Error { kind } => !matches!(
+            kind,
+            Kind::DuplicateKey { .. }
+                | Kind::ReopenedPath { .. }
+                | Kind::NestIntoTerminal { .. }
+                | Kind::TooManyAtoms
+        ),
+        _ => false,
+    })
+}
+
 struct CstFormatter {
     out: String,
     options: FormatOptions,
-- 
2.43.0


From d4c7d28137c665528157880f53ed8ae6fcb23053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:08 +0000
Subject: [PATCH 17/86] fix: keep entries made of attributes only when
 formatting

---
 crates/styx-format/src/cst_format.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index f3fc6e0..421f258 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -275,6 +275,13 @@ impl CstFormatter {
             self.format_node(key.syntax());
         }
 
+        // An entry can consist of attributes only
+        for attributes in node.children() {
+            if attributes.kind() == SyntaxKind::ATTRIBUTES {
+                self.format_attributes(&attributes);
+            }
+        }
+
         // Space between key and value
         if entry.value().is_some() {
             self.write(" ");
-- 
2.43.0


From 679a56a6415ce53900216c16c349c013e3a75a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:09 +0000
Subject: [PATCH 18/86] fix: write no blank line for a stray comma when
 formatting

---
 crates/styx-format/src/cst_format.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index 421f258..6ef199d 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -153,7 +153,10 @@ impl CstFormatter {
 
     fn format_document(&mut self, node: &SyntaxNode) {
         let doc = Document::cast(node.clone()).unwrap();
-        let entries: Vec<_> = doc.entries().collect();
+        let entries: Vec<_> = doc
+            .entries()
+            .filter(|e| !is_empty_entry(e.syntax()))
+            .collect();
 
         // Track consecutive newlines to preserve blank lines from input
         let mut consecutive_newlines = 0;
@@ -222,7 +225,7 @@ impl CstFormatter {
                     }
                 }
                 SyntaxKind::ENTRY => {
-                    if let Some(entry_node) = el.into_node() {
+                    if let Some(entry_node) = el.into_node().filter(|n| !is_empty_entry(n)) {
                         let entry = &entries[entry_index];
 
                         if wrote_content {
@@ -294,7 +297,10 @@ impl CstFormatter {
 
     fn format_object(&mut self, node: &SyntaxNode) {
         let obj = Object::cast(node.clone()).unwrap();
-        let entries: Vec<_> = obj.entries().collect();
+        let entries: Vec<_> = obj
+            .entries()
+            .filter(|e| !is_empty_entry(e.syntax()))
+            .collect();
         let separator = obj.separator();
 
         self.write("{");
@@ -351,7 +357,7 @@ impl CstFormatter {
                         }
                     }
                     SyntaxKind::ENTRY => {
-                        if let Some(entry_node) = el.into_node() {
+                        if let Some(entry_node) = el.into_node().filter(|n| !is_empty_entry(n)) {
                             if wrote_content {
                                 self.write_newline();
                                 // 2+ consecutive newlines means there was a blank line
@@ -627,6 +633,11 @@ impl CstFormatter {
     }
 }
 
+/// Check if an entry holds no text: what the CST has before a stray comma.
+fn is_empty_entry(node: &SyntaxNode) -> bool {
+    node.text_range().is_empty()
+}
+
 /// Check if an entry is a "block" entry (contains a multiline object at top level).
 /// Block entries need blank lines around them per issue #28.
 fn is_block_entry(entry: &Entry) -> bool {
-- 
2.43.0


From aba6160ba73f811dafac40f6b028f63120f2bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:57 +0000
Subject: [PATCH 19/86] fix: keep the line end after a heredoc in a
 single-element sequence when formatting

---
 crates/styx-format/src/cst_format.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index 6ef199d..e960d91 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -417,8 +417,11 @@ impl CstFormatter {
 
         // Determine if we need multiline format
         // But collapse trivial sequences: single simple element should be inline
-        let should_collapse =
-            !has_comments && entries.len() == 1 && !contains_block_object(entries[0].syntax());
+        // (but not one that ends in a heredoc: its closing delimiter needs its own line)
+        let should_collapse = !has_comments
+            && entries.len() == 1
+            && !contains_block_object(entries[0].syntax())
+            && !ends_with_heredoc(entries[0].syntax());
 
         // Special case: single entry that is a tag with block payload - format inline with paren
         // e.g., @optional(@object{...}) should format as (@object{\n...\n}) not (\n@object{...}\n)
@@ -674,6 +677,12 @@ fn is_tag_with_block_payload(entry_node: &SyntaxNode) -> bool {
     false
 }
 
+/// Check if the last token of a node closes a heredoc.
+fn ends_with_heredoc(node: &SyntaxNode) -> bool {
+    node.last_token()
+        .is_some_and(|token| token.kind() == SyntaxKind::HEREDOC_END)
+}
+
 /// Recursively check if a node contains a block-style object or doc comments.
 /// Objects with doc comments also need to be block-formatted.
 fn contains_block_object(node: &SyntaxNode) -> bool {
-- 
2.43.0


From f2ca0d33520c8c273ed7223d2bd52aa57d76d5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:57 +0000
Subject: [PATCH 20/86] fix: lay out a container around an empty object the
 same way every time

---
 crates/styx-format/src/cst_format.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index e960d91..2cd1092 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -691,7 +691,14 @@ fn contains_block_object(node: &SyntaxNode) -> bool {
         && let Some(obj) = Object::cast(node.clone())
     {
         let sep = obj.separator();
-        if matches!(sep, Separator::Newline | Separator::Mixed) {
+        // (an empty one is written as `{}` wherever its braces were)
+        let is_empty = !node.children_with_tokens().any(|el| {
+            matches!(
+                el.kind(),
+                SyntaxKind::ENTRY | SyntaxKind::LINE_COMMENT | SyntaxKind::DOC_COMMENT
+            )
+        });
+        if matches!(sep, Separator::Newline | Separator::Mixed) && !is_empty {
             return true;
         }
         // Also check if the object contains doc comments
-- 
2.43.0


From c5460792996420df38bb57654accbef6b1f78352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:41 +0000
Subject: [PATCH 21/86] fix: keep the blank line after a documented entry when
 formatting

---
 crates/styx-format/src/cst_format.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index 2cd1092..fe9f402 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -164,6 +164,8 @@ impl CstFormatter {
         let mut wrote_content = false;
         // Track if we just wrote a doc comment (entry should follow without blank line)
         let mut just_wrote_doc_comment = false;
+        // Track if the last entry had doc comments
+        let mut prev_had_doc = false;
 
         for el in node.children_with_tokens() {
             match el.kind() {
@@ -204,8 +206,6 @@ impl CstFormatter {
                                 let had_blank_line = consecutive_newlines >= 2;
                                 let prev_was_schema =
                                     entry_index == 1 && is_schema_declaration(&entries[0]);
-                                let prev_had_doc = entry_index > 0
-                                    && entries[entry_index - 1].doc_comments().next().is_some();
                                 let prev_is_block =
                                     entry_index > 0 && is_block_entry(&entries[entry_index - 1]);
 
@@ -240,8 +240,6 @@ impl CstFormatter {
                                 let had_blank_line = consecutive_newlines >= 2;
                                 let prev_was_schema =
                                     entry_index == 1 && is_schema_declaration(&entries[0]);
-                                let prev_had_doc = entry_index > 0
-                                    && entries[entry_index - 1].doc_comments().next().is_some();
                                 let prev_is_block =
                                     entry_index > 0 && is_block_entry(&entries[entry_index - 1]);
                                 let current_is_block = is_block_entry(entry);
@@ -261,6 +259,7 @@ impl CstFormatter {
                         wrote_content = true;
                         consecutive_newlines = 0;
                         entry_index += 1;
+                        prev_had_doc = just_wrote_doc_comment;
                         just_wrote_doc_comment = false;
                     }
                 }
-- 
2.43.0


From a72cfc19d941aafbcf3b959f33b110b64d24a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:56 +0000
Subject: [PATCH 22/86] fix: write every line of a doc comment, empty ones too

---
 crates/styx-format/src/writer.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index f6ceb49..95a0feb 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -598,12 +598,15 @@ impl StyxWriter {
         // For non-first fields, or non-root structs, add newline before doc
         let need_leading_newline = !is_first || !is_root;
 
-        for (i, line) in doc.lines().enumerate() {
+        for (i, line) in doc.split('\n').enumerate() {
             if i > 0 || need_leading_newline {
                 self.write_newline_indent();
             }
-            self.out.extend_from_slice(b"/// ");
-            self.out.extend_from_slice(line.as_bytes());
+            self.out.extend_from_slice(b"///");
+            if !line.is_empty() {
+                self.out.push(b' ');
+                self.out.extend_from_slice(line.as_bytes());
+            }
         }
 
         // Newline before the key (but no indent for root first field)
@@ -658,12 +661,15 @@ impl StyxWriter {
         // For non-first fields, or non-root structs, add newline before doc
         let need_leading_newline = !is_first || !is_root;
 
-        for (i, line) in doc.lines().enumerate() {
+        for (i, line) in doc.split('\n').enumerate() {
             if i > 0 || need_leading_newline {
                 self.write_newline_indent();
             }
-            self.out.extend_from_slice(b"/// ");
-            self.out.extend_from_slice(line.as_bytes());
+            self.out.extend_from_slice(b"///");
+            if !line.is_empty() {
+                self.out.push(b' ');
+                self.out.extend_from_slice(line.as_bytes());
+            }
         }
 
         // Newline before the key (but no indent for root first field)
-- 
2.43.0


From 5fa9c6fcf1e6661a983c59895fa152af099c5ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:56 +0000
Subject: [PATCH 23/86] fix: write the entries of sibling dotted paths as paths

---
 crates/styx-format/src/scalar.rs       | 17 +++++++++
 crates/styx-format/src/value_format.rs | 49 +++++++++++++++++++++++---
 2 files changed, 62 insertions(+), 4 deletions(-)

diff --git a/crates/styx-format/src/scalar.rs b/crates/styx-format/src/scalar.rs
index e4ccf5e..06977c7 100644
--- a/crates/styx-format/src/scalar.rs
+++ b/crates/styx-format/src/scalar.rs
@@ -32,6 +32,23 @@ pub fn can_be_bare_key(s: &str) -> bool {
     can_be_bare(s) && !s.contains('.')
 }
 
+/// Check if a string can be written as a segment of a dotted path.
+///
+/// `@` and `=` are only special where a scalar starts, so segments can hold
+/// them, all but the first one anywhere.
+pub fn can_be_path_segment(s: &str, is_first: bool) -> bool {
+    let starts_scalar = |s: &str| {
+        !["@", "=", "//", "r#", "<<"]
+            .iter()
+            .any(|p| s.starts_with(p))
+    };
+    !s.is_empty()
+        && (!is_first || starts_scalar(s))
+        && !s.chars().any(|c| {
+            matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '>' | '.') || c.is_whitespace()
+        })
+}
+
 /// Count escape sequences needed for a quoted string.
 pub fn count_escapes(s: &str) -> usize {
     s.chars()
diff --git a/crates/styx-format/src/value_format.rs b/crates/styx-format/src/value_format.rs
index 99135ed..3173d8a 100644
--- a/crates/styx-format/src/value_format.rs
+++ b/crates/styx-format/src/value_format.rs
@@ -1,7 +1,10 @@
 //! Format `styx_tree::Value` to Styx text.
 
+use std::collections::HashSet;
+
 use styx_tree::{Entry, Object, Payload, Sequence, Value};
 
+use crate::scalar::can_be_path_segment;
 use crate::{FormatOptions, StyxWriter};
 
 /// Format a Value as a Styx document string.
@@ -147,14 +150,36 @@ impl ValueFormatter {
     }
 
     fn format_object_entries(&mut self, obj: &Object) {
+        let mut seen = HashSet::new();
         for entry in &obj.entries {
-            self.format_entry(entry);
+            // A key that comes again stands for another dotted path below it
+            // (`a.b 1` and `a.c 2`): it must be written as one, for a plain
+            // second occurrence would be a duplicate.
+            let is_path = match entry.key.as_str() {
+                Some(key) => !seen.insert(key) && can_be_path_segment(key, true),
+                None => false,
+            };
+            self.format_entry(entry, is_path);
         }
     }
 
-    fn format_entry(&mut self, entry: &Entry) {
+    fn format_entry(&mut self, entry: &Entry, is_path: bool) {
         // Format the key (which is itself a Value - scalar or unit, optionally tagged)
-        let key_str = self.format_key(&entry.key);
+        let mut key_str = self.format_key(&entry.key);
+        let mut value = &entry.value;
+
+        // Extend the key to the path of the innermost value
+        if is_path
+            && single_segment(value).is_some()
+            && let Some(key) = entry.key.as_str()
+        {
+            key_str = key.to_string();
+        }
+        while is_path && let Some((segment, inner)) = single_segment(value) {
+            key_str.push('.');
+            key_str.push_str(segment);
+            value = inner;
+        }
 
         // Write doc comment + key together, or just key
         if let Some(doc) = &entry.doc_comment {
@@ -163,7 +188,7 @@ impl ValueFormatter {
             self.writer.field_key_raw(&key_str).ok();
         }
 
-        self.format_value(&entry.value);
+        self.format_value(value);
     }
 
     /// Format a key value to string.
@@ -206,6 +231,22 @@ impl ValueFormatter {
     }
 }
 
+/// The key and value of an object that can be written as the segment of a
+/// dotted path: a single entry with a plain key and no doc comment.
+fn single_segment(value: &Value) -> Option<(&str, &Value)> {
+    let Some(Payload::Object(obj)) = value.payload.as_ref().filter(|_| value.tag.is_none()) else {
+        return None;
+    };
+    match obj.entries.as_slice() {
+        [entry] if entry.doc_comment.is_none() => entry
+            .key
+            .as_str()
+            .filter(|key| can_be_path_segment(key, false))
+            .map(|key| (key, &entry.value)),
+        _ => None,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 00d6679771df21361781f7141afdf7d9f3289c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:54 +0000
Subject: [PATCH 24/86] fix: write no heredoc where the inline style puts a
 comma after it

---
 crates/styx-format/src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 95a0feb..4b49758 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -950,7 +950,7 @@ impl StyxWriter {
                 is_root,
                 force_multiline,
                 ..
-            }) => *is_root || *force_multiline,
+            }) => *is_root || (*force_multiline && self.options.force_style != ForceStyle::Inline),
             Some(Context::Seq { .. }) => false,
         }
     }
-- 
2.43.0


From ba68974a2c6f1d0728efb9bb7cdee6f04cca6b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 25/86] fix: accept only JSON number syntax for float values

---
 crates/facet-styx/src/schema_validate.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index fca8df7..9879b0a 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -320,8 +320,8 @@ impl<'a> Validator<'a> {
         };
 
         let parsed = match text.parse::<f64>() {
-            Ok(n) => n,
-            Err(_) => {
+            Ok(n) if n.is_finite() && is_json_number(text) => n,
+            _ => {
                 result.error(
                     ValidationError::new(
                         path,
@@ -1082,6 +1082,25 @@ impl<'a> Validator<'a> {
     }
 }
 
+/// Whether a text is a number in JSON syntax, as float values must be.
+fn is_json_number(text: &str) -> bool {
+    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
+
+    let unsigned = text.strip_prefix('-').unwrap_or(text);
+    let (mantissa, exponent) = match unsigned.split_once(['e', 'E']) {
+        Some((mantissa, exponent)) => (mantissa, Some(exponent)),
+        None => (unsigned, None),
+    };
+    let (integer, fraction) = match mantissa.split_once('.') {
+        Some((integer, fraction)) => (integer, Some(fraction)),
+        None => (mantissa, None),
+    };
+    digits(integer)
+        && (integer == "0" || !integer.starts_with('0'))
+        && fraction.is_none_or(digits)
+        && exponent.is_none_or(|e| digits(e.strip_prefix(['+', '-']).unwrap_or(e)))
+}
+
 /// Get a human-readable name for a value type.
 fn value_type_name(value: &Value) -> &'static str {
     if value.is_unit() {
-- 
2.43.0


From a53e3ed29a4fa6839dd50001953d3a800cd39aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 26/86] fix: measure the length of strings in characters

---
 crates/facet-styx/src/schema_validate.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 9879b0a..2c60cea 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -184,14 +184,15 @@ impl<'a> Validator<'a> {
 
         // Apply constraints if present
         if let Some(c) = constraints {
+            let len = text.chars().count();
             if let Some(min) = c.min_len
-                && text.len() < min
+                && len < min
             {
                 result.error(
                     ValidationError::new(
                         path,
                         ValidationErrorKind::InvalidValue {
-                            reason: format!("string length {} < minimum {}", text.len(), min),
+                            reason: format!("string length {} < minimum {}", len, min),
                         },
                         format!("string too short (min length: {})", min),
                     )
@@ -199,13 +200,13 @@ impl<'a> Validator<'a> {
                 );
             }
             if let Some(max) = c.max_len
-                && text.len() > max
+                && len > max
             {
                 result.error(
                     ValidationError::new(
                         path,
                         ValidationErrorKind::InvalidValue {
-                            reason: format!("string length {} > maximum {}", text.len(), max),
+                            reason: format!("string length {} > maximum {}", len, max),
                         },
                         format!("string too long (max length: {})", max),
                     )
-- 
2.43.0


From 56f259f1d9d05c8351bd524aa42de55b900f4ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 27/86] fix: keep the span of variant payloads in validation
 errors

---
 crates/facet-styx/src/schema_validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 2c60cea..c9da933 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -795,7 +795,7 @@ impl<'a> Validator<'a> {
         let payload_value = value.payload.as_ref().map(|p| Value {
             tag: None,
             payload: Some(p.clone()),
-            span: None,
+            span: value.span,
         });
 
         let expected_variants: Vec<String> = schema.0.keys().map(|k| k.value.clone()).collect();
-- 
2.43.0


From aa3588be7477cde3071ccd944d923648c3d509b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:23 +0000
Subject: [PATCH 28/86] fix: accept a variant without payload where its schema
 accepts the unit

---
 crates/facet-styx/src/schema_validate.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index c9da933..4f6ac21 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -820,6 +820,13 @@ impl<'a> Validator<'a> {
                         };
                         result.merge(self.validate_value(p, variant_schema, &variant_path));
                     }
+                    (None, _)
+                        if self
+                            .validate_value(&Value::unit(), variant_schema, path)
+                            .is_valid() =>
+                    {
+                        // a tag alone has the unit as its payload - OK
+                    }
                     (None, _) => {
                         result.error(
                             ValidationError::new(
-- 
2.43.0


From 29fd2dc72ed3392c8ffbc5763a7a55780f69df41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:18 +0000
Subject: [PATCH 29/86] fix: report types defined as themselves instead of
 recursing without end

---
 crates/facet-styx/src/schema_validate.rs | 31 ++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 4f6ac21..27f409e 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -2,6 +2,7 @@
 //!
 //! Validates `styx_tree::Value` instances against `Schema` definitions.
 
+use std::cell::RefCell;
 use std::collections::HashSet;
 
 use styx_tree::{Payload, Value};
@@ -68,12 +69,17 @@ use crate::schema_types::{
 pub struct Validator<'a> {
     /// The schema file containing type definitions.
     schema_file: &'a SchemaFile,
+    /// Named types being checked, with the address of the value they are checked against.
+    active: RefCell<Vec<(&'a str, usize)>>,
 }
 
 impl<'a> Validator<'a> {
     /// Create a new validator with the given schema.
     pub fn new(schema_file: &'a SchemaFile) -> Self {
-        Self { schema_file }
+        Self {
+            schema_file,
+            active: RefCell::new(Vec::new()),
+        }
     }
 
     /// Validate a document against the schema's root type.
@@ -1071,8 +1077,29 @@ impl<'a> Validator<'a> {
             }
             Some(name) => {
                 // Named type reference - look up in schema
-                if let Some(type_schema) = self.schema_file.schema.get(&Some(name.to_string())) {
+                if let Some((Some(type_name), type_schema)) = self
+                    .schema_file
+                    .schema
+                    .get_key_value(&Some(name.to_string()))
+                {
+                    // A type that refers to itself for the same value says nothing about it
+                    let reference = (type_name.as_str(), std::ptr::from_ref(value) as usize);
+                    if self.active.borrow().contains(&reference) {
+                        result.error(
+                            ValidationError::new(
+                                path,
+                                ValidationErrorKind::SchemaError {
+                                    reason: format!("type '{name}' is defined as itself"),
+                                },
+                                format!("type '{name}' is defined as itself"),
+                            )
+                            .with_span(value.span),
+                        );
+                        return result;
+                    }
+                    self.active.borrow_mut().push(reference);
                     result.merge(self.validate_value(value, type_schema, path));
+                    self.active.borrow_mut().pop();
                 } else {
                     result.error(
                         ValidationError::new(
-- 
2.43.0


From f5b9022e88c2f499dcd2304128f91e2b505c6806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:18 +0000
Subject: [PATCH 30/86] fix: choose the fallback variant of an enum by its
 constraints, not by hash order

---
 crates/facet-styx/src/schema_validate.rs | 30 +++++++++++++++---------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 27f409e..16f2d00 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -877,22 +877,30 @@ impl<'a> Validator<'a> {
         // Only scalars can fall back
         let text = value.scalar_text()?;
 
-        // Look for a variant whose schema matches this value
-        for variant_schema in schema.0.values() {
-            match variant_schema {
+        // The variants whose schema can take this value, by name
+        let mut candidates: Vec<_> = schema
+            .0
+            .iter()
+            .filter(|(_, variant_schema)| match variant_schema {
                 // @string accepts any scalar
-                Schema::String(_) => return Some(variant_schema),
+                Schema::String(_) => true,
                 // @int accepts scalars that parse as integers
-                Schema::Int(_) if text.parse::<i64>().is_ok() => return Some(variant_schema),
+                Schema::Int(_) => text.parse::<i128>().is_ok(),
                 // @float accepts scalars that parse as floats
-                Schema::Float(_) if text.parse::<f64>().is_ok() => return Some(variant_schema),
+                Schema::Float(_) => is_json_number(text),
                 // @bool accepts "true" or "false"
-                Schema::Bool if text == "true" || text == "false" => return Some(variant_schema),
-                _ => continue,
-            }
-        }
+                Schema::Bool => text == "true" || text == "false",
+                _ => false,
+            })
+            .collect();
+        candidates.sort_by(|(a, _), (b, _)| a.value.cmp(&b.value));
 
-        None
+        // Prefer a variant whose constraints hold as well
+        candidates
+            .iter()
+            .find(|(_, variant_schema)| self.validate_value(value, variant_schema, "").is_valid())
+            .or(candidates.first())
+            .map(|&(_, variant_schema)| variant_schema)
     }
 
     fn validate_one_of(&self, value: &Value, schema: &OneOfSchema, path: &str) -> ValidationResult {
-- 
2.43.0


From 6fab318300840ac09eeddebf19377d939b45cb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:19 +0000
Subject: [PATCH 31/86] fix: accept the unit key in maps whose key type accepts
 it

---
 crates/facet-styx/src/schema_validate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 16f2d00..08dc2c2 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -672,8 +672,12 @@ impl<'a> Validator<'a> {
         };
 
         for entry in &obj.entries {
+            let accepts_unit_key = || {
+                key_schema.is_some_and(|ks| self.validate_value(&entry.key, ks, path).is_valid())
+            };
             let key_str = match entry.key.as_str() {
                 Some(s) => s,
+                None if entry.key.is_unit() && accepts_unit_key() => "@",
                 None => {
                     result.error(
                         ValidationError::new(
-- 
2.43.0


From 0f4f3a1888993c430129da61c1fa3d8dfa01d992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:13 +0000
Subject: [PATCH 32/86] fix: choose the catch-all of an object by its key, not
 by hash order

---
 crates/facet-styx/src/schema_validate.rs | 50 ++++++++++++++++++++----
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 08dc2c2..013c858 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -458,11 +458,13 @@ impl<'a> Validator<'a> {
         };
 
         let mut seen_fields: HashSet<Option<&str>> = HashSet::new();
-        // Look up catch-all schema - find any key that is a typed pattern or unit
-        let additional_schema = schema
+        // Catch-all schemas - keys that are a typed pattern or unit, the unit key last
+        let mut catch_alls: Vec<(&str, &Schema)> = schema
             .0
             .iter()
-            .find_map(|(k, v)| if k.value.tag.is_some() { Some(v) } else { None });
+            .filter_map(|(k, v)| Some((k.value.tag.as_deref()?, v)))
+            .collect();
+        catch_alls.sort_by_key(|&(tag, _)| (tag.is_empty(), tag));
 
         for entry in &obj.entries {
             let key_opt: Option<&str> = if entry.key.is_unit() {
@@ -493,11 +495,28 @@ impl<'a> Validator<'a> {
             seen_fields.insert(key_opt);
 
             // Look up by Documented<ObjectKey> - for named fields
-            let lookup_key = Documented::new(ObjectKey::named(key_opt.unwrap_or("")));
-            if let Some(field_schema) = schema.0.get(&lookup_key) {
+            let named =
+                key_opt.and_then(|name| schema.0.get(&Documented::new(ObjectKey::named(name))));
+            if let Some(field_schema) = named {
                 result.merge(self.validate_value(&entry.value, field_schema, &field_path));
-            } else if let Some(add_schema) = additional_schema {
-                result.merge(self.validate_value(&entry.value, add_schema, &field_path));
+                continue;
+            }
+
+            // Otherwise one of the catch-alls that take this key must accept the value
+            let mut mismatch = None;
+            let accepted = catch_alls
+                .iter()
+                .filter(|(tag, _)| self.accepts_key(tag, &entry.key))
+                .map(|(_, schema)| self.validate_value(&entry.value, schema, &field_path))
+                .find_map(|checked| {
+                    if checked.is_valid() {
+                        return Some(checked);
+                    }
+                    mismatch.get_or_insert(checked);
+                    None
+                });
+            if let Some(checked) = accepted.or(mismatch) {
+                result.merge(checked);
             } else {
                 // Collect valid field names for error message
                 let valid_fields: Vec<String> = schema
@@ -556,6 +575,23 @@ impl<'a> Validator<'a> {
         result
     }
 
+    /// Whether a catch-all key of an object schema (`@string`, `@`) takes a key.
+    fn accepts_key(&self, tag: &str, key: &Value) -> bool {
+        match tag {
+            "" | "any" => true,
+            "string" => self.validate_string(key, None, "").is_valid(),
+            "int" => self.validate_int(key, None, "").is_valid(),
+            "float" => self.validate_float(key, None, "").is_valid(),
+            "bool" => self.validate_bool(key, "").is_valid(),
+            "unit" => key.is_unit(),
+            name => match self.schema_file.schema.get(&Some(name.to_string())) {
+                // keys name the variants of an enum without a tag
+                Some(Schema::Enum(_)) => true,
+                _ => self.validate_type_ref(key, Some(name), "").is_valid(),
+            },
+        }
+    }
+
     fn validate_seq(&self, value: &Value, schema: &SeqSchema, path: &str) -> ValidationResult {
         let mut result = ValidationResult::ok();
 
-- 
2.43.0


From afe82ade1546869b8540303a2a0c4566842f30fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:13 +0000
Subject: [PATCH 33/86] fix: let fields be absent whose named type is optional

---
 crates/facet-styx/src/schema_validate.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 013c858..535a22a 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -552,7 +552,7 @@ impl<'a> Validator<'a> {
 
             if !seen_fields.contains(&Some(name)) {
                 // Optional and Default fields are not required
-                if !matches!(field_schema, Schema::Optional(_) | Schema::Default(_)) {
+                if !self.allows_absence(field_schema) {
                     let field_path = if path.is_empty() {
                         name.to_string()
                     } else {
@@ -575,6 +575,25 @@ impl<'a> Validator<'a> {
         result
     }
 
+    /// Whether a field with this schema can be absent.
+    fn allows_absence(&self, schema: &Schema) -> bool {
+        let mut schema = schema;
+        let mut aliases = HashSet::new();
+        loop {
+            schema = match schema {
+                Schema::Optional(_) | Schema::Default(_) => return true,
+                Schema::Deprecated(DeprecatedSchema((_, inner))) => &inner.value,
+                Schema::Type { name: Some(name) } if aliases.insert(name) => {
+                    match self.schema_file.schema.get(&Some(name.clone())) {
+                        Some(named) => named,
+                        None => return false,
+                    }
+                }
+                _ => return false,
+            };
+        }
+    }
+
     /// Whether a catch-all key of an object schema (`@string`, `@`) takes a key.
     fn accepts_key(&self, tag: &str, key: &Value) -> bool {
         match tag {
-- 
2.43.0


From 19d018824837de16e54aed967de63a98d6bddf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:34 +0000
Subject: [PATCH 34/86] fix: inline the fields of flattened types when
 validating objects

---
 crates/facet-styx/src/schema_validate.rs | 85 ++++++++++++++++++++----
 1 file changed, 73 insertions(+), 12 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 535a22a..53c637c 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -3,7 +3,7 @@
 //! Validates `styx_tree::Value` instances against `Schema` definitions.
 
 use std::cell::RefCell;
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 
 use styx_tree::{Payload, Value};
 
@@ -457,12 +457,28 @@ impl<'a> Validator<'a> {
             }
         };
 
+        let fields = match self.object_fields(schema) {
+            Ok(fields) => fields,
+            Err(reason) => {
+                result.error(
+                    ValidationError::new(
+                        path,
+                        ValidationErrorKind::SchemaError {
+                            reason: reason.clone(),
+                        },
+                        reason,
+                    )
+                    .with_span(value.span),
+                );
+                return result;
+            }
+        };
+
         let mut seen_fields: HashSet<Option<&str>> = HashSet::new();
         // Catch-all schemas - keys that are a typed pattern or unit, the unit key last
-        let mut catch_alls: Vec<(&str, &Schema)> = schema
-            .0
+        let mut catch_alls: Vec<(&str, &Schema)> = fields
             .iter()
-            .filter_map(|(k, v)| Some((k.value.tag.as_deref()?, v)))
+            .filter_map(|(k, v)| Some((k.tag.as_deref()?, *v)))
             .collect();
         catch_alls.sort_by_key(|&(tag, _)| (tag.is_empty(), tag));
 
@@ -494,9 +510,8 @@ impl<'a> Validator<'a> {
 
             seen_fields.insert(key_opt);
 
-            // Look up by Documented<ObjectKey> - for named fields
-            let named =
-                key_opt.and_then(|name| schema.0.get(&Documented::new(ObjectKey::named(name))));
+            // Look up named fields
+            let named = key_opt.and_then(|name| fields.get(&ObjectKey::named(name)).copied());
             if let Some(field_schema) = named {
                 result.merge(self.validate_value(&entry.value, field_schema, &field_path));
                 continue;
@@ -519,11 +534,11 @@ impl<'a> Validator<'a> {
                 result.merge(checked);
             } else {
                 // Collect valid field names for error message
-                let valid_fields: Vec<String> = schema
-                    .0
+                let mut valid_fields: Vec<String> = fields
                     .keys()
-                    .filter_map(|k| k.value.name().map(|s| s.to_string()))
+                    .filter_map(|k| k.name().map(|s| s.to_string()))
                     .collect();
+                valid_fields.sort();
 
                 // Try to find a similar field name (typo detection)
                 let suggestion = suggest_similar(key_display, &valid_fields).map(String::from);
@@ -544,9 +559,9 @@ impl<'a> Validator<'a> {
         }
 
         // Check for missing required fields
-        for (field_name_doc, field_schema) in &schema.0 {
+        for (field_name, field_schema) in fields {
             // Skip catch-all fields (typed patterns like @string)
-            let Some(name) = field_name_doc.value.name() else {
+            let Some(name) = field_name.name() else {
                 continue;
             };
 
@@ -575,6 +590,52 @@ impl<'a> Validator<'a> {
         result
     }
 
+    /// The fields of an object schema, with those of flattened types inlined.
+    fn object_fields<'s>(
+        &'s self,
+        schema: &'s ObjectSchema,
+    ) -> Result<HashMap<&'s ObjectKey, &'s Schema>, String> {
+        let mut fields = HashMap::new();
+        self.collect_fields(schema, &mut Vec::new(), &mut fields)?;
+        Ok(fields)
+    }
+
+    fn collect_fields<'s>(
+        &'s self,
+        schema: &'s ObjectSchema,
+        flattening: &mut Vec<&'s str>,
+        fields: &mut HashMap<&'s ObjectKey, &'s Schema>,
+    ) -> Result<(), String> {
+        for (key, field_schema) in &schema.0 {
+            if let (Some(_), Schema::Flatten(FlattenSchema((inner,)))) =
+                (key.value.name(), field_schema)
+            {
+                let depth = flattening.len();
+                let mut inner: &Schema = &inner.value;
+                while let Schema::Type { name: Some(name) } = inner {
+                    if flattening.contains(&name.as_str()) {
+                        return Err(format!("type '{name}' is flattened into itself"));
+                    }
+                    flattening.push(name);
+                    inner = self
+                        .schema_file
+                        .schema
+                        .get(&Some(name.clone()))
+                        .ok_or_else(|| format!("unknown type '{name}'"))?;
+                }
+                let Schema::Object(object) = inner else {
+                    return Err("only object types can be flattened".into());
+                };
+                self.collect_fields(object, flattening, fields)?;
+                flattening.truncate(depth);
+            } else if fields.insert(&key.value, field_schema).is_some() {
+                let name = key.value.name().unwrap_or("@");
+                return Err(format!("field '{name}' is defined more than once"));
+            }
+        }
+        Ok(())
+    }
+
     /// Whether a field with this schema can be absent.
     fn allows_absence(&self, schema: &Schema) -> bool {
         let mut schema = schema;
-- 
2.43.0


From ed1c36e516f711c848738ab913083de40a082490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:02 +0000
Subject: [PATCH 35/86] fix: compare scalars with the values of a one-of, not
 with their source text

---
 crates/facet-styx/src/schema_validate.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 53c637c..58a7024 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -61,8 +61,8 @@ use crate::schema_error::{
 };
 use crate::schema_types::{
     DefaultSchema, DeprecatedSchema, Documented, EnumSchema, FlattenSchema, FloatConstraints,
-    IntConstraints, MapSchema, ObjectKey, ObjectSchema, OneOfSchema, OptionalSchema, Schema,
-    SchemaFile, SeqSchema, StringConstraints, TupleSchema, UnionSchema,
+    IntConstraints, MapSchema, ObjectKey, ObjectSchema, OneOfSchema, OptionalSchema, RawStyx,
+    Schema, SchemaFile, SeqSchema, StringConstraints, TupleSchema, UnionSchema,
 };
 
 /// Validator for Styx documents.
@@ -1062,7 +1062,7 @@ impl<'a> Validator<'a> {
 
         // Check if the value is in the allowed list
         let allowed_strings: Vec<&str> = allowed_values.iter().map(|v| v.as_str()).collect();
-        if !allowed_strings.contains(&value_text) {
+        if !allowed_values.iter().any(|v| raw_is_scalar(v, value_text)) {
             // Try to find a similar value for suggestions
             let allowed_owned: Vec<String> = allowed_values.iter().map(|v| v.0.clone()).collect();
             let suggestion = suggest_similar(value_text, &allowed_owned).map(String::from);
@@ -1245,6 +1245,14 @@ impl<'a> Validator<'a> {
     }
 }
 
+/// Whether a raw Styx value is the scalar with this text.
+fn raw_is_scalar(raw: &RawStyx, text: &str) -> bool {
+    match styx_tree::parse(&format!("value {raw}")) {
+        Ok(doc) => doc.get("value").and_then(Value::as_str) == Some(text),
+        Err(_) => raw.as_str() == text,
+    }
+}
+
 /// Whether a text is a number in JSON syntax, as float values must be.
 fn is_json_number(text: &str) -> bool {
     let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
-- 
2.43.0


From e8d17c49c4ad7009fbe7070a7d26339fdd872335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:02 +0000
Subject: [PATCH 36/86] fix: keep the warnings of the union variant that
 matches

---
 crates/facet-styx/src/schema_validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 58a7024..a5df661 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -851,7 +851,7 @@ impl<'a> Validator<'a> {
         for variant in &schema.0 {
             let variant_result = self.validate_value(value, &variant.value, path);
             if variant_result.is_valid() {
-                return ValidationResult::ok();
+                return variant_result;
             }
             tried.push(schema_type_name(&variant.value));
         }
-- 
2.43.0


From c3ccaab7d250da015e642fa820502a79bb055c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:49 +0000
Subject: [PATCH 37/86] fix: write tagged keys in JSON output as they are
 written in Styx

---
 crates/styx-cli/src/main.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index bb47ebf..6fb67ab 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -1383,12 +1383,11 @@ fn payload_to_json(payload: &Payload) -> serde_json::Value {
         Payload::Object(o) => {
             let mut obj = serde_json::Map::new();
             for entry in &o.entries {
-                let key = if entry.key.is_unit() {
-                    "@".to_string()
-                } else if let Some(s) = entry.key.as_str() {
-                    s.to_string()
-                } else {
-                    format!("{:?}", entry.key)
+                let key = match (entry.key.tag_name(), entry.key.scalar_text()) {
+                    (None, None) => "@".to_string(),
+                    (None, Some(text)) => text.to_string(),
+                    (Some(tag), None) => format!("@{tag}"),
+                    (Some(tag), Some(text)) => format!("@{tag}{text:?}"),
                 };
                 obj.insert(key, value_to_json(&entry.value));
             }
-- 
2.43.0


From a93a65b9737b3e5e64c2063c3f405593e2d9372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:49 +0000
Subject: [PATCH 38/86] fix: keep every sibling of a dotted path in JSON output

---
 crates/styx-cli/src/main.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 6fb67ab..f06aea8 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -1389,13 +1389,32 @@ fn payload_to_json(payload: &Payload) -> serde_json::Value {
                     (Some(tag), None) => format!("@{tag}"),
                     (Some(tag), Some(text)) => format!("@{tag}{text:?}"),
                 };
-                obj.insert(key, value_to_json(&entry.value));
+                insert_json_entry(&mut obj, key, value_to_json(&entry.value));
             }
             serde_json::Value::Object(obj)
         }
     }
 }
 
+/// Add an entry to a JSON object. Sibling dotted paths (`a.b 1` and `a.c 2`)
+/// are entries with the same key, whose objects belong together.
+fn insert_json_entry(
+    obj: &mut serde_json::Map<String, serde_json::Value>,
+    key: String,
+    value: serde_json::Value,
+) {
+    match (obj.get_mut(&key), value) {
+        (Some(serde_json::Value::Object(existing)), serde_json::Value::Object(new)) => {
+            for (key, value) in new {
+                insert_json_entry(existing, key, value);
+            }
+        }
+        (_, value) => {
+            obj.insert(key, value);
+        }
+    }
+}
+
 // ============================================================================
 // Package command
 // ============================================================================
-- 
2.43.0


From f71fd59feb1033a9de85ee098ef86a0ce2ebd122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:49 +0000
Subject: [PATCH 39/86] fix: refuse to replace the input file by its JSON form

---
 crates/styx-cli/src/main.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index f06aea8..8873a9d 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -352,6 +352,17 @@ fn run_file_mode(args: &[String]) -> Result<(), CliError> {
         ));
     }
 
+    // The same for --json-out, which would replace the document by its JSON form
+    if let Some(ref output) = opts.json_out
+        && opts.input != "-"
+        && output != "-"
+        && is_same_file(&opts.input, output)
+    {
+        return Err(CliError::Usage(
+            "input and JSON output are the same file".into(),
+        ));
+    }
+
     // Read input
     let source = read_input(Some(&opts.input))?;
     let filename = if opts.input == "-" {
-- 
2.43.0


From 1e3bc181874fafc5c35c0993fa2e7964cbeb83ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:13 +0000
Subject: [PATCH 40/86] fix: look up paths in every sibling of a dotted path

---
 crates/styx-tree/src/lib.rs   | 13 +++++++------
 crates/styx-tree/src/value.rs | 28 ++++++++++++----------------
 2 files changed, 19 insertions(+), 22 deletions(-)

diff --git a/crates/styx-tree/src/lib.rs b/crates/styx-tree/src/lib.rs
index 69fb624..502f76b 100644
--- a/crates/styx-tree/src/lib.rs
+++ b/crates/styx-tree/src/lib.rs
@@ -54,12 +54,13 @@ impl Document {
         }
 
         let (segment, rest) = split_path(path);
-        let value = self.root.get(segment)?;
-        if rest.is_empty() {
-            Some(value)
-        } else {
-            value.get(rest)
-        }
+        // Sibling dotted paths (`a.b 1` and `a.c 2`) are entries with the same
+        // key, so the rest of the path may be in any of them
+        self.root
+            .entries
+            .iter()
+            .filter(|e| e.key.as_str() == Some(segment))
+            .find_map(|e| e.value.get(rest))
     }
 }
 
diff --git a/crates/styx-tree/src/value.rs b/crates/styx-tree/src/value.rs
index edcb540..51ac70f 100644
--- a/crates/styx-tree/src/value.rs
+++ b/crates/styx-tree/src/value.rs
@@ -266,14 +266,13 @@ impl Value {
         let (segment, rest) = split_path(path);
 
         match &self.payload {
-            Some(Payload::Object(obj)) => {
-                let value = obj.get(segment)?;
-                if rest.is_empty() {
-                    Some(value)
-                } else {
-                    value.get(rest)
-                }
-            }
+            // Sibling dotted paths (`a.b 1` and `a.c 2`) are entries with the
+            // same key, so the rest of the path may be in any of them
+            Some(Payload::Object(obj)) => obj
+                .entries
+                .iter()
+                .filter(|e| e.key.as_str() == Some(segment))
+                .find_map(|e| e.value.get(rest)),
             Some(Payload::Sequence(seq)) => {
                 // Handle [n] indexing
                 if segment.starts_with('[') && segment.ends_with(']') {
@@ -301,14 +300,11 @@ impl Value {
         let (segment, rest) = split_path(path);
 
         match &mut self.payload {
-            Some(Payload::Object(obj)) => {
-                let value = obj.get_mut(segment)?;
-                if rest.is_empty() {
-                    Some(value)
-                } else {
-                    value.get_mut(rest)
-                }
-            }
+            Some(Payload::Object(obj)) => obj
+                .entries
+                .iter_mut()
+                .filter(|e| e.key.as_str() == Some(segment))
+                .find_map(|e| e.value.get_mut(rest)),
             Some(Payload::Sequence(seq)) => {
                 if segment.starts_with('[') && segment.ends_with(']') {
                     let idx: usize = segment[1..segment.len() - 1].parse().ok()?;
-- 
2.43.0


From 17716ae902a69a80c0516ee0b41bcc31a3103b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:02 +0000
Subject: [PATCH 41/86] fix: insert replaces every part of a value given by
 sibling dotted paths

---
 crates/styx-tree/src/value.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/styx-tree/src/value.rs b/crates/styx-tree/src/value.rs
index 51ac70f..d60a8b5 100644
--- a/crates/styx-tree/src/value.rs
+++ b/crates/styx-tree/src/value.rs
@@ -384,13 +384,22 @@ impl Object {
     /// Insert or update an entry with a string key.
     pub fn insert(&mut self, key: impl Into<String>, value: Value) {
         let key_str = key.into();
-        if let Some(entry) = self
-            .entries
-            .iter_mut()
-            .find(|e| e.key.as_str() == Some(&key_str))
-        {
-            entry.value = value;
-        } else {
+        // Sibling dotted paths (`a.b 1` and `a.c 2`) are entries with the same
+        // key: the value takes the place of all of them
+        let mut value = Some(value);
+        self.entries.retain_mut(|e| {
+            if e.key.as_str() != Some(&key_str) {
+                return true;
+            }
+            match value.take() {
+                Some(value) => {
+                    e.value = value;
+                    true
+                }
+                None => false,
+            }
+        });
+        if let Some(value) = value {
             self.entries.push(Entry {
                 key: Value::scalar(key_str),
                 value,
-- 
2.43.0


From 05c8ade859446800bce572794ce917994ba97914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:24 +0000
Subject: [PATCH 42/86] fix: a section header that points past the end of
 memory panicked the schema search

---
 crates/styx-embed/src/lib.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/styx-embed/src/lib.rs b/crates/styx-embed/src/lib.rs
index 70969f8..dacfe64 100644
--- a/crates/styx-embed/src/lib.rs
+++ b/crates/styx-embed/src/lib.rs
@@ -347,6 +347,11 @@ fn find_schema_section<'a>(object: &goblin::Object, data: &'a [u8]) -> Option<&'
     }
 }
 
+/// The bytes of a section, if its header points into the file.
+fn slice_at(data: &[u8], start: usize, size: usize) -> Option<&[u8]> {
+    data.get(start..start.checked_add(size)?)
+}
+
 /// Find the .styx_schemas section in an ELF binary.
 fn find_elf_section<'a>(elf: &goblin::elf::Elf, data: &'a [u8]) -> Option<&'a [u8]> {
     for section in &elf.section_headers {
@@ -355,8 +360,8 @@ fn find_elf_section<'a>(elf: &goblin::elf::Elf, data: &'a [u8]) -> Option<&'a [u
         {
             let start = section.sh_offset as usize;
             let size = section.sh_size as usize;
-            if start + size <= data.len() {
-                return Some(&data[start..start + size]);
+            if let Some(section) = slice_at(data, start, size) {
+                return Some(section);
             }
         }
     }
@@ -374,8 +379,7 @@ fn find_macho_section<'a>(mach: &goblin::mach::Mach, data: &'a [u8]) -> Option<&
             for arch in fat.iter_arches().flatten() {
                 let start = arch.offset as usize;
                 let size = arch.size as usize;
-                if start + size <= data.len() {
-                    let arch_data = &data[start..start + size];
+                if let Some(arch_data) = slice_at(data, start, size) {
                     if let Ok(goblin::Object::Mach(Mach::Binary(macho))) =
                         goblin::Object::parse(arch_data)
                         && let Some(section) = find_macho_section_in_binary(&macho, arch_data)
@@ -404,8 +408,8 @@ fn find_macho_section_in_binary<'a>(
                 {
                     let start = section.offset as usize;
                     let size = section.size as usize;
-                    if start + size <= data.len() {
-                        return Some(&data[start..start + size]);
+                    if let Some(section) = slice_at(data, start, size) {
+                        return Some(section);
                     }
                 }
             }
@@ -422,8 +426,8 @@ fn find_pe_section<'a>(pe: &goblin::pe::PE, data: &'a [u8]) -> Option<&'a [u8]>
         {
             let start = section.pointer_to_raw_data as usize;
             let size = section.size_of_raw_data as usize;
-            if start + size <= data.len() {
-                return Some(&data[start..start + size]);
+            if let Some(section) = slice_at(data, start, size) {
+                return Some(section);
             }
         }
     }
-- 
2.43.0


From e67ed047121a703d7bb7683ffcce7ee406f9c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:24 +0000
Subject: [PATCH 43/86] fix: a forged decompressed length made extraction
 allocate up to 4 GB

---
 crates/styx-embed/src/lib.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/styx-embed/src/lib.rs b/crates/styx-embed/src/lib.rs
index dacfe64..7d37b63 100644
--- a/crates/styx-embed/src/lib.rs
+++ b/crates/styx-embed/src/lib.rs
@@ -212,8 +212,7 @@ fn try_extract_v2_at(data: &[u8], magic_pos: usize) -> Result<String, ExtractErr
     let compressed = &data[pos..pos + compressed_len];
 
     // Decompress
-    let decompressed = lz4_flex::decompress_size_prepended(compressed)
-        .map_err(|_| ExtractError::DecompressFailed)?;
+    let decompressed = decompress(compressed)?;
 
     // Verify length
     if decompressed.len() != decompressed_len {
@@ -230,6 +229,20 @@ fn try_extract_v2_at(data: &[u8], magic_pos: usize) -> Result<String, ExtractErr
     String::from_utf8(decompressed).map_err(|_| ExtractError::InvalidUtf8)
 }
 
+/// Decompress a payload that starts with its decompressed length.
+fn decompress(compressed: &[u8]) -> Result<Vec<u8>, ExtractError> {
+    // That length is allocated up front, so it must be one the data could have:
+    // a byte of LZ4 data stands for at most 255 bytes.
+    let claimed = match compressed {
+        [a, b, c, d, ..] => u32::from_le_bytes([*a, *b, *c, *d]) as usize,
+        _ => return Err(ExtractError::DecompressFailed),
+    };
+    if claimed > compressed.len().saturating_mul(255) {
+        return Err(ExtractError::DecompressFailed);
+    }
+    lz4_flex::decompress_size_prepended(compressed).map_err(|_| ExtractError::DecompressFailed)
+}
+
 /// Try to extract schemas from legacy V1 format at a specific position.
 fn try_extract_v1_at(data: &[u8], magic_pos: usize) -> Result<Vec<String>, ExtractError> {
     let mut pos = magic_pos + MAGIC_V1.len();
@@ -270,8 +283,7 @@ fn try_extract_v1_at(data: &[u8], magic_pos: usize) -> Result<Vec<String>, Extra
         pos += compressed_len;
 
         // Decompress
-        let decompressed = lz4_flex::decompress_size_prepended(compressed)
-            .map_err(|_| ExtractError::DecompressFailed)?;
+        let decompressed = decompress(compressed)?;
 
         // Verify length
         if decompressed.len() != decompressed_len {
-- 
2.43.0


From 8949c2c05588be791470217afefa61b5af5012d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:24 +0000
Subject: [PATCH 44/86] fix: embed macros read all escapes of string literals

---
 crates/styx-embed-macros/src/lib.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/crates/styx-embed-macros/src/lib.rs b/crates/styx-embed-macros/src/lib.rs
index 7fee368..93cc7f3 100644
--- a/crates/styx-embed-macros/src/lib.rs
+++ b/crates/styx-embed-macros/src/lib.rs
@@ -121,7 +121,6 @@ fn parse_string_literal(lit: &unsynn::Literal) -> Option<String> {
     // Regular string: "..."
     if s.starts_with('"') && s.ends_with('"') && s.len() >= 2 {
         let inner = &s[1..s.len() - 1];
-        // Handle basic escapes
         let mut result = String::new();
         let mut chars = inner.chars().peekable();
         while let Some(c) = chars.next() {
@@ -132,12 +131,31 @@ fn parse_string_literal(lit: &unsynn::Literal) -> Option<String> {
                     Some('t') => result.push('\t'),
                     Some('\\') => result.push('\\'),
                     Some('"') => result.push('"'),
+                    Some('\'') => result.push('\''),
                     Some('0') => result.push('\0'),
-                    Some(other) => {
-                        result.push('\\');
-                        result.push(other);
+                    // \x7F
+                    Some('x') => {
+                        let hex: String = chars.by_ref().take(2).collect();
+                        result.push(u8::from_str_radix(&hex, 16).ok()? as char);
                     }
-                    None => result.push('\\'),
+                    // \u{1F600}
+                    Some('u') => {
+                        let hex: String = chars
+                            .by_ref()
+                            .skip(1)
+                            .take_while(|&c| c != '}')
+                            .filter(|&c| c != '_')
+                            .collect();
+                        result.push(char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?);
+                    }
+                    // A line break and the blanks after it are skipped
+                    Some('\n') => {
+                        while chars
+                            .next_if(|c| matches!(c, ' ' | '\n' | '\r' | '\t'))
+                            .is_some()
+                        {}
+                    }
+                    _ => return None,
                 }
             } else {
                 result.push(c);
-- 
2.43.0


From 904c58dcad4d0cee450fa7b77a01ad60aa02c261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:38 +0000
Subject: [PATCH 45/86] fix: the language server published diagnostics of older
 texts, answered about them, and dropped syntax errors when an extension was
 allowed

---
 crates/styx-lsp/src/server.rs | 219 +++++++++++++++++-----------------
 1 file changed, 112 insertions(+), 107 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index dee83b1..2ca9f17 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -1,7 +1,7 @@
 //! LSP server implementation
 
 use std::collections::HashMap;
-use std::sync::Arc;
+use std::sync::{Arc, Mutex};
 
 use styx_cst::{Parse, parse};
 use styx_tree::Value;
@@ -50,6 +50,11 @@ pub struct StyxLanguageServer {
     client: Client,
     /// Open documents
     documents: DocumentMap,
+    /// How often each document was opened, changed or closed. Only written
+    /// while holding `documents` for writing.
+    revisions: Mutex<HashMap<Url, u64>>,
+    /// Held while publishing, so that diagnostics go out in the order of revisions
+    publishing: tokio::sync::Mutex<()>,
     /// Extension manager
     extensions: Arc<ExtensionManager>,
 }
@@ -60,10 +65,97 @@ impl StyxLanguageServer {
         Self {
             client,
             documents: documents.clone(),
+            revisions: Mutex::new(HashMap::new()),
+            publishing: tokio::sync::Mutex::new(()),
             extensions: Arc::new(ExtensionManager::new(documents)),
         }
     }
 
+    /// The revision of a document.
+    fn revision(&self, uri: &Url) -> u64 {
+        let revisions = self.revisions.lock().unwrap();
+        revisions.get(uri).copied().unwrap_or(0)
+    }
+
+    /// Note that a document is about to be opened, changed or closed.
+    fn next_revision(&self, uri: &Url) -> u64 {
+        let mut revisions = self.revisions.lock().unwrap();
+        let revision = revisions.entry(uri.clone()).or_insert(0);
+        *revision += 1;
+        *revision
+    }
+
+    /// Publish diagnostics, unless the document was changed or closed since.
+    async fn publish_if_current(
+        &self,
+        uri: Url,
+        revision: u64,
+        diagnostics: Vec<Diagnostic>,
+        version: Option<i32>,
+    ) {
+        let _publishing = self.publishing.lock().await;
+        if self.revision(&uri) == revision {
+            self.client
+                .publish_diagnostics(uri, diagnostics, version)
+                .await;
+        }
+    }
+
+    /// Store the content of a document, then publish its diagnostics.
+    ///
+    /// Messages are handled concurrently: the document is stored before
+    /// anything is waited for, so that the requests that follow see it.
+    async fn update_document(&self, uri: Url, content: String, version: i32) {
+        // Store document
+        let revision = {
+            let mut docs = self.documents.write().await;
+            docs.insert(
+                uri.clone(),
+                DocumentState {
+                    content: content.clone(),
+                    parse: parse(&content),
+                    tree: styx_tree::parse(&content).ok(),
+                    version,
+                },
+            );
+            self.next_revision(&uri)
+        };
+
+        self.check_document(uri, revision, &content, version).await;
+    }
+
+    /// Publish the diagnostics of a document, starting its extension if allowed.
+    async fn check_document(&self, uri: Url, revision: u64, content: &str, version: i32) {
+        // Parse the document (CST)
+        let parsed = parse(content);
+
+        // Parse into tree for schema validation
+        let (tree, tree_error) = match styx_tree::parse(content) {
+            Ok(tree) => (Some(tree), None),
+            Err(e) => (None, Some(e)),
+        };
+
+        // Check for LSP extension in schema
+        let blocked_extension = if let Some(ref tree) = tree {
+            self.check_for_extension(tree, &uri).await
+        } else {
+            None
+        };
+
+        // Publish diagnostics
+        self.publish_diagnostics(
+            uri,
+            revision,
+            content,
+            &parsed,
+            tree.as_ref(),
+            tree_error.as_ref(),
+            version,
+            blocked_extension,
+        )
+        .await;
+    }
+
     /// Check if the document's schema has an LSP extension and spawn it if allowed.
     ///
     /// Returns information about blocked extensions if not allowed.
@@ -102,6 +194,7 @@ impl StyxLanguageServer {
     async fn publish_diagnostics(
         &self,
         uri: Url,
+        revision: u64,
         content: &str,
         parsed: &Parse,
         tree: Option<&Value>,
@@ -184,8 +277,7 @@ impl StyxLanguageServer {
             }
         }
 
-        self.client
-            .publish_diagnostics(uri, diagnostics, Some(version))
+        self.publish_if_current(uri, revision, diagnostics, Some(version))
             .await;
     }
 
@@ -497,47 +589,7 @@ impl LanguageServer for StyxLanguageServer {
         let content = params.text_document.text;
         let version = params.text_document.version;
 
-        // Parse the document (CST)
-        let parsed = parse(&content);
-
-        // Parse into tree for schema validation
-        let (tree, tree_error) = match styx_tree::parse(&content) {
-            Ok(tree) => (Some(tree), None),
-            Err(e) => (None, Some(e)),
-        };
-
-        // Check for LSP extension in schema
-        let blocked_extension = if let Some(ref tree) = tree {
-            self.check_for_extension(tree, &uri).await
-        } else {
-            None
-        };
-
-        // Publish diagnostics
-        self.publish_diagnostics(
-            uri.clone(),
-            &content,
-            &parsed,
-            tree.as_ref(),
-            tree_error.as_ref(),
-            version,
-            blocked_extension,
-        )
-        .await;
-
-        // Store document
-        {
-            let mut docs = self.documents.write().await;
-            docs.insert(
-                uri,
-                DocumentState {
-                    content,
-                    parse: parsed,
-                    tree,
-                    version,
-                },
-            );
-        }
+        self.update_document(uri, content, version).await;
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
@@ -546,49 +598,7 @@ impl LanguageServer for StyxLanguageServer {
 
         // With FULL sync, we get the entire document content
         if let Some(change) = params.content_changes.into_iter().next() {
-            let content = change.text;
-
-            // Parse the document (CST)
-            let parsed = parse(&content);
-
-            // Parse into tree for schema validation
-            let (tree, tree_error) = match styx_tree::parse(&content) {
-                Ok(tree) => (Some(tree), None),
-                Err(e) => (None, Some(e)),
-            };
-
-            // Check for LSP extension in schema (might have changed)
-            let blocked_extension = if let Some(ref tree) = tree {
-                self.check_for_extension(tree, &uri).await
-            } else {
-                None
-            };
-
-            // Publish diagnostics
-            self.publish_diagnostics(
-                uri.clone(),
-                &content,
-                &parsed,
-                tree.as_ref(),
-                tree_error.as_ref(),
-                version,
-                blocked_extension,
-            )
-            .await;
-
-            // Update stored document
-            {
-                let mut docs = self.documents.write().await;
-                docs.insert(
-                    uri,
-                    DocumentState {
-                        content,
-                        parse: parsed,
-                        tree,
-                        version,
-                    },
-                );
-            }
+            self.update_document(uri, change.text, version).await;
         }
     }
 
@@ -596,13 +606,14 @@ impl LanguageServer for StyxLanguageServer {
         let uri = params.text_document.uri;
 
         // Remove document
-        {
+        let revision = {
             let mut docs = self.documents.write().await;
             docs.remove(&uri);
-        }
+            self.next_revision(&uri)
+        };
 
         // Clear diagnostics
-        self.client.publish_diagnostics(uri, vec![], None).await;
+        self.publish_if_current(uri, revision, vec![], None).await;
     }
 
     async fn semantic_tokens_full(
@@ -1605,23 +1616,17 @@ impl LanguageServer for StyxLanguageServer {
 
                     // Re-publish diagnostics for all open documents to clear the warning
                     // and trigger extension spawning
-                    let docs = self.documents.read().await;
-                    for (uri, doc) in docs.iter() {
-                        let blocked_extension = if let Some(ref tree) = doc.tree {
-                            self.check_for_extension(tree, uri).await
-                        } else {
-                            None
-                        };
-                        self.publish_diagnostics(
-                            uri.clone(),
-                            &doc.content,
-                            &doc.parse,
-                            doc.tree.as_ref(),
-                            None, // tree_error already reported on initial load
-                            doc.version,
-                            blocked_extension,
-                        )
-                        .await;
+                    let open: Vec<_> = {
+                        let docs = self.documents.read().await;
+                        docs.iter()
+                            .map(|(uri, doc)| {
+                                let revision = self.revision(uri);
+                                (uri.clone(), revision, doc.content.clone(), doc.version)
+                            })
+                            .collect()
+                    };
+                    for (uri, revision, content, version) in open {
+                        self.check_document(uri, revision, &content, version).await;
                     }
 
                     // Request inlay hint refresh so hints appear immediately
-- 
2.43.0


From 24b4c077b3a1dd9e43ade6cb204a678605ba339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:38 +0000
Subject: [PATCH 46/86] fix: of several changes in one notification the last
 one counts

---
 crates/styx-lsp/src/server.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 2ca9f17..7531a36 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -596,8 +596,8 @@ impl LanguageServer for StyxLanguageServer {
         let uri = params.text_document.uri;
         let version = params.text_document.version;
 
-        // With FULL sync, we get the entire document content
-        if let Some(change) = params.content_changes.into_iter().next() {
+        // With FULL sync, each change is the entire document content
+        if let Some(change) = params.content_changes.into_iter().next_back() {
             self.update_document(uri, change.text, version).await;
         }
     }
-- 
2.43.0


From 7f912e32287905acce531fbfdee3d35d37ed8e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:03 +0000
Subject: [PATCH 47/86] fix: the syntax tree takes attributes as elements of
 sequences, and ends an entry at a doc comment

---
 crates/styx-cst/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/styx-cst/src/parser.rs b/crates/styx-cst/src/parser.rs
index c8cc148..49e002c 100644
--- a/crates/styx-cst/src/parser.rs
+++ b/crates/styx-cst/src/parser.rs
@@ -173,6 +173,7 @@ impl<'src> CstParser<'src> {
         kind == TokenKind::Eof
             || kind == TokenKind::Newline
             || kind == TokenKind::LineComment
+            || kind == TokenKind::DocComment
             || kind == TokenKind::Comma
             || closing.is_some_and(|c| kind == c)
     }
@@ -431,7 +432,11 @@ impl<'src> CstParser<'src> {
             // In sequences, each element is wrapped in an ENTRY with just a KEY
             self.builder.start_node(SyntaxKind::ENTRY.into());
             self.builder.start_node(SyntaxKind::KEY.into());
-            self.parse_atom();
+            if self.at_attribute() {
+                self.parse_attributes(Some(TokenKind::RParen));
+            } else {
+                self.parse_atom();
+            }
             self.builder.finish_node();
             self.builder.finish_node();
 
-- 
2.43.0


From 7181caf49fa49f7a8ac83e2035cb0d844fb6f72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:03 +0000
Subject: [PATCH 48/86] fix: a quoted key with dots is no duplicate of a dotted
 path

---
 crates/styx-cst/src/validation.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/styx-cst/src/validation.rs b/crates/styx-cst/src/validation.rs
index 883df25..72d5c67 100644
--- a/crates/styx-cst/src/validation.rs
+++ b/crates/styx-cst/src/validation.rs
@@ -111,19 +111,21 @@ fn validate_entries_for_duplicates(
     entries: impl Iterator<Item = Entry>,
     diagnostics: &mut Vec<Diagnostic>,
 ) {
-    let mut seen_keys: HashSet<String> = HashSet::new();
+    let mut seen_keys: HashSet<(String, bool)> = HashSet::new();
 
     for entry in entries {
         if let Some(key) = entry.key() {
             let key_text = key.text_content();
             if !key_text.is_empty() {
-                if seen_keys.contains(&key_text) {
+                // A quoted key with dots is not a dotted path
+                let is_path = key_text.contains('.') && key.raw_text() == key_text;
+                if seen_keys.contains(&(key_text.clone(), is_path)) {
                     diagnostics.push(Diagnostic::warning(
                         key.syntax().text_range(),
                         format!("duplicate key: `{}`", key_text),
                     ));
                 } else {
-                    seen_keys.insert(key_text);
+                    seen_keys.insert((key_text, is_path));
                 }
             }
         }
-- 
2.43.0


From b6715ca67cf88517a6c5d57bbb4ca3fcb3c13860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:35 +0000
Subject: [PATCH 49/86] fix: columns of the language server are UTF-16 units,
 and lines end at \n, \r\n or \r

---
 crates/styx-lsp-ext/src/lib.rs    | 26 ++++++++++----------
 crates/styx-lsp/src/extensions.rs | 41 ++++++++++---------------------
 crates/styx-lsp/src/server.rs     | 24 +++++++++---------
 3 files changed, 39 insertions(+), 52 deletions(-)

diff --git a/crates/styx-lsp-ext/src/lib.rs b/crates/styx-lsp-ext/src/lib.rs
index b8d03b9..ab5c3cd 100644
--- a/crates/styx-lsp-ext/src/lib.rs
+++ b/crates/styx-lsp-ext/src/lib.rs
@@ -149,24 +149,24 @@ impl Position {
 
     /// Convert a byte offset to a position using document content.
     ///
+    /// Lines end with `\n`, `\r\n` or `\r`; characters are UTF-16 code units, as in LSP.
+    ///
     /// This is useful in `diagnostics()` where `DiagnosticParams` includes
     /// the document content, allowing offset→position conversion without
     /// an RPC call back to the host.
     pub fn from_offset(content: &str, offset: u32) -> Self {
-        let offset = offset as usize;
-        if offset > content.len() {
-            // Past end of content - return last position
-            let line = content.chars().filter(|&c| c == '\n').count() as u32;
-            let last_newline = content.rfind('\n').map(|i| i + 1).unwrap_or(0);
-            let character = (content.len() - last_newline) as u32;
-            return Self { line, character };
+        let mut position = Self::new(0, 0);
+        for (i, c) in content.char_indices() {
+            if i >= offset as usize {
+                break;
+            }
+            if c == '\n' || (c == '\r' && !content[i + 1..].starts_with('\n')) {
+                position = Self::new(position.line + 1, 0);
+            } else {
+                position.character += c.len_utf16() as u32;
+            }
         }
-
-        let before = &content[..offset];
-        let line = before.chars().filter(|&c| c == '\n').count() as u32;
-        let last_newline = before.rfind('\n').map(|i| i + 1).unwrap_or(0);
-        let character = (offset - last_newline) as u32;
-        Self { line, character }
+        position
     }
 }
 
diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index 6d46ff3..b3bea70 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -33,13 +33,13 @@ use styx_tree::Value;
 use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
 use tokio::process::{Child, ChildStdin, ChildStdout, Command};
 use tokio::sync::RwLock;
-use tower_lsp::lsp_types::Url;
+use tower_lsp::lsp_types::{Position, Url};
 use tracing::{debug, info, warn};
 use vox_stream::StreamLink;
 
 use crate::config::{self, StyxUserConfig};
 use crate::schema_validation::resolve_schema;
-use crate::server::DocumentMap;
+use crate::server::{self, DocumentMap};
 
 /// A duplex stream combining a child process's stdin and stdout.
 ///
@@ -384,12 +384,12 @@ impl StyxLspHost for StyxLspHostImpl {
             return None;
         }
 
-        let content = &doc.content[..offset];
-        let line = content.chars().filter(|&c| c == '\n').count() as u32;
-        let last_newline = content.rfind('\n').map(|i| i + 1).unwrap_or(0);
-        let character = (offset - last_newline) as u32;
+        let position = server::offset_to_position(&doc.content, offset);
 
-        Some(styx_lsp_ext::Position { line, character })
+        Some(styx_lsp_ext::Position {
+            line: position.line,
+            character: position.character,
+        })
     }
 
     async fn position_to_offset(&self, params: PositionToOffsetParams) -> Option<u32> {
@@ -397,28 +397,13 @@ impl StyxLspHost for StyxLspHostImpl {
         let docs = self.documents.read().await;
         let doc = docs.get(&uri)?;
 
-        let mut offset = 0;
-        let mut current_line = 0;
-
-        for ch in doc.content.chars() {
-            if current_line == params.position.line {
-                for (char_offset, c) in doc.content[offset..].chars().enumerate() {
-                    if char_offset == params.position.character as usize {
-                        return Some(offset as u32);
-                    }
-                    if c == '\n' {
-                        break;
-                    }
-                    offset += c.len_utf8();
-                }
-                return Some(offset as u32);
-            }
-            if ch == '\n' {
-                current_line += 1;
-            }
-            offset += ch.len_utf8();
+        // There is nothing at a line that the document does not have
+        let last = server::offset_to_position(&doc.content, doc.content.len());
+        if params.position.line > last.line {
+            return None;
         }
 
-        None
+        let position = Position::new(params.position.line, params.position.character);
+        Some(server::position_to_offset(&doc.content, position) as u32)
     }
 }
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 7531a36..44db329 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -2151,7 +2151,9 @@ fn find_schema_declaration_range(tree: &Value, content: &str) -> Option<Range> {
 }
 
 /// Convert byte offset to LSP Position
-fn offset_to_position(content: &str, offset: usize) -> Position {
+///
+/// Lines end with `\n`, `\r\n` or `\r`; characters are counted in UTF-16 code units.
+pub(crate) fn offset_to_position(content: &str, offset: usize) -> Position {
     let mut line = 0u32;
     let mut col = 0u32;
 
@@ -2159,11 +2161,11 @@ fn offset_to_position(content: &str, offset: usize) -> Position {
         if i >= offset {
             break;
         }
-        if ch == '\n' {
+        if ch == '\n' || (ch == '\r' && !content[i + 1..].starts_with('\n')) {
             line += 1;
             col = 0;
         } else {
-            col += 1;
+            col += ch.len_utf16() as u32;
         }
     }
 
@@ -2171,23 +2173,23 @@ fn offset_to_position(content: &str, offset: usize) -> Position {
 }
 
 /// Convert LSP Position to byte offset
-fn position_to_offset(content: &str, position: Position) -> usize {
+///
+/// A position past the end of its line is the end of the line.
+pub(crate) fn position_to_offset(content: &str, position: Position) -> usize {
     let mut current_line = 0u32;
     let mut current_col = 0u32;
 
     for (i, ch) in content.char_indices() {
-        if current_line == position.line && current_col == position.character {
+        if current_line == position.line
+            && (ch == '\n' || ch == '\r' || current_col >= position.character)
+        {
             return i;
         }
-        if ch == '\n' {
-            if current_line == position.line {
-                // Position is past end of line
-                return i;
-            }
+        if ch == '\n' || (ch == '\r' && !content[i + 1..].starts_with('\n')) {
             current_line += 1;
             current_col = 0;
         } else {
-            current_col += 1;
+            current_col += ch.len_utf16() as u32;
         }
     }
 
-- 
2.43.0


From a5025e7d511c535efa90a9dbe01f0501596319b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:36 +0000
Subject: [PATCH 50/86] fix: the word under the cursor after multi-byte white
 space panicked

---
 crates/styx-lsp/src/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 44db329..1d6d192 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -2998,8 +2998,9 @@ fn get_word_range_at_position(content: &str, position: Position) -> Option<(Stri
     // Find the start of the current word by scanning backwards
     let before = &content[..offset];
     let word_start = before
-        .rfind(|c: char| c.is_whitespace() || c == '{' || c == '}')
-        .map(|i| i + 1)
+        .char_indices()
+        .rfind(|(_, c)| c.is_whitespace() || *c == '{' || *c == '}')
+        .map(|(i, c)| i + c.len_utf8())
         .unwrap_or(0);
 
     let word = &before[word_start..];
-- 
2.43.0


From 7ed3bfeca20d29b731725818c4fb7088f4005ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:36 +0000
Subject: [PATCH 51/86] fix: formatting replaces the whole document

---
 crates/styx-lsp/src/server.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 1d6d192..cca6c8b 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -1896,20 +1896,10 @@ impl LanguageServer for StyxLanguageServer {
         }
 
         // Replace the entire document
-        let lines: Vec<&str> = doc.content.lines().collect();
-        let last_line = lines.len().saturating_sub(1);
-        let last_char = lines.last().map(|l| l.len()).unwrap_or(0);
-
         Ok(Some(vec![TextEdit {
             range: Range {
-                start: Position {
-                    line: 0,
-                    character: 0,
-                },
-                end: Position {
-                    line: last_line as u32,
-                    character: last_char as u32,
-                },
+                start: Position::new(0, 0),
+                end: offset_to_position(&doc.content, doc.content.len()),
             },
             new_text: formatted,
         }]))
-- 
2.43.0


From 56e1fe94a861414436bac438c680f87aab4848c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:36 +0000
Subject: [PATCH 52/86] fix: semantic tokens of comments and attributes in
 sequences and of payloads; tokens within one line, in UTF-16 units

---
 crates/styx-lsp/src/semantic_tokens.rs | 84 +++++++++++++++-----------
 1 file changed, 50 insertions(+), 34 deletions(-)

diff --git a/crates/styx-lsp/src/semantic_tokens.rs b/crates/styx-lsp/src/semantic_tokens.rs
index c062977..b0e5da5 100644
--- a/crates/styx-lsp/src/semantic_tokens.rs
+++ b/crates/styx-lsp/src/semantic_tokens.rs
@@ -3,6 +3,8 @@
 use styx_cst::{Parse, SyntaxKind, SyntaxNode, SyntaxToken};
 use tower_lsp::lsp_types::*;
 
+use crate::server::offset_to_position;
+
 /// Semantic token types we support
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 #[repr(u32)]
@@ -164,7 +166,8 @@ fn walk_node_for_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>, ctx: W
                 } else if let Some(child_node) = child.as_node()
                     && child_node.kind() == SyntaxKind::TAG_PAYLOAD
                 {
-                    walk_node_for_spans(child_node, spans, ctx);
+                    // The payload of an element of a sequence is not an element
+                    walk_node_for_spans(child_node, spans, WalkContext::default());
                 }
             }
         }
@@ -173,6 +176,11 @@ fn walk_node_for_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>, ctx: W
             for child in node.children_with_tokens() {
                 if let Some(child_node) = child.as_node() {
                     walk_node_for_spans(child_node, spans, seq_ctx);
+                } else if let Some(token) = child.as_token()
+                    && is_comment_token(token.kind())
+                {
+                    let is_doc_comment = token.kind() == SyntaxKind::DOC_COMMENT;
+                    add_span_from_syntax(spans, token, TokenType::Comment, is_doc_comment);
                 }
             }
         }
@@ -214,6 +222,8 @@ fn walk_node_for_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>, ctx: W
                 if let Some(token) = child.as_token() {
                     if token.kind() == SyntaxKind::GT {
                         add_span_from_syntax(spans, token, TokenType::Operator, false);
+                    } else if is_scalar_token(token.kind()) {
+                        add_span_from_syntax(spans, token, TokenType::Property, false);
                     }
                 } else if let Some(child_node) = child.as_node() {
                     if child_node.kind() == SyntaxKind::KEY {
@@ -266,6 +276,8 @@ fn collect_key_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>) {
                             && token.kind() == SyntaxKind::TAG_TOKEN
                         {
                             add_span_from_syntax(spans, token, TokenType::Property, false);
+                        } else if let Some(payload) = t.as_node() {
+                            walk_node_for_spans(payload, spans, WalkContext::default());
                         }
                     }
                 }
@@ -279,7 +291,7 @@ fn collect_key_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>) {
                         }
                     }
                 }
-                _ => {}
+                _ => walk_node_for_spans(child_node, spans, WalkContext::default()),
             }
         }
     }
@@ -318,7 +330,7 @@ fn collect_key_spans_as_values(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>
                 SyntaxKind::OBJECT => {
                     walk_node_for_spans(child_node, spans, WalkContext::default());
                 }
-                _ => {}
+                _ => walk_node_for_spans(child_node, spans, WalkContext::default()),
             }
         }
     }
@@ -365,8 +377,8 @@ fn walk_node(node: &SyntaxNode, content: &str, tokens: &mut Vec<RawToken>, ctx:
                 } else if let Some(child_node) = child.as_node()
                     && child_node.kind() == SyntaxKind::TAG_PAYLOAD
                 {
-                    // Recurse into payload
-                    walk_node(child_node, content, tokens, ctx);
+                    // Recurse into payload: it is not an element of a sequence
+                    walk_node(child_node, content, tokens, WalkContext::default());
                 }
             }
         }
@@ -376,6 +388,15 @@ fn walk_node(node: &SyntaxNode, content: &str, tokens: &mut Vec<RawToken>, ctx:
             for child in node.children_with_tokens() {
                 if let Some(child_node) = child.as_node() {
                     walk_node(child_node, content, tokens, seq_ctx);
+                } else if let Some(token) = child.as_token()
+                    && is_comment_token(token.kind())
+                {
+                    let modifiers = if token.kind() == SyntaxKind::DOC_COMMENT {
+                        1 << TokenModifier::Documentation as u32
+                    } else {
+                        0
+                    };
+                    add_token_from_syntax(tokens, content, token, TokenType::Comment, modifiers);
                 }
             }
         }
@@ -493,10 +514,12 @@ fn collect_key_tokens(node: &SyntaxNode, content: &str, tokens: &mut Vec<RawToke
                             && token.kind() == SyntaxKind::TAG_TOKEN
                         {
                             add_token_from_syntax(tokens, content, token, TokenType::Property, 0);
+                        } else if let Some(payload) = tag_child.as_node() {
+                            walk_node(payload, content, tokens, WalkContext::default());
                         }
                     }
                 }
-                _ => {}
+                _ => walk_node(child_node, content, tokens, WalkContext::default()),
             }
         }
     }
@@ -549,12 +572,17 @@ fn collect_key_tokens_as_values(node: &SyntaxNode, content: &str, tokens: &mut V
                     // Objects should use regular object context (keys are properties)
                     walk_node(child_node, content, tokens, WalkContext::default());
                 }
-                _ => {}
+                _ => walk_node(child_node, content, tokens, WalkContext::default()),
             }
         }
     }
 }
 
+/// Check if a syntax kind is a comment token
+fn is_comment_token(kind: SyntaxKind) -> bool {
+    matches!(kind, SyntaxKind::LINE_COMMENT | SyntaxKind::DOC_COMMENT)
+}
+
 /// Check if a syntax kind is a scalar token
 fn is_scalar_token(kind: SyntaxKind) -> bool {
     matches!(
@@ -573,36 +601,24 @@ fn add_token_from_syntax(
 ) {
     let start: usize = token.text_range().start().into();
     let end: usize = token.text_range().end().into();
-    let (line, start_char) = offset_to_line_col(content, start);
-    let length = (end - start) as u32;
 
-    tokens.push(RawToken {
-        line,
-        start_char,
-        length,
-        token_type,
-        modifiers,
-    });
-}
-
-/// Convert byte offset to (line, column)
-fn offset_to_line_col(content: &str, offset: usize) -> (u32, u32) {
-    let mut line = 0u32;
-    let mut col = 0u32;
-
-    for (i, ch) in content.char_indices() {
-        if i >= offset {
-            break;
-        }
-        if ch == '\n' {
-            line += 1;
-            col = 0;
-        } else {
-            col += 1;
+    // Clients expect tokens within one line: split the others
+    let mut at = start;
+    while at < end {
+        let rest = &content[at..end];
+        let text = rest.split(['\n', '\r']).next().unwrap_or(rest);
+        if !text.is_empty() {
+            let position = offset_to_position(content, at);
+            tokens.push(RawToken {
+                line: position.line,
+                start_char: position.character,
+                length: text.encode_utf16().count() as u32,
+                token_type,
+                modifiers,
+            });
         }
+        at += text.len() + 1;
     }
-
-    (line, col)
 }
 
 /// Encode raw tokens as LSP semantic tokens (delta-encoded)
-- 
2.43.0


From 1e375f54d12f5367b3c84a96d1d58836c2cfadc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:40 +0000
Subject: [PATCH 53/86] fix: a document is told when its schema cannot be read

---
 crates/styx-lsp/src/server.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index cca6c8b..77d6f45 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -13,7 +13,7 @@ use tower_lsp::{Client, LanguageServer, LspService, Server};
 use crate::extensions::{ExtensionManager, ExtensionResult, get_extension_info};
 use crate::schema_hints::find_matching_hint;
 use crate::schema_validation::{
-    find_object_at_offset, find_schema_declaration, find_tagged_context_at_offset,
+    SchemaRef, find_object_at_offset, find_schema_declaration, find_tagged_context_at_offset,
     get_document_fields, get_error_span, get_schema_fields, get_schema_fields_at_path,
     load_document_schema, resolve_schema, validate_against_schema,
 };
@@ -368,15 +368,18 @@ impl StyxLanguageServer {
         // Phase 3: Schema validation
         if let Some(tree) = tree {
             // Only validate if there's a schema declaration
-            if let Ok(schema) = resolve_schema(tree, uri) {
+            if find_schema_declaration(tree).is_some_and(|r| !matches!(r, SchemaRef::None)) {
                 // Create related_information linking to schema
-                let schema_location = Some(DiagnosticRelatedInformation {
-                    location: Location {
-                        uri: schema.uri.clone(),
-                        range: Range::default(),
-                    },
-                    message: format!("schema: {}", schema.uri),
-                });
+                let schema_location =
+                    resolve_schema(tree, uri)
+                        .ok()
+                        .map(|schema| DiagnosticRelatedInformation {
+                            message: format!("schema: {}", schema.uri),
+                            location: Location {
+                                uri: schema.uri,
+                                range: Range::default(),
+                            },
+                        });
 
                 match validate_against_schema(tree, uri) {
                     Ok(result) => {
-- 
2.43.0


From c820b81c157bcaeb722e54c5a46dd3e01e6e5aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:47 +0000
Subject: [PATCH 54/86] fix: validate sibling dotted paths as one object

---
 crates/facet-styx/src/schema_validate.rs | 41 ++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index a5df661..4799cfa 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -86,7 +86,7 @@ impl<'a> Validator<'a> {
     pub fn validate_document(&self, doc: &Value) -> ValidationResult {
         // Look up the root schema (key None = unit/@)
         match self.schema_file.schema.get(&None) {
-            Some(root_schema) => self.validate_value(doc, root_schema, ""),
+            Some(root_schema) => self.validate_value(&join_dotted(doc), root_schema, ""),
             None => {
                 let mut result = ValidationResult::ok();
                 result.error(
@@ -107,7 +107,7 @@ impl<'a> Validator<'a> {
     /// Validate a value against a specific named type.
     pub fn validate_as_type(&self, value: &Value, type_name: &str) -> ValidationResult {
         match self.schema_file.schema.get(&Some(type_name.to_string())) {
-            Some(schema) => self.validate_value(value, schema, ""),
+            Some(schema) => self.validate_value(&join_dotted(value), schema, ""),
             None => {
                 let mut result = ValidationResult::ok();
                 result.error(
@@ -1272,6 +1272,43 @@ fn is_json_number(text: &str) -> bool {
         && exponent.is_none_or(|e| digits(e.strip_prefix(['+', '-']).unwrap_or(e)))
 }
 
+/// Copy a value, making one entry of sibling dotted paths: `a.b 1` and `a.c 2` are
+/// entries with the same key, whose objects belong together.
+fn join_dotted(value: &Value) -> Value {
+    fn join(value: &mut Value) {
+        match &mut value.payload {
+            Some(Payload::Object(obj)) => {
+                obj.entries.dedup_by(|next, entry| {
+                    if entry.key.as_str().is_none()
+                        || entry.key.as_str() != next.key.as_str()
+                        || entry.value.tag.is_some()
+                        || next.value.tag.is_some()
+                    {
+                        return false;
+                    }
+                    let (Some(Payload::Object(first)), Some(Payload::Object(more))) =
+                        (&mut entry.value.payload, &mut next.value.payload)
+                    else {
+                        return false;
+                    };
+                    first.entries.append(&mut more.entries);
+                    if let (Some(span), Some(end)) = (&mut entry.value.span, next.value.span) {
+                        span.end = end.end;
+                    }
+                    true
+                });
+                obj.entries.iter_mut().for_each(|e| join(&mut e.value));
+            }
+            Some(Payload::Sequence(seq)) => seq.items.iter_mut().for_each(join),
+            Some(Payload::Scalar(_)) | None => {}
+        }
+    }
+
+    let mut value = value.clone();
+    join(&mut value);
+    value
+}
+
 /// Get a human-readable name for a value type.
 fn value_type_name(value: &Value) -> &'static str {
     if value.is_unit() {
-- 
2.43.0


From 77ac9844ff61b7dd00f2b739cbb37674ebdc04c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:47 +0000
Subject: [PATCH 55/86] fix: read sibling dotted paths into one value

---
 crates/facet-styx/src/parser.rs | 103 +++++++++++++++++++++++++++++++-
 1 file changed, 102 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/parser.rs b/crates/facet-styx/src/parser.rs
index 9837d33..39fdafb 100644
--- a/crates/facet-styx/src/parser.rs
+++ b/crates/facet-styx/src/parser.rs
@@ -6,6 +6,7 @@
 //! is applied before deserialization.
 
 use std::borrow::Cow;
+use std::collections::VecDeque;
 
 use crate::trace;
 use facet_core::Facet;
@@ -23,10 +24,17 @@ mod inner {
     ///
     /// This ensures error handling happens in ONE place instead of being scattered
     /// across multiple match arms.
+    ///
+    /// It also makes one entry of sibling dotted paths: for `a.b 1` and `a.c 2` the
+    /// parser gives two entries `a`, whose objects belong together.
     #[derive(Clone)]
     pub struct InnerParser<'de> {
         inner: Parser<'de>,
         input: &'de str,
+        /// Events read ahead.
+        ahead: VecDeque<Event<'de>>,
+        /// The keys of the entries around the current position, if they are plain.
+        keys: Vec<Option<Cow<'de, str>>>,
     }
 
     impl<'de> InnerParser<'de> {
@@ -34,6 +42,8 @@ mod inner {
             Self {
                 inner: Parser::new(input),
                 input,
+                ahead: VecDeque::new(),
+                keys: Vec::new(),
             }
         }
 
@@ -41,6 +51,8 @@ mod inner {
             Self {
                 inner: Parser::new_expr(input),
                 input,
+                ahead: VecDeque::new(),
+                keys: Vec::new(),
             }
         }
 
@@ -63,7 +75,7 @@ mod inner {
         }
 
         pub fn next_event(&mut self) -> Result<Option<Event<'de>>, ParseError> {
-            let next_ev = self.inner.next_event();
+            let next_ev = self.next_joined();
             trace!(?next_ev, "inner_wrapper");
 
             match next_ev {
@@ -75,6 +87,95 @@ mod inner {
                 None => Ok(None),
             }
         }
+
+        /// The next event, without the end of an object that the next entry goes on with.
+        fn next_joined(&mut self) -> Option<Event<'de>> {
+            loop {
+                let event = match self.ahead.pop_front() {
+                    Some(event) => event,
+                    None => self.inner.next_event()?,
+                };
+                match &event.kind {
+                    EventKind::Key { tag, payload, .. } => {
+                        self.keys.push(payload.clone().filter(|_| tag.is_none()))
+                    }
+                    EventKind::EntryEnd => {
+                        self.keys.pop();
+                    }
+                    EventKind::ObjectEnd if self.skip_to_sibling() => continue,
+                    _ => {}
+                }
+                return Some(event);
+            }
+        }
+
+        /// Read ahead to the event at `position`, over comments.
+        fn look_ahead(&mut self, position: &mut usize) -> Option<&EventKind<'de>> {
+            loop {
+                if *position == self.ahead.len() {
+                    self.ahead.push_back(self.inner.next_event()?);
+                }
+                *position += 1;
+                if !is_comment(&self.ahead[*position - 1]) {
+                    return Some(&self.ahead[*position - 1].kind);
+                }
+            }
+        }
+
+        /// At the end of an object: if the entries that end here are followed by an entry
+        /// that leads back into the object by the same keys, go on inside the object.
+        fn skip_to_sibling(&mut self) -> bool {
+            let mut position = 0;
+            let mut depth = 1;
+            loop {
+                if !matches!(self.look_ahead(&mut position), Some(EventKind::EntryEnd)) {
+                    return false;
+                }
+                match self.look_ahead(&mut position) {
+                    Some(EventKind::ObjectEnd) => depth += 1,
+                    Some(EventKind::EntryStart) => break,
+                    _ => return false,
+                }
+            }
+            if depth > self.keys.len() {
+                return false;
+            }
+            for level in self.keys.len() - depth..self.keys.len() {
+                let Some(current) = self.keys[level].clone() else {
+                    return false;
+                };
+                match self.look_ahead(&mut position) {
+                    Some(EventKind::Key {
+                        tag: None,
+                        payload: Some(name),
+                        ..
+                    }) if *name == current => {}
+                    _ => return false,
+                }
+                if !matches!(self.look_ahead(&mut position), Some(EventKind::ObjectStart)) {
+                    return false;
+                }
+                if level + 1 < self.keys.len()
+                    && !matches!(self.look_ahead(&mut position), Some(EventKind::EntryStart))
+                {
+                    return false;
+                }
+            }
+            // Comments between the entries stay
+            let mut index = 0;
+            self.ahead.retain(|event| {
+                index += 1;
+                index > position || is_comment(event)
+            });
+            true
+        }
+    }
+
+    fn is_comment(event: &Event<'_>) -> bool {
+        matches!(
+            event.kind,
+            EventKind::Comment { .. } | EventKind::DocComment { .. }
+        )
     }
 }
 
-- 
2.43.0


From 1c637d6f8f4e39419b8dbeb5c4b32029523a776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:38 +0000
Subject: [PATCH 56/86] fix: read a document without entries as an empty object

---
 crates/facet-styx/src/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/parser.rs b/crates/facet-styx/src/parser.rs
index 39fdafb..d077bcc 100644
--- a/crates/facet-styx/src/parser.rs
+++ b/crates/facet-styx/src/parser.rs
@@ -371,7 +371,14 @@ impl<'de> StyxParser<'de> {
 
             EventKind::DocumentEnd => {
                 if self.at_implicit_root {
-                    Ok(None)
+                    // A document without entries is an object without entries
+                    self.current_span = Some(span);
+                    self.at_implicit_root = false;
+                    self.peeked_events
+                        .push(self.event(ParseEventKind::StructEnd));
+                    Ok(Some(
+                        self.event(ParseEventKind::StructStart(ContainerKind::Object)),
+                    ))
                 } else {
                     // Expression mode - no implicit root, skip DocumentEnd
                     Ok(None)
-- 
2.43.0


From 0cb7460706314218d79013bf24c314481888752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:57 +0000
Subject: [PATCH 57/86] fix: serde: consume the end of tuples

---
 crates/serde_styx/src/de.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 8527351..3383668 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -394,7 +394,16 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
         if token.kind != TokenKind::LParen {
             return Err(self.error("expected sequence ("));
         }
-        visitor.visit_seq(SeqAccess { de: self })
+        let mut seq = SeqAccess {
+            de: self,
+            closed: false,
+        };
+        let value = visitor.visit_seq(&mut seq)?;
+        // Visitors of tuples stop at the last element they expect
+        if !seq.closed && self.next_token().kind != TokenKind::RParen {
+            return Err(self.error("expected end of sequence )"));
+        }
+        Ok(value)
     }
 
     fn deserialize_tuple<V: Visitor<'de>>(self, _len: usize, visitor: V) -> Result<V::Value> {
@@ -546,6 +555,8 @@ impl<'de> Deserializer<'de> {
 /// Sequence access for serde.
 struct SeqAccess<'a, 'de> {
     de: &'a mut Deserializer<'de>,
+    /// Whether the closing parenthesis has been consumed.
+    closed: bool,
 }
 
 impl<'a, 'de> de::SeqAccess<'de> for SeqAccess<'a, 'de> {
@@ -560,6 +571,7 @@ impl<'a, 'de> de::SeqAccess<'de> for SeqAccess<'a, 'de> {
         if let Some(token) = self.de.peek_token() {
             if token.kind == TokenKind::RParen {
                 self.de.next_token();
+                self.closed = true;
                 return Ok(None);
             }
             if token.kind == TokenKind::Eof {
-- 
2.43.0


From 555b25aa54a9dc179704a8712c0a0a798d940441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:46 +0000
Subject: [PATCH 58/86] fix: serde: read enum variants, which are tags

---
 crates/serde_styx/src/de.rs | 44 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 3383668..d4f4c5a 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -140,6 +140,13 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
             Some(token) => match token.kind {
                 TokenKind::LBrace => self.deserialize_map(visitor),
                 TokenKind::LParen => self.deserialize_seq(visitor),
+                TokenKind::Tag => {
+                    let token = self.next_token();
+                    visitor.visit_enum(EnumAccess {
+                        de: self,
+                        variant: &token.text[1..],
+                    })
+                }
                 TokenKind::At => {
                     self.next_token();
                     // Check if it's a tag or unit
@@ -456,7 +463,12 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
         visitor: V,
     ) -> Result<V::Value> {
         let token = self.next_token();
-        if token.kind == TokenKind::At {
+        if token.kind == TokenKind::Tag {
+            visitor.visit_enum(EnumAccess {
+                de: self,
+                variant: &token.text[1..],
+            })
+        } else if token.kind == TokenKind::At {
             // Tagged enum
             let name_token = self.next_token();
             if name_token.kind != TokenKind::BareScalar {
@@ -497,6 +509,19 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
 }
 
 impl<'de> Deserializer<'de> {
+    /// Whether the tag just consumed has a payload, which follows it immediately.
+    fn has_payload(&mut self) -> bool {
+        let end = self.current_span.map(|span| span.end);
+        self.peek_token().is_some_and(|next| {
+            Some(next.span.start) == end
+                && (next.kind.is_scalar_start()
+                    || matches!(
+                        next.kind,
+                        TokenKind::At | TokenKind::LBrace | TokenKind::LParen
+                    ))
+        })
+    }
+
     fn skip_value(&mut self) -> Result<()> {
         let token = self.next_token();
         match token.kind {
@@ -524,6 +549,11 @@ impl<'de> Deserializer<'de> {
                     }
                 }
             }
+            TokenKind::Tag => {
+                if self.has_payload() {
+                    self.skip_value()?;
+                }
+            }
             TokenKind::At => {
                 // Could be unit or tag with value
                 if let Some(next) = self.peek_token()
@@ -658,6 +688,9 @@ impl<'a, 'de> de::VariantAccess<'de> for VariantAccess<'a, 'de> {
     type Error = Error;
 
     fn unit_variant(self) -> Result<()> {
+        if self.de.has_payload() {
+            de::Deserializer::deserialize_unit(self.de, de::IgnoredAny)?;
+        }
         Ok(())
     }
 
@@ -665,6 +698,9 @@ impl<'a, 'de> de::VariantAccess<'de> for VariantAccess<'a, 'de> {
     where
         T: de::DeserializeSeed<'de>,
     {
+        if !self.de.has_payload() {
+            return Err(self.de.error("expected payload of variant"));
+        }
         seed.deserialize(self.de)
     }
 
@@ -672,6 +708,9 @@ impl<'a, 'de> de::VariantAccess<'de> for VariantAccess<'a, 'de> {
     where
         V: Visitor<'de>,
     {
+        if !self.de.has_payload() {
+            return Err(self.de.error("expected payload of variant"));
+        }
         de::Deserializer::deserialize_seq(self.de, visitor)
     }
 
@@ -679,6 +718,9 @@ impl<'a, 'de> de::VariantAccess<'de> for VariantAccess<'a, 'de> {
     where
         V: Visitor<'de>,
     {
+        if !self.de.has_payload() {
+            return Err(self.de.error("expected payload of variant"));
+        }
         de::Deserializer::deserialize_map(self.de, visitor)
     }
 }
-- 
2.43.0


From 702bc095046c99e62a134eae63b6aecabac93879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:32 +0000
Subject: [PATCH 59/86] fix: serde: read scalars by their text, however they
 are written

---
 crates/serde_styx/src/de.rs | 116 ++++++++++++++++--------------------
 1 file changed, 52 insertions(+), 64 deletions(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index d4f4c5a..2863046 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -1,5 +1,7 @@
 //! Serde deserializer for Styx.
 
+use std::borrow::Cow;
+
 use serde::de::{self, Visitor};
 use styx_parse::{ScalarKind, Span, Token, TokenKind, Tokenizer};
 
@@ -115,6 +117,33 @@ impl<'de> Deserializer<'de> {
         styx_format::unescape_quoted(inner).into_owned()
     }
 
+    /// Consume a scalar and return its text, whichever way it is written.
+    fn scalar_text(&mut self) -> Result<Cow<'de, str>> {
+        let token = self.next_token();
+        match token.kind {
+            TokenKind::BareScalar => Ok(Cow::Borrowed(token.text)),
+            TokenKind::QuotedScalar => Ok(Cow::Owned(self.unescape_quoted(token.text))),
+            TokenKind::RawScalar => {
+                let text = token.text;
+                let start = text.find('"').map(|i| i + 1).unwrap_or(0);
+                let end = text.rfind('"').unwrap_or(text.len());
+                Ok(Cow::Borrowed(&text[start..end]))
+            }
+            TokenKind::HeredocStart => {
+                let mut content = String::new();
+                loop {
+                    let next = self.next_token();
+                    match next.kind {
+                        TokenKind::HeredocContent => content.push_str(next.text),
+                        _ => break,
+                    }
+                }
+                Ok(Cow::Owned(content))
+            }
+            _ => Err(self.error(format!("expected scalar, got {:?}", token.text))),
+        }
+    }
+
     fn error(&self, msg: impl Into<String>) -> Error {
         Error::new(msg)
     }
@@ -177,31 +206,8 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
                         ScalarValue::String(s) => visitor.visit_string(s),
                     }
                 }
-                TokenKind::QuotedScalar => {
-                    let token = self.next_token();
-                    let s = self.unescape_quoted(token.text);
-                    visitor.visit_string(s)
-                }
-                TokenKind::RawScalar => {
-                    let token = self.next_token();
-                    // Extract content from r#"..."#
-                    let text = token.text;
-                    let start = text.find('"').map(|i| i + 1).unwrap_or(0);
-                    let end = text.rfind('"').unwrap_or(text.len());
-                    visitor.visit_borrowed_str(&text[start..end])
-                }
-                TokenKind::HeredocStart => {
-                    self.next_token();
-                    let mut content = String::new();
-                    loop {
-                        let next = self.next_token();
-                        match next.kind {
-                            TokenKind::HeredocContent => content.push_str(next.text),
-                            TokenKind::HeredocEnd => break,
-                            _ => break,
-                        }
-                    }
-                    visitor.visit_string(content)
+                TokenKind::QuotedScalar | TokenKind::RawScalar | TokenKind::HeredocStart => {
+                    self.deserialize_str(visitor)
                 }
                 TokenKind::Eof => {
                     // At EOF, try to deserialize as empty struct if at root
@@ -227,11 +233,11 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_bool<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        match token.text {
+        let text = self.scalar_text()?;
+        match &*text {
             "true" => visitor.visit_bool(true),
             "false" => visitor.visit_bool(false),
-            _ => Err(self.error(format!("expected bool, got {:?}", token.text))),
+            _ => Err(self.error(format!("expected bool, got {text:?}"))),
         }
     }
 
@@ -248,11 +254,10 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_i64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let n: i64 = token
-            .text
+        let text = self.scalar_text()?;
+        let n: i64 = text
             .parse()
-            .map_err(|_| self.error(format!("expected integer, got {:?}", token.text)))?;
+            .map_err(|_| self.error(format!("expected integer, got {text:?}")))?;
         visitor.visit_i64(n)
     }
 
@@ -269,11 +274,10 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_u64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let n: u64 = token
-            .text
+        let text = self.scalar_text()?;
+        let n: u64 = text
             .parse()
-            .map_err(|_| self.error(format!("expected unsigned integer, got {:?}", token.text)))?;
+            .map_err(|_| self.error(format!("expected unsigned integer, got {text:?}")))?;
         visitor.visit_u64(n)
     }
 
@@ -282,42 +286,26 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_f64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let n: f64 = token
-            .text
+        let text = self.scalar_text()?;
+        let n: f64 = text
             .parse()
-            .map_err(|_| self.error(format!("expected float, got {:?}", token.text)))?;
+            .map_err(|_| self.error(format!("expected float, got {text:?}")))?;
         visitor.visit_f64(n)
     }
 
     fn deserialize_char<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let s = if token.kind == TokenKind::QuotedScalar {
-            self.unescape_quoted(token.text)
-        } else {
-            token.text.to_string()
-        };
-        let c = s
-            .chars()
-            .next()
-            .ok_or_else(|| self.error("expected char"))?;
-        visitor.visit_char(c)
+        let text = self.scalar_text()?;
+        let mut chars = text.chars();
+        match (chars.next(), chars.next()) {
+            (Some(c), None) => visitor.visit_char(c),
+            _ => Err(self.error(format!("expected char, got {text:?}"))),
+        }
     }
 
     fn deserialize_str<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        match token.kind {
-            TokenKind::QuotedScalar => {
-                let s = self.unescape_quoted(token.text);
-                visitor.visit_string(s)
-            }
-            TokenKind::RawScalar => {
-                let text = token.text;
-                let start = text.find('"').map(|i| i + 1).unwrap_or(0);
-                let end = text.rfind('"').unwrap_or(text.len());
-                visitor.visit_borrowed_str(&text[start..end])
-            }
-            _ => visitor.visit_borrowed_str(token.text),
+        match self.scalar_text()? {
+            Cow::Borrowed(text) => visitor.visit_borrowed_str(text),
+            Cow::Owned(text) => visitor.visit_string(text),
         }
     }
 
-- 
2.43.0


From 28f803a43a6f6129c62ec1e16f76cff0e882379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:32 +0000
Subject: [PATCH 60/86] fix: serde: skip heredocs of unknown fields

---
 crates/serde_styx/src/de.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 2863046..51490b7 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -562,6 +562,12 @@ impl<'de> Deserializer<'de> {
                     }
                 }
             }
+            TokenKind::HeredocStart => loop {
+                let t = self.next_token();
+                if t.kind != TokenKind::HeredocContent {
+                    break;
+                }
+            },
             _ => {
                 // Scalar - already consumed
             }
-- 
2.43.0


From d6a6c7e00ed7a9a1314c04f2572e3a217fc02c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:59 +0000
Subject: [PATCH 61/86] fix: serde: an object is written in braces unless it is
 the document

---
 crates/serde_styx/src/de.rs | 42 +++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 51490b7..267e15a 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -212,8 +212,7 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
                 TokenKind::Eof => {
                     // At EOF, try to deserialize as empty struct if at root
                     if !self.root_started {
-                        self.root_started = true;
-                        visitor.visit_map(MapAccess { de: self })
+                        self.deserialize_map(visitor)
                     } else {
                         Err(self.error("unexpected end of input"))
                     }
@@ -221,8 +220,7 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
                 _ => {
                     // At root level, start implicit struct
                     if !self.root_started {
-                        self.root_started = true;
-                        visitor.visit_map(MapAccess { de: self })
+                        self.deserialize_map(visitor)
                     } else {
                         Err(self.error(format!("unexpected token: {:?}", token.kind)))
                     }
@@ -415,12 +413,17 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        if let Some(token) = self.peek_token()
-            && token.kind == TokenKind::LBrace
-        {
+        let braced = self
+            .peek_token()
+            .is_some_and(|token| token.kind == TokenKind::LBrace);
+        if braced {
             self.next_token();
+        } else if self.root_started {
+            return Err(self.error("expected object {"));
         }
-        visitor.visit_map(MapAccess { de: self })
+        // Only the document itself can do without braces
+        self.root_started = true;
+        visitor.visit_map(MapAccess { de: self, braced })
     }
 
     fn deserialize_struct<V: Visitor<'de>>(
@@ -429,19 +432,7 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
         _fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value> {
-        // Check if we're at root level (no braces) or explicit struct
-        if let Some(token) = self.peek_token()
-            && token.kind == TokenKind::LBrace
-        {
-            self.next_token();
-            return visitor.visit_map(MapAccess { de: self });
-        }
-
-        // Implicit root struct
-        if !self.root_started {
-            self.root_started = true;
-        }
-        visitor.visit_map(MapAccess { de: self })
+        self.deserialize_map(visitor)
     }
 
     fn deserialize_enum<V: Visitor<'de>>(
@@ -610,6 +601,8 @@ impl<'a, 'de> de::SeqAccess<'de> for SeqAccess<'a, 'de> {
 /// Map access for serde.
 struct MapAccess<'a, 'de> {
     de: &'a mut Deserializer<'de>,
+    /// Whether the object is written in braces.
+    braced: bool,
 }
 
 impl<'a, 'de> de::MapAccess<'de> for MapAccess<'a, 'de> {
@@ -623,13 +616,16 @@ impl<'a, 'de> de::MapAccess<'de> for MapAccess<'a, 'de> {
 
         let token_kind = self.de.peek_token().map(|t| t.kind);
         match token_kind {
-            Some(TokenKind::RBrace) => {
+            Some(TokenKind::RBrace) if self.braced => {
                 self.de.next_token();
                 return Ok(None);
             }
-            Some(TokenKind::Eof) | None => {
+            Some(TokenKind::Eof) | None if !self.braced => {
                 return Ok(None);
             }
+            Some(TokenKind::Eof) | None => {
+                return Err(self.de.error("unexpected end of object"));
+            }
             Some(TokenKind::BareScalar) | Some(TokenKind::QuotedScalar) => {
                 // This is a key
             }
-- 
2.43.0


From 9182649d5b5925c864bb0df35ed2e21886c43037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:03 +0000
Subject: [PATCH 62/86] fix: serde: skip just the unit of unknown fields

---
 crates/serde_styx/src/de.rs | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 267e15a..8b842da 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -533,26 +533,6 @@ impl<'de> Deserializer<'de> {
                     self.skip_value()?;
                 }
             }
-            TokenKind::At => {
-                // Could be unit or tag with value
-                if let Some(next) = self.peek_token()
-                    && next.kind == TokenKind::BareScalar
-                {
-                    self.next_token();
-                    // Check for payload
-                    if let Some(next) = self.peek_token()
-                        && !matches!(
-                            next.kind,
-                            TokenKind::RBrace
-                                | TokenKind::RParen
-                                | TokenKind::Comma
-                                | TokenKind::Eof
-                        )
-                    {
-                        self.skip_value()?;
-                    }
-                }
-            }
             TokenKind::HeredocStart => loop {
                 let t = self.next_token();
                 if t.kind != TokenKind::HeredocContent {
@@ -560,7 +540,7 @@ impl<'de> Deserializer<'de> {
                 }
             },
             _ => {
-                // Scalar - already consumed
+                // Scalar or unit - already consumed
             }
         }
         Ok(())
-- 
2.43.0


From c0f8264296628522461182c592f04dccb45f3b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:18 +0000
Subject: [PATCH 63/86] fix: payloads of tags are written next to them, scalars
 quoted

---
 crates/facet-styx/src/serializer.rs |  4 ----
 crates/styx-format/src/writer.rs    | 32 +++++++++++------------------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/crates/facet-styx/src/serializer.rs b/crates/facet-styx/src/serializer.rs
index bd7c684..7da7bf7 100644
--- a/crates/facet-styx/src/serializer.rs
+++ b/crates/facet-styx/src/serializer.rs
@@ -227,7 +227,6 @@ impl FormatSerializer for StyxSerializer {
         trace!(is_root, "begin_struct");
         self.at_root = false;
         self.just_wrote_tag = false;
-        self.writer.clear_skip_before_value();
         self.writer.begin_struct(is_root);
         Ok(())
     }
@@ -325,7 +324,6 @@ impl FormatSerializer for StyxSerializer {
         trace!("begin_seq");
         self.at_root = false;
         self.just_wrote_tag = false;
-        self.writer.clear_skip_before_value();
         self.writer.begin_seq();
         Ok(())
     }
@@ -660,7 +658,6 @@ impl FormatSerializer for CompactStyxSerializer {
     fn begin_struct(&mut self) -> Result<(), Self::Error> {
         // Never treat as root in compact mode
         self.just_wrote_tag = false;
-        self.writer.clear_skip_before_value();
         self.writer.begin_struct(false);
         Ok(())
     }
@@ -677,7 +674,6 @@ impl FormatSerializer for CompactStyxSerializer {
 
     fn begin_seq(&mut self) -> Result<(), Self::Error> {
         self.just_wrote_tag = false;
-        self.writer.clear_skip_before_value();
         self.writer.begin_seq();
         Ok(())
     }
diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 4b49758..04480f9 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -194,6 +194,7 @@ impl StyxWriter {
     /// If `force_multiline` is true, the struct will never be inlined.
     pub fn begin_struct_with_options(&mut self, is_root: bool, force_multiline: bool) {
         self.before_value();
+        self.clear_skip_before_value();
 
         // A struct starts inline if it's appearing as a value on the same line as its key
         // (i.e., not the root and the opening brace is on the same line)
@@ -225,8 +226,8 @@ impl StyxWriter {
     /// Begin a struct directly after a tag (no space before the brace).
     pub fn begin_struct_after_tag(&mut self, force_multiline: bool) {
         // Don't call before_value() - we want no space after the tag
-        // Clear the force_quote flag since the tag's payload is a struct, not a scalar
-        self.force_quote_next_scalar = false;
+        // The tag's payload is a struct, not what is written in it
+        self.clear_skip_before_value();
         self.out.push(b'{');
         let open_pos = self.out.len(); // Position right after '{'
         self.stack.push(Context::Struct {
@@ -408,6 +409,7 @@ impl StyxWriter {
     /// Begin a sequence.
     pub fn begin_seq(&mut self) {
         self.before_value();
+        self.clear_skip_before_value();
         self.out.push(b'(');
         // Sequences always start inline (on the same line as their key)
         self.stack.push(Context::Seq {
@@ -448,42 +450,32 @@ impl StyxWriter {
 
     /// Write a boolean value.
     pub fn write_bool(&mut self, v: bool) {
-        self.before_value();
-        if v {
-            self.out.extend_from_slice(b"true");
-        } else {
-            self.out.extend_from_slice(b"false");
-        }
+        self.write_string(if v { "true" } else { "false" });
     }
 
     /// Write an i64 value.
     pub fn write_i64(&mut self, v: i64) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_string(&v.to_string());
     }
 
     /// Write a u64 value.
     pub fn write_u64(&mut self, v: u64) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_string(&v.to_string());
     }
 
     /// Write an i128 value.
     pub fn write_i128(&mut self, v: i128) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_string(&v.to_string());
     }
 
     /// Write a u128 value.
     pub fn write_u128(&mut self, v: u128) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_string(&v.to_string());
     }
 
     /// Write an f64 value.
     pub fn write_f64(&mut self, v: f64) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_string(&v.to_string());
     }
 
     /// Write a string value with appropriate quoting.
@@ -552,8 +544,8 @@ impl StyxWriter {
 
     /// Begin a sequence directly after a tag (no space before the paren).
     pub fn begin_seq_after_tag(&mut self) {
-        // Clear the force_quote flag since the tag's payload is a sequence, not a scalar
-        self.force_quote_next_scalar = false;
+        // The tag's payload is a sequence, not what is written in it
+        self.clear_skip_before_value();
         self.out.push(b'(');
         // Sequences after tags always start inline
         self.stack.push(Context::Seq {
-- 
2.43.0


From 3e10d300ae01dda5d9eb8f6d660a061b44b51c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:33 +0000
Subject: [PATCH 64/86] fix: compact and expression output writes raw values
 and metadata as they are

---
 crates/facet-styx/src/serializer.rs | 65 ++++++++++++++++++++++++++---
 1 file changed, 60 insertions(+), 5 deletions(-)

diff --git a/crates/facet-styx/src/serializer.rs b/crates/facet-styx/src/serializer.rs
index 7da7bf7..104d8bc 100644
--- a/crates/facet-styx/src/serializer.rs
+++ b/crates/facet-styx/src/serializer.rs
@@ -259,11 +259,8 @@ impl FormatSerializer for StyxSerializer {
         ) {
             (Some(tag), Some(name)) => {
                 // @tag"name" - tagged with value
-                let key_str = if tag.is_empty() {
-                    format!("@\"{}\"", name)
-                } else {
-                    format!("@{}\"{}\"", tag, name)
-                };
+                let name = styx_format::escape_quoted(name);
+                let key_str = format!("@{}\"{}\"", tag, name);
                 if !doc_lines.is_empty() {
                     self.writer
                         .write_doc_comment_and_key_raw(&doc_lines.join("\n"), &key_str);
@@ -668,6 +665,28 @@ impl FormatSerializer for CompactStyxSerializer {
         self.writer.field_key(key).map_err(StyxSerializeError::new)
     }
 
+    fn emit_field_key(&mut self, key: &FieldKey<'_>) -> Result<(), Self::Error> {
+        // Doc comments need a line of their own
+        match (
+            key.tag().map(|c| c.as_ref()),
+            key.name().map(|c| c.as_ref()),
+        ) {
+            (None, Some(name)) => self.field_key(name),
+            (tag, name) => {
+                self.just_wrote_tag = false;
+                self.writer.clear_skip_before_value();
+                let tag = tag.unwrap_or_default();
+                let key = match name {
+                    Some(name) => format!("@{}\"{}\"", tag, styx_format::escape_quoted(name)),
+                    None => format!("@{}", tag),
+                };
+                self.writer
+                    .field_key_raw(&key)
+                    .map_err(StyxSerializeError::new)
+            }
+        }
+    }
+
     fn end_struct(&mut self) -> Result<(), Self::Error> {
         self.writer.end_struct().map_err(StyxSerializeError::new)
     }
@@ -748,6 +767,42 @@ impl FormatSerializer for CompactStyxSerializer {
         self.writer.clear_skip_before_value();
         Ok(())
     }
+
+    fn raw_serialize_shape(&self) -> Option<&'static facet_core::Shape> {
+        Some(crate::RawStyx::SHAPE)
+    }
+
+    fn raw_scalar(&mut self, content: &str) -> Result<(), Self::Error> {
+        self.just_wrote_tag = false;
+        self.writer.before_value();
+        self.writer.write_str(content);
+        Ok(())
+    }
+
+    fn serialize_map_key(&mut self, key: Peek<'_, '_>) -> Result<bool, Self::Error> {
+        match extract_field_key(key) {
+            Some(field_key) => self.emit_field_key(&field_key).map(|()| true),
+            None => Ok(false),
+        }
+    }
+
+    fn serialize_metadata_container(
+        &mut self,
+        container: &facet_reflect::PeekStruct<'_, '_>,
+    ) -> Result<bool, Self::Error> {
+        for (f, field_value) in container.fields() {
+            if f.metadata_kind() == Some("tag") {
+                if let Ok(opt) = field_value.into_option()
+                    && let Some(inner) = opt.value()
+                    && let Some(s) = inner.as_str()
+                {
+                    self.write_variant_tag(s)?;
+                }
+                break;
+            }
+        }
+        Ok(false)
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0a4a5cdf8d199225b0957521eb04822a88000f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:58 +0000
Subject: [PATCH 65/86] fix: serde: read chains of tags

---
 crates/serde_styx/src/de.rs | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 8b842da..4107e60 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -16,6 +16,8 @@ pub struct Deserializer<'de> {
     current_span: Option<Span>,
     /// Whether we've started the implicit root struct.
     root_started: bool,
+    /// Whether the next token is the next tag of a chain (`@a/@b`).
+    in_chain: bool,
 }
 
 impl<'de> Deserializer<'de> {
@@ -26,6 +28,7 @@ impl<'de> Deserializer<'de> {
             peeked_token: None,
             current_span: None,
             root_started: false,
+            in_chain: false,
         }
     }
 
@@ -171,10 +174,8 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
                 TokenKind::LParen => self.deserialize_seq(visitor),
                 TokenKind::Tag => {
                     let token = self.next_token();
-                    visitor.visit_enum(EnumAccess {
-                        de: self,
-                        variant: &token.text[1..],
-                    })
+                    let variant = self.variant(token);
+                    visitor.visit_enum(EnumAccess { de: self, variant })
                 }
                 TokenKind::At => {
                     self.next_token();
@@ -443,10 +444,8 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     ) -> Result<V::Value> {
         let token = self.next_token();
         if token.kind == TokenKind::Tag {
-            visitor.visit_enum(EnumAccess {
-                de: self,
-                variant: &token.text[1..],
-            })
+            let variant = self.variant(token);
+            visitor.visit_enum(EnumAccess { de: self, variant })
         } else if token.kind == TokenKind::At {
             // Tagged enum
             let name_token = self.next_token();
@@ -488,16 +487,36 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
 }
 
 impl<'de> Deserializer<'de> {
+    /// The variant a tag just consumed names. Of a chain this is the first tag; the others
+    /// are its payload.
+    fn variant(&mut self, token: Token<'de>) -> &'de str {
+        let Some(slash) = token.text.find('/') else {
+            self.in_chain = false;
+            return &token.text[1..];
+        };
+        let start = token.span.start + slash as u32 + 1;
+        self.current_span = Some(Span::new(token.span.start, start));
+        self.peeked_token = Some(Token {
+            text: &token.text[slash + 1..],
+            span: Span::new(start, token.span.end),
+            ..token
+        });
+        self.in_chain = true;
+        &token.text[1..slash]
+    }
+
     /// Whether the tag just consumed has a payload, which follows it immediately.
     fn has_payload(&mut self) -> bool {
         let end = self.current_span.map(|span| span.end);
+        let in_chain = self.in_chain;
         self.peek_token().is_some_and(|next| {
             Some(next.span.start) == end
                 && (next.kind.is_scalar_start()
                     || matches!(
                         next.kind,
                         TokenKind::At | TokenKind::LBrace | TokenKind::LParen
-                    ))
+                    )
+                    || in_chain && next.kind == TokenKind::Tag)
         })
     }
 
-- 
2.43.0


From fd6b5b02b5f5883c4dc6dab655331e4ea359b500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:58 +0000
Subject: [PATCH 66/86] fix: serde: payloads of variants are written next to
 their tags

---
 crates/serde_styx/src/ser.rs     | 4 ++--
 crates/styx-format/src/writer.rs | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/serde_styx/src/ser.rs b/crates/serde_styx/src/ser.rs
index 1e4af34..1432a3e 100644
--- a/crates/serde_styx/src/ser.rs
+++ b/crates/serde_styx/src/ser.rs
@@ -159,6 +159,7 @@ impl<'a> ser::Serializer for &'a mut Serializer {
     ) -> Result<()> {
         self.at_root = false;
         self.writer.write_variant_tag(variant);
+        self.writer.clear_skip_before_value();
         Ok(())
     }
 
@@ -179,7 +180,6 @@ impl<'a> ser::Serializer for &'a mut Serializer {
     ) -> Result<()> {
         self.at_root = false;
         self.writer.write_variant_tag(variant);
-        self.writer.write_byte(b' ');
         value.serialize(&mut *self)
     }
 
@@ -680,6 +680,7 @@ impl<'a> ser::Serializer for &'a mut CompactSerializer {
         variant: &'static str,
     ) -> Result<()> {
         self.writer.write_variant_tag(variant);
+        self.writer.clear_skip_before_value();
         Ok(())
     }
 
@@ -699,7 +700,6 @@ impl<'a> ser::Serializer for &'a mut CompactSerializer {
         value: &T,
     ) -> Result<()> {
         self.writer.write_variant_tag(variant);
-        self.writer.write_byte(b' ');
         value.serialize(&mut *self)
     }
 
diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 04480f9..02ae46d 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -508,6 +508,10 @@ impl StyxWriter {
 
     /// Write a variant tag (e.g., `@some`).
     pub fn write_variant_tag(&mut self, name: &str) {
+        if self.skip_next_before_value {
+            // The payload of another tag
+            return self.write_tag_chain_segment(name);
+        }
         self.before_value();
         self.out.push(b'@');
         self.out.extend_from_slice(name.as_bytes());
-- 
2.43.0


From 10c0d075a2b805ee3953291f91fbc6f405d00477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:51 +0000
Subject: [PATCH 67/86] fix: serde: dedent heredocs, read raw keys

---
 crates/serde_styx/src/de.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 4107e60..047311e 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -134,14 +134,18 @@ impl<'de> Deserializer<'de> {
             }
             TokenKind::HeredocStart => {
                 let mut content = String::new();
+                let mut indent = 0;
                 loop {
+                    // Known between the content and the closing delimiter
+                    indent = self.lexer.heredoc_closing_indent().unwrap_or(indent);
                     let next = self.next_token();
                     match next.kind {
                         TokenKind::HeredocContent => content.push_str(next.text),
-                        _ => break,
+                        TokenKind::HeredocEnd => break,
+                        _ => return Err(self.error("unterminated heredoc")),
                     }
                 }
-                Ok(Cow::Owned(content))
+                Ok(Cow::Owned(dedent(&content, indent)))
             }
             _ => Err(self.error(format!("expected scalar, got {:?}", token.text))),
         }
@@ -475,6 +479,11 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
                 let s = self.unescape_quoted(token.text);
                 visitor.visit_string(s)
             }
+            TokenKind::RawScalar => {
+                let start = token.text.find('"').map(|i| i + 1).unwrap_or(0);
+                let end = token.text.rfind('"').unwrap_or(token.text.len());
+                visitor.visit_borrowed_str(&token.text[start..end])
+            }
             _ => Err(self.error("expected identifier")),
         }
     }
@@ -566,6 +575,21 @@ impl<'de> Deserializer<'de> {
     }
 }
 
+/// Strip up to `indent` spaces or tabs, those before the closing delimiter, from each line
+/// of a heredoc.
+fn dedent(content: &str, indent: usize) -> String {
+    let strip = |line: &str| {
+        let blank = |c: char| c == ' ' || c == '\t';
+        let end = line.chars().take(indent).take_while(|c| blank(*c)).count();
+        line[end..].to_string()
+    };
+    content
+        .split('\n')
+        .map(strip)
+        .collect::<Vec<_>>()
+        .join("\n")
+}
+
 /// Sequence access for serde.
 struct SeqAccess<'a, 'de> {
     de: &'a mut Deserializer<'de>,
@@ -625,7 +649,7 @@ impl<'a, 'de> de::MapAccess<'de> for MapAccess<'a, 'de> {
             Some(TokenKind::Eof) | None => {
                 return Err(self.de.error("unexpected end of object"));
             }
-            Some(TokenKind::BareScalar) | Some(TokenKind::QuotedScalar) => {
+            Some(TokenKind::BareScalar | TokenKind::QuotedScalar | TokenKind::RawScalar) => {
                 // This is a key
             }
             Some(TokenKind::DocComment) => {
-- 
2.43.0


From 1bf58523757e71a35dcb05cdc858247f9be2af85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:12 +0000
Subject: [PATCH 68/86] fix: serde: a tag next to a tag is its payload

---
 crates/serde_styx/src/de.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 047311e..a964aa2 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -16,8 +16,6 @@ pub struct Deserializer<'de> {
     current_span: Option<Span>,
     /// Whether we've started the implicit root struct.
     root_started: bool,
-    /// Whether the next token is the next tag of a chain (`@a/@b`).
-    in_chain: bool,
 }
 
 impl<'de> Deserializer<'de> {
@@ -28,7 +26,6 @@ impl<'de> Deserializer<'de> {
             peeked_token: None,
             current_span: None,
             root_started: false,
-            in_chain: false,
         }
     }
 
@@ -500,7 +497,6 @@ impl<'de> Deserializer<'de> {
     /// are its payload.
     fn variant(&mut self, token: Token<'de>) -> &'de str {
         let Some(slash) = token.text.find('/') else {
-            self.in_chain = false;
             return &token.text[1..];
         };
         let start = token.span.start + slash as u32 + 1;
@@ -510,22 +506,19 @@ impl<'de> Deserializer<'de> {
             span: Span::new(start, token.span.end),
             ..token
         });
-        self.in_chain = true;
         &token.text[1..slash]
     }
 
     /// Whether the tag just consumed has a payload, which follows it immediately.
     fn has_payload(&mut self) -> bool {
         let end = self.current_span.map(|span| span.end);
-        let in_chain = self.in_chain;
         self.peek_token().is_some_and(|next| {
             Some(next.span.start) == end
                 && (next.kind.is_scalar_start()
                     || matches!(
                         next.kind,
-                        TokenKind::At | TokenKind::LBrace | TokenKind::LParen
-                    )
-                    || in_chain && next.kind == TokenKind::Tag)
+                        TokenKind::At | TokenKind::Tag | TokenKind::LBrace | TokenKind::LParen
+                    ))
         })
     }
 
-- 
2.43.0


From debd429945aa6a25961c5c7fc7d898ce8f59f1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:05 +0000
Subject: [PATCH 69/86] fix: serde: refuse what is no document, read keys alone
 and the schema declaration

---
 crates/serde_styx/src/de.rs  | 47 +++++++++++++++++++++++++++++++++---
 crates/serde_styx/src/lib.rs |  6 +++++
 2 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index a964aa2..96b1e15 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -2,13 +2,14 @@
 
 use std::borrow::Cow;
 
-use serde::de::{self, Visitor};
+use serde::de::{self, IntoDeserializer, Visitor};
 use styx_parse::{ScalarKind, Span, Token, TokenKind, Tokenizer};
 
 use crate::error::{Error, Result};
 
 /// Styx deserializer implementing serde::Deserializer.
 pub struct Deserializer<'de> {
+    source: &'de str,
     lexer: Tokenizer<'de>,
     /// Peeked token (if any).
     peeked_token: Option<Token<'de>>,
@@ -22,6 +23,7 @@ impl<'de> Deserializer<'de> {
     /// Create a new deserializer for the given source.
     pub fn new(source: &'de str) -> Self {
         Self {
+            source,
             lexer: Tokenizer::new(source),
             peeked_token: None,
             current_span: None,
@@ -70,7 +72,7 @@ impl<'de> Deserializer<'de> {
 
     /// Skip commas between entries.
     fn skip_comma(&mut self) {
-        if let Some(token) = self.peek_token()
+        while let Some(token) = self.peek_token()
             && token.kind == TokenKind::Comma
         {
             self.next_token();
@@ -424,8 +426,13 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
             return Err(self.error("expected object {"));
         }
         // Only the document itself can do without braces
+        let root = !self.root_started;
         self.root_started = true;
-        visitor.visit_map(MapAccess { de: self, braced })
+        visitor.visit_map(MapAccess {
+            de: self,
+            braced,
+            root,
+        })
     }
 
     fn deserialize_struct<V: Visitor<'de>>(
@@ -522,6 +529,26 @@ impl<'de> Deserializer<'de> {
         })
     }
 
+    /// Whether the key just consumed has a value, which follows it on its line.
+    fn has_value(&mut self) -> bool {
+        let source = self.source;
+        let end = self.current_span.map_or(0, |span| span.end as usize);
+        self.peek_token().is_some_and(|next| {
+            !matches!(
+                next.kind,
+                TokenKind::Comma | TokenKind::RBrace | TokenKind::Eof
+            ) && source
+                .get(end..next.span.start as usize)
+                .is_none_or(|between| !between.contains('\n'))
+        })
+    }
+
+    /// Whether the next token is the key of a schema declaration.
+    fn is_schema_key(&mut self) -> bool {
+        self.peek_token()
+            .is_some_and(|token| token.text == "@schema")
+    }
+
     fn skip_value(&mut self) -> Result<()> {
         let token = self.next_token();
         match token.kind {
@@ -619,6 +646,8 @@ struct MapAccess<'a, 'de> {
     de: &'a mut Deserializer<'de>,
     /// Whether the object is written in braces.
     braced: bool,
+    /// Whether the object is the document.
+    root: bool,
 }
 
 impl<'a, 'de> de::MapAccess<'de> for MapAccess<'a, 'de> {
@@ -650,6 +679,14 @@ impl<'a, 'de> de::MapAccess<'de> for MapAccess<'a, 'de> {
                 self.de.next_token();
                 return self.next_key_seed(seed);
             }
+            Some(TokenKind::Tag) if self.root && self.de.is_schema_key() => {
+                // The declaration of the schema is not part of the data
+                self.de.next_token();
+                if self.de.has_value() {
+                    self.de.skip_value()?;
+                }
+                return self.next_key_seed(seed);
+            }
             Some(kind) => {
                 return Err(self.de.error(format!("expected key, got {:?}", kind)));
             }
@@ -662,6 +699,10 @@ impl<'a, 'de> de::MapAccess<'de> for MapAccess<'a, 'de> {
     where
         V: de::DeserializeSeed<'de>,
     {
+        if !self.de.has_value() {
+            // A key alone has the unit
+            return seed.deserialize(().into_deserializer());
+        }
         seed.deserialize(&mut *self.de)
     }
 }
diff --git a/crates/serde_styx/src/lib.rs b/crates/serde_styx/src/lib.rs
index a73e871..8d7b936 100644
--- a/crates/serde_styx/src/lib.rs
+++ b/crates/serde_styx/src/lib.rs
@@ -71,6 +71,12 @@ pub fn from_str<'de, T>(s: &'de str) -> Result<T>
 where
     T: serde::de::Deserialize<'de>,
 {
+    let mut parser = styx_parse::Parser::new(s);
+    while let Some(event) = parser.next_event() {
+        if let styx_parse::EventKind::Error { kind } = event.kind {
+            return Err(Error::new(kind.to_string()));
+        }
+    }
     let mut deserializer = Deserializer::new(s);
     T::deserialize(&mut deserializer)
 }
-- 
2.43.0


From 3bff35b085307611d5950e1888dce988fa26397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:32 +0000
Subject: [PATCH 70/86] fix: format: a doc comment deep in an inline object
 moves the right line breaks

---
 crates/styx-format/src/writer.rs | 121 +++++++++----------------------
 1 file changed, 35 insertions(+), 86 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 02ae46d..d152501 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -687,112 +687,61 @@ impl StyxWriter {
     /// Propagate multiline formatting up to all parent structs that started inline.
     /// This is called when doc comments force the current struct to be multiline.
     fn propagate_multiline_to_parents(&mut self) {
-        // First, collect all comma positions from parent structs that will go multiline
-        // We need to fix these before inserting newlines
-        let mut all_comma_positions: Vec<usize> = Vec::new();
-        let mut structs_to_fix: Vec<usize> = Vec::new(); // indices in stack
+        // (position, bytes to replace, replacement)
+        let mut edits: Vec<(usize, usize, String)> = Vec::new();
 
-        for (idx, ctx) in self.stack.iter().enumerate() {
+        let mut effective_depth = 0;
+        for ctx in self.stack.iter_mut() {
             if let Context::Struct {
                 inline_start,
                 force_multiline,
-                is_root,
+                is_root: false,
+                open_brace_pos: Some(pos),
                 comma_positions,
                 ..
             } = ctx
-                && !*is_root
-                && *inline_start
-                && !*force_multiline
             {
-                structs_to_fix.push(idx);
-                all_comma_positions.extend(comma_positions.iter().copied());
-            }
-        }
-
-        // Fix all comma separators first (before we insert newlines which would shift positions)
-        if !all_comma_positions.is_empty() {
-            // Sort and process from end to start
-            all_comma_positions.sort_unstable();
-            for &comma_pos in all_comma_positions.iter().rev() {
-                // Replace ", " with newline + appropriate indent
-                if comma_pos + 2 <= self.out.len()
-                    && self.out[comma_pos] == b','
-                    && self.out[comma_pos + 1] == b' '
-                {
-                    // Calculate indent for this position
-                    let indent = self.options.indent.repeat(self.indent_depth());
-                    let newline_indent = format!("\n{}", indent);
-                    self.out.drain(comma_pos..comma_pos + 2);
-                    let bytes = newline_indent.as_bytes();
-                    for (i, &b) in bytes.iter().enumerate() {
-                        self.out.insert(comma_pos + i, b);
+                // Root doesn't add depth
+                effective_depth += 1;
+                // If this struct started inline but hasn't been fixed yet
+                if *inline_start && !*force_multiline {
+                    *force_multiline = true;
+                    let newline_indent =
+                        format!("\n{}", self.options.indent.repeat(effective_depth));
+                    // Newline + indent after the opening brace, and instead of each ", "
+                    for comma_pos in comma_positions.drain(..) {
+                        edits.push((comma_pos, 2, newline_indent.clone()));
                     }
+                    edits.push((*pos, 0, newline_indent));
                 }
             }
         }
 
-        // Clear comma positions from structs we're fixing
-        for &idx in &structs_to_fix {
-            if let Some(Context::Struct {
-                comma_positions, ..
-            }) = self.stack.get_mut(idx)
-            {
-                comma_positions.clear();
-            }
+        // Apply edits from end to start (so positions stay valid)
+        edits.sort_unstable();
+        for (pos, replaced, text) in edits.iter().rev() {
+            self.out
+                .splice(*pos..*pos + *replaced, text.bytes())
+                .for_each(drop);
         }
 
-        // Now collect positions and effective depths of structs that need newline after brace
-        let mut fixes: Vec<(usize, usize)> = Vec::new(); // (open_brace_pos, effective_depth)
-
-        let mut effective_depth = 0;
+        // Update all positions in the stack that come after an edit
+        let moved = |position: usize| {
+            edits
+                .iter()
+                .filter(|(pos, _, _)| *pos < position)
+                .fold(position, |p, (_, replaced, text)| p + text.len() - replaced)
+        };
         for ctx in self.stack.iter_mut() {
             if let Context::Struct {
-                inline_start,
-                force_multiline,
-                is_root,
-                open_brace_pos: Some(pos),
+                open_brace_pos: Some(p),
+                comma_positions,
                 ..
             } = ctx
             {
-                // Root doesn't add depth
-                if !*is_root {
-                    // If this struct started inline but hasn't been fixed yet
-                    if *inline_start && !*force_multiline {
-                        *force_multiline = true;
-                        // Content inside this struct should be at effective_depth + 1
-                        fixes.push((*pos, effective_depth + 1));
-                    }
-                    // After forcing multiline, this struct now contributes to depth
-                    effective_depth += 1;
-                }
-            }
-        }
-
-        // Apply fixes from end to start (so positions stay valid)
-        for (pos, indent_depth) in fixes.into_iter().rev() {
-            // Insert newline + indent after the opening brace
-            let indent = self.options.indent.repeat(indent_depth);
-            let insert = format!("\n{}", indent);
-            for (i, b) in insert.bytes().enumerate() {
-                self.out.insert(pos + i, b);
-            }
-
-            // Update all positions in the stack that come after this insertion
-            for ctx in self.stack.iter_mut() {
-                if let Context::Struct {
-                    open_brace_pos: Some(p),
-                    comma_positions,
-                    ..
-                } = ctx
-                {
-                    if *p > pos {
-                        *p += insert.len();
-                    }
-                    for cp in comma_positions.iter_mut() {
-                        if *cp >= pos {
-                            *cp += insert.len();
-                        }
-                    }
+                *p = moved(*p);
+                for cp in comma_positions.iter_mut() {
+                    *cp = moved(*cp);
                 }
             }
         }
-- 
2.43.0


From c22a0ce55c9e40636117a7af4bffae3bf7376739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:47 +0000
Subject: [PATCH 71/86] fix: styx-py: read every document the way the reference
 parser does

---
 implementations/styx-py/styx/lexer.py  | 169 +++++-----
 implementations/styx-py/styx/parser.py | 443 ++++++++-----------------
 2 files changed, 228 insertions(+), 384 deletions(-)

diff --git a/implementations/styx-py/styx/lexer.py b/implementations/styx-py/styx/lexer.py
index ce97622..2dd50e7 100644
--- a/implementations/styx-py/styx/lexer.py
+++ b/implementations/styx-py/styx/lexer.py
@@ -37,25 +37,36 @@ class Token:
     span: Span
     had_whitespace_before: bool
     had_newline_before: bool
+    had_doc_before: bool = False
 
 
-SPECIAL_CHARS: Final[frozenset[str]] = frozenset(
-    ["{", "}", "(", ")", ",", '"', ">", " ", "\t", "\n", "\r"]
-)
+SPECIAL_CHARS: Final[frozenset[str]] = frozenset(["{", "}", "(", ")", ",", '"', ">"])
 
+# The characters with the Unicode property White_Space
+WHITESPACE_RE: Final[re.Pattern[str]] = re.compile(
+    r"[\t-\r \x85\xa0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]"
+)
 TAG_START_RE: Final[re.Pattern[str]] = re.compile(r"[A-Za-z_]")
 TAG_CHAR_RE: Final[re.Pattern[str]] = re.compile(r"[A-Za-z0-9_\-]")
+HEREDOC_OPEN_RE: Final[re.Pattern[str]] = re.compile(
+    r"<<([A-Z][A-Z0-9_]*)(?:,(?:[a-z][a-z0-9_.\-]*)?)?\r?\n?"
+)
+MAX_HEREDOC_DELIMITER: Final[int] = 16
+UNICODE_ESCAPE_RE: Final[re.Pattern[str]] = re.compile(
+    r"\{([0-9A-Fa-f]+)\}|([0-9A-Fa-f]{4})"
+)
 
 
 class Lexer:
     """Tokenizer for Styx source code."""
 
-    __slots__ = ("byte_pos", "pos", "source")
+    __slots__ = ("byte_pos", "had_doc", "pos", "source")
 
     def __init__(self, source: str) -> None:
         self.source = source
         self.pos = 0  # character position
         self.byte_pos = 0  # byte position for spans
+        self.had_doc = False  # whether a doc comment was skipped before the current token
 
     def _peek(self, offset: int = 0) -> str:
         """Look ahead in the source."""
@@ -73,23 +84,30 @@ class Lexer:
         self.byte_pos += len(ch.encode("utf-8"))
         return ch
 
+    def _advance_to(self, pos: int) -> None:
+        """Consume characters up to a position."""
+        while self.pos < pos:
+            self._advance()
+
     def _skip_whitespace_and_comments(self) -> tuple[bool, bool]:
         """Skip whitespace and comments, return (had_whitespace, had_newline)."""
         had_whitespace = False
         had_newline = False
+        self.had_doc = False
 
         while self.pos < len(self.source):
             ch = self._peek()
-            if ch in (" ", "\t", "\r"):
+            if ch in (" ", "\t"):
                 had_whitespace = True
                 self._advance()
-            elif ch == "\n":
+            elif ch == "\n" or (ch == "\r" and self._peek(1) == "\n"):
                 had_whitespace = True
                 had_newline = True
-                self._advance()
+                self._advance_to(self.pos + (1 if ch == "\n" else 2))
             elif ch == "/" and self._peek(1) == "/":
                 had_whitespace = True
-                while self.pos < len(self.source) and self._peek() != "\n":
+                self.had_doc = self.had_doc or self._peek(2) == "/"
+                while self.pos < len(self.source) and self._peek() not in ("\n", "\r"):
                     self._advance()
             else:
                 break
@@ -106,6 +124,11 @@ class Lexer:
 
     def next_token(self) -> Token:
         """Return the next token."""
+        token = self._next_token()
+        token.had_doc_before = self.had_doc
+        return token
+
+    def _next_token(self) -> Token:
         had_whitespace, had_newline = self._skip_whitespace_and_comments()
 
         if self.pos >= len(self.source):
@@ -158,7 +181,11 @@ class Lexer:
             self._advance()
             if self._is_tag_start(self._peek()):
                 name_start = self.pos
-                while self._is_tag_char(self._peek()):
+                self._advance()
+                # A tag ends where a raw string starts
+                while self._is_tag_char(self._peek()) and not (
+                    self._peek() == "r" and self._peek(1) == "#"
+                ):
                     self._advance()
                 name = self.source[name_start : self.pos]
                 return Token(
@@ -176,19 +203,18 @@ class Lexer:
 
         # Heredoc - only if << is followed by uppercase letter
         if ch == "<" and self._peek(1) == "<":
-            after_lt_lt = self._peek(2)
-            if after_lt_lt.isupper():
-                return self._read_heredoc(start, had_whitespace, had_newline)
-            # << not followed by uppercase - return error at just <<
+            opening = HEREDOC_OPEN_RE.match(self.source, self.pos)
+            if opening and len(opening[1]) <= MAX_HEREDOC_DELIMITER:
+                return self._read_heredoc(opening, start, had_whitespace, had_newline)
+            # << not followed by a delimiter - error at just <<
             self._advance()  # <
             self._advance()  # <
-            error_end = self.byte_pos
-            # Skip rest of line for recovery
-            while self.pos < len(self.source) and self._peek() != "\n":
-                self._advance()
-            raise ParseError("unexpected token", Span(start, error_end))
+            raise ParseError("unexpected token", Span(start, self.byte_pos))
 
         # Bare scalar
+        if ch == "=" or WHITESPACE_RE.match(ch):
+            self._advance()
+            raise ParseError("unexpected token", Span(start, self.byte_pos))
         return self._read_bare_scalar(start, had_whitespace, had_newline)
 
     def _read_quoted_string(self, start: int, had_whitespace: bool, had_newline: bool) -> Token:
@@ -219,38 +245,29 @@ class Lexer:
                     case '"':
                         text += '"'
                     case "u":
-                        text += self._read_unicode_escape()
+                        text += self._read_unicode_escape(escape_start)
                     case _:
                         raise ParseError(
                             f"invalid escape sequence: \\{escaped}",
                             Span(escape_start, self.byte_pos),
                         )
-            elif ch in ("\n", "\r"):
-                # Unterminated string - include the newline in the span
-                self._advance()
-                if ch == "\r" and self._peek() == "\n":
-                    self._advance()
-                raise ParseError("unexpected token", Span(start, self.byte_pos))
             else:
                 text += self._advance()
 
         # EOF without closing quote - error
         raise ParseError("unexpected token", Span(start, self.byte_pos))
 
-    def _read_unicode_escape(self) -> str:
+    def _read_unicode_escape(self, escape_start: int) -> str:
         """Read a unicode escape sequence."""
-        if self._peek() == "{":
-            self._advance()
-            hex_str = ""
-            while self._peek() != "}" and self.pos < len(self.source):
-                hex_str += self._advance()
-            self._advance()
-            return chr(int(hex_str, 16))
-        else:
-            hex_str = ""
-            for _ in range(4):
-                hex_str += self._advance()
-            return chr(int(hex_str, 16))
+        digits = UNICODE_ESCAPE_RE.match(self.source, self.pos)
+        code = int(digits[1] or digits[2], 16) if digits else -1
+        if not digits or code > 0x10FFFF or 0xD800 <= code <= 0xDFFF:
+            raise ParseError(
+                "invalid escape sequence: \\u",
+                Span(escape_start, self.byte_pos),
+            )
+        self._advance_to(digits.end())
+        return chr(code)
 
     def _read_raw_string(self, start: int, had_whitespace: bool, had_newline: bool) -> Token:
         """Read a raw string."""
@@ -259,6 +276,8 @@ class Lexer:
         while self._peek() == "#":
             self._advance()
             hashes += 1
+        if self._peek() != '"':
+            raise ParseError("unexpected token", Span(start, self.byte_pos))
         self._advance()  # opening "
 
         text = ""
@@ -275,55 +294,31 @@ class Lexer:
 
         raise ParseError("unclosed raw string", Span(start, self.byte_pos))
 
-    def _read_heredoc(self, start: int, had_whitespace: bool, had_newline: bool) -> Token:
+    def _read_heredoc(
+        self, opening: re.Match[str], start: int, had_whitespace: bool, had_newline: bool
+    ) -> Token:
         """Read a heredoc."""
-        self._advance()  # <
-        self._advance()  # <
-
-        delimiter = ""
-        while self.pos < len(self.source) and self._peek() != "\n":
-            delimiter += self._advance()
-        if self.pos < len(self.source):
-            self._advance()  # newline
-
-        # Track content start (after the opening line)
-        content_start = self.byte_pos
-
-        text = ""
-        bare_delimiter = delimiter.split(",")[0]
-
-        while self.pos < len(self.source):
-            line = ""
-            while self.pos < len(self.source) and self._peek() != "\n":
-                line += self._advance()
-
-            # Check for exact match (no indentation)
-            if line == bare_delimiter:
-                return Token(
-                    TokenType.HEREDOC, text, Span(start, self.byte_pos), had_whitespace, had_newline
-                )
-
-            # Check for indented closing delimiter
-            stripped = line.lstrip(" \t")
-            if stripped == bare_delimiter:
-                indent_len = len(line) - len(stripped)
-                # Dedent the content by stripping up to indent_len from each line
-                result = self._dedent_heredoc(text, indent_len)
-                return Token(
-                    TokenType.HEREDOC,
-                    result,
-                    Span(start, self.byte_pos),
-                    had_whitespace,
-                    had_newline,
-                )
-
-            text += line
-            if self.pos < len(self.source) and self._peek() == "\n":
-                self._advance()
-                text += "\n"
-
-        # EOF without closing delimiter - error points at the unmatched content
-        raise ParseError("unexpected token", Span(content_start, self.byte_pos))
+        # The delimiter alone on a line, maybe indented, closes the heredoc
+        closing = re.compile(r"([ \t]*)" + opening[1] + r"(?=\r?\n|\Z)")
+        self._advance_to(opening.end())
+        content_start, content_start_byte = self.pos, self.byte_pos
+
+        line = self.pos
+        close = closing.match(self.source, line)
+        while not close:
+            newline = self.source.find("\n", line)
+            if newline < 0:
+                # EOF without closing delimiter - error points at the unmatched content
+                self._advance_to(len(self.source))
+                raise ParseError("unexpected token", Span(content_start_byte, self.byte_pos))
+            line = newline + 1
+            close = closing.match(self.source, line)
+
+        self._advance_to(close.end())
+        text = self._dedent_heredoc(self.source[content_start:line], len(close[1]))
+        return Token(
+            TokenType.HEREDOC, text, Span(start, self.byte_pos), had_whitespace, had_newline
+        )
 
     def _dedent_heredoc(self, content: str, indent_len: int) -> str:
         """Strip up to indent_len whitespace characters from the start of each line."""
@@ -346,7 +341,7 @@ class Lexer:
         text = ""
         while self.pos < len(self.source):
             ch = self._peek()
-            if ch in SPECIAL_CHARS:
+            if ch in SPECIAL_CHARS or WHITESPACE_RE.match(ch):
                 break
             text += self._advance()
         return Token(
diff --git a/implementations/styx-py/styx/parser.py b/implementations/styx-py/styx/parser.py
index ba451a9..6cd6de4 100644
--- a/implementations/styx-py/styx/parser.py
+++ b/implementations/styx-py/styx/parser.py
@@ -2,6 +2,8 @@
 
 from __future__ import annotations
 
+from dataclasses import dataclass, field
+
 from .lexer import Lexer, Token, TokenType
 from .types import (
     Document,
@@ -18,62 +20,54 @@ from .types import (
 )
 
 
+@dataclass(slots=True)
+class PathSegment:
+    """A segment of the open path, and its children that have had siblings."""
+
+    key: str
+    kind: PathValueKind
+    closed: set[str] = field(default_factory=set)
+
+
 class PathState:
     """Track path state for detecting reopen-path and nest-into-terminal errors."""
 
-    __slots__ = ("assigned_paths", "closed_paths", "current_path")
+    __slots__ = ("closed", "open")
 
     def __init__(self) -> None:
-        self.current_path: list[str] = []
-        self.closed_paths: set[str] = set()  # Paths that have had siblings
-        self.assigned_paths: dict[str, tuple[PathValueKind, Span]] = {}
+        self.open: list[PathSegment] = []
+        self.closed: set[str] = set()  # Top-level keys that have had siblings
 
     def check_and_update(self, path: list[str], span: Span, kind: PathValueKind) -> None:
         """Check path validity and update state. Raises ParseError if invalid."""
-        full_path = ".".join(path)
-
-        # 1. Check for duplicate
-        if full_path in self.assigned_paths:
-            existing_kind, _existing_span = self.assigned_paths[full_path]
-            if existing_kind == PathValueKind.TERMINAL:
-                raise ParseError("duplicate key", span)
-            # Both are objects - it's a reopen attempt
-            raise ParseError(f"cannot reopen path `{full_path}` after sibling appeared", span)
-
-        # 2. Check if any prefix is closed (has had siblings) or is terminal
-        for i in range(1, len(path)):
-            prefix = ".".join(path[:i])
-            if prefix in self.closed_paths:
-                raise ParseError(f"cannot reopen path `{prefix}` after sibling appeared", span)
-            if prefix in self.assigned_paths:
-                prefix_kind, _prefix_span = self.assigned_paths[prefix]
-                if prefix_kind == PathValueKind.TERMINAL:
-                    raise ParseError(
-                        f"cannot nest into `{prefix}` which has a terminal value", span
-                    )
-
-        # 3. Find common prefix length with current path
+        # 1. Find common prefix length with the open path
         common_len = 0
-        for i in range(min(len(path), len(self.current_path))):
-            if path[i] == self.current_path[i]:
-                common_len += 1
-            else:
+        for segment, key in zip(self.open, path, strict=False):
+            if segment.key != key:
                 break
+            common_len += 1
+        if common_len == len(path):
+            raise ParseError("duplicate key", span)
 
-        # 4. Close all divergent paths from current path
-        for i in range(common_len, len(self.current_path)):
-            divergent = ".".join(self.current_path[: i + 1])
-            self.closed_paths.add(divergent)
-
-        # 5. Record intermediate segments as objects
-        for i in range(len(path) - 1):
-            prefix = ".".join(path[: i + 1])
-            if prefix not in self.assigned_paths:
-                self.assigned_paths[prefix] = (PathValueKind.OBJECT, span)
+        # 2. Close what is open beyond it
+        while len(self.open) > common_len:
+            segment = self.open.pop()
+            (self.open[-1].closed if self.open else self.closed).add(segment.key)
 
-        # 6. Record the final path
-        self.assigned_paths[full_path] = (kind, span)
-        self.current_path = path.copy()
+        # 3. Open the other segments; all but the last one are objects
+        for i in range(common_len, len(path)):
+            is_last = i == len(path) - 1
+            if i > 0 and self.open[i - 1].kind == PathValueKind.TERMINAL:
+                prefix = ".".join(path[:i])
+                raise ParseError(
+                    f"cannot nest into `{prefix}` which has a terminal value", span
+                )
+            if path[i] in (self.open[i - 1].closed if i > 0 else self.closed):
+                if len(path) == 1:
+                    raise ParseError("duplicate key", span)
+                prefix = ".".join(path[: i + 1])
+                raise ParseError(f"cannot reopen path `{prefix}` after sibling appeared", span)
+            self.open.append(PathSegment(path[i], kind if is_last else PathValueKind.OBJECT))
 
 
 class Parser:
@@ -120,14 +114,15 @@ class Parser:
         """Parse a complete document."""
         entries: list[Entry] = []
         start = self.current.span.start
-        path_state = PathState()
 
         # Skip any leading commas
+        doc_before = self.current.had_doc_before
         while self._check(TokenType.COMMA):
             self._advance()
+            doc_before = doc_before or self.current.had_doc_before
 
         # Check for explicit root object: { ... } at document start
-        if self._check(TokenType.LBRACE):
+        if self._check(TokenType.LBRACE) and not doc_before:
             # Explicit root object - parse it and check for trailing content
             obj = self._parse_object()
             obj_value = Value(span=obj.span, payload=obj)
@@ -135,11 +130,7 @@ class Parser:
             entries.append(Entry(key=unit_key, value=obj_value))
 
             # After explicit root object, only whitespace/comments/EOF are allowed
-            # Skip commas (they don't count as "content")
-            while self._check(TokenType.COMMA):
-                self._advance()
-
-            if not self._check(TokenType.EOF):
+            if not self._check(TokenType.EOF) or self.current.had_doc_before:
                 # Find the span of trailing content
                 trailing_start = self.current.span.start
                 # Consume tokens to find the end of all trailing content
@@ -157,155 +148,116 @@ class Parser:
                 span=Span(start, self.current.span.end),
             )
 
-        while not self._check(TokenType.EOF):
-            entry = self._parse_entry_with_path_check(path_state)
-            if entry:
-                entries.append(entry)
+        entries = self._parse_entries(doc_before)
+        if not self._check(TokenType.EOF):
+            raise ParseError("invalid key", self.current.span)
 
         return Document(
             entries=entries,
             span=Span(start, self.current.span.end),
         )
 
-    def _parse_entry_with_path_check(self, path_state: PathState) -> Entry | None:
-        """Parse an entry at document level with path state checking."""
-        while self._check(TokenType.COMMA):
-            self._advance()
-
-        # Stray > tokens without a value are an error
-        if self._check(TokenType.GT):
-            raise ParseError("expected a value", self.current.span)
-
-        if self._check(TokenType.EOF, TokenType.RBRACE):
-            return None
-
-        key = self._parse_value()
-
-        # Special case: object in key position gets implicit unit key
-        if key.payload is not None and isinstance(key.payload, StyxObject):
-            if not self.current.had_newline_before and not self._check(
-                TokenType.EOF, TokenType.RBRACE, TokenType.COMMA
-            ):
-                self._parse_value()  # Drop trailing value
-            unit_key = Value(span=Span(-1, -1))
-            return Entry(key=unit_key, value=key)
-
-        # Check for dotted path in bare scalar key
-        if (
-            key.payload is not None
-            and isinstance(key.payload, Scalar)
-            and key.payload.kind == ScalarKind.BARE
-        ):
-            text = key.payload.text
-            if "." in text:
-                return self._expand_dotted_path_with_state(text, key.span, path_state)
-
-        # Check key validity with path state
-        key_text = self._get_key_text(key)
-
-        self._validate_key(key)
-
-        # Check for implicit unit
-        if self.current.had_newline_before or self._check(TokenType.EOF, TokenType.RBRACE):
-            if key_text is not None:
-                path_state.check_and_update([key_text], key.span, PathValueKind.TERMINAL)
-            return Entry(key=key, value=Value(span=key.span))
-
-        value = self._parse_value()
+    def _parse_entries(self, doc_before: bool = False) -> list[Entry]:
+        """Parse entries up to a closing brace or the end of input."""
+        entries: list[Entry] = []
+        path_state = PathState()
 
-        # Determine kind from actual value
-        if key_text is not None:
-            if value.payload is not None and isinstance(value.payload, StyxObject):
-                kind = PathValueKind.OBJECT
+        while True:
+            doc_before = doc_before or self.current.had_doc_before
+            if self._check(TokenType.COMMA):
+                self._advance()
+            elif self._check(TokenType.RBRACE, TokenType.EOF):
+                break
             else:
-                kind = PathValueKind.TERMINAL
-            path_state.check_and_update([key_text], key.span, kind)
-
-        return Entry(key=key, value=value)
-
-    def _parse_entry_with_dup_check(self, seen_keys: dict[str, Span]) -> Entry | None:
-        """Parse an entry with duplicate key checking."""
-        while self._check(TokenType.COMMA):
-            self._advance()
+                entries.append(self._parse_entry(path_state))
+                doc_before = False
+
+        if doc_before:
+            raise ParseError("dangling doc comment", self.current.span)
+        return entries
+
+    def _at_entry_end(self) -> bool:
+        """Whether the current token does not belong to the entry before it."""
+        return (
+            self.current.had_newline_before
+            or self.current.had_doc_before
+            or self._check(
+                TokenType.EOF, TokenType.COMMA, TokenType.RBRACE, TokenType.RPAREN
+            )
+        )
 
+    def _parse_entry(self, path_state: PathState) -> Entry:
+        """Parse an entry: a key, and a value unless it is implicit."""
         # Stray > tokens without a value are an error
         if self._check(TokenType.GT):
             raise ParseError("expected a value", self.current.span)
 
-        if self._check(TokenType.EOF, TokenType.RBRACE):
-            return None
-
         key = self._parse_value()
-
-        # Special case: object in key position gets implicit unit key
-        if key.payload is not None and isinstance(key.payload, StyxObject):
-            if not self.current.had_newline_before and not self._check(
-                TokenType.EOF, TokenType.RBRACE, TokenType.COMMA
-            ):
-                self._parse_value()  # Drop trailing value
-            unit_key = Value(span=Span(-1, -1))
-            return Entry(key=unit_key, value=key)
-
-        # Check for dotted path in bare scalar key
+        is_bare = isinstance(key.payload, Scalar) and key.payload.kind == ScalarKind.BARE
+        is_bare = is_bare and key.tag is None
         if (
-            key.payload is not None
-            and isinstance(key.payload, Scalar)
-            and key.payload.kind == ScalarKind.BARE
+            is_bare
+            and self._check(TokenType.LBRACE, TokenType.LPAREN)
+            and not self.current.had_whitespace_before
         ):
-            text = key.payload.text
-            if "." in text:
-                return self._expand_dotted_path(text, key.span, seen_keys)
-
-        # Check for duplicate key
-        key_text = self._get_key_text(key)
-        if key_text is not None:
-            if key_text in seen_keys:
-                raise ParseError("duplicate key", key.span)
-            seen_keys[key_text] = key.span
+            raise ParseError("missing whitespace before block", self.current.span)
 
-        self._validate_key(key)
+        if self._at_entry_end():
+            value = Value(span=key.span)
+        else:
+            value = self._parse_value()
+            if not self._at_entry_end():
+                extra = self._parse_value()
+                raise ParseError("unexpected value after entry", extra.span)
+
+        # A dotted path is a bare scalar with dots
+        is_path = is_bare and "." in key.payload.text
+        if is_path:
+            segments = key.payload.text.split(".")
+            if any(s == "" for s in segments):
+                raise ParseError("invalid key", key.span)
+        else:
+            self._validate_key(key)
+            segments = [self._get_key_text(key)]
 
-        # Check for implicit unit
-        if self.current.had_newline_before or self._check(TokenType.EOF, TokenType.RBRACE):
-            return Entry(key=key, value=Value(span=key.span))
+        if value.tag is None and isinstance(value.payload, StyxObject):
+            kind = PathValueKind.OBJECT
+        else:
+            kind = PathValueKind.TERMINAL
+        path_state.check_and_update(segments, key.span, kind)
 
-        value = self._parse_value()
+        if is_path:
+            return self._expand_dotted_path(segments, key.span, value)
         return Entry(key=key, value=value)
 
-    def _get_key_text(self, key: Value) -> str | None:
-        """Get the text representation of a key for duplicate checking."""
-        if key.payload is not None and isinstance(key.payload, Scalar):
-            return key.payload.text
-        if key.tag is not None and key.payload is None:
-            return f"@{key.tag.name}"
-        return None
+    def _get_key_text(self, key: Value) -> str:
+        """Get the text which tells keys apart."""
+        # No text holds this unpaired surrogate
+        marker = "\ud800"
+        text = key.payload.text if isinstance(key.payload, Scalar) else None
+        if key.tag is not None:
+            return marker + key.tag.name + ("" if text is None else marker + text)
+        return marker if text is None else text
 
     def _validate_key(self, key: Value) -> None:
         """Validate that a value can be used as a key."""
         if key.payload is not None:
-            if isinstance(key.payload, Sequence):
+            if isinstance(key.payload, (Sequence, StyxObject)):
                 raise ParseError("invalid key", key.span)
-            if isinstance(key.payload, Scalar) and key.payload.kind == ScalarKind.HEREDOC:
+            if key.tag is None and key.payload.kind == ScalarKind.HEREDOC:
                 # Point at just the opening marker (<<TAG), not the whole content
                 error_span = self._heredoc_start_span(key.payload.span)
                 raise ParseError("invalid key", error_span)
 
     def _heredoc_start_span(self, heredoc_span: Span) -> Span:
         """Get the span of just the heredoc opening marker (<<TAG\\n)."""
-        text = self.source[heredoc_span.start : heredoc_span.end]
-        newline_idx = text.find("\n")
+        text = self.source.encode("utf-8")[heredoc_span.start : heredoc_span.end]
+        newline_idx = text.find(b"\n")
         end_offset = newline_idx + 1 if newline_idx >= 0 else len(text)
         return Span(heredoc_span.start, heredoc_span.start + end_offset)
 
-    def _expand_dotted_path_with_state(
-        self, path_text: str, span: Span, path_state: PathState
-    ) -> Entry:
-        """Expand a dotted path into nested objects with path state validation."""
-        segments = path_text.split(".")
-
-        if any(s == "" for s in segments):
-            raise ParseError("invalid key", span)
-
+    def _expand_dotted_path(self, segments: list[str], span: Span, value: Value) -> Entry:
+        """Expand a dotted path into nested objects."""
         # Calculate spans for each segment
         segment_spans: list[Span] = []
         offset = span.start
@@ -314,18 +266,6 @@ class Parser:
             segment_spans.append(Span(offset, offset + segment_bytes))
             offset += segment_bytes + 1  # +1 for the dot
 
-        # Parse the value
-        value = self._parse_value()
-
-        # Determine value kind
-        if value.payload is not None and isinstance(value.payload, StyxObject):
-            kind = PathValueKind.OBJECT
-        else:
-            kind = PathValueKind.TERMINAL
-
-        # Check and update path state - use full path span for error messages
-        path_state.check_and_update(segments, span, kind)
-
         # Build nested objects from inside out
         # Object spans start at the PREVIOUS segment's position (i-1)
         last_key_end = segment_spans[-1].end
@@ -355,66 +295,6 @@ class Parser:
 
         return Entry(key=outer_key, value=result)
 
-    def _expand_dotted_path(self, path_text: str, span: Span, seen_keys: dict[str, Span]) -> Entry:
-        """Expand a dotted path into nested objects."""
-        segments = path_text.split(".")
-
-        if any(s == "" for s in segments):
-            raise ParseError("invalid key", span)
-
-        first_segment = segments[0]
-        if first_segment in seen_keys:
-            raise ParseError("duplicate key", span)
-        seen_keys[first_segment] = span
-
-        segment_spans: list[Span] = []
-        offset = span.start
-        for segment in segments:
-            segment_bytes = len(segment.encode("utf-8"))
-            segment_spans.append(Span(offset, offset + segment_bytes))
-            offset += segment_bytes + 1
-
-        value = self._parse_value()
-
-        result = value
-        for i in range(len(segments) - 1, 0, -1):
-            seg_span = segment_spans[i]
-            segment_key = Value(
-                span=seg_span,
-                payload=Scalar(text=segments[i], kind=ScalarKind.BARE, span=seg_span),
-            )
-            result = Value(
-                span=span,
-                payload=StyxObject(
-                    entries=[Entry(key=segment_key, value=result)],
-                    span=span,
-                ),
-            )
-
-        first_span = segment_spans[0]
-        outer_key = Value(
-            span=first_span,
-            payload=Scalar(text=first_segment, kind=ScalarKind.BARE, span=first_span),
-        )
-
-        return Entry(key=outer_key, value=result)
-
-    def _parse_attribute_value(self) -> Value:
-        """Parse a value in attribute context."""
-        if self._check(TokenType.LBRACE):
-            obj = self._parse_object()
-            return Value(span=obj.span, payload=obj)
-        if self._check(TokenType.LPAREN):
-            seq = self._parse_sequence()
-            return Value(span=seq.span, payload=seq)
-        if self._check(TokenType.TAG):
-            return self._parse_tag_value()
-        if self._check(TokenType.AT):
-            at_token = self._advance()
-            return Value(span=at_token.span)
-        scalar = self._parse_scalar()
-        return Value(span=scalar.span, payload=scalar)
-
     def _parse_tag_value(self) -> Value:
         """Parse a tag with optional payload."""
         start = self.current.span.start
@@ -436,12 +316,7 @@ class Parser:
                 return Value(span=at_token.span, tag=tag)
             # If there's something else immediately after the tag (like /package),
             # it's an invalid tag name. Span starts at the @.
-            if not self._check(
-                TokenType.EOF,
-                TokenType.RBRACE,
-                TokenType.RPAREN,
-                TokenType.COMMA,
-            ):
+            if self._check(TokenType.SCALAR, TokenType.TAG):
                 raise ParseError("invalid tag name", Span(start, self.current.span.end))
 
         return Value(span=Span(start, tag_token.span.end), tag=tag)
@@ -450,14 +325,7 @@ class Parser:
         """Parse a value."""
         if self._check(TokenType.AT):
             at_token = self._advance()
-            if not self.current.had_whitespace_before and not self._check(
-                TokenType.EOF,
-                TokenType.RBRACE,
-                TokenType.RPAREN,
-                TokenType.COMMA,
-                TokenType.LBRACE,
-                TokenType.LPAREN,
-            ):
+            if not self.current.had_whitespace_before and self._check(TokenType.SCALAR):
                 # Error span includes the @ (it's part of the tag)
                 raise ParseError(
                     "invalid tag name", Span(at_token.span.start, self.current.span.end)
@@ -479,14 +347,8 @@ class Parser:
             scalar_token = self._advance()
             next_token = self.current
 
-            # Attribute syntax: scalar>value - but only if there's actually a value after >
-            # If > is at EOF or followed by newline, just treat scalar as the value
-            if (
-                next_token.type == TokenType.GT
-                and not next_token.had_whitespace_before
-                and not self._peek().had_newline_before
-                and self._peek().type != TokenType.EOF
-            ):
+            # Attribute syntax: scalar>value
+            if next_token.type == TokenType.GT and not next_token.had_whitespace_before:
                 return self._parse_attributes_starting_with(scalar_token)
 
             return Value(
@@ -501,33 +363,20 @@ class Parser:
         scalar = self._parse_scalar()
         return Value(span=scalar.span, payload=scalar)
 
-    def _parse_attributes_starting_with(self, first_key_token: Token) -> Value:
+    def _parse_attributes_starting_with(self, key_token: Token) -> Value:
         """Parse attribute syntax (key>value key>value ...)."""
         attrs: list[Entry] = []
-        start_span = first_key_token.span
-
-        self._expect(TokenType.GT)
-        first_key = Value(
-            span=first_key_token.span,
-            payload=Scalar(
-                text=first_key_token.text,
-                kind=ScalarKind.BARE,
-                span=first_key_token.span,
-            ),
-        )
-        first_value = self._parse_attribute_value()
-        attrs.append(Entry(key=first_key, value=first_value))
-
-        end_span = first_value.span
-
-        while self._check(TokenType.SCALAR) and not self.current.had_newline_before:
-            key_token = self.current
-            next_token = self._peek()
-            if next_token.type != TokenType.GT or next_token.had_whitespace_before:
-                break
-
-            self._advance()
-            self._advance()
+        seen_keys: set[str] = set()
+        start_span = key_token.span
+
+        while True:
+            gt_token = self._expect(TokenType.GT)
+            # The value follows immediately
+            if self.current.had_whitespace_before or self._check(TokenType.EOF):
+                raise ParseError("expected a value", gt_token.span)
+            if key_token.text in seen_keys:
+                raise ParseError("duplicate key", key_token.span)
+            seen_keys.add(key_token.text)
 
             attr_key = Value(
                 span=key_token.span,
@@ -537,11 +386,21 @@ class Parser:
                     span=key_token.span,
                 ),
             )
-
-            attr_value = self._parse_attribute_value()
+            attr_value = self._parse_value()
             attrs.append(Entry(key=attr_key, value=attr_value))
             end_span = attr_value.span
 
+            if (
+                not self._check(TokenType.SCALAR)
+                or self.current.had_newline_before
+                or self.current.had_doc_before
+            ):
+                break
+            next_token = self._peek()
+            if next_token.type != TokenType.GT or next_token.had_whitespace_before:
+                break
+            key_token = self._advance()
+
         obj = StyxObject(
             entries=attrs,
             span=Span(start_span.start, end_span.end),
@@ -572,17 +431,7 @@ class Parser:
         """Parse an object."""
         open_brace = self._expect(TokenType.LBRACE)
         start = open_brace.span.start
-        entries: list[Entry] = []
-        seen_keys: dict[str, Span] = {}
-
-        while not self._check(TokenType.RBRACE, TokenType.EOF):
-            entry = self._parse_entry_with_dup_check(seen_keys)
-            if entry:
-                entries.append(entry)
-
-            # Skip commas (mixed separators now allowed)
-            if self._check(TokenType.COMMA):
-                self._advance()
+        entries = self._parse_entries()
 
         if self._check(TokenType.EOF):
             raise ParseError("unclosed object (missing `}`)", open_brace.span)
-- 
2.43.0


From ff0ee335c8c899005dbce0c4bb3068ae94e8e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:00 +0000
Subject: [PATCH 72/86] fix: styx-js: read every document the way the reference
 parser does

---
 implementations/styx-js/src/lexer.ts  | 206 ++++++------
 implementations/styx-js/src/parser.ts | 452 +++++++-------------------
 implementations/styx-js/src/types.ts  |  87 +++--
 3 files changed, 251 insertions(+), 494 deletions(-)

diff --git a/implementations/styx-js/src/lexer.ts b/implementations/styx-js/src/lexer.ts
index 1f8ac6a..d400509 100644
--- a/implementations/styx-js/src/lexer.ts
+++ b/implementations/styx-js/src/lexer.ts
@@ -24,15 +24,21 @@ export interface Token {
   hadWhitespaceBefore: boolean;
   /** True if there was a newline before this token */
   hadNewlineBefore: boolean;
+  /** True if there was a doc comment before this token */
+  hadDocBefore?: boolean;
 }
 
-const SPECIAL_CHARS = new Set(["{", "}", "(", ")", ",", '"', ">", " ", "\t", "\n", "\r"]);
+const SPECIAL_CHARS = new Set(["{", "}", "(", ")", ",", '"', ">"]);
+
+const WHITESPACE_RE = /\p{White_Space}/u;
+const HEREDOC_OPEN_RE = /<<([A-Z][A-Z0-9_]*)(?:,(?:[a-z][a-z0-9_.\-]*)?)?\r?\n?/y;
+const MAX_HEREDOC_DELIMITER = 16;
+const UNICODE_ESCAPE_RE = /\{([0-9A-Fa-f]+)\}|([0-9A-Fa-f]{4})/y;
 
 export class Lexer {
   private pos = 0; // character position
   private bytePos = 0; // byte position for spans
-  private line = 1;
-  private col = 1;
+  private hadDoc = false; // whether a doc comment was skipped before the current token
 
   constructor(private source: string) {}
 
@@ -56,15 +62,22 @@ export class Lexer {
 
     // Calculate UTF-8 byte length of the character
     this.bytePos += this.utf8ByteLength(ch);
-    if (ch === "\n") {
-      this.line++;
-      this.col = 1;
-    } else {
-      this.col++;
-    }
     return ch;
   }
 
+  /** Consume characters up to a position. */
+  private advanceTo(pos: number): void {
+    while (this.pos < pos) {
+      this.advance();
+    }
+  }
+
+  /** Match a sticky pattern at a position. */
+  private matchAt(pattern: RegExp, pos: number): RegExpExecArray | null {
+    pattern.lastIndex = pos;
+    return pattern.exec(this.source);
+  }
+
   private utf8ByteLength(ch: string): number {
     // Use TextEncoder to get accurate UTF-8 byte length
     // This handles surrogate pairs and all Unicode correctly
@@ -79,19 +92,21 @@ export class Lexer {
   private skipWhitespaceAndComments(): { hadWhitespace: boolean; hadNewline: boolean } {
     let hadWhitespace = false;
     let hadNewline = false;
+    this.hadDoc = false;
     while (this.pos < this.source.length) {
       const ch = this.peek();
-      if (ch === " " || ch === "\t" || ch === "\r") {
+      if (ch === " " || ch === "\t") {
         hadWhitespace = true;
         this.advance();
-      } else if (ch === "\n") {
+      } else if (ch === "\n" || (ch === "\r" && this.peek(1) === "\n")) {
         hadWhitespace = true;
         hadNewline = true;
-        this.advance();
+        this.advanceTo(this.pos + (ch === "\n" ? 1 : 2));
       } else if (ch === "/" && this.peek(1) === "/") {
         // Line comment - skip to end of line
         hadWhitespace = true;
-        while (this.pos < this.source.length && this.peek() !== "\n") {
+        this.hadDoc ||= this.peek(2) === "/";
+        while (this.pos < this.source.length && this.peek() !== "\n" && this.peek() !== "\r") {
           this.advance();
         }
       } else {
@@ -102,6 +117,12 @@ export class Lexer {
   }
 
   nextToken(): Token {
+    const token = this.readToken();
+    token.hadDocBefore = this.hadDoc;
+    return token;
+  }
+
+  private readToken(): Token {
     const { hadWhitespace, hadNewline } = this.skipWhitespaceAndComments();
 
     if (this.pos >= this.source.length) {
@@ -185,7 +206,9 @@ export class Lexer {
       // Check if it's a tag name
       if (this.isTagStart(this.peek())) {
         const nameStart = this.pos;
-        while (this.isTagChar(this.peek())) {
+        // A tag ends where a raw string starts
+        this.advance();
+        while (this.isTagChar(this.peek()) && !(this.peek() === "r" && this.peek(1) === "#")) {
           this.advance();
         }
         const name = this.source.slice(nameStart, this.pos);
@@ -218,22 +241,21 @@ export class Lexer {
 
     // Heredoc - only if << is followed by uppercase letter
     if (ch === "<" && this.peek(1) === "<") {
-      const afterLtLt = this.peek(2);
-      if (afterLtLt >= "A" && afterLtLt <= "Z") {
-        return this.readHeredoc(start, hadWhitespace, hadNewline);
+      const opening = this.matchAt(HEREDOC_OPEN_RE, this.pos);
+      if (opening && opening[1].length <= MAX_HEREDOC_DELIMITER) {
+        return this.readHeredoc(opening, start, hadWhitespace, hadNewline);
       }
-      // << not followed by uppercase - return error at just <<
+      // << not followed by a delimiter - return error at just <<
       this.advance(); // <
       this.advance(); // <
-      const errorEnd = this.bytePos;
-      // Skip rest of line for recovery
-      while (this.pos < this.source.length && this.peek() !== "\n") {
-        this.advance();
-      }
-      throw new ParseError("unexpected token", { start, end: errorEnd });
+      throw new ParseError("unexpected token", { start, end: this.bytePos });
     }
 
     // Bare scalar
+    if (ch === "=" || WHITESPACE_RE.test(ch)) {
+      this.advance();
+      throw new ParseError("unexpected token", { start, end: this.bytePos });
+    }
     return this.readBareScalar(start, hadWhitespace, hadNewline);
   }
 
@@ -283,7 +305,7 @@ export class Lexer {
             text += '"';
             break;
           case "u":
-            text += this.readUnicodeEscape();
+            text += this.readUnicodeEscape(escapeStart);
             break;
           default:
             // Unknown escape - this is a parse error
@@ -292,13 +314,6 @@ export class Lexer {
               end: this.bytePos,
             });
         }
-      } else if (ch === "\n" || ch === "\r") {
-        // Unterminated string - include the newline in the span
-        this.advance();
-        if (ch === "\r" && this.peek() === "\n") {
-          this.advance();
-        }
-        throw new ParseError("unexpected token", { start, end: this.bytePos });
       } else {
         text += this.advance();
       }
@@ -308,25 +323,18 @@ export class Lexer {
     throw new ParseError("unexpected token", { start, end: this.bytePos });
   }
 
-  private readUnicodeEscape(): string {
-    if (this.peek() === "{") {
-      this.advance(); // {
-      let hex = "";
-      while (this.peek() !== "}" && this.pos < this.source.length) {
-        hex += this.advance();
-      }
-      this.advance(); // }
-      const codePoint = parseInt(hex, 16);
-      return String.fromCodePoint(codePoint);
-    } else {
-      // \uXXXX format
-      let hex = "";
-      for (let i = 0; i < 4; i++) {
-        hex += this.advance();
-      }
-      const codePoint = parseInt(hex, 16);
-      return String.fromCodePoint(codePoint);
+  private readUnicodeEscape(escapeStart: number): string {
+    // \u{X...} or \uXXXX
+    const digits = this.matchAt(UNICODE_ESCAPE_RE, this.pos);
+    const codePoint = digits ? parseInt(digits[1] ?? digits[2], 16) : -1;
+    if (!digits || codePoint > 0x10ffff || (codePoint >= 0xd800 && codePoint <= 0xdfff)) {
+      throw new ParseError("invalid escape sequence: \\u", {
+        start: escapeStart,
+        end: this.bytePos,
+      });
     }
+    this.advanceTo(UNICODE_ESCAPE_RE.lastIndex);
+    return String.fromCodePoint(codePoint);
   }
 
   private readRawString(start: number, hadWhitespace: boolean, hadNewline: boolean): Token {
@@ -336,6 +344,9 @@ export class Lexer {
       this.advance();
       hashes++;
     }
+    if (this.peek() !== '"') {
+      throw new ParseError("unexpected token", { start, end: this.bytePos });
+    }
     this.advance(); // opening "
 
     let text = "";
@@ -361,71 +372,40 @@ export class Lexer {
     throw new ParseError("unclosed raw string", { start, end: this.bytePos });
   }
 
-  private readHeredoc(start: number, hadWhitespace: boolean, hadNewline: boolean): Token {
-    this.advance(); // <
-    this.advance(); // <
-
-    // Read delimiter (and optional language hint)
-    let delimiter = "";
-    while (this.pos < this.source.length && this.peek() !== "\n") {
-      delimiter += this.advance();
-    }
-    if (this.pos < this.source.length) {
-      this.advance(); // newline
-    }
-
-    // Track content start (after the opening line)
-    const contentStart = this.bytePos;
-
-    // Read content until delimiter on its own line
-    let text = "";
-    const bareDelimiter = delimiter.split(",")[0];
-
-    while (this.pos < this.source.length) {
-      // Read a line
-      let line = "";
-      while (this.pos < this.source.length && this.peek() !== "\n") {
-        line += this.advance();
-      }
-
-      // Check for exact match (no indentation)
-      if (line === bareDelimiter) {
-        // Language hint is metadata only, does not affect content (r[scalar.heredoc.lang])
-        return {
-          type: "heredoc",
-          text,
-          span: { start, end: this.bytePos },
-          hadWhitespaceBefore: hadWhitespace,
-          hadNewlineBefore: hadNewline,
-        };
-      }
-
-      // Check for indented closing delimiter
-      const stripped = line.replace(/^[ \t]+/, "");
-      if (stripped === bareDelimiter) {
-        const indentLen = line.length - stripped.length;
-        // Dedent the content by stripping up to indentLen from each line
-        const result = this.dedentHeredoc(text, indentLen);
-        // Language hint is metadata only, does not affect content (r[scalar.heredoc.lang])
-        return {
-          type: "heredoc",
-          text: result,
-          span: { start, end: this.bytePos },
-          hadWhitespaceBefore: hadWhitespace,
-          hadNewlineBefore: hadNewline,
-        };
-      }
-
-      // Add line to content
-      text += line;
-      if (this.pos < this.source.length && this.peek() === "\n") {
-        this.advance();
-        text += "\n";
+  private readHeredoc(
+    opening: RegExpExecArray,
+    start: number,
+    hadWhitespace: boolean,
+    hadNewline: boolean,
+  ): Token {
+    // The delimiter alone on a line, maybe indented, closes the heredoc
+    const closing = new RegExp(`([ \\t]*)${opening[1]}(?=\\r?\\n|$)`, "y");
+    this.advanceTo(this.pos + opening[0].length);
+    const contentStart = this.pos;
+    const contentStartByte = this.bytePos;
+
+    let line = contentStart;
+    let close = this.matchAt(closing, line);
+    while (!close) {
+      const newline = this.source.indexOf("\n", line);
+      if (newline < 0) {
+        // Heredoc without closing delimiter - error points at the unmatched content
+        this.advanceTo(this.source.length);
+        throw new ParseError("unexpected token", { start: contentStartByte, end: this.bytePos });
       }
+      line = newline + 1;
+      close = this.matchAt(closing, line);
     }
 
-    // Heredoc without closing delimiter - error points at the unmatched content
-    throw new ParseError("unexpected token", { start: contentStart, end: this.bytePos });
+    this.advanceTo(line + close[0].length);
+    // Language hint is metadata only, does not affect content (r[scalar.heredoc.lang])
+    return {
+      type: "heredoc",
+      text: this.dedentHeredoc(this.source.slice(contentStart, line), close[1].length),
+      span: { start, end: this.bytePos },
+      hadWhitespaceBefore: hadWhitespace,
+      hadNewlineBefore: hadNewline,
+    };
   }
 
   /** Strip up to indentLen whitespace characters from the start of each line. */
@@ -453,7 +433,7 @@ export class Lexer {
     let text = "";
     while (this.pos < this.source.length) {
       const ch = this.peek();
-      if (SPECIAL_CHARS.has(ch)) {
+      if (SPECIAL_CHARS.has(ch) || WHITESPACE_RE.test(ch)) {
         break;
       }
       text += this.advance();
diff --git a/implementations/styx-js/src/parser.ts b/implementations/styx-js/src/parser.ts
index 0f867dd..f8946b5 100644
--- a/implementations/styx-js/src/parser.ts
+++ b/implementations/styx-js/src/parser.ts
@@ -55,30 +55,24 @@ export class Parser {
   }
 
   parse(): Document {
-    const entries: Entry[] = [];
     const start = this.current.span.start;
-    const pathState = new PathState();
 
-    // Check for explicit root object: { ... } at document start
-    // Skip any leading commas first (just like parseEntryWithPathCheck does)
+    // Skip any leading commas
+    let docBefore = this.current.hadDocBefore ?? false;
     while (this.check("comma")) {
       this.advance();
+      docBefore ||= this.current.hadDocBefore ?? false;
     }
 
-    if (this.check("lbrace")) {
+    // Check for explicit root object: { ... } at document start
+    if (this.check("lbrace") && !docBefore) {
       // Explicit root object - parse it and check for trailing content
       const obj = this.parseObject();
       const objValue: Value = { payload: obj, span: obj.span };
       const unitKey: Value = { span: { start: -1, end: -1 } };
-      entries.push({ key: unitKey, value: objValue });
 
       // After explicit root object, only whitespace/comments/EOF are allowed
-      // Skip commas (they don't count as "content")
-      while (this.check("comma")) {
-        this.advance();
-      }
-
-      if (!this.check("eof")) {
+      if (!this.check("eof") || this.current.hadDocBefore) {
         // Find the span of trailing content
         const trailingStart = this.current.span.start;
         // Consume tokens to find the end of all trailing content
@@ -94,16 +88,14 @@ export class Parser {
       }
 
       return {
-        entries,
+        entries: [{ key: unitKey, value: objValue }],
         span: { start, end: this.current.span.end },
       };
     }
 
-    while (!this.check("eof")) {
-      const entry = this.parseEntryWithPathCheck(pathState);
-      if (entry) {
-        entries.push(entry);
-      }
+    const entries = this.parseEntries(docBefore);
+    if (!this.check("eof")) {
+      throw new ParseError("invalid key", this.current.span);
     }
 
     return {
@@ -112,74 +104,91 @@ export class Parser {
     };
   }
 
-  private parseEntryWithPathCheck(pathState: PathState): Entry | null {
-    while (this.check("comma")) {
-      this.advance();
-    }
+  /** Parse entries up to a closing brace or the end of input. */
+  private parseEntries(docBefore = false): Entry[] {
+    const entries: Entry[] = [];
+    const pathState = new PathState();
 
-    // Trailing > without a value is a parse error
-    if (this.check("gt")) {
-      throw new ParseError("expected a value", this.current.span);
+    for (;;) {
+      docBefore ||= this.current.hadDocBefore ?? false;
+      if (this.check("comma")) {
+        this.advance();
+      } else if (this.check("rbrace", "eof")) {
+        break;
+      } else {
+        entries.push(this.parseEntry(pathState));
+        docBefore = false;
+      }
     }
 
-    if (this.check("eof", "rbrace")) {
-      return null;
+    if (docBefore) {
+      throw new ParseError("dangling doc comment", this.current.span);
     }
+    return entries;
+  }
 
-    // Parse the key
-    const key = this.parseValue();
+  /** Whether the current token does not belong to the entry before it. */
+  private atEntryEnd(): boolean {
+    return (
+      this.current.hadNewlineBefore ||
+      this.current.hadDocBefore === true ||
+      this.check("eof", "comma", "rbrace", "rparen")
+    );
+  }
 
-    // Special case: object in key position gets implicit unit key
-    if (key.payload?.type === "object") {
-      if (!this.current.hadNewlineBefore && !this.check("eof", "rbrace", "comma")) {
-        this.parseValue(); // Drop trailing value
-      }
-      const unitKey: Value = { span: { start: -1, end: -1 } };
-      return { key: unitKey, value: key };
+  /** Parse an entry: a key, and a value unless it is implicit. */
+  private parseEntry(pathState: PathState): Entry {
+    // Stray > without a value is a parse error
+    if (this.check("gt")) {
+      throw new ParseError("expected a value", this.current.span);
     }
 
-    // Check for dotted path in bare scalar key
-    if (key.payload?.type === "scalar" && key.payload.kind === "bare") {
-      const text = key.payload.text;
-      if (text.includes(".")) {
-        return this.expandDottedPathWithState(text, key.span, pathState);
+    const key = this.parseValue();
+    const bareText =
+      !key.tag && key.payload?.type === "scalar" && key.payload.kind === "bare"
+        ? key.payload.text
+        : null;
+    if (
+      bareText !== null &&
+      this.check("lbrace", "lparen") &&
+      !this.current.hadWhitespaceBefore
+    ) {
+      throw new ParseError("missing whitespace before block", this.current.span);
+    }
+
+    let value: Value;
+    if (this.atEntryEnd()) {
+      // Implicit unit - no value provided
+      value = { span: key.span };
+    } else {
+      value = this.parseValue();
+      if (!this.atEntryEnd()) {
+        const extra = this.parseValue();
+        throw new ParseError("unexpected value after entry", extra.span);
       }
     }
 
-    // Get key text for path state
-    const keyText = this.getKeyText(key);
-
-    // Validate key
-    this.validateKey(key);
-
-    // Check for implicit unit (key followed by newline, EOF, or closing brace)
-    if (this.current.hadNewlineBefore || this.check("eof", "rbrace")) {
-      if (keyText !== null) {
-        pathState.checkAndUpdate([keyText], key.span, "terminal");
+    // A dotted path is a bare scalar with dots
+    let segments: string[];
+    const isPath = bareText !== null && bareText.includes(".");
+    if (isPath) {
+      segments = bareText.split(".");
+      if (segments.some((s) => s === "")) {
+        throw new ParseError("invalid key", key.span);
       }
-      const unitValue: Value = { span: key.span };
-      return { key, value: unitValue };
+    } else {
+      this.validateKey(key);
+      segments = [this.getKeyText(key)];
     }
 
-    // Parse the value
-    const value = this.parseValue();
-
-    // Determine kind from actual value
-    if (keyText !== null) {
-      const kind: PathValueKind = value.payload?.type === "object" ? "object" : "terminal";
-      pathState.checkAndUpdate([keyText], key.span, kind);
-    }
+    const kind: PathValueKind =
+      !value.tag && value.payload?.type === "object" ? "object" : "terminal";
+    pathState.checkAndUpdate(segments, key.span, kind);
 
-    return { key, value };
+    return isPath ? this.expandDottedPath(segments, key.span, value) : { key, value };
   }
 
-  private expandDottedPathWithState(pathText: string, span: Span, pathState: PathState): Entry {
-    const segments = pathText.split(".");
-
-    if (segments.some((s) => s === "")) {
-      throw new ParseError("invalid key", span);
-    }
-
+  private expandDottedPath(segments: string[], span: Span, value: Value): Entry {
     // Calculate byte offsets for each segment
     const segmentSpans: Span[] = [];
     let offset = span.start;
@@ -189,14 +198,6 @@ export class Parser {
       offset += segmentBytes + 1; // +1 for the dot
     }
 
-    const value = this.parseValue();
-
-    // Determine value kind
-    const kind: PathValueKind = value.payload?.type === "object" ? "object" : "terminal";
-
-    // Check and update path state - use full path span for error messages
-    pathState.checkAndUpdate(segments, span, kind);
-
     // Build nested structure from inside out
     // Object spans start at the PREVIOUS segment's position (i-1)
     const lastKeyEnd = segmentSpans[segments.length - 1].end;
@@ -239,86 +240,25 @@ export class Parser {
     return { key: outerKey, value: result };
   }
 
-  private parseEntryWithDupCheck(seenKeys: Map<string, Span>): Entry | null {
-    while (this.check("comma")) {
-      this.advance();
-    }
-
-    // Trailing > without a value is a parse error
-    if (this.check("gt")) {
-      throw new ParseError("expected a value", this.current.span);
-    }
-
-    if (this.check("eof", "rbrace")) {
-      return null;
-    }
-
-    // Parse the key
-    const key = this.parseValue();
-
-    // Special case: object in key position gets implicit unit key
-    // The parsed "value" is dropped (matches Rust styx_tree behavior)
-    if (key.payload?.type === "object") {
-      // Skip any trailing value on the same line
-      if (!this.current.hadNewlineBefore && !this.check("eof", "rbrace", "comma")) {
-        this.parseValue(); // Drop it
-      }
-      const unitKey: Value = { span: { start: -1, end: -1 } };
-      return { key: unitKey, value: key };
-    }
-
-    // Check for dotted path in bare scalar key
-    if (key.payload?.type === "scalar" && key.payload.kind === "bare") {
-      const text = key.payload.text;
-      if (text.includes(".")) {
-        return this.expandDottedPath(text, key.span, seenKeys);
-      }
-    }
-
-    // Check for duplicate key
-    const keyText = this.getKeyText(key);
-    if (keyText !== null) {
-      const existing = seenKeys.get(keyText);
-      if (existing) {
-        throw new ParseError(`duplicate key`, key.span);
-      }
-      seenKeys.set(keyText, key.span);
-    }
-
-    // Validate key
-    this.validateKey(key);
-
-    // Check for implicit unit (key followed by newline, EOF, or closing brace)
-    if (this.current.hadNewlineBefore || this.check("eof", "rbrace")) {
-      // Implicit unit - no value provided
-      const unitValue: Value = { span: key.span };
-      return { key, value: unitValue };
-    }
-
-    // Parse the value
-    const value = this.parseValue();
-
-    return { key, value };
-  }
-
-  private getKeyText(key: Value): string | null {
-    if (key.payload?.type === "scalar") {
-      return key.payload.text;
-    }
-    if (key.tag && !key.payload) {
-      return `@${key.tag.name}`;
+  /** Get the text which tells keys apart. */
+  private getKeyText(key: Value): string {
+    // No text holds this unpaired surrogate
+    const marker = "\ud800";
+    const text = key.payload?.type === "scalar" ? key.payload.text : null;
+    if (key.tag) {
+      return marker + key.tag.name + (text === null ? "" : marker + text);
     }
-    return null;
+    return text ?? marker;
   }
 
   private validateKey(key: Value): void {
     if (key.payload) {
-      // Sequences cannot be used as keys
-      if (key.payload.type === "sequence") {
+      // Sequences and objects cannot be used as keys
+      if (key.payload.type !== "scalar") {
         throw new ParseError(`invalid key`, key.span);
       }
       // Heredocs cannot be used as keys
-      if (key.payload.type === "scalar" && key.payload.kind === "heredoc") {
+      if (!key.tag && key.payload.kind === "heredoc") {
         // Point at just the opening marker (<<TAG), not the whole content
         const errorSpan = this.heredocStartSpan(key.payload.span);
         throw new ParseError(`invalid key`, errorSpan);
@@ -328,94 +268,13 @@ export class Parser {
 
   /** Get the span of just the heredoc opening marker (<<TAG\n). */
   private heredocStartSpan(heredocSpan: Span): Span {
-    const text = this.source.slice(heredocSpan.start, heredocSpan.end);
-    const newlineIdx = text.indexOf("\n");
+    const bytes = new TextEncoder().encode(this.source);
+    const text = bytes.slice(heredocSpan.start, heredocSpan.end);
+    const newlineIdx = text.indexOf(0x0a);
     const endOffset = newlineIdx >= 0 ? newlineIdx + 1 : text.length;
     return { start: heredocSpan.start, end: heredocSpan.start + endOffset };
   }
 
-  private expandDottedPath(pathText: string, span: Span, seenKeys: Map<string, Span>): Entry {
-    const segments = pathText.split(".");
-
-    if (segments.some((s) => s === "")) {
-      throw new ParseError(`invalid key`, span);
-    }
-
-    const firstSegment = segments[0];
-    const existing = seenKeys.get(firstSegment);
-    if (existing) {
-      throw new ParseError(`duplicate key`, span);
-    }
-    seenKeys.set(firstSegment, span);
-
-    // Calculate byte offsets for each segment
-    const segmentSpans: Span[] = [];
-    let offset = span.start;
-    for (let i = 0; i < segments.length; i++) {
-      const segmentBytes = new TextEncoder().encode(segments[i]).length;
-      segmentSpans.push({ start: offset, end: offset + segmentBytes });
-      offset += segmentBytes + 1; // +1 for the dot
-    }
-
-    const value = this.parseValue();
-
-    // Build nested structure from inside out
-    let result: Value = value;
-    for (let i = segments.length - 1; i >= 1; i--) {
-      const segSpan = segmentSpans[i];
-      const segmentKey: Value = {
-        payload: {
-          type: "scalar",
-          text: segments[i],
-          kind: "bare",
-          span: segSpan,
-        },
-        span: segSpan,
-      };
-      result = {
-        payload: {
-          type: "object",
-          entries: [{ key: segmentKey, value: result }],
-          span,
-        },
-        span,
-      };
-    }
-
-    const firstSpan = segmentSpans[0];
-    const outerKey: Value = {
-      payload: {
-        type: "scalar",
-        text: firstSegment,
-        kind: "bare",
-        span: firstSpan,
-      },
-      span: firstSpan,
-    };
-
-    return { key: outerKey, value: result };
-  }
-
-  private parseAttributeValue(): Value {
-    if (this.check("lbrace")) {
-      const obj = this.parseObject();
-      return { payload: obj, span: obj.span };
-    }
-    if (this.check("lparen")) {
-      const seq = this.parseSequence();
-      return { payload: seq, span: seq.span };
-    }
-    if (this.check("tag")) {
-      return this.parseTagValue();
-    }
-    if (this.check("at")) {
-      const atToken = this.advance();
-      return { span: atToken.span };
-    }
-    const scalar = this.parseScalar();
-    return { payload: scalar, span: scalar.span };
-  }
-
   private parseTagValue(): Value {
     const start = this.current.span.start;
     const tagToken = this.advance();
@@ -426,7 +285,7 @@ export class Parser {
 
     if (!this.current.hadWhitespaceBefore) {
       // Check for invalid tag continuation (e.g., @org/package where / is not a valid tag char)
-      if (this.check("scalar")) {
+      if (this.check("scalar", "tag")) {
         throw new ParseError("invalid tag name", { start, end: this.current.span.end });
       }
       if (this.check("lbrace")) {
@@ -455,10 +314,7 @@ export class Parser {
     if (this.check("at")) {
       const atToken = this.advance();
       // Check for invalid tag name: @ followed immediately by non-tag-start character
-      if (
-        !this.current.hadWhitespaceBefore &&
-        !this.check("eof", "rbrace", "rparen", "comma", "lbrace", "lparen")
-      ) {
+      if (!this.current.hadWhitespaceBefore && this.check("scalar")) {
         // This looks like @123 or @-foo - invalid tag name
         // Error span includes the @ (it's part of the tag)
         throw new ParseError(`invalid tag name`, {
@@ -490,14 +346,7 @@ export class Parser {
 
       if (nextToken.type === "gt" && !nextToken.hadWhitespaceBefore) {
         // Attribute syntax: key>value
-        this.advance(); // consume >
-        const afterGT = this.current;
-        if (afterGT.hadNewlineBefore || this.check("eof", "rbrace", "rparen")) {
-          // Trailing > without a value is a parse error
-          throw new ParseError("expected a value", nextToken.span);
-        }
-        // Parse as attributes (we already consumed >)
-        return this.parseAttributesAfterGT(scalarToken);
+        return this.parseAttributesStartingWith(scalarToken);
       }
 
       return {
@@ -515,34 +364,23 @@ export class Parser {
     return { payload: scalar, span: scalar.span };
   }
 
+  /** Parse attribute syntax (key>value key>value ...). */
   private parseAttributesStartingWith(firstKeyToken: Token): Value {
     const attrs: Entry[] = [];
-    const startSpan = firstKeyToken.span;
-
-    this.expect("gt");
-    const firstKey: Value = {
-      payload: {
-        type: "scalar",
-        text: firstKeyToken.text,
-        kind: "bare",
-        span: firstKeyToken.span,
-      },
-      span: firstKeyToken.span,
-    };
-    const firstValue = this.parseAttributeValue();
-    attrs.push({ key: firstKey, value: firstValue });
-
-    let endSpan = firstValue.span;
-
-    while (this.check("scalar") && !this.current.hadNewlineBefore) {
-      const keyToken = this.current;
-      const nextToken = this.peek();
-      if (nextToken.type !== "gt" || nextToken.hadWhitespaceBefore) {
-        break;
+    const seenKeys = new Set<string>();
+    let keyToken = firstKeyToken;
+    let endSpan: Span;
+
+    for (;;) {
+      const gtToken = this.expect("gt");
+      // The value follows immediately
+      if (this.current.hadWhitespaceBefore || this.check("eof")) {
+        throw new ParseError("expected a value", gtToken.span);
       }
-
-      this.advance();
-      this.advance();
+      if (seenKeys.has(keyToken.text)) {
+        throw new ParseError("duplicate key", keyToken.span);
+      }
+      seenKeys.add(keyToken.text);
 
       const attrKey: Value = {
         payload: {
@@ -553,69 +391,24 @@ export class Parser {
         },
         span: keyToken.span,
       };
-
-      const attrValue = this.parseAttributeValue();
+      const attrValue = this.parseValue();
       attrs.push({ key: attrKey, value: attrValue });
       endSpan = attrValue.span;
-    }
 
-    const obj: StyxObject = {
-      type: "object",
-      entries: attrs,
-      span: { start: startSpan.start, end: endSpan.end },
-    };
-
-    return { payload: obj, span: obj.span };
-  }
-
-  private parseAttributesAfterGT(firstKeyToken: Token): Value {
-    // Same as parseAttributesStartingWith but > was already consumed
-    const attrs: Entry[] = [];
-    const startSpan = firstKeyToken.span;
-
-    const firstKey: Value = {
-      payload: {
-        type: "scalar",
-        text: firstKeyToken.text,
-        kind: "bare",
-        span: firstKeyToken.span,
-      },
-      span: firstKeyToken.span,
-    };
-    const firstValue = this.parseAttributeValue();
-    attrs.push({ key: firstKey, value: firstValue });
-
-    let endSpan = firstValue.span;
-
-    while (this.check("scalar") && !this.current.hadNewlineBefore) {
-      const keyToken = this.current;
+      if (!this.check("scalar") || this.current.hadNewlineBefore || this.current.hadDocBefore) {
+        break;
+      }
       const nextToken = this.peek();
       if (nextToken.type !== "gt" || nextToken.hadWhitespaceBefore) {
         break;
       }
-
-      this.advance();
-      this.advance();
-
-      const attrKey: Value = {
-        payload: {
-          type: "scalar",
-          text: keyToken.text,
-          kind: "bare",
-          span: keyToken.span,
-        },
-        span: keyToken.span,
-      };
-
-      const attrValue = this.parseAttributeValue();
-      attrs.push({ key: attrKey, value: attrValue });
-      endSpan = attrValue.span;
+      keyToken = this.advance();
     }
 
     const obj: StyxObject = {
       type: "object",
       entries: attrs,
-      span: { start: startSpan.start, end: endSpan.end },
+      span: { start: firstKeyToken.span.start, end: endSpan.end },
     };
 
     return { payload: obj, span: obj.span };
@@ -654,20 +447,7 @@ export class Parser {
   private parseObject(): StyxObject {
     const openBrace = this.expect("lbrace");
     const start = openBrace.span.start;
-    const entries: Entry[] = [];
-    const seenKeys = new Map<string, Span>();
-
-    while (!this.check("rbrace", "eof")) {
-      const entry = this.parseEntryWithDupCheck(seenKeys);
-      if (entry) {
-        entries.push(entry);
-      }
-
-      // Skip commas (mixed separators now allowed)
-      if (this.check("comma")) {
-        this.advance();
-      }
-    }
+    const entries = this.parseEntries();
 
     if (this.check("eof")) {
       throw new ParseError("unclosed object (missing `}`)", openBrace.span);
diff --git a/implementations/styx-js/src/types.ts b/implementations/styx-js/src/types.ts
index 31ed14b..81a1b09 100644
--- a/implementations/styx-js/src/types.ts
+++ b/implementations/styx-js/src/types.ts
@@ -10,64 +10,61 @@ export type ScalarKind = "bare" | "quoted" | "raw" | "heredoc";
 /** Path value kind for tracking */
 export type PathValueKind = "object" | "terminal";
 
+/** A segment of the open path, and its children that have had siblings */
+interface PathSegment {
+  key: string;
+  kind: PathValueKind;
+  closed: Set<string>;
+}
+
 /** Track path state for detecting reopen-path and nest-into-terminal errors */
 export class PathState {
-  currentPath: string[] = [];
-  closedPaths = new Set<string>();
-  assignedPaths = new Map<string, { kind: PathValueKind; span: Span }>();
+  private open: PathSegment[] = [];
+  private closed = new Set<string>(); // Top-level keys that have had siblings
 
   checkAndUpdate(path: string[], span: Span, kind: PathValueKind): void {
-    const fullPath = path.join(".");
+    // 1. Find common prefix length with the open path
+    let commonLen = 0;
+    while (
+      commonLen < Math.min(path.length, this.open.length) &&
+      this.open[commonLen].key === path[commonLen]
+    ) {
+      commonLen++;
+    }
+    if (commonLen === path.length) {
+      throw new ParseError("duplicate key", span);
+    }
 
-    // 1. Check for duplicate
-    const existing = this.assignedPaths.get(fullPath);
-    if (existing) {
-      if (existing.kind === "terminal") {
-        throw new ParseError("duplicate key", span);
-      }
-      // Both are objects - it's a reopen attempt
-      throw new ParseError(`cannot reopen path \`${fullPath}\` after sibling appeared`, span);
+    // 2. Close what is open beyond it
+    while (this.open.length > commonLen) {
+      const { key } = this.open.pop()!;
+      this.closedUnder(this.open.length).add(key);
     }
 
-    // 2. Check if any prefix is closed (has had siblings) or is terminal
-    for (let i = 1; i < path.length; i++) {
+    // 3. Open the other segments; all but the last one are objects
+    for (let i = commonLen; i < path.length; i++) {
       const prefix = path.slice(0, i).join(".");
-      if (this.closedPaths.has(prefix)) {
-        throw new ParseError(`cannot reopen path \`${prefix}\` after sibling appeared`, span);
-      }
-      const prefixEntry = this.assignedPaths.get(prefix);
-      if (prefixEntry && prefixEntry.kind === "terminal") {
+      if (i > 0 && this.open[i - 1].kind === "terminal") {
         throw new ParseError(`cannot nest into \`${prefix}\` which has a terminal value`, span);
       }
-    }
-
-    // 3. Find common prefix length with current path
-    let commonLen = 0;
-    for (let i = 0; i < Math.min(path.length, this.currentPath.length); i++) {
-      if (path[i] === this.currentPath[i]) {
-        commonLen++;
-      } else {
-        break;
-      }
-    }
-
-    // 4. Close all divergent paths from current path
-    for (let i = commonLen; i < this.currentPath.length; i++) {
-      const divergent = this.currentPath.slice(0, i + 1).join(".");
-      this.closedPaths.add(divergent);
-    }
-
-    // 5. Record intermediate segments as objects
-    for (let i = 0; i < path.length - 1; i++) {
-      const prefix = path.slice(0, i + 1).join(".");
-      if (!this.assignedPaths.has(prefix)) {
-        this.assignedPaths.set(prefix, { kind: "object", span });
+      if (this.closedUnder(i).has(path[i])) {
+        if (path.length === 1) {
+          throw new ParseError("duplicate key", span);
+        }
+        const reopened = path.slice(0, i + 1).join(".");
+        throw new ParseError(`cannot reopen path \`${reopened}\` after sibling appeared`, span);
       }
+      this.open.push({
+        key: path[i],
+        kind: i === path.length - 1 ? kind : "object",
+        closed: new Set(),
+      });
     }
+  }
 
-    // 6. Record the final path
-    this.assignedPaths.set(fullPath, { kind, span });
-    this.currentPath = [...path];
+  /** The closed children of the open path's first segments */
+  private closedUnder(length: number): Set<string> {
+    return length > 0 ? this.open[length - 1].closed : this.closed;
   }
 }
 
-- 
2.43.0


From 7e6742cb6786689ee9ecc358bbc2e5a128849c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:01 +0000
Subject: [PATCH 73/86] fix: styx-go: read every document the way the reference
 parser does

---
 implementations/styx-go/lexer.go  | 236 +++++++-------
 implementations/styx-go/parser.go | 522 +++++++++++-------------------
 2 files changed, 300 insertions(+), 458 deletions(-)

diff --git a/implementations/styx-go/lexer.go b/implementations/styx-go/lexer.go
index 41be29a..a8bc72d 100644
--- a/implementations/styx-go/lexer.go
+++ b/implementations/styx-go/lexer.go
@@ -1,7 +1,10 @@
 package styx
 
 import (
+	"regexp"
+	"strconv"
 	"strings"
+	"unicode"
 	"unicode/utf8"
 )
 
@@ -64,13 +67,32 @@ type Token struct {
 	Span                Span
 	HadWhitespaceBefore bool
 	HadNewlineBefore    bool
+	HadDocBefore        bool
+}
+
+var (
+	heredocOpening = regexp.MustCompile(`^<<([A-Z][A-Z0-9_]*)(?:,(?:[a-z][a-z0-9_.\-]*)?)?\r?\n?`)
+	unicodeEscape  = regexp.MustCompile(`^(?:\{([0-9A-Fa-f]+)\}|([0-9A-Fa-f]{4}))`)
+)
+
+const maxHeredocDelimiter = 16
+
+func newToken(tokenType TokenType, text string, span Span, hadWhitespace, hadNewline bool) *Token {
+	return &Token{
+		Type:                tokenType,
+		Text:                text,
+		Span:                span,
+		HadWhitespaceBefore: hadWhitespace,
+		HadNewlineBefore:    hadNewline,
+	}
 }
 
 // Lexer tokenizes Styx source code.
 type Lexer struct {
 	source  string
-	pos     int // character position
-	bytePos int // byte position for spans
+	pos     int  // character position
+	bytePos int  // byte position for spans
+	hadDoc  bool // whether a doc comment was skipped before the current token
 }
 
 func newLexer(source string) *Lexer {
@@ -96,11 +118,25 @@ func (l *Lexer) advance() rune {
 	return r
 }
 
+// advanceTo consumes characters up to a position.
+func (l *Lexer) advanceTo(pos int) {
+	for l.pos < pos {
+		l.advance()
+	}
+}
+
 func (l *Lexer) skipWhitespaceAndComments() (hadWhitespace, hadNewline bool) {
+	l.hadDoc = false
 	for l.pos < len(l.source) {
 		ch := l.peek(0)
 		switch ch {
-		case ' ', '\t', '\r':
+		case ' ', '\t':
+			hadWhitespace = true
+			l.advance()
+		case '\r':
+			if l.peek(1) != '\n' {
+				return
+			}
 			hadWhitespace = true
 			l.advance()
 		case '\n':
@@ -110,7 +146,8 @@ func (l *Lexer) skipWhitespaceAndComments() (hadWhitespace, hadNewline bool) {
 		case '/':
 			if l.peek(1) == '/' {
 				hadWhitespace = true
-				for l.pos < len(l.source) && l.peek(0) != '\n' {
+				l.hadDoc = l.hadDoc || l.peek(2) == '/'
+				for l.pos < len(l.source) && l.peek(0) != '\n' && l.peek(0) != '\r' {
 					l.advance()
 				}
 			} else {
@@ -133,13 +170,22 @@ func isTagChar(ch rune) bool {
 
 func isSpecialChar(ch rune) bool {
 	switch ch {
-	case '{', '}', '(', ')', ',', '"', '>', ' ', '\t', '\n', '\r':
+	case '{', '}', '(', ')', ',', '"', '>':
 		return true
 	}
-	return false
+	return unicode.IsSpace(ch)
 }
 
 func (l *Lexer) nextToken() (*Token, error) {
+	token, err := l.readToken()
+	if err != nil {
+		return nil, err
+	}
+	token.HadDocBefore = l.hadDoc
+	return token, nil
+}
+
+func (l *Lexer) readToken() (*Token, error) {
 	hadWhitespace, hadNewline := l.skipWhitespaceAndComments()
 
 	if l.pos >= len(l.source) {
@@ -159,22 +205,22 @@ func (l *Lexer) nextToken() (*Token, error) {
 	switch ch {
 	case '{':
 		l.advance()
-		return &Token{TokenLBrace, "{", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return newToken(TokenLBrace, "{", Span{start, l.bytePos}, hadWhitespace, hadNewline), nil
 	case '}':
 		l.advance()
-		return &Token{TokenRBrace, "}", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return newToken(TokenRBrace, "}", Span{start, l.bytePos}, hadWhitespace, hadNewline), nil
 	case '(':
 		l.advance()
-		return &Token{TokenLParen, "(", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return newToken(TokenLParen, "(", Span{start, l.bytePos}, hadWhitespace, hadNewline), nil
 	case ')':
 		l.advance()
-		return &Token{TokenRParen, ")", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return newToken(TokenRParen, ")", Span{start, l.bytePos}, hadWhitespace, hadNewline), nil
 	case ',':
 		l.advance()
-		return &Token{TokenComma, ",", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return newToken(TokenComma, ",", Span{start, l.bytePos}, hadWhitespace, hadNewline), nil
 	case '>':
 		l.advance()
-		return &Token{TokenGT, ">", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return newToken(TokenGT, ">", Span{start, l.bytePos}, hadWhitespace, hadNewline), nil
 	}
 
 	// @ - either unit or tag
@@ -182,13 +228,15 @@ func (l *Lexer) nextToken() (*Token, error) {
 		l.advance()
 		if isTagStart(l.peek(0)) {
 			nameStart := l.pos
-			for isTagChar(l.peek(0)) {
+			// A tag ends where a raw string starts
+			l.advance()
+			for isTagChar(l.peek(0)) && !(l.peek(0) == 'r' && l.peek(1) == '#') {
 				l.advance()
 			}
 			name := l.source[nameStart:l.pos]
-			return &Token{TokenTag, name, Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+			return newToken(TokenTag, name, Span{start, l.bytePos}, hadWhitespace, hadNewline), nil
 		}
-		return &Token{TokenAt, "@", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return newToken(TokenAt, "@", Span{start, l.bytePos}, hadWhitespace, hadNewline), nil
 	}
 
 	// Quoted string
@@ -201,27 +249,29 @@ func (l *Lexer) nextToken() (*Token, error) {
 		return l.readRawString(start, hadWhitespace, hadNewline)
 	}
 
-	// Heredoc - only if << is followed by uppercase letter
+	// Heredoc - only if << is followed by a delimiter
 	if ch == '<' && l.peek(1) == '<' {
-		afterLtLt := l.peek(2)
-		if afterLtLt >= 'A' && afterLtLt <= 'Z' {
-			return l.readHeredoc(start, hadWhitespace, hadNewline)
+		opening := heredocOpening.FindStringSubmatch(l.source[l.pos:])
+		if opening != nil && len(opening[1]) <= maxHeredocDelimiter {
+			return l.readHeredoc(opening, start, hadWhitespace, hadNewline)
 		}
-		// << not followed by uppercase - return error at just <<
+		// << not followed by a delimiter - return error at just <<
 		l.advance() // <
 		l.advance() // <
-		errorEnd := l.bytePos
-		// Skip rest of line for recovery
-		for l.pos < len(l.source) && l.peek(0) != '\n' {
-			l.advance()
-		}
 		return nil, &ParseError{
 			Message: "unexpected token",
-			Span:    Span{start, errorEnd},
+			Span:    Span{start, l.bytePos},
 		}
 	}
 
 	// Bare scalar
+	if ch == '=' || unicode.IsSpace(ch) {
+		l.advance()
+		return nil, &ParseError{
+			Message: "unexpected token",
+			Span:    Span{start, l.bytePos},
+		}
+	}
 	return l.readBareScalar(start, hadWhitespace, hadNewline)
 }
 
@@ -233,7 +283,7 @@ func (l *Lexer) readQuotedString(start int, hadWhitespace, hadNewline bool) (*To
 		ch := l.peek(0)
 		if ch == '"' {
 			l.advance()
-			return &Token{TokenQuoted, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+			return newToken(TokenQuoted, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline), nil
 		}
 		if ch == '\\' {
 			escapeStart := l.bytePos
@@ -251,7 +301,7 @@ func (l *Lexer) readQuotedString(start int, hadWhitespace, hadNewline bool) (*To
 			case '"':
 				text.WriteByte('"')
 			case 'u':
-				r, err := l.readUnicodeEscape()
+				r, err := l.readUnicodeEscape(escapeStart)
 				if err != nil {
 					return nil, err
 				}
@@ -262,13 +312,6 @@ func (l *Lexer) readQuotedString(start int, hadWhitespace, hadNewline bool) (*To
 					Span:    Span{escapeStart, l.bytePos},
 				}
 			}
-		} else if ch == '\n' || ch == '\r' {
-			// Unterminated string - include the newline in the span
-			l.advance()
-			return nil, &ParseError{
-				Message: "unexpected token",
-				Span:    Span{start, l.bytePos},
-			}
 		} else {
 			text.WriteRune(l.advance())
 		}
@@ -281,49 +324,20 @@ func (l *Lexer) readQuotedString(start int, hadWhitespace, hadNewline bool) (*To
 	}
 }
 
-func (l *Lexer) readUnicodeEscape() (rune, error) {
-	if l.peek(0) == '{' {
-		l.advance()
-		var hexStr strings.Builder
-		for l.peek(0) != '}' && l.pos < len(l.source) {
-			hexStr.WriteRune(l.advance())
+// readUnicodeEscape reads the digits of \uXXXX or \u{X...}.
+func (l *Lexer) readUnicodeEscape(escapeStart int) (rune, error) {
+	digits := unicodeEscape.FindStringSubmatch(l.source[l.pos:])
+	if digits != nil {
+		code, err := strconv.ParseInt(digits[1]+digits[2], 16, 32)
+		if err == nil && utf8.ValidRune(rune(code)) {
+			l.advanceTo(l.pos + len(digits[0]))
+			return rune(code), nil
 		}
-		l.advance() // }
-		var r rune
-		_, err := parseHex(hexStr.String(), &r)
-		if err != nil {
-			return 0, err
-		}
-		return r, nil
-	}
-
-	var hexStr strings.Builder
-	for i := 0; i < 4; i++ {
-		hexStr.WriteRune(l.advance())
-	}
-	var r rune
-	_, err := parseHex(hexStr.String(), &r)
-	if err != nil {
-		return 0, err
 	}
-	return r, nil
-}
-
-func parseHex(s string, r *rune) (int, error) {
-	var val rune
-	for _, ch := range s {
-		val *= 16
-		switch {
-		case ch >= '0' && ch <= '9':
-			val += ch - '0'
-		case ch >= 'a' && ch <= 'f':
-			val += ch - 'a' + 10
-		case ch >= 'A' && ch <= 'F':
-			val += ch - 'A' + 10
-		}
+	return 0, &ParseError{
+		Message: "invalid escape sequence: \\u",
+		Span:    Span{escapeStart, l.bytePos},
 	}
-	*r = val
-	return len(s), nil
 }
 
 func (l *Lexer) readRawString(start int, hadWhitespace, hadNewline bool) (*Token, error) {
@@ -333,6 +347,12 @@ func (l *Lexer) readRawString(start int, hadWhitespace, hadNewline bool) (*Token
 		l.advance()
 		hashes++
 	}
+	if l.peek(0) != '"' {
+		return nil, &ParseError{
+			Message: "unexpected token",
+			Span:    Span{start, l.bytePos},
+		}
+	}
 	l.advance() // opening "
 
 	var text strings.Builder
@@ -343,7 +363,7 @@ func (l *Lexer) readRawString(start int, hadWhitespace, hadNewline bool) (*Token
 			for i := 0; i < len(closePattern); i++ {
 				l.advance()
 			}
-			return &Token{TokenRaw, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+			return newToken(TokenRaw, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline), nil
 		}
 		text.WriteRune(l.advance())
 	}
@@ -354,56 +374,34 @@ func (l *Lexer) readRawString(start int, hadWhitespace, hadNewline bool) (*Token
 	}
 }
 
-func (l *Lexer) readHeredoc(start int, hadWhitespace, hadNewline bool) (*Token, error) {
-	l.advance() // <
-	l.advance() // <
+func (l *Lexer) readHeredoc(opening []string, start int, hadWhitespace, hadNewline bool) (*Token, error) {
+	l.advanceTo(l.pos + len(opening[0]))
+	delimiter := opening[1]
+	contentStart := l.pos
 
-	var delimiter strings.Builder
-	for l.pos < len(l.source) && l.peek(0) != '\n' {
-		delimiter.WriteRune(l.advance())
-	}
-	if l.pos < len(l.source) {
-		l.advance() // newline
-	}
-
-	// Track content start (after the opening line)
-	contentStart := l.bytePos
-
-	var text strings.Builder
-	delimStr := delimiter.String()
-	bareDelimiter := strings.SplitN(delimStr, ",", 2)[0]
-
-	for l.pos < len(l.source) {
-		var line strings.Builder
-		for l.pos < len(l.source) && l.peek(0) != '\n' {
-			line.WriteRune(l.advance())
+	for line := l.pos; ; {
+		text := l.source[line:]
+		newline := strings.IndexByte(text, '\n')
+		if newline >= 0 {
+			text = strings.TrimSuffix(text[:newline], "\r")
 		}
 
-		lineStr := line.String()
-
-		// Check for exact match (no indentation)
-		if lineStr == bareDelimiter {
-			result := text.String()
-			return &Token{TokenHeredoc, result, Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
-		}
-
-		// Check for indented closing delimiter
-		stripped := strings.TrimLeft(lineStr, " \t")
-		if stripped == bareDelimiter {
-			indentLen := len(lineStr) - len(stripped)
-			// Dedent the content by stripping up to indentLen from each line
-			result := dedentHeredoc(text.String(), indentLen)
-			return &Token{TokenHeredoc, result, Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		// The delimiter alone on a line, maybe indented, closes the heredoc
+		stripped := strings.TrimLeft(text, " \t")
+		if stripped == delimiter {
+			// Dedent the content by stripping up to the delimiter's indentation from each line
+			content := dedentHeredoc(l.source[contentStart:line], len(text)-len(stripped))
+			l.advanceTo(line + len(text))
+			return newToken(TokenHeredoc, content, Span{start, l.bytePos}, hadWhitespace, hadNewline), nil
 		}
-
-		text.WriteString(lineStr)
-		if l.pos < len(l.source) && l.peek(0) == '\n' {
-			l.advance()
-			text.WriteByte('\n')
+		if newline < 0 {
+			break
 		}
+		line += newline + 1
 	}
 
 	// EOF without closing delimiter - error points at the unmatched content
+	l.advanceTo(len(l.source))
 	return nil, &ParseError{
 		Message: "unexpected token",
 		Span:    Span{contentStart, l.bytePos},
@@ -440,5 +438,5 @@ func (l *Lexer) readBareScalar(start int, hadWhitespace, hadNewline bool) (*Toke
 		}
 		text.WriteRune(l.advance())
 	}
-	return &Token{TokenScalar, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+	return newToken(TokenScalar, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline), nil
 }
diff --git a/implementations/styx-go/parser.go b/implementations/styx-go/parser.go
index dd1d29a..c49e11c 100644
--- a/implementations/styx-go/parser.go
+++ b/implementations/styx-go/parser.go
@@ -12,24 +12,29 @@ const (
 	pathValueTerminal
 )
 
+// pathSegment is a segment of the open path, and its children that have had siblings.
+type pathSegment struct {
+	key    string
+	kind   pathValueKind
+	closed map[string]bool
+}
+
 // pathState tracks dotted path state for validation.
 type pathState struct {
-	currentPath   []string
-	closedPaths   map[string]bool // key is joined path
-	assignedPaths map[string]struct {
-		kind pathValueKind
-		span Span
-	}
+	open   []pathSegment
+	closed map[string]bool // top-level keys that have had siblings
 }
 
 func newPathState() *pathState {
-	return &pathState{
-		closedPaths: make(map[string]bool),
-		assignedPaths: make(map[string]struct {
-			kind pathValueKind
-			span Span
-		}),
+	return &pathState{closed: make(map[string]bool)}
+}
+
+// closedUnder returns the closed children of the open path's first segments.
+func (ps *pathState) closedUnder(length int) map[string]bool {
+	if length > 0 {
+		return ps.open[length-1].closed
 	}
+	return ps.closed
 }
 
 func joinPath(segments []string) string {
@@ -39,66 +44,46 @@ func joinPath(segments []string) string {
 // checkAndUpdate validates a path and updates the state.
 // Returns an error if the path is invalid.
 func (ps *pathState) checkAndUpdate(path []string, span Span, kind pathValueKind) error {
-	pathKey := joinPath(path)
-
-	// 1. Check for duplicate (exact same path)
-	if _, exists := ps.assignedPaths[pathKey]; exists {
+	// 1. Find common prefix length with the open path
+	commonLen := 0
+	for commonLen < len(ps.open) && commonLen < len(path) && ps.open[commonLen].key == path[commonLen] {
+		commonLen++
+	}
+	if commonLen == len(path) {
 		return &ParseError{Message: "duplicate key", Span: span}
 	}
 
-	// 2. Check if any proper prefix is closed or has a terminal value
-	for i := 1; i < len(path); i++ {
-		prefix := path[:i]
-		prefixKey := joinPath(prefix)
-		if ps.closedPaths[prefixKey] {
+	// 2. Close what is open beyond it
+	for len(ps.open) > commonLen {
+		last := len(ps.open) - 1
+		ps.closedUnder(last)[ps.open[last].key] = true
+		ps.open = ps.open[:last]
+	}
+
+	// 3. Open the other segments; all but the last one are objects
+	for i := commonLen; i < len(path); i++ {
+		if i > 0 && ps.open[i-1].kind == pathValueTerminal {
 			return &ParseError{
-				Message: "cannot reopen path `" + prefixKey + "` after sibling appeared",
+				Message: "cannot nest into `" + joinPath(path[:i]) + "` which has a terminal value",
 				Span:    span,
 			}
 		}
-		if assigned, exists := ps.assignedPaths[prefixKey]; exists && assigned.kind == pathValueTerminal {
+		if ps.closedUnder(i)[path[i]] {
+			if len(path) == 1 {
+				return &ParseError{Message: "duplicate key", Span: span}
+			}
 			return &ParseError{
-				Message: "cannot nest into `" + prefixKey + "` which has a terminal value",
+				Message: "cannot reopen path `" + joinPath(path[:i+1]) + "` after sibling appeared",
 				Span:    span,
 			}
 		}
-	}
-
-	// 3. Find common prefix length with current path
-	commonLen := 0
-	for i := 0; i < len(ps.currentPath) && i < len(path); i++ {
-		if ps.currentPath[i] == path[i] {
-			commonLen++
-		} else {
-			break
-		}
-	}
-
-	// 4. Close paths beyond the common prefix
-	for i := commonLen; i < len(ps.currentPath); i++ {
-		closed := joinPath(ps.currentPath[:i+1])
-		ps.closedPaths[closed] = true
-	}
-
-	// 5. Record intermediate path segments as objects (if not already assigned)
-	for i := 1; i < len(path); i++ {
-		prefix := path[:i]
-		prefixKey := joinPath(prefix)
-		if _, exists := ps.assignedPaths[prefixKey]; !exists {
-			ps.assignedPaths[prefixKey] = struct {
-				kind pathValueKind
-				span Span
-			}{pathValueObject, span}
+		segmentKind := pathValueObject
+		if i == len(path)-1 {
+			segmentKind = kind
 		}
+		ps.open = append(ps.open, pathSegment{path[i], segmentKind, make(map[string]bool)})
 	}
 
-	// 6. Update assigned paths and current path
-	ps.assignedPaths[pathKey] = struct {
-		kind pathValueKind
-		span Span
-	}{kind, span}
-	ps.currentPath = path
-
 	return nil
 }
 
@@ -112,14 +97,20 @@ type parser struct {
 
 func newParser(source string) *parser {
 	p := &parser{lexer: newLexer(source), source: source}
-	tok, err := p.lexer.nextToken()
-	if err != nil {
+	p.current = p.nextToken()
+	return p
+}
+
+// nextToken reads a token; a lexical error ends the input.
+func (p *parser) nextToken() *Token {
+	if p.err == nil {
+		tok, err := p.lexer.nextToken()
+		if err == nil {
+			return tok
+		}
 		p.err = err
-		p.current = &Token{Type: TokenEOF, Span: Span{0, 0}}
-	} else {
-		p.current = tok
 	}
-	return p
+	return &Token{Type: TokenEOF, Span: Span{p.lexer.bytePos, p.lexer.bytePos}}
 }
 
 func (p *parser) advance() *Token {
@@ -128,26 +119,14 @@ func (p *parser) advance() *Token {
 		p.current = p.peeked
 		p.peeked = nil
 	} else {
-		tok, err := p.lexer.nextToken()
-		if err != nil {
-			p.err = err
-			p.current = &Token{Type: TokenEOF, Span: Span{p.lexer.bytePos, p.lexer.bytePos}}
-		} else {
-			p.current = tok
-		}
+		p.current = p.nextToken()
 	}
 	return prev
 }
 
 func (p *parser) peek() *Token {
 	if p.peeked == nil {
-		tok, err := p.lexer.nextToken()
-		if err != nil {
-			p.err = err
-			p.peeked = &Token{Type: TokenEOF, Span: Span{p.lexer.bytePos, p.lexer.bytePos}}
-		} else {
-			p.peeked = tok
-		}
+		p.peeked = p.nextToken()
 	}
 	return p.peeked
 }
@@ -172,21 +151,25 @@ func (p *parser) expect(tokenType TokenType) (*Token, error) {
 }
 
 func (p *parser) parse() (*Document, error) {
+	doc, err := p.parseDocument()
 	if p.err != nil {
 		return nil, p.err
 	}
+	return doc, err
+}
 
-	entries := []*Entry{}
+func (p *parser) parseDocument() (*Document, error) {
 	start := p.current.Span.Start
-	ps := newPathState()
 
 	// Skip any leading commas
+	docBefore := p.current.HadDocBefore
 	for p.check(TokenComma) {
 		p.advance()
+		docBefore = docBefore || p.current.HadDocBefore
 	}
 
 	// Check for explicit root object: { ... } at document start
-	if p.check(TokenLBrace) {
+	if p.check(TokenLBrace) && !docBefore {
 		// Explicit root object - parse it and check for trailing content
 		obj, err := p.parseObject()
 		if err != nil {
@@ -194,15 +177,9 @@ func (p *parser) parse() (*Document, error) {
 		}
 		objValue := &Value{Span: obj.Span, PayloadKind: PayloadObject, Object: obj}
 		unitKey := &Value{Span: Span{-1, -1}}
-		entries = append(entries, &Entry{Key: unitKey, Value: objValue})
 
 		// After explicit root object, only whitespace/comments/EOF are allowed
-		// Skip commas (they don't count as "content")
-		for p.check(TokenComma) {
-			p.advance()
-		}
-
-		if !p.check(TokenEOF) {
+		if !p.check(TokenEOF) || p.current.HadDocBefore {
 			// Find the span of trailing content
 			trailingStart := p.current.Span.Start
 			// Consume tokens to find the end of all trailing content
@@ -218,22 +195,17 @@ func (p *parser) parse() (*Document, error) {
 		}
 
 		return &Document{
-			Entries: entries,
+			Entries: []*Entry{{Key: unitKey, Value: objValue}},
 			Span:    Span{start, p.current.Span.End},
 		}, nil
 	}
 
-	for !p.check(TokenEOF) {
-		if p.err != nil {
-			return nil, p.err
-		}
-		entry, err := p.parseEntryWithPathCheck(ps)
-		if err != nil {
-			return nil, err
-		}
-		if entry != nil {
-			entries = append(entries, entry)
-		}
+	entries, err := p.parseEntries(docBefore)
+	if err != nil {
+		return nil, err
+	}
+	if !p.check(TokenEOF) {
+		return nil, &ParseError{Message: "invalid key", Span: p.current.Span}
 	}
 
 	return &Document{
@@ -242,151 +214,121 @@ func (p *parser) parse() (*Document, error) {
 	}, nil
 }
 
-func (p *parser) parseEntryWithPathCheck(ps *pathState) (*Entry, error) {
-	for p.check(TokenComma) {
-		p.advance()
-	}
+// parseEntries parses entries up to a closing brace or the end of input.
+func (p *parser) parseEntries(docBefore bool) ([]*Entry, error) {
+	entries := []*Entry{}
+	ps := newPathState()
 
-	if p.err != nil {
-		return nil, p.err
+	for {
+		docBefore = docBefore || p.current.HadDocBefore
+		if p.check(TokenComma) {
+			p.advance()
+			continue
+		}
+		if p.check(TokenRBrace, TokenEOF) {
+			break
+		}
+		entry, err := p.parseEntry(ps)
+		if err != nil {
+			return nil, err
+		}
+		entries = append(entries, entry)
+		docBefore = false
 	}
 
-	if p.check(TokenEOF, TokenRBrace) {
-		return nil, nil
+	if docBefore {
+		return nil, &ParseError{Message: "dangling doc comment", Span: p.current.Span}
 	}
+	return entries, nil
+}
+
+// atEntryEnd tells whether the current token does not belong to the entry before it.
+func (p *parser) atEntryEnd() bool {
+	return p.current.HadNewlineBefore || p.current.HadDocBefore ||
+		p.check(TokenEOF, TokenComma, TokenRBrace, TokenRParen)
+}
 
+// parseEntry parses a key, and a value unless it is implicit.
+func (p *parser) parseEntry(ps *pathState) (*Entry, error) {
 	key, err := p.parseValue()
 	if err != nil {
 		return nil, err
 	}
-	if p.err != nil {
-		return nil, p.err
+	isBare := key.Tag == nil && key.PayloadKind == PayloadScalar && key.Scalar.Kind == ScalarBare
+	if isBare && p.check(TokenLBrace, TokenLParen) && !p.current.HadWhitespaceBefore {
+		return nil, &ParseError{Message: "missing whitespace before block", Span: p.current.Span}
 	}
 
-	// Special case: object in key position gets implicit unit key
-	if key.PayloadKind == PayloadObject {
-		if !p.current.HadNewlineBefore && !p.check(TokenEOF, TokenRBrace, TokenComma) {
-			p.parseValue() // Drop trailing value
-		}
-		unitKey := &Value{Span: Span{-1, -1}}
-		return &Entry{Key: unitKey, Value: key}, nil
-	}
-
-	// Check for dotted path in bare scalar key
-	if key.PayloadKind == PayloadScalar && key.Scalar.Kind == ScalarBare {
-		text := key.Scalar.Text
-		if strings.Contains(text, ".") {
-			return p.expandDottedPathWithState(text, key.Span, ps)
+	// Implicit unit if no value is provided
+	value := &Value{Span: key.Span}
+	if !p.atEntryEnd() {
+		value, err = p.parseValue()
+		if err != nil {
+			return nil, err
 		}
-	}
-
-	if err := p.validateKey(key); err != nil {
-		return nil, err
-	}
-
-	// Get key text for path tracking
-	keyText := p.getKeyText(key)
-
-	// Check for implicit unit
-	if p.current.HadNewlineBefore || p.check(TokenEOF, TokenRBrace) {
-		// Validate path
-		if keyText != "" {
-			if err := ps.checkAndUpdate([]string{keyText}, key.Span, pathValueTerminal); err != nil {
+		if !p.atEntryEnd() {
+			extra, err := p.parseValue()
+			if err != nil {
 				return nil, err
 			}
+			return nil, &ParseError{Message: "unexpected value after entry", Span: extra.Span}
 		}
-		return &Entry{Key: key, Value: &Value{Span: key.Span}}, nil
 	}
 
-	value, err := p.parseValue()
-	if err != nil {
-		return nil, err
-	}
-
-	// Determine value kind and validate path
-	if keyText != "" {
-		kind := pathValueTerminal
-		if value.PayloadKind == PayloadObject {
-			kind = pathValueObject
+	// A dotted path is a bare scalar with dots
+	isPath := isBare && strings.Contains(key.Scalar.Text, ".")
+	var segments []string
+	if isPath {
+		segments = strings.Split(key.Scalar.Text, ".")
+		for _, s := range segments {
+			if s == "" {
+				return nil, &ParseError{Message: "invalid key", Span: key.Span}
+			}
 		}
-		if err := ps.checkAndUpdate([]string{keyText}, key.Span, kind); err != nil {
+	} else {
+		if err := p.validateKey(key); err != nil {
 			return nil, err
 		}
+		segments = []string{p.getKeyText(key)}
 	}
 
-	return &Entry{Key: key, Value: value}, nil
-}
-
-func (p *parser) parseEntryWithDupCheck(seenKeys map[string]Span) (*Entry, error) {
-	for p.check(TokenComma) {
-		p.advance()
-	}
-
-	if p.err != nil {
-		return nil, p.err
-	}
-
-	if p.check(TokenEOF, TokenRBrace) {
-		return nil, nil
-	}
-
-	key, err := p.parseValue()
-	if err != nil {
-		return nil, err
-	}
-	if p.err != nil {
-		return nil, p.err
-	}
-
-	// Special case: object in key position gets implicit unit key
-	if key.PayloadKind == PayloadObject {
-		if !p.current.HadNewlineBefore && !p.check(TokenEOF, TokenRBrace, TokenComma) {
-			p.parseValue() // Drop trailing value
-		}
-		unitKey := &Value{Span: Span{-1, -1}}
-		return &Entry{Key: unitKey, Value: key}, nil
-	}
-
-	// Check for duplicate key
-	keyText := p.getKeyText(key)
-	if keyText != "" {
-		if _, exists := seenKeys[keyText]; exists {
-			return nil, &ParseError{Message: "duplicate key", Span: key.Span}
-		}
-		seenKeys[keyText] = key.Span
+	kind := pathValueTerminal
+	if value.Tag == nil && value.PayloadKind == PayloadObject {
+		kind = pathValueObject
 	}
-
-	if err := p.validateKey(key); err != nil {
+	if err := ps.checkAndUpdate(segments, key.Span, kind); err != nil {
 		return nil, err
 	}
 
-	// Check for implicit unit
-	if p.current.HadNewlineBefore || p.check(TokenEOF, TokenRBrace) {
-		return &Entry{Key: key, Value: &Value{Span: key.Span}}, nil
-	}
-
-	value, err := p.parseValue()
-	if err != nil {
-		return nil, err
+	if isPath {
+		return expandDottedPath(segments, key.Span, value), nil
 	}
 	return &Entry{Key: key, Value: value}, nil
 }
 
+// getKeyText returns the text which tells keys apart.
 func (p *parser) getKeyText(key *Value) string {
+	// No text holds this byte, which is not UTF-8
+	const marker = "\xff"
+	text := marker
 	if key.PayloadKind == PayloadScalar {
-		return key.Scalar.Text
+		text = key.Scalar.Text
 	}
-	if key.Tag != nil && key.PayloadKind == PayloadNone {
-		return "@" + key.Tag.Name
+	if key.Tag != nil {
+		tagged := marker + key.Tag.Name
+		if key.PayloadKind == PayloadScalar {
+			tagged += marker + text
+		}
+		return tagged
 	}
-	return ""
+	return text
 }
 
 func (p *parser) validateKey(key *Value) error {
-	if key.PayloadKind == PayloadSequence {
+	if key.PayloadKind == PayloadSequence || key.PayloadKind == PayloadObject {
 		return &ParseError{Message: "invalid key", Span: key.Span}
 	}
-	if key.PayloadKind == PayloadScalar && key.Scalar.Kind == ScalarHeredoc {
+	if key.Tag == nil && key.PayloadKind == PayloadScalar && key.Scalar.Kind == ScalarHeredoc {
 		// Point at just the opening marker (<<TAG), not the whole content
 		errorSpan := p.heredocStartSpan(key.Scalar.Span)
 		return &ParseError{Message: "invalid key", Span: errorSpan}
@@ -405,15 +347,7 @@ func (p *parser) heredocStartSpan(heredocSpan Span) Span {
 	return Span{Start: heredocSpan.Start, End: heredocSpan.Start + endOffset}
 }
 
-func (p *parser) expandDottedPathWithState(pathText string, span Span, ps *pathState) (*Entry, error) {
-	segments := strings.Split(pathText, ".")
-
-	for _, s := range segments {
-		if s == "" {
-			return nil, &ParseError{Message: "invalid key", Span: span}
-		}
-	}
-
+func expandDottedPath(segments []string, span Span, value *Value) *Entry {
 	// Calculate spans for each segment
 	segmentSpans := make([]Span, len(segments))
 	offset := span.Start
@@ -423,22 +357,6 @@ func (p *parser) expandDottedPathWithState(pathText string, span Span, ps *pathS
 		offset += segmentBytes + 1 // +1 for the dot
 	}
 
-	value, err := p.parseValue()
-	if err != nil {
-		return nil, err
-	}
-
-	// Determine value kind for path tracking
-	kind := pathValueTerminal
-	if value.PayloadKind == PayloadObject {
-		kind = pathValueObject
-	}
-
-	// Validate path with state
-	if err := ps.checkAndUpdate(segments, span, kind); err != nil {
-		return nil, err
-	}
-
 	// Build nested structure from inside out
 	// Object spans start at the PREVIOUS segment's position (i-1)
 	lastKeyEnd := segmentSpans[len(segments)-1].End
@@ -470,36 +388,7 @@ func (p *parser) expandDottedPathWithState(pathText string, span Span, ps *pathS
 		Scalar:      &Scalar{Text: segments[0], Kind: ScalarBare, Span: firstSpan},
 	}
 
-	return &Entry{Key: outerKey, Value: result}, nil
-}
-
-func (p *parser) parseAttributeValue() (*Value, error) {
-	if p.check(TokenLBrace) {
-		obj, err := p.parseObject()
-		if err != nil {
-			return nil, err
-		}
-		return &Value{Span: obj.Span, PayloadKind: PayloadObject, Object: obj}, nil
-	}
-	if p.check(TokenLParen) {
-		seq, err := p.parseSequence()
-		if err != nil {
-			return nil, err
-		}
-		return &Value{Span: seq.Span, PayloadKind: PayloadSequence, Sequence: seq}, nil
-	}
-	if p.check(TokenTag) {
-		return p.parseTagValue()
-	}
-	if p.check(TokenAt) {
-		atToken := p.advance()
-		return &Value{Span: atToken.Span}, nil
-	}
-	scalar, err := p.parseScalar()
-	if err != nil {
-		return nil, err
-	}
-	return &Value{Span: scalar.Span, PayloadKind: PayloadScalar, Scalar: scalar}, nil
+	return &Entry{Key: outerKey, Value: result}
 }
 
 func (p *parser) parseTagValue() (*Value, error) {
@@ -509,7 +398,7 @@ func (p *parser) parseTagValue() (*Value, error) {
 
 	if !p.current.HadWhitespaceBefore {
 		// Check for invalid tag continuation (e.g., @org/package where / is not a valid tag char)
-		if p.check(TokenScalar) {
+		if p.check(TokenScalar, TokenTag) {
 			// There's a scalar immediately after the tag without whitespace
 			// This means there was a character that broke the tag name (like /)
 			// Error span starts at the @ and ends at the invalid scalar
@@ -549,13 +438,9 @@ func (p *parser) parseTagValue() (*Value, error) {
 }
 
 func (p *parser) parseValue() (*Value, error) {
-	if p.err != nil {
-		return nil, p.err
-	}
-
 	if p.check(TokenAt) {
 		atToken := p.advance()
-		if !p.current.HadWhitespaceBefore && !p.check(TokenEOF, TokenRBrace, TokenRParen, TokenComma, TokenLBrace, TokenLParen) {
+		if !p.current.HadWhitespaceBefore && p.check(TokenScalar) {
 			// Error span includes the @ (it's part of the tag)
 			return nil, &ParseError{Message: "invalid tag name", Span: Span{atToken.Span.Start, p.current.Span.End}}
 		}
@@ -587,19 +472,7 @@ func (p *parser) parseValue() (*Value, error) {
 		nextToken := p.current
 
 		if nextToken.Type == TokenGT && !nextToken.HadWhitespaceBefore {
-			gtToken := p.advance() // consume >
-			afterGT := p.current
-
-			// Check if > is followed by something that can't be an attribute value
-			if afterGT.HadNewlineBefore || afterGT.HadWhitespaceBefore || p.check(TokenEOF, TokenRBrace, TokenRParen, TokenComma) {
-				// Error: trailing > without a value
-				return nil, &ParseError{
-					Message: "expected a value",
-					Span:    gtToken.Span,
-				}
-			}
-			// Valid attribute - parse value (we already consumed >)
-			return p.parseAttributesAfterGT(scalarToken)
+			return p.parseAttributesStartingWith(scalarToken)
 		}
 
 		return &Value{
@@ -620,46 +493,26 @@ func (p *parser) parseValue() (*Value, error) {
 	return &Value{Span: scalar.Span, PayloadKind: PayloadScalar, Scalar: scalar}, nil
 }
 
-func (p *parser) parseAttributesAfterGT(firstKeyToken *Token) (*Value, error) {
-	// Same as parseAttributesStartingWith but > was already consumed
+// parseAttributesStartingWith parses attribute syntax (key>value key>value ...).
+func (p *parser) parseAttributesStartingWith(firstKeyToken *Token) (*Value, error) {
 	attrs := []*Entry{}
-	startSpan := firstKeyToken.Span
-
-	firstKey := &Value{
-		Span:        firstKeyToken.Span,
-		PayloadKind: PayloadScalar,
-		Scalar: &Scalar{
-			Text: firstKeyToken.Text,
-			Kind: ScalarBare,
-			Span: firstKeyToken.Span,
-		},
-	}
-	firstValue, err := p.parseAttributeValue()
-	if err != nil {
-		return nil, err
-	}
-	attrs = append(attrs, &Entry{Key: firstKey, Value: firstValue})
+	seenKeys := make(map[string]bool)
+	keyToken := firstKeyToken
+	span := firstKeyToken.Span
 
-	endSpan := firstValue.Span
-
-	for p.check(TokenScalar) && !p.current.HadNewlineBefore {
-		keyToken := p.current
-		nextToken := p.peek()
-		if nextToken.Type != TokenGT || nextToken.HadWhitespaceBefore {
-			break
+	for {
+		gtToken, err := p.expect(TokenGT)
+		if err != nil {
+			return nil, err
 		}
-
-		p.advance()            // consume key
-		gtToken := p.advance() // consume >
-
-		// Check if > is followed by something that can't be an attribute value
-		afterGT := p.current
-		if afterGT.HadNewlineBefore || afterGT.HadWhitespaceBefore || p.check(TokenEOF, TokenRBrace, TokenRParen, TokenComma) {
-			return nil, &ParseError{
-				Message: "expected a value",
-				Span:    gtToken.Span,
-			}
+		// The value follows immediately
+		if p.current.HadWhitespaceBefore || p.check(TokenEOF) {
+			return nil, &ParseError{Message: "expected a value", Span: gtToken.Span}
 		}
+		if seenKeys[keyToken.Text] {
+			return nil, &ParseError{Message: "duplicate key", Span: keyToken.Span}
+		}
+		seenKeys[keyToken.Text] = true
 
 		attrKey := &Value{
 			Span:        keyToken.Span,
@@ -670,20 +523,24 @@ func (p *parser) parseAttributesAfterGT(firstKeyToken *Token) (*Value, error) {
 				Span: keyToken.Span,
 			},
 		}
-
-		attrValue, err := p.parseAttributeValue()
+		attrValue, err := p.parseValue()
 		if err != nil {
 			return nil, err
 		}
 		attrs = append(attrs, &Entry{Key: attrKey, Value: attrValue})
-		endSpan = attrValue.Span
-	}
+		span.End = attrValue.Span.End
 
-	obj := &Object{
-		Entries: attrs,
-		Span:    Span{startSpan.Start, endSpan.End},
+		if !p.check(TokenScalar) || p.current.HadNewlineBefore || p.current.HadDocBefore {
+			break
+		}
+		nextToken := p.peek()
+		if nextToken.Type != TokenGT || nextToken.HadWhitespaceBefore {
+			break
+		}
+		keyToken = p.advance()
 	}
 
+	obj := &Object{Entries: attrs, Span: span}
 	return &Value{Span: obj.Span, PayloadKind: PayloadObject, Object: obj}, nil
 }
 
@@ -717,22 +574,9 @@ func (p *parser) parseObject() (*Object, error) {
 		return nil, err
 	}
 	start := openBrace.Span.Start
-	entries := []*Entry{}
-	seenKeys := make(map[string]Span)
-
-	for !p.check(TokenRBrace, TokenEOF) {
-		entry, err := p.parseEntryWithDupCheck(seenKeys)
-		if err != nil {
-			return nil, err
-		}
-		if entry != nil {
-			entries = append(entries, entry)
-		}
-
-		// Skip commas (mixed separators are allowed)
-		if p.check(TokenComma) {
-			p.advance()
-		}
+	entries, err := p.parseEntries(false)
+	if err != nil {
+		return nil, err
 	}
 
 	if p.check(TokenEOF) {
-- 
2.43.0


From 196f3f9c5c7c45072731c142281ecae2d049f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:30 +0000
Subject: [PATCH 74/86] fix: styx-go, styx-js, styx-py: refuse a malformed tag
 right after a tag

---
 implementations/styx-go/parser.go      | 6 ++++++
 implementations/styx-js/src/parser.ts  | 6 ++++++
 implementations/styx-py/styx/parser.py | 4 ++++
 3 files changed, 16 insertions(+)

diff --git a/implementations/styx-go/parser.go b/implementations/styx-go/parser.go
index c49e11c..e33261c 100644
--- a/implementations/styx-go/parser.go
+++ b/implementations/styx-go/parser.go
@@ -430,6 +430,12 @@ func (p *parser) parseTagValue() (*Value, error) {
 		}
 		if p.check(TokenAt) {
 			atToken := p.advance()
+			if !p.current.HadWhitespaceBefore && p.check(TokenScalar) {
+				return nil, &ParseError{
+					Message: "invalid tag name",
+					Span:    Span{atToken.Span.Start, p.current.Span.End},
+				}
+			}
 			return &Value{Span: atToken.Span, Tag: tag}, nil
 		}
 	}
diff --git a/implementations/styx-js/src/parser.ts b/implementations/styx-js/src/parser.ts
index f8946b5..1135539 100644
--- a/implementations/styx-js/src/parser.ts
+++ b/implementations/styx-js/src/parser.ts
@@ -302,6 +302,12 @@ export class Parser {
       }
       if (this.check("at")) {
         const atToken = this.advance();
+        if (!this.current.hadWhitespaceBefore && this.check("scalar")) {
+          throw new ParseError("invalid tag name", {
+            start: atToken.span.start,
+            end: this.current.span.end,
+          });
+        }
         // For explicit unit (@tag@), the span is just the trailing @
         return { tag, span: atToken.span };
       }
diff --git a/implementations/styx-py/styx/parser.py b/implementations/styx-py/styx/parser.py
index 6cd6de4..722f6c4 100644
--- a/implementations/styx-py/styx/parser.py
+++ b/implementations/styx-py/styx/parser.py
@@ -313,6 +313,10 @@ class Parser:
                 return Value(span=scalar.span, tag=tag, payload=scalar)
             if self._check(TokenType.AT):
                 at_token = self._advance()
+                if not self.current.had_whitespace_before and self._check(TokenType.SCALAR):
+                    raise ParseError(
+                        "invalid tag name", Span(at_token.span.start, self.current.span.end)
+                    )
                 return Value(span=at_token.span, tag=tag)
             # If there's something else immediately after the tag (like /package),
             # it's an invalid tag name. Span starts at the @.
-- 
2.43.0


From 438d3a5ea4246974e195a47931cc9722041251f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:18 +0000
Subject: [PATCH 75/86] fix: facet-styx: generated schemas give different types
 different names

---
 crates/facet-styx/src/schema_gen.rs | 80 ++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 29 deletions(-)

diff --git a/crates/facet-styx/src/schema_gen.rs b/crates/facet-styx/src/schema_gen.rs
index 48cc54e..992f562 100644
--- a/crates/facet-styx/src/schema_gen.rs
+++ b/crates/facet-styx/src/schema_gen.rs
@@ -4,8 +4,8 @@
 //! that implement `Facet`.
 
 use facet_core::{
-    Def, DefaultSource, Facet, Field, NumericType, PrimitiveType, PtrConst, PtrMut, PtrUninit,
-    Shape, ShapeLayout, Type, UserType,
+    ConstTypeId, Def, DefaultSource, Facet, Field, NumericType, PrimitiveType, PtrConst, PtrMut,
+    PtrUninit, Shape, ShapeLayout, Type, UserType,
 };
 use facet_reflect::Peek;
 use std::collections::{HashMap, HashSet};
@@ -253,7 +253,7 @@ fn generate_schema_file_inner<T: facet_core::Facet<'static>>(
             continue;
         }
 
-        let type_name = pending_shape.type_identifier.to_string();
+        let type_name = generator.type_name(pending_shape);
         // Only add if not already defined
         if !schema_map.contains_key(&Some(type_name.clone()))
             && let Some(type_schema) = generator.generate_type_definition(pending_shape)
@@ -317,9 +317,13 @@ fn schema_to_tag_name(schema: &Schema) -> String {
 /// Internal schema generator that builds typed Schema structs.
 struct SchemaGenerator {
     /// Types currently being generated (for cycle detection)
-    generating: HashSet<&'static str>,
+    generating: HashSet<ConstTypeId>,
     /// Types that have been queued for definition
-    queued_types: HashSet<&'static str>,
+    queued_types: HashSet<ConstTypeId>,
+    /// Names given to the types that are referenced. Different types can have the
+    /// same identifier: generic types (it leaves out the arguments) and types of
+    /// different modules.
+    type_names: HashMap<ConstTypeId, String>,
     /// Types pending generation (shapes to process)
     pending_types: Vec<&'static Shape>,
 }
@@ -329,6 +333,7 @@ impl SchemaGenerator {
         Self {
             generating: HashSet::new(),
             queued_types: HashSet::new(),
+            type_names: HashMap::new(),
             pending_types: Vec::new(),
         }
     }
@@ -340,13 +345,28 @@ impl SchemaGenerator {
             return;
         }
 
-        let type_id = shape.type_identifier;
-        if !self.queued_types.contains(type_id) {
-            self.queued_types.insert(type_id);
+        if self.queued_types.insert(shape.id) {
             self.pending_types.push(shape);
         }
     }
 
+    /// The name of a type in the schema: its identifier, with a number when another
+    /// type already has that name.
+    fn type_name(&mut self, shape: &'static Shape) -> String {
+        if let Some(name) = self.type_names.get(&shape.id) {
+            return name.clone();
+        }
+        let base = shape.type_identifier;
+        let mut name = base.to_string();
+        let mut number = 2;
+        while self.type_names.values().any(|taken| *taken == name) {
+            name = format!("{base}{number}");
+            number += 1;
+        }
+        self.type_names.insert(shape.id, name.clone());
+        name
+    }
+
     /// Take the next pending type to generate, if any.
     fn take_pending(&mut self) -> Option<&'static Shape> {
         self.pending_types.pop()
@@ -357,14 +377,13 @@ impl SchemaGenerator {
     fn generate_type_definition(&mut self, shape: &'static Shape) -> Option<Schema> {
         match &shape.ty {
             Type::User(user) => {
-                let type_id = shape.type_identifier;
-                self.generating.insert(type_id);
+                self.generating.insert(shape.id);
                 let result = match user {
                     UserType::Struct(struct_type) => Some(self.struct_to_schema(struct_type)),
                     UserType::Enum(enum_type) => Some(self.enum_to_schema(enum_type)),
                     _ => None,
                 };
-                self.generating.remove(type_id);
+                self.generating.remove(&shape.id);
                 result
             }
             _ => None,
@@ -492,6 +511,8 @@ impl SchemaGenerator {
     }
 
     fn user_type_to_schema(&mut self, user: &UserType, shape: &'static Shape) -> Schema {
+        use facet_core::StructKind;
+
         let type_id = shape.type_identifier;
 
         // Schema is a well-known built-in type - emit a reference without generating its definition.
@@ -503,20 +524,24 @@ impl SchemaGenerator {
         }
 
         // Cycle detection - if we're already generating this type, return a reference
-        if self.generating.contains(type_id) {
+        if self.generating.contains(&shape.id) {
             self.queue_type(shape);
             return Schema::Type {
-                name: Some(type_id.to_string()),
+                name: Some(self.type_name(shape)),
             };
         }
 
         match user {
+            // Tuples have no name of their own to refer to them by
+            UserType::Struct(struct_type) if struct_type.kind == StructKind::Tuple => {
+                self.tuple_to_schema(struct_type)
+            }
             // For structs and enums, always emit a type reference and queue for definition
             // This gives all complex types their own named definitions
             UserType::Struct(_) | UserType::Enum(_) => {
                 self.queue_type(shape);
                 Schema::Type {
-                    name: Some(type_id.to_string()),
+                    name: Some(self.type_name(shape)),
                 }
             }
             UserType::Union(_) => Schema::Any,
@@ -534,6 +559,16 @@ impl SchemaGenerator {
         }
     }
 
+    /// A tuple: each position has a distinct type.
+    fn tuple_to_schema(&mut self, struct_type: &facet_core::StructType) -> Schema {
+        let elements: Vec<Documented<Schema>> = struct_type
+            .fields
+            .iter()
+            .map(|field| Documented::new(self.shape_to_schema(field.shape())))
+            .collect();
+        Schema::Tuple(TupleSchema(elements))
+    }
+
     fn struct_to_schema(&mut self, struct_type: &facet_core::StructType) -> Schema {
         use facet_core::StructKind;
 
@@ -544,13 +579,7 @@ impl SchemaGenerator {
                     // Newtype - unwrap
                     self.shape_to_schema(struct_type.fields[0].shape())
                 } else {
-                    // Tuple with multiple fields - each position has a distinct type
-                    let elements: Vec<Documented<Schema>> = struct_type
-                        .fields
-                        .iter()
-                        .map(|field| Documented::new(self.shape_to_schema(field.shape())))
-                        .collect();
-                    Schema::Tuple(TupleSchema(elements))
+                    self.tuple_to_schema(struct_type)
                 }
             }
             StructKind::Struct => {
@@ -670,14 +699,7 @@ impl SchemaGenerator {
                     if variant.data.fields.len() == 1 {
                         self.shape_to_schema(variant.data.fields[0].shape())
                     } else {
-                        // Tuple variant with multiple fields
-                        let elements: Vec<Documented<Schema>> = variant
-                            .data
-                            .fields
-                            .iter()
-                            .map(|field| Documented::new(self.shape_to_schema(field.shape())))
-                            .collect();
-                        Schema::Tuple(TupleSchema(elements))
+                        self.tuple_to_schema(&variant.data)
                     }
                 }
                 StructKind::Struct => self.struct_to_schema(&variant.data),
-- 
2.43.0


From 3d86081e26380b3800f950925729a44f543d7487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:43 +0000
Subject: [PATCH 76/86] fix: facet-styx: generated schemas have the fields of
 flattened structs

---
 crates/facet-styx/src/schema_gen.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/schema_gen.rs b/crates/facet-styx/src/schema_gen.rs
index 992f562..6cd3deb 100644
--- a/crates/facet-styx/src/schema_gen.rs
+++ b/crates/facet-styx/src/schema_gen.rs
@@ -587,7 +587,17 @@ impl SchemaGenerator {
 
                 for field in struct_type.fields {
                     let field_name = field.effective_name();
-                    let field_schema = self.shape_to_schema(field.shape());
+                    let field_schema = match field.shape().ty {
+                        // The fields of a flattened struct take the place of the field
+                        Type::User(UserType::Struct(inner))
+                            if field.is_flattened()
+                                && inner.kind == StructKind::Struct
+                                && !field.shape().is_metadata_container() =>
+                        {
+                            self.struct_to_schema(&inner)
+                        }
+                        _ => self.shape_to_schema(field.shape()),
+                    };
 
                     // Extract doc comments from field
                     let doc = if field.doc.is_empty() {
-- 
2.43.0


From 42f5db7cfd3efeab5b7f5f41d50ce8cfa3aaf29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:45 +0000
Subject: [PATCH 77/86] fix: facet-styx: generated schemas allow any value for
 RawStyx

---
 crates/facet-styx/src/schema_gen.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/facet-styx/src/schema_gen.rs b/crates/facet-styx/src/schema_gen.rs
index 6cd3deb..4f1d554 100644
--- a/crates/facet-styx/src/schema_gen.rs
+++ b/crates/facet-styx/src/schema_gen.rs
@@ -397,6 +397,11 @@ impl SchemaGenerator {
             return self.shape_to_schema(inner_shape);
         }
 
+        // RawStyx holds any value
+        if shape == RawStyx::SHAPE {
+            return Schema::Any;
+        }
+
         match &shape.def {
             Def::Scalar => self.scalar_to_schema(shape),
             Def::Option(opt_def) => {
-- 
2.43.0


From 962082805dbf3d0f3ecbd0341265a7d327d5e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:14 +0000
Subject: [PATCH 78/86] fix: facet-styx: generated schemas describe untagged
 enums by their payloads

---
 crates/facet-styx/src/schema_gen.rs | 46 ++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/crates/facet-styx/src/schema_gen.rs b/crates/facet-styx/src/schema_gen.rs
index 4f1d554..c5712d4 100644
--- a/crates/facet-styx/src/schema_gen.rs
+++ b/crates/facet-styx/src/schema_gen.rs
@@ -16,7 +16,7 @@ use std::ptr::NonNull;
 use crate::peek_to_string_expr;
 use crate::schema_types::{
     DefaultSchema, Documented, EnumSchema, LspExtensionConfig, MapSchema, Meta, ObjectKey,
-    ObjectSchema, OptionalSchema, RawStyx, Schema, SchemaFile, SeqSchema, TupleSchema,
+    ObjectSchema, OptionalSchema, RawStyx, Schema, SchemaFile, SeqSchema, TupleSchema, UnionSchema,
 };
 
 /// Strip exactly one leading space from a doc line if present.
@@ -380,7 +380,9 @@ impl SchemaGenerator {
                 self.generating.insert(shape.id);
                 let result = match user {
                     UserType::Struct(struct_type) => Some(self.struct_to_schema(struct_type)),
-                    UserType::Enum(enum_type) => Some(self.enum_to_schema(enum_type)),
+                    UserType::Enum(enum_type) => {
+                        Some(self.enum_to_schema(enum_type, shape.is_untagged()))
+                    }
                     _ => None,
                 };
                 self.generating.remove(&shape.id);
@@ -695,30 +697,46 @@ impl SchemaGenerator {
         }
     }
 
-    fn enum_to_schema(&mut self, enum_type: &facet_core::EnumType) -> Schema {
+    /// The payload of an enum variant.
+    fn variant_to_schema(&mut self, variant: &facet_core::Variant) -> Schema {
         use facet_core::StructKind;
 
+        match variant.data.kind {
+            StructKind::Unit => Schema::Unit,
+            StructKind::Tuple | StructKind::TupleStruct => {
+                if variant.data.fields.len() == 1 {
+                    self.shape_to_schema(variant.data.fields[0].shape())
+                } else {
+                    self.tuple_to_schema(&variant.data)
+                }
+            }
+            StructKind::Struct => self.struct_to_schema(&variant.data),
+        }
+    }
+
+    fn enum_to_schema(&mut self, enum_type: &facet_core::EnumType, untagged: bool) -> Schema {
         // If any variant has #[facet(other)], this enum accepts any tag,
         // so emit @any instead of trying to enumerate variants
         if enum_type.variants.iter().any(|v| v.is_other()) {
             return Schema::Any;
         }
 
+        // Values of untagged enums are the payload of any of the variants
+        if untagged {
+            return Schema::Union(UnionSchema(
+                enum_type
+                    .variants
+                    .iter()
+                    .map(|variant| Documented::new(self.variant_to_schema(variant)))
+                    .collect(),
+            ));
+        }
+
         let mut variants: HashMap<Documented<String>, Schema> = HashMap::new();
 
         for variant in enum_type.variants {
             let variant_name = variant.effective_name().to_string();
-            let variant_schema = match variant.data.kind {
-                StructKind::Unit => Schema::Unit,
-                StructKind::Tuple | StructKind::TupleStruct => {
-                    if variant.data.fields.len() == 1 {
-                        self.shape_to_schema(variant.data.fields[0].shape())
-                    } else {
-                        self.tuple_to_schema(&variant.data)
-                    }
-                }
-                StructKind::Struct => self.struct_to_schema(&variant.data),
-            };
+            let variant_schema = self.variant_to_schema(variant);
 
             // Extract doc comments from variant
             let doc = if variant.doc.is_empty() {
-- 
2.43.0


From a5e78a02d67f32861a222940ab76a22abb751d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:16 +0000
Subject: [PATCH 79/86] fix: facet-styx: generated schemas let fields of types
 with a default be left out

---
 crates/facet-styx/src/schema_gen.rs | 36 +++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/crates/facet-styx/src/schema_gen.rs b/crates/facet-styx/src/schema_gen.rs
index c5712d4..34639f7 100644
--- a/crates/facet-styx/src/schema_gen.rs
+++ b/crates/facet-styx/src/schema_gen.rs
@@ -4,8 +4,8 @@
 //! that implement `Facet`.
 
 use facet_core::{
-    ConstTypeId, Def, DefaultSource, Facet, Field, NumericType, PrimitiveType, PtrConst, PtrMut,
-    PtrUninit, Shape, ShapeLayout, Type, UserType,
+    Characteristic, ConstTypeId, Def, DefaultSource, Facet, Field, NumericType, PrimitiveType,
+    PtrConst, PtrMut, PtrUninit, Shape, ShapeLayout, Type, UserType,
 };
 use facet_reflect::Peek;
 use std::collections::{HashMap, HashSet};
@@ -29,9 +29,21 @@ fn strip_doc_leading_space(s: &str) -> String {
 
 /// Try to get the default value for a field as a styx expression string.
 /// Returns None if the field has no default or if serialization fails.
-fn field_default_value(field: &Field) -> Option<String> {
-    let default_source = field.default?;
+///
+/// The fields of a type that has a default (`container_default`) take the default of
+/// their own type when they are left out; options can be left out anyway.
+fn field_default_value(field: &Field, container_default: bool) -> Option<String> {
     let shape = field.shape();
+    let default_source = match field.default {
+        Some(source) => source,
+        None if container_default
+            && !matches!(shape.def, Def::Option(_))
+            && shape.is(Characteristic::Default) =>
+        {
+            DefaultSource::FromTrait
+        }
+        None => return None,
+    };
 
     // Get layout
     let layout = match shape.layout {
@@ -379,7 +391,9 @@ impl SchemaGenerator {
             Type::User(user) => {
                 self.generating.insert(shape.id);
                 let result = match user {
-                    UserType::Struct(struct_type) => Some(self.struct_to_schema(struct_type)),
+                    UserType::Struct(struct_type) => {
+                        Some(self.struct_to_schema(struct_type, shape.is(Characteristic::Default)))
+                    }
                     UserType::Enum(enum_type) => {
                         Some(self.enum_to_schema(enum_type, shape.is_untagged()))
                     }
@@ -576,7 +590,11 @@ impl SchemaGenerator {
         Schema::Tuple(TupleSchema(elements))
     }
 
-    fn struct_to_schema(&mut self, struct_type: &facet_core::StructType) -> Schema {
+    fn struct_to_schema(
+        &mut self,
+        struct_type: &facet_core::StructType,
+        container_default: bool,
+    ) -> Schema {
         use facet_core::StructKind;
 
         match struct_type.kind {
@@ -601,7 +619,7 @@ impl SchemaGenerator {
                                 && inner.kind == StructKind::Struct
                                 && !field.shape().is_metadata_container() =>
                         {
-                            self.struct_to_schema(&inner)
+                            self.struct_to_schema(&inner, field.shape().is(Characteristic::Default))
                         }
                         _ => self.shape_to_schema(field.shape()),
                     };
@@ -668,7 +686,7 @@ impl SchemaGenerator {
                     let mut field_schema = field_schema;
 
                     // Wrap with @default if field has a default value
-                    if let Some(default_value_str) = field_default_value(field) {
+                    if let Some(default_value_str) = field_default_value(field, container_default) {
                         let default_value = RawStyx::new(default_value_str);
                         field_schema = Schema::Default(DefaultSchema((
                             default_value,
@@ -710,7 +728,7 @@ impl SchemaGenerator {
                     self.tuple_to_schema(&variant.data)
                 }
             }
-            StructKind::Struct => self.struct_to_schema(&variant.data),
+            StructKind::Struct => self.struct_to_schema(&variant.data, false),
         }
     }
 
-- 
2.43.0


From a5fd751e7192b1cfeeb9c26cc62872cae12d01b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:50 +0000
Subject: [PATCH 80/86] fix: facet-styx: generated schemas describe newtypes
 and results as they are read

---
 crates/facet-styx/src/schema_gen.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/facet-styx/src/schema_gen.rs b/crates/facet-styx/src/schema_gen.rs
index 34639f7..7e5571d 100644
--- a/crates/facet-styx/src/schema_gen.rs
+++ b/crates/facet-styx/src/schema_gen.rs
@@ -387,10 +387,20 @@ impl SchemaGenerator {
     /// Generate the schema definition for a user type (struct or enum).
     /// This is used when generating named type definitions.
     fn generate_type_definition(&mut self, shape: &'static Shape) -> Option<Schema> {
+        use facet_core::StructKind;
+
         match &shape.ty {
             Type::User(user) => {
                 self.generating.insert(shape.id);
                 let result = match user {
+                    // Tuple structs with one field are tuples like others; only
+                    // transparent ones are written as what they hold
+                    UserType::Struct(struct_type)
+                        if struct_type.kind == StructKind::TupleStruct
+                            && !shape.is_transparent() =>
+                    {
+                        Some(self.tuple_to_schema(struct_type))
+                    }
                     UserType::Struct(struct_type) => {
                         Some(self.struct_to_schema(struct_type, shape.is(Characteristic::Default)))
                     }
@@ -447,10 +457,12 @@ impl SchemaGenerator {
             Def::Result(result_def) => {
                 let ok = self.shape_to_schema(result_def.t);
                 let err = self.shape_to_schema(result_def.e);
-                let mut variants = HashMap::new();
-                variants.insert(Documented::new("ok".to_string()), ok);
-                variants.insert(Documented::new("err".to_string()), err);
-                Schema::Enum(EnumSchema(variants))
+                // A result is an object with the one key Ok or Err
+                let object = |name: &str, schema: Schema| {
+                    let key = Documented::new(ObjectKey::named(name));
+                    Documented::new(Schema::Object(ObjectSchema(HashMap::from([(key, schema)]))))
+                };
+                Schema::Union(UnionSchema(vec![object("Ok", ok), object("Err", err)]))
             }
             Def::Pointer(ptr_def) => {
                 if let Some(pointee) = ptr_def.pointee {
-- 
2.43.0


From 7f90655936b2c8a8893f5b5bbf2e4185994472c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:59 +0000
Subject: [PATCH 81/86] fix: styx-lsp: Enter inside heredocs and strings
 changes nothing of them

---
 crates/styx-lsp/src/server.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 77d6f45..b702e62 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -1952,6 +1952,12 @@ impl LanguageServer for StyxLanguageServer {
         // Convert position to byte offset
         let offset = position_to_offset(&doc.content, position);
 
+        // Text of several lines keeps its lines as they are
+        let line_start = position_to_offset(&doc.content, Position::new(position.line, 0));
+        if is_within_text(&doc.parse, line_start) {
+            return Ok(None);
+        }
+
         // Find the nesting depth at this offset using the CST
         let depth = find_nesting_depth_cst(&doc.parse, offset);
 
@@ -1982,6 +1988,21 @@ impl LanguageServer for StyxLanguageServer {
     }
 }
 
+/// Whether an offset is inside of a token or scalar, such as a heredoc.
+fn is_within_text(parse: &styx_cst::Parse, offset: usize) -> bool {
+    use styx_cst::{SyntaxKind, TextSize};
+
+    let offset = TextSize::new(offset as u32);
+    let inside = |range: styx_cst::TextRange| range.start() < offset && offset < range.end();
+    parse.syntax().token_at_offset(offset).any(|token| {
+        (inside(token.text_range()) && token.kind() != SyntaxKind::WHITESPACE)
+            || token.parent_ancestors().any(|node| {
+                matches!(node.kind(), SyntaxKind::SCALAR | SyntaxKind::HEREDOC)
+                    && inside(node.text_range())
+            })
+    })
+}
+
 /// Find the nesting depth (number of objects/sequences) containing the given offset.
 ///
 /// Uses the CST for accurate position information. Counts OBJECT and SEQUENCE
-- 
2.43.0


From 051cb52290b8d6da676280bc0b8fed2f55e1be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:59 +0000
Subject: [PATCH 82/86] fix: styx-lsp: missing fields are filled in inside
 their object, with values of their types; renames keep siblings apart

---
 crates/styx-lsp/src/schema_validation.rs | 228 +++++++++-------
 crates/styx-lsp/src/server.rs            | 315 ++++++++++++++++-------
 2 files changed, 359 insertions(+), 184 deletions(-)

diff --git a/crates/styx-lsp/src/schema_validation.rs b/crates/styx-lsp/src/schema_validation.rs
index 90edee3..c5d636d 100644
--- a/crates/styx-lsp/src/schema_validation.rs
+++ b/crates/styx-lsp/src/schema_validation.rs
@@ -4,7 +4,9 @@
 
 use std::path::{Path, PathBuf};
 
-use facet_styx::{Documented, ObjectKey, Schema, SchemaFile, ValidationResult, validate};
+use facet_styx::{
+    Documented, ObjectKey, ObjectSchema, Schema, SchemaFile, ValidationResult, validate,
+};
 use styx_tree::Value;
 use tower_lsp::lsp_types::Url;
 
@@ -359,38 +361,47 @@ pub fn get_schema_fields(schema_file: &SchemaFile) -> Vec<SchemaField> {
     fields
 }
 
-/// Recursively collect fields from a schema, handling wrappers like @object.
+/// Collect the fields of an object schema, behind type references and modifiers.
 fn collect_object_fields(schema: &Schema, schema_file: &SchemaFile, fields: &mut Vec<SchemaField>) {
-    match schema {
-        Schema::Object(obj) => {
-            for (key, field_schema) in &obj.0 {
-                // Skip the catch-all @ field (those with no name)
-                let Some(name) = key.name() else { continue };
-
-                let (optional, default_value, inner_schema) =
-                    unwrap_field_modifiers(field_schema.clone());
-
-                fields.push(SchemaField {
-                    name: name.to_string(),
-                    optional,
-                    default_value,
-                    schema: inner_schema,
-                });
-            }
-        }
-        Schema::Flatten(flatten) => {
-            collect_object_fields(&flatten.0.0, schema_file, fields);
-        }
-        Schema::Type {
-            name: Some(type_name),
-        } => {
-            // Resolve the type reference and collect its fields
-            if let Some(type_schema) = schema_file.schema.get(&Some(type_name.clone())) {
-                let resolved = resolve_type_reference(type_schema, schema_file);
-                collect_object_fields(&resolved, schema_file, fields);
+    let Schema::Object(obj) = resolve_type_reference(schema, schema_file) else {
+        return;
+    };
+
+    let mut object_fields = Vec::new();
+    inline_object_fields(obj, schema_file, 0, &mut object_fields);
+    for (key, field_schema) in object_fields {
+        // Skip the catch-all @ field (those with no name)
+        let Some(name) = key.name() else { continue };
+
+        let (optional, default_value, inner_schema) = unwrap_field_modifiers(field_schema.clone());
+
+        fields.push(SchemaField {
+            name: name.to_string(),
+            optional,
+            default_value,
+            schema: inner_schema,
+        });
+    }
+}
+
+/// The fields of an object schema, those of flattened types in their place.
+fn inline_object_fields<'a>(
+    obj: &'a ObjectSchema,
+    schema_file: &'a SchemaFile,
+    depth: usize,
+    fields: &mut Vec<(&'a ObjectKey, &'a Schema)>,
+) {
+    for (key, field_schema) in &obj.0 {
+        if key.name().is_some() && matches!(field_schema, Schema::Flatten(_)) {
+            // Types can be flattened into themselves by mistake
+            if depth < 8
+                && let Schema::Object(inner) = resolve_type_reference(field_schema, schema_file)
+            {
+                inline_object_fields(inner, schema_file, depth + 1, fields);
             }
+        } else {
+            fields.push((&key.value, field_schema));
         }
-        _ => {}
     }
 }
 
@@ -411,8 +422,27 @@ fn unwrap_field_modifiers(schema: Schema) -> (bool, Option<String>, Schema) {
     }
 }
 
+/// Write a text as a scalar, quoted where it has to be.
+fn scalar_text(text: &str) -> String {
+    if styx_format::can_be_bare(text) {
+        text.to_string()
+    } else {
+        format!("\"{}\"", styx_format::escape_quoted(text))
+    }
+}
+
 /// Generate a placeholder value for a schema type.
-pub fn generate_placeholder(schema: &Schema) -> String {
+pub fn generate_placeholder(schema: &Schema, schema_file: &SchemaFile) -> String {
+    placeholder(schema, schema_file, 0)
+}
+
+fn placeholder(schema: &Schema, schema_file: &SchemaFile, depth: usize) -> String {
+    // Types can hold themselves
+    if depth > 16 {
+        return "@".to_string();
+    }
+    let nested = |schema: &Schema| placeholder(schema, schema_file, depth + 1);
+
     match schema {
         Schema::String(_) => "\"\"".to_string(),
         Schema::Int(_) => "0".to_string(),
@@ -420,39 +450,56 @@ pub fn generate_placeholder(schema: &Schema) -> String {
         Schema::Bool => "false".to_string(),
         Schema::Unit => "@".to_string(),
         Schema::Any => "@".to_string(),
-        Schema::Seq(_) => "[]".to_string(),
+        Schema::Seq(_) => "()".to_string(),
         Schema::Map(_) => "{}".to_string(),
         Schema::Object(_) => "{}".to_string(),
-        Schema::Optional(opt) => generate_placeholder(&opt.0.0.value),
+        Schema::Optional(opt) => nested(&opt.0.0.value),
         Schema::Default(def) => def.0.0.to_string(),
-        Schema::Deprecated(dep) => generate_placeholder(&dep.0.1.value),
+        Schema::Deprecated(dep) => nested(&dep.0.1.value),
         Schema::Union(u) => {
             u.0.first()
-                .map(|d| generate_placeholder(&d.value))
+                .map(|d| nested(&d.value))
                 .unwrap_or_else(|| "@".to_string())
         }
         Schema::Enum(e) => {
-            e.0.keys()
-                .next()
-                .map(|k| format!("@{}", k.value))
-                .unwrap_or_else(|| "@".to_string())
+            // The first of the variants without a payload, or else of those with one
+            let variant = e.0.iter().min_by_key(|(name, payload)| {
+                (!matches!(payload, Schema::Unit), name.value.as_str())
+            });
+            match variant {
+                Some((name, Schema::Unit)) => format!("@{}", name.value),
+                Some((name, payload)) => {
+                    let payload = nested(payload);
+                    // A payload begins right after the tag
+                    if payload.starts_with(['{', '(', '"', '@']) {
+                        format!("@{}{}", name.value, payload)
+                    } else {
+                        format!(
+                            "@{}\"{}\"",
+                            name.value,
+                            styx_format::escape_quoted(&payload)
+                        )
+                    }
+                }
+                None => "@".to_string(),
+            }
         }
         Schema::OneOf(o) => {
             // Use first allowed value if available, otherwise generate from base type
             o.0.1
                 .first()
                 .map(|v| v.0.clone())
-                .unwrap_or_else(|| generate_placeholder(&o.0.0.value))
+                .unwrap_or_else(|| nested(&o.0.0.value))
         }
-        Schema::Flatten(f) => generate_placeholder(&f.0.0.value),
-        Schema::Literal(lit) => lit.clone(),
-        Schema::Type { name } => name
-            .as_ref()
-            .map(|n| format!("@{}", n))
-            .unwrap_or_else(|| "@".to_string()),
+        Schema::Flatten(f) => nested(&f.0.0.value),
+        Schema::Literal(lit) => scalar_text(lit),
+        Schema::Type { name } => match schema_file.schema.get(name) {
+            Some(definition) if name.is_some() => nested(definition),
+            _ => "@".to_string(),
+        },
         Schema::Tuple(t) => {
             // Generate tuple placeholder: (val1 val2 ...)
-            let elements: Vec<_> = t.0.iter().map(|d| generate_placeholder(&d.value)).collect();
+            let elements: Vec<_> = t.0.iter().map(|d| nested(&d.value)).collect();
             format!("({})", elements.join(" "))
         }
     }
@@ -486,8 +533,6 @@ pub struct ObjectContext {
     pub path: Vec<String>,
     /// The object value itself
     pub object: styx_tree::Object,
-    /// Span of the object in the source
-    pub span: Option<styx_tree::Span>,
 }
 
 /// Find the innermost object containing the given offset.
@@ -574,10 +619,14 @@ fn find_object_at_offset_recursive(
             && offset >= val_span.start as usize
             && offset <= val_span.end as usize
             && let Some(nested_obj) = entry.value.as_object()
+            && !(path.is_empty() && entry.key.is_schema_tag())
         {
             let mut nested_path = path.clone();
             if let Some(key) = entry.key.as_str() {
                 nested_path.push(key.to_string());
+            } else {
+                // Keys like @ and @tag: no field has this name, catch-alls do
+                nested_path.push(format!("@{}", entry.key.tag_name().unwrap_or_default()));
             }
             // If the value has a tag (like @query), add it to the path
             // This allows schema navigation to find enum variants
@@ -592,7 +641,6 @@ fn find_object_at_offset_recursive(
             return Some(ObjectContext {
                 path: nested_path,
                 object: nested_obj.clone(),
-                span: entry.value.span,
             });
         }
     }
@@ -600,7 +648,6 @@ fn find_object_at_offset_recursive(
     Some(ObjectContext {
         path,
         object: obj.clone(),
-        span: obj.span,
     })
 }
 
@@ -622,27 +669,17 @@ fn get_schema_at_path_recursive(
     let field_name = &path[0];
     let rest = &path[1..];
 
-    match schema {
+    match resolve_type_reference(schema, schema_file) {
         Schema::Object(obj) => {
-            // First try exact named field match
-            if let Some(field_schema) = obj
-                .0
-                .get(&Documented::new(ObjectKey::named(field_name.clone())))
-            {
-                return get_schema_at_path_recursive(field_schema, rest, schema_file);
-            }
-
-            // Try catch-all keys (like @string or @)
-            for (key, field_schema) in &obj.0 {
-                // Check for typed catch-all like @string (tag = Some("string"), value = None)
-                // or unit catch-all @ (tag = Some(""), value = None)
-                // key is Documented<ObjectKey>, so key.value is the ObjectKey
-                if key.value.value.is_none() && key.value.tag.is_some() {
-                    return get_schema_at_path_recursive(field_schema, rest, schema_file);
-                }
-            }
-
-            None
+            let mut fields = Vec::new();
+            inline_object_fields(obj, schema_file, 0, &mut fields);
+
+            // First try exact named field match, then catch-all keys (like @string or @)
+            let (_, field_schema) = fields
+                .iter()
+                .find(|(key, _)| key.name() == Some(field_name))
+                .or_else(|| fields.iter().find(|(key, _)| key.name().is_none()))?;
+            get_schema_at_path_recursive(field_schema, rest, schema_file)
         }
         Schema::Enum(enum_schema) => {
             // Check if field_name is a tag reference like "@query"
@@ -668,15 +705,6 @@ fn get_schema_at_path_recursive(
             };
             get_schema_at_path_recursive(value_schema, rest, schema_file)
         }
-        Schema::Optional(opt) => get_schema_at_path_recursive(&opt.0.0, path, schema_file),
-        Schema::Default(def) => get_schema_at_path_recursive(&def.0.1, path, schema_file),
-        Schema::Deprecated(dep) => get_schema_at_path_recursive(&dep.0.1, path, schema_file),
-        Schema::Type {
-            name: Some(type_name),
-        } => {
-            let type_schema = schema_file.schema.get(&Some(type_name.clone()))?;
-            get_schema_at_path_recursive(type_schema, path, schema_file)
-        }
         _ => None,
     }
 }
@@ -687,27 +715,35 @@ pub fn get_schema_fields_at_path(schema_file: &SchemaFile, path: &[String]) -> V
         return Vec::new();
     };
 
-    // Resolve type references to get the actual schema
-    let resolved = resolve_type_reference(&schema, schema_file);
-
     let mut fields = Vec::new();
-    collect_object_fields(&resolved, schema_file, &mut fields);
+    collect_object_fields(&schema, schema_file, &mut fields);
     fields
 }
 
-/// Resolve a type reference to its actual schema definition.
-fn resolve_type_reference(schema: &Schema, schema_file: &SchemaFile) -> Schema {
-    match schema {
-        Schema::Type {
-            name: Some(type_name),
-        } => {
-            if let Some(type_schema) = schema_file.schema.get(&Some(type_name.clone())) {
-                resolve_type_reference(type_schema, schema_file)
-            } else {
-                schema.clone()
+/// Find the schema behind type references and modifiers like @optional.
+/// A reference that leads nowhere, or back to itself, is returned as it is.
+fn resolve_type_reference<'a>(mut schema: &'a Schema, schema_file: &'a SchemaFile) -> &'a Schema {
+    let mut references = 0;
+    loop {
+        schema = match schema {
+            Schema::Optional(opt) => &opt.0.0.value,
+            Schema::Default(def) => &def.0.1.value,
+            Schema::Deprecated(dep) => &dep.0.1.value,
+            Schema::Flatten(flatten) => &flatten.0.0.value,
+            Schema::Type { name: Some(_) } if references > schema_file.schema.len() => {
+                return schema;
             }
-        }
-        other => other.clone(),
+            Schema::Type {
+                name: name @ Some(_),
+            } => match schema_file.schema.get(name) {
+                Some(definition) => {
+                    references += 1;
+                    definition
+                }
+                None => return schema,
+            },
+            _ => return schema,
+        };
     }
 }
 
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index b702e62..4b61311 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -1283,9 +1283,17 @@ impl LanguageServer for StyxLanguageServer {
                 )
             {
                 // Create a text edit to rename the field
+                let docs = self.documents.read().await;
+                let Some(new_text) = docs
+                    .get(&uri)
+                    .and_then(|doc| renamed_key(doc, diag.range, to))
+                else {
+                    continue;
+                };
+                drop(docs);
                 let edit = TextEdit {
                     range: diag.range,
-                    new_text: to.to_string(),
+                    new_text,
                 };
 
                 let mut changes = std::collections::HashMap::new();
@@ -1471,42 +1479,18 @@ impl LanguageServer for StyxLanguageServer {
                     .filter(|f| f.optional && !existing_fields.contains(&f.name))
                     .collect();
 
-                // Find insert position and indentation within the current object
-                let insert_info = if let Some(ref ctx) = object_ctx {
-                    if let Some(span) = ctx.span {
-                        // Find insertion point within this object
-                        let obj_content = &doc.content[span.start as usize..span.end as usize];
-                        let obj_insert = find_field_insert_position(obj_content);
-                        // Adjust position to be relative to document start
-                        let obj_start_pos = offset_to_position(&doc.content, span.start as usize);
-                        InsertPosition {
-                            position: Position {
-                                line: obj_start_pos.line + obj_insert.position.line,
-                                character: if obj_insert.position.line == 0 {
-                                    obj_start_pos.character + obj_insert.position.character
-                                } else {
-                                    obj_insert.position.character
-                                },
-                            },
-                            indent: obj_insert.indent,
-                        }
-                    } else {
-                        find_field_insert_position(&doc.content)
-                    }
-                } else {
-                    find_field_insert_position(&doc.content)
+                // Find where the current object can take new fields
+                let place = match &object_ctx {
+                    Some(ctx) => find_field_place(doc, &ctx.object),
+                    None => tree.as_object().and_then(|obj| find_field_place(doc, obj)),
                 };
 
                 // Action: Fill required fields
-                if !missing_required.is_empty() {
-                    let new_text = generate_fields_text(&missing_required, &insert_info.indent);
-                    let edit = TextEdit {
-                        range: Range {
-                            start: insert_info.position,
-                            end: insert_info.position,
-                        },
-                        new_text,
-                    };
+                if let Some(place) = &place
+                    && !missing_required.is_empty()
+                {
+                    let edit =
+                        generate_fields_edit(&missing_required, &schema_file, &doc.content, place);
 
                     let mut changes = std::collections::HashMap::new();
                     changes.insert(uri.clone(), vec![edit]);
@@ -1533,15 +1517,11 @@ impl LanguageServer for StyxLanguageServer {
                     .filter(|f| !existing_fields.contains(&f.name))
                     .collect();
 
-                if !all_missing.is_empty() && !missing_optional.is_empty() {
-                    let new_text = generate_fields_text(&all_missing, &insert_info.indent);
-                    let edit = TextEdit {
-                        range: Range {
-                            start: insert_info.position,
-                            end: insert_info.position,
-                        },
-                        new_text,
-                    };
+                if let Some(place) = &place
+                    && !missing_optional.is_empty()
+                {
+                    let edit =
+                        generate_fields_edit(&all_missing, &schema_file, &doc.content, place);
 
                     let mut changes = std::collections::HashMap::new();
                     changes.insert(uri.clone(), vec![edit]);
@@ -3240,65 +3220,224 @@ fn find_field_in_doc(tree: &Value, field_name: &str, content: &str) -> Option<Ra
     None
 }
 
-/// Info about where to insert new fields
-struct InsertPosition {
-    position: Position,
-    indent: String,
+/// Where an object takes new fields.
+struct FieldPlace {
+    /// Byte offset of the insertion
+    offset: usize,
+    /// What goes before the first new field
+    lead: String,
+    /// What goes between new fields
+    separator: String,
+    /// What goes before a line of its own: a line break and the indentation
+    line: String,
+    /// Whether the rest of the line belongs to the object
+    inline: bool,
 }
 
-/// Find the position where new fields should be inserted and the indentation to use.
-fn find_field_insert_position(content: &str) -> InsertPosition {
-    let lines: Vec<&str> = content.lines().collect();
-
-    // Find the last non-empty, non-comment line
-    for (i, line) in lines.iter().enumerate().rev() {
-        let trimmed = line.trim();
-        if !trimmed.is_empty() && !trimmed.starts_with("//") && !trimmed.starts_with('#') {
-            // Detect indentation from this line
-            let indent_len = line.len() - line.trim_start().len();
-            let indent = line[..indent_len].to_string();
-
-            return InsertPosition {
-                position: Position {
-                    line: i as u32,
-                    character: line.len() as u32,
-                },
-                indent,
-            };
+/// The offset after a value, with everything in it.
+fn value_end(value: &Value) -> usize {
+    let own = value.span.map(|s| s.end as usize).unwrap_or(0);
+    let entries = value.as_object().map(|o| o.entries.as_slice());
+    entries
+        .unwrap_or_default()
+        .iter()
+        .map(|e| value_end(&e.value))
+        .fold(own, usize::max)
+}
+
+/// Find where an object takes new fields: after its last one.
+/// Objects without braces (attributes, dotted paths) have no such place.
+fn find_field_place(doc: &DocumentState, obj: &styx_tree::Object) -> Option<FieldPlace> {
+    use styx_cst::SyntaxKind;
+
+    let content = doc.content.as_str();
+    let braces = match obj.span {
+        Some(span) => {
+            let (start, end) = (span.start as usize, span.end as usize);
+            let text = content.get(start..end)?;
+            if !text.starts_with('{') || !text.ends_with('}') {
+                return None;
+            }
+            Some((start, end))
         }
+        None => None,
+    };
+    let commas = braces.is_some_and(|(start, end)| {
+        doc.parse.syntax().descendants().any(|node| {
+            node.kind() == SyntaxKind::OBJECT
+                && usize::from(node.text_range().start()) == start
+                && usize::from(node.text_range().end()) == end
+                && node
+                    .children_with_tokens()
+                    .any(|child| child.kind() == SyntaxKind::COMMA)
+        })
+    });
+    let inline = braces.is_some_and(|(start, end)| !content[start..end].contains(['\n', '\r']));
+    let commas = commas || inline;
+
+    let last = obj.entries.iter().max_by_key(|e| value_end(&e.value));
+    let line_of = |offset: usize| {
+        let start = content[..offset]
+            .rfind(['\n', '\r'])
+            .map(|i| i + 1)
+            .unwrap_or(0);
+        let blank = content[start..].len() - content[start..].trim_start_matches([' ', '\t']).len();
+        content[start..start + blank].to_string()
+    };
+    let indent = match (last, braces) {
+        (Some(entry), _) => line_of(entry.key.span?.start as usize),
+        (None, Some((start, _))) => line_of(start) + "    ",
+        (None, None) => String::new(),
+    };
+    let line = format!("\n{indent}");
+
+    let mut comma = commas && last.is_some();
+    let mut offset = match (last, braces) {
+        (Some(entry), _) => value_end(&entry.value),
+        (None, Some((start, _))) => start + 1,
+        (None, None) => content.len(),
+    };
+    // A comma and a comment after the last field stay with it
+    let blanks = |offset: usize| {
+        offset + content[offset..].len() - content[offset..].trim_start_matches([' ', '\t']).len()
+    };
+    let rest = content[offset..].trim_start();
+    let heredoc = doc.parse.syntax().descendants_with_tokens().any(|e| {
+        e.kind() == SyntaxKind::HEREDOC_END && usize::from(e.text_range().end()) == offset
+    });
+    if comma && rest.starts_with(',') {
+        offset = content.len() - rest.len() + 1;
+        comma = false;
+    }
+    if !comma && content[blanks(offset)..].starts_with("//") {
+        let rest = &content[blanks(offset)..];
+        offset = blanks(offset) + rest.find(['\n', '\r']).unwrap_or(rest.len());
     }
 
-    // Fallback: end of document, no indentation
-    InsertPosition {
-        position: Position {
-            line: lines.len().saturating_sub(1) as u32,
-            character: lines.last().map(|l| l.len()).unwrap_or(0) as u32,
-        },
-        indent: String::new(),
+    let own = |line: &str| {
+        if inline {
+            " ".to_string()
+        } else {
+            line.to_string()
+        }
+    };
+    let lead = match (comma, inline && last.is_none()) {
+        (_, true) => String::new(),
+        // Nothing can follow the end of a heredoc on its line
+        (true, _) if heredoc => format!("{line},{}", own(&line)),
+        (true, _) => format!(",{}", own(&line)),
+        (false, _) => own(&line),
+    };
+    let separator = if commas {
+        format!(",{}", own(&line))
+    } else {
+        line.clone()
+    };
+    Some(FieldPlace {
+        offset,
+        lead,
+        separator,
+        line,
+        inline,
+    })
+}
+
+/// Write a text as the key of a field.
+fn key_text(name: &str) -> String {
+    if styx_format::can_be_bare_key(name) {
+        name.to_string()
+    } else {
+        format!("\"{}\"", styx_format::escape_quoted(name))
     }
 }
 
-/// Generate text for inserting missing fields.
-fn generate_fields_text(fields: &[&crate::schema_validation::SchemaField], indent: &str) -> String {
+/// Generate the text edit that inserts missing fields.
+fn generate_fields_edit(
+    fields: &[&crate::schema_validation::SchemaField],
+    schema_file: &facet_styx::SchemaFile,
+    content: &str,
+    place: &FieldPlace,
+) -> TextEdit {
     use crate::schema_validation::generate_placeholder;
 
-    let mut result = String::new();
+    let mut lines = false;
+    let fields: Vec<String> = fields
+        .iter()
+        .map(|field| {
+            // Use default value if available, otherwise generate placeholder
+            let value = field
+                .default_value
+                .clone()
+                .unwrap_or_else(|| generate_placeholder(&field.schema, schema_file));
+            lines |= value.contains('\n');
+            format!("{} {}", key_text(&field.name), value)
+        })
+        .collect();
 
-    for field in fields {
-        result.push('\n');
-        result.push_str(indent);
-        result.push_str(&field.name);
-        result.push(' ');
+    let mut new_text = place.lead.clone();
+    new_text.push_str(&fields.join(&place.separator));
+    if lines && place.inline {
+        // Values of several lines end theirs
+        new_text.push_str(&place.line);
+    }
 
-        // Use default value if available, otherwise generate placeholder
-        let value = field
-            .default_value
-            .clone()
-            .unwrap_or_else(|| generate_placeholder(&field.schema));
-        result.push_str(&value);
+    let position = offset_to_position(content, place.offset);
+    TextEdit {
+        range: Range {
+            start: position,
+            end: position,
+        },
+        new_text,
     }
+}
 
-    result
+/// The text of a key at a range when the field is renamed, None when it cannot be.
+fn renamed_key(doc: &DocumentState, range: Range, to: &str) -> Option<String> {
+    let tree = doc.tree.as_ref()?;
+    let start = position_to_offset(&doc.content, range.start);
+    let end = position_to_offset(&doc.content, range.end);
+
+    fn siblings(value: &Value, start: usize, end: usize) -> Option<&styx_tree::Object> {
+        if let Some(obj) = value.as_object() {
+            let here = |e: &styx_tree::Entry| {
+                e.key
+                    .span
+                    .is_some_and(|s| s.start as usize == start && s.end as usize == end)
+            };
+            if obj.entries.iter().any(here) {
+                return Some(obj);
+            }
+            obj.entries
+                .iter()
+                .find_map(|e| siblings(&e.value, start, end))
+        } else {
+            value
+                .as_sequence()?
+                .items
+                .iter()
+                .find_map(|v| siblings(v, start, end))
+        }
+    }
+    // Only where there is such a key, and no other of the new name
+    let obj = siblings(tree, start, end)?;
+    if obj.entries.iter().any(|e| e.key.as_str() == Some(to)) {
+        return None;
+    }
+
+    let text = key_text(to);
+    // Segments of a path and attributes are never quoted
+    let in_path = doc.content[..start].ends_with('.')
+        || doc.content[end..].starts_with('.')
+        || doc.content[end..].starts_with('>');
+    if in_path && text.starts_with('"') {
+        return None;
+    }
+    // A value can follow quotes, but not a bare name, without a blank
+    let follows = doc.content[end..].chars().next();
+    if !in_path && !text.starts_with('"') && follows.is_some_and(|c| !c.is_whitespace()) {
+        return Some(format!("\"{text}\""));
+    }
+    Some(text)
 }
 
 /// Generate a text edit to reorder fields to match schema order.
-- 
2.43.0


From c25848032909953b0113d948fbacbc8cb69758b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:59 +0000
Subject: [PATCH 83/86] fix: styx-wasm: JSON keeps infinities, large integers,
 sibling dotted paths and objects that merely look like tags

---
 crates/styx-wasm/src/lib.rs | 54 +++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 5 deletions(-)

diff --git a/crates/styx-wasm/src/lib.rs b/crates/styx-wasm/src/lib.rs
index 694135d..d493f17 100644
--- a/crates/styx-wasm/src/lib.rs
+++ b/crates/styx-wasm/src/lib.rs
@@ -119,9 +119,9 @@ fn payload_to_json(payload: &Payload) -> serde_json::Value {
     match payload {
         Payload::Scalar(s) => {
             // Try to parse as number or boolean
-            if let Ok(n) = s.text.parse::<i64>() {
+            if let Some(n) = s.text.parse::<i64>().ok().filter(is_safe_integer) {
                 json!(n)
-            } else if let Ok(n) = s.text.parse::<f64>() {
+            } else if let Some(n) = s.text.parse::<f64>().ok().filter(|n| n.is_finite()) {
                 json!(n)
             } else if s.text == "true" {
                 json!(true)
@@ -138,6 +138,11 @@ fn payload_to_json(payload: &Payload) -> serde_json::Value {
     }
 }
 
+/// Whether JavaScript has a number for an integer.
+fn is_safe_integer(n: &i64) -> bool {
+    n.unsigned_abs() < 1 << 53
+}
+
 /// Convert a Styx Sequence to a JSON array.
 fn sequence_to_json(seq: &Sequence) -> serde_json::Value {
     let items: Vec<serde_json::Value> = seq.items.iter().map(value_to_json).collect();
@@ -161,12 +166,30 @@ fn object_to_json(obj: &Object) -> serde_json::Value {
             format!("{:?}", entry.key)
         };
 
-        map.insert(key, value_to_json(&entry.value));
+        insert_merged(&mut map, key, value_to_json(&entry.value));
     }
 
     serde_json::Value::Object(map)
 }
 
+/// Insert an entry. Those of sibling dotted paths are the parts of one object.
+fn insert_merged(
+    map: &mut serde_json::Map<String, serde_json::Value>,
+    key: String,
+    value: serde_json::Value,
+) {
+    match (map.get_mut(&key), value) {
+        (Some(serde_json::Value::Object(old)), serde_json::Value::Object(new)) => {
+            for (key, value) in new {
+                insert_merged(old, key, value);
+            }
+        }
+        (_, value) => {
+            map.insert(key, value);
+        }
+    }
+}
+
 /// Format a parse error kind into a human-readable message.
 fn format_error(kind: &styx_parse::ParseErrorKind) -> String {
     use styx_parse::ParseErrorKind::*;
@@ -301,11 +324,11 @@ fn json_to_value(json: &serde_json::Value) -> Value {
 
         serde_json::Value::Object(obj) => {
             // Check for tagged value: {"$tag": "name", "$value": ...}
-            if let Some(serde_json::Value::String(tag_name)) = obj.get("$tag") {
+            if let Some(tag_name) = tag_name_of(json) {
                 let payload = obj.get("$value").and_then(|v| json_to_value(v).payload);
                 return Value {
                     tag: Some(Tag {
-                        name: tag_name.clone(),
+                        name: tag_name.to_string(),
                         span: None,
                     }),
                     payload,
@@ -347,6 +370,27 @@ fn json_to_value(json: &serde_json::Value) -> Value {
     }
 }
 
+/// The name of the tag that an object stands for: `{"$tag": "name"}`, or with a `$value`
+/// that has no tag itself.
+fn tag_name_of(json: &serde_json::Value) -> Option<&str> {
+    let obj = json.as_object()?;
+    let name = obj.get("$tag")?.as_str()?;
+    let value = obj.get("$value");
+    let is_tag = is_valid_tag_name(name)
+        && obj.len() == 1 + usize::from(value.is_some())
+        && value.is_none_or(|v| tag_name_of(v).is_none());
+    is_tag.then_some(name)
+}
+
+/// Check if a tag can have a name: `[A-Za-z_][A-Za-z0-9_-]*`.
+fn is_valid_tag_name(name: &str) -> bool {
+    let mut chars = name.chars();
+    chars
+        .next()
+        .is_some_and(|c| c.is_ascii_alphabetic() || c == '_')
+        && chars.all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-')
+}
+
 /// Check if a string needs quoting in Styx.
 fn needs_quoting(s: &str) -> bool {
     if s.is_empty() {
-- 
2.43.0


From 194c13ad055a18665d27106b084a348be04a817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:27 +0000
Subject: [PATCH 84/86] fix: styx-lsp: completion and filling in fields look
 into objects in sequences

---
 crates/styx-lsp/src/schema_validation.rs | 79 ++++++++++++++++--------
 1 file changed, 52 insertions(+), 27 deletions(-)

diff --git a/crates/styx-lsp/src/schema_validation.rs b/crates/styx-lsp/src/schema_validation.rs
index c5d636d..e9bb8b7 100644
--- a/crates/styx-lsp/src/schema_validation.rs
+++ b/crates/styx-lsp/src/schema_validation.rs
@@ -615,33 +615,18 @@ fn find_object_at_offset_recursive(
     }
 
     for entry in &obj.entries {
-        if let Some(val_span) = entry.value.span
-            && offset >= val_span.start as usize
-            && offset <= val_span.end as usize
-            && let Some(nested_obj) = entry.value.as_object()
-            && !(path.is_empty() && entry.key.is_schema_tag())
-        {
-            let mut nested_path = path.clone();
-            if let Some(key) = entry.key.as_str() {
-                nested_path.push(key.to_string());
-            } else {
-                // Keys like @ and @tag: no field has this name, catch-alls do
-                nested_path.push(format!("@{}", entry.key.tag_name().unwrap_or_default()));
-            }
-            // If the value has a tag (like @query), add it to the path
-            // This allows schema navigation to find enum variants
-            if let Some(tag) = entry.value.tag_name() {
-                nested_path.push(format!("@{}", tag));
-            }
-            if let Some(deeper) =
-                find_object_at_offset_recursive(&entry.value, offset, nested_path.clone())
-            {
-                return Some(deeper);
-            }
-            return Some(ObjectContext {
-                path: nested_path,
-                object: nested_obj.clone(),
-            });
+        if path.is_empty() && entry.key.is_schema_tag() {
+            continue;
+        }
+        let mut nested_path = path.clone();
+        if let Some(key) = entry.key.as_str() {
+            nested_path.push(key.to_string());
+        } else {
+            // Keys like @ and @tag: no field has this name, catch-alls do
+            nested_path.push(format!("@{}", entry.key.tag_name().unwrap_or_default()));
+        }
+        if let Some(nested) = find_object_in_value(&entry.value, offset, nested_path) {
+            return Some(nested);
         }
     }
 
@@ -651,6 +636,38 @@ fn find_object_at_offset_recursive(
     })
 }
 
+/// Find the innermost object containing the offset within the value of an entry or an
+/// item of a sequence.
+fn find_object_in_value(
+    value: &Value,
+    offset: usize,
+    mut path: Vec<String>,
+) -> Option<ObjectContext> {
+    let span = value.span?;
+    if offset < span.start as usize || offset > span.end as usize {
+        return None;
+    }
+    // If the value has a tag (like @query), add it to the path
+    // This allows schema navigation to find enum variants
+    if let Some(tag) = value.tag_name() {
+        path.push(format!("@{}", tag));
+    }
+    if let Some(seq) = value.as_sequence() {
+        return seq.items.iter().enumerate().find_map(|(index, item)| {
+            let mut item_path = path.clone();
+            item_path.push(index.to_string());
+            find_object_in_value(item, offset, item_path)
+        });
+    }
+    let object = value.as_object()?;
+    find_object_at_offset_recursive(value, offset, path.clone()).or_else(|| {
+        Some(ObjectContext {
+            path,
+            object: object.clone(),
+        })
+    })
+}
+
 /// Get the schema for a given path within a schema file.
 pub fn get_schema_at_path(schema_file: &SchemaFile, path: &[String]) -> Option<Schema> {
     let root_schema = schema_file.schema.get(&None)?;
@@ -694,6 +711,14 @@ fn get_schema_at_path_recursive(
             }
             None
         }
+        Schema::Seq(seq_schema) => {
+            field_name.parse::<usize>().ok()?;
+            get_schema_at_path_recursive(&seq_schema.0.0.value, rest, schema_file)
+        }
+        Schema::Tuple(tuple_schema) => {
+            let item = tuple_schema.0.get(field_name.parse::<usize>().ok()?)?;
+            get_schema_at_path_recursive(&item.value, rest, schema_file)
+        }
         Schema::Map(map_schema) => {
             // For @map(@V) or @map(@K @V), any key navigates to the value type.
             // If 1 element: that's the value type (key defaults to @string).
-- 
2.43.0


From bbe59432392d9a4e31685d054afe39b72fb3bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:27 +0000
Subject: [PATCH 85/86] fix: styx-lsp: completion replaces the word at the
 cursor only, and quotes names that need it

---
 crates/styx-lsp/src/server.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 4b61311..5a1659a 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -1117,7 +1117,7 @@ impl LanguageServer for StyxLanguageServer {
                     detail: Some(type_str),
                     text_edit: Some(CompletionTextEdit::Edit(TextEdit {
                         range: edit_range,
-                        new_text: format!("{} ", name),
+                        new_text: format!("{} ", key_text(&name)),
                     })),
                     filter_text: Some(name.clone()),
                     sort_text: Some(if is_optional {
@@ -2993,7 +2993,7 @@ fn get_word_range_at_position(content: &str, position: Position) -> Option<(Stri
     let before = &content[..offset];
     let word_start = before
         .char_indices()
-        .rfind(|(_, c)| c.is_whitespace() || *c == '{' || *c == '}')
+        .rfind(|(_, c)| c.is_whitespace() || matches!(c, '{' | '}' | '(' | ')' | ','))
         .map(|(i, c)| i + c.len_utf8())
         .unwrap_or(0);
 
-- 
2.43.0


From f39e07b8030938d2ce7487b38dd1c4f88b1acf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:27 +0000
Subject: [PATCH 86/86] fix: styx-lsp: hover and definition follow the path of
 a field through flattened, wrapped and recursive types

---
 crates/styx-lsp/src/server.rs | 324 ++++++++++++----------------------
 1 file changed, 111 insertions(+), 213 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 5a1659a..47184b4 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -701,9 +701,11 @@ impl LanguageServer for StyxLanguageServer {
         }
 
         // Case 2: On a field name in a doc - jump to schema definition
-        if let Some(field_name) = find_field_key_at_offset(tree, offset)
+        if let Some(field_path) = find_field_path_at_offset(tree, offset)
             && let Some(ref schema) = resolved
-            && let Some(field_range) = find_field_in_schema_source(&schema.source, &field_name)
+            && let path_refs = field_path.iter().map(|s| s.as_str()).collect::<Vec<_>>()
+            && let Some(field_info) = get_field_info_from_schema(&schema.source, &path_refs)
+            && let Some(field_range) = field_info.range(&schema.source)
         {
             return Ok(Some(GotoDefinitionResponse::Scalar(Location {
                 uri: schema.uri.clone(),
@@ -922,8 +924,7 @@ impl LanguageServer for StyxLanguageServer {
 
             if let Some(field_info) = get_field_info_from_schema(&schema.source, &path_refs) {
                 // Create a link to the field in the schema
-                let field_name = field_path.last().map(|s| s.as_str()).unwrap_or("");
-                let field_range = find_field_in_schema_source(&schema.source, field_name);
+                let field_range = field_info.range(&schema.source);
                 let schema_link = {
                     let mut link_uri = schema.uri.clone();
                     if let Some(range) = field_range {
@@ -2417,6 +2418,18 @@ struct FieldInfo {
     type_str: String,
     /// Doc comment if present
     doc_comment: Option<String>,
+    /// Where the schema source has the field's key
+    span: Option<styx_tree::Span>,
+}
+
+impl FieldInfo {
+    fn range(&self, schema_source: &str) -> Option<Range> {
+        let span = self.span?;
+        Some(Range {
+            start: offset_to_position(schema_source, span.start as usize),
+            end: offset_to_position(schema_source, span.end as usize),
+        })
+    }
 }
 
 fn get_field_info_from_schema(schema_source: &str, field_path: &[&str]) -> Option<FieldInfo> {
@@ -2448,247 +2461,132 @@ fn get_field_info_in_schema(schema_block: &Value, path: &[&str]) -> Option<Field
     get_field_info_in_type(root, path, schema_obj)
 }
 
-/// Recursively get field info from a type value, following a path.
+/// Get field info from a type value, following a path.
 /// schema_defs contains all type definitions for resolving references like @Hint.
 fn get_field_info_in_type(
     value: &Value,
     path: &[&str],
     schema_defs: &styx_tree::Object,
 ) -> Option<FieldInfo> {
-    if path.is_empty() {
-        return None;
-    }
-
-    let field_name = path[0];
-    let remaining_path = &path[1..];
-
-    // Check if value is a @seq type - if so, skip numeric indices and recurse into element type
-    if let Some(seq_element_type) = extract_seq_element_type(value) {
-        // If the path segment is a numeric index, skip it and continue into the element type
-        if field_name.parse::<usize>().is_ok() {
-            // Resolve type reference if needed (e.g., @seq(@Spec) -> look up Spec)
-            let resolved = resolve_type_reference(seq_element_type, schema_defs);
-            return get_field_info_in_type(resolved, remaining_path, schema_defs);
-        }
-    }
-
-    // Check if value is a @map type - if so, any key is valid and returns the value type
-    if let Some(map_value_type) = extract_map_value_type(value) {
-        if remaining_path.is_empty() {
-            // We're hovering on a map key - return the value type
-            return Some(FieldInfo {
-                type_str: format_type_concise(map_value_type),
-                doc_comment: None, // Map keys don't have individual doc comments
-            });
-        } else {
-            // Need to go deeper into the map value type
-            // If it's a type reference like @Hint, resolve it first
-            let resolved = resolve_type_reference(map_value_type, schema_defs);
-            return get_field_info_in_type(resolved, remaining_path, schema_defs);
-        }
-    }
-
-    // Check if value is an @object{@KeyType @ValueType} (catch-all pattern)
-    // This handles schemas like `@ @object{@string @Decl}` where any string key is valid
-    if let Some(catchall_value_type) = extract_object_catchall_value_type(value) {
-        if remaining_path.is_empty() {
-            // We're hovering on a catch-all key - return the value type
-            return Some(FieldInfo {
-                type_str: format_type_concise(catchall_value_type),
-                doc_comment: None, // Catch-all keys don't have individual doc comments
-            });
-        } else {
-            // Need to go deeper into the catch-all value type
-            let resolved = resolve_type_reference(catchall_value_type, schema_defs);
-            return get_field_info_in_type(resolved, remaining_path, schema_defs);
-        }
-    }
+    let mut seen = std::collections::HashSet::new();
+    find_field_info(value, path, schema_defs, &mut seen)
+}
 
-    // Check if value is an @enum type - if so, search all variants for the field
-    // This handles cases like `Decl @enum{query @Query}` where we need to look
-    // inside variant types (like @Query) to find nested fields (like `from`)
-    if let Some(enum_obj) = extract_enum_object(value) {
-        // Search all enum variants for the field
-        for entry in &enum_obj.entries {
-            // Resolve the variant's value type and recurse
-            let resolved = resolve_type_reference(&entry.value, schema_defs);
-            if let Some(info) = get_field_info_in_type(resolved, path, schema_defs) {
-                return Some(info);
-            }
-        }
+/// `seen` are the types looked into so far (with what was left of the path): types can
+/// hold themselves.
+fn find_field_info(
+    value: &Value,
+    path: &[&str],
+    schema_defs: &styx_tree::Object,
+    seen: &mut std::collections::HashSet<(*const Value, usize)>,
+) -> Option<FieldInfo> {
+    let (&name, rest) = path.split_first()?;
+    let value = unwrap_type(value, schema_defs);
+    if !seen.insert((value as *const Value, path.len())) {
         return None;
     }
 
-    // Try to get the object - handle various wrappings (also resolves type refs)
-    let obj = extract_object_from_value_with_defs(value, schema_defs)?;
-
-    for entry in &obj.entries {
-        if entry.key.as_str() == Some(field_name) {
-            if remaining_path.is_empty() {
-                // This is the target field
+    match value.tag_name() {
+        // Any key is valid and returns the value type
+        Some("map") => {
+            let element = value.as_sequence()?.items.last()?;
+            if rest.is_empty() {
                 return Some(FieldInfo {
-                    type_str: format_type_concise(&entry.value),
-                    doc_comment: entry.doc_comment.clone(),
+                    type_str: format_type_concise(element),
+                    doc_comment: None, // Map keys don't have individual doc comments
+                    span: None,
                 });
-            } else {
-                // Need to go deeper - unwrap wrappers like @optional
-                return get_field_info_in_type(&entry.value, remaining_path, schema_defs);
             }
+            find_field_info(element, rest, schema_defs, seen)
         }
-
-        // Check unit key entries (root schema)
-        if entry.key.is_unit()
-            && let Some(found) = get_field_info_in_type(&entry.value, path, schema_defs)
-        {
-            return Some(found);
+        Some("seq") => {
+            name.parse::<usize>().ok()?;
+            let element = value.as_sequence()?.items.first()?;
+            find_field_info(element, rest, schema_defs, seen)
         }
-    }
-
-    None
-}
-
-/// Resolve a type reference like @Hint to its definition in the schema.
-/// Returns the original value if it's not a type reference.
-fn resolve_type_reference<'a>(value: &'a Value, schema_defs: &'a styx_tree::Object) -> &'a Value {
-    // Check if this is a type reference (tag with no payload or unit payload)
-    if let Some(tag) = &value.tag {
-        let is_type_ref = match &value.payload {
-            None => true,
-            Some(styx_tree::Payload::Scalar(s)) if s.text.is_empty() => true,
-            _ => false,
-        };
-
-        if is_type_ref {
-            // Look for a definition with this name in schema_defs
-            for entry in &schema_defs.entries {
-                if entry.key.as_str() == Some(&tag.name) {
-                    return &entry.value;
-                }
-            }
+        Some("tuple") => {
+            let element = value
+                .as_sequence()?
+                .items
+                .get(name.parse::<usize>().ok()?)?;
+            find_field_info(element, rest, schema_defs, seen)
         }
-    }
-    value
-}
-
-/// Extract the element type from a @seq type.
-/// For @seq(@Spec), returns @Spec.
-/// Also handles @optional(@seq(@T)) by unwrapping the optional first.
-fn extract_seq_element_type(value: &Value) -> Option<&Value> {
-    let tag = value.tag.as_ref()?;
-
-    // Direct @seq(@T)
-    if tag.name == "seq" {
-        let seq = value.as_sequence()?;
-        return seq.items.first();
-    }
-
-    // Handle @optional(@seq(@T)) - unwrap the optional and check inside
-    if (tag.name == "optional" || tag.name == "default")
-        && let Some(seq) = value.as_sequence()
-    {
-        for item in &seq.items {
-            if let Some(element_type) = extract_seq_element_type(item) {
-                return Some(element_type);
+        // Search all variants for the field
+        Some("union") => value
+            .as_sequence()?
+            .items
+            .iter()
+            .find_map(|item| find_field_info(item, path, schema_defs, seen)),
+        Some("enum") => value
+            .as_object()?
+            .entries
+            .iter()
+            .find_map(|entry| find_field_info(&entry.value, path, schema_defs, seen)),
+        Some("object") | None => {
+            let mut flattened = std::collections::HashSet::new();
+            let entry = find_field_entry(value, name, schema_defs, &mut flattened)?;
+            if !rest.is_empty() {
+                return find_field_info(&entry.value, rest, schema_defs, seen);
             }
+            Some(FieldInfo {
+                type_str: format_type_concise(&entry.value),
+                // Catch-all keys don't have individual doc comments
+                doc_comment: entry.key.as_str().and_then(|_| entry.doc_comment.clone()),
+                span: entry.key.span,
+            })
         }
-    }
-
-    None
-}
-
-/// Extract the value type from a @map type.
-/// For @map(@string @Hint), returns the @Hint value.
-/// For @map(@V), returns @V (single-arg map uses value as both key and value).
-fn extract_map_value_type(value: &Value) -> Option<&Value> {
-    let tag = value.tag.as_ref()?;
-    if tag.name != "map" {
-        return None;
-    }
-
-    // @map has a sequence payload: @map(@K @V) or @map(@V)
-    let seq = value.as_sequence()?;
-    match seq.items.len() {
-        1 => Some(&seq.items[0]), // @map(@V) - single type used as value
-        2 => Some(&seq.items[1]), // @map(@K @V) - second is value type
         _ => None,
     }
 }
 
-/// Extract the inner object from an `@enum{...}` type.
-///
-/// In Styx schemas, `@enum{variant1 @Type1, variant2 @Type2}` defines an enum
-/// with named variants. Each entry in the object is a variant name -> type mapping.
-///
-/// Returns Some(object) if the value is an @enum with object payload, None otherwise.
-fn extract_enum_object(value: &Value) -> Option<&styx_tree::Object> {
-    let tag = value.tag.as_ref()?;
-    if tag.name != "enum" {
-        return None;
-    }
-    value.as_object()
-}
-
-/// Extract the catch-all value type from an `@object{@KeyType @ValueType}` pattern.
-///
-/// In Styx schemas, `@object{@string @Decl}` means "an object where any string key
-/// maps to a value of type @Decl". The key entry has a tagged key (like `@string`)
-/// rather than a scalar key.
-///
-/// Returns Some(value_type) if the object has exactly one entry with a tagged key
-/// (indicating a catch-all pattern), None otherwise.
-fn extract_object_catchall_value_type(value: &Value) -> Option<&Value> {
-    // Must be @object{...}
-    let tag = value.tag.as_ref()?;
-    if tag.name != "object" {
+/// Find the entry of an object type for a field: the one with its name, also among
+/// flattened fields, or the catch-all (like `@string`).
+fn find_field_entry<'a>(
+    value: &'a Value,
+    name: &str,
+    schema_defs: &'a styx_tree::Object,
+    seen: &mut std::collections::HashSet<*const Value>,
+) -> Option<&'a styx_tree::Entry> {
+    if !seen.insert(value as *const Value) {
         return None;
     }
+    let entries = &value.as_object()?.entries;
+    let is_flattened = |e: &styx_tree::Entry| e.value.tag_name() == Some("flatten");
 
-    let obj = value.as_object()?;
-
-    // Catch-all pattern: exactly one entry with a tagged key (like @string)
-    if obj.entries.len() == 1 {
-        let entry = &obj.entries[0];
-        // Key must be tagged (e.g., @string), not a scalar
-        if entry.key.tag.is_some() && entry.key.payload.is_none() {
-            return Some(&entry.value);
+    if let Some(entry) = entries
+        .iter()
+        .find(|e| e.key.as_str() == Some(name) && !is_flattened(e))
+    {
+        return Some(entry);
+    }
+    let mut catch_all = entries.iter().find(|e| e.key.as_str().is_none());
+    for entry in entries.iter().filter(|e| is_flattened(e)) {
+        let inner = unwrap_type(&entry.value, schema_defs);
+        match find_field_entry(inner, name, schema_defs, seen) {
+            Some(found) if found.key.as_str().is_some() => return Some(found),
+            found => catch_all = catch_all.or(found),
         }
     }
-
-    None
+    catch_all
 }
 
-/// Extract an object from a value, unwrapping wrappers like @optional, @default, etc.
-/// Also resolves type references using schema_defs.
-fn extract_object_from_value_with_defs<'a>(
-    value: &'a Value,
-    schema_defs: &'a styx_tree::Object,
-) -> Option<&'a styx_tree::Object> {
-    // First resolve if it's a type reference
-    let resolved = resolve_type_reference(value, schema_defs);
-
-    // Direct object
-    if let Some(obj) = resolved.as_object() {
-        return Some(obj);
-    }
-
-    // Tagged object like @object{...}
-    if resolved.tag.is_some() {
-        match &resolved.payload {
-            Some(styx_tree::Payload::Object(obj)) => return Some(obj),
-            // Handle @optional(@object{...}) or @optional(@TypeRef) - tag with sequence payload
-            Some(styx_tree::Payload::Sequence(seq)) => {
-                // Look for object inside the sequence (recursively resolving type refs)
-                for item in &seq.items {
-                    if let Some(obj) = extract_object_from_value_with_defs(item, schema_defs) {
-                        return Some(obj);
-                    }
-                }
+/// The type behind references, @optional, @default, @deprecated and @flatten.
+fn unwrap_type<'a>(mut value: &'a Value, schema_defs: &'a styx_tree::Object) -> &'a Value {
+    // No more steps than there are types to refer to, and what wraps them
+    for _ in 0..64 {
+        let inner = match value.tag_name() {
+            Some("optional" | "default" | "deprecated" | "flatten") => {
+                value.as_sequence().and_then(|seq| seq.items.last())
             }
-            _ => {}
+            Some(name) if value.payload.is_none() => schema_defs.get(name),
+            _ => None,
+        };
+        match inner {
+            Some(inner) => value = inner,
+            None => break,
         }
     }
-
-    None
+    value
 }
 
 /// Extract an object from a value, unwrapping wrappers like @optional, @default, etc.
-- 
2.43.0

