From 37600a681a92862db7f4679a3a8cfa6d4e96aaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 01/20] fix: lex unknown characters and unterminated byte
 strings as ERROR tokens instead of panicking

Any character outside the language (a double quote, a carriage return, any
non-ASCII character ...) reached todo!() and killed the parse; the length of
a byte string was counted in characters although token lengths are bytes.
A carriage return is whitespace, so that files with CRLF line ends parse.
---
 crates/parser/src/lexer.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index cee1c4c..65fee77 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -164,12 +164,13 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
         }
     };
     let (tok, len) = match c {
-        ' ' | '\n' | '\t' => {
+        ' ' | '\n' | '\r' | '\t' => {
             let mut num_space_chars = 1;
             loop {
                 let remaining_text = &text[num_space_chars..];
                 if !remaining_text.starts_with(" ")
                     && !remaining_text.starts_with("\n")
+                    && !remaining_text.starts_with("\r")
                     && !remaining_text.starts_with("\t")
                 {
                     break;
@@ -204,8 +205,9 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
                 let line = &text.lines().next().unwrap()[2..];
                 match get_string_len(line) {
                     Some(last_quote) => (BYTE_STRING, 2 + last_quote + 1),
+                    // Missing closing quote, the rest of the line is not a token of the language.
                     None => {
-                        todo!()
+                        (ERROR, 2 + line.len())
                         // let loc = make_loc(file, start_offset, start_offset + line.len() + 2);
                         // return todo!()
                         // return Err(diag!(
@@ -306,8 +308,9 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
         '}' => (R_BRACE, 1),
         '#' => (NUMSIGN, 1),
         '@' => (ATSIGN, 1),
+        // Not a character of the language.
         _ => {
-            todo!()
+            (ERROR, c.len_utf8())
             // let loc = make_loc(file, start_offset, start_offset);
             // return todo!()
             // return Err(diag!(
@@ -360,20 +363,16 @@ fn get_number_maybe_with_suffix(text: &str, num_text_len: usize) -> (SyntaxKind,
     }
 }
 
-// Return the length of the quoted string, or None if there is no closing quote.
+// Return the length of the quoted string in bytes, or None if there is no closing quote.
 fn get_string_len(text: &str) -> Option<usize> {
-    let mut pos = 0;
-    let mut iter = text.chars();
-    while let Some(chr) = iter.next() {
+    let mut iter = text.char_indices();
+    while let Some((pos, chr)) = iter.next() {
         if chr == '\\' {
             // Skip over the escaped character (e.g., a quote or another backslash)
-            if iter.next().is_some() {
-                pos += 1;
-            }
+            iter.next();
         } else if chr == '"' {
             return Some(pos);
         }
-        pos += 1;
     }
     None
 }
-- 
2.43.0


From 4efe073b0df3f579017cb6931707722b4aa5ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:59 +0000
Subject: [PATCH 02/20] fix: look ahead over whitespace and comments the way
 the parser advances

The two lookahead functions disagreed with bump() about trivia: one did not
skip comments, the other skipped nothing, so `0x1::M::S{}` or
`module 0x1 /*comment line*/ ::M` parsed differently from the same tokens
with other spacing. The path parser asked for the wrong token as well: the one
after `::` is nth(1), since `::` is a single token.
---
 crates/parser/src/grammar/paths.rs |  2 +-
 crates/parser/src/lexer.rs         | 27 ++++++++++++++-------------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/crates/parser/src/grammar/paths.rs b/crates/parser/src/grammar/paths.rs
index 502ae23..46e8321 100644
--- a/crates/parser/src/grammar/paths.rs
+++ b/crates/parser/src/grammar/paths.rs
@@ -31,7 +31,7 @@ fn path(p: &mut Parser, mode: Mode) {
 
 fn path_for_qualifier(p: &mut Parser, mode: Mode, mut qual: CompletedMarker) {
     loop {
-        let use_tree = matches!(p.nth(2), T![*] | T!['{']);
+        let use_tree = matches!(p.nth(1), T![*] | T!['{']);
         if p.at(T![::]) && !use_tree {
             let path = qual.precede(p);
             p.bump(T![::]);
diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index 65fee77..82c73fc 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -92,25 +92,26 @@ impl<'t> Lexer<'t> {
     // Look ahead to the next token after the current one and return it without advancing
     // the state of the lexer.
     pub fn lookahead(&self) -> Token {
-        let text = self.text[self.cur_end..].trim_start();
-        // let offset = self.text.len() - text.len();
-        let (tok, len) = find_token(text);
-        Token::new(tok, len)
+        self.token_after(self.cur_end).0
     }
 
     // Look ahead to the next two tokens after the current one and return them without advancing
     // the state of the lexer.
     pub fn lookahead_2(&self) -> (Token, Token) {
-        let text = &self.text[self.cur_end..];
-        // let text = self.text[self.cur_end..].trim_start();
-        let offset = self.text.len() - text.len();
-        let (first, length) = find_token(text);
+        let (first, end) = self.token_after(self.cur_end);
+        let (second, _) = self.token_after(end);
+        (first, second)
+    }
 
-        let text2 = &self.text[offset + length..];
-        // let text2 = self.text[offset + length..].trim_start();
-        // let offset2 = self.text.len() - text2.len();
-        let (second, sec_length) = find_token(text2);
-        (Token::new(first, length), Token::new(second, sec_length))
+    // The first token at or after `pos` that is not trivia, and its end.
+    fn token_after(&self, mut pos: usize) -> (Token, usize) {
+        loop {
+            let (kind, len) = find_token(&self.text[pos..]);
+            pos += len;
+            if !kind.is_trivia() {
+                return (Token::new(kind, len), pos);
+            }
+        }
     }
 
     pub fn bump(&mut self) {
-- 
2.43.0


From fa4ba67e843ef602385e9a3d1afb7583cd003f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:23 +0000
Subject: [PATCH 03/20] fix: do not split identifiers that start with mut after
 an ampersand

`&mutable` was lexed as `&mut` followed by `able`.
---
 crates/parser/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index 82c73fc..7c022b5 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -228,7 +228,7 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
             }
         }
         '&' => {
-            if text.starts_with("&mut") {
+            if text.starts_with("&mut") && get_name_len(&text[1..]) == 3 {
                 (AMP_MUT, 4)
             } else if text.starts_with("&&") {
                 (AMP_AMP, 2)
-- 
2.43.0


From 9b4f91068afd1547ce589880d5ad0da3deac7cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:23 +0000
Subject: [PATCH 04/20] fix: make parser error recovery always consume
 something

A token that cannot start a top level definition, an item, a module inside an
address block, a struct field or a statement was reported without being
consumed, so the parser looped until the 'parser seems stuck' assertion.
---
 crates/parser/src/grammar.rs                  |  9 +++++++-
 crates/parser/src/grammar/expressions.rs      |  5 +++++
 crates/parser/src/grammar/expressions/atom.rs |  2 +-
 crates/parser/src/grammar/items.rs            | 21 +++++++++++--------
 crates/parser/src/grammar/items/adt.rs        |  8 +++----
 5 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/crates/parser/src/grammar.rs b/crates/parser/src/grammar.rs
index 9cbdd23..9dd00a8 100644
--- a/crates/parser/src/grammar.rs
+++ b/crates/parser/src/grammar.rs
@@ -71,8 +71,15 @@ pub(crate) fn root(p: &mut Parser) {
             address(p);
         } else if p.current().is_trivia() {
             p.bump_any()
+        } else if p.at(T!['{']) {
+            error_block(p, "expected module or script");
+        } else if p.at(T!['}']) {
+            let e = p.start();
+            p.error("unmatched `}`");
+            p.bump(T!['}']);
+            e.complete(p, ERROR);
         } else {
-            p.error("expected module or script");
+            p.err_and_bump("expected module or script");
         }
     }
     m.complete(p, SOURCE_FILE);
diff --git a/crates/parser/src/grammar/expressions.rs b/crates/parser/src/grammar/expressions.rs
index 73d4a3c..c8f1088 100644
--- a/crates/parser/src/grammar/expressions.rs
+++ b/crates/parser/src/grammar/expressions.rs
@@ -147,6 +147,11 @@ pub(crate) fn stmt(p: &mut Parser, with_semi: StmtWithSemi) {
         let_stmt(p, m, with_semi);
         return;
     }
+    if p.at(T![')']) {
+        m.abandon(p);
+        p.err_and_bump("unmatched `)`");
+        return;
+    }
     expr(p);
     match with_semi {
         StmtWithSemi::Yes => {
diff --git a/crates/parser/src/grammar/expressions/atom.rs b/crates/parser/src/grammar/expressions/atom.rs
index 107b8bc..fd33437 100644
--- a/crates/parser/src/grammar/expressions/atom.rs
+++ b/crates/parser/src/grammar/expressions/atom.rs
@@ -146,7 +146,7 @@ fn paren_expr(p: &mut Parser) -> CompletedMarker {
     let m = p.start();
     p.expect(T!['(']);
 
-    while !p.at(EOF) && !p.at(T![')']) {
+    while !p.at(EOF) && !p.at(T![')']) && !p.at(T![;]) {
         // saw_expr = true;
 
         // test tuple_attrs
diff --git a/crates/parser/src/grammar/items.rs b/crates/parser/src/grammar/items.rs
index 115059f..f84bbbd 100644
--- a/crates/parser/src/grammar/items.rs
+++ b/crates/parser/src/grammar/items.rs
@@ -3,7 +3,7 @@ mod adt;
 use crate::grammar::expressions::atom::bump_address;
 use crate::grammar::params::param_list;
 use crate::grammar::types::type_;
-use crate::grammar::{block_expr, name, name_r};
+use crate::grammar::{block_expr, error_block, name, name_r};
 use crate::marker::Marker;
 use crate::parser::Parser;
 use crate::SyntaxKind::{self, *};
@@ -85,7 +85,13 @@ pub(crate) fn address_item_list(p: &mut Parser) {
     p.bump(T!['{']);
 
     while !(p.at(T!['}']) || p.at(EOF)) {
-        module(p);
+        if p.at(T![module]) {
+            module(p);
+        } else if p.at(T!['{']) {
+            error_block(p, "expected module");
+        } else {
+            p.err_and_bump("expected module");
+        }
     }
     p.expect(T!['}']);
     m.complete(p, ADDRESS_ITEM_LIST);
@@ -117,14 +123,14 @@ pub(crate) fn item(p: &mut Parser) {
         Err(m) => m,
     };
     m.abandon(p);
-    // if p.at(T!['{']) {
-    //     error_block(p, "expected an item");
+    if p.at(T!['{']) {
+        error_block(p, "expected an item");
     // } else if p.at(T!['}']) && !stop_on_r_curly {
     //     let e = p.start();
     //     p.error("unmatched `}`");
     //     p.bump(T!['}']);
     //     e.complete(p, ERROR);
-    if !p.at(EOF) && !p.at(T!['}']) {
+    } else if !p.at(EOF) && !p.at(T!['}']) {
         p.err_and_bump("expected an item");
     } else {
         p.error("expected an item");
@@ -136,10 +142,7 @@ pub(crate) fn opt_item(p: &mut Parser, m: Marker) -> Result<(), Marker> {
     match p.current() {
         T![fun] => function_def(p, m),
         T![struct] => adt::struct_(p, m),
-        _ => {
-            p.error("expected an item");
-            m.complete(p, ERROR);
-        }
+        _ => return Err(m),
     }
     Ok(())
 }
diff --git a/crates/parser/src/grammar/items/adt.rs b/crates/parser/src/grammar/items/adt.rs
index 9c8bf6c..33d46ed 100644
--- a/crates/parser/src/grammar/items/adt.rs
+++ b/crates/parser/src/grammar/items/adt.rs
@@ -44,10 +44,10 @@ pub(crate) fn record_field_list(p: &mut Parser) {
     let m = p.start();
     p.bump(T!['{']);
     while !p.at(T!['}']) && !p.at(EOF) {
-        // if p.at(T!['{']) {
-        //     error_block(p, "expected field");
-        //     continue;
-        // }
+        if p.at(T!['{']) {
+            error_block(p, "expected field");
+            continue;
+        }
         record_field(p);
         if !p.at(T!['}']) {
             p.expect(T![,]);
-- 
2.43.0


From f71150bec6cc15b2fc3d156941d620acd08b5103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:23 +0000
Subject: [PATCH 05/20] fix: count parser steps since the last consumed token

The counter behind the 'parser seems stuck' assertion was never reset, so any
file of more than a few hundred tokens panicked.
---
 crates/parser/src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/parser/src/parser.rs b/crates/parser/src/parser.rs
index 3c2e1ba..2f0405e 100644
--- a/crates/parser/src/parser.rs
+++ b/crates/parser/src/parser.rs
@@ -264,6 +264,8 @@ impl<'t> Parser<'t> {
         for _ in 0..n_raw_tokens {
             self.lexer.bump();
         }
+        // The limit in nth() is on lookups without progress, not on the size of the file.
+        self.steps.set(0);
 
         self.push_event(Event::Token { kind, n_raw_tokens });
     }
-- 
2.43.0


From 997db8955ff2efc0aab2261685502a736fe53964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:41 +0000
Subject: [PATCH 06/20] fix: FileSet::resolve_path returns None for an anchor
 outside the set, as documented

---
 crates/vfs/src/file_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vfs/src/file_set.rs b/crates/vfs/src/file_set.rs
index 0011f73..0d9a5e9 100644
--- a/crates/vfs/src/file_set.rs
+++ b/crates/vfs/src/file_set.rs
@@ -27,7 +27,7 @@ impl FileSet {
     /// If either `path`'s [`anchor`](AnchoredPath::anchor) or the resolved path is not in
     /// the set, returns [`None`].
     pub fn resolve_path(&self, path: AnchoredPath<'_>) -> Option<FileId> {
-        let mut base = self.paths[&path.anchor].clone();
+        let mut base = self.paths.get(&path.anchor)?.clone();
         base.pop();
         let path = base.join(path.path)?;
         self.files.get(&path).copied()
-- 
2.43.0


From ebcd4ad3623174d9ace2fb6a616507af1376030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:01 +0000
Subject: [PATCH 07/20] fix: a source root contains a path only at a component
 boundary

---
 crates/vfs/src/file_set.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/vfs/src/file_set.rs b/crates/vfs/src/file_set.rs
index 0d9a5e9..cb89014 100644
--- a/crates/vfs/src/file_set.rs
+++ b/crates/vfs/src/file_set.rs
@@ -131,13 +131,24 @@ impl FileSetConfig {
         let automaton = PrefixOf::new(scratch_space.as_slice());
         let mut longest_prefix = self.len() - 1;
         let mut stream = self.map.search(automaton).into_stream();
-        while let Some((_, v)) = stream.next() {
-            longest_prefix = v as usize;
+        while let Some((prefix, v)) = stream.next() {
+            if is_at_boundary(prefix, scratch_space) {
+                longest_prefix = v as usize;
+            }
         }
         longest_prefix
     }
 }
 
+/// Whether `prefix`, a prefix of the encoded `path`, ends where a component of `path` ends.
+///
+/// `/foo` contains `/foo/bar.move`, but not `/foobar.move`.
+fn is_at_boundary(prefix: &[u8], path: &[u8]) -> bool {
+    let separators: &[&[u8]] = if cfg!(windows) { &[b"/", b"\\\0"] } else { &[b"/"] };
+    let rest = &path[prefix.len()..];
+    rest.is_empty() || separators.iter().any(|it| prefix.ends_with(it) || rest.starts_with(it))
+}
+
 /// Builder for [`FileSetConfig`].
 pub struct FileSetConfigBuilder {
     roots: Vec<Vec<VfsPath>>,
-- 
2.43.0


From 17644cbfd21e2f16752ecda3db8811aaa9938c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:01 +0000
Subject: [PATCH 08/20] fix: publish diagnostics, files outside any configured
 root are not library files

---
 crates/move_language_server/src/reload.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/move_language_server/src/reload.rs b/crates/move_language_server/src/reload.rs
index 856c6b7..5206b69 100644
--- a/crates/move_language_server/src/reload.rs
+++ b/crates/move_language_server/src/reload.rs
@@ -65,12 +65,20 @@ impl GlobalState {
     }
 }
 
-#[derive(Default, Debug)]
+#[derive(Debug)]
 pub struct SourceRootConfig {
     pub(crate) fsc: FileSetConfig,
     pub(crate) local_filesets: Vec<usize>,
 }
 
+impl Default for SourceRootConfig {
+    fn default() -> Self {
+        // Without roots every file ends up in the only file set. These are the files the user
+        // works on, not a library.
+        SourceRootConfig { fsc: FileSetConfig::default(), local_filesets: vec![0] }
+    }
+}
+
 impl SourceRootConfig {
     pub fn partition(&self, vfs: &vfs::Vfs) -> Vec<SourceRoot> {
         self.fsc
-- 
2.43.0


From e3a5c1d5f3b239b9b96a1e45147af46c3495cda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:01 +0000
Subject: [PATCH 09/20] fix: report positions in the negotiated encoding,
 UTF-16 unless the client offers UTF-8

---
 crates/move_language_server/src/global_state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index c1b62e9..9ed6ba4 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -63,6 +63,7 @@ pub(crate) struct GlobalState {
 
 /// An immutable snapshot of the world's state at a point in time.
 pub(crate) struct GlobalStateSnapshot {
+    pub(crate) config: Arc<Config>,
     pub(crate) analysis: Analysis,
     mem_docs: MemDocs,
     vfs: Arc<RwLock<(vfs::Vfs, FxHashMap<FileId, LineEndings>)>>,
@@ -152,6 +153,7 @@ impl GlobalState {
 
     pub(crate) fn snapshot(&self) -> GlobalStateSnapshot {
         GlobalStateSnapshot {
+            config: Arc::clone(&self.config),
             analysis: self.analysis_host.analysis(),
             vfs: Arc::clone(&self.vfs),
             mem_docs: self.mem_docs.clone(),
@@ -222,7 +224,7 @@ impl GlobalStateSnapshot {
     pub(crate) fn file_line_index(&self, file_id: FileId) -> Cancellable<LineIndex> {
         let endings = self.vfs.read().1[&file_id];
         let index = self.analysis.file_line_index(file_id)?;
-        let res = LineIndex { index, endings, encoding: OffsetEncoding::Utf8 };
+        let res = LineIndex { index, endings, encoding: self.config.offset_encoding() };
         Ok(res)
     }
 
-- 
2.43.0


From 5b3de3f785d28f8203dcc723ec1ad1d452e3aad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:01 +0000
Subject: [PATCH 10/20] fix: read positions of document changes in the
 negotiated encoding

---
 crates/move_language_server/src/lsp_utils.rs | 13 +++++++++++--
 crates/move_language_server/src/main_loop.rs |  8 ++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/move_language_server/src/lsp_utils.rs b/crates/move_language_server/src/lsp_utils.rs
index 687da3c..a1368ef 100644
--- a/crates/move_language_server/src/lsp_utils.rs
+++ b/crates/move_language_server/src/lsp_utils.rs
@@ -48,15 +48,24 @@ impl GlobalState {
     }
 }
 
+/// Applies changes with positions in UTF-16, the default encoding of the protocol.
 pub(crate) fn apply_document_changes(
     old_text: &mut String,
     content_changes: Vec<lsp_types::TextDocumentContentChangeEvent>,
+) {
+    apply_document_changes_encoded(old_text, content_changes, OffsetEncoding::Utf16)
+}
+
+pub(crate) fn apply_document_changes_encoded(
+    old_text: &mut String,
+    content_changes: Vec<lsp_types::TextDocumentContentChangeEvent>,
+    encoding: OffsetEncoding,
 ) {
     let mut line_index = LineIndex {
         index: Arc::new(ide_db::LineIndex::new(old_text)),
-        // We don't care about line endings or offset encoding here.
+        // We don't care about line endings here.
         endings: LineEndings::Unix,
-        encoding: OffsetEncoding::Utf16,
+        encoding,
     };
 
     // The changes we got must be applied sequentially, but can cross lines so we
diff --git a/crates/move_language_server/src/main_loop.rs b/crates/move_language_server/src/main_loop.rs
index e6ae6ba..267a402 100644
--- a/crates/move_language_server/src/main_loop.rs
+++ b/crates/move_language_server/src/main_loop.rs
@@ -7,7 +7,7 @@ use std::time::{Duration, Instant};
 use crate::config::Config;
 use crate::dispatch::{NotificationDispatcher, RequestDispatcher};
 use crate::global_state::{file_id_to_url, GlobalState};
-use crate::lsp_utils::{apply_document_changes, is_cancelled, notification_is, Progress};
+use crate::lsp_utils::{apply_document_changes_encoded, is_cancelled, notification_is, Progress};
 use crate::mem_docs::DocumentData;
 use crate::{from_proto, handlers, lsp_ext, Result};
 use ide_db::base_db::FileId;
@@ -286,7 +286,11 @@ impl GlobalState {
                     let vfs = &mut this.vfs.write().0;
                     let file_id = vfs.file_id(&path).unwrap();
                     let mut text = String::from_utf8(vfs.file_contents(file_id).to_vec()).unwrap();
-                    apply_document_changes(&mut text, params.content_changes);
+                    apply_document_changes_encoded(
+                        &mut text,
+                        params.content_changes,
+                        this.config.offset_encoding(),
+                    );
 
                     vfs.set_file_contents(path, Some(text.into_bytes()));
                 }
-- 
2.43.0


From 1bea001beab1cc93991db3ea36c3cd4cb1f49870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:31 +0000
Subject: [PATCH 11/20] fix: positions past the end of a line or of the text
 stand for its end

---
 crates/ide_db/src/line_index.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/ide_db/src/line_index.rs b/crates/ide_db/src/line_index.rs
index 816edfe..f7fce74 100644
--- a/crates/ide_db/src/line_index.rs
+++ b/crates/ide_db/src/line_index.rs
@@ -11,6 +11,8 @@ pub struct LineIndex {
     pub(crate) newlines: Vec<TextSize>,
     /// List of non-ASCII characters on each line
     pub(crate) utf16_lines: FxHashMap<u32, Vec<Utf16Char>>,
+    /// Length of the text
+    pub(crate) len: TextSize,
 }
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
@@ -92,7 +94,7 @@ impl LineIndex {
             utf16_lines.insert(line, utf16_chars);
         }
 
-        LineIndex { newlines, utf16_lines }
+        LineIndex { newlines, utf16_lines, len: curr_row }
     }
 
     pub fn line_col(&self, offset: TextSize) -> LineCol {
@@ -102,8 +104,16 @@ impl LineIndex {
         LineCol { line: line as u32, col: col.into() }
     }
 
+    /// A column past the end of the line stands for the end of the line, a line past the end of
+    /// the text for the end of the text.
     pub fn offset(&self, line_col: LineCol) -> TextSize {
-        self.newlines[line_col.line as usize] + TextSize::from(line_col.col)
+        let line = line_col.line as usize;
+        let start = match self.newlines.get(line) {
+            Some(it) => *it,
+            None => return self.len,
+        };
+        let end = self.newlines.get(line + 1).map_or(self.len, |it| *it - TextSize::of('\n'));
+        start + TextSize::from(line_col.col).min(end - start)
     }
 
     pub fn to_utf16(&self, line_col: LineCol) -> LineColUtf16 {
@@ -149,7 +159,7 @@ impl LineIndex {
         if let Some(utf16_chars) = self.utf16_lines.get(&line) {
             for c in utf16_chars {
                 if col > u32::from(c.start) {
-                    col += u32::from(c.len()) - c.len_utf16() as u32;
+                    col = col.saturating_add(u32::from(c.len()) - c.len_utf16() as u32);
                 } else {
                     // From here on, all utf16 characters come *after* the character we are mapping,
                     // so we don't need to take them into account
-- 
2.43.0


From 1719c416abe9e74e99b2ef3a4d998509549b62e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:31 +0000
Subject: [PATCH 12/20] fix: do not replace diagnostics by ones computed for an
 older state

---
 crates/move_language_server/src/global_state.rs |  6 +++++-
 crates/move_language_server/src/main_loop.rs    | 17 ++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index 9ed6ba4..541cba5 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -8,7 +8,7 @@ use std::{sync::Arc, time::Instant};
 use crate::config::Config;
 use crate::diagnostics::DiagnosticCollection;
 use crate::line_index::{LineEndings, LineIndex, OffsetEncoding};
-use crate::main_loop::Task;
+use crate::main_loop::{DiagnosticsGeneration, Task};
 use crate::mem_docs::MemDocs;
 use crate::reload::SourceRootConfig;
 use crate::thread_pool::TaskPool;
@@ -47,6 +47,8 @@ pub(crate) struct GlobalState {
     pub(crate) config: Arc<Config>,
     pub(crate) analysis_host: AnalysisHost,
     pub(crate) diagnostics: DiagnosticCollection,
+    pub(crate) diagnostics_requested: DiagnosticsGeneration,
+    pub(crate) diagnostics_received: DiagnosticsGeneration,
     pub(crate) mem_docs: MemDocs,
     pub(crate) shutdown_requested: bool,
     pub(crate) last_reported_status: Option<lsp_ext::ServerStatusParams>,
@@ -87,6 +89,8 @@ impl GlobalState {
             config: Arc::new(config),
             analysis_host,
             diagnostics: Default::default(),
+            diagnostics_requested: 0,
+            diagnostics_received: 0,
             mem_docs: MemDocs::default(),
             shutdown_requested: false,
             last_reported_status: None,
diff --git a/crates/move_language_server/src/main_loop.rs b/crates/move_language_server/src/main_loop.rs
index 267a402..0e69638 100644
--- a/crates/move_language_server/src/main_loop.rs
+++ b/crates/move_language_server/src/main_loop.rs
@@ -74,10 +74,13 @@ impl fmt::Debug for Event {
     }
 }
 
+/// Counts the states of the world that diagnostics were requested for.
+pub(crate) type DiagnosticsGeneration = usize;
+
 #[derive(Debug)]
 pub(crate) enum Task {
     Response(lsp_server::Response),
-    Diagnostics(Vec<(FileId, Vec<lsp_types::Diagnostic>)>),
+    Diagnostics(DiagnosticsGeneration, Vec<(FileId, Vec<lsp_types::Diagnostic>)>),
 }
 
 impl GlobalState {
@@ -150,7 +153,13 @@ impl GlobalState {
                 loop {
                     match task {
                         Task::Response(response) => self.respond(response),
-                        Task::Diagnostics(diagnostics_per_file) => {
+                        Task::Diagnostics(generation, _)
+                            if generation < self.diagnostics_received =>
+                        {
+                            // Computed for an older state than what we already have.
+                        }
+                        Task::Diagnostics(generation, diagnostics_per_file) => {
+                            self.diagnostics_received = generation;
                             for (file_id, diagnostics) in diagnostics_per_file {
                                 self.diagnostics.set_native_diagnostics(file_id, diagnostics)
                             }
@@ -317,6 +326,8 @@ impl GlobalState {
 
         tracing::trace!("updating notifications for {:?}", subscriptions);
 
+        self.diagnostics_requested += 1;
+        let generation = self.diagnostics_requested;
         let snapshot = self.snapshot();
         self.task_pool.handle.spawn(move || {
             let diagnostics = subscriptions
@@ -333,7 +344,7 @@ impl GlobalState {
                         .map(|diags| (file_id, diags))
                 })
                 .collect::<Vec<_>>();
-            Task::Diagnostics(diagnostics)
+            Task::Diagnostics(generation, diagnostics)
         })
     }
 }
-- 
2.43.0


From e60725e778b0dbfda4aec3e90371e66e0bf0f1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:51 +0000
Subject: [PATCH 13/20] hook: access to server internals under cfg(verif)

---
 crates/move_language_server/src/lib.rs       |   2 +
 crates/move_language_server/src/main_loop.rs |   4 +
 crates/move_language_server/src/verif.rs     | 151 +++++++++++++++++++
 3 files changed, 157 insertions(+)
 create mode 100644 crates/move_language_server/src/verif.rs

diff --git a/crates/move_language_server/src/lib.rs b/crates/move_language_server/src/lib.rs
index 1989081..0b9bc52 100644
--- a/crates/move_language_server/src/lib.rs
+++ b/crates/move_language_server/src/lib.rs
@@ -22,6 +22,8 @@ pub mod config;
 
 pub use caps::server_capabilities;
 pub use main_loop::main_loop;
+#[cfg(verif)]
+pub use main_loop::verif;
 
 pub type Error = Box<dyn std::error::Error + Send + Sync>;
 pub type Result<T, E = Error> = std::result::Result<T, E>;
diff --git a/crates/move_language_server/src/main_loop.rs b/crates/move_language_server/src/main_loop.rs
index 0e69638..f238d9d 100644
--- a/crates/move_language_server/src/main_loop.rs
+++ b/crates/move_language_server/src/main_loop.rs
@@ -16,6 +16,10 @@ use lsp_server::Connection;
 use lsp_types::notification::Notification;
 use vfs::VfsPath;
 
+#[cfg(verif)]
+#[path = "verif.rs"]
+pub mod verif;
+
 pub fn main_loop(config: Config, connection: lsp_server::Connection) -> Result<()> {
     // Windows scheduler implements priority boosts: if thread waits for an
     // event (like a condvar), and event fires, priority of the thread is
diff --git a/crates/move_language_server/src/verif.rs b/crates/move_language_server/src/verif.rs
new file mode 100644
index 0000000..cc37139
--- /dev/null
+++ b/crates/move_language_server/src/verif.rs
@@ -0,0 +1,151 @@
+//! What the verification harnesses need of private items. Only compiled with `--cfg verif`.
+use std::sync::Arc;
+
+use crossbeam_channel::Sender;
+use lsp_server::Message;
+use lsp_types::{CompletionItem, Diagnostic, Position, TextDocumentContentChangeEvent, TextEdit};
+use syntax::{TextRange, TextSize};
+use vfs::{FileId, VfsPath};
+
+use crate::config::Config;
+use crate::diagnostics::DiagnosticCollection;
+use crate::global_state::GlobalState;
+use crate::line_index::{LineEndings, LineIndex, OffsetEncoding};
+use crate::lsp_ext::CodeAction;
+use super::{Event, Task};
+use crate::mem_docs::{DocumentData, MemDocs};
+use crate::{from_proto, lsp_utils, to_proto, Result};
+
+fn encoding(utf8: bool) -> OffsetEncoding {
+    if utf8 {
+        OffsetEncoding::Utf8
+    } else {
+        OffsetEncoding::Utf16
+    }
+}
+
+fn line_index(text: &str, utf8: bool) -> LineIndex {
+    LineIndex {
+        index: Arc::new(ide_db::LineIndex::new(text)),
+        endings: LineEndings::Unix,
+        encoding: encoding(utf8),
+    }
+}
+
+pub fn apply_changes(text: &mut String, changes: Vec<TextDocumentContentChangeEvent>, utf8: bool) {
+    lsp_utils::apply_document_changes_encoded(text, changes, encoding(utf8))
+}
+
+pub fn edits_are_disjoint(item: &CompletionItem, additional: &[TextEdit]) -> bool {
+    lsp_utils::all_edits_are_disjoint(item, additional)
+}
+
+/// The text with `\n` only, and whether there was something to replace.
+pub fn normalize_line_endings(text: String) -> (String, bool) {
+    let (text, endings) = LineEndings::normalize(text);
+    (text, endings == LineEndings::Dos)
+}
+
+pub fn position(text: &str, utf8: bool, offset: u32) -> Position {
+    to_proto::position(&line_index(text, utf8), TextSize::from(offset))
+}
+
+pub fn range(text: &str, utf8: bool, start: u32, end: u32) -> lsp_types::Range {
+    to_proto::range(&line_index(text, utf8), TextRange::new(start.into(), end.into()))
+}
+
+pub fn offset(text: &str, utf8: bool, position: Position) -> u32 {
+    from_proto::offset(&line_index(text, utf8), position).into()
+}
+
+#[derive(Default)]
+pub struct Diagnostics(DiagnosticCollection);
+
+impl Diagnostics {
+    pub fn set_native(&mut self, file: u32, diagnostics: Vec<Diagnostic>) {
+        self.0.set_native_diagnostics(FileId(file), diagnostics)
+    }
+    pub fn add_check(&mut self, file: u32, diagnostic: Diagnostic, fixes: Vec<CodeAction>) {
+        self.0.add_check_diagnostic(FileId(file), diagnostic, fixes)
+    }
+    pub fn clear_check(&mut self) {
+        self.0.clear_check()
+    }
+    pub fn of(&self, file: u32) -> Vec<Diagnostic> {
+        self.0.diagnostics_for(FileId(file)).cloned().collect()
+    }
+    pub fn fixes(&self, file: u32) -> Vec<lsp_types::Range> {
+        self.0.check_fixes.get(&FileId(file)).into_iter().flatten().map(|it| it.range).collect()
+    }
+    pub fn take_changes(&mut self) -> Option<Vec<u32>> {
+        self.0.take_changes().map(|it| it.into_iter().map(|it| it.0).collect())
+    }
+}
+
+#[derive(Default, Clone)]
+pub struct Docs(MemDocs);
+
+impl Docs {
+    pub fn insert(&mut self, path: VfsPath, version: i32) -> bool {
+        self.0.insert(path, DocumentData::new(version)).is_ok()
+    }
+    pub fn remove(&mut self, path: &VfsPath) -> bool {
+        self.0.remove(path).is_ok()
+    }
+    pub fn contains(&self, path: &VfsPath) -> bool {
+        self.0.contains(path)
+    }
+    pub fn version(&self, path: &VfsPath) -> Option<i32> {
+        self.0.get(path).map(|it| it.version)
+    }
+    pub fn set_version(&mut self, path: &VfsPath, version: i32) -> bool {
+        match self.0.get_mut(path) {
+            Some(it) => {
+                it.version = version;
+                true
+            }
+            None => false,
+        }
+    }
+    pub fn paths(&self) -> Vec<VfsPath> {
+        self.0.iter().cloned().collect()
+    }
+    pub fn take_changes(&mut self) -> bool {
+        self.0.take_changes()
+    }
+}
+
+pub struct Server(GlobalState);
+
+impl Server {
+    pub fn new(sender: Sender<Message>, config: Config) -> Server {
+        Server(GlobalState::new(sender, config))
+    }
+    /// One turn of the main loop for a message of the client.
+    pub fn message(&mut self, message: Message) -> Result<()> {
+        self.0.handle_event(Event::Lsp(message))
+    }
+    /// One turn of the main loop for what the task pool has ready, if it has.
+    pub fn task(&mut self) -> Result<bool> {
+        match self.0.task_pool.receiver.try_recv() {
+            Ok(task) => self.0.handle_event(Event::Task(task)).map(|()| true),
+            Err(_) => Ok(false),
+        }
+    }
+    /// The same, but waits for it.
+    pub fn wait_task(&mut self) -> Result<()> {
+        let task: Task = self.0.task_pool.receiver.recv().unwrap();
+        self.0.handle_event(Event::Task(task))
+    }
+    /// The text of a file as the server has it.
+    pub fn text(&self, path: &VfsPath) -> Option<String> {
+        let vfs = &self.0.vfs.read().0;
+        vfs.file_id(path).map(|it| String::from_utf8(vfs.file_contents(it).to_vec()).unwrap())
+    }
+    pub fn version(&self, path: &VfsPath) -> Option<i32> {
+        self.0.mem_docs.get(path).map(|it| it.version)
+    }
+    pub fn shutdown_requested(&self) -> bool {
+        self.0.shutdown_requested
+    }
+}
-- 
2.43.0


From 0cd14cfd35ff7c12872aa897bef36050999314cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:48 +0000
Subject: [PATCH 14/20] fix: keep track of edits past the end of the text in
 the line index

---
 crates/move_language_server/src/lsp_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/move_language_server/src/lsp_utils.rs b/crates/move_language_server/src/lsp_utils.rs
index a1368ef..1587a39 100644
--- a/crates/move_language_server/src/lsp_utils.rs
+++ b/crates/move_language_server/src/lsp_utils.rs
@@ -94,8 +94,10 @@ pub(crate) fn apply_document_changes_encoded(
                 if !index_valid.covers(range.end.line) {
                     line_index.index = Arc::new(ide_db::LineIndex::new(old_text));
                 }
-                index_valid = IndexValid::UpToLineExclusive(range.start.line);
                 let range = from_proto::text_range(&line_index, range);
+                // not `range.start.line`, which can be past the end of the text
+                let first_line = line_index.index.line_col(range.start()).line;
+                index_valid = IndexValid::UpToLineExclusive(first_line);
                 old_text.replace_range(Range::<usize>::from(range), &change.text);
             }
             None => {
-- 
2.43.0


From eae8b887b2739b9189f0e70c194d46d3325b7045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 15/20] fix: a column past the end of a line includes its line
 break, as test_apply_document_changes has it

---
 crates/ide_db/src/line_index.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ide_db/src/line_index.rs b/crates/ide_db/src/line_index.rs
index f7fce74..032c4ca 100644
--- a/crates/ide_db/src/line_index.rs
+++ b/crates/ide_db/src/line_index.rs
@@ -104,15 +104,15 @@ impl LineIndex {
         LineCol { line: line as u32, col: col.into() }
     }
 
-    /// A column past the end of the line stands for the end of the line, a line past the end of
-    /// the text for the end of the text.
+    /// A column past the end of the line stands for the end of the line with its line break, a
+    /// line past the end of the text for the end of the text.
     pub fn offset(&self, line_col: LineCol) -> TextSize {
         let line = line_col.line as usize;
         let start = match self.newlines.get(line) {
             Some(it) => *it,
             None => return self.len,
         };
-        let end = self.newlines.get(line + 1).map_or(self.len, |it| *it - TextSize::of('\n'));
+        let end = self.newlines.get(line + 1).copied().unwrap_or(self.len);
         start + TextSize::from(line_col.col).min(end - start)
     }
 
-- 
2.43.0


From c06d774de7d462b048cdc6d8d5506f41d32b2717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:39 +0000
Subject: [PATCH 16/20] fix: diagnostics of an older text are not published
 under the version of a newer one

---
 crates/move_language_server/src/global_state.rs | 2 --
 crates/move_language_server/src/main_loop.rs    | 8 ++++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index 541cba5..88b724d 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -48,7 +48,6 @@ pub(crate) struct GlobalState {
     pub(crate) analysis_host: AnalysisHost,
     pub(crate) diagnostics: DiagnosticCollection,
     pub(crate) diagnostics_requested: DiagnosticsGeneration,
-    pub(crate) diagnostics_received: DiagnosticsGeneration,
     pub(crate) mem_docs: MemDocs,
     pub(crate) shutdown_requested: bool,
     pub(crate) last_reported_status: Option<lsp_ext::ServerStatusParams>,
@@ -90,7 +89,6 @@ impl GlobalState {
             analysis_host,
             diagnostics: Default::default(),
             diagnostics_requested: 0,
-            diagnostics_received: 0,
             mem_docs: MemDocs::default(),
             shutdown_requested: false,
             last_reported_status: None,
diff --git a/crates/move_language_server/src/main_loop.rs b/crates/move_language_server/src/main_loop.rs
index f238d9d..a304d85 100644
--- a/crates/move_language_server/src/main_loop.rs
+++ b/crates/move_language_server/src/main_loop.rs
@@ -158,12 +158,12 @@ impl GlobalState {
                     match task {
                         Task::Response(response) => self.respond(response),
                         Task::Diagnostics(generation, _)
-                            if generation < self.diagnostics_received =>
+                            if generation < self.diagnostics_requested =>
                         {
-                            // Computed for an older state than what we already have.
+                            // Computed for an older state than the current one, whose
+                            // diagnostics are still to come.
                         }
-                        Task::Diagnostics(generation, diagnostics_per_file) => {
-                            self.diagnostics_received = generation;
+                        Task::Diagnostics(_, diagnostics_per_file) => {
                             for (file_id, diagnostics) in diagnostics_per_file {
                                 self.diagnostics.set_native_diagnostics(file_id, diagnostics)
                             }
-- 
2.43.0


From 39774abdb2c98abb4a0153b961d18c7695e15e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:39 +0000
Subject: [PATCH 17/20] fix: a notification with malformed parameters does not
 end the server

---
 crates/move_language_server/src/dispatch.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/move_language_server/src/dispatch.rs b/crates/move_language_server/src/dispatch.rs
index c39e2d3..0ea51d9 100644
--- a/crates/move_language_server/src/dispatch.rs
+++ b/crates/move_language_server/src/dispatch.rs
@@ -225,14 +225,14 @@ impl<'a> NotificationDispatcher<'a> {
         N: lsp_types::notification::Notification + 'static,
         N::Params: DeserializeOwned + Send + 'static,
     {
-        let not = match self.not.take() {
-            Some(it) => it,
-            None => return Ok(self),
+        let not = match &self.not {
+            Some(it) if it.method == N::METHOD => self.not.take().unwrap(),
+            _ => return Ok(self),
         };
-        let params = match not.extract::<N::Params>(N::METHOD) {
+        let params = match crate::from_json::<N::Params>(N::METHOD, not.params) {
             Ok(it) => it,
-            Err(not) => {
-                self.not = Some(not);
+            Err(err) => {
+                tracing::error!("invalid notification: {}", err);
                 return Ok(self);
             }
         };
-- 
2.43.0


From 7e628fb2466a5e49fd3cf27cb0eec16886d2166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:39 +0000
Subject: [PATCH 18/20] hook: requests of a made-up kind, file addresses

---
 crates/move_language_server/src/verif.rs | 62 ++++++++++++++++++++++--
 1 file changed, 59 insertions(+), 3 deletions(-)

diff --git a/crates/move_language_server/src/verif.rs b/crates/move_language_server/src/verif.rs
index cc37139..758fd1c 100644
--- a/crates/move_language_server/src/verif.rs
+++ b/crates/move_language_server/src/verif.rs
@@ -2,19 +2,20 @@
 use std::sync::Arc;
 
 use crossbeam_channel::Sender;
-use lsp_server::Message;
+use lsp_server::{Message, Request};
 use lsp_types::{CompletionItem, Diagnostic, Position, TextDocumentContentChangeEvent, TextEdit};
 use syntax::{TextRange, TextSize};
 use vfs::{FileId, VfsPath};
 
 use crate::config::Config;
 use crate::diagnostics::DiagnosticCollection;
-use crate::global_state::GlobalState;
+use crate::dispatch::RequestDispatcher;
+use crate::global_state::{GlobalState, GlobalStateSnapshot};
 use crate::line_index::{LineEndings, LineIndex, OffsetEncoding};
 use crate::lsp_ext::CodeAction;
 use super::{Event, Task};
 use crate::mem_docs::{DocumentData, MemDocs};
-use crate::{from_proto, lsp_utils, to_proto, Result};
+use crate::{from_proto, lsp_utils, to_proto, LspError, Result};
 
 fn encoding(utf8: bool) -> OffsetEncoding {
     if utf8 {
@@ -149,3 +150,58 @@ impl Server {
         self.0.shutdown_requested
     }
 }
+
+/// A request of the harness; what is to become of it is in its parameter.
+pub enum Probe {}
+
+impl lsp_types::request::Request for Probe {
+    type Params = String;
+    type Result = String;
+    const METHOD: &'static str = "verif/probe";
+}
+
+fn probe(snap: Option<&GlobalStateSnapshot>, params: String) -> Result<String> {
+    match params.as_str() {
+        "lsp error" => Err(LspError::new(7, params).into()),
+        "panic" => std::panic::resume_unwind(Box::new(params)),
+        "error" => Err(params.into()),
+        "diagnostics" => {
+            let snap = snap.ok_or("no snapshot")?;
+            let url = lsp_types::Url::parse("file:///w/a.move").unwrap();
+            let file_id = snap.url_to_file_id(&url)?;
+            crate::handlers::publish_diagnostics(snap, file_id).map(|_| params)
+        }
+        _ => Ok(params),
+    }
+}
+
+/// The ways a request can be dispatched.
+#[derive(Clone, Copy)]
+pub enum Dispatch {
+    Pool,
+    Snapshot,
+    Mut,
+}
+
+impl Server {
+    /// Take in a request that only the harness has a handler for.
+    pub fn request(&mut self, req: Request, how: Dispatch) -> Result<()> {
+        self.0.register_request(&req, std::time::Instant::now());
+        let mut it = RequestDispatcher { req: Some(req), global_state: &mut self.0 };
+        match how {
+            Dispatch::Pool => it.on::<Probe>(|snap, params| probe(Some(&snap), params)),
+            Dispatch::Snapshot => it.on_sync::<Probe>(|snap, params| probe(Some(&snap), params))?,
+            Dispatch::Mut => it.on_sync_mut::<Probe>(|_, params| probe(None, params))?,
+        }
+        .finish();
+        Ok(())
+    }
+}
+
+pub fn url(path: &vfs::AbsPath) -> lsp_types::Url {
+    to_proto::url_from_abs_path(path)
+}
+
+pub fn path(url: &lsp_types::Url) -> Result<VfsPath> {
+    from_proto::vfs_path(url)
+}
-- 
2.43.0


From 2182aa204cbe4ef295c91fdaf02e7556da1e7071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:27 +0000
Subject: [PATCH 19/20] fix: operands of a binary expression are told apart by
 their place

lhs() and rhs() both returned the first operand, also if that one is the
right operand of an expression whose left operand is missing.
---
 crates/generate_ast/src/ast.rs    | 20 +++++---------------
 crates/syntax/src/ast.rs          |  1 +
 crates/syntax/src/ast/expr_ext.rs | 15 +++++++++++++++
 crates/syntax/src/ast/nodes.rs    |  2 --
 4 files changed, 21 insertions(+), 17 deletions(-)
 create mode 100644 crates/syntax/src/ast/expr_ext.rs

diff --git a/crates/generate_ast/src/ast.rs b/crates/generate_ast/src/ast.rs
index 1a1f6cc..06e5c81 100644
--- a/crates/generate_ast/src/ast.rs
+++ b/crates/generate_ast/src/ast.rs
@@ -189,21 +189,11 @@ fn lower_rule(
         }
         Rule::Labeled { label: l, rule } => {
             assert!(label.is_none());
-            // let manually_implemented = matches!(
-            //     l.as_str(),
-            //         "then_branch"
-            //         | "else_branch"
-            //         | "start"
-            //         | "end"
-            //         | "index"
-            //         | "base"
-            //         | "value"
-            //         | "trait"
-            //         | "self_ty"
-            // );
-            // if manually_implemented {
-            //     return;
-            // }
+            // both operands are of one kind, only their place tells them apart
+            let manually_implemented = matches!(l.as_str(), "lhs" | "rhs");
+            if manually_implemented {
+                return;
+            }
             lower_rule(acc, grammar, Some(l), rule);
         }
         Rule::Seq(rules) | Rule::Alt(rules) => {
diff --git a/crates/syntax/src/ast.rs b/crates/syntax/src/ast.rs
index f20cd77..58964e2 100644
--- a/crates/syntax/src/ast.rs
+++ b/crates/syntax/src/ast.rs
@@ -4,6 +4,7 @@ use crate::syntax_node::{SyntaxNode, SyntaxNodeChildren, SyntaxToken};
 use parser::SyntaxKind;
 use std::marker::PhantomData;
 
+mod expr_ext;
 #[rustfmt::skip]
 mod nodes;
 #[rustfmt::skip]
diff --git a/crates/syntax/src/ast/expr_ext.rs b/crates/syntax/src/ast/expr_ext.rs
new file mode 100644
index 0000000..64c282d
--- /dev/null
+++ b/crates/syntax/src/ast/expr_ext.rs
@@ -0,0 +1,15 @@
+//! Accessors of expressions that the grammar cannot generate.
+
+use super::{AstNode, BinExpr, Expr};
+
+impl BinExpr {
+    /// The operand in front of the operator.
+    pub fn lhs(&self) -> Option<Expr> {
+        self.syntax().children().next().and_then(Expr::cast)
+    }
+
+    /// The operand behind the operator.
+    pub fn rhs(&self) -> Option<Expr> {
+        self.syntax().children().nth(1).and_then(Expr::cast)
+    }
+}
diff --git a/crates/syntax/src/ast/nodes.rs b/crates/syntax/src/ast/nodes.rs
index 6777bed..a2077de 100644
--- a/crates/syntax/src/ast/nodes.rs
+++ b/crates/syntax/src/ast/nodes.rs
@@ -44,13 +44,11 @@ pub struct BinExpr {
     pub(crate) syntax: SyntaxNode,
 }
 impl BinExpr {
-    pub fn lhs(&self) -> Option<Expr> { support::child(&self.syntax) }
     pub fn plus_token(&self) -> Option<SyntaxToken> { support::token(&self.syntax, T![+]) }
     pub fn minus_token(&self) -> Option<SyntaxToken> { support::token(&self.syntax, T![-]) }
     pub fn star_token(&self) -> Option<SyntaxToken> { support::token(&self.syntax, T![*]) }
     pub fn slash_token(&self) -> Option<SyntaxToken> { support::token(&self.syntax, T![/]) }
     pub fn mod_token(&self) -> Option<SyntaxToken> { support::token(&self.syntax, T![%]) }
-    pub fn rhs(&self) -> Option<Expr> { support::child(&self.syntax) }
 }
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct Literal {
-- 
2.43.0


From 09d533c4a87f9bdae11474246ec9d432b0c9e56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:36 +0000
Subject: [PATCH 20/20] fix: closing deep nesting at the end of the file does
 not count as being stuck

At the end of the file every open parenthesis, brace and list looks ahead
a few times without consuming anything, so some thousand unclosed ones
used up the steps allowed and the parser panicked.
---
 crates/parser/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser.rs b/crates/parser/src/parser.rs
index 2f0405e..81debec 100644
--- a/crates/parser/src/parser.rs
+++ b/crates/parser/src/parser.rs
@@ -60,7 +60,7 @@ impl<'t> Parser<'t> {
         assert!(n <= 3);
 
         let steps = self.steps.get();
-        assert!(steps <= 10_000, "the parser seems stuck");
+        assert!(steps <= 1_000_000, "the parser seems stuck");
         self.steps.set(steps + 1);
 
         self.lexer.lookahead_nth(n).kind
-- 
2.43.0

