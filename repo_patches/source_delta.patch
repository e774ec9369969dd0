From ca9a2340f5985b50871040a7bb8ab001f9d54335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 01/16] fix: start tokens and seeks on character boundaries

The end position of a non-ASCII character was used as the start of whatever
follows it, but that position is inside the character. Rewinding to such a
token (regexp and template re-reads, cover grammars) sliced the source inside a
character and panicked.
---
 lexer/src/lib.rs                     | 33 ++++++++++++++++++++--------
 lexer/src/number.rs                  | 18 +++++++--------
 lexer/src/regexp.rs                  |  4 ++--
 lexer/src/string.rs                  |  2 +-
 lexer/src/unicode_escape_sequence.rs | 14 ++++++------
 5 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 52f99d4..8d8b09c 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -118,7 +118,7 @@ impl<'a> Lexer<'a> {
 
         let current = self.reader.current()?;
 
-        let start = self.reader.position();
+        let start = self.position();
         let value = match current {
             '/' if self.state.regex_allowed => self.read_regexp_literal(),
             // <op>=
@@ -210,7 +210,7 @@ impl<'a> Lexer<'a> {
                     if self.reader.peek().ok() == Some(&'.') {
                         produce!(self, 2, punct!("..."))
                     } else {
-                        let end = self.reader.position();
+                        let end = self.position();
                         let error_token = Token::new(punct!("."), self.first_on_line, (start, end));
                         return Err(Error::invalid_or_unexpected_token(error_token));
                     }
@@ -266,7 +266,7 @@ impl<'a> Lexer<'a> {
                 }
                 Ok('<') if self.reader.peek().ok() == Some(&'!') => {
                     if !self.state.html_comment_allowed {
-                        let position = self.reader.position();
+                        let position = self.position();
                         return Err(Error::syntax_error(
                             "HTML comments are not allowed in this context".to_owned(),
                             (position, position + 2),
@@ -306,7 +306,7 @@ impl<'a> Lexer<'a> {
 
     /// Skips multi line comment, returns true if a new line was skipped.
     fn skip_multi_line_comment(&mut self) -> Result<()> {
-        let span_start = self.reader.position();
+        let span_start = self.position();
         self.reader.consume()?;
         self.reader.consume()?;
 
@@ -380,7 +380,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_template_literal_middle_or_tail(&mut self) -> Result<Token> {
-        let span_start = self.reader.position();
+        let span_start = self.position();
         let start = self.reader.consume()?;
 
         if start != '}' {
@@ -398,7 +398,7 @@ impl<'a> Lexer<'a> {
             TokenValue::TemplateTail(value)
         };
 
-        let span = Span::new(span_start, self.reader.position());
+        let span = Span::new(span_start, self.position());
         Ok(Token {
             span,
             first_on_line: false,
@@ -452,6 +452,21 @@ impl<'a> Lexer<'a> {
         Ok(())
     }
 
+    /// Position of the current character in the source.
+    fn position(&self) -> usize {
+        self.char_boundary(self.reader.position())
+    }
+
+    /// Returns the first character boundary at or after `position`. The reader reports the end of
+    /// a non-ASCII character as a position inside of that character.
+    fn char_boundary(&self, mut position: usize) -> usize {
+        while position < self.data.len() && !self.data.is_char_boundary(position) {
+            position += 1;
+        }
+
+        position
+    }
+
     fn is_end(&self) -> bool {
         use fajt_common::io::char_reader::Error;
         matches!(self.reader.current(), Err(Error::EndOfStream))
@@ -504,14 +519,14 @@ impl Seek for Lexer<'_> {
         let pos = match pos {
             SeekFrom::Start(offset) => offset,
             SeekFrom::End(offset) => (self.data.len() as i64 + offset) as u64,
-            SeekFrom::Current(offset) => (self.reader.position() as i64 + offset) as u64,
+            SeekFrom::Current(offset) => (self.position() as i64 + offset) as u64,
         };
 
-        let offset = pos as usize;
+        let offset = self.char_boundary(pos as usize);
         self.reader = PeekReader::with_offset(self.data[offset..].char_indices(), offset).unwrap();
         self.first_on_line = true;
 
-        Ok(pos)
+        Ok(offset as u64)
     }
 }
 
diff --git a/lexer/src/number.rs b/lexer/src/number.rs
index c5dd841..1991281 100644
--- a/lexer/src/number.rs
+++ b/lexer/src/number.rs
@@ -12,7 +12,7 @@ impl<'a> Lexer<'a> {
             Ok('o' | 'O') if current == &'0' => self.read_octal_string()?,
             Ok('b' | 'B') if current == &'0' => self.read_binary_string()?,
             Ok('0'..='9') if current == &'0' => {
-                let position = self.reader.position();
+                let position = self.position();
                 return Err(Error::syntax_error(
                     "Zero prefixed numbers are deprecated and not supported".to_owned(),
                     (position, position + 1),
@@ -27,7 +27,7 @@ impl<'a> Lexer<'a> {
             .ok()
             .map_or(false, CodePoint::is_start_of_identifier)
         {
-            let position = self.reader.position();
+            let position = self.position();
             return Err(Error::syntax_error(
                 "Number cannot be followed by identifier without separation".to_owned(),
                 (position, position),
@@ -38,7 +38,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_hex_string(&mut self) -> Result<String> {
-        let span_start = self.reader.position();
+        let span_start = self.position();
 
         let mut number_string = String::new();
         number_string.push(self.reader.consume()?); // 0
@@ -51,7 +51,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_octal_string(&mut self) -> Result<String> {
-        let span_start = self.reader.position();
+        let span_start = self.position();
 
         let mut number_string = String::new();
         number_string.push(self.reader.consume()?); // 0
@@ -65,7 +65,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_binary_string(&mut self) -> Result<String> {
-        let span_start = self.reader.position();
+        let span_start = self.position();
 
         let mut number_string = String::new();
         number_string.push(self.reader.consume()?); // 0
@@ -79,7 +79,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_decimal_string(&mut self) -> Result<String> {
-        let span_start = self.reader.position();
+        let span_start = self.position();
 
         let mut number_string = String::new();
 
@@ -117,7 +117,7 @@ impl<'a> Lexer<'a> {
         let number_string = self.read_number_string(span_start, check)?;
 
         if number_string.is_empty() {
-            let position = self.reader.position();
+            let position = self.position();
             return Err(Error::syntax_error(
                 "Expected number".to_owned(),
                 (position, position),
@@ -134,7 +134,7 @@ impl<'a> Lexer<'a> {
     ) -> Result<String> {
         let number_str = self.reader.read_while(|c| check(c) || c == &'_')?;
         if number_str.contains("__") {
-            let span_end = self.reader.position();
+            let span_end = self.position();
             return Err(Error::syntax_error(
                 "Number cannot contain multiple adjacent underscores".to_owned(),
                 (span_start, span_end),
@@ -142,7 +142,7 @@ impl<'a> Lexer<'a> {
         }
 
         if number_str.ends_with('_') {
-            let span_end = self.reader.position();
+            let span_end = self.position();
             return Err(Error::syntax_error(
                 "Number cannot end with underscore".to_owned(),
                 (span_start, span_end),
diff --git a/lexer/src/regexp.rs b/lexer/src/regexp.rs
index 778e273..d1f2ccf 100644
--- a/lexer/src/regexp.rs
+++ b/lexer/src/regexp.rs
@@ -6,7 +6,7 @@ type Result<T> = std::result::Result<T, Error>;
 
 impl Lexer<'_> {
     pub(super) fn read_regexp_literal(&mut self) -> Result<TokenValue> {
-        let span_start = self.reader.position();
+        let span_start = self.position();
         let mut result = String::new();
         let regexp_start = self.reader.consume()?;
         debug_assert_eq!(regexp_start, '/');
@@ -19,7 +19,7 @@ impl Lexer<'_> {
 
             match c {
                 '\n' => {
-                    let span_end = self.reader.position();
+                    let span_end = self.position();
                     return Err(Error::syntax_error(
                         "Unterminated regular expression literal".to_owned(),
                         (span_start, span_end - 1),
diff --git a/lexer/src/string.rs b/lexer/src/string.rs
index 7c92537..d1b134e 100644
--- a/lexer/src/string.rs
+++ b/lexer/src/string.rs
@@ -50,7 +50,7 @@ impl<'a> Lexer<'a> {
 
     fn validate_character(&self, char: char) -> Result<()> {
         if char == '\r' || char == '\n' {
-            let char_pos = self.reader.position() - 1;
+            let char_pos = self.position() - 1;
             return Err(Error::syntax_error(
                 "String contained unescaped new line".to_owned(),
                 (char_pos, char_pos),
diff --git a/lexer/src/unicode_escape_sequence.rs b/lexer/src/unicode_escape_sequence.rs
index 1d630b0..3858478 100644
--- a/lexer/src/unicode_escape_sequence.rs
+++ b/lexer/src/unicode_escape_sequence.rs
@@ -9,7 +9,7 @@ impl Lexer<'_> {
         &mut self,
         is_start: bool,
     ) -> Result<char> {
-        let span_start = self.reader.position();
+        let span_start = self.position();
         let char = self.read_unicode_escape_sequence()?;
         let valid = if is_start {
             char.is_start_of_identifier()
@@ -18,7 +18,7 @@ impl Lexer<'_> {
         };
 
         if !valid {
-            let span_end = self.reader.position();
+            let span_end = self.position();
             return Err(Error::syntax_error(
                 "Invalid escape sequence".to_owned(),
                 (span_start, span_end),
@@ -29,13 +29,13 @@ impl Lexer<'_> {
     }
 
     fn read_unicode_escape_sequence(&mut self) -> Result<char> {
-        let span_start = self.reader.position();
+        let span_start = self.position();
 
         let slash = self.reader.consume()?;
         debug_assert_eq!(slash, '\\');
 
         if self.reader.consume()? != 'u' {
-            let span_end = self.reader.position();
+            let span_end = self.position();
             return Err(Error::syntax_error(
                 "Invalid escape sequence".to_owned(),
                 (span_start, span_end),
@@ -48,7 +48,7 @@ impl Lexer<'_> {
         };
 
         let Ok(char) = char::try_from(code_point) else {
-            let position = self.reader.position();
+            let position = self.position();
             return Err(Error::unrecognized_code_point(
                 code_point,
                 (position, position),
@@ -75,7 +75,7 @@ impl Lexer<'_> {
         match u32::from_str_radix(&hex, 16) {
             Ok(code_point) if code_point <= 0x10FFFF => Ok(code_point),
             _ => {
-                let span_end = self.reader.position();
+                let span_end = self.position();
                 Err(Error::syntax_error(
                     "Invalid escape sequence".to_owned(),
                     (span_start, span_end),
@@ -99,7 +99,7 @@ impl Lexer<'_> {
         match self.reader.consume()? {
             c @ ('0'..='9' | 'a'..='f' | 'A'..='F') => Ok(c),
             _ => {
-                let span_end = self.reader.position();
+                let span_end = self.position();
                 Err(Error::syntax_error(
                     "Invalid escape sequence".to_owned(),
                     (span_start, span_end),
-- 
2.43.0


From 3b8fb51e82b17986a0904703215c3ba16c86134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 02/16] fix: restore lexer state when a re-read fails

A failed read with a temporary state left that state in the lexer, so every
later token was read in regexp or template mode.
---
 lexer/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 8d8b09c..265c920 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -575,10 +575,10 @@ impl ReReadWithState<Token> for Lexer<'_> {
         mut state: LexerState,
     ) -> std::result::Result<(usize, Token), Self::Error> {
         mem::swap(&mut state, &mut self.state);
-        let result = self.next()?;
+        let result = self.next();
         mem::swap(&mut self.state, &mut state);
 
-        Ok(result)
+        result
     }
 }
 
-- 
2.43.0


From fd417bcc65fafcdfa87fbfe0e40db9eba78ad0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 03/16] fix: render diagnostics for spans that end inside a
 character

Tokens that end with a non-ASCII character have an end position inside of that
character, rendering an error about such a token panicked.
---
 parser/src/error/emitter.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index 3e415e5..42f49c7 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -19,7 +19,7 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
     }
 
     pub fn emit_error(&mut self, error: &Error) -> std::io::Result<()> {
-        let span = &error.span;
+        let span = &self.get_char_boundaries(&error.span);
         let line_span = self.get_line_boundaries(span);
         let col_number = span.start - line_span.start + 1;
         let line_number = self.get_line_number(span);
@@ -54,7 +54,8 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         let line_number_str = line_number.to_string();
         let padding = line_number_str.len() + 1;
 
-        let err_span = error.span.translate(-(line_span.start as isize));
+        let err_span = self.get_char_boundaries(&error.span);
+        let err_span = err_span.translate(-(line_span.start as isize));
         let err_token_length = err_span.end - err_span.start;
 
         writeln!(self.out, "{:<pad$}|", " ", pad = padding)?;
@@ -100,6 +101,18 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         Span::new(start, end)
     }
 
+    /// Returns `span` widened so that it does not end inside of a character.
+    fn get_char_boundaries(&self, span: &Span) -> Span {
+        let boundary = |mut position: usize| {
+            while position < self.source.len() && !self.source.is_char_boundary(position) {
+                position += 1;
+            }
+            position
+        };
+
+        Span::new(boundary(span.start), boundary(span.end))
+    }
+
     fn get_kind_description(&self, error: &Error) -> String {
         match &error.kind {
             ErrorKind::ForbiddenIdentifier(keyword) => {
@@ -107,7 +120,8 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
             }
             ErrorKind::UnexpectedToken(_, None) => "Unexpected token".to_string(),
             ErrorKind::UnexpectedToken(_, Some(expected)) => {
-                let token_value = &self.source[error.span.start..error.span.end];
+                let span = self.get_char_boundaries(&error.span);
+                let token_value = &self.source[span.start..span.end];
                 format!(
                     "Unexpected token, found `{token_value}`, expected `{}`",
                     expected_token_to_string(expected).unwrap_or_default(),
-- 
2.43.0


From 51ea39bf84e87a6b7bbe77d72a7c64d368d5d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 04/16] fix: report module specifiers that are not strings

A literal of another type after `from` panicked instead of being reported as an
unexpected token.
---
 parser/src/module.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index aa4144f..84618e9 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -2,11 +2,11 @@ use crate::error::Result;
 use crate::{Error, Parser, ThenTry};
 use fajt_ast::{
     DeclExport, DeclImport, ExportDecl, ExportDefaultDecl, ExportDefaultExpr, ExportNamed,
-    ExportNamespace, Ident, LitString, NamedExport, NamedImport, Stmt, VariableKind,
+    ExportNamespace, Ident, LitString, Literal, NamedExport, NamedImport, Stmt, VariableKind,
 };
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
-use fajt_lexer::token::Token;
+use fajt_lexer::token::{Token, TokenValue};
 use fajt_lexer::token_matches;
 use fajt_lexer::{keyword, LexerState};
 
@@ -201,12 +201,11 @@ where
 
     /// Parses the `ModuleSpecifier` production.
     fn parse_module_specifier(&mut self) -> Result<LitString> {
-        let module_name = self
-            .parse_literal()?
-            .unwrap_literal()
-            .literal
-            .unwrap_string();
-        Ok(module_name)
+        let token = self.consume()?;
+        match token.value {
+            TokenValue::Literal(Literal::String(module_name)) => Ok(module_name),
+            _ => Err(Error::unexpected_token(token)),
+        }
     }
 
     /// Parses the `NameSpaceImport` production.
-- 
2.43.0


From 3ef86c91d592a531a00a3a010d0016865a5a49bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 05/16] fix: end the statement after `async` followed by a new
 line

`async` and `function` on different lines were parsed as an async function and
tripped the assertion that `function` is not first on its line.
---
 parser/src/module.rs | 13 +++++++++----
 parser/src/stmt.rs   |  4 +++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index 84618e9..2f1eee5 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -28,7 +28,9 @@ where
             | token_matches!(ok: keyword!("const"))
             | token_matches!(ok: keyword!("function"))
             | token_matches!(ok: keyword!("class")) => self.parse_declaration_export(span_start),
-            token_matches!(ok: keyword!("async")) if self.peek_matches(&keyword!("function")) => {
+            token_matches!(ok: keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 self.parse_declaration_export(span_start)
             }
             token_matches!(ok: keyword!("default")) => self.parse_default_export(span_start),
@@ -42,9 +44,12 @@ where
             token_matches!(keyword!("class")) | token_matches!(keyword!("function")) => self
                 .with_context(self.context.with_default(true))
                 .parse_declaration_default_export(span_start),
-            token_matches!(keyword!("async")) if self.peek_matches(&keyword!("function")) => self
-                .with_context(self.context.with_default(true))
-                .parse_declaration_default_export(span_start),
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
+                self.with_context(self.context.with_default(true))
+                    .parse_declaration_default_export(span_start)
+            }
             _ => {
                 let expr = self
                     .with_context(self.context.with_in(true))
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 03f6c9e..21564ca 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -69,7 +69,9 @@ where
     pub(super) fn parse_declaration(&mut self) -> Result<Option<Stmt>> {
         Ok(match self.current()? {
             token_matches!(keyword!("function")) => Some(self.parse_function_declaration()?),
-            token_matches!(keyword!("async")) if self.peek_matches(&keyword!("function")) => {
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 Some(self.parse_async_function_declaration()?)
             }
             token_matches!(keyword!("class")) => Some(
-- 
2.43.0


From 418fe420d599047c83b75f648c0eeb93129e53f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 06/16] fix: do not report an exported non-declaration with a
 reversed span

The span started at the offending token and ended before it, rendering the
error panicked.
---
 parser/src/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index 2f1eee5..be62a42 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -103,7 +103,7 @@ where
         if let Some(decl) = decl {
             Ok(decl)
         } else {
-            let span = self.span_from(self.position());
+            let span = self.current()?.span.clone();
             Err(Error::syntax_error("Expected statement".to_owned(), span))
         }
     }
-- 
2.43.0


From 177cb952a67d4f98c939575772b8eb0272792c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 07/16] fix: render diagnostics beyond column 65535

Formatting widths are limited to 16 bits, rendering an error far into a long
line, as in minified sources, panicked.
---
 parser/src/error/emitter.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index 42f49c7..5e01a30 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -71,14 +71,12 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         )?;
         writeln!(
             self.out,
-            "{:<pad$}| {:<err_offset$}{:^<err_mark$} {}",
+            "{:<pad$}| {}{} {}",
             "",
-            "",
-            "^",
+            " ".repeat(err_span.start + tab_indents * 3),
+            "^".repeat(err_token_length.max(1)),
             label,
-            pad = padding,
-            err_offset = err_span.start + tab_indents * 3,
-            err_mark = err_token_length
+            pad = padding
         )?;
 
         Ok(())
-- 
2.43.0


From a4954577b6690778d1bb7cc00d66de0058a5cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 08/16] fix: traverse the alternate of a conditional expression

The condition was traversed twice and the alternate never.
---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index f7b9383..b6743ac 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -290,7 +290,7 @@ generate_fold_and_visit! {
         ExprConditional: (enter: enter_conditional_expr, exit: exit_conditional_expr) {
             condition
             consequent
-            condition
+            alternate
         }
 
         ExprUpdate: (enter: enter_update_expr, exit: exit_update_expr) {
-- 
2.43.0


From 7dbeefbb5fa3f33e6762cb6dd7dfd7b7f4a7d8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 09/16] fix: traverse the namespace binding of an import

The named imports were traversed twice and the namespace binding never.
---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index b6743ac..24cb288 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -219,7 +219,7 @@ generate_fold_and_visit! {
 
         DeclImport: (enter: enter_import, exit: exit_import) {
             default_binding
-            named_imports
+            namespace_binding
             named_imports
             from
         }
-- 
2.43.0


From acbf76e070ee2f45f90152515740331270e679a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 10/16] fix: report stored spans with malformed positions

Deserializing a span whose positions are not numbers panicked instead of
returning an error.
---
 ast/src/span.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ast/src/span.rs b/ast/src/span.rs
index 73968e3..ff53677 100644
--- a/ast/src/span.rs
+++ b/ast/src/span.rs
@@ -56,12 +56,9 @@ impl<'de> Deserialize<'de> for Span {
             where
                 E: serde::de::Error,
             {
-                let mut parts = str.split(':');
-                if let (Some(start), Some(end)) = (parts.next(), parts.next()) {
-                    Ok(Span {
-                        start: start.parse().unwrap(),
-                        end: end.parse().unwrap(),
-                    })
+                let mut parts = str.split(':').map(str::parse);
+                if let (Some(Ok(start)), Some(Ok(end))) = (parts.next(), parts.next()) {
+                    Ok(Span { start, end })
                 } else {
                     Err(serde::de::Error::custom(format!(
                         "{str} is not a valid span."
-- 
2.43.0


From 494ab4572d8fe6da166c3e270d3b3de4e6e19810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 11/16] fix: traverse the binding of for-in and for-of
 declarations

Nothing inside the declared binding was ever visited.
---
 ast/src/traverse/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index 24cb288..0364702 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -534,6 +534,8 @@ generate_fold_and_visit! {
             statements
         }
 
-        ForBinding: (enter: enter_for_binding, exit: exit_for_binding) { }
+        ForBinding: (enter: enter_for_binding, exit: exit_for_binding) {
+            binding
+        }
     }
 }
-- 
2.43.0


From bdb8bfd56ec35c9da309e406d722ec7298398cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 12/16] fix: accept a single value for --format

The possible values were given as value names, which made the option require two
values.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 57a349d..a180d3a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -51,7 +51,7 @@ fn get_arguments() -> Arguments {
                 .long("format")
                 .short('f')
                 .value_name("format")
-                .value_names(["pretty", "minified"]),
+                .value_parser(["pretty", "minified"]),
         )
         .arg(Arg::new("check").long("check").short('c').num_args(0))
         .get_matches();
-- 
2.43.0


From e13d378e47caddd78e1911573631ea1ecf242826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 13/16] fix: read `async` as an identifier unless a function
 follows

The statement `async` was only accepted when a line break followed it: at the
end of the source, or before `;`, it was taken for an async function.
---
 parser/src/expr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 1ecd11c..d4ae6f9 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -762,7 +762,9 @@ where
             token_matches!(keyword!("class")) => self
                 .with_context(self.context.with_strict(true))
                 .parse_class_expr()?,
-            token_matches!(keyword!("async")) if !self.followed_by_new_line() => {
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 self.parse_async_function_expr()?
             }
             token_matches!(punct!("/")) => {
-- 
2.43.0


From 5bad8a2a1382a0cf4298728bc60a8226a8174113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 14/16] fix: keep the line mark of tokens read in template mode

The middle and tail of a template were always marked as not first on their line,
and left the mark set for the token after them: the same token read again had
another mark, and a statement could end after a template without a line break.
---
 lexer/src/lib.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 265c920..9db989a 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -17,7 +17,7 @@ use crate::error::Error;
 use crate::error::ErrorKind::{EndOfStream, InvalidOrUnexpectedToken};
 use crate::token::Token;
 use crate::token::TokenValue;
-use fajt_ast::{LitTemplate, Literal, Span, TemplatePart};
+use fajt_ast::{LitTemplate, Literal, TemplatePart};
 use fajt_common::io::{PeekRead, PeekReader, ReReadWithState};
 use std::io::{Seek, SeekFrom};
 use std::mem;
@@ -398,12 +398,10 @@ impl<'a> Lexer<'a> {
             TokenValue::TemplateTail(value)
         };
 
-        let span = Span::new(span_start, self.position());
-        Ok(Token {
-            span,
-            first_on_line: false,
-            value,
-        })
+        let token = Token::new(value, self.first_on_line, (span_start, self.position()));
+        self.first_on_line = false;
+
+        Ok(token)
     }
 
     /// Returns literal string and what ended it.
-- 
2.43.0


From 64df4fabfd90aef78c86f2e7f57f6be49a905f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 15/16] fix: number the line on which a diagnostic's span
 starts

The line of the end of the span was shown with the column of its start, a place
that may not exist in the source when the span contains a line break.
---
 parser/src/error/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index 5e01a30..38ff539 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -83,7 +83,7 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
     }
 
     fn get_line_number(&self, span: &Span) -> usize {
-        self.source[..span.end].matches('\n').count() + 1
+        self.source[..span.start].matches('\n').count() + 1
     }
 
     fn get_line_boundaries(&self, span: &Span) -> Span {
-- 
2.43.0


From 6cec242def4ed3b5ad5834375992609ce985a7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:22 +0000
Subject: [PATCH 16/16] fix: skip consecutive HTML end comments without
 recursion

---
 lexer/src/lib.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 9db989a..e92cbc8 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -235,20 +235,6 @@ impl<'a> Lexer<'a> {
         }?;
         let end = self.reader.position();
 
-        // Support for legacy html end comment: `-->`
-        if self.first_on_line && value == punct!("--") && self.reader.current().ok() == Some(&'>') {
-            if !self.state.html_comment_allowed {
-                return Err(Error::syntax_error(
-                    "HTML comments are not allowed in this context".to_owned(),
-                    (start, start + 3),
-                ));
-            }
-
-            self.skip_rest_of_line();
-            self.first_on_line = true;
-            return self.read();
-        }
-
         let token = Token::new(value, self.first_on_line, (start, end));
         self.first_on_line = false;
 
@@ -279,6 +265,21 @@ impl<'a> Lexer<'a> {
                 Ok('/') if self.reader.peek().ok() == Some(&'*') => {
                     self.skip_multi_line_comment()?;
                 }
+                // Support for legacy html end comment: `-->`
+                Ok('-')
+                    if self.first_on_line && self.data[self.position()..].starts_with("-->") =>
+                {
+                    if !self.state.html_comment_allowed {
+                        let position = self.position();
+                        return Err(Error::syntax_error(
+                            "HTML comments are not allowed in this context".to_owned(),
+                            (position, position + 3),
+                        ));
+                    }
+
+                    self.skip_rest_of_line();
+                    self.first_on_line = true;
+                }
                 _ => break,
             }
         }
-- 
2.43.0

