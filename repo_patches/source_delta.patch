From 4e27b0d18fc9d20398d5fa0dc14f6819229dbf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 01/19] fix: attach a block comment that ends its line to the
 preceding declaration

---
 protox-parse/src/parse/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index d04733d..f7577fd 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -1198,6 +1198,7 @@ impl<'a> Parser<'a> {
                     if let Some((Token::Newline, _)) = self.peek_comments()? {
                         self.bump();
                         self.comments.block_comment(comment);
+                        self.comments.flush();
                     } else {
                         return self.peek_skip_comments();
                     }
-- 
2.43.0


From 62840a055fb39d0e7a4b0fc55222b3fd4c061545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 02/19] fix: keep blank lines in block comments

---
 protox-parse/src/lex/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index b9eb3df..9a17e0a 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -398,7 +398,9 @@ fn block_comment<'a>(lex: &mut Lexer<'a, Token<'a>>) -> Cow<'a, str> {
             }
             Some(Ok(Component::Newline)) => {
                 cow_push_str(&mut result, "\n");
-                let stripped = comment_lexer.remainder().trim_start();
+                let stripped = comment_lexer
+                    .remainder()
+                    .trim_start_matches(['\t', '\x0b', '\x0c', '\r', ' ']);
                 comment_lexer.bump(comment_lexer.remainder().len() - stripped.len());
                 if stripped.starts_with('*') && !stripped.starts_with("*/") {
                     comment_lexer.bump(1);
-- 
2.43.0


From a2cf642c091a7a6a81c25391323bbf7198dc2274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 03/19] fix: accept options after a single-number extension
 range

---
 protox-parse/src/parse/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index f7577fd..c230bfc 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -846,7 +846,9 @@ impl<'a> Parser<'a> {
                     _ => self.unexpected_token("an integer or 'max'")?,
                 }
             }
-            Some((Token::Comma | Token::Semicolon, _)) => ast::ReservedRangeEnd::None,
+            Some((Token::Comma | Token::Semicolon | Token::LeftBracket, _)) => {
+                ast::ReservedRangeEnd::None
+            }
             _ => self.unexpected_token("'to', ',' or ';'")?,
         };
 
-- 
2.43.0


From 06d37c977e9475d0a23761ec8570c3a09634dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 04/19] fix: accept reserved names that start with an
 underscore

---
 protox-parse/src/case.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protox-parse/src/case.rs b/protox-parse/src/case.rs
index 97f9302..2d5fbfe 100644
--- a/protox-parse/src/case.rs
+++ b/protox-parse/src/case.rs
@@ -1,6 +1,6 @@
 pub(crate) fn is_valid_ident(s: &str) -> bool {
     !s.is_empty()
-        && s.as_bytes()[0].is_ascii_alphabetic()
+        && (s.as_bytes()[0].is_ascii_alphabetic() || s.as_bytes()[0] == b'_')
         && s.as_bytes()[1..]
             .iter()
             .all(|&ch| ch.is_ascii_alphanumeric() || ch == b'_')
-- 
2.43.0


From 20a4825ab99857a32013ca1b40017bb76789a066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 05/19] fix: take an rpc's trailing comment from after its
 opening brace

---
 protox-parse/src/parse/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index c230bfc..0ecadf0 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -556,14 +556,15 @@ impl<'a> Parser<'a> {
         self.expect_eq(Token::RightParen)?;
 
         let mut options = Vec::new();
-        let end = match self.peek_skip_comments()? {
+        let (end, comments) = match self.peek_skip_comments()? {
             Some((Token::Semicolon, span)) => {
                 self.bump();
-                span
+                (span, self.parse_trailing_comment(leading_comments))
             }
             Some((Token::LeftBrace, _)) => {
                 self.bump();
-                loop {
+                let comments = self.parse_trailing_comment(leading_comments);
+                let end = loop {
                     match self.peek()? {
                         Some((Token::OPTION, _)) => {
                             options.push(self.parse_option()?);
@@ -575,13 +576,12 @@ impl<'a> Parser<'a> {
                         }
                         _ => self.unexpected_token("'option', '}' or ';'")?,
                     }
-                }
+                };
+                (end, comments)
             }
             _ => self.unexpected_token("';' or '{'")?,
         };
 
-        let comments = self.parse_trailing_comment(leading_comments);
-
         Ok(ast::Method {
             name,
             input_ty,
-- 
2.43.0


From c55d398b35b6eece8ed4a1d19f496bb6965eb0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 06/19] fix: accept a message or enum called 'map' as a field
 type

---
 protox-parse/src/parse/mod.rs | 43 +++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index 0ecadf0..c640526 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -325,9 +325,30 @@ impl<'a> Parser<'a> {
         };
 
         match self.peek()? {
-            Some((Token::MAP, _)) => self.parse_map(leading_comments, start, label),
+            Some((Token::MAP, ty_start)) => {
+                self.bump();
+                match self.peek_skip_comments()? {
+                    // A message or enum may itself be called 'map'
+                    Some((Token::Dot | Token::Ident(_), _)) => {
+                        let name = self.parse_full_ident_from(
+                            ast::Ident::new("map", ty_start),
+                            &[ExpectedToken::Ident],
+                        )?;
+                        let ty_span = name.span();
+                        let ty = ast::Ty::Named(ast::TypeName {
+                            name,
+                            leading_dot: None,
+                        });
+                        self.parse_normal_field(leading_comments, start, label, ty, ty_span)
+                    }
+                    _ => self.parse_map(leading_comments, start, label, ty_start),
+                }
+            }
             Some((Token::GROUP, _)) => self.parse_group(leading_comments, start, label),
-            _ => self.parse_normal_field(leading_comments, start, label),
+            _ => {
+                let (ty, ty_span) = self.parse_field_type(&[ExpectedToken::Ident])?;
+                self.parse_normal_field(leading_comments, start, label, ty, ty_span)
+            }
         }
     }
 
@@ -336,9 +357,8 @@ impl<'a> Parser<'a> {
         leading_comments: (Vec<String>, Option<String>),
         start: Span,
         label: Option<(ast::FieldLabel, Span)>,
+        ty_start: Span,
     ) -> Result<ast::Field, ()> {
-        let ty_start = self.expect_eq(Token::MAP)?;
-
         self.expect_eq(Token::LeftAngleBracket)?;
         let (key_ty, key_ty_span) = self.parse_field_type(&[ExpectedToken::COMMA])?;
         self.expect_eq(Token::Comma)?;
@@ -425,9 +445,9 @@ impl<'a> Parser<'a> {
         leading_comments: (Vec<String>, Option<String>),
         start: Span,
         label: Option<(ast::FieldLabel, Span)>,
+        ty: ast::Ty,
+        ty_span: Span,
     ) -> Result<ast::Field, ()> {
-        let (ty, ty_span) = self.parse_field_type(&[ExpectedToken::Ident])?;
-
         let name = self.parse_ident()?;
 
         self.expect_eq(Token::Equals)?;
@@ -1023,7 +1043,16 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_full_ident(&mut self, terminators: &[ExpectedToken]) -> Result<ast::FullIdent, ()> {
-        let mut result = vec![self.parse_ident()?];
+        let first = self.parse_ident()?;
+        self.parse_full_ident_from(first, terminators)
+    }
+
+    fn parse_full_ident_from(
+        &mut self,
+        first: ast::Ident,
+        terminators: &[ExpectedToken],
+    ) -> Result<ast::FullIdent, ()> {
+        let mut result = vec![first];
 
         loop {
             match self.peek_skip_comments()? {
-- 
2.43.0


From 4de83626c67366054e444324be1c3b4fb2ac9d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 07/19] fix: limit the nesting of messages and groups, as
 protoc does

---
 protox-parse/src/error.rs     |  6 ++++++
 protox-parse/src/parse/mod.rs | 27 +++++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/protox-parse/src/error.rs b/protox-parse/src/error.rs
index d7ca868..796ca8d 100644
--- a/protox-parse/src/error.rs
+++ b/protox-parse/src/error.rs
@@ -210,6 +210,11 @@ pub(crate) enum ParseErrorKind {
         #[label("defined here")]
         span: Span,
     },
+    #[error("messages are nested too deeply")]
+    MessageNestingTooDeep {
+        #[label("defined here")]
+        span: Span,
+    },
     #[error("file is too large")]
     #[diagnostic(help("the maximum file length is 2,147,483,647 bytes"))]
     FileTooLarge,
@@ -274,6 +279,7 @@ impl ParseError {
             ParseErrorKind::ValueInvalidType { span, .. } => Some(span.clone()),
             ParseErrorKind::IntegerValueOutOfRange { span, .. } => Some(span.clone()),
             ParseErrorKind::EmptyOneof { span } => Some(span.clone()),
+            ParseErrorKind::MessageNestingTooDeep { span } => Some(span.clone()),
             ParseErrorKind::FileTooLarge => None,
         }
     }
diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index c640526..596772a 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -27,10 +27,15 @@ pub(crate) fn parse_file(source: &str) -> Result<ast::File, Vec<ParseErrorKind>>
     }
 }
 
+/// The maximum number of levels of nested messages and groups, as in protoc. Message bodies are
+/// parsed recursively, so without a limit a malicious file could overflow the stack.
+const MAX_MESSAGE_NESTING: u32 = 31;
+
 struct Parser<'a> {
     lexer: Lexer<'a, Token<'a>>,
     peek: Option<Result<(Token<'a>, Span), ()>>,
     comments: Comments,
+    message_nesting: u32,
 }
 
 #[derive(Debug, Clone)]
@@ -56,6 +61,7 @@ impl<'a> Parser<'a> {
             lexer: Token::lexer(source),
             comments: Comments::new(),
             peek: None,
+            message_nesting: 0,
         }
     }
 
@@ -250,7 +256,7 @@ impl<'a> Parser<'a> {
         self.expect_eq(Token::LeftBrace)?;
         let comments = self.parse_trailing_comment(leading_comments);
 
-        let (body, end) = self.parse_message_body()?;
+        let (body, end) = self.parse_nested_message_body(&name)?;
 
         Ok(ast::Message {
             name,
@@ -260,6 +266,23 @@ impl<'a> Parser<'a> {
         })
     }
 
+    fn parse_nested_message_body(
+        &mut self,
+        name: &ast::Ident,
+    ) -> Result<(ast::MessageBody, Span), ()> {
+        if self.message_nesting >= MAX_MESSAGE_NESTING {
+            self.add_error(ParseErrorKind::MessageNestingTooDeep {
+                span: name.span.clone(),
+            });
+            return Err(());
+        }
+
+        self.message_nesting += 1;
+        let result = self.parse_message_body();
+        self.message_nesting -= 1;
+        result
+    }
+
     fn parse_message_body(&mut self) -> Result<(ast::MessageBody, Span), ()> {
         let mut items = Vec::new();
         let mut options = Vec::new();
@@ -427,7 +450,7 @@ impl<'a> Parser<'a> {
 
         let comments = self.parse_trailing_comment(leading_comments);
 
-        let (body, end) = self.parse_message_body()?;
+        let (body, end) = self.parse_nested_message_body(&name)?;
 
         Ok(ast::Field {
             label,
-- 
2.43.0


From c6b7e276a5b0e8d2b6067bd30c8c8f5eae65cbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 08/19] fix: locate imports after non-ASCII text or across
 lines in import errors

---
 protox/src/error.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/protox/src/error.rs b/protox/src/error.rs
index 4ffad63..45ad10f 100644
--- a/protox/src/error.rs
+++ b/protox/src/error.rs
@@ -1,6 +1,6 @@
 use std::{fmt, io, path::PathBuf};
 
-use miette::{Diagnostic, NamedSource, SourceCode, SourceOffset, SourceSpan};
+use miette::{Diagnostic, NamedSource, SourceCode, SourceSpan};
 use prost_reflect::DescriptorError;
 use protox_parse::ParseError;
 use thiserror::Error;
@@ -178,16 +178,16 @@ fn find_import_span(file: &File, import_idx: usize) -> Option<SourceSpan> {
         if let Some(source) = file.source() {
             for location in &sci.location {
                 if location.path == [3, import_idx as i32] {
-                    if location.span.len() != 3 {
-                        continue;
-                    }
-                    let start_line = location.span[0] as usize + 1;
-                    let start_col = location.span[1] as usize + 1;
-                    let end_col = location.span[2] as usize + 1;
-                    return Some(SourceSpan::new(
-                        SourceOffset::from_location(source, start_line, start_col),
-                        end_col - start_col,
-                    ));
+                    let (start, end) = match *location.span {
+                        [line, start, end] => ((line, start), (line, end)),
+                        [start_line, start, end_line, end] => {
+                            ((start_line, start), (end_line, end))
+                        }
+                        _ => continue,
+                    };
+                    let start = location_offset(source, start);
+                    let end = location_offset(source, end);
+                    return Some(SourceSpan::from(start..end));
                 }
             }
         }
@@ -195,6 +195,16 @@ fn find_import_span(file: &File, import_idx: usize) -> Option<SourceSpan> {
     None
 }
 
+/// Converts a zero-based line number and byte column to an offset in the source.
+fn location_offset(source: &str, (line, col): (i32, i32)) -> usize {
+    let line_start: usize = source
+        .split_inclusive('\n')
+        .take(line as usize)
+        .map(str::len)
+        .sum();
+    line_start + col as usize
+}
+
 impl From<DescriptorError> for Error {
     fn from(err: DescriptorError) -> Self {
         Error::from_kind(ErrorKind::Check { err })
-- 
2.43.0


From a5a578fc793b126760a622f7ca5337cb93d4be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 09/19] fix: call an invalid import path that, not a group name

---
 protox-parse/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protox-parse/src/error.rs b/protox-parse/src/error.rs
index 796ca8d..5c48fe7 100644
--- a/protox-parse/src/error.rs
+++ b/protox-parse/src/error.rs
@@ -76,7 +76,7 @@ pub(crate) enum ParseErrorKind {
         #[label("defined here")]
         span: Span,
     },
-    #[error("invalid group name")]
+    #[error("invalid import path")]
     #[diagnostic(help(
         "imports may not contain backslashes, repeated forward slashes, '.' or '..' components"
     ))]
-- 
2.43.0


From 6c51f0679f1fb5f3cd11f7669fad95e7fcf83387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 10/19] fix: ignore a byte order mark at the start of a file

---
 protox-parse/src/parse/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index 596772a..296f483 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -31,10 +31,14 @@ pub(crate) fn parse_file(source: &str) -> Result<ast::File, Vec<ParseErrorKind>>
 /// parsed recursively, so without a limit a malicious file could overflow the stack.
 const MAX_MESSAGE_NESTING: u32 = 31;
 
+const BYTE_ORDER_MARK: char = '\u{feff}';
+
 struct Parser<'a> {
     lexer: Lexer<'a, Token<'a>>,
     peek: Option<Result<(Token<'a>, Span), ()>>,
     comments: Comments,
+    /// The offset of the start of the file, after any byte order mark.
+    start: usize,
     message_nesting: u32,
 }
 
@@ -57,8 +61,15 @@ enum Statement {
 
 impl<'a> Parser<'a> {
     fn new(source: &'a str) -> Self {
+        let mut lexer = Token::lexer(source);
+        // Like protoc, ignore a byte order mark at the start of the file
+        if source.starts_with(BYTE_ORDER_MARK) {
+            lexer.bump(BYTE_ORDER_MARK.len_utf8());
+        }
+
         Parser {
-            lexer: Token::lexer(source),
+            start: lexer.span().end,
+            lexer,
             comments: Comments::new(),
             peek: None,
             message_nesting: 0,
@@ -1240,7 +1251,7 @@ impl<'a> Parser<'a> {
     }
 
     fn peek(&mut self) -> Result<Option<(Token<'a>, Span)>, ()> {
-        if self.lexer.span() != Span::default() {
+        if self.lexer.span().end != self.start {
             match self.peek_comments()? {
                 Some((Token::LineComment(comment), _)) => {
                     self.bump();
-- 
2.43.0


From c163640941adce058456bf496e71b40ec801b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 11/19] fix: keep the names of synthetic oneofs distinct from
 those of fields and oneofs

---
 protox-parse/src/generate/mod.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/protox-parse/src/generate/mod.rs b/protox-parse/src/generate/mod.rs
index 6298bee..09d912c 100644
--- a/protox-parse/src/generate/mod.rs
+++ b/protox-parse/src/generate/mod.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use logos::Span;
 use prost_types::{
     descriptor_proto, enum_descriptor_proto, field_descriptor_proto, source_code_info::Location,
@@ -258,6 +260,24 @@ impl Context {
             }
         }
 
+        // Synthetic oneofs must not have the same name as a field or another oneof
+        let mut names: HashSet<_> = field
+            .iter()
+            .map(|field| field.name().to_owned())
+            .chain(
+                oneof_decl[..real_oneof_count]
+                    .iter()
+                    .map(|oneof| oneof.name().to_owned()),
+            )
+            .collect();
+        for oneof in &mut oneof_decl[real_oneof_count..] {
+            let mut name = oneof.name().to_owned();
+            while !names.insert(name.clone()) {
+                name.insert(0, 'X');
+            }
+            oneof.name = Some(name);
+        }
+
         let is_message_set = match ast
             .options
             .iter()
-- 
2.43.0


From 3b36abc5c962e3549ab9e320f5179b78efc2a6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 12/19] fix: require whitespace between a zero and an
 identifier

---
 protox-parse/src/lex/mod.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index 9a17e0a..a54666b 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -3,7 +3,7 @@ mod tests;
 
 use std::{ascii, borrow::Cow, convert::TryInto, fmt, num::IntErrorKind};
 
-use logos::{Lexer, Logos};
+use logos::{Lexer, Logos, Span};
 
 use super::error::ParseErrorKind;
 
@@ -14,7 +14,7 @@ use super::error::ParseErrorKind;
 pub(crate) enum Token<'a> {
     #[regex("[A-Za-z_][A-Za-z0-9_]*")]
     Ident(&'a str),
-    #[regex("0", |_| 0)]
+    #[regex("0", zero)]
     #[regex("0[0-7]+", |lex| int(lex, 8, 1))]
     #[regex("[1-9][0-9]*", |lex| int(lex, 10, 0))]
     #[regex("0[xX][0-9A-Fa-f]+", |lex| int(lex, 16, 2))]
@@ -169,21 +169,16 @@ pub(crate) struct TokenExtras {
     pub text_format_mode: bool,
 }
 
+fn zero<'a>(lex: &mut Lexer<'a, Token<'a>>) -> u64 {
+    check_space_after_int(lex, lex.span());
+    0
+}
+
 fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Result<u64, ()> {
     debug_assert!(lex.slice().len() > prefix_len);
     let span = lex.span().start + prefix_len..lex.span().end;
 
-    if matches!(lex.remainder().chars().next(), Some(ch) if ch.is_ascii_alphabetic() || ch == '_') {
-        let mut end = span.end + 1;
-        while end < lex.source().len() && lex.source().as_bytes()[end].is_ascii_alphabetic() {
-            end += 1;
-        }
-        lex.extras
-            .errors
-            .push(ParseErrorKind::NoSpaceBetweenIntAndIdent {
-                span: span.start..end,
-            })
-    }
+    check_space_after_int(lex, span.clone());
 
     match u64::from_str_radix(&lex.source()[span.clone()], radix) {
         Ok(value) => Ok(value),
@@ -197,6 +192,20 @@ fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Res
     }
 }
 
+fn check_space_after_int<'a>(lex: &mut Lexer<'a, Token<'a>>, span: Span) {
+    if matches!(lex.remainder().chars().next(), Some(ch) if ch.is_ascii_alphabetic() || ch == '_') {
+        let mut end = span.end + 1;
+        while end < lex.source().len() && lex.source().as_bytes()[end].is_ascii_alphabetic() {
+            end += 1;
+        }
+        lex.extras
+            .errors
+            .push(ParseErrorKind::NoSpaceBetweenIntAndIdent {
+                span: span.start..end,
+            })
+    }
+}
+
 fn float<'a>(lex: &mut Lexer<'a, Token<'a>>) -> EqFloat {
     let start = lex.span().start;
     let last = lex.span().end - 1;
-- 
2.43.0


From 81a71335163472a5863cd0f54cbe3efdf896a2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 13/19] fix: reject integers with a leading zero that are not
 octal

---
 protox-parse/src/error.rs   |  7 +++++++
 protox-parse/src/lex/mod.rs | 13 ++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/protox-parse/src/error.rs b/protox-parse/src/error.rs
index 5c48fe7..5f2c0f3 100644
--- a/protox-parse/src/error.rs
+++ b/protox-parse/src/error.rs
@@ -30,6 +30,12 @@ pub(crate) enum ParseErrorKind {
         #[label("integer defined here")]
         span: Span,
     },
+    #[error("invalid octal integer")]
+    #[diagnostic(help("integers starting with a zero may only contain the digits 0 to 7"))]
+    InvalidOctalInteger {
+        #[label("integer defined here")]
+        span: Span,
+    },
     #[error("invalid string character")]
     InvalidStringCharacters {
         #[label("invalid characters")]
@@ -247,6 +253,7 @@ impl ParseError {
         match &*self.kind {
             ParseErrorKind::InvalidToken { span } => Some(span.clone()),
             ParseErrorKind::IntegerOutOfRange { span } => Some(span.clone()),
+            ParseErrorKind::InvalidOctalInteger { span } => Some(span.clone()),
             ParseErrorKind::InvalidStringCharacters { span } => Some(span.clone()),
             ParseErrorKind::UnterminatedString { span } => Some(span.clone()),
             ParseErrorKind::InvalidStringEscape { span } => Some(span.clone()),
diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index a54666b..669861b 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -15,7 +15,7 @@ pub(crate) enum Token<'a> {
     #[regex("[A-Za-z_][A-Za-z0-9_]*")]
     Ident(&'a str),
     #[regex("0", zero)]
-    #[regex("0[0-7]+", |lex| int(lex, 8, 1))]
+    #[regex("0[0-9]+", |lex| int(lex, 8, 1))]
     #[regex("[1-9][0-9]*", |lex| int(lex, 10, 0))]
     #[regex("0[xX][0-9A-Fa-f]+", |lex| int(lex, 16, 2))]
     IntLiteral(u64),
@@ -183,10 +183,13 @@ fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Res
     match u64::from_str_radix(&lex.source()[span.clone()], radix) {
         Ok(value) => Ok(value),
         Err(err) => {
-            debug_assert_eq!(err.kind(), &IntErrorKind::PosOverflow);
-            lex.extras
-                .errors
-                .push(ParseErrorKind::IntegerOutOfRange { span });
+            lex.extras.errors.push(match err.kind() {
+                IntErrorKind::InvalidDigit => ParseErrorKind::InvalidOctalInteger { span },
+                kind => {
+                    debug_assert_eq!(kind, &IntErrorKind::PosOverflow);
+                    ParseErrorKind::IntegerOutOfRange { span }
+                }
+            });
             Ok(Default::default())
         }
     }
-- 
2.43.0


From a189e75f06a1dfda5bdf7cd61712f6c480b21f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 14/19] fix: a path through a regular file leads to no file, so
 go on with the next include

---
 protox/src/file/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/protox/src/file/mod.rs b/protox/src/file/mod.rs
index f8bd0a5..1174e90 100644
--- a/protox/src/file/mod.rs
+++ b/protox/src/file/mod.rs
@@ -123,6 +123,8 @@ impl File {
                 io::ErrorKind::InvalidData => Error::from_kind(ErrorKind::FileInvalidUtf8 {
                     name: name.to_owned(),
                 }),
+                // A path through something that is not a directory leads nowhere.
+                _ if path.ancestors().skip(1).any(Path::is_file) => Error::file_not_found(name),
                 _ => Error::from_kind(ErrorKind::OpenFile {
                     name: name.to_owned(),
                     path: path.to_owned(),
-- 
2.43.0


From d1ab807e6d3742010b608f94d87333a1a6f5cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 15/19] fix: report an unknown syntax in a descriptor instead
 of panicking

---
 protox/src/compile/mod.rs | 11 +++++++++++
 protox/src/error.rs       |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/protox/src/compile/mod.rs b/protox/src/compile/mod.rs
index 6df5edc..d4873b4 100644
--- a/protox/src/compile/mod.rs
+++ b/protox/src/compile/mod.rs
@@ -304,6 +304,17 @@ impl Compiler {
             encoded,
         }: File,
     ) -> Result<Option<PathBuf>, Error> {
+        // The pool panics on any other syntax, which only a ready-made descriptor can have.
+        if !matches!(
+            descriptor.syntax.as_deref(),
+            None | Some("proto2") | Some("proto3")
+        ) {
+            return Err(Error::from_kind(ErrorKind::UnknownSyntax {
+                name: descriptor.name().to_owned(),
+                syntax: descriptor.syntax().to_owned(),
+            }));
+        }
+
         if let Some(encoded) = &encoded {
             self.pool.decode_file_descriptor_proto(encoded.clone())
         } else {
diff --git a/protox/src/error.rs b/protox/src/error.rs
index 45ad10f..47c9dec 100644
--- a/protox/src/error.rs
+++ b/protox/src/error.rs
@@ -35,6 +35,8 @@ pub(crate) enum ErrorKind {
     FileTooLarge { name: String },
     #[error("file '{name}' is not valid utf-8")]
     FileInvalidUtf8 { name: String },
+    #[error("unknown syntax '{syntax}' in file '{name}'")]
+    UnknownSyntax { name: String, syntax: String },
     #[error("file '{name}' not found")]
     FileNotFound { name: String },
     #[error("import '{name}' not found")]
@@ -95,6 +97,7 @@ impl Error {
             ErrorKind::OpenFile { name, .. }
             | ErrorKind::FileTooLarge { name }
             | ErrorKind::FileInvalidUtf8 { name }
+            | ErrorKind::UnknownSyntax { name, .. }
             | ErrorKind::FileNotFound { name }
             | ErrorKind::CircularImport { name, .. }
             | ErrorKind::FileShadowed { name, .. } => Some(name),
@@ -231,6 +234,7 @@ impl fmt::Debug for Error {
             ErrorKind::OpenFile { err, .. } => write!(f, "{}: {}", self, err),
             ErrorKind::FileTooLarge { .. }
             | ErrorKind::FileInvalidUtf8 { .. }
+            | ErrorKind::UnknownSyntax { .. }
             | ErrorKind::FileNotFound { .. }
             | ErrorKind::CircularImport { .. }
             | ErrorKind::FileNotIncluded { .. }
-- 
2.43.0


From 53ae8781a6e683381909f098f750a922936257eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 16/19] fix: follow chains of imports without recursion, so
 that long ones do not overflow the stack

---
 protox/src/compile/mod.rs | 104 +++++++++++++++++++++++++++++---------
 1 file changed, 80 insertions(+), 24 deletions(-)

diff --git a/protox/src/compile/mod.rs b/protox/src/compile/mod.rs
index d4873b4..4fad306 100644
--- a/protox/src/compile/mod.rs
+++ b/protox/src/compile/mod.rs
@@ -16,6 +16,23 @@ use crate::{
 #[cfg(test)]
 mod tests;
 
+/// A file that was opened for an import, and how many of its own imports were added already.
+struct PendingImport {
+    file: File,
+    next_import: usize,
+    already_imported: HashSet<String>,
+}
+
+impl PendingImport {
+    fn new(file: File) -> Self {
+        PendingImport {
+            file,
+            next_import: 0,
+            already_imported: HashSet::new(),
+        }
+    }
+}
+
 /// Options for compiling protobuf files.
 ///
 /// # Examples
@@ -253,6 +270,67 @@ impl Compiler {
     }
 
     fn add_import(&mut self, file_name: &str, import_stack: &mut Vec<String>) -> Result<(), Error> {
+        // The files whose imports are being added, innermost last. A chain of imports can be
+        // too long for the call stack.
+        let mut pending: Vec<PendingImport> = Vec::new();
+        let mut next = Some(file_name.to_owned());
+
+        loop {
+            if let Some(name) = next.take() {
+                match self.open_import(&name, import_stack) {
+                    Ok(Some(file)) => {
+                        import_stack.push(name);
+                        pending.push(PendingImport::new(file));
+                    }
+                    Ok(None) => (),
+                    Err(err) => {
+                        return Err(match pending.last() {
+                            Some(importer) => {
+                                err.into_import_error(&importer.file, importer.next_import - 1)
+                            }
+                            None => err,
+                        })
+                    }
+                }
+            }
+
+            let current = match pending.last_mut() {
+                Some(current) => current,
+                None => return Ok(()),
+            };
+            let i = current.next_import;
+            if let Some(import) = current.file.descriptor.dependency.get(i) {
+                if !current.already_imported.insert(import.to_owned()) {
+                    return Err(Error::duplicated_import(
+                        import.to_owned(),
+                        &current.file,
+                        i,
+                    ));
+                }
+                next = Some(import.to_owned());
+                current.next_import += 1;
+            } else if let (Some(PendingImport { file, .. }), Some(name)) =
+                (pending.pop(), import_stack.pop())
+            {
+                let path = self.check_file(file)?;
+                self.files.insert(
+                    name.clone(),
+                    FileMetadata {
+                        name,
+                        path,
+                        is_import: true,
+                    },
+                );
+            }
+        }
+    }
+
+    /// Opens an imported file, unless it was added before.
+    fn open_import(
+        &self,
+        file_name: &str,
+        import_stack: &mut [String],
+    ) -> Result<Option<File>, Error> {
         if import_stack.iter().any(|name| name == file_name) {
             let mut cycle = String::new();
             for import in import_stack {
@@ -267,32 +345,10 @@ impl Compiler {
         }
 
         if self.files.contains_key(file_name) {
-            return Ok(());
+            return Ok(None);
         }
 
-        let file = self.resolver.open_file(file_name)?;
-
-        import_stack.push(file_name.to_owned());
-        let mut already_imported = HashSet::new();
-        for (i, import) in file.descriptor.dependency.iter().enumerate() {
-            if !already_imported.insert(import) {
-                return Err(Error::duplicated_import(import.to_owned(), &file, i));
-            }
-            self.add_import(import, import_stack)
-                .map_err(|e| e.into_import_error(&file, i))?;
-        }
-        import_stack.pop();
-
-        let path = self.check_file(file)?;
-        self.files.insert(
-            file_name.to_owned(),
-            FileMetadata {
-                name: file_name.to_owned(),
-                path,
-                is_import: true,
-            },
-        );
-        Ok(())
+        self.resolver.open_file(file_name).map(Some)
     }
 
     fn check_file(
-- 
2.43.0


From 338a7d3aa57b37985c5f980f7a185166aec666a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 17/19] fix: find import cycles without searching the whole
 chain for every import

---
 protox/src/compile/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/protox/src/compile/mod.rs b/protox/src/compile/mod.rs
index 4fad306..854fa21 100644
--- a/protox/src/compile/mod.rs
+++ b/protox/src/compile/mod.rs
@@ -274,11 +274,13 @@ impl Compiler {
         // too long for the call stack.
         let mut pending: Vec<PendingImport> = Vec::new();
         let mut next = Some(file_name.to_owned());
+        let mut importing: HashSet<String> = import_stack.iter().cloned().collect();
 
         loop {
             if let Some(name) = next.take() {
-                match self.open_import(&name, import_stack) {
+                match self.open_import(&name, import_stack, &importing) {
                     Ok(Some(file)) => {
+                        importing.insert(name.clone());
                         import_stack.push(name);
                         pending.push(PendingImport::new(file));
                     }
@@ -312,6 +314,7 @@ impl Compiler {
             } else if let (Some(PendingImport { file, .. }), Some(name)) =
                 (pending.pop(), import_stack.pop())
             {
+                importing.remove(&name);
                 let path = self.check_file(file)?;
                 self.files.insert(
                     name.clone(),
@@ -329,9 +332,10 @@ impl Compiler {
     fn open_import(
         &self,
         file_name: &str,
-        import_stack: &mut [String],
+        import_stack: &[String],
+        importing: &HashSet<String>,
     ) -> Result<Option<File>, Error> {
-        if import_stack.iter().any(|name| name == file_name) {
+        if importing.contains(file_name) {
             let mut cycle = String::new();
             for import in import_stack {
                 write!(&mut cycle, "{} -> ", import).unwrap();
-- 
2.43.0


From 2fb7d031bf43be81d0b3215173a8ba4991935df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 18/19] fix: give optional fields of one name one synthetic
 oneof, so that many of them do not take cubic time

---
 protox-parse/src/generate/mod.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/protox-parse/src/generate/mod.rs b/protox-parse/src/generate/mod.rs
index 09d912c..70172b1 100644
--- a/protox-parse/src/generate/mod.rs
+++ b/protox-parse/src/generate/mod.rs
@@ -1,4 +1,4 @@
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 
 use logos::Span;
 use prost_types::{
@@ -270,12 +270,21 @@ impl Context {
                     .map(|oneof| oneof.name().to_owned()),
             )
             .collect();
-        for oneof in &mut oneof_decl[real_oneof_count..] {
-            let mut name = oneof.name().to_owned();
-            while !names.insert(name.clone()) {
-                name.insert(0, 'X');
-            }
-            oneof.name = Some(name);
+        // Fields of the same name, which are an error in the end, share a name here
+        let mut chosen: HashMap<&str, String> = HashMap::new();
+        let optional_fields = field.iter().filter(|field| field.proto3_optional());
+        for (oneof, field) in oneof_decl[real_oneof_count..]
+            .iter_mut()
+            .zip(optional_fields)
+        {
+            let name = chosen.entry(field.name()).or_insert_with(|| {
+                let mut name = oneof.name().to_owned();
+                while !names.insert(name.clone()) {
+                    name.insert(0, 'X');
+                }
+                name
+            });
+            oneof.name = Some(name.clone());
         }
 
         let is_message_set = match ast
-- 
2.43.0


From 217a3c12c9554c6357d4c6f502975eb2724d9ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 19/19] fix: leave no extensions of a failed file behind in the
 compiler's pool

---
 protox/src/compile/mod.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/protox/src/compile/mod.rs b/protox/src/compile/mod.rs
index 854fa21..3300b9b 100644
--- a/protox/src/compile/mod.rs
+++ b/protox/src/compile/mod.rs
@@ -381,6 +381,8 @@ impl Compiler {
             self.pool.add_file_descriptor_proto(descriptor)
         }
         .map_err(|mut err| {
+            // The pool keeps extensions of a file that failed listed in the messages they extend.
+            self.rebuild_pool();
             if let Some(source) = source {
                 err = err.with_source_code(&source);
             }
@@ -389,6 +391,21 @@ impl Compiler {
 
         Ok(path)
     }
+
+    /// Replaces the pool with a new one that contains the same files.
+    fn rebuild_pool(&mut self) {
+        let mut pool = DescriptorPool::new();
+        for file in self.pool.files() {
+            if pool
+                .decode_file_descriptor_proto(file.encode_to_vec().as_slice())
+                .is_err()
+            {
+                // A malformed descriptor may be accepted once and not again; keep the pool as it is.
+                return;
+            }
+        }
+        self.pool = pool;
+    }
 }
 
 impl fmt::Debug for Compiler {
-- 
2.43.0

