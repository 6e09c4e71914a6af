From eb8951f0632e3e37651c8238285d60b29b1795dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 1/9] fix: locate errors in sources with non-ASCII text

The line lookup compared a byte offset with accumulated display widths, so
any multi-byte (or zero-width, e.g. tab) character before the error shifted
the reported line and column, or pointed past the end of the template.
---
 src/error.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index e6767f2..3fdce5a 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -278,9 +278,9 @@ impl Pretty {
 fn to_ln_col(lines: &[&str], offset: usize) -> (usize, usize) {
     let mut n = 0;
     for (i, line) in lines.iter().enumerate() {
-        let len = display_width(line) + 1;
+        let len = line.len() + 1;
         if n + len > offset {
-            return (i, offset - n);
+            return (i, display_width(&line[..offset - n]));
         }
         n += len;
     }
@@ -292,7 +292,10 @@ fn to_ln_col(lines: &[&str], offset: usize) -> (usize, usize) {
 
 #[cfg(feature = "unicode")]
 fn display_width(s: &str) -> usize {
-    unicode_width::UnicodeWidthStr::width(s)
+    // Control characters (like tabs) have no defined width, count them as one.
+    s.chars()
+        .map(|c| unicode_width::UnicodeWidthChar::width(c).unwrap_or(1))
+        .sum()
 }
 
 #[cfg(not(feature = "unicode"))]
-- 
2.43.0


From 5d6fd451a1160fb2b708f71bd43c1ee2df403f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 2/9] fix: optional access on a loop variable must yield none

A missing optional member (`item?.field`) of a loop variable was reported as
"not found in this scope", or resolved to an unrelated variable of the same
name in an outer scope.
---
 src/render/iter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/render/iter.rs b/src/render/iter.rs
index 8d1c410..28e06b1 100644
--- a/src/render/iter.rs
+++ b/src/render/iter.rs
@@ -165,7 +165,10 @@ impl<'a> LoopState<'a> {
                 for m in var.rest() {
                     v = match lookup(source, v, m)? {
                         Some(v) => v,
-                        None => return Ok(None),
+                        // The loop variable exists but the optional member
+                        // does not, so this must not fall through to an
+                        // outer scope.
+                        None => return Ok(Some(ValueCow::Borrowed(&Value::None))),
                     };
                 }
                 v
-- 
2.43.0


From b793bb0bad05f6a3baf71b499869254f591c3406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 3/9] fix: string literals ending in an escaped backslash

The closing quote of `"a\\\\"` was taken for an escaped quote.
---
 src/compile/lex.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index b075b46..3972bf3 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -367,7 +367,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
     where
         I: Iterator<Item = (usize, char)> + Clone,
     {
-        let mut curr = '"';
+        let mut escaped = false;
         loop {
             match iter.next() {
                 None => {
@@ -376,11 +376,11 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
                 Some((j, '\r' | '\n')) => {
                     return Err(self.err_undelimited_string(i..j));
                 }
-                Some((j, '"')) if curr != '\\' => {
+                Some((j, '"')) if !escaped => {
                     return Ok((Token::String, j + 1));
                 }
                 Some((_, c)) => {
-                    curr = c;
+                    escaped = !escaped && c == '\\';
                 }
             }
         }
-- 
2.43.0


From fe03469852f628a6b9fb372276c284e1ad0a8944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 4/9] fix: trimming must not eat into the preceding tag

With an end delimiter that ends in whitespace (e.g. a newline for line
statements), trimming the raw text between two tags went past the start of
that text, which panicked when compiling or rendering the template.
---
 src/compile/lex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index 3972bf3..f3c1a8c 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -171,9 +171,9 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
         //    ^   ^ ^
         //    i   j k
 
-        let mut trim_raw_token = |mut i, mut j, right_trim| {
+        let mut trim_raw_token = |mut i: usize, mut j, right_trim| {
             if right_trim {
-                j = self.source[..j].trim_end().len();
+                j = i + self.source[i..j].trim_end().len();
             }
             if self.left_trim {
                 self.left_trim = false;
-- 
2.43.0


From 2616534526f61090e63db04967621417144c9ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 5/9] fix: number literals after a keyword following a path

In `{% for x in 3 | range %}` the literal was lexed as a path index because
the loop variable had put the lexer in the path state.
---
 src/compile/lex.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index f3c1a8c..8a400d2 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -292,7 +292,10 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
             (BlockState::Unknown, Token::Ident) => {
                 self.state = State::BlockPath { begin, end };
             }
-            (BlockState::Path, Token::Pipe | Token::Comma | Token::Colon) => {
+            (
+                BlockState::Path,
+                Token::Keyword | Token::Pipe | Token::Comma | Token::Colon,
+            ) => {
                 self.state = State::Block { begin, end };
             }
             _ => {}
-- 
2.43.0


From f6f402dba8f7614acc34001f6a08be1b422c406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 6/9] fix: accept empty comments

`{##}` was rejected with "expected raw template, found end comment".
---
 src/compile/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compile/parse.rs b/src/compile/parse.rs
index 363e24d..f7faead 100644
--- a/src/compile/parse.rs
+++ b/src/compile/parse.rs
@@ -117,7 +117,10 @@ impl<'engine, 'source> Parser<'engine, 'source> {
 
                 // The start of a comment, e.g. `{# ... #}`
                 (Token::BeginComment, _) => {
-                    self.expect(Token::Raw)?;
+                    // An empty comment has no raw template in it.
+                    if self.is_next(Token::Raw)? {
+                        self.expect(Token::Raw)?;
+                    }
                     self.expect(Token::EndComment)?;
                     continue;
                 }
-- 
2.43.0


From a90b36e701357ea255a187faa93dcfad448b2f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 7/9] fix: with-bindings must keep their name across an include

The name of a {% with %} variable was kept as a span and compared
against the source of whichever template is rendering, so inside an
included template the wrong variable was found or slicing panicked.
---
 src/render/core.rs  | 2 +-
 src/render/stack.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/render/core.rs b/src/render/core.rs
index 91da89e..46f853e 100644
--- a/src/render/core.rs
+++ b/src/render/core.rs
@@ -192,7 +192,7 @@ where
 
                 Instr::WithStart(name) => {
                     let value = expr.take().unwrap();
-                    self.stack.push(State::Var(name, value))
+                    self.stack.push(State::Var(&t.source[name.span], value))
                 }
 
                 Instr::WithEnd => {
diff --git a/src/render/stack.rs b/src/render/stack.rs
index b5f8ec1..8034f9b 100644
--- a/src/render/stack.rs
+++ b/src/render/stack.rs
@@ -17,7 +17,7 @@ pub enum State<'a> {
     Scope(ValueCow<'a>),
 
     /// A single variable.
-    Var(&'a ast::Ident, ValueCow<'a>),
+    Var(&'a str, ValueCow<'a>),
 
     /// The current state of a loop iteration
     Loop(LoopState<'a>),
@@ -82,7 +82,7 @@ impl<'a> Stack<'a> {
                     None => continue,
                 },
 
-                State::Var(name, var) if source[v.first().access.span()] == source[name.span] => {
+                State::Var(name, var) if source[v.first().access.span()] == **name => {
                     return lookup_path(source, var, v.rest());
                 }
 
@@ -125,7 +125,7 @@ impl<'a> Stack<'a> {
         }
     }
 
-    pub fn pop_var(&mut self) -> (&'a ast::Ident, ValueCow<'a>) {
+    pub fn pop_var(&mut self) -> (&'a str, ValueCow<'a>) {
         match self.stack.pop().unwrap() {
             State::Var(name, value) => (name, value),
             _ => panic!("expected variable"),
-- 
2.43.0


From 5c6edf7f6e0a02381fcf1df1fa4a52aa257f9439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:01 +0000
Subject: [PATCH 8/9] fix: point at the invalid digit of a signed number

---
 src/compile/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compile/parse.rs b/src/compile/parse.rs
index f7faead..3f82dc6 100644
--- a/src/compile/parse.rs
+++ b/src/compile/parse.rs
@@ -685,7 +685,8 @@ impl<'engine, 'source> Parser<'engine, 'source> {
             .filter(|(_, &d)| d != b'_')
             .try_fold(0i64, |acc, (j, &d)| {
                 let x = (d as char).to_digit(radix).ok_or_else(|| {
-                    let m = span.m + i + j;
+                    // The span also covers the sign, if there is one.
+                    let m = span.n - digits.len() + i + j;
                     Error::syntax(
                         format!("invalid digit for base {radix} literal"),
                         self.source(),
-- 
2.43.0


From bb6c581264f6d3246e7efc84d5e39ae56fa1d354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:01 +0000
Subject: [PATCH 9/9] fix: locate errors at the end of text ending in a newline

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 3fdce5a..1a13c26 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -229,7 +229,7 @@ struct Pretty {
 
 impl Pretty {
     fn build(source: &str, span: Span) -> Self {
-        let lines: Vec<_> = source.split_terminator('\n').collect();
+        let lines: Vec<_> = source.split('\n').collect();
         let (ln, col) = to_ln_col(&lines, span.m);
         let width = max(1, display_width(&source[span]));
         let text = lines
-- 
2.43.0

