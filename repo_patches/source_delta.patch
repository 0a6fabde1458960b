From 2e7a5a9f45db11b8c8bdbcd7fb9f0cff717b99bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 01/56] fix: report unterminated quoted strings instead of
 looping forever

---
 src/parser/base/grammar.rs |  2 ++
 src/parser/mod.rs          | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index e056d6b..dad9519 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -118,6 +118,8 @@ impl Parser<'_> {
                     v.push('\\');
                 } else if p.sym(sym).is_ok() {
                     break;
+                } else {
+                    return p.err("quoted string terminator");
                 }
             }
             Ok(v)
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index de580ea..62e83a3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -18,6 +18,10 @@
 //! + checked version: Version directive `%YAML 1.2` is used again.
 //! + version: Version directive is wrong, must be `1.2`.
 //!
+//! ## Scalar
+//!
+//! + quoted string terminator: The closing quote of the string is missing.
+//!
 //! ## Structure
 //!
 //! ### Flow Array
@@ -280,9 +284,9 @@ impl<R: Repr> Loader<'_, R> {
             } else {
                 return self.err("anchor referenced before definition");
             }
-        } else if let Ok(s) = self.string_quoted(b'\'', b"''") {
+        } else if let Some(s) = self.quoted(b'\'', b"''")? {
             R::new_rc(Yaml::Str(s))
-        } else if let Ok(s) = self.string_quoted(b'"', b"\\\"") {
+        } else if let Some(s) = self.quoted(b'"', b"\\\"")? {
             R::new_rc(Yaml::Str(Parser::escape(&s)))
         } else if let Ok(s) = self.string_plain(level, flow) {
             R::new_rc(match s.as_str() {
@@ -302,6 +306,13 @@ impl<R: Repr> Loader<'_, R> {
         Ok(yaml)
     }
 
+    /// Match quoted string if any, an unterminated string is an error.
+    fn quoted(&mut self, sym: u8, ignore: &[u8]) -> PResult<Option<String>> {
+        self.string_quoted(sym, ignore)
+            .map(Some)
+            .or_else(|e| e.or(|| Ok(None)))
+    }
+
     /// Match flow sequence.
     pub fn seq_flow(&mut self, level: usize) -> PResult<R::Rc> {
         self.sym(b'[')?;
-- 
2.43.0


From df8b332f90a55774c45fa4c44d2f70e53e7ccd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 02/56] fix: report undefined tag handles instead of panicking

---
 src/parser/base/grammar.rs | 5 ++++-
 src/parser/mod.rs          | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index dad9519..9d05efd 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -297,7 +297,10 @@ impl Parser<'_> {
             let prefix = if !tag.is_empty() {
                 if p.sym(b'!').is_ok() {
                     // Tag prefix variable
-                    p.tag[&tag].clone()
+                    match p.tag.get(&tag) {
+                        Some(prefix) => prefix.clone(),
+                        None => return p.err("undefined tag handle"),
+                    }
                 } else {
                     String::new()
                 }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 62e83a3..85a130b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -17,6 +17,7 @@
 //! + document splitter: Error about the document splitter `---` / `...`.
 //! + checked version: Version directive `%YAML 1.2` is used again.
 //! + version: Version directive is wrong, must be `1.2`.
+//! + undefined tag handle: Named tag handle has no `%TAG` directive.
 //!
 //! ## Scalar
 //!
@@ -238,7 +239,7 @@ impl<R: Repr> Loader<'_, R> {
             self.bound()?;
         }
         self.forward();
-        let tag = self.tag().unwrap_or_default();
+        let tag = self.tag().or_else(|e| e.or(|| Ok(String::new())))?;
         if !tag.is_empty() {
             self.bound()?;
         }
-- 
2.43.0


From b534d3fc05045e25ff28f7a65015433f28f4777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 03/56] fix: stop plain strings from looping forever on
 zero-width indentation

---
 src/parser/base/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 9d05efd..8d5ae75 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -158,7 +158,7 @@ impl Parser<'_> {
                 } else if !inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok() {
                     v.push_str(&p.text());
                     is_leading = false;
-                } else if p.ind(level).is_err() {
+                } else if p.count(|p| p.ind(level)).unwrap_or_default() == 0 {
                     if let Ok(t) = p.gap(true) {
                         if t == 1 {
                             v.push(' ');
-- 
2.43.0


From 9044a7c383532fab8613e558c8777d9f9960769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 04/56] fix: do not nest the next sibling key under a key
 without a value

---
 src/parser/base/grammar.rs | 15 +++++++++++++++
 src/parser/mod.rs          |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 8d5ae75..7148bb2 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -158,6 +158,9 @@ impl Parser<'_> {
                 } else if !inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok() {
                     v.push_str(&p.text());
                     is_leading = false;
+                } else if v.is_empty() {
+                    // Plain string never starts with a new line
+                    break;
                 } else if p.count(|p| p.ind(level)).unwrap_or_default() == 0 {
                     if let Ok(t) = p.gap(true) {
                         if t == 1 {
@@ -385,6 +388,18 @@ impl Parser<'_> {
         Ok(())
     }
 
+    /// Same as [`Parser::ind_define`], but the new indent must be deeper than
+    /// its parent.
+    pub(crate) fn ind_deeper(&mut self, level: usize) -> PResult<()> {
+        self.ind_define(level)?;
+        if self.indent[level] == 0 {
+            self.backward();
+            Err(PError::Mismatch)
+        } else {
+            Ok(())
+        }
+    }
+
     /// Match any optional invisible characters between two lines.
     ///
     /// Set `cmt` to `true` to ignore comments at the line end.
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 85a130b..8ef5a16 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -431,7 +431,7 @@ impl<R: Repr> Loader<'_, R> {
                 // First item
                 if map {
                     self.gap(true)?;
-                    self.ind_define(level)?;
+                    self.ind_deeper(level)?;
                 } else if self.gap(true).is_ok() {
                     // Root
                     self.ind(level)?;
-- 
2.43.0


From 01ab6146914c51494589614f594394d2fc4a5b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 05/56] fix: do not read a comment as the value of an empty
 node

---
 src/parser/base/grammar.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 7148bb2..9a11afd 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -132,6 +132,10 @@ impl Parser<'_> {
         if inner {
             patt.push(b',');
         }
+        if self.food().starts_with(b"#") {
+            // Comment
+            return Err(PError::Mismatch);
+        }
         self.context(|p| {
             let mut v = String::new();
             let mut is_leading = false;
-- 
2.43.0


From be62a26b2124a70e81589d0e349c0c6b0451a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 06/56] fix: treat white-space-only line ends as blank

---
 src/parser/base/grammar.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 9a11afd..d3a9017 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -409,17 +409,21 @@ impl Parser<'_> {
     /// Set `cmt` to `true` to ignore comments at the line end.
     pub fn gap(&mut self, cmt: bool) -> PResult<usize> {
         self.context(|p| {
+            p.ws(TakeOpt::More(0))?;
             if cmt {
-                p.comment().unwrap_or_default();
+                p.context(Self::comment).unwrap_or_default();
+            }
+            if p.nl().is_err() {
+                p.backward();
+                return Err(PError::Mismatch);
             }
-            p.nl()?;
             let mut t = 1;
             loop {
                 // Check point
                 p.forward();
                 p.ws(TakeOpt::More(0))?;
                 if cmt {
-                    p.comment().unwrap_or_default();
+                    p.context(Self::comment).unwrap_or_default();
                 }
                 if p.nl().is_err() {
                     p.backward();
-- 
2.43.0


From 01e1eb24f07c0ef67bedd18596596a1d1498d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 07/56] fix: recognize numbers followed by a comment, keep
 other text as plain string

---
 src/parser/base/grammar.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index d3a9017..91ea34e 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -25,6 +25,15 @@ impl Parser<'_> {
         self.take_while(u8::is_ascii_digit, TakeOpt::More(1))
     }
 
+    // The rest of the line can be blank, a comment or the next indicator.
+    fn num_bound(&mut self) -> PResult<()> {
+        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 && self.food().starts_with(b"#") {
+            Ok(())
+        } else {
+            self.bound()
+        }
+    }
+
     /// Match integer.
     pub fn int(&mut self) -> PResult<String> {
         self.num_prefix()?;
@@ -32,8 +41,7 @@ impl Parser<'_> {
         if s.as_bytes() == b"0" && self.context(|p| p.octal().is_ok() || p.hexadecimal().is_ok()) {
             s = self.text();
         }
-        self.ws(TakeOpt::More(0))?;
-        self.bound()?;
+        self.num_bound()?;
         Ok(s)
     }
 
@@ -57,10 +65,7 @@ impl Parser<'_> {
         self.sym(b'.')?;
         self.take_while(u8::is_ascii_digit, TakeOpt::More(0))?;
         let s = self.text();
-        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
-            self.back(1);
-        }
-        self.bound()?;
+        self.num_bound()?;
         Ok(s.trim_end_matches(".0").to_string())
     }
 
@@ -71,10 +76,7 @@ impl Parser<'_> {
         self.take_while(Self::is_in(b"+-"), TakeOpt::Range(0, 1))?;
         self.take_while(u8::is_ascii_digit, TakeOpt::More(1))?;
         let s = self.text();
-        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
-            self.back(1);
-        }
-        self.bound()?;
+        self.num_bound()?;
         Ok(s)
     }
 
-- 
2.43.0


From 6384a0348e63205835d6f8087ba1d34bd1369ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 08/56] fix: keep number-like plain strings with flow
 indicators in block style

---
 src/parser/mod.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 8ef5a16..f238a7a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -271,12 +271,8 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match flow scalar terminal.
     pub fn scalar_term(&mut self, level: usize, flow: bool) -> PResult<R::Rc> {
-        let yaml = if let Ok(s) = self.float() {
-            R::new_rc(Yaml::Float(s))
-        } else if let Ok(s) = self.sci_float() {
-            R::new_rc(Yaml::Float(s))
-        } else if let Ok(s) = self.int() {
-            R::new_rc(Yaml::Int(s))
+        let yaml = if let Ok(n) = self.number(flow) {
+            R::new_rc(n)
         } else if let Ok(s) = self.anchor_use() {
             if self.cyclic_mode {
                 R::new_rc(Yaml::Alias(s))
@@ -307,6 +303,29 @@ impl<R: Repr> Loader<'_, R> {
         Ok(yaml)
     }
 
+    /// Match number, which is a part of plain string if it is followed by the
+    /// flow indicators in the block style.
+    fn number(&mut self, flow: bool) -> PResult<Yaml<R>> {
+        let yaml = if let Ok(s) = self.float() {
+            Yaml::Float(s)
+        } else if let Ok(s) = self.sci_float() {
+            Yaml::Float(s)
+        } else {
+            Yaml::Int(self.int()?)
+        };
+        let is_end = match self.food() {
+            [b':', c, ..] => b" \n\r".contains(c),
+            [c, ..] => !b"{}[],".contains(c),
+            [] => true,
+        };
+        if flow || is_end {
+            Ok(yaml)
+        } else {
+            self.backward();
+            Err(PError::Mismatch)
+        }
+    }
+
     /// Match quoted string if any, an unterminated string is an error.
     fn quoted(&mut self, sym: u8, ignore: &[u8]) -> PResult<Option<String>> {
         self.string_quoted(sym, ignore)
-- 
2.43.0


From c7ddffcb2cceae8c09051cb1706d4faaaa61f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 09/56] fix: accept the end of input as the boundary of numbers
 and indicators

---
 src/parser/base/grammar.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 91ea34e..807adb8 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -7,8 +7,12 @@ use core::cmp::Ordering;
 /// These sub-parser returns `Result<R, PError>`, and calling
 /// [`Parser::backward`] if mismatched.
 impl Parser<'_> {
-    /// Match invisible boundaries and keep the gaps. (must matched once)
+    /// Match invisible boundaries and keep the gaps. (must matched once or
+    /// reach the end of the document)
     pub fn bound(&mut self) -> PResult<()> {
+        if self.food().is_empty() {
+            return Ok(());
+        }
         self.sym_set(b":{}[] ,\n\r")?;
         self.back(1);
         self.ws(TakeOpt::More(0))
@@ -148,7 +152,7 @@ impl Parser<'_> {
                 p.forward();
                 if p.food().is_empty()
                     || p.sym_seq(b": ").is_ok()
-                    || (p.sym(b':').is_ok() && p.nl().is_ok())
+                    || (p.sym(b':').is_ok() && (p.food().is_empty() || p.nl().is_ok()))
                     || p.sym_seq(b" #").is_ok()
                 {
                     p.backward();
-- 
2.43.0


From 001f22dffe413b6979e851f78a9b63eb5e9a3998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 10/56] fix: read block strings without content or final
 newline

---
 src/parser/base/grammar.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 807adb8..5de5c4d 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -223,7 +223,10 @@ impl Parser<'_> {
             } else if p.sym(b'+').is_ok() {
                 |s| s
             } else {
-                |s: String| s.trim_end().to_string() + "\n"
+                |s: String| match s.trim_end() {
+                    "" => String::new(),
+                    s => s.to_string() + "\n",
+                }
             }
         })
     }
@@ -232,7 +235,12 @@ impl Parser<'_> {
     pub fn string_wrapped(&mut self, level: usize, sep: u8, leading: bool) -> PResult<String> {
         self.context(|p| {
             let mut v = String::new();
+            let mut is_first = true;
             loop {
+                if p.food().is_empty() {
+                    // No final newline
+                    return Ok(if is_first { v } else { v + "\n" });
+                }
                 p.nl()?;
                 p.forward();
                 if p.ind(level).is_err() {
@@ -251,7 +259,7 @@ impl Parser<'_> {
                 p.take_while(Self::not_in(b"\n\r"), TakeOpt::More(0))?;
                 let s = p.text();
                 if leading {
-                    if !v.is_empty() {
+                    if !is_first {
                         v.push(char::from(sep));
                     }
                     v.push_str(&s);
@@ -262,10 +270,11 @@ impl Parser<'_> {
                     }
                     v.push_str(s);
                 }
+                is_first = false;
             }
             // Keep the last wrap
             p.back(1);
-            Ok(v + "\n")
+            Ok(if is_first { v } else { v + "\n" })
         })
     }
 
-- 
2.43.0


From 1229c3d4f7eb54ddb675dbfd575b4780b2568df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 11/56] fix: detect the indentation of block strings from the
 first line

---
 src/parser/base/grammar.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 5de5c4d..5392424 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -243,12 +243,12 @@ impl Parser<'_> {
                 }
                 p.nl()?;
                 p.forward();
-                if p.ind(level).is_err() {
+                if p.ind_block(level, is_first).is_err() {
                     if let Ok(t) = p.gap(false) {
                         for _ in 0..t {
                             v.push('\n');
                         }
-                        if p.ind(level).is_err() {
+                        if p.ind_block(level, is_first).is_err() {
                             break;
                         }
                     } else {
@@ -419,6 +419,24 @@ impl Parser<'_> {
         }
     }
 
+    /// Match the indent of block string, the first line defines the indent
+    /// size.
+    fn ind_block(&mut self, level: usize, is_first: bool) -> PResult<()> {
+        if level == 0 || !is_first {
+            return self.ind(level);
+        }
+        self.ind(level - 1)?;
+        let ind = self.count(|p| p.take_while(Self::is_in(b" "), TakeOpt::More(1)))?;
+        if matches!(self.food(), [] | [b'\n' | b'\r', ..]) {
+            // Blank line
+            self.backward();
+            return Err(PError::Mismatch);
+        }
+        self.indent.truncate(level);
+        self.indent.push(ind);
+        Ok(())
+    }
+
     /// Match any optional invisible characters between two lines.
     ///
     /// Set `cmt` to `true` to ignore comments at the line end.
-- 
2.43.0


From a8dc006b8622c245d5d695adce2c33b86d1059e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 12/56] fix: read block strings in the document root

---
 src/parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index f238a7a..c4883bc 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -213,9 +213,10 @@ impl<R: Repr> Loader<'_, R> {
     /// Match scalar.
     pub fn scalar(&mut self, level: usize, map: bool, flow: bool) -> PResult<Node<R>> {
         self.scalar_node(|p| {
-            if let Ok(s) = p.string_literal(level) {
+            // The block string in the document root is also indented
+            if let Ok(s) = p.string_literal(level.max(1)) {
                 Ok(R::new_rc(Yaml::Str(s)))
-            } else if let Ok(s) = p.string_folded(level) {
+            } else if let Ok(s) = p.string_folded(level.max(1)) {
                 Ok(R::new_rc(Yaml::Str(s)))
             } else {
                 p.seq(level, map)
-- 
2.43.0


From a74562f857fe6185edddfe5d8406b50fe25d0a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 13/56] fix: recognize the scientific notation with fraction

---
 src/parser/base/grammar.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 5392424..c4fef3b 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -59,8 +59,8 @@ impl Parser<'_> {
         self.take_while(Self::ascii_digit(16), TakeOpt::More(1))
     }
 
-    fn ascii_digit(i: u8) -> impl Fn(&u8) -> bool + 'static {
-        move |c| c.is_ascii_digit() || (*c > b'a' && *c < b'a' + i) || (*c > b'A' && *c < b'A' + i)
+    fn ascii_digit(i: u32) -> impl Fn(&u8) -> bool + 'static {
+        move |c| char::from(*c).is_digit(i)
     }
 
     /// Match float.
@@ -76,6 +76,12 @@ impl Parser<'_> {
     /// Match float with scientific notation.
     pub fn sci_float(&mut self) -> PResult<String> {
         self.num_prefix()?;
+        self.context(|p| {
+            if p.sym(b'.').is_ok() {
+                p.take_while(u8::is_ascii_digit, TakeOpt::More(0))?;
+            }
+            Ok(())
+        })?;
         self.sym_set(b"eE")?;
         self.take_while(Self::is_in(b"+-"), TakeOpt::Range(0, 1))?;
         self.take_while(u8::is_ascii_digit, TakeOpt::More(1))?;
-- 
2.43.0


From ba2b7e030775101fa4a06e2b117ca9f48484eeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 14/56] fix: do not mix up escaped backslashes with escaped
 quotes and line breaks

---
 src/parser/base/grammar.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index c4fef3b..f177af1 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -105,10 +105,7 @@ impl Parser<'_> {
                 p.forward();
                 if p.sym_seq(ignore).is_ok() {
                     v.push(char::from(sym));
-                } else if let Ok(mut t) = p.gap(false) {
-                    if v.ends_with('\\') {
-                        t -= 1;
-                    }
+                } else if let Ok(t) = p.gap(false) {
                     match t.cmp(&1) {
                         Ordering::Less => {}
                         Ordering::Equal => {
@@ -127,7 +124,21 @@ impl Parser<'_> {
                     // Remove leading space
                     p.ws(TakeOpt::More(0))?;
                 } else if p.sym(b'\\').is_ok() {
-                    v.push('\\');
+                    p.forward();
+                    if sym != b'"' {
+                        v.push('\\');
+                    } else if let Ok(t) = p.nl().and_then(|()| Ok(p.gap(false).unwrap_or(0))) {
+                        // Escaped line break
+                        for _ in 0..t {
+                            v.push('\n');
+                        }
+                        p.ws(TakeOpt::More(0))?;
+                    } else {
+                        v.push('\\');
+                        if p.sym(b'\\').is_ok() {
+                            v.push('\\');
+                        }
+                    }
                 } else if p.sym(sym).is_ok() {
                     break;
                 } else {
-- 
2.43.0


From 638ed72d7f70d4deb833fde1654a4849d14b2396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 15/56] fix: drop the spaces before the blank lines of quoted
 strings

---
 src/parser/base/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index f177af1..55855ef 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -106,10 +106,10 @@ impl Parser<'_> {
                 if p.sym_seq(ignore).is_ok() {
                     v.push(char::from(sym));
                 } else if let Ok(t) = p.gap(false) {
+                    v.truncate(v.trim_end_matches([' ', '\t']).len());
                     match t.cmp(&1) {
                         Ordering::Less => {}
                         Ordering::Equal => {
-                            v.truncate(v.trim_end().len());
                             // Manual wrapping
                             if !v.ends_with("\\n") {
                                 v.push(' ');
-- 
2.43.0


From aede22bee5feb8196142c9e26cdaf8b0ec22139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 16/56] fix: support the escape sequences of YAML and JSON
 strings

---
 src/parser/base/grammar.rs | 39 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 55855ef..a441562 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -1,6 +1,6 @@
 use super::*;
 use alloc::format;
-use core::cmp::Ordering;
+use core::{cmp::Ordering, str::Chars};
 
 /// The low level grammar implementation for YAML.
 ///
@@ -299,7 +299,8 @@ impl Parser<'_> {
     pub fn escape(doc: &str) -> String {
         let mut s = String::new();
         let mut b = false;
-        for c in doc.chars() {
+        let mut chars = doc.chars();
+        while let Some(c) = chars.next() {
             if c == '\\' && !b {
                 b = true;
                 continue;
@@ -311,6 +312,17 @@ impl Parser<'_> {
                 't' if b => '\t',
                 'b' if b => '\x08',
                 'f' if b => '\x0C',
+                '0' if b => '\0',
+                'a' if b => '\x07',
+                'v' if b => '\x0B',
+                'e' if b => '\x1B',
+                'N' if b => '\u{85}',
+                '_' if b => '\u{A0}',
+                'L' if b => '\u{2028}',
+                'P' if b => '\u{2029}',
+                'x' if b => Self::escape_hex(&mut chars, 2).unwrap_or(c),
+                'u' if b => Self::escape_hex(&mut chars, 4).unwrap_or(c),
+                'U' if b => Self::escape_hex(&mut chars, 8).unwrap_or(c),
                 c => c,
             });
             b = false;
@@ -318,6 +330,29 @@ impl Parser<'_> {
         s
     }
 
+    fn escape_hex(chars: &mut Chars, n: usize) -> Option<char> {
+        let doc = chars.as_str();
+        let hex = |i| {
+            doc.get(i..i + n)
+                .filter(|s| s.bytes().all(|c| c.is_ascii_hexdigit()))
+                .and_then(|s| u32::from_str_radix(s, 16).ok())
+        };
+        let code = hex(0)?;
+        let (code, n) = match (code, doc.get(n..n + 2)) {
+            // UTF-16 surrogate pair
+            (0xD800..=0xDBFF, Some("\\u")) if n == 4 => match hex(n + 2)? {
+                low @ 0xDC00..=0xDFFF => {
+                    (0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00), n * 2 + 2)
+                }
+                _ => return None,
+            },
+            _ => (code, n),
+        };
+        let c = char::from_u32(code)?;
+        *chars = doc[n..].chars();
+        Some(c)
+    }
+
     /// Match valid YAML identifier.
     pub fn identifier(&mut self) -> PResult<()> {
         self.take_while(u8::is_ascii_alphanumeric, TakeOpt::One)?;
-- 
2.43.0


From 7b32249a0e8de25ec8f521fdc5b57e873fe408fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 17/56] fix: report unclosed or invalid flow collections
 instead of reading null

---
 src/parser/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index c4883bc..09e0e02 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -28,12 +28,14 @@
 //! ### Flow Array
 //!
 //! + flow sequence item: Item in `[]` bracket is invalid.
+//! + flow sequence terminator: The closing bracket `]` is missing.
 //!
 //! ### Flow Map
 //!
 //! + flow map key: Key of map item in `{}` bracket is invalid.
 //! + flow map value: Value of map item in `{}` bracket is invalid.
 //! + flow map splitter: Splitter `:` of map item in `{}` bracket is invalid.
+//! + flow map terminator: The closing bracket `}` is missing.
 //!
 //! ### Array
 //!
@@ -352,7 +354,9 @@ impl<R: Repr> Loader<'_, R> {
             self.inv(TakeOpt::More(0))?;
             if self.sym(b',').is_err() {
                 self.inv(TakeOpt::More(0))?;
-                self.sym(b']')?;
+                if self.sym(b']').is_err() {
+                    return self.err("flow sequence terminator");
+                }
                 break;
             }
         }
@@ -395,7 +399,9 @@ impl<R: Repr> Loader<'_, R> {
             m.push((k, v));
             if self.sym(b',').is_err() {
                 self.inv(TakeOpt::More(0))?;
-                self.sym(b'}')?;
+                if self.sym(b'}').is_err() {
+                    return self.err("flow map terminator");
+                }
                 break;
             }
         }
-- 
2.43.0


From 25271ca286bfa3ad7837ca3ee0e75c39e2413272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 18/56] fix: accept the white space around the indicators of
 flow maps

---
 src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 09e0e02..b049077 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -388,15 +388,17 @@ impl<R: Repr> Loader<'_, R> {
                 self.scalar_flow(level + 1, true)
                     .or_else(|e| e.or(|| self.err("flow map key")))?
             };
+            self.inv(TakeOpt::More(0))?;
             if self.sym(b':').is_err() {
                 return self.err("flow map splitter");
             }
-            self.context(|p| p.bound().unwrap_or_default());
+            self.inv(TakeOpt::More(0))?;
             self.forward();
             let v = self
                 .scalar(level + 1, false, true)
                 .or_else(|e| e.or(|| self.err("flow map value")))?;
             m.push((k, v));
+            self.inv(TakeOpt::More(0))?;
             if self.sym(b',').is_err() {
                 self.inv(TakeOpt::More(0))?;
                 if self.sym(b'}').is_err() {
-- 
2.43.0


From dd4e52a64298e5328fbc477ea76f6139bd0d3efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 19/56] fix: read empty documents and only split at whole
 document markers

---
 src/parser/base/grammar.rs | 20 ++++++++++++++++++++
 src/parser/mod.rs          |  8 ++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index a441562..3332a67 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -18,6 +18,19 @@ impl Parser<'_> {
         self.ws(TakeOpt::More(0))
     }
 
+    /// Match the document splitter, which is not a part of other words.
+    pub(crate) fn doc_mark(&mut self, mark: &[u8]) -> PResult<()> {
+        self.context(|p| {
+            p.sym_seq(mark)?;
+            if matches!(p.food(), [] | [b' ' | b'\t' | b'\n' | b'\r', ..]) {
+                Ok(())
+            } else {
+                p.backward();
+                Err(PError::Mismatch)
+            }
+        })
+    }
+
     /// Match complex mapping indicator (`?`).
     pub fn complex_mapping(&mut self) -> PResult<()> {
         self.sym(b'?')?;
@@ -159,6 +172,13 @@ impl Parser<'_> {
             // Comment
             return Err(PError::Mismatch);
         }
+        if matches!(self.doc[..self.pos], [] | [.., b'\n' | b'\r'])
+            && (self.doc_mark(b"---").is_ok() || self.doc_mark(b"...").is_ok())
+        {
+            // Document splitter
+            self.backward();
+            return Err(PError::Mismatch);
+        }
         self.context(|p| {
             let mut v = String::new();
             let mut is_leading = false;
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b049077..e443ac8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -169,14 +169,14 @@ impl<R: Repr> Loader<'_, R> {
             }
         }
         self.gap(true).unwrap_or_default();
-        self.sym_seq(b"---").unwrap_or_default();
+        self.doc_mark(b"---").unwrap_or_default();
         let mut v = vec![self.doc()?];
         loop {
             self.gap(true).unwrap_or_default();
             if self.food().is_empty() {
                 break;
             }
-            if self.sym_seq(b"---").is_err() {
+            if self.doc_mark(b"---").is_err() {
                 return self.err("document splitter");
             }
             v.push(self.doc()?);
@@ -191,7 +191,7 @@ impl<R: Repr> Loader<'_, R> {
         self.anchors.push(Anchors::new());
         let ret = self.scalar(0, false, false)?;
         self.gap(true).unwrap_or_default();
-        self.sym_seq(b"...").unwrap_or_default();
+        self.doc_mark(b"...").unwrap_or_default();
         self.forward();
         self.doc_ind += 1;
         Ok(ret)
@@ -203,7 +203,7 @@ impl<R: Repr> Loader<'_, R> {
             true
         } else {
             self.context(|p| {
-                let b = p.sym_seq(b"---").is_ok() || p.sym_seq(b"...").is_ok();
+                let b = p.doc_mark(b"---").is_ok() || p.doc_mark(b"...").is_ok();
                 if b {
                     p.backward();
                 }
-- 
2.43.0


From a6b5df37da8202fcd150755698f7e76a3978990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 20/56] fix: read the directives after leading comments

---
 src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e443ac8..b469ff1 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -161,6 +161,7 @@ impl<R: Repr> Loader<'_, R> {
 
     /// YAML entry point, return entire doc if exist.
     pub fn parse(&mut self) -> PResult<Vec<Node<R>>> {
+        self.gap(true).unwrap_or_default();
         loop {
             match self.context(Parser::directive) {
                 Ok(()) => (),
-- 
2.43.0


From a99896dd8bec9a98787e792036706f6a4971ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 21/56] fix: apply the primary tag handle to local tags

---
 src/parser/base/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 3332a67..c438397 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -396,7 +396,7 @@ impl Parser<'_> {
                         None => return p.err("undefined tag handle"),
                     }
                 } else {
-                    String::new()
+                    p.tag["!"].clone()
                 }
             } else if p.sym(b'<').is_ok() {
                 // Full tag
-- 
2.43.0


From 7e7034e3cf2520d3d81757bfebdc924f2090f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 22/56] fix: keep the text of malformed anchors and reject
 malformed tags

---
 src/parser/base/grammar.rs | 24 ++++++++++++++----------
 src/parser/mod.rs          | 12 ++++++++----
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index c438397..bc53434 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -404,8 +404,10 @@ impl Parser<'_> {
                     p.take_while(Self::not_in(b" <>\n\r"), TakeOpt::More(1))?;
                     Ok(p.text())
                 })?;
-                p.sym(b'>')?;
-                tag
+                if p.sym(b'>').is_err() {
+                    return p.err("full tag terminator");
+                }
+                return Ok(tag);
             } else if p.sym(b'!').is_ok() {
                 p.tag["!!"].clone()
             } else {
@@ -425,19 +427,21 @@ impl Parser<'_> {
     /// Match anchor definition.
     pub fn anchor(&mut self) -> PResult<String> {
         self.sym(b'&')?;
-        self.context(|p| {
-            p.identifier()?;
-            Ok(p.text())
-        })
+        let name = self.context(|p| p.identifier().map(|()| p.text()));
+        if name.is_err() {
+            self.backward();
+        }
+        name
     }
 
     /// Match anchor used.
     pub fn anchor_use(&mut self) -> PResult<String> {
         self.sym(b'*')?;
-        self.context(|p| {
-            p.identifier()?;
-            Ok(p.text())
-        })
+        let name = self.context(|p| p.identifier().map(|()| p.text()));
+        if name.is_err() {
+            self.backward();
+        }
+        name
     }
 
     /// Match any invisible characters except newline.
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b469ff1..82bc037 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -18,6 +18,7 @@
 //! + checked version: Version directive `%YAML 1.2` is used again.
 //! + version: Version directive is wrong, must be `1.2`.
 //! + undefined tag handle: Named tag handle has no `%TAG` directive.
+//! + full tag terminator: The closing bracket `>` of the tag is missing.
 //!
 //! ## Scalar
 //!
@@ -243,10 +244,13 @@ impl<R: Repr> Loader<'_, R> {
             self.bound()?;
         }
         self.forward();
-        let tag = self.tag().or_else(|e| e.or(|| Ok(String::new())))?;
-        if !tag.is_empty() {
-            self.bound()?;
-        }
+        let tag = match self.tag() {
+            Ok(tag) => {
+                self.bound()?;
+                tag
+            }
+            Err(e) => e.or(|| Ok(String::new()))?,
+        };
         self.forward();
         let anchor2 = self.anchor().unwrap_or_default();
         if !anchor2.is_empty() {
-- 
2.43.0


From 63f3427f6fed7f38f5055cd056f91c4500073781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 23/56] fix: keep the leading > of plain strings

---
 src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 82bc037..9d373bf 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -223,6 +223,7 @@ impl<R: Repr> Loader<'_, R> {
             } else if let Ok(s) = p.string_folded(level.max(1)) {
                 Ok(R::new_rc(Yaml::Str(s)))
             } else {
+                p.backward();
                 p.seq(level, map)
                     .or_else(|e| e.or(|| p.map(level, map, flow)))
                     .or_else(|e| e.or(|| p.scalar_term(level, flow)))
-- 
2.43.0


From e47541787fc01c884977c0f08c9a150190e09455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 24/56] fix: read the indentation indicator and the comment of
 block string headers

---
 src/parser/base/grammar.rs | 48 +++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index bc53434..7d3cea9 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -237,21 +237,38 @@ impl Parser<'_> {
     /// Match literal string.
     pub fn string_literal(&mut self, level: usize) -> PResult<String> {
         self.sym(b'|')?;
+        let size = self.ind_size();
         let chomp = self.chomp();
-        self.ws(TakeOpt::More(0))?;
-        let s = self.string_wrapped(level, b'\n', true)?;
+        let size = size.or_else(|| self.ind_size());
+        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
+            self.context(Self::comment).unwrap_or_default();
+        }
+        let s = self.string_block(level, b'\n', true, size)?;
         Ok(chomp(s))
     }
 
     /// Match folded string.
     pub fn string_folded(&mut self, level: usize) -> PResult<String> {
         self.sym(b'>')?;
+        let size = self.ind_size();
         let chomp = self.chomp();
-        self.ws(TakeOpt::More(0))?;
-        let s = self.string_wrapped(level, b' ', false)?;
+        let size = size.or_else(|| self.ind_size());
+        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
+            self.context(Self::comment).unwrap_or_default();
+        }
+        let s = self.string_block(level, b' ', false, size)?;
         Ok(chomp(s))
     }
 
+    /// Match the indentation size of block string.
+    fn ind_size(&mut self) -> Option<usize> {
+        self.context(|p| {
+            p.take_while(|c| (b'1'..=b'9').contains(c), TakeOpt::One)
+                .ok()
+                .and_then(|()| p.text().parse().ok())
+        })
+    }
+
     /// Match string chomping option.
     pub fn chomp(&mut self) -> impl Fn(String) -> String {
         self.context(|p| {
@@ -270,6 +287,16 @@ impl Parser<'_> {
 
     /// Match wrapped string.
     pub fn string_wrapped(&mut self, level: usize, sep: u8, leading: bool) -> PResult<String> {
+        self.string_block(level, sep, leading, None)
+    }
+
+    fn string_block(
+        &mut self,
+        level: usize,
+        sep: u8,
+        leading: bool,
+        size: Option<usize>,
+    ) -> PResult<String> {
         self.context(|p| {
             let mut v = String::new();
             let mut is_first = true;
@@ -280,12 +307,12 @@ impl Parser<'_> {
                 }
                 p.nl()?;
                 p.forward();
-                if p.ind_block(level, is_first).is_err() {
+                if p.ind_block(level, is_first, size).is_err() {
                     if let Ok(t) = p.gap(false) {
                         for _ in 0..t {
                             v.push('\n');
                         }
-                        if p.ind_block(level, is_first).is_err() {
+                        if p.ind_block(level, is_first, size).is_err() {
                             break;
                         }
                     } else {
@@ -497,12 +524,17 @@ impl Parser<'_> {
 
     /// Match the indent of block string, the first line defines the indent
     /// size.
-    fn ind_block(&mut self, level: usize, is_first: bool) -> PResult<()> {
+    fn ind_block(&mut self, level: usize, is_first: bool, size: Option<usize>) -> PResult<()> {
         if level == 0 || !is_first {
             return self.ind(level);
         }
         self.ind(level - 1)?;
-        let ind = self.count(|p| p.take_while(Self::is_in(b" "), TakeOpt::More(1)))?;
+        let ind = match size {
+            Some(ind) => self
+                .take_while(Self::is_in(b" "), TakeOpt::Range(ind, ind))
+                .map(|()| ind)?,
+            None => self.count(|p| p.take_while(Self::is_in(b" "), TakeOpt::More(1)))?,
+        };
         if matches!(self.food(), [] | [b'\n' | b'\r', ..]) {
             // Blank line
             self.backward();
-- 
2.43.0


From 6a24d7695aa49c6c7b53e3637d37eff23a37e720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 25/56] fix: only strip the line breaks of block strings

---
 src/parser/base/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 7d3cea9..84b49ed 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -273,11 +273,11 @@ impl Parser<'_> {
     pub fn chomp(&mut self) -> impl Fn(String) -> String {
         self.context(|p| {
             if p.sym(b'-').is_ok() {
-                |s: String| s.trim_end().to_string()
+                |s: String| s.trim_end_matches('\n').to_string()
             } else if p.sym(b'+').is_ok() {
                 |s| s
             } else {
-                |s: String| match s.trim_end() {
+                |s: String| match s.trim_end_matches('\n') {
                     "" => String::new(),
                     s => s.to_string() + "\n",
                 }
-- 
2.43.0


From 16235e6d4b2d224d27e3e238cedc5a19000b2b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 26/56] fix: do not read the wrong indentation as a part of
 plain strings

---
 src/parser/base/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 84b49ed..5bca2a9 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -168,8 +168,8 @@ impl Parser<'_> {
         if inner {
             patt.push(b',');
         }
-        if self.food().starts_with(b"#") {
-            // Comment
+        if matches!(self.food(), [b'#' | b' ' | b'\t', ..]) {
+            // Comment or wrong indentation
             return Err(PError::Mismatch);
         }
         if matches!(self.doc[..self.pos], [] | [.., b'\n' | b'\r'])
-- 
2.43.0


From 4bef7188e9d8aae0183db3350c0aa1c382e7449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 27/56] fix: accept the white space between block map keys and
 the splitter

---
 src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 9d373bf..3a9dc7f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -483,6 +483,7 @@ impl<R: Repr> Loader<'_, R> {
                 } else {
                     self.scalar_flow(level + 1, flow)?
                 };
+                self.ws(TakeOpt::More(0))?;
                 if self.sym(b':').is_err() || self.bound().is_err() {
                     // Return key
                     return Ok(k.clone_yaml());
@@ -509,6 +510,7 @@ impl<R: Repr> Loader<'_, R> {
                     self.scalar_flow(level + 1, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?
                 };
+                self.ws(TakeOpt::More(0))?;
                 if self.sym(b':').is_err() || self.bound().is_err() {
                     return self.err("map splitter");
                 }
-- 
2.43.0


From feb5dfe11e633902e0c9aaa81885716db0e215ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 28/56] fix: treat tabs as the white space around the
 indicators of plain strings

---
 src/parser/base/grammar.rs | 21 ++++++++++-----------
 src/parser/mod.rs          |  2 +-
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 5bca2a9..8b7abdc 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -13,7 +13,7 @@ impl Parser<'_> {
         if self.food().is_empty() {
             return Ok(());
         }
-        self.sym_set(b":{}[] ,\n\r")?;
+        self.sym_set(b":{}[] ,\t\n\r")?;
         self.back(1);
         self.ws(TakeOpt::More(0))
     }
@@ -164,7 +164,7 @@ impl Parser<'_> {
 
     /// Match plain string.
     pub fn string_plain(&mut self, level: usize, inner: bool) -> PResult<String> {
-        let mut patt = b"[]{}: \n\r".to_vec();
+        let mut patt = b"[]{}: \t\n\r".to_vec();
         if inner {
             patt.push(b',');
         }
@@ -187,18 +187,17 @@ impl Parser<'_> {
                 p.take_while(Self::not_in(&patt), TakeOpt::More(0))?;
                 v.push_str(&p.text());
                 p.forward();
-                if p.food().is_empty()
-                    || p.sym_seq(b": ").is_ok()
-                    || (p.sym(b':').is_ok() && (p.food().is_empty() || p.nl().is_ok()))
-                    || p.sym_seq(b" #").is_ok()
-                {
-                    p.backward();
+                if matches!(
+                    p.food(),
+                    [] | [b':']
+                        | [b':', b' ' | b'\t' | b'\n' | b'\r', ..]
+                        | [b' ' | b'\t', b'#', ..]
+                ) {
                     break;
                 }
-                p.forward();
-                if p.sym_set(b": ").is_ok() {
+                if p.sym_set(b": \t").is_ok() {
                     // Remove leading space
-                    if is_leading && p.text() == " " {
+                    if is_leading && p.text() != ":" {
                         v.truncate(v.trim_end().len());
                     }
                     v.push_str(&p.text());
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3a9dc7f..3548e57 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -323,7 +323,7 @@ impl<R: Repr> Loader<'_, R> {
             Yaml::Int(self.int()?)
         };
         let is_end = match self.food() {
-            [b':', c, ..] => b" \n\r".contains(c),
+            [b':', c, ..] => b" \t\n\r".contains(c),
             [c, ..] => !b"{}[],".contains(c),
             [] => true,
         };
-- 
2.43.0


From b3a1b6ca959f228152b0ced4a2976c2f877031ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 29/56] fix: accept the comments and the spaces of the last
 line without final newline

---
 src/parser/base/grammar.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 8b7abdc..df77eab 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -554,6 +554,10 @@ impl Parser<'_> {
                 p.context(Self::comment).unwrap_or_default();
             }
             if p.nl().is_err() {
+                if cmt && p.food().is_empty() && p.eaten < p.pos {
+                    // No final newline
+                    return Ok(1);
+                }
                 p.backward();
                 return Err(PError::Mismatch);
             }
@@ -566,7 +570,9 @@ impl Parser<'_> {
                     p.context(Self::comment).unwrap_or_default();
                 }
                 if p.nl().is_err() {
-                    p.backward();
+                    if !cmt || !p.food().is_empty() {
+                        p.backward();
+                    }
                     return Ok(t);
                 }
                 t += 1;
-- 
2.43.0


From 7ac398b5cd692902c6d5befca915ba747535087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 30/56] fix: limit the nesting level instead of overflowing the
 stack

---
 src/parser/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3548e57..51326f6 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -22,6 +22,7 @@
 //!
 //! ## Scalar
 //!
+//! + nesting level: The collections are nested too deeply.
 //! + quoted string terminator: The closing quote of the string is missing.
 //!
 //! ## Structure
@@ -75,6 +76,9 @@ macro_rules! tag_prefix {
 
 pub(crate) use tag_prefix;
 
+/// The nesting limit of the document, prevents from the stack overflow.
+const MAX_LEVEL: usize = 200;
+
 /// The type of anchor recorder in the [`Loader`].
 pub type Anchors<R> = BTreeMap<String, Node<R>>;
 /// The default prefix of the YAML sub tag.
@@ -216,7 +220,7 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match scalar.
     pub fn scalar(&mut self, level: usize, map: bool, flow: bool) -> PResult<Node<R>> {
-        self.scalar_node(|p| {
+        self.scalar_node(level, |p| {
             // The block string in the document root is also indented
             if let Ok(s) = p.string_literal(level.max(1)) {
                 Ok(R::new_rc(Yaml::Str(s)))
@@ -233,13 +237,16 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match flow scalar.
     pub fn scalar_flow(&mut self, level: usize, flow: bool) -> PResult<Node<R>> {
-        self.scalar_node(|p| p.scalar_term(level, flow))
+        self.scalar_node(level, |p| p.scalar_term(level, flow))
     }
 
-    fn scalar_node<F>(&mut self, f: F) -> PResult<Node<R>>
+    fn scalar_node<F>(&mut self, level: usize, f: F) -> PResult<Node<R>>
     where
         F: FnOnce(&mut Self) -> PResult<R::Rc>,
     {
+        if level > MAX_LEVEL {
+            return self.err("nesting level");
+        }
         let mut anchor = self.anchor().unwrap_or_default();
         if !anchor.is_empty() {
             self.bound()?;
-- 
2.43.0


From 3a61fa646c2bd230bcd81f21432ee918f8ff383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 31/56] fix: do not read block indicators as plain strings

---
 src/parser/base/grammar.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index df77eab..0ca00d4 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -168,8 +168,13 @@ impl Parser<'_> {
         if inner {
             patt.push(b',');
         }
-        if matches!(self.food(), [b'#' | b' ' | b'\t', ..]) {
-            // Comment or wrong indentation
+        if matches!(
+            self.food(),
+            [b'#' | b' ' | b'\t', ..]
+                | [b'-' | b'?']
+                | [b'-' | b'?', b' ' | b'\t' | b'\n' | b'\r', ..]
+        ) {
+            // Comment, wrong indentation or block indicators
             return Err(PError::Mismatch);
         }
         if matches!(self.doc[..self.pos], [] | [.., b'\n' | b'\r'])
-- 
2.43.0


From 18bff20dfe171d47368c76b3c3420b0488d2dcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 32/56] fix: report complex map keys without splitter instead
 of dropping the indicator

---
 src/parser/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 51326f6..6b5c870 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -478,7 +478,8 @@ impl<R: Repr> Loader<'_, R> {
                     self.ind(level)?;
                 }
                 self.forward();
-                let k = if self.complex_mapping().is_ok() {
+                let complex = self.complex_mapping().is_ok();
+                let k = if complex {
                     self.forward();
                     let k = self
                         .scalar(level + 1, true, flow)
@@ -492,8 +493,12 @@ impl<R: Repr> Loader<'_, R> {
                 };
                 self.ws(TakeOpt::More(0))?;
                 if self.sym(b':').is_err() || self.bound().is_err() {
-                    // Return key
-                    return Ok(k.clone_yaml());
+                    return if complex {
+                        self.err("map splitter")
+                    } else {
+                        // Return key
+                        Ok(k.clone_yaml())
+                    };
                 }
                 k
             } else {
-- 
2.43.0


From c9033d5aa2b013f13755a81be1cd1e62b44f215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 33/56] fix: indicate the end of document for positions out of
 range instead of panicking

---
 src/indicator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/indicator.rs b/src/indicator.rs
index b67a128..c02751b 100644
--- a/src/indicator.rs
+++ b/src/indicator.rs
@@ -20,7 +20,10 @@ use alloc::{format, string::String};
 ///
 /// This may be what you need if you went to indicate an error on the invalid
 /// data.
-pub fn indicated_msg(doc: &[u8], mut pos: u64) -> String {
+///
+/// The position out of the document is treated as the end of the document.
+pub fn indicated_msg(doc: &[u8], pos: u64) -> String {
+    let mut pos = pos.min(doc.len() as u64);
     for (line, str_line) in doc.split(|c| *c == b'\n').enumerate() {
         let full_line = str_line.len() as u64 + 1;
         if full_line > pos {
-- 
2.43.0


From 6151a0ae5ae12ff099ee33247b41799c28e3cb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 34/56] fix: report errors at the cursor of the attached
 document after consuming

---
 src/parser/base/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index ba4a63d..680a112 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -99,7 +99,7 @@ impl Parser<'_> {
     pub fn err<R>(&self, name: &'static str) -> PResult<R> {
         Err(PError::Terminate {
             name,
-            msg: indicated_msg(self.doc, self.indicator()),
+            msg: indicated_msg(self.doc, self.pos as u64),
         })
     }
 
-- 
2.43.0


From c4337561e9ea9d1598bf0f2afe9b06f236d6c862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 35/56] fix: make equality total for any number text and
 hashing consistent with it

---
 src/yaml.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/yaml.rs b/src/yaml.rs
index 9faffee..589d036 100644
--- a/src/yaml.rs
+++ b/src/yaml.rs
@@ -139,11 +139,19 @@ impl<R: Repr> Hash for Yaml<R> {
             }
             Self::Int(s) => {
                 state.write_u8(3);
-                s.hash(state)
+                match to_i64(s) {
+                    Ok(n) => n.hash(state),
+                    Err(_) => s.hash(state),
+                }
             }
             Self::Float(s) => {
                 state.write_u8(4);
-                s.hash(state)
+                match to_f64(s) {
+                    Ok(f) if f.is_nan() => f64::NAN.to_bits().hash(state),
+                    // Positive and negative zero are equal
+                    Ok(f) => (f + 0.).to_bits().hash(state),
+                    Err(_) => s.hash(state),
+                }
             }
             Self::Str(s) => {
                 state.write_u8(5);
@@ -170,16 +178,16 @@ impl<R: Repr> PartialEq for Yaml<R> {
         match (self, other) {
             (Self::Null, Self::Null) => true,
             (Self::Bool(b1), Self::Bool(b2)) => b1 == b2,
-            (Self::Int(s1), Self::Int(s2)) => to_i64(s1).unwrap() == to_i64(s2).unwrap(),
-            (Self::Float(s1), Self::Float(s2)) => {
-                let f1 = to_f64(s1).unwrap();
-                let f2 = to_f64(s2).unwrap();
-                if f1.is_nan() && f2.is_nan() {
-                    true
-                } else {
-                    f1 == f2
-                }
-            }
+            (Self::Int(s1), Self::Int(s2)) => match (to_i64(s1), to_i64(s2)) {
+                (Ok(n1), Ok(n2)) => n1 == n2,
+                (Err(_), Err(_)) => s1 == s2,
+                _ => false,
+            },
+            (Self::Float(s1), Self::Float(s2)) => match (to_f64(s1), to_f64(s2)) {
+                (Ok(f1), Ok(f2)) => f1.is_nan() && f2.is_nan() || f1 == f2,
+                (Err(_), Err(_)) => s1 == s2,
+                _ => false,
+            },
             (Self::Str(s1), Self::Str(s2)) => s1 == s2,
             (Self::Seq(s1), Self::Seq(s2)) => s1 == s2,
             (Self::Map(m1), Self::Map(m2)) => m1 == m2,
-- 
2.43.0


From 3cab2704e76538e9862c136ab4f91aa06bdc2f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 36/56] fix: read the node properties on the line after the
 document marker

---
 src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 6b5c870..47b7bfb 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -192,7 +192,10 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match one doc block.
     pub fn doc(&mut self) -> PResult<Node<R>> {
-        self.context(|p| p.bound().unwrap_or_default());
+        self.context(|p| {
+            p.bound().unwrap_or_default();
+            p.gap(true).unwrap_or_default();
+        });
         self.forward();
         self.anchors.push(Anchors::new());
         let ret = self.scalar(0, false, false)?;
-- 
2.43.0


From 87d7cfce59ce284ff6ebde5459e751debc8201b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 37/56] fix: keep the tag of scalars on the next line

---
 src/node.rs       | 5 +++++
 src/parser/mod.rs | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index aecf200..7322750 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -171,6 +171,11 @@ impl<R: Repr> Node<R> {
         }
     }
 
+    /// The specified tag, without the default tags.
+    pub(crate) fn raw_tag(&self) -> &str {
+        &self.tag
+    }
+
     /// YAML data.
     pub fn yaml(&self) -> &Yaml<R> {
         &self.yaml
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 47b7bfb..2acd1ad 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -117,6 +117,7 @@ pub struct Loader<'a, R: Repr> {
     cyclic_mode: bool,
     anchors: Vec<Anchors<R>>,
     doc_ind: usize,
+    inner_tag: String,
 }
 
 impl<'a, R: Repr> Loader<'a, R> {
@@ -127,6 +128,7 @@ impl<'a, R: Repr> Loader<'a, R> {
             cyclic_mode: false,
             anchors: Vec::new(),
             doc_ind: 0,
+            inner_tag: String::new(),
         }
     }
 }
@@ -274,8 +276,12 @@ impl<R: Repr> Loader<'_, R> {
         }
         self.forward();
         let pos = self.indicator();
+        self.inner_tag.clear();
         let yaml = f(self)?;
         self.forward();
+        // The tag on the next line
+        let inner_tag = core::mem::take(&mut self.inner_tag);
+        let tag = if tag.is_empty() { inner_tag } else { tag };
         let node = Node::new_repr(yaml, pos, &tag);
         if !anchor.is_empty()
             && self.anchors[self.doc_ind]
@@ -500,6 +506,7 @@ impl<R: Repr> Loader<'_, R> {
                         self.err("map splitter")
                     } else {
                         // Return key
+                        self.inner_tag = k.raw_tag().to_string();
                         Ok(k.clone_yaml())
                     };
                 }
-- 
2.43.0


From 25fef631b5bf364e476e3b02bbfae837028d3721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 38/56] fix: do not read malformed block strings as plain
 strings

---
 src/parser/base/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 0ca00d4..83806d3 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -170,7 +170,7 @@ impl Parser<'_> {
         }
         if matches!(
             self.food(),
-            [b'#' | b' ' | b'\t', ..]
+            [b'#' | b'|' | b'>' | b' ' | b'\t', ..]
                 | [b'-' | b'?']
                 | [b'-' | b'?', b' ' | b'\t' | b'\n' | b'\r', ..]
         ) {
-- 
2.43.0


From 539e3a3864234122554696872011a50614bc6280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 39/56] fix: dump empty collections, and separate the
 properties of nested collections

---
 src/dumper.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index e007647..a6fefbd 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -91,6 +91,8 @@ impl<'a, R: Repr> Dumper<'a, R> {
                     doc += s;
                 }
             }
+            Yaml::Seq(v) if v.is_empty() => doc += "[]",
+            Yaml::Map(m) if m.is_empty() => doc += "{}",
             Yaml::Seq(v) => {
                 let mut buf = NL.to_string();
                 for (i, node) in v.iter().enumerate() {
@@ -120,14 +122,16 @@ impl<'a, R: Repr> Dumper<'a, R> {
                         buf += &s;
                     };
                     buf += ":";
-                    buf += &match v.yaml() {
-                        Yaml::Map(_) => self.part(v, Root::Map, self.level + 1),
+                    let s = match v.yaml() {
                         Yaml::Seq(_) if self.root == Root::Array && i == 0 => {
                             self.part(v, Root::Map, self.level)
                         }
-                        Yaml::Seq(_) => self.part(v, Root::Map, self.level + 1),
-                        _ => format!(" {}", self.part(v, Root::Map, self.level + 1)),
+                        _ => self.part(v, Root::Map, self.level + 1),
                     };
+                    if !s.starts_with(NL) {
+                        buf += " ";
+                    }
+                    buf += &s;
                     buf += NL;
                 }
                 buf.truncate(buf.len() - NL.len());
-- 
2.43.0


From 99bb99d912de8392c77946ba30cddfba1c9c427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 40/56] fix: dump tags, anchors and complex keys in the form
 that is read back

---
 src/dumper.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index a6fefbd..e548d45 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -46,18 +46,20 @@ impl<'a, R: Repr> Dumper<'a, R> {
         if let Some(a) = self
             .anchors
             .iter()
-            .find_map(|(k, v)| if v == self.node { Some(k) } else { None })
+            .find_map(|(k, v)| core::ptr::eq(v.yaml(), self.node.yaml()).then_some(k))
         {
             write!(doc, "&{a} ").unwrap();
         }
         let tag = self.node.tag();
-        if !tag.is_empty() && !tag.starts_with(parser::tag_prefix!()) {
-            if tag.starts_with(parser::tag_prefix!()) {
-                write!(doc, "!!{tag} ").unwrap();
-            } else if parser::Parser::new(tag.as_bytes()).identifier().is_ok() {
-                write!(doc, "!{tag} ").unwrap();
-            } else {
-                write!(doc, "!<{tag}> ").unwrap();
+        if !tag.is_empty() && tag != Node::<R>::new_repr(self.node.clone_yaml(), 0, "").tag() {
+            let is_identifier = |tag: &str| {
+                let mut p = parser::Parser::new(tag.as_bytes());
+                p.identifier().is_ok() && p.food().is_empty()
+            };
+            match tag.strip_prefix(parser::tag_prefix!()) {
+                Some(tag) if is_identifier(tag) => write!(doc, "!!{tag} ").unwrap(),
+                _ if is_identifier(tag) => write!(doc, "!{tag} ").unwrap(),
+                _ => write!(doc, "!<{tag}> ").unwrap(),
             }
         }
         let ind = "  ".repeat(self.level);
@@ -106,18 +108,20 @@ impl<'a, R: Repr> Dumper<'a, R> {
                 doc += &buf;
             }
             Yaml::Map(m) => {
-                let mut buf = match self.root {
-                    Root::Map => NL.to_string(),
-                    _ => String::new(),
+                let wrap = self.root == Root::Map || !doc.is_empty();
+                let mut buf = if wrap {
+                    NL.to_string()
+                } else {
+                    String::new()
                 };
                 for (i, (k, v)) in m.iter().enumerate() {
-                    if i != 0 || self.root == Root::Map {
+                    if i != 0 || wrap {
                         buf += &ind;
                     }
                     let s = self.part(k, Root::Map, self.level + 1);
-                    if matches!(k.yaml(), Yaml::Map(_) | Yaml::Seq(_)) {
-                        let pre_ind = "  ".repeat(self.level + 1);
-                        write!(buf, "?{pre_ind}{NL}{s}{NL}{ind}").unwrap();
+                    if s.contains(NL) {
+                        buf += if s.starts_with(NL) { "?" } else { "? " };
+                        write!(buf, "{s}{NL}{ind}").unwrap();
                     } else {
                         buf += &s;
                     };
-- 
2.43.0


From 88a3f56f09824e230a1ed23ff0f04f22c2540a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 41/56] fix: dump floats in the form that is read as floats

---
 src/dumper.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index e548d45..1e9c8ed 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -66,7 +66,13 @@ impl<'a, R: Repr> Dumper<'a, R> {
         match &self.node.yaml() {
             Yaml::Null => doc += "null",
             Yaml::Bool(b) => write!(doc, "{b}").unwrap(),
-            Yaml::Int(n) | Yaml::Float(n) => doc += n,
+            Yaml::Int(n) => doc += n,
+            Yaml::Float(n) => match to_f64(n) {
+                Ok(f) if f.is_nan() => doc += ".nan",
+                Ok(f) if f.is_infinite() => doc += if f > 0. { ".inf" } else { "-.inf" },
+                Ok(_) if !n.contains(['.', 'e', 'E']) => write!(doc, "{n}.0").unwrap(),
+                _ => doc += n,
+            },
             Yaml::Str(s) => {
                 if s.lines().nth(1).is_some() {
                     // Multiline string
-- 
2.43.0


From 09a6f264b8501010cd9c1faaf7e92302d4613d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 42/56] fix: dump strings in the style that is read back as the
 same string

---
 src/dumper.rs | 97 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 73 insertions(+), 24 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 1e9c8ed..a0cfab3 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -22,22 +22,76 @@ enum Root {
     Array,
 }
 
+// Check the string is kept by the literal string.
+fn is_literal(s: &str) -> bool {
+    !s.starts_with([' ', '\n'])
+        && !s.ends_with("\n\n")
+        && !s.contains('\r')
+        && s.lines().all(|s| s.is_empty() || !s.trim().is_empty())
+}
+
+// Check the string is kept by the plain string, in any block structure.
+fn is_plain<R: Repr>(s: &str) -> bool {
+    let node = Node::<R>::from(s);
+    !s.starts_with('%')
+        && !s.contains(['\n', '\r'])
+        && matches!(parse::<R>(s), Ok(v) if v.len() == 1 && v[0] == node)
+        && matches!(
+            parse::<R>(&format!("{s}: {s}")),
+            Ok(v) if v.len() == 1 && v[0] == Node::from_iter([(node.clone(), node)])
+        )
+}
+
+// Quote the string with the escape sequences.
+fn quote(s: &str) -> String {
+    let mut doc = String::from('"');
+    for c in s.chars() {
+        match c {
+            '"' => doc += "\\\"",
+            '\\' => doc += "\\\\",
+            '\n' => doc += "\\n",
+            '\r' => doc += "\\r",
+            '\t' => doc += "\\t",
+            c if c.is_control() => write!(doc, "\\x{:02X}", c as u32).unwrap(),
+            c => doc.push(c),
+        }
+    }
+    doc + "\""
+}
+
 /// Dumper for nodes.
 pub struct Dumper<'a, R: Repr> {
     node: &'a Node<R>,
     root: Root,
     level: usize,
+    is_key: bool,
     anchors: &'a Anchors<R>,
 }
 
 impl<'a, R: Repr> Dumper<'a, R> {
     /// Create the dumper.
     pub fn new(node: &'a Node<R>, anchors: &'a Anchors<R>) -> Self {
-        Self { node, root: Root::Scalar, level: 0, anchors }
+        Self {
+            node,
+            root: Root::Scalar,
+            level: 0,
+            is_key: false,
+            anchors,
+        }
     }
 
     fn part(&self, node: &'a Node<R>, root: Root, level: usize) -> String {
-        Self { node, root, level, anchors: self.anchors }.dump()
+        Self { root, level, ..Self::new(node, self.anchors) }.dump()
+    }
+
+    fn key(&self, node: &'a Node<R>) -> String {
+        Self {
+            root: Root::Map,
+            level: self.level + 1,
+            is_key: true,
+            ..Self::new(node, self.anchors)
+        }
+        .dump()
     }
 
     /// Dump into string.
@@ -74,29 +128,23 @@ impl<'a, R: Repr> Dumper<'a, R> {
                 _ => doc += n,
             },
             Yaml::Str(s) => {
-                if s.lines().nth(1).is_some() {
+                if s.lines().nth(1).is_some() && !self.is_key && is_literal(s) {
                     // Multiline string
-                    let s = s
-                        .lines()
-                        .map(|s| {
-                            if s.is_empty() {
-                                String::new()
-                            } else {
-                                ind.to_string() + s.trim_end()
-                            }
-                        })
-                        .collect::<Vec<_>>()
-                        .join(NL);
-                    write!(doc, "|{NL}{ind}{}", s.trim()).unwrap();
-                } else if parser::Parser::new(s.as_bytes())
-                    .string_plain(0, false)
-                    .is_err()
-                {
-                    // Literal string, not plain string
-                    write!(doc, "{s:?}").unwrap();
-                } else {
+                    let ind = "  ".repeat(self.level.max(1));
+                    doc += if s.ends_with('\n') { "|" } else { "|-" };
+                    for s in s.lines() {
+                        doc += NL;
+                        if !s.is_empty() {
+                            doc += &ind;
+                            doc += s;
+                        }
+                    }
+                } else if is_plain::<R>(s) {
                     // Single line string
                     doc += s;
+                } else {
+                    // Quoted string, not plain string
+                    doc += &quote(s);
                 }
             }
             Yaml::Seq(v) if v.is_empty() => doc += "[]",
@@ -124,7 +172,7 @@ impl<'a, R: Repr> Dumper<'a, R> {
                     if i != 0 || wrap {
                         buf += &ind;
                     }
-                    let s = self.part(k, Root::Map, self.level + 1);
+                    let s = self.key(k);
                     if s.contains(NL) {
                         buf += if s.starts_with(NL) { "?" } else { "? " };
                         write!(buf, "{s}{NL}{ind}").unwrap();
@@ -156,7 +204,8 @@ impl<'a, R: Repr> Dumper<'a, R> {
 /// Dump the YAML data in to block format.
 ///
 /// Dumper will use plain string when the string is none-wrapped,
-/// otherwise it use literal string and trim the last white spaces.
+/// otherwise it use literal string.
+/// The strings that cannot be kept in these styles are double quoted.
 ///
 /// ```
 /// use yaml_peg::{dump, node, dumper::NL};
-- 
2.43.0


From 83fe6f71f07610cf6530fa7d72d53dc7b51a9c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 43/56] fix: dump keys with properties as complex keys

---
 src/dumper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index a0cfab3..1bc0f39 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -173,7 +173,7 @@ impl<'a, R: Repr> Dumper<'a, R> {
                         buf += &ind;
                     }
                     let s = self.key(k);
-                    if s.contains(NL) {
+                    if s.contains(NL) || s.starts_with(['&', '!']) {
                         buf += if s.starts_with(NL) { "?" } else { "? " };
                         write!(buf, "{s}{NL}{ind}").unwrap();
                     } else {
-- 
2.43.0


From d8cee5bff1bbf43a56b25c7f0c376631b3e7a269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 44/56] fix: keep leading Unicode spaces of the dumped
 documents

---
 src/dumper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 1bc0f39..da9be4c 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -241,7 +241,7 @@ pub fn dump<R: Repr>(nodes: &[Node<R>], anchors: &[Anchors<R>]) -> String {
             let doc = Dumper::new(node, anchors).dump() + NL;
             match i {
                 0 => doc,
-                _ => format!("---{NL}{}", doc.trim_start()),
+                _ => format!("---{NL}{}", doc.strip_prefix(NL).unwrap_or(&doc)),
             }
         })
         .collect()
-- 
2.43.0


From 0e21d3b84e04e6e3b78e47a7563a2995641dba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 45/56] fix: keep spaces, line breaks and blank lines of
 multi-line plain and folded strings

---
 src/parser/base/grammar.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 83806d3..f19134e 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -186,7 +186,6 @@ impl Parser<'_> {
         }
         self.context(|p| {
             let mut v = String::new();
-            let mut is_leading = false;
             loop {
                 p.forward();
                 p.take_while(Self::not_in(&patt), TakeOpt::More(0))?;
@@ -201,19 +200,15 @@ impl Parser<'_> {
                     break;
                 }
                 if p.sym_set(b": \t").is_ok() {
-                    // Remove leading space
-                    if is_leading && p.text() != ":" {
-                        v.truncate(v.trim_end().len());
-                    }
                     v.push_str(&p.text());
                 } else if !inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok() {
                     v.push_str(&p.text());
-                    is_leading = false;
                 } else if v.is_empty() {
                     // Plain string never starts with a new line
                     break;
                 } else if p.count(|p| p.ind(level)).unwrap_or_default() == 0 {
                     if let Ok(t) = p.gap(true) {
+                        v.truncate(v.trim_end_matches([' ', '\t']).len());
                         if t == 1 {
                             v.push(' ');
                         }
@@ -223,13 +218,14 @@ impl Parser<'_> {
                         if p.ind(level).is_err() {
                             break;
                         }
+                        // Remove leading space
+                        p.ws(TakeOpt::More(0))?;
                     } else {
                         break;
                     }
-                    is_leading = true;
                 }
             }
-            v.truncate(v.trim_end().len());
+            v.truncate(v.trim_end_matches([' ', '\t', '\n']).len());
             if v.is_empty() {
                 Err(PError::Mismatch)
             } else {
@@ -332,8 +328,11 @@ impl Parser<'_> {
                     }
                     v.push_str(&s);
                 } else {
-                    let s = s.trim_start();
-                    if !v.is_empty() && !v.ends_with(char::is_whitespace) {
+                    let s = s.trim_start_matches([' ', '\t']);
+                    if s.is_empty() {
+                        // Blank line
+                        v.push('\n');
+                    } else if !v.is_empty() && !v.ends_with('\n') {
                         v.push(char::from(sep));
                     }
                     v.push_str(s);
-- 
2.43.0


From e2eb1dc9cfa34bb8c178e2a4caad5e5c8fa5eb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 46/56] fix: out of range numbers are errors in serde instead
 of truncation or panic

---
 src/serde/de.rs       | 124 +++++++++++++++++++++++++++++-------------
 src/serde/ser_node.rs |  15 ++++-
 2 files changed, 99 insertions(+), 40 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eb20941..1070003 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -27,6 +27,17 @@ macro_rules! impl_visitor {
     };
 }
 
+macro_rules! impl_number {
+    ($(fn $method:ident => $visit:ident)+) => {
+        $(fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+        where
+            V: Visitor<'a>,
+        {
+            $visit(&self, visitor)
+        })+
+    };
+}
+
 macro_rules! impl_deserializer {
     ($(fn $method:ident($ty:ident) => $visit:ident($n:ident => $value:expr))+) => {
         $(fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -96,6 +107,13 @@ impl<'a, R: Repr> Visitor<'a> for NodeVisitor<R> {
         fn visit_unit
     }
 
+    serde_if_integer128! {
+        impl_visitor! {
+            fn visit_i128(i128)
+            fn visit_u128(u128)
+        }
+    }
+
     fn visit_some<D>(self, deserializer: D) -> Result<Self::Value, D::Error>
     where
         D: Deserializer<'a>,
@@ -279,8 +297,8 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         match self.yaml() {
             Yaml::Null => visitor.visit_unit(),
             Yaml::Bool(b) => visitor.visit_bool(*b),
-            Yaml::Int(n) => visitor.visit_i64(to_i64(n).unwrap()),
-            Yaml::Float(n) => visitor.visit_f64(to_f64(n).unwrap()),
+            Yaml::Int(_) => visit_int(&self, visitor),
+            Yaml::Float(_) => visit_float(&self, visitor),
             Yaml::Str(s) => visitor.visit_str(s),
             Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
             Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
@@ -290,23 +308,28 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
 
     impl_deserializer! {
         fn deserialize_bool(Bool) => visit_bool(v => *v)
-        fn deserialize_i8(Int) => visit_i8(n => to_i64(n).unwrap() as i8)
-        fn deserialize_i16(Int) => visit_i16(n => to_i64(n).unwrap() as i16)
-        fn deserialize_i32(Int) => visit_i32(n => to_i64(n).unwrap() as i32)
-        fn deserialize_i64(Int) => visit_i64(n => to_i64(n).unwrap())
-        fn deserialize_u8(Int) => visit_u8(n => to_i64(n).unwrap() as u8)
-        fn deserialize_u16(Int) => visit_u16(n => to_i64(n).unwrap() as u16)
-        fn deserialize_u32(Int) => visit_u32(n => to_i64(n).unwrap() as u32)
-        fn deserialize_u64(Int) => visit_u64(n => to_i64(n).unwrap() as u64)
         fn deserialize_seq(Seq) => visit_seq(a => SeqVisitor::from(a.clone()))
         fn deserialize_map(Map) => visit_map(m => MapVisitor::from(m.clone()))
         fn deserialize_identifier(Str) => visit_str(s => s)
     }
 
+    impl_number! {
+        fn deserialize_i8 => visit_int
+        fn deserialize_i16 => visit_int
+        fn deserialize_i32 => visit_int
+        fn deserialize_i64 => visit_int
+        fn deserialize_u8 => visit_uint
+        fn deserialize_u16 => visit_uint
+        fn deserialize_u32 => visit_uint
+        fn deserialize_u64 => visit_uint
+        fn deserialize_f32 => visit_float
+        fn deserialize_f64 => visit_float
+    }
+
     serde_if_integer128! {
-        impl_deserializer! {
-            fn deserialize_i128(Int) => visit_i128(n => to_i64(n).unwrap() as i128)
-            fn deserialize_u128(Int) => visit_u128(n => to_i64(n).unwrap() as u128)
+        impl_number! {
+            fn deserialize_i128 => visit_int
+            fn deserialize_u128 => visit_uint
         }
     }
 
@@ -338,35 +361,13 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         }
     }
 
-    fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'a>,
-    {
-        match self.yaml() {
-            Yaml::Float(n) => visitor.visit_f32(to_f64(n).unwrap() as f32),
-            Yaml::Int(n) => visitor.visit_f32(to_i64(n).unwrap() as f32),
-            _ => Err(unexpected(&self, visitor)),
-        }
-    }
-
-    fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'a>,
-    {
-        match self.yaml() {
-            Yaml::Float(n) => visitor.visit_f64(to_f64(n).unwrap()),
-            Yaml::Int(n) => visitor.visit_f64(to_i64(n).unwrap() as f64),
-            _ => Err(unexpected(&self, visitor)),
-        }
-    }
-
     fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'a>,
     {
         match self.yaml() {
             Yaml::Str(s) => {
-                if s.len() == 1 {
+                if s.chars().count() == 1 {
                     visitor.visit_char(s.chars().next().unwrap())
                 } else {
                     Err(unexpected(&self, visitor))
@@ -513,13 +514,60 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     }
 }
 
+// The out of range integers are the errors of the visitor.
+fn visit_int<'a, R: Repr, V: Visitor<'a>>(
+    node: &Node<R>,
+    visitor: V,
+) -> Result<V::Value, SerdeError> {
+    let ret: Result<_, SerdeError> = match node.yaml() {
+        Yaml::Int(n) => match (to_i64(n), n.parse(), n.parse()) {
+            (Ok(n), _, _) => visitor.visit_i64(n),
+            (_, Ok(n), _) => visitor.visit_u64(n),
+            (_, _, Ok(n)) => visitor.visit_i128(n),
+            _ => match n.parse() {
+                Ok(n) => visitor.visit_u128(n),
+                Err(_) => Err(unexpected(node, visitor)),
+            },
+        },
+        _ => Err(unexpected(node, visitor)),
+    };
+    ret.map_err(|e| e.pos(node.pos()))
+}
+
+fn visit_uint<'a, R: Repr, V: Visitor<'a>>(
+    node: &Node<R>,
+    visitor: V,
+) -> Result<V::Value, SerdeError> {
+    match node.as_int() {
+        Ok(n @ 0..) => visitor.visit_u64(n as u64),
+        _ => return visit_int(node, visitor),
+    }
+    .map_err(|e: SerdeError| e.pos(node.pos()))
+}
+
+fn visit_float<'a, R: Repr, V: Visitor<'a>>(
+    node: &Node<R>,
+    visitor: V,
+) -> Result<V::Value, SerdeError> {
+    let n = match node.yaml() {
+        // The integers out of range
+        Yaml::Int(n) => node.as_number().or_else(|_| to_f64(n)),
+        Yaml::Float(n) => to_f64(n),
+        _ => return Err(unexpected(node, visitor)),
+    };
+    match n {
+        Ok(n) => visitor.visit_f64(n),
+        Err(_) => Err(unexpected(node, visitor)),
+    }
+}
+
 #[cold]
 fn unexpected<R: Repr>(node: &Node<R>, exp: impl Expected) -> SerdeError {
     let ty = match node.yaml() {
         Yaml::Null => Unexpected::Unit,
         Yaml::Bool(b) => Unexpected::Bool(*b),
-        Yaml::Int(n) => Unexpected::Signed(to_i64(n).unwrap()),
-        Yaml::Float(n) => Unexpected::Float(to_f64(n).unwrap()),
+        Yaml::Int(n) => to_i64(n).map_or(Unexpected::Other("integer"), Unexpected::Signed),
+        Yaml::Float(n) => to_f64(n).map_or(Unexpected::Other("float"), Unexpected::Float),
         Yaml::Str(s) => Unexpected::Str(s),
         Yaml::Seq(_) => Unexpected::Seq,
         Yaml::Map(_) => Unexpected::Map,
diff --git a/src/serde/ser_node.rs b/src/serde/ser_node.rs
index af2255f..8015560 100644
--- a/src/serde/ser_node.rs
+++ b/src/serde/ser_node.rs
@@ -13,8 +13,19 @@ impl<R: Repr> Serialize for Node<R> {
         match self.yaml() {
             Yaml::Null => serializer.serialize_unit(),
             Yaml::Bool(b) => serializer.serialize_bool(*b),
-            Yaml::Int(n) => serializer.serialize_i64(to_i64(n).unwrap()),
-            Yaml::Float(n) => serializer.serialize_f64(to_f64(n).unwrap()),
+            Yaml::Int(n) => match (to_i64(n), n.parse(), n.parse()) {
+                (Ok(n), _, _) => serializer.serialize_i64(n),
+                (_, Ok(n), _) => serializer.serialize_u64(n),
+                (_, _, Ok(n)) => serializer.serialize_i128(n),
+                _ => match n.parse() {
+                    Ok(n) => serializer.serialize_u128(n),
+                    Err(_) => Err(S::Error::custom(format!("integer {n}"))),
+                },
+            },
+            Yaml::Float(n) => match to_f64(n) {
+                Ok(n) => serializer.serialize_f64(n),
+                Err(_) => Err(S::Error::custom(format!("float {n}"))),
+            },
             Yaml::Str(s) => serializer.serialize_str(s),
             Yaml::Seq(v) => v.serialize(serializer),
             Yaml::Map(m) => {
-- 
2.43.0


From 3ca57582be334200a183a6d0ddb7d49bfc1a38b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 47/56] fix: complex keys without value are not null

---
 src/parser/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 2acd1ad..e3c3e92 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -402,9 +402,7 @@ impl<R: Repr> Loader<'_, R> {
                 let k = self
                     .scalar(level + 1, false, true)
                     .or_else(|e| e.or(|| self.err("flow map key")))?;
-                if self.gap(true).is_ok() {
-                    self.ind(level)?;
-                }
+                self.gap(true).unwrap_or_default();
                 k
             } else {
                 self.scalar_flow(level + 1, true)
@@ -493,8 +491,8 @@ impl<R: Repr> Loader<'_, R> {
                     let k = self
                         .scalar(level + 1, true, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
-                    if self.gap(true).is_ok() {
-                        self.ind(level)?;
+                    if self.gap(true).is_ok() && self.ind(level).is_err() {
+                        return self.err("map splitter");
                     }
                     k
                 } else {
@@ -524,8 +522,8 @@ impl<R: Repr> Loader<'_, R> {
                     let k = self
                         .scalar(level + 1, true, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
-                    if self.gap(true).is_ok() {
-                        self.ind(level)?;
+                    if self.gap(true).is_ok() && self.ind(level).is_err() {
+                        return self.err("map splitter");
                     }
                     k
                 } else {
-- 
2.43.0


From 2942e5a890566c47067b1202368a2eb594a495eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 48/56] fix: invalid directives are ignored as documented,
 check the whole version

---
 src/parser/base/directive.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/base/directive.rs b/src/parser/base/directive.rs
index 54d10c1..7a93a70 100644
--- a/src/parser/base/directive.rs
+++ b/src/parser/base/directive.rs
@@ -11,10 +11,12 @@ impl Parser<'_> {
             } else if p.sym_seq(b"TAG").is_ok() {
                 p.directive_tag()
             } else {
-                // Unknown - ignore
-                p.take_while(Self::not_in(b"\n\r"), TakeOpt::More(0))
+                Err(PError::Mismatch)
             }
-        })?;
+        })
+        .or_else(|e| e.or(|| Ok(())))?;
+        // Unknown or invalid - ignore
+        self.take_while(Self::not_in(b"\n\r"), TakeOpt::More(0))?;
         self.gap(true).map(|_| ())
     }
 
@@ -22,7 +24,7 @@ impl Parser<'_> {
         self.ws(TakeOpt::More(1))?;
         if self.version_checked {
             self.err("checked version")
-        } else if !self.context(|p| p.sym_seq(b"1.1").is_ok() || p.sym_seq(b"1.2").is_ok()) {
+        } else if !self.context(|p| p.doc_mark(b"1.1").is_ok() || p.doc_mark(b"1.2").is_ok()) {
             self.err("invalid version")
         } else {
             self.version_checked = true;
-- 
2.43.0


From 267ef664387668cb3a724c255fadbc4eba386dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 49/56] fix: empty verbatim tags are errors

---
 src/parser/base/grammar.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index f19134e..2390362 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -431,13 +431,13 @@ impl Parser<'_> {
             } else if p.sym(b'<').is_ok() {
                 // Full tag
                 let tag = p.context(|p| {
-                    p.take_while(Self::not_in(b" <>\n\r"), TakeOpt::More(1))?;
-                    Ok(p.text())
-                })?;
-                if p.sym(b'>').is_err() {
+                    p.take_while(Self::not_in(b" <>\n\r"), TakeOpt::More(1))
+                        .map(|()| p.text())
+                });
+                if tag.is_err() || p.sym(b'>').is_err() {
                     return p.err("full tag terminator");
                 }
-                return Ok(tag);
+                return tag;
             } else if p.sym(b'!').is_ok() {
                 p.tag["!!"].clone()
             } else {
-- 
2.43.0


From a65812f40ef9a2c02da31059ea29e7ae810978b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 50/56] fix: aliases keep the tag of the anchored node

---
 src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e3c3e92..801054f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -302,6 +302,8 @@ impl<R: Repr> Loader<'_, R> {
             if self.cyclic_mode {
                 R::new_rc(Yaml::Alias(s))
             } else if let Some(node) = self.anchors[self.doc_ind].get(&s) {
+                // The alias is the same node
+                self.inner_tag = node.raw_tag().to_string();
                 node.clone_yaml()
             } else {
                 return self.err("anchor referenced before definition");
-- 
2.43.0


From d69fbdbf44b919ca346ba1e35079c225ca8dda19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 51/56] fix: a backslash and an n at the end of a quoted line
 is no line break

The manual wrapping is only done after the escape sequence of the double
quoted string, the blank was lost in single quoted strings and after an
escaped backslash.
---
 src/parser/base/grammar.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 2390362..f84d152 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -123,8 +123,12 @@ impl Parser<'_> {
                     match t.cmp(&1) {
                         Ordering::Less => {}
                         Ordering::Equal => {
-                            // Manual wrapping
-                            if !v.ends_with("\\n") {
+                            // Manual wrapping by the escape sequence
+                            let wrap = v.strip_suffix("\\n").map_or(false, |s| {
+                                let n = s.len() - s.trim_end_matches('\\').len();
+                                sym == b'"' && n % 2 == 0
+                            });
+                            if !wrap {
                                 v.push(' ');
                             }
                         }
-- 
2.43.0


From 568dfb6741877498ddd9fe996c716a5090484394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 52/56] fix: clear the indentation of the last document

A compact collection on the root of the next document was compared with the
indentation of the last document.
---
 src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 801054f..e342cf0 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -200,6 +200,8 @@ impl<R: Repr> Loader<'_, R> {
         });
         self.forward();
         self.anchors.push(Anchors::new());
+        // Clear the indent settings of the last document
+        self.ind(0)?;
         let ret = self.scalar(0, false, false)?;
         self.gap(true).unwrap_or_default();
         self.doc_mark(b"...").unwrap_or_default();
-- 
2.43.0


From 5df9340c9e44ac04ffe8975073b0694fe0367d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 53/56] fix: refuse sequences with more items than the type
 takes

---
 src/serde/de.rs | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index 1070003..eee7d9f 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -247,7 +247,7 @@ impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
     {
         match self.0 {
             Some(node) => match node.yaml() {
-                Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
+                Yaml::Seq(v) => visit_seq(v, visitor),
                 _ => Err(unexpected(&node, "tuple variant")),
             },
             None => Err(Error::invalid_type(
@@ -300,7 +300,7 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
             Yaml::Int(_) => visit_int(&self, visitor),
             Yaml::Float(_) => visit_float(&self, visitor),
             Yaml::Str(s) => visitor.visit_str(s),
-            Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
+            Yaml::Seq(v) => visit_seq(v, visitor),
             Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
             Yaml::Alias(a) => Err(SerdeError::from(format!("anchor {a}")).pos(self.pos())),
         }
@@ -308,7 +308,6 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
 
     impl_deserializer! {
         fn deserialize_bool(Bool) => visit_bool(v => *v)
-        fn deserialize_seq(Seq) => visit_seq(a => SeqVisitor::from(a.clone()))
         fn deserialize_map(Map) => visit_map(m => MapVisitor::from(m.clone()))
         fn deserialize_identifier(Str) => visit_str(s => s)
     }
@@ -333,6 +332,16 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         }
     }
 
+    fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'a>,
+    {
+        match self.yaml() {
+            Yaml::Seq(v) => visit_seq(v, visitor),
+            _ => Err(unexpected(&self, visitor)),
+        }
+    }
+
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'a>,
@@ -397,7 +406,7 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     {
         match self.yaml() {
             Yaml::Str(s) => visitor.visit_str(s),
-            Yaml::Seq(v) => visitor.visit_seq(&mut SeqVisitor::from(v.clone())),
+            Yaml::Seq(v) => visit_seq(v, visitor),
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -474,7 +483,7 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
+            Yaml::Seq(v) => visit_seq(v, visitor),
             Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
             _ => Err(unexpected(&self, visitor)),
         }
@@ -514,6 +523,22 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     }
 }
 
+// The items that are not visited are an error.
+fn visit_seq<'a, R: Repr, V: Visitor<'a>>(
+    seq: &Seq<R>,
+    visitor: V,
+) -> Result<V::Value, SerdeError> {
+    let mut items = SeqVisitor::from(seq.clone());
+    let ret = visitor.visit_seq(&mut items)?;
+    match items.0.len() {
+        0 => Ok(ret),
+        n => {
+            let visited = format!("{} elements in sequence", seq.len() - n);
+            Err(Error::invalid_length(seq.len(), &visited.as_str()))
+        }
+    }
+}
+
 // The out of range integers are the errors of the visitor.
 fn visit_int<'a, R: Repr, V: Visitor<'a>>(
     node: &Node<R>,
-- 
2.43.0


From 97cfdf3e5c4ef79cdefb13813b7c8b34c9fe4836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 54/56] fix: report the position of the node in the errors of
 the visitors

---
 src/serde/de.rs    | 27 +++++++++++++++++++++++----
 src/serde/error.rs |  9 +++++++++
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eee7d9f..4fdb8eb 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -48,6 +48,7 @@ macro_rules! impl_deserializer {
                 Yaml::$ty($n) => visitor.$visit($value),
                 _ => Err(unexpected(&self, visitor)),
             }
+            .map_err(|e: SerdeError| e.or_pos(self.pos()))
         })+
     };
 }
@@ -249,7 +250,8 @@ impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
             Some(node) => match node.yaml() {
                 Yaml::Seq(v) => visit_seq(v, visitor),
                 _ => Err(unexpected(&node, "tuple variant")),
-            },
+            }
+            .map_err(|e| e.or_pos(node.pos())),
             None => Err(Error::invalid_type(
                 Unexpected::TupleVariant,
                 &"tuple variant",
@@ -269,7 +271,8 @@ impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
             Some(node) => match node.yaml() {
                 Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
                 _ => Err(unexpected(&node, "struct variant")),
-            },
+            }
+            .map_err(|e| e.or_pos(node.pos())),
             None => Err(Error::invalid_type(
                 Unexpected::UnitVariant,
                 &"struct variant",
@@ -304,6 +307,7 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
             Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
             Yaml::Alias(a) => Err(SerdeError::from(format!("anchor {a}")).pos(self.pos())),
         }
+        .map_err(|e: SerdeError| e.or_pos(self.pos()))
     }
 
     impl_deserializer! {
@@ -340,6 +344,7 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
             Yaml::Seq(v) => visit_seq(v, visitor),
             _ => Err(unexpected(&self, visitor)),
         }
+        .map_err(|e: SerdeError| e.or_pos(self.pos()))
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -354,6 +359,7 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
             Yaml::Null => visitor.visit_str("null"),
             _ => Err(unexpected(&self, visitor)),
         }
+        .map_err(|e: SerdeError| e.or_pos(self.pos()))
     }
 
     fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -368,6 +374,7 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
             Yaml::Null => visitor.visit_str("null"),
             _ => Err(unexpected(&self, visitor)),
         }
+        .map_err(|e: SerdeError| e.or_pos(self.pos()))
     }
 
     fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -391,6 +398,7 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
             }
             _ => Err(unexpected(&self, visitor)),
         }
+        .map_err(|e: SerdeError| e.or_pos(self.pos()))
     }
 
     fn deserialize_bytes<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -409,16 +417,19 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
             Yaml::Seq(v) => visit_seq(v, visitor),
             _ => Err(unexpected(&self, visitor)),
         }
+        .map_err(|e: SerdeError| e.or_pos(self.pos()))
     }
 
     fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'a>,
     {
+        let pos = self.pos();
         match self.yaml() {
             Yaml::Null => visitor.visit_none(),
             _ => visitor.visit_some(self),
         }
+        .map_err(|e: SerdeError| e.or_pos(pos))
     }
 
     fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -430,6 +441,7 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         } else {
             Err(unexpected(&self, visitor))
         }
+        .map_err(|e: SerdeError| e.or_pos(self.pos()))
     }
 
     fn deserialize_unit_struct<V>(
@@ -451,7 +463,10 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     where
         V: Visitor<'a>,
     {
-        visitor.visit_newtype_struct(self)
+        let pos = self.pos();
+        visitor
+            .visit_newtype_struct(self)
+            .map_err(|e: SerdeError| e.or_pos(pos))
     }
 
     fn deserialize_tuple<V>(self, _len: usize, visitor: V) -> Result<V::Value, Self::Error>
@@ -487,6 +502,7 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
             Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
             _ => Err(unexpected(&self, visitor)),
         }
+        .map_err(|e: SerdeError| e.or_pos(self.pos()))
     }
 
     fn deserialize_enum<V>(
@@ -512,7 +528,9 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
             Yaml::Str(_) => (self.clone(), None),
             _ => return Err(unexpected(&self, visitor)),
         };
-        visitor.visit_enum(EnumVisitor(k, v))
+        visitor
+            .visit_enum(EnumVisitor(k, v))
+            .map_err(|e| e.or_pos(self.pos()))
     }
 
     fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -584,6 +602,7 @@ fn visit_float<'a, R: Repr, V: Visitor<'a>>(
         Ok(n) => visitor.visit_f64(n),
         Err(_) => Err(unexpected(node, visitor)),
     }
+    .map_err(|e: SerdeError| e.or_pos(node.pos()))
 }
 
 #[cold]
diff --git a/src/serde/error.rs b/src/serde/error.rs
index a784c14..63de6f4 100644
--- a/src/serde/error.rs
+++ b/src/serde/error.rs
@@ -21,6 +21,15 @@ impl SerdeError {
         self.pos = pos;
         self
     }
+
+    // The position of the innermost node is kept.
+    pub(crate) fn or_pos(self, pos: u64) -> Self {
+        if self.pos == 0 {
+            self.pos(pos)
+        } else {
+            self
+        }
+    }
 }
 
 impl From<String> for SerdeError {
-- 
2.43.0


From 98ca68207c8ea4a68020e5e2dca74f63f74af076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 55/56] fix: take nothing if the range of take_while ends at
 zero

---
 src/parser/base/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index 680a112..5478c3c 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -154,6 +154,11 @@ impl Parser<'_> {
         let pos = self.pos;
         let mut counter = 0;
         for c in self.food() {
+            if let TakeOpt::Range(_, c) = opt {
+                if counter == c {
+                    break;
+                }
+            }
             if !f(c) {
                 break;
             }
@@ -162,11 +167,6 @@ impl Parser<'_> {
             if let TakeOpt::One = opt {
                 break;
             }
-            if let TakeOpt::Range(_, c) = opt {
-                if counter == c {
-                    break;
-                }
-            }
         }
         if pos == self.pos {
             if let TakeOpt::More(c) | TakeOpt::Range(c, _) = opt {
-- 
2.43.0


From e8138548de660ae858590572044025489ae55626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:57 +0000
Subject: [PATCH 56/56] fix: anchors of the sub-parsers out of the documents

---
 src/parser/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e342cf0..e8026ea 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -199,6 +199,7 @@ impl<R: Repr> Loader<'_, R> {
             p.gap(true).unwrap_or_default();
         });
         self.forward();
+        self.anchors.truncate(self.doc_ind);
         self.anchors.push(Anchors::new());
         // Clear the indent settings of the last document
         self.ind(0)?;
@@ -210,6 +211,14 @@ impl<R: Repr> Loader<'_, R> {
         Ok(ret)
     }
 
+    // The anchors of the current document, the sub-parsers can be used alone
+    fn doc_anchors(&mut self) -> &mut Anchors<R> {
+        if self.anchors.len() <= self.doc_ind {
+            self.anchors.push(Anchors::new());
+        }
+        &mut self.anchors[self.doc_ind]
+    }
+
     /// Match doc end.
     pub fn doc_end(&mut self) -> bool {
         if self.food().is_empty() {
@@ -285,11 +294,7 @@ impl<R: Repr> Loader<'_, R> {
         let inner_tag = core::mem::take(&mut self.inner_tag);
         let tag = if tag.is_empty() { inner_tag } else { tag };
         let node = Node::new_repr(yaml, pos, &tag);
-        if !anchor.is_empty()
-            && self.anchors[self.doc_ind]
-                .insert(anchor, node.clone())
-                .is_some()
-        {
+        if !anchor.is_empty() && self.doc_anchors().insert(anchor, node.clone()).is_some() {
             self.err("duplicated anchor definition")
         } else {
             Ok(node)
@@ -303,7 +308,7 @@ impl<R: Repr> Loader<'_, R> {
         } else if let Ok(s) = self.anchor_use() {
             if self.cyclic_mode {
                 R::new_rc(Yaml::Alias(s))
-            } else if let Some(node) = self.anchors[self.doc_ind].get(&s) {
+            } else if let Some(node) = self.doc_anchors().get(&s).cloned() {
                 // The alias is the same node
                 self.inner_tag = node.raw_tag().to_string();
                 node.clone_yaml()
-- 
2.43.0

