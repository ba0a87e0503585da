From 7a1f146c36c0f1cd2bd46fb7e4586cc02a934d45 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 1/6] fix: code_snippet panics when len_hint ends inside a
 multi-byte character

---
 runtime/src/str_stream.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/runtime/src/str_stream.rs b/runtime/src/str_stream.rs
index 2465b37..5f4e4e1 100644
--- a/runtime/src/str_stream.rs
+++ b/runtime/src/str_stream.rs
@@ -141,7 +141,12 @@ impl<'a> CodeSnippet for StrStream<'a>
     }
     else {
       let len = min(total_len - current_offset, len_hint);
-      String::from(&self.raw_data[current_offset..][..len])
+      let mut end_offset = current_offset + len;
+      // The snippet must not stop in the middle of a multi-byte character.
+      while !self.raw_data.is_char_boundary(end_offset) {
+        end_offset -= 1;
+      }
+      String::from(&self.raw_data[current_offset..end_offset])
     }
   }
 }
-- 
2.43.0


From 671000a1729dbdff7750fe1ca680eea7f36221ea Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 2/6] fix: line and column are wrong after a CRLF line ending

---
 runtime/src/str_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/str_stream.rs b/runtime/src/str_stream.rs
index 5f4e4e1..b540fe1 100644
--- a/runtime/src/str_stream.rs
+++ b/runtime/src/str_stream.rs
@@ -63,7 +63,7 @@ impl<'a> StrStream<'a>
   pub fn line_column(&self) -> (usize, usize) {
     let mut remaining = self.bytes_offset;
     let mut line_no = 1usize;
-    for line in self.raw_data.lines() {
+    for line in self.raw_data.split('\n') {
       let line_len = line.len() + 1;
       if remaining < line_len {
         break;
-- 
2.43.0


From 817c535afa2e098023688474f8b1dd9d7e02d5f2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 3/6] fix: line starts registered in the FileMap are wrong
 after a CRLF line ending

---
 runtime/src/file_map_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/file_map_stream.rs b/runtime/src/file_map_stream.rs
index d14abbe..5768f8b 100644
--- a/runtime/src/file_map_stream.rs
+++ b/runtime/src/file_map_stream.rs
@@ -50,7 +50,7 @@ impl<'a> FileMapStream<'a>
     // Mostly from Rust compiler (codemap.rs).
     if filemap.count_lines() == 0 {
       let mut byte_pos: u32 = filemap.start_pos.0;
-      for line in src.lines() {
+      for line in src.split_terminator('\n') {
         // register the start of this line
         filemap.next_line(BytePos(byte_pos));
         // update byte_pos to include this line and the \n at the end
-- 
2.43.0


From 61ae7af42e00f5d6f39c8566a7258f903e503bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 4/6] fix: a span operator inside a sequence is refused, not
 read as two or three characters

---
 src/liboak/front/parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/liboak/front/parser.rs b/src/liboak/front/parser.rs
index 24df064..90c3c72 100644
--- a/src/liboak/front/parser.rs
+++ b/src/liboak/front/parser.rs
@@ -322,6 +322,13 @@ impl FGrammar {
         let lit_str: LitStr = ps.parse()?;
         Some(self.alloc_expr(span, StrLiteral(lit_str.value())))
       }
+      // Must precede the test for `.`, which is also true on the first character of `..`.
+      else if ps.peek(Token![..]) {
+        return Err(Error::new(span,
+          format!("A span expression `.. e1 e2` must always start a sequence (in rule {}). \
+            You can force this by grouping the spanned expression with parenthesis: `e1 (.. e2)` instead of `e1 .. e2`.",
+            rule_name).as_str()));
+      }
       // Any character `.`
       else if ps.peek(Token![.]) {
         let _: Token![.] = ps.parse()?;
@@ -352,12 +359,6 @@ impl FGrammar {
         let _ = bracketed!(sub_ps in ps);
         Some(self.parse_char_class(&sub_ps, span, rule_name)?)
       }
-      else if ps.peek(Token![..]) {
-        return Err(Error::new(span,
-          format!("A span expression `.. e1 e2` must always start a sequence (in rule {}). \
-            You can force this by grouping the spanned expression with parenthesis: `e1 (.. e2)` instead of `e1 .. e2`.",
-            rule_name).as_str()));
-      }
       else {
         None
       };
-- 
2.43.0


From b96dec241da3135a499df59a4896d0aa251f2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 5/6] fix: chaining warnings only where the suggested
 expression is equivalent

---
 .../middle/analysis/useless_chaining.rs       | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/liboak/middle/analysis/useless_chaining.rs b/src/liboak/middle/analysis/useless_chaining.rs
index 4e46fdd..e1f9f30 100644
--- a/src/liboak/middle/analysis/useless_chaining.rs
+++ b/src/liboak/middle/analysis/useless_chaining.rs
@@ -26,7 +26,7 @@
 //! e?+         Taken care of by WFA.
 //! e?*         Taken care of by WFA.
 //! e+? -> e*
-//! e+* -> e+
+//! e+* -> e*
 //! e++ -> e+
 //! e*? -> e*
 //! e*+         Taken care of by WFA.
@@ -96,7 +96,7 @@ impl <'a> UselessChaining<'a>
       (POptional, POneOrMore, false) => self.warn_useless_chaining(span, "(e+)?", "e*"),
       (POptional, PZeroOrMore, _) => self.warn_useless_chaining(span, "(e*)?", "e*"),
       (POneOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)+", "e+"),
-      (PZeroOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)*", "e+"),
+      (PZeroOrMore, POneOrMore, false) => self.warn_useless_chaining(span, "(e+)*", "e*"),
       (PZeroOrMore, PZeroOrMore, _) => self.warn_useless_chaining(span, "(e*)*", "e*"),
       (_, _, _) => false // The rest is either valid or taken care of by WFA.
     }
@@ -152,21 +152,22 @@ impl<'a> Visitor<(PredicateOrRepeat, bool)> for InnerPredicateOrRepeat<'a> {
     (PAnd, false)
   }
 
-
-  fn visit_sequence(&mut self, _: usize, children: Vec<usize>) -> (PredicateOrRepeat, bool) {
-    self.visit_expr(children[0])
+  // The operator of an element of a sequence does not apply to the sequence: `(e1+ e2)+` is not a chain.
+  fn visit_sequence(&mut self, _: usize, _: Vec<usize>) -> (PredicateOrRepeat, bool) {
+    (PNothing, false)
   }
 
+  // `&e1 / &e2` is equivalent to `&(e1 / e2)`, but the other operators do not distribute over the choice.
   fn visit_choice(&mut self, _: usize, children: Vec<usize>) -> (PredicateOrRepeat, bool) {
-    let (pred_or_repeat, mut crossed_rule) = self.visit_expr(children[0]);
+    let mut crossed_rule = false;
     for child in children {
-      let (pred_or_repeat2, crossed_rule2) = self.visit_expr(child);
-      if pred_or_repeat != pred_or_repeat2 {
+      let (pred_or_repeat, crossed_rule2) = self.visit_expr(child);
+      if pred_or_repeat != PAnd {
         return (PNothing, false)
       }
       crossed_rule |= crossed_rule2;
     }
-    (pred_or_repeat, crossed_rule)
+    (PAnd, crossed_rule)
   }
 }
 
-- 
2.43.0


From e3a147ee54e013f2bd7bd5e50e987ad0545df08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:09 +0000
Subject: [PATCH 6/6] fix: a cycle of rules can go through the rule whose type
 is being inferred

Reducing a recursive type gave the type of the first rule of its path that is
not recursive; the rule being inferred (`Infer`) was taken for such a type and
typing then panicked with "Only inferred types can be reduced.", e.g. on
`q = r` and `r = "a" r / "b" q`.
---
 src/liboak/middle/typing/type_rewriting.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/liboak/middle/typing/type_rewriting.rs b/src/liboak/middle/typing/type_rewriting.rs
index 2181984..3a666d4 100644
--- a/src/liboak/middle/typing/type_rewriting.rs
+++ b/src/liboak/middle/typing/type_rewriting.rs
@@ -40,7 +40,8 @@ impl TypeRewriting
           for ident in &rec_path.path {
             let ty = grammar.type_of(grammar.expr_index_of_rule(ident));
             match ty {
-              Rec(_) => (),
+              // `Infer`: the type of this rule is being inferred, the cycle goes through it.
+              Rec(_) | Infer => (),
               ty => return ty
             }
           }
-- 
2.43.0

