From a0933d7909ca01ee0f2821dfa23fb25e89da3421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 1/5] fix: stepping a DFA by no symbols after an unknown one
 must not report a state

---
 dandy/src/dfa/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dandy/src/dfa/eval.rs b/dandy/src/dfa/eval.rs
index cda16c6..8738e0e 100644
--- a/dandy/src/dfa/eval.rs
+++ b/dandy/src/dfa/eval.rs
@@ -61,7 +61,7 @@ impl<'a> DfaEvaluator<'a> {
                 self.unknown_elem_seen = true;
                 None
             }
-            Some(_) => Some(&self.dfa.states[self.current_state]),
+            Some(_) => self.current_state(),
         }
     }
 }
-- 
2.43.0


From 76cfca3a7b476c9e0d10d3ce503259b669a90e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:48 +0000
Subject: [PATCH 2/5] fix: escape reserved characters of any length when
 printing a regular expression

---
 dandy/src/regex/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index 9f282bb..5440247 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -194,10 +194,7 @@ impl Regex {
                     acc.push('∅');
                 }
                 RegexChar::Grapheme(g) => {
-                    if g.len() == 1
-                        && ['(', ')', '∅', 'ε', '|', '*', '+', '\\']
-                            .contains(&g.chars().next().unwrap())
-                    {
+                    if g.starts_with(['(', ')', '∅', 'ε', '|', '*', '+', '\\']) {
                         acc.push('\\');
                         acc.push_str(g);
                     } else {
-- 
2.43.0


From 448cca9c76c4a42f2504613b44684ae224905220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 3/5] fix: keep leading and trailing whitespace significant
 when printing a regular expression

---
 dandy/src/regex/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index 5440247..31d40f1 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -158,6 +158,10 @@ impl Regex {
     pub fn to_string(&self) -> String {
         let mut acc = String::new();
         Self::build_string(&self.tree, &mut acc);
+        if acc.trim() != acc {
+            // The parser ignores surrounding whitespace, so it has to be protected
+            acc = format!("({acc})");
+        }
         acc
     }
 
-- 
2.43.0


From c12e868eff02cf40ed523ba142cb72b61730f456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:40 +0000
Subject: [PATCH 4/5] fix: escape characters that would join the preceding one
 when printing a regular expression

---
 dandy/src/regex/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index 31d40f1..583e652 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -55,6 +55,7 @@ use crate::nfa::{Nfa, NfaState};
 use std::collections::HashMap;
 use std::iter;
 use std::rc::Rc;
+use unicode_segmentation::GraphemeCursor;
 
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Regex {
@@ -198,11 +199,15 @@ impl Regex {
                     acc.push('∅');
                 }
                 RegexChar::Grapheme(g) => {
-                    if g.starts_with(['(', ')', '∅', 'ε', '|', '*', '+', '\\']) {
-                        acc.push('\\');
-                        acc.push_str(g);
-                    } else {
-                        acc.push_str(g);
+                    let start = acc.len();
+                    acc.push_str(g);
+                    // Without an escape, the character would be read as an operator, or as a part of
+                    // the grapheme cluster before it
+                    let joins = !GraphemeCursor::new(start, acc.len(), true)
+                        .is_boundary(acc, 0)
+                        .unwrap_or(true);
+                    if joins || g.starts_with(['(', ')', '∅', 'ε', '|', '*', '+', '\\']) {
+                        acc.insert(start, '\\');
                     }
                 }
             },
-- 
2.43.0


From b1a94261d690f4aca177c7ba64440168e93cf290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 5/5] fix: ASCII art panicked when a label was longer than the
 rest of its line

---
 dandy-draw/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dandy-draw/src/lib.rs b/dandy-draw/src/lib.rs
index 7726f2a..6faf5eb 100644
--- a/dandy-draw/src/lib.rs
+++ b/dandy-draw/src/lib.rs
@@ -421,11 +421,14 @@ fn ascii_art<'a>(states: Vec<State<'a>>, arrows: Vec<Arrow<'a>>) -> String {
                     let label = arrow.arrow.label();
                     let range = {
                         // We need to replace the nth *char* which is not necessarily same as the nth byte (we could
-                        // have inserted labels to the left)
-                        let start = right_x_idx(arrow.arrow.left);
-                        let start = bot_line.char_indices().nth(start).unwrap().0;
+                        // have inserted labels to the left). A long label may reach past the end of the line.
+                        let byte_idx = |n: usize| {
+                            let idx = bot_line.char_indices().nth(n);
+                            idx.map_or(bot_line.len(), |(i, _)| i)
+                        };
+                        let start = right_x_idx(arrow.arrow.left) + 1;
                         // We need to replace equally many spaces as the label has (visible) chars
-                        start + 1..start + label.chars().count() + 1
+                        byte_idx(start)..byte_idx(start + label.chars().count())
                     };
                     bot_line.replace_range(range, &label);
                 } else {
-- 
2.43.0

