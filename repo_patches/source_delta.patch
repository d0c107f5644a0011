From b3d8d7d88e6be05c24b2d3874e5694ca3e16bd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 1/8] fix: negation in a plural formula no longer overflows

Every other operator wraps; the negation of i64::MIN (count 2^63 with `-n`)
panicked in builds with overflow checks.
---
 src/plural/formula/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plural/formula/node.rs b/src/plural/formula/node.rs
index 8753c08..76f62e6 100644
--- a/src/plural/formula/node.rs
+++ b/src/plural/formula/node.rs
@@ -94,7 +94,7 @@ impl Node {
             Node::Num(v) => *v,
             Node::UnOp { op, rhs } => match op {
                 UnOp::Not => bool_to_num(rhs.execute(n) == 0),
-                UnOp::Neg => -rhs.execute(n),
+                UnOp::Neg => rhs.execute(n).overflowing_neg().0,
             },
             Node::BinOp { op, lhs, rhs } => {
                 let lhs = lhs.execute(n);
-- 
2.43.0


From c046b686c2bcc44558274c48fb43cf2921984759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 2/8] fix: a translator comment holding a quoted text is a
 comment

`# "text"` and `# msgid "text"` were read as string lines because the marker
after `#` was optional.
---
 src/po/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po/parser.rs b/src/po/parser.rs
index ad566c7..c1f97bc 100644
--- a/src/po/parser.rs
+++ b/src/po/parser.rs
@@ -22,7 +22,7 @@ impl PoParser {
             map_re: Regex::new(r"(\S+?)\s*=\s*(.*?)\s*;").unwrap(),
             map_check_re: Regex::new(r"^\s*(\S+?\s*=\s*.*?\s*;\s*)*$").unwrap(),
             message_re: Regex::new(
-                r#"^\s*(?:#(~?\|?))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
+                r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
             )
             .unwrap(),
             comment_re: Regex::new(r#"^\s*#(.)?\s*(.*)$"#).unwrap(),
-- 
2.43.0


From 3b132c88d34170231bc99068e92725f9fa8a21e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 3/8] fix: translations of a plural message keep their index

A missing `msgstr[i]` was skipped: the following translations moved to lower
indices, and a huge `nplurals` made the reader probe every index.
---
 src/po/message_extractor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/po/message_extractor.rs b/src/po/message_extractor.rs
index f5dd44c..6d95de3 100644
--- a/src/po/message_extractor.rs
+++ b/src/po/message_extractor.rs
@@ -80,9 +80,10 @@ impl<'r, D: Decoder> MessageExtractor<'r, D> {
                     let count = forms.as_ref().map_or(2, |f| f.get_count());
 
                     for i in 0..count {
-                        if let Some(v) = self.parse_msg(&format!("msgstr[{}]", i))? {
-                            values.push(v);
-                        };
+                        match self.parse_msg(&format!("msgstr[{}]", i))? {
+                            Some(v) => values.push(v),
+                            None => break,
+                        }
                     }
 
                     return Ok(if values.is_empty() {
-- 
2.43.0


From ef1cff941c75013b02adca79c7b856ce8de85031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 4/8] fix: relational operators bind tighter than equality in
 plural formulas

`==`, `!=`, `<`, `<=`, `>`, `>=` shared one level: `n == 1 < 2` was read as
`(n == 1) < 2`. C, whose rules plural formulas follow, has two levels.
---
 src/plural/formula/formula.lalrpop | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/plural/formula/formula.lalrpop b/src/plural/formula/formula.lalrpop
index cdd62da..3513a3d 100644
--- a/src/plural/formula/formula.lalrpop
+++ b/src/plural/formula/formula.lalrpop
@@ -20,18 +20,22 @@ Or: Node = {
 };
 
 And: Node = {
-    <l:And> "&&" <r:Logical> => Node::new_binop(BinOp::And, l, r),
-    <l:And> "and" <r:Logical> => Node::new_binop(BinOp::And, l, r),
-    Logical,
+    <l:And> "&&" <r:Equality> => Node::new_binop(BinOp::And, l, r),
+    <l:And> "and" <r:Equality> => Node::new_binop(BinOp::And, l, r),
+    Equality,
 };
 
-Logical: Node = {
-    <l:Logical> "==" <r:Not> => Node::new_binop(BinOp::Eq, l, r),
-    <l:Logical> "!=" <r:Not> => Node::new_binop(BinOp::Ne, l, r),
-    <l:Logical> "<" <r:Not> => Node::new_binop(BinOp::Lt, l, r),
-    <l:Logical> "<=" <r:Not> => Node::new_binop(BinOp::Lte, l, r),
-    <l:Logical> ">" <r:Not> => Node::new_binop(BinOp::Gt, l, r),
-    <l:Logical> ">=" <r:Not> => Node::new_binop(BinOp::Gte, l, r),
+Equality: Node = {
+    <l:Equality> "==" <r:Relation> => Node::new_binop(BinOp::Eq, l, r),
+    <l:Equality> "!=" <r:Relation> => Node::new_binop(BinOp::Ne, l, r),
+    Relation,
+};
+
+Relation: Node = {
+    <l:Relation> "<" <r:Not> => Node::new_binop(BinOp::Lt, l, r),
+    <l:Relation> "<=" <r:Not> => Node::new_binop(BinOp::Lte, l, r),
+    <l:Relation> ">" <r:Not> => Node::new_binop(BinOp::Gt, l, r),
+    <l:Relation> ">=" <r:Not> => Node::new_binop(BinOp::Gte, l, r),
     Not,
 };
 
-- 
2.43.0


From 0c46f77102eb61bd14dc80e81171e19937a6fc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 5/8] fix: `!` applies to its operand only in plural formulas

`!n + 1` was read as `!(n + 1)` and `!n % 10` as `!(n % 10)`; in C the negation binds
tighter than any binary operator.
---
 src/plural/formula/formula.lalrpop | 32 +++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/plural/formula/formula.lalrpop b/src/plural/formula/formula.lalrpop
index 3513a3d..dc08b6a 100644
--- a/src/plural/formula/formula.lalrpop
+++ b/src/plural/formula/formula.lalrpop
@@ -32,23 +32,31 @@ Equality: Node = {
 };
 
 Relation: Node = {
-    <l:Relation> "<" <r:Not> => Node::new_binop(BinOp::Lt, l, r),
-    <l:Relation> "<=" <r:Not> => Node::new_binop(BinOp::Lte, l, r),
-    <l:Relation> ">" <r:Not> => Node::new_binop(BinOp::Gt, l, r),
-    <l:Relation> ">=" <r:Not> => Node::new_binop(BinOp::Gte, l, r),
-    Not,
-};
-
-Not: Node = {
-    "!" <r:Add> => Node::new_unop(UnOp::Not, r),
-    "not" <r:Add> => Node::new_unop(UnOp::Not, r),
+    <l:Relation> "<" <r:Add> => Node::new_binop(BinOp::Lt, l, r),
+    <l:Relation> "<=" <r:Add> => Node::new_binop(BinOp::Lte, l, r),
+    <l:Relation> ">" <r:Add> => Node::new_binop(BinOp::Gt, l, r),
+    <l:Relation> ">=" <r:Add> => Node::new_binop(BinOp::Gte, l, r),
     Add,
 };
 
 Add: Node = {
     <l:Add> "+" <r:Mul> => Node::new_binop(BinOp::Add, l, r),
     <l:Add> "-" <r:Mul> => Node::new_binop(BinOp::Sub, l, r),
-    Mul,
+    FirstMul,
+};
+
+// The first product of a sum may start with a negation
+FirstMul: Node = {
+    <l:FirstMul> "*" <r:Factor> => Node::new_binop(BinOp::Mul, l, r),
+    <l:FirstMul> "/" <r:Factor> => Node::new_binop(BinOp::Div, l, r),
+    <l:FirstMul> "%" <r:Factor> => Node::new_binop(BinOp::Mod, l, r),
+    Not,
+};
+
+Not: Node = {
+    "!" <r:Factor> => Node::new_unop(UnOp::Not, r),
+    "not" <r:Factor> => Node::new_unop(UnOp::Not, r),
+    Factor,
 };
 
 Mul: Node = {
@@ -56,7 +64,7 @@ Mul: Node = {
     <l:Mul> "/" <r:Factor> => Node::new_binop(BinOp::Div, l, r),
     <l:Mul> "%" <r:Factor> => Node::new_binop(BinOp::Mod, l, r),
     Factor,
-}
+};
 
 Factor: Node = {
     "-" <r:Term> => Node::new_unop(UnOp::Neg, r),
-- 
2.43.0


From 06e3d44eb1ae3b7242bd0ffa4a9acd9b265eb79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 6/8] fix: the first entry no longer swallows lines when its
 source is missing

---
 src/po/message_extractor.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/po/message_extractor.rs b/src/po/message_extractor.rs
index 6d95de3..988a3d4 100644
--- a/src/po/message_extractor.rs
+++ b/src/po/message_extractor.rs
@@ -33,6 +33,9 @@ impl<'r, D: Decoder> MessageExtractor<'r, D> {
             None => None,
         };
 
+        // whether lines of this entry have been read already
+        let started = prev_context.is_some() || prev_msgid.is_some();
+
         // previous message (simple message with empty text)
         let prev_message = self.new_previous(prev_msgid, prev_msgid_pl);
 
@@ -42,14 +45,17 @@ impl<'r, D: Decoder> MessageExtractor<'r, D> {
         // source
         let msgid = self.parse_msg("msgid")?;
 
-        if (!first) && msgid.is_none() {
+        if msgid.is_none() && (!first || started || context.is_some()) {
             self.expected("msgid")?;
 
             return Ok(None);
         }
 
         // plural
-        let msgid_pl = self.parse_msg("msgid_plural")?;
+        let msgid_pl = match msgid {
+            Some(_) => self.parse_msg("msgid_plural")?,
+            None => None,
+        };
 
         let message = match self.new_message(msgid, msgid_pl)? {
             Some(msg) => msg,
-- 
2.43.0


From 11603c233e43b46835ca853791c0288d8b0991f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 7/8] fix: take the keys of the Plural-Forms header as written

A second semicolon before a key was read as a part of it, and text that is no
pair was taken into the next key or skipped, so that the formula or the number
of forms silently fell back to its default.
---
 src/po/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/po/parser.rs b/src/po/parser.rs
index c1f97bc..36e8a28 100644
--- a/src/po/parser.rs
+++ b/src/po/parser.rs
@@ -19,8 +19,8 @@ pub struct PoParser {
 impl PoParser {
     pub fn new() -> PoParser {
         PoParser {
-            map_re: Regex::new(r"(\S+?)\s*=\s*(.*?)\s*;").unwrap(),
-            map_check_re: Regex::new(r"^\s*(\S+?\s*=\s*.*?\s*;\s*)*$").unwrap(),
+            map_re: Regex::new(r"([^\s=;]+)\s*=\s*([^;]*?)\s*;").unwrap(),
+            map_check_re: Regex::new(r"^[\s;]*([^\s=;]+\s*=[^;]*;[\s;]*)*$").unwrap(),
             message_re: Regex::new(
                 r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
             )
-- 
2.43.0


From 54239b465ca1bb7f945df35547d74a2252557627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 8/8] fix: refuse plural formulas so long that their evaluation
 exhausts the stack

Evaluating (and dropping) a formula is recursive. A Plural-Forms header of some
ten kilobytes of `n+1+1+1...` overflowed the stack of a thread and ended the
process.
---
 src/plural/formula/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/plural/formula/mod.rs b/src/plural/formula/mod.rs
index 0564cc3..545e490 100644
--- a/src/plural/formula/mod.rs
+++ b/src/plural/formula/mod.rs
@@ -5,6 +5,9 @@ use lalrpop_util::{lalrpop_mod, ParseError};
 
 lalrpop_mod!(formula, "/plural/formula/formula.rs");
 
+/// Longer formulas are refused: the evaluation is recursive, and must not exhaust the stack.
+const MAX_LENGTH: usize = 4096;
+
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub(super) struct Formula {
     expr: node::Node,
@@ -18,6 +21,14 @@ impl Formula {
             return Ok(Formula { expr: node::Node::Var });
         }
 
+        if input.len() > MAX_LENGTH {
+            return Err(Error::PluralForms(format!(
+                "Formula of {} bytes, more than {}",
+                input.len(),
+                MAX_LENGTH
+            )));
+        }
+
         let parser = formula::FormulaParser::new();
         let res: Result<node::Node, ParseError<_, _, _>> = parser.parse(input);
 
-- 
2.43.0

