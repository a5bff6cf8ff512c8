From f2ea5f3d81071b800865d023f9c82d402f2db0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:24 +0000
Subject: [PATCH 1/5] fix: negating the smallest integer in a plural formula
 panicked

---
 src/plural/formula/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plural/formula/node.rs b/src/plural/formula/node.rs
index 8753c08..76f62e6 100644
--- a/src/plural/formula/node.rs
+++ b/src/plural/formula/node.rs
@@ -94,7 +94,7 @@ impl Node {
             Node::Num(v) => *v,
             Node::UnOp { op, rhs } => match op {
                 UnOp::Not => bool_to_num(rhs.execute(n) == 0),
-                UnOp::Neg => -rhs.execute(n),
+                UnOp::Neg => rhs.execute(n).overflowing_neg().0,
             },
             Node::BinOp { op, lhs, rhs } => {
                 let lhs = lhs.execute(n);
-- 
2.43.0


From 2ba547a49553081a7d45b2fd3ab65480bb873d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:24 +0000
Subject: [PATCH 2/5] fix: a missing msgstr[i] shifted the following
 translations to other indices

Every later text was stored one index too low, and a huge nplurals made the
loop run without any input left.
---
 src/po/message_extractor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/po/message_extractor.rs b/src/po/message_extractor.rs
index f5dd44c..6d95de3 100644
--- a/src/po/message_extractor.rs
+++ b/src/po/message_extractor.rs
@@ -80,9 +80,10 @@ impl<'r, D: Decoder> MessageExtractor<'r, D> {
                     let count = forms.as_ref().map_or(2, |f| f.get_count());
 
                     for i in 0..count {
-                        if let Some(v) = self.parse_msg(&format!("msgstr[{}]", i))? {
-                            values.push(v);
-                        };
+                        match self.parse_msg(&format!("msgstr[{}]", i))? {
+                            Some(v) => values.push(v),
+                            None => break,
+                        }
                     }
 
                     return Ok(if values.is_empty() {
-- 
2.43.0


From 4036aa6722338d0e25b1a55cf02dcdb336815c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:24 +0000
Subject: [PATCH 3/5] fix: a translator comment holding a quoted string was
 read as message text

The marker of a message line was allowed to be a bare '#'.
---
 src/po/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po/parser.rs b/src/po/parser.rs
index ad566c7..c1f97bc 100644
--- a/src/po/parser.rs
+++ b/src/po/parser.rs
@@ -22,7 +22,7 @@ impl PoParser {
             map_re: Regex::new(r"(\S+?)\s*=\s*(.*?)\s*;").unwrap(),
             map_check_re: Regex::new(r"^\s*(\S+?\s*=\s*.*?\s*;\s*)*$").unwrap(),
             message_re: Regex::new(
-                r#"^\s*(?:#(~?\|?))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
+                r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
             )
             .unwrap(),
             comment_re: Regex::new(r#"^\s*#(.)?\s*(.*)$"#).unwrap(),
-- 
2.43.0


From af990787ac313e8d5d29d27acb0752b932420a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:24 +0000
Subject: [PATCH 4/5] fix: plural formulas did not follow C operator precedence

'!' was applied to a whole sum instead of its operand, and '==' and '!=' had
the same precedence as '<', '<=', '>' and '>='. Chained unary operators are
accepted too.
---
 src/plural/formula/formula.lalrpop | 44 +++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/plural/formula/formula.lalrpop b/src/plural/formula/formula.lalrpop
index cdd62da..b9448d0 100644
--- a/src/plural/formula/formula.lalrpop
+++ b/src/plural/formula/formula.lalrpop
@@ -20,31 +20,37 @@ Or: Node = {
 };
 
 And: Node = {
-    <l:And> "&&" <r:Logical> => Node::new_binop(BinOp::And, l, r),
-    <l:And> "and" <r:Logical> => Node::new_binop(BinOp::And, l, r),
-    Logical,
+    <l:And> "&&" <r:Equality> => Node::new_binop(BinOp::And, l, r),
+    <l:And> "and" <r:Equality> => Node::new_binop(BinOp::And, l, r),
+    Equality,
 };
 
-Logical: Node = {
-    <l:Logical> "==" <r:Not> => Node::new_binop(BinOp::Eq, l, r),
-    <l:Logical> "!=" <r:Not> => Node::new_binop(BinOp::Ne, l, r),
-    <l:Logical> "<" <r:Not> => Node::new_binop(BinOp::Lt, l, r),
-    <l:Logical> "<=" <r:Not> => Node::new_binop(BinOp::Lte, l, r),
-    <l:Logical> ">" <r:Not> => Node::new_binop(BinOp::Gt, l, r),
-    <l:Logical> ">=" <r:Not> => Node::new_binop(BinOp::Gte, l, r),
-    Not,
+Equality: Node = {
+    <l:Equality> "==" <r:Relational> => Node::new_binop(BinOp::Eq, l, r),
+    <l:Equality> "!=" <r:Relational> => Node::new_binop(BinOp::Ne, l, r),
+    Relational,
 };
 
-Not: Node = {
-    "!" <r:Add> => Node::new_unop(UnOp::Not, r),
-    "not" <r:Add> => Node::new_unop(UnOp::Not, r),
+Relational: Node = {
+    <l:Relational> "<" <r:Add> => Node::new_binop(BinOp::Lt, l, r),
+    <l:Relational> "<=" <r:Add> => Node::new_binop(BinOp::Lte, l, r),
+    <l:Relational> ">" <r:Add> => Node::new_binop(BinOp::Gt, l, r),
+    <l:Relational> ">=" <r:Add> => Node::new_binop(BinOp::Gte, l, r),
     Add,
 };
 
 Add: Node = {
     <l:Add> "+" <r:Mul> => Node::new_binop(BinOp::Add, l, r),
     <l:Add> "-" <r:Mul> => Node::new_binop(BinOp::Sub, l, r),
-    Mul,
+    LeadingMul,
+};
+
+// The first operand of a sum or a product can be a negation
+LeadingMul: Node = {
+    <l:LeadingMul> "*" <r:Factor> => Node::new_binop(BinOp::Mul, l, r),
+    <l:LeadingMul> "/" <r:Factor> => Node::new_binop(BinOp::Div, l, r),
+    <l:LeadingMul> "%" <r:Factor> => Node::new_binop(BinOp::Mod, l, r),
+    Not,
 };
 
 Mul: Node = {
@@ -54,8 +60,14 @@ Mul: Node = {
     Factor,
 }
 
+Not: Node = {
+    "!" <r:Not> => Node::new_unop(UnOp::Not, r),
+    "not" <r:Not> => Node::new_unop(UnOp::Not, r),
+    Factor,
+};
+
 Factor: Node = {
-    "-" <r:Term> => Node::new_unop(UnOp::Neg, r),
+    "-" <r:Not> => Node::new_unop(UnOp::Neg, r),
     Term,
 };
 
-- 
2.43.0


From a7ab398a0c8e7df26646880a936d4ead0dbfd5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 5/5] fix: malformed Plural-Forms definitions were partly
 ignored instead of rejected

---
 src/po/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/po/parser.rs b/src/po/parser.rs
index c1f97bc..0e96528 100644
--- a/src/po/parser.rs
+++ b/src/po/parser.rs
@@ -19,8 +19,8 @@ pub struct PoParser {
 impl PoParser {
     pub fn new() -> PoParser {
         PoParser {
-            map_re: Regex::new(r"(\S+?)\s*=\s*(.*?)\s*;").unwrap(),
-            map_check_re: Regex::new(r"^\s*(\S+?\s*=\s*.*?\s*;\s*)*$").unwrap(),
+            map_re: Regex::new(r"([^\s=;]+)\s*=\s*([^;]*?)\s*;").unwrap(),
+            map_check_re: Regex::new(r"^\s*(?:(?:[^\s=;]+\s*=[^;]*)?;\s*)*$").unwrap(),
             message_re: Regex::new(
                 r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
             )
-- 
2.43.0

