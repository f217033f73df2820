From d399f6e4cce5c056560fcec77db129df5c123935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 01/37] fix: null, true and false in parentheses are literals
 and not names

---
 crates/ludtwig-parser/src/grammar/twig/expression.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index 9a7caf4..c326ac5 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -264,9 +264,11 @@ fn parse_paren_expression(parser: &mut Parser) -> (Marker, bool) {
     parser.bump();
 
     // first check for non existent unary expression token to be a arrow function
+    // (null / true / false also match the name pattern, but are literals and not names)
     if parser
         .peek_token()
         .is_some_and(|t| t.kind.unary_binding_power().is_none())
+        && !parser.at_set(&[T!["null"], T!["true"], T!["false"]])
     {
         // check for a simple name literal
         if let Some(mut lit_m) = parse_twig_name(parser) {
-- 
2.43.0


From c9bc5adb3a643a1152245a4d45c707f7cbeff9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 02/37] fix: recognise 'is not' and 'not in' before CRLF,
 brackets and closing delimiters

---
 crates/ludtwig-parser/src/syntax/untyped.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/untyped.rs b/crates/ludtwig-parser/src/syntax/untyped.rs
index 3c87813..b66aa2a 100644
--- a/crates/ludtwig-parser/src/syntax/untyped.rs
+++ b/crates/ludtwig-parser/src/syntax/untyped.rs
@@ -551,12 +551,16 @@ pub enum SyntaxKind {
     ROOT, // top-level node: list of elements inside the template (must be last item of enum for safety check!)
 }
 
+/// a keyword only ends where no further character of a word (see `TK_WORD`) follows
+fn is_at_word_end(remainder: &str) -> bool {
+    !remainder.starts_with(|c: char| c.is_ascii_alphanumeric() || matches!(c, '_' | '-'))
+}
+
 /// workaround to properly lex 'not insider' to TK_NOT + TK_WS + TK_WORD instead of TK_NOT_IN + TK_WORD
 fn cb_not(lexer: &mut Lexer<'_, SyntaxKind>) -> SyntaxKind {
     const SUFFIX: &str = " in";
     if lexer.remainder().starts_with(SUFFIX) {
-        let after = lexer.remainder().get(SUFFIX.len()..);
-        if after.is_none_or(|s| s.starts_with([' ', '\t', '\n']) || s.is_empty()) {
+        if is_at_word_end(&lexer.remainder()[SUFFIX.len()..]) {
             lexer.bump(SUFFIX.len());
             SyntaxKind::TK_NOT_IN
         } else {
@@ -571,8 +575,7 @@ fn cb_not(lexer: &mut Lexer<'_, SyntaxKind>) -> SyntaxKind {
 fn cb_is(lexer: &mut Lexer<'_, SyntaxKind>) -> SyntaxKind {
     const SUFFIX: &str = " not";
     if lexer.remainder().starts_with(SUFFIX) {
-        let after = lexer.remainder().get(SUFFIX.len()..);
-        if after.is_none_or(|s| s.starts_with([' ', '\t', '\n']) || s.is_empty()) {
+        if is_at_word_end(&lexer.remainder()[SUFFIX.len()..]) {
             lexer.bump(SUFFIX.len());
             SyntaxKind::TK_IS_NOT
         } else {
-- 
2.43.0


From 9aef517a6c7f7146be850017d729256b2ae6be07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 03/37] fix: argument of a twig test without parentheses binds
 tighter than operators

---
 crates/ludtwig-parser/src/grammar/twig/expression.rs | 7 +++++--
 crates/ludtwig-parser/src/grammar/twig/literal.rs    | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index c326ac5..788a8f9 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -70,6 +70,9 @@ pub(crate) static TWIG_EXPRESSION_RECOVERY_SET: &[SyntaxKind] = &[
     T!["??"],
 ];
 
+/// left and right binding power of the twig test operators `is` and `is not`
+pub(super) const TWIG_TEST_BINDING_POWER: (u8, u8) = (100, 101);
+
 pub(super) fn parse_twig_expression(parser: &mut Parser) -> Option<CompletedMarker> {
     parse_twig_expression_binding_power(parser, 0)
 }
@@ -115,7 +118,7 @@ impl Operator for SyntaxKind {
             T!["+"] | T!["-"] => Some((30, 31)),
             T!["~"] => Some((40, 41)),
             T!["*"] | T!["/"] | T!["//"] | T!["%"] => Some((60, 61)),
-            T!["is"] | T!["is not"] => Some((100, 101)),
+            T!["is"] | T!["is not"] => Some(TWIG_TEST_BINDING_POWER),
             // right associative
             T!["**"] => Some((121, 120)),
             T!["??"] => Some((151, 150)),
@@ -134,7 +137,7 @@ impl Operator for SyntaxKind {
     }
 }
 
-fn parse_twig_expression_binding_power(
+pub(super) fn parse_twig_expression_binding_power(
     parser: &mut Parser,
     minimum_binding_power: u8,
 ) -> Option<CompletedMarker> {
diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index f5f0d88..ef6ed01 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -1,6 +1,9 @@
 use crate::T;
 use crate::grammar::parse_many;
-use crate::grammar::twig::expression::{TWIG_EXPRESSION_RECOVERY_SET, parse_twig_expression};
+use crate::grammar::twig::expression::{
+    TWIG_EXPRESSION_RECOVERY_SET, TWIG_TEST_BINDING_POWER, parse_twig_expression,
+    parse_twig_expression_binding_power,
+};
 use crate::parser::event::CompletedMarker;
 use crate::parser::{ParseErrorBuilder, Parser};
 use crate::syntax::untyped::SyntaxKind;
@@ -426,7 +429,8 @@ fn parse_twig_test_implicit_argument(
 
     // parse the single argument expression without parentheses
     let arguments_m = parser.start();
-    if parse_twig_expression(parser).is_none() {
+    // (binds tighter than any binary operator following the test)
+    if parse_twig_expression_binding_power(parser, TWIG_TEST_BINDING_POWER.1).is_none() {
         parser.add_error(ParseErrorBuilder::new("argument for twig test"));
         parser.recover(TWIG_EXPRESSION_RECOVERY_SET);
     }
-- 
2.43.0


From d65d3eb5eca64edff6e13853a691dde44b3756a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 04/37] fix: report a missing arrow of a closure instead of
 panicking

---
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index ef6ed01..3c3ff48 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -443,12 +443,10 @@ pub(crate) fn parse_twig_arrow_function(
     parser: &mut Parser,
     last_node: CompletedMarker,
 ) -> CompletedMarker {
-    debug_assert!(parser.at(T!["=>"]));
-
     let outer = parser.precede(last_node);
 
-    // bump the arrow
-    parser.bump();
+    // the arrow can be missing after a parenthesized argument list
+    parser.expect(T!["=>"], TWIG_EXPRESSION_RECOVERY_SET);
 
     // parse closure expression
     if parse_twig_expression(parser).is_none() {
-- 
2.43.0


From daf22f46fa925b693d59e51f9f84c61ceb05cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 05/37] fix: report missing operands of operators, parentheses
 and named arguments

---
 .../src/grammar/twig/expression.rs              | 17 ++++++++++++-----
 .../ludtwig-parser/src/grammar/twig/literal.rs  |  4 +++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index 788a8f9..004cb19 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -175,6 +175,9 @@ pub(crate) fn parse_twig_expression_binding_power_rhs(
         lhs = parser.complete(m, SyntaxKind::TWIG_BINARY_EXPRESSION);
 
         if !parsed_rhs {
+            parser.add_error(ParseErrorBuilder::new(
+                "twig expression as right operand of the operator",
+            ));
             break;
         }
     }
@@ -291,13 +294,13 @@ fn parse_paren_expression(parser: &mut Parser) -> (Marker, bool) {
             let expr_m = parser.precede(lit_m);
             let lhs = parser.complete(expr_m, SyntaxKind::TWIG_EXPRESSION);
             parse_twig_expression_binding_power_rhs(parser, 0, lhs);
-        } else {
+        } else if parse_twig_expression_binding_power(parser, 0).is_none() {
             // found a real expression, so it can't be a arrow function at this point anymore
-            parse_twig_expression_binding_power(parser, 0);
+            parser.add_error(ParseErrorBuilder::new("twig expression"));
         }
-    } else {
+    } else if parse_twig_expression_binding_power(parser, 0).is_none() {
         // found a real expression, so it can't be a arrow function at this point anymore
-        parse_twig_expression_binding_power(parser, 0);
+        parser.add_error(ParseErrorBuilder::new("twig expression"));
     }
 
     parser.expect(T![")"], TWIG_EXPRESSION_RECOVERY_SET);
@@ -334,7 +337,11 @@ fn parse_unary_expression(parser: &mut Parser) -> CompletedMarker {
         .unary_binding_power()
         .expect("'-', '+', 'not' and '...' should have a binding power");
 
-    parse_twig_expression_binding_power(parser, right_binding_power);
+    if parse_twig_expression_binding_power(parser, right_binding_power).is_none() {
+        parser.add_error(ParseErrorBuilder::new(
+            "twig expression as operand of the operator",
+        ));
+    }
 
     parser.complete(m, SyntaxKind::TWIG_UNARY_EXPRESSION)
 }
diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index 3c3ff48..2fae3c9 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -467,7 +467,9 @@ pub(crate) fn parse_twig_function_argument(parser: &mut Parser) -> Option<Comple
         let named_arg_m = parser.start();
         parser.bump();
         parser.expect(T!["="], TWIG_EXPRESSION_RECOVERY_SET);
-        parse_twig_expression(parser);
+        if parse_twig_expression(parser).is_none() {
+            parser.add_error(ParseErrorBuilder::new("value as twig expression"));
+        }
         Some(parser.complete(named_arg_m, SyntaxKind::TWIG_NAMED_ARGUMENT))
     } else {
         parse_twig_expression(parser)
-- 
2.43.0


From 579ec18634eac9029834f88af5907c115cbc41d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:35 +0000
Subject: [PATCH 06/37] fix: accept keywords as names of blocks, macros and
 named arguments

---
 .../src/grammar/twig/literal.rs               | 11 +++-
 .../ludtwig-parser/src/grammar/twig/tags.rs   | 63 ++++++++++---------
 2 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index 2fae3c9..e8d0a51 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -463,9 +463,9 @@ pub(crate) fn parse_twig_arrow_function(
 pub(crate) fn parse_twig_function_argument(parser: &mut Parser) -> Option<CompletedMarker> {
     // must be specific here with word followed by equal, because otherwise it could
     // be a normal variable or another function call or something else..
-    if parser.at_following(&[T![word], T!["="]]) {
+    if at_twig_name(parser) && parser.peek_next_non_trivia_kind() == Some(T!["="]) {
         let named_arg_m = parser.start();
-        parser.bump();
+        parser.bump_as(SyntaxKind::TK_WORD);
         parser.expect(T!["="], TWIG_EXPRESSION_RECOVERY_SET);
         if parse_twig_expression(parser).is_none() {
             parser.add_error(ParseErrorBuilder::new("value as twig expression"));
@@ -476,6 +476,13 @@ pub(crate) fn parse_twig_function_argument(parser: &mut Parser) -> Option<Comple
     }
 }
 
+/// Checks for anything that can be used as a name in twig, which includes the keywords of tags and operators
+pub(crate) fn at_twig_name(parser: &mut Parser) -> bool {
+    parser
+        .peek_token()
+        .is_some_and(|t| TWIG_NAME_REGEX.is_match(t.text))
+}
+
 pub(crate) fn parse_twig_name(parser: &mut Parser) -> Option<CompletedMarker> {
     // special case to allow for 'same as' and 'divisible by' twig test ('is' / 'is not' operator)
     let is_at_special = parser.at_set(&[T!["same as"], T!["divisible by"]]);
diff --git a/crates/ludtwig-parser/src/grammar/twig/tags.rs b/crates/ludtwig-parser/src/grammar/twig/tags.rs
index 3dfbfca..48b3e35 100644
--- a/crates/ludtwig-parser/src/grammar/twig/tags.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/tags.rs
@@ -3,8 +3,8 @@
 use crate::T;
 use crate::grammar::twig::expression::parse_twig_expression;
 use crate::grammar::twig::literal::{
-    parse_twig_filter, parse_twig_function_argument, parse_twig_hash, parse_twig_name,
-    parse_twig_string,
+    at_twig_name, parse_twig_filter, parse_twig_function_argument, parse_twig_hash,
+    parse_twig_name, parse_twig_string,
 };
 use crate::grammar::twig::shopware::{BlockParseResult, parse_shopware_twig_block_statement};
 use crate::grammar::{ParseFunction, parse_many};
@@ -286,6 +286,17 @@ fn parse_twig_with(
     parser.complete(wrapper_m, SyntaxKind::TWIG_WITH)
 }
 
+/// keywords which aren't reserved (like `style` or `date`) are valid names as well
+fn parse_block_or_macro_name(parser: &mut Parser, recovery_set: &[SyntaxKind]) -> Option<String> {
+    if at_twig_name(parser) {
+        return Some(parser.bump_as(T![word]).text.to_owned());
+    }
+
+    parser
+        .expect(T![word], recovery_set)
+        .map(|t| t.text.to_owned())
+}
+
 fn parse_twig_macro(
     parser: &mut Parser,
     outer: Marker,
@@ -293,20 +304,18 @@ fn parse_twig_macro(
 ) -> CompletedMarker {
     debug_assert!(parser.at(T!["macro"]));
     parser.bump();
-    let macro_name = parser
-        .expect(
-            T![word],
-            &[
-                T!["("],
-                T![")"],
-                T!["endmacro"],
-                T!["%}"],
-                T!["-%}"],
-                T!["~%}"],
-                T!["</"],
-            ],
-        )
-        .map(|t| t.text.to_owned());
+    let macro_name = parse_block_or_macro_name(
+        parser,
+        &[
+            T!["("],
+            T![")"],
+            T!["endmacro"],
+            T!["%}"],
+            T!["-%}"],
+            T!["~%}"],
+            T!["</"],
+        ],
+    );
 
     // macro must have parentheses (arguments can be zero)
     let arguments_m = parser.start();
@@ -364,14 +373,14 @@ fn parse_twig_macro(
     );
     parser.expect(T!["endmacro"], &[T!["%}"], T!["-%}"], T!["~%}"], T!["</"]]);
     // check for optional name behind endmacro
-    if parser.at(T![word]) {
-        let end_macro_name_token = parser.bump();
+    if parser.at(T![word]) || at_twig_name(parser) {
+        let end_macro_name_token = parser.bump_as(T![word]);
         if let Some(macro_name) = macro_name {
             if end_macro_name_token.text != macro_name {
                 let parser_err = ParseErrorBuilder::new(format!(
                     "nothing or same twig macro name as opening ({macro_name})"
                 ))
-                .at_token(end_macro_name_token);
+                .at_token(&end_macro_name_token);
 
                 parser.add_error(parser_err);
                 parser.recover(&[T!["%}"], T!["-%}"], T!["~%}"], T!["</"]]);
@@ -1167,12 +1176,10 @@ fn parse_twig_block(
 ) -> CompletedMarker {
     debug_assert!(parser.at(T!["block"]));
     parser.bump();
-    let block_name = parser
-        .expect(
-            T![word],
-            &[T!["</"], T!["%}"], T!["-%}"], T!["~%}"], T!["endblock"]],
-        )
-        .map(|t| t.text.to_owned());
+    let block_name = parse_block_or_macro_name(
+        parser,
+        &[T!["</"], T!["%}"], T!["-%}"], T!["~%}"], T!["endblock"]],
+    );
     // look for optional shortcut
     let mut found_shortcut = false;
     if !parser.at_twig_block_close() {
@@ -1210,14 +1217,14 @@ fn parse_twig_block(
         );
         parser.expect(T!["endblock"], &[T!["</"], T!["%}"], T!["-%}"], T!["~%}"]]);
         // check for optional name behind endblock
-        if parser.at(T![word]) {
-            let end_block_name_token = parser.bump();
+        if parser.at(T![word]) || at_twig_name(parser) {
+            let end_block_name_token = parser.bump_as(T![word]);
             if let Some(block_name) = block_name {
                 if end_block_name_token.text != block_name {
                     let parser_err = ParseErrorBuilder::new(format!(
                         "nothing or same twig block name as opening ({block_name})"
                     ))
-                    .at_token(end_block_name_token);
+                    .at_token(&end_block_name_token);
 
                     parser.add_error(parser_err);
                     parser.recover(&[T!["%}"], T!["-%}"], T!["~%}"], T!["</"]]);
-- 
2.43.0


From b0d235fc810a5937a246582654fa15bc7a213bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:38 +0000
Subject: [PATCH 07/37] fix: only characters directly next to each other form
 an escape or interpolation in strings

---
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index e8d0a51..4e68f00 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -99,11 +99,14 @@ pub(crate) fn parse_twig_string(
         parser,
         |p| p.at(quote_kind),
         |p| {
-            if p.at_following(&[T!["\\"], quote_kind]) {
-                // escaped quote should be consumed
+            if p.at(T!["\\"])
+                && p.peek_nth_token(1)
+                    .is_some_and(|t| t.kind == quote_kind || t.kind == T!["\\"])
+            {
+                // escaped quote or backslash should be consumed
                 p.bump();
                 p.bump();
-            } else if p.at_following(&[T!["#"], T!["{"]]) {
+            } else if p.at(T!["#"]) && p.peek_nth_token(1).is_some_and(|t| t.kind == T!["{"]) {
                 if !interpolation_allowed {
                     let opening_token = p.bump();
                     let interpolation_error = ParseErrorBuilder::new(
-- 
2.43.0


From 6f59e5f758f8c5e08cc203059e058090830fb3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 08/37] fix: endcomponent terminates enclosing html and raw
 text like other ending tags

---
 crates/ludtwig-parser/src/grammar/twig/tags.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/ludtwig-parser/src/grammar/twig/tags.rs b/crates/ludtwig-parser/src/grammar/twig/tags.rs
index 48b3e35..5bdf808 100644
--- a/crates/ludtwig-parser/src/grammar/twig/tags.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/tags.rs
@@ -38,6 +38,7 @@ pub(crate) fn at_twig_termination_tag(p: &mut Parser) -> bool {
         T!["endcache"],
         T!["endsw_silent_feature_call"],
         T!["endtrans"],
+        T!["endcomponent"],
     ];
 
     if !p.at_twig_block_open() {
-- 
2.43.0


From ff696e7c5f9901fceab6957b01f1f5ea084f3c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:20 +0000
Subject: [PATCH 09/37] fix: unknown twig tag in raw text neither swallows the
 next token nor panics at the end

---
 crates/ludtwig-parser/src/grammar/html.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index d922240..000b4cf 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -106,7 +106,8 @@ fn parse_html_raw_text(
                 false
             },
             |p| {
-                if parse_any_twig(p, parse_html_raw_text_inner).is_none() {
+                let pos = p.get_pos();
+                if parse_any_twig(p, parse_html_raw_text_inner).is_none() && p.get_pos() == pos {
                     p.bump(); // just bump anything until the early exit closure stops us
                 }
             },
@@ -135,7 +136,8 @@ fn parse_html_raw_text(
             false
         },
         |p| {
-            if parse_any_twig(p, parse_html_raw_text_inner).is_none() {
+            let pos = p.get_pos();
+            if parse_any_twig(p, parse_html_raw_text_inner).is_none() && p.get_pos() == pos {
                 p.bump(); // just bump anything until the early exit closure stops us
             }
         },
-- 
2.43.0


From 6326267cc340abe59b41bbaeaeaac981293009cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 10/37] fix: operands of a chained binary expression are found
 on their side of the operator

---
 crates/ludtwig-parser/src/syntax/typed.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/typed.rs b/crates/ludtwig-parser/src/syntax/typed.rs
index bb188ce..7fb72e2 100644
--- a/crates/ludtwig-parser/src/syntax/typed.rs
+++ b/crates/ludtwig-parser/src/syntax/typed.rs
@@ -317,17 +317,29 @@ impl TwigBinaryExpression {
             })
     }
 
+    /// Operand on the left side of the operator.
+    /// `None` if the left side is another binary expression, which isn't wrapped by an expression.
     #[must_use]
     pub fn lhs_expression(&self) -> Option<TwigExpression> {
-        self.syntax.children().find_map(TwigExpression::cast)
+        self.syntax
+            .children_with_tokens()
+            .take_while(
+                |element| !matches!(element, NodeOrToken::Token(t) if !t.kind().is_trivia()),
+            )
+            .filter_map(NodeOrToken::into_node)
+            .find_map(TwigExpression::cast)
     }
 
+    /// Operand on the right side of the operator.
     #[must_use]
     pub fn rhs_expression(&self) -> Option<TwigExpression> {
         self.syntax
-            .children()
-            .filter_map(TwigExpression::cast)
-            .nth(1)
+            .children_with_tokens()
+            .skip_while(
+                |element| !matches!(element, NodeOrToken::Token(t) if !t.kind().is_trivia()),
+            )
+            .filter_map(NodeOrToken::into_node)
+            .find_map(TwigExpression::cast)
     }
 }
 
-- 
2.43.0


From 4bbb0fb946accf812a39eb3d2b516d6269f4610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:20 +0000
Subject: [PATCH 11/37] fix: line-ending rule accepts correct windows line
 endings instead of rewriting them forever

---
 crates/ludtwig/src/check/rules/line_ending.rs | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/line_ending.rs b/crates/ludtwig/src/check/rules/line_ending.rs
index ad1ef0c..8aede43 100644
--- a/crates/ludtwig/src/check/rules/line_ending.rs
+++ b/crates/ludtwig/src/check/rules/line_ending.rs
@@ -4,7 +4,6 @@ use std::sync::OnceLock;
 use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxToken, TextRange, TextSize};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
-use crate::config::LineEnding;
 
 pub struct RuleLineEnding;
 
@@ -14,7 +13,7 @@ impl Rule for RuleLineEnding {
     }
 
     fn check_token(&self, token: SyntaxToken, ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
-        static INVALID_REGEX: OnceLock<Regex> = OnceLock::new();
+        static LINE_ENDING_REGEX: OnceLock<Regex> = OnceLock::new();
 
         if token.kind() != SyntaxKind::TK_LINE_BREAK {
             return None;
@@ -25,19 +24,14 @@ impl Rule for RuleLineEnding {
 
         // compile regex only once and store it in a static
         // because this function is called in a hot loop this does improve it's performance significantly
-        let invalid_regex = INVALID_REGEX.get_or_init(|| {
-            Regex::new(&format!(
-                r"({})",
-                match ctx.config().format.line_ending {
-                    LineEnding::UnixLF => "\r\n", // inverse: look for windows line endings
-                    LineEnding::WindowsCRLF => "[^\r]?\n", // inverse: look for unix line endings
-                }
-            ))
-            .unwrap()
-        });
+        let line_ending_regex = LINE_ENDING_REGEX.get_or_init(|| Regex::new(r"\r?\n").unwrap());
 
         let mut results = vec![];
-        for invalid in invalid_regex.find_iter(token.text()) {
+        for invalid in line_ending_regex.find_iter(token.text()) {
+            if invalid.as_str() == correct_line_ending {
+                continue;
+            }
+
             #[allow(clippy::cast_possible_truncation)]
             let range = TextRange::new(
                 token.text_range().start() + TextSize::from(invalid.start() as u32),
-- 
2.43.0


From aea4a87764c37ca803da8f32388abc08a59e5af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:09 +0000
Subject: [PATCH 12/37] fix: layout rules keep the whitespace of nested
 sensitive elements and twig strings

---
 crates/ludtwig/src/check.rs                   | 52 +++++++++++--------
 crates/ludtwig/src/check/rules/indentation.rs | 47 ++++++++++-------
 .../rules/whitespace_between_line_breaks.rs   | 18 +++++++
 3 files changed, 78 insertions(+), 39 deletions(-)

diff --git a/crates/ludtwig/src/check.rs b/crates/ludtwig/src/check.rs
index 10b97de..127f2e4 100644
--- a/crates/ludtwig/src/check.rs
+++ b/crates/ludtwig/src/check.rs
@@ -9,7 +9,7 @@ use ludtwig_parser::syntax::typed;
 use ludtwig_parser::syntax::typed::{
     AstNode, HtmlStringInner, HtmlTag, LudtwigDirectiveIgnore, TwigLiteralStringInner,
 };
-use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxToken, WalkEvent, debug_tree};
+use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxNode, WalkEvent, debug_tree};
 
 use crate::ProcessingEvent;
 use crate::check::rule::{
@@ -30,6 +30,7 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
             inside_trivia_sensitive_node: false,
         },
     };
+    let mut trivia_sensitive_depth = 0_usize; // trivia sensitive nodes can be nested
 
     if file_context.file_rule_definitions.is_empty() {
         // no rules to run for this file
@@ -91,16 +92,9 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
                         }
 
                         // adjust traversal context when entering special nodes
-                        if HtmlStringInner::can_cast(n.kind())
-                            || TwigLiteralStringInner::can_cast(n.kind())
-                        {
+                        if is_trivia_sensitive_node(&n) {
+                            trivia_sensitive_depth += 1;
                             run_context.traversal_ctx.inside_trivia_sensitive_node = true;
-                        } else if let Some(t) = HtmlTag::cast(n.clone()) {
-                            if let Some("pre" | "textarea" | "script" | "style") =
-                                t.name().as_ref().map(SyntaxToken::text)
-                            {
-                                run_context.traversal_ctx.inside_trivia_sensitive_node = true;
-                            }
                         }
 
                         // run node checks for every rule
@@ -138,7 +132,14 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
                 // remove ignored rules when leaving the sibling after the ignore directive / comment
                 let found_ignored_rules: Vec<String> = match element.prev_sibling_or_token() {
                     Some(SyntaxElement::Node(node)) => match LudtwigDirectiveIgnore::cast(node) {
-                        Some(directive) => directive.get_rules(),
+                        Some(directive) => {
+                            let ignored_rules = directive.get_rules();
+                            if ignored_rules.is_empty() {
+                                continue; // this element was skipped on enter
+                            }
+
+                            ignored_rules
+                        }
                         None => vec![],
                     },
                     _ => vec![],
@@ -155,16 +156,10 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
 
                 // adjust traversal context when exiting special nodes
                 if let SyntaxElement::Node(n) = element {
-                    if HtmlStringInner::can_cast(n.kind())
-                        || TwigLiteralStringInner::can_cast(n.kind())
-                    {
-                        run_context.traversal_ctx.inside_trivia_sensitive_node = false;
-                    } else if let Some(t) = HtmlTag::cast(n) {
-                        if let Some("pre" | "textarea" | "script" | "style") =
-                            t.name().as_ref().map(SyntaxToken::text)
-                        {
-                            run_context.traversal_ctx.inside_trivia_sensitive_node = false;
-                        }
+                    if is_trivia_sensitive_node(&n) {
+                        trivia_sensitive_depth -= 1;
+                        run_context.traversal_ctx.inside_trivia_sensitive_node =
+                            trivia_sensitive_depth > 0;
                     }
                 }
             }
@@ -174,6 +169,21 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
     check_results
 }
 
+/// Is the whitespace inside this html element part of its content?
+pub fn is_trivia_sensitive_tag(tag: &HtmlTag) -> bool {
+    tag.name().is_some_and(|name| {
+        ["pre", "textarea", "script", "style"]
+            .iter()
+            .any(|sensitive| name.text().eq_ignore_ascii_case(sensitive))
+    })
+}
+
+fn is_trivia_sensitive_node(n: &SyntaxNode) -> bool {
+    HtmlStringInner::can_cast(n.kind())
+        || TwigLiteralStringInner::can_cast(n.kind())
+        || HtmlTag::cast(n.clone()).is_some_and(|t| is_trivia_sensitive_tag(&t))
+}
+
 pub fn get_rule_context_suggestions(
     check_results: &[CheckResult],
 ) -> Vec<(&'static str, &CheckSuggestion)> {
diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index b8466f6..b3400c3 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -4,6 +4,7 @@ use ludtwig_parser::syntax::untyped::{
     WalkEvent,
 };
 
+use crate::check::is_trivia_sensitive_tag;
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
 pub struct RuleIndentation;
@@ -18,7 +19,7 @@ impl Rule for RuleIndentation {
         let mut line_break_encountered = true;
         let mut indentation_level = 0; // whole indentation levels like nested elements
         let mut indentation_substeps = 0; // additional spaces for alignment (like attributes)
-        let mut inside_trivia_sensitive_node = false;
+        let mut trivia_sensitive_depth = 0_usize; // trivia sensitive nodes can be nested
         let mut is_ignored = false;
 
         let indent_block_children = ctx.config().format.indent_children_of_blocks;
@@ -36,7 +37,7 @@ impl Rule for RuleIndentation {
                             line_break_encountered = true;
                         }
                         SyntaxElement::Token(t) if !is_ignored && line_break_encountered => {
-                            if !inside_trivia_sensitive_node {
+                            if trivia_sensitive_depth == 0 {
                                 check_results.append(&mut self.handle_first_token_in_line(
                                     &t,
                                     indentation_level,
@@ -57,7 +58,7 @@ impl Rule for RuleIndentation {
                             }
 
                             Self::check_for_trivia_sensitivity(
-                                &mut inside_trivia_sensitive_node,
+                                &mut trivia_sensitive_depth,
                                 &n,
                                 WalkMode::Enter,
                             );
@@ -79,10 +80,17 @@ impl Rule for RuleIndentation {
                 }
                 WalkEvent::Leave(element) => {
                     if let SyntaxElement::Node(n) = element {
-                        self.check_for_rule_ignore_leave(&mut is_ignored, &n);
+                        if n.kind() == SyntaxKind::TWIG_LITERAL_STRING_INNER {
+                            // whitespace before the closing quote belongs to the string
+                            line_break_encountered = false;
+                        }
+
+                        if self.check_for_rule_ignore_leave(&mut is_ignored, &n) {
+                            continue; // this node was skipped on enter
+                        }
 
                         Self::check_for_trivia_sensitivity(
-                            &mut inside_trivia_sensitive_node,
+                            &mut trivia_sensitive_depth,
                             &n,
                             WalkMode::Leave,
                         );
@@ -229,10 +237,14 @@ impl RuleIndentation {
         false
     }
 
-    fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode) {
+    fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode) -> bool {
         if let Some(node) = n.prev_sibling() {
             if let Some(directive) = LudtwigDirectiveIgnore::cast(node) {
                 let ignored_rules = directive.get_rules();
+                if ignored_rules.is_empty() {
+                    // all rules were disabled
+                    return true;
+                }
 
                 if ignored_rules.iter().any(|r| r == self.name()) {
                     // this rule is no longer ignored
@@ -240,24 +252,23 @@ impl RuleIndentation {
                 }
             }
         }
+        false
     }
 
     fn check_for_trivia_sensitivity(
-        inside_trivia_sensitive_node: &mut bool,
+        trivia_sensitive_depth: &mut usize,
         n: &SyntaxNode,
         walk_mode: WalkMode,
     ) {
-        if let Some(t) = HtmlTag::cast(n.clone()) {
-            if let Some("pre" | "textarea" | "script" | "style") =
-                t.name().as_ref().map(SyntaxToken::text)
-            {
-                match walk_mode {
-                    WalkMode::Enter => {
-                        *inside_trivia_sensitive_node = true;
-                    }
-                    WalkMode::Leave => {
-                        *inside_trivia_sensitive_node = false;
-                    }
+        if n.kind() == SyntaxKind::TWIG_LITERAL_STRING_INNER
+            || HtmlTag::cast(n.clone()).is_some_and(|t| is_trivia_sensitive_tag(&t))
+        {
+            match walk_mode {
+                WalkMode::Enter => {
+                    *trivia_sensitive_depth += 1;
+                }
+                WalkMode::Leave => {
+                    *trivia_sensitive_depth -= 1;
                 }
             }
         }
diff --git a/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs b/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
index e35d248..9d634ea 100644
--- a/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
+++ b/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
@@ -1,5 +1,7 @@
+use ludtwig_parser::syntax::typed::{AstNode, HtmlTag};
 use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxToken};
 
+use crate::check::is_trivia_sensitive_tag;
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
 pub struct RuleWhitespaceBetweenLineBreaks;
@@ -25,6 +27,10 @@ impl Rule for RuleWhitespaceBetweenLineBreaks {
             return None;
         }
 
+        if is_inside_trivia_sensitive_content(&may_be_ws) {
+            return None; // the whitespace is part of the content
+        }
+
         let result = self
             .create_result(Severity::Help, "Whitespace between line breaks")
             .primary_note(
@@ -37,6 +43,18 @@ impl Rule for RuleWhitespaceBetweenLineBreaks {
     }
 }
 
+fn is_inside_trivia_sensitive_content(token: &SyntaxToken) -> bool {
+    token.parent_ancestors().any(|n| match n.kind() {
+        SyntaxKind::TWIG_LITERAL_STRING_INNER => true,
+        // trivia before the ending tag still belongs to the content of the element
+        SyntaxKind::BODY | SyntaxKind::HTML_ENDING_TAG => n
+            .parent()
+            .and_then(HtmlTag::cast)
+            .is_some_and(|t| is_trivia_sensitive_tag(&t)),
+        _ => false,
+    })
+}
+
 #[cfg(test)]
 mod tests {
     use expect_test::expect;
-- 
2.43.0


From e30d9dd0c1ffb248631dc49786b73236baf41338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 13/37] fix: exit with status 1 if errors were reported but no
 file was scanned

---
 crates/ludtwig/src/output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/output.rs b/crates/ludtwig/src/output.rs
index e8a28d4..270da92 100644
--- a/crates/ludtwig/src/output.rs
+++ b/crates/ludtwig/src/output.rs
@@ -60,7 +60,7 @@ pub fn handle_processing_output(rx: &Receiver<ProcessingEvent>) -> i32 {
         (error_count + warning_count + help_count + info_count)
     );
 
-    if file_count > 0 && (error_count > 0 || warning_count > 0 || help_count > 0) {
+    if error_count > 0 || warning_count > 0 || help_count > 0 {
         io::stderr().write_all(conclusion_msg.as_bytes()).unwrap();
         1 // return exit code 1 if there were errors, warnings or help.
     } else {
-- 
2.43.0


From 0815047c0817e9f9d9ef16ebae3b7589277c8370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:35 +0000
Subject: [PATCH 14/37] fix: a nested ignore directive does not end the one
 around it

---
 crates/ludtwig/src/check/rule.rs              | 24 ++++++++++-------
 .../src/check/rules/html_duplicate_id.rs      |  9 ++++---
 crates/ludtwig/src/check/rules/indentation.rs | 27 ++++++++++++-------
 .../src/check/rules/twig_block_duplicate.rs   | 10 ++++---
 4 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/crates/ludtwig/src/check/rule.rs b/crates/ludtwig/src/check/rule.rs
index 4b3b1cf..04969b3 100644
--- a/crates/ludtwig/src/check/rule.rs
+++ b/crates/ludtwig/src/check/rule.rs
@@ -1,6 +1,6 @@
 use crate::{CliSharedData, Config};
 use ludtwig_parser::syntax::typed::{AstNode, LudtwigDirectiveIgnore};
-use ludtwig_parser::syntax::untyped::{Preorder, SyntaxNode, SyntaxToken, TextRange};
+use ludtwig_parser::syntax::untyped::{Preorder, SyntaxKind, SyntaxNode, SyntaxToken, TextRange};
 use std::fmt::{Debug, Formatter};
 use std::sync::Arc;
 
@@ -57,17 +57,17 @@ pub trait RuleExt: Rule {
     fn create_result<S: Into<String>>(&self, severity: Severity, message: S) -> CheckResult;
 
     /// Helper for `check_root` implementations: check if a `LudtwigDirectiveIgnore` applies
-    /// when entering a node. Returns `true` if the subtree was skipped entirely (blanket ignore).
+    /// when entering a node (must be skipped for error nodes). Returns `true` if the subtree was skipped entirely (blanket ignore).
     fn check_for_rule_ignore_enter(
         &self,
-        is_ignored: &mut bool,
+        ignore_depth: &mut usize,
         tree_iter: &mut Preorder,
         n: &SyntaxNode,
     ) -> bool;
 
-    /// Helper for `check_root` implementations: reset the ignore flag when leaving a node
+    /// Helper for `check_root` implementations: decrease the ignore depth when leaving a node
     /// whose previous sibling was a `LudtwigDirectiveIgnore` targeting this rule.
-    fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode);
+    fn check_for_rule_ignore_leave(&self, ignore_depth: &mut usize, n: &SyntaxNode);
 }
 
 impl<R: Rule> RuleExt for R {
@@ -84,7 +84,7 @@ impl<R: Rule> RuleExt for R {
 
     fn check_for_rule_ignore_enter(
         &self,
-        is_ignored: &mut bool,
+        ignore_depth: &mut usize,
         tree_iter: &mut Preorder,
         n: &SyntaxNode,
     ) -> bool {
@@ -99,21 +99,25 @@ impl<R: Rule> RuleExt for R {
 
                 if ignored_rules.iter().any(|r| r == self.name()) {
                     // this rule is now ignored
-                    *is_ignored = true;
+                    *ignore_depth += 1;
                 }
             }
         }
         false
     }
 
-    fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode) {
+    fn check_for_rule_ignore_leave(&self, ignore_depth: &mut usize, n: &SyntaxNode) {
+        if n.kind() == SyntaxKind::ERROR {
+            return; // error nodes are skipped on enter
+        }
+
         if let Some(node) = n.prev_sibling() {
             if let Some(directive) = LudtwigDirectiveIgnore::cast(node) {
                 let ignored_rules = directive.get_rules();
 
                 if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is no longer ignored
-                    *is_ignored = false;
+                    // this directive no longer ignores the rule
+                    *ignore_depth -= 1;
                 }
             }
         }
diff --git a/crates/ludtwig/src/check/rules/html_duplicate_id.rs b/crates/ludtwig/src/check/rules/html_duplicate_id.rs
index 57705be..bd253d9 100644
--- a/crates/ludtwig/src/check/rules/html_duplicate_id.rs
+++ b/crates/ludtwig/src/check/rules/html_duplicate_id.rs
@@ -14,7 +14,7 @@ impl Rule for RuleHtmlDuplicateId {
     fn check_root(&self, node: SyntaxNode, _ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
         let mut id_table: HashMap<String, HtmlAttribute> = HashMap::new();
 
-        let mut is_ignored = false;
+        let mut ignore_depth = 0; // ignore directives can be nested
         let mut check_results = vec![];
         let mut tree_iter = node.preorder();
         while let Some(walk) = tree_iter.next() {
@@ -24,10 +24,11 @@ impl Rule for RuleHtmlDuplicateId {
                         tree_iter.skip_subtree();
                         continue;
                     }
-                    if self.check_for_rule_ignore_enter(&mut is_ignored, &mut tree_iter, &element) {
+                    if self.check_for_rule_ignore_enter(&mut ignore_depth, &mut tree_iter, &element)
+                    {
                         continue;
                     }
-                    if is_ignored {
+                    if ignore_depth > 0 {
                         continue;
                     }
 
@@ -83,7 +84,7 @@ impl Rule for RuleHtmlDuplicateId {
                     }
                 }
                 WalkEvent::Leave(element) => {
-                    self.check_for_rule_ignore_leave(&mut is_ignored, &element);
+                    self.check_for_rule_ignore_leave(&mut ignore_depth, &element);
                 }
             }
         }
diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index b3400c3..63c7d93 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -20,7 +20,7 @@ impl Rule for RuleIndentation {
         let mut indentation_level = 0; // whole indentation levels like nested elements
         let mut indentation_substeps = 0; // additional spaces for alignment (like attributes)
         let mut trivia_sensitive_depth = 0_usize; // trivia sensitive nodes can be nested
-        let mut is_ignored = false;
+        let mut ignore_depth = 0_usize; // ignore directives can be nested
 
         let indent_block_children = ctx.config().format.indent_children_of_blocks;
 
@@ -36,7 +36,7 @@ impl Rule for RuleIndentation {
                         SyntaxElement::Token(t) if t.kind() == SyntaxKind::TK_LINE_BREAK => {
                             line_break_encountered = true;
                         }
-                        SyntaxElement::Token(t) if !is_ignored && line_break_encountered => {
+                        SyntaxElement::Token(t) if ignore_depth == 0 && line_break_encountered => {
                             if trivia_sensitive_depth == 0 {
                                 check_results.append(&mut self.handle_first_token_in_line(
                                     &t,
@@ -52,8 +52,11 @@ impl Rule for RuleIndentation {
                             line_break_encountered = false;
                         }
                         SyntaxElement::Node(n) => {
-                            if self.check_for_rule_ignore_enter(&mut is_ignored, &mut tree_iter, &n)
-                            {
+                            if self.check_for_rule_ignore_enter(
+                                &mut ignore_depth,
+                                &mut tree_iter,
+                                &n,
+                            ) {
                                 continue;
                             }
 
@@ -80,12 +83,16 @@ impl Rule for RuleIndentation {
                 }
                 WalkEvent::Leave(element) => {
                     if let SyntaxElement::Node(n) = element {
+                        if n.kind() == SyntaxKind::ERROR {
+                            continue; // error nodes were skipped on enter
+                        }
+
                         if n.kind() == SyntaxKind::TWIG_LITERAL_STRING_INNER {
                             // whitespace before the closing quote belongs to the string
                             line_break_encountered = false;
                         }
 
-                        if self.check_for_rule_ignore_leave(&mut is_ignored, &n) {
+                        if self.check_for_rule_ignore_leave(&mut ignore_depth, &n) {
                             continue; // this node was skipped on enter
                         }
 
@@ -215,7 +222,7 @@ impl RuleIndentation {
 
     fn check_for_rule_ignore_enter(
         &self,
-        is_ignored: &mut bool,
+        ignore_depth: &mut usize,
         tree_iter: &mut PreorderWithTokens,
         n: &SyntaxNode,
     ) -> bool {
@@ -230,14 +237,14 @@ impl RuleIndentation {
 
                 if ignored_rules.iter().any(|r| r == self.name()) {
                     // this rule is now ignored
-                    *is_ignored = true;
+                    *ignore_depth += 1;
                 }
             }
         }
         false
     }
 
-    fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode) -> bool {
+    fn check_for_rule_ignore_leave(&self, ignore_depth: &mut usize, n: &SyntaxNode) -> bool {
         if let Some(node) = n.prev_sibling() {
             if let Some(directive) = LudtwigDirectiveIgnore::cast(node) {
                 let ignored_rules = directive.get_rules();
@@ -247,8 +254,8 @@ impl RuleIndentation {
                 }
 
                 if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is no longer ignored
-                    *is_ignored = false;
+                    // this directive no longer ignores the rule
+                    *ignore_depth -= 1;
                 }
             }
         }
diff --git a/crates/ludtwig/src/check/rules/twig_block_duplicate.rs b/crates/ludtwig/src/check/rules/twig_block_duplicate.rs
index 12d44c3..3fccde2 100644
--- a/crates/ludtwig/src/check/rules/twig_block_duplicate.rs
+++ b/crates/ludtwig/src/check/rules/twig_block_duplicate.rs
@@ -15,7 +15,7 @@ impl Rule for RuleTwigBlockDuplicate {
         // keep track of some state during tree traversal
         let mut block_table: HashMap<String, TwigBlock> = HashMap::new();
 
-        let mut is_ignored = false;
+        let mut ignore_depth = 0; // ignore directives can be nested
         let mut check_results = vec![];
         let mut tree_iter = node.preorder();
         while let Some(walk) = tree_iter.next() {
@@ -23,11 +23,13 @@ impl Rule for RuleTwigBlockDuplicate {
                 WalkEvent::Enter(element) => {
                     if element.kind() == SyntaxKind::ERROR {
                         tree_iter.skip_subtree(); // Skip everything under error nodes!
+                        continue;
                     }
-                    if self.check_for_rule_ignore_enter(&mut is_ignored, &mut tree_iter, &element) {
+                    if self.check_for_rule_ignore_enter(&mut ignore_depth, &mut tree_iter, &element)
+                    {
                         continue;
                     }
-                    if is_ignored {
+                    if ignore_depth > 0 {
                         continue;
                     }
 
@@ -58,7 +60,7 @@ impl Rule for RuleTwigBlockDuplicate {
                     }
                 }
                 WalkEvent::Leave(element) => {
-                    self.check_for_rule_ignore_leave(&mut is_ignored, &element);
+                    self.check_for_rule_ignore_leave(&mut ignore_depth, &element);
                 }
             }
         }
-- 
2.43.0


From 47fda2f74de8d9230d7cc87376a0ff03a46f2b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:18 +0000
Subject: [PATCH 15/37] fix: block name suggestion also renames the name
 repeated at the end of the block

---
 .../check/rules/twig_block_name_snake_case.rs | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs b/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs
index fcec3e8..d557562 100644
--- a/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs
+++ b/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs
@@ -1,6 +1,7 @@
 use crate::check::naming_convention::{is_valid_ascii_alpha_snake_case, try_make_snake_case};
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
-use ludtwig_parser::syntax::typed::{AstNode, TwigStartingBlock};
+use ludtwig_parser::T;
+use ludtwig_parser::syntax::typed::{AstNode, TwigStartingBlock, support};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
 pub struct RuleTwigBlockNameSnakeCase;
@@ -11,7 +12,8 @@ impl Rule for RuleTwigBlockNameSnakeCase {
     }
 
     fn check_node(&self, node: SyntaxNode, _ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
-        let block_name = TwigStartingBlock::cast(node)?.name()?;
+        let starting_block = TwigStartingBlock::cast(node)?;
+        let block_name = starting_block.name()?;
         if !is_valid_ascii_alpha_snake_case(block_name.text(), false) {
             // name is not valid ascii snake case
             let mut result = self
@@ -23,6 +25,20 @@ impl Rule for RuleTwigBlockNameSnakeCase {
 
             // try make a suggestion
             if let Some(suggested_name) = try_make_snake_case(block_name.text(), false) {
+                // the name is optionally repeated at the end of the block and has to match
+                if let Some(end_name) = starting_block
+                    .twig_block()
+                    .and_then(|b| b.ending_block())
+                    .and_then(|b| support::token(b.syntax(), T![word]))
+                    .filter(|end_name| end_name.text() == block_name.text())
+                {
+                    result = result.suggestion(
+                        end_name.text_range(),
+                        suggested_name.clone(),
+                        "Try this name instead",
+                    );
+                }
+
                 result = result.suggestion(
                     block_name.text_range(),
                     suggested_name,
-- 
2.43.0


From ba5904a342d3d65459311c2dbe57483f8f7c544a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:27 +0000
Subject: [PATCH 16/37] fix: is (not) same as suggestion keeps the operands of
 the replaced operator

---
 .../check/rules/twig_use_is_not_same_as.rs    | 10 ++-
 .../src/check/rules/twig_use_is_same_as.rs    | 64 ++++++++++++++++++-
 2 files changed, 71 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
index 8dc0ede..4651fa5 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
@@ -1,4 +1,7 @@
 use crate::check::rule::{CheckResult, RuleExt, RuleRunContext};
+use crate::check::rules::twig_use_is_same_as::{
+    separator_before_operator, suggest_parentheses_around_lhs_if_needed,
+};
 use crate::{Rule, Severity};
 use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
@@ -27,9 +30,14 @@ impl Rule for RuleTwigUseIsNotSameAs {
             );
 
         if let Some(rhs) = binary.rhs_expression() {
+            result = suggest_parentheses_around_lhs_if_needed(&binary, result);
             result = result.suggestion(
                 op.text_range().cover(rhs.syntax().text_range()),
-                format!("is not same as({})", rhs.syntax().text().to_string().trim()),
+                format!(
+                    "{}is not same as({})",
+                    separator_before_operator(&op),
+                    rhs.syntax().text().to_string().trim()
+                ),
                 "Try this instead",
             );
         }
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
index fda2aa9..8bc0d6b 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
@@ -1,6 +1,8 @@
 use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
-use ludtwig_parser::syntax::untyped::SyntaxNode;
+use ludtwig_parser::syntax::untyped::{
+    SyntaxElement, SyntaxKind, SyntaxNode, SyntaxToken, TextRange, TextSize,
+};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -27,9 +29,14 @@ impl Rule for RuleTwigUseIsSameAs {
             );
 
         if let Some(rhs) = binary.rhs_expression() {
+            result = suggest_parentheses_around_lhs_if_needed(&binary, result);
             result = result.suggestion(
                 op.text_range().cover(rhs.syntax().text_range()),
-                format!("is same as({})", rhs.syntax().text().to_string().trim()),
+                format!(
+                    "{}is same as({})",
+                    separator_before_operator(&op),
+                    rhs.syntax().text().to_string().trim()
+                ),
                 "Try this instead",
             );
         }
@@ -38,6 +45,59 @@ impl Rule for RuleTwigUseIsSameAs {
     }
 }
 
+/// The words of a twig test can't directly follow the operand, like the replaced operator can
+pub fn separator_before_operator(op: &SyntaxToken) -> &'static str {
+    if op.prev_token().is_some_and(|t| t.kind().is_trivia()) {
+        ""
+    } else {
+        " "
+    }
+}
+
+/// A twig test binds tighter than most operators, so an operand made of these needs parentheses
+pub fn suggest_parentheses_around_lhs_if_needed(
+    binary: &TwigBinaryExpression,
+    result: CheckResult,
+) -> CheckResult {
+    let is_operator_expression = |n: &SyntaxNode| {
+        matches!(
+            n.kind(),
+            SyntaxKind::TWIG_BINARY_EXPRESSION | SyntaxKind::TWIG_UNARY_EXPRESSION
+        )
+    };
+
+    let Some(lhs) = binary.syntax().first_child().filter(|lhs| {
+        is_operator_expression(lhs)
+            || lhs
+                .first_child()
+                .is_some_and(|inner| is_operator_expression(&inner))
+    }) else {
+        return result;
+    };
+
+    // leading trivia should stay outside of the parentheses
+    let first_token = lhs
+        .descendants_with_tokens()
+        .filter_map(SyntaxElement::into_token)
+        .find(|t| !t.kind().is_trivia());
+    let Some(first_token) = first_token else {
+        return result;
+    };
+
+    let empty = TextSize::from(0);
+    result
+        .suggestion(
+            TextRange::at(first_token.text_range().start(), empty),
+            "(",
+            "Try this instead",
+        )
+        .suggestion(
+            TextRange::at(lhs.text_range().end(), empty),
+            ")",
+            "Try this instead",
+        )
+}
+
 #[cfg(test)]
 mod tests {
     use crate::check::rules::test::{test_rule, test_rule_fix};
-- 
2.43.0


From e28938dffbd0da4fadae9e3af2f24fedd05218ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:59 +0000
Subject: [PATCH 17/37] fix: and/or suggestion does not merge with the operands
 around the replaced operator

---
 .../ludtwig/src/check/rules/twig_logic_and.rs | 21 +++++++++++++++++--
 .../ludtwig/src/check/rules/twig_logic_or.rs  |  3 ++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_logic_and.rs b/crates/ludtwig/src/check/rules/twig_logic_and.rs
index 77dd1d0..a1641e6 100644
--- a/crates/ludtwig/src/check/rules/twig_logic_and.rs
+++ b/crates/ludtwig/src/check/rules/twig_logic_and.rs
@@ -1,6 +1,6 @@
 use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
-use ludtwig_parser::syntax::untyped::SyntaxNode;
+use ludtwig_parser::syntax::untyped::{SyntaxNode, SyntaxToken};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -21,7 +21,7 @@ impl Rule for RuleTwigLogicAnd {
                 .primary_note(binary_expr_op.text_range(), "help: change this operator")
                 .suggestion(
                     binary_expr_op.text_range(),
-                    "and",
+                    separated_word_operator(&binary_expr_op, "and"),
                     "Try this operator instead",
                 );
 
@@ -32,6 +32,23 @@ impl Rule for RuleTwigLogicAnd {
     }
 }
 
+/// Operators made of letters can't directly touch their operands
+pub fn separated_word_operator(old_op: &SyntaxToken, word: &str) -> String {
+    let touches = |t: Option<SyntaxToken>| t.is_some_and(|t| !t.kind().is_trivia());
+    let before = if touches(old_op.prev_token()) {
+        " "
+    } else {
+        ""
+    };
+    let after = if touches(old_op.next_token()) {
+        " "
+    } else {
+        ""
+    };
+
+    format!("{before}{word}{after}")
+}
+
 #[cfg(test)]
 mod tests {
     use crate::check::rules::test::{test_rule, test_rule_fix};
diff --git a/crates/ludtwig/src/check/rules/twig_logic_or.rs b/crates/ludtwig/src/check/rules/twig_logic_or.rs
index 7d151f9..52dd617 100644
--- a/crates/ludtwig/src/check/rules/twig_logic_or.rs
+++ b/crates/ludtwig/src/check/rules/twig_logic_or.rs
@@ -3,6 +3,7 @@ use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
+use crate::check::rules::twig_logic_and::separated_word_operator;
 
 pub struct RuleTwigLogicOr;
 
@@ -22,7 +23,7 @@ impl Rule for RuleTwigLogicOr {
                 .primary_note(binary_expr_op.text_range(), "help: change this operator")
                 .suggestion(
                     binary_expr_op.text_range(),
-                    "or",
+                    separated_word_operator(&binary_expr_op, "or"),
                     "Try this operator instead",
                 );
 
-- 
2.43.0


From 97f813f2fd5b8053b51908093f5a62f3ab28fde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:15 +0000
Subject: [PATCH 18/37] fix: keep the quotes of hash keys the parser can't read
 without them

---
 .../ludtwig/src/check/rules/twig_hash_key_no_quotes.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs b/crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs
index ad20a0d..7e6c17a 100644
--- a/crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs
+++ b/crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs
@@ -1,6 +1,6 @@
 use ludtwig_parser::TWIG_NAME_REGEX;
 use ludtwig_parser::syntax::typed::{AstNode, TwigLiteralHashKey, TwigLiteralString, support};
-use ludtwig_parser::syntax::untyped::{SyntaxNode, SyntaxNodeExt, TextRange, TextSize};
+use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxNode, SyntaxNodeExt, TextRange, TextSize};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -16,9 +16,13 @@ impl Rule for RuleTwigHashKeyNoQuotes {
         let key_string_literal: TwigLiteralString = support::child(hash_key.syntax())?;
         let key_string_inner = key_string_literal.get_inner()?;
 
-        // validate that inner string is a single valid twig word
+        // validate that inner string is a single valid twig word (also for the parser)
         let key_only_contains_one_element =
-            key_string_inner.syntax().children_with_tokens().count() == 1;
+            key_string_inner.syntax().children_with_tokens().count() == 1
+                && key_string_inner
+                    .syntax()
+                    .first_token()
+                    .is_some_and(|t| t.kind() != SyntaxKind::TK_UNKNOWN);
         let key_string_matches_twig_word_regex =
             TWIG_NAME_REGEX.is_match(&key_string_inner.syntax().text().to_string());
 
-- 
2.43.0


From 43d762c57967453882b549698ae4d7a1a8bc8515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:37 +0000
Subject: [PATCH 19/37] fix: apply the suggestions of a result together or not
 at all, nested results of one rule may collide

---
 crates/ludtwig/src/check.rs   | 53 ++++++++++++++++++++++++++++-------
 crates/ludtwig/src/process.rs | 34 ++--------------------
 2 files changed, 45 insertions(+), 42 deletions(-)

diff --git a/crates/ludtwig/src/check.rs b/crates/ludtwig/src/check.rs
index 127f2e4..cb1ebf0 100644
--- a/crates/ludtwig/src/check.rs
+++ b/crates/ludtwig/src/check.rs
@@ -1,3 +1,4 @@
+use std::collections::BTreeSet;
 use std::sync::Arc;
 
 use codespan_reporting::diagnostic::{Diagnostic, Label};
@@ -9,12 +10,15 @@ use ludtwig_parser::syntax::typed;
 use ludtwig_parser::syntax::typed::{
     AstNode, HtmlStringInner, HtmlTag, LudtwigDirectiveIgnore, TwigLiteralStringInner,
 };
-use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxNode, WalkEvent, debug_tree};
+use ludtwig_parser::syntax::untyped::{
+    SyntaxElement, SyntaxNode, TextRange, WalkEvent, debug_tree,
+};
 
 use crate::ProcessingEvent;
 use crate::check::rule::{
     CheckResult, CheckSuggestion, RuleRunContext, Severity, TreeTraversalContext,
 };
+use crate::error::FileProcessingError;
 use crate::process::FileContext;
 
 pub mod naming_convention;
@@ -184,16 +188,45 @@ fn is_trivia_sensitive_node(n: &SyntaxNode) -> bool {
         || HtmlTag::cast(n.clone()).is_some_and(|t| is_trivia_sensitive_tag(&t))
 }
 
-pub fn get_rule_context_suggestions(
+/// Collects the suggestions that can be applied together sorted by their syntax range.
+/// The suggestions of a single result only make sense together and are therefore all omitted
+/// if any of them collides with an already collected one.
+pub fn get_non_overlapping_suggestions(
     check_results: &[CheckResult],
-) -> Vec<(&'static str, &CheckSuggestion)> {
-    check_results
-        .iter()
-        .flat_map(|res| {
-            let rule_name = res.rule_name;
-            res.suggestions.iter().map(move |sug| (rule_name, sug))
-        })
-        .collect()
+) -> Result<Vec<&CheckSuggestion>, FileProcessingError> {
+    let range_key = |s: &CheckSuggestion| (s.syntax_range.start(), s.syntax_range.end());
+    let mut occupied = BTreeSet::new();
+    let mut suggestions: Vec<&CheckSuggestion> = vec![];
+
+    for result in check_results {
+        let mut group: Vec<&CheckSuggestion> = result.suggestions.iter().collect();
+        group.sort_by_key(|s| range_key(s));
+        if group
+            .windows(2)
+            .any(|w| w[0].syntax_range.ordering(w[1].syntax_range).is_eq())
+        {
+            return Err(FileProcessingError::OverlappingSuggestionInSingleRule {
+                rule_name: result.rule_name.to_string(),
+            });
+        }
+
+        let collides = group.iter().any(|s| {
+            let key = range_key(s);
+            let prev = occupied.range(..=key).next_back();
+            let next = occupied.range(key..).next();
+            prev.into_iter().chain(next).any(|&(start, end)| {
+                let range = TextRange::new(start, end);
+                range == s.syntax_range || range.ordering(s.syntax_range).is_eq()
+            })
+        });
+        if !collides {
+            occupied.extend(group.iter().map(|s| range_key(s)));
+            suggestions.append(&mut group);
+        }
+    }
+
+    suggestions.sort_by_key(|s| range_key(s));
+    Ok(suggestions)
 }
 
 pub fn produce_diagnostics(
diff --git a/crates/ludtwig/src/process.rs b/crates/ludtwig/src/process.rs
index 981b35f..a067fe4 100644
--- a/crates/ludtwig/src/process.rs
+++ b/crates/ludtwig/src/process.rs
@@ -1,4 +1,3 @@
-use std::collections::HashSet;
 use std::fs;
 use std::path::PathBuf;
 
@@ -10,7 +9,7 @@ use ludtwig_parser::syntax::untyped::SyntaxNode;
 use crate::CliContext;
 use crate::check::rule::{CheckResult, CheckSuggestion, Rule};
 use crate::check::rules::get_file_active_rule_definitions;
-use crate::check::{get_rule_context_suggestions, produce_diagnostics, run_rules};
+use crate::check::{get_non_overlapping_suggestions, produce_diagnostics, run_rules};
 use crate::error::FileProcessingError;
 use crate::output::ProcessingEvent;
 
@@ -124,40 +123,11 @@ pub fn iteratively_apply_suggestions(
 
     // try at maximum 10 parsing iterations
     for iterations in 0_usize..10 {
-        let mut suggestions = get_rule_context_suggestions(&check_results);
+        let suggestions = get_non_overlapping_suggestions(&check_results)?;
         if suggestions.is_empty() {
             return Ok((file_context, check_results, dirty, iterations));
         }
 
-        // sort by syntax range
-        suggestions
-            .sort_by(|(_, sug_a), (_, sug_b)| sug_a.syntax_range.ordering(sug_b.syntax_range));
-
-        // filter out overlapping suggestions
-        let mut overlapping_rules = HashSet::new();
-        for ((rule_a, sug_a), (rule_b, sug_b)) in suggestions.iter().zip(suggestions.iter().skip(1))
-        {
-            if sug_a.syntax_range.ordering(sug_b.syntax_range).is_eq() {
-                if rule_a == rule_b {
-                    return Err(FileProcessingError::OverlappingSuggestionInSingleRule {
-                        rule_name: (*rule_a).to_string(),
-                    });
-                }
-
-                overlapping_rules.insert(*rule_b);
-            }
-        }
-        let suggestions = suggestions
-            .into_iter()
-            .filter_map(|(rule, suggestion)| {
-                if overlapping_rules.contains(&rule) {
-                    return None;
-                }
-
-                Some(suggestion)
-            })
-            .collect();
-
         // transform source code according to non overlapping suggestions
         dirty = true;
         let source_code = apply_suggestions_to_text(suggestions, file_context.source_code);
-- 
2.43.0


From af297cb6cc5f4373a9c4fcdef0b06879a7aa8cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:57 +0000
Subject: [PATCH 20/37] fix: check the first filter of apply tags and replace
 raw together with its arguments

---
 .../check/rules/twig_json_encode_escape_js.rs | 27 +++++++++--
 .../src/check/rules/twig_valid_filter.rs      | 45 ++++++++++++-------
 2 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs b/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
index 0a4ec0f..001fdcc 100644
--- a/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
+++ b/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
@@ -1,5 +1,7 @@
-use ludtwig_parser::syntax::typed::{AstNode, TwigFilter, TwigLiteralName, support};
-use ludtwig_parser::syntax::untyped::SyntaxNode;
+use ludtwig_parser::syntax::typed::{
+    AstNode, TwigApplyStartingBlock, TwigFilter, TwigLiteralName, support,
+};
+use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxNode, TextRange};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -36,7 +38,11 @@ impl Rule for RuleTwigJsonEncodeEscapeJs {
                 "help: replace 'raw' with escape('js')",
             )
             .suggestion(
-                right_name_token.text_range(),
+                // includes the arguments of raw() if there are any
+                TextRange::new(
+                    right_name_token.text_range().start(),
+                    right_operand.syntax().text_range().end(),
+                ),
                 "escape('js')",
                 "Try this filter instead",
             );
@@ -65,6 +71,13 @@ fn chain_contains_json_encode(filter: &TwigFilter) -> bool {
                 current = inner;
                 continue;
             }
+
+            // the chain of an apply tag starts with a filter and not with the filtered value
+            if is_filter_chain_of_apply(filter) {
+                return support::child::<TwigLiteralName>(left_operand.syntax())
+                    .and_then(|name_node| name_node.get_name())
+                    .is_some_and(|t| t.text() == "json_encode");
+            }
         }
 
         break;
@@ -73,6 +86,14 @@ fn chain_contains_json_encode(filter: &TwigFilter) -> bool {
     false
 }
 
+fn is_filter_chain_of_apply(filter: &TwigFilter) -> bool {
+    filter
+        .syntax()
+        .ancestors()
+        .find(|n| !matches!(n.kind(), SyntaxKind::TWIG_FILTER | SyntaxKind::TWIG_OPERAND))
+        .is_some_and(|n| TwigApplyStartingBlock::can_cast(n.kind()))
+}
+
 #[cfg(test)]
 mod tests {
     use crate::check::rules::test::{test_rule, test_rule_does_not_fix, test_rule_fix};
diff --git a/crates/ludtwig/src/check/rules/twig_valid_filter.rs b/crates/ludtwig/src/check/rules/twig_valid_filter.rs
index f5fc380..4091a50 100644
--- a/crates/ludtwig/src/check/rules/twig_valid_filter.rs
+++ b/crates/ludtwig/src/check/rules/twig_valid_filter.rs
@@ -1,7 +1,7 @@
 use ludtwig_parser::syntax::typed::{
-    AstNode, TwigFilter, TwigFunctionCall, TwigLiteralName, support,
+    AstNode, TwigApplyStartingBlock, TwigFilter, TwigFunctionCall, TwigLiteralName, support,
 };
-use ludtwig_parser::syntax::untyped::SyntaxNode;
+use ludtwig_parser::syntax::untyped::{SyntaxNode, SyntaxToken};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -13,20 +13,10 @@ impl Rule for RuleTwigValidFilter {
     }
 
     fn check_node(&self, node: SyntaxNode, ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
-        let filter = TwigFilter::cast(node)?;
-        let right_operand = filter.filter()?;
-
-        // Filter name can be a plain TwigLiteralName or inside a TwigFunctionCall (when filter has args)
-        let name_token = if let Some(name_node) =
-            support::child::<TwigLiteralName>(right_operand.syntax())
-        {
-            name_node.get_name()?
-        } else if let Some(func_call) = support::child::<TwigFunctionCall>(right_operand.syntax()) {
-            let name_operand = func_call.name_operand()?;
-            let name_node: TwigLiteralName = support::child(name_operand.syntax())?;
-            name_node.get_name()?
+        let name_token = if let Some(apply) = TwigApplyStartingBlock::cast(node.clone()) {
+            first_filter_of_apply(&apply)?
         } else {
-            return None;
+            filter_name_token(&TwigFilter::cast(node)?)?
         };
 
         let filter_name = name_token.text();
@@ -50,6 +40,31 @@ impl Rule for RuleTwigValidFilter {
     }
 }
 
+/// Filter name can be a plain `TwigLiteralName` or inside a `TwigFunctionCall` (when filter has args)
+fn filter_name_token(filter: &TwigFilter) -> Option<SyntaxToken> {
+    let right_operand = filter.filter()?;
+
+    if let Some(name_node) = support::child::<TwigLiteralName>(right_operand.syntax()) {
+        name_node.get_name()
+    } else if let Some(func_call) = support::child::<TwigFunctionCall>(right_operand.syntax()) {
+        let name_operand = func_call.name_operand()?;
+        let name_node: TwigLiteralName = support::child(name_operand.syntax())?;
+        name_node.get_name()
+    } else {
+        None
+    }
+}
+
+/// The first filter of `{% apply first|second %}` is the leftmost operand of the filter chain
+fn first_filter_of_apply(apply: &TwigApplyStartingBlock) -> Option<SyntaxToken> {
+    let mut parent = apply.syntax().clone();
+    while let Some(operand) = support::child::<TwigFilter>(&parent).and_then(|f| f.operand()) {
+        parent = operand.syntax().clone();
+    }
+
+    support::child::<TwigLiteralName>(&parent)?.get_name()
+}
+
 #[cfg(test)]
 mod tests {
     use expect_test::expect;
-- 
2.43.0


From 134679a33a2d47821588d00c5503acd692053831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:13 +0000
Subject: [PATCH 21/37] fix: process files below overlapping input paths only
 once

---
 crates/ludtwig/src/main.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/ludtwig/src/main.rs b/crates/ludtwig/src/main.rs
index ee4d269..44a53b7 100644
--- a/crates/ludtwig/src/main.rs
+++ b/crates/ludtwig/src/main.rs
@@ -14,6 +14,8 @@ use crate::output::ProcessingEvent;
 use clap::Parser;
 use ignore::types::TypesBuilder;
 use ignore::{WalkBuilder, WalkState};
+use std::collections::HashSet;
+use std::fs;
 use std::path::{Path, PathBuf};
 use std::sync::mpsc::Sender;
 use std::sync::{Arc, mpsc};
@@ -150,11 +152,24 @@ fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
         .build()
         .unwrap();
 
+    // the user specified paths can overlap, but every file must only be processed once
+    let mut canonical_paths = HashSet::new();
+    let paths: Vec<PathBuf> = paths
+        .into_iter()
+        .filter(|p| fs::canonicalize(p).map_or(true, |c| canonical_paths.insert(c)))
+        .collect();
+
     // create walker over all the user specified paths
     let mut walker = WalkBuilder::new(&paths[0]);
     for path in paths.into_iter().skip(1) {
         walker.add(path);
     }
+    walker.filter_entry(move |entry| {
+        // paths below another one are only visited on their own
+        entry.depth() == 0
+            || canonical_paths.len() < 2
+            || fs::canonicalize(entry.path()).map_or(true, |c| !canonical_paths.contains(&c))
+    });
 
     let walker = walker
         .add_custom_ignore_filename(".ludtwig-ignore")
-- 
2.43.0


From 16e45b2d8fa89665916bea7b44900a152e6b7cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 22/37] fix: html_tag of attributes nested in twig syntax
 returns the tag around it

---
 crates/ludtwig-parser/src/syntax/typed.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/typed.rs b/crates/ludtwig-parser/src/syntax/typed.rs
index 7fb72e2..ce2cb84 100644
--- a/crates/ludtwig-parser/src/syntax/typed.rs
+++ b/crates/ludtwig-parser/src/syntax/typed.rs
@@ -273,9 +273,10 @@ impl HtmlAttribute {
     /// Parent starting html tag
     #[must_use]
     pub fn html_tag(&self) -> Option<HtmlStartingTag> {
-        // first parent is HtmlAttributeList, the parent of that is the tag itself
+        // the parent of the HtmlAttributeList is the tag itself, but there may be twig syntax in between
         self.syntax
-            .parent()?
+            .ancestors()
+            .find(|n| n.kind() == SyntaxKind::HTML_ATTRIBUTE_LIST)?
             .parent()
             .and_then(HtmlStartingTag::cast)
     }
-- 
2.43.0


From 836dcc3c2e46fa263d7443d8aaa4eca7e7def3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:06 +0000
Subject: [PATCH 23/37] fix: variable naming judges each variable of a set tag
 by its own value

---
 .../rules/twig_variable_definition_naming.rs  | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_variable_definition_naming.rs b/crates/ludtwig/src/check/rules/twig_variable_definition_naming.rs
index d7ffbd7..1931394 100644
--- a/crates/ludtwig/src/check/rules/twig_variable_definition_naming.rs
+++ b/crates/ludtwig/src/check/rules/twig_variable_definition_naming.rs
@@ -20,23 +20,25 @@ impl Rule for RuleTwigVariableDefinitionNaming {
             SyntaxKind::TWIG_ASSIGNMENT => {
                 let assignment = TwigAssignment::cast(node)?;
 
-                let is_constant = is_constant_assignment(assignment.syntax());
-                check_literal_names(self, assignment.syntax(), is_constant)
+                check_literal_names(self, assignment.syntax(), |idx| {
+                    is_constant_assignment(assignment.syntax(), idx)
+                })
             }
             SyntaxKind::TWIG_FOR_BLOCK => {
                 let for_block = TwigForBlock::cast(node)?;
-                check_literal_names(self, for_block.syntax(), false)
+                check_literal_names(self, for_block.syntax(), |_| false)
             }
             _ => None,
         }
     }
 }
 
-fn is_constant_assignment(syntax: &SyntaxNode) -> bool {
+fn is_constant_assignment(syntax: &SyntaxNode, idx: usize) -> bool {
     // Detect `{% set VAR = constant(...) %}` by checking that the direct child expression
-    // is a bare `constant()` function call. Wrapped expressions (filters, binary ops, etc.)
+    // at the position of the variable (there can be multiple) is a bare `constant()` function call. Wrapped expressions (filters, binary ops, etc.)
     // are intentionally not detected; users can suppress the diagnostic with `ludtwig-ignore`.
-    support::child::<TwigExpression>(syntax)
+    support::children::<TwigExpression>(syntax)
+        .nth(idx)
         .and_then(|expr| support::child::<TwigFunctionCall>(expr.syntax()))
         .and_then(|twig_fn| twig_fn.name_operand())
         .and_then(|op| support::child::<TwigLiteralName>(op.syntax()))
@@ -47,15 +49,16 @@ fn is_constant_assignment(syntax: &SyntaxNode) -> bool {
 fn check_literal_names(
     rule: &RuleTwigVariableDefinitionNaming,
     syntax: &SyntaxNode,
-    is_constant: bool,
+    is_constant: impl Fn(usize) -> bool,
 ) -> Option<Vec<CheckResult>> {
     let mut results = vec![];
 
-    for name_node in support::children::<TwigLiteralName>(syntax) {
+    for (idx, name_node) in support::children::<TwigLiteralName>(syntax).enumerate() {
         let Some(name_token) = name_node.get_name() else {
             continue;
         };
         let name = name_token.text();
+        let is_constant = is_constant(idx);
 
         // No auto-fix suggestion is provided: renaming a variable definition requires updating
         // all use-sites as well, which is beyond the scope of a single-node rule.
-- 
2.43.0


From 93d2e2ba19a9cddb7f3085aaa2485c71ff648338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:48 +0000
Subject: [PATCH 24/37] fix: judge names of tests which are literals

---
 crates/ludtwig/src/check/rules/twig_valid_test.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/twig_valid_test.rs b/crates/ludtwig/src/check/rules/twig_valid_test.rs
index 6ab1098..516ab70 100644
--- a/crates/ludtwig/src/check/rules/twig_valid_test.rs
+++ b/crates/ludtwig/src/check/rules/twig_valid_test.rs
@@ -2,7 +2,7 @@ use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{
     AstNode, TwigBinaryExpression, TwigExpression, TwigFunctionCall, TwigLiteralName, support,
 };
-use ludtwig_parser::syntax::untyped::SyntaxNode;
+use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxKind, SyntaxNode};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -54,6 +54,19 @@ fn extract_test_name(rhs: &TwigExpression) -> Option<ludtwig_parser::syntax::unt
         return name_node.get_name();
     }
 
+    // Try literals, which can also be the name of a test (e.g. `is null`, `is true`)
+    if let Some(literal) = rhs.syntax().children().find(|n| {
+        matches!(
+            n.kind(),
+            SyntaxKind::TWIG_LITERAL_NULL | SyntaxKind::TWIG_LITERAL_BOOLEAN
+        )
+    }) {
+        return literal
+            .children_with_tokens()
+            .filter_map(SyntaxElement::into_token)
+            .find(|t| !t.kind().is_trivia());
+    }
+
     // Try function call form (e.g. `is same as(false)`, `is divisible by(3)`)
     if let Some(func_call) = support::child::<TwigFunctionCall>(rhs.syntax()) {
         let name_operand = func_call.name_operand()?;
-- 
2.43.0


From db60c7b955d69297044f3871cb8a0e21bc2c9c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:41 +0000
Subject: [PATCH 25/37] fix: suggested names can be used as names

Names of only underlines were renamed to nothing, '_1' to '1' and ':A' to ':-a',
none of which the parser can read again.
---
 crates/ludtwig/src/check/naming_convention.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/ludtwig/src/check/naming_convention.rs b/crates/ludtwig/src/check/naming_convention.rs
index cba14c6..9ed749d 100644
--- a/crates/ludtwig/src/check/naming_convention.rs
+++ b/crates/ludtwig/src/check/naming_convention.rs
@@ -77,8 +77,10 @@ pub fn try_make_snake_case(original: &str, screaming: bool) -> Option<String> {
         attempt.push(to_ascii_case(&c));
     }
 
-    // validate suggestion
-    if is_valid_ascii_alpha_snake_case(&attempt, screaming) {
+    // validate suggestion (names must start with a letter)
+    if attempt.starts_with(|c: char| c.is_ascii_alphabetic())
+        && is_valid_ascii_alpha_snake_case(&attempt, screaming)
+    {
         return Some(attempt);
     }
 
@@ -145,14 +147,19 @@ pub fn try_make_kebab_case(original: &str) -> Option<String> {
             }
         }
 
+        // no minus between a special first character and the rest of the name
+        let after_special = [":", "@", "#"].contains(&attempt.as_str());
+
         // replace all underline with minus
         if c == '_' {
-            attempt.push('-');
+            if !after_special {
+                attempt.push('-');
+            }
             continue;
         }
 
         // make an minus before each uppercase and replace it with lowercase
-        if c.is_ascii_uppercase() {
+        if c.is_ascii_uppercase() && !after_special {
             attempt.push('-');
         }
 
@@ -160,7 +167,7 @@ pub fn try_make_kebab_case(original: &str) -> Option<String> {
     }
 
     // validate suggestion
-    if is_valid_alphanumeric_kebab_case(&attempt) {
+    if !attempt.is_empty() && is_valid_alphanumeric_kebab_case(&attempt) {
         return Some(attempt);
     }
 
-- 
2.43.0


From 8b27a8fe7af8477960238444a61bfb6a328a1660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:41 +0000
Subject: [PATCH 26/37] fix: whitespace before an unquoted html value is not
 part of the value

---
 crates/ludtwig-parser/src/grammar/html.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index 000b4cf..f899b45 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -389,6 +389,7 @@ fn parse_html_attribute_value_string(parser: &mut Parser) -> CompletedMarker {
     } else {
         // the HTML specification also allows no quotes but then
         // the value must only be a single word
+        parser.explicitly_consume_trivia(); // keep whitespace before the word out of the value
         None
     };
 
-- 
2.43.0


From 1e6398821fa7e3e66264770500d19d9a864089bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 27/37] fix: indentation-count = 0 does not report lines
 without indentation

---
 crates/ludtwig/src/check/rules/indentation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index 63c7d93..09bdec7 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -188,7 +188,7 @@ impl RuleIndentation {
                 }
             }
             _ => {
-                if indentation_level > 0 || indentation_substeps > 0 {
+                if !expected_str.is_empty() {
                     // report missing whitespace token
                     let range = TextRange::at(token.text_range().start(), TextSize::from(0));
                     let result = self
-- 
2.43.0


From 263fed8cb8102f56f0ec7cf97753bfdc826ec312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 28/37] fix: quotation rules leave strings with a missing quote
 alone

Guessing where the missing quote belongs made the two rules rewrite each other's
result, so fixing such a file never ended successfully.
---
 crates/ludtwig/src/check/rules/html_string_quotation.rs | 4 ++++
 crates/ludtwig/src/check/rules/twig_string_quotation.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/ludtwig/src/check/rules/html_string_quotation.rs b/crates/ludtwig/src/check/rules/html_string_quotation.rs
index 44ced4e..46c142c 100644
--- a/crates/ludtwig/src/check/rules/html_string_quotation.rs
+++ b/crates/ludtwig/src/check/rules/html_string_quotation.rs
@@ -56,6 +56,10 @@ pub fn make_changed_quotes_suggestion_if_possible(
         return result; // TODO: could still try to transform the string with more effort...
     }
 
+    if twig_string.get_opening_quote().is_some() != twig_string.get_closing_quote().is_some() {
+        return result; // the place of the missing quote is unknown (syntax error)
+    }
+
     // opening quote
     match twig_string.get_opening_quote() {
         Some(quote) => {
diff --git a/crates/ludtwig/src/check/rules/twig_string_quotation.rs b/crates/ludtwig/src/check/rules/twig_string_quotation.rs
index 00d8676..c6cf3a4 100644
--- a/crates/ludtwig/src/check/rules/twig_string_quotation.rs
+++ b/crates/ludtwig/src/check/rules/twig_string_quotation.rs
@@ -68,6 +68,10 @@ pub fn make_changed_quotes_suggestion_if_possible(
         return result; // TODO: could still try to transform the string with more effort...
     }
 
+    if twig_string.get_opening_quote().is_some() != twig_string.get_closing_quote().is_some() {
+        return result; // the place of the missing quote is unknown (syntax error)
+    }
+
     // opening quote
     match twig_string.get_opening_quote() {
         Some(quote) => {
-- 
2.43.0


From fd15daf5a2baef29e603817dc80c1cdcdecfcd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 29/37] fix: whitespace where an html attribute value is
 missing stays behind the attribute

---
 crates/ludtwig-parser/src/grammar/html.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index f899b45..4342c90 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -389,7 +389,9 @@ fn parse_html_attribute_value_string(parser: &mut Parser) -> CompletedMarker {
     } else {
         // the HTML specification also allows no quotes but then
         // the value must only be a single word
-        parser.explicitly_consume_trivia(); // keep whitespace before the word out of the value
+        if parser.at(T![word]) || parser.at_twig_var_open() {
+            parser.explicitly_consume_trivia(); // keep whitespace before the value out of it
+        }
         None
     };
 
-- 
2.43.0


From 1eedfecca72e37c704772aab7048d4bf9152a168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 30/37] fix: whitespace behind an unterminated html string is
 not part of it

Line breaks required around a following block were swallowed by the string, so
fixing such a file never ended successfully.
---
 crates/ludtwig-parser/src/grammar/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index 4342c90..4df2ac1 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -410,7 +410,7 @@ fn parse_html_attribute_value_string(parser: &mut Parser) -> CompletedMarker {
         Some(_) => unreachable!(),
     }
 
-    if quote_kind.is_some() {
+    if quote_kind.is_some_and(|quote_kind| parser.at(quote_kind)) {
         // consume any trailing trivia to be inside the inner string
         // but only when quotation exists (otherwise only the single word should be inside the HTML_STRING_INNER node)
         parser.explicitly_consume_trivia();
-- 
2.43.0


From efa28a9f1992b6ef7582752931b6b5573d3eb77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 31/37] fix: ignore files are matched independently for every
 input directory

---
 crates/ludtwig/src/main.rs | 41 ++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/crates/ludtwig/src/main.rs b/crates/ludtwig/src/main.rs
index 44a53b7..0624df9 100644
--- a/crates/ludtwig/src/main.rs
+++ b/crates/ludtwig/src/main.rs
@@ -133,7 +133,7 @@ fn app(opts: Opts, config: Config) -> i32 {
     let output_handler = thread::spawn(move || output::handle_processing_output(&rx));
 
     // work on each user specified file / directory path concurrently
-    handle_input_paths(opts.files, cli_context.clone());
+    handle_input_paths(opts.files, &cli_context);
 
     drop(cli_context); // drop this tx channel
 
@@ -143,8 +143,36 @@ fn app(opts: Opts, config: Config) -> i32 {
         .expect("Error: can't join output_handler thread")
 }
 
-/// Process a directory path.
-fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
+/// Process all the user specified paths.
+fn handle_input_paths(paths: Vec<PathBuf>, cli_context: &CliContext) {
+    // the user specified paths can overlap, but every file must only be processed once
+    let mut canonical_paths = HashSet::new();
+    let (directories, files): (Vec<PathBuf>, Vec<PathBuf>) = paths
+        .into_iter()
+        .filter(|p| fs::canonicalize(p).map_or(true, |c| canonical_paths.insert(c)))
+        .partition(|p| p.is_dir());
+    let canonical_paths = Arc::new(canonical_paths);
+
+    // every directory gets a walker of its own, because the roots of a walker share the ignore files
+    // of their parent directories and match them against paths below whichever root came first
+    for directory in directories {
+        walk_input_paths(
+            vec![directory],
+            Arc::clone(&canonical_paths),
+            cli_context.clone(),
+        );
+    }
+    if !files.is_empty() {
+        walk_input_paths(files, canonical_paths, cli_context.clone());
+    }
+}
+
+/// Process some of the user specified paths.
+fn walk_input_paths(
+    paths: Vec<PathBuf>,
+    canonical_paths: Arc<HashSet<PathBuf>>,
+    cli_context: CliContext,
+) {
     let types = TypesBuilder::new()
         .add_defaults()
         .select("twig")
@@ -152,13 +180,6 @@ fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
         .build()
         .unwrap();
 
-    // the user specified paths can overlap, but every file must only be processed once
-    let mut canonical_paths = HashSet::new();
-    let paths: Vec<PathBuf> = paths
-        .into_iter()
-        .filter(|p| fs::canonicalize(p).map_or(true, |c| canonical_paths.insert(c)))
-        .collect();
-
     // create walker over all the user specified paths
     let mut walker = WalkBuilder::new(&paths[0]);
     for path in paths.into_iter().skip(1) {
-- 
2.43.0


From 9e30c04bed4f8586cc49bf663eb113796311e956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 32/37] fix: the configuration is not taken from a parent
 directory

---
 crates/ludtwig/src/config.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/ludtwig/src/config.rs b/crates/ludtwig/src/config.rs
index 65d2313..b81d694 100644
--- a/crates/ludtwig/src/config.rs
+++ b/crates/ludtwig/src/config.rs
@@ -141,13 +141,16 @@ pub const LUDTWIG_VERSION: &str = env!("CARGO_PKG_VERSION");
 impl Config {
     #[allow(clippy::result_large_err)]
     pub fn new<P: AsRef<Path>>(path: P) -> Result<Self, figment::Error> {
-        let config: Config = Figment::new()
+        let mut figment = Figment::new()
             // first read the raw config from memory (for default values)
             .merge(Toml::string(
                 &DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION),
-            ))
-            // then read the config in the file system (if it exists)
-            .merge(Toml::file(path))
+            ));
+        // then read the config in the file system (if it exists, parent directories are not searched)
+        if path.as_ref().exists() {
+            figment = figment.merge(Toml::file_exact(path));
+        }
+        let config: Config = figment
             // last read from the environment
             .merge(
                 Env::prefixed("LUDTWIG_")
-- 
2.43.0


From d14f28e3948b841508b513617d4cba4c4281f06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 33/37] fix: environment variables that are not unicode don't
 crash the program

---
 crates/ludtwig/src/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/config.rs b/crates/ludtwig/src/config.rs
index b81d694..5e7c803 100644
--- a/crates/ludtwig/src/config.rs
+++ b/crates/ludtwig/src/config.rs
@@ -203,7 +203,9 @@ pub fn handle_config_or_exit(opts: &Opts) -> Config {
                 );
             }
 
-            for (k, v) in env::vars() {
+            for (k, v) in env::vars_os() {
+                // names and values don't have to be valid unicode
+                let (k, v) = (k.to_string_lossy(), v.to_string_lossy());
                 if k.starts_with("LUDTWIG_") {
                     println!("Found environment variable for overriding config: {k}={v}");
                 }
-- 
2.43.0


From 4484548d6979349d3de81eb7cec041535add3c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 34/37] fix: a default config that can't be written is reported
 instead of a crash

---
 crates/ludtwig/src/config.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/config.rs b/crates/ludtwig/src/config.rs
index 5e7c803..cc28c0b 100644
--- a/crates/ludtwig/src/config.rs
+++ b/crates/ludtwig/src/config.rs
@@ -180,7 +180,13 @@ pub fn handle_config_or_exit(opts: &Opts) -> Config {
         }
 
         let config_raw = DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION);
-        std::fs::write(&config_path, config_raw).expect("can't write default config");
+        if let Err(e) = std::fs::write(&config_path, config_raw) {
+            eprintln!(
+                "Error: can't write default config to {}: {e}",
+                config_path.display()
+            );
+            std::process::exit(1);
+        }
         println!(
             "Default config was written to {}",
             config_path.to_string_lossy()
-- 
2.43.0


From 589335ba011339f2075c5c05f97637285837b939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 35/37] fix: names of tests that look like literals are names

replaces the handling in the rule twig-valid-test
---
 .../src/grammar/twig/expression.rs            | 29 +++++++++++++++++--
 .../src/check/rules/twig_valid_test.rs        | 15 +---------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index 004cb19..3f877c6 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -166,12 +166,19 @@ pub(crate) fn parse_twig_expression_binding_power_rhs(
         }
 
         // Eat the operator’s token.
-        parser.bump();
+        let operator = parser.bump().kind;
         is_binary = true;
 
         // recurse
         let m = parser.precede(lhs);
-        let parsed_rhs = parse_twig_expression_binding_power(parser, right_binding_power).is_some();
+        let parsed_rhs = if matches!(operator, T!["is"] | T!["is not"])
+            && parser.at_set(&[T!["null"], T!["true"], T!["false"]])
+        {
+            parse_twig_literal_as_test_name(parser, right_binding_power)
+        } else {
+            parse_twig_expression_binding_power(parser, right_binding_power)
+        }
+        .is_some();
         lhs = parser.complete(m, SyntaxKind::TWIG_BINARY_EXPRESSION);
 
         if !parsed_rhs {
@@ -244,6 +251,24 @@ fn parse_conditional_expression(
     Some(parser.complete(outer, SyntaxKind::TWIG_EXPRESSION))
 }
 
+/// Parses a twig test whose name is spelled like a literal (e.g. `is null`)
+fn parse_twig_literal_as_test_name(
+    parser: &mut Parser,
+    minimum_binding_power: u8,
+) -> Option<CompletedMarker> {
+    let mut node = parse_twig_name(parser)?;
+    node = parse_postfix_operators(parser, node);
+
+    // wrap it in expression like every other operand
+    let m = parser.precede(node);
+    let operand = parser.complete(m, SyntaxKind::TWIG_EXPRESSION);
+    Some(parse_twig_expression_binding_power_rhs(
+        parser,
+        minimum_binding_power,
+        operand,
+    ))
+}
+
 fn parse_twig_expression_lhs(parser: &mut Parser) -> Option<CompletedMarker> {
     if parser.at(T!["("]) {
         let (m, is_paren_expression) = parse_paren_expression(parser);
diff --git a/crates/ludtwig/src/check/rules/twig_valid_test.rs b/crates/ludtwig/src/check/rules/twig_valid_test.rs
index 516ab70..6ab1098 100644
--- a/crates/ludtwig/src/check/rules/twig_valid_test.rs
+++ b/crates/ludtwig/src/check/rules/twig_valid_test.rs
@@ -2,7 +2,7 @@ use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{
     AstNode, TwigBinaryExpression, TwigExpression, TwigFunctionCall, TwigLiteralName, support,
 };
-use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxKind, SyntaxNode};
+use ludtwig_parser::syntax::untyped::SyntaxNode;
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -54,19 +54,6 @@ fn extract_test_name(rhs: &TwigExpression) -> Option<ludtwig_parser::syntax::unt
         return name_node.get_name();
     }
 
-    // Try literals, which can also be the name of a test (e.g. `is null`, `is true`)
-    if let Some(literal) = rhs.syntax().children().find(|n| {
-        matches!(
-            n.kind(),
-            SyntaxKind::TWIG_LITERAL_NULL | SyntaxKind::TWIG_LITERAL_BOOLEAN
-        )
-    }) {
-        return literal
-            .children_with_tokens()
-            .filter_map(SyntaxElement::into_token)
-            .find(|t| !t.kind().is_trivia());
-    }
-
     // Try function call form (e.g. `is same as(false)`, `is divisible by(3)`)
     if let Some(func_call) = support::child::<TwigFunctionCall>(rhs.syntax()) {
         let name_operand = func_call.name_operand()?;
-- 
2.43.0


From ae66cef91abf2275743a390d4a1c56e959f65a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 36/37] fix: attributes behind an unknown twig tag are still
 parsed

---
 crates/ludtwig-parser/src/grammar/html.rs | 25 ++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index 4df2ac1..2c9354e 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -1,8 +1,10 @@
 use crate::T;
-use crate::grammar::twig::{at_twig_termination_tag, parse_any_twig, parse_twig_var_statement};
+use crate::grammar::twig::{
+    TWIG_NAME_REGEX, at_twig_termination_tag, parse_any_twig, parse_twig_var_statement,
+};
 use crate::grammar::{ParseFunction, parse_any_element, parse_ludtwig_directive, parse_many};
 use crate::parser::event::{CompletedMarker, Marker};
-use crate::parser::{GENERAL_RECOVERY_SET, ParseErrorBuilder, Parser};
+use crate::parser::{GENERAL_RECOVERY_SET, ParseErrorBuilder, Parser, TWIG_BLOCK_CLOSE_SET};
 use crate::syntax::untyped::SyntaxKind;
 use regex::Regex;
 use std::sync::LazyLock;
@@ -310,7 +312,24 @@ fn parse_html_attribute_or_twig(parser: &mut Parser) -> Option<CompletedMarker>
         } else {
             // parse any twig block / comment syntax where its children can only be html attributes (this parser)
             // this structure itself doesn't count as an HTML_ATTRIBUTE node
-            return parse_any_twig(parser, parse_html_attribute_or_twig);
+            let maybe_unknown_tag = parser.at_twig_block_open() && !at_twig_termination_tag(parser);
+            let twig = parse_any_twig(parser, parse_html_attribute_or_twig);
+            if maybe_unknown_tag
+                && twig.is_none()
+                && parser
+                    .peek_token()
+                    .is_some_and(|t| TWIG_NAME_REGEX.is_match(t.text))
+            {
+                // only the opening of the unknown tag was consumed, skip the rest of it
+                // so that the attributes behind it are still parsed
+                parser.recover(&[T!["%}"], T!["-%}"], T!["~%}"], T![">"], T!["/>"]]);
+                if parser.at_set(TWIG_BLOCK_CLOSE_SET) {
+                    let error_m = parser.start();
+                    parser.bump();
+                    parser.complete(error_m, SyntaxKind::ERROR);
+                }
+            }
+            return twig;
         }
     };
 
-- 
2.43.0


From b58b5ccef56796f4605241e64da5b20e543d1f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 37/37] fix: an escaped interpolation in a Twig string is plain
 text

---
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index 4e68f00..d1ee0dd 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -101,9 +101,9 @@ pub(crate) fn parse_twig_string(
         |p| {
             if p.at(T!["\\"])
                 && p.peek_nth_token(1)
-                    .is_some_and(|t| t.kind == quote_kind || t.kind == T!["\\"])
+                    .is_some_and(|t| t.kind == quote_kind || [T!["\\"], T!["#"]].contains(&t.kind))
             {
-                // escaped quote or backslash should be consumed
+                // escaped quote, backslash or hashtag (of an interpolation) should be consumed
                 p.bump();
                 p.bump();
             } else if p.at(T!["#"]) && p.peek_nth_token(1).is_some_and(|t| t.kind == T!["{"]) {
-- 
2.43.0

