From 7c1bc530903dd67c4547e364e0757c327a9676e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:29 +0000
Subject: [PATCH 01/45] fix: parser dropped text after invalid string escapes
 and control characters, and hit an assertion on unclosed nested block
 comments

Tokens that no parser consumed were silently left out of the syntax tree.
---
 crates/parser/src/parser/token.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index c972ad0..a198f73 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -115,7 +115,7 @@ fn block_comment_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError
             (
                 take_until(0.., ("(;", ";)")),
                 dispatch! {peek(opt("(;"));
-                    Some(..) => opt(block_comment_impl).void(),
+                    Some(..) => block_comment_impl.void(),
                     None => empty,
                 },
             ),
@@ -293,9 +293,11 @@ pub(super) fn error_token<'s>(
         '$' => ('$', take_while(0.., is_id_char)).take(),
         '(' | ')' if allow_parens => alt(("(", ")")),
         '(' | ')' => fail,
-        '"' => string_impl,
+        // invalid string literal isn't accepted by `string_impl`, but we still need to consume it
+        '"' => alt((string_impl, "\"")),
         c if is_id_char(c) => take_while(1.., is_id_char),
-        _ => take_till(1.., |c: char| c == '(' || c == ')' || c.is_ascii_whitespace()),
+        // this must be in sync with `ws`, or some characters won't be consumed by any parsers
+        _ => take_till(1.., |c: char| matches!(c, '(' | ')' | ' ' | '\t' | '\r' | '\n')),
     }
     .map(|text| tok(ERROR, text))
 }
-- 
2.43.0


From 0e555b6eea7f75c086fa9665a450097a0fb7dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:29 +0000
Subject: [PATCH 02/45] fix: parser reported syntax errors whose end was before
 the start

---
 crates/parser/src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/error.rs b/crates/parser/src/error.rs
index 646c727..1071c04 100644
--- a/crates/parser/src/error.rs
+++ b/crates/parser/src/error.rs
@@ -29,7 +29,8 @@ impl FromRecoverableError<Input<'_>, SyntaxError> for SyntaxError {
         input: &Input,
         mut e: SyntaxError,
     ) -> Self {
-        e.end = input.location();
+        // input may have been reset to somewhere before the place where the error was found
+        e.end = input.location().max(e.start);
         e
     }
 }
-- 
2.43.0


From 6c43aeac47a083472bea5fcb85cb8ee36ee84045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:10 +0000
Subject: [PATCH 03/45] fix: parsing time was exponential in the nesting depth
 of incomplete blocks

Unclosed flat blocks at end of file and folded `if` without `then` made the
parser backtrack and parse the nested instructions again at every level.
---
 crates/parser/src/parser/instr.rs | 58 +++++++++++++++++++------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 306794d..8aad320 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -11,7 +11,7 @@ use super::{
 use crate::error::SyntaxError;
 use wat_syntax::SyntaxKind::*;
 use winnow::{
-    combinator::{alt, dispatch, fail, opt, peek, preceded, repeat, repeat_till},
+    combinator::{alt, dispatch, eof, fail, opt, peek, preceded, repeat, repeat_till},
     error::{StrContext, StrContextValue},
     token::any,
     Parser,
@@ -48,7 +48,7 @@ fn block_block(input: &mut Input) -> GreenResult {
             repeat_till::<_, _, Vec<_>, _, _, _, _>(
                 0..,
                 retry_once(instr, []),
-                peek((trivias, alt((word.verify(|word: &str| word == "end"), ")")))),
+                peek((trivias, alt((word.verify(|word: &str| word == "end"), ")", eof)))),
             ),
             must(trivias_prefixed(keyword("end"))),
             opt(trivias_prefixed(ident)),
@@ -118,7 +118,7 @@ fn block_loop(input: &mut Input) -> GreenResult {
             repeat_till::<_, _, Vec<_>, _, _, _, _>(
                 0..,
                 retry_once(instr, []),
-                peek((trivias, alt((word.verify(|word: &str| word == "end"), ")")))),
+                peek((trivias, alt((word.verify(|word: &str| word == "end"), ")", eof)))),
             ),
             must(trivias_prefixed(keyword("end"))),
             opt(trivias_prefixed(ident)),
@@ -190,7 +190,7 @@ fn block_if(input: &mut Input) -> GreenResult {
                 retry_once(instr, []),
                 peek((
                     trivias,
-                    alt((word.verify(|word| matches!(word, "end" | "else")), ")")),
+                    alt((word.verify(|word| matches!(word, "end" | "else")), ")", eof)),
                 )),
             ),
             opt((
@@ -200,7 +200,7 @@ fn block_if(input: &mut Input) -> GreenResult {
                 repeat_till::<_, _, Vec<_>, _, _, _, _>(
                     0..,
                     retry_once(instr, []),
-                    peek((trivias, alt((word.verify(|word: &str| word == "end"), ")")))),
+                    peek((trivias, alt((word.verify(|word: &str| word == "end"), ")", eof)))),
                 ),
             )),
             must(trivias_prefixed(keyword("end"))),
@@ -251,11 +251,23 @@ fn block_if(input: &mut Input) -> GreenResult {
             opt(trivias_prefixed(block_type)),
             repeat_till::<_, _, Vec<_>, _, _, _, _>(
                 0..,
-                retry(instr, []),
-                (trivias, l_paren, trivias_prefixed(keyword("then"))),
+                retry_once(instr, []),
+                peek((
+                    trivias,
+                    alt((
+                        ('(', trivias, word.verify(|word: &str| word == "then")).take(),
+                        ")",
+                        eof,
+                    )),
+                )),
             ),
-            repeat::<_, _, Vec<_>, _, _>(0.., retry(instr, [])),
-            r_paren,
+            must((
+                trivias,
+                l_paren,
+                trivias_prefixed(keyword("then")),
+                repeat::<_, _, Vec<_>, _, _>(0.., retry(instr, [])),
+                r_paren,
+            )),
             opt((
                 trivias,
                 l_paren,
@@ -271,9 +283,8 @@ fn block_if(input: &mut Input) -> GreenResult {
                     mut if_keyword,
                     id,
                     block_type,
-                    (cond_instrs, (mut trivias_before_then, then_l_paren, mut then_keyword)),
-                    then_instrs,
-                    then_r_paren,
+                    (cond_instrs, _),
+                    then_branch,
                     else_branch,
                     r_paren,
                 )| {
@@ -289,18 +300,21 @@ fn block_if(input: &mut Input) -> GreenResult {
                     cond_instrs
                         .into_iter()
                         .for_each(|mut instr| children.append(&mut instr));
-                    children.append(&mut trivias_before_then);
 
-                    let mut then_children = Vec::with_capacity(4);
-                    then_children.push(then_l_paren);
-                    then_children.append(&mut then_keyword);
-                    then_instrs
-                        .into_iter()
-                        .for_each(|mut instr| then_children.append(&mut instr));
-                    if let Some(mut r_paren) = then_r_paren {
-                        then_children.append(&mut r_paren);
+                    if let Some((mut trivias, l_paren, mut keyword, instrs, r_paren)) = then_branch
+                    {
+                        children.append(&mut trivias);
+                        let mut then_children = Vec::with_capacity(4);
+                        then_children.push(l_paren);
+                        then_children.append(&mut keyword);
+                        instrs
+                            .into_iter()
+                            .for_each(|mut instr| then_children.append(&mut instr));
+                        if let Some(mut r_paren) = r_paren {
+                            then_children.append(&mut r_paren);
+                        }
+                        children.push(node(BLOCK_IF_THEN, then_children));
                     }
-                    children.push(node(BLOCK_IF_THEN, then_children));
 
                     if let Some((mut trivias, l_paren, mut keyword, instrs, r_paren)) = else_branch
                     {
-- 
2.43.0


From 9823b0ab5beeeb144f1b98e8c0018febe8013aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:34 +0000
Subject: [PATCH 04/45] fix: signed hex float literals with underscore before a
 hex letter were rejected

---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index a198f73..1ca335b 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -266,7 +266,7 @@ fn float_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
     )
         .take()
         .verify(|text: &str| {
-            let is_hex = text.starts_with("0x");
+            let is_hex = text.trim_start_matches(['+', '-']).starts_with("0x");
             let mut chars = text.chars();
             while let Some(c) = chars.next() {
                 if c == '_'
-- 
2.43.0


From 97f7c16abd003bf6df8d157712e72705fd85bf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:04 +0000
Subject: [PATCH 05/45] fix: block type with several result lists was rejected

---
 crates/parser/src/parser/instr.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 8aad320..0a9a198 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -11,7 +11,9 @@ use super::{
 use crate::error::SyntaxError;
 use wat_syntax::SyntaxKind::*;
 use winnow::{
-    combinator::{alt, dispatch, eof, fail, opt, peek, preceded, repeat, repeat_till},
+    combinator::{
+        alt, dispatch, eof, fail, not, opt, peek, preceded, repeat, repeat_till, terminated,
+    },
     error::{StrContext, StrContextValue},
     token::any,
     Parser,
@@ -33,7 +35,12 @@ fn block_instr(input: &mut Input) -> GreenResult {
 
 fn block_type(input: &mut Input) -> GreenResult {
     alt((
-        result.map(|child| node(BLOCK_TYPE, [child])),
+        terminated(
+            result,
+            // several results can only be expressed as type use
+            peek(not((trivias, '(', trivias, keyword("result")))),
+        )
+        .map(|child| node(BLOCK_TYPE, [child])),
         type_use.map(|child| node(BLOCK_TYPE, [child])),
     ))
     .parse_next(input)
-- 
2.43.0


From b38f3edc107c42c696883103ec6b1b6269d0750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:38 +0000
Subject: [PATCH 06/45] fix: identifier after the closing parenthesis of a
 folded block was accepted as part of the block

---
 crates/parser/src/parser/instr.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 0a9a198..b5c16c7 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -87,10 +87,9 @@ fn block_block(input: &mut Input) -> GreenResult {
             opt(trivias_prefixed(block_type)),
             repeat::<_, _, Vec<_>, _, _>(0.., retry(instr, [])),
             r_paren,
-            opt(trivias_prefixed(ident)),
         )
             .map(
-                |(l_paren, mut keyword, label, block_type, instrs, r_paren, id)| {
+                |(l_paren, mut keyword, label, block_type, instrs, r_paren)| {
                     let mut children = Vec::with_capacity(6);
                     children.push(l_paren);
                     children.append(&mut keyword);
@@ -106,9 +105,6 @@ fn block_block(input: &mut Input) -> GreenResult {
                     if let Some(mut r_paren) = r_paren {
                         children.append(&mut r_paren);
                     }
-                    if let Some(mut id) = id {
-                        children.append(&mut id);
-                    }
                     node(BLOCK_BLOCK, children)
                 },
             ),
@@ -157,10 +153,9 @@ fn block_loop(input: &mut Input) -> GreenResult {
             opt(trivias_prefixed(block_type)),
             repeat::<_, _, Vec<_>, _, _>(0.., retry(instr, [])),
             r_paren,
-            opt(trivias_prefixed(ident)),
         )
             .map(
-                |(l_paren, mut keyword, label, block_type, instrs, r_paren, id)| {
+                |(l_paren, mut keyword, label, block_type, instrs, r_paren)| {
                     let mut children = Vec::with_capacity(6);
                     children.push(l_paren);
                     children.append(&mut keyword);
@@ -176,9 +171,6 @@ fn block_loop(input: &mut Input) -> GreenResult {
                     if let Some(mut r_paren) = r_paren {
                         children.append(&mut r_paren);
                     }
-                    if let Some(mut id) = id {
-                        children.append(&mut id);
-                    }
                     node(BLOCK_LOOP, children)
                 },
             ),
-- 
2.43.0


From 8a9a7ee5ecd1ada11d4e1b8e079263d6776deb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:20 +0000
Subject: [PATCH 07/45] fix: memory argument directly followed by other
 identifier characters was accepted

---
 crates/parser/src/parser/instr.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index b5c16c7..60d8317 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -2,7 +2,7 @@ use super::{
     module::type_use,
     must, node, retry, retry_once, tok,
     token::{
-        float, ident, int, keyword, l_paren, r_paren, string, trivias, trivias_prefixed,
+        float, ident, int, is_id_char, keyword, l_paren, r_paren, string, trivias, trivias_prefixed,
         unsigned_int_impl, word,
     },
     ty::{heap_type, result},
@@ -15,7 +15,7 @@ use winnow::{
         alt, dispatch, eof, fail, not, opt, peek, preceded, repeat, repeat_till, terminated,
     },
     error::{StrContext, StrContextValue},
-    token::any,
+    token::{any, one_of},
     Parser,
 };
 
@@ -405,7 +405,12 @@ fn operand<'s>(allow_instr: bool) -> impl Parser<Input<'s>, GreenElement, Syntax
 }
 
 fn mem_arg(input: &mut Input) -> GreenResult {
-    (alt(("offset", "align")), '=', unsigned_int_impl)
+    (
+        alt(("offset", "align")),
+        '=',
+        unsigned_int_impl,
+        peek(not(one_of(is_id_char))),
+    )
         .take()
         .parse_next(input)
         .map(|text| tok(MEM_ARG, text))
-- 
2.43.0


From 7f173f9b566137891248c93fc88d2e7c430fe731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:09 +0000
Subject: [PATCH 08/45] fix: tokens outside of modules were swallowed without a
 syntax error

---
 crates/parser/src/parser/mod.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/mod.rs b/crates/parser/src/parser/mod.rs
index 4d42126..a163b05 100644
--- a/crates/parser/src/parser/mod.rs
+++ b/crates/parser/src/parser/mod.rs
@@ -43,7 +43,12 @@ impl<'s> Parser<'s> {
     pub fn parse_to_green(&mut self) -> GreenNode {
         let (_, tree, errors) = root.recoverable_parse(*self.input);
         self.errors = errors;
-        tree.expect("parser should always succeed even if there are syntax errors")
+        let tree = tree.expect("parser should always succeed even if there are syntax errors");
+        if self.errors.is_empty() {
+            // otherwise, it's likely to be caused by error recovery
+            self.errors.extend(find_stray_token(&tree));
+        }
+        tree
     }
 
     /// Retrieve syntax errors.
@@ -87,6 +92,23 @@ fn root(input: &mut Input) -> PResult<GreenNode, SyntaxError> {
         })
 }
 
+/// Find the first token which doesn't belong to any modules.
+fn find_stray_token(root: &GreenNode) -> Option<SyntaxError> {
+    let mut start = 0;
+    for child in root.children() {
+        let end = start + usize::from(child.text_len());
+        if child.kind() == SyntaxKind::ERROR.into() {
+            return Some(SyntaxError {
+                start,
+                end,
+                message: StrContext::Label("unexpected token"),
+            });
+        }
+        start = end;
+    }
+    None
+}
+
 /// Note: use `retry_once` instead if you're using `retry` in `repeat` or `repeat_till`.
 // copied and modified from https://github.com/winnow-rs/winnow/blob/95e0c100656a98a0ff3bc8420fc8844edff6b615/src/combinator/parser.rs#L963
 fn retry<'s, P, const N: usize>(
-- 
2.43.0


From 66ad5d577188d6cf7699fd6c2556f3c74b79957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:30 +0000
Subject: [PATCH 09/45] fix: stray then, else and end were accepted as plain
 instructions

---
 crates/parser/src/parser/instr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 60d8317..01b72f5 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -378,7 +378,8 @@ fn plain_instr(input: &mut Input) -> GreenResult {
 }
 
 fn instr_name(input: &mut Input) -> GreenResult {
-    word.context(StrContext::Label("instruction name"))
+    word.verify(|word: &str| !matches!(word, "then" | "else" | "end"))
+        .context(StrContext::Label("instruction name"))
         .parse_next(input)
         .map(|text| tok(INSTR_NAME, text))
 }
-- 
2.43.0


From be66560a7b1dee5a9b7e19831d4e9e1d877d0bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:21 +0000
Subject: [PATCH 10/45] fix: formatter dropped shared and unshared of limits

---
 crates/formatter/src/printer/ty.rs | 9 +++++++++
 crates/syntax/src/ast/ty.rs        | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/crates/formatter/src/printer/ty.rs b/crates/formatter/src/printer/ty.rs
index 688adc5..ceb928d 100644
--- a/crates/formatter/src/printer/ty.rs
+++ b/crates/formatter/src/printer/ty.rs
@@ -85,6 +85,15 @@ impl DocGen for Limits {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(max.to_string()));
+            trivias = format_trivias_after_token(max, ctx);
+        }
+        if let Some(share) = self.share_keyword() {
+            if trivias.is_empty() {
+                docs.push(Doc::space());
+            } else {
+                docs.append(&mut trivias);
+            }
+            docs.push(Doc::text(share.to_string()));
         }
         Doc::list(docs)
     }
diff --git a/crates/syntax/src/ast/ty.rs b/crates/syntax/src/ast/ty.rs
index e05474a..fb0951b 100644
--- a/crates/syntax/src/ast/ty.rs
+++ b/crates/syntax/src/ast/ty.rs
@@ -128,6 +128,10 @@ impl Limits {
             })
             .nth(1)
     }
+    #[inline]
+    pub fn share_keyword(&self) -> Option<SyntaxToken> {
+        token(&self.syntax, SyntaxKind::SHARE)
+    }
 }
 impl AstNode for Limits {
     type Language = WatLanguage;
-- 
2.43.0


From b5ffba4921a00ac141b5386ee92ddcd77ba2c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:28 +0000
Subject: [PATCH 11/45] fix: formatter dropped comments between params and
 results

---
 crates/formatter/src/printer/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index d211a12..8608bf1 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -1239,7 +1239,7 @@ impl DocGen for TypeUse {
         if let Some(result) = results.next() {
             if trivias.is_empty() && !docs.is_empty() {
                 docs.push(Doc::space());
-            } else if self.l_paren_token().is_some() {
+            } else {
                 docs.append(&mut trivias);
             }
             docs.push(result.doc(ctx));
-- 
2.43.0


From ff0771b92d9ad7edf6cb4d15021d0829ef0ba555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:06 +0000
Subject: [PATCH 12/45] fix: formatter dropped comments before the first
 instruction of flat if

---
 crates/formatter/src/printer/instr.rs |  2 ++
 crates/formatter/src/printer/mod.rs   | 11 ++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/formatter/src/printer/instr.rs b/crates/formatter/src/printer/instr.rs
index 82fb6a7..c6a8be7 100644
--- a/crates/formatter/src/printer/instr.rs
+++ b/crates/formatter/src/printer/instr.rs
@@ -211,6 +211,8 @@ impl DocGen for BlockIfThen {
         if let Some(l_paren) = self.l_paren_token() {
             docs.push(Doc::text("("));
             trivias = format_trivias_after_token(l_paren, ctx);
+        } else {
+            trivias = format_trivias(self.syntax().children_with_tokens(), ctx);
         }
         if let Some(keyword) = self.keyword() {
             docs.append(&mut trivias);
diff --git a/crates/formatter/src/printer/mod.rs b/crates/formatter/src/printer/mod.rs
index 2a918a8..4fc7ca0 100644
--- a/crates/formatter/src/printer/mod.rs
+++ b/crates/formatter/src/printer/mod.rs
@@ -201,9 +201,14 @@ where
     docs
 }
 fn format_trivias_after_token(token: SyntaxToken, ctx: &Ctx) -> Vec<Doc<'static>> {
-    let trivias = token
-        .siblings_with_tokens(Direction::Next)
-        .skip(1)
+    format_trivias(token.siblings_with_tokens(Direction::Next).skip(1), ctx)
+}
+/// Format trivias at the beginning of the given elements.
+fn format_trivias(
+    elements: impl Iterator<Item = SyntaxElement>,
+    ctx: &Ctx,
+) -> Vec<Doc<'static>> {
+    let trivias = elements
         .map_while(|element| match element {
             SyntaxElement::Token(token)
                 if matches!(
-- 
2.43.0


From 9b29769c35c826eabe2d0960df158cc1f6d5d1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:28 +0000
Subject: [PATCH 13/45] fix: identifier after end was taken as the label of an
 unlabelled block

---
 crates/syntax/src/ast/instr.rs | 49 +++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/crates/syntax/src/ast/instr.rs b/crates/syntax/src/ast/instr.rs
index 51d62d0..fb9267e 100644
--- a/crates/syntax/src/ast/instr.rs
+++ b/crates/syntax/src/ast/instr.rs
@@ -4,9 +4,17 @@ use rowan::{
         support::{child, children, token},
         AstChildren, AstNode,
     },
-    NodeOrToken,
+    Direction,
 };
 
+/// Identifier of block, excluding the one that comes after `end` keyword.
+fn block_ident_token(node: &SyntaxNode) -> Option<SyntaxToken> {
+    node.children_with_tokens()
+        .filter_map(|it| it.into_token())
+        .take_while(|it| it.kind() != SyntaxKind::KEYWORD || it.text() != "end")
+        .find(|it| it.kind() == SyntaxKind::IDENT)
+}
+
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct BlockBlock {
     syntax: SyntaxNode,
@@ -22,7 +30,7 @@ impl BlockBlock {
     }
     #[inline]
     pub fn ident_token(&self) -> Option<SyntaxToken> {
-        token(&self.syntax, SyntaxKind::IDENT)
+        block_ident_token(&self.syntax)
     }
     #[inline]
     pub fn block_type(&self) -> Option<BlockType> {
@@ -45,13 +53,10 @@ impl BlockBlock {
     }
     #[inline]
     pub fn end_ident_token(&self) -> Option<SyntaxToken> {
-        self.syntax
-            .children_with_tokens()
-            .filter_map(|it| match it {
-                NodeOrToken::Token(token) if token.kind() == SyntaxKind::IDENT => Some(token),
-                _ => None,
-            })
-            .nth(1)
+        let end = self.end_keyword()?;
+        end.siblings_with_tokens(Direction::Next)
+            .filter_map(|it| it.into_token())
+            .find(|it| it.kind() == SyntaxKind::IDENT)
     }
 }
 impl AstNode for BlockBlock {
@@ -95,7 +100,7 @@ impl BlockIf {
     }
     #[inline]
     pub fn ident_token(&self) -> Option<SyntaxToken> {
-        token(&self.syntax, SyntaxKind::IDENT)
+        block_ident_token(&self.syntax)
     }
     #[inline]
     pub fn block_type(&self) -> Option<BlockType> {
@@ -126,13 +131,10 @@ impl BlockIf {
     }
     #[inline]
     pub fn end_ident_token(&self) -> Option<SyntaxToken> {
-        self.syntax
-            .children_with_tokens()
-            .filter_map(|it| match it {
-                NodeOrToken::Token(token) if token.kind() == SyntaxKind::IDENT => Some(token),
-                _ => None,
-            })
-            .nth(1)
+        let end = self.end_keyword()?;
+        end.siblings_with_tokens(Direction::Next)
+            .filter_map(|it| it.into_token())
+            .find(|it| it.kind() == SyntaxKind::IDENT)
     }
 }
 impl AstNode for BlockIf {
@@ -320,7 +322,7 @@ impl BlockLoop {
     }
     #[inline]
     pub fn ident_token(&self) -> Option<SyntaxToken> {
-        token(&self.syntax, SyntaxKind::IDENT)
+        block_ident_token(&self.syntax)
     }
     #[inline]
     pub fn block_type(&self) -> Option<BlockType> {
@@ -343,13 +345,10 @@ impl BlockLoop {
     }
     #[inline]
     pub fn end_ident_token(&self) -> Option<SyntaxToken> {
-        self.syntax
-            .children_with_tokens()
-            .filter_map(|it| match it {
-                NodeOrToken::Token(token) if token.kind() == SyntaxKind::IDENT => Some(token),
-                _ => None,
-            })
-            .nth(1)
+        let end = self.end_keyword()?;
+        end.siblings_with_tokens(Direction::Next)
+            .filter_map(|it| it.into_token())
+            .find(|it| it.kind() == SyntaxKind::IDENT)
     }
 }
 impl AstNode for BlockLoop {
-- 
2.43.0


From a0352676e37f81d00dc82c2b81033e1f413b70ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:53 +0000
Subject: [PATCH 14/45] fix: formatter added line breaks before abbreviated
 offsets and element expressions on every run

---
 crates/formatter/src/printer/module.rs | 46 +++++++++-----------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index 8608bf1..ddd2657 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -53,17 +53,12 @@ impl DocGen for Elem {
             trivias = format_trivias_after_node(index, ctx);
         });
         self.elem_exprs().for_each(|elem_expr| {
-            let has_keyword = elem_expr.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-            if has_keyword {
-                docs.push(elem_expr.doc(ctx).nest(ctx.indent_width));
-            } else {
-                docs.push(elem_expr.doc(ctx));
-            }
+            docs.push(elem_expr.doc(ctx).nest(ctx.indent_width));
             trivias = format_trivias_after_node(elem_expr, ctx);
         });
         docs.append(&mut trivias);
@@ -75,10 +70,13 @@ impl DocGen for Elem {
 impl DocGen for ElemExpr {
     fn doc(&self, ctx: &Ctx) -> Doc<'static> {
         let mut docs = Vec::with_capacity(2);
-        let mut trivias = vec![];
+        let mut trivias;
         if let Some(l_paren) = self.l_paren_token() {
             docs.push(Doc::text("("));
             trivias = format_trivias_after_token(l_paren, ctx);
+        } else {
+            // abbreviated: there's only an instruction
+            return Doc::list(self.instrs().map(|instr| instr.doc(ctx)).collect());
         }
         if let Some(keyword) = self.keyword() {
             docs.append(&mut trivias);
@@ -130,17 +128,12 @@ impl DocGen for ElemList {
             trivias = format_trivias_after_token(ref_type, ctx);
         }
         self.elem_exprs().for_each(|elem_expr| {
-            let has_keyword = elem_expr.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-            if has_keyword {
-                docs.push(elem_expr.doc(ctx).nest(ctx.indent_width));
-            } else {
-                docs.push(elem_expr.doc(ctx));
-            }
+            docs.push(elem_expr.doc(ctx).nest(ctx.indent_width));
             trivias = format_trivias_after_node(elem_expr, ctx);
         });
         docs.append(&mut trivias);
@@ -573,17 +566,12 @@ impl DocGen for ModuleFieldData {
             trivias = format_trivias_after_node(mem_use, ctx);
         }
         if let Some(offset) = self.offset() {
-            let has_keyword = offset.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-            if has_keyword {
-                docs.push(offset.doc(ctx).nest(ctx.indent_width));
-            } else {
-                docs.push(offset.doc(ctx));
-            }
+            docs.push(offset.doc(ctx).nest(ctx.indent_width));
             trivias = format_trivias_after_node(offset, ctx);
         }
         self.string_tokens().for_each(|string| {
@@ -642,17 +630,12 @@ impl DocGen for ModuleFieldElem {
             trivias = format_trivias_after_node(table_use, ctx);
         }
         if let Some(offset) = self.offset() {
-            let has_keyword = offset.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-            if has_keyword {
-                docs.push(offset.doc(ctx).nest(ctx.indent_width));
-            } else {
-                docs.push(offset.doc(ctx));
-            }
+            docs.push(offset.doc(ctx).nest(ctx.indent_width));
             trivias = format_trivias_after_node(offset, ctx);
         }
         if let Some(elem_list) = self.elem_list() {
@@ -1129,10 +1112,13 @@ impl DocGen for Name {
 impl DocGen for Offset {
     fn doc(&self, ctx: &Ctx) -> Doc<'static> {
         let mut docs = Vec::with_capacity(2);
-        let mut trivias = vec![];
+        let mut trivias;
         if let Some(l_paren) = self.l_paren_token() {
             docs.push(Doc::text("("));
             trivias = format_trivias_after_token(l_paren, ctx);
+        } else {
+            // abbreviated: there's only an instruction
+            return Doc::list(self.instrs().map(|instr| instr.doc(ctx)).collect());
         }
         if let Some(keyword) = self.keyword() {
             docs.append(&mut trivias);
-- 
2.43.0


From d3cebbe7500a9e53b4536635d87ca75f69c785bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:17 +0000
Subject: [PATCH 15/45] fix: formatter dropped tokens of incomplete nodes and
 repeated imports

---
 crates/formatter/src/printer/instr.rs  | 12 +++++++++---
 crates/formatter/src/printer/module.rs | 26 +++++++++++++++-----------
 crates/formatter/src/printer/ty.rs     |  2 ++
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/crates/formatter/src/printer/instr.rs b/crates/formatter/src/printer/instr.rs
index c6a8be7..d88ba6f 100644
--- a/crates/formatter/src/printer/instr.rs
+++ b/crates/formatter/src/printer/instr.rs
@@ -67,7 +67,9 @@ impl DocGen for BlockBlock {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(ident.to_string()));
+            trivias = vec![];
         }
+        docs.append(&mut trivias);
         Doc::list(docs)
     }
 }
@@ -159,7 +161,9 @@ impl DocGen for BlockIf {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(ident.to_string()));
+            trivias = vec![];
         }
+        docs.append(&mut trivias);
 
         Doc::list(docs)
     }
@@ -196,8 +200,8 @@ impl DocGen for BlockIfElse {
             docs.push(instr.doc(ctx));
             trivias = format_trivias_after_node(instr, ctx);
         });
+        docs.append(&mut trivias);
         if self.r_paren_token().is_some() {
-            docs.append(&mut trivias);
             docs.push(Doc::text(")"));
         }
         Doc::list(docs).nest(ctx.indent_width)
@@ -237,8 +241,8 @@ impl DocGen for BlockIfThen {
             docs.push(instr.doc(ctx));
             trivias = format_trivias_after_node(instr, ctx);
         });
+        docs.append(&mut trivias);
         if self.r_paren_token().is_some() {
-            docs.append(&mut trivias);
             docs.push(Doc::text(")"));
         }
         Doc::list(docs).nest(ctx.indent_width)
@@ -320,7 +324,9 @@ impl DocGen for BlockLoop {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(ident.to_string()));
+            trivias = vec![];
         }
+        docs.append(&mut trivias);
         Doc::list(docs)
     }
 }
@@ -386,8 +392,8 @@ impl DocGen for PlainInstr {
             docs.push(operand.doc(ctx));
             trivias = format_trivias_after_node(operand, ctx);
         });
+        docs.append(&mut trivias);
         if self.r_paren_token().is_some() {
-            docs.append(&mut trivias);
             docs.push(Doc::text(")"));
         }
         Doc::list(docs).nest(ctx.indent_width)
diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index ddd2657..5dcee19 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -96,8 +96,8 @@ impl DocGen for ElemExpr {
             }))
             .nest(ctx.indent_width),
         );
+        docs.append(&mut trivias);
         if self.r_paren_token().is_some() {
-            docs.append(&mut trivias);
             docs.push(Doc::text(")"));
         }
         Doc::list(docs)
@@ -712,15 +712,18 @@ impl DocGen for ModuleFieldFunc {
             docs.push(Doc::text(ident.to_string()));
             trivias = format_trivias_after_token(ident, ctx);
         }
-        if let Some(import) = self.import() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(import.doc(ctx));
-            trivias = format_trivias_after_node(import, ctx);
-        }
+        self.syntax()
+            .children()
+            .filter_map(Import::cast)
+            .for_each(|import| {
+                if trivias.is_empty() {
+                    docs.push(Doc::space());
+                } else {
+                    docs.append(&mut trivias);
+                }
+                docs.push(import.doc(ctx));
+                trivias = format_trivias_after_node(import, ctx);
+            });
         self.exports().for_each(|export| {
             if trivias.is_empty() {
                 docs.push(Doc::space());
@@ -1138,8 +1141,8 @@ impl DocGen for Offset {
             }))
             .nest(ctx.indent_width),
         );
+        docs.append(&mut trivias);
         if self.r_paren_token().is_some() {
-            docs.append(&mut trivias);
             docs.push(Doc::text(")"));
         }
         Doc::list(docs)
@@ -1241,6 +1244,7 @@ impl DocGen for TypeUse {
             trivias = format_trivias_after_node(result, ctx);
         });
 
+        docs.append(&mut trivias);
         Doc::list(docs)
     }
 }
diff --git a/crates/formatter/src/printer/ty.rs b/crates/formatter/src/printer/ty.rs
index ceb928d..1f7e025 100644
--- a/crates/formatter/src/printer/ty.rs
+++ b/crates/formatter/src/printer/ty.rs
@@ -189,6 +189,8 @@ impl DocGen for TableType {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(ref_type.to_string()));
+        } else {
+            docs.append(&mut trivias);
         }
         Doc::list(docs)
     }
-- 
2.43.0


From 0a3bf34b72254a1fecc358393d2fe73eac2cc562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:39 +0000
Subject: [PATCH 16/45] fix: range formatting indented continuation lines by
 the column of the node instead of the indentation of its line

---
 crates/formatter/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/formatter/src/lib.rs b/crates/formatter/src/lib.rs
index ff9fd3f..63953a7 100644
--- a/crates/formatter/src/lib.rs
+++ b/crates/formatter/src/lib.rs
@@ -33,10 +33,21 @@ pub fn format_range(
         node = it;
     }
     let range = node.text_range();
-    let col = line_index.line_col(TextSize::new(range.start().into())).col as usize;
+    // continuation lines are indented relative to the line where the node starts
+    let start = TextSize::new(range.start().into());
+    let line_start = start - TextSize::new(line_index.line_col(start).col);
+    let line = root.syntax().to_string()[line_start.into()..start.into()].to_string();
+    let indent = line
+        .chars()
+        .take_while(|c| matches!(c, ' ' | '\t'))
+        .map(|c| match c {
+            '\t' => options.layout.indent_width,
+            _ => 1,
+        })
+        .sum();
 
     let ctx = Ctx::new(options);
-    let doc = format_node(node, &ctx)?.nest(col);
+    let doc = format_node(node, &ctx)?.nest(indent);
     Some((tiny_pretty::print(&doc, &build_options(options)), range))
 }
 
-- 
2.43.0


From 42b1f8710cc641e848b9dd0015206842f1f950f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:47 +0000
Subject: [PATCH 17/45] fix: indices written in hexadecimal or with underscores
 were not resolved

---
 crates/service/src/binder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 79a2b49..4bceae6 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -65,7 +65,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                 node.children_with_tokens()
                     .filter_map(|it| it.into_token())
                     .find(|it| matches!(it.kind(), SyntaxKind::UNSIGNED_INT | SyntaxKind::INT))
-                    .and_then(|token| token.text().parse().ok())
+                    .and_then(|token| parse_index(token.text()))
                     .map(|num| SymbolItem {
                         green: node.green().into(),
                         key: node.into(),
@@ -495,6 +495,15 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
     Rc::new(SymbolTable { symbols, blocks })
 }
 
+/// Indices may be written in hexadecimal and with underscores between digits.
+fn parse_index(text: &str) -> Option<u32> {
+    let text = text.replace('_', "");
+    match text.strip_prefix("0x") {
+        Some(hex) => u32::from_str_radix(hex, 16).ok(),
+        None => text.parse().ok(),
+    }
+}
+
 impl SymbolTable {
     pub fn find_defs(&self, key: &SymbolItemKey) -> Option<impl Iterator<Item = &SymbolItem>> {
         self.symbols
-- 
2.43.0


From 7dcada66c92a210f6fc9ab4f72f2a05c139f49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:22 +0000
Subject: [PATCH 18/45] fix: labels were not resolved across then and else
 branches, and the label of a folded if was visible in its condition

---
 crates/service/src/binder.rs | 62 +++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 4bceae6..097862c 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -267,17 +267,13 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                         }));
                     }
                     Some("br" | "br_if" | "br_table") => {
-                        let Some(region) = node
-                            .ancestors()
-                            .find(|node| {
-                                matches!(
-                                    node.kind(),
-                                    SyntaxKind::BLOCK_BLOCK
-                                        | SyntaxKind::BLOCK_LOOP
-                                        | SyntaxKind::BLOCK_IF
-                                )
-                            })
-                            .map(SymbolItemKey::from)
+                        let mut enclosing = Vec::new();
+                        let mut current = node.clone();
+                        while let Some(block) = find_enclosing_block(&current) {
+                            enclosing.push(block.clone());
+                            current = block;
+                        }
+                        let Some(region) = enclosing.first().cloned().map(SymbolItemKey::from)
                         else {
                             continue;
                         };
@@ -291,25 +287,15 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                                 )
                             })
                             .for_each(|symbol| {
-                                symbols.push(symbol.clone());
-                                let mut current = &symbol;
-                                let mut levels = 0;
-                                while let Some(
-                                    parent @ SymbolItem {
-                                        key,
-                                        kind: SymbolItemKind::BlockDef,
-                                        ..
-                                    },
-                                ) = symbols.iter().find(|sym| {
-                                    sym.kind == SymbolItemKind::BlockDef
-                                        && sym.key == current.region
-                                }) {
-                                    let mut idx = parent.idx.clone();
-                                    idx.num = Some(levels);
-                                    blocks.push((symbol.key.clone(), key.clone(), idx));
-                                    current = parent;
-                                    levels += 1;
-                                }
+                                enclosing.iter().zip(0..).for_each(|(block, levels)| {
+                                    let idx = Idx {
+                                        num: Some(levels),
+                                        name: token(block, SyntaxKind::IDENT)
+                                            .map(|token| db.ident(token.text().to_string())),
+                                    };
+                                    blocks.push((symbol.key.clone(), block.clone().into(), idx));
+                                });
+                                symbols.push(symbol);
                             });
                     }
                     Some(
@@ -495,6 +481,22 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
     Rc::new(SymbolTable { symbols, blocks })
 }
 
+/// The innermost block whose label is in scope at the given node.
+/// The label of `if` isn't in scope in its folded condition.
+fn find_enclosing_block(node: &SyntaxNode) -> Option<SyntaxNode> {
+    node.ancestors()
+        .zip(node.ancestors().skip(1))
+        .find(|(child, parent)| match parent.kind() {
+            SyntaxKind::BLOCK_BLOCK | SyntaxKind::BLOCK_LOOP => true,
+            SyntaxKind::BLOCK_IF => matches!(
+                child.kind(),
+                SyntaxKind::BLOCK_IF_THEN | SyntaxKind::BLOCK_IF_ELSE
+            ),
+            _ => false,
+        })
+        .map(|(_, block)| block)
+}
+
 /// Indices may be written in hexadecimal and with underscores between digits.
 fn parse_index(text: &str) -> Option<u32> {
     let text = text.replace('_', "");
-- 
2.43.0


From e547b04755c9b78be4ae6be31b2138ac82abd07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:31 +0000
Subject: [PATCH 19/45] fix: element segments, table uses, exported globals and
 tables of indirect calls were not bound to their definitions

---
 crates/service/src/binder.rs | 53 +++++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 097862c..7b3a845 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -313,6 +313,18 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                             create_ref_symbol(db, node, region.clone(), SymbolItemKind::TableRef)
                         }));
                     }
+                    Some("call_indirect" | "return_call_indirect") => {
+                        let Some(region) = node
+                            .ancestors()
+                            .find(|node| node.kind() == SyntaxKind::MODULE)
+                            .map(SymbolItemKey::from)
+                        else {
+                            continue;
+                        };
+                        symbols.extend(node.children().find_map(|node| {
+                            create_ref_symbol(db, node, region.clone(), SymbolItemKind::TableRef)
+                        }));
+                    }
                     Some("table.init") => {
                         let Some(region) = node
                             .ancestors()
@@ -321,10 +333,11 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                         else {
                             continue;
                         };
-                        let mut children = node.children();
-                        if let Some(symbol) = children.next().and_then(|node| {
+                        // with a single index, that index is an element segment
+                        let mut indices = node.children().filter_map(|node| {
                             create_ref_symbol(db, node, region.clone(), SymbolItemKind::TableRef)
-                        }) {
+                        });
+                        if let (Some(symbol), Some(..)) = (indices.next(), indices.next()) {
                             symbols.push(symbol);
                         }
                     }
@@ -411,7 +424,39 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                     symbols.push(symbol);
                 }
             }
-            SyntaxKind::EXPORT_DESC_TABLE => {
+            SyntaxKind::EXPORT_DESC_GLOBAL => {
+                if let Some(symbol) = node
+                    .ancestors()
+                    .find(|node| node.kind() == SyntaxKind::MODULE)
+                    .map(SymbolItemKey::from)
+                    .zip(
+                        node.children()
+                            .find(|child| child.kind() == SyntaxKind::INDEX),
+                    )
+                    .and_then(|(region, index)| {
+                        create_ref_symbol(db, index, region, SymbolItemKind::GlobalRef)
+                    })
+                {
+                    symbols.push(symbol);
+                }
+            }
+            SyntaxKind::ELEM | SyntaxKind::ELEM_LIST => {
+                let Some(region) = node
+                    .ancestors()
+                    .find(|node| node.kind() == SyntaxKind::MODULE)
+                    .map(SymbolItemKey::from)
+                else {
+                    continue;
+                };
+                symbols.extend(
+                    node.children()
+                        .filter(|child| child.kind() == SyntaxKind::INDEX)
+                        .filter_map(|index| {
+                            create_ref_symbol(db, index, region.clone(), SymbolItemKind::Call)
+                        }),
+                );
+            }
+            SyntaxKind::EXPORT_DESC_TABLE | SyntaxKind::TABLE_USE => {
                 if let Some(symbol) = node
                     .ancestors()
                     .find(|node| node.kind() == SyntaxKind::MODULE)
-- 
2.43.0


From 5df764a2a2e555ad40ed190c6aefdb1416308477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:02 +0000
Subject: [PATCH 20/45] fix: references of a block listed branches to other
 blocks

---
 crates/service/src/features/references.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/features/references.rs b/crates/service/src/features/references.rs
index 06d1dfb..b3e42a0 100644
--- a/crates/service/src/features/references.rs
+++ b/crates/service/src/features/references.rs
@@ -372,7 +372,10 @@ fn get_block_refs(
         symbol_table
             .blocks
             .iter()
-            .filter(|(_, def_key, _)| def_key == &def_symbol.key)
+            .filter(|(ref_key, def_key, _)| {
+                def_key == &def_symbol.key
+                    && symbol_table.find_block_def(ref_key) == Some(def_symbol)
+            })
             .filter_map(|(ref_key, _, _)| {
                 symbol_table
                     .symbols
-- 
2.43.0


From 9244091eab6312114c0b4bf7f1204f7d57dd8dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:02 +0000
Subject: [PATCH 21/45] fix: rename changed identifiers of other symbols in the
 same scope and missed repeated labels

---
 crates/service/src/features/rename.rs | 57 +++++++++++++++++----------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/crates/service/src/features/rename.rs b/crates/service/src/features/rename.rs
index b978d7f..d56a21c 100644
--- a/crates/service/src/features/rename.rs
+++ b/crates/service/src/features/rename.rs
@@ -9,10 +9,10 @@ use crate::{
 use lsp_types::{
     PrepareRenameResponse, RenameParams, TextDocumentPositionParams, TextEdit, WorkspaceEdit,
 };
-use rowan::ast::support;
+use rowan::ast::{support, AstNode};
 use std::collections::HashMap;
 use wat_parser::is_id_char;
-use wat_syntax::{SyntaxKind, SyntaxNode, SyntaxToken};
+use wat_syntax::{ast::BlockIfElse, SyntaxKind, SyntaxNode, SyntaxToken};
 
 const ERR_INVALID_IDENTIFIER: &str = "not a valid identifier";
 const ERR_CANT_BE_RENAMED: &str = "This can't be renamed.";
@@ -66,11 +66,21 @@ impl LanguageService {
         let symbol_table = self.symbol_table(uri);
 
         let old_name = self.ident(ident_token.text().to_string());
-        let symbol_key = ident_token.parent()?.into();
+        let mut parent = ident_token.parent()?;
+        if parent.kind() == SyntaxKind::BLOCK_IF_ELSE {
+            // label repeated after `else`
+            parent = parent.parent()?;
+        }
+        let symbol_key = parent.into();
         let symbol = symbol_table
             .symbols
             .iter()
             .find(|symbol| symbol.key == symbol_key)?;
+        let block_def = match symbol.kind {
+            SymbolItemKind::BlockDef => Some(symbol),
+            SymbolItemKind::BlockRef => symbol_table.find_block_def(&symbol_key),
+            _ => None,
+        };
         let text_edits = symbol_table
             .symbols
             .iter()
@@ -89,30 +99,37 @@ impl LanguageService {
                 | SymbolItemKind::TableDef
                 | SymbolItemKind::TableRef => {
                     symbol.region == sym.region
-                        && symbol.idx.name.is_some_and(|name| name == old_name)
-                }
-                SymbolItemKind::BlockDef => {
-                    symbol == *sym
-                        || symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                            &symbol_key == ref_key && def_key == &sym.key
-                        })
+                        && sym.idx.name == Some(old_name)
+                        && !matches!(
+                            symbol.kind,
+                            SymbolItemKind::BlockDef | SymbolItemKind::BlockRef
+                        )
                 }
+                SymbolItemKind::BlockDef => block_def.is_some_and(|def| def == *sym),
                 SymbolItemKind::BlockRef => {
                     symbol == *sym
-                        || symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                            &sym.key == ref_key && def_key == &symbol.key
+                        || block_def.is_some_and(|def| {
+                            symbol_table.find_block_def(&sym.key) == Some(def)
                         })
-                        || symbol_table
-                            .find_block_def(&symbol_key)
-                            .is_some_and(|def_symbol| {
-                                symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                                    &sym.key == ref_key && def_key == &def_symbol.key
-                                })
-                            })
                 }
                 SymbolItemKind::Module => false,
             })
-            .filter_map(|sym| support::token(&sym.key.ptr.to_node(&root), SyntaxKind::IDENT))
+            .flat_map(|sym| {
+                let node = sym.key.ptr.to_node(&root);
+                let branch = support::child::<BlockIfElse>(&node);
+                // block may have its label repeated after `else` and `end`
+                node.children_with_tokens()
+                    .chain(
+                        branch
+                            .into_iter()
+                            .flat_map(|branch| branch.syntax().children_with_tokens()),
+                    )
+                    .filter_map(|element| element.into_token())
+                    .filter(|token| {
+                        token.kind() == SyntaxKind::IDENT && token.text() == ident_token.text()
+                    })
+                    .collect::<Vec<_>>()
+            })
             .map(|token| TextEdit {
                 range: helpers::rowan_range_to_lsp_range(&line_index, token.text_range()),
                 new_text: params.new_name.clone(),
-- 
2.43.0


From 725eb72b6ea3f0a3586890a34f1e85f975fa507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:55 +0000
Subject: [PATCH 22/45] fix: duplicated names of tables were not reported

---
 crates/service/src/checker/dup_names.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/service/src/checker/dup_names.rs b/crates/service/src/checker/dup_names.rs
index ceca7a3..2ad1a1c 100644
--- a/crates/service/src/checker/dup_names.rs
+++ b/crates/service/src/checker/dup_names.rs
@@ -32,6 +32,7 @@ pub fn check(
                         | SymbolItemKind::Type
                         | SymbolItemKind::GlobalDef
                         | SymbolItemKind::MemoryDef
+                        | SymbolItemKind::TableDef
                         | SymbolItemKind::BlockDef
                 )
             })
-- 
2.43.0


From 179d210a1ea0d0cff575ec518062aa6c2a1890e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:47 +0000
Subject: [PATCH 23/45] fix: labels of sibling blocks and of blocks next to
 locals were reported as duplicated names

---
 crates/service/src/checker/dup_names.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/service/src/checker/dup_names.rs b/crates/service/src/checker/dup_names.rs
index 2ad1a1c..f591c5a 100644
--- a/crates/service/src/checker/dup_names.rs
+++ b/crates/service/src/checker/dup_names.rs
@@ -33,7 +33,6 @@ pub fn check(
                         | SymbolItemKind::GlobalDef
                         | SymbolItemKind::MemoryDef
                         | SymbolItemKind::TableDef
-                        | SymbolItemKind::BlockDef
                 )
             })
             .fold(FxHashMap::default(), |mut map, symbol| {
-- 
2.43.0


From ee4627caad17d53949af771dad0507d640083958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:24 +0000
Subject: [PATCH 24/45] fix: positions were counted in UTF-8 instead of UTF-16,
 and positions behind the end of a line or of the text crashed

---
 crates/service/src/files.rs   | 12 +++++-----
 crates/service/src/helpers.rs | 44 ++++++++++++++++++++++-------------
 2 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/crates/service/src/files.rs b/crates/service/src/files.rs
index aa0c0d9..aef36bc 100644
--- a/crates/service/src/files.rs
+++ b/crates/service/src/files.rs
@@ -1,6 +1,6 @@
-use crate::InternUri;
+use crate::{helpers, InternUri};
 use line_index::{LineIndex, TextSize};
-use lsp_types::{Diagnostic, DiagnosticSeverity, Position, Range, Uri};
+use lsp_types::{Diagnostic, DiagnosticSeverity, Range, Uri};
 use rowan::GreenNode;
 use std::rc::Rc;
 use wat_parser::Parser;
@@ -38,12 +38,12 @@ fn parse(db: &dyn FilesCtx, uri: InternUri) -> (GreenNode, Vec<Diagnostic>) {
         .errors()
         .iter()
         .map(|error| {
-            let start = line_index.line_col(TextSize::new(error.start as u32));
-            let end = line_index.line_col(TextSize::new(error.end as u32));
+            let start = TextSize::new(error.start as u32);
+            let end = TextSize::new(error.end as u32);
             Diagnostic {
                 range: Range::new(
-                    Position::new(start.line, start.col),
-                    Position::new(end.line, end.col),
+                    helpers::rowan_pos_to_lsp_pos(&line_index, start),
+                    helpers::rowan_pos_to_lsp_pos(&line_index, end),
                 ),
                 severity: Some(DiagnosticSeverity::ERROR),
                 source: Some("wat".into()),
diff --git a/crates/service/src/helpers.rs b/crates/service/src/helpers.rs
index 6dd22dc..d45c744 100644
--- a/crates/service/src/helpers.rs
+++ b/crates/service/src/helpers.rs
@@ -1,10 +1,14 @@
-use line_index::{LineCol, LineIndex};
+use line_index::{LineCol, LineIndex, WideEncoding, WideLineCol};
 use lsp_types::{Position, Range};
 use rowan::{TextRange, TextSize};
 
 pub fn rowan_pos_to_lsp_pos(line_index: &LineIndex, pos: TextSize) -> Position {
     let line_col = line_index.line_col(pos);
-    Position::new(line_col.line, line_col.col)
+    // columns are counted in UTF-16 code units in LSP
+    let col = line_index
+        .to_wide(WideEncoding::Utf16, line_col)
+        .map_or(line_col.col, |line_col| line_col.col);
+    Position::new(line_col.line, col)
 }
 
 pub fn rowan_range_to_lsp_range(line_index: &LineIndex, range: TextRange) -> Range {
@@ -15,23 +19,31 @@ pub fn rowan_range_to_lsp_range(line_index: &LineIndex, range: TextRange) -> Ran
 }
 
 pub fn lsp_pos_to_rowan_pos(line_index: &LineIndex, pos: Position) -> Option<TextSize> {
-    line_index.offset(LineCol {
-        line: pos.line,
-        col: pos.character,
-    })
+    let LineCol { line, col } = line_index.to_utf8(
+        WideEncoding::Utf16,
+        WideLineCol {
+            line: pos.line,
+            col: pos.character,
+        },
+    )?;
+    let offset = line_index.offset(LineCol {
+        line,
+        col: col.min(line_index.len().into()),
+    })?;
+    // positions behind the end of a line are at the end of that line
+    let line_end = line
+        .checked_add(1)
+        .and_then(|line| line_index.offset(LineCol { line, col: 0 }))
+        .map_or(line_index.len(), |next_line| next_line - TextSize::from(1));
+    let offset = offset.min(line_end);
+    line_index.try_line_col(offset).map(|_| offset)
 }
 
 pub fn lsp_range_to_rowan_range(line_index: &LineIndex, range: Range) -> Option<TextRange> {
-    line_index
-        .offset(LineCol {
-            line: range.start.line,
-            col: range.start.character,
-        })
-        .zip(line_index.offset(LineCol {
-            line: range.end.line,
-            col: range.end.character,
-        }))
-        .map(|(start, end)| TextRange::new(TextSize::new(start.into()), TextSize::new(end.into())))
+    lsp_pos_to_rowan_pos(line_index, range.start)
+        .zip(lsp_pos_to_rowan_pos(line_index, range.end))
+        .filter(|(start, end)| start <= end)
+        .map(|(start, end)| TextRange::new(start, end))
 }
 
 pub(crate) mod ast {
-- 
2.43.0


From 5d81556a8a1b390ec7f0176192f9ddf2dd086036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:06 +0000
Subject: [PATCH 25/45] fix: semantic tokens got wrong positions after block
 comments the client does not highlight, and were measured in UTF-8

---
 .../service/src/features/semantic_tokens.rs   | 47 +++++++------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/crates/service/src/features/semantic_tokens.rs b/crates/service/src/features/semantic_tokens.rs
index 8519e5b..ad14cf5 100644
--- a/crates/service/src/features/semantic_tokens.rs
+++ b/crates/service/src/features/semantic_tokens.rs
@@ -1,7 +1,6 @@
 use crate::{binder::SymbolTablesCtx, files::FilesCtx, helpers, InternUri, LanguageService};
-use line_index::LineCol;
 use lsp_types::{
-    SemanticToken, SemanticTokens, SemanticTokensParams, SemanticTokensRangeParams,
+    Position, SemanticToken, SemanticTokens, SemanticTokensParams, SemanticTokensRangeParams,
     SemanticTokensRangeResult, SemanticTokensResult,
 };
 use rowan::ast::support;
@@ -50,10 +49,10 @@ impl LanguageService {
             .take_while(|token| token.text_range().start() < end)
             .peekable();
         if let Some(token) = tokens.peek() {
-            LineCol {
+            Position {
                 line: delta_line,
-                col: prev_start,
-            } = line_index.line_col(token.text_range().start());
+                character: prev_start,
+            } = helpers::rowan_pos_to_lsp_pos(&line_index, token.text_range().start());
         }
         let tokens = self.build_tokens(uri, tokens, &mut delta_line, &mut prev_start);
         Some(SemanticTokensRangeResult::Tokens(SemanticTokens {
@@ -70,36 +69,22 @@ impl LanguageService {
         prev_start: &mut u32,
     ) -> Vec<SemanticToken> {
         let line_index = self.line_index(uri);
+        let mut prev_line = *delta_line;
         tokens
             .filter_map(|token| {
-                if token.kind() == SyntaxKind::WHITESPACE {
-                    let lines = token.text().chars().filter(|c| *c == '\n').count() as u32;
-                    if lines > 0 {
-                        *delta_line += lines;
-                        *prev_start = 0;
-                    }
-                    return None;
-                }
                 let token_type = self.token_type(uri, &token)?;
-                let block_comment_lines = if token.kind() == SyntaxKind::BLOCK_COMMENT {
-                    Some(token.text().chars().filter(|c| *c == '\n').count() as u32)
-                } else {
-                    None
-                };
-                let range = token.text_range();
-                let col = line_index.line_col(range.start()).col;
+                let Position { line, character } =
+                    helpers::rowan_pos_to_lsp_pos(&line_index, token.text_range().start());
+                let lines = line - mem::replace(&mut prev_line, line);
+                let prev_start = mem::replace(prev_start, character);
                 Some(SemanticToken {
-                    delta_line: mem::replace(delta_line, block_comment_lines.unwrap_or_default()),
-                    delta_start: col
-                        - mem::replace(
-                            prev_start,
-                            if block_comment_lines.is_some_and(|lines| lines > 0) {
-                                0
-                            } else {
-                                col
-                            },
-                        ),
-                    length: range.len().into(),
+                    delta_line: mem::take(delta_line) + lines,
+                    delta_start: if lines == 0 {
+                        character - prev_start
+                    } else {
+                        character
+                    },
+                    length: token.text().encode_utf16().count() as u32,
                     token_type,
                     token_modifiers_bitset: 0,
                 })
-- 
2.43.0


From c0c4033087e3aadefe3a88e6c430cd38e3ab19a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:12 +0000
Subject: [PATCH 26/45] fix: document symbols of several modules were listed in
 arbitrary order

---
 crates/service/src/features/document_symbol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/service/src/features/document_symbol.rs b/crates/service/src/features/document_symbol.rs
index bade8e2..f69060f 100644
--- a/crates/service/src/features/document_symbol.rs
+++ b/crates/service/src/features/document_symbol.rs
@@ -171,7 +171,7 @@ impl LanguageService {
                 }
             })
             .collect::<Vec<_>>();
-        lsp_symbols.reverse();
+        lsp_symbols.sort_by_key(|lsp_symbol| lsp_symbol.range.start);
         Some(DocumentSymbolResponse::Nested(lsp_symbols))
     }
 }
-- 
2.43.0


From 09efab08568a3d8c90b76d1cb00b402bd81c7b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:12 +0000
Subject: [PATCH 27/45] fix: selection ranges left out positions without token,
 shifting the answers of the others

---
 .../service/src/features/selection_range.rs   | 37 ++++++++++++-------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/crates/service/src/features/selection_range.rs b/crates/service/src/features/selection_range.rs
index bef3700..57bfd66 100644
--- a/crates/service/src/features/selection_range.rs
+++ b/crates/service/src/features/selection_range.rs
@@ -1,7 +1,7 @@
 use super::{find_meaningful_token, FilesCtx};
 use crate::{helpers, LanguageService};
 use line_index::LineIndex;
-use lsp_types::{SelectionRange, SelectionRangeParams};
+use lsp_types::{Range, SelectionRange, SelectionRangeParams};
 use wat_syntax::SyntaxNode;
 
 impl LanguageService {
@@ -13,19 +13,28 @@ impl LanguageService {
             params
                 .positions
                 .into_iter()
-                .filter_map(|position| {
-                    find_meaningful_token(self, uri, &root, position).map(|token| SelectionRange {
-                        range: helpers::rowan_range_to_lsp_range(&line_index, token.text_range()),
-                        parent: token.parent().map(|parent| {
-                            Box::new(SelectionRange {
-                                range: helpers::rowan_range_to_lsp_range(
-                                    &line_index,
-                                    parent.text_range(),
-                                ),
-                                parent: get_parent_range(parent, &line_index),
-                            })
-                        }),
-                    })
+                .map(|position| {
+                    find_meaningful_token(self, uri, &root, position)
+                        .map(|token| SelectionRange {
+                            range: helpers::rowan_range_to_lsp_range(
+                                &line_index,
+                                token.text_range(),
+                            ),
+                            parent: token.parent().map(|parent| {
+                                Box::new(SelectionRange {
+                                    range: helpers::rowan_range_to_lsp_range(
+                                        &line_index,
+                                        parent.text_range(),
+                                    ),
+                                    parent: get_parent_range(parent, &line_index),
+                                })
+                            }),
+                        })
+                        // there must be one range for each position
+                        .unwrap_or_else(|| SelectionRange {
+                            range: Range::new(position, position),
+                            parent: None,
+                        })
                 })
                 .collect(),
         )
-- 
2.43.0


From 887bd75f092b366dc21ea38a92d106f844367d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:49 +0000
Subject: [PATCH 28/45] fix: arguments of calls to imported functions and
 functions with type reference were reported as too many

---
 crates/service/src/checker/typeck.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 616fcdb..a98dfe6 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -15,6 +15,7 @@ use rowan::{
     },
     TextRange,
 };
+use std::iter;
 use wat_syntax::{
     ast::{Instr, PlainInstr},
     SyntaxKind, SyntaxNode,
@@ -304,7 +305,8 @@ fn resolve_expected_types(
             sig.params
                 .iter()
                 .map(|ty| OperandType::Val(ty.0.clone()))
-                .zip(related)
+                // params can come from type definition
+                .zip(related.chain(iter::repeat(None)))
                 .collect()
         })
     } else {
-- 
2.43.0


From 4b572ba625fbba85b13f3420346ddf1be5479d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:57 +0000
Subject: [PATCH 29/45] fix: operands of select were reported as too few,
 because only the metadata of typed select was used

---
 crates/service/src/data_set/instr_meta.rs | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/crates/service/src/data_set/instr_meta.rs b/crates/service/src/data_set/instr_meta.rs
index 5af71df..a363682 100644
--- a/crates/service/src/data_set/instr_meta.rs
+++ b/crates/service/src/data_set/instr_meta.rs
@@ -37,19 +37,6 @@ pub(crate) static INSTR_METAS: LazyLock<FxHashMap<&'static str, InstrMeta>> = La
             results: vec![OperandType::Generic],
         },
     );
-    map.insert(
-        "select",
-        InstrMeta {
-            bin_op: "0x1C",
-            operands_count: 1,
-            params: vec![
-                OperandType::Generic,
-                OperandType::Generic,
-                OperandType::Val(ValType::I32),
-            ],
-            results: vec![OperandType::Generic],
-        },
-    );
     map.insert(
         "local.get",
         InstrMeta {
-- 
2.43.0


From 6f31ce3caffb4c604d5003144231c284628965e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:17 +0000
Subject: [PATCH 30/45] fix: memory arguments and table indices that can be
 omitted were reported as missing, and lanes of shuffle as superfluous

---
 .../service/src/checker/literal_operands.rs   | 59 +++++++++++++++----
 crates/service/src/checker/typeck.rs          | 17 +++++-
 crates/service/src/data_set/instr_meta.rs     |  2 +-
 3 files changed, 63 insertions(+), 15 deletions(-)

diff --git a/crates/service/src/checker/literal_operands.rs b/crates/service/src/checker/literal_operands.rs
index 77c7a88..4996303 100644
--- a/crates/service/src/checker/literal_operands.rs
+++ b/crates/service/src/checker/literal_operands.rs
@@ -15,10 +15,10 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
 
     macro_rules! check_operand {
         ($kind:pat, $msg:literal) => {
-            if let Some(operand) = operands
-                .next()
-                .and_then(|operand| operand.syntax().first_token())
-            {
+            check_operand!(operands.next(), $kind, $msg);
+        };
+        ($operand:expr, $kind:pat, $msg:literal) => {
+            if let Some(operand) = $operand.and_then(|operand| operand.syntax().first_token()) {
                 if !matches!(operand.kind(), $kind) {
                     diags.push(Diagnostic {
                         range: helpers::rowan_range_to_lsp_range(line_index, operand.text_range()),
@@ -32,15 +32,26 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         };
     }
 
+    // immediates that can be omitted
+    let mut optional_operands = children::<Operand>(node)
+        .take_while(|operand| operand.instr().is_none())
+        .peekable();
+
     match instr_name.text() {
         "call" | "local.get" | "local.set" | "local.tee" | "global.get" | "global.set"
-        | "table.get" | "table.set" | "ref.func" | "memory.init" | "data.drop" | "elem.drop"
-        | "table.grow" | "table.size" | "table.fill" | "br" | "br_if" => {
+        | "ref.func" | "memory.init" | "data.drop" | "elem.drop" | "br" | "br_if" => {
             check_operand!(
                 SyntaxKind::IDENT | SyntaxKind::INT,
                 "expected identifier or unsigned integer"
             );
         }
+        "table.get" | "table.set" | "table.grow" | "table.size" | "table.fill" => {
+            check_operand!(
+                optional_operands.next(),
+                SyntaxKind::IDENT | SyntaxKind::INT,
+                "expected identifier or unsigned integer"
+            );
+        }
         "i32.const" | "i64.const" | "v128.const" => {
             check_operand!(SyntaxKind::INT, "expected integer");
         }
@@ -52,10 +63,12 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         }
         "table.init" | "table.copy" => {
             check_operand!(
+                optional_operands.next(),
                 SyntaxKind::IDENT | SyntaxKind::INT,
                 "expected identifier or unsigned integer"
             );
             check_operand!(
+                optional_operands.next(),
                 SyntaxKind::IDENT | SyntaxKind::INT,
                 "expected identifier or unsigned integer"
             );
@@ -67,8 +80,17 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         | "i64.store16" | "i64.store32" | "v128.load" | "v128.load8x8_s" | "v128.load8x8_u"
         | "v128.load16x4_s" | "v128.load16x4_u" | "v128.load32x2_s" | "v128.load32x2_u"
         | "v128.load8_splat" | "v128.load16_splat" | "v128.load32_splat" | "v128.load64_splat"
-        | "v128.store" => {
-            check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
+        | "v128.load32_zero" | "v128.load64_zero" | "v128.store" => {
+            check_operand!(
+                optional_operands.next(),
+                SyntaxKind::MEM_ARG,
+                "expected memory argument"
+            );
+            check_operand!(
+                optional_operands.next(),
+                SyntaxKind::MEM_ARG,
+                "expected memory argument"
+            );
         }
         "i8x16.shuffle"
         | "i8x16.extract_lane_s"
@@ -92,11 +114,22 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         }
         "v128.load8_lane" | "v128.load16_lane" | "v128.load32_lane" | "v128.load64_lane"
         | "v128.store8_lane" | "v128.store16_lane" | "v128.store32_lane" | "v128.store64_lane" => {
-            check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
-            check_operand!(
-                SyntaxKind::IDENT | SyntaxKind::INT,
-                "expected identifier or unsigned integer"
-            );
+            // the last one is the lane index
+            while let Some(operand) = optional_operands.next() {
+                if optional_operands.peek().is_some() {
+                    check_operand!(
+                        Some(operand),
+                        SyntaxKind::MEM_ARG,
+                        "expected memory argument"
+                    );
+                } else {
+                    check_operand!(
+                        Some(operand),
+                        SyntaxKind::IDENT | SyntaxKind::INT,
+                        "expected identifier or unsigned integer"
+                    );
+                }
+            }
         }
         _ => {}
     }
diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index a98dfe6..c600902 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -44,7 +44,22 @@ pub fn check_folded(
     let skipped_count = if is_call {
         1
     } else {
-        meta.map(|meta| meta.operands_count).unwrap_or_default()
+        let max = meta.map(|meta| meta.operands_count).unwrap_or_default();
+        let (min, max) = match instr_name.text() {
+            "table.get" | "table.set" | "table.size" | "table.grow" | "table.fill"
+            | "table.copy" => (0, max),
+            "table.init" => (1, max),
+            // there can be `offset` and `align`, or neither
+            name if max > 0 && (name.contains(".load") || name.contains(".store")) => {
+                (max - 1, max + 1)
+            }
+            _ => (max, max),
+        };
+        instr
+            .operands()
+            .take_while(|operand| operand.instr().is_none())
+            .count()
+            .clamp(min, max)
     };
     let received_types =
         instr
diff --git a/crates/service/src/data_set/instr_meta.rs b/crates/service/src/data_set/instr_meta.rs
index a363682..7a4f4f8 100644
--- a/crates/service/src/data_set/instr_meta.rs
+++ b/crates/service/src/data_set/instr_meta.rs
@@ -2105,7 +2105,7 @@ pub(crate) static INSTR_METAS: LazyLock<FxHashMap<&'static str, InstrMeta>> = La
         "i8x16.shuffle",
         InstrMeta {
             bin_op: "0xFD 0x0D",
-            operands_count: 1,
+            operands_count: 16,
             params: vec![
                 OperandType::Val(ValType::V128),
                 OperandType::Val(ValType::V128),
-- 
2.43.0


From ca4e97337ca36883a133741437d1307150a38492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:26 +0000
Subject: [PATCH 31/45] fix: operands after blocks, branches and instructions
 without metadata were reported as missing

---
 crates/service/src/checker/typeck.rs | 49 ++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index c600902..d7e9f24 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -61,14 +61,21 @@ pub fn check_folded(
             .count()
             .clamp(min, max)
     };
+    // the types of blocks and instructions without metadata are unknown,
+    // so are the positions of operands behind them
+    let mut is_unknown = false;
     let received_types =
         instr
             .operands()
             .skip(skipped_count)
             .fold(vec![], |mut received, operand| {
                 if let Some(instr) = operand.instr() {
-                    if let Some(types) = resolve_type(service, uri, symbol_table, &instr) {
-                        received.extend(types.into_iter().map(|ty| (ty, operand.clone())));
+                    match resolve_type(service, uri, symbol_table, &instr) {
+                        Some(types) if !is_unknown => {
+                            received.extend(types.into_iter().map(|ty| (ty, operand.clone())));
+                        }
+                        Some(..) => {}
+                        None => is_unknown = true,
                     }
                 } else if meta.is_some() {
                     diags.push(Diagnostic {
@@ -94,7 +101,7 @@ pub fn check_folded(
             .operands()
             .filter(|operand| operand.instr().is_none())
             .count();
-    if expected_count != received_count {
+    if expected_count != received_count && !is_unknown {
         diags.push(Diagnostic {
             range: helpers::rowan_range_to_lsp_range(line_index, instr.syntax().text_range()),
             severity: Some(DiagnosticSeverity::ERROR),
@@ -162,6 +169,8 @@ pub fn check_stacked(
     }
 
     let mut types_stack = Vec::<(_, Instr)>::with_capacity(2);
+    // after blocks and instructions without metadata, there can be any types on the stack
+    let mut is_unknown = false;
     children::<Instr>(node).for_each(|instr| {
         if let Instr::Plain(plain_instr) = &instr {
             let Some(instr_name) = plain_instr.instr_name() else {
@@ -171,6 +180,10 @@ pub fn check_stacked(
             let Some(params) =
                 resolve_expected_types(service, uri, symbol_table, plain_instr, meta)
             else {
+                if instr_name.text() != "nop" {
+                    types_stack.clear();
+                    is_unknown = true;
+                }
                 return;
             };
             let expected_count = if plain_instr.l_paren_token().is_some() {
@@ -181,20 +194,26 @@ pub fn check_stacked(
             let pop_count = if let Some(count) = types_stack.len().checked_sub(expected_count) {
                 count
             } else {
-                diags.push(Diagnostic {
-                    range: helpers::rowan_range_to_lsp_range(
-                        line_index,
-                        instr.syntax().text_range(),
-                    ),
-                    severity: Some(DiagnosticSeverity::ERROR),
-                    source: Some("wat".into()),
-                    message: build_incorrect_operands_count_msg(expected_count, types_stack.len()),
-                    ..Default::default()
-                });
+                if !is_unknown {
+                    diags.push(Diagnostic {
+                        range: helpers::rowan_range_to_lsp_range(
+                            line_index,
+                            instr.syntax().text_range(),
+                        ),
+                        severity: Some(DiagnosticSeverity::ERROR),
+                        source: Some("wat".into()),
+                        message: build_incorrect_operands_count_msg(
+                            expected_count,
+                            types_stack.len(),
+                        ),
+                        ..Default::default()
+                    });
+                }
                 0
             };
             let type_mismatches = params
                 .iter()
+                .skip(expected_count.saturating_sub(types_stack.len()))
                 .zip(types_stack.drain(pop_count..))
                 .filter_map(|pair| {
                     if let (
@@ -235,8 +254,11 @@ pub fn check_stacked(
 
             if let Some(types) = resolve_type(service, uri, symbol_table, &instr) {
                 types_stack.extend(types.into_iter().map(|ty| (ty, instr.clone())));
+                return;
             }
         }
+        types_stack.clear();
+        is_unknown = true;
     });
 }
 
@@ -251,6 +273,7 @@ fn resolve_type(
         Instr::Plain(plain_instr) => {
             let instr_name = plain_instr.instr_name()?;
             match instr_name.text() {
+                "nop" => Some(vec![]),
                 "call" => {
                     let idx = plain_instr.operands().next()?;
                     symbol_table
-- 
2.43.0


From d9b128875247872cfd7abeace6473b0fe85f03c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:15 +0000
Subject: [PATCH 32/45] fix: arguments of calls to functions without params
 were not reported as too many

---
 crates/service/src/types_analyzer.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/service/src/types_analyzer.rs b/crates/service/src/types_analyzer.rs
index 3e12a08..a6fc89a 100644
--- a/crates/service/src/types_analyzer.rs
+++ b/crates/service/src/types_analyzer.rs
@@ -83,6 +83,17 @@ fn get_func_sig(
     symbol: SymbolItemWithGreenEq,
 ) -> Option<FuncSig> {
     debug_assert!(matches!(symbol.kind, SymbolItemKind::Func));
+    if symbol
+        .green
+        .children()
+        .all(|child| child.kind() != SyntaxKind::TYPE_USE.into())
+    {
+        // functions without type use have neither params nor results
+        return Some(FuncSig {
+            params: vec![],
+            results: vec![],
+        });
+    }
     symbol
         .green
         .children()
-- 
2.43.0


From 98f4315d3c5bb042c324d44fbd085d4181c7a7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:53 +0000
Subject: [PATCH 33/45] fix: operands behind a diverging instruction inside of
 another one were reported as missing

---
 crates/service/src/checker/typeck.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index d7e9f24..3afffa4 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -272,6 +272,13 @@ fn resolve_type(
         Instr::Block(..) => None,
         Instr::Plain(plain_instr) => {
             let instr_name = plain_instr.instr_name()?;
+            if plain_instr
+                .operands()
+                .filter_map(|operand| operand.instr())
+                .any(|instr| diverges(&instr))
+            {
+                return None;
+            }
             match instr_name.text() {
                 "nop" => Some(vec![]),
                 "call" => {
@@ -314,6 +321,22 @@ fn resolve_type(
     }
 }
 
+/// Whether control never comes to the end of the instruction.
+fn diverges(instr: &Instr) -> bool {
+    let Instr::Plain(plain_instr) = instr else {
+        return false;
+    };
+    plain_instr.instr_name().is_some_and(|name| {
+        matches!(
+            name.text(),
+            "unreachable" | "br" | "br_table" | "return" | "return_call" | "return_call_indirect"
+        )
+    }) || plain_instr
+        .operands()
+        .filter_map(|operand| operand.instr())
+        .any(|instr| diverges(&instr))
+}
+
 type ExpectedType = (OperandType, Option<(TextRange, String)>);
 fn resolve_expected_types(
     service: &LanguageService,
-- 
2.43.0


From e0b2260d3bd9133d5a284ad12c5f6af2e5d0256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:58 +0000
Subject: [PATCH 34/45] fix: functions in elem segments and tables of indirect
 calls were not completed

---
 crates/service/src/features/completion.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/service/src/features/completion.rs b/crates/service/src/features/completion.rs
index 3d58b9d..0c3b5c3 100644
--- a/crates/service/src/features/completion.rs
+++ b/crates/service/src/features/completion.rs
@@ -177,6 +177,7 @@ fn get_cmp_ctx(token: &SyntaxToken) -> Option<SmallVec<[CmpCtx; 4]>> {
                 SyntaxKind::EXPORT_DESC_GLOBAL => ctx.push(CmpCtx::Global),
                 SyntaxKind::EXPORT_DESC_MEMORY => ctx.push(CmpCtx::Memory),
                 SyntaxKind::EXPORT_DESC_TABLE => ctx.push(CmpCtx::Table),
+                SyntaxKind::ELEM | SyntaxKind::ELEM_LIST => ctx.push(CmpCtx::Func),
                 _ => {}
             }
         }
@@ -331,6 +332,7 @@ fn add_cmp_ctx_for_operands(instr_name: &str, node: &SyntaxNode, ctx: &mut Small
         }
         None => match instr_name {
             "call" | "return_call" => ctx.push(CmpCtx::Func),
+            "call_indirect" | "return_call_indirect" => ctx.push(CmpCtx::Table),
             "br" | "br_if" | "br_table" => ctx.push(CmpCtx::Block),
             _ => {}
         },
-- 
2.43.0


From 1cb742b1d2864194021e58cf5130a03b72c5042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:38 +0000
Subject: [PATCH 35/45] fix: label of a folded if was offered in its condition

---
 crates/service/src/binder.rs              |  2 +-
 crates/service/src/features/completion.rs | 23 +++++++++++------------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 7b3a845..4f3129b 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -528,7 +528,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
 
 /// The innermost block whose label is in scope at the given node.
 /// The label of `if` isn't in scope in its folded condition.
-fn find_enclosing_block(node: &SyntaxNode) -> Option<SyntaxNode> {
+pub(crate) fn find_enclosing_block(node: &SyntaxNode) -> Option<SyntaxNode> {
     node.ancestors()
         .zip(node.ancestors().skip(1))
         .find(|(child, parent)| match parent.kind() {
diff --git a/crates/service/src/features/completion.rs b/crates/service/src/features/completion.rs
index 0c3b5c3..e6ca6a4 100644
--- a/crates/service/src/features/completion.rs
+++ b/crates/service/src/features/completion.rs
@@ -1,5 +1,5 @@
 use crate::{
-    binder::{SymbolItemKind, SymbolTable, SymbolTablesCtx},
+    binder::{find_enclosing_block, SymbolItemKind, SymbolTable, SymbolTablesCtx},
     data_set,
     files::FilesCtx,
     helpers,
@@ -13,6 +13,7 @@ use lsp_types::{
 };
 use rowan::{ast::support, Direction, TokenAtOffset};
 use smallvec::SmallVec;
+use std::iter;
 use wat_syntax::{SyntaxElement, SyntaxKind, SyntaxNode, SyntaxToken};
 
 impl LanguageService {
@@ -586,20 +587,18 @@ fn get_cmp_list(
                     );
                 }
                 CmpCtx::Block => {
+                    let Some(node) = token.parent() else {
+                        return items;
+                    };
                     let has_dollar = token.text().starts_with('$');
                     items.extend(
-                        symbol_table
-                            .symbols
-                            .iter()
-                            .filter(|symbol| {
-                                symbol.kind == SymbolItemKind::BlockDef
-                                    && symbol
-                                        .key
-                                        .ptr
-                                        .text_range()
-                                        .contains_range(token.text_range())
+                        iter::successors(find_enclosing_block(&node), find_enclosing_block)
+                            .filter_map(|block| {
+                                let key = block.into();
+                                symbol_table.symbols.iter().find(|symbol| {
+                                    symbol.kind == SymbolItemKind::BlockDef && symbol.key == key
+                                })
                             })
-                            .rev()
                             .enumerate()
                             .filter_map(|(num, symbol)| {
                                 let idx = Idx {
-- 
2.43.0


From 793a3682bb6c0a64d93ae48a9f741c4141e319bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:09 +0000
Subject: [PATCH 36/45] fix: memories of data segments and tables of elem
 segments were not completed

---
 crates/service/src/features/completion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/service/src/features/completion.rs b/crates/service/src/features/completion.rs
index e6ca6a4..26fb7cd 100644
--- a/crates/service/src/features/completion.rs
+++ b/crates/service/src/features/completion.rs
@@ -176,8 +176,8 @@ fn get_cmp_ctx(token: &SyntaxToken) -> Option<SmallVec<[CmpCtx; 4]>> {
                 }
                 SyntaxKind::TYPE_USE => ctx.push(CmpCtx::FuncType),
                 SyntaxKind::EXPORT_DESC_GLOBAL => ctx.push(CmpCtx::Global),
-                SyntaxKind::EXPORT_DESC_MEMORY => ctx.push(CmpCtx::Memory),
-                SyntaxKind::EXPORT_DESC_TABLE => ctx.push(CmpCtx::Table),
+                SyntaxKind::EXPORT_DESC_MEMORY | SyntaxKind::MEM_USE => ctx.push(CmpCtx::Memory),
+                SyntaxKind::EXPORT_DESC_TABLE | SyntaxKind::TABLE_USE => ctx.push(CmpCtx::Table),
                 SyntaxKind::ELEM | SyntaxKind::ELEM_LIST => ctx.push(CmpCtx::Func),
                 _ => {}
             }
-- 
2.43.0


From 7378deb8335b71fab87561c1ac189fb8362afd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:45 +0000
Subject: [PATCH 37/45] fix: comments were dropped by splitting and joining
 params, results and locals

---
 .../src/refactorings/func_header_split.rs     | 33 ++++++++++++-----
 crates/service/src/refactorings/mod.rs        | 24 ++++++++++++
 .../service/src/refactorings/params_join.rs   | 37 ++++++++++++-------
 3 files changed, 70 insertions(+), 24 deletions(-)

diff --git a/crates/service/src/refactorings/func_header_split.rs b/crates/service/src/refactorings/func_header_split.rs
index ed7a23a..5231f39 100644
--- a/crates/service/src/refactorings/func_header_split.rs
+++ b/crates/service/src/refactorings/func_header_split.rs
@@ -1,6 +1,8 @@
+use super::comments_in_range;
 use crate::{files::FilesCtx, helpers, InternUri, LanguageService};
 use line_index::LineIndex;
 use lsp_types::{CodeAction, CodeActionKind, TextEdit, WorkspaceEdit};
+use rowan::TextRange;
 use std::collections::HashMap;
 use wat_syntax::{SyntaxKind, SyntaxNode};
 
@@ -28,16 +30,27 @@ pub fn act(
         SyntaxKind::LOCAL => "local",
         _ => return None,
     };
-    let new_text = rest
-        .iter()
-        .fold(format!("({keyword} {first})"), |mut new_text, ty| {
-            new_text.push_str(" (");
-            new_text.push_str(keyword);
-            new_text.push(' ');
-            new_text.push_str(&ty.to_string());
-            new_text.push(')');
-            new_text
-        });
+    let comments = |start, end| comments_in_range(node, TextRange::new(start, end));
+    let mut new_text = format!(
+        "({keyword} {}{first}",
+        comments(node.text_range().start(), first.text_range().start())
+    );
+    let mut end = first.text_range().end();
+    rest.iter().for_each(|ty| {
+        new_text.push_str(") ");
+        new_text.push_str(&comments(end, ty.text_range().start()));
+        new_text.push('(');
+        new_text.push_str(keyword);
+        new_text.push(' ');
+        new_text.push_str(&ty.to_string());
+        end = ty.text_range().end();
+    });
+    let trailing = comments(end, node.text_range().end());
+    if !trailing.is_empty() {
+        new_text.push(' ');
+        new_text.push_str(&trailing);
+    }
+    new_text.push(')');
 
     #[expect(clippy::mutable_key_type)]
     let mut changes = HashMap::with_capacity(1);
diff --git a/crates/service/src/refactorings/mod.rs b/crates/service/src/refactorings/mod.rs
index 7de13dc..653421b 100644
--- a/crates/service/src/refactorings/mod.rs
+++ b/crates/service/src/refactorings/mod.rs
@@ -1,3 +1,27 @@
 pub mod fix_invalid_mem_arg;
 pub mod func_header_split;
 pub mod params_join;
+
+use rowan::TextRange;
+use wat_syntax::{SyntaxElement, SyntaxKind, SyntaxNode};
+
+/// Comments in the range of the node, each followed by what separates it from the next token.
+fn comments_in_range(node: &SyntaxNode, range: TextRange) -> String {
+    node.descendants_with_tokens()
+        .filter_map(SyntaxElement::into_token)
+        .filter(|token| range.contains_range(token.text_range()))
+        .fold(String::new(), |mut text, token| {
+            match token.kind() {
+                SyntaxKind::LINE_COMMENT => {
+                    text.push_str(token.text());
+                    text.push('\n');
+                }
+                SyntaxKind::BLOCK_COMMENT => {
+                    text.push_str(token.text());
+                    text.push(' ');
+                }
+                _ => {}
+            }
+            text
+        })
+}
diff --git a/crates/service/src/refactorings/params_join.rs b/crates/service/src/refactorings/params_join.rs
index bfd66af..baedc49 100644
--- a/crates/service/src/refactorings/params_join.rs
+++ b/crates/service/src/refactorings/params_join.rs
@@ -1,3 +1,4 @@
+use super::comments_in_range;
 use crate::{files::FilesCtx, helpers, InternUri, LanguageService};
 use line_index::LineIndex;
 use lsp_types::{CodeAction, CodeActionKind, TextEdit, WorkspaceEdit};
@@ -35,13 +36,27 @@ pub fn act(
         return None;
     }
 
-    let mut new_text = rest
-        .iter()
-        .fold(format!("(param {first}"), |mut new_text, ty| {
-            new_text.push(' ');
-            new_text.push_str(&ty.to_string());
-            new_text
-        });
+    let params_range = TextRange::new(
+        first_node.text_range().start(),
+        params.last().unwrap_or(first_node).text_range().end(),
+    );
+    let comments = |start, end| comments_in_range(node, TextRange::new(start, end));
+    let mut new_text = format!(
+        "(param {}{first}",
+        comments(params_range.start(), first.text_range().start())
+    );
+    let mut end = first.text_range().end();
+    rest.iter().for_each(|ty| {
+        new_text.push(' ');
+        new_text.push_str(&comments(end, ty.text_range().start()));
+        new_text.push_str(&ty.to_string());
+        end = ty.text_range().end();
+    });
+    let trailing = comments(end, params_range.end());
+    if !trailing.is_empty() {
+        new_text.push(' ');
+        new_text.push_str(&trailing);
+    }
     new_text.push(')');
 
     #[expect(clippy::mutable_key_type)]
@@ -49,13 +64,7 @@ pub fn act(
     changes.insert(
         service.lookup_uri(uri),
         vec![TextEdit {
-            range: helpers::rowan_range_to_lsp_range(
-                line_index,
-                TextRange::new(
-                    first_node.text_range().start(),
-                    params.last().unwrap_or(first_node).text_range().end(),
-                ),
-            ),
+            range: helpers::rowan_range_to_lsp_range(line_index, params_range),
             new_text,
         }],
     );
-- 
2.43.0


From e8b8562bce5a9ab23fc2d1b7aab198048de3ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:53 +0000
Subject: [PATCH 38/45] fix: fixing a memory argument joined its value with the
 lane index behind it

---
 .../src/refactorings/fix_invalid_mem_arg.rs   | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/crates/service/src/refactorings/fix_invalid_mem_arg.rs b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
index 17f7600..a71e9af 100644
--- a/crates/service/src/refactorings/fix_invalid_mem_arg.rs
+++ b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
@@ -31,25 +31,25 @@ pub fn act(
                         }
                         _ => None,
                     });
-                    if let Some(range) = children
-                        .next()
-                        .filter(|element| {
-                            if let SyntaxElement::Token(token) = element {
-                                token.kind() == SyntaxKind::ERROR
-                                    && token.text().strip_prefix('=').is_some_and(|rest| {
-                                        rest.chars().all(|c| c.is_ascii_digit())
-                                    })
-                            } else {
-                                false
-                            }
-                        })
-                        .and(range)
-                    {
+                    let value = children.next().and_then(|element| match element {
+                        SyntaxElement::Token(token) if token.kind() == SyntaxKind::ERROR => token
+                            .text()
+                            .strip_prefix('=')
+                            .filter(|rest| rest.chars().all(|c| c.is_ascii_digit()))
+                            .map(|rest| rest.to_string()),
+                        _ => None,
+                    });
+                    if let Some((range, value)) = range.zip(value) {
                         text_edits.push(TextEdit {
                             range: helpers::rowan_range_to_lsp_range(line_index, range),
                             new_text: String::new(),
                         });
-                        if let Some(range) = check_after_eq(&mut children) {
+                        // the value may directly follow, then what comes next doesn't belong to it
+                        if let Some(range) = value
+                            .is_empty()
+                            .then(|| check_after_eq(&mut children))
+                            .flatten()
+                        {
                             text_edits.push(TextEdit {
                                 range: helpers::rowan_range_to_lsp_range(line_index, range),
                                 new_text: String::new(),
-- 
2.43.0


From 66c90c370e4f824007d80d42c46e6802d075e1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:06 +0000
Subject: [PATCH 39/45] fix: only the first of several content changes of a
 notification was applied

---
 crates/server/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index 0965923..5c85913 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -400,7 +400,7 @@ impl Server {
         params: DidChangeTextDocumentParams,
         conn: &Connection,
     ) -> anyhow::Result<()> {
-        if let Some(change) = params.content_changes.first() {
+        if let Some(change) = params.content_changes.last() {
             self.service
                 .commit(params.text_document.uri.clone(), change.text.clone());
             if !self.support_pull_diagnostics {
-- 
2.43.0


From e2ad5ff012dfcae625f713dad414dffa6d3c88cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:58 +0000
Subject: [PATCH 40/45] fix: unknown requests and requests with invalid params
 were never answered

---
 crates/server/src/server.rs | 130 +++++++++++++++++++++++++++++-------
 1 file changed, 107 insertions(+), 23 deletions(-)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index 5c85913..312b877 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -1,5 +1,5 @@
 use lsp_server::{
-    Connection, ExtractError, Message, Notification, Request, RequestId, Response, ResponseError,
+    Connection, ErrorCode, ExtractError, Message, Notification, Request, RequestId, Response, ResponseError,
 };
 use lsp_types::{
     notification::{
@@ -48,6 +48,7 @@ impl Server {
                     if conn.handle_shutdown(&req)? {
                         return Ok(());
                     }
+                    let id = req.id.clone();
                     match cast_req::<CallHierarchyPrepare>(req) {
                         Ok((id, params)) => {
                             conn.sender.send(Message::Response(Response {
@@ -60,7 +61,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<CallHierarchyIncomingCalls>(req) {
                         Ok((id, params)) => {
@@ -74,7 +78,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<CallHierarchyOutgoingCalls>(req) {
                         Ok((id, params)) => {
@@ -88,7 +95,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<CodeActionRequest>(req) {
                         Ok((id, params)) => {
@@ -102,7 +112,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<Completion>(req) {
                         Ok((id, params)) => {
@@ -116,7 +129,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<DocumentDiagnosticRequest>(req) {
                         Ok((id, params)) => {
@@ -130,7 +146,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<FoldingRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -144,7 +163,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<Formatting>(req) {
                         Ok((id, params)) => {
@@ -158,7 +180,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<RangeFormatting>(req) {
                         Ok((id, params)) => {
@@ -172,7 +197,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoDefinition>(req) {
                         Ok((id, params)) => {
@@ -186,7 +214,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoTypeDefinition>(req) {
                         Ok((id, params)) => {
@@ -200,7 +231,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoDeclaration>(req) {
                         Ok((id, params)) => {
@@ -214,7 +248,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<HoverRequest>(req) {
                         Ok((id, params)) => {
@@ -226,7 +263,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<InlayHintRequest>(req) {
                         Ok((id, params)) => {
@@ -240,7 +280,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<References>(req) {
                         Ok((id, params)) => {
@@ -254,7 +297,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<PrepareRenameRequest>(req) {
                         Ok((id, params)) => {
@@ -268,7 +314,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<Rename>(req) {
                         Ok((id, params)) => {
@@ -291,7 +340,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<SelectionRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -305,7 +357,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<SemanticTokensFullRequest>(req) {
                         Ok((id, params)) => {
@@ -319,7 +374,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<SemanticTokensRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -333,7 +391,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<DocumentSymbolRequest>(req) {
                         Ok((id, params)) => {
@@ -346,8 +407,18 @@ impl Server {
                             }))?;
                             continue;
                         }
-                        Err(ExtractError::MethodMismatch(..)) => continue,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::MethodMismatch(req)) => {
+                            conn.sender.send(Message::Response(Response::new_err(
+                                id,
+                                ErrorCode::MethodNotFound as i32,
+                                format!("unknown request: {}", req.method),
+                            )))?;
+                            continue;
+                        }
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            send_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                 }
                 Message::Notification(mut notification) => {
@@ -435,6 +506,19 @@ impl Server {
     }
 }
 
+fn send_invalid_params(
+    conn: &Connection,
+    id: RequestId,
+    error: serde_json::Error,
+) -> anyhow::Result<()> {
+    conn.sender.send(Message::Response(Response::new_err(
+        id,
+        ErrorCode::InvalidParams as i32,
+        error.to_string(),
+    )))?;
+    Ok(())
+}
+
 fn cast_req<R>(req: Request) -> Result<(RequestId, R::Params), ExtractError<Request>>
 where
     R: lsp_types::request::Request,
-- 
2.43.0


From 09a32ee0610a0871e15180999ab05a6e00a0bd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:53 +0000
Subject: [PATCH 41/45] fix: requests on documents that were never opened
 crashed the server

---
 crates/server/src/server.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index 312b877..2c00874 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -16,12 +16,14 @@ use lsp_types::{
     DidChangeTextDocumentParams, DidCloseTextDocumentParams, DidOpenTextDocumentParams,
     InitializeParams, PublishDiagnosticsParams, Uri,
 };
+use std::collections::HashSet;
 use wat_service::LanguageService;
 
 #[derive(Default)]
 pub struct Server {
     service: LanguageService,
     support_pull_diagnostics: bool,
+    documents: HashSet<String>,
 }
 
 impl Server {
@@ -49,6 +51,20 @@ impl Server {
                         return Ok(());
                     }
                     let id = req.id.clone();
+                    if let Some(uri) = req
+                        .params
+                        .pointer("/textDocument/uri")
+                        .or_else(|| req.params.pointer("/item/uri"))
+                        .and_then(|uri| uri.as_str())
+                        .filter(|uri| !self.documents.contains(*uri))
+                    {
+                        conn.sender.send(Message::Response(Response::new_err(
+                            id,
+                            ErrorCode::InvalidParams as i32,
+                            format!("unknown document: {uri}"),
+                        )))?;
+                        continue;
+                    }
                     match cast_req::<CallHierarchyPrepare>(req) {
                         Ok((id, params)) => {
                             conn.sender.send(Message::Response(Response {
@@ -458,8 +474,7 @@ impl Server {
         params: DidOpenTextDocumentParams,
         conn: &Connection,
     ) -> anyhow::Result<()> {
-        self.service
-            .commit(params.text_document.uri.clone(), params.text_document.text);
+        self.commit(params.text_document.uri.clone(), params.text_document.text);
         if !self.support_pull_diagnostics {
             self.publish_diagnostics(conn, params.text_document.uri)?;
         }
@@ -472,8 +487,7 @@ impl Server {
         conn: &Connection,
     ) -> anyhow::Result<()> {
         if let Some(change) = params.content_changes.last() {
-            self.service
-                .commit(params.text_document.uri.clone(), change.text.clone());
+            self.commit(params.text_document.uri.clone(), change.text.clone());
             if !self.support_pull_diagnostics {
                 self.publish_diagnostics(conn, params.text_document.uri)?;
             }
@@ -497,6 +511,11 @@ impl Server {
         Ok(())
     }
 
+    fn commit(&mut self, uri: Uri, text: String) {
+        self.documents.insert(uri.as_str().to_string());
+        self.service.commit(uri, text);
+    }
+
     fn publish_diagnostics(&self, conn: &Connection, uri: Uri) -> anyhow::Result<()> {
         conn.sender.send(Message::Notification(Notification {
             method: PublishDiagnostics::METHOD.to_string(),
-- 
2.43.0


From 14d62dc5f02d288703064fe9fbc56fbe7bb754c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:52 +0000
Subject: [PATCH 42/45] fix: NaN payloads with underscore before a hex letter
 were rejected

---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 1ca335b..4c0d1ab 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -266,7 +266,7 @@ fn float_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
     )
         .take()
         .verify(|text: &str| {
-            let is_hex = text.trim_start_matches(['+', '-']).starts_with("0x");
+            let is_hex = text.contains("0x");
             let mut chars = text.chars();
             while let Some(c) = chars.next() {
                 if c == '_'
-- 
2.43.0


From 9d37734de4d41a21e202142139ada53fde11394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:52 +0000
Subject: [PATCH 43/45] fix: formatting with a tab size of 0 crashed the server

---
 crates/service/src/features/formatting.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/features/formatting.rs b/crates/service/src/features/formatting.rs
index e6f24dc..c70ec8c 100644
--- a/crates/service/src/features/formatting.rs
+++ b/crates/service/src/features/formatting.rs
@@ -43,7 +43,8 @@ impl LanguageService {
 fn build_options(options: &FormattingOptions) -> FormatOptions {
     FormatOptions {
         layout: LayoutOptions {
-            indent_width: options.tab_size as usize,
+            // indentation must not be empty
+            indent_width: options.tab_size.max(1) as usize,
             use_tabs: !options.insert_spaces,
             ..Default::default()
         },
-- 
2.43.0


From 2937596da47d85d93d55b37aec1295a4560fc637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 44/45] fix: report string literals that are not closed or
 contain invalid escapes

A string that isn't closed on its line was accepted, and so were control
characters and escape sequences that WebAssembly doesn't know.
---
 crates/parser/src/parser/token.rs | 36 +++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 4c0d1ab..c9316fe 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -2,8 +2,8 @@ use super::{tok, GreenElement, GreenResult, Input};
 use crate::error::SyntaxError;
 use wat_syntax::SyntaxKind::*;
 use winnow::{
-    ascii::{hex_digit0, line_ending, multispace1, take_escaped, till_line_ending},
-    combinator::{alt, dispatch, empty, eof, fail, not, opt, peek, preceded, repeat, repeat_till},
+    ascii::{multispace1, take_escaped, till_line_ending},
+    combinator::{alt, dispatch, empty, fail, not, opt, peek, preceded, repeat, repeat_till},
     error::{ErrMode, FromRecoverableError, StrContext, StrContextValue},
     stream::{AsChar, Recover, Stream},
     token::{any, none_of, one_of, take_till, take_until, take_while},
@@ -184,14 +184,36 @@ fn string_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
     (
         '"',
         take_escaped(
-            none_of(['"', '\\', '\n', '\r']),
+            none_of(|c: char| matches!(c, '"' | '\\') || c.is_ascii_control()),
             '\\',
             dispatch! {any;
-                'u' => ('{', hex_digit0, '}').void(),
-                _ => empty,
+                'u' => ('{', unsigned_hex.verify(is_unicode_scalar), '}').void(),
+                't' | 'n' | 'r' | '"' | '\'' | '\\' => empty,
+                c if c.is_ascii_hexdigit() => one_of(AsChar::is_hex_digit).void(),
+                _ => fail,
             },
         ),
-        alt(("\"", peek(line_ending), eof)),
+        '"',
+    )
+        .take()
+        .parse_next(input)
+}
+fn is_unicode_scalar(digits: &str) -> bool {
+    !digits.ends_with('_')
+        && !digits.contains("__")
+        && u32::from_str_radix(&digits.replace('_', ""), 16)
+            .is_ok_and(|code| char::from_u32(code).is_some())
+}
+/// String literal which may be not closed or contain invalid characters or escapes.
+fn malformed_string<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
+    (
+        '"',
+        take_escaped(
+            none_of(['"', '\\', '\n', '\r']),
+            '\\',
+            none_of(['\n', '\r']),
+        ),
+        opt('"'),
     )
         .take()
         .parse_next(input)
@@ -294,7 +316,7 @@ pub(super) fn error_token<'s>(
         '(' | ')' if allow_parens => alt(("(", ")")),
         '(' | ')' => fail,
         // invalid string literal isn't accepted by `string_impl`, but we still need to consume it
-        '"' => alt((string_impl, "\"")),
+        '"' => alt((malformed_string, "\"")),
         c if is_id_char(c) => take_while(1.., is_id_char),
         // this must be in sync with `ws`, or some characters won't be consumed by any parsers
         _ => take_till(1.., |c: char| matches!(c, '(' | ')' | ' ' | '\t' | '\r' | '\n')),
-- 
2.43.0


From 22e61e08c66be68598dee2bdf20ace059dd4b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:17 +0000
Subject: [PATCH 45/45] fix: a number directly followed by a name isn't an
 index or limit

`1funcref` was read as a limit and a type, `1$f` as two indices.
---
 crates/parser/src/parser/token.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index c9316fe..dd11c93 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -3,7 +3,9 @@ use crate::error::SyntaxError;
 use wat_syntax::SyntaxKind::*;
 use winnow::{
     ascii::{multispace1, take_escaped, till_line_ending},
-    combinator::{alt, dispatch, empty, fail, not, opt, peek, preceded, repeat, repeat_till},
+    combinator::{
+        alt, dispatch, empty, fail, not, opt, peek, preceded, repeat, repeat_till, terminated,
+    },
     error::{ErrMode, FromRecoverableError, StrContext, StrContextValue},
     stream::{AsChar, Recover, Stream},
     token::{any, none_of, one_of, take_till, take_until, take_while},
@@ -233,7 +235,7 @@ fn int_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
 }
 
 pub(super) fn unsigned_int(input: &mut Input) -> GreenResult {
-    unsigned_int_impl
+    terminated(unsigned_int_impl, not(one_of(is_id_char)))
         .parse_next(input)
         .map(|text| tok(UNSIGNED_INT, text))
 }
-- 
2.43.0

