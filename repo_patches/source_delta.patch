From 44c4edf30ecaac6b1312f5e61ec6343af4d1bbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:17 +0000
Subject: [PATCH 01/25] Verification hooks behind cfg(ludtwig_verif)

---
 crates/ludtwig-parser/src/lib.rs    |  3 +++
 crates/ludtwig-parser/src/parser.rs | 37 +++++++++++++++++++++++++++++
 crates/ludtwig/src/check.rs         | 27 +++++++++++++++++++++
 crates/ludtwig/src/main.rs          |  1 +
 crates/ludtwig/src/process.rs       | 10 ++++++++
 5 files changed, 78 insertions(+)

diff --git a/crates/ludtwig-parser/src/lib.rs b/crates/ludtwig-parser/src/lib.rs
index aa0f2d8..28e6d6b 100644
--- a/crates/ludtwig-parser/src/lib.rs
+++ b/crates/ludtwig-parser/src/lib.rs
@@ -3,6 +3,7 @@
 #![allow(clippy::doc_markdown)]
 #![allow(clippy::elidable_lifetime_names)]
 #![allow(clippy::needless_continue)]
+#![allow(unexpected_cfgs)] // ludtwig_verif: see the verification hooks
 //! # Parser
 //! This is a handwritten top-down parser for the [twig templating language](https://twig.symfony.com/) combined with HTML.
 //! It's mostly developed together with the linter / formatter [ludtwig](https://github.com/MalteJanz/ludtwig).
@@ -110,6 +111,8 @@
 pub use parser::Parse;
 pub use parser::ParseError;
 pub use parser::parse;
+#[cfg(ludtwig_verif)]
+pub use parser::verif;
 
 use crate::lexer::lex;
 
diff --git a/crates/ludtwig-parser/src/parser.rs b/crates/ludtwig-parser/src/parser.rs
index e223aac..a137bd9 100644
--- a/crates/ludtwig-parser/src/parser.rs
+++ b/crates/ludtwig-parser/src/parser.rs
@@ -83,6 +83,43 @@ pub fn parse(input_text: &str) -> Parse {
     sink.finish()
 }
 
+/// Entry points for the verification harness (only compiled with `--cfg ludtwig_verif`).
+#[cfg(ludtwig_verif)]
+pub mod verif {
+    use super::{Parse, Parser, Sink, SyntaxKind, Token};
+    use crate::syntax::untyped::{TextRange, TextSize};
+
+    /// The tokens of the lexer.
+    #[must_use]
+    pub fn lex_tokens(input: &str) -> Vec<(SyntaxKind, &str, TextRange)> {
+        crate::lex(input)
+            .into_iter()
+            .map(|t| (t.kind, t.text, t.range))
+            .collect()
+    }
+
+    /// Run parser and sink on the given tokens (instead of on those of the lexer).
+    #[must_use]
+    pub fn parse_tokens(tokens: &[(SyntaxKind, &str)]) -> Parse {
+        let mut pos = TextSize::from(0);
+        let tokens: Vec<Token<'_>> = tokens
+            .iter()
+            .map(|(kind, text)| {
+                let end = pos + TextSize::of(*text);
+                let range = TextRange::new(pos, end);
+                pos = end;
+                Token {
+                    kind: *kind,
+                    text,
+                    range,
+                }
+            })
+            .collect();
+        let (events, errors) = Parser::new(&tokens).parse();
+        Sink::new(&tokens, events, errors).finish()
+    }
+}
+
 /// Result of the parser
 pub struct Parse {
     pub green_node: GreenNode,
diff --git a/crates/ludtwig/src/check.rs b/crates/ludtwig/src/check.rs
index 10b97de..9ed17cb 100644
--- a/crates/ludtwig/src/check.rs
+++ b/crates/ludtwig/src/check.rs
@@ -21,6 +21,33 @@ pub mod naming_convention;
 pub mod rule;
 pub mod rules;
 
+/// Read access to rule results for the verification harness (only compiled with `--cfg ludtwig_verif`).
+#[cfg(ludtwig_verif)]
+pub mod verif {
+    use super::rule::{CheckNote, CheckResult, CheckSuggestion, Severity};
+
+    pub struct ResultView<'a> {
+        pub rule_name: &'static str,
+        pub severity: Severity,
+        pub message: &'a str,
+        pub primary: Option<&'a CheckNote>,
+        pub secondary: &'a [CheckNote],
+        pub suggestions: &'a [CheckSuggestion],
+    }
+
+    #[must_use]
+    pub fn view(r: &CheckResult) -> ResultView<'_> {
+        ResultView {
+            rule_name: r.rule_name,
+            severity: r.severity,
+            message: &r.message,
+            primary: r.primary.as_ref(),
+            secondary: &r.secondary,
+            suggestions: &r.suggestions,
+        }
+    }
+}
+
 #[allow(clippy::too_many_lines)]
 pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
     let mut check_results = vec![];
diff --git a/crates/ludtwig/src/main.rs b/crates/ludtwig/src/main.rs
index ee4d269..bdbd170 100644
--- a/crates/ludtwig/src/main.rs
+++ b/crates/ludtwig/src/main.rs
@@ -3,6 +3,7 @@
 #![allow(clippy::doc_markdown)]
 #![allow(clippy::elidable_lifetime_names)]
 #![allow(clippy::needless_continue)]
+#![allow(unexpected_cfgs)] // ludtwig_verif: see the verification hooks
 
 #[global_allocator]
 static GLOBAL: mimalloc::MiMalloc = mimalloc::MiMalloc;
diff --git a/crates/ludtwig/src/process.rs b/crates/ludtwig/src/process.rs
index 981b35f..c439233 100644
--- a/crates/ludtwig/src/process.rs
+++ b/crates/ludtwig/src/process.rs
@@ -55,6 +55,16 @@ pub fn process_file(path: PathBuf, cli_context: CliContext) -> Result<(), FilePr
     run_analysis(path, file_content, cli_context)
 }
 
+/// Entry point for the verification harness (only compiled with `--cfg ludtwig_verif`).
+#[cfg(ludtwig_verif)]
+pub fn verif_run_analysis(
+    path: PathBuf,
+    content: String,
+    cli_context: CliContext,
+) -> Result<(), FileProcessingError> {
+    run_analysis(path, content, cli_context)
+}
+
 fn run_analysis(
     path: PathBuf,
     original_file_content: String,
-- 
2.43.0


From a798e6ba1d7ea72d14506190edad3d5c05103440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:17 +0000
Subject: [PATCH 02/25] fix: lhs_expression/rhs_expression of chained binary
 expressions

In 'a ?? b is c' the left operand is a binary expression that is not
wrapped in an expression node, so lhs_expression returned the right
operand and rhs_expression nothing.
---
 crates/ludtwig-parser/src/syntax/typed.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/typed.rs b/crates/ludtwig-parser/src/syntax/typed.rs
index bb188ce..e68220c 100644
--- a/crates/ludtwig-parser/src/syntax/typed.rs
+++ b/crates/ludtwig-parser/src/syntax/typed.rs
@@ -317,17 +317,25 @@ impl TwigBinaryExpression {
             })
     }
 
+    /// The expression on the left side of the operator.
+    /// `None` if the left side is itself an (unwrapped) binary expression like in `a + b + c`.
     #[must_use]
     pub fn lhs_expression(&self) -> Option<TwigExpression> {
-        self.syntax.children().find_map(TwigExpression::cast)
+        let operator_start = self.operator()?.text_range().start();
+        self.syntax
+            .children()
+            .filter_map(TwigExpression::cast)
+            .find(|e| e.syntax().text_range().end() <= operator_start)
     }
 
+    /// The expression on the right side of the operator.
     #[must_use]
     pub fn rhs_expression(&self) -> Option<TwigExpression> {
+        let operator_end = self.operator()?.text_range().end();
         self.syntax
             .children()
             .filter_map(TwigExpression::cast)
-            .nth(1)
+            .find(|e| e.syntax().text_range().start() >= operator_end)
     }
 }
 
-- 
2.43.0


From 5bbd9a82355761ce036a978f95a071c1279da5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:45 +0000
Subject: [PATCH 03/25] fix: panic on an incomplete twig tag at the end of raw
 text

---
 crates/ludtwig-parser/src/grammar/html.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index d922240..bb629e0 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -106,7 +106,7 @@ fn parse_html_raw_text(
                 false
             },
             |p| {
-                if parse_any_twig(p, parse_html_raw_text_inner).is_none() {
+                if parse_any_twig(p, parse_html_raw_text_inner).is_none() && !p.at_end() {
                     p.bump(); // just bump anything until the early exit closure stops us
                 }
             },
@@ -135,7 +135,7 @@ fn parse_html_raw_text(
             false
         },
         |p| {
-            if parse_any_twig(p, parse_html_raw_text_inner).is_none() {
+            if parse_any_twig(p, parse_html_raw_text_inner).is_none() && !p.at_end() {
                 p.bump(); // just bump anything until the early exit closure stops us
             }
         },
-- 
2.43.0


From dbb465887c7edc09182d90a1bd05cd718153daa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:45 +0000
Subject: [PATCH 04/25] fix: panic on a parenthesised argument list without an
 arrow

---
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index f5f0d88..1dab76a 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -439,15 +439,15 @@ pub(crate) fn parse_twig_arrow_function(
     parser: &mut Parser,
     last_node: CompletedMarker,
 ) -> CompletedMarker {
-    debug_assert!(parser.at(T!["=>"]));
-
     let outer = parser.precede(last_node);
 
-    // bump the arrow
-    parser.bump();
+    // the arrow is missing in malformed input like `(a, b)`
+    let arrow_found = parser
+        .expect(T!["=>"], TWIG_EXPRESSION_RECOVERY_SET)
+        .is_some();
 
     // parse closure expression
-    if parse_twig_expression(parser).is_none() {
+    if arrow_found && parse_twig_expression(parser).is_none() {
         parser.add_error(ParseErrorBuilder::new(
             "single twig expression as the body of the closure",
         ));
-- 
2.43.0


From 8a22e9cf9b763113350a4b930b04eb729f96fea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:30 +0000
Subject: [PATCH 05/25] fix: 'not in' and 'is not' before a bracket, carriage
 return or other non-word character

---
 crates/ludtwig-parser/src/syntax/untyped.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/untyped.rs b/crates/ludtwig-parser/src/syntax/untyped.rs
index 3c87813..553cf8a 100644
--- a/crates/ludtwig-parser/src/syntax/untyped.rs
+++ b/crates/ludtwig-parser/src/syntax/untyped.rs
@@ -551,12 +551,17 @@ pub enum SyntaxKind {
     ROOT, // top-level node: list of elements inside the template (must be last item of enum for safety check!)
 }
 
+/// characters which may follow inside of a word
+fn continues_word(c: char) -> bool {
+    c.is_ascii_alphanumeric() || c == '_' || c == '-'
+}
+
 /// workaround to properly lex 'not insider' to TK_NOT + TK_WS + TK_WORD instead of TK_NOT_IN + TK_WORD
 fn cb_not(lexer: &mut Lexer<'_, SyntaxKind>) -> SyntaxKind {
     const SUFFIX: &str = " in";
     if lexer.remainder().starts_with(SUFFIX) {
         let after = lexer.remainder().get(SUFFIX.len()..);
-        if after.is_none_or(|s| s.starts_with([' ', '\t', '\n']) || s.is_empty()) {
+        if after.is_none_or(|s| !s.starts_with(continues_word)) {
             lexer.bump(SUFFIX.len());
             SyntaxKind::TK_NOT_IN
         } else {
@@ -572,7 +577,7 @@ fn cb_is(lexer: &mut Lexer<'_, SyntaxKind>) -> SyntaxKind {
     const SUFFIX: &str = " not";
     if lexer.remainder().starts_with(SUFFIX) {
         let after = lexer.remainder().get(SUFFIX.len()..);
-        if after.is_none_or(|s| s.starts_with([' ', '\t', '\n']) || s.is_empty()) {
+        if after.is_none_or(|s| !s.starts_with(continues_word)) {
             lexer.bump(SUFFIX.len());
             SyntaxKind::TK_IS_NOT
         } else {
-- 
2.43.0


From 91fdf9a5989319b9e38a4324d03d7dcf810b579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 06/25] fix: line-ending with Windows line endings

---
 crates/ludtwig/src/check/rules/line_ending.rs | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/line_ending.rs b/crates/ludtwig/src/check/rules/line_ending.rs
index ad1ef0c..cc4c70b 100644
--- a/crates/ludtwig/src/check/rules/line_ending.rs
+++ b/crates/ludtwig/src/check/rules/line_ending.rs
@@ -4,7 +4,6 @@ use std::sync::OnceLock;
 use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxToken, TextRange, TextSize};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
-use crate::config::LineEnding;
 
 pub struct RuleLineEnding;
 
@@ -14,7 +13,7 @@ impl Rule for RuleLineEnding {
     }
 
     fn check_token(&self, token: SyntaxToken, ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
-        static INVALID_REGEX: OnceLock<Regex> = OnceLock::new();
+        static LINE_ENDING_REGEX: OnceLock<Regex> = OnceLock::new();
 
         if token.kind() != SyntaxKind::TK_LINE_BREAK {
             return None;
@@ -25,19 +24,14 @@ impl Rule for RuleLineEnding {
 
         // compile regex only once and store it in a static
         // because this function is called in a hot loop this does improve it's performance significantly
-        let invalid_regex = INVALID_REGEX.get_or_init(|| {
-            Regex::new(&format!(
-                r"({})",
-                match ctx.config().format.line_ending {
-                    LineEnding::UnixLF => "\r\n", // inverse: look for windows line endings
-                    LineEnding::WindowsCRLF => "[^\r]?\n", // inverse: look for unix line endings
-                }
-            ))
-            .unwrap()
-        });
+        let line_ending_regex =
+            LINE_ENDING_REGEX.get_or_init(|| Regex::new(r"\r?\n").unwrap());
 
         let mut results = vec![];
-        for invalid in invalid_regex.find_iter(token.text()) {
+        for invalid in line_ending_regex
+            .find_iter(token.text())
+            .filter(|line_ending| line_ending.as_str() != correct_line_ending)
+        {
             #[allow(clippy::cast_possible_truncation)]
             let range = TextRange::new(
                 token.text_range().start() + TextSize::from(invalid.start() as u32),
-- 
2.43.0


From 73c607027d9bfe3358527645ae10adfc637547aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 07/25] fix: whitespace-between-line-breaks edits the content
 of strings and pre

---
 .../src/check/rules/whitespace_between_line_breaks.rs      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs b/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
index e35d248..70748af 100644
--- a/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
+++ b/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
@@ -9,12 +9,17 @@ impl Rule for RuleWhitespaceBetweenLineBreaks {
         "whitespace-between-line-breaks"
     }
 
-    fn check_token(&self, token: SyntaxToken, _ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
+    fn check_token(&self, token: SyntaxToken, ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
         // rule only inspects line breaks
         if token.kind() != SyntaxKind::TK_LINE_BREAK {
             return None;
         }
 
+        // the content of these nodes must be left as it is
+        if ctx.traversal_ctx().inside_trivia_sensitive_node {
+            return None;
+        }
+
         let may_be_ws = token.next_token()?;
         if may_be_ws.kind() != SyntaxKind::TK_WHITESPACE {
             return None;
-- 
2.43.0


From 6cafc76b1501540b37cfd4e8c75b83f5207ceaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 08/25] fix: indentation and line break rules edit the content
 of strings and of elements containing strings

---
 crates/ludtwig/src/check.rs                   | 38 +++++++--------
 crates/ludtwig/src/check/rules/indentation.rs | 46 +++++--------------
 2 files changed, 32 insertions(+), 52 deletions(-)

diff --git a/crates/ludtwig/src/check.rs b/crates/ludtwig/src/check.rs
index 9ed17cb..ce33dd1 100644
--- a/crates/ludtwig/src/check.rs
+++ b/crates/ludtwig/src/check.rs
@@ -9,7 +9,7 @@ use ludtwig_parser::syntax::typed;
 use ludtwig_parser::syntax::typed::{
     AstNode, HtmlStringInner, HtmlTag, LudtwigDirectiveIgnore, TwigLiteralStringInner,
 };
-use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxToken, WalkEvent, debug_tree};
+use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxNode, SyntaxToken, WalkEvent, debug_tree};
 
 use crate::ProcessingEvent;
 use crate::check::rule::{
@@ -83,6 +83,7 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
 
     // iterate through syntax tree
     let mut ignored_rules: Vec<String> = vec![];
+    let mut outermost_trivia_sensitive_node: Option<SyntaxNode> = None;
     let mut preorder = file_context.tree_root.preorder_with_tokens();
     while let Some(walk_event) = preorder.next() {
         match walk_event {
@@ -118,16 +119,10 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
                         }
 
                         // adjust traversal context when entering special nodes
-                        if HtmlStringInner::can_cast(n.kind())
-                            || TwigLiteralStringInner::can_cast(n.kind())
+                        if outermost_trivia_sensitive_node.is_none() && is_trivia_sensitive_node(&n)
                         {
+                            outermost_trivia_sensitive_node = Some(n.clone());
                             run_context.traversal_ctx.inside_trivia_sensitive_node = true;
-                        } else if let Some(t) = HtmlTag::cast(n.clone()) {
-                            if let Some("pre" | "textarea" | "script" | "style") =
-                                t.name().as_ref().map(SyntaxToken::text)
-                            {
-                                run_context.traversal_ctx.inside_trivia_sensitive_node = true;
-                            }
                         }
 
                         // run node checks for every rule
@@ -182,16 +177,9 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
 
                 // adjust traversal context when exiting special nodes
                 if let SyntaxElement::Node(n) = element {
-                    if HtmlStringInner::can_cast(n.kind())
-                        || TwigLiteralStringInner::can_cast(n.kind())
-                    {
+                    if outermost_trivia_sensitive_node.as_ref() == Some(&n) {
+                        outermost_trivia_sensitive_node = None;
                         run_context.traversal_ctx.inside_trivia_sensitive_node = false;
-                    } else if let Some(t) = HtmlTag::cast(n) {
-                        if let Some("pre" | "textarea" | "script" | "style") =
-                            t.name().as_ref().map(SyntaxToken::text)
-                        {
-                            run_context.traversal_ctx.inside_trivia_sensitive_node = false;
-                        }
                     }
                 }
             }
@@ -201,6 +189,20 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
     check_results
 }
 
+/// Whether whitespace and line breaks inside of this node have a meaning and must be left as they are.
+pub fn is_trivia_sensitive_node(n: &SyntaxNode) -> bool {
+    if HtmlStringInner::can_cast(n.kind()) || TwigLiteralStringInner::can_cast(n.kind()) {
+        return true;
+    }
+
+    HtmlTag::cast(n.clone()).is_some_and(|t| {
+        matches!(
+            t.name().as_ref().map(SyntaxToken::text),
+            Some("pre" | "textarea" | "script" | "style")
+        )
+    })
+}
+
 pub fn get_rule_context_suggestions(
     check_results: &[CheckResult],
 ) -> Vec<(&'static str, &CheckSuggestion)> {
diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index b8466f6..e2d593a 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -1,9 +1,10 @@
-use ludtwig_parser::syntax::typed::{AstNode, HtmlStartingTag, HtmlTag, LudtwigDirectiveIgnore};
+use ludtwig_parser::syntax::typed::{AstNode, HtmlStartingTag, LudtwigDirectiveIgnore};
 use ludtwig_parser::syntax::untyped::{
     PreorderWithTokens, SyntaxElement, SyntaxKind, SyntaxNode, SyntaxToken, TextRange, TextSize,
     WalkEvent,
 };
 
+use crate::check::is_trivia_sensitive_node;
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
 pub struct RuleIndentation;
@@ -18,7 +19,7 @@ impl Rule for RuleIndentation {
         let mut line_break_encountered = true;
         let mut indentation_level = 0; // whole indentation levels like nested elements
         let mut indentation_substeps = 0; // additional spaces for alignment (like attributes)
-        let mut inside_trivia_sensitive_node = false;
+        let mut outermost_trivia_sensitive_node: Option<SyntaxNode> = None;
         let mut is_ignored = false;
 
         let indent_block_children = ctx.config().format.indent_children_of_blocks;
@@ -36,7 +37,7 @@ impl Rule for RuleIndentation {
                             line_break_encountered = true;
                         }
                         SyntaxElement::Token(t) if !is_ignored && line_break_encountered => {
-                            if !inside_trivia_sensitive_node {
+                            if outermost_trivia_sensitive_node.is_none() {
                                 check_results.append(&mut self.handle_first_token_in_line(
                                     &t,
                                     indentation_level,
@@ -56,11 +57,11 @@ impl Rule for RuleIndentation {
                                 continue;
                             }
 
-                            Self::check_for_trivia_sensitivity(
-                                &mut inside_trivia_sensitive_node,
-                                &n,
-                                WalkMode::Enter,
-                            );
+                            if outermost_trivia_sensitive_node.is_none()
+                                && is_trivia_sensitive_node(&n)
+                            {
+                                outermost_trivia_sensitive_node = Some(n.clone());
+                            }
 
                             Self::check_indentation_level(
                                 &mut indentation_level,
@@ -81,11 +82,9 @@ impl Rule for RuleIndentation {
                     if let SyntaxElement::Node(n) = element {
                         self.check_for_rule_ignore_leave(&mut is_ignored, &n);
 
-                        Self::check_for_trivia_sensitivity(
-                            &mut inside_trivia_sensitive_node,
-                            &n,
-                            WalkMode::Leave,
-                        );
+                        if outermost_trivia_sensitive_node.as_ref() == Some(&n) {
+                            outermost_trivia_sensitive_node = None;
+                        }
 
                         Self::check_indentation_level(
                             &mut indentation_level,
@@ -242,27 +241,6 @@ impl RuleIndentation {
         }
     }
 
-    fn check_for_trivia_sensitivity(
-        inside_trivia_sensitive_node: &mut bool,
-        n: &SyntaxNode,
-        walk_mode: WalkMode,
-    ) {
-        if let Some(t) = HtmlTag::cast(n.clone()) {
-            if let Some("pre" | "textarea" | "script" | "style") =
-                t.name().as_ref().map(SyntaxToken::text)
-            {
-                match walk_mode {
-                    WalkMode::Enter => {
-                        *inside_trivia_sensitive_node = true;
-                    }
-                    WalkMode::Leave => {
-                        *inside_trivia_sensitive_node = false;
-                    }
-                }
-            }
-        }
-    }
-
     fn check_indentation_level(
         indentation_level: &mut usize,
         indent_block_children: bool,
-- 
2.43.0


From 8a7e30bbb87617183b08f3afa6941cc1a734ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 09/25] fix: indentation reports the text behind an erroneous
 region at the start of the file

---
 crates/ludtwig/src/check/rules/indentation.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index e2d593a..a3c524a 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -32,6 +32,7 @@ impl Rule for RuleIndentation {
                     match element {
                         SyntaxElement::Node(n) if n.kind() == SyntaxKind::ERROR => {
                             tree_iter.skip_subtree(); // Skip everything under error nodes!
+                            line_break_encountered = false;
                         }
                         SyntaxElement::Token(t) if t.kind() == SyntaxKind::TK_LINE_BREAK => {
                             line_break_encountered = true;
-- 
2.43.0


From 2a4d2be5fb0556d1f03d9ebf3e9733658d5cd119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 10/25] fix: nested ludtwig-ignore directives for the same rule
 end the outer one

---
 crates/ludtwig/src/check.rs                   |  4 ++-
 crates/ludtwig/src/check/rule.rs              | 27 ++++++--------
 .../src/check/rules/html_duplicate_id.rs      |  9 ++---
 crates/ludtwig/src/check/rules/indentation.rs | 35 +++++++++----------
 crates/ludtwig/src/check/rules/line_ending.rs |  3 +-
 .../src/check/rules/twig_block_duplicate.rs   |  9 ++---
 6 files changed, 41 insertions(+), 46 deletions(-)

diff --git a/crates/ludtwig/src/check.rs b/crates/ludtwig/src/check.rs
index ce33dd1..1f3db1b 100644
--- a/crates/ludtwig/src/check.rs
+++ b/crates/ludtwig/src/check.rs
@@ -9,7 +9,9 @@ use ludtwig_parser::syntax::typed;
 use ludtwig_parser::syntax::typed::{
     AstNode, HtmlStringInner, HtmlTag, LudtwigDirectiveIgnore, TwigLiteralStringInner,
 };
-use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxNode, SyntaxToken, WalkEvent, debug_tree};
+use ludtwig_parser::syntax::untyped::{
+    SyntaxElement, SyntaxNode, SyntaxToken, WalkEvent, debug_tree,
+};
 
 use crate::ProcessingEvent;
 use crate::check::rule::{
diff --git a/crates/ludtwig/src/check/rule.rs b/crates/ludtwig/src/check/rule.rs
index 4b3b1cf..528ef75 100644
--- a/crates/ludtwig/src/check/rule.rs
+++ b/crates/ludtwig/src/check/rule.rs
@@ -60,14 +60,13 @@ pub trait RuleExt: Rule {
     /// when entering a node. Returns `true` if the subtree was skipped entirely (blanket ignore).
     fn check_for_rule_ignore_enter(
         &self,
-        is_ignored: &mut bool,
+        ignored_node: &mut Option<SyntaxNode>,
         tree_iter: &mut Preorder,
         n: &SyntaxNode,
     ) -> bool;
 
-    /// Helper for `check_root` implementations: reset the ignore flag when leaving a node
-    /// whose previous sibling was a `LudtwigDirectiveIgnore` targeting this rule.
-    fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode);
+    /// Helper for `check_root` implementations: reset the ignored node when leaving it.
+    fn check_for_rule_ignore_leave(&self, ignored_node: &mut Option<SyntaxNode>, n: &SyntaxNode);
 }
 
 impl<R: Rule> RuleExt for R {
@@ -84,7 +83,7 @@ impl<R: Rule> RuleExt for R {
 
     fn check_for_rule_ignore_enter(
         &self,
-        is_ignored: &mut bool,
+        ignored_node: &mut Option<SyntaxNode>,
         tree_iter: &mut Preorder,
         n: &SyntaxNode,
     ) -> bool {
@@ -98,24 +97,18 @@ impl<R: Rule> RuleExt for R {
                 }
 
                 if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is now ignored
-                    *is_ignored = true;
+                    // this rule is now ignored (until the outermost ignored node is left)
+                    ignored_node.get_or_insert_with(|| n.clone());
                 }
             }
         }
         false
     }
 
-    fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode) {
-        if let Some(node) = n.prev_sibling() {
-            if let Some(directive) = LudtwigDirectiveIgnore::cast(node) {
-                let ignored_rules = directive.get_rules();
-
-                if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is no longer ignored
-                    *is_ignored = false;
-                }
-            }
+    fn check_for_rule_ignore_leave(&self, ignored_node: &mut Option<SyntaxNode>, n: &SyntaxNode) {
+        if ignored_node.as_ref() == Some(n) {
+            // this rule is no longer ignored
+            *ignored_node = None;
         }
     }
 }
diff --git a/crates/ludtwig/src/check/rules/html_duplicate_id.rs b/crates/ludtwig/src/check/rules/html_duplicate_id.rs
index 57705be..ef27d47 100644
--- a/crates/ludtwig/src/check/rules/html_duplicate_id.rs
+++ b/crates/ludtwig/src/check/rules/html_duplicate_id.rs
@@ -14,7 +14,7 @@ impl Rule for RuleHtmlDuplicateId {
     fn check_root(&self, node: SyntaxNode, _ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
         let mut id_table: HashMap<String, HtmlAttribute> = HashMap::new();
 
-        let mut is_ignored = false;
+        let mut ignored_node = None;
         let mut check_results = vec![];
         let mut tree_iter = node.preorder();
         while let Some(walk) = tree_iter.next() {
@@ -24,10 +24,11 @@ impl Rule for RuleHtmlDuplicateId {
                         tree_iter.skip_subtree();
                         continue;
                     }
-                    if self.check_for_rule_ignore_enter(&mut is_ignored, &mut tree_iter, &element) {
+                    if self.check_for_rule_ignore_enter(&mut ignored_node, &mut tree_iter, &element)
+                    {
                         continue;
                     }
-                    if is_ignored {
+                    if ignored_node.is_some() {
                         continue;
                     }
 
@@ -83,7 +84,7 @@ impl Rule for RuleHtmlDuplicateId {
                     }
                 }
                 WalkEvent::Leave(element) => {
-                    self.check_for_rule_ignore_leave(&mut is_ignored, &element);
+                    self.check_for_rule_ignore_leave(&mut ignored_node, &element);
                 }
             }
         }
diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index a3c524a..7779ab8 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -20,7 +20,7 @@ impl Rule for RuleIndentation {
         let mut indentation_level = 0; // whole indentation levels like nested elements
         let mut indentation_substeps = 0; // additional spaces for alignment (like attributes)
         let mut outermost_trivia_sensitive_node: Option<SyntaxNode> = None;
-        let mut is_ignored = false;
+        let mut ignored_node = None;
 
         let indent_block_children = ctx.config().format.indent_children_of_blocks;
 
@@ -37,7 +37,9 @@ impl Rule for RuleIndentation {
                         SyntaxElement::Token(t) if t.kind() == SyntaxKind::TK_LINE_BREAK => {
                             line_break_encountered = true;
                         }
-                        SyntaxElement::Token(t) if !is_ignored && line_break_encountered => {
+                        SyntaxElement::Token(t)
+                            if ignored_node.is_none() && line_break_encountered =>
+                        {
                             if outermost_trivia_sensitive_node.is_none() {
                                 check_results.append(&mut self.handle_first_token_in_line(
                                     &t,
@@ -53,8 +55,11 @@ impl Rule for RuleIndentation {
                             line_break_encountered = false;
                         }
                         SyntaxElement::Node(n) => {
-                            if self.check_for_rule_ignore_enter(&mut is_ignored, &mut tree_iter, &n)
-                            {
+                            if self.check_for_rule_ignore_enter(
+                                &mut ignored_node,
+                                &mut tree_iter,
+                                &n,
+                            ) {
                                 continue;
                             }
 
@@ -81,7 +86,7 @@ impl Rule for RuleIndentation {
                 }
                 WalkEvent::Leave(element) => {
                     if let SyntaxElement::Node(n) = element {
-                        self.check_for_rule_ignore_leave(&mut is_ignored, &n);
+                        Self::check_for_rule_ignore_leave(&mut ignored_node, &n);
 
                         if outermost_trivia_sensitive_node.as_ref() == Some(&n) {
                             outermost_trivia_sensitive_node = None;
@@ -207,7 +212,7 @@ impl RuleIndentation {
 
     fn check_for_rule_ignore_enter(
         &self,
-        is_ignored: &mut bool,
+        ignored_node: &mut Option<SyntaxNode>,
         tree_iter: &mut PreorderWithTokens,
         n: &SyntaxNode,
     ) -> bool {
@@ -221,24 +226,18 @@ impl RuleIndentation {
                 }
 
                 if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is now ignored
-                    *is_ignored = true;
+                    // this rule is now ignored (until the outermost ignored node is left)
+                    ignored_node.get_or_insert_with(|| n.clone());
                 }
             }
         }
         false
     }
 
-    fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode) {
-        if let Some(node) = n.prev_sibling() {
-            if let Some(directive) = LudtwigDirectiveIgnore::cast(node) {
-                let ignored_rules = directive.get_rules();
-
-                if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is no longer ignored
-                    *is_ignored = false;
-                }
-            }
+    fn check_for_rule_ignore_leave(ignored_node: &mut Option<SyntaxNode>, n: &SyntaxNode) {
+        if ignored_node.as_ref() == Some(n) {
+            // this rule is no longer ignored
+            *ignored_node = None;
         }
     }
 
diff --git a/crates/ludtwig/src/check/rules/line_ending.rs b/crates/ludtwig/src/check/rules/line_ending.rs
index cc4c70b..5e26e9e 100644
--- a/crates/ludtwig/src/check/rules/line_ending.rs
+++ b/crates/ludtwig/src/check/rules/line_ending.rs
@@ -24,8 +24,7 @@ impl Rule for RuleLineEnding {
 
         // compile regex only once and store it in a static
         // because this function is called in a hot loop this does improve it's performance significantly
-        let line_ending_regex =
-            LINE_ENDING_REGEX.get_or_init(|| Regex::new(r"\r?\n").unwrap());
+        let line_ending_regex = LINE_ENDING_REGEX.get_or_init(|| Regex::new(r"\r?\n").unwrap());
 
         let mut results = vec![];
         for invalid in line_ending_regex
diff --git a/crates/ludtwig/src/check/rules/twig_block_duplicate.rs b/crates/ludtwig/src/check/rules/twig_block_duplicate.rs
index 12d44c3..4fd9d4d 100644
--- a/crates/ludtwig/src/check/rules/twig_block_duplicate.rs
+++ b/crates/ludtwig/src/check/rules/twig_block_duplicate.rs
@@ -15,7 +15,7 @@ impl Rule for RuleTwigBlockDuplicate {
         // keep track of some state during tree traversal
         let mut block_table: HashMap<String, TwigBlock> = HashMap::new();
 
-        let mut is_ignored = false;
+        let mut ignored_node = None;
         let mut check_results = vec![];
         let mut tree_iter = node.preorder();
         while let Some(walk) = tree_iter.next() {
@@ -24,10 +24,11 @@ impl Rule for RuleTwigBlockDuplicate {
                     if element.kind() == SyntaxKind::ERROR {
                         tree_iter.skip_subtree(); // Skip everything under error nodes!
                     }
-                    if self.check_for_rule_ignore_enter(&mut is_ignored, &mut tree_iter, &element) {
+                    if self.check_for_rule_ignore_enter(&mut ignored_node, &mut tree_iter, &element)
+                    {
                         continue;
                     }
-                    if is_ignored {
+                    if ignored_node.is_some() {
                         continue;
                     }
 
@@ -58,7 +59,7 @@ impl Rule for RuleTwigBlockDuplicate {
                     }
                 }
                 WalkEvent::Leave(element) => {
-                    self.check_for_rule_ignore_leave(&mut is_ignored, &element);
+                    self.check_for_rule_ignore_leave(&mut ignored_node, &element);
                 }
             }
         }
-- 
2.43.0


From d4bab746ed09f8c51e9ca13a3f0b3d63ab9ff1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 11/25] fix: overlapping suggestions that are not next to each
 other corrupt the file

---
 crates/ludtwig/src/process.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/crates/ludtwig/src/process.rs b/crates/ludtwig/src/process.rs
index c439233..e4040d8 100644
--- a/crates/ludtwig/src/process.rs
+++ b/crates/ludtwig/src/process.rs
@@ -140,21 +140,34 @@ pub fn iteratively_apply_suggestions(
         }
 
         // sort by syntax range
-        suggestions
-            .sort_by(|(_, sug_a), (_, sug_b)| sug_a.syntax_range.ordering(sug_b.syntax_range));
+        suggestions.sort_by_key(|(_, sug)| (sug.syntax_range.start(), sug.syntax_range.end()));
 
-        // filter out overlapping suggestions
+        // filter out overlapping suggestions by comparing each one
+        // with the previous one that reaches the furthest
         let mut overlapping_rules = HashSet::new();
-        for ((rule_a, sug_a), (rule_b, sug_b)) in suggestions.iter().zip(suggestions.iter().skip(1))
-        {
-            if sug_a.syntax_range.ordering(sug_b.syntax_range).is_eq() {
-                if rule_a == rule_b {
-                    return Err(FileProcessingError::OverlappingSuggestionInSingleRule {
-                        rule_name: (*rule_a).to_string(),
-                    });
+        let mut furthest: Option<(&str, &CheckSuggestion)> = None;
+        for (rule_b, sug_b) in &suggestions {
+            if overlapping_rules.contains(rule_b) {
+                continue;
+            }
+
+            if let Some((rule_a, sug_a)) = furthest {
+                if sug_a.syntax_range.ordering(sug_b.syntax_range).is_eq() {
+                    if rule_a == *rule_b {
+                        return Err(FileProcessingError::OverlappingSuggestionInSingleRule {
+                            rule_name: rule_a.to_string(),
+                        });
+                    }
+
+                    overlapping_rules.insert(*rule_b);
+                    continue;
                 }
+            }
 
-                overlapping_rules.insert(*rule_b);
+            if furthest
+                .is_none_or(|(_, sug_a)| sug_a.syntax_range.end() <= sug_b.syntax_range.end())
+            {
+                furthest = Some((*rule_b, *sug_b));
             }
         }
         let suggestions = suggestions
-- 
2.43.0


From 2193e2744aab741185a9bac47d09b63f30f127ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 12/25] fix: suggestions for symbolic operators without
 whitespace or with an operator on the left side change the meaning

---
 crates/ludtwig/src/check.rs                   |  1 +
 crates/ludtwig/src/check/operator.rs          | 77 +++++++++++++++++++
 .../ludtwig/src/check/rules/twig_logic_and.rs |  3 +-
 .../ludtwig/src/check/rules/twig_logic_or.rs  |  3 +-
 .../check/rules/twig_use_is_not_same_as.rs    | 18 ++---
 .../src/check/rules/twig_use_is_same_as.rs    | 18 ++---
 6 files changed, 98 insertions(+), 22 deletions(-)
 create mode 100644 crates/ludtwig/src/check/operator.rs

diff --git a/crates/ludtwig/src/check.rs b/crates/ludtwig/src/check.rs
index 1f3db1b..b8cbdba 100644
--- a/crates/ludtwig/src/check.rs
+++ b/crates/ludtwig/src/check.rs
@@ -20,6 +20,7 @@ use crate::check::rule::{
 use crate::process::FileContext;
 
 pub mod naming_convention;
+pub mod operator;
 pub mod rule;
 pub mod rules;
 
diff --git a/crates/ludtwig/src/check/operator.rs b/crates/ludtwig/src/check/operator.rs
new file mode 100644
index 0000000..cd5e24b
--- /dev/null
+++ b/crates/ludtwig/src/check/operator.rs
@@ -0,0 +1,77 @@
+use ludtwig_parser::T;
+use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression, TwigUnaryExpression, support};
+use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxNode, SyntaxToken, TextRange};
+
+use crate::check::rule::CheckResult;
+
+/// Whether the operator directly follows another token, so a keyword in its place needs a space in front.
+fn needs_space_before(operator: &SyntaxToken) -> bool {
+    operator.prev_token().is_some_and(|t| !t.kind().is_trivia())
+}
+
+/// Replacement text for a symbolic operator (like `&&`), which still is a separate word
+/// if the operator has no whitespace around it.
+pub fn keyword_operator(operator: &SyntaxToken, keyword: &str) -> String {
+    let before = if needs_space_before(operator) {
+        " "
+    } else {
+        ""
+    };
+    let after = match operator.next_token() {
+        Some(t) if !t.kind().is_trivia() => " ",
+        _ => "",
+    };
+
+    format!("{before}{keyword}{after}")
+}
+
+/// Suggest to replace `lhs === rhs` with `lhs is same as(rhs)` (or whatever test is given).
+pub fn suggest_test_instead_of_operator(
+    result: CheckResult,
+    binary: &TwigBinaryExpression,
+    operator: &SyntaxToken,
+    test: &str,
+) -> CheckResult {
+    let Some(rhs) = binary.rhs_expression() else {
+        return result;
+    };
+
+    let space = if needs_space_before(operator) {
+        " "
+    } else {
+        ""
+    };
+    let mut result = result.suggestion(
+        operator.text_range().cover(rhs.syntax().text_range()),
+        format!("{space}{test}({})", rhs.syntax().text().to_string().trim()),
+        "Try this instead",
+    );
+
+    // a test has a higher precedence than most of the operators
+    let lhs = binary
+        .syntax()
+        .children()
+        .find(|n| n.text_range().end() <= operator.text_range().start());
+    if let Some(lhs) = lhs.filter(contains_other_operator) {
+        let start = lhs
+            .descendants_with_tokens()
+            .filter_map(SyntaxElement::into_token)
+            .find(|t| !t.kind().is_trivia())
+            .map_or(lhs.text_range().start(), |t| t.text_range().start());
+        let end = lhs.text_range().end();
+        result = result
+            .suggestion(TextRange::empty(start), "(", "Keep the left side together")
+            .suggestion(TextRange::empty(end), ")", "Keep the left side together");
+    }
+
+    result
+}
+
+fn contains_other_operator(lhs: &SyntaxNode) -> bool {
+    match TwigBinaryExpression::cast(lhs.clone()) {
+        Some(binary) => binary.operator().is_some_and(|operator| {
+            ![T!["==="], T!["!=="], T!["is"], T!["is not"]].contains(&operator.kind())
+        }),
+        None => support::child::<TwigUnaryExpression>(lhs).is_some(),
+    }
+}
diff --git a/crates/ludtwig/src/check/rules/twig_logic_and.rs b/crates/ludtwig/src/check/rules/twig_logic_and.rs
index 77dd1d0..1080b98 100644
--- a/crates/ludtwig/src/check/rules/twig_logic_and.rs
+++ b/crates/ludtwig/src/check/rules/twig_logic_and.rs
@@ -2,6 +2,7 @@ use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
+use crate::check::operator::keyword_operator;
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
 pub struct RuleTwigLogicAnd;
@@ -21,7 +22,7 @@ impl Rule for RuleTwigLogicAnd {
                 .primary_note(binary_expr_op.text_range(), "help: change this operator")
                 .suggestion(
                     binary_expr_op.text_range(),
-                    "and",
+                    keyword_operator(&binary_expr_op, "and"),
                     "Try this operator instead",
                 );
 
diff --git a/crates/ludtwig/src/check/rules/twig_logic_or.rs b/crates/ludtwig/src/check/rules/twig_logic_or.rs
index 7d151f9..db53b70 100644
--- a/crates/ludtwig/src/check/rules/twig_logic_or.rs
+++ b/crates/ludtwig/src/check/rules/twig_logic_or.rs
@@ -2,6 +2,7 @@ use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
+use crate::check::operator::keyword_operator;
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
 pub struct RuleTwigLogicOr;
@@ -22,7 +23,7 @@ impl Rule for RuleTwigLogicOr {
                 .primary_note(binary_expr_op.text_range(), "help: change this operator")
                 .suggestion(
                     binary_expr_op.text_range(),
-                    "or",
+                    keyword_operator(&binary_expr_op, "or"),
                     "Try this operator instead",
                 );
 
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
index 8dc0ede..7a7d10f 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
@@ -1,3 +1,4 @@
+use crate::check::operator::suggest_test_instead_of_operator;
 use crate::check::rule::{CheckResult, RuleExt, RuleRunContext};
 use crate::{Rule, Severity};
 use ludtwig_parser::T;
@@ -19,22 +20,19 @@ impl Rule for RuleTwigUseIsNotSameAs {
             return None;
         }
 
-        let mut result = self
+        let result = self
             .create_result(Severity::Error, "!== is not a valid twig operator")
             .primary_note(
                 op.text_range(),
                 "This is not a valid Twig operator, try 'is not same as(condition)' instead",
             );
 
-        if let Some(rhs) = binary.rhs_expression() {
-            result = result.suggestion(
-                op.text_range().cover(rhs.syntax().text_range()),
-                format!("is not same as({})", rhs.syntax().text().to_string().trim()),
-                "Try this instead",
-            );
-        }
-
-        Some(vec![result])
+        Some(vec![suggest_test_instead_of_operator(
+            result,
+            &binary,
+            &op,
+            "is not same as",
+        )])
     }
 }
 
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
index fda2aa9..2edca8e 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
@@ -2,6 +2,7 @@ use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
+use crate::check::operator::suggest_test_instead_of_operator;
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
 pub struct RuleTwigUseIsSameAs;
@@ -19,22 +20,19 @@ impl Rule for RuleTwigUseIsSameAs {
             return None;
         }
 
-        let mut result = self
+        let result = self
             .create_result(Severity::Error, "=== is not a valid twig operator")
             .primary_note(
                 op.text_range(),
                 "This is not a valid Twig operator, try 'is same as(condition)' instead",
             );
 
-        if let Some(rhs) = binary.rhs_expression() {
-            result = result.suggestion(
-                op.text_range().cover(rhs.syntax().text_range()),
-                format!("is same as({})", rhs.syntax().text().to_string().trim()),
-                "Try this instead",
-            );
-        }
-
-        Some(vec![result])
+        Some(vec![suggest_test_instead_of_operator(
+            result,
+            &binary,
+            &op,
+            "is same as",
+        )])
     }
 }
 
-- 
2.43.0


From db0f772ab180aaad12bdffe3f0059f8bfc8c55ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 13/25] fix: naming suggestions that are not names

---
 crates/ludtwig/src/check/naming_convention.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/ludtwig/src/check/naming_convention.rs b/crates/ludtwig/src/check/naming_convention.rs
index cba14c6..806cf62 100644
--- a/crates/ludtwig/src/check/naming_convention.rs
+++ b/crates/ludtwig/src/check/naming_convention.rs
@@ -77,8 +77,10 @@ pub fn try_make_snake_case(original: &str, screaming: bool) -> Option<String> {
         attempt.push(to_ascii_case(&c));
     }
 
-    // validate suggestion
-    if is_valid_ascii_alpha_snake_case(&attempt, screaming) {
+    // validate suggestion (which also has to be a name)
+    if attempt.starts_with(|c: char| c.is_ascii_alphabetic())
+        && is_valid_ascii_alpha_snake_case(&attempt, screaming)
+    {
         return Some(attempt);
     }
 
@@ -152,15 +154,18 @@ pub fn try_make_kebab_case(original: &str) -> Option<String> {
         }
 
         // make an minus before each uppercase and replace it with lowercase
-        if c.is_ascii_uppercase() {
+        // (not behind a special first character)
+        if c.is_ascii_uppercase() && ![":", "@", "#"].contains(&attempt.as_str()) {
             attempt.push('-');
         }
 
         attempt.push(c.to_ascii_lowercase());
     }
 
-    // validate suggestion
-    if is_valid_alphanumeric_kebab_case(&attempt) {
+    // validate suggestion (which also has to be a name)
+    if attempt.contains(|c: char| c.is_ascii_alphanumeric())
+        && is_valid_alphanumeric_kebab_case(&attempt)
+    {
         return Some(attempt);
     }
 
-- 
2.43.0


From b01cd3105e5f1376a22772f693bae4efb8084f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 14/25] fix: block name suggestions that are keywords or differ
 from the name behind endblock

---
 .../check/rules/twig_block_name_snake_case.rs | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs b/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs
index fcec3e8..22b5861 100644
--- a/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs
+++ b/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs
@@ -1,6 +1,7 @@
 use crate::check::naming_convention::{is_valid_ascii_alpha_snake_case, try_make_snake_case};
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
-use ludtwig_parser::syntax::typed::{AstNode, TwigStartingBlock};
+use ludtwig_parser::T;
+use ludtwig_parser::syntax::typed::{AstNode, TwigStartingBlock, support};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
 pub struct RuleTwigBlockNameSnakeCase;
@@ -11,7 +12,8 @@ impl Rule for RuleTwigBlockNameSnakeCase {
     }
 
     fn check_node(&self, node: SyntaxNode, _ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
-        let block_name = TwigStartingBlock::cast(node)?.name()?;
+        let starting_block = TwigStartingBlock::cast(node)?;
+        let block_name = starting_block.name()?;
         if !is_valid_ascii_alpha_snake_case(block_name.text(), false) {
             // name is not valid ascii snake case
             let mut result = self
@@ -22,12 +24,28 @@ impl Rule for RuleTwigBlockNameSnakeCase {
                 );
 
             // try make a suggestion
-            if let Some(suggested_name) = try_make_snake_case(block_name.text(), false) {
+            if let Some(suggested_name) = try_make_snake_case(block_name.text(), false)
+                .filter(|suggested_name| is_possible_block_name(suggested_name))
+            {
                 result = result.suggestion(
                     block_name.text_range(),
-                    suggested_name,
+                    suggested_name.clone(),
                     "Try this name instead",
                 );
+
+                // the optional name behind endblock must stay the same as the opening one
+                let ending_name = starting_block
+                    .twig_block()
+                    .and_then(|block| block.ending_block())
+                    .and_then(|ending_block| support::token(ending_block.syntax(), T![word]))
+                    .filter(|ending_name| ending_name.text() == block_name.text());
+                if let Some(ending_name) = ending_name {
+                    result = result.suggestion(
+                        ending_name.text_range(),
+                        suggested_name,
+                        "Try this name instead",
+                    );
+                }
             }
 
             return Some(vec![result]);
@@ -36,6 +54,13 @@ impl Rule for RuleTwigBlockNameSnakeCase {
     }
 }
 
+/// Some words have a meaning on their own and can't be used as a block name (like `if`).
+fn is_possible_block_name(name: &str) -> bool {
+    ludtwig_parser::parse(&format!("{{% block {name} %}}{{% endblock %}}"))
+        .errors
+        .is_empty()
+}
+
 #[cfg(test)]
 mod tests {
     use expect_test::expect;
-- 
2.43.0


From 30341efdf1231ed462ecb01297251128098716f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 15/25] fix: changing to double quotes turns plain text into a
 string interpolation

---
 crates/ludtwig/src/check/rules/twig_string_quotation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ludtwig/src/check/rules/twig_string_quotation.rs b/crates/ludtwig/src/check/rules/twig_string_quotation.rs
index 00d8676..f211f20 100644
--- a/crates/ludtwig/src/check/rules/twig_string_quotation.rs
+++ b/crates/ludtwig/src/check/rules/twig_string_quotation.rs
@@ -68,6 +68,10 @@ pub fn make_changed_quotes_suggestion_if_possible(
         return result; // TODO: could still try to transform the string with more effort...
     }
 
+    if correct_quote == '"' && inner_text.to_string().contains("#{") {
+        return result; // would become a string interpolation inside of double quotes
+    }
+
     // opening quote
     match twig_string.get_opening_quote() {
         Some(quote) => {
-- 
2.43.0


From bdf1e502f57644c11fd323f3cea602e4027d415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:16 +0000
Subject: [PATCH 16/25] fix: a less-than sign at the end of a line is parsed as
 an element

---
 crates/ludtwig-parser/src/grammar/html.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index bb629e0..9accd3b 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -26,10 +26,11 @@ static HTML_RAW_TEXT_ELEMENTS: &[&str] = &["script", "style", "textarea", "title
 pub(super) fn parse_any_html(parser: &mut Parser) -> Option<CompletedMarker> {
     if parser.at(T!["<"])
         && parser.peek_nth_token(1).is_some_and(|t| {
-            t.kind != T![ws] && t.kind != T![number] && !GENERAL_RECOVERY_SET.contains(&t.kind)
+            !matches!(t.kind, T![ws] | T![lb] | T![number])
+                && !GENERAL_RECOVERY_SET.contains(&t.kind)
         })
     {
-        // '<' should not be followed by EOF, a ws, a number or RECOVERY_SET token,
+        // '<' should not be followed by EOF, a ws, a line break, a number or RECOVERY_SET token,
         // because then it is considered as arbitrary text (and parsed by the last else block)
         Some(parse_html_element(parser))
     } else if parser.at(T!["<!--"]) {
@@ -57,7 +58,8 @@ fn parse_html_text(parser: &mut Parser) -> Option<CompletedMarker> {
     fn parser_at_less_than_non_word(p: &mut Parser) -> bool {
         p.at(T!["<"])
             && p.peek_nth_token(1).is_none_or(|t| {
-                t.kind == T![ws] || t.kind == T![number] || GENERAL_RECOVERY_SET.contains(&t.kind)
+                matches!(t.kind, T![ws] | T![lb] | T![number])
+                    || GENERAL_RECOVERY_SET.contains(&t.kind)
             })
     }
 
-- 
2.43.0


From a6329f539a6e7c614f3b48fc53fa80c482ab130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 17/25] fix: indentation is inserted in front of a closing
 quote on its own line

---
 crates/ludtwig/src/check/rules/indentation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index 7779ab8..b73766c 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -35,7 +35,8 @@ impl Rule for RuleIndentation {
                             line_break_encountered = false;
                         }
                         SyntaxElement::Token(t) if t.kind() == SyntaxKind::TK_LINE_BREAK => {
-                            line_break_encountered = true;
+                            // whitespace behind it belongs to the content of a trivia sensitive node
+                            line_break_encountered = outermost_trivia_sensitive_node.is_none();
                         }
                         SyntaxElement::Token(t)
                             if ignored_node.is_none() && line_break_encountered =>
-- 
2.43.0


From 48afbafd874865b4bc23a0bfa5603e2290c7f89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 18/25] fix: quotes around an unquoted attribute value include
 the whitespace in front of it

---
 .../src/check/rules/html_string_quotation.rs      | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/html_string_quotation.rs b/crates/ludtwig/src/check/rules/html_string_quotation.rs
index 44ced4e..2f7a47b 100644
--- a/crates/ludtwig/src/check/rules/html_string_quotation.rs
+++ b/crates/ludtwig/src/check/rules/html_string_quotation.rs
@@ -1,5 +1,7 @@
 use ludtwig_parser::syntax::typed::{AstNode, HtmlString};
-use ludtwig_parser::syntax::untyped::{SyntaxNode, SyntaxNodeExt, TextRange, TextSize};
+use ludtwig_parser::syntax::untyped::{
+    SyntaxElement, SyntaxNode, SyntaxNodeExt, TextRange, TextSize,
+};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -62,8 +64,17 @@ pub fn make_changed_quotes_suggestion_if_possible(
             result = result.suggestion(quote.text_range(), correct_quote, "Try this quote instead");
         }
         _ => {
+            // whitespace in front of an unquoted value is not part of it
+            let start = inner
+                .syntax()
+                .descendants_with_tokens()
+                .filter_map(SyntaxElement::into_token)
+                .find(|t| !t.kind().is_trivia())
+                .map_or(inner.syntax().text_range().start(), |t| {
+                    t.text_range().start()
+                });
             result = result.suggestion(
-                TextRange::at(inner.syntax().text_range().start(), TextSize::from(0)),
+                TextRange::at(start, TextSize::from(0)),
                 correct_quote,
                 "Try this quote instead",
             );
-- 
2.43.0


From 819358c25189fbe2ed260aee3af160dd3757ade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 19/25] fix: replacing 'raw()' keeps the parentheses behind the
 new filter

---
 crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs b/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
index 0a4ec0f..2f7c452 100644
--- a/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
+++ b/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
@@ -36,7 +36,10 @@ impl Rule for RuleTwigJsonEncodeEscapeJs {
                 "help: replace 'raw' with escape('js')",
             )
             .suggestion(
-                right_name_token.text_range(),
+                // including empty arguments like in 'raw()'
+                right_name_token
+                    .text_range()
+                    .cover_offset(right_operand.syntax().text_range().end()),
                 "escape('js')",
                 "Try this filter instead",
             );
-- 
2.43.0


From e5095f8b7dbf39985e76822fe762193f369bff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 20/25] fix: html_tag() of attributes inside of twig structures

An attribute inside of a twig block or condition was not recognised as part
of a tag, so its name was never checked.
---
 crates/ludtwig-parser/src/syntax/typed.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/typed.rs b/crates/ludtwig-parser/src/syntax/typed.rs
index e68220c..b213b8a 100644
--- a/crates/ludtwig-parser/src/syntax/typed.rs
+++ b/crates/ludtwig-parser/src/syntax/typed.rs
@@ -273,11 +273,8 @@ impl HtmlAttribute {
     /// Parent starting html tag
     #[must_use]
     pub fn html_tag(&self) -> Option<HtmlStartingTag> {
-        // first parent is HtmlAttributeList, the parent of that is the tag itself
-        self.syntax
-            .parent()?
-            .parent()
-            .and_then(HtmlStartingTag::cast)
+        // there can be twig structures (like '{% if %}') between the tag and the attribute
+        self.syntax.ancestors().find_map(HtmlStartingTag::cast)
     }
 }
 
-- 
2.43.0


From d5d39b79edf5133afe8d320f3b97e72ea7e79094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 21/25] fix: suggestions for chained '===' and '!==' change the
 grouping when applied alone

---
 crates/ludtwig/src/check/operator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig/src/check/operator.rs b/crates/ludtwig/src/check/operator.rs
index cd5e24b..5838d69 100644
--- a/crates/ludtwig/src/check/operator.rs
+++ b/crates/ludtwig/src/check/operator.rs
@@ -69,9 +69,9 @@ pub fn suggest_test_instead_of_operator(
 
 fn contains_other_operator(lhs: &SyntaxNode) -> bool {
     match TwigBinaryExpression::cast(lhs.clone()) {
-        Some(binary) => binary.operator().is_some_and(|operator| {
-            ![T!["==="], T!["!=="], T!["is"], T!["is not"]].contains(&operator.kind())
-        }),
+        Some(binary) => binary
+            .operator()
+            .is_some_and(|operator| ![T!["is"], T!["is not"]].contains(&operator.kind())),
         None => support::child::<TwigUnaryExpression>(lhs).is_some(),
     }
 }
-- 
2.43.0


From c57689d069eba350b6de7ebbd9773467da1c4f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 22/25] fix: a blank behind a backslash or '#' in a string, and
 an escaped backslash in front of the closing quote

---
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index 1dab76a..7818a3b 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -96,11 +96,16 @@ pub(crate) fn parse_twig_string(
         parser,
         |p| p.at(quote_kind),
         |p| {
-            if p.at_following(&[T!["\\"], quote_kind]) {
-                // escaped quote should be consumed
+            if p.at(T!["\\"]) {
+                // directly following escaped quote or backslash should be consumed
+                let is_escape = p
+                    .peek_nth_token(1)
+                    .is_some_and(|t| t.kind == quote_kind || t.kind == T!["\\"]);
                 p.bump();
-                p.bump();
-            } else if p.at_following(&[T!["#"], T!["{"]]) {
+                if is_escape {
+                    p.bump();
+                }
+            } else if p.at(T!["#"]) && p.peek_nth_token(1).is_some_and(|t| t.kind == T!["{"]) {
                 if !interpolation_allowed {
                     let opening_token = p.bump();
                     let interpolation_error = ParseErrorBuilder::new(
-- 
2.43.0


From 4a42dc8f751350472b6b7ce297ebe932504ce4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 23/25] fix: whitespace control and the end of a comment
 directly behind a word

---
 crates/ludtwig-parser/src/lexer.rs | 70 +++++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 10 deletions(-)

diff --git a/crates/ludtwig-parser/src/lexer.rs b/crates/ludtwig-parser/src/lexer.rs
index d3dedc2..d6e83e1 100644
--- a/crates/ludtwig-parser/src/lexer.rs
+++ b/crates/ludtwig-parser/src/lexer.rs
@@ -1,5 +1,8 @@
+use std::ops::Range;
+
 use logos::Logos;
 
+use crate::T;
 use crate::syntax::untyped::{SyntaxKind, TextRange, TextSize};
 
 /// Lex the source code into a Vec of tokens with their corresponding span (position in source code).
@@ -9,27 +12,74 @@ pub(crate) fn lex(source: &str) -> Vec<Token<'_>> {
     // Pre-allocate based on input size: roughly 1 token per 4 bytes for typical Twig/HTML
     let mut result = Vec::with_capacity(source.len() / 4);
 
+    let mut inside_html_comment = false;
     while let Some(kind) = lexer.next() {
-        let range = {
-            let span = lexer.span();
-            let start = TextSize::try_from(span.start)
-                .expect("lexer span range should fit into a u32 (file should be smaller than 4GB)");
-            let end = TextSize::try_from(span.end)
-                .expect("lexer span range should fit into a u32 (file should be smaller than 4GB)");
-            TextRange::new(start, end)
-        };
-
         let kind = kind.unwrap_or(SyntaxKind::TK_UNKNOWN);
+        let span = lexer.span();
+
+        match kind {
+            T!["<!--"] => inside_html_comment = true,
+            T!["-->"] => inside_html_comment = false,
+            T![word] => {
+                if let Some(split) =
+                    split_closing_delimiter(lexer.slice(), lexer.remainder(), inside_html_comment)
+                {
+                    // the word itself and the closing delimiter including its minus
+                    let split = span.start + split;
+                    for range in [span.start..split, split..split + 3] {
+                        let kind = SyntaxKind::lexer(&source[range.clone()]).next();
+                        result.push(Token {
+                            kind: kind.and_then(Result::ok).unwrap_or(SyntaxKind::TK_UNKNOWN),
+                            text: &source[range.clone()],
+                            range: text_range(&range),
+                        });
+                    }
+
+                    lexer.bump(split + 3 - span.end);
+                    inside_html_comment = false;
+                    continue;
+                }
+            }
+            _ => {}
+        }
+
         result.push(Token {
             kind,
             text: lexer.slice(),
-            range,
+            range: text_range(&span),
         });
     }
 
     result
 }
 
+fn text_range(span: &Range<usize>) -> TextRange {
+    let start = TextSize::try_from(span.start)
+        .expect("lexer span range should fit into a u32 (file should be smaller than 4GB)");
+    let end = TextSize::try_from(span.end)
+        .expect("lexer span range should fit into a u32 (file should be smaller than 4GB)");
+    TextRange::new(start, end)
+}
+
+/// Where a closing delimiter starts inside of a word, because the `-` at the end of the word belongs to
+/// the delimiter (like in `{{ word-}}` or `<!-- word-->`).
+fn split_closing_delimiter(
+    word: &str,
+    remainder: &str,
+    inside_html_comment: bool,
+) -> Option<usize> {
+    let is_twig_closing = ["}}", "%}", "#}"].iter().any(|s| remainder.starts_with(s));
+    let minus = if is_twig_closing {
+        "-"
+    } else if inside_html_comment && remainder.starts_with('>') {
+        "--"
+    } else {
+        return None;
+    };
+
+    word.strip_suffix(minus).map(str::len)
+}
+
 #[derive(Debug, Clone, Eq, PartialEq)]
 pub(crate) struct Token<'source> {
     pub(crate) kind: SyntaxKind,
-- 
2.43.0


From 90102f94bd63299480ebffc8315e517ebb7db947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:42 +0000
Subject: [PATCH 24/25] fix: missing operands, arguments, elements and values
 of Twig expressions are accepted silently

---
 .../src/grammar/twig/expression.rs            | 19 ++++++++++-----
 .../src/grammar/twig/literal.rs               | 24 +++++++++++++++----
 .../ludtwig-parser/src/grammar/twig/tags.rs   |  8 +++++--
 3 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index 9a7caf4..24b6551 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -169,6 +169,9 @@ pub(crate) fn parse_twig_expression_binding_power_rhs(
         // recurse
         let m = parser.precede(lhs);
         let parsed_rhs = parse_twig_expression_binding_power(parser, right_binding_power).is_some();
+        if !parsed_rhs {
+            parser.add_error(ParseErrorBuilder::new("twig expression"));
+        }
         lhs = parser.complete(m, SyntaxKind::TWIG_BINARY_EXPRESSION);
 
         if !parsed_rhs {
@@ -286,13 +289,13 @@ fn parse_paren_expression(parser: &mut Parser) -> (Marker, bool) {
             let expr_m = parser.precede(lit_m);
             let lhs = parser.complete(expr_m, SyntaxKind::TWIG_EXPRESSION);
             parse_twig_expression_binding_power_rhs(parser, 0, lhs);
-        } else {
+        } else if parse_twig_expression_binding_power(parser, 0).is_none() {
             // found a real expression, so it can't be a arrow function at this point anymore
-            parse_twig_expression_binding_power(parser, 0);
+            parser.add_error(ParseErrorBuilder::new("twig expression"));
         }
-    } else {
+    } else if parse_twig_expression_binding_power(parser, 0).is_none() {
         // found a real expression, so it can't be a arrow function at this point anymore
-        parse_twig_expression_binding_power(parser, 0);
+        parser.add_error(ParseErrorBuilder::new("twig expression"));
     }
 
     parser.expect(T![")"], TWIG_EXPRESSION_RECOVERY_SET);
@@ -308,7 +311,9 @@ fn parse_paren_arrow_function(parser: &mut Parser, m: Marker) -> CompletedMarker
         |p| p.at(T![")"]),
         |p| {
             p.expect(T![","], TWIG_EXPRESSION_RECOVERY_SET);
-            parse_twig_name(p);
+            if parse_twig_name(p).is_none() {
+                p.add_error(ParseErrorBuilder::new("argument name"));
+            }
         },
     );
 
@@ -329,7 +334,9 @@ fn parse_unary_expression(parser: &mut Parser) -> CompletedMarker {
         .unary_binding_power()
         .expect("'-', '+', 'not' and '...' should have a binding power");
 
-    parse_twig_expression_binding_power(parser, right_binding_power);
+    if parse_twig_expression_binding_power(parser, right_binding_power).is_none() {
+        parser.add_error(ParseErrorBuilder::new("twig expression"));
+    }
 
     parser.complete(m, SyntaxKind::TWIG_UNARY_EXPRESSION)
 }
diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index 7818a3b..e2cd66f 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -153,7 +153,9 @@ fn parse_twig_array(parser: &mut Parser) -> CompletedMarker {
         parser,
         |p| p.at(T!["]"]),
         |p| {
-            parse_twig_expression(p);
+            if parse_twig_expression(p).is_none() && p.at(T![","]) {
+                p.add_error(ParseErrorBuilder::new("twig expression"));
+            }
 
             if p.at(T![","]) {
                 // consume separator
@@ -196,7 +198,9 @@ pub(crate) fn parse_twig_hash(parser: &mut Parser) -> CompletedMarker {
         parser,
         |p| p.at(T!["}"]),
         |p| {
-            parse_twig_hash_pair(p);
+            if parse_twig_hash_pair(p).is_none() && p.at(T![","]) {
+                p.add_error(ParseErrorBuilder::new("key of a twig hash"));
+            }
 
             if p.at(T![","]) {
                 // consume separator
@@ -213,6 +217,7 @@ pub(crate) fn parse_twig_hash(parser: &mut Parser) -> CompletedMarker {
 }
 
 fn parse_twig_hash_pair(parser: &mut Parser) -> Option<CompletedMarker> {
+    let is_name = !parser.at_set(&[T![number], T!["'"], T!["\""], T!["("]]);
     let key = if parser.at(T![number]) {
         let m = parse_twig_number(parser);
         let preceded = parser.precede(m);
@@ -248,6 +253,9 @@ fn parse_twig_hash_pair(parser: &mut Parser) -> Option<CompletedMarker> {
             parser.add_error(ParseErrorBuilder::new("value as twig expression"));
             parser.recover(TWIG_EXPRESSION_RECOVERY_SET);
         }
+    } else if !is_name {
+        // only a name can stand for key and value
+        parser.add_error(ParseErrorBuilder::new(":"));
     }
 
     let preceded = parser.precede(key);
@@ -281,7 +289,9 @@ pub(crate) fn parse_twig_filter(
             parser,
             |p| p.at(T![")"]),
             |p| {
-                parse_twig_function_argument(p);
+                if parse_twig_function_argument(p).is_none() && p.at(T![","]) {
+                    p.add_error(ParseErrorBuilder::new("argument"));
+                }
                 if p.at(T![","]) {
                     p.bump();
                 } else if !p.at(T![")"]) {
@@ -403,7 +413,9 @@ pub(crate) fn parse_twig_function(
         parser,
         |p| p.at(T![")"]),
         |p| {
-            parse_twig_function_argument(p);
+            if parse_twig_function_argument(p).is_none() && p.at(T![","]) {
+                p.add_error(ParseErrorBuilder::new("argument"));
+            }
             if p.at(T![","]) {
                 p.bump();
             } else if !p.at(T![")"]) {
@@ -470,7 +482,9 @@ pub(crate) fn parse_twig_function_argument(parser: &mut Parser) -> Option<Comple
         let named_arg_m = parser.start();
         parser.bump();
         parser.expect(T!["="], TWIG_EXPRESSION_RECOVERY_SET);
-        parse_twig_expression(parser);
+        if parse_twig_expression(parser).is_none() {
+            parser.add_error(ParseErrorBuilder::new("twig expression"));
+        }
         Some(parser.complete(named_arg_m, SyntaxKind::TWIG_NAMED_ARGUMENT))
     } else {
         parse_twig_expression(parser)
diff --git a/crates/ludtwig-parser/src/grammar/twig/tags.rs b/crates/ludtwig-parser/src/grammar/twig/tags.rs
index 3dfbfca..7578ca5 100644
--- a/crates/ludtwig-parser/src/grammar/twig/tags.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/tags.rs
@@ -325,7 +325,9 @@ fn parse_twig_macro(
         parser,
         |p| p.at_set(&[T!["%}"], T!["-%}"], T!["~%}"], T![")"]]),
         |p| {
-            parse_twig_function_argument(p);
+            if parse_twig_function_argument(p).is_none() && p.at(T![","]) {
+                p.add_error(ParseErrorBuilder::new("argument"));
+            }
             if p.at(T![","]) {
                 p.bump();
             } else if !p.at_set(&[T!["%}"], T!["-%}"], T!["~%}"], T![")"]]) {
@@ -586,7 +588,9 @@ fn parse_twig_apply(
                 parser,
                 |p| p.at_set(&[T!["%}"], T!["-%}"], T!["~%}"], T![")"]]),
                 |p| {
-                    parse_twig_function_argument(p);
+                    if parse_twig_function_argument(p).is_none() && p.at(T![","]) {
+                        p.add_error(ParseErrorBuilder::new("argument"));
+                    }
                     if p.at(T![","]) {
                         p.bump();
                     } else if !p.at_set(&[T!["%}"], T!["-%}"], T!["~%}"], T![")"]]) {
-- 
2.43.0


From e23a126cd1d6d67f99faf582fc50572f33c3ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 25/25] fix: an unclosed element inside of a component tag
 swallows its endcomponent

---
 crates/ludtwig-parser/src/grammar/twig/tags.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/ludtwig-parser/src/grammar/twig/tags.rs b/crates/ludtwig-parser/src/grammar/twig/tags.rs
index 7578ca5..32fbe12 100644
--- a/crates/ludtwig-parser/src/grammar/twig/tags.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/tags.rs
@@ -38,6 +38,7 @@ pub(crate) fn at_twig_termination_tag(p: &mut Parser) -> bool {
         T!["endcache"],
         T!["endsw_silent_feature_call"],
         T!["endtrans"],
+        T!["endcomponent"],
     ];
 
     if !p.at_twig_block_open() {
-- 
2.43.0

