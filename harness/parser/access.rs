//! C08: typed accessors.
use crate::rt::*;
use ludtwig_parser::syntax::typed::*;
use ludtwig_parser::syntax::untyped::SyntaxKind::*;
use ludtwig_parser::syntax::untyped::*;

struct C<'a> { n: SyntaxNode, text: &'a str, ok: bool, code: u32 }
impl C<'_> {
    fn inside(&self, what: &str, r: TextRange) { check(self.n.text_range().contains_range(r), self.code, || format!("{what} of {:?} lies outside of it in {:?}", self.n, self.text)); }
    fn tok(&self, what: &str, t: Option<SyntaxToken>, must: bool) -> Option<SyntaxToken> {
        if let Some(t) = &t { self.inside(what, t.text_range()); }
        if must && self.ok { self.req(t.is_some(), what) }
        t
    }
    fn node<N: AstNode<Language = TemplateLanguage>>(&self, what: &str, t: Option<N>, must: bool) -> Option<N> {
        if let Some(t) = &t { self.inside(what, t.syntax().text_range()); }
        if must && self.ok { self.req(t.is_some(), what) }
        t
    }
    /// what the accessor returns is a direct part of the node, also in texts with syntax errors
    fn own_tok(&self, what: &str, t: Option<SyntaxToken>, must: bool) -> Option<SyntaxToken> { if let Some(t) = &t { self.req(t.parent().as_ref() == Some(&self.n), what); } self.tok(what, t, must) }
    fn own<N: AstNode<Language = TemplateLanguage>>(&self, what: &str, t: Option<N>, must: bool) -> Option<N> { if let Some(t) = &t { self.req(t.syntax().parent().as_ref() == Some(&self.n), what); } self.node(what, t, must) }
    fn req(&self, c: bool, what: &str) { check(c, self.code, || format!("{what} of {:?} is wrong in {:?}", self.n, self.text)); }
    fn ws<N: HasWhitespaceControl>(&self, n: &N) {
        let num = |w: Option<WhitespaceTrimming>| match w { None => 0, Some(WhitespaceTrimming::RemoveAll) => 1, Some(WhitespaceTrimming::RemoveExceptNewLines) => 2 };
        let (l, t) = (num(n.leading_ws_control()), num(n.trailing_ws_control()));
        if !self.ok { return; }
        let mut leaves = self.n.descendants_with_tokens().filter_map(|e| e.into_token()).filter(|t| !t.kind().is_trivia());
        let Some(first) = leaves.next().map(|t| t.kind()) else { return };
        let last = leaves.last().map_or(first, |t| t.kind());
        let want_l = match first { TK_CURLY_PERCENT_MINUS | TK_OPEN_CURLY_CURLY_MINUS | TK_OPEN_CURLY_HASHTAG_MINUS => 1, TK_CURLY_PERCENT_TILDE | TK_OPEN_CURLY_CURLY_TILDE | TK_OPEN_CURLY_HASHTAG_TILDE => 2, _ => 0 };
        let want_t = match last { TK_MINUS_PERCENT_CURLY | TK_MINUS_CLOSE_CURLY_CURLY | TK_MINUS_HASHTAG_CLOSE_CURLY => 1, TK_TILDE_PERCENT_CURLY | TK_TILDE_CLOSE_CURLY_CURLY | TK_TILDE_HASHTAG_CLOSE_CURLY => 2, _ => 0 };
        if want_l + want_t > 0 { reach(80); }
        self.req(l == want_l, "leading whitespace control");
        self.req(t == want_t, "trailing whitespace control");
    }
}
fn quote(t: &Option<SyntaxToken>) -> bool { t.as_ref().is_none_or(|t| matches!(t.kind(), TK_DOUBLE_QUOTES | TK_SINGLE_QUOTES | TK_GRAVE_ACCENT_QUOTES)) }
/// kind of the last token before this one
fn prev(t: &SyntaxToken) -> Option<SyntaxKind> { let mut p = t.prev_token(); while let Some(x) = p { if !x.kind().is_trivia() { return Some(x.kind()); } p = x.prev_token(); } None }
fn count(n: &SyntaxNode, k: SyntaxKind) -> usize { n.children().filter(|c| c.kind() == k).count() }

macro_rules! ws_all { ($n:expr, $c:expr, $($t:ident),* $(,)?) => { $( if let Some(x) = $t::cast($n.clone()) { $c.ws(&x); } )* } }
macro_rules! acc { ($c:expr, $n:expr, $t:ident, $x:ident, $b:block) => { if let Some($x) = $t::cast($n.clone()) { $b } } }

pub fn check_all(root: &SyntaxNode, ok: bool, text: &str, code: u32) {
    for n in root.descendants() {
        let c = C { n: n.clone(), text, ok, code };
        match n.kind() {
            TWIG_BLOCK => acc!(c, n, TwigBlock, x, {
                let s = c.own("starting_block", x.starting_block(), true); c.own("body", x.body(), false); c.own("ending_block", x.ending_block(), false);
                c.req(x.body().is_some() == (count(&n, BODY) > 0), "body"); c.req(x.ending_block().is_some() == (count(&n, TWIG_ENDING_BLOCK) > 0), "ending_block");
                let name = c.tok("name", x.name(), true);
                c.req(name.map(|t| t.text_range()) == s.and_then(|s| s.name()).map(|t| t.text_range()), "name");
            }),
            TWIG_STARTING_BLOCK => acc!(c, n, TwigStartingBlock, x, {
                if let (Some(t), true) = (c.own_tok("name", x.name(), true), ok) { c.req(prev(&t) == Some(TK_BLOCK), "name"); }
                if let Some(b) = x.twig_block() { check(b.syntax().text_range().contains_range(n.text_range()), code, || format!("twig_block does not contain {n:?}")); }
                c.req(x.twig_block().is_some() == n.parent().is_some_and(|p| p.kind() == TWIG_BLOCK), "twig_block");
            }),
            TWIG_ENDING_BLOCK => acc!(c, n, TwigEndingBlock, x, { c.req(x.twig_block().is_some() == n.parent().is_some_and(|p| p.kind() == TWIG_BLOCK), "twig_block"); }),
            HTML_TAG => acc!(c, n, HtmlTag, x, {
                let s = c.own("starting_tag", x.starting_tag(), true); c.own("body", x.body(), false); let e = c.own("ending_tag", x.ending_tag(), false);
                c.req(e.is_some() == (count(&n, HTML_ENDING_TAG) > 0), "ending_tag");
                c.req(x.is_self_closing() == (count(&n, HTML_ENDING_TAG) == 0), "is_self_closing");
                let name = c.tok("name", x.name(), true);
                c.req(name.map(|t| t.text_range()) == s.as_ref().and_then(|s| s.name()).map(|t| t.text_range()), "name");
                let direct = s.as_ref().map_or(0, |s| s.syntax().children().filter(|l| l.kind() == HTML_ATTRIBUTE_LIST).take(1).map(|l| count(&l, HTML_ATTRIBUTE)).sum());
                let mut k = 0; for a in x.attributes() { c.inside("attribute", a.syntax().text_range()); k += 1; }
                c.req(k == direct, "attributes");
                c.req(x.is_twig_component() == s.is_some_and(|s| s.syntax().children_with_tokens().any(|t| t.kind() == TK_TWIG_COMPONENT_NAME)), "is_twig_component");
            }),
            HTML_STARTING_TAG => acc!(c, n, HtmlStartingTag, x, {
                if let (Some(t), true) = (c.own_tok("name", x.name(), true), ok) { c.req(prev(&t) == Some(TK_LESS_THAN), "name"); }
                let direct: usize = n.children().filter(|l| l.kind() == HTML_ATTRIBUTE_LIST).map(|l| count(&l, HTML_ATTRIBUTE)).sum();
                let mut k = 0; for a in x.attributes() { c.inside("attribute", a.syntax().text_range()); k += 1; }
                if ok { c.req(k == direct, "attributes"); }
                let _ = x.is_twig_component();
                if ok { c.req(x.html_tag().is_some(), "html_tag"); }
            }),
            HTML_ATTRIBUTE => acc!(c, n, HtmlAttribute, x, {
                let name = c.own_tok("name", x.name(), false); let v = c.own("value", x.value(), false);
                if ok {
                    let eq = n.children_with_tokens().find(|t| t.kind() == TK_EQUAL);
                    c.req(v.is_some() == eq.is_some() || name.is_none(), "value");
                    if let (Some(name), Some(eq)) = (&name, &eq) { c.req(name.text_range().end() <= eq.text_range().start(), "name"); }
                    if let (Some(v), Some(eq)) = (&v, &eq) { c.req(v.syntax().text_range().start() >= eq.text_range().end(), "value"); }
                }
                if let Some(t) = x.html_tag() { check(t.syntax().text_range().contains_range(n.text_range()), code, || format!("html_tag does not contain {n:?}")); } else if ok { c.req(n.ancestors().skip(1).take(2).last().is_none_or(|a| a.kind() != HTML_STARTING_TAG), "html_tag"); }
            }),
            HTML_ENDING_TAG => acc!(c, n, HtmlEndingTag, x, {
                if let (Some(t), true) = (c.own_tok("name", x.name(), true), ok) { c.req(prev(&t) == Some(TK_LESS_THAN_SLASH), "name"); }
                let _ = x.is_twig_component();
                if ok { c.req(x.html_tag().is_some(), "html_tag"); }
            }),
            TWIG_BINARY_EXPRESSION => acc!(c, n, TwigBinaryExpression, x, {
                let o = c.own_tok("operator", x.operator(), true); let l = c.own("lhs_expression", x.lhs_expression(), false); let r = c.own("rhs_expression", x.rhs_expression(), false);
                if let (Some(o), true) = (&o, ok) {
                    c.req(crate::exprref::binary(o.kind()).is_some(), "operator");
                    let o = o.text_range();
                    // the operands by position
                    let (mut wl, mut wr) = (None, None);
                    for e in n.children() { if e.kind() == TWIG_EXPRESSION { if e.text_range().end() <= o.start() { wl = Some(e.text_range()); } else if wr.is_none() { wr = Some(e.text_range()); } } }
                    c.req(l.map(|l| l.syntax().text_range()) == wl, "lhs_expression");
                    c.req(r.map(|r| r.syntax().text_range()) == wr, "rhs_expression");
                    reach(81);
                }
            }),
            LUDTWIG_DIRECTIVE_IGNORE => acc!(c, n, LudtwigDirectiveIgnore, x, { rules(&c, x.get_rules()) }),
            LUDTWIG_DIRECTIVE_FILE_IGNORE => acc!(c, n, LudtwigDirectiveFileIgnore, x, { rules(&c, x.get_rules()) }),
            LUDTWIG_DIRECTIVE_RULE_LIST => acc!(c, n, LudtwigDirectiveRuleList, x, { let _ = x.get_rule_names(); }),
            TWIG_LITERAL_STRING => acc!(c, n, TwigLiteralString, x, {
                let (a, b) = (c.own_tok("get_opening_quote", x.get_opening_quote(), true), c.own_tok("get_closing_quote", x.get_closing_quote(), true));
                let i = c.own("get_inner", x.get_inner(), true);
                strings(&c, a, b, i.as_ref().map(|i| i.syntax().text_range()));
                if let Some(i) = i { for p in i.get_interpolations() { c.inside("interpolation", p.syntax().text_range()); } }
            }),
            HTML_STRING => acc!(c, n, HtmlString, x, {
                let (a, b) = (c.own_tok("get_opening_quote", x.get_opening_quote(), false), c.own_tok("get_closing_quote", x.get_closing_quote(), false));
                let i = c.own("get_inner", x.get_inner(), true);
                strings(&c, a, b, i.as_ref().map(|i| i.syntax().text_range()));
            }),
            TWIG_EXTENDS => acc!(c, n, TwigExtends, x, { if let Some(t) = c.own_tok("get_extends_keyword", x.get_extends_keyword(), true) { c.req(t.kind() == TK_EXTENDS, "get_extends_keyword"); } }),
            TWIG_VAR => acc!(c, n, TwigVar, x, { c.own("get_expression", x.get_expression(), false); }),
            TWIG_LITERAL_NAME => acc!(c, n, TwigLiteralName, x, { c.own_tok("get_name", x.get_name(), true); }),
            TWIG_FILTER => acc!(c, n, TwigFilter, x, {
                let (o, f) = (c.own("operand", x.operand(), true), c.own("filter", x.filter(), true));
                if ok {
                    let pipe = n.children_with_tokens().find(|t| t.kind() == TK_SINGLE_PIPE).map(|t| t.text_range());
                    if let (Some(o), Some(f), Some(p)) = (o, f, pipe) { c.req(o.syntax().text_range().end() <= p.start(), "operand"); c.req(f.syntax().text_range().start() >= p.end(), "filter"); reach(82); }
                }
            }),
            TWIG_FUNCTION_CALL => acc!(c, n, TwigFunctionCall, x, {
                let (o, a) = (c.own("name_operand", x.name_operand(), true), c.own("arguments", x.arguments(), true));
                if let (Some(o), Some(a), true) = (o, a, ok) { c.req(o.syntax().text_range().end() <= a.syntax().text_range().start(), "name_operand"); reach(83); }
            }),
            _ => {}
        }
        ws_all!(n, c, TwigStartingBlock, TwigEndingBlock, TwigIfBlock, TwigElseIfBlock, TwigElseBlock, TwigEndIfBlock, TwigSetBlock, TwigEndSetBlock, TwigForBlock, TwigForElseBlock, TwigEndForBlock, TwigInclude, TwigUse, TwigApplyStartingBlock, TwigApplyEndingBlock, TwigAutoescapeStartingBlock, TwigAutoescapeEndingBlock, TwigDeprecated, TwigDo, TwigEmbedStartingBlock, TwigEmbedEndingBlock, TwigFlush, TwigFrom, TwigImport, TwigExtends, TwigSandboxStartingBlock, TwigSandboxEndingBlock, TwigVerbatimStartingBlock, TwigVerbatimEndingBlock, TwigMacroStartingBlock, TwigMacroEndingBlock, TwigWithStartingBlock, TwigWithEndingBlock, TwigCacheStartingBlock, TwigCacheEndingBlock, TwigProps, TwigComponentStartingBlock, TwigComponentEndingBlock, TwigTransStartingBlock, TwigTransEndingBlock, ShopwareTwigExtends, ShopwareTwigInclude, ShopwareSilentFeatureCallStartingBlock, ShopwareSilentFeatureCallEndingBlock, ShopwareReturn, ShopwareIcon, TwigVar, TwigComment);
    }
}
fn strings(c: &C, a: Option<SyntaxToken>, b: Option<SyntaxToken>, inner: Option<TextRange>) {
    if c.ok { c.req(quote(&a) && quote(&b), "quotes"); c.req(a.is_some() == b.is_some(), "quotes"); }
    if let Some(i) = inner {
        if let Some(a) = &a { c.req(a.text_range().end() <= i.start(), "opening quote"); }
        if let Some(b) = &b { c.req(b.text_range().start() >= i.end(), "closing quote"); reach(84); }
    }
    if let (Some(a), Some(b), true) = (&a, &b, c.ok) { c.req(a.kind() == b.kind(), "quotes"); }
}
/// the rule names are the words after the directive, separated by commas or blanks
fn rules(c: &C, have: Vec<String>) {
    if !c.ok { return; }
    let s = c.n.text().to_string();
    let mut b = s.trim_matches([' ', '\t', '\r', '\n']).as_bytes();
    for p in ["{#-", "{#~", "{#", "<!--"] { if b.len() >= p.len() && same(&b[..p.len()], p.as_bytes()) { b = &b[p.len()..]; break; } }
    let before = b.len();
    for p in ["-#}", "~#}", "#}", "-->"] { if b.len() >= p.len() && same(&b[b.len() - p.len()..], p.as_bytes()) { b = &b[..b.len() - p.len()]; break; } }
    // a word takes dashes at its end
    if b.len() < before && before - b.len() == 3 && c.n.last_token().is_some_and(|t| t.text_range().len() == 2.into()) { return; }
    // characters which are no token of their own are skipped by the grammar
    for &x in b { if !(x.is_ascii_alphanumeric() | (x == b'_') | (x == b'-') | (x == b',') | (x == b' ') | (x == b'\t') | (x == b'\n') | (x == b'\r')) { return; } }
    let mut words: Vec<Vec<u8>> = vec![];
    let mut cur: Vec<u8> = vec![];
    for &x in b { if (x == b' ') | (x == b'\t') | (x == b'\n') | (x == b'\r') | (x == b',') { if !cur.is_empty() { words.push(std::mem::take(&mut cur)); } } else { cur.push(x); } }
    if !cur.is_empty() { words.push(cur); }
    c.req(words.len() == have.len() + 1, "get_rules");
    for (w, h) in words[1..].iter().zip(&have) { c.req(same(w, h.as_bytes()), "get_rules"); reach(85); }
}
