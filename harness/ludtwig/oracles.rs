//! What the rules, the fixer and the reporting have to do, for every property.
use super::rt::*;
use super::*;
use SyntaxKind::*;

pub type Span = (usize, usize);
pub fn span(r: TextRange) -> Span { (r.start().into(), r.end().into()) }
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Finding { pub rule: &'static str, pub sev: u8, pub pri: Option<Span>, pub msg: String, pub note: String, pub sec: Vec<Span>, pub sug: Vec<(Span, String)> }
pub fn sev(s: Severity) -> u8 { match s { Severity::Error => 0, Severity::Warning => 1, Severity::Help => 2, Severity::Info => 3 } }
pub fn finding(r: &CheckResult) -> Finding {
    let v = view(r);
    Finding { rule: v.rule_name, sev: sev(v.severity), pri: v.primary.map(|p| span(p.syntax_range)), msg: v.message.to_string(), note: v.primary.map_or(String::new(), |p| p.message.clone()), sec: v.secondary.iter().map(|p| span(p.syntax_range)).collect(), sug: v.suggestions.iter().map(|p| (span(p.syntax_range), p.replace_with.clone())).collect() }
}
pub fn findings(f: &FileContext) -> Vec<Finding> {
    let v: Vec<Finding> = run_rules(f).iter().map(finding).collect();
    for x in &v { digest(x.rule.len() as u64); if let Some(p) = x.pri { digest(p.0 as u64); digest(p.1 as u64); } }
    v
}
/// a file with other rules but the same tree
pub fn with_rules(f: &FileContext, cli: &CliContext, rules: Vec<&'static dyn Rule>) -> FileContext {
    FileContext { cli_context: cli.clone(), file_path: f.file_path.clone(), source_code: f.source_code.clone(), tree_root: f.tree_root.clone(), parse_errors: vec![], file_rule_definitions: rules }
}
pub const FORMATTING: [&str; 4] = ["indentation", "line-ending", "whitespace-between-line-breaks", "twig-block-line-breaks"];
const CFG_BITS: u8 = 0x3f;
/// opts 1..: fixed configuration bits, symbolic configuration bits, indentation count (0: 4)
pub fn conf(c: &mut Cfg) -> Config {
    let mut b = c.opt(1);
    let m = c.opt(2);
    for i in 0..6 { if m >> i & 1 == 1 && c.choose(2) == 1 { b |= 1 << i; } }
    let mut k = default_config();
    if b & 1 != 0 { k.format.line_ending = LineEnding::WindowsCRLF; }
    if b & 2 != 0 { k.format.indentation_mode = IndentationMode::Tab; }
    if b & 4 != 0 { k.format.indent_children_of_blocks = false; }
    if b & 8 != 0 { k.format.linebreaks_around_blocks = false; }
    if b & 16 != 0 { k.format.twig_quotation = Quotation::Double; }
    if b & 32 != 0 { k.format.html_quotation = Quotation::Single; }
    if c.opt(3) != 0 { k.format.indentation_count = c.opt(3); }
    k
}
// ------------------------------------------------------------------------------------------------ the tree
pub fn tokens(root: &SyntaxNode) -> Vec<SyntaxToken> { root.descendants_with_tokens().filter_map(|e| e.into_token()).collect() }
pub fn in_error(n: &SyntaxNode) -> bool { n.ancestors().any(|a| a.kind() == ERROR) }
/// the directive right before an element
fn directive_before(e: &SyntaxElement) -> Option<LudtwigDirectiveIgnore> { match e.prev_sibling_or_token() { Some(SyntaxElement::Node(n)) => LudtwigDirectiveIgnore::cast(n), _ => None } }
/// a directive in front of a character the grammar does not know (no construct; the rules differ in what they take for the next one)
fn astray(f: &FileContext) -> bool { f.tree_root.descendants().any(|n| n.kind() == LUDTWIG_DIRECTIVE_IGNORE && n.next_sibling_or_token().is_some_and(|e| e.as_token().is_some())) }
fn silences(d: &LudtwigDirectiveIgnore, rule: &str) -> bool { let r = d.get_rules(); r.is_empty() || r.iter().any(|x| x == rule) }
pub fn ignored(n: &SyntaxNode, rule: &str) -> bool { n.ancestors().any(|a| directive_before(&a.into()).is_some_and(|d| silences(&d, rule))) }
fn ignored_token(t: &SyntaxToken, rule: &str) -> bool { directive_before(&t.clone().into()).is_some_and(|d| silences(&d, rule)) || t.parent().is_some_and(|p| ignored(&p, rule)) }
fn trimmed(n: &SyntaxNode) -> Option<Span> {
    let mut a = None; let mut b = 0;
    for t in tokens(n) { if !t.kind().is_trivia() { let s = span(t.text_range()); if a.is_none() { a = Some(s.0); } b = s.1; } }
    a.map(|a| (a, b))
}
/// the nodes a rule has to look at
fn live(f: &FileContext, kind: SyntaxKind, rule: &'static str) -> Vec<SyntaxNode> { if !active(f, rule) { return vec![]; } f.tree_root.descendants().filter(|n| n.kind() == kind && !in_error(n) && !ignored(n, rule)).collect() }
fn active(f: &FileContext, rule: &str) -> bool { f.file_rule_definitions.iter().any(|r| r.name() == rule) }
fn child(n: &SyntaxNode, k: SyntaxKind) -> Option<SyntaxNode> { n.children().find(|c| c.kind() == k) }
/// the text with replacements (not overlapping) applied
pub fn apply(text: &str, sug: &[(Span, String)]) -> String {
    let mut s: Vec<&(Span, String)> = sug.iter().collect();
    s.sort();
    let mut o = String::with_capacity(text.len() + 16); let mut at = 0;
    for (r, w) in s { if r.0 < at { return format!("overlapping replacements in {text:?}"); } o.push_str(&text[at..r.0]); o.push_str(w); at = r.1; }
    o.push_str(&text[at..]);
    o
}
fn of<'a>(fs: &'a [Finding], rule: &str) -> Vec<&'a Finding> { let mut v: Vec<&Finding> = fs.iter().filter(|f| f.rule == rule).collect(); v.sort(); v }
fn primaries(fs: &[Finding], rule: &str) -> Vec<Span> { of(fs, rule).iter().map(|f| f.pri.unwrap_or((usize::MAX, 0))).collect() }
/// exactly these primary ranges
fn expect_primaries(fs: &[Finding], rule: &str, mut want: Vec<Span>, code: u32, text: &str) {
    want.sort();
    let have = primaries(fs, rule);
    reach(if want.is_empty() { 40 } else { 41 });
    check(have == want, code, || format!("{rule} reports {have:?} in {text:?}, expected {want:?}"));
}
pub enum Fixed { Refused(String), Text(String, bool, usize) }
pub fn fix(text: &str, cl: &CliContext) -> Fixed {
    let f = file(text, cl);
    let r = run_rules(&f);
    match iteratively_apply_suggestions(f, r) { Ok((f, _, dirty, n)) => { digest(f.source_code.len() as u64); Fixed::Text(f.source_code, dirty, n) } Err(e) => Fixed::Refused(if cfg!(feature = "native") { e.to_string() } else { String::new() }) }
}
/// no operator lacks an operand (the parser accepts '{{ a + }}')
fn complete(root: &SyntaxNode) -> bool { root.descendants().all(|n| match n.kind() { TWIG_BINARY_EXPRESSION => n.children().count() == 2, TWIG_UNARY_EXPRESSION => n.children().count() == 1, _ => true }) }
fn clean(text: &str) -> bool { ludtwig_parser::parse(text).errors.is_empty() }

/// opts: property, fixed configuration bits, symbolic configuration bits, indentation count, ..
pub fn run_rules_entry(c: &mut Cfg) {
    let what = c.opt(0);
    let k = conf(c);
    let text = c.text();
    match what {
        10 | 20 => {
            let (cl, _rx) = cli(k, all_rules(), false);
            let f = file(&text, &cl);
            let fs = findings(&f);
            reach(if fs.is_empty() { 1 } else { 2 });
            if what == 10 { ranges(&fs, &text) } else { not_in_errors(&f, &fs, &text) }
        }
        11 | 14 => converges(what, k, &text),
        12 | 13 | 29 => formatting(what, k, &text),
        45 => performs(k, &text),
        15 => quotes(k, &text),
        16 | 17 => names(what, k, &text),
        18 => ignore(k, &text),
        19 => ignore_file(k, &text),
        21 | 22 => duplicates(what, k, &text),
        23 => valid_names(k, &text, c.opt(4)),
        24 => operators(k, &text),
        27 => independent(k, &text),
        28 => reported(k, &text, c.opt(4) != 0),
        48 => printed(k, &text, c.opt(4)),
        30 => indentation(k, &text),
        31 => hash_keys(k, &text),
        32 => advice(k, &text),
        37 => block_breaks(k, &text),
        38 => blank_lines(k, &text),
        _ => {}
    }
}
fn good_span(s: Span, text: &str) -> bool { s.0 <= s.1 && s.1 <= text.len() && text.is_char_boundary(s.0) && text.is_char_boundary(s.1) }
fn ranges(fs: &[Finding], text: &str) {
    for f in fs {
        check(f.pri.is_none_or(|p| good_span(p, text)), 10, || format!("primary range {:?} of {} is not a range of {text:?}", f.pri, f.rule));
        for s in &f.sec { check(good_span(*s, text), 10, || format!("secondary range {s:?} of {} is not a range of {text:?}", f.rule)); }
        for s in &f.sug { check(good_span(s.0, text), 10, || format!("suggestion range {:?} of {} is not a range of {text:?}", s.0, f.rule)); reach(3); }
    }
}
fn not_in_errors(f: &FileContext, fs: &[Finding], text: &str) {
    for e in f.tree_root.descendants().filter(|n| n.kind() == ERROR) {
        let Some((a, b)) = trimmed(&e) else { continue };
        if !fs.is_empty() { reach(20); }
        for x in fs { if let Some(p) = x.pri { check(p == (a, b) || !(p.0 >= a && p.1 <= b && p.0 < b && p.1 > a), 20, || format!("{} reports {p:?} inside of the erroneous region {:?} of {text:?}", x.rule, (a, b))); } }
    }
}
fn converges(what: u8, k: Config, text: &str) {
    if what == 14 { let p = ludtwig_parser::parse(text); assume(p.errors.is_empty() && complete(&SyntaxNode::new_root(p.green_node))); }
    let (cl, _rx) = cli(k, all_rules(), true);
    match fix(text, &cl) {
        Fixed::Refused(e) => { reach(112); if what == 11 { check(e.is_empty() || !e.contains("iteration"), 12, || format!("fixing {text:?} failed: {e}")); } }
        Fixed::Text(t, dirty, _) => {
            reach(if dirty { 111 } else { 110 });
            if what == 14 {
                // the maintainers' tests demand 'sw_extends' for every expression
                let e = ludtwig_parser::parse(&t).errors;
                let sw = |e: &ludtwig_parser::ParseError| { let b = &t[..u32::from(e.range.start()) as usize]; b.rfind("{%").is_some_and(|i| b[i..].contains("sw_extends") && !b[i..].contains("%}")) && !text.contains("sw_extends") };
                check(e.is_empty() || !e.iter().all(sw), 143, || format!("fixing the valid text {text:?} yields {t:?} with an expression behind sw_extends"));
                check(clean(&t), 14, || format!("fixing the valid text {text:?} yields {t:?} with errors {:?}", ludtwig_parser::parse(&t).errors)); return;
            }
            check(dirty || t == text, 11, || format!("{text:?} was changed to {t:?} but is not marked as changed"));
            let fs = findings(&file(&t, &cl));
            check(fs.iter().all(|f| f.sug.is_empty()), 11, || format!("after fixing {text:?} to {t:?} suggestions remain: {:?}", fs.iter().filter(|f| !f.sug.is_empty()).collect::<Vec<_>>()));
        }
    }
}
/// The texts which performing the suggestions round by round may lead to. A round performs all suggestions; if some
/// overlap, all of some of the rules. None: not judged (too many rounds or possibilities, insertions at one place).
fn performed(f: &FileContext, cl: &CliContext, text: String, round: usize, out: &mut Vec<String>, work: &mut usize) -> Option<()> {
    if round > 10 || *work == 0 { return None; }
    *work -= 1;
    let fs = findings(&FileContext { file_rule_definitions: f.file_rule_definitions.clone(), ..file(&text, cl) });
    let mut all: Vec<(&str, (Span, String))> = fs.iter().flat_map(|x| x.sug.iter().map(|s| (x.rule, s.clone()))).collect();
    if all.is_empty() { out.push(text); return Some(()); }
    all.sort_by(|a, b| a.1.cmp(&b.1));
    let apart = |v: &[(&str, (Span, String))]| v.windows(2).all(|w| w[0].1.0.1 <= w[1].1.0.0);
    if all.windows(2).any(|w| w[0].1.0 == w[1].1.0 && w[0].1.0.0 == w[0].1.0.1) { return None; }
    if apart(&all) { reach(450); let v: Vec<_> = all.into_iter().map(|x| x.1).collect(); return performed(f, cl, apply(&text, &v), round + 1, out, work); }
    reach(451);
    let mut rules: Vec<&str> = all.iter().map(|x| x.0).collect(); rules.sort(); rules.dedup();
    if rules.len() > 3 { return None; }
    for m in 1..1u32 << rules.len() {
        let v: Vec<_> = all.iter().filter(|x| rules.iter().position(|r| *r == x.0).is_some_and(|i| m >> i & 1 == 1)).cloned().collect();
        if apart(&v) { performed(f, cl, apply(&text, &v.into_iter().map(|x| x.1).collect::<Vec<_>>()), round + 1, out, work)?; }
    }
    Some(())
}
fn performs(k: Config, text: &str) {
    let (cl, _rx) = cli(k, all_rules(), true);
    let f = file(text, &cl);
    let (mut out, mut work) = (vec![], 16);
    let judged = performed(&f, &cl, text.to_string(), 0, &mut out, &mut work).is_some();
    if !judged { reach(452); }
    let r = run_rules(&f);
    match iteratively_apply_suggestions(f, r) {
        Err(e) => check(!judged || out.is_empty(), 45, || format!("the suggestions for {text:?} lead to {out:?} but fixing failed: {e}")),
        Ok((g, r, dirty, _)) => {
            digest(g.source_code.len() as u64);
            let t = &g.source_code;
            if judged { reach(453); check(out.iter().any(|o| o == t), 45, || format!("fixing {text:?} yields {t:?} but performing what is suggested yields {out:?}")); }
            check(dirty == (text != t), 45, || format!("{text:?} is {}marked as changed, the fixed text is {t:?}", if dirty { "" } else { "not " }));
            let (mut have, mut want): (Vec<Finding>, Vec<Finding>) = (r.iter().map(finding).collect(), findings(&FileContext { file_rule_definitions: g.file_rule_definitions.clone(), ..file(t, &cl) }));
            have.sort(); want.sort();
            check(have == want, 45, || format!("after fixing {text:?} to {t:?} {have:?} is reported instead of {want:?}"));
            let p = ludtwig_parser::parse(t);
            check(g.parse_errors.len() == p.errors.len() && g.parse_errors.iter().zip(&p.errors).all(|(a, b)| a.range == b.range), 45, || format!("the syntax errors reported for {t:?} (fixed {text:?}) are not its own"));
        }
    }
}
fn is_ws(s: &str) -> bool { s.bytes().all(|b| matches!(b, b' ' | b'\t' | b'\r' | b'\n')) }
fn solid(s: &str) -> Vec<u8> { s.bytes().filter(|b| !matches!(b, b' ' | b'\t' | b'\r' | b'\n')).collect() }
/// (kind, text) of the regions whose white space matters, outermost only
fn sensitive(n: &SyntaxNode, out: &mut Vec<(SyntaxKind, String)>) {
    for c in n.children() {
        if matches!(c.kind(), HTML_STRING_INNER | TWIG_LITERAL_STRING_INNER) { out.push((c.kind(), c.text().to_string())); continue; }
        if raw_tag(&c) {
            if let Some(s) = child(&c, HTML_STARTING_TAG) { sensitive(&s, out); }
            if let (Some(s), Some(e)) = (child(&c, HTML_STARTING_TAG), child(&c, HTML_ENDING_TAG)) {
                let all = c.text().to_string(); let o: usize = c.text_range().start().into();
                let end = trimmed(&e).map_or(span(e.text_range()).1, |x| x.0);
                out.push((HTML_TAG, all[span(s.text_range()).1 - o..end - o].to_string()));
            }
            continue;
        }
        sensitive(&c, out);
    }
}
fn raw_tag(n: &SyntaxNode) -> bool { HtmlTag::cast(n.clone()).and_then(|t| t.name()).is_some_and(|t| matches!(t.text(), "pre" | "textarea" | "script" | "style")) }
fn keeps(n: &SyntaxNode) -> bool { raw_tag(n) || matches!(n.kind(), HTML_STRING_INNER | TWIG_LITERAL_STRING_INNER) }
fn formatting(what: u8, k: Config, text: &str) {
    let crlf = k.format.line_ending == LineEnding::WindowsCRLF;
    let (cl, _rx) = cli(k, if what == 29 { rules_named(&["line-ending"]) } else { rules_named(&FORMATTING) }, true);
    let f = file(text, &cl);
    let fs = findings(&f);
    for x in &fs { for (r, w) in &x.sug {
        check(is_ws(&text[r.0..r.1]) && is_ws(w), 12, || format!("{} replaces {:?} by {w:?} in {text:?}", x.rule, &text[r.0..r.1]));
    } }
    if what == 29 {
        // every line ending outside of erroneous and ignored regions that is not the configured one
        let mut want = vec![];
        for t in tokens(&f.tree_root) {
            if !active(&f, "line-ending") { break; }
            if t.kind() != TK_LINE_BREAK || t.parent().is_some_and(|p| in_error(&p)) || ignored_token(&t, "line-ending") { continue; }
            let s: usize = t.text_range().start().into(); let b = t.text().as_bytes();
            for i in 0..b.len() { if b[i] == b'\n' { let cr = i > 0 && b[i - 1] == b'\r'; if cr != crlf { want.push(if cr { (s + i - 1, s + i + 1) } else { (s + i, s + i + 1) }); } } }
        }
        let bad = !want.is_empty();
        expect_primaries(&fs, "line-ending", want, 29, text);
        let Fixed::Text(t, dirty, _) = fix(text, &cl) else { fail(29, || format!("the line endings of {text:?} could not be fixed")) };
        check(dirty == bad, 29, || format!("changed: {dirty} for {text:?}"));
        if f.tree_root.descendants().any(|n| matches!(n.kind(), ERROR | LUDTWIG_DIRECTIVE_IGNORE | LUDTWIG_DIRECTIVE_FILE_IGNORE)) { return; }
        // '\r\r\n' is a carriage return in front of a line ending
        let mut plain = text.replace("\r\n", "\n");
        while !crlf && plain.contains("\r\n") { plain = plain.replace("\r\n", "\n"); }
        let e = if crlf { plain.replace('\n', "\r\n") } else { plain };
        check(t == e, 29, || format!("the line endings of {text:?} are fixed to {t:?}"));
        return;
    }
    match fix(text, &cl) {
        Fixed::Refused(_) => reach(112),
        Fixed::Text(t, dirty, _) => {
            reach(if dirty { 111 } else { 110 });
            check(solid(text) == solid(&t), 12, || format!("formatting changes {text:?} to {t:?}"));
            if what == 13 && f.parse_errors.is_empty() {
                let mut a = vec![]; sensitive(&f.tree_root, &mut a);
                let mut b = vec![]; sensitive(&file(&t, &cl).tree_root, &mut b);
                if !a.is_empty() && dirty { reach(13); }
                check(a.len() == b.len(), 13, || format!("regions {a:?} of {text:?} become {b:?} of {t:?}"));
                for (x, y) in a.iter().zip(&b) {
                    // line endings are normalised everywhere
                    check(x.1.replace("\r\n", "\n") == y.1.replace("\r\n", "\n"), 13, || format!("{:?} {:?} of {text:?} becomes {:?}", x.0, x.1, y.1));
                }
            }
        }
    }
}
// ------------------------------------------------------------------------------------------------ quotes
fn quotes(k: Config, text: &str) {
    let q = [(TWIG_LITERAL_STRING, TWIG_LITERAL_STRING_INNER, "twig-string-quotation", k.format.twig_quotation.corresponding_char()), (HTML_STRING, HTML_STRING_INNER, "html-string-quotation", k.format.html_quotation.corresponding_char())];
    let (cl, _rx) = cli(k, rules_named(&["twig-string-quotation", "html-string-quotation"]), false);
    let f = file(text, &cl);
    let fs = findings(&f);
    for (kind, ikind, rule, quote) in q {
        for n in live(&f, kind, rule) {
            let interpolated = n.children().filter(|c| c.kind() == ikind).any(|c| c.children().any(|x| x.kind() == TWIG_LITERAL_STRING_INTERPOLATION));
            // Twig interpolates only within double quotes
            if kind == TWIG_LITERAL_STRING && quote == '\'' && interpolated { reach(150); continue; }
            let (mut open, mut close, mut inner) = (None, None, None);
            for e in n.children_with_tokens() { match e {
                SyntaxElement::Node(x) if x.kind() == ikind => inner = Some(x),
                SyntaxElement::Token(t) if matches!(t.kind(), TK_DOUBLE_QUOTES | TK_SINGLE_QUOTES) => if inner.is_none() { open = Some(t) } else { close = Some(t) },
                _ => {}
            } }
            let fine = |t: &Option<SyntaxToken>| t.as_ref().is_some_and(|t| t.text().len() == 1 && t.text().starts_with(quote));
            let Some(at) = trimmed(&n) else { continue };
            // the reported range may start with white space
            let here = |x: &&Finding| x.rule == rule && x.pri.is_some_and(|p| p.1 == span(n.text_range()).1 && p.0 <= at.0 && is_ws(&text[p.0..at.0]));
            let mine = fs.iter().filter(here).count();
            if fine(&open) && fine(&close) { reach(151); check(mine == 0, 15, || format!("the string {:?} of {text:?} is reported", n.text().to_string())); continue; }
            check(mine == 1, 15, || format!("the string {:?} of {text:?} is reported {mine} times", n.text().to_string()));
            let Some(inner) = inner else { continue };
            let it = inner.text().to_string();
            let x = fs.iter().find(here).unwrap();
            if it.contains(quote) { reach(152); check(x.sug.is_empty(), 15, || format!("a suggestion for {:?} of {text:?}", n.text().to_string())); continue; }
            if kind == TWIG_LITERAL_STRING && quote == '"' && it.contains("#{") { reach(153); check(x.sug.is_empty(), 155, || format!("a suggestion for {:?} of {text:?}", n.text().to_string())); continue; }
            reach(154);
            let i = span(inner.text_range());
            let start = trimmed(&inner).map_or(i.0, |t| t.0);
            let a = open.map_or((start, start), |t| span(t.text_range())); let b = close.map_or((i.1, i.1), |t| span(t.text_range()));
            let mut e = text.to_string();
            e.replace_range(b.0..b.1, &quote.to_string()); e.replace_range(a.0..a.1, &quote.to_string());
            let t = apply(text, &x.sug);
            check(t == e, 15, || format!("the suggestion changes {text:?} to {t:?}, expected {e:?}"));
            if f.parse_errors.is_empty() {
                let count = |r: &SyntaxNode, k: SyntaxKind| r.descendants().filter(|n| n.kind() == k).count();
                let r = SyntaxNode::new_root(ludtwig_parser::parse(&t).green_node);
                check(count(&r, TWIG_LITERAL_STRING_INTERPOLATION) == count(&f.tree_root, TWIG_LITERAL_STRING_INTERPOLATION), 155, || format!("changing the quotes of {text:?} to {t:?} changes what is interpolated"));
            }
        }
        let ends: Vec<usize> = live(&f, kind, rule).iter().map(|n| span(n.text_range()).1).collect();
        for x in of(&fs, rule) { check(x.pri.is_some_and(|p| ends.contains(&p.1)), 15, || format!("{rule} reports {:?} of {text:?}", x.pri)); }
    }
}
// ------------------------------------------------------------------------------------------------ names
fn snake(s: &str, upper: bool) -> bool { s.is_empty() || s.split('_').all(|p| !p.is_empty() && p.bytes().all(|c| c.is_ascii_digit() || if upper { c.is_ascii_uppercase() } else { c.is_ascii_lowercase() })) }
fn kebab(s: &str) -> bool { let s2 = s.strip_prefix([':', '@', '#']).unwrap_or(s); !s2.starts_with('-') && (s2.is_empty() || s2.split('-').all(|p| !p.is_empty() && p.bytes().all(|c| c.is_ascii_digit() || c.is_ascii_lowercase()))) }
fn camel(s: &str) -> bool { let s = s.trim_start_matches('_'); s.is_empty() || (s.as_bytes()[0].is_ascii_lowercase() && s.bytes().all(|c| c != b'_' && c != b'-')) }
/// letters and digits, without case
fn essence(s: &str) -> Vec<u8> { s.bytes().filter(|c| !matches!(c, b'-' | b'_')).map(|c| c.to_ascii_lowercase()).collect() }
fn names(what: u8, k: Config, text: &str) {
    let (cl, _rx) = cli(k, rules_named(&["twig-block-name-snake-case", "twig-variable-definition-naming", "html-attribute-name-kebab-case"]), false);
    let f = file(text, &cl);
    let fs = findings(&f);
    let root = &f.tree_root;
    let judge = |rule: &'static str, named: Vec<(SyntaxToken, bool)>, good: &dyn Fn(&str) -> bool| {
        let want: Vec<Span> = named.iter().filter(|(_, ok)| !ok).map(|(t, _)| span(t.text_range())).collect();
        expect_primaries(&fs, rule, want, 16, text);
        for x in of(&fs, rule) { check(x.sug.is_empty() || x.sug.iter().any(|s| Some(s.0) == x.pri), 16, || format!("{rule} suggests {:?} for {:?} in {text:?}", x.sug, x.pri)); for (r, w) in &x.sug {
            reach(160);
            let old = &text[r.0..r.1];
            check(x.pri.is_some_and(|p| &text[p.0..p.1] == old) && !w.is_empty() && good(w) && essence(w) == essence(old), 16, || format!("{rule} suggests {w:?} for {old:?} in {text:?}"));
            let t = apply(text, &x.sug);
            let again = findings(&file(&t, &cl));
            check(x.pri != Some(*r) || !again.iter().any(|y| y.rule == rule && y.pri.is_some_and(|p| p.0 == r.0)), 16, || format!("{rule} reports its own suggestion {w:?} for {old:?} in {text:?}"));
        } }
    };
    if what == 17 {
        let mut v = vec![];
        for n in live(&f, HTML_ATTRIBUTE, "html-attribute-name-kebab-case") {
            let tag = n.ancestors().find(|a| a.kind() == HTML_STARTING_TAG);
            let component = tag.as_ref().is_some_and(|t| t.children_with_tokens().any(|e| e.kind() == TK_TWIG_COMPONENT_NAME));
            if component { reach(170); continue; }
            let Some(t) = n.children_with_tokens().filter_map(|e| e.into_token()).find(|t| !t.kind().is_trivia()) else { continue };
            if t.kind() != TK_WORD { continue; }
            v.push((t.clone(), kebab(t.text())));
        }
        judge("html-attribute-name-kebab-case", v, &kebab);
        return;
    }
    let mut v = vec![];
    for n in live(&f, TWIG_STARTING_BLOCK, "twig-block-name-snake-case") {
        let Some(t) = n.children_with_tokens().filter_map(|e| e.into_token()).find(|t| t.kind() == TK_WORD) else { continue };
        v.push((t.clone(), snake(t.text(), false)));
    }
    judge("twig-block-name-snake-case", v, &|s| snake(s, false));
    let rule = "twig-variable-definition-naming";
    let mut v = vec![];
    for kind in [TWIG_ASSIGNMENT, TWIG_FOR_BLOCK] { for n in live(&f, kind, rule) {
        // the names in front of '=' (in)
        let mut constant = false;
        if kind == TWIG_ASSIGNMENT { if let Some(e) = child(&n, TWIG_EXPRESSION) { let c: Vec<SyntaxNode> = e.children().collect(); if c.len() == 1 && c[0].kind() == TWIG_FUNCTION_CALL { let ts: Vec<SyntaxToken> = tokens(&c[0]).into_iter().filter(|t| !t.kind().is_trivia()).collect(); constant = ts[0].text() == "constant" && ts.len() > 1 && ts[1].kind() == TK_OPEN_PARENTHESIS; } } }
        for m in n.children().filter(|c| c.kind() == TWIG_LITERAL_NAME) {
            let Some(t) = tokens(&m).into_iter().find(|t| !t.kind().is_trivia()) else { continue };
            if constant { reach(161); }
            v.push((t.clone(), if constant { snake(t.text(), true) } else { camel(t.text()) }));
        }
    } }
    judge(rule, v, &camel);
    for x in of(&fs, rule) { if x.msg.contains("SCREAMING") {
        let p = x.pri.unwrap();
        let w = x.note.rsplit(' ').next().unwrap_or("");
        check(snake(w, true), 16, || format!("{rule} proposes {w:?} for {:?} in {text:?}", &text[p.0..p.1]));
    } }
}
// ------------------------------------------------------------------------------------------------ ignoring
fn ignore(k: Config, text: &str) {
    assume(clean(text));
    let (cl, _rx) = cli(k, all_rules(), false);
    let f = file(text, &cl);
    let have = findings(&f);
    assume(!astray(&f));
    // the same text in which the directives are ordinary comments
    let other = text.replace("ludtwig-ignore-file", "\u{1}").replace("ludtwig-ignore", "ludtwig-ignorX").replace('\u{1}', "ludtwig-ignore-file");
    let base = findings(&file(&other, &cl));
    // (first offset, end, rules) of every construct behind a directive
    let mut scopes: Vec<(Span, Vec<String>, SyntaxKind)> = vec![];
    for n in f.tree_root.descendants().filter(|n| n.kind() == LUDTWIG_DIRECTIVE_IGNORE && !in_error(n)) {
        let Some(next) = n.next_sibling_or_token() else { continue };
        if next.kind() == ERROR { continue; }
        scopes.push((span(next.text_range()), LudtwigDirectiveIgnore::cast(n).unwrap().get_rules(), next.kind()));
    }
    let skip = |x: &Finding| matches!(x.rule, "twig-block-duplicate" | "html-duplicate-id") || (x.rule == "twig-block-line-breaks" && scopes.iter().any(|s| s.2 == TWIG_BLOCK));
    let silent = |x: &Finding| scopes.iter().any(|(s, r, _)| (r.is_empty() || r.iter().any(|n| n == x.rule)) && x.pri.is_some_and(|p| p.0 >= s.0 && p.1 <= s.1 && p.0 < s.1));
    let mut want: Vec<&Finding> = base.iter().filter(|x| !skip(x) && !silent(x)).collect(); want.sort();
    let mut got: Vec<&Finding> = have.iter().filter(|x| !skip(x)).collect(); got.sort();
    if !scopes.is_empty() { reach(180); if base.iter().any(|x| silent(x)) { reach(181); } if scopes.len() > 1 { reach(182); } if scopes.iter().any(|s| s.1.is_empty()) { reach(183); } }
    if want == got { return; }
    let extra: Vec<&&Finding> = got.iter().filter(|x| !want.contains(x)).collect(); let gone: Vec<&&Finding> = want.iter().filter(|x| !got.contains(x)).collect();
    fail(18, || format!("directives of {text:?}: reported although ignored {extra:?}, not reported although not ignored {gone:?}"));
}
fn ignore_file(k: Config, text: &str) {
    assume(clean(text));
    let (cl, _rx) = cli(k, all_rules(), false);
    let f = file(text, &cl);
    let mut have = findings(&f);
    let other = text.replace("ludtwig-ignore-file", "ludtwig-ignorX-file");
    let base = findings(&file(&other, &cl));
    let mut named: Vec<String> = vec![]; let mut all = false; let mut nested = vec![];
    for n in f.tree_root.descendants().filter(|n| n.kind() == LUDTWIG_DIRECTIVE_FILE_IGNORE) {
        let top = n.parent().is_some_and(|p| p.kind() == ROOT);
        if !top { if !in_error(&n) && !ignored(&n, "ludtwig-ignore-file-not-on-top") { nested.push(span(n.text_range())); } continue; }
        let r = LudtwigDirectiveFileIgnore::cast(n).unwrap().get_rules();
        if r.is_empty() { all = true; }
        named.extend(r);
    }
    let off = |rule: &str| all || named.iter().any(|n| n == rule);
    reach(if all { 191 } else if named.is_empty() { 190 } else { 192 });
    if base.iter().any(|x| off(x.rule)) { reach(193); }
    if !off("ludtwig-ignore-file-not-on-top") { if !nested.is_empty() { reach(194); } expect_primaries(&have, "ludtwig-ignore-file-not-on-top", nested, 19, text); have.retain(|x| x.rule != "ludtwig-ignore-file-not-on-top"); }
    let mut want: Vec<&Finding> = base.iter().filter(|x| !off(x.rule)).collect(); want.sort();
    let mut got: Vec<&Finding> = have.iter().collect(); got.sort();
    check(want == got, 19, || format!("file directives (all: {all}, {named:?}) of {text:?}: findings {got:?}, expected {want:?}"));
}
// ------------------------------------------------------------------------------------------------ duplicates
fn duplicates(what: u8, k: Config, text: &str) {
    let (rule, kind) = if what == 21 { ("twig-block-duplicate", TWIG_BLOCK) } else { ("html-duplicate-id", HTML_ATTRIBUTE) };
    let (cl, _rx) = cli(k, rules_named(&[rule]), false);
    let f = file(text, &cl);
    assume(!astray(&f));
    let fs = findings(&f);
    let mut seen: Vec<(String, Span)> = vec![]; let mut want: Vec<(Span, Span)> = vec![];
    for n in live(&f, kind, rule) {
        let (name, at) = if what == 21 {
            let Some(s) = child(&n, TWIG_STARTING_BLOCK) else { continue };
            let Some(t) = s.children_with_tokens().filter_map(|e| e.into_token()).find(|t| t.kind() == TK_WORD) else { continue };
            (t.text().to_string(), span(t.text_range()))
        } else {
            let Some(t) = n.children_with_tokens().filter_map(|e| e.into_token()).find(|t| !t.kind().is_trivia()) else { continue };
            if t.text() != "id" { continue; }
            let Some(i) = child(&n, HTML_STRING).and_then(|s| child(&s, HTML_STRING_INNER)) else { continue };
            if i.children().next().is_some() { reach(220); continue; }
            (i.text().to_string(), span(i.text_range()))
        };
        if name.is_empty() { continue; }
        match seen.iter().find(|s| s.0 == name) { Some(s) => want.push((at, s.1)), None => seen.push((name, at)) }
    }
    want.sort();
    reach(if want.is_empty() { 40 } else { 41 });
    if want.len() > 1 { reach(42); }
    let have: Vec<(Span, Span)> = of(&fs, rule).iter().map(|x| (x.pri.unwrap_or((9999, 0)), x.sec.first().copied().unwrap_or((9999, 0)))).collect();
    check(have == want && fs.iter().all(|x| x.sec.len() == 1), what as u32, || format!("{rule} reports {have:?} (duplicate, first) in {text:?}, expected {want:?}"));
}
// ------------------------------------------------------------------------------------------------ lists of names
fn plain_call(n: &SyntaxNode) -> Option<SyntaxToken> {
    // 'name' or 'name(..)'
    let mut c = n.children();
    let x = c.next()?;
    match x.kind() { TWIG_LITERAL_NAME => tokens(&x).into_iter().find(|t| !t.kind().is_trivia()), TWIG_FUNCTION_CALL => plain_call(&x.children().find(|c| c.kind() == TWIG_OPERAND)?), _ => None }
}
/// expressions with syntax errors are not judged
fn doubtful(n: &SyntaxNode) -> bool { n.descendants().any(|d| d.kind() == ERROR) }
fn doubt(root: &SyntaxNode) -> Vec<Span> { root.descendants().filter(|n| matches!(n.kind(), TWIG_FILTER | TWIG_BINARY_EXPRESSION | TWIG_FUNCTION_CALL) && doubtful(n)).map(|n| span(n.text_range())).collect() }
fn settle(fs: &mut Vec<Finding>, root: &SyntaxNode) { let d = doubt(root); fs.retain(|x| !x.pri.is_some_and(|p| d.iter().any(|d| d.0 <= p.0 && p.1 <= d.1))); }
fn valid_names(mut k: Config, text: &str, lists: u8) {
    let list = |i: u8| -> Vec<String> { if lists >> i & 1 == 1 { vec![] } else { ["ab", "raw", "same as", "x_1"].iter().map(|s| s.to_string()).collect() } };
    k.twig.valid_filters = list(0); k.twig.valid_tests = list(1); k.twig.valid_functions = list(2);
    let (vf, vt, vn) = (k.twig.valid_filters.clone(), k.twig.valid_tests.clone(), k.twig.valid_functions.clone());
    let (cl, _rx) = cli(k, rules_named(&["twig-valid-filter", "twig-valid-test", "twig-valid-function"]), false);
    let f = file(text, &cl);
    let mut fs = findings(&f);
    let root = &f.tree_root;
    settle(&mut fs, root);
    let bad = |t: &Option<SyntaxToken>, l: &[String]| t.as_ref().is_some_and(|t| !l.iter().any(|x| x == t.text()));
    let mut want = vec![];
    for n in live(&f, TWIG_FILTER, "twig-valid-filter") {
        if n.ancestors().any(|a| matches!(a.kind(), TWIG_FILTER | TWIG_BINARY_EXPRESSION | TWIG_FUNCTION_CALL) && doubtful(&a)) { continue; }
        let Some(o) = n.children().filter(|c| c.kind() == TWIG_OPERAND).nth(1) else { continue };
        let t = plain_call(&o); reach(230);
        if bad(&t, &vf) { want.push(span(t.unwrap().text_range())); }
    }
    expect_primaries(&fs, "twig-valid-filter", want, 23, text);
    let is_test = |n: &SyntaxNode| -> bool { n.kind() == TWIG_BINARY_EXPRESSION && n.children_with_tokens().any(|e| matches!(e.kind(), TK_IS | TK_IS_NOT)) };
    let rhs = |n: &SyntaxNode| -> Option<SyntaxNode> { if n.children().count() == 2 { n.children().last().filter(|c| c.kind() == TWIG_EXPRESSION) } else { None } };
    let mut want = vec![];
    for n in live(&f, TWIG_BINARY_EXPRESSION, "twig-valid-test") {
        if n.ancestors().any(|a| matches!(a.kind(), TWIG_FILTER | TWIG_BINARY_EXPRESSION | TWIG_FUNCTION_CALL) && doubtful(&a)) { continue; }
        if !is_test(&n) { continue; }
        let Some(r) = rhs(&n) else { continue };
        let t = plain_call(&r); reach(231);
        if bad(&t, &vt) { want.push(span(t.unwrap().text_range())); }
    }
    expect_primaries(&fs, "twig-valid-test", want, 23, text);
    let mut want = vec![];
    for n in live(&f, TWIG_FUNCTION_CALL, "twig-valid-function") {
        if n.ancestors().any(|a| matches!(a.kind(), TWIG_FILTER | TWIG_BINARY_EXPRESSION | TWIG_FUNCTION_CALL) && doubtful(&a)) { continue; }
        let p = n.parent().unwrap();
        if p.parent().is_some_and(|g| g.kind() == TWIG_FILTER && g.children().filter(|c| c.kind() == TWIG_OPERAND).nth(1).is_some_and(|o| o == p)) { reach(232); continue; }
        if p.parent().is_some_and(|g| is_test(&g) && rhs(&g).is_some_and(|r| r == p)) { reach(233); continue; }
        let Some(o) = child(&n, TWIG_OPERAND) else { continue };
        let Some(x) = o.children().next() else { continue };
        if x.kind() != TWIG_LITERAL_NAME { continue; }
        let t = plain_call(&o); reach(234);
        if bad(&t, &vn) { want.push(span(t.unwrap().text_range())); }
    }
    expect_primaries(&fs, "twig-valid-function", want, 23, text);
}
// ------------------------------------------------------------------------------------------------ operators
/// a canonical form of the tree: grouping without parentheses, operators by meaning, '===' like 'is same as'
fn norm(n: &SyntaxNode, o: &mut String) {
    match n.kind() {
        TWIG_EXPRESSION | TWIG_PARENTHESES_EXPRESSION | TWIG_OPERAND => { for c in n.children() { norm(&c, o) } return; }
        TWIG_BINARY_EXPRESSION => {
            let e: Vec<SyntaxNode> = n.children().collect();
            let op = n.children_with_tokens().filter_map(|e| e.into_token()).find(|t| !t.kind().is_trivia());
            if let (Some(op), true) = (op, e.len() == 2) {
                let mut name = match op.kind() { TK_DOUBLE_AMPERSAND | TK_AND => "and", TK_DOUBLE_PIPE | TK_OR => "or", TK_TRIPLE_EQUAL => "same", TK_EXCLAMATION_MARK_DOUBLE_EQUALS => "differs", _ => "" }.to_string();
                let mut right = e[1].clone();
                if matches!(op.kind(), TK_IS | TK_IS_NOT) {
                    if let Some(call) = e[1].children().next().filter(|c| c.kind() == TWIG_FUNCTION_CALL) {
                        if tokens(&call).into_iter().find(|t| !t.kind().is_trivia()).is_some_and(|t| t.text() == "same as") {
                            if let Some(a) = child(&call, TWIG_ARGUMENTS) { name = if op.kind() == TK_IS { "same" } else { "differs" }.into(); right = a.children().next().unwrap_or(a); }
                        }
                    }
                }
                if name.is_empty() { name = op.text().to_string(); }
                o.push('('); o.push_str(&name); o.push(' '); norm(&e[0], o); o.push(' '); norm(&right, o); o.push(')');
                return;
            }
        }
        _ => {}
    }
    o.push('[');
    for e in n.children_with_tokens() { match e { SyntaxElement::Node(c) => norm(&c, o), SyntaxElement::Token(t) => if !t.kind().is_trivia() { o.push_str(t.text()); o.push(' ') } } }
    o.push(']');
}
fn operators(k: Config, text: &str) {
    const R: [(&str, SyntaxKind); 4] = [("twig-logic-and", TK_DOUBLE_AMPERSAND), ("twig-logic-or", TK_DOUBLE_PIPE), ("twig-use-is-same-as", TK_TRIPLE_EQUAL), ("twig-use-is-not-same-as", TK_EXCLAMATION_MARK_DOUBLE_EQUALS)];
    let (cl, _rx) = cli(k, rules_named(&["twig-logic-and", "twig-logic-or", "twig-use-is-same-as", "twig-use-is-not-same-as"]), true);
    let f = file(text, &cl);
    let fs = findings(&f);
    for (rule, op) in R {
        let mut want = vec![];
        for t in tokens(&f.tree_root) { if active(&f, rule) && t.kind() == op { if let Some(p) = t.parent() { if p.kind() == TWIG_BINARY_EXPRESSION && !in_error(&p) && !ignored(&p, rule) { want.push(span(t.text_range())); } } } }
        expect_primaries(&fs, rule, want, 24, text);
    }
    if !f.parse_errors.is_empty() || !complete(&f.tree_root) || fs.is_empty() { return; }
    // the argument of a test without parentheses reaches further than in Twig
    for n in f.tree_root.descendants() {
        if n.kind() == TWIG_ARGUMENTS && !n.children_with_tokens().any(|e| e.kind() == TK_OPEN_PARENTHESIS) && n.descendants_with_tokens().any(|e| matches!(e.kind(), TK_TRIPLE_EQUAL | TK_EXCLAMATION_MARK_DOUBLE_EQUALS)) { return; }
    }
    let mut a = String::new(); norm(&f.tree_root, &mut a);
    let other = |t: &str, how: &str| {
        let p = ludtwig_parser::parse(t);
        let mut b = String::new(); norm(&SyntaxNode::new_root(p.green_node), &mut b);
        check(a == b && p.errors.is_empty(), 241, || format!("{how} changes the meaning of {text:?} to {t:?}: {a} to {b}"));
    };
    // every suggestion alone
    for x in &fs { if !x.sug.is_empty() { reach(240); other(&apply(text, &x.sug), x.rule); } }
    match fix(text, &cl) { Fixed::Text(t, _, _) => { reach(241); other(&t, "fixing") } Fixed::Refused(_) => reach(242) }
}
// ------------------------------------------------------------------------------------------------ independence, reporting
fn independent(k: Config, text: &str) {
    let (cl, _rx) = cli(k, all_rules(), false);
    let f = file(text, &cl);
    let fs = findings(&f);
    reach(if fs.is_empty() { 1 } else { 2 });
    let rs = f.file_rule_definitions.clone();
    for r in &rs {
        let (c1, _r) = cli_same(&cl, vec![*r]);
        let alone: Vec<Finding> = run_rules(&with_rules(&f, &c1, vec![*r])).iter().map(finding).collect();
        let mine: Vec<&Finding> = fs.iter().filter(|x| x.rule == r.name()).collect();
        if !mine.is_empty() { reach(270); }
        check(alone.iter().collect::<Vec<_>>() == mine, 27, || format!("{} alone reports {alone:?} in {text:?}, together with the other rules {mine:?}", r.name()));
    }
    // half of them, in another order
    let half: Vec<&'static dyn Rule> = rs.iter().rev().step_by(2).copied().collect();
    let (c1, _r) = cli_same(&cl, half.clone());
    let mut got: Vec<Finding> = run_rules(&with_rules(&f, &c1, half.clone())).iter().map(finding).collect(); got.sort();
    let mut want: Vec<Finding> = fs.iter().filter(|x| half.iter().any(|h| h.name() == x.rule)).cloned().collect(); want.sort();
    check(got == want, 27, || format!("half of the rules report {got:?} in {text:?}, together with the others {want:?}"));
}
fn cli_same(cl: &CliContext, rules: Vec<&'static dyn Rule>) -> (CliContext, Receiver<ProcessingEvent>) { cli(cl.data.config.clone(), rules, false) }
fn reported(k: Config, text: &str, inspect: bool) {
    let (tx, rx) = channel();
    let cl = CliContext { output_tx: tx, data: Arc::new(CliSharedData { fix: false, inspect, config: k, rule_definitions: all_rules() }) };
    let f = file(text, &cl);
    let mut want = [0usize; 4];
    for x in findings(&f) { want[x.sev as usize] += 1; reach(280 + u32::from(x.sev)); }
    want[0] += ludtwig_parser::parse(text).errors.len();
    if !f.parse_errors.is_empty() { reach(285); }
    if inspect { want[3] += 1; }
    drop(f);
    let r = crate::process::verif_run_analysis(PathBuf::from("t.twig"), text.to_string(), cl);
    check(r.is_ok(), 28, || format!("analysing {text:?} failed"));
    let mut have = [0usize; 4]; let mut out = 0;
    while let Ok(e) = rx.try_recv() { match e { ProcessingEvent::Report(s) => have[sev(s) as usize] += 1, ProcessingEvent::OutputStderrMessage(_) => out += 1, ProcessingEvent::FileProcessed => out += 100 } }
    check(have == want && out == 1, 28, || format!("{text:?} leads to {have:?} events (error, warning, help, info) and {out} messages, expected {want:?} and 1"));
}
/// C48: what is printed for every finding: severity, name, message, line and column
fn printed(k: Config, text: &str, mode: u8) {
    let inspect = mode == 1;
    let (tx, _rx) = channel();
    let cl = CliContext { output_tx: tx, data: Arc::new(CliSharedData { fix: false, inspect, config: k, rule_definitions: all_rules() }) };
    let f = file(text, &cl);
    let r = run_rules(&f);
    // after a fix: what is found in the text as it is then
    let (f, r, fixed) = if mode == 2 {
        let Ok((f, r, dirty, _)) = iteratively_apply_suggestions(f, r) else { return };
        if !dirty { return; }
        let t = f.source_code.clone();
        (f, r, Some(t))
    } else { (f, r, None) };
    let fresh = fixed.as_ref().map(|t| { let g = file(t, &cl); let r = run_rules(&g); reach(482); (g, r) });
    let text = fixed.as_deref().unwrap_or(text);
    let place = |p: usize| { let (mut l, mut c) = (1usize, 1usize); for (i, x) in text.char_indices() { if i >= p { break; } if x == '\n' { l += 1; c = 1; } else { c += 1; } } (l, c) };
    type Shown = (&'static [u8], Vec<u8>, Vec<u8>, Option<(usize, usize)>);
    let names: [&'static [u8]; 4] = [b"error", b"warning", b"help", b"note"];
    let line = |s: &str| s.bytes().take_while(|b| *b != b'\n').collect::<Vec<u8>>();
    let mut want: Vec<Shown> = vec![];
    for e in &fresh.as_ref().map_or(&f, |g| &g.0).parse_errors { reach(480); want.push((b"error", b"SyntaxError".to_vec(), b"The parser encountered a syntax error".to_vec(), Some(place(e.range.start().into())))); }
    for x in fresh.as_ref().map_or(&r, |g| &g.1).iter().map(finding) {
        reach(481);
        let at = x.pri.map(|p| p.0).or_else(|| x.sec.iter().map(|s| s.0).chain(x.sug.iter().map(|s| s.0.0)).min());
        want.push((names[x.sev as usize], x.rule.as_bytes().to_vec(), line(&x.msg), at.map(place)));
    }
    let mut b = codespan_reporting::term::termcolor::Buffer::no_color();
    produce_diagnostics(&f, r, &mut b);
    let out = b.as_slice();
    let mut have: Vec<Shown> = vec![];
    let mut trees = 0;
    let mut i = 0;
    while i < out.len() {
        let mut e = i; while e < out.len() && out[e] != b'\n' { e += 1; }
        let l = &out[i..e];
        i = e + 1;
        if let Some(n) = names.iter().find(|n| l.starts_with(n) && l.get(n.len()) == Some(&b'[')) {
            let l = &l[n.len() + 1..];
            let Some(z) = l.iter().position(|b| *b == b']') else { continue };
            if z == 10 && l[6] == b'T' { trees += 1; continue; }
            have.push((*n, l[..z].to_vec(), l[(z + 3).min(l.len())..].to_vec(), None));
        } else if l.first() == Some(&b' ') {
            let k = l.iter().position(|b| *b != b' ').unwrap_or(0);
            const AT: &str = "┌─ t.twig:";
            if l.len() < k + AT.len() || !(0..AT.len()).all(|i| l[k + i] == std::hint::black_box(AT.as_bytes()[i])) { continue; }
            let p = &l[k + AT.len()..];
            let mut n = p.split(|b| *b == b':').map(|x| x.iter().fold(0usize, |a, d| a * 10 + usize::from(d.wrapping_sub(b'0'))));
            if let (Some(h), Some(a), Some(b)) = (have.last_mut(), n.next(), n.next()) { if h.3.is_none() { h.3 = Some((a, b)); } }
        }
    }
    want.sort(); have.sort();
    let show = |v: &[Shown]| v.iter().map(|x| format!("{}[{}] {} {:?}", String::from_utf8_lossy(x.0), String::from_utf8_lossy(&x.1), String::from_utf8_lossy(&x.2), x.3)).collect::<Vec<_>>().join(", ");
    check(trees == usize::from(inspect), 48, || format!("the syntax tree of {text:?} is printed {trees} times"));
    check(want == have, 48, || format!("{text:?} leads to the output {}, expected {}", show(&have), show(&want)));
}
// ------------------------------------------------------------------------------------------------ line breaks
fn comment(n: &SyntaxNode) -> bool { matches!(n.kind(), TWIG_COMMENT | HTML_COMMENT | LUDTWIG_DIRECTIVE_FILE_IGNORE | LUDTWIG_DIRECTIVE_IGNORE) }
/// for every block that is judged: (offset behind which the line breaks in front of it are, how many), the same for those behind it
fn breaks_wanted(f: &FileContext, rule: &'static str, blank: usize) -> Vec<(usize, usize)> {
    let mut o = vec![];
    for b in live(f, TWIG_BLOCK, rule) {
        if b.ancestors().any(|a| keeps(&a)) { reach(370); continue; }
        let (Some(_), Some(end)) = (child(&b, TWIG_STARTING_BLOCK), child(&b, TWIG_ENDING_BLOCK)) else { continue };
        // one comment belongs to the block behind it
        let own = b.prev_sibling().filter(comment);
        let before = own.as_ref().unwrap_or(&b).prev_sibling();
        let after = b.next_sibling();
        let next = match &after { Some(a) if comment(a) => a.next_sibling(), a => a.clone() };
        // the first thing at the top of the file is not judged
        if before.is_none() && b.parent().is_none_or(|p| p.kind() == ROOT) { reach(371); continue; }
        o.push((span(own.as_ref().unwrap_or(&b).text_range()).0, if before.is_some() { blank } else { 1 }));
        if before.is_some() { reach(372); }
        // the next block cares for the line breaks in front of it
        if next.is_some_and(|n| n.kind() == TWIG_BLOCK) { reach(373); continue; }
        if end.text_range().is_empty() { continue; }
        // what is missing after a syntax error (a node without text) ends the search for the next token
        if !f.parse_errors.is_empty() && end.last_token().and_then(|t| t.next_token()).is_none() { continue; }
        o.push((span(end.text_range()).1, if after.is_some() { blank } else { 1 }));
    }
    o
}
fn block_breaks(k: Config, text: &str) {
    let rule = "twig-block-line-breaks";
    let (lb, blank) = (if k.format.line_ending == LineEnding::WindowsCRLF { "\r\n" } else { "\n" }, if k.format.linebreaks_around_blocks { 2 } else { 1 });
    let (cl, _rx) = cli(k.clone(), rules_named(&[rule]), false);
    let f = file(text, &cl);
    let mut want: Vec<(Span, String)> = vec![];
    let at_token = |f: &FileContext, at: usize| tokens(&f.tree_root).into_iter().find(|t| span(t.text_range()).0 == at && !t.text().is_empty());
    for (at, n) in breaks_wanted(&f, rule, blank) {
        let Some(t) = at_token(&f, at) else { continue };
        let e = lb.repeat(n);
        if t.kind() != TK_LINE_BREAK { want.push(((at, at), e)); } else if t.text() != e { want.push((span(t.text_range()), e)); }
    }
    let fs = findings(&f);
    want.sort();
    reach(if want.is_empty() { 40 } else { 41 });
    let mut have: Vec<(Span, String)> = of(&fs, rule).iter().flat_map(|x| x.sug.clone()).collect(); have.sort();
    check(have == want && fs.iter().all(|x| x.sug.len() == 1 && x.pri == Some(x.sug[0].0)), 37, || format!("line breaks around the blocks of {text:?} are changed at {have:?}, expected {want:?}"));
    // the result of all formatting rules
    if text.contains("ludtwig-ignore") || !f.parse_errors.is_empty() { return; }
    let (cl, _rx) = cli(k, rules_named(&FORMATTING), true);
    if let Fixed::Text(t, _, _) = fix(text, &cl) {
        let f = file(&t, &cl);
        for (at, n) in breaks_wanted(&f, rule, blank) {
            let gap = &t[at..]; let gap = &gap[..gap.bytes().position(|b| !matches!(b, b' ' | b'\t' | b'\r' | b'\n')).unwrap_or(gap.len())];
            let rest = gap.strip_prefix(lb.repeat(n).as_str());
            if gap.is_empty() && at == t.len() { continue; }
            reach(374);
            check(rest.is_some_and(|r| r.bytes().all(|b| matches!(b, b' ' | b'\t'))), 37, || format!("after fixing {text:?} to {t:?} there is {gap:?} at {at} instead of {n} line breaks"));
        }
    }
}
fn blank_lines(k: Config, text: &str) {
    let rule = "whitespace-between-line-breaks";
    let (cl, _rx) = cli(k.clone(), rules_named(&[rule]), false);
    let f = file(text, &cl);
    let blank = |f: &FileContext| -> Vec<Span> { if !active(f, rule) { return vec![]; } tokens(&f.tree_root).windows(3).filter(|w| w[0].kind() == TK_LINE_BREAK && w[1].kind() == TK_WHITESPACE && w[2].kind() == TK_LINE_BREAK && w[0].parent().is_some_and(|p| !in_error(&p) && !p.ancestors().any(|a| keeps(&a))) && !ignored_token(&w[0], rule)).map(|w| span(w[1].text_range())).collect() };
    let want = blank(&f);
    let fs = findings(&f);
    check(fs.iter().all(|x| x.sug.len() == 1 && x.pri == Some(x.sug[0].0) && x.sug[0].1.is_empty()), 38, || format!("{rule} suggests something else than removing the white space in {text:?}"));
    if !want.is_empty() { reach(380); }
    expect_primaries(&fs, rule, want, 38, text);
    let (cl, _rx) = cli(k, rules_named(&FORMATTING), true);
    if let Fixed::Text(t, _, _) = fix(text, &cl) { let left = blank(&file(&t, &cl)); reach(381); check(left.is_empty(), 38, || format!("after fixing {text:?} to {t:?} there is white space on the empty lines {left:?}")); }
}
/// opts: number of events
pub fn run_events(c: &mut Cfg) {
    let (tx, rx) = channel();
    let (mut files, mut bad) = (0, 0);
    let mut count = [0usize; 4];
    for _ in 0..c.opt(0) {
        let kind = c.choose(7);
        if kind == 6 { continue; }
        // how often it happens
        let times = if c.opt(1) == 0 { 1 } else { [1, 255, 256, 257][c.choose(4) as usize] };
        for _ in 0..times {
            let e = match kind {
                0 => { files += 1; ProcessingEvent::FileProcessed }
                1 => { bad += 1; count[0] += 1; ProcessingEvent::Report(Severity::Error) }
                2 => { bad += 1; count[1] += 1; ProcessingEvent::Report(Severity::Warning) }
                3 => { bad += 1; count[2] += 1; ProcessingEvent::Report(Severity::Help) }
                4 => { count[3] += 1; ProcessingEvent::Report(Severity::Info) }
                _ => ProcessingEvent::OutputStderrMessage(codespan_reporting::term::termcolor::Buffer::no_color()),
            };
            let _ = tx.send(e);
        }
    }
    drop(tx);
    unsafe { (*std::ptr::addr_of_mut!(super::files::PRINTED)).clear(); super::files::RECORD = true; }
    let r = crate::output::handle_processing_output(&rx);
    let _ = std::io::Write::flush(&mut std::io::stdout());
    let printed = unsafe { super::files::RECORD = false; String::from_utf8_lossy(&*std::ptr::addr_of!(super::files::PRINTED)).into_owned() };
    let want = i32::from(files > 0 && bad > 0);
    digest(r as u64);
    reach(250 + want as u32);
    // the parent process sees the lowest eight bits
    check((r & 0xff != 0) == (want != 0), 25, || format!("{files} files and {bad} findings lead to the exit status {r}"));
    // the numbers of the summary: files, findings of each severity, total
    let numbers: Vec<usize> = printed.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.bytes().fold(0, |a, b| a * 10 + usize::from(b - b'0'))).collect();
    check(numbers == [files, count[0], count[1], count[2], count[3], count.iter().sum()], 25, || format!("{files} files and {count:?} findings are summed up as {printed:?}"));
}
/// the configured list: names of the text separated by commas
pub fn run_active(c: &mut Cfg) {
    let text = c.text();
    let mut k = default_config();
    k.general.active_rules = text.split(',').map(|s| s.to_string()).collect();
    let known: Vec<&'static str> = RULE_DEFINITIONS.iter().map(|r| r.name()).collect();
    let unknown: Vec<&str> = text.split(',').filter(|n| !known.contains(n)).collect();
    match get_config_active_rule_definitions(&k) {
        Ok(r) => {
            reach(260);
            check(unknown.is_empty(), 26, || format!("the list {text:?} with the unknown rules {unknown:?} is accepted"));
            let mut have: Vec<&str> = r.iter().map(|r| r.name()).collect(); have.sort_unstable();
            let mut want: Vec<&str> = text.split(',').collect(); want.sort_unstable(); want.dedup();
            check(have == want, 26, || format!("the list {text:?} activates {have:?}"));
        }
        Err(e) => {
            reach(261);
            check(!unknown.is_empty(), 26, || format!("the list {text:?} is rejected: {e}"));
            let m = e.to_string();
            check(unknown.iter().any(|u| m.contains(u)), 26, || format!("the list {text:?} is rejected with {m:?}"));
        }
    }
}
// ------------------------------------------------------------------------------------------------ indentation, keys, advice
fn indentation(k: Config, text: &str) {
    let rule = "indentation";
    let unit = if k.format.indentation_mode == IndentationMode::Tab { "\t" } else { " " }.repeat(k.format.indentation_count as usize);
    let blocks = k.format.indent_children_of_blocks;
    let (cl, _rx) = cli(k, rules_named(&[rule]), false);
    let f = file(text, &cl);
    assume(!astray(&f));
    let fs = findings(&f);
    let ts = tokens(&f.tree_root);
    let mut want: Vec<(Span, String)> = vec![]; let mut skipped: Vec<usize> = vec![];
    for (i, t) in ts.iter().enumerate() {
        if !active(&f, rule) { break; }
        if t.kind() == TK_LINE_BREAK || (i > 0 && ts[i - 1].kind() != TK_LINE_BREAK) { continue; }
        let p = t.parent().unwrap();
        let at: usize = t.text_range().start().into();
        if i > 0 && ts[i - 1].parent().is_some_and(|p| p.ancestors().any(|a| keeps(&a))) { reach(300); continue; }
        if in_error(&p) || ignored(&p, rule) || p.ancestors().any(|a| keeps(&a)) { reach(300); continue; }
        if i > 0 && ts[i - 1].parent().is_some_and(|p| in_error(&p) || ignored(&p, rule)) { skipped.push(at); continue; }
        let (mut level, mut spaces) = (0, 0);
        for a in p.ancestors() {
            let inner = matches!(a.kind(), BODY | TWIG_ARGUMENTS | TWIG_LITERAL_ARRAY_INNER | TWIG_LITERAL_HASH_ITEMS | TWIG_PROP_DECLARATION);
            if inner && (blocks || a.parent().is_none_or(|x| x.kind() != TWIG_BLOCK)) { level += 1; }
            if a.kind() == HTML_ATTRIBUTE_LIST { if let Some(n) = a.parent().and_then(HtmlStartingTag::cast).and_then(|s| s.name()) { spaces += n.text().chars().count() + 2; } }
        }
        let e = unit.repeat(level) + &" ".repeat(spaces);
        if level > 0 { reach(301); } if spaces > 0 { reach(302); }
        if t.kind() == TK_WHITESPACE { if t.text() != e { want.push((span(t.text_range()), e)); } } else if !e.is_empty() { want.push(((at, at), e)); }
    }
    let have: Vec<&Finding> = of(&fs, rule).into_iter().filter(|x| !x.pri.is_some_and(|p| skipped.contains(&p.0))).collect();
    reach(if want.is_empty() { 40 } else { 41 });
    let h: Vec<(Span, String)> = have.iter().map(|x| x.sug.first().cloned().unwrap_or(((0, 0), "no suggestion".into()))).collect();
    want.sort();
    let mut h2 = h.clone(); h2.sort();
    check(h2 == want && have.iter().all(|x| x.sug.len() == 1 && x.pri == Some(x.sug[0].0)), 30, || format!("indentation of {text:?} is changed at {h2:?}, expected {want:?}"));
}
fn name_like(s: &str) -> bool { !s.is_empty() && !s.as_bytes()[0].is_ascii_digit() && s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') }
fn hash_keys(k: Config, text: &str) {
    let rule = "twig-hash-key-no-quotes";
    let (cl, _rx) = cli(k, rules_named(&[rule]), false);
    let f = file(text, &cl);
    let mut fs = findings(&f);
    let mut want = vec![]; let mut unjudged = vec![];
    for n in live(&f, TWIG_LITERAL_HASH_KEY, rule) {
        let Some(s) = child(&n, TWIG_LITERAL_STRING) else { continue };
        let Some(i) = child(&s, TWIG_LITERAL_STRING_INNER) else { continue };
        if !i.text().to_string().is_ascii() { unjudged.push(trimmed(&s).unwrap()); continue; }
        if name_like(&i.text().to_string()) { want.push(trimmed(&s).unwrap()); } else { reach(310); }
    }
    fs.retain(|x| !x.pri.is_some_and(|p| unjudged.contains(&p)));
    expect_primaries(&fs, rule, want, 31, text);
    if !f.parse_errors.is_empty() { return; }
    for x in of(&fs, rule) {
        reach(311);
        let p = x.pri.unwrap();
        let t = apply(text, &x.sug);
        let e = format!("{}{}{}", &text[..p.0], &text[p.0 + 1..p.1 - 1], &text[p.1..]);
        check(t == e, 31, || format!("{rule} changes {text:?} to {t:?}"));
        let r = ludtwig_parser::parse(&t);
        let root = SyntaxNode::new_root(r.green_node);
        let key = root.descendants().find(|n| n.kind() == TWIG_LITERAL_HASH_KEY && trimmed(n) == Some((p.0, p.1 - 2)));
        check(r.errors.is_empty() && key.is_some_and(|k| { let t: Vec<SyntaxToken> = tokens(&k).into_iter().filter(|t| !t.kind().is_trivia()).collect(); t.len() == 1 && t[0].kind() == TK_WORD }), 31, || format!("{rule} changes {text:?} to {t:?} in which the key is not a plain name"));
    }
}
fn advice(k: Config, text: &str) {
    let (cl, _rx) = cli(k, rules_named(&["twig-json-encode-escape-js", "twig-prefer-shopware-extends"]), false);
    let f = file(text, &cl);
    let mut fs = findings(&f);
    settle(&mut fs, &f.tree_root);
    let rule = "twig-json-encode-escape-js";
    let mut want = vec![];
    for n in live(&f, TWIG_FILTER, rule) {
        if n.ancestors().any(|a| matches!(a.kind(), TWIG_FILTER | TWIG_BINARY_EXPRESSION | TWIG_FUNCTION_CALL) && doubtful(&a)) { continue; }
        let ops = |n: &SyntaxNode| -> Vec<SyntaxNode> { n.children().filter(|c| c.kind() == TWIG_OPERAND).collect() };
        let o = ops(&n);
        let Some(t) = o.get(1).and_then(plain_call) else { continue };
        if t.text() != "raw" || o[1].children().next().is_none_or(|c| c.kind() != TWIG_LITERAL_NAME) { continue; }
        let mut cur = o[0].clone();
        while let Some(inner) = cur.children().next().filter(|c| c.kind() == TWIG_FILTER) {
            let o = ops(&inner);
            if o.get(1).and_then(plain_call).is_some_and(|t| t.text() == "json_encode") { want.push(span(t.text_range())); break; }
            let Some(l) = o.first() else { break };
            cur = l.clone();
        }
    }
    if !want.is_empty() { reach(320); }
    expect_primaries(&fs, rule, want, 32, text);
    if f.parse_errors.is_empty() { for x in of(&fs, rule) { let t = apply(text, &x.sug); let p = x.pri.unwrap(); let e = f.tree_root.token_at_offset((p.0 as u32 + 1).into()).left_biased().and_then(|t| t.parent()).and_then(|n| n.parent()).map_or(p.1, |o| span(o.text_range()).1);
        check(!x.sug.is_empty() && t == format!("{}escape('js'){}", &text[..p.0], &text[e..]), 32, || format!("{rule} changes {text:?} to {t:?}")); } }
    let rule = "twig-prefer-shopware-extends";
    let mut have: Vec<Vec<(Span, String)>> = of(&fs, rule).iter().map(|x| x.sug.clone()).collect(); have.sort();
    let mut want: Vec<Vec<(Span, String)>> = live(&f, TWIG_EXTENDS, rule).iter().filter_map(|n| n.children_with_tokens().filter_map(|e| e.into_token()).find(|t| t.kind() == TK_EXTENDS)).map(|t| vec![(span(t.text_range()), "sw_extends".to_string())]).collect(); want.sort();
    if !want.is_empty() { reach(321); }
    check(have == want, 32, || format!("{rule} suggests {have:?} in {text:?}, expected {want:?}"));
}
