//! Harness over ludtwig-parser.
#![allow(unexpected_cfgs)]
#[macro_use]
#[path = "rt.rs"]
pub mod rt;
pub mod access;
pub mod contain;
pub mod local;
pub mod exprref;
pub mod lexref;
pub mod opaque;
pub mod shape;
pub mod spelling;
use ludtwig_parser::syntax::typed::AstNode;
use ludtwig_parser::syntax::untyped::SyntaxKind::*;
use ludtwig_parser::syntax::untyped::*;
use ludtwig_parser::verif::{lex_tokens, parse_tokens};
use ludtwig_parser::*;
use rt::*;

fn h_warmup_impl() { let _ = parse("<a href=\"x\">{{ a }}{% if a %}b{% endif %}{% set x_y = 1 %}</a>"); }
#[unsafe(no_mangle)]
pub extern "C" fn h_warmup() { h_warmup_impl() }

fn span(r: TextRange) -> (usize, usize) { (r.start().into(), r.end().into()) }

/// C01: leaf tokens concatenate to the input
pub fn lossless(root: &SyntaxNode, text: &str, code: u32) {
    let mut pos = 0usize;
    for el in root.descendants_with_tokens() {
        if let Some(t) = el.into_token() {
            let b = t.text().as_bytes();
            check(pos + b.len() <= text.len(), code, || format!("the tree is longer than the text {text:?}"));
            check(same(b, &text.as_bytes()[pos..pos + b.len()]), code, || format!("token {t:?} at {pos} differs from the text {text:?}"));
            check(usize::from(t.text_range().start()) == pos, code, || format!("token {t:?} has a wrong offset in {text:?}"));
            pos += b.len();
        }
    }
    check(pos == text.len(), code, || format!("the tree ends at {pos} but the text has {} bytes: {text:?}", text.len()));
}
/// C03
pub fn error_ranges(p: &[ParseError], text: &str, code: u32) {
    for e in p {
        let (a, b) = span(e.range);
        check(a <= b && b <= text.len() && text.is_char_boundary(a) && text.is_char_boundary(b), code, || format!("'{e}' lies outside of {text:?}"));
    }
}
/// C43: an error names the token at its range
fn errors_name_tokens(p: &[ParseError], toks: &[(SyntaxKind, usize, usize)], text: &str) {
    for e in p {
        let r = span(e.range);
        let Some(i) = toks.iter().position(|t| (t.1, t.2) == r) else { fail(43, || format!("'{e}' in {text:?} is not at a token")) };
        match e.found {
            Some(k) => { reach(430); check(k == toks[i].0 && !k.is_trivia(), 43, || format!("'{e}' in {text:?} does not name the token {:?} at its place", toks[i].0)); }
            // at the end of the file: the last token
            None => { reach(431); check(i + 1 == toks.len(), 43, || format!("'{e}' in {text:?} is not at the last token")); }
        }
        check(!e.expected.is_empty(), 43, || format!("'{e}' in {text:?} does not say what is missing"));
    }
}
fn digest_tree(root: &SyntaxNode) {
    for el in root.descendants_with_tokens() { digest(el.kind() as u64); digest(u64::from(u32::from(el.text_range().end()))); }
}

/// opts: property
fn run_parse(c: &mut Cfg) {
    let text = c.text();
    let p = parse(&text);
    examine(c.opt(0), &text, p)
}
fn examine(what: u8, text: &str, p: Parse) {
    let root = SyntaxNode::new_root(p.green_node);
    reach(if p.errors.is_empty() { 1 } else { 2 });
    digest_tree(&root);
    match what {
        1 => lossless(&root, text, 1),
        3 => error_ranges(&p.errors, text, 3),
        6 | 7 => if p.errors.is_empty() { balanced(&root, text, what.into()) },
        8 => access::check_all(&root, p.errors.is_empty(), text, 8),
        41 => if p.errors.is_empty() { shape::check_all(&root, text, 41) },
        43 => { let t: Vec<_> = lex_tokens(text).into_iter().map(|t| { let r = span(t.2); (t.0, r.0, r.1) }).collect(); errors_name_tokens(&p.errors, &t, text) }
        36 => check(p.errors.is_empty(), 36, || format!("well-formed {text:?} is rejected: {}", p.errors[0])),
        _ => {}
    }
}

// ---- token level: every byte 0x01 of the text is one token of a symbolic kind

/// spelling of a token of this kind
pub fn spell(k: SyntaxKind) -> &'static str {
    match k {
        TK_WHITESPACE => " ", TK_LINE_BREAK => "\n", TK_WORD => "a", TK_TWIG_COMPONENT_NAME => "twig:a", TK_NUMBER => "1",
        TK_HTML_ESCAPE_CHARACTER => "&a;", TK_UNKNOWN => "\u{1}",
        _ => spelling::FIXED.iter().find(|f| f.0 == k).map_or("\u{1}", |f| f.1),
    }
}
pub static ALL_KINDS: std::sync::OnceLock<Vec<SyntaxKind>> = std::sync::OnceLock::new();
fn kinds(class: u8) -> Vec<SyntaxKind> {
    let mut o: Vec<SyntaxKind> = vec![];
    for f in spelling::FIXED { if !o.contains(&f.0) && (class == 0 || exprref::binary(f.0).is_some()) { o.push(f.0); } }
    if class == 0 { o.extend([TK_WHITESPACE, TK_LINE_BREAK, TK_WORD, TK_TWIG_COMPONENT_NAME, TK_NUMBER, TK_HTML_ESCAPE_CHARACTER, TK_UNKNOWN]); }
    o
}
/// opts: property, class of kinds (0: all tokens, 1: binary operators)
fn run_tokens(c: &mut Cfg) {
    let ks = kinds(c.opt(1));
    let dom: Vec<u8> = (0..ks.len() as u8).collect();
    let text = c.text();
    let mut items: Vec<(SyntaxKind, &str)> = vec![];
    for (k, t, _) in lex_tokens(&text) {
        if t == "\u{1}" { let mut b = [0u8]; sym(&mut b, &dom); items.push((ks[b[0] as usize], t)); } else { items.push((k, t)); }
    }
    if cfg!(feature = "native") {
        // the real text of these tokens decides
        let real: String = items.iter().map(|i| if i.1 == "\u{1}" { spell(i.0) } else { i.1 }).collect();
        print(&format!("text {real:?}"));
        let lexed = lex_tokens(&real);
        let p = parse_tokens(&items);
        digest_tree(&SyntaxNode::new_root(p.green_node));
        if lexed.len() != items.len() || lexed.iter().zip(&items).any(|(a, b)| a.0 != b.0) { known(99); }
        let p = parse(&real);
        return token_property(c.opt(0), &real, p, &items);
    }
    let p = parse_tokens(&items);
    digest_tree(&SyntaxNode::new_root(p.green_node.clone()));
    token_property(c.opt(0), &text, p, &items);
}
fn token_property(what: u8, text: &str, p: Parse, items: &[(SyntaxKind, &str)]) {
    let root = SyntaxNode::new_root(p.green_node);
    reach(if p.errors.is_empty() { 1 } else { 2 });
    match what {
        1 => lossless(&root, text, 1),
        3 => error_ranges(&p.errors, text, 3),
        43 => {
            let mut pos = 0;
            let t: Vec<_> = items.iter().map(|i| { let a = pos; pos += if cfg!(feature = "native") && i.1 == "\u{1}" { spell(i.0).len() } else { i.1.len() }; (i.0, a, pos) }).collect();
            errors_name_tokens(&p.errors, &t, text)
        }
        4 => {
            let mut pos = 0;
            let toks: Vec<(SyntaxKind, usize, usize)> = items.iter().map(|i| { let a = pos; pos += if cfg!(feature = "native") && i.1 == "\u{1}" { spell(i.0).len() } else { i.1.len() }; (i.0, a, pos) }).filter(|t| !t.0.is_trivia()).collect();
            grouping(&root, &p.errors, &toks, text, 4)
        }
        6 | 7 => if p.errors.is_empty() { balanced(&root, text, what.into()) },
        8 => access::check_all(&root, p.errors.is_empty(), text, 8),
        41 => if p.errors.is_empty() { shape::check_all(&root, text, 41) },
        _ => {}
    }
}
/// the expression is everything between the first `{{`, `(`.. given by the markers: the first WORD token 'L' and the last 'R'
fn grouping(root: &SyntaxNode, errors: &[ParseError], toks: &[(SyntaxKind, usize, usize)], text: &str, code: u32) {
    // the expression sits between `x = ` / `{{` / `(` .. : the tokens after the first of [`=`, `{{`, `if`, `do`, `return`] up to the closing delimiter
    let from = toks.iter().position(|t| matches!(t.0, TK_EQUAL | TK_OPEN_CURLY_CURLY | TK_IF | TK_DO | TK_RETURN)).unwrap_or(0) + 1;
    let to = toks.iter().position(|t| matches!(t.0, TK_CLOSE_CURLY_CURLY | TK_PERCENT_CURLY)).unwrap_or(toks.len());
    assume(from < to);
    if !exprref::check_grouping(root, toks, from, to, code, text, errors.is_empty()) { fail(code, || format!("{text:?} is rejected: {}", errors[0])); }
}
fn run_group(c: &mut Cfg) {
    let text = c.text();
    let lexed = lex_tokens(&text);
    let toks: Vec<(SyntaxKind, usize, usize)> = lexed.iter().filter(|t| !t.0.is_trivia()).map(|t| { let (a, b) = span(t.2); (t.0, a, b) }).collect();
    let p = parse(&text);
    let root = SyntaxNode::new_root(p.green_node);
    digest_tree(&root);
    grouping(&root, &p.errors, &toks, &text, if c.opt(0) == 39 { 39 } else { 4 });
}

// ---- C09
fn run_lex(c: &mut Cfg) {
    let text = c.text();
    let lexed: Vec<(SyntaxKind, usize, usize)> = lex_tokens(&text).iter().map(|t| { let (a, b) = span(t.2); (t.0, a, b) }).collect();
    for t in &lexed { digest(t.0 as u64); digest(t.2 as u64); }
    lexref::check_tokens(&text, &lexed, 9);
    reach(lexed.len() as u32);
    if c.opt(0) == 1 {
        let root = SyntaxNode::new_root(parse(&text).green_node);
        let mut i = 0;
        for el in root.descendants_with_tokens() {
            let Some(t) = el.into_token() else { continue };
            let (a, b) = span(t.text_range());
            let k = t.kind();
            let from = i;
            while i < lexed.len() && lexed[i].2 <= b { i += 1; }
            check(from < i && lexed[from].1 == a && lexed[i - 1].2 == b, 19, || format!("leaf {t:?} does not consist of whole tokens in {text:?}"));
            if i - from == 1 && lexed[from].0 == k { continue; }
            // the grammar joins tokens to names and uses keywords as names
            check(k == TK_WORD, 19, || format!("leaf {t:?} has another kind than its tokens {:?} in {text:?}", &lexed[from..i]));
            check(lexed[from..i].iter().all(|x| !x.0.is_trivia()), 19, || format!("leaf {t:?} is a name with blanks in {text:?}"));
        }
    }
}

// ---- C05: two texts which differ in trivia only
#[derive(PartialEq, Eq)]
enum Sk { In(SyntaxKind), Out, Tok(SyntaxKind, Vec<u8>) }
fn skeleton(root: &SyntaxNode) -> Vec<Sk> {
    let mut o = vec![];
    for e in root.preorder_with_tokens() {
        match e {
            WalkEvent::Enter(el) => match el { rowan::NodeOrToken::Node(n) => o.push(Sk::In(n.kind())), rowan::NodeOrToken::Token(t) => if !t.kind().is_trivia() { o.push(Sk::Tok(t.kind(), t.text().as_bytes().to_vec())) } },
            WalkEvent::Leave(el) => if el.as_node().is_some() { o.push(Sk::Out) },
        }
    }
    o
}
/// text with gap marks: 0x01 optional blank, 0x02 required blank; opts: indices of the gaps that vary
fn run_trivia(c: &mut Cfg) {
    const OPT: [&str; 6] = ["", " ", "\n", "\t", "\r\n", "  \n "];
    const REQ: [&str; 5] = [" ", "\n", "\t", "\r\n", " \n  "];
    let vary: Vec<usize> = c.opts.iter().map(|o| *o as usize).collect();
    let t = c.bytes();
    let (mut a, mut b) = (vec![], vec![]);
    let mut gap = 0;
    for x in t {
        match x {
            1 => { let k = if vary.contains(&gap) { c.choose(OPT.len() as u8) } else { 0 }; b.extend_from_slice(OPT[k as usize].as_bytes()); gap += 1; }
            2 => { let k = if vary.contains(&gap) { c.choose(REQ.len() as u8) } else { 0 }; a.push(b' '); b.extend_from_slice(REQ[k as usize].as_bytes()); gap += 1; }
            x => { a.push(x); b.push(x); }
        }
    }
    let (a, b) = unsafe { (String::from_utf8_unchecked(a), String::from_utf8_unchecked(b)) };
    let (ta, tb) = (lex_tokens(&a), lex_tokens(&b));
    let (ka, kb): (Vec<_>, Vec<_>) = (ta.iter().filter(|t| !t.0.is_trivia()).map(|t| t.0).collect(), tb.iter().filter(|t| !t.0.is_trivia()).map(|t| t.0).collect());
    assume(ka == kb);
    reach(5);
    let (pa, pb) = (parse(&a), parse(&b));
    let (ra, rb) = (SyntaxNode::new_root(pa.green_node), SyntaxNode::new_root(pb.green_node));
    digest_tree(&ra); digest_tree(&rb);
    check(pa.errors.len() == pb.errors.len() && pa.errors.iter().zip(&pb.errors).all(|(x, y)| x.expected == y.expected && x.found == y.found), 5, || format!("{a:?} and {b:?} have different syntax errors: {:?} / {:?}", pa.errors, pb.errors));
    let (sa, sb) = (skeleton(&ra), skeleton(&rb));
    check(sa == sb, 5, || format!("{a:?} and {b:?} have different trees:\n{}\n{}", debug_tree(&ra), debug_tree(&rb)));
}

// ---- C06, C07
const VOID: [&str; 16] = ["area", "base", "br", "col", "command", "embed", "hr", "img", "input", "keygen", "link", "meta", "param", "source", "track", "wbr"];
/// (construct, opening tag, terminating tag)
const PAIRS: &[(SyntaxKind, SyntaxKind, SyntaxKind)] = &[
    (TWIG_IF, TWIG_IF_BLOCK, TWIG_ENDIF_BLOCK), (TWIG_FOR, TWIG_FOR_BLOCK, TWIG_ENDFOR_BLOCK),
    (TWIG_APPLY, TWIG_APPLY_STARTING_BLOCK, TWIG_APPLY_ENDING_BLOCK), (TWIG_AUTOESCAPE, TWIG_AUTOESCAPE_STARTING_BLOCK, TWIG_AUTOESCAPE_ENDING_BLOCK),
    (TWIG_EMBED, TWIG_EMBED_STARTING_BLOCK, TWIG_EMBED_ENDING_BLOCK), (TWIG_SANDBOX, TWIG_SANDBOX_STARTING_BLOCK, TWIG_SANDBOX_ENDING_BLOCK),
    (TWIG_VERBATIM, TWIG_VERBATIM_STARTING_BLOCK, TWIG_VERBATIM_ENDING_BLOCK), (TWIG_MACRO, TWIG_MACRO_STARTING_BLOCK, TWIG_MACRO_ENDING_BLOCK),
    (TWIG_WITH, TWIG_WITH_STARTING_BLOCK, TWIG_WITH_ENDING_BLOCK), (TWIG_CACHE, TWIG_CACHE_STARTING_BLOCK, TWIG_CACHE_ENDING_BLOCK),
    (TWIG_COMPONENT, TWIG_COMPONENT_STARTING_BLOCK, TWIG_COMPONENT_ENDING_BLOCK), (TWIG_TRANS, TWIG_TRANS_STARTING_BLOCK, TWIG_TRANS_ENDING_BLOCK),
    (SHOPWARE_SILENT_FEATURE_CALL, SHOPWARE_SILENT_FEATURE_CALL_STARTING_BLOCK, SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK),
];
/// tags that may not stand alone, and where they belong
const PARTS: &[(SyntaxKind, SyntaxKind)] = &[(TWIG_ELSE_IF_BLOCK, TWIG_IF), (TWIG_ELSE_BLOCK, TWIG_IF), (TWIG_FOR_ELSE_BLOCK, TWIG_FOR), (TWIG_ENDSET_BLOCK, TWIG_SET), (HTML_ENDING_TAG, HTML_TAG), (HTML_STARTING_TAG, HTML_TAG)];
fn name_of(n: &SyntaxNode) -> Option<SyntaxToken> { n.children_with_tokens().filter_map(|e| e.into_token()).find(|t| matches!(t.kind(), TK_WORD | TK_TWIG_COMPONENT_NAME)) }
fn balanced(root: &SyntaxNode, text: &str, code: u32) {
    for n in root.descendants() {
        let k = n.kind();
        let count = |x: SyntaxKind| n.children().filter(|c| c.kind() == x).count();
        if code == 7 {
            if let Some(p) = PAIRS.iter().find(|p| p.0 == k) {
                reach(70);
                check(count(p.1) == 1 && count(p.2) == 1, 7, || format!("{k:?} without its own terminating tag but no syntax error in {text:?}"));
            }
            if let Some(p) = PAIRS.iter().find(|p| p.1 == k || p.2 == k) { check(n.parent().is_some_and(|x| x.kind() == p.0), 7, || format!("{k:?} stands alone but no syntax error in {text:?}")); }
            if let Some(p) = PARTS.iter().find(|p| p.0 == k) { check(n.parent().is_some_and(|x| x.kind() == p.1), 7, || format!("{k:?} stands alone but no syntax error in {text:?}")); }
            if k == TWIG_BLOCK {
                // the short form has an expression after the name and no terminating tag
                let Some(st) = n.children().find(|c| c.kind() == TWIG_STARTING_BLOCK) else { fail(7, || format!("block without opening tag but no syntax error in {text:?}")) };
                let short = st.children().any(|c| c.kind() == TWIG_EXPRESSION);
                reach(72 + u32::from(short));
                check(count(TWIG_STARTING_BLOCK) == 1 && count(TWIG_ENDING_BLOCK) == usize::from(!short), 7, || format!("block without its own terminating tag but no syntax error in {text:?}"));
            }
            if k == TWIG_STARTING_BLOCK || k == TWIG_ENDING_BLOCK { check(n.parent().is_some_and(|x| x.kind() == TWIG_BLOCK), 7, || format!("{k:?} stands alone but no syntax error in {text:?}")); }
            if k == TWIG_SET {
                let (a, b, e) = (count(TWIG_SET_BLOCK), count(TWIG_ENDSET_BLOCK), n.children().filter(|x| x.kind() == TWIG_SET_BLOCK).any(|x| x.descendants_with_tokens().any(|t| t.kind() == TK_EQUAL && t.parent().is_some_and(|x| matches!(x.kind(), TWIG_SET_BLOCK | TWIG_ASSIGNMENT)))));
                reach(71);
                check(a == 1 && b <= 1 && (b == 1) != e, 7, || format!("set without value or terminating tag but no syntax error in {text:?}"));
            }
        }
        if code == 6 && k == HTML_TAG {
            let start = n.children().find(|c| c.kind() == HTML_STARTING_TAG);
            let end: Vec<SyntaxNode> = n.children().filter(|c| c.kind() == HTML_ENDING_TAG).collect();
            let Some(start) = start else { fail(6, || format!("HTML element without opening tag but no syntax error in {text:?}")) };
            let Some(name) = name_of(&start) else { fail(6, || format!("HTML element without name but no syntax error in {text:?}")) };
            let void = VOID.iter().any(|v| same(v.as_bytes(), name.text().to_ascii_lowercase().as_bytes()));
            let closed = start.children_with_tokens().any(|t| t.kind() == TK_SLASH_GREATER_THAN);
            reach(60 + u32::from(void) + 2 * u32::from(closed));
            if void || closed { check(end.is_empty(), 6, || format!("void or self-closing element {name} with a closing tag but no syntax error in {text:?}")); }
            else {
                check(end.len() == 1, 6, || format!("element {name} without closing tag but no syntax error in {text:?}"));
                let Some(e) = name_of(&end[0]) else { fail(6, || format!("closing tag without name but no syntax error in {text:?}")) };
                check(same(e.text().as_bytes(), name.text().as_bytes()), 6, || format!("element {name} closed by {e} but no syntax error in {text:?}"));
            }
        }
    }
}
/// Sequences of tags given by pieces of group A. Roles (opts[1..]): for piece i the byte
/// 0 neutral, 1..=60 opens construct r, 61..=120 terminates construct r-60, 121 elseif, 122 else (if = 1, for = 2)
/// opts[0]: 6|7 error-free only if balanced, 36: balanced implies error-free
fn run_tags(c: &mut Cfg) {
    let text = c.text();
    let mut stack: Vec<(u8, bool)> = vec![];
    let mut ok = true;
    for &p in &c.picks {
        let r = c.opt(1 + p as usize);
        match r {
            0 => {}
            1..=60 => stack.push((r, false)),
            61..=120 => if stack.last().is_some_and(|s| s.0 == r - 60) { stack.pop(); } else { ok = false; }
            121 => if !stack.last().is_some_and(|s| s.0 == 1 && !s.1) { ok = false; },
            // the order of the branches of an `if` is not part of C07
            _ => match stack.last_mut() { Some(s) if s.0 <= 2 && !s.1 => s.1 = s.0 == 2 || c.opt(0) == 36, _ => ok = false }
        }
    }
    ok &= stack.is_empty();
    let p = parse(&text);
    digest_tree(&SyntaxNode::new_root(p.green_node.clone()));
    reach(10 + u32::from(ok));
    if c.opt(0) == 36 { assume(ok); check(p.errors.is_empty(), 36, || format!("balanced {text:?} is rejected: {}", p.errors[0])); }
    else { check(ok || !p.errors.is_empty(), c.opt(0).into(), || format!("unbalanced {text:?} parses without a syntax error")); examine(c.opt(0), &text, p); }
}

entries! { h_parse => run_parse, h_tokens => run_tokens, h_group => run_group, h_lex => run_lex, h_trivia => run_trivia, h_tags => run_tags, h_opaque => opaque::run_opaque, h_contain => contain::run_contain, h_local => local::run_local }
