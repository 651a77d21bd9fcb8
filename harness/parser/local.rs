// C44: a construct is parsed in the same way wherever it may stand.
use crate::rt::*;
use ludtwig_parser::parse;
use ludtwig_parser::syntax::untyped::SyntaxKind::{self, *};
use ludtwig_parser::syntax::untyped::*;
use ludtwig_parser::verif::lex_tokens;

/// the nodes and tokens inside of `from..to`; whatever consists of exactly this is a matter of the place
fn inside(root: &SyntaxNode, from: usize, to: usize) -> Vec<(SyntaxKind, usize, usize)> {
    let mut o = vec![];
    for e in root.descendants_with_tokens() {
        let r = match &e {
            SyntaxElement::Token(t) if t.kind().is_trivia() => continue,
            SyntaxElement::Token(t) => (usize::from(t.text_range().start()), usize::from(t.text_range().end())),
            SyntaxElement::Node(n) => {
                let mut r = (usize::MAX, 0);
                for t in n.descendants_with_tokens().filter_map(|e| e.into_token()).filter(|t| !t.kind().is_trivia()) { r = (r.0.min(usize::from(t.text_range().start())), usize::from(t.text_range().end())); }
                r
            }
        };
        if r.0 >= from && r.1 <= to && r.0 < r.1 && !matches!(e.kind(), ROOT | BODY | TWIG_EXPRESSION | TWIG_LITERAL_ARRAY_INNER | TWIG_INDEX) { o.push((e.kind(), r.0 - from, r.1 - from)); }
    }
    o
}
/// The first template is the construct, then follow pairs of templates: the text in front of it and behind it.
pub fn run_local(c: &mut Cfg) {
    let x = c.bytes();
    let mut want = None;
    while !c.done() {
        let (a, b) = (c.bytes(), c.bytes());
        let (from, to) = (a.len(), a.len() + x.len());
        let text = unsafe { String::from_utf8_unchecked([&a[..], &x[..], &b[..]].concat()) };
        let p = parse(&text);
        let root = SyntaxNode::new_root(p.green_node);
        let Some((first, got)) = &want else {
            // well-formed, complete, and nothing behind its end belongs to it
            assume(p.errors.is_empty() && x.last().is_some_and(|l| !matches!(l, b' ' | b'\t' | b'\n' | b'\r' | b'<')));
            for el in root.descendants_with_tokens() { digest(el.kind() as u64); digest(u64::from(u32::from(el.text_range().end()))); }
            want = Some((text, inside(&root, from, to)));
            continue;
        };
        // its first and last characters may form other tokens with what surrounds them
        let (mut s, mut e) = (from == 0, to == text.len());
        for t in lex_tokens(&text) { s |= usize::from(t.2.start()) == from; e |= usize::from(t.2.start()) == to; }
        if !s || !e { reach(441); continue; }
        reach(440);
        check(p.errors.is_empty(), 44, || format!("{:?} is accepted in {first:?} but not in {text:?}: {}", &text[from..to], p.errors[0]));
        let have = inside(&root, from, to);
        check(have == *got, 44, || format!("{:?} has another structure in {text:?} than in {first:?}:\n{}", &text[from..to], debug_tree(&root)));
    }
}
