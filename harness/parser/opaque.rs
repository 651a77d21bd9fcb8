// C40: what lies between the delimiters of a string, a comment or a raw text element is content, whatever it spells.
use crate::rt::*;
use ludtwig_parser::parse;
use ludtwig_parser::syntax::untyped::SyntaxKind::{self, *};
use ludtwig_parser::syntax::untyped::*;

fn find(b: &[u8], what: &[u8], from: usize) -> Option<usize> { (from..(b.len() + 1).saturating_sub(what.len())).find(|i| b[*i..].starts_with(what)) }
fn ends(b: &[u8], what: &[&str]) -> bool { what.iter().any(|w| b.ends_with(w.as_bytes())) }
fn directive(c: &[u8]) -> bool {
    let n = c.iter().position(|x| !matches!(x, b' ' | b'\t' | b'\n' | b'\r')).unwrap_or(c.len());
    c.len() >= n + 14 && c[n..n + 14].eq_ignore_ascii_case(b"ludtwig-ignore")
}
/// Is `c` a possible content of this kind?
fn content(kind: u8, c: &[u8]) -> bool {
    match kind {
        // strings: escapes are pairs, no quote of its own outside of them, no interpolation
        1 | 2 => {
            let q = if kind == 1 { b'"' } else { b'\'' };
            let mut i = 0;
            while i < c.len() {
                if c[i] == b'\\' { i += 1; if i == c.len() { return false; } } else if c[i] == q { return false; }
                i += 1;
            }
            find(c, b"#{", 0).is_none()
        }
        // comments: up to the first closing delimiter; a delimiter may not reach into it
        3 => { let t = [c, b"#}"].concat(); !directive(c) && find(&t, b"#}", 0) == Some(c.len()) && !ends(c, &["{"]) }
        4 => { let t = [c, b"-->"].concat(); find(&t, b"-->", 0) == Some(c.len()) && !directive(c) && !ends(c, &["{{", "{%", "{#", "<!", "<!-"]) }
        // attribute values and raw text: no Twig; an unquoted-looking '>' ends a value, an element in it is an error
        5 | 6 => { let q = if kind == 5 { b'"' } else { b'\'' }; !c.iter().any(|x| *x == q || *x == b'<' || *x == b'>' || *x == b'{') }
        8 => !c.iter().any(|x| *x == b'<' || *x == b'{') && c.iter().any(|x| !matches!(x, b' ' | b'\t' | b'\n' | b'\r')),
        _ => !["{{", "{%", "{#"].iter().any(|w| find(c, w.as_bytes(), 0).is_some()),
    }
}
/// three templates: text in front of the content, content, text behind it; opts: kind
pub fn run_opaque(c: &mut Cfg) {
    let kind = c.opt(0);
    let (pre, body, suf) = (c.bytes(), c.bytes(), c.bytes());
    // what stands between the holes and the closing delimiter of a comment belongs to it
    let close: &[u8] = match kind { 3 => b"#}", 4 => b"-->", _ => b"" };
    let mid = find(&suf, close, 0).unwrap_or(0);
    assume(content(kind, &if mid == 0 { body.clone() } else { [&body[..], &suf[..mid]].concat() }));
    let (from, to) = (pre.len(), pre.len() + body.len());
    let text = unsafe { String::from_utf8_unchecked([pre, body, suf].concat()) };
    let p = parse(&text);
    let root = SyntaxNode::new_root(p.green_node);
    for el in root.descendants_with_tokens() { digest(el.kind() as u64); digest(u64::from(u32::from(el.text_range().end()))); }
    // known finding: `>=` behind an opening tag is one token
    let code = if matches!(kind, 7 | 8) && from > 0 && text.as_bytes()[from] == b'=' && text.as_bytes()[from - 1] == b'>' { 145 } else { 40 };
    check(p.errors.is_empty(), code, || format!("{text:?} is rejected because of what is written inside of a string, comment or text: {}", p.errors[0]));
    let want: SyntaxKind = match kind { 1 | 2 => TWIG_LITERAL_STRING_INNER, 3 => TWIG_COMMENT, 4 => HTML_COMMENT, 5 | 6 => HTML_STRING_INNER, 7 => HTML_RAW_TEXT, _ => HTML_TEXT };
    let blank = |a: usize, b: usize| text.as_bytes()[a..b].iter().all(|x| matches!(x, b' ' | b'\t' | b'\n' | b'\r'));
    let mut hit = 0;
    for n in root.descendants() {
        if n.kind() != want && kind != 8 { continue; }
        let (mut a, mut b) = (usize::from(n.text_range().start()), usize::from(n.text_range().end()));
        if b < from || a > to { continue; }
        match kind {
            // a comment carries its delimiters and the white space in front of it
            3 | 4 => {
                let toks: Vec<SyntaxToken> = n.children_with_tokens().filter_map(|e| e.into_token()).filter(|t| !t.kind().is_trivia()).collect();
                let (Some(f), Some(l)) = (toks.first(), toks.last()) else { continue };
                a = f.text_range().start().into(); b = l.text_range().end().into();
                if a + (if kind == 3 { 2 } else { 4 }) > from || b != to + mid + close.len() { continue; }
            }
            1 | 2 => if a != from || b != to { continue; },
            5 | 6 => if a > from || b < to { continue; },
            // only text inside; an unknown character in front of it stays outside of the text node
            8 => {
                hit = 1;
                if a >= from && a < to && b < to && !blank(a, b) { check(matches!(n.kind(), HTML_TEXT | BODY), 40, || format!("{n:?} in the text of {text:?}")); }
                continue;
            }
            // white space in front of the next tag belongs to the tag
            _ => if a > from || b < to && !blank(b, to) { continue; },
        }
        let inside = |x: &SyntaxNode| { let (a, b) = (usize::from(x.text_range().start()), usize::from(x.text_range().end())); b > from && a < to && !blank(a.max(from), to.min(b)) };
        check(!n.children().any(|x| inside(&x)), 40, || format!("the content of {n:?} in {text:?} has structure"));
        if kind != 8 { hit += 1; }
    }
    reach(40 + u32::from(kind));
    check(hit == 1, 40, || format!("bytes {from}..{to} of {text:?} are not one content"));
}
