// C42: what is wrong inside of a tag stays inside of it.
use crate::rt::*;
use ludtwig_parser::parse;
use ludtwig_parser::syntax::untyped::SyntaxKind;
use ludtwig_parser::syntax::untyped::*;

type Item = (SyntaxKind, usize, usize);
/// nodes and tokens behind `from`, and the nodes which start in front of `to` and end behind `from`; behind `from` shifted to the left by `by`
fn around(root: &SyntaxNode, to: usize, from: usize, by: usize) -> (Vec<Item>, Vec<Item>) {
    let (mut after, mut over) = (vec![], vec![]);
    for e in root.descendants_with_tokens() {
        let (a, b) = (usize::from(e.text_range().start()), usize::from(e.text_range().end()));
        if a == b { continue; }
        if a >= from { after.push((e.kind(), a - by, b - by)); } else if a < to && b > from { over.push((e.kind(), a, b - by)); }
    }
    (after, over)
}
/// three templates: text in front, what is put between, text behind; opts: number of errors + 1 (0: any)
pub fn run_contain(c: &mut Cfg) {
    let (pre, mid, suf) = (c.bytes(), c.bytes(), c.bytes());
    let (to, by) = (pre.len(), mid.len());
    let (whole, text) = unsafe { (String::from_utf8_unchecked([&pre[..], &suf[..]].concat()), String::from_utf8_unchecked([&pre[..], &mid[..], &suf[..]].concat())) };
    let p0 = parse(&whole);
    check(p0.errors.is_empty(), 43, || format!("{whole:?} has errors"));
    let p = parse(&text);
    let root = SyntaxNode::new_root(p.green_node);
    for el in root.descendants_with_tokens() { digest(el.kind() as u64); digest(u64::from(u32::from(el.text_range().end()))); }
    reach(if p.errors.is_empty() { 1 } else { 420 + u32::from(c.opt(0)) });
    for e in &p.errors { check(usize::from(e.range.start()) <= to + by, 42, || format!("an error is reported behind the erroneous region {:?} of {text:?}: {e}", &text[to..to + by])); }
    check(c.opt(0) == 0 || p.errors.len() == c.opt(0) as usize - 1, 42, || format!("{} instead of {} errors for {:?} in {text:?}: {:?}", p.errors.len(), c.opt(0) - 1, &text[to..to + by], p.errors));
    let (want, got) = (around(&SyntaxNode::new_root(p0.green_node), to, to, 0), around(&root, to, to + by, by));
    check(want.0 == got.0, 42, || format!("{:?} in {text:?} changes the structure of the text behind it:\n{}", &text[to..to + by], debug_tree(&root)));
    check(want.1 == got.1, 42, || format!("{:?} in {text:?} changes the structure of what surrounds it:\n{}", &text[to..to + by], debug_tree(&root)));
}
