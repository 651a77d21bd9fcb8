//! C09: reference for the classification of tokens.
use crate::rt::*;
use crate::spelling::FIXED;
use ludtwig_parser::syntax::untyped::SyntaxKind::{self, *};

fn alpha(c: u8) -> bool { c.is_ascii_alphabetic() }
fn alnum(c: u8) -> bool { c.is_ascii_alphanumeric() }
fn digit(c: u8) -> bool { c.is_ascii_digit() }
fn word_char(c: u8) -> bool { alnum(c) | (c == b'_') | (c == b'-') }
fn at(t: &[u8], i: usize) -> u8 { t.get(i).copied().unwrap_or(0) }

thread_local! { static COMMENT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// behind the start of an HTML comment
fn comment() -> bool { COMMENT.with(|c| c.get()) }
/// longest match of each regular token class at position `i` (0: no match)
fn ws(t: &[u8], i: usize) -> usize { let mut j = i; while j < t.len() && ((t[j] == b' ') | (t[j] == b'\t')) { j += 1; } j - i }
fn lb(t: &[u8], i: usize) -> usize {
    let mut j = i;
    loop {
        if j < t.len() && t[j] == b'\n' { j += 1; }
        else if j + 1 < t.len() && ((t[j] == b'\r') & (t[j + 1] == b'\n')) { j += 2; }
        else { return j - i; }
    }
}
fn word(t: &[u8], i: usize) -> usize {
    if i >= t.len() { return 0; }
    let c = t[i];
    let mut j;
    if alpha(c) | (c == b'_') { j = i + 1; }
    else if ((c == b'@') | (c == b'#') | (c == b'$')) && alpha(at(t, i + 1)) { j = i + 2; }
    else { return 0; }
    while j < t.len() && word_char(t[j]) { j += 1; }
    // dashes at its end can belong to a closing delimiter
    if t[j - 1] == b'-' && (at(t, j + 1) == b'}') && ((at(t, j) == b'}') | (at(t, j) == b'%') | (at(t, j) == b'#')) { return j - 1 - i; }
    if comment() && at(t, j) == b'>' && (t[j - 1] == b'-') && (t[j - 2] == b'-') { return j - 2 - i; }
    j - i
}
fn component(t: &[u8], i: usize) -> usize {
    if !(t.len() >= i + 4 && same(&t[i..i + 4], b"twig")) { return 0; }
    let mut j = i + 4; let mut end = 0;
    loop {
        if !(j + 1 < t.len() && t[j] == b':' && word_char(t[j + 1])) { return end; }
        j += 1;
        while j < t.len() && word_char(t[j]) { j += 1; }
        end = j - i;
    }
}
fn number(t: &[u8], i: usize) -> usize {
    let digits = |mut j: usize| { while j < t.len() && digit(t[j]) { j += 1; } j };
    let mut j = digits(i);
    if j == i { return 0; }
    if j + 1 < t.len() && t[j] == b'.' && digit(t[j + 1]) { j = digits(j + 1); }
    if j + 2 < t.len() && ((t[j] == b'E') | (t[j] == b'e')) && ((t[j + 1] == b'+') | (t[j + 1] == b'-')) && digit(t[j + 2]) { j = digits(j + 2); }
    j - i
}
fn escape(t: &[u8], i: usize) -> usize {
    if at(t, i) != b'&' { return 0; }
    let mut j = i + 1;
    if alpha(at(t, j)) { while alnum(at(t, j)) { j += 1; } }
    else if at(t, j) == b'#' {
        j += 1;
        if at(t, j) == b'x' { j += 1; let s = j; while at(t, j).is_ascii_hexdigit() { j += 1; } if s == j { return 0; } }
        else { let s = j; while digit(at(t, j)) { j += 1; } if s == j { return 0; } }
    } else { return 0; }
    if at(t, j) == b';' { j + 1 - i } else { 0 }
}
fn eq_nc(a: &[u8], b: &[u8], nc: bool) -> bool {
    if !nc { return same(a, b); }
    let mut r = true;
    for (x, y) in a.iter().zip(b) { r &= x.to_ascii_lowercase() == y.to_ascii_lowercase(); }
    r
}
fn fixed(t: &[u8], i: usize, s: &str, nc: bool) -> bool { t.len() >= i + s.len() && eq_nc(&t[i..i + s.len()], s.as_bytes(), nc) }

/// The spelling of a two-word operator counts when the words are separated by one blank and the second is a whole word.
fn two_word(k: SyntaxKind) -> bool { k == TK_NOT_IN || k == TK_IS_NOT }

/// `tokens` must be the longest-match classification of `text`
pub fn check_tokens(text: &str, tokens: &[(SyntaxKind, usize, usize)], code: u32) {
    let t = text.as_bytes();
    let mut pos = 0;
    COMMENT.with(|c| c.set(false));
    for &(k, a, b) in tokens {
        check(a == pos && b > a && b <= t.len(), code, || format!("token {k:?} at {a}..{b}, expected to start at {pos} in {text:?}"));
        pos = b;
        let n = b - a;
        let bad = |why: &str| -> ! { fail(code, || format!("{:?} lexed as {k:?} in {text:?}: {why}", &text[a..b])) };
        // own spelling
        let regular = [(TK_WHITESPACE, ws as fn(&[u8], usize) -> usize), (TK_LINE_BREAK, lb), (TK_WORD, word), (TK_TWIG_COMPONENT_NAME, component), (TK_NUMBER, number), (TK_HTML_ESCAPE_CHARACTER, escape)];
        let mut is_regular = false;
        if k != TK_UNKNOWN {
            if let Some(r) = regular.iter().find(|r| r.0 == k) { is_regular = true; if r.1(t, a) != n { bad("not a spelling of this kind") } }
            else {
                let Some(f) = FIXED.iter().find(|f| f.0 == k) else { bad("unknown kind") };
                if f.1.len() != n || !fixed(t, a, f.1, f.2) { bad("not the spelling of this kind") }
            }
        }
        // nothing longer, and a fixed spelling wins over a word of the same length
        for r in &regular { if r.0 != k { let m = r.1(t, a); if m > n || (m == n && is_regular) || (m > 0 && k == TK_UNKNOWN) { 
            // the keyword and the word have the same length: the keyword wins; 'not in' is longer than the word 'not'
            bad("a longer or regular spelling was available") } } }
        for f in FIXED {
            if f.0 == k || f.1.len() < n && k != TK_UNKNOWN { continue; }
            if f.1.len() == n && !is_regular && k != TK_UNKNOWN { continue; }
            if fixed(t, a, f.1, f.2) {
                if two_word(f.0) && (a + f.1.len() < t.len() && word_char(t[a + f.1.len()])) { continue; }
                bad(f.1)
            }
        }
        if k == TK_LESS_THAN_EXCLAMATION_MARK_MINUS_MINUS { COMMENT.with(|c| c.set(true)); }
        if k == TK_MINUS_MINUS_GREATER_THAN { COMMENT.with(|c| c.set(false)); }
        if two_word(k) && (b < t.len() && word_char(t[b])) { bad("the second word goes on") }
    }
    check(pos == t.len(), code, || format!("tokens end at {pos} in {text:?}"));
}
