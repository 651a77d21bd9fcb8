//! C04, C39: reference grouping of operators (precedence table of the Twig documentation) and of accessors, filters, calls.
use crate::rt::*;
use ludtwig_parser::syntax::typed::AstNode;
use ludtwig_parser::syntax::untyped::*;
use SyntaxKind::*;

/// (level, right associative) of a binary operator
pub fn binary(k: SyntaxKind) -> Option<(u8, bool)> {
    Some(match k {
        TK_OR | TK_DOUBLE_PIPE => (1, false),
        TK_AND | TK_DOUBLE_AMPERSAND => (2, false),
        TK_BINARY_OR => (3, false),
        TK_BINARY_XOR => (4, false),
        TK_BINARY_AND => (5, false),
        TK_DOUBLE_EQUAL | TK_EXCLAMATION_MARK_EQUALS | TK_LESS_THAN_EQUAL_GREATER_THAN | TK_LESS_THAN | TK_GREATER_THAN | TK_GREATER_THAN_EQUAL
        | TK_LESS_THAN_EQUAL | TK_IN | TK_NOT_IN | TK_MATCHES | TK_STARTS_WITH | TK_ENDS_WITH | TK_TRIPLE_EQUAL | TK_EXCLAMATION_MARK_DOUBLE_EQUALS => (6, false),
        TK_DOUBLE_DOT => (7, false),
        TK_PLUS | TK_MINUS => (8, false),
        TK_TILDE => (9, false),
        // unary not: 10
        TK_STAR | TK_FORWARD_SLASH | TK_DOUBLE_FORWARD_SLASH | TK_PERCENT => (11, false),
        TK_IS | TK_IS_NOT => (12, false),
        TK_DOUBLE_STAR => (13, true),
        TK_DOUBLE_QUESTION_MARK => (14, true),
        _ => return None,
    })
}
fn unary(k: SyntaxKind) -> Option<u8> { match k { TK_NOT => Some(10), TK_PLUS | TK_MINUS => Some(15), TK_TRIPLE_DOT => Some(16), _ => None } }

/// fully parenthesised reference grouping: spans (first token, last token) of every operator application
pub struct Ref<'a> { pub k: &'a [SyntaxKind], pub i: usize, pub out: Vec<(u8, usize, usize, usize)> }
pub const BIN: u8 = 0; pub const UN: u8 = 1; pub const TERN: u8 = 2; pub const PAREN: u8 = 3; pub const ACCESS: u8 = 4; pub const INDEX: u8 = 5; pub const FILTER: u8 = 6; pub const CALL: u8 = 7;
impl Ref<'_> {
    fn peek(&self) -> Option<SyntaxKind> { self.k.get(self.i).copied() }
    /// an expression whose binary operators all have a level of at least `min`; false: malformed
    pub fn expr(&mut self, min: u8) -> bool {
        let start = self.i;
        if !self.operand() { return false; }
        while let Some((l, right)) = self.peek().and_then(binary) {
            if l < min { break; }
            let op = self.i;
            self.i += 1;
            if !self.expr(if right { l } else { l + 1 }) { return false; }
            self.out.push((BIN, start, self.i, op));
        }
        if min == 0 && self.peek() == Some(TK_QUESTION_MARK) {
            let q = self.i;
            self.i += 1;
            if !self.expr(0) { return false; }
            if self.peek() == Some(TK_COLON) { self.i += 1; if !self.expr(0) { return false; } }
            self.out.push((TERN, start, self.i, q));
        }
        true
    }
    fn eat(&mut self, k: SyntaxKind) -> bool { let y = self.peek() == Some(k); if y { self.i += 1; } y }
    /// expressions separated by commas up to the closing token
    fn list(&mut self, close: SyntaxKind) -> bool {
        if self.eat(close) { return true; }
        loop { if !self.expr(0) { return false; } if self.eat(close) { return true; } if !self.eat(TK_COMMA) { return false; } }
    }
    fn operand(&mut self) -> bool {
        let start = self.i;
        if let Some(u) = self.peek().and_then(unary) {
            self.i += 1;
            if !self.expr(u) { return false; }
            self.out.push((UN, start, self.i, start));
            return true;
        }
        // what accessors, filters and calls are applied to; `name`: something that can be called
        let mut name = false;
        match self.peek() {
            Some(TK_OPEN_PARENTHESIS) => { self.i += 1; if !self.expr(0) || !self.eat(TK_CLOSE_PARENTHESIS) { return false; } self.out.push((PAREN, start, self.i, start)); }
            Some(TK_WORD) => { self.i += 1; name = true; }
            Some(TK_NUMBER) => self.i += 1,
            Some(q @ (TK_DOUBLE_QUOTES | TK_SINGLE_QUOTES)) => { self.i += 1; if !self.eat(TK_WORD) || !self.eat(q) { return false; } }
            Some(TK_OPEN_SQUARE) => { self.i += 1; if !self.list(TK_CLOSE_SQUARE) { return false; } }
            Some(TK_OPEN_CURLY) => { self.i += 1; if !self.eat(TK_WORD) || !self.eat(TK_COLON) || !self.expr(0) || !self.eat(TK_CLOSE_CURLY) { return false; } }
            _ => return false,
        }
        loop {
            let at = self.i;
            match self.peek() {
                Some(TK_DOT) => { self.i += 1; if !self.eat(TK_WORD) { return false; } name = true; self.out.push((ACCESS, start, self.i, at)); }
                Some(TK_SINGLE_PIPE) => { self.i += 1; if !self.eat(TK_WORD) || self.eat(TK_OPEN_PARENTHESIS) && !self.list(TK_CLOSE_PARENTHESIS) { return false; } name = false; self.out.push((FILTER, start, self.i, at)); }
                Some(TK_OPEN_SQUARE) => { self.i += 1; if !self.expr(0) || self.eat(TK_COLON) && !self.expr(0) || !self.eat(TK_CLOSE_SQUARE) { return false; } name = false; self.out.push((INDEX, start, self.i, at)); }
                Some(TK_OPEN_PARENTHESIS) if name => { self.i += 1; if !self.list(TK_CLOSE_PARENTHESIS) { return false; } name = false; self.out.push((CALL, start, self.i, at)); }
                _ => return true,
            }
        }
    }
}

/// `root` is the tree of a text whose only expression consists of the tokens `toks[from..to]` (kind, start, end)
pub fn check_grouping(root: &SyntaxNode, toks: &[(SyntaxKind, usize, usize)], from: usize, to: usize, code: u32, text: &str, ok: bool) -> bool {
    let ks: Vec<SyntaxKind> = toks[from..to].iter().map(|t| t.0).collect();
    let mut r = Ref { k: &ks, i: 0, out: vec![] };
    assume(r.expr(0) && r.i == ks.len());
    if !ok { return false; }
    let mut want: Vec<(u8, usize, usize)> = r.out.iter().map(|o| (o.0, toks[from + o.1].1, toks[from + o.2 - 1].2)).collect();
    let mut have: Vec<(u8, usize, usize)> = vec![];
    for n in root.descendants() {
        let c = match n.kind() { TWIG_BINARY_EXPRESSION => BIN, TWIG_UNARY_EXPRESSION => UN, TWIG_CONDITIONAL_EXPRESSION => TERN, TWIG_PARENTHESES_EXPRESSION => PAREN, TWIG_ACCESSOR => ACCESS, TWIG_INDEX_LOOKUP => INDEX, TWIG_FILTER => FILTER, TWIG_FUNCTION_CALL => CALL, _ => continue };
        let mut a = None; let mut b = 0;
        for t in n.descendants_with_tokens() { if let Some(t) = t.into_token() { if !t.kind().is_trivia() { if a.is_none() { a = Some(usize::from(t.text_range().start())); } b = usize::from(t.text_range().end()); } } }
        have.push((c, a.unwrap_or(0), b));
    }
    want.sort_unstable(); have.sort_unstable();
    reach(want.len().min(20) as u32 + 100);
    if want.iter().any(|w| w.0 >= ACCESS) { reach(121); } if want.iter().any(|w| w.0 == CALL) { reach(122); }
    check(want == have, code, || format!("operators of {text:?} are grouped as {have:?}, expected {want:?}"));
    true
}
