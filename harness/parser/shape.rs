// C41: the parts an accepted construct consists of (nothing missing, nothing that does not belong there).
// One table from the documentation of Twig and HTML; the children of every node of an accepted text are matched with it.
use crate::rt::*;
use ludtwig_parser::syntax::untyped::SyntaxKind::{self, *};
use ludtwig_parser::syntax::untyped::*;

/// one of the kinds, optional part, repeated part
pub enum P { T(&'static [SyntaxKind]), O(&'static [P]), M(&'static [P]) }
use P::*;
/// the set of positions the pattern can end at (bit i: before item i)
fn run(ps: &[P], items: &[SyntaxKind], starts: u64) -> u64 {
    let mut at = starts;
    for p in ps {
        at = match p {
            T(ks) => { let mut o = 0; for (i, k) in items.iter().enumerate() { if at >> i & 1 == 1 && ks.contains(k) { o |= 2 << i; } } o }
            O(q) => at | run(q, items, at),
            M(q) => { let mut all = at; loop { let n = all | run(q, items, all); if n == all { break all; } all = n; } }
        };
        if at == 0 { break; }
    }
    at
}
const OPEN: P = T(&[TK_CURLY_PERCENT, TK_CURLY_PERCENT_MINUS, TK_CURLY_PERCENT_TILDE]);
const CLOSE: P = T(&[TK_PERCENT_CURLY, TK_MINUS_PERCENT_CURLY, TK_TILDE_PERCENT_CURLY]);
const E: P = T(&[TWIG_EXPRESSION]);
const N: P = T(&[TWIG_LITERAL_NAME]);
const S: P = T(&[TWIG_LITERAL_STRING]);
const W: P = T(&[TK_WORD]);
const COMMA: P = T(&[TK_COMMA]);
const LP: P = T(&[TK_OPEN_PARENTHESIS]);
const RP: P = T(&[TK_CLOSE_PARENTHESIS]);
const OPERAND: P = T(&[TWIG_OPERAND]);
const QUOTE: P = T(&[TK_DOUBLE_QUOTES, TK_SINGLE_QUOTES]);
const BODY_: P = T(&[BODY]);
const BINOP: P = T(&[TK_OR, TK_DOUBLE_PIPE, TK_AND, TK_DOUBLE_AMPERSAND, TK_BINARY_OR, TK_BINARY_XOR, TK_BINARY_AND, TK_DOUBLE_EQUAL, TK_EXCLAMATION_MARK_EQUALS, TK_LESS_THAN_EQUAL_GREATER_THAN, TK_LESS_THAN, TK_GREATER_THAN, TK_GREATER_THAN_EQUAL, TK_LESS_THAN_EQUAL, TK_IN, TK_NOT_IN, TK_MATCHES, TK_STARTS_WITH, TK_ENDS_WITH, TK_TRIPLE_EQUAL, TK_EXCLAMATION_MARK_DOUBLE_EQUALS, TK_DOUBLE_DOT, TK_PLUS, TK_MINUS, TK_TILDE, TK_STAR, TK_FORWARD_SLASH, TK_DOUBLE_FORWARD_SLASH, TK_PERCENT, TK_IS, TK_IS_NOT, TK_DOUBLE_STAR, TK_DOUBLE_QUESTION_MARK]);
const VALUE: P = T(&[TWIG_LITERAL_STRING, TWIG_LITERAL_NUMBER, TWIG_LITERAL_ARRAY, TWIG_LITERAL_HASH, TWIG_LITERAL_NULL, TWIG_LITERAL_BOOLEAN, TWIG_LITERAL_NAME, TWIG_UNARY_EXPRESSION, TWIG_BINARY_EXPRESSION, TWIG_CONDITIONAL_EXPRESSION, TWIG_PARENTHESES_EXPRESSION, TWIG_FILTER, TWIG_ACCESSOR, TWIG_INDEX_LOOKUP, TWIG_FUNCTION_CALL, TWIG_ARROW_FUNCTION]);
macro_rules! tag { ($($p:expr),* $(,)?) => { &[OPEN, $($p,)* CLOSE] } }
macro_rules! k { ($($k:ident),*) => { T(&[$($k),*]) } }

fn shape(kind: SyntaxKind) -> Option<&'static [P]> {
    Some(match kind {
        TWIG_VAR => &[k!(TK_OPEN_CURLY_CURLY, TK_OPEN_CURLY_CURLY_MINUS, TK_OPEN_CURLY_CURLY_TILDE), E, k!(TK_CLOSE_CURLY_CURLY, TK_MINUS_CLOSE_CURLY_CURLY, TK_TILDE_CLOSE_CURLY_CURLY)],
        // expressions. The parser wraps a whole binary or conditional expression once more
        TWIG_EXPRESSION => &[VALUE],
        TWIG_BINARY_EXPRESSION => &[k!(TWIG_EXPRESSION, TWIG_BINARY_EXPRESSION), BINOP, E],
        TWIG_UNARY_EXPRESSION => &[k!(TK_MINUS, TK_PLUS, TK_NOT, TK_TRIPLE_DOT), E],
        TWIG_PARENTHESES_EXPRESSION => &[LP, E, RP],
        TWIG_CONDITIONAL_EXPRESSION => &[E, k!(TK_QUESTION_MARK), O(&[E]), O(&[k!(TK_COLON), E])],
        TWIG_FILTER => &[OPERAND, k!(TK_SINGLE_PIPE), OPERAND],
        TWIG_ACCESSOR => &[OPERAND, k!(TK_DOT), OPERAND],
        TWIG_OPERAND => &[VALUE, O(&[k!(TWIG_ARGUMENTS)])],
        TWIG_INDEX_LOOKUP => &[OPERAND, k!(TK_OPEN_SQUARE, TK_DOT), k!(TWIG_INDEX, TWIG_INDEX_RANGE), O(&[k!(TK_CLOSE_SQUARE)])],
        TWIG_INDEX => &[E],
        TWIG_INDEX_RANGE => &[O(&[E]), k!(TK_COLON), O(&[E])],
        TWIG_FUNCTION_CALL => &[OPERAND, k!(TWIG_ARGUMENTS)],
        TWIG_ARGUMENTS => &[O(&[LP]), O(&[k!(TWIG_EXPRESSION, TWIG_NAMED_ARGUMENT, TWIG_LITERAL_NAME), M(&[COMMA, k!(TWIG_EXPRESSION, TWIG_NAMED_ARGUMENT, TWIG_LITERAL_NAME)]), O(&[COMMA])]), O(&[RP])],
        TWIG_NAMED_ARGUMENT => &[W, k!(TK_EQUAL), E],
        TWIG_ARROW_FUNCTION => &[k!(TWIG_ARGUMENTS), k!(TK_EQUAL_GREATER_THAN), E],
        TWIG_LITERAL_NAME => &[W],
        TWIG_LITERAL_NUMBER => &[k!(TK_NUMBER)],
        TWIG_LITERAL_NULL => &[k!(TK_NULL, TK_NONE)],
        TWIG_LITERAL_BOOLEAN => &[k!(TK_TRUE, TK_FALSE)],
        TWIG_LITERAL_STRING => &[QUOTE, k!(TWIG_LITERAL_STRING_INNER), QUOTE],
        TWIG_LITERAL_STRING_INTERPOLATION => &[k!(TK_HASHTAG), k!(TK_OPEN_CURLY), E, k!(TK_CLOSE_CURLY)],
        TWIG_LITERAL_ARRAY => &[k!(TK_OPEN_SQUARE), k!(TWIG_LITERAL_ARRAY_INNER), k!(TK_CLOSE_SQUARE)],
        TWIG_LITERAL_ARRAY_INNER => &[O(&[E, M(&[COMMA, E]), O(&[COMMA])])],
        TWIG_LITERAL_HASH => &[k!(TK_OPEN_CURLY), k!(TWIG_LITERAL_HASH_ITEMS), k!(TK_CLOSE_CURLY)],
        TWIG_LITERAL_HASH_ITEMS => &[O(&[k!(TWIG_LITERAL_HASH_PAIR), M(&[COMMA, k!(TWIG_LITERAL_HASH_PAIR)]), O(&[COMMA])])],
        TWIG_LITERAL_HASH_PAIR => &[k!(TWIG_LITERAL_HASH_KEY), O(&[k!(TK_COLON), E])],
        TWIG_LITERAL_HASH_KEY => &[O(&[LP]), k!(TK_WORD, TWIG_LITERAL_NUMBER, TWIG_LITERAL_STRING, TWIG_EXPRESSION), O(&[RP])],
        // tags
        TWIG_STARTING_BLOCK => tag!(k!(TK_BLOCK), W, O(&[E])),
        TWIG_ENDING_BLOCK => tag!(k!(TK_ENDBLOCK), O(&[W])),
        TWIG_BLOCK => &[k!(TWIG_STARTING_BLOCK), O(&[BODY_, k!(TWIG_ENDING_BLOCK)])],
        TWIG_IF_BLOCK => tag!(k!(TK_IF), E),
        TWIG_ELSE_IF_BLOCK => tag!(k!(TK_ELSE_IF), E),
        TWIG_ELSE_BLOCK | TWIG_FOR_ELSE_BLOCK => tag!(k!(TK_ELSE)),
        TWIG_ENDIF_BLOCK => tag!(k!(TK_ENDIF)),
        TWIG_IF => &[k!(TWIG_IF_BLOCK), BODY_, M(&[k!(TWIG_ELSE_IF_BLOCK, TWIG_ELSE_BLOCK), BODY_]), k!(TWIG_ENDIF_BLOCK)],
        TWIG_FOR_BLOCK => tag!(k!(TK_FOR), N, O(&[COMMA, N]), k!(TK_IN), E),
        TWIG_ENDFOR_BLOCK => tag!(k!(TK_ENDFOR)),
        TWIG_FOR => &[k!(TWIG_FOR_BLOCK), BODY_, O(&[k!(TWIG_FOR_ELSE_BLOCK), BODY_]), k!(TWIG_ENDFOR_BLOCK)],
        TWIG_SET_BLOCK => tag!(k!(TK_SET), k!(TWIG_ASSIGNMENT)),
        TWIG_ASSIGNMENT => &[N, M(&[COMMA, N]), O(&[COMMA]), O(&[k!(TK_EQUAL), E, M(&[COMMA, E]), O(&[COMMA])])],
        TWIG_ENDSET_BLOCK => tag!(k!(TK_ENDSET)),
        TWIG_SET => &[k!(TWIG_SET_BLOCK), O(&[BODY_, k!(TWIG_ENDSET_BLOCK)])],
        TWIG_EXTENDS => tag!(k!(TK_EXTENDS), E),
        TWIG_INCLUDE => tag!(k!(TK_INCLUDE), E, O(&[k!(TK_IGNORE_MISSING)]), O(&[k!(TWIG_INCLUDE_WITH)]), O(&[k!(TK_ONLY)])),
        SHOPWARE_TWIG_SW_INCLUDE => tag!(k!(TK_SW_INCLUDE), E, O(&[k!(TK_IGNORE_MISSING)]), O(&[k!(TWIG_INCLUDE_WITH)]), O(&[k!(TK_ONLY)])),
        TWIG_INCLUDE_WITH => &[k!(TK_WITH), E],
        TWIG_EMBED_STARTING_BLOCK => tag!(k!(TK_EMBED, TK_SW_EMBED), E, O(&[k!(TK_IGNORE_MISSING)]), O(&[k!(TWIG_INCLUDE_WITH)]), O(&[k!(TK_ONLY)])),
        TWIG_EMBED_ENDING_BLOCK => tag!(k!(TK_ENDEMBED, TK_SW_END_EMBED)),
        TWIG_EMBED => &[k!(TWIG_EMBED_STARTING_BLOCK), BODY_, k!(TWIG_EMBED_ENDING_BLOCK)],
        TWIG_USE => tag!(k!(TK_USE, TK_SW_USE), S, O(&[k!(TK_WITH), k!(TWIG_OVERRIDE), M(&[COMMA, k!(TWIG_OVERRIDE)]), O(&[COMMA])])),
        TWIG_OVERRIDE => &[N, O(&[k!(TK_AS), N])],
        TWIG_FROM => tag!(k!(TK_FROM, TK_SW_FROM), E, k!(TK_IMPORT, TK_SW_IMPORT), k!(TWIG_OVERRIDE), M(&[COMMA, k!(TWIG_OVERRIDE)]), O(&[COMMA])),
        TWIG_IMPORT => tag!(k!(TK_IMPORT, TK_SW_IMPORT), E, k!(TK_AS), N),
        TWIG_APPLY_STARTING_BLOCK => tag!(k!(TK_APPLY), k!(TWIG_LITERAL_NAME, TWIG_FILTER), O(&[k!(TWIG_ARGUMENTS)])),
        TWIG_APPLY_ENDING_BLOCK => tag!(k!(TK_ENDAPPLY)),
        TWIG_APPLY => &[k!(TWIG_APPLY_STARTING_BLOCK), BODY_, k!(TWIG_APPLY_ENDING_BLOCK)],
        TWIG_AUTOESCAPE_STARTING_BLOCK => tag!(k!(TK_AUTOESCAPE), O(&[k!(TWIG_LITERAL_STRING, TK_FALSE)])),
        TWIG_AUTOESCAPE_ENDING_BLOCK => tag!(k!(TK_ENDAUTOESCAPE)),
        TWIG_AUTOESCAPE => &[k!(TWIG_AUTOESCAPE_STARTING_BLOCK), BODY_, k!(TWIG_AUTOESCAPE_ENDING_BLOCK)],
        TWIG_DEPRECATED => tag!(k!(TK_DEPRECATED), S),
        TWIG_DO => tag!(k!(TK_DO), E),
        TWIG_FLUSH => tag!(k!(TK_FLUSH)),
        TWIG_SANDBOX_STARTING_BLOCK => tag!(k!(TK_SANDBOX)),
        TWIG_SANDBOX_ENDING_BLOCK => tag!(k!(TK_ENDSANDBOX)),
        TWIG_SANDBOX => &[k!(TWIG_SANDBOX_STARTING_BLOCK), BODY_, k!(TWIG_SANDBOX_ENDING_BLOCK)],
        TWIG_VERBATIM_STARTING_BLOCK => tag!(k!(TK_VERBATIM)),
        TWIG_VERBATIM_ENDING_BLOCK => tag!(k!(TK_ENDVERBATIM)),
        TWIG_VERBATIM => &[k!(TWIG_VERBATIM_STARTING_BLOCK), BODY_, k!(TWIG_VERBATIM_ENDING_BLOCK)],
        TWIG_MACRO_STARTING_BLOCK => tag!(k!(TK_MACRO), W, k!(TWIG_ARGUMENTS)),
        TWIG_MACRO_ENDING_BLOCK => tag!(k!(TK_ENDMACRO), O(&[W])),
        TWIG_MACRO => &[k!(TWIG_MACRO_STARTING_BLOCK), BODY_, k!(TWIG_MACRO_ENDING_BLOCK)],
        TWIG_WITH_STARTING_BLOCK => tag!(k!(TK_WITH), O(&[E]), O(&[k!(TK_ONLY)])),
        TWIG_WITH_ENDING_BLOCK => tag!(k!(TK_ENDWITH)),
        TWIG_WITH => &[k!(TWIG_WITH_STARTING_BLOCK), BODY_, k!(TWIG_WITH_ENDING_BLOCK)],
        TWIG_CACHE_STARTING_BLOCK => tag!(k!(TK_CACHE), E, O(&[k!(TWIG_CACHE_TTL)]), O(&[k!(TWIG_CACHE_TAGS)])),
        TWIG_CACHE_TTL => &[k!(TK_TTL), LP, E, RP],
        TWIG_CACHE_TAGS => &[k!(TK_TAGS), LP, E, RP],
        TWIG_CACHE_ENDING_BLOCK => tag!(k!(TK_ENDCACHE)),
        TWIG_CACHE => &[k!(TWIG_CACHE_STARTING_BLOCK), BODY_, k!(TWIG_CACHE_ENDING_BLOCK)],
        TWIG_TRANS_STARTING_BLOCK => tag!(k!(TK_TRANS)),
        TWIG_TRANS_ENDING_BLOCK => tag!(k!(TK_ENDTRANS)),
        TWIG_TRANS => &[k!(TWIG_TRANS_STARTING_BLOCK), BODY_, k!(TWIG_TRANS_ENDING_BLOCK)],
        TWIG_PROPS => tag!(k!(TK_PROPS), O(&[k!(TWIG_PROP_DECLARATION), M(&[COMMA, k!(TWIG_PROP_DECLARATION)]), O(&[COMMA])])),
        TWIG_PROP_DECLARATION => &[N, O(&[k!(TK_EQUAL), E])],
        TWIG_COMPONENT_STARTING_BLOCK => tag!(k!(TK_COMPONENT), N, O(&[k!(TK_WITH), k!(TWIG_LITERAL_HASH)])),
        TWIG_COMPONENT_ENDING_BLOCK => tag!(k!(TK_ENDCOMPONENT)),
        TWIG_COMPONENT => &[k!(TWIG_COMPONENT_STARTING_BLOCK), BODY_, k!(TWIG_COMPONENT_ENDING_BLOCK)],
        SHOPWARE_TWIG_SW_EXTENDS => tag!(k!(TK_SW_EXTENDS), S),
        SHOPWARE_SILENT_FEATURE_CALL_STARTING_BLOCK => tag!(k!(TK_SW_SILENT_FEATURE_CALL), S),
        SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK => tag!(k!(TK_ENDSW_SILENT_FEATURE_CALL)),
        SHOPWARE_SILENT_FEATURE_CALL => &[k!(SHOPWARE_SILENT_FEATURE_CALL_STARTING_BLOCK), BODY_, k!(SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK)],
        SHOPWARE_RETURN => tag!(k!(TK_RETURN), O(&[E])),
        SHOPWARE_ICON => tag!(k!(TK_SW_ICON), E, O(&[k!(SHOPWARE_ICON_STYLE)])),
        SHOPWARE_ICON_STYLE => &[k!(TK_STYLE), E],
        SHOPWARE_THUMBNAILS => tag!(k!(TK_SW_THUMBNAILS), E, O(&[k!(SHOPWARE_THUMBNAILS_WITH)])),
        SHOPWARE_THUMBNAILS_WITH => &[k!(TK_WITH), E],
        // directives, HTML
        LUDTWIG_DIRECTIVE_RULE_LIST => &[M(&[W, O(&[COMMA])])],
        LUDTWIG_DIRECTIVE_IGNORE => &[k!(TK_OPEN_CURLY_HASHTAG, TK_OPEN_CURLY_HASHTAG_MINUS, TK_OPEN_CURLY_HASHTAG_TILDE, TK_LESS_THAN_EXCLAMATION_MARK_MINUS_MINUS), k!(TK_LUDTWIG_IGNORE), k!(LUDTWIG_DIRECTIVE_RULE_LIST), k!(TK_HASHTAG_CLOSE_CURLY, TK_MINUS_HASHTAG_CLOSE_CURLY, TK_TILDE_HASHTAG_CLOSE_CURLY, TK_MINUS_MINUS_GREATER_THAN)],
        LUDTWIG_DIRECTIVE_FILE_IGNORE => &[k!(TK_OPEN_CURLY_HASHTAG, TK_OPEN_CURLY_HASHTAG_MINUS, TK_OPEN_CURLY_HASHTAG_TILDE, TK_LESS_THAN_EXCLAMATION_MARK_MINUS_MINUS), k!(TK_LUDTWIG_IGNORE_FILE), k!(LUDTWIG_DIRECTIVE_RULE_LIST), k!(TK_HASHTAG_CLOSE_CURLY, TK_MINUS_HASHTAG_CLOSE_CURLY, TK_TILDE_HASHTAG_CLOSE_CURLY, TK_MINUS_MINUS_GREATER_THAN)],
        HTML_DOCTYPE => &[k!(TK_LESS_THAN_EXCLAMATION_MARK), k!(TK_DOCTYPE), W, k!(TK_GREATER_THAN)],
        HTML_TAG => &[k!(HTML_STARTING_TAG), O(&[BODY_, k!(HTML_ENDING_TAG)])],
        HTML_STARTING_TAG => &[k!(TK_LESS_THAN), k!(TK_WORD, TK_TWIG_COMPONENT_NAME), k!(HTML_ATTRIBUTE_LIST), k!(TK_GREATER_THAN, TK_SLASH_GREATER_THAN)],
        HTML_ENDING_TAG => &[k!(TK_LESS_THAN_SLASH), k!(TK_WORD, TK_TWIG_COMPONENT_NAME), k!(TK_GREATER_THAN)],
        HTML_ATTRIBUTE => &[k!(TK_WORD, TWIG_VAR), O(&[k!(TK_EQUAL), k!(HTML_STRING)])],
        HTML_STRING => &[O(&[QUOTE]), k!(HTML_STRING_INNER), O(&[QUOTE])],
        _ => return None,
    })
}
/// pairs of parts which have to agree
fn agree(n: &SyntaxNode, items: &[SyntaxKind]) -> bool {
    let has = |k: SyntaxKind| items.contains(&k);
    let count = |k: SyntaxKind| items.iter().filter(|x| **x == k).count();
    match n.kind() {
        TWIG_LITERAL_STRING | HTML_STRING => items.first() == items.last(),
        TWIG_ARGUMENTS => has(TK_OPEN_PARENTHESIS) == has(TK_CLOSE_PARENTHESIS) && (has(TK_OPEN_PARENTHESIS) || items.len() == 1),
        TWIG_LITERAL_HASH_KEY => has(TK_OPEN_PARENTHESIS) == has(TWIG_EXPRESSION) && has(TK_CLOSE_PARENTHESIS) == has(TWIG_EXPRESSION),
        TWIG_LITERAL_HASH_PAIR => has(TK_COLON) || n.children().any(|k| k.kind() == TWIG_LITERAL_HASH_KEY && k.children_with_tokens().any(|t| t.kind() == TK_WORD)),
        TWIG_INDEX_LOOKUP => has(TK_OPEN_SQUARE) == has(TK_CLOSE_SQUARE) && (has(TK_OPEN_SQUARE) || has(TWIG_INDEX)),
        TWIG_INDEX_RANGE => has(TWIG_EXPRESSION),
        TWIG_CONDITIONAL_EXPRESSION => has(TK_COLON) || count(TWIG_EXPRESSION) == 2,
        TWIG_ASSIGNMENT => if has(TK_EQUAL) { count(TWIG_LITERAL_NAME) == count(TWIG_EXPRESSION) } else { count(TWIG_LITERAL_NAME) == 1 },
        LUDTWIG_DIRECTIVE_IGNORE | LUDTWIG_DIRECTIVE_FILE_IGNORE => has(TK_LESS_THAN_EXCLAMATION_MARK_MINUS_MINUS) == has(TK_MINUS_MINUS_GREATER_THAN),
        TWIG_EMBED => {
            let kw = |k: SyntaxKind, w: SyntaxKind| n.children().any(|c| c.kind() == k && c.children_with_tokens().any(|t| t.kind() == w));
            kw(TWIG_EMBED_STARTING_BLOCK, TK_SW_EMBED) == kw(TWIG_EMBED_ENDING_BLOCK, TK_SW_END_EMBED)
        }
        TWIG_BLOCK | TWIG_MACRO => {
            // the name may be repeated at the end
            let name = |k: SyntaxKind| n.children().find(|c| c.kind() == k).and_then(|c| c.children_with_tokens().filter_map(|t| t.into_token()).find(|t| t.kind() == TK_WORD));
            let (a, b) = if n.kind() == TWIG_BLOCK { (TWIG_STARTING_BLOCK, TWIG_ENDING_BLOCK) } else { (TWIG_MACRO_STARTING_BLOCK, TWIG_MACRO_ENDING_BLOCK) };
            match (name(a), name(b)) { (Some(x), Some(y)) => same(x.text().as_bytes(), y.text().as_bytes()), _ => true }
        }
        _ => true,
    }
}
pub fn check_all(root: &SyntaxNode, text: &str, code: u32) {
    for n in root.descendants() {
        check(n.kind() != ERROR, code, || format!("{n:?} but no syntax error in {text:?}"));
        let Some(p) = shape(n.kind()) else { continue };
        // an unknown character is skipped everywhere
        let items: Vec<SyntaxKind> = n.children_with_tokens().map(|e| e.kind()).filter(|k| !k.is_trivia() && *k != TK_UNKNOWN).collect();
        if items.len() > 60 { continue; }
        reach(410);
        check(run(p, &items, 1) >> items.len() & 1 == 1 && agree(&n, &items), code, || format!("{n:?} of the accepted text {text:?} consists of {items:?}"));
    }
}
