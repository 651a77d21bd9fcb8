// The spellings of the fixed tokens: (kind, spelling, case-insensitive). Written once from the documentation of the
// token list; deliberately not read from the repository, it is the reference the lexer is compared with.
use ludtwig_parser::syntax::untyped::SyntaxKind::{self, *};
pub static FIXED: &[(SyntaxKind, &str, bool)] = &[
    (TK_DOT, ".", false),
    (TK_DOUBLE_DOT, "..", false),
    (TK_TRIPLE_DOT, "...", false),
    (TK_COMMA, ",", false),
    (TK_COLON, ":", false),
    (TK_SEMICOLON, ";", false),
    (TK_EXCLAMATION_MARK, "!", false),
    (TK_EXCLAMATION_MARK_EQUALS, "!=", false),
    (TK_EXCLAMATION_MARK_DOUBLE_EQUALS, "!==", false),
    (TK_QUESTION_MARK, "?", false),
    (TK_DOUBLE_QUESTION_MARK, "??", false),
    (TK_PERCENT, "%", false),
    (TK_TILDE, "~", false),
    (TK_SINGLE_PIPE, "|", false),
    (TK_DOUBLE_PIPE, "||", false),
    (TK_AMPERSAND, "&", false),
    (TK_DOUBLE_AMPERSAND, "&&", false),
    (TK_FORWARD_SLASH, "/", false),
    (TK_DOUBLE_FORWARD_SLASH, "//", false),
    (TK_BACKWARD_SLASH, "\\", false),
    (TK_OPEN_PARENTHESIS, "(", false),
    (TK_CLOSE_PARENTHESIS, ")", false),
    (TK_OPEN_CURLY, "{", false),
    (TK_CLOSE_CURLY, "}", false),
    (TK_OPEN_SQUARE, "[", false),
    (TK_CLOSE_SQUARE, "]", false),
    (TK_LESS_THAN, "<", false),
    (TK_LESS_THAN_EQUAL, "<=", false),
    (TK_LESS_THAN_EQUAL_GREATER_THAN, "<=>", false),
    (TK_LESS_THAN_SLASH, "</", false),
    (TK_LESS_THAN_EXCLAMATION_MARK, "<!", false),
    (TK_DOCTYPE, "DOCTYPE", true),
    (TK_GREATER_THAN, ">", false),
    (TK_GREATER_THAN_EQUAL, ">=", false),
    (TK_EQUAL_GREATER_THAN, "=>", false),
    (TK_SLASH_GREATER_THAN, "/>", false),
    (TK_LESS_THAN_EXCLAMATION_MARK_MINUS_MINUS, "<!--", false),
    (TK_MINUS_MINUS_GREATER_THAN, "-->", false),
    (TK_EQUAL, "=", false),
    (TK_DOUBLE_EQUAL, "==", false),
    (TK_TRIPLE_EQUAL, "===", false),
    (TK_PLUS, "+", false),
    (TK_MINUS, "-", false),
    (TK_STAR, "*", false),
    (TK_DOUBLE_STAR, "**", false),
    (TK_DOUBLE_QUOTES, "\"", false),
    (TK_SINGLE_QUOTES, "'", false),
    (TK_GRAVE_ACCENT_QUOTES, "`", false),
    (TK_CURLY_PERCENT, "{%", false),
    (TK_CURLY_PERCENT_MINUS, "{%-", false),
    (TK_CURLY_PERCENT_TILDE, "{%~", false),
    (TK_PERCENT_CURLY, "%}", false),
    (TK_MINUS_PERCENT_CURLY, "-%}", false),
    (TK_TILDE_PERCENT_CURLY, "~%}", false),
    (TK_OPEN_CURLY_CURLY, "{{", false),
    (TK_OPEN_CURLY_CURLY_MINUS, "{{-", false),
    (TK_OPEN_CURLY_CURLY_TILDE, "{{~", false),
    (TK_CLOSE_CURLY_CURLY, "}}", false),
    (TK_MINUS_CLOSE_CURLY_CURLY, "-}}", false),
    (TK_TILDE_CLOSE_CURLY_CURLY, "~}}", false),
    (TK_OPEN_CURLY_HASHTAG, "{#", false),
    (TK_OPEN_CURLY_HASHTAG_MINUS, "{#-", false),
    (TK_OPEN_CURLY_HASHTAG_TILDE, "{#~", false),
    (TK_HASHTAG_CLOSE_CURLY, "#}", false),
    (TK_MINUS_HASHTAG_CLOSE_CURLY, "-#}", false),
    (TK_TILDE_HASHTAG_CLOSE_CURLY, "~#}", false),
    (TK_HASHTAG, "#", false),
    (TK_TRUE, "true", true),
    (TK_FALSE, "false", true),
    (TK_BLOCK, "block", false),
    (TK_ENDBLOCK, "endblock", false),
    (TK_IF, "if", false),
    (TK_ELSE_IF, "elseif", false),
    (TK_ELSE, "else", false),
    (TK_ENDIF, "endif", false),
    (TK_APPLY, "apply", false),
    (TK_ENDAPPLY, "endapply", false),
    (TK_AUTOESCAPE, "autoescape", false),
    (TK_ENDAUTOESCAPE, "endautoescape", false),
    (TK_CACHE, "cache", false),
    (TK_ENDCACHE, "endcache", false),
    (TK_DEPRECATED, "deprecated", false),
    (TK_DO, "do", false),
    (TK_EMBED, "embed", false),
    (TK_ENDEMBED, "endembed", false),
    (TK_EXTENDS, "extends", false),
    (TK_FLUSH, "flush", false),
    (TK_FOR, "for", false),
    (TK_ENDFOR, "endfor", false),
    (TK_FROM, "from", false),
    (TK_IMPORT, "import", false),
    (TK_MACRO, "macro", false),
    (TK_ENDMACRO, "endmacro", false),
    (TK_SANDBOX, "sandbox", false),
    (TK_ENDSANDBOX, "endsandbox", false),
    (TK_SET, "set", false),
    (TK_ENDSET, "endset", false),
    (TK_USE, "use", false),
    (TK_VERBATIM, "verbatim", false),
    (TK_ENDVERBATIM, "endverbatim", false),
    (TK_ONLY, "only", false),
    (TK_IGNORE_MISSING, "ignore missing", false),
    (TK_WITH, "with", false),
    (TK_ENDWITH, "endwith", false),
    (TK_TTL, "ttl", false),
    (TK_TAGS, "tags", false),
    (TK_PROPS, "props", false),
    (TK_COMPONENT, "component", false),
    (TK_ENDCOMPONENT, "endcomponent", false),
    (TK_NOT, "not", false),
    (TK_OR, "or", false),
    (TK_AND, "and", false),
    (TK_BINARY_OR, "b-or", false),
    (TK_BINARY_XOR, "b-xor", false),
    (TK_BINARY_AND, "b-and", false),
    (TK_IN, "in", false),
    (TK_MATCHES, "matches", false),
    (TK_STARTS_WITH, "starts with", false),
    (TK_ENDS_WITH, "ends with", false),
    (TK_IS, "is", false),
    (TK_EVEN, "even", false),
    (TK_ODD, "odd", false),
    (TK_DEFINED, "defined", false),
    (TK_SAME_AS, "same as", false),
    (TK_AS, "as", false),
    (TK_NONE, "none", true),
    (TK_NULL, "null", true),
    (TK_DIVISIBLE_BY, "divisible by", false),
    (TK_CONSTANT, "constant", false),
    (TK_EMPTY, "empty", false),
    (TK_ITERABLE, "iterable", false),
    (TK_MAX, "max", false),
    (TK_MIN, "min", false),
    (TK_RANGE, "range", false),
    (TK_CYCLE, "cycle", false),
    (TK_RANDOM, "random", false),
    (TK_DATE, "date", false),
    (TK_INCLUDE, "include", false),
    (TK_SOURCE, "source", false),
    (TK_TRANS, "trans", false),
    (TK_ENDTRANS, "endtrans", false),
    (TK_SW_EXTENDS, "sw_extends", false),
    (TK_SW_SILENT_FEATURE_CALL, "sw_silent_feature_call", false),
    (TK_ENDSW_SILENT_FEATURE_CALL, "endsw_silent_feature_call", false),
    (TK_SW_INCLUDE, "sw_include", false),
    (TK_RETURN, "return", false),
    (TK_SW_ICON, "sw_icon", false),
    (TK_SW_THUMBNAILS, "sw_thumbnails", false),
    (TK_STYLE, "style", false),
    (TK_SW_EMBED, "sw_embed", false),
    (TK_SW_END_EMBED, "sw_end_embed", false),
    (TK_SW_USE, "sw_use", false),
    (TK_SW_IMPORT, "sw_import", false),
    (TK_SW_FROM, "sw_from", false),
    (TK_LUDTWIG_IGNORE_FILE, "ludtwig-ignore-file", true),
    (TK_LUDTWIG_IGNORE, "ludtwig-ignore", true),
    (TK_NOT_IN, "not in", false),
    (TK_IS_NOT, "is not", false),
];
