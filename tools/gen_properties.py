#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P='crates/ludtwig-parser/src/'; L='crates/ludtwig/src/'
R=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    R.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
HK="run the private pipeline functions of the binary crate (guarded by --cfg ludtwig_verif)"
p("C01","The syntax tree is lossless",
  "For every UTF-8 text, concatenating the text of all leaf tokens of the tree returned by the parser, in order, yields exactly the input text: nothing is dropped, duplicated, reordered or altered, no matter how broken the template is.",
  ["inputs"],"every UTF-8 string handed to the parser, well-formed template or not",
  "Tests compare debug trees of a few hundred hand-written templates; losslessness is about arbitrary, mostly malformed text (recovery, trivia placement, partial words, odd bytes).",
  [P+"lexer.rs",P+"parser/source.rs",P+"parser/event.rs",P+"parser/sink.rs",P+"lib.rs"],
  [("every lexed token is bumped into the event list exactly once",P+"parser.rs Parser::bump"),("sink re-inserts trivia and asserts all tokens are consumed",P+"parser/sink.rs Sink::finish")],
  observe=["parse(&str).green_node text"])
p("C02","Parsing always returns a tree",
  "For every UTF-8 text the parser terminates and returns a tree plus a list of errors; it never panics, overflows or loops.",
  ["inputs"],"every UTF-8 string, including empty text, truncated tags and unknown characters",
  "The tests parse a finite set of templates that mostly end well; a panic or an endless recovery loop needs an unusual token at an unusual place (e.g. end of file inside a tag).",
  [P+"parser.rs",P+"parser/event.rs",P+"parser/source.rs",P+"grammar.rs",P+"grammar/html.rs",P+"grammar/twig.rs",P+"grammar/twig/expression.rs",P+"grammar/twig/literal.rs",P+"grammar/twig/tags.rs",P+"grammar/twig/shopware.rs"],
  [("progress check in parse_many",P+"grammar.rs"),("recovery sets",P+"parser.rs GENERAL_RECOVERY_SET"),("markers must be completed",P+"parser/event.rs")],
  observe=["parse(&str) returns"])
p("C03","Parse errors point into the file",
  "Every syntax error returned by the parser has a range that lies inside the text it was parsed from, is not reversed and starts and ends on character boundaries, so that it can always be displayed.",
  ["inputs"],"every UTF-8 string that makes the parser report at least one error",
  "Ranges are computed from whichever token is current or was last consumed; tests look at a handful of errors in the middle of short ASCII templates.",
  [P+"parser.rs",P+"parser/parse_error.rs",P+"parser/source.rs"],
  [("error range = current token, or last token at end of file",P+"parser.rs Parser::add_error")],
  observe=["parse(&str).errors"])
p("C04","Twig operators group as in Twig",
  "Every expression built from binary, unary and ternary operators is grouped by the documented Twig precedence and associativity: the tree nests a tighter-binding operator inside a looser one, equal left-associative operators nest to the left, '**' and '??' nest to the right.",
  ["inputs"],"all sequences of operators between operands in a Twig expression",
  "Tests pin single operators and a few pairs; there are more than a thousand pairs and tens of thousands of triples of operators.",
  [P+"grammar/twig/expression.rs"],
  [("Pratt parser binding powers",P+"grammar/twig/expression.rs parse_twig_expression_binding_power")],
  observe=["shape of the expression nodes in the tree"])
p("C05","Whitespace between tokens does not change meaning",
  "Adding, removing or changing whitespace and line breaks between two tokens of a Twig construct or HTML tag (where at least one separator remains or none is needed) changes neither the structure of the tree (node kinds and non-trivia tokens) nor the sequence of reported errors.",
  ["inputs"],"all templates and all choices of spaces, tabs, LF and CRLF at token gaps",
  "Tests use one layout per template; the guarantee quantifies over all layouts of all templates.",
  [P+"parser/source.rs",P+"parser/sink.rs",P+"lexer.rs"],
  [("the token source skips trivia",P+"parser/source.rs"),("the sink attaches trivia afterwards",P+"parser/sink.rs")],
  observe=["parse(&str) tree without trivia, errors"])
p("C06","Unbalanced HTML elements are reported",
  "If a text parses without any syntax error then in its tree every HTML element that is neither void nor self-closing has a closing tag carrying the same name as its opening tag, and no void or self-closing element has one.",
  ["inputs"],"all texts containing HTML elements",
  "Only a few wrong nestings are tested; the guarantee is about every combination of names, nesting and twig in between.",
  [P+"grammar/html.rs"],
  [("end tag name compare and recovery",P+"grammar/html.rs parse_html_element"),("void element list",P+"grammar/html.rs")],
  observe=["errors and HTML_TAG nodes of parse(&str)"])
p("C07","Unbalanced Twig tags are reported",
  "If a text parses without any syntax error then in its tree every Twig construct that needs a terminating tag (block, if, for, set capture, filter, embed, macro, verbatim, autoescape, sandbox, cache, apply, with, trans, component, ...) contains exactly its own kind of terminating tag, and no terminating or intermediate tag stands alone.",
  ["inputs"],"all texts containing Twig statements",
  "Tests cover each construct once, closed, plus a few unclosed ones; not arbitrary orders and nestings of opening and closing tags.",
  [P+"grammar/twig/tags.rs",P+"grammar/twig/shopware.rs",P+"grammar/twig.rs"],
  [("each tag function expects its end tag",P+"grammar/twig/tags.rs"),("termination tags are not statements",P+"grammar/twig.rs at_twig_termination_tag")],
  observe=["errors and tree of parse(&str)"])
p("C08","AST accessors are total and stay inside their node",
  "For every tree the parser can return, every typed accessor (names, quotes, operators, operands, bodies, whitespace-control markers, directive rule lists, trimmed ranges) returns without panicking, and every token or node it returns lies inside the node it was asked on; whitespace-control accessors return a marker exactly when the corresponding delimiter carries one.",
  ["inputs"],"all trees of all UTF-8 texts, including trees with error nodes and missing children",
  "Accessor tests use complete constructs; malformed trees have missing or shifted children.",
  [P+"syntax/typed.rs",P+"syntax/untyped.rs"],
  [("typed wrappers over optional children",P+"syntax/typed.rs"),("trimmed range helpers",P+"syntax/untyped.rs")],
  observe=["typed accessors of ludtwig_parser::syntax::typed"])
p("C09","Tokens are classified by their spelling",
  "Every token has the kind its own text demands: punctuation, operators and keywords have exactly their fixed spelling, blanks and line breaks contain only such characters, numbers only digits with at most one fraction and exponent. The lexer always takes the longest spelling available and never splits or shortens a word (but dashes at its end which belong to the closing delimiter behind it are no part of it), so the multi-word operators 'not in' and 'is not' are recognised whatever non-word character follows. A leaf of the tree consists of whole tokens (names may join several).",
  ["inputs"],"all UTF-8 texts, all token adjacencies",
  "Lexer tests check each spelling alone; adjacency and prefixes (longest match, words that start with a keyword) are an unbounded set.",
  [P+"lexer.rs",P+"syntax/untyped.rs"],
  [("logos token definitions",P+"syntax/untyped.rs SyntaxKind"),("multi word operator callbacks",P+"syntax/untyped.rs")],
  observe=["leaf tokens of parse(&str)"])
p("C10","All reported ranges are valid in the analysed text",
  "For every text and every rule, all ranges of a finding (primary, secondary, suggestion) are inside the analysed text, on character boundaries and not reversed.",
  ["inputs","configurations"],"all texts, all 22 rules",
  "Rule tests check a few reports on well-formed ASCII templates.",
  [L+"check.rs",L+"check/rules/indentation.rs",L+"check/rules/line_ending.rs",L+"check/rules/twig_block_line_breaks.rs",L+"check/rules/html_string_quotation.rs",L+"check/rules/twig_string_quotation.rs"],
  [("ranges are taken from tokens of the tree",L+"check/rules/*.rs")],observe=["CheckResult ranges"],hook=HK)
p("C11","Automatic fixing converges",
  "For every text, a run with --fix that succeeds leaves a text for which no automatically applicable suggestion remains (a second run changes nothing), a run that cannot resolve its suggestions reports an error instead of writing, and no run panics or loops.",
  ["inputs","configurations","histories"],"all texts, all rule selections",
  "Each rule's fix is tested alone on a few templates; interactions between rules, overlapping edits and repeated application are not.",
  [L+"process.rs",L+"check.rs"],
  [("bounded re-parse and re-check loop",L+"process.rs iteratively_apply_suggestions"),("edits applied from the end",L+"process.rs apply_suggestions_to_text")],
  observe=["text after fixing, remaining suggestions"],hook=HK)
p("C12","Formatting fixes only touch whitespace",
  "Fixing with the formatting rules (indentation, line endings, whitespace between line breaks, line breaks around blocks) never adds, removes, reorders or alters a character that is not a space, tab, carriage return or line feed.",
  ["inputs","configurations"],"all texts, all format settings",
  "A wrong range only bites on layouts the tests do not contain (adjacent edits, CRLF, multi-byte text, comments between).",
  [L+"check/rules/indentation.rs",L+"check/rules/line_ending.rs",L+"check/rules/whitespace_between_line_breaks.rs",L+"check/rules/twig_block_line_breaks.rs",L+"process.rs"],
  [("suggestions replace whitespace tokens only",L+"check/rules/*.rs")],observe=["text before and after --fix"],hook=HK)
p("C13","Whitespace-sensitive regions keep their whitespace",
  "Fixing indentation, whitespace and block line breaks never changes whitespace inside quoted strings or inside the content of pre, textarea, script and style elements, wherever they are nested.",
  ["inputs","configurations"],"all texts with whitespace-sensitive regions, at any nesting",
  "Tests contain one flat element or string each; nesting of sensitive regions and text following an inner region is untested.",
  [L+"check.rs",L+"check/rules/indentation.rs",L+"check/rules/twig_block_line_breaks.rs",L+"check/rules/whitespace_between_line_breaks.rs"],
  [("traversal flag for sensitive nodes",L+"check.rs run_rules"),("own flag in the indentation rule",L+"check/rules/indentation.rs")],
  observe=["text of the region before and after --fix"],hook=HK)
p("C14","Fixing never breaks a valid template",
  "If a text parses without syntax errors (and no operator lacks an operand), the text produced by --fix also parses without syntax errors.",
  ["inputs","configurations"],"all texts that parse without errors, all rules",
  "Fix tests compare one output per rule; they never look at combinations or at how edits meet neighbouring tokens.",
  [L+"process.rs",L+"check/rules/twig_hash_key_no_quotes.rs",L+"check/rules/twig_use_is_same_as.rs",L+"check/rules/twig_logic_and.rs",L+"check/rules/twig_string_quotation.rs"],
  [("suggestions replace whole tokens or operands",L+"check/rules/*.rs")],observe=["parse errors before and after --fix"],hook=HK)
p("C15","Quote fixes keep the string's content",
  "The quotation rules report exactly the strings whose opening or closing quote is missing or is not the configured one; applying their suggestion replaces the quotes only, leaves the content between them unchanged, and is not offered when the content contains the configured quote. Strings with interpolation need double quotes and are not reported for single quotes; plain strings that would become an interpolation get no suggestion for double quotes.",
  ["inputs","configurations"],"all HTML attribute values and Twig strings, both quotation settings",
  "Tests check a few strings under the default setting.",
  [L+"check/rules/html_string_quotation.rs",L+"check/rules/twig_string_quotation.rs"],
  [("quote compare and inner text scan",L+"check/rules/html_string_quotation.rs")],observe=["findings and fixed text"],hook=HK)
p("C16","snake_case naming is judged and repaired correctly",
  "A block name is reported exactly when it is not snake_case (lower-case ASCII letters, digits and single underscores, not at the start or end). A suggested replacement, if any, is itself accepted by the same rule, keeps the letters and digits of the name, is a usable name and renames the name behind 'endblock' too; the same holds for variable definitions with their naming rule.",
  ["inputs"],"all identifiers",
  "Tests sample a few dozen names.",
  [L+"check/naming_convention.rs",L+"check/rules/twig_block_name_snake_case.rs",L+"check/rules/twig_variable_definition_naming.rs"],
  [("character classification",L+"check/naming_convention.rs")],observe=["findings and suggestions for a name"],hook=HK)
p("C17","kebab-case naming is judged and repaired correctly",
  "An HTML attribute name (also of an attribute inside of a Twig structure of the tag, but not of a Twig component) is reported exactly when it is not kebab-case; a suggested replacement, if any, is itself accepted by the same rule and keeps the letters and digits of the name.",
  ["inputs"],"all attribute names",
  "Tests sample a few dozen names.",
  [L+"check/naming_convention.rs",L+"check/rules/html_attribute_name_kebab_case.rs"],
  [("character classification",L+"check/naming_convention.rs")],observe=["findings and suggestions for a name"],hook=HK)
p("C18","Ignore directives silence exactly what they name",
  "A ludtwig-ignore comment silences, for the single construct that follows it, exactly the named rules (all rules if none is named), in a text without syntax errors; findings elsewhere and findings of other rules stay as they would be without the comment being a directive, also when ignored constructs are nested.",
  ["inputs","histories"],"all placements and nestings of directives, all rules",
  "Tests use one directive before one construct.",
  [L+"check.rs",L+"check/rule.rs",P+"grammar.rs",P+"grammar/twig.rs",P+"syntax/typed.rs"],
  [("enter/leave bookkeeping of ignored rules",L+"check.rs run_rules"),("ignore helpers for whole-tree rules",L+"check/rule.rs RuleExt")],
  state=[("ignored rules","rules currently silenced by directives around the visited node",L+"check.rs run_rules")],
  observe=["findings"],hook=HK)
p("C19","File ignore directives disable exactly what they name",
  "A ludtwig-ignore-file comment at the top level of the file disables exactly the named rules for the whole file (all rules if none is named), in a text without syntax errors, and leaves the findings of every other rule unchanged.",
  ["inputs","configurations"],"all rule lists in the directive, all active rule sets",
  "Tests contain a few directives.",
  [L+"check/rules.rs",P+"syntax/typed.rs",P+"grammar/twig.rs"],
  [("file rule filter",L+"check/rules.rs get_file_active_rule_definitions")],observe=["findings"],hook=HK)
p("C20","Malformed regions produce no rule findings",
  "No finding of a rule has its primary range inside a region the parser marked as erroneous; such regions only carry syntax errors.",
  ["inputs"],"all texts with syntax errors",
  "No test combines parse errors with every rule.",
  [L+"check.rs",L+"check/rules/indentation.rs",L+"check/rules/html_duplicate_id.rs",L+"check/rules/twig_block_duplicate.rs"],
  [("error nodes are skipped during traversal",L+"check.rs run_rules")],observe=["findings and ERROR nodes"],hook=HK)
p("C21","Duplicate block names are reported, unique ones are not",
  "A block is reported as duplicate exactly when an earlier block in the same file (outside ignored and erroneous regions) has the same name; the report points at the later name and refers to the first definition.",
  ["inputs"],"all files, any number, order and nesting of blocks",
  "Tests contain two or three fixed names.",
  [L+"check/rules/twig_block_duplicate.rs"],[("name table over a preorder walk",L+"check/rules/twig_block_duplicate.rs")],observe=["findings"],hook=HK)
p("C22","Duplicate element ids are reported, unique ones are not",
  "A static id attribute value is reported as duplicate exactly when an earlier element in the same file (outside ignored and erroneous regions) has the same static id; values containing Twig and empty values are never reported.",
  ["inputs"],"all files, any number, order and nesting of elements",
  "Tests contain a few fixed ids.",
  [L+"check/rules/html_duplicate_id.rs"],[("id table over a preorder walk",L+"check/rules/html_duplicate_id.rs")],observe=["findings"],hook=HK)
p("C23","Only configured filters, tests and functions pass",
  "With a configured list of valid filters (tests, functions) every use of a name not in the list in an expression is reported once and no use of a listed name is. (Expressions with syntax errors are not judged.)",
  ["inputs","configurations"],"all names, all lists, all usage positions",
  "Tests use the default lists with a few names.",
  [L+"check/rules/twig_valid_filter.rs",L+"check/rules/twig_valid_test.rs",L+"check/rules/twig_valid_function.rs"],
  [("list lookup",L+"check/rules/twig_valid_filter.rs")],observe=["findings"],hook=HK)
p("C24","Operator style rules rewrite to the equivalent operator",
  "Each use of '&&', '||', '===' or '!==' as a Twig operator is reported exactly once by its rule and nothing else is; applying the suggestion yields 'and', 'or', 'is same as(...)' or 'is not same as(...)' with the same operands, so that the meaning of the whole expression stays the same, applied alone or together. Nested uses whose suggestions overlap may be refused as a whole.",
  ["inputs"],"all operands and all surrounding expressions",
  "One fixed expression per rule is tested.",
  [L+"check/rules/twig_logic_and.rs",L+"check/rules/twig_logic_or.rs",L+"check/rules/twig_use_is_same_as.rs",L+"check/rules/twig_use_is_not_same_as.rs"],
  [("operator kind check",L+"check/rules/twig_logic_and.rs")],observe=["findings and fixed text"],hook=HK)
p("C25","The exit status reflects the findings",
  "The process exits with a failure status if and only if at least one file was processed and at least one error, warning or help finding was reported; purely informational output never fails the run. The summary printed at the end states the number of files processed, of findings of each severity, and their total.",
  ["histories"],"all sequences of files and findings of all severities",
  "No test drives the counters.",
  [L+"output.rs",L+"main.rs"],[("counters and final decision",L+"output.rs handle_processing_output")],
  state=[("counters","number of files and of findings per severity",L+"output.rs")],observe=["exit status","printed summary"],hook=HK)
p("C26","The configuration selects exactly the listed rules",
  "The rules that run are exactly the known rules listed as active in the configuration, independent of the order and repetition of the list, and a list containing an unknown rule name is rejected with an error naming it.",
  ["configurations"],"all lists of active rule names",
  "One test checks the default list.",
  [L+"check/rules.rs",L+"config.rs"],[("lookup and validation",L+"check/rules.rs get_config_active_rule_definitions")],observe=["active rules or error"],hook=HK)
p("C27","Rules do not influence each other",
  "The findings of a rule on a text are the same whether the rule runs alone or together with any other rules, so activating or deactivating one rule never changes another rule's findings.",
  ["inputs","configurations"],"all texts, all pairs of rule selections",
  "Tests always run one rule alone, never the combination users run.",
  [L+"check.rs",L+"check/rule.rs"],[("shared traversal state",L+"check.rs run_rules")],observe=["findings per rule"],hook=HK)
p("C28","Every finding is reported exactly once",
  "Analysing a file emits exactly one report event per syntax error and per rule finding, carrying the finding's severity (syntax errors as errors), and producing the textual diagnostics never fails.",
  ["inputs"],"all texts, all rules",
  "Tests compare rendered text for single findings.",
  [L+"check.rs",L+"process.rs"],[("event per finding",L+"check.rs produce_diagnostics")],observe=["events sent to the output handler"],hook=HK)
p("C29","Line endings are normalised as configured",
  "With the LF (CRLF) setting the line-ending rule reports a text exactly when it contains a line ending that is not LF (CRLF), and after fixing every line ending is the configured one while all other characters and the number of line breaks are unchanged.",
  ["inputs","configurations"],"all texts and mixtures of LF and CRLF, both settings",
  "Tests check a few texts.",
  [L+"check/rules/line_ending.rs"],[("regex over line break tokens",L+"check/rules/line_ending.rs")],observe=["findings and fixed text"],hook=HK)
p("C30","Indentation follows nesting",
  "Outside whitespace-sensitive, ignored and erroneous regions, the indentation rule reports a line exactly when its leading whitespace differs from the configured indentation of its nesting depth, and the fix makes it equal.",
  ["inputs","configurations"],"all texts, spaces or tabs, all widths, block children indented or not",
  "Tests use a few layouts with the default setting.",
  [L+"check/rules/indentation.rs"],[("depth counter over the walk",L+"check/rules/indentation.rs")],observe=["findings and fixed text"],hook=HK)
p("C31","Hash key quotes are removed only when redundant",
  "The hash-key rule reports a quoted key exactly when its content is one plain ASCII name (so that the unquoted key means the same), and its fix yields the same key without quotes.",
  ["inputs"],"all quoted hash keys",
  "A few keys are tested.",
  [L+"check/rules/twig_hash_key_no_quotes.rs",P+"grammar/twig/literal.rs"],[("name regex and single-element check",L+"check/rules/twig_hash_key_no_quotes.rs")],observe=["findings and fixed text"],hook=HK)
p("C32","Escaping and extends advice fires exactly where it applies",
  "The json_encode advice is given exactly for a 'raw' filter that follows a 'json_encode' filter in the same filter chain, and the extends advice exactly once for each Twig 'extends' tag.",
  ["inputs"],"all filter chains and files",
  "A few chains are tested.",
  [L+"check/rules/twig_json_encode_escape_js.rs",L+"check/rules/twig_prefer_shopware_extends.rs"],[("filter chain walk",L+"check/rules/twig_json_encode_escape_js.rs")],observe=["findings"],hook=HK)
p("C33","The outcome does not depend on thread scheduling",
  "For a given set of files and configuration, the exit status, the totals and the set of diagnostics are the same for every schedule of the worker threads, and no file is processed twice or skipped.",
  ["schedules"],"all interleavings of the directory walker, the worker pool and the output thread",
  "Tests process one text on one thread.",
  [L+"main.rs",L+"output.rs"],[("parallel walk, thread pool and channel",L+"main.rs handle_input_paths")],observe=["exit status, totals"])
p("C34","Exactly the selected files are analysed",
  "Exactly the files below the given paths that have a twig or html type and are not excluded by ignore files are read, each once.",
  ["inputs","configurations"],"all directory trees and ignore files",
  "No test walks a directory.",
  [L+"main.rs",L+"process.rs"],[("ignore walker with type filter",L+"main.rs handle_input_paths")],observe=["files read"])
p("C35","Configuration sources override each other in order",
  "Every configuration value is taken from the environment (LUDTWIG_ and the name of the value) if set there, otherwise from the user's file, otherwise from the default, independently of every other value; values of the wrong type and unknown choices are rejected, as are files that are no TOML or, when given explicitly, cannot be read.",
  ["configurations"],"all combinations of default, file and environment values",
  "Tests use a few files.",
  [L+"config.rs"],[("figment layering",L+"config.rs Config::new")],observe=["effective configuration"],hook=HK)
p("C36","Well-formed templates parse without syntax errors",
  "A template built from the documented constructs (Twig tags, expressions, HTML elements, Shopware tags) with proper nesting and complete tags is accepted without any syntax error, whatever names, numbers and string contents it uses.",
  ["inputs"],"all well-formed templates over the supported constructs",
  "Parser tests check single fixed snippets; nestings and names are unbounded.",
  [P+"grammar.rs",P+"grammar/html.rs",P+"grammar/twig/tags.rs",P+"grammar/twig/expression.rs",P+"grammar/twig/literal.rs",P+"grammar/twig/shopware.rs"],[("grammar functions",P+"grammar/")],observe=["errors of parse(&str)"])
p("C37","Twig blocks are separated by the configured line breaks",
  "Outside whitespace-sensitive, ignored and erroneous regions, each Twig block (except one that is the first thing at the top level of the file) is preceded and followed by exactly the configured number of line breaks (two with linebreaks_around_blocks, else one) towards its siblings and by one line break at the edges of its parent: the rule twig-block-line-breaks reports exactly the deviations, and after fixing with the formatting rules none is left.",
  ["inputs","configurations"],"all texts, both settings of linebreaks_around_blocks, both line endings",
  "Tests use a few layouts; a comment in front of a block, the edges of parents and the interplay with the other formatting rules are sampled once or not at all.",
  [L+"check/rules/twig_block_line_breaks.rs"],[("sibling and token neighbourhood",L+"check/rules/twig_block_line_breaks.rs")],observe=["findings and fixed text"],hook=HK)
p("C38","White space on empty lines is found and removed",
  "The rule whitespace-between-line-breaks reports exactly the white space that stands alone between two line breaks outside whitespace-sensitive, ignored and erroneous regions, suggests only its removal, and after fixing with the formatting rules none is left.",
  ["inputs","configurations"],"all texts",
  "Two fixed texts are tested.",
  [L+"check/rules/whitespace_between_line_breaks.rs"],[("token neighbourhood",L+"check/rules/whitespace_between_line_breaks.rs")],observe=["findings and fixed text"],hook=HK)
p("C39","Accessors, filters, lookups and calls bind to what precedes them",
  "In every accepted Twig expression a chain of accessors, index lookups or slices, filters and calls applies from left to right to the operand directly in front of it (a literal, a name, a parenthesised expression, an array, a hash), binds tighter than every operator, and its arguments are expressions that end at their own comma or closing bracket.",
  ["inputs"],"all expressions",
  "Tests fix the tree of a few chains; combinations of chains with operators and nested arguments are unbounded.",
  [P+"grammar/twig/expression.rs",P+"grammar/twig/literal.rs"],[("postfix loops after an operand",P+"grammar/twig/literal.rs")],observe=["syntax tree"],hook=HK)
p("C40","The contents of strings, comments and text are opaque",
  "Whatever characters a Twig string (up to its unescaped closing quote, without interpolation), a Twig or HTML comment (up to its closing delimiter; a directive excepted), a quoted attribute value without Twig or angle brackets, the raw text of script, style, textarea and title, or plain text consists of, it ends exactly at its own delimiter, causes no syntax error and contains no element, tag or expression.",
  ["inputs"],"all contents of the places where strings, comments and text may stand",
  "Tests use a few words as contents; keywords, quotes, backslashes, delimiters of other constructs, white space and characters of several bytes inside of contents are unbounded.",
  [P+"grammar/twig/literal.rs",P+"grammar/twig.rs",P+"grammar/html.rs",P+"lexer.rs"],[("end of a string",P+"grammar/twig/literal.rs"),("end of a comment, raw text, attribute value",P+"grammar/html.rs")],observe=["syntax tree","syntax errors"],hook=HK)
p("C41","Nothing mandatory is missing in an accepted construct",
  "In a text without syntax errors every tag, expression, attribute and directive consists of the parts its syntax demands, in their order, with nothing missing, doubled or foreign (characters which start no token excepted): operands of operators, names, keywords and expressions of tags, brackets, quotes, elements between commas, equal numbers of names and values of a set, the same name at the end of a block or macro. No part of an accepted text is marked as an error.",
  ["inputs"],"all texts",
  "Each missing part has at most one test; which of the many checks of the parser is left out or reached too late shows only in specific malformed inputs.",
  [P+"grammar/twig/tags.rs",P+"grammar/twig/expression.rs",P+"grammar/twig/literal.rs",P+"grammar/twig/shopware.rs",P+"grammar/html.rs"],[("expectations of the parsing functions",P+"grammar/twig/tags.rs"),("operands",P+"grammar/twig/expression.rs")],observe=["syntax tree","syntax errors"],hook=HK)
p("C42","An error inside of a construct stays inside of it",
  "A syntax error in an expression, an attribute or the contents of a tag or element (one that involves no quotes, comments or delimiters, nor tags which open or close a construct) leaves the surrounding constructs and everything behind it structured exactly as they are without it and causes no follow-up error behind it; an element without end tag inside of a Twig tag costs exactly one error.",
  ["inputs"],"all constructs with all kinds of errors inside",
  "Tests show recovery for single errors in a few tags; what is swallowed depends on the combination of the surrounding construct and the tokens of the error.",
  [P+"grammar.rs",P+"grammar/twig/tags.rs",P+"grammar/html.rs",P+"parser.rs"],[("tags at which element contents end",P+"grammar/twig/tags.rs at_twig_termination_tag"),("recovery sets",P+"parser.rs Parser::recover")],observe=["syntax tree","syntax errors"],hook=HK)
p("C43","A syntax error names the token it points at",
  "Every syntax error ranges over exactly one token which is neither white space nor a line break, names the kind of this very token as found (or names none, at the end of the text, where it points at the last token), and says what was expected.",
  ["inputs"],"all texts",
  "Tests compare a few messages; lookahead, skipped white space and recovery can separate the named from the marked token in any malformed text.",
  [P+"parser.rs",P+"parser/parse_error.rs"],[("construction of errors",P+"parser.rs Parser::add_error")],observe=["syntax errors"],hook=HK)
p("C44","Constructs are parsed alike wherever they stand",
  "A piece of content or an expression has the same syntax tree and the same errors wherever contents or expressions of this kind are allowed: in the file, in elements, in each Twig tag, in attributes, arguments, arrays, hashes, strings (apart from text that merges with its surroundings, and the conditional without else branch in front of a colon).",
  ["inputs"],"all pieces of content and all expressions at all places for them",
  "Each test parses a construct at one place; the functions for contents, attributes, tag heads and expressions differ and only some combinations are tested.",
  [P+"grammar.rs",P+"grammar/twig/tags.rs",P+"grammar/twig/expression.rs",P+"grammar/html.rs"],[("child parsers handed down",P+"grammar.rs"),("expressions in tag heads",P+"grammar/twig/tags.rs")],observe=["syntax tree","syntax errors"],hook=HK)
p("C45","The fix performs exactly the reported suggestions",
  "In every round of fixing the text changes exactly as the suggestions of the reported findings say (a rule whose suggestions overlap those of an earlier one waits for the next round), until no suggestion is left; the file is marked as changed exactly when its text differs, and the findings and syntax errors returned with it are those of the fixed text.",
  ["inputs","configurations"],"all texts and configurations",
  "Tests fix short texts with one rule; the shifting of ranges, overlaps and several rounds depend on the combination of findings.",
  [L+"process.rs",L+"check/produce_diagnostics.rs"],[("replacement of suggestions",L+"process.rs"),("fixing loop",L+"process.rs")],observe=["fixed text","findings"],hook=HK)
p("C46","Files are written only with --fix and exactly with the fixed text",
  "A file is written only with --fix and only if fixing changes its text, and then its contents become exactly the fixed text, whatever short reads, short writes or interruptions occur; a file which cannot be read or is no UTF-8, or whose writing fails, yields an error; exactly one event says that it was processed, and the findings reported are those of the text which is left.",
  ["inputs","configurations","fault_sequences"],"all contents of a file, all outcomes of opening, reading and writing it",
  "No test reads or writes a file, and no test makes a read or a write fail.",
  [L+"process.rs",L+"main.rs",L+"output.rs"],[("reading, fixing and writing of a file",L+"process.rs process_file")],observe=["system calls","events"],hook=HK)
p("C47","Creating the configuration never overwrites one",
  "With --create-config the default configuration (with the program's version) is written exactly once and completely to the given path, or to ludtwig-config.toml if none is given, and the process succeeds; if anything exists there already, nothing is written and the process fails. Without the option no configuration is ever written.",
  ["inputs","fault_sequences"],"all ways in which the path may exist or not, all outcomes of writing, with and without a given path",
  "No test creates a configuration.",
  [L+"config.rs",L+"main.rs"],[("existence test and writing",L+"config.rs handle_config_or_exit")],observe=["system calls","exit status"],hook=HK)
p("C48","Printed diagnostics show every finding at its place",
  "What is printed for a file consists of exactly one diagnostic for each finding and each syntax error, with its severity, rule name and message, at the line and column where it begins in the text as it is then (after an automatic fix: the fixed text), and of the syntax tree exactly if it was asked for.",
  ["inputs","configurations"],"all texts, with and without the syntax tree and the automatic fix",
  "Tests compare the rendered output of single findings in short texts; several findings, characters of several bytes, the end of the file and fixed texts with remaining errors are hardly sampled.",
  [L+"check.rs",L+"process.rs"],[("labels and notes",L+"check.rs produce_diagnostics")],observe=["printed diagnostics"],hook=HK)
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for r in R: f.write(json.dumps(r,ensure_ascii=False)+"\n")
for r in R:
    assert len(r["title"])<=80,r["id"]
print(len(R))
