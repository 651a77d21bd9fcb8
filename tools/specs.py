"""The symbolic inputs of every check: for each property a function tier -> specification."""
import corpus
from tpl import *
SPECS = {}; NOTES = {}
def spec(pid):
    def f(g): SPECS[pid] = g; return g
    return f

# ------------------------------------------------------------------------------------------------ parser
# free text: contexts in which two or three arbitrary ASCII characters follow each other
CONTEXTS = ['', '{{ ', '{{ a', '{{ "', "{{ 'a", '{{ a.', '{{ a|', '{{ [', '{{ {', '{{ f(', '{% ', '{% set a = ', '{% if a', '{% block a %}', '{% block ', '{#', '{# a', '{# ludtwig-ignore ', '<', '<a', '<a ', '<a b=', '<a b="', '</', '<!', '<!--', '<a>', '<script>', '&', 'twig:', '1', 'not', 'is', 'b-', '@', '<a :', '{{ a ? b', '{% for a in b', '{{ "#{']
TAILS = ['', ' }}', '>', ' %}', '"></a>']
def parser_jobs(what, tier):
    th = tier == 'thorough'
    ps = []
    for c in CONTEXTS:
        ps.append(cfg([c + '⟦A⟧⟦A⟧'], [what], [ASCII]))
        for t in TAILS[1:]: ps.append(cfg([c + ('⟦A⟧⟦A⟧' if th else '⟦A⟧') + t], [what], [ASCII]))
    # one arbitrary character anywhere in a corpus text
    texts = corpus.VALID + corpus.BROKEN
    for i, t in enumerate(texts):
        for h in one_hole(t, insert_only=not th): ps.append(cfg([h], [what], [ASCII]))
    big = [(cfg([c + '⟦A⟧⟦A⟧⟦A⟧'], [what], [ASCII]), 8) for c in ('', '{{ ', '<a ', '{% ')] if th else [(cfg(['⟦A⟧⟦A⟧⟦A⟧'], [what], [ASCII]), 8)]
    # token level: two arbitrary tokens after each context, one arbitrary token in place of / before each token of a corpus text
    tk = []
    for c in CONTEXTS: tk.append(cfg([T(c + ' ') + b'\x01' + b' ' + b'\x01'], [what, 0]))
    for t in texts: tk += [cfg([x], [what, 0]) for x in token_holes(t, th)]
    ps += mb_jobs(texts, [what], th)
    return {'h_parse': ps + big, 'h_tokens': tk}
import re
LEX = re.compile(rb'[A-Za-z_][A-Za-z0-9_-]*|[0-9.]+|[ \t\r\n]+|\{[{%#][-~]?|[-~]?[}%#]\}|</|<!--|-->|/>|=>|[=!<>]=+>?|\*\*|\?\?|//|\.\.+|&&|\|\||.', re.S)
def token_holes(t, insert):
    b = t.encode(); o = []
    for m in LEX.finditer(b):
        o.append(b[:m.start()] + b'\x01' + b[m.end():])
        if insert: o.append(b[:m.start()] + b'\x01' + b[m.start():])
    return o
MB3 = [bytes([*range(0xE1, 0xED), 0xEE, 0xEF]), bytes(range(0x80, 0xC0))]; MB2 = [bytes(range(0xC2, 0xE0)), MB3[1]]; MB4 = [bytes(range(0xF1, 0xF4)), MB3[1]]
def mb_holes(t, hole, every=1):
    """the text with a hole before each of its tokens (and in the middle of long ones) and at the end"""
    b = t.encode() if isinstance(t, str) else t; o = []; h = T(hole)
    at = sorted({0, len(b)} | {m.start() for m in LEX.finditer(b)} | {m.start() + 1 for m in LEX.finditer(b) if re.fullmatch(rb'[A-Za-z_-]{2,}', m[0])})
    for i in at:
        if i < len(b) and b[i] & 0xC0 == 0x80: continue
        o.append(b[:i] + h + b[i:])
    return [x for i, x in enumerate(o) if i % every == 0]
def mb_jobs(texts, opts, th):
    o = [cfg([h], opts, MB3) for t in texts for h in mb_holes(t, '⟦A⟧⟦B⟧⟦B⟧')]
    for c in CONTEXTS if opts[0] not in (0,) else []:
        for t in TAILS if th else TAILS[:1]: o.append(cfg([c + '⟦A⟧⟦B⟧⟦B⟧⟦C⟧' + t], opts, MB3 + [ASCII])); o.append(cfg([c + '⟦C⟧⟦A⟧⟦B⟧⟦B⟧' + t], opts, MB3 + [ASCII]))
    if th: o += [cfg([h], opts, c) for t in texts for c, x in ((MB2, '⟦A⟧⟦B⟧'), (MB4, '⟦A⟧⟦B⟧⟦B⟧⟦B⟧')) for h in mb_holes(t, x)]
    return o
PB = 'texts: every corpus text (%d well-formed, %d broken) with one character inserted as (thorough: or replaced by) any of the 128 ASCII values, at every position; %d contexts followed by 2 arbitrary ASCII characters (3 at the start of the file%s); the same texts with one token replaced by (thorough: or inserted as) a token of any kind; contexts followed by 2 tokens of any kind. any character of three bytes (thorough: 2, 3, 4) before every token of a corpus text. Outside: longer arbitrary texts.' 
def pbounds(tier): return PB % (len(corpus.VALID), len(corpus.BROKEN), len(CONTEXTS), '' if tier == 'quick' else ' and in three contexts')
for pid, what, rc in (('C01', 1, [1, 2]), ('C02', 2, [1, 2]), ('C03', 3, [2]), ('C08', 8, [1, 2, 80, 81, 82, 83, 84, 85]), ('C43', 43, [1, 2, 430, 431])):
    def g(tier, what=what, rc=rc): return {'harness': 'parser', 'jobs': parser_jobs(what, tier), 'bounds': pbounds(tier), 'reach': rc, 'steps': 5_000_000}
    SPECS[pid] = g

# C04
BINOPS = ['or', '||', 'and', '&&', 'b-or', 'b-xor', 'b-and', '==', '!=', '<=>', '<', '>', '>=', '<=', 'in', 'not in', 'matches', 'starts with', 'ends with', '===', '!==', '..', '+', '-', '~', '*', '/', '//', '%', 'is', 'is not', '**', '??']
OPREP = ['or', 'and', 'b-or', 'b-xor', 'b-and', '==', 'not in', '..', '-', '~', '*', 'is', '**', '??']   # one of every level
UNOPS = ['', 'not ', '-', '+', 'not not ', '- -']
EXPR_CTX = [('{{ ', ' }}'), ('{{- ', ' -}}'), ('{% set x = ', ' %}'), ('{% if ', ' %}y{% endif %}'), ('{% do ', ' %}'), ('{% return ', ' %}')]
@spec('C04')
def c04(tier):
    th = tier == 'thorough'
    ops = [f' {o} ' for o in BINOPS]; rep = [f' {o} ' for o in OPREP]; un = UNOPS
    js = []
    for a, b in EXPR_CTX:
        for x in ('⟪B⟫a⟪A⟫⟪B⟫b', 'a⟪A⟫b⟪A⟫c', '⟪B⟫(a⟪A⟫b)⟪A⟫c', '(⟪B⟫a⟪A⟫⟪B⟫b)'): js.append(cfg([a + x + b], (), (), [ops, un]))
    for a, b in EXPR_CTX[:6 if th else 1]:
        for x in ('a⟪A⟫(b⟪A⟫c)⟪A⟫d', '⟪B⟫a⟪A⟫⟪B⟫b⟪A⟫c', 'a⟪A⟫b ? c⟪A⟫d : e⟪A⟫f', 'a ? b⟪A⟫c : d ? e : f⟪A⟫g', 'a⟪A⟫(b ? c : d⟪A⟫e)', '(a⟪A⟫b) ? c : (d⟪A⟫e)', 'a⟪A⟫⟪B⟫(b⟪A⟫⟪B⟫c)', '1⟪A⟫2⟪A⟫-3', 'a⟪A⟫b⟪A⟫c⟪A⟫d'):
            js.append((cfg([a + x + b], (), (), [rep, un]), 8))
    js.append(cfg(['{{ a⟪A⟫b }}'], (), (), [BINOPS[1:2] + ['&&', '==', '!=', '<=>', '>=', '<=', '===', '!==', '+', '~', '*', '/', '//', '**', '??', '<', '>'], un]))
    tk = [(cfg([T('{{ a ') + b'\x01 b \x01 c \x01 d' + T(' }}')], [4, 1]), 8)]
    if th: tk = [(cfg([T('{{ a ') + b'\x01 b \x01 c \x01 d \x01 e' + T(' }}')], [4, 1]), 64)]
    return {'harness': 'parser', 'jobs': {'h_group': js, 'h_tokens': tk}, 'reach': [101, 102, 103], 'steps': 5_000_000,
        'bounds': f'expressions of {4 if th else 3} operators over all {len(BINOPS)} binary operator tokens (token level); of 2 operators in all spellings, with unary prefixes and parentheses, in {len(EXPR_CTX)} contexts; of 3 operators, unary prefixes, parentheses and conditionals with one operator of every precedence level (text level). Outside: longer chains, filters and accessors as operands.'}

# C39
PRIM = ['a', '(b ~ c)', '"d"', '[e, 1]', '{ f: g }', 'h(i)', '7']
POST = ['.j', '|k', '|l(m)', '[n]', '[1:2]', '(o, 2)', '.p(q)', '|r(s.t)|u', "['v']", '|w(x|y)']
@spec('C39')
def c39(tier):
    th = tier == 'thorough'
    ops = [f' {o} ' for o in OPREP]; un = ['', 'not ', '-']; g = [PRIM, POST, ops, un]
    js = []
    for a, b in EXPR_CTX[:6 if th else 2]:
        js += [(cfg([a + '⟪A⟫⟪B⟫⟪B⟫⟪B⟫' + b], [39], (), g), 8), (cfg([a + '⟪D⟫⟪A⟫⟪B⟫⟪C⟫⟪D⟫a⟪B⟫' + b], [39], (), g), 8), (cfg([a + 'a⟪C⟫b⟪B⟫⟪B⟫⟪C⟫c' + b], [39], (), g), 8)]
    js += [(cfg([a + x + b], [39], (), g), 4) for a, b in EXPR_CTX[:6 if th else 1] for x in ('(a⟪C⟫b⟪B⟫)⟪B⟫', 'a⟪B⟫ ? b⟪B⟫ : c⟪B⟫', 'f(a⟪B⟫⟪C⟫b⟪B⟫)⟪B⟫', '[a⟪B⟫, b⟪B⟫⟪C⟫c]⟪B⟫', 'a[b⟪B⟫⟪C⟫c⟪B⟫]⟪B⟫', 'a|f(b⟪B⟫⟪C⟫⟪D⟫c⟪B⟫)', '{ k: a⟪B⟫⟪C⟫b⟪B⟫ }⟪B⟫')]
    js += [(cfg([a + x + b], [39], (), g), 4) for a, b in EXPR_CTX[:6 if th else 1] for x in ('a.b(⟪D⟫c⟪C⟫⟪D⟫d⟪B⟫)⟪B⟫', 'f(⟪D⟫⟪A⟫⟪C⟫b, ⟪D⟫c)', 'a[⟪D⟫⟪A⟫⟪C⟫c]', 'a|f(⟪D⟫⟪A⟫⟪C⟫c)', '[⟪D⟫⟪A⟫⟪C⟫b, ⟪D⟫c]', 'a.b.c(⟪D⟫⟪A⟫, ⟪D⟫d)⟪B⟫', '(⟪D⟫⟪A⟫⟪B⟫)⟪B⟫', 'a ? ⟪D⟫⟪A⟫ : ⟪D⟫⟪A⟫')]
    if th: js += [(cfg(['{{ ⟪A⟫⟪B⟫⟪B⟫⟪B⟫⟪B⟫ }}'], [39], (), g), 16), (cfg(['{{ a⟪B⟫⟪C⟫b⟪B⟫⟪C⟫c⟪B⟫ }}'], [39], (), g), 64)]
    return {'harness': 'parser', 'jobs': {'h_group': js}, 'reach': [121, 122, 103, 104], 'steps': 5_000_000,
        'bounds': f'chains of up to {4 if th else 3} of {len(POST)} accessors, filters, calls and index lookups on {len(PRIM)} kinds of operands, alone, as operands of one operator of every precedence level with unary prefixes, and nested in parentheses, arguments, arrays, hashes, conditionals and index lookups. Outside: longer chains.'}

# C05
@spec('C05')
def c05(tier):
    th = tier == 'thorough'
    js = []
    for m in corpus.MARKED:
        t = corpus.marks(m).encode(); n = sum(x in (1, 2) for x in t)
        if n == 0: continue
        if n > 255: continue
        for i in range(n):
            if n == 1: js.append(cfg([t], [i]))
            for j in range(i + 1, n if th else min(n, i + 3)): js.append(cfg([t], [i, j]))
            if th:
                for j in range(i + 1, min(n, i + 4)):
                    for k in range(j + 1, min(n, j + 4)): js.append(cfg([t], [i, j, k]))
    return {'harness': 'parser', 'jobs': {'h_trivia': js}, 'reach': [5], 'steps': 10_000_000,
        'bounds': f'{len(corpus.MARKED)} texts covering the constructs of the grammar; ' + ('every pair of gaps and triples of near gaps' if th else 'every pair of neighbouring gaps') + ' between tokens filled with none, blank, LF, tab, CRLF or a mixture. Outside: other fillings, more than these gaps at once.'}

# C06, C07
def tags_cfg(what, pieces, n, around=('', '')):
    """pieces: (text, role)"""
    return cfg([around[0] + '⟪A⟫' * n + around[1]], [what] + [r for _, r in pieces], (), [[p for p, _ in pieces]])
HT = [('<a>', 3), ('</a>', 63), ('<b c="d">', 4), ('</b>', 64), ('<br>', 0), ('<a/>', 0), ('<i \n e>', 5), ('</i >', 65), ('x', 0), ('{% if c %}', 1), ('{% endif %}', 61)]
HTR = [('<a>', 0), ('</a>', 0), ('<b c="d">', 0), ('<br>', 0), ('x < y', 0), ('{{ x }}', 0), ('{% if c %}', 1), ('{% else %}', 122), ('{% endif %}', 61), ('{% block b %}', 3), ('{% endblock %}', 63), ('{# c #}', 0)]
HT2 = [('<div>', 4), ('</div>', 64), ('<td \n c>', 5), ('</td>', 65), ('{{ x }}', 0), ('<h1>', 6), ('</h1>', 66), ('<x-y>', 7), ('</x-y>', 67), ('<twig:A:B>', 8), ('</twig:A:B>', 68), ('<twig:C/>', 0)]
HT3 = [('<p>', 3), ('</p>', 63), ('<P>', 4), ('</P>', 64), ('<img src="x">', 0), ('<input/>', 0), ('{% block b %}', 5), ('{% endblock %}', 65), ('{% for x in y %}', 2), ('{% else %}', 122), ('{% endfor %}', 62), ('<!-- <a> -->', 0), ('{# </p> #}', 0)]
TW = [('{% if a %}', 1), ('{% endif %}', 61), ('{% elseif b %}', 121), ('{% else %}', 122), ('{% for a in b %}', 2), ('{% endfor %}', 62)]
for i, (o, c) in enumerate([('block a', 'endblock'), ('apply upper', 'endapply'), ('autoescape', 'endautoescape'), ('embed "a"', 'endembed'), ('sandbox', 'endsandbox'), ('verbatim', 'endverbatim'), ('macro a()', 'endmacro'), ('with', 'endwith'), ("cache 'a'", 'endcache'), ('component A', 'endcomponent'), ('trans', 'endtrans'), ("sw_silent_feature_call 'A'", 'endsw_silent_feature_call'), ('set a', 'endset'), ("sw_embed 'a'", 'sw_end_embed')]):
    TW += [('{%% %s %%}' % o, 3 + i), ('{%% %s %%}' % c, 63 + i)]
TWN = [('{% set a = 1 %}', 0), ('{{ a }}', 0), ('<b>', 40), ('</b>', 100), ('x', 0)]
TWS = [('{%- if a -%}', 1), ('{%- endif -%}', 61), ('{%~ elseif b ~%}', 121), ('{%- else -%}', 122), ('{%- for a in b -%}', 2), ('{%- endfor ~%}', 62), ('{% block c %}', 3), ('{%- endblock c -%}', 63), ('<b>', 4), ('</b>', 64)]
NAME = LOWER + b'ABC019_-'
def tag_jobs(what, th):
    if what == 6:
        js = [(tags_cfg(6, HT, 5 if th else 4), 8), (tags_cfg(6, HT2, 4 if th else 3), 8), (tags_cfg(6, HT3, 5 if th else 4), 8),
              tags_cfg(6, HT, 3, ('<u>', '</u>')), tags_cfg(6, HT2, 3 if th else 2, ('<ul><li>', '</li></ul>')), tags_cfg(6, HT3, 3, ('{% apply upper %}', '{% endapply %}')), tags_cfg(6, HTR, 3 if th else 2, ('<script>', '</script>')), tags_cfg(6, HTR, 3 if th else 2, ('<p><style>', '</style></p>')), tags_cfg(6, HTR, 2, ('<a><script x="y">', '</script>'))]
    elif what == 7:
        js = [(tags_cfg(7, TW + TWN, 3), 16), tags_cfg(7, TW, 2, ('<p>', '</p>')), tags_cfg(7, TW, 2, ('<a b="', '">x</a>')), tags_cfg(7, TW, 2, ('<a ', '>x</a>')), tags_cfg(7, TW, 2, ('<script>', '</script>')), tags_cfg(7, TW, 2, ("<style a='b'>", '</style>')),
              (tags_cfg(7, TWS, 5 if th else 4), 8)]
        for i in range(0, len(TW), 2):
            if i == 2: continue
            js.append(tags_cfg(7, TW[i:i + 2] + TW[2:6] + TW[6:8] + [('x', 0)], 4))
            if th: js.append((tags_cfg(7, TW[i:i + 2] + TW[2:6] + TW[6:8] + [('x', 0)], 5), 4))
    return js
def g67(pid, what, rc):
    def g(tier):
        th = tier == 'thorough'
        p = []
        texts = corpus.VALID + corpus.BROKEN
        for t in texts:
            for h in one_hole(t, insert_only=not th): p.append(cfg([h], [what], [ASCII]))
        if what == 6:
            for x in ('<⟦A⟧⟦B⟧></⟦A⟧⟦B⟧>', '<b⟦B⟧>x</b⟦B⟧>', '<⟦A⟧r></⟦A⟧r>', '<h⟦B⟧></h⟦B⟧>', '<i⟦B⟧g></i⟦B⟧g>', '<twig:⟦A⟧></twig:⟦A⟧>', '<⟦A⟧:⟦B⟧></⟦A⟧:⟦B⟧>'): p.append((cfg([x], [6], [b'abiBh1_', b'rabRm-1'] if x.startswith('<⟦A⟧⟦B⟧') or ':⟦B⟧' in x else [ALPHA, NAME]), 2))
            for x in ('<⟦A⟧⟦B⟧><⟦A⟧></⟦A⟧></⟦A⟧⟦B⟧>', '<⟦A⟧⟦B⟧/><⟦A⟧></⟦A⟧⟦B⟧>'): p.append((cfg([x], [6], [b'abB', b'brR']), 2))
        tk = [cfg([x], [what, 0]) for t in texts for x in token_holes(t, th)]
        return {'harness': 'parser', 'jobs': {'h_tags': tag_jobs(what, th), 'h_parse': p, 'h_tokens': tk}, 'reach': rc, 'steps': 10_000_000,
            'bounds': 'sequences of up to %d tags chosen among the opening, middle and terminating tags of every construct, alone and inside elements, attribute values, attribute lists and raw text elements; ' % (5 if th else 4) + ('two-letter tag names with arbitrary characters; ' if what == 6 else '') + 'every corpus text with one arbitrary ASCII character inserted or one token replaced (thorough: also replaced/inserted). Outside: longer sequences.'}
    SPECS[pid] = g
g67('C06', 6, [10, 11, 60, 61, 62]); g67('C07', 7, [10, 11, 70, 71, 72, 73])

# C09
SPELL = [l.split('"')[1] for l in open(__file__.rsplit('/', 2)[0] + '/harness/parser/spelling.rs') if l.strip().startswith('(TK_') and l.count('"') >= 2]
LEXCTX = ['', ' ', 'a', '1', '{', '{{', '{%', '-', '<', '&', '&a', '&#', '&#x', '&#1', 'twig:', 'twig:a:', '#', '@', '$', '\r', '\n', '=', '!', '.', '..', 'not i', 'not in', 'is no', 'is not', 'b-', '1.', '1e', '1e+', '?', '*', '|', '\\', '}', '%', '~', '#}', '-#', '<!', '<!-', '--', '</', '"', "'", 'é', '☃', 'a-', 'not-', '<!--', '<!--a', '<!--a-', '<!--a--', '<!-- --> a--']
@spec('C09')
def c09(tier):
    th = tier == 'thorough'
    js = []
    for c in LEXCTX: js.append((cfg([c + ('⟦A⟧⟦A⟧⟦A⟧' if th else '⟦A⟧⟦A⟧')], [0], [ASCII]), 8 if th else 1))
    for c in LEXCTX: js += [cfg([c + '⟦A⟧⟦B⟧⟦B⟧' + ('⟦C⟧⟦C⟧' if th else '⟦C⟧')], [0], MB3 + [ASCII])] + ([cfg(['⟦C⟧' + c + '⟦A⟧⟦B⟧⟦B⟧'], [0], MB3 + [ASCII]), cfg([c + '⟦A⟧⟦B⟧⟦C⟧'], [0], MB2 + [ASCII]), cfg([c + '⟦A⟧⟦B⟧⟦B⟧⟦B⟧⟦C⟧'], [0], MB4 + [ASCII])] if th else [])
    for s in SPELL:
        js.append(cfg([s + ('⟦A⟧⟦A⟧' if th or ' ' in s else '⟦A⟧')], [0], [ASCII])); js.append(cfg([('⟦A⟧' + s + '⟦A⟧') if th else '⟦A⟧' + s], [0], [ASCII]))
        for h in one_hole(s): js.append(cfg([h], [0], [ASCII]))
    js.append((cfg(['⟦A⟧⟦A⟧⟦A⟧'], [0], [ASCII]), 8))
    if th:
        for s in SPELL:
            for t in SPELL: js.append(cfg([s + '⟦A⟧' + t], [0], [b' \t\n\r-_.a1(']))
    for t in corpus.VALID + corpus.BROKEN:
        for h in one_hole(t, insert_only=not th): js.append(cfg([h], [1], [ASCII]))
    return {'harness': 'parser', 'jobs': {'h_lex': js}, 'reach': [1, 2, 3], 'steps': 5_000_000,
        'bounds': f'all ASCII strings of length up to 3; {len(LEXCTX)} prefixes followed by {3 if th else 2} arbitrary ASCII characters and by any character of three bytes{' (two, four)' if th else ''}; all {len(SPELL)} fixed spellings with one character changed or inserted and with characters before and behind; leaves of the tree against the tokens for every corpus text with one arbitrary character. Outside: longer arbitrary strings.'}

# C40
OPQ = [(1, '{{ "', '" }}'), (2, "{{ '", "' }}"), (1, '{% set a = "', '" %}'), (2, "{% if a == '", "' %}x{% endif %}"), (1, '{{ a|f("', '", 1)|g }}'), (2, "<p c=\"{{ '", "' }}\"></p>"), (1, '{% include "', '" with b %}'), (2, "{% sw_extends '", "' %}"), (1, '{{ {"', '": 1} }}'), (2, "{{ ['a', '", "'] }}"), (1, '{% block a "', '" %}'), (2, "{% cache '", "' %}x{% endcache %}"), (1, '{{ a["', '"] ~ "b" }}'), (2, "{% include a with {'b': '", "'} %}"),
       (3, '{#', '#}'), (3, '{#-', '#}'), (3, '{#', '-#}'), (3, '{# a ', ' ~#}'), (3, '<p>{# ', '#}</p>'), (3, '<p {#', '#} b></p>'), (3, '<p b="{#', '#}c"></p>'), (3, '{% block a %}{# b', 'c #}{% endblock %}'), (3, '<script>{#', '#}</script>'),
       (4, '<!--', '-->'), (4, '<!-- ', ' -->'), (4, '<p><!-- a', '--></p>'), (4, '{% if a %}<!--', 'b -->{% endif %}'),
       (5, '<p a="', '"></p>'), (6, "<p a='", "'></p>"), (5, '<p {% if a %}b="', '"{% endif %}></p>'), (6, "<br a b='", "' c>"), (5, '<p a="{{ b }}', '"></p>'), (6, "<p a='b", "{{ b }}'></p>"),
       (7, '<script>', '</script>'), (7, '<p><style a="b">', '</style></p>'), (7, '<textarea>a', 'b</textarea>'), (7, '<title>', '</title>'), (8, '<p>', '</p>'), (8, '', '<br>'), (8, '{{ a }}', '{{ b }}'), (8, '<p>a', '{# b #}</p>'), (8, '{% if a %}', '{% endif %}'), (8, '<br/>', ''), (8, '<!-- a -->', '')]
@spec('C40')
def c40(tier):
    th = tier == 'thorough'
    js = []
    for k, a, b in OPQ:
        cl = [ASCII, *MB3]
        js.append((cfg([a, '⟦A⟧⟦A⟧⟦A⟧' if th or (a, b) in (('{{ "', '" }}'), ('{#', '#}'), ('<!--', '-->'), ('<p a="', '"></p>'), ('<script>', '</script>'), ('<p>', '</p>')) else '⟦A⟧⟦A⟧', b], [k], cl), 4))
        js.append(cfg([a, '⟦A⟧⟦B⟧⟦C⟧⟦C⟧⟦A⟧', b], [k], cl))
        for w in ('x⟦A⟧ ⟦A⟧y', ' ⟦A⟧⟦A⟧ ', '\n⟦A⟧\n', 'not ⟦A⟧n', '⟦A⟧b-and⟦A⟧', '1⟦A⟧2', '{{⟦A⟧a }}', '{% if⟦A⟧%}', '</⟦A⟧>', '<a⟦A⟧b', '--⟦A⟧', 'a-⟦A⟧', '<!-⟦A⟧- a', '#⟦A⟧a', 'it⟦A⟧s "⟦A⟧"', '\\⟦A⟧\\⟦A⟧', '&⟦A⟧mp;', 'ludtwig-⟦A⟧gnore a', 'x ludtwig-ignore a'): js.append(cfg([a, w, b], [k], cl))
    return {'harness': 'parser', 'jobs': {'h_opaque': js}, 'reach': [41, 42, 43, 44, 45, 46, 47, 48], 'steps': 10_000_000,
        'bounds': f'{len(OPQ)} places of strings, comments, attribute values, raw text and text; contents of up to {"3" if th else "2 (six places: 3)"} arbitrary ASCII characters, any character of three bytes between two of them, and 19 patterns of up to 12 characters with one or two arbitrary ones. Outside: longer contents; interpolation.'}

# C41
def two_tokens(t):
    """two tokens next to each other replaced by two of any kind (a blank: left out)"""
    b = t.encode(); ms = [m for m in LEX.finditer(b) if not re.fullmatch(rb'\s+', m[0])]; o = []
    for x, y in zip(ms, ms[1:]): o.append(b[:x.start()] + b'\x01' + b[x.end():y.start()] + b'\x01' + b[y.end():])
    return o
@spec('C41')
def c41(tier):
    th = tier == 'thorough'
    texts = corpus.VALID + corpus.BROKEN
    ps = [cfg([c + '⟦A⟧⟦A⟧' + t], [41], [ASCII]) for c in CONTEXTS for t in TAILS[1:]]
    for t in texts: ps += [cfg([h], [41], [ASCII]) for h in one_hole(t, insert_only=not th)]
    tk = [cfg([x], [41, 0]) for t in texts for x in token_holes(t, True)]
    tk += [cfg([x], [41, 0]) for t in (texts if th else corpus.VALID) for x in two_tokens(t)]
    return {'harness': 'parser', 'jobs': {'h_parse': ps, 'h_tokens': tk}, 'reach': [1, 2, 410], 'steps': 5_000_000,
        'bounds': f'every corpus text ({len(corpus.VALID)} well-formed, {len(corpus.BROKEN)} broken) with one token replaced by or preceded by a token of any kind, two neighbouring tokens of the well-formed ones replaced by two of any kind (blank: left out), one character inserted as any ASCII character; {len(CONTEXTS)} contexts with two arbitrary characters and a closing delimiter. Outside: longer arbitrary texts.'}

# C42
CONT = [(TW[i][0], TW[i + 1][0]) for i in range(0, len(TW), 2) if i != 2] + [('{% if a %}x{% else %}', '{% endif %}'), ('{% if a %}', '{% elseif b %}x{% endif %}'), ('{% for a in b %}', '{% else %}x{% endfor %}'), ('{%- block a -%}', '{%- endblock a -%}'), ('<p>{% if a %}y', '{% else %}<i>z</i>{% endif %}</p>'), ('{% block a %}{% for b in c %}', '{% endfor %}<u></u>{% endblock %}')]
CONH = [('<p>', '</p>'), ('<p a="b"><q>', '</q></p>'), ('<p a="', '"></p>'), ('<p>{{ a }} b', '<br></p>')]
PAIRED = {re.sub(r'\W.*', '', o[3:]) for o, r in TW if o.startswith('{% ')}
SPELLX = [s for s in SPELL if not re.search(r'["\'`#]|[{}%]{2}|<|>', s)] + ['1', 'a']
@spec('C42')
def c42(tier):
    th = tier == 'thorough'
    js = []
    inner = bytes(x for x in range(128) if x not in b'"\'{}%#<>`')
    for n, (a, b) in enumerate(CONT + CONH):
        b += '<b>y</b>'; html = (a, b[:-8]) in CONH; val = a.endswith('"')
        if not html:
            # elements whose end tag is missing
            for x in ('<⟪A⟫⟪B⟫>⟪C⟫',) + (('<⟦A⟧⟦B⟧>⟪C⟫',) if th or n < 2 else ()): js.append(cfg([a, x, b], [2], [LOWER, b'1abcdefghijklmnopqstuvwxyz-'], [['p', 'div', 'my-x', 'h1', 'twig:A:B', 'P'], ['', ' a', ' a="b"', " {{ a }} b='{{ c }}'", '\na\n', ' {% if a %}b{% endif %}', '{# c #}'], ['', 'x', '\nx', '{{ a }}', '<br>', '<i>j</i>', '{# c #}', '<!-- c -->', '{% if a %}b{% endif %}', 'x < y\nz']]))
            if th or n < 4: js.append(cfg([a, '<p><q a="⟪A⟫">⟪B⟫', b], [3], [], [['', 'b', '{{ c }}'], ['', 'x', '{{ d }}']]))
        for x in ('{{ ⟪A⟫ ⟪A⟫ }}',): js.append(cfg([a, x, b], [0], [inner], [SPELLX]) if n < 3 or th else cfg([a, '{{ a ⟪A⟫ }}', b], [0], [inner], [SPELLX]))
        for x in ('{{ a⟦A⟧⟦A⟧ }}', '{{ ⟦A⟧ }}', '{{ f(a⟦A⟧, [b⟦A⟧ }}', '{% do ⟦A⟧ %}', '{% include a ⟦A⟧ %}', '{%⟦A⟧ a %}', '{% ⟪A⟫ a %}') + (() if val else ('<q ⟦A⟧⟦A⟧></q>', '<q a=⟦A⟧⟦A⟧></q>', '<q ⟦A⟧=></q>', '<q>⟦A⟧</q>') + (() if html else ('<q⟦A⟧b></q>', '<q></q⟦A⟧⟦A⟧>'))):
            js.append(cfg([a, x, b], [0], [inner if '<' not in x else inner.translate(None, b'=/-')], [[s for s in SPELLX if re.match(r'[a-z]', s) and not s.startswith(('end', 'else', 'sw_end')) and s not in PAIRED]]))
    return {'harness': 'parser', 'jobs': {'h_contain': js}, 'reach': [1, 420, 422, 423], 'steps': 10_000_000,
        'bounds': f'{len(CONT) + len(CONH)} constructs (Twig tags with their parts, elements, attribute values) with an erroneous piece inside and an element behind: expressions and tags with up to two arbitrary characters other than quotes and delimiters or two of {len(SPELLX)} spellings, attributes and start or end tags with arbitrary characters, start tags without end tag of 6 names (or of two arbitrary characters) with 7 kinds of attributes and 10 kinds of contents. By design outside: unterminated strings, comments and tags, end tags without start tag, tags that open or close a construct.'}

# C44
PLACES = [('', '')] + [(a, b) for a, b in CONT if '-' not in a and a[-1] in '>}' and b[0] in '<{'] + [('<p>', '</p>'), ('<p a="b"><q>', '</q></p>'), ('<br>', '<br>'), ('{{ a }}', '{{ b }}'), ('{# a #}', '{# b #}'), ('<!-- a -->', '<!-- b -->'), ('<p/>', ''), ('{% set a = 1 %}', '{% do b %}'), ('<p>{% block a %}<b>', '</b>{% endblock %}</p>')]
EPLACES = [('{{', ' }}'), ('{% if', ' %}a{% endif %}'), ('{% if a %}{% elseif', ' %}a{% endif %}'), ('{% set a =', ' %}'), ('{% set a, b = 1,', ' %}'), ('{% do', ' %}'), ('{% return', ' %}'), ('{{ f(', ') }}'), ('{{ f(1,', ', 2) }}'), ('{{ f(a =', ') }}'), ('{{ [', '] }}'), ('{{ [1,', ', 2] }}'), ('{{ {a:', '} }}'), ('{{ {a: 1, "b":', ', c: 2} }}'), ('{{ (', ') }}'), ('{{ ((', ')) }}'), ('{{ a[', '] }}'), ('{{ a|b(', ') }}'), ('{{ a.b(', ')|c }}'), ('{{ a is b(', ') }}'), ('{% for a in', ' %}{% endfor %}'), ('{% for a, b in', ' %}c{% else %}d{% endfor %}'), ('{% include', ' %}'), ('{% include', ' with a only %}'), ('{% embed', ' %}{% endembed %}'), ('{% with', ' %}a{% endwith %}'), ('{% block a', ' %}'), ('{% import', ' as a %}'), ('{% from', ' import a %}'), ('{% cache', ' %}a{% endcache %}'), ('{{ "a#{', '}b" }}'), ('<p a="{{', ' }}"></p>'), ('<p {{', ' }}></p>'), ('<p {% if', ' %}a{% endif %}></p>'), ('{% block a %}<p>{{-', ' -}}</p>{% endblock %}'), ('<script>{{', ' }}</script>'), ('{{ a ?', ' : b }}'), ('{{ a ? b :', ' }}'), ('{% extends', ' %}'), ('{{ a => b(', ') }}')]
def places(x, ps): return [x] + [t for p in ps for t in p]
CP = ['<i>x</i>', '<b a="c" {{ d }}>', '</b>', 'x y', '{{ a|b ~ "c" }}', '{% if a %}', '{% endif %}', '{% else %}', '{% for a in b %}', '{% endfor %}', '{% block c %}', '{% endblock %}', '{# d #}', '<!-- e -->', '{# ludtwig-ignore f #}', '{% set g %}', '{% endset %}', '<br>', '<script>a < b</script>', '\n', '&amp;', '{% include "h" %}', '<twig:A/>', '<i {% if a %}b{% endif %}/>']
@spec('C44')
def c44(tier):
    th = tier == 'thorough'
    js = [(cfg(places('⟪A⟫⟪A⟫' + ('⟪A⟫' if th else ''), PLACES), [], [], [CP]), 8)]
    k = 0
    for t in corpus.VALID:
        for i, h in enumerate(one_hole(t, insert_only=not th)):
            n = len(PLACES) - 1
            js.append(cfg(places(h, [PLACES[0]] + [PLACES[1 + (k + j * 7) % n] for j in range(3 if th else 1)]), [], [ASCII])); k += 1
    g = [PRIM, POST, [f' {o} ' for o in OPREP], ['', 'not ', '-']]
    n = len(EPLACES) - 1
    for i in range(1, n + 1): js += [cfg(places(x, [EPLACES[0], EPLACES[i]]), [], [], g) for x in (' ⟪D⟫⟪A⟫⟪C⟫a⟪B⟫', ' ⟪A⟫⟪B⟫⟪B⟫')]
    for x in (' a ? b : c', ' a ? b', ' a ?: b', ' (a, b) => c', ' a => b', ' [a, ...b]', ' {a, b: c}', ' "a#{b}c"', ' a is not same as(b)', ' a[1:2]', ' a|b(c => d)', ' f(a = 1, b)', " a ? 'b' ~ c : {d: e}[f]", ' a.b.c|d', ' not a in b', ' a..b', ' -a ** b', ' a b'): js.append(cfg(places(x, [p for p in EPLACES if not (x == ' a ? b' and p[0].endswith('?') or x == ' a => b' and p[0].endswith(('{{ (', '((')))])))
    for i, x in enumerate(h for t in (' a + b', ' "c"|d', ' e.f(1)', ' [g, h]', ' {i: j}', ' k is l', ' m not in n', ' o ? p : q') for h in one_hole(t[1:], insert_only=not th)): js.append(cfg(places(T(' ') + x, [EPLACES[0]] + [EPLACES[1 + (i + j * 3) % n] for j in range(8 if th else 2)]), [], [ASCII]))
    return {'harness': 'parser', 'jobs': {'h_local': js}, 'reach': [440, 441], 'steps': 20_000_000, 'bounds': f'sequences of {3 if th else 2} of {len(CP)} constructs at all of {len(PLACES)} places for content; every well-formed corpus text with one arbitrary ASCII character inserted (thorough: or replaced) alone and at {3 if th else 1} of these places; expressions of two operands with a unary, a binary and a postfix operator of every kind, two accessors behind every kind of operand, 8 expressions with one arbitrary character and 18 special ones at {len(EPLACES)} places for expressions. Outside: other texts.'}

# C36
def word_holes(t):
    b = t.encode(); o = []; last = b''
    for m in LEX.finditer(b):
        w = m[0]
        p = b[:m.start()]
        if re.fullmatch(rb'[a-zA-Z]', w) and not p.endswith((b'<', b'</', b':', b'@', b'\\')) and not last.startswith(b'end') and b'end' + last + b' ' + w not in b[m.end():] and not b.startswith(b'<twig') and not re.search(rb'[0-9]$', p): o.append(p + T('⟦A⟧⟦B⟧') + b[m.end():])
        if re.fullmatch(rb'[0-9]', w) and not b[m.end():].startswith(b'e'): o.append(p + T('⟦C⟧⟦C⟧') + b[m.end():])
        if re.fullmatch(rb'[a-z]', w) and p.endswith((b"'", b'"')) and b[m.end():m.end() + 1] == p[-1:]: o.append(p + T('⟦D⟧⟦E⟧') + b[m.end():])
        if not re.fullmatch(rb'\s+', w): last = w
    return o
@spec('C36')
def c36(tier):
    th = tier == 'thorough'
    plain_chars = bytes(c for c in PRINT if c not in b'"\'\\#{}<>&%-')
    ps = [cfg([h], [36], [ALPHA, b'0123456789_', b'0123456789', plain_chars, plain_chars]) for t in corpus.VALID for h in word_holes(t)]
    # names of tags and attributes: letters, digits, dashes, underscores (not those of elements without an ending tag)
    NC = b'bZ0-_'
    ps += [cfg([x], [36], [ALPHA, b'bZ0-', b'0-', NC]) for x in ('<⟦A⟧⟦B⟧⟦C⟧></⟦a⟧⟦b⟧⟦c⟧>', '<⟦A⟧⟦C⟧>x</⟦a⟧⟦c⟧>', '<⟦A⟧⟦C⟧ b="c"/>', '<⟦A⟧⟦B⟧⟦C⟧⟦B⟧\n/>', '<a ⟦A⟧⟦D⟧⟦D⟧⟦D⟧="b"></a>', '<a ⟦A⟧⟦D⟧⟦D⟧></a>', '<a ⟦A⟧⟦D⟧=b></a>', '<p {% if a %}⟦A⟧⟦D⟧⟦D⟧{% endif %}></p>', '{% block ⟦A⟧⟦D⟧⟦C⟧⟦D⟧ %}{% endblock %}')]
    ps += [cfg([x], [36], [NC, b'aZ', b'0-', b'-x1']) for x in ('<⟦B⟧⟦C⟧⟦D⟧></⟦b⟧⟦c⟧⟦d⟧>', '<twig:⟦B⟧⟦C⟧⟦D⟧></twig:⟦b⟧⟦c⟧⟦d⟧>')]
    js = [tags_cfg(36, HT, 4), tags_cfg(36, HT2, 3), tags_cfg(36, HT3, 4), (tags_cfg(36, TW + TWN, 3), 16), tags_cfg(36, TWS, 4), tags_cfg(36, TW, 2, ('<p>', '</p>')), tags_cfg(36, TW, 2, ('<script>', '</script>'))]
    for i in range(0, len(TW), 2):
        if i != 2: js.append((tags_cfg(36, TW[i:i + 2] + TW[2:6] + TW[6:8] + [('x', 0)], 5 if th else 4), 4))
    return {'harness': 'parser', 'jobs': {'h_parse': ps, 'h_tags': js}, 'reach': [11, 1], 'steps': 10_000_000,
        'bounds': f'{len(corpus.VALID)} well-formed texts covering the constructs of the grammar with every name replaced by letter+digit/underscore, names of tags, attributes and blocks of up to 4 letters, digits, dashes and underscores, every number by two digits, every string content by two arbitrary plain characters; properly nested sequences of up to {5 if th else 4} tags of all constructs. Outside: other well-formed templates.'}

# ------------------------------------------------------------------------------------------------ rules
RULES = re.findall(r'^        "([a-z-]+)"$', '\n'.join(open(f).read().split('fn name(')[1].split('}')[0] for f in sorted(__import__('glob').glob('/repo/crates/ludtwig/src/check/rules/*.rs')) if 'fn name(' in open(f).read()), re.M)
from lintcorpus import LINT, LINTBAD
def lint(pid, what, rc, bounds, jobs, **kw):
    def g(tier): return {'harness': 'ludtwig', 'jobs': jobs(tier == 'thorough'), 'bounds': bounds, 'reach': rc, 'steps': 40_000_000, **kw}
    SPECS[pid] = g
def holes(texts, what, th, opts=(), cls=ASCII, every=1):
    o = []
    for t in texts:
        for i, h in enumerate(one_hole(t, insert_only=not th)):
            if th or i % every == 0: o.append(cfg([h], [what, *opts], [cls]))
    return o
PUNCT = b" \n'\"{}<>%#/=&|(x1A_-"
# pieces of documents in which the rules have something to say
DOC = ['<p>', '</p>', '{% block a %}', '{% endblock %}', '\n', ' ', '\n  ', '\r\n\t', "<b id='x' CC=d>", '</b>', "{{ 'a' && b }}", '{# ludtwig-ignore #}', '{# ludtwig-ignore indentation #}', '<pre>', '</pre>', 'x', '{% if a === "b" %}', '{% endif %}', '{{ {\n"k": 1} }}', '{% set A_ = 1 %}', "<i a='b\n \n'\nc>", '</i>']
BROKEN = DOC + ['{{ ', '}}', '{% if %}', '</x>', '<a', '{% endfor %}', '{{ a b && c }}', '<u D=>', '"', '{% block %}', '{% foo %}']
# characters of more than one byte: byte order mark, spaces, a letter, a symbol, four bytes
MBP = ['\ufeff', '\u00a0', 'é', '☃', '😀', '\u2028']
MBT = ["<p\nB='c'>\n {{ 'a' && b }}</p>", "{% block A %}\n{{ {'k': 1} }}{% endblock %}\n", "a\n \nb\r\n<pre>\n c</pre>", "<b id='x' id=\"x\">{{ a || b === c }}</b>"]
def mb(what, th, opts=(), bad=True):
    o = [cfg([h], [what, *opts], [], [MBP if th else MBP[:4]]) for t in MBT for h in mb_holes(t, '⟪A⟫')]
    n = 1 if th else 6
    for i, t in enumerate(LINT + (LINTBAD if bad else [])): o += [cfg([h], [what, *opts], [], [MBP if th else MBP[:2]]) for h in mb_holes(t, '⟪A⟫')[i % n::n]]
    for i, t in enumerate(LINT + (LINTBAD if bad else [])): o += [cfg(['⟪A⟫' + t], [what, *opts], [], [MBP if th else MBP[:1]])]
    return o
DIRECTIVES = [' ', ' indentation ', ' twig-logic-and ', ' twig-logic-and, html-string-quotation ', ' html-attribute-name-kebab-case,twig-block-name-snake-case', ' nothing']
CONSTRUCTS = ['{{ \'a\' && "b" }}', "<p ID='x'>\n y</p>", '{% block A-b %}\n{{ c && d }}{% endblock %}', "<b C='d'>{{ e && f }}</b>\n", '\n  {{ g && h }}', 'x', '{% set a_b = "c" && d %}']
def docs(what, n, pieces=DOC, opts=(), pre='', post='', share=8): return [(cfg([pre + '⟪A⟫' * n + post], [what, *opts], [], [pieces]), share)]
WSP = ['', ' ', '\n', '\n \n', '\r\n', '\n\t']
# places where white space can be put, around and within what has to stay as it is
WST = ['<p⟪A⟫b="c⟪A⟫d"⟪A⟫>⟪A⟫x⟪A⟫</p>', '{% block a %}⟪A⟫<pre>⟪A⟫x⟪A⟫</pre>⟪A⟫{% endblock %}', '<p>⟪A⟫<textarea e="f⟪A⟫">⟪A⟫x⟪A⟫</textarea>⟪A⟫</p>', '<script>⟪A⟫x⟪A⟫{{ "a⟪A⟫b" }}⟪A⟫</script>', "{{ f(⟪A⟫'a⟪A⟫b',⟪A⟫[⟪A⟫2⟪A⟫]) }}", "<a b='{% if c %}⟪A⟫{{ 'd⟪A⟫e' }}⟪A⟫{% endif %}⟪A⟫'>⟪A⟫</a>", '<pre>⟪A⟫{% block a %}⟪A⟫<b c="⟪A⟫d">⟪A⟫</b>{% endblock %}⟪A⟫</pre>', '<style>⟪A⟫{% if a %}⟪A⟫x⟪A⟫{% endif %}⟪A⟫</style>', "{{ {⟪A⟫'a':⟪A⟫'⟪A⟫b',⟪A⟫c: 1⟪A⟫} }}", '<div>⟪A⟫{# c ⟪A⟫ #}⟪A⟫<!-- ⟪A⟫ d -->⟪A⟫</div>', '<p⟪A⟫b⟪A⟫c=d⟪A⟫{% if e %}⟪A⟫f="g"⟪A⟫{% endif %}⟪A⟫>x</p>', '{% block a %}⟪A⟫{% block b %}⟪A⟫{% endblock %}⟪A⟫{% block c %}x{% endblock %}⟪A⟫{% endblock %}', '<twig:A⟪A⟫b="⟪A⟫c"⟪A⟫>⟪A⟫{{ d }}⟪A⟫</twig:A>', '<pre>⟪A⟫x</pre>⟪A⟫<b>⟪A⟫y</b>⟪A⟫', '{% macro a(⟪A⟫b,⟪A⟫c⟪A⟫) %}⟪A⟫{% endmacro %}', '{% props⟪A⟫a,⟪A⟫b = 1⟪A⟫%}⟪A⟫x', "<p>⟪A⟫{% set a %}⟪A⟫<b>⟪A⟫</b>{% endset %}⟪A⟫</p>"]
def wscfgs(what, th, confs):
    o = []
    for t in WST:
        n = t.count('⟪A⟫')
        k = 5 if th else 3
        # k of the places at a time, a line break in every other of the others
        import itertools
        sets = list(itertools.combinations(range(n), min(k, n)))
        if not th: sets = [z for z in sets if z[-1] - z[0] < k + 1]
        for z in sets:
            parts = t.split('⟪A⟫'); x = parts[0]
            for i in range(n): x += ('⟪A⟫' if i in z else '\n' if i % 2 else '') + parts[i + 1]
            for c in confs: o.append(cfg([x], [what, *c], [], [WSP]))
    return o
LB = 'texts: %d texts and %d broken texts in which the rules have something to say, with one character inserted as (thorough: or replaced by) %s at every position; characters of more than one byte before the tokens of these texts (quick: of some)'
LINTB = {True: LB % (len(LINT), len(LINTBAD), 'any of the 128 ASCII values'), False: LB % (len(LINT), len(LINTBAD), 'any of %d characters' % len(PUNCT))}
ANY = LINTB[True]
LONGP = ['', '{# ludtwig-ignore #}', '{# ludtwig-ignore-file twig-logic-and #}', '{# ludtwig-ignore html-string-quotation, indentation #}', '\n \n', ' ', '<u ID="x3">', '</u>', '{% block B-3 %}', '{% endblock %}', '{{ ', "{{ x || 'y' === z }}", '\r\n', 'x', '<i id="x7"/>']
OUT = ' Also two long documents (117 and 65 pieces, every construct up to nine times) with one of %d pieces inserted (quick: at some places). Outside: other texts, longer arbitrary strings.' % len(LONGP)
def lb(extra, anyc=False): return lambda th: LINTB[th or anyc] + '; ' + extra(th) + '.' + OUT
def lint(pid, what, rc, bounds, jobs, **kw):
    def g(tier):
        th = tier == 'thorough'
        js = jobs(th)
        if 'h_rules' in js: js['h_rules'] = js['h_rules'] + [cfg([t], [what], [], [LONGP]) for t in longs(th)]
        return {'harness': 'ludtwig', 'jobs': js, 'bounds': bounds(th), 'reach': rc, 'steps': 200_000_000, **kw}
    SPECS[pid] = g
# long documents: a construct of every kind again and again, one piece anywhere
def longs(th):
    ps = []
    for i in range(9): ps += [f"<p id='x{i}' Cc=d{i}>", f"{{{{ 'a{i}' && b|raw }}}}", '</p>', '\n', f'{{% block B-{i} %}}', f'\n  x{i}\n', '{% endblock %}', '\n', f"{{% set aB_{i} = {{ 'k{i}': f(1) }} %}}", '\n \n', f'{{% if a === {i} %}}', '<br>', '{% endif %}']
    qs = [x for i in range(8) for x in (f'<div id="x{i}">', '\n' + ' ' * (4 * i + 4), f'{{% block b_{i} %}}', '\n')] + ["{{ 'z' || \"y\" }}"] + [x for i in range(8) for x in ('\n', '{% endblock %}', '\r\n', '</div>')]
    o = []
    for t in (ps, qs):
        for i in range(0, len(t) + 1, 1 if th else 7 if t is ps else 5): o.append(''.join(t[:i]) + '⟪A⟫' + ''.join(t[i:]))
    return o
def base(what, th, anyc=False, opts=()): return holes(LINT + LINTBAD, what, th, opts, cls=ASCII if th or anyc else PUNCT) + mb(what, th, opts)
def seq(n, pieces): return f'sequences of {n} of {len(pieces)} pieces of documents (tags, blocks, line breaks, directives, expressions)'
CONFS = [(0, 0), (1, 0), (2, 0, 3), (4, 0), (8, 0), (16, 0), (32, 0), (63, 0, 1)]   # configurations: default, CRLF, tabs, no block indentation, no line breaks around blocks, quotes, all of them
CB = 'under %d configurations (line ending, indentation, quotes, blocks)' % len(CONFS)
EXO = ['a', '"x"', "{'k': \"y\"}", '(b && c)', '[1,\n2]', 'f(-d)', '-e', '"#{g}"']
EXB = [' === ', ' && ', '||', ' !== ', ' ~ ', '+', '===', ' is ', '|']
def exprs(what, th, opts=()): return [(cfg(['{{ ⟪A⟫⟪B⟫⟪A⟫⟪B⟫⟪A⟫ }}'], [what, *opts], [], [EXO if th else EXO[:5], EXB if th else EXB[:6]]), 8), (cfg(['{% if (⟪A⟫⟪B⟫⟪A⟫)⟪B⟫a %}\n⟪A⟫{% endif %}'], [what, *opts], [], [EXO if th else EXO[:4], EXB if th else EXB[:5]]), 4)]
EX = 'expressions of two to three operators over up to %d operands and %d operators' % (len(EXO), len(EXB))
NM = b'aBz9_-'
KEYWORDS = ['If', 'For', 'Else', 'In', 'Is', 'Not', 'And', 'Or', 'True', 'False', 'None', 'Null', 'With', 'Only', 'Block', 'Set', 'Matches', 'Do', 'From', 'Import', 'As', 'Loop', 'Same-as', 'Starts_With', 'endIf', 'Style', 'DOCTYPE', 'B_and', 'Not-in', 'ignore_Missing']
NAMET = ['{% block ⟦A⟧⟦A⟧⟦A⟧ %}x{% endblock %}', '{% block ⟦A⟧⟦A⟧⟦A⟧⟦A⟧ %}x{% endblock %}', '{% set ⟦A⟧⟦A⟧⟦A⟧ = 1 %}', '{% set a, ⟦A⟧⟦A⟧ = 1, 2 %}', '{% set ⟦A⟧⟦A⟧ %}x{% endset %}', '{% for ⟦A⟧⟦A⟧, ⟦A⟧⟦A⟧ in c %}x{% endfor %}', "{% set ⟦A⟧⟦A⟧⟦A⟧ = constant('a') %}", "{% set ⟦A⟧⟦A⟧ = f(constant('a')) %}", "{% set ⟦A⟧⟦A⟧, ⟦A⟧ = constant('a'), 1 %}", "{% set ⟦A⟧⟦A⟧ = constant %}", "{% set ⟦A⟧⟦A⟧ = constant('a')|b %}", '<p>{# ludtwig-ignore twig-block-name-snake-case #}{% block ⟦A⟧⟦A⟧ %}{% block ⟦A⟧⟦A⟧ %}{% endblock %}{% endblock %}</p>', '{% block x⟦A⟧⟦A⟧y %}{% set ⟦A⟧⟦A⟧ = 1 %}{% endblock %}', '{% for a in b %}{% set ⟦A⟧⟦A⟧ = a %}{% endfor %}', "<a {% block ⟦A⟧⟦A⟧ %}{% endblock %} b=\"{% set ⟦A⟧⟦A⟧ = 1 %}\"></a>", '{% macro ⟦A⟧⟦A⟧(⟦A⟧⟦A⟧) %}{% endmacro %}', "{% include 'a' with { ⟦A⟧⟦A⟧: 1 } %}"]
def limit(t, n, c='A'):
    """at most n holes, letters in place of the others"""
    p = t.split(f'⟦{c}⟧')
    return p[0] + ''.join((f'⟦{c}⟧' if i < n else 'x') + x for i, x in enumerate(p[1:]))
def names(what, th, ts=NAMET):
    if what == 14:   # names are hashed there: every name separately
        one = [chr(c) for c in PRINT if c not in b'{}<>"\'']
        o = [(cfg([limit(t, 4 if th else 3).replace('⟦A⟧', '⟪A⟫')], [what], [], [[chr(c) for c in NM]]), 2) for t in ts]
        return o + [cfg([limit(t, 2).replace('⟦A⟧⟦A⟧', '⟪B⟫⟪A⟫', 1).replace('⟦A⟧', 'x')], [what], [], [[chr(c) for c in NM], one]) for t in ts if th]
    o = [cfg([t if th else limit(t, 4)], [what], [NM]) for t in ts]
    o += [cfg([(t if th else limit(t, 4 - (what != 14))).replace('⟦A⟧⟦A⟧', '⟦B⟧⟦A⟧', 1)], [what], [NM, ASCII]) for t in ts]
    if th: o += [cfg([t.replace('⟦A⟧', '⟦B⟧', 2)], [what], [NM, IDENT + b'. :@#']) for t in ts]
    return o
ENDN = ['a-b', 'A', 'aB', 'a_b', '_', '_8', 'If', 'a9', 'B-']
def named_blocks(what, th): return [cfg(['{% block ⟪A⟫ %}x{% endblock ⟪a⟫ %}'], [what], [], [KEYWORDS + ENDN]), cfg(['{% block ⟪A⟫ %}x{% endblock %}{% block ⟪A⟫ %}{% endblock ⟪a⟫ %}'], [what], [], [ENDN + KEYWORDS[:8]])]
lint('C10', 10, [1, 2, 3], lb(lambda th: seq(3 + th, BROKEN), True), lambda th: {'h_rules': base(10, th, True) + docs(10, 3 + th, BROKEN) + exprs(10, th)})
lint('C20', 20, [1, 2, 20], lb(lambda th: 'the same for %d broken texts of the grammar; ' % len(corpus.BROKEN) + seq(3 + th, BROKEN)), lambda th: {'h_rules': holes(LINT + LINTBAD + corpus.BROKEN, 20, th, cls=ASCII if th else PUNCT) + mb(20, th) + docs(20, 3 + th, BROKEN)})
lint('C11', 11, [110, 111], lb(lambda th: seq(3 + th, DOC) + f'; of {2 + th} pieces {CB}; {EX}; white space of {len(WSP)} kinds in {len(WST)} texts; block and attribute names'), lambda th: {'h_rules': base(11, th, opts=(0, 0)) + docs(11, 3 + th) + [x for c in CONFS for x in docs(11, 2 + th, DOC, c, share=2)] + exprs(11, th, (0, 0)) + wscfgs(11, False, [(0, 0)]) + named_blocks(11, th)})
lint('C45', 45, [450, 451, 453], lb(lambda th: seq(3 + th, DOC) + f'; of {2 + th} pieces {CB}; {EX}; white space of {len(WSP)} kinds in {len(WST)} texts; block and attribute names; rounds in which insertions meet at one place or more than three rules overlap are not judged'), lambda th: {'h_rules': base(45, th, opts=(0, 0)) + docs(45, 3 + th) + [x for c in CONFS for x in docs(45, 2 + th, DOC, c, share=2)] + exprs(45, th, (0, 0)) + wscfgs(45, False, [(0, 0)]) + named_blocks(45, th)})
lint('C14', 14, [110, 111], lb(lambda th: seq(3 + th, DOC) + f'; of {2 + th} pieces {CB}; {EX}; block and attribute names of up to 4 characters and keywords'), lambda th: {'h_rules': holes(LINT, 14, th, (0, 0), cls=ASCII if th else PUNCT) + mb(14, th, (0, 0), False) + docs(14, 3 + th) + [x for c in CONFS for x in docs(14, 2 + th, DOC, c, share=2)] + exprs(14, th, (0, 0)) + named_blocks(14, th) + names(14, th) + names(14, th, ATTRT) + [cfg(["{% extends ⟪A⟫ %}"], [14], [], [["'a'", 'b', '["c"]', "'a' ~ b", '"a#{b}"', 'c ? "d" : "e"']])] + keys(14, th) + chains(14, th)})
lint('C12', 12, [110, 111], lambda th: LB % (len(LINT), len(LINTBAD), 'one of the characters blank, LF, CR, tab, x, { or <, under both line endings') + f'; white space of {len(WSP)} kinds at {5 if th else 3} places at a time of {len(WST)} texts; ' + seq(3 + th, DOC) + '.' + OUT, lambda th: {'h_rules': holes(LINT + LINTBAD, 12, th, (0, 1), cls=b' \n\r\tx{<') + mb(12, th, (0, 1)) + wscfgs(12, th, [(0, 0)]) + docs(12, 3 + th)})
lint('C13', 13, [110, 111, 13], lambda th: LB % (len(LINT), len(LINTBAD), 'one of the characters blank, LF, CR, tab, x, { or <') + f'; white space of {len(WSP)} kinds at {5 if th else 3} places at a time of {len(WST)} texts; ' + seq(3 + th, DOC) + '.' + OUT, lambda th: {'h_rules': holes(LINT + LINTBAD, 13, th, (0, 0), cls=b' \n\r\tx{<') + mb(13, th, (0, 0)) + wscfgs(13, th, [(0, 0), (2, 0)]) + docs(13, 3 + th)})
lint('C29', 29, [40, 41], lambda th: LINTB[th] + f'; strings of {6 if th else 5} line feeds, carriage returns, blanks and letters in 10 contexts (with runs of up to 40 line endings); white space of {len(WSP)} kinds in {len(WST)} texts; all under both configurations.' + OUT, lambda th: {'h_rules': holes(LINT + LINTBAD, 29, th, (0, 1), cls=ASCII if th else PUNCT + b'\r') + mb(29, th, (0, 1)) + wscfgs(29, th, [(0, 1)]) + [cfg([a + '⟦A⟧' * (6 if th else 5) + b], [29, 0, 1], [b'\r\n x']) for a, b in (('', ''), ('\r\n' * 12 + 'x', '\n' * 40), ('<p>' + '\r\n' * 30, '\n' * 15 + '</p>'), ('{{ a', ' }}'), ('<pre>', '</pre>'), ('{{ "', '" }}'), ('<a b="', '">'), ('{# ludtwig-ignore line-ending #}<b>', '</b>\r\n'), ('{# ', ' #}'))]})
QS = b'\'"#{}\\x \n'
QT = ['{{ ⟦A⟧⟦B⟧⟦B⟧⟦A⟧ }}', '{{ ⟦A⟧⟦B⟧#{c}⟦A⟧ }}', '<a b=⟦A⟧⟦B⟧⟦B⟧⟦A⟧></a>', '<a b=⟦C⟧x⟦C⟧c></a>', "<a b=⟦A⟧x{{ ⟦A⟧⟦B⟧⟦A⟧ }}⟦A⟧ c=⟦A⟧x⟦A⟧></a>", '{{ f(⟦A⟧⟦B⟧⟦A⟧, [⟦A⟧⟦B⟧⟦A⟧]) }}', '{% include ⟦A⟧⟦B⟧⟦A⟧ with { ⟦A⟧⟦B⟧⟦A⟧: 1 } %}', '{# ludtwig-ignore twig-string-quotation #}{{ ⟦A⟧⟦B⟧⟦A⟧ }}{{ ⟦A⟧⟦B⟧⟦A⟧ }}', '<a b=⟦A⟧{% if ⟦A⟧⟦B⟧⟦A⟧ %}x{% endif %}⟦A⟧></a>', '{{ ⟦A⟧#{⟦A⟧⟦B⟧⟦A⟧}⟦A⟧ }}', '{{ ⟦A⟧⟦B⟧⟦B⟧⟦B⟧⟦A⟧ }}', "<a b= ⟦A⟧x⟦A⟧ c=\n⟦B⟧y></a>"]
lint('C15', 15, [150, 151, 152, 153, 154], lb(lambda th: f'{len(QT)} texts with strings of up to 3 characters out of {len(QS)} and all combinations of quotes; all under the 4 combinations of configured quotes'), lambda th: {'h_rules': base(15, th, opts=(0, 48)) + [(cfg([t], [15, 0, 48], [b'\'"', QS, b'\'" \nx=']), 2) for t in QT]})
ATTRT = ['<a ⟦A⟧⟦A⟧⟦A⟧="x"></a>', '<a ⟦A⟧⟦A⟧⟦A⟧⟦A⟧></a>', '<a :⟦A⟧⟦A⟧ @⟦A⟧⟦A⟧></a>', '<a #⟦A⟧⟦A⟧ @⟦A⟧="x"></a>', '<twig:A ⟦A⟧⟦A⟧⟦A⟧="x"><b ⟦A⟧⟦A⟧></b></twig:A>', '<twig:A:B ⟦A⟧⟦A⟧/>', '<p {% if a %}⟦A⟧⟦A⟧="b"{% endif %} ⟦A⟧⟦A⟧></p>', '<p {# ludtwig-ignore html-attribute-name-kebab-case #}⟦A⟧⟦A⟧=a ⟦A⟧⟦A⟧=b></p>', '<p {# ludtwig-ignore #}⟦A⟧⟦A⟧ ⟦A⟧⟦A⟧=\'c\'></p>', '<script ⟦A⟧⟦A⟧="x">a Bc="d"</script>', '<p {% block x %}⟦A⟧⟦A⟧{% endblock %}></p>', '<p a="b" {{ c }} ⟦A⟧⟦A⟧ d></p>', '<x-y ⟦A⟧⟦A⟧:⟦A⟧="x"></x-y>']
lint('C16', 16, [40, 41, 160, 161], lb(lambda th: f'{len(NAMET)} texts defining blocks and variables with names of up to 4 characters out of {len(NM)}, and with one arbitrary ASCII character; keywords'), lambda th: {'h_rules': base(16, th) + names(16, th) + named_blocks(16, th)})
lint('C17', 17, [40, 41, 160, 170], lb(lambda th: f'{len(ATTRT)} texts with attribute names of up to 4 characters out of {len(NM)}, and with one arbitrary ASCII character'), lambda th: {'h_rules': base(17, th) + names(17, th, ATTRT)})
def directive_jobs(what, th):
    D = [f'{{# ludtwig-ignore{d}#}}' for d in DIRECTIVES]
    o = [cfg(['⟪A⟫' * (4 if th else 3)], [what], [], [D + CONSTRUCTS]), cfg(['<p>⟪A⟫⟪B⟫⟪B⟫</p>'], [what], [], [D, CONSTRUCTS])]
    for t in ("<u>⟪A⟫<p E='f'>{{ 'x' && y }}⟪A⟫<b C='d'>\n{{ e && f }}⟪A⟫{{ g && 'h' }}</b>{{ g && h }}\n</p>{{ i && j }}</u>", "<a ⟪A⟫B='c' ⟪A⟫D='e' F='g'>\n{{ h && i }}</a>", "<a b='⟪A⟫{{ c && d }}{{ e && \"f\" }}'>⟪A⟫\n</a>", "{% block A-b %}⟪A⟫{% block C-d %}⟪A⟫<p E='f'>\n{{ g && h }}</p>{% endblock %}\n{{ i && j }}{% endblock %}", "{% if a && b %}⟪A⟫x{{ c && d }}⟪A⟫{{ e && f }}{% else %}⟪A⟫{{ g && h }}{% endif %}", "⟪A⟫<pre>⟪A⟫{{ a && b }}</pre>\n c⟪A⟫<p>\nx</p>", "<p>\n⟪A⟫\n{{ a && b }}⟪A⟫\n<b C='d'></b></p>", "<script>⟪A⟫{{ a && 'b' }}⟪A⟫{{ c && d }}</script>{{ e && f }}"): o.append(cfg([t], [what], [], [D + ['', 'x', '{# a #}']]))
    if th: o += [cfg([t.replace('⟪A⟫', '⟪A⟫⟪A⟫', 1)], [what], [], [D + ['', 'x']]) for t in ("<u>⟪A⟫<p E='f'>{{ 'x' && y }}⟪A⟫<b C='d'>\n{{ e && f }}{{ g && 'h' }}</b>{{ g && h }}\n</p>{{ i && j }}</u>", "<a ⟪A⟫B='c' ⟪A⟫D='e' F='g'>\n{{ h && i }}</a>", "{% block A-b %}⟪A⟫{% block C-d %}⟪A⟫<p E='f'>\n{{ g && h }}</p>{% endblock %}\n{{ i && j }}{% endblock %}")]
    return o
lint('C18', 18, [180, 181, 182, 183], lb(lambda th: f'sequences of {4 if th else 3} of {len(DIRECTIVES)} directives and {len(CONSTRUCTS)} constructs; 8 texts with directives at up to 4 nested or neighbouring places'), lambda th: {'h_rules': base(18, th) + directive_jobs(18, th)})
FD = [f'{{# ludtwig-ignore-file{d}#}}' for d in DIRECTIVES] + ['{# ludtwig-ignore-file ludtwig-ignore-file-not-on-top #}', '{# ludtwig-ignore ludtwig-ignore-file-not-on-top #}', '{# ludtwig-ignore-file twig-logic-and,indentation #}', '{# ludtwig-ignore-file\n#}']
def file_jobs(what, th): return [(cfg(['⟪A⟫' * (4 if th else 3)], [what], [], [FD + CONSTRUCTS]), 4)] + [cfg([t], [what], [], [FD + ['', 'x', '\n']]) for t in ("<p E='f'>⟪A⟫{{ 'x' && y }}⟪A⟫</p>⟪A⟫", "⟪A⟫{% block A-b %}⟪A⟫<p>\n</p>{% endblock %}⟪A⟫", "<a ⟪A⟫B='c'>{{ d && e }}</a>⟪A⟫", "<a b='⟪A⟫{{ c && d }}'></a>⟪A⟫", "<p>{# ludtwig-ignore indentation #}<b>⟪A⟫\n{{ a && b }}⟪A⟫</b></p>⟪A⟫", "{% if a %}⟪A⟫{% else %}⟪A⟫{{ a && \"b\" }}{% endif %}⟪A⟫")]
lint('C19', 19, [190, 191, 192, 193, 194], lb(lambda th: f'sequences of {4 if th else 3} of {len(FD)} directives and {len(CONSTRUCTS)} constructs; 6 texts with directives at the top and within other constructs'), lambda th: {'h_rules': base(19, th) + file_jobs(19, th)})
BD = ['{% block a %}', '{% block b %}', '{% endblock %}', '{# ludtwig-ignore twig-block-duplicate #}', '{# ludtwig-ignore #}', '<p>', '</p>', '{% block a "x" %}', '<i {% block b %}c{% endblock %}>', '{% block %}', '{# ludtwig-ignore-file indentation #}']
ID = ['<b id="x">', '</b>', "<b id='y'>", '<i id=x>', '{# ludtwig-ignore html-duplicate-id #}', '{# ludtwig-ignore #}', '<u id="{{ x }}">', '</u>', '<b class="x" id="x">', '<b ID="x">', '<br id="">', '<b id="x" id="y">', '<i {# ludtwig-ignore html-duplicate-id #}id="x">', '</i>']
lint('C21', 21, [40, 41, 42], lb(lambda th: f'sequences of {5 if th else 4} of {len(BD)} tags and directives behind a block; block names with symbolic characters'), lambda th: {'h_rules': base(21, th) + docs(21, 5 if th else 4, BD, pre='{% block a %}') + [cfg(['{% block ⟪A⟫ %}{% block ⟪A⟫ %}{% endblock %}{% endblock %}{% block ⟪A⟫ %}{% endblock %}<p>{% block ⟪A⟫ %}{% endblock %}</p>'], [21], [], [['aa', 'aA', 'a-a', 'A', 'a_a', 'aaa']]), cfg(['{% block a_b %}{% endblock %}{% block a⟦A⟧b %}{% endblock %}'], [21], [ASCII]), cfg(['{% block a-b %}{% endblock %}{% block a⟦A⟧b %}{% endblock %}'], [21], [ASCII]), cfg(['{% block a-B_1- %}{% endblock %}{% block a⟦A⟧B⟦A⟧1⟦A⟧ %}{% endblock %}'], [21], [b'-_0a']), cfg(['{% block ab %}{% endblock %}{% block a⟦A⟧ %}{% endblock %}'], [21], [ASCII]), cfg(['{% block ab %}{% endblock %}{% block ⟦A⟧b %}{% endblock %}'], [21], [ASCII])]})
lint('C22', 22, [40, 41, 42, 220], lb(lambda th: f'sequences of {5 if th else 4} of {len(ID)} tags and directives behind an element with an id; ids with symbolic characters'), lambda th: {'h_rules': base(22, th) + docs(22, 5 if th else 4, ID, pre='<p id="x">') + [cfg(['<b id="⟪A⟫" id=⟪A⟫></b><br id=\'⟪A⟫\'><i id="⟪A⟫"></i>'], [22], [], [['aa', 'aA', 'a', 'A', 'a a', ' a', 'a ']]), cfg(['<b id="ab"></b><i id="a⟦A⟧"></i>'], [22], [ASCII]), cfg(['<b id="ab"></b><u id=⟦A⟧b></u>'], [22], [ASCII]), cfg(['<b ⟦A⟧d="ab"></b><i id="ab"></i>'], [22], [ASCII]), cfg(['<b i⟦A⟧="ab"></b><i id="ab"></i>'], [22], [ASCII])]})
VN = ['ab', 'raw', 'same as', 'x_1', 'aB', 'b', 'abc', 'raws', 'divisible by']
VT = ['{{ a|⟪A⟫ }}', '{{ a|⟪A⟫(1)|⟪A⟫ }}', '{{ a is ⟪A⟫ }}', '{{ a is not ⟪A⟫(1) and b is ⟪A⟫ }}', '{{ ⟪A⟫(1) }}', '{{ ⟪A⟫(⟪A⟫(1)) }}', '{{ ⟪A⟫(b|⟪A⟫) }}', '{{ a|⟪A⟫(⟪A⟫(2)) }}', '{{ a is ⟪A⟫(⟪A⟫(1)) }}', '{% if ⟪A⟫(1) is ⟪A⟫ %}{{ [a|⟪A⟫] }}{% endif %}', '<p a="{{ ⟪A⟫(1) }}" {{ b|⟪A⟫ }}>{% set c = d is ⟪A⟫ %}</p>', '{# ludtwig-ignore twig-valid-filter #}{{ ⟪A⟫(a|⟪A⟫) }}{{ a|⟪A⟫ }}', '{{ a.⟪A⟫(1)|⟪A⟫ }}', '{{ "#{⟪A⟫(1)|⟪A⟫}" }}', '{% for a in ⟪A⟫(1) %}{{ { k: a|⟪A⟫ } }}{% endfor %}', '{{ (a|⟪A⟫) is ⟪A⟫ ? ⟪A⟫(1) : b }}', '{{ a|map(b => ⟪A⟫(b)|⟪A⟫) }}', "{% include ⟪A⟫('a') with { b: c|⟪A⟫ } %}", '{% block a ⟪A⟫(1)|⟪A⟫ %}', '{{ a[⟪A⟫(1)]|⟪A⟫ }}']
lint('C23', 23, [230, 231, 233, 234], lb(lambda th: f'{len(VT)} texts using up to 3 filters, tests and functions with one of {len(VN)} names; names of 2 symbolic characters; complete and empty lists'), lambda th: {'h_rules': base(23, th) + [cfg([t], [23, 0, 0, 0, l], [], [VN]) for t in VT for l in ((0, 7) if not th else range(8))] + [cfg([t.replace('⟪A⟫', '⟦A⟧⟦A⟧', 1).replace('⟪A⟫', 'raw')], [23], [b'abBx_1r-. (']) for t in VT] + [cfg([t.replace('⟪A⟫', 'a⟦A⟧', 1).replace('⟪A⟫', 'raw')], [23], [ASCII]) for t in VT]})
OPX = ['&&', '||', '===', '!==']; OPY = [f'{a}{o}{b}' for o in OPX for a, b in (('', ''), (' ', ' '), (' ', ''), ('', '\n'))] + [' and ', ' or ', ' is same as', ' == ', '+', ' ~ ', ' in ', ' ?? ', ' ** ']
OPA = ['a', '-b', '(c)', '"d"', 'e|raw', 'not f', '[g]', 'h.i', '1']
OPT = ['{{ ⟪A⟫⟪B⟫⟪A⟫ }}', '{{a⟪B⟫b⟪B⟫c}}', '{{ (a⟪B⟫b)⟪B⟫c }}', '{{ a⟪B⟫(b⟪B⟫c) }}', '{{ ⟪C⟫a⟪B⟫⟪C⟫b⟪B⟫c }}', '{% if f(a⟪B⟫b)⟪B⟫c %}{% endif %}', '{{ a⟪B⟫b ? c⟪B⟫d : e }}', '<p a="{{ b⟪B⟫c }}" {% if d⟪B⟫e %}f{% endif %}></p>', '{{ [a⟪B⟫b, { c: d⟪B⟫e }] }}', "{# ludtwig-ignore twig-logic-and, twig-use-is-same-as #}{{ a⟪B⟫b }}{{ c⟪B⟫d }}", '{{ "#{a⟪B⟫b}"⟪B⟫c }}', '{{ a|map(b => c⟪B⟫d)⟪B⟫e }}']
lint('C24', 24, [40, 41, 240, 241], lb(lambda th: f'{len(OPT)} texts with two operators out of {len(OPY)} spellings (with and without white space)' + (', 3 operators' if th else '')), lambda th: {'h_rules': base(24, th) + [(cfg([t], [24], [], [OPA, OPY, ['', 'not ', '-']]), 2) for t in OPT] + ([(cfg(['{{ a⟪B⟫b⟪B⟫c⟪B⟫d }}'], [24], [], [OPA, OPY]), 8)] if th else [])})
lint('C27', 27, [1, 2, 270], lb(lambda th: seq(2 + th, BROKEN)), lambda th: {'h_rules': holes(LINT + LINTBAD, 27, th, cls=ASCII if th else PUNCT, every=1 if th else 2) + mb(27, th) + docs(27, 2 + th, BROKEN)})
lint('C48', 48, [480, 481, 482], lb(lambda th: seq(2 + th, BROKEN) + ', with and without the syntax tree and the automatic fix'), lambda th: {'h_rules': base(48, th) + docs(48, 2 + th, BROKEN) + docs(48, 2, BROKEN, (0, 0, 0, 1)) + docs(48, 2, BROKEN, (0, 0, 0, 2))})
lint('C28', 28, [280, 281, 282, 285], lb(lambda th: seq(2 + th, BROKEN) + ', with and without the syntax tree'), lambda th: {'h_rules': base(28, th) + docs(28, 2 + th, BROKEN) + docs(28, 2, BROKEN, (0, 0, 0, 1))})
INT = ['<p>', '</p>', '{% block a %}', '{% endblock %}', '{% if b %}', '{% else %}', '{% endif %}', 'x', '<br>', '{{ [\n1,\n2\n] }}', '<i\na\nb="c">', '</i>', '{# ludtwig-ignore indentation #}', '<pre>\n', '</pre>', '{% set d %}', '{% endset %}', '{{ { e: f(\n1\n) } }}']
def indent_jobs(what, th):
    o = []
    for c in ((0, 6, 0), (0, 4, 2), (2, 0, 1)): o.append((cfg(['\n'.join(['⟪A⟫'] * (4 if th else 3))], [what, *c], [], [INT]), 8))
    o += [cfg(['<p>\n⟦A⟧⟦A⟧⟦A⟧' + x], [what, 0, 6, 1], [b' \t\nx']) for x in ('<b>', 'y</p>', '</p>', '{{ a }}\n</p>', '{% block a %}\n  b\n{% endblock %}</p>')]
    o += [cfg(['{% block a %}\n⟦A⟧⟦A⟧<p\n⟦A⟧⟦A⟧b>\n⟦A⟧⟦A⟧</p>\n{% endblock %}'], [what, 0, 6, 1], [b' \t\n'])]
    return o + wscfgs(what, th, [(0, 0)])
lint('C30', 30, [40, 41, 300, 301, 302], lb(lambda th: f'sequences of {4 if th else 3} lines out of {len(INT)} and 6 nested texts with symbolic indentation under spaces, tabs and with or without indentation of blocks; white space of {len(WSP)} kinds in {len(WST)} texts'), lambda th: {'h_rules': base(30, th) + indent_jobs(30, th)})
def keys(what, th): return [cfg([t], [what], [b'aZ9_ -']) for t in ("{{ { '⟦A⟧⟦A⟧⟦A⟧': 1 } }}", "{{ {\"⟦A⟧⟦A⟧\":'b',\n'⟦A⟧': 2 } }}", "{% include 'a' with {'⟦A⟧⟦A⟧': 1} %}", "{# ludtwig-ignore twig-hash-key-no-quotes #}{{ {'⟦A⟧': 1} }}{{ { a: {'⟦A⟧⟦A⟧' : [{ \"⟦A⟧\": 2 }]} } }}", "<a b=\"{{ { '⟦A⟧⟦A⟧': c } }}\"></a>")] + [cfg(["{{ { '⟪A⟫': 1, \"⟪A⟫\" : 2 } }}"], [what], [], [[k.lower() for k in KEYWORDS] + ['a', 'same as', 'is', 'b-and', 'a.b', '1', '_', 'A1', 'constructor', '']]), cfg(["{{ { '⟦A⟧⟦B⟧': 1 } }}"], [what], [ASCII, b'a1 -']), cfg(["{{ { '⟦B⟧⟦A⟧': 1 } }}"], [what], [ASCII, b'a1 -'])]
lint('C31', 31, [310, 311], lb(lambda th: '8 texts with keys of up to 3 symbolic characters; keywords as keys'), lambda th: {'h_rules': base(31, th) + keys(31, th)})
FC = ['|raw', '|json_encode', '|json_encode(1)', '|raw()', '|escape("js")', '|x', '.b', '[1]', ' ~ c', '|Raw', '| raw', '\n|json_encode']
CH = ['{{ a⟪A⟫⟪A⟫⟪A⟫@ }}', '{{ (a⟪A⟫@)⟪A⟫⟪A⟫ }}', '{{ f(a⟪A⟫@)⟪A⟫⟪A⟫ }}', '{{ [a⟪A⟫⟪A⟫, { b: c⟪A⟫@ }] }}', '<p a="{{ b⟪A⟫⟪A⟫ }}">{% set c = d⟪A⟫@ %}</p>', '{# ludtwig-ignore twig-json-encode-escape-js #}{{ a⟪A⟫ }}{{ b⟪A⟫⟪A⟫@ }}']
def chains(what, th): return [(cfg([t.replace('@', '⟪A⟫' if th and what == 32 else '')], [what], [], [FC if th or what == 32 else FC[:7]]), 8 if th else 1) for t in CH]
EXTS = ['{% extends "a" %}', '{%- extends b -%}', '{% sw_extends "a" %}', '{# ludtwig-ignore #}', '{# ludtwig-ignore twig-prefer-shopware-extends #}', '{% EXTENDS "a" %}', 'extends', '<p>', '</p>', '{% extends %}']
lint('C32', 32, [320, 321], lb(lambda th: f'chains of up to {4 if th else 3} out of {len(FC)} filters and accessors in 6 texts; sequences of {4 if th else 3} out of {len(EXTS)} tags and directives'), lambda th: {'h_rules': base(32, th) + chains(32, th) + docs(32, 4 if th else 3, EXTS)})
BLK = ['{% block a %}', '{% endblock %}', '{% block b %}x{% endblock %}', '\n', '\n\n', ' ', '\r\n\r\n', '{# c #}', '<!-- d -->', '<p>', '</p>', 'x', '<br>', '{{ y }}', '{# ludtwig-ignore twig-block-line-breaks #}', '<pre>', '</pre>']
BLB = ['', '\n', '\n\n', '\n\n\n', ' ', '\r\n', ' \n ', '\n \n']
BLT = ['<p>⟪A⟫{% block a %}⟪A⟫x⟪A⟫{% endblock %}⟪A⟫<br>⟪A⟫</p>', '<p>⟪A⟫<br>⟪A⟫{% block a %}{% endblock %}⟪A⟫{% block b %}{% endblock %}⟪A⟫</p>', '<hr>⟪A⟫{# c #}⟪A⟫{% block a %}{% endblock %}⟪A⟫{# d #}⟪A⟫{% block b %}{% endblock %}⟪A⟫', '{% block a %}⟪A⟫{% block b %}⟪A⟫{% block c %}{% endblock %}⟪A⟫{% endblock %}⟪A⟫{% endblock %}⟪A⟫', '{% if a %}⟪A⟫{% block a %}{% endblock %}⟪A⟫{% else %}⟪A⟫{# b #}⟪A⟫{% block c %}{% endblock %}⟪A⟫{{ d }}{% endif %}', '<i {% block a %}b{% endblock %}⟪A⟫c="{% block d %}e{% endblock %}⟪A⟫f"⟪A⟫{% block g %}h{% endblock %}>⟪A⟫</i>', '{# a #}⟪A⟫{# b #}⟪A⟫{% block a %}{% endblock %}⟪A⟫{# b #}⟪A⟫{# c #}⟪A⟫{% block b %}{% endblock %}⟪A⟫x']
def break_jobs(what, th, confs):
    import itertools
    o = []
    for c in confs:
        o += docs(what, 4 if th else 3, BLK, c, '<p>', '</p>') + docs(what, 3, BLK, c, share=4)
        for t in BLT:
            n = t.count('⟪A⟫'); k = 4 if th else 3
            for z in itertools.combinations(range(n), min(k, n)):
                if not th and z[-1] - z[0] > k: continue
                parts = t.split('⟪A⟫'); x = parts[0]
                for i in range(n): x += ('⟪A⟫' if i in z else '\n\n' if i % 2 else '') + parts[i + 1]
                o.append(cfg([x], [what, *c], [], [BLB]))
    return o
lint('C37', 37, [40, 41, 370, 371, 372, 373, 374], lb(lambda th: f'sequences of {4 if th else 3} of {len(BLK)} pieces (blocks, comments, elements, line breaks) alone and within an element; {len(BLT)} texts with blocks and comments and {len(BLB)} kinds of white space at {4 if th else 3} places at a time; with and without blank lines around blocks, both line endings'), lambda th: {'h_rules': base(37, th, opts=(0, 9 if th else 0)) + break_jobs(37, th, [(0, 0), (8, 0), (1, 0), (9, 0)] if th else [(0, 0), (9, 0)])})
lint('C38', 38, [40, 41, 380, 381], lb(lambda th: f'white space of {len(WSP)} kinds in {len(WST)} texts; sequences of {4 if th else 3} of {len(BLK)} pieces; strings of {6 if th else 5} blanks, tabs, line feeds, carriage returns and letters in 6 contexts'), lambda th: {'h_rules': base(38, th) + wscfgs(38, th, [(0, 0)]) + docs(38, 4 if th else 3, BLK) + [cfg([a + '⟦A⟧' * (6 if th else 5) + b], [38], [b'\n \t\rx']) for a, b in (('', ''), ('<p>', '</p>'), ('<pre>', '</pre><b>\n \n</b>'), ('{{ a', ' }}'), ('<a b="', '"\n \n>'), ('{# ludtwig-ignore whitespace-between-line-breaks #}<b>', '</b>\n \nx'))]})
lint('C25', 25, [250, 251], lambda th: f'all sequences of up to {7 if th else 5} events of every kind; all sequences of up to {3 if th else 2} runs of 1, 255, 256 or 257 equal events. Outside: longer sequences.', lambda th: {'h_events': [(cfg([], [7 if th else 5]), 8), (cfg([], [3 if th else 2, 1]), 8)]})
RN = ['indentation', 'twig-logic-and', 'line-ending', 'x', 'line-endin', 'Indentation', '', ' indentation', 'html-string-quotation', 'twig-valid-filter', 'indentation ']
lint('C26', 26, [260, 261], lambda th: f'lists of {4 if th else 3} of {len(RN)} names; every rule name with one character replaced by or inserted as any ASCII value, alone and in a list. Outside: other lists.', lambda th: {'h_active': [cfg([','.join(['⟪A⟫'] * (4 if th else 3))], [], [], [RN])] + [cfg([x], [], [ASCII]) for n in RULES for h in one_hole(n) for x in ([h] if not th else [h, h + b',indentation'])] + [cfg(['indentation,⟦A⟧⟦A⟧⟦A⟧'], [], [b'a,-x'])] + [cfg([','.join(RULES)], []), cfg([','.join(reversed(RULES)) + ',⟪A⟫'], [], [], [RN])]})

# C46
@spec('C46')
def c46(tier):
    th = tier == 'thorough'
    texts = LINT + LINTBAD
    js = [cfg([h], [0], [ASCII if th else PUNCT]) for i, t in enumerate(texts) for j, h in enumerate(one_hole(t, insert_only=not th)) if th or (i + j) % 4 == 0]
    js += [cfg([t], [o]) for t in texts + ['', 'x', ' ', '\n', 'x\n \ny', "{{ 'a' }}", '{{ a === (b === c) }}'] for o in (1, 6)] + [cfg([t], [3]) for t in texts[::4]]
    hi = bytes(range(128, 255))
    js += [cfg([t], [0], [hi, ASCII]) for t in ('⟦A⟧⟦A⟧', '⟦A⟧⟦B⟧⟦A⟧', "<p a='⟦A⟧⟦A⟧'>", 'x\n \n⟦A⟧⟦A⟧⟦A⟧', "{{ 'a' }}⟦A⟧", '⟦A⟧⟦A⟧⟦A⟧⟦A⟧')]
    js += docs(0, 3 if th else 2, DOC, share=8)
    js += [cfg([t], [6], [b"x \n"]) for t in ("⟦A⟧⟦A⟧⟦A⟧", "⟦A⟧\n⟦A⟧\n⟦A⟧{{ 'b' }}")]
    return {'harness': 'ludtwig', 'jobs': {'h_file': js}, 'reach': [460, 461, 462, 463, 464, 465], 'steps': 40_000_000,
        'bounds': f'{len(texts)} texts for the rules with one character inserted (thorough: or replaced) at every position, sequences of {3 if th else 2} of {len(DOC)} pieces, with and without --fix; contents with up to 4 arbitrary bytes above 127; every text under 6 kinds of read failures and 7 kinds of write failures (cannot be opened, error, interrupted, short, breaks off). Outside: other texts, other files and directories, failures of the console.'}

# C47
@spec('C47')
def c47(tier):
    th = tier == 'thorough'
    texts = ['', '⟦A⟧', '# ⟦A⟧\n⟦A⟧', '[format]\nindentation-count = ⟦B⟧⟦B⟧\n', 'version = "⟦A⟧"\n', '[format]\nindentation-mode = "ta⟦A⟧"\n', '[format⟦B⟧\n'] + (['⟦A⟧⟦A⟧', '[general]\nactive-rules = ["a⟦A⟧"]⟦A⟧'] if th else [])
    return {'harness': 'ludtwig', 'jobs': {'h_create': [cfg([t], [1], [ASCII.translate(None, bytes(range(32)) + b'\x7f') + b'\n', b'0123456789] x']) for t in texts] + [cfg([''], [0]), cfg(['x = ⟦A⟧'], [0], [b'01 '])]}, 'reach': [470, 471, 472, 473, 474], 'steps': 100_000_000,
        'bounds': f'with and without -C, the file given or (with -C) the default one, existing or not; {len(texts)} contents with up to two arbitrary characters; writing uninterrupted, interrupted once, in short pieces. Outside: other contents, races with other processes, failures of writing (the program ends with a panic).'}

# C35
FIELDS = {'version': ('"1.⟦A⟧"', '1.2.⟦A⟧'), 'general.active-rules': ('["⟦A⟧b", "c"]', '["⟦A⟧d"]'), 'format.line-ending': ('"⟦A⟧nix_LF"', 'windows_⟦A⟧RLF'), 'format.indentation-mode': ('"sp⟦A⟧ce"', 'ta⟦A⟧'), 'format.indentation-count': ('⟦D⟧⟦D⟧⟦D⟧', '⟦D⟧⟦D⟧⟦D⟧'), 'format.indent-children-of-blocks': ('tr⟦A⟧e', 'fals⟦A⟧'), 'format.linebreaks-around-blocks': ('f⟦A⟧lse', 't⟦A⟧ue'), 'format.twig-quotation': ('"dou⟦A⟧le"', 's⟦A⟧ngle'), 'format.html-quotation': ('"singl⟦A⟧"', 'd⟦A⟧uble'), 'twig.valid-filters': ('["a⟦A⟧"]', '[]'), 'twig.valid-tests': ('[]', '["b⟦A⟧", "c"]'), 'twig.valid-functions': ('["d"]', '["⟦A⟧"]')}
PLAIN = {'version': ('"1"', 'v2'), 'general.active-rules': ('["indentation"]', '["line-ending", "indentation"]'), 'format.line-ending': ('"windows_CRLF"', 'unix_LF'), 'format.indentation-mode': ('"tab"', 'space'), 'format.indentation-count': ('3', '7'), 'format.indent-children-of-blocks': ('false', 'true'), 'format.linebreaks-around-blocks': ('false', 'true'), 'format.twig-quotation': ('"double"', 'single'), 'format.html-quotation': ('"single"', 'double'), 'twig.valid-filters': ('["a"]', '["b", "c"]'), 'twig.valid-tests': ('["d"]', '["e"]'), 'twig.valid-functions': ('["f", "g"]', '[]')}
def toml(vals):
    """vals: field -> text of a line"""
    o = ''; last = ''
    for k, v in sorted(vals.items(), key=lambda x: x[0].rpartition('.')[0]):
        s, _, n = k.rpartition('.')
        if s != last: o += f'[{s}]\n'; last = s
        o += f'⟦C⟧{n} = {v}\n'
    return o
def envname(k): return '⟦L⟧UDTWIG_' + k.upper().replace('.', '__').replace('-', '_')
FILEV = ['"x"', '0', '7', '255', '256', 'true', 'false', '["a"]', '[]', '["b", "c"]', '"unix_LF"', '"windows_CRLF"', '"space"', '"tab"', '"single"', '"double"', '[1]', '""']
ENVV = ['x', '"x"', '0', '7', '0255', '256', 'true', 'false', '["a"]', '[]', '["b", "c"]', 'unix_LF', 'windows_CRLF', 'space', '"tab"', 'single', '"double"', '', 'Single', 'windows_LF', 'truex']
@spec('C35')
def c35(tier):
    th = tier == 'thorough'
    cl = [ASCII.translate(None, b'\0"\\\n\r\t\x7f' + bytes(range(32))), b'?', b' #', b'0123456789y'] + [b'?'] * 7 + [b'LXl_']
    n = cl[:11] + [b'LX']
    js = []; fs = list(FIELDS)
    for i, f in enumerate(fs):
        a, b = FIELDS[f]; p, q = PLAIN[f]
        js.append(cfg([toml({f: a}), envname(f) + '=' + q], [0], cl))
        js.append(cfg([toml({f: p}), envname(f) + '=' + b], [0], cl))
        js.append(cfg([toml({f: a}), envname(f) + '=' + b], [0], cl))
        js.append(cfg([toml({f: p}), envname(f) + '=' + q], [1], cl))
        js.append(cfg([toml({f: '⟪A⟫'}), envname(f) + '=⟪B⟫', 'LUDTWIG_OTHER=1'], [0], n, [FILEV, ENVV] if th else [FILEV, ENVV[:-1]]))
        for g in (fs if th else [fs[(i + 1) % len(fs)], fs[(i + 5) % len(fs)]]):
            if f == g: continue
            js.append((cfg([toml({f: '⟪A⟫', g: PLAIN[g][0]}), envname(f) + '=' + PLAIN[f][1], envname(g) + '=⟪B⟫'], [0], n, [FILEV if th else FILEV[(i + fs.index(g)) % 4::4], ENVV if th else ENVV[i % 4::4]]), 2))
            js.append(cfg([toml({f: PLAIN[f][0], g: PLAIN[g][0]}), envname(g) + '=' + PLAIN[g][1], envname(f) + '=' + PLAIN[f][1]], [1], cl))
        for g, h in ((fs[(i + 2) % len(fs)], fs[(i + 3) % len(fs)]), (fs[(i + 4) % len(fs)], fs[(i + 7) % len(fs)])):
            js.append(cfg([toml({x: PLAIN[x][0] for x in (f, g, h)}), *[envname(x) + '=' + PLAIN[x][1] for x in (h, f, g)]], [0], n))
    js.append((cfg([toml({f: PLAIN[f][0] for f in (fs if th else fs[:9])})], [0], n), 4))
    js.append((cfg(['', *[envname(f) + '=' + PLAIN[f][1] for f in (fs if th else fs[3:])]], [0], n), 4))
    for f in fs:
        js.append(cfg([toml({f: PLAIN[f][0] for f in fs}).replace('⟦C⟧', ''), envname(f) + '=⟪B⟫'], [0], cl, [[], ENVV]))
        js.append(cfg([toml({f: '⟪A⟫'}), *[envname(g) + '=' + PLAIN[g][1] for g in fs]], [0], [*cl[:11], b'L'], [FILEV]))
    js += [cfg([x, envname(fs[4]) + '=5'], [1], [*cl[:2], b' #!', *cl[3:]]) for x in ('⟦C⟧x y\n', '[format]\nindentation-count = 2\n⟦C⟧ [z\n', '⟦C⟧[format\nindentation-count = 2\n', '', '\n# x\n')]
    return {'harness': 'ludtwig', 'jobs': {'h_config': js}, 'reach': [350, 351, 352, 353, 354], 'steps': 100_000_000,
        'bounds': f'all {len(fs)} configuration values; the line of the file present or commented out, the variable of the environment present, in another case or under another name, each with one arbitrary printable character or (numbers) three digits, or with one of {len(FILEV)} / {len(ENVV)} values of all types; {"all" if th else 24} pairs of values and 24 triples; all values at once in the file, in the environment and in both; a file which is absent, cannot be opened or read, breaks off, is read in pieces, is no TOML. Outside: other TOML syntax (escapes, inline tables), relative paths, which are searched upwards by figment.'}
