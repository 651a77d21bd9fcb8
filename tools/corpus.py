"""Texts from which the checks build their templates.
MARKED: well-formed texts; '·' is a gap where nothing or blanks may stand, '␣' one where a separator is needed.
BROKEN: texts with syntax errors."""
MARKED = r'''
{{·a·}}
{{-·a·-}}
{{~·a·~}}
{{·a·.·b·.·c·}}
{{·a·[·0·]·}}
{{·a·[·1·:·b·]·}}
{{·a·[·:·2·]·}}
{{·a·[·1·:·]·}}
{{·a·.·0·}}
{{·a·|·raw·}}
{{·a·|·b·|·c·(·1·,·2·)·}}
{{·a·|·f·(·'x'·,·k·=·3·)·}}
{{·f·(·)·}}
{{·f·(·a·,·b·)·.·c·}}
{{·a·.·f·(·1·)·[·2·]·|·g·}}
{{·f·(·k·=·1·,·m·=·"z"·)·}}
{{·[·1·,·'a'·,·b·]·}}
{{·[·]·}}
{{·{·}·}}
{{·{·a·:·1·,·'b'·:·2·,·(·c·)·:·3·,·4·:·d·}·}}
{{·{·a·,·b·}·}}
{{·{·a·:·{·b·:·[·1·]·}␣}·}}
{{·"x #{·a·} y"·}}
{{·'it\'s'·}}
{{·1.5·}}
{{·1e+3·}}
{{·true·}}
{{·null·}}
{{·none·}}
{{·a␣?·b·:·c·}}
{{·a·?·b·}}
{{·a·?:·b·}}
{{·a·??·b·}}
{{·(·a␣and␣b·)␣or␣c·}}
{{·not␣a·}}
{{·-·a·*·b·}}
{{·a␣in␣b·}}
{{·a␣not in␣b·}}
{{·a␣is␣defined·}}
{{·a␣is not␣empty·}}
{{·a␣is␣same as·(·b·)·}}
{{·a␣is␣divisible by·(·3·)·}}
{{·a␣is␣foo·}}
{{·a␣starts with␣'x'·}}
{{·a␣matches␣'x'·}}
{{·a␣b-and␣b·}}
{{·a·<=>·b·}}
{{·a·..·b·}}
{{·a·~·b·}}
{{·a·//·b·**·c·}}
{{·a·===·b·}}
{{·a·!==·b·}}
{{·a·&&·b·||·c·}}
{{·a·|·map·(·x␣=>␣x·*·2·)·}}
{{·a·|·reduce·(·(·x·,·y·)·=>·x·+·y·)·}}
{{·f·(·...·a·)·}}
{%·block␣a·%}b{%·endblock·%}
{%-·block␣a·-%}b{%-·endblock␣a·-%}
{%·block␣a␣b|title·%}
{%·if␣a·%}b{%·endif·%}
{%·if␣a·%}b{%·elseif␣c·%}d{%·else·%}e{%·endif·%}
{%·for␣a␣in␣b·%}c{%·endfor·%}
{%·for␣a·,·b␣in␣c·%}d{%·else·%}e{%·endfor·%}
{%·for␣i␣in␣0..9·%}{{·loop.index·}}{%·endfor·%}
{%·set␣a·=·1·%}
{%·set␣a·,·b·=·1·,·2·%}
{%·set␣a·%}b{%·endset·%}
{%·extends␣'a.twig'·%}
{%·extends␣[·'a'·,·b·]·%}
{%·include␣'a'·%}
{%·include␣'a'␣ignore missing␣with␣{·b·:·1·}␣only·%}
{%·include␣a␣with␣b·%}
{%·use␣'a'·%}
{%·use␣"a"␣with␣b␣as␣c·,·d␣as␣e·%}
{%·apply␣upper·%}a{%·endapply·%}
{%·apply␣a·|·b·(·1·)·%}a{%·endapply·%}
{%·autoescape·%}a{%·endautoescape·%}
{%·autoescape␣'js'·%}a{%·endautoescape·%}
{%·autoescape␣false·%}a{%·endautoescape·%}
{%·deprecated␣'a'·%}
{%·do␣1·+·2·%}
{%·embed␣"a"␣with␣{·}␣only·%}{%·block␣b·%}c{%·endblock·%}{%·endembed·%}
{%·flush·%}
{%·from␣'a'␣import␣b␣as␣c·,·d·%}
{%·import␣'a'␣as␣b·%}
{%·sandbox·%}{%·include␣'a'·%}{%·endsandbox·%}
{%·verbatim·%}{{ a }} {%·if␣b·%}{%·endif·%}{%·endverbatim·%}
{%·macro␣a·(·)·%}b{%·endmacro·%}
{%·macro␣a·(·b·,·c·=·1·)·%}d{%·endmacro␣a·%}
{%·with·%}a{%·endwith·%}
{%·with␣{·a·:·1·}␣only·%}b{%·endwith·%}
{%·cache␣'a'·%}b{%·endcache·%}
{%·cache␣"a"␣ttl·(·5·)␣tags·(·'b'·)·%}c{%·endcache·%}
{%·props␣a·,·b·=·1·%}
{%·component␣A·%}b{%·endcomponent·%}
{%·component␣A␣with␣{·b·:·'c'·}·%}{%·block␣d·%}{%·endblock·%}{%·endcomponent·%}
{%·trans·%}a{%·endtrans·%}
{%·sw_extends␣'a'·%}
{%·sw_include␣'a'␣ignore missing␣with␣b␣only·%}
{%·sw_silent_feature_call␣'A'·%}b{%·endsw_silent_feature_call·%}
{%·return␣a·%}
{%·sw_icon␣'a'␣style␣{·'b'·:·'c'·}·%}
{%·sw_thumbnails␣'a'␣with␣{·b·:·c·}·%}
{%·sw_embed␣'a'·%}{%·block␣b·%}c{%·endblock·%}{%·sw_end_embed·%}
{%·sw_use␣'a'·%}
{%·sw_import␣'a'␣as␣b·%}
{%·sw_from␣'a'␣sw_import␣b␣as␣c·%}
{# a #}
{#- a -#}
{#~ {{ b }} ~#}
{# ludtwig-ignore #}{{·a·}}
{# ludtwig-ignore twig-logic-and, b-c #}{{·a·&&·b·}}
{# ludtwig-ignore-file html-name #}
<!-- ludtwig-ignore a, b --><a></a>
<!-- a <b> {{ c }} -->
<!DOCTYPE␣html·>
<a·></a·>
<a␣href·=·"x"·></a·>
<a␣href·=·'x'␣b␣c·=·d·></a·>
<a␣href·=·{{·b·}}·></a·>
<a␣{{·b·}}·=·"c"·></a·>
<a␣:b·=·"c"␣@d·=·"e"␣#f·></a·>
<a␣b·=·"c {{·d·}} e"·></a·>
<a␣b·=·"{%·if␣c·%}d{%·else·%}e{%·endif·%}"·></a·>
<a␣{%·if␣b·%}c·=·"d"{%·endif·%}·></a·>
<a␣{% block b %}c{% endblock %}·></a·>
<a␣{# b #}␣c·></a·>
<br·/>
<br·>
<input␣type·=·"text"␣disabled·/>
<img␣src·=·'a'·>
<my-tag·/>
<div·>a<span·>b</span·>c</div·>
<div·>{%·if␣a·%}<b·>c</b·>{%·endif·%}</div·>
<twig:A:b␣c·=·"d"·>e</twig:A:b·>
<twig:A·/>
<script·>let a = {{·b·}}; if (a < 2 && b) {}</script·>
<script␣type·=·"x"·>{%·if␣a·%}b{%·endif·%}</script·>
<style·>a > b { c: d }</style·>
<textarea·>a <b> c</textarea·>
<pre·>a
  b</pre·>
a &amp; b
a < 2 > 1
{%·if␣a·%}{%·for␣b␣in␣c·%}{%·block␣d·%}{{·e·}}{%·endblock·%}{%·endfor·%}{%·endif·%}
{%·block␣a·%}<p·>{%·block␣b·%}{%·endblock·%}</p·>{%·endblock·%}
'''.strip('\n').split('\n')
# the pre element above spans two lines
i = [k for k, s in enumerate(MARKED) if s.startswith('<pre')][0]
MARKED[i:i + 2] = [MARKED[i] + '\n' + MARKED[i + 1]]

BROKEN = r'''
{{
{{ }}
{{ a
{{ a b }}
{{ a. }}
{{ a| }}
{{ a[ }}
{{ a[] }}
{{ f( }}
{{ f(a b) }}
{{ [1 2] }}
{{ {a: } }}
{{ {a 1} }}
{{ 'a }}
{{ "a #{ }}
{{ a ? : }}
{{ a + }}
{{ not }}
{{ (a }}
{{ a is }}
{{ a is not }}
{{ a => }}
{{ (a, ) => b }}
{% %}
{%
{% a %}
{% block %}
{% block a %}
{% block a
{% block a %}{% endif %}
{% endblock %}
{% if %}a{% endif %}
{% if a
{% if a %}b
{% if a %}b{% else %}c
{% if a %}<b>{% endif %}
{% else %}
{% for %}{% endfor %}
{% for a in %}{% endfor %}
{% for a b in c %}{% endfor %}
{% for a in b %}c
{% set %}
{% set a = %}
{% set a %}b
{% set = a %}
{% extends %}
{% include %}
{% include 'a' with %}
{% use %}
{% use 'a' with %}
{% use 'a' with b as %}
{% from 'a' %}
{% from 'a' import %}
{% import 'a' %}
{% import 'a' as %}
{% macro %}
{% macro a %}b
{% macro a( %}{% endmacro %}
{% macro a() %}b{% endmacro b %}
{% apply %}a{% endapply %}
{% autoescape a b
{% do %}
{% embed %}
{% embed 'a' %}b
{% cache %}a
{% cache 'a' ttl( %}b{% endcache %}
{% props %}
{% component %}
{% component A %}b
{% with a
{% verbatim %}a
{% sandbox %}
{% trans %}
{% deprecated %}
{% sw_extends a %}
{% sw_icon %}
{% sw_icon 'a' style %}
{% sw_include %}
{% sw_silent_feature_call a %}
{% sw_thumbnails 'a' with %}
{% return
{# a
{#- ludtwig-ignore a b
{# ludtwig-ignore , #}
{# ludtwig-ignore-file 1 #}
<!-- a
<!-- ludtwig-ignore
<!DOCTYPE>
<!
<
<a
<a b
<a b=
<a b="
<a b="c
<a b='c">
<a b=>
<a b=c">
<a b=1></a>
<1></1>
<a>
<a></b>
<a><b></a>
</a>
<a></a b>
<br></br>
<script>a
<script>{% endif %}</script>
<a {{ b>
<a {% if b %}c></a>
<twig:a>
<a "b"></a>
&
}} %} #} -->
"'`
'''.strip('\n').split('\n')

import re
def plain(m):
    """the text with a blank in the gaps next to the delimiters"""
    m = re.sub('((?:\\{\\{|\\{%)[-~]?)·', r'\1 ', m)
    m = re.sub('·([-~]?(?:\\}\\}|%\\}))', r' \1', m)
    return m.replace('·', '').replace('␣', ' ')
VALID = [plain(m) for m in MARKED]
def marks(m):
    """MARKED text with gap bytes: 0x01 optional, 0x02 required (next to the delimiters a blank is always there in the first text)"""
    m = re.sub('((?:\\{\\{|\\{%)[-~]?)·', '\\1␣', m)
    m = re.sub('·([-~]?(?:\\}\\}|%\\}))', '␣\\1', m)
    return m.replace('·', '\x01').replace('␣', '\x02')
