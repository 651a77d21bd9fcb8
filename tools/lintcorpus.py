"""Texts in which the rules have something to say."""
LINT = [
 "{% block a_b %}\n<p>\n  x\n</p>\n{% endblock %}",
 "<div>\n{% block a %}{% endblock %}\n</div>",
 "{% block A-b %}{% endblock %}{% block a %}c{% endblock %}",
 "{% block a %}{% block a %}{% endblock %}{% endblock %}",
 "<a id=\"x\"><b id=\"x\"></b></a>",
 "<a id='x' CLASS=b dataFoo=\"{{ c }}\"></a>",
 "{{ a && b || c }}",
 "{{ a === b }}{{ a !== b }}",
 "{{ \"a\" ~ 'b' }}",
 "{{ { 'a': \"b\", 'c d': 1 } }}",
 "{{ a|json_encode|raw }}{{ a|foo(1) }}",
 "{% if a is same as(b) and f(1) %}\n  c\n{% endif %}",
 "{% extends 'a' %}\n{% set a_b = 1 %}\n{% set X = constant('a') %}",
 "{% for a_b in c %}\n d\n{% endfor %}",
 "<pre>\n  a\n \n</pre>\n  b",
 "a\n \nb\r\nc",
 "<a b=\"c\n  d\"\n e='f'>\n</a>",
 "{# ludtwig-ignore twig-logic-and #}{{ a && b }}{{ c && d }}",
 "{# ludtwig-ignore #}<a ID=x>\n </a>\n <b></b>",
 "{# ludtwig-ignore-file indentation #}\n <a B=c></a>",
 "<p>{# ludtwig-ignore-file #}</p>",
 "{{ f(\n1,\n[\n2]) }}",
 "<twig:A fooBar=\"b\">\n{{ x }}</twig:A>",
 "<p>{% block a %}\n\n{% endblock %}{% block b %}{% endblock %}</p>",
 "é <a É='ü'>\n  {{ 'ö' && \"é\" }}</a>",
]
# texts with syntax errors in which the rules have something to say
LINTBAD = [
 "{{ a && }}{{ b && c }}",
 "{{ a b && c }}",
 "<a ID=\"x\" <b>\n c",
 "{% block A %}\n <a>\n{% endblock %}",
 "{% block a %}{{ 'x }}{% endblock %}",
 "</a>\n  {% endblock %}\n b",
 "}} <a>\n</a>",
 "{% if %}{{ \"a\" }}\n {% endif %}",
 "{{ { 'a' 1 } }}",
]
