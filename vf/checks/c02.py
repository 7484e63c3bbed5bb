"""
C02  creole2html never lets the text of a document become markup
"""
import io
import re

from vf import creolegen as G
from vf import htmlrules as R
from vf import htmltree as H
from vf import soup as S
from vf.core import call

CASES = {'quick': 24000, 'thorough': 600000}
RULE = ('fragment soup, mutated documents and well-formed documents full of <, >, &, quotes, tags, comments and CDATA marks; the '
        'output is parsed with expat as XML and every element, attribute, attribute value and nesting is checked. Non-trivial: '
        'distinct tree shapes with at least two elements.')
MINIMUM = {'trees checked': {'quick': 20000, 'thorough': 500000}, 'attribute values checked': 5000, 'with toc': 300}

HOSTILE = ['<img src=x onerror=alert(1)>', '"onmouseover="x', "'>", '</a>', '</p><p>', '<br />', '&quot;', '&lt;', '&', '&#60;',
           '"/>', '<b', '<!DOCTYPE a>', '<?x?>', '{{"|<b>}}', '[["|&]]', '[[<a>|<b>]]', '{{<a>|<b>|1x2}}', '{{"|"|3x4}}', '{{"||5x6}}',
           '[[a"b]]', '[[a|{{b"|c"}}]]', 'http://a"b<c', '{{{</code><b>}}}', '##<##', '\n= <h> "q" & =\n', '\n|=<th>|"td"&|\n',
           "<<x a='<b>'>>", '<<toc depth="<b>">>', '<<nope a="&">>']
XML_OK = ['\r', '\r\n', '\x85', '\u2028', '\xa0', '\u200b', '\ufeff', '\x7f', '\ufffd', '\u202e', '\u0301', '\U0010fffd']


def gen(rng, i, tier):
    t = rng.random()
    ctl = XML_OK if rng.random() < 0.3 else []
    macros = rng.random() < 0.5
    if t < 0.25:
        text = S.soup(rng, rng.randint(1, 30), marks=HOSTILE + S.MARKS, extra=ctl, pword=0.3)
    elif t < 0.35:
        text = G.write(G.Gen(rng).document(1, 5))
        for _ in range(rng.randint(0, 3)):
            p = rng.randint(0, len(text))
            text = text[:p] + rng.choice(HOSTILE) + text[p:]
    else:
        text = S.messy(rng, i, control=ctl + HOSTILE, macros=macros)
    return {'text': text, 'blog': rng.random() < 0.6, 'strict': rng.random() < 0.3, 'verbose': rng.choice((None, None, 0, 1, 2)),
            'macros': rng.choice((None, 'empty'))}


def run(case, st):
    from creole import creole2html
    text = case['text']
    html = call(creole2html, text, blog_line_breaks=case['blog'], strict=case['strict'], verbose=case['verbose'],
                macros={} if case['macros'] else None, stderr=io.StringIO())
    source = text.replace('\r\n', '\n').replace('\r', '\n')
    toc = bool(re.search(r'<<\s*toc', source))
    problems = []
    clean = R.neutralise_echo(html)
    try:
        tree = H.parse(clean)
        # (a XML parser normalises white space in attribute values)
        problems = R.violations(tree, re.sub(r'[\t\n]', ' ', source), toc)
    except H.NotWellFormed as err:
        return [('malformed', f'creole2html({text!r}) -> {html!r}: {err}')]
    st.count('trees checked')
    if toc:
        st.count('with toc')
    if problems:
        return [('markup', f'creole2html({text!r}) -> {html!r}: {problems[:3]}')]
    n = 0
    for node, _ in H.iter_nodes(tree):
        n += 1
        st.count('attribute values checked', len(node[1]))
    st.count('elements checked', n - 1)
    if n > 2:
        st.key(H.shape(tree))
    st.sample(text[:300].encode('unicode_escape').decode())
    if clean != html:
        try:
            H.parse(html)
        except H.NotWellFormed:
            return [('wrong-args-echo', f'{text!r} -> {html!r}')]


def probes(st):
    from creole import creole2html
    html = creole2html('<<nope a="<b>" "c>>')
    yield 'wrong-args-echo', '<b>' in html, html
