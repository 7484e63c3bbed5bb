"""
C27  A creole document can be converted over html to ReSt, Markdown and textile and means the same there
"""
import io
import random
import re

from vf import docgen as D
from vf import htmltree as H
from vf.core import call
from vf.checks import c16, c17, c18

CASES = {'quick': 4500, 'thorough': 60000}
RULE = ('random documents written as creole source; html2rest, html2markdown and html2textile of creole2html(source), read back by docutils, commonmark / Python-Markdown and textile, have the structure, '
        'text and targets that the creole document has. Non-trivial: distinct structures.')
MINIMUM = {'ReSt': {'quick': 900, 'thorough': 12000}, 'Markdown': {'quick': 900, 'thorough': 12000}, 'textile': {'quick': 900, 'thorough': 12000}, 'tables': 300, 'lists': 400}
MARKS = {'strong': '**', 'i': '//', 'tt': '##', 'sup': '^^', 'sub': ',,', 'u': '__', 'small': '--', 'del': '~~'}
# characters inside of words without a meaning in creole
CREOLE = '<>&\'"$+;()%?!'


def gen(rng, i, tier):
    to = ('ReSt', 'Markdown', 'textile')[i % 3]
    if to == 'ReSt':
        g = D.DocGen(rng, url_labels=True, typefaces=('strong', 'i', 'tt'), transparent=('u', 'sup', 'sub', 'small', 'del'), uni=0.2, special='&<>\'"%$+!?;()', tail=(',', ';', '!', ':'))
    elif to == 'Markdown':
        blocks = ('p', 'h', 'list', 'pre', 'hr') + (('table',) if rng.random() < 0.5 else ())
        g = D.DocGen(rng, url_labels=True, typefaces=('strong', 'i', 'tt', 'sup', 'sub', 'u', 'small'), nested=True, special='\'"%$+?(', blocks=blocks, header='always', tail=(',', ';', ':', '?'))
        if 'table' in blocks:
            g.nested_ok = lambda parent, child: parent is None
    else:
        g = c18.Gen(rng, url_labels=True, typefaces=('strong', 'i', 'sup', 'sub', 'del'), transparent=('small', 'u'), special='$;', uni=0.1, blocks=('p', 'h', 'list', 'table', 'pre'), tail=(',', ';'),
                    image_tail=False, urls=lambda: c18.Gen.url(g).replace('&', ';'), nested_ok=lambda parent, child: parent in (None, child))
    g.head_inline = False  # creole headings are plain text
    doc = g.document(1, 6 if tier == 'quick' or i % 10 else 20)
    doc['to'] = to
    return doc


def inline(nodes):
    out = []
    for n in nodes:
        k = n['k']
        if k == 'text':
            out.append(n['s'])
        elif k in MARKS:
            out.append(MARKS[k] + inline(n['c']) + MARKS[k])
        elif k == 'a':
            url, label = n['a']['href'], inline(n['c'])
            out.append(f'[[{url}]]' if label == url else f'[[{url}|{label}]]')
        elif k == 'img':
            out.append('{{%s|%s}}' % (n['a']['src'], n['a']['alt']))
        elif k == 'br':
            out.append('\\\\')
        else:
            raise KeyError(k)
    return ''.join(out)


def list_lines(b, marks=''):
    mark = marks + {'ul': '*', 'ol': '#'}[b['k']]
    for item in b['c']:
        yield f'{mark} ' + inline([x for x in item['c'] if x['k'] not in ('ul', 'ol')])
        for sub in item['c']:
            if sub['k'] in ('ul', 'ol'):
                yield from list_lines(sub, mark)


def creole_source(doc):
    out = []
    for b in doc['blocks']:
        k = b['k']
        if k[0] == 'h' and k != 'hr':
            out.append('=' * int(k[1]) + ' ' + inline(b['c']))
        elif k == 'hr':
            out.append('----')
        elif k == 'pre':
            out.append('\n'.join(('{{{', *b['lines'], '}}}')))
        elif k == 'table':
            out.append('\n'.join(''.join(('|=' if c['k'] == 'th' else '|') + ' ' + inline(c['c']) + ' ' for c in row['c']) + '|' for row in b['c']))
        elif k == 'p':
            out.append(inline(b['c']))
        else:
            out.append('\n'.join(list_lines(b)))
    return '\n\n'.join(out)


def writable(nodes, used=()):
    """ no mark in the text, no typeface in itself, no line break in a typeface """
    for n in nodes:
        k = n['k']
        if k == 'text':
            if re.search(r'\*\*|//|##|\^\^|,,|__|--|~|\[\[|\]\]|\{\{|\}\}|\\|\||<<|>>|^\s*[*#=]', n['s']):
                return False
        elif k in MARKS and (k in used or not writable(n['c'], (*used, k))):
            return False
        elif k == 'a':
            if 'a' in used:
                return False
            label, url = inline(n['c']), n['a']['href']
            if label != url and not writable(n['c'], (*used, 'a')) or '|' in label:
                return False
        elif k == 'br' and any(u in MARKS for u in used):
            return False
        elif k in ('li', 'td', 'th', 'tr', 'ul', 'ol') and not writable(n['c'], used):
            return False
    return True


def run(case, st):
    from creole import creole2html, html2markdown, html2rest, html2textile
    from creole.rest_tools.clean_writer import rest2html
    to = case['to']
    if not D.valid(case) or not all(writable(b.get('c', ())) for b in case['blocks']):
        return
    if any(re.match(r' *(}}}|{{{)', ln) for b in case['blocks'] for ln in b.get('lines', ())):
        return
    source = creole_source(case)
    html = call(creole2html, source)
    preserve = {}
    runs = []
    if to == 'ReSt':
        shift = c16.first_levels(case)
        if shift is None:
            return
        text = call(html2rest, html)
        messages = io.StringIO()
        back = call(rest2html, text, warning_stream=messages)
        if messages.getvalue():
            return [('docutils message', f'{source!r} -> {html!r} -> {text!r}: {messages.getvalue()!r}')]
        want = H.normalise(c16.flat(D.doc_tree(case, c16.RENAME), shift))
        runs.append(('docutils', back.replace('&nbsp;', '\xa0'), c16.flat))
    elif to == 'Markdown':
        if any(b['k'] == 'table' and b['c'][0]['c'][0]['k'] != 'th' for b in case['blocks']):
            return
        text = call(html2markdown, html)
        attrs = lambda k, at: {**at, 'title': at['alt']} if k == 'img' else at  # noqa
        tree = ('r', (), [t for b in case['blocks'] for t in D.trees(b, c17.RENAME, attrs)])
        want = H.normalise(c17.flat(tree), preserve={'pre'})
        preserve = {'preserve': {'pre'}}
        if not any(b['k'] == 'table' for b in case['blocks']):
            runs.append(('commonmark', c17.commonmark_html(text), c17.flat))
        if not c17.nested(case['blocks']):
            runs.append(('Python-Markdown', c17.markdown_html(text), c17.flat))
        runs = [(name, re.sub(r'<(/?)(thead|tbody)>', '', back), f) for name, back, f in runs]
        if not runs:
            return
    else:
        text = call(html2textile, html)
        want = H.normalise(c18.flat(D.doc_tree(case, c18.RENAME, c18.attrs)), preserve={'pre'})
        preserve = {'preserve': {'pre'}}
        runs.append(('textile', c18.textile_html(text).replace('&#8217;', "'"), c18.flat))
    out = []
    for name, back, flat in runs:
        try:
            d = H.diff(want, H.normalise(flat(H.parse(back)), **preserve))
        except H.NotWellFormed as err:
            d = err
        if d:
            out.append(('pipeline', f'{name}: {source!r} -> {html!r} -> {text!r} -> {back!r}: {d}'))
    st.count(to)
    for name, tags in (('tables', ('table',)), ('lists', ('ul', 'ol')), ('preformatted', ('pre',))):
        st.count(name, sum(b['k'] in tags for b in case['blocks']))
    st.key((to, D.kinds_of(case['blocks'])))
    st.sample(source[:300])
    return out
