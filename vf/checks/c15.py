"""
C15  html -> creole -> html gives the same document back, and creole -> html -> creole is stable
"""
import posixpath
import random
import re

from vf import creolegen as G
from vf import htmltree as H
from vf import spell
from vf.core import call

CASES = {'quick': 9000, 'thorough': 150000}
RULE = ('random documents (paragraphs, headings, nested lists, tables, rulers, preformatted blocks, typefaces, links, images, line breaks; words with characters that need html '
        'escaping) as html trees, written in random equivalent html spellings. The tree of creole2html(html2creole(html)) must be the original tree, and the creole text must be a '
        'fixpoint of html2creole(creole2html()). Non-trivial: distinct combination of block and inline elements.')
MINIMUM = {'trees compared': {'quick': 4500, 'thorough': 100000}, 'fixpoints': {'quick': 2500, 'thorough': 60000}, 'images with size': 300, 'strict trees': 1500}
FEATURES = {'link', 'image', 'br', 'size', 'typeface', 'pre', 'table', 'list', 'hr', 'head', 'mixed'}
# characters that have no meaning in creole, whatever stands beside them
SPECIAL = '<>&"\'.;!?()$%@+`'


def clean(b, rng):
    """ keep what both directions define """
    def inl(nodes, in_typeface=False):
        out = []
        for n in nodes:
            n = dict(n)
            if n['k'] == 'br' and in_typeface and b['k'] == 'p':
                n = {'k': 'text', 's': ' '}   # see probes()
            if n.get('c'):
                n['c'] = inl(n['c'], n['k'] != 'link')
            if n['k'] == 'image' and not (n['alt'] or '').strip():
                n['alt'] = posixpath.basename(n['target']) if rng.random() < 0.7 else 'alt'
                if not n['alt'].strip('/') or '|' in n['alt']:
                    n['alt'] = 'alt'
            if n['k'] == 'link' and rng.random() < 0.15:
                t = n['target']
                label = rng.choice((t.upper(), t.lower(), t + '/', t[:-1], t[1:], 'x' + t)).strip()
                if label and label != t and not re.search(r'(?<!:)//|\\\\|{{|}}|\[\[|]]', label):
                    n['c'] = [{'k': 'text', 's': label}]
            out.append(n)
        return out
    b = dict(b)
    if b['k'] == 'p':
        b['lines'] = [inl(x) for x in b['lines']]
    elif b['k'] == 'list':
        b['items'] = [{**i, 'c': inl(i['c'])} for i in b['items']]
    elif b['k'] == 'table':
        width = min(len(r['cells']) for r in b['rows'])
        b['rows'] = [{**r, 'cells': [{**c, 'c': inl(c['c'])} for c in r['cells'][:width]]} for r in b['rows']]
    return b


def gen(rng, i, tier):
    g = G.Gen(rng, FEATURES, SPECIAL)
    hi = 5 if tier == 'quick' or i % 10 else 20
    doc = g.document(1, hi)
    return {'blocks': [clean(b, rng) for b in doc['blocks']], 'seed': rng.randrange(1 << 30), 'plain': rng.random() < 0.2}


def tight(nodes):
    """ shrunk cases can have spaces at the borders of an element """
    if not nodes:
        return True
    a, b = nodes[0], nodes[-1]
    if (a['k'] == 'text' and a['s'][:1] in (' ', '')) or (b['k'] == 'text' and b['s'][-1:] in (' ', '')) or 'br' in (a['k'], b['k']):
        return False
    return all(tight(n['c']) for n in nodes if n.get('c'))


def all_inlines(doc):
    for b in doc['blocks']:
        yield from b.get('lines', ()) if b['k'] == 'p' else ()
        yield from (i['c'] for i in b.get('items', ()))
        yield from (c['c'] for r in b.get('rows', ()) for c in r['cells'])


def lines(text):
    """ without white space at the end of lines, beside of line breaks, and blank lines """
    return [ln.rstrip() for ln in re.sub(r' *\\\\ *', r'\\\\', text).split('\n') if ln.strip()]


def swap(tree):
    """ width and height of all images exchanged """
    if isinstance(tree, str):
        return tree
    tag, at, c = tree
    if tag == 'img':
        names = {'width': 'height', 'height': 'width'}
        at = tuple(sorted((names.get(k, k), v) for k, v in at))
    return (tag, at, [swap(x) for x in c])


def unsized(tree):
    if isinstance(tree, str):
        return tree
    tag, at, c = tree
    return (tag, tuple(x for x in at if tag != 'img' or x[0] not in ('width', 'height')), [unsized(x) for x in c])


def probes(st):
    from creole import creole2html, html2creole
    creole = html2creole('<p>a <b>b<br />c</b> d</p>')
    back = creole2html(creole)
    return [('typeface-cross-lines', '<strong>' not in back, f'{creole!r} -> {back!r}')]


def run(case, st):
    from creole import creole2html, html2creole
    if not G.valid(case) or not all(tight(x) for x in all_inlines(case)):
        return
    tree = G.expected(case)
    kw = {'upper': 0, 'extra': 0, 'comments': 0, 'wrap': 0, 'odd_space': False, 'li_p': 0, 'tbody': 0} if case['plain'] else {}
    html = spell.Speller(random.Random(case['seed']), longest=True, data_img=True, **{'li_blocks': 0.3, **kw}).document(tree)
    creole = call(html2creole, html)
    back = call(creole2html, creole)
    want = H.normalise(tree)
    try:
        got = H.normalise(H.parse(back))
    except H.NotWellFormed as err:
        return [('malformed', f'{html!r} -> {creole!r} -> {back!r}: {err}')]
    out = []
    st.count('trees compared')
    st.count('elements compared', sum(1 for _ in H.iter_nodes(want)))
    sizes = sum(1 for n, _ in H.iter_nodes(want) if n[0] == 'img' and any(k == 'width' for k, v in n[1]))
    st.count('images with size', sizes)
    d = H.diff(want, got)
    if d:
        if sizes and not H.diff(H.normalise(swap(tree)), got):
            out.append(('image-size-swapped', f'html2creole({html!r}) -> {creole!r}: {d}'))
        else:
            out.append(('round trip', f'{html!r} -> {creole!r} -> {back!r}: {d}'))
    if not sizes:
        again = call(html2creole, back)
        st.count('fixpoints')
        if lines(again) != lines(creole):
            out.append(('fixpoint', f'{html!r} -> {creole!r} -> {back!r} -> {again!r}'))
    if case['seed'] % 3 == 0:
        # strict Creole 1.0: the same without the sizes of images
        creole = call(html2creole, html, strict=True)
        back = call(creole2html, creole, strict=True)
        st.count('strict trees')
        try:
            d = H.diff(H.normalise(unsized(tree)), H.normalise(H.parse(back)))
        except H.NotWellFormed as err:
            d = str(err)
        if d:
            out.append(('strict', f'{html!r} -> (strict) {creole!r} -> {back!r}: {d}'))
    st.key(G.kinds_of(case))
    st.sample(html[:400])
    return out
