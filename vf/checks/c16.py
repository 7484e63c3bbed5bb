"""
C16  html2rest writes reStructuredText that docutils reads back as the same document
"""
import io
import random
import re

from vf import docgen as D
from vf import htmltree as H
from vf import spell
from vf.core import call

CASES = {'quick': 9000, 'thorough': 40000}
RULE = ('random documents (headings in order, paragraphs, nested lists, tables, preformatted blocks, rulers, typefaces, links, images with repeated targets) in random html spellings; '
        'docutils reads the ReSt text of html2rest without a message, and the html of rest2html has the structure, text and targets of the original. Non-trivial: distinct structures.')
MINIMUM = {'trees compared': {'quick': 1600, 'thorough': 30000}, 'tables': 300, 'lists': 400, 'headings': 600, 'preformatted': 200, 'conflicting link names': 40, 'items with paragraphs': 100, 'linked images': 200}
TRANSPARENT = ('u', 'sup', 'sub', 'small', 'span', 'font', 'cite', 'del')
RENAME = {'i': 'em', 'code': 'tt', 'br': lambda n, c: [' '], **{k: None for k in TRANSPARENT}}
SAME = {'strong': ('strong', 'b', 'big'), 'i': ('i', 'em')}


def gen(rng, i, tier):
    g = D.DocGen(rng, url_labels=True, typefaces=('strong', 'i', 'tt', 'code'), transparent=TRANSPARENT, uni=0.2, tail=(',', ';', '!', ':'), glue=0.25)
    doc = g.document(1, 6 if tier == 'quick' or i % 10 else 20)
    for b in doc['blocks']:
        if b['k'] in ('ul', 'ol') and rng.random() < 0.2:
            paragraphs(rng, g, b)
    urls = {}
    for b in doc['blocks']:
        linked_images(rng, g, b['c'], urls) if 'c' in b else None
    if rng.random() < 0.05:  # the same link name with an other target
        label = g.words()
        spell = rng.choice((str, str.upper, str.lower))(label)
        if spell.lower() == label.lower() and not g.taken(label):
            urls = rng.choice((('/x', '/y'), ('/x', '/X'), ('/x', '/x/'), ('http://x', 'https://x'), ('/x', '/x?'), ('/x#', '/x')))
            img = rng.random() < 0.3
            for text, url in zip((label, spell), urls):
                node = {'k': 'img', 'a': {'src': url, 'alt': label}, 'c': []} if img else {'k': 'a', 'a': {'href': url}, 'c': [{'k': 'text', 's': text}]}
                doc['blocks'].insert(rng.randint(0, len(doc['blocks'])), {'k': 'p', 'a': {}, 'c': [node]})
            doc['conflict'] = urls
    return doc


def paragraphs(rng, g, b):
    for item in b['c']:
        sub = [x for x in item['c'] if x['k'] in ('ul', 'ol')]
        if rng.random() < 0.4:
            own = [x for x in item['c'] if x['k'] not in ('ul', 'ol')]
            item['c'] = [{'k': 'p', 'a': {}, 'c': own}] + [{'k': 'p', 'a': {}, 'c': g.inlines()} for _ in range(rng.randint(1, 2))] + sub
        for x in sub:
            paragraphs(rng, g, x)


def linked_images(rng, g, nodes, urls):
    for i, n in enumerate(nodes):
        if n['k'] == 'img':
            alt = n['a']['alt']
            if rng.random() < 0.3:
                nodes[i] = {'k': 'a', 'a': {'href': urls.setdefault(alt, g.url())}, 'c': [n]}
        elif n['k'] == 'a':
            pass
        elif n['k'] not in g.typefaces:
            linked_images(rng, g, n.get('c', ()), urls)


def linked(nodes):
    return sum(n['k'] == 'a' and n['c'][0]['k'] == 'img' or linked(n.get('c', ())) for n in nodes)


def several(nodes):
    return sum(sum(x['k'] == 'p' for x in n['c']) > 1 for n in nodes if n['k'] == 'li') + sum(several(n.get('c', ())) for n in nodes)


def first_levels(doc):
    """ ReSt has no absolute heading levels: the first style is the first level """
    levels = [int(b['k'][1]) for b in doc['blocks'] if re.match(r'h\d', b['k'])]
    if not levels:
        return 0
    base, last = levels[0], levels[0]
    for n in levels:
        if n < base or n > last + 1:
            return None
        last = n
    return base - 1


def dedent(text):
    lines = [ln.rstrip() for ln in text.split('\n')]
    while lines and not lines[0]:
        lines.pop(0)
    while lines and not lines[-1]:
        lines.pop()
    return '\n'.join(lines)


def flat(node, shift=0):
    """ without <p> in cells and items, colgroups; with plain spaces; headings moved """
    tag, at, children = node
    out = []
    for c in children:
        if isinstance(c, str):
            out.append(c if tag == 'pre' else c.replace('\xa0', ' '))
        elif c[0] == 'colgroup':
            continue
        elif c[0] == 'p' and (tag in ('td', 'th') or tag == 'li' and sum(x[0] == 'p' for x in children if not isinstance(x, str)) == 1) or c[0] == 'span':  # docutils: <span class="pre"> keeps words of a literal together
            out += flat(c)[2]
        else:
            out.append(flat(c, shift))
    if tag == 'pre':
        out = [dedent(''.join(out))]
    if re.fullmatch(r'h\d', tag):
        tag = f'h{int(tag[1]) - shift}'
    return (tag, at, out)


def enumerator(nodes):
    """ a text that is the mark of a list item, e.g. "a) foo" """
    for n in nodes:
        if n['k'] in ('ul', 'ol', 'table', 'tr'):
            if enumerator(n['c']):
                return True
        elif n['k'] in ('li', 'td', 'th', 'p') and (re.match(r'\(?\w+[).](\s|$)', H.text_of(('r', (), D.trees(n, {}, None)))) or n['c'] and enumerator(n['c'])):
            return True
    return False


def run(case, st):
    from creole import html2rest
    from creole.emitter.html2rest_emitter import Html2restException
    from creole.rest_tools.clean_writer import rest2html
    shift = first_levels(case)
    if shift is None or not D.valid(case) or enumerator(case['blocks']):
        return
    kw = {'upper': 0, 'extra': 0, 'comments': 0, 'wrap': 0, 'odd_space': False, 'li_p': 0, 'tbody': 0} if case['plain'] else {}
    html = spell.Speller(random.Random(case['seed']), same=SAME, pre_short=True, longest=True, data_img=True, link_markup=0.1, **kw).document(D.doc_tree(case))
    if case.get('conflict'):
        if sum(b['k'] == 'p' and b['c'][0]['k'] in ('a', 'img') and (b['c'][0]['a'].get('href') or b['c'][0]['a'].get('src')) in case['conflict'] for b in case['blocks']) < 2:
            return
        st.count('conflicting link names')
        try:
            return [('conflict', f'{html!r} -> {html2rest(html)!r}: no Html2restException for a link name with two targets')]
        except Html2restException:
            return
    rest = call(html2rest, html)
    messages = io.StringIO()
    back = call(rest2html, rest, warning_stream=messages)
    out = []
    if messages.getvalue():
        out.append(('docutils message', f'{html!r} -> {rest!r}: {messages.getvalue()!r}'))
    want = H.normalise(flat(D.doc_tree(case, RENAME), shift))
    try:
        got = H.normalise(flat(H.parse(back.replace('&nbsp;', '\xa0'))))
    except H.NotWellFormed as err:
        return out + [('malformed', f'{html!r} -> {rest!r} -> {back!r}: {err}')]
    d = H.diff(want, got)
    if d:
        out.append(('round trip', f'{html!r} -> {rest!r} -> {back!r}: {d}'))
    st.count('trees compared')
    st.count('linked images', linked(case['blocks']))
    st.count('items with paragraphs', several(case['blocks']))
    for name, tags in (('tables', ('table',)), ('lists', ('ul', 'ol')), ('preformatted', ('pre',)), ('headings', ('h1', 'h2', 'h3', 'h4', 'h5', 'h6'))):
        st.count(name, sum(b['k'] in tags for b in case['blocks']))
    st.key(D.kinds_of(case['blocks']))
    st.sample(html[:400])
    return out
