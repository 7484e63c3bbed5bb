"""
C18  html2textile writes textile markup that the textile library reads back as the same document
"""
import random
import re

from vf import docgen as D
from vf import htmltree as H
from vf import spell
from vf import words as W
from vf.core import call

CASES = {'quick': 6000, 'thorough': 50000}
RULE = ('random documents (headings, paragraphs, nested lists, tables, preformatted blocks, typefaces, links, images) in random html spellings; the textile library renders the text of '
        'html2textile to the structure, text, link and image targets of the original. Non-trivial: distinct structures.')
MINIMUM = {'trees compared': {'quick': 1800, 'thorough': 40000}, 'tables': 300, 'lists': 300, 'preformatted': 200}
TRANSPARENT = ('font', 'small', 'u')
RENAME = {k: None for k in TRANSPARENT}
SAME = {'strong': ('strong', 'big')}


class Gen(D.DocGen):
    def word(self):
        # no digits ("3x4" is a multiplication sign) and no acronyms
        w = W.word(self.r, self.special, self.uni).lower()
        return re.sub(r'\d', 'd', w).replace('&amp;', '')


    def prelines(self):
        # the library reads marks at the begin of lines and blank lines in preformatted blocks
        r = self.r
        parts = ('<b>&amp;</b>', '|i|', '    k', '#')
        return [self.words() + r.choice(('', '', ' ' + r.choice(parts))) for _ in range(r.randint(1, 5))]


def gen(rng, i, tier):
    g = Gen(rng, url_labels=True, typefaces=('strong', 'b', 'i', 'em', 'sup', 'sub', 'del', 'ins', 'cite', 'code'), transparent=TRANSPARENT, special='$=;', uni=0.1, img_title=True,
            blocks=('p', 'h', 'list', 'table', 'pre'), tail=(',', ';'), image_tail=False, glue=0.25,
            urls=lambda: Gen.url(g).replace('&', ';'),
            nested_ok=lambda parent, child: parent in (None, child))
    doc = g.document(1, 6 if tier == 'quick' or i % 10 else 20)
    for b in doc['blocks']:
        separate_links(b)
    return doc


def separate_links(node):
    """ the library needs a space between a link and the next markup """
    markup = False
    for i, n in reversed(list(enumerate(node.get('c', ())))):
        separate_links(n)
        if n['k'] in ('ul', 'ol', 'li', 'tr', 'td', 'th', 'br'):
            markup = False
        elif n['k'] == 'text':
            markup = markup and ' ' not in n['s']
        else:
            if markup and has_link(n):
                node['c'].insert(i + 1, {'k': 'text', 's': ' '})
            markup = True


def has_link(n):
    return n['k'] == 'a' or any(has_link(c) for c in n.get('c', ()))


def attrs(k, at):
    if k == 'img':
        title, alt = at.get('title', ''), at.get('alt', '')
        text = alt if len(alt) > len(title) else title
        return {'src': at['src'], 'alt': text, 'title': text}
    return at


def flat(node):
    tag, at, children = node
    out = []
    for c in children:
        if isinstance(c, str):
            out.append(c)
        elif c[0] == 'pre':
            out.append(('pre', (), [re.sub(r'[ \t]+\n', '\n', H.text_of(c) + '\n').strip('\n')]))
        elif c[0] in ('thead', 'tbody') or c[0] == 'span':
            out += flat(c)[2]
        else:
            out.append(flat(c))
    return (tag, at, out)


def textile_html(text):
    import textile
    return textile.textile(text)


def run(case, st):
    from creole import html2textile
    if not D.valid(case):
        return
    kw = {'upper': 0, 'extra': 0, 'comments': 0, 'wrap': 0, 'odd_space': False, 'li_p': 0, 'tbody': 0} if case['plain'] else {}
    html = spell.Speller(random.Random(case['seed']), same=SAME, pre_short=True, data_img=True, span=False, head_br=False, **{'li_blocks': 0.3, **kw}).document(D.doc_tree(case))
    text = call(html2textile, html)
    back = textile_html(text)
    want = H.normalise(flat(D.doc_tree(case, RENAME, lambda k, at: attrs(k, at))), preserve={'pre'})
    st.count('trees compared')
    try:
        got = H.normalise(flat(H.parse(back.replace('&#8217;', "'"))), preserve={'pre'})
    except H.NotWellFormed as err:
        return [('malformed', f'{html!r} -> {text!r} -> {back!r}: {err}')]
    for name, tags in (('tables', ('table',)), ('lists', ('ul', 'ol')), ('preformatted', ('pre',))):
        st.count(name, sum(b['k'] in tags for b in case['blocks']))
    st.key(D.kinds_of(case['blocks']))
    st.sample(html[:400])
    d = H.diff(want, got)
    if d:
        return [('round trip', f'{html!r} -> {text!r} -> {back!r}: {d}')]
