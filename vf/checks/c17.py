"""
C17  html2markdown writes Markdown that Markdown renderers read back as the same document
"""
import json
import random
import re

from vf import docgen as D
from vf import htmltree as H
from vf import spell
from vf import words as W
from vf.core import call

CASES = {'quick': 14000, 'thorough': 60000}
RULE = ('random documents (headings, paragraphs, nested lists, tables with head, preformatted blocks, rulers, nested typefaces, links and images with titles) in random html spellings; '
        'commonmark (documents without tables) and Python-Markdown (documents without nested lists) render the text of html2markdown to the structure, text, targets and titles of the original. '
        'Non-trivial: distinct structures.')
MINIMUM = {'commonmark': {'quick': 1200, 'thorough': 25000}, 'Python-Markdown': {'quick': 1200, 'thorough': 25000}, 'tables': 300, 'nested lists': 200, 'blocks in items': 80, 'code blocks with language': 100}
TRANSPARENT = ('span', 'font', 'cite')
RENAME = {'i': 'em', 'tt': 'code', 'br': lambda n, c: [' '], **{k: None for k in TRANSPARENT}}
SAME = {'strong': ('strong', 'b', 'big'), 'i': ('i', 'em'), 'tt': ('tt', 'code')}
LANGUAGES = ('python', 'c', 'html', 'c++', 'objective-c', 'c#', 'f90', 'vb.net', 'a_b', 'X')


def blocks_in_items(rng, g, b):
    for item in b['c']:
        sub = [x for x in item['c'] if x['k'] in ('ul', 'ol')]
        own = [x for x in item['c'] if x['k'] not in ('ul', 'ol')]
        if rng.random() < 0.4:
            own = [{'k': 'p', 'a': {}, 'c': own}]
            for _ in range(rng.randint(1, 2)):
                own.append({'k': 'pre', 'a': {}, 'lines': g.pre_lines()} if rng.random() < 0.3 else {'k': 'p', 'a': {}, 'c': g.inlines()})
            item['c'] = own + sub
        for x in sub:
            blocks_in_items(rng, g, x)


def backticks(rng, nodes):
    for n in nodes:
        if n['k'] == 'tt' and rng.random() < 0.2:
            n['c'] = [{'k': 'text', 's': rng.choice(('`a', 'a`', 'a``b', '`', 'a ` b', '``', 'f("`")', '`a` b', 'a``` `c'))}]
        backticks(rng, n.get('c', ()))


def titles(rng, g, nodes):
    """ titles with quote signs and other characters """
    for n in nodes:
        if 'title' in n['a'] if n['k'] in ('a', 'img') else False:
            if n['k'] == 'a' and rng.random() < 0.15:
                n['a']['title'] = ''.join(c['s'] for c in n['c'] if c['k'] == 'text') or 'x'    # the same as the link text
            elif rng.random() < 0.4:
                n['a']['title'] = rng.choice(('"{}"', '{} "{}', '{}" {}', "{}'s \"{}\"", '({}) {}', '{} <{}>', '{} = 1; {}?')).format(g.word(), g.word())
        titles(rng, g, n.get('c', ()))


def gen(rng, i, tier):
    blocks = ['p', 'h', 'list', 'pre', 'hr']
    tables = rng.random() < 0.5
    g = D.DocGen(rng, url_labels=True, typefaces=('strong', 'i', 'tt', 'sup', 'sub', 'u', 'small'), transparent=TRANSPARENT, nested=True, special='\'"%$=+?(', uni=0.15, link_title=True, img_title=True,
                 blocks=tuple(blocks + ['table']) if tables else tuple(blocks), header='always', glue=0.25, tail=(',', ';', ':', '?'))
    if tables:
        g.nested_ok = lambda parent, child: parent is None
    if rng.random() < 0.1:
        g.urls = g.src = lambda: rng.choice(('/{}({})', '/{}({}', '/{}){}', 'http://x.y/{}_({}).png', '/(({}){}', '{}/{}))')).format(W.plain(rng), W.plain(rng))
    doc = g.document(1, 6 if tier == 'quick' or i % 10 else 20)
    for b in doc['blocks']:
        if b['k'] in ('ul', 'ol') and not tables and rng.random() < 0.25:
            blocks_in_items(rng, g, b)
        backticks(rng, b.get('c', ()))
        titles(rng, g, b.get('c', ()))
        if b['k'] == 'pre' and rng.random() < 0.4:
            b['lang'] = rng.choice(LANGUAGES)
        if b['k'] == 'pre' and rng.random() < 0.15:
            b['lines'].insert(rng.randint(0, len(b['lines'])), rng.choice(('```', '````', '~~~', '  ```')))
            if b['lines'][0].startswith(' '):
                b['lines'].reverse()
            if b['lines'][0].startswith(' '):
                b['lines'][0] = 'x'
    return doc


def nested(nodes, depth=0):
    return any(n['k'] in ('ul', 'ol') and (depth or nested(n['c'], 1)) or nested(n.get('c', ()), depth) for n in nodes)


def blocks_in(nodes):
    return any(n['k'] in ('ul', 'ol') and any(x['c'][0]['k'] == 'p' or blocks_in(x['c']) for x in n['c']) for n in nodes)


def plain(case):
    """ code can begin and end with backticks """
    return json.loads(json.dumps(case).replace('`', 'x'))


def flat(node):
    """ one spelling of what the renderers write in different ways """
    tag, at, children = node
    # brackets can be written in both ways
    at = tuple((k, v.replace('(', '%28').replace(')', '%29') if k in ('href', 'src') else v) for k, v in at)
    out = []
    for c in children:
        if isinstance(c, str):
            out.append(c)
        elif c[0] == 'pre':
            inner = c[2][0] if len(c[2]) == 1 and not isinstance(c[2][0], str) else c
            lang = dict(inner[1]).get('class', '') or dict(c[1]).get('lang', '')
            text = ''.join(x for x in inner[2] if isinstance(x, str))
            out.append(('pre', (('lang', lang.removeprefix('language-')),), [re.sub(r'[ \t]+\n', '\n', text + '\n').strip('\n')]))
        elif c[0] == 'p' and tag == 'li' and sum(not isinstance(x, str) and x[0] == 'p' for x in children) == 1 or c[0] in ('thead', 'tbody'):
            out += flat(c)[2]
        else:
            out.append(flat(c))
    return (tag, at, out)


class Speller(spell.Speller):
    """ with code in pre """
    def node(self, node, depth=0):
        if node[0] == 'pre':
            lang = dict(node[1]).get('lang')
            body = ''.join(self.raw(c) for c in node[2])
            highlighted = self.r.random() < 0.3
            if highlighted:
                body = re.sub(r'\w+(?=\s)', lambda m: self.r.choice(('<span class="k">{}</span>', '<b>{}</b>', '<em class=x>{}</em>', '<a href="#l">{}</a>', '{}', '{}', '{}')).format(m[0]), body)
            if lang:
                return f'<pre><code class="language-{lang}">{body}</code></pre>'
            return f'<pre>{body}</pre>' if not highlighted and self.p(0.5) else f'<pre><code>{body}</code></pre>'
        return super().node(node, depth)


def tree_of(case, rename=None):
    def attrs(k, at):
        return at
    blocks = []
    for b in case['blocks']:
        t = D.trees(b, rename or {}, attrs)
        if b['k'] == 'pre':
            t = [('pre', (('lang', b['lang']),) if b.get('lang') else (), t[0][2])]
        blocks += t
    return ('r', (), blocks)


def commonmark_html(text):
    import commonmark
    return commonmark.commonmark(text)


def markdown_html(text):
    import markdown
    return markdown.markdown(text, extensions=['tables', 'fenced_code'])


def run(case, st):
    from creole import html2markdown
    if not D.valid(plain(case)) or any(b['k'] == 'table' and b['c'][0]['c'][0]['k'] != 'th' for b in case['blocks']):
        return
    kw = {'upper': 0, 'extra': 0, 'comments': 0, 'wrap': 0, 'odd_space': False, 'li_p': 0, 'tbody': 0} if case['plain'] else {}
    html = Speller(random.Random(case['seed']), same=SAME, **kw).document(tree_of(case))
    text = call(html2markdown, html)
    want = H.normalise(flat(tree_of(case, RENAME)), preserve={'pre'})
    out = []
    tables = any(b['k'] == 'table' for b in case['blocks'])
    for name, render, use in (('commonmark', commonmark_html, not tables), ('Python-Markdown', markdown_html, not nested(case['blocks']) and not blocks_in(case['blocks']))):
        if not use:
            continue
        back = render(text)
        st.count(name)
        try:
            got = H.normalise(flat(H.parse(re.sub(r'<(/?)(thead|tbody)>', '', back))), preserve={'pre'})
        except H.NotWellFormed as err:
            out.append(('malformed', f'{name}: {html!r} -> {text!r} -> {back!r}: {err}'))
            continue
        d = H.diff(want, got)
        if d:
            out.append(('round trip', f'{name}: {html!r} -> {text!r} -> {back!r}: {d}'))
    st.count('tables', tables)
    st.count('blocks in items', blocks_in(case['blocks']))
    st.count('nested lists', nested(case['blocks']))
    st.count('code blocks with language', sum('lang' in b for b in case['blocks']))
    st.key(D.kinds_of(case['blocks']))
    st.sample(html[:400])
    return out
