"""
C32  chains of converters: the html that real renderers write goes into the next html converter, and the document stays the same
"""
import io
import random
import re

from vf import docgen as D
from vf import htmltree as H
from vf import spell
from vf import words as W
from vf.checks.c16 import enumerator
from vf.checks.c18 import separate_links
from vf.core import call

CASES = {'quick': 6000, 'thorough': 40000}
RULE = ('random documents of the common subset of all languages (headings, paragraphs, nested lists, tables with head, preformatted blocks, typefaces, links, images) in random html spellings go through '
        'random chains of 2 to 5 hops: html -> markup with html2creole / html2rest / html2markdown / html2textile, markup -> html with creole2html, rest2html, pypi_rest2html, docutils (html4, html5), '
        'commonmark, Python-Markdown, the textile library. After every hop the html has the structure, text and targets of the original. Non-trivial: distinct (structure, chain).')
MINIMUM = {'hops': {'quick': 5000, 'thorough': 60000}, 'tables': 200, 'lists': 500, 'preformatted': 200}
SAME = {'strong': ('strong', 'b', 'big'), 'i': ('i', 'em')}
NAMES = {'i': 'em', 'b': 'strong', 'code': 'tt'}


class Gen(D.DocGen):
    def word(self):
        # no digits ("3x4" is a multiplication sign in textile) and no acronyms
        w = W.word(self.r, self.special, self.uni).lower()
        return re.sub(r'\d', 'd', w).replace('&amp;', '')

    def prelines(self):
        # the textile library reads marks at the begin of lines and blank lines in preformatted blocks
        r = self.r
        parts = ('<b>&amp;</b>', '|i|', '    k', '#', '<!-- c -->', '&lt;', '**a**')
        return [self.words() + r.choice(('', '', ' ' + r.choice(parts))) for _ in range(r.randint(2, 5))]

    def image(self):
        return super().image()


def gen(rng, i, tier):
    tables = rng.random() < 0.4
    g = Gen(rng, typefaces=('strong', 'i', 'tt'), special='$=;', uni=0.1, br=False, blocks=('p', 'h', 'list', 'pre') + (('table',) if tables else ()), tail=(',', ';'), image_tail=False, glue=0.25, header='always', head_inline=False,
            empty_cells=False, urls=lambda: rng.choice(('http://{}.{}/{}', 'https://{}/{}?{}=b', 'https://{}.{}/{}/')).format(*(W.plain(rng) for _ in range(3))),
            nested_ok=(lambda parent, child: parent is None) if tables else (lambda parent, child: parent in (None, child)))
    g.src = lambda: rng.choice(('http://{}.com/{}.png', 'https://{}.org/{}.jpg', 'http://{}.net/a/{}.gif?a=b')).format(W.plain(rng), W.plain(rng))
    doc = g.document(1, 5 if tier == 'quick' or i % 10 else 15)
    for b in doc['blocks']:
        separate_links(b)
    levels = [b for b in doc['blocks'] if re.match(r'h\d', b['k'])]
    if levels:    # ReSt has no absolute levels
        base = int(levels[0]['k'][1]) - 1
        for b in levels:
            b['k'] = f'h{int(b["k"][1]) - base}'
    doc['chain'] = [rng.choice(sorted(HOPS)) for _ in range(rng.randint(2, 5))]
    return doc


def docutils_html(writer, rest):
    from docutils.core import publish_parts
    messages = io.StringIO()
    html = publish_parts(rest, writer_name=writer, settings_overrides={'doctitle_xform': False, 'initial_header_level': 1, 'warning_stream': messages, 'input_encoding': 'unicode'})['html_body']
    assert not messages.getvalue(), messages.getvalue()
    return html


def clean_rest(rest):
    from creole.rest_tools.clean_writer import rest2html
    messages = io.StringIO()
    html = call(rest2html, rest, warning_stream=messages)
    assert not messages.getvalue(), messages.getvalue()
    return html


def pypi(rest):
    from creole.rest_tools.pypi_rest2html import pypi_rest2html
    return call(pypi_rest2html, rest)


def markdown(text):
    import markdown
    return markdown.markdown(text, extensions=['tables', 'fenced_code'])


def commonmark(text):
    import commonmark
    return commonmark.commonmark(text)


def textile(text):
    import textile
    return textile.textile(text)


def creole(name, **kw):
    def f(text):
        import creole
        return call(getattr(creole, name), text, **kw)
    return f


TO = {'creole': creole('html2creole'), 'strict': creole('html2creole', strict=True), 'rest': creole('html2rest'), 'markdown': creole('html2markdown'), 'textile': creole('html2textile')}
HOPS = {
    'creole': ('creole', creole('creole2html')), 'creole strict': ('strict', creole('creole2html', strict=True)), 'creole wiki': ('creole', creole('creole2html', blog_line_breaks=False)),
    'rest': ('rest', clean_rest), 'pypi': ('rest', pypi), 'docutils html4': ('rest', lambda t: docutils_html('html4css1', t)), 'docutils html5': ('rest', lambda t: docutils_html('html5', t)),
    'markdown': ('markdown', markdown), 'commonmark': ('markdown', commonmark), 'textile': ('textile', textile),
}


def flat(node, code=True):
    """ only the structure that all languages know """
    tag, at, children = node
    out = []
    for c in children:
        if isinstance(c, str):
            out.append(c.replace('\xa0', ' '))
        elif c[0] == 'colgroup' or c[0] == 'col':
            continue
        elif c[0] == 'pre':
            text = re.sub(r'[ \t]+\n', '\n', H.text_of(c) + '\n').strip('\n')
            out.append(('pre', (), [text]))
        elif c[0] in ('thead', 'tbody', 'div', 'span', 'section', 'main', 'cite', 'blockquote') or c[0] == 'p' and tag in ('li', 'td', 'th') or not code and c[0] in ('tt', 'code'):
            out += [' ', *flat(c, code)[2], ' '] if c[0] not in ('span', 'tt', 'code') else flat(c, code)[2]
        elif c[0] == 'p' and [x[0] for x in c[2] if not isinstance(x, str)] == ['img'] and not ''.join(x for x in c[2] if isinstance(x, str)).strip():
            out += [' ', *flat(c, code)[2], ' ']    # an image as its own block
        else:
            out.append(flat(c, code))
    tag = NAMES.get(tag, tag)
    keep = {'a': ('href',), 'img': ('src', 'alt')}.get(tag, ())
    return (tag, tuple((k, v) for k, v in at if k in keep), out)


def fits(name, case):
    from vf.checks.c17 import nested
    tables = any(b['k'] == 'table' for b in case['blocks'])
    if name == 'pypi' and case['blocks'][0]['k'][0] == 'h':    # the title of the document is no part of PyPI's fragment
        return False
    return not (name == 'commonmark' and tables or name == 'markdown' and nested(case['blocks']))


def run(case, st):
    levels = [int(b['k'][1]) for b in case['blocks'] if re.match(r'h\d', b['k'])]
    if not D.valid(case) or enumerator(case["blocks"]) or any(b - a > 1 for a, b in zip([0] + levels, levels)) or any(b['k'] == 'table' and b['c'][0]['c'][0]['k'] != 'th' for b in case['blocks']):
        return
    if any(b['k'] == 'pre' and len(b['lines']) < 2 for b in case['blocks']):    # "<pre>a</pre>" is written as "{{{a}}}" in creole, an inline element
        return
    kw = {'upper': 0, 'extra': 0, 'comments': 0, 'wrap': 0, 'odd_space': False, 'li_p': 0, 'tbody': 0} if case['plain'] else {}
    html = spell.Speller(random.Random(case['seed']), same=SAME, pre_short=True, span=False, head_br='textile' not in case['chain'], **kw).document(D.doc_tree(case))
    # html2textile has no <tt>, docutils writes a <span>, and html2creole doesn't know the <code> of markdown
    code = not any(name in ('textile', 'docutils html5') for name in case['chain'])
    code = code and not (any(HOPS[name][0] == 'markdown' for name in case['chain']) and any(HOPS[name][0] in ('creole', 'strict') for name in case['chain']))
    want = H.normalise(flat(D.doc_tree(case), code), preserve={'pre'})
    seen = [html]
    before = ''
    for name in case['chain']:
        if not fits(name, case) or (before, name) == ('docutils html5', 'textile'):    # nested <span> tags are no part of textile
            continue
        before = name
        to, render = HOPS[name]
        text = TO[to](html)
        html = render(text)
        seen += [text, html]
        st.count('hops')
        st.count(f'hop {name}')
        try:
            got = H.normalise(flat(H.parse(re.sub('&nbsp;', '\xa0', html)), code), preserve={'pre'})
        except H.NotWellFormed as err:
            return [('malformed', f'{case["chain"]}: {seen}: {err}')]
        d = H.diff(want, got)
        if d:
            return [('chain', f'{case["chain"]} {name}: {" -> ".join(map(repr, seen))}: {d}')]
    for name, tags in (('tables', ('table',)), ('lists', ('ul', 'ol')), ('preformatted', ('pre',))):
        st.count(name, sum(b['k'] in tags for b in case['blocks']))
    st.key(D.kinds_of(case['blocks']), tuple(case['chain']))
    st.sample(' -> '.join(seen)[:600])
