"""
C21  pypi_rest2html: a document passes if and only if it has no problem and every target has an allowed scheme
"""
import contextlib
import io
import re

from vf import htmltree as H
from vf import restgen as G
from vf import words as W
from vf.checks import c20
from vf.core import SutError, call

CASES = {'quick': 9000, 'thorough': 80000}
RULE = ('(a) random well-formed ReSt documents whose targets (links, references, images, figures, in any block) have allowed, forbidden or no schemes in any spelling; (b) hostile fragments of C20. '
        'The monitor compares acceptance with the schemes of the document and the messages of docutils, and reads every target and word of the html. Non-trivial: distinct structures.')
MINIMUM = {'accepted': {'quick': 600, 'thorough': 8000}, 'forbidden scheme': {'quick': 500, 'thorough': 6000}, 'markup problems': 500, 'targets in html': 1000, 'file directives': 500}
ALLOWED = set('file ftp gopher hdl http https imap mailto mms news nntp prospero rsync rtsp rtspu sftp shttp sip sips snews svn svn+ssh telnet wais irc'.split())
FORBIDDEN = ('javascript:{0}', 'data:text/html,{0}', 'vbscript:{0}', 'about:{0}', '/{0}', '{0}/x.html', '{0}', 'tel:{0}', 'httpx://{0}', 'JavaScript:{0}', '//{0}/x', '?{0}', 'blob:{0}', 'ws://{0}', 'x+http://{0}', 'jar:http://{0}', 'git+ssh://{0}', 'http+svn://{0}')


setup = c20.setup


def gen(rng, i, tier):
    if rng.random() < 0.25:
        return {'parts': [c20.fragment(rng) for _ in range(rng.randint(1, 4))]}
    bad = rng.choice((0, 0.05, 0.3))

    def url():
        a, b = W.plain(rng), W.plain(rng)
        if rng.random() < bad:
            return rng.choice(FORBIDDEN).format(a)
        s = rng.choice(('http', 'https', 'ftp', 'mailto', 'news', 'svn+ssh', 'irc', rng.choice(sorted(ALLOWED)), 'HTTP', 'Https'))
        return f'{s}:{"" if s in ("mailto", "news", "sip", "sips") else "//"}{a}.{b}'
    # a figure or image has no url() in the generator
    doc = G.Gen(rng, url, rng.choice(('http://x.y', 'https://h', 'ftp://z')) if rng.random() > bad else rng.choice(('', 'data:', 'x:'))).document(1, 5)
    for part in ('header', 'footer'):    # no part of the fragment that PyPI shows
        doc.pop(part, None)
    doc['bytes'] = rng.random() < 0.2
    return doc


def targets(x):
    if isinstance(x, dict):
        k = x.get('k')
        if k in ('link', 'ref', 'anon'):
            yield x['url']
        elif k == 'url':
            yield x['s']
        elif k in ('img', 'image', 'figure'):
            yield x['src']
        if k == 'image' and x['target']:
            yield x['target']
        for v in x.values():
            yield from targets(v)
    elif isinstance(x, list):
        for v in x:
            yield from targets(v)


def scheme(url):
    m = re.match(r'([A-Za-z][A-Za-z0-9+.-]*):', url)
    return m[1].lower() if m else ''


def problems(source):
    """ what docutils says """
    from docutils import nodes
    from docutils.core import publish_doctree
    tree = publish_doctree(source, settings_overrides={'raw_enabled': 0, 'file_insertion_enabled': 0, 'halt_level': 5, 'report_level': 2, 'warning_stream': io.StringIO()})
    return [m.astext() for m in tree.findall(nodes.system_message) if m['level'] >= 2] + [m.astext() for m in tree.transform_messages if m['level'] >= 2]


def words(node, out):
    """ the text in the order of the document, every element separates words except inline ones """
    for c in node[2]:
        if isinstance(c, str):
            out.append(c.replace('\xa0', ' '))
        else:
            sep = '' if c[0] in ('em', 'strong', 'tt', 'code', 'a', 'sup', 'sub', 'span') else ' '
            out.append(sep)
            words(c, out)
            out.append(sep)
    return out


def run(case, st):
    from docutils.transforms import TransformError
    from docutils.utils import SystemMessage

    from creole.rest_tools.pypi_rest2html import pypi_rest2html
    canary = c20.canary_file()
    model = 'parts' not in case
    if model:
        if not G.valid(case):
            return
        source = G.Writer().document(case)
    else:
        source = '\n\n'.join(case['parts'])
        st.count('file directives', source.count('CANARY'))
        source = source.replace('CANARY', canary)
    kw = {'output_encoding': 'utf-8'} if case.get('bytes') else {}
    del c20._opened[:]
    error = html = None
    try:
        # docutils writes the message that stops it
        with contextlib.redirect_stderr(io.StringIO()):
            html = call(pypi_rest2html, source, **kw)
    except SutError as err:
        error = err.__cause__
        if not isinstance(error, (TransformError, SystemMessage)):
            raise
    out = []
    if c20._opened:
        out.append(('file access', f'{source!r}: opened {c20._opened}'))
    st.key(tuple(re.findall(r'\.\. *(\w+)::', source)), type(error).__name__, len(source) // 40)
    bad = [t for t in targets(case) if scheme(t) not in ALLOWED] if model else []
    if model:
        if bad:
            st.count('forbidden scheme')
        if bool(bad) != isinstance(error, TransformError) or isinstance(error, SystemMessage):
            return out + [('gate', f'{source!r}: {error!r}, targets with other schemes: {bad}')]
    else:
        found = problems(source)
        st.count('markup problems', bool(found))
        if bool(found) != isinstance(error, SystemMessage):
            return out + [('problem', f'{source!r}: {error!r}, docutils reports {found}')]
    if error is not None:
        return out
    st.count('accepted')
    if kw:
        if not isinstance(html, bytes):
            return out + [('encoding', f'{source!r} -> {html!r}')]
        html = html.decode('utf-8')
    if c20.CANARY in html:
        out.append(('file content', f'{source!r} -> {html!r}'))
    if re.search(r'<script|<iframe', re.sub(r'<!--.*?-->', '', html, flags=re.DOTALL), re.I):
        out.append(('raw html', f'{source!r} -> {html!r}'))
    try:
        tree = c20.parse(html)
    except H.NotWellFormed as err:
        return out + [('malformed', f'{source!r} -> {html!r}: {err}')]
    got = []
    for (tag, at, _), parents in H.iter_nodes(tree):
        for k, v in at:
            if k in ('href', 'src', 'data'):
                st.count('targets in html')
                got.append(v)
                if not v.startswith('#') and scheme(v) not in ALLOWED:
                    out.append(('target', f'{source!r} -> {html!r}: {v!r}'))
    # a title and a field list at the begin of the document become the title and the docinfo of the page, they aren't in the body
    if model and not any(b['k'] in ('h', 'comment', 'fields') for b in case['blocks']):
        want = list(targets(case))
        if sorted(got) != sorted(want):
            out.append(('targets', f'{source!r} -> {html!r}: targets {sorted(set(got) ^ set(want))}'))
        w, g = (''.join(words(t, [])).split() for t in (G.expected(case), tree))
        if w != g:
            out.append(('words', f'{source!r} -> {html!r}: {w} {g}'))
    st.sample(source[:300])
    return out
