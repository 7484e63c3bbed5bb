"""
C14  character references in html stand for their characters, everything else with an ampersand for itself
"""
import re
from html.entities import html5
from urllib.parse import unquote

from vf import words as W
from vf.core import call

CASES = {'quick': 16000, 'thorough': 350000}
RULE = ('all HTML5 names (with semicolon, the legacy ones without, too), decimal and hexadecimal numbers with all spellings, numbers that are no character, and ampersands that '
        'begin no reference, between unique words in 16 contexts (text, cells, headings, links, preformatted areas, attributes) through the four converters. The marked piece of the '
        'output must be the expected characters. Non-trivial: distinct (context, set of references).')
MINIMUM = {'named': {'quick': 18000, 'thorough': 380000}, 'numbers': 10000, 'invalid numbers': 2000, 'literal ampersands': 8000, 'attributes': 1500, 'preformatted': 2500, 'distinct names': 200}
NAMES = sorted(n for n, v in html5.items() if n.endswith(';') and not any(c.isspace() for c in v))
LEGACY = sorted(n for n, v in html5.items() if not n.endswith(';') and not v.isspace())
SPACE = '\x00'

TEXT = {
    'p': '<p>{}</p>', 'plain': '{}', 'b': '<p>a <b>{}</b> c</p>', 'i': 'x <i>{}</i>', 'li': '<ul><li>{}</li><li>a</li></ul>', 'li2': '<ol><li>a<ol><li>{}</li></ol></li></ol>',
    'td': '<table><tr><th>a</th></tr><tr><td>{}</td></tr></table>', 'th': '<table><tr><th>{}</th><th>b</th></tr></table>', 'h': '<h3>{}</h3>', 'div': '<div>{}</div>',
    'a': '<p><a href="/x">{}</a></p>', 'unknown': '<p><foo>{}</foo></p>', 'code': '<p><code>{}</code></p>', 'tt': '<p><tt>{}</tt></p>', 'nested': '<div><b><i>{}</i></b></div>', 'br': 'a<br />{}<br />b',
}
PRE = {'block': 'a\n<pre>\n{}\n</pre>\nb', 'inline': '<p>a <pre>{}</pre> b</p>', 'precode': '<pre><code>{}</code></pre>'}
ATTR = {'href': '<p><a href="{}">label</a></p>', 'alt': '<p><img src="/x" alt="{}"></p>', 'title': '<p><img src="/x" alt="y" title="{}"></p>', 'hrefs': "<p><a href='{}'>label</a></p>"}


def ref(rng, where):
    """ (source, expected text, class) """
    t = rng.random()
    after = rng.choice(('', '', ' ', ';', '=', '"', '.')) if where == 'text' else ''
    if t < 0.4:
        name = rng.choice(NAMES) if rng.random() < 0.6 else rng.choice(('amp;', 'lt;', 'gt;', 'quot;', 'nbsp;', 'AMP;', 'GT;', 'apos;', 'uuml;', 'frac12;', 'Auml;', 'auml;', 'euro;', 'hellip;', 'there4;'))
        return '&' + name, ' ' if name == 'nbsp;' else html5[name], 'named'
    if t < 0.48 and where == 'text':
        name = rng.choice(LEGACY)
        # (a name that goes on with letters or digits is another name)
        tail = rng.choice(('.', ',', '!', ')', '-', '/', '&amp;'))
        return '&' + name + tail, (' ' if name == 'nbsp' else html5[name]) + ('&' if tail == '&amp;' else tail), 'named'
    if t < 0.7:
        while True:
            n = rng.choice((rng.randint(33, 126), rng.randint(161, 700), rng.randint(0x370, 0xd7ff), rng.randint(0xe000, 0xfffd), rng.randint(0x10000, 0x10ffff), 38, 60, 62, 34, 39, 35, 59))
            c = chr(n)
            if not c.isspace() and not 0x2028 <= n <= 0x2029 and not 0xfdd0 <= n <= 0xfdef and n & 0xfffe != 0xfffe:
                break
        semi = ';'
        if where == 'text' and rng.random() < 0.15:
            semi = rng.choice(('.', '!', '-', ')'))
        how = rng.choice(('&#%d', '&#%d', '&#x%x', '&#X%x', '&#x%X', '&#%06d', '&#x00%x', '&#%012d', '&#x%025x')) % n
        return how + semi, c + (semi if semi != ';' else ''), 'numbers'
    if t < 0.78:
        n = rng.choice((0xd800, 0xdfff, 0xdc00, 0x110000, 0x7fffffff, 10**12, rng.randint(0xd800, 0xdfff), rng.randint(0x110000, 10**8), 10**30))
        return rng.choice(('&#%d;', '&#x%x;', '&#X%X;')) % n, '�', 'invalid numbers'
    s = rng.choice(('&', '&&', '&;', '&#;', '&#x;', '&#xg;', '&#a', '&foo;', '&Foo', '&nosuchname;', '&notin', '&ampx;', '&ltx', '&1', '&amp1;', '&_', '&-', '&=', '&é;', '&&&', '&quo;', '&x=1', '&#-1;', '&#x-1;', '&.', '&/', '&#', '&#x'))
    if where == 'pre' and rng.random() < 0.3:
        s = rng.choice(('&amp', '&lt', '&copy', '&#65', '&#x41'))
    if after == ';' and s[-1].isalnum():
        after = '-'
    return s + after, s + after, 'literal ampersands'


def gen(rng, i, tier):
    t = rng.random()
    where = 'text' if t < 0.6 else 'pre' if t < 0.85 else 'attr'
    ctx = rng.choice(sorted({'text': TEXT, 'pre': PRE, 'attr': ATTR}[where]))
    pieces = []
    for n in range(rng.randint(1, 6) if rng.random() < 0.98 else rng.randint(10, 120)):
        pieces.append(list(ref(rng, where)))
        if rng.random() < 0.2 and where != 'attr':
            # two without a word between them
            pieces[-1].append('glued')
    return {'where': where, 'ctx': ctx, 'parts': pieces}


def run(case, st):
    import creole
    where, ctx = case['where'], case['ctx']
    src, want = 'q0q', 'q0q'
    for n, p in enumerate(case['parts']):
        s, w, cls = p[0], p[1], p[2]
        tail = '' if len(p) > 3 and s.endswith(';') and n + 1 < len(case['parts']) else '-' if s[-1:].isalnum() or s.endswith('#') else ''
        tail += '' if len(p) > 3 and s.endswith(';') and n + 1 < len(case['parts']) else f'.q{n + 1}q'
        src += s + tail
        want += w + tail
        st.count(cls)
    template = {'text': TEXT, 'pre': PRE, 'attr': ATTR}[where][ctx]
    if where == 'attr' and ('"' in src or "'" in src):
        return
    html = template.format(src) if '{' not in src else template.replace('{}', src)
    last = re.findall(r'q\d+q', want)[-1]
    squash = where != 'pre'

    def norm(s):
        if where == 'attr':
            s = s.replace('\xa0', ' ')    # both kinds of spaces are fine in attributes
        return re.sub(r' +', ' ', s) if squash else s
    for name in ('html2creole', 'html2textile', 'html2markdown', 'html2rest'):
        out = call(getattr(creole, name), html)
        shown = out
        if where == 'attr' and name == 'html2markdown' and ctx.startswith('href'):
            shown = unquote(out)
            if unquote(want) != want:
                continue
        if ctx == 'title' and name == 'html2markdown':
            # (a quote sign would end the title)
            shown = shown.replace('&quot;', '"')
        a = shown.find('q0q')
        b = shown.find(last, a) + len(last)
        got = shown[a:b] if a >= 0 and b >= len(last) else None
        wanted = want.replace('&quot;', '"') if ctx == 'title' else want
        if got is None or norm(got if ctx != 'title' else got.replace('&quot;', '"')) != norm(wanted):
            return [('reference', f'{name}({html!r}) -> {out!r}: shows {got!r} instead of {want!r}')]
    st.count({'pre': 'preformatted', 'attr': 'attributes', 'text': 'texts'}[where])
    for p in case['parts']:
        if p[2] == 'named':
            st.key('name', re.match(r'&(\w+)', p[0])[1])
    st.key(ctx, sorted(p[0] for p in case['parts']))
    st.sample(html)


def finish(seed, tier, st):
    """ every name once, in text and in a preformatted area """
    import creole
    for n, name in enumerate(sorted(html5)):
        if any(c.isspace() for c in html5[name]) and name not in ('nbsp', 'nbsp;'):
            continue
        want = f'q{" " if name.startswith("nbsp") else html5[name]}-'
        st.count('distinct names')
        texts = [f'<p>q&{name}-</p>'] + ([f'<pre>q&{name}-</pre>'] if name.endswith(';') else [])
        for html in texts:
            fn = getattr(creole, ('html2creole', 'html2textile', 'html2markdown', 'html2rest')[n % 4])
            out = call(fn, html)
            if want not in out:
                yield 'reference', f'{fn.__name__}({html!r}) -> {out!r}: {want!r} expected', {'where': 'text' if '<p>' in html else 'pre', 'ctx': 'p' if '<p>' in html else 'inline', 'parts': [[f'&{name}', html5[name], 'named']]}
                return
