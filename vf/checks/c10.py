"""
C10  the table of contents lists exactly the headlines and its links reach them
"""
from vf import creolegen as G
from vf import htmltree as H
from vf import words as W
from vf.core import call

CASES = {'quick': 16000, 'thorough': 400000}
RULE = ('documents with 0 to 120 headlines (levels 1 to 9 in any order, hostile text, duplicates) and other blocks, the toc tag at '
        'any place, with every depth and spelling, repeated tags, tags in nowiki: the nesting, order, text and link of the entries '
        'are those of the source, each target is an anchor at its headline, and the rest is the document without toc. '
        'Non-trivial: distinct (level sequence, depth, place).')
MINIMUM = {'entries': {'quick': 30000, 'thorough': 800000}, 'with depth': 2000, 'headlines before the toc': 2000, 'no toc': 500}
PARTS = ['**a**', '//b//', '<b>', '&', '"q"', '[[c]]', '{{d}}', '~e', "it's", 'a=b', '{{{f}}}', 'g|h', '#i', '<<k>>', '&amp;', 'é', '<<toc', '>', '%', '%20', ':', '-->']


def gen(rng, i, tier):
    blocks = []
    pool = []
    for _ in range(rng.randint(0, 12) if rng.random() < 0.97 else rng.randint(20, 120)):
        t = rng.random()
        if t < 0.75:
            if pool and rng.random() < 0.15:
                text = rng.choice(pool)
            else:
                text = W.word(rng)
                for _ in range(rng.randint(0, 2)):
                    text += ' ' + (rng.choice(PARTS) if rng.random() < 0.5 else W.word(rng))
                if rng.random() < 0.05:
                    text = rng.choice(('= ', '=')) + text if rng.random() < 0.5 else text
                if text.endswith('='):
                    text += 'x'
                text += rng.choice(('', ' ' + W.plain(rng)))
            pool.append(text)
            blocks.append({'h': rng.choice((1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 9)), 'text': text, 'tail': rng.choice(('', ' =', ' ===='))})
        elif t < 0.95:
            g = G.Gen(rng, features={'typeface', 'link', 'list', 'table', 'hr'})
            b = g.block()
            while b['k'] == 'h':
                b = g.block()
            blocks.append({'src': G.write({'blocks': [b]})})
        else:
            blocks.append({'src': rng.choice(('{{{\n<<toc>>\n}}}', 'a {{{<<toc>>}}} b', 'a ~<<toc>> b'))})
    n = rng.choice((0, 1, 1, 1, 1, 1, 1, 2, 3))
    depth = rng.choice((None, None, 0, 1, 2, 3, 4, 5, 6, 9))
    form = rng.choice(('<<toc%s>>', '<<toc%s>>', '<<toc%s />>'))
    q = rng.choice(('', '"', "'"))
    for k in range(n):
        tag = form % ('' if depth is None else f' depth={q}{depth}{q}')
        blocks.insert(rng.randint(0, len(blocks)), {'toc': tag})
    return {'blocks': blocks, 'depth': depth if n else None, 'blog': rng.random() < 0.6, 'macros': rng.choice((None, 'dict', 'object', 'other'))}


def entries(node, depth, out):
    """ (depth, text, href) of a parsed toc; None marks the borders of the lists """
    for c in node[2]:
        if isinstance(c, str):
            if c.strip():
                out.append(('text', c))
        elif c[0] == 'ul':
            out.append('open')
            entries(c, depth + 1, out)
            out.append('close')
        elif c[0] == 'li' and len(c[2]) == 1 and not isinstance(c[2][0], str) and c[2][0][0] == 'a':
            a = c[2][0]
            out.append((depth, H.text_of(a), dict(a[1]).get('href')))
        else:
            out.append(('unexpected', H.show(c)))


def run(case, st):
    from creole import creole2html
    blocks = case['blocks']
    tocs = [n for n, b in enumerate(blocks) if 'toc' in b]

    def text_of(b):
        if 'h' in b:
            return '=' * b['h'] + ' ' + b['text'] + b['tail']
        return b.get('src') or b['toc']
    src = '\n\n'.join(['begin'] + [text_of(b) for b in blocks] + ['end'])
    if any('h' in b and not b['text'].strip(' =') for b in blocks):
        return
    macros = {None: None, 'dict': {}, 'other': {'nope': lambda **kw: ''}, 'object': object()}[case['macros']]
    kw = {'blog_line_breaks': case['blog'], 'macros': macros}
    html = call(creole2html, src, **kw)
    what = f'creole2html({src!r}, {case["macros"]}) -> {html!r}'
    try:
        got = H.parse(html)
        # unwrap the anchors
        names = []
        for n, c in enumerate(got[2] if tocs else ()):
            if not isinstance(c, str) and c[0] == 'a':
                if len(c[2]) != 1 or isinstance(c[2][0], str) or [k for k, _ in c[1]] != ['name'] or c[2][0][0] not in ('h1', 'h2', 'h3', 'h4', 'h5', 'h6'):
                    return [('anchor', f'{what}: {H.show(c)}')]
                names.append(c[1][0][1])
                got[2][n] = c[2][0]
        got = H.normalise(got)
        # the rest of the document
        plain = ['begin'] + [text_of(b) for b in blocks if 'toc' not in b] + ['end']
        rest = H.normalise(H.parse(call(creole2html, '\n\n'.join(plain), **kw)))
    except H.NotWellFormed as err:
        return [('malformed', f'{what}: {err}')]
    if not tocs:
        st.count('no toc')
        for node, _ in H.iter_nodes(got):
            if node[0] == 'a' and 'name' in dict(node[1]):
                return [('anchor', f'{what}: anchor without toc')]
        return
    heads = [(min(b['h'], 6), b['text'].strip()) for b in blocks if 'h' in b]
    if case['depth'] is not None:
        st.count('with depth')
    if any('h' in b for b in blocks[:tocs[0]]):
        st.count('headlines before the toc')
    # expected entries
    events, level = [], 0
    shown = [(lv, t) for lv, t in heads if case['depth'] is None or lv <= case['depth']]
    first = True
    for lv, t in shown:
        while level > lv:
            events.append('close')
            level -= 1
        while level < lv:
            events.append('open')
            level += 1
        events.append((lv, t, '#' + t))
    if not shown:
        events = ['open']
        level = 1
    events += ['close'] * level
    st.count('entries', len(shown))

    # take the document apart: one child of the root at the place of the first toc, literal text for the others
    where = 0
    children = list(got[2])
    # find the expected position: number of root nodes the blocks before create
    before = ['begin'] + [text_of(b) for b in blocks[:tocs[0]]]
    pre = H.normalise(H.parse(call(creole2html, '\n\n'.join(before), **kw)))
    where = len(pre[2])
    if where >= len(children):
        return [('place', f'{what}: no toc at its place')]
    toc = children.pop(where)
    seen = []
    entries(('r', (), [toc]), 0, seen)
    seen = [e if isinstance(e, str) or len(e) < 3 else (e[0], e[1], e[2]) for e in seen]
    want = [e if isinstance(e, str) else (e[0], e[1], e[2]) for e in events]
    if [norm(e) for e in seen] != [norm(e) for e in want]:
        return [('entries', f'{what}: the toc is {seen!r}, expected {want!r}')]
    flat = []
    literal = 0
    for c in children:
        if c == ('p', (), ['<<toc>>']):
            literal += 1
        else:
            flat.append(c)
    if literal != len(tocs) - 1:
        return [('repeated', f'{what}: {len(tocs)} toc tags, {literal} shown literally')]
    if [W2(n) for n in names] != [W2(t) for _, t in heads]:
        return [('anchor', f'{what}: anchors {names!r} for the headlines {heads!r}')]
    d = H.diff((rest[0], rest[1], rest[2]), H.normalise(('r', (), flat)))
    if d:
        return [('rest', f'{what}: without the toc {d}')]
    st.key([lv for lv, _ in heads], case['depth'], tocs[0])
    st.sample(src[:300])


def W2(s):
    return ' '.join(s.split())


def norm(e):
    return e if isinstance(e, str) else tuple(W2(x) if isinstance(x, str) else x for x in e)
