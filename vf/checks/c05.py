"""
C05  nowiki areas and escaped characters are literal, everywhere
"""
from vf import creolegen as G
from vf import htmltree as H
from vf import soup as S
from vf import words as W
from vf.core import call

CASES = {'quick': 60000, 'thorough': 1500000}
RULE = ('random nowiki content (all markup, html, entities, unicode) inline in paragraphs, typefaces, list items, table cells and '
        'as block, and every escapable mark or complete construct behind a tilde; the text of the code/pre element, respectively '
        'of the paragraph, must be exactly the given characters. Non-trivial: distinct (context, content class).')
MINIMUM = {'inline areas': {'quick': 14000, 'thorough': 300000}, 'blocks': {'quick': 10000, 'thorough': 200000}, 'escapes': {'quick': 14000, 'thorough': 300000}}

PARTS = [m for m in S.MARKS if '\n' not in m and '}}}' not in m] + ['<<toc>>', '<<a>>', '<</a>>', '~', '\\\\', '\\', '}}', '}', '{', 'é', '中', '😀', '\xa0', 'a', ' ', '  ',
                                                                       '\x85', '\u2028', '\u2029', '\u3000', '\u200b', '\t']
FACES = list(G.TYPEFACES)
# constructs that are literal if they are behind a tilde
CONSTRUCTS = ['**{}**', '//{}//', '##{}##', '^^{}^^', ',,{},,', '__{}__', '--{}--', '[[{}]]', '[[{}|b]]', '{{{{{}}}}}', '{{{{{}|b}}}}',
              '<<{}>>', '<<{} />>', '\\\\{}', 'http://{}', '* {}', '# {}', '= {} =', '== {}', '|{}|', '|={}', '----', '{}', '<b>{}</b>',
              '&amp;{}', '"{}"']


def content(rng, forbid=()):
    n = rng.randint(1, 6) if rng.random() < 0.98 else rng.randint(20, 150)
    pool = [p for p in PARTS if not any(f in p for f in forbid)]
    s = ''.join(rng.choice(pool) if rng.random() < 0.6 else W.word(rng) for _ in range(n))
    for f in ('}}}',) + tuple(forbid):
        while f in s:
            s = s.replace(f, f[0] if len(f) > 1 else '')
    s = s.rstrip('}') or 'x'
    return s


def gen(rng, i, tier):
    t = rng.random()
    blog = rng.random() < 0.6
    w1, w2 = W.word(rng), W.word(rng)
    if t < 0.4:
        ctx = rng.choice(('para', 'glued', 'only', 'face', 'face2', 'item', 'cell', 'line2', 'first', 'itemcont'))
        forbid = ()
        faces = []
        if ctx in ('face', 'face2'):
            faces = rng.sample(FACES, 1 if ctx == 'face' else 2)
            forbid = tuple(G.TYPEFACES[f][0] for f in faces) + tuple(G.TYPEFACES[f][0][0] for f in faces)
        if ctx == 'cell':
            forbid = ('}}', '[[', '<<', '{{')
        s = content(rng, forbid)
        return {'what': 'inline', 'ctx': ctx, 'faces': faces, 's': s, 'w': [w1, w2], 'blog': blog}
    if t < 0.7:
        lines = []
        for _ in range(rng.randint(1, 6) if rng.random() < 0.96 else rng.randint(10, 80) if rng.random() < 0.95 else rng.randint(200, 1500)):
            x = rng.random()
            ln = '' if x < 0.12 else rng.choice(('', '', ' ', '\t')) + content(rng) if x < 0.85 else rng.choice(
                (' }}}', '}}}', '  }}} ', '\t}}}', ' \t}}}\t', '        }}}', '\u3000}}}', '{{{', ' ~x', '* a', '= b', '|c|', '----', '<</x>>', '<<x>>', '#!python', 'x }}}'))
            lines.append(ln)
        return {'what': 'block', 'lines': lines, 'w': [w1, w2], 'blog': blog, 'before': rng.choice(('', 'p', 'pp', 'list', 'h')),
                'after': rng.choice(('', 'p', 'pp', 'h')), 'trail': rng.choice(('', ' ', '\t'))}
    if t < 0.8:  # many areas and escapes in one line
        parts = []
        for _ in range(rng.randint(2, 6) if rng.random() < 0.9 else rng.randint(10, 60) if rng.random() < 0.97 else rng.randint(100, 600)):
            x = rng.random()
            parts.append(['c', content(rng)] if x < 0.4 else ['e', rng.choice('*/#^_,-[]{}<>|=\\aé')] if x < 0.7 else ['w', W.word(rng)])
        return {'what': 'many', 'parts': parts, 'sep': rng.choice((' ', ' ', '')), 'ctx': rng.choice(('para', 'item', 'face', 'line2')), 'faces': ['strong'], 'w': [w1, w2], 'blog': blog}
    ctx = rng.choice(('start', 'mid', 'glued', 'item', 'cell', 'char', 'char', 'char', 'line2'))
    if ctx == 'char':
        s = rng.choice('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}azAZ09éß中😀')
    else:
        s = rng.choice(CONSTRUCTS).format(W.plain(rng))
        if ctx == 'cell' and '|' in s:
            s = '**x**'
    return {'what': 'escape', 'ctx': ctx, 's': s, 'w': [w1, w2], 'blog': blog}


def inner(ctx, markup, node, w1, w2, faces, blog):
    """ source text and expected tree of the context """
    br = [('br', (), [])] if blog else [' ']
    if ctx in ('para', 'mid'):
        return f'{w1} {markup} {w2}', [('p', (), [w1 + ' ', node, ' ' + w2])]
    if ctx == 'glued':
        return f'{w1}{markup}{w2}', [('p', (), [w1, node, w2])]
    if ctx == 'only':
        return markup, [('p', (), [node])]
    if ctx in ('first', 'start'):
        return f'{markup} {w1}\n{w2}', [('p', (), [node, ' ' + w1] + br + [w2])]
    if ctx == 'line2':
        return f'{w1}\n{w2} {markup}', [('p', (), [w1] + br + [w2 + ' ', node])]
    if ctx in ('face', 'face2'):
        src, tree = f'{w1} {markup} {w2}', [w1 + ' ', node, ' ' + w2]
        for f in faces:
            m, tag = G.TYPEFACES[f]
            src, tree = m + src + m, [(tag, (), tree)]
        return f'a {src} b', [('p', (), ['a '] + tree + [' b'])]
    if ctx == 'item':
        return f'* {w1}\n** {w2} {markup}', [('ul', (), [('li', (), [w1, ('ul', (), [('li', (), [w2 + ' ', node])])])])]
    if ctx == 'itemcont':
        return f'# {w1}\n{w2} {markup}', [('ol', (), [('li', (), [w1] + br + [w2 + ' ', node])])]
    if ctx == 'cell':
        return f'|= {w1} | {w2} {markup} |\n| {markup} |', [('table', (), [
            ('tr', (), [('th', (), [w1]), ('td', (), [w2 + ' ', node])]), ('tr', (), [('td', (), [node])])])]
    raise KeyError(ctx)


def merge(node):
    """ join adjacent text """
    tag, at, ch = node
    out = []
    for c in ch:
        if isinstance(c, str) and out and isinstance(out[-1], str):
            out[-1] += c
        elif not isinstance(c, str) and c[0] == 'span':
            out = merge(('x', (), out + c[2]))[2]
        else:
            out.append(c if isinstance(c, str) else merge(c))
    return (tag, at, out)


def run(case, st):
    from creole import creole2html
    w1, w2 = case['w']
    blog = case['blog']
    if case['what'] == 'inline':
        s = case['s']
        src, tree = inner(case['ctx'], '{{{' + s + '}}}', ('code', (), [s]), w1, w2, case['faces'], blog)
        st.count('inline areas')
        st.key('inline', case['ctx'], tuple(case['faces']), frozenset(c for c in s if not c.isalnum()))
    elif case['what'] == 'many':
        face = case['ctx'] == 'face'
        sep, markup, nodes = case['sep'], [], []
        for k, s in case['parts']:
            if face and '*' in s:
                k, s = 'w', 'x'
            if k == 'w' and markup and not sep:
                s = f' {s} '
            markup.append('{{{' + s + '}}}' if k == 'c' else '~' + s if k == 'e' else s)
            nodes += [('code', (), [s]) if k == 'c' else s, sep]
        node = ('span', (), nodes[:-1] if sep else nodes)
        src, tree = inner(case['ctx'], sep.join(markup), node, w1, w2, case['faces'], blog)
        st.count('inline areas', sum(k == 'c' for k, s in case['parts']))
        st.count('escapes', sum(k == 'e' for k, s in case['parts']))
        st.key('many', case['ctx'], tuple(k for k, s in case['parts']))
    elif case['what'] == 'block':
        lines = [ln.replace('}}}', '~}}}') if ln.strip() == '}}}' else ln for ln in case['lines']]
        lines = [' ' + ln if ln.startswith('}}}') else ln for ln in lines]
        shown = [ln.replace('~}}}', '}}}') if ln.strip() == '~}}}' else ln for ln in lines]
        before = {'': ('', []), 'p': (f'{w1}\n', [('p', (), [w1])]), 'pp': (f'{w1}\n\n', [('p', (), [w1])]),
                  'list': (f'* {w1}\n', [('ul', (), [('li', (), [w1])])]), 'h': (f'= {w1}\n', [('h1', (), [w1])])}[case['before']]
        after = {'': ('', []), 'p': (f'\n{w2}', [('p', (), [w2])]), 'pp': (f'\n\n{w2}', [('p', (), [w2])]),
                 'h': (f'\n== {w2} ==', [('h2', (), [w2])])}[case['after']]
        src = before[0] + '{{{' + case['trail'] + '\n' + '\n'.join(lines) + '\n}}}' + after[0]
        tree = before[1] + [('pre', (), ['\n' + '\n'.join(shown) + '\n'])] + after[1]
        st.count('blocks')
        st.key('block', case['before'], case['after'], len(lines), frozenset(c for ln in lines for c in ln if not c.isalnum()))
    else:
        s = case['s']
        ctx = 'mid' if case['ctx'] == 'char' else case['ctx']
        src, tree = inner(ctx, '~' + s, s, w1, w2, (), blog)
        st.count('escapes')
        st.key('escape', case['ctx'], ''.join(c for c in s if not c.isalpha()))
    html = call(creole2html, src, blog_line_breaks=blog)
    want = H.normalise(merge(('r', (), tree)))
    try:
        got = H.normalise(H.parse(html))
    except H.NotWellFormed as err:
        return [('malformed', f'creole2html({src!r}) -> {html!r}: {err}')]
    d = H.diff(want, got)
    st.sample(src[:300])
    if d:
        return [('not literal', f'creole2html({src!r}, blog_line_breaks={blog}) -> {html!r}: {d}')]
