"""
C07  blocks that are separated by blank lines do not influence each other
"""
import re

from vf import creolegen as G
from vf import htmltree as H
from vf import soup as S
from vf.core import call

CASES = {'quick': 10000, 'thorough': 250000}
RULE = ('2 to 6 fragments (well-formed blocks or hostile soup without nowiki and macro brackets) joined with blank lines: the tree '
        'of the whole must be the concatenation of the trees of the parts, in every order. Non-trivial: distinct shapes.')
MINIMUM = {'joined documents': {'quick': 15000, 'thorough': 400000}}


def gen(rng, i, tier):
    parts = []
    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.5:
            g = G.Gen(rng)
            parts.append(G.write({'blocks': [g.block()]}))
        else:
            t = S.messy(rng, i, macros=False, size=15)
            parts.append(re.sub(r'([<>{}])\1+', r'\1', t))
    return {'parts': parts, 'sep': rng.choice(('\n\n', '\n\n', '\n\n\n', '\n \n', '\n\t\n\n', '\n\xa0\n', '\n \u3000\t\n', '\n\n\u2009\n', '\n' + '\n' * 40)), 'blog': rng.random() < 0.6, 'perm': rng.sample(range(len(parts)), len(parts))}


def tidy(children):
    """ a forced line break at the end of a paragraph has no effect: it may be dropped or not """
    out = []
    for c in children:
        if not isinstance(c, str) and c[0] in ('p', 'li'):
            sub = tidy(c[2])
            while sub and not isinstance(sub[-1], str) and sub[-1][0] == 'br':
                sub.pop()
                if sub and isinstance(sub[-1], str):
                    sub[-1] = sub[-1].rstrip(' ')
                    if not sub[-1]:
                        sub.pop()
            c = (c[0], c[1], sub)
        elif not isinstance(c, str) and c[0] in ('ul', 'ol'):
            c = (c[0], c[1], tidy(c[2]))
        out.append(c)
    return out


def run(case, st):
    from creole import creole2html
    # a part without text, and blank lines at its borders, are no blocks of their own
    parts = [p.strip('\n') for p in case['parts']]
    parts = [p for p in parts if p.strip()]
    if len(parts) < 2:
        return
    kw = {'blog_line_breaks': case['blog']}
    trees = []
    try:
        for p in parts:
            trees.append(H.normalise(H.parse(call(creole2html, p, **kw)))[2])
            trees[-1] = tidy(trees[-1])
        for order in (range(len(parts)), [n for n in case['perm'] if n < len(parts)]):
            src = case['sep'].join(parts[n] for n in order)
            want = H.normalise(('r', (), [c for n in order for c in trees[n]]))
            html = call(creole2html, src, **kw)
            got = H.normalise(H.parse(html))
            got = (got[0], got[1], tidy(got[2]))
            st.count('joined documents')
            d = H.diff(want, got)
            if d:
                return [('not isolated', f'creole2html({src!r}, {kw}) -> {html!r}: differs from its parts {d}')]
    except H.NotWellFormed as err:
        return [('malformed', f'{parts!r}: {err}')]
    st.key(H.shape(want))
    st.sample(src[:300])
