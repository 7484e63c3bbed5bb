"""
C03  creole markup means the documented html structure (independent reference model)
"""
from vf import creolegen as G
from vf import htmltree as H
from vf.core import call

CASES = {'quick': 10000, 'thorough': 300000}
RULE = ('random creole documents built from an abstract syntax tree (paragraphs, headings, nested and mixed lists, tables, '
        'rulers, preformatted blocks, all inline elements), written with random spacing; the parsed html output must be the '
        'tree of the independent model, for blog and wiki line breaks, strict and not. Non-trivial: distinct combination of '
        'block and inline elements with at least one element besides plain text.')
MINIMUM = {'trees compared': {'quick': 5000, 'thorough': 100000}}


def gen(rng, i, tier):
    g = G.Gen(rng)
    hi = 6 if tier == 'quick' or i % 10 else 25
    return {**g.document(1, hi), 'strict': rng.random() < 0.25}


def run(case, st):
    from creole import creole2html
    if not G.valid(case):
        return
    src = G.write(case)
    out = []
    for blog in (True, False):
        kw = {'blog_line_breaks': blog}
        if case['strict']:
            kw['strict'] = True
        html = call(creole2html, src, **kw)
        want = H.normalise(G.expected(case, blog, case['strict']))
        try:
            got = H.normalise(H.parse(html))
        except H.NotWellFormed as err:
            out.append(('malformed', f'{kw} {src!r} -> {html!r}: {err}'))
            continue
        d = H.diff(want, got)
        st.count('trees compared')
        st.count('elements compared', sum(1 for _ in H.iter_nodes(want)))
        if d:
            out.append(('structure', f'creole2html({src!r}, {kw}) -> {html!r}: {d}'))
    sig = G.kinds_of(case)
    if len(str(sig)) > 20:
        st.key(sig)
    st.sample(src[:400])
    return out
