"""
C31  block rules that the caller gives to creole2html() decide which blocks there are
"""
import re

from vf import creolegen as G
from vf import htmltree as H
from vf import soup as S
from vf.checks import c04
from vf.core import call

CASES = {'quick': 12000, 'thorough': 240000}
RULE = ('creole2html(block_rules=...): the own rules of the mode, one object for many conversions, on hostile and well-formed documents (result = the one without the argument); rules without one to all '
        'kinds of blocks on documents written without these kinds (same result) and on hostile documents (no such element, all words in order). Non-trivial: distinct (removed kinds, shape of the result).')
MINIMUM = {'explicit rules': 3000, 'without unused kinds': 2000, 'without used kinds': 3000, 'words followed': 20000}
ELEMENTS = {'head': {'h1', 'h2', 'h3', 'h4', 'h5', 'h6'}, 'separator': {'hr'}, 'list': {'ul', 'ol', 'li'}, 'table': {'table', 'tr', 'td', 'th'}, 'pre_block': {'pre'}, 'macro_block': set()}
FEATURE = {'head': 'head', 'separator': 'hr', 'list': 'list', 'table': 'table', 'pre_block': 'pre'}
SHARED = {}


def gen(rng, i, tier):
    r = rng
    t = r.random()
    case = {'blog': r.random() < 0.6, 'strict': r.random() < 0.2, 'how': r.choice(('object', 'subclass', 'changed')), 'without': sorted(r.sample(sorted(ELEMENTS), r.choice((1, 1, 2, 3, 6))))}
    if t < 0.4:
        text = S.messy(r, i, size=25) if r.random() < 0.5 else G.write(G.Gen(r).document(1, 4))
        if r.random() < 0.2:
            text += '\n\n' + r.choice(('<<html>><b>x</b><</html>>', '<<x a=1>>', 'a\n<<pre>>b<</pre>>\nc', '<<toc>>\n\n= a'))
        return {**case, 'kind': 'explicit', 'text': text}
    if t < 0.65:
        g = G.Gen(r)
        g.features -= {FEATURE[k] for k in case['without'] if k in FEATURE}
        return {**case, 'kind': 'unused', 'text': G.write(g.document(1, 5))}
    text = c04.gen(r, i, tier)['text'].replace('<<', '< <')
    return {**case, 'kind': 'used', 'text': text, 'blog': True}


def rules(how, blog, without):
    from creole.parser.creol2html_rules import BlockRules
    key = (how, blog, tuple(without))
    if key in SHARED:
        return SHARED[key]
    full = BlockRules(blog_line_breaks=blog)
    # (the name of the outer group of a rule is the kind of the block)
    keep = tuple(x for x in full.rules if not any(f'(?P<{k}>' in x for k in without))
    if how == 'object':
        class Plain:
            pass
        own = Plain()
        own.rules, own.re_flags = keep, full.re_flags
    elif how == 'subclass':
        class Own(BlockRules):
            def __init__(self, *args, **kw):
                super().__init__(*args, **kw)
                self.rules = keep
        own = Own(blog_line_breaks=blog)
    else:
        own = full
        own.rules = list(keep)
    SHARED[key] = own
    return own


def run(case, st):
    from creole import creole2html
    from creole.parser.creol2html_rules import BlockRules
    text, blog, without = case['text'], case['blog'], case['without']
    kw = {'strict': case['strict'], 'verbose': 0}
    if case['kind'] == 'explicit':
        own = SHARED.setdefault(('own', blog), BlockRules(blog_line_breaks=blog))
        before = repr((own.rules, own.re_flags, vars(own)))
        got = call(creole2html, text, block_rules=own, blog_line_breaks=blog, **kw)
        want = call(creole2html, text, blog_line_breaks=blog, **kw)
        st.count('explicit rules')
        if repr((own.rules, own.re_flags, vars(own))) != before:
            return [('rules', f'creole2html({text!r}) changed the block rules')]
        if got != want:
            return [('explicit', f'creole2html({text!r}, blog_line_breaks={blog}) -> {want!r}, with block_rules=BlockRules({blog}) {got!r}')]
        st.key('own', blog, hash(want))
        return
    own = rules(case['how'], blog, without)
    html = call(creole2html, text, block_rules=own, blog_line_breaks=blog, **kw)
    if case['kind'] == 'unused':
        want = call(creole2html, text, blog_line_breaks=blog, **kw)
        st.count('without unused kinds')
        if html != want:
            return [('unused', f'creole2html({text!r}, blog_line_breaks={blog}) -> {want!r}, with rules without {without} ({case["how"]}) {html!r}')]
        st.key(without, blog, hash(want))
        return
    try:
        tree = H.parse(html)
    except H.NotWellFormed as err:
        return [('malformed', f'creole2html({text!r}, rules without {without}) -> {html!r}: {err}')]
    st.count('without used kinds')
    bad = {n[0] for n, _ in H.iter_nodes(tree)} & set().union(*(ELEMENTS[k] for k in without))
    if bad:
        return [('element', f'creole2html({text!r}) with rules without {without} ({case["how"]}) -> {html!r}: has {sorted(bad)}')]
    parts = []
    c04.linear(tree, parts)
    got, want = c04.WORD.findall(''.join(parts)), c04.WORD.findall(text)
    st.count('words followed', len(want))
    if got != want:
        return [('words', f'creole2html({text!r}) with rules without {without} -> {html!r}: words {got[:15]} instead of {want[:15]}')]
    st.key(without, H.shape(tree))
    st.sample(text[:300].encode('unicode_escape').decode())
