"""
C12  the html converters accept every string
"""
import contextlib
import io
import re

from vf import htmlgen as HG
from vf import soup as S
from vf.core import SutError, call

CASES = {'quick': 22000, 'thorough': 500000}
RULE = ('tag soup, mutated and random well-formed html, random characters, long runs and tags nested up to 40 levels through '
        'html2creole, html2rest, html2textile, html2markdown with every unknown tag policy: a str must come back within the CPU '
        'limit (html2rest may refuse equal link texts with different targets). Non-trivial: distinct outputs of html2creole.')
MINIMUM = {'conversions': {'quick': 40000, 'thorough': 1000000}, 'long or deep': 300}


def gen(rng, i, tier):
    t = rng.random()
    pool = HG.SOUP + (HG.TABLE_SOUP if rng.random() < 0.5 else []) + (HG.CDATA_SOUP if rng.random() < 0.3 else []) + (S.CONTROL if rng.random() < 0.2 else [])
    what = 'soup'
    if t < 0.03:
        text = rng.choice(('', 'a', '<p>', '<ul>', '<table>')) + rng.choice(pool) * rng.randint(20, 300) + rng.choice(('', 'a', '>', '</p>'))
        if rng.random() < 0.4:
            a, b = rng.choice(pool), rng.choice(pool)
            text = (a + b) * rng.randint(10, 100)
        text = text[:1500]
        what = 'run'
        text = limit_depth(text)
    elif t < 0.06:
        tags = [rng.choice(('b', 'div', 'ul', 'li', 'span', 'x', 'i', 'table', 'tr', 'td', 'p', 'a', 'ol', 'blockquote')) for _ in range(rng.randint(5, 40))]
        if rng.random() < 0.4:
            tags = [x for _ in range(20) for x in ('ul', 'li')]
        text = 'a'.join(f'<{x}>' for x in tags) + 'z' + ('b'.join(f'</{x}>' for x in reversed(tags)) if rng.random() < 0.7 else '')
        what = 'deep'
    elif t < 0.7:
        text = HG.soup(rng, rng.randint(1, (60 if tier == 'quick' else 120) if rng.random() < 0.97 else 500), pool, pword=rng.choice((0.1, 0.3, 0.5)))
    elif t < 0.9:
        text = HG.write(HG.HG(rng).document(1, 4), rng)
        text = S.mutate(rng, text, rng.randint(0, 8), pool)
    else:
        chars = ''.join(pool)
        text = ''.join(rng.choice(chars) for _ in range(rng.randint(0, 100)))
    if what != 'run' and rng.random() < 0.15:
        text = limit_depth(HG.retag(rng, text))
    if what != 'run' and rng.random() < 0.25:
        text = HG.decorate(rng, text, rng.choice((0.1, 0.5, 1)))
    return {'text': text, 'what': what, 'unknown': rng.choice((None, 'transparent', 'html', 'pre', 'escape', 'raise'))}


def limit_depth(text, limit=60):
    """ cut the text where more than that many tags may be open """
    stack = []
    for m in re.finditer(r'<(/?)([a-zA-Z][^\s/>]*)', text):
        tag = m[2].lower()
        if not m[1]:
            if tag not in ('br', 'hr', 'img', 'input', 'meta'):
                stack.append(tag)
        elif tag in stack:
            del stack[len(stack) - 1 - stack[::-1].index(tag):]
        if len(stack) > limit:
            return text[:m.start()]
    return text


def run(case, st):
    import creole
    from creole.shared import unknown_tags as U
    from creole.emitter.html2rest_emitter import Html2restException
    text = case['text']
    if case['what'] == 'soup':
        text = limit_depth(text[:3000])
    unknown = {None: None, 'transparent': U.transparent_unknown_nodes, 'html': U.use_html_macro, 'pre': U.preformat_unknown_nodes,
               'escape': U.escape_unknown_nodes, 'raise': U.raise_unknown_node}[case['unknown']]
    st.count('long or deep', case['what'] != 'soup')
    sink = io.StringIO()
    out = None
    for name, fn, kw in (('creole', creole.html2creole, {}), ('creole strict', creole.html2creole, {'strict': True}), ('textile', creole.html2textile, {}),
                         ('markdown', creole.html2markdown, {}), ('rest', creole.html2rest, {})):
        with contextlib.redirect_stdout(sink):
            try:
                out = call(fn, text, unknown_emit=unknown, **kw)
            except SutError as err:
                cause = err.__cause__
                if isinstance(cause, Html2restException) and name == 'rest' and 'Duplicate' in str(cause):
                    st.count('refused: equal link text')
                    continue
                if isinstance(cause, NotImplementedError) and case['unknown'] == 'raise':
                    st.count('refused: unknown tag')
                    continue
                return [('exception', f'{name}({text!r}, unknown_emit={case["unknown"]}): {err}')]
        st.count('conversions')
        if not isinstance(out, str):
            return [('type', f'{name}({text!r}) returned {type(out)}')]
        if name == 'creole':
            st.key(out)
    if sink.getvalue():
        return [('output', f'{text!r}: something was printed: {sink.getvalue()[:200]!r}')]
    st.sample(text[:200].encode('unicode_escape').decode())
