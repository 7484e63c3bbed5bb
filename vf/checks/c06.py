"""
C06  line endings do not matter; the line break option decides about single line breaks only
"""
import io
import random
import re

from vf import creolegen as G
from vf import htmltree as H
from vf import soup as S
from vf.core import call

CASES = {'quick': 20000, 'thorough': 300000}
RULE = ('hostile and well-formed documents (macros, tables, preformatted blocks): written with \\n, \\r\\n, \\r and a random mixture '
        'the output must be identical; documents without single line breaks in text are the same in both modes; wiki mode creates '
        'no <br> on its own and blog mode one for each single line break; other separators (form feed, U+2028 ...) between letters are characters like a letter. Non-trivial: at least two line endings and distinct shape.')
MINIMUM = {'line ending variants': {'quick': 15000, 'thorough': 500000}, 'mode pairs': 3000, 'other separators': 3000}
# no line ends in creole
OTHER = '\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029\u0085'


def gen(rng, i, tier):
    if i % 3 == 0:
        doc = G.Gen(rng, features={'code', 'escape', 'url', 'link', 'image', 'size', 'typeface', 'pre', 'table', 'list',
                                   'hr', 'head', 'headmarkup', 'adjacent', 'mixed', 'odd-space'}).document(1, 6)
        for b in doc['blocks']:
            if b['k'] == 'p' and rng.random() < 0.6:
                b['lines'] = b['lines'][:1]
        return {**doc, 'what': 'model'}
    if i % 3 == 1:
        # characters that other software takes for line ends, between two letters
        doc = G.Gen(rng, features={'code', 'escape', 'link', 'image', 'size', 'typeface', 'pre', 'table', 'list',
                                   'hr', 'head', 'headmarkup', 'adjacent', 'mixed', 'odd-space'}).document(1, 4)
        return {**doc, 'what': 'other', 'seed': rng.randint(0, 10**9)}
    text = S.messy(rng, i, size=50).replace('\r', '')
    if rng.random() < 0.3:
        text += rng.choice(('\n', '\n\n', ' \n'))
    return {'what': 'messy', 'text': text, 'blog': rng.random() < 0.6, 'seed': rng.randint(0, 10**9)}


class Macros:
    @staticmethod
    def nope(text=None, **kw):
        return f'({text!r} {sorted(kw.items())})'.replace('<', '(')
    html = nope


def mixture(text, rng):
    out = []
    for ch in text:
        if ch == '\n':
            e = rng.choice(('\n', '\r\n', '\r'))
            if e == '\n' and out and out[-1].endswith('\r'):
                e = '\r\n'
            out.append(e)
        else:
            out.append(ch)
    return ''.join(out)


def run(case, st):
    from creole import creole2html
    if case['what'] == 'messy':
        text = case['text'].replace('\r', '')
        rng = random.Random(case['seed'])
        kw = {'blog_line_breaks': case['blog'], 'macros': Macros(), 'stderr': io.StringIO()}
        base = call(creole2html, text, **kw)
        if '\n' in text:
            for name, variant in (('CRLF', text.replace('\n', '\r\n')), ('CR', text.replace('\n', '\r')), ('mixed', mixture(text, rng))):
                got = call(creole2html, variant, **kw)
                st.count('line ending variants')
                if got != base:
                    return [('line endings', f'{name}: {variant!r} -> {got!r}, but with \\n -> {base!r}')]
            st.key(tuple(re.findall(r'<(/?\w+)', base)))
        if '\\\\' not in text and not case['blog'] and '<br' in base:
            return [('wiki break', f'{text!r} -> {base!r} has a break in wiki mode')]
        st.sample(text[:200].encode('unicode_escape').decode())
        return
    if not G.valid(case):
        return
    src = G.write(case)
    if case['what'] == 'other':
        rng = random.Random(case['seed'])
        at = [m.end() for m in re.finditer(r'[a-z](?=[a-z])', src)]
        for p in sorted(rng.sample(at, min(len(at), rng.randint(1, 5))), reverse=True):
            src = src[:p] + '\ue123' + src[p:]
        blog = rng.random() < 0.6
        want = call(creole2html, src, blog_line_breaks=blog)
        ch = rng.choice(OTHER)
        got = call(creole2html, src.replace('\ue123', ch), blog_line_breaks=blog)
        st.count('other separators')
        if got != want.replace('\ue123', ch):
            return [('other separator', f'{src!r} with {ch!r} instead of \ue123 -> {got!r}, but the letter gives {want!r}')]
        return
    blog = call(creole2html, src, blog_line_breaks=True)
    wiki = call(creole2html, src, blog_line_breaks=False)
    single = sum(len(b['lines']) - 1 for b in case['blocks'] if b['k'] == 'p')
    st.count('mode pairs')
    try:
        tb, tw = H.normalise(H.parse(blog)), H.normalise(H.parse(wiki))
    except H.NotWellFormed as err:
        return [('malformed', f'{src!r}: {err}')]
    nb = sum(1 for n, _ in H.iter_nodes(tb) if n[0] == 'br')
    nw = sum(1 for n, _ in H.iter_nodes(tw) if n[0] == 'br')
    st.key(H.shape(tb))
    if nb != single or nw != 0:
        return [('break count', f'{src!r}: {single} single line breaks, {nb} <br> in blog mode ({blog!r}), {nw} in wiki mode ({wiki!r})')]
    if tb != unbreak(tw) and not single:
        return [('modes differ', f'{src!r}: no single line break, but {H.diff(tb, tw)}')]
    if single and H.normalise(unbreak(tb)) != H.normalise(tw):
        return [('modes differ', f'{src!r}: besides the breaks {H.diff(H.normalise(unbreak(tb)), H.normalise(tw))}')]


def unbreak(node):
    """ replace <br> by a space """
    tag, at, ch = node
    if tag in H.PRESERVE:
        return node
    out = []
    for c in ch:
        if not isinstance(c, str):
            c = ' ' if c[0] == 'br' else unbreak(c)
        if isinstance(c, str) and out and isinstance(out[-1], str):
            out[-1] += c
        else:
            out.append(c)
    return (tag, at, out)
