"""
C26  the bundled example macros: html passes through, pre and code show exactly the text
"""
import io
import re

from vf import htmltree as H
from vf import soup as S
from vf import words as W
from vf.core import call

CASES = {'quick': 6000, 'thorough': 80000}
RULE = ('random and hostile texts (html, closing tags of the macro markup, control characters, source code in 10 languages) and extensions in any spelling, called directly and from block and inline macros of creole2html, with and without pygments. '
        'The monitor reads the html of the macro: the elements that belong to the macro, and the text. Non-trivial: distinct (macro, extension, kind, elements).')
MINIMUM = {'pre': {'quick': 1000, 'thorough': 15000}, 'code': {'quick': 2000, 'thorough': 25000}, 'html': {'quick': 800, 'thorough': 12000}, 'from creole': {'quick': 2000, 'thorough': 30000}, 'without pygments': 300, 'unknown extension': 300}
CODE = ['def f(x):\n    return "<b>" & x\n', '<a href="x">&amp;</a>\n', '#include <a.h>\nint main() { return a<b && c>d; }\n', 'SELECT * FROM a WHERE b < "c";\n', "var x = '</script>' + `a${b}`;\n", '.a > b { color: red; }\n', '#!/bin/sh\nls -l | grep "x" && echo $Y\n',
        '= head\n* list **x** <<m>>\n', '<?php echo "<br>"; ?>\n', '{"a": [1, "<x>"]}\n', '>>> 1 < 2\nTrue\n', 'diff --git a b\n--- a\n+++ b\n@@ -1 +1 @@\n-<x>\n+&y\n', 'key: "v" # c\n- a\n', '\\begin{x} $a<b$ % c\n', '{{{ x }}}', '<!-- c -->', '</pre></div><script>alert(1)</script>']
EXTS = ('.py', 'py', 'html', '.html', '.c', '.sql', 'js', '.css', '.sh', 'php', '.json', '.xml', 'diff', '.yaml', '.rst', 'a.py', ' .py ', '.tex', '.txt', 'text')
UNKNOWN = ('', '.', '..', '.nope', 'nope', '.a.b', '<b>', '"', 'x y', '.é', '.PY', '...py', '.py.')


def text(rng, i):
    t = rng.random()
    if t < 0.4:
        s = ''.join(rng.choice(CODE) for _ in range(rng.randint(1, 3) if rng.random() < 0.97 else rng.randint(20, 120)))
    elif t < 0.7:
        s = S.messy(rng, i, size=15, macros=False, control=S.CONTROL if rng.random() < 0.1 else ())
    elif t < 0.9:
        s = '\n'.join(' ' * rng.randint(0, 4) + ' '.join(W.words(rng, 1, 2) + rng.choice(('', ' <b>', ' &lt;', ' "x"', '\t')) for _ in range(rng.randint(0, 3))) for _ in range(rng.randint(0, 5)))
    else:
        s = rng.choice(('', '\n', ' ', '\n\nx\n\n', '\t', '\x00', '&', '<', 'x' * 300, '\ufeffa', '\ud800', 'a\r\nb\rc', '</pre>', '\x1b[1m'))
    return rng.choice(('', '', '', '\n', ' ')) + s + rng.choice(('', '', '\n', '\n\n'))


def gen(rng, i, tier):
    return {'macro': rng.choice(('html', 'pre', 'code', 'code', 'code')), 'text': text(rng, i), 'ext': rng.choice(EXTS if rng.random() < 0.7 else UNKNOWN), 'how': rng.choice(('direct', 'direct', 'block', 'inline')), 'pygments': rng.random() < 0.85,
            'before': rng.random() < 0.5, 'as': rng.choice(('module', 'dict'))}


def lines(s):
    """ line ends and blank lines at the borders aren't a part of the code """
    s = re.sub('\r\n?', '\n', s).strip('\n')
    return s


def text_of(html):
    """ -> (elements, text) """
    tree = H.parse(html)
    text = []

    def walk(n):
        for c in n[2]:
            if isinstance(c, str):
                text.append(c)
            else:
                walk(c)
    walk(tree)
    return sorted({n[0] for n, _ in H.iter_nodes(tree)} - {'r'}), ''.join(text), tree


def run(case, st):
    import creole
    from creole.shared import example_macros as M
    macro, s, ext = case['macro'], case['text'], case['ext']
    pygments = case['pygments']
    st.count(macro)
    st.count('without pygments', not pygments and macro == 'code')
    st.count('unknown extension', macro == 'code' and ext in UNKNOWN)
    keep = getattr(M, 'PYGMENTS', None)
    M.PYGMENTS = keep and pygments
    try:
        if case['how'] == 'direct':
            args = (ext, s) if macro == 'code' else (s,)
            got = call(getattr(M, macro), *args)
            want = s
        else:
            st.count('from creole')
            # what can stand in a macro
            s = re.sub(r'<<|>>|[\x00-\x08\x0b-\x1f\x85\u2028\u2029\ufeff]|[\ud800-\udfff]', '', s)
            if case['how'] == 'inline':
                s = s.replace('\n', ' ').replace('|', '')
            if not s.strip() or '"' in ext:
                return
            arg = f' ext="{ext}"' if macro == 'code' else ''
            nl = '\n' if case['how'] == 'block' else ''
            source = f'<<{macro}{arg}>>{nl}{s}{nl}<</{macro}>>'
            if case['how'] == 'inline':
                source = f'beforehand {source} afterwards'
            elif case['before']:
                source = f'beforehand\n\n{source}\n\nafterwards'
            macros = M if case['as'] == 'module' else {k: getattr(M, k) for k in ('html', 'pre', 'code')}
            err = io.StringIO()
            page = call(creole.creole2html, source, macros=macros, verbose=2, stderr=err)
            if err.getvalue() or '[Error' in page:
                return [('error', f'{source!r} -> {page!r}: {err.getvalue()[-300:]}')]
            if case['how'] == 'inline':
                m = re.fullmatch(r'<p>beforehand (.*) afterwards</p>', page, re.DOTALL)
            elif case['before']:
                m = re.fullmatch(r'<p>beforehand</p>\s*(.*?)\s*<p>afterwards</p>', page, re.DOTALL)
            else:
                m = re.fullmatch(r'(.*)', page, re.DOTALL)
            if m is None:
                return [('place', f'{source!r} -> {page!r}')]
            got, want = m[1], s
        if not isinstance(got, str):
            return [('type', f'{macro}({case}) -> {got!r}')]
        shown = f'{macro} {case["how"]} ext {ext!r} {want!r:.300} -> {got!r:.400}'
        if macro == 'html':
            st.key(macro, case['how'], len(s))
            if (got if case['how'] == 'direct' else got.strip()) != (want if case['how'] == 'direct' else want.strip()):
                return [('html', shown)]
            return []
        readable = re.sub(r'[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff\ud800-\udfff]', '?', got)
        try:
            elements, found, tree = text_of(readable)
        except H.NotWellFormed as err:
            return [('malformed', f'{shown}: {err}')]
        st.key(macro, case['how'], ext, pygments, elements)
        allowed = {'pre'} if macro == 'pre' else {'pre', 'br', 'div', 'span'}
        if set(elements) - allowed or 'pre' not in elements:
            return [('elements', f'{shown}: {elements}')]
        for (tag, at, _), _ in H.iter_nodes(tree):
            if any(k != 'class' or not re.fullmatch(r'[\w\- ]+', v) for k, v in at):
                return [('attributes', f'{shown}: {tag} {at}')]
        want = re.sub(r'[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff\ud800-\udfff]', '?', want)
        norm = lines if macro == 'code' or case['how'] != 'direct' else (lambda x: x)
        if macro == 'pre' and case['how'] == 'direct':
            want = re.sub('\r\n?', '\n', want)
        found, want = norm(found), norm(want)
        if case['how'] != 'direct':
            found, want = found.strip(), want.strip()
        if found.removeprefix('\ufeff') != want.removeprefix('\ufeff'):
            return [('text', f'{shown}: {found!r:.300}, expected {want!r:.300}')]
        return []
    finally:
        M.PYGMENTS = keep
