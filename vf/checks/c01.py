"""
C01  creole2html accepts every string
"""
import io

from vf import creolegen as G
from vf import soup as S
from vf.core import call

CASES = {'quick': 16000, 'thorough': 400000}
RULE = ('fragment soup, mutated well-formed documents, random characters (controls, lone surrogates, all line endings), long '
        'runs and nested lists up to 50 levels; every option combination. The call must return a str within the CPU limit. '
        'Non-trivial: distinct sets of produced tags with at least one tag besides p.')
MINIMUM = {'calls': {'quick': 15000, 'thorough': 300000}, 'with macros': 500, 'long runs': 100}
CASE_CPU_SECONDS = 60


def gen(rng, i, tier):
    t = rng.random()
    if t < 0.03:
        frag = rng.choice(S.MARKS + S.MACROISH + ['a', '~a', '** a', '[[a|b]]', '{{a|b}}', '|a', '<<a>>b<</a>>', '// **', '\n* a', '|=a|b\n'])
        text = rng.choice(('', 'a', '\n', '|', '* ', '{{{')) + frag * rng.randint(20, 200) + rng.choice(('', 'z', '\n', '|', '>>', '}}'))
        text = text[:350 if '<<' in text else 700]
        what = 'run'
    elif t < 0.06:
        depth = rng.randint(10, 50)
        text = '\n'.join(rng.choice(('*', '#')) * n + ' a' for n in list(range(1, depth)) + [rng.randint(1, depth) for _ in range(10)])
        what = 'deep'
    else:
        text = S.messy(rng, i, control=S.CONTROL if rng.random() < 0.5 else (), size=60 if tier == 'quick' else 150)
        what = 'messy'
    return {'text': text, 'what': what, 'blog': rng.random() < 0.6, 'strict': rng.random() < 0.3,
            'verbose': rng.choice((None, None, 0, 1, 2)), 'macros': rng.choice((None, None, 'empty', 'dict', 'object'))}


class Macros:
    @staticmethod
    def html(text, **kw):
        return text or ''

    @staticmethod
    def nope(**kw):
        return '[%s]' % sorted(kw)


def run(case, st):
    from creole import creole2html
    macros = {None: None, 'empty': {}, 'dict': {'html': Macros.html, 'nope': Macros.nope}, 'object': Macros()}[case['macros']]
    kw = {'blog_line_breaks': case['blog'], 'strict': case['strict'], 'verbose': case['verbose'], 'macros': macros,
          'stderr': io.StringIO()}
    html = call(creole2html, case['text'], **kw)
    st.count('calls')
    if macros:
        st.count('with macros')
    if case['what'] != 'messy':
        st.count('long runs')
    if not isinstance(html, str):
        return [('type', f'creole2html({case["text"]!r}) returned {type(html)}')]
    import re
    tags = frozenset(re.findall(r'<(\w+)', html))
    if len(tags) > 1:
        st.key(tags, case['blog'])
    st.sample(case['text'][:200].encode('unicode_escape').decode())
    # the call is a function of its input
    again = call(creole2html, case['text'], **kw)
    if again != html:
        return [('repeat', f'second call differs for {case["text"]!r}')]
