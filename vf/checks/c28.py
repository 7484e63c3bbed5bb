"""
C28  the time of a conversion and the size of its result are bounded by the size of the document
"""
import contextlib
import io
import re
import sys
import time

from vf import creolegen as G
from vf import htmlgen as HG
from vf import soup as S
from vf import words as W
from vf.checks.c12 import limit_depth
from vf.core import SutError, call

CASES = {'quick': 5000, 'thorough': 120000}
CASE_CPU_SECONDS = 60
RULE = ('hostile: one to four fragments of markup (marks, tags, macro tags, references, white space) repeated up to 3000 characters between other fragments, for all converters, all line break and unknown tag modes; '
        'ordinary: a short well-formed document repeated 40 and 60 times. The CPU time of a hostile document must stay under a limit that is ten times of what the slowest one needs (with 6000 characters, if 3000 take more than 0.6 seconds; scaled by a calibration run, and measured three times before it counts); '
        'twice the ordinary document must not cause more than 2.3 times the number of Python calls or the length of the result. Non-trivial: distinct (converter, fragments).')
MINIMUM = {'hostile': {'quick': 4000, 'thorough': 100000}, 'ordinary': {'quick': 400, 'thorough': 10000}, 'calls': {'quick': 5000000, 'thorough': 100000000}}
LIMIT = 5.0     # seconds for 3000 characters, the slowest on the fixed tree: 0.4
LENGTH = 3000
CREOLE = S.MARKS + S.MACROISH + ['=', '|', '[', ']', '{', '}', '<', '>', '~', ' ', 'a', 'b', '-', '_', '\n', '\\', '<<a ', '="', "='", '<</a>>', '<<a>>', '<<1>>', '{{{ ', '/>>', '\t', '[[a|', '{{a|', 'http://a', '#!x', '{{{\n#!x']
HTML = HG.SOUP + HG.TABLE_SOUP + HG.CDATA_SOUP + ['<', '>', '&', '/', '"', "'", '=', ' ', '\n', 'a', '<a ', '<a b="', '</', '<!', '<?', '&#', '&a', '&#1', '<pre', '</pre', '<pre>\n', '\n<pre ', 'a=b ', '<x ', '`', '|', '<tt>', '</tt>', '<code', '<pre class=x>']
CONVERTERS = ('creole2html', 'wiki', 'html2creole', 'html2rest', 'html2textile', 'html2markdown')


def gen(rng, i, tier):
    conv = rng.choice(CONVERTERS + ('creole2html', 'html2creole'))
    creole = conv in ('creole2html', 'wiki')
    if i % 10 == 0:
        if creole:
            text = G.write(G.Gen(rng).document(1, 2))
        else:
            text = HG.write(HG.HG(rng, tables=conv != 'html2rest' or rng.random() < 0.5).document(1, 2), rng)
        return {'conv': conv, 'what': 'ordinary', 'text': text + '\n\n'}
    pool = CREOLE if creole else HTML
    if rng.random() < 0.25:
        pool = list('*/#^,_-[]{}<>|\\=! \n~ab1&;"\'')

    def pieces(*n):
        return ''.join(rng.choice(pool) for _ in range(rng.choice(n)))
    return {'conv': conv, 'what': 'hostile', 'before': pieces(0, 0, 1, 2), 'unit': pieces(1, 1, 2, 2, 3, 4), 'after': pieces(0, 0, 1, 2), 'unknown': rng.random() < 0.2}


_scale = []


def scale():
    """ how much slower than the sandbox in which the limit was found """
    if not _scale:
        best = 9
        for _ in range(3):
            t = time.process_time()
            s = 'ab ' * 400
            for _ in range(30):
                re.search(r'(a.*?b)+x', s[:150])
                re.findall(r'\w*?c|\s', s)
            sum(len(str(n)) for n in range(30000))
            best = min(best, time.process_time() - t)
        _scale.append(max(1.0, best / 0.02))
    return _scale[0]


def convert(conv, text, unknown=False):
    import creole
    from creole.shared import unknown_tags as U
    if conv in ('creole2html', 'wiki'):
        fn, kw = creole.creole2html, {'blog_line_breaks': conv != 'wiki', 'stderr': io.StringIO()}
    else:
        fn, kw = getattr(creole, conv), {'unknown_emit': U.escape_unknown_nodes if unknown else None}
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return call(fn, text, **kw)
        except SutError as err:
            if 'Duplicate' in str(err) or isinstance(err.__cause__, RecursionError):  # (C12 looks at exceptions)
                return ''
            raise


def run(case, st):
    conv = case['conv']
    if case['what'] == 'ordinary':
        return list(ordinary(case, st))
    if not case['unit']:
        return
    limit = LIMIT * scale()
    for length in (LENGTH, LENGTH * 2):
        n = length // len(case['unit']) + 1
        text = case['before'] + case['unit'] * n + case['after']
        if conv.startswith('html2'):
            text = limit_depth(text)
        best = 1e9
        for _ in range(3):
            t = time.process_time()
            out = convert(conv, text, case['unknown'])
            best = min(best, time.process_time() - t)
            if best < limit or best > 3 * limit:
                break
        if best >= limit:
            return [('slow', f'{conv}({case["before"]!r} + {case["unit"]!r} * {n} + {case["after"]!r}): {len(text)} characters take {best:.1f} seconds (limit {limit:.1f})')]
        if best < 0.6 * scale():
            break
        st.count('measured with twice the length')
    st.count('hostile')
    st.count('slower than 0.2 seconds', best > 0.2)
    if len(out) > 300 * len(text) + 10000:
        return [('size', f'{conv}({case["before"]!r} + {case["unit"]!r} * n + {case["after"]!r}): {len(text)} characters became {len(out)}')]
    st.key(conv, case['unit'])
    st.sample(f'{conv}: {case["before"]!r} {case["unit"]!r}*n {case["after"]!r}')


def measure(conv, text):
    n = [0]

    def profile(frame, event, arg):
        n[0] += 1
    t = time.process_time()
    sys.setprofile(profile)
    try:
        out = convert(conv, text)
    finally:
        sys.setprofile(None)
    return n[0], len(out), time.process_time() - t


def ordinary(case, st):
    conv, text = case['conv'], case['text']
    if not text.strip() or len(text) > 2000:
        return
    calls1, len1, time1 = measure(conv, text * 30)
    calls2, len2, time2 = measure(conv, text * 60)
    st.count('ordinary')
    st.count('calls', calls1 + calls2)
    for what, a, b, tolerance in (('calls', calls1, calls2, 2000), ('characters', len1, len2, 200)):
        if b > 2.3 * a + tolerance:
            yield 'growth', f'{conv}: {text!r} 30 times: {a} {what}, 60 times: {b} {what}'
    limit = 40 * scale()
    if time2 > limit:
        yield 'slow', f'{conv}: {text!r} 60 times takes {time2:.1f} seconds (limit {limit:.1f})'
    st.key(conv, text)
