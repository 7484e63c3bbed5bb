"""
C09  a macro that fails costs its own place in the output and nothing else, and is reported there
"""
import functools
import io
import re
from xml.sax.saxutils import escape

from vf import words as W
from vf.core import call

CASES = {'quick': 16000, 'thorough': 400000}
RULE = ('documents with working and failing macros (missing, raising any exception class with hostile text, wrong arguments, '
        'results that are no strings, malformed tags) in every context, verbose 0/1/2/default: everything outside the failing '
        'places is compared with a run in which all macros work. Non-trivial: distinct sequence of (context, failure kind, verbose).')
MINIMUM = {'failures injected': {'quick': 15000, 'thorough': 400000}, 'tracebacks': 1000, 'silent': 1000}


class OwnError(Exception):
    def __str__(self):
        return 'own <b>"&" text'


class NoText(Exception):
    def __str__(self):
        return ''


def exceptions():
    return {
        'ValueError': ValueError, 'KeyError': KeyError, 'RuntimeError': RuntimeError, 'AssertionError': AssertionError,
        'ZeroDivisionError': ZeroDivisionError, 'OSError': OSError, 'AttributeError': AttributeError, 'IndexError': IndexError,
        'StopIteration': StopIteration, 'NotImplementedError': NotImplementedError, 'TypeError': TypeError, 'LookupError': LookupError,
        'UnicodeError': UnicodeError, 'RecursionError': RecursionError, 'NameError': NameError, 'ImportError': ImportError,
        'OwnError': OwnError, 'NoText': NoText, 'UserWarning': UserWarning, 'MemoryError': MemoryError, 'EOFError': EOFError,
    }


NON_STR = {'None': None, 'int': 7, 'bytes': b'<b>', 'list': ['<i>', '&'], 'true': True, 'dict': {'<': '>'}, 'float': 1.5, 'tuple': ('<a>',)}
# things that cannot be called with the arguments of a macro
CALLEES = {'len': len, 'bytes': bytes, 'object': object, 'str method': 'x'.upper, 'text': 'x', 'number': 3, 'int': int, 'abs': abs}
SHAPES = ('lambda', 'instance', 'bound', 'partial', 'no source', 'static')


def reshape(f, shape):
    """ the same macro as another kind of callable """
    if shape == 'lambda':
        return lambda **kw: f(**kw)
    if shape in ('instance', 'bound', 'static'):
        class Callable:
            def __call__(self, **kw):
                return f(**kw)
            bound = __call__
            static = staticmethod(f)
        return {'instance': Callable(), 'bound': Callable().bound, 'static': Callable.static}[shape]
    if shape == 'partial':
        return functools.partial(f)
    if shape == 'no source':
        ns = {'f': f}
        exec('def macro(**kw):\n    return f(**kw)', ns)
        return ns['macro']
    return f


KINDS = ['ok', 'ok', 'missing', 'raise', 'raise', 'kwargs', 'nonstr', 'malformed']
BAD_ARGS = ['a', 'x=1 b', '"a', "a='b", 'a="b" c"', 'a b c', '1', 'a="', '\\']
MSG = ['<b>', '&', '"', "'", '%s', '{}', ' ', 'é', '</p>', '<script>', ']', '[', '&amp;', '\\n', '**', '<<toc>>']


def gen(rng, i, tier):
    slots, blocks = [], []

    def slot(ctx):
        n = len(slots)
        kind = rng.choice(KINDS)
        s = {'ctx': ctx, 'kind': kind, 'name': 'toc' if n == 0 and kind != 'missing' and rng.random() < 0.1 else f'm{n}', 'pair': ctx == 'block' or rng.random() < 0.5}
        if kind == 'raise':
            s['exc'] = rng.choice(sorted(exceptions()))
            s['msg'] = ''.join(rng.choice(MSG) if rng.random() < 0.6 else W.plain(rng) for _ in range(rng.randint(0, 5) if rng.random() < 0.97 else rng.randint(100, 1500)))
        elif kind == 'nonstr':
            s['value'] = rng.choice(sorted(NON_STR))
        elif kind == 'malformed':
            s['args'] = rng.choice([a for a in BAD_ARGS if ctx != 'cell' or '\\' not in a])
        s['shape'] = rng.choice(SHAPES) if rng.random() < 0.5 else 'function'
        if kind == 'kwargs' and rng.random() < 0.4:
            s['callee'] = rng.choice(sorted(CALLEES))
        elif kind == 'missing' and rng.random() < 0.3:
            s['none'] = True
        slots.append(s)
        return f'\x02{n}\x03'

    def word():
        return 'k' + W.plain(rng)
    for _ in range(rng.randint(1, 4) if rng.random() < 0.98 else rng.randint(10, 40) if rng.random() < 0.9 else rng.randint(60, 200)):
        ctx = rng.choice(('block', 'p', 'p', 'face', 'list', 'table', 'two'))
        if ctx == 'block':
            blocks.append(slot('block'))
        elif ctx == 'p':
            blocks.append(f'{word()} {slot("p")} {word()}')
        elif ctx == 'face':
            blocks.append(f'{word()} **{word()} {slot("face")} {word()}** {word()}')
        elif ctx == 'list':
            blocks.append('\n'.join(f'* {word()} {slot("item")} {word()}' for _ in range(rng.randint(1, 2))))
        elif ctx == 'table':
            blocks.append('\n'.join('|' + '|'.join(f'{word()} {slot("cell")} {word()}' for _ in range(rng.randint(1, 2))) + '|' for _ in range(2)))
        else:
            blocks.append(f'{word()} {slot("p")}{slot("p")} {word()}')
    return {'blocks': blocks, 'slots': slots, 'verbose': rng.choice((None, 0, 1, 2)), 'how': rng.choice(('dict', 'object')),
            'blog': rng.random() < 0.6}


def source(case, good):
    src = '\n\n'.join(['begin'] + case['blocks'] + ['end'])
    for n, s in enumerate(case['slots']):
        args = 'a="b"' if good or s['kind'] != 'malformed' else s['args']
        w = f'<<{s["name"]} {args}>>' + (f'text<</{s["name"]}>>' if s['pair'] else '')
        src = src.replace(f'\x02{n}\x03', w)
    return src


def run(case, st):
    from creole import creole2html
    excs = exceptions()
    slots = case['slots']
    text = ''.join(case['blocks'])
    used = [n for n in range(len(slots)) if f'\x02{n}\x03' in text]
    if not used:
        return
    verbose = case['verbose']

    def convert(good):
        calls = []
        table = {}

        def make(n, s):
            def ok(**kw):
                calls.append(n)
                return f'Q{n}q'

            def fail(**kw):
                calls.append(n)
                cls = excs[s['exc']]
                raise cls(s['msg']) if cls not in (OwnError, NoText) else cls()

            def kwargs(text, other):
                calls.append(n)
                return 'NEVER'

            def nonstr(**kw):
                calls.append(n)
                return NON_STR[s['value']]
            return {'ok': ok, 'raise': fail, 'kwargs': kwargs, 'nonstr': nonstr, 'malformed': ok}['ok' if good else s['kind']]
        for n in used:
            s = slots[n]
            if good or s['kind'] != 'missing':
                if not good and s.get('callee'):
                    table[s['name']] = CALLEES[s['callee']]
                    continue
                table[s['name']] = reshape(make(n, s), s['shape'])
            elif s.get('none'):
                table[s['name']] = None
        if case['how'] == 'object':
            class Macros:
                pass
            macros = Macros()
            for k, v in table.items():
                setattr(macros, k, v)
        else:
            macros = table
        err = io.StringIO()
        src = source(case, good)
        html = call(creole2html, src, macros=macros, verbose=verbose, stderr=err, blog_line_breaks=case['blog'])
        return src, html, calls, err.getvalue()

    _, ref, calls, _ = convert(True)
    if calls != used:
        return [('calls', f'working macros were called {calls} instead of {used}: {source(case, True)!r}')]
    src, html, calls, err = convert(False)
    want_calls = [n for n in used if slots[n]['kind'] in ('ok', 'raise', 'nonstr')]
    st.count('failures injected', sum(slots[n]['kind'] != 'ok' for n in used))
    if calls != want_calls:
        return [('calls', f'{src!r}: the macros {want_calls} must be called once each, observed {calls} -> {html!r}')]

    # everything outside of the failing macros
    pattern, pos = '', 0
    failing = []

    def literal(s):
        return r'\s*' + r'\s*'.join(re.escape(x) for x in re.split(r'\s+', s)) + r'\s*'
    for n in used:
        token = f'Q{n}q'
        p = ref.index(token, pos)
        s = slots[n]
        before = ref[pos:p]
        pattern += literal(before)
        if s['kind'] == 'ok':
            pattern += token
        else:
            failing.append(n)
            pattern += r'(\[Error: (?:(?!\[Error: ).|\n)*\])' if verbose != 0 else '()'
        pos = p + len(token)
    pattern += literal(ref[pos:])
    m = re.fullmatch(pattern, html)
    what = f'creole2html({src!r}, verbose={verbose}) [{[(slots[n]["name"], slots[n]["kind"], slots[n].get("exc"), slots[n].get("msg")) for n in failing]}] -> {html!r}'
    if not m:
        return [('not isolated', f'{what}: other parts changed or no message at the place (all macros working: {ref!r})')]
    for n, shown in zip(failing, m.groups()):
        s = slots[n]
        if verbose == 0:
            st.count('silent')
            continue
        if s['name'] not in shown:
            return [('name', f'{what}: the message {shown!r} does not name the macro {s["name"]}')]
        if re.search(r'[<>]', shown):
            return [('markup', f'{what}: unescaped text in the message {shown!r}')]
        if s['kind'] == 'raise':
            exc = excs[s['exc']](s['msg']) if excs[s['exc']] not in (OwnError, NoText) else excs[s['exc']]()
            if escape(str(exc)) not in shown:
                return [('text', f'{what}: the message {shown!r} lacks the text of the exception {str(exc)!r}')]
    if verbose == 2:
        pos = 0
        for n in failing:
            s = slots[n]
            if s['kind'] == 'raise':
                st.count('tracebacks')
                p = err.find(s['exc'], pos)
                text = str(excs[s['exc']](s['msg'])) if excs[s['exc']] not in (OwnError, NoText) else str(excs[s['exc']]())
                if p < 0 or text not in err[p:] or 'Traceback' not in err[:p]:
                    return [('stderr', f'{what}: no traceback of {s["exc"]} {text!r} in order in {err!r}')]
                pos = p + 1
            elif s['kind'] == 'kwargs' and 'TypeError' not in err:
                return [('stderr', f'{what}: no traceback of the TypeError in {err!r}')]
    elif err:
        return [('stderr', f'{what}: wrote to stderr with verbose={verbose}: {err!r}')]
    st.key([(s['ctx'], s['kind'], s.get('exc'), s.get('value'), s.get('args')) for s in slots], verbose)
    st.sample(src[:300])
