"""
C08  macros are called as the document says: once per occurrence, in order, with its arguments and text
"""
import io
import shlex

from vf import htmltree as H
from vf import words as W
from vf.core import call

CASES = {'quick': 20000, 'thorough': 400000}
RULE = ('documents with up to 10 macro occurrences (block, inline pair, single tag) in paragraphs, typefaces, list items and table '
        'cells, mixed with occurrences that are literal (nowiki, preformatted, escaped, headline, link label); recording macros '
        '(dict or object) log each call. The log must be the written sequence, and each result must stand unchanged at its place. '
        'Non-trivial: distinct sequence of (context, form, argument kinds).')
MINIMUM = {'calls observed': {'quick': 15000, 'thorough': 500000}, 'literal occurrences': 1000, 'with toc': 2000, 'values': 5000}

PAIRED = ('m', 'mac', 'html', 'code2', 'Ümlaut', '_u', 'pre', 'x1', 'keys', 'items', 'get', 'größe', '中文', '1', '_', 'M', 'tocs', 'p' * 40)
SINGLE = ('s', 'tag', 'break_', 'toc2', 'Single', 'y1', 'values', 'pop', 'ж', 'Éa', '名前', '2b', '__', 'S', 'TOC', 'macro', 'html5', 'preview', 'get_', 'q' * 40, 'toc')
KEYS = ('a', 'b', 'key', 'ext', 'long_name', 'x1', 'A', 'depth', 'ünit', 'class', 'name', 'macro', 'args', 'Text', 'data-x', 'x.y', '1', 'k' * 50)
VALUE_PARTS = ['a', 'b c', '  ', '**', '//', '[[', '|', '<b>', '&', '{{{', '~', '=', '==', "it's", 'é', '中', '/', '.', 'http://x', '\\\\', '0', '-', '!', '*', '#', 'None', 'x"y', '%s', '{0}']
NEARLY = ('0x10', '0b1', '0o7', '1.0', '1e3', '1.', '.5', '1,5', '0x', '--1', '1-', '1 2', '1/2', '2**3', 'inf', 'nan', 'true', 'false', 'none', 'TRUE',
          'yes', 'no', 'on', 'off', 'null', ' True', 'None ', '007', '-08', '00', '1j', '1L', '10px', '5%', '[1]', '{}', '()', 'Truee', 'NotImplemented', 'Ellipsis')


def value(rng):
    """ (written form, python value) """
    t = rng.random()
    if t < 0.12:
        name, v = rng.choice((('True', True), ('False', False), ('None', None)))
        q = rng.choice(('', '"', "'"))
        return q + name + q, v
    if t < 0.3:
        v = rng.choice((0, 1, 7, -1, 42, 2**40, -300, rng.randint(0, 10**6)))
        q = rng.choice(('', '"', "'"))
        return f'{q}{v}{q}', v
    if t < 0.5:
        v = W.plain(rng) + rng.choice(('', '.', '-x', '_y', '/z', ':1', '=2', '%', 'é', '#', '#5', '&b', '+', '*', '!', '$x', '@', ',', ';', '^', '?'))
        return v, v
    if t < 0.62:
        # nearly a number or a keyword
        v = rng.choice(NEARLY)
        q = rng.choice('"\'') if ' ' in v else rng.choice(('', '"', "'"))
        return q + v + q, int(v) if v in ('007', '-08', '00') else v
    while True:
        v = ''.join(rng.choice(VALUE_PARTS) if rng.random() < 0.5 else W.plain(rng) for _ in range(rng.randint(0, 4)))
        try:
            int(v.strip('\'"'))
        except ValueError:
            if v not in ('True', 'False', 'None'):
                break
    quotes = [q for q in '"\'' if q not in v and not (q == '"' and '\\' in v)]
    if not quotes:
        v = v.replace("'", '').replace('"', '').replace('\\', '')
        quotes = ['"', "'"]
        try:
            int(v)
            v += 'x'
        except ValueError:
            pass
        if v in ('True', 'False', 'None'):
            v += 'x'
    q = rng.choice(quotes)
    return q + v + q, v


def arguments(rng, cell):
    n = rng.choice((0, 0, 1, 1, 2, 3)) if rng.random() < 0.98 else rng.randint(4, 16)
    written, kwargs = [], {}
    for _ in range(n):
        key = rng.choice(KEYS)
        w, v = value(rng)
        if cell and ('\\' in w):
            continue
        if key in kwargs:
            continue
        if n == 3 and rng.random() < 0.02 and ' text=' not in ' ' + ' '.join(written):
            key = 'text'     # the text between the tags (None for a single tag) is passed under this name, whatever the document says
        else:
            kwargs[key] = v
        written.append(f'{key}={w}')
    return rng.choice((' ', ' ', '  ', '\t')).join(written), kwargs


TEXT = ['**', '//', '* ', '# ', '= ', '|', '||', '[[a]]', '{{b}}', '{{{', '}}}', '~', '<b>', '</b>', '&amp;', '&', '"', "'", '<', '>', '<<', '>>', '<<s>>', '<</zz>>', '\\\\', '\\', ' ', 'http://x', '%s', '%(a)s', '{0}', '----']


def mtext(rng, multiline):
    out = []
    for _ in range(rng.randint(0, 6) if rng.random() < 0.98 else rng.randint(30, 200)):
        t = rng.random()
        out.append(rng.choice(TEXT) if t < 0.5 else '\n' if multiline and t < 0.65 else '\n\n' if multiline and t < 0.7 else W.word(rng))
    return ''.join(out)


class Markup(str):
    pass


class Log(list):
    def __init__(self):
        super().__init__()
        self.past = {}


def occurrence(rng, ctx, log):
    """ one macro occurrence: (source, index in log); block: own lines """
    cell = ctx == 'cell'
    if log.past.get(ctx) and rng.random() < 0.12:  # the same once more
        src, call_, form = rng.choice(log.past[ctx])
        log.append(list(call_))
        return src, len(log) - 1, form
    form = 'pair' if ctx == 'block' or rng.random() < 0.55 else 'single'
    args, kwargs = arguments(rng, cell)
    n = len(log)
    if form == 'pair':
        name = rng.choice(PAIRED)
        text = mtext(rng, ctx == 'block')
        if ctx in ('cell', 'label'):
            pass
        gap = rng.choice(('', '', ' '))
        src = f'<<{gap}{name}{" " if args else ""}{args}{gap}>>{text}<</{gap}{name}{gap}>>'
        want = text.strip()
    else:
        name = rng.choice(SINGLE)
        end = rng.choice(('>>', '>>', ' />>', ' >>', '/>>' if not args or args[-1] in '"\'' else ' />>'))
        src = f'<<{name}{" " if args else ""}{args}{end}'
        want = None
    log.append([name, kwargs, want])
    log.past.setdefault(ctx, []).append((src, log[-1], form))
    return src, n, form


LITERAL = ['{{{%s}}}', '~%s', '[[x|%s]]']
FACES = (('**', 'strong'), ('//', 'i'), ('##', 'tt'), ('__', 'u'), ('^^', 'sup'), (',,', 'sub'))


def gen(rng, i, tier):
    """ blocks: [source, tree children with {n} text for the results] """
    log, blocks, sig = Log(), [], []
    nlit = 0

    def word():
        return W.alnum(rng, 0.1) + W.plain(rng)

    for _ in range(rng.randint(1, 5) if rng.random() < 0.98 else rng.randint(10, 30) if rng.random() < 0.9 else rng.randint(60, 200)):
        kind = rng.choice(('block', 'block', 'p', 'p', 'p', 'list', 'table', 'literal', 'lines'))
        sub = []
        if kind == 'block':
            src, n, form = occurrence(rng, 'block', log)
            tree = [f'\x02{n}\x03']
            sub.append(form)
        elif kind in ('p', 'lines'):
            tree, src = [], ''
            nl = 1 if kind == 'p' else rng.randint(2, 3)
            children = []
            for ln in range(nl):
                if ln:
                    src += '\n'
                    children.append('\x04')     # the line break
                a = word()
                src += a + ' '
                children.append(a + ' ')
                for _ in range(rng.randint(1, 2)):
                    s, n, form = occurrence(rng, 'inline', log)
                    if rng.random() < 0.3 and not any(f[0] in s for f in FACES):
                        m, tag = rng.choice(FACES)
                        src += m + s + m
                        children.append([tag, [f'\x02{n}\x03']])
                        sub.append('face' + form)
                    else:
                        src += s
                        children.append(f'\x02{n}\x03')
                        sub.append(form)
                    b = ' ' + word() + ' '
                    src += b
                    children.append(b)
                src = src.rstrip(' ')
                children[-1] = children[-1].rstrip(' ')
            tree = [['p', children]]
        elif kind == 'list':
            src, items = [], []
            for _ in range(rng.randint(1, 3)):
                s, n, form = occurrence(rng, 'item', log)
                a, b = word(), word()
                src.append(f'* {a} {s} {b}')
                items.append(['li', [f'{a} \x02{n}\x03 {b}']])
                sub.append(form)
            src = '\n'.join(src)
            tree = [['ul', items]]
        elif kind == 'table':
            src, rows = [], []
            for _ in range(rng.randint(1, 2)):
                row, ln = [], ''
                for _ in range(rng.randint(1, 2)):
                    s, n, form = occurrence(rng, 'cell', log)
                    a = word()
                    row.append(['td', [f'{a} \x02{n}\x03']])
                    ln += f'|{a} {s} '
                    sub.append(form)
                src.append(ln + '|')
                rows.append(['tr', row])
            src = '\n'.join(src)
            tree = [['table', rows]]
        else:
            fake = Log()
            s, _, form = occurrence(rng, rng.choice(('inline', 'cell')), fake)
            s = s.replace('{{{', '').replace('}}}', '').replace(']]', '').replace('\n', '')
            how = rng.choice(('pre', 'code', 'head', 'escape', 'label'))
            if how != 'pre':
                s = f'<<{fake[0][0]}>>'
            if how == 'pre':
                src = '{{{\n' + s + '\n}}}'
                tree = [['pre', ['\n' + s + '\n']]]
            elif how == 'code':
                src = 'a {{{' + s + '}}} b'
                tree = [['p', ['a ', ['code', [s]], ' b']]]
            elif how == 'head':
                src = '= a ' + s + ' b'
                tree = [['h1', ['a ' + s + ' b']]]
            elif how == 'escape':
                src = 'a ~' + s + ' b'
                tree = [['p', ['a ' + s + ' b']]]
            else:
                src = 'a [[x|y ' + s + ' z]] b'
                tree = [['p', ['a ', ['a', ['y ' + s + ' z']], ' b']]]
            sub.append(how)
            nlit += 1
        blocks.append([src, tree])
        sig.append([kind, sub])
    return {'blocks': blocks, 'log': log, 'object': rng.random() < 0.4, 'blog': rng.random() < 0.6, 'literal': nlit,
            'seed': rng.randint(0, 10**9), 'sig': sig, 'extra': rng.random() < 0.3, 'verbose': rng.choice((None, 0, 1, 2))}


def tree_of(nodes, values, blog):
    out = []
    for n in nodes:
        if isinstance(n, str):
            if n == '\x04':
                out.append(('br', (), []) if blog else ' ')
                continue
            for k, v in values.items():
                n = n.replace(f'\x02{k}\x03', v)
            out.append(n)
        else:
            out.append((n[0], (('href', 'x'),) if n[0] == 'a' else (), tree_of(n[1], values, blog)))
    return out


RESULTS = ['<b>x</b>', '&', '', ' ', '<!-- x -->', '%s %(a)s', '{0} {}', '\\1 \\g<0>', '<p>', '**a**', '[[b]]', '~', '\n\nq\n\n', '{{{', '<<s>>', '<</m>>', '\r\n', '"', '</p>', '<br />', '\x0b', 'é中😀', '= h', '$1', '<<toc>>', '<p><<toc>></p>']


def run(case, st):
    import random
    from creole import creole2html
    if not case['blocks']:
        return
    used = [n for n in range(len(case['log'])) if f'\x02{n}\x03' in repr(case['blocks']).replace('\\x02', '\x02').replace('\\x03', '\x03')]
    log = [case['log'][n] for n in used]
    src = '\n\n'.join(['begin'] + [b[0] for b in case['blocks']] + ['end'])
    own_toc = any(x[0] == 'toc' for x in log)
    rng = random.Random(case['seed'])
    hostile = [''.join(rng.choice(RESULTS) if rng.random() < 0.7 else W.word(rng) for _ in range(rng.randint(0, 4))) for _ in log]
    tokens = [f'Q{n}q' for n in range(len(log))]

    def convert(results):
        seen = []

        def make(name):
            def macro(**kwargs):
                text = kwargs.pop('text', 'NO TEXT ARGUMENT')
                seen.append([name, kwargs, text])
                return results[len(seen) - 1] if len(seen) <= len(results) else 'TOO MANY'
            return macro
        # (without an own macro of this name <<toc>> is the table of contents)
        names = PAIRED + tuple(n for n in SINGLE if n != 'toc' or own_toc) + (('unused', 'begin') if case['extra'] else ())
        if case['seed'] % 4 == 0:
            # callable objects that count as false, results of a str subclass
            class Falsy(list):
                def __init__(self, f):
                    super().__init__()
                    self.f = f

                def __call__(self, **kwargs):
                    return Markup(self.f(**kwargs))
            plain_make = make
            make = lambda name: Falsy(plain_make(name))  # noqa
        if case['object']:
            class Macros:
                pass
            macros = Macros()
            for n in names:
                setattr(macros, n, make(n))
        else:
            macros = {n: make(n) for n in names}
        err = io.StringIO()
        html = call(creole2html, src, macros=macros, blog_line_breaks=case['blog'], stderr=err, verbose=case['verbose'])
        return html, seen, err.getvalue()

    html, seen, err = convert(tokens)
    st.count('calls observed', len(seen))
    st.count('literal occurrences', case['literal'])
    st.count('values', sum(len(k[1]) for k in log))
    for want, got in zip(log, seen):
        if want != got or [type(v) for v in want[1].values()] != [type(v) for v in got[1].values()]:
            return [('call', f'creole2html({src!r}): expected the call {want!r}, observed {got!r}')]
    if len(log) != len(seen):
        return [('calls', f'creole2html({src!r}): {len(log)} occurrences, {len(seen)} calls: {seen!r} -> {html!r}')]
    if err:
        return [('stderr', f'creole2html({src!r}) wrote {err!r}')]
    values = dict(zip(used, tokens))
    want = H.normalise(('r', (), [('p', (), ['begin'])] + tree_of([n for b in case['blocks'] for n in [' '] + b[1] + [' ']], values, case['blog']) + [('p', (), ['end'])]))
    try:
        got = H.normalise(H.parse(html))
    except H.NotWellFormed as e:
        return [('malformed', f'{src!r} -> {html!r}: {e}')]
    d = H.diff(want, got)
    if d:
        return [('place', f'creole2html({src!r}) -> {html!r}: {d}')]
    if case['seed'] % 5 == 0 and not own_toc:
        # the same with a table of contents, which has its own place
        st.count('with toc')
        src += '\n\n= head\n\n<<toc>>'
        html, seen, _ = convert(tokens)
    html2, seen2, err2 = convert(hostile)
    want2 = html
    pieces, pos = [], 0
    for t, h in zip(tokens, hostile):
        p = html.index(t, pos)
        pieces += [html[pos:p], h]
        pos = p + len(t)
    want2 = ''.join(pieces) + html[pos:]
    if html2 != want2:
        return [('result changed', f'creole2html({src!r}) with the results {hostile!r} -> {html2!r} instead of {want2!r}')]
    if seen2 != seen:
        return [('call', f'the calls depend on the results: {seen!r} / {seen2!r}')]
    st.key(case['sig'], case['object'])
    st.sample(src[:300])
