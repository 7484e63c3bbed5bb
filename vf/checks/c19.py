"""
C19  every unknown html tag reaches the chosen handler exactly once, and the handlers do what they say
"""
import json
import random
import re
from xml.sax.saxutils import escape

from vf import htmltree as H
from vf import words as W
from vf.core import SutError, call

CASES = {'quick': 2600, 'thorough': 90000}
RULE = ('random documents with known elements and unknown elements (random names and attributes, nested, empty, in every inline context) for all four converters. A recording handler logs '
        'every call; the log is compared with the elements of the source. The output with each shipped handler is compared with the output of the recording handler with its marks replaced. '
        'With the html macro the html is read back by creole2html. Non-trivial: distinct structures.')
MINIMUM = {'unknown elements': {'quick': 9000, 'thorough': 150000}, 'raised': 800, 'masked': {'quick': 9000, 'thorough': 200000}, 'html macro round trips': 1000, 'documents without unknown': 300}
VOIDS = ('input', 'wbr', 'meta', 'source', 'embed', 'link')
UNKNOWN = ('x', 'foo', 'x-y', 'o:p', 'svg', 'video', 'section', 'mark', 'kbd', 'abbr', 'font', 'label', 'q', 'blockquote1', 'pp', 'h7x', 'liu', 'ab', 'bb', 'pre-block', 'blockdata-pass', 'inlinedata-pre', 'blockdata-pre', 'blockdata', 'data-x', 'headline-x', 'br-x', 'unknown', 'list', 'emit', 'node', 'typeface', 'item', 'texts', 'last', 'debug', 'tree', 'line', 'macro', 'escape', 'image', 'break', 'bullet', 'header', 'nav', 'summary', 'time', 'a-b.c', 'x_y') + VOIDS
KNOWN = ('b', 'strong', 'i', 'em')
NAMES = ('html2creole', 'html2rest', 'html2textile', 'html2markdown')


def gen(rng, i, tier):
    r = rng
    full = r.random() < 0.85  # with unknown elements

    def value():
        return ''.join(r.choice(('a', 'b', '1', ' ', '&', '<', '>', '"', "'", '=', '/', 'é', '中', '%', '-', ';', '.', '&amp;', '&lt;b&gt;', '&#65;')) for _ in range(r.randint(0, 8))).replace('  ', ' ').replace('//', '/').replace('//', '/').replace('--', '-')

    def words(n=3):
        return ' '.join(W.word(r, '', 0.1) for _ in range(r.randint(1, n)))

    def inl(depth, used, n=None):
        out = []
        for _ in range(r.randint(1, 4) if n is None else n):
            t = r.random()
            if out:
                out.append({'k': 'text', 's': ' '})
            if depth and full and t < 0.4:
                a = {f'data-{n}': value() for n in range(r.randint(1, 20))} if r.random() < 0.03 else {r.choice(('class', 'id', 'data-x', 'title', 'style', 'onclick', 'z')): value() for _ in range(r.choice((0, 0, 1, 2, 3)))}
                out.append({'k': r.choice(UNKNOWN), 'a': a, 'c': [] if r.random() < 0.15 else inl(depth - 1, used, r.randint(1, 2))})
                if out[-1]['k'] in VOIDS:
                    out[-1]['c'] = []
                elif k == 'p' and breaks and r.random() < 0.3:
                    out[-1]['c'] = [{'k': 'br', 'a': {}, 'c': []}] if r.random() < 0.4 else out[-1]['c'] + [{'k': 'text', 's': ' '}, {'k': 'br', 'a': {}, 'c': []}]
            elif depth and t < 0.55 and not used:
                out.append({'k': r.choice(KNOWN), 'a': {}, 'c': inl(depth - 1, True, r.randint(1, 2))})
            else:
                out.append({'k': 'text', 's': words()})
        return out
    blocks = []
    k = None
    breaks = r.random() < 0.2
    big = r.choice((None,) * 40 + ('depth', 'inline', 'block', 'item'))
    for _ in range(r.randint(1, 4) if big != 'block' else r.randint(10, 40)):
        k = r.choice(('p', 'p', 'h2', 'ul', 'ol', 'table'))
        if k in ('ul', 'ol'):
            if blocks and blocks[-1]['k'] in ('ul', 'ol'):
                continue
            c = [{'k': 'li', 'a': {}, 'c': inl(3, False)} for _ in range(r.randint(1, 3) if big != 'item' else r.randint(10, 40))]
        elif k == 'table':
            cols = r.randint(1, 3)
            c = [{'k': 'tr', 'a': {}, 'c': [{'k': 'th' if y == 0 else 'td', 'a': {}, 'c': inl(2, False)} for _ in range(cols)]} for y in range(r.randint(2, 3))]
            if blocks and blocks[-1]['k'] == 'table':
                continue
        else:
            c = inl(3, False) if not big else inl(9, False, 1) if big == 'depth' else inl(2, False, r.randint(10, 60)) if big == 'inline' else inl(1, False)
        blocks.append({'k': k, 'a': {}, 'c': c})
    return {'blocks': blocks, 'seed': r.randrange(1 << 30)}


def write(nodes, rng, keep=True):
    out = []
    for n in nodes:
        if n['k'] == 'text':
            out.append(escape(n['s']))
            continue
        body = write(n['c'], rng, keep)
        if n['k'] in UNKNOWN and not keep:
            out.append(body)
            continue
        if n['k'] == 'br':
            out.append(rng.choice(('<br>', '<br />')))
            continue
        name = n['k'].upper() if rng.random() < 0.1 else n['k']
        at = ''
        for k, v in n['a'].items():
            if not v and rng.random() < 0.5:
                at += f' {k}'
            elif rng.random() < 0.15:
                v = v.replace('&', '&amp;').replace('"', '&quot;')
                at += f' {k}="{v}"'
            else:
                v = escape(v, {'"': '&quot;'})
                at += f' {k}="{v}"'
        if n['k'] in VOIDS:
            out.append(f'<{name}{at}{rng.choice(("", " /"))}>')
        elif not body and rng.random() < 0.3:
            out.append(f'<{name}{at} />')
        else:
            out.append(f'<{name}{at}>{body}</{name}>')
        if n['k'] in ('p', 'h2', 'ul', 'ol', 'table', 'tr', 'li'):
            out.append('\n')
    return ''.join(out)


def unknown_in(nodes):
    """ in the order of the start tags """
    for n in nodes:
        if n['k'] in UNKNOWN:
            yield n
        yield from unknown_in(n.get('c', ()))


def text_in(n):
    return n.get('s', '') + ''.join(text_in(c) for c in n.get('c', ()))


def empty_typeface(nodes):
    """ e.g.: <b><foo /></b> is nothing if the tag is transparent """
    return any(n['k'] in KNOWN and not text_in(n).strip() or empty_typeface(n.get('c', ())) for n in nodes)


def tree(nodes):
    return [n['s'] if n['k'] == 'text' else (n['k'], tuple(sorted(n['a'].items())), tree(n['c'])) for n in nodes]


def rename(t):
    if isinstance(t, str):
        return t
    return ({'b': 'strong', 'em': 'i'}.get(t[0], t[0]), t[1], [rename(c) for c in t[2]])


def squeeze(text, tables):
    """ the width of the columns and headlines depends on the length of the marks """
    text = re.sub(r'(?m)[ \t]+$', '', text)
    text = re.sub(r'[ \t]+', ' ', re.sub(r'(?m)^([-=])\1+$', '--', text))
    return re.sub(r'(?m)^\+[-=+]+\+$|-{2,}', '-', re.sub(r' *\| *', '|', text)) if tables else text


def mask(kind, n, empty):
    """ (start, end) that the handler puts around the content """
    at = ''.join(f' {k}="{escape(v, {chr(34): "&quot;"})}"' for k, v in sorted(n['a'].items()))
    start, end = (f'<{n["k"]}{at} />', '') if empty else (f'<{n["k"]}{at}>', f'</{n["k"]}>')
    if kind == 'escape':
        return escape(start), escape(end)
    return f'<<{kind}>>{start}<</{kind}>>', end and f'<<{kind}>>{end}<</{kind}>>'


def run(case, st):
    import creole
    from creole.shared import unknown_tags as U
    if not case['blocks'] or not valid(case['blocks']):
        return
    rng = random.Random(case['seed'])
    html = write(case['blocks'], rng)
    want = list(unknown_in(case['blocks']))
    tables = any(b['k'] == 'table' for b in case['blocks'])
    st.count('unknown elements', len(want))
    st.count('documents without unknown', not want)
    out = []
    for name in NAMES:
        fn = getattr(creole, name)
        log = []

        def recorder(emitter, node):
            number = len(log)
            log.append((node.kind, dict(node.attrs)))
            content = emitter.emit_children(node)
            return f'⟦S{number}⟧{content}⟦E{number}⟧' if content else f'⟦N{number}⟧'
        text = call(fn, html, unknown_emit=recorder)
        if log != [(n['k'], n['a']) for n in want]:
            out.append(('log', f'{name}({html!r}): the handler got {log}, the document has {[(n["k"], n["a"]) for n in want]}'))
            continue
        marks = re.findall(r'⟦[SEN]\d+⟧', text)
        if marks != list(marks_of(case['blocks'], [0])):
            out.append(('order', f'{name}({html!r}) -> {text!r}: the results of the handler are not where the elements are'))
            continue
        for kind, handler in (('html', U.use_html_macro), ('pre', U.preformat_unknown_nodes), ('escape', U.escape_unknown_nodes)):
            got = call(fn, html, unknown_emit=handler)

            def put(m):
                n = want[int(m[2])]
                return mask(kind, n, m[1] == 'N')[m[1] == 'E']
            expected = re.sub(r'⟦([SEN])(\d+)⟧', put, text)
            st.count('masked', len(want))
            if squeeze(got, tables) != squeeze(expected, tables):
                out.append((kind, f'{name}({html!r}, {handler.__name__}) -> {got!r}, expected {expected!r}'))
        transparent = call(fn, html, unknown_emit=U.transparent_unknown_nodes)
        plain = re.sub(r'⟦[SEN]\d+⟧', '', text)
        if not empty_typeface(case['blocks']) and squeeze(transparent, tables).split() != squeeze(plain, tables).split():
            out.append(('transparent', f'{name}({html!r}, transparent_unknown_nodes) -> {transparent!r}, expected {plain!r}'))
        if call(fn, html) != transparent:
            out.append(('default', f'{name}({html!r}) is not the result with transparent_unknown_nodes'))
        try:
            call(fn, html, unknown_emit=U.raise_unknown_node)
            raised = None
        except SutError as err:
            if not isinstance(err.__cause__, NotImplementedError):
                raise
            raised = str(err.__cause__)
            st.count('raised')
        if (raised is not None) != bool(want) or (raised and not any(repr(n['k']) in raised for n in want)):
            out.append(('raise', f'{name}({html!r}, raise_unknown_node): {raised!r} with the unknown tags {[n["k"] for n in want]}'))
    # a macro at the begin of a paragraph is a block for creole2html, and headings are text only
    # (and a line break before or behind a macro makes it one)
    if not out and not has_br(case['blocks']) and not any(b['k'] == 'p' and b['c'][0]['k'] in UNKNOWN or b['k'] == 'h2' and any(c['k'] != 'text' for c in b['c']) for b in case['blocks']):
        out += round_trip(case, html, creole, U, st)
    st.key(json.dumps([shape(b) for b in case['blocks']]))
    st.sample(html[:400])
    return out


def has_br(nodes):
    return any(n['k'] == 'br' or has_br(n.get('c', ())) for n in nodes)


def round_trip(case, html, creole, U, st):
    text = call(creole.html2creole, html, unknown_emit=U.use_html_macro)
    back = call(creole.creole2html, text, macros={'html': lambda text: text})
    want = H.normalise(rename(('r', (), tree(case['blocks']))))
    st.count('html macro round trips')
    try:
        got = H.normalise(H.parse(back))
    except H.NotWellFormed as err:
        return [('malformed', f'{html!r} -> {text!r} -> {back!r}: {err}')]
    d = H.diff(want, got)
    return [('html macro', f'{html!r} -> {text!r} -> {back!r}: {d}')] if d else []


def marks_of(nodes, number):
    for n in nodes:
        if n['k'] in UNKNOWN:
            mine = number[0]
            number[0] += 1
            if n['c']:
                yield f'⟦S{mine}⟧'
                yield from marks_of(n['c'], number)
                yield f'⟦E{mine}⟧'
            else:
                yield f'⟦N{mine}⟧'
        else:
            yield from marks_of(n.get('c', ()), number)


def shape(n):
    return [n['k'], sorted(n.get('a', ())), [shape(c) for c in n.get('c', ())]]


def valid(nodes, block=True):
    """ shrunk cases: elements between spaces, words at the borders """
    for n in nodes:
        if n['k'] == 'text':
            continue
        if n['k'] in ('ul', 'ol', 'table', 'tr'):
            if not n['c'] or not valid(n['c']):
                return False
            continue
        c = n['c']
        if not c:
            if n['k'] not in UNKNOWN + ('br',):
                return False
            continue
        if any((x['k'] == 'text' and x['s'] == ' ') != (i % 2 == 1) for i, x in enumerate(c)) or len(c) % 2 == 0 or not valid(c):
            return False
    return True
