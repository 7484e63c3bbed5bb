"""
C24  html tables keep their rows, columns and cells in every target language
"""
import random
import re

from vf import htmltree as H
from vf import words as W
from vf.core import call

CASES = {'quick': 7000, 'thorough': 150000}
RULE = ('random html tables: 1 to 6 rows with 0 to 6 cells each, empty cells and rows, head cells anywhere, thead / tbody / tfoot / colgroup, cells with typefaces, line breaks, paragraphs, divs, images, links and wide characters; '
        'creole2html, docutils, Python-Markdown and textile read the converted table; and random histories of MarkupTable calls. The monitor compares rows, columns and words, and the width of the lines. Non-trivial: distinct shapes.')
MINIMUM = {'creole tables': {'quick': 3000, 'thorough': 60000}, 'ReSt tables': {'quick': 3000, 'thorough': 60000}, 'Markdown tables': {'quick': 1000, 'thorough': 20000}, 'textile tables': {'quick': 2500, 'thorough': 60000},
           'ragged': {'quick': 1500, 'thorough': 30000}, 'MarkupTable histories': {'quick': 1000, 'thorough': 20000}}


def gen(rng, i, tier):
    big = i % (40 if tier == 'quick' else 20) == 0
    if rng.random() < 0.2:
        ops = []
        for _ in range(rng.randint(1, 200 if big else 14)):
            t = rng.random()
            ops.append(['tr', ''] if t < 0.25 else ['th' if t < 0.4 else 'td', rng.choice(('', W.words(rng, 10, 60) if rng.random() < 0.1 else 'y', W.plain(rng), W.words(rng, 1, 3), '中文 ' + W.plain(rng), ' x ', '= y', '=z', 'a=b'))])
        return {'ops': ops, 'auto': rng.random() < 0.8, 'prefix': rng.choice(('= ', '', '* ', '_. '))}
    head = rng.choice(('first', 'first', 'none', 'any', 'column'))
    cols = rng.randint(1, rng.choice((3, 12, 30, 60)) if big else 5)
    ragged = rng.random() < 0.6
    rows = []
    for y in range(rng.randint(1, rng.choice((3, 20, 80)) if big else 6)):
        n = cols if not ragged or rng.random() < 0.5 else rng.randint(0 if y else 1, cols + 1)
        cells = []
        for x in range(n):
            th = {'first': y == 0, 'none': False, 'any': rng.random() < 0.3, 'column': x == 0}[head]
            kind = rng.choice(('text',) * 8 + ('empty', 'empty', 'strong', 'br', 'p', 'pp', 'div', 'mixed', 'a', 'space', 'wide', 'nested'))
            if rng.random() < 0.03:
                kind = 'long'
            w = [W.plain(rng) for _ in range(3 if kind != 'long' else rng.randint(4, 80))]
            w[1] += f'{y}q{x}'    # the text of a link is used once
            cells.append({'th': th, 'k': kind, 'w': w})
        rows.append({'cells': cells})
    return {'rows': rows, 'groups': rng.choice((None, None, 'tbody', 'all')), 'nl': rng.random() < 0.5, 'around': rng.choice(('', '', 'p', 'div', 'table')), 'colspan': rng.random() < 0.1, 'seed': rng.randrange(1 << 30)}


def cell_html(c):
    a, b, d = c['w'][:3]
    return {'long': ' '.join(c['w']), 'text': f'{a} {b}', 'empty': '', 'strong': f'<b>{a}</b> {b}', 'br': f'{a}<br>{b}<br />{d}', 'p': f'<p>{a} {b}</p>', 'pp': f'<p>{a}</p><p>{b}</p>', 'div': f'<div>{a}</div>', 'mixed': f'{a} <i>{b}</i> <sub>{d}</sub>',
            'a': f'<a href="/{a}">{b}</a>', 'space': '  \n ', 'wide': f'中文{a} 가', 'nested': f'{a}<table><tr><td>{b}</td></tr><tr><td>{d}</td></tr></table>'}[c['k']]


def cell_words(c):
    a, b, d = c['w'][:3]
    return {'long': c['w'], 'text': [a, b], 'empty': [], 'strong': [a, b], 'br': [a, b, d], 'p': [a, b], 'pp': [a, b], 'div': [a], 'mixed': [a, b, d], 'a': [b], 'space': [], 'wide': [f'中文{a}', '가'], 'nested': [a, b, d]}[c['k']]


def html_of(case):
    r = random.Random(case['seed'])
    nl = (lambda: r.choice(('', '\n', '\n  ', ' '))) if case['nl'] else (lambda: '')
    out = ['<table>']
    if r.random() < 0.1:
        out.append('<colgroup><col><col></colgroup>')
    groups = case['groups']
    rows = case['rows']
    for n, row in enumerate(rows):
        if groups == 'all':
            out.append(('<thead>' if n == 0 else '<tbody>') if n < 2 else '')
        elif groups and n == 0:
            out.append('<tbody>')
        out.append(nl() + '<tr>')
        for c in row['cells']:
            tag = 'th' if c['th'] else 'td'
            out.append(f'{nl()}<{tag}{r.choice((" align=left", " class=x", " rowspan=1")) if r.random() < 0.1 else ""}>{nl()}{cell_html(c)}{nl()}</{tag}>')
        out.append(f'{nl()}</tr>')
        if groups == 'all':
            out.append('</thead>' if n == 0 else '</tbody>' if n == len(rows) - 1 else '')
        elif groups and n == len(rows) - 1:
            out.append('</tbody>')
    out.append(nl() + '</table>')
    t = ''.join(out)
    return {'': t, 'p': f'<p>before</p>\n{t}\n<p>after</p>', 'div': f'<div>{t}</div>', 'table': f'<table><tr><td>other</td></tr></table>{t}'}[case['around']]


def text_words(node):
    out = []

    def walk(n):
        for c in n[2]:
            if isinstance(c, str):
                out.append(c)
                continue
            sep = '' if c[0] in ('strong', 'em', 'i', 'b', 'sub', 'a', 'tt', 'span') else ' '
            out.append(sep)
            walk(c)
            out.append(sep)
    walk(node)
    return ''.join(out).replace('\xa0', ' ').split()


def tables(html):
    """ [[[words of the cell] ...] ...] of every outer table """
    tree = H.parse(re.sub(r'<!--.*?-->', '', html, flags=re.DOTALL).replace('&nbsp;', ' '))
    found = []

    def walk(n):
        for c in n[2]:
            if isinstance(c, str):
                continue
            if c[0] == 'table':
                rows = []

                def inner(x):
                    for y in x[2]:
                        if not isinstance(y, str):
                            if y[0] == 'tr':
                                rows.append([(z[0], text_words(z)) for z in y[2] if not isinstance(z, str) and z[0] in ('td', 'th')])
                            else:
                                inner(y)
                inner(c)
                found.append(rows)
            else:
                walk(c)
    walk(tree)
    return found


def trim(row):
    row = [w for _, w in row]
    while row and not row[-1]:
        row.pop()
    return row


def run(case, st):
    if 'ops' in case:
        return api(case, st)
    if not case['rows'] or any(len(c['w']) < 3 or not all(c['w']) for row in case['rows'] for c in row['cells']):
        return
    import creole
    from creole.rest_tools.clean_writer import rest2html
    import markdown
    import textile
    html = html_of(case)
    want = [trim([(0, cell_words(c)) for c in row['cells']]) for row in case['rows']]
    widths = {len(row['cells']) for row in case['rows']}
    columns = max(widths)
    st.count('ragged', len(widths) > 1)
    st.key([[(c['th'], c['k']) for c in row['cells']] for row in case['rows']])
    out = []
    first_head = bool(case['rows'][0]['cells']) and all(c['th'] for c in case['rows'][0]['cells'])
    for name, fn, read in (('creole', creole.html2creole, creole.creole2html), ('ReSt', creole.html2rest, lambda t: rest2html(t, line_length_limit=10 ** 7)),
                           ('Markdown', creole.html2markdown, lambda t: markdown.markdown(t, extensions=['tables'])), ('textile', creole.html2textile, textile.textile)):
        text = call(fn, html)
        if name == 'Markdown' and (not first_head or case['around'] == 'table'):
            continue    # a table without a head is no table there
        back = read(text)
        try:
            found = tables(back)
        except H.NotWellFormed as err:
            out.append(('malformed', f'{name}: {html!r} -> {text!r} -> {back!r}: {err}'))
            continue
        st.count(f'{name} tables')
        if case['around'] == 'table':
            found = found[1:]
        if name == 'Markdown' and len(case['rows']) == 1 and len(found) == 1 and len(found[0]) == 2 and not trim(found[0][1]):
            del found[0][1]    # Python-Markdown adds an empty row to a table that has a head only
        got = [trim(row) for row in found[0]] if len(found) == 1 else found
        if got != want:
            out.append(('cells', f'{name}: {html!r} -> {text!r} -> {back!r}: {got}, expected {want}'))
        elif name in ('creole', 'ReSt', 'Markdown') and {len(row) for row in found[0]} != {columns}:
            out.append(('rectangular', f'{name}: {html!r} -> {text!r} -> {back!r}: {[len(r) for r in found[0]]} cells, expected {columns}'))
        elif name in ('creole', 'textile'):
            kinds = [[k for k, w in row if w] for row in found[0]]
            kinds_want = [['th' if c['th'] else 'td' for c in row['cells'] if cell_words(c)] for row in case['rows']]
            if kinds != kinds_want:
                out.append(('head cells', f'{name}: {html!r} -> {text!r} -> {back!r}: {kinds}'))
    return out


def api(case, st):
    from creole.html_tools.text_tools import column_width
    from creole.shared.markup_table import MarkupTable
    st.count('MarkupTable histories')
    t = MarkupTable(head_prefix=case['prefix'], auto_width=case['auto'])
    rows, head = [], False
    for op, text in case['ops']:
        getattr(t, f'add_{op}')(*([text] if op != 'tr' else []))
        if op == 'tr' or not rows:
            rows.append([])
        if op != 'tr':
            rows[-1].append((op, text))
        head = head or op == 'th'
    shape = [[op for op, _ in row] for row in rows]
    st.key('api', shape, case['prefix'], case['auto'])
    out = []
    columns = max(map(len, rows))
    if not columns:
        return
    for name, fn in (('markup', t.get_table_markup), ('rest', t.get_rest_table), ('markdown', t.get_markdown_table)):
        text = call(fn)
        if call(fn) != text:
            out.append(('repeat', f'{case["ops"]}: {name} is not the same at the second time'))
        lines = text.split('\n')
        auto = case['auto'] or name != 'markup'
        if name == 'rest':
            if lines[0::2] and not all(re.fullmatch(r'\+([-=]+\+)+', ln) for ln in lines[0::2]):
                out.append(('ReSt lines', f'{case["ops"]}: {text!r}'))
            borders = {ln.replace('=', '-') for ln in lines[0::2]}
            if len(borders) != 1 or [i for i, ln in enumerate(lines[0::2]) if '=' in ln] != ([1] if head and len(rows) > 1 else []):
                out.append(('ReSt lines', f'{case["ops"]}: {text!r}'))
            lines = lines[1::2]
            if len({column_width(ln) for ln in lines} | {len(b) for b in borders}) > 1:
                out.append(('width', f'{case["ops"]}: {text!r}'))
        elif auto and len({len(ln) for ln in lines}) > 1:
            out.append(('width', f'{case["ops"]}: {text!r}'))
        if name == 'markdown' and head:
            if not re.fullmatch(r'\|( -+ \|)+', lines[1]) or lines[1].count('|') != columns + 1:
                out.append(('Markdown head line', f'{case["ops"]}: {text!r}'))
            del lines[1]
        got = [[c.strip() for c in ln[1:-1].split('|')] for ln in lines if ln[:1] == '|' == ln[-1:]]
        want = [[((case['prefix'] if op == 'th' else '') + s).strip() for op, s in row] for row in rows]
        if auto:
            want = [row + [''] * (columns - len(row)) for row in want]
        else:
            want = [row or [''] for row in want]
        if got != want:
            out.append(('table cells', f'{case["ops"]}: {name} {text!r}: {got}, expected {want}'))
    return out
