"""
Random well-formed reStructuredText documents: abstract nodes (JSON), the ReSt source and the expected html tree.

Written from the reStructuredText specification; paragraphs in list items, definitions, fields and cells are
not compared as elements (their compact form is a decision of docutils).
"""
import json
import re

from vf import words as W

SPECIAL = '<>&"%$=+!?;()\''
ADORN = '=-~^"\'#+'


BIG = ('text', 'inline', 'item', 'line', 'column', 'row', 'block', 'depth')


class Gen:
    def __init__(self, rng, urls=None, image_base=''):
        self.r = rng
        self.urls, self.image_base = urls, image_base
        self.labels, self.substs, self.images = {}, {}, set()
        self.anon = []
        self.numbers = 541700    # no label
        self.big = None  # see document()

    def n(self, lo, hi, what):
        """ a number of somethings; some documents have very many of one thing """
        if self.big == what:
            return self.r.randint(hi * 2, hi * self.r.choice((4, 8, 16)))
        return self.r.randint(lo, hi)

    def word(self):
        return W.word(self.r, SPECIAL, 0.12)

    def words(self, lo=1, hi=3):
        return ' '.join(self.word() for _ in range(self.r.randint(lo, hi)))

    def url(self):
        r = self.r
        if self.urls:
            return self.urls()
        return r.choice(('http://{}.{}/{}', 'https://{}.{}/?{}=1&b=2', '/{}/{}/{}/', '{}/{}.{}', '../{}/{}#{}', 'mailto:{}.{}.{}', 'javascript:{}/{}<{}>', 'http://{}/"{}\'{}')).format(*(W.plain(r) for _ in range(3)))

    def label(self):
        while True:
            s = self.words(1, 2)
            if all(s.lower() != x.lower() for x in (*self.labels, *self.substs, *self.images)):
                return s

    def inline(self, plain=False):
        r = self.r
        k = r.choice(('em', 'strong', 'lit', 'link', 'ref', 'anon', 'url', 'sup', 'sub', 'code', 'esc', 'subst', 'img'))
        if plain and k in ('link', 'ref', 'anon', 'url', 'img'):
            k = 'em'
        if k in ('em', 'strong', 'sup', 'sub'):
            return {'k': k, 's': self.words()}
        if k in ('lit', 'code'):
            parts = ['*a*', '`', '<b>', '&amp;', '\\', '|x|', 'b-c', 'd?', '--e', '_f_', 'g', '"', '  ', '<script>', '..'] if k == 'lit' else ['<b>', '&amp;', 'x', '"', '-a', '=']
            return {'k': k, 's': (self.word() + ''.join(r.choice(parts) + ' ' * (r.random() < 0.4) for _ in range(r.randint(0, 3))) + self.word()).replace('``', '`')}
        if k == 'link':
            label = self.label()
            self.labels[label] = url = self.url().replace('<', '').replace('>', '')
            return {'k': k, 's': label, 'url': url}
        if k == 'ref':
            if self.labels and r.random() < 0.4:
                label = r.choice(sorted(self.labels))
                return {'k': k, 's': r.choice((label, label, label.upper(), label.lower())) if label.isascii() else label, 'url': self.labels[label]}
            label = self.label()
            self.labels[label] = url = self.url()
            return {'k': k, 's': label, 'url': url, 'define': True}
        if k == 'anon':
            return {'k': k, 's': self.words(1, 2), 'url': self.url()}
        if k == 'url':
            return {'k': k, 's': f'{r.choice(("http", "https", "ftp"))}://{W.plain(r)}.{W.plain(r)}/{W.plain(r)}{r.choice(("", "?a=1", "?a=1&b=2", "#c"))}'}
        if k == 'esc':
            return {'k': k, 's': r.choice(('*', '`', '|', '_', '\\', '<', '**', '``', ':')), 't': self.word()}
        if k == 'subst':
            if self.substs and r.random() < 0.3:
                label = r.choice(sorted(self.substs))
                return {'k': k, 'n': label, 's': self.substs[label]}
            label = self.label()
            self.substs[label] = self.words()
            return {'k': k, 'n': label, 's': self.substs[label], 'define': True}
        label = self.label()
        self.images.add(label)
        return {'k': 'img', 'n': label + ' i', 'src': self.image_base + '/' + W.plain(r) + '.png', 'alt': self.words()}

    def inlines(self, n=None, plain=False):
        r = self.r
        out = []
        for _ in range(self.n(1, 5, 'inline') if n is None else n):
            if r.random() < 0.55 or not out:
                out.append({'k': 'text', 's': self.words(*((1, 3) if self.big != 'text' else (10, 60)))})
            else:
                out.append(self.inline(plain))
        return out

    def blocks(self, depth, n, top=False, quote=False):
        r = self.r
        out = []
        level = 0
        for _ in range(n):
            kinds = ['p', 'p', 'p', 'list', 'dl', 'fields', 'lb', 'quote', 'literal', 'doctest', 'table', 'image', 'figure', 'comment', 'note', 'container',
                     'options', 'note2', 'rubric', 'wrapped', 'foot']
            if top:
                kinds += ['h', 'h', 'h', 'hr', 'topic', 'sidebar']
            k = r.choice(kinds)
            prev = out[-1]['k'] if out else None
            if k == 'options' and quote:    # --option can be read as attribution
                k = 'p'
            if depth <= 0 and k in ('container', 'list', 'dl', 'quote', 'note', 'table', 'fields', 'options', 'note2', 'wrapped', 'foot', 'topic', 'sidebar'):
                k = 'p'
            if k == 'quote' and prev != 'p' or k == prev and k in ('list', 'dl', 'fields', 'lb', 'comment', 'doctest', 'options', 'foot'):
                out.append(self.para())
            if k == 'hr' and (prev in (None, 'h', 'hr')):
                k = 'p'
            if k == 'p':
                out.append(self.para())
            elif k == 'h':
                level = r.randint(1, min(level + 1, 7))
                out.append({'k': 'h', 'level': level, 'c': self.inlines(r.randint(1, 2), True)})
            elif k == 'hr':
                out.append({'k': 'hr', 'n': r.randint(4, 9), 'ch': r.choice('-=~*')})
                out.append(self.para())
            elif k == 'list':
                out.append({'k': 'list', 'mark': r.choice(('-', '*', '+', '1.', '#.', '(1)') + (('a.', 'i)') if self.big != 'item' else ())), 'start': r.choice((1, 1, 1, 3)),
                            'items': [self.item(depth - 1) for _ in range(self.n(1, 3, 'item'))], 'tight': r.random() < 0.5})
            elif k == 'dl':
                out.append({'k': 'dl', 'items': [{'t': self.inlines(r.randint(1, 2)), 'c': self.item(depth - 1), 'class': [W.plain(r) for _ in range(r.choice((0, 0, 0, 1, 2)))]} for _ in range(self.n(1, 3, 'item'))]})
            elif k == 'fields':
                out.append({'k': 'fields', 'items': [{'n': W.plain(r) + str(r.randint(0, 99)), 'c': self.inlines()} for _ in range(self.n(1, 3, 'item'))]})
            elif k == 'lb':
                lines = [self.inlines() for _ in range(self.n(1, 4, 'line'))]
                out.append({'k': 'lb', 'lines': lines, 'ind': [0] + [r.choice((0, 0, 2)) for _ in lines]})
            elif k == 'quote':
                out.append({'k': 'quote', 'c': [self.para()] + self.blocks(depth - 1, r.randint(0, 2), quote=True), 'by': self.inlines(r.randint(1, 2)) if r.random() < 0.2 else None})
            elif k == 'literal':
                form = r.choice(('text', 'alone', 'code', 'parsed', 'code:: python', 'code:: html', 'code-block:: text'))
                out.append({'k': 'literal', 'form': form, 'lines': self.lines(), 'c': self.inlines() if form in ('text', 'parsed') else [{'k': 'text', 's': 'x'}]})
            elif k == 'doctest':
                out.append({'k': 'doctest', 'lines': ['>>> ' + self.words(), self.words()]})
            elif k == 'table':
                cols = self.n(2, 4, 'column')
                form = r.choice(('grid', 'simple', 'list', 'csv'))
                out.append({'k': 'table', 'form': form, 'head': r.random() < 0.6, 'rows': [[self.inlines(r.randint(1, 2)) for _ in range(cols)] for _ in range(self.n(2, 4, 'row'))], 'caption': self.inlines(r.randint(1, 2)) if r.random() < 0.15 else None})
            elif k == 'image':
                out.append({'k': 'image', 'src': self.image_base + '/' + W.plain(r) + '.png', 'alt': self.words() if r.random() < 0.7 else None,
                            'align': r.choice((None, None, 'left', 'right', 'center')), 'target': self.url().replace('"', '') if r.random() < 0.3 else None})
            elif k == 'figure':
                out.append({'k': 'figure', 'src': self.image_base + '/' + W.plain(r) + '.png', 'alt': self.words(), 'align': r.choice((None, 'left', 'right')), 'c': self.inlines(),
                            'legend': self.inlines() if r.random() < 0.4 else None})
            elif k == 'container':
                out.append({'k': 'container', 'names': r.choice(('zero', 'one', 'one two')), 'c': [self.para()] + self.blocks(depth - 1, r.randint(0, 2))})
            elif k == 'comment':
                out.append({'k': 'comment', 's': self.words() + r.choice(('', ' <b>x</b>', ' *a*'))})
            elif k == 'options':
                out.append({'k': k, 'items': [{'o': self.option(), 'c': self.item(depth - 1)} for _ in range(self.n(1, 3, 'item'))]})
            elif k == 'rubric':
                out.append({'k': k, 'c': self.inlines(r.randint(1, 2))})
            elif k == 'foot':
                out.append({'k': k, 'items': [{'n': r.choice((str(self.number()), f'{W.plain(r)}{self.number()}')), 'c': self.item(depth - 1)} for _ in range(self.n(1, 3, 'item'))]})
            elif k == 'wrapped':
                out.append({'k': k, 'd': r.choice(('epigraph', 'highlights', 'pull-quote', 'compound')), 'c': [self.para()] + self.blocks(depth - 1, r.randint(0, 2), quote=True)})
            elif k in ('topic', 'sidebar', 'note2'):
                out.append({'k': k, 't': self.inlines(r.randint(1, 2), True), 'sub': self.inlines(1, True) if k == 'sidebar' and r.random() < 0.4 else None,
                            'c': [self.para()] + self.blocks(depth - 1, r.randint(0, 2))})
            else:
                out.append({'k': 'note', 'kind': r.choice(('note', 'warning', 'tip', 'hint')), 'c': [self.para()] + self.blocks(depth - 1, r.randint(0, 1))})
        return out

    def item(self, depth):
        c = [self.para()]
        if self.r.random() < (0.05 if self.big else 0.35):
            c += self.blocks(depth, self.r.randint(1, 2))
        return c

    def number(self):
        self.numbers += 1
        return self.numbers

    def option(self):
        r = self.r
        return ', '.join(r.choice((f'-{r.choice("abXYZ")}', f'-{r.choice("abXYZ")} {W.plain(r).upper()}', f'--{W.plain(r)}', f'--{W.plain(r)}={W.plain(r)}', f'/{r.choice("ABC")}'))
                         for _ in range(r.choice((1, 1, 2))))

    def lines(self):
        r = self.r
        parts = ('<b>&amp;</b>', '<script>alert(1)</script>', 'a  b', '1. c', '- d', '.. e', '::', '"f"', "'g'")
        out = []
        for i in range(self.n(1, 4, 'line')):
            out.append(('    ' if i and r.random() < 0.3 else '') + (r.choice(parts) if r.random() < 0.4 else self.words()))
        return out

    def para(self):
        return {'k': 'p', 'c': self.inlines(), 'wrap': self.r.randrange(1 << 16)}

    def document(self, lo=1, hi=6):
        r = self.r
        if r.random() < 0.05:
            self.big = r.choice(BIG)
        hi = min(hi, 6) if self.big else hi
        blocks = self.blocks(2 if self.big != 'depth' else 6, self.n(lo, hi, 'block') if self.big == 'block' else r.randint(lo, hi), True)
        doc = {'blocks': blocks}
        for part in ('header', 'footer'):
            if r.random() < 0.05:
                doc[part] = [self.inlines() for _ in range(r.choice((1, 1, 2)))]
        return doc


# ---------------------------------------------------------------- source

class Writer:
    def __init__(self):
        self.defs = []

    def inl(self, nodes):
        out = []
        for n in nodes:
            k, s = n['k'], n.get('s', '')
            if k == 'text':
                out.append(s)
            elif k == 'em':
                out.append(f'*{s}*')
            elif k == 'strong':
                out.append(f'**{s}**')
            elif k == 'lit':
                out.append(f'``{s}``')
            elif k in ('sup', 'sub', 'code'):
                out.append(f':{k}:`{s}`')
            elif k == 'link':
                out.append(f'`{s} <{n["url"]}>`_'.replace('&lt', '&lt'))
            elif k == 'ref':
                out.append(f'`{s}`_')
                if n.get('define'):
                    self.define(f'.. _{s}: {n["url"]}')
            elif k == 'anon':
                out.append(f'`{s}`__')
                self.defs.append(f'__ {n["url"]}')
            elif k == 'url':
                out.append(s)
            elif k == 'esc':
                out.append(''.join('\\' + c for c in s) + n['t'])
            elif k == 'subst':
                out.append(f'|{n["n"]}|')
                if n.get('define'):
                    self.define(f'.. |{n["n"]}| replace:: {s}')
            elif k == 'img':
                out.append(f'|{n["n"]}|')
                self.define(f'.. |{n["n"]}| image:: {n["src"]}\n   :alt: {n["alt"]}')
        return ' '.join(out)

    def define(self, s):
        self.defs.append(s)

    def blocks(self, blocks):
        out = []
        for b in blocks:
            out += self.block(b)
            out.append('')
        return out

    def block(self, b):
        k = b['k']
        if k == 'p':
            return wrap(b['c'], self, b['wrap'])
        if k == 'h':
            t = self.inl(b['c'])
            return [t, ADORN[b['level'] - 1] * max(4, 2 * len(t))]
        if k == 'hr':
            return [b['ch'] * b['n']]
        if k == 'list':
            out = []
            for i, item in enumerate(b['items']):
                mark = marker(b['mark'], i + b['start'])
                lines = indent(self.blocks(item)[:-1], len(mark) + 1)
                lines[0] = f'{mark} {lines[0].lstrip()}'
                out += lines
                if not b['tight'] or len(item) > 1:
                    out.append('')
            while out and not out[-1]:
                out.pop()
            return out
        if k == 'dl':
            out = []
            for item in b['items']:
                out += [' : '.join([self.inl(item['t']), *item.get('class', ())]), *indent(self.blocks(item['c']), 3)]
            return out[:-1]
        if k == 'fields':
            return [f':{i["n"]}: {self.inl(i["c"])}' for i in b['items']]
        if k == 'lb':
            return [f'| {" " * b["ind"][i]}{self.inl(ln)}' for i, ln in enumerate(b['lines'])]
        if k == 'quote':
            return indent(self.blocks(b['c'])[:-1], 4) + (['', f'    -- {self.inl(b["by"])}'] if b.get('by') else [])
        if k == 'literal':
            body = indent(b['lines'], 2)
            form = b['form']
            if form == 'text':
                return [self.inl(b['c']) + '::', '', *body]
            if form == 'alone':
                return ['::', '', *body]
            if form.startswith('code'):
                return [f'.. {form}' if '::' in form else '.. code::', '', *body]
            return ['.. parsed-literal::', '', *indent([self.inl(b['c'])], 2)]
        if k == 'doctest':
            return list(b['lines'])
        if k == 'table':
            caption = self.inl(b['caption']) if b.get('caption') else ''
            if caption and b['form'] in ('grid', 'simple'):
                return [f'.. table:: {caption}', '', *indent(self.block({**b, 'caption': None}), 3)]
            rows = [[self.inl(c) for c in r] for r in b['rows']]
            if b['form'] == 'csv':
                return [f'.. csv-table:: {caption}'.rstrip()] + (['   :header-rows: 1'] if b['head'] else []) + ['', *('   ' + ', '.join('"' + c.replace('"', '""') + '"' for c in r) for r in rows)]
            if b['form'] == 'list':
                out = [f'.. list-table:: {caption}'.rstrip()] + (['   :header-rows: 1'] if b['head'] else []) + ['']
                for r in rows:
                    out += [('   * - ' if i == 0 else '     - ') + c for i, c in enumerate(r)]
                return out
            widths = [max(width(c) for c in col) for col in zip(*rows)]
            pad = [[c + ' ' * (w - width(c)) for c, w in zip(r, widths)] for r in rows]
            if b['form'] == 'simple':
                line = '  '.join('=' * w for w in widths)
                out = [line]
                for i, r in enumerate(pad):
                    out.append('  '.join(r).rstrip())
                    if i == 0 and b['head']:
                        out.append(line)
                return out + [line]
            out = []
            for i, r in enumerate(pad):
                out.append('+' + '+'.join(('=' if i == 1 and b['head'] else '-') * (w + 2) for w in widths) + '+')
                out.append('|' + '|'.join(f' {c} ' for c in r) + '|')
            return out + ['+' + '+'.join('-' * (w + 2) for w in widths) + '+']
        if k in ('image', 'figure'):
            out = [f'.. {k}:: {b["src"]}']
            for name in ('alt', 'align', 'target'):
                if b.get(name):
                    out.append(f'   :{name}: {b[name]}')
            if k == 'figure':
                out += ['', '   ' + self.inl(b['c'])]
                if b.get('legend'):
                    out += ['', '   ' + self.inl(b['legend'])]
            return out
        if k == 'comment':
            return [f'.. {b["s"]}']
        if k == 'options':
            out = []
            for i in b['items']:
                lines = self.blocks(i['c'])
                out += [i['o'], *indent(lines, 8)] if len(i['o']) > 5 else [i['o'] + ' ' * (8 - len(i['o'])) + lines[0], *indent(lines[1:], 8)]
            return out[:-1]
        if k == 'foot':
            out = []
            for i in b['items']:
                lines = indent(self.blocks(i['c']), 3)
                out += [f'.. [{i["n"]}] {lines[0].lstrip()}', *lines[1:]]
            return out[:-1]
        if k == 'rubric':
            return [f'.. rubric:: {self.inl(b["c"])}']
        if k == 'wrapped':
            return [f'.. {b["d"]}::', '', *indent(self.blocks(b['c'])[:-1], 3)]
        if k in ('topic', 'sidebar', 'note2'):
            return [f'.. {"admonition" if k == "note2" else k}:: {self.inl(b["t"])}', *([f'   :subtitle: {self.inl(b["sub"])}'] if b.get('sub') else []), '', *indent(self.blocks(b['c'])[:-1], 3)]
        if k == 'container':
            return [f'.. container:: {b["names"]}', '', *indent(self.blocks(b['c'])[:-1], 3)]
        if k == 'note':
            return [f'.. {b["kind"]}::', '', *indent(self.blocks(b['c'])[:-1], 3)]
        raise AssertionError(k)

    def document(self, doc):
        out = []
        for part in ('header', 'footer'):
            if doc.get(part):
                out += [f'.. {part}::', '']
                for c in doc[part]:
                    out += ['   ' + self.inl(c), '']
        out += self.blocks(doc['blocks'])
        for d in self.defs:
            out += [d, '']
        return '\n'.join(out)


def width(text):
    import unicodedata
    return sum((2 if unicodedata.east_asian_width(c) in 'WF' else 1) - (1 if unicodedata.combining(c) else 0) for c in text)


def indent(lines, n):
    return [' ' * n + ln if ln else '' for ln in lines]


ROMAN = ('', 'i', 'ii', 'iii', 'iv', 'v', 'vi', 'vii', 'viii', 'ix')


def marker(mark, n):
    if mark in ('-', '*', '+', '#.'):
        return mark
    if mark == 'a.':
        return f'{chr(96 + n)}.'
    if mark == 'i)':
        return f'{ROMAN[n]})'
    return mark.replace('1', str(n))


def wrap(nodes, writer, seed):
    """ line breaks between some nodes """
    out = ['']
    for i, n in enumerate(nodes):
        s = writer.inl([n])
        if i and seed >> i & 1 and n['k'] in ('text', 'em', 'strong', 'lit') and out[-1]:
            out.append(s)
        else:
            out[-1] += (' ' if out[-1] else '') + s
    return out


# ---------------------------------------------------------------- expectation

def el(tag, children, **at):
    return (tag, tuple(sorted((k, v) for k, v in at.items() if v is not None)), children)


def inl(nodes):
    out = []
    for n in nodes:
        if out:
            out.append(' ')
        k, s = n['k'], n.get('s')
        if k in ('text', 'subst'):
            out.append(s)
        elif k in ('em', 'strong', 'sup', 'sub', 'code'):
            out.append(el(k, [s]))
        elif k == 'lit':
            out.append(el('tt', [s]))
        elif k in ('link', 'ref', 'anon'):
            out.append(el('a', [s], href=n['url']))
        elif k == 'url':
            out.append(el('a', [s], href=s))
        elif k == 'esc':
            out.append(s + n['t'])
        elif k == 'img':
            out.append(el('img', [], src=n['src'], alt=n['alt']))
    return out


def blocks(bs):
    out = []
    for b in bs:
        out += block(b)
        out.append('\n')
    return out


def block(b):
    k = b['k']
    if k == 'p':
        return [el('p', inl(b['c']))]
    if k == 'h':
        return [el(f'h{min(b["level"], 6)}', inl(b['c']))]
    if k == 'hr':
        return [el('hr', [])]
    if k == 'list':
        return [el('ul' if b['mark'] in '-*+' else 'ol', [el('li', blocks(i)) for i in b['items']])]
    if k == 'dl':
        return [el('dl', [x for i in b['items'] for x in (el('dt', inl(i['t']) + [x for c in i.get('class', ()) for x in (' : ', c)]), el('dd', blocks(i['c'])))])]
    if k == 'fields':
        return [el('table', [el('tr', [el('th', [i['n'] + ':']), el('td', inl(i['c']))]) for i in b['items']])]
    if k == 'lb':
        return [el('p', [x for i, ln in enumerate(b['lines']) for x in ([el('br', [])] if i else []) + inl(ln)])]
    if k in ('quote', 'container', 'wrapped'):
        return blocks(b['c']) + ([el('p', ['—', *inl(b['by'])])] if b.get('by') else [])
    if k == 'options':
        rows = []
        for i in b['items']:
            kbd = el('kbd', option(i['o']))
            if len(i['o']) > 14:    # docutils writes long options in their own row
                rows += [el('tr', [el('td', [kbd], colspan='2')]), el('tr', [el('td', [' ']), el('td', blocks(i['c']))])]
            else:
                rows.append(el('tr', [el('td', [kbd]), el('td', blocks(i['c']))]))
        return [el('table', rows)]
    if k == 'foot':
        return [el('table', [el('tr', [el('td', [f'[{i["n"]}]']), el('td', blocks(i['c']))])]) for i in b['items']]
    if k == 'rubric':
        return [el('p', inl(b['c']))]
    if k in ('topic', 'sidebar', 'note2'):
        return [el('p', inl(b['t']))] + ([el('p', inl(b['sub']))] if b.get('sub') else []) + blocks(b['c'])
    if k == 'literal':
        if b['form'] == 'parsed':
            # docutils writes these roles as span here
            return [el('pre', inl([{**n, 'k': 'text'} if n['k'] in ('sup', 'sub') else n for n in b['c']]))]
        pre = el('pre', ['\n'.join(b['lines'])])
        return [el('p', inl(b['c']) + [':']), pre] if b['form'] == 'text' else [pre]
    if k == 'doctest':
        return [el('pre', ['\n'.join(b['lines'])])]
    if k == 'table':
        return [el('table', ([el('caption', inl(b['caption']))] if b.get('caption') else []) + [el('tr', [el('th' if i == 0 and b['head'] else 'td', inl(c)) for c in r]) for i, r in enumerate(b['rows'])])]
    if k == 'image':
        img = el('img', [], src=b['src'], alt=b['alt'] or b['src'], align=b['align'])
        return [el('a', [img], href=b['target'])] if b['target'] else [img]
    if k == 'figure':
        return [el('img', [], src=b['src'], alt=b['alt'], align=b['align']), el('p', inl(b['c']))] + ([el('p', inl(b['legend']))] if b.get('legend') else [])
    if k == 'comment':
        return []
    if k == 'note':
        return [el('p', [b['kind'].capitalize()])] + blocks(b['c'])
    raise AssertionError(k)


def expected(doc):
    head = [el('p', inl(c)) for c in doc.get('header', ())]
    foot = [el('p', inl(c)) for c in doc.get('footer', ())]
    return ('r', (), head + ([el('hr', [])] if head else []) + blocks(doc['blocks']) + ([el('hr', [])] if foot else []) + foot)


def option(s):
    out = []
    for i, o in enumerate(s.split(', ')):
        m = re.match(r'(--?\w+|/\w)([ =]?)(.*)', o)
        out += [', ' if i else '', m[1] + m[2]] + ([el('var', [m[3]])] if m[3] else [])
    return out


def valid(doc):
    """ shrunk cases can leave the domain """
    text = json.dumps(doc)
    if '""' in text.replace('""}', '') or not doc['blocks']:
        return False
    defined, used = set(), set()

    def walk(x):
        if isinstance(x, dict):
            if x.get('k') in ('ref', 'subst', 'link', 'img'):
                name = (x['k'] in ('subst', 'img'), (x.get('n') or x['s']).lower())
                if x.get('define') or x['k'] in ('link', 'img'):
                    if name in defined:
                        return False
                    defined.add(name)
                else:
                    used.add(name)
            return all(walk(v) for v in x.values())
        if isinstance(x, list):
            return all(walk(v) for v in x)
        return True

    def ok(bs, top=False, quote=False):
        prev, level = None, 0
        if not bs:
            return False
        for i, b in enumerate(bs):
            k = b['k']
            if quote and k == 'options':
                return False
            if k == 'quote' and prev != 'p' or k == prev and k in ('list', 'dl', 'fields', 'lb', 'comment', 'doctest', 'hr', 'options', 'foot'):
                return False
            if k == 'hr' and (prev in (None, 'h') or i + 1 >= len(bs) or bs[i + 1]['k'] != 'p'):
                return False
            if k == 'h':
                if not 1 <= b['level'] <= level + 1:
                    return False
                level = b['level']
            if k in ('p', 'h', 'figure', 'literal') and (not b['c'] or b['c'][0]['k'] != 'text'):
                return False
            if k == 'list' and not (b['items'] and all(ok(x) and x[0]['k'] == 'p' for x in b['items'])) or k == 'list' and b['start'] not in (1, 3):
                return False
            if k == 'dl' and not (b['items'] and all(x['t'] and x['t'][0]['k'] == 'text' and ok(x['c']) and x['c'][0]['k'] == 'p' for x in b['items'])):
                return False
            if k == 'fields' and not (b['items'] and all(x['c'] and x['n'] and x['c'][0]['k'] == 'text' for x in b['items'])):
                return False
            if k == 'lb' and not (b['lines'] and all(x and x[0]['k'] == 'text' for x in b['lines'])):
                return False
            if k in ('options', 'foot') and not (b['items'] and all(ok(x['c']) and x['c'][0]['k'] == 'p' and (x.get('o') or x.get('n')) for x in b['items'])):
                return False
            if k == 'rubric' and (not b['c'] or b['c'][0]['k'] != 'text') or k in ('topic', 'sidebar', 'note2') and (not b['t'] or b['t'][0]['k'] != 'text'):
                return False
            if not all(x is None or x and x[0]['k'] == 'text' for x in (b.get('by'), b.get('sub'), b.get('caption'))):
                return False
            if k in ('quote', 'note', 'container', 'wrapped', 'topic', 'sidebar', 'note2') and not (ok(b['c'], quote=k in ('quote', 'wrapped')) and b['c'][0]['k'] == 'p'):
                return False
            if k in ('literal', 'doctest') and (not b['lines'] or not all(x.strip() for x in b['lines']) or b['lines'][0].startswith(' ')):
                return False
            if k == 'figure' and b['legend'] and b['legend'][0]['k'] != 'text':
                return False
            if k == 'table' and (len(b['rows']) < 2 or len({len(r) for r in b['rows']}) != 1 or len(b['rows'][0]) < 2 or not all(c and c[0]['k'] == 'text' for r in b['rows'] for c in r)):
                return False
            prev = k
        return True
    if not all(c and c[0]['k'] == 'text' for part in ('header', 'footer') for c in doc.get(part, ())):
        return False
    return walk(doc) and used <= defined and ok(doc['blocks'], True)
