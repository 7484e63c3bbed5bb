"""
Random creole documents as abstract syntax trees, several ways to write them down and
the html structure they mean (an independent model of the markup, it shares no code with
the converter).

Nodes are JSON dicts: {"k": kind, ...}, children under "c".
"""

from vf import words as W

TYPEFACES = {  # kind: (markup, html tag)
    'strong': ('**', 'strong'), 'em': ('//', 'i'), 'mono': ('##', 'tt'), 'sup': ('^^', 'sup'),
    'sub': (',,', 'sub'), 'under': ('__', 'u'), 'small': ('--', 'small'), 'del': ('~~', 'del'),
}
ESCAPABLE = '*/#^,_-[]{}<>|\\=!&"\'.:aZ1é'
TARGET_CHARS = 'abcXYZ019._?&=%+;"\'<>@!$()é中'
PROTOS = ('http', 'https', 'ftp', 'nntp', 'news', 'mailto', 'telnet', 'file', 'irc')

BIG = ('word', 'target', 'label', 'typeface', 'inline', 'nested', 'line', 'head', 'item', 'depth', 'column', 'row', 'pre', 'block')


class Gen:
    """ cfg flags: table cells forbid "|"; every feature can be switched off """

    def __init__(self, rng, features=None, special=W.SPECIAL, uni=0.15):
        self.r = rng
        self.special = special
        self.uni = uni
        self.features = {'code', 'escape', 'url', 'link', 'image', 'br', 'size', 'typeface', 'rawlabel',
                         'pre', 'table', 'list', 'hr', 'head', 'headmarkup', 'continuation', 'adjacent', 'mixed',
                         'odd-space', 'marks', 'empty-item', 'inner-space'} if features is None else set(features)

        self.big = None  # see document()

    def on(self, f):
        return f in self.features

    def n(self, lo, hi, what):
        """ a number of somethings; some documents have very many of one thing """
        if self.big == what:
            return self.r.randint(hi * 2, hi * self.r.choice((4, 8, 16)))
        return self.r.randint(lo, hi)

    # ------------------------------------------------------------ inline

    def word(self, cell=False):
        sp = self.special
        return W.word(self.r, sp.replace('|', ''), self.uni, 90 if self.big == 'word' and self.r.random() < 0.2 else 6)

    def target(self, cell=False, image=False):
        r = self.r
        n = self.n(1, 8, 'target')
        body = W.alnum(r, 0.05)
        for _ in range(n):
            ch = r.choice(TARGET_CHARS)
            if ch != body[-1]:   # no doubled mark
                body += ch
        body += W.alnum(r, 0.05)
        t = r.random()
        if t < 0.35:
            return f'{r.choice(PROTOS[:3])}://{body}/{W.plain(r)}'
        if t < 0.5:
            return f'/{body}'
        if t < 0.6:
            return f'{body}#{W.plain(r)}'
        if t < 0.7:
            return f'{body} {W.plain(r)}'
        if t < 0.75:
            return f'javascript:{body}'
        if t < 0.8:
            return f'{r.choice(("data/", "data", "/x/data:", "metadata:"))}{body}'
        return body

    def label(self, depth):
        """ link label: raw text, images and forced line breaks """
        out = [{'k': 'text', 's': self.word()}]
        for _ in range(self.n(0, 2, 'label')):
            t = self.r.random()
            if t < 0.2 and self.on('image') and depth > 0:
                out.append({'k': 'text', 's': ' '})
                out.append(self.image())
                out.append({'k': 'text', 's': ' '})
            elif t < 0.3 and self.on('br'):
                out.append({'k': 'br'})
            else:
                out.append({'k': 'text', 's': ' '})
            out.append({'k': 'text', 's': self.word()})
        return out

    def image(self):
        r = self.r
        node = {'k': 'image', 'target': self.target(image=True).replace(' ', '_'), 'alt': None, 'size': None}
        if r.random() < 0.7:
            n = r.randint(30, 200) if r.random() < 0.01 else self.n(1, 3, 'label')
            node['alt'] = ' '.join(self.word() for _ in range(n))
        if self.on('size') and r.random() < 0.3:
            node['size'] = [r.randint(1, 3000), r.randint(1, 3000)] if r.random() < 0.95 else [r.choice((0, 5, 10000000)), r.choice((0, 7, 12345))]
            if r.random() < 0.2:
                node['alt'] = None
        node['sp'] = r.random() < 0.3
        return node

    def atom(self, depth, used, cell):
        """ one inline element that is not a word """
        r = self.r
        choices = []
        if depth > 0 and self.on('typeface'):
            free = [t for t in TYPEFACES if t not in used]
            if free:
                choices += ['typeface'] * 4
        for f in ('link', 'image', 'url', 'escape', 'br', 'code'):
            if self.on(f):
                choices.append(f)
        if not choices:
            return {'k': 'text', 's': self.word()}
        c = r.choice(choices)
        if c == 'typeface':
            t = r.choice(free)
            node = {'k': t, 'c': self.inlines(depth - 1, used | {t}, cell, self.n(1, 3, 'typeface'))}
            if self.on('inner-space') and r.random() < 0.1:
                node['sp'] = [r.choice(('', ' ', '  ')), r.choice(('', ' '))]
            return node
        if c == 'link':
            node = {'k': 'link', 'target': self.target(), 'c': None, 'sp': r.random() < 0.3}
            if r.random() < 0.7:
                node['c'] = self.label(depth)
            return node
        if c == 'image':
            return self.image()
        if c == 'url':
            return {'k': 'url', 'esc': r.random() < 0.25,
                    's': f'{r.choice(PROTOS)}://{W.plain(r)}.{W.plain(r)}/{W.word(r, "&=%+;<>.?", 0.05)}'}
        if c == 'escape':
            ch = r.choice(ESCAPABLE)
            if cell and ch == '|':
                ch = '*'
            return {'k': 'escape', 's': ch}
        if c == 'br':
            return {'k': 'br'}
        return {'k': 'code', 's': self.code(bool(used), cell)}

    def code(self, inside, cell):
        """ nowiki text; at the top level it may contain any other markup """
        r = self.r
        if inside or r.random() < 0.5:
            return self.word() + ' ' * r.randint(0, 2) + self.word()
        parts = ['**', '//', '[[', ']]', '~', '<b>', '&amp;', '\\\\', '{{', '<<toc>>', '==', 'a', ' ', '##', '"', '</code>',
                 'http://x', '~~', '--', '__', '^^', ',,', '<<', '>>', '|']
        return self.word() + ''.join(r.choice(parts) for _ in range(r.randint(1, 5))) + self.word()

    def inlines(self, depth, used=frozenset(), cell=False, n=None):
        """ begins and ends with a word """
        r = self.r
        n = self.n(1, 5, 'inline') if n is None else n
        out = [{'k': 'text', 's': self.word()}]
        for _ in range(n - 1):
            if r.random() < 0.45:
                out.append({'k': 'text', 's': ' ' + self.word()})
            else:
                a = self.atom(depth, frozenset(used), cell)
                # an url needs a space before and after it
                glued = a['k'] not in ('url',) and r.random() < 0.35
                sep = '' if glued else r.choice(('  ', '\t', ' \t')) if self.on('odd-space') and r.random() < 0.05 else ' '
                if sep:
                    out.append({'k': 'text', 's': sep})
                out.append(a)
                glued = a['k'] not in ('url',) and r.random() < 0.35
                out.append({'k': 'text', 's': ('' if glued else ' ') + self.word()})
        return out

    # ------------------------------------------------------------ blocks

    def line(self, depth=3):
        ln = self.inlines(8 if self.big == 'nested' else depth)
        # a line may start with an inline element, too
        if self.r.random() < 0.25:
            a = self.atom(depth, frozenset(), False)
            if a['k'] not in ('br', 'escape', 'mono', 'text'):
                ln = [a, {'k': 'text', 's': ' '}] + ln
        return ln

    def para(self, maxlines=4):
        r = self.r
        return {'k': 'p', 'lines': [self.line() for _ in range(self.n(1, maxlines, 'line'))]}

    def head(self):
        r = self.r
        if self.on('headmarkup') and r.random() < 0.4:
            parts = ['**a**', '//b//', '<b>', '&', '"q"', '[[c]]', '{{d}}', '~e', "it's", 'a=b', '{{{f}}}', 'g|h', '#i', '<<k>>']
            text = self.word() + ' ' + ' '.join(r.choice(parts) for _ in range(r.randint(1, 3))) + ' ' + self.word()
        else:
            text = ' '.join(self.word() for _ in range(self.n(1, 4, 'head')))
        lead = r.choice((' ', ' ', '', '  ', '\t'))
        if lead and self.on('headmarkup') and r.random() < 0.05:
            text = r.choice(('=', '==', '= ')) + text
        return {'k': 'h', 'level': r.choice((1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 12)), 's': text,
                'tail': r.choice(('', '', '=', 'same', ' same ', ' ')), 'lead': lead}

    def list_(self):
        r = self.r
        items = []
        level = 1
        kind = {1: r.choice('*#')}
        deep = self.big == 'depth'
        for _ in range(r.randint(10, 40) if deep else self.n(1, 7, 'item')):
            items.append({'b': level, 'kind': kind[level], 'c': self.inlines(2),
                          'ind': r.choice(('', '', ' ', '  ', '\t', ' ' * level)), 'gap': r.choice((' ', ' ', ' ', '', '  ', '\t'))})
            if self.on('marks') and level > 1 and r.random() < 0.1:
                # only the last mark tells the kind
                items[-1]['marks'] = ''.join(r.choice('*#') for _ in range(level - 1)) + kind[level]
            if self.on('empty-item') and len(items) > 1 and r.random() < 0.03:
                items[-1]['c'] = []
            t = r.random()
            if t < (0.8 if deep else 0.35) and level < (30 if deep else 6):
                level += 1
                kind[level] = r.choice('*#')
            elif t < 0.6 and level > 1:
                level = r.randint(1, level - 1)
            if self.on('mixed') and r.random() < 0.12:
                kind[level] = '#' if kind[level] == '*' else '*'
        node = {'k': 'list', 'items': items, 'cont': []}
        if self.on('continuation') and r.random() < 0.25:
            node['cont'] = [self.inlines(2) for _ in range(r.randint(1, 2))] if items[-1]['c'] else []
        return node

    def table(self):
        r = self.r
        cols = self.n(1, 4, 'column')
        rows = []
        for y in range(self.n(1, 4, 'row')):
            row = []
            for x in range(cols if r.random() < 0.8 else r.randint(1, 5)):
                if r.random() < (0.7 if y == 0 else 0.1):
                    row.append({'head': True, 'c': self.cellhead()})
                elif r.random() < 0.12:
                    row.append({'head': False, 'c': []})
                else:
                    row.append({'head': False, 'c': self.inlines(2, cell=True, n=r.randint(1, 4))})
            rows.append({'cells': row, 'close': r.random() < 0.85, 'ind': r.choice(('', '', ' ', '  ', '\t')),
                         'pad': r.choice((' ', ' ', '', '  ')), 'trail': r.choice(('', '', ' ', '  '))})
        for row in rows:
            # the last cell of a row that is not closed must not be empty
            if not row['cells'][-1]['c']:
                row['close'] = True
        return {'k': 'table', 'rows': rows}

    def cellhead(self):
        return self.inlines(1, cell=True, n=self.r.randint(1, 2))

    def pre(self):
        r = self.r
        lines = []
        for _ in range(self.n(1, 5, 'pre')):
            t = r.random()
            if t < 0.5:
                lines.append(' ' * r.choice((0, 0, 2, 4)) + ' '.join(self.word() for _ in range(r.randint(1, 3))))
            elif t < 0.6:
                lines.append('')
            elif t < 0.7:
                lines.append(r.choice(('}}}', ' }}}', '\t}}}', '  \t}}}', '}}} ', '}}}\t ')))
            else:
                lines.append(r.choice(('**a**', '= b =', '* c', '<b>d</b> &amp;', '[[e]]', '<<toc>>', '|f|', '----',
                                       '~~g~~', '~h', '{{{', 'x }}} y', '\\\\', '"i"', '<</m>>')))
        if lines[-1] == '':
            lines[-1] = 'z'
        return {'k': 'pre', 'lines': lines, 'trail': r.choice(('', '', ' ', '\t')), 'end': r.choice(('', '', '', ' ', '\t', ' \t '))}

    def block(self):
        r = self.r
        kinds = ['p'] * 5
        for f, n in (('head', 2), ('list', 3), ('table', 3), ('hr', 1), ('pre', 2)):
            if self.on(f):
                kinds += [f] * n
        k = r.choice(kinds)
        if k == 'p':
            return self.para()
        if k == 'head':
            return self.head()
        if k == 'list':
            return self.list_()
        if k == 'table':
            return self.table()
        if k == 'hr':
            return {'k': 'hr', 'ind': r.choice(('', ' ', '  ', '\t')), 'trail': r.choice(('', ' ', '\t'))}
        return self.pre()

    def document(self, lo=1, hi=6):
        r = self.r
        blocks = []
        if r.random() < 0.04:
            self.big = r.choice(BIG)
        for _ in range(self.n(lo, min(hi, 6), 'block') if self.big == 'block' else r.randint(lo, min(hi, 4) if self.big else hi)):
            b = self.block()
            # number of blank lines before the block; 0: directly after the block before
            b['blank'] = r.choice((1, 1, 1, 2, 3))
            if self.on('adjacent') and r.random() < 0.3:
                b['blank'] = 0
            b['blankws'] = r.choice(('', '', ' ', '\t')) if self.on('odd-space') else ''
            blocks.append(b)
        return {'blocks': blocks}


# ---------------------------------------------------------------- how it is written

def w_inline(nodes):
    out = []
    for n in nodes:
        k = n['k']
        if k == 'text':
            out.append(n['s'])
        elif k in TYPEFACES:
            m = TYPEFACES[k][0]
            before, after = n.get('sp') or ('', '')
            out.append(m + before + w_inline(n['c']) + after + m)
        elif k == 'link':
            sp = ' ' if n['sp'] else ''
            if n['c'] is None:
                out.append(f'[[{n["target"]}{sp}]]')
            else:
                out.append(f'[[{n["target"]}{sp}|{sp}{w_inline(n["c"])}{sp}]]')
        elif k == 'image':
            sp = ' ' if n['sp'] else ''
            s = n['target']
            if n['alt'] is not None or n['size']:
                s += f'{sp}|{sp}{n["alt"] or ""}'
            if n['size']:
                s += f'|{n["size"][0]}x{n["size"][1]}'
            out.append('{{' + s + sp + '}}')
        elif k == 'url':
            out.append(('~' if n['esc'] else '') + n['s'])
        elif k == 'escape':
            out.append('~' + n['s'])
        elif k == 'br':
            out.append('\\\\')
        elif k == 'code':
            out.append('{{{' + n['s'] + '}}}')
        elif k == 'macro':
            out.append(n['src'])
        else:
            raise KeyError(k)
    return ''.join(out)


def w_block(b):
    k = b['k']
    if k == 'p':
        return '\n'.join(w_inline(ln) for ln in b['lines'])
    if k == 'h':
        eq = '=' * b['level']
        return eq + b['lead'] + b['s'] + b['tail'].replace('same', eq)
    if k == 'list':
        lines = [f'{i["ind"]}{i.get("marks") or i["kind"] * i["b"]}{i["gap"]}{w_inline(i["c"])}' for i in b['items']]
        lines += [w_inline(c) for c in b['cont']]
        return '\n'.join(lines)
    if k == 'table':
        lines = []
        for row in b['rows']:
            s = row['ind']
            for c in row['cells']:
                pad = row['pad']
                if not c['c']:
                    s += '|' + pad
                else:
                    s += '|' + ('=' if c['head'] else '') + pad + w_inline(c['c']) + pad
            lines.append(s + ('|' if row['close'] else '') + row['trail'])
        return '\n'.join(lines)
    if k == 'hr':
        return f'{b["ind"]}----{b["trail"]}'
    if k == 'pre':
        out = []
        for ln in b['lines']:
            if ln.strip() == '}}}':
                ln = ln.replace('}}}', '~}}}')
            out.append(ln)
        return '{{{' + b['trail'] + '\n' + '\n'.join(out) + '\n}}}' + b.get('end', '')
    if k == 'raw':
        return b['s']
    raise KeyError(k)


def separated(prev, b):
    """ number of blank lines that are needed between two blocks at least """
    if prev is None:
        return 0
    pk, k = prev['k'], b['k']
    if k == 'p' and pk in ('p', 'list'):
        return 1   # would be the same paragraph / continue the list item
    if pk == k and k in ('list', 'table'):
        return 1   # would be one list / table
    if pk == 'p' and k == 'list':
        return 0
    return 0


def write(doc):
    out = []
    prev = None
    for b in doc['blocks']:
        n = max(b.get('blank', 1), separated(prev, b))
        if prev is not None:
            out.append('\n' + (b.get('blankws', '') + '\n') * n)
        out.append(w_block(b))
        prev = b
    return ''.join(out)


# ---------------------------------------------------------------- what it means

def t_inline(nodes, strict=False):
    out = []
    for n in nodes:
        k = n['k']
        if k == 'text':
            out.append(n['s'])
        elif k in TYPEFACES:
            before, after = n.get('sp') or ('', '')
            out.append((TYPEFACES[k][1], (), [before] + t_inline(n['c'], strict) + [after]))
        elif k == 'link':
            if n['c'] is None:
                inside = [n['target']]
            else:
                inside = t_inline(n['c'], strict)
            out.append(('a', (('href', n['target']),), inside))
        elif k == 'image':
            text = n['alt']
            if strict and n['size']:
                text = (text or '') + f'|{n["size"][0]}x{n["size"][1]}'
            if text is None:
                text = n['target']
            at = {'src': n['target'], 'title': text, 'alt': text}
            if n['size'] and not strict:
                at['width'], at['height'] = str(n['size'][0]), str(n['size'][1])
            out.append(('img', tuple(sorted(at.items())), []))
        elif k == 'url':
            out.append(n['s'] if n['esc'] else ('a', (('href', n['s']),), [n['s']]))
        elif k == 'escape':
            out.append(n['s'])
        elif k == 'br':
            out.append(('br', (), []))
        elif k == 'code':
            out.append(('code', (), [n['s']]))
        elif k == 'macro':
            out.extend(n['tree'])
        else:
            raise KeyError(k)
    return out


def t_lines(lines, blog, strict):
    out = []
    for i, ln in enumerate(lines):
        if i:
            if blog:
                out.append(('br', (), []))
            else:
                out.append(' ')
        out += t_inline(ln, strict)
    return out


def t_list(b, blog, strict):
    """ a list of top level lists """
    top = []
    stack = []   # (level, kind, list node)
    for it in b['items']:
        lvl, kind = it['b'], it['kind']
        tag = 'ul' if kind == '*' else 'ol'
        while stack and stack[-1][0] > lvl:
            stack.pop()
        if stack and stack[-1][0] == lvl and stack[-1][1] != tag:
            stack.pop()
        if not stack or stack[-1][0] < lvl:
            new = (tag, (), [])
            if stack:
                stack[-1][2][2][-1][2].append(new)
            else:
                top.append(new)
            stack.append((lvl, tag, new))
        stack[-1][2][2].append(('li', (), t_inline(it['c'], strict)))
    last = stack[-1][2][2][-1][2]
    for c in b['cont']:
        last += [('br', (), [])] if blog else [' ']
        last += t_inline(c, strict)
    return top


def t_block(b, blog, strict):
    k = b['k']
    if k == 'p':
        return [('p', (), t_lines(b['lines'], blog, strict))]
    if k == 'h':
        return [(f'h{min(b["level"], 6)}', (), [b['s']])]
    if k == 'list':
        return t_list(b, blog, strict)
    if k == 'table':
        return [('table', (), [('tr', (), [('th' if c['head'] and c['c'] else 'td', (), t_inline(c['c'], strict))
                                           for c in row['cells']]) for row in b['rows']])]
    if k == 'hr':
        return [('hr', (), [])]
    if k == 'pre':
        return [('pre', (), ['\n' + '\n'.join(b['lines']) + '\n'])]
    if k == 'raw':
        return b['tree']
    raise KeyError(k)


def expected(doc, blog=True, strict=False):
    out = []
    for b in doc['blocks']:
        out += t_block(b, blog, strict)
    return ('r', (), out)


def valid(doc):
    """ shrunk cases can leave the domain of the model """
    for b in doc['blocks']:
        k = b['k']
        if k == 'p' and (not b['lines'] or not all(b['lines'])):
            return False
        if k == 'list':
            if not b['items'] or b['items'][0]['b'] != 1 or not b['items'][0]['c'] or (b['cont'] and not b['items'][-1]['c']):
                return False
            open_ = 0
            for i in b['items']:
                if i['b'] > open_ + 1:
                    return False
                open_ = i['b']
        if k == 'table' and (not b['rows'] or not all(r['cells'] for r in b['rows'])):
            return False
        if k == 'pre' and not b['lines']:
            return False
    return bool(doc['blocks'])


def kinds_of(doc):
    """ coarse signature of a document: the blocks and the inline elements in them """
    def inl(nodes):
        return tuple(sorted({n['k'] for n in nodes if n['k'] != 'text'}))
    sig = []
    for b in doc['blocks']:
        if b['k'] == 'p':
            sig.append(('p', len(b['lines']), tuple(inl(ln) for ln in b['lines'])))
        elif b['k'] == 'list':
            sig.append(('list', tuple((i['b'], i['kind'], inl(i['c'])) for i in b['items']), len(b['cont'])))
        elif b['k'] == 'table':
            sig.append(('table', tuple(tuple((c['head'], inl(c['c'])) for c in r['cells']) for r in b['rows'])))
        else:
            sig.append((b['k'], b.get('level')))
        sig.append(b.get('blank', 1) > 0)
    return tuple(sig)
