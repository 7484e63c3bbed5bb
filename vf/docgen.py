"""
Random documents that mean the same in html and in a markup language, for the round trips over third party renderers.

Nodes are JSON dicts {"k": tag, "a": {attrs}, "c": [...]}; text: {"k": "text", "s": ...}. A document: {"blocks": [...]}.
Inline elements stand between words with spaces (or punctuation) around them.
"""
from vf import words as W

BIG = ('words', 'url', 'inline', 'item', 'depth', 'column', 'row', 'pre', 'block')


class DocGen:
    def __init__(self, rng, typefaces=('strong', 'i', 'tt'), transparent=(), nested=False, special='&<>\'"%$=+!?;()', uni=0.15, br=True, link_title=False,
                 img_title=False, urls=None, blocks=('p', 'h', 'list', 'table', 'pre', 'hr'), nested_ok=None, header='whole', same_list_adjacent=False,
                 pre_lines=None, head_inline=True, levels=6, tail=(',', '.', ';', '!', ':'), list_inline=True, empty_cells=True, image_tail=True, url_labels=False,
                 glue=0, glue_elements=True, glue_before=('', '', '(')):
        self.r = rng
        self.typefaces, self.transparent, self.nested = typefaces, transparent, nested
        self.special, self.uni, self.br = special, uni, br
        self.link_title, self.img_title = link_title, img_title
        self.urls = urls or self.url
        self.kinds = blocks
        self.nested_ok = nested_ok or (lambda parent, child: True)
        self.header = header
        self.same_list_adjacent = same_list_adjacent
        self.pre_lines = pre_lines or self.prelines
        self.head_inline, self.levels, self.tail = head_inline, levels, tail
        self.empty_cells, self.image_tail = empty_cells, image_tail
        self.url_labels = url_labels
        # no space between text and elements in some documents
        self.glue = 0.4 if glue and rng.random() < glue else 0
        self.glue_elements, self.glue_before = glue_elements, glue_before
        self.links, self.images = {}, {}
        self.big = rng.choice(BIG) if rng.random() < 0.04 else None

    def n(self, lo, hi, what):
        """ a number of somethings; some documents have very many of one thing """
        if self.big == what:
            return self.r.randint(hi * 2, hi * self.r.choice((4, 8, 16)))
        return self.r.randint(lo, hi)

    def word(self):
        return W.word(self.r, self.special, self.uni).replace('&amp;x', 'x')

    def words(self, lo=1, hi=3):
        return ' '.join(self.word() for _ in range(self.n(lo, hi, 'words')))

    def url(self):
        r = self.r
        return r.choice(('http://{}.{}/{}', 'https://{}/{}?{}=1&a=b', '/{}/{}/{}/', '{}/{}.{}', '../{}-{}#{}', 'mailto:{}.{}.{}')).format(
            *(W.plain(r, 80 if self.big == 'url' else 6) for _ in range(3)))

    def src(self):
        r = self.r
        a, b = (W.plain(r, 80 if self.big == 'url' else 6) for _ in range(2))
        return r.choice(('/{}.png', '/{}.jpg', '/{}/{}.gif', 'data/{}.png', 'data{}.png', '/data/{}', 'http://{}.com/{}.webp', '/metadata:{}.png', 'img/data:{}', '../{}/{}.jpeg', '{}.PNG', '/{}.png?{}=1', 'http://{}.com/{}.svg#x', '/{}?u=/{}.png')).format(a, b)

    def taken(self, label):
        return any(label.lower() == x.lower() for x in (*self.links, *self.images))

    def link(self):
        r = self.r
        if self.links and r.random() < 0.15:
            label = r.choice(sorted(self.links))
        else:
            label = self.words()
            url = self.urls()
            t = r.random()
            if self.url_labels and t < 0.15:  # the label is (nearly) the target
                label = r.choice((url, url.upper(), url.lower(), url + '/', url[:-1], url.split('/')[-1])).lstrip('/.') or label
            while self.taken(label):
                label = self.words()
            self.links[label] = url
        a = {'href': self.links[label]}
        if self.link_title and r.random() < 0.3:
            a['title'] = ' '.join(W.plain(r) for _ in range(r.randint(1, 2)))
        return {'k': 'a', 'a': a, 'c': [{'k': 'text', 's': label}]}

    def image(self):
        r = self.r
        if self.images and r.random() < 0.15:
            alt = r.choice(sorted(self.images))
        else:
            alt = self.words()
            while self.taken(alt):
                alt = self.words()
            self.images[alt] = self.src()
            if r.random() < 0.2:
                name = self.images[alt].rsplit('/', 1)[-1]
                if not self.taken(name):
                    self.images[name] = self.images.pop(alt)
                    alt = name
        a = {'src': self.images[alt], 'alt': alt}
        if self.img_title and r.random() < 0.4:
            a['title'] = ' '.join(W.plain(r) for _ in range(r.randint(1, 2)))
        return {'k': 'img', 'a': a, 'c': []}

    def element(self, depth, used, br):
        r = self.r
        t = r.random()
        if t < 0.5 or not depth:
            free = [x for x in self.typefaces if x not in used]
            if not free:
                return None
            k = r.choice(free)
            if self.nested and depth > 1 and k not in ('tt', 'code') and r.random() < 0.4:
                inner = self.inlines(depth - 1, used | {k}, False, r.randint(1, 3))
            else:
                inner = [{'k': 'text', 's': self.words()}]
            if self.transparent and r.random() < 0.2:
                inner = [{'k': r.choice(self.transparent), 'a': {}, 'c': inner}]
            return {'k': k, 'a': {}, 'c': inner}
        if t < 0.6 and self.transparent:
            return {'k': r.choice(self.transparent), 'a': {}, 'c': self.inlines(depth - 1, used, br, r.randint(1, 2)) if self.nested else [{'k': 'text', 's': self.words()}]}
        if t < 0.8 and 'a' not in used:
            return self.link()
        if t < 0.92:
            return self.image()
        if br and self.br:
            return {'k': 'br', 'a': {}, 'c': []}
        return None

    def inlines(self, depth=2, used=frozenset(), br=True, n=None):
        r = self.r
        n = self.n(1, 5, 'inline') if n is None else n
        out = []
        if r.random() < 0.75:
            out.append({'k': 'text', 's': self.words()})
        for _ in range(n):
            e = self.element(depth, used, br and bool(out)) if r.random() < 0.5 else None
            if e is None:
                out.append({'k': 'text', 's': (' ' if out else '') + self.words()})
                continue
            glue = e['k'] != 'br' and r.random() < self.glue
            if glue and (not out or out[-1]['k'] == 'text' or self.glue_elements):
                before = r.choice(self.glue_before)
                if before and out:
                    out.append({'k': 'text', 's': (' ' if out else '') + before})
            elif out and e['k'] != 'br':
                out.append({'k': 'text', 's': ' '})
            out.append(e)
            if r.random() < self.glue and e['k'] != 'br':
                after = r.choice(('', self.word(), self.word(), self.word() + ' ' + self.words(), *((')', ') ' + self.words()) if len(out) > 1 else ())))
                if after:
                    out.append({'k': 'text', 's': after})
                continue
            if e['k'] == 'br':
                out.append({'k': 'text', 's': self.words()})
            elif r.random() < 0.3 and (self.image_tail or e['k'] != 'img'):
                out.append({'k': 'text', 's': r.choice(self.tail) + ' ' + self.words()})
        return out

    def list_(self, depth=1, parent=None):
        r = self.r
        kinds = [k for k in ('ul', 'ol') if self.nested_ok(parent, k)]
        k = r.choice(kinds)
        items = []
        deep = self.big == 'depth'
        for _ in range(r.randint(1, 2) if deep else self.n(1, 4, 'item') if depth < 3 else r.randint(1, 3)):
            c = self.inlines(1)
            if depth < (14 if deep else 4) and r.random() < (0.75 if deep else 0.1 if self.big == 'item' else 0.3) and any(self.nested_ok(k, x) for x in ('ul', 'ol')):
                c.append(self.list_(depth + 1, k))
            items.append({'k': 'li', 'a': {}, 'c': c})
        return {'k': k, 'a': {}, 'c': items}

    def table(self):
        r = self.r
        cols = self.n(1, 4, 'column')
        head = self.header == 'always' or r.random() < 0.6
        rows = []
        for y in range(self.n(2, 4, 'row')):
            cells = []
            for _ in range(cols):
                th = (y == 0 and head) if self.header in ('whole', 'always') else r.random() < 0.3
                c = [] if self.empty_cells and not th and r.random() < 0.1 and cols > 1 else self.inlines(1, br=False)
                cells.append({'k': 'th' if th else 'td', 'a': {}, 'c': c})
            rows.append({'k': 'tr', 'a': {}, 'c': cells})
        # no row without text
        for row in rows:
            if not any(c['c'] for c in row['c']):
                row['c'][0]['c'] = self.inlines(1, br=False)
        return {'k': 'table', 'a': {}, 'c': rows}

    def prelines(self):
        r = self.r
        parts = ('**a**', '*b*', '`c`', '# d', '* e', '1. f', '<b>&amp;</b>', '[g](h)', '|i|', '----', '::', '.. j', '    k', '_l_', 'm\\n', '=====', '"o":p')
        lines = []
        for _ in range(self.n(1, 5, 'pre')):
            t = r.random()
            lines.append(' ' * r.choice((0, 0, 0, 2, 4)) + (r.choice(parts) if t < 0.4 else self.words()) if t < 0.85 else '')
        if not lines[0].strip():
            lines[0] = self.word()
        if not lines[-1].strip():
            lines[-1] = self.word()
        # one line without indentation: a common indentation has no meaning in some languages
        lines[r.randrange(len(lines))] = self.words()
        return lines

    def document(self, lo=1, hi=6):
        r = self.r
        base = r.randint(1, self.levels)
        level = None
        blocks = []
        for _ in range(self.n(lo, min(hi, 6), 'block') if self.big == 'block' else r.randint(lo, min(hi, 3) if self.big else hi)):
            k = r.choice([x for x in self.kinds for _ in range({'p': 5, 'h': 3, 'list': 3, 'table': 2, 'pre': 2, 'hr': 1}[x])])
            prev = blocks[-1]['k'] if blocks else None
            if k == 'h':
                level = base if level is None else r.randint(base, min(level + 1, self.levels))
                blocks.append({'k': f'h{level}', 'a': {}, 'c': self.inlines(1, br=False, n=r.randint(0, 2)) if self.head_inline else [{'k': 'text', 's': self.words()}]})
                if not blocks[-1]['c']:
                    blocks[-1]['c'] = [{'k': 'text', 's': self.words()}]
            elif k == 'list':
                b = self.list_()
                if prev in ('ul', 'ol') and not self.same_list_adjacent:
                    blocks.append({'k': 'p', 'a': {}, 'c': self.inlines()})
                blocks.append(b)
            elif k == 'table':
                blocks.append(self.table())
            elif k == 'pre':
                blocks.append({'k': 'pre', 'a': {}, 'lines': self.pre_lines()})
            elif k == 'hr':
                if prev is not None and prev != 'hr' and prev[0] != 'h':
                    blocks.append({'k': 'hr', 'a': {}, 'c': []})
                    blocks.append({'k': 'p', 'a': {}, 'c': self.inlines()})
            else:
                blocks.append({'k': 'p', 'a': {}, 'c': self.inlines()})
        if not blocks:
            blocks.append({'k': 'p', 'a': {}, 'c': self.inlines()})
        return {'blocks': blocks, 'seed': r.randrange(1 << 30), 'plain': r.random() < 0.2}


def tree(node, rename=None, attrs=None):
    """ node -> htmltree; rename: {tag: other tag, or None: without the tag, or a function(node, children) -> list} """
    out = trees(node, rename or {}, attrs)
    return out[0]


def trees(node, rename, attrs):
    k = node['k']
    if k == 'text':
        return [node['s']]
    if k == 'pre':
        children = ['\n' + '\n'.join(node['lines']) + '\n']
    else:
        children = [t for c in node['c'] for t in trees(c, rename, attrs)]
    to = rename.get(k, k)
    if callable(to):
        return to(node, children)
    if to is None:
        return children
    at = node['a']
    if attrs:
        at = attrs(k, at)
    return [(to, tuple(sorted(at.items())), children)]


def doc_tree(doc, rename=None, attrs=None):
    return ('r', (), [t for b in doc['blocks'] for t in trees(b, rename or {}, attrs)])


def valid(doc, glue=True):
    """ shrunk cases can leave the domain """
    def inl(nodes):
        if not nodes:
            return False
        a, b = nodes[0], nodes[-1]
        for x, side in ((a, 0), (b, -1)):
            if x['k'] == 'br' or (x['k'] == 'text' and (not x['s'].strip() or x['s'][side].isspace() or not (x['s'][0].isalnum() or x['s'][0] > '\x7f') and x is a)):
                return False
        for x, y in zip(nodes, nodes[1:]):
            if y['k'] == 'br':
                if x['k'] == 'br':
                    return False
                continue
            if x['k'] == 'br':
                if y['k'] != 'text' or y['s'][:1] == ' ' or not (y['s'][:1].isalnum() or y['s'][:1] > '\x7f'):
                    return False
                continue
            if x['k'] != 'text' and y['k'] != 'text' and not (glue and x['k'] != y['k']):
                return False
            if x['k'] == 'text' and y['k'] != 'text' and x['s'][-1:] != ' ' and not glue:
                return False
            if x['k'] == 'text' and y['k'] == 'text' and not x['s'].endswith(' ') and not y['s'].startswith(' '):
                return False
            if x['k'] != 'text' and y['k'] == 'text' and y['s'][:1].isalnum() and not glue:
                return False
        return all(inl(n['c']) for n in nodes if n['k'] not in ('text', 'br', 'img'))

    def li(item):
        c = item['c']
        if c and c[0]['k'] == 'p':  # several blocks in the item
            own = [x for x in c if x['k'] in ('p', 'pre')]
            sub = c[len(own):]
            return (c[:len(own)] == own and len(sub) < 2 and all(x['k'] in ('ul', 'ol') and lst(x) for x in sub)
                    and all(inl(x['c']) if x['k'] == 'p' else pre(x) for x in own))
        own = [x for x in c if x['k'] not in ('ul', 'ol')]
        sub = [x for x in c if x['k'] in ('ul', 'ol')]
        return c == own + sub and len(sub) < 2 and inl(own) and all(lst(x) for x in sub)

    def pre(b):
        return bool(b['lines'] and b['lines'][0].strip() and b['lines'][-1].strip()) and not all(x.startswith(' ') for x in b['lines'] if x.strip())

    def lst(b):
        return bool(b['c']) and all(li(x) for x in b['c'])

    last = None
    for i, b in enumerate(doc['blocks']):
        k = b['k']
        if k in ('ul', 'ol'):
            if not lst(b) or last in ('ul', 'ol'):
                return False
        elif k == 'table':
            if len(b['c']) < 2 or len({len(r['c']) for r in b['c']}) != 1 or not b['c'][0]['c']:
                return False
            for r in b['c']:
                if not any(c['c'] for c in r['c']) or not all(inl(c['c']) for c in r['c'] if c['c']):
                    return False
                if any(c['k'] == 'th' and not c['c'] for c in r['c']):
                    return False
        elif k == 'pre':
            if not pre(b):
                return False
        elif k == 'hr':
            if last is None or last == 'hr' or last[0] == 'h' or i + 1 >= len(doc['blocks']) or doc['blocks'][i + 1]['k'] != 'p':
                return False
        elif not inl(b['c']):
            return False
        last = k
    return bool(doc['blocks'])


def kinds_of(node):
    """ signature without the text """
    if isinstance(node, list):
        return tuple(kinds_of(n) for n in node if n['k'] != 'text')
    return (node['k'], len(node.get('lines', ())), kinds_of(node.get('c', [])))
