"""
Random html: well-formed trees with many spellings, and hostile tag soup.

A tree is [tag, {attrs}, [children]]; text is a str.
"""

import re
from vf import words as W

INLINE = ('strong', 'b', 'i', 'em', 'tt', 'sup', 'sub', 'u', 'small', 'del', 'strike', 'big', 'cite', 'ins', 'code', 'span')
UNKNOWN_INLINE = ('font', 'abbr', 'q', 'kbd', 'var', 'samp', 'mark', 'label', 'x-y', 'acronym', 's', 'time', 'data', 'document')
UNKNOWN_BLOCK = ('section', 'article', 'main', 'header', 'footer', 'figure')
BLOCKS = ('p', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'ul', 'ol', 'table', 'pre', 'hr', 'div', 'blockquote', 'center', 'fieldset', 'form', 'address')
VOID = ('br', 'hr', 'img')
ATTRS = [('class', 'a b'), ('id', 'x'), ('style', 'color: red'), ('title', 'a "b" <c>'), ('data-x', ''), ('onclick', "f('>')"), ('lang', 'de'), ('disabled', None)]


BIG = ('text', 'inline', 'nested', 'item', 'depth', 'column', 'row', 'line', 'block', 'attr', 'pre')


class HG:
    def __init__(self, rng, word=None, unknown=True, tables=True, attrs=True, pre=True, images=True, nested_blocks=True):
        self.r = rng
        self.word = word or (lambda: W.plain(rng))
        self.unknown, self.tables, self.attrs, self.pre, self.images, self.nested = unknown, tables, attrs, pre, images, nested_blocks
        self.big = None  # see document()

    def n(self, lo, hi, what):
        """ a number of somethings; some documents have very many of one thing """
        if self.big == what:
            return self.r.randint(hi * 2, hi * self.r.choice((4, 8, 16)))
        return self.r.randint(lo, hi)

    def attributes(self):
        r = self.r
        if not self.attrs or r.random() < 0.8:
            return {}
        if self.big == 'attr':
            return dict([*ATTRS, *((f'data-{n}', f'v{n}') for n in range(r.randint(1, 30)))])
        return dict(r.choice(ATTRS) for _ in range(r.randint(1, 2)))

    def text(self, n=None):
        r = self.r
        return ' '.join(self.word() for _ in range(n or self.n(1, 3, 'text')))

    def inline(self, depth, link=True, br=True):
        """ list of children; words are glued to tags or separated """
        r = self.r
        out = [self.text()]
        for _ in range(self.n(0, 3, 'inline') if depth > 0 else r.randint(0, 3)):
            t = r.random()
            if t < 0.5 and depth > 0:
                pool = INLINE + (UNKNOWN_INLINE if self.unknown and r.random() < 0.4 else ())
                node = [r.choice(pool), self.attributes(), self.inline(depth - 1, link, br)]
            elif t < 0.65 and link:
                node = ['a', {'href': r.choice(('http://x.y/z', '/a', '#b', 'mailto:c', 'd?e=f&g'))} if r.random() < 0.85 else {'name': 'n'}, self.inline(0, False, False)]
            elif t < 0.75 and self.images:
                node = ['img', {k: v for k, v in (('src', r.choice(('/i.png', 'j.jpg', 'http://k/l.gif'))), ('alt', r.choice((None, 'alt', 'a b'))), ('title', r.choice((None, 'ti', 'tle')))) if v}, []]
            elif t < 0.85 and br:
                node = ['br', {}, []]
            else:
                node = None
            if node:
                out += [r.choice(('', ' ', '\n', ' ')), node, r.choice(('', ' ', '\n', ' '))]
            else:
                out.append(' ')
            out.append(self.text())
        return [c for c in out if c != '']

    def list_(self, depth):
        r = self.r
        items = []
        for _ in range(self.n(1, 4, 'item')):
            c = self.inline(1, br=False)
            if depth > 0 and r.random() < (0.8 if self.big == 'depth' and not any(x[2] and isinstance(x[2][-1], list) and x[2][-1][0] in ('ul', 'ol') for x in items) else 0.05 if self.big in ('depth', 'item') else 0.35):
                c.append(self.list_(depth - 1))
            items.append(['li', self.attributes(), c])
        return [r.choice(('ul', 'ol')), self.attributes(), items]

    def table(self):
        r = self.r
        cols = self.n(1, 4, 'column')
        rows = []
        for y in range(self.n(1, 4, 'row')):
            n = cols if r.random() < 0.8 else r.randint(1, 5)
            rows.append(['tr', self.attributes(), [[('th' if (y == 0 and r.random() < 0.6) else 'td'), self.attributes(), self.inline(1, br=False) if r.random() < 0.9 else []] for _ in range(n)]])
        t = r.random()
        if t < 0.2:
            body = [['tbody', {}, rows]]
        elif t < 0.3 and self.unknown:
            body = [['thead', {}, rows[:1]], ['tbody', {}, rows[1:]]] if len(rows) > 1 else rows
        else:
            body = rows
        return ['table', self.attributes(), body]

    def block(self, depth=2):
        r = self.r
        t = r.random()
        if self.big == 'pre' and self.pre and r.random() < 0.8:
            return r.choice((['pre', {}, [f'{self.text()}']], ['p', {}, [self.text(), ' ', ['pre', {}, [self.text()]], ' ', self.text()]]))
        if self.big == 'nested' and t < 0.4:
            node = self.text()
            for _ in range(r.randint(6, 25)):
                node = [r.choice(INLINE + (UNKNOWN_INLINE if self.unknown else ())), self.attributes(), [self.text(), ' ', node, ' ', self.text()]]
            return ['p', self.attributes(), [node]]
        if t < 0.4:
            return ['p', self.attributes(), self.inline(3)]
        if t < 0.52:
            return [r.choice(BLOCKS[1:7]), self.attributes(), self.inline(1, br=False)]
        if t < 0.67:
            return self.list_(r.choice((0, 1, 1, 2, 4)) if self.big != 'depth' else r.randint(5, 14))
        if t < 0.77 and self.tables:
            return self.table()
        if t < 0.85 and self.pre:
            lines = [' ' * r.choice((0, 0, 2, 4)) + self.text() if r.random() < 0.85 else '' for _ in range(self.n(1, 4, 'line'))]
            if not ''.join(lines).strip():
                lines[0] = self.text()
            return ['pre', {}, [r.choice(('', '\n')) + '\n'.join(lines) + r.choice(('', '\n'))]]
        if t < 0.89:
            return ['hr', {}, []]
        if depth > 0 and self.nested:
            tag = r.choice(('div', 'div', 'blockquote', 'center', 'fieldset', 'address') + (UNKNOWN_BLOCK if self.unknown else ()))
            if r.random() < 0.4 and tag not in UNKNOWN_BLOCK:
                return [tag, self.attributes(), self.inline(2)]
            return [tag, self.attributes(), [self.block(depth - 1) for _ in range(r.randint(1, 3))]]
        return ['p', self.attributes(), self.inline(2)]

    def document(self, lo=1, hi=6):
        if self.r.random() < 0.05:
            self.big = self.r.choice(BIG)
        n = self.r.randint(20, 130) if self.big == 'pre' else self.n(lo, hi, 'block')
        return [self.block() for _ in range(n)]


def escape(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def attr_text(attrs):
    out = []
    for k, v in attrs.items():
        if v is None:
            out.append(f' {k}')
        else:
            out.append(' %s="%s"' % (k, escape(v).replace('"', '&quot;')))
    return ''.join(out)


ANY_ATTRS = ('start', 'type', 'value', 'reversed', 'colspan', 'rowspan', 'width', 'height', 'border', 'align', 'valign', 'class', 'style', 'lang', 'id', 'title', 'href', 'src',
             'alt', 'name', 'rel', 'target', 'summary', 'scope', 'checked', 'disabled', 'dir', 'cite', 'datetime', 'data-x', 'onclick', 'xmlns', 'xml:lang', 'compact', 'noshade',
             'size', 'color', 'face', 'level', 'span', 'headers', 'tabindex', 'role', 'hidden', 'depth', 'parent', 'kind', 'children', 'content', 'attrs', 'text')
ANY_VALUES = ('x', '', '1', '-1', '0', '100%', '12px', '1.5', 'a b', '\xe9', '&amp;', '&#9;', '\xb2', '\u0663', '99999999999', "'", '&quot;', 'a > b', 'a/', '/', '#', 'pre', 'pass',
              'p', 'data:', 'http://', 'a\nb', ':', ';', '=', '{', '%s', '\\', '&', '&bogus;', '//a', '?', 'http://[', 'x' * 200, 'None')


ANY_TAGS = ('a abbr acronym address applet area article aside audio b base basefont bdi bdo bgsound big blink blockquote body button canvas caption center cite code col colgroup '
            'command data datalist dd del details dfn dialog dir div dl dt em embed fieldset figcaption figure font footer form frame frameset h1 h2 h3 h4 h5 h6 head header hgroup html i '
            'iframe image input ins isindex kbd keygen label legend li link listing main map mark marquee math menu meta meter nav nobr noframes noscript object ol optgroup option output '
            'p param picture pre progress q rp rt ruby s samp section select slot small source span strike strong sub summary sup svg table tbody td template textarea tfoot th thead time '
            'tr track tt u ul var video wbr h0 h7 h7 h8 h8 h9 h10 h17 h1x h b1 br2 hr- li_ ul_li td.x a:b a:b:c x-y document headline charref entityref node list image text macro '
            'default any_list blockdata_pre inlinedata_pre unknown children emit root none').split()


def retag(rng, text):
    """ the text with some of its tags renamed """
    names = sorted({m.lower() for m in re.findall(r'</?([a-zA-Z][^\s/>]*)', text)})
    if not names:
        return text
    new = {n: rng.choice(ANY_TAGS) for n in rng.sample(names, min(len(names), rng.choice((1, 1, 2, 4))))}
    return re.sub(r'(</?)([a-zA-Z][^\s/>]*)', lambda m: m[1] + new.get(m[2].lower(), m[2]), text)


def decorate(rng, text, rate=0.5):
    """ tags of the text with any attributes """
    def attr():
        name, value = rng.choice(ANY_ATTRS), rng.choice(ANY_VALUES)
        if rng.random() < 0.05:
            name = name.upper()
        t = rng.random()
        if t < 0.1:
            return f' {name}'
        if t < 0.25 and re.fullmatch(r'[\w%.-]+', value):
            return f' {name}={value}'
        q = "'" if t < 0.4 and "'" not in value else '"'
        return rng.choice((' ', ' ', ' ', '\n', '  ')) + name + rng.choice(('=', '=', '=', ' = ')) + q + value + q

    def tag(m):
        if rng.random() > rate:
            return m[0]
        return m[0] + ''.join(attr() for _ in range(rng.choice((1, 1, 1, 2, 3))))
    return re.sub(r'<[a-zA-Z]\w*', tag, text)


BLOCKISH = set(BLOCKS) | set(UNKNOWN_BLOCK) | {'li', 'tr', 'td', 'th', 'tbody', 'thead'}


def write(nodes, rng=None):
    """ html code; with rng: different spellings and white space between block elements """
    out = []

    def ws():
        if rng:
            out.append(rng.choice(('', '', '\n', '\n\n', ' ', '\n\t', '  \n')))

    def emit(node, known_block):
        if isinstance(node, str):
            out.append(escape(node))
            return
        tag, attrs, children = node
        block = tag in BLOCKISH and tag not in UNKNOWN_BLOCK
        name = tag
        if rng and tag != 'pre' and rng.random() < 0.05:
            name = tag.upper()
        if tag in VOID:
            end = rng.choice(('>', ' />', '/>')) if rng else ' />'
            out.append(f'<{name}{attr_text(attrs)}{end}')
            return
        out.append(f'<{name}{attr_text(attrs)}>')
        container = children and not isinstance(children[0], str) and children[0][0] in BLOCKISH
        for c in children:
            if container and tag != 'pre':
                ws()
            emit(c, block)
        if container and tag != 'pre':
            ws()
        out.append(f'</{name}>')
    for n in nodes:
        if isinstance(n, str):
            emit(n, False)
            continue
        ws() if n[0] != 'pre' or not rng else out.append(rng.choice(('\n', '', ' ')))
        emit(n, True)
    ws()
    return ''.join(out)


SOUP = ['<p>', '</p>', '<b>', '</b>', '<i>', '</i>', '<ul>', '</ul>', '<ol>', '</ol>', '<li>', '</li>', '<div>', '</div>', '<span>', '</span>',
        '<h1>', '</h1>', '<h2>', '</h3>', '<h0>', '</h0>', '<h9>', '<h10>', '<a href="/x">', '<a>', '</a>', '<a name=q>', '<img src=/y alt=z>', '<img>',
        '<img alt=a title=b>', '<br>', '<br />', '</br>', '<hr>', '<hr/>', '<pre>', '</pre>', '\n<pre>\n', '\n</pre>\n', '<PRE>', '</PRE>', '<pre class="x>y">', '\n<pre id=z>\n', '<pre />', '<prefix>', '</pre >', '<pre><code>', '</code></pre>', '<code>', '</code>', '<tt>', '</tt>',
        '<blockquote>', '</blockquote>', '<font color=red>', '</font>', '<x>', '</x>', '<x/>', '<li/>', '<ul/>', '<p/>', '<b/>', '<a/>', '<td/>',
        '<del>', '</del>', '<sub>', '</sub>', '<input disabled>', '<option selected>', '<dl>', '<dt>', '<dd>', '</dl>', '<svg:a>', '<data>', '</data>',
        '<document>', '<headline>', '</headline>', '<blockdata type="pre" id="0" />', '<inlinedata type="pre" id="7"/>', '<blockdata type="pre" id="²" />', '<inlinedata type="pre" id="-1" />', '<blockdata type="pre" id="٣" />', '<inlinedata type="pre" id="1.5" />', '<blockdata id="0" />',
        '<inlinedata type="pass" id="0" />', '<blockdata type="pre" id="99999999999999999999" />', '<a href="http://[x">', '<img src="http://[" alt=q>', '<a href="//[::1">', '<img src="http://a]b/">', '&#²;', '&#٣;', '&#x²;', '<blockdata>', '<charref>', '<tbody>', '</tbody>',
        '<a href="x" href="y">', '<a href=">">', "<a href='\"'>", '<a href="&quot;&amp;">', '<p class>', '<P>', '</P>', '<B>', '<?php x ?>',
        '<!-- c -->', '<!doctype html>', '<![CDATA[ d ]]>', '<![foo]>', '<!>', '<!-', '<!--', '-->', '<', '>', '&', '&amp;', '&lt;', '&#65;', '&#x41;', '&#0;',
        '&#99999999999;', '&#xD800;', '&foo;', '&foo', '&amp', '&#', '&#x', '&nbsp;', '&copy', '&notit;', '&#x110000;', '"', "'", '=', '/', '\n', '\n\n', ' ', '  ', '\t', '\r\n', '</', '<a', '<a href="', '<1>',
        '**', '//', '* ', '# ', '= ', '|', '[[', ']]', '{{{', '}}}', '{{', '}}', '<<html>>', '<</html>>', '<<x>>', '~', '\\\\', '`', '_', '__', '::', '.. ', '..\n', '+', '-', '@', '%', 'h1. ', 'é', '中', '\xa0', '\u2028', '\x0c']
TABLE_SOUP = ['<table>', '</table>', '<tr>', '</tr>', '<td>', '</td>', '<th>', '</th>', '<thead>', '</thead>', '<caption>', '</caption>', '<col>', '<colgroup>', '<td colspan=2>', '<tfoot>']
CDATA_SOUP = ['<script>', '</script>', '<style>', '</style>', '<textarea>', '</textarea>', '<title>', '</title>', '<plaintext>', '<xmp>']


def soup(rng, n, pool, word=None, pword=0.4):
    pool = list(pool)
    if rng.random() < 0.5:
        pool = [rng.choice(pool) for _ in range(rng.randint(2, 8))]
    return ''.join((word() if word else W.plain(rng)) if rng.random() < pword else rng.choice(pool) for _ in range(n))
