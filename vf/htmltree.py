"""
Parse and normalise the html that is produced by the code under test.

Trees are tuples: (tag, ((attr, value), ...), [children]); text is str.
"""

import re
import xml.parsers.expat

BLOCK = {'p', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'ul', 'ol', 'li', 'table', 'tr', 'td', 'th', 'pre',
         'hr', 'br', 'div', 'dl', 'dt', 'dd', 'blockquote', 'thead', 'tbody', 'colgroup', 'col', 'r', 'caption'}
PRESERVE = {'pre', 'code'}


class NotWellFormed(ValueError):
    pass


def parse(html, strict=True):
    """ well formed XML only: every tag closed, attributes quoted, no unescaped markup """
    root = ('r', (), [])
    stack = [root]

    def start(tag, attrs):
        names = attrs[::2]
        if len(set(names)) != len(names):
            raise NotWellFormed(f'duplicate attribute in <{tag}>')
        node = (tag, tuple(sorted(zip(attrs[::2], attrs[1::2]))), [])
        stack[-1][2].append(node)
        stack.append(node)

    def end(tag):
        stack.pop()

    def data(text):
        c = stack[-1][2]
        if c and isinstance(c[-1], str):
            c[-1] += text
        else:
            c.append(text)

    def refuse(*args):
        raise NotWellFormed('comment, declaration, CDATA or processing instruction')

    p = xml.parsers.expat.ParserCreate('utf-8')
    p.ordered_attributes = True
    p.buffer_text = True
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = data
    p.CommentHandler = refuse
    p.ProcessingInstructionHandler = refuse
    p.StartCdataSectionHandler = refuse
    p.StartDoctypeDeclHandler = refuse
    try:
        p.Parse('<r>'.encode() + html.encode('utf-8', 'surrogatepass') + b'</r>', True)
    except xml.parsers.expat.ExpatError as err:
        raise NotWellFormed(f'{err}') from None
    top = root[2][0]
    return top


WS = re.compile(r'[ \t\n\r\f]+')


def normalise(node, preserve=PRESERVE, attrs=None):
    """
    Collapse whitespace outside of preformatted areas and drop it at the borders of block elements.
    attrs: None = keep all, otherwise function (tag, attrs) -> attrs
    """
    tag, at, children = node
    if attrs:
        at = attrs(tag, at)
    if tag in preserve:
        return (tag, at, [c if isinstance(c, str) else normalise(c, preserve, attrs) for c in children])
    out = []
    for c in children:
        if isinstance(c, str):
            c = WS.sub(' ', c)
            if out and isinstance(out[-1], str):
                out[-1] = WS.sub(' ', out[-1] + c)
            else:
                out.append(c)
        else:
            out.append(normalise(c, preserve, attrs))
    res = []
    for i, c in enumerate(out):
        if isinstance(c, str):
            prev = out[i - 1] if i else None
            nxt = out[i + 1] if i + 1 < len(out) else None
            if (prev is None and tag in BLOCK) or (prev is not None and prev[0] in BLOCK):
                c = c.lstrip(' ')
            if (nxt is None and tag in BLOCK) or (nxt is not None and nxt[0] in BLOCK):
                c = c.rstrip(' ')
            if c == '':
                continue
        res.append(c)
    return (tag, at, res)


def text_of(node, skip=()):
    if isinstance(node, str):
        return node
    if node[0] in skip:
        return ''
    return ''.join(text_of(c, skip) for c in node[2])


def iter_nodes(node, parents=()):
    yield node, parents
    for c in node[2]:
        if not isinstance(c, str):
            yield from iter_nodes(c, parents + (node[0],))


def show(node, depth=0):
    if isinstance(node, str):
        return repr(node)
    tag, at, ch = node
    a = ''.join(f' {k}={v!r}' for k, v in at)
    return f'<{tag}{a}>[' + ', '.join(show(c) for c in ch) + ']'


def shape(node, depth=6):
    """ structure without text, as a key for distinct cases """
    if isinstance(node, str):
        return 't'
    return (node[0],) + tuple(shape(c, depth - 1) for c in node[2]) if depth else node[0]


def diff(a, b, path=''):
    """ first difference of two trees """
    if isinstance(a, str) or isinstance(b, str):
        if a == b:
            return None
        return f'at {path or "/"}: expected {show(a) if not isinstance(a, str) else repr(a)} got {show(b) if not isinstance(b, str) else repr(b)}'
    if a[0] != b[0] or a[1] != b[1]:
        return f'at {path or "/"}: expected {show(a)[:200]} got {show(b)[:200]}'
    for i, (x, y) in enumerate(zip(a[2], b[2])):
        d = diff(x, y, f'{path}/{a[0]}[{i}]')
        if d:
            return d
    if len(a[2]) != len(b[2]):
        extra = (a[2] if len(a[2]) > len(b[2]) else b[2])[min(len(a[2]), len(b[2]))]
        side = 'missing' if len(a[2]) > len(b[2]) else 'unexpected'
        return f'at {path}/{a[0]}: {side} {show(extra)[:200]}'
    return None
