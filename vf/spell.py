"""
Write a tree (see htmltree) as html source in many equivalent ways: tag case, equivalent tags, ignored attributes,
white space, quotes, references, comments, wrappers without a meaning.

Every choice is taken from rng, so that the text is a function of (tree, seed).
"""
import re

SAME = {'strong': ('strong', 'strong', 'b', 'big'), 'i': ('i', 'i', 'em'), 'del': ('del', 'del', 'strike')}
EXTRA = (' start="3"', ' type=a', ' align="left" valign=top', ' dir="ltr" role=\'note\'', ' onclick="a > b"', ' value="2"', ' hidden', ' name=""', ' level="2" kind=p',
         ' class="a"', ' class="a b" id="c"', ' style="color: red"', " data-x='y'", ' lang=de')
VOID = {'br', 'hr', 'img'}
HIGHLIGHT = ('<span class="k">{}</span>', '<b>{}</b>', '<em class=x>{}</em>', '<a href="#l">{}</a>', '<span>{}</span>', '{}', '{}')
BLOCKS = {'p', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'ul', 'ol', 'table', 'hr', 'pre', 'blockquote'}
HIGHLIGHT += tuple(f'<{t}{a}>{{0}}</{t}>' for t in 'a abbr b big cite code del em font i ins kbd mark q s samp small span strike strong sub sup tt u var'.split() for a in ('', ' class="x"', ' title="a > b"', "\nid='y'"))


class Speller:
    def __init__(self, rng, same=SAME, upper=0.03, extra=0.08, comments=0.06, wrap=0.06, odd_space=True, li_p=0.05, tbody=0.3, span=True,
                 anchor=0.03, longest=False, data_img=False, pre_short=False, li_wrap=0.05, li_blocks=0, bare=0.1, head_br=True, empty=0.03, twice=0.03, link_markup=0):
        self.r = rng
        self.same, self.upper, self.extra, self.comments, self.wrap, self.odd = same, upper, extra, comments, wrap, odd_space
        self.li_wrap = li_wrap
        self.bare = bare
        self.head_br = head_br
        self.empty = empty          # typefaces without text
        self.twice = twice          # typefaces in the same typeface
        self.link_markup = link_markup  # markup in link texts doesn't count
        self.li_blocks = li_blocks  # <p> or <div> instead of <br>
        self.li_p, self.tbody = li_p, tbody
        self.span = span
        self.pre_short = pre_short  # a <pre> with one line is a block, too
        self.anchor = anchor        # <a name=...> around text
        self.longest = longest      # alt and title of images: the longest one or the file name counts
        self.data_img = data_img    # images with data: urls don't count

    def p(self, x):
        return self.r.random() < x

    def char(self, c, attr=False):
        if c in '&<>':
            return self.r.choice({'&': ('&amp;', '&amp;', '&#38;', '&#x26;'), '<': ('&lt;', '&lt;', '&#60;', '&#x3C;'), '>': ('&gt;', '&gt;', '&#62;', '&#x3e;')}[c])
        if c == '"' and attr:
            return '&quot;'
        if ord(c) > 160 and self.p(0.1):
            return f'&#{ord(c)};'
        return c

    def text(self, s):
        out = []
        for c in s:
            if c == ' ' and self.odd and self.p(0.15):
                out.append(self.r.choice(('\n', '  ', ' \n ', '\n', '\t')))
            else:
                out.append(self.char(c))
        return ''.join(out)

    def raw(self, s):
        """ preformatted text """
        return ''.join(self.char(c) for c in s)

    def attr(self, name, value):
        v = ''.join(c if c in '<>' and self.p(0.2) else self.char(c, True) for c in value)
        if "'" not in v and self.p(0.15):
            return f" {name}='{v}'"
        if self.p(0.05) and re.fullmatch(r'[\w.-]+', v):
            return f' {name}={v}'
        return f' {name}="{v}"'

    def start(self, tag, attrs=(), extra=True):
        attrs = list(attrs)
        self.r.shuffle(attrs)
        s = ''.join(self.attr(k, v) for k, v in attrs)
        if extra and self.p(self.extra):
            s += self.r.choice(EXTRA)
        if s and self.odd and self.p(0.03):
            s = self.r.choice('\n\t') + self.r.choice(('', '  ')) + s[1:]
        return f'<{tag}{s}>'

    def space(self, block=True):
        """ white space (and comments) between blocks """
        if not self.odd:
            return '\n'
        s = self.r.choice(('', '\n', '\n', '\n\n', '\n    ', '  '))
        if self.p(self.comments):
            s += self.r.choice(('<!-- c -->', '<!-- <p>c</p> -->', '<!---->')) + self.r.choice(('', '\n'))
        return s

    def inside(self, children, depth=0):
        return ''.join(self.text(c) if isinstance(c, str) else self.node(c, depth) for c in children)

    def block_inside(self, children, depth=0):
        out = []
        for c in children:
            if not isinstance(c, str):
                out.append(self.node(c, depth))
                continue
            if self.odd and self.p(self.anchor):
                m = re.match(r'( *)(.*?)( *)$', c, re.DOTALL)
                if m[2]:
                    out.append(f'{m[1]}<a name="{self.r.choice("abc")}">{self.text(m[2])}</a>{m[3]}')
                    continue
            s = self.text(c)
            if self.data_img and self.odd and ' ' in c[1:-1] and self.p(0.03):
                i = s.find(' ', 1)
                if i > 0:
                    s = f'{s[:i]} <img src="data:image/gif;base64,R0lGODlhAQABAAAAACw="{self.r.choice(("", " alt=z"))} /> {s[i + 1:]}'
            elif self.odd and self.p(self.empty):
                tag = self.r.choice([t for x in self.same.values() for t in x])
                s = re.sub(r'(?<=\S) (?=\S)', self.r.choice((' <{0}></{0}>', '<{0}> </{0}>', '<{0}></{0}> ', '<{0}>\n</{0}>')).format(tag), s, count=1)
            out.append(s)
        return ''.join(out)

    def image_attrs(self, attrs):
        at = dict(attrs)
        text = at.get('alt') or at.get('title')
        if not text:
            return attrs
        for k in ('alt', 'title'):
            at.pop(k, None)
        short = text[:-1].strip()
        choices = [{'alt': text}, {'title': text}, {'alt': text, 'title': text}, {'alt': text, 'title': short}, {'alt': short, 'title': text}, {'alt': '', 'title': text}]
        if text == at['src'].rsplit('/', 1)[-1]:
            choices += [{}, {}, {'alt': ''}, {'title': ''}, {'alt': '', 'title': ''}]
        return tuple({**at, **self.r.choice(choices)}.items())

    def pad(self):
        return self.r.choice(('', '', '', ' ', '\n', '\n  ')) if self.odd else ''

    def break_text(self, children):
        """ a line break in a headline is a space """
        out = []
        for c in children:
            if isinstance(c, str) and ' ' in c.strip():
                i = c.index(' ', len(c) - len(c.lstrip()))
                out += [c[:i], ('br', (), []), c[i + 1:]]
            else:
                out.append(c)
        return out

    def parts(self, nodes):
        out = [[]]
        for c in nodes:
            if not isinstance(c, str) and c[0] == 'br':
                out.append([])
            else:
                out[-1].append(c)
        return out

    def pre(self, body):
        if not self.odd:
            return f'<pre>{body}</pre>'
        inner = body.removeprefix('\n').removesuffix('\n')
        if inner.strip('\n') == inner.rstrip() == inner and ('\n' in inner or self.pre_short) and self.p(0.3):
            body = self.r.choice((inner, '\n' + inner, inner + '\n'))
        if self.p(0.15):    # highlighted
            body = re.sub(r'(?<=[\s>])[^\W_]+(?=\s)', lambda m: self.r.choice(HIGHLIGHT).format(m[0]), body)
        if '\n' in inner and self.p(0.1):
            head, tail = body[:len(body) - len(body.lstrip('\n'))], body[len(body.rstrip('\n')):]
            body = head + re.sub(r'(?<=\S)\n(?=\S)', lambda m: self.r.choice(('<br>', '<br />', '\n', '\n')), body.strip('\n')) + tail
        if self.p(0.2) and inner.strip('\n') == inner:    # a blank line at the begin is not removed in <code>
            body = f'<code{self.r.choice(("", " class=x"))}>{body.removeprefix(chr(10)) if self.pre_short or chr(10) in inner else body}</code>'
        name = 'PRE' if self.p(self.upper) else 'pre'
        return f'{self.start(name)[:-1]}{self.r.choice(("", "", " "))}>{body}</{name}>'

    def node(self, node, depth=0):
        tag, attrs, children = node
        name = self.r.choice(self.same[tag]) if tag in self.same else tag
        if self.p(self.upper):
            name = name.upper()
        if tag == 'img' and self.longest:
            attrs = self.image_attrs(attrs)
        if tag in VOID:
            s = self.start(name, attrs)[:-1]
            return s + self.r.choice(('>', ' />', '/>' if s[-1] in '\'"' or s == f'<{name}' else ' />'))
        if tag == 'pre':
            return self.pre(''.join(self.raw(c) for c in children))
        if tag in ('ul', 'ol'):
            return self.start(name, attrs) + self.space() + ''.join(self.node(c, depth + 1) + self.space() for c in children) + f'</{name}>'
        if tag == 'table':
            rows = [self.node(c, depth + 1) + self.space() for c in children]
            if self.p(self.tbody) and rows:
                k = self.r.randint(0, len(rows))
                rows = ['<thead>', *rows[:k], '</thead>', '<tbody>', *rows[k:], '</tbody>']
            return self.start(name, attrs) + self.space() + ''.join(rows) + f'</{name}>'
        if tag == 'tr':
            return self.start(name, attrs) + self.space() + ''.join(self.node(c, depth + 1) + self.space() for c in children) + f'</{name}>'
        if tag == 'li':
            own = [c for c in children if isinstance(c, str) or c[0] not in ('ul', 'ol')]
            sub = [c for c in children if not isinstance(c, str) and c[0] in ('ul', 'ol')]
            parts = self.parts(own)
            if self.odd and len(parts) > 1 and all(parts) and self.p(self.li_blocks):
                # e.g. paragraphs instead of line breaks
                tag = self.r.choice(('p', 'div'))
                body = ''.join(f'{self.start(tag)}{self.pad()}{self.block_inside(part, depth)}{self.pad()}</{tag}>{self.space()}' for part in parts)
                if self.p(0.2):
                    body = self.start('div') + body + '</div>'
            else:
                body = self.block_inside(own, depth)
            if '<p>' in body or '<P>' in body:
                pass
            elif self.p(self.li_p):
                body = f'<p>{body}</p>'
            elif self.odd and self.p(self.li_wrap):
                tag = self.r.choice(('div', 'section', 'label', 'span' if self.span else 'div'))
                body = f'{self.start(tag)}{body}</{tag}>'
            if sub and self.odd and self.p(self.li_wrap):
                tag = self.r.choice(('div', 'blockquote', 'section', 'div><div', 'span' if self.span else 'div'))
                sub = [f'<{tag}>', *sub, ''.join(f'</{t}>' for t in reversed(tag.split('><')))]
            return self.start(name, attrs) + self.pad() + body + self.pad() + ''.join(self.space() + (c if isinstance(c, str) else self.node(c, depth)) for c in sub) + self.pad() + f'</{name}>'
        if re.fullmatch(r'h\d', tag) and self.head_br and self.odd and self.p(0.15):
            children = self.break_text(children)
        if tag in BLOCKS or tag in ('td', 'th'):
            return self.start(name, attrs) + self.pad() + self.block_inside(children, depth) + self.pad() + f'</{name}>'
        body = self.inside(children, depth)
        if self.odd and tag in self.same and self.p(self.twice):
            again = self.r.choice(self.same[tag])
            body = f'<{again}>{body}</{again}>'
        if self.odd and tag == 'a' and self.p(self.link_markup) and len(children) == 1 and isinstance(children[0], str):
            again = self.r.choice(('b', 'code', 'i', 'tt', 'u', 'span'))
            body = re.sub(r'^\w+$|(?<= )\w+$|^\w+(?= )', lambda m: f'<{again}>{m[0]}</{again}>' if self.p(0.7) else m[0], body)
        s = self.start(name, attrs) + body + f'</{name}>'
        if self.span and self.p(self.wrap):
            s = f'<span>{s}</span>'
        return s

    def document(self, tree):
        out = [self.space()]
        bare = False
        for i, c in enumerate(tree[2]):
            bare = c[0] == 'p' and not bare and self.odd and self.p(self.bare)
            if self.pre_short and any(x[0] == 'pre' for x in tree[2][max(i - 1, 0):i + 2]):    # would be an inline element
                bare = False
            if bare:    # a paragraph without <p>
                body = self.block_inside(c[2])
                tag = self.r.choice(('', '', 'span' if self.span else '', 'div', 'div', 'address', 'center', 'label'))
                s = f'{self.start(tag)}{body}</{tag}>' if tag else body
            else:
                s = self.node(c)
            if self.p(self.wrap):
                s = self.start('div') + self.space() + s + self.space() + '</div>'
            out += [s, self.space()]
        return ''.join(out)
