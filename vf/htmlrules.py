""" what creole2html may write at all (used by C02) """

import re

from vf import htmltree as H

ATTRS = {tag: () for tag in 'p h1 h2 h3 h4 h5 h6 ul ol li table tr td th pre code hr br strong i tt sup sub u small del'.split()}
ATTRS['a'] = ('href', 'name')
ATTRS['img'] = ('src', 'title', 'alt', 'width', 'height')
EMPTY = {'hr', 'br', 'img'}
BLOCKS = {'p', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'ul', 'ol', 'table', 'hr', 'pre'}
HEADS = {'h1', 'h2', 'h3', 'h4', 'h5', 'h6'}

# the (known) raw echo of macro arguments
ECHO = re.compile(r'''\[Error: Wrong macro arguments: "(?:[^"\\]|\\.)*" for macro '\w+' ''')


def neutralise_echo(html):
    return ECHO.sub('[Error: Wrong macro arguments: for macro ', html)


def violations(root, source, toc):
    """ root: parsed tree; source with \\n line endings; toc: the document contains a toc macro """
    out = []
    for (tag, attrs, children), parents in H.iter_nodes(root):
        if tag == 'r':
            continue
        parent = parents[-1]
        names = dict(attrs)
        if tag not in ATTRS:
            out.append(f'element <{tag}>')
            continue
        bad = set(names) - set(ATTRS[tag])
        if bad:
            out.append(f'attribute {sorted(bad)} in <{tag}>')
        if tag == 'a' and len(names) != 1:
            out.append(f'<a> with {sorted(names)}')
        if tag == 'img':
            if not {'src', 'title', 'alt'} <= set(names):
                out.append(f'<img> with {sorted(names)} only')
            for n in ('width', 'height'):
                if n in names and not re.fullmatch(r'-?\d+', names[n]):
                    out.append(f'<img {n}={names[n]!r}>')
        if tag in EMPTY and children:
            out.append(f'<{tag}> with content')
        if tag == 'li' and parent not in ('ul', 'ol'):
            out.append(f'<li> in <{parent}>')
        if tag == 'tr' and parent != 'table':
            out.append(f'<tr> in <{parent}>')
        if tag in ('td', 'th') and parent != 'tr':
            out.append(f'<{tag}> in <{parent}>')
        allowed = {'ul': ('li', 'ul') if toc else ('li',), 'ol': ('li',), 'table': ('tr',), 'tr': ('td', 'th')}.get(tag)
        if allowed:
            for c in children:
                if isinstance(c, str):
                    if c.strip():
                        out.append(f'text {c!r} directly in <{tag}>')
                elif c[0] not in allowed:
                    out.append(f'<{c[0]}> directly in <{tag}>')
        if not toc:
            if tag in BLOCKS and tag not in ('ul', 'ol') and parent != 'r':
                out.append(f'<{tag}> in <{parent}>')
            if tag in ('ul', 'ol') and parent not in ('r', 'li'):
                out.append(f'<{tag}> in <{parent}>')
        if tag in HEADS and any(not isinstance(c, str) for c in children):
            out.append(f'markup in <{tag}>')
        if tag in ('pre', 'code') and any(not isinstance(c, str) for c in children):
            out.append(f'markup in <{tag}>')
        for n, v in attrs:
            if n in ('href', 'name'):
                if tag == 'a' and n == 'href' and toc and v.startswith('#') and v[1:] in source:
                    continue
                if v not in source:
                    out.append(f'{n}={v!r} is not in the source')
            elif n in ('src', 'title', 'alt') and v not in source:
                out.append(f'{n}={v!r} is not in the source')
    return out
