"""
C33  the document trees that parse_html() and CreoleParser give are trees, and the one of html is the document
"""
import html
import re

from vf import creolegen as G
from vf import htmlgen as HG
from vf import soup as S
from vf.core import call

CASES = {'quick': 9000, 'thorough': 200000}
RULE = ('random html trees written with many spellings (upper case, quotes, white space, references, attributes with any values, omitted tbody) are parsed with parse_html() and the tree is compared with the one that was written: elements, nesting, attributes, level of '
        'headlines and lists, words of the text; trees of broken html and of well-formed and hostile creole are walked: each node once, parent links, types of the fields, no children of texts. Non-trivial: distinct sequences of elements.')
MINIMUM = {'elements compared': {'quick': 60000, 'thorough': 1500000}, 'attributes compared': {'quick': 10000, 'thorough': 200000}, 'nodes walked': {'quick': 150000, 'thorough': 3000000}, 'creole trees': {'quick': 2000, 'thorough': 40000}}
LEAVES = ('data', 'entityref', 'charref', 'blockdata_pre', 'blockdata_pass', 'inlinedata_pre')
PARENTS = {  # of the blocks of creole
    'paragraph': ('document',), 'header': ('document',), 'table': ('document',), 'pre_block': ('document',), 'separator': ('document',), 'macro_block': ('document',),
    'bullet_list': ('document', 'list_item'), 'number_list': ('document', 'list_item'), 'list_item': ('bullet_list', 'number_list'),
    'table_row': ('table',), 'table_cell': ('table_row',), 'table_head': ('table_row',),
}
ONCE = ('strong', 'emphasis', 'monospace', 'superscript', 'subscript', 'underline', 'small', 'delete', 'link')


def gen(rng, i, tier):
    t = rng.random()
    if t < 0.5:
        return {'kind': 'tree', 'nodes': attributes(rng, HG.HG(rng).document(1, 4), rng.choice((0, 0.2, 0.6))), 'seed': rng.randrange(1 << 30)}
    if t < 0.75:
        return {'kind': 'html', 'text': HG.decorate(rng, HG.retag(rng, HG.soup(rng, rng.randint(1, 40), HG.SOUP + HG.TABLE_SOUP + (HG.CDATA_SOUP if rng.random() < 0.2 else []))), 0.2)}
    good = rng.random() < 0.4
    return {'kind': 'creole', 'text': G.write(G.Gen(rng).document(1, 5)) if good else S.messy(rng, i, size=25), 'blog': rng.random() < 0.5, 'good': good}


def attributes(rng, nodes, rate):
    out = []
    for n in nodes:
        if not isinstance(n, str):
            attrs = dict(n[1])
            if n[0] != 'pre' and rng.random() < rate:
                attrs.update((rng.choice(HG.ANY_ATTRS), html.unescape(rng.choice(HG.ANY_VALUES))) for _ in range(rng.choice((1, 1, 2, 4))))
            n = [n[0], attrs, attributes(rng, n[2], rate)]
        out.append(n)
        if not isinstance(n, str) and n[0] in HG.VOID and rng.random() < 0.2:
            out.append([n[0], dict(n[1]), []])
        elif rng.random() < 0.03 and n and not isinstance(n, str) and n[0] in ('li', 'td', 'p') and n[2]:
            k = rng.randint(0, len(n[2]))
            n[2][k:k] = [[rng.choice(('br', 'hr', 'img')), {}, []] for _ in range(rng.choice((1, 2, 3)))]
    return out


def norm(value):
    return ' '.join((value or '').split())


def written(nodes, out, level=0):
    """ tokens of the tree that was written """
    for n in nodes:
        if isinstance(n, str):
            out += n.split()
            continue
        tag, attrs, children = n
        if tag == 'tbody':
            written(children, out, level)
            continue
        if tag == 'pre':
            out.append(('pre', ''.join(children).split()))
            continue
        h = re.fullmatch('h([1-6])', tag)
        inner = level + (tag in ('ul', 'ol'))
        if h:
            out.append(('headline', int(h[1])))
        else:
            out.append((tag, inner if tag in ('ul', 'ol', 'li') else None, sorted((k, norm(v)) for k, v in attrs.items())))
        if tag not in HG.VOID:
            written(children, out, inner)
            out.append(('end', 'headline' if h else tag))


def parsed(node, out):
    """ tokens of a document tree """
    for n in node.children:
        if n.kind == 'data':
            out += n.content.split()
        elif n.kind in ('entityref', 'charref'):
            out.append(html.unescape(('&#%s;' if n.kind == 'charref' else '&%s;') % n.content))
        elif n.kind in ('blockdata_pre', 'inlinedata_pre'):
            out.append(('pre', html.unescape(n.content).split()))
        else:
            kind = n.kind.lower()  # (<data> and others are written in capitals)
            if n.kind == 'headline':
                out.append(('headline', n.level))
            else:
                out.append((kind, n.level, sorted((k, norm(v)) for k, v in n.attrs.items())))
            if kind not in HG.VOID:
                parsed(n, out)
                out.append(('end', kind))


def glue(tokens):
    """ a word that is several tokens because of references in it, and words beside each other """
    out = []
    for t in tokens:
        if isinstance(t, str) and out and isinstance(out[-1], str):
            out[-1] += t
        else:
            out.append(t)
    return [''.join(t.split()) if isinstance(t, str) else t for t in out if t != '']


def ancestors(node):
    out = []
    while node.parent is not None:
        node = node.parent
        out.append(node.kind)
    return out


def depth(node):
    return sum(k.endswith('_list') for k in ancestors(node))


def walk(root, creole=False, good=False):
    """ (number of nodes, what is wrong) """
    if root.kind != 'document' or root.parent is not None:
        return 1, f'root is {root.kind!r} with parent {root.parent!r}'
    seen, todo = {id(root)}, [root]
    while todo:
        node = todo.pop()
        for child in node.children:
            if id(child) in seen:
                return len(seen), f'{child!r} is twice in the tree'
            seen.add(id(child))
            if child.parent is not node:
                return len(seen), f'{child!r} is a child of {node!r}, its parent is {child.parent!r}'
            if not isinstance(child.kind, str) or not child.kind or child.kind == 'document':
                return len(seen), f'kind {child.kind!r}'
            if child.content is not None and not isinstance(child.content, str):
                return len(seen), f'content {child.content!r} of {child.kind}'
            if child.level is not None and not isinstance(child.level, int):
                return len(seen), f'level {child.level!r} of {child.kind}'
            if creole:
                if child.kind in PARENTS and node.kind not in PARENTS[child.kind]:
                    return len(seen), f'{child.kind} in {node.kind}'
                if node.kind in ('table', 'table_row', 'bullet_list', 'number_list') and child.kind not in PARENTS:
                    return len(seen), f'{child!r} in {node.kind}'
                if good and child.kind == 'list_item' and child.level != depth(child):
                    return len(seen), f'{child!r} of level {child.level!r} in {depth(child)} lists'
                if child.kind == 'list_item' and child.level != node.children[0].level:
                    return len(seen), f'items of levels {child.level!r} and {node.children[0].level!r} in one list'
                if child.kind == 'header' and not (child.level and child.level > 0):
                    return len(seen), f'header of level {child.level!r}'
                if child.kind in ONCE and child.kind in ancestors(child):
                    return len(seen), f'{child.kind} in {child.kind}'
            else:
                if child.kind in LEAVES:
                    if child.children or not child.content and 'data_' not in child.kind:
                        return len(seen), f'{child!r} with children {child.children!r}'
                elif child.content is not None:
                    return len(seen), f'{child!r} is an element with a content'
                if child.kind == 'headline' and not (isinstance(child.level, int) and 1 <= child.level <= 9):
                    return len(seen), f'headline of level {child.level!r}'
                if any(not isinstance(x, str) for a in child.attrs.items() for x in a):
                    return len(seen), f'attributes {child.attrs!r}'
            todo.append(child)
    return len(seen), None


def run(case, st):
    import random

    import creole
    from creole.parser.creol2html_parser import CreoleParser
    if case['kind'] == 'creole':
        text = case['text']
        tree = call(CreoleParser(text, blog_line_breaks=case['blog']).parse)
        n, bad = walk(tree, creole=True, good=case['good'])
        st.count('nodes walked', n)
        st.count('creole trees')
        return [('creole tree', f'CreoleParser({text!r}): {bad}')] if bad else None
    text = case['text'] if case['kind'] == 'html' else HG.write(case['nodes'], random.Random(case['seed']))
    tree = call(creole.parse_html, text)
    n, bad = walk(tree)
    st.count('nodes walked', n)
    if bad:
        return [('tree', f'parse_html({text!r}): {bad}')]
    if case['kind'] == 'html':
        return
    want, got = [], []
    written(case['nodes'], want)
    parsed(tree, got)
    want, got = glue(want), glue(got)
    st.count('elements compared', sum(not isinstance(t, str) and t[0] != 'end' for t in want))
    st.count('attributes compared', sum(len(t[2]) for t in want if len(t) == 3 and isinstance(t, tuple)))
    if got != want:
        k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return [('document', f'parse_html({text!r}): {got[k:k + 4]!r} instead of {want[k:k + 4]!r}')]
    st.key(tuple(t[0] for t in want if not isinstance(t, str)))
    st.sample(text[:300])
