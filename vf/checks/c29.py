"""
C29  an element without end tag ends with the element around it, and an end tag without element is nothing
"""
import random

from vf import htmlgen as HG
from vf import ops
from vf.core import call

CASES = {'quick': 6000, 'thorough': 120000}
RULE = ('random html trees are written with all end tags in order, and a second time with omitted end tags (of elements that end together with the element around them, or with the document), with crossed end tags '
        '(the one of the inner element behind the one of the outer), stray end tags of inline elements that are not open, repeated end tags and another case. All four converters must give the same result or the same exception '
        'for both, with several handlers for unknown tags, and without stray tags parse_html must give the same tree. Non-trivial: distinct sequences of broken tags.')
MINIMUM = {'end tags omitted': {'quick': 8000, 'thorough': 150000}, 'end tags crossed': {'quick': 500, 'thorough': 15000}, 'stray end tags': {'quick': 8000, 'thorough': 200000}, 'conversions compared': {'quick': 20000, 'thorough': 400000}, 'trees compared': 1500, 'lists cut short': 500}
NAMES = ('html2creole', 'html2rest', 'html2textile', 'html2markdown')
BLOCK = {'address', 'blockquote', 'center', 'div', 'dl', 'fieldset', 'form', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'hr', 'ul', 'ol', 'li', 'table', 'th', 'tr', 'td', 'p', 'pre', 'br', 'tbody', 'thead'}
INLINE = HG.INLINE + HG.UNKNOWN_INLINE + ('a',)
STRAY = ('b', 'strong', 'i', 'em', 'a', 'span', 'font', 'tt', 'code', 'x-y', 'section', 'u', 'sup', 'tbody', 'thead', 'option', 'body', 'html')


def trim(nodes, r):
    """ inline elements at the end of the element around them """
    nodes = [n if isinstance(n, str) else [n[0], n[1], trim(n[2], r)] for n in nodes]
    k = max((n for n, x in enumerate(nodes) if not isinstance(x, str) and x[0] in INLINE), default=0)
    if k and all(isinstance(x, str) for x in nodes[k + 1:]) and r.random() < 0.6:
        del nodes[k + 1:]
    return nodes


def gen(rng, i, tier):
    return {'nodes': trim(HG.HG(rng, attrs=rng.random() < 0.3).document(1, 4), rng), 'seed': rng.randrange(1 << 30), 'rate': rng.choice((0.1, 0.3, 0.6, 1)), 'cross': rng.choice((0, 0, 0.3, 0.7)),
            'stray': rng.choice((0, 0, 0, 0.1, 0.3)), 'upper': rng.choice((0, 0, 0.3)), 'unknown': rng.choice((None, None, *ops.UNKNOWN))}


def kind(tag):
    return 'headline' if len(tag) == 2 and tag[0] == 'h' and tag[1].isdigit() else tag


def write(nodes, case, log):
    """ html with and without the mistakes; a node is [tag, {attributes}, [children]] or a text """
    r = random.Random(case['seed'])
    good, bad = [], []

    def emit(nodes, open_):
        """ returns the end tags of the last child that are still missing: list of kinds """
        missing = []
        for n, node in enumerate(nodes):
            # the end tags of this one can be omitted only at the end
            missing = []
            last = n == len(nodes) - 1
            if isinstance(node, str):
                text = HG.escape(node)
                good.append(text)
                words = text.split(' ')
                for w, word in enumerate(words):
                    tag = r.choice(STRAY)
                    if r.random() < case['stray'] and tag not in open_ and word.strip():
                        # (white space beside of a tag is not always kept)
                        if word.isalnum() and len(word) > 1:
                            word = f'{word[0]}</{tag}>{word[1:]}'
                            log['stray'] += 1
                        elif words[w + 1:w + 2] and words[w + 1].strip():
                            word = f'{word}</{tag}>'
                            log['stray'] += 1
                    bad.append(word)
                    bad.append(' ')
                bad.pop()
                continue
            tag, attrs, children = node
            if tag in HG.VOID:
                text = f'<{tag}{HG.attr_text(attrs)}>'
                good.append(text)
                bad.append(text)
                continue
            start, end = f'<{tag}{HG.attr_text(attrs)}>', f'</{tag}>'
            good.append(start)
            bad.append(start)
            if tag == 'pre':
                text = HG.escape(''.join(c for c in children if isinstance(c, str)))
                good.append(text + end)
                bad.append(text + end)
                continue
            inner = emit(children, open_ + [kind(tag)])
            good.append(end)
            if last and kind(tag) not in inner and r.random() < case['rate'] and tag not in ('tbody', 'thead'):
                missing = inner + [kind(tag)]
                log['omitted'] += 1
                log['tags'].append(tag)
                continue
            if kind(tag) in inner:
                # the end tag would end the wrong element: the missing ones must be written
                for k in inner[:inner.index(kind(tag)) + 1]:
                    bad.append(f'</{"h1" if k == "headline" else k}>')
                    log['omitted'] -= 1
                inner = inner[inner.index(kind(tag)) + 1:]
            log['lists'] += 'ul' in inner or 'ol' in inner
            bad.append(f'</{tag.upper()}>' if r.random() < case['upper'] else end)
            for k in inner:
                if tag not in BLOCK and k not in BLOCK and k != 'headline' and k not in open_ and k != kind(tag) and r.random() < case['cross']:
                    bad.append(f'</{k}>')
                    log['crossed'] += 1
                    log['tags'].append('/' + k)
        return missing
    for n, node in enumerate(nodes):
        rest = emit([node], [])
        if n < len(nodes) - 1:
            # in the middle of the document only the last one would end them all
            for k in rest:
                bad.append(f'</{"h1" if k == "headline" else k}>')
                log['omitted'] -= 1
    return ''.join(good), ''.join(bad)


def outcome(fn, *args, **kw):
    try:
        return 'ok', fn(*args, **kw)
    except Exception as err:
        return type(err).__name__, str(err)


def merged(node):
    """ a tree with joined texts """
    kind_, content, attrs, level, children = node
    out = []
    for c in map(merged, children):
        if out and c[0] == out[-1][0] == 'data':
            out[-1][1] += c[1]
        else:
            out.append(c)
    return [kind_, content, attrs, level, out]


def run(case, st):
    import creole
    from creole.shared import unknown_tags
    log = {'omitted': 0, 'crossed': 0, 'stray': 0, 'lists': 0, 'tags': []}
    good, bad = write(case['nodes'], case, log)
    st.count('end tags omitted', log['omitted'])
    st.count('end tags crossed', log['crossed'])
    st.count('stray end tags', log['stray'])
    st.count('lists cut short', log['lists'])
    if good == bad:
        return
    out = []
    unknown = case['unknown'] and getattr(unknown_tags, case['unknown'])
    st.count('trees compared')
    a, b = (merged(ops.tree(call(creole.parse_html, x))) for x in (good, bad))
    if a != b:
        out.append(('tree', f'parse_html({bad!r}) is not the tree of {good!r}'))
    for name in NAMES:
        fn = getattr(creole, name)
        want, got = (outcome(fn, x, unknown_emit=unknown) for x in (good, bad))
        st.count('conversions compared')
        if want != got:
            out.append(('broken', f'{name}({bad!r}) is {got!r}, but with all end tags in order {want!r}'))
    st.key(log['tags'])
    st.sample(bad[:300])
    return out
