"""
C13  the html converters neither lose, repeat, reorder nor glue together the visible words
"""
import re

from vf import htmlgen as HG
from vf.checks.c12 import limit_depth
from vf.core import SutError, call

CASES = {'quick': 14000, 'thorough': 400000}
RULE = ('unique words w<n>x in random html (all tags, nested blocks, lists, tables, preformatted) and in tag soup with unclosed, '
        'unopened and crossed tags; decoy words in comments, attributes and declarations. A conservation monitor compares the word '
        'sequence and the separation of the words for all four converters. Non-trivial: distinct tag sequences.')
MINIMUM = {'words followed': {'quick': 300000, 'thorough': 8000000}, 'separations checked': 100000, 'joins checked': 5000, 'decoys': 3000, 'images followed': 3000}
WORD = re.compile(r'w\d+x')

# between two words there must be white space in the output if one of these tags is between them in the source
SEPARATING = set('address blockquote center div dl fieldset form h hr li ol p table td th tr ul br'.split())
# tags that do not separate words
JOINING = set('strong b i em tt sup sub u small del strike big cite ins font abbr q kbd var s a code'.split())

SOUP = ['<p>', '</p>', '<b>', '</b>', '<i>', '</i>', '<ul>', '</ul>', '<ol>', '</ol>', '<li>', '</li>', '<div>', '</div>', '<span>', '</span>',
        '<h1>', '</h1>', '<h2>', '</h2>', '</h3>', '<a href="/DECOY">', '<a>', '</a>', '<a name=DECOY>', '<br>', '<br />', '</br>', '<hr>', '<hr/>',
        '<code>', '</code>', '<tt>', '</tt>', '<blockquote>', '</blockquote>', '<font color=DECOY>', '</font>', '<x>', '</x>', '<x/>', '<li/>', '<ul/>', '<p/>', '<b/>', '<img IMG>', '<img IMG/>', '<img IMG />',
        '<del>', '</del>', '<sub>', '</sub>', '<dl>', '</dl>', '<data>', '</data>', '<document>', '<headline>', '</headline>', '<blockdata type="pre" id="7" />',
        '<P CLASS="DECOY">', '</P>', '<B>', '<!-- DECOY -->', '<!doctype DECOY>', '<?php DECOY ?>', '<input value="DECOY">', '<center>', '</center>',
        '&', '&amp;', '&lt;', '&#65;', '&foo;', '&nbsp;', '&copy', '&', '"', "'", '=', '\n', '\n\n', ' ', '  ', '\t', ' ', ' ', '.', ',', '-', 'é', '中',
        '<meta name="DECOY">', '<i title="a > DECOY">', '<div style="DECOY > DECOY">', '</i>', '<strong>', '</strong>', '<em>', '</em>', '<u>', '</u>', '<small>', '</small>']

CELLS = ['<td>', '</td>', '<tr>', '</tr>', '<th>', '</th>', '<tbody>', '</thead>'] * 2  # outside of a table


def gen(rng, i, tier):
    n = [0]

    def word():
        n[0] += 1
        return f'w{n[0]}x'

    def decoy():
        n[0] += 1
        return f'd{n[0]}y'
    t = rng.random()
    if t < 0.55:
        tree = HG.HG(rng, word=word).document(1, 5)
        text = HG.write(tree, rng)
        what = 'tree'
    else:
        long = rng.random() < 0.03
        cells = rng.random() < 0.2
        text = limit_depth(HG.soup(rng, rng.randint(3, 400 if long else 45), SOUP + CELLS * cells, word, rng.choice((0.3, 0.5))))
        if rng.random() < 0.2:
            text += '\n<pre>\n' + word() + '\n  ' + word() + '\n</pre>\n' + word()
        if rng.random() < 0.3:
            text += HG.write([HG.HG(rng, word=word).table()], rng) + word()
            if cells:
                text += limit_depth(HG.soup(rng, rng.randint(1, 15), SOUP + CELLS * 3, word, 0.4))
        what = 'cell soup' if cells else 'long soup' if long else 'soup'
    text = re.sub(r'''(?i)<img\b(?:"[^"]*"|'[^']*'|[^>"'])*?(\s*/?)>''', lambda m: f'<img {rng.choice(("", "class=DECOY "))}src="/i.png" alt="{word()}"{m[1]}>', text)
    while 'DECOY' in text:
        text = text.replace('DECOY', decoy(), 1)
    return {'text': text, 'what': what}


VOID = ('br', 'hr', 'img', 'input', 'meta')
TAG = re.compile(r'<!--.*?-->|</[^a-zA-Z].*?>|</>|<\?.*?>|<!.*?>|</?([a-zA-Z][^\s>/]*)(?:"[^"]*"|[^>"])*>', re.DOTALL)


def expected(text):
    """ words with the kind of gap behind each: 'sep', 'join' or None (not specified) """
    words, gaps = [], []
    pos, sep, unknown, mute, stack = 0, False, False, False, []
    for m in list(TAG.finditer(text)) + [None]:
        data = text[pos:m.start() if m else len(text)]
        last = 0
        for w in WORD.finditer(data):
            between = data[last:w.start()]
            sep = sep or bool(re.search(r'\s', between))
            unknown = unknown or bool(between.strip())
            if words:
                gaps.append(None if mute else 'sep' if sep else 'join' if not unknown else None)
            words.append(w[0])
            sep = unknown = mute = False
            last = w.end()
        rest = data[last:]
        sep = sep or bool(re.search(r'\s', rest))
        unknown = unknown or bool(rest.strip())
        if m:
            pos = m.end()
            tag = (m[1] or '').lower()
            if tag == 'img' and WORD.search(m[0]):
                # its alternative text is a word, too
                if words:
                    gaps.append(None if mute else 'sep' if sep else 'join' if not unknown else None)
                words.append(WORD.search(m[0])[0])  # every image of gen() has one
                sep = unknown = mute = False
                continue
            if re.fullmatch('h[1-9]', tag):
                tag = 'h'
            if m[0].startswith('</'):
                # closes the open tags up to its own; without one it is nothing
                if tag in stack:
                    while True:
                        t = stack.pop()
                        sep = sep or t in SEPARATING
                        unknown = unknown or t not in JOINING
                        if t == tag:
                            break
                else:
                    unknown = True
                continue
            if tag and tag not in VOID and not m[0].endswith('/>'):
                stack.append(tag)
            if tag in SEPARATING:
                sep = True
            elif tag not in JOINING:
                unknown = True
    return words, gaps


def run(case, st):
    import creole
    from creole.emitter.html2rest_emitter import Html2restException
    text = case['text']
    want, gaps = expected(text)
    for name, fn in (('html2creole', creole.html2creole), ('html2textile', creole.html2textile), ('html2markdown', creole.html2markdown), ('html2rest', creole.html2rest)):
        if name == 'html2rest' and case['what'] == 'cell soup':
            continue  # the targets of links in cells stand somewhere
        try:
            out = call(fn, text)
        except SutError as err:
            if isinstance(err.__cause__, Html2restException) and 'Duplicate' in str(err.__cause__):
                continue
            raise
        flat = out
        if name == 'html2rest':
            # the targets of links and images stand behind the block
            flat = re.sub(r'(?m)^\.\. (?:_|\|).*\n?', '', out)
            flat = re.sub(r' <[^<>]*>`_', '`_', flat)
            flat = flat.replace('\\ ', '')    # no space
        # images are words, too
        flat = re.sub(r'\{\{/i\.png\|(w\d+x)\}\}|!/i\.png\((w\d+x)\)!|!\[(w\d+x)\]\(/i\.png\)' + (r'|\|(w\d+x)\|' if name == 'html2rest' else ''),
                      lambda m: st.count('images followed') or m[m.lastindex], flat)
        got = WORD.findall(flat)
        st.count('words followed', len(want))
        if want != got:
            lost = [w for w in want if w not in got]
            twice = sorted({w for w in got if got.count(w) > 1})
            return [('words', f'{name}({text!r}) -> {out!r}: lost {lost[:5]} repeated {twice[:5]} order {got[:12]}')]
        leaked = [d for d in re.findall(r'd\d+y', text) if d in out and f'href="/{d}' not in text]
        st.count('decoys', len(re.findall(r'd\d+y', text)))
        if leaked:
            return [('leak', f'{name}({text!r}) -> {out!r}: {leaked} is no visible text')]
        if case['what'] == 'long soup' and name == 'html2rest':
            # (spaces at the end of a link text that is ended by another tag)
            continue
        out_gaps = WORD.split(flat)[1:-1]
        for n, (g, o) in enumerate(zip(gaps, out_gaps)):
            if g == 'sep':
                st.count('separations checked')
                if not re.search(r'\s|\\\\|\||<br />', o):
                    return [('glued', f'{name}({text!r}) -> {out!r}: {want[n]} and {want[n + 1]} are glued together')]
            elif g == 'join':
                st.count('joins checked')
                if re.search(r'\s', o):
                    return [('split', f'{name}({text!r}) -> {out!r}: there is no space between {want[n]} and {want[n + 1]}')]
    st.key(re.findall(r'</?[a-z]\w*', text))
    st.sample(text[:300])


def probes(st):
    import creole
    html = '<table><caption>w1x</caption><tr><td>w2x</td></tr></table>'
    lost = [n for n in ('html2creole', 'html2textile', 'html2markdown', 'html2rest') if 'w1x' not in getattr(creole, n)(html)]
    yield 'table-caption', bool(lost), f'{lost} drop the caption of {html}'
