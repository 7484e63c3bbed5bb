"""
C04  creole2html neither loses, repeats, reorders nor glues together the words of a document
"""
import re

from vf import htmltree as H
from vf import soup as S
from vf.core import call

CASES = {'quick': 60000, 'thorough': 1200000}
RULE = ('unique words w<n>x in hostile markup soup without macros; a conservation monitor reads the parsed output (text, link '
        'targets, image attributes; equal copies counted once) and demands the sequence of the source, and white space or a tag '
        'wherever the source has white space. Non-trivial: distinct output shapes with at least 3 words.')
MINIMUM = {'words followed': {'quick': 150000, 'thorough': 4000000}, 'separations checked': 50000}
WORD = re.compile(r'w\d+x')
CONSTRUCTS = ('{{W|W|10x20xW}}', '{{W|W|W}}', '{{W|W|10x20}}', '{{W||1x2xW}}', '{{W|W|10xW}}', '{{W|W|Wx20}}', '{{W|W|10x20|W}}', '{{W|W 10x20}}',
              '{{W | W | 10 x 20 W}}', '{{W}}', '{{W W}}', '[[W|W|W]]', '[[W|{{W|W}} W]]', '[[W|{{W|W|1x2}}W]]', '[[W W]]', '[[W|W\\\\W]]', '[[W|**W** W]]',
              '[[W]]W', '|=W|W|', '|W|[[W|W]]|{{W|W}}|', '|{{{W|W}}}|W', '* W\n*# W\n* W', '= W =\n', '{{{W}}}', '{{{\nW\n}}}\nW', 'http://W/W', '~http://W',
              '~[[W|W]]', '~{{W|W}}', '**W //W// W**', '**W', 'W\\\\W', 'W\x85W', 'W\u2028W', 'W\xa0W', '----W', '{{{W', 'W}}}', '[[W', '{{W|W')


def gen(rng, i, tier):
    counter = [0]

    def word():
        counter[0] += 1
        return f'w{counter[0]}x'
    ctl = ['\x85', '\u2028', '\xa0', '\r', '\r\n', '\u0301'] if rng.random() < 0.2 else []
    marks = [m for m in S.MARKS if '<' not in m or m in ('<', '<b>', '<!--', '<![CDATA[', '<script>')]
    text = S.soup(rng, rng.randint(3, 40) if rng.random() < 0.99 else rng.randint(100, 800) if rng.random() < 0.95 else rng.randint(3000, 8000), marks=marks, extra=ctl, word=word, pword=rng.choice((0.3, 0.5)))
    if rng.random() < 0.35:
        # complete constructs between the fragments
        at = [m.end() for m in WORD.finditer(text)]
        for p in sorted((rng.choice(at) for _ in range(rng.randint(1, 3))), reverse=True) if at else ():
            text = text[:p] + rng.choice(('', ' ', '\n', ' ')) + re.sub('W', lambda m: word(), rng.choice(CONSTRUCTS)) + rng.choice(('', ' ', '\n', ' ')) + text[p:]
        # the words in the order of the document
        n = iter(range(1, counter[0] + 1))
        text = WORD.sub(lambda m: f'w{next(n)}x', text)
    t = rng.random()
    if t < 0.01:
        # very many of one thing
        n = rng.choice((20, 50, 120, 300))
        what = rng.choice(('{} ', '* {}\n', '|{}', '|= {} ', '| {} |\n', '{}\n', '{}\\\\', '{}, ', '**{}** ', '[[{}]] ', '{{{{{}}}}} ', '= {}\n', '{}\n\n', '// {} ', '{{{{{{{}}}}}}} ', '{}', '~{} ', '## {} # '))
        if '{' not in what.replace('{}', '') and rng.random() < 0.3:
            what = rng.choice(('{{{{{{\n{0}\n}}}}}}\n', '[[{0}]]', '[[a|{0}]]', '{{{{a|{0}}}}}', '**{0}**', '//**{0}**//', '|{0}|', '* {0}')).format(what if rng.random() < 0.5 else '{} ').replace('\n', rng.choice(('\n', ' ')))
            if '{{' in what:
                what = '{} '
        many = ''.join(what.format(word()) for _ in range(n))
        text = text + rng.choice(('\n\n', ' ', '\n')) + many
    elif t < 0.1:
        # long words and repeated structure
        text = text + '\n\n' + '\n'.join(rng.choice(('* ', '|', '= ', '', '# ', ' ', '** ')) + word() + rng.choice(('', '|', ' =', '\\\\')) for _ in range(rng.randint(2, 30)))
    return {'text': text, 'blog': rng.random() < 0.6, 'strict': rng.random() < 0.3}


def linear(node, out):
    """ the document in reading order; tags as a mark, equal copies of the same source text once """
    tag, attrs, children = node
    at = dict(attrs)
    out.append('\x01')
    if tag == 'a' and 'href' in at:
        if re.sub(r'\s', ' ', H.text_of(node)) != re.sub(r'\s', ' ', at['href']):
            out.append(at['href'])
            out.append('\x01')
    elif tag == 'img':
        out.append(at.get('src', ''))
        out.append('\x01')
        if at.get('title') != at.get('src'):
            out.append(at.get('title', ''))
            out.append('\x01')
        if at.get('alt') != at.get('title'):
            out.append(at.get('alt', ''))
    for c in children:
        if isinstance(c, str):
            out.append(c)
        else:
            linear(c, out)
    out.append('\x01')


def run(case, st):
    from creole import creole2html
    text = case['text']
    if '<<' in text:
        text = text.replace('<<', '< <')
    html = call(creole2html, text, blog_line_breaks=case['blog'], strict=case['strict'])
    try:
        tree = H.parse(html)
    except H.NotWellFormed as err:
        return [('malformed', f'creole2html({text!r}) -> {html!r}: {err}')]
    parts = []
    linear(tree, parts)
    flat = ''.join(parts)
    want = WORD.findall(text)
    got = WORD.findall(flat)
    st.count('words followed', len(want))
    if want != got:
        lost = [w for w in want if w not in got]
        twice = sorted({w for w in got if got.count(w) > 1})
        return [('words', f'creole2html({text!r}, blog={case["blog"]}, strict={case["strict"]}) -> {html!r}: lost {lost[:5]} repeated {twice[:5]} order {got[:12]}')]
    src_gaps = WORD.split(text)[1:-1]
    out_gaps = WORD.split(flat)[1:-1]
    for n, (s, o) in enumerate(zip(src_gaps, out_gaps)):
        if re.search(r'\s', s):
            st.count('separations checked')
            if not re.search(r'[\s\x01]', o):
                return [('glued', f'creole2html({text!r}) -> {html!r}: {want[n]} and {want[n + 1]} are glued together')]
    if len(want) > 2:
        st.key(H.shape(tree))
    st.sample(text[:300].encode('unicode_escape').decode())
