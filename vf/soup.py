""" hostile, mostly malformed creole: fragments of markup in random order """

from vf import creolegen as G
from vf import words as W

MARKS = ['**', '//', '##', '^^', ',,', '__', '--', '~~', '\\\\', '~', '[[', ']]', '{{', '}}', '{{{', '}}}', '|', '||',
         '=', '==', '=======', '*', '#', '----', '-----', '\n', '\n', '\n', '\n\n', ' ', ' ', '  ', '\t', '\n* ', '\n** ',
         '\n# ', '\n## ', '\n*# ', '\n= ', '\n== ', '\n|', '\n|=', '|=', '\n----\n', '\n{{{\n', '\n}}}\n', '~}}}',
         'http://', ' https://', '~http://', ':', '::', '/', '-', '_', '^', ',', '<', '>', '&', '"', "'", '&amp;', '&#x41;',
         '<b>', '</p>', '<script>', '-->', '<!--', ']]>', '<![CDATA[', '\\', '|10x20}}', '|axb}}', '$', '%', '\n \n', '\n\t\n']
MACROISH = ['<<', '>>', '<</', '<<toc>>', '<<toc depth=2>>', '<<toc depth="x">>', '<<nope>>', '<<nope />>', '<<nope a="b">>',
            '<<nope a=b c>>', '<<nope>>', '<</nope>>', '<<html>>', '<</html>>', "<<nope a='>>", '<<nope "a">>', '<<1>>', '<<_ a=1>>',
            '<</toc>>', '<<toc>', '<toc>>', '<<html a="<b>">>']
CONTROL = ['\r', '\r\n', '\x0b', '\x0c', '\x85', '\u2028', '\u2029', '\xa0', '\u3000', '\u200b', '\ufeff', '\x00', '\x01', '\x1f',
           '\x7f', '\ufffe', '\ufffd', '\u202e', '\u0301', '\U0010ffff', '\ud800', '\udfff']


def soup(rng, n, marks=MARKS, extra=(), word=None, pword=0.45):
    out = []
    pool = list(marks) + list(extra)
    # few different fragments in one document: the same mark meets itself more often
    if rng.random() < 0.5:
        pool = [rng.choice(pool) for _ in range(rng.randint(2, 8))]
    for _ in range(n):
        if rng.random() < pword:
            out.append(word() if word else W.word(rng, uni=0.05))
        else:
            out.append(rng.choice(pool))
    return ''.join(out)


def mutate(rng, text, n, pool):
    """ random edits in a well formed document """
    for _ in range(n):
        if not text:
            return rng.choice(pool)
        p = rng.randrange(len(text))
        t = rng.random()
        if t < 0.4:
            text = text[:p] + rng.choice(pool) + text[p:]
        elif t < 0.7:
            text = text[:p] + text[p + rng.randint(1, 4):]
        elif t < 0.85:
            q = rng.randrange(len(text))
            p, q = min(p, q), max(p, q)
            text = text[:q] + text[p:min(q, p + 60)] + text[q:]
        else:
            text = text[:p]
    return text


def messy(rng, i, control=(), macros=True, size=60):
    t = rng.random()
    extra = (MACROISH if macros else []) + list(control)
    if t < 0.55:
        return soup(rng, rng.randint(1, size), extra=extra, pword=rng.choice((0.1, 0.3, 0.5)))
    if t < 0.9:
        doc = G.Gen(rng).document(1, 4)
        return mutate(rng, G.write(doc), rng.randint(1, 8), MARKS + extra)
    chars = ''.join(MARKS) + ''.join(extra) + 'abc é中😀'
    return ''.join(rng.choice(chars) for _ in range(rng.randint(0, size * 2)))
