""" random words: always begin and end with an alphanumeric character """

ALNUM = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
UNI = 'éßÄøñžΩжדعम中文字가ツ😀𝔘ǅﬁ'
# characters inside of a word, never doubled
SPECIAL = '<>&"\'=;.!?()$%@+`*/_-^,#:[]{}\\'


def alnum(rng, uni=0.15):
    return rng.choice(UNI) if rng.random() < uni else rng.choice(ALNUM)


def word(rng, special=SPECIAL, uni=0.15, maxlen=6):
    """ e.g. "a<b", "R&D", "x*y" """
    n = rng.randint(1, maxlen)
    out = [alnum(rng, uni)]
    for _ in range(n - 1):
        if special and out[-1] not in SPECIAL and rng.random() < 0.2:
            out.append(rng.choice(special))
        else:
            out.append(alnum(rng, uni))
    if out[-1] in SPECIAL:
        out.append(alnum(rng, uni))
    if rng.random() < 0.04:
        out.append('&amp;x')
    return ''.join(out)


def plain(rng, maxlen=6):
    return ''.join(rng.choice(ALNUM[:52]) for _ in range(rng.randint(1, maxlen)))


def words(rng, lo, hi, **kw):
    return ' '.join(word(rng, **kw) for _ in range(rng.randint(lo, hi)))
