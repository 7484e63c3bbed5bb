"""
C30  the reported difference between two texts, applied to the first one, gives the second one
"""
import re
import shutil
import subprocess
import tempfile
from pathlib import Path

from vf import creolegen as G
from vf import words as W
from vf.checks.c23 import SEP, convert, quiet
from vf.core import call

CASES = {'quick': 16000, 'thorough': 300000}
RULE = ('pairs of texts: random lines (also empty ones, lines that look like a part of a diff, unusual separators) and random edits of them, with and without a newline at the end. An own strict reader of unified diffs, '
        'and for a part GNU patch in a scratch directory, applies the diff to the old text; the result must be the new one. For a part a README is generated from a random document, edited, and '
        'assert_rst_readme()/assert_markdown_readme() asked; the diff in its message is applied to the README without the note. Non-trivial: distinct diffs.')
MINIMUM = {'diffs applied': 8000, 'equal texts': 300, 'missing newline': 3000, 'GNU patch': 100, 'asserted READMEs': 150, 'up to date': 15}
PATCH = shutil.which('patch')
LINES = ('', '', ' ', '-', '+', '\\', '--- a', '+++ b', '@@ -1,2 +1,2 @@', '-- x', '\\ No newline at end of file', 'same', 'same', 'x', '\t', 'a\x0cb', 'a\u2028b', 'a\x85', '\x1cx', 'é', 'a\x0b', 'n', 'a ', ' a')


def gen(rng, i, tier):
    r = rng
    if r.random() < 0.025:
        return {'kind': 'readme', 'which': r.choice(('rst', 'md')), 'text': G.write(G.Gen(r, features={'typeface', 'link', 'list', 'hr'}).document(1, 6)), 'edits': edits(r), 'name': r.choice(('README.creole', 'ÄB.creole', 'x.y.txt')),
                'note': r.random() < 0.9}

    def line():
        t = r.random()
        return r.choice(LINES) if t < 0.4 else W.word(r) if t < 0.7 else ' '.join(W.word(r) for _ in range(r.randint(2, 6)))
    old = [line() for _ in range(r.choice((0, 0, 1, 1, 2, 3, 5, 8, 12, 30)) if r.random() < 0.98 else r.randint(50, 400))]
    return {'kind': 'texts', 'lines': old, 'ends': [r.random() < 0.6, r.random() < 0.6], 'edits': edits(r, line), 'name': r.choice((None, None, 'README.rst', 'a b.md', 'é')), 'patch': r.random() < 0.03, 'cr': r.random() < 0.05}


def edits(r, line=None):
    line = line or (lambda: r.choice(LINES[:-12]) if r.random() < 0.3 else W.plain(r))
    return [[r.choice(('insert', 'delete', 'replace', 'double', 'move')), r.random(), r.random(), line()] for _ in range(r.choice((0, 1, 1, 1, 2, 3, 5)))]


def edit(lines, changes):
    lines = list(lines)
    for how, a, b, s in changes:
        n, m = int(a * (len(lines) + 1)), int(b * (len(lines) + 1))
        if how == 'insert':
            lines.insert(n, s)
        elif n < len(lines):
            if how == 'delete':
                del lines[n]
            elif how == 'replace':
                lines[n] = s
            elif how == 'double':
                lines.insert(n, lines[n])
            else:
                lines.insert(m, lines.pop(n))
    return lines


def apply(diff, old):
    """ a strict reader of unified diffs -> (text, names) or the reason why it is none """
    if not diff.endswith('\n'):
        return None, 'no newline at the end of the diff'
    lines = diff[:-1].split('\n')
    if len(lines) < 3 or not lines[0].startswith('--- ') or not lines[1].startswith('+++ '):
        return None, 'no head'
    source = re.findall(r'[^\n]*\n|[^\n]+', old)
    out = []
    at = 0
    n = 2
    while n < len(lines):
        m = re.fullmatch(r'@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@', lines[n])
        if not m:
            return None, f'no hunk: {lines[n]!r}'
        n += 1
        start, count = int(m[1]), int(m[2] or 1)
        begin, new = int(m[3]), int(m[4] or 1)
        start -= count > 0
        begin -= new > 0
        if start < at:
            return None, 'hunks overlap'
        out += source[at:start]
        at = start
        if len(out) != begin:
            return None, f'hunk for line {begin} at line {len(out)}'
        while count or new:
            if n >= len(lines):
                return None, 'hunk is too short'
            sign, text = lines[n][:1], lines[n][1:] + '\n'
            n += 1
            if n < len(lines) and lines[n].startswith('\\'):
                if lines[n] != '\\ No newline at end of file':
                    return None, lines[n]
                text = text[:-1]
                n += 1
            if sign not in (' ', '-', '+') or not sign:
                return None, f'no line of a hunk: {lines[n - 1]!r}'
            if sign != '+':
                if at >= len(source) or source[at] != text:
                    return None, f'line {at} is not {text!r}'
                at += 1
                count -= 1
            if sign != '-':
                out.append(text)
                new -= 1
            if count < 0 or new < 0:
                return None, 'hunk is too long'
    out += source[at:]
    if any(not x.endswith('\n') for x in out[:-1]):
        return None, 'a line without a newline before the end'
    return ''.join(out), (lines[0], lines[1])


def gnu(diff, old):
    root = Path(tempfile.mkdtemp(prefix='vf-c30-'))
    try:
        (root / 'f').write_bytes(old.encode('utf-8'))
        (root / 'd').write_bytes(diff.encode('utf-8'))
        p = subprocess.run([PATCH, '--binary', '-s', '-f', '-F0', '-o', 'out', 'f', 'd'], cwd=root, capture_output=True, timeout=60)
        return (root / 'out').read_bytes().decode('utf-8') if p.returncode == 0 else f'(status {p.returncode}) {p.stdout + p.stderr!r}'
    finally:
        shutil.rmtree(root)


def check(diff, old, new, name, st, shown):
    got, names = apply(diff, old)
    st.count('diffs applied')
    st.count('missing newline', old[-1:] not in ('', '\n') or new[-1:] not in ('', '\n'))
    if got != new:
        return [('diff', f'{shown}: the diff {diff!r} applied to {old!r} gives {got!r} ({names}) instead of {new!r}')]
    want = (f'--- old / {name}', f'+++ new / {name}') if name is not None else ('--- old', '+++ new')
    if names != want:
        return [('names', f'{shown}: the head of the diff is {names}, not {want}')]
    st.key(re.sub(r'\w+', 'w', diff))
    return []


def run(case, st):
    from creole.shared.diff_utils import unified_diff
    if case['kind'] == 'readme':
        return readme(case, st)
    a, b = case['lines'], edit(case['lines'], case['edits'])
    old, new = ('\n'.join(x) + ('\n' if x and e else '') for x, e in zip((a, b), case['ends']))
    if case['cr']:
        old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
    kw = {} if case['name'] is None else {'filename': case['name']}
    diff = call(unified_diff, old, new, **kw)
    if old == new:
        st.count('equal texts')
        return [('equal', f'unified_diff({old!r}, the same) -> {diff!r}')] if diff != '' else []
    bad = check(diff, old, new, case['name'], st, 'unified_diff')
    if not bad and case['patch'] and PATCH and case['name'] != 'é' and old:
        got = gnu(diff, old)
        st.count('GNU patch')
        if got != new:
            bad = [('patch', f'GNU patch with {diff!r} makes {got!r} of {old!r} instead of {new!r}')]
    st.sample(diff)
    return bad


def readme(case, st):
    from creole import setup_utils as U
    root = Path(tempfile.mkdtemp(prefix='vf-c30-'))
    try:
        source = root / case['name']
        source.write_bytes(case['text'].encode('utf-8'))
        content = convert(case['text'])[case['which']]
        if not isinstance(content, str):
            return []
        old = '\n'.join(edit(content.split('\n'), case['edits']))
        path = source.with_suffix('.' + case['which'])
        # (text files are read with universal newlines)
        if '\r' in old or '\r' in content:
            return []
        note = f'{SEP}``Note: this file is generated from {source.name} 2020-01-01 00:00:00 with "python-creole"``'
        path.write_bytes((old + note).encode('utf-8'))
        fn = U.assert_rst_readme if case['which'] == 'rst' else U.assert_markdown_readme
        _, err, _ = quiet(fn, root, filename=source.name)
        st.count('asserted READMEs')
        shown = f'{fn.__name__} for {case["text"]!r} and README {old!r}'
        if old == content:
            st.count('up to date')
            return [('assert', f'{shown}: {err!r}')] if err is not None else []
        m = re.fullmatch(re.escape(path.name) + r' is not up-to-date:\n(.*)', str(err), re.DOTALL) if isinstance(err, AssertionError) else None
        if not m:
            return [('assert', f'{shown}: {err!r}')]
        return check(m[1], old, content, path.name, st, shown)
    finally:
        shutil.rmtree(root)
