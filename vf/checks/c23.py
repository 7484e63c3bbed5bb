"""
C23  the README workflow: the generated files follow the source through every history of edits, updates and damage
"""
import contextlib
import datetime
import io
import math
import os
import re
import shutil
import sys
import tempfile
import time
import warnings
from pathlib import Path

from vf import child
from vf import creolegen as G
from vf import soup as S
from vf import words as W

CASES = {'quick': 900, 'thorough': 9000}
RULE = ('random histories of 4 to 14 operations on a package directory: edit the creole README (well-formed, hostile, not valid as ReSt, empty), set its time, update, assert, get_long_description, damage (truncate, append, delete, replace) '
        'the generated files, updates with a write fault at a random byte. After every operation the monitor compares all files and the result with the model. Non-trivial: distinct operation sequences.')
MINIMUM = {'written': {'quick': 300, 'thorough': 5000}, 'unchanged': {'quick': 150, 'thorough': 2500}, 'refused': {'quick': 100, 'thorough': 1500}, 'asserted up-to-date': {'quick': 100, 'thorough': 1500}, 'asserted outdated': {'quick': 80, 'thorough': 1200},
           'write faults': {'quick': 50, 'thorough': 700}, 'long descriptions': {'quick': 150, 'thorough': 2000}}
# POSIX rules: they need no time zone files
ZONES = ('UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'XXX11:45')
SEP = '\n\n------------\n\n'
NAMES = ('README.creole', 'README.creole', 'docs.creole', 'README', 'a b.txt', 'my.readme.creole')


def document(rng, i):
    t = rng.random()
    if t < 0.1:
        return rng.choice(('', ' \n', '= headline', '----', '= h\n\n----\n', 'a\n\n----', '[[/a|same]] [[/b|same]]', '| = a |', '* a\n** b\n\n= x', '<<nope>>', 'ä', '= a\n\n=== b\n\nc\n\n== d\n\n= e\n\nf', '{{{\nx\n}}}', '<<toc>>\n= a\nb', '\ufeffa', 'a\n\n------------\n\nb',
                           '{{a.png|b}}', '[[a]]', '[[http://a.b|c]]', 'a\u2028b', 'a\x0cb', 'x\n\n<<html>><foo>x</foo><</html>>'))
    if t < 0.25:
        return S.messy(rng, i, size=15)
    if t < 0.6:
        return '\n\n'.join(rng.choice((f'= {W.plain(rng)}', f'== {W.plain(rng)}\n{W.plain(rng)}', f'* {W.plain(rng)}\n** {W.plain(rng)}', f'{W.plain(rng)} **b** //i//', f'|= a |= b |\n| {W.plain(rng)} | d |', '----', f'[[http://x.y|{W.plain(rng)}]]', '{{{\n x\n}}}'))
                           for _ in range(rng.randint(1, 5))) + '\n\n' + W.plain(rng)
    return G.write(G.Gen(rng).document(1, 4))


def gen(rng, i, tier):
    ops = [{'op': 'edit', 'text': document(rng, i)}]
    for _ in range(rng.randint(3, 13)):
        t = rng.random()
        which = rng.choice(('rst', 'rst', 'md'))
        if t < 0.2:
            ops.append({'op': 'edit', 'text': document(rng, i + 1), 'nl': rng.choice(('\n', '\n', '\r\n'))})
        elif t < 0.27:
            ops.append({'op': 'touch', 'time': rng.choice((0, 1, 86400.5, 951782400, 1e9 + rng.random(), 1711846800, 1729987200, 4102444800, rng.randrange(2 ** 31)))})
        elif t < 0.4:
            ops.append({'op': 'damage', 'which': which, 'how': rng.choice(('truncate', 'append', 'delete', 'replace', 'empty', 'change', 'prepend', 'note', 'bytes', 'invalid', 'invalid')), 'pos': rng.random()})
            if rng.random() < 0.5:
                ops[-1:] = [{'op': 'update', 'which': which}, ops[-1], {'op': 'assert', 'which': which}]
        elif t < 0.65:
            ops += [{'op': 'update', 'which': which}] * rng.choice((1, 1, 2))
        elif t < 0.83:
            ops.append({'op': 'assert', 'which': which})
        elif t < 0.9:
            ops.append({'op': 'fault', 'which': which, 'pos': rng.random()})
        else:
            ops.append({'op': 'long', 'raise': rng.choice((True, False, None)), 'argv': rng.choice((['setup.py'], ['setup.py', 'install'], ['setup.py', 'sdist'], ['x', 'check'], ['x', '--long-description', 'y'], ['x', 'develop', '-q'], ['x', 'install', 'check'], ['x', '-q', 'sdist', '-v'], ['x', 'checkdocs'], ['x', 'upload_docs'], ['x', '--quiet', 'register']))})
    return {'ops': ops, 'name': rng.choice(NAMES), 'relative': rng.random() < 0.2, 'tz': rng.choice(ZONES)}


def convert(text):
    """ -> {'rst': content or exception, 'md': ..., 'html': ...} """
    import creole
    from creole.shared.unknown_tags import raise_unknown_node
    from readme_renderer.rst import render
    html = creole.creole2html(text.strip())
    found = {'html': html}
    for which, fn in (('rst', creole.html2rest), ('md', creole.html2markdown)):
        try:
            found[which] = fn(html, unknown_emit=raise_unknown_node)
        except Exception as err:
            found[which] = err
    rest = found['rst']
    if isinstance(rest, str) and (render(rest, stream=io.StringIO()) is None or render(f'{rest}{SEP}``note``', stream=io.StringIO()) is None):
        found['rst'] = SystemExit(1)
    return found


def state(path, content):
    """ None: there is no file; True: it's the content with a note; False: it is out of date; else: only the note is damaged """
    if not path.is_file():
        return None
    data = path.read_bytes()
    if isinstance(content, BaseException):
        return 'unknown'
    head = (content + SEP).encode('utf-8')
    if data.startswith(head) and re.fullmatch(rb'``Note: [^\n\r`]*``', data[len(head):]):
        return True
    if data.startswith(content.encode('utf-8') + b'\n'):
        return 'damaged note'
    return False


def quiet(fn, *args, **kw):
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return fn(*args, **kw), None, out.getvalue()
        except (Exception, SystemExit) as e:
            return None, e, out.getvalue()


def run(case, st):
    root = Path(tempfile.mkdtemp(prefix='vf-c23-'))
    cwd = os.getcwd()
    try:
        (root / 'bystander.rst').write_text('bystander')
        if case.get('relative'):
            os.chdir(root.parent)
        zone = os.environ.get('TZ')
        os.environ['TZ'] = case.get('tz', 'UTC0')
        time.tzset()
        return history(case, st, root)
    finally:
        os.environ.pop('TZ', None)
        if zone is not None:
            os.environ['TZ'] = zone
        time.tzset()
        os.chdir(cwd)
        shutil.rmtree(root)


def history(case, st, root):
    from creole import setup_utils as U
    if not case['ops'] or case['ops'][0]['op'] != 'edit':
        return []
    name = case['name']
    creole = root / name
    path = {'rst': creole.with_suffix('.rst'), 'md': creole.with_suffix('.md'), 'html': creole.with_suffix('.html')}
    package = Path(root.name) if case.get('relative') else root
    fns = {('update', 'rst'): U.update_rst_readme, ('update', 'md'): U.update_markdown_readme, ('assert', 'rst'): U.assert_rst_readme, ('assert', 'md'): U.assert_markdown_readme}
    content = {}
    st.key([(o['op'], o.get('which'), o.get('how')) for o in case['ops']])
    for n, o in enumerate(case['ops']):
        which = o.get('which')
        shown = f'operation {n} {str(o)[:200]} of {[(x["op"], x.get("which"), x.get("how")) for x in case["ops"]]}'
        if o['op'] == 'edit':
            try:
                raw = o['text'].replace('\n', o.get('nl', '\n')).encode('utf-8')
            except UnicodeEncodeError:
                raw = b'x'
            old = creole.stat().st_mtime if creole.exists() else None
            creole.write_bytes(raw)
            if old is not None and n % 2:
                os.utime(creole, (old, old))
            content = convert(re.sub('\r\n?', '\n', raw.decode('utf-8')))
            continue
        if o['op'] == 'touch':
            os.utime(creole, (o['time'], o['time']))
            continue
        if o['op'] == 'damage':
            damage(path[which], o)
            continue
        if o['op'] == 'long':
            bad = long_description(U, o, package, name, creole, st)
            if bad:
                return [(bad[0], f'{shown}: {bad[1]}')]
            continue

        want = content[which]
        before = child.snapshot(root)
        old = state(path[which], want)
        if old is not None:
            stamp = path[which].stat().st_mtime_ns
        if o['op'] == 'fault':
            size = len(want.encode('utf-8')) + 20 if isinstance(want, str) else 40
            limit = int(size * o['pos'])
            status, out, err = child.run(lambda: fns['update', which](package, filename=name), fsize=limit)
            st.count('write faults')
            after = child.snapshot(root)
            if status == 0 and old is not True and not (old == 'damaged note' and state(path[which], want) == old):
                return [('fault', f'{shown}: success, but only {limit} bytes could be written')]
        else:
            result, error, out = quiet(fns[o['op'], which], package, filename=name)
            after = child.snapshot(root)
        changed = {k for k in before.keys() | after.keys() if before.get(k) != after.get(k)}
        rel = os.path.relpath(path[which], root)
        if which == 'md':    # the markdown functions write the html, too
            if o['op'] != 'fault' and path['html'].read_text(encoding='utf-8') != content['html'].replace('\r\n', '\n').replace('\r', '\n'):
                return [('html', f'{shown}: {path["html"].read_bytes()!r:.300}')]
            changed -= {os.path.relpath(path['html'], root)}
        if changed - ({rel} if o['op'] != 'assert' else set()):
            return [('other files', f'{shown}: changed {changed}')]
        if o['op'] == 'fault':
            continue

        if isinstance(want, BaseException):
            st.count('refused')
            if error is None or (isinstance(want, SystemExit) and not (isinstance(error, SystemExit) and error.code)):
                return [('accepted', f'{shown}: {error!r}, but the source cannot be converted: {want!r}')]
            if changed:
                return [('changed', f'{shown}: changed {changed}, but the source cannot be converted: {want!r}')]
            continue
        if o['op'] == 'assert':
            if old is True:
                st.count('asserted up-to-date')
                if error is not None:
                    return [('assert', f'{shown}: {error!r:.500} on a README that is up-to-date')]
            elif old in (False, None):
                st.count('asserted outdated')
                if error is None or (old is False and not isinstance(error, AssertionError)):
                    return [('assert', f'{shown}: {error!r}, but the README is {path[which].read_bytes() if old is False else None!r:.300}, not {want!r:.300}')]
            continue
        if error is not None:
            return [('update', f'{shown}: {error!r}')]
        if result != (package / name).with_suffix('.' + which):
            return [('path', f'{shown}: returned {result!r}')]
        if old is True:
            st.count('unchanged')
            if changed or path[which].stat().st_mtime_ns != stamp:
                return [('touched', f'{shown}: changed the file that was up-to-date to {path[which].read_bytes()!r:.300}')]
            if 'nothing changed' not in out:
                return [('message', f'{shown}: {out!r}')]
            continue
        if old == 'damaged note' and not changed:
            continue
        st.count('written')
        when = datetime.datetime.fromtimestamp(math.floor(creole.stat().st_mtime)).isoformat(sep=' ')
        note = f'``Note: this file is generated from {name} {when} with "python-creole"``'
        data = path[which].read_bytes()
        if data != (want + SEP + note).encode('utf-8'):
            return [('content', f'{shown}: wrote {data!r:.400}, expected {(want + SEP + note)!r:.400}')]
        if 'nothing changed' in out:
            return [('message', f'{shown}: {out!r}')]
    return []


def damage(path, o):
    how, pos = o['how'], o['pos']
    if not path.is_file() and how not in ('replace', 'empty', 'bytes'):
        return
    if how == 'delete':
        path.unlink()
        return
    if how in ('replace', 'empty', 'bytes'):
        path.write_bytes({'replace': b'something else\n', 'empty': b'', 'bytes': b'\xff\xfe a'}[how])
        return
    data = path.read_bytes()
    k = int(len(data) * pos)
    head, _, note = data.rpartition(b'\n')
    path.write_bytes({'truncate': data[:k], 'append': data + b'\n\na\n\nb\n\nc', 'change': data[:k] + b'#' + data[k + 1:], 'prepend': b'\n' + data, 'invalid': data[:k] + b'\xff' + data[k:],
                      'note': head + b'\n' + note.replace(b'0', b'1')}[how])


RAISE = {'check', 'register', 'sdist', 'bdist', 'upload', '--long-description', '--restructuredtext'}


def long_description(U, o, package, name, creole, st):
    from creole import creole2html, html2rest
    from creole.rest_tools.pypi_rest2html import pypi_rest2html
    from creole.shared.unknown_tags import raise_unknown_node, transparent_unknown_nodes
    argv, sys.argv = sys.argv, list(o['argv'])
    try:
        result, error, out = quiet(U.get_long_description, str(package), name, o['raise'])
    finally:
        sys.argv = argv
    st.count('long descriptions')
    strict = o['raise']
    if strict is None:
        strict = len(o['argv']) == 1 or bool(RAISE & set(o['argv']))
    text = creole.read_bytes().decode('utf-8').strip()
    want = bad = None
    try:
        want = html2rest(creole2html(text), unknown_emit=raise_unknown_node if strict else transparent_unknown_nodes)
    except Exception as err:
        bad = err
    if strict and bad is None:
        _, bad, _ = quiet(pypi_rest2html, want)
    if strict and bad is not None:
        if error is None or (isinstance(error, SystemExit) and not error.code):
            return 'long', f'{error!r} {result!r:.300}, but {bad!r}'
        return None
    if error is not None:
        return 'long', f'{error!r}'
    if bad is not None:
        if not (result.startswith('[Error: ') and result.endswith(']\n' + text)):
            return 'long', f'{result!r:.300}, but {bad!r}'
    elif result != want:
        return 'long', f'{result!r:.300}, expected {want!r:.300}'
    return None


def finish(seed, tier, st):
    """ sources that cannot be read """
    from creole import setup_utils as U
    root = Path(tempfile.mkdtemp(prefix='vf-c23-'))
    try:
        (root / 'bad.creole').write_bytes(b'= a\n\nb\xc3')
        (root / 'dir.creole').mkdir()
        for name in ('bad.creole', 'missing.creole', 'dir.creole'):
            for suffix in ('.rst', '.md'):
                (root / name).with_suffix(suffix).write_text('old')
        before = child.snapshot(root)
        for name in ('bad.creole', 'missing.creole', 'dir.creole'):
            for fn in (U.update_rst_readme, U.update_markdown_readme, U.assert_rst_readme, U.assert_markdown_readme):
                st.count('unreadable sources')
                _, error, out = quiet(fn, root, filename=name)
                if error is None or child.snapshot(root) != before:
                    yield 'unreadable', f'{fn.__name__} {name}: {error!r} {child.snapshot(root)}', {'ops': []}
            result, error, out = quiet(U.get_long_description, str(root), name, False)
            if error is not None or not result.startswith('[Error: '):
                yield 'unreadable', f'get_long_description {name}: {error!r} {result!r}', {'ops': []}
            result, error, out = quiet(U.get_long_description, str(root), name, True)
            if error is None:
                yield 'unreadable', f'get_long_description {name}: {result!r} without an error', {'ops': []}
    finally:
        shutil.rmtree(root)
