"""
C22  the command line tools write exactly the conversion of the source file, or fail and change nothing
"""
import os
import shutil
import subprocess
import sys
import tempfile

from vf import child
from vf import creolegen as G
from vf import htmlgen as HG
from vf import soup as S
from vf.core import REPO

CASES = {'quick': 4000, 'thorough': 60000}
RULE = ('random documents, encodings (28 codecs, unknown codecs, sources with bytes that are no text in the codec, results that the codec cannot encode), argument orders, destinations (new, existing, the source itself, '
        'a link, a directory, in a missing directory, a full device), missing sources and file size limits at every offset as write fault, in forked children; a part in new processes with another locale. '
        'The monitor compares the whole scratch directory before and after. Non-trivial: distinct (tool, codec, kind of source and destination, outcome).')
MINIMUM = {'converted': {'quick': 1200, 'thorough': 20000}, 'failed and unchanged': {'quick': 600, 'thorough': 10000}, 'write faults': {'quick': 150, 'thorough': 2000}, 'other process': {'quick': 30, 'thorough': 300}}
TOOLS = ('creole2html', 'html2creole', 'html2rest', 'html2textile')
CODECS = ('utf-8', 'latin-1', 'utf-16', 'utf-16-le', 'utf-16-be', 'utf-32', 'utf-8-sig', 'cp1252', 'ascii', 'koi8-r', 'shift_jis', 'euc-jp', 'iso2022_jp', 'gb18030', 'big5', 'cp437', 'utf-7', 'iso8859-15', 'UTF8', 'mac-roman',
          'cp037', 'iso8859-8', 'cp1251', 'euc-kr', 'hz', 'raw_unicode_escape', 'unicode_escape', 'punycode')
BAD_CODECS = ('nope', '', 'hex', 'rot13', 'base64', 'zlib', 'utf-9', 'undefined')
NAMES = ('a.txt', 'b c.html', 'ünï.creole', 'sub/x', 'd.', '中', "q'uote", '"', 'x\\y', '%s', '{0}', 'a\nb', '-x', ' lead', 'trail ', 'tab\t', 'nl\n', '\u00a0nbsp\u00a0', '~', '$HOME', '*', '?.txt', '-', '%7e', 'UP.TXT', 'e\u0301', '@file', '#a', 'a=b', 'a.tar.gz', '...')


def document(rng, tool):
    if tool == 'creole2html':
        text = S.messy(rng, rng.randrange(10 ** 6), size=20) if rng.random() < 0.4 else G.write(G.Gen(rng).document(1, 3))
    else:
        text = HG.soup(rng, rng.randint(1, 20), HG.SOUP + HG.TABLE_SOUP) if rng.random() < 0.4 else HG.write(HG.HG(rng).document(1, 3), rng)
        if tool == 'html2rest' and rng.random() < 0.1:
            text += '<p><a href="/a">same</a> <a href="/b">same</a></p>'
        if rng.random() < 0.02:
            text = (text + '\n\n') * rng.choice((50, 300))
        if rng.random() < 0.02:
            text = '<div><p>a</p>' * 5000
    t = rng.random()
    if t < 0.2:
        text = rng.choice(('\r\n', '\r', '\n\r\n', '\x85', '\u2028')).join(text.split('\n'))
    elif t < 0.3:
        text = rng.choice(('\ufeff', '\n\n', ' ', '\x1a', '\x00')) + text + rng.choice(('\n', '\r\n', ' \n\n', '\x1a', '\ufeff'))
    elif t < 0.33:
        text = ''
    return text


def gen(rng, i, tier):
    tool = rng.choice(TOOLS)
    codec = rng.choice(CODECS) if rng.random() < 0.6 else 'utf-8'
    if rng.random() < 0.05:
        codec = rng.choice(BAD_CODECS)
    text = document(rng, tool)
    t = rng.random()
    if t < 0.25:    # a text of the codec, where html entities and macros can still make it not encodable
        errors = 'ignore'
    elif t < 0.6:
        errors = 'xmlcharrefreplace'
    else:
        errors = 'other'
    try:
        data = text.encode(codec, errors if errors != 'other' else 'strict')
    except (UnicodeError, LookupError):
        data = text.encode('utf-8', 'surrogatepass')
    if rng.random() < 0.12:
        k = rng.randint(0, len(data))
        data = rng.choice((data[:k], data[:k] + bytes([rng.randrange(256)]) + data[k:], data + b'\xc3', data + b'\xe4\xb8', data + b'\x81', data + b'a'))
    names = rng.sample(NAMES, 2)
    return {'tool': tool, 'codec': codec, 'data': data.hex(), 'src': names[0], 'dst': names[1],
            'source': rng.choice(('file',) * 12 + ('missing', 'dir', 'link', 'relative', 'relative', 'dangling')),
            'dest': rng.choice(('new',) * 4 + ('old',) * 6 + ('longer', 'same', 'link', 'dir', 'missing dir', 'full', 'hardlink')),
            'order': rng.randrange(7), 'fault': rng.random() if rng.random() < 0.15 else None, 'process': i % 100 == 0}


def expected(tool, data, codec):
    import creole
    try:
        return getattr(creole, tool)(data.decode(codec)).encode(codec)
    except Exception as err:
        return err


LOCALES = ({'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'LC_ALL': 'C.UTF-8'}, {'LC_ALL': 'POSIX', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'PYTHONIOENCODING': 'ascii:strict'}, {'PYTHONUTF8': '1', 'LC_ALL': 'C'},
           {'PYTHONWARNINGS': 'error', 'PYTHONHASHSEED': '7'}, {'PYTHONOPTIMIZE': '2'})


def run(case, st):
    from creole import cmdline
    if 'argv' in case:
        return [p[:2] for p in finish(0, 'quick', st)]
    tool, codec, data = case['tool'], case['codec'], bytes.fromhex(case['data'])
    root = tempfile.mkdtemp(prefix='vf-c22-')
    try:
        return check(case, st, cmdline, tool, codec, data, root)
    finally:
        shutil.rmtree(root)


def check(case, st, cmdline, tool, codec, data, root):
    process = case.get('process')
    src, dst = case['src'], case['dst']
    if process:
        src, dst = 'source.txt', 'dest.txt'
    os.mkdir(os.path.join(root, 'sub'))
    path = os.path.join(root, src)

    def put(name, content):
        with open(os.path.join(root, name), 'wb') as f:
            f.write(content)
    put('bystander', b'bystander')
    kind = case['source']
    if kind in ('file', 'relative'):
        put(src, data)
    elif kind == 'link':
        put('real', data)
        os.symlink('real' if '/' not in src else '../real', path)
    elif kind == 'dangling':
        os.symlink('nowhere', path)
    elif kind == 'dir':
        os.mkdir(path)
    source = src if kind == 'relative' else path

    dest, target = case['dest'], dst     # target: the entry that has the result
    if dest in ('old', 'longer'):
        put(dst, b'old content' * (1 if dest == 'old' else 5000))
    elif dest == 'same':
        target = 'real' if kind == 'link' else src
        dst = src
    elif dest == 'link':
        put('linked', b'old linked')
        os.symlink('linked' if '/' not in dst else '../linked', os.path.join(root, dst))
        target = 'linked'
    elif dest == 'hardlink':
        put(dst, b'old content')
        os.link(os.path.join(root, dst), os.path.join(root, 'other name'))
    elif dest == 'dir':
        os.mkdir(os.path.join(root, dst))
    elif dest == 'missing dir':
        dst = 'not here/x'
    destination = '/dev/full' if dest == 'full' else dst if kind == 'relative' else os.path.join(root, dst)

    want = expected(tool, data, codec) if kind in ('file', 'link', 'relative') else OSError(kind)
    if dest in ('dir', 'missing dir'):
        want = want if isinstance(want, Exception) else OSError(dest)
    args = [source, destination]
    enc = [['--encoding', codec], [f'--encoding={codec}'], ['--enc', codec]][case['order'] % 3]
    if codec == 'utf-8' and case['order'] > 2:
        enc = []
    dash = source.startswith('-') or destination.startswith('-')
    if dash:
        argv = [tool, *enc, '--', *args]
    else:
        argv = [[tool, *enc, *args], [tool, args[0], *enc, args[1]], [tool, *args, *enc]][case['order'] // 3 if case['order'] < 6 else 0]

    fault = None
    if case['fault'] is not None and isinstance(want, bytes) and want and dest != 'full':
        fault = int(case['fault'] * len(want))
    before = child.snapshot(root)
    if process and fault is None:
        env = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG', 'PYTHON'))}
        env.update(LOCALES[case['order'] % len(LOCALES)], PYTHONPATH=str(REPO), PYTHONDONTWRITEBYTECODE='1')
        code = f'import sys; sys.argv[0] = {tool!r}; from creole.cmdline import cli_{tool}; sys.exit(cli_{tool}())'
        p = subprocess.run([sys.executable, '-c', code, *argv[1:]], cwd=root, env=env, capture_output=True, timeout=120)
        status, out, err = p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
        st.count('other process')
    else:
        entry = getattr(cmdline, f'cli_{tool}')
        status, out, err = child.run(lambda: sys.exit(entry()), argv, root, fault)
    after = child.snapshot(root)
    st.key(tool, codec, kind, dest, type(want).__name__, fault is None)
    shown = f'{argv} source {data[:200]!r}: exit {status}, {(err.strip().splitlines() or [""])[-1][:200]!r}'

    if dest == 'full':
        want = want if isinstance(want, Exception) or not want else OSError('full')
    changed = {k for k in before.keys() | after.keys() if before.get(k) != after.get(k)}
    if dest == 'hardlink' and fault is None and isinstance(want, bytes):
        changed -= {'other name'}    # the same file
    if fault is not None:
        st.count('write faults')
        if status == 0:
            return [('fault', f'{shown}: success although only {fault} of {len(want)} bytes can be written')]
        if changed - {target, 'other name'}:
            return [('other files', f'{shown}: changed {changed}')]
        return []
    if isinstance(want, Exception):
        st.count('failed and unchanged')
        if status == 0:
            return [('success', f'{shown}, but {want!r}')]
        if 'done.' in out:
            return [('message', f'{shown}: {out!r}')]
        if changed:
            return [('changed', f'{shown}: changed {changed}, but {want!r}')]
        return []
    st.count('converted')
    if status != 0:
        return [('failure', f'{shown} {out!r}, expected {want[:200]!r}')]
    if dest != 'full' and after.get(target) != want:
        return [('content', f'{shown}: wrote {after.get(target)!r:.500}, not {want!r:.500}')]
    if changed - {target, 'other name'}:
        return [('other files', f'{shown}: changed {changed}')]
    if dest == 'hardlink' and after['other name'] not in (want, b'old content'):
        return [('other files', f'{shown}: the other name of the file is {after["other name"]!r}')]
    return []


def finish(seed, tier, st):
    """ help, version and wrong arguments touch nothing """
    from creole import cmdline
    for tool in TOOLS:
        root = tempfile.mkdtemp(prefix='vf-c22-')
        try:
            for name in ('a', 'b'):
                with open(os.path.join(root, name), 'w') as f:
                    f.write(name)
            before = child.snapshot(root)
            for argv, want in ((['--version'], 0), (['--help'], 0), (['-h', 'a', 'b'], 0), (['a'], 2), ([], 2), (['a', 'b', 'c'], 2), (['a', 'b', '--nope'], 2), (['a', 'b', '--encoding'], 2)):
                entry = getattr(cmdline, f'cli_{tool}')
                status, out, err = child.run(lambda: sys.exit(entry()), [tool, *argv], root)
                st.count('argument errors')
                if status != want or child.snapshot(root) != before:
                    yield 'arguments', f'{tool} {argv}: exit {status}, expected {want}; {out!r} {err!r}', {'argv': [tool, *argv]}
        finally:
            shutil.rmtree(root)
