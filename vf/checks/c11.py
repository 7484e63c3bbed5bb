"""
C11  a conversion is a function of its arguments, without side effects
"""
import contextlib
import io
import locale
import os
import random
import sys
import threading

from vf import creolegen as G
from vf import htmlgen as HG
from vf import ops
from vf import soup as S
from vf.zygote import Zygote

CASES = {'quick': 1200, 'thorough': 30000}
RULE = ('histories of 4 to 14 conversions with all public functions, valid and broken documents, failing conversions, shared macro objects; '
        'sequentially or in 4 threads with a 1 microsecond switch interval. Each result must be the one of a fresh process with another hash seed, '
        'working directory and locale; audit events, stdout/stderr, arguments, environment are watched. Non-trivial: distinct function sequences.')
MINIMUM = {'results compared': {'quick': 8000, 'thorough': 200000}, 'threaded conversions': 3000, 'failed conversions': 100, 'audit events': 10000,
           'shared macros checked': 500}

REST = ['para *em* **strong** ``lit``\n', '- item\n- item two\n\n  para\n', '====\nHead\n====\n\n----\nSub\n----\n\nHead2\n=====\n', '`link <http://x.y/>`_\n',
        '+---+---+\n| a | b |\n+---+---+\n', '::\n\n    pre <b>\n', '.. image:: /i.png\n', '.. _t: http://x.y/\n\nSee `t`_.\n', '#. a\n#. b\n', 'term\n  def\n',
        ':field: value\n', '.. note:: x & y\n', '|s|\n\n.. |s| image:: /s.png\n', '\n', 'a <b> & "c"\n', '.. comment\n', '----\n',
        '.. raw:: html\n\n    <b>x</b>\n', '\tquoted "text"\n', 'mail a@b.cd\n', 'fo*o*bar\n', 'x [1]_\n\n.. [1] y\n', ':math:`a`\n', '-o opt  text\n', 'quote\n\n  -- by\n']

SETTINGS = [('initial_header_level', 3), ('initial_header_level', 1), ('smart_quotes', True), ('tab_width', 2), ('doctitle_xform', True), ('sectsubtitle_xform', True), ('raw_enabled', True), ('report_level', 5),
            ('table_style', 'x'), ('field_name_limit', 0), ('option_limit', 1), ('footnote_references', 'superscript'), ('cloak_email_addresses', True), ('compact_lists', False), ('xml_declaration', False),
            ('attribution', 'none'), ('language_code', 'de'), ('id_prefix', 'p-'), ('strip_comments', True), ('character_level_inline_markup', True), ('input_encoding', 'utf-8'), ('math_output', 'LaTeX')]


def op(rng, i):
    t = rng.random()
    if t < 0.4:
        text = S.messy(rng, i, size=25) if rng.random() < 0.5 else G.write(G.Gen(rng).document(1, 3))
        if rng.random() < 0.25:
            text = '<<toc>>\n\n= a\n' + text + '\n== b\n= a\n'
        if rng.random() < 0.3:
            text += rng.choice(('\n\n<<code ext=".py">>\nx = 1\n<</code>>', '\n\n<<pre>>a<b<</pre>>', '\n\n<<html>><b>x</b><</html>>', '\n\n<<nope a=1>>', ' <<x>> <<y>>'))
        return {'fn': 'creole2html', 'text': text, 'kw': {'blog_line_breaks': rng.random() < 0.5, 'strict': rng.random() < 0.3, 'verbose': rng.choice((None, 0, 1, 2)),
                                                         'macros': rng.choice((None, 'dict', 'object', 'example', 'module', 'empty'))}}
    if t < 0.8:
        text = HG.write(HG.HG(rng).document(1, 3), rng) if rng.random() < 0.5 else HG.soup(rng, rng.randint(1, 25), HG.SOUP + HG.TABLE_SOUP)
        kw = {}
        if rng.random() < 0.4:
            kw['unknown_emit'] = rng.choice(ops.UNKNOWN)
        return {'fn': rng.choice(('html2creole', 'html2rest', 'html2textile', 'html2markdown')), 'text': text, 'kw': kw}
    if t < 0.86:
        return {'fn': 'parse_html', 'text': HG.soup(rng, rng.randint(1, 25), HG.SOUP), 'kw': {}}
    if t < 0.9:
        return {'fn': 'parse_creole', 'text': S.messy(rng, i, size=20), 'kw': {'blog_line_breaks': rng.random() < 0.5}}
    fn = 'rest2html' if rng.random() < 0.7 else 'pypi_rest2html'
    return {'fn': fn, 'text': 'first\n\n' + '\n'.join(rng.sample(REST, rng.randint(1, 4))) + '\nlast\n',
            'kw': dict(rng.sample(SETTINGS, rng.randint(1, 3))) if fn == 'rest2html' and rng.random() < 0.4 else {}}


def gen(rng, i, tier):
    lst = [op(rng, i) for _ in range(rng.randint(2, 7))]
    for _ in range(rng.randint(1, 6)):
        o = dict(rng.choice(lst))
        if rng.random() < 0.3 and o['fn'].startswith('html2'):
            o['fn'] = rng.choice(('html2creole', 'html2rest', 'html2textile', 'html2markdown'))
        elif rng.random() < 0.3 and o['fn'] == 'creole2html':
            o['kw'] = {**o['kw'], 'blog_line_breaks': not o['kw']['blog_line_breaks']}
        lst.insert(rng.randint(0, len(lst)), o)
    threads = rng.random() < 0.25
    if threads:
        # docutils shares its cache of state machines between threads
        lst = [o for o in lst if 'rest2html' not in o['fn']]
    return {'ops': lst, 'threads': threads, 'seed': rng.randint(0, 10**9)}


ENVS = [({'PYTHONHASHSEED': '1', 'LC_ALL': 'C', 'TZ': 'UTC'}, '/'), ({'PYTHONHASHSEED': '77', 'LC_ALL': 'C.UTF-8', 'TZ': 'Asia/Tokyo', 'LANGUAGE': 'de', 'HOME': '/nonexistent', 'PYTHONUTF8': '0'}, '/usr')]
ZYGOTES = []
WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
FORBIDDEN = ('socket.', 'subprocess.', 'os.system', 'os.exec', 'os.fork', 'os.posix_spawn', 'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.chdir', 'os.chmod', 'os.chown', 'os.putenv',
             'os.unsetenv', 'os.link', 'os.symlink', 'os.truncate', 'os.utime', 'os.kill', 'shutil.', 'tempfile.', 'urllib.', 'http.', 'ftplib.', 'smtplib.', 'signal.', 'sys.addaudithook', 'sys.setprofile', 'sys.settrace')
AUDIT = {'on': False, 'n': 0, 'bad': []}


def hook(event, args):
    if not AUDIT['on']:
        return
    AUDIT['n'] += 1
    if event == 'open':
        path, mode, flags = args
        if isinstance(flags, int) and flags & WRITING or isinstance(mode, str) and set(mode) & set('wax+'):
            AUDIT['bad'].append(f'open({path!r}, {mode!r})')
    elif event.startswith(FORBIDDEN):
        AUDIT['bad'].append(f'{event}{args!r}'[:200])


def prepare():
    if not ZYGOTES:
        sys.addaudithook(hook)
        import creole.rest_tools.clean_writer    # noqa: F401
        import creole.rest_tools.pypi_rest2html  # noqa: F401
        for env, cwd in ENVS:
            ZYGOTES.append(Zygote(env, cwd))


def surroundings():
    return [os.getcwd(), dict(os.environ), locale.setlocale(locale.LC_ALL), list(sys.path), sys.getrecursionlimit(), random.getstate()[1][:3], sys.stdout is None]


def differs(got, want):
    if got[0] == 'exception' and got[1] == 'RecursionError' or want[0] == 'exception' and want[1] == 'RecursionError':
        return False
    return got != want


def run(case, st):
    prepare()
    lst = case['ops']
    rng = random.Random(case['seed'])
    if not lst:
        return
    reference = []
    for n, o in enumerate(lst):
        z = ZYGOTES[(case['seed'] + n) % len(ZYGOTES)]
        reference.append(z.ask(o))
    if ['died'] in reference:
        return [('died', f'a conversion ended its process: {lst[reference.index(["died"])]!r}')]
    shared = {k: ops.make_macros(k) for k in ('dict', 'object', 'example', 'empty')}
    before = {k: (dict(v) if isinstance(v, dict) else dict(vars(v)), dict(vars(type(v))) if not isinstance(v, dict) else None) for k, v in shared.items()}
    texts = [o['text'] for o in lst]
    around = surroundings()

    def one(o):
        return ops.perform(o, shared.get(o['kw'].get('macros')) if o['fn'] == 'creole2html' else None)

    results = []   # (n, result)
    out, err = io.StringIO(), io.StringIO()
    AUDIT['bad'].clear()
    n0 = AUDIT['n']
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        AUDIT['on'] = True
        try:
            if case['threads']:
                interval = sys.getswitchinterval()
                sys.setswitchinterval(1e-6)
                start = threading.Barrier(4)

                def work(k):
                    order = list(range(len(lst)))
                    order = order[k:] + order[:k] if k % 2 else order[::-1]
                    start.wait()
                    for n in order:
                        results.append((n, one(lst[n])))
                try:
                    ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
                    for t in ts:
                        t.start()
                    for t in ts:
                        t.join()
                finally:
                    sys.setswitchinterval(interval)
                st.count('threaded conversions', len(results))
            else:
                for n, o in enumerate(lst):
                    results.append((n, one(o)))
                n = rng.randrange(len(lst))
                results.append((n, one(lst[n])))
        finally:
            AUDIT['on'] = False
    st.count('audit events', AUDIT['n'] - n0)
    st.count('results compared', len(results))
    how = '4 threads' if case['threads'] else 'a history'
    for n, got in results:
        st.count('failed conversions', got[0] == 'exception')
        if differs(got, reference[n]):
            return [('depends', f'{lst[n]!r} in {how} of {len(lst)} conversions gave {got!r}, in a fresh process {reference[n]!r}')]
    if AUDIT['bad']:
        return [('side effect', f'{[o["fn"] for o in lst]}: {AUDIT["bad"][:3]}')]
    # (docutils reports broken ReSt on stderr: its message and the quoted lines)
    if any(o['fn'] in ('rest2html', 'pypi_rest2html') for o in lst) and err.getvalue().startswith('<string>:'):
        err = io.StringIO()
    if out.getvalue() or err.getvalue():
        return [('output', f'{lst!r}: stdout {out.getvalue()[:200]!r} stderr {err.getvalue()[:300]!r}')]
    for k, v in shared.items():
        now = (dict(v) if isinstance(v, dict) else dict(vars(v)), dict(vars(type(v))) if not isinstance(v, dict) else None)
        st.count('shared macros checked')
        if now != before[k]:
            return [('argument', f'the macros {k} were changed: {before[k][0]} -> {now[0]} by {lst!r}')]
    if texts != [o['text'] for o in lst]:
        return [('argument', 'text changed')]
    if surroundings() != around:
        return [('surroundings', f'{[o["fn"] for o in lst]}: {around} -> {surroundings()}')]
    st.key([(o['fn'], r[0]) for o, r in zip(lst, reference)], case['threads'])
    st.sample([(o['fn'], o['text'][:60]) for o in lst])
