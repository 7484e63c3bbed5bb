"""
C25  debugging only observes: debug=True changes no result, and a document tree can be printed and written more than once
"""
import contextlib
import io
import warnings

from vf import creolegen as G
from vf import htmlgen as HG
from vf import ops
from vf import soup as S
from vf.core import call

CASES = {'quick': 5000, 'thorough': 60000}
RULE = ('random well-formed and hostile creole and html documents with all options; every conversion with debug=True gives the result without it, or the same exception; trees of both parsers are printed (debug(), debug_tree()) and written by all emitters '
        'in random order and again: always the result of the plain conversion. Non-trivial: distinct outputs.')
MINIMUM = {'debug conversions': {'quick': 5000, 'thorough': 80000}, 'debug lines': 100000, 'trees written again': {'quick': 2500, 'thorough': 40000}, 'same failure': 10}


def gen(rng, i, tier):
    if rng.random() < 0.4:
        text = S.messy(rng, i, size=25, control=S.CONTROL if rng.random() < 0.2 else ()) if rng.random() < 0.5 else G.write(G.Gen(rng).document(1, 4))
        if rng.random() < 0.2:
            text = '<<toc>>\n\n' + text
        if rng.random() < 0.15:
            long = ''.join(rng.choice(('a', 'b', '/', 'cd', '%20', '-', '1')) for _ in range(rng.choice((30, 70, 150, 400)))).replace('//', '/')
            text += '\n\n' + rng.choice(('{0}', 'a {{{{{0}|x}}}}', '[[{0}]]', '[[x|{0}]]', '= {0}', '* {0}', '|{0}|', '{{{{{{{0}}}}}}}', '**{0}**', '<<x>>{0}<</x>>', '<<html>>{0}<</html>>', '<<x a="{0}">>')).format(long)
        return {'kind': 'creole', 'text': text, 'blog_line_breaks': rng.random() < 0.5, 'strict': rng.random() < 0.3, 'verbose': rng.choice((None, 0, 1, 2)), 'macros': rng.choice((None, 'dict', 'object', 'example')), 'order': [rng.randrange(4) for _ in range(3)]}
    text = HG.write(HG.HG(rng).document(1, 4), rng) if rng.random() < 0.5 else HG.soup(rng, rng.randint(1, 30), HG.SOUP + HG.TABLE_SOUP + (HG.CDATA_SOUP if rng.random() < 0.2 else []))
    if rng.random() < 0.15:
        # (long values)
        long = ''.join(rng.choice(('a', 'b', '/', '/', 'cd', '%20', '-', '1')) for _ in range(rng.choice((30, 70, 150, 400)))).replace('//', '/')
        text += rng.choice(('<p>a <img src="/{0}" alt="x"></p>', '<p><a href="/{0}">x</a></p>', '<p>{0}</p>', '<p><b>{0}</b></p>', '<h2>{0}</h2>', '<p><img src="/a" alt="{0}"></p>', '<x class="{0}">y</x>', '<ul><li>{0}</li></ul>',
                            '<table><tr><td>{0}</td></tr></table>', '<pre>{0}</pre>', '<p><tt>{0}</tt></p>', '<p><img src="data:image/png;base64,{0}" alt="x"></p>', '<p><a href="/a" title="{0}">x</a></p>')).format(long)
    if rng.random() < 0.05:
        text += '<p><a href="/a">same</a> <a href="/b">same</a></p>'
    return {'kind': 'html', 'text': text, 'unknown': rng.choice((None, *ops.UNKNOWN)), 'strict': rng.random() < 0.3, 'order': [rng.randrange(4) for _ in range(6)]}


class Observer(io.StringIO):
    def __init__(self):
        super().__init__()
        self.lines = 0

    def write(self, s):
        self.lines += s.count('\n')
        return len(s)


def outcome(fn, *args, **kw):
    try:
        return 'ok', fn(*args, **kw)
    except Exception as err:
        return type(err).__name__, str(err)


def run(case, st):
    import creole
    from creole.emitter.creol2html_emitter import HtmlEmitter
    from creole.parser.creol2html_parser import CreoleParser
    from creole.shared import unknown_tags
    text = case['text']
    sink = Observer()
    out = []
    with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if case['kind'] == 'creole':
            kw = {'verbose': case['verbose'], 'macros': ops.make_macros(case['macros']), 'strict': case['strict']}
            parser_kw = {'blog_line_breaks': case['blog_line_breaks']}
            want = call(creole.creole2html, text, stderr=io.StringIO(), **kw, **parser_kw)
            got = call(creole.creole2html, text, stderr=io.StringIO(), debug=True, **kw, **parser_kw)
            st.count('debug conversions')
            if got != want:
                out.append(('debug', f'creole2html({text!r}): {want!r}, with debug {got!r}'))
            parser = CreoleParser(text, debug=True, **parser_kw)
            tree = call(parser.parse)
            for n, what in enumerate(case['order']):
                if what == 0:
                    call(tree.debug)
                elif what == 1:
                    call(parser.debug_tree)
                else:
                    got = call(HtmlEmitter(tree, stderr=io.StringIO(), **kw).emit)
                    st.count('trees written again')
                    if got != want:
                        out.append(('tree', f'creole2html({text!r}): {want!r}, written from the tree {case["order"][:n + 1]} {got!r}'))
        else:
            unknown = case['unknown'] and getattr(unknown_tags, case['unknown'])
            fns = (('html2creole', {'strict': case['strict']}), ('html2rest', {}), ('html2textile', {}), ('html2markdown', {}))
            wants = []
            for name, kw in fns:
                fn = getattr(creole, name)
                want = outcome(fn, text, unknown_emit=unknown, **kw)
                got = outcome(fn, text, unknown_emit=unknown, debug=True, **kw)
                wants.append(want)
                st.count('debug conversions')
                st.count('same failure', want[0] != 'ok' and got == want)
                if got != want:
                    out.append(('debug', f'{name}({text!r}): {want!r}, with debug {got!r}'))
            from creole.emitter.html2creole_emitter import CreoleEmitter
            from creole.emitter.html2markdown_emitter import MarkdownEmitter
            from creole.emitter.html2rest_emitter import ReStructuredTextEmitter
            from creole.emitter.html2textile_emitter import TextileEmitter
            emitters = (CreoleEmitter, ReStructuredTextEmitter, TextileEmitter, MarkdownEmitter)
            tree = call(creole.parse_html, text)
            call(tree.debug)
            plain = ops.tree(tree)
            if ops.tree(call(creole.parse_html, text, debug=True)) != plain:
                out.append(('debug', f'parse_html({text!r}) is another tree with debug'))
            for n, k in enumerate(case['order']):
                kw = dict(fns[k][1])
                got = outcome(lambda: emitters[k](tree, unknown_emit=unknown, debug=n % 2 == 0, **kw).emit())
                st.count('trees written again')
                if got != wants[k]:
                    out.append(('tree', f'{fns[k][0]}({text!r}): {wants[k]!r}, written from the tree after {case["order"][:n]} {got!r}'))
            if ops.tree(tree) != plain:
                out.append(('tree changed', f'{text!r}: the emitters {case["order"]} changed the tree'))
    st.count('debug lines', sink.lines)
    st.key(want)
    return out
