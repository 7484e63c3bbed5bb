"""
C20  rest2html: the document that the ReSt source means, as clean html, without access to files and raw html
"""
import io
import os
import random
import re
import sys
import tempfile

from vf import htmltree as H
from vf import restgen as G
from vf.core import SutError, call

CASES = {'quick': 12000, 'thorough': 60000}
RULE = ('(a) random well-formed ReSt documents of 22 constructs and 13 inline constructs: the html tree is the expected one, without a message of docutils; (b) hostile documents: fragments of directives '
        '(raw, include, csv-table, role raw with paths of a canary file), broken markup and html: an audit hook watches for opened files, the output is well-formed and has only known tags and attributes. '
        'Non-trivial: distinct structures.')
MINIMUM = {'trees compared': {'quick': 1500, 'thorough': 30000}, 'hostile documents': {'quick': 900, 'thorough': 15000}, 'file directives': 800, 'raw directives': 500}
ENTITIES = {'&nbsp;': '\xa0', '&mdash;': '—'}
TAGS = {'p', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'ul', 'ol', 'li', 'dl', 'dt', 'dd', 'table', 'tr', 'td', 'th', 'caption', 'colgroup', 'col', 'tbody', 'pre', 'hr', 'br', 'a', 'img', 'em', 'strong',
        'tt', 'code', 'sup', 'sub', 'cite', 'span', 'kbd', 'var', 'i', 'b', 'object', 'acronym', 'abbr', 'samp', 'u', 'small', 'big', 'del', 'ins', 'q'}
ATTRS = {'href', 'src', 'alt', 'align', 'title', 'colspan', 'rowspan', 'width', 'style', 'valign', 'data', 'type', 'lang', 'border'}
CANARY = 'canary5417content'
_dir = _opened = None


def canary_file():
    """ a canary file that no document may read, and a hook that sees every opened file """
    global _dir, _opened
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='vf-c20-')
        import atexit
        import shutil
        atexit.register(shutil.rmtree, _dir, True)
        with open(os.path.join(_dir, 'canary.txt'), 'w') as f:
            f.write(CANARY + '\n')
        _opened = []

        def hook(event, args):
            if event in ('open', 'urllib.Request', 'socket.connect', 'subprocess.Popen', 'os.system') and _opened is not None and 'canary' in str(args[0]):
                _opened.append((event, str(args[0])))
        sys.addaudithook(hook)
    return os.path.join(_dir, 'canary.txt')


def setup(seed, tier):
    canary_file()    # before the workers are forked: they leave no files


def gen(rng, i, tier):
    if rng.random() < 0.6:
        return G.Gen(rng).document(1, 7 if tier == 'quick' or i % 10 else 20)
    return {'parts': [fragment(rng) for _ in range(rng.randint(1, 8) if rng.random() < 0.98 else rng.randint(20, 80))]}


def fragment(r):
    w = r.choice(('foo', 'bar', 'Baz', '<script>alert(1)</script>', '<b onclick="x">', 'a "b" \'c\'', '&lt;', 'é'))
    t = r.random()
    if t < 0.25:
        return r.choice((
            '.. include:: CANARY', '.. include:: CANARY\n   :literal:', '.. include:: CANARY\n   :code: python', '.. raw:: html\n   :file: CANARY', '.. raw:: html\n   :url: file://CANARY',
            '.. csv-table::\n   :file: CANARY', '.. csv-table:: t\n   :url: file://CANARY', '- x\n\n  .. include:: CANARY', '.. note::\n\n   .. include:: CANARY', '.. |s| include:: CANARY',
            '.. figure:: x.png\n\n   .. raw:: html\n      :file: CANARY', '.. table:: x\n\n   .. csv-table::\n      :file: CANARY',
            '+---+\n| a |\n+---+\n\n.. include:: CANARY\n   :start-line: 0', '.. literalinclude:: CANARY', '.. role:: h(raw)\n   :format: html\n   :file: CANARY'))
    if t < 0.45:
        return r.choice((
            f'.. raw:: html\n\n   <script>{w}</script>', '.. role:: h(raw)\n   :format: html\n\n:h:`<script>alert(2)</script>`', f'.. raw:: html\n\n   <div class="x" id="y">{w}</div>',
            '.. |r| raw:: html\n\n   <script>x</script>\n\n|r|', '- .. raw:: html\n\n     <iframe src="x">', '.. raw:: html xml latex\n\n   <b>x</b>', ':raw:`<script>x</script>`',
            '.. RAW:: html\n\n   <script>x</script>', '.. raw::\n   html\n\n   <script>x</script>', '.. class:: x\n\n.. raw:: html\n\n   <object data="x">'))
    if t < 0.6:
        return r.choice((
            f'.. image:: {w}', f'.. image:: x.png\n   :alt: {w}\n   :target: {w}', f'.. figure:: x.png\n   :align: left\n   :class: {w}\n\n   {w}', f'`{w} <{w}>`_', f'`{w}`_\n\n.. _`{w}`: {w}', f'.. _a: {w}\n\na_',
            f'.. class:: {w}\n\npara {w}', f'.. container:: c1 c2\n\n   {w}', f'.. code:: python\n   :class: c\n\n   {w}', f'.. topic:: {w}\n   :class: c\n\n   {w}', f'.. sidebar:: {w}\n\n   {w}', f'.. rubric:: {w}',
            f'.. role:: c\n   :class: cc\n\n:c:`{w}`', f'.. note::\n   :class: c\n   :name: n\n\n   {w}', '.. contents:: T\n\nA\n=\n\nB\n=\n\nx', f'.. header:: {w}\n.. footer:: {w}', f'.. meta::\n   :description: {w}\n   :http-equiv=x: y',
            f'.. math:: a < b\n\n:math:`x^2`', f'a [1]_ [#x]_ [*]_ [C]_\n\n.. [1] {w}\n.. [#x] {w}\n.. [*] {w}\n.. [C] {w}', f'-a  {w}\n--bar=X  {w}\n-c FOO  {w}', f':author: {w}\n:version: 1\n:date: 2\n:abstract: {w}',
            f'term : {w} : {w}\n   def {w}', f'.. title:: {w}', f'.. default-role:: sup\n\n`{w}`', f'.. table:: {w}\n   :widths: 1 2\n   :align: center\n   :class: c\n\n   == ==\n   a  b\n   == ==\n   1  2\n   == ==',
            f'.. list-table:: {w}\n   :header-rows: 1\n   :stub-columns: 1\n\n   * - a\n     - {w}\n   * - c\n     - d', f'.. csv-table:: {w}\n\n   a,"{w}"\n   c,d'.replace('"a "b" ', '"a b ').replace("'c'\"", "c\""),
            f'.. epigraph::\n\n   {w}\n\n   -- {w}', f'.. parsed-literal::\n\n   {w} *x* `y <z>`_', f'.. compound::\n\n   {w}\n\n   b', f'.. line-block::\n\n   {w}', f'.. unknown:: {w}\n\n   {w}', '.. sectnum::\n\nS\n=\n\nT\n-\n\nx', f'_`{w}` x', f'.. _t:\n\n{w}\n\nt_'))
    if t < 0.8:
        return r.choice((f'*{w}', f'**{w}', f'``{w}', f'`{w}', f'|{w}|', f'{w}_', f'`{w}`_', f'`{w}`__', f'{w}\n==', f'==\n{w}\n==', f'| {w}\n|  {w}', f'> {w}', f'>>> {w}', f'::\n\n  {w}', f'::\n{w}', f'+--+\n|{w}|\n+--+', f'=== ===\n{w}  b\n=== ===',
                         f'.. {w}', f'..\n  {w}', f'.. _{w}', f'.. |{w}| replace:: {w}', f':{w}: {w}', f'1. {w}\n3. b', f'(a) {w}', f'- {w}\n b', f'    {w}\n  b\n c', f'----\n\n{w}', f'{w}\n  - x\n y', f'\\{w}', f'{w}@x.de http://{w}', f'__ {w}', f':{w}:`x`', f'.. {w}::', '*a `b_ |c|', 'x\n\n====\n\n====\n\ny', f'<{w}>', '</div>\n', '<div>', 'class="x"'))
    return f'{w} {r.choice(("", "*a*", "**b**", "``c``", "`d <e>`_", "<i>"))} {w}'


def flat(node):
    """ without colgroup and span, and paragraphs as text in items and cells; one kind of space """
    tag, at, children = node
    out = []
    for c in children:
        if isinstance(c, str):
            out.append(c.replace('\xa0', ' '))
        elif c[0] in ('colgroup', 'col'):
            continue
        elif c[0] in ('span', 'tbody'):
            out += flat(c)[2]
        elif c[0] == 'p' and tag in ('li', 'dd', 'td', 'th'):
            out += [' ', *flat(c)[2], ' ']
        else:
            out.append(flat(c))
    if tag == 'pre':
        merged = []
        for c in out:
            if isinstance(c, str) and merged and isinstance(merged[-1], str):
                merged[-1] += c
            else:
                merged.append(c)
        out = merged
    if tag == 'pre' and out and isinstance(out[0], str):
        out[0] = out[0].lstrip('\n')
    if tag == 'pre' and out and isinstance(out[-1], str):
        out[-1] = out[-1].rstrip('\n')
    if tag == 'tt':
        out = [re.sub(' +', ' ', ''.join(out))]
    return (tag, at, [c for c in out if c != ''])


def parse(html):
    html = re.sub(r'<!--.*?-->', '', html, flags=re.DOTALL)
    for name, char in ENTITIES.items():
        html = html.replace(name, char)
    return H.parse(html)


def run(case, st):
    from creole.rest_tools.clean_writer import rest2html
    canary = canary_file()
    messages = io.StringIO()
    if 'parts' in case:
        source = '\n\n'.join(case['parts'])
        st.count('hostile documents')
        st.count('file directives', source.count('CANARY'))
        st.count('raw directives', sum('raw' in p.lower() for p in case['parts']))
        source = source.replace('CANARY', canary)
        del _opened[:]
        try:
            html = call(rest2html, source, warning_stream=messages)
        except SutError as err:
            if type(err.__cause__).__name__ == 'SystemMessage' and '(SEVERE/4) Title level inconsistent' in str(err):
                # docutils does not go on after severe errors
                st.count('severe errors')
                return [('file access', f'{case["parts"]}: opened {_opened}')] if _opened else []
            raise
        st.key(tuple(re.findall(r'\.\. *(\w+)::', source)), tuple(sorted(set(re.findall(r'<(\w+)', html)))))
        out = []
        if _opened:
            out.append(('file access', f'{case["parts"]}: opened {_opened}'))
        if CANARY in html:
            out.append(('file content', f'{case["parts"]} -> {html!r}'))
        return out + clean(source, html)
    if not G.valid(case):
        return
    source = G.Writer().document(case)
    html = call(rest2html, source, warning_stream=messages)
    out = []
    if messages.getvalue():
        out.append(('docutils message', f'{source!r}: {messages.getvalue()!r}'))
    try:
        got = H.normalise(flat(parse(html)), preserve={'pre'})
    except H.NotWellFormed as err:
        return out + [('malformed', f'{source!r} -> {html!r}: {err}')]
    want = H.normalise(flat(G.expected(case)), preserve={'pre'})
    d = H.diff(want, got)
    st.count('trees compared')
    st.count('elements compared', sum(1 for _ in H.iter_nodes(want)))
    if d:
        out.append(('tree', f'{source!r} -> {html!r}: {d}'))
    st.key(H.shape(want))
    st.sample(source[:400])
    return out + clean(source, html)


def clean(source, html):
    out = []
    if re.search(r'<script|<iframe|<object data="x"', re.sub(r'<!--.*?-->', '', html, flags=re.DOTALL), re.I):
        out.append(('raw html', f'{source!r} -> {html!r}'))
    try:
        tree = parse(html)
    except H.NotWellFormed as err:
        return out + [('malformed', f'{source!r} -> {html!r}: {err}')]
    for (tag, at, _), parents in H.iter_nodes(tree):
        if tag != 'r' and tag not in TAGS:
            out.append(('tag', f'{source!r} -> {html!r}: <{tag}>'))
        extra = [k for k, v in at if k not in ATTRS]
        if extra:
            out.append(('attribute', f'{source!r} -> {html!r}: <{tag} {extra}>'))
    return out
