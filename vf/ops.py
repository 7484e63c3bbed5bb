"""
Conversions as data: an op is {"fn": name, "text": ..., "kw": {...}}; perform() gives a comparable result.
Used by the purity monitor and by its reference processes.
"""
import io


def m_plain(text=None, **kw):
    return f'[{text}|{sorted(kw.items())}]'.replace('<', '(').replace('&', '+')


def m_fail(**kw):
    raise ValueError('<macro> failed & "so"')


def m_strict(ext, text):
    return f'{ext}:{text}'


def m_none(**kw):
    return None


class MacroObject:
    nope = staticmethod(m_plain)
    x = staticmethod(m_fail)
    a = staticmethod(m_strict)


def make_macros(kind):
    if kind == 'dict':
        return {'nope': m_plain, 'x': m_fail, 'a': m_strict, 'n': m_none}
    if kind == 'object':
        return MacroObject()
    if kind == 'example':
        from creole.shared import example_macros
        return {'html': example_macros.html, 'pre': example_macros.pre, 'code': example_macros.code}
    if kind == 'module':
        from creole.shared import example_macros
        return example_macros
    if kind == 'empty':
        return {}
    return None


def tree(node):
    """ a comparable copy of a document tree """
    return [node.kind, node.content, sorted(getattr(node, 'attrs', {}).items()), getattr(node, 'level', None), [tree(c) for c in node.children]]


UNKNOWN = ('transparent_unknown_nodes', 'use_html_macro', 'preformat_unknown_nodes', 'escape_unknown_nodes', 'raise_unknown_node')


def perform(op, macros=None):
    """ macros: the (shared) object to pass, else a new one """
    import creole
    kw = dict(op['kw'])
    err = io.StringIO()
    try:
        if op['fn'] == 'creole2html':
            kind = kw.pop('macros', None)
            res = creole.creole2html(op['text'], macros=macros if macros is not None else make_macros(kind), stderr=err, **kw)
        elif op['fn'] == 'rest2html':
            from creole.rest_tools.clean_writer import rest2html
            res = rest2html(op['text'], **kw)
        elif op['fn'] == 'pypi_rest2html':
            from creole.rest_tools.pypi_rest2html import pypi_rest2html
            res = pypi_rest2html(op['text'], **kw)
        elif op['fn'] == 'parse_html':
            res = tree(creole.parse_html(op['text']))
        elif op['fn'] == 'parse_creole':
            from creole.parser.creol2html_parser import CreoleParser
            res = tree(CreoleParser(op['text'], **kw).parse())
        else:
            if 'unknown_emit' in kw:
                from creole.shared import unknown_tags
                kw['unknown_emit'] = getattr(unknown_tags, kw['unknown_emit'])
            res = getattr(creole, op['fn'])(op['text'], **kw)
        return ['ok', type(res).__name__, res, err.getvalue()]
    except Exception as e:
        return ['exception', type(e).__name__, str(e), err.getvalue()]
