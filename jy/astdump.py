# Jython (Python 2.7 grammar): dump the AST of source files as JSON.
import ast, json


def enc(v):
    if isinstance(v, ast.AST):
        d = {'_': v.__class__.__name__}
        for f in v._fields or ():
            d[f] = enc(getattr(v, f, None))
        ln = getattr(v, 'lineno', None)
        if ln is not None:
            d['l'] = ln
        return d
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if v is None or v is True or v is False:
        return v
    if isinstance(v, float):
        return {'_': '$float', 'v': repr(v)}
    if isinstance(v, (int, long)):
        return {'_': '$int', 'v': str(v), 'long': isinstance(v, long)}
    if isinstance(v, unicode):
        return {'_': '$u', 'v': [ord(c) for c in v]}
    if isinstance(v, str):
        return {'_': '$s', 'v': [ord(c) for c in v]}
    # identifiers and the like
    return {'_': '$s', 'v': [ord(c) for c in str(v)]}


def dump(path):
    src = open(path, 'rb').read()
    if not src.endswith('\n'):
        src += '\n'
    tree = ast.parse(src, path)
    return enc(tree)
