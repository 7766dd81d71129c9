"""Engine side of the harness module `vp` (see jy/vp.py for the concrete side)."""
from . import terms as X
from .terms import T
from . import solver as SV
from .values import *
from . import lib as Lb


class Desc(object):
    def __init__(self, kind, **kw):
        self.kind = kind
        self.kw = kw


class Fail(object):
    """a refuted or undecided obligation"""

    def __init__(self, name, status, inputs, detail, line):
        self.name, self.status, self.inputs, self.detail, self.line = name, status, inputs, detail, line


def conc(v):
    if isinstance(v, Str):
        return v.py()
    if isinstance(v, Tup):
        return tuple(conc(x) for x in v.items)
    if isinstance(v, PList):
        return [conc(x) for x in v.items()]
    return v


def module(E):
    E.harnesses = getattr(E, 'harnesses', [])

    def desc(kind, names, dflt):
        def f(E, a, k):
            kw = dict(dflt)
            for n, v in zip(names, a):
                kw[n] = conc(v)
            for n, v in k.items():
                kw[n] = conc(v)
            return Desc(kind, **kw)
        return BI(kind, f)

    def enum(E, a, k):
        return Desc('Enum', values=list(a))

    def harness(E, a, k):
        opts = {}
        ds = {}
        for n, v in k.items():
            if isinstance(v, Desc):
                ds[n] = v
            else:
                opts[n] = conc(v)

        def deco(E, b, kk):
            E.harnesses.append({'name': b[0].name, 'func': b[0], 'desc': ds, 'opts': opts, 'mod': b[0].mod})
            return b[0]
        return BI('deco', deco)

    def check(E, a, k):
        E.check(E.truth_term(a[0]), a[1].py())

    def check_eq(E, a, k):
        E.skolem_ok = isinstance(a[0], (Str, PList)) and isinstance(a[1], (Str, PList))
        try:
            c = E.truth_term(Lb.eq(E, a[0], a[1]))
        finally:
            E.skolem_ok = False
        E.check(c, a[2].py())

    def assume(E, a, k):
        E.assume_feasible(E.truth_term(a[0]))

    def raises(E, a, k):
        try:
            E.call(a[1], list(a[2:]), k)
        except PyExc as e:
            if Lb.exc_matches(E, e.obj, a[0]):
                return True
            raise
        return False

    def attempt(E, a, k):
        """(exception class name or None, value)"""
        try:
            return Tup([None, E.call(a[0], list(a[1:]), k)])
        except PyExc as e:
            return Tup([S(e.obj.cls.name), None])

    def gensym(E, a, k):
        E.unsupported('gensym')

    def mkfile(E, a, k):
        fs = E.gh.setdefault('fs', {})
        n = '/scratch/%s' % a[1].py()
        fs[n] = a[0]
        return S(n)

    def rmfile(E, a, k):
        E.gh.setdefault('fs', {}).pop(a[0].py(), None)

    def parse_xml(E, a, k):
        s = a[0]
        if not s.src or s.src[0] != 'dom':
            E.unsupported('parse_xml of other text')

        def tree(o):
            return Tup([o[0], PDict(dict(o[1])), L([tree(c) for c in o[2]])])
        return tree(s.src[1])

    def octets(E, a, k):
        """list of the codes of a string / items of an array"""
        v = a[0]
        if isinstance(v, Str):
            return PList([list(c) if isinstance(c, tuple) else c for c in v.ch])
        return PList([list(c) if isinstance(c, (list, tuple)) else c for c in v.ch])

    def text(E, a, k):
        """str whose codes are the given list"""
        return Str('s', norm([tuple(c) if isinstance(c, list) else c for c in a[0].ch]))

    def utext(E, a, k):
        return Str('u', norm([tuple(c) if isinstance(c, list) else c for c in a[0].ch]))

    def allof(E, a, k):
        return X.and_(*[E.truth_term(x) for x in a[0].items()]) if a[0].items() else True

    def anyof(E, a, k):
        return X.or_(*[E.truth_term(x) for x in a[0].items()]) if a[0].items() else False

    def between(E, a, k):
        return X.inset(a[1], ((a[0], a[2]),)) if not isinstance(a[1], T) else X.and_(X.le(a[0], a[1]), X.le(a[1], a[2]))

    def override(E, a, k):
        """replace an attribute of a class / module for this path (ghost stub)"""
        E.setattr(a[0], a[1].py(), a[2])

    from .induct import vp_functions
    return dict(vp_functions(), **{
        'harness': BI('harness', harness),
        'Int': desc('Int', ['lo', 'hi', 'cap'], {}),
        'Str': desc('Str', ['len', 'lo', 'hi', 'allowed'], {'lo': 0, 'hi': 255, 'allowed': None}),
        'Uni': desc('Uni', ['len', 'lo', 'hi', 'allowed'], {'lo': 0, 'hi': 0xffff, 'allowed': None}),
        'Ints': desc('Ints', ['len', 'lo', 'hi', 'allowed'], {'lo': 0, 'hi': 255, 'allowed': None}),
        'Bool': desc('Bool', [], {}),
        'Enum': BI('Enum', enum),
        'check': BI('check', check), 'check_eq': BI('check_eq', check_eq), 'assume': BI('assume', assume),
        'raises': BI('raises', raises), 'attempt': BI('attempt', attempt), 'mkfile': BI('mkfile', mkfile), 'rmfile': BI('rmfile', rmfile),
        'parse_xml': BI('parse_xml', parse_xml), 'octets': BI('octets', octets), 'text': BI('text', text), 'utext': BI('utext', utext),
        'override': BI('override', override), 'allof': BI('allof', allof), 'anyof': BI('anyof', anyof), 'between': BI('between', between),
        'concrete': BI('concrete', lambda E, a, k: E.concretize(Lb.toint(a[0]))),
        'SYMBOLIC': True,
    })
