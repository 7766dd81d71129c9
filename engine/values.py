"""Python 2 run-time values of the symbolic interpreter."""
from . import terms as X
from .terms import T


class Unsupported(Exception):
    """the construct is outside the verifier's reach: the path is undecided"""


class PyExc(Exception):
    """a Python-level exception of the interpreted program"""

    def __init__(self, obj):
        self.obj = obj

    def __str__(self):
        return 'PyExc(%s)' % self.obj.cls.name


class Stop(Exception):
    """end of path (assume failed / loop obligation done)"""


class Poison(object):
    """value of a variable a loop contract does not describe"""

    def __repr__(self):
        return '<poison>'


POISON = Poison()


# ------------------------------------------------------------------ sequences
class Sl(object):
    """slice of an uninterpreted base: elements base[lo .. lo+n-1]
    wrap: None (codes / ints) , 's' or 'u' (one-character strings, in lists)"""
    __slots__ = ('base', 'lo', 'n', 'wrap')

    def __init__(self, base, lo, n, wrap=None):
        self.base = base
        self.lo = lo
        self.n = n
        self.wrap = wrap

    def __repr__(self):
        return 'Sl(%s,%s,%s)' % (self.base.name, self.lo, self.n)

    def at(self, i):
        v = X.sel(self.base, X.add(self.lo, i))
        if self.wrap:
            return Str(self.wrap, ((v,),))
        return v

    def cut(self, a, b):
        return Sl(self.base, X.add(self.lo, a), X.sub(b, a), self.wrap)

    def same(self, o):
        return (isinstance(o, Sl) and o.base is self.base and o.lo is self.lo if isinstance(self.lo, T) else isinstance(o, Sl) and o.base is self.base and o.lo == self.lo) and o.wrap == self.wrap

    def rewrap(self, w):
        return Sl(self.base, self.lo, self.n, w)


class Fam(object):
    """n elements given by a function of the index: fn(i) -> value (i an int term)
    key: hashable identity of the family (for syntactic equality)"""
    __slots__ = ('fn', 'lo', 'n', 'key')

    def __init__(self, fn, lo, n, key):
        self.fn = fn
        self.lo = lo
        self.n = n
        self.key = key

    def at(self, i):
        return self.fn(X.add(self.lo, i))

    def cut(self, a, b):
        return Fam(self.fn, X.add(self.lo, a), X.sub(b, a), self.key)

    def __repr__(self):
        return 'Fam(%s,%s,%s)' % (self.key, self.lo, self.n)


class Op(object):
    """opaque run of codes named by a spec function: content determined by (tag, args)"""
    isflat = False
    __slots__ = ('tag', 'args', 'n', 'rng')

    def __init__(self, tag, args, n, rng=(0, 255)):
        self.tag = tag
        self.args = args
        self.n = n
        self.rng = rng

    def __repr__(self):
        return 'Op(%s,%s,n=%s)' % (self.tag, self.args, self.n)

    def at(self, i):
        raise Unsupported('element of opaque sequence %s' % self.tag)

    def cut(self, a, b):
        raise Unsupported('slice of opaque sequence %s' % self.tag)


def clen(c):
    return len(c) if isinstance(c, (tuple, list)) else c.n


def chlen(chs):
    n = 0
    for c in chs:
        n = X.add(n, clen(c))
    return n


def norm(chs):
    """merge adjacent chunks; result tuple of (tuple | Sl | Fam | Op)"""
    out = []
    for c in chs:
        if isinstance(c, (tuple, list)):
            if not c:
                continue
            if out and isinstance(out[-1], tuple):
                out[-1] = out[-1] + tuple(c)
            else:
                out.append(tuple(c))
        else:
            if not isinstance(c.n, T) and c.n <= 0:
                continue
            if out and isinstance(c, Sl) and isinstance(out[-1], Sl) and c.base is out[-1].base and c.wrap == out[-1].wrap:
                p = out[-1]
                if not isinstance(X.sub(X.add(p.lo, p.n), c.lo), T) and X.sub(X.add(p.lo, p.n), c.lo) == 0:
                    out[-1] = Sl(p.base, p.lo, X.add(p.n, c.n), p.wrap)
                    continue
            if not isinstance(c.n, T) and c.n <= 64 and not isinstance(c, Op):
                items = tuple(c.at(i) for i in range(c.n))
                if out and isinstance(out[-1], tuple):
                    out[-1] = out[-1] + items
                else:
                    out.append(items)
                continue
            out.append(c)
    return tuple(out)


class Str(object):
    """str ('s') or unicode ('u'): sequence of codes"""
    __slots__ = ('kind', '_ch', 'lazy', 'src', '_py')

    def __init__(self, kind, ch=(), lazy=None, src=None):
        self.kind = kind
        self._ch = ch
        self.lazy = lazy
        self.src = src
        self._py = False

    @property
    def ch(self):
        if self.lazy is not None:
            f = self.lazy
            self.lazy = None
            self._ch = f()
        return self._ch

    def length(self):
        return chlen(self.ch)

    def items(self):
        """tuple of codes if the length is concrete, else None"""
        ch = self.ch
        if not ch:
            return ()
        if len(ch) == 1 and isinstance(ch[0], tuple):
            return ch[0]
        if all(isinstance(c, tuple) for c in ch):
            r = ()
            for c in ch:
                r += c
            self._ch = (r,)
            return r
        return None

    def py(self):
        """python str if fully concrete else None"""
        if self._py is not False:
            return self._py
        it = self.items()
        if it is None or any(isinstance(c, T) for c in it):
            self._py = None
        else:
            self._py = ''.join(map(chr, it))
        return self._py

    def __repr__(self):
        if self.lazy is not None:
            return '<lazy str>'
        p = self.py()
        return ('u' if self.kind == 'u' else '') + (repr(p) if p is not None else '<%s>' % (self.ch,))


_scache = {}


def S(p, kind='s'):
    k = (p, kind)
    r = _scache.get(k)
    if r is None:
        r = Str(kind, (tuple(map(ord, p)),) if p else ())
        r._py = p
        if len(p) < 40:
            _scache[k] = r
    return r


EPOCH = [0]


class PList(object):
    __slots__ = ('ch', 'ep')
    tname = 'list'

    def __init__(self, ch=None):
        self.ch = ch if ch is not None else []
        self.ep = EPOCH[0]

    def items(self):
        """python list of the items (mutable, live) if concrete length else None"""
        ch = self.ch
        if len(ch) == 1 and type(ch[0]) is list:
            return ch[0]
        if not ch:
            l = []
            self.ch = [l]
            return l
        if all(isinstance(c, (list, tuple)) for c in ch):
            l = []
            for c in ch:
                l.extend(c)
            self.ch = [l]
            return l
        return None

    def length(self):
        return chlen(self.ch)

    def snap(self):
        return [list(c) if isinstance(c, list) else c for c in self.ch]

    def restore(self, s):
        self.ch = s


def L(items):
    return PList([list(items)])


class PArr(PList):
    __slots__ = ('tc',)
    tname = 'array'

    def __init__(self, ch=None, tc='B'):
        PList.__init__(self, ch)
        self.tc = tc


class Tup(object):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class PDict(object):
    __slots__ = ('d', 'ep')

    def __init__(self, d=None):
        self.d = d if d is not None else {}     # key -> (keyobj, value)
        self.ep = EPOCH[0]

    def snap(self):
        return self.d if isinstance(self.d, AnyD) else dict(self.d)

    def restore(self, s):
        self.d = s


class AnyD(dict):
    """contents of a dictionary nothing is known about: may be written, never read"""

    def _no(self, *a):
        raise Unsupported('contents of an unknown dictionary')
    __getitem__ = __setitem__ = __delitem__ = __contains__ = __iter__ = __len__ = __eq__ = __ne__ = _no
    get = keys = values = items = copy = pop = popitem = update = setdefault = clear = _no
    __hash__ = None


class Marker(object):
    """value of a variable a loop contract says little about: a dictionary, a text other than
    the given one, or anything"""

    def __init__(self, kind, arg=None):
        self.kind, self.arg = kind, arg


class Opaque(object):
    """a value nothing is known about"""


class PSet(PDict):
    __slots__ = ('frozen',)

    def __init__(self, d=None, frozen=False):
        PDict.__init__(self, d)
        self.frozen = frozen


class Frac(object):
    """float value num/den (den positive int constant)"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        self.num = num
        self.den = den


class PClass(object):
    def __init__(self, name, bases, d, module=None):
        self.name = name
        self.bases = bases
        self.d = d
        self.module = module
        self.ep = EPOCH[0]
        self.native = None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, PClass):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, n):
        for c in self.mro():
            if n in c.d:
                return c.d[n], c
        return None, None

    def issub(self, o):
        return o in self.mro()

    def snap(self):
        return dict(self.d)

    def restore(self, s):
        self.d = s

    def __repr__(self):
        return 'PClass(%s)' % self.name


class PObj(object):
    __slots__ = ('cls', 'd', 'ep', 'x')

    def __init__(self, cls):
        self.cls = cls
        self.d = {}
        self.ep = EPOCH[0]
        self.x = None

    def snap(self):
        return dict(self.d)

    def restore(self, s):
        self.d = s

    def __repr__(self):
        return '<%s object>' % self.cls.name


class PFunc(object):
    __slots__ = ('name', 'code', 'globals', 'defaults', 'closure', 'cls', 'qual', 'mod', 'd', 'ep')

    def __init__(self, name, code, globals_, defaults, closure, qual, mod):
        self.name = name
        self.code = code
        self.globals = globals_
        self.defaults = defaults
        self.closure = closure
        self.qual = qual
        self.mod = mod
        self.d = {}
        self.ep = EPOCH[0]

    def snap(self):
        return dict(self.d)

    def restore(self, s):
        self.d = s

    def __repr__(self):
        return 'PFunc(%s)' % self.qual


class Bound(object):
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_


class BI(object):
    """builtin function: f(E, args, kw)"""
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name = name
        self.f = f

    def __repr__(self):
        return 'BI(%s)' % self.name


class BType(object):
    """builtin type"""

    def __init__(self, name, ctor=None, bases=()):
        self.name = name
        self.ctor = ctor
        self.bases = bases
        self.attrs = {}

    def __repr__(self):
        return 'BType(%s)' % self.name


class StaticM(object):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class ClassM(object):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class Prop(object):
    __slots__ = ('get', 'set', 'dele')

    def __init__(self, get=None, set_=None, dele=None):
        self.get = get
        self.set = set_
        self.dele = dele


class PModule(object):
    def __init__(self, name, d):
        self.name = name
        self.d = d
        self.ep = EPOCH[0]

    def snap(self):
        return dict(self.d)

    def restore(self, s):
        self.d = s

    def __repr__(self):
        return 'PModule(%s)' % self.name


class PIter(object):
    """iterator over a live sequence"""
    __slots__ = ('src', 'idx', 'ep', 'nextf')

    def __init__(self, src, idx=0, nextf=None):
        self.src = src
        self.idx = idx
        self.nextf = nextf
        self.ep = EPOCH[0]

    def snap(self):
        return (self.src, self.idx)

    def restore(self, s):
        self.src, self.idx = s


class XRange(object):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step=1):
        self.lo = lo
        self.hi = hi
        self.step = step


class TD(object):
    """datetime.timedelta: total microseconds"""
    __slots__ = ('us',)

    def __init__(self, us):
        self.us = us


class DT(object):
    """datetime.datetime.  Either field form (f = dict) or total form (ordinal microseconds)."""
    __slots__ = ('f', 'tot', 'tz')

    def __init__(self, f=None, tot=None, tz=None):
        self.f = f
        self.tot = tot
        self.tz = tz


class NativeObj(object):
    """object with native method table: methods name -> BI"""

    def __init__(self, tname, attrs=None):
        self.tname = tname
        self.attrs = attrs or {}
        self.ep = EPOCH[0]

    def snap(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = s
