"""Operations and library models of the symbolic interpreter (Python 2 / Jython semantics)."""
import re as _re
from . import terms as X
from .terms import T
from .values import *

KNOWN_BUILTINS = {'apply', 'bin', 'buffer', 'bytearray', 'callable', 'cmp', 'coerce', 'compile', 'complex', 'delattr',
                  'dir', 'eval', 'execfile', 'file', 'filter', 'format', 'frozenset', 'globals', 'hash', 'help', 'id',
                  'input', 'intern', 'iter', 'locals', 'long', 'memoryview', 'next', 'oct', 'pow', 'raw_input',
                  'reduce', 'reload', 'repr', 'reversed', 'round', 'set', 'setattr', 'slice', 'sorted', 'sum', 'super',
                  'vars', 'zip', '__import__', 'bytes', 'map', 'open'}
STDLIB_UNKNOWN = {'logging', 'string', 'struct', 'binascii', 'itertools', 'operator', 'functools', 'collections', 'copy',
                  'time', 'types', 'warnings', 'tempfile', 'shutil', 'StringIO', 'cStringIO', 'io', 'unicodedata',
                  'contextlib', 'weakref', 'threading', 'calendar', 'decimal', 'urllib', 'base64', 'hashlib', 'json',
                  'inspect', 'numbers', 'bisect', 'heapq', 'pprint', 'textwrap', 'email', 'xml', 'java', 'locale',
                  'platform', 'subprocess', 'signal', 'errno', 'stat', 'glob', 'fnmatch', 'errno', 'zlib', 'pickle'}
PACKAGES = {'messaging', 'messaging.sms', 'messaging.mms'}
WS = (9, 10, 11, 12, 13, 32)


# ------------------------------------------------------------------ type helpers
def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, T) and not v.isb)


def is_num(v):
    return isinstance(v, int) or isinstance(v, T)


def toint(v):
    """python bool/int/term -> int term"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, T) and v.isb:
        return X.ite(v, 1, 0)
    return v


def tname(v):
    if v is None:
        return 'NoneType'
    if isinstance(v, bool) or (isinstance(v, T) and v.isb):
        return 'bool'
    if isinstance(v, int) or isinstance(v, T):
        return 'int'
    if isinstance(v, (float, Frac)):
        return 'float'
    if isinstance(v, Str):
        return 'str' if v.kind == 's' else 'unicode'
    if isinstance(v, PArr):
        return 'array'
    if isinstance(v, PList):
        return 'list'
    if isinstance(v, Tup):
        return 'tuple'
    if isinstance(v, PSet):
        return 'set'
    if isinstance(v, PDict):
        return 'dict'
    if isinstance(v, PObj):
        return v.cls.name
    if isinstance(v, TD):
        return 'timedelta'
    if isinstance(v, DT):
        return 'datetime'
    if isinstance(v, NativeObj):
        return v.tname
    if isinstance(v, (PFunc, BI, Bound)):
        return 'function'
    if isinstance(v, (PClass, BType)):
        return 'type'
    return type(v).__name__


def type_test(E, v, name):
    """bool (may decide) : isinstance(v, builtin type name)"""
    t = tname(v)
    if name == 'object':
        return True
    if name == 'basestring':
        return t in ('str', 'unicode')
    if name in ('int', 'long') and t == 'int':
        lo, hi = X.lo_of(v), X.hi_of(v)
        if lo is not None and hi is not None and lo >= -2**31 and hi < 2**31:
            small = True
        else:
            small = E.decide(X.inset(v, ((-2**31, 2**31 - 1),)))
        return small if name == 'int' else not small
    if name == 'int' and t == 'bool':
        return True
    if name == 'frozenset':
        return t == 'set' and v.frozen
    if name == 'file':
        return t == 'file'
    return t == name


# ------------------------------------------------------------------ keys
def ckey(E, k):
    """concrete hashable key or None if symbolic"""
    if k is None:
        return ('n',)
    if isinstance(k, bool):
        return ('i', int(k))
    if isinstance(k, int):
        return ('i', k)
    if isinstance(k, float):
        return ('i', int(k)) if k == int(k) else ('f', k)
    if isinstance(k, Str):
        it = k.items()
        if it is None or any(isinstance(c, T) for c in it):
            return None
        return ('s', it)
    if isinstance(k, Tup):
        ks = [ckey(E, x) for x in k.items]
        if any(x is None for x in ks):
            return None
        return ('t', tuple(ks))
    if isinstance(k, T):
        return None
    if isinstance(k, (PList, PDict)):
        raise E.exc('TypeError', 'unhashable type')
    return ('o', id(k))


def dict_set(E, d, k, v):
    if isinstance(d.d, AnyD):
        E.touch(d)
        return
    kk = ckey(E, k)
    if kk is None:
        # symbolic key: decide equality with the existing ones
        for key, (ko, ov) in list(d.d.items()):
            if E.decide(E.truth_term(eq(E, ko, k))):
                E.touch(d)
                d.d[key] = (ko, v)
                return
        E.touch(d)
        d.d[('sym', _symkey(k))] = (k, v)
        return
    if kk not in d.d:
        for key in list(d.d):
            if key[0] == 'sym':
                ko, ov = d.d[key]
                if E.decide(E.truth_term(eq(E, ko, k))):
                    E.touch(d)
                    d.d[key] = (ko, v)
                    return
    if d.ep != E.epoch or E.wlog is not None:
        E.touch(d)
    if kk in d.d:
        d.d[kk] = (d.d[kk][0], v)
    else:
        d.d[kk] = (k, v)


def _symkey(k):
    if isinstance(k, Str):
        return (k.kind, tuple(c if isinstance(c, tuple) else (c.base, c.lo, c.n) if isinstance(c, Sl) else id(c) for c in k.ch))
    return k


def dict_find(E, d, k):
    """returns key of the entry or None"""
    kk = ckey(E, k)
    if kk is not None:
        if kk in d.d:
            return kk
        for key in list(d.d):
            if key[0] == 'sym' and E.decide(E.truth_term(eq(E, d.d[key][0], k))):
                return key
        return None
    for key, (ko, ov) in list(d.d.items()):
        c = eq(E, ko, k)
        if c is False:
            continue
        if E.decide(E.truth_term(c)):
            return key
    return None


def dict_has_term(E, d, k):
    kk = ckey(E, k)
    if kk is not None and kk in d.d:
        return True
    cs = []
    for key, (ko, ov) in d.d.items():
        if kk is not None and key[0] != 'sym':
            continue
        c = eq(E, ko, k)
        if c is True:
            return True
        if c is False:
            continue
        cs.append(c)
    return X.or_(*cs) if cs else False


def _intcode(k):
    """int code of a key usable in a table, with a class tag"""
    if is_int(k):
        return 'i', k
    if isinstance(k, Str):
        it = k.items()
        if it is not None and len(it) == 1:
            return 'c', it[0]
    return None, None


def dict_table(E, d, k):
    """for symbolic int / 1-char key and table-like values: (found_term, value) or None"""
    tag, code = _intcode(k)
    if tag is None or not isinstance(code, T) or len(d.d) < 2:
        return None
    r = None
    stable = d.ep != E.epoch and id(d) not in E.touched
    if stable:
        ent = E.tblcache.get((id(d), tag))
        if ent is not None and ent[0] is d:
            r = ent[1]
    if r is None:
        r = _dict_table(d, tag)
        if stable:
            E.tblcache[(id(d), tag)] = (d, r)
    if r is False:
        return None
    found, tb, vkind = r
    found = X.inset(code, found)
    val = X.tab(tb, code)
    if vkind != 'i':
        val = Str(vkind, ((val,),))
    return found, val


def _dict_table(d, tag):
    items = {}
    vkind = None
    for key, (ko, v) in d.d.items():
        t2, c2 = _intcode(ko)
        if t2 != tag:
            if t2 is None and isinstance(ko, Str) and tag == 'c':
                continue            # longer strings never equal one character
            return False
        if isinstance(c2, T):
            return False
        if isinstance(v, Str) and v.items() is not None and len(v.items()) == 1 and not isinstance(v.items()[0], T):
            vk = v.kind
            vv = v.items()[0]
        elif is_int(v) and not isinstance(v, T):
            vk = 'i'
            vv = v
        else:
            return False
        if vkind is None:
            vkind = vk
        elif vkind != vk:
            return False
        items[c2] = vv
    if not items:
        return False
    return X.norm_ranges([(c, c) for c in items]), X.Table(items, None), vkind


def dict_get(E, d, k, default=None, raise_=False):
    tb = dict_table(E, d, k) if ckey(E, k) is None else None
    if tb is not None:
        if E.decide(tb[0]):
            return tb[1]
    else:
        f = dict_find(E, d, k)
        if f is not None:
            return d.d[f][1]
    if raise_:
        o = E.exc('KeyError', '')
        o.obj.d['args'] = Tup([k])
        raise o
    return default


# ------------------------------------------------------------------ equality
def eq(E, a, b):
    """bool or boolean term"""
    if a is b:
        return True
    if a is None or b is None:
        return a is b
    if is_num(a) and is_num(b):
        if isinstance(a, T) and a.isb or isinstance(b, T) and b.isb:
            if isinstance(a, (bool,)) or (isinstance(a, T) and a.isb):
                if isinstance(b, bool) or (isinstance(b, T) and b.isb):
                    return X.iff(a, b)
            return X.eq(toint(a), toint(b))
        return X.eq(int(a) if isinstance(a, bool) else a, int(b) if isinstance(b, bool) else b)
    if isinstance(a, (Frac, float)) or isinstance(b, (Frac, float)):
        if (is_num(a) or isinstance(a, (Frac, float))) and (is_num(b) or isinstance(b, (Frac, float))):
            x, y = frac(a), frac(b)
            return X.eq(X.mulc(x.num, y.den), X.mulc(y.num, x.den))
        return False
    if isinstance(a, Str) and isinstance(b, Str):
        return str_eq(E, a, b)
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return False
        return X.and_(*[E.truth_term(eq(E, x, y)) for x, y in zip(a.items, b.items)])
    if isinstance(a, PArr) != isinstance(b, PArr) and isinstance(a, PList) and isinstance(b, PList):
        return False
    if isinstance(a, PList) and isinstance(b, PList):
        return seq_eq(E, a.ch, b.ch)
    if isinstance(a, PSet) and isinstance(b, PSet):
        ka, kb = set(a.d), set(b.d)
        if any(k[0] == 'sym' for k in ka | kb):
            E.unsupported('symbolic set equality')
        return ka == kb
    if isinstance(a, PSet) or isinstance(b, PSet):
        return False
    if isinstance(a, PDict) and isinstance(b, PDict):
        if len(a.d) != len(b.d):
            return False
        acc = True
        for k, (ko, v) in a.d.items():
            f = dict_find(E, b, ko)
            if f is None:
                return False
            acc = X.and_(acc, E.truth_term(eq(E, v, b.d[f][1])))
            if acc is False:
                return False
        return acc
    if isinstance(a, PObj):
        m, _ = a.cls.lookup('__eq__')
        if m is not None:
            return E.call(Bound(m, a), [b], {})
        return False
    if isinstance(a, TD) and isinstance(b, TD):
        return X.eq(a.us, b.us)
    if isinstance(a, DT) and isinstance(b, DT):
        from . import dtlib
        return dtlib.dt_eq(E, a, b)
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.fn is b.fn and a.self is b.self
    if isinstance(a, BType) and isinstance(b, BType):
        return a is b
    return False


def str_eq(E, a, b):
    if a.lazy is not None and b.lazy is not None and a.src and b.src and a.src[0] == b.src[0] == 'dec':
        return X.eq(a.src[1], b.src[1])
    if a.lazy is not None and b.lazy is not None and a.src and b.src and a.src[0] == b.src[0] == 'dom' and a.src[2:] == b.src[2:]:
        # XML printing is injective (names are plain, attribute values are escaped and quoted)
        r = dom_eq(E, a.src[1], b.src[1])
        if r is not None:
            return r
    ia, ib = a.items(), b.items()
    if ia is not None and ib is not None:
        if len(ia) != len(ib):
            return False
        out = []
        for x, y in zip(ia, ib):
            c = X.eq(x, y)
            if c is False:
                return False
            if c is not True:
                out.append(c)
        return X.and_(*out) if out else True
    return seq_eq(E, a.ch, b.ch)


def dom_eq(E, x, y):
    if x[0].py() is None or y[0].py() is None:
        return None
    if x[0].py() != y[0].py() or len(x[1]) != len(y[1]) or len(x[2]) != len(y[2]):
        return False
    px, py = {}, {}
    for p, o in ((px, x), (py, y)):
        for k, v in o[1].values():
            if k.py() is None or not isinstance(v, Str):
                return None
            p[k.py()] = v
    if set(px) != set(py):
        return False
    out = [str_eq(E, px[k], py[k]) for k in sorted(px)]
    for c, d in zip(x[2], y[2]):
        r = dom_eq(E, c, d)
        if r is None:
            return None
        out.append(r)
    if any(o is False for o in out):
        return False
    out = [o for o in out if o is not True]
    return X.and_(*out) if out else True


def seq_eq(E, ca, cb):
    """equality of chunk sequences as a (quantifier-free when possible) term"""
    la, lb = chlen(ca), chlen(cb)
    ca = [c for c in ca]
    cb = [c for c in cb]
    if any(isinstance(c, Op) for c in ca) or any(isinstance(c, Op) for c in cb):
        return E_align(E, ca, cb)
    ia = concat_items(ca)
    ib = concat_items(cb)
    if ia is not None and ib is not None:
        if len(ia) != len(ib):
            return False
        return X.and_(*[E.truth_term(eq(E, x, y)) if not (is_int(x) and is_int(y)) else X.eq(x, y) for x, y in zip(ia, ib)])
    if ia is not None or ib is not None:
        # concrete-length side against a symbolic-length side: length equation and elements
        items, other = (ia, cb) if ia is not None else (ib, ca)
        lc = X.eq(lb if ia is not None else la, len(items))
        if lc is False:
            return False
        # walk: only the simple shape  tuple* Sl tuple*
        pos = 0
        conds = [lc]
        k = 0
        front = []
        oc = list(other)
        while oc and isinstance(oc[0], (tuple, list)):
            for x in oc[0]:
                if pos >= len(items):
                    return False
                conds.append(E.truth_term(eq(E, x, items[pos])))
                pos += 1
            oc = oc[1:]
        tail = []
        while oc and isinstance(oc[-1], (tuple, list)):
            tail = list(oc[-1]) + tail
            oc = oc[:-1]
        if len(oc) != 1 or isinstance(oc[0], Op):
            E.unsupported('sequence equality shape')
        m = len(items) - pos - len(tail)
        if m < 0:
            return False
        for i in range(m):
            conds.append(E.truth_term(eq(E, oc[0].at(i), items[pos + i])))
        for i, x in enumerate(tail):
            conds.append(E.truth_term(eq(E, x, items[pos + m + i])))
        return X.and_(*conds)
    # both symbolic: align syntactically
    return E_align(E, ca, cb)


def E_align(E, ca, cb):
    ca = list(norm(ca))
    cb = list(norm(cb))
    conds = []
    while ca and cb:
        x, y = ca[0], cb[0]
        if isinstance(x, Op) and x.isflat or isinstance(y, Op) and y.isflat:
            if align_flat(E, ca, cb):
                continue
        if isinstance(x, tuple) and isinstance(y, tuple):
            m = min(len(x), len(y))
            for i in range(m):
                c = eq(E, x[i], y[i])
                c = E.truth_term(c)
                if c is False:
                    return False
                conds.append(c)
            ca[0] = x[m:]
            cb[0] = y[m:]
            if not ca[0]:
                ca.pop(0)
            if not cb[0]:
                cb.pop(0)
            continue
        if isinstance(x, Sl) and isinstance(y, Sl) and x.base is y.base and x.wrap == y.wrap:
            d = X.sub(x.lo, y.lo)
            dn = X.sub(x.n, y.n)
            if not isinstance(d, T) and d == 0:
                if not isinstance(dn, T) and dn == 0:
                    ca.pop(0)
                    cb.pop(0)
                    continue
                if len(ca) == 1 and len(cb) == 1:
                    conds.append(X.eq(dn, 0))
                    ca, cb = [], []
                    break
                # order the lengths
                if E.decide(X.le(x.n, y.n)):
                    cb[0] = y.cut(x.n, y.n)
                    ca.pop(0)
                else:
                    ca[0] = x.cut(y.n, x.n)
                    cb.pop(0)
                ca = [c for c in ca if not (not isinstance(c, tuple) and not isinstance(c.n, T) and c.n <= 0)]
                cb = [c for c in cb if not (not isinstance(c, tuple) and not isinstance(c.n, T) and c.n <= 0)]
                continue
            if E.valid(X.eq(d, 0)):
                ca[0] = Sl(y.base, y.lo, x.n, y.wrap)
                continue
        if isinstance(x, Op) and isinstance(y, Op) and x.tag == y.tag and len(x.args) == len(y.args):
            cs = []
            ok = True
            for p, q in zip(x.args, y.args):
                if p is q:
                    continue
                if is_num(p) and is_num(q):
                    c = X.eq(p, q)
                    if c is True:
                        continue
                    if c is not False and E.valid(c):
                        continue
                ok = False
                break
            if ok:
                ca.pop(0)
                cb.pop(0)
                continue
        if isinstance(x, Fam) and isinstance(y, Fam) and x.key == y.key:
            if E.valid(X.and_(X.eq(x.lo, y.lo), X.eq(x.n, y.n))):
                ca.pop(0)
                cb.pop(0)
                continue
        # drop provably empty symbolic chunks
        dropped = False
        for l in (ca, cb):
            c = l[0]
            if not isinstance(c, tuple) and E.valid(X.le(c.n, 0)):
                l.pop(0)
                dropped = True
        if dropped:
            continue
        # one side concrete items, other symbolic: split if length decidable
        if isinstance(x, tuple) or isinstance(y, tuple):
            tup, sym, lt, ls = (x, y, ca, cb) if isinstance(x, tuple) else (y, x, cb, ca)
            if isinstance(sym, (Sl, Fam)):
                if E.decide(X.le(1, sym.n)):
                    conds.append(E.truth_term(eq(E, sym.at(0), tup[0])))
                    if conds[-1] is False:
                        return False
                    ls[0] = sym.cut(1, sym.n)
                    lt[0] = tup[1:]
                    if not lt[0]:
                        lt.pop(0)
                else:
                    ls.pop(0)
                continue
        if isinstance(x, (Sl, Fam)) and isinstance(y, (Sl, Fam)) and E.skolem_ok:
            # element-wise with a fresh index over the common prefix
            if E.decide(X.le(x.n, y.n)):
                m = x.n
            else:
                m = y.n
            k = E.fresh('k', 0, None)
            E.assume(X.and_(X.le(0, k), X.lt(k, m))) if False else None
            c = X.implies(X.and_(X.le(0, k), X.lt(k, m)), E.truth_term(eq(E, x.at(k), y.at(k))))
            conds.append(c)
            if m is x.n:
                ca.pop(0)
                if not (m is y.n):
                    cb[0] = y.cut(m, y.n)
                else:
                    cb.pop(0)
            else:
                cb.pop(0)
                ca[0] = x.cut(m, x.n)
            continue
        E.unsupported('sequence alignment %r / %r' % (x, y))
    for rest in (ca, cb):
        for c in rest:
            if isinstance(c, tuple):
                return False
            if isinstance(c, Op) and c.isflat and expand_one(E, c) == 0:
                continue
            conds.append(X.eq(c.n, 0))
    return X.and_(*conds)


def concat_items(chs):
    if len(chs) == 1 and isinstance(chs[0], (list, tuple)):
        return chs[0]
    out = []
    for c in chs:
        if not isinstance(c, (list, tuple)):
            return None
        out.extend(c)
    return out


# ------------------------------------------------------------------ comparison
def compare(E, op, a, b):
    if op == 'Is':
        if isinstance(a, (int, T)) and isinstance(b, (int, T)) and not (a is True or a is False or b is True or b is False):
            return eq(E, a, b)
        if isinstance(a, T) and isinstance(b, bool):
            return X.iff(a, b) if a.isb else False
        if isinstance(b, T) and isinstance(a, bool):
            return X.iff(a, b) if b.isb else False
        if isinstance(a, Str) and isinstance(b, Str):
            E.unsupported('identity of strings')
        return a is b
    if op == 'IsNot':
        r = compare(E, 'Is', a, b)
        return X.not_(r) if isinstance(r, T) else not r
    if op == 'Eq':
        return eq(E, a, b)
    if op == 'NotEq':
        r = eq(E, a, b)
        r = E.truth_term(r)
        return X.not_(r)
    if op in ('In', 'NotIn'):
        r = contains(E, b, a)
        r = E.truth_term(r)
        return r if op == 'In' else X.not_(r)
    # ordering
    if (is_num(a) or isinstance(a, (float, Frac))) and (is_num(b) or isinstance(b, (float, Frac))):
        if isinstance(a, (float, Frac)) or isinstance(b, (float, Frac)):
            x, y = frac(a), frac(b)
            a, b = X.mulc(x.num, y.den), X.mulc(y.num, x.den)
        a, b = toint(a), toint(b)
        if op == 'Lt':
            return X.lt(a, b)
        if op == 'LtE':
            return X.le(a, b)
        if op == 'Gt':
            return X.lt(b, a)
        return X.le(b, a)
    if isinstance(a, TD) and isinstance(b, TD):
        return compare(E, op, a.us, b.us)
    if isinstance(a, DT) and isinstance(b, DT):
        from . import dtlib
        return compare(E, op, dtlib.total(E, a), dtlib.total(E, b))
    if isinstance(a, Tup) and isinstance(b, Tup):
        return seq_order(E, op, list(a.items), list(b.items))
    if isinstance(a, Str) and isinstance(b, Str):
        pa, pb = a.items(), b.items()
        if pa is not None and pb is not None:
            return seq_order(E, op, list(pa), list(pb))
        E.unsupported('string ordering')
    if isinstance(a, PList) and isinstance(b, PList):
        pa, pb = a.items(), b.items()
        if pa is not None and pb is not None:
            return seq_order(E, op, pa, pb)
    if isinstance(a, (TD, DT)) or isinstance(b, (TD, DT)):
        raise E.exc('TypeError', "can't compare")
    # Python 2 orders values of different types: None < numbers < other types by name
    if tname(a) != tname(b):
        ra = type_rank(a)
        rb = type_rank(b)
        if ra != rb:
            return {'Lt': ra < rb, 'LtE': ra <= rb, 'Gt': ra > rb, 'GtE': ra >= rb}[op]
    if a is None and b is None:
        return op in ('LtE', 'GtE')
    E.unsupported('ordering of %s and %s' % (tname(a), tname(b)))


def type_rank(v):
    t = tname(v)
    if v is None:
        return (0, '')
    if t in ('int', 'bool', 'float', 'long'):
        return (1, '')
    return (2, t)


def seq_order(E, op, a, b):
    strict = op in ('Lt', 'Gt')
    if op in ('Gt', 'GtE'):
        a, b = b, a
    # a < b  (or <=)
    for x, y in zip(a, b):
        c = E.truth_term(eq(E, x, y))
        if not E.decide(c) if isinstance(c, T) else not c:
            return compare(E, 'Lt', x, y)
    return len(a) < len(b) if strict else len(a) <= len(b)


def contains(E, c, x):
    if isinstance(c, (PDict,)):
        return dict_has_term(E, c, x)
    if isinstance(c, Tup):
        return X.or_(*[E.truth_term(eq(E, y, x)) for y in c.items]) if c.items else False
    if isinstance(c, Str):
        if not isinstance(x, Str):
            raise E.exc('TypeError', "'in <string>' requires string as left operand")
        xi = x.items()
        ci = c.items()
        if xi is None:
            E.unsupported('in string')
        if len(xi) == 0:
            return True
        if ci is None:
            if len(xi) != 1:
                E.unsupported('substring in symbolic string')
            cs = []
            for ch in c.ch:
                if isinstance(ch, tuple):
                    cs.extend(X.eq(y, xi[0]) for y in ch)
                elif isinstance(ch, Sl):
                    cs.append(sl_contains(E, ch, xi[0]))
                else:
                    E.unsupported('in opaque string')
            return X.or_(*cs)
        m = len(xi)
        return X.or_(*[X.and_(*[X.eq(ci[i + j], xi[j]) for j in range(m)]) for i in range(len(ci) - m + 1)]) if len(ci) >= m else False
    if isinstance(c, PList):
        it = c.items()
        if it is None:
            E.unsupported('membership in symbolic-length list')
        return X.or_(*[E.truth_term(eq(E, y, x)) for y in it]) if it else False
    if isinstance(c, XRange):
        if not is_int(x):
            E.unsupported('in xrange')
        if c.step == 1:
            return X.and_(X.le(c.lo, x), X.lt(x, c.hi))
        return contains(E, PList([list(range(E.concretize(c.lo), E.concretize(c.hi), c.step))]), x)
    if isinstance(c, PObj):
        m, _ = c.cls.lookup('__contains__')
        if m is not None:
            return E.call(Bound(m, c), [x], {})
    if isinstance(c, PIter):
        E.unsupported('in iterator')
    raise E.exc('TypeError', 'argument is not iterable')


def sl_contains(E, sl, code):
    """exists i in [0,n): base[lo+i]==code.  Uses the allowed-set of the base, else forks on an
    existential witness."""
    if isinstance(code, T):
        E.unsupported('in')
    b = sl.base
    if b.allowed is not None and not X.inset(code, b.allowed):
        return False
    if code < (b.lo if b.lo is not None else code) or (b.hi is not None and code > b.hi):
        return False
    key = ('contains', b.name, sl.lo, sl.n, code)
    w = E.gh.get(key)
    if w is None:
        pv = X.bvar('has!%s!%s' % (b.name, code) + ('' if (sl.lo == 0 and True) else '!%d' % len(E.gh)))
        E.gh[key] = w = pv
        if E.decide(pv):
            i = E.fresh('wit', 0, None)
            E.assume(X.and_(X.le(0, i), X.lt(i, sl.n), X.eq(X.sel(b, X.add(sl.lo, i)), code)))
        else:
            E.gh.setdefault('foralls', []).append((b, sl.lo, sl.n, code))
    return w


# ------------------------------------------------------------------ arithmetic
def frac(v):
    if isinstance(v, Frac):
        return v
    if isinstance(v, float):
        from fractions import Fraction
        f = Fraction(v)
        return Frac(f.numerator, f.denominator)
    return Frac(toint(v), 1)


def mkfrac(num, den):
    if not isinstance(num, T) :
        v = num / den
        return v
    return Frac(num, den)


def binop(E, op, a, b):
    if is_num(a) and is_num(b):
        a, b = toint(a), toint(b)
        return int_op(E, op, a, b)
    if (isinstance(a, (float, Frac)) or isinstance(b, (float, Frac))) and (is_num(a) or isinstance(a, (float, Frac))) and (is_num(b) or isinstance(b, (float, Frac))):
        if not isinstance(a, (T, Frac)) and not isinstance(b, (T, Frac)):
            try:
                if op == 'Add':
                    return a + b
                if op == 'Sub':
                    return a - b
                if op == 'Mult':
                    return a * b
                if op == 'Div':
                    return a / b
                if op == 'FloorDiv':
                    return a // b
                if op == 'Mod':
                    return a % b
                if op == 'Pow':
                    return a ** b
            except ZeroDivisionError:
                raise E.exc('ZeroDivisionError')
        x, y = frac(a), frac(b)
        if op == 'Add':
            return Frac(X.add(X.mulc(x.num, y.den), X.mulc(y.num, x.den)), x.den * y.den)
        if op == 'Sub':
            return Frac(X.sub(X.mulc(x.num, y.den), X.mulc(y.num, x.den)), x.den * y.den)
        if op == 'Mult':
            return Frac(X.mul(x.num, y.num), x.den * y.den)
        if op == 'Div' and not isinstance(y.num, T):
            if y.num == 0:
                raise E.exc('ZeroDivisionError')
            s = 1 if y.num > 0 else -1
            return Frac(X.mulc(x.num, y.den * s), x.den * y.num * s)
        E.unsupported('float op %s' % op)
    if op == 'Mod' and isinstance(a, Str):
        return str_format(E, a, b)
    if op == 'Add':
        if isinstance(a, Str) and isinstance(b, Str):
            return str_cat(a, b)
        if isinstance(a, PArr) and isinstance(b, PArr):
            return PArr(list(norm(tuple(a.ch) + tuple(b.ch))), a.tc)
        if isinstance(a, PList) and isinstance(b, PList) and not isinstance(a, PArr) and not isinstance(b, PArr):
            return PList([list(c) if isinstance(c, tuple) else c for c in norm(tuple(a.ch) + tuple(b.ch))])
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(a, TD) and isinstance(b, TD):
            return TD(X.add(a.us, b.us))
        if isinstance(a, DT) and isinstance(b, TD) or isinstance(a, TD) and isinstance(b, DT):
            from . import dtlib
            d, t = (a, b) if isinstance(a, DT) else (b, a)
            return dtlib.shift(E, d, t.us)
    if op == 'Sub':
        if isinstance(a, TD) and isinstance(b, TD):
            return TD(X.sub(a.us, b.us))
        if isinstance(a, DT) and isinstance(b, TD):
            from . import dtlib
            return dtlib.shift(E, a, X.neg(b.us))
        if isinstance(a, DT) and isinstance(b, DT):
            from . import dtlib
            return TD(X.sub(dtlib.total(E, a), dtlib.total(E, b)))
        if isinstance(a, PSet) and isinstance(b, PSet):
            return PSet({k: v for k, v in a.d.items() if k not in b.d})
    if op == 'Mult':
        if is_num(a) and not is_num(b):
            a, b = b, a
        if is_num(b):
            if isinstance(a, TD):
                return TD(X.mul(a.us, toint(b)))
            if isinstance(a, (Str, PList, Tup)):
                n = max(0, E.concretize(toint(b)))
                if isinstance(a, Str):
                    it = a.items()
                    if it is not None:
                        return Str(a.kind, (it * n,) if n and it else ())
                    return Str(a.kind, norm(a.ch * n))
                if isinstance(a, Tup):
                    return Tup(a.items * n)
                it = a.items()
                if it is not None:
                    r = list(it) * n
                    return PArr([r], a.tc) if isinstance(a, PArr) else PList([r])
    if op in ('Div', 'FloorDiv') and isinstance(a, TD) and is_int(b) and not isinstance(b, T):
        return TD(X.div(a.us, b))
    if op in ('BitOr', 'BitAnd') and isinstance(a, PSet) and isinstance(b, PSet):
        if op == 'BitOr':
            d = dict(a.d)
            d.update(b.d)
            return PSet(d)
        return PSet({k: v for k, v in a.d.items() if k in b.d})
    if isinstance(a, PObj):
        nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Mod': '__mod__', 'BitAnd': '__and__', 'BitOr': '__or__'}.get(op)
        if nm:
            m, _ = a.cls.lookup(nm)
            if m is not None:
                return E.call(Bound(m, a), [b], {})
    raise E.exc('TypeError', 'unsupported operand type(s) for %s: %s and %s' % (op, tname(a), tname(b)))


def int_op(E, op, a, b):
    try:
        if op == 'Add':
            return X.add(a, b)
        if op == 'Sub':
            return X.sub(a, b)
        if op == 'Mult':
            return X.mul(a, b)
        if op in ('Div', 'FloorDiv', 'Mod'):
            if isinstance(b, T):
                if not isinstance(a, T) and False:
                    pass
                b = E.concretize(b)
            if b == 0:
                raise E.exc('ZeroDivisionError', 'integer division or modulo by zero')
            if op == 'Mod':
                if b < 0:
                    return X.neg(X.mod(X.neg(a), -b))
                return X.mod(a, b)
            return X.div(a, b)
        if op in ('LShift', 'RShift'):
            if isinstance(b, T):
                b = E.concretize(b, 130)
            if b < 0:
                raise E.exc('ValueError', 'negative shift count')
            if op == 'LShift':
                return X.mulc(a, 1 << b)
            return X.div(a, 1 << b)
        if op == 'BitAnd':
            return X.band(a, b)
        if op == 'BitOr':
            return X.bor(a, b)
        if op == 'BitXor':
            return X.bxor(a, b)
        if op == 'Pow':
            b = E.concretize(b, 200)
            if b < 0:
                E.unsupported('negative power')
            r = 1
            for _ in range(b):
                r = X.mul(r, a)
            return r
    except NotImplementedError as e:
        E.unsupported(str(e))
    E.unsupported('int op %s' % op)


def unop(E, op, v):
    if is_num(v):
        v = toint(v)
        if op == 'USub':
            return X.neg(v)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            return X.sub(X.neg(v), 1)
    if isinstance(v, float):
        return -v if op == 'USub' else v
    if isinstance(v, Frac):
        return Frac(X.neg(v.num), v.den) if op == 'USub' else v
    if isinstance(v, TD) and op == 'USub':
        return TD(X.neg(v.us))
    raise E.exc('TypeError', 'bad operand type for unary')


def inplace(E, op, a, b):
    if op == 'Add' and isinstance(a, PList):
        extend(E, a, b)
        return a
    return binop(E, op, a, b)


# ------------------------------------------------------------------ strings
def str_cat(a, b):
    kind = 'u' if 'u' in (a.kind, b.kind) else 's'
    ca, cb = a.ch, b.ch
    if not ca:
        return Str(kind, cb)
    if not cb:
        return Str(kind, ca)
    if len(ca) == 1 and len(cb) == 1 and isinstance(ca[0], tuple) and isinstance(cb[0], tuple):
        return Str(kind, (ca[0] + cb[0],))
    return Str(kind, norm(ca + cb))


def dec_digits(E, t):
    """decimal rendering of an int (term) as codes; forks on the number of digits"""
    if not isinstance(t, T):
        return tuple(map(ord, str(t)))
    if E.decide(X.lt(t, 0)):
        return (45,) + dec_digits(E, X.neg(t))
    n = 1
    while True:
        if n > 12:
            E.unsupported('decimal rendering')
        if E.decide(X.lt(t, 10 ** n)):
            break
        n += 1
    out = []
    for i in range(n - 1, -1, -1):
        d = X.div(t, 10 ** i)
        d = X.mod(d, 10) if i < n - 1 else d
        if isinstance(d, T) and (d.hi is None or d.hi > 9 or d.lo is None or d.lo < 0):
            d = X.mod(d, 10)
        out.append(X.hexc(d) if isinstance(d, T) else 48 + d)
    return tuple(out)


def hex_digits(E, t, upper, minw):
    if not isinstance(t, T):
        s = ('%X' if upper else '%x') % abs(t)
        neg = t < 0
        return neg, [ord(c) for c in s]
    if E.decide(X.lt(t, 0)):
        neg, d = hex_digits(E, X.neg(t), upper, 1)
        return True, d
    n = max(1, minw)
    while True:
        if n > 16:
            E.unsupported('hex rendering')
        if E.decide(X.lt(t, 16 ** n)):
            break
        n += 1
    m = n
    if minw <= 1:
        pass
    ds = [X.hexc(X.mod(X.div(t, 16 ** i), 16), upper) for i in range(m - 1, -1, -1)]
    return False, ds


_fmt = _re.compile(r'%(?:\(([^)]*)\))?([-+ 0#]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])')


def str_format(E, f, args):
    fi = f.py()
    if fi is None:
        E.unsupported('symbolic format string')
    if isinstance(args, Tup):
        av = list(args.items)
    elif isinstance(args, PDict) and '%(' in fi:
        av = args
    else:
        av = [args]
    parts = []
    pos = 0
    n = 0
    kind = f.kind
    lazy = False
    for m in _fmt.finditer(fi):
        lit = fi[pos:m.start()]
        if '%' in lit:
            raise E.exc('ValueError', 'unsupported format character')
        parts.append(('lit', tuple(map(ord, lit))))
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            parts.append(('lit', (37,)))
            continue
        if key is not None:
            if not isinstance(av, PDict):
                raise E.exc('TypeError', 'format requires a mapping')
            v = dict_get(E, av, S(key), raise_=True)
        else:
            if isinstance(av, PDict):
                v = av
            else:
                if width == '*':
                    E.unsupported('format width *')
                if n >= len(av):
                    raise E.exc('TypeError', 'not enough arguments for format string')
                v = av[n]
                n += 1
        if conv in 'di':
            if isinstance(v, (float, Frac)):
                v = to_int(E, v)
            if not is_num(v):
                raise E.exc('TypeError', '%d format: a number is required, not ' + tname(v))
            v = toint(v)
        elif conv in 'xXo':
            if not is_num(v):
                raise E.exc('TypeError', '%x format: a number is required')
            v = toint(v)
        elif conv == 'c':
            pass
        if isinstance(v, Str) and v.kind == 'u':
            kind = 'u'
        parts.append((conv, v, flags, int(width) if width else 0, prec))
    tail = fi[pos:]
    if '%' in tail:
        raise E.exc('ValueError', 'incomplete format')
    parts.append(('lit', tuple(map(ord, tail))))
    if not isinstance(av, PDict) and n < len(av):
        raise E.exc('TypeError', 'not all arguments converted during string formatting')

    def build():
        out = []
        for p in parts:
            if p[0] == 'lit':
                out.append(p[1])
                continue
            conv, v, flags, width, prec = p
            if prec is not None and conv != 's':
                E.unsupported('format precision')
            if conv in 'di':
                d = dec_digits(E, v)
                out.extend(pad(d, width, flags))
            elif conv in 'xX':
                neg, d = hex_digits(E, v, 1 if conv == 'X' else 0, width if '0' in flags and '-' not in flags else 1)
                if '#' in flags:
                    E.unsupported('format #x')
                if neg:
                    E.unsupported('negative hex format')
                if isinstance(v, T) and not ('0' in flags) and len(d) > 0:
                    # no padding requested: number of digits must be minimal
                    neg, d = hex_min(E, v, 1 if conv == 'X' else 0)
                out.extend(pad(tuple(d), width, flags))
            elif conv == 's':
                s = to_str(E, v)
                if width:
                    it = s.items()
                    if it is None:
                        E.unsupported('padded symbolic string')
                    out.extend(pad(tuple(it), width, flags.replace('0', '')))
                else:
                    out.extend(s.ch)
            elif conv == 'c':
                if isinstance(v, Str):
                    out.extend(v.ch)
                else:
                    out.append((v,))
            elif conv == 'r':
                out.extend(E.call(E.builtins['repr'], [v], {}).ch)
            else:
                E.unsupported('format %%%s' % conv)
        return norm(out)

    def simple(p):
        if p[0] == 'lit':
            return True
        conv, v = p[0], p[1]
        if conv == 's' and isinstance(v, Str) and v.lazy is None:
            return True
        if conv in 'xX' and '0' in p[2] and isinstance(v, T) and v.hi is not None and v.lo >= 0 and v.hi < 16 ** p[3]:
            return True
        if conv in 'di' and isinstance(v, T) and v.lo is not None and v.hi is not None and v.lo >= 0 and (v.hi <= 9 or ('0' in p[2] and v.hi < 10 ** p[3])):
            return True
        return conv in 'dixXs' and isinstance(v, int)
    if all(simple(p) for p in parts):
        return Str(kind, build())
    return Str(kind, (), lazy=build)


def hex_min(E, t, upper):
    n = 1
    while not E.decide(X.lt(t, 16 ** n)):
        n += 1
        if n > 16:
            E.unsupported('hex rendering')
    return False, [X.hexc(X.mod(X.div(t, 16 ** i), 16), upper) for i in range(n - 1, -1, -1)]


def pad(d, width, flags):
    d = tuple(d)
    if len(d) >= width:
        return [d]
    fill = 48 if '0' in flags and '-' not in flags else 32
    if '-' in flags:
        return [d + (32,) * (width - len(d))]
    if fill == 48 and d and d[0] == 45:
        return [(45,) + (48,) * (width - len(d)) + d[1:]]
    return [(fill,) * (width - len(d)) + d]


def dec2(E, t, width):
    """zero padded decimal digits when 0 <= t < 10**width (term)"""
    return tuple(X.hexc(X.mod(X.div(t, 10 ** i), 10)) for i in range(width - 1, -1, -1))


def to_str(E, v):
    if isinstance(v, Str):
        return v
    if v is None:
        return S('None')
    if isinstance(v, bool):
        return S(str(v))
    if isinstance(v, int):
        return S(str(v))
    if isinstance(v, T):
        if v.isb:
            return S('True') if E.decide(v) else S('False')
        if v.lo is not None and v.lo >= 0 and v.hi is not None and v.hi <= 9:
            return Str('s', ((X.hexc(v),),))
        return Str('s', (), lazy=lambda: (dec_digits(E, v),), src=('dec', v))
    if isinstance(v, PObj):
        m, o = v.cls.lookup('__str__')
        if m is not None:
            return E.call(Bound(m, v), [], {})
        if v.cls.issub(E.builtins['BaseException']):
            a = v.d.get('args')
            if a is None or not a.items:
                return S('')
            if len(a.items) == 1:
                return to_str(E, a.items[0])
            return Str('s', (), lazy=lambda: E.unsupported('str of exception'))
        m, o = v.cls.lookup('__repr__')
        if m is not None:
            return E.call(Bound(m, v), [], {})
        return Str('s', (), lazy=lambda: E.unsupported('str of object'))
    if isinstance(v, float):
        return S(repr(v))
    return Str('s', (), lazy=lambda: E.unsupported('str(%s)' % tname(v)))


def to_int(E, v):
    if isinstance(v, Frac):
        if isinstance(v.num, T):
            if v.num.lo is not None and v.num.lo >= 0:
                return X.div(v.num, v.den)
            if E.decide(X.le(0, v.num)):
                return X.div(v.num, v.den)
            return X.neg(X.div(X.neg(v.num), v.den))
        return int(v.num / v.den)
    return int(v)


def str_to_int(E, s, base=10):
    """int(str, base)"""
    if s.lazy is not None and s.src and s.src[0] == 'dec' and base == 10:
        return s.src[1]
    p = s.py()
    if p is not None:
        q = p.strip(' \t\n\r\x0b\x0c')
        ok = _re.match(r'^[+-]?(0[xX])?[0-9a-zA-Z]+$', q) is not None
        if ok:
            try:
                return int(q, base)
            except ValueError:
                pass
        raise E.exc('ValueError', 'invalid literal for int()')
    it = s.items()
    if it is None:
        E.unsupported('int() of symbolic-length string')
    if len(it) == 0:
        raise E.exc('ValueError', 'invalid literal for int()')
    vals = []
    valid = []
    for c in it:
        if isinstance(c, T) and c.op == 'hexc' and (c.a[0].hi is not None and c.a[0].hi < base):
            vals.append(c.a[0])
            continue
        dv = digit_of(c, base)
        if dv is not None:
            vals.append(dv)
            continue
        valid.append(digit_valid(c, base))
        vals.append(digit_val(c, base))
    ok = X.and_(*valid) if valid else True
    if E.decide(ok):
        r = 0
        for v in vals:
            r = X.add(X.mulc(r, base), v)
        return r
    # not all digits: surely invalid unless sign/whitespace/L/0x can occur
    odd = []
    ws = ((9, 13), (28, 32), (43, 43), (45, 45))
    may = ws + ((48, 57),) + (((65, 90), (97, 122)) if base > 10 else ()) + (((128, None),) if s.kind == 'u' else ())
    for c in it:
        if E.valid(X.not_(X.inset(c, may))):
            raise E.exc('ValueError', 'invalid literal for int()')
    for c in it:
        odd.append(X.inset(c, ((9, 13), (28, 31), (32, 32), (43, 43), (45, 45)) + (((88, 88), (120, 120)) if base == 16 else ()) + (((128, None),) if s.kind == 'u' else ())))
    if E.decide(X.or_(*odd)):
        # sign or surrounding white space: strip and retry
        if len(it) >= 2:
            sgn = it[0]
            if E.decide(X.eq(sgn, 43)):
                return str_to_int_digits(E, it[1:], base)
            if E.decide(X.eq(sgn, 45)):
                return X.neg(str_to_int_digits(E, it[1:], base))
            if E.decide(X.inset(sgn, ((9, 13), (32, 32)))):
                return str_to_int(E, Str(s.kind, (tuple(it[1:]),)), base)
            if E.decide(X.inset(it[-1], ((9, 13), (32, 32)))):
                return str_to_int(E, Str(s.kind, (tuple(it[:-1]),)), base)
        E.unsupported('int() of odd literal')
    raise E.exc('ValueError', 'invalid literal for int()')


def str_to_int_digits(E, it, base):
    ok = X.and_(*[digit_valid(c, base) for c in it])
    if not E.decide(ok):
        raise E.exc('ValueError', 'invalid literal for int()')
    r = 0
    for c in it:
        r = X.add(X.mulc(r, base), digit_val(c, base))
    return r


def digit_of(c, base):
    if not isinstance(c, T):
        ch = chr(c)
        if ch.isdigit() and c < 128 and c - 48 < base:
            return c - 48
        if ch.isalpha() and c < 128 and int(ch, 36) < base:
            return int(ch, 36)
        return None
    if c.lo is not None and c.hi is not None and c.lo >= 48 and c.hi <= min(57, 47 + base):
        return X.sub(c, 48)
    return None


def digit_valid(c, base):
    if base <= 10:
        return X.inset(c, ((48, 47 + base),))
    return X.inset(c, ((48, 57), (65, 54 + base), (97, 86 + base)))


def digit_val(c, base):
    if not isinstance(c, T):
        d = digit_of(c, base)
        return d if d is not None else 0
    if c.op == 'hexc':
        return c.a[0]
    if base <= 10:
        v = X.sub(c, 48)
    else:
        v = X.ite(X.le(c, 57), X.sub(c, 48), X.ite(X.le(c, 70), X.sub(c, 55), X.sub(c, 87)))
    # clamp the interval (valid under digit_valid)
    return X.mod(v, 1 << (base - 1).bit_length()) if base == 16 else clampd(v, base)


def clampd(v, base):
    if isinstance(v, T) and v.lo is not None and v.lo >= 0 and v.hi is not None and v.hi < base:
        return v
    return X.mod(v, base)


# ------------------------------------------------------------------ sequences: index and slice
def seq_chunks(v):
    if isinstance(v, Str):
        return v.ch
    if isinstance(v, PList):
        return v.ch
    if isinstance(v, Tup):
        return (v.items,)
    raise TypeError


HEXLOW = [ord(x) for x in '0123456789abcdef']
HEXUP = [ord(x) for x in '0123456789ABCDEF']


def index_into(E, chs, i, what):
    """element at index (int or term); raises IndexError"""
    n = chlen(chs)
    if not isinstance(i, T) and not isinstance(n, T):
        if i < 0:
            i += n
        if i < 0 or i >= n:
            raise E.exc('IndexError', '%s index out of range' % what)
        for c in chs:
            l = clen(c)
            if i < l:
                return c[i] if isinstance(c, (list, tuple)) else c.at(i)
            i -= l
    if isinstance(i, T) and i.isb:
        i = toint(i)
    if E.decide(X.lt(i, 0)):
        i = X.add(i, n)
        if E.decide(X.lt(i, 0)):
            raise E.exc('IndexError', '%s index out of range' % what)
    if not E.decide(X.lt(i, n)):
        raise E.exc('IndexError', '%s index out of range' % what)
    for k, c in enumerate(chs):
        l = clen(c)
        if k == len(chs) - 1 or E.decide(X.lt(i, l)):
            if isinstance(c, (list, tuple)):
                if isinstance(i, T):
                    if all(isinstance(x, int) and not isinstance(x, bool) for x in c) and len(c) > 3:
                        lc = list(c)
                        if lc == HEXLOW[:len(lc)]:
                            return X.hexc(i)
                        if lc == HEXUP[:len(lc)]:
                            return X.hexc(i, 1)
                        tb = X.Table({j: x for j, x in enumerate(c)}, None)
                        return X.tab(tb, i)
                    i = E.concretize(i)
                return c[i]
            return c.at(i)
        i = X.sub(i, l)
    raise RuntimeError


def slice_chunks(E, chs, lo, hi):
    """chs[lo:hi] with Python clamping; returns list of chunks"""
    n = chlen(chs)

    def clampb(b, dflt):
        if b is None:
            return dflt
        b = toint(b)
        if not isinstance(b, T) and not isinstance(n, T):
            if b < 0:
                b = max(0, b + n)
            return min(b, n)
        if E.decide(X.lt(b, 0)):
            b = X.add(b, n)
            if E.decide(X.lt(b, 0)):
                return 0
            return b
        if E.decide(X.lt(n, b)):
            return n
        return b
    a = clampb(lo, 0)
    b = clampb(hi, n)
    if not isinstance(a, T) and not isinstance(b, T) and a >= b:
        return []
    if isinstance(a, T) or isinstance(b, T):
        if not E.decide(X.lt(a, b)):
            return []
    return cut(E, chs, a, b)


def cut(E, chs, a, b):
    """a < b within range"""
    out = []
    pos = 0
    started = False
    for k, c in enumerate(chs):
        l = clen(c)
        end = X.add(pos, l)
        if not started:
            last = k == len(chs) - 1
            if not last and not E.decide(X.lt(a, end)):
                pos = end
                continue
            started = True
            s = X.sub(a, pos)
        else:
            s = 0
        if E.decide(X.le(b, end)):
            e = X.sub(b, pos)
            out.append(cut1(E, c, s, e))
            return out
        out.append(cut1(E, c, s, l))
        pos = end
    return out


def cut1(E, c, s, e):
    if isinstance(c, (list, tuple)):
        s = E.concretize(s)
        e = E.concretize(e)
        return c[s:e]
    if not isinstance(s, T) and s == 0 and (e is c.n or (not isinstance(e, T) and e == c.n)):
        return c
    return c.cut(s, e)


def getitem(E, o, i):
    if isinstance(i, tuple) and i and i[0] == 'slice':
        return getslice(E, o, i[1], i[2], i[3])
    if isinstance(o, PDict) and not isinstance(o, PSet):
        return dict_get(E, o, i, raise_=True)
    if isinstance(o, (Str, PList, Tup)):
        if not is_num(i):
            raise E.exc('TypeError', 'indices must be integers')
        what = 'string' if isinstance(o, Str) else tname(o)
        v = index_into(E, seq_chunks(o), toint(i), what)
        if isinstance(o, Str):
            return Str(o.kind, ((v,),))
        return v
    if isinstance(o, XRange):
        n = xr_len(E, o)
        if not E.decide(X.lt(i, n)):
            raise E.exc('IndexError', 'xrange object index out of range')
        return X.add(o.lo, X.mulc(i, o.step))
    if isinstance(o, PObj):
        m, _ = o.cls.lookup('__getitem__')
        if m is not None:
            return E.call(Bound(m, o), [i], {})
    if isinstance(o, NativeObj) and '__getitem__' in o.attrs:
        return E.call(o.attrs['__getitem__'], [i], {})
    raise E.exc('TypeError', "'%s' object is unsubscriptable" % tname(o))


def getslice(E, o, lo, hi, st):
    for b in (lo, hi):
        if b is not None and not is_num(b):
            raise E.exc('TypeError', 'slice indices must be integers')
    if st is not None and not (isinstance(st, int) and st == 1):
        st = E.concretize(st)
        if isinstance(o, (Str, PList, Tup)):
            it = o.items() if not isinstance(o, Tup) else o.items
            if it is None:
                E.unsupported('extended slice of symbolic-length sequence')
            l = E.concretize(lo) if lo is not None else None
            h = E.concretize(hi) if hi is not None else None
            return wrap_like(o, [list(it)[slice(l, h, st)]])
        E.unsupported('extended slice')
    if isinstance(o, (Str, PList, Tup)):
        chs = seq_chunks(o)
        if len(chs) == 1 and isinstance(chs[0], (list, tuple)) and not isinstance(lo, T) and not isinstance(hi, T):
            return wrap_like(o, [chs[0][lo if lo is None else int(lo):hi if hi is None else int(hi)]])
        return wrap_like(o, slice_chunks(E, chs, lo, hi))
    if isinstance(o, PObj):
        m, _ = o.cls.lookup('__getitem__')
        if m is not None:
            E.unsupported('slice of object')
    raise E.exc('TypeError', "'%s' object is unsliceable" % tname(o))


def wrap_like(o, chs):
    if isinstance(o, Str):
        return Str(o.kind, norm(chs))
    if isinstance(o, Tup):
        return Tup([x for c in chs for x in c])
    chs = [list(c) if isinstance(c, (tuple, list)) else c for c in chs]
    chs = [c for c in chs if not isinstance(c, list) or c]
    if isinstance(o, PArr):
        return PArr(chs, o.tc)
    return PList(chs)


def setitem(E, o, i, v):
    if isinstance(i, tuple) and i and i[0] == 'slice':
        if isinstance(o, PList):
            if i[1] is None and i[2] is None and i[3] is None and type(v) is type(o) and v is not o:
                E.touch(o)
                o.ch = [list(c) if isinstance(c, (tuple, list)) else c for c in v.ch]
                return
            it = o.items()
            if it is None or i[3] is not None:
                E.unsupported('slice assignment')
            a = E.concretize(i[1]) if i[1] is not None else None
            b = E.concretize(i[2]) if i[2] is not None else None
            src = to_items(E, v)
            if isinstance(o, PArr):
                if not isinstance(v, PArr):
                    raise E.exc('TypeError', 'can only assign array')
            E.touch(o)
            it[a:b] = src
            return
        E.unsupported('slice assignment')
    if isinstance(o, PDict):
        dict_set(E, o, i, v)
        return
    if isinstance(o, PList):
        it = o.items()
        if not is_num(i):
            raise E.exc('TypeError', 'list indices must be integers')
        if it is None:
            E.unsupported('item assignment in symbolic-length list')
        if isinstance(o, PArr):
            check_byte(E, o, v)
        i = E.concretize(toint(i))
        if i < 0:
            i += len(it)
        if i < 0 or i >= len(it):
            raise E.exc('IndexError', 'list assignment index out of range')
        E.touch(o)
        o.items()[i] = v
        return
    if isinstance(o, PObj):
        m, _ = o.cls.lookup('__setitem__')
        if m is not None:
            E.call(Bound(m, o), [i, v], {})
            return
    raise E.exc('TypeError', "'%s' object does not support item assignment" % tname(o))


def delitem(E, o, i):
    if isinstance(o, PDict):
        f = dict_find(E, o, i)
        if f is None:
            raise E.exc('KeyError', '')
        E.touch(o)
        del o.d[f]
        return
    if isinstance(o, PList):
        if isinstance(i, tuple) and i[0] == 'slice':
            if i[3] is not None:
                E.unsupported('del extended slice')
            n = o.length()
            it = o.items()
            E.touch(o)
            if it is not None and not isinstance(i[1], T) and not isinstance(i[2], T):
                del it[i[1]:i[2]]
                return
            head = slice_chunks(E, o.ch, 0, i[1]) if i[1] is not None else []
            tail = slice_chunks(E, o.ch, i[2], None) if i[2] is not None else []
            o.ch = [list(c) if isinstance(c, tuple) else c for c in norm(tuple(head) + tuple(tail))]
            return
        it = o.items()
        if it is None:
            E.unsupported('del item')
        i = E.concretize(i)
        if i < -len(it) or i >= len(it):
            raise E.exc('IndexError', '')
        E.touch(o)
        del o.items()[i]
        return
    E.unsupported('delitem')


# ------------------------------------------------------------------ iteration
def xr_len(E, x):
    if x.step == 1:
        d = X.sub(x.hi, x.lo)
        if not isinstance(d, T):
            return max(0, d)
        if d.lo is not None and d.lo >= 0:
            return d
        return X.ite(X.lt(0, d), d, 0)
    lo, hi = E.concretize(x.lo), E.concretize(x.hi)
    return len(range(lo, hi, x.step))


def to_items(E, v):
    """python list of all elements (concrete length required)"""
    if isinstance(v, PIter):
        out = []
        while True:
            try:
                out.append(iter_next(E, v))
            except PyExc as e:
                if e.obj.cls.name == 'StopIteration':
                    return out
                raise
    if isinstance(v, Str):
        it = v.items()
        if it is None:
            n = v.length()
            k = E.concretize(n)
            return [Str(v.kind, ((index_into(E, v.ch, j, 'string'),),)) for j in range(k)]
        return [Str(v.kind, ((c,),)) for c in it]
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, PList):
        it = v.items()
        if it is None:
            k = E.concretize(v.length())
            return [index_into(E, v.ch, j, 'list') for j in range(k)]
        return list(it)
    if isinstance(v, PDict):
        return [ko for ko, _ in v.d.values()]
    if isinstance(v, XRange):
        n = E.concretize(xr_len(E, v))
        return [X.add(v.lo, v.step * i) for i in range(n)]
    if isinstance(v, PObj):
        it = get_iter(E, v)
        return to_items(E, it) if isinstance(it, PIter) else obj_items(E, it)
    raise E.exc('TypeError', "'%s' object is not iterable" % tname(v))


def obj_items(E, o):
    out = []
    while True:
        try:
            out.append(E.call(E.getattr(o, 'next'), [], {}))
        except PyExc as e:
            if e.obj.cls.name == 'StopIteration':
                return out
            raise
        if len(out) > 3000:
            E.unsupported('long iteration')


def unpack(E, v, n):
    if isinstance(v, (PList, Str)) and (v.items() is None):
        ln = v.length()
        if not E.decide(X.eq(ln, n)):
            raise E.exc('ValueError', 'wrong number of values to unpack')
        chs = v.ch
        vals = []
        for j in range(n):
            x = index_into(E, chs, j, 'list')
            vals.append(Str(v.kind, ((x,),)) if isinstance(v, Str) else x)
        return vals
    if not isinstance(v, (PList, Str, Tup, PDict, PIter, XRange, PObj)):
        raise E.exc('TypeError', "'%s' object is not iterable" % tname(v))
    it = to_items(E, v)
    if len(it) != n:
        raise E.exc('ValueError', 'need %d values to unpack' % n)
    return it


def get_iter(E, v):
    if isinstance(v, PIter):
        return v
    if isinstance(v, (Str, PList, Tup, XRange)):
        return PIter(v)
    if isinstance(v, PDict):
        return PIter(PList([[ko for ko, _ in v.d.values()]]))
    if isinstance(v, PObj):
        m, _ = v.cls.lookup('__iter__')
        if m is not None:
            return E.call(Bound(m, v), [], {})
        m, _ = v.cls.lookup('__getitem__')
        if m is not None:
            E.unsupported('iteration by __getitem__')
    if isinstance(v, NativeObj) and '__iter__' in v.attrs:
        return E.call(v.attrs['__iter__'], [], {})
    raise E.exc('TypeError', "'%s' object is not iterable" % tname(v))


def iter_next(E, it):
    if it.nextf is not None:
        return it.nextf(E, it)
    s = it.src
    if s is None:
        raise E.exc('StopIteration')
    if isinstance(it.idx, T) and isinstance(s, (Str, PList)):
        # at a known place of a known run: nothing to decide
        pos = 0
        for c in seq_chunks(s):
            l = clen(c)
            if not isinstance(l, T) and isinstance(c, (tuple, list)):
                d = X.sub(it.idx, pos)
                if not isinstance(d, T) and 0 <= d < l:
                    E.touch(it)
                    it.idx = X.add(it.idx, 1)
                    return Str(s.kind, ((c[d],),)) if isinstance(s, Str) else c[d]
            pos = X.add(pos, l)
    n = xr_len(E, s) if isinstance(s, XRange) else (s.length() if not isinstance(s, Tup) else len(s.items))
    if not E.decide(X.lt(it.idx, n)):
        E.touch(it)
        it.src = None
        raise E.exc('StopIteration')
    i = it.idx
    E.touch(it)
    it.idx = X.add(i, 1)
    if isinstance(s, XRange):
        return X.add(s.lo, X.mulc(i, s.step))
    v = index_into(E, seq_chunks(s), i, 'x')
    if isinstance(s, Str):
        return Str(s.kind, ((v,),))
    return v


# ------------------------------------------------------------------ list / array operations
def check_byte(E, a, v):
    if not isinstance(a, PArr):
        return
    if a.tc != 'B':
        E.unsupported('array typecode %s' % a.tc)
    if not is_num(v):
        raise E.exc('TypeError', 'array item must be unsigned byte')
    v = toint(v)
    if not E.decide(X.inset(v, ((0, 255),))):
        raise E.exc('OverflowError', 'value out of range')


def append(E, l, v):
    if isinstance(l, PArr):
        check_byte(E, l, v)
    if l.ep != E.epoch or E.wlog is not None:
        E.touch(l)
    if l.ch and type(l.ch[-1]) is list:
        l.ch[-1].append(v)
    else:
        l.ch.append([v])


def extend(E, l, src):
    if isinstance(l, PArr):
        if isinstance(src, PArr):
            pass
        elif isinstance(src, Str):
            raise E.exc('TypeError', 'array item must be unsigned byte')
        elif isinstance(src, PList) and src.items() is None:
            for c in src.ch:
                if isinstance(c, (list, tuple)):
                    for x in c:
                        check_byte(E, l, x)
                elif isinstance(c, Sl):
                    if c.wrap:
                        raise E.exc('TypeError', 'array item must be unsigned byte')
                    if c.base.lo is None or c.base.hi is None or c.base.lo < 0 or c.base.hi > 255:
                        E.unsupported('array extend range')
                elif isinstance(c, Op):
                    if c.rng[0] < 0 or c.rng[1] > 255:
                        E.unsupported('array extend range')
                else:
                    k = E.fresh('k', 0, None)
                    x = c.at(k)
                    if not (is_int(x) and X.lo_of(x) is not None and X.lo_of(x) >= 0 and X.hi_of(x) <= 255):
                        E.unsupported('array extend family')
        elif isinstance(src, (PList, Tup, PIter)):
            its = to_items(E, src)
            E.touch(l)
            for x in its:           # elements before a bad one are appended
                append(E, l, x)
            return
    if isinstance(src, PList):
        chs = [list(c) if isinstance(c, (list, tuple)) else c for c in src.ch]
    elif isinstance(src, Str):
        chs = []
        for c in src.ch:
            if isinstance(c, tuple):
                chs.append([Str(src.kind, ((x,),)) for x in c])
            elif isinstance(c, Sl):
                chs.append(c.rewrap(src.kind))
            else:
                E.unsupported('extend by opaque string')
    else:
        chs = [to_items(E, src)]
    E.touch(l)
    for c in chs:
        if isinstance(c, list) and l.ch and type(l.ch[-1]) is list:
            l.ch[-1].extend(c)
        else:
            l.ch.append(c)


def list_pop(E, l, idx=-1):
    n = l.length()
    it = l.items()
    if it is not None:
        if not it:
            raise E.exc('IndexError', 'pop from empty list')
        i = E.concretize(idx)
        if i < -len(it) or i >= len(it):
            raise E.exc('IndexError', 'pop index out of range')
        E.touch(l)
        return l.items().pop(i)
    # symbolic length
    if not E.decide(X.lt(0, n)):
        raise E.exc('IndexError', 'pop from empty list')
    if isinstance(idx, T):
        E.unsupported('pop(symbolic)')
    E.touch(l)
    if idx == 0:
        v = index_into(E, l.ch, 0, 'list')
        chs = slice_chunks(E, l.ch, 1, None)
    elif idx == -1:
        v = index_into(E, l.ch, X.sub(n, 1), 'list')
        chs = slice_chunks(E, l.ch, 0, X.sub(n, 1))
    else:
        E.unsupported('pop index')
    l.ch = [list(c) if isinstance(c, tuple) else c for c in chs]
    return v


from .libmethods import getattr_native, install, exc_matches  # noqa
from .induct import align_flat, expand_one  # noqa
