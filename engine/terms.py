"""Hash-consed term language: integers (mathematical) and booleans.

Integer terms carry an interval [lo, hi] (None = unbounded).  Bit operations on
non-negative operands with constant masks are reduced to div/mod/linear forms, so that
most obligations about packed bits are closed by normalisation and the rest go to z3.
"""
import itertools

_tab = {}
_ids = itertools.count()


class T(object):
    __slots__ = ('op', 'a', 'lo', 'hi', 'id', '_vars', '_pm', '_z', 'isb')

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise RuntimeError('term used as a python bool: %s' % show(self)[:200])

    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    def __deepcopy__(self, memo):
        return self


def mk(op, a, lo=None, hi=None, isb=False):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.lo = lo
        t.hi = hi
        t.id = next(_ids)
        t._vars = None
        t._pm = False
        t._z = None
        t.isb = isb
        _tab[k] = t
    return t


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 12:
        return '...'
    if t.op == 'var' or t.op == 'bvar':
        return t.a[0]
    if t.op == 'lin':
        c, ts = t.a
        return '(' + ' + '.join(['%s%s' % ('' if k == 1 else '%d*' % k, show(x, d + 1)) for x, k in ts] + ([str(c)] if c else [])) + ')'
    if t.op == 'sel':
        return '%s[%s]' % (t.a[0].name, show(t.a[1], d + 1))
    if t.op == 'inset':
        return '(%s in %s)' % (show(t.a[0], d + 1), t.a[1])
    if t.op == 'tab':
        return 'TAB(%s)' % show(t.a[1], d + 1)
    return '%s(%s)' % (t.op, ', '.join(show(x, d + 1) for x in t.a))


# ---------------------------------------------------------------- helpers
def isterm(x):
    return isinstance(x, T)


def lo_of(x):
    return int(x) if not isinstance(x, T) else x.lo


def hi_of(x):
    return int(x) if not isinstance(x, T) else x.hi


def var(name, lo=None, hi=None):
    if lo is not None and lo == hi:
        return lo
    return mk('var', (name, lo, hi), lo, hi)


def bvar(name):
    return mk('bvar', (name,), isb=True)


class Base(object):
    """An uninterpreted sequence of integers (content of a symbolic-length sequence)."""
    _n = {}

    def __init__(self, name, lo, hi, allowed=None):
        self.name = name
        self.lo = lo
        self.hi = hi
        self.allowed = allowed      # optional tuple of ranges

    def __repr__(self):
        return 'Base(%s)' % self.name

    def __deepcopy__(self, memo):
        return self


def sel(base, idx):
    return mk('sel', (base, idx), base.lo, base.hi)


def app(name, args, lo=None, hi=None):
    return mk('app', (name,) + tuple(args) + (('rng', lo, hi),), lo, hi)


# ---------------------------------------------------------------- linear
def _mulb(a, k):
    return None if a is None else a * k


def _lin_parts(x):
    if not isinstance(x, T):
        return int(x), ()
    if x.op == 'lin':
        return x.a[0], x.a[1]
    return 0, ((x, 1),)


def mklin(c, d):
    """c + sum(d[t]*t) ; d: dict term->coef"""
    d = {t: k for t, k in d.items() if k}
    if not d:
        return c
    # recombine  k*mod(y,a) + k*a*mod(div(y,a),b) -> k*mod(y,a*b) ; k*mod(y,a)+k*a*div(y,a) -> k*y
    changed = True
    while changed:
        changed = False
        for t in list(d):
            if t not in d:
                continue
            if t.op == 'mod':
                y, m = t.a
                k = d[t]
                # look for a partner
                for u in list(d):
                    if u is t or d.get(u) != k * m:
                        continue
                    if u.op == 'div' and u.a[1] == m and u.a[0] is y:
                        del d[t], d[u]
                        cc, ps = _lin_parts(y)
                        c += cc * k
                        for p, q in ps:
                            d[p] = d.get(p, 0) + q * k
                        changed = True
                        break
                    if u.op == 'mod':
                        z, b = u.a
                        if isinstance(z, T) and ((z.op == 'div' and z.a[1] == m and z.a[0] is y) or z is div(y, m)):
                            del d[t], d[u]
                            w = mod(y, m * b)
                            cc, ps = _lin_parts(w)
                            c += cc * k
                            for p, q in ps:
                                d[p] = d.get(p, 0) + q * k
                            changed = True
                            break
                    # y = div(w, j): div(y, m) is represented div(w, j*m)
                    if u.op == 'div' and u is div(y, m):
                        del d[t], d[u]
                        cc, ps = _lin_parts(y)
                        c += cc * k
                        for p, q in ps:
                            d[p] = d.get(p, 0) + q * k
                        changed = True
                        break
                if changed:
                    break
        d = {t: k for t, k in d.items() if k}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    ts = tuple(sorted(d.items(), key=lambda p: p[0].id))
    lo = hi = c
    for t, k in ts:
        if k > 0:
            lo = None if lo is None or t.lo is None else lo + k * t.lo
            hi = None if hi is None or t.hi is None else hi + k * t.hi
        else:
            lo, hi = (None if lo is None or t.hi is None else lo + k * t.hi,
                      None if hi is None or t.lo is None else hi + k * t.lo)
    if lo is not None and lo == hi:
        return lo
    return mk('lin', (c, ts), lo, hi)


def add(x, y):
    if not isinstance(x, T) and not isinstance(y, T):
        return x + y
    if not isinstance(x, T) and x == 0:
        return y
    if not isinstance(y, T) and y == 0:
        return x
    c1, p1 = _lin_parts(x)
    c2, p2 = _lin_parts(y)
    d = dict(p1)
    for t, k in p2:
        d[t] = d.get(t, 0) + k
    return mklin(c1 + c2, d)


def mulc(x, k):
    if not isinstance(x, T):
        return x * k
    if k == 0:
        return 0
    if k == 1:
        return x
    c, p = _lin_parts(x)
    return mklin(c * k, {t: q * k for t, q in p})


def neg(x):
    return mulc(x, -1)


def sub(x, y):
    return add(x, mulc(y, -1))


def mul(x, y):
    if not isinstance(y, T):
        return mulc(x, y)
    if not isinstance(x, T):
        return mulc(y, x)
    if x.id > y.id:
        x, y = y, x
    lo = hi = None
    if None not in (x.lo, x.hi, y.lo, y.hi):
        c = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
        lo, hi = min(c), max(c)
    elif x.lo is not None and y.lo is not None and x.lo >= 0 and y.lo >= 0:
        lo = x.lo * y.lo
    return mk('mul', (x, y), lo, hi)


def div(x, m):
    """floor division by a positive constant"""
    assert not isinstance(m, T)
    if not isinstance(x, T):
        return x // m
    if m < 0:
        return div(neg(x), -m)
    if m == 1:
        return x
    if x.lo is not None and x.hi is not None and x.lo // m == x.hi // m:
        return x.lo // m
    if x.op == 'lin':
        c, ps = x.a
        q = {}
        r = {}
        for t, k in ps:
            kq, kr = divmod(k, m)
            if kr == 0:
                q[t] = kq
            else:
                r[t] = k
        cq, cr = divmod(c, m)
        if q or cq:
            return add(mklin(cq, q), div(mklin(cr, r), m))
        # common factor: div(g*y + c, m) with g | m  -> div(y + c//g, m//g)
        g = 0
        import math
        for t, k in ps:
            g = math.gcd(g, k)
        g = math.gcd(g, m)
        if g > 1:
            return div(mklin(c // g, {t: k // g for t, k in ps}), m // g)
        # split: a part with coefs divisible by d (d|m) and remainder within [0,d)
        for dd in sorted({math.gcd(k, m) for t, k in ps if math.gcd(k, m) > 1}, reverse=True):
            hi_part = {t: k for t, k in ps if k % dd == 0}
            lo_part = {t: k for t, k in ps if k % dd}
            lp = mklin(c % dd, lo_part)
            if lo_of(lp) is not None and hi_of(lp) is not None and lo_of(lp) >= 0 and hi_of(lp) < dd:
                return div(mklin(c // dd, {t: k // dd for t, k in hi_part.items()}), m // dd)
    if x.op == 'div':
        return div(x.a[0], x.a[1] * m)
    if x.op == 'mod' and x.a[1] % m == 0:
        return mod(div(x.a[0], m), x.a[1] // m)
    if x.op == 'ite':
        a, b = div(x.a[1], m), div(x.a[2], m)
        if not isinstance(a, T) and not isinstance(b, T):
            return ite(x.a[0], a, b)
    return mk('div', (x, m), None if x.lo is None else x.lo // m, None if x.hi is None else x.hi // m)


def mod(x, m):
    if not isinstance(x, T):
        return x % m
    assert m > 0
    if m == 1:
        return 0
    if x.lo is not None and x.hi is not None and x.lo // m == x.hi // m:
        return sub(x, (x.lo // m) * m)
    if x.op == 'lin':
        c, ps = x.a
        r = {}
        ch = False
        for t, k in ps:
            kr = k % m
            if kr != k:
                ch = True
            if kr:
                r[t] = kr
        cr = c % m
        if ch or cr != c:
            # prefer keeping symmetric form when it fits without wrap
            return mod(mklin(cr, r), m)
        import math
        g = 0
        for t, k in ps:
            g = math.gcd(g, k)
        g = math.gcd(g, m)
        if g > 1:
            if c % g == 0:
                return mulc(mod(mklin(c // g, {t: k // g for t, k in ps}), m // g), g)
            return add(mulc(mod(mklin(c // g, {t: k // g for t, k in ps}), m // g), g), c % g)
        # split: parts with coefficient divisible by d|m, remainder in [0,d)
        for dd in sorted({math.gcd(k, m) for t, k in ps if math.gcd(k, m) > 1}, reverse=True):
            hi_part = {t: k for t, k in ps if k % dd == 0}
            lo_part = {t: k for t, k in ps if k % dd}
            lp = mklin(c % dd, lo_part)
            if lo_of(lp) is not None and hi_of(lp) is not None and lo_of(lp) >= 0 and hi_of(lp) < dd:
                hp = mod(mklin(c // dd, {t: k // dd for t, k in hi_part.items()}), m // dd)
                return add(mulc(hp, dd), lp)
        # inner mods with modulus divisible by m can be dropped
        for t, k in ps:
            if t.op == 'mod' and (t.a[1] * k) % m == 0 and len(ps) >= 1:
                d = dict(ps)
                del d[t]
                return mod(add(mklin(c, d), mulc(t.a[0], k)), m)
    if x.op == 'mod' and x.a[1] % m == 0:
        return mod(x.a[0], m)
    return mk('mod', (x, m), 0, m - 1)


def ite(c, x, y):
    if not isinstance(c, T):
        return x if c else y
    if x is y or (not isinstance(x, T) and not isinstance(y, T) and x == y):
        return x
    lo = None if lo_of(x) is None or lo_of(y) is None else min(lo_of(x), lo_of(y))
    hi = None if hi_of(x) is None or hi_of(y) is None else max(hi_of(x), hi_of(y))
    return mk('ite', (c, x, y), lo, hi)


# ---------------------------------------------------------------- bits
def pm(x):
    """mask of possibly set bits (x known non-negative), or None"""
    if not isinstance(x, T):
        return x if x >= 0 else None
    if x._pm is not False:
        return x._pm
    r = None
    if x.lo is not None and x.hi is not None and x.lo >= 0:
        r = (1 << x.hi.bit_length()) - 1
        if x.op == 'lin':
            c, ps = x.a
            acc = c if c >= 0 else None
            if acc is not None:
                for t, k in ps:
                    p = pm(t)
                    if k <= 0 or p is None or (k & (k - 1)):
                        acc = None
                        break
                    p = p * k
                    if acc & p:
                        acc = None
                        break
                    acc |= p
            if acc is not None:
                r &= acc
        elif x.op == 'ite':
            a, b = pm(x.a[1]), pm(x.a[2])
            if a is not None and b is not None:
                r &= (a | b)
    x._pm = r
    return r


def runs(mask):
    s = 0
    while mask:
        while not mask & 1:
            mask >>= 1
            s += 1
        e = s
        while mask & 1:
            mask >>= 1
            e += 1
        yield s, e
        s = e


def band(x, y):
    if not isinstance(x, T) and not isinstance(y, T):
        return x & y
    if not isinstance(x, T):
        x, y = y, x
    if not isinstance(y, T):
        if y < 0:
            # x & y = x - (x & ~y)
            return sub(x, band(x, ~y))
        p = pm(x)
        if p is not None:
            if p & y == 0:
                return 0
            if p & ~y == 0:
                return x
        r = 0
        for s, e in runs(y):
            r = add(r, mulc(mod(div(x, 1 << s), 1 << (e - s)), 1 << s))
        return r
    px, py = pm(x), pm(y)
    if px is None or py is None:
        raise NotImplementedError('bitand of unbounded terms')
    if px & py == 0:
        return 0
    if x.id > y.id:
        x, y = y, x
    return mk('band', (x, y), 0, min(x.hi, y.hi))


def pow2factor(t):
    """a power of two that divides t"""
    if not isinstance(t, T):
        return t & -t if t else 1 << 4096
    if t.op == 'lin':
        r = t.a[0] & -t.a[0] if t.a[0] else None
        for x, k in t.a[1]:
            f = (k & -k) * pow2factor(x)
            r = f if r is None else min(r, f)
        return r
    return 1


def disjoint_bits(x, y):
    """x is a multiple of a power of two above y"""
    for a, b in ((x, y), (y, x)):
        lo, hi = (b.lo, b.hi) if isinstance(b, T) else (b, b)
        if lo is not None and hi is not None and 0 <= lo and hi < pow2factor(a):
            return True
    return False


def bor(x, y):
    if not isinstance(x, T) and not isinstance(y, T):
        return x | y
    px, py = pm(x), pm(y)
    if (px is None or py is None) and disjoint_bits(x, y):
        return add(x, y)
    if px is not None and py is not None and px & py == 0:
        return add(x, y)
    if not isinstance(x, T):
        x, y = y, x
    if not isinstance(y, T):
        return sub(add(x, y), band(x, y))
    if px is None or py is None:
        raise NotImplementedError('bitor of unbounded terms')
    if x is y:
        return x
    if x.id > y.id:
        x, y = y, x
    return mk('bor', (x, y), max(x.lo, y.lo), (1 << max(x.hi, y.hi).bit_length()) - 1)


def bxor(x, y):
    if not isinstance(x, T) and not isinstance(y, T):
        return x ^ y
    px, py = pm(x), pm(y)
    if px is not None and py is not None and px & py == 0:
        return add(x, y)
    if not isinstance(x, T):
        x, y = y, x
    if not isinstance(y, T):
        return sub(add(x, y), mulc(band(x, y), 2))
    if px is None or py is None:
        raise NotImplementedError('bitxor of unbounded terms')
    if x is y:
        return 0
    if x.id > y.id:
        x, y = y, x
    return mk('bxor', (x, y), 0, (1 << max(x.hi, y.hi).bit_length()) - 1)


# ---------------------------------------------------------------- special ints
def hexc(t, upper=0):
    """ASCII code of the hexadecimal digit t (0..15)"""
    if not isinstance(t, T):
        return ord(('0123456789ABCDEF' if upper else '0123456789abcdef')[t])
    if t.hi is not None and t.hi <= 9:
        return add(t, 48)
    return mk('hexc', (t, upper), 48, 70 if upper else 102)


_compose = {}


def tab(table, x):
    """table: Table object (finite map int->int with complete default); x term"""
    if not isinstance(x, T):
        return table.get(x)
    if x.op == 'tab' and x.a[0].default is None and table.default is None:
        inner = x.a[0]
        k = (inner, table)
        c = _compose.get(k)
        if c is None:
            it = {}
            for kk, v in inner.items.items():
                if v in table.items:
                    it[kk] = table.items[v]
            c = Table(it, None) if it else None
            if c is not None and all(kk == v for kk, v in it.items()):
                c = 'id'
            _compose[k] = c if c is not None else 'none'
        if c == 'id':
            return x.a[1]
        if c is not None and c != 'none':
            return tab(c, x.a[1])
    return mk('tab', (table, x), table.lo, table.hi)


class Table(object):
    _memo = {}

    def __new__(cls, items, default):
        k = (tuple(sorted(items.items())), default)
        o = cls._memo.get(k)
        if o is None:
            o = object.__new__(cls)
            o.items = dict(items)
            o.default = default
            vs = list(items.values()) + ([default] if default is not None else [])
            o.lo = min(vs)
            o.hi = max(vs)
            o.inj = len(set(items.values())) == len(items)
            cls._memo[k] = o
        return o

    def get(self, x):
        return self.items.get(x, self.default if self.default is not None else self.lo)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'Table#%d' % len(self.items)


# ---------------------------------------------------------------- booleans
def not_(b):
    if not isinstance(b, T):
        return not b
    if b.op == 'not':
        return b.a[0]
    if b.op == 'le0':       # t<=0  ->  t>=1 -> 1-t<=0
        return le0(sub(1, b.a[0]))
    if b.op == 'inset':
        t, rs = b.a
        return inset(t, complement(rs))
    return mk('not', (b,), isb=True)


def and_(*bs):
    out = []
    seen = set()
    for b in bs:
        if not isinstance(b, T):
            if not b:
                return False
            continue
        for c in (b.a if b.op == 'and' else (b,)):
            if c.id not in seen:
                seen.add(c.id)
                out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    for c in out:
        n = not_(c) if c.op in ('not', 'le0', 'inset', 'bvar') else None
        if n is not None and (not isinstance(n, T) or n.id in seen):
            return False
    return mk('and', tuple(out), isb=True)


def or_(*bs):
    out = []
    seen = set()
    for b in bs:
        if not isinstance(b, T):
            if b:
                return True
            continue
        for c in (b.a if b.op == 'or' else (b,)):
            if c.id not in seen:
                seen.add(c.id)
                out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    # merge memberships of the same term
    byt = {}
    rest = []
    for c in out:
        if c.op == 'inset':
            byt.setdefault(c.a[0], []).append(c)
        elif c.op == 'eq0' and _single(c.a[0]) is not None:
            t, v = _single(c.a[0])
            byt.setdefault(t, []).append(c)
        else:
            rest.append(c)
    if any(len(v) > 1 for v in byt.values()):
        new = list(rest)
        for t, cs in byt.items():
            if len(cs) == 1:
                new.append(cs[0])
                continue
            rs = []
            for c in cs:
                if c.op == 'inset':
                    rs.extend(c.a[1])
                else:
                    v = _single(c.a[0])[1]
                    rs.append((v, v))
            m = inset(t, norm_ranges(rs))
            if m is True:
                return True
            if isinstance(m, T):
                new.append(m)
        if len(new) == 1:
            return new[0]
        return mk('or', tuple(new), isb=True)
    return mk('or', tuple(out), isb=True)


def _single(l):
    """lin == t - v  -> (t, v)"""
    if not isinstance(l, T):
        return None
    if l.op != 'lin':
        return (l, 0)
    c, ps = l.a
    if len(ps) == 1:
        t, k = ps[0]
        if k == 1:
            return (t, -c)
        if k == -1:
            return (t, c)
    return None


def implies(a, b):
    return or_(not_(a), b)


def bite(c, x, y):
    if not isinstance(c, T):
        return x if c else y
    return and_(or_(not_(c), x), or_(c, y))


def iff(x, y):
    if not isinstance(x, T) and not isinstance(y, T):
        return bool(x) == bool(y)
    if not isinstance(x, T):
        return y if x else not_(y)
    if not isinstance(y, T):
        return x if y else not_(x)
    if x is y:
        return True
    return and_(or_(not_(x), y), or_(x, not_(y)))


def le0(l):
    if not isinstance(l, T):
        return l <= 0
    if l.hi is not None and l.hi <= 0:
        return True
    if l.lo is not None and l.lo > 0:
        return False
    if l.op == 'lin':
        c, ps = l.a
        import math
        g = 0
        for t, k in ps:
            g = math.gcd(g, k)
        if g > 1:
            # g*y + c <= 0  <=>  y <= floor(-c/g)
            return le0(mklin(-((-c) // g), {t: k // g for t, k in ps}))
    return mk('le0', (l,), isb=True)


def le(x, y):
    return le0(sub(x, y))


def lt(x, y):
    return le0(add(sub(x, y), 1))


def eq0(l):
    if not isinstance(l, T):
        return l == 0
    if (l.lo is not None and l.lo > 0) or (l.hi is not None and l.hi < 0):
        return False
    if l.op == 'lin':
        c, ps = l.a
        import math
        g = 0
        for t, k in ps:
            g = math.gcd(g, k)
        if c % g:
            return False
        if g > 1 or ps[0][1] < 0:
            s = -g if ps[0][1] < 0 else g
            return eq0(mklin(c // s, {t: k // s for t, k in ps}))
        if len(ps) == 2 and c == 0 and ps[0][1] == -ps[1][1]:
            a, b = ps[0][0], ps[1][0]
            if a.op == b.op == 'hexc' and a.a[1] == b.a[1]:
                return eq(a.a[0], b.a[0])
            if a.op == b.op == 'tab' and a.a[0] is b.a[0] and a.a[0].inj and a.a[0].default is None:
                pass
        if len(ps) == 1:
            t, k = ps[0]
            v = -c // k
            if t.op == 'hexc':
                for d in range(16):
                    if hexc(d, t.a[1]) == v:
                        return eq(t.a[0], d)
                return False
            if t.op == 'tab' and not isinstance(v, T):
                tb, x = t.a
                ks = [kk for kk, vv in tb.items.items() if vv == v]
                if tb.default != v:
                    return inset(x, norm_ranges([(kk, kk) for kk in ks]))
            if t.op == 'ite' and not isinstance(t.a[1], T) and not isinstance(t.a[2], T):
                return bite(t.a[0], t.a[1] == v, t.a[2] == v)
    if l.op == 'hexc':
        return False
    return mk('eq0', (l,), isb=True)


def eq(x, y):
    if x is y:
        return True
    return eq0(sub(x, y))


def ne(x, y):
    return not_(eq(x, y))


def norm_ranges(rs):
    rs = sorted(rs, key=lambda r: (r[0] is not None, r[0] or 0))
    out = []
    for a, b in rs:
        if out:
            pa, pb = out[-1]
            if pb is None:
                continue
            if a is None or a <= pb + 1:
                out[-1] = (pa, None if b is None else max(pb, b))
                continue
        out.append((a, b))
    return tuple(out)


def complement(rs):
    rs = norm_ranges(rs)
    out = []
    cur = None
    first = True
    for a, b in rs:
        if first:
            if a is not None:
                out.append((None, a - 1))
        else:
            out.append((cur, a - 1))
        first = False
        if b is None:
            return tuple(out)
        cur = b + 1
    if first:
        return ((None, None),)
    out.append((cur, None))
    return tuple(out)


_preim = {}


def inset(t, rs):
    if not isinstance(t, T):
        return any((a is None or a <= t) and (b is None or t <= b) for a, b in rs)
    if t.op == 'tab' and t.a[0].default is None:
        k = (t.a[0], rs)
        pre = _preim.get(k)
        if pre is None:
            pre = norm_ranges([(kk, kk) for kk, v in t.a[0].items.items() if inset(v, rs)])
            _preim[k] = pre
        return inset(t.a[1], pre) if pre else False
    if t.op == 'lin' and len(t.a[1]) == 1 and abs(t.a[1][0][1]) == 1:
        c, ((y, k),) = t.a
        sh = [(None if a is None else a - c, None if b is None else b - c) for a, b in rs]
        if k < 0:
            sh = [(None if b is None else -b, None if a is None else -a) for a, b in sh]
        return inset(y, norm_ranges(sh))
    if t.op == 'sel' and t.a[0].allowed:
        al = t.a[0].allowed
        o2 = []
        for a, b in norm_ranges(rs):
            for a2, b2 in al:
                l = a2 if a is None or a < a2 else a
                h = b2 if b is None or b > b2 else b
                if l <= h:
                    o2.append((l, h))
        if not o2:
            return False
        rs = norm_ranges(o2)
        if rs == tuple(al):
            return True
    out = []
    for a, b in norm_ranges(rs):
        aa = a if t.lo is None or (a is not None and a > t.lo) else t.lo
        bb = b if t.hi is None or (b is not None and b < t.hi) else t.hi
        if aa is not None and bb is not None and aa > bb:
            continue
        out.append((aa, bb))
    if not out:
        return False
    out = norm_ranges(out)
    if len(out) == 1:
        a, b = out[0]
        if (a == t.lo) and (b == t.hi):
            return True
        if a is not None and a == b:
            return eq(t, a)
        if a == t.lo or a is None:
            return le(t, b)
        if b == t.hi or b is None:
            return le(a, t)
    return mk('inset', (t, tuple(out)), isb=True)


# ---------------------------------------------------------------- variables
def tvars(t):
    """frozenset of variable keys"""
    if not isinstance(t, T):
        return frozenset()
    v = t._vars
    if v is not None:
        return v
    # iterative to avoid deep recursion
    stack = [t]
    while stack:
        x = stack[-1]
        if x._vars is not None:
            stack.pop()
            continue
        subs = list(children(x))
        pend = [s for s in subs if s._vars is None]
        if pend:
            stack.extend(pend)
            continue
        acc = set()
        for s in subs:
            acc |= s._vars
        if x.op in ('var', 'bvar'):
            acc.add(x.a[0])
        elif x.op == 'sel':
            if isinstance(x.a[1], T):
                acc.add((x.a[0].name, '*'))
            else:
                acc.add((x.a[0].name, x.a[1]))
        elif x.op == 'app':
            acc.add((x.a[0], '()'))
        x._vars = frozenset(acc)
        stack.pop()
    return t._vars


def children(x):
    op = x.op
    if op in ('var', 'bvar'):
        return ()
    if op == 'lin':
        return tuple(t for t, k in x.a[1])
    if op == 'sel':
        return (x.a[1],) if isinstance(x.a[1], T) else ()
    if op in ('div', 'mod', 'inset', 'hexc'):
        return (x.a[0],)
    if op == 'tab':
        return (x.a[1],)
    return tuple(s for s in x.a if isinstance(s, T))


# ---------------------------------------------------------------- evaluation
def ev(t, env):
    """evaluate under env: dict varkey -> int/bool ; sel keys (name, idx)."""
    if not isinstance(t, T):
        return t
    memo = env.setdefault('__memo__', {})
    return _ev(t, env, memo)


def _ev(t, env, memo):
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    a = t.a
    if op == 'var':
        r = env.get(a[0])
        if r is None:
            r = env['__default__'](t) if '__default__' in env else (a[1] if a[1] is not None else (a[2] if a[2] is not None else 0))
    elif op == 'bvar':
        r = env.get(a[0], False)
    elif op == 'lin':
        r = a[0] + sum(k * _ev(x, env, memo) for x, k in a[1])
    elif op == 'div':
        r = _ev(a[0], env, memo) // a[1]
    elif op == 'mod':
        r = _ev(a[0], env, memo) % a[1]
    elif op == 'mul':
        r = _ev(a[0], env, memo) * _ev(a[1], env, memo)
    elif op == 'ite':
        r = _ev(a[1], env, memo) if _ev(a[0], env, memo) else _ev(a[2], env, memo)
    elif op == 'band':
        r = _ev(a[0], env, memo) & _ev(a[1], env, memo)
    elif op == 'bor':
        r = _ev(a[0], env, memo) | _ev(a[1], env, memo)
    elif op == 'bxor':
        r = _ev(a[0], env, memo) ^ _ev(a[1], env, memo)
    elif op == 'hexc':
        r = hexc(_ev(a[0], env, memo), a[1])
    elif op == 'tab':
        r = a[0].get(_ev(a[1], env, memo))
    elif op == 'sel':
        i = _ev(a[1], env, memo)
        r = env.get((a[0].name, i))
        if r is None:
            r = env['__defsel__'](a[0], i) if '__defsel__' in env else (a[0].lo or 0)
    elif op == 'app':
        args = tuple(_ev(x, env, memo) for x in a[1:-1])
        r = env.get((a[0], args))
        if r is None:
            r = t.lo if t.lo is not None else 0
    elif op == 'not':
        r = not _ev(a[0], env, memo)
    elif op == 'and':
        r = all(_ev(x, env, memo) for x in a)
    elif op == 'or':
        r = any(_ev(x, env, memo) for x in a)
    elif op == 'le0':
        r = _ev(a[0], env, memo) <= 0
    elif op == 'eq0':
        r = _ev(a[0], env, memo) == 0
    elif op == 'inset':
        r = inset(_ev(a[0], env, memo), a[1])
    else:
        raise RuntimeError(op)
    memo[t] = r
    return r


# ---------------------------------------------------------------- serialisation (cache keys)
def ser(ts):
    """alpha-normalised serialisation of a list of terms"""
    names = {}
    out = []
    seen = {}
    star = set()
    for t in ts:
        for v in tvars(t):
            if isinstance(v, tuple) and v[1] == '*':
                star.add(v[0])

    def nm(k):
        if k not in names:
            names[k] = len(names)
        return names[k]

    def go(t):
        if not isinstance(t, T):
            out.append(str(t))
            return
        if t in seen:
            out.append('#%d' % seen[t])
            return
        op = t.op
        a = t.a
        if op == 'var':
            out.append('v%d:%s:%s' % (nm(a[0]), a[1], a[2]))
            return
        if op == 'bvar':
            out.append('b%d' % nm(a[0]))
            return
        if op == 'sel' and not isinstance(a[1], T):
            if a[0].name in star:
                out.append('s%d:=%d:%s:%s' % (nm(a[0].name), a[1], a[0].lo, a[0].hi))
            else:
                out.append('s%d:%d:%s:%s' % (nm(a[0].name), nm((a[0].name, a[1])), a[0].lo, a[0].hi))
            return
        out.append('(' + op)
        if op == 'lin':
            out.append(str(a[0]))
            for x, k in a[1]:
                out.append('*%d' % k)
                go(x)
        elif op == 'sel':
            out.append('S%d' % nm(a[0].name))
            go(a[1])
        elif op in ('div', 'mod', 'hexc'):
            go(a[0])
            out.append(str(a[1]))
        elif op == 'inset':
            go(a[0])
            out.append(str(a[1]))
        elif op == 'tab':
            out.append('t%d' % id(a[0]))
            go(a[1])
        elif op == 'app':
            out.append('f%d' % nm(a[0]))
            for x in a[1:-1]:
                go(x)
            out.append(str(a[-1]))
        else:
            for x in a:
                go(x)
        out.append(')')
        seen[t] = len(seen)
    for t in ts:
        go(t)
        out.append(';')
    return ' '.join(out)
