"""Unary constraints: conditions over one bounded leaf are decided by value sets, without the solver."""
from . import terms as X
from .terms import T

_memo = {}
LIM = 300


def leaf_dom(t):
    if t.op == 'sel' and t.a[0].allowed:
        return X.norm_ranges(t.a[0].allowed)
    return ((t.lo, t.hi),)


def inter(a, b):
    out = []
    for l1, h1 in a:
        for l2, h2 in b:
            l = l1 if l2 is None or (l1 is not None and l1 >= l2) else l2
            h = h1 if h2 is None or (h1 is not None and h1 <= h2) else h2
            if l is None or h is None or l <= h:
                out.append((l, h))
    return X.norm_ranges(out) if out else ()


def subset(a, b):
    return inter(a, b) == X.norm_ranges(a) if a else True


def leaves(t):
    """the single leaf term of t, or None"""
    found = None
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'app' or x.op == 'bvar':
            return None
        if x.op == 'var' or x.op == 'sel':
            if x.op == 'sel' and isinstance(x.a[1], T):
                return None
            if found is not None and found is not x:
                return None
            found = x
            continue
        stack.extend(X.children(x))
    return found


def unary(c):
    """(leaf, ranges) when c is exactly 'leaf in ranges', else None"""
    r = _memo.get(c, 0)
    if r != 0:
        return r
    r = _unary(c)
    _memo[c] = r
    return r


def _unary(c):
    vs = X.tvars(c)
    if len(vs) != 1:
        return None
    if c.op == 'inset' and c.a[0].op in ('var', 'sel') and not isinstance(c.a[0].a[1], T):
        return (c.a[0], X.norm_ranges(c.a[1]))
    if c.op in ('le0', 'eq0'):
        l = c.a[0]
        if l.op in ('var', 'sel'):
            k, t, k0 = 1, l, 0
        elif l.op == 'lin' and len(l.a[1]) == 1 and l.a[1][0][0].op in ('var', 'sel'):
            k0, t, k = l.a[0], l.a[1][0][0], l.a[1][0][1]
        else:
            t = None
        if t is not None and not (t.op == 'sel' and isinstance(t.a[1], T)):
            if c.op == 'eq0':
                if k0 % k:
                    return (t, ())
                v = -k0 // k
                return (t, ((v, v),))
            # k0 + k*t <= 0
            if k > 0:
                return (t, ((None, (-k0) // k),))
            return (t, ((_ceil(k0, -k), None),))
    if c.op == 'not':
        u = unary(c.a[0])
        if u is not None:
            return (u[0], X.complement(u[1]) if u[1] else ((None, None),))
        return None
    t = leaves(c)
    if t is None or t.lo is None or t.hi is None or t.hi - t.lo > LIM:
        return None
    key = t.a[0] if t.op == 'var' else (t.a[0].name, t.a[1])
    rs = []
    for v in range(t.lo, t.hi + 1):
        try:
            ok = X.ev(c, {key: v})
        except Exception:
            return None
        if ok:
            if rs and rs[-1][1] == v - 1:
                rs[-1] = (rs[-1][0], v)
            else:
                rs.append((v, v))
    return (t, tuple(rs))


def _ceil(a, b):
    """ceil(a / b) for b > 0"""
    return -((-a) // b)


def add(P, c):
    u = unary(c)
    if u is None:
        P.mixed |= X.tvars(c)
        return
    t, rs = u
    d = P.dom.get(t)
    if d is None:
        d = leaf_dom(t)
    P.dom[t] = inter(d, rs)


def quick(P, c):
    """True / False when decided, 'both' when both are feasible, None when unknown"""
    u = unary(c)
    if u is not None:
        return quick1(P, u[0], u[1])
    if c.op == 'not':
        r = quick(P, c.a[0])
        return (not r) if isinstance(r, bool) else r
    if c.op in ('or', 'and'):
        # group the parts by leaf: distinct leaves are independent
        neg = c.op == 'and'
        groups = {}
        for x in c.a:
            if not isinstance(x, T):
                return None
            u = unary(x)
            if u is None:
                return None
            t, rs = u
            if neg:
                rs = X.complement(rs) if rs else ((None, None),)
            g = groups.get(t)
            groups[t] = rs if g is None else (X.norm_ranges(tuple(g) + tuple(rs)) if g and rs else (g or rs))
        res = False
        for t, rs in groups.items():
            r = quick1(P, t, rs)
            if r is True:
                res = True
                break
            if r is None:
                res = None
            elif r == 'both' and res is False:
                res = 'both'
        return (not res) if neg and isinstance(res, bool) else res
    return None


def quick1(P, t, rs):
    d = P.dom.get(t)
    if d is None:
        d = leaf_dom(t)
    i = inter(d, rs) if rs else ()
    if not i:
        return False
    if i == X.norm_ranges(d):
        return True
    key = t.a[0] if t.op == 'var' else (t.a[0].name, t.a[1])
    if key in P.mixed or (t.op == 'sel' and (t.a[0].name, '*') in P.mixed):
        return None
    return 'both'


def values(P, t):
    """the feasible values of a leaf nothing else constrains, or None"""
    if t.op not in ('var', 'sel') or t.op == 'sel' and isinstance(t.a[1], T):
        return None
    key = t.a[0] if t.op == 'var' else (t.a[0].name, t.a[1])
    if key in P.mixed or (t.op == 'sel' and (t.a[0].name, '*') in P.mixed):
        return None
    d = P.dom.get(t)
    if d is None:
        d = leaf_dom(t)
    if not d or d[0][0] is None or d[-1][1] is None or sum(b - a + 1 for a, b in d) > 300:
        return None
    return [v for a, b in d for v in range(a, b + 1)]
