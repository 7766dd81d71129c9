"""Discharging obligations: independence slicing, caching, lowering to z3 (BV or Int)."""
import time
import z3
from . import terms as X
from .terms import T

STATS = {'queries': 0, 'solver_calls': 0, 'cache_hits': 0, 'solver_time': 0.0, 'unknown': 0,
         'trivial': 0, 'bv': 0, 'int': 0, 'cvc5': 0, 'cvc5_agree': 0}
_cache = {}
TIMEOUT_MS = 10000
CROSS = False          # thorough tier: also ask cvc5 for every obligation


class Low(object):
    def __init__(self, width):
        self.w = width
        self.memo = {}
        self.side = []
        self.fns = {}
        self.ctx = None

    def num(self, n):
        return z3.BitVecVal(n, self.w) if self.w else z3.IntVal(n)

    def sort(self):
        return z3.BitVecSort(self.w) if self.w else z3.IntSort()

    def bound(self, z, lo, hi):
        if lo is not None:
            self.side.append(z >= self.num(lo))
        if hi is not None:
            self.side.append(z <= self.num(hi))

    def fn(self, name, n):
        k = (name, n)
        if k not in self.fns:
            self.fns[k] = z3.Function('f!%s' % (name,), *([self.sort()] * (n + 1)))
        return self.fns[k]

    def low(self, t):
        if not isinstance(t, T):
            if isinstance(t, bool):
                return z3.BoolVal(t)
            return self.num(t)
        m = self.memo.get(t)
        if m is not None:
            return m
        # iterative post-order
        stack = [t]
        while stack:
            x = stack[-1]
            if x in self.memo:
                stack.pop()
                continue
            pend = [c for c in X.children(x) if c not in self.memo]
            if pend:
                stack.extend(pend)
                continue
            self.memo[x] = self._one(x)
            stack.pop()
        return self.memo[t]

    def _one(self, t):
        op, a = t.op, t.a
        g = self.low
        if op == 'var':
            z = z3.BitVec(a[0], self.w) if self.w else z3.Int(a[0])
            self.bound(z, t.lo, t.hi)
            return z
        if op == 'bvar':
            return z3.Bool(a[0])
        if op == 'lin':
            r = None
            if a[0]:
                r = self.num(a[0])
            for x, k in a[1]:
                m = g(x) if k == 1 else g(x) * self.num(k)
                r = m if r is None else r + m
            return r
        if op == 'div':
            x, m = a
            if self.w:
                if m & (m - 1) == 0:
                    return g(x) >> (m.bit_length() - 1)
                if x.lo >= 0:
                    return z3.UDiv(g(x), self.num(m))
                raise NotBV()
            return g(x) / self.num(m)
        if op == 'mod':
            x, m = a
            if self.w:
                if m & (m - 1) == 0:
                    return g(x) & self.num(m - 1)
                if x.lo >= 0:
                    return z3.URem(g(x), self.num(m))
                raise NotBV()
            return g(x) % self.num(m)
        if op == 'mul':
            return g(a[0]) * g(a[1])
        if op == 'ite':
            return z3.If(g(a[0]), g(a[1]), g(a[2]))
        if op in ('band', 'bor', 'bxor'):
            if self.w:
                x, y = g(a[0]), g(a[1])
                return x & y if op == 'band' else x | y if op == 'bor' else x ^ y
            w = max(X.hi_of(a[0]), X.hi_of(a[1])).bit_length() + 1
            x, y = z3.Int2BV(g(a[0]), w), z3.Int2BV(g(a[1]), w)
            return z3.BV2Int(x & y if op == 'band' else x | y if op == 'bor' else x ^ y)
        if op == 'hexc':
            x = g(a[0])
            return z3.If(x <= self.num(9), x + self.num(48), x + self.num(55 if a[1] else 87))
        if op == 'tab':
            tb = a[0]
            x = g(a[1])
            r = self.num(tb.default if tb.default is not None else tb.lo)
            lo, hi = X.lo_of(a[1]), X.hi_of(a[1])
            # group runs with constant offset
            items = sorted((k, v) for k, v in tb.items.items() if (lo is None or k >= lo) and (hi is None or k <= hi))
            i = 0
            while i < len(items):
                j = i
                while j + 1 < len(items) and items[j + 1][0] == items[j][0] + 1 and items[j + 1][1] == items[j][1] + 1:
                    j += 1
                k0, v0 = items[i]
                if j > i:
                    r = z3.If(z3.And(x >= self.num(k0), x <= self.num(items[j][0])), x + self.num(v0 - k0), r)
                else:
                    r = z3.If(x == self.num(k0), self.num(v0), r)
                i = j + 1
            return r
        if op == 'sel':
            z = self.fn('B!' + a[0].name, 1)(g(a[1]))
            self.bound(z, t.lo, t.hi)
            if a[0].allowed:
                self.side.append(self.rng(z, a[0].allowed))
            return z
        if op == 'app':
            args = a[1:-1]
            if args:
                z = self.fn('F!' + a[0], len(args))(*[g(x) for x in args])
            else:
                z = z3.BitVec('F!' + a[0], self.w) if self.w else z3.Int('F!' + a[0])
            self.bound(z, t.lo, t.hi)
            return z
        if op == 'not':
            return z3.Not(g(a[0]))
        if op == 'and':
            return z3.And([g(x) for x in a])
        if op == 'or':
            return z3.Or([g(x) for x in a])
        if op == 'le0':
            # move negative coefficients to the right side
            return g(a[0]) <= self.num(0)
        if op == 'eq0':
            return g(a[0]) == self.num(0)
        if op == 'inset':
            return self.rng(g(a[0]), a[1])
        raise RuntimeError(op)

    def rng(self, x, rs):
        ors = []
        for lo, hi in rs:
            if lo is not None and lo == hi:
                ors.append(x == self.num(lo))
            else:
                c = []
                if lo is not None:
                    c.append(x >= self.num(lo))
                if hi is not None:
                    c.append(x <= self.num(hi))
                ors.append(z3.And(c))
        return z3.Or(ors)


class NotBV(Exception):
    pass


def width(ts):
    """bit width sufficient for a faithful BV lowering, or None"""
    m = 1
    seen = set()
    stack = [t for t in ts if isinstance(t, T)]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if not t.isb:
            if t.lo is None or t.hi is None:
                return None
            m = max(m, abs(t.lo), abs(t.hi))
            if t.op == 'lin':
                # partial sums bounded by the sum of magnitudes
                m = max(m, abs(t.a[0]) + sum(abs(k) * max(abs(x.lo), abs(x.hi)) for x, k in t.a[1] if x.lo is not None and x.hi is not None))
            elif t.op in ('div', 'mod'):
                m = max(m, t.a[1])
            elif t.op == 'tab':
                m = max([m] + [abs(k) for k in t.a[0].items] + [abs(v) for v in t.a[0].items.values()])
            elif t.op == 'hexc':
                m = max(m, 128)
            elif t.op == 'mul':
                pass
        elif t.op == 'inset':
            for lo, hi in t.a[1]:
                m = max(m, abs(lo or 0), abs(hi or 0))
        stack.extend(X.children(t))
    w = m.bit_length() + 2
    return w if w <= 70 else None


def slice_(assertions, goal_vars):
    """those assertions transitively sharing variables with goal_vars"""
    if not goal_vars:
        return list(assertions)
    rel = set(goal_vars)
    stars = {k[0] for k in rel if isinstance(k, tuple) and k[1] == '*'}
    left = [(a, X.tvars(a)) for a in assertions]
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for a, vs in left:
            hit = False
            for v in vs:
                if v in rel:
                    hit = True
                    break
                if isinstance(v, tuple) and (v[0] in stars or (v[1] == '*' and any(isinstance(r, tuple) and r[0] == v[0] for r in rel))):
                    hit = True
                    break
            if hit:
                out.append(a)
                rel |= vs
                stars |= {k[0] for k in vs if isinstance(k, tuple) and k[1] == '*'}
                changed = True
            else:
                rest.append((a, vs))
        left = rest
    # keep original order for stable cache keys
    s = set(out)
    return [a for a in assertions if a in s]


def check_sat(assertions, want_model=False, timeout=None, hints=()):
    """'sat' / 'unsat' / 'unknown' (+ model env)"""
    STATS['queries'] += 1
    ts = []
    for a in assertions:
        if not isinstance(a, T):
            if not a:
                STATS['trivial'] += 1
                return ('unsat', None)
            continue
        if a.op == 'and':
            ts.extend(a.a)
        else:
            ts.append(a)
    if not ts:
        STATS['trivial'] += 1
        return ('sat', {} if want_model else None)
    key = None
    if not want_model:
        key = X.ser(ts)
        r = _cache.get(key)
        if r is not None:
            STATS['cache_hits'] += 1
            return (r, None)
    t0 = time.time()
    timeout = timeout or TIMEOUT_MS
    w = width(ts)
    r = 'unknown'
    model = None
    modes = ([w] if w else []) + [0]
    for i, mode in enumerate(modes):
        try:
            lw = Low(mode)
            zs = [lw.low(t) for t in ts]
        except NotBV:
            continue
        s = z3.SolverFor('QF_UFBV') if mode else z3.Solver()
        to = timeout if (len(modes) == 1 or i == 1) else max(1000, timeout // 2)
        s.set('timeout', to)
        for z in lw.side:
            s.add(z)
        for z in zs:
            s.add(z)
        STATS['solver_calls'] += 1
        STATS['bv' if mode else 'int'] += 1
        c = s.check()
        if c == z3.sat:
            r = 'sat'
            if want_model:
                model = extract(s.model(), lw)
            break
        if c == z3.unsat:
            r = 'unsat'
            break
    STATS['solver_time'] += time.time() - t0
    if r == 'unknown':
        STATS['unknown'] += 1
    elif key is not None:
        _cache[key] = r
    return (r, model)


def smt2_of(assertions):
    ts = [a for a in assertions if isinstance(a, T)]
    w = width(ts)
    for mode in ([w] if w else []) + [0]:
        try:
            lw = Low(mode)
            zs = [lw.low(t) for t in ts]
        except NotBV:
            continue
        s = z3.Solver()
        for z in lw.side + zs:
            s.add(z)
        return s.to_smt2(), mode
    return None, None


def cvc5_check(assertions, timeout=10000):
    """second opinion by cvc5; returns 'sat'/'unsat'/'unknown'"""
    import subprocess
    txt, mode = smt2_of(assertions)
    if txt is None:
        return 'unknown'
    txt = '(set-logic ALL)\n' + '\n'.join(l for l in txt.splitlines() if not l.startswith('(set-info'))
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout], input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout / 1000.0 + 5)
    except Exception:
        return 'unknown'
    out = p.stdout.decode().strip().splitlines()
    return out[0] if out and out[0] in ('sat', 'unsat') else 'unknown'


def extract(m, lw):
    env = {}

    def val(z):
        v = m.eval(z, model_completion=True)
        if z3.is_bv_value(v):
            return v.as_signed_long()
        if z3.is_int_value(v):
            return v.as_long()
        return None
    for t, z in list(lw.memo.items()):
        if t.op == 'var':
            env[t.a[0]] = val(z)
        elif t.op == 'bvar':
            env[t.a[0]] = bool(z3.is_true(m.eval(z, model_completion=True)))
        elif t.op == 'sel':
            i = val(lw.low(t.a[1]))
            env[(t.a[0].name, i)] = val(z)
        elif t.op == 'app':
            args = tuple(val(lw.low(x)) for x in t.a[1:-1])
            env[(t.a[0], args)] = val(z)
    return env
