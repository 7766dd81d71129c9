"""Loops and comprehensions.

Concrete trip counts are unrolled completely (every iteration is executed).  Symbolic trip
counts fork per iteration, unless the harness gives the loop a contract (induct.py)."""
from . import terms as X
from .terms import T
from .values import *
from . import lib as Lb
from . import induct


def _brkcont():
    from .interp import Brk, Cont
    return Brk, Cont


def compile_while(C, n):
    E = C.E
    Brk, Cont = _brkcont()
    info = LoopInfo(n, C, 'while')
    test = C.expr(n['test'])
    body = C.block(n['body'])
    orelse = C.block(n['orelse']) if n.get('orelse') else None
    ln = n.get('l', 0)

    def run(fr):
        k = sym = 0
        if 'loops' in E.gh:
            inv = induct.find(E, info)
            if inv is not None and induct.applies(E, fr, inv, None):
                E.line = ln
                if induct.run(E, fr, info, inv, test, body, None, None) == 'exit' and orelse is not None:
                    orelse(fr)
                return
        while True:
            E.line = ln
            t = E.truth_term(test(fr))
            if isinstance(t, T):
                t = E.decide(t)
                sym += 1
            if not t:
                break
            k += 1
            if sym > E.MAXUNROLL or k > E.MAXUNROLL * 100:
                E.unsupported('loop without bound')
            try:
                body(fr)
            except Brk:
                return
            except Cont:
                pass
        if orelse is not None:
            orelse(fr)
    return run


def compile_for(C, n):
    E = C.E
    Brk, Cont = _brkcont()
    info = LoopInfo(n, C, 'for')
    it = C.expr(n['iter'])
    tgt = C.target(n['target'])
    body = C.block(n['body'])
    orelse = C.block(n['orelse']) if n.get('orelse') else None
    ln = n.get('l', 0)

    def run(fr):
        src = it(fr)
        E.line = ln
        iv = Lb.get_iter(E, src)
        native = isinstance(iv, PIter)
        nx = None if native else E.getattr(iv, 'next')
        k = 0
        if native and 'loops' in E.gh:
            inv = induct.find(E, info)
            if inv is not None and induct.applies(E, fr, inv, iv):
                if induct.run(E, fr, info, inv, None, body, tgt, iv) == 'exit' and orelse is not None:
                    orelse(fr)
                return
        lim = E.MAXUNROLL * 100
        if native and symbolic_len(E, iv):
            lim = E.MAXUNROLL
        while True:
            try:
                v = Lb.iter_next(E, iv) if native else E.call(nx, [], {})
            except PyExc as e:
                if e.obj.cls.name == 'StopIteration':
                    break
                raise
            k += 1
            if k > lim:
                E.unsupported('loop without bound')
            try:
                tgt(fr, v)
                body(fr)
            except Brk:
                return
            except Cont:
                pass
        if orelse is not None:
            orelse(fr)
    return run


def symbolic_len(E, iv):
    if iv.nextf is not None:
        if isinstance(iv.idx, tuple) and iv.idx[0] == 'enum':
            return symbolic_len(E, iv.idx[1])
        return False
    s = iv.src
    if s is None or isinstance(s, Tup):
        return False
    n = Lb.xr_len(E, s) if isinstance(s, XRange) else s.length()
    return isinstance(n, T)


class LoopInfo(object):
    def __init__(self, n, C, kind):
        self.node = n
        self.mod = C.mod
        self.qual = '.'.join(C.qual)
        self.line = n.get('l', 0)
        self.kind = kind
        self.ordinal = C.nloops
        C.nloops += 1
        from .interp import collect
        loc, glob = set(), set()
        collect([n['body'], n.get('target'), n.get('test')], loc, glob, [False], C)
        self.names = sorted(C.mangle(x) for x in loc - glob)


def map_chunks(E, seq, fn):
    """[fn(x) for x in seq] for a sequence of symbolic length when fn only changes between a
    character and its code; None if the sequence has a concrete length"""
    if not isinstance(seq, (Str, PList)) or not isinstance(seq.length(), T):
        return None
    kind = seq.kind if isinstance(seq, Str) else None
    out = []
    for c in Lb.seq_chunks(seq):
        if isinstance(c, (tuple, list)):
            out.append([fn(Str(kind, ((x,),)) if kind else x) for x in c])
            continue
        if not isinstance(c, Sl):
            return None
        P = E.P
        saved = (list(P.pc), dict(P.dom), set(P.mixed), set(P.known), len(P.trace))
        i = E.fresh('el', 0, None)
        E.assume(X.lt(i, c.n))
        v = c.at(i)
        code = X.sel(c.base, X.add(c.lo, i))
        E.epoch += 1
        EPOCH[0] = mark = E.epoch
        old = E.wlog
        E.wlog = log = []
        try:
            r = fn(Str(kind, ((v,),)) if kind else v)
        except PyExc:
            raise Unsupported('comprehension over a sequence of symbolic length: exception')
        finally:
            E.wlog = old
        if len(P.trace) != saved[4] or any(o.ep < mark for o in log):
            raise Unsupported('comprehension over a sequence of symbolic length')
        P.pc, P.dom, P.mixed, P.known = saved[:4]
        if r is code:
            out.append(Sl(c.base, c.lo, c.n))
        elif isinstance(r, Str) and len(r.ch) == 1 and isinstance(r.ch[0], tuple) and len(r.ch[0]) == 1 and r.ch[0][0] is code:
            out.append(Sl(c.base, c.lo, c.n, r.kind))
        else:
            raise Unsupported('comprehension over a sequence of symbolic length')
    return PList(out)


def compile_comp(C, n, kind):
    """list comprehension (variables leak into the frame), generator expression / set / dict
    comprehension (own frame, evaluated eagerly)"""
    E = C.E
    from .interp import Frame, Code, collect, idstr
    own = kind != 'list'
    sub = C
    if own:
        sub = type(C)(E, C.mod)
        sub.cls, sub.qual = C.cls, C.qual
        loc, glob, gen = set(), set(), [False]
        for g in n['generators']:
            collect(g['target'], loc, glob, gen, sub)
        code = Code()
        code.name = '<genexpr>'
        code.locals = frozenset(sub.mangle(x) for x in loc)
    first = C.expr(n['generators'][0]['iter'])
    gens = []
    for i, g in enumerate(n['generators']):
        gens.append((first if i == 0 else sub.expr(g['iter']), sub.target(g['target']), [sub.expr(c) for c in g['ifs']]))
    if kind == 'dict':
        kf, vf = sub.expr(n['key']), sub.expr(n['value'])
    else:
        elt = sub.expr(n['elt'])
    loc, glob, gen = set(), set(), [False]
    collect(n['generators'][0]['target'], loc, glob, gen, sub)
    tnames = sorted(sub.mangle(x) for x in loc)

    def run(fr):
        src = first(fr)
        f2 = fr
        if own:
            par = fr
            f2 = Frame({}, fr.glob, None if fr.code.name == '$module' and False else par, code)
            f2.fn = fr.fn
            f2.cls = None
        if kind in ('list', 'gen') and len(gens) == 1 and not gens[0][2]:
            tg = gens[0][1]

            def one(x):
                tg(f2, x)
                return elt(f2)
            r = map_chunks(E, src, one)
            if r is not None:
                for v in tnames:
                    f2.loc[v] = POISON
                return PIter(r) if kind == 'gen' else r
        out = [] if kind in ('list', 'gen') else (PDict() if kind == 'dict' else PSet())

        def rec(i):
            if i == len(gens):
                if kind == 'dict':
                    Lb.dict_set(E, out, kf(f2), vf(f2))
                elif kind == 'set':
                    v = elt(f2)
                    Lb.dict_set(E, out, v, v)
                else:
                    out.append(elt(f2))
                return
            itf, tg, ifs = gens[i]
            iv = Lb.get_iter(E, src if i == 0 else itf(f2))
            nx = None if isinstance(iv, PIter) else E.getattr(iv, 'next')
            k = 0
            while True:
                try:
                    v = Lb.iter_next(E, iv) if nx is None else E.call(nx, [], {})
                except PyExc as e:
                    if e.obj.cls.name == 'StopIteration':
                        break
                    raise
                k += 1
                if k > E.MAXUNROLL * 100:
                    E.unsupported('comprehension without bound')
                tg(f2, v)
                if all(E.truth(c(f2)) for c in ifs):
                    rec(i + 1)
        rec(0)
        if kind == 'list':
            return L(out)
        if kind == 'gen':
            return PIter(L(out))
        return out
    return run
