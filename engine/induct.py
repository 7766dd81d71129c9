"""Loop contracts (invariants supplied by the harness) and unbounded sequences.

A contract for the k-th loop of a function maps the iteration number i to the state at the loop
head:  a dict {variable or attribute path: value}, with '' for a condition on i.  The loop is
then cut: the invariant is established at i = 0, one arbitrary iteration from the invariant at
i must re-establish it at i + 1 (and may modify nothing else), and the code after the loop is
executed from the invariant together with the exit condition.  A contract that does not fit
the code makes the path undecided, never refuted."""
from . import terms as X
from .terms import T
from .values import *
from . import lib as Lb
from . import solver as SV


class Flat(Op):
    """concatenation of f(x) for the n0 elements base[lo ..]; its length is PL(lo+n0)-PL(lo)
    with PL an uninterpreted function of the index (the prefix length)"""
    isflat = True
    __slots__ = ('f', 'base', 'lo', 'n0', 'wrap', 'pl', 'kind', 'E')

    def __init__(self, E, f, base, lo, n0, wrap, kind):
        key = ('PL', f.qual, base)
        pl = E.plbases.get(key)
        if pl is None:
            pl = E.plbases[key] = X.Base('PL!%s!%s' % (f.name, base.name), 0, None, None)
        Op.__init__(self, 'flat', (f.qual, base, lo, n0, wrap), 0)
        self.E, self.f, self.base, self.lo, self.n0, self.wrap, self.pl, self.kind = E, f, base, lo, n0, wrap, pl, kind
        hi = X.add(lo, n0)
        a = X.sel(pl, lo)
        b = X.sel(pl, hi)
        self.n = X.sub(b, a)
        E.assume(X.eq(X.sel(pl, 0), 0))
        if not isinstance(n0, T) and n0 >= 0 or isinstance(n0, T) and E.valid(X.le(0, n0)):
            E.assume(X.le(0, self.n))       # lengths are not negative
        else:
            E.unsupported('run of negative length')

    def part(self, a, b):
        """elements a .. b of the run (element numbers)"""
        return Flat(self.E, self.f, self.base, X.add(self.lo, a), X.sub(b, a), self.wrap, self.kind)

    def elem(self, a):
        """chunks of f(element a), with the defining equation of PL"""
        E = self.E
        if not E.valid(X.and_(X.le(0, a), X.lt(a, self.n0))):
            E.unsupported('element of a run')
        r = apply1(E, self.f, self.base, X.add(self.lo, a), self.wrap)
        one = self.part(a, X.add(a, 1))
        E.assume(X.eq(one.n, chlen(r)))
        return r

    def __repr__(self):
        return 'Flat(%s,%s,%s,%s)' % (self.f.name, self.base.name, self.lo, self.n0)


def apply1(E, f, base, i, wrap):
    v = X.sel(base, i)
    if wrap:
        v = Str(wrap, ((v,),))
    return chunks_of(E.call(f, [v], {}))


def chunks_of(v):
    if isinstance(v, Str):
        return tuple(v.ch)
    return tuple(tuple(c) if isinstance(c, list) else c for c in v.ch)


def flat(E, f, seq, kind):
    out = []
    wrap = seq.kind if isinstance(seq, Str) else None
    for c in seq.ch:
        if isinstance(c, (tuple, list)):
            for x in c:
                out.extend(chunks_of(E.call(f, [Str(wrap, ((x,),)) if wrap else x], {})))
        elif isinstance(c, Sl):
            out.append(Flat(E, f, c.base, c.lo, c.n, c.wrap or wrap, kind))
        else:
            E.unsupported('flat over %r' % (c,))
    out = norm(out)
    if kind == 'l':
        return PList([list(c) if isinstance(c, tuple) else c for c in out])
    return Str(kind, out)


def unfold(E, f, seq, i, kind):
    """flat(f, seq) written as flat(f, seq[:i]) + f(seq[i]) + flat(f, seq[i+1:])"""
    if len(seq.ch) != 1 or not isinstance(seq.ch[0], Sl):
        E.unsupported('unfold')
    c = seq.ch[0]
    wrap = seq.kind if isinstance(seq, Str) else c.wrap
    fl = Flat(E, f, c.base, c.lo, c.n, wrap, kind)
    mid = fl.elem(i)
    out = norm((fl.part(0, i),) + tuple(mid) + (fl.part(X.add(i, 1), c.n),))
    if kind == 'l':
        return PList([list(x) if isinstance(x, tuple) else x for x in out])
    return Str(kind, out)


def joined(E, s):
    """a list of strings whose concatenation is s"""
    n = E.fresh('pieces', 0, None)
    return PList([Op('joined', (s,), n, 'chars')])


def anylist(E):
    return PList([Op('any', (E.fresh('anylist', 0, None),), E.fresh('anylen', 0, None), 'chars')])


class IterAt(object):
    """an iterator over seq, pos elements consumed"""

    def __init__(self, seq, pos):
        self.seq, self.pos = seq, pos


# ------------------------------------------------------------------ alignment of Flat runs
def align_flat(E, ca, cb):
    """one alignment step for chunk lists starting with a Flat run; False if none applies"""
    x, y = ca[0], cb[0]
    fx, fy = isinstance(x, Flat), isinstance(y, Flat)
    if fx and E.valid(X.le(x.n0, 0)):
        ca.pop(0)
        return True
    if fy and E.valid(X.le(y.n0, 0)):
        cb.pop(0)
        return True
    if fx and fy and x.f.qual == y.f.qual and x.base is y.base and x.wrap == y.wrap and E.valid(X.eq(x.lo, y.lo)):
        if E.valid(X.eq(x.n0, y.n0)):
            ca.pop(0)
            cb.pop(0)
            return True
        if E.valid(X.le(x.n0, y.n0)):
            cb[0:1] = [Flat(E, y.f, x.base, x.lo, x.n0, y.wrap, y.kind), y.part(x.n0, y.n0)]
            return True
        if E.valid(X.le(y.n0, x.n0)):
            ca[0:1] = [Flat(E, x.f, y.base, y.lo, y.n0, x.wrap, x.kind), x.part(y.n0, x.n0)]
            return True
        return False
    for l, f in ((ca, fx), (cb, fy)):
        if f and isinstance((cb if l is ca else ca)[0], tuple):
            z = l[0]
            if E.valid(X.le(1, z.n0)):
                l[0:1] = list(z.elem(0)) + [z.part(1, z.n0)]
                merge(l)
                return True
    return False


def expand_one(E, c):
    """length of a run of one element (with its defining equation)"""
    if E.valid(X.eq(c.n0, 1)):
        return chlen(c.elem(0))
    return None


def merge(l):
    l[:] = list(norm(l))


# ------------------------------------------------------------------ the rule
def find(E, info):
    d = E.gh.get('loops')
    if not d:
        return None
    return d.get((info.mod + '.' + info.qual, info.ordinal))


def ghost(E, f, a):
    """a function of a contract: an exception in it is no exception of the program"""
    try:
        return E.call(f, a, {})
    except PyExc as e:
        m = e.obj.d.get('message')
        E.unsupported('loop contract: %s %s' % (e.obj.cls.name, m.py() if isinstance(m, Str) else ''))


def spec_of(E, fr, inv, i, prove=None):
    inv, upto, free, pre, ent = inv
    ea = [] if ent is None else [ent]
    if callable_(upto):
        upto = ghost(E, upto, list(ea))
    if upto is not None:
        c = X.le(i, upto)
        if prove is None:
            E.assume_feasible(c)
        elif not E.valid(c):
            E.unsupported('loop contract of %s not %s: number of iterations' % (prove[1], prove[0]))
    if prove is None:
        fv = [E.fresh(x, None, None) for x in free]
    else:
        fv = [free_value(E, lookup(E, fr, x)[2]) for x in free]
        if not all(Lb.is_num(x) for x in fv):
            E.unsupported('loop contract of %s not %s: kind of variable' % (prove[1], prove[0]))
        fv = [Lb.toint(x) for x in fv]
    if pre is not None:
        c = E.truth_term(ghost(E, pre, ea + [i] + fv))
        if prove is None:
            E.assume_feasible(c)
        elif not E.valid(c):
            E.unsupported('loop contract of %s not %s: condition' % (prove[1], prove[0]))
    d = ghost(E, inv, ea + [i] + fv)
    out = {x: v for x, v in zip(free, fv) if Lb.is_num(lookup(E, fr, x)[2])}
    cond = True
    for k, v in d.d.values():
        k = k.py()
        if k == '':
            cond = E.truth_term(v)
        else:
            out[k] = v
    return out, cond


def callable_(f):
    return isinstance(f, (PFunc, BI, Bound))


def free_value(E, v):
    """a free variable: an integer, the position of an iterator, or the length of a list"""
    if isinstance(v, PList):
        return v.length()
    if isinstance(v, PIter):
        if v.nextf is not None or v.src is None:
            E.unsupported('loop contract: iterator in another state')
        return v.idx
    return v


def lookup(E, fr, path):
    if isinstance(path, Tup):
        return None, None, Tup([lookup(E, fr, x.py())[2] for x in path.items])
    p = path.split('.')
    v = fr.loc.get(p[0], POISON)
    if v is POISON:
        q = fr.parent
        while q is not None and v is POISON:
            v = q.loc.get(p[0], POISON)
            q = q.parent
    if v is POISON:
        E.unsupported('loop contract: no variable %s' % p[0])
    own = None
    for a in p[1:]:
        own = v
        if not isinstance(v, PObj) or a not in v.d:
            E.unsupported('loop contract: no attribute %s' % path)
        v = v.d[a]
    return own, p[-1], v


def same(E, act, exp):
    """the described value equals the actual one (proved)"""
    if isinstance(exp, Marker):
        if exp.kind == 'dict':
            return isinstance(act, PDict) and not isinstance(act, PSet)
        if exp.kind == 'text':
            return isinstance(act, Str) and E.valid(X.not_(E.truth_term(Lb.eq(E, act, exp.arg))))
        return act is not POISON
    if isinstance(exp, IterAt):
        if isinstance(act, PIter) and act.nextf is None and act.src is None:
            # exhausted: like an iterator at the end (of a sequence that does not grow later)
            return E.valid(X.eq(exp.pos, chlen(Lb.seq_chunks(exp.seq))))
        if not isinstance(act, PIter) or act.nextf is not None or act.src is None or isinstance(act.src, Tup):
            return False
        c = Lb.seq_eq(E, Lb.seq_chunks(act.src), Lb.seq_chunks(exp.seq))
        return E.valid(E.truth_term(c)) and E.valid(X.eq(act.idx, exp.pos))
    if isinstance(exp, PList):
        if len(exp.ch) == 1 and isinstance(exp.ch[0], Op) and exp.ch[0].tag == 'any':
            return isinstance(act, PList)
        if len(exp.ch) == 1 and isinstance(exp.ch[0], Op) and exp.ch[0].tag == 'joined':
            if not isinstance(act, PList) or isinstance(act, PArr):
                return False
            s = exp.ch[0].args[0]
            from . import libmethods as LM
            j = LM.join(E, Str(s.kind, ()), act)
            if j.kind != s.kind:
                return False
            return prove_eq(E, j.ch, s.ch)
        if type(act) is not type(exp):
            return False
        return prove_eq(E, act.ch, exp.ch)
    if isinstance(exp, Str):
        if not isinstance(act, Str) or act.kind != exp.kind:
            return False
        return prove_eq(E, act.ch, exp.ch)
    if Lb.is_num(exp):
        return Lb.is_num(act) and E.valid(X.eq(Lb.toint(act), Lb.toint(exp)))
    if isinstance(exp, PDict) or isinstance(exp, Tup):
        return E.valid(E.truth_term(Lb.eq(E, act, exp)))
    return act is exp


def prove_eq(E, a, b):
    old = getattr(E, 'skolem_ok', False)
    E.skolem_ok = True
    try:
        c = Lb.seq_eq(E, a, b)
    finally:
        E.skolem_ok = old
    return E.valid(E.truth_term(c))


def matches(E, fr, inv, i, what, name):
    spec, cond = spec_of(E, fr, inv, i, (what, name))
    bad = None
    if not E.valid(cond):
        bad = 'condition'
    else:
        for k, exp in sorted(spec.items()):
            own, last, act = lookup(E, fr, k)
            if not same(E, act, exp):
                bad = k
                break
    if bad is not None:
        E.unsupported('loop contract of %s not %s: %s' % (name, what, bad))
    if what == 'preserved' and SV.check_sat(list(E.P.pc))[0] == 'unsat':
        raise Stop('infeasible')        # counts for nothing
    o = E.obl.setdefault('loop contract of %s %s' % (name, what), [0, 0])
    n = len(spec) + 1
    o[0] += n
    o[1] += n
    return spec


def havoc(E, fr, spec, names):
    """the state at the head of an arbitrary iteration; returns the objects the contract owns"""
    owned = []
    for k, exp in sorted(spec.items()):
        if isinstance(exp, Marker) and exp.kind == 'value' and k in names:
            fr.loc[k] = Opaque()        # may not have had a value before the loop
            continue
        own, last, act = lookup(E, fr, k)
        if isinstance(exp, Marker):
            if exp.kind == 'dict':
                E.touch(act)
                act.d = AnyD()
                owned.append(act)
                continue
            exp = Opaque()
            if spec[k].kind == 'text':
                exp = some_text(E, spec[k].arg.kind)
                E.assume(X.not_(E.truth_term(Lb.eq(E, exp, spec[k].arg))))
            if own is not None:
                E.setattr(own, last, exp)
            else:
                setvar(fr, last, exp)
        elif isinstance(exp, IterAt):
            E.touch(act)
            if act.src is None:
                act.src = exp.seq
            act.idx = exp.pos
            owned.append(act)
        elif isinstance(exp, PList) and isinstance(act, PList):
            ch = [list(c) if isinstance(c, (tuple, list)) else c for c in exp.ch]
            E.touch(act)
            if own is None and last in names:
                # may be rebound or changed in place: nothing is known about the old object
                act.ch = anylist(E).ch
                new = PArr(ch, act.tc) if isinstance(act, PArr) else PList(ch)
                setvar(fr, last, new)
                owned.append(new)
            else:
                act.ch = ch
                owned.append(act)
        elif isinstance(exp, (PDict, PObj)):
            E.unsupported('loop contract: %s' % k)
        elif own is not None:
            E.setattr(own, last, exp)
        else:
            setvar(fr, last, exp)
    for n in names:
        if n not in spec:
            fr.loc[n] = POISON
    return owned


def some_text(E, kind):
    return Str(kind, (Sl(X.Base(E.fresh('anytext', 0, None).a[0], 0, 255, None), 0, E.fresh('anylen', 0, None)),))


def setvar(fr, n, v):
    if n not in fr.loc:
        raise Unsupported('loop contract: variable %s of an outer function' % n)
    fr.loc[n] = v


def lists(E, fr, spec):
    return {k: lookup(E, fr, k)[2] for k, v in spec.items() if isinstance(v, (PList, IterAt)) and '.' in k or isinstance(v, Marker) and v.kind == 'dict'}


def applies(E, fr, inv, iv):
    """whether a contract is for this execution of the loop (a contract for loops of symbolic
    length leaves the others to complete execution)"""
    if inv[5] is None:
        return True
    if iv is not None:
        return isinstance(iter_len(E, iv), T)
    ea = [] if inv[4] is None else [ghost(E, inv[4][1], [lookup(E, fr, inv[4][0])[2]])]
    return isinstance(ghost(E, inv[1], ea) if callable_(inv[1]) else inv[1], T)


def run(E, fr, info, inv, test, body, tgt, iv):
    """executes a loop by its contract; returns 'exit' or 'break'"""
    from .interp import Brk, Cont
    name = '%s.%s' % (info.mod, info.qual) + ('' if not info.ordinal else '#%d' % info.ordinal)
    if iv is not None:
        pos = iter_pos(E, iv)
        if pos is None or not E.valid(X.eq(pos, 0)):
            E.unsupported('loop contract of %s: iterator in use' % name)
    ent = inv[4]
    if ent is not None:
        ent = ghost(E, ent[1], [lookup(E, fr, ent[0])[2]])
    inv = inv[:4] + (ent,)
    matches(E, fr, inv, 0, 'established', name)
    E.loops_used.add(name)
    i = E.fresh('it', 0, None)
    n = None
    if iv is not None:
        n = iter_len(E, iv)
        E.assume_feasible(X.le(i, n))
    spec, cond = spec_of(E, fr, inv, i)
    E.assume_feasible(cond)
    owned = havoc(E, fr, spec, info.names)
    if iv is not None:
        set_pos(E, iv, i)
        src = iter_src(iv)
        owned += iter_objs(iv)
        try:
            v = Lb.iter_next(E, iv)
        except PyExc as e:
            if e.obj.cls.name == 'StopIteration':
                at_end(E, fr, info, inv, i, n)
                return 'exit'
            raise
    elif not E.truth(test(fr)):
        up = inv[1]
        if callable_(up):
            up = ghost(E, up, [] if ent is None else [ent])
        at_end(E, fr, info, inv, i, up)
        return 'exit'
    owners = []
    for k in sorted(spec):
        own, last, act = lookup(E, fr, k)
        if own is not None and all(own is not p for p, d in owners):
            owners.append((own, dict(own.d)))
    ls = lists(E, fr, spec)
    gh = {k: (dict(v) if isinstance(v, dict) else v) for k, v in E.gh.items()}
    # objects created from here on carry a later epoch
    E.epoch += 1
    EPOCH[0] = mark = E.epoch
    old = E.wlog
    E.wlog = log = []
    try:
        if iv is not None:
            tgt(fr, v)
        body(fr)
    except Brk:
        return 'break'
    except Cont:
        pass
    finally:
        E.wlog = old
        if old is not None:
            old.extend(log)
    ids = {id(o) for o in owned}
    for own, d in owners:
        ids.add(id(own))
    for o in log:
        if id(o) not in ids and o.ep < mark:
            E.unsupported('loop contract of %s: modifies %s' % (name, o.name if isinstance(o, PModule) else Lb.tname(o)))
    if not attr_frame(E, owners, fr, spec):
        E.unsupported('loop contract of %s: other attributes modified' % name)
    for k, v in ls.items():
        if lookup(E, fr, k)[2] is not v:
            E.unsupported('loop contract of %s: %s rebound' % (name, k))
    if gh != {k: (dict(v) if isinstance(v, dict) else v) for k, v in E.gh.items()}:
        E.unsupported('loop contract of %s: files modified' % name)
    if iv is not None and (iter_src(iv) is not src or not E.valid(X.eq(iter_pos(E, iv), X.add(i, 1)))):
        E.unsupported('loop contract of %s: iterator advanced' % name)
    matches(E, fr, inv, X.add(i, 1), 'preserved', name)
    raise Stop('loop step')


def at_end(E, fr, info, inv, i, n):
    """the state after a loop that only ends after its n-th iteration, in terms of n"""
    if n is None or inv[2] or not E.valid(X.eq(i, n)):
        return
    spec, cond = spec_of(E, fr, inv, n)
    havoc(E, fr, {k: v for k, v in spec.items() if not isinstance(v, Marker)}, [x for x in info.names if x in spec and not isinstance(spec[x], Marker)])


def attr_frame(E, before, fr, spec):
    """attributes of the described owners other than the described ones are unchanged"""
    for own, d in before:
        keep = {k.split('.')[-1] for k in spec if '.' in k and lookup(E, fr, k)[0] is own}
        if set(own.d) != set(d):
            return False
        for a, v in d.items():
            if a not in keep and own.d.get(a) is not v:
                return False
    return True


def iter_objs(iv):
    if isinstance(iv.idx, tuple):
        return [iv, iv.idx[1], iv.idx[2]]
    return [iv]


def iter_src(iv):
    return iv.idx[1].src if isinstance(iv.idx, tuple) else iv.src


def iter_pos(E, iv):
    if isinstance(iv.idx, tuple):
        return iv.idx[1].idx if iv.idx[0] == 'enum' and iv.idx[1].src is not None else None
    if iv.nextf is not None or iv.src is None:
        return None
    return iv.idx


def iter_len(E, iv):
    s = iter_src(iv)
    if isinstance(s, Tup):
        return len(s.items)
    return Lb.xr_len(E, s) if isinstance(s, XRange) else s.length()


def set_pos(E, iv, i):
    if isinstance(iv.idx, tuple):
        inner, cell = iv.idx[1], iv.idx[2]
        E.touch(inner)
        E.touch(cell)
        cell.idx = X.add(cell.idx, i)
        inner.idx = i
    else:
        E.touch(iv)
        iv.idx = i


# ------------------------------------------------------------------ harness module
def vp_functions():
    def loop(E, a, k):
        E.gh.setdefault('loops', {})[(a[0].py(), k.get('k', a[2] if len(a) > 2 else 0))] = (a[1] if len(a) > 1 else k['inv'], k.get('upto'), [x.py() for x in k['free'].items()] if 'free' in k else [],
                                                                                      k.get('cond'), (k['entry'].items[0] if isinstance(k['entry'].items[0], Tup) else k['entry'].items[0].py(), k['entry'].items[1]) if 'entry' in k else None, k.get('only'))

    def kind(a, k, n):
        v = k.get('kind', a[n] if len(a) > n else None)
        return v.py() if v is not None else 's'

    def chars(E, a, k):
        """characters a .. b of an arbitrary text, one slot (of 0 to 2 code units) per number"""
        b = E.plbases.get('slot')
        if b is None:
            b = E.plbases['slot'] = X.Base('slot', 0, 2, None)
        return Str('u', norm([Op('slot', (i,), X.sel(b, i), (0, 0xffff)) for i in range(E.concretize(a[0]), E.concretize(a[1]))]))

    def needs(E, a, k):
        """precondition of a contract: anything else is out of the verifier's reach"""
        if not E.valid(E.truth_term(a[0])):
            E.unsupported('precondition of a contract: %s' % a[1].py())

    def fold(E, a, k):
        """ghost function F(0) = init, F(t + 1) = step(t, F(t)); the equation of F(t) is known
        wherever F(t) is mentioned"""
        name, init, step = a[0].py(), a[1], a[2]
        key = ('fold', name)
        b = E.plbases.get(key)
        if b is None:
            b = E.plbases[key] = X.Base('F!' + name, None, None, None)

        def F(E, a, k):
            t = a[0]
            if not isinstance(t, T) and t == 0 or isinstance(t, T) and E.valid(X.eq(t, 0)):
                return init
            r = X.sel(b, t)
            if not E.valid(X.le(0, t)):
                E.unsupported('ghost function %s of a negative number' % name)
            if E.decide(X.le(1, t)):
                p = X.sub(t, 1)
                q = X.sel(b, p) if not E.valid(X.eq(p, 0)) else init
                if isinstance(q, T) and E.valid(X.le(p, 0)):
                    q = init
                E.assume(X.eq(r, Lb.toint(E.call(step, [p, q], {}))))
                if isinstance(q, T):
                    E.assume(X.or_(X.not_(X.eq(p, 0)), X.eq(q, init)))
            else:
                E.assume(X.eq(r, init))
            return r
        return BI(name, F)

    def lemma(E, a, k):
        """proves P(j) for lo <= j <= hi by induction; the result makes P(j) known for one j"""
        name, P, lo, hi = a[0].py(), a[1], a[2], a[3]
        P0 = E.P
        saved = (list(P0.pc), dict(P0.dom), set(P0.mixed), set(P0.known))

        def prove(what, c):
            if not E.valid(c):
                E.unsupported('lemma %s: %s' % (name, what))
            o = E.obl.setdefault('lemma: ' + name, [0, 0])
            o[0] += 1
            o[1] += 1
        if not E.valid(X.lt(hi, lo)):
            E.assume(X.le(lo, hi))
            prove('base', E.truth_term(E.call(P, [lo], {})))
            j = E.fresh('j', None, None)
            E.assume(X.le(lo, j))
            E.assume(X.lt(j, hi))
            E.assume(E.truth_term(E.call(P, [j], {})))
            prove('step', E.truth_term(E.call(P, [X.add(j, 1)], {})))
        P0.pc, P0.dom, P0.mixed, P0.known = saved

        def use(E, a, k):
            if not E.valid(X.and_(X.le(lo, a[0]), X.le(a[0], hi))):
                E.unsupported('lemma %s: out of range' % name)
            E.assume(E.truth_term(E.call(P, [a[0]], {})))
        return BI('lemma', use)

    def move(E, a, k):
        """ghost assignment: the position of an iterator"""
        E.touch(a[0])
        if a[0].src is None or a[0].nextf is not None:
            E.unsupported('position of another iterator')
        a[0].idx = a[1]

    def someint(E, a, k):
        """an arbitrary integer"""
        return E.fresh('some', a[0] if a and not isinstance(a[0], T) else None, None)

    def run_to(E, a, k):
        """number of elements from position a[1] on before the first one for which a[2] holds"""
        chs = Lb.slice_chunks(E, Lb.seq_chunks(a[0]), a[1], None)
        n = 0
        for c in chs:
            if isinstance(c, (tuple, list)):
                for x in c:
                    if E.truth(ghost(E, a[2], [x])):
                        return n
                    n = X.add(n, 1)
                continue
            j = E.fresh('run', 0, None)
            if not isinstance(c, Sl):
                E.unsupported('run over %r' % (c,))
            t = E.truth_term(ghost(E, a[2], [X.sel(c.base, X.add(c.lo, j))]))
            if isinstance(t, T) and not E.valid(X.not_(t)) or not isinstance(t, T) and t:
                E.unsupported('run over %r' % (c,))
            n = X.add(n, c.n)
        return n

    def pos_of(E, a, k):
        """number of items taken from an iterator over a sequence"""
        v = a[0]
        if not isinstance(v, PIter):
            E.unsupported('position of another iterator')
        return free_value(E, v)

    return {
        'pos_of': BI('pos_of', pos_of),
        'src_of': BI('src_of', lambda E, a, k: a[0].src),
        'run_to': BI('run_to', run_to),
        'move': BI('move', move),
        'someint': BI('someint', someint),
        'sometext': BI('sometext', lambda E, a, k: some_text(E, 's')),
        'opaque': BI('opaque', lambda E, a, k: Opaque()),
        'anydict': BI('anydict', lambda E, a, k: Marker('dict')),
        'anytext': BI('anytext', lambda E, a, k: Marker('text', a[0])),
        'anything': BI('anything', lambda E, a, k: Marker('value')),
        'known': BI('known', lambda E, a, k: E.valid(E.truth_term(a[0]))),
        'fold': BI('fold', fold),
        'lemma': BI('lemma', lemma),
        'chars': BI('chars', chars),
        'needs': BI('needs', needs),
        'loop': BI('loop', loop),
        'flat': BI('flat', lambda E, a, k: flat(E, a[0], a[1], kind(a, k, 2))),
        'unfold': BI('unfold', lambda E, a, k: unfold(E, a[0], a[1], a[2], kind(a, k, 3))),
        'joined': BI('joined', lambda E, a, k: joined(E, a[0])),
        'anylist': BI('anylist', lambda E, a, k: anylist(E)),
        'iter_at': BI('iter_at', lambda E, a, k: IterAt(a[0], a[1])),
    }
