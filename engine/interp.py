"""Symbolic interpreter for the Python 2 subset: AST (dumped by Jython) -> closures."""
import os
import sys
import time
from . import terms as X
from .terms import T
from . import solver as SV
from . import dom as DM
from .values import *


class Ret(Exception):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Frame(object):
    __slots__ = ('loc', 'glob', 'parent', 'code', 'cls', 'fn', 'excs')

    def __init__(self, loc, glob, parent, code):
        self.loc = loc
        self.glob = glob
        self.parent = parent
        self.code = code
        self.excs = []


class Code(object):
    """compiled function body"""

    def __init__(self):
        self.body = None
        self.args = ()
        self.argpats = None
        self.vararg = None
        self.kwarg = None
        self.locals = frozenset()
        self.name = ''
        self.isgen = False
        self.line = 0
        self.isexpr = False


class Budget(Exception):
    pass


FORKS = os.environ.get('VERIF_FORKS')


class PathState(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.dom = {}
        self.mixed = set()
        self.known = set()
        self.steps = 0
        self.havoc = 0


def idstr(n):
    return ''.join(map(chr, n['v'])) if isinstance(n, dict) else n


_UNBOUND = object()


class Engine(object):
    MAXUNROLL = 700

    def __init__(self):
        self.modules = {}
        self.asts = {}
        self.natives = {}
        self.builtins = {}
        self.P = PathState([])
        self.work = []
        self.journal = []
        self.touched = set()
        self.reached = {}
        self.fresh_n = 0
        self.deadline = None
        self.fork_log = 0
        self.unroll_bounded = None      # if set: stop paths after that many symbolic iterations
        self.truncated = 0
        self.loop_rules = True
        self.events = []
        self.line = 0
        self.codec_search = []
        self.tblcache = {}
        self.in_summary = 0
        self.used_summaries = set()
        self.summaries = {}
        self.depth = 0
        self.gh = {}
        self.plbases = {}
        self.loops_used = set()
        self.skolem_ok = False
        from . import lib
        self.lib = lib
        lib.install(self)

    # ------------------------------------------------------------ heap journal
    def touch(self, o):
        if o.ep != self.epoch:
            if id(o) not in self.touched:
                self.touched.add(id(o))
                self.journal.append((o, o.snap()))
        if self.wlog is not None:
            self.wlog.append(o)

    wlog = None
    epoch = 0

    def begin_path(self, prefix):
        self.epoch += 1
        EPOCH[0] = self.epoch
        self.journal = []
        self.touched = set()
        self.P = PathState(prefix)
        self.fresh_n = 0
        self.wlog = None
        self.depth = 0
        self.gh = {}
        self.line = 0
        self.skolem_ok = False

    def end_path(self):
        for o, s in reversed(self.journal):
            o.restore(s)
        self.journal = []
        self.touched = set()

    # ------------------------------------------------------------ path condition
    def fresh(self, name, lo=None, hi=None):
        self.fresh_n += 1
        return X.var('%s!%d' % (name, self.fresh_n), lo, hi)

    def assume(self, c):
        if not isinstance(c, T):
            if not c:
                raise Stop('assume false')
            return
        if c in self.P.known:
            return
        self._addpc(c)

    def assume_feasible(self, c):
        """assume and stop if infeasible"""
        if not isinstance(c, T):
            if not c:
                raise Stop('assume false')
            return
        if not self.feasible(c):
            raise Stop('infeasible')
        self._addpc(c)

    def _addpc(self, c):
        if c.op == 'and':
            for x in c.a:
                self._addpc(x)
            return
        if c in self.P.known:
            return
        self.P.pc.append(c)
        self.P.known.add(c)
        DM.add(self.P, c)

    def feasible(self, c):
        if not isinstance(c, T):
            return bool(c)
        q = DM.quick(self.P, c)
        if q is not None:
            return bool(q)
        sl = SV.slice_(self.P.pc, X.tvars(c))
        return SV.check_sat(sl + [c])[0] != 'unsat'

    def valid(self, c, timeout=None):
        """True if pc implies c (proved)"""
        if not isinstance(c, T):
            return bool(c)
        if c in self.P.known:
            return True
        if c.op == 'and':
            return all(self.valid(x) for x in c.a)
        n = X.not_(c)
        if not isinstance(n, T):
            return not n
        q = DM.quick(self.P, c)
        if q is not None:
            return q is True
        sl = SV.slice_(self.P.pc, X.tvars(c))
        return SV.check_sat(sl + [n], timeout=timeout)[0] == 'unsat'

    def decide(self, c):
        if not isinstance(c, T):
            return bool(c)
        P = self.P
        if c in P.known:
            return True
        n = X.not_(c)
        if not isinstance(n, T):
            return not n
        if n in P.known:
            return False
        pos = len(P.trace)
        if pos < len(P.prefix):
            out = P.prefix[pos]
            P.trace.append(out)
            self._addpc(c if out else n)
            return out
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        q = DM.quick(P, c)
        if q is None:
            sl = SV.slice_(P.pc, X.tvars(c))
        if q is True or q is False:
            out = q
        elif q is None and SV.check_sat(sl + [c])[0] == 'unsat':
            out = False
        elif q is None and SV.check_sat(sl + [n])[0] == 'unsat':
            out = True
        else:
            out = True
            self.work.append(P.trace + [False])
            self.fork_log += 1
            if FORKS:
                sys.stderr.write('[fork line %s %r\n' % (self.line, c))
        P.trace.append(out)
        self._addpc(c if out else n)
        return out

    def choose(self, n, feas=None):
        """n-way choice, returns index"""
        P = self.P
        pos = len(P.trace)
        if pos < len(P.prefix):
            out = P.prefix[pos]
            P.trace.append(out)
            return out
        for i in range(n - 1, 0, -1):
            self.work.append(P.trace + [i])
        P.trace.append(0)
        return 0

    def concretize(self, t, limit=400):
        """fork over the feasible values of an int term; returns a python int"""
        if not isinstance(t, T):
            return int(t)
        P = self.P
        for _ in range(limit):
            pos = len(P.trace)
            if pos < len(P.prefix):
                v = P.prefix[pos]
                P.trace.append(v)
                if isinstance(v, tuple):       # ('not', v)
                    self._addpc_b(X.ne(t, v[1]))
                    continue
                self._addpc_b(X.eq(t, v))
                return v
            if self.deadline and time.time() > self.deadline:
                raise Budget()
            # interval quick path
            vs = DM.values(P, t)
            if vs is not None:
                self.work.extend(P.trace + [v] for v in vs[:0:-1])
                P.trace.append(vs[0])
                self._addpc_b(X.eq(t, vs[0]))
                return vs[0]
            sl = SV.slice_(P.pc, X.tvars(t))
            r, m = SV.check_sat(sl + [X.eq(t, self._probe(t, P))], want_model=False)
            v = None
            if r == 'sat':
                v = self._probe(t, P)
            else:
                z = X.var('_probe', t.lo, t.hi)
                z = z if isinstance(z, T) else None
                r, m = SV.check_sat(sl + ([X.eq(z, t)] if z is not None else []), want_model=True)
                if r == 'unsat':
                    raise Stop('infeasible')
                if r != 'sat':
                    raise Unsupported('concretize unknown')
                v = m.get('_probe') if z is not None else t.lo
                if v is None:
                    raise Unsupported('concretize')
            if SV.check_sat(sl + [X.ne(t, v)])[0] != 'unsat':
                self.work.append(P.trace + [('not', v)])
            P.trace.append(v)
            self._addpc_b(X.eq(t, v))
            return v
        raise Unsupported('too many values')

    def _probe(self, t, P):
        return t.lo if t.lo is not None else 0

    def _addpc_b(self, c):
        if isinstance(c, T):
            self._addpc(c)
        elif not c:
            raise Stop('infeasible')

    # ------------------------------------------------------------ exceptions
    def exc(self, name, msg=''):
        cls = self.builtins[name]
        o = PObj(cls)
        o.d['args'] = Tup([S(msg)] if isinstance(msg, str) else [msg])
        o.d['message'] = o.d['args'].items[0]
        return PyExc(o)

    def unsupported(self, what):
        raise Unsupported('%s (line %s)' % (what, self.line))

    # ------------------------------------------------------------ truth
    def truth(self, v):
        """python-level truth: bool or decision"""
        if v is True or v is False or v is None:
            return bool(v)
        return self.decide(self.truth_term(v))

    def truth_term(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, T):
            return v if v.isb else X.ne(v, 0)
        if isinstance(v, Str):
            return X.lt(0, v.length())
        if isinstance(v, PList):
            return X.lt(0, v.length())
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, PDict):
            return len(v.d) > 0
        if isinstance(v, float):
            return v != 0
        if isinstance(v, Frac):
            return X.ne(v.num, 0)
        if isinstance(v, TD):
            return X.ne(v.us, 0)
        if isinstance(v, PObj):
            for m in ('__nonzero__', '__len__'):
                f, _ = v.cls.lookup(m)
                if f is not None:
                    return self.truth_term(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, XRange):
            return X.lt(0, self.lib.xr_len(self, v))
        return True

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, BI):
            return f.f(self, args, kw)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self] + list(args), kw)
        if isinstance(f, PFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, PClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, BType):
            if f.ctor is None:
                self.unsupported('constructor %s' % f.name)
            return f.ctor(self, args, kw)
        if isinstance(f, PObj):
            m, _ = f.cls.lookup('__call__')
            if m is not None:
                return self.call(Bound(m, f), args, kw)
            raise self.exc('TypeError', 'object is not callable')
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw)
        raise self.exc('TypeError', 'object is not callable: %r' % (f,))

    def instantiate(self, cls, args, kw):
        if cls.native is not None:
            r = cls.native(self, cls, args, kw)
            if r is not None:
                return r
        o = PObj(cls)
        init, _ = cls.lookup('__init__')
        if init is not None:
            self.call(Bound(init, o), args, kw)
        elif args or kw:
            raise self.exc('TypeError', 'this constructor takes no arguments')
        return o

    def call_func(self, f, args, kw):
        sm = self.summaries.get(f.qual)
        if sm is not None and self.in_summary != f.qual:
            r = sm(self, f, args, kw)
            if r is not NotImplemented:
                self.used_summaries.add(f.qual)
                return r
        self.reached[f.qual] = self.reached.get(f.qual, 0) + 1
        code = f.code
        loc = {}
        names = code.args
        n = len(names)
        if len(args) > n and code.vararg is None:
            raise self.exc('TypeError', '%s() takes %d arguments (%d given)' % (f.name, n, len(args)))
        for i in range(min(n, len(args))):
            loc[names[i]] = args[i]
        if code.vararg is not None:
            loc[code.vararg] = Tup(args[n:])
        extra = {}
        for k, v in kw.items():
            if k in names:
                if k in loc:
                    raise self.exc('TypeError', 'multiple values for keyword argument %s' % k)
                loc[k] = v
            else:
                extra[k] = v
        if code.kwarg is not None:
            loc[code.kwarg] = PDict({('s', tuple(map(ord, k))): (S(k), v) for k, v in extra.items()})
        elif extra:
            raise self.exc('TypeError', 'unexpected keyword argument %s' % list(extra)[0])
        nd = len(f.defaults)
        for i in range(n):
            if names[i] not in loc:
                j = i - (n - nd)
                if j < 0:
                    raise self.exc('TypeError', '%s() takes %d arguments' % (f.name, n))
                loc[names[i]] = f.defaults[j]
        fr = Frame(loc, f.globals, f.closure, code)
        fr.fn = f
        if code.argpats:
            for nm, pat in code.argpats:
                pat(fr, loc.pop(nm))
        if code.isexpr:
            return code.body(fr)
        self.depth += 1
        if self.depth > 120:
            self.depth = 0
            raise self.exc('RuntimeError', 'maximum recursion depth exceeded')
        if code.isgen:
            try:
                return self.run_generator(fr, code)
            finally:
                self.depth -= 1
        try:
            code.body(fr)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def run_generator(self, fr, code):
        """generators are run eagerly (recorded as an assumption)"""
        out = PList([[]])
        fr.loc['$gen'] = out
        self.events.append('eager-generator')
        try:
            code.body(fr)
        except Ret:
            pass
        return PIter(out)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=_UNBOUND):
        try:
            return self.getattr_(o, name)
        except PyExc as e:
            if default is not _UNBOUND and e.obj.cls.issub(self.builtins['AttributeError']):
                return default
            raise

    def getattr_(self, o, name):
        if isinstance(o, PObj):
            if name == '__class__':
                return o.cls
            cv, _ = o.cls.lookup(name)
            if isinstance(cv, Prop):
                if cv.get is None:
                    raise self.exc('AttributeError', 'unreadable attribute')
                return self.call(cv.get, [o], {})
            if name in o.d:
                return o.d[name]
            if name == '__dict__':
                return PDict({('s', tuple(map(ord, k))): (S(k), v) for k, v in o.d.items()})
            if cv is not None or _ is not None:
                return self.bind(cv, o, o.cls)
            ga, _ = o.cls.lookup('__getattr__')
            if ga is not None:
                return self.call(Bound(ga, o), [S(name)], {})
            raise self.exc('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name))
        if isinstance(o, PModule):
            if name in o.d:
                return o.d[name]
            m = self.modules.get(o.name + '.' + name)
            if m is not None:
                return m
            if o.name in self.natives:
                self.unsupported('library attribute %s.%s' % (o.name, name))
            raise self.exc('AttributeError', "module has no attribute '%s'" % name)
        if isinstance(o, PClass):
            if name == '__name__':
                return S(o.name)
            if name == '__dict__':
                return PDict({('s', tuple(map(ord, k))): (S(k), v) for k, v in o.d.items()})
            if name == '__bases__':
                return Tup(o.bases)
            v, owner = o.lookup(name)
            if owner is None:
                raise self.exc('AttributeError', "class %s has no attribute '%s'" % (o.name, name))
            if isinstance(v, StaticM):
                return v.f
            if isinstance(v, ClassM):
                return Bound(v.f, o)
            return v
        return self.lib.getattr_native(self, o, name)

    def bind(self, v, o, cls):
        if isinstance(v, (PFunc, BI)):
            return Bound(v, o)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, cls)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, PObj):
            cv, _ = o.cls.lookup(name)
            if isinstance(cv, Prop):
                if cv.set is None:
                    raise self.exc('AttributeError', "can't set attribute")
                self.call(cv.set, [o, v], {})
                return
            self.touch(o)
            o.d[name] = v
            return
        if isinstance(o, (PClass, PModule)):
            self.touch(o)
            o.d[name] = v
            return
        if isinstance(o, PFunc):
            self.touch(o)
            o.d[name] = v
            return
        if isinstance(o, NativeObj):
            self.touch(o)
            o.attrs[name] = v
            return
        raise self.exc('AttributeError', 'cannot set attribute %s' % name)

    # ------------------------------------------------------------ names
    def load_name(self, fr, name):
        loc = fr.loc
        if name in loc:
            if loc[name] is POISON:
                self.unsupported('loop contract says nothing about %s' % name)
            return loc[name]
        if name in fr.code.locals:
            raise self.exc('UnboundLocalError', "local variable '%s' referenced before assignment" % name)
        p = fr.parent
        while p is not None:
            if name in p.loc and not p.code.name == '$class':
                if p.loc[name] is POISON:
                    self.unsupported('loop contract says nothing about %s' % name)
                return p.loc[name]
            p = p.parent
        g = fr.glob.d
        if name in g:
            return g[name]
        b = self.builtins
        if name in b:
            return b[name]
        if name in self.lib.KNOWN_BUILTINS:
            self.unsupported('builtin %s' % name)
        raise self.exc('NameError', "name '%s' is not defined" % name)

    # ------------------------------------------------------------ modules
    def import_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in self.natives:
            m = PModule(name, self.natives[name](self))
            self.modules[name] = m
            return m
        if name in self.asts:
            # parent package first
            if '.' in name:
                par = name.rsplit('.', 1)[0]
                self.import_module(par)
            m = self.modules.get(name)
            if m is not None:
                return m
            m = PModule(name, {'__name__': S(name), '__doc__': None, '__file__': S(name)})
            self.modules[name] = m
            code = Compiler(self, name).module(self.asts[name])
            fr = Frame(m.d, m, None, code)
            fr.fn = None
            code.body(fr)
            if '.' in name:
                par, last = name.rsplit('.', 1)
                self.modules[par].d[last] = m
            return m
        if name.split('.')[0] in self.lib.STDLIB_UNKNOWN:
            # known to exist but not modelled: any use is unsupported
            m = PModule(name, {})
            self.natives[name] = None
            self.modules[name] = m
            return m
        raise self.exc('ImportError', 'No module named %s' % name)


# ---------------------------------------------------------------------- compiler
class Compiler(object):
    def __init__(self, E, modname):
        self.E = E
        self.mod = modname
        self.cls = None
        self.qual = []
        self.nloops = 0

    def mangle(self, n):
        if self.cls and n.startswith('__') and not n.endswith('__'):
            return '_%s%s' % (self.cls.lstrip('_'), n)
        return n

    def module(self, tree):
        c = Code()
        c.name = '$module'
        c.body = self.block(tree['body'])
        return c

    def block(self, stmts):
        fs = [self.stmt(s) for s in stmts]
        fs = [f for f in fs if f is not None]
        if len(fs) == 1:
            return fs[0]

        def run(fr):
            for f in fs:
                f(fr)
        return run

    # -------------------------------------------------------- statements
    def stmt(self, n):
        m = getattr(self, 's_' + n['_'], None)
        if m is None:
            what = n['_']
            E = self.E

            def bad(fr):
                E.unsupported('statement %s' % what)
            return bad
        f = m(n)
        if f is None:
            return None
        E = self.E
        ln = n.get('l', 0)

        def run(fr):
            E.line = ln
            f(fr)
        return run

    def s_Expr(self, n):
        v = n['value']
        if v['_'] in ('Str', 'Num'):
            return None
        return self.expr(v)

    def s_Pass(self, n):
        return None

    def s_Assign(self, n):
        val = self.expr(n['value'])
        ts = [self.target(t) for t in n['targets']]
        if len(ts) == 1:
            t = ts[0]

            def run(fr):
                t(fr, val(fr))
            return run

        def run(fr):
            v = val(fr)
            for t in ts:
                t(fr, v)
        return run

    def s_AugAssign(self, n):
        E = self.E
        op = n['op']['_']
        t = n['target']
        val = self.expr(n['value'])
        binop = E.lib.binop
        if t['_'] == 'Name':
            name = self.mangle(idstr(t['id']))
            glob = self.globals_
            isglob = name in glob

            def run(fr):
                cur = E.load_name(fr, name)
                r = E.lib.inplace(E, op, cur, val(fr))
                if isglob or fr.loc is fr.glob.d:
                    E.touch(fr.glob)
                    fr.glob.d[name] = r
                else:
                    fr.loc[name] = r
            return run
        if t['_'] == 'Attribute':
            obj = self.expr(t['value'])
            attr = self.mangle(idstr(t['attr']))

            def run(fr):
                o = obj(fr)
                E.setattr(o, attr, E.lib.inplace(E, op, E.getattr(o, attr), val(fr)))
            return run
        if t['_'] == 'Subscript':
            obj = self.expr(t['value'])
            idx = self.slice_(t['slice'])

            def run(fr):
                o = obj(fr)
                i = idx(fr)
                r = E.lib.inplace(E, op, E.lib.getitem(E, o, i), val(fr))
                E.lib.setitem(E, o, i, r)
            return run
        raise Unsupported('augassign target')

    globals_ = frozenset()

    def s_Global(self, n):
        return None

    def s_Return(self, n):
        if n.get('value') is None:
            def run(fr):
                raise Ret(None)
            return run
        v = self.expr(n['value'])

        def run(fr):
            raise Ret(v(fr))
        return run

    def s_If(self, n):
        E = self.E
        test = self.expr(n['test'])
        body = self.block(n['body'])
        orelse = self.block(n['orelse']) if n['orelse'] else None

        def run(fr):
            if E.truth(test(fr)):
                body(fr)
            elif orelse is not None:
                orelse(fr)
        return run

    def s_While(self, n):
        from . import loops
        return loops.compile_while(self, n)

    def s_For(self, n):
        from . import loops
        return loops.compile_for(self, n)

    def s_Break(self, n):
        def run(fr):
            raise Brk()
        return run

    def s_Continue(self, n):
        def run(fr):
            raise Cont()
        return run

    def s_Print(self, n):
        vals = [self.expr(v) for v in n['values']]

        def run(fr):
            for v in vals:
                v(fr)
        return run

    def s_Assert(self, n):
        E = self.E
        t = self.expr(n['test'])

        def run(fr):
            if not E.truth(t(fr)):
                raise E.exc('AssertionError')
        return run

    def s_Delete(self, n):
        E = self.E
        ops = []
        for t in n['targets']:
            if t['_'] == 'Name':
                nm = self.mangle(idstr(t['id']))

                def d(fr, nm=nm):
                    if nm not in fr.loc:
                        raise E.exc('NameError', nm)
                    del fr.loc[nm]
            elif t['_'] == 'Subscript':
                o = self.expr(t['value'])
                i = self.slice_(t['slice'])

                def d(fr, o=o, i=i):
                    E.lib.delitem(E, o(fr), i(fr))
            elif t['_'] == 'Attribute':
                o = self.expr(t['value'])
                a = self.mangle(idstr(t['attr']))

                def d(fr, o=o, a=a):
                    ob = o(fr)
                    if isinstance(ob, PObj) and a in ob.d:
                        E.touch(ob)
                        del ob.d[a]
                    else:
                        raise E.exc('AttributeError', a)
            else:
                def d(fr):
                    E.unsupported('delete')
            ops.append(d)

        def run(fr):
            for d in ops:
                d(fr)
        return run

    def s_Raise(self, n):
        E = self.E
        t = self.expr(n['type']) if n.get('type') else None
        i = self.expr(n['inst']) if n.get('inst') else None

        def run(fr):
            if t is None:
                f = fr
                while f is not None and not f.excs:
                    f = f.parent
                if f is None:
                    raise E.exc('TypeError', 'no active exception')
                raise PyExc(f.excs[-1].obj)
            v = t(fr)
            if isinstance(v, PClass):
                a = []
                if i is not None:
                    iv = i(fr)
                    a = list(iv.items) if isinstance(iv, Tup) else [iv]
                v = E.instantiate(v, a, {})
            if not isinstance(v, PObj):
                raise E.exc('TypeError', 'exceptions must be classes or instances')
            raise PyExc(v)
        return run

    def s_TryExcept(self, n):
        E = self.E
        body = self.block(n['body'])
        orelse = self.block(n['orelse']) if n.get('orelse') else None
        hs = []
        for h in n['handlers']:
            ty = self.expr(h['type']) if h.get('type') else None
            nm = self.target(h['name']) if h.get('name') else None
            hs.append((ty, nm, self.block(h['body'])))

        def run(fr):
            try:
                body(fr)
            except PyExc as e:
                for ty, nm, hb in hs:
                    if ty is None or E.lib.exc_matches(E, e.obj, ty(fr)):
                        if nm is not None:
                            nm(fr, e.obj)
                        fr.excs.append(e)
                        try:
                            hb(fr)
                        finally:
                            fr.excs.pop()
                        return
                raise
            if orelse is not None:
                orelse(fr)
        return run

    def s_TryFinally(self, n):
        body = self.block(n['body'])
        fin = self.block(n['finalbody'])

        def run(fr):
            try:
                body(fr)
            except (PyExc, Ret, Brk, Cont):
                fin(fr)
                raise
            fin(fr)
        return run

    def s_With(self, n):
        E = self.E
        items = n.get('items')
        if items:
            ctx = self.expr(items[0]['context_expr'])
            tgt = self.target(items[0]['optional_vars']) if items[0].get('optional_vars') else None
        else:
            ctx = self.expr(n['context_expr'])
            tgt = self.target(n['optional_vars']) if n.get('optional_vars') else None
        body = self.block(n['body'])

        def run(fr):
            m = ctx(fr)
            v = E.call(E.getattr(m, '__enter__'), [], {})
            if tgt is not None:
                tgt(fr, v)
            ex = E.getattr(m, '__exit__')
            try:
                body(fr)
            except PyExc as e:
                r = E.call(ex, [e.obj.cls, e.obj, None], {})
                if E.truth(r):
                    return
                raise
            except (Ret, Brk, Cont):
                E.call(ex, [None, None, None], {})
                raise
            E.call(ex, [None, None, None], {})
        return run

    def s_Import(self, n):
        E = self.E
        names = [(idstr(a['name']), idstr(a['asname']) if a.get('asname') else None) for a in n['names']]

        def run(fr):
            for nm, asn in names:
                m = E.import_module(nm)
                if asn:
                    fr.loc[asn] = m
                else:
                    root = nm.split('.')[0]
                    fr.loc[root] = E.import_module(root)
                    # make sub-modules visible
                    parts = nm.split('.')
                    for k in range(1, len(parts)):
                        a = '.'.join(parts[:k])
                        b = '.'.join(parts[:k + 1])
                        E.modules[a].d.setdefault(parts[k], E.import_module(b))
        return run

    def s_ImportFrom(self, n):
        E = self.E
        mod = idstr(n['module']) if n.get('module') else ''
        lvl = n.get('level')
        if isinstance(lvl, dict):
            lvl = int(lvl['v'])
        names = [(idstr(a['name']), idstr(a['asname']) if a.get('asname') else idstr(a['name'])) for a in n['names']]
        if mod == '__future__':
            return None

        def run(fr):
            name = mod
            if lvl:
                base = self.mod.split('.')
                ispkg = (self.mod in E.lib.PACKAGES)
                up = lvl - (1 if ispkg else 0)
                base = base[:len(base) - up] if up else base
                name = '.'.join(base + ([mod] if mod else []))
            m = E.import_module(name)
            for a, b in names:
                if a == '*':
                    allv = m.d.get('__all__')
                    if allv is not None:
                        ks = [s.py() for s in allv.items()]
                    else:
                        ks = [k for k in m.d if not k.startswith('_')]
                    for k in ks:
                        fr.loc[k] = m.d[k]
                    continue
                if a in m.d:
                    fr.loc[b] = m.d[a]
                    continue
                sub = name + '.' + a
                if sub in E.asts or sub in E.natives or sub in E.modules:
                    fr.loc[b] = E.import_module(sub)
                    continue
                if E.natives.get(name, 0) is None or name in E.natives:
                    fr.loc[b] = BI('%s.%s' % (name, a), lambda E_, x, k, w=a: E_.unsupported('library function %s.%s' % (name, w)))
                    continue
                raise E.exc('ImportError', 'cannot import name %s' % a)
        return run

    def s_FunctionDef(self, n):
        E = self.E
        mk = self.function(n)
        decs = [self.expr(d) for d in reversed(n['decorator_list'])]
        name = self.mangle(idstr(n['name']))

        def run(fr):
            f = mk(fr)
            for d in decs:
                f = E.call(d(fr), [f], {})
            fr.loc[name] = f
        return run

    def function(self, n, lam=False):
        E = self.E
        name = '<lambda>' if lam else idstr(n['name'])
        a = n['args']
        sub = Compiler(E, self.mod)
        sub.cls = self.cls
        sub.qual = self.qual + [name]
        code = Code()
        code.name = name
        code.line = n.get('l', 0)
        args = []
        pats = []
        for i, x in enumerate(a['args']):
            if x['_'] == 'Name':
                args.append(sub.mangle(idstr(x['id'])))
            else:
                nm = '$arg%d' % i
                args.append(nm)
                pats.append((nm, sub.target(x)))
        code.args = tuple(args)
        code.argpats = pats
        code.vararg = idstr(a['vararg']) if a.get('vararg') else None
        code.kwarg = idstr(a['kwarg']) if a.get('kwarg') else None
        glob = set()
        loc = set(args)
        if code.vararg:
            loc.add(code.vararg)
        if code.kwarg:
            loc.add(code.kwarg)
        body = n['body']
        if not lam:
            gen = [False]
            for s in body:
                collect(s, loc, glob, gen, sub)
            code.isgen = gen[0]
        loc = {sub.mangle(x) for x in loc}
        code.locals = frozenset(loc - glob)
        sub.globals_ = frozenset(glob)
        if lam:
            code.body = sub.expr(body)
            code.isexpr = True
        else:
            code.body = sub.block(body)
        defaults = [self.expr(d) for d in a['defaults']]
        qual = self.mod + '.' + '.'.join(sub.qual)
        modname = self.mod

        def mk(fr):
            par = None if fr.code.name == '$module' else fr
            return PFunc(name, code, fr.glob, [d(fr) for d in defaults], par, qual, modname)
        return mk

    def s_ClassDef(self, n):
        E = self.E
        name = idstr(n['name'])
        bases = [self.expr(b) for b in n['bases']]
        sub = Compiler(E, self.mod)
        sub.cls = name
        sub.qual = self.qual + [name]
        code = Code()
        code.name = '$class'
        code.body = sub.block(n['body'])
        decs = [self.expr(d) for d in reversed(n['decorator_list'])]
        modname = self.mod

        def run(fr):
            bs = []
            for b in bases:
                v = b(fr)
                bs.append(v)
            f2 = Frame({}, fr.glob, None if fr.code.name == '$module' else fr, code)
            f2.fn = None
            code.body(f2)
            c = PClass(name, bs, f2.loc, modname)
            for b in bs:
                if isinstance(b, PClass) and b.native is not None:
                    c.native = b.native
            for d in decs:
                c = E.call(d(fr), [c], {})
            fr.loc[name] = c
        return run

    def s_Exec(self, n):
        E = self.E

        def run(fr):
            E.unsupported('exec')
        return run

    # -------------------------------------------------------- targets
    def target(self, t):
        E = self.E
        k = t['_']
        if k == 'Name':
            name = self.mangle(idstr(t['id']))
            if name in self.globals_:
                def st(fr, v):
                    E.touch(fr.glob)
                    fr.glob.d[name] = v
                return st

            def st(fr, v):
                fr.loc[name] = v
            return st
        if k in ('Tuple', 'List'):
            subs = [self.target(x) for x in t['elts']]

            def st(fr, v):
                its = E.lib.unpack(E, v, len(subs))
                for s, x in zip(subs, its):
                    s(fr, x)
            return st
        if k == 'Attribute':
            o = self.expr(t['value'])
            a = self.mangle(idstr(t['attr']))

            def st(fr, v):
                E.setattr(o(fr), a, v)
            return st
        if k == 'Subscript':
            o = self.expr(t['value'])
            i = self.slice_(t['slice'])

            def st(fr, v):
                E.lib.setitem(E, o(fr), i(fr), v)
            return st
        raise Unsupported('target ' + k)

    def slice_(self, s):
        k = s['_']
        if k == 'Index':
            return self.expr(s['value'])
        if k == 'Slice':
            lo = self.expr(s['lower']) if s.get('lower') else None
            hi = self.expr(s['upper']) if s.get('upper') else None
            st = self.expr(s['step']) if s.get('step') else None

            def run(fr):
                return ('slice', lo(fr) if lo else None, hi(fr) if hi else None, st(fr) if st else None)
            return run
        E = self.E

        def bad(fr):
            E.unsupported('slice kind')
        return bad

    # -------------------------------------------------------- expressions
    def expr(self, n):
        m = getattr(self, 'e_' + n['_'], None)
        if m is None:
            E = self.E
            what = n['_']

            def bad(fr):
                E.unsupported('expression %s' % what)
            return bad
        return m(n)

    def e_Num(self, n):
        v = n['n']
        if v['_'] == '$int':
            c = int(v['v'])
        else:
            c = float(v['v'])
        return lambda fr: c

    def e_Str(self, n):
        v = n['s']
        c = Str('u' if v['_'] == '$u' else 's', (tuple(v['v']),) if v['v'] else ())
        return lambda fr: c

    def e_Name(self, n):
        E = self.E
        name = self.mangle(idstr(n['id']))
        if name == 'None':
            return lambda fr: None
        if name == 'True':
            return lambda fr: True
        if name == 'False':
            return lambda fr: False
        load = E.load_name

        def run(fr):
            v = fr.loc.get(name, _UNBOUND)
            if v is not _UNBOUND and v is not POISON:
                return v
            return load(fr, name)
        return run

    def e_Attribute(self, n):
        E = self.E
        o = self.expr(n['value'])
        a = self.mangle(idstr(n['attr']))
        return lambda fr: E.getattr_(o(fr), a)

    def e_Subscript(self, n):
        E = self.E
        o = self.expr(n['value'])
        i = self.slice_(n['slice'])
        gi = E.lib.getitem
        return lambda fr: gi(E, o(fr), i(fr))

    def e_Call(self, n):
        E = self.E
        f = self.expr(n['func'])
        args = [self.expr(a) for a in n['args']]
        kws = [(idstr(k['arg']), self.expr(k['value'])) for k in n['keywords']]
        star = self.expr(n['starargs']) if n.get('starargs') else None
        kstar = self.expr(n['kwargs']) if n.get('kwargs') else None
        ln = n.get('l', 0)
        fname = idstr(n['func']['id']) if n['func']['_'] == 'Name' else None
        if fname in ('locals', 'vars', 'globals', 'eval', 'execfile'):
            def bad(fr):
                E.unsupported(fname)
            return bad

        if star is None and kstar is None and not kws:
            def run(fr):
                fv = f(fr)
                av = [a(fr) for a in args]
                E.line = ln
                return E.call(fv, av, None)
            return run

        def run(fr):
            fv = f(fr)
            av = [a(fr) for a in args]
            kv = {k: v(fr) for k, v in kws}
            if star is not None:
                av.extend(E.lib.to_items(E, star(fr)))
            if kstar is not None:
                d = kstar(fr)
                for key, (ko, v) in d.d.items():
                    kv[ko.py()] = v
            E.line = ln
            return E.call(fv, av, kv)
        return run

    def e_BinOp(self, n):
        E = self.E
        op = n['op']['_']
        l = self.expr(n['left'])
        r = self.expr(n['right'])
        bo = E.lib.binop
        return lambda fr: bo(E, op, l(fr), r(fr))

    def e_UnaryOp(self, n):
        E = self.E
        op = n['op']['_']
        v = self.expr(n['operand'])
        if op == 'Not':
            def run(fr):
                t = E.truth_term(v(fr))
                return X.not_(t) if isinstance(t, T) else not t
            return run
        return lambda fr: E.lib.unop(E, op, v(fr))

    def e_BoolOp(self, n):
        E = self.E
        vals = [self.expr(v) for v in n['values']]
        isand = n['op']['_'] == 'And'

        def run(fr):
            v = None
            for i, f in enumerate(vals):
                v = f(fr)
                if i == len(vals) - 1:
                    return v
                t = E.truth(v)
                if isand and not t:
                    # a symbolic operand that was decided
                    return False if isinstance(v, T) and v.isb else v
                if not isand and t:
                    return True if isinstance(v, T) and v.isb else v
            return v
        return run

    def e_Compare(self, n):
        E = self.E
        l = self.expr(n['left'])
        ops = [o['_'] for o in n['ops']]
        rs = [self.expr(c) for c in n['comparators']]
        cmp_ = E.lib.compare
        if len(ops) == 1:
            op = ops[0]
            r = rs[0]
            return lambda fr: cmp_(E, op, l(fr), r(fr))

        def run(fr):
            a = l(fr)
            acc = True
            for op, r in zip(ops, rs):
                b = r(fr)
                c = cmp_(E, op, a, b)
                c = E.truth_term(c)
                acc = X.and_(acc, c)
                if acc is False:
                    return False
                a = b
            return acc
        return run

    def e_IfExp(self, n):
        E = self.E
        t = self.expr(n['test'])
        a = self.expr(n['body'])
        b = self.expr(n['orelse'])
        return lambda fr: a(fr) if E.truth(t(fr)) else b(fr)

    def e_Lambda(self, n):
        mk = self.function(n, lam=True)
        return mk

    def e_Tuple(self, n):
        es = [self.expr(e) for e in n['elts']]
        return lambda fr: Tup([e(fr) for e in es])

    def e_List(self, n):
        es = [self.expr(e) for e in n['elts']]
        return lambda fr: PList([[e(fr) for e in es]])

    def e_Dict(self, n):
        E = self.E
        ks = [self.expr(k) for k in n['keys']]
        vs = [self.expr(v) for v in n['values']]

        def run(fr):
            d = PDict()
            for k, v in zip(ks, vs):
                E.lib.dict_set(E, d, k(fr), v(fr))
            return d
        return run

    def e_Set(self, n):
        E = self.E
        es = [self.expr(e) for e in n['elts']]

        def run(fr):
            s = PSet()
            for e in es:
                v = e(fr)
                E.lib.dict_set(E, s, v, v)
            return s
        return run

    def e_Repr(self, n):
        E = self.E
        v = self.expr(n['value'])
        return lambda fr: E.call(E.builtins['repr'], [v(fr)], {})

    def e_ListComp(self, n):
        from . import loops
        return loops.compile_comp(self, n, 'list')

    def e_GeneratorExp(self, n):
        from . import loops
        return loops.compile_comp(self, n, 'gen')

    def e_SetComp(self, n):
        from . import loops
        return loops.compile_comp(self, n, 'set')

    def e_DictComp(self, n):
        from . import loops
        return loops.compile_comp(self, n, 'dict')

    def e_Yield(self, n):
        v = self.expr(n['value']) if n.get('value') else (lambda fr: None)

        def run(fr):
            x = v(fr)
            fr.loc['$gen'].items().append(x)
            if len(fr.loc['$gen'].items()) > 5000:
                raise Unsupported('generator too long')
            return None
        return run


def collect(n, loc, glob, gen, comp):
    """names assigned in a function body"""
    if isinstance(n, list):
        for x in n:
            collect(x, loc, glob, gen, comp)
        return
    if not isinstance(n, dict):
        return
    k = n['_']
    if k in ('FunctionDef', 'ClassDef'):
        loc.add(idstr(n['name']))
        for d in n['decorator_list']:
            collect(d, loc, glob, gen, comp)
        return
    if k in ('Lambda', 'GeneratorExp', 'SetComp', 'DictComp'):
        return
    if k == 'Global':
        for x in n['names']:
            glob.add(idstr(x))
        return
    if k == 'Yield':
        gen[0] = True
    if k == 'Name':
        c = n['ctx']['_']
        if c in ('Store', 'Del', 'AugStore', 'Param'):
            loc.add(idstr(n['id']))
        return
    if k in ('Import', 'ImportFrom'):
        for a in n['names']:
            nm = idstr(a['asname']) if a.get('asname') else idstr(a['name']).split('.')[0]
            if nm != '*':
                loc.add(nm)
        return
    for kk, v in n.items():
        if isinstance(v, (dict, list)):
            collect(v, loc, glob, gen, comp)
