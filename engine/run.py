"""Check driver: extract the sources, generate and discharge the obligations of one property,
replay refutations on the real code, write the evidence."""
import glob
import hashlib
import json
import multiprocessing as mp
import os
import queue
import random
import re
import select
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import terms as X
from .terms import T
from . import solver as SV
from .values import *
from .interp import Engine, Budget
from . import lib as Lb
from .vpmod import conc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
JY = ['jython', '-B', '-Dpython.cachedir.skip=true', os.path.join(VERIF, 'jy', 'server.py')]


# ------------------------------------------------------------------ Jython helper
class JyDead(Exception):
    pass


class Jy(object):
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, TZ='UTC', JYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYTHONPATH', None)
        self.p = subprocess.Popen(JY, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=env, cwd=tempfile.gettempdir(), start_new_session=True)
        self.buf = b''

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except Exception:
                pass
            try:
                self.p.wait(5)
            except Exception:
                pass
            self.p = None

    def send(self, **m):
        if self.p is None:
            self.start()
        self.p.stdin.write((json.dumps(m) + '\n').encode())
        self.p.stdin.flush()

    def recv(self, timeout=120):
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.stop()
                raise JyDead('timeout')
            r, _, _ = select.select([fd], [], [], left)
            if r:
                b = os.read(fd, 1 << 20)
                if not b:
                    self.stop()
                    raise JyDead('eof')
                self.buf += b
        l, self.buf = self.buf.split(b'\n', 1)
        r = json.loads(l)
        if 'err' in r:
            raise RuntimeError(r['err'])
        return r['ok']

    def call(self, timeout=120, **m):
        self.send(**m)
        return self.recv(timeout)


def source_files(root=None):
    root = root or REPO
    fs = []
    for f in sorted(glob.glob(root + '/messaging/**/*.py', recursive=True)):
        if '/test/' in f:
            continue
        n = f[len(root) + 1:-3].replace('/', '.')
        if n.endswith('.__init__'):
            n = n[:-9]
        fs.append((n, f))
    return fs


def lib_files():
    """harness libraries importable by a harness file"""
    return [(os.path.basename(f)[:-3], f) for f in sorted(glob.glob(VERIF + '/props/*.py'))]


def enc(v):
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, tuple):
        return {v[0]: v[1]}
    return v


# ------------------------------------------------------------------ engine
class Refuted(Exception):
    pass


class Eng(Engine):
    def __init__(self):
        self.maprule = None
        self.harnesses = []
        Engine.__init__(self)
        self.obl = {}           # name -> [generated, discharged]
        self.fails = []
        self.inputs = {}
        self.hname = ''
        self.cross = False
        self.cross_stat = [0, 0, 0]

    # -------------------------------------------------------- obligations
    def check(self, c, name):
        o = self.obl.setdefault(name, [0, 0])
        cs = c.a if isinstance(c, T) and c.op == 'and' else (c,)
        for x in cs:
            o[0] += 1
            if self.valid(x):
                o[1] += 1
                if self.cross and isinstance(x, T):
                    self.crosscheck(x, name)
                continue
            n = X.not_(x)
            r, m = self.model_of(list(self.P.pc) + ([n] if isinstance(n, T) else [])) if not (not isinstance(n, T) and not n) else ('unsat', None)
            if r == 'unsat':
                o[1] += 1
                continue
            if r == 'sat':
                self.fails.append({'h': self.hname, 'name': name, 'status': 'refuted' if not self.inductive else 'open', 'args': self.model_args(m),
                                   'fix': dict(self.fixed), 'detail': X.show(x)[:600] if isinstance(x, T) else 'constant False', 'line': self.line})
                raise Stop('refuted')
            self.fails.append({'h': self.hname, 'name': name, 'status': 'unknown', 'args': None,
                               'detail': X.show(x)[:600] if isinstance(x, T) else str(x), 'line': self.line})
            if isinstance(x, T):
                self.assume(x)

    def crosscheck(self, x, name):
        sl = SV.slice_(self.P.pc, X.tvars(x)) + [X.not_(x)]
        k = X.ser(sl)
        if k in self.cross_seen:
            return
        self.cross_seen.add(k)
        if time.time() > self.cross_deadline:
            return
        r = SV.cvc5_check(sl, 8000)
        self.cross_stat[0] += 1
        if r == 'unsat':
            self.cross_stat[1] += 1
        elif r == 'sat':
            self.cross_stat[2] += 1
            self.fails.append({'h': self.hname, 'name': name, 'status': 'unknown', 'args': None, 'detail': 'cvc5 disagrees with z3', 'line': self.line})
    cross_seen = set()
    cross_deadline = 0

    inductive = None

    def model_of(self, pc):
        """a model, with short sequences if there is one"""
        lens = sorted({d.kw['len'] for d in self.hdesc.values() if d.kind in ('Str', 'Uni', 'Ints') and isinstance(d.kw['len'], str)} - set(self.fixed))
        lens = [self.inputs[n] for n in lens if isinstance(self.inputs.get(n), T)]
        if lens:
            for b in (200, 6000, 300000):
                r, m = SV.check_sat(pc + [c for c in (X.le(n, b) for n in lens) if isinstance(c, T)], want_model=True)
                if r == 'sat':
                    return r, m
        return SV.check_sat(pc, want_model=True)

    def model_args(self, m):
        """harness inputs of a model; None when a sequence is too long to write down"""
        m = m or {}
        m = dict(m)
        args = {}
        for n, d in self.hdesc.items():
            if n in self.fixed:
                args[n] = self.fixed[n]
                continue
            k = d.kind
            if k == 'Int':
                v = m.get(n)
                if v is None:
                    v = d.kw.get('lo')
                    if v is None:
                        v = min(0, d.kw.get('hi')) if d.kw.get('hi') is not None else 0
                args[n] = int(v)
            elif k == 'Bool':
                args[n] = bool(m.get(n, False))
            elif k == 'Enum':
                args[n] = self.jenum(self.inputs.get(n))
        for n, d in self.hdesc.items():
            if d.kind in ('Str', 'Uni', 'Ints'):
                ln = d.kw['len']
                if isinstance(ln, str):
                    ln = args[ln]
                if ln > 400000:
                    return None
                dv = d.kw['allowed'][0][0] if d.kw.get('allowed') else d.kw['lo']
                cs = [m.get((n, i)) for i in range(ln)]
                cs = [dv if c is None else int(c) for c in cs]
                if d.kind == 'Str':
                    args[n] = {'s': ''.join('%02x' % c for c in cs)}
                elif d.kind == 'Uni':
                    args[n] = {'u': cs}
                else:
                    args[n] = cs
        return args

    def jenum(self, v):
        if isinstance(v, Str):
            if v.kind == 's':
                return {'s': ''.join('%02x' % c for c in v.items())}
            return {'u': list(v.items())}
        if isinstance(v, Tup):
            return [self.jenum(x) for x in v.items]
        if isinstance(v, PList):
            return [self.jenum(x) for x in v.items()]
        return v

    # -------------------------------------------------------- harness execution
    def make_inputs(self, h, fix):
        args = {}
        self.inputs = {}
        self.hdesc = h['desc']
        self.fixed = {}
        ds = h['desc']
        for n, d in ds.items():
            if d.kind == 'Int':
                if n in fix:
                    args[n] = fix[n]
                    self.fixed[n] = fix[n]
                else:
                    args[n] = X.var(n, d.kw.get('lo'), d.kw.get('hi'))
            elif d.kind == 'Bool':
                if n in fix:
                    args[n] = fix[n]
                    self.fixed[n] = fix[n]
                else:
                    args[n] = X.bvar(n)
            elif d.kind == 'Enum':
                vals = d.kw['values']
                if n in fix:
                    i = fix[n]
                else:
                    i = self.concretize(X.var('$' + n, 0, len(vals) - 1))
                args[n] = vals[i]
                self.inputs[n] = vals[i]
        for n, d in ds.items():
            if d.kind not in ('Str', 'Uni', 'Ints'):
                continue
            al = d.kw.get('allowed')
            if al is not None:
                al = X.norm_ranges([tuple(r) for r in al])
                lo, hi = max(d.kw['lo'], al[0][0]), min(d.kw['hi'], al[-1][1])
            else:
                lo, hi = d.kw['lo'], d.kw['hi']
                if d.kind == 'Uni' and hi > 0xd7ff:
                    al = ((lo, 0xd7ff), (0xe000, hi))
            key = (n, lo, hi, al)
            b = self.bases.get(key)
            if b is None:
                b = self.bases[key] = X.Base(n, lo, hi, al if al is not None and len(al) > 1 else None)
            ln = d.kw['len']
            if isinstance(ln, str):
                ln = args[ln]
            if isinstance(ln, T):
                ch = (Sl(b, 0, ln),)
            else:
                ch = (tuple(X.sel(b, i) for i in range(ln)),) if ln else ()
            if d.kind == 'Ints':
                args[n] = PList([list(c) if isinstance(c, tuple) else c for c in ch])
            else:
                args[n] = Str('s' if d.kind == 'Str' else 'u', ch)
        return args
    bases = {}

    def run_path(self, h, fix, prefix):
        """one path; returns None or the reason it is undecided"""
        self.begin_path(prefix)
        self.hname = h['name']
        self.inductive = h['opts'].get('inductive')
        self.MAXUNROLL = (3 if self.inductive is True else self.inductive) if self.inductive else 700
        und = None
        try:
            try:
                args = self.make_inputs(h, fix)
                self.call(h['func'], [], args)
                o = self.obl.setdefault('no escaping exception', [0, 0])
                o[0] += 1
                o[1] += 1
                self.paths_ok += 1
                if self.want_samples and len(self.samples) < 4 and (self.paths_ok & (self.paths_ok - 1)) == 0:
                    r, m = self.model_of(list(self.P.pc))
                    a = self.model_args(m) if r == 'sat' else None
                    if a is not None:
                        self.samples.append({'h': h['name'], 'args': a})
            except PyExc as e:
                o = self.obl.setdefault('no escaping exception', [0, 0])
                o[0] += 1
                nm = e.obj.cls.name
                msg = e.obj.d.get('message')
                msg = msg.py() if isinstance(msg, Str) else None
                r, m = self.model_of(list(self.P.pc))
                if r == 'unsat':
                    o[1] += 1
                else:
                    self.fails.append({'h': h['name'], 'name': 'no escaping exception', 'status': 'unknown' if r != 'sat' else 'open' if self.inductive else 'refuted',
                                       'args': self.model_args(m) if r == 'sat' else None, 'fix': dict(self.fixed),
                                       'detail': '%s: %s' % (nm, msg), 'line': self.line})
        except Stop:
            pass
        except Budget:
            und = 'time budget exhausted'
        except Unsupported as e:
            und = 'unsupported: %s' % e
            if os.environ.get('VERIF_TRACE'):
                und += '\n' + traceback.format_exc()[-3000:]
        except RecursionError:
            und = 'recursion'
        except Exception as e:
            und = 'engine: %s: %s at line %s' % (type(e).__name__, str(e)[:200], self.line)
            if os.environ.get('VERIF_TRACE'):
                und += '\n' + traceback.format_exc()[-3000:]
        finally:
            self.end_path()
        return und

    paths_ok = 0
    want_samples = True
    samples = ()

    def run_task(self, h, fix, work, slice_s, deadline):
        self.obl = {}
        self.fails = []
        self.samples = []
        self.paths_ok = 0
        self.loops_used = set()
        self.deadline = deadline
        SV.STATS.update({k: 0 for k in SV.STATS})
        SV.STATS['solver_time'] = 0.0
        self.cross_stat = [0, 0, 0]
        t0 = time.time()
        self.work = list(work)
        und = []
        paths = 0
        while self.work:
            if time.time() - t0 > slice_s and paths:
                break
            if time.time() > deadline:
                und.append('time budget exhausted')
                self.work = []
                break
            p = self.work.pop()
            u = self.run_path(h, fix, p)
            paths += 1
            if u:
                und.append(u)
                if len(und) > 20:
                    self.work = []
                    break
            if sum(1 for f in self.fails if f['status'] in ('refuted', 'open')) >= 3:
                self.work = []
        rest = self.work
        self.work = []
        return {'h': h['name'], 'fix': fix, 'obl': self.obl, 'fails': self.fails, 'und': und, 'paths': paths, 'rest': rest,
                'stats': dict(SV.STATS), 'reached': dict(self.reached), 'samples': self.samples, 'events': list(set(self.events)),
                'summaries': sorted(self.used_summaries), 'loops': sorted(self.loops_used), 'cross': list(self.cross_stat), 't': time.time() - t0}


def worker(E, inq, outq):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(12000)
    hs = {h['name']: h for h in E.harnesses}
    while True:
        m = inq.get()
        if m is None:
            return
        E.reached = {}
        E.events = []
        try:
            r = E.run_task(hs[m['h']], m['fix'], m['work'], m['slice'], m['deadline'])
        except BaseException as e:
            r = {'h': m['h'], 'fix': m['fix'], 'obl': {}, 'fails': [], 'und': ['worker: %r %s' % (e, traceback.format_exc()[-800:])], 'paths': 0,
                 'rest': [], 'stats': {}, 'reached': {}, 'samples': [], 'events': [], 'summaries': [], 'loops': [], 'cross': [0, 0, 0], 't': 0}
        outq.put(r)


def split_domain(h, tier):
    """list of fix dicts and whether the enumeration covers the declared domain"""
    opts = h['opts']
    names = opts.get('split') or []
    if isinstance(names, str):
        names = [names]
    restr = dict(opts.get('thorough' if tier != 'quick' and 'thorough' in opts else 'quick') or {})
    fixes = [{}]
    bounded = []
    for n in names:
        d = h['desc'][n]
        if d.kind == 'Int':
            full = None
            lo, hi = d.kw.get('lo'), d.kw.get('hi')
            if n in restr:
                vals = list(restr[n])
                if lo is None or hi is None or set(vals) != set(range(lo, hi + 1)):
                    bounded.append('%s in %s' % (n, short(vals)))
            else:
                vals = list(range(lo, hi + 1))
        elif d.kind == 'Bool':
            vals = [False, True]
        else:
            vals = list(range(len(d.kw['values'])))
            if n in restr:
                vals = [i for i in vals if conc(d.kw['values'][i]) in restr[n]]
                if len(vals) < len(d.kw['values']):
                    bounded.append('%s in %s' % (n, short([conc(d.kw['values'][i]) for i in vals])))
        fixes = [dict(f, **{n: v}) for f in fixes for v in vals]
    return fixes, bounded


def short(vals):
    if any(not isinstance(v, int) or isinstance(v, bool) for v in vals):
        return ','.join(repr(v) for v in vals)
    vals = sorted(vals)
    out = []
    i = 0
    while i < len(vals):
        j = i
        while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
            j += 1
        out.append(str(vals[i]) if i == j else '%d..%d' % (vals[i], vals[j]))
        i = j + 1
    return ','.join(out)


def pd(v):
    """engine option dict -> python"""
    if isinstance(v, PDict):
        return {pd(k): pd(x) for k, x in v.d.values()}
    if isinstance(v, PList):
        return [pd(x) for x in v.items()]
    if isinstance(v, Tup):
        return [pd(x) for x in v.items]
    if isinstance(v, Str):
        return v.py()
    if isinstance(v, XRange):
        return list(range(v.lo, v.hi, v.step))
    return v


def check_names(node, out):
    """literal names of check sites in a harness function"""
    if isinstance(node, list):
        for x in node:
            check_names(x, out)
    elif isinstance(node, dict):
        if node.get('_') == 'Call' and node['func'].get('_') == 'Name':
            f = ''.join(map(chr, node['func']['id']['v']))
            if f in ('check', 'check_eq') and node['args'] and node['args'][-1]['_'] == 'Str':
                out.add(''.join(map(chr, node['args'][-1]['s']['v'])))
        for k, v in node.items():
            if isinstance(v, (dict, list)):
                check_names(v, out)


def consts_of(asts):
    out = set()

    def go(n):
        if isinstance(n, list):
            for x in n:
                go(x)
        elif isinstance(n, dict):
            if n.get('_') == '$int':
                out.add(int(n['v']))
            elif n.get('_') in ('$s', '$u'):
                if len(n['v']) <= 3:
                    out.update(n['v'])
            else:
                for x in n.values():
                    if isinstance(x, (dict, list)):
                        go(x)
    for a in asts.values():
        go(a)
    return sorted(c for c in out if -1000 <= c < 1 << 40)


# ------------------------------------------------------------------ one property
class Run(object):
    def __init__(self, pid, tier, seed, only=None, budget=None, verbose=False):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.only = only
        self.verbose = verbose
        self.file = os.path.join(VERIF, 'props', 'p_%s.py' % pid)
        self.budget = budget or (200 if tier == 'quick' else 600)
        self.jy = Jy()
        self.jy2 = None
        self.t0 = time.time()
        self.execs = 0
        self.execs_nontrivial = 0
        self.errors = []

    def log(self, *a):
        if self.verbose:
            print('[%6.1f]' % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def setup(self):
        files = source_files() + lib_files()
        self.sources = files
        self.asts = self.jy.call(timeout=180, cmd='ast', files=files)
        self.log('ast')
        E = self.E = Eng()
        E.asts = self.asts
        sys.setrecursionlimit(12000)
        E.begin_path([])
        E.epoch = 0
        EPOCH[0] = 0
        self.load_err = None
        try:
            E.import_module('p_%s' % self.pid)
        except PyExc as e:
            msg = e.obj.d.get('message')
            self.load_err = 'import raises %s: %s (line %s)' % (e.obj.cls.name, msg.py() if isinstance(msg, Str) else '', E.line)
        except Exception as e:
            self.load_err = 'import: %s: %s (line %s)' % (type(e).__name__, e, E.line)
            if os.environ.get('VERIF_TRACE'):
                traceback.print_exc()
        E.P.pc = []
        E.journal = []
        for h in E.harnesses:
            h['opts'] = {k: pd(v) for k, v in h['opts'].items()}
        self.log('loaded', len(E.harnesses), self.load_err or '')

    def prove(self):
        E = self.E
        self.res = {}
        tasks = []
        hs = [h for h in E.harnesses if not self.only or h['name'] in self.only]
        for h in hs:
            fixes, bounded = split_domain(h, self.tier)
            if h['opts'].get('bounded'):
                bounded.append(h['opts']['bounded'])
            self.res[h['name']] = {'obl': {}, 'fails': [], 'und': [], 'paths': 0, 'reached': {}, 'samples': [], 'bounded': bounded, 'tasks': len(fixes), 't': 0.0, 'done': 0}
            if h['opts'].get('runtime_only'):
                continue
            for f in fixes:
                tasks.append({'h': h['name'], 'fix': f, 'work': [[]]})
        self.stats = {}
        self.events = set()
        self.summ = set()
        self.cross = [0, 0, 0]
        random.Random(self.seed).shuffle(tasks)
        # long tasks (large split values) first
        tasks.sort(key=lambda t: -sum(v for v in t['fix'].values() if isinstance(v, int)))
        # harnesses in turn
        cnt = {}
        for t in tasks:
            t['o'] = cnt[t['h']] = cnt.get(t['h'], 0) + 1
        tot = dict(cnt)
        tasks.sort(key=lambda t: t.pop('o'))
        if not tasks:
            return
        ctx = mp.get_context('fork')
        inq, outq = ctx.Queue(), ctx.Queue()
        nw = min(8, os.cpu_count() or 4)
        E.cross = self.tier == 'thorough'
        E.cross_deadline = time.time() + self.budget * 0.8
        ws = [ctx.Process(target=worker, args=(E, inq, outq), daemon=True) for _ in range(nw)]
        for w in ws:
            w.start()
        deadline = time.time() + self.budget
        pending = tasks[::-1]
        out = 0
        refuted_at = None
        while (pending or out):
            while pending and out < nw * 2:
                t = pending.pop()
                inq.put(dict(t, slice=3.0, deadline=deadline))
                out += 1
            try:
                r = outq.get(timeout=1)
            except queue.Empty:
                if not any(w.is_alive() for w in ws):
                    self.res[hs[0]['name']]['und'].append('all workers died')
                    break
                if time.time() > deadline + 60:
                    for n in self.res:
                        self.res[n]['und'].append('worker does not answer')
                    break
                if any(not w.is_alive() for w in ws) and time.time() > deadline + 20:
                    self.res[hs[0]['name']]['und'].append('a worker died')
                    break
                continue
            out -= 1
            d = self.res[r['h']]
            for k, v in r['obl'].items():
                o = d['obl'].setdefault(k, [0, 0])
                o[0] += v[0]
                o[1] += v[1]
            d['fails'].extend(r['fails'])
            d['und'].extend(r['und'])
            d['paths'] += r['paths']
            d['t'] += r['t']
            for k, v in r['reached'].items():
                d['reached'][k] = d['reached'].get(k, 0) + v
            if len(d['samples']) < 40:
                d['samples'].extend(r['samples'])
            for k, v in r['stats'].items():
                self.stats[k] = self.stats.get(k, 0) + v
            self.events.update(r['events'])
            self.summ.update(r['summaries'])
            d.setdefault('loops', set()).update(r['loops'])
            for i in range(3):
                self.cross[i] += r['cross'][i]
            rest = r['rest']
            if rest:
                # hand the remaining prefixes out again, in up to nw portions
                k = max(1, min(len(rest), nw - len(pending)))
                for i in range(k):
                    pending.append({'h': r['h'], 'fix': r['fix'], 'work': rest[i::k]})
            else:
                d['done'] += 1
            if self.verbose and r['t'] > 5:
                self.log('task', r['h'], r['fix'], 'paths', r['paths'], 't %.1f' % r['t'])
            if any(f['status'] == 'refuted' for f in r['fails']) and refuted_at is None:
                refuted_at = time.time()
            if refuted_at and time.time() - refuted_at > 4:
                pending = []
        for w in ws:
            inq.put(None)
        for w in ws:
            w.join(0.2)
            if w.is_alive():
                w.kill()

    # -------------------------------------------------------- concrete side
    def jrun(self, h, args, timeout=30):
        self.execs += 1
        try:
            r = self.jy.call(timeout=timeout, cmd='run', file=self.file, h=h, args=args)
        except JyDead:
            # once more in a fresh process with more time: a loaded machine is not a hang
            self.jy.start()
            try:
                r = self.jy.call(timeout=3 * timeout, cmd='run', file=self.file, h=h, args=args)
            except JyDead as e:
                self.jy.start()
                return ['hang', 'no answer within %d s (%s)' % (3 * timeout, e)]
            except RuntimeError as e:
                return ['exc', 'harness cannot be loaded: %s' % str(e)[-1500:]]
        except RuntimeError as e:
            return ['exc', 'harness cannot be loaded: %s' % str(e)[-1500:]]
        if r[0] == 'ok':
            self.execs_nontrivial += 1
        return r

    def jfuzz_fails(self, h, n, secs, seed, fails):
        """run-time evaluation, half of the time near the places where obligations failed"""
        hot, fixes = set(), []
        for f in fails:
            hot.update(int(x) for x in re.findall(r'-?\d+', f.get('detail') or '') if len(x) < 12)
            if f.get('fix') and f['fix'] not in fixes:
                fixes.append(f['fix'])
        hot = sorted({y for x in hot for y in (x, -x)} - {0, 1, -1})
        if not hot and not fixes:
            return self.jfuzz(h, n, secs, seed)
        tot = None
        parts = fixes[:3] + [{}]
        for i, fix in enumerate(parts):
            r = self.jfuzz(h, n, secs / len(parts), seed + i, fix, hot if i < len(parts) - 1 or not fixes else ())
            if tot is None:
                tot = r
            else:
                tot = dict(r, n=r['n'] + tot['n'], assume=r['assume'] + tot['assume'])
            if r['fail'] is not None:
                break
        return tot

    def jfuzz(self, h, n, secs, seed, fix=None, hot=()):
        cur = tempfile.mktemp(prefix='vpcur')
        try:
            r = self.jy.call(timeout=secs + 45, cmd='fuzz', file=self.file, h=h, n=n, secs=secs, seed=seed,
                             consts=self.consts + list(hot) * (len(self.consts) // max(1, len(hot)) + 1),
                             fix=fix or {}, cur=cur)
        except JyDead as e:
            try:
                args = json.load(open(cur))
            except Exception:
                args = None
            self.jy.start()
            if args is not None:
                r2 = self.jrun(h, args)
                if r2[0] not in ('ok', 'assume'):
                    return {'n': 0, 'assume': 0, 'fail': args, 'res': r2}
            return {'n': 0, 'assume': 0, 'fail': None, 'note': str(e)}
        except RuntimeError as e:
            return {'n': 0, 'assume': 0, 'fail': {}, 'res': ['exc', 'harness cannot be loaded: %s' % str(e)[-1500:]]}
        finally:
            if os.path.exists(cur):
                os.remove(cur)
        self.execs += r['n']
        self.execs_nontrivial += r['n'] - r['assume']
        return r

    def known(self, h, name, args):
        for k in self.kf:
            if k.get('status') == 'finding' and k['property'] == self.pid and k['harness'] == h:
                if k.get('args') is not None and k['args'] == args:
                    return True
        return False

    def go(self):
        self.kf = json.load(open(os.path.join(VERIF, 'known_findings.json'))) if os.path.exists(os.path.join(VERIF, 'known_findings.json')) else []
        self.setup()
        self.consts = consts_of(self.asts)
        self.prove()
        self.log('proved')
        viol = []
        self.fuzzinfo = {}
        und_h = []
        if not self.E.harnesses or self.load_err:
            # the verifier cannot load the module: contracts are evaluated at run time only
            names = []
            try:
                names = self.jy.call(timeout=60, cmd='list', file=self.file)
            except Exception as e:
                viol.append({'h': '(load)', 'name': 'the property\'s modules can be imported', 'args': {}, 'res': ['exc', str(e)[-1500:]], 'found': True})
            for n in names:
                self.res.setdefault(n, {'obl': {}, 'fails': [], 'und': [self.load_err or 'no harness'], 'paths': 0, 'reached': {}, 'samples': [], 'bounded': [], 'tasks': 0, 't': 0, 'done': 0})
        if not viol:
            for hn, d in self.res.items():
                h = [x for x in self.E.harnesses if x['name'] == hn]
                names = set()
                if h:
                    fn = [n for n in self.asts['p_%s' % self.pid]['body'] if n['_'] == 'FunctionDef' and ''.join(map(chr, n['name']['v'])) == hn]
                    check_names(fn, names)
                d['sites'] = sorted(names)
                d['unreached'] = sorted(n for n in names if n not in d['obl'])
                for f in [f for f in d['fails'] if f['status'] == 'open' and f['args'] is not None][:4]:
                    # refuted under a loop contract: believed only if the real code fails
                    r = self.jrun(hn, f['args'])
                    if r[0] in ('fail', 'exc', 'hang') and not self.known(hn, f['name'], f['args']):
                        viol.append(dict(f, res=r, found=True))
                        break
                if viol:
                    break
                ref = [f for f in d['fails'] if f['status'] == 'refuted']
                unk = [f for f in d['fails'] if f['status'] != 'refuted']
                got = None
                for f in ref[:12]:
                    r = self.jrun(hn, f['args'])
                    if r[0] in ('fail', 'exc', 'hang'):
                        got = dict(f, res=r, found=True)
                        if not self.known(hn, f['name'], f['args']):
                            break
                        got = None
                if got:
                    viol.append(got)
                    break
                if ref and not all(self.known(hn, f['name'], f['args']) for f in ref):
                    f = ref[0]
                    fz = self.jfuzz_fails(hn, 100000, 25, self.seed, ref)
                    self.fuzzinfo[hn] = fz
                    if fz['fail'] is not None:
                        viol.append(dict(f, args=fz['fail'], res=fz['res'], found=True))
                    else:
                        viol.append(dict(f, res=self.jrun(hn, f['args']), found=False))
                    break
                for l in sorted(d.get('loops', ())):
                    if 'loop contract of %s preserved' % l not in d['obl']:
                        d['und'].append('no iteration of %s explored' % l)
                if h and h[0]['opts'].get('inductive') and not d['samples'] and not d['und']:
                    d['und'].append('no feasible path')
                d['undecided'] = bool(unk or d['und'] or d['unreached'] or not d['obl'])
                if d['undecided'] and not (h and h[0]['opts'].get('runtime_only')):
                    und_h.append(hn)
        # run-time evaluation of the contracts on the real code
        if not viol:
            for hn, d in self.res.items():
                for s in d['samples'][:12]:
                    r = self.jrun(hn, s['args'])
                    if r[0] in ('fail', 'exc', 'hang') and not self.known(hn, '', s['args']):
                        viol.append({'h': hn, 'name': 'run-time evaluation of a verified path', 'args': s['args'], 'res': r, 'found': True, 'detail': '', 'status': 'runtime'})
                        break
                if viol:
                    break
        if not viol:
            left = max(20, (110 if self.tier == 'quick' else 260) - 0)
            tot_und = max(1, len(und_h))
            for hn, d in self.res.items():
                h = [x for x in self.E.harnesses if x['name'] == hn]
                o = h[0]['opts'] if h else {}
                if hn in und_h or o.get('runtime_only'):
                    n, secs = 10**7, min(30 if self.tier == 'quick' else 60, left / tot_und)
                else:
                    n, secs = 60, 1.5
                    if self.tier == 'thorough':
                        n, secs = 100000, 10
                fz = self.jfuzz_fails(hn, n, secs, self.seed, d['fails'])
                self.fuzzinfo[hn] = fz
                if fz['fail'] is not None and not self.known(hn, '', fz['fail']):
                    viol.append({'h': hn, 'name': 'run-time evaluation', 'args': fz['fail'], 'res': fz['res'], 'found': True, 'detail': '', 'status': 'runtime'})
                    break
        self.und_h = und_h
        self.finish(viol)
        return 1 if viol else 0

    def finish(self, viol):
        known = []
        for k in self.kf:
            if k.get('status') == 'finding' and k['property'] == self.pid:
                r = self.jrun(k['harness'], k['args'])
                if r[0] in ('fail', 'exc', 'hang'):
                    known.append(k)
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        gen = sum(o[0] for d in self.res.values() for o in d['obl'].values())
        dis = sum(o[1] for d in self.res.values() for o in d['obl'].values())
        bgen = sum(o[0] for d in self.res.values() if d['bounded'] for o in d['obl'].values())
        bdis = sum(o[1] for d in self.res.values() if d['bounded'] for o in d['obl'].values())
        funcs = {}
        for d in self.res.values():
            for q in d['reached']:
                if q.startswith('messaging'):
                    funcs[q] = funcs.get(q, 0) + d['reached'][q]
        lv = manifest_level(self.pid)
        bounded = {hn: d['bounded'] for hn, d in self.res.items() if d['bounded']}
        und = {hn: {'undecided': sorted(set(str(u)[:300] for u in d['und']))[:8], 'unknown': [f['name'] for f in d['fails'] if f['status'] != 'refuted'][:8], 'unreached_sites': d.get('unreached', [])}
               for hn, d in self.res.items() if hn in self.und_h}
        proved = [hn for hn, d in self.res.items() if hn not in self.und_h and not d['bounded'] and d['obl'] and all(o[0] == o[1] for o in d['obl'].values())]
        samples = []
        for hn, d in self.res.items():
            for s in d['samples'][:2]:
                samples.append(json.dumps(s)[:400])
        cov = {
            'obligations': gen - bgen,
            'discharged': dis - bdis,
            'bounded_obligations': bgen,
            'bounded_discharged': bdis,
            'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (self.pid, self.tier),
            'trusted_base': TRUSTED,
            'harnesses': {hn: {'obligations': sum(o[0] for o in d['obl'].values()), 'discharged': sum(o[1] for o in d['obl'].values()),
                               'paths': d['paths'], 'tasks': d['tasks'], 'check_sites': {k: v for k, v in sorted(d['obl'].items())},
                               'scope': 'all declared inputs' if not d['bounded'] else 'bounded: ' + '; '.join(d['bounded']),
                               'cpu_s': round(d['t'], 1)} for hn, d in self.res.items()},
            'proved_unbounded': proved,
            'bounded': bounded,
            'undecided': und,
            'functions_executed_symbolically': sorted(funcs),
            'functions_count': len(funcs),
            'summaries_used': sorted(self.summ),
            'loop_contracts': {hn: sorted(d['loops']) for hn, d in self.res.items() if d.get('loops')},
            'solver': {k: (round(v, 2) if isinstance(v, float) else v) for k, v in self.stats.items()},
            'back_end': 'term normalisation (interval, bit-slice, table) then z3 %s (QF_UFBV or integer arithmetic)' % z3v(),
            'cvc5_crosscheck': {'asked': self.cross[0], 'agree': self.cross[1], 'disagree': self.cross[2]},
            'evaluations': self.execs,
            'distinct_nontrivial': self.execs_nontrivial,
            'rule': 'run-time evaluation of the same contracts on the real code under Jython: models of verified paths and random inputs from the declared domains; non-trivial = precondition held and every check evaluated',
            'samples': samples[:12] or ['(none)'],
            'source_sha256': hashlib.sha256(b''.join(open(f, 'rb').read() for n, f in self.sources if n.startswith('messaging'))).hexdigest(),
        }
        if lv == 'other':
            cov['explanation'] = 'contract harnesses executed symbolically over the real sources; bounded parts are labelled'
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': lv, 'coverage': cov,
              'assumptions': ASSUME + sorted(self.events), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol),
              'known_findings': [k['what'] for k in known]}
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, '.%s.tmp' % self.pid)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, '%s.json' % self.pid))
        for v in viol:
            rp = os.path.join(EVID, '%s.replay.json' % self.pid)
            with open(rp, 'w') as f:
                json.dump({'property': self.pid, 'harness': v['h'], 'file': self.file, 'obligation': v['name'], 'obligation_detail': v.get('detail'),
                           'status': v.get('status'), 'args': v['args'], 'real_code_result': v['res'], 'source_line': v.get('line'),
                           'replay_cmd': 'python3-vt /verif/check.py --replay %s' % rp}, f, indent=1)
            print('obligation: %s / %s: %s' % (v['h'], v['name'], str(v.get('detail'))[:300]))
            print('real code: %s' % (str(v['res'])[:600]))
            print('VIOLATION property=%s replay=%s%s' % (self.pid, rp, '' if v['found'] else ' no-failing-input-found'))
        sys.stdout.flush()


TRUSTED = [
    'Jython 2.7 parser (AST extraction of the real sources, nothing dropped but comments)',
    'the interpreter semantics in /verif/engine (Python 2 subset, built-in and library models in lib.py, libmethods.py, dtlib.py)',
    'z3', 'term normalisation rules in /verif/engine/terms.py']
ASSUME = [
    'integers are mathematical (Python 2 int/long promote without overflow)',
    'library functions are modelled by assumed contracts: datetime/time, codecs registry, array, re (the literal patterns used), os/os.path (ghost file system), xml.dom.minidom, mimetypes, random',
    'logging and warnings have no effect on results',
    'no other thread mutates the objects during a call']


def z3v():
    import z3
    return z3.get_version_string()


def manifest_level(pid):
    try:
        m = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == pid:
                return c['level']
    except Exception:
        pass
    return 'proof'


def replay(path):
    v = json.load(open(path))
    jy = Jy()
    try:
        r = jy.call(timeout=90, cmd='run', file=v['file'], h=v['harness'], args=v['args'])
    finally:
        jy.stop()
    print(json.dumps(r))
    return 0 if r[0] in ('ok', 'assume') else 1


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only', nargs='*')
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    r = Run(a.pid, a.tier, a.seed, a.only, a.budget, a.v)
    try:
        rc = r.go()
    finally:
        r.jy.stop()
    if a.v:
        for hn, d in r.res.items():
            print(hn, 'paths', d['paths'], 't %.1f' % d['t'], 'obl', d['obl'], 'und', d['und'][:5], 'unreached', d.get('unreached'), 'fails', d['fails'][:3], 'fuzz', str(r.fuzzinfo.get(hn))[:300], file=sys.stderr)
        print(r.stats, file=sys.stderr)
    return rc
