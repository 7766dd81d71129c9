# Concrete (run-time) side of the harness module: executed by Jython with the real code.
import random, os, shutil, tempfile
SYMBOLIC = False
HARNESSES = []
STAT = {'checks': 0, 'names': {}}


class CheckFailed(Exception):
    pass


class AssumeFailed(Exception):
    pass


class Desc(object):
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


def Int(lo=None, hi=None, cap=None):
    # cap: largest value tried at run time
    return Desc('Int', lo=lo, hi=hi if cap is None else cap)


def Bool():
    return Desc('Bool')


def Enum(*v):
    return Desc('Enum', values=list(v))


def Str(len, lo=0, hi=255, allowed=None):
    return Desc('Str', len=len, lo=lo, hi=hi, allowed=allowed)


def Uni(len, lo=0, hi=0xffff, allowed=None):
    return Desc('Uni', len=len, lo=lo, hi=hi, allowed=allowed)


def Ints(len, lo=0, hi=255, allowed=None):
    return Desc('Ints', len=len, lo=lo, hi=hi, allowed=allowed)


def harness(**k):
    ds = dict((n, v) for n, v in k.items() if isinstance(v, Desc))
    opts = dict((n, v) for n, v in k.items() if not isinstance(v, Desc))

    def deco(f):
        HARNESSES.append({'name': f.__name__, 'func': f, 'desc': ds, 'opts': opts})
        return f
    return deco


def check(c, name):
    STAT['checks'] += 1
    STAT['names'][name] = STAT['names'].get(name, 0) + 1
    if not c:
        raise CheckFailed(name)


def check_eq(a, b, name):
    STAT['checks'] += 1
    STAT['names'][name] = STAT['names'].get(name, 0) + 1
    if not (a == b):
        raise CheckFailed('%s: got %s, expected %s' % (name, repr(a)[:400], repr(b)[:400]))


def assume(c):
    if not c:
        raise AssumeFailed()


def raises(ty, f, *a, **k):
    try:
        f(*a, **k)
    except ty:
        return True
    return False


def attempt(f, *a, **k):
    try:
        return (None, f(*a, **k))
    except CheckFailed:
        raise
    except AssumeFailed:
        raise
    except Exception, e:
        return (e.__class__.__name__, None)


_dir = [None]


def mkfile(content, name):
    if _dir[0] is None:
        _dir[0] = tempfile.mkdtemp()
    p = os.path.join(_dir[0], name)
    f = open(p, 'wb')
    f.write(content)
    f.close()
    return p


def rmfile(p):
    os.remove(p)


def cleanup():
    if _dir[0]:
        shutil.rmtree(_dir[0])
        _dir[0] = None


def parse_xml(s):
    import xml.dom.minidom as md
    if isinstance(s, unicode):
        s = s.encode('utf-8')

    def tree(o):
        at = {}
        for i in range(o.attributes.length):
            a = o.attributes.item(i)
            at[str(a.name)] = a.value
        return (str(o.tagName), at, [tree(c) for c in o.childNodes if c.nodeType == c.ELEMENT_NODE])
    return tree(md.parseString(s).documentElement)


def allof(l):
    # conjunction / disjunction without branching (every element is evaluated)
    return False not in [bool(x) for x in l]


def anyof(l):
    return True in [bool(x) for x in l]


def between(lo, x, hi):
    return lo <= x and x <= hi


def octets(v):
    if isinstance(v, basestring):
        return [ord(c) for c in v]
    return list(v)


def text(l):
    return ''.join([chr(x) for x in l])


def utext(l):
    return u''.join([unichr(x) for x in l])


# ------------------------------------------------------------------ loop contracts (see engine/induct.py)
def loop(qual, inv, k=0, upto=None, free=None, cond=None, entry=None, only=None):
    pass


def flat(f, seq, kind='s'):
    l = [f(x) for x in seq]
    if kind == 'l':
        return [x for y in l for x in y]
    return (u'' if kind == 'u' else '').join(l)


def fold(name, init, step):
    """F with F(0) = init and F(t + 1) = step(t, F(t))"""
    memo = [init]

    def F(t):
        while len(memo) <= t:
            memo.append(step(len(memo) - 1, memo[-1]))
        return memo[t]
    return F


def lemma(name, P, lo, hi):
    """P(j) for lo <= j <= hi"""
    def use(j):
        assert lo <= j <= hi and P(j), name
    return use


def needs(c, what):
    pass


def unfold(f, seq, i, kind='s'):
    return flat(f, seq, kind)


_over = []


def override(o, n, v):
    _over.append((o, n, o.__dict__[n]))
    setattr(o, n, v)


def concrete(v):
    return v


# ------------------------------------------------------------------ sampling
def pick_int(r, lo, hi, consts):
    if lo is None:
        lo = -(1 << 40)
    if hi is None:
        hi = lo + (1 << r.choice([4, 8, 16, 33, 70]))
    m = r.random()
    if hi - lo <= 3 or m < 0.4:
        return r.randint(lo, hi)
    if m < 0.55:
        return r.choice([lo, hi, min(hi, lo + 1), max(lo, hi - 1)])
    if m < 0.8 and consts:
        for _ in range(8):
            c = r.choice(consts) + r.choice([0, 0, 0, 1, -1])
            if lo <= c <= hi:
                return c
        return r.randint(lo, hi)
    v = 1 << r.randint(0, max(1, int(max(abs(lo), abs(hi))).bit_length()))
    v += r.choice([0, -1, 1])
    if lo <= v <= hi:
        return v
    v = lo + min(r.randint(0, 40), hi - lo)
    return v


def ok(c, d):
    if c < d.lo or c > d.hi:
        return False
    if d.allowed is None:
        return not (d.kind == 'Uni' and 0xd800 <= c <= 0xdfff)
    for a, b in d.allowed:
        if a <= c <= b:
            return True
    return False


def pick_code(r, d, consts, prof):
    for _ in range(60):
        m = r.random()
        if d.allowed is not None and m < 0.6:
            a, b = r.choice(d.allowed)
            c = r.randint(a, b)
        elif m < 0.2 and consts:
            c = r.choice(consts)
        elif m < 0.45 and d.kind == 'Uni':
            c = r.randint(d.lo, min(d.hi, 0x17f))
        elif m < 0.55:
            c = r.choice([d.lo, d.hi])
        else:
            c = r.randint(d.lo, d.hi)
        if ok(c, d):
            return c
    if d.allowed is not None:
        return d.allowed[0][0]
    return d.lo


_last = [None]


def sample(r, ds, consts):
    if _last[0] is not None and _last[0][0] is ds and r.random() < 0.15:
        env = neighbour(r, ds, consts, _last[0][1])
    else:
        env = fresh(r, ds, consts)
    _last[0] = (ds, env)
    return dict(env)


def neighbour(r, ds, consts, env):
    """the sample before with one element or value changed (state kept between calls shows up)"""
    env = dict(env)
    used = set([d.len for d in ds.values() if d.kind in ('Str', 'Uni', 'Ints')])
    n = r.choice(sorted(ds))
    d = ds[n]
    if d.kind in ('Str', 'Uni', 'Ints'):
        k = len(env[n])
        if k:
            i = r.choice([k - 1, r.randrange(k)])
            env[n] = env[n][:i] + mkseq(d.kind, [pick_code(r, d, consts, 0)]) + env[n][i + 1:]
    elif n in used:
        pass
    elif d.kind == 'Int':
        env[n] = int(pick_int(r, d.lo, d.hi, consts))
    elif d.kind == 'Bool':
        env[n] = not env[n]
    else:
        env[n] = r.choice(d.values)
    return env


def fresh(r, ds, consts):
    env = {}
    names = sorted(ds)
    for n in names:
        d = ds[n]
        if d.kind == 'Int':
            # int(): a long of the same value is another type in Python 2
            env[n] = int(pick_int(r, d.lo, d.hi, consts))
        elif d.kind == 'Bool':
            env[n] = r.random() < 0.5
        elif d.kind == 'Enum':
            env[n] = r.choice(d.values)
    for n in names:
        d = ds[n]
        if d.kind in ('Str', 'Uni', 'Ints'):
            ln = env[d.len] if isinstance(d.len, str) else d.len
            ln = min(ln, 40000)
            pool = [pick_code(r, d, consts, 0) for _ in range(max(1, min(ln, r.choice([1, 2, 5, 30, 400]))))]
            mode = r.random()
            if mode < 0.4:
                cs = [pick_code(r, d, consts, 0) if len(pool) > 3 and i < 200 else r.choice(pool) for i in range(ln)]
            elif mode < 0.75:
                cs = [r.choice(pool) for i in range(ln)]
            else:
                # runs of one value, short and long
                cs = []
                while len(cs) < ln:
                    cs.extend([r.choice(pool)] * min(ln - len(cs), 1 + int(2 ** (r.random() * r.choice([3, 12])))))
            if r.random() < 0.2:
                place(r, d, cs)
            env[n] = mkseq(d.kind, cs)
    return env


# texts that libraries treat in their own way: accents apart, ligatures, marks, ends of lines, white space, escapes
SPECIAL = [u'e\u0301', u'a\u0300', u'n\u0303', u'u\u0308', u'A\u030a', u'c\u0327', u'o\u0308', u'\ufb01', u'\u212b', u'\u2126', u'\uff21', u'\u0130', u'\u0131', u'\u017f',
           u'\ufeff', u'\ufffe', u'\u200b', u'\u200e', u'\xa0', u'\xad', u'\u2028', u'\u2029', u'\x85', u'\u3000', u'\r\n', u'\n', u'\r', u'\n\n', u' ', u'  ', u'\t', u'\x0b', u'\x0c',
           u'\x1a', u'\x1b', u'\x00', u'%s', u'%d', u'%', u'\\', u'\\n', u'\\u20ac', u'"', u"'", u'<', u'&amp;', u'&', u'\u20ac', u'\xdf', u'\xe9', u'\xc3\xa9', u'\xef\xbb\xbf', u'\xff\xfe', u'=?', u'{', u'[', u'~',
           u'\u0391', u'\u03c2', u'\u03c3', u'\xb5', u'\u03bc', u'\ud7ff', u'\ue000', u'0x', u'+', u'-', u'.', u'/', u';', u',', u'@']


def place(r, d, cs):
    """puts one or two of them at the start, at the end or anywhere"""
    for _ in range(r.choice([1, 1, 2])):
        x = r.choice(SPECIAL)
        if d.kind == 'Ints':
            x = x.encode(r.choice(['latin-1', 'utf-8', 'utf-16-be']), 'replace').decode('latin-1')
        x = [ord(c) for c in x]
        if len(x) <= len(cs) and all([ok(c, d) for c in x]):
            i = r.choice([0, len(cs) - len(x), r.randint(0, len(cs) - len(x))])
            cs[i:i + len(x)] = x


def mkseq(kind, cs):
    if kind == 'Str':
        return ''.join([chr(c) for c in cs])
    if kind == 'Uni':
        return u''.join([unichr(c) for c in cs])
    return [int(c) for c in cs]
